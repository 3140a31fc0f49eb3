"""Many requests outstanding at once, recorded as a history and judged against sequential files.

The client keeps to what the kernel guarantees: operations that change one file (write, truncate, fsync, rename, link, unlink)
exclude each other per file, operations that change a folder exclude each other per folder.  Everything else overlaps: reads,
attribute requests, opens, releases, other files, other folders, commands on the pipe.

A history is made of rounds.  In a round the operations overlap; at its end everything is answered and all files are looked at,
so that the next round starts from a known state.  judge() works on what was recorded only, a stored history can be judged again.
"""
import errno
import os
import select
import struct
import time

from . import fuse
from .fuse import Dead, FuseError, Hang
from .session import describe, pattern

OUT = fuse.OUT_HEADER


class F:
    n = 0

    def __init__(self):
        F.n += 1
        self.id = F.n
        self.names = {}          # path -> node
        self.handles = []        # (node, fh, flags, path)
        self.data = b""
        self.disk = b""
        self.busy = False        # an operation that changes it is outstanding
        self.moving = 0          # one that changes its names is
        self.dead = False
        self.ops = []            # this round: {kind, s, e, ...}, in the order they were issued
        self.looks = []          # this round: reads and attributes


class Conc:
    def __init__(self, fs, r, bs, relaxed=False, window=8, commands=("clear", "checkpoint"), weights=None, max_blocks=8, noise=()):
        self.fs, self.r, self.bs, self.relaxed, self.window = fs, r, bs, relaxed, window
        self.commands, self.noise = commands, noise
        self.mb = max_blocks
        self.clock = 0
        self.files = []
        self.dirs = ["/", "/x", "/y"]
        self.dirnode = {"/": 1}
        self.dirbusy = set()
        self.pend = {}           # unique -> record
        self.seed = 0
        self.rounds = []
        self.stats, self.tags = {}, set()
        self.overlaps = 0
        self.judging = True      # False: only progress matters (faults may clear the cache at any time)
        self.compared = self.bytes = 0
        self.w = {"write": 16, "read": 10, "getattr": 5, "fsync": 3, "truncate": 3, "open": 3, "release": 3, "create": 2, "unlink": 1.5,
                  "rename": 2, "link": 1, "readdir": 1, "lookup": 2, "utimens": 1}
        self.w.update(weights or {})

    def tick(self):
        self.clock += 1
        return self.clock

    # ---- set up ----

    def setup(self, n):
        for d in self.dirs[1:]:
            self.fs.mkdir(d)
            self.dirnode[d] = self.fs.lookup(1, d[1:])[0]
        for i in range(n):
            p = self.fresh(self.r.choice(self.dirs))
            h = self.fs.create(p, os.O_RDWR)
            f = F()
            f.names[p] = h.node
            f.handles.append((h.node, h.fh, os.O_RDWR, p))
            self.files.append(f)
            if self.r.random() < 0.7:
                d = pattern(self.next_seed(), self.r.randrange(1, self.mb * self.bs))
                self.fs.write(h, 0, d)
                self.fs.fsync(h)
                f.data = f.disk = d

    def next_seed(self):
        self.seed += 1
        return (self.seed << 8) + 7

    def fresh(self, d):
        used = {p for f in self.files for p in f.names}
        used |= getattr(self, "reserved", set())
        while True:
            p = (d if d != "/" else "") + "/" + self.r.choice("abcdefghijkl") + str(self.r.randrange(9))
            if p not in used:
                return p

    # ---- issuing ----

    def candidates(self):
        return [f for f in self.files if not f.dead]

    def issue(self):
        """Sends one operation that may be outstanding together with those that are; False when the dice fell badly."""
        r = self.r
        kind = r.choices(list(self.w), list(self.w.values()))[0]
        live = self.candidates()
        if kind == "create":
            d = r.choice(self.dirs)
            if d in self.dirbusy or len(live) >= 10:
                return False
            p = self.fresh(d)
            f = F()
            f.busy = True
            self.dirbusy.add(d)
            self.reserved.add(p)
            name = p.rsplit("/", 1)[1]
            body = struct.pack("<IIII", os.O_RDWR | os.O_CREAT, 0o644 | 0o100000, 0o22, 0) + name.encode() + b"\0"
            self.post(kind, fuse.CREATE, self.dirnode[d], body, f=f, d=[d], path=p)
            return True
        if not live:
            return False
        if kind in ("readdir",):
            d = r.choice(self.dirs)
            self.post(kind, fuse.OPENDIR, self.dirnode[d], struct.pack("<II", 0, 0))
            return True
        f = r.choice(live)
        if kind in ("read", "getattr"):
            hs = [h for h in f.handles if h[2] & 3 != os.O_WRONLY]
            if kind == "getattr":
                if hs and r.random() < 0.5:
                    h = r.choice(hs)
                    self.post(kind, fuse.GETATTR, h[0], struct.pack("<IIQ", 1, 0, h[1]), f=f, use=h)
                elif f.names and not f.moving:
                    self.post(kind, fuse.GETATTR, r.choice(list(f.names.values())), struct.pack("<IIQ", 0, 0, 0), f=f, soft=True)
                else:
                    return False
                return True
            if not hs:
                return False
            h = r.choice(hs)
            off, n = self.place(f)
            n = min(n * r.choice((1, 1, 2)), fuse.MAX_IO)
            self.post(kind, fuse.READ, h[0], fuse.READ_IN.pack(h[1], off, n, 0, 0, h[2], 0), f=f, use=h, off=off, n=n)
            return True
        if kind == "open":
            if not f.names or f.moving or len(f.handles) > 3:
                return False
            p = r.choice(list(f.names))
            self.post(kind, fuse.OPEN, f.names[p], struct.pack("<II", os.O_RDWR, 0), f=f, path=p, soft=True)
            return True
        if kind == "lookup":
            if not f.names or f.moving:
                return False
            p = r.choice(list(f.names))
            d, name = self.split(p)
            self.post(kind, fuse.LOOKUP, self.dirnode[d], name.encode() + b"\0", f=f, soft=True)
            return True
        if kind == "release":
            hs = [h for h in f.handles if not self.inuse(h)]
            if not hs or (len(f.handles) == 1 and r.random() < 0.6):
                return False
            h = r.choice(hs)
            f.handles.remove(h)
            self.post(kind, fuse.RELEASE, h[0], struct.pack("<QIIQ", h[1], h[2], 0, 0), f=f)
            return True
        if f.busy:
            return False
        if kind in ("write", "fsync", "utimens", "truncate"):
            hs = [h for h in f.handles]
            if not hs:
                if kind != "truncate" or not f.names:
                    return False
            f.busy = True
            h = r.choice(hs) if hs else None
            if kind == "write":
                off, n = self.place(f)
                sd = self.next_seed()
                self.post(kind, fuse.WRITE, h[0], fuse.WRITE_IN.pack(h[1], off, n, 0, 0, h[2], 0) + pattern(sd, n), f=f, use=h, off=off, n=n,
                          seed=sd)
            elif kind == "fsync":
                self.post(kind, fuse.FSYNC, h[0], struct.pack("<QII", h[1], r.randrange(2), 0), f=f, use=h)
            elif kind == "utimens":
                self.post(kind, fuse.SETATTR, h[0], fuse.SETATTR_IN.pack(fuse.FATTR_MTIME | fuse.FATTR_ATIME, 0, 0, 0, 0, 1000, 1000, 0, 0, 0, 0,
                                                                         0, 0, 0, 0, 0), f=f, use=h)
            else:
                size = self.tsize(f)
                if h and r.random() < 0.5:
                    v, node, fh = fuse.FATTR_SIZE | fuse.FATTR_FH, h[0], h[1]
                elif f.names:
                    v, node, fh = fuse.FATTR_SIZE, r.choice(list(f.names.values())), 0
                else:
                    f.busy = False
                    return False
                self.post(kind, fuse.SETATTR, node, fuse.SETATTR_IN.pack(v, 0, fh, size, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0), f=f, use=h,
                          size=size)
            return True
        # names
        if not f.names or any(q["f"] is f and q.get("soft") for q in self.pend.values()):
            return False
        p = r.choice(list(f.names))
        d, name = self.split(p)
        if d in self.dirbusy:
            return False
        if kind == "unlink":
            if any(h[3] == p for h in f.handles) or (len(live) < 4 and len(f.names) == 1):
                return False
            f.busy = True
            f.moving += 1
            self.dirbusy.add(d)
            self.post(kind, fuse.UNLINK, self.dirnode[d], name.encode() + b"\0", f=f, d=[d], path=p)
            return True
        if kind == "link":
            e = r.choice(self.dirs)
            if e in self.dirbusy or len(f.names) > 2:
                return False
            q = self.fresh(e)
            f.busy = True
            f.moving += 1
            self.dirbusy.add(e)
            self.reserved.add(q)
            self.post(kind, fuse.LINK, self.dirnode[e], struct.pack("<Q", f.names[p]) + self.split(q)[1].encode() + b"\0", f=f, d=[e], path=q)
            return True
        if kind == "rename":
            over = None
            if r.random() < 0.5:
                os_ = [g for g in live if g is not f and not g.busy and g.names and not g.handles
                       and not any(x["f"] is g for x in self.pend.values())]
                if os_ and len(live) > 3:
                    over = r.choice(os_)
            q = r.choice(list(over.names)) if over else self.fresh(r.choice(self.dirs))
            e, qn = self.split(q)
            if e in self.dirbusy:
                return False
            for g in (f, over):
                if g:
                    g.busy = True
                    g.moving += 1
            self.dirbusy |= {d, e}
            self.reserved.add(q)
            self.post(kind, fuse.RENAME, self.dirnode[d], struct.pack("<Q", self.dirnode[e]) + name.encode() + b"\0" + qn.encode() + b"\0",
                      f=f, d=[d, e], path=p, to=q, over=over)
            return True
        return False

    def split(self, p):
        d, n = p.rsplit("/", 1)
        return d or "/", n

    def inuse(self, h):
        return any(q.get("use") and q["use"][1] == h[1] for q in self.pend.values())

    def guess(self, f):
        """About how long the file is (operations may be outstanding)."""
        return getattr(f, "len", len(f.data))

    def place(self, f):
        r, bs, size = self.r, self.bs, self.guess(f)
        k = r.random()
        if k < 0.5:
            off = r.randrange(self.mb) * bs
        elif k < 0.75:
            off = r.randrange(max(1, size + 1))
        else:
            off = max(0, size - r.randrange(bs + 1))
        n = r.choice((bs, 2 * bs, 3 * bs, r.randrange(1, bs + 1), r.randrange(1, 3 * bs), 1))
        return min(off, self.mb * bs), min(n, fuse.MAX_IO)

    def tsize(self, f):
        r = self.r
        return r.choice((0, r.randrange(self.mb) * self.bs, r.randrange(self.guess(f) + 1), r.randrange(self.mb * self.bs)))

    def post(self, kind, opcode, node, body, **rec):
        rec.update(kind=kind, s=self.tick(), e=None)
        f = rec.get("f")
        if f is not None:
            if kind in ("read", "getattr", "lookup"):
                f.looks.append(rec)
            elif kind not in ("open", "release", "create"):
                f.ops.append(rec)
            if kind == "write":
                f.len = max(self.guess(f), rec["off"] + rec["n"])
            elif kind == "truncate":
                f.len = rec["size"]
        for q in self.pend.values():
            same = f is not None and (q.get("f") is f)
            self.tags.add("+".join(sorted((kind, q["kind"]))) + ("/same" if same else ""))
        if self.cmd is not None and self.cmd["e"] is None:
            self.tags.add(f"{self.cmd['kind']}+{kind}")
        self.overlaps += len(self.pend)
        self.stats[kind] = self.stats.get(kind, 0) + 1
        u = self.fs.send(opcode, node, body)
        self.pend[u] = rec
        rec.setdefault("f", None)

    # ---- answers ----

    def receive(self, timeout):
        """One answer, or None."""
        got, _, _ = select.select([self.fs.client], [], [], timeout)
        if not got:
            return False
        u = self.fs.recv_one(1)
        err, data = self.fs.pending.pop(u)
        rec = self.pend.pop(u)
        rec["e"] = self.tick()
        rec["err"] = -err
        self.answer(rec, data)
        return True

    def answer(self, rec, data):
        kind, f = rec["kind"], rec["f"]
        for d in rec.get("d", ()):
            self.dirbusy.discard(d)
        if rec["err"] and not self.judging:
            if f is not None and kind not in ("read", "getattr", "lookup", "open", "release", "create"):
                f.busy = False
                for g in (f, rec.get("over")):
                    if g and kind in ("unlink", "link", "rename"):
                        g.busy = False
                        g.moving -= 1
            rec.pop("use", None)
            return
        if rec["err"]:
            self.bad(f"{kind} failed with {errno.errorcode.get(rec['err'], rec['err'])}", rec)
        if kind == "read":
            rec["data"] = data
        elif kind == "getattr":
            rec["size"] = fuse.Attr(data[16:104]).size
        elif kind == "lookup":
            rec["size"] = fuse.Attr(data[40:128]).size
        elif kind == "create":
            node = fuse.ENTRY.unpack_from(data)[0]
            fh = struct.unpack_from("<QI", data, 128)[0]
            f.names[rec["path"]] = node
            f.handles.append((node, fh, os.O_RDWR, rec["path"]))
            f.busy = False
            f.born = rec["s"], rec["e"]
            self.files.append(f)
        elif kind == "open":
            f.handles.append((self.node_of(f, rec["path"]), struct.unpack_from("<QI", data)[0], os.O_RDWR, rec["path"]))
        elif kind == "readdir":
            fh = struct.unpack_from("<Q", data)[0]
            self.pend[self.fs.send(fuse.RELEASEDIR, 1, struct.pack("<QIIQ", fh, 0, 0, 0))] = dict(kind="releasedir", f=None, s=self.tick(), e=None)
        elif kind in ("write", "fsync", "utimens", "truncate"):
            f.busy = False
            if kind == "write" and struct.unpack_from("<I", data)[0] != rec["n"]:
                self.bad(f"a write of {rec['n']} bytes was cut to {struct.unpack_from('<I', data)[0]}", rec)
        elif kind == "unlink":
            f.busy = False
            f.moving -= 1
            del f.names[rec["path"]]
            f.dead = not f.names and not f.handles
        elif kind == "link":
            f.busy = False
            f.moving -= 1
            f.names[rec["path"]] = fuse.ENTRY.unpack_from(data)[0]
        elif kind == "rename":
            f.busy = False
            f.moving -= 1
            node = f.names.pop(rec["path"])
            f.names[rec["to"]] = node
            f.handles = [(h[0], h[1], h[2], rec["to"] if h[3] == rec["path"] else h[3]) for h in f.handles]
            g = rec.get("over")
            if g:
                g.busy = False
                g.moving -= 1
                del g.names[rec["to"]]
                g.dead = not g.names and not g.handles
        rec.pop("use", None)

    def node_of(self, f, path):
        return f.names[path] if path in f.names else next(iter(f.names.values()))

    def bad(self, what, rec=None):
        if not self.judging:
            return
        from .session import Violation
        raise Violation("conc.answer", what + (f" ({ {k: v for k, v in rec.items() if k not in ('f', 'over', 'data', 'use')} })" if rec else ""))

    # ---- the command pipe ----

    def start_command(self):
        kind = self.r.choice(self.commands)
        text = {"clear": b"lazyfs::clear-cache\n", "checkpoint": b"lazyfs::cache-checkpoint\n"}[kind]
        self.cmd = {"kind": kind, "s": self.tick(), "e": None, "stage": 0}
        self.stats[kind] = self.stats.get(kind, 0) + 1
        for q in self.pend.values():
            self.tags.add(f"{kind}+{q['kind']}")
        os.write(self.fs.fifo_fd, text)

    def poll_command(self):
        c = self.cmd
        if c is None or c["e"] is not None:
            return
        if self.fs.fifo_pending():
            return
        if c["stage"] == 0:
            c["stage"] = 1
            os.write(self.fs.fifo_fd, b"lazyfs::help\n")
        else:
            c["e"] = self.tick()

    # ---- a round ----

    def round(self, n, with_command):
        fs, r = self.fs, self.r
        self.reserved = set()
        self.cmd = None
        for f in self.files:
            f.ops, f.looks = [], []
            f.len = len(f.data)
            f.fresh = False
        before = {f.id for f in self.files}
        at = r.randrange(n) if with_command else -1
        noise_at = {r.randrange(n) for _ in range(3)} if self.noise else ()
        issued = stalls = 0
        end = time.monotonic() + fs.timeout
        while issued < n or self.pend or (self.cmd and self.cmd["e"] is None):
            if issued < n and len(self.pend) < self.window:
                if issued == at and self.cmd is None:
                    self.start_command()
                if issued in noise_at:
                    fs.pipe(r.choice(self.noise).encode() + b"\n")
                    noise_at = noise_at - {issued}
                if self.issue():
                    issued += 1
                    stalls = 0
                else:
                    stalls += 1
                    if stalls > 200 and not self.pend:
                        issued = n
                if stalls < 20 and r.random() < 0.8:
                    continue
            self.poll_command()
            idle = issued >= n or len(self.pend) >= self.window or stalls >= 20
            if self.receive(0.002 if idle else 0):
                end = time.monotonic() + fs.timeout
                stalls = 0
            elif not fs.alive():
                raise Dead("lazyfs went away")
            elif time.monotonic() > end:
                what = sorted(q["kind"] for q in self.pend.values())
                raise Hang(f"no answer to {what}" if what else f"the command {self.cmd['kind']} does not finish")
        self.look(before)

    def look(self, before):
        """Everything is quiet: what is there now."""
        fs = self.fs
        fs.pipe_done()
        if not self.judging:
            self.files = [f for f in self.files if not f.dead]
            return
        out = []
        listed = {}
        for d in self.dirs:
            listed[d] = sorted(n for n, t in fs.readdir(d) if n not in (".", ".."))
            want = sorted([self.split(p)[1] for f in self.files for p in f.names if self.split(p)[0] == d]
                          + [x[1:] for x in self.dirs if d == "/" and x != "/"])
            if listed[d] != want:
                self.bad(f"{d} lists {listed[d]} once all is quiet, expected {want}")
        for f in self.files:
            if f.dead:
                continue
            rec = {"id": f.id, "new": f.id not in before, "data0": f.data, "disk0": f.disk, "paths": sorted(f.names)}
            if f.handles:
                node, fh = f.handles[0][:2]
                a = fs.getattr_node(node, fh)
                h = fuse.Handle(node, fh, os.O_RDWR)
            else:
                p = sorted(f.names)[0]
                a = fs.getattr_node(f.names[p])
                h = fs.open_node(f.names[p], os.O_RDONLY)
            rec["size"] = a.size
            rec["data"] = fs.read_all(h, a.size)
            if not f.handles:
                fs.release(h)
            sizes = {fs.getattr_node(nd).size for nd in f.names.values()} | {a.size}
            if len(sizes) > 1:
                self.bad(f"the names of one file show different sizes once all is quiet: {sizes}")
            if f.names:
                with open(fs.root + sorted(f.names)[0], "rb") as fd:
                    rec["disk"] = fd.read()
                rec["nlink"] = (a.nlink, len(f.names))
                if a.nlink != len(f.names):
                    self.bad(f"link count {a.nlink} of {sorted(f.names)} once all is quiet")
            else:
                rec["disk"] = None
            rec["ops"] = [{k: q.get(k) for k in ("kind", "s", "e", "off", "n", "seed", "size")} for q in f.ops]
            rec["looks"] = [{k: q.get(k) for k in ("kind", "s", "e", "off", "n", "size", "data")} for q in f.looks]
            out.append(rec)
        cmd = {k: self.cmd[k] for k in ("kind", "s", "e")} if self.cmd else None
        rnd = {"files": out, "cmd": cmd, "relaxed": self.relaxed}
        self.rounds.append(rnd)
        self.rounds = self.rounds[-2:] if not os.environ.get("CONC_ALL") else self.rounds
        bad, counts = judge(rnd)
        self.compared += counts[0]
        self.bytes += counts[1]
        if bad:
            from .session import Violation
            raise Violation(*bad)
        by = {x["id"]: x for x in out}
        keep = []
        for f in self.files:
            if f.dead:
                continue
            f.data = by[f.id]["data"]
            f.disk = by[f.id]["disk"] if by[f.id]["disk"] is not None else f.disk
            keep.append(f)
        self.files = keep

    def sync_all(self):
        """At the end: after a sync of each file the backing files hold exactly what was seen."""
        for f in self.files:
            for p in list(f.names)[:1]:
                h = self.fs.open_node(f.names[p], os.O_RDWR)
                self.fs.fsync(h)
                self.fs.release(h)
                with open(self.fs.root + p, "rb") as fd:
                    d = fd.read()
                self.compared += 1
                if d != f.data:
                    from .session import Violation
                    raise Violation("conc.sync", f"after all was quiet and {p} was synced its backing file has {describe(d, f.data)}")


def effect(op, data, disk):
    k = op["kind"]
    if k == "write":
        b = bytearray(data)
        if op["off"] > len(b):
            b += bytes(op["off"] - len(b))
        b[op["off"]:op["off"] + op["n"]] = pattern(op["seed"], op["n"])
        return bytes(b), disk
    if k == "truncate":
        return (data[:op["size"]] + bytes(max(0, op["size"] - len(data)))), disk
    if k in ("fsync", "checkpoint"):
        return data, data
    if k == "clear":
        return disk, disk
    return data, disk


def look_ok(q, versions, lo, hi, bs_free=True):
    """None, or what is wrong with a read or an attribute that overlapped versions lo..hi."""
    vs = []
    for v in versions[lo:hi + 1]:
        if not vs or v is not vs[-1]:
            vs.append(v)
    if q["kind"] != "read":
        # (a write that grows the file may be seen half done)
        if not min(map(len, vs)) <= q["size"] <= max(map(len, vs)):
            return f"size {q['size']} where {sorted({len(v) for v in vs})} would be right"
        return None
    got, off, n = q["data"], q["off"], q["n"]
    lens = [min(n, max(0, len(v) - off)) for v in vs]
    if not min(lens) <= len(got) <= max(lens):
        return f"{len(got)} bytes at {off} where {sorted(set(lens))} would be right"
    if any(v[off:off + len(got)] == got for v in vs):
        return None
    if len(vs) == 1:
        return "at offset %d: " % off + describe(got, vs[0][off:off + n])
    for i, b in enumerate(got):
        if all(b != (v[off + i] if off + i < len(v) else 0) for v in vs):
            return f"byte {off + i} is {b:02x}, which it never was meanwhile ({len(vs)} versions)"
    return None


def judge(rnd):
    """((kind, detail) or None, (comparisons, bytes)): is the round one of sequential files?"""
    cmd, relaxed = rnd["cmd"], rnd["relaxed"]
    compared = nbytes = 0
    windows = []
    for f in rnd["files"]:
        ops = f["ops"]
        cuts, why = [], None
        for c in (range(len(ops) + 1) if cmd else [None]):
            seq = list(ops)
            if cmd:
                seq.insert(c, cmd)
                # real time: what ended before the command began comes before it, what began after its end comes after
                if any(o["e"] < cmd["s"] for o in ops[c:]) or any(o["s"] > cmd["e"] for o in ops[:c]):
                    continue
            data, disk = f["data0"], f["disk0"]
            versions = [data]
            for o in seq:
                data, disk = effect(o, data, disk)
                versions.append(data)
            compared += 1
            nbytes += len(data)
            if f["data"] != data or f["size"] != len(data):
                why = ("conc.final", f"{f['paths']} once all is quiet: {describe(f['data'], data)}, size {f['size']}")
            elif not relaxed and f["disk"] is not None and f["disk"] != disk:
                why = ("conc.disk", f"the backing file of {f['paths']} once all is quiet: {describe(f['disk'], disk)}")
            else:
                for q in f["looks"]:
                    lo = max([i + 1 for i, o in enumerate(seq) if o["e"] < q["s"]], default=0)
                    hi = min([i for i, o in enumerate(seq) if o["s"] > q["e"]], default=len(seq))
                    w = look_ok(q, versions, lo, hi)
                    compared += 1
                    if w:
                        why = ("conc." + q["kind"], f"{f['paths']}: {w}")
                        break
                else:
                    # the moments at which the command can have happened
                    if cmd:
                        a = max([cmd["s"]] + [o["s"] for o in ops[:c]])
                        b = min([cmd["e"]] + [o["e"] for o in ops[c:]])
                        cuts.append((a, b))
                    else:
                        cuts.append(None)
        if not cuts:
            return why or ("conc.order", f"{f['paths']}: no order of the operations explains the contents"), (compared, nbytes)
        if cmd:
            windows.append((f, cuts))
    if cmd and windows:
        points = sorted({a for _, cuts in windows for a, b in cuts})
        if not any(all(any(a <= t <= b for a, b in cuts) for _, cuts in windows) for t in points):
            return ("conc.atomic", f"no moment explains what the {cmd['kind']} command did to all files: "
                    + "; ".join(f"{f['paths']} {cuts}" for f, cuts in windows)), (compared, nbytes)
    return None, (compared, nbytes)
