"""Large sparse files: the same guarantees at offsets that do not fit into 31 or 32 bits.

The model keeps windows of bytes, everything outside is zero.  One case is a short random history in these windows; the backing file is
made (sparse) before LazyFS starts.  Kinds: data (what is read), size, disk (backing file after a sync), lazy (backing file before one),
clear (content after clear-cache or a kill).
"""
import os
import random

from . import fuse
from .fuse import Dead, FuseError, Hang
from .session import Inconclusive, Violation

G31, G32 = 1 << 31, 1 << 32


ROOMY = [(512, 512, 4096), (4096, 4096, 1024), (64, 256, 4096), (1000, 2000, 2048), (24, 72, 8192), (65536, 65536, 256)]
TIGHT = [(512, 512, 4), (512, 1024, 4), (64, 256, 6), (4096, 4096, 3)]


def cases(prop, tier, seed, quick, geoms=None, **extra):
    geoms = geoms or (TIGHT if extra.get("tight") else ROOMY)
    if tier != "quick":
        quick *= 10
    out = []
    for i in range(quick):
        g = geoms[i % len(geoms)]
        out.append(dict({"far": True, "cfg": {"manual": g}, "seed": f"{prop}-{seed}-{i}", "n": 40}, **extra))
    return out


class Far:
    def __init__(self, case, ctx):
        self.case, self.r = case, random.Random(case["seed"])
        self.bs = case["cfg"]["manual"][0]
        self.fs = fuse.LazyFS(ctx["bin"][case.get("variant", "plain")], base=ctx["base"], timeout=60.0)
        self.cfg = dict(case["cfg"])
        if case.get("eviction"):
            self.cfg["eviction"] = True
        self.stats, self.tags, self.compared, self.bytes = {}, set(), 0, 0
        # without room in the cache the backing file may change at any time
        self.strict = not case.get("tight")
        self.ops = []

    def count(self, what):
        self.stats[what] = self.stats.get(what, 0) + 1

    # ---- the model ----

    def make(self):
        r, bs = self.r, self.bs
        last = bs * ((1 << 31) - 64)                      # block numbers from here on are a known finding (C01)
        marks = [m for m in (G31, G32, 3 * G31, 1 << 36, bs * (1 << 22), bs * (1 << 30), last) if m <= last]
        if "base" in self.case:
            marks = [self.case["base"]]
        self.path = self.fs.root + "/a"
        self.width = 24 * bs
        for m in r.sample(marks, len(marks)):
            self.base = m - r.randrange(0, self.width) if "base" not in self.case else m - 4 * bs
            self.size = self.base + self.width - r.choice((0, 1, bs // 2, r.randrange(0, 10 * bs)))
            fd = os.open(self.path, os.O_CREAT | os.O_RDWR, 0o666)
            try:
                os.ftruncate(fd, self.size)
                break
            except OSError:
                continue                                  # the scratch file system has no such big files
            finally:
                os.close(fd)
        else:
            return False
        low = r.randrange(0, 40) * bs
        # window starts; the last one holds the end of the file
        self.starts = sorted({low, r.choice((G31 - 5 * bs, self.base // 2, low)), self.base})
        self.starts = [s for s in self.starts if s + self.width <= self.base or s == self.base]
        self.win = {s: bytearray(self.width) for s in self.starts}
        self.tags.add(f"far/{bs}/{self.base.bit_length()}/{self.case['cfg']['manual'][1] // bs}")
        with open(self.path, "r+b") as f:
            for s in self.starts:
                n = min(self.width, self.size - s)
                d = r.randbytes(n)
                self.win[s][:n] = d
                f.seek(s)
                f.write(d)
        os.chmod(self.path, 0o666)
        fuse.own(self.path)
        self.synced = self.copy()
        return True

    def copy(self):
        return self.size, {s: bytes(w) for s, w in self.win.items()}

    def check(self, ok, kind, what):
        self.compared += 1
        if not ok:
            raise Violation("far." + kind, f"block size {self.bs}, {what}")

    def where(self, a, b, off):
        i = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
        return f"{len(a)} bytes instead of {len(b)}, first difference at offset {off + i}"

    # ---- comparisons ----

    def look(self, h, state=None, kind="data"):
        size, win = state or (self.size, self.win)
        st = self.fs.fstat(h).size
        self.check(st == size, "size" if kind == "data" else kind, f"size {st} instead of {size}")
        for s in self.starts:
            n = min(self.width, size - s)
            if n <= 0:
                continue
            got = self.read(h, s, n)
            self.bytes += n
            self.check(got == bytes(win[s][:n]), kind, f"read at {s}: " + self.where(got, bytes(win[s][:n]), s))

    def read(self, h, off, n):
        out = b""
        while n > len(out):
            part = self.fs.read(h, off + len(out), min(n - len(out), 131072))
            if not part:
                break
            out += part
        return out

    def disk(self, state, kind, after):
        size, win = state
        fd = os.open(self.path, os.O_RDONLY)
        try:
            self.check(os.fstat(fd).st_size == size, kind, f"after {after} the backing file has {os.fstat(fd).st_size} bytes instead of {size}")
            for s in self.starts:
                n = min(self.width, size - s)
                if n > 0:
                    got = os.pread(fd, n, s)
                    self.bytes += n
                    self.check(got == win[s][:n], kind, f"after {after} the backing file at {s}: " + self.where(got, win[s][:n], s))
        finally:
            os.close(fd)

    # ---- the history ----

    def run(self):
        fs, r, bs = self.fs, self.r, self.bs
        if not self.make():
            return False
        if not fs.start(self.cfg):
            raise Violation("far.dead", "lazyfs does not start: " + fs.log()[-400:])
        self.check(fs.stat("/a").size == self.size, "size", f"size at the start, {fs.stat('/a').size} instead of {self.size}")
        h = fs.open("/a")
        other = fs.create("/b")
        bdata = b""
        if self.case.get("blockid"):
            d, s = r.randbytes(300), self.base + 4 * bs
            fs.write(h, s, d)
            got = fs.read(h, s, 300)
            self.check(got == d, "blockid", f"what was written at {s} is read as " + self.where(got, d, s))
            try:
                fs.fsync(h)
            except FuseError as e:
                raise Violation("far.blockid", f"block size {bs}, fsync after a write at {s} (block number 2^31) fails with error {e.errno}")
            self.win[self.base][4 * bs:4 * bs + 300] = d
            self.disk(self.copy(), "blockid", "a sync")
        for step in range(self.case["n"]):
            k = r.choices(("write", "read", "fsync", "truncate", "clear", "checkpoint", "grow", "other", "kill"),
                          (14, 8, 5, 3, 1.5, 1, 3, 2, 0.5))[0]
            self.count(k)
            s = r.choice(self.starts + [self.base])
            room = min(self.width, self.size - s)
            if k == "write" and room > 0:
                off = r.randrange(0, room)
                if r.random() < 0.4:
                    off -= off % bs
                n = min(131072, room - off, r.choice((1, bs, bs - off % bs, r.randrange(1, 6 * bs))))
                if n <= 0:
                    continue
                d = r.randbytes(n)
                self.ops.append(("write", s + off, n))
                got = fs.write(h, s + off, d)
                self.check(got == n, "data", f"write at {s + off} returned {got}")
                self.win[s][off:off + n] = d
            elif k == "grow":
                s = self.base
                off = self.size - s
                if off < 0 or off >= self.width:
                    continue
                gap = r.choice((0, 0, 1, bs, r.randrange(0, 3 * bs)))
                n = min(131072, r.randrange(1, 3 * bs))
                if off + gap + n > self.width:
                    continue
                if r.random() < 0.3:
                    self.ops.append(("ftruncate", s + off + gap + n))
                    fs.ftruncate(h, s + off + gap + n)
                    self.win[s][off:off + gap + n] = bytes(gap + n)
                else:
                    d = r.randbytes(n)
                    self.ops.append(("write", s + off + gap, n))
                    fs.write(h, s + off + gap, d)
                    self.win[s][off:off + gap + n] = bytes(gap) + d
                self.size = s + off + gap + n
            elif k == "truncate":
                s = self.base
                off = self.size - s
                if off <= 1:
                    continue
                new = r.choice((r.randrange(1, off), (off // bs) * bs, max(1, off - 1)))
                if new < 1:
                    continue
                self.ops.append(("truncate", s + new))
                fs.truncate("/a", s + new)
                self.win[s][new:] = bytes(self.width - new)
                self.size = s + new
            elif k == "read" and room > 0:
                off = r.randrange(0, room)
                n = min(131072, r.randrange(1, 8 * bs))
                want = bytes(self.win[s][off:min(off + n, room)])
                if off + n > room and s != self.base:
                    want += bytes(off + n - room)
                self.ops.append(("read", s + off, n))
                got = fs.read(h, s + off, n)
                self.bytes += len(got)
                self.check(got == want, "data", f"read of {n} bytes at {s + off}: " + self.where(got, want, s + off))
            elif k == "fsync":
                ds = r.random() < 0.5
                self.ops.append(("fsync", ds))
                try:
                    fs.fsync(h, datasync=ds)
                except FuseError as e:
                    raise Violation("far.sync", f"block size {bs}, base {self.base}: a sync fails with error {e.errno}")
                self.synced = self.copy()
                self.disk(self.synced, "disk", "a sync")
            elif k == "checkpoint":
                self.ops.append(("checkpoint",))
                fs.command("lazyfs::cache-checkpoint")
                self.synced = self.copy()
                self.disk(self.synced, "disk", "a checkpoint")
            elif k == "clear" and self.strict:
                self.ops.append(("clear",))
                fs.command("lazyfs::clear-cache")
                self.size, self.win = self.synced[0], {s: bytearray(w) for s, w in self.synced[1].items()}
                self.look(h, kind="clear")
                bdata = b""
            elif k == "kill" and self.strict:
                self.ops.append(("kill",))
                fs.kill()
                self.disk(self.synced, "clear", "a kill")
                self.size, self.win = self.synced[0], {s: bytearray(w) for s, w in self.synced[1].items()}
                if not fs.start(self.cfg):
                    raise Violation("far.dead", "lazyfs does not start again")
                h = fs.open("/a")
                other = fs.open("/b")
                bdata = b""
            elif k == "other":
                d = r.randbytes(min(131072, r.randrange(1, 6 * bs)))
                fs.write(other, 0, d)
                bdata = d + bdata[len(d):]
                got = self.read(other, 0, len(bdata))
                self.check(got == bdata, "data", "content of another file")
            if r.random() < 0.15:
                self.look(h)
                if self.strict:
                    self.disk(self.synced, "lazy", "operations without a sync")
        self.look(h)
        try:
            fs.fsync(h)
        except FuseError as e:
            raise Violation("far.sync", f"block size {bs}, base {self.base}: a sync fails with error {e.errno}")
        self.disk(self.copy(), "disk", "the last sync")
        return True


def run_case(case, ctx, kinds):
    f = Far(case, ctx)
    out = {}
    try:
        out["nontrivial"] = f.run()
    except Violation as v:
        if v.kind[4:] in kinds or v.kind == "far.blockid":
            out["violation"] = {"kind": v.kind, "detail": v.detail + f" (operations so far: {f.ops[-12:]})"}
        else:
            out["inconclusive"] = v.kind + " " + v.detail
        out["log"] = f.fs.log()[-3000:]
    except Dead:
        f.fs.wait_exit(5)
        out["violation"] = {"kind": "far.dead", "detail": f"lazyfs ended (operations so far: {f.ops[-12:]})"}
        out["log"] = f.fs.log()[-3000:]
    except Hang as e:
        out["violation"] = {"kind": "hang.far", "detail": str(e)}
    except FuseError as e:
        out["violation"] = {"kind": "far.data", "detail": f"an operation fails with error {e.errno} (operations so far: {f.ops[-12:]})"}
    finally:
        f.fs.close()
    out["stats"], out["tags"], out["compared"], out["bytes"] = f.stats, sorted(f.tags), f.compared, f.bytes
    out["requests"] = f.fs.requests
    out["sig"] = "far" + str(f.case["seed"]) + str(len(f.ops))
    out["ops"] = [list(o) for o in f.ops]
    return out
