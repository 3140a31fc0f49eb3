"""Big and deep folders with names of every kind: listings, and unsynced data that follows renames of whole trees.

Kinds: ns (a listing, the backing tree, a link target), data (content by path), disk (after a sync), dead, hang.
"""
import errno as E
import os
import random

from . import fuse
from .fuse import Dead, FuseError, Hang
from .session import Violation

ALPHABETS = ["abc", "abcdefghijklmnopqrstuvwxyz0123456789._-", "ab.*+?()[]{}|^$\\", " '\"%{};:=,&", "äößñ中文字🙂é", "a/".replace("/", "~")]


def cases(prop, tier, seed, quick):
    return [{"crowd": True, "seed": f"{prop}-{seed}-{i}", "n": 70} for i in range(quick if tier == "quick" else quick * 10)]


class File:
    def __init__(self, kind, data=b""):
        self.kind, self.data, self.names, self.target = kind, bytearray(data), set(), None


class Crowd:
    def __init__(self, case, ctx):
        r = self.r = random.Random(case["seed"])
        self.n = case["n"]
        bs = r.choice((64, 512, 4096))
        bpp = r.choice((1, 1, 2, 4))
        self.bs = bs
        self.cfg = {"manual": (bs, bs * bpp, 6000), "eviction": r.random() < 0.3, "log": r.random() < 0.5}
        self.fs = fuse.LazyFS(ctx["bin"][case.get("variant", "plain")], base=ctx["base"], timeout=60.0)
        self.dirs = {"/": {}}                             # path -> {name: File or "dir"}
        self.stats, self.ops, self.compared, self.bytes, self.most, self.deepest = {}, [], 0, 0, 0, 0

    def check(self, ok, kind, what):
        self.compared += 1
        if not ok:
            raise Violation("crowd." + kind, what)

    def name(self, d):
        r = self.r
        while True:
            a = r.choice(ALPHABETS)
            n = "".join(r.choice(a) for _ in range(r.choice((1, 1, 2, 3, 8, 8, 30, r.randrange(1, 256)))))
            if r.random() < 0.05:
                n += os.fsdecode(bytes([r.randrange(128, 256)]))
            while len(os.fsencode(n)) > 255:
                n = n[:-1]
            if n not in ("", ".", "..") and not n.startswith(".fuse_hidden") and n not in self.dirs[d]:
                return n

    @staticmethod
    def join(d, n):
        return d + n if d == "/" else d + "/" + n

    def files(self):
        return [(d, n, f) for d, x in self.dirs.items() for n, f in x.items() if f != "dir" and f.kind == "file"]

    def add_file(self, d):
        n = self.name(d)
        p = self.join(d, n)
        h = self.fs.create(p)
        f = File("file")
        self.dirs[d][n] = f
        f.names.add(p)
        if self.r.random() < 0.8:
            self.put(h, f)
        self.fs.close_handle(h)

    def put(self, h, f):
        r = self.r
        off = r.choice((0, len(f.data), r.randrange(0, len(f.data) + 1)))
        data = r.randbytes(r.randrange(1, 3 * self.bs))
        self.fs.write(h, off, data)
        f.data[off:off + len(data)] = data
        if r.random() < 0.25:
            self.fs.fsync(h, datasync=r.random() < 0.5)
            p = min(f.names)
            with open(os.fsencode(self.fs.root + p), "rb") as x:
                self.check(x.read() == f.data, "disk", f"after a sync through {p!r} the backing file differs")

    def add_dir(self, d):
        n = self.name(d)
        p = self.join(d, n)
        if len(os.fsencode(p)) > 3000:
            return d
        self.fs.mkdir(p)
        self.dirs[d][n] = "dir"
        self.dirs[p] = {}
        self.deepest = max(self.deepest, p.count("/"))
        return p

    def listing(self, d):
        want = self.dirs[d]
        plus = self.r.random() < 0.5
        got = self.fs.readdirplus(d) if plus else self.fs.readdir(d)
        names = [n for n, _ in got if n not in (".", "..")]
        what = "readdirplus" if plus else "readdir"
        self.check(len(names) == len(set(names)), "ns", f"{what} of {d!r} lists {[n for n in set(names) if names.count(n) > 1][:5]} more than once")
        self.check(set(names) == set(want), "ns", f"{what} of {d!r} ({len(want)} entries): missing {sorted(set(want) - set(names))[:5]}, "
                   f"too many {sorted(set(names) - set(want))[:5]}")
        self.check(sorted(map(os.fsdecode, os.listdir(os.fsencode(self.fs.root + d)))) == sorted(want), "ns", f"the backing folder of {d!r} differs")
        if not plus:
            for n, t in got:
                if n not in (".", ".."):
                    k = want[n] if want[n] == "dir" else want[n].kind
                    self.check(t in (0, {"dir": 4, "file": 8, "sym": 10}[k]), "ns", f"{what} of {d!r}: {n!r} is a {k}, listed with type {t}")
        self.most = max(self.most, len(want))

    def content(self, d, n, f):
        p = self.join(d, n)
        node, a = self.fs.resolve(p)
        self.check(a.size == len(f.data), "data", f"{p!r} has {a.size} bytes instead of {len(f.data)}")
        self.check(a.nlink == len(f.names), "ns", f"{p!r} has {a.nlink} links instead of {len(f.names)}")
        h = self.fs.open_node(node, os.O_RDONLY)
        got = self.fs.read_all(h, len(f.data))
        self.bytes += len(got)
        i = next((i for i in range(min(len(got), len(f.data))) if got[i] != f.data[i]), None)
        self.check(got == f.data, "data", f"{p!r} has other content from byte {i}")
        self.fs.close_handle(h)

    def drop(self, f, p):
        if f != "dir":
            f.names.discard(p)

    def move_tree(self, a, b):
        moved = {d: x for d, x in self.dirs.items() if d == a or d.startswith(a + "/")}
        for d in moved:
            del self.dirs[d]
        for d, x in moved.items():
            self.dirs[b + d[len(a):]] = x
            for n, f in x.items():
                if f != "dir":
                    f.names.discard(self.join(d, n))
        for d, x in moved.items():
            for n, f in x.items():
                if f != "dir":
                    f.names.add(self.join(b + d[len(a):], n))

    def step(self):
        fs, r = self.fs, self.r
        what = r.choices(("list", "content", "rename", "renamedir", "link", "unlink", "write", "symlink", "create", "long", "stairs"),
                         (6, 12, 10, 8, 6, 4, 10, 2, 4, 2, 1))[0]
        self.stats[what] = self.stats.get(what, 0) + 1
        d = r.choice(list(self.dirs))
        fl = self.files()
        if what == "list":
            self.listing(d)
        elif what == "create":
            for _ in range(r.choice((1, 5, 40))):
                self.add_file(d)
        elif what == "stairs":
            for _ in range(r.randrange(2, 12)):
                d = self.add_dir(d)
                self.add_file(d)
        elif what == "symlink":
            n, t = self.name(d), "/".join(r.choice("abcä ") * r.randrange(1, 200) for _ in range(r.randrange(1, 20)))[:r.choice((5, 300, 4000))]
            while len(os.fsencode(t)) > 4000:
                t = t[:-10]
            p = self.join(d, n)
            fs.symlink(t, p)
            f = File("sym")
            f.target = t
            f.names.add(p)
            self.dirs[d][n] = f
            got = fs.readlink(p)
            self.check(got == t, "ns", f"the link {p!r} leads to {got[:80]!r}, {len(got)} bytes instead of {len(t)}")
        elif what == "long":
            for op in (lambda p: fs.create(p), lambda p: fs.mkdir(p), lambda p: fs.stat(p)):
                p = self.join(d, "n" * 256)
                try:
                    op(p)
                    self.check(False, "ns", f"a name of 256 bytes in {d!r} is accepted")
                except FuseError as e:
                    self.check(e.errno == E.ENAMETOOLONG, "ns", f"a name of 256 bytes in {d!r} fails with error {e.errno}")
        elif not fl:
            self.add_file(d)
        else:
            d0, n0, f = r.choice(fl)
            p0 = self.join(d0, n0)
            if what == "content":
                self.content(d0, n0, f)
            elif what == "write":
                h = fs.open(p0, os.O_RDWR)
                self.put(h, f)
                fs.close_handle(h)
            elif what in ("rename", "link"):
                # onto a free name or, with rename, onto another file
                over = what == "rename" and r.random() < 0.4
                d1, n1, g = r.choice(fl) if over else (d, self.name(d), None)
                p1 = self.join(d1, n1)
                if p1 == p0:
                    return
                self.ops.append((what, p0, p1))
                if what == "rename":
                    fs.rename(p0, p1)
                    if g is f:
                        return                            # two names of one file: nothing happens
                    if g is not None:
                        g.names.discard(p1)
                    del self.dirs[d0][n0]
                    f.names.discard(p0)
                else:
                    fs.link(p0, p1)
                self.dirs[d1][n1] = f
                f.names.add(p1)
                self.content(d1, n1, f)
            elif what == "unlink":
                self.ops.append((what, p0))
                fs.unlink(p0)
                del self.dirs[d0][n0]
                f.names.discard(p0)
            elif what == "renamedir":
                sub = [x for x in self.dirs if x != "/"]
                if not sub:
                    self.add_dir("/")
                    return
                a = r.choice(sub)
                if d == a or d.startswith(a + "/"):
                    d = "/"
                # often next to the old place, with a name that the old one begins with or that begins with it
                base = os.path.basename(a)
                n = r.choice((self.name(d), (base + "x")[-255:], base[:-1]))
                if n in ("", ".", "..") or n in self.dirs[d] or len(os.fsencode(n)) > 255 or len(os.fsencode(d)) > 2000:
                    n = self.name(d)
                b = self.join(d, n)
                self.ops.append((what, a, b))
                fs.rename(a, b)
                pa = os.path.dirname(a)
                del self.dirs[pa][base]
                self.dirs[d][n] = "dir"
                self.move_tree(a, b)
                inside = [x for x in self.files() if x[0] == b or x[0].startswith(b + "/")]
                for x in r.sample(inside, min(3, len(inside))):
                    self.content(*x)

    def run(self):
        if not self.fs.start(self.cfg):
            raise Violation("crowd.dead", "lazyfs does not start: " + self.fs.log()[-400:])
        d = "/"
        for _ in range(self.r.randrange(0, 4)):
            d = self.add_dir(self.r.choice(list(self.dirs)))
        for _ in range(self.r.choice((5, 40, 120, 300))):
            self.add_file(d)
        self.listing(d)
        for _ in range(self.n):
            self.step()
        for d in list(self.dirs):
            self.listing(d)
        for x in self.files():
            self.content(*x)


def run_case(case, ctx, kinds):
    b = Crowd(case, ctx)
    out = {}
    try:
        b.run()
        out["nontrivial"] = b.most > 20
    except Violation as v:
        key = "violation" if v.kind[6:] in kinds else "inconclusive"
        detail = v.detail + f" (last name operations: {b.ops[-6:]})"
        out[key] = {"kind": v.kind, "detail": detail} if key == "violation" else v.kind + " " + detail
        out["log"] = b.fs.log()[-3000:]
    except Dead:
        b.fs.wait_exit(5)
        out["violation"] = {"kind": "crowd.dead", "detail": f"lazyfs ended (last name operations: {b.ops[-6:]})"}
        out["log"] = b.fs.log()[-3000:]
    except Hang as e:
        out["violation"] = {"kind": "hang.crowd", "detail": str(e)}
    except FuseError as e:
        out["violation"] = {"kind": "crowd.errno", "detail": f"an operation fails with error {e.errno} (last name operations: {b.ops[-6:]})"}
    finally:
        b.fs.close()
    out["stats"], out["compared"], out["bytes"] = b.stats, b.compared, b.bytes
    out["tags"] = [f"crowd/{b.most.bit_length()}/{b.deepest}"]
    out["requests"] = b.fs.requests
    out["sig"] = "crowd" + str(case["seed"]) + str(b.most)
    out["ops"] = [[o if isinstance(o, str) and o.isprintable() else repr(o) for o in x] for x in b.ops]
    return out
