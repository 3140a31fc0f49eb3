"""Which page an eviction takes: the backing files show it, because a dirty page that leaves the cache is written back.

The model has every page in use, in the order of their last use, and after every operation each backing file must be exactly what the
written back pages and the syncs made of it.  Kinds: lru.early (a backing file changed that should not have, or the other way round),
lru.usage (the usage that is reported is not that of the model), data.
"""
import random
import re

from . import fuse
from .fuse import Dead, FuseError, Hang
from .session import Violation


class Page:
    def __init__(self, file):
        self.file, self.blocks, self.dirty = file, [], False


class File:
    def __init__(self, name, handle):
        self.name, self.h, self.data, self.disk = name, handle, bytearray(), bytearray()


class Lru:
    def __init__(self, case, ctx):
        r = self.r = random.Random(case["seed"])
        self.n = case["n"]
        self.bs = r.choice((64, 100, 512, 512, 1000, 4096))
        self.bpp = r.choice((1, 1, 1, 2, 3, 4))
        self.pages = r.choice((1, 2, 3, r.randrange(3, 9), r.randrange(3, 9), r.randrange(8, 40)))
        self.cfg = {"manual": (self.bs, self.bs * self.bpp, self.pages), "eviction": True}
        self.fs = fuse.LazyFS(ctx["bin"][case.get("variant", "plain")], base=ctx["base"], timeout=60.0)
        self.files, self.used = [], []            # pages in use, the one used last at the end
        self.ops, self.stats, self.compared, self.bytes = [], {}, 0, 0
        self.evicted = self.back = 0

    # ---- the model ----

    def find(self, f, b):
        return next((p for p in self.used if p.file is f and b in p.blocks), None)

    def use(self, f, b, write):
        """Block b of f was used; f.data is already as it is afterwards."""
        p = self.find(f, b)
        if p is None and not write:
            return                                # reads do not bring blocks into the cache
        if p is None:
            p = next((p for p in self.used if p.file is f and len(p.blocks) < self.bpp), None)
            if p is None:
                if len(self.used) == self.pages:
                    old = self.used.pop(0)
                    self.evicted += 1
                    if old.dirty:
                        self.back += 1
                        for x in sorted(old.blocks):
                            self.persist(old.file, x)
                p = Page(f)
                self.used.append(p)
            p.blocks.append(b)
        self.used.remove(p)
        self.used.append(p)
        p.dirty |= write

    def persist(self, f, b):
        lo, hi = b * self.bs, min((b + 1) * self.bs, len(f.data))
        if len(f.disk) < hi:
            f.disk.extend(bytes(hi - len(f.disk)))
        f.disk[lo:hi] = f.data[lo:hi]

    def forget(self, f):
        self.used = [p for p in self.used if p.file is not f]

    # ---- the comparison ----

    def check(self, ok, kind, what):
        self.compared += 1
        if not ok:
            raise Violation(kind, f"cache of {self.pages} pages of {self.bpp} blocks of {self.bs} bytes, {len(self.used)} in use: {what}")

    def compare(self):
        for f in self.files:
            with open(self.fs.root + f.name, "rb") as x:
                d = x.read()
            self.bytes += len(d)
            if d != f.disk:
                n = max(len(d), len(f.disk))
                a, b = d.ljust(n, b"\0"), bytes(f.disk).ljust(n, b"\0")
                off = [i // self.bs for i in range(0, n, self.bs) if a[i:i + self.bs] != b[i:i + self.bs]]
                self.check(False, "lru.order", f"the backing file {f.name} has {len(d)} bytes, with the least recently used pages evicted it would have "
                           f"{len(f.disk)}; blocks that differ: {off[:8]}")
            self.compared += 1

    # ---- operations ----

    def write(self, f, off, data):
        self.ops.append(("write", f.name, off, len(data)))
        got = self.fs.write(f.h, off, data)
        self.check(got == len(data), "data", f"a write returned {got}")
        while data:
            b = off // self.bs
            part = data[:self.bs - off % self.bs]
            f.data[off:off + len(part)] = part
            self.use(f, b, True)
            off, data = off + len(part), data[len(part):]

    def read(self, f, b):
        lo, hi = b * self.bs, min((b + 1) * self.bs, len(f.data))
        self.ops.append(("read", f.name, b))
        got = self.fs.read(f.h, lo, hi - lo)
        self.check(got == bytes(f.data[lo:hi]), "data", f"read of block {b} of {f.name}")
        self.use(f, b, False)

    def run(self):
        fs, r, bs = self.fs, self.r, self.bs
        if not fs.start(self.cfg):
            raise Violation("lru.dead", "lazyfs does not start: " + fs.log()[-400:])
        for k in ("/a", "/b", "/c")[:r.randrange(1, 4)]:
            self.files.append(File(k, fs.create(k)))
        most = max(2, self.pages * self.bpp * 2 // len(self.files) + 1)          # blocks of a file
        for _ in range(self.n):
            f = r.choice(self.files)
            blocks = -(-len(f.data) // bs)
            what = r.choices(("append", "over", "part", "read", "again", "fsync", "clear", "checkpoint", "cut", "unlink", "look"),
                             (6 if blocks < most else 0, 5, 3, 8, 6, 0.8, 0.15, 0.2, 0.2, 0.2, 1))[0]
            self.stats[what] = self.stats.get(what, 0) + 1
            if what == "append":
                if r.random() < 0.25:
                    self.write(f, len(f.data), r.randbytes(r.randrange(1, bs + 1)))
                else:
                    # up to the end of a block, so that the next one starts a new one
                    self.write(f, len(f.data), r.randbytes(bs - len(f.data) % bs + bs * r.choice((0, 0, 0, 1))))
            elif what == "look":
                fs.stat(f.name)
                fs.fstat(f.h)
                m = re.findall(r"cache usage[^\n]* is ([0-9.]+)%", self.said("lazyfs::display-cache-usage"))
                want = 100 * len(self.used) / self.pages
                self.check(len(m) == 1 and abs(float(m[0]) - want) < 0.01, "lru.usage", f"the usage is reported as {m}, {want:.3f}% are in use")
            elif what == "clear":
                self.ops.append(("clear",))
                fs.command("lazyfs::clear-cache")
                for x in self.files:
                    x.data[:] = x.disk
                self.used = []
            elif what == "checkpoint":
                self.ops.append(("checkpoint",))
                fs.command("lazyfs::cache-checkpoint")
                for x in self.files:
                    x.disk[:] = x.data
                for p in self.used:
                    p.dirty = False
            elif what == "cut":
                self.ops.append(("cut", f.name))
                fs.ftruncate(f.h, 0)
                self.forget(f)
                f.data, f.disk = bytearray(), self.cut(f)
            elif what == "unlink":
                self.ops.append(("unlink", f.name))
                fs.close_handle(f.h)
                fs.unlink(f.name)
                self.forget(f)
                self.files[self.files.index(f)] = File(f.name, fs.create(f.name))
            elif what == "fsync":
                self.ops.append(("fsync", f.name))
                fs.fsync(f.h, datasync=r.random() < 0.5)
                f.disk[:] = f.data
                for p in self.used:
                    if p.file is f:
                        p.dirty = False
            elif blocks:
                b = r.randrange(blocks)
                if what == "again":                      # keep some blocks warm
                    hot = [x for p in self.used[:2] if p.file is f for x in p.blocks]
                    b = r.choice(hot) if hot else b
                    what = r.choice(("over", "part", "read"))
                room = min(bs, len(f.data) - b * bs)
                if what == "read":
                    self.read(f, b)
                elif what == "over":
                    self.write(f, b * bs, r.randbytes(bs if b < blocks - 1 else room))
                elif what == "part":
                    lo = r.randrange(room)
                    self.write(f, b * bs + lo, r.randbytes(r.randrange(1, room - lo + 1)))
            self.compare()

    def cut(self, f):
        """What a truncate to nothing leaves on the backing file: the file as it was synced, until the next sync."""
        return f.disk

    def said(self, command):
        with open(self.fs.log_path, "rb") as x:
            x.seek(0, 2)
            start = x.tell()
            self.fs.command(command)
            x.seek(start)
            return x.read().decode(errors="replace")


def run_case(case, ctx, kinds):
    b = Lru(case, ctx)
    out = {}
    try:
        b.run()
        out["nontrivial"] = b.back > 0
    except Violation as v:
        key = "violation" if v.kind in kinds or v.kind.split(".")[0] in kinds else "inconclusive"
        out[key] = {"kind": v.kind, "detail": v.detail + f" (operations so far: {b.ops[-12:]})"} if key == "violation" else v.kind + " " + v.detail
        out["log"] = b.fs.log()[-3000:]
    except Dead:
        b.fs.wait_exit(5)
        out["violation"] = {"kind": "lru.dead", "detail": f"lazyfs ended (operations so far: {b.ops[-12:]})"}
        out["log"] = b.fs.log()[-3000:]
    except Hang as e:
        out["violation"] = {"kind": "hang.lru", "detail": str(e)}
    except FuseError as e:
        out["inconclusive"] = f"lru: an operation fails with error {e.errno} (operations so far: {b.ops[-12:]})"
    finally:
        b.fs.close()
    out["stats"], out["compared"], out["bytes"] = dict(b.stats, evicted=b.evicted, written_back=b.back), b.compared, b.bytes
    out["tags"] = [f"lru/{b.bs}/{b.bpp}/{min(b.pages, 12)}/{min(b.back, 3)}"]
    out["requests"] = b.fs.requests
    out["sig"] = "lru" + str(case["seed"]) + str(len(b.ops))
    out["ops"] = [list(o) for o in b.ops]
    return out
