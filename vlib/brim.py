"""Caches that are filled to the brim: as long as a page is left, nothing may reach the backing files.

The pages in use are counted exactly: a file takes a new page only when its pages have no room for one more block, and gives all of
them back when it is removed or cut to nothing.  Kinds: lazy (a backing file changed before a sync), data, size, disk (after a sync).
"""
import os
import random

from . import fuse
from .fuse import Dead, FuseError, Hang
from .session import Violation


def cases(prop, tier, seed, quick):
    return [{"brim": True, "seed": f"{prop}-{seed}-{i}", "n": 60} for i in range(quick if tier == "quick" else quick * 10)]


class Brim:
    def __init__(self, case, ctx):
        r = self.r = random.Random(case["seed"])
        self.n = case["n"]
        self.bs = r.choice((64, 100, 512, 512, 1000, 4096))
        self.bpp = r.choice((1, 1, 2, 3, 4))
        self.pages = r.choice((r.randrange(1, 8), r.randrange(8, 100), r.randrange(100, 300), r.randrange(300, 1500)))
        if self.bs * self.bpp * self.pages > 1 << 20:
            self.pages = max(101, (1 << 20) // (self.bs * self.bpp))
        self.eviction = r.random() < 0.3
        self.cfg = {"manual": (self.bs, self.bs * self.bpp, self.pages), "eviction": self.eviction}
        self.fs = fuse.LazyFS(ctx["bin"][case.get("variant", "plain")], base=ctx["base"], timeout=60.0)
        self.files = {}                                   # name -> [handle, data, synced data, cached blocks]
        self.stats, self.ops, self.compared, self.bytes, self.nearest = {}, [], 0, 0, 10 ** 9

    def used(self, without=None):
        return sum(-(-len(f[3]) // self.bpp) for k, f in self.files.items() if k != without)

    def check(self, ok, kind, what):
        self.compared += 1
        if not ok:
            raise Violation("brim." + kind, f"cache of {self.pages} pages of {self.bpp} blocks of {self.bs} bytes, "
                            f"{self.used()} pages in use: {what}")

    def disk(self, after, kind="lazy"):
        for k, f in self.files.items():
            with open(self.fs.root + k, "rb") as x:
                d = x.read()
            self.bytes += len(d)
            i = next((i for i in range(min(len(d), len(f[2]))) if d[i] != f[2][i]), min(len(d), len(f[2])))
            self.check(d == f[2], kind, f"after {after} the backing file {k} has {len(d)} bytes (expected {len(f[2])}), first difference "
                       f"at {i}")

    def write(self, k, off, data):
        """Does the write if it fits into the cache."""
        f = self.files[k]
        fill = set(range(len(f[1]) // self.bs, -(-off // self.bs))) if off > len(f[1]) else set()
        if off > len(f[1]):
            fill |= {b for b in range(len(f[1]) // self.bs, (off - 1) // self.bs + 1)}
        new = set(range(off // self.bs, (off + len(data) - 1) // self.bs + 1))
        rest = self.used(k)
        first = rest + -(-len(f[3] | fill) // self.bpp)
        last = rest + -(-len(f[3] | fill | new) // self.bpp)
        if last > self.pages:
            return False
        if not self.eviction:
            # without a free page, blocks that are not cached yet are written through
            if self.used() == self.pages and (fill | new) - f[3] or first == self.pages and new - f[3] - fill:
                return False
        self.ops.append(("write", k, off, len(data)))
        got = self.fs.write(f[0], off, data)
        self.check(got == len(data), "data", f"a write returned {got}")
        if off > len(f[1]):
            f[1].extend(bytes(off - len(f[1])))
        f[1][off:off + len(data)] = data
        f[3] |= fill | new
        self.nearest = min(self.nearest, self.pages - self.used())
        return True

    def run(self):
        fs, r, bs = self.fs, self.r, self.bs
        if not fs.start(self.cfg):
            raise Violation("brim.dead", "lazyfs does not start: " + fs.log()[-400:])
        for k in ("/a", "/b", "/c")[:r.randrange(1, 4)]:
            self.files[k] = [fs.create(k), bytearray(), b"", set()]
        # one file takes most of the cache
        leave = min(self.pages, r.choice((0, 1, 2, r.randrange(0, 12))))
        k = r.choice(list(self.files))
        while self.used() < self.pages - leave:
            n = min(131072, (self.pages - leave - self.used()) * self.bpp * bs)
            n -= n % bs
            if n == 0 or not self.write(k, len(self.files[k][1]), r.randbytes(n)):
                break
            if r.random() < 0.05:
                self.disk("filling")
        self.disk("filling")
        for _ in range(self.n):
            k = r.choice(list(self.files))
            f = self.files[k]
            what = r.choices(("grow", "small", "over", "fsync", "cut", "unlink", "read", "clear", "checkpoint"), (8, 8, 6, 2, 0.7, 0.7, 3, 0.3, 0.4))[0]
            self.stats[what] = self.stats.get(what, 0) + 1
            room = self.pages - self.used()
            if what == "grow":
                n = r.choice((1, bs, r.randrange(1, 3 * bs), max(1, room) * self.bpp * bs))
                gap = r.choice((0, 0, 0, bs // 2, r.randrange(0, 2 * bs)))
                self.write(k, len(f[1]) + gap, r.randbytes(min(n, 131072)))
            elif what == "small":
                self.write(k, len(f[1]), r.randbytes(r.randrange(1, bs + 1)))
            elif what == "over" and f[1]:
                off = r.randrange(len(f[1]))
                self.write(k, off, r.randbytes(min(r.randrange(1, 3 * bs), 131072)))
            elif what == "fsync":
                self.ops.append(("fsync", k))
                fs.fsync(f[0], datasync=r.random() < 0.5)
                f[2] = bytes(f[1])
                self.disk("a sync", "disk")
            elif what == "checkpoint":
                self.ops.append(("checkpoint",))
                fs.command("lazyfs::cache-checkpoint")
                for x in self.files.values():
                    x[2] = bytes(x[1])
                self.disk("a checkpoint", "disk")
            elif what == "cut":
                self.ops.append(("cut", k))
                fs.ftruncate(f[0], 0)
                f[1], f[3] = bytearray(), set()
            elif what == "unlink":
                self.ops.append(("unlink", k))
                fs.close_handle(f[0])
                fs.unlink(k)
                self.files[k] = [fs.create(k), bytearray(), b"", set()]
            elif what == "read" and f[1]:
                off = r.randrange(len(f[1]))
                n = min(131072, len(f[1]) - off, r.randrange(1, 5 * bs))
                self.check(fs.read(f[0], off, n) == bytes(f[1][off:off + n]), "data", f"read of {n} bytes of {k} at {off}")
            elif what == "clear":
                self.ops.append(("clear",))
                fs.command("lazyfs::clear-cache")
                for x in self.files.values():
                    x[1], x[3] = bytearray(x[2]), set()
            self.disk("operations without a sync")
        for k, f in self.files.items():
            size = fs.fstat(f[0]).size
            self.check(size == len(f[1]), "size", f"{k} has {size} bytes instead of {len(f[1])}")
            fs.fsync(f[0])
            f[2] = bytes(f[1])
        self.disk("the last sync", "disk")


def run_case(case, ctx, kinds):
    b = Brim(case, ctx)
    out = {}
    try:
        b.run()
        out["nontrivial"] = b.nearest <= 1
    except Violation as v:
        key = "violation" if v.kind[5:] in kinds else "inconclusive"
        out[key] = {"kind": v.kind, "detail": v.detail + f" (operations so far: {b.ops[-12:]})"} if key == "violation" else v.kind + " " + v.detail
        out["log"] = b.fs.log()[-3000:]
    except Dead:
        b.fs.wait_exit(5)
        out["violation"] = {"kind": "brim.dead", "detail": f"lazyfs ended (operations so far: {b.ops[-12:]})"}
        out["log"] = b.fs.log()[-3000:]
    except Hang as e:
        out["violation"] = {"kind": "hang.brim", "detail": str(e)}
    except FuseError as e:
        out["inconclusive"] = f"brim: an operation fails with error {e.errno} (operations so far: {b.ops[-12:]})"
    finally:
        b.fs.close()
    out["stats"], out["compared"], out["bytes"] = b.stats, b.compared, b.bytes
    out["tags"] = [f"brim/{b.bs}/{b.bpp}/{b.pages.bit_length()}/{int(b.eviction)}/{min(b.nearest, 3)}"]
    out["requests"] = b.fs.requests
    out["sig"] = "brim" + str(case["seed"]) + str(len(b.ops))
    out["ops"] = [list(o) for o in b.ops]
    return out
