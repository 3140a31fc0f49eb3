"""C22: resources are given back."""
import random
import re
import time

from vlib import fuse, gen
from vlib.runner import run_session
from . import c20
from .common import ASSUME_CLIENT, ASSUME_LOCAL, GEOMETRIES, TIGHT, session_cases

LEVEL = "exploration"
SHIM = True
RULE = ("one case is a random history (failing operations included) with looks at LazyFS's open descriptors, which must be one per client "
        "descriptor, and rounds in which everything is given back (all files removed, replaced by renames, truncated to nothing, or the "
        "cache cleared), after which the usage must be zero and a file as big as the cache must fit into it without reaching the backing "
        "file; in a quarter of the cases calls on the backing files fail meanwhile (as in C20); distinct by the history")
ASSUMPTIONS = [ASSUME_CLIENT, ASSUME_LOCAL, "the cache is full when all its pages are in use"]
KINDS = ["fds", "pages", "usage", "dead", "hang"]
W = {"fds": 8, "drain": 4, "clear": 1, "checkpoint": 1, "readonly": 2, "rename": 6, "renamedir": 2, "link": 4, "unlink": 5, "open": 12,
     "release": 10, "truncate": 6, "ftruncate": 6, "mkdir": 2, "fsync": 6, "create": 9}
SMALL = [((512, 512, 64), 12), ((512, 1024, 64), 12), ((4096, 4096, 32), 6), ((64, 256, 100), 20)]


class Failing(c20.Driver):
    """Histories in which calls on the backing files fail: what LazyFS holds is looked at after each step."""

    def checked(self):
        root = self.fs.root + "/"
        want = sum(len(f.handles) for f in self.files)
        for k in range(40):
            got = [x for x in self.fdreader(self.fs.proc.pid) if x.startswith(root) or x == self.fs.root]
            if len(got) == want:
                break
            time.sleep(0.001 * k)
        self.compared += 1
        if len(got) != want:
            self.bad("fds", f"lazyfs has {len(got)} descriptors on backing files, clients have {want}: {sorted(got)[:20]}")

    def finish(self, case):
        """All files are removed: nothing may remain in the cache."""
        fs = self.fs
        self.shim.clear()
        if self.r.random() < 0.5:
            fs.clear_cache()
        for f in self.files:
            for h in f.handles:
                fs.release(h)
            f.handles = []
            for p in sorted(f.paths):
                fs.unlink(p)
        self.files = []
        self.what += " ... all files removed"
        self.checked()
        with open(fs.log_path, "rb") as log:
            log.seek(0, 2)
            at = log.tell()
            fs.command("lazyfs::display-cache-usage")
            log.seek(at)
            m = re.search(r"cache usage[^:]* is ([0-9.e+-]+)%", log.read().decode(errors="replace"))
        self.compared += 1
        if not m or float(m[1]) != 0:
            self.bad("usage", f"{m and m[1]} % of the cache are in use though no file is left")


def cases(tier, seed):
    return (session_cases("C22", tier, seed, 600, 12000, geoms=SMALL, relaxed=True)
            + session_cases("C22t", tier, seed, 300, 6000, geoms=TIGHT, relaxed=True)
            + session_cases("C22e", tier, seed, 300, 6000, geoms=TIGHT, relaxed=True, eviction=True)
            + [dict(c, failing=True) for c in c20.cases(tier, f"22-{seed}")[:400 if tier == "quick" else 8000]])


def run_case(case, ctx):
    r = random.Random(f"C22-{case['seed']}")
    if "fdreader" not in ctx:
        ctx["fdreader"] = fuse.FdReader()
    if case.get("failing"):
        Failing.fdreader = staticmethod(ctx["fdreader"])
        out = c20.run_case(case, ctx, Failing)
        v = out.get("violation")
        if v and v["kind"] not in KINDS:
            del out["violation"]
            out["inconclusive"] = str(v)[:300]
        return out

    def body(s):
        g = gen.Gen(r, s, W, max_blocks=case["mb"])
        g.run(case["n"])
        s.apply({"op": "fds"})
        for how in ("clear", "truncate", "unlink"):
            s.apply({"op": "drain", "how": how, "seed": g.next_seed() << 20})
        s.apply({"op": "fds"})

    out = run_session(case, ctx, body, kinds=KINDS, fdreader=ctx["fdreader"])
    if out.get("sig"):
        out["sig"] += f":{case['seed']}:{case['cfg']}"
    return out
