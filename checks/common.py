"""What the model-based checks share."""
import random

from vlib import gen
from vlib.runner import run_session

# (io_block_size, page_size, no_pages), how many blocks a file spans.  Block sizes that are and are not powers of two,
# of one byte, smaller than a sector, as big as a request, and pages that hold one or several blocks.
GEOMETRIES = [((4096, 4096, 1024), 10), ((512, 512, 2048), 14), ((1000, 1000, 1024), 12), ((4096, 8192, 512), 10),
              ((512, 2048, 512), 16), ((65536, 65536, 64), 4), ((64, 64, 4096), 20), ((64, 256, 2048), 20),
              ((128, 1024, 1024), 16), ((24, 72, 4096), 24), ((16384, 16384, 128), 5), ((2048, 4096, 512), 9), ((1, 4, 8192), 90)]

# blocks bigger than a request, and bigger than the stack of a thread
HUGE = [((1 << 20, 2 << 20, 20), 20), ((16 << 20, 16 << 20, 16), 4), ((3000000, 3000000, 18), 50), ((9 << 20, 18 << 20, 12), 5)]

# caches that a handful of files overflow
TIGHT = [((512, 512, 4), 10), ((512, 512, 9), 12), ((512, 1024, 4), 12), ((64, 256, 6), 24), ((4096, 4096, 3), 8),
         ((1000, 1000, 5), 9), ((128, 128, 16), 20), ((512, 512, 1), 6), ((64, 64, 2), 10), ((256, 1024, 2), 12)]

ASSUME_CLIENT = ("requests are FUSE messages sent to the real lazyfs program by a client that follows the kernel's rules "
                 "(names are looked up before use, sizes come from getattr, same-file writes are not concurrent unless "
                 "the check says so)")
ASSUME_LOCAL = "the backing file system is the sandbox's own and obeys POSIX"


def session_cases(prop, tier, seed, quick, thorough, n=150, geoms=None, pre=True, variants=("plain",), **extra):
    geoms = geoms or GEOMETRIES
    out = []
    for i in range(quick if tier == "quick" else thorough):
        g, mb = geoms[i % len(geoms)]
        r = random.Random(f"{prop}-{seed}-{i}-pre")
        unit = min(g[0], 65536)
        files = []
        if pre and r.random() < 0.7:
            for j in range(r.randrange(1, 4)):
                size = r.choice((r.randrange(1, mb * unit), r.randrange(1, mb + 1) * unit, 1, unit - 1, unit + 1))
                files.append((r.choice(("/" + "abc"[j], "/" + "abc"[j], "/p/" + "abc"[j])), r.randrange(1 << 40), max(1, size)))
        c = {"cfg": {"manual": g}, "seed": f"{seed}-{i}", "n": n, "mb": mb, "pre": files}
        if len(variants) > 1 or variants[0] != "plain":
            c["variant"] = variants[i % len(variants)]
        for k, v in extra.items():
            if k == "eviction":
                c["cfg"]["eviction"] = v
            else:
                c[k] = v
        out.append(c)
    return out


def session_run(prop, case, ctx, kinds, weights, finish=("verify",), **gk):
    r = random.Random(f"{prop}-{case['seed']}")

    def body(s):
        g = gen.Gen(r, s, weights, max_blocks=case["mb"], **gk)
        g.run(case["n"])
        for f in finish:
            s.apply({"op": f})

    return run_session(case, ctx, body, kinds=kinds)


def aim(g, fop, p, to=None, target=None):
    """Does what it takes to have operation `fop` happen on path p (and `to`) next."""
    import os
    s, r = g.s, g.r

    def handle(avoid):
        hs = [k for k, x in s.handles.items() if x[3] == p and x[2] & 3 != avoid]
        if hs:
            return r.choice(hs)
        g.nh += 1
        s.apply({"op": "open", "path": p, "h": f"h{g.nh}", "flags": os.O_RDWR})
        return f"h{g.nh}"

    def close(q):
        for k in [k for k, x in s.handles.items() if x[3] == q]:
            s.apply({"op": "release", "h": k})

    def remove(q):
        close(q)
        s.apply({"op": "unlink", "path": q})

    def make(q):
        if not s.exists(q):
            g.nh += 1
            s.apply({"op": "create", "path": q, "h": f"h{g.nh}", "flags": os.O_RDWR | os.O_CREAT})

    if any(q and (q in s.dirs or not s.parent_ok(q)) for q in (p if fop != "symlink" else None, to)):
        return
    if fop == "symlink":
        if s.exists(to):
            remove(to)
        s.apply({"op": "symlink", "path": to, "target": target})
        return
    if p in s.syms:
        s.apply({"op": "unlink", "path": p})
    if fop == "create":
        if s.exists(p):
            remove(p)
        make(p)
        return
    make(p)
    if s.files.get(p) is None:
        return
    if fop in ("rename", "link"):
        if to == p:
            return
        if s.exists(to) and (fop == "link" or r.random() < 0.5 or any(x[3] == to for x in s.handles.values())):
            remove(to)
        s.apply({"op": fop, "a": p, "b": to})
    elif fop == "unlink":
        remove(p)
    elif fop == "truncate":
        s.apply({"op": "truncate", "path": p, "size": g.tsize(s.files[p])})
    elif fop in ("access", "open"):
        if len(s.handles) >= g.max_handles:
            close(p)
        g.nh += 1
        s.apply({"op": fop, "path": p, "h": f"h{g.nh}", "flags": os.O_RDWR})
    else:
        h = handle({"write": os.O_RDONLY, "read": os.O_WRONLY, "fsync": 9}[fop])
        if h in s.handles:
            f = s.handles[h][0]
            if fop == "write":
                s.apply({"op": "write", "h": h, "off": g.offset(len(f.data)), "n": g.length(), "seed": g.next_seed()})
            elif fop == "read":
                s.apply({"op": "read", "h": h, "off": g.offset(len(f.data)), "n": g.length()})
            else:
                s.apply({"op": "fsync", "h": h, "data": r.random() < 0.4})
