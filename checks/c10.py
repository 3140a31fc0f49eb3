"""C10: crash commands crash at exactly the chosen operation."""
import random

from vlib import gen
from vlib.runner import run_session
from .common import ASSUME_CLIENT, ASSUME_LOCAL, session_cases

LEVEL = "fault_enumeration"
RULE = ("one case is a random history with one to four lazyfs::crash commands at random steps; the pairs of operation and timing are "
        "enumerated, patterns are drawn from names that exist, names of folders and names that do not; the model says which operation "
        "is the last one; lazyfs must survive all others, die by SIGKILL at that one, leave the backing folder and files as "
        "predicted, and show them after the restart; it counts when lazyfs died at least once, distinct by the final contents")
ASSUMPTIONS = [ASSUME_CLIENT, ASSUME_LOCAL, "patterns are plain ones whose meaning is the same in ECMAScript and Python"]
KINDS = ["fault", "dead", "hang", "data", "ns", "lazy", "disk.fsync", "crash.content"]
OPS = ["unlink", "truncate", "fsync", "write", "create", "access", "open", "read", "rename", "link", "symlink"]
MULTI = ("rename", "link", "symlink")
W = {"access": 5, "link": 5, "symlink": 4, "rename": 6, "unlink": 5, "open": 8, "create": 8, "fsync": 7, "mkdir": 2,
     "renamedir": 1, "lazy": 2, "clear": 0.5, "readdir": 1, "truncate": 5, "ftruncate": 4}


def cases(tier, seed):
    out = session_cases("C10", tier, seed, 1400, 30000, n=60)
    for i, c in enumerate(out):
        c["first"] = [OPS[i // 2 % len(OPS)], ("before", "after")[i % 2]]
    return out


def pattern(r, s):
    names = sorted(s.files) + sorted(s.dirs - {"/"}) + ["/a", "/zz", "/p/b"]
    n = r.choice(names)
    return r.choice((f"root{n}$", f"root{n}", n + "$", n[-2:] + "$", "/[a-c]$", "root/[^/]*$", "/p/", "no-such-name", "root.*[d-h]$", "a$|/b$", f"root{n}$|^/nowhere", f"^{s.fs.root}{n}$|qq$", "(/a|/c)$", "[^/]+/(a|b|p)$",
                     n.replace("/", "/+"), "lfs_.*/root"))


def command(r, s, fop, timing):
    d = {"op": "fault", "kind": "crash", "fop": fop, "timing": timing}
    parts = [f"timing={timing}", f"op={fop}"]
    if fop in MULTI:
        k = r.randrange(3)
        if fop == "symlink" and k != 2 and r.random() < 0.6:
            k = 2
        if k != 2:
            d["from"] = r.choice(("a", "x$", "such")) if fop == "symlink" else pattern(r, s)
        if k != 1:
            d["to"] = pattern(r, s)
    else:
        d["from"] = pattern(r, s)
    if "from" in d:
        parts.append("from_rgx=" + d["from"])
    if "to" in d:
        parts.append("to_rgx=" + d["to"])
    r.shuffle(parts)
    d["text"] = "lazyfs::crash::" + "::".join(parts)
    return d


def run_case(case, ctx):
    r = random.Random(f"C10-{case['seed']}")

    def body(s):
        g = gen.Gen(r, s, W, max_blocks=case["mb"], no_trunc=True)
        g.run(r.randrange(5, 40))
        for i in range(3):
            deaths = s.deaths
            for j in range(r.choice((1, 1, 2, 4))):
                fop, timing = case["first"] if i == 0 and j == 0 else (r.choice(OPS), r.choice(("before", "after")))
                s.apply(command(r, s, fop, timing))
                if i == 0 and j == 0:
                    g.names.append(fop if fop != "truncate" else "ftruncate")
                    g.weights.append(25)
            for _ in range(case["n"]):
                s.apply(g.next())
                if s.deaths > deaths:
                    break
            if i == 0:
                g.names.pop(), g.weights.pop()
        s.apply({"op": "crash"})

    out = run_session(case, ctx, body, faults=True, kinds=KINDS)
    out["nontrivial"] = out["extra"]["deaths"] > 0
    return out
