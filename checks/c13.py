"""C13: torn-seq persists exactly the chosen writes of the group."""
import random

from vlib import gen
from vlib.runner import run_session
from .common import ASSUME_CLIENT, ASSUME_LOCAL, aim, session_cases

LEVEL = "fault_enumeration"
RULE = ("one case is a random history of writes and syncs with torn-seq faults on one or two files, given in the configuration file or by "
        "command: any list of writes to persist in any order, group 1 to 4, writes to other files in between; the bytes every backing file "
        "must hold after the crash are computed from the list of writes; it counts when lazyfs was torn down by the fault, "
        "distinct by the final contents")
ASSUMPTIONS = [ASSUME_CLIENT, ASSUME_LOCAL, "a file with a fault is not renamed, linked or removed; no clear-cache or checkpoint between its writes"]
KINDS = ["fault", "dead", "hang", "data", "lazy", "disk.fsync", "ns"]
W = {"link": 0, "rename": 0, "renamedir": 0, "unlink": 0, "mkdir": 0, "write": 40, "fsync": 6, "lazy": 6, "create": 8, "open": 9,
     "truncate": 2, "ftruncate": 2}
NAMES = ["/a", "/b", "/c", "/d"]


def spec(r, path):
    m = r.choice((1, 2, 2, 3, 4, 6))
    k = r.randrange(1, min(m, 4) + 1)
    return {"type": "torn-seq", "op": "write", "file": "@ROOT@" + path, "occurrence": r.choice((1, 1, 2, 2, 3, 4)),
            "persist": r.sample(range(1, m + 1), k)}


def command(r, d):
    parts = [f"file={d['file']}", "persist=" + ",".join(map(str, d["persist"])), "op=write"]
    if d["occurrence"] != 1 or r.random() < 0.5:
        parts.append(f"occurrence={d['occurrence']}")
    r.shuffle(parts)
    return {"op": "fault", "kind": "torn-seq", "spec": d, "text": "lazyfs::torn-seq::" + "::".join(parts)}


def cases(tier, seed):
    from . import c12
    out = session_cases("C13", tier, seed, 1600, 30000, n=90)
    for k, c in enumerate(out):
        r = random.Random(f"C13c-{seed}-{k}")
        c["faults"] = [spec(r, p) for p in r.sample(NAMES, r.choice((1, 1, 2)))]
        bs = c["cfg"]["manual"][0]
        c["faults"] = c12.crowd(r, c["faults"], lambda p: c12.spec(r, bs, p), lambda p: spec(r, p))
        c["by_command"] = bool(k % 2)
        if not c["by_command"]:
            c["cfg"] = dict(c["cfg"], injections=c12.decoys(r, c["faults"]))
    return out


def run_case(case, ctx):
    r = random.Random(f"C13-{case['seed']}")

    def body(s):
        from . import c12
        g = gen.Gen(r, s, W, max_blocks=case["mb"], no_trunc=True)
        if case["by_command"]:
            g.run(r.randrange(0, 25))
            for d in case["faults"]:
                s.apply((command if d["type"] == "torn-seq" else c12.command)(r, d))
        end = len(s.ops) + case["n"]
        while len(s.ops) < end and s.deaths == 0:
            s.apply(g.next())
            for _ in range(r.choice((0, 0, 0, 1, 1, 2))):
                if s.deaths:
                    break
                p = r.choice(case["faults"])["file"].replace("@ROOT@", "")
                aim(g, r.choice(("write", "write", "write", "fsync")), p)
        s.apply({"op": "crash"})

    out = run_session(case, ctx, body, faults=True, kinds=KINDS)
    out["nontrivial"] = out["extra"]["deaths"] > 0
    return out
