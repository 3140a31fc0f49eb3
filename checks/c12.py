"""C12: torn-op persists exactly the chosen parts of the write."""
import random

from vlib import gen
from vlib.runner import run_session
from .common import ASSUME_CLIENT, ASSUME_LOCAL, aim, session_cases

LEVEL = "fault_enumeration"
RULE = ("one case is a random history with torn-op faults on one or two files, given in the configuration file or by command: 1 to 2000 equal "
        "parts or listed sizes (some that do not add up to the write), any list of parts to persist in any order, occurrence 1 to 6; the "
        "bytes every backing file must hold after the crash are computed from the fault's parameters; it counts when lazyfs was "
        "torn down by the fault, distinct by the final contents")
ASSUMPTIONS = [ASSUME_CLIENT, ASSUME_LOCAL, "a file with a fault is not renamed or linked"]
KINDS = ["fault", "dead", "hang", "data", "lazy", "disk.fsync", "ns"]
W = {"link": 0, "rename": 0, "renamedir": 0, "unlink": 0.5, "mkdir": 0, "write": 45, "fsync": 5, "lazy": 4, "create": 8, "open": 9,
     "truncate": 3, "ftruncate": 3}
NAMES = ["/a", "/b", "/c", "/d"]


def spec(r, bs, path, many=None):
    n = many or r.choice((1, 2, 2, 3, 3, 4, 5, 9) * 6 + (40, 300, 2000))
    d = {"type": "torn-op", "file": "@ROOT@" + path, "occurrence": r.choice((1, 1, 2, 3, 4, 6))}
    if many or r.random() < 0.5:
        d["parts"] = n
    else:
        d["parts_bytes"] = [r.choice((r.randrange(1, bs + 1), bs, 1, r.randrange(1, 3 * bs))) for _ in range(n)]
        if n > 9:
            d["parts_bytes"] = [1 + b % 60 for b in d["parts_bytes"]]
        while sum(d["parts_bytes"]) > 128 * 1024:
            d["parts_bytes"][d["parts_bytes"].index(max(d["parts_bytes"]))] //= 2
        n = len(d["parts_bytes"])
    k = r.randrange(1, n + 1)
    d["persist"] = r.sample(range(1, n + 1), k)
    return d


def command(r, d):
    parts = [f"file={d['file']}", "persist=" + ",".join(map(str, d["persist"]))]
    if "parts" in d:
        parts.append(f"parts={d['parts']}")
    else:
        parts.append("parts_bytes=" + ",".join(map(str, d["parts_bytes"])))
    if d["occurrence"] != 1 or r.random() < 0.5:
        parts.append(f"occurrence={d['occurrence']}")
    r.shuffle(parts)
    return {"op": "fault", "kind": "torn-op", "spec": d, "text": "lazyfs::torn-op::" + "::".join(parts)}


def crowd(r, faults, other, spec):
    """Now and then, a fault of the other kind that is never reached, and a second one of this kind, which does not count."""
    out = list(faults)
    for d in faults:
        if r.random() < 0.25:
            p = d["file"].replace("@ROOT@", "")
            out.insert(out.index(d) + r.randrange(2), dict(other(p), occurrence=100000))
            out.insert(r.randrange(out.index(d) + 1, len(out) + 1), dict(spec(p), occurrence=r.choice((1, 2)), _invalid=True))
    return out


def decoys(r, faults):
    """Now and then, clear-cache injections for the same files, never reached."""
    out = list(faults)
    for d in faults:
        if r.random() < 0.25:
            out.insert(r.randrange(len(out) + 1), {"type": "clear-cache", "op": "write", "timing": r.choice(("before", "after")), "crash": r.random() < 0.5,
                                                   "occurrence": 100000, "from": d["file"]})
    return out


def cases(tier, seed):
    from . import c13
    out = session_cases("C12", tier, seed, 1600, 30000, n=70)
    for k, c in enumerate(out):
        r = random.Random(f"C12c-{seed}-{k}")
        c["faults"] = [spec(r, c["cfg"]["manual"][0], p) for p in r.sample(NAMES, r.choice((1, 1, 2)))]
        bs = c["cfg"]["manual"][0]
        c["faults"] = crowd(r, c["faults"], lambda p: c13.spec(r, p), lambda p: spec(r, bs, p))
        c["by_command"] = bool(k % 2)
        if not c["by_command"]:
            c["cfg"] = dict(c["cfg"], injections=decoys(r, c["faults"]))
    return out


def run_case(case, ctx):
    r = random.Random(f"C12-{case['seed']}")

    def body(s):
        from . import c13
        g = gen.Gen(r, s, W, max_blocks=case["mb"], no_trunc=True)
        if case["by_command"]:
            g.run(r.randrange(0, 25))
            for d in case["faults"]:
                s.apply((command if d["type"] == "torn-op" else c13.command)(r, d))
        end = len(s.ops) + case["n"]
        while len(s.ops) < end and s.deaths == 0:
            s.apply(g.next())
            if r.random() < 0.25 and s.deaths == 0:
                d = r.choice([d for d in case["faults"] if d["type"] == "torn-op" and not d.get("_invalid")])
                p = d["file"].replace("@ROOT@", "")
                n = g.length
                if "parts_bytes" in d and r.random() < 0.8:
                    g.length = lambda: sum(d["parts_bytes"])
                aim(g, "write", p)
                g.length = n
        s.apply({"op": "crash"})

    out = run_session(case, ctx, body, faults=True, kinds=KINDS)
    out["nontrivial"] = out["extra"]["deaths"] > 0
    return out
