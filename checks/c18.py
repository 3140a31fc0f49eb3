"""C18: no data races, deadlocks or lost requests under concurrency."""
import random

from vlib import twins
from .common import ASSUME_LOCAL
from .conc_common import conc_cases, races, rejudge, run_conc

LEVEL = "exploration"
SHIM = True
VARIANTS = ["plain", "tsan"]
RULE = ("one case is up to 12 rounds of 30 operations with up to 12 outstanding at once, together with commands and faults of all kinds that "
        "are added, counted and act meanwhile, with random pauses before calls on the backing files and around lock operations. One half "
        "runs in a build with ThreadSanitizer, whose reports count when both accesses are made by lazyfs's own code; in all of them every "
        "request must be answered and every command must be taken off the pipe and finish within the watchdog's time, or lazyfs must have "
        "killed itself because of a configured crash; 80 cases let changes of one file through several hard links overlap; distinct by seed")
ASSUMPTIONS = ["the client keeps to the kernel's locks: operations that change one file exclude each other, so do operations that change one "
               "folder; everything else overlaps, changes of one file through different hard links included", ASSUME_LOCAL,
               "no answer for 60 s, three times, is a hang", "ThreadSanitizer sees the synchronisation of the intercepted lock and file calls"]
OPS = ["write", "read", "fsync", "open", "create", "unlink", "truncate"]


def fault_lines(r, dies):
    out = []
    names = [f"{d}/{a}{i}" for d in ("", "/x", "/y") for a in "abcdefghijkl" for i in range(9)]
    for i in range(r.randrange(1, 6)):
        k = r.randrange(4 if dies else 2)
        if k == 0:
            out.append(f"lazyfs::crash::timing={r.choice(('before', 'after'))}::op={r.choice(OPS)}::from_rgx=never_{i}")
        elif k == 1:
            out.append(f"lazyfs::crash::timing={r.choice(('before', 'after'))}::op=rename::from_rgx=never_{i}::to_rgx=.*")
        elif k == 2:
            out.append(f"lazyfs::crash::timing={r.choice(('before', 'after'))}::op={r.choice(OPS)}::from_rgx={r.choice('abcdefghijkl')}{r.randrange(9)}$")
        else:
            out.append(f"lazyfs::torn-op::file=@ROOT@{r.choice(names)}::persist=1::parts=2::occurrence={r.randrange(1, 5)}")
    return out


def injections(r):
    out, seen = [], set()
    for i in range(r.randrange(1, 8)):
        p = r.choice(("", "/x", "/y")) + "/" + r.choice("abcdefghijkl") + str(r.randrange(9))
        if p in seen:
            continue
        seen.add(p)
        if r.random() < 0.7:
            out.append({"type": "clear-cache", "op": r.choice(OPS), "timing": r.choice(("before", "after")), "from": "@ROOT@" + p,
                        "occurrence": r.randrange(1, 6), "crash": False})
        else:
            out.append({"type": "torn-seq", "op": "write", "file": "@ROOT@" + p, "occurrence": 99, "persist": [1, 2]})
    return out


def cases(tier, seed):
    out = conc_cases("C18", tier, seed, 700, 14000)
    for i, c in enumerate(out):
        r = random.Random(f"{c['seed']}-f")
        c["noise"] = True
        c["variant"] = "tsan" if i % 2 else "plain"
        k = (i // 2) % 4
        if k == 1:
            c["free"] = True
            c["injections"] = injections(r)
        elif k == 2:
            c["free"] = c["dies"] = True
            c["pipe"] = fault_lines(r, True)
        elif k == 3:
            c["pipe"] = fault_lines(r, False)
            c["logops"] = True
    return out + twins.cases("C18", tier, seed, 80, 1600)


def judge_reports(reports):
    bad = races(reports)
    if bad:
        return "race." + bad[0][0].split()[0], bad[0][1][:6000]


def run_case(case, ctx):
    if case.get("kind") == "twins":
        out = twins.run_case(case, ctx, "tsan", judge_reports)
        if out.get("violation", {}).get("kind", "").startswith("conc"):
            out["inconclusive"] = "(other property) " + out.pop("violation")["detail"][:200]
        return out
    case.pop("history", None)
    return run_conc(case, ctx, case["variant"], kinds=("race", "dead", "hang"), timeout=60.0, san=judge_reports)
