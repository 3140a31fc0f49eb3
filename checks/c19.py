"""C19: concurrent clients see a sequential file."""
from vlib import twins
from .conc_common import conc_cases, rejudge, run_conc
from .common import ASSUME_LOCAL

LEVEL = "exploration"
SHIM = True
RULE = ("one case is 12 rounds of 30 operations of which up to 12 are outstanding at once (writes, reads, truncates, syncs, attributes, "
        "opens, releases, creates, renames, links, unlinks on 1 to 10 files in three folders, with at most one clear-cache or checkpoint "
        "command in a round), with random pauses before calls on the backing files and around lock operations; at the end of each round "
        "contents, sizes, backing files and every answer are compared with all sequential orders that real time allows; a second family lets writes of "
        "separate ranges, growing truncates, syncs, reads, links and unlinks of one file overlap through several hard links, where every "
        "order gives the same file; distinct by seed (every schedule is different)")
ASSUMPTIONS = ["the client keeps to the kernel's locks: operations that change one file exclude each other, so do operations that change one "
               "folder; everything else overlaps, changes of one file through different hard links included", ASSUME_LOCAL]


def cases(tier, seed):
    out = conc_cases("C19", tier, seed, 1500, 40000)
    for i, c in enumerate(out):
        c["noise"] = i % 3 == 0
    return out + twins.cases("C19", tier, seed, 300, 6000)


def run_case(case, ctx):
    if case.get("kind") == "twins":
        return twins.run_case(case, ctx)
    if "history" in case:
        r = rejudge(case)
        if r:
            return r
        case = {k: v for k, v in case.items() if k != "history"}
    return run_conc(case, ctx)
