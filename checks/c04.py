"""C04: nothing reaches the backing files before a sync."""
from vlib import brim, far
from .common import ASSUME_CLIENT, ASSUME_LOCAL, session_cases, session_run

LEVEL = "fault_enumeration"
RULE = ("one case is a random history in a cache big enough for it, with looks at every backing file after random steps "
        "and power failures at random steps: each backing file must be exactly as its last fsync, fdatasync or checkpoint "
        "left it, and that is what the restarted program shows; or a short history in windows of a file of 2 GiB to 2^31 blocks, or one "
        "that fills the cache to its last page, the pages in use counted exactly; distinct by the final contents")
ASSUMPTIONS = [ASSUME_CLIENT, ASSUME_LOCAL, "the cache is big enough and no fault is configured"]
KINDS = ["lazy", "crash.content", "dead", "hang"]


def cases(tier, seed):
    return session_cases("C04", tier, seed, 2000, 40000) + far.cases("C04far", tier, seed, 32) + brim.cases("C04brim", tier, seed, 64)


def run_case(case, ctx):
    if case.get("brim"):
        return brim.run_case(case, ctx, ["lazy", "dead"])
    if case.get("far"):
        return far.run_case(case, ctx, ["lazy", "clear", "dead"])
    return session_run("C04", case, ctx, KINDS,
                       {"lazy": 12, "crash": 0.7, "clear": 0.4, "checkpoint": 0.4, "truncate": 7, "ftruncate": 6,
                        "rename": 5, "link": 4, "unlink": 3}, finish=("verify", "crash"))
