"""C01: reads return what was written."""
from vlib import far
from .common import ASSUME_CLIENT, ASSUME_LOCAL, HUGE, session_cases, session_run

LEVEL = "exploration"
RULE = ("one case is a random history of 150 operations (create, open with all flag combinations, write, read, truncate, "
        "fsync, rename, link, unlink, clear-cache, checkpoint ...) against the real program in one of 17 block/page "
        "geometries, ending with a read of every file; every byte of every read is compared with the model; it counts when "
        "it ran to its end with no disagreement outside this property, distinct by the final contents; other cases do the "
        "same in windows of large sparse files, at offsets around and beyond 2^31 and 2^32 and up to block number 2^31")
ASSUMPTIONS = [ASSUME_CLIENT, ASSUME_LOCAL]
KINDS = ["data", "errno.read", "errno.write", "errno.open", "errno.truncate", "errno.create", "errno.release", "dead", "hang"]


def cases(tier, seed):
    # the last: block numbers that do not fit (a known finding)
    return (session_cases("C01", tier, seed, 3000, 60000) + far.cases("C01far", tier, seed, 36)
            + session_cases("C01huge", tier, f"huge-{seed}", 24, 240, n=80, geoms=HUGE)
            + session_cases("C01p", tier, seed, 300, 6000, n=100, guarded=True)
            + [{"far": True, "blockid": True, "base": 512 << 31, "cfg": {"manual": (512, 512, 4096)}, "seed": "blockid", "n": 0}])


def run_case(case, ctx):
    if case.get("far"):
        return far.run_case(case, ctx, ["data", "size", "sync", "dead"])
    return session_run("C01", case, ctx, KINDS, {"clear": 0.7, "checkpoint": 0.5}, guarded=case.get("guarded", False))
