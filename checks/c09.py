"""C09: LRU eviction is invisible to clients."""
from vlib import far
from .common import ASSUME_CLIENT, ASSUME_LOCAL, TIGHT, session_cases, session_run

LEVEL = "exploration"
RULE = ("one case is a random history in a cache of 1 to 16 pages that its files overflow, LRU eviction on; every read is "
        "compared with the model, every sync and checkpoint with the backing file, and the backing bytes between syncs must "
        "be ones the file had since its last sync; distinct by the final contents")
ASSUMPTIONS = [ASSUME_CLIENT, ASSUME_LOCAL]
KINDS = ["data", "disk", "lazy", "clear.content", "crash.content", "errno.read", "errno.write", "errno.truncate", "errno.fsync",
         "attr.size", "dead", "hang"]
W = {"fsync": 7, "clear": 0.7, "checkpoint": 0.7, "crash": 0.15, "lazy": 4, "truncate": 5, "ftruncate": 5}
EVICTION = True


def cases(tier, seed):
    return session_cases("C09", tier, seed, 2000, 40000, geoms=TIGHT, relaxed=True, eviction=EVICTION) + far.cases("C09far", tier, seed, 32, tight=True, eviction=True)


def run_case(case, ctx):
    if case.get("far"):
        return far.run_case(case, ctx, ["data", "size", "disk", "sync", "dead"])
    return session_run("C09", case, ctx, KINDS, W)
