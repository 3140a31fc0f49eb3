"""C03: fsync and fdatasync make data durable."""
from vlib import far
from .common import ASSUME_CLIENT, ASSUME_LOCAL, TIGHT, GEOMETRIES, session_cases, session_run

LEVEL = "fault_enumeration"
RULE = ("one case is a random history with frequent fsync and fdatasync calls and power failures (SIGKILL, clear-cache); "
        "after every sync the backing file is compared byte by byte with the model, and after every failure each byte of "
        "each backing file must be one the file had at or after its last sync; distinct by the final contents")
ASSUMPTIONS = [ASSUME_CLIENT, ASSUME_LOCAL, "a power failure is a SIGKILL of lazyfs: the backing file system survives"]
KINDS = ["disk.fsync", "disk.relaxed", "errno.fsync", "dead", "hang"]


def cases(tier, seed):
    a = session_cases("C03", tier, seed, 1500, 30000, n=110, relaxed=True)
    b = session_cases("C03t", tier, seed, 300, 6000, n=110, geoms=TIGHT, relaxed=True)
    c = session_cases("C03e", tier, seed, 300, 6000, n=110, geoms=TIGHT, relaxed=True, eviction=True)
    # more consecutive blocks than fit into one vectored write
    d = session_cases("C03v", tier, seed, 24, 300, n=40, geoms=[((16, 16, 16384), 3500), ((16, 64, 4096), 3500), ((24, 24, 9000), 2600)], relaxed=True)
    p = session_cases("C03p", tier, seed, 300, 6000, n=90, relaxed=True, guarded=True)
    return a + b + c + p + far.cases("C03far", tier, seed, 36) + d


def run_case(case, ctx):
    if case.get("far"):
        return far.run_case(case, ctx, ["disk", "sync", "clear", "dead"])
    return session_run("C03", case, ctx, KINDS,
                       {"fsync": 18, "crash": 1, "clear": 1, "truncate": 6, "ftruncate": 6, "checkpoint": 0.3},
                       finish=("verify", "crash"), guarded=case.get("guarded", False))
