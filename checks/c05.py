"""C05: clear-cache loses exactly the unsynced data."""
from .common import ASSUME_CLIENT, ASSUME_LOCAL, TIGHT, session_cases, session_run

LEVEL = "fault_enumeration"
RULE = ("one case is a random history with clear-cache commands at random steps, files open or unlinked-while-open included; "
        "after each, every file is read through the mount (path and open handle) and must be exactly as last synced, work "
        "goes on afterwards, and the completion message appears once per command; distinct by the final contents")
ASSUMPTIONS = [ASSUME_CLIENT, ASSUME_LOCAL]
KINDS = ["clear.content", "notify", "dead", "hang"]


def cases(tier, seed):
    return (session_cases("C05", tier, seed, 1800, 36000)
            + session_cases("C05t", tier, seed, 300, 6000, geoms=TIGHT, relaxed=True)
            + session_cases("C05e", tier, seed, 300, 6000, geoms=TIGHT, relaxed=True, eviction=True))


def run_case(case, ctx):
    return session_run("C05", case, ctx, KINDS,
                       {"clear": 6, "truncate": 7, "ftruncate": 6, "rename": 4, "link": 4, "unlink": 4, "fsync": 8},
                       finish=("clear", "verify"))
