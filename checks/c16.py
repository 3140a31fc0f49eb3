"""C16: the unsynced-data report and the cache usage are truthful."""
from .common import ASSUME_CLIENT, ASSUME_LOCAL, TIGHT, session_cases, session_run

LEVEL = "exploration"
RULE = ("one case is a random history with unsynced-data reports and usage displays at random steps; the report is parsed and compared with "
        "the model's set of blocks written since the last sync (blocks that only zero-filling or cutting touched may be listed or not), "
        "its byte ranges with the file sizes, its total with its ranges, and the usage with the least and the most pages the cached "
        "data can need; under cache pressure only what is reported too much is a violation; distinct by the final contents")
ASSUMPTIONS = [ASSUME_CLIENT, ASSUME_LOCAL, "the log lines keep the documented fields",
               "a file that LazyFS has been told no remaining name of may be left out of the report"]
KINDS = ["report", "usage", "dead", "hang"]
W = {"report": 9, "usage": 7, "clear": 0.6, "clearquiet": 0.8, "checkpoint": 0.6, "fsync": 10, "link": 4, "rename": 5, "renamedir": 1.5,
     "unlink": 4, "truncate": 6, "ftruncate": 6}


def cases(tier, seed):
    return (session_cases("C16", tier, seed, 1600, 30000)
            + session_cases("C16e", tier, seed, 250, 5000, geoms=TIGHT, relaxed=True, eviction=True)
            + session_cases("C16t", tier, seed, 250, 5000, geoms=TIGHT, relaxed=True))


def run_case(case, ctx):
    return session_run("C16", case, ctx, KINDS, W, finish=("report", "usage"))
