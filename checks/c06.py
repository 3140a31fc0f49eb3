"""C06: cache-checkpoint persists everything."""
from .common import ASSUME_CLIENT, ASSUME_LOCAL, TIGHT, session_cases, session_run

LEVEL = "exploration"
RULE = ("one case is a random history with cache-checkpoint commands at random steps; after each, every backing file "
        "(open, renamed, hard-linked, removed while open, truncated) is compared byte by byte with what clients see, and "
        "a power failure right after loses nothing; distinct by the final contents")
ASSUMPTIONS = [ASSUME_CLIENT, ASSUME_LOCAL]
KINDS = ["disk.checkpoint", "unnamed", "dead", "hang"]


# the known findings, so that every run says whether they are still there
KNOWN = [{"op": "create", "path": "/e", "h": "h", "flags": 66}, {"op": "link", "a": "/e", "b": "/g"}, {"op": "crash", "verify": False},
         {"op": "truncate", "path": "/e", "size": 1408}, {"op": "unlink", "path": "/e"}, {"op": "checkpoint"}]
UNWRITABLE = [{"op": "create", "path": "/e", "h": "h", "flags": 66, "mode": 0o444},
              {"op": "write", "h": "h", "off": 0, "n": 1000, "seed": 3}, {"op": "checkpoint"}]


def cases(tier, seed):
    return ([{"cfg": {"manual": (512, 512, 64)}, "seed": "known", "n": 0, "mb": 4, "pre": [], "ops": KNOWN},
             {"cfg": {"manual": (512, 512, 64)}, "seed": "unwritable", "n": 0, "mb": 4, "pre": [], "ops": UNWRITABLE, "unwritable": True}]
            + session_cases("C06p", tier, seed, 300, 6000, guarded=True)
            + session_cases("C06", tier, seed, 1800, 36000)
            + session_cases("C06t", tier, seed, 300, 6000, geoms=TIGHT, relaxed=True)
            + session_cases("C06e", tier, seed, 300, 6000, geoms=TIGHT, relaxed=True, eviction=True))


def run_case(case, ctx):
    return session_run("C06", case, ctx, KINDS + ["unwritable"] * case.get("unwritable", 0),
                       {"checkpoint": 7, "truncate": 7, "ftruncate": 6, "rename": 5, "link": 4, "unlink": 4, "fsync": 3,
                        "clear": 0.5, "renamedir": 2, "mkdir": 2}, finish=("checkpoint",),
                       guarded=case.get("guarded", False))
