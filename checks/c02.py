"""C02: attributes agree with what clients did."""
from .common import ASSUME_CLIENT, ASSUME_LOCAL, session_cases, session_run

LEVEL = "exploration"
RULE = ("one case is a random history of 150 operations rich in truncates, hard links, utimens, chmod, chown, stat, fstat and "
        "listings with attributes; size, sectors, link count, permissions, owner, modification and access time of every answer are "
        "compared with the model, those of folders and symbolic links with the backing file system; distinct by the final contents")
ASSUMPTIONS = [ASSUME_CLIENT, ASSUME_LOCAL, "one clock, read on the same machine, with 20 ms of slack"]
KINDS = ["attr", "ns.chmod", "ns.chown", "errno.stat", "errno.utimens", "errno.chmod", "errno.chown", "dead", "hang"]


def cases(tier, seed):
    return session_cases("C02", tier, seed, 2600, 50000)


def run_case(case, ctx):
    return session_run("C02", case, ctx, KINDS,
                       {"stat": 20, "fstat": 8, "utimens": 5, "chmod": 3, "chown": 3, "symlink": 1.5, "mkdir": 2, "link": 4, "unlink": 4, "truncate": 8,
                        "ftruncate": 8, "readdirplus": 4, "clear": 0.7, "checkpoint": 0.7, "fsync": 8, "read": 10,
                        "rename": 4})
