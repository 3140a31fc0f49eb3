"""C07: name operations are immediate and cached data follows the file."""
from vlib import crowd
from .common import ASSUME_CLIENT, ASSUME_LOCAL, session_cases, session_run

LEVEL = "exploration"
RULE = ("one case is a random history rich in rename (files, folders, over existing targets, within one file's links), link, "
        "unlink (also while open), symlink, mkdir, rmdir and name operations that fail because a folder is read-only or not "
        "empty; after each the backing folder is looked at, listings and every file's content are compared; or folders of up to "
        "500 entries and 14 levels with names of every kind, whose listings, links and contents are compared while whole trees are "
        "renamed; distinct by the final contents and tree")
ASSUMPTIONS = [ASSUME_CLIENT, ASSUME_LOCAL]
KINDS = ["attr.nlink", "ns", "data", "disk.fsync", "disk.checkpoint", "errno.rename", "errno.link", "errno.unlink", "errno.symlink",
         "errno.mkdir", "errno.rmdir", "errno.readlink", "errno.readdir", "errno.access", "errno.create", "errno.open",
         "errno.read", "dead", "hang"]
W = {"rename": 14, "renamedir": 6, "link": 8, "unlink": 8, "mkdir": 5, "rmdir": 3, "symlink": 3, "readlink": 2,
     "readdir": 6, "access": 2, "readonly": 2.5, "readall": 14, "create": 10, "write": 30, "read": 8, "fsync": 5,
     "checkpoint": 0.7, "stat": 2, "readdirplus": 2}


def cases(tier, seed):
    return session_cases("C07", tier, seed, 2400, 50000) + crowd.cases("C07crowd", tier, seed, 80)


def run_case(case, ctx):
    if case.get("crowd"):
        return crowd.run_case(case, ctx, ["ns", "data", "disk", "dead"])
    return session_run("C07", case, ctx, KINDS, W)
