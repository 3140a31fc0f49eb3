"""C23: eviction takes the page that was used least recently, and only from a full cache."""
from vlib import lru
from .common import ASSUME_CLIENT, ASSUME_LOCAL

LEVEL = "exploration"
RULE = ("one case is a random sequence of 150 appends, overwrites, partial writes, reads, syncs, truncates and removals in a cache of 1 to 40 "
        "pages of 1 to 4 blocks; a model of the pages in the order of their last use says after every operation which dirty pages "
        "have been written back, and the backing files must be exactly that; it counts when dirty pages were evicted")
ASSUMPTIONS = [ASSUME_CLIENT, ASSUME_LOCAL, "a page is bound to one file, and a file takes a new page only when its pages have no room"]


def cases(tier, seed):
    return [{"seed": f"C23-{seed}-{i}", "n": 150} for i in range(1600 if tier == "quick" else 32000)]


def run_case(case, ctx):
    return lru.run_case(case, ctx, ["lru", "dead"])
