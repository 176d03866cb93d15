"""C01: every cached cost, width, hyper-index set and contraction cost equals its value computed from the current tree."""
from sa import cxxrun

TECHNIQUE = "partitioned abstract interpretation of the instantiated C++ (inductive loop invariant over cached values, index sets as boolean functions)"
NOTE = ("Every instantiation of update() (12 width-limited, 4 unlimited) is evaluated on a generic position of the walk, starting from a state in which the caches are right: on every path back to the head of the loop, and at the return, each cached value must again be the value computed from the tree; the cache constructors, get_cost and traverse establish it, construction and is_valid connect them. Assumes a valid tree in which an index is kept exactly while something above still needs it, exact arithmetic (rounding is out of scope), and a cost that depends on the union of the indices of a contraction (what C10 establishes).")
KINDS = ["traverse", "cache", "update", "construction", "validity"]
RULES = {"cost-cache", "get-cost", "hyper-cache", "width-cache", "construct", "cost-arguments", "traverse", "contraction-cost", "epilogue", "hyper", "inds", "partial-cost", "total-cost", "walk-exit", "width", "cache-tree", "validity-cost", "validity-hyper", "validity-width", "iteration"}


def run(c):
    cxxrun.run(c, KINDS, RULES)
    done = {r.split("/", 1)[-1] for r, _ in c.instances}
    for r in ['total-cost', 'partial-cost', 'contraction-cost', 'hyper', 'width', 'traverse', 'cost-cache', 'get-cost', 'hyper-cache', 'width-cache']:
        if r not in done:
            c.require(r, 1)
    c.assume("trees given by the caller are valid and every index is kept exactly while something above it needs it")
