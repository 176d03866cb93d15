"""C05: every tree and contraction tree that construction lets through, and every accepted move, is well formed."""
from sa import cxxrun

TECHNIQUE = "partitioned abstract interpretation of the instantiated C++ (what the validity tests let through, compared with the requirement over all link orders)"
NOTE = ("The conditions under which each validity test answers `valid` are collected path by path and compared with the requirement: links null or in range, both children or none, children distinct, root last, leaves first, parent and child links agreeing on every node reachable from the root, and every node reached; for contraction trees also one index set per node, equal sizes, positive dimensions, index sets of contractions. Constructors must throw on an object that was not found valid; no binding may set a part of a tree; a swap must keep links two-way on a generic neighbourhood and reject positions outside the tree. Index sets follow a swap only inside the optimizer (judged by C01).")
KINDS = ["node-valid", "tree-valid", "ctree-valid", "tree-construction", "swap", "tree-bindings", "update"]


def run(c):
    cxxrun.run(c, KINDS, {"node-valid", "tree-valid", "link-use", "visit", "ctree-valid", "contraction", "ctree-obligation", "constructed", "swap", "swap-range", "bindings", "links"})
    done = {r.split("/", 1)[-1] for r, _ in c.instances}
    for r in ("node-valid", "tree-valid", "ctree-valid", "constructed", "swap", "swap-range", "bindings"):
        if r not in done:
            c.require(r, 1)
