"""C02: the best cost, tree and slices are recorded together and never get worse."""
from sa import cxxrun

TECHNIQUE = "partitioned abstract interpretation of the instantiated C++ (per-path judgement of the best record)"
NOTE = ("On every path of every instantiation of update(): the walk never writes the best record; after it the record changes only on the paths where the current total was found strictly lower, and then tree, slices and cost are all taken from the current state as it is at that point; re-slicing is adopted only on the paths where its total was found strictly lower. Construction and is_valid start and check the record from the same tree and slices. Strict monotonicity follows; NaN totals are excluded by the constructor.")
KINDS = ["update", "construction", "validity"]
RULES = {"best", "min-untouched", "reslice", "construct-best", "validity-best", "iteration"}


def run(c):
    cxxrun.run(c, KINDS, RULES)
    done = {r.split("/", 1)[-1] for r, _ in c.instances}
    for r in ['best', 'min-untouched', 'construct-best']:
        if r not in done:
            c.require(r, 1)
    c.assume("trees given by the caller are valid and every index is kept exactly while something above it needs it")
