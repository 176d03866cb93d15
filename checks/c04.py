"""C04: no adopted state has a tensor wider than the limit, protected indices are not sliced, the new-slice budget is kept."""
from sa import cxxrun

TECHNIQUE = "partitioned abstract interpretation of the instantiated C++ (width guards on every adopting path)"
NOTE = ("Every path of update() that adopts a move must have found the width of the only changed tensor, minus the slices being adopted, not above the limit, must not add a protected index, must not unslice an index and must not add more than the allowed number; the slice selection is evaluated on a generic tensor and a generic index; construction must go through is_valid, which must test every tensor of both trees. Assumes that slices handed in by the caller are not among the indices the same call protects.")
KINDS = ["update", "slicer", "construction", "validity"]
RULES = {"slicer", "construct", "width-guard", "new-slices", "protected", "unsliced", "settings", "construct-valid", "validity-width", "iteration", "slicer-width"}


def run(c):
    cxxrun.run(c, KINDS, RULES)
    done = {r.split("/", 1)[-1] for r, _ in c.instances}
    for r in ['slicer', 'width-guard', 'new-slices', 'construct', 'validity-width']:
        if r not in done:
            c.require(r, 1)
    c.assume("trees given by the caller are valid and every index is kept exactly while something above it needs it")
