"""C03: a move changes the state only after a uniform draw fell strictly below the probability of its cost change; otherwise nothing changes."""
from sa import cxxrun

TECHNIQUE = "partitioned abstract interpretation of the instantiated C++ (guards of state writes), normal form of the acceptance formulas"
NOTE = ("On every path through one iteration of update() that leaves tree, indices or slices changed, the path must have decided draw < probability(delta, total) with a fresh [0,1) draw from the optimizer's generator and delta equal to the change of the total; on every other path the state must be what it was. The acceptance functions of all 12 instantiations are brought to a normal form and compared with the documented rule. The probability that a draw falls below a bound, and rounding inside pow, are not part of it.")
KINDS = ["update", "probability"]
RULES = {"acceptance", "acceptance-arguments", "acceptance-function", "not-applied", "iteration", "total-cost"}


def run(c):
    cxxrun.run(c, KINDS, RULES)
    done = {r.split("/", 1)[-1] for r, _ in c.instances}
    for r in ['acceptance', 'acceptance-function']:
        if r not in done:
            c.require(r, 1)
    c.assume("trees given by the caller are valid and every index is kept exactly while something above it needs it")
