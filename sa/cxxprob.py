"""Acceptance probabilities: the value of operator() on each side of `delta <= 0`, as a power of a ratio of polynomials."""
from fractions import Fraction

from sa.cxxcache import _interp, explore
from sa.cxxi import K, GiveUp, Lv, lin, t
from sa.cxxopt import Report, Roles

D, C, B = t("init", ("d",)), t("init", ("c",)), t("init", ("self", "#beta"))


# ---- polynomials: {monomial (sorted tuple of atoms): coefficient}; rationals: (num, den)
def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + s * c
    return {m: c for m, c in r.items() if c}


def pmul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = tuple(sorted(m + n, key=repr))
            r[k] = r.get(k, 0) + c * d
    return {m: c for m, c in r.items() if c}


def rat(v):
    """A term built from numbers, atoms and + - * / as a ratio of polynomials; anything else is an atom."""
    if v[0] == "k" and isinstance(v[1], (int, float)):
        return ({(): Fraction(v[1])} if v[1] else {}), {(): Fraction(1)}
    if v[0] == "lin":
        n, d = {}, {(): Fraction(1)}
        for a, c in v[1]:
            an, ad = rat(a) if a != 1 else ({(): Fraction(1)}, {(): Fraction(1)})
            n, d = padd(pmul(n, ad), pmul(pmul(an, d), {(): Fraction(c)})), pmul(d, ad)
        return n, d
    if v[:2] in (("t", "*"), ("t", "/")):
        (an, ad), (bn, bd) = rat(v[2]), rat(v[3])
        return (pmul(an, bn), pmul(ad, bd)) if v[1] == "*" else (pmul(an, bd), pmul(ad, bn))
    return {(v,): Fraction(1)}, {(): Fraction(1)}


def req(a, b):
    return pmul(a[0], b[1]) == pmul(b[0], a[1])


ONE = ({(): Fraction(1)}, {(): Fraction(1)})


def power(v):
    """v as (base, exponent), both rationals; None if not recognised."""
    if v[:2] == ("t", "pow"):
        p = power(v[2])
        e = rat(v[3])
        if p and not req(p[1], ONE):
            return p[0], (pmul(p[1][0], e[0]), pmul(p[1][1], e[1]))
        return rat(v[2]), e
    if v[:2] in (("t", "exp"), ("t", "exp2")):
        want = ("log", "log1p") if v[1] == "exp" else ("log2",)
        n, d = rat(v[2])
        logs = {a for m in n for a in m if a[:2] in tuple(("t", w) for w in want)}
        if len(logs) == 1 and all(sum(a in logs for a in m) == 1 for m in n) and not any(a in logs for m in d for a in m):
            g = logs.pop()
            x = rat(g[2]) if g[1] != "log1p" else rat(("lin", ((1, 1), (g[2], 1))))
            return x, ({tuple(a for a in m if a != g): c for m, c in n.items()}, d)
        return None
    if v[:2] == ("t", "/"):
        p, q = power(v[2]), power(v[3])
        if p and q and req(p[1], ONE) and not req(q[1], ONE) and req(p[0], ONE):
            return q[0], ({m: -c for m, c in q[1][0].items()}, q[1][1])
    return rat(v), ONE


def atoms(r):
    return {a for side in r for m in side for a in m}


def analyse_prob(core, f):
    rep = Report(core, core.where(f))
    rec = f["rec"]
    kind = "greedy" if "::greedy::" in rec else "mh" if "::mh::" in rec else "base"
    H, I = _interp(core, rep, Roles(core, ""))
    fields = [x for r in core.bases(rec) for x in core.rec.get(r, {}).get("fields", [])]
    if kind == "mh" and len(fields) != 1:
        raise GiveUp("fields of the Metropolis-Hastings rule not followed")

    def init(I, loc, mem):
        if loc[0] == "self" and fields and loc[1:] == (fields[0]["n"],):
            return B
        if loc == ("d",):
            return D
        return None
    H.init = init

    def run(I):
        I.facts = []
        v = I.rv(I.call_fun(f, [Lv(("d",)), Lv(("c",))], this=("self",)))
        I.count("acceptance-function")
        if kind == "base":
            if v != K(1):
                rep("C03", I, "probability", f, "the base rule does not accept every change")
            return
        lo = None       # delta <= 0 ?
        for c, val in I.conds:
            neg = c[:2] == ("t", "not")
            x = c[2] if neg else c
            if x == t("lt", K(0), D):
                lo = not (val != neg)
            elif x == t("lt", D, K(0)) and val != neg:
                lo = True
            elif x == t("eq", *sorted([K(0), D], key=repr)) and val != neg:
                lo = True
        if lo is None:
            # not split on the sign: one formula for both sides is right for neither rule
            if not I.conds:
                rep("C03", I, "probability", f, "the acceptance probability does not depend on whether the cost is raised")
                return
            # delta < 0 decided false, equality not asked: covers delta >= 0
            if any((c, val) == (t("lt", D, K(0)), False) for c, val in I.conds):
                rep("C03", I, "probability", f, "a change that leaves the cost as it is is not told apart from one that raises it")
                return
            raise GiveUp("condition of the acceptance function not followed")
        if lo:
            if v != K(1):
                rep("C03", I, "probability", f, "a change that does not raise the cost is not accepted with probability 1")
        elif kind == "greedy":
            if v != K(0):
                rep("C03", I, "probability", f, "the greedy rule gives a change that raises the cost a probability other than 0")
        else:
            p = power(v)
            want = ({(C,): Fraction(1), (D,): Fraction(1)}, {(C,): Fraction(1)})
            minus, plus = ({(B,): Fraction(-1)}, ONE[1]), ({(B,): Fraction(1)}, ONE[1])
            if p and (req(p[0], want) and req(p[1], minus) or req(p[0], (want[1], want[0])) and req(p[1], plus)):
                return
            if p is None or (atoms(p[0]) | atoms(p[1])) - {B, C, D}:
                raise GiveUp("formula of the Metropolis-Hastings rule not followed")
            rep("C03", I, "probability", f, "the Metropolis-Hastings probability of a change from cost c by delta > 0 is not ((c + delta) / c) ** -beta")

    explore(I, H, rep, run)
    return rep


def functions(core):
    return [f for f in core.functions("operator()") if "prob::" in f.get("rec", "") and f["rec"].split("<")[0].endswith("::Probability") and not f.get("lam")]
