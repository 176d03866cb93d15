"""The optimiser step of the native core, interpreted over an arbitrary neighbourhood of an arbitrary contraction tree.

State at the head of the walk (the invariant, re-established by every iteration): node A with children B and C (either slot), B with
children X0 and X1, A's parent G or none. For one arbitrary index: c, x0, x1 say which tensors carry it, n whether it is needed above A,
s whether it is sliced, k whether it is protected from slicing; the index sets of B and A are then determined. Every cache entry holds the
value recomputed from that structure, except the partial costs of A and its ancestors, which are still to be propagated.
"""
from sa.cxxi import FULL, K, NULLPOS, EndPath, GiveUp, Infeasible, Interp, Lv, add, mklin, subterms, t

POS = {x: ("pos", x) for x in ("A", "B", "C", "X0", "X1", "G", "R")}
T = t("T")
MINCOST = t("MIN")
THIS = ("this",)
MAXW = t("init", THIS + ("p_cmodel", "*", "max_width"))
MAXNEW = t("init", THIS + ("max_number_new_slices",))


def canon(I, v):
    """Normal form of a value under the feasible index features."""
    if not isinstance(v, tuple):
        return v
    if len(v) == 2 and v[0] == "set":
        return ("set", v[1] & I.valid)
    if v and v[0] == "lin":
        d = {}
        for a, c in v[1]:
            a = canon(I, a) if isinstance(a, tuple) else a
            d[a] = d.get(a, 0) + c
        return mklin(d)
    if len(v) == 3 and v[0] == "copy":
        return v
    return tuple(canon(I, x) if isinstance(x, tuple) else x for x in v)


class Roles:
    """Field names of the optimiser, found by type where the type identifies them."""

    def __init__(self, core, rec):
        self.core, self.rec = core, rec
        self.cost = self.hyper = self.width = None
        self.partial, self.ccost, self.hyp, self.wid = "partial_cost", "contraction_cost", "hyper_inds", "width"
        self.fields = {}
        for r in core.bases(rec):
            for f in core.rec.get(r, {}).get("fields", []):
                ty = core.type(f["t"])
                self.fields[f["n"]] = ty
                for role in ("Cost", "Hyper", "Width"):
                    if f"::{role}Cache<" in ty:
                        setattr(self, role.lower(), f["n"])
        for fname, role in ((self.hyper, "hyp"), (self.width, "wid")):
            n = self._vectors(self.fields.get(fname))
            if len(n) == 1:
                setattr(self, role, n[0])
        n = self._vectors(self.fields.get(self.cost))
        if len(n) == 2 and not ({self.partial, self.ccost} <= set(n)):
            p = [x for x in n if "part" in x or "total" in x or "sub" in x]
            if len(p) == 1:
                self.partial, = p
                self.ccost, = [x for x in n if x != p[0]]
        self.finite = "slices" in self.fields

    def _vectors(self, ty):
        out = []
        for r in self.core.bases((ty or "").replace("const ", "")):
            for f in self.core.rec.get(r, {}).get("fields", []):
                if self.core.type(f["t"]).startswith("std::vector<"):
                    out.append(f["n"])
        return out


class Hooks:
    """Meaning of the optimiser's state and of the calls it makes."""

    def __init__(self, core, roles, out):
        self.core, self.r, self.out = core, roles, out
        self.havoc = set()

    # ---- initial state
    def start(self, I):
        I.phase = "entry"
        I.mask = m = {}
        for x in ("c", "x0", "x1", "n", "s", "k"):
            m[x] = I.feature()
        m["b"] = (m["x0"] | m["x1"]) & (m["c"] | m["n"])
        m["a"] = (m["b"] | m["c"]) & m["n"]
        # a valid, physical tree: an index carried by one child only is kept; a sliced index is not a protected one
        I.constrain(~((m["x0"] ^ m["x1"]) & ~m["b"]) & ~((m["b"] ^ m["c"]) & ~m["a"]) & ~(m["s"] & m["k"]) & FULL)
        I.inds = {"A": m["a"], "B": m["b"], "C": m["c"], "X0": m["x0"], "X1": m["x1"]}
        I.facts = []

    def root_b(self, I):
        return I.choose("root-B", 2) == 1

    def root_a(self, I):
        return I.choose("root-A", 2) == 1

    def cost(self, u, s):
        return t("cost", ("set", u), ("set", s)) if self.r.finite else t("cost", ("set", u))

    def base_ccost(self, I, x):
        m = I.mask
        if x == "A":
            return self.cost(m["a"] | m["b"] | m["c"], m["s"])
        if x == "B":
            return self.cost(m["b"] | m["x0"] | m["x1"], m["s"])
        return t("ccost0", x)

    def init(self, I, loc, mem):
        if loc[0] != "this" or len(loc) < 2:
            return None
        p, r = loc[1:], self.r
        if p[0] == "ctree" and len(p) > 2:
            X = p[2]
            if p[1] == "nodes" and len(p) > 3:
                if X[0] == "pos" if isinstance(X, tuple) else False:
                    x = X[1]
                    if p[3] == "parent":
                        if x == "B" and self.root_b(I):
                            return NULLPOS
                        if x == "A":
                            return NULLPOS if self.root_a(I) else POS["G"]
                        return {"B": POS["A"], "C": POS["A"], "X0": POS["B"], "X1": POS["B"]}.get(x)
                    if p[3] == "children" and len(p) > 4 and p[4] in (0, 1):
                        if x == "A":
                            return POS["B" if I.choose("slot-B", 2) == int(p[4]) else "C"]
                        if x == "B":
                            return POS[f"X{int(p[4])}"]
                elif p[3] == "parent":
                    return NULLPOS if I.choose(("single", X), 2) else POS["B"]
            if p[1] == "inds" and isinstance(X, tuple) and X[0] == "pos" and X[1] in I.inds:
                return ("set", I.inds[X[1]])
        if p[0] == r.cost and len(p) > 2:
            return self.cost_entry(I, p[1], p[2])
        if p[0] == r.hyper and len(p) > 2 and p[1] == r.hyp and p[2] in (POS["A"], POS["B"]):
            m = I.mask
            return ("set", m["a"] & m["b"] & m["c"] if p[2] == POS["A"] else m["b"] & m["x0"] & m["x1"])
        if p[0] == r.width and len(p) > 2 and p[1] == r.wid and isinstance(p[2], tuple) and p[2][0] == "pos" and p[2][1] in I.inds:
            return t("width", ("set", I.inds[p[2][1]]))
        if p[0] == "slices" and len(p) == 1:
            return ("set", I.mask["s"])
        if p == ("skip_slices", "value"):
            return ("set", I.mask["k"])
        if p == ("min_total_cost",):
            return MINCOST
        if p == ("min_slices",):
            if "ms" not in I.mask:
                I.mask["ms"] = I.feature()
            return ("set", I.mask["ms"])
        return None

    def cost_entry(self, I, field, X):
        r = self.r
        if X == "root":
            return T if field == r.partial else None
        if not (isinstance(X, tuple) and X[0] == "pos"):
            return None
        x = X[1]
        if field == r.ccost:
            return self.base_ccost(I, x)
        if field == r.partial:
            if x in ("X0", "X1", "C"):
                return t("P", x)
            if x == "B":
                if self.root_b(I):
                    return T
                return add(add(t("P", "X0"), t("P", "X1")), self.base_ccost(I, "B"))
            return t("stale", x)
        return None

    def project(self, I, v, suffix):
        r = self.r
        if v[0] == "t" and v[1] == "costcache" and len(suffix) >= 2:
            field, X = suffix[0], suffix[1]
            if field == r.partial:
                if X == "root" or I.phase == "iter" and X == (POS["A"] if self.root_a(I) else POS["R"]):
                    return self.cache_total(I, v)
                return t("cachepart", v, X)
            if field == r.ccost:
                return t("cacheccost", v, X)
        if v[0] == "t" and v[1] in ("hypercache", "widthcache"):
            return t("cacheentry", v, suffix[-1])
        return None

    def cache_total(self, I, v):
        return T if self.same_tree(I, v[2]) and (len(v) < 4 or canon(I, v[3]) == canon(I, ("set", I.mask["s"]))) else t("total", *v[2:])

    def same_tree(self, I, tree):
        """The tree this value was built from is the one at the head of the walk."""
        if tree[0] != "copy":
            return False
        return not any(k[:2] == THIS + ("ctree",) and I.snaps[tree[2]][k] != self.init(I, k, {}) for k in I.snaps[tree[2]])

    def back(self, I, loc):
        if I.phase == "iter":
            return Lv(loc + (POS["A"] if self.root_a(I) else POS["R"],))
        return Lv(loc + ("root",))

    def size(self, I, o):
        if isinstance(o, Lv) and o.loc[-1:] in (("nodes",), ("ctree",), ("inds",)):
            return t("nnodes")
        return None

    # ---- calls
    def op(self, I, e, op, fd):
        rec = fd.get("rec", "")
        if op == "()":
            if "prob::" in rec and "Probability" in rec:
                a = [I.rv(I.ev(x)) for x in e["a"][1:]]
                return t("prob", *[canon(I, x) for x in a])
            if rec.startswith("std::uniform_real_distribution"):
                u = I.rv(I.ev(e["a"][0]))
                g = I.ev(e["a"][1])
                I.n += 1
                ok = u[0] == "t" and u[1].startswith("new:") and all(x[0] == "k" for x in u[2:]) and [x[1] for x in u[2:]] in ([], [0], [0, 1], [0.0, 1.0], [0.0])
                return t("draw", I.n, ok, I.lv(g) == THIS + ("prng",))
            if rec.startswith("std::mersenne_twister") or "random_device" in rec:
                g = I.ev(e["a"][0])
                I.n += 1
                return t("rand", I.n, I.lv(g))
            if rec.startswith("std::uniform_int_distribution") or "std::bernoulli" in rec:
                for x in e["a"]:
                    I.ev(x)
                return I.fresh("rand")
        return self.fixed_op(I, e, op, fd)

    # FixedFloat is a number here (its own operations are C08)
    def fixed(self, fd):
        return "FixedFloat<" in fd.get("rec", "") or not fd.get("rec") and any("FixedFloat<" in self.core.type(p) for p in fd.get("ps", []))

    def fixed_op(self, I, e, op, fd):
        if not self.fixed(fd) or fd.get("rec", "").startswith("std::"):
            return None
        a = [I.ev(x) for x in e["a"]]
        v = [I.rv(x) for x in a]
        if op == "=":
            return I.assign(a[0], v[1])
        if op in ("<", ">", "<=", ">=", "==", "!=") and len(v) == 2:
            return I.compare(op, *v)
        if op in ("+", "-", "*", "/") and len(v) == 2:
            return I.arith(op, *v)
        if op in ("+=", "-=", "*=", "/="):
            return I.assign(a[0], I.arith(op[0], *v))
        if op == "-" and len(v) == 1:
            return add(K(0), v[0], -1)
        return None

    def mcall(self, I, e, fd):
        rec, n = fd.get("rec", ""), fd.get("n", "") or e.get("n", "")
        if "cost_model" in rec and n in ("contraction_cost", "width", "delta_width"):
            I.ev(e["o"])
            return self.model(I, n, [I.rv(I.ev(x)) for x in e["a"]])
        return None

    def model(self, I, n, a):
        if n == "contraction_cost":
            sets = a[:3] + a[4:5]
            if any(x[0] != "set" for x in sets):
                raise GiveUp("index set of a contraction not followed: " + repr([x for x in sets if x[0] != "set"])[:200])
            x, y, z = (v[1] for v in a[:3])
            # every index of a contraction is on two or three of its tensors
            once = (x & ~y & ~z | y & ~x & ~z | z & ~x & ~y) & I.valid
            I.facts.append(("contraction", once == 0))
            return self.cost(x | y | z, a[4][1] if len(a) > 4 else 0)
        if n == "width":
            if a[0][0] != "set":
                raise GiveUp("index set of a width not followed")
            return t("width", canon(I, a[0]))
        return t("delta_width", *[canon(I, x) for x in a])

    def ctor(self, I, e):
        ty = self.core.type(e["t"]).replace("const ", "")
        if ty.startswith("tnco::fixed_float::FixedFloat<") and len(e["a"]) <= 1:
            return I.rv(I.ev(e["a"][0])) if e["a"] else K(0)
        if ty.startswith(("std::shared_ptr<", "std::unique_ptr<")) and len(e["a"]) == 1:
            return I.rv(I.ev(e["a"][0]))
        for role in ("Cost", "Hyper", "Width", "Dims"):
            if f"::{role}Cache<" in ty and e["kind"] not in ("copy", "move"):
                return self.cache(I, role, [I.ev(x) for x in e["a"]])
        if ty.startswith("tnco::bitset::Bitset<") and e["kind"] not in ("copy", "move"):
            a = [I.rv(I.ev(x)) for x in e["a"]]
            if not any(x[0] == "set" for x in a) and not any(x[0] == "k" and x[1] for x in a[1:]):
                return ("set", 0)
        return None

    def cache(self, I, role, args):
        tree = next((a for a in args if isinstance(a, Lv) and a.loc[-1:] in (("ctree",), ("min_ctree",))), None)
        if tree is None:
            raise GiveUp("a cache of something other than the tree")
        tree = ("copy", tree.loc, I.snapshot())
        if role == "Dims":
            return t("dimscache", tree)
        if role == "Hyper":
            return t("hypercache", tree)
        fn = next((I.rv(a) for a in args if I.rv(a)[0] in ("clo", "fn")), None)
        if role == "Width":
            I.facts.append(("cache-fn", self.probe(I, fn, 1)))
            return t("widthcache", tree)
        s = [I.rv(a) for a in args if I.rv(a)[0] == "set"]
        if self.r.finite:
            I.facts.append(("cache-fn", self.probe(I, fn, 4)))
            if len(s) != 1:
                raise GiveUp("slices of a cost cache not followed: " + repr([str(I.rv(a))[:60] for a in args]))
            return t("costcache", tree, canon(I, s[0]))
        I.facts.append(("cache-fn", self.probe(I, fn, 3)))
        return t("costcache", tree)

    def probe(self, I, fn, n):
        """The function handed to a cache is the model's own."""
        if fn is None:
            return False
        masks = [("set", I.mask[x]) for x in ("x0", "x1", "c", "s")]
        I.depth += 1
        facts, I.facts = I.facts, []
        try:
            dims = Lv(THIS + ("ctree", "dims"))
            if n == 1:
                r = I.rv(I.apply(fn, [masks[0], dims]))
                return r == t("width", canon(I, masks[0]))
            r = I.rv(I.apply(fn, masks[:3] + [dims] + masks[3:n]))
            return r == self.cost(masks[0][1] | masks[1][1] | masks[2][1], masks[3][1])
        finally:
            I.facts = facts
            I.depth -= 1

    def call(self, I, e, fd):
        f = self.core.fun.get(e.get("f"))
        if "fixed_float" in fd.get("q", "") and f is not None and not f.get("rec"):
            return t(f["n"], *[I.rv(I.ev(x)) for x in e["a"]])
        if f is not None and f["file"].endswith("greedy/utils.hpp") and "Bitset" in self.core.type(f["ret"]) and not f.get("lam"):
            args = [I.ev(x) for x in e["a"]]
            return self.slicer(I, args)
        if f is not None and f["file"].endswith("/utils.hpp") and "optimize" in f["file"] and f["n"] == "get_cost":
            args = [I.ev(x) for x in e["a"]]
            v = self.cache(I, "Cost", args)
            return t("totalcost", *v[2:])
        return None

    def slicer(self, I, args):
        locs = [a.loc for a in args if isinstance(a, Lv)]
        vals = [I.rv(a) for a in args if I.rv(a)[0] != "clo"]
        ok = (THIS + ("ctree",) in locs and THIS + ("skip_slices",) in locs and THIS + ("prng",) in locs
              and MAXW in vals
              and THIS + (self.r.width, self.r.wid) in locs)
        widths = [I.rv(a) for a in args if I.rv(a)[0] == "clo"]
        ok = ok and any(self.probe_quiet(I, w) for w in widths)
        g = I.feature()
        I.constrain(~(g & I.mask["k"]) & FULL)
        I.n += 1
        I.facts.append(("slicer", ok, g, {k: v for k, v in I.mem.items() if k[:2] == THIS + ("ctree",)}))
        return ("set", g)

    def probe_quiet(self, I, w):
        try:
            return self.probe(I, w, 1)
        except GiveUp:
            return False

    # ---- loops
    def loop(self, I, s):
        if I.phase == "entry":
            return self.walk(I, s)
        return self.inner(I, s)

    def cond_of(self, I, s):
        if s["k"] == "for":
            c = s.get("c")
            return True if c is None else I.decide(I.cond(c))
        if s["k"] == "forr":
            raise GiveUp("range loop")
        return I.decide(I.cond(s["c"]))

    def walk(self, I, s):
        if s["k"] == "forr":
            raise GiveUp("unexpected loop before the walk")
        if s["k"] == "for" and s.get("init"):
            I.block(s["init"])
        changed = [k for k in I.mem if k[:1] == THIS and k[:2] != THIS + ("prng",) and canon(I, I.mem[k]) != canon(I, self.init(I, k, {}) or 0)]
        if changed:
            self.out("C01", I, "walk-entry", s, f"{'.'.join(map(str, changed[0][1:]))} is changed before the walk starts")
        for k in [k for k in I.mem if k[:1] == THIS]:
            del I.mem[k]
        I.phase = "iter"
        I.body_vars = _vars(s)
        env = {}
        for fr in I.frames:
            for d, loc in fr["env"].items():
                if loc and loc[0] in ("L", "T", "O") and len(loc) == 2:
                    env[d] = loc
        for d in self.havoc & set(env):
            I.mem[env[d]] = I.fresh("carried")
        I.head = {d: (loc, I.mem.get(loc)) for d, loc in env.items()}
        first = s["k"] == "do"
        if first and I.choose("do-exit", 2):
            if I.decide(I.cond(s["c"])):
                raise EndPath
            return self.leave(I, s, "cond")
        if not first and not self.cond_of(I, s):
            return self.leave(I, s, "cond")
        r = I.block(s["b"])
        if r is not None and r[0] == "brk":
            return self.leave(I, s, "break")
        if r is not None and r[0] == "ret":
            self.leave(I, s, "return")
            return r
        if s["k"] == "for" and s.get("inc"):
            I.ev(s["inc"])
        judge_iteration(self, I, s)
        raise EndPath

    def leave(self, I, s, how):
        """The walk is over: nothing may be pending."""
        wrote = [k for k in I.mem if k[:1] == THIS and k[:2] != THIS + ("prng",) and canon(I, I.mem[k]) != canon(I, self.init(I, k, {}) or 0)]
        atroot = I.memo.get(("choice", "root-B")) == 1
        I.count("walk-exit")
        if wrote:
            self.out("C01", I, "walk-exit", s, f"the walk stops with {'.'.join(map(str, wrote[0][1:2]))} half updated")
        elif not atroot:
            self.out("C01", I, "walk-exit", s, "the walk can stop below the root: the cached costs of the nodes above are not updated")
        for k in [k for k in I.mem if k[:1] == THIS]:
            del I.mem[k]
        I.phase = "end"
        I.facts = []
        I.conds = []
        return None

    # loops inside an iteration: inductive templates over index sets, widths and counters
    def inner(self, I, s):
        return template_loop(self, I, s)


def _vars(s):
    from sa.cxx import walk
    return {n["d"] for n in walk(s) if n.get("k") == "v" and "d" in n}


class Restart(Exception):
    """A loop template was too precise: analyse again with a weaker one."""


def locname(I, loc):
    for fr in reversed(I.frames):
        for d, l in fr["env"].items():
            if l == loc:
                return d
    return loc


def template_loop(H, I, s):
    """Inductive templates: an index set is v0, v0 | p, v0 & ~p or anything (p: the positions processed so far); a width is
    width(m & ~v) or width(v) for a looped index set v; a list of positions is permuted; anything else is unknown."""
    kind = s["k"]
    env = I.frames[-1]["env"]
    if kind == "for" and s.get("init"):
        I.block(s["init"])
    q = 0
    if kind == "forr":
        v = I.rv(I.ev(s["r"]))
        if v[0] != "poslist":
            raise GiveUp("loop over " + repr(v)[:80])
        q = v[1]
    else:
        for d in _vars(s):
            v = I.mem.get(env.get(d))
            if v is not None and v[0] == "poslist":
                q |= v[1]
    entry = dict(I.mem)
    names = {loc: locname(I, loc) for loc in entry}
    rank = H.ranks
    R = lambda loc: rank.get((s["l"], names[loc]), 0)
    p = I.feature(q)
    state = {}
    for loc, v0 in entry.items():
        if not R(loc):
            continue
        if v0[0] == "set":
            state[loc] = ("add", "del", "any")[min(R(loc), 3) - 1]
        elif v0[0] == "t" and v0[1] == "width":
            state[loc] = ("width", "any")[min(R(loc), 2) - 1]
        elif v0[0] == "poslist":
            raise GiveUp("a list of positions changes inside a loop")
        else:
            state[loc] = "any"
    for loc, kd in state.items():
        v0 = entry[loc]
        if kd == "add":
            I.mem[loc] = ("set", v0[1] | p)
        elif kd == "del":
            I.mem[loc] = ("set", v0[1] & ~p & FULL)
        elif kd == "any":
            I.mem[loc] = ("set", I.feature()) if v0[0] == "set" else I.fresh("count")
    looped = [loc for loc, kd in state.items() if kd in ("add", "del")]
    sets = [v for loc, v in entry.items() if v[0] == "set" and loc not in state] + [("set", m) for m in getattr(I, "inds", {}).values()]

    def forms(loc):
        w = entry[loc][2]
        out = []
        for v in looped:
            if canon(I, entry[v]) == canon(I, w):
                out.append((None, v))
            out += [(m, v) for m in sets if canon(I, ("set", m[1] & ~entry[v][1] & FULL)) == canon(I, w)]
        return out

    def width(form):
        m, v = form
        x = I.mem[v][1]
        return t("width", canon(I, ("set", x if m is None else m[1] & ~x & FULL)))

    form = {}
    for loc, kd in state.items():
        if kd == "width":
            fs = forms(loc)
            i = rank.get((s["l"], names[loc], "form"), 0)
            if i >= len(fs):
                rank[s["l"], names[loc]] = 2
                raise Restart
            form[loc] = fs[i]
            I.mem[loc] = width(fs[i])
    head, nev = dict(I.mem), len(I.events)
    one = 0
    if kind == "forr":
        if I.pick(2):
            I.constrain(~(p ^ q) & FULL)
            return None
        el = t("elem", ("set", q), I.fresh("it")[2])
        one = I.feature(q)
        I.memo["single", el] = one
        I.constrain(~(one & p) & FULL)
        env[s["d"]] = I.alloc(el)
    elif kind == "do":
        if I.pick(2):
            if I.decide(I.cond(s["c"])):
                raise EndPath
            return None
    elif not H.cond_of(I, s):
        return None
    r = I.block(s["b"])
    if r is not None and r[0] == "brk":
        return None
    if r is not None and r[0] == "ret":
        return r
    if kind == "for" and s.get("inc"):
        I.ev(s["inc"])
    newp = p | one
    for ev in I.events[nev:]:
        if ev[0] in ("set", "reset", "flip"):
            newp |= I.singleton(ev[2])
    bad = False
    for loc, v0 in entry.items():
        v, kd = I.mem.get(loc), state.get(loc)
        if v is None:
            continue
        if kd is None:
            if canon(I, v) != canon(I, v0):
                rank[s["l"], names[loc]] = 1
                bad = True
        elif kd in ("add", "del"):
            want = ("set", v0[1] | newp if kd == "add" else v0[1] & ~newp & FULL)
            if canon(I, v) != canon(I, want):
                rank[s["l"], names[loc]] += 1
                bad = True
        elif kd == "width" and canon(I, v) != width(form[loc]):
            k = (s["l"], names[loc], "form")
            rank[k] = rank.get(k, 0) + 1
            bad = True
    if bad:
        raise Restart
    H.iteration(I, s, entry, head, state, [e for e in I.events[nev:] if e[0] == "set"])
    raise EndPath


# ---- obligations
def links(I):
    """Final links of the neighbourhood, or what is wrong with them."""
    rd = lambda x, *f: I.read(THIS + ("ctree", "nodes", POS[x]) + f)
    for k in I.mem:
        if k[:3] == THIS + ("ctree", "nodes") and (len(k) == 3 or k[3] not in POS.values() or k[3][1] not in I.inds):
            return None, "a node outside the neighbourhood is changed"
    ka = [rd("A", "children", i) for i in (0, 1)]
    kb = [rd("B", "children", i) for i in (0, 1)]
    name = lambda v: v[1] if v[0] == "pos" else None
    ka, kb = [name(v) for v in ka], [name(v) for v in kb]
    if "B" not in ka or ka[0] == ka[1]:
        return None, f"A has children {ka}"
    y = ka[1 - ka.index("B")]
    if set([y] + kb) != {"X0", "X1", "C"}:
        return None, f"the children are {y} next to B and {kb} under B"
    for x in kb:
        if rd(x, "parent") != POS["B"]:
            return None, f"{x} is a child of B, but its parent link is {name(rd(x, 'parent'))}"
    if rd(y, "parent") != POS["A"]:
        return None, f"{y} is a child of A, but its parent link is {name(rd(y, 'parent'))}"
    if rd("B", "parent") != POS["A"] or rd("A", "parent") != (NULLPOS if H_root(I) else POS["G"]):
        return None, "a parent link above the swapped nodes is changed"
    return (kb[0], kb[1], y), None


def H_root(I):
    return I.memo.get(("choice", "root-A"), 1) == 1 if ("choice", "root-A") in I.memo else I.choose("root-A", 2) == 1


def same_ctree(I, tree, mem=None):
    """The tree a value was built from equals the current one."""
    if tree[0] != "copy":
        return False
    snap = I.snaps[tree[2]]
    pre = THIS + ("ctree",)
    if tree[1] != pre:
        return False
    keys = {k for k in (*snap, *I.mem) if k[:2] == pre}
    return all(canon(I, I.read(k, snap)) == canon(I, I.read(k)) for k in keys)


def draws(I):
    """Comparisons of a random draw with an acceptance probability decided in this partition."""
    out, odd = [], []
    for c, v in I.conds:
        if not any(x[:2] == ("t", "draw") for x in subterms(c) if isinstance(x, tuple)):
            continue
        if c[:2] == ("t", "lt") and c[2][:2] == ("t", "draw") and c[3][:2] == ("t", "prob"):
            out.append((c[2], c[3], v))
        else:
            odd.append((c, v))
    return out, odd


def judge_iteration(H, I, s):
    r, m, out = H.r, I.mask, H.out
    I.count("iteration")
    facts = [f for f in I.facts]
    for f in facts:
        if f[0] in ("contraction", "cache-fn"):
            I.count("cost-arguments")
            if not f[1]:
                out("C01", I, "cost-arguments", s, "a contraction cost is computed from tensors that do not form a contraction" if f[0] == "contraction" else
                    "a cache is filled with a function other than the cost model's")
    ls, err = links(I)
    I.count("links")
    if err:
        out("C05", I, "links", s, err)
        return
    u, v, y = ls
    swapped = {u, v} != {"X0", "X1"}
    S = I.read(THIS + ("slices",))
    if S[0] != "set":
        raise GiveUp("slices not followed")
    resliced = canon(I, S) != canon(I, ("set", m["s"]))
    rd = lambda *p: canon(I, I.read(THIS + p))
    inds = {x: rd("ctree", "inds", POS[x]) for x in I.inds}
    if any(x[0] != "set" for x in inds.values()):
        raise GiveUp("index sets not followed")
    M = {x: I.inds[x] for x in I.inds}
    M["B"] = (M[u] | M[v]) & (M[y] | m["n"])
    for x in I.inds:
        I.count("inds")
        if inds[x] != canon(I, ("set", M[x])):
            out("C05" if x == "B" else "C01", I, "inds", s, f"after the step the indices of {x} are not those of its subtree" + describe(I, inds[x][1] ^ (M[x] & I.valid)))
            if x == "B":
                out("C01", I, "inds", s, "after the step the indices of B are not those of its subtree" + describe(I, inds[x][1] ^ (M[x] & I.valid)))
    moved = swapped or resliced or any(inds[x] != canon(I, ("set", I.inds[x])) for x in I.inds)
    # C03
    ds, odd = draws(I)
    took = [d for d in ds if d[2]]
    for c, val in odd:
        I.count("draw")
        if c[:2] == ("t", "lt") and c[3][:2] == ("t", "draw") and c[2][:2] == ("t", "prob"):
            out("C03", I, "draw", s, "a move of probability p is accepted when the draw equals p: moves of probability 0 can be accepted")
        else:
            I.notes.add("acceptance condition not recognised: " + repr(c)[:120])
            took.append(None)
    cache = I.mem.get(THIS + (r.cost,))
    if cache is not None and not (cache[0] == "t" and cache[1] == "costcache"):
        raise GiveUp("cost cache not followed")
    newA, newB = H.cost(M["A"] | M["B"] | M[y], m["s"]), H.cost(M["B"] | M[u] | M[v], m["s"])
    if not resliced:
        d = add(newA, H.base_ccost(I, "A"), -1)
        delta = canon(I, add(d, add(newB, H.base_ccost(I, "B"), -1)))
        after = canon(I, add(T, delta))
    else:
        delta = after = None
    if cache is not None:
        I.count("cache-tree")
        if not same_ctree(I, cache[2]):
            out("C01", I, "cache-tree", s, "the cost cache is rebuilt from a tree that differs from the one left in place")
        if r.finite:
            if canon(I, cache[3]) != canon(I, S):
                out("C01", I, "cache-slices", s, "the cost cache is rebuilt for other slices than the ones left in place")
        tot = canon(I, H.cache_total(I, cache))
        if delta is None:
            delta, after = canon(I, add(tot, T, -1)), tot
    elif resliced:
        out("C01", I, "cache-slices", s, "the slices change but the cached costs are not recomputed for them")
        return
    I.count("acceptance")
    if moved and not took:
        out("C03", I, "unaccepted", s, "the tree, its indices or the slices change although the move was not accepted" + ("" if ds else " (no draw)"))
    if not moved and took:
        out("C03", I, "not-applied", s, "a move is accepted but not applied")
    for dr in took:
        if dr is None:
            continue
        I.count("acceptance-arguments")
        drw, prob = dr[0], dr[1]
        if not drw[3]:
            out("C03", I, "draw", s, "the acceptance draw is not uniform on [0, 1)")
        if not drw[4]:
            out("C03", I, "draw", s, "the acceptance draw does not come from the optimiser's own generator")
        if moved:
            if not equal_cost(I, prob[2], delta, cache):
                out("C03", I, "delta", s, "the acceptance probability is evaluated for a cost change that is not the change of total cost of the move")
            if prob[3] != T:
                out("C03", I, "delta", s, "the acceptance probability is not evaluated against the current total cost")
    # C04
    if r.finite:
        I.count("width-guard")
        if swapped:
            w = t("width", canon(I, ("set", M["B"] & ~S[1] & FULL)))
            ok = any(c == canon_lt(I, MAXW, w) and not v for c, v in I.conds)
            if not ok:
                out("C04", I, "width-guard", s, "a swap can be kept without the sliced width of the new tensor being at most max_width")
        if (m["s"] & ~S[1]) & I.valid:
            out("C04", I, "unsliced", s, "a sliced index can be removed from the slices during the walk")
        has = I.memo.get(t("has", THIS + ("skip_slices",)))
        if has is not False and S[1] & m["k"] & I.valid:
            out("C04", I, "protected", s, "a protected index (skip_slices) can be sliced")
    # C01: caches
    alt = lambda x: (t("cacheccost", cache, POS[x]), t("cachepart", cache, POS[x])) if cache is not None else (None, None)
    where_is = {"A": (newA, None), "B": (newB, None)}
    for x in ("A", "B", "C", "X0", "X1"):
        I.count("contraction-cost")
        got = rd(r.cost, r.ccost, POS[x])
        want = canon(I, where_is[x][0] if x in where_is else H.base_ccost(I, x))
        if cache is not None:
            want = canon(I, alt(x)[0]) if (resliced or got[:2] == ("t", "cacheccost")) else want
        if got != want and not (got[:2] == ("t", "init")):
            out("C01", I, "contraction-cost", s, f"after the step the cached contraction cost of {x} is not the cost of its contraction")
    part = {x: rd(r.cost, r.partial, POS[x]) for x in ("A", "B", "C", "X0", "X1")}
    cc = {x: rd(r.cost, r.ccost, POS[x]) for x in ("A", "B")}
    for x, kids in (("B", (u, v)), ("A", ("B", y))):
        I.count("partial-cost")
        want = {canon(I, add(add(part[kids[0]], part[kids[1]]), cc[x]))}
        if cache is not None:
            want |= {canon(I, alt(x)[1]), canon(I, H.project(I, cache, (r.partial, POS[x])))}
        if part[x] not in want:
            out("C01", I, "partial-cost", s, f"after the step the cached partial cost of {x} is not the sum over its subtree")
    for x in ("C", "X0", "X1"):
        if part[x] != t("P", x) and not (cache is not None and part[x] == canon(I, alt(x)[1])):
            out("C01", I, "partial-cost", s, f"the cached partial cost of {x} changes although its subtree does not")
    hyp = I.mem.get(THIS + (r.hyper,))
    if hyp is not None and hyp[:2] == ("t", "hypercache"):
        I.count("hyper")
        if not same_ctree(I, hyp[2]):
            out("C01", I, "hyper", s, "the hyper-index cache is rebuilt from another tree")
    else:
        for x, (p, q) in (("A", ("B", y)), ("B", (u, v))):
            I.count("hyper")
            if rd(r.hyper, r.hyp, POS[x]) != canon(I, ("set", M[x] & M[p] & M[q])):
                out("C01", I, "hyper", s, f"after the step the cached hyper-indices of {x} are not the indices shared by it and its children")
    if r.width:
        wid = I.mem.get(THIS + (r.width,))
        if wid is not None and wid[:2] == ("t", "widthcache"):
            I.count("width")
            if not same_ctree(I, wid[2]):
                out("C01", I, "width", s, "the width cache is rebuilt from another tree")
        else:
            for x in I.inds:
                I.count("width")
                if rd(r.width, r.wid, POS[x]) != t("width", canon(I, ("set", M[x]))):
                    out("C01", I, "width", s, f"after the step the cached width of {x} is not the width of its tensor")
    # loop variables
    walked = False
    for d, (loc, v0) in I.head.items():
        now = I.mem.get(loc)
        if v0 is None or now is None:
            continue
        if v0 == POS["B"]:
            if now == POS["A"]:
                walked = True
            elif now != v0:
                out("C01", I, "walk", s, f"the walk continues from {now[1] if now[0] == 'pos' else 'another node'} instead of the parent of B")
        elif canon(I, v0) == T:
            I.count("total-cost")
            if d in I.body_vars and not equal_cost(I, now, after, cache):
                out("C03", I, "total-cost", s, "after the step the running total cost is not the cost of the tree and slices in place")
                out("C01", I, "total-cost", s, "after the step the running total cost is not the cost of the tree and slices in place")
        elif now != v0 and d not in H.havoc:
            H.havoc.add(d)
            raise Restart
    if not walked:
        out("C01", I, "walk", s, "the walk does not go on to the parent: the partial costs above are never updated")
    # C02: the best solution is not touched by the walk
    I.count("min-untouched")
    for k in I.mem:
        if k[:1] == THIS and len(k) > 1 and (str(k[1]).startswith("min_")):
            out("C02", I, "min-untouched", s, f"{k[1]} is written inside the walk, where cached costs are not final")
    for k in I.mem:
        if k[:1] == THIS and k[1] in ("skip_slices", "p_cmodel", "max_number_new_slices", "n_leaves", "n_tensors", "disable_shared_inds"):
            if canon(I, I.mem[k]) != canon(I, I.read(k, {})):
                out("C04", I, "settings", s, f"{k[1]} is changed by the walk")
        if k[:3] == THIS + ("ctree", "dims"):
            out("C01", I, "inds", s, "the dimensions are changed by the walk")


def canon_lt(I, a, b):
    return canon(I, t("lt", a, b))


def equal_cost(I, a, b, cache):
    return b is not None and canon(I, a) == canon(I, b)


def describe(I, diff):
    """A witness index for a wrong index set."""
    diff &= I.valid
    if not diff:
        return ""
    i = (diff & -diff).bit_length() - 1
    names = ["C", "X0", "X1", "needed above A", "sliced", "protected"]
    return " (an index on: " + ", ".join(n for j, n in enumerate(names) if i >> j & 1 and j < 6) + ")"


def judge_end(H, I, f):
    r, m, out = H.r, I.mask, H.out
    I.count("epilogue")
    S = I.read(THIS + ("slices",)) if r.finite else None
    cache = I.mem.get(THIS + (r.cost,))
    if cache is None and any(k[:2] == THIS + (r.cost,) for k in I.mem):
        raise GiveUp("cost cache modified after the walk")
    if any(k[:2] == THIS + ("ctree",) and canon(I, I.mem[k]) != canon(I, I.read(k, {})) for k in I.mem):
        out("C01", I, "after-walk", f, "the tree is changed after the walk")
        return
    total = T
    if r.finite and S[0] != "set":
        raise GiveUp("slices not followed")
    res = r.finite and canon(I, S) != canon(I, ("set", m["s"]))
    if cache is not None:
        if cache[:2] != ("t", "costcache"):
            raise GiveUp("cost cache not followed")
        I.count("reslice")
        if not same_ctree(I, cache[2]):
            out("C01", I, "cache-tree", f, "the cost cache is rebuilt from a tree that differs from the one left in place")
        if r.finite and canon(I, cache[3]) != canon(I, S):
            out("C01", I, "cache-slices", f, "the cost cache is rebuilt for other slices than the ones left in place")
        total = canon(I, H.cache_total(I, cache))
    elif res:
        out("C01", I, "cache-slices", f, "the slices are replaced but the cached costs are not recomputed for them")
        return
    if res:
        I.count("reslice")
        if not decided_less(I, total, T):
            out("C02", I, "reslice", f, "recomputed slices can be adopted although they do not lower the total cost")
        src = [x for x in I.facts if x[0] == "slicer" and canon(I, ("set", x[2])) == canon(I, S)]
        I.count("slicer")
        if not src:
            out("C04", I, "slicer", f, "slices are replaced by a set that does not come from the slice selection")
        elif not src[0][1]:
            out("C04", I, "slicer", f, "slices are selected for another tree, width cache, limit or protected set than the optimiser's own")
    for x in I.facts:
        if x[0] == "cache-fn":
            I.count("cost-arguments")
            if not x[1]:
                out("C01", I, "cost-arguments", f, "a cache is filled with a function other than the cost model's")
    # the record of the best solution
    I.count("best")
    parts = [("min_total_cost",), ("min_ctree",)] + ([("min_slices",)] if r.finite else [])
    wrote = []
    for p in parts:
        if any(k[:1 + len(p)] == THIS + p for k in I.mem):
            cur = I.read(THIS + p)
            if canon(I, cur) != canon(I, I.read(THIS + p, {})):
                wrote.append(p[0])
    if wrote and len(wrote) < len(parts):
        out("C02", I, "best", f, f"the best solution is recorded only in part: {', '.join(wrote)} without {', '.join(p[0] for p in parts if p[0] not in wrote)}")
        return
    if wrote:
        if canon(I, I.read(THIS + ("min_total_cost",))) != total:
            out("C02", I, "best", f, "the recorded best cost is not the total cost of the tree and slices in place")
        mt = I.mem.get(THIS + ("min_ctree",))
        if mt != t("init", THIS + ("ctree",)) and not (mt is not None and mt[0] == "copy" and same_ctree(I, mt)):
            out("C02", I, "best", f, "the recorded best tree is not the current tree")
        if r.finite and canon(I, I.read(THIS + ("min_slices",))) != canon(I, S):
            out("C02", I, "best", f, "the recorded best slices are not the slices in place")
        if not decided_less(I, total, MINCOST, strict=False):
            out("C02", I, "best", f, "a solution can be recorded as best although its cost is not lower")
    else:
        if not decided_not_less(I, total, MINCOST):
            out("C02", I, "best", f, "a solution of lower cost than the recorded one can be left unrecorded")


def decided_less(I, a, b, strict=True):
    lt, gt = canon_lt(I, a, b), canon_lt(I, b, a)
    for c, v in I.conds:
        c = canon(I, c)
        if c == lt and v or not strict and c == gt and not v:
            return True
    # differences compared with zero
    d = canon(I, add(a, b, -1))
    for c, v in I.conds:
        c = canon(I, c)
        if v and c[:2] == ("t", "lt") and c[3] == K(0) and c[2] == d:
            return True
    return False


def decided_not_less(I, a, b):
    lt, gt = canon_lt(I, a, b), canon_lt(I, b, a)
    return any(canon(I, c) == lt and not v or canon(I, c) == gt and v for c, v in I.conds) or canon(I, a) == canon(I, b)


class Report:
    """Findings and counts per property."""

    def __init__(self, core, where):
        self.core, self.where = core, where
        self.found, self.counts, self.notes = {}, {}, set()

    def __call__(self, prop, I, rule, s, msg):
        line = s.get("l") or s.get("line")
        self.found.setdefault((prop, rule, msg), (line, self.trace(I)))

    def trace(self, I):
        out = []
        for c, v in I.conds[:8]:
            out.append(("" if v else "not ") + pretty(c))
        return "; ".join(out)


def pretty(c, depth=0):
    if not isinstance(c, tuple):
        return str(c)
    if c[0] == "k":
        return str(c[1])
    if c[0] == "set":
        return "{..}"
    if c[0] == "pos":
        return c[1]
    if c[0] == "lin":
        return "sum"
    if c[0] == "t":
        if c[1] == "init":
            return ".".join(str(x) for x in c[2][1:] if not isinstance(x, tuple))
        return f"{c[1]}({', '.join(pretty(x, depth + 1) for x in c[2:] if isinstance(x, tuple))})" if depth < 4 else c[1]
    return str(c[0])


def analyse_update(core, f, roles=None):
    """Interpret one instantiation of update(); returns a Report."""
    roles = roles or Roles(core, f["rec"])
    rep = Report(core, core.where(f))
    H = Hooks(core, roles, rep)
    H.ranks = {}
    H.iteration = lambda I, s, entry, head, state, sets: bound_new_slices(H, I, s, entry, head, state, sets)
    I = Interp(core, H)
    for _ in range(40):
        rep.found, rep.counts, rep.notes = {}, {}, set()
        I.count = lambda rule: rep.counts.__setitem__(rule, rep.counts.get(rule, 0) + 1)
        I.notes = rep.notes

        def run(I):
            H.start(I)
            args = [Lv(("arg", p["d"])) for p in f["ps"]]
            r = I.call_fun(f, args, this=THIS)
            if I.phase == "end":
                judge_end(H, I, f)
            elif I.phase == "entry":
                if any(k[:1] == THIS and k[:2] != THIS + ("prng",) for k in I.mem):
                    rep("C01", I, "walk-entry", f, "the step returns early with changed state")
            return r

        try:
            for kind, r in I.explore(run):
                rep.counts["partitions"] = rep.counts.get("partitions", 0) + 1
                if kind == "throw":
                    rep.notes.add("a partition throws")
            return rep
        except Restart:
            continue
    raise GiveUp("no inductive loop template")


def bound_new_slices(H, I, s, entry, head, state, sets):
    """Every iteration that adds a slice advances a counter guarded by max_number_new_slices."""
    sl = [e for e in sets if any(v[0] == "set" and state.get(l) in ("add", "any") and l == e[1] for l, v in entry.items())]
    if not sl:
        return
    I.count("new-slices")
    for loc, kd in state.items():
        if kd != "any" or entry[loc][0] not in ("k", "t", "lin"):
            continue
        h, d = head[loc], add(I.mem[loc], head[loc], -1)
        if d[0] != "k":
            continue
        for c, v in I.conds:
            up = c == t("lt", h, MAXNEW) and v and entry[loc] == K(0) and d[1] >= len(sl)
            down = c == t("lt", K(0), h) and v and entry[loc] == MAXNEW and -d[1] >= len(sl)
            down |= c == t("eq", *sorted([h, K(0)], key=repr)) and not v and entry[loc] == MAXNEW and -d[1] == len(sl) == 1
            if up or down:
                return
    H.out("C04", I, "new-slices", s, "an iteration of the slicing loop adds slices without a counter bounded by max_number_new_slices")
