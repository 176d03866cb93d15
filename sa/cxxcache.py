"""Caches, slice selection, acceptance functions and construction of the optimisers: each evaluated on a generic node or index."""
from sa.cxxi import FULL, K, EndPath, GiveUp, Interp, Lv, Throw, add, subterms, t
from sa.cxxopt import MAXW, MINCOST, POS, THIS, Hooks, Report, Restart, Roles, canon, canon_lt, same_ctree, template_loop

CTREE = THIS + ("ctree",)


class Generic(Hooks):
    """One generic node A with children C0, C1; `for each node` constructs run their body on it."""

    def __init__(self, core, roles, out):
        super().__init__(core, roles, out)
        self.ranks = {}
        self.tree_args = ()

    def start(self, I, leaf=None):
        I.phase = "generic"
        I.mask = {x: I.feature() for x in ("a", "c0", "c1", "s", "k")}
        I.mask.update(x0=I.mask["c0"], x1=I.mask["c1"], c=I.mask["a"])
        I.constrain(~(I.mask["s"] & I.mask["k"]) & FULL)
        I.inds = {"A": I.mask["a"], "X0": I.mask["c0"], "X1": I.mask["c1"]}
        I.facts = []
        I.visited = []
        I.leaf = leaf

    def init(self, I, loc, mem):
        if loc[:1] == ("model",):
            return t("init", THIS + ("p_cmodel", "*") + loc[1:])
        if loc[:1] == ("arg",) and loc[-1] == "value" and loc[1] not in self.tree_args:
            key = ("argset", loc)
            if key not in I.memo:
                I.memo[key] = I.feature()
            return ("set", I.memo[key])
        if loc[:2] == CTREE and len(loc) > 3 and isinstance(loc[3], tuple) and loc[3][0] == "pos":
            x = loc[3][1]
            if loc[2] == "nodes" and len(loc) > 5 and loc[4] == "children" and x == "A":
                return K(-1) if I.leaf else POS[f"X{int(loc[5])}"]
            if loc[2] == "inds" and x in I.inds:
                return ("set", I.inds[x])
        if loc[:1] == THIS and len(loc) > 1:
            if loc[1] == "slices" and len(loc) == 2:
                return ("set", I.mask["s"])
            if loc == THIS + ("skip_slices", "value"):
                return ("set", I.mask["k"])
            if loc[1] == "min_total_cost":
                return MINCOST
            if loc[1] == "min_slices":
                if "ms" not in I.mask:
                    I.mask["ms"] = I.feature()
                return ("set", I.mask["ms"])
            if self.r is not None and loc[1] == self.r.width and len(loc) == 4 and loc[3] == POS["A"]:
                return t("width", ("set", I.mask["a"]))
        return None

    def project(self, I, v, suffix):
        if v[0] == "ptr" and suffix[0] == "*":
            return I.read(v[1] + suffix[1:])
        if v[:2] == ("t", "costcache") and suffix[-1] == "root":
            return t("total", *v[2:])
        return None

    def back(self, I, loc):
        return Lv(loc + ("root",))

    def size(self, I, o):
        if isinstance(o, Lv) and (o.loc[:2] == CTREE or o.loc[-1] in ("nodes", "ctree", "inds")):
            return t("nnodes")
        return None

    def op(self, I, e, op, fd):
        if op == "()" and e["a"]:
            f = I.ev(e["a"][0])
            v = I.rv(f) if not isinstance(f, Lv) or f.loc in I.mem else None
            if v is not None and v[0] == "model":
                a = [I.ev(x) for x in e["a"][1:]]
                if v[1] == "callback":
                    I.visited.append(I.rv(a[0]))
                    return K(None)
                return self.model(I, v[1], [I.rv(x) for x in a])
        return super().op(I, e, op, fd)

    def mcall(self, I, e, fd):
        if "cost_model" in fd.get("rec", "") and fd.get("n") == "clone":
            I.ev(e["o"])
            return ("ptr", ("model",))
        return super().mcall(I, e, fd)

    def call(self, I, e, fd):
        f = self.core.fun.get(e.get("f"))
        if f is not None and f["n"] == "traverse" and f["file"].endswith("tnco/utils.hpp"):
            a = [I.ev(x) for x in e["a"]]
            return self.every(I, I.rv(a[1]), e)
        if e.get("n") == "transform" and len(e["a"]) == 4:
            a = [I.rv(I.ev(x)) for x in e["a"]]
            if all(x[:2] == ("t", "iter") for x in a[:3]):
                src, dst = a[0][3], a[2][3]
                el = POS["A"]
                v = I.rv(I.apply(a[3], [Lv(src + (el,))]))
                I.write(dst + (el,), v)
                return K(None)
        if e.get("n") in ("all_of", "any_of", "none_of") and len(e["a"]) == 3:
            a = [I.rv(I.ev(x)) for x in e["a"]]
            if a[0][:3] == ("t", "iter", "begin") and a[1][:3] == ("t", "iter", "end") and a[0][3] == a[1][3]:
                key = ("generic", a[0][3])
                if key not in I.memo:
                    I.memo[key] = I.feature()
                el = ("set", I.memo[key])
                c = I.as_cond(I.rv(I.apply(a[2], [el])))
                n = e["n"]
                if n == "all_of":
                    return t("forall", a[0][3], canon(I, c))
                c = canon(I, I.lnot(c))
                return I.lnot(t("forall", a[0][3], c)) if n == "any_of" else t("forall", a[0][3], c)
        if f is not None and f["n"] == "get_cost" and self.inline_cost:
            return None
        return super().call(I, e, fd)

    inline_cost = False

    def every(self, I, fn, e):
        """fn applied to every node, children first: here to the generic one."""
        I.apply(fn, [POS["A"]])
        I.facts.append(("traversed",))
        return K(None)

    def loop(self, I, s):
        if s["k"] == "for":
            if s.get("init"):
                I.block(s["init"])
            env = I.frames[-1]["env"]
            ctr = [d["d"] for d in (s["init"] or {}).get("a", []) if "d" in d and I.mem.get(env[d["d"]]) == K(0)]
            for d in ctr:
                I.mem[env[d]] = POS["A"]
                c = I.cond(s["c"])
                if c == K(True):
                    before = dict(I.mem)
                    r = I.block(s["b"])
                    if r is not None and r[0] in ("brk", "ret"):
                        raise GiveUp("loop left early")
                    I.ev(s["inc"])
                    if I.mem[env[d]] != add(POS["A"], K(1)):
                        raise GiveUp("loop does not step by one")
                    for loc, v in list(I.mem.items()):
                        if loc in before and before[loc] != v and loc[0] in ("L", "T") and len(loc) == 2 and loc != env[d]:
                            if v[0] == "set":
                                raise GiveUp("a set is accumulated over the nodes")
                            I.mem[loc] = I.fresh("acc")
                    return None
                I.mem[env[d]] = K(0)
        return template_loop(self, I, s)

    def iteration(self, I, s, entry, head, state, sets):
        pass


def _interp(core, rep, roles):
    H = Generic(core, roles, rep)
    I = Interp(core, H)
    I.count = lambda rule: rep.counts.__setitem__(rule, rep.counts.get(rule, 0) + 1)
    I.notes = rep.notes
    return H, I


def explore(I, H, rep, run):
    for _ in range(40):
        rep.counts.clear()
        rep.found.clear()
        try:
            out = []
            for k in I.explore(run):
                out.append(k)
            return out
        except Restart:
            continue
    raise GiveUp("no inductive loop template")


def analyse_cache(core, f, role, finite):
    """One instantiation of a cache constructor (or get_cost): entries of leaves and inner nodes."""
    rep = Report(core, core.where(f))
    rec = f.get("rec", "")
    H, I = _interp(core, rep, None)
    H.inline_cost = True

    class R:
        pass
    H.r = R()
    H.r.finite, H.r.cost, H.r.hyper, H.r.width, H.r.wid = finite, "cost_cache", "hyper_cache", "width_cache", "width"
    roles = Roles(core, "")
    roles.fields = {"c": rec}
    names = roles._vectors(rec)
    part = next((x for x in names if "part" in x), names[0] if names else None)
    cc = next((x for x in names if x != part), None)
    obj = ("obj",)

    def run(I):
        leaf = I.choose("leaf", 2) == 0
        H.start(I, leaf)
        m = I.mask
        args = []
        for p in f["ps"]:
            ty = core.type(p["t"])
            if "ContractionTree" in ty and "lambda" not in ty and "(lambda" not in ty:
                args.append(Lv(CTREE))
            elif ty.replace("const ", "").startswith("tnco::bitset::Bitset") and "lambda" not in ty:
                args.append(("set", m["s"]))
            else:
                args.append(("model", "width" if role == "Width" else "contraction_cost"))
        cost = H.cost(m["a"] | m["c0"] | m["c1"], m["s"])
        # a valid contraction
        I.constrain(~((m["c0"] ^ m["c1"]) & ~m["a"]) & ~(m["a"] & ~(m["c0"] | m["c1"])) & FULL)
        if role == "get_cost":
            r = I.rv(I.call_fun(f, args))
            I.count("get-cost")
            want = K(0) if leaf else canon(I, cost)
            if not any(x == ("traversed",) for x in I.facts):
                raise GiveUp("get_cost does not walk the tree")
            if canon(I, r) != want:
                rep("C01", I, "get-cost", f, f"the cost summed from scratch is not the sum of the contraction costs ({'a leaf' if leaf else 'an inner node'} adds {canon(I, r)!r:.80})")
            return
        I.mem[obj] = t("object", rec)
        I.construct(f, args, obj)
        A = POS["A"]
        if role == "Cost":
            I.count("cost-cache")
            if not any(x == ("traversed",) for x in I.facts):
                raise GiveUp("the cost cache is not filled by walking the tree")
            gc, gp = canon(I, I.read(obj + (cc, A))), canon(I, I.read(obj + (part, A)))
            want = K(0) if leaf else canon(I, cost)
            if gc != want:
                rep("C01", I, "cost-cache", f, f"the contraction cost cached for {'a leaf is not 0' if leaf else 'an inner node is not the cost of its contraction'}")
            kids = K(0)
            if not leaf:
                kids = add(I.read(obj + (part, POS["X0"])), I.read(obj + (part, POS["X1"])))
            if gp != canon(I, add(want, kids)):
                rep("C01", I, "cost-cache", f, f"the partial cost cached for {'a leaf' if leaf else 'an inner node'} is not its contraction cost plus its children's partial costs")
        elif role == "Hyper":
            I.count("hyper-cache")
            got = canon(I, I.read(obj + (names[0], A)))
            if got[0] != "set":
                raise GiveUp("hyper cache not followed")
            want = canon(I, ("set", 0 if leaf else m["a"] & m["c0"] & m["c1"]))
            if got != want:
                rep("C01", I, "hyper-cache", f, f"the hyper-indices cached for {'a leaf are not empty' if leaf else 'an inner node are not those on it and both children'}")
        elif role == "Width":
            I.count("width-cache")
            if canon(I, I.read(obj + (names[0], A))) != t("width", canon(I, ("set", m["a"]))):
                rep("C01", I, "width-cache", f, "the width cached for a tensor is not the model's width of its indices")

    explore(I, H, rep, run)
    return rep


def analyse_traverse(core, f):
    """Post-order by an explicit stack: leaf or revisited nodes are reported once and popped, others push both children."""
    rep = Report(core, core.where(f))
    H, I = _interp(core, rep, Roles(core, ""))
    cases = []

    class TH(Generic):

        def mcall(self, I, e, fd):
            rec, n = fd.get("rec", ""), fd.get("n")
            if rec.startswith("std::stack<") or rec.startswith("std::vector<") and n in ("push_back", "pop_back", "back", "emplace_back"):
                a = [I.rv(I.ev(x)) for x in e["a"]]
                loc = I.lv(I.ev(e["o"]))
                n = {"push_back": "push", "emplace_back": "push", "emplace": "push", "pop_back": "pop", "back": "top"}.get(n, n)
                if n == "push":
                    I.log.append(("push", a[0]))
                    return K(None)
                if n == "pop":
                    I.log.append(("pop",))
                    return K(None)
                if n == "top":
                    return POS["A"] if I.phase == "loop" else I.fresh("top")
                if n == "empty":
                    return t("empty", loc)
                if n == "size":
                    return t("stacksize", loc)
            return super().mcall(I, e, fd)

        def size(self, I, o):
            if isinstance(o, Lv) and o.loc == ("tree",):
                return t("nnodes")
            return t("stacksize", I.lv(o))

        def init(self, I, loc, mem):
            if loc[:1] == ("tree",) and len(loc) > 4 and loc[1] == "nodes" and loc[2] == POS["A"] and loc[3] == "children":
                return K(-1) if I.leaf else POS[f"X{int(loc[4])}"]
            return None

        def loop(self, I, s):
            if I.phase == "loop":
                raise GiveUp("nested loop in traverse")
            I.entry = list(I.log)
            I.log.clear()
            I.phase = "loop"
            if not self.cond_of(I, s):
                I.phase = "done"
                c = [(c, v) for c, v in I.conds if c[:2] in (("t", "eq"), ("t", "empty"), ("t", "lt"))]
                return None
            vis = {}
            r = I.block(s["b"])
            if r is not None and r[0] in ("brk", "ret"):
                rep("C01", I, "traverse", s, "the traversal can stop before every node is visited")
            self.judge(I, s)
            raise EndPath

        def judge(self, I, s):
            I.count("traverse")
            if I.entry != [("push", add(t("nnodes"), K(-1)))]:
                rep("C01", I, "traverse", s, "the traversal does not start from the root (the last node)")
            seen = [v for c, v in I.conds if c[0] == "t" and c[1] in ("proj", "init", "init-bool", "not") or c[:2] == ("t", "eq") and any(isinstance(x, tuple) and x[:2] in (("t", "proj"), ("t", "init")) for x in c[2:])]
            vis = I.visited_flag()
            visited_now = vis
            done = I.leaf or visited_now is True
            pushes = [x[1] for x in I.log if x[0] == "push"]
            pops = sum(x[0] == "pop" for x in I.log)
            calls = I.visited
            if done:
                if pops != 1 or pushes or calls != [POS["A"]]:
                    rep("C01", I, "traverse", s, f"a {'leaf' if I.leaf else 'node whose children are done'} is not reported exactly once and removed ({len(calls)} calls, {pops} removals)")
            elif sorted(pushes) != sorted([POS["X0"], POS["X1"]]) or pops or calls or not I.marked():
                rep("C01", I, "traverse", s, "a node whose children are pending is not deferred until both are visited")

    TH.__init__ = Generic.__init__
    H = TH(core, Roles(core, ""), rep)
    I.hooks = H

    def run(I):
        leaf = I.choose("leaf", 2) == 0
        H.start(I, leaf)
        I.log = []
        locs = lambda: [k for k in I.mem if len(k) == 3 and k[0] == "L" and k[2] == POS["A"]]

        def flag():
            for c, v in I.conds:
                x = c
                neg = False
                if x[:2] == ("t", "eq") and K(0) in x[2:]:
                    neg = True
                if any(isinstance(y, tuple) and len(y) and POS["A"] in y for y in subterms(x)) and any(
                        isinstance(y, tuple) and y[:2] in (("t", "proj"), ("t", "init")) for y in subterms(x)):
                    return v != neg
            return None
        I.visited_flag = flag
        I.marked = lambda: any(I.mem[k] == K(True) for k in locs())
        I.call_fun(f, [Lv(("tree",)), ("model", "callback")])

    explore(I, H, rep, run)
    return rep


def analyse_slicer(core, f):
    """get_slices: every tensor is narrowed to max_width, or all its unprotected indices are sliced; protected ones never."""
    rep = Report(core, core.where(f))
    roles = Roles(core, "")
    roles.finite, roles.width, roles.cost = True, "width_cache", "cost_cache"
    H, I = _interp(core, rep, roles)
    skip = THIS + ("skip_slices",)

    def every(I, fn, e):
        env = I.clos[fn[1]]["env"]
        carried = [loc for loc in set(env.values()) if I.mem.get(loc, ("",))[0] == "set"]
        I.count("slicer")
        if len(carried) != 1:
            raise GiveUp("slices of the slicer not followed")
        sl = carried[0]
        start = I.mem[sl]
        if canon(I, start) != ("set", 0):
            raise GiveUp("slices do not start empty")
        g = I.feature()
        has = I.decide(t("has", skip))
        if has:
            I.constrain(~(g & I.mask["k"]) & FULL)
        I.mem[sl] = ("set", g)
        I.slices_loc, I.slices_in = sl, g
        if I.choose("after", 2):
            return K(None)
        I.leaf = I.choose("leaf", 2) == 1
        I.apply(fn, [POS["A"]])
        now = I.mem[sl]
        if now[0] != "set":
            raise GiveUp("slices of the slicer not followed")
        a, k, n = I.mask["a"], I.mask["k"] if has else 0, now[1]
        if g & ~n & I.valid:
            rep("C04", I, "slicer", e, "selecting slices for one tensor unslices an index another tensor may need")
        if n & k & I.valid:
            rep("C04", I, "slicer-protected", e, "a protected index (skip_slices) is selected for slicing")
        if n & ~(g | a) & I.valid:
            rep("C04", I, "slicer", e, "an index that is not on the tensor is sliced for it")
        whole = t("width", canon(I, ("set", a)))
        left = t("width", canon(I, ("set", a & ~n & FULL)))
        ok = any(canon(I, c) in (canon_lt(I, MAXW, whole), canon_lt(I, MAXW, left)) and not v for c, v in I.conds)
        # the tests made before the last index was added do not count: only widths of what is left
        if not ok and a & ~k & ~n & I.valid:
            rep("C04", I, "slicer-width", e, "a tensor can be left wider than max_width although it still has indices that may be sliced")
        raise EndPath

    H.every = every

    def run(I):
        H.start(I, None)
        args = []
        for p in f["ps"]:
            ty = core.type(p["t"])
            if "lambda" in ty:
                args.append(("model", "delta_width" if "delta" in p["n"] else "width"))
            elif "ContractionTree" in ty:
                args.append(Lv(CTREE))
            elif "optional<" in ty:
                args.append(Lv(skip))
            elif "mersenne" in ty:
                args.append(Lv(THIS + ("prng",)))
            elif ("max" in p["n"]):
                args.append(Lv(THIS + ("p_cmodel", "*", "max_width")))
            elif p["n"] == "width":
                args.append(Lv(THIS + ("width_cache", "width")))
            else:
                args.append(Lv(("arg", p["d"])))
        r = I.rv(I.call_fun(f, args))
        if not hasattr(I, "slices_loc"):
            raise GiveUp("the slicer does not walk the tree")
        if r != ("set", I.slices_in):
            rep("C04", I, "slicer-result", f, "the slices returned are not the ones selected")

    explore(I, H, rep, run)
    return rep


class Build(Generic):
    """Construction: the validity test is an oracle, caches and slices are described by what they are built from."""

    judging = None

    def mcall(self, I, e, fd):
        if fd.get("n") == "is_valid" and "Optimizer" in fd.get("rec", "") and fd.get("id") != self.judging:
            a = [I.rv(I.ev(x)) for x in e["a"]]
            return ("tuple", (t("init-bool", t("valid", "base" if fd["rec"] == self.base else "self")), K("")))
        if fd.get("n") == "is_valid" and "ContractionTree" in fd.get("rec", ""):
            o = I.lv(I.ev(e["o"]))
            a = [I.rv(I.ev(x)) for x in e["a"]]
            return ("tuple", (t("init-bool", t("valid", o, *a)), K("")))
        if fd.get("n") == "is_close_to":
            o, a = I.rv(I.ev(e["o"])), [I.rv(I.ev(x)) for x in e["a"]]
            return t("init-bool", t("close", o, *[canon(I, x) for x in a[:1]]))
        return super().mcall(I, e, fd)

    def call(self, I, e, fd):
        if fd.get("n") in ("is_logclose", "is_close", "all_close", "all_logclose"):
            a = [I.rv(I.ev(x)) for x in e["a"]]
            return t("init-bool", t("close", *[canon(I, x) for x in a[:2]]))
        return super().call(I, e, fd)

    def fixed(self, fd):
        return super().fixed(fd)


def _build(core, rec, rep):
    roles = Roles(core, rec)
    H = Build(core, roles, rep)
    H.base = next((b for b in core.bases(rec) if b.endswith("optimizer::Optimizer") and b != rec), None)
    I = Interp(core, H)
    I.count = lambda rule: rep.counts.__setitem__(rule, rep.counts.get(rule, 0) + 1)
    I.notes = rep.notes
    return H, I, roles


def arg(f, name):
    return next((("arg", p["d"]) for p in f["ps"] if p["n"] == name), None)


def analyse_ctor(core, f):
    """The constructor leaves caches, slices and the best record consistent, and throws on an invalid optimiser."""
    rep = Report(core, core.where(f))
    rec = f["rec"]
    H, I, r = _build(core, rec, rep)
    H.tree_args = [p["d"] for p in f["ps"] if "ContractionTree" in core.type(p["t"])]
    trees = [("arg", p["d"]) for p in f["ps"] if "ContractionTree" in core.type(p["t"]) and "optional" not in core.type(p["t"])]

    def run(I):
        H.start(I)
        args = [Lv(("arg", p["d"])) for p in f["ps"]]
        try:
            I.construct(f, args, THIS)
            threw = False
        except Throw:
            threw = True
        ok = {}
        for c, v in I.conds:
            for x in subterms(c):
                if isinstance(x, tuple) and x[:2] == ("t", "valid"):
                    ok[x[2]] = v if c[:2] != ("t", "not") else not v
        I.count("construct")
        if threw:
            return
        if ok.get("self") is not True:
            rep("C04", I, "construct-valid", f, "an optimiser can be built without its slices and caches being validated")
            rep("C01", I, "construct-valid", f, "an optimiser can be built without its slices and caches being validated")
        tree = I.read(CTREE)
        if canon(I, tree) != t("init", trees[0]):
            rep("C01", I, "construct", f, "the optimiser does not work on the tree it is given")
        S = I.read(THIS + ("slices",)) if r.finite else None
        cache = I.mem.get(THIS + (r.cost,))
        if cache is None or cache[:2] != ("t", "costcache"):
            raise GiveUp("cost cache of the constructor not followed")
        if not same_ctree(I, cache[2]):
            rep("C01", I, "construct", f, "the cost cache is built from something other than the optimiser's tree")
        if r.finite:
            if S[0] != "set":
                raise GiveUp("slices of the constructor not followed")
            if canon(I, cache[3]) != canon(I, S):
                rep("C01", I, "construct", f, "the cost cache is built for slices other than the optimiser's")
        for name, what in ((r.hyper, "hypercache"), (r.width, "widthcache")):
            if name:
                v = I.mem.get(THIS + (name,))
                if v is None or v[:2] != ("t", what):
                    raise GiveUp(f"{name} of the constructor not followed")
                if not same_ctree(I, v[2]):
                    rep("C01", I, "construct", f, f"{name} is built from something other than the optimiser's tree")
        mt = I.read(THIS + ("min_ctree",))
        MC = next((("arg", p["d"], "value") for p in f["ps"] if "ContractionTree" in core.type(p["t"]) and "optional" in core.type(p["t"])), None)
        given = next((v for c, v in I.conds if c == t("has", MC[:2])), None) if MC else None
        I.count("construct-best")
        if canon(I, mt) not in ((canon(I, tree), t("init", CTREE)) if not given else (t("init", MC),)):
            rep("C02", I, "construct-best", f, "the best tree does not start from the tree given (or from the best tree given)")
        cost = I.mem.get(THIS + ("min_total_cost",))
        if cost is None or cost[:2] != ("t", "totalcost"):
            raise GiveUp("best cost of the constructor not followed: "+str(cost)[:300])
        if cost[2][0] != "copy" or cost[2][1] != THIS + ("min_ctree",) or canon(I, I.snaps[cost[2][2]].get(THIS + ("min_ctree",), 0)) != canon(I, mt):
            rep("C02", I, "construct-best", f, "the best cost does not start as the cost of the best tree")
        if r.finite:
            ms = I.read(THIS + ("min_slices",))
            if ms[0] != "set":
                raise GiveUp("best slices of the constructor not followed")
            if canon(I, cost[3]) != canon(I, ms):
                rep("C02", I, "construct-best", f, "the best cost does not start as the cost for the best slices")
            for x in I.facts:
                if x[0] == "slicer":
                    I.count("slicer")
                    if not x[1]:
                        rep("C04", I, "slicer", f, "slices are selected for another tree, width cache, limit or protected set than the optimiser's own")
        for x in I.facts:
            if x[0] == "cache-fn":
                I.count("cost-arguments")
                if not x[1]:
                    rep("C01", I, "cost-arguments", f, "a cache is filled with a function other than the cost model's")

    explore(I, H, rep, run)
    return rep


def analyse_valid(core, f):
    """is_valid may only answer true if the base class, the best record, the caches and the widths were all found right."""
    rep = Report(core, core.where(f))
    rec = f["rec"]
    H, I, r = _build(core, rec, rep)
    H.judging = f["id"]

    def run(I):
        H.start(I)
        res = I.rv(I.call_fun(f, [Lv(("arg", p["d"])) for p in f["ps"]], this=THIS))
        first = I.project(res, (0,))
        I.count("validity")
        if first != K(True):
            if first == K(False):
                return
            if not I.decide(I.as_cond(first)):
                return
        facts = {}
        for c, v in I.conds:
            facts[canon(I, c)] = v
        have = [c[2] if c[:2] == ("t", "init-bool") else c for c, v in facts.items() if v]

        def need(p, rule, what, test):
            I.count("validity-" + rule)
            if not any(test(x) for x in have):
                rep(p, I, "validity", f, what)
        need("C05", "base", "an optimiser is reported valid without validating its trees", lambda x: x[:3] == ("t", "valid", "base"))

        def snap(v, root):
            return v[0] == "copy" and v[1] == THIS + (root,) and not any(k[:2] == THIS + (root,) for k in I.snaps[v[2]])
        need("C02", "best", "an optimiser is reported valid without checking the best cost against the best tree and slices",
             lambda x: x[:2] == ("t", "close") and any(isinstance(y, tuple) and y[:2] == ("t", "totalcost") and snap(y[2], "min_ctree") and (not r.finite or canon(I, y[3]) == canon(I, I.read(THIS + ("min_slices",))))
                                                       for y in x[2:]) and MINCOST in x[2:])
        need("C01", "cost", "an optimiser is reported valid without checking the cost cache against its tree and slices",
             lambda x: x[:2] == ("t", "close") and any(isinstance(y, tuple) and y[:2] == ("t", "costcache") and snap(y[2], "ctree") and (not r.finite or canon(I, y[3]) == canon(I, I.read(THIS + ("slices",)))) for y in x[2:]))
        need("C01", "hyper", "an optimiser is reported valid without checking the hyper-index cache",
             lambda x: x[:2] == ("t", "close") and any(isinstance(y, tuple) and y[:2] == ("t", "hypercache") and snap(y[2], "ctree") for y in x[2:]))
        if r.finite:
            need("C01", "width", "an optimiser is reported valid without checking the width cache",
                 lambda x: x[:2] == ("t", "close") and any(isinstance(y, tuple) and y[:2] == ("t", "widthcache") and snap(y[2], "ctree") for y in x[2:]))
            for tree, sl in (("ctree", "slices"), ("min_ctree", "min_slices")):
                S = I.read(THIS + (sl,))[1]
                loc = THIS + (tree, "inds")

                def wide(x):
                    if x[:2] != ("t", "forall") or x[2] != loc or ("generic", loc) not in I.memo:
                        return False
                    g = I.memo["generic", loc]
                    return canon(I, x[3]) == t("not", canon_lt(I, MAXW, t("width", ("set", g & ~S & FULL))))
                need("C04", "width", f"an optimiser is reported valid although a tensor of {tree} may be wider than max_width after slicing {sl}", wide)

    explore(I, H, rep, run)
    return rep
