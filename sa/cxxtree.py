"""Trees: what construction and the validity tests let through, and what a swap does to the links.

The validity tests are evaluated with the node links as unknowns; the conditions of the paths that answer `valid` are then compared with
the requirement over a small set of link values (order relations to null, 0 and the number of nodes are all that the code can see).
"""
import itertools

from sa.cxx import walk
from sa.cxxi import FULL, K, EndPath, GiveUp, Infeasible, Interp, Lv, Throw, add, subterms, t
from sa.cxxopt import Report, canon

TREE = ("tree",)
NODES = TREE + ("nodes",)
SIZE = t("nnodes")
ANY = t("any-node")
POS = {x: ("pos", x) for x in "ABCDEGP"}
DIMS = TREE + ("dims",)


def value(x, env):
    """A term under small concrete links (env: parent, c0, c1, n); None if it is about something else."""
    if x[0] == "k":
        return x[1]
    if x[0] == "lin":
        s = 0
        for a, c in x[1]:
            v = 1 if a == 1 else value(a, env)
            if v is None:
                return None
            s += c * v
        return s
    if x[0] == "t":
        if x[1] == "init" and len(x) == 3:
            return env.get(x[2][-1]) if x[2][-1] == "parent" else env.get(x[2][-2:]) if len(x[2]) > 1 else None
        if x == SIZE:
            return env["n"]
        a = [value(y, env) if isinstance(y, tuple) else None for y in x[2:]]
        if None in a:
            return None
        if x[1] == "lt":
            return a[0] < a[1]
        if x[1] == "eq":
            return a[0] == a[1]
        if x[1] == "not":
            return not a[0]
        if x[1] == "&":
            return int(a[0]) & int(a[1])
        if x[1] == "|":
            return int(a[0]) | int(a[1])
        if x[1] == "^":
            return int(a[0]) ^ int(a[1])
    return None


def valuations(n=3):
    r = range(-3, n + 2)
    for p, c0, c1 in itertools.product(r, r, r):
        yield {"parent": p, ("children", 0): c0, ("children", 1): c1, "n": n}


def holds(conds, env):
    """The conditions under env; conditions about other things are taken as satisfiable."""
    for c, v in conds:
        x = value(c, env)
        if x is not None and bool(x) != v:
            return False
    return True


def node_bad(env, ranged):
    p, a, b, n = env["parent"], env["children", 0], env["children", 1], env["n"]
    if any(x < -1 or ranged and x >= n for x in (p, a, b)):
        return "a link that is neither null nor a position in the tree"
    if (a < 0) != (b < 0):
        return "one child only"
    if a >= 0 and a == b:
        return "the same node twice as child"
    return None


def passing_bad(pred, ranged):
    """What a predicate over nodes lets through, or None."""
    for conds, res in pred:
        if not res:
            continue
        for env in valuations():
            if holds(conds, env):
                b = node_bad(env, ranged)
                if b:
                    return b
    return None


class TreeHooks:
    oracle = True       # is_valid calls on the object under construction are an unknown

    def __init__(self, core, rep):
        self.core, self.rep = core, rep
        self.outer = ()
        self.judging = None
        self.need_nonempty = False

    def init(self, I, loc, mem):
        return None

    def project(self, I, v, suffix):
        return None

    def size(self, I, o):
        if isinstance(o, Lv) and (o.loc[-1:] == ("nodes",) or o.loc == TREE or o.loc == ("this",)):
            return SIZE
        return None

    def back(self, I, loc):
        if loc[-1:] == ("nodes",) and self.judging == "tree":
            if not any("nnodes" in repr(c) and ("eq" in c[1:2] or "lt" in c[1:2]) for c, v in I.conds[:2]):
                self.need_nonempty = True
        return Lv(loc + ("back",))

    # ---- predicates over elements
    def nested(self, I, fn, args):
        J = Interp(self.core, self)
        out = []
        outer = self.outer

        def run(J):
            J.mem, J.clos, J.snaps, J.n = dict(I.mem), list(I.clos), list(I.snaps), I.n + 1000
            J.frames, J.memo, J.valid, J.nvars = list(I.frames), dict(I.memo), I.valid, I.nvars
            J.wl = getattr(I, "wl", None)
            v = J.as_cond(J.rv(J.apply(fn, args)))
            v = J.decide(v)
            out.append((tuple(J.conds), v))
        self.outer = outer + tuple(I.conds)
        try:
            for _ in J.explore(run):
                pass
        finally:
            self.outer = outer
        return tuple(out)

    def call(self, I, e, fd):
        n = e.get("n", "")
        f = self.core.fun.get(e.get("f"))
        if f is None and n in ("all_of", "any_of", "none_of", "count_if") and len(e["a"]) == 3:
            a = [I.rv(I.ev(x)) for x in e["a"]]
            if a[0][:3] == ("t", "iter", "begin"):
                xs = a[0][3]
                if a[1] == t("iter", "end", xs):
                    upto = "end"
                else:
                    upto = add(a[1], a[0], -1)
                p = self.nested(I, a[2], [Lv(xs + (ANY,))])
                if n == "count_if":
                    return t("count", (xs, upto), p)
                neg = tuple((c, not v) for c, v in p)
                if n == "all_of":
                    return t("forall", (xs, upto), p)
                r = t("forall", (xs, upto), neg)
                return r if n == "none_of" else I.lnot(r)
        if f is None and n in ("for_each", "transform", "transform_reduce", "accumulate", "reduce", "generate", "iota", "copy"):
            a = [I.ev(x) for x in e["a"]]
            for x in a:
                v = I.rv(x)
                if v[0] == "clo":
                    if n == "for_each":
                        self.nested(I, v, [Lv(I.rv(a[0])[3] + (ANY,))] if I.rv(a[0])[:2] == ("t", "iter") else [I.fresh("el")])
                    for loc in I.clos[v[1]]["env"].values():
                        if loc[0] in ("L", "T", "O"):
                            I.mem[loc] = I.fresh("havoc")
                elif v[:2] == ("t", "iter") and n == "transform" and x is a[2]:
                    I.write(v[3], I.fresh("havoc"))
            return I.fresh(n)
        return None

    def op(self, I, e, op, fd):
        return None

    def index(self, I, o, i):
        if isinstance(o, Lv) and self.judging == "tree" and any(
                isinstance(y, tuple) and y[:2] == ("t", "init") and len(y) == 3 and (y[2][-1] == "parent" or y[2][-2:-1] == ("children",)) for y in subterms(i)):
            I_conds = (*self.outer, *I.conds)
            # a link used as a position
            self.rep.counts["link-use"] = self.rep.counts.get("link-use", 0) + 1
            if not any(v and c[:2] == ("t", "forall") and c[2] == (NODES, "end") and passing_bad(c[3], True) is None for c, v in I_conds):
                x = next(y for y in subterms(i) if isinstance(y, tuple) and y[:2] == ("t", "init") and len(y) == 3)
                key = "parent" if x[2][-1] == "parent" else x[2][-2:]
                same = [c for c in I_conds]

                def inside(env):
                    return 0 <= env[key] < env["n"]
                el = x[2][:-1] if key == "parent" else x[2][:-2]
                own = [(c, v) for c, v in same if el in [s[2][:len(el)] for s in subterms(c) if isinstance(s, tuple) and s[:2] == ("t", "init") and len(s) == 3]]
                if not all(inside(env) for env in valuations() if holds(own, env)):
                    self.rep("C05", I, "range", {"l": self.line}, "a link is used as a position before it is known to be in range")
        return None

    line = 0

    def mcall(self, I, e, fd):
        n, rec = fd.get("n", "") or e.get("n", ""), fd.get("rec", "")
        if n == "is_valid" and rec.startswith("tnco::") and fd.get("id") != getattr(self, "fid", None):
            if self.judging == "tree":
                return None         # the node test is inlined
            o = I.lv(I.ev(e["o"]))
            a = [I.rv(I.ev(x)) for x in e["a"]]
            I.validated.append((rec, o, tuple(a), len(I.events)))
            return ("tuple", (t("init-bool", t("valid", rec, o)), K("")))
        if rec.startswith(("std::stack", "std::queue", "std::deque", "std::vector")) and isinstance(e.get("o"), dict):
            o = I.ev(e["o"])
            if isinstance(o, Lv) and o.loc[0] in ("L", "T") and len(o.loc) == 2:
                return self.worklist(I, n, o.loc, [I.ev(x) for x in e["a"]], rec)
        return None

    def worklist(self, I, n, loc, a, rec):
        v = I.mem.get(loc, ("t", "new"))
        if v[0] != "wl":
            if n in ("push", "push_back", "emplace", "emplace_back") and (v[:2] == ("t", "new") or v[0] == "t" and v[1].startswith("new:")):
                v = ("wl", ())
            else:
                return None
        if n in ("push", "push_back", "emplace", "emplace_back"):
            I.mem[loc] = ("wl", v[1] + tuple(I.rv(x) for x in a))
            return K(None)
        if n in ("top", "back", "front"):
            if v[1][:1] != (t("rest"),):
                return None
            if len(v[1]) == 1:
                I.mem[loc] = ("wl", (t("rest"), POS["P"]))
                return POS["P"]
            return v[1][-1]
        if n in ("pop", "pop_back", "pop_front"):
            if v[1] == (t("rest"), POS["P"]):
                I.mem[loc] = ("wl", (t("rest"),))
                I.popped = True
                return K(None)
            return None
        if n == "empty":
            return t("empty", loc) if v[1] == (t("rest"),) else K(not v[1])
        if n == "size" and v[1] == (t("rest"),):
            return t("wlsize", loc)
        return None

    # ---- loops
    def loop(self, I, s):
        k = s["k"]
        if k == "forr":
            return self.range_loop(I, s)
        if self.judging == "ctree":
            return self.node_loop(I, s)
        if self.judging == "tree" and k in ("while", "for"):
            return self.reach_loop(I, s)
        if self.judging == "ctor":
            return None
        raise GiveUp("loop")

    def range_loop(self, I, s):
        x = I.ev(s["r"])
        v = I.rv(x)
        env = I.frames[-1]["env"]
        if v[0] == "tuple":
            els = list(v[1])
        elif isinstance(x, Lv) and x.loc[-1] == "children":
            els = [Lv(x.loc + (0,)), Lv(x.loc + (1,))]
        elif self.judging == "ctor":
            return None
        else:
            raise GiveUp("range loop over " + repr(v)[:60])
        for y in els:
            env[s["d"]] = I.lv(y)
            r = I.block(s["b"])
            if r is not None:
                if r[0] == "brk":
                    break
                if r[0] == "ret":
                    return r
        return None

    def assigned(self, I, s):
        env = I.frames[-1]["env"]
        for x in walk(s):
            tgt = None
            if x.get("k") == "un" and x["op"] in ("++", "--"):
                tgt = x["a"][0]
            elif x.get("k") == "bin" and x["op"].endswith("=") and x["op"] not in ("==", "!=", "<=", ">="):
                tgt = x["a"][0]
            if tgt and tgt.get("k") == "v" and tgt.get("d") in env:
                yield tgt["d"], env[tgt["d"]]

    def reach_loop(self, I, s):
        if s.get("init"):
            I.block(s["init"])
        wl = [loc for loc, v in I.mem.items() if v[0] == "wl"]
        if len(wl) != 1:
            raise GiveUp("loop without a list of positions to visit")
        wl, = wl
        start = I.mem[wl][1]
        I.mem[wl] = ("wl", (t("rest"),))
        before = {}
        for d, loc in self.assigned(I, s):
            before[loc] = I.mem.get(loc)
            I.mem[loc] = t("visited", d)
        I.popped = False
        ctr = [loc for loc, v in before.items() if v == K(0)]
        c = I.cond(s["c"]) if s.get("c") else K(True)
        if not I.decide(c):
            I.mem[wl] = ("wl", ())
            root = add(SIZE, K(1), -1)
            I.facts.append(("reach", start == (root,), [I.mem[x] for x in ctr]))
            return None
        r = I.block(s["b"])
        if r is not None and r[0] == "ret":
            return r
        if r is not None and r[0] == "brk":
            raise GiveUp("loop left early")
        if s.get("inc"):
            I.ev(s["inc"])
        self.judge_visit(I, s, wl, ctr)
        raise EndPath

    def judge_visit(self, I, s, wl, ctr):
        I.count("visit")
        if not I.popped:
            raise GiveUp("position to visit not followed")
        items = I.mem[wl][1]
        kids = [t("init", NODES + (POS["P"], "children", i)) for i in (0, 1)]
        leaf = next((v for c, v in I.conds if c in (I.eq(kids[0], K(-1)), I.lt(kids[0], K(0)), I.eq(kids[1], K(-1)))), None)
        if leaf is None:
            raise GiveUp("leaves not told apart")
        if not any(I.mem[x] == add(t("visited", x_), K(1)) for x in ctr for x_ in [d for d in I.frames[-1]["env"] if I.frames[-1]["env"][d] == x]):
            self.rep("C05", I, "reach", s, "a visited node is not counted on some path: unreachable nodes can be accepted")
        if leaf:
            return
        pushed = items[1:]
        if any(p not in kids for p in pushed):
            raise GiveUp("positions to visit not followed")
        for i in (0, 1):
            if kids[i] not in pushed:
                self.rep("C05", I, "reach", s, f"child {i} of a node is not visited")
            par = t("init", NODES + (kids[i], "parent"))
            if not any(v and c == I.eq(par, POS["P"]) for c, v in I.conds):
                self.rep("C05", I, "links-agree", s, "a child whose parent link names another node is accepted")

    def node_loop(self, I, s):
        """for (i = 0; i < size; ++i): its body on a generic node, or the state after it."""
        if s["k"] != "for":
            raise GiveUp("loop")
        if s.get("init"):
            I.block(s["init"])
        env = I.frames[-1]["env"]
        ctr = [d["d"] for d in (s["init"] or {}).get("a", []) if "d" in d]
        if len(ctr) != 1:
            # `end_` next to the counter
            ctr = [d for d in ctr if any(x.get("k") == "un" and x["op"] == "++" and x["a"][0].get("d") == d for x in walk(s["inc"]))]
        if len(ctr) != 1:
            raise GiveUp("loop counter")
        loc = env[ctr[0]]
        first = I.rv(Lv(loc))
        I.mem[loc] = t("i")
        c = I.cond(s["c"])
        I.ev(s["inc"])
        if I.mem[loc] != add(t("i"), K(1)):
            raise GiveUp("loop does not step by one")
        nl = (t("/", add(SIZE, K(1)), K(2)),)
        if first not in (K(0), *nl):
            raise GiveUp("start of a loop over the nodes")
        if c not in (t("lt", t("i"), SIZE), I.lnot(I.eq(t("i"), SIZE))):
            short = c[:2] == ("t", "lt") and c[2] == t("i") and c[3][0] == "lin" and dict(c[3][1]).get(SIZE) == 1 and dict(c[3][1]).get(1, 0) < 0
            short = short or c[:2] == ("t", "lt") and c[2] == t("i") and c[3] in nl
            if short:
                self.rep("C05", I, "contraction", s, "the contractions of some nodes are not checked")
                return None
            raise GiveUp("bound of a loop over the nodes: " + repr(c)[:100])
        if I.choose(("loop", s["l"]), 2):
            I.mem[loc] = SIZE
            I.facts.append(("nodes-checked",))
            return None
        I.mem[loc] = POS["A"]
        r = I.block(s["b"])
        if r is not None and r[0] == "ret":
            if I.project(I.rv(r[1]), (0,)) != K(False):
                self.rep("C05", I, "contraction", s, "a contraction tree is accepted before all nodes are checked")
            raise EndPath
        if r is not None and r[0] == "brk":
            self.rep("C05", I, "contraction", s, "a contraction tree is accepted before all nodes are checked")
            raise EndPath
        self.judge_contraction(I, s)
        raise EndPath

    def judge_contraction(self, I, s):
        I.count("contraction")
        kid = t("init", TREE + ("nodes", POS["A"], "children", 0))
        leaf = next((v for c, v in I.conds if c in (I.eq(kid, K(-1)), I.lt(kid, K(0)))), None)
        if leaf is None:
            raise GiveUp("leaves not told apart")
        if leaf:
            return
        a, x0, x1 = (I.sets[k] for k in ("A", 0, 1))
        if (x0 ^ x1) & ~a & I.valid:
            self.rep("C05", I, "contraction", s, "an index that only one child carries may be missing from the node")
        if a & ~(x0 | x1) & I.valid:
            self.rep("C05", I, "contraction", s, "a node may carry an index that neither child carries")
        shared = t("init", ("arg", "check"))
        want = next((v for c, v in I.conds if c in (shared, t("not", I.eq(shared, K(0))))), None)
        if want is None and ("arg", "check") in I.used:
            want = True
        if want is not False and not any(c[:2] == ("t", "any") and v and canon(I, c[2]) == canon(I, ("set", x0 & x1)) for c, v in I.conds):
            self.rep("C05", I, "contraction", s, "children that share no index are accepted although shared indices were asked for")


class CtreeHooks(TreeHooks):

    def init(self, I, loc, mem):
        if loc[:2] == TREE + ("inds",) and len(loc) == 3:
            x = loc[2]
            for k, p in (("A", POS["A"]), (0, t("init", NODES + (POS["A"], "children", 0))), (1, t("init", NODES + (POS["A"], "children", 1)))):
                if x == p:
                    return ("set", I.sets[k])
        return None

    def size(self, I, o):
        if isinstance(o, Lv) and o.loc == TREE + ("inds",):
            return t("ninds-vec")
        if isinstance(o, Lv) and o.loc[:2] == TREE + ("inds",) and len(o.loc) == 3:
            return t("ninds") if o.loc[2] in (0, K(0)) else t("ninds", o.loc[2])
        if isinstance(o, Lv) and o.loc[:2] == DIMS:
            return t("size", o.loc)
        return super().size(I, o)


def _new(core, f, cls, judging):
    rep = Report(core, core.where(f))
    H = cls(core, rep)
    H.judging, H.fid, H.line = judging, f["id"], f["line"]
    I = Interp(core, H)
    I.count = lambda rule: rep.counts.__setitem__(rule, rep.counts.get(rule, 0) + 1)
    I.notes = rep.notes
    return rep, H, I


def _start(I):
    I.facts, I.validated, I.popped, I.used = [], [], False, set()


def analyse_node_valid(core, f):
    """Node::is_valid and Node's constructor."""
    rep, H, I = _new(core, f, TreeHooks, "node")

    def run(I):
        _start(I)
        r = I.rv(I.call_fun(f, [], this=("node",)))
        ok = I.project(r, (0,))
        I.count("node-valid")
        if not I.decide(I.as_cond(ok)):
            return
        for env in valuations():
            if holds(I.conds, env):
                b = node_bad(env, False)
                if b:
                    rep("C05", I, "node-valid", f, "a node is reported valid with " + b)
                    return
    list(I.explore(run))
    return rep


def analyse_tree_valid(core, f):
    rep, H, I = _new(core, f, TreeHooks, "tree")

    def run(I):
        _start(I)
        r = I.rv(I.call_fun(f, [], this=TREE))
        ok = I.project(r, (0,))
        I.count("tree-valid")
        if not I.decide(I.as_cond(ok)):
            return
        yes = [(c, v) for c, v in I.conds]
        alls = [c for c, v in yes if v and c[:2] == ("t", "forall") and c[2] == (NODES, "end")]
        bad = [passing_bad(c[3], True) for c in alls] or ["links that nothing was asked about"]
        if all(bad):
            rep("C05", I, "tree-valid", f, f"a tree is reported valid although a node may have {bad[0]}")
        back = t("init", NODES + ("back", "parent"))
        lastroot = any(v and c in (I.eq(back, K(-1)), I.lt(back, K(0))) for c, v in yes)
        back2 = t("init", NODES + (add(SIZE, K(1), -1), "parent"))
        if not lastroot and not any(v and c in (I.eq(back2, K(-1)), I.lt(back2, K(0))) for c, v in yes):
            rep("C05", I, "tree-valid", f, "a tree is reported valid although the last node may not be the root")
        # leaves first
        nl = t("/", add(SIZE, K(1)), K(2))

        def is_leaf_pred(p):
            return all(env["children", 0] == -1 for conds, v in p if v for env in valuations() if node_bad(env, True) is None and holds(conds, env))
        first = False
        for c, v in yes:
            if v and c[:2] == ("t", "eq"):
                for x, y in ((c[2], c[3]), (c[3], c[2])):
                    if x[:2] == ("t", "count") and x[2] == (NODES, y) and y == nl and is_leaf_pred(x[3]):
                        first = True
            if v and c[:2] == ("t", "forall") and c[2] == (NODES, nl) and is_leaf_pred(c[3]):
                first = True
        if not first:
            if any("'is_partitioned'" in repr(c) or "call:" in repr(c) for c, v in yes):
                raise GiveUp("order of the leaves not followed")
            rep("C05", I, "tree-valid", f, "a tree is reported valid although its leaves may not come first")
        reach = [x for x in I.facts if x[0] == "reach"]
        if not reach:
            rep("C05", I, "tree-valid", f, "a tree is reported valid although parent and child links may disagree or nodes be unreachable from the root")
        elif not any(x[1] for x in reach):
            rep("C05", I, "tree-valid", f, "the visit of the tree does not start from the last node alone")
        elif not any(v and c == I.eq(n, SIZE) for x in reach for n in x[2] for c, v in yes):
            rep("C05", I, "tree-valid", f, "a tree is reported valid although nodes may be unreachable from the root")
    list(I.explore(run))
    rep.need_nonempty = H.need_nonempty
    return rep


def analyse_ctree_valid(core, f):
    rep, H, I = _new(core, f, CtreeHooks, "ctree")

    def run(I):
        _start(I)
        I.sets = {k: I.feature() for k in ("A", 0, 1)}
        r = I.rv(I.call_fun(f, [Lv(("arg", "check")) for p in f["ps"]], this=TREE))
        ok = I.project(r, (0,))
        I.count("ctree-valid")
        if not I.decide(I.as_cond(ok)):
            return
        yes = list(I.conds)

        def need(test, what):
            I.count("ctree-obligation")
            if not any(test(c, v) for c, v in yes):
                rep("C05", I, "ctree-valid", f, "a contraction tree is reported valid although " + what)
        need(lambda c, v: v and c[:2] == ("t", "init-bool") and c[2][:2] == ("t", "valid") and "tree::Tree<" in c[2][2], "its tree was not validated")
        need(lambda c, v: v and c == I.eq(t("ninds-vec"), SIZE), "the number of index sets may differ from the number of nodes")

        def sizes(p):
            return all(any(b and c[:2] == ("t", "eq") and t("ninds") in c[2:] for c, b in conds) for conds, v in p if v)
        need(lambda c, v: v and c[:2] == ("t", "forall") and c[2] == (TREE + ("inds",), "end") and sizes(c[3]), "an index set may have another size")
        D = TREE + ("dims",)

        def nonzero(x):
            return x is not None and any(c in (I.eq(x, K(0)),) and not v or c == I.lt(K(0), x) and v for c, v in yes)
        kind = I.memo.get(("alternative", D))
        vecs = "vector" in kind if kind else not any(k[0] == "notalt" and k[1] == D and "vector" in k[2] for k in I.memo if isinstance(k, tuple) and len(k) == 3)
        if vecs:
            need(lambda c, v: v and c[:2] == ("t", "eq") and t("ninds") in c[2:] and any(x[:2] == ("t", "size") and x[2][:2] == D for x in c[2:] if isinstance(x, tuple)), "there may be too few or too many dimensions")

            def nz(p):
                return all(any((c[:2] == ("t", "eq") and K(0) in c[2:] and not b) or (c[:2] == ("t", "lt") and c[2] == K(0) and b) for c, b in conds) for conds, v in p if v)
            need(lambda c, v: v and c[:2] == ("t", "forall") and c[2][0][:2] == D and c[2][1] == "end" and nz(c[3]), "a dimension may be zero")
        else:
            need(lambda c, v: any(isinstance(x, tuple) and x[:2] == ("t", "init") and x[2][:2] == D for x in subterms(c)) and
                 ((c[:2] == ("t", "eq") and K(0) in c[2:] and not v) or (c[:2] == ("t", "lt") and c[2] == K(0) and v)), "the common dimension may be zero")
        if ("nodes-checked",) not in I.facts:
            rep("C05", I, "ctree-valid", f, "a contraction tree is reported valid although its index sets may not be those of a contraction")
    list(I.explore(run))
    return rep


def analyse_ctor(core, f, nonempty=False):
    """Every path out of a constructor that does not throw has found the object valid, and leaves it as it was found."""
    rep, H, I = _new(core, f, TreeHooks, "ctor")
    rec = f["rec"]
    node = "node::Node<" in rec

    def run(I):
        _start(I)
        OBJ = ("this",)
        try:
            I.construct(f, [Lv(("arg", p["n"])) for p in f["ps"]], OBJ)
        except Throw:
            return
        I.count("constructed")
        good = {c[2] for c, v in I.conds if v and c[:2] == ("t", "init-bool")}
        own = [x for x in I.validated if x[0] == rec and x[1][:1] == OBJ and t("valid", x[0], x[1]) in good]
        if not own:
            rep("C05", I, "constructed", f, f"a {rec.split('<')[0].split('::')[-1]} can be built without being validated")
            return
        after = own[-1][3]
        if any(ev[0] == "write" and ev[1][:1] == OBJ and len(ev[1]) > 1 for ev in I.events[after:]):
            rep("C05", I, "constructed", f, "an object is changed after it was validated")
        if nonempty and not any("nnodes" in repr(c) or "empty" in repr(c) for c, v in I.conds):
            rep("C05", I, "constructed", f, "a tree without nodes reaches the validity test, which reads its last node")
    list(I.explore(run))
    return rep


def analyse_swap(core, f):
    """swap_with_nn on a generic neighbourhood, and on an arbitrary position."""
    rep, H, I = _new(core, f, TreeHooks, "swap")
    p = f["ps"][0]

    def init(I, loc, mem):
        if loc[:2] == NODES and len(loc) > 3 and isinstance(loc[2], tuple) and loc[2][0] == "pos":
            x = loc[2][1]
            if loc[3] == "parent":
                if x == "D":
                    return K(-1) if I.choose("root-D", 2) else POS["B"]
                if x == "B":
                    return K(-1) if I.choose("root-B", 2) else POS["A"]
                return {"C": POS["A"], "E": POS["B"], "A": POS["G"]}.get(x)
            if loc[3] == "children" and len(loc) == 5:
                i = int(loc[4])
                if x == "A":
                    return POS["B"] if I.choose("slot-B", 2) == i else POS["C"]
                if x == "B":
                    return POS["D"] if I.choose("slot-D", 2) == i else POS["E"]
        return None

    P = t("argpos")

    def index(I, o, i):
        if isinstance(o, Lv) and o.loc == NODES and P in list(subterms(i)):
            I.count("swap-range")
            low = any((c == I.lt(P, K(0)) and not v) or (c == I.lt(K(-1), P) and v) or (c == I.eq(P, K(-1)) and False) for c, v in I.conds)
            high = any(c == I.lt(P, SIZE) and v or c[:2] == ("t", "lt") and c[2] == SIZE and c[3] == add(P, K(1)) and not v for c, v in I.conds)
            if i != P:
                raise GiveUp("position not followed")
            if not low or not high:
                rep("C05", I, "swap-range", f, "swap_with_nn reads the node at a position that may be " + ("negative" if not low else "beyond the last node"))
            raise EndPath
        if isinstance(i, tuple) and i[0] == "t" and i[1] in ("not", "eq", "lt"):
            return Lv(o.loc + (int(I.decide(i)),))
        return None
    H.init, H.index = init, index

    def sym(I):
        _start(I)
        loc = I.alloc(P)
        I.call_fun(f, [Lv(loc)], this=TREE)

    def run(I):
        _start(I)
        loc = I.alloc(POS["D"])
        I.call_fun(f, [Lv(loc)], this=TREE)
        I.count("swap")
        get = lambda x, *k: I.read(NODES + (POS[x], *k))
        rootD, rootB = I.memo.get(("choice", "root-D")), I.memo.get(("choice", "root-B"))
        if rootD is None:
            raise GiveUp("swap does not look at the node's parent")
        moved = not rootD and not rootB
        if moved and rootB is None:
            rep("C05", I, "swap", f, "a node whose parent is the root is swapped")
            return
        want = {("A", "kids"): {"B", "D" if moved else "C"}, ("B", "kids"): {"C" if moved else "D", "E"}, ("C", "parent"): "B" if moved else "A",
                ("D", "parent"): "A" if moved else "B", ("E", "parent"): "B", ("B", "parent"): "A"}
        if not moved:
            if any(ev[0] == "write" and ev[1][:2] == NODES for ev in I.events):
                rep("C05", I, "swap", f, "links are changed although there is no neighbour to swap with")
            return
        kids = lambda x: {v[1] if v[0] == "pos" else v for v in (get(x, "children", 0), get(x, "children", 1))}
        for (x, k), w in want.items():
            v = kids(x) if k == "kids" else get(x, "parent")
            v = v[1] if k == "parent" and v[0] == "pos" else v
            if v != w:
                what = f"the children of {x}" if k == "kids" else f"the parent of {x}"
                rep("C05", I, "swap", f, f"after the swap {what} are not updated consistently (A-(B-(D,E),C) with D and C swapped)")
        known = {"A", "B", "C", "D", "E"}
        for ev in I.events:
            if ev[0] == "write" and ev[1][:2] == NODES and not (isinstance(ev[1][2], tuple) and ev[1][2][0] == "pos" and ev[1][2][1] in known):
                rep("C05", I, "swap", f, "a node outside the neighbourhood is changed")
    list(I.explore(sym))
    list(I.explore(run))
    return rep


def analyse_bindings(core, f):
    """Bindings of the tree types: no attribute of a tree or of an optimizer is assignable from Python, and no method but the swap changes a tree."""
    rep = Report(core, core.where(f))
    protected = ("tnco::node::Node", "tnco::tree::Tree", "tnco::ctree::ContractionTree")

    def is_one(rec, optimizers=False):
        r = (rec or "").split("<")[0]
        return r in protected or optimizers and r.endswith("::Optimizer")

    class I:
        conds = ()

    def writes(body):
        for y in walk(body):
            tgt = None
            if y.get("k") == "bin" and y["op"].endswith("=") and y["op"] not in ("==", "!=", "<=", ">="):
                tgt = y["a"][0]
            elif y.get("k") == "op" and y["op"].endswith("=") and y["op"] not in ("==", "!=", "<=", ">=") and y["a"]:
                tgt = y["a"][0]
            elif y.get("k") == "un" and y["op"] in ("++", "--"):
                tgt = y["a"][0]
            if tgt:
                for z in walk(tgt):
                    if z.get("k") == "mem" and is_one(z.get("rec")):
                        yield y, z["n"]
                        break
    for x in walk(f["body"]):
        n = x.get("n", "") if x.get("k") in ("mcall", "call") else ""
        if n.startswith("def"):
            rep.counts["bindings"] = rep.counts.get("bindings", 0) + 1
        if n in ("def_readwrite", "def_property", "def_readwrite_static"):
            rec = core.fdecl.get(x.get("f"), {}).get("rec", "")
            if "<" in rec and is_one(rec.split("<", 1)[1], True):
                rep("C05", I, "bindings", x, "a part of a tree or of an optimizer can be assigned from Python without validation")
        elif n == "def":
            for m in walk(x.get("a", [])):
                g = core.fdecl.get(m.get("f"), {}) if m.get("k") == "fn" or m.get("k") == "mem" else {}
                if is_one(g.get("rec")) and not g.get("const") and not g.get("static") and not g.get("kind") and g.get("n") and g["n"] != "swap_with_nn":
                    rep("C05", I, "bindings", x, f"{g['n']} changes a tree and is exposed to Python")
        if x.get("k") == "lambda":
            for o in x.get("ops", []):
                g = core.fun.get(o)
                if g:
                    for y, field in writes(g["body"]):
                        rep("C05", I, "bindings", y, f"Python code can set {field} of a tree without validation")
    return rep
