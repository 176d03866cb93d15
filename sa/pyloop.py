"""Abstract execution of the paths through one loop body (or one function body without loops).

Values are tokens of an uninterpreted term algebra with a few interpreted constructors: two-element sequences, the smaller and
the larger of a pair, elements of iterables, positions found in a list at a given point. Branches are followed both ways, with
equal conditions taking equal outcomes; no arithmetic solver is involved.
"""
import ast


class TooMany(Exception):
    pass


class State:
    __slots__ = ("env", "vals", "tests", "facts", "events", "epoch", "iters", "ret")

    def __init__(self):
        self.env, self.vals, self.tests, self.facts = {}, {}, {}, frozenset()
        self.events, self.epoch, self.iters, self.ret = [], {}, {}, {}

    def copy(self):
        s = State.__new__(State)
        s.env, s.vals, s.tests, s.facts = dict(self.env), dict(self.vals), dict(self.tests), self.facts
        s.events, s.epoch, s.iters, s.ret = list(self.events), dict(self.epoch), dict(self.iters), dict(self.ret)
        return s


THROUGH = {"builtins.list", "builtins.tuple", "builtins.iter", "rich.progress.track", "builtins.int", "copy.copy"}


class Paths:

    def __init__(self, prog, cfg, limit=3000):
        self.prog, self.cfg, self.limit = prog, cfg, limit
        self.lams = {}
        self.n = 0

    # ------------------------------------------------------------------ terms
    def fresh(self, *k):
        self.n += 1
        return ("new", self.n) + k

    def item(self, t, i, st):
        if t[0] == "seq":
            return t[1 + i] if -len(t) + 1 <= i < len(t) - 1 and i >= 0 else t[i] if i < 0 and -i < len(t) else ("item", t, i)
        if t[0] == "map" and i >= 0:
            return self.apply(t[1], [self.item(x, i, st) for x in t[2]], st)
        if t[0] == "sorted" and i in (0, 1, -1):
            a, b = self.item(t[1], 0, st), self.item(t[1], 1, st)
            lo = i == 0
            return self.end(a, b, "lo" if lo != t[2] else "hi", st)
        if t[0] == "rev" and i in (0, 1, -1):
            return self.item(t[1], 1 if i == 0 else 0, st)
        return ("item", t, i)

    def end(self, a, b, which, st):
        if self.le(a, b, st) and a != b:
            return a if which == "lo" else b
        if self.le(b, a, st) and a != b:
            return b if which == "lo" else a
        return (which, frozenset((a, b)))

    def elem(self, t, st):
        """An arbitrary element of an iterable."""
        if t[0] == "map":
            return self.apply(t[1], [self.elem(x, st) for x in t[2]], st)
        if t[0] == "enum":
            return ("seq", self.fresh("count"), self.elem(t[1], st))
        if t[0] == "zip":
            return ("seq",) + tuple(self.elem(x, st) for x in t[1])
        if t[0] in ("rev", "sorted"):
            return self.elem(t[1], st)
        return ("elem", t)

    def apply(self, f, args, st):
        if f[0] == "ext":
            return self.ext(f[1], args, {}, st)
        if f[0] == "meth":
            return self.method(f[1], f[2], args, st, None, f[3])
        if f[0] == "lam" and f[1] in self.lams:
            node, fr, scope = self.lams[f[1]]

            class F:
                pass
            g = F()
            g.scope, g.binds, g.parent = scope, {}, fr
            g.frame_of = lambda s: g if s is scope else fr.frame_of(s)
            s2 = st.copy()
            for p, a in zip(scope.param_names(), args):
                s2.env[(id(g), p)] = a
            self.keep = getattr(self, "keep", []) + [g]
            if isinstance(node, ast.Lambda):
                n0 = len(s2.events)
                r = self.ev(node.body, g, s2, pure=True)
                st.events += s2.events[n0:]
                st.epoch.update(s2.epoch)
                return r
        return ("app", f, tuple(args))

    def ext(self, d, args, kws, st):
        if d in THROUGH and args:
            return args[0]
        if d == "builtins.sorted" and args:
            r = kws.get("reverse")
            if "key" in kws:
                return self.fresh("sorted")
            if r is not None and r not in (("c", True), ("c", False)):
                return self.fresh("sorted")
            t = ("sorted", args[0], r == ("c", True))
            if args[0][0] == "seq" and len(args[0]) == 3:
                return ("seq", self.item(t, 0, st), self.item(t, 1, st))
            return t
        if d == "builtins.reversed" and args:
            return ("seq",) + args[0][:0:-1] if args[0][0] == "seq" else ("rev", args[0])
        if d in ("builtins.min", "builtins.max") and args and not kws:
            t = ("seq",) + tuple(args) if len(args) == 2 else args[0] if len(args) == 1 else None
            if t is not None and (t[0] != "seq" or len(t) == 3):
                return self.end(self.item(t, 0, st), self.item(t, 1, st), "lo" if d.endswith("min") else "hi", st)
        if d == "builtins.map" and len(args) >= 2:
            return ("map", args[0], tuple(args[1:]))
        if d == "itertools.starmap" and len(args) == 2:
            return self.fresh("starmap")
        if d == "builtins.enumerate" and args:
            return ("enum", args[0])
        if d == "builtins.zip" and args:
            return ("zip", tuple(args))
        if d == "builtins.len" and args:
            return ("len", args[0], st.epoch.get(args[0], 0))
        if d in ("bisect.bisect_left", "bisect.bisect", "bisect.bisect_right") and len(args) >= 2:
            return ("idx", args[0], st.epoch.get(args[0], 0), args[1])
        return ("call", d, tuple(args), tuple(sorted(kws.items(), key=repr))) if d else self.fresh("call")

    def method(self, recv, name, args, st, node, epoch=None):
        ep = st.epoch.get(recv, 0) if epoch is None else epoch
        if name == "index" and args:
            return ("idx", recv, ep, args[0])
        if name == "__getitem__" and len(args) == 1:
            return ("sub", recv, st.epoch.get(recv, 0), args[0])
        if name in ("pop", "__delitem__"):
            if len(args) <= 1:
                i = args[0] if args else ("c", -1)
                if i[0] == "c" and isinstance(i[1], str):
                    return self.fresh("pop")
                t = ("popped", recv, st.epoch.get(recv, 0), i)
                st.events.append(("rm", recv, i, st.epoch.get(recv, 0), node, t))
                st.epoch[recv] = st.epoch.get(recv, 0) + 1
                return t
            return self.fresh("pop")
        if name == "append" and len(args) == 1:
            st.events.append(("add", recv, args[0], st.epoch.get(recv, 0), node))
            st.epoch[recv] = st.epoch.get(recv, 0)
            return ("c", None)
        if name in ("insert", "extend", "clear", "remove", "sort", "reverse"):
            st.events.append((name, recv, args, st.epoch.get(recv, 0), node))
            return ("c", None)
        return ("mcall", recv, name, tuple(args), st.epoch.get(recv, 0))

    # ------------------------------------------------------------- expressions
    def frame_for(self, name, fr):
        s = fr.scope.lookup_scope(name)
        if s is None:
            return None, None
        return s, fr.frame_of(s) or fr

    def ev(self, e, fr, st, pure=False):
        if e is None:
            return ("c", None)
        if isinstance(e, ast.Constant):
            return ("c", e.value)
        if isinstance(e, ast.Name):
            s, f = self.frame_for(e.id, fr)
            if s is None:
                r = self.prog.resolve(e, fr.scope)
                return ("ext", r.dotted) if r.kind in ("ext", "class") and r.dotted else ("g", e.id)
            k = (id(f), e.id)
            if k in st.env:
                return st.env[k]
            r = self.prog.resolve(e, fr.scope)
            if r.kind in ("ext", "class") and r.dotted:
                return ("ext", r.dotted)
            if r.kind == "func":
                return self.fn(r, e, fr)
            b = getattr(f, "binds", {})
            if e.id in b:
                x, fx = b[e.id]
                return self.ev(x, fx, st, pure)
            return ("init", s.qual, e.id)
        if isinstance(e, (ast.Tuple, ast.List)):
            if any(isinstance(x, ast.Starred) for x in e.elts):
                return self.fresh("tuple")
            return ("seq",) + tuple(self.ev(x, fr, st, pure) for x in e.elts)
        if isinstance(e, ast.NamedExpr):
            s, f = self.frame_for(e.target.id, fr)
            if pure:
                return self.ev(e.value, fr, st, pure)
            return st.env.get((id(f), e.target.id)) or self.ev(e.value, fr, st, pure)
        if isinstance(e, ast.Lambda):
            self.lams[id(e)] = (e, fr, fr.scope.module.scope_of[e])
            return ("lam", id(e))
        if isinstance(e, ast.Call):
            if not pure and (id(e), id(fr)) in st.vals:
                return st.vals[(id(e), id(fr))]
            return self.ev_call(e, fr, st)
        if isinstance(e, ast.Attribute):
            r = self.prog.resolve(e, fr.scope)
            if r.kind in ("ext", "class") and r.dotted:
                return ("ext", r.dotted)
            if r.kind == "func":
                return self.fn(r, e, fr)
            b = self.ev(e.value, fr, st, pure)
            if e.attr in ("index", "pop", "append", "__getitem__", "__delitem__"):
                return ("meth", b, e.attr, None if e.attr != "index" else st.epoch.get(b, 0))
            return ("attr", b, e.attr)
        if isinstance(e, ast.Subscript):
            b = self.ev(e.value, fr, st, pure)
            if isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, int) and b[0] in ("seq", "sorted", "map", "rev", "elem", "item"):
                return self.item(b, e.slice.value, st)
            if isinstance(e.slice, ast.UnaryOp) and isinstance(e.slice.op, ast.USub) and isinstance(e.slice.operand, ast.Constant) and b[0] in (
                    "seq", "sorted"):
                return self.item(b, -e.slice.operand.value, st)
            if isinstance(e.slice, ast.Slice):
                s = e.slice
                if s.lower is None and s.upper is None and isinstance(s.step, ast.UnaryOp):
                    return ("seq",) + b[:0:-1] if b[0] == "seq" else ("rev", b)
                if s.lower is None and s.upper is None and s.step is None:
                    return ("copy", b)
                return self.fresh("slice")
            return ("sub", b, st.epoch.get(b, 0), self.ev(e.slice, fr, st, pure))
        if isinstance(e, ast.IfExp):
            t, neg = self.test(e.test, fr, st)
            o = st.tests.get(t)
            if o is None:
                a, b = self.ev(e.body, fr, st, pure), self.ev(e.orelse, fr, st, pure)
                return a if a == b else ("either", t, a, b)
            return self.ev(e.body if o != neg else e.orelse, fr, st, pure)
        if isinstance(e, ast.BinOp):
            return ("bin", type(e.op).__name__, self.ev(e.left, fr, st, pure), self.ev(e.right, fr, st, pure))
        if isinstance(e, ast.UnaryOp):
            v = self.ev(e.operand, fr, st, pure)
            if isinstance(e.op, ast.USub) and v[0] == "c" and isinstance(v[1], (int, float)):
                return ("c", -v[1])
            return ("un", type(e.op).__name__, v)
        if isinstance(e, ast.Compare):
            return ("cmp",) + tuple(type(o).__name__ for o in e.ops) + (self.ev(e.left, fr, st, pure),) + tuple(
                self.ev(c, fr, st, pure) for c in e.comparators)
        if isinstance(e, ast.BoolOp):
            return ("bool", type(e.op).__name__) + tuple(self.ev(v, fr, st, pure) for v in e.values)
        if isinstance(e, ast.Starred):
            return self.fresh("star")
        return self.fresh(type(e).__name__)

    def fn(self, r, e, fr):
        n = r.value.node
        if isinstance(n, ast.Lambda):
            self.lams[id(n)] = (n, fr.frame_of(r.value.parent) or fr, r.value)
            return ("lam", id(n))
        body = [s for s in n.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
        if len(body) == 1 and isinstance(body[0], ast.Return) and body[0].value is not None:
            lam = ast.Lambda(args=n.args, body=body[0].value)
            self.lams[id(n)] = (lam, fr.frame_of(r.value.parent) or fr, r.value)
            self.keep2 = getattr(self, "keep2", []) + [lam]
            return ("lam", id(n))
        return ("fn", r.value.qual)

    def ev_call(self, e, fr, st):
        args, kws = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                t = self.ev(a.value, fr, st)
                if t[0] == "seq":
                    args += t[1:]
                    continue
                if t[0] in ("sorted", "map", "rev"):
                    args += [self.item(t, 0, st), self.item(t, 1, st)]
                    continue
                return self.fresh("call")
            args.append(self.ev(a, fr, st))
        for k in e.keywords:
            if k.arg:
                kws[k.arg] = self.ev(k.value, fr, st)
        r = self.cfg.resolve_func(e.func, fr) if hasattr(fr, "frame_of") else self.prog.resolve(e.func, fr.scope)
        if r is not None and r.kind in ("ext", "class") and r.dotted and not r.dotted.startswith("?"):
            t = self.ext(r.dotted, args, kws, st)
            if t[0] == "map" and r.dotted == "builtins.map" and t[1][0] == "meth" and t[1][2] in ("pop", "__delitem__", "append"):
                # mapped removal: in the order of the (short) sequence
                xs = t[2][0]
                return ("seq",) + tuple(self.method(t[1][1], t[1][2], [self.item(xs, i, st)], st, e) for i in (0, 1))
            return t
        if isinstance(e.func, ast.Attribute):
            return self.method(self.ev(e.func.value, fr, st), e.func.attr, args, st, e)
        f = self.ev(e.func, fr, st)
        if f[0] in ("lam", "meth", "ext"):
            return self.apply(f, args, st)
        return ("fcall", f, tuple(args), self.n) if f[0] != "fn" else self.fresh("call")

    # ------------------------------------------------------------------ tests
    def test(self, e, fr, st):
        """(token of the condition, negated?)"""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            t, n = self.test(e.operand, fr, st)
            return t, not n
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            a, b = self.ev(e.left, fr, st), self.ev(e.comparators[0], fr, st)
            o = e.ops[0]
            if isinstance(o, (ast.IsNot, ast.Is)):
                return ("is", a, b), isinstance(o, ast.IsNot)
            if isinstance(o, (ast.NotEq, ast.Eq)):
                return ("eq", frozenset((a, b))), isinstance(o, ast.NotEq)
            if isinstance(o, ast.Lt):
                return ("lt", a, b), False
            if isinstance(o, ast.Gt):
                return ("lt", b, a), False
            if isinstance(o, ast.LtE):
                return ("lt", b, a), True
            if isinstance(o, ast.GtE):
                return ("lt", a, b), True
            return ("cmp", type(o).__name__, a, b), False
        return self.ev(e, fr, st), False

    def le(self, a, b, st):
        """a <= b is known."""
        if a == b or (a, b) in st.facts:
            return True
        if a[0] == "lo" and (b in a[1] or b == ("hi", a[1])):
            return True
        if b[0] == "hi" and a in b[1]:
            return True
        return False

    # ------------------------------------------------------------------ paths
    def assign(self, target, tok, fr, st):
        if isinstance(target, ast.Name):
            s, f = self.frame_for(target.id, fr)
            st.env[(id(f), target.id)] = tok
            return
        if isinstance(target, (ast.Tuple, ast.List)):
            star = next((i for i, x in enumerate(target.elts) if isinstance(x, ast.Starred)), None)
            toks = [self.item(tok, i, st) if star is None or i < star else
                    ("star", tok, i) if i == star else self.item(tok, i - len(target.elts), st) for i in range(len(target.elts))]
            for x, t in zip(target.elts, toks):
                self.assign(x.value if isinstance(x, ast.Starred) else x, t, fr, st)
        elif isinstance(target, ast.Subscript):
            b = self.ev(target.value, fr, st)
            if not isinstance(target.slice, ast.Slice):
                st.events.append(("set", b, self.ev(target.slice, fr, st), tok, None))

    def run(self, start, stops, st=None):
        """All states reached at stop nodes (loop head again, exits)."""
        out, todo, seen = [], [(start, st or State())], 0
        while todo:
            n, st = todo.pop()
            while True:
                seen += 1
                if seen > 40 * self.limit or len(out) > self.limit:
                    raise TooMany()
                if n in stops:
                    out.append((n, st))
                    break
                nx = self.step(n, st)
                if not nx:
                    break
                for m, s in nx[1:]:
                    todo.append((m, s))
                n, st = nx[0]
        return out

    def step(self, n, st):
        k = n.kind
        if k in ("exit", "eexit", "raise"):
            return []
        if k == "assign":
            tgt, val = n.extra
            if val is None:
                tok = st.vals.get(("cur", id(n.ast), id(n.frame)))
                if tok is None:
                    it = st.vals.get(("iter", id(n.ast), id(n.frame))) or self.ev(n.ast.iter, n.frame, st)
                    tok = self.elem(it, st)
            else:
                tok = self.ev(val, n.frame, st)
            self.assign(tgt, tok, n.frame, st)
        elif k == "aug":
            tgt, val = n.extra
            v = self.ev(val, n.frame, st)
            if isinstance(tgt, ast.Name):
                old = self.ev(tgt, n.frame, st)
                if isinstance(n.ast.op, ast.Add) and v[0] == "seq":
                    for x in v[1:]:
                        self.method(old, "append", [x], st, n.ast)
                else:
                    self.assign(tgt, ("bin", type(n.ast.op).__name__, old, v), n.frame, st)
        elif k == "iterstart":
            st.vals[("iter", id(n.ast), id(n.frame))] = self.ev(n.ast.iter, n.frame, st)
            st.iters.pop((id(n.ast), id(n.frame)), None)
        elif k == "loop":
            if isinstance(n.ast, ast.Call):
                return [(t, st) for lab, t in n.succ if lab == "done"][:1]
            key = (id(n.ast), id(n.frame))
            c = st.iters.get(key, 0)
            if isinstance(n.ast, ast.While):
                st.iters[key] = c + 1
                return [(t, st) for _, t in n.succ] if c < 2 else []
            it = st.vals.get(("iter",) + key, ("u",))
            known = it[0] == "seq" or it[0] == "sorted" or it[0] == "rev" and it[1][0] in ("sorted", "seq")
            length = len(it) - 1 if it[0] == "seq" else 2
            body = [t for lab, t in n.succ if lab == "iter"]
            done = [t for lab, t in n.succ if lab == "done"]
            if known:
                if c < length:
                    st.vals[("cur",) + key] = self.item(it, c, st)
                    st.iters[key] = c + 1
                    return [(t, st) for t in body[:1]]
                return [(t, st) for t in done[:1]]
            res = []
            if c == 0:
                s2 = st.copy()
                s2.iters[key] = 1
                s2.vals[("cur",) + key] = self.elem(it, s2)
                res = [(t, s2) for t in body[:1]]
            return [(t, st) for t in done[:1]] + res
        elif k == "call":
            st.vals.pop((id(n.ast), id(n.frame)), None)
            st.vals[(id(n.ast), id(n.frame))] = self.ev_call(n.ast, n.frame, st)
        elif k == "sub":
            if isinstance(n.ast.ctx, ast.Load) and not isinstance(n.ast.slice, ast.Slice):
                st.events.append(("get", self.ev(n.ast.value, n.frame, st), self.ev(n.ast.slice, n.frame, st), n.ast))
        elif k == "enter":
            for p, (x, fx) in n.frame.binds.items():
                st.env[(id(n.frame), p)] = self.ev(x, fx, st)
        elif k == "return":
            st.ret[id(n.frame)] = self.ev(n.ast.value, n.frame, st)
            st.events.append(("return", n.frame, st.ret[id(n.frame)]))
        elif k == "leave":
            kids = self.cfg.child.get((id(n.ast), id(n.frame)), ())
            for f in kids:
                if id(f) in st.ret:
                    st.vals[(id(n.ast), id(n.frame))] = st.ret[id(f)]
        elif k == "del":
            for t in n.ast.targets:
                if isinstance(t, ast.Subscript) and not isinstance(t.slice, ast.Slice):
                    self.method(self.ev(t.value, n.frame, st), "__delitem__", [self.ev(t.slice, n.frame, st)], st, n.ast)
        elif k == "test":
            t, neg = self.test(n.ast, n.frame, st)
            known = st.tests.get(t)
            if t[0] == "lt" and known is None:
                if self.le(t[2], t[1], st) and t[1] != t[2] and not self.le(t[1], t[2], st):
                    known = False
            res = []
            for lab, m in n.succ:
                val = lab != neg  # value of the positive form
                if known is not None and val != known:
                    continue
                s2 = st.copy()
                s2.tests[t] = val
                if t[0] == "lt":
                    s2.facts = s2.facts | {(t[1], t[2]) if val else (t[2], t[1])}
                res.append((m, s2))
            return res
        return [(t, st if i == 0 else st.copy()) for i, (_, t) in enumerate(n.succ)]
