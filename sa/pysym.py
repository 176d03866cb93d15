"""Value terms of Python code: a join-based abstract evaluator (no solver, no execution).

Every expression evaluates to a term (nested tuples); functions and classes of the program are inlined, branches are joined with
('phi', {...}), loops are evaluated once with an opaque element. Tests on known constants prune branches.

Terms: ('const', v) ('param', n) ('attr', t, n) ('call', f, args, kws) ('tuple', ts) ('dict', ((k, t), ...)) ('op', name, ts)
('sub', t, i) ('slice', t, lo, hi) ('phi', fs) ('glob', dotted) ('fn', k) ('bound', k, t) ('obj', tag) ('new', qual, args, kws)
('str', parts) ('elem', t) ('opaque', text) ('super', t)
"""
import ast

from sa.pyprog import walk_scope

NONE = ("const", None)
MAXPHI = 24


def phi(*ts):
    out = set()
    for t in ts:
        if t is None:
            continue
        if t[0] == "phi":
            out |= t[1]
        else:
            out.add(t)
    if len(out) == 1:
        return next(iter(out))
    if not out:
        return ("opaque", "?")
    if len(out) > MAXPHI:
        return ("opaque", "many")
    return ("phi", frozenset(out))


def options(t):
    return t[1] if t[0] == "phi" else (t,)


def subterms(t, seen=None):
    yield t
    k = t[0]
    if k in ("tuple", "str"):
        kids = t[1]
    elif k == "phi":
        kids = t[1]
    elif k == "attr":
        kids = (t[1],)
    elif k == "call":
        kids = (t[1], *t[2], *[v for _, v in t[3]])
    elif k == "new":
        kids = (*t[2], *[v for _, v in t[3]])
    elif k == "dict":
        kids = [v for _, v in t[1]]
    elif k == "op":
        kids = t[2]
    elif k in ("sub", "slice"):
        kids = t[1:]
    elif k in ("elem", "super", "bound"):
        kids = (t[-1],)
    else:
        kids = ()
    for x in kids:
        if isinstance(x, tuple) and x:
            yield from subterms(x)


class Stop(Exception):
    pass


class Return(Stop):
    pass


class Sym:

    def __init__(self, prog, self_obj=None, cls=None, inline_new=(), max_depth=8, opaque_funcs=(), steps=200000):
        self.prog = prog
        self.cls = cls  # class scope of ('obj', ...) terms
        self.heap = {}  # (obj term, attr) -> term
        self.fns = {}  # k -> (scope, env chain)
        self.calls = []  # (ast call, function term, args, kws, where) of calls not inlined
        self.stack = []
        self.compares = []  # operands of every comparison met
        self.max_depth = max_depth
        self.objs = {}  # obj term -> class scope
        self.opaque_funcs = set(opaque_funcs)
        self.left = steps

    # ---- objects
    def obj(self, tag, cls):
        t = ("obj", tag)
        self.objs[t] = cls
        return t

    def fn(self, scope, env):
        k = (id(scope), id(env))
        self.fns[k] = (scope, env)
        return ("fn", k)

    # ---- environments: list of (scope, dict)
    def lookup(self, name, env):
        for sc, d in reversed(env):
            if name in d:
                return d[name]
        return None

    # ---- attribute access
    def getattr(self, t, name):
        if t[0] == "phi":
            return phi(*[self.getattr(x, name) for x in t[1]])
        if t[0] == "super":
            base = t[1]
            cls = self.objs.get(base)
            for b in (self.prog.mro(cls)[1:] if cls is not None else []):
                m = self.prog.methods(b).get(name)
                if m is not None:
                    return self.method_value(m, base)
            return ("attr", t, name)
        if (t, name) in self.heap:
            return self.heap[t, name]
        cls = self.objs.get(t)
        if cls is not None:
            m = self.prog.method(cls, name)
            if m is not None:
                return self.method_value(m, t)
            for b in self.prog.mro(cls):
                bs = [n for k, n in b.binds.get(name, []) if k == "assign" and getattr(n, "value", None) is not None]
                if bs:
                    return self.ev(bs[-1].value, [(b.module.scope, {})])
        if t[0] == "glob":
            return ("glob", t[1] + "." + name)
        return ("attr", t, name)

    def method_value(self, m, t):
        decs = {ast.unparse(d).split("(")[0].split(".")[-1] for d in getattr(m.node, "decorator_list", [])}
        if decs & {"property", "cached_property"}:
            return self.call_scope(m, [], [(m.module.scope, {})], [t], {})
        if "staticmethod" in decs:
            return self.fn_static(m)
        if "classmethod" in decs:
            return ("bound", self.fn_static(m)[1], ("glob", m.parent.qual))
        return ("bound", self.fn_static(m)[1], t)

    def fn_static(self, m):
        k = (id(m), 0)
        self.fns[k] = (m, [])
        return ("fn", k)

    # ---- calls
    def call_scope(self, scope, _e, env, args, kws, node=None):
        """Evaluate a function body with given argument terms."""
        if len(self.stack) >= self.max_depth or any(s is scope for s in self.stack) or scope.qual in self.opaque_funcs:
            return None
        a = scope.node.args
        d = {}
        pos = [*a.posonlyargs, *a.args]
        args, kws = list(args), dict(kws)
        for p in pos:
            if args:
                d[p.arg] = args.pop(0)
            elif p.arg in kws:
                d[p.arg] = kws.pop(p.arg)
        if a.vararg:
            d[a.vararg.arg] = ("tuple", tuple(args))
        for p in a.kwonlyargs:
            if p.arg in kws:
                d[p.arg] = kws.pop(p.arg)
        if a.kwarg:
            d[a.kwarg.arg] = ("dict", tuple(sorted(kws.items())))
        outer = env or [(scope.module.scope, {})]
        defaults = list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [
            (p, x) for p, x in zip(a.kwonlyargs, a.kw_defaults) if x is not None]
        for p, x in defaults:
            if p.arg not in d:
                d[p.arg] = self.ev(x, outer)
        for p in [*pos, *a.kwonlyargs]:
            d.setdefault(p.arg, ("opaque", f"missing {p.arg}"))
        self.stack.append(scope)
        try:
            return self.body(scope, outer + [(scope, d)])
        finally:
            self.stack.pop()

    def body(self, scope, env):
        if isinstance(scope.node, ast.Lambda):
            return self.ev(scope.node.body, env)
        rets = []
        st = self.block(scope.node.body, env, rets)
        if st:
            rets.append(NONE)
        return phi(*rets) if rets else ("opaque", "noreturn")

    def block(self, stmts, env, rets):
        """False when control does not reach the end."""
        for s in stmts:
            self.left -= 1
            if self.left < 0:
                raise RuntimeError("too long")
            if not self.stmt(s, env, rets):
                return False
        return True

    def snapshot(self, env):
        return [dict(d) for _, d in env], dict(self.heap)

    def restore(self, env, snap):
        ds, heap = snap
        for (_, d), o in zip(env, ds):
            d.clear()
            d.update(o)
        self.heap = dict(heap)

    def join(self, env, a, b):
        """Join two snapshots into the current state."""
        for (_, d), x, y in zip(env, a[0], b[0]):
            d.clear()
            for k in {**x, **y}:
                d[k] = phi(x.get(k), y.get(k))
        self.heap = {k: phi(a[1].get(k), b[1].get(k)) for k in {**a[1], **b[1]}}

    def branch(self, env, rets, alts):
        """Run alternatives (callables returning bool) from the same state and join the ones that fall through."""
        start = self.snapshot(env)
        outs = []
        for f in alts:
            self.restore(env, start)
            if f():
                outs.append(self.snapshot(env))
        if not outs:
            self.restore(env, start)
            return False
        cur = outs[0]
        self.restore(env, cur)
        for o in outs[1:]:
            self.join(env, self.snapshot(env), o)
        return True

    def stmt(self, s, env, rets):
        if isinstance(s, ast.Expr):
            self.ev(s.value, env)
            return True
        if isinstance(s, ast.Assign):
            v = self.ev(s.value, env)
            for t in s.targets:
                self.assign(t, v, env)
            return True
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, self.ev(s.value, env), env)
            return True
        if isinstance(s, ast.AugAssign):
            self.assign(s.target, self.binop(s.op, self.ev(self.load(s.target), env), self.ev(s.value, env)), env)
            return True
        if isinstance(s, ast.Return):
            rets.append(self.ev(s.value, env) if s.value is not None else NONE)
            return False
        if isinstance(s, ast.Raise):
            return False
        if isinstance(s, (ast.Break, ast.Continue)):
            return True
        if isinstance(s, ast.If):
            v = self.ev(s.test, env)
            b = self.truth(v)
            if b is True:
                return self.block(s.body, env, rets)
            if b is False:
                return self.block(s.orelse, env, rets)

            def then():
                self.refine(s.test, True, env)
                return self.block(s.body, env, rets)

            def other():
                self.refine(s.test, False, env)
                return self.block(s.orelse, env, rets)

            return self.branch(env, rets, [then, other])
        if isinstance(s, (ast.For, ast.AsyncFor)):
            it = self.ev(s.iter, env)
            if it[0] == "tuple" and 0 < len(it[1]) <= 32:
                for x in it[1]:
                    self.assign(s.target, x, env)
                    if not self.block(s.body, env, rets):
                        return False
                return self.block(s.orelse, env, rets)

            def once():
                self.assign(s.target, self.elem(it), env)
                return self.block(s.body, env, rets)

            self.branch(env, rets, [once, lambda: True])
            return self.block(s.orelse, env, rets)
        if isinstance(s, ast.While):
            self.ev(s.test, env)
            self.branch(env, rets, [lambda: self.block(s.body, env, rets), lambda: True])
            return True
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                v = self.ev(i.context_expr, env)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, v, env)
            return self.block(s.body, env, rets)
        if isinstance(s, ast.Try):

            def ok():
                return self.block(s.body, env, rets) and self.block(s.orelse, env, rets)

            alts = [ok]
            for h in s.handlers:

                def handle(h=h):
                    if h.name:
                        self.assign(ast.Name(h.name, ast.Store()), ("opaque", "exception"), env)
                    return self.block(h.body, env, rets)

                alts.append(handle)
            r = self.branch(env, rets, alts)
            return self.block(s.finalbody, env, rets) and r
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            sc = self.module_of(env).scope_of[s]
            env[-1][1][s.name] = self.fn(sc, self.freeze(env))
            return True
        if isinstance(s, ast.ClassDef):
            env[-1][1][s.name] = ("class", s.name)
            return True
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            for a in s.names:
                if isinstance(s, ast.Import):
                    env[-1][1][a.asname or a.name.split(".")[0]] = ("glob", a.name if a.asname else a.name.split(".")[0])
                else:
                    env[-1][1].pop(a.asname or a.name, None)
            return True
        if isinstance(s, ast.Delete):
            return True
        return True

    def freeze(self, env):
        return list(env)

    def module_of(self, env):
        return env[-1][0].module if env[-1][0].kind != "module" else env[-1][0].module

    @staticmethod
    def load(t):
        import copy
        t = copy.copy(t)
        t.ctx = ast.Load()
        return t

    def refine(self, test, val, env):
        """x is None / x: replace a phi by its feasible options."""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.refine(test.operand, not val, env)
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.left, ast.Name) and isinstance(
                test.comparators[0], ast.Constant) and test.comparators[0].value is None and isinstance(test.ops[0], (ast.Is, ast.IsNot)):
            isnone = isinstance(test.ops[0], ast.Is) == val
            for _, d in reversed(env):
                if test.left.id in d:
                    t = d[test.left.id]
                    o = [x for x in options(t) if (x == NONE) == isnone or (isnone and x[0] not in ("tuple", "dict", "str", "fn", "new", "const"))]
                    if o and t[0] == "phi":
                        d[test.left.id] = phi(*o)
                    break

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            # nonlocal / global names are found in the frame that has them
            sc = env[-1][0]
            if sc.kind == "function" and t.id in sc.nonlocals:
                for s2, d in reversed(env[:-1]):
                    if t.id in d:
                        d[t.id] = phi(d[t.id], v)
                        return
            env[-1][1][t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = next((i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)), None)
            for i, e in enumerate(t.elts):
                if star is not None and i == star:
                    x = self.slice(v, i, None if n - 1 - i == 0 else -(n - 1 - i))
                    self.assign(e.value, x, env)
                elif star is not None and i > star:
                    self.assign(e, self.item(v, i - n), env)
                else:
                    self.assign(e, self.item(v, i), env)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            for x in options(o):
                self.heap[x, t.attr] = v if o[0] != "phi" else phi(self.heap.get((x, t.attr)), v)
        elif isinstance(t, ast.Subscript):
            self.ev(t.value, env)
            self.ev(t.slice, env)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, env)

    # ---- sequences
    def elem(self, t):
        if t[0] == "phi":
            return phi(*[self.elem(x) for x in t[1]])
        if t[0] == "tuple" and t[1]:
            return phi(*t[1])
        if t[0] == "call" and t[1] == ("glob", "builtins.map") and len(t[2]) == 2:
            return self.apply(t[2][0], [self.elem(t[2][1])])
        if t[0] == "call" and t[1] == ("glob", "builtins.enumerate"):
            return ("tuple", (("opaque", "i"), self.elem(t[2][0])))
        return ("elem", t)

    def item(self, t, i):
        if t[0] == "phi":
            return phi(*[self.item(x, i) for x in t[1]])
        if t[0] == "tuple":
            try:
                return t[1][i]
            except IndexError:
                return ("opaque", "index")
        if t[0] == "call" and t[1] == ("glob", "builtins.map") and len(t[2]) == 2:
            return self.apply(t[2][0], [self.item(t[2][1], i)])
        if t[0] == "slice" and t[2][0] == "const" and (t[2][1] or 0) >= 0 and i >= 0:
            return ("sub", t[1], ("const", (t[2][1] or 0) + i))
        return ("sub", t, ("const", i))

    def slice(self, t, lo, hi):
        if t[0] == "phi":
            return phi(*[self.slice(x, lo, hi) for x in t[1]])
        if t[0] == "tuple":
            return ("tuple", t[1][lo:hi])
        return ("slice", t, ("const", lo), ("const", hi))

    # ---- truth
    def truth(self, t):
        if t[0] == "const":
            return bool(t[1])
        if t[0] in ("tuple", "dict"):
            return bool(t[1])
        if t[0] in ("fn", "class", "glob"):
            return True
        if t[0] == "phi":
            r = {self.truth(x) for x in t[1]}
            return r.pop() if len(r) == 1 else None
        return None

    # ---- expressions
    def ev(self, e, env):
        m = getattr(self, "ev_" + type(e).__name__, None)
        if m is not None:
            return m(e, env)
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.ev(c, env)
        return ("opaque", type(e).__name__)

    def ev_Constant(self, e, env):
        return ("const", e.value)

    def ev_Name(self, e, env):
        t = self.lookup(e.id, env)
        if t is not None:
            return t
        sc = env[-1][0]
        r = self.prog.resolve(e, sc)
        if r.kind in ("func", "class") and getattr(r, "scope", None) is not None and r.scope is not None:
            if r.kind == "func":
                return self.fn_static(r.scope)
            return ("glob", r.scope.qual)
        if r.dotted:
            # module-level constant
            bs = sc.module.scope.binds.get(e.id)
            if bs and len(bs) == 1 and bs[0][0] == "assign" and getattr(bs[0][1], "value", None) is not None and isinstance(
                    bs[0][1].value, (ast.Constant, ast.Tuple, ast.List, ast.Set, ast.Dict)):
                return self.ev(bs[0][1].value, [(sc.module.scope, {})])
            return ("glob", r.dotted)
        bs = sc.module.scope.binds.get(e.id)
        if bs and len(bs) == 1 and bs[0][0] == "assign" and getattr(bs[0][1], "value", None) is not None and isinstance(
                bs[0][1].value, (ast.Constant, ast.Tuple, ast.List, ast.Set, ast.Dict)):
            return self.ev(bs[0][1].value, [(sc.module.scope, {})])
        return ("opaque", e.id)

    def ev_Attribute(self, e, env):
        r = self.prog.resolve(e, env[-1][0]) if self.root_global(e, env) else None
        if r is not None and r.kind == "func" and r.scope is not None and r.scope.parent.kind != "class":
            return self.fn_static(r.scope)
        if r is not None and r.kind == "class" and r.scope is not None:
            return ("glob", r.scope.qual)
        return self.getattr(self.ev(e.value, env), e.attr)

    def root_global(self, e, env):
        while isinstance(e, ast.Attribute):
            e = e.value
        return isinstance(e, ast.Name) and self.lookup(e.id, env) is None

    def seq(self, e, env):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, env)
                if v[0] == "tuple":
                    out.extend(v[1])
                else:
                    out.append(("elem", v))
            else:
                out.append(self.ev(x, env))
        return ("tuple", tuple(out))

    ev_Tuple = ev_List = ev_Set = seq

    def ev_Dict(self, e, env):
        out = {}
        for k, v in zip(e.keys, e.values):
            v = self.ev(v, env)
            if k is None:
                if v[0] == "dict":
                    out.update(dict(v[1]))
                else:
                    return ("opaque", "dict")
            else:
                k = self.ev(k, env)
                if k[0] != "const":
                    return ("call", ("glob", "builtins.dict"), (k, v), ())
                out[k[1]] = v
        return ("dict", tuple(out.items()))

    def ev_JoinedStr(self, e, env):
        parts = []
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                t = self.ev(v.value, env)
                if v.format_spec is not None or v.conversion not in (-1, 115):
                    t = ("opaque", "format")
                parts.append(t)
            else:
                parts.append(("const", v.value))
        return self.strcat(parts)

    def strcat(self, parts):
        flat = []
        for p in parts:
            if p[0] == "str":
                flat.extend(p[1])
            else:
                flat.append(p)
        out = []
        for p in flat:
            if p[0] == "const" and isinstance(p[1], str) and out and out[-1][0] == "const" and isinstance(out[-1][1], str):
                out[-1] = ("const", out[-1][1] + p[1])
            else:
                out.append(p)
        if len(out) == 1 and out[0][0] == "const":
            return out[0]
        # a phi inside stays a part
        return ("str", tuple(out))

    def ev_Subscript(self, e, env):
        v = self.ev(e.value, env)
        if isinstance(e.slice, ast.Slice):
            lo = self.ev(e.slice.lower, env) if e.slice.lower is not None else NONE
            hi = self.ev(e.slice.upper, env) if e.slice.upper is not None else NONE
            if lo[0] == hi[0] == "const" and e.slice.step is None:
                return self.slice(v, lo[1], hi[1])
            return ("slice", v, lo, hi)
        i = self.ev(e.slice, env)
        if i[0] == "const" and isinstance(i[1], int) and not isinstance(i[1], bool):
            return self.item(v, i[1])
        if v[0] == "dict" and i[0] == "const":
            return dict(v[1]).get(i[1], ("sub", v, i))
        return ("sub", v, i)

    def ev_IfExp(self, e, env):
        b = self.truth(self.ev(e.test, env))
        if b is True:
            return self.ev(e.body, env)
        if b is False:
            return self.ev(e.orelse, env)
        snap = self.snapshot(env)
        self.refine(e.test, True, env)
        x = self.ev(e.body, env)
        self.restore(env, snap)
        self.refine(e.test, False, env)
        y = self.ev(e.orelse, env)
        self.restore(env, snap)
        return phi(x, y)

    def ev_BoolOp(self, e, env):
        vs = []
        for x in e.values:
            v = self.ev(x, env)
            b = self.truth(v)
            vs.append(v)
            if b is (not isinstance(e.op, ast.And)):
                break
        if len(vs) == 1:
            return vs[0]
        if isinstance(e.op, ast.Or):
            # x or default: the value of x or of the default
            vs = [v for v in vs[:-1] if self.truth(v) is not False] + [vs[-1]]
            return phi(*vs) if all(v[0] != "op" for v in vs) else ("op", "Or", tuple(vs))
        return ("op", "And", tuple(vs))

    def ev_BinOp(self, e, env):
        return self.binop(e.op, self.ev(e.left, env), self.ev(e.right, env))

    def binop(self, op, a, b):
        if isinstance(op, ast.Add):
            if a[0] == b[0] == "tuple":
                return ("tuple", a[1] + b[1])
            if any(x[0] == "str" or (x[0] == "const" and isinstance(x[1], str)) for x in (a, b)):
                return self.strcat([a, b])
        if isinstance(op, ast.Mod) and a[0] == "const" and isinstance(a[1], str):
            return self.fmt(a[1].split("%s"), list(b[1]) if b[0] == "tuple" else [b])
        return ("op", type(op).__name__, (a, b))

    def fmt(self, pieces, vals):
        if len(pieces) != len(vals) + 1:
            return ("opaque", "format")
        parts = []
        for i, p in enumerate(pieces):
            if p:
                parts.append(("const", p))
            if i < len(vals):
                parts.append(vals[i])
        return self.strcat(parts or [("const", "")])

    def ev_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        if isinstance(e.op, ast.Not):
            b = self.truth(v)
            return ("op", "Not", (v,)) if b is None else ("const", not b)
        if isinstance(e.op, ast.USub) and v[0] == "const" and isinstance(v[1], (int, float)):
            return ("const", -v[1])
        return ("op", type(e.op).__name__, (v,))

    def ev_Compare(self, e, env):
        l = self.ev(e.left, env)
        rs = [self.ev(x, env) for x in e.comparators]
        self.compares += [l, *rs]
        if len(rs) == 1:
            r, o = rs[0], e.ops[0]
            if isinstance(o, (ast.Is, ast.IsNot)) and r == NONE:
                if l[0] == "const":
                    return ("const", (l == NONE) == isinstance(o, ast.Is))
                if l[0] in ("tuple", "dict", "str", "fn", "new", "bound", "obj"):
                    return ("const", isinstance(o, ast.IsNot))
            if l[0] == r[0] == "const" and isinstance(o, (ast.Eq, ast.NotEq)):
                return ("const", (l[1] == r[1]) == isinstance(o, ast.Eq))
        return ("op", "Compare:" + ",".join(type(o).__name__ for o in e.ops), (l, *rs))

    def ev_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        self.assign(e.target, v, env)
        return v

    def ev_Lambda(self, e, env):
        return self.fn(self.module_of(env).scope_of[e], self.freeze(env))

    def ev_Await(self, e, env):
        return self.ev(e.value, env)

    def comp(self, e, env):
        d = {}
        env2 = env + [(env[-1][0], d)]
        # a comprehension over a known tuple is expanded
        g = e.generators[0]
        it = self.ev(g.iter, env)
        if len(e.generators) == 1 and it[0] == "tuple" and not g.ifs and len(it[1]) <= 32 and isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.SetComp)):
            out = []
            for x in it[1]:
                self.assign(g.target, x, env2)
                out.append(self.ev(e.elt, env2))
            return ("tuple", tuple(out))
        for g in e.generators:
            it = self.ev(g.iter, env2)
            self.assign(g.target, self.elem(it), env2)
            for i in g.ifs:
                self.ev(i, env2)
        if isinstance(e, ast.DictComp):
            return ("call", ("glob", "builtins.dict"), (self.ev(e.key, env2), self.ev(e.value, env2)), ())
        el = self.ev(e.elt, env2)
        return ("call", ("glob", "comprehension"), (el, it), ())

    ev_ListComp = ev_SetComp = ev_GeneratorExp = ev_DictComp = comp

    # ---- calls
    def ev_Call(self, e, env):
        f = None
        if isinstance(e.func, ast.Name) and e.func.id == "super" and self.lookup("super", env) is None:
            # super(): the object of the enclosing method
            for sc, d in reversed(env):
                if sc.kind == "function" and sc.parent is not None and sc.parent.kind == "class" and sc.params():
                    return ("super", d.get(sc.param_names()[0], ("opaque", "self")))
        if isinstance(e.func, ast.Attribute) and e.func.attr == "pop" or isinstance(e.func, ast.Attribute) and e.func.attr == "get":
            d = self.ev(e.func.value, env)
            if d[0] == "dict" and e.args:
                k = self.ev(e.args[0], env)
                dd = dict(d[1])
                if k[0] == "const":
                    v = dd.get(k[1], self.ev(e.args[1], env) if len(e.args) > 1 else NONE)
                    if e.func.attr == "pop":
                        dd.pop(k[1], None)
                        if isinstance(e.func.value, ast.Name):
                            self.assign(ast.Name(e.func.value.id, ast.Store()), ("dict", tuple(dd.items())), env)
                    return v
        if isinstance(e.func, ast.Attribute) and e.func.attr in ("append", "extend") and isinstance(e.func.value, ast.Name) and len(e.args) == 1:
            d = self.lookup(e.func.value.id, env)
            if d is not None and d[0] == "tuple":
                v = self.ev(e.args[0], env)
                if e.func.attr == "append" or v[0] == "tuple":
                    self.assign(ast.Name(e.func.value.id, ast.Store()), ("tuple", d[1] + ((v,) if e.func.attr == "append" else v[1])), env)
                    return NONE
        f = self.ev(e.func, env)
        args, kws = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, env)
                if v[0] == "tuple":
                    args.extend(v[1])
                elif v[0] == "call" and v[1] == ("glob", "builtins.map") and v[2][1][0] == "tuple":
                    args.extend(self.apply(v[2][0], [x]) for x in v[2][1][1])
                else:
                    args.append(("elem", v))
            else:
                args.append(self.ev(a, env))
        unknown = False
        for k in e.keywords:
            v = self.ev(k.value, env)
            if k.arg is not None:
                kws[k.arg] = v
            elif v[0] == "dict":
                kws.update({x: y for x, y in v[1] if isinstance(x, str)})
            else:
                kws["**"] = v
        return self.apply(f, args, kws, e)

    def apply(self, f, args, kws=None, node=None):
        kws = kws or {}
        if f[0] == "phi":
            return phi(*[self.apply(x, args, kws, node) for x in f[1]])
        if f[0] == "fn":
            sc, env = self.fns[f[1]]
            decs = {ast.unparse(d).split("(")[0].split(".")[-1] for d in getattr(sc.node, "decorator_list", [])}
            if not decs & {"singledispatch", "register"}:
                r = self.call_scope(sc, None, env, args, kws, node)
                if r is not None:
                    return r
            f = ("glob", sc.qual)
        elif f[0] == "bound":
            sc, env = self.fns[f[1]]
            r = self.call_scope(sc, None, env, [f[2], *args], kws, node)
            if r is not None:
                return r
            f = ("attr", f[2], sc.name)
        elif f[0] == "glob":
            d = f[1]
            if d in self.prog.classes:
                t = ("new", d, tuple(args), tuple(sorted(kws.items())))
                self.calls.append((node, f, args, kws, t))
                return t
            r = self.builtin(d, args, kws)
            if r is not None:
                return r
        elif f[0] == "attr" and f[1][0] in ("const", "str"):
            r = self.str_method(f, args, kws)
            if r is not None:
                return r
        if f[0] == "attr" and f[2] == "format" and f[1][0] == "const":
            return ("opaque", "format")
        t = ("call", f, tuple(args), tuple(sorted(kws.items())))
        self.calls.append((node, f, args, kws, t))
        return t

    def str_method(self, f, args, kws):
        s, name = f[1], f[2]
        if name == "format" and s[0] == "const" and isinstance(s[1], str) and not kws:
            return self.fmt(s[1].split("{}"), args)
        if name == "join" and s[0] == "const" and args and args[0][0] == "tuple":
            parts = []
            for i, x in enumerate(args[0][1]):
                if i and s[1]:
                    parts.append(s)
                parts.append(x)
            return self.strcat(parts or [("const", "")])
        if name in ("lower", "strip", "upper") and s[0] == "const" and isinstance(s[1], str) and not args:
            return ("const", getattr(s[1], name)())
        return None

    def builtin(self, d, args, kws):
        if d == "builtins.getattr" and len(args) >= 2 and args[1][0] == "const":
            return self.getattr(args[0], args[1][1])
        if d == "builtins.map" and len(args) == 2 and args[1][0] == "tuple" and len(args[1][1]) <= 32:
            return ("tuple", tuple(self.apply(args[0], [x]) for x in args[1][1]))
        if d == "builtins.map" and len(args) == 2 and args[0][0] in ("fn", "bound"):
            self.apply(args[0], [self.elem(args[1])])  # effects and calls inside
        if d in ("builtins.tuple", "builtins.list") and len(args) == 1 and args[0][0] == "tuple":
            return args[0]
        if d in ("builtins.tuple", "builtins.list") and not args:
            return ("tuple", ())
        if d == "builtins.zip" and args and all(a[0] == "tuple" for a in args):
            return ("tuple", tuple(("tuple", x) for x in zip(*[a[1] for a in args])))
        if d == "builtins.dict":
            out = {}
            for a in args:
                if a[0] == "dict":
                    out.update(dict(a[1]))
                elif a[0] == "tuple" and all(x[0] == "tuple" and len(x[1]) == 2 and x[1][0][0] == "const" for x in a[1]):
                    out.update({x[1][0][1]: x[1][1] for x in a[1]})
                else:
                    return None
            out.update(kws)
            return ("dict", tuple(out.items()))
        if d == "builtins.isinstance" and len(args) == 2 and args[0][0] == "const":
            return None
        if d == "builtins.object.__setattr__" and len(args) == 3 and args[1][0] == "const":
            self.heap[args[0], args[1][1]] = args[2]
            return NONE
        if d in ("builtins.locals", "builtins.vars"):
            return None
        if d == "functools.partial" and args:
            return None
        if d == "builtins.str" and len(args) == 1 and args[0][0] in ("const", "str"):
            return ("const", str(args[0][1])) if args[0][0] == "const" else args[0]
        return None


def mentions(t, pred):
    return [x for x in subterms(t) if pred(x)]


CONV = {"builtins." + x for x in ("tuple", "list", "frozenset", "set", "int", "float", "bool", "str", "dict", "sorted", "iter")} | {
    "tnco.ordered_frozenset.OrderedFrozenSet", "types.MappingProxyType", "copy.copy", "copy.deepcopy"}


def principal(t, also=(), attrs=(), depth=0):
    """The value(s) a term re-represents: through conversions, element-wise maps, slices of everything, alternatives.

    `also`: constructors whose first argument carries the value; `attrs`: attributes / methods that re-represent their object.
    """
    if depth > 30:
        return frozenset([t])
    go = lambda x: principal(x, also, attrs, depth + 1)
    k = t[0]
    if k == "phi":
        out = frozenset()
        for x in t[1]:
            if x[0] != "const":
                out |= go(x)
        return out
    if k == "call":
        f = t[1]
        if f[0] == "glob" and (f[1] in CONV or f[1] in also) and t[2]:
            return go(t[2][0])
        if f[0] == "glob" and f[1] in ("builtins.map", "builtins.filter") and len(t[2]) == 2:
            # map(d.get, keys) holds values of d, or keys re-encoded with d
            out = go(t[2][1])
            for g in options(t[2][0]):
                if g[0] == "attr" and g[2] in ("get", "__getitem__", "index"):
                    out |= go(g[1])
            return out
        if f == ("glob", "builtins.zip") and t[2]:
            return go(t[2][-1])
        if f == ("glob", "itertools.repeat") and t[2]:
            return go(t[2][0])
        if f[0] == "class" and t[2]:
            return go(t[2][0])
        if f[0] == "glob" and f[1] == "comprehension":
            return go(t[2][1])
        if f[0] == "attr" and (f[2] in attrs or f[2] in ("copy", "items", "lower")):
            return go(f[1])
    if k == "new" and t[1] in also:
        if t[2]:
            return go(t[2][0])
        for kk, v in t[3]:
            if kk in ("path", "bits"):
                return go(v)
    if k == "attr" and t[2] in attrs and t[1][0] not in ("super", "obj"):
        return go(t[1])
    if k == "slice" and t[2] in (NONE, ("const", 0)) and t[3] == NONE:
        return go(t[1])
    if k == "op" and t[1] == "Or":
        return frozenset().union(*[go(x) for x in t[2] if x[0] != "const"])
    return frozenset([t])
