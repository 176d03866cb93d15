"""Control-flow graphs of Python functions with exceptional edges and helper inlining.

Every evaluated call, branch, assignment, iteration step and context-manager entry/exit is a node. Local helpers, lambdas
given to map/filter/sorted/... and functions of the analysed package are inlined (bounded depth, no recursion), so a
rule sees the same events whether or not a statement was moved into a helper.
"""
import ast

HOFS = {
    "builtins.map", "builtins.filter", "builtins.sorted", "builtins.min", "builtins.max", "itertools.starmap",
    "itertools.filterfalse", "itertools.takewhile", "itertools.dropwhile", "functools.reduce", "itertools.accumulate",
    "more_itertools.consume", "more_itertools.first_true",
}
CATCH_ALL = {"BaseException"}


class Frame:

    def __init__(self, scope, parent=None, call=None, binds=None):
        self.scope, self.parent, self.call, self.binds = scope, parent, call, binds or {}
        self.returns = []
        self.depth = 0 if parent is None else parent.depth + 1

    def active(self, scope):
        f = self
        while f is not None:
            if f.scope is scope:
                return True
            f = f.parent
        return False

    def frame_of(self, scope):
        """Nearest frame on the stack whose scope is `scope` (for free variables of nested functions)."""
        f = self
        while f is not None:
            if f.scope is scope:
                return f
            f = f.parent
        return None


class Node:
    __slots__ = ("id", "kind", "ast", "frame", "succ", "exc", "extra")

    def __init__(self, id, kind, node, frame, extra=None):
        self.id, self.kind, self.ast, self.frame, self.extra = id, kind, node, frame, extra
        self.succ = []  # (label, Node)
        self.exc = None  # Node reached when evaluating this node raises

    def __repr__(self):
        try:
            t = ast.unparse(self.ast)[:50] if self.ast is not None else ""
        except Exception:
            t = type(self.ast).__name__
        return f"<{self.id} {self.kind} {t}>"


class _Env:
    """Where control goes for return / break / continue / exceptions."""

    def __init__(self, ret, brk, cont, exc):
        self.ret, self.brk, self.cont, self.exc = ret, brk, cont, exc

    def but(self, **kw):
        d = dict(ret=self.ret, brk=self.brk, cont=self.cont, exc=self.exc)
        d.update(kw)
        return _Env(**d)


class CFG:

    def __init__(self, prog, scope, policy=None, max_depth=5):
        self.prog = prog
        self.nodes = []
        self.max_depth = max_depth
        self.policy = policy or (lambda ref, call, frame: False)
        self.child = {}
        self.inlined = set()
        self.root = Frame(scope)
        self.entry = self.new("entry", None, self.root)
        self.exit = self.new("exit", None, self.root)
        self.eexit = self.new("eexit", None, self.root)
        env = _Env(ret=lambda cur: self.link(cur, self.exit), brk=None, cont=None, exc=lambda: self.eexit)
        end = self.stmts(scope.body, [(None, self.entry)], env, self.root)
        self.link(end, self.exit)

    # ---- graph primitives. A "frontier" is a list of (label, node) with dangling edges
    def new(self, kind, node, frame, extra=None):
        n = Node(len(self.nodes), kind, node, frame, extra)
        self.nodes.append(n)
        return n

    def link(self, cur, to):
        for label, n in cur:
            n.succ.append((label, to))

    def add(self, kind, node, cur, env, frame, extra=None, raises=True):
        n = self.new(kind, node, frame, extra)
        self.link(cur, n)
        if raises:
            n.exc = env.exc()
        return [(None, n)], n

    # ---- statements
    def stmts(self, body, cur, env, fr):
        for s in body:
            if not cur:
                break
            cur = self.stmt(s, cur, env, fr)
        return cur

    def stmt(self, s, cur, env, fr):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            return self.add("def", s, cur, env, fr, raises=False)[0]
        if isinstance(s, ast.Return):
            if s.value is not None:
                cur = self.ev(s.value, cur, env, fr)
            cur, n = self.add("return", s, cur, env, fr, raises=False)
            fr.returns.append((s.value, fr))
            env.ret(cur)
            return []
        if isinstance(s, ast.Raise):
            for e in (s.exc, s.cause):
                if e is not None:
                    cur = self.ev(e, cur, env, fr)
            cur, n = self.add("raise", s, cur, env, fr)
            n.succ.append(("raise", n.exc))
            return []
        if isinstance(s, ast.Break):
            env.brk(cur)
            return []
        if isinstance(s, ast.Continue):
            env.cont(cur)
            return []
        if isinstance(s, ast.If):
            t, f = self.cond(s.test, cur, env, fr)
            a = self.stmts(s.body, t, env, fr)
            b = self.stmts(s.orelse, f, env, fr)
            return a + b
        if isinstance(s, ast.Assert):
            t, f = self.cond(s.test, cur, env, fr)
            if s.msg is not None:
                f = self.ev(s.msg, f, env, fr)
            c, n = self.add("raise", s, f, env, fr)
            n.succ.append(("raise", n.exc))
            return t
        if isinstance(s, ast.While):
            head = self.new("loop", s, fr)
            self.link(cur, head)
            outs = []
            e2 = env.but(brk=lambda c: outs.extend(c), cont=lambda c: self.link(c, head))
            t, f = self.cond(s.test, [(None, head)], env, fr)
            end = self.stmts(s.body, t, e2, fr)
            self.link(end, head)
            f = self.stmts(s.orelse, f, env, fr)
            return f + outs
        if isinstance(s, (ast.For, ast.AsyncFor)):
            cur = self.ev(s.iter, cur, env, fr)
            cur, _ = self.add("iterstart", s, cur, env, fr)
            head = self.new("loop", s, fr)
            self.link(cur, head)
            head.exc = env.exc()
            outs = []
            e2 = env.but(brk=lambda c: outs.extend(c), cont=lambda c: self.link(c, head))
            c, n = self.add("assign", s, [("iter", head)], env, fr, extra=(s.target, None), raises=False)
            end = self.stmts(s.body, c, e2, fr)
            self.link(end, head)
            f = self.stmts(s.orelse, [("done", head)], env, fr)
            return f + outs
        if isinstance(s, (ast.With, ast.AsyncWith)):
            return self.with_(s, s.items, cur, env, fr)
        if isinstance(s, ast.Try):
            return self.try_(s, cur, env, fr)
        if isinstance(s, ast.Assign):
            cur = self.ev(s.value, cur, env, fr)
            for t in s.targets:
                cur = self.ev_target(t, cur, env, fr)
                cur, _ = self.add("assign", s, cur, env, fr, extra=(t, s.value), raises=not isinstance(t, ast.Name))
            return cur
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                cur = self.ev(s.value, cur, env, fr)
                cur = self.ev_target(s.target, cur, env, fr)
                cur, _ = self.add("assign", s, cur, env, fr, extra=(s.target, s.value), raises=False)
            return cur
        if isinstance(s, ast.AugAssign):
            cur = self.ev(s.value, cur, env, fr)
            cur = self.ev_target(s.target, cur, env, fr)
            return self.add("aug", s, cur, env, fr, extra=(s.target, s.value))[0]
        if isinstance(s, ast.Expr):
            return self.ev(s.value, cur, env, fr)
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            return self.add("import", s, cur, env, fr)[0]
        if isinstance(s, ast.Delete):
            for t in s.targets:
                cur = self.ev_target(t, cur, env, fr)
            return self.add("del", s, cur, env, fr)[0]
        if isinstance(s, ast.Match):
            cur = self.ev(s.subject, cur, env, fr)
            out = []
            for c in s.cases:
                cur, n = self.add("match", c, cur, env, fr)
                t = [("case", n)]
                if c.guard is not None:
                    t, _ = self.cond(c.guard, t, env, fr)
                out += self.stmts(c.body, t, env, fr)
                cur = [("else", n)]
            return out + cur
        return cur  # pass, global, nonlocal

    def with_(self, s, items, cur, env, fr):
        if not items:
            return self.stmts(s.body, cur, env, fr)
        it = items[0]
        cur = self.ev(it.context_expr, cur, env, fr)
        cur, enter = self.add("withenter", it, cur, env, fr)
        if it.optional_vars is not None:
            cur, _ = self.add("assign", it, cur, env, fr, extra=(it.optional_vars, it.context_expr), raises=False)

        def leave(kind, then):
            def f(c):
                c, n = self.add("withexit", it, c, env, fr, extra=kind)
                then(c)
            return f

        pads = []

        def exc():
            if not pads:
                pad = self.new("withexit", it, fr, "exc")
                pads.append(pad)
                pad.succ.append(("raise", env.exc()))
                # suppression (contextlib.suppress) is handled by the caller: the pad may also fall through
            return pads[0]

        e2 = _Env(ret=leave("return", env.ret),
                  brk=leave("break", env.brk) if env.brk else None,
                  cont=leave("continue", env.cont) if env.cont else None, exc=exc)
        end = self.with_(s, items[1:], cur, e2, fr)
        if end:
            end, n = self.add("withexit", it, end, env, fr, extra="normal")
        r = self.prog.resolve(it.context_expr.func, fr.scope) if isinstance(it.context_expr, ast.Call) else None
        if pads and r is not None and r.dotted == "contextlib.suppress":
            end = end + [("suppressed", pads[0])]
        return end

    def try_(self, s, cur, env, fr):
        fin = s.finalbody

        def through(then):
            if not fin or then is None:
                return then

            def f(c):
                c = self.stmts(fin, c, env, fr)
                if c:
                    then(c)
            return f

        fpads = []

        def exc_out():
            """Target for exceptions leaving the whole statement."""
            if not fin:
                return env.exc()
            if not fpads:
                pad = self.new("finally", s, fr, "exc")
                fpads.append(pad)
                c = self.stmts(fin, [(None, pad)], env, fr)
                if c:
                    self.link([("raise", n) for _, n in c], env.exc())
            return fpads[0]

        outer = _Env(ret=through(env.ret), brk=through(env.brk), cont=through(env.cont), exc=exc_out)
        hpads = []

        def exc_in():
            if not s.handlers:
                return exc_out()
            if not hpads:
                hpads.append(self.new("dispatch", s, fr))
            return hpads[0]

        inner = outer.but(exc=exc_in)
        end = self.stmts(s.body, cur, inner, fr)
        end = self.stmts(s.orelse, end, outer, fr) if end else end
        outs = list(end)
        if hpads:
            d = hpads[0]
            catch_all = False
            for h in s.handlers:
                n = self.new("except", h, fr)
                d.succ.append(("catch", n))
                outs += self.stmts(h.body, [(None, n)], outer, fr)
                if h.type is None or (isinstance(h.type, ast.Name) and h.type.id in CATCH_ALL):
                    catch_all = True
            if not catch_all:
                d.succ.append(("raise", exc_out()))
        if fin and outs:
            outs = self.stmts(fin, outs, env, fr)
        return outs

    # ---- expressions
    def cond(self, e, cur, env, fr):
        """Evaluate a condition; returns (true frontier, false frontier)."""
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            outs = []
            for i, v in enumerate(e.values):
                t, f = self.cond(v, cur, env, fr)
                if isand:
                    outs += f
                    cur = t
                else:
                    outs += t
                    cur = f
            return (cur, outs) if isand else (outs, cur)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            t, f = self.cond(e.operand, cur, env, fr)
            return f, t
        if isinstance(e, ast.Constant):
            return (cur, []) if e.value else ([], cur)
        cur = self.ev(e, cur, env, fr)
        cur, n = self.add("test", e, cur, env, fr, raises=False)
        return [(True, n)], [(False, n)]

    def ev_target(self, t, cur, env, fr):
        if isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                cur = self.ev_target(x, cur, env, fr)
        elif isinstance(t, ast.Attribute):
            cur = self.ev(t.value, cur, env, fr)
        elif isinstance(t, ast.Subscript):
            cur = self.ev(t.value, cur, env, fr)
            cur = self.ev(t.slice, cur, env, fr)
        elif isinstance(t, ast.Starred):
            cur = self.ev_target(t.value, cur, env, fr)
        return cur

    def ev(self, e, cur, env, fr):
        if not cur or e is None:
            return cur
        if isinstance(e, (ast.Constant, ast.Name, ast.Lambda)):
            return cur
        if isinstance(e, ast.BoolOp):
            t, f = self.cond(e, cur, env, fr)
            return t + f
        if isinstance(e, ast.IfExp):
            t, f = self.cond(e.test, cur, env, fr)
            return self.ev(e.body, t, env, fr) + self.ev(e.orelse, f, env, fr)
        if isinstance(e, ast.NamedExpr):
            cur = self.ev(e.value, cur, env, fr)
            return self.add("assign", e, cur, env, fr, extra=(e.target, e.value), raises=False)[0]
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            return self.comp(e, cur, env, fr)
        if isinstance(e, ast.Call):
            return self.call(e, cur, env, fr)
        if isinstance(e, ast.Subscript):
            cur = self.ev(e.value, cur, env, fr)
            cur = self.ev(e.slice, cur, env, fr)
            return self.add("sub", e, cur, env, fr)[0]
        if isinstance(e, (ast.Yield, ast.YieldFrom, ast.Await)):
            cur = self.ev(e.value, cur, env, fr)
            return self.add("yield", e, cur, env, fr)[0]
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                cur = self.ev(c, cur, env, fr)
            elif isinstance(c, ast.keyword):
                cur = self.ev(c.value, cur, env, fr)
        if isinstance(e, (ast.BinOp, ast.UnaryOp, ast.Compare)):
            return self.add("op", e, cur, env, fr)[0]
        return cur

    def comp(self, e, cur, env, fr):
        heads = []
        outs = None
        for g in e.generators:
            cur = self.ev(g.iter, cur, env, fr)
            cur, _ = self.add("iterstart", g, cur, env, fr)
            head = self.new("loop", g, fr)
            head.exc = env.exc()
            self.link(cur, head)
            cur, _ = self.add("assign", g, [("iter", head)], env, fr, extra=(g.target, None), raises=False)
            for i in g.ifs:
                t, f = self.cond(i, cur, env, fr)
                self.link(f, head)
                cur = t
            heads.append(head)
        if isinstance(e, ast.DictComp):
            cur = self.ev(e.key, cur, env, fr)
            cur = self.ev(e.value, cur, env, fr)
        else:
            cur = self.ev(e.elt, cur, env, fr)
        self.link(cur, heads[-1])
        for inner, outer in zip(heads[::-1], heads[-2::-1]):
            inner.succ.append(("done", outer))
        return [("done", heads[0])]

    def call(self, e, cur, env, fr):
        cur = self.ev(e.func, cur, env, fr) if not isinstance(e.func, ast.Name) else cur
        for a in e.args:
            cur = self.ev(a.value if isinstance(a, ast.Starred) else a, cur, env, fr)
        for k in e.keywords:
            cur = self.ev(k.value, cur, env, fr)
        ref = self.resolve_func(e.func, fr)
        # higher-order builtins: the function argument runs any number of times
        if ref is not None and ref.kind == "ext" and ref.value in HOFS:
            fns = [a for a in e.args] + [k.value for k in e.keywords]
            for a in fns:
                r = self.resolve_func(a, fr) if isinstance(a, (ast.Lambda, ast.Name, ast.Attribute)) else None
                if r is not None and r.kind == "func" and self.may_inline(r.value, fr, local_only=False):
                    head = self.new("loop", e, fr)
                    self.link(cur, head)
                    head.exc = env.exc()
                    end = self.inline(r.value, e, [("iter", head)], env, fr, binds={})
                    self.link(end, head)
                    cur = [("done", head)]
        cur, n = self.add("call", e, cur, env, fr, extra=ref)
        if ref is not None and ref.kind == "func" and self.may_inline(ref.value, fr, call=e, ref=ref):
            f = ref.value
            cur = self.inline(f, e, cur, env, fr, binds=self.bind(e, f, fr))
            cur, _ = self.add("leave", e, cur, env, fr, raises=False) if cur else (cur, None)
        return cur

    def resolve_func(self, e, fr):
        """Resolve a callee through the inlining frames (a parameter may be bound to a caller's function)."""
        r = self.prog.resolve(e, fr.scope)
        if r.kind == "param":
            f = fr.frame_of(r.scope)
            if f is not None and r.name in f.binds:
                x, fx = f.binds[r.name]
                return self.resolve_func(x, fx)
        return r

    def may_inline(self, scope, fr, call=None, ref=None, local_only=False):
        if fr.depth >= self.max_depth or fr.active(scope):
            return False
        if scope.module not in self.prog.modules.values():
            return False
        if isinstance(scope.node, ast.Lambda):
            return True
        if scope.parent is not None and scope.parent.kind == "function":
            return not scope.node.decorator_list
        return self.policy(ref, call, fr)

    def bind(self, call, scope, fr):
        from sa.pyprog import bind_args
        skip = scope.parent is not None and scope.parent.kind == "class" and isinstance(call.func, ast.Attribute)
        m, _, _ = bind_args(call, scope, skip_self=skip)
        out = {k: (v, fr) for k, v in m.items()}
        a = scope.node.args
        pos = [*a.posonlyargs, *a.args]
        for p, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [
            (p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            out.setdefault(p.arg, (d, fr.frame_of(scope.parent) or fr))
        if skip:
            out.setdefault(scope.param_names()[0], (call.func.value, fr))
        return out

    def inline(self, scope, call, cur, env, fr, binds):
        f2 = Frame(scope, fr, call, binds)
        self.child.setdefault((id(call), id(fr)), []).append(f2)
        self.inlined.add(scope)
        outs = []
        e2 = _Env(ret=lambda c: outs.extend(c), brk=None, cont=None, exc=env.exc)
        cur, _ = self.add("enter", call, cur, env, f2, extra=scope, raises=False)
        end = self.stmts(scope.body, cur, e2, f2)
        return outs + end

    # ---- naming: canonical identity of a value expression across inlined frames
    def canon(self, e, fr, depth=0):
        if depth > 20:
            return ("?",)
        if isinstance(e, ast.Name):
            s = fr.scope.lookup_scope(e.id)
            if s is None:
                return ("global", e.id)
            f = fr.frame_of(s)
            if f is not None and e.id in f.binds and len(s.binds[e.id]) == 1:
                x, fx = f.binds[e.id]
                return self.canon(x, fx, depth + 1)
            # single assignment of a plain name/attribute: alias
            bs = s.binds[e.id]
            if f is not None and len(bs) == 1 and bs[0][0] == "assign" and isinstance(bs[0][1], ast.Assign):
                v = bs[0][1].value
                if len(bs[0][1].targets) == 1 and isinstance(bs[0][1].targets[0], ast.Name) and isinstance(
                        v, (ast.Name, ast.Attribute)):
                    return self.canon(v, f, depth + 1)
            if f is not None and len(bs) == 1 and bs[0][0] == "with":
                pass
            return ("var", s.qual, e.id, id(f) if f is not None and f.depth else 0)
        if isinstance(e, ast.Attribute):
            return ("attr", self.canon(e.value, fr, depth + 1), e.attr)
        if isinstance(e, ast.Subscript):
            return ("item", self.canon(e.value, fr, depth + 1), ast.unparse(e.slice))
        if isinstance(e, ast.Constant):
            return ("const", repr(e.value))
        return ("expr", ast.unparse(e), id(fr) if fr.depth else 0)

    # ---- queries
    def reach(self, starts, stop=lambda n: False, follow_exc=True, labels=None):
        """Nodes reachable from starts without passing *through* stop nodes (stop nodes themselves are included)."""
        seen, todo = {}, [(s, None) for s in starts]
        while todo:
            n, p = todo.pop()
            if n in seen:
                continue
            seen[n] = p
            if stop(n):
                continue
            for lab, t in n.succ:
                todo.append((t, n))
            if follow_exc and n.exc is not None:
                todo.append((n.exc, n))
        return seen

    def path(self, seen, n):
        out = []
        while n is not None:
            out.append(n)
            n = seen[n]
        return out[::-1]
