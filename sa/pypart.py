"""Constant propagation partitioned by a finite classification of the inputs.

Every input is replaced by a small set of representative classes (tokens); the analysis computes, for each combination of
classes, which nodes of the control-flow graph it can reach and which constants its variables hold there. Anything the
evaluator does not model is TOP: both branches are followed.
"""
import ast

TOP = ("top",)


class FileName:
    """A path: its text, and whether the analysed function has wrapped it in Path."""

    def __init__(self, text, path=False):
        self.text, self.path = text, path

    def __eq__(self, o):
        return isinstance(o, FileName) and (self.text, self.path) == (o.text, o.path)

    def __hash__(self):
        return hash((self.text, self.path))

    def __repr__(self):
        return f"file:{self.text}"


class Fn:
    """A resolved function or class."""

    def __init__(self, dotted):
        self.dotted = dotted

    def __eq__(self, o):
        return isinstance(o, Fn) and o.dotted == self.dotted

    def __hash__(self):
        return hash(self.dotted)

    def __repr__(self):
        return self.dotted


STR = {"lower", "upper", "strip", "lstrip", "rstrip", "startswith", "endswith", "removeprefix", "removesuffix", "casefold", "split",
       "rsplit", "partition", "rpartition", "replace"}


def simple(v):
    return v is None or isinstance(v, (str, int, float, bool, tuple, frozenset))


class Partition:

    def __init__(self, cfg, parts, oracle=None, excs=None):
        """parts: {pid: {('param', name): token}}; oracle(pid, node, callee, args) -> value, or ('raise', dotted), or TOP."""
        self.cfg, self.prog, self.parts, self.oracle = cfg, cfg.prog, parts, oracle
        self.excs = excs or {}
        self.state = {}
        self.run()

    def key(self, name, fr):
        s = fr.scope.lookup_scope(name)
        if s is None:
            return None
        f = fr.frame_of(s)
        return (s.qual, name, id(f) if f is not None and f.depth else 0)

    # ---- evaluation
    def ev(self, e, fr, env, depth=0):
        if e is None or depth > 25:
            return TOP
        if isinstance(e, ast.Constant):
            return e.value
        if isinstance(e, ast.Name):
            k = self.key(e.id, fr)
            if k is not None and k in env:
                return env[k]
            s = fr.scope.lookup_scope(e.id)
            if s is None or s.kind == "module":
                r = self.prog.resolve(e, fr.scope)
                if r.dotted is not None:
                    return Fn(r.dotted)
                if s is not None and s.kind == "module" and len(s.binds[e.id]) == 1 and s.binds[e.id][0][0] == "assign":
                    return self.ev_static(s.binds[e.id][0][1].value, s)
            else:
                bs = s.binds.get(e.id, [])
                if bs and all(k in ("import", "def") for k, _ in bs):
                    r = self.prog.resolve(e, fr.scope)
                    if r.dotted is not None:
                        return Fn(r.dotted)
            return TOP
        if isinstance(e, ast.NamedExpr):
            return self.ev(e.value, fr, env, depth + 1)
        if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
            out = [self.ev(x, fr, env, depth + 1) for x in e.elts]
            return tuple(out)
        if isinstance(e, ast.IfExp):
            t = self.truth(self.ev(e.test, fr, env, depth + 1))
            a, b = self.ev(e.body, fr, env, depth + 1), self.ev(e.orelse, fr, env, depth + 1)
            return a if t is True else b if t is False else a if a == b else TOP
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            last = TOP
            unknown = False
            for v in e.values:
                last = self.ev(v, fr, env, depth + 1)
                t = self.truth(last)
                if t is None:
                    unknown = True
                elif t is not isand:
                    return last if not unknown else (False if isand else True) if isinstance(last, bool) else TOP
            return TOP if unknown else last
        if isinstance(e, ast.UnaryOp):
            v = self.ev(e.operand, fr, env, depth + 1)
            if isinstance(e.op, ast.Not):
                t = self.truth(v)
                return TOP if t is None else not t
            return -v if isinstance(e.op, ast.USub) and isinstance(v, (int, float)) else TOP
        if isinstance(e, ast.Compare):
            out = True
            left = self.ev(e.left, fr, env, depth + 1)
            for op, x in zip(e.ops, e.comparators):
                right = self.ev(x, fr, env, depth + 1)
                r = self.compare(op, left, right)
                if r is False:
                    return False
                if r is TOP:
                    out = TOP
                left = right
            return out
        if isinstance(e, ast.BinOp):
            a, b = self.ev(e.left, fr, env, depth + 1), self.ev(e.right, fr, env, depth + 1)
            if isinstance(e.op, ast.Add) and isinstance(a, str) and isinstance(b, str):
                return a + b
            if isinstance(e.op, ast.Add) and isinstance(a, tuple) and isinstance(b, tuple) and TOP not in (a, b):
                return a + b
            if isinstance(e.op, (ast.BitXor, ast.BitAnd, ast.BitOr)) and isinstance(a, bool) and isinstance(b, bool):
                return {ast.BitXor: a ^ b, ast.BitAnd: a & b, ast.BitOr: a | b}[type(e.op)]
            return TOP
        if isinstance(e, ast.JoinedStr):
            out = ""
            for v in e.values:
                if isinstance(v, ast.Constant):
                    out += v.value
                else:
                    x = self.ev(v.value, fr, env, depth + 1)
                    if not isinstance(x, (str, int)) or v.format_spec is not None or v.conversion != -1:
                        return TOP
                    out += str(x)
            return out
        if isinstance(e, ast.Subscript):
            v = self.ev(e.value, fr, env, depth + 1)
            if isinstance(v, (str, tuple)) and v is not TOP:
                s = e.slice
                try:
                    if isinstance(s, ast.Slice):
                        b = [None if x is None else self.ev(x, fr, env, depth + 1) for x in (s.lower, s.upper, s.step)]
                        return TOP if TOP in b else v[slice(*b)]
                    i = self.ev(s, fr, env, depth + 1)
                    return TOP if i is TOP else v[i]
                except (TypeError, IndexError):
                    return TOP
            if isinstance(v, Mapping):
                i = self.ev(e.slice, fr, env, depth + 1)
                return v.items.get(i, TOP) if i is not TOP else TOP
            return TOP
        if isinstance(e, ast.Dict):
            out = {}
            for k, v in zip(e.keys, e.values):
                if k is None:
                    return TOP
                kv = self.ev(k, fr, env, depth + 1)
                if kv is TOP:
                    return TOP
                out[kv] = self.ev(v, fr, env, depth + 1)
            return Mapping(out)
        if isinstance(e, ast.Attribute):
            v = self.ev(e.value, fr, env, depth + 1)
            if isinstance(v, FileName):
                import posixpath
                base = posixpath.basename(v.text)
                stem, suf = posixpath.splitext(base)
                return {"suffix": suf, "name": base, "stem": stem, "suffixes": (suf,) if suf else ()}.get(e.attr, TOP)
            if isinstance(v, Fn):
                r = self.prog.resolve(e, fr.scope)
                return Fn(r.dotted) if r.dotted is not None else Fn(f"{v.dotted}.{e.attr}")
            return TOP
        if isinstance(e, ast.Call):
            return self.call(e, fr, env, depth)
        return TOP

    def ev_static(self, e, s):
        class F:
            scope = s

            @staticmethod
            def frame_of(x):
                return None
            depth = 0
        try:
            return self.ev(e, F, {})
        except Exception:
            return TOP

    def call(self, e, fr, env, depth):
        rk = ("#ret", id(e), id(fr))
        if rk in env:
            return env[rk]
        f = e.func
        args = [self.ev(a, fr, env, depth + 1) for a in e.args if not isinstance(a, ast.Starred)]
        if isinstance(f, ast.Attribute):
            v = self.ev(f.value, fr, env, depth + 1)
            if isinstance(v, str) and f.attr in STR and TOP not in args:
                try:
                    r = getattr(v, f.attr)(*args)
                    return tuple(r) if isinstance(r, list) else r
                except Exception:
                    return TOP
            if isinstance(v, Mapping) and f.attr == "get" and args:
                return v.items.get(args[0], args[1] if len(args) > 1 else None) if args[0] is not TOP else TOP
            if isinstance(v, Mapping) and f.attr in ("pop", "setdefault") and args and args[0] is not TOP:
                return v.items.get(args[0], args[1] if len(args) > 1 else TOP)
            if isinstance(v, FileName):
                if f.attr in ("resolve", "absolute", "expanduser"):
                    return v
                if self.oracle:
                    return self.oracle(env["#pid"], e, f".{f.attr}", [v, *args])
                return TOP
        fn = self.ev(f, fr, env, depth + 1)
        d = fn.dotted if isinstance(fn, Fn) else None
        if d in ("builtins.str", "builtins.repr", "os.fspath", "builtins.format") and args:
            v = args[0]
            return v.text if isinstance(v, FileName) else str(v) if simple(v) and v is not TOP else TOP
        if d == "builtins.bool" and args:
            t = self.truth(args[0])
            return TOP if t is None else t
        if d in ("pathlib.Path", "pathlib.PurePath", "pathlib.PosixPath") and len(args) == 1 and not e.keywords:
            v = args[0]
            return FileName(v.text, True) if isinstance(v, FileName) else FileName(v, True) if isinstance(v, str) else TOP
        if d in ("builtins.tuple", "builtins.list", "builtins.set", "builtins.frozenset") and args and isinstance(args[0], tuple):
            return args[0]
        if d == "os.path.splitext" and args and isinstance(args[0], FileName):
            import posixpath
            return posixpath.splitext(args[0].text)
        if d == "builtins.isinstance" and len(args) == 2 and args[0] is not TOP:
            ts = args[1] if isinstance(args[1], tuple) and args[1] is not TOP else (args[1],)
            names = {t.dotted for t in ts if isinstance(t, Fn)}
            v = args[0]
            if isinstance(v, FileName):
                return bool(names & ({"pathlib.Path", "pathlib.PurePath", "os.PathLike"} if v.path else {"builtins.str"}))
            if isinstance(v, str):
                return "builtins.str" in names
            if v is None:
                return bool(names & {"builtins.NoneType", "types.NoneType"})
        if d == "builtins.any" and args and isinstance(args[0], tuple) and args[0] is not TOP:
            ts = [self.truth(x) for x in args[0]]
            return True if True in ts else TOP if None in ts else False
        if d == "builtins.all" and args and isinstance(args[0], tuple) and args[0] is not TOP:
            ts = [self.truth(x) for x in args[0]]
            return False if False in ts else TOP if None in ts else True
        if d == "functools.partial" and args and isinstance(args[0], Fn):
            return args[0]
        if self.oracle and d is not None:
            return self.oracle(env["#pid"], e, d, args)
        return TOP

    @staticmethod
    def truth(v):
        if v is TOP:
            return None
        if isinstance(v, (FileName, Fn)):
            return True
        if isinstance(v, Mapping):
            return bool(v.items)
        if isinstance(v, tuple) and v and v[0] == "raise":
            return None
        return bool(v)

    def compare(self, op, a, b):
        if isinstance(op, (ast.Is, ast.IsNot)) and (a is None or b is None):
            if a is TOP or b is TOP:
                return TOP
            r = a is None and b is None
            return r if isinstance(op, ast.Is) else not r
        if a is TOP or b is TOP:
            return TOP
        if isinstance(a, FileName) and isinstance(b, str):
            a = a.text if not a.path else a
        if isinstance(op, (ast.Eq, ast.Is)):
            return a == b
        if isinstance(op, (ast.NotEq, ast.IsNot)):
            return a != b
        if isinstance(op, (ast.In, ast.NotIn)):
            if isinstance(b, Mapping):
                r = a in b.items
            elif isinstance(b, tuple):
                if a in b:
                    r = True
                elif any(x is TOP for x in b):
                    return TOP
                else:
                    r = False
            elif isinstance(b, str) and isinstance(a, str):
                r = a in b
            else:
                return TOP
            return r if isinstance(op, ast.In) else not r
        try:
            return {ast.Lt: lambda: a < b, ast.LtE: lambda: a <= b, ast.Gt: lambda: a > b, ast.GtE: lambda: a >= b}[type(op)]()
        except (TypeError, KeyError):
            return TOP

    # ---- propagation
    def run(self):
        cfg = self.cfg
        for pid, ps in self.parts.items():
            env = {"#pid": pid}
            for name, v in ps.items():
                if isinstance(name, str):
                    env[(cfg.root.scope.qual, name, 0)] = v
            self.one(pid, env)

    def one(self, pid, env0):
        st = {self.cfg.entry: env0}
        todo = [self.cfg.entry]
        steps = 0
        while todo and steps < 20000:
            steps += 1
            n = todo.pop()
            env = dict(st[n])
            for t, e in self.step(n, env):
                old = st.get(t)
                if old is None:
                    st[t] = dict(e)
                    todo.append(t)
                else:
                    new, ch = {}, False
                    for k in old:
                        if k in e and e[k] == old[k] and type(e[k]) is type(old[k]):
                            new[k] = old[k]
                        elif k in e:
                            new[k] = TOP
                            ch = ch or old[k] is not TOP
                        else:
                            ch = True
                    if ch:
                        st[t] = new
                        todo.append(t)
        for n, e in st.items():
            self.state.setdefault(n, {})[pid] = e

    def bind(self, t, v, fr, env):
        if isinstance(t, ast.Name):
            k = self.key(t.id, fr)
            env[k] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, tuple) and v is not TOP and len(v) == len(t.elts) and not any(isinstance(x, ast.Starred) for x in t.elts):
                for x, y in zip(t.elts, v):
                    self.bind(x, y, fr, env)
            else:
                for x in t.elts:
                    self.bind(x.value if isinstance(x, ast.Starred) else x, TOP, fr, env)

    def map_var(self, e, fr, env):
        k = self.key(e.id, fr) if isinstance(e, ast.Name) else None
        return k if isinstance(env.get(k), Mapping) else None

    def step(self, n, env):
        fr = n.frame
        if n.kind == "call" and isinstance(n.ast, ast.Call) and isinstance(n.ast.func, ast.Attribute):
            k = self.map_var(n.ast.func.value, fr, env)
            if k is not None and n.ast.func.attr in ("pop", "setdefault", "update", "clear", "popitem"):
                rk = ("#ret", id(n.ast), id(fr))
                env.pop(rk, None)
                env[rk] = self.call(n.ast, fr, env, 0)
                a = [self.ev(x, fr, env) for x in n.ast.args]
                if n.ast.func.attr == "pop" and a and a[0] is not TOP:
                    env[k] = Mapping({x: y for x, y in env[k].items.items() if x != a[0]})
                else:
                    env[k] = TOP
                for _, m in n.succ:
                    yield m, env
                return
        if n.kind == "assign" and isinstance(n.extra[0], ast.Subscript):
            k = self.map_var(n.extra[0].value, fr, env)
            if k is not None:
                i = self.ev(n.extra[0].slice, fr, env)
                env[k] = TOP if i is TOP else Mapping({**env[k].items, i: self.ev(n.extra[1], fr, env)})
        if n.kind == "del":
            for t in n.ast.targets:
                k = self.map_var(t.value, fr, env) if isinstance(t, ast.Subscript) else None
                if k is not None:
                    i = self.ev(t.slice, fr, env)
                    env[k] = TOP if i is TOP else Mapping({x: y for x, y in env[k].items.items() if x != i})
        if n.kind == "assign":
            t, v = n.extra
            self.bind(t, self.ev(v, fr, env) if v is not None and not isinstance(n.ast, ast.withitem) else TOP, fr, env)
        elif n.kind == "aug":
            self.bind(n.extra[0], TOP, fr, env)
        elif n.kind == "enter":
            vals = {p: self.ev(x, fx, env) for p, (x, fx) in fr.binds.items()}
            for p in fr.scope.param_names():
                env[(fr.scope.qual, p, id(fr) if fr.depth else 0)] = vals.get(p, TOP)
            a = fr.scope.node.args
            if a.kwarg is not None and a.kwarg.arg not in vals:
                names = {p.arg for p in [*a.posonlyargs, *a.args, *a.kwonlyargs]}
                if fr.call is not None and not any(k.arg is None for k in fr.call.keywords):
                    env[(fr.scope.qual, a.kwarg.arg, id(fr) if fr.depth else 0)] = Mapping(
                        {k.arg: self.ev(k.value, fr.parent, env) for k in fr.call.keywords if k.arg not in names})
        elif n.kind == "return":
            if fr.depth and fr.call is not None:
                env[("#ret", id(fr.call), id(fr.parent))] = self.ev(n.ast.value, fr, env) if n.ast.value is not None else None
        elif n.kind == "raise" and n.ast is not None:
            x = getattr(n.ast, "exc", None)
            if isinstance(n.ast, ast.Assert):
                env["#exc"] = "builtins.AssertionError"
            elif x is not None:
                r = self.prog.resolve(x.func if isinstance(x, ast.Call) else x, fr.scope)
                env["#exc"] = r.dotted if r.dotted else env.get("#exc")
        elif n.kind == "call" and isinstance(n.ast, ast.Call) and self.oracle:
            kids = self.cfg.child.get((id(n.ast), id(fr)))
            env.pop(("#ret", id(n.ast), id(fr)), None)
            if not kids:
                v = self.call(n.ast, fr, env, 0)
                if isinstance(v, tuple) and v and v[0] == "raise":
                    env["#exc"] = v[1]
                    if n.exc is not None:
                        yield n.exc, env
                    return
        if n.kind == "test":
            t = self.truth(self.ev(n.ast, fr, env))
            for lab, m in n.succ:
                if lab in (True, False) and t is not None and lab is not t:
                    continue
                yield m, env
            return
        if n.kind == "dispatch":
            exc = env.get("#exc")
            sup = {exc, "builtins.Exception", "builtins.BaseException", *self.excs.get(exc, ())}
            for lab, m in n.succ:
                if lab == "catch":
                    ty = m.ast.type
                    if ty is None:
                        yield m, env
                        return
                    ts = ty.elts if isinstance(ty, ast.Tuple) else [ty]
                    ds = [self.prog.resolve(t, fr.scope).dotted for t in ts]
                    if any(d in sup for d in ds):
                        yield m, env
                        return
            for lab, m in n.succ:
                if lab == "raise":
                    yield m, env
            return
        for lab, m in n.succ:
            yield m, env


class Mapping:

    def __init__(self, items):
        self.items = dict(items)

    def __eq__(self, o):
        return isinstance(o, Mapping) and o.items == self.items

    def __hash__(self):
        return hash(tuple(sorted(map(repr, self.items))))
