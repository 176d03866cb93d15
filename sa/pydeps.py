"""What the arguments of a call depend on: parameters of the analysed function and attributes of its object.

Flow-insensitive over the inlined control-flow graph: a name depends on everything any of its bindings depends on.
"""
import ast

from sa.pyprog import bind_args

CONV = {"int", "float", "bool", "str", "tuple", "list", "frozenset", "set"}


class Deps:

    def __init__(self, prog, cfg):
        self.prog, self.cfg = prog, cfg
        self.root = cfg.root.scope
        self.memo = {}

    def root_param(self, s, name):
        if name not in s.param_names():
            return False
        x = self.root
        while x is not None:
            if x is s:
                return True
            x = x.parent
        return False

    def of(self, e, fr, depth=0, seen=None):
        """Set of root inputs: 'p' for a parameter, 'self.x' for an attribute of the object."""
        if e is None or depth > 40:
            return frozenset()
        seen = seen or frozenset()
        out = set()
        if isinstance(e, ast.Name):
            s = fr.scope.lookup_scope(e.id)
            if s is None:
                return frozenset()
            f = fr.frame_of(s)
            k = (id(s), e.id, id(f))
            if k in seen:
                return frozenset()
            seen = seen | {k}
            if s.kind != "function":
                return frozenset()
            if f is not None and e.id in f.binds:
                x, fx = f.binds[e.id]
                out |= self.of(x, fx, depth + 1, seen)
            elif self.root_param(s, e.id):
                out.add(e.id)
            for kind, n in s.binds[e.id]:
                for x in self.binding_exprs(kind, n, e.id):
                    out |= self.of(x, f or fr, depth + 1, seen)
            return frozenset(out)
        if isinstance(e, ast.Attribute):
            if isinstance(e.value, ast.Name) and self.is_self(e.value, fr):
                out = {f"self.{e.attr}"}
                # attribute set in this very function
                for n in self.cfg.nodes:
                    if n.kind == "assign" and isinstance(n.extra[0], ast.Attribute) and n.extra[0].attr == e.attr and isinstance(
                            n.extra[0].value, ast.Name) and self.is_self(n.extra[0].value, n.frame) and n.extra[1] is not None:
                        k = ("attr", e.attr)
                        if k not in seen:
                            out |= self.of(n.extra[1], n.frame, depth + 1, seen | {k})
                return frozenset(out)
            return self.of(e.value, fr, depth + 1, seen)
        if isinstance(e, ast.Call):
            kids = self.cfg.child.get((id(e), id(fr)))
            if kids:
                for k in kids:
                    for v, f in k.returns:
                        out |= self.of(v, f, depth + 1, seen)
        if isinstance(e, (ast.Lambda,)):
            sc = fr.scope.module.scope_of[e]
            for x in ast.walk(e.body):
                if isinstance(x, ast.Name):
                    s = sc.lookup_scope(x.id)
                    if s is not None and s is not sc and s.kind == "function":
                        out |= self.of(x, fr, depth + 1, seen)
            return frozenset(out)
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                out |= self.of(c, fr, depth + 1, seen)
            elif isinstance(c, ast.keyword):
                out |= self.of(c.value, fr, depth + 1, seen)
            elif isinstance(c, ast.comprehension):
                out |= self.of(c.iter, fr, depth + 1, seen)
        return frozenset(out)

    @staticmethod
    def binding_exprs(kind, n, name):
        if kind in ("assign", "unpack") and getattr(n, "value", None) is not None:
            yield n.value
        elif kind == "for" or (kind == "unpack" and hasattr(n, "iter")):
            yield n.iter
        elif kind == "with":
            yield n.context_expr
        elif kind == "aug":
            yield n.value

    def is_self(self, name, fr):
        s = fr.scope.lookup_scope(name.id)
        if s is None:
            return False
        f = fr.frame_of(s)
        if f is not None and name.id in f.binds:
            x, fx = f.binds[name.id]
            return isinstance(x, ast.Name) and self.is_self(x, fx)
        return s.kind == "function" and s.parent is not None and s.parent.kind == "class" and s.param_names()[:1] == [name.id]

    def exact(self, e, fr, depth=0):
        """The root input an expression is equal to ('p' or 'self.x'), through aliases, helper parameters and conversions."""
        if depth > 20 or e is None:
            return None
        if isinstance(e, ast.Name):
            s = fr.scope.lookup_scope(e.id)
            if s is None or s.kind != "function":
                return None
            f = fr.frame_of(s)
            if f is not None and e.id in f.binds:
                x, fx = f.binds[e.id]
                return self.exact(x, fx, depth + 1)
            if self.root_param(s, e.id):
                return e.id
            bs = s.binds[e.id]
            if len(bs) == 1 and bs[0][0] == "assign" and getattr(bs[0][1], "value", None) is not None and len(
                    getattr(bs[0][1], "targets", [0])) == 1:
                return self.exact(bs[0][1].value, f or fr, depth + 1)
            return None
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and self.is_self(e.value, fr):
            return f"self.{e.attr}"
        if isinstance(e, ast.Call):
            kids = self.cfg.child.get((id(e), id(fr)))
            if kids:
                r = {self.exact(v, f, depth + 1) for k in kids for v, f in k.returns}
                return r.pop() if len(r) == 1 else None
            if isinstance(e.func, ast.Name) and e.func.id in CONV and len(e.args) == 1 and not e.keywords:
                return self.exact(e.args[0], fr, depth + 1)
            # kwargs.get('name', default), kwargs['name']
            if isinstance(e.func, ast.Attribute) and e.func.attr in ("get", "pop") and e.args and isinstance(e.args[0], ast.Constant):
                if self.is_kwargs(e.func.value, fr):
                    return f"**{e.args[0].value}"
        if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Constant) and self.is_kwargs(e.value, fr):
            return f"**{e.slice.value}"
        return None

    def is_kwargs(self, e, fr):
        if not isinstance(e, ast.Name):
            return False
        s = fr.scope.lookup_scope(e.id)
        return s is not None and s.kind == "function" and s.node.args.kwarg is not None and s.node.args.kwarg.arg == e.id

    # ---- keyword dictionaries
    def expand(self, e, fr, depth=0):
        """Keys of a mapping passed with **: ({key: (expr, frame) or 'same-name'}, complete?) ."""
        if depth > 8:
            return {}, False
        if isinstance(e, ast.Dict):
            out, ok = {}, True
            for k, v in zip(e.keys, e.values):
                if k is None:
                    o, c = self.expand(v, fr, depth + 1)
                    out.update(o)
                    ok = ok and c
                elif isinstance(k, ast.Constant):
                    out[k.value] = (v, fr)
                else:
                    ok = False
            return out, ok
        if isinstance(e, ast.Call):
            r = self.prog.resolve(e.func, fr.scope)
            if r.dotted == "builtins.dict":
                out, ok = {}, True
                for a in e.args:
                    o, c = self.expand(a, fr, depth + 1)
                    out.update(o)
                    ok = ok and c
                for k in e.keywords:
                    if k.arg is None:
                        o, c = self.expand(k.value, fr, depth + 1)
                        out.update(o)
                        ok = ok and c
                    else:
                        out[k.arg] = (k.value, fr)
                return out, ok
            if r.dotted in ("builtins.locals", "builtins.vars"):
                return {p: (ast.Name(p, ast.Load()), fr) for p in fr.scope.param_names()}, True
            if isinstance(e.func, ast.Attribute) and e.func.attr == "copy":
                return self.expand(e.func.value, fr, depth + 1)
            kids = self.cfg.child.get((id(e), id(fr)))
            if kids and len(kids) == 1 and len(kids[0].returns) == 1:
                v, f = kids[0].returns[0]
                return self.expand(v, f, depth + 1)
            return {}, False
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.BitOr):
            a, x = self.expand(e.left, fr, depth + 1)
            b, y = self.expand(e.right, fr, depth + 1)
            return {**a, **b}, x and y
        if isinstance(e, ast.DictComp):
            # {k: v for k, v in D.items() if k != 'x'} / k not in (...)
            g = e.generators[0]
            if isinstance(g.iter, ast.Call) and isinstance(g.iter.func, ast.Attribute) and g.iter.func.attr == "items":
                out, ok = self.expand(g.iter.func.value, fr, depth + 1)
                drop = {c.value for i in g.ifs for c in ast.walk(i) if isinstance(c, ast.Constant)}
                return {k: v for k, v in out.items() if k not in drop}, ok
            return {}, False
        if isinstance(e, ast.Name):
            s = fr.scope.lookup_scope(e.id)
            if s is None:
                return {}, False
            f = fr.frame_of(s)
            if f is not None and e.id in f.binds:
                x, fx = f.binds[e.id]
                return self.expand(x, fx, depth + 1)
            bs = [b for b in s.binds[e.id] if b[0] == "assign"]
            if len(bs) != 1 or len(bs) != len(s.binds[e.id]) or f is None:
                return {}, False
            out, ok = self.expand(bs[0][1].value, f, depth + 1)
            out = dict(out)
            for n in self.cfg.nodes:
                # D.pop('k'), del D['k'], D['k'] = v, D.update(k=v)
                if n.kind == "call" and isinstance(n.ast.func, ast.Attribute) and isinstance(
                        n.ast.func.value, ast.Name) and n.ast.func.value.id == e.id and n.frame.scope.lookup_scope(e.id) is s:
                    at = n.ast.func.attr
                    if at == "pop" and n.ast.args and isinstance(n.ast.args[0], ast.Constant):
                        out.pop(n.ast.args[0].value, None)
                    elif at == "update":
                        for k in n.ast.keywords:
                            if k.arg:
                                out[k.arg] = (k.value, n.frame)
                            else:
                                ok = False
                        for a in n.ast.args:
                            o, c = self.expand(a, n.frame, depth + 1)
                            out.update(o)
                            ok = ok and c
                    elif at not in ("get", "items", "keys", "values", "copy"):
                        ok = False
                if n.kind == "assign" and isinstance(n.extra[0], ast.Subscript) and isinstance(
                        n.extra[0].value, ast.Name) and n.extra[0].value.id == e.id:
                    if isinstance(n.extra[0].slice, ast.Constant):
                        out[n.extra[0].slice.value] = (n.extra[1], n.frame)
                    else:
                        ok = False
                if n.kind == "del":
                    for t in n.ast.targets:
                        if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id == e.id and isinstance(
                                t.slice, ast.Constant):
                            out.pop(t.slice.value, None)
            return out, ok
        return {}, False

    def arguments(self, call, fr, target, skip_self):
        """{parameter: (expr, frame)}, whether everything passed is known."""
        out, ok = {}, True
        if target is not None:
            m, star, ss = bind_args(call, target, skip_self)
            ok = not star
            for k, v in m.items():
                out[k] = (v, fr)
        else:
            ss = [k.value for k in call.keywords if k.arg is None]
            for k in call.keywords:
                if k.arg is not None:
                    out[k.arg] = (k.value, fr)
            for i, a in enumerate(call.args):
                out[i] = (a, fr)
        for s in ss:
            o, c = self.expand(s, fr)
            ok = ok and c
            for k, v in o.items():
                out.setdefault(k, v)
        return out, ok
