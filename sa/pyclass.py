"""Facts about classes: attributes, what they are assigned from, what methods read, how values are typed."""
import ast

from sa.pycfg import CFG

IMMUT_CALLS = {"builtins.tuple", "builtins.frozenset", "builtins.int", "builtins.float", "builtins.str", "builtins.bool", "builtins.len",
               "builtins.hash", "builtins.complex", "builtins.bytes", "builtins.sum", "builtins.abs", "types.MappingProxyType",
               "tnco.ordered_frozenset.OrderedFrozenSet", "builtins.isinstance", "builtins.repr", "builtins.any", "builtins.all"}
MUT_CALLS = {"builtins.dict", "builtins.list", "builtins.set", "builtins.bytearray", "collections.defaultdict", "collections.OrderedDict",
             "collections.deque", "collections.Counter", "builtins.sorted", "builtins.map", "builtins.filter", "builtins.zip",
             "builtins.iter", "itertools.chain", "itertools.starmap"}
MUT_METHODS = {"append", "extend", "insert", "pop", "popitem", "remove", "clear", "update", "setdefault", "add", "discard", "sort", "reverse",
               "difference_update", "intersection_update", "symmetric_difference_update", "appendleft", "popleft", "extendleft",
               "__setitem__", "__delitem__", "__iadd__", "__ior__"}
SCALARS = {"int", "float", "str", "bool", "None", "Optional", "Literal", "Union", "bytes", "complex", "'"}


def scalar_annotation(a):
    if a is None:
        return False
    names = {x.id for x in ast.walk(a) if isinstance(x, ast.Name)} | {x.attr for x in ast.walk(a) if isinstance(x, ast.Attribute)}
    names.discard("typing")
    return bool(names) and names <= SCALARS


class Types:
    """'immutable' | 'mutable' | 'param' (the caller's own object) | 'unknown' of an expression."""

    ORDER = {"immutable": 0, "unknown": 1, "param": 2, "mutable": 3}

    def __init__(self, prog):
        self.prog = prog

    def join(self, xs):
        return max(xs, key=self.ORDER.get, default="unknown")

    def of(self, e, sc, depth=0):
        if depth > 12 or e is None:
            return "unknown"
        if isinstance(e, (ast.Constant, ast.JoinedStr, ast.Compare)):
            return "immutable"
        if isinstance(e, ast.Tuple):
            return "immutable"
        if isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            return "mutable"
        if isinstance(e, ast.IfExp):
            return self.join([self.of(e.body, sc, depth + 1), self.of(e.orelse, sc, depth + 1)])
        if isinstance(e, ast.BoolOp):
            return self.join([self.of(v, sc, depth + 1) for v in e.values])
        if isinstance(e, ast.BinOp):
            return self.join([self.of(e.left, sc, depth + 1), self.of(e.right, sc, depth + 1)])
        if isinstance(e, ast.NamedExpr):
            return self.of(e.value, sc, depth + 1)
        if isinstance(e, ast.Call):
            r = self.prog.resolve(e.func, sc)
            if r.dotted in IMMUT_CALLS:
                return "immutable"
            if r.dotted in MUT_CALLS:
                return "mutable"
            if r.kind == "func":
                rets = [x.value for x in ast.walk(r.value.node) if isinstance(x, ast.Return) and x.value is not None]
                if not isinstance(r.value.node, ast.Lambda) and rets and depth < 4:
                    k = [self.of(x, self.prog_scope(r.value, x), depth + 2) for x in rets]
                    return self.join(["unknown" if x == "param" else x for x in k])
            return "unknown"
        if isinstance(e, ast.Name):
            s = sc.lookup_scope(e.id)
            if s is None or s.kind != "function":
                return "unknown"
            out = []
            for kind, n in s.binds[e.id]:
                if kind == "param":
                    if len(s.binds[e.id]) == 1:
                        out.append("immutable" if scalar_annotation(getattr(n, "annotation", None)) else "param")
                elif kind == "assign" and getattr(n, "value", None) is not None:
                    if any(isinstance(x, ast.Name) and x.id == e.id for x in ast.walk(n.value)) and isinstance(n.value, ast.Name):
                        continue
                    out.append(self.of(n.value, s, depth + 1))
                else:
                    out.append("unknown")
            return self.join(out)
        return "unknown"

    def prog_scope(self, f, node):
        return self.prog.scope_at(f.module, node) if node in f.module.parent_of else f


def self_name(f):
    ps = f.param_names()
    return ps[0] if ps else None


def setattr_name(fn, sc):
    """The callee is setattr / object.__setattr__, directly or through a local name."""
    if isinstance(fn, ast.Attribute):
        return fn.attr == "__setattr__"
    if isinstance(fn, ast.Name):
        if fn.id == "setattr":
            return True
        s = sc.lookup_scope(fn.id) if hasattr(sc, "lookup_scope") else None
        return s is not None and any(k == "assign" and setattr_name(getattr(n, "value", None), None) for k, n in s.binds.get(fn.id, []))
    return False


def attr_writes(prog, f):
    """(attribute, value expression or None, node, kind) written by a method on its own object."""
    me = self_name(f)
    for n in ast.walk(f.node):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                for x in ([t] if not isinstance(t, (ast.Tuple, ast.List)) else t.elts):
                    if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == me:
                        yield x.attr, (n.value if x is t else None), n, "assign"
                    elif isinstance(x, ast.Subscript) and is_self_attr(x.value, me):
                        yield x.value.attr, n.value, n, "mutate"
        elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Attribute) and isinstance(
                n.target.value, ast.Name) and n.target.value.id == me and n.value is not None:
            yield n.target.attr, n.value, n, "assign"
        elif isinstance(n, ast.AugAssign):
            t = n.target
            if is_self_attr(t, me):
                yield t.attr, n.value, n, "aug"
            elif isinstance(t, ast.Subscript) and is_self_attr(t.value, me):
                yield t.value.attr, n.value, n, "mutate"
        elif isinstance(n, ast.Delete):
            for t in n.targets:
                if isinstance(t, ast.Subscript) and is_self_attr(t.value, me):
                    yield t.value.attr, None, n, "mutate"
                elif is_self_attr(t, me):
                    yield t.attr, None, n, "del"
        elif isinstance(n, ast.Call):
            fn = n.func
            if setattr_name(fn, f) and len(n.args) >= 2:
                a = n.args[-3:] if len(n.args) >= 3 else [None, *n.args]
                tgt = n.args[0] if len(n.args) >= 3 else getattr(fn, "value", None)
                if isinstance(tgt, ast.Name) and tgt.id == me or (isinstance(tgt, ast.Call) and len(n.args) == 2):
                    if isinstance(a[-2], ast.Constant):
                        yield a[-2].value, a[-1], n, "assign"
                    else:
                        yield "*", a[-1], n, "assign"
            elif isinstance(fn, ast.Attribute) and fn.attr in MUT_METHODS and is_self_attr(fn.value, me):
                yield fn.value.attr, None, n, "mutate"


def is_self_attr(e, me):
    return isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == me


def dataclass_args(prog, cls):
    """Keyword arguments of the @dataclass decorator, or None."""
    for d in cls.node.decorator_list:
        d0 = d.func if isinstance(d, ast.Call) else d
        r = prog.resolve(d0, cls.parent)
        if r.dotted == "dataclasses.dataclass":
            out = {}
            if isinstance(d, ast.Call):
                for k in d.keywords:
                    out[k.arg] = k.value.value if isinstance(k.value, ast.Constant) else None
            return out
        if isinstance(d0, ast.Call):
            pass
        # functools.partial(dataclass, ...) style aliases
        if isinstance(d0, ast.Name):
            s = cls.parent.lookup_scope(d0.id)
            for kind, n in (s.binds[d0.id] if s else []):
                v = getattr(n, "value", None)
                if kind == "assign" and isinstance(v, ast.Call) and any(
                        prog.resolve(a, s).dotted == "dataclasses.dataclass" for a in v.args if isinstance(a, (ast.Name, ast.Attribute))):
                    return {k.arg: k.value.value if isinstance(k.value, ast.Constant) else None for k in v.keywords}
    return None


def fields(prog, cls):
    """Dataclass fields in order: (name, annotation, default, owner)."""
    out = {}
    for c in reversed(prog.mro(cls)):
        if dataclass_args(prog, c) is None:
            continue
        for s in c.node.body:
            if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and "ClassVar" not in ast.unparse(s.annotation):
                out[s.target.id] = (s.target.id, s.annotation, s.value, c)
    return list(out.values())


def reaching_values(prog, f, attr, policy=None):
    """Values the attribute may hold at the normal exit of a method: list of (expr, scope, node) (CFG based)."""
    cfg = CFG(prog, f, policy=policy, max_depth=3)
    me = self_name(f)

    def write(n):
        if n.kind == "assign" and n.extra and is_self_attr(n.extra[0], me) and n.extra[0].attr == attr:
            return n.extra[1]
        if n.kind == "call" and isinstance(n.ast, ast.Call):
            if setattr_name(n.ast.func, n.frame.scope) and len(n.ast.args) == 3 and isinstance(
                    n.ast.args[1], ast.Constant) and n.ast.args[1].value == attr:
                return n.ast.args[2]
        return None

    ws = {n: write(n) for n in cfg.nodes}
    ws = {n: v for n, v in ws.items() if v is not None}
    out = []
    for n, v in ws.items():
        nxt = [t for _, t in n.succ]
        seen = cfg.reach(nxt, stop=lambda m: m in ws and m is not n, follow_exc=False)
        if cfg.exit in seen:
            out.append((v, n.frame.scope, n))
    return out


def attrs_read(prog, cls, f, seen=None):
    """Attributes of the object read by a method, through its own properties and methods."""
    seen = seen if seen is not None else set()
    if f in seen:
        return set()
    seen.add(f)
    me, out = self_name(f), set()
    for n in ast.walk(f.node):
        if is_self_attr(n, me) and isinstance(n.ctx, ast.Load):
            m = prog.method(cls, n.attr)
            if m is not None:
                out |= attrs_read(prog, cls, m, seen)
            else:
                out.add(n.attr)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "getattr" and len(n.args) >= 2 and isinstance(
                n.args[0], ast.Name) and n.args[0].id == me:
            if isinstance(n.args[1], ast.Constant):
                out.add(n.args[1].value)
            else:
                out.add("*")
    return out
