"""C20: the JSON form of results, networks and tensors carries every public field under its own name."""
import ast

from sa.pycfg import CFG
from sa.pyclass import dataclass_args, fields
from sa.pydeps import Deps
from sa.pyprog import Program

TECHNIQUE = "partial evaluation of the JSON encoders per result class over the syntax tree (field coverage and type dispatch)"
NOTE = ("For every dataclass with a to_json method, the encoder it names is evaluated for that class (isinstance branches decided from the "
        "class hierarchy) and the resulting keys and values are compared with the public fields; encoders must handle the value types the "
        "field annotations admit (frozenset, Decimal costs, complex arrays, qubit indices, nested tensors). Values put in tags by callers "
        "are out of scope.")

SUPERS = {"builtins.frozenset": {"builtins.frozenset", "collections.abc.Set", "collections.abc.Iterable", "collections.abc.Collection",
                                 "typing.AbstractSet", "typing.FrozenSet", "typing.Iterable", "builtins.object"},
          "decimal.Decimal": {"decimal.Decimal", "numbers.Number", "builtins.object"},
          "builtins.complex": {"builtins.complex", "numbers.Complex", "numbers.Number", "builtins.object"},
          "cirq.Qubit": {"cirq.Qid", "cirq.LineQubit", "builtins.object"}}


class Encoder:

    def __init__(self, prog):
        self.prog = prog

    # ---- tri-state tests
    def test(self, e, f, typ):
        """typ: a class scope of the package or the dotted name of an external type."""
        prog = self.prog
        obj = f.param_names()[-1]
        if isinstance(e, ast.BoolOp):
            vs = [self.test(v, f, typ) for v in e.values]
            if isinstance(e.op, ast.And):
                return False if False in vs else True if all(v is True for v in vs) else None
            return True if True in vs else False if all(v is False for v in vs) else None
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            v = self.test(e.operand, f, typ)
            return None if v is None else not v
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and len(e.args) == 2 and isinstance(e.args[0], ast.Name):
            if e.func.id == "isinstance" and e.args[0].id == obj:
                ts = e.args[1].elts if isinstance(e.args[1], ast.Tuple) else [e.args[1]]
                out = [self.is_instance(typ, t, f) for t in ts]
                return True if True in out else None if None in out else False
            if e.func.id == "hasattr" and e.args[0].id == obj and isinstance(e.args[1], ast.Constant):
                if isinstance(typ, str):
                    return False if "json" in str(e.args[1].value) else None
                return prog.method(typ, e.args[1].value) is not None or any(x[0] == e.args[1].value for x in fields(prog, typ))
        if any(isinstance(x, ast.Constant) and isinstance(x.value, str) and x.value.startswith("cirq") for x in ast.walk(e)):
            return typ == "cirq.Qubit"
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.left, ast.Call) and ast.unparse(e.left) == f"type({obj})":
            r = prog.resolve(e.comparators[0], f)
            same = r.dotted == (typ if isinstance(typ, str) else typ.qual)
            return same if isinstance(e.ops[0], (ast.Is, ast.Eq)) else not same if isinstance(e.ops[0], (ast.IsNot, ast.NotEq)) else None
        return None

    def is_instance(self, typ, t, f):
        r = self.prog.resolve(t, f)
        if r.kind == "local":
            vs = [n.value for k, n in r.scope.binds[r.name] if k == "assign"]
            if len(vs) == 1 and isinstance(vs[0], ast.Tuple):
                out = [self.is_instance(typ, x, r.scope) for x in vs[0].elts]
                return True if True in out else None if None in out else False
        if r.dotted is None:
            return None
        if isinstance(typ, str):
            if r.kind == "class":
                return False
            return r.dotted in SUPERS.get(typ, {typ})
        if r.kind == "class":
            return r.value in self.prog.mro(typ)
        return False

    # ---- returns of default() for a type
    def returns(self, f, typ):
        """Return expressions reachable when the argument has the type: list of (expr or None)."""
        out = []

        def block(stmts):
            """True when control may fall through."""
            for s in stmts:
                if isinstance(s, ast.Return):
                    out.append(s.value)
                    return False
                if isinstance(s, ast.Raise):
                    out.append("raise")
                    return False
                if isinstance(s, ast.If):
                    v = self.test(s.test, f, typ)
                    a = block(s.body) if v is not False else False
                    b = block(s.orelse) if v is not True else False
                    if not (a or b):
                        return False
                elif isinstance(s, ast.Try):
                    if not block(s.body):
                        return False
                elif isinstance(s, ast.Match):
                    fall = self.match(s, f, typ, block)
                    if not fall:
                        return False
            return True

        if block(f.body):
            out.append(None)
        return out

    def match(self, s, f, typ, block):
        for c in s.cases:
            p = c.pattern
            v = None
            pats = p.patterns if isinstance(p, ast.MatchOr) else [p]
            vs = []
            for q in pats:
                if isinstance(q, ast.MatchAs) and q.pattern is not None:
                    q = q.pattern
                if isinstance(q, ast.MatchClass):
                    vs.append(self.is_instance(typ, q.cls, f))
                elif isinstance(q, ast.MatchAs):
                    vs.append(True)
                else:
                    vs.append(None)
            v = True if True in vs else None if None in vs else False
            if v is not False and c.guard is not None:
                g = self.test(c.guard, f, typ)
                v = g if v else (False if g is False else None)
            if v is False:
                continue
            fall = block(c.body)
            if v is True:
                return fall
        return True

    def default_of(self, cls):
        return self.prog.method(cls, "default")

    def parent_default(self, f):
        """default() reached by super() from a method."""
        cls = f.parent
        for b in self.prog.mro(cls)[1:]:
            m = self.prog.methods(b).get("default")
            if m is not None:
                return m
        return None

    def target(self, e, f):
        """(function, True) for X().default(obj) / super().default(obj) / X.default(self, obj) of the package; ('json', True) for the base."""
        if not (isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == "default"):
            return None
        v = e.func.value
        if isinstance(v, ast.Call):
            r = self.prog.resolve(v.func, f)
            if r.dotted == "builtins.super":
                return self.parent_default(f) or "json"
            if r.kind == "class":
                return self.default_of(r.value)
            if r.dotted and r.dotted.startswith("json"):
                return "json"
        r = self.prog.resolve(v, f)
        if r.kind == "class":
            return self.default_of(r.value)
        if r.dotted and r.dotted.startswith("json"):
            return "json"
        return None

    def handles(self, f, typ, depth=0):
        """Whether default() gives a JSON value for the type: True, False or None."""
        if depth > 6:
            return None
        out = []
        for r in self.returns(f, typ):
            if r == "raise":
                out.append(False)
            elif r is None:
                out.append(None)
            else:
                t = self.target(r, f)
                if t == "json":
                    out.append(False)
                elif t is not None:
                    out.append(self.handles(t, typ, depth + 1))
                else:
                    out.append(True)
        if out and all(x is False for x in out):
            return False
        return True if all(x is True for x in out) else None

    def keys(self, f, cls, depth=0):
        """{key: value expression} for an instance of the class, or None when it cannot be told; '*' means every field."""
        if depth > 6:
            return None
        res = []
        for r in self.returns(f, cls):
            if r == "raise" or r is None:
                continue
            k = self.obj_keys(r, f, cls, depth)
            if k is not None:
                res.append(k)
        if not res:
            return None
        if len(res) == 1:
            return res[0]
        common = set(res[0])
        for r in res[1:]:
            common &= set(r)
        return {k: res[0][k] for k in common}

    def obj_keys(self, e, f, cls, depth=0):
        prog = self.prog
        t = self.target(e, f)
        if t == "json":
            return {}
        if t is not None:
            return self.keys(t, cls, depth + 1)
        if isinstance(e, ast.Name):
            vs = [n for k, n in f.binds.get(e.id, [])]
            if len(vs) == 1 and isinstance(vs[0], ast.Assign):
                out = self.obj_keys(vs[0].value, f, cls, depth + 1)
                if out is None:
                    return None
                out = dict(out)
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Assign):
                        for tg in n.targets:
                            if isinstance(tg, ast.Subscript) and isinstance(tg.value, ast.Name) and tg.value.id == e.id and isinstance(
                                    tg.slice, ast.Constant):
                                out[tg.slice.value] = (n.value, f)
                    elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(
                            n.func.value, ast.Name) and n.func.value.id == e.id:
                        if n.func.attr == "update":
                            for a in n.args:
                                o = self.obj_keys(a, f, cls, depth + 1)
                                if o is None:
                                    return None
                                out.update(o)
                            for k in n.keywords:
                                if k.arg:
                                    out[k.arg] = (k.value, f)
                                else:
                                    o = self.obj_keys(k.value, f, cls, depth + 1)
                                    if o is None:
                                        return None
                                    out.update(o)
                        elif n.func.attr in ("pop", "__delitem__") and n.args and isinstance(n.args[0], ast.Constant):
                            out.pop(n.args[0].value, None)
                    elif isinstance(n, ast.Delete):
                        for tg in n.targets:
                            if isinstance(tg, ast.Subscript) and isinstance(tg.value, ast.Name) and tg.value.id == e.id and isinstance(
                                    tg.slice, ast.Constant):
                                out.pop(tg.slice.value, None)
                return out
            return None
        if isinstance(e, ast.Dict):
            out = {}
            for k, v in zip(e.keys, e.values):
                if k is None:
                    o = self.obj_keys(v, f, cls, depth + 1)
                    if o is None:
                        return None
                    out.update(o)
                elif isinstance(k, ast.Constant):
                    out[k.value] = (v, f)
                else:
                    return None
            return out
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.BitOr):
            a, b = self.obj_keys(e.left, f, cls, depth + 1), self.obj_keys(e.right, f, cls, depth + 1)
            return None if a is None or b is None else {**a, **b}
        if isinstance(e, (ast.DictComp, ast.GeneratorExp, ast.ListComp)):
            return self.comp_keys(e, f, cls)
        if isinstance(e, ast.Call):
            d = prog.resolve(e.func, f)
            if d.dotted in ("dataclasses.asdict", "builtins.vars"):
                return {x[0]: None for x in fields(prog, cls)}
            if d.dotted == "builtins.dict":
                out = {}
                for a in e.args:
                    o = self.obj_keys(a, f, cls, depth + 1)
                    if o is None:
                        return None
                    out.update(o)
                for k in e.keywords:
                    if k.arg:
                        out[k.arg] = (k.value, f)
                    else:
                        o = self.obj_keys(k.value, f, cls, depth + 1)
                        if o is None:
                            return None
                        out.update(o)
                return out
            if d.kind == "func":
                rs = [n.value for n in ast.walk(d.value.node) if isinstance(n, ast.Return) and n.value is not None]
                if len(rs) == 1:
                    return self.obj_keys(rs[0], d.value, cls, depth + 1)
            if isinstance(e.func, ast.Attribute) and e.func.attr == "copy":
                return self.obj_keys(e.func.value, f, cls, depth + 1)
            return None
        if isinstance(e, ast.Attribute) and e.attr == "__dict__":
            return {x[0]: None for x in fields(prog, cls)}
        return None

    def comp_keys(self, e, f, cls):
        it = e.generators[0].iter
        src = it
        while isinstance(src, ast.Call) and isinstance(src.func, ast.Attribute) and src.func.attr in ("items", "keys"):
            src = src.func.value
        names = None
        if isinstance(src, ast.Call) and self.prog.resolve(src.func, f).dotted in ("dataclasses.fields", "builtins.vars", "dataclasses.asdict"):
            names = [x[0] for x in fields(self.prog, cls)]
        elif isinstance(src, ast.Attribute) and src.attr in ("__dict__", "__dataclass_fields__"):
            names = [x[0] for x in fields(self.prog, cls)]
        elif isinstance(src, (ast.Tuple, ast.List)) and all(isinstance(x, ast.Constant) for x in src.elts):
            names = [x.value for x in src.elts]
        elif isinstance(src, ast.Name):
            s = f.lookup_scope(src.id)
            vs = [getattr(n, "value", None) for k, n in s.binds[src.id]] if s is not None else []
            if len(vs) == 1 and isinstance(vs[0], (ast.Tuple, ast.List)) and all(isinstance(x, ast.Constant) for x in vs[0].elts):
                names = [x.value for x in vs[0].elts]
        if names is None:
            return None
        drop = {c.value for g in e.generators for i in g.ifs for c in ast.walk(i) if isinstance(c, ast.Constant) and isinstance(c.value, str)}
        return {n: None for n in names if n not in drop}


def attr_reads(e, obj):
    return {x.attr for x in ast.walk(e) if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == obj}


def expand_locals(e, f, depth=0):
    """The expression and what its local names stand for."""
    out = [e]
    if depth > 4:
        return out
    for x in ast.walk(e):
        if isinstance(x, ast.Name):
            for k, n in f.binds.get(x.id, []):
                if k == "assign" and getattr(n, "value", None) is not None and n.value is not e:
                    out += expand_locals(n.value, f, depth + 1)
    return out


def run(c):
    prog = Program()
    enc = Encoder(prog)
    n_cls = 0
    for q, cls in prog.classes.items():
        if dataclass_args(prog, cls) is None:
            continue
        tj = prog.method(cls, "to_json")
        if tj is None:
            continue
        n_cls += 1
        pub = [x for x in fields(prog, cls) if not x[0].startswith("_")]
        d, keys, where = None, None, tj.where()
        calls = [(x, sc) for x, sc in prog.calls_in(tj) if (prog.resolve(x.func, sc).dotted or "").startswith("json.dump")]
        if len(calls) == 1:
            call, sc = calls[0]
            me = tj.param_names()[0]
            arg = call.args[0] if call.args else next((k.value for k in call.keywords if k.arg == "obj"), None)
            ecls = next((k.value for k in call.keywords if k.arg == "cls"), None)
            dfn = next((k.value for k in call.keywords if k.arg == "default"), None)
            if ecls is not None:
                r = prog.resolve(ecls, sc)
                if r.kind == "class":
                    d = enc.default_of(r.value)
            elif dfn is not None:
                r = prog.resolve(dfn, sc)
                if r.kind == "func":
                    d = r.value
                elif isinstance(dfn, ast.Attribute) and isinstance(dfn.value, ast.Call):
                    k = prog.resolve(dfn.value.func, sc)
                    d = enc.default_of(k.value) if k.kind == "class" else None
            if d is None and ecls is None and dfn is None:
                c.instance("field", f"{q}: plain json.dumps")
                if isinstance(arg, ast.Name) and arg.id == me:
                    c.violation("encoder", q, where, f"{q}.to_json uses the default JSON encoder, which cannot encode the object")
                    continue
            if isinstance(arg, ast.Name) and arg.id == me:
                if d is not None:
                    keys, where = enc.keys(d, cls), d.where()
            elif arg is not None:
                keys = enc.obj_keys(arg, tj, cls)
        if keys is None:
            c.note(f"{q}: the encoder could not be evaluated")
            continue
        obj_names = {"self", "obj"} | ({d.param_names()[-1]} if d is not None else set())
        allf = {x[0] for x in fields(prog, cls)}
        for name, ann, _, _ in pub:
            c.instance("field", f"{q}.{name}")
            if name not in keys:
                c.violation("field", f"{q}.{name}", where, f"the JSON form of {q} has no '{name}'")
                continue
            if keys[name] is None:
                continue
            v, vf = keys[name]
            objn = {n for n in [*obj_names, vf.param_names()[-1] if vf.param_names() else "obj"]}
            exprs = expand_locals(v, vf)
            reads = set()
            for o in objn:
                for x in exprs:
                    reads |= attr_reads(x, o)
            if name not in reads and reads & allf:
                c.violation("field", f"{q}.{name}:value", where, f"the JSON key '{name}' of {q} is filled from {sorted(reads & allf)}")
                continue
            if name not in reads and isinstance(v, ast.Constant):
                c.violation("field", f"{q}.{name}:value", where, f"the JSON key '{name}' of {q} is a constant")
                continue
            for x in exprs:
                bad = partial_value(x, name, objn)
                if bad:
                    c.violation("field", f"{q}.{name}:value", where, f"the JSON key '{name}' of {q} carries only a part of the field ({bad})")
        # value types
        if d is None:
            continue
        need = {}
        for name, ann, _, _ in pub:
            t = ast.unparse(ann)
            if name not in keys:
                continue
            if "FrozenSet" in t or "frozenset" in t:
                need.setdefault("builtins.frozenset", name)
            if "Index" in t:
                need.setdefault("cirq.Qubit", name)
            if "cost" in name:
                need.setdefault("decimal.Decimal", name)
            if "Matrix" in t or "Array" in t:
                need.setdefault("builtins.complex", name)
            for k in prog.classes.values():
                if dataclass_args(prog, k) is not None and k is not cls and k.name in {
                        x.id for x in ast.walk(ann) if isinstance(x, ast.Name)}:
                    need.setdefault(k, name)
        for t, name in need.items():
            label = t if isinstance(t, str) else t.qual
            c.instance("value-type", f"{q}.{name}: {label}")
            if isinstance(t, str):
                if enc.handles(d, t) is False:
                    c.violation("value-type", f"{q}:{label}", d.where(), f"the encoder of {q} cannot encode {label} (field '{name}')")
            else:
                k2 = enc.keys(d, t)
                if enc.handles(d, t) is False:
                    c.violation("value-type", f"{q}:{label}", d.where(), f"the encoder of {q} cannot encode {label} (field '{name}')")
                elif k2 is not None:
                    for x in fields(prog, t):
                        if not x[0].startswith("_") and x[0] not in k2:
                            c.violation("field", f"{q}.{name}.{x[0]}", d.where(), f"{label} inside the JSON form of {q} has no '{x[0]}'")
    dump_rule(c, prog)
    c.analysed["classes"] = n_cls
    c.require("field", 15)
    c.require("value-type", 5)
    c.assume("json.dumps writes every key of the dictionaries it is given")


def partial_value(e, name, objn):
    """Slices, filters and wrong None tests of the field."""
    def is_field(x):
        return isinstance(x, ast.Attribute) and x.attr == name and isinstance(x.value, ast.Name) and x.value.id in objn
    for x in ast.walk(e):
        if isinstance(x, ast.Subscript) and is_field(x.value) and not (isinstance(x.slice, ast.Slice) and x.slice.lower is None and
                                                                      x.slice.upper is None):
            return ast.unparse(x)
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("filter", "len", "min", "max", "next", "sum",
                                                                                     "bool", "islice") and any(is_field(a) for a in x.args):
            return ast.unparse(x)
        if isinstance(x, (ast.ListComp, ast.GeneratorExp, ast.SetComp)) and any(is_field(g.iter) and g.ifs for g in x.generators):
            return ast.unparse(x)
        if isinstance(x, ast.IfExp) and isinstance(x.test, ast.Compare) and is_field(x.test.left) and isinstance(
                x.test.comparators[0], ast.Constant) and x.test.comparators[0].value is None:
            isnone = isinstance(x.test.ops[0], (ast.Is, ast.Eq))
            lost = x.orelse if isnone else x.body
            if isinstance(lost, ast.Constant):
                return ast.unparse(x)
    return None


def dump_rule(c, prog):
    """dump_results(format json) writes the network and every result."""
    f = prog.functions.get("tnco.app.app.dump_results")
    if f is None:
        c.note("dump_results not found")
        return
    ps = f.param_names()
    tn, res = ps[0], ps[1]
    c.instance("dump", f.qual)
    cfg = CFG(prog, f, policy=lambda r, call, fr: getattr(r, "kind", None) == "func" and r.value.module.name == "tnco.app.app", max_depth=4)
    deps = Deps(prog, cfg)
    tn_ok = res_ok = False
    n = 0
    for node in cfg.nodes:
        if node.kind != "call" or not isinstance(node.ast, ast.Call):
            continue
        fn = node.ast.func
        if isinstance(fn, ast.Attribute) and fn.attr == "to_json":
            n += 1
            v = fn.value
            if deps.exact(v, node.frame) == tn:
                tn_ok = True
            elif res in deps.of(v, node.frame):
                res_ok = True
                bad = narrowing(prog, cfg, v, node.frame, res)
                if bad:
                    c.violation("dump", f"{f.qual}:res", f.where(), f"only a part of the results is written ({bad})")
            elif isinstance(v, ast.Name):
                # parameter of a lambda handed to map(), or of a comprehension
                srcs = iter_sources(prog, cfg, v, node.frame)
                for s, fr in srcs:
                    if res in deps.of(s, fr):
                        res_ok = True
                        bad = narrow_expr(prog, s, fr)
                        if bad:
                            c.violation("dump", f"{f.qual}:res", f.where(), f"only a part of the results is written ({bad})")
                    if tn in deps.of(s, fr):
                        tn_ok = True
    maps = [x for x, sc in prog.calls_in(f) if any(isinstance(a, ast.Call) and isinstance(a.func, ast.Attribute) and a.func.attr == "methodcaller"
                                                   for a in x.args)]
    if n == 0 or maps:
        c.note("dump_results: JSON assembly not recognised")
        return
    if not tn_ok:
        c.violation("dump", f"{f.qual}:tn", f.where(), "the JSON output does not contain the tensor network")
    if not res_ok:
        c.violation("dump", f"{f.qual}:res", f.where(), "the JSON output does not contain the results")


def iter_sources(prog, cfg, name, fr):
    out = []
    s = fr.scope.lookup_scope(name.id)
    if s is None:
        return out
    f = fr.frame_of(s)
    if f is not None and name.id in f.binds:
        out.append(f.binds[name.id])
    for k, n in s.binds[name.id]:
        if k == "for":
            out.append((n.iter, f or fr))
        elif k == "param" and isinstance(s.node, ast.Lambda):
            # the call the lambda is given to
            p = s.module.parent_of.get(s.node)
            if isinstance(p, ast.Call):
                out += [(a, (f or fr).parent or fr) for a in p.args if a is not s.node]
    return out


def narrow_expr(prog, e, fr):
    for x in ast.walk(e):
        if isinstance(x, ast.Subscript) and not (isinstance(x.slice, ast.Slice) and x.slice.lower is None and x.slice.upper is None):
            return ast.unparse(x)
        if isinstance(x, ast.Call):
            d = prog.resolve(x.func, fr.scope).dotted
            if d in ("builtins.filter", "itertools.islice", "more_itertools.take", "builtins.min", "builtins.max", "more_itertools.first",
                     "itertools.takewhile"):
                return ast.unparse(x)
        if isinstance(x, ast.comprehension) and x.ifs:
            return "filtered comprehension"
    return None


def narrowing(prog, cfg, v, fr, res):
    b = narrow_expr(prog, v, fr)
    if b:
        return b
    if isinstance(v, ast.Name):
        for s, f in iter_sources(prog, cfg, v, fr):
            b = narrow_expr(prog, s, f)
            if b:
                return b
    return None
