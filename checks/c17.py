"""C17: equal objects hash equally; the state equality depends on is immutable; views of internal containers are read-only."""
import ast

from sa.pyclass import (MUT_METHODS, Types, attr_writes, attrs_read, dataclass_args, fields, is_self_attr, reaching_values, scalar_annotation,
                        self_name)
from sa.pyprog import Program

TECHNIQUE = "class-level effect and attribute-dependence analysis (hash/eq fields, ownership of stored and returned containers)"
NOTE = ("For every class of the Python package: fields read by __hash__ are fields compared by __eq__ (and exactly the hash of the set where "
        "equality with built-in sets is claimed), stored state is converted to immutable values on every path of the constructor, no method "
        "changes it, and no method returns an internal mutable container unwrapped. Mutable values nested inside stored tuples are not "
        "followed; native classes are unhashable (no __hash__ binding).")

CTORS = {"__init__", "__post_init__", "__new__", "__setstate__", "__init_subclass__"}
# classes that present themselves as immutable; attributes documented as free-form dictionaries / arrays are left out
IMMUTABLE = {
    "tnco.ordered_frozenset.OrderedFrozenSet": set(),
    "tnco.app.tn.Tensor": {"tags", "array"},
    "tnco.app.tn.TensorNetwork": {"tags", "_dims"},
    "tnco.app.circuit.sampling.SamplingIntermediateState": set(),
    "tnco.ctree.ContractionTree": set(),
    "tnco.optimize.finite_width.cost_model.SimpleCostModel": set(),
    "tnco.optimize.infinite_memory.cost_model.SimpleCostModel": set(),
}
FROZEN = {"tnco.app.tn.Tensor", "tnco.app.tn.TensorNetwork", "tnco.app.app.BaseContractionResults", "tnco.app.app.BaseOptimizer",
          "tnco.app.circuit.sampling.SamplingIntermediateState", "tnco.app.circuit.sampling.Sampler",
          "tnco.app.finite_width.sa.ContractionResults", "tnco.app.infinite_memory.sa.ContractionResults"}
SETS = {"builtins.set", "builtins.frozenset", "collections.abc.Set", "typing.AbstractSet"}


class Analysis:

    def __init__(self, c):
        self.c, self.prog = c, Program()
        self.types = Types(self.prog)

    def run(self):
        n = 0
        for q, cls in self.prog.classes.items():
            if q.startswith("tnco.testing") or cls.parent.kind != "module":
                continue
            n += 1
            self.hash_rule(q, cls)
            self.frozen_rule(q, cls)
            self.state_rule(q, cls)
            self.view_rule(q, cls)
        self.c.analysed["classes"] = n
        self.c.require("class-state", 5)

    # ---- hash / eq
    def hash_rule(self, q, cls):
        c, prog = self.c, self.prog
        own = prog.methods(cls)
        eq, hs = own.get("__eq__"), own.get("__hash__")
        dc = dataclass_args(prog, cls)
        alias = [n for k, n in cls.binds.get("__hash__", []) if k == "assign"]
        gen_hash = None
        if dc is not None and hs is None and not alias:
            has_eq = dc.get("eq", True) is not False
            if dc.get("unsafe_hash") or (has_eq and dc.get("frozen")):
                gen_hash = [f for f in fields(prog, cls)]
        if eq is None and not (dc is not None and dc.get("eq", True) is not False):
            eq = prog.method(cls, "__eq__")
        if hs is None and not alias and gen_hash is None:
            return
        c.instance("hash-eq", q)
        where = f"{cls.module.path.name}:{cls.node.lineno}"
        where = cls.where() if hasattr(cls, "where") else where
        if alias:
            v = getattr(alias[-1], "value", None)
            if isinstance(v, ast.Constant) and v.value is None:
                return
            if eq is not None:
                c.violation("hash-eq", f"{q}:alias", where, f"{q} compares by value but takes its hash from {ast.unparse(v)}")
            return
        if eq is None:
            # dataclass-generated equality over the compared fields
            if dc is None or dc.get("eq", True) is False:
                return
            cmp_fields = {f[0] for f in fields(prog, cls) if not self.flag(f, "compare", False)}
            if hs is not None:
                read = self.expand(cls, attrs_read(prog, cls, hs), cmp_fields)
                for a in sorted(read - cmp_fields):
                    c.violation("hash-eq", f"{q}:{a}", where, f"the hash of {q} depends on '{a}', which its equality ignores")
            else:
                for f in fields(prog, cls):
                    if f[0] not in cmp_fields and self.flag(f, "hash", True):
                        c.violation("hash-eq", f"{q}:{f[0]}", where, f"the hash of {q} depends on '{f[0]}', which its equality ignores")
            return
        exact, loose, builtin = self.compared(cls, eq)
        if hs is not None:
            read = self.expand(cls, attrs_read(prog, cls, hs), exact)
        else:
            read = {f[0] for f in gen_hash if not self.flag(f, "compare", False)}
        if not exact and not loose:
            c.note(f"{q}: equality not recognised")
            return
        for a in sorted(read - exact):
            c.violation("hash-eq", f"{q}:{a}", where, f"the hash of {q} depends on '{a}', which its equality does not compare exactly")
        if hs is not None and builtin:
            form = self.hash_form(cls, hs)
            if form is not None and form not in builtin:
                c.violation("hash-eq", f"{q}:builtin", where,
                            f"{q} equals built-in sets but its hash is hash({form}) instead of the hash of the set")
        if hs is not None:
            self.order_rule(q, cls, hs, where)

    def flag(self, f, name, val):
        d = f[2]
        return isinstance(d, ast.Call) and any(k.arg == name and isinstance(k.value, ast.Constant) and k.value.value is val for k in d.keywords)

    def compared(self, cls, eq):
        """(attributes compared with ==, attributes compared otherwise, attributes compared with a built-in set)."""
        prog = self.prog
        exact, loose, builtin = set(), set(), set()
        todo, seen = [eq], set()
        while todo:
            f = todo.pop()
            if f in seen:
                continue
            seen.add(f)
            me = self_name(f)
            other = f.param_names()[1] if len(f.param_names()) > 1 else None
            for n in ast.walk(f.node):
                if isinstance(n, ast.Call) and is_self_attr(n.func, me):
                    m = prog.method(cls, n.func.attr)
                    if m is not None:
                        todo.append(m)
                if isinstance(n, ast.Compare):
                    xs = [n.left, *n.comparators]
                    for op, (a, b) in zip(n.ops, zip(xs, xs[1:])):
                        for x, y in ((a, b), (b, a)):
                            for k in self.self_attrs(cls, x, me):
                                if isinstance(op, (ast.Eq, ast.NotEq)) and is_self_attr(x, me) or (
                                        isinstance(op, (ast.Eq, ast.NotEq)) and isinstance(x, ast.Tuple)) or (
                                            isinstance(op, (ast.Eq, ast.NotEq)) and isinstance(x, ast.Call) and isinstance(
                                                x.func, ast.Attribute)):
                                    if isinstance(y, ast.Name) and y.id == other:
                                        builtin.add(f"self.{k}")
                                        exact.add(k)
                                    elif any(isinstance(z, ast.Name) and z.id == other for z in ast.walk(y)):
                                        exact.add(k)
                                else:
                                    loose.add(k)
                # getattr(self, x) == getattr(other, x) for x in (...)
                if isinstance(n, ast.Constant) and isinstance(n.value, str) and any(
                        isinstance(z, ast.Name) and z.id == "getattr" for z in ast.walk(f.node)):
                    m = prog.method(cls, n.value)
                    exact |= attrs_read(prog, cls, m) if m is not None else {n.value}
            # equality delegated to the set operations of the stored set
        return exact, loose - exact, builtin

    def self_attrs(self, cls, x, me):
        out = set()
        for n in ast.walk(x):
            if is_self_attr(n, me):
                m = self.prog.method(cls, n.attr)
                out |= attrs_read(self.prog, cls, m) if m is not None else {n.attr}
        return out

    def expand(self, cls, read, exact, depth=0):
        """Replace cached attributes (assigned only from compared ones) by what they are computed from."""
        out = set()
        for a in read:
            if a in exact or depth > 3:
                out.add(a)
                continue
            srcs, ok = set(), False
            for m in self.prog.methods(cls).values():
                me = self_name(m)
                for at, v, n, kind in attr_writes(self.prog, m):
                    if at == a and v is not None and kind == "assign":
                        names = {x.id for x in ast.walk(v) if isinstance(x, ast.Name)}
                        s = {x.attr for x in ast.walk(v) if is_self_attr(x, me) and not (isinstance(x.ctx, ast.Store))}
                        if isinstance(v, ast.Constant):
                            ok = True
                        elif s and not (names & set(m.param_names()[1:])):
                            srcs |= s
                            ok = True
                        else:
                            srcs.add(a)
            # a hash cached from compared attributes is fine; a container derived from them (say, their order) is its own state
            if ok and a not in srcs and srcs and srcs <= exact and "hash" in a:
                out |= srcs
            else:
                out.add(a)
        return out

    def hash_form(self, cls, f, depth=0):
        """What __hash__ hashes, as text; None when it cannot be told."""
        rets = [n.value for n in ast.walk(f.node) if isinstance(n, ast.Return) and n.value is not None]
        if len(rets) != 1:
            return None
        return self.hash_expr(cls, f, rets[0], depth)

    def hash_expr(self, cls, f, e, depth=0):
        me = self_name(f)
        if depth > 5:
            return None
        if isinstance(e, ast.Name):
            vs = [n.value for k, n in f.binds.get(e.id, []) if k == "assign"]
            return self.hash_expr(cls, f, vs[0], depth + 1) if len(vs) == 1 else None
        if isinstance(e, ast.Call):
            r = self.prog.resolve(e.func, f)
            if r.dotted == "builtins.hash" and e.args:
                return self.value_text(cls, f, e.args[0])
            if isinstance(e.func, ast.Attribute) and e.func.attr == "__hash__":
                return self.value_text(cls, f, e.func.value)
            if is_self_attr(e.func, me):
                m = self.prog.method(cls, e.func.attr)
                return self.hash_form(cls, m, depth + 1) if m is not None else None
            if isinstance(e.func, ast.Attribute) and e.func.attr == "_hash":
                return None
            return ast.unparse(e)
        if isinstance(e, (ast.BinOp, ast.UnaryOp, ast.Constant, ast.Tuple)):
            return ast.unparse(e)
        return None

    def value_text(self, cls, f, e, depth=0):
        me = self_name(f)
        if depth > 5:
            return None
        if isinstance(e, ast.Name):
            vs = [n.value for k, n in f.binds.get(e.id, []) if k == "assign"]
            return self.value_text(cls, f, vs[0], depth + 1) if len(vs) == 1 else None
        if is_self_attr(e, me):
            m = self.prog.method(cls, e.attr)
            if m is not None:
                rets = [n.value for n in ast.walk(m.node) if isinstance(n, ast.Return) and n.value is not None]
                return self.value_text(cls, m, rets[0], depth + 1) if len(rets) == 1 else None
            return f"self.{e.attr}"
        if isinstance(e, ast.Call):
            r = self.prog.resolve(e.func, f)
            if r.dotted == "builtins.frozenset" and len(e.args) == 1:
                x = e.args[0]
                if isinstance(x, ast.Name) and x.id == me or is_self_attr(x, me):
                    # frozenset of the elements, whatever attribute keeps them
                    return self.set_attr(cls) or ast.unparse(e)
            if is_self_attr(e.func, me):
                m = self.prog.method(cls, e.func.attr)
                rets = [n.value for n in ast.walk(m.node) if isinstance(n, ast.Return) and n.value is not None] if m is not None else []
                return self.value_text(cls, m, rets[0], depth + 1) if len(rets) == 1 else None
        return ast.unparse(e)

    def set_attr(self, cls):
        eq = self.prog.method(cls, "__eq__")
        b = self.compared(cls, eq)[2] if eq is not None else set()
        return next(iter(sorted(b)), None)

    def order_rule(self, q, cls, hs, where):
        """tuple(set attribute) inside __hash__ depends on iteration order."""
        me = self_name(hs)
        for n in ast.walk(hs.node):
            if isinstance(n, ast.Call) and n.args and is_self_attr(n.args[0], me):
                r = self.prog.resolve(n.func, hs)
                if r.dotted in ("builtins.tuple", "builtins.list", "builtins.str", "builtins.repr", "builtins.iter"):
                    vals = [self.prog.resolve(v.func, m).dotted
                            for m in self.prog.methods(cls).values()
                            for a, v, _, k in attr_writes(self.prog, m) if a == n.args[0].attr and isinstance(v, ast.Call)]
                    if any(v in SETS for v in vals):
                        self.c.violation("hash-eq", f"{q}:order", where, f"the hash of {q} depends on the iteration order of a set")

    # ---- frozen
    def frozen_rule(self, q, cls):
        dc = dataclass_args(self.prog, cls)
        if q in FROZEN or (dc is not None and dc.get("frozen")):
            self.c.instance("frozen", q)
        if q in FROZEN and dc is not None and not dc.get("frozen"):
            if not any(n in cls.binds for n in ("__setattr__",)):
                self.c.violation("frozen", q, cls.where(), f"the fields of {q} can be assigned after construction (dataclass is not frozen)")

    # ---- stored state
    def state_rule(self, q, cls):
        if q not in IMMUTABLE:
            return
        c, prog, free = self.c, self.prog, IMMUTABLE[q]
        methods = prog.methods(cls)
        ctors = [m for n, m in methods.items() if n in CTORS]
        attrs = set()
        for m in ctors:
            attrs |= {a for a, *_ in attr_writes(prog, m)}
        flds = {f[0]: f for f in fields(prog, cls)}
        # fields of a dataclass are the caller's objects unless converted
        dc = dataclass_args(prog, cls)
        gen_init = dc is not None and dc.get("init", True) is not False
        for a in sorted(attrs | (set(flds) if gen_init else set())):
            if a in free or a == "*":
                continue
            c.instance("class-state", f"{q}.{a}")
            got = []
            for m in ctors:
                got += [(v, sc, n) for v, sc, n in reaching_values(prog, m, a)]
            if gen_init and a in flds and not any(a in {x for x, *_ in attr_writes(prog, m)} for m in ctors):
                if not scalar_annotation(flds[a][1]):
                    c.violation("class-state", f"{q}.{a}", cls.where(), f"{q} stores the caller's '{a}' without converting it")
                continue
            if gen_init and a in flds and got and not scalar_annotation(flds[a][1]) and all(self.raw_field(v, sc, a) for v, sc, _ in got):
                c.violation("class-state", f"{q}.{a}", cls.where(), f"{q} stores the caller's '{a}' without converting it")
                continue
            for v, sc, n in got:
                k = self.types.of(v, sc)
                if k == "mutable" and not a.startswith("_"):  # private ones: see read-only-view
                    c.violation("class-state", f"{q}.{a}", f"{cls.where()}", f"{q} keeps '{a}' in a mutable object ({ast.unparse(v)[:60]})")
                elif k == "param":
                    c.violation("class-state", f"{q}.{a}", f"{cls.where()}", f"{q} stores the caller's object as '{a}'")
        # nobody changes it later
        for name, m in methods.items():
            if name in CTORS:
                continue
            ps = set(m.param_names()[1:])
            for a, v, n, kind in attr_writes(prog, m):
                if kind == "assign" and v is not None and a in attrs:
                    names = {x.id for x in ast.walk(v) if isinstance(x, ast.Name)}
                    if not (names & ps) and not self.is_setter(m):
                        continue  # computed from the object itself: a cache
                if a in attrs or a == "*":
                    c.violation("class-state", f"{q}.{a}:{name}", m.where(), f"{q}.{name} changes the state '{a}' of an immutable object")
        for name, b in cls.binds.items():
            for k, n in b:
                if k == "def" and any(isinstance(d, ast.Attribute) and d.attr == "setter" for d in n.decorator_list):
                    c.violation("class-state", f"{q}.{name}:setter", cls.where(), f"{q}.{name} can be assigned")

    def raw_field(self, v, sc, a, depth=0):
        if isinstance(v, ast.Attribute) and isinstance(v.value, ast.Name):
            return v.attr == a
        if isinstance(v, ast.Name) and depth < 5 and hasattr(sc, "binds"):
            vs = [getattr(n, "value", None) for k, n in sc.binds.get(v.id, []) if k == "assign"]
            return len(vs) == 1 and len(sc.binds[v.id]) == 1 and self.raw_field(vs[0], sc, a, depth + 1)
        return False

    def is_setter(self, m):
        return any(isinstance(d, ast.Attribute) and d.attr == "setter" for d in m.node.decorator_list)

    # ---- returned containers
    def view_rule(self, q, cls):
        if q not in IMMUTABLE and q not in FROZEN and not q.endswith(".Optimizer"):
            return
        c, prog = self.c, self.prog
        methods = prog.methods(cls)
        mutable = {}
        for m in methods.values():
            for a, v, n, kind in attr_writes(prog, m):
                if kind == "assign" and v is not None and self.types.of(v, m) == "mutable":
                    if m.name not in CTORS or any(x[0] is v for x in reaching_values(prog, m, a)):
                        mutable[a] = v
        for name, m in methods.items():
            if name.startswith("__") and name not in ("__getitem__", "__iter__", "__call__"):
                continue
            if name.startswith("_"):
                continue
            rets = [n.value for n in ast.walk(m.node) if isinstance(n, ast.Return) and n.value is not None]
            c.instance("read-only-view", f"{q}.{name}")
            me = self_name(m)
            cached = any((prog.resolve(d.func if isinstance(d, ast.Call) else d, cls).dotted or "") in (
                "functools.cached_property", "functools.lru_cache", "functools.cache") for d in getattr(m.node, "decorator_list", []))
            for r in rets:
                if cached and self.types.of(r, m) == "mutable":
                    c.violation("read-only-view", f"{q}.{name}", m.where(), f"{q}.{name} caches and returns a mutable object")
                a = self.aliases(m, r, me)
                if a in mutable:
                    c.violation("read-only-view", f"{q}.{name}", m.where(),
                                f"{q}.{name} returns the internal mutable '{a}' ({ast.unparse(mutable[a])[:40]}...)")
        if q == "tnco.ctree.ContractionTree" and "dims" in methods:
            m = methods["dims"]
            rets = [n.value for n in ast.walk(m.node) if isinstance(n, ast.Return) and n.value is not None]
            c.instance("read-only-view", q + ".dims (mapping)")

    def aliases(self, m, e, me, depth=0):
        if depth > 5:
            return None
        if is_self_attr(e, me):
            return e.attr
        if isinstance(e, ast.Name):
            vs = [n.value for k, n in m.binds.get(e.id, []) if k == "assign"]
            if len(vs) == 1:
                return self.aliases(m, vs[0], me, depth + 1)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "getattr" and len(e.args) >= 2 and isinstance(
                e.args[1], ast.Constant):
            return e.args[1].value
        return None


def run(c):
    c.assume("hash and equality of the stored values themselves are consistent")
    Analysis(c).run()
