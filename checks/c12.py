"""C12: a pickled object is rebuilt with everything that determines its later behaviour."""
import ast

from sa.pyprog import Program
from sa.pysym import Sym, mentions, principal

TECHNIQUE = "symbolic evaluation of the pickling round trip (reduce tuple -> rebuild function -> constructor) to value terms, compared slot by slot"
NOTE = ("For every Python class that customises pickling, the terms saved by __reduce__ are pushed through the rebuild function and the "
        "constructor, and every attribute and native argument the constructor sets from an option must come back from the slot it was saved "
        "from; for every cost model, __eq__ compares every attribute set from a constructor option. Values are compared up to re-encoding "
        "(conversions, index-by-index maps).")

ALSO = {"tnco.ctree.ContractionTree", "tnco.bitset.Bitset"}
ATTRS = {"nodes", "positions", "__get_core__"}
NATIVE_POS = {"_optimizer": ["ctree", "cmodel"], "super": ["nodes", "inds", "dims"]}
ALIAS = {"seed": "prng_state", "ts_inds": "inds", "path": "nodes"}
# native constructor arguments that are only used to check the other ones (see the C++ part), so nothing is lost with them
CHECK_ONLY = {"atol", "check_shared_inds", "verbose"}


def pr(t):
    return principal(t, ALSO, ATTRS)


class Built:
    """The state of an object after running a constructor symbolically."""

    def __init__(self, sym, cls, init, args, kws, tag):
        self.obj = sym.obj(tag, cls)
        n = len(sym.calls)
        self.ok = sym.call_scope(init, None, None, [self.obj, *args], kws) is not None
        self.attrs = {a: t for (o, a), t in sym.heap.items() if o == self.obj}
        self.native = {}
        for _, f, a, k, t in sym.calls[n:]:
            where = None
            if f[0] == "attr" and f[1] == ("super", self.obj) and f[2] == "__init__":
                where = "super"
            else:
                for x, v in self.attrs.items():
                    if v == t and f[0] == "attr" and mentions(f, lambda y: y[0] == "glob" and y[1].startswith("tnco_core") or y == (
                            "glob", "importlib.import_module")):
                        where = x
                    elif v == t and f[0] == "call" and f[1] == ("glob", "builtins.getattr"):
                        where = x
            if where is not None:
                names = NATIVE_POS.get(where, [])
                for i, v in enumerate(a):
                    self.native[names[i] if i < len(names) else f"#{i}"] = v
                for kk, v in k.items():
                    self.native[kk] = v
                self.where = where


def params(init):
    a = init.node.args
    pos = [p.arg for p in [*a.posonlyargs, *a.args]][1:]
    kw = [p.arg for p in a.kwonlyargs]
    extra = set()
    if a.kwarg:
        for n in ast.walk(init.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("pop", "get") and isinstance(
                    n.func.value, ast.Name) and n.func.value.id == a.kwarg.arg and n.args and isinstance(n.args[0], ast.Constant):
                extra.add(n.args[0].value)
    return pos, kw, sorted(extra)


def from_params(t):
    """Constructor options a value re-represents (an element of an option counts)."""
    return {y[1] if y[0] == "param" else y[1][1] for y in pr(t) if y[0] == "param" or y[0] == "sub" and y[1][0] == "param"}


def fresh(sym, cls, init, tag):
    pos, kw, extra = params(init)
    return Built(sym, cls, init, [("param", p) for p in pos], {k: ("param", k) for k in kw + extra}, tag)


def sources(t, obj):
    """Names of the attributes of obj (or of its native part) a term re-represents."""
    out = set()
    for x in pr(t):
        if x[0] == "attr" and x[1] == obj:
            out.add(x[2].lstrip("_"))
        elif x[0] == "attr" and x[1] == ("super", obj):
            out.add(x[2])
        elif x[0] == "attr" and x[1][0] == "attr" and x[1][1] == obj:
            out.add(x[2])
    return out


class Analysis:

    def __init__(self, c):
        self.c, self.prog = c, Program()

    def run(self):
        n = 0
        for q, cls in self.prog.classes.items():
            if q.startswith("tnco.testing") or cls.parent.kind != "module":
                continue
            own = self.prog.methods(cls)
            n += 1
            red = own.get("__reduce__") or own.get("__reduce_ex__")
            if red is not None:
                self.roundtrip(q, cls, red)
            if own.get("__setstate__") or own.get("__getstate__"):
                self.state(q, cls, own.get("__getstate__"), own.get("__setstate__"))
            if self.is_model(cls) and self.prog.method(cls, "__eq__") is not None:
                self.equality(q, cls)
        self.c.analysed["classes"] = n
        self.c.require("roundtrip", 5)
        self.c.require("equality", 2)

    def is_model(self, cls):
        return any(b.name == "BaseCostModel" for b in self.prog.mro(cls)[1:])

    # ---- reduce
    def roundtrip(self, q, cls, red):
        c, prog = self.c, self.prog
        init = prog.method(cls, "__init__")
        if init is None:
            return
        sym = Sym(prog)
        gen = fresh(sym, cls, init, "generic")
        s = sym.obj("saved", cls)
        r = sym.apply(sym.getattr(s, red.name), [] if red.name == "__reduce__" else [("const", 4)])
        if r[0] != "tuple" or len(r[1]) < 2 or r[1][1][0] != "tuple":
            c.note(f"{q}.{red.name}: the reduce value is not a literal tuple; not analysed")
            return
        fn, args = r[1][0], r[1][1][1]
        n = len(sym.calls)
        if fn == ("glob", q) or (fn[0] == "op" and False):
            new = ("new", q, args, ())
        else:
            new = sym.apply(fn, list(args))
        news = [x for x in ([new] if new[0] != "phi" else new[1]) if x[0] == "new" and x[1] == q]
        if not news:
            c.note(f"{q}: the rebuild function does not return {cls.name}(...); not analysed")
            return
        for x in news:
            b = Built(sym, cls, init, list(x[2]), dict(x[3]), "rebuilt")
            if not b.ok:
                c.note(f"{q}: constructor not analysed")
                continue
            self.compare(q, red, gen, b, s)
            # anything put back after construction (state given as third element)
        self.derived(q, cls, gen, sym)

    def compare(self, q, red, gen, b, s):
        c = self.c
        for kind, g, r in (("attribute", gen.attrs, b.attrs), ("native argument", gen.native, b.native)):
            for x, t in sorted(g.items()):
                ps = from_params(t)
                if not ps or x in CHECK_ONLY or x == "__dict__":
                    continue
                c.instance("roundtrip", f"{q}.{x}")
                name = x.lstrip("_")
                want = {name, ALIAS.get(name, name)}
                # an attribute kept for the option that feeds this slot
                want |= {a.lstrip("_") for a, u in gen.attrs.items() if from_params(u) & ps and not ps & {"_cache"}}
                got = sources(r[x], s) if x in r else set()
                if not got & want:
                    what = f"is rebuilt from {', '.join(sorted(got))}" if got else "does not get its value back"
                    c.violation("roundtrip", f"{q}:{x}", red.where(),
                                f"after pickling {q}, the {kind} '{x}' (set from {', '.join(sorted(ps))}) {what}")
                elif kind == "attribute" and name in want:
                    # exactly one source: no alternative that comes from another slot
                    other = got - want - {ALIAS.get(name, name)}
                    if other and not (other & {"inds", "dims", "nodes"}):
                        c.violation("roundtrip", f"{q}:{x}:mixed", red.where(),
                                    f"after pickling {q}, the {kind} '{x}' may be rebuilt from {', '.join(sorted(other))}")

    # ---- trees handed out by an optimizer
    def derived(self, q, cls, gen, sym):
        """ContractionTree objects built by properties: caches come from the same slots of the original tree."""
        tree = self.prog.classes.get("tnco.ctree.ContractionTree")
        if tree is None or q == "tnco.ctree.ContractionTree":
            return
        init = self.prog.method(tree, "__init__")
        tsym = fresh(sym, tree, init, "tree")
        for name, m in self.prog.methods(cls).items():
            if not any(ast.unparse(d).endswith("property") for d in getattr(m.node, "decorator_list", [])):
                continue
            v = sym.getattr(gen.obj, name)
            for x in ([v] if v[0] != "phi" else v[1]):
                if x[0] != "new" or x[1] != "tnco.ctree.ContractionTree":
                    continue
                b = Built(sym, tree, init, list(x[2]), dict(x[3]), f"tree-{name}")
                src = ("param", "ctree")
                for a in sorted(tsym.attrs):
                    self.c.instance("tree-view", f"{q}.{name}.{a}")
                    got = {y[2] for y in pr(b.attrs.get(a, ("const", None))) if y[0] == "attr" and y[1] == src}
                    if a not in got:
                        self.c.violation("tree-view", f"{q}.{name}:{a}", m.where(),
                                         f"{q}.{name} rebuilds the tree with {a} taken from {', '.join(sorted(got)) or 'something else'}")
                    elif got - {a}:
                        self.c.violation("tree-view", f"{q}.{name}:{a}", m.where(),
                                         f"{q}.{name} rebuilds the tree with {a} possibly taken from {', '.join(sorted(got - {a}))}")
                # which native tree is shown
                p = {y[2] for y in pr(x) if y[0] == "attr"}
                self.c.instance("tree-view", f"{q}.{name}")
                if p and name not in p:
                    self.c.violation("tree-view", f"{q}.{name}", m.where(), f"{q}.{name} shows the native {', '.join(sorted(p))}")

    # ---- getstate / setstate
    def state(self, q, cls, get, put):
        c, prog = self.c, self.prog
        init = prog.method(cls, "__init__") or prog.method(cls, "__post_init__")
        if get is None or put is None or init is None:
            c.note(f"{q}: only one of __getstate__/__setstate__ is defined")
            return
        sym = Sym(prog)
        gen = fresh(sym, cls, init, "generic")
        s, d = sym.obj("saved", cls), sym.obj("restored", cls)
        st = sym.apply(sym.getattr(s, "__getstate__"), [])
        if st[0] not in ("tuple", "dict"):
            return
        sym.apply(sym.getattr(d, "__setstate__"), [st])
        back = {a: t for (o, a), t in sym.heap.items() if o == d}
        for a, t in sorted(gen.attrs.items()):
            if not any(y[0] == "param" for y in pr(t)):
                continue
            c.instance("roundtrip", f"{q}.{a}")
            got = sources(back[a], s) if a in back else set()
            if a.lstrip("_") not in got:
                c.violation("roundtrip", f"{q}:{a}", put.where(), f"__setstate__ of {q} does not restore '{a}'"
                            + (f" (it is taken from {', '.join(sorted(got))})" if got else ""))

    # ---- equality of cost models
    def equality(self, q, cls):
        c, prog = self.c, self.prog
        eq, init = prog.method(cls, "__eq__"), prog.method(cls, "__init__")
        if init is None:
            return
        sym = Sym(prog)
        gen = fresh(sym, cls, init, "generic")
        a, b = sym.obj("left", cls), sym.obj("right", cls)
        sym.objs[b] = cls
        sym.compares.clear()
        v = sym.call_scope(eq, None, None, [a, b], {})
        if v is None or v[0] == "opaque":
            return
        if any(x[0] == "attr" and x[2] == "__dict__" for x in mentions(v, lambda x: x[0] == "attr")) or mentions(
                v, lambda x: x[0] == "call" and x[1] == ("glob", "builtins.vars")):
            c.instance("equality", q)
            return
        seen = [v, *sym.compares]
        left = {x[2] for t in seen for x in mentions(t, lambda x: x[0] == "attr" and x[1] == a)}
        right = {x[2] for t in seen for x in mentions(t, lambda x: x[0] == "attr" and x[1] == b)}
        for x, t in sorted(gen.attrs.items()):
            if not any(y[0] == "param" for y in pr(t)):
                continue
            c.instance("equality", f"{q}.{x}")
            if x not in left or x not in right:
                c.violation("equality", f"{q}:{x}", eq.where(), f"{q}.__eq__ does not compare '{x}' of both objects")


def run(c):
    Analysis(c).run()
