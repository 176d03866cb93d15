"""The Python program under analysis: modules, scopes, classes, functions and name resolution."""
import ast
import builtins
import pathlib

from sa.common import REPO, AnalysisBroken, rel

BUILTINS = set(dir(builtins))


class Scope:
    """A function, class or module scope. `binds` maps a name to the list of (kind, node) binding it."""

    def __init__(self, kind, node, module, parent, name):
        self.kind, self.node, self.module, self.parent, self.name = kind, node, module, parent, name
        self.binds = {}
        self.children = []
        self.globals = set()
        self.nonlocals = set()
        if parent is not None:
            parent.children.append(self)

    @property
    def qual(self):
        if self.kind == "module":
            return self.module.name
        return f"{self.parent.qual}.{self.name}"

    def bind(self, name, kind, node):
        if name in self.globals:
            s = self.module.scope
        elif name in self.nonlocals and self.parent is not None:
            s = self.parent.lookup_scope(name) or self
        else:
            s = self
        s.binds.setdefault(name, []).append((kind, node))

    def lookup_scope(self, name):
        s, first = self, True
        while s is not None:
            if (s.kind != "class" or first) and name in s.binds:
                return s
            s, first = s.parent, False
        return None

    def __repr__(self):
        return f"<{self.kind} {self.qual}>"

    # functions
    def params(self):
        a = self.node.args
        return [*a.posonlyargs, *a.args, *([a.vararg] if a.vararg else []), *a.kwonlyargs, *([a.kwarg] if a.kwarg else [])]

    def param_names(self):
        return [p.arg for p in self.params()]

    def where(self):
        return f"{rel(self.module.path)}:{getattr(self.node, 'lineno', 1)}"

    @property
    def body(self):
        if isinstance(self.node, ast.Lambda):
            return [ast.copy_location(ast.Return(self.node.body), self.node.body)]
        return self.node.body


class Module:

    def __init__(self, prog, name, path):
        self.prog, self.name, self.path = prog, name, path
        self.tree = ast.parse(path.read_text(), str(path))
        self.is_pkg = path.name == "__init__.py"
        self.scope = Scope("module", self.tree, self, None, name)
        self.scope_of = {self.tree: self.scope}
        self.parent_of = {}
        for n in ast.walk(self.tree):
            for c in ast.iter_child_nodes(n):
                self.parent_of[c] = n
        _Binder(self).run()


class _Binder:

    def __init__(self, module):
        self.m = module

    def run(self):
        for s in self.m.tree.body:
            self.visit(s, self.m.scope)

    def target(self, t, kind, node, sc):
        if isinstance(t, ast.Name):
            sc.bind(t.id, kind, node)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                self.target(e, "unpack", node, sc)
        elif isinstance(t, ast.Starred):
            self.target(t.value, "unpack", node, sc)
        else:
            self.visit(t, sc)

    def visit(self, n, sc):
        m = self.m
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            name = getattr(n, "name", "<lambda>")
            for d in getattr(n, "decorator_list", []):
                self.visit(d, sc)
            for d in [*n.args.defaults, *[x for x in n.args.kw_defaults if x is not None]]:
                self.visit(d, sc)
            if name != "<lambda>":
                sc.bind(name, "def", n)
            f = Scope("function", n, m, sc, name)
            m.scope_of[n] = f
            for p in f.params():
                f.bind(p.arg, "param", p)
            body = n.body if isinstance(n.body, list) else [n.body]
            for s in body:
                for x in ast.walk(s):
                    if isinstance(x, ast.Global):
                        f.globals.update(x.names)
                    elif isinstance(x, ast.Nonlocal):
                        f.nonlocals.update(x.names)
                    # (nested functions may add too much; names are unique enough for that not to matter)
            for s in body:
                self.visit(s, f)
            return
        if isinstance(n, ast.ClassDef):
            sc.bind(n.name, "class", n)
            for d in n.decorator_list + n.bases + [k.value for k in n.keywords]:
                self.visit(d, sc)
            c = Scope("class", n, m, sc, n.name)
            m.scope_of[n] = c
            for s in n.body:
                self.visit(s, c)
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            # comprehension variables are bound in the enclosing scope: unique enough for the rules
            for g in n.generators:
                self.visit(g.iter, sc)
                self.target(g.target, "for", g, sc)
                for i in g.ifs:
                    self.visit(i, sc)
            if isinstance(n, ast.DictComp):
                self.visit(n.key, sc)
                self.visit(n.value, sc)
            else:
                self.visit(n.elt, sc)
            return
        if isinstance(n, ast.Assign):
            self.visit(n.value, sc)
            for t in n.targets:
                self.target(t, "assign", n, sc)
            return
        if isinstance(n, ast.AnnAssign):
            if n.value:
                self.visit(n.value, sc)
            self.target(n.target, "assign" if n.value else "annot", n, sc)
            return
        if isinstance(n, ast.AugAssign):
            self.visit(n.value, sc)
            self.target(n.target, "aug", n, sc)
            return
        if isinstance(n, ast.NamedExpr):
            self.visit(n.value, sc)
            self.target(n.target, "assign", n, sc)
            return
        if isinstance(n, (ast.For, ast.AsyncFor)):
            self.visit(n.iter, sc)
            self.target(n.target, "for", n, sc)
            for s in n.body + n.orelse:
                self.visit(s, sc)
            return
        if isinstance(n, (ast.With, ast.AsyncWith)):
            for i in n.items:
                self.visit(i.context_expr, sc)
                if i.optional_vars is not None:
                    self.target(i.optional_vars, "with", i, sc)
            for s in n.body:
                self.visit(s, sc)
            return
        if isinstance(n, ast.Import):
            for a in n.names:
                sc.bind(a.asname or a.name.split(".")[0], "import", (a.name if a.asname else a.name.split(".")[0], None))
            return
        if isinstance(n, ast.ImportFrom):
            base = n.module or ""
            if n.level:
                pkg = m.name.split(".")
                if not m.is_pkg:
                    pkg = pkg[:-1]
                pkg = pkg[:len(pkg) - (n.level - 1)]
                base = ".".join(pkg + ([n.module] if n.module else []))
            for a in n.names:
                if a.name == "*":
                    sc.bind("*", "star", (base, None))
                else:
                    sc.bind(a.asname or a.name, "import", (base, a.name))
            return
        if isinstance(n, ast.ExceptHandler):
            if n.type:
                self.visit(n.type, sc)
            if n.name:
                sc.bind(n.name, "except", n)
            for s in n.body:
                self.visit(s, sc)
            return
        for c in ast.iter_child_nodes(n):
            self.visit(c, sc)


class Ref:
    """What an expression denotes. kind: func, class, module, ext, param, local, attr, unknown."""

    def __init__(self, kind, value=None, name=None, scope=None):
        self.kind, self.value, self.name, self.scope = kind, value, name, scope

    @property
    def dotted(self):
        if self.kind == "ext":
            return self.value
        if self.kind in ("func", "class"):
            return self.value.qual
        if self.kind == "module":
            return self.value
        return None

    def __repr__(self):
        return f"Ref({self.kind},{self.value if self.kind in ('ext', 'module') else getattr(self.value, 'qual', self.value)},{self.name})"


UNKNOWN = Ref("unknown")


class Program:

    def __init__(self, root=None, package="tnco"):
        root = pathlib.Path(root or REPO)
        self.root = root
        self.modules = {}
        for p in sorted((root / package).rglob("*.py")):
            parts = list(p.relative_to(root).with_suffix("").parts)
            if parts[-1] == "__init__":
                parts.pop()
            name = ".".join(parts)
            self.modules[name] = Module(self, name, p)
        if len(self.modules) < 10:
            raise AnalysisBroken("the Python package was not found")
        self.functions = {}
        self.classes = {}
        for m in self.modules.values():
            for s in m.scope_of.values():
                if s.kind == "function":
                    self.functions.setdefault(s.qual, s)
                elif s.kind == "class":
                    self.classes[s.qual] = s

    def files(self):
        return [m.path for m in self.modules.values()]

    def func(self, qual):
        f = self.functions.get(qual)
        if f is None:
            raise AnalysisBroken(f"function {qual} not found")
        return f

    def all_functions(self):
        for m in self.modules.values():
            for s in m.scope_of.values():
                if s.kind == "function":
                    yield s

    def scope_at(self, module, node):
        """Innermost scope containing node (for a function node: the scope it is defined in is its parent)."""
        n = module.parent_of.get(node)
        while n is not None:
            if n in module.scope_of:
                return module.scope_of[n]
            n = module.parent_of.get(n)
        return module.scope

    # ---- resolution
    def member(self, modname, name, depth=0):
        """Resolve attribute `name` of module `modname`."""
        if depth > 8:
            return UNKNOWN
        m = self.modules.get(modname)
        if m is None:
            return Ref("ext", f"{modname}.{name}")
        if name in m.scope.binds:
            return self._from_binding(m.scope, name, depth + 1)
        for kind, (base, _) in [b for b in m.scope.binds.get("*", []) if b[0] == "star"]:
            if base in self.modules:
                r = self.member(base, name, depth + 1)
                if r.kind not in ("unknown", "ext"):
                    return r
            elif base:
                ext = base
        if f"{modname}.{name}" in self.modules:
            return Ref("module", f"{modname}.{name}")
        stars = [b for _, (b, _) in [x for x in m.scope.binds.get("*", [])] if b not in self.modules]
        if stars:
            return Ref("ext", f"{stars[-1]}.{name}")
        return UNKNOWN

    def _from_binding(self, sc, name, depth=0):
        bs = sc.binds[name]
        kinds = {k for k, _ in bs}
        if kinds == {"import"}:
            base, attr = bs[-1][1]
            if attr is None:
                return Ref("module", base) if base in self.modules else Ref("ext", base)
            if base in self.modules or base.split(".")[0] == "tnco":
                r = self.member(base, attr, depth + 1)
                if r.kind != "unknown":
                    return r
            return Ref("ext", f"{base}.{attr}")
        if kinds == {"def"}:
            return Ref("func", sc.module.scope_of[bs[-1][1]])
        if kinds == {"class"}:
            return Ref("class", sc.module.scope_of[bs[-1][1]])
        if "param" in kinds:
            return Ref("param", sc, name, sc)
        # alias  x = something  (single assignment of a resolvable expression)
        if len(bs) == 1 and bs[0][0] == "assign" and isinstance(bs[0][1], ast.Assign) and depth < 6:
            a = bs[0][1]
            if len(a.targets) == 1 and isinstance(a.targets[0], ast.Name) and isinstance(
                    a.value, (ast.Name, ast.Attribute, ast.Lambda)):
                r = self.resolve(a.value, sc, depth + 1)
                if r.kind in ("func", "class", "module", "ext"):
                    return r
        return Ref("local", sc, name, sc)

    def resolve(self, e, sc, depth=0):
        if depth > 10:
            return UNKNOWN
        if isinstance(e, ast.Lambda):
            return Ref("func", sc.module.scope_of[e])
        if isinstance(e, ast.Name):
            s = sc.lookup_scope(e.id)
            if s is None:
                for st in [b for b in sc.module.scope.binds.get("*", [])]:
                    r = self.member(st[1][0], e.id, depth + 1)
                    if r.kind != "unknown":
                        return r
                if e.id in BUILTINS:
                    return Ref("ext", f"builtins.{e.id}")
                return UNKNOWN
            return self._from_binding(s, e.id, depth)
        if isinstance(e, ast.Attribute):
            b = self.resolve(e.value, sc, depth + 1)
            if b.kind == "module":
                return self.member(b.value, e.attr)
            if b.kind == "ext":
                return Ref("ext", f"{b.value}.{e.attr}")
            if b.kind == "class":
                f = self.method(b.value, e.attr)
                if f is not None:
                    return Ref("func", f)
                return Ref("attr", b, e.attr)
            k = self.class_of(e.value, sc, depth + 1)
            if k is not None:
                f = self.method(k, e.attr)
                if f is not None:
                    return Ref("func", f)
            return Ref("attr", b, e.attr)
        if isinstance(e, ast.Call):
            # functools.partial(f, ...) denotes f
            r = self.resolve(e.func, sc, depth + 1)
            if r.kind == "ext" and r.value == "functools.partial" and e.args:
                return self.resolve(e.args[0], sc, depth + 1)
        return UNKNOWN

    def class_of(self, e, sc, depth=0):
        """Class scope of the instance an expression denotes, when evident."""
        if depth > 10:
            return None
        if isinstance(e, ast.Name):
            s = sc.lookup_scope(e.id)
            if s is None:
                return None
            bs = s.binds[e.id]
            if len(bs) == 1 and bs[0][0] == "param" and s.kind == "function":
                if s.parent is not None and s.parent.kind == "class" and s.param_names()[:1] == [e.id]:
                    decs = [ast.unparse(d) for d in getattr(s.node, "decorator_list", [])]
                    if "staticmethod" not in decs and "classmethod" not in decs:
                        return s.parent
                ann = bs[0][1].annotation
                if ann is not None:
                    r = self.resolve(ann, sc, depth + 1)
                    if r.kind == "class":
                        return r.value
                return None
            cs = set()
            for k, n in bs:
                v = getattr(n, "value", None) if k == "assign" else None
                if not isinstance(v, ast.Call):
                    return None
                r = self.resolve(v.func, s, depth + 1)
                if r.kind != "class":
                    return None
                cs.add(r.value)
            return cs.pop() if len(cs) == 1 else None
        if isinstance(e, ast.Call):
            r = self.resolve(e.func, sc, depth + 1)
            if r.kind == "class":
                return r.value
            if r.kind == "ext" and r.value == "builtins.super":
                f = sc
                while f is not None and not (f.kind == "function" and f.parent is not None and f.parent.kind == "class"):
                    f = f.parent
                if f is not None:
                    for b in self.bases(f.parent):
                        return b
        return None

    def bases(self, cls):
        out = []
        for b in cls.node.bases:
            r = self.resolve(b, cls.parent)
            if r.kind == "class":
                out.append(r.value)
        return out

    def mro(self, cls):
        out, todo = [], [cls]
        while todo:
            c = todo.pop(0)
            if c not in out:
                out.append(c)
                todo += self.bases(c)
        return out

    def method(self, cls, name):
        for c in self.mro(cls):
            for k, n in c.binds.get(name, []):
                if k == "def":
                    return c.module.scope_of[n]
        return None

    def methods(self, cls):
        return {n: cls.module.scope_of[b[-1][1]] for n, b in cls.binds.items() if b[-1][0] == "def"}

    def calls_in(self, scope, nested=True):
        """All Call nodes in a function (with nested functions and lambdas unless nested=False), with their scope."""
        m = scope.module
        stack = [(s, scope) for s in (scope.node.body if isinstance(scope.node.body, list) else [scope.node.body])]
        while stack:
            n, sc = stack.pop()
            if n in m.scope_of and n is not scope.node:
                if not nested:
                    continue
                sc2 = m.scope_of[n]
                for c in ast.iter_child_nodes(n):
                    stack.append((c, sc2))
                continue
            if isinstance(n, ast.Call):
                yield n, sc
            for c in ast.iter_child_nodes(n):
                stack.append((c, sc))


def walk_scope(scope, nested=True):
    """(node, scope) for every node in a function body."""
    m = scope.module
    body = scope.node.body if isinstance(scope.node.body, list) else [scope.node.body]
    stack = [(s, scope) for s in reversed(body)]
    while stack:
        n, sc = stack.pop()
        yield n, sc
        if n in m.scope_of:
            if not nested:
                continue
            sc = m.scope_of[n]
        for c in reversed(list(ast.iter_child_nodes(n))):
            stack.append((c, sc))


def bind_args(call, func, skip_self=False):
    """Map parameter name -> argument expression for a call (None when * or ** make it undecidable).

    Returns (mapping, has_star, starstar list).
    """
    a = func.node.args
    pos = [p.arg for p in [*a.posonlyargs, *a.args]]
    if skip_self:
        pos = pos[1:]
    out, star = {}, False
    extra = []
    for i, x in enumerate(call.args):
        if isinstance(x, ast.Starred):
            star = True
            break
        if i < len(pos):
            out[pos[i]] = x
        else:
            extra.append(x)
    ss = []
    for k in call.keywords:
        if k.arg is None:
            ss.append(k.value)
        else:
            out[k.arg] = k.value
    return out, star, ss
