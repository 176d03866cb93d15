"""C14: iterable arguments may be one-shot iterators.

Forward dataflow over the control-flow graph of every function with an Iterable parameter. A value is "backed" by such a
parameter as long as iterating it would advance the caller's iterator (aliases, map/filter/zip/... of it); every event
that iterates a backed value consumes the source. A source consumed twice on some path, or asked for its length or an
item, is a violation. Calls into the package use summaries of the callee's own analysis.
"""
import ast
from collections import Counter

from sa.common import rel
from sa.pycfg import CFG, HOFS
from sa.pyprog import Program, bind_args

TECHNIQUE = 'forward dataflow with function summaries over the Python CFG (iterator consumption)'
NOTE = 'For every parameter declared Iterable of every public function, every path consumes the iterator at most once. Trusts the model of which standard-library calls consume or lazily wrap their arguments; parameters reaching unknown callables count as consumed once.'

LAZY = {
    "builtins.map", "builtins.filter", "builtins.zip", "builtins.enumerate", "builtins.iter", "itertools.chain",
    "itertools.chain.from_iterable", "itertools.starmap", "itertools.islice", "itertools.takewhile", "itertools.dropwhile",
    "itertools.filterfalse", "itertools.accumulate", "itertools.cycle", "itertools.compress", "itertools.groupby",
    "itertools.pairwise", "itertools.zip_longest", "more_itertools.unique_everseen", "more_itertools.flatten",
    "more_itertools.always_iterable", "more_itertools.peekable", "more_itertools.chunked", "more_itertools.interleave",
    "rich.progress.track", "tqdm.tqdm",
}
NO_USE = {
    "builtins.isinstance", "builtins.type", "builtins.id", "builtins.hasattr", "builtins.getattr", "builtins.callable",
    "builtins.repr", "builtins.str", "builtins.print", "builtins.int", "builtins.float", "builtins.bool", "builtins.complex",
    "builtins.issubclass", "warnings.warn", "operator.index",
}
ONE_SHOT_TYPES = {"Iterator", "Generator", "Iterable"}


def iterable_params(f):
    """[(param, path)] : parameters annotated Iterable (path ()), or tuples with Iterable members (path (i,))."""
    out = []

    def top(a, name, path):
        if isinstance(a, ast.Constant) and isinstance(a.value, str):
            try:
                a = ast.parse(a.value, mode="eval").body
            except SyntaxError:
                return
        if isinstance(a, ast.BinOp) and isinstance(a.op, ast.BitOr):
            top(a.left, name, path)
            top(a.right, name, path)
            return
        h = a.value if isinstance(a, ast.Subscript) else a
        hn = h.attr if isinstance(h, ast.Attribute) else getattr(h, "id", None)
        if hn in ("Iterable", "Iterator", "Generator"):
            if (name, path) not in out:
                out.append((name, path))
        elif hn in ("Union", "Optional", "Annotated") and isinstance(a, ast.Subscript):
            for x in (a.slice.elts if isinstance(a.slice, ast.Tuple) else [a.slice]):
                top(x, name, path)
        elif hn in ("Tuple", "tuple") and isinstance(a, ast.Subscript) and isinstance(a.slice, ast.Tuple) and not path:
            for i, x in enumerate(a.slice.elts):
                if not (isinstance(x, ast.Constant) and x.value is Ellipsis):
                    top(x, name, (i,))

    for p in f.params():
        if p.annotation is not None and p is not f.node.args.vararg and p is not f.node.args.kwarg:
            top(p.annotation, p.arg, ())
    return out


class Flow:

    def __init__(self, an, scope, init, consumed=frozenset(), outer_frame=None):
        self.an, self.prog, self.scope = an, an.prog, scope
        self.events = {}  # (source, reason) -> node
        self.uses = Counter()
        self.stored = set()
        self.returned = set()
        self.cfg = an.cfg(scope)
        self.init = init
        self.run(consumed)

    def key(self, name, fr):
        s = fr.scope.lookup_scope(name)
        if s is None:
            return None
        f = fr.frame_of(s)
        return (id(s), name, id(f) if f is not None and f.depth else 0)

    def run(self, consumed):
        st0 = (frozenset((k, v) for k, v in self.init.items()), frozenset(consumed))
        state = {self.cfg.entry: st0}
        todo = [self.cfg.entry]
        steps = 0
        while todo:
            n = todo.pop()
            steps += 1
            if steps > 60000:
                self.an.c.note(f"dataflow limit reached in {self.scope.qual}")
                break
            env, cons = dict(state[n][0]), set(state[n][1])
            self.transfer(n, env, cons)
            for lab, t in n.succ:
                e2 = self.refine(n, lab, env) if n.kind == "test" else env
                self.push(state, t, e2, cons, todo)
            if n.exc is not None:
                self.push(state, n.exc, env, cons, todo)
        self.state = state

    def push(self, state, t, env, cons, todo):
        new = (frozenset(env.items()), frozenset(cons))
        old = state.get(t)
        if old is None:
            state[t] = new
            todo.append(t)
            return
        e = dict(old[0])
        for k, v in env.items():
            e[k] = self.join(e.get(k, ()), v)
        merged = (frozenset(e.items()), old[1] | new[1])
        if merged != old:
            state[t] = merged
            todo.append(t)

    @staticmethod
    def join(a, b):
        ca, cb = dict(a), dict(b)
        return tuple(sorted({k: max(ca.get(k, 0), cb.get(k, 0)) for k in {**ca, **cb}}.items(), key=repr))

    def refine(self, n, lab, env):
        t = n.ast
        name, drop = None, None
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name) and isinstance(
                t.comparators[0], ast.Constant) and t.comparators[0].value is None:
            isnone = isinstance(t.ops[0], (ast.Is, ast.Eq))
            name, drop = t.left.id, (lab is True) == isnone
        elif isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == "isinstance" and len(t.args) == 2 and isinstance(
                t.args[0], ast.Name):
            ty = t.args[1]
            names = [x.attr if isinstance(x, ast.Attribute) else getattr(x, "id", "?")
                     for x in (ty.elts if isinstance(ty, ast.Tuple) else [ty])]
            once = any(x in ONE_SHOT_TYPES for x in names)
            name = t.args[0].id
            drop = (lab is True and not once) or (lab is False and once)
        elif isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == "hasattr" and len(t.args) == 2 and isinstance(
                t.args[0], ast.Name) and isinstance(t.args[1], ast.Constant) and t.args[1].value in (
                    "__len__", "__getitem__", "shape", "items", "keys"):
            name, drop = t.args[0].id, lab is True
        elif isinstance(t, ast.Name):
            # a false iterable is an empty one or None: nothing is left to lose
            name, drop = t.id, lab is False
        if name is None or not drop:
            return env
        k = self.key(name, n.frame)
        e = dict(env)
        e.pop(k, None)
        return e

    # backing of an expression: Counter source -> how many times iterating the value iterates the source
    def back(self, e, fr, env, depth=0):
        if e is None or depth > 15:
            return Counter()
        if isinstance(e, ast.Name):
            return Counter(dict(env.get(self.key(e.id, fr), ())))
        if isinstance(e, ast.NamedExpr):
            return self.back(e.value, fr, env, depth + 1)
        if isinstance(e, ast.Starred):
            return self.back(e.value, fr, env, depth + 1)
        if isinstance(e, ast.IfExp):
            return self.back(e.body, fr, env, depth + 1) | self.back(e.orelse, fr, env, depth + 1)
        if isinstance(e, ast.BoolOp):
            out = Counter()
            for v in e.values:
                out |= self.back(v, fr, env, depth + 1)
            return out
        if isinstance(e, ast.GeneratorExp):
            b = self.back(e.generators[0].iter, fr, env, depth + 1)
            return Counter({("lazy", s, id(e)): 1 for s in b})
        if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Constant) and isinstance(e.value, ast.Name):
            return Counter(dict(env.get((self.key(e.value.id, fr), e.slice.value), ())))
        if isinstance(e, ast.Call):
            r = self.cfg.resolve_func(e.func, fr)
            d = r.dotted if r is not None else None
            kids = self.cfg.child.get((id(e), id(fr))) if d not in HOFS else None
            if kids:
                out = Counter()
                for k in kids:
                    for v, f in k.returns:
                        out |= self.back(v, f, env, depth + 1)
                return out
            if d in LAZY:
                out = Counter()
                for a in e.args:
                    if not isinstance(a, ast.Starred):
                        out += self.back(a, fr, env, depth + 1)
                return out
            if r is not None and r.kind == "func":
                m, _, _ = bind_args(e, r.value, skip_self=self.skips_self(e, r.value))
                out = Counter()
                for p, a in m.items():
                    b = self.back(a, fr, env, depth + 1)
                    if b and self.an.summary(r.value, p)[1]:
                        out += b
                return out
        return Counter()

    def skips_self(self, call, func):
        return func.parent is not None and func.parent.kind == "class" and not any(
            isinstance(d, ast.Name) and d.id == "staticmethod" for d in func.node.decorator_list)

    def consume(self, b, n, env, cons, reason, times=1):
        for s, k in b.items():
            self.uses[s] += 1
            base = s[1] if s[0] == "lazy" else s
            if s in cons or k * times > 1:
                self.events.setdefault((base, "twice"), (n, reason))
            cons.add(s)

    def guarded(self, n):
        """Inside a try whose handlers catch TypeError or everything."""
        m = n.frame.scope.module
        x, prev = n.ast, None
        while x is not None and x not in m.scope_of:
            prev, x = x, m.parent_of.get(x)
            if isinstance(x, ast.Try) and prev in x.body and x.handlers:
                return True
        return False

    def transfer(self, n, env, cons):
        fr, e = n.frame, n.ast
        if n.kind == "enter":
            f2 = n.frame
            for p, (x, fx) in f2.binds.items():
                b = self.back(x, fx, env)
                k = (id(f2.scope), p, id(f2) if f2.depth else 0)
                if b:
                    env[k] = tuple(sorted(b.items(), key=repr))
                else:
                    env.pop(k, None)
                if isinstance(x, ast.Name):
                    for kk in [q for q in env if isinstance(q, tuple) and len(q) == 2 and q[0] == self.key(x.id, fx)]:
                        env[(k, kk[1])] = env[kk]
            return
        if n.kind == "iterstart":
            if isinstance(e, ast.comprehension) and isinstance(n.frame.scope.module.parent_of.get(e), ast.GeneratorExp):
                self.consume(self.back(e.iter, fr, env), n, env, cons, "iterated by a generator expression")
            else:
                self.consume(self.back(e.iter, fr, env), n, env, cons, "iterated by a loop")
            return
        if n.kind == "call":
            return self.call(n, e, fr, env, cons)
        if n.kind == "op" and isinstance(e, ast.Compare):
            for op, x in zip(e.ops, e.comparators):
                if isinstance(op, (ast.In, ast.NotIn)):
                    self.consume(self.back(x, fr, env), n, env, cons, "searched with 'in'")
            return
        if n.kind == "sub":
            if isinstance(e.value, ast.Name) and isinstance(getattr(e, "ctx", None), ast.Load):
                b = self.back(e.value, fr, env)
                if b and not self.guarded(n):
                    for s in b:
                        self.events.setdefault((s[1] if s[0] == "lazy" else s, "indexed"), (n, "indexed"))
            return
        if n.kind in ("assign",):
            t, v = n.extra
            if v is None:
                self.clear(t, fr, env)
                return
            self.assign(t, v, n, fr, env, cons)
            return
        if n.kind == "aug":
            t, v = n.extra
            self.consume(self.back(v, fr, env), n, env, cons, "added in place")
            return
        if n.kind == "yield" and isinstance(e, ast.YieldFrom):
            self.consume(self.back(e.value, fr, env), n, env, cons, "yielded from")
        if n.kind == "return" and fr.depth == 0 and e.value is not None:
            for s in self.back(e.value, fr, env):
                self.returned.add(s[1] if s[0] == "lazy" else s)

    def clear(self, t, fr, env):
        for x in ast.walk(t):
            if isinstance(x, ast.Name):
                env.pop(self.key(x.id, fr), None)

    def assign(self, t, v, n, fr, env, cons):
        if isinstance(t, ast.Name):
            b = self.back(v, fr, env)
            k = self.key(t.id, fr)
            for kk in [q for q in env if isinstance(q, tuple) and len(q) == 2 and q[0] == k]:
                env.pop(kk)
            if isinstance(v, ast.Name):
                src = self.key(v.id, fr)
                for kk in [q for q in env if isinstance(q, tuple) and len(q) == 2 and q[0] == src]:
                    env[(k, kk[1])] = env[kk]
            if b:
                env[k] = tuple(sorted(b.items(), key=repr))
            else:
                env.pop(k, None)
            return
        if isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(t.elts):
                new = [self.back(x, fr, env) for x in v.elts]
                for tt, b in zip(t.elts, new):
                    if isinstance(tt, ast.Name):
                        k = self.key(tt.id, fr)
                        if b:
                            env[k] = tuple(sorted(b.items(), key=repr))
                        else:
                            env.pop(k, None)
                return
            if isinstance(v, ast.Name):
                src = self.key(v.id, fr)
                parts = {q[1]: env[q] for q in env if isinstance(q, tuple) and len(q) == 2 and q[0] == src}
                if parts:
                    for i, tt in enumerate(t.elts):
                        if isinstance(tt, ast.Name):
                            k = self.key(tt.id, fr)
                            if i in parts:
                                env[k] = parts[i]
                            else:
                                env.pop(k, None)
                    return
            self.consume(self.back(v, fr, env), n, env, cons, "unpacked")
            self.clear(t, fr, env)
            return
        if isinstance(t, ast.Attribute):
            for s in self.back(v, fr, env):
                self.stored.add(s)
                self.events.setdefault((s[1] if s[0] == "lazy" else s, "stored"), (n, "kept in an attribute without being materialised"))

    def call(self, n, e, fr, env, cons):
        r = n.extra
        d = r.dotted if r is not None else None
        kids = self.cfg.child.get((id(e), id(fr))) if not (d in HOFS) else None
        for a in e.args:
            if isinstance(a, ast.Starred):
                self.consume(self.back(a.value, fr, env), n, env, cons, "unpacked into arguments")
        # functions handed over: they may run any number of times
        for a in [*e.args, *[k.value for k in e.keywords]]:
            a = a.value if isinstance(a, ast.Starred) else a
            g = None
            if isinstance(a, (ast.Lambda, ast.Name)):
                rr = self.cfg.resolve_func(a, fr)
                if rr is not None and rr.kind == "func" and rr.value.parent.kind == "function":
                    g = rr.value
            if g is not None:
                self.handed_over(g, n, fr, env)
        if kids:
            return
        plain = [a for a in e.args if not isinstance(a, ast.Starred)]
        if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and e.func.attr in ("copy", "index", "count", "__len__", "__getitem__"):
            b = self.back(e.func.value, fr, env)
            if b and not self.guarded(n):
                for s in b:
                    self.events.setdefault((s[1] if s[0] == "lazy" else s, "indexed"), (n, f"asked for .{e.func.attr}()"))
        if d in ("builtins.map", "itertools.chain.from_iterable", "more_itertools.flatten") and plain:
            # a display of iterables: each member is handed to the mapped function (or flattened)
            fn = self.cfg.resolve_func(plain[0], fr) if d == "builtins.map" else None
            members = [x for a in (plain[1:] if d == "builtins.map" else plain) if isinstance(a, (ast.Tuple, ast.List)) for x in a.elts]
            fd = fn.dotted if fn is not None else None
            if members and not (fd in NO_USE or fd in LAZY) and not (fn is not None and fn.kind == "func"):
                for x in members:
                    self.consume(self.back(x, fr, env), n, env, cons, f"iterated by {ast.unparse(plain[0])[:30]}()")
        if d in NO_USE or d in LAZY:
            return
        if d in ("builtins.len", "builtins.reversed"):
            for a in plain:
                b = self.back(a, fr, env)
                if b and not self.guarded(n):
                    for s in b:
                        self.events.setdefault((s[1] if s[0] == "lazy" else s, "length"), (n, f"asked for its {'length' if d.endswith('len') else 'reverse'}"))
            return
        target = None
        if r is not None and r.kind == "func":
            target = r.value
        elif r is not None and r.kind == "class":
            target = self.prog.method(r.value, "__init__")
            if target is None:
                return
        if target is not None:
            m, _, _ = bind_args(e, target, skip_self=self.skips_self(e, target) and (r.kind == "class" or isinstance(e.func, ast.Attribute)))
            for p, a in m.items():
                b = self.back(a, fr, env)
                if b:
                    times, _ = self.an.summary(target, p)
                    if times:
                        self.consume(b, n, env, cons, f"iterated by {target.name}()", times)
            return
        # anything else iterates its argument once
        total = Counter()
        for a in [*plain, *[k.value for k in e.keywords]]:
            total += self.back(a, fr, env)
        self.consume(total, n, env, cons, f"iterated by {ast.unparse(e.func)[:40]}()")

    def handed_over(self, g, n, fr, env):
        """A local function (or lambda) given to someone else: what it iterates may be iterated again and again."""
        free = {}
        for x, sc in self.an.names(g):
            s = sc.lookup_scope(x)
            if s is None or s is g or self.inside(s, g):
                continue
            k = self.key(x, fr)
            if k in env:
                free[(id(s), x, 0)] = env[k]
        if not free:
            return
        sub = Flow(self.an, g, free, consumed={s for v in free.values() for s, _ in v})
        for (s, why), (m, reason) in sub.events.items():
            self.events.setdefault((s, "twice"), (m, reason + " inside a function that may run several times"))

    @staticmethod
    def inside(s, g):
        while s is not None:
            if s is g:
                return True
            s = s.parent
        return False


class Analysis:

    def __init__(self, c):
        self.c = c
        self.prog = Program()
        self._cfg, self._sum, self._names = {}, {}, {}

    def cfg(self, scope):
        if scope not in self._cfg:
            self._cfg[scope] = CFG(self.prog, scope, max_depth=4)
        return self._cfg[scope]

    def names(self, g):
        if g not in self._names:
            from sa.pyprog import walk_scope
            self._names[g] = [(x.id, sc) for x, sc in walk_scope(g) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)]
        return self._names[g]

    def summary(self, f, p):
        """(how many times the callee may iterate parameter p: 0, 1 or 2; whether it returns something backed by it)."""
        k = (f, p)
        if k in self._sum:
            return self._sum[k]
        self._sum[k] = (1, False)
        if p not in f.param_names():
            return self._sum[k]
        a = f.node.args
        if (a.vararg and a.vararg.arg == p) or (a.kwarg and a.kwarg.arg == p):
            return self._sum[k]
        if p in f.param_names() and any(isinstance(d, ast.Call) or True for d in []):
            pass
        src = ("param", p)
        fl = Flow(self, f, {(id(f), p, 0): ((src, 1),)})
        twice = any(s == src and why in ("twice", "stored") for s, why in fl.events)
        self._sum[k] = (2 if twice else min(1, sum(v for s, v in fl.uses.items() if s == src or s[1] == src)), src in fl.returned)
        return self._sum[k]


def run(c):
    a = Analysis(c)
    n = 0
    for f in a.prog.all_functions():
        if isinstance(f.node, ast.Lambda):
            continue
        ps = iterable_params(f)
        if not ps:
            continue
        for p, path in ps:
            n += 1
            src = ("param", p, *path)
            k = (id(f), p, 0)
            init = {(k, path[0]): ((src, 1),)} if path else {k: ((src, 1),)}
            fl = Flow(a, f, init)
            label = p + ("" if not path else f"[{path[0]}]")
            c.instance("one-shot-iterable", f"{f.qual}({label}): {sum(fl.uses.values())} uses")
            for (s, why), (node, reason) in sorted(fl.events.items(), key=repr):
                if s != src:
                    continue
                w = f"{rel(node.frame.scope.module.path)}:{getattr(node.ast, 'lineno', getattr(getattr(node.ast, 'iter', None), 'lineno', 0))}"
                txt = {"twice": f"iterable parameter '{label}' is {reason} after it has already been (or may already have been) iterated",
                       "length": f"iterable parameter '{label}' is {reason} before being materialised",
                       "indexed": f"iterable parameter '{label}' is {reason} before being materialised",
                       "stored": f"iterable parameter '{label}' is {reason}"}[why]
                c.violation("one-shot-iterable", f"{f.qual}:{label}:{why}", w, txt)
    c.analysed["functions"] = len({w.split("(")[0] for _, w in c.instances})
    c.require("one-shot-iterable", 30)
    c.assume("an unknown external callee iterates an iterable argument exactly once")
