"""Which caller-owned objects an expression may denote, flow-sensitively, and where such objects are modified.

A value is a set of (parameter, fresh, level): the object is reached from the parameter's object by `level` element/attribute
accesses, below `fresh` containers created by the library itself. (p, 0, 0) is the caller's argument itself, (p, 0, 1) one of its
elements, (p, 1, 1) a new container holding such elements.
"""
import ast

from sa.pycfg import CFG
from sa.pyprog import bind_args

NONE = frozenset()
CAPF, CAPL = 4, 4
MUT = {"append", "extend", "insert", "pop", "popitem", "remove", "clear", "update", "setdefault", "add", "discard", "sort", "reverse",
       "difference_update", "intersection_update", "symmetric_difference_update", "appendleft", "popleft", "extendleft", "rotate",
       "__setitem__", "__delitem__", "__iadd__", "__ior__", "__iand__", "__isub__", "__ixor__", "__imul__", "fill", "itemset", "resize",
       "partition", "setfield", "swap_with_nn", "__setattr__", "__delattr__", "shuffle_"}
VIEW_ATTRS = {"T", "real", "imag", "flat", "mT"}
VIEW_METHODS = {"reshape", "transpose", "ravel", "view", "swapaxes", "squeeze", "diagonal", "asarray", "__enter__"}
CONTAINERS = {"builtins.list", "builtins.tuple", "builtins.set", "builtins.frozenset", "builtins.dict", "builtins.sorted", "builtins.reversed",
              "builtins.filter", "builtins.iter", "itertools.chain", "itertools.islice", "itertools.takewhile", "itertools.dropwhile",
              "itertools.cycle", "itertools.filterfalse", "collections.deque", "collections.OrderedDict", "collections.Counter", "copy.copy",
              "more_itertools.unique_everseen", "collections.defaultdict", "tnco.ordered_frozenset.OrderedFrozenSet"}
ELEMENT = {"builtins.next", "builtins.min", "builtins.max", "more_itertools.first", "more_itertools.last", "more_itertools.nth", "more_itertools.one"}
SAME = {"rich.progress.track", "numpy.asarray", "numpy.ascontiguousarray", "numpy.asanyarray", "numpy.reshape", "numpy.transpose", "numpy.ravel",
        "numpy.squeeze", "numpy.atleast_1d", "numpy.swapaxes", "numpy.moveaxis", "builtins.vars", "typing.cast", "numpy.broadcast_to",
        "types.MappingProxyType"}
FIRST_ARG = {"random.shuffle", "heapq.heapify", "heapq.heappush", "heapq.heappop", "heapq.heapreplace", "heapq.heappushpop", "bisect.insort",
             "bisect.insort_left", "bisect.insort_right", "operator.setitem", "operator.delitem", "operator.iadd", "operator.ior", "operator.iand",
             "operator.isub", "operator.ixor", "operator.imul", "operator.iconcat", "builtins.setattr", "builtins.delattr", "numpy.fill_diagonal",
             "numpy.copyto", "numpy.put", "numpy.place", "numpy.putmask", "numpy.random.shuffle"}
AR_SAME = {"asarray", "reshape", "transpose", "ravel", "squeeze", "swapaxes", "moveaxis", "diagonal"}


def el(v):
    return frozenset((p, f - 1, l) if f else (p, 0, min(l + 1, CAPL)) for p, f, l in v)


def wrap(v):
    return frozenset((p, f + 1, l) for p, f, l in v if f < CAPF)


class Alias:

    def __init__(self, prog, summaries=None):
        self.prog = prog
        self.summaries = summaries if summaries is not None else {}

    # ---------------------------------------------------------------- analysis
    def analyse(self, f, policy=None):
        """[(param, level, node, what)] modifications of caller-owned objects in f, and the value f returns."""
        cfg = CFG(self.prog, f, policy=policy or (lambda *a: False), max_depth=4)
        self.cfg, self.muts, self.returned = cfg, {}, NONE
        env = {}
        a = f.node.args
        for p in f.param_names():
            if a.vararg is not None and p == a.vararg.arg or a.kwarg is not None and p == a.kwarg.arg:
                env[(id(cfg.root), p)] = frozenset({(p, 1, 0)})
            else:
                env[(id(cfg.root), p)] = frozenset({(p, 0, 0)})
        state = {cfg.entry: env}
        todo = [cfg.entry]
        rounds = {}
        while todo:
            n = todo.pop()
            rounds[n] = rounds.get(n, 0) + 1
            if rounds[n] > 60:
                continue
            out = self.transfer(n, dict(state[n]))
            for m in [t for _, t in n.succ] + ([n.exc] if n.exc is not None else []):
                old = state.get(m)
                if old is None:
                    state[m] = dict(out)
                    todo.append(m)
                    continue
                ch = False
                for k, v in out.items():
                    o = old.get(k)
                    if o is None:
                        old[k] = v
                        ch = True
                    elif not v <= o:
                        old[k] = o | v
                        ch = True
                if ch and m not in todo:
                    todo.append(m)
        return list(self.muts.values()), self.returned

    def mutate(self, v, node, fr, what, aug=False):
        for p, f, l in v:
            if f == 0:
                self.muts.setdefault((p, l, id(node)), (p, l, node, what, fr, aug))

    def key(self, name, fr):
        s = fr.scope.lookup_scope(name)
        if s is None:
            return None
        f = fr.frame_of(s)
        return (id(f if f is not None else fr), name)

    # -------------------------------------------------------------- statements
    def transfer(self, n, env):
        k, fr = n.kind, n.frame
        if k == "assign":
            tgt, val = n.extra
            if isinstance(n.ast, (ast.For, ast.comprehension)):
                v = el(self.val(n.ast.iter, fr, env))
            elif isinstance(n.ast, ast.withitem):
                v = self.val(n.ast.context_expr, fr, env)
            else:
                v = self.val(val, fr, env)
            self.bind(tgt, v, fr, env, n, val)
        elif k == "aug":
            tgt, val = n.extra
            v = self.val(val, fr, env)
            if isinstance(tgt, ast.Name):
                kk = self.key(tgt.id, fr)
                cur = env.get(kk, NONE)
                self.mutate(cur, n.ast, fr, f"'{ast.unparse(n.ast)[:60]}'", aug=True)
                env[kk] = cur | wrap(el(v))
            elif isinstance(tgt, ast.Subscript):
                self.mutate(self.val(tgt.value, fr, env), n.ast, fr, f"'{ast.unparse(n.ast)[:60]}'")
            elif isinstance(tgt, ast.Attribute):
                self.mutate(self.val(tgt.value, fr, env), n.ast, fr, f"'{ast.unparse(n.ast)[:60]}'")
        elif k == "del":
            for t in n.ast.targets:
                if isinstance(t, (ast.Subscript, ast.Attribute)):
                    self.mutate(self.val(t.value, fr, env), n.ast, fr, f"'{ast.unparse(n.ast)[:60]}'")
        elif k == "call":
            self.call(n.ast, fr, env, n)
        elif k == "enter":
            for p, (x, fx) in fr.binds.items():
                env[(id(fr), p)] = self.val(x, fx, env)
            if not fr.binds and isinstance(n.ast, ast.Call):  # a callback of map/filter/...
                call, pf = n.ast, fr.parent
                fnpos = next((i for i, a in enumerate(call.args) if not isinstance(a, ast.Starred)), 0)
                its = call.args[fnpos + 1:]
                d = self.prog.resolve(call.func, pf.scope).dotted
                for i, p in enumerate(fr.scope.param_names()):
                    if d == "itertools.starmap" and its:
                        env[(id(fr), p)] = el(el(self.val(its[0], pf, env)))
                    elif i < len(its):
                        env[(id(fr), p)] = el(self.val(its[i], pf, env))
                    elif call.args:
                        env[(id(fr), p)] = el(self.val(call.args[0], pf, env))
        elif k == "return":
            v = self.val(n.ast.value, fr, env)
            if fr is self.cfg.root:
                self.returned |= v
            rk = ("ret", id(fr))
            env[rk] = env.get(rk, NONE) | v
        return env

    def bind(self, t, v, fr, env, n, val):
        if isinstance(t, ast.Name):
            env[self.key(t.id, fr)] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            exact = val.elts if isinstance(val, (ast.Tuple, ast.List)) and len(val.elts) == len(t.elts) and not any(
                isinstance(x, ast.Starred) for x in [*val.elts, *t.elts]) else None
            vs = [self.val(x, fr, env) for x in exact] if exact else None
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    self.bind(x.value, wrap(el(v)), fr, env, n, None)
                else:
                    self.bind(x, vs[i] if vs else el(v), fr, env, n, None)
        elif isinstance(t, ast.Subscript):
            b = self.val(t.value, fr, env)
            self.mutate(b, n.ast, fr, f"assignment to '{ast.unparse(t)[:50]}'")
            self.store(t.value, v, fr, env)
        elif isinstance(t, ast.Attribute):
            self.mutate(self.val(t.value, fr, env), n.ast, fr, f"assignment to '{ast.unparse(t)[:50]}'")
            if isinstance(t.value, ast.Name):
                env[("attr", self.key(t.value.id, fr), t.attr)] = v

    def store(self, recv, v, fr, env):
        """recv now also holds v."""
        if isinstance(recv, ast.Name):
            k = self.key(recv.id, fr)
            env[k] = env.get(k, NONE) | wrap(v)
        elif isinstance(recv, ast.Subscript):
            self.store(recv.value, wrap(v), fr, env)

    # ------------------------------------------------------------------- calls
    def call(self, e, fr, env, n):
        r = self.cfg.resolve_func(e.func, fr)
        d = r.dotted if r is not None and r.kind in ("ext", "class") else None
        for kw in e.keywords:
            if kw.arg == "out":
                self.mutate(self.val(kw.value, fr, env), e, fr, f"'out={ast.unparse(kw.value)}'")
        if d in FIRST_ARG and e.args:
            self.mutate(self.val(e.args[0], fr, env), e, fr, f"'{ast.unparse(e)[:60]}'")
            return
        if d in ("builtins.map", "builtins.filter", "more_itertools.consume") and e.args and isinstance(e.args[0], ast.Attribute) and e.args[0].attr in MUT:
            self.mutate(self.val(e.args[0].value, fr, env), e, fr, f"'{ast.unparse(e)[:60]}'")
            if len(e.args) > 1 and e.args[0].attr in ("append", "add"):
                self.store(e.args[0].value, el(self.val(e.args[1], fr, env)), fr, env)
            return
        if d is not None and d.startswith("builtins.") and isinstance(e.func, ast.Attribute) and e.func.attr in MUT and e.args:
            self.mutate(self.val(e.args[0], fr, env), e, fr, f"'{ast.unparse(e)[:60]}'")
            return
        if isinstance(e.func, ast.Attribute) and e.func.attr == "shuffle" and e.args:
            self.mutate(self.val(e.args[0], fr, env), e, fr, f"'{ast.unparse(e)[:60]}'")
            return
        if isinstance(e.func, ast.Attribute) and e.func.attr in MUT and (r is None or r.kind in ("attr", "unknown", "local", "param")):
            b = self.val(e.func.value, fr, env)
            self.mutate(b, e, fr, f"'{ast.unparse(e)[:60]}'")
            if e.func.attr in ("append", "add", "insert", "appendleft", "setdefault", "__setitem__") and e.args:
                self.store(e.func.value, self.val(e.args[-1], fr, env), fr, env)
            elif e.func.attr in ("extend", "update") and e.args:
                self.store(e.func.value, el(self.val(e.args[0], fr, env)), fr, env)
            return
        if r is not None and r.kind == "func" and (id(e), id(fr)) not in self.cfg.child:
            s = self.summaries.get(r.value)
            if s:
                skip = r.value.parent is not None and r.value.parent.kind == "class" and isinstance(e.func, ast.Attribute)
                m, _, _ = bind_args(e, r.value, skip_self=skip)
                for q, l2 in s:
                    if q in m:
                        for p, f, l in self.val(m[q], fr, env):
                            if f <= l2:
                                self.mutate(frozenset({(p, 0, min(CAPL, l + l2 - f))}), e, fr, f"'{ast.unparse(e)[:50]}', which modifies its argument '{q}',")

    # ------------------------------------------------------------- expressions
    def fun(self, f, args, fr, env):
        """Value of calling f (an expression) on argument values."""
        if isinstance(f, ast.Lambda):
            sc = fr.scope.module.scope_of[f]
            ks = [k for k in sc.param_names()]
            e2 = dict(env)

            class G:
                pass
            g = G()
            g.scope, g.binds, g.parent = sc, {}, fr
            g.frame_of = lambda s: g if s is sc else fr.frame_of(s)
            for k, v in zip(ks, args):
                e2[(id(g), k)] = v
            return self.val(f.body, g, e2)
        r = self.prog.resolve(f, fr.scope) if isinstance(f, (ast.Name, ast.Attribute)) else None
        d = r.dotted if r is not None and r.kind in ("ext", "class") else None
        allv = frozenset().union(*args) if args else NONE
        if d in CONTAINERS:
            return wrap(el(allv))
        if d in ELEMENT:
            return el(allv)
        if isinstance(f, ast.Attribute) and f.attr in ("get", "__getitem__", "pop"):
            return el(self.val(f.value, fr, env))
        base, pre = self.partial(f, fr)
        if base == "autoray.do":
            if pre and isinstance(pre[0], ast.Constant):
                return args[0] if pre[0].value in AR_SAME and args else NONE
            return NONE
        if isinstance(f, ast.Call):
            fd = self.prog.resolve(f.func, fr.scope).dotted
            if fd in ("operator.itemgetter", "operator.attrgetter"):
                return el(allv)
        return NONE

    def partial(self, f, fr, depth=0):
        """(library function, leading arguments) of a function expression, through functools.partial."""
        if depth > 6:
            return None, []
        if isinstance(f, ast.Call) and f.args and self.prog.resolve(f.func, fr.scope).dotted == "functools.partial":
            b, pre = self.partial(f.args[0], fr, depth + 1)
            return b, pre + list(f.args[1:])
        if isinstance(f, ast.Name):
            s = fr.scope.lookup_scope(f.id)
            if s is not None and s.kind == "function" and len(s.binds[f.id]) == 1 and s.binds[f.id][0][0] == "assign":
                v = getattr(s.binds[f.id][0][1], "value", None)
                return self.partial(v, fr, depth + 1) if v is not None else (None, [])
        if isinstance(f, (ast.Name, ast.Attribute)):
            r = self.prog.resolve(f, fr.scope)
            return (r.dotted if r.kind in ("ext", "class") else None), []
        return None, []

    def val(self, e, fr, env):
        if e is None or isinstance(e, (ast.Constant, ast.JoinedStr, ast.Compare, ast.Lambda)):
            return NONE
        if isinstance(e, ast.Name):
            k = self.key(e.id, fr)
            return env.get(k, NONE) if k is not None else NONE
        if isinstance(e, ast.NamedExpr):
            return self.val(e.value, fr, env)
        if isinstance(e, ast.IfExp):
            return self.val(e.body, fr, env) | self.val(e.orelse, fr, env)
        if isinstance(e, ast.BoolOp):
            return frozenset().union(*(self.val(v, fr, env) for v in e.values))
        if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
            out = NONE
            for x in e.elts:
                out |= wrap(el(self.val(x.value, fr, env))) if isinstance(x, ast.Starred) else wrap(self.val(x, fr, env))
            return out
        if isinstance(e, ast.Dict):
            out = NONE
            for k, v in zip(e.keys, e.values):
                out |= wrap(self.val(v, fr, env)) if k is not None else wrap(el(self.val(v, fr, env)))
            return out
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp)):
            return wrap(self.val(e.elt, self.comp_frame(e, fr), env))
        if isinstance(e, ast.DictComp):
            return wrap(self.val(e.value, self.comp_frame(e, fr), env))
        if isinstance(e, ast.BinOp):
            return wrap(el(self.val(e.left, fr, env)) | el(self.val(e.right, fr, env)))
        if isinstance(e, ast.Attribute):
            if isinstance(e.value, ast.Name):
                k = ("attr", self.key(e.value.id, fr), e.attr)
                if k in env:
                    return env[k]
            v = self.val(e.value, fr, env)
            return v if e.attr in VIEW_ATTRS else el(v)
        if isinstance(e, ast.Subscript):
            v = self.val(e.value, fr, env)
            if isinstance(e.slice, ast.Slice):
                return wrap(el(v))
            return el(v)
        if isinstance(e, ast.Starred):
            return self.val(e.value, fr, env)
        if isinstance(e, ast.Call):
            return self.call_val(e, fr, env)
        return NONE

    def comp_frame(self, e, fr):
        return fr

    def call_val(self, e, fr, env):
        kids = self.cfg.child.get((id(e), id(fr)))
        r = self.cfg.resolve_func(e.func, fr) if hasattr(fr, "frame_of") else None
        d = r.dotted if r is not None and r.kind in ("ext", "class") else None
        args = [self.val(a, fr, env) for a in e.args]
        if d == "builtins.map" and e.args:
            return wrap(self.fun(e.args[0], [el(a) for a in args[1:]], fr, env))
        if d == "itertools.starmap" and len(e.args) == 2:
            n = len(e.args[0].args.args) if isinstance(e.args[0], ast.Lambda) else 1
            return wrap(self.fun(e.args[0], [el(el(args[1]))] * n, fr, env))
        if d in ("builtins.filter", "itertools.filterfalse", "itertools.takewhile", "itertools.dropwhile"):
            return wrap(el(args[-1])) if args else NONE
        if d in ("builtins.zip", "itertools.zip_longest", "builtins.enumerate", "itertools.product"):
            return frozenset().union(*(wrap(wrap(el(a))) for a in args)) if args else NONE
        if d in ("itertools.repeat",):
            return wrap(args[0]) if args else NONE
        if d in ("more_itertools.flatten", "itertools.chain.from_iterable"):
            return wrap(el(el(args[0]))) if args else NONE
        if d == "functools.reduce" and len(args) > 1:
            return frozenset().union(*(el(a) for a in args[1:2]))
        if d == "builtins.dict" or d == "collections.OrderedDict":
            # dict(mapping) or dict(pairs)
            out = frozenset().union(*(wrap(el(a)) | wrap(el(el(a))) for a in args)) if args else NONE
            for kw in e.keywords:
                v = self.val(kw.value, fr, env)
                out |= wrap(v) if kw.arg else wrap(el(v))
            return out
        if d in CONTAINERS:
            return frozenset().union(*(wrap(el(a)) for a in args)) if args else NONE
        if d in ELEMENT:
            return frozenset().union(*(el(a) for a in args[:1])) if args else NONE
        if d in SAME:
            return args[0] if args else NONE
        if d == "builtins.getattr" and args:
            return el(args[0])
        base, pre = self.partial(e.func, fr)
        if base == "autoray.do":
            pre = pre + list(e.args)
            n = len(pre) - len(e.args)
            if pre and isinstance(pre[0], ast.Constant) and pre[0].value in AR_SAME and len(pre) > 1:
                return args[1 - n] if 0 <= 1 - n < len(args) else NONE
            return NONE
        if isinstance(e.func, ast.Attribute) and e.func.attr in ("pop", "get") and e.args and isinstance(e.args[0], ast.Constant) and isinstance(
                e.args[0].value, str) and e.args[0].value.startswith("_") and isinstance(e.func.value, ast.Name):
            s = fr.scope.lookup_scope(e.func.value.id)
            if s is not None and s.kind == "function" and s.node.args.kwarg is not None and s.node.args.kwarg.arg == e.func.value.id:
                return NONE  # private option: set by the library itself
        if kids:
            out = NONE
            for k in kids:
                out |= env.get(("ret", id(k)), NONE)
            return out
        if r is not None and r.kind == "class":
            out = NONE
            for a in args:
                out |= wrap(a)
            for kw in e.keywords:
                v = self.val(kw.value, fr, env)
                out |= wrap(v)
            return out
        if isinstance(e.func, ast.Attribute) and (r is None or r.kind in ("attr", "unknown", "local", "param")):
            b = self.val(e.func.value, fr, env)
            at = e.func.attr
            if at in VIEW_METHODS:
                return b
            if at == "astype":
                return b if any(k.arg == "copy" for k in e.keywords) else NONE
            if at in ("get", "pop", "setdefault", "__getitem__", "popitem", "popleft"):
                return el(b) | (frozenset().union(*args[1:]) if len(args) > 1 else NONE)
            if at in ("copy", "keys", "values", "union", "intersection", "difference"):
                return wrap(el(b))
            if at == "items":
                return wrap(wrap(el(b)))
        return NONE
