"""C13: every shared-memory block, timer and progress thread acquired by a parallel run is released on every exit.

Exceptional typestate over the inlined control-flow graph of `Parallel` (and of every other function that acquires): from
the acquisition to both exits, every path (exception edges of every call, subscript and operator included) must pass a
release, or its registration on an ExitStack that is entered with `with`.
"""
import ast

from sa.common import AnalysisBroken
from sa.pycfg import CFG
from sa.pyflow import UNK, origins
from sa.pyprog import Program, bind_args

TECHNIQUE = 'exceptional typestate analysis over the inlined control-flow graph (Python AST)'
NOTE = 'For every acquisition site (shared memory, timer, progress thread) in the package, all paths of the exception-edge CFG to both exits are shown to pass the matching release. Trusts the CFG construction and that ExitStack/with run their callbacks; does not decide what joblib or the OS do.'

RELEASE = {"shm": "unlink", "timer": "cancel"}


class Analysis:

    def __init__(self, check):
        self.c = check
        self.prog = Program()
        self.pm = self.prog.modules.get("tnco.parallel")
        if self.pm is None:
            raise AnalysisBroken("tnco.parallel not found")
        self.shm_classes = set()
        self.find_classes()

    def raw_kind(self, call, sc):
        r = self.prog.resolve(call.func, sc)
        d = r.dotted
        if r.kind == "ext":
            if d.endswith("shared_memory.SharedMemory"):
                create = next((k.value for k in call.keywords if k.arg == "create"), call.args[1] if len(call.args) > 1 else None)
                if create is not None and not (isinstance(create, ast.Constant) and create.value is False):
                    return "shm"
            if d == "threading.Timer":
                return "timer"
            if d == "threading.Thread":
                return "thread"
        if r.kind == "class" and r.value in self.shm_classes:
            return "shm"
        return None

    def find_classes(self):
        """Classes of the package whose constructor creates a shared-memory block."""
        changed = True
        while changed:
            changed = False
            for cls in self.prog.classes.values():
                init = self.prog.method(cls, "__init__")
                if cls in self.shm_classes or init is None:
                    continue
                todo, seen = [init], set()
                while todo:
                    f = todo.pop()
                    if f in seen:
                        continue
                    seen.add(f)
                    for call, sc in self.prog.calls_in(f):
                        if self.raw_kind(call, sc) == "shm":
                            self.shm_classes.add(cls)
                            changed = True
                        r = self.prog.resolve(call.func, sc)
                        if r.kind == "func" and r.value.module is cls.module:
                            todo.append(r.value)
        self.c.analysed["classes owning shared memory"] = sorted(k.qual for k in self.shm_classes)

    # ---- events
    def callable_effects(self, cfg, e, fr, args, depth=0):
        """(method, object expression, frame) of the method calls a callback makes when invoked with args (expr, frame)."""
        if depth > 4:
            return
        if isinstance(e, ast.Attribute):
            r = self.prog.resolve(e, fr.scope)
            f = r.value if r.kind == "func" else None
            if f is None:
                # method of an object made by a package class
                for o in origins(cfg, e.value, fr, strip_attr=False):
                    if o[0] == "call":
                        rr = self.prog.resolve(o[1].func, fr.scope)
                        if rr.kind == "class":
                            f = self.prog.method(rr.value, e.attr)
            if f is not None:
                yield from self.body_effects(cfg, f, fr, {f.param_names()[0]: (e.value, fr)} if f.param_names() else {}, depth)
            yield (e.attr, e.value, fr)
            return
        if isinstance(e, ast.Lambda) or isinstance(e, ast.Name):
            r = cfg.resolve_func(e, fr)
            if r is not None and r.kind == "func":
                b = {}
                for p, a in zip(r.value.param_names(), args):
                    b[p] = a
                yield from self.body_effects(cfg, r.value, fr, b, depth)
            elif isinstance(e, ast.Name):
                # alias of a bound method: f = x.unlink
                s = fr.scope.lookup_scope(e.id)
                for k, n in (s.binds[e.id] if s else []):
                    if k == "assign" and isinstance(getattr(n, "value", None), ast.Attribute):
                        yield from self.callable_effects(cfg, n.value, fr, args, depth + 1)
        if isinstance(e, ast.Call):
            r = self.prog.resolve(e.func, fr.scope)
            if r.dotted == "functools.partial" and e.args:
                yield from self.callable_effects(cfg, e.args[0], fr, [(a, fr) for a in e.args[1:]] + list(args), depth + 1)

    def body_effects(self, cfg, f, fr, binds, depth):
        for call, sc in self.prog.calls_in(f):
            if isinstance(call.func, ast.Attribute):
                o = call.func.value
                base = o
                while isinstance(base, ast.Attribute):
                    base = base.value
                if isinstance(base, ast.Name) and base.id in binds:
                    yield (call.func.attr, *binds[base.id])
                else:
                    yield (call.func.attr, o, fr if fr.frame_of(f.parent) is None else fr)
            else:
                r = self.prog.resolve(call.func, sc)
                if r.kind == "func" and depth < 3:
                    m, _, _ = bind_args(call, r.value)
                    b = {}
                    for k, v in m.items():
                        b[k] = binds[v.id] if isinstance(v, ast.Name) and v.id in binds else (v, fr)
                    yield from self.body_effects(cfg, r.value, fr, b, depth + 1)

    def is_stack(self, cfg, e, fr):
        """(is an ExitStack, entered with `with`)"""
        for o in origins(cfg, e, fr, strip_attr=False):
            if o[0] == "call":
                r = self.prog.resolve(o[1].func, fr.scope)
                if r.dotted in ("contextlib.ExitStack", "contextlib.AsyncExitStack"):
                    return True
        return False

    def entered(self, cfg, stack_call):
        for n in cfg.nodes:
            if n.kind == "withenter":
                if ("call", stack_call) in origins(cfg, n.ast.context_expr, n.frame):
                    return True
        return False

    def events(self, cfg):
        """List of (node, method, origin set of the object, how) for direct calls and for registrations."""
        out = []
        for n in cfg.nodes:
            if n.kind != "call" or not isinstance(n.ast.func, ast.Attribute):
                continue
            f = n.ast.func
            if f.attr in ("callback", "push", "enter_context") and self.is_stack(cfg, f.value, n.frame):
                if f.attr == "callback" and n.ast.args:
                    stack = {o[1] for o in origins(cfg, f.value, n.frame, strip_attr=False) if o[0] == "call"}
                    args = [(a, n.frame) for a in n.ast.args[1:]]
                    for meth, obj, fr in self.callable_effects(cfg, n.ast.args[0], n.frame, args):
                        if self.late_bound(n, n.ast.args[0], obj):
                            continue
                        out.append((n, meth, origins(cfg, obj, fr), ("registered", stack)))
                continue
            out.append((n, f.attr, origins(cfg, f.value, n.frame), ("direct", None)))
        return out

    def late_bound(self, node, cb, obj):
        """A lambda capturing a variable that the surrounding loop rebinds releases only the last one."""
        if not isinstance(cb, ast.Lambda):
            return False
        base = obj
        while isinstance(base, ast.Attribute):
            base = base.value
        if not isinstance(base, ast.Name) or base.id in [a.arg for a in cb.args.args]:
            return False
        m = node.frame.scope.module
        n = node.ast
        while n is not None and n not in m.scope_of:
            n = m.parent_of.get(n)
            if isinstance(n, (ast.For, ast.While)) and any(
                    isinstance(x, ast.Name) and x.id == base.id and isinstance(x.ctx, ast.Store) for x in ast.walk(n)):
                return True
        return False

    # ---- one function
    def run_function(self, scope, main):
        c, prog = self.c, self.prog
        inl = lambda ref, call, frame: ref is not None and ref.kind == "func" and ref.value.name not in ("Parallel",)
        cfg = CFG(prog, scope, policy=inl)
        acq, makers = [], []
        for n in cfg.nodes:
            # attribute stores and registrations are taken not to raise
            if n.kind == "assign" and isinstance(n.extra[0], (ast.Name, ast.Attribute)):
                n.exc = None
            if n.kind == "call" and isinstance(n.ast.func, ast.Attribute) and n.ast.func.attr == "callback" and self.is_stack(
                    cfg, n.ast.func.value, n.frame):
                n.exc = None
        for n in cfg.nodes:
            if n.kind == "call":
                k = self.raw_kind(n.ast, n.frame.scope)
                if k == "shm":
                    acq.append((n, k, n.ast))
                elif k:
                    makers.append((n, k))
        ev = self.events(cfg)
        for n, meth, orig, how in ev:
            if meth == "start" and how[0] == "direct":
                for mk, k in makers:
                    if ("call", mk.ast) in orig:
                        acq.append((n, k, mk.ast))
        if not acq:
            return cfg
        stacks_ok = {}

        def stack_ok(how):
            if how[0] == "direct":
                return True
            for s in how[1]:
                if s not in stacks_ok:
                    stacks_ok[s] = self.entered(cfg, s)
                if not stacks_ok[s]:
                    return False
            return True

        closers = [n for n, meth, orig, how in ev if how[0] == "direct" and meth in ("close", "__exit__") and any(
            o[0] == "call" and prog.resolve(o[1].func, n.frame.scope).dotted == "contextlib.ExitStack" for o in orig)]
        for n, meth, orig, how in ev:
            if meth == "pop_all":
                c.violation("released-on-every-exit", f"{scope.qual}:pop_all", self.at(n),
                            "registered releases are taken off the stack by pop_all(): they no longer run when the run ends")
        for n, kind, made in acq:
            what = f"{scope.qual}: {kind} acquired by {ast.unparse(n.ast)[:60]}"
            c.instance("released-on-every-exit", what)
            if kind == "thread":
                self.thread(cfg, n, made, ev, stack_ok, scope)
                continue
            rel = {m for m, meth, orig, how in ev
                   if meth == RELEASE[kind] and stack_ok(how) and (("call", made) in orig or UNK in orig)}
            if any(how[0] == "registered" and not stack_ok(how) for *_, how in ev):
                rel |= set(closers)
            p = self.leak(cfg, n, rel, main, made)
            if p:
                c.violation("released-on-every-exit", f"{scope.qual}:{kind}:{self.label(n, made)}", self.at(n),
                            f"{kind} acquired here is not released ({RELEASE[kind]}) when {p}")
        return cfg

    def label(self, n, made):
        m = n.frame.scope.module
        p = m.parent_of.get(made)
        while p is not None and not isinstance(p, ast.stmt):
            p = m.parent_of.get(p)
        if isinstance(p, ast.Assign) and isinstance(p.targets[0], (ast.Name, ast.Attribute)):
            return ast.unparse(p.targets[0])
        return ast.unparse(made.func)

    def at(self, n):
        from sa.common import rel
        return f"{rel(n.frame.scope.module.path)}:{getattr(n.ast, 'lineno', 0)}"

    def through(self, cfg, rel):
        """Release nodes plus loops and guards standing for them."""
        out = set(rel)
        for r in rel:
            m = r.frame.scope.module
            n = r.ast
            while n is not None and n not in m.scope_of:
                n = m.parent_of.get(n)
                if isinstance(n, (ast.For, ast.comprehension, ast.GeneratorExp, ast.ListComp)):
                    gens = n.generators if not isinstance(n, (ast.For, ast.comprehension)) else [n]
                    out |= {x for x in cfg.nodes if x.kind == "loop" and x.ast in gens and x.frame is r.frame}
                if isinstance(n, ast.If):
                    names = {x.id for x in ast.walk(r.ast) if isinstance(x, ast.Name)}
                    cond = {x.id for x in ast.walk(n.test) if isinstance(x, ast.Name)}
                    if names & cond or self.same_guard_elsewhere(cfg, n, r):
                        out |= {x for x in cfg.nodes if x.kind == "test" and x.frame is r.frame and any(
                            y is x.ast for y in ast.walk(n.test))}
        return out

    def same_guard_elsewhere(self, cfg, ifnode, r):
        t = ast.unparse(ifnode.test)
        return any(x.kind == "test" and x.ast is not ifnode.test and ast.unparse(x.ast) == t for x in cfg.nodes)

    def leak(self, cfg, n, rel, main, made):
        stop = self.through(cfg, rel)
        # already registered on every path before?
        before = cfg.reach([cfg.entry], stop=lambda x: x in stop)
        if n not in before:
            return None
        starts = [t for _, t in n.succ]
        seen = cfg.reach(starts, stop=lambda x: x in stop)
        ends = [(cfg.eexit, "an exception is raised")]
        if main:
            ends.append((cfg.exit, "the function returns"))
        for end, txt in ends:
            if end in seen:
                p = cfg.path(seen, end)
                last = [x for x in p if x.ast is not None and x.kind in ("call", "sub", "op", "raise", "yield", "assign", "return")]
                where = f" (at line {last[-1].ast.lineno}: {ast.unparse(last[-1].ast)[:60]})" if last else ""
                return txt + where
        return None

    # ---- progress thread
    def thread(self, cfg, start, made, ev, stack_ok, scope):
        c, prog = self.c, self.prog
        tgt = next((k.value for k in made.keywords if k.arg == "target"), made.args[1] if len(made.args) > 1 else None)
        r = prog.resolve(tgt, start.frame.scope) if tgt is not None else None
        if r is None or r.kind != "func":
            c.note("progress thread target not resolved")
            return
        tcfg = CFG(prog, r.value, policy=lambda ref, call, fr: True)
        loops = [n for n in tcfg.nodes if n.kind == "loop" and isinstance(n.ast, ast.While)]
        signals = set()
        for h in loops:
            c.instance("thread-can-be-stopped", f"{r.value.qual}: while {ast.unparse(h.ast.test)[:60]}")
            tests = []
            for n in tcfg.nodes:
                if n.kind == "test":
                    for x in ast.walk(n.ast):
                        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("is_set", "wait") and n.ast is x:
                            o = origins(tcfg, x.func.value, n.frame)
                            name = self.free_name(x.func.value, n.frame)
                            tests.append((n, name))
            good = []
            for n, name in tests:
                t = [s for lab, s in n.succ if lab is True]
                if t and h not in tcfg.reach(t, follow_exc=False):
                    good.append((n, name))
            cyc = tcfg.reach([s for _, s in h.succ], stop=lambda x: any(x is g for g, _ in good), follow_exc=False)
            if h in cyc:
                c.violation("thread-can-be-stopped", f"{r.value.qual}:loop", f"{self.at(h)}",
                            "the progress thread's loop has a cycle that never tests a stop event: it never ends when the run fails")
            signals |= {nm for _, nm in good}
        if not loops:
            return
        def same_event(orig_expr_names, name):
            return name in orig_expr_names
        sig_nodes = {}
        for n, meth, orig, how in ev:
            if meth == "set" and stack_ok(how):
                nm = self.event_names(cfg, n, "set")
                if nm & signals or not signals:
                    sig_nodes[n] = how
        p = self.leak(cfg, start, set(sig_nodes), True, made)
        if p:
            c.violation("released-on-every-exit", f"{scope.qual}:thread", self.at(start),
                        f"the progress thread started here is not told to stop when {p}")
        # a join must not wait for a thread that has not been told to stop
        for n, meth, orig, how in ev:
            if meth != "join" or not (("call", made) in orig):
                continue
            c.instance("join-after-signal", f"{scope.qual}: {ast.unparse(n.ast)[:60]}")
            if how[0] == "registered":
                # LIFO: the signal has to be registered later, with nothing in between that can fail
                reg = {m for m, h2 in sig_nodes.items() if h2[0] == "registered" and h2[1] == how[1]}
                direct = {m for m, h2 in sig_nodes.items() if h2[0] == "direct"}
                seen = cfg.reach([t for _, t in n.succ], stop=lambda x: x in reg or x in direct)
                if cfg.exit in seen or cfg.eexit in seen:
                    c.violation("join-after-signal", f"{scope.qual}:join", self.at(n),
                                "the thread is joined on exit before (or without) being told to stop: a failing run blocks forever")
            elif not n.ast.args and not n.ast.keywords:
                work = [x.exc for x in self.work_nodes(cfg) if x.exc is not None]
                seen = cfg.reach(work, stop=lambda x: x in sig_nodes)
                if n in seen:
                    c.violation("join-after-signal", f"{scope.qual}:join", self.at(n),
                                "the thread is joined before being told to stop: a failing run blocks forever")

    def free_name(self, e, fr):
        while isinstance(e, ast.Attribute):
            e = e.value
        if isinstance(e, ast.Name):
            s = fr.scope.lookup_scope(e.id)
            f = fr.frame_of(s) if s is not None else None
            if f is not None and e.id in f.binds:
                return self.free_name(*f.binds[e.id])
            return (s.qual if s else None, e.id)
        return None

    def event_names(self, cfg, n, meth):
        """Names of the objects on which `meth` is called (directly or when the registered callback runs)."""
        f = n.ast.func
        out = set()
        if f.attr == meth:
            out.add(self.free_name(f.value, n.frame))
        elif f.attr == "callback" and n.ast.args:
            for m, obj, fr in self.callable_effects(cfg, n.ast.args[0], n.frame, [(a, n.frame) for a in n.ast.args[1:]]):
                if m == meth:
                    out.add(self.free_name(obj, fr))
        return out

    # ---- the original exception
    def work_nodes(self, cfg):
        out = []
        for n in cfg.nodes:
            if n.kind != "call":
                continue
            o = origins(cfg, n.ast.func, n.frame, strip_attr=False) if isinstance(n.ast.func, ast.Name) else set()
            if any(x[0] == "param" and x[1][0] is cfg.root.scope and x[1][1] == cfg.root.scope.param_names()[0] for x in o):
                out.append(n)
            r = self.prog.resolve(n.ast.func.func, n.frame.scope) if isinstance(n.ast.func, ast.Call) else None
            if r is not None and r.dotted == "joblib.Parallel":
                out.append(n)
        return out

    def original_exception(self, cfg, scope):
        c = self.c
        work = self.work_nodes(cfg)
        for w in work:
            c.instance("exception-reaches-caller", f"{scope.qual}: {ast.unparse(w.ast)[:60]}")
            if w.exc is None:
                continue
            seen = cfg.reach([w.exc], follow_exc=False)
            if cfg.exit in seen:
                c.violation("exception-reaches-caller", f"{scope.qual}:swallowed", self.at(w),
                            "an exception raised here is swallowed: the run ends normally")
            for n in seen:
                if n.kind == "raise" and isinstance(n.ast, ast.Raise) and n.ast.exc is not None:
                    m = n.frame.scope.module
                    h = n.ast
                    while h is not None and not isinstance(h, ast.ExceptHandler):
                        h = m.parent_of.get(h)
                    if not (h is not None and isinstance(n.ast.exc, ast.Name) and n.ast.exc.id == h.name):
                        c.violation("exception-reaches-caller", f"{scope.qual}:replaced", self.at(n),
                                    "the original exception of a failing run is replaced by another one")
        if not work:
            raise AnalysisBroken("no call of the parallelised function found")


def run(c):
    a = Analysis(c)
    par = a.prog.func("tnco.parallel.Parallel")
    cfg = a.run_function(par, True)
    a.original_exception(cfg, par)
    for f in a.prog.all_functions():
        if f is par or f in cfg.inlined or isinstance(f.node, ast.Lambda):
            continue
        decs = [ast.unparse(d) for d in f.node.decorator_list]
        if any(a.raw_kind(call, sc) for call, sc in a.prog.calls_in(f, nested=False)) or any(
                "shm" == a.raw_kind(call, sc) for call, sc in a.prog.calls_in(f)):
            if f.parent.kind == "function" and f.parent in cfg.inlined | {par}:
                continue
            a.run_function(f, any("contextmanager" in d for d in decs))
    c.require("released-on-every-exit", 5)
    c.analysed["control-flow nodes of Parallel"] = len(cfg.nodes)
    c.assume("attribute loads, name assignments and ExitStack.callback itself do not raise; multiprocessing, threading and "
             "contextlib behave as documented")
