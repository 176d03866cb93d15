"""C21: parallel jobs honour stop requests, write only their own slots, and are marked completed after they return."""
import ast

from sa.pycfg import CFG
from sa.pydeps import Deps
from sa.pyprog import Program

TECHNIQUE = "CFG must-pass analysis of job functions (stop test before each step) and index/alias analysis of shared-buffer accesses"
NOTE = ("Every function handed to Parallel: on every path a test of stop[idx] precedes each optimizer step, and buffer entries are written at "
        "idx only. Parallel itself: each job gets its own index, the timeout callback sets the flag of every job, completed is set only "
        "after the work function returned. The time a single step takes and the operating system's scheduling are not modelled.")

PAR = "tnco.parallel.Parallel"


class Core:
    """A work function handed to Parallel."""

    def __init__(self, c, prog, f, buffers):
        self.c, self.prog, self.f, self.buffers = c, prog, f, buffers
        self.cfg = CFG(prog, f, policy=self.policy, max_depth=4)
        self.deps = Deps(prog, self.cfg)

    def policy(self, ref, call, fr):
        return getattr(ref, "kind", None) == "func" and ref.value.module is self.f.module

    def is_param(self, e, fr, name):
        return self.deps.exact(e, fr) == name

    def stop_sense(self, e, fr, depth=0):
        """'pos': true whenever the stop flag is set; 'neg': false whenever it is set."""
        if e is None or depth > 12:
            return None
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return {"pos": "neg", "neg": "pos"}.get(self.stop_sense(e.operand, fr, depth + 1))
        if isinstance(e, ast.BoolOp):
            s = [self.stop_sense(v, fr, depth + 1) for v in e.values]
            if isinstance(e.op, ast.Or):
                return "pos" if "pos" in s else "neg" if all(x == "neg" for x in s) else None
            return "neg" if "neg" in s else "pos" if all(x == "pos" for x in s) else None
        if isinstance(e, ast.Subscript):
            return "pos" if self.is_param(e.value, fr, "stop") and self.is_param(e.slice, fr, "idx") else None
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.comparators[0], ast.Constant):
            s, v = self.stop_sense(e.left, fr, depth + 1), e.comparators[0].value
            if s is None:
                return None
            same = isinstance(e.ops[0], (ast.Eq, ast.Is))
            if not same and not isinstance(e.ops[0], (ast.NotEq, ast.IsNot, ast.Gt)):
                return None
            truthy = bool(v) == same if not isinstance(e.ops[0], ast.Gt) else v == 0
            return s if truthy else {"pos": "neg", "neg": "pos"}[s]
        if isinstance(e, ast.Call):
            kids = self.cfg.child.get((id(e), id(fr)))
            if kids:
                rs = [self.stop_sense(v, f, depth + 1) for k in kids for v, f in k.returns]
                if rs and rs[0] is not None and all(r == rs[0] for r in rs):
                    return rs[0]
                rs = [self.helper_sense(k, depth + 1) for k in kids]
                return rs[0] if rs and all(r == rs[0] for r in rs) else None
            if isinstance(e.func, ast.Name) and e.func.id in ("bool", "int") and len(e.args) == 1:
                return self.stop_sense(e.args[0], fr, depth + 1)
            if isinstance(e.func, ast.Attribute) and e.func.attr == "__getitem__" and len(e.args) == 1:
                return "pos" if self.is_param(e.func.value, fr, "stop") and self.is_param(e.args[0], fr, "idx") else None
            if isinstance(e.func, ast.Name) and e.func.id == "any" and e.args and isinstance(e.args[0], (ast.Tuple, ast.List)):
                return self.stop_sense(ast.BoolOp(ast.Or(), e.args[0].elts), fr, depth + 1)
        if isinstance(e, ast.Name):
            s = fr.scope.lookup_scope(e.id)
            if s is None or s.kind != "function":
                return None
            vs = [(k, n) for k, n in s.binds[e.id]]
            if vs and all(k == "assign" and getattr(n, "value", None) is not None for k, n in vs):
                f = fr.frame_of(s) or fr
                r = [self.stop_sense(n.value, f, depth + 1) for k, n in vs]
                return r[0] if all(x == r[0] for x in r) else None
        return None

    def helper_sense(self, kid, depth):
        """The sense of a helper that decides with branches: what it can return while the flag is set."""
        enter = [n for n in self.cfg.nodes if n.kind == "enter" and n.frame is kid]
        seen, todo, outs = set(), enter, []
        while todo:
            n = todo.pop()
            if n in seen:
                continue
            seen.add(n)
            if n.kind == "return" and n.frame is kid:
                outs.append(n.ast.value)
                continue
            if n.kind == "leave" and n.frame is not kid and any(k is kid for k in self.cfg.child.get((id(n.ast), id(n.frame)), ())):
                outs.append(None)
                continue
            s = self.stop_sense(n.ast, n.frame, depth + 1) if n.kind == "test" else None
            todo += [t for lab, t in n.succ if s is None or lab is (s == "pos")]
        def truth(v):
            if v is None or isinstance(v, ast.Constant):
                return "pos" if v is not None and v.value else "neg"
            return self.stop_sense(v, kid, depth + 1)
        rs = {truth(v) for v in outs}
        return rs.pop() if len(rs) == 1 else None

    def named_sources(self, e, fr):
        """Assignments that give a tested local name its value: they must be fresh too."""
        out = set()
        for x in ast.walk(e):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                s = fr.scope.lookup_scope(x.id)
                if s is None or s.kind != "function":
                    continue
                for k, n in s.binds[x.id]:
                    if k == "assign" and getattr(n, "value", None) is not None:
                        if self.stop_sense(n.value, fr.frame_of(s) or fr) is not None:
                            out.add(id(n))
        return out

    def steps(self):
        out = []
        for n in self.cfg.nodes:
            if n.kind == "call" and isinstance(n.ast.func, ast.Attribute) and n.ast.func.attr == "update":
                cls = self.prog.class_of(n.ast.func.value, n.frame.scope)
                if cls is None:
                    v = n.ast.func.value
                    if isinstance(v, ast.Name):
                        f = n.frame
                        s = f.scope.lookup_scope(v.id)
                        ff = f.frame_of(s) if s is not None else None
                        if ff is not None and v.id in ff.binds:
                            x, fx = ff.binds[v.id]
                            cls = self.prog.class_of(x, fx.scope)
                if cls is not None and cls.module.name.startswith("tnco.optimize"):
                    out.append(n)
        return out

    def lazily_checked(self, loop):
        """for x in takewhile(lambda _: not stop[idx], ...), or over a local generator that tests the flag."""
        it = getattr(loop.ast, "iter", None)
        for x in ast.walk(it) if it is not None else ():
            if isinstance(x, ast.Call):
                r = self.prog.resolve(x.func, loop.frame.scope)
                if r.dotted == "itertools.takewhile" and isinstance(x.args[0], ast.Lambda):
                    class F:
                        scope = loop.frame.scope.module.scope_of[x.args[0]]
                        binds = {}
                        frame_of = loop.frame.frame_of
                    if any(isinstance(y, ast.Subscript) and isinstance(y.value, ast.Name) and y.value.id == "stop" for y in ast.walk(x.args[0].body)):
                        return True
                if r.kind == "func" and any(isinstance(y, (ast.Yield, ast.YieldFrom)) for y in ast.walk(r.value.node)):
                    if any(isinstance(y, ast.Subscript) and isinstance(y.value, ast.Name) and y.value.id == "stop" for y in ast.walk(r.value.node)):
                        return True
        return False

    def run(self):
        c, cfg = self.c, self.cfg
        self.slots()
        steps = self.steps()
        if not steps:
            c.note(f"{self.f.qual}: no optimizer step found")
            return False
        cut, fresh = set(), set()
        for n in cfg.nodes:
            if n.kind == "test":
                s = self.stop_sense(n.ast, n.frame)
                if s is not None:
                    c.instance("stop-test", f"{self.f.qual}: {ast.unparse(n.ast)[:60]}")
                    cut |= {(n, lab) for lab, _ in n.succ if lab is (s == "neg")}
                    fresh |= self.named_sources(n.ast, n.frame)
            elif n.kind == "loop" and isinstance(n.ast, (ast.For, ast.comprehension)) and self.lazily_checked(n):
                c.instance("stop-test", f"{self.f.qual}: lazily checked loop")
                cut |= {(n, "iter")}

        def reach(starts, block):
            seen, todo = set(), list(starts)
            while todo:
                n = todo.pop()
                if n in seen:
                    continue
                seen.add(n)
                if n.kind == "assign" and id(n.ast) in block:
                    continue
                for lab, t in n.succ:
                    if (n, lab) in cut and not block:
                        continue
                    todo.append(t)
                if n.exc is not None:
                    todo.append(n.exc)
            return seen

        for st in steps:
            c.instance("stop-before-step", f"{self.f.qual}: {ast.unparse(st.ast)[:60]}")
            starts = [cfg.entry] + [t for s in steps for _, t in s.succ]
            bad = st in reach(starts, set())
            if not bad and fresh:
                # a flag read once outside the loop is stale
                direct = any(n.kind == "test" and self.stop_sense(n.ast, n.frame) and not self.named_sources(n.ast, n.frame) for n in cfg.nodes)
                if not direct and st in reach([t for s in steps for _, t in s.succ], fresh):
                    bad = True
            if bad:
                c.violation("stop-before-step", self.f.qual, self.where(st),
                            f"'{ast.unparse(st.ast)[:50]}' can run without a test of the job's own stop flag since the previous step")
        return True

    def where(self, n):
        from sa.common import rel
        return f"{rel(n.frame.scope.module.path)}:{getattr(n.ast, 'lineno', 0)}"

    def slots(self):
        c, cfg = self.c, self.cfg
        rebound = [n for k, n in self.f.binds.get("idx", []) if k != "param"]
        for n in cfg.nodes:
            tgts = []
            if n.kind in ("assign", "aug"):
                t = n.extra[0]
                for x in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                    if isinstance(x, ast.Subscript):
                        tgts.append((x.value, x.slice, "write"))
            elif n.kind == "call" and isinstance(n.ast.func, ast.Attribute) and n.ast.func.attr == "__setitem__" and len(n.ast.args) == 2:
                tgts.append((n.ast.func.value, n.ast.args[0], "write"))
            elif n.kind == "sub" and isinstance(n.ast.ctx, ast.Load):
                tgts.append((n.ast.value, n.ast.slice, "read"))
            for v, i, what in tgts:
                b = self.deps.exact(v, n.frame)
                if b not in self.buffers or (what == "read" and b != "stop"):
                    continue
                c.instance("own-slot", f"{self.f.qual}: {ast.unparse(v)}[{ast.unparse(i)}] ({what})")
                if self.deps.exact(i, n.frame) != "idx":
                    c.violation("own-slot", f"{self.f.qual}:{b}", self.where(n),
                                f"a job {what}s entry '{ast.unparse(i)}' of the shared buffer '{b}' instead of its own")
                elif rebound:
                    c.violation("own-slot", f"{self.f.qual}:{b}:rebound", self.where(n),
                                f"'idx' is rebound in {self.f.qual}, so the entry of '{b}' used may belong to another job")


def calls_to(prog, dotted):
    for f in prog.all_functions():
        for call, sc in prog.calls_in(f, nested=False):
            r = prog.resolve(call.func, sc)
            if r.dotted == dotted:
                yield call, sc, f


def job_rules(c, prog):
    n = 0
    for call, sc, f in calls_to(prog, PAR):
        if f.module.name.startswith("tnco.testing") or f.qual.startswith(PAR):
            continue
        a = call.args[0] if call.args else next((k.value for k in call.keywords if k.arg == "core"), None)
        r = prog.resolve(a, sc) if a is not None else None
        if r is None or r.kind != "func":
            c.note(f"{f.qual}: the work function of Parallel is not evident")
            continue
        bufs = {"status", "stop"}
        for k in call.keywords:
            if k.arg == "buffers":
                bufs |= {x.value for x in ast.walk(k.value) if isinstance(x, ast.Constant) and isinstance(x.value, str) and len(x.value) > 1}
        core = Core(c, prog, r.value, bufs)
        if core.run():
            n += 1
    return n


def parallel_rules(c, prog):
    f = prog.func(PAR)
    m = f.module
    core_param = f.param_names()[0]
    cfg = CFG(prog, f, policy=lambda r, call, fr: False, max_depth=2)

    def is_core(e, sc):
        r = prog.resolve(e, sc)
        return r.kind == "param" and r.name == core_param and r.scope is f

    # wrapper(s) that call the work function
    wrappers = {}
    for g in [s for s in m.scope_of.values() if s.kind == "function" and s is not f]:
        s = g
        while s is not None and s is not f:
            s = s.parent
        if s is not f:
            continue
        for call, sc in prog.calls_in(g, nested=False):
            if is_core(call.func, sc):
                wrappers.setdefault(g, []).append(call)
    if not wrappers:
        c.note("Parallel: the work function is not called through a wrapper")
    for g, calls in wrappers.items():
        gc = CFG(prog, g, max_depth=3)
        gd = Deps(prog, gc)
        core_nodes = [n for n in gc.nodes if n.kind == "call" and n.ast in calls]
        stores = []
        for n in gc.nodes:
            t = None
            if n.kind == "assign":
                t = n.extra[0]
            if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name):
                s = n.frame.scope.lookup_scope(t.value.id)
                if s is f:
                    stores.append((n, t.value.id, t.slice))
            elif n.kind == "call" and isinstance(n.ast.func, ast.Attribute) and n.ast.func.attr == "__setitem__" and isinstance(
                    n.ast.func.value, ast.Name) and n.frame.scope.lookup_scope(n.ast.func.value.id) is f:
                stores.append((n, n.ast.func.value.id, n.ast.args[0]))
        c.instance("completed-last", g.qual)
        before = gc.reach([gc.entry], stop=lambda n: n in core_nodes)
        before = set(before) - set(core_nodes)
        # exceptions of the work function itself
        for n in core_nodes:
            if n.exc is not None:
                before |= set(gc.reach([n.exc]))
        for n, name, i in stores:
            if n in before:
                c.violation("completed-last", f"{g.qual}:{name}", f"{g.where()}",
                            f"'{name}' of a job can be set although its work function has not returned")
            ix = gd.exact(i, n.frame)
            c.instance("own-slot", f"{g.qual}: {name}[{ast.unparse(i)}]")
            if ix != "idx":
                c.violation("own-slot", f"{g.qual}:{name}", g.where(), f"the wrapper of a job writes entry '{ast.unparse(i)}' of '{name}'")
        if not stores:
            c.violation("completed-last", f"{g.qual}:missing", g.where(), "a job is never marked completed")
        else:
            sn = {n for n, _, _ in stores}
            if gc.exit in gc.reach([gc.entry], stop=lambda n: n in sn, follow_exc=False):
                c.violation("completed-last", f"{g.qual}:some", g.where(), "a job may return without being marked completed")
        # the work function gets the wrapper's own index
        for n in core_nodes:
            ix = next((k.value for k in n.ast.keywords if k.arg == "idx"), None)
            if ix is not None and gd.exact(ix, n.frame) != "idx":
                c.violation("own-slot", f"{g.qual}:idx", g.where(), f"the work function is given index '{ast.unparse(ix)}' instead of the job's own")

    # the buffers handed to the jobs, and their index
    names = {}
    for call, sc in prog.calls_in(f):
        fn = call.func
        tgt = None
        if isinstance(fn, ast.Call) and fn.args:  # delayed(core_)(...)
            tgt = prog.resolve(fn.args[0], sc)
        elif isinstance(fn, ast.Name):
            tgt = prog.resolve(fn, sc)
        if tgt is None or not (tgt.kind == "func" and tgt.value in wrappers or is_core(fn, sc) and sc is f):
            continue
        c.instance("job-arguments", ast.unparse(call)[:60])
        for k in call.keywords:
            if k.arg in ("status", "stop") and isinstance(k.value, ast.Name):
                names.setdefault(k.arg, set()).add(k.value.id)
            if k.arg == "idx":
                bad = index_source(prog, k.value, sc)
                if bad:
                    c.violation("job-arguments", f"{f.qual}:idx", f.where(), f"jobs do not get consecutive indices of their own ({bad})")
    for a in ("status", "stop"):
        if len(names.get(a, ())) > 1:
            c.violation("job-arguments", f"{f.qual}:{a}", f.where(), f"jobs are given different buffers as '{a}': {sorted(names[a])}")
    if names.get("status") and names.get("status") == names.get("stop"):
        c.violation("job-arguments", f"{f.qual}:same", f.where(), "'status' and 'stop' are the same buffer")
    stop_vars = names.get("stop", {"stop"})

    # timer
    found = False
    for call, sc in prog.calls_in(f):
        if prog.resolve(call.func, sc).dotted != "threading.Timer":
            continue
        found = True
        iv = call.args[0] if call.args else next((k.value for k in call.keywords if k.arg == "interval"), None)
        fn = call.args[1] if len(call.args) > 1 else next((k.value for k in call.keywords if k.arg == "function"), None)
        c.instance("timeout", ast.unparse(call)[:60])
        interval_rule(c, prog, f, iv, sc)
        r = prog.resolve(fn, sc) if fn is not None else None
        if r is None or r.kind != "func":
            c.note("Parallel: the timeout callback is not evident")
            continue
        callback_rule(c, prog, f, r.value, stop_vars)
        # the timer is started before the jobs run
        tv = m.parent_of.get(call)
        name = tv.targets[0].id if isinstance(tv, ast.Assign) and isinstance(tv.targets[0], ast.Name) else None
        starts = {n for n in cfg.nodes if n.kind == "call" and isinstance(n.ast.func, ast.Attribute) and n.ast.func.attr == "start" and (
            isinstance(n.ast.func.value, ast.Name) and n.ast.func.value.id == name or n.ast.func.value is call)}
        runs = set()
        for n in cfg.nodes:
            if n.kind == "call" and any(isinstance(x, ast.Name) and prog.resolve(x, n.frame.scope).kind == "func" and
                                        prog.resolve(x, n.frame.scope).value in wrappers for x in ast.walk(n.ast)):
                if n.ast not in [x for xs in wrappers.values() for x in xs]:
                    runs.add(n)
        if name is not None or starts:
            free = cfg.reach([cfg.entry], stop=lambda n: n in starts, follow_exc=False)
            helper = any(isinstance(x, ast.Name) and x.id == name and isinstance(m.parent_of.get(x), ast.Call) for x in ast.walk(f.node))
            for n in runs:
                if n in free and not helper:
                    c.violation("timeout", f"{f.qual}:start", f.where(), "jobs can run without the timeout having been started")
    if not found:
        c.note("Parallel: no threading.Timer")


def index_source(prog, e, sc, depth=0):
    """Why the index of a job is not one of 0, 1, 2, ... of its own (None when it is, or when it cannot be told)."""
    m = sc.module
    if isinstance(e, ast.Constant):
        return f"the constant {e.value}"
    if isinstance(e, ast.BinOp):
        return ast.unparse(e)
    if not isinstance(e, ast.Name):
        return None
    s = sc.lookup_scope(e.id)
    if s is None:
        return None
    for k, n in s.binds[e.id]:
        src = None
        if k == "param" and isinstance(s.node, ast.Lambda):
            p = m.parent_of.get(s.node)
            if isinstance(p, ast.Call) and p.args and p.args[0] is s.node:
                i = s.param_names().index(e.id)
                d = prog.resolve(p.func, prog.scope_at(m, p)).dotted
                if d in ("builtins.map", "itertools.starmap"):
                    if d == "builtins.map" and i + 1 < len(p.args):
                        src = p.args[i + 1]
                    elif d == "itertools.starmap" and len(p.args) > 1:
                        src = ("item", p.args[1], i)
        elif k == "unpack" and hasattr(n, "iter") or k == "for":
            t = n.target
            if isinstance(t, ast.Name):
                src = n.iter
            elif isinstance(t, ast.Tuple):
                i = next((i for i, x in enumerate(t.elts) if isinstance(x, ast.Name) and x.id == e.id), None)
                src = ("item", n.iter, i)
        elif k == "assign" and depth < 4:
            return index_source(prog, n.value, s, depth + 1)
        if src is None:
            continue
        sc2 = prog.scope_at(m, s.node) if isinstance(s.node, ast.Lambda) else s
        return bad_counter(prog, src, sc2)
    return None


def bad_counter(prog, src, sc):
    item = None
    if isinstance(src, tuple):
        _, src, item = src
    if isinstance(src, ast.Name):
        s = sc.lookup_scope(src.id)
        vs = [n.value for k, n in s.binds[src.id] if k == "assign"] if s is not None else []
        if len(vs) == 1:
            src = vs[0]
    if not isinstance(src, ast.Call):
        return None
    d = prog.resolve(src.func, sc).dotted
    if item is not None:
        if d == "builtins.enumerate":
            if item != 0:
                return "not the position"
            start = src.args[1] if len(src.args) > 1 else next((k.value for k in src.keywords if k.arg == "start"), None)
            return None if start is None or isinstance(start, ast.Constant) and start.value == 0 else ast.unparse(src)
        if d == "builtins.zip" and item < len(src.args):
            return bad_counter(prog, src.args[item], sc)
        return None
    if d == "builtins.range":
        if len(src.args) == 1:
            return None if not isinstance(src.args[0], ast.BinOp) else ast.unparse(src)
        if len(src.args) == 2 and isinstance(src.args[0], ast.Constant) and src.args[0].value == 0:
            return None
        return ast.unparse(src)
    if d == "itertools.count":
        return None if not src.args or isinstance(src.args[0], ast.Constant) and src.args[0].value == 0 and len(src.args) == 1 else ast.unparse(src)
    if d == "itertools.repeat":
        return ast.unparse(src)
    return None


def interval_rule(c, prog, f, e, sc, depth=0):
    if e is None or depth > 4:
        return
    if isinstance(e, ast.Name) and e.id != "timeout":
        s = sc.lookup_scope(e.id)
        for k, n in (s.binds[e.id] if s is not None else []):
            if k == "assign":
                interval_rule(c, prog, f, n.value, sc, depth + 1)
        return
    mentions = any(isinstance(x, ast.Name) and x.id == "timeout" for x in ast.walk(e))
    if depth == 0 and not mentions and isinstance(e, (ast.Constant,)):
        c.violation("timeout", f"{f.qual}:interval", f.where(), "the timer does not use the requested timeout")
    if isinstance(e, ast.BoolOp) and isinstance(e.op, ast.Or) and isinstance(e.values[0], ast.Name) and e.values[0].id == "timeout":
        c.violation("timeout", f"{f.qual}:interval", f.where(), f"a timeout of 0 never fires ({ast.unparse(e)})")
    if isinstance(e, ast.IfExp):
        t = e.test
        if isinstance(t, ast.Name) and t.id == "timeout" or isinstance(t, ast.UnaryOp) and isinstance(t.operand, ast.Name) and t.operand.id == "timeout":
            c.violation("timeout", f"{f.qual}:interval", f.where(), f"a timeout of 0 never fires ({ast.unparse(e)})")
        for b in (e.body, e.orelse):
            interval_rule(c, prog, f, b, sc, depth + 1)
        return
    if isinstance(e, ast.BinOp) and mentions:
        c.violation("timeout", f"{f.qual}:interval", f.where(), f"the timer waits '{ast.unparse(e)}' instead of the requested timeout")


def callback_rule(c, prog, f, g, stop_vars):
    """The callback sets every entry of the stop buffer."""
    c.instance("timeout", g.qual)
    gc = CFG(prog, g, max_depth=3)
    ok = False
    wrong = []
    for n in gc.nodes:
        t, v = None, None
        if n.kind == "assign" and isinstance(n.extra[0], ast.Subscript):
            t, v = n.extra[0], n.extra[1]
            base, i = t.value, t.slice
        elif n.kind == "call" and isinstance(n.ast.func, ast.Attribute) and n.ast.func.attr == "__setitem__" and len(n.ast.args) == 2:
            base, i, v = n.ast.func.value, n.ast.args[0], n.ast.args[1]
        else:
            continue
        if not isinstance(base, ast.Name):
            continue
        if base.id not in stop_vars and n.frame.scope.lookup_scope(base.id) is f:
            wrong.append(f"it sets '{base.id}'")
            continue
        if isinstance(v, ast.Constant) and not v.value:
            wrong.append("it clears the flags")
            continue
        if not isinstance(i, ast.Name):
            wrong.append(f"it sets only entry '{ast.unparse(i)}'" if isinstance(i, ast.Constant) else f"it sets entry '{ast.unparse(i)}'")
            continue
        # loop that binds the index
        heads = [h for h in gc.nodes if h.kind == "loop" and isinstance(h.ast, (ast.For, ast.comprehension)) and any(
            isinstance(x, ast.Name) and x.id == i.id for x in ast.walk(h.ast.target))]
        if not heads:
            ok = True  # a lambda mapped over something: not followed
            continue
        h = heads[-1]
        t = h.ast.target
        bad = bad_counter(prog, h.ast.iter if isinstance(t, ast.Name) else ("item", h.ast.iter, [isinstance(x, ast.Name) and x.id == i.id for x in t.elts].index(True)),
                          h.frame.scope) if isinstance(t, (ast.Name, ast.Tuple)) else None
        if bad:
            wrong.append(f"it covers only {bad}")
            continue
        first = [m for lab, m in h.succ if lab == "iter"]
        seen = gc.reach(first, stop=lambda x: x is n, follow_exc=False)
        if h in seen:
            wrong.append("some entries are skipped")
            continue
        after = gc.reach([m for _, m in n.succ], stop=lambda x: x is h, follow_exc=False)
        if gc.exit in after and h not in after or any(x.kind == "return" for x in after):
            wrong.append("it stops after some entries")
            continue
        if gc.exit in gc.reach([m for _, m in n.succ], stop=lambda x: x is h, follow_exc=False):
            wrong.append("it may stop after some entries")
            continue
        ok = True
    if not ok and wrong:
        c.violation("timeout", f"{f.qual}:callback", g.where(), f"the timeout does not set the stop flag of every job: {wrong[0]}")
    elif not ok:
        if any(isinstance(x, ast.Name) and x.id in stop_vars for x in ast.walk(g.node)):
            c.note("Parallel: the timeout callback is not recognised")
        else:
            c.violation("timeout", f"{f.qual}:callback", g.where(), "the timeout callback does not set the stop flags")


def buffer_rule(c, prog):
    """Entry i of a buffer lives at i times the size of its type, for reads and writes alike."""
    cls = prog.classes.get("tnco.parallel.Buffer")
    if cls is None:
        c.note("Buffer not found")
        return
    offs = {}
    for name, fn in (("__getitem__", "struct.unpack_from"), ("__setitem__", "struct.pack_into")):
        m = prog.method(cls, name)
        if m is None:
            continue
        c.instance("buffer-offset", m.qual)
        pos = m.param_names()[1]
        for call, sc in prog.calls_in(m):
            if prog.resolve(call.func, sc).dotted != fn:
                continue
            off = call.args[2] if len(call.args) > 2 else next((k.value for k in call.keywords if k.arg == "offset"), None)
            if isinstance(off, ast.Name):
                vs = [n.value for k, n in m.binds.get(off.id, []) if k == "assign"]
                off = vs[0] if len(vs) == 1 else off
            if off is None:
                c.violation("buffer-offset", m.qual, m.where(), f"{m.qual} always uses the first entry")
                continue
            if isinstance(off, ast.BinOp) and isinstance(off.op, ast.Mult):
                sides = [off.left, off.right]
                if not any(isinstance(x, ast.Name) and x.id == pos for x in sides):
                    c.violation("buffer-offset", m.qual, m.where(), f"the offset '{ast.unparse(off)}' is not the position times the item size")
                size = next((x for x in sides if not (isinstance(x, ast.Name) and x.id == pos)), None)
                if isinstance(size, ast.Constant):
                    c.violation("buffer-offset", m.qual, m.where(), f"the item size is the constant {size.value}")
                elif size is not None:
                    offs[name] = ast.unparse(size).replace("self._dtype", "self.dtype")
            elif isinstance(off, ast.BinOp) or isinstance(off, ast.Name) and off.id == pos:
                c.violation("buffer-offset", m.qual, m.where(), f"the offset '{ast.unparse(off)}' is not the position times the item size")
    if len(set(offs.values())) > 1:
        c.violation("buffer-offset", cls.qual, cls.where(), f"reads and writes use different item sizes: {offs}")


def run(c):
    prog = Program()
    n = job_rules(c, prog)
    parallel_rules(c, prog)
    buffer_rule(c, prog)
    c.analysed["job functions"] = n
    c.require("own-slot", 5)
    c.require("stop-before-step", 2)
    c.assume("the work functions handed to Parallel by library users are outside the analysis")
