"""C16: every option of an entry point reaches the code it configures.

A table of obligations (entry point, callee, parameter, option). For every call of the callee reachable inside the entry
point (helpers inlined), the argument bound to the parameter - through keywords, positions, ** dictionaries, partials -
must be exactly the option, and the option must not have been replaced on all paths before the call.
"""
import ast

from sa.common import AnalysisBroken
from sa.pycfg import CFG
from sa.pydeps import Deps
from sa.pyprog import Program, bind_args, walk_scope

TECHNIQUE = "argument-flow analysis: option-forwarding obligations over the inlined Python call graph"
NOTE = ("For each entry point and each delegated call the argument bound to every option is traced to its root input (aliases, "
        "helpers, ** dictionaries, partials) and shown to be the option itself, not dropped, swapped or overwritten on every path. "
        "Dictionaries the analysis cannot enumerate are accepted; what the callee does with the option is covered only where the callee "
        "is an entry point itself.")

LOAD = "initial_state final_state decompose_hyper_inds fuse atol dtype backend ~seed"
CLOAD = "initial_state final_state simplify use_matrix_commutation decompose_hyper_inds fuse dtype atol backend ~seed"
FACT = ("max_width n_jobs width_type cost_type output_format output_filename output_compression overwrite_output_file atol dtype backend "
        "seed verbose")
NATIVE = "disable_shared_inds atol seed"
TABLE = {
    "tnco.app.app.load_tn": {
        "tnco.app.app.load_tn": LOAD + " simplify_circuit output_index_token sparse_index_token",
        "tnco.utils.circuit.load": LOAD + " simplify=simplify_circuit",
        "tnco.utils.tn.decompose_hyper_inds": "atol",
        "tnco.utils.tn.fuse": "max_width=fuse ~seed",
        "tnco.utils.tn.contract": "backend",
        "tnco.utils.tn.read_inds": "output_index_token sparse_index_token",
        "autoray.do:asarray": "dtype like=backend",
    },
    "tnco.app.app.BaseOptimizer._load_tn": {
        "tnco.app.app.load_tn": "obj=tn atol=self.atol dtype=self.dtype backend=self.backend ~seed=self.seed"
    },
    "tnco.app.app.BaseOptimizer._dump_results": {
        "tnco.app.app.dump_results":
            "tn res output_format=self.output_format output_filename=self.output_filename output_compression=self.output_compression "
            "overwrite_output_file=self.overwrite_output_file"
    },
    "tnco.app.app.Optimizer": {
        f"?{FACT}": FACT
    },
    "tnco.app.circuit.sampling.Sampler.__post_init__": {
        "tnco.app.app.Optimizer":
            "max_width=self.max_width n_jobs=self.n_jobs width_type=self.width_type cost_type=self.cost_type atol=self.atol "
            "dtype=self.dtype backend=self.optimization_backend ~seed=self.seed|self._rng"
    },
    "tnco.app.circuit.sampling.Sampler.sample": {
        "tnco.app.circuit.sampling.sample":
            "circuit optimizer=self._optimizer n_samples simplify use_matrix_commutation decompose_hyper_inds fuse qubit_order normalize "
            "return_intermediate_state_only dtype=self.dtype optimization_backend=self.optimization_backend contraction_backend "
            "~seed=self._rng|self.seed"
    },
    "tnco.app.circuit.sampling.sample": {
        "tnco.utils.circuit.load": "simplify use_matrix_commutation decompose_hyper_inds fuse dtype backend=optimization_backend ~seed",
        "tnco.utils.tn.contract": "backend=contraction_backend",
        "autoray.do:asarray": "dtype",
    },
    "tnco.app.finite_width.sa.Optimizer.optimize": {
        "tnco.optimize.finite_width.cost_model.SimpleCostModel":
            "max_width=self.max_width cost_type=self.cost_type width_type=self.width_type n_projs",
        "tnco.optimize.prob.MetropolisHastings": "cost_type=self.cost_type",
        "tnco.parallel.Parallel": "n_jobs=self.n_jobs timeout",
        "tnco.app.app.BaseOptimizer._load_tn": "tn",
    },
    "tnco.app.infinite_memory.sa.Optimizer.optimize": {
        "tnco.optimize.infinite_memory.cost_model.SimpleCostModel": "cost_type=self.cost_type n_projs",
        "tnco.optimize.prob.MetropolisHastings": "cost_type=self.cost_type",
        "tnco.parallel.Parallel": "n_jobs=self.n_jobs timeout",
        "tnco.app.app.BaseOptimizer._load_tn": "tn",
    },
    "tnco.app.finite_width.sa.Optimizer.optimize.core_": {
        "tnco.optimize.finite_width.optimizer.Optimizer": "~seed",
        "tnco.utils.tn.get_random_contraction_path": "~seed",
        "?:update": "update_slices~update_slices",
    },
    "tnco.app.infinite_memory.sa.Optimizer.optimize.core_": {
        "tnco.optimize.infinite_memory.optimizer.Optimizer": "~seed",
        "tnco.utils.tn.get_random_contraction_path": "~seed",
    },
    "tnco.optimize.finite_width.optimizer.Optimizer.__init__": {
        f"?{NATIVE} max_number_new_slices min_ctree slices min_slices skip_slices":
            NATIVE + " max_number_new_slices min_ctree=**_min_ctree ~slices=**_slices ~min_slices=**_min_slices ~skip_slices=skip_slices|self.skip_slices|self._skip_slices"
    },
    "tnco.optimize.infinite_memory.optimizer.Optimizer.__init__": {
        f"?{NATIVE} min_ctree": NATIVE + " min_ctree=**_min_ctree"
    },
    "tnco.optimize.finite_width.optimizer.Optimizer.update": {"?:update": "update_slices"},
    "tnco.optimize.finite_width.optimizer.Optimizer.is_valid": {"?:is_valid": "atol return_message"},
    "tnco.optimize.infinite_memory.optimizer.Optimizer.is_valid": {"?:is_valid": "atol return_message"},
    "tnco.optimize.prob.SimulatedAnnealing": {"tnco.optimize.prob.MetropolisHastings": "beta cost_type"},
    "tnco.utils.circuit.load": {
        "tnco.utils.circuit.load": CLOAD,
        "tnco.utils.circuit.same": "atol",
        "tnco.utils.circuit.commute": "atol use_matrix_commutation",
        "tnco.utils.tn.decompose_hyper_inds": "atol",
        "tnco.utils.tn.fuse": "max_width=fuse ~seed",
        "tnco.utils.tn.contract": "backend",
        "autoray.do:asarray": "dtype like=backend",
        "autoray.do:eye": "dtype like=backend",
        "autoray.do:ones": "dtype like=backend",
        "autoray.do:zeros": "dtype like=backend",
    },
    "tnco.utils.circuit.cirq_to_arrays": {"autoray.do:asarray": "dtype like=backend"},
    "tnco.utils.circuit.qiskit_to_arrays": {"autoray.do:asarray": "dtype like=backend"},
    "tnco.utils.circuit.same": {"autoray.do:allclose!": "atol"},
    "tnco.utils.circuit.commute": {"autoray.do:allclose": "atol"},
    "tnco.utils.tensor.is_diagonal": {"autoray.do:allclose": "atol"},
    "tnco.utils.tensor.decompose_hyper_inds": {
        "tnco.utils.tensor.decompose_hyper_inds": "atol",
        "tnco.utils.tensor.is_diagonal": "atol",
        "autoray.do:allclose": "atol",
    },
    "tnco.utils.tn.decompose_hyper_inds": {"tnco.utils.tensor.decompose_hyper_inds": "atol"},
    "tnco.utils.tn.get_random_contraction_path": {"tnco.utils.tn.merge_contraction_paths": "autocomplete"},
    "tnco.parallel.Parallel": {"joblib.parallel_config": "n_jobs"},
    "tnco.ctree.ContractionTree.__init__": {"?check_shared_inds": "check_shared_inds"},
}
# overloads: conversion helpers get the options under these names
OVERLOAD = {
    "tnco.utils.circuit": {"dtype": "dtype", "backend": "backend"},
    "tnco.app.circuit.sampling": {"dtype": "dtype", "backend": "optimization_backend"},
}
DEPRECATED = set()


def rows(spec):
    """'a b=self.c ~seed=self.x|self.y' -> (param, accepted roots, derived allowed)"""
    for w in spec.split():
        derived = w.startswith("~")
        w = w.lstrip("~")
        if "~" in w:
            p, o = w.split("~")
            derived = True
        else:
            p, _, o = w.partition("=")
            o = o or p
        yield p, tuple(o.split("|")), derived


class Analysis:

    def __init__(self, c):
        self.c = c
        self.prog = Program()
        self.roots = set(TABLE)
        self.callees = {k for v in TABLE.values() for k in v if k.startswith("tnco.")} | self.roots

    def policy(self, ref, call, frame):
        if ref is None or ref.kind != "func":
            return False
        q = ref.value.qual
        return q not in self.callees and not q.startswith("tnco.testing") and not any(d for d in ref.value.node.decorator_list)

    # ---- finding the calls of a callee
    def calls(self, cfg, name):
        """(node, call expr, callee scope or None, skip_self, offset of positional arguments)"""
        for n in cfg.nodes:
            if n.kind != "call":
                continue
            call, r, off = n.ast, n.extra, 0
            if r is not None and r.dotted == "functools.partial" and call.args:
                r2 = cfg.resolve_func(call.args[0], n.frame) if isinstance(call.args[0], (ast.Name, ast.Attribute)) else None
                if r2 is None:
                    continue
                call = ast.Call(func=call.args[0], args=call.args[1:], keywords=call.keywords)
                ast.copy_location(call, n.ast)
                r = r2
            if name.startswith("autoray.do:"):
                if r is not None and r.dotted == "autoray.do" and call.args and isinstance(
                        call.args[0], ast.Constant) and call.args[0].value == name.split(":")[1].rstrip("!") and self.within(
                            n.frame.scope, cfg.root.scope):
                    yield n, call, None, False
                continue
            if name.startswith("?:"):
                if isinstance(call.func, ast.Attribute) and call.func.attr == name[2:] and (r is None or r.kind != "class"):
                    yield n, call, None, False
                continue
            if name.startswith("?"):
                if r is None or r.kind not in ("func", "class"):
                    yield n, call, None, False
                continue
            if r is None or r.dotted != name:
                # self.method resolved through the class hierarchy
                if not (r is not None and r.kind == "func" and r.value.qual == name):
                    continue
            if r.kind == "func":
                g = r.value
                yield n, call, g, g.parent.kind == "class" and isinstance(call.func, ast.Attribute)
            elif r.kind == "class":
                g = self.prog.method(r.value, "__init__")
                yield n, call, g, True
            else:
                yield n, call, None, False

    @staticmethod
    def within(s, root):
        while s is not None:
            if s is root:
                return True
            s = s.parent
        return False

    # ---- is the expression the option?
    def judge(self, deps, e, fr, roots, derived, ann):
        """None if fine, otherwise the reason."""
        ex = deps.exact(e, fr)
        if ex in roots:
            return None
        if ex is not None:
            return f"is '{ex}'"
        d = deps.of(e, fr)
        base = {r[2:] if r.startswith("**") else r for r in roots}
        used = {r for r in roots if r in d or (r.startswith("**") and self.mentions_kw(deps, e, fr, r[2:]))} | (base & set(d))
        if not used:
            # unresolvable helper objects: anything opaque that may carry it
            if isinstance(e, ast.Constant):
                return f"is the constant {e.value!r}"
            if not d and self.closed(deps, e, fr):
                return f"does not depend on it ('{ast.unparse(e)[:60]}')"
            if d:
                return f"depends only on {sorted(d)}"
            return None
        if derived:
            return None
        x = self.strip(deps, e, fr)
        if isinstance(x, (ast.BinOp, ast.UnaryOp, ast.Compare)):
            return f"is a modified value ('{ast.unparse(x)[:60]}')"
        if isinstance(x, ast.BoolOp):
            if isinstance(x.op, ast.Or) and len(x.values) == 2 and isinstance(x.values[1], ast.Constant) and x.values[1].value is None:
                return None
            return f"is a modified value ('{ast.unparse(x)[:60]}')"
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("abs", "min", "max", "round", "bool", "str", "int",
                                                                                         "repr", "not"):
            if x.func.id in ("bool", "str", "int") and ann is not None and x.func.id in ast.unparse(ann):
                return None
            return f"is a modified value ('{ast.unparse(x)[:60]}')"
        return None

    def mentions_kw(self, deps, e, fr, key, depth=0):
        if depth > 10:
            return False
        for x in ast.walk(e):
            if deps.exact(x, fr) == f"**{key}" if isinstance(x, (ast.Call, ast.Subscript)) else False:
                return True
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                s = fr.scope.lookup_scope(x.id)
                if s is not None and s.kind == "function":
                    for kind, n in s.binds[x.id]:
                        if kind == "assign" and getattr(n, "value", None) is not None and n.value is not e:
                            if self.mentions_kw(deps, n.value, fr.frame_of(s) or fr, key, depth + 1):
                                return True
        return False

    def closed(self, deps, e, fr):
        """Only constants, names of modules/functions and operations on them."""
        return all(isinstance(x, (ast.Constant, ast.UnaryOp, ast.operator, ast.unaryop, ast.BinOp, ast.Tuple, ast.List, ast.expr_context))
                   for x in ast.walk(e))

    def strip(self, deps, e, fr, depth=0):
        if depth > 10:
            return e
        if isinstance(e, ast.Name):
            s = fr.scope.lookup_scope(e.id)
            if s is not None and s.kind == "function":
                f = fr.frame_of(s)
                if f is not None and e.id in f.binds:
                    x, fx = f.binds[e.id]
                    return self.strip(deps, x, fx, depth + 1)
                bs = s.binds[e.id]
                if not deps.root_param(s, e.id) and len(bs) == 1 and bs[0][0] == "assign" and getattr(bs[0][1], "value", None) is not None:
                    return self.strip(deps, bs[0][1].value, f or fr, depth + 1)
        return e

    def own_kwargs(self, f, call, fr):
        """Every ** of the call is the entry point's own **kwargs (which cannot carry the object's attributes)."""
        a = f.node.args
        ss = [k.value for k in call.keywords if k.arg is None]
        return a.kwarg is not None and not any(isinstance(x, ast.Starred) for x in call.args) and all(
            names_through(s, fr) - {"dict"} == {a.kwarg.arg} for s in ss)

    # ---- options replaced before the call on every path
    def killed(self, cfg, deps, node, opt, at=None):
        if opt.startswith(("self.", "**")):
            return None
        kills = {}
        for n in cfg.nodes:
            tgt = val = None
            if n.kind == "assign":
                tgt, val = n.extra
            elif n.kind == "aug":
                tgt, val = n.ast.target, None
            if isinstance(tgt, ast.Name) and tgt.id == opt:
                s = n.frame.scope.lookup_scope(opt)
                if s is not None and opt in s.param_names() and deps.root_param(s, opt) and n.frame.frame_of(s) is not None:
                    if n.kind == "assign" and val is not None and opt in deps_names(val):
                        x = val
                        if not isinstance(x, (ast.BinOp, ast.UnaryOp, ast.BoolOp)) and not (
                                isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("abs", "min", "max", "round")):
                            continue
                    kills[n] = n
        if not kills:
            return None
        # a real kill only if no path from entry avoids it
        seen = cfg.reach([cfg.entry], stop=lambda n: n in kills, follow_exc=True)
        if node in seen and node not in kills:
            return None
        for k in kills:
            if node in cfg.reach([k]):
                return k
        return None

    def run(self):
        c = self.c
        found = 0
        for root, spec in TABLE.items():
            try:
                f = self.prog.func(root)
            except AnalysisBroken:
                c.note(f"{root} not found")
                continue
            found += 1
            cfg = CFG(self.prog, f, policy=self.policy, max_depth=4)
            deps = Deps(self.prog, cfg)
            opts = f.params()
            for callee, rs in spec.items():
                self.obligations(f, cfg, deps, callee, rs)
        if not found:
            raise AnalysisBroken("no entry point found")
        self.overloads()
        self.dead_options()
        self.cli()
        c.analysed["files"] = len(self.prog.modules)

    def annotation(self, f, p):
        s = f
        while s is not None and s.kind != "module":
            if s.kind == "function":
                a = s.node.args
                for x in [*a.posonlyargs, *a.args, *a.kwonlyargs]:
                    if x.arg == p:
                        return x.annotation
            s = s.parent
        return None

    def obligations(self, f, cfg, deps, callee, rs):
        c = self.c
        rs = list(rows(rs))
        keys = {p for p, _, _ in rs}
        n_calls = 0
        sites = [(n, call, g, skip, *deps.arguments(call, n.frame, g, skip)) for n, call, g, skip in self.calls(cfg, callee)]
        if callee.endswith("!"):
            # at least one of the calls takes the option; those that do not are not concerned
            with_it = [x for x in sites if any(k in x[4] for k in keys)]
            sites = with_it or sites[:1]
        for n, call, g, skip, args, complete in sites:
            if callee.startswith("?") and not callee.startswith("?:"):
                want = callee[1:].split()
                if sum(1 for k in want if k in args) * 2 < len(want):
                    continue
            if callee.startswith("autoray.do:asarray") and isinstance(args.get("dtype", (None, None))[0], ast.Name) and args["dtype"][
                    0].id == "int":
                continue
            cls = None
            r = n.extra
            if g is None and r is not None and r.kind == "class":
                # dataclass: positional arguments follow the fields
                fields = [s.target.id for s in r.value.node.body if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name)]
                for i, k in enumerate(fields):
                    if i in args:
                        args[k] = args.pop(i)
            n_calls += 1
            where = f"{f.where()}:{getattr(n.ast, 'lineno', '?')}"
            short = callee.split(".")[-1].lstrip("?") if not callee.startswith("?") else ast.unparse(call.func)[:30]
            for p, roots, derived in rs:
                what = f"{f.qual} -> {short}({p}={'|'.join(roots)})"
                c.instance("forwarded-option", what)
                key = f"{f.qual}->{short}:{p}"
                if p not in args:
                    if complete or (roots[0].startswith("self.") and self.own_kwargs(f, call, n.frame)):
                        c.violation("forwarded-option", key, where,
                                    f"{f.qual} calls {short} without its option '{roots[0]}' (parameter '{p}')")
                    continue
                e, fr = args[p]
                bad = self.judge(deps, e, fr, roots, derived, self.annotation(f, roots[0]))
                if bad:
                    c.violation("forwarded-option", key, where,
                                f"{f.qual} calls {short} with '{p}' that {bad}, not the option '{roots[0]}'")
                    continue
                for o in roots:
                    k = self.killed(cfg, deps, n, o)
                    if k is not None:
                        c.violation("overwritten-option", key, where, f"the option '{o}' of {f.qual} is replaced at line "
                                    f"{k.ast.lineno} on every path before the call of {short}")
        if not n_calls:
            c.note(f"{f.qual}: no call of {callee}")

    # ---- registered overloads
    def overloads(self):
        c = self.c
        for f in self.prog.all_functions():
            if isinstance(f.node, ast.Lambda):
                continue
            for d in f.node.decorator_list:
                d0 = d.func if isinstance(d, ast.Call) else d
                if not (isinstance(d0, ast.Attribute) and d0.attr == "register"):
                    continue
                r = self.prog.resolve(d0.value, f.parent)
                if r.kind != "func":
                    continue
                target = r.value
                ann = f.node.args.args[0].annotation if f.node.args.args else None
                lab = f"{target.qual}[{ast.unparse(ann) if ann is not None else '?'}]"
                cfg = CFG(self.prog, f, policy=lambda ref, call, fr: ref is not None and ref.kind == "func" and ref.value is not target and not
                          ref.value.node.decorator_list and ref.value.name not in ("cirq_to_arrays", "qiskit_to_arrays"), max_depth=4)
                deps = Deps(self.prog, cfg)
                rec = [n for n in cfg.nodes if n.kind == "call" and n.extra is not None and n.extra.kind == "func" and n.extra.value is target]
                where = f.where()
                c.instance("overload-delegates", lab)
                if not rec:
                    c.violation("overload-delegates", lab, where, f"the overload {lab} does not call {target.name} on the converted circuit")
                    continue
                for n in rec:
                    # *args and **kwargs of the overload must be forwarded
                    self.forward_all(f, n, cfg, deps, target, lab)
                conv = {"cirq_to_arrays", "qiskit_to_arrays"}
                for n in cfg.nodes:
                    if n.kind == "call" and n.extra is not None and n.extra.kind == "func" and n.extra.value.name in conv:
                        g = n.extra.value
                        args, complete = deps.arguments(n.ast, n.frame, g, False)
                        for p, o in OVERLOAD.get(f.module.name, {}).items():
                            c.instance("overload-option", f"{lab} -> {g.name}({p})")
                            key = f"{lab}->{g.name}:{p}"
                            if p not in args:
                                if complete:
                                    c.violation("overload-option", key, where, f"the overload {lab} converts the circuit without '{o}'")
                                continue
                            e, fr = args[p]
                            ex = deps.exact(e, fr)
                            if ex in (f"**{o}", o):
                                continue
                            if ex is not None or isinstance(e, ast.Constant):
                                c.violation("overload-option", key, where,
                                            f"the overload {lab} converts the circuit with '{p}={ast.unparse(e)[:50]}' instead of '{o}'")
        c.require("overload-delegates", 1)

    def forward_all(self, f, n, cfg, deps, target, lab):
        c, a = self.c, f.node.args
        call = n.ast
        if a.vararg is not None:
            ok = any(isinstance(x, ast.Starred) and a.vararg.arg in {y.id for y in ast.walk(x.value) if isinstance(y, ast.Name)}
                     for x in call.args)
            if not ok:
                c.violation("overload-delegates", lab + ":args", f.where(), f"the overload {lab} does not pass its positional arguments on")
        if a.kwarg is not None:
            ss = [k.value for k in call.keywords if k.arg is None]
            ok = any(a.kwarg.arg in names_through(x, n.frame) for x in ss)
            if not ok:
                c.violation("overload-delegates", lab + ":kwargs", f.where(), f"the overload {lab} does not pass its options on")
            # options removed from kwargs before the call
            for m in cfg.nodes:
                if m.kind == "call" and isinstance(m.ast.func, ast.Attribute) and m.ast.func.attr == "pop" and isinstance(
                        m.ast.func.value, ast.Name) and m.ast.func.value.id == a.kwarg.arg and m.ast.args and isinstance(
                            m.ast.args[0], ast.Constant):
                    k = m.ast.args[0].value
                    if k in target.param_names() and not any(x.arg == k for x in call.keywords):
                        c.violation("overload-delegates", f"{lab}:pop:{k}", f.where(), f"the overload {lab} removes the option '{k}'")
            for k in call.keywords:
                if k.arg in target.param_names() and isinstance(k.value, ast.Constant):
                    c.violation("overload-delegates", f"{lab}:const:{k.arg}", f.where(),
                                f"the overload {lab} fixes the option '{k.arg}' to {k.value.value!r}")

    # ---- options never read
    def dead_options(self):
        c = self.c
        for f in self.prog.all_functions():
            if isinstance(f.node, ast.Lambda) or f.parent.kind == "function" or f.module.name.startswith("tnco.testing"):
                continue
            if f.name.startswith("_") and f.name not in ("__init__", "__call__", "_"):
                continue
            body = [s for s in f.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
            if not body or (len(body) == 1 and isinstance(body[0], (ast.Raise, ast.Pass))):
                continue  # interface only
            if any("abstract" in ast.unparse(d) or "overload" in ast.unparse(d) for d in f.node.decorator_list):
                continue
            names = f.param_names()
            if f.parent.kind == "class":
                names = names[1:]
            used, all_locals = set(), False
            for x in ast.walk(f.node):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                    used.add(x.id)
                    if x.id in ("locals", "vars"):
                        all_locals = True
            for p in names:
                c.instance("option-read", f"{f.qual}({p})")
                if p not in used and not all_locals:
                    c.violation("option-read", f"{f.qual}:{p}", f.where(), f"{f.qual} never uses its parameter '{p}'")

    # ---- command line
    def cli(self):
        c = self.c
        try:
            f = self.prog.func("tnco.app.cli.Main.__init__")
        except AnalysisBroken:
            c.note("no command line class")
            return
        c.instance("cli-options", f.qual)
        cfg = CFG(self.prog, f, policy=lambda r, cl, fr: r is not None and r.kind == "func" and r.value.qual.startswith("tnco.app.cli"))
        for n in cfg.nodes:
            if n.kind == "call" and n.extra is not None and n.extra.dotted == "tnco.app.app.Optimizer":
                if not any(k.arg is None for k in n.ast.keywords):
                    c.violation("cli-options", f.qual, f.where(), "the command line does not pass its options to the optimizer factory")
                for k in n.ast.keywords:
                    if k.arg and isinstance(k.value, ast.Constant):
                        c.violation("cli-options", f"{f.qual}:{k.arg}", f.where(), f"the command line fixes the option '{k.arg}'")
            if n.kind == "assign" and isinstance(n.extra[0], ast.Subscript) and isinstance(n.extra[0].slice, ast.Constant):
                # params['x'] = const is allowed only under "if params['x'] is None"
                k = n.extra[0].slice.value
                base = ast.unparse(n.extra[0].value)
                guarded = self.guarded(f.node, n.ast, base, k)
                c.instance("cli-default", f"{f.qual}[{k}]")
                if not guarded:
                    c.violation("cli-default", f"{f.qual}:{k}", f.where(), f"the command line replaces the option '{k}' even if it was given")

    def guarded(self, root, stmt, base, key):
        def rec(n, g):
            if n is stmt:
                return g
            for ch in ast.iter_child_nodes(n):
                gg = g
                if isinstance(n, ast.If) and ch in n.body:
                    t = n.test
                    gg = g or (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], ast.Is) and isinstance(
                        t.comparators[0], ast.Constant) and t.comparators[0].value is None and key in ast.unparse(t.left)) or (
                            isinstance(t, ast.UnaryOp) and key in ast.unparse(t)) or (
                            isinstance(t, ast.Compare) and isinstance(t.ops[0], ast.NotIn) and key in ast.unparse(t.left))
                r = rec(ch, gg)
                if r is not None:
                    return r
            return None
        if isinstance(stmt, ast.Call):
            return True
        r = rec(root, False)
        return True if r is None else r


def deps_names(e):
    return {x.id for x in ast.walk(e) if isinstance(x, ast.Name)}


def names_through(e, fr, depth=0):
    """Names an expression mentions, through local bindings."""
    out = set()
    if depth > 6:
        return out
    for x in ast.walk(e):
        if isinstance(x, ast.Name):
            out.add(x.id)
            s = fr.scope.lookup_scope(x.id)
            if s is not None and s.kind == "function":
                f = fr.frame_of(s)
                if f is not None and x.id in f.binds:
                    v, fx = f.binds[x.id]
                    out |= names_through(v, fx, depth + 1)
                for kind, b in s.binds[x.id]:
                    if kind == "assign" and getattr(b, "value", None) is not None:
                        out |= names_through(b.value, fr, depth + 1)
    return out


def run(c):
    c.assume("autoray, joblib, cirq and qiskit use the keywords they are given as documented")
    Analysis(c).run()
