"""Runs the evaluations of the native core that concern a set of properties, in parallel, and hands their findings to a check."""
import multiprocessing
import os
import traceback

from sa import cxx, cxxcache, cxxopt, cxxprob, cxxtree
from sa.cxxi import GiveUp

_core = None
_memo = {}


def _opt(core, name, pred=lambda f: True):
    return [f for f in core.functions(name) if "Optimizer<" in f.get("rec", "") and not f.get("lam") and pred(f)]


def is_tree(core, p):
    return "ContractionTree" in core.type(p["t"])


def _caches(core):
    for role in ("Cost", "Hyper", "Width"):
        for f in core.functions(role + "Cache"):
            if f["ps"] and is_tree(core, f["ps"][0]):
                yield f, role
    for f in core.functions("get_cost"):
        if f["file"].endswith("/utils.hpp"):
            yield f, "get_cost"


def _tree(core, name, rec):
    return [f for f in core.functions(name) if f.get("rec", "").split("<")[0].endswith(rec) and not f.get("lam")]


def _tree_ctors(core):
    return [f for f in core.functions() if f.get("rec", "").split("<")[0].endswith(("node::Node", "tree::Tree", "ctree::ContractionTree")) and f.get("kind", "") == "ctor"]


def _needs_nonempty(core):
    return any(cxxtree.analyse_tree_valid(core, f).need_nonempty for f in _tree(core, "is_valid", "tree::Tree"))


# kind -> (functions, analysis)
KINDS = {
    "update": (lambda c: _opt(c, "update"), lambda c, f: cxxopt.analyse_update(c, f)),
    "construction": (lambda c: [f for f in c.functions("Optimizer") if "Optimizer<" in f.get("rec", "") and len(f["ps"]) > 4],
                     lambda c, f: cxxcache.analyse_ctor(c, f)),
    "validity": (lambda c: _opt(c, "is_valid"), lambda c, f: cxxcache.analyse_valid(c, f)),
    "traverse": (lambda c: list(c.functions("traverse", file="tnco/utils.hpp", lam=False)), lambda c, f: cxxcache.analyse_traverse(c, f)),
    "cache": (lambda c: [f for f, _ in _caches(c)],
              lambda c, f: cxxcache.analyse_cache(c, f, next(r for g, r in _caches(c) if g["id"] == f["id"]),
                                                  "finite_width" in f["rec"] if f.get("rec") else len(f["ps"]) > 2)),
    "slicer": (lambda c: list(c.functions("get_slices_impl")), lambda c, f: cxxcache.analyse_slicer(c, f)),
    "node-valid": (lambda c: _tree(c, "is_valid", "node::Node"), lambda c, f: cxxtree.analyse_node_valid(c, f)),
    "tree-valid": (lambda c: _tree(c, "is_valid", "tree::Tree"), lambda c, f: cxxtree.analyse_tree_valid(c, f)),
    "ctree-valid": (lambda c: _tree(c, "is_valid", "ctree::ContractionTree"), lambda c, f: cxxtree.analyse_ctree_valid(c, f)),
    "swap": (lambda c: _tree(c, "swap_with_nn", "tree::Tree"), lambda c, f: cxxtree.analyse_swap(c, f)),
    "tree-construction": (_tree_ctors, lambda c, f: cxxtree.analyse_ctor(c, f, "tree::Tree" in f["rec"].split("<")[0] and _needs_nonempty(c))),
    "tree-bindings": (lambda c: list(c.functions("init", lam=False)), lambda c, f: cxxtree.analyse_bindings(c, f)),
    "probability": (cxxprob.functions, lambda c, f: cxxprob.analyse_prob(c, f)),
}


def _job(a):
    kind, fid = a
    f = _core.fun[fid]
    try:
        r = KINDS[kind][1](_core, f)
        return kind, fid, dict(r.found), dict(r.counts), sorted(map(str, r.notes)), None
    except GiveUp as e:
        return kind, fid, {}, {}, [], f"not followed: {e}"
    except Exception as e:      # the analysis met something it does not model: nothing is decided for this function
        tb = traceback.extract_tb(e.__traceback__)[-1]
        return kind, fid, {}, {}, [], f"not followed: {type(e).__name__}: {e} ({os.path.basename(tb.filename)}:{tb.lineno})"


def label(f):
    r = f.get("rec") or ""
    return f"{r.split('<')[0].split('::')[-1] + '::' if r else ''}{f['n']}"


def run(c, kinds, rules=None, props=None):
    """Findings of `props` (default: the check's own) from the given kinds; instances are counted per rule and instantiation."""
    global _core
    props = props or (c.pid,)
    _core = cxx.load(True)
    jobs = []
    for k in kinds:
        fs = KINDS[k][0](_core)
        c.analysed[f"{k}: instantiations"] = len(fs)
        jobs += [(k, f["id"]) for f in fs]
    jobs.sort(key=lambda j: j[0] != "update")
    todo = [j for j in jobs if j not in _memo]
    if todo:
        with multiprocessing.get_context("fork").Pool(min(int(os.environ.get("TNCO_JOBS", "8")), os.cpu_count() or 1)) as pool:
            _memo.update(zip(todo, pool.map(_job, todo, chunksize=1)))
    out = [_memo[j] for j in jobs]
    for kind, fid, found, counts, notes, fail in out:
        f = _core.fun[fid]
        name = f"{label(f)} {_core.where(f)}"
        if fail:
            c.instance("undecided", name)
            c.note(f"{kind} {name} [{f.get('rec', '')[-80:]}]: {fail}")
            continue
        for rule, n in counts.items():
            if rules is not None and rule not in rules:
                continue
            for _ in range(n):
                c.instance(f"{kind}/{rule}", name)
        for n in notes:
            c.note(f"{kind} {name}: {n}")
        for (prop, rule, msg), (line, trace) in found.items():
            if prop in props:
                c.violation(rule, f"{label(f)}:{f['file'].split('/')[-3]}/{f['file'].split('/')[-1]}:{msg}", _core.where(f, line), msg + (f" (when {trace})" if trace else ""))
    und = {n for r, n in c.instances if r == "undecided"}
    for n in sorted(und):
        print(f"  undecided: {n}")
    return _core
