"""C19: invalid output requests are refused before any work and before any file is touched; nothing is overwritten without leave."""
import ast
import itertools

from sa.pycfg import CFG
from sa.pypart import TOP, FileName, Fn, Mapping, Partition
from sa.pyprog import Program

TECHNIQUE = "partitioned constant propagation over the CFG of dump_results/load_file, must-call analysis of constructors, effect scan for writes"
NOTE = ("All combinations of the classes of output format, compression, file name, existing file, overwrite flag and check-only flag: which "
        "exits and which file-opening calls each can reach, and with which opener. Constructors of every optimizer must run the check on "
        "every path; no other function of the application layer writes files. The file system is assumed not to change between check and use.")

OPENERS = {"builtins.open": "plain", "io.open": "plain", "gzip.open": "gzip", "bz2.open": "bz2", "gzip.GzipFile": "gzip", "bz2.BZ2File": "bz2",
           "lzma.open": "other"}
WRITERS = {".write_text", ".write_bytes", ".open", ".touch", ".unlink", ".mkdir", ".rename", ".replace", ".symlink_to"}
OS_WRITES = {"os.remove", "os.unlink", "os.rename", "os.replace", "os.truncate", "os.open", "os.makedirs", "os.mkdir", "shutil.copy", "shutil.move",
             "shutil.rmtree", "shutil.copyfile"}
VALIDATION = "pathvalidate.ValidationError"
PARENTS = {VALIDATION: {"builtins.ValueError"}, "builtins.FileExistsError": {"builtins.OSError"},
           "builtins.FileNotFoundError": {"builtins.OSError"}}


def oracle_for(exists_of):

    def oracle(pid, call, d, args):
        if d is not None and d.split(".")[-1] in ("validate_filepath", "validate_filename", "validate_pathtype") and args:
            return ("raise", VALIDATION) if isinstance(args[0], FileName) and "#" in args[0].text else None
        if d is not None and d.split(".")[-1] in ("is_valid_filepath", "is_valid_filename") and args and isinstance(args[0], FileName):
            return "#" not in args[0].text
        if d in (".exists", ".is_file"):
            return exists_of(pid)
        if d in ("os.path.exists", "os.path.isfile", "os.path.lexists"):
            return exists_of(pid)
        return TOP
    return oracle


def mode_of(part, call, fr, env, first):
    m = None
    if len(call.args) > first:
        m = part.ev(call.args[first], fr, env)
    for k in call.keywords:
        if k.arg == "mode":
            m = part.ev(k.value, fr, env)
    return m


def writes_of(part, n, env):
    """(opener token, file value, mode) when the call writes a file, else None."""
    call, fr = n.ast, n.frame
    f = call.func
    fn = part.ev(f, fr, env) if not isinstance(f, ast.Attribute) else TOP
    if isinstance(f, ast.Attribute):
        v = part.ev(f.value, fr, env)
        if isinstance(v, FileName):
            if f"{'.'}{f.attr}" in WRITERS:
                m = mode_of(part, call, fr, env, 0)
                if f.attr == "open" and (m is None or isinstance(m, str) and not set(m) & set("wax+")):
                    return None
                return "plain", v, m
            return None
        fn = part.ev(f, fr, env)
    if not isinstance(fn, Fn):
        return None
    d = fn.dotted
    arg = part.ev(call.args[0], fr, env) if call.args else TOP
    for k in call.keywords:
        if k.arg in ("file", "filename"):
            arg = part.ev(k.value, fr, env)
    if d in OPENERS:
        m = mode_of(part, call, fr, env, 1)
        if m is None or isinstance(m, str) and not set(m) & set("wax+"):
            return None
        return OPENERS[d], arg, m
    if d in OS_WRITES:
        return "plain", arg, "w"
    return None


def eff(fmt, comp, file):
    """Opener the request asks for."""
    if comp in ("gzip", "bz2"):
        return comp
    if comp == "none" or file is None:
        return "plain"
    return {"r.gzip": "gzip", "r.bz2": "bz2"}.get(file.text, "plain")


def dump_rule(c, prog):
    f = prog.functions.get("tnco.app.app.dump_results")
    if f is None:
        from sa.common import AnalysisBroken
        raise AnalysisBroken("dump_results not found")
    names = f.param_names()
    direct = "check_only" in names
    kw = f.node.args.kwarg.arg if f.node.args.kwarg else None
    dims = dict(fmt=[None, "raw", "json", "#bad"], comp=["auto", "none", "bz2", "gzip", "#bad"],
                file=[None, FileName("r.gzip"), FileName("r.bz2"), FileName("r.txt"), FileName("#r")], over=[False, True], exists=[False, True],
                only=[False, True])
    parts = {}
    for v in itertools.product(*dims.values()):
        p = dict(zip(dims, v))
        if p["exists"] and (p["file"] is None or "#" in p["file"].text):
            continue
        t = {"output_format": p["fmt"], "output_compression": p["comp"], "output_filename": p["file"], "overwrite_output_file": p["over"]}
        if direct:
            t["check_only"] = p["only"]
        elif kw:
            t[kw] = Mapping({"check_only": True} if p["only"] else {})
        parts[tuple(p.items())] = {k: x for k, x in t.items() if k in names}
    cfg = CFG(prog, f, policy=lambda r, call, fr: getattr(r, "kind", None) == "func" and r.value.module.name.startswith("tnco.app"), max_depth=5)
    part = Partition(cfg, parts, oracle_for(lambda pid: dict(pid)["exists"]), PARENTS)
    bad_by = {
        "format": lambda p: p["fmt"] == "#bad",
        "compression": lambda p: p["comp"] == "#bad",
        "file name": lambda p: p["file"] is not None and "#" in p["file"].text,
        "compression without a file": lambda p: p["file"] is None and p["comp"] in ("gzip", "bz2"),
        "existing file without the overwrite option": lambda p: p["file"] is not None and p["exists"] and not p["over"],
    }

    def reasons(p):
        return [k for k, t in bad_by.items() if t(p)]

    # normal exits: only valid requests
    exits = part.state.get(cfg.exit, {})
    c.instance("refused", f"{f.qual}: {len(parts)} classes of requests, {len(exits)} reach a normal exit")
    for pid in exits:
        p = dict(pid)
        for r in reasons(p):
            c.violation("refused", f"{f.qual}:{r}:{'check' if p['only'] else 'dump'}", f.where(),
                        f"a request with an invalid {r} is not refused {'when only checking' if p['only'] else 'when dumping'}")
    for r in bad_by:
        c.instance("refused", f"{f.qual}: {r}")
    # valid requests may get through
    for only in (True, False):
        ok = [pid for pid in parts if not reasons(dict(pid)) and dict(pid)["only"] is only]
        got = [pid for pid in ok if pid in exits]
        c.instance("accepted", f"{f.qual}: {len(ok)} classes of valid requests (check_only={only})")
        for pid in ok:
            if pid not in exits:
                p = dict(pid)
                c.violation("accepted", f"{f.qual}:{p['fmt']}:{p['comp']}:{p['file']}", f.where(),
                            f"a valid request is refused: format={p['fmt']}, compression={p['comp']}, file={p['file']}, exists={p['exists']}, "
                            f"overwrite={p['over']}, check_only={only}")
                break
    # exceptions
    doc = {"builtins.FileExistsError": {"existing file without the overwrite option"},
           "builtins.ValueError": set(bad_by) - {"existing file without the overwrite option"}}
    ex = part.state.get(cfg.eexit, {})
    for pid, env in ex.items():
        p, e = dict(pid), env.get("#exc")
        rs = set(reasons(p))
        if e in (None, TOP) or not rs:
            continue
        if len(rs) == 1:
            r = next(iter(rs))
            want = next(k for k, v in doc.items() if r in v)
            c.instance("exception", f"{r}: {want}")
            if e != want and not (want == "builtins.ValueError" and "builtins.ValueError" in PARENTS.get(e, ())):
                c.violation("exception", f"{f.qual}:{r}", f.where(), f"an invalid {r} raises {e} instead of {want}")
    # files
    n_w = 0
    for n, st in part.state.items():
        if n.kind != "call" or not isinstance(n.ast, ast.Call):
            continue
        seen = False
        for pid, env in st.items():
            w = writes_of(part, n, env)
            if w is None:
                continue
            seen = True
            p = dict(pid)
            tok, file, mode = w
            what = ast.unparse(n.ast)[:50]
            if p["only"]:
                c.violation("file-touched", f"{f.qual}:check", f.where(), f"a file is touched by '{what}' although only checking was requested")
            for r in reasons(p):
                c.violation("file-touched", f"{f.qual}:{r}", f.where(), f"a file is touched by '{what}' although the request has an invalid {r}")
            if p["exists"] and not p["over"]:
                c.violation("file-touched", f"{f.qual}:overwrite", f.where(), f"an existing file is opened for writing by '{what}' without the overwrite option")
            if p["file"] is None:
                c.violation("file-touched", f"{f.qual}:nofile", f.where(), f"'{what}' writes a file although none was requested")
            elif not p["only"] and not reasons(p):
                want = eff(p["fmt"], p["comp"], p["file"])
                if tok != want:
                    c.violation("compression", f"{f.qual}:{p['comp']}:{p['file']}", f.where(),
                                f"compression '{p['comp']}' with file '{p['file'].text}' is written {tok} instead of {want}")
                if isinstance(file, FileName) and file.text != p["file"].text:
                    c.violation("compression", f"{f.qual}:name", f.where(), f"'{what}' writes to another file than requested")
        if seen:
            n_w += 1
            c.instance("file-touched", f"{f.qual}: {ast.unparse(n.ast)[:60]}")
    # a requested file is written
    wr = {n for n, st in part.state.items() if n.kind == "call" and isinstance(n.ast, ast.Call) and any(
        writes_of(part, n, e) for e in st.values())}
    if n_w == 0:
        c.note("dump_results: no write found")
    else:
        for pid in exits:
            p = dict(pid)
            if p["file"] is not None and not p["only"] and not reasons(p) and not any(pid in part.state[n] for n in wr):
                c.violation("compression", f"{f.qual}:{p['fmt']}:unwritten", f.where(),
                            f"nothing is written for format={p['fmt']}, compression={p['comp']}, file={p['file'].text}")


def load_rule(c, prog):
    f = prog.functions.get("tnco.app.app.load_file")
    if f is None:
        c.note("load_file not found")
        return
    arg = f.param_names()[0]
    parts = {}
    for name, ex in (("r.txt", True), ("r.txt", False), ("#r", False)):
        parts[(name, ex)] = {arg: FileName(name)}
    cfg = CFG(prog, f, policy=lambda r, call, fr: getattr(r, "kind", None) == "func" and r.value.module.name.startswith("tnco.app"), max_depth=4)
    part = Partition(cfg, parts, oracle_for(lambda pid: pid[1]), PARENTS)
    exits, ex = part.state.get(cfg.exit, {}), part.state.get(cfg.eexit, {})
    c.instance("loader", f"{f.qual}: missing and invalid files")
    for pid, env in exits.items():
        if pid[1] is False:
            c.violation("loader", f"{f.qual}:{pid[0]}", f.where(), f"a {'missing' if pid[0] == 'r.txt' else 'wrongly named'} file is not refused")
    want = {("r.txt", False): "builtins.FileNotFoundError", ("#r", False): "builtins.ValueError"}
    for pid, w in want.items():
        e = ex.get(pid, {}).get("#exc")
        if e not in (None, TOP, w) and pid not in exits and w not in PARENTS.get(e, ()):
            c.violation("loader", f"{f.qual}:{pid[0]}:exception", f.where(), f"{e} is raised instead of {w}")
    # magic numbers and decompressors
    magic = {"gzip": b"\x1f\x8b", "bz2": b"BZ"}
    used, pairs = set(), []
    consts = {}
    for n in ast.walk(f.module.tree):
        if isinstance(n, ast.Constant) and isinstance(n.value, bytes):
            consts[n.value] = n
    body = [f]
    for call, sc in prog.calls_in(f):
        r = prog.resolve(call.func, sc)
        if r.kind == "func" and r.value.module is f.module and r.value not in body:
            body.append(r.value)
    for b in body:
        for n in ast.walk(b.node):
            d = None
            if isinstance(n, (ast.Attribute, ast.Name)):
                d = prog.resolve(n, prog.scope_at(f.module, n) if n in f.module.parent_of else b).dotted
            if d in ("gzip.decompress", "bz2.decompress", "gzip.open", "bz2.open"):
                used.add(d.split(".")[0])
                # nearest enclosing if / conditional whose test names a magic number
                x, prev = f.module.parent_of.get(n), n
                while x is not None and not isinstance(x, (ast.FunctionDef, ast.Module)):
                    t, inside = None, False
                    if isinstance(x, (ast.If, ast.IfExp)):
                        t = x.test
                        inside = prev in x.body if isinstance(x, ast.If) else prev is x.body
                    elif isinstance(x, ast.match_case):
                        t, inside = x.pattern, True
                    bs = [k.value for k in ast.walk(t) if isinstance(k, ast.Constant) and isinstance(k.value, bytes)] if t is not None else []
                    if bs:
                        pairs.append((d.split(".")[0], bs, inside))
                        break
                    prev, x = x, f.module.parent_of.get(x)
    for k in ("gzip", "bz2"):
        c.instance("loader", f"{f.qual}: {k}")
        if k not in used:
            c.violation("loader", f"{f.qual}:{k}", f.where(), f"files written with {k} are not decompressed by the loader")
    for k, bs, inside in pairs:
        if inside and not any(x == magic[k] or x.startswith(magic[k]) or magic[k].startswith(x) for x in bs):
            c.violation("loader", f"{f.qual}:{k}:magic", f.where(), f"{k} data is recognised by {bs[0]!r} instead of {magic[k]!r}")


def ctor_rule(c, prog):
    """Every optimizer checks the output request when it is created."""
    base = prog.classes.get("tnco.app.app.BaseOptimizer")
    if base is None:
        c.note("BaseOptimizer not found")
        return
    dump = prog.functions.get("tnco.app.app.dump_results")
    for q, cls in prog.classes.items():
        if base not in prog.mro(cls):
            continue
        c.instance("early-check", q)
        ctor = None
        for k in prog.mro(cls):
            m = prog.methods(k)
            if "__init__" in m:
                ctor = m["__init__"]
                break
            if "__post_init__" in m:
                ctor = m["__post_init__"]
                break
        if ctor is None:
            c.violation("early-check", q, cls.where(), f"creating {q} does not check the output request")
            continue
        # self.method() and super().method() of the class under analysis
        cfg = CFG(prog, ctor, policy=lambda r, call, fr: getattr(r, "kind", None) == "func" and r.value is not dump and
                  r.value.module.name.startswith("tnco.app"), max_depth=5)

        def checks(n):
            if n.kind != "call" or not isinstance(n.ast, ast.Call):
                return False
            r = n.extra
            if r is None or r.kind != "func" or r.value is not dump:
                return False
            return has_check(cfg, n.ast, n.frame)

        ok = {n for n in cfg.nodes if checks(n)}
        seen = cfg.reach([cfg.entry], stop=lambda n: n in ok, follow_exc=False)
        if cfg.exit in seen:
            c.violation("early-check", q, ctor.where(), f"creating {q} may finish without checking the output request (dump_results with check_only)")
            continue
        # nothing swallows the refusal
        for n in ok:
            pads = cfg.reach([n.exc], follow_exc=True) if n.exc is not None else {}
            if cfg.exit in pads:
                c.violation("early-check", f"{q}:swallowed", ctor.where(), f"creating {q} swallows the refusal of the output request")


def has_check(cfg, call, fr, depth=0):
    for k in call.keywords:
        if k.arg == "check_only":
            return not (isinstance(k.value, ast.Constant) and not k.value.value)
        if k.arg is None and isinstance(k.value, ast.Name) and depth < 6:
            # **options of an inlined helper: look at the call that gave them
            s = fr.scope.lookup_scope(k.value.id)
            f = fr.frame_of(s) if s is not None else None
            if f is not None and f.call is not None and s.node.args.kwarg is not None and s.node.args.kwarg.arg == k.value.id:
                if has_check(cfg, f.call, f.parent, depth + 1):
                    return True
            if s is not None:
                for kind, n in s.binds.get(k.value.id, []):
                    v = getattr(n, "value", None)
                    if v is not None and any(isinstance(x, ast.Constant) and x.value == "check_only" or isinstance(x, ast.keyword) and
                                             x.arg == "check_only" for x in ast.walk(v)):
                        return True
        if k.arg is None and isinstance(k.value, (ast.Dict, ast.Call)):
            if any(isinstance(x, ast.Constant) and x.value == "check_only" or isinstance(x, ast.keyword) and x.arg == "check_only"
                   for x in ast.walk(k.value)):
                return True
    return False


def effect_rule(c, prog):
    """Only the dumper writes files."""
    dump = prog.functions.get("tnco.app.app.dump_results")
    helpers, todo = set(), [dump] if dump else []
    while todo:
        f = todo.pop()
        if f in helpers:
            continue
        helpers.add(f)
        for call, sc in prog.calls_in(f):
            r = prog.resolve(call.func, sc)
            if r.kind == "func" and r.value.module.name.startswith("tnco.app"):
                todo.append(r.value)
    for f in prog.all_functions():
        if not f.module.name.startswith("tnco.app") or isinstance(f.node, ast.Lambda):
            continue
        top = f
        while top.parent is not None and top.parent.kind == "function":
            top = top.parent
        if top in helpers or f in helpers:
            continue
        c.instance("only-dumper-writes", f.qual)
        for call, sc in prog.calls_in(f, nested=False):
            d = prog.resolve(call.func, sc).dotted
            mode = next((k.value for k in call.keywords if k.arg == "mode"), call.args[1] if len(call.args) > 1 else None)
            w = False
            if d in OPENERS:
                w = mode is not None and not (isinstance(mode, ast.Constant) and isinstance(mode.value, str) and not set(mode.value) & set("wax+"))
            elif d in OS_WRITES:
                w = True
            elif isinstance(call.func, ast.Attribute) and call.func.attr in ("write_text", "write_bytes", "touch", "unlink"):
                w = "shm" not in ast.unparse(call.func.value)
            if w:
                c.violation("only-dumper-writes", f"{f.qual}:{ast.unparse(call.func)}", f.where(), f"{f.qual} writes or removes files itself ({ast.unparse(call)[:60]})")


def run(c):
    prog = Program()
    dump_rule(c, prog)
    load_rule(c, prog)
    ctor_rule(c, prog)
    effect_rule(c, prog)
    c.require("refused", 5)
    c.require("early-check", 2)
    c.assume("calls other than the file-name validator raise none of the documented exceptions")
