"""Value origins over an inlined CFG."""
import ast

UNK = ("unknown", None)


def origins(cfg, e, fr, depth=0, strip_attr=True):
    """Where the object an expression denotes was made: a set of ('call', Call) / ('param', name) / ('func', scope) / unknown."""
    if depth > 25 or e is None:
        return {UNK}
    if isinstance(e, ast.Attribute):
        out = set()
        for n in cfg.nodes:
            if n.kind == "assign" and isinstance(n.extra[0], ast.Attribute) and n.extra[0].attr == e.attr and n.extra[1] is not None \
                    and cfg.canon(n.extra[0].value, n.frame) == cfg.canon(e.value, fr):
                out |= origins(cfg, n.extra[1], n.frame, depth + 1)
        if out:
            return out
        return origins(cfg, e.value, fr, depth + 1) if strip_attr else {UNK}
    if isinstance(e, ast.NamedExpr):
        return origins(cfg, e.value, fr, depth + 1)
    if isinstance(e, ast.IfExp):
        return origins(cfg, e.body, fr, depth + 1) | origins(cfg, e.orelse, fr, depth + 1)
    if isinstance(e, ast.BoolOp):
        out = set()
        for v in e.values:
            out |= origins(cfg, v, fr, depth + 1)
        return out
    if isinstance(e, ast.Call):
        kids = cfg.child.get((id(e), id(fr)))
        if kids:
            out = set()
            for k in kids:
                for v, f in k.returns:
                    out |= origins(cfg, v, f, depth + 1) if v is not None else {("const", None)}
            return out or {UNK}
        return {("call", e)}
    if isinstance(e, ast.Constant):
        return {("const", e.value)}
    if isinstance(e, ast.Lambda):
        return {("func", fr.scope.module.scope_of[e])}
    if isinstance(e, ast.Name):
        s = fr.scope.lookup_scope(e.id)
        if s is None:
            return {UNK}
        f = fr.frame_of(s)
        if f is not None and e.id in f.binds and len(s.binds[e.id]) == 1:
            x, fx = f.binds[e.id]
            return origins(cfg, x, fx, depth + 1)
        out = set()
        for k, n in s.binds[e.id]:
            if k == "assign" and f is not None and getattr(n, "value", None) is not None:
                out |= origins(cfg, n.value, f, depth + 1)
            elif k == "with" and f is not None:
                out |= origins(cfg, n.context_expr, f, depth + 1)
            elif k == "param":
                out.add(("param", (s, e.id)))
            elif k == "def":
                out.add(("func", s.module.scope_of[n]))
            elif k == "unpack" and f is not None and isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(
                    n.targets[0], (ast.Tuple, ast.List)) and isinstance(n.value, (ast.Tuple, ast.List)) and len(
                        n.targets[0].elts) == len(n.value.elts):
                for t, v in zip(n.targets[0].elts, n.value.elts):
                    if isinstance(t, ast.Name) and t.id == e.id:
                        out |= origins(cfg, v, f, depth + 1)
            else:
                out.add(UNK)
        return out or {UNK}
    return {UNK}
