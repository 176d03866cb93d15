"""C18: functions do not modify objects passed by the caller."""
import ast

from sa.common import rel
from sa.pyalias import Alias
from sa.pyprog import Program

TECHNIQUE = "flow-sensitive ownership/alias analysis of parameters with interprocedural mutation summaries"
NOTE = ("Every public function and method: no in-place operation (mutating method, item/attribute assignment or deletion, augmented assignment, "
        "out=, in-place library call) reaches an object the caller passed, an element of it or a view of it, directly or through helpers. "
        "Excluded: the receiver of a method itself, generators/iterators being consumed, random generators being advanced, and the shared "
        "buffers of parallel jobs. Objects reached through values the analysis does not follow (results of foreign calls) count as new.")

SCALAR = {"int", "float", "str", "bool", "complex", "bytes", "None", "Index", "Tuple", "tuple", "FrozenSet", "frozenset", "Hashable", "Callable",
          "Literal", "Qubit", "Matrix_"}
BUILTIN_RECEIVERS = ("Buffer",)


def ann_at(a, level):
    """Names a value at an access level below a parameter with annotation a may have; None when unknown."""
    if a is None:
        return None
    if isinstance(a, ast.Constant) and isinstance(a.value, str):
        try:
            a = ast.parse(a.value, mode="eval").body
        except SyntaxError:
            return None
    if isinstance(a, ast.Constant) and a.value is None:
        return {"None"} if level == 0 else set()
    if isinstance(a, ast.Name):
        return {a.id} if level == 0 else set() if a.id in ("int", "float", "bool", "complex") else None
    if isinstance(a, ast.Attribute):
        return {a.attr} if level == 0 else None
    if isinstance(a, ast.BinOp):
        xs = [ann_at(a.left, level), ann_at(a.right, level)]
        return None if None in xs else set().union(*xs)
    if isinstance(a, ast.Subscript):
        head = a.value.id if isinstance(a.value, ast.Name) else getattr(a.value, "attr", None)
        parts = a.slice.elts if isinstance(a.slice, ast.Tuple) else [a.slice]
        if head in ("Optional", "Union"):
            xs = [ann_at(p, level) for p in parts]
            return None if any(x is None for x in xs) else set().union(*xs)
        if head == "Literal":
            return {"str"} if level == 0 else set()
        if level == 0:
            return {head}
        if head in ("Dict", "Mapping", "dict"):
            parts = parts[-1:]
        xs = [ann_at(p, level - 1) for p in parts if not (isinstance(p, ast.Constant) and p.value is Ellipsis)]
        return None if any(x is None for x in xs) else set().union(*xs) if xs else None
    return None


def immutable_at(f, p, level):
    a = f.node.args
    n = next((x for x in [*a.posonlyargs, *a.args, *a.kwonlyargs] if x.arg == p), None)
    names = ann_at(n.annotation, level) if n is not None else None
    return names is not None and names <= SCALAR


def real(f, m):
    """Whether a recorded modification can modify anything."""
    p, level, node, what, fr, aug = m
    if aug:
        # rebinding for immutable values; in place for the others
        a = f.node.args
        n = next((x for x in [*a.posonlyargs, *a.args, *a.kwonlyargs] if x.arg == p), None)
        names = ann_at(n.annotation, level) if n is not None else None
        return names is not None and not names <= SCALAR and bool(names & {"List", "list", "Iterable", "Sequence", "Dict", "dict", "Set", "set", "Array",
                                                                            "ndarray", "Collection", "Counter", "MutableSequence", "Matrix"})
    return not immutable_at(f, p, level)


def self_param(f):
    if f.parent is not None and f.parent.kind == "class" and f.param_names():
        decs = [ast.unparse(d) for d in f.node.decorator_list]
        if "staticmethod" not in decs:
            return f.param_names()[0]
    return None


def public(f):
    s = f
    while s is not None and s.kind in ("function", "class"):
        name = s.node.name
        if name.startswith("_") and not (name.startswith("__") and name.endswith("__")):
            return False
        s = s.parent
        if s is not None and s.kind == "function":
            return False
    return True


def run(c):
    prog = Program()
    fs = [f for f in prog.all_functions() if not isinstance(f.node, ast.Lambda) and not f.module.name.startswith("tnco.testing")
          and not (f.parent is not None and f.parent.kind == "function")]
    summaries = {}
    results = {}
    for _ in range(5):
        changed = False
        for f in fs:
            muts, _ = Alias(prog, summaries).analyse(f)
            muts = [m for m in muts if real(f, m)]
            results[f] = muts
            me = self_param(f)
            s = {(p, l) for p, l, *_ in muts if p != me}
            if f.node.args.kwarg is not None:
                s = {x for x in s if x[0] != f.node.args.kwarg.arg}
            if s != summaries.get(f, set()):
                summaries[f] = s
                changed = True
        if not changed:
            break
    n_params = 0
    for f in fs:
        if not public(f):
            continue
        me = self_param(f)
        a = f.node.args
        star = {x.arg for x in (a.kwarg, a.vararg) if x is not None}
        for p in f.param_names():
            if p == me:
                continue
            n_params += 1
            c.instance("argument", f"{f.qual}({p})")
            for q, level, node, what, fr, aug in results[f]:
                if q != p:
                    continue
                thing = f"the argument '{p}'" if level == 0 and p not in star else f"an object reached from the argument '{p}'"
                c.violation("argument", f"{f.qual}:{p}", f"{rel(fr.scope.module.path)}:{getattr(node, 'lineno', 0)}",
                            f"{what} modifies {thing} of {f.qual}")
                break
    c.analysed["public functions"] = sum(map(public, fs))
    c.analysed["functions with summaries"] = len(fs)
    c.require("argument", 100)
    c.assume("results of foreign calls do not alias their arguments, except the listed view and conversion functions")
