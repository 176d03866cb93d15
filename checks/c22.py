"""C22: positions of a contraction step are removed from a list without shifting each other, and from parallel lists alike."""
import ast

from sa.common import rel
from sa.pycfg import CFG
from sa.pyloop import Paths, TooMany
from sa.pyprog import Program

TECHNIQUE = "path-wise abstract interpretation of list removals (ordered-pair tokens): removal order, pairing across parallel lists, recorded positions"
NOTE = ("Every function of the package that removes list elements by position: on every path through the loop body that performs a contraction "
        "step, a second removal uses a position that is provably not above the first one, each list that takes part loses both positions of the "
        "pair and gets exactly one replacement on all paths or none, operands taken from parallel lists are combined position by position, and "
        "positions recorded in a path are those before any removal. That the pair holds two different positions is a precondition.")

REMOVE = {"pop", "__delitem__"}


def kinds_of(prog, e, sc, depth=0):
    """What a receiver may be: 'dict', 'set', 'list' or '?'."""
    if depth > 6:
        return {"?"}
    if isinstance(e, (ast.Dict, ast.DictComp)):
        return {"dict"}
    if isinstance(e, (ast.Set, ast.SetComp)):
        return {"set"}
    if isinstance(e, (ast.List, ast.ListComp)):
        return {"list"}
    if isinstance(e, ast.IfExp):
        return kinds_of(prog, e.body, sc, depth + 1) | kinds_of(prog, e.orelse, sc, depth + 1)
    if isinstance(e, ast.Call):
        d = prog.resolve(e.func, sc).dotted
        if d in ("builtins.dict", "collections.defaultdict", "collections.OrderedDict", "collections.Counter", "more_itertools.map_reduce",
                 "builtins.vars", "builtins.locals"):
            return {"dict"}
        if d in ("builtins.set", "builtins.frozenset"):
            return {"set"}
        if d in ("builtins.list", "builtins.sorted"):
            return {"list"}
        return {"?"}
    if isinstance(e, ast.Name):
        s = sc.lookup_scope(e.id)
        if s is None or s.kind != "function":
            return {"?"}
        out = set()
        for k, n in s.binds[e.id]:
            if k == "param":
                a = getattr(n, "annotation", None)
                t = ast.unparse(a) if a is not None else ""
                if s.node.args.kwarg is not None and s.node.args.kwarg.arg == e.id or "Dict" in t or "Mapping" in t:
                    out.add("dict")
                elif "Set" in t:
                    out.add("set")
                elif t:
                    out.add("list" if any(x in t for x in ("List", "Iterable", "Sequence")) else "?")
                else:
                    out.add("?")
            elif k == "assign" and getattr(n, "value", None) is not None:
                out |= kinds_of(prog, n.value, s, depth + 1)
            else:
                out.add("?")
        return out or {"?"}
    return {"?"}


def is_removal(prog, n):
    """CFG node that removes an element by position from something that is not evidently a dict or set."""
    if n.kind == "call" and isinstance(n.ast.func, ast.Attribute) and n.ast.func.attr in REMOVE and len(n.ast.args) == 1 and not n.ast.keywords:
        if isinstance(n.ast.args[0], ast.Constant) and isinstance(n.ast.args[0].value, str):
            return False
        return not kinds_of(prog, n.ast.func.value, n.frame.scope) & {"dict", "set"}
    if n.kind == "call" and isinstance(n.ast.func, ast.Name) and n.ast.args and isinstance(n.ast.args[0], ast.Attribute) and n.ast.args[0].attr in REMOVE:
        return not kinds_of(prog, n.ast.args[0].value, n.frame.scope) & {"dict", "set"}
    if n.kind == "del":
        return any(isinstance(t, ast.Subscript) and not isinstance(t.slice, (ast.Slice, ast.Constant)) and
                   not kinds_of(prog, t.value, n.frame.scope) & {"dict", "set"} for t in n.ast.targets)
    return False


def enclosing(cfg, n):
    """Loop nodes around a node, innermost first (through inlined helpers)."""
    out, x, fr = [], n.ast, n.frame
    while fr is not None:
        m = fr.scope.module
        while x is not None:
            p = m.parent_of.get(x)
            if p is None or p is fr.scope.node:
                break
            if isinstance(p, (ast.For, ast.While)) and x in p.body:
                out.append((p, fr))
            elif isinstance(p, (ast.ListComp, ast.GeneratorExp, ast.SetComp)) and x is p.elt:
                out.append((p.generators[-1], fr))
            x = p
        x, fr = fr.call, fr.parent
    return [h for a, f in out for h in cfg.nodes if h.kind == "loop" and h.ast is a and h.frame is f]


def root(t, st):
    """The pair a position token belongs to, and which of the two it is."""
    if t[0] in ("lo", "hi"):
        ms = sorted(t[1], key=repr)
        rs = {root(m, st)[0] for m in ms}
        return (rs.pop() if len(rs) == 1 else ("pair", t[1])), ("end", t[0], t[1])
    if t[0] == "item" and t[2] in (0, 1, -1):
        return ("seq", t[1]), ("item", t[2] % 2)
    if t[0] in ("elem", "star", "attr"):
        return (t, 0), t
    if t[0] == "idx":
        r, w = root(t[3], st)
        return r, ("of", w)
    if t[0] == "app":
        for a in t[2]:
            r, w = root(a, st)
            if r is not None:
                return r, ("of", w)
    if t[0] in ("sub", "popped"):
        r, w = root(t[-1], st)
        return r, ("of", t[1], w)
    if t[0] == "copy":
        return root(t[1], st)
    return None, t


def known_pair(t, st):
    r, w = root(t, st)
    return r


def below(a, b, st, paths):
    """Position b (used second) is not above position a (removed first)."""
    if paths.le(b, a, st):
        return True
    if b[0] == "bin" and b[1] == "Sub" and b[3] == ("c", 1) and paths.le(a, b[2], st):
        return True  # shifted by hand
    if a[0] == "idx" and b[0] == "idx" and a[1] == b[1] and a[2] == b[2] and paths.le(b[3], a[3], st):
        return True  # positions in an ascending list follow the values
    return False


def name_of(t):
    if t[0] == "init":
        return t[2]
    if t[0] in ("sub", "item"):
        return name_of(t[1]) + "[...]"
    if t[0] == "attr":
        return name_of(t[1]) + "." + str(t[2])
    return "list"


class Rules:

    def __init__(self, c, prog):
        self.c, self.prog, self.done = c, prog, set()

    def bad(self, rule, f, lst, msg, node=None):
        k = f"{f.qual}:{lst}"
        where = f"{rel(f.module.path)}:{getattr(node, 'lineno', None) or f.node.lineno}"
        self.c.violation(rule, k, where, msg)

    def function(self, f):
        prog = self.prog
        small = lambda ref, call, fr: getattr(ref, "kind", None) == "func" and ref.value.module is f.module and ref.value is not f and \
            not (ref.value.parent is not None and ref.value.parent.kind == "class") and len(list(ast.walk(ref.value.node))) < 160
        cfg = CFG(prog, f, policy=small, max_depth=3)
        rem = [n for n in cfg.nodes if is_removal(prog, n)]
        if not rem:
            return 0
        paths = Paths(prog, cfg)
        units = []
        for n in rem:
            hs = enclosing(cfg, n)
            hs = [h for h in hs if not self.short(paths, h)]
            u = hs[0] if hs else None
            if u not in units:
                units.append(u)
        runs = []
        for u in units:
            try:
                res = self.run_unit(cfg, paths, u)
            except TooMany:
                self.c.note(f"{f.qual}: too many paths")
                continue
            runs.append((u, res))
            self.c.instance("removal-step", f"{f.qual}:{getattr(u.ast, 'lineno', 0) if u is not None else 'body'}: {len(res)} paths")
            self.judge(f, paths, [st for _, st in res], {id(n.ast) for n in rem})
        self.reversed_positions(f, cfg)
        return len(runs)

    def short(self, paths, h):
        """A loop over a short known sequence (it is unrolled)."""
        if isinstance(h.ast, ast.While):
            return False
        from sa.pyloop import State
        it = paths.ev(h.ast.iter, h.frame, State(), pure=True)
        return it[0] == "sorted" or it[0] == "rev" and it[1][0] in ("sorted", "seq") or it[0] == "seq" and len(it) <= 4

    def run_unit(self, cfg, paths, u):
        if u is None:
            return paths.run(cfg.entry, {cfg.exit})
        out = []
        if isinstance(u.ast, ast.While):
            for _, t in u.succ:
                out += paths.run(t, {u, cfg.exit})
            return [(n, st) for n, st in out if n is u]
        from sa.pyloop import State
        st = State()
        key = (id(u.ast), id(u.frame))
        st.vals[("iter",) + key] = paths.ev(u.ast.iter, u.frame, st, pure=True)
        st.vals[("cur",) + key] = paths.elem(st.vals[("iter",) + key], st)
        for lab, t in u.succ:
            if lab == "iter":
                out += paths.run(t, {u, cfg.exit}, st.copy())
        return [(n, s) for n, s in out if n is u]

    def judge(self, f, paths, states, removals):
        c = self.c
        lists = {}
        for st in states:
            rms, adds = {}, {}
            for e in st.events:
                if e[0] == "rm" and (e[4] is None or id(e[4]) in removals):
                    rms.setdefault(e[1], []).append(e)
                elif e[0] == "add":
                    adds.setdefault(e[1], []).append(e)
            pairs = {}
            for lst, es in rms.items():
                self.order(f, paths, st, lst, es)
                if len(es) == 2:
                    r1, w1 = root(es[0][2], st)
                    r2, w2 = root(es[1][2], st)
                    if r1 is not None and r1 == r2 and w1 != w2:
                        pairs[lst] = r1
                        lists.setdefault(lst, []).append(len(adds.get(lst, ())))
            for lst, es in rms.items():
                if lst in pairs or len(es) != 1:
                    continue
                r, w = root(es[0][2], st)
                peeked = any(e[0] == "get" and e[1] == lst and root(e[2], st)[0] == r and root(e[2], st)[1] != w for e in st.events) and lst in adds
                if r is not None and (peeked or any(r == p for p in pairs.values())):
                    self.bad("both-positions", f, name_of(lst), f"only one of the two positions of a step is removed from '{name_of(lst)}'", es[0][4])
            # lists which only get a replacement
            if pairs:
                for lst in adds:
                    if lst not in rms:
                        lists.setdefault(lst, [])
            self.combined(f, st)
            self.recorded(f, paths, st, rms)
        for lst, ns in lists.items():
            if len(set(ns)) > 1:
                self.bad("one-replacement", f, name_of(lst),
                         f"after removing two positions, '{name_of(lst)}' gets {' or '.join(map(str, sorted(set(ns))))} replacements depending on the path")
            elif ns and ns[0] > 1:
                self.bad("one-replacement", f, name_of(lst), f"after removing two positions, '{name_of(lst)}' gets {ns[0]} replacements")

    def order(self, f, paths, st, lst, es):
        for i, a in enumerate(es):
            for b in es[i + 1:]:
                ia, ib = a[2], b[2]
                if ib[0] == "idx" and ib[1] == lst and ib[2] > a[3]:
                    continue  # searched again after the removal
                ra, wa = root(ia, st)
                rb, wb = root(ib, st)
                if ib[0] == "bin":
                    rb, wb = root(ib[2], st)
                if ra is None or ra != rb:
                    continue
                self.c.instance("removal-order", f"{f.qual}: {name_of(lst)}")
                if ia == ib:
                    self.bad("removal-order", f, name_of(lst), f"the same position is removed twice from '{name_of(lst)}'", b[4])
                elif not below(ia, ib, st, paths):
                    self.bad("removal-order", f, name_of(lst),
                             f"a position removed from '{name_of(lst)}' may have been shifted by the removal before it", b[4])
                elif ib[0] != "bin" and not self.distinct(wa, wb):
                    self.bad("removal-order", f, name_of(lst), f"the two positions removed from '{name_of(lst)}' may be the same", b[4])

    @staticmethod
    def distinct(a, b):
        while a[0] == "of" and b[0] == "of":
            a, b = a[-1], b[-1]
        if a[0] == "end" and b[0] == "end":
            return a[2] == b[2] and a[1] != b[1]
        return a[0] == b[0] and a != b

    def combined(self, f, st):
        """Values popped from different lists meet position by position."""
        for (k, t) in list(st.vals.items()):
            if t[0] not in ("fcall", "call", "mcall", "new", "app"):
                continue
            for g in t:
                for s in (g if isinstance(g, tuple) and g and isinstance(g[0], tuple) else (g,)):
                    self.group(f, s)
        for e in st.events:
            if e[0] == "add":
                self.group(f, e[2])

    def group(self, f, s):
        if not (isinstance(s, tuple) and s and s[0] == "seq"):
            return
        ps = [x for x in s[1:] if isinstance(x, tuple) and x and x[0] == "popped"]
        if len(ps) == 2 and len(s) == 3 and ps[0][1] != ps[1][1]:
            self.c.instance("parallel-lists", f"{f.qual}: {name_of(ps[0][1])}, {name_of(ps[1][1])}")
            if ps[0][3] != ps[1][3]:
                self.bad("parallel-lists", f, name_of(ps[0][1]),
                         f"entries of '{name_of(ps[0][1])}' and '{name_of(ps[1][1])}' taken from different positions are combined")

    def recorded(self, f, paths, st, rms):
        """Positions written down for a list are positions before the step."""
        for e in st.events:
            if e[0] == "add" and e[2][0] == "seq" and len(e[2]) == 3:
                for t in e[2][1:]:
                    lst = t[1] if t[0] == "idx" else None
                    if lst is None or lst not in rms:
                        continue
                    self.c.instance("recorded-position", f"{f.qual}: {name_of(lst)}")
                    for r in rms[lst]:
                        if r[3] < t[2] and r[2] != t:
                            v, w = t[3], (r[2][3] if r[2][0] == "idx" else r[2])
                            if not paths.le(v, w, st):
                                self.bad("recorded-position", f, name_of(lst),
                                         f"a recorded position is searched in '{name_of(lst)}' after a removal that may have shifted it", e[4])

    def reversed_positions(self, f, cfg):
        """Positions counted from the end (enumerate(reversed(L))) are converted back before L is changed."""
        m = f.module
        for n in cfg.nodes:
            if n.kind == "del":
                subs = [(t.value, t.slice) for t in n.ast.targets if isinstance(t, ast.Subscript)]
            elif n.kind == "call" and isinstance(n.ast.func, ast.Attribute) and n.ast.func.attr in REMOVE and n.ast.args:
                subs = [(n.ast.func.value, n.ast.args[0])]
            else:
                continue
            for lst, ix in subs:
                if not isinstance(lst, ast.Name):
                    continue
                for x in ast.walk(ix):
                    if not isinstance(x, ast.Name) or x.id == lst.id:
                        continue
                    s = n.frame.scope.lookup_scope(x.id)
                    for k, b in (s.binds[x.id] if s is not None else ()):
                        src = getattr(b, "value", None) if k in ("unpack", "assign") else getattr(b, "iter", None)
                        if src is None or not any(self.enum_rev(y, lst.id) for y in ast.walk(src)):
                            continue
                        if not self.first_of_pair(b, x.id):
                            continue
                        self.c.instance("reversed-position", f"{f.qual}: {ast.unparse(ix)}")
                        lin = linear(ix, lst.id, x.id)
                        if lin is not None and lin not in ((-1, 1, -1), (-1, 0, -1)):
                            self.bad("reversed-position", f, lst.id,
                                     f"'{ast.unparse(ix)}' is not the position in '{lst.id}' of the entry found at '{x.id}' from its end", n.ast)

    @staticmethod
    def first_of_pair(b, name):
        ts = getattr(b, "targets", None) or [getattr(b, "target", None)]
        return any(isinstance(t, ast.Tuple) and t.elts and isinstance(t.elts[0], ast.Name) and t.elts[0].id == name for t in ts)

    @staticmethod
    def enum_rev(y, lst):
        return isinstance(y, ast.Call) and isinstance(y.func, ast.Name) and y.func.id == "enumerate" and len(y.args) == 1 and not y.keywords and \
            isinstance(y.args[0], ast.Call) and isinstance(y.args[0].func, ast.Name) and y.args[0].func.id == "reversed" and \
            isinstance(y.args[0].args[0], ast.Name) and y.args[0].args[0].id == lst


def linear(e, lst, pos):
    """(constant, coefficient of len(lst), coefficient of pos), or None."""
    if isinstance(e, ast.Constant) and isinstance(e.value, int):
        return (e.value, 0, 0)
    if isinstance(e, ast.Name) and e.id == pos:
        return (0, 0, 1)
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "len" and isinstance(e.args[0], ast.Name) and e.args[0].id == lst:
        return (0, 1, 0)
    if isinstance(e, ast.UnaryOp):
        v = linear(e.operand, lst, pos)
        if v is None:
            return None
        if isinstance(e.op, ast.USub):
            return tuple(-x for x in v)
        if isinstance(e.op, ast.Invert):
            return (-v[0] - 1, -v[1], -v[2])
        return v if isinstance(e.op, ast.UAdd) else None
    if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Sub)):
        a, b = linear(e.left, lst, pos), linear(e.right, lst, pos)
        if a is None or b is None:
            return None
        s = 1 if isinstance(e.op, ast.Add) else -1
        return tuple(x + s * y for x, y in zip(a, b))
    return None


def run(c):
    prog = Program()
    r = Rules(c, prog)
    n = 0
    for f in prog.all_functions():
        if f.module.name.startswith("tnco.testing") or isinstance(f.node, ast.Lambda):
            continue
        if f.parent is not None and f.parent.kind == "function":
            continue  # inlined where it is called
        n += r.function(f)
    c.analysed["loop bodies and functions with removals"] = n
    c.require("removal-order", 4)
    c.assume("the two positions of a contraction step are different")
    c.assume("lists searched with index()/bisect() for positions hold ascending values")
