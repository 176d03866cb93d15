"""Abstract interpretation of the native core over clang's typed syntax tree (sa/cxx.py); no solver, nothing is executed.

Values: ("k", c) constants, ("pos", name) distinct tree positions, ("set", mask) index sets as truth vectors over a fixed set of
boolean features of one arbitrary index, ("lin", ((atom, coef), ...)) sums, ("t", op, ...) terms, ("clo", n) closures, ("tuple", vs),
("copy", loc, snapshot id) aggregates. Memory maps access paths (tuples) to values; references are paths.

Undetermined branches partition the analysis (each partition is one entry of `paths`); equal conditions are decided equally within one.
"""
import itertools

NV = 12
FULL = (1 << (1 << NV)) - 1


def var(i):
    """Truth vector of feature i."""
    n = 1 << NV
    block = ((1 << (1 << i)) - 1) << (1 << i)
    out, width = 0, 1 << (i + 1)
    out = block
    while width < n:
        out |= out << width
        width *= 2
    return out


K = lambda v: ("k", v)
NULLPOS = K(-1)
VOID = ("k", None)


def t(op, *a):
    return ("t", op, *a)


class Lv:
    __slots__ = ("loc",)

    def __init__(self, loc):
        self.loc = loc

    def __repr__(self):
        return f"Lv{self.loc}"


class Throw(Exception):

    def __init__(self, what=None):
        self.what = what


class Infeasible(Exception):
    pass


class GiveUp(Exception):
    """The analysis cannot follow the code (not a finding)."""


class EndPath(Exception):
    """A driver ends the current partition."""


# ---- linear sums
def lin(v):
    if v[0] == "lin":
        return dict(v[1])
    if v[0] == "k":
        if isinstance(v[1], (int, float)) and not isinstance(v[1], bool):
            return {1: v[1]} if v[1] else {}
        if isinstance(v[1], bool):
            return {1: int(v[1])} if v[1] else {}
    return {v: 1}


def mklin(d):
    d = {a: c for a, c in d.items() if c}
    if not d:
        return K(0)
    if set(d) == {1}:
        return K(d[1])
    if len(d) == 1:
        (a, c), = d.items()
        if c == 1:
            return a
    return ("lin", tuple(sorted(d.items(), key=repr)))


def add(a, b, sign=1):
    d = lin(a)
    for x, c in lin(b).items():
        d[x] = d.get(x, 0) + sign * c
    return mklin(d)


def subterms(v):
    yield v
    if isinstance(v, tuple):
        for x in v:
            if isinstance(x, tuple):
                yield from subterms(x)


class Interp:

    def __init__(self, core, hooks=None):
        self.core = core
        self.hooks = hooks
        self.decls = []
        self.reset()

    def reset(self):
        self.mem = {}
        self.valid = FULL
        self.conds = []  # (cond, bool) decided in this partition
        self.memo = {}
        self.snaps = []
        self.clos = []
        self.n = 0
        self.depth = 0
        self.frames = []
        self.events = []
        self.nvars = 0
        self.steps = 0

    # ---- partitions
    def explore(self, fn, limit=4000):
        """All partitions of fn(self); yields (result, kind) with the interpreter in the partition's final state."""
        todo = [[]]
        count = 0
        while todo:
            pre = todo.pop()
            count += 1
            if count > limit:
                raise GiveUp("too many partitions")
            self.reset()
            self.script, self.pos, self.alts = pre, 0, []
            try:
                r = ("ok", fn(self))
            except Throw as e:
                r = ("throw", e.what)
            except Infeasible:
                r = None
            except EndPath:
                r = ("end", None)
            alts = self.alts
            for i in range(len(pre), len(alts)):
                for j in range(1, alts[i]):
                    todo.append(self.trace[:i] + [j])
            if r is not None:
                yield r

    def pick(self, n):
        """Nondeterministic choice among n alternatives."""
        if self.pos == 0:
            self.trace = []
        i = self.script[self.pos] if self.pos < len(self.script) else 0
        self.pos += 1
        self.alts.append(n)
        self.trace.append(i)
        return i

    def norm(self, v):
        """Masks restricted to the feasible index features."""
        if isinstance(v, tuple):
            if len(v) == 2 and v[0] == "set":
                return ("set", v[1] & self.valid)
            return tuple(self.norm(x) if isinstance(x, tuple) else x for x in v)
        return v

    def decide(self, c):
        """Truth of a condition term in this partition."""
        neg = False
        while c[0] == "t" and c[1] == "not":
            c, neg = c[2], not neg
        if c[0] == "k":
            return bool(c[1]) != neg
        key = self.norm(c)
        if key[:2] == ("t", "any") and key[2][0] == "set" and not key[2][1]:
            return neg
        if key not in self.memo:
            self.memo[key] = self.pick(2) == 0
            self.conds.append((key, self.memo[key]))
            if key[:2] == ("t", "any") and key[2][0] == "set" and not self.memo[key]:
                # no index at all has this combination of features
                self.constrain(~key[2][1] & FULL)
        return self.memo[key] != neg

    def choose(self, key, n):
        key = ("choice", key)
        if key not in self.memo:
            self.memo[key] = self.pick(n) if n > 1 else 0
        return self.memo[key]

    # ---- index set features
    def feature(self, within=None):
        if self.nvars >= NV:
            raise GiveUp("too many index features")
        m = var(self.nvars)
        self.nvars += 1
        if within is not None:
            self.valid &= ~m | within
        return m

    def constrain(self, mask):
        self.valid &= mask
        if not self.valid:
            raise Infeasible

    def same(self, a, b):
        return self.norm(a) == self.norm(b)

    def fresh(self, what="v"):
        self.n += 1
        return t(what, self.n)

    # ---- memory
    def alloc(self, v=None, what="L"):
        self.n += 1
        loc = (what, self.n)
        if v is not None:
            self.mem[loc] = v
        return loc

    def snapshot(self):
        self.snaps.append(dict(self.mem))
        return len(self.snaps) - 1

    def read(self, loc, mem=None):
        mem = self.mem if mem is None else mem
        if loc in mem:
            return mem[loc]
        for i in range(len(loc) - 1, 0, -1):
            if loc[:i] in mem:
                return self.project(mem[loc[:i]], loc[i:])
        r = self.hooks.init(self, loc, mem) if self.hooks is not None and hasattr(self.hooks, "init") else None
        if r is None:
            r = t("init", loc)
        return r

    def project(self, v, suffix):
        if not suffix:
            return v
        if v[0] == "copy":
            return self.read(v[1] + suffix, self.snaps[v[2]])
        if v[0] == "tuple" and isinstance(suffix[0], int) and suffix[0] < len(v[1]):
            return self.project(v[1][suffix[0]], suffix[1:])
        if self.hooks is not None and hasattr(self.hooks, "project"):
            r = self.hooks.project(self, v, suffix)
            if r is not None:
                return r
        if v[0] == "t" and v[1] == "init":
            return self.read(v[2] + suffix, {})
        return t("proj", v, suffix)

    def write(self, loc, v):
        n = len(loc)
        for k in [k for k in self.mem if len(k) > n and k[:n] == loc]:
            del self.mem[k]
        self.mem[loc] = v
        self.events.append(("write", loc))

    def has_parts(self, loc):
        n = len(loc)
        return any(len(k) > n and k[:n] == loc for k in self.mem)

    def rv(self, x):
        """Value of an expression result."""
        if isinstance(x, Lv):
            if x.loc in self.mem:
                return self.mem[x.loc]
            if self.has_parts(x.loc):
                return ("copy", x.loc, self.snapshot())
            return self.read(x.loc)
        return x

    def origin(self, loc):
        """Where an untouched copy was taken from."""
        v = self.read(loc)
        return v[2] if v[:2] == ("t", "init") else loc

    def lv(self, x):
        return x.loc if isinstance(x, Lv) else self.alloc(x, "T")

    # ---- functions
    def call_fun(self, f, args, this=None, clo=None):
        """Inline a function; args are expression results (Lv or values)."""
        if self.depth > 40:
            raise GiveUp("recursion")
        env = {}
        if clo is not None:
            env.update(self.clos[clo]["env"])
            this = self.clos[clo]["this"]
        for p, a in itertools.zip_longest(f["ps"], args[:len(f["ps"])]):
            ty = self.core.type(p["t"])
            if a is None:
                env[p["d"]] = self.alloc(self.fresh("missing"))
            elif ty.endswith("&"):
                env[p["d"]] = self.lv(a)
            else:
                env[p["d"]] = self.alloc(self.rv(a))
        self.frames.append({"env": env, "this": this, "f": f})
        self.depth += 1
        try:
            r = self.block(f["body"])
        finally:
            self.depth -= 1
            self.frames.pop()
        if r is None or r[0] != "ret":
            return VOID
        if self.core.type(f["ret"]).endswith("&"):
            return r[1]
        return self.rv(r[1])

    def construct(self, f, args, loc):
        """Run a constructor into loc."""
        env = {}
        for p, a in itertools.zip_longest(f["ps"], args[:len(f["ps"])]):
            ty = self.core.type(p["t"])
            if a is None:
                env[p["d"]] = self.alloc(self.fresh("missing"))
            else:
                env[p["d"]] = self.lv(a) if ty.endswith("&") else self.alloc(self.rv(a))
        self.frames.append({"env": env, "this": loc, "f": f})
        self.depth += 1
        try:
            for i in f.get("inits", []):
                e = i["e"]
                if "f" in i:
                    v = self.rv(self.ev(e))
                    if v[0] == "tuple" and len(v[1]) == 1 and not any(x in self.core.type(e.get("t")) for x in ("array<", "vector<", "tuple<")):
                        v = v[1][0]
                    self.write(loc + (i["f"],), v)
                elif e and e["k"] == "ctor" and e.get("f") in self.core.fun:
                    self.construct(self.core.fun[e["f"]], [self.ev(x) for x in e["a"]], loc)
                elif e:
                    r = self.rv(self.ev(e))
                    self.write(loc + ("#base",), r)
            self.block(f["body"])
        finally:
            self.depth -= 1
            self.frames.pop()

    # ---- statements
    def block(self, s):
        if s is None:
            return None
        self.steps += 1
        if self.steps > 400000:
            raise GiveUp("too long")
        k = s["k"]
        if k == "block":
            for x in s.get("a", []):
                r = self.block(x)
                if r is not None:
                    return r
            return None
        return getattr(self, "st_" + k, self.st_other)(s)

    def st_other(self, s):
        raise GiveUp("statement " + s["k"] + " " + str(s.get("c", "")))

    def st_expr(self, s):
        self.ev(s["e"])

    def bind(self, d, ty, e):
        env = self.frames[-1]["env"]
        if e is None:
            env[d] = self.alloc(K(0) if False else self.fresh("uninit"))
            return
        x = self.ev(e)
        if ty.endswith("&"):
            env[d] = self.lv(x)
        else:
            v = self.rv(x)
            env[d] = self.alloc(v)

    def st_decl(self, s):
        env = self.frames[-1]["env"]
        for d in s["a"]:
            if "b" in d:
                x = self.ev(d["e"])
                ty = self.core.type(d["t"])
                loc = self.lv(x) if ty.endswith("&") else self.alloc(self.rv(x))
                for i, (b, h, f) in enumerate(zip(d["b"], d["h"], d["f"])):
                    env[b] = loc + ((f,) if f and f not in ("first", "second") else (i,))
                    if h:
                        env[h] = env[b]
            elif "d" in d:
                self.bind(d["d"], self.core.type(d["t"]), d["e"])

    def st_ret(self, s):
        return ("ret", self.ev(s["e"]) if s["e"] is not None else VOID)

    def st_if(self, s):
        if s.get("init"):
            self.block(s["init"])
        if s.get("cv"):
            self.block(s["cv"])
        if self.decide(self.cond(s["c"])):
            return self.block(s["t"])
        return self.block(s["e"])

    def st_break(self, s):
        return ("brk",)

    def st_continue(self, s):
        return ("cont",)

    def st_try(self, s):
        return self.block(s["b"])

    def st_while(self, s):
        return self.hooks.loop(self, s)

    st_do = st_for = st_forr = st_while

    # ---- conditions
    def cond(self, e):
        return self.as_cond(self.rv(self.ev(e)))

    def as_cond(self, v):
        if v[0] == "k":
            return K(bool(v[1]))
        if v[0] == "t" and v[1] in ("lt", "eq", "not", "has", "any", "intersects", "subset", "test", "init", "alt", "init-bool", "empty", "forall", "close", "valid"):
            return v
        if v[0] == "pos" or v[0] == "ptr" and v[1][-1:] and isinstance(v[1][-1], tuple) and v[1][-1][:1] == ("alt",):
            return K(True)
        return t("not", t("eq", v, K(0)))

    def lt(self, a, b):
        if a[0] == b[0] == "k":
            return K(a[1] < b[1])
        if a[0] == "pos" and b[0] == "k":
            return K(b[1] > 0) if b[1] <= 0 else t("lt", a, b)
        if a[0] == "pos" and b[0] == "t" and b[1] in ("size", "nnodes"):
            return K(True)
        if b[0] == "pos" and a[0] == "k" and a[1] < 0:
            return K(True)
        if self.same(a, b):
            return K(False)
        return t("lt", a, b)

    def eq(self, a, b):
        if a[0] == b[0] == "k":
            return K(a[1] == b[1])
        if a[0] == b[0] == "pos":
            return K(a[1] == b[1])
        if {a[0], b[0]} == {"pos", "k"}:
            k = a if a[0] == "k" else b
            if isinstance(k[1], int) and k[1] < 0:
                return K(False)
        if self.same(a, b):
            return K(True)
        for x, y in ((a, b), (b, a)):
            if y in (K(0), K(None)) and x[0] == "ptr" and isinstance(x[1][-1], tuple) and x[1][-1][:1] == ("alt",):
                return K(False)
        a, b = sorted([a, b], key=repr)
        return t("eq", a, b)

    @staticmethod
    def lnot(c):
        if c[0] == "k":
            return K(not c[1])
        return c[2] if c[0] == "t" and c[1] == "not" else t("not", c)

    def compare(self, op, a, b):
        if op == "<":
            return self.lt(a, b)
        if op == ">":
            return self.lt(b, a)
        if op == "<=":
            return self.lnot(self.lt(b, a))
        if op == ">=":
            return self.lnot(self.lt(a, b))
        if op == "==":
            return self.eq(a, b)
        if op == "!=":
            return self.lnot(self.eq(a, b))
        raise GiveUp(op)

    def arith(self, op, a, b):
        if a[0] == "set" and b[0] == "set":
            if op == "&":
                return ("set", a[1] & b[1])
            if op == "|":
                return ("set", a[1] | b[1])
            if op == "^":
                return ("set", a[1] ^ b[1])
            if op == "-":
                return ("set", a[1] & ~b[1])
        if op == "+":
            if a[0] == "k" and isinstance(a[1], str) or b[0] == "k" and isinstance(b[1], str) or a[0] == "cat" or b[0] == "cat":
                return self.cat(a, b)
            return add(a, b)
        if op == "-":
            return add(a, b, -1)
        if op == "*":
            if a[0] == b[0] == "k":
                return K(a[1] * b[1])
            for x, y in ((a, b), (b, a)):
                if x[0] == "k" and isinstance(x[1], (int, float)):
                    if x[1] == 1:
                        return y
                    if y[0] == "lin":
                        return mklin({k: c * x[1] for k, c in y[1]})
            return t("*", *sorted([a, b], key=repr))
        if op in ("/", "%", "&", "|", "^", "<<", ">>"):
            if op != "/" and a[0] == b[0] == "k" and isinstance(a[1], int) and isinstance(b[1], int) and (op != "%" or b[1]):
                return K(eval(f"{int(a[1])} {op} {int(b[1])}"))
            return t(op, a, b)
        raise GiveUp("operator " + op)

    def cat(self, a, b):
        parts = []
        for x in (a, b):
            parts += list(x[1]) if x[0] == "cat" else [x]
        out = []
        for x in parts:
            if out and out[-1][0] == x[0] == "k":
                out[-1] = K(str(out[-1][1]) + str(x[1]))
            else:
                out.append(x)
        return out[0] if len(out) == 1 else ("cat", tuple(out))

    # ---- expressions
    def ev(self, e):
        if e is None:
            return VOID
        self.steps += 1
        return getattr(self, "ex_" + e["k"], self.ex_unknown)(e)

    def ex_unknown(self, e):
        a = [self.rv(self.ev(x)) for x in e.get("a", []) if isinstance(x, dict)]
        return t("expr:" + str(e.get("c", e["k"])), *a)

    def ex_lit(self, e):
        v = e["v"]
        if isinstance(v, str):
            try:
                v = int(v)
            except ValueError:
                pass
        return K(v)

    def ex_str(self, e):
        return K(e.get("v", ""))

    def ex_zero(self, e):
        return K(0)

    def ex_this(self, e):
        return Lv(self.frames[-1]["this"])

    def ex_void(self, e):
        self.ev(e["e"])
        return VOID

    def ex_view(self, e):
        return self.ev(e["e"])

    def ex_v(self, e):
        for env in (self.frames[-1]["env"],):
            if e["d"] in env:
                return Lv(env[e["d"]])
        if "g" in e and e["d"] in self.core.globals:
            return self.ev(self.core.globals[e["d"]]["init"])
        return t("var", e.get("g", e.get("n")))

    def ex_fn(self, e):
        return ("fn", e["f"])

    def ex_mem(self, e):
        o = self.ev(e["o"])
        n = e["n"]
        if "f" in e:
            return ("method", e["f"], self.lv(o))
        if n in ("first", "second"):
            n = 0 if n == "first" else 1
        if isinstance(o, Lv):
            v = self.mem.get(o.loc)
            if v is not None and v[0] == "ptr":
                return Lv(v[1] + (n,))
            return Lv(o.loc + (n,))
        if o[0] == "ptr":
            return Lv(o[1] + (n,))
        return Lv(self.alloc(o, "T") + (n,))

    def ex_cast(self, e):
        v = self.rv(self.ev(e["e"]))
        if e["ck"].endswith("ToBoolean"):
            return self.as_cond(v)
        h = getattr(self.hooks, "cast", None)
        return (h(self, e, v) or v) if h else v

    def ex_cond(self, e):
        c, a, b = e["a"]
        return self.ev(a) if self.decide(self.cond(c)) else self.ev(b)

    def ex_idx(self, e):
        o, i = self.ev(e["a"][0]), self.rv(self.ev(e["a"][1]))
        return self.index(o, i)

    def index(self, o, i):
        key = i[1] if i[0] == "k" and isinstance(i[1], int) else i
        r = getattr(self.hooks, "index", None)
        if r is not None:
            x = r(self, o, i)
            if x is not None:
                return x
        return Lv(self.lv(o) + (key,))

    def ex_init(self, e):
        a = [self.rv(self.ev(x)) for x in e["a"]]
        ty = self.core.type(e["t"])
        # a braced aggregate around one nested aggregate (std::array)
        if len(a) == 1 and a[0][0] == "tuple" and ("array<" in ty or "tuple<" in ty):
            return a[0]
        if len(a) == 1 and not ty.startswith(("std::", "const std::")) and "[" not in ty and ty not in self.core.rec:
            return a[0]
        if len(a) == 1 and ("Bitset" in ty or "dynamic_bitset" in ty):
            return a[0]
        return ("tuple", tuple(a))

    def ex_lambda(self, e):
        env = {}
        fr = self.frames[-1] if self.frames else {"env": {}, "this": ("this",)}
        this = fr["this"]
        for c in e["caps"]:
            if c.get("this"):
                continue
            x = self.ev(c["e"])
            env[c["d"]] = self.lv(x) if c["ref"] else self.alloc(self.rv(x))
        self.clos.append({"env": env, "this": this, "ops": e["ops"], "rec": e["rec"], "l": e["l"]})
        return ("clo", len(self.clos) - 1)

    def apply(self, f, args):
        """Call a function value with already evaluated arguments."""
        if f[0] == "clo":
            ops = [self.core.fun[o] for o in self.clos[f[1]]["ops"] if o in self.core.fun]
            fit = [o for o in ops if len(o["ps"]) == len(args)]
            if not fit:
                raise GiveUp("no matching instantiation of a lambda")
            return self.call_fun(fit[0], args, clo=f[1])
        if f[0] == "fn" and f[1] in self.core.fun:
            return self.call_fun(self.core.fun[f[1]], args)
        return t("apply", f, *[self.rv(a) for a in args])

    def ex_ctor(self, e):
        kind = e["kind"]
        if kind in ("copy", "move") and len(e["a"]) == 1:
            return self.rv(self.ev(e["a"][0]))
        h = getattr(self.hooks, "ctor", None)
        if h is not None:
            r = h(self, e)
            if r is not None:
                return r
        ty = self.core.type(e["t"])
        f = self.core.fun.get(e.get("f"))
        base = ty.replace("const ", "")
        if f is not None and f.get("rec"):
            loc = self.alloc(None, "O")
            self.mem[loc] = t("object", base)
            self.construct(f, [self.ev(x) for x in e.get("a", [])], loc)
            return ("copy", loc, self.snapshot())
        a = [self.rv(self.ev(x)) for x in e.get("a", [])]
        if base.startswith(("std::tuple<", "std::pair<", "std::array<")):
            if len(a) == 1 and a[0][0] in ("tuple", "copy"):
                return a[0]
            return ("tuple", tuple(a))
        if base.startswith(("std::basic_string", "std::optional<", "std::variant<", "std::function<")):
            if base.startswith("std::basic_string") and not a:
                return K("")
            if len(a) >= 1 and not (base.startswith("std::optional<") and a[0] == t("object", "std::nullopt_t")):
                return a[0]
        if not a and base in ("float", "double", "long double"):
            return K(0)
        return t("new:" + base, *a)

    def ex_throw(self, e):
        if e["e"] is not None:
            self.ev(e["e"])
        raise Throw(self.core.type(e.get("t", 0)))

    def ex_new(self, e):
        return t("new", self.rv(self.ev(e["e"])))

    def assign(self, target, v):
        if isinstance(target, Lv):
            h = getattr(self.hooks, "store", None)
            if h is not None and h(self, target.loc, v):
                return target
            self.write(target.loc, v)
        return target

    def ex_bin(self, e):
        op = e["op"]
        if op == "&&":
            return K(self.decide(self.cond(e["a"][0])) and self.decide(self.cond(e["a"][1])))
        if op == "||":
            return K(self.decide(self.cond(e["a"][0])) or self.decide(self.cond(e["a"][1])))
        if op == ",":
            self.ev(e["a"][0])
            return self.ev(e["a"][1])
        if op == "=":
            v = self.rv(self.ev(e["a"][1]))
            return self.assign(self.ev(e["a"][0]), v)
        a = self.ev(e["a"][0])
        b = self.rv(self.ev(e["a"][1]))
        if op in ("<", ">", "<=", ">=", "==", "!="):
            return self.compare(op, self.rv(a), b)
        if op.endswith("=") and op not in ("==",):
            return self.assign(a, self.arith(op[:-1], self.rv(a), b))
        return self.arith(op, self.rv(a), b)

    def ex_un(self, e):
        op = e["op"]
        x = self.ev(e["a"][0])
        if op == "!":
            return self.lnot(self.as_cond(self.rv(x)))
        if op == "-":
            return add(K(0), self.rv(x), -1)
        if op == "+":
            return self.rv(x)
        if op in ("++", "--"):
            old = self.rv(x)
            new = add(old, K(1), 1 if op == "++" else -1)
            self.assign(x, new)
            return old if e["post"] else x
        if op == "*":
            if e["a"][0]["k"] == "this":
                return x
            v = self.rv(x)
            if v[0] == "ptr":
                return Lv(v[1])
            return Lv((x.loc if isinstance(x, Lv) else self.alloc(x, "T")) + ("*",))
        if op == "&":
            return ("ptr", self.lv(x)) if isinstance(x, Lv) else x
        if op == "~":
            v = self.rv(x)
            return ("set", ~v[1] & FULL) if v[0] == "set" else t("~", v)
        return t("un" + op, self.rv(x))

    # operator calls and methods
    def ex_op(self, e):
        op = e["op"]
        fd = self.core.fdecl.get(e.get("f"), {})
        rec = fd.get("rec", "")
        h = getattr(self.hooks, "op", None)
        if h is not None:
            r = h(self, e, op, fd)
            if r is not None:
                return r
        a = [self.ev(x) for x in e["a"]]
        return self.operator(op, fd, a, e)

    def operator(self, op, fd, a, e=None):
        rec = fd.get("rec", "")
        if op == "()":
            v = self.rv(a[0])
            if v[0] == "clo":
                f = self.core.fun.get(fd.get("id"))
                return self.call_fun(f, a[1:], clo=v[1]) if f is not None else self.apply(v, a[1:])
            if v[0] == "fn":
                return self.apply(v, a[1:])
        f = self.core.fun.get(fd.get("id"))
        if op == "[]" and (f is None or not f.get("rec", "").startswith("tnco::")):
            return self.index(a[0], self.rv(a[1]))
        if op in ("*", "->") and len(a) == 1:
            v = self.rv(a[0]) if not isinstance(a[0], Lv) or a[0].loc in self.mem else None
            if v is not None and v[0] == "ptr":
                return Lv(v[1])
            if "optional" in rec:
                return Lv(self.lv(a[0]) + ("value",))
            return Lv(self.lv(a[0]) + ("*",))
        vals = [self.rv(x) for x in a]
        sets = any(v[0] == "set" for v in vals)
        if op == "=":
            return self.assign(a[0], vals[1])
        if f is not None and not sets and not fd.get("virt"):
            if fd.get("rec") and fd.get("kind") not in ("copy=", "move="):
                return self.call_fun(f, a[1:], this=self.lv(a[0]))
            if not fd.get("rec"):
                return self.call_fun(f, a)
        if op in ("<", ">", "<=", ">=", "==", "!=") and len(vals) == 2:
            return self.compare(op, vals[0], vals[1])
        if len(vals) == 2 and op in ("&", "|", "^", "-", "+", "*", "/", "%"):
            return self.arith(op, vals[0], vals[1])
        if len(vals) == 2 and op in ("&=", "|=", "^=", "-=", "+=", "*=", "/="):
            return self.assign(a[0], self.arith(op[:-1], vals[0], vals[1]))
        if op == "~" and vals[0][0] == "set":
            return ("set", ~vals[0][1] & FULL)
        if op == "-" and len(vals) == 1:
            return add(K(0), vals[0], -1)
        if op == "!" and len(vals) == 1:
            return self.lnot(self.as_cond(vals[0]))
        if op in ("++", "--") and vals:
            return self.assign(a[0], add(vals[0], K(1), 1 if op == "++" else -1))
        if op == "<<" or op == ">>":
            if op == "<<" and isinstance(a[0], Lv):
                cur = self.rv(a[0])
                self.write(a[0].loc, t("stream", cur, vals[1]))
                return a[0]
            if op == ">>" and isinstance(a[1], Lv):
                self.write(a[1].loc, t("read", vals[0]))
            return a[0]
        self.havoc_args(fd, a[1:] if rec else a)
        return t("op" + op, *vals)

    def havoc_args(self, fd, args):
        for p, a in zip(fd.get("ps", []), args):
            ty = self.core.type(p)
            if isinstance(a, Lv) and ty.endswith("&") and not ty.endswith("&&") and not ty.startswith("const "):
                self.write(a.loc, self.fresh("havoc"))

    def ex_mcall(self, e):
        fd = self.core.fdecl.get(e.get("f"), {})
        h = getattr(self.hooks, "mcall", None)
        if h is not None:
            r = h(self, e, fd)
            if r is not None:
                return r
        o = self.ev(e["o"])
        a = [self.ev(x) for x in e["a"]]
        return self.method(e["n"] if "n" in e else "", fd, o, a, e)

    def method(self, n, fd, o, a, e=None):
        rec = fd.get("rec", "")
        ov = self.rv(o) if not isinstance(o, Lv) else (self.mem.get(o.loc) or self.read(o.loc))
        if ov[0] == "set":
            r = self.set_method(n, o, ov, a)
            if r is not None:
                return r
        if ov[0] == "k" and isinstance(ov[1], str) and n in ("data", "c_str", "str"):
            return ov
        if rec.startswith("std::optional"):
            if n == "has_value" or n.startswith("operator bool"):
                return t("has", self.origin(self.lv(o)))
            if n == "value":
                return Lv(self.lv(o) + ("value",))
            if n == "value_or":
                return Lv(self.lv(o) + ("value",)) if self.decide(t("has", self.origin(self.lv(o)))) else a[0]
        if rec.startswith(("std::vector", "std::array", "std::basic_string", "std::stack", "std::deque")):
            if n == "back":
                return self.hooks.back(self, self.lv(o)) if hasattr(self.hooks, "back") else Lv(self.lv(o) + ("back",))
            if n in ("at", "operator[]"):
                return self.index(o, self.rv(a[0]))
            if n == "size" or n == "length":
                return self.size(o)
            if n == "empty":
                return t("empty", self.lv(o))
            if n == "front":
                return self.index(o, K(0))
            if n in ("begin", "end", "cbegin", "cend", "rbegin", "rend"):
                return t("iter", n.lstrip("c"), self.lv(o))
            if n in ("push_back", "emplace_back", "push", "emplace"):
                self.write(self.lv(o), t("pushed", self.rv(o), *[self.rv(x) for x in a]))
                return VOID
        if n == "get" and "_ptr" in rec:
            return ("ptr", self.lv(o) + ("*",))
        f = self.core.fun.get(fd.get("id"))
        if f is not None and not (fd.get("virt") and not (e or {}).get("qualified") and not self.final(rec)):
            if fd.get("static"):
                return self.call_fun(f, a)
            return self.call_fun(f, a, this=self.lv(o))
        if not fd.get("const") and isinstance(o, Lv) and not fd.get("virt"):
            self.write(o.loc, t("mut:" + n, self.rv(o), *[self.rv(x) for x in a]))
        self.havoc_args(fd, a)
        if n.startswith("operator bool"):
            return t("init-bool", ov)
        return t("m:" + n, self.rv(o), *[self.rv(x) for x in a])

    def final(self, rec):
        h = getattr(self.hooks, "dynamic_type", None)
        return h is not None and h(self, rec)

    def set_method(self, n, o, ov, a):
        m = ov[1]
        if n in ("intersects", "is_subset_of", "is_proper_subset_of") and a:
            b = self.rv(a[0])
            if b[0] != "set":
                return None
            if n == "intersects":
                return t("any", ("set", m & b[1]))
            if n == "is_subset_of":
                return t("not", t("any", ("set", m & ~b[1])))
            return t("psubset", ov, b)
        if n == "any":
            return t("any", ov)
        if n == "none":
            return t("not", t("any", ov))
        if n == "positions":
            return ("poslist", m)
        if n == "count":
            return t("count", ov)
        if n == "test" and a:
            return t("test", ov, self.rv(a[0]))
        if n in ("set", "reset", "flip") and a and isinstance(o, Lv):
            i = self.rv(a[0])
            one = self.singleton(i)
            if one is None:
                raise GiveUp("unknown bit")
            if len(a) > 1 and n == "set":
                b = self.rv(a[1])
                n = "set" if self.decide(self.as_cond(b)) else "reset"
            self.events.append((n, o.loc, i))
            self.write(o.loc, ("set", m | one if n == "set" else m & ~one if n == "reset" else m ^ one))
            return o
        if n in ("set", "reset") and not a and isinstance(o, Lv):
            self.write(o.loc, ("set", FULL if n == "set" else 0))
            return o
        if n == "clear":
            self.write(o.loc, ("set", 0))
            return VOID
        return None

    def singleton(self, i):
        """Truth vector of {i} for a position value i."""
        key = ("single", i)
        if key not in self.memo:
            if i[0] == "t" and i[1] == "elem":
                self.memo[key] = self.feature(i[2][1] if i[2][0] == "set" else None)
            else:
                self.memo[key] = self.feature(None)
        return self.memo[key]

    def size(self, o):
        v = self.rv(o) if not isinstance(o, Lv) else self.read(o.loc)
        if v[0] == "tuple":
            return K(len(v[1]))
        if v[0] == "poslist":
            return t("npos", ("set", v[1]))
        if v[0] == "set":
            return t("ninds")
        h = getattr(self.hooks, "size", None)
        r = h(self, o) if h else None
        return r or t("size", self.lv(o))

    def ex_call(self, e):
        fd = self.core.fdecl.get(e.get("f"), {})
        q = fd.get("q", "")
        n = e.get("n", "")
        h = getattr(self.hooks, "call", None)
        if h is not None:
            r = h(self, e, fd)
            if r is not None:
                return r
        if "fe" in e:
            f = self.rv(self.ev(e["fe"]))
            a = [self.ev(x) for x in e["a"]]
            if f[0] == "method":
                m = self.core.fdecl.get(f[1], {})
                return self.method(m.get("n", ""), m, Lv(f[2]), a)
            return self.apply(f, a)
        f = self.core.fun.get(e.get("f"))
        a = [self.ev(x) for x in e["a"]]
        if f is not None:
            return self.call_fun(f, a)
        r = self.std(n, q, e, a, fd)
        if r is not None:
            return r
        self.havoc_args(fd, a)
        return t("call:" + (n or q), *[self.rv(x) for x in a])

    def std(self, n, q, e, a, fd):
        if n in ("move", "forward", "as_const", "addressof", "ref", "cref") and len(a) == 1:
            return ("ptr", self.lv(a[0])) if n == "addressof" else a[0]
        if n == "swap" and len(a) == 2:
            x, y = self.rv(a[0]), self.rv(a[1])
            # elements of the same list of positions: a permutation of it
            self.assign(a[0], y)
            self.assign(a[1], x)
            return VOID
        if n == "exchange" and len(a) == 2:
            x = self.rv(a[0])
            self.assign(a[0], self.rv(a[1]))
            return x
        if n in ("size", "ssize") and len(a) == 1:
            return self.size(a[0])
        if n == "empty" and len(a) == 1:
            return t("empty", self.lv(a[0]))
        if n in ("begin", "end", "cbegin", "cend") and len(a) == 1:
            return t("iter", n.lstrip("c"), self.lv(a[0]))
        if n in ("make_unique", "make_shared"):
            return t("make", *[self.rv(x) for x in a])
        if n in ("make_tuple", "make_pair"):
            return ("tuple", tuple(self.rv(x) for x in a))
        if n == "tie":
            return ("refs", tuple(self.lv(x) for x in a))
        if n == "get" and e.get("ta"):
            i = e["ta"][0]
            if isinstance(i, str):
                return Lv(self.lv(a[0]) + (int(i),))
            return Lv(self.lv(a[0]) + (("alt", self.core.type(i)),))
        if n == "get_if" and e.get("ta"):
            v = self.rv(a[0])
            loc = v[1] if v[0] == "ptr" else self.lv(a[0])
            i = e["ta"][0]
            ty = self.core.type(i) if not isinstance(i, str) else i
            if self.alt(loc, ty):
                return ("ptr", loc + (("alt", ty),))
            return K(0)
        if n == "holds_alternative" and e.get("ta"):
            return K(self.alt(self.lv(a[0]), self.core.type(e["ta"][0])))
        if n == "visit" and len(a) == 2:
            f = self.rv(a[0])
            if f[0] == "clo":
                ops = [self.core.fun[o] for o in self.clos[f[1]]["ops"] if o in self.core.fun]
                loc = self.lv(a[1])
                cands = []
                for o in ops:
                    ty = self.core.type(o["ps"][0]["t"]).replace("const ", "").rstrip("& ").strip()
                    cands.append((ty, o))
                known = self.memo.get(("alternative", loc))
                if known is not None and known in [c[0] for c in cands]:
                    ty, o = next(c for c in cands if c[0] == known)
                else:
                    no = {k[2] for k, v in self.memo.items() if k[0] == "notalt" and k[1] == loc}
                    cands = [c for c in cands if c[0] not in no] or cands
                    ty, o = cands[self.pick(len(cands)) if len(cands) > 1 else 0]
                    self.memo["alternative", loc] = ty
                    if len(cands) > 1:
                        self.conds.append((("alt", loc, ty), True))
                return self.call_fun(o, [Lv(loc + (("alt", ty),))], clo=f[1])
        if n in ("min", "max") and len(a) == 2:
            x, y = self.rv(a[0]), self.rv(a[1])
            return t(n, *sorted([x, y], key=repr))
        if n == "shuffle" or n in ("stable_sort", "sort"):
            x = self.rv(a[0])
            if x[0] == "t" and x[1] == "iter":
                v = self.read(x[3])
                if v[0] != "poslist":
                    self.write(x[3], t(n, v))
                self.events.append((n, x[3], self.lv(a[2]) if n == "shuffle" and len(a) > 2 else None))
            return VOID
        if n in ("log", "log2", "pow", "abs", "sqrt", "exp", "exp2", "fabs", "isnan", "isinf", "log10", "ldexp"):
            return t({"fabs": "abs"}.get(n, n), *[self.rv(x) for x in a])
        return None

    def alt(self, loc, ty):
        """Whether the variant at loc holds ty in this partition."""
        ty = ty.replace("const ", "").rstrip("& ").strip()
        known = self.memo.get(("alternative", loc))
        if known is not None:
            return known == ty
        if ("notalt", loc, ty) in self.memo:
            return False
        if self.pick(2) == 0:
            self.memo["alternative", loc] = ty
            self.conds.append((("alt", loc, ty), True))
            return True
        self.memo["notalt", loc, ty] = True
        self.conds.append((("alt", loc, ty), False))
        return False
