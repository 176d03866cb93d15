"""Debug and release configurations of the native core side by side: what exists in one of them only, and what it can change.

Both configurations come from the same source, so nodes at the same line of the same function correspond.  A statement that only the debug
build has must leave no trace but an exception; a statement that only the release build has must have no effect at all; nothing else may
differ.  A function that the release build declares noexcept must not reach one of the core's own throw statements.
"""
from sa.cxx import walk

READERS = {"all_of", "any_of", "none_of", "count", "count_if", "find", "find_if", "find_if_not", "equal", "is_sorted", "is_partitioned", "max_element", "min_element",
           "accumulate", "reduce", "transform_reduce", "inner_product", "adjacent_find", "mismatch", "lexicographical_compare", "binary_search", "includes", "distance",
           "next", "prev", "minmax_element", "lower_bound", "upper_bound", "is_permutation", "search", "for_each", "for_each_n"}
HANDLES = {"begin", "end", "cbegin", "cend", "rbegin", "rend", "get", "get_if", "ref", "forward", "data", "front", "back", "at", "value", "top", "operator[]", "operator*",
           "operator->", "addressof", "as_const", "move", "tie"}
# position of the iterator written through, counted from the front
WRITES = {"copy": 2, "copy_if": 2, "copy_n": 2, "replace_copy": 2, "remove_copy": 2, "remove_copy_if": 2, "unique_copy": 2, "reverse_copy": 2, "partial_sum": 2,
          "adjacent_difference": 2, "exclusive_scan": 2, "inclusive_scan": 2, "sample": 2}
IMPURE = {"rand", "srand", "abort", "exit", "_Exit", "quick_exit", "terminate", "system", "setenv", "unsetenv", "putenv", "feclearexcept", "fesetround"}
STREAMS = {"cout", "cerr", "clog"}
ASSIGN = {"=", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<=", ">>="}


def is_throw(s):
    return isinstance(s, dict) and any(x.get("k") == "throw" for x in walk(s))


class Pair:
    """debug core `a`, release core `b`."""

    def __init__(self, a, b):
        self.a, self.b = a, b
        self.out = {}
        self.counts = {"function": 0, "debug-only": 0, "release-only": 0, "lambda": 0}
        self.memo = {}
        self.where = None

    def report(self, rule, line, msg):
        self.out.setdefault((rule, f"{self.where['n']}:{self.where['file'].split('/')[-1]}:{msg}"), (self.a.where(self.where, line), msg))

    # ---- functions of both builds
    def key(self, core, f):
        return (f["file"], f["line"], f["q"].replace(" noexcept", ""), f.get("kind"), tuple(core.type(p["t"]).replace(" noexcept", "") for p in f["ps"]),
                tuple(t if isinstance(t, str) else core.type(t) for t in f.get("ta", [])))

    def pairs(self):
        rel = {}
        for f in self.b.fun.values():
            if not f.get("lam"):
                rel.setdefault(self.key(self.b, f), []).append(f)
        for f in self.a.fun.values():
            if not f.get("lam"):
                g = rel.get(self.key(self.a, f))
                if g:
                    yield f, g.pop(0)

    def run(self):
        for f, g in self.pairs():
            self.counts["function"] += 1
            self.where = f
            self.dm = {}
            for p, q in zip(f["ps"], g["ps"]):
                self.dm[p["d"]] = q["d"]
            if f.get("inits") or g.get("inits"):
                if not self.same(f.get("inits"), g.get("inits")):
                    self.report("differs", f["line"], "a member is initialised differently with and without assertions")
            self.stmt(f["body"], g["body"], set())
        fields = lambda core, r: [(x.get("n"), core.type(x.get("t"))) for x in r.get("fields", [])]
        for n, r in self.a.rec.items():
            q = self.b.rec.get(n)
            if q is not None and r.get("fields") and fields(self.a, r) != fields(self.b, q):
                extra = [x for x in fields(self.a, r) if x not in fields(self.b, q)]
                if [x for x in fields(self.a, r) if x not in extra] != fields(self.b, q):
                    self.where = {"n": n, "file": n, "line": 0}
                    self.out.setdefault(("differs", n), ("include/tnco", f"{n} has different members with and without assertions"))

    # ---- structural equality
    def same(self, x, y):
        if isinstance(x, dict) and isinstance(y, dict):
            if x.get("k") != y.get("k"):
                return False
            if x.get("k") == "lambda":
                if not self.same(x.get("caps"), y.get("caps")):
                    # a capture that only debug-only statements need
                    names = lambda z: [c.get("n", "this") for c in z.get("caps", [])]
                    if not set(names(y)) <= set(names(x)):
                        return False
                sig = lambda core, f: (tuple(core.type(p["t"]) for p in f["ps"]), tuple(t if isinstance(t, str) else core.type(t) for t in f.get("ta", [])))
                ops = {}
                for p in y.get("ops", []):
                    if p in self.b.fun:
                        ops.setdefault(sig(self.b, self.b.fun[p]), []).append(self.b.fun[p])
                for o in x.get("ops", []):
                    f = self.a.fun.get(o)
                    # an instantiation that only one build has is used by what only that build has
                    if f and ops.get(sig(self.a, f)):
                        g = ops[sig(self.a, f)].pop(0)
                        for p_, q_ in zip(f["ps"], g["ps"]):
                            self.dm[p_["d"]] = q_["d"]
                        self.counts["lambda"] += 1
                        self.stmt(f["body"], g["body"], set())
                return True
            for k in x.keys() | y.keys():
                if k in ("l", "end"):
                    continue
                if k not in x or k not in y:
                    return False
                u, v = x[k], y[k]
                if k == "d" and isinstance(u, int):
                    if self.dm.setdefault(u, v) != v:
                        return False
                elif k in ("b", "h") and isinstance(u, list) and all(isinstance(i, int) for i in u):
                    if len(u) != len(v) or any(self.dm.setdefault(i, j) != j for i, j in zip(u, v)):
                        return False
                elif k in ("t", "from", "ct", "to") and isinstance(u, int) and isinstance(v, int):
                    if self.a.type(u).replace(" noexcept", "") != self.b.type(v).replace(" noexcept", ""):
                        return False
                elif k == "ta" and isinstance(u, list):
                    s = lambda core, z: [i if isinstance(i, str) else core.type(i).replace(" noexcept", "") for i in z]
                    if s(self.a, u) != s(self.b, v):
                        return False
                elif k == "f" and isinstance(u, int) and isinstance(v, int):
                    p, q = self.a.fdecl.get(u) or self.a.fun.get(u) or {}, self.b.fdecl.get(v) or self.b.fun.get(v) or {}
                    if (p.get("q", p.get("n")), p.get("rec")) != (q.get("q", q.get("n")), q.get("rec")):
                        return False
                elif not self.same(u, v):
                    return False
            return True
        if isinstance(x, list) and isinstance(y, list):
            return len(x) == len(y) and all(self.same(u, v) for u, v in zip(x, y))
        return x == y

    # ---- statements
    def stmts(self, s):
        if s is None:
            return []
        if isinstance(s, dict) and s.get("k") == "block":
            return [z for y in s.get("a", []) for z in (self.stmts(y) if y.get("k") == "block" and not y.get("a") else [y])]
        return [s]

    def stmt(self, x, y, owned):
        """x: debug, y: release."""
        if x is None and y is None:
            return
        if not (isinstance(x, dict) and isinstance(y, dict) and x["k"] == y["k"] and x["k"] != "block"):
            return self.block(self.stmts(x), self.stmts(y), owned)
        for k in sorted(x.keys() | y.keys(), key=lambda z: (z not in ("init",), z)):
            u, v = x.get(k), y.get(k)
            if k in ("l", "end"):
                continue
            if k in ("init", "b", "t", "e", "cv", "var", "h") and (isinstance(u, dict) and self.is_stmt(u) or isinstance(v, dict) and self.is_stmt(v)):
                self.stmt(u, v, owned)
            elif not self.same({"k": "", k: u}, {"k": "", k: v}):
                self.report("differs", x.get("l"), "a statement does different things with and without assertions")
                return

    def is_stmt(self, n):
        return n.get("k") in ("block", "expr", "decl", "if", "for", "forr", "while", "do", "ret", "break", "continue", "try", "switch", "case", "otherstmt")

    def line(self, s):
        ls = [z["l"] for z in walk(s) if z.get("l")]
        return (s["k"], min(ls) if ls else 0)

    def block(self, xs, ys, owned):
        owned = set(owned)
        kx, ky = [self.line(s) for s in xs], [self.line(s) for s in ys]
        # longest common subsequence of the positions
        n, m = len(kx), len(ky)
        L = [[0] * (m + 1) for _ in range(n + 1)]
        for i in range(n - 1, -1, -1):
            for j in range(m - 1, -1, -1):
                L[i][j] = L[i + 1][j + 1] + 1 if kx[i] == ky[j] else max(L[i + 1][j], L[i][j + 1])
        i = j = 0
        plan, debug_decls = [], []
        while i < n or j < m:
            if i < n and j < m and kx[i] == ky[j]:
                plan.append((xs[i], ys[j]))
                i, j = i + 1, j + 1
            elif i < n and (j == m or L[i + 1][j] >= L[i][j + 1]):
                plan.append((xs[i], None))
                if xs[i]["k"] == "decl":
                    debug_decls.append(xs[i])
                i += 1
            else:
                plan.append((None, ys[j]))
                j += 1
        E0 = Effects(self.a, owned, {})
        for x in debug_decls:
            E0.statement(x, False)
        for x, y in plan:
            if y is None:
                self.counts["debug-only"] += 1
                E = Effects(self.a, E0.owned, E0.refs)
                E.statement(x, False)
                for line, what in E.found:
                    self.report("debug-only", line or x.get("l"), f"a debug-only statement {what}")
            elif x is None:
                self.counts["release-only"] += 1
                E = Effects(self.b, set(), {})
                E.statement(y, False)
                if is_throw(y):
                    E.found.append((y.get("l"), "raises"))
                for line, what in E.found:
                    self.report("release-only", line or y.get("l"), f"a statement that only a release build has {what}")
            else:
                self.stmt(x, y, owned)


class Effects:
    """Effects of a statement on anything but the variables in `owned` and its own."""

    def __init__(self, core, owned, refs, depth=0):
        self.core, self.owned, self.refs, self.depth = core, set(owned), refs, depth
        self.found = []

    # ---- whose storage an expression names
    def root(self, e):
        if not isinstance(e, dict):
            return set()
        k = e.get("k")
        if k == "v":
            return self.refs.get(e["d"], {e["d"]})
        if k == "this":
            return {"this"}
        if k == "mem":
            return self.root(e["o"])
        if k in ("idx", "cast", "un", "bin"):
            a = e.get("a") or [e.get("e")]
            if k == "bin" and e.get("op") not in ASSIGN and e.get("op") != ",":
                return set().union(*[self.root(x) for x in a]) if "*" in self.core.type(e.get("t")) else set()
            return self.root(a[-1] if k == "bin" and e.get("op") == "," else a[0])
        if k == "cond":
            return set().union(*[self.root(x) for key, x in e.items() if isinstance(x, dict) and key != "c"], *[self.root(x) for x in (e.get("a") or [])[1:]])
        if k in ("op", "call", "mcall"):
            n = e.get("n") or (self.core.fdecl.get(e.get("f")) or {}).get("n", "")
            t = self.core.type(e.get("t"))
            if n in HANDLES or "operator" + e.get("op", "?") in HANDLES or t.endswith(("&", "*")) or "iterator" in t or "reference" in t or "span" in t or "view" in t:
                out = set()
                for x in [e.get("o")] + list(e.get("a", [])):
                    out |= self.root(x)
                return out
            return set()
        if k == "init":
            return set().union(*[self.root(x) for x in e.get("a", [])]) if "iterator" in self.core.type(e.get("t")) else set()
        if k == "ctor" and len(e.get("a", [])) == 1 and ("iterator" in self.core.type(e.get("t")) or "reference_wrapper" in self.core.type(e.get("t"))):
            return self.root(e["a"][0])
        return set()

    def hit(self, e, line, what="changes an object that the release build uses as well"):
        foreign = {d for d in self.root(e) if d not in self.owned}
        if foreign:
            self.found.append((line, what))

    def statement(self, s, looping):
        if not isinstance(s, dict):
            return
        k = s.get("k")
        if k == "ret":
            self.found.append((s.get("l"), "returns from the function"))
            self.expr(s)
            return
        if k in ("break", "continue") and not looping:
            self.found.append((s.get("l"), "leaves or continues a loop that the release build runs as well"))
            return
        loop = k in ("for", "forr", "while", "do")
        if k == "forr":
            self.bind(s.get("d"), s.get("t"), s["r"])
        if k == "decl":
            for v in s.get("a", []):
                if "d" in v:
                    self.bind(v["d"], v.get("t"), v.get("e"))
                for b in v.get("b") or []:
                    self.bind(b, v.get("t"), v.get("e"))
        for key, x in sorted(s.items(), key=lambda z: z[0] not in ("init", "cv")):
            if key == "var":
                continue
            for y in x if isinstance(x, list) else [x]:
                if isinstance(y, dict):
                    if self.is_stmt(y):
                        self.statement(y, looping or loop or k == "switch")
                    elif k == "decl":
                        self.expr(y.get("e"))
                    else:
                        self.expr(y)

    def is_stmt(self, n):
        return n.get("k") in ("block", "expr", "decl", "if", "for", "forr", "while", "do", "ret", "break", "continue", "try", "switch", "case", "otherstmt")

    def bind(self, d, ty, e):
        ts = self.core.type(ty) if ty is not None else ""
        handle = ts.endswith(("&", "*", "*const", "* const", "&&")) or "iterator" in ts or "reference" in ts or ty is None
        r = self.root(e) if handle else set()
        r = {x for x in r if x not in self.owned}
        if r:
            self.refs = {**self.refs, d: r}
            self.owned.discard(d)
        else:
            self.owned.add(d)

    def expr(self, e):
        if not isinstance(e, (dict, list)):
            return
        if isinstance(e, list):
            for x in e:
                self.expr(x)
            return
        k = e.get("k")
        if k == "bin" and e["op"] in ASSIGN:
            self.hit(e["a"][0], e.get("l"))
        elif k == "un" and e["op"] in ("++", "--"):
            self.hit(e["a"][0], e.get("l"))
        elif k in ("call", "mcall", "op", "ctor"):
            self.call(e)
        elif k == "lambda":
            self.lam(e, None)
            return
        for key, x in e.items():
            if isinstance(x, (dict, list)):
                self.expr(x)

    def lam(self, e, others):
        """A lambda judged as if it were called; `others`: whose elements its reference parameters may be."""
        for o in e.get("ops", []):
            g = self.core.fun.get(o)
            if not g:
                continue
            own = set(self.owned)
            refs = dict(self.refs)
            for c in e.get("caps", []):
                if c.get("n") and not c.get("ref") and "d" in c:
                    own.add(c["d"]) if not refs.get(c["d"]) else None
            for p in g["ps"]:
                if others and self.core.type(p["t"]).endswith("&") and not self.core.type(p["t"]).startswith("const "):
                    refs[p["d"]] = set(others)
                else:
                    own.add(p["d"])
            E = Effects(self.core, own, refs, self.depth)
            for s in g["body"]["a"] if g["body"].get("k") == "block" else [g["body"]]:
                E.lambda_statement(s)
            self.found += E.found

    def lambda_statement(self, s):
        before = len(self.found)
        self.statement(s, False)
        self.found[before:] = [x for x in self.found[before:] if "returns from" not in x[1]]

    def call(self, e):
        fd = self.core.fdecl.get(e.get("f")) or self.core.fun.get(e.get("f")) or {}
        n = e.get("n") or fd.get("n", "")
        if n in IMPURE:
            self.found.append((e.get("l"), f"calls {n}"))
            return
        args = list(e.get("a", []))
        obj = e.get("o") if e.get("k") == "mcall" else None
        params = [self.core.type(p["t"]) if isinstance(p, dict) else self.core.type(p) for p in fd.get("ps", [])]
        if e.get("k") == "op" and fd.get("rec") is not None and len(args) == len(params) + 1:
            obj, args = args[0], args[1:]
        if n in HANDLES or n in ("size", "empty", "ssize", "swap_ranges_"):
            return
        if n == "operator<<" or e.get("op") == "<<":
            if any(x.get("k") == "v" and x.get("n") in STREAMS for x in walk(e)):
                return
        own_code = self.core.fun.get(e.get("f"))
        mut = self.mutates(own_code) if own_code is not None and self.depth < 6 else None
        if mut is not None:
            if "global" in mut:
                self.found.append((e.get("l"), "changes global state"))
            if "this" in mut and obj is not None and e.get("k") != "ctor":
                self.hit(obj, e.get("l"))
            for i, x in enumerate(args):
                if i in mut:
                    self.hit(x, e.get("l"))
            return
        if obj is not None and fd.get("rec") is not None and not fd.get("const") and not fd.get("static") and n not in ("operator()",):
            self.hit(obj, e.get("l"))
        elif n == "operator()" and obj is not None and not fd.get("const") and "lambda" not in fd.get("rec", ""):
            self.hit(obj, e.get("l"))
        algo = fd.get("q", "").startswith("std::") and obj is None and fd.get("rec") is None
        if algo and n not in READERS and any("iterator" in p for p in params):
            its = [x for x in args if x.get("k") != "lambda"]
            i = {4: 2, 5: 3}.get(len(args)) if n == "transform" else WRITES.get(n)
            for x in [args[i]] if i is not None and i < len(args) else its:
                self.hit(x, e.get("l"))
        if algo and any(x.get("k") == "lambda" for x in args):
            others = set().union(*[self.root(x) for x in args if x.get("k") != "lambda"])
            for x in args:
                if x.get("k") == "lambda":
                    self.lam(x, others)
        for p, x in zip(params, args):
            if p.endswith("&") and not p.endswith("&&") and not p.startswith("const ") and " const &" not in p:
                self.hit(x, e.get("l"))
            if p.endswith("&&") and isinstance(x, dict) and (x.get("n") == "move" or self.core.fdecl.get(x.get("f"), {}).get("n") == "move"):
                self.hit(x, e.get("l"))

    def mutates(self, f):
        """What a function of the core changes: 'this', 'global' and positions of its parameters."""
        memo = self.core.__dict__.setdefault("_mutates", {})
        if f["id"] in memo:
            return memo[f["id"]]
        memo[f["id"]] = set()
        E = Effects(self.core, set(), {}, self.depth + 1)
        E.params = {p["d"]: i for i, p in enumerate(f["ps"])}
        out = set()

        def hit(e, line, what=None):
            for d in E.root(e):
                if d in E.owned:
                    continue
                if d == "this":
                    out.add("this")
                elif d in E.params:
                    ty = self.core.type(f["ps"][E.params[d]]["t"])
                    if ty.endswith("&") or ty.endswith("*") or "iterator" in ty:
                        out.add(E.params[d])
                elif isinstance(d, int):
                    out.add("global")
        E.hit = hit
        kind = f.get("kind")
        for s in f["body"]["a"] if f["body"].get("k") == "block" else [f["body"]]:
            E.lambda_statement(s)
        if any(x.get("k") == "v" and x.get("g") for x in walk(f["body"])):
            pass
        memo[f["id"]] = out
        return out


def noexcept_reach(core):
    """(function, path, throw node) for every own throw reachable from a function that is declared noexcept."""
    over = {}
    for f in core.fun.values():
        for o in f.get("over", []):
            over.setdefault(o, []).append(f["id"])

    def calls(n):
        """Callees outside try blocks that catch."""
        if isinstance(n, dict):
            if n.get("k") == "try":
                yield from calls(n.get("h") or n.get("handlers") or [])
                return
            if n.get("k") in ("call", "mcall", "op", "ctor", "fn") and isinstance(n.get("f"), int):
                yield n["f"]
                yield from over.get(n["f"], [])
            if n.get("k") == "lambda":
                yield from n.get("ops", [])
            for v in n.values():
                if isinstance(v, (dict, list)):
                    yield from calls(v)
        elif isinstance(n, list):
            for v in n:
                yield from calls(v)

    throws = {i: next((x for x in walk(f["body"]) if x.get("k") == "throw"), None) for i, f in core.fun.items()}
    callees = {i: {c for c in calls([f["body"], f.get("inits")]) if c in core.fun} for i, f in core.fun.items()}
    for i, f in core.fun.items():
        if not f.get("noexc") or f.get("impl") or f.get("defaulted"):
            continue
        seen, todo, bad = {i: None}, [i], None
        while todo and bad is None:
            g = todo.pop(0)
            if throws[g] is not None:
                bad = g
            for h in callees[g]:
                if h not in seen:
                    seen[h] = g
                    todo.append(h)
        path = []
        g = bad
        while g is not None:
            path.append(f"{core.fun[g]['n']} ({core.where(core.fun[g])})")
            g = seen[g]
        yield f, path[::-1], throws[bad] if bad is not None else None
