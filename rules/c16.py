"""C16: concurrent parts do not race.

region     code run by several OpenMP threads writes only memory of its own thread, its own slot of a shared
           array, or memory guarded by a critical section
guarded    what is written inside a critical section is accessed only inside critical sections of that name
atomic     a lookup and the update it decides stay in one critical section
locks      pthread locks: taken and released in pairs on every path, never taken twice, one order
lockset    every access to a global variable shared by threads holds one common lock"""
import re, sys
from facts import walk
from ir import cfg, Calls, fn_parents, evalorder, is_const, render
from c14 import NOTPROJECT, short

GROUPS = ["extractor", "training", "utils"]
sys.setrecursionlimit(20000)
TOP = 4
PTR = re.compile(r"\*|shared_ptr|unique_ptr|scoped_ptr|intrusive_ptr|iterator|reference_wrapper")
WRITERS = {"push_back", "emplace_back", "push_front", "emplace_front", "pop_back", "pop_front", "pop", "push", "insert", "emplace", "erase", "clear", "resize", "reserve", "assign", "swap", "append", "reset", "merge", "splice", "sort", "remove", "unique", "try_emplace", "insert_or_assign", "rehash", "setf", "str"}
REFS = {"front", "back", "at", "operator[]", "begin", "end", "rbegin", "rend", "cbegin", "cend", "find", "lower_bound", "upper_bound", "get", "operator*", "operator->", "data", "c_str", "equal_range", "top"}
MAPS = re.compile(r"(unordered_|multi)?map<|hash_map|dense_hash_map")
NONREENTRANT = {"rand", "srand", "random", "srandom", "drand48", "lrand48", "strtok", "localtime", "gmtime", "asctime", "ctime", "strerror_", "setlocale", "tmpnam", "readdir_"}
ALGO = {"sort": 2, "stable_sort": 2, "partial_sort": 3, "nth_element": 3, "reverse": 2, "unique": 2, "fill": 2, "random_shuffle": 2, "shuffle": 2, "swap": 2, "iota": 2, "make_heap": 2, "push_heap": 2, "pop_heap": 2, "rotate": 3, "remove": 2}
OUT = {"copy": 2, "transform": 2, "merge": 4, "set_union": 4, "set_intersection": 4, "memcpy": 0, "memset": 0, "memmove": 0, "fill_n": 0}


def strip(e):
    while e is not None and e["k"] in ("ICast", "Cast", "Paren", "CleanUps", "Temp") and e.get("c"):
        e = e["c"][0]
    return e


def plain(t):
    t = (t or "").strip()
    while t.endswith("&"):
        t = t[:-1].strip()
    return re.sub(r"^(const |volatile )+", "", t).strip()


def isref(t):
    return (t or "").rstrip().endswith("&")


def project(f):
    return f.body is not None and not f.file.startswith(NOTPROJECT)


class Region:
    """levels of sharing: 0 the memory itself is shared, 1 what it points to, ..., TOP nothing."""

    def __init__(self, db, ctx, calls, root, omp):
        self.db, self.ctx, self.calls, self.root, self.omp = db, ctx, calls, root, omp
        self.memo, self.busy, self.reached = {}, set(), {}
        self.access = []        # (field, write, critical name or None, fn, node, kind)
        self.viol = []
        self.level_memo = {}

    # ---- one function in one context
    def run(self, fn, this, params, crit, body=None, env0=None, chain=(), loopvars=()):
        key = (fn.key, this, tuple(params), crit, tuple(loopvars))
        if body is None and key in self.memo:
            return self.memo[key]
        if key in self.busy or len(self.busy) > 60:
            return TOP
        self.busy.add(key)
        env = dict(env0 or {})
        for p, l in zip(fn.params, params):
            if "d" in p:
                env[p["d"]] = l
        F = Frame(self, fn, this, env, crit, body, chain, set(loopvars))
        r = F.go()
        self.busy.discard(key)
        if body is None:
            self.memo[key] = r
        return r


class Frame:
    def __init__(self, reg, fn, this, env, crit, body, chain, loopvars):
        self.reg, self.fn, self.this, self.env, self.crit0, self.chain = reg, fn, this, env, crit, chain
        self.body = body if body is not None else fn.body
        self.nodes = list(walk(self.body))
        self.types = {}
        self.loopvars = {d for d in loopvars if d not in self.assigned()}
        self.crits = {}
        self.ret = TOP
        self.seenret = False

    def assigned(self):
        r = set()
        for n in self.nodes:
            if n["k"] == "Bin" and n["op"] == "=" or n["k"] == "CAssign" or n["k"] == "Un" and n["op"] in ("++", "--", "&"):
                e = strip(n["c"][0])
                if e is not None and e["k"] == "Ref":
                    r.add(e.get("d"))
        # the step of the parallel loop itself is not an assignment inside an iteration
        return r - ({self.reg.omp.get("loopvar")} if self.body is self.reg.omp.get("body") else set())

    def go(self):
        for n in self.nodes:
            if n["k"] == "Var" and "d" in n:
                self.types[n["d"]] = n.get("t") or ""
            if n["k"] == "ForRange" and n.get("var"):
                self.types[n["var"].get("d")] = n["var"].get("t") or ""
        for p in self.fn.params:
            if "d" in p:
                self.types.setdefault(p["d"], p["t"])
        self.declared = {n["d"] for n in self.nodes if n["k"] == "Var" and "d" in n} | {n["var"]["d"] for n in self.nodes if n["k"] == "ForRange" and n.get("var") and "d" in n["var"]}
        self._mark(self.body, self.crit0)
        for _ in range(4):
            before = dict(self.env)
            for n in self.nodes:
                self.flow(n)
            if before == self.env:
                break
        for n in self.nodes:
            self.check(n)
        for n in self.nodes:
            if n["k"] == "Return" and n.get("c") and n["c"][0] is not None:
                l = self.lvl(n["c"][0])
                if not (isref(self.fn.h.get("ret"))):
                    l = max(1, l)
                self.ret = min(self.ret, self.cut(l, self.fn.h.get("ret")))
        return self.ret

    def _mark(self, n, name):
        if n is None:
            return
        if n["k"] == "OMP" and n.get("dir") == "critical":
            name = n.get("n") or "(unnamed)"
        self.crits[n["i"]] = name
        for c in n.get("c") or []:
            if c is not None:
                self._mark(c, name)

    def cut(self, l, t):
        """values without pointers inside cannot reach anything shared."""
        if l == 0:
            return 0
        return l if haspointers(self.reg.db, plain(t)) else TOP

    # ---- sharing level of an expression
    def lvl(self, e, depth=0):
        e = strip(e)
        if e is None or depth > 40:
            return TOP
        k = e["k"]
        c = e.get("c") or []
        if k in ("Sub", "OCall") and self.loopvars and self.slot(e):
            return self.cut(1, e.get("t"))
        if k == "This":
            return 1 if self.this == 0 else min(TOP, self.this + 1)
        if k == "Ref":
            dk = e.get("dk")
            if dk in ("local", "param"):
                return self.env.get(e.get("d"), TOP)
            if dk in ("global", "slocal"):
                return 0
            return TOP
        if k == "Mem":
            b = self.lvl(c[0], depth + 1) if c else TOP
            return max(0, b - 1) if e.get("a") and b < TOP else b
        if k == "Un":
            b = self.lvl(c[0], depth + 1)
            if e["op"] == "*":
                return max(0, b - 1) if b < TOP else TOP
            if e["op"] == "&":
                return min(TOP, b + 1)
            return b if e["op"] in ("++", "--") else TOP
        if k == "Sub":
            b = self.lvl(c[0], depth + 1)
            arr = strip(c[0]).get("t", "").rstrip().endswith("]")
            return b if arr else (max(0, b - 1) if b < TOP else TOP)
        if k == "Cond":
            return min(self.lvl(c[1], depth + 1), self.lvl(c[2], depth + 1))
        if k == "Bin" and e["op"] in ("+", "-", ",", "="):
            return min([self.cut(self.lvl(x, depth + 1), x.get("t")) for x in c if x is not None] or [TOP]) if "*" in (e.get("t") or "") or e["op"] in (",", "=") else TOP
        if k == "OCall":
            op = e["op"]
            if op in ("*", "->") and len(c) == 1 and PTR.search(plain(c[0].get("t"))):
                b = self.lvl(c[0], depth + 1)
                return max(0, b - 1) if b < TOP and op == "*" else b
            if op == "[]":
                return self.lvl(c[0], depth + 1)
            if op in ("=", "+=", "<<", ">>", "++", "--") and c:
                return self.lvl(c[0], depth + 1)
            return self.call(e, None, c, depth)
        if k == "MCall":
            s = short(e)
            obj = c[0] if c else None
            b = self.lvl(obj, depth + 1) if obj is not None else TOP
            if obj is not None and "*" in (strip(obj).get("t") or "") and strip(obj)["k"] != "Ref_":
                b = max(0, b - 1) if b < TOP else TOP
            ts = [t for t in self.reg.calls.targets(e) if project(t)]
            if not ts:
                if s in ("begin", "end", "rbegin", "rend", "cbegin", "cend", "find", "lower_bound", "upper_bound", "equal_range", "data", "c_str"):
                    return min(TOP, b + 1)
                if s == "get" and PTR.search(plain(obj.get("t") if obj is not None else "")):
                    return b
                if s in ("front", "back", "at", "top", "str", "stream", "native", "get", "second", "first"):
                    return b if isref(rett(e)) else self.cut(max(1, b), e.get("t"))
                return self.cut(max(1, b), e.get("t"))
            return self.call(e, obj, c[1:], depth)
        if k == "Call":
            return self.call(e, None, c, depth)
        if k in ("Ctor", "Init", "InitList", "New", "MakeTemp", "Temp"):
            ls = [self.arglvl(a, depth) for a in c if a is not None]
            m = min(ls or [TOP])
            if k == "New":
                m = min(TOP, m + 1)
            return self.cut(max(1, m), e.get("t"))
        if k == "Lambda":
            return TOP
        return TOP

    def arglvl(self, a, depth=0):
        """what a callee that stores the argument could reach through it."""
        l = self.lvl(a, depth + 1)
        return self.cut(max(1, l), strip(a).get("t"))

    def call(self, e, obj, args, depth):
        ts = [t for t in self.reg.calls.targets(e) if project(t)]
        s = short(e)
        if not ts:
            m = min([self.arglvl(a, depth) for a in args if a is not None] or [TOP])
            if s in ("make_shared", "make_unique"):
                return min(TOP, m + 1)
            if s in ("move", "forward", "ref", "cref"):
                return self.lvl(args[0], depth + 1)
            return self.cut(m, e.get("t"))
        if self.reg.level_memo.get("off"):
            return TOP
        r = TOP
        for t in ts:
            r = min(r, self.enter(e, t, obj, args))
        return r

    def enter(self, e, t, obj, args):
        this = TOP
        if t.h.get("ctor"):
            this = TOP
        elif obj is not None:
            b = self.lvl(obj)
            if "*" in (strip(obj).get("t") or ""):
                b = max(0, b - 1) if b < TOP else TOP
            elif strip(obj)["k"] == "OCall" and strip(obj)["op"] == "->":
                b = max(0, self.lvl(strip(obj)["c"][0]) - 1) if self.lvl(strip(obj)["c"][0]) < TOP else TOP
            this = b
        elif e["k"] == "OCall" and t.cls and len(t.params) == len(args) - 1:
            this, args = self.lvl(args[0]), args[1:]
        ps = []
        for p, a in zip(t.params, args):
            if a is None:
                ps.append(TOP)
                continue
            l = self.lvl(a)
            ps.append(l if isref(p["t"]) else self.cut(max(1, l), p["t"]))
        ps += [TOP] * (len(t.params) - len(ps))
        crit = self.crits.get(e["i"])
        self.reg.reached[t.key] = t
        lv = []
        for p, a in zip(t.params, args):
            x = strip(a) if a is not None else None
            if x is not None and x["k"] == "Ref" and x.get("d") in self.loopvars and "d" in p and not (isref(p["t"]) and not p["t"].startswith("const ")):
                lv.append(p["d"])
            if isref(p["t"]) and not p["t"].startswith("const ") and x is not None and self.slot(x):
                self.use(self.slot(x), e)
        return self.reg.run(t, this, ps, crit, loopvars=tuple(lv), chain=self.chain + ("%s calls %s" % (self.fn.loc(e), t.name),))

    def flow(self, n):
        k = n["k"]
        c = n.get("c") or []
        if k == "Var" and "d" in n and c and c[0] is not None:
            if n.get("static"):
                self.env[n["d"]] = 0
                return
            l = self.lvl(c[0])
            if isref(n.get("t")) and not (n.get("t") or "").startswith("const ") and self.slot(strip(c[0])):
                self.use(self.slot(strip(c[0])), n)
            if not isref(n.get("t")):
                l = self.cut(max(1, l), n.get("t"))
            self.put(n["d"], l)
        elif k == "ForRange" and n.get("var") and "d" in n["var"]:
            l = self.lvl(c[0])
            if not isref(n["var"].get("t")):
                l = self.cut(max(1, l), n["var"].get("t"))
            self.put(n["var"]["d"], l)
        elif k == "Bin" and n["op"] == "=" or k == "OCall" and n["op"] == "=" and len(c) == 2:
            self.store(c[0], self.cut(max(1, self.lvl(c[1])), strip(c[1]).get("t")))
        elif k == "MCall" and short(n) in WRITERS and c:
            for a in c[1:]:
                if a is not None:
                    self.store(c[0], self.arglvl(a))

    def store(self, target, l):
        e = strip(target)
        while e is not None and e["k"] in ("Mem", "Sub", "OCall", "MCall") and e.get("c"):
            e = strip(e["c"][0])
        if e is not None and e["k"] == "Ref" and e.get("dk") == "local" and e.get("d") in self.declared:
            self.put(e["d"], l)

    def put(self, d, l):
        if l < self.env.get(d, TOP):
            self.env[d] = l

    # ---- writes
    def check(self, n):
        k = n["k"]
        c = n.get("c") or []
        crit = self.crits.get(n["i"])
        if k == "Bin" and n["op"] == "=" or k == "CAssign":
            self.write(n, c[0], crit, rhs=c[1])
        elif k == "Un" and n["op"] in ("++", "--"):
            self.write(n, c[0], crit)
        elif k == "OCall" and c:
            ts = [t for t in self.reg.calls.targets(n) if project(t)]
            if n["op"] in ("=", "+=", "-=", "*=", "/=", "|=", "&=", "^=", "++", "--") and not ts:
                self.write(n, c[0], crit)
            elif n["op"] == "[]" and MAPS.search(plain(c[0].get("t"))) and not (strip(c[0]).get("t") or "").startswith("const "):
                self.write(n, c[0], crit, how="may insert into")
            elif n["op"] in ("<<", ">>") and strip(c[0])["k"] == "Ref" and strip(c[0]).get("n") == "cout" and crit is None:
                self.bad("region", n, "writes to the standard output outside a critical section", "cout")
            for t in ts:
                self.enter(n, t, None, c)
        elif k == "MCall" and c:
            ts = [t for t in self.reg.calls.targets(n) if project(t)]
            if not ts and short(n) in WRITERS and not n.get("const"):
                o = c[0]
                if "*" in (strip(o).get("t") or ""):
                    l = self.lvl(o)
                    l = max(0, l - 1) if l < TOP else TOP
                    self.write(n, o, crit, lv=l)
                elif not (short(n) in ("reset", "swap") and False):
                    self.write(n, o, crit)
            for t in ts:
                self.enter(n, t, c[0], c[1:])
        elif k == "Call":
            s = short(n)
            ts = [t for t in self.reg.calls.targets(n) if project(t)]
            for t in ts:
                self.enter(n, t, None, c)
            if not ts and s in NONREENTRANT:
                self.bad("region", n, "calls %s, which keeps its state between calls of all threads" % s, s)
            if not ts and s in ALGO and c and c[0] is not None:
                l = self.lvl(c[0])
                if s == "swap":
                    for a in c[:2]:
                        self.write(n, a, crit)
                elif l <= 1:
                    self.write(n, c[0], crit, lv=0)
            if not ts and s in OUT and len(c) > OUT[s] and c[OUT[s]] is not None and self.lvl(c[OUT[s]]) <= 1:
                self.write(n, c[OUT[s]], crit, lv=0)
        elif k in ("Ctor",):
            for t in [t for t in self.reg.calls.targets(n) if project(t)]:
                self.enter(n, t, None, c)
        if k in ("Mem",) and c and strip(c[0]) is not None and strip(c[0])["k"] == "This" and self.this == 0:
            self.reg.access.append((n.get("f"), False, crit, self.fn, n))

    def write(self, n, target, crit, rhs=None, how="writes", lv=None):
        sl = self.slot(strip(target))
        l = self.lvl(target) if lv is None else lv
        self.reg.ctx.ob()
        self.reg.ctx.count("writes_in_parallel_code")
        if sl:
            self.use(sl, n)
            return
        if l != 0:
            return
        t = strip(target)
        f = field_of(t)
        if f:
            self.reg.access.append((f, True, crit, self.fn, n))
        if crit is not None:
            self.reg.ctx.count("writes_in_critical_sections")
            return
        if rhs is not None and (is_const(strip(rhs)) is not None or short(strip(rhs)) in ("omp_get_num_threads", "omp_get_max_threads")) and self.reg.omp.get("dir") == "parallel":
            return      # every thread stores the same value
        self.bad("region", n, "%s %s, which all threads share, outside a critical section" % (how, render(t)), f or render(t))

    def use(self, sl, n):
        """an iteration writes its own element: nobody reads another iteration's."""
        self.reg.ctx.count("per_iteration_elements")
        for v in self.nodes:
            if (v["k"] == "Sub" or v["k"] == "OCall" and v["op"] == "[]") and len(v["c"]) == 2:
                b, i = strip(v["c"][0]), strip(v["c"][1])
                if b is not None and b["k"] == "Ref" and b.get("d") == sl[1] and not (i is not None and i["k"] == "Ref" and i.get("d") in self.loopvars):
                    self.bad("region", v, "uses another iteration's element of %s, which iterations write" % b["n"], "slot|%s" % b["n"])

    def slot(self, t):
        """element of a captured array at the index of the parallel loop."""
        if not self.loopvars or t is None:
            return None
        while t is not None and t["k"] == "Mem" and not t.get("a"):
            t = strip(t["c"][0])
        if t is not None and (t["k"] == "Sub" or t["k"] == "OCall" and t["op"] == "[]") and len(t["c"]) == 2 and not MAPS.search(plain(t["c"][0].get("t"))):
            i, b = strip(t["c"][1]), strip(t["c"][0])
            if i is not None and i["k"] == "Ref" and i.get("d") in self.loopvars and b is not None and b["k"] == "Ref" and "bool" not in plain(b.get("t")) and b.get("dk") in ("local", "param") and self.env.get(b.get("d"), TOP) == 0:
                return (self.fn.key, b.get("d"))
        return None

    def bad(self, rule, n, what, key):
        self.reg.viol.append((rule, self.fn, n, "%s %s" % (self.fn.name, what), "%s|%s" % (self.fn.name, key), list(self.chain)))


def rett(e):
    return e.get("rt") or e.get("t") or ""


def field_of(t):
    while t is not None:
        if t["k"] == "Mem":
            if t.get("c") and strip(t["c"][0]) is not None and strip(t["c"][0])["k"] == "This":
                return t.get("f")
            t = strip(t["c"][0]) if t.get("c") else None
        elif t["k"] in ("Sub", "OCall") and t.get("c"):
            t = strip(t["c"][0])
        elif t["k"] == "Un" and t["op"] == "*":
            t = strip(t["c"][0])
        else:
            return None
    return None


_hp = {}


def haspointers(db, t, depth=0):
    t = plain(t)
    if t in _hp:
        return _hp[t]
    _hp[t] = False
    r = False
    if PTR.search(t):
        r = True
    elif depth < 6:
        for w in set(re.findall(r"[A-Za-z_][\w:]*", t)):
            rec = db.recs.get(w) or db.recs.get("extractor::" + w)
            if rec and not w.startswith("std::"):
                if any(haspointers(db, f["t"], depth + 1) for f in rec.get("fields", [])) or any(haspointers(db, b.get("n") or "" if isinstance(b, dict) else b, depth + 1) for b in rec.get("bases", [])):
                    r = True
        rec = db.recs.get(t)
        if rec and not t.startswith("std::"):
            if any(haspointers(db, f["t"], depth + 1) for f in rec.get("fields", [])):
                r = True
    if re.fullmatch(r"(class |struct )?[\w:]+", t) and not t.startswith("std::") and t not in db.recs and re.search(r"[A-Z]", t):
        r = True
    _hp[t] = r
    return r


def openmp(db, ctx, calls):
    n = 0
    for f in [f for f in db.fns.values() if project(f)]:
        for o in f.nodes():
            if o["k"] != "OMP" or not o["dir"].startswith("parallel"):
                continue
            n += 1
            ctx.count("parallel_regions")
            body = o["c"][0]
            info = {"dir": o["dir"], "loopvar": None, "body": body}
            if body["k"] == "For" and "for" in o["dir"]:
                for v in walk(body["c"][0] or {"k": "x", "i": -1}):
                    if v["k"] == "Var":
                        info["loopvar"] = v.get("d")
            inside = {v["d"] for v in walk(body) if v["k"] == "Var" and "d" in v} | {v["var"]["d"] for v in walk(body) if v["k"] == "ForRange" and v.get("var") and "d" in v["var"]}
            private = set()
            for cl in o.get("cl", []):
                if cl["k"] in ("private", "firstprivate", "lastprivate", "reduction", "linear"):
                    private |= {x.get("d") for y in cl["c"] for x in walk(y) if x["k"] == "Ref"}
            env0 = {}
            for v in walk(body):
                if v["k"] == "Ref" and v.get("dk") in ("local", "param") and v.get("d") not in inside and v.get("d") not in private:
                    env0[v["d"]] = 0
            reg = Region(db, ctx, calls, f, info)
            reg.run(f, 0 if f.cls else TOP, [TOP] * 0, None, body=body, env0=env0, loopvars=[info["loopvar"]] if info["loopvar"] else [])
            ctx.count("functions_run_in_parallel", len(reg.reached))
            for rule, g, nd, what, key, ch in reg.viol:
                ctx.violate(rule, g.loc(nd), what, key, ch)
            # one critical section per piece of state
            names = {}
            for fld, w, crit, g, nd in reg.access:
                if crit is not None and w:
                    names.setdefault(fld, set()).add(crit)
            for fld, ns in sorted(names.items()):
                ctx.ob()
                ctx.count("members_guarded_by_critical_sections")
                for f2, w, crit, g, nd in reg.access:
                    if f2 == fld and (crit not in ns or len(ns) > 1):
                        ctx.violate("guarded", g.loc(nd), "%s accesses %s outside the critical section (%s) that guards its changes" % (g.name, fld, ", ".join(sorted(ns))), "%s|%s" % (g.name, fld))
            for g in reg.reached.values():
                atomic(ctx, g)
    ctx.floor("parallel_regions", n, 3)


LOOK = {"find", "count", "at", "lower_bound", "contains", "size", "empty"}


def atomic(ctx, g):
    secs = [o for o in g.nodes() if o["k"] == "OMP" and o["dir"] == "critical"]
    info = []
    for o in secs:
        lk, wr = set(), {}
        for n in walk(o):
            if n["k"] == "MCall" and n.get("c"):
                f = field_of(strip(n["c"][0]))
                if f and short(n) in ("find", "count", "lower_bound", "contains"):
                    lk.add(f)
                elif f and short(n) in WRITERS:
                    wr[f] = n
            if n["k"] == "OCall" and n["op"] == "[]":
                f = field_of(strip(n["c"][0]))
                if f and MAPS.search(plain(n["c"][0].get("t"))):
                    wr[f] = n
        info.append((o, lk, wr))
    for i, (o, lk, wr) in enumerate(info):
        for o2, lk2, wr2 in info[i + 1:]:
            ctx.ob()
            for f in sorted(lk & set(wr2) - lk2):
                ctx.violate("atomic", g.loc(wr2[f]), "%s looks up %s in one critical section and changes it in another without looking again: another thread may have changed it between" % (g.name, f), "%s|%s" % (g.name, f))


# ---------------------------------------------------------------- pthread locks
def lockname(a):
    a = strip(a)
    if a is not None and a["k"] == "Un" and a["op"] == "&":
        a = strip(a["c"][0])
    return render(a) if a is not None else None


LOCKS = {"pthread_mutex_lock": 1, "pthread_mutex_unlock": -1}


class Locks:
    def __init__(self, db, ctx, calls, fns, roots):
        self.db, self.ctx, self.calls, self.fns, self.roots = db, ctx, calls, fns, roots
        self.acq = {}
        self.order = {}
        self.done = {}
        self.access = {}
        self.pub = None

    def acquires(self, f, busy=()):
        """locks a call of f may take."""
        if f.key in self.acq:
            return self.acq[f.key]
        if f.key in busy:
            return set()
        r = set()
        for n in f.nodes():
            if n["k"] == "Call" and short(n) == "pthread_mutex_lock":
                r.add(lockname(n["c"][0]))
            elif n["k"] in ("Call", "MCall"):
                for t in self.calls.targets(n):
                    if t.body is not None:
                        r |= self.acquires(t, busy + (f.key,))
        self.acq[f.key] = r
        return r

    def run(self, f, held, thread, chain=()):
        key = (f.key, held, thread)
        if key in self.done:
            return
        self.done[key] = True
        g = cfg(f)
        ctx = self.ctx
        bad = ctx.violate
        out = {}

        def step(n, st, emit):
            if n["k"] == "Call":
                s = short(n)
                if s in LOCKS:
                    m = lockname(n["c"][0])
                    if s.endswith("_lock"):
                        if emit:
                            ctx.ob()
                            if m in st:
                                bad("locks", f.loc(n), "%s takes %s, which it already holds" % (f.name, m), "%s|%s|twice" % (f.name, m), list(chain))
                            for h in st:
                                self.order.setdefault((h, m), (f, n))
                        return st | {m}
                    if emit:
                        ctx.ob()
                        if m not in st:
                            bad("locks", f.loc(n), "%s releases %s, which is not held on every path to here" % (f.name, m), "%s|%s|unheld" % (f.name, m), list(chain))
                    return st - {m}
                if s == "pthread_create" and emit:
                    out["created"] = True
                for t in self.calls.targets(n):
                    if t.body is None or t.key not in self.fns:
                        continue
                    if emit:
                        for m in sorted(self.acquires(t)):
                            ctx.ob()
                            if m in st:
                                bad("locks", f.loc(n), "%s calls %s, which takes %s, while holding it" % (f.name, t.name, m), "%s|%s|%s" % (f.name, t.name, m), list(chain))
                            for h in st:
                                if h != m:
                                    self.order.setdefault((h, m), (f, n))
                        self.run(t, frozenset(st), thread, chain + ("%s calls %s" % (f.loc(n), t.name),))
            return st

        def tr(nd, st):
            if nd.ast is not None:
                for n in evalorder(nd.ast):
                    st = step(n, st, False)
            return frozenset(st)
        must = g.forward(frozenset(held), tr, lambda a, b: a & b)
        may = g.forward(frozenset(held), tr, lambda a, b: a | b)
        par = fn_parents(f)
        for nd in g.nodes:
            if nd.id not in must:
                continue
            st = must[nd.id]
            if nd.ast is None:
                continue
            for n in evalorder(nd.ast):
                self.touch(f, n, st, thread, par, chain)
                st = frozenset(step(n, st, True))
        for ex in [g.exit]:
            if ex.id in may:
                ctx.ob()
                left = may[ex.id] - frozenset(held)
                lost = frozenset(held) - must.get(ex.id, frozenset(held))
                for m in sorted(left):
                    where = next((f.loc(n) for n in f.nodes() if n["k"] == "Return" and g.owner.get(n["i"]) is not None and m in may.get(g.owner[n["i"]].id, ())), f.loc())
                    bad("locks", where, "%s can return while still holding %s" % (f.name, m), "%s|%s|kept" % (f.name, m), list(chain))
                for m in sorted(lost):
                    bad("locks", f.loc(), "%s returns without %s, which its caller holds" % (f.name, m), "%s|%s|lost" % (f.name, m), list(chain))
        # ending the thread while holding a lock blocks all others
        for n in f.nodes():
            if n["k"] == "Call" and short(n) == "pthread_exit":
                nd = g.owner.get(n["i"])
                if nd is not None:
                    ctx.ob()
                    for m in sorted(may.get(nd.id, ())):
                        bad("locks", f.loc(n), "%s ends the thread while holding %s" % (f.name, m), "%s|%s|exit" % (f.name, m), list(chain))

    def touch(self, f, n, st, thread, par, chain):
        name = None
        if n["k"] == "Ref" and n.get("dk") in ("global", "slocal") and "v" not in n and not (n.get("t") or "").startswith("const "):
            name = n["n"]
        elif n["k"] == "Mem" and (n.get("f") or "").startswith(tuple(x + "::" for x in self.shared_recs)):
            name = n["f"]
        if name is None or "mutex" in (n.get("t") or "") or "_IO_FILE" in (n.get("t") or "") or "FILE" in (n.get("t") or ""):
            return
        q = par.get(n["i"])
        while q is not None and q["k"] in ("ICast", "Cast", "Paren"):
            q = par.get(q["i"])
        w = q is not None and (q["k"] == "Bin" and q["op"] == "=" and strip(q["c"][0]) is n or q["k"] == "CAssign" and strip(q["c"][0]) is n or q["k"] == "Un" and q["op"] in ("++", "--"))
        self.access.setdefault(name, []).append((w, frozenset(st), f, n, thread, chain))


def pthreads(db, ctx, calls):
    roots = []
    for f in [f for f in db.fns.values() if project(f)]:
        for n in f.nodes():
            if n["k"] == "Call" and short(n) == "pthread_create" and len(n["c"]) >= 3:
                a = strip(n["c"][2])
                if a is not None and a["k"] == "Un" and a["op"] == "&":
                    a = strip(a["c"][0])
                if a is not None and a["k"] == "Ref":
                    for t in db.fns.values():
                        if t.name == a["n"] and t.file == f.file and t.body is not None:
                            roots.append((f, n, t))
    ctx.floor("threads_created", len(roots), 1)
    for file in sorted({t.file for _, _, t in roots}):
        rs = [(f, n, t) for f, n, t in roots if t.file == file]
        reach = calls.reach([t for _, _, t in rs])
        fns = {k for k in reach if db.fns[k].body is not None and db.fns[k].file == file}
        ctx.count("functions_run_by_threads", len(fns))
        L = Locks(db, ctx, calls, fns, rs)
        L.shared_recs = sorted({r["name"] for r in db.reclist if r.get("file") == file or any(v.get("t", "").rstrip("*& ").split()[-1:] == [r["name"]] for v in db.vars.values() if v.get("file") == file)}) if hasattr(db, "vars") else []
        L.shared_recs = [r for r in L.shared_recs if r not in {x for f, n, t in rs for x in argrecs(f, n)}]
        for _, _, t in rs:
            L.run(t, frozenset(), True)
        # the creating thread, from the creation on
        for f, n, t in rs:
            after(db, L, f, n)
        for (a, b), (f, n) in sorted(L.order.items(), key=lambda x: x[0]):
            ctx.ob()
            if (b, a) in L.order and a < b:
                f2, n2 = L.order[(b, a)]
                ctx.violate("locks", f.loc(n), "%s takes %s while holding %s, %s the other way round (%s): deadlock" % (f.name, b, a, f2.name, f2.loc(n2)), "%s|%s|order" % (a, b))
        for name, acc in sorted(L.access.items()):
            ws = [a for a in acc if a[0]]
            if not ws:
                continue
            ctx.ob()
            ctx.count("shared_variables")
            if "::" in name:        # fields: every change is made under the lock of the others
                use = [a for a in acc if a[0]]
            else:
                use = acc
            common = frozenset.intersection(*[a[1] for a in use])
            if common:
                ctx.sample("%s: %d accesses, all under %s" % (name, len(use), ", ".join(sorted(common))), 20)
                continue
            best = max(sorted({m for a in use for m in a[1]}) or [None], key=lambda m: sum(m in a[1] for a in use))
            for a in use:
                if best is None or best not in a[1]:
                    ctx.violate("lockset", a[2].loc(a[3]), "%s %s %s without holding %s, which guards it elsewhere" % (a[2].name, "changes" if a[0] else "reads", name, best or "any lock"), "%s|%s" % (a[2].name, name), list(a[5]))


def argrecs(f, n):
    a = strip(n["c"][3]) if len(n["c"]) > 3 else None
    return [plain(a.get("t")).rstrip("* ").split()[-1]] if a is not None and a.get("t") else []


def after(db, L, f, n):
    g = cfg(f)
    nd = g.owner.get(n["i"])
    if nd is None:
        return
    seen, todo = set(), list(nd.succ)
    par = fn_parents(f)
    while todo:
        x = todo.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        todo += x.succ
        if x.ast is not None:
            for m in evalorder(x.ast):
                if m["k"] == "Ref" and m.get("dk") == "global" and m["n"] in L.access:
                    L.touch(f, m, frozenset(), False, par, ())


def run(db, ctx):
    ctx.rule("region", "inside an OpenMP parallel region and everything it calls (context-sensitive in which memory is shared), no assignment, container change, algorithm or non-reentrant library call acts on shared memory, except on the element of an array at the parallel loop's index or inside a critical section; no thread reads another iteration's element of an array that iterations write")
    ctx.rule("guarded", "a member changed inside a critical section is accessed in parallel code only inside critical sections of the same name")
    ctx.rule("atomic", "a member looked up in one critical section and changed in a later one of the same function is looked up again there")
    ctx.rule("locks", "on every path through thread code a pthread mutex is released only while held, never taken while held (also through calls), not held at return or thread end, and mutexes are taken in one order")
    ctx.rule("lockset", "all accesses thread code makes to a global variable it changes hold one common mutex; so do all changes of fields of the records shared between threads")
    ctx.assume.append("library objects follow the standard's rule that const access may be concurrent; cerr and stderr may interleave; the threads of the training programs' external job distribution are processes")
    calls = Calls(db)
    openmp(db, ctx, calls)
    pthreads(db, ctx, calls)
