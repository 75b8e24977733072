"""C14: caches return what would be computed afresh, and per-sentence tables are rebuilt for every sentence.

once     a static local is not initialised from what differs between calls
memo     a value stored in a cache on a miss depends only on what the cache's key determines, and nothing but
         the cache is written on a miss
pointer  a feature function's cache keyed by addresses, or holding values that depend on the sentence, is
         emptied on every path of PrepareForInput
rebuilt  a table filled by PrepareForInput is emptied or overwritten first, on every path"""
import os, re, sys
from facts import walk
from ir import uncast, render, is_const, cfg, walk_nl, path, Calls, fn_parents

GROUPS = ["decoder", "training", "utils", "mteval", "word-aligner", "extractor"]
sys.setrecursionlimit(20000)

CONTAINER = re.compile(r"\b(unordered_)?(multi)?map<|dense_hash_map|sparse_hash_map|std::vector<|Array2D<|SparseVector|FastSparseVector|HASH_MAP|SmallVector|\[\d*\]")
ASSOC = re.compile(r"\b(unordered_)?map<|dense_hash_map|sparse_hash_map|HASH_MAP")
NOTPROJECT = ("klm/", "utils/small_vector.h", "utils/fast_sparse_vector.h", "utils/value_array.h", "utils/array2d.h", "utils/sparse_vector.h", "utils/hash.h", "utils/murmur_hash.h")


def short(n):
    return (n.get("fn") or "").split("::")[-1].split("<")[0]


def strip(e):
    e = uncast(e)
    while e is not None and e["k"] in ("Cast", "ICast", "Paren", "Temp") and e.get("c"):
        e = uncast(e["c"][0])
    return e


def chain(e):
    """(root expression, [key expressions]) of a container access chain."""
    keys = []
    e = strip(e)
    while e is not None:
        k = e["k"]
        if k == "OCall" and e["op"] in ("[]", "()") and len(e["c"]) >= 2:
            keys = list(e["c"][1:]) + keys
            e = strip(e["c"][0])
        elif k == "Sub":
            keys = [e["c"][1]] + keys
            e = strip(e["c"][0])
        elif k == "MCall" and short(e) in ("at",):
            keys = list(e["c"][1:]) + keys
            e = strip(e["c"][0])
        elif k == "OCall" and e["op"] in ("*", "->") and len(e["c"]) == 1:
            e = strip(e["c"][0])
        elif k == "Un" and e["op"] == "*":
            e = strip(e["c"][0])
        else:
            break
    return e, keys


def persistent(e):
    """field / static / global container that outlives the call; returns its name."""
    e = strip(e)
    if e is None:
        return None
    if e["k"] == "Mem":
        b = strip(e["c"][0]) if e.get("c") else None
        if b is None or b["k"] == "This":
            return e.get("f") or ("this." + e["n"])
        while b is not None and b["k"] == "Mem":
            nb = strip(b["c"][0]) if b.get("c") else None
            if nb is None or nb["k"] == "This":
                return (e.get("f") or e["n"])
            b = nb
        return None
    if e["k"] == "Ref" and e.get("dk") in ("global", "slocal"):
        return "::" + str(e.get("q", e["n"]))
    return None


class Site:
    def __init__(self, fn, cont, keys, node, block, values, other):
        self.fn, self.cont, self.keys, self.node, self.block, self.values, self.other = fn, cont, keys, node, block, values, other


def falsy(c, var):
    """condition that holds when the cached reference still has no value."""
    c = strip(c)
    if c is None:
        return False
    if c["k"] == "Un" and c["op"] == "!":
        b = strip(c["c"][0])
        return isvar(b, var)
    if c["k"] == "Bin" and c["op"] in ("==", "<=", "<"):
        a, b = strip(c["c"][0]), strip(c["c"][1])
        return isvar(a, var) and is_const(b) is not None
    if c["k"] == "MCall" and short(c) in ("empty",):
        return isvar(strip(c["c"][0]), var)
    return False


def isvar(e, d):
    while e is not None and e["k"] == "Mem" and e.get("c"):
        e = strip(e["c"][0])
    if e is not None and e["k"] == "OCall" and e["op"] in ("*", "->") and len(e["c"]) == 1:
        e = strip(e["c"][0])
    return e is not None and e["k"] == "Ref" and e.get("d") == d


def find_sites(fn):
    out = []
    refs, iters = {}, {}
    for n in fn.nodes():
        if n["k"] == "Var" and n.get("c") and n["c"][0] is not None:
            t = n.get("t") or ""
            r, keys = chain(n["c"][0])
            init = strip(n["c"][0])
            if t.endswith("&") and not t.startswith("const") and keys:
                p = persistent(r)
                if p and CONTAINER.search(r.get("t") or ""):
                    refs[n["d"]] = (p, keys, n)
            while init is not None and init["k"] == "Ctor" and len([x for x in init.get("c") or [] if x is not None]) == 1:
                init = strip(init["c"][0])
            if "iterator" in t and init is not None and init["k"] == "MCall" and short(init) == "find" and len(init["c"]) == 2:
                r, keys = chain(init["c"][0])
                p = persistent(r)
                if p and ASSOC.search(strip(init["c"][0]).get("t") or ""):
                    iters[n["d"]] = (p, keys + [init["c"][1]], n)
    for n in fn.nodes():
        if n["k"] != "If":
            continue
        cond, then, els = n["c"][2], n["c"][3], n["c"][4]
        c = strip(cond)
        for d, (p, keys, v) in refs.items():
            if falsy(c, d):
                vals = stores_ref(then, d)
                if vals:
                    out.append(Site(fn, p, keys, v, then, vals, els))
        miss = None
        hit = None
        if c is not None and c["k"] in ("OCall", "Bin") and c.get("op") in ("==", "!="):
            a, b = strip(c["c"][0]), strip(c["c"][1])
            for x, y in ((a, b), (b, a)):
                while y is not None and y["k"] == "Ctor" and len(y.get("c") or []) == 1:
                    y = strip(y["c"][0])
                while x is not None and x["k"] == "Ctor" and len(x.get("c") or []) == 1:
                    x = strip(x["c"][0])
                if y is None or y["k"] != "MCall" or short(y) not in ("end", "cend"):
                    continue
                if x is not None and x["k"] == "Ref" and x.get("d") in iters:
                    hit = iters[x["d"]]
                elif x is not None and x["k"] == "MCall" and short(x) == "find":
                    r, keys = chain(x["c"][0])
                    p = persistent(r)
                    if p and ASSOC.search(strip(x["c"][0]).get("t") or ""):
                        hit = (p, keys + [x["c"][1]], x)
            if hit:
                miss = then if c["op"] == "==" else els
        elif c is not None:
            neg, cc = False, c
            if cc["k"] == "Un" and cc["op"] == "!":
                neg, cc = True, strip(cc["c"][0])
            elif cc["k"] == "Bin" and cc["op"] == "==" and is_const(strip(cc["c"][1])) == 0:
                neg, cc = True, strip(cc["c"][0])
            if cc is not None and cc["k"] == "MCall" and short(cc) == "count" and len(cc["c"]) == 2:
                r, keys = chain(cc["c"][0])
                p = persistent(r)
                if p and ASSOC.search(strip(cc["c"][0]).get("t") or ""):
                    hit = (p, keys + [cc["c"][1]], cc)
                    miss = then if neg else els
        if hit and miss is not None:
            vals = stores_map(miss, hit[0])
            if vals:
                out.append(Site(fn, hit[0], hit[1], hit[2], miss, vals, els if miss is then else then))
    return out


def stores_ref(b, d):
    r = []
    for n in walk(b):
        if n["k"] == "Bin" and n["op"] == "=" or n["k"] == "OCall" and n["op"] == "=":
            if isvar(strip(n["c"][0]), d):
                r.append((n, None, n["c"][1]))
    return r


def stores_map(b, p):
    """[(store node, key or None, value)]"""
    r = []
    for n in walk(b):
        if n["k"] == "MCall" and short(n) in ("insert", "emplace") and persistent(chain(n["c"][0])[0]) == p:
            a = strip(n["c"][1]) if len(n["c"]) > 1 else None
            while a is not None and a["k"] == "Ctor" and len(a.get("c") or []) == 1:
                a = strip(a["c"][0])
            if a is not None and (a["k"] == "Call" and short(a) == "make_pair" or a["k"] == "Ctor") and len(a["c"]) == 2:
                r.append((n, a["c"][0], a["c"][1]))
            elif len(n["c"]) == 3:
                r.append((n, n["c"][1], n["c"][2]))
            else:
                r.append((n, None, n["c"][1] if len(n["c"]) > 1 else n))
        elif (n["k"] == "Bin" and n["op"] == "=") or (n["k"] == "OCall" and n["op"] == "="):
            root, keys = chain(n["c"][0])
            if keys and persistent(root) == p:
                r.append((n, keys[-1], n["c"][1]))
    return r



def boundary_prefix(p, q):
    """q is p or an object p is part of."""
    return p == q or (p.startswith(q) and p[len(q):len(q) + 1] in (".", "["))


MUTM = {"push_back", "insert", "clear", "resize", "set_value", "erase", "pop_back", "assign", "swap", "push", "emplace_back", "add_value", "append", "emplace", "str", "reset"}


class Memo:
    """decides whether the miss branch of one cache site depends only on the key."""

    def __init__(self, site, A):
        self.s, self.A, self.fn = site, A, site.fn
        self.texts, self.paths, self.done = set(), set(), {}
        self.bad = []           # (node, what)
        self.fields = {}        # field -> node
        self.sentence = None
        self.only, self.used = [], set()
        self.inblock = {n["d"] for n in walk(site.block) if n["k"] == "Var" and "d" in n}
        self.inblock |= {n["var"]["d"] for n in walk(site.block) if n["k"] == "ForRange" and n.get("var") and "d" in n["var"]}
        self.block = {n["i"] for n in walk(site.block) if "i" in n}
        self.vars = {n["d"]: n for n in self.fn.nodes() if n["k"] == "Var" and "d" in n}
        self.params = {p["d"]: p for p in self.fn.params if "d" in p}
        self.writes = self.collect()
        for k in site.keys:
            self.addkey(k, 0)
        for _, k2, _ in site.values:
            if k2 is not None and render(strip(k2)) not in self.texts:
                self.chk(k2)

    def collect(self):
        w = {}
        par = fn_parents(self.fn)
        self.par = par

        def add(e, n, exprs):
            e = strip(e)
            while e is not None and (e["k"] in ("Mem", "Sub", "MCall") or e["k"] == "OCall" and e["op"] in ("[]", "<<", "*", "->") or e["k"] == "Un" and e["op"] in ("&", "*")) and e.get("c"):
                e = strip(e["c"][0])
            if e is not None and e["k"] == "Ref" and e.get("dk") in ("local", "param") and "d" in e:
                w.setdefault(e["d"], []).append((n, exprs))
        for n in self.fn.nodes():
            k = n["k"]
            if k == "Bin" and n["op"] == "=" or k == "CAssign":
                add(n["c"][0], n, [n["c"][1]] + self.idx(n["c"][0]))
            elif k == "OCall" and n["op"] in ("=", "+=", "-=", "*=", "/=", "<<", ">>") and len(n["c"]) == 2:
                add(n["c"][0], n, [n["c"][1]] + self.idx(n["c"][0]))
            elif k == "Un" and n["op"] in ("++", "--"):
                add(n["c"][0], n, [])
            elif k == "OCall" and n["op"] in ("++", "--"):
                add(n["c"][0], n, [])
            elif k == "MCall" and short(n) in MUTM:
                add(n["c"][0], n, n["c"][1:])
            elif k in ("Call", "MCall", "Ctor"):
                args = (n.get("c") or [])[1 if k == "MCall" else 0:]
                for a, t in zip(args, n.get("pt") or []):
                    if a is not None and (t.endswith("&") or t.endswith("*")) and not t.startswith("const "):
                        b = strip(a)
                        if t.endswith("&") or (b is not None and b["k"] == "Un" and b["op"] == "&"):
                            add(a, n, [x for x in args if x is not a and x is not None])
        return w

    def idx(self, e):
        return chain(e)[1]

    def addkey(self, e, depth):
        e = strip(e)
        if e is None or depth > 6:
            return
        self.texts.add(render(e))
        p = path(e)
        if p is not None:
            self.paths.add(p)
            self.texts.add(p)
        if e["k"] == "Ref" and e.get("dk") == "local" and e.get("d") in self.vars:
            v = self.vars[e["d"]]
            ws = [x for x in self.writes.get(e["d"], []) if x[0]["i"] not in self.block]
            if v.get("c") and v["c"][0] is not None:
                self.addkey(v["c"][0], depth + 1)
            for n, ex in ws:
                for x in ex:
                    self.addkey(x, depth + 1)
                    for m in walk(x):
                        q = path(m) if m["k"] in ("Sub", "OCall") else None
                        ks = [strip(k) for k in chain(m)[1]] if q else []
                        if ks and all(k["k"] == "Ref" and self.loopvar(k.get("d")) for k in ks):
                            self.paths.add(q.split("[")[0])       # folded over the whole container
            return
        if e["k"] in ("Ctor", "Init") or e["k"] == "Call" and short(e) in ("make_pair", "make_tuple", "tie"):
            for x in e.get("c") or []:
                self.addkey(x, depth + 1)
        elif e["k"] == "Un" and e["op"] in ("&", "*", "-"):
            self.addkey(e["c"][0], depth + 1)
        elif e["k"] == "MCall" and short(e) in ("get", "c_str", "str") and len(e["c"]) == 1:
            self.addkey(e["c"][0], depth + 1)
        elif e["k"] == "Bin" and e["op"] in ("+", "-", "^"):
            live = [x for x in e["c"] if is_const(strip(x)) is None]
            if len(live) == 1:
                self.addkey(live[0], depth + 1)
        elif e["k"] == "OCall" and e["op"] == "+" and len(e["c"]) == 2:
            for x in e["c"]:
                self.addkey(x, depth + 1)

    def covered(self, p):
        return any(boundary_prefix(p, q) for q in self.paths)

    def chk(self, e, depth=0):
        """every input of e is determined by the key."""
        e0 = e
        e = strip(e)
        if e is None or depth > 40 or e["k"] in ("Str", "Int", "Float", "Bool", "Char", "Sizeof"):
            return
        if render(e) in self.texts:
            return
        p = path(e)
        if p is not None and e["k"] in ("Mem", "Ref", "Sub", "OCall", "MCall", "Un"):
            if self.covered(p):
                for k in chain(e)[1]:
                    self.chk(k, depth + 1)
                return
        k = e["k"]
        if k == "Ref":
            self.ref(e, depth)
            return
        if k == "Mem":
            b = strip(e["c"][0]) if e.get("c") else None
            if b is None or b["k"] == "This":
                self.field(e.get("f") or e["n"], e)
                return
            self.chk(b, depth + 1)
            return
        if k in ("Call", "MCall", "OCall", "Ctor"):
            for t in self.A.calls.targets(e):
                for f in self.A.reads(t.key):
                    self.field(f, e)
        for c in e.get("c") or []:
            if c is not None:
                self.chk(c, depth + 1)
        if k == "ForRange" and e.get("var"):
            pass

    def ref(self, e, depth):
        dk = e.get("dk")
        if dk in ("enum",) or "d" not in e or dk in ("global", "slocal"):
            return
        d = e["d"]
        if d == self.s.node.get("d") or d in self.done:
            return
        self.done[d] = True
        self.used.add(d)
        if d in self.params:
            t = self.params[d].get("t") or ""
            if t.endswith("*") and not t.startswith("const") and any(m["k"] == "MCall" and isvar(strip(m["c"][0]), d) for m in walk(self.s.block)):
                return                  # numbering: the value is a fresh id handed out by that object
            if "SentenceMetadata" in t:
                self.sentence = self.sentence or e
                return
            self.bad.append((e, e["n"]))
            return
        v = self.vars.get(d)
        if v is None:
            return                      # range variable or capture
        n0 = len(self.bad)
        if d not in self.inblock and self.loopvar(d):
            self.bad.append((e, e["n"]))
            return
        if v.get("c") and v["c"][0] is not None:
            self.chk(v["c"][0], depth + 1)
        for n, ex in self.writes.get(d, []):
            if n["i"] not in self.block and n["l"] > self.s.node["l"]:
                continue
            for x in ex:
                self.chk(x, depth + 1)
            for c in self.conds(n, inside=d in self.inblock):
                self.chk(c, depth + 1)
        if d not in self.inblock and len(self.bad) > n0:
            del self.bad[n0:]
            self.bad.append((e, e["n"]))

    def loopvar(self, d):
        for n, ex in self.writes.get(d, []):
            if n["k"] in ("Un", "OCall") and n["op"] in ("++", "--") and n["i"] not in self.block:
                return True
        return False

    def conds(self, n, inside=False):
        out = []
        q = self.par.get(n["i"])
        while q is not None and not (inside and q["i"] == self.s.block["i"]):
            if q["k"] == "If" and q["c"][2] is not None:
                out.append(q["c"][2])
            q = self.par.get(q["i"])
        return out

    def field(self, f, e):
        self.fields.setdefault(f, e)

    def run(self):
        """follow everything the stored values are computed from."""
        al = self.aliases()
        for n, _, v in self.s.values:
            self.chk(v)
            for c in self.conds(n, inside=True):
                self.chk(c)
        for d in al:
            for n, ex in self.writes.get(d, []):
                if n["i"] in self.block:
                    for x in ex:
                        self.chk(x)
                    for c in self.conds(n, inside=True):
                        self.chk(c)
        self.effects(al)
        return self

    def aliases(self):
        """locals of the miss branch that stand for the stored value (SparseVector& f = it->second)."""
        out = set()
        for n in walk(self.s.block):
            if n["k"] == "Var" and (n.get("t") or "").rstrip().endswith("&") and n.get("c") and n["c"][0] is not None:
                e = strip(n["c"][0])
                while e is not None and (e["k"] in ("Mem",) or e["k"] == "OCall" and e["op"] in ("->", "*", "[]")) and e.get("c"):
                    if e["k"] == "OCall" and e["op"] == "[]" and persistent(chain(e)[0]) == self.s.cont:
                        out.add(n["d"])
                    e = strip(e["c"][0])
                if e is not None and e["k"] == "Ref" and (e.get("d") == self.s.node.get("d") or e.get("d") in out):
                    out.add(n["d"])
        return out

    def effects(self, al):
        """something other than the cache is changed on a miss only."""
        if self.s.other:
            return
        for d, ws in self.writes.items():
            if d not in self.params or d in self.used:
                continue
            t = self.params[d].get("t") or ""
            if not (t.endswith("*") or t.endswith("&")) or t.startswith("const "):
                continue
            for n, _ in ws:
                if n["i"] in self.block and not self.leaves(n):
                    self.only.append((n, self.params[d].get("n")))

    def leaves(self, n):
        """the branch that holds n ends in a return: the hit path never joins it."""
        return any(m["k"] == "Return" for m in walk(self.s.block))


class Analysis:
    def __init__(self, db):
        self.db = db
        self.calls = Calls(db)
        self._reads, self._writes, self._kill = {}, {}, {}

    def reach(self, roots, x):
        """functions called while x scores, other feature functions excluded."""
        seen, todo = set(), list(roots)
        while todo:
            f = todo.pop()
            if f.key in seen or (f.cls in self.ffs and f not in roots and f.cls != x and f.short in ("TraversalFeaturesImpl", "FinalTraversalFeatures", "TraversalFeatures", "PrepareForInput")):
                continue
            seen.add(f.key)
            todo += [self.db.fns[k] if isinstance(k, str) else k for k in self.calls.callees(f)]
        return seen

    def reads(self, key):
        """fields of the own object (through any depth of calls on it) that a function reads."""
        if key in self._reads:
            return self._reads[key]
        self._reads[key] = set()
        fn = self.db.fns.get(key)
        r = set()
        if fn is not None and fn.body is not None and not fn.file.startswith(NOTPROJECT) and not fn.file.startswith("utils/"):
            for n in fn.nodes():
                if n["k"] == "Mem":
                    b = strip(n["c"][0]) if n.get("c") else None
                    if (b is None or b["k"] == "This") and n.get("f"):
                        r.add(n["f"])
                elif n["k"] in ("Call", "MCall", "OCall", "Ctor"):
                    if n["k"] == "MCall" and n["c"]:
                        b = strip(n["c"][0])
                        if b is not None and b["k"] not in ("This", "Mem"):
                            continue
                    elif n["k"] != "MCall":
                        continue
                    for t in self.calls.targets(n):
                        r |= self.reads(t.key)
        self._reads[key] = r
        return r



KILL = {"clear", "assign", "reset", "swap"}
GROW = {"push_back", "insert", "emplace", "emplace_back", "push", "push_front", "append", "add_value", "set_value", "PushFeature"}


def own(e):
    """field name when e is a member of the own object."""
    e = strip(e)
    if e is not None and e["k"] == "Mem":
        b = strip(e["c"][0]) if e.get("c") else None
        if b is None or b["k"] == "This":
            return e.get("f")
    return None


class Prepare:
    """what one PrepareForInput does to the fields of the feature function (and of the objects it owns),
    following calls: killed / grown-before-killed / written on some paths only."""

    def __init__(self, A, fn):
        self.A, self.fn = A, fn
        self.stale = []         # (fn, node, field, what)
        self.may = {}           # field -> (fn, node)
        self.conds = {}         # field -> True when some write depends on more than settings
        self.must = self.go(fn, frozenset(), 0, [])

    def go(self, fn, state, depth, stack):
        if fn.key in stack or depth > 6 or fn.body is None:
            return state
        g = cfg(fn)
        par = fn_parents(fn)
        ins = g.forward(state, lambda nd, st: self.step(fn, nd, st, depth, stack + [fn.key], par, False), lambda a, b: a & b)
        for nd in g.nodes:
            if nd.id in ins:
                self.step(fn, nd, ins[nd.id], depth, stack + [fn.key], par, True)
        return ins.get(g.exit.id, state) if g.exit.id in ins else state

    def step(self, fn, nd, st, depth, stack, par, report):
        if nd.ast is None:
            return st
        for n in self.order(nd.ast):
            k = n["k"]
            f = None
            if k == "MCall":
                f = own(n["c"][0]) if n.get("c") else None
                s = short(n)
                if s == "swap" and len(n["c"]) == 2 and not f:
                    f = own(n["c"][1])
                if f and (s in KILL or s == "erase" and len(n["c"]) == 3):
                    st = st | {f}
                    self.note(fn, n, f)
                    continue
                root, keys = chain(n["c"][0]) if n.get("c") else (None, [])
                f2 = own(root) if root is not None else None
                if f2 and s in GROW and CONTAINER.search(strip(root).get("t") or "") :
                    self.note(fn, n, f2)
                    if f2 not in st and report:
                        self.stale.append((fn, n, f2, "adds to"))
                    continue
            if k in ("Bin", "OCall", "CAssign") and n.get("op") in ("=", "+=", "-=", "*=", "|=", "<<") and len(n["c"]) == 2:
                f = own(n["c"][0])
                if f:
                    self.note(fn, n, f)
                    if n["op"] == "=":
                        if not self.selfuse(n["c"][1], f) :
                            st = st | {f}
                    elif n["op"] != "<<" and f not in st and report:
                        self.stale.append((fn, n, f, "accumulates onto"))
                    continue
                root, keys = chain(n["c"][0])
                f2 = own(root) if root is not None else None
                if f2 and keys:
                    self.note(fn, n, f2)
                    if n["op"] == "=":
                        if f2 not in st:
                            if ASSOC.search(strip(root).get("t") or "") or not self.sweep(fn, n, keys, par):
                                if report:
                                    self.stale.append((fn, n, f2, "fills parts of"))
                            else:
                                st = st | {f2}
                    elif n["op"] != "<<" and f2 not in st and report:
                        self.stale.append((fn, n, f2, "accumulates onto"))
                    continue
            if k in ("Call", "MCall"):
                ok = k == "Call" and False
                if k == "MCall" and n.get("c"):
                    b = strip(n["c"][0])
                    while b is not None and b["k"] == "OCall" and b["op"] in ("->", "*"):
                        b = strip(b["c"][0])
                    ok = b is not None and (b["k"] == "This" or own(b) is not None)
                if ok:
                    outs = []
                    for t in self.A.calls.targets(n):
                        if t.body is None or t.file.startswith(NOTPROJECT) or t.file.startswith("utils/") or t.h.get("dep"):
                            continue
                        if b["k"] == "This" or t.cls not in self.A.ffs:      # another feature function prepares itself
                            outs.append(self.go(t, st, depth + 1, stack) if report else self.go_quiet(t, st, depth + 1, stack))
                    if outs:
                        r = outs[0]
                        for o in outs[1:]:
                            r = r & o
                        st = st | r
        return st

    def go_quiet(self, t, st, depth, stack):
        keep = list(self.stale)
        r = self.go(t, st, depth, stack)
        self.stale = keep
        return r

    def order(self, ast):
        from ir import evalorder
        return [n for n in evalorder(ast)]

    def note(self, fn, n, f):
        self.may.setdefault(f, []).append((fn, n))

    def selfuse(self, e, f):
        return any(own(m) == f for m in walk(e))

    def sweep(self, fn, n, keys, par):
        """field[i].. = v for every i of a counting loop, without condition."""
        ids = set()
        for k in keys:
            k = strip(k)
            if k is None or k["k"] != "Ref" or "d" not in k:
                return False
            ids.add(k["d"])
        q = par.get(n["i"])
        while q is not None and ids:
            if q["k"] in ("If", "Switch", "Cond"):
                c = q["c"][2] if q["k"] == "If" else None
                if c is None or not self.settings(c):
                    return False
            if q["k"] in ("For", "ForRange", "While", "Do"):
                for m in walk(q):
                    if m["k"] == "Var":
                        ids.discard(m.get("d"))
                    elif m["k"] in ("Un", "OCall") and m["op"] in ("++", "--") or m["k"] in ("CAssign", "Bin") and m["op"] in ("=", "+=", "-="):
                        v = strip(m["c"][0])
                        if v is not None and v["k"] == "Ref":
                            ids.discard(v.get("d"))
            q = par.get(q["i"])
        return not ids

    def skippable(self, fn, n):
        """the write is left out for some sentences: a condition on it, or an earlier return, looks at more than settings."""
        par = fn_parents(fn)

        def decided(m):
            prev, q = m, par.get(m["i"])
            while q is not None:
                if q["k"] == "If" and q["c"][2] is not None and prev is not q["c"][2] and not self.settings(q["c"][2]):
                    return True
                if q["k"] == "Switch":
                    return True
                prev, q = q, par.get(q["i"])
            return False
        if decided(n):
            return True
        return any(m["k"] == "Return" and m["i"] < n["i"] and decided(m) for m in fn.nodes())

    def settings(self, c):
        """condition over settings only (own fields no sentence changes, constants)."""
        for m in walk(c):
            if own(m) in self.may:
                return False
            if m["k"] == "Ref" and m.get("dk") in ("local", "param"):
                return False
            if m["k"] in ("Call", "MCall") and own(m["c"][0] if m.get("c") else None) is None and m["k"] == "Call":
                return False
        return True


def static_dep(f, e):
    """name of a parameter, local or member that the initialiser of a static local reads."""
    for m in walk(e):
        if m["k"] == "Lambda":
            return None
        if m["k"] == "Ref" and m.get("dk") in ("local", "param"):
            return m["n"]
        if m["k"] == "This" or m["k"] == "Mem" and not m.get("c"):
            return "this"
    return None


def run(db, ctx):
    A = Analysis(db)
    ctx.rule("once", "a static local, which is initialised on the first call only, is computed from constants and globals, not from parameters, locals or members")
    ctx.rule("memo", "a value stored in a persistent container when a lookup finds nothing is computed only from what the lookup's key determines, from constants and from settings (backward slice over the miss branch); nothing handed out by reference is changed on a miss only")
    ctx.rule("address keys", "a cache of a feature function keyed by addresses, or whose values depend on the sentence, is emptied on every path of PrepareForInput")
    ctx.rule("rebuilt", "a table that PrepareForInput adds to, accumulates onto or fills in part was emptied or assigned before, on every path")
    ctx.assume.append("objects reached through a key that is an address do not change while the cache lives; field writes are tracked by field, one object per feature function; settings are fields not written while preparing or scoring")
    ffs = sorted({f.cls for f in db.fns.values() if f.short == "TraversalFeaturesImpl" and f.cls})
    A.ffs = set(ffs) | {"FeatureFunction"}
    for f in db.fns.values():
        if f.body is None or f.h.get("dep") or f.file.startswith(NOTPROJECT):
            continue
        for n in f.nodes():
            if n["k"] != "Var" or not n.get("static") or not n.get("c") or n["c"][0] is None:
                continue
            if CONTAINER.search(n.get("t") or "") and strip(n["c"][0])["k"] == "Ctor":
                continue            # the initial size of a table that grows
            ctx.ob()
            ctx.count("static_locals")
            bad = static_dep(f, n["c"][0])
            if bad:
                ctx.violate("once", f.loc(n), "%s computes static '%s' once, from '%s', which differs between calls" % (f.name, n["n"], bad), "%s|%s" % (f.name, n["n"]))
    sites = []
    for f in sorted(db.fns.values(), key=lambda f: (f.file, f.line, f.key)):
        if f.body is None or f.h.get("dep") or f.file.startswith(NOTPROJECT) or "_test" in f.file:
            continue
        for s in find_sites(f):
            sites.append((f, s, Memo(s, A).run()))
    prep, scoring = {}, {}
    for x in ffs:
        pf = [f for f in db.fns.values() if f.cls == x and f.short == "PrepareForInput" and f.body is not None]
        prep[x] = Prepare(A, pf[0]) if pf else None
        roots = [f for f in db.fns.values() if f.cls == x and f.short in ("TraversalFeaturesImpl", "FinalTraversalFeatures") and f.body is not None]
        scoring[x] = A.reach(roots, x)
    ctx.count("feature_functions", len(ffs))
    ctx.floor("cache_sites", len(sites), 12)
    seen = set()
    for f, s, m in sites:
        ctx.ob()
        key = "%s|%s" % (f.name, s.cont)
        ctx.sample("%s: %s caches %s by %s" % (f.loc(s.node), f.name, s.cont, ", ".join(render(k) for k in s.keys)), 40)
        for n, w in m.bad[:1]:
            ctx.violate("memo", f.loc(n), "%s stores a value in %s (key: %s) that depends on '%s', which the key does not determine" % (f.name, s.cont, ", ".join(render(k) for k in s.keys), w), key)
        for n, w in m.only[:1]:
            ctx.violate("memo", f.loc(n), "%s changes '%s' only when %s has no entry yet" % (f.name, w, s.cont), key + "|only")
        if s.cont.startswith("::") and f.cls and m.fields:
            fl = sorted(x for x in m.fields if x.startswith(f.cls + "::"))
            if fl:
                ctx.violate("memo", f.loc(s.node), "%s keeps values that depend on the object's %s in a cache shared by all objects" % (f.name, ", ".join(x.split("::")[-1] for x in fl[:4])), key + "|shared")
        for x in ffs:
            if f.key not in scoring[x] or s.cont.startswith("::"):
                continue
            why = None
            P = prep[x]
            if any(re.search(r"\*(?!\w)", (strip(k).get("t") or "")) for k in s.keys):
                why = "is keyed by addresses of objects that do not outlive the sentence"
            elif m.sentence is not None:
                why = "holds values that depend on the sentence"
            elif P is not None:
                dep = sorted(y for y in m.fields if y in P.may)
                if dep:
                    why = "holds values computed from %s, which changes with every sentence" % dep[0].split("::")[-1]
            if why is None:
                continue
            ctx.ob()
            if P is None or s.cont not in P.must:
                ctx.violate("address keys", f.loc(s.node), "%s %s but %s::PrepareForInput does not empty it on every path" % (s.cont, why, x), key + "|kill|" + x)
    for x in ffs:
        P = prep[x]
        if P is None:
            continue
        ctx.count("prepare_functions")
        for fld in P.may:
            ctx.ob()
        done = set()
        for fn, n, fld, what in P.stale:
            if fld in done:
                continue
            done.add(fld)
            ctx.violate("rebuilt", fn.loc(n), "%s %s %s, which still holds the previous sentence's contents (from %s::PrepareForInput)" % (fn.name, what, fld, x), "%s|%s" % (x, fld))
        for fld, ws in sorted(P.may.items()):
            if fld in P.must or fld in done:
                continue
            ws = [w for w in ws if P.skippable(*w)]
            if not ws:
                continue
            fn, n = ws[0]
            ctx.violate("rebuilt", fn.loc(n), "%s::PrepareForInput writes %s on some paths only: the previous sentence's value stays otherwise" % (x, fld), "%s|%s|partial" % (x, fld))
