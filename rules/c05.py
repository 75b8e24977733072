"""References, pointers and iterators into a container are not used after an operation that invalidates them."""
import re
from facts import children, walk
from ir import cfg, uncast, path, ref_aliases, base_type, Calls, evalorder, fixpoint, walk_nl, render

GROUPS = ["utils", "decoder", "mteval", "training", "word-aligner", "extractor"]

SEQ = re.compile(r"^(std::vector|std::basic_string|std::__cxx11::basic_string|std::string|SmallVector|ValueArray)\b")
DEQ = re.compile(r"^std::deque\b")
HASHED = re.compile(r"^(std::unordered_(map|set|multimap|multiset)|boost::unordered|google::|std::tr1::unordered)")
TREE = re.compile(r"^(std::(map|set|multimap|multiset|list|forward_list))\b")
GROW = {"push_back", "emplace_back", "resize", "reserve", "insert", "emplace", "append", "push_front", "emplace_front", "rehash", "shrink_to_fit"}
DESTROY = {"erase", "clear", "assign"}
ITER_FROM = {"begin", "end", "rbegin", "rend", "cbegin", "cend", "find", "lower_bound", "upper_bound"}
MAXDEPTH = 4


def kind_of(t):
    t = base_type(t)
    for r, k in ((SEQ, "seq"), (DEQ, "deq"), (HASHED, "hash"), (TREE, "tree")):
        if r.match(t):
            return k
    return None


def invalidates(ck, op, nargs):
    """-> set of what dies: 'ref', 'iter', 'arg' (only the iterator passed)."""
    if ck in ("seq", "deq") and op == "pop_back":
        return {"backref"}
    if ck == "deq" and op == "pop_front":
        return {"frontref"}
    if ck == "seq":
        if op in GROW or op in DESTROY or op in ("=", "+="):
            return {"ref", "iter"}
    elif ck == "deq":
        if op in ("push_back", "push_front", "emplace_back", "emplace_front"):
            return {"iter"}
        if op in ("insert", "emplace", "resize") or op in DESTROY or op == "=":
            return {"ref", "iter"}
    elif ck == "hash":
        if op in ("insert", "emplace", "[]", "rehash", "reserve"):
            return {"iter"}
        if op == "erase":
            return {"arg"}
        if op in ("clear", "=", "assign"):
            return {"ref", "iter"}
    elif ck == "tree":
        if op == "erase":
            return {"arg"}
        if op in ("clear", "=", "assign"):
            return {"ref", "iter"}
    return set()


def cont_op(n):
    """(container expr, kind, op name, nargs) when n is a member operation of a known container."""
    if n["k"] == "MCall" and n.get("c") and n.get("fn"):
        k = kind_of(n["c"][0].get("t", ""))
        if k:
            return n["c"][0], k, n["fn"].split("::")[-1], len(n["c"]) - 1
    if n["k"] == "OCall" and n.get("c"):
        k = kind_of(n["c"][0].get("t", ""))
        if k and n["op"] in ("=", "[]", "+="):
            return n["c"][0], k, n["op"], len(n["c"]) - 1
    return None


def rebase(p, m):
    """rewrite a callee path into the caller's terms: the root and every parameter named in an index."""
    mm = re.match(r"[^.\[]+", p)
    root = mm.group(0)
    if root.startswith("::"):
        q = root
    elif m.get(root) is not None:
        q = m[root]
    else:
        return None

    def sub(t):
        v = m.get("=" + t.group(0))
        return v if v is not None else "?"
    rest = re.sub(r"[A-Za-z_]\w*#\d+", sub, p[len(root):])
    th = m.get("this")
    rest = re.sub(r"\bthis\b", th if th is not None else "?", rest)
    return q + rest


def argmap(n, t, al):
    m = {}
    args = n.get("c") or []
    if n["k"] == "MCall" or (n["k"] == "OCall" and t.cls):
        m["this"] = path(args[0], al) if args and args[0] is not None else None
        args = args[1:]
    for p, a in zip(t.params, args):
        if a is None:
            continue
        ty, nm = p["t"].rstrip(), "%s#%d" % (p["n"], p["d"])
        m["=" + nm] = render(a, al)
        if ty.endswith("&") or ty.endswith("*") or ty.endswith("*const") or "shared_ptr" in ty:
            m[nm] = path(a, al)
    return m


class Grow:
    """which container paths (rooted at this / reference parameters / globals) a function may grow or clear."""

    def __init__(self, db):
        self.db, self.calls = db, Calls(db)
        self.al = {}
        self.S = fixpoint(db, self.calls, self.local, self.combine)

    def alias(self, f):
        if f.key not in self.al:
            self.al[f.key] = ref_aliases(f)
        return self.al[f.key]

    def roots(self, f):
        return {"this"} | {"%s#%d" % (p["n"], p["d"]) for p in f.params}

    def keep(self, f, p):
        if p is None or len(re.findall(r"[.\[]", p)) > MAXDEPTH:
            return None
        root = re.match(r"[^.\[]+", p).group(0)
        if root.startswith("::"):
            return p if p.count("::") else None
        if root not in self.roots(f):
            return None
        # index expressions naming locals mean nothing to the caller
        rs = self.roots(f)
        return root + re.sub(r"[A-Za-z_]\w*#\d+", lambda t: t.group(0) if t.group(0) in rs else "?", p[len(root):])

    def local(self, f):
        r = set()
        if f.body is None:
            return r
        al = self.alias(f)
        for n in f.nodes():
            c = cont_op(n)
            if c:
                inv = invalidates(c[1], c[2], c[3]) - {"arg"}
                if inv:
                    p = self.keep(f, path(c[0], al))
                    if p:
                        r.add((p, tuple(sorted(inv)), c[2] in DESTROY or c[2] == "="))
        return r

    def combine(self, f, n, t, S):
        r = set()
        if not S:
            return r
        m = argmap(n, t, self.alias(f))
        for p, inv, d in S:
            q = rebase(p, m)
            q = self.keep(f, q) if q else None
            if q:
                r.add((q, inv, d))
        return r


def elem_ret(db, grow):
    """functions returning a pointer/reference/iterator into a container path of this or a parameter."""
    R = {}
    ch = True
    rounds = 0
    while ch and rounds < 4:
        ch, rounds = False, rounds + 1
        for f in db.fns.values():
            if f.key in R or f.body is None:
                continue
            rt = f.h.get("ret", "").rstrip()
            if not (rt.endswith("*") or rt.endswith("&") or "iterator" in rt):
                continue
            al = grow.alias(f)
            env = {}
            for n in f.nodes():
                if n["k"] == "Var" and children(n):
                    e = elem(children(n)[0], al, env, R, db)
                    if e:
                        env[n["d"]] = e
            for n in f.nodes():
                if n["k"] == "Return" and children(n):
                    x = children(n)[0]
                    e = elem(x, al, env, R, db)
                    if rt.endswith("&"):
                        e = ref_elem(x, al, env, R, db)
                    if e:
                        q = grow.keep(f, e[0])
                        if q:
                            R[f.key] = (q, e[1])
                            ch = True
                            break
    return R


def ref_elem(x, al, env, R, db):
    """container whose storage the lvalue x lies in -> (container path, kind) or None."""
    x = uncast(x)
    if x is None:
        return None
    k = x["k"]
    if k == "Mem" and x.get("c") and not x.get("a"):
        return ref_elem(x["c"][0], al, env, R, db)
    if k == "Mem" and x.get("a") and x.get("c"):        # through a pointer / iterator
        return elem(x["c"][0], al, env, R, db, deref=True)
    if k in ("Sub",):
        return elem(x["c"][0], al, env, R, db)  # pointer arithmetic inside a tracked buffer
    if k == "OCall" and x["op"] == "[]":
        ck = kind_of(x["c"][0].get("t", ""))
        if ck:
            p = path(x["c"][0], al)
            return (p, "ref") if p else None
    if k == "OCall" and x["op"] in ("*", "->") and len(x["c"]) == 1:
        return elem(x["c"][0], al, env, R, db, deref=True)
    if k == "Un" and x["op"] == "*":
        return elem(x["c"][0], al, env, R, db, deref=True)
    if k == "MCall" and x.get("c"):
        nm = (x.get("fn") or "").split("::")[-1]
        if nm in ("back", "front", "at", "top") and kind_of(x["c"][0].get("t", "")):
            p = path(x["c"][0], al)
            return (p, {"back": "backref", "front": "frontref"}.get(nm, "ref")) if p else None
    if k in ("MCall", "Call", "OCall") and x.get("f") in R:
        return call_elem(x, al, R, db)
    if k == "Ref" and x["dk"] == "local" and x["d"] in env:
        return (env[x["d"]][0], "ref")
    return None


def call_elem(x, al, R, db):
    t = db.fns[x["f"]]
    p, kd = R[x["f"]]
    q = rebase(p, argmap(x, t, al))
    return (q, kd) if q and "?" not in q else None


def elem(x, al, env, R, db, deref=False):
    """container a pointer/iterator valued x points into -> (container path, kind)."""
    x = uncast(x)
    if x is None:
        return None
    k = x["k"]
    if k == "Un" and x["op"] == "&":
        return ref_elem(x["c"][0], al, env, R, db)
    if k == "OCall" and x["op"] == "&" and len(x["c"]) == 1:
        return ref_elem(x["c"][0], al, env, R, db)
    if k in ("Bin", "OCall") and x.get("op") in ("+", "-") and len(x["c"]) == 2:
        e = elem(x["c"][0], al, env, R, db)
        return e
    if k in ("Un", "OCall") and x.get("op") in ("++", "--"):
        return elem(x["c"][0], al, env, R, db)
    if k == "Ref" and x["dk"] == "local" and x["d"] in env:
        e = env[x["d"]]
        return (e[0], e[1]) if not deref else (e[0], "ref")
    if k == "Ctor" and len(children(x)) == 1:
        return elem(x["c"][0], al, env, R, db)
    if k == "MCall" and x.get("c"):
        nm = (x.get("fn") or "").split("::")[-1]
        ck = kind_of(x["c"][0].get("t", ""))
        if ck and (nm in ITER_FROM or nm in ("erase", "insert")) and "iterator" in x.get("t", "") + ("iterator" if ck else ""):
            if nm in ("erase", "insert") and "pair" in x.get("t", ""):
                return None
            p = path(x["c"][0], al)
            if p and x.get("t", "") not in ("void", "unsigned long", "size_t"):
                return (p, "iter")
        if ck == "seq" and nm in ("data", "c_str"):
            p = path(x["c"][0], al)
            return (p, "ref") if p else None
    if k in ("MCall", "Call", "OCall") and x.get("f") in R:
        return call_elem(x, al, R, db)
    if k == "Cond":
        return elem(x["c"][1], al, env, R, db) or elem(x["c"][2], al, env, R, db)
    return None


def tracked_type(t):
    t = t.rstrip()
    return t.endswith("&") or t.endswith("*") or t.endswith("*const") or "iterator" in t or "Iterator" in t


def idx_vars(p):
    return set(int(x) for x in re.findall(r"#(\d+)", p))


class Analyse:
    def __init__(self, db, ctx, f, grow, R):
        self.db, self.ctx, self.f, self.grow, self.R = db, ctx, f, grow, R
        # container paths are kept in terms of stable names: references are followed, but not tracked element refs
        self.al = grow.alias(f)
        self.names = {}
        self.reported = set()
        self.nbind = 0
        self.ninv = 0

    def run(self):
        g = cfg(self.f)
        self.reserved = set()
        for n in self.f.nodes():
            if n["k"] == "MCall" and n.get("c") and (n.get("fn") or "").split("::")[-1] in ("reserve", "ReserveNodes", "ReserveEdges"):
                p = path(n["c"][0], self.al)
                if p:
                    self.reserved.add(p)
                    self.reserved.add(p + ".nodes_")
                    self.reserved.add(p + ".edges_")
        if not any(n["k"] == "Var" and tracked_type(n["t"]) for n in self.f.nodes()):
            return
        # state: frozenset of (decl, container, kind, stale site id or 0)
        ins = g.forward(frozenset(), lambda n, s: self.step(n, s, False), lambda a, b: a | b)
        for n in g.nodes:
            if n.id in ins:
                self.step(n, ins[n.id], True)

    def step(self, n, s, report):
        if n.kind == "unscope":
            ds = {v["d"] for v in n.vars}
            return frozenset(x for x in s if x[0] not in ds)
        if n.kind in ("assume", "loop", "join", "entry", "exit"):
            return s
        if n.ast is None or n.kind in ("return", "omp", "ompend", "catch"):
            return s
        st = {}
        for x in s:
            st.setdefault(x[0], set()).add(x[1:])
        skip = set()
        for x in walk_nl(n.ast):
            if x["k"] in ("Bin", "OCall") and x.get("op") == "=" and len(children(x)) == 2:
                l = uncast(x["c"][0])
                if l["k"] == "Ref" and l.get("d") in st and not self.is_ref(l["d"]):
                    skip.add(l["i"])
        nodes = list(evalorder(n.ast))
        for x in nodes:
            k = x["k"]
            if k == "Ref" and x["dk"] == "local" and x["i"] not in skip and x["d"] in st:
                for c, kd, site in st[x["d"]]:
                    if site and report and (x["d"], site) not in self.reported:
                        if self.only_compared_to_null(x, n.ast):
                            continue
                        self.reported.add((x["d"], site))
                        self.ctx.violate("stale-element", self.f.loc(x), "%s uses %s '%s' into %s after line %d may have invalidated it" % (self.f.name, "iterator" if kd == "iter" else "reference", x["n"], c.replace("this.", ""), site), "%s|%s|%s" % (self.f.name, x["n"], re.sub(r"#\d+", "", c)),
                                         ["bound to an element of %s" % c, "%s:%d invalidates" % (self.f.file, site), "%s:%d uses" % (self.f.file, x["l"])])
            # invalidations
            hits = []
            co = cont_op(x)
            if co:
                inv = invalidates(co[1], co[2], co[3])
                p = path(co[0], self.al)
                if inv and p:
                    if inv == {"arg"}:
                        a = uncast(x["c"][1]) if len(x["c"]) > 1 else None
                        while a is not None and a["k"] == "Ctor" and len(children(a)) == 1:
                            a = uncast(a["c"][0])
                        if a is not None and a["k"] == "Ref" and a.get("d") in st:
                            st[a["d"]] = {(c, kd, x["l"]) for c, kd, site in st[a["d"]]}
                    else:
                        hits.append((p, inv, co[2] in DESTROY or co[2] == "=", co[2]))
            elif k in ("MCall", "Call", "OCall") and x.get("f"):
                for t in self.grow.calls.targets(x):
                    S = self.grow.S.get(t.key)
                    if S:
                        m = argmap(x, t, self.al)
                        for p, inv, d in S:
                            q = rebase(p, m)
                            if q and "?" not in q:
                                hits.append((q, set(inv), d, t.short))
            for p, inv, d, op in hits:
                if p in self.reserved and op not in ("erase", "clear", "=", "assign", "pop_back", "pop_front"):
                    continue
                for dcl in list(st):
                    new = set()
                    for c, kd, site in st[dcl]:
                        if not site and (c == p and (kd in inv or kd in ("backref", "frontref") and "ref" in inv) or d and c.startswith(p) and c[len(p):len(p) + 1] in ("[", ".")):
                            if report:
                                self.ninv += 1
                            new.add((c, kd, x["l"]))
                        else:
                            new.add((c, kd, site))
                    st[dcl] = new
            # bindings
            if k == "Var" and tracked_type(x["t"]) and children(x) and x["i"] != -1:
                self.bind(x["d"], x["n"], x["t"], children(x)[0], st, report)
            elif k in ("Bin", "OCall") and x.get("op") == "=" and len(children(x)) == 2:
                l = uncast(x["c"][0])
                if l["k"] == "Ref" and l["dk"] == "local":
                    if not self.is_ref(l["d"]):
                        t = l.get("t", "")
                        if tracked_type(t):
                            self.bind(l["d"], l["n"], t, x["c"][1], st, report)
                        self.moved(l["d"], st)
            elif k in ("CAssign",) or k == "Un" and x["op"] in ("++", "--"):
                l = uncast(x["c"][0])
                if l["k"] == "Ref" and l["dk"] == "local":
                    self.moved(l["d"], st)
        if n.kind == "rangedecl":
            v = n.ast
            st.pop(v["d"], None)
            if v["t"].rstrip().endswith("&") and n.extra is not None:
                rng = uncast(n.extra["c"][0])
                p = path(rng, self.al)
                ck = kind_of(rng.get("t", ""))
                if p and ck:
                    st[v["d"]] = {(p, "ref", 0)}
                    self.refs().add(v["d"])
        return frozenset((d,) + y for d, ys in st.items() for y in ys)

    def refs(self):
        if not hasattr(self, "_refs"):
            self._refs = {n["d"] for n in self.f.nodes() if n["k"] == "Var" and n["t"].rstrip().endswith("&")}
        return self._refs

    def is_ref(self, d):
        return d in self.refs()

    def bind(self, d, name, t, init, st, report):
        env = {k: next(iter(v)) for k, v in st.items() if v}
        # a stale source taints the copy: keep it simple, the use of the source is reported itself
        if t.rstrip().endswith("&"):
            e = ref_elem(init, self.al, env, self.R, self.db)
        else:
            e = elem(init, self.al, env, self.R, self.db)
        if e and e[0]:
            st[d] = {(e[0], e[1], 0)}
            if report:
                self.nbind += 1
        else:
            st.pop(d, None)

    def moved(self, d, st):
        """an index variable of a tracked container path changed: the path now names another container."""
        for k in list(st):
            st[k] = {y for y in st[k] if y[2] or d not in idx_vars(y[0])}
            if not st[k]:
                del st[k]

    def only_compared_to_null(self, ref, top):
        for x in walk(top):
            if x["k"] == "Bin" and x["op"] in ("==", "!=") and any(uncast(c) is ref for c in x["c"]):
                return True
        return False


def run(db, ctx):
    ctx.rule("stale-element", "on no path is a reference, pointer or iterator into a container used after an operation on that container (direct, or by a called function) that may reallocate it or destroy the element")
    ctx.rule("grown-while-iterated", "the body of a range-for does not grow, clear or erase from the container it walks and then take another step")
    ctx.rule("kept-pointer-reserved", "a pointer into a growing vector that is kept in a member or another container is backed by a reservation made on every route to that code")
    ctx.rule("escaping-local", "no function returns a reference or pointer into its own automatic storage, and no pointer into a temporary string is kept")
    grow = Grow(db)
    callers = {}
    for k, f in db.fns.items():
        for t, _ in grow.calls.callees(f).values():
            callers.setdefault(t.key, set()).add(k)
    R = elem_ret(db, grow)
    nl = nb = nf = ni = nr = npz = 0
    seen = set()
    for f in sorted(db.fns.values(), key=lambda f: (f.file, f.line, f.key)):
        if f.file.startswith("/") or f.h.get("impl") or f.body is None or (f.file, f.line) in seen:
            continue
        seen.add((f.file, f.line))
        a = Analyse(db, ctx, f, grow, R)
        a.run()
        nf += 1
        nb += a.nbind
        ni += a.ninv
        for _ in range(a.nbind):
            ctx.ob()
        npz += persisted(db, ctx, f, grow, R, callers)
        k = locals_escape(db, ctx, f)
        nl += k
        for _ in range(k):
            ctx.ob()
        nr += ranged(db, ctx, f, grow)
    ctx.count("functions_that_may_grow_a_callers_container", sum(1 for s in grow.S.values() if s))
    ctx.count("functions_returning_elements", len(R))
    ctx.count("invalidations_of_live_bindings", ni)
    ctx.count("returned_references_and_pointers", nl)
    ctx.count("kept_element_pointers", npz)
    ctx.count("range_for_loops", nr)
    ctx.count("functions_analysed", nf)
    ctx.floor("element_bindings", nb, 300)
    for k in sorted(R)[:12]:
        ctx.sample("%s returns an element of %s" % (db.fns[k].name, R[k][0]))


def persisted(db, ctx, f, grow, R, callers):
    """pointers to vector elements kept beyond the statement block (members, containers) need the vector reserved."""
    cnt = 0
    al = grow.alias(f)
    for n in f.nodes():
        if n["k"] not in ("Bin", "OCall") or n.get("op") != "=" or len(children(n)) != 2:
            continue
        r = uncast(n["c"][1])
        if r["k"] not in ("MCall", "Call") or r.get("f") not in R or not r.get("t", "").rstrip().endswith("*"):
            continue
        if not any(grow.S.get(t.key) for t in grow.calls.targets(r)):
            continue
        l = uncast(n["c"][0])
        if l["k"] == "Ref" and l["dk"] == "local":
            d = [v for v in f.nodes() if v["k"] == "Var" and v["d"] == l["d"]]
            if d and not d[0]["t"].rstrip().endswith("&"):
                continue
        cnt += 1
        t = db.fns[r["f"]]
        cont = R[r["f"]][0].split(".")[-1]
        # some function from which this one is reached reserves the same container
        st, seen, ok = [f.key], {f.key}, False
        while st and not ok:
            g = db.fns[st.pop()]
            for x in g.nodes():
                if x["k"] == "MCall" and x.get("fn") and x["fn"].split("::")[-1].lower().startswith("reserve"):
                    tg = db.fns.get(x.get("f"))
                    names = {y.get("n") for y in (tg.nodes() if tg else walk(x))}
                    if cont in names:
                        ok = True
            for k in callers.get(g.key, ()):
                if k not in seen:
                    seen.add(k)
                    st.append(k)
        ctx.ob(ok)
        if not ok:
            ctx.violate("kept-pointer-reserved", f.loc(n), "%s keeps a pointer into %s beyond later growth, and no caller reserves it" % (f.name, cont), "%s|%s" % (f.name, cont))
    return cnt


def storage_root(x):
    """declaration whose own storage the lvalue x is part of (no pointer or iterator passed), else None."""
    x = uncast(x)
    while x is not None:
        if x["k"] == "Ref" and x["dk"] == "local":
            return x
        if x["k"] == "Mem" and x.get("c") and not x.get("a"):
            x = uncast(x["c"][0])
        elif x["k"] == "OCall" and x["op"] == "[]" and kind_of(x["c"][0].get("t", "")):
            x = uncast(x["c"][0])
        elif x["k"] == "MCall" and x.get("c") and (x.get("fn") or "").split("::")[-1] in ("back", "front", "at") and kind_of(x["c"][0].get("t", "")):
            x = uncast(x["c"][0])
        else:
            return None
    return None


def pointee_root(x):
    x = uncast(x)
    if x is None:
        return None
    if x["k"] == "Un" and x["op"] == "&":
        return storage_root(x["c"][0])
    if x["k"] == "MCall" and x.get("c") and (x.get("fn") or "").split("::")[-1] in ("c_str", "data") and kind_of(x["c"][0].get("t", "")) == "seq":
        return storage_root(x["c"][0])
    return None


def locals_escape(db, ctx, f):
    cnt = 0
    rt = f.h.get("ret", "").rstrip()
    decl = {n["d"]: n for n in f.nodes() if n["k"] == "Var"}

    def is_auto(r):
        d = decl.get(r["d"])
        if d is None or d.get("static"):
            return False
        t = d["t"].rstrip()
        return not t.endswith("&")
    for n in f.nodes():
        if n["k"] == "Return" and children(n) and (rt.endswith("&") or rt.endswith("*")):
            cnt += 1
            r = storage_root(n["c"][0]) if rt.endswith("&") else pointee_root(n["c"][0])
            if r is not None and is_auto(r) and not any(x["k"] == "Lambda" for x in f.nodes()):
                ctx.violate("escaping-local", f.loc(n), "%s returns a reference or pointer to its local '%s'" % (f.name, r["n"]), "%s|%s" % (f.name, r["n"]))
        if n["k"] == "Var" and n["t"].rstrip().endswith("*") and children(n):
            x = uncast(n["c"][0])
            if x["k"] == "MCall" and x.get("c") and (x.get("fn") or "").split("::")[-1] in ("c_str", "data") and kind_of(x["c"][0].get("t", "")) == "seq":
                cnt += 1
                o = uncast(x["c"][0])
                tmp = o["k"] == "Ctor" or o["k"] == "OCall" and o["op"] == "+" or o["k"] == "MCall" and (o.get("fn") or "").split("::")[-1] in ("str", "substr")
                if o["k"] in ("Call", "MCall") and o.get("f") in db.fns:
                    tmp = not db.fns[o["f"]].h.get("ret", "").rstrip().endswith("&")
                if tmp:
                    ctx.violate("escaping-local", f.loc(n), "%s keeps a pointer into a temporary string in '%s'" % (f.name, n["n"]), "%s|tmp|%s" % (f.name, n["n"]))
    return cnt


def ranged(db, ctx, f, grow):
    cnt = 0
    al = grow.alias(f)
    g = None
    for s in f.nodes():
        if s["k"] != "ForRange":
            continue
        rng = uncast(s["c"][0])
        p, ck = path(rng, al), kind_of(rng.get("t", ""))
        if not p or not ck:
            continue
        cnt += 1
        body = s["c"][1]
        for x in walk(body):
            hit = False
            co = cont_op(x)
            if co:
                inv = invalidates(co[1], co[2], co[3])
                if inv & {"iter", "arg", "ref"} and path(co[0], al) == p and not (co[2] == "[]"):
                    hit = True
            elif x["k"] in ("MCall", "Call", "OCall") and x.get("f"):
                for t in grow.calls.targets(x):
                    for q, inv, d in grow.S.get(t.key) or ():
                        if "iter" in inv and rebase(q, argmap(x, t, al)) == p:
                            hit = True
            if hit:
                g = g or cfg(f)
                o = g.owner.get(x["i"])
                if o is None:
                    continue
                inside = {y["i"] for y in walk(body)}
                # can control reach the loop head from here without leaving the loop?
                st, seen = [o], set()
                back = False
                while st:
                    m = st.pop()
                    for q in m.succ:
                        if q.id in seen:
                            continue
                        seen.add(q.id)
                        if q.kind == "loop" and q.extra is s:
                            back = True
                            continue
                        if q.kind in ("return", "exit") or (q.ast is not None and q.ast["i"] not in inside and q.kind != "rangedecl"):
                            continue
                        st.append(q)
                if back:
                    ctx.violate("grown-while-iterated", f.loc(x), "%s changes %s inside the range-for over it" % (f.name, p), "%s|%s" % (f.name, re.sub(r"#\d+", "", p)))
        ctx.ob()
    return cnt
