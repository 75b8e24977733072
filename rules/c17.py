"""C17: memory and files owned by hand are released once, in the right form, and not used afterwards.

form      what is allocated with new is released with delete, new[] with delete[], malloc with free, fopen with fclose
once      nothing is released twice, used after its release, given to two owners, or left dangling in a member
copied    an object that releases memory in its destructor is never copied member by member
owner     an owning pointer is not created from memory another owner releases, or from an object that is not on the heap
room      buffers are allocated for the type and text they receive"""
import re, sys
from facts import walk, children
from ir import ref_aliases, cfg, Calls, path, render, uncast, is_const, base_type, evalorder, walk_nl

GROUPS = ["decoder", "training", "utils", "mteval", "extractor", "word-aligner"]
sys.setrecursionlimit(20000)
SMART = re.compile(r"^(class |struct )?(const )?((std|boost)::(shared_ptr|unique_ptr|scoped_ptr|scoped_array|shared_array|auto_ptr)|boost::movelib::unique_ptr)\b")
INTRUSIVE = re.compile(r"^(const )?boost::intrusive_ptr\b")
ALLOC = {"malloc": "malloc", "calloc": "malloc", "realloc": "malloc", "strdup": "malloc", "strndup": "malloc", "fopen": "file", "popen": "pipe", "fdopen": "file", "gzopen": "gz", "opendir": "dir"}
FREE = {"free": "malloc", "fclose": "file", "pclose": "pipe", "gzclose": "gz", "closedir": "dir"}
GOOD = {"new": "delete", "new[]": "delete[]", "malloc": "free", "file": "fclose", "pipe": "pclose", "gz": "gzclose", "dir": "closedir"}
CONT = re.compile(r"^(const )?(std::(vector|deque|list|map|set|multimap|unordered_map|unordered_set|stack|queue|priority_queue|pair|array)|boost::(ptr_vector|unordered_map|array|multi_array)|Array2D|SmallVector)\b|\[\d+\]$")
EMPTY = {"clear", "erase", "resize", "pop_back", "pop_front", "pop", "swap", "assign"}


def short(name):
    return re.sub(r"<.*>", "", name).split("::")[-1]


def last(n):
    return (n.get("fn") or "").split("::")[-1]


def project(f):
    return f.body is not None and not f.file.startswith("klm/") and not f.h.get("dep")


def isptr(t):
    return (t or "").rstrip().rstrip("&").rstrip().removesuffix("const").rstrip().endswith("*")


def freed_arg(n):
    """(expression released, form) when n releases memory itself."""
    if n["k"] == "Delete" and n.get("c"):
        return n["c"][0], "new[]" if n.get("arr") else "new"
    if n["k"] == "Call" and last(n) in FREE and children(n) and not n.get("own_def"):
        return children(n)[0], FREE[last(n)]
    return None


# ------------------------------------------------------------------------------------------------ form
class Slots:
    """flow-insensitive classes of places that hold the same pointers."""

    def __init__(self):
        self.p, self.alloc, self.dealloc = {}, {}, {}

    def find(self, x):
        r = x
        while self.p.get(r, r) != r:
            r = self.p[r]
        while self.p.get(x, x) != r:
            self.p[x], x = r, self.p[x]
        return r

    def union(self, a, b):
        a, b = self.find(a), self.find(b)
        if a != b:
            self.p[a] = b
            for m in (self.alloc, self.dealloc):
                if a in m:
                    m.setdefault(b, []).extend(m.pop(a))


def slot(f, e, elems):
    """place an expression denotes, or None."""
    e = uncast(e)
    if e is None:
        return None
    k = e["k"]
    if k == "Ref":
        if e.get("dk") in ("local", "param") and "d" in e:
            return elems.get((f.key, e["d"])) or ("l", f.key, e["d"])
        if e.get("dk") in ("global", "slocal"):
            return ("g", e.get("q", e["n"]))
        return None
    if k == "Mem":
        if e["n"] in ("first", "second") and e.get("c"):
            b = slot(f, e["c"][0], elems)
            return b if b is None else b
        return ("m", e.get("f") or e["n"])
    if k in ("Sub",):
        b = slot(f, e["c"][0], elems)
        return None if b is None else ("e", b)
    if k == "OCall" and e["op"] in ("[]", "()") and e.get("c"):
        b = slot(f, e["c"][0], elems)
        return None if b is None else ("e", b)
    if k in ("OCall", "Un") and e.get("op") in ("*", "->") and len(children(e)) == 1:
        b = slot(f, children(e)[0], elems)
        return None if b is None else b if b[0] == "e" else ("e", b)
    if k == "MCall" and e.get("c"):
        nm = last(e)
        b = slot(f, e["c"][0], elems)
        if nm in ("back", "front", "at", "top"):
            return None if b is None else ("e", b)
        if nm in ("begin", "end", "rbegin", "find", "get", "release"):
            return None if b is None else ("e", b) if nm in ("begin", "end", "rbegin", "find") else b
    if k in ("Call", "MCall", "OCall") and e.get("f"):
        return ("r", e["f"])
    return None


def alloc_form(e):
    """form of a fresh allocation, or None."""
    e = uncast(e)
    if e is None:
        return None
    if e["k"] == "New" and not e.get("place"):
        return "new[]" if e.get("arr") else "new"
    if e["k"] == "Call" and last(e) in ALLOC:
        return ALLOC[last(e)]
    return None


def elem_vars(f):
    """iterators and range variables -> slot of the elements they stand for."""
    r = {}
    for n in f.nodes():
        if n["k"] == "Var" and children(n) and "iterator" in n.get("t", ""):
            c = uncast(n["c"][0])
            while c is not None and c["k"] == "Ctor" and len(children(c)) == 1:
                c = uncast(children(c)[0])
            if c is not None and c["k"] == "MCall" and last(c) in ("begin", "end", "find", "rbegin"):
                b = slot(f, c["c"][0], r)
                if b is not None:
                    r[(f.key, n["d"])] = ("e", b)
        if n["k"] == "ForRange" and isinstance(n.get("var"), dict):
            b = slot(f, n["c"][0], r)
            if b is not None and "d" in n["var"]:
                r[(f.key, n["var"]["d"])] = ("e", b)
    return r


def forms(db, ctx, calls, fns):
    S = Slots()
    for f in fns:
        ev = elem_vars(f)

        def put(dst, src):
            src = uncast(src)
            if dst is None or src is None:
                return
            if src["k"] == "Cond":
                put(dst, src["c"][1])
                put(dst, src["c"][2])
                return
            if src["k"] in ("Bin", "CAssign") and src["op"] == "=":
                put(dst, src["c"][1])
                return
            a = alloc_form(src)
            if a:
                S.alloc.setdefault(S.find(dst), []).append((a, f, src))
                return
            s = slot(f, src, ev)
            if s is not None and isptr(src.get("t")):
                S.union(dst, s)
        for n in f.nodes():
            k = n["k"]
            if k == "Var" and children(n) and isptr(n.get("t")):
                put(("l", f.key, n["d"]), n["c"][0])
            elif k in ("Bin", "CAssign") and n["op"] == "=" and isptr(n["c"][0].get("t")):
                put(slot(f, n["c"][0], ev), n["c"][1])
            elif k == "Return" and children(n) and isptr(f.h.get("ret")):
                put(("r", f.key), n["c"][0])
            elif k in ("Call", "MCall", "Ctor"):
                for g in calls.targets(n):
                    if not project(g):
                        continue
                    args = children(n)[1:] if k == "MCall" else children(n)
                    for p, a in zip(g.h.get("params", []), args):
                        if a is not None and isptr(p.get("t")):
                            put(("l", g.key, p["d"]), a)
                if k == "MCall" and last(n) in ("push_back", "push", "push_front", "insert", "emplace_back") and len(children(n)) > 1 and isptr(children(n)[-1].get("t")):
                    b = slot(f, n["c"][0], ev)
                    if b is not None:
                        put(("e", b), children(n)[-1])
                if k == "MCall" and last(n) == "reset" and len(children(n)) == 2 and SMART.match(n["c"][0].get("t", "")) or k == "Ctor" and SMART.match(n.get("t", "")) and len(children(n)) == 1 and children(n)[0] is not None and isptr(children(n)[0].get("t")):
                    t = n["c"][0].get("t", "") if k == "MCall" else n["t"]
                    want = "new[]" if "_array" in t.split("<")[0] or re.search(r"unique_ptr<[^,]*\[\]|shared_ptr<[^,]*\[\]", t) else "new"
                    a = children(n)[-1]
                    ctx.ob()
                    ctx.count("allocations handed to owning pointers", 1)
                    al = alloc_form(a)
                    if al and al != want:
                        ctx.violate("form", f.loc(n), "%s gives memory allocated with %s to %s, which releases it with %s" % (f.name, al, base_type(t)[:60], GOOD[want]), "smart|%s|%s" % (short(f.name), render(a)[:60]))
                    s = slot(f, a, ev)
                    if s is not None and not al:
                        S.dealloc.setdefault(S.find(s), []).append((want, f, n))
            x = freed_arg(n)
            if x:
                s = slot(f, x[0], ev)
                if s is not None:
                    S.dealloc.setdefault(S.find(s), []).append((x[1], f, n))
        for i in f.inits:
            if i.get("field") and i.get("c") and i["c"][0] is not None:
                v = i["c"][0]
                m = ("m", i.get("f") or (f.h.get("clsp") or f.cls) + "::" + i["field"])
                rec = f.h.get("cls", "")
                m = ("m", rec + "::" + i["field"]) if not i.get("f") else m
                put(m, v)
    # union after the fact: alloc/dealloc lists were kept under representatives
    for m in (S.alloc, S.dealloc):
        for k in list(m):
            r = S.find(k)
            if r != k:
                m.setdefault(r, []).extend(m.pop(k))
    for r, ds in sorted(S.dealloc.items(), key=lambda kv: str(kv[0])):
        al = S.alloc.get(r, [])
        kinds = {a for a, _, _ in al}
        for form, f, n in ds:
            ctx.ob()
            ctx.count("releases", 1)
            if al and form not in kinds:
                a, g, x = al[0]
                ctx.violate("form", f.loc(n), "%s releases with %s what is allocated with %s at %s" % (f.name, GOOD[form], a, g.loc(x)), "rel|%s|%s" % (short(f.name), f.line))
        rel = {d for d, _, _ in ds}
        for a, g, x in al:
            ctx.ob()
            ctx.count("allocations whose release was found", 1)
            if a not in rel and kinds & rel:
                form, f, n = ds[0]
                ctx.violate("form", g.loc(x), "%s allocates with %s what %s releases with %s" % (g.name, a, f.name, GOOD[form]), "all|%s|%s" % (short(g.name), short(f.name)))
    return S


# ------------------------------------------------------------------------------------------------ once
def owns(db, fns, calls):
    """class -> {owned member: dtor}, members (or their elements) the destructor releases."""
    r = {}
    for f in fns:
        if not f.h.get("dtor"):
            continue
        todo, seen = [f], set()
        while todo:
            g = todo.pop()
            if g.key in seen:
                continue
            seen.add(g.key)
            al = {}
            for n in g.nodes():
                if n["k"] == "Var" and children(n) and (isptr(n["t"]) or "iterator" in n["t"] or n["t"].rstrip().endswith("&")):
                    p = member_of(n["c"][0], al)
                    if p:
                        al[n["d"]] = p
                if n["k"] == "ForRange" and isinstance(n.get("var"), dict):
                    p = member_of(n["c"][0], al)
                    if p and "d" in n["var"]:
                        al[n["var"]["d"]] = p
            for n in g.nodes():
                x = freed_arg(n)
                if x:
                    m = member_of(x[0], al)
                    if m:
                        r.setdefault(f.h["cls"], {})[m] = f
                if n["k"] == "MCall" and n.get("c") and n["c"][0] is not None and uncast(n["c"][0])["k"] == "This":
                    todo += [t for t in calls.targets(n) if project(t) and t.h.get("cls") == f.h["cls"]]
    return r


def member_of(e, al):
    """name of the own member an expression reaches into."""
    e = uncast(e)
    while e is not None:
        if e["k"] == "Mem":
            b = uncast(e["c"][0]) if e.get("c") else None
            if b is None or b["k"] == "This":
                return e["n"]
            e = b
        elif e["k"] == "Ref":
            return al.get(e.get("d"))
        elif e.get("c") and e["k"] in ("Sub", "OCall", "Un", "MCall", "Ctor"):
            e = uncast(e["c"][0])
        else:
            return None
    return None


class Once:
    def __init__(self, db, ctx, calls, fns, owned):
        self.db, self.ctx, self.calls, self.owned = db, ctx, calls, owned
        self.fns = fns
        self.flags = release_flags(fns, calls)
        self.frees, self.takes, self.leaves, self.other = {}, {}, {}, {}
        self.reported = set()

    # env: path -> value; freed: value -> ; given
    def val(self, st, p):
        return st[0].get(p, ("init", p))

    def expr_path(self, e, al):
        e = uncast(e)
        if e is None:
            return None
        if e["k"] == "MCall" and last(e) in ("get", "c_str", "data"):
            return None
        if e["k"] in ("Un",) and e["op"] == "&":
            return None
        if not isptr(e.get("t")):
            return None
        return path(e, al)

    def value_of(self, st, e, al):
        e = uncast(e)
        if e is None:
            return None
        if e["k"] == "New" or alloc_form(e):
            return ("alloc", e.get("i"))
        if e["k"] in ("Bin", "CAssign") and e["op"] == "=":
            return self.value_of(st, e["c"][1], al)
        p = self.expr_path(e, al)
        return self.val(st, p) if p else None

    @staticmethod
    def depends(p, q):
        """path p names another object once q is changed."""
        if p == q:
            return True
        return re.search(r"(^|[^\w#:.])%s(?![\w#])" % re.escape(q), p) is not None and p != q

    def kill(self, st, q, node, keep=False):
        """q was assigned: everything named through q means something else now."""
        env, freed, given, hollow = st
        ren = {}
        for p in {v[1] for v in list(env.values()) + list(freed) + list(given) if v[0] == "init"} | set(env):
            if p != q and self.depends(p, q):
                ren[("init", p)] = ("old", p, node)
        if keep:
            ren[("init", q)] = ("old", q, node)
        if not ren and q not in env:
            return st
        news = set(ren.values())
        freed = frozenset(ren.get(v, v) for v in freed if v not in news)
        given = frozenset(ren.get(v, v) for v in given if v not in news)
        e2 = {}
        for p, v in env.items():
            if p != q and self.depends(p, q):
                continue
            e2[p] = ren.get(v, v) if v not in news else ("lost", p)
        return (e2, freed, given, hollow)

    def run(self, f, report):
        g = cfg(f)
        al = {}
        for n in f.nodes():
            if n["k"] == "Var" and children(n) and n["t"].rstrip().endswith("&"):
                p = path(n["c"][0], al)
                if p:
                    al[n["d"]] = p
        ev = elem_roots(f, al)
        self.f, self.al, self.ev, self.report = f, al, ev, report
        self.viol = []
        self.loops = enclosing_loops(f)
        params = {"%s#%d" % (p["n"], p["d"]): k for k, p in enumerate(f.h.get("params", [])) if isptr(p.get("t")) and "*&" not in p["t"].replace(" ", "")}
        self.relevant = True
        if not any(freed_arg(n) or self.callee_effect(n) or self.giver(n) for n in f.nodes()):
            return

        def transfer(node, st):
            if node.kind == "rangedecl" and isinstance(node.ast, dict) and "d" in node.ast:
                # the loop variable of a range-for names another element on every turn
                v = node.ast
                p, i = "%s#%d" % (v.get("n", ""), v["d"]), node.extra.get("i")
                rp = path(node.extra["c"][0], self.al)
                for r, lp in st[3]:
                    if r == rp and lp != i and not self.inloop(node.extra, lp):
                        self.bad("once", node.extra, "%s uses elements of '%s' after releasing them in a loop" % (self.f.name, self.nice(r)), "elems|%s|%s" % (short(self.f.name), self.nice(r)))
                st = self.kill(st, p, i, keep=True)
                new = ("fresh", i)
                env2 = dict(st[0])
                env2[p] = new
                st = (env2, st[1] - {new}, st[2] - {new}, st[3])
            for e in self.exprs(node):
                st = self.step(e, st, node)
            return st

        def join(a, b):
            if a is b:
                return a
            env = {}
            fr, gv = set(a[1]) | set(b[1]), set(a[2]) | set(b[2])
            for p in set(a[0]) | set(b[0]):
                x, y = self.val(a, p), self.val(b, p)
                if x == y:
                    env[p] = x
                else:
                    v = ("phi", p)
                    env[p] = v
                    fr.discard(v)
                    gv.discard(v)
                    if x in a[1] or y in b[1]:
                        fr.add(v)
                    if x in a[2] or y in b[2]:
                        gv.add(v)
            return (env, frozenset(fr), frozenset(gv), a[3] | b[3])
        ins = g.forward(({}, frozenset(), frozenset(), frozenset()), transfer, join)
        out = ins.get(g.exit.id)
        if out is None:
            return
        env, freed, given, hollow = out
        fr, tk = set(), set()
        for p, k in params.items():
            if ("init", p) in freed:
                fr.add(k)
            if ("init", p) in given:
                tk.add(k)
        self.frees[f.key], self.takes[f.key] = fr, tk
        left = set()
        left_guard = flag_reset(f, g, self.flags.get(f.h.get("cls")))
        handles = {path(freed_arg(n)[0], al) for n in f.nodes() if freed_arg(n) and freed_arg(n)[1] in ("file", "gz", "pipe", "dir")}
        for v in freed:
            if v[0] == "init" and self.val(out, v[1]) == v and v[1] not in handles:
                left.add(v[1])
        for p, v in env.items():
            if v in freed:
                left.add(p)
        for h in hollow:
            left.add(h[0] + "[]")
        left = {p for p in left if p not in left_guard}
        self.leaves[f.key] = {p for p in left if p.startswith("this.") or p.startswith("::")}
        pl = {"%s#%d" % (p["n"], p["d"]) for p in f.h.get("params", [])}
        self.other[f.key] = {p for p in left if p.split(".")[0] in pl and "." in p and ("init", p.rsplit(".", 1)[0]) not in freed}

    def exprs(self, node):
        e = node.ast
        return [e] if e is not None and node.kind in ("expr", "decl", "init", "return") else []

    # -------------------------------------------------------------- effects of calls
    def callee_effect(self, n):
        if n["k"] not in ("Call", "MCall", "Ctor", "OCall"):
            return False
        for g in self.calls.targets(n):
            if self.frees.get(g.key) or self.takes.get(g.key) or self.leaves.get(g.key) and self.onthis(n):
                return True
        return False

    def onthis(self, n):
        return n["k"] == "MCall" and n.get("c") and uncast(n["c"][0]) is not None and uncast(n["c"][0])["k"] == "This"

    def giver(self, n):
        """expressions handed to an owner by n: [(expr, owner type)]."""
        k = n["k"]
        if k == "Ctor" and n.get("t") and (SMART.match(n["t"])) and children(n) and not n.get("copy") and not n.get("move"):
            a = children(n)[0]
            if a is not None and isptr(a.get("t")) and len([c for c in children(n) if c is not None]) == 1:
                return [(a, n["t"])]
        if k == "MCall" and last(n) == "reset" and len(children(n)) == 2 and n["c"][0] is not None and SMART.match(n["c"][0].get("t", "")):
            a = children(n)[1]
            if isptr(a.get("t")):
                return [(a, n["c"][0]["t"])]
        return []

    def bad(self, rule, n, msg, key):
        k = (rule, self.f.key, key)
        if k in self.reported or not self.report:
            return
        self.reported.add(k)
        self.ctx.violate(rule, self.f.loc(n), msg, key)

    def nice(self, p):
        return re.sub(r"#\d+", "", p or "?").replace("this.", "")

    def free(self, st, e, n, how):
        env, freed, given, hollow = st
        u = uncast(e)
        if u is not None and u["k"] == "MCall" and last(u) == "get" and (SMART.match(u["c"][0].get("t", "")) or INTRUSIVE.match(u["c"][0].get("t", ""))):
            self.bad("once", n, "%s releases the object %s owns" % (self.f.name, self.nice(render(u["c"][0]))), "get|%s|%s" % (short(self.f.name), self.nice(render(u["c"][0]))))
            return st
        if u is not None and u["k"] == "Un" and u["op"] == "&":
            self.bad("owner", n, "%s releases the address of '%s', which is not heap memory of its own" % (self.f.name, self.nice(render(u["c"][0]))), "addr|%s|%s" % (short(self.f.name), self.nice(render(u["c"][0]))))
            return st
        v = self.value_of(st, e, self.al)
        if v is None:
            return st
        if self.report:
            self.ctx.ob()
            self.ctx.count("release points followed", 1)
        p = self.expr_path(e, self.al)
        if v in freed:
            self.bad("once", n, "%s releases '%s' again (%s)" % (self.f.name, self.nice(p), how), "twice|%s|%s" % (short(self.f.name), self.nice(p)))
        if v in given:
            self.bad("once", n, "%s releases '%s', which an owning pointer releases already" % (self.f.name, self.nice(p)), "given|%s|%s" % (short(self.f.name), self.nice(p)))
        hollow = set(hollow)
        r = self.container(e)
        if r is not None:
            lp = self.loops.get(n.get("i"))
            if lp is not None:
                hollow.add((r, lp))
        return (env, freed | {v}, given, frozenset(hollow))

    def container(self, e):
        """path of the container an element expression is taken from."""
        u = uncast(e)
        if u is None:
            return None
        while u is not None and u["k"] == "Mem" and u["n"] in ("first", "second"):
            u = uncast(u["c"][0])
        if u is None:
            return None
        if u["k"] in ("Sub",) or u["k"] == "OCall" and u["op"] == "[]":
            return path(u["c"][0], self.al)
        if u["k"] in ("OCall", "Un") and u["op"] in ("*", "->"):
            u = uncast(children(u)[0])
        if u is not None and u["k"] == "Ref" and "d" in u:
            return self.ev.get(u["d"])
        return None

    def use(self, st, e, n, what):
        env, freed, given, hollow = st
        p = self.expr_path(e, self.al)
        if p is None:
            return
        v = self.val(st, p)
        if v in freed:
            self.bad("once", n, "%s uses '%s' (%s) after it was released" % (self.f.name, self.nice(p), what), "use|%s|%s" % (short(self.f.name), self.nice(p)))

    def step(self, e, st, node):
        f = self.f
        for n in ([e] if e["k"] == "Return" else evalorder(e)):
            k = n["k"]
            env, freed, given, hollow = st
            if hollow and k in ("Sub", "OCall", "MCall", "ForRange"):
                self.hollow_use(n, st)
            x = freed_arg(n)
            if x:
                st = self.free(st, x[0], n, "released before")
                continue
            if k == "Un" and n["op"] == "*" or k == "Mem" and n.get("a") or k == "Sub":
                self.use(st, n["c"][0], n, "dereferences it")
            if k == "Return" and children(n):
                self.use(st, n["c"][0], n, "returns it")
            if k == "New" and not n.get("place") or alloc_form(n):
                v = ("alloc", n.get("i"))
                if v in freed or v in given:
                    st = (env, freed - {v}, given - {v}, hollow)
            if k in ("Call", "MCall", "Ctor", "OCall"):
                st = self.call(n, st)
            env, freed, given, hollow = st
            if k in ("Bin", "CAssign") and n["op"] == "=":
                st = self.assign(st, n["c"][0], n["c"][1], n)
            elif k == "CAssign" or k == "Un" and n["op"] in ("++", "--"):
                p = path(n["c"][0], self.al)
                if p:
                    st = self.kill(st, p, n.get("i"), keep=True)
                    st[0].pop(p, None)
            elif k == "OCall" and n["op"] in ("=", "++", "--", "+=", "-=") and n.get("c"):
                p = path(n["c"][0], self.al)
                if p:
                    st = self.kill(st, p, n.get("i"), keep=True)
                    st[0].pop(p, None)
                    st = self.refill(st, p)
            elif k == "Var":
                p = "%s#%d" % (n["n"], n["d"])
                st = self.kill(st, p, n.get("i"), keep=True)
                env2 = dict(st[0])
                env2.pop(p, None)
                if children(n) and isptr(n.get("t")):
                    v = self.value_of(st, n["c"][0], self.al)
                    env2[p] = v if v is not None else ("fresh", n.get("i"))
                st = (env2,) + st[1:]
                v = env2.get(p)
                if v is not None and v[0] == "fresh":
                    st = (env2, st[1] - {v}, st[2] - {v}, st[3])
        return st

    def refill(self, st, p):
        h = frozenset(x for x in st[3] if not (x[0] == p or p.startswith(x[0] + "[") or x[0].startswith((p + "[", p + "."))))
        return st[:3] + (h,)

    def assign(self, st, l, r, n):
        p = path(l, self.al)
        if p is None:
            return st
        v = self.value_of(st, r, self.al) if isptr(l.get("t")) else None
        st = self.kill(st, p, n.get("i"), keep=True)
        if v is not None and v[0] == "init" and (v[1] == p or self.depends(v[1], p)):
            v = ("old", v[1], n.get("i"))
        env = dict(st[0])
        env[p] = v if v is not None else ("fresh", n.get("i"))
        fr, gv = st[1], st[2]
        if env[p][0] == "fresh":
            fr, gv = fr - {env[p]}, gv - {env[p]}
        st = (env, fr, gv, st[3])
        st = self.refill(st, p)
        c = self.container(l)
        if c:
            st = self.refill(st, c)
        if isptr(l.get("t")) and v is not None and v in fr and self.report:
            self.bad("once", n, "%s stores '%s' after releasing it" % (self.f.name, self.nice(render(uncast(r)))), "store|%s|%s" % (short(self.f.name), self.nice(p)))
        return st

    def hollow_use(self, n, st):
        if n["k"] == "MCall":
            if not n.get("c") or n["c"][0] is None:
                return
            b, op = n["c"][0], last(n)
        elif n["k"] == "OCall" and n["op"] == "[]" or n["k"] == "Sub":
            b, op = n["c"][0], "[]"
        else:
            return
        p = path(b, self.al)
        for r, lp in st[3]:
            if p == r and op in ("[]", "begin", "back", "front", "at", "find") and not self.inloop(n, lp):
                self.bad("once", n, "%s uses elements of '%s' after releasing them in a loop" % (self.f.name, self.nice(r)), "elems|%s|%s" % (short(self.f.name), self.nice(r)))

    def inloop(self, n, lp):
        return n.get("i") in self.loop_nodes(lp)

    def loop_nodes(self, lp):
        c = getattr(self, "_ln", None)
        if c is None or c[0] != self.f.key:
            c = self._ln = (self.f.key, {})
        if lp not in c[1]:
            for n in self.f.nodes():
                if n.get("i") == lp:
                    c[1][lp] = {x.get("i") for x in walk(n)}
        return c[1].get(lp, set())

    def call(self, n, st):
        k = n["k"]
        for a, t in self.giver(n):
            u = uncast(a)
            if self.report:
                self.ctx.ob()
                self.ctx.count("pointers handed to owners", 1)
            if u["k"] == "This" or u["k"] == "Un" and u["op"] == "&":
                self.bad("owner", n, "%s gives '%s' to an owning pointer although it is not heap memory of its own" % (self.f.name, self.nice(render(u))), "give|%s|%s" % (short(self.f.name), self.nice(render(u))))
                continue
            if u["k"] == "MCall" and last(u) in ("get", "c_str", "data"):
                self.bad("owner", n, "%s gives '%s', which has an owner, to a second one" % (self.f.name, self.nice(render(u))), "give|%s|%s" % (short(self.f.name), self.nice(render(u))))
                continue
            v = self.value_of(st, a, self.al)
            if v is None:
                continue
            if v in st[2]:
                self.bad("owner", n, "%s gives '%s' to a second owning pointer" % (self.f.name, self.nice(render(u))), "give2|%s|%s" % (short(self.f.name), self.nice(render(u))))
            if v in st[1]:
                self.bad("once", n, "%s gives '%s' to an owning pointer after releasing it" % (self.f.name, self.nice(render(u))), "give3|%s|%s" % (short(self.f.name), self.nice(render(u))))
            st = (st[0], st[1], st[2] | {v}, st[3])
        nm = last(n)
        args = children(n)
        tg = [t for t in self.calls.targets(n)]
        if k == "MCall" and n.get("c") and n["c"][0] is not None:
            obj = n["c"][0]
            if isptr(uncast(obj).get("t")):
                self.use(st, obj, n, "calls %s on it" % nm)
            p = path(obj, self.al)
            if p and nm in EMPTY:
                st = self.kill(st, p, n.get("i"))
                st = self.refill(st, p)
                env = {q: v for q, v in st[0].items() if not q.startswith(p + "[")}
                fr = frozenset(v for v in st[1] if not (v[0] == "init" and v[1].startswith(p + "[")))
                gv = frozenset(v for v in st[2] if not (v[0] == "init" and v[1].startswith(p + "[")))
                st = (env, fr, gv, st[3])
        for j, a in enumerate(args):
            if a is None or k == "MCall" and j == 0 or k == "OCall":
                continue
            if isptr(uncast(a).get("t")) and not self.giver(n):
                if freed_arg(n) is None:
                    self.use(st, a, n, "passes it to %s" % nm)
        # pointers passed by reference and unknown effects on members: forget
        for t in tg:
            ps = t.h.get("params", [])
            av = args[1:] if k == "MCall" else args
            fr, tk = self.frees.get(t.key, ()), self.takes.get(t.key, ())
            for j in set(fr) | set(tk):
                if j < len(av) and av[j] is not None:
                    if j in fr:
                        st = self.free(st, av[j], n, "%s releases it" % short(t.name))
                    else:
                        v = self.value_of(st, av[j], self.al)
                        if v is not None:
                            if v in st[2]:
                                self.bad("owner", n, "%s gives '%s' to a second owner in %s" % (self.f.name, self.nice(render(uncast(av[j]))), short(t.name)), "give4|%s|%s" % (short(self.f.name), self.nice(render(uncast(av[j])))))
                            st = (st[0], st[1], st[2] | {v}, st[3])
            for j, p in enumerate(ps):
                if j < len(av) and av[j] is not None and p["t"].rstrip().endswith("&") and not p["t"].startswith("const "):
                    q = path(av[j], self.al)
                    if q:
                        st = self.kill(st, q, n.get("i"), keep=True)
                        st[0].pop(q, None)
                        st = self.refill(st, q)
            if self.onthis(n) and project(t):
                lv = self.leaves.get(t.key, ())
                w = assigned_members(t, self.calls)
                env = dict(st[0])
                for q in list(env):
                    if q.startswith("this.") and q.split(".")[1].split("[")[0] in w and q not in lv:
                        del env[q]
                fr = frozenset(v for v in st[1] if not (v[0] == "init" and v[1].startswith("this.") and v[1].split(".")[1].split("[")[0] in w))
                hol = frozenset(h for h in st[3] if not (h[0].startswith("this.") and h[0].split(".")[1] in w))
                st = (env, fr, st[2], hol)
                for q in lv:
                    if q.endswith("[]"):
                        st = st[:3] + (st[3] | {(q[:-2], n.get("i"))},)
                    else:
                        v = self.val(st, q)
                        if v[0] == "phi":
                            v = ("init", q)
                            env = dict(st[0])
                            env.pop(q, None)
                            st = (env,) + st[1:]
                        st = (st[0], st[1] | {v}, st[2], st[3])
        return st


_AM = {}


def guard_members(f, g, node):
    return {q for e, pol, a in g.assumes(node) for y in walk(e) if y["k"] == "Mem" for q in [path(y)] if q and q.startswith("this.")}


def release_flags(fns, calls):
    """class -> members its destructor consults before it releases something."""
    r = {}
    for f in fns:
        if not f.h.get("dtor"):
            continue
        fl = r.setdefault(f.h["cls"], set())
        todo, seen = [(f, set())], set()
        while todo:
            h, fl0 = todo.pop()
            if h.key in seen:
                continue
            seen.add(h.key)
            g = cfg(h)
            for node in g.nodes:
                if node.ast is None or node.kind not in ("expr", "decl", "init"):
                    continue
                for n in evalorder(node.ast):
                    if freed_arg(n):
                        fl |= fl0 | guard_members(h, g, node)
                    if n["k"] == "MCall" and n.get("c") and n["c"][0] is not None and uncast(n["c"][0])["k"] == "This":
                        for t in calls.targets(n):
                            if project(t):
                                todo.append((t, fl0 | guard_members(h, g, node)))
    return r


def flag_reset(f, g, known):
    """paths released under a test of flags or sizes of the object that are assigned afterwards: the object knows."""
    al = ref_aliases(f)
    out = set()
    for node in g.nodes:
        if node.ast is None or node.kind not in ("expr", "decl", "init"):
            continue
        for n in evalorder(node.ast):
            x = freed_arg(n)
            if not x:
                continue
            p = path(x[0], al)
            if p is None:
                continue
            flags = set()
            for e, pol, a in g.assumes(node):
                for y in walk(e):
                    if y["k"] == "Mem":
                        q = path(y)
                        if q and q.startswith("this.") and not p.startswith(q) and (known is None or q in known):
                            flags.add(q)
            if not flags:
                continue
            # some flag is assigned on every path from the release to the end
            seen, st, ok = set(), list(node.succ), True
            while st:
                m = st.pop()
                if m.id in seen:
                    continue
                seen.add(m.id)
                if m is g.exit:
                    ok = False
                    break
                if m.ast is not None and m.kind in ("expr", "decl", "init") and any(y["k"] in ("Bin", "CAssign") and y["op"] == "=" and path(y["c"][0]) in flags for y in evalorder(m.ast)):
                    continue
                st += list(m.succ)
            if ok:
                out.add(p)
    return out


def assigned_members(f, calls, depth=3):
    if f.key in _AM:
        return _AM[f.key]
    _AM[f.key] = set()
    r = set()
    for n in f.nodes():
        if n["k"] in ("Bin", "CAssign", "OCall") and n.get("op") == "=":
            m = member_of(n["c"][0], {})
            if m:
                r.add(m)
        if n["k"] == "MCall" and n.get("c") and n["c"][0] is not None:
            if last(n) in EMPTY | {"push_back", "insert", "reset"}:
                m = member_of(n["c"][0], {})
                if m:
                    r.add(m)
            if uncast(n["c"][0])["k"] == "This" and depth:
                for t in calls.targets(n):
                    if project(t):
                        r |= assigned_members(t, calls, depth - 1)
    _AM[f.key] = r
    return r


def elem_roots(f, al):
    r = {}
    for n in f.nodes():
        if n["k"] == "Var" and children(n) and "iterator" in n.get("t", ""):
            c = uncast(n["c"][0])
            while c is not None and c["k"] == "Ctor" and len(children(c)) == 1:
                c = uncast(children(c)[0])
            if c is not None and c["k"] == "MCall" and last(c) in ("begin", "rbegin"):
                p = path(c["c"][0], al)
                if p:
                    r[n["d"]] = p
        if n["k"] == "ForRange" and isinstance(n.get("var"), dict) and "d" in n["var"]:
            p = path(n["c"][0], al)
            if p:
                r[n["var"]["d"]] = p
    return r


def enclosing_loops(f):
    r = {}

    def go(n, lp):
        if not isinstance(n, dict):
            return
        if n["k"] in ("For", "While", "Do", "ForRange"):
            lp = lp or n.get("i")
        if "i" in n:
            r[n["i"]] = lp
        for c in n.get("c", []) or []:
            if c is not None:
                go(c, lp)
    go(f.body, None)
    return r


# ------------------------------------------------------------------------------------------------ copied
def copied(db, ctx, fns, owned):
    shallow = {}
    for cls, ms in owned.items():
        r = db.recs.get(cls)
        if r is None:
            continue
        ctx.ob()
        ctx.count("classes whose destructor releases memory", 1)
        if r.get("nocopy") or any("noncopyable" in b for b in r.get("bases", [])):
            continue
        shallow[cls] = (set() if r.get("ucopy") else {"copy"}) | (set() if r.get("uassign") else {"assign"})
        ctx.sample("%s releases %s" % (cls[:80], ", ".join(sorted(ms))), 12)
        for f in fns:
            if f.h.get("cls") != cls:
                continue
            if f.h.get("copy") and r.get("ucopy"):
                o = f.h["params"][0]
                for i in f.inits:
                    if i.get("field") in ms and i.get("c") and i["c"][0] is not None:
                        u = uncast(i["c"][0])
                        if u["k"] == "Mem" and u["n"] == i["field"] and isptr(u.get("t")):
                            ctx.violate("copied", f.loc(u), "%s copies the pointer '%s' that the destructor releases" % (f.name, i["field"]), "ctor|%s|%s" % (cls, i["field"]))
        for f in fns:
            if f.h.get("cls") != cls or not (f.h.get("copy") or f.h.get("op") == "=" or f.name.endswith("operator=")) or not f.h.get("params"):
                continue
            o = "%s#%d" % (f.h["params"][0]["n"], f.h["params"][0]["d"])
            if cls.split("<")[0].split("::")[-1] not in f.h["params"][0]["t"]:
                continue
            fresh = set()
            for n in f.nodes():
                if n["k"] == "Bin" and n["op"] == "=" and (alloc_form(n["c"][1]) or alloc_form(uncast(n["c"][1]))):
                    m = member_of(n["c"][0], {})
                    if m:
                        fresh.add(m)
            nulled = {path(n["c"][0]) for n in f.nodes() if n["k"] == "Bin" and n["op"] == "=" and (path(n["c"][0]) or "").startswith(o + ".")}
            for n in f.nodes():
                ctx.ob()
                if n["k"] == "Bin" and n["op"] == "=" and isptr(n["c"][0].get("t")):
                    l, rr = path(n["c"][0]), path(n["c"][1])
                    if l and rr and l.startswith("this.") and rr == o + l[4:] and l.split(".")[1] in ms and rr not in nulled:
                        ctx.violate("copied", f.loc(n), "%s copies the pointer '%s' that the destructor releases" % (f.name, l[5:]), "eq|%s|%s" % (cls, l[5:]))
                if n["k"] == "Call" and last(n) in ("memcpy", "memmove"):
                    d, sr = children(n)[0], children(n)[1]
                    whole = uncast(d)["k"] == "This" or uncast(d)["k"] == "Un" and uncast(d)["op"] == "&" and member_of(uncast(d)["c"][0], {}) in ms
                    ps = path(sr)
                    if whole and ps and (ps == o or ps.startswith(o + ".")) and not (set(ms) if uncast(d)["k"] == "This" else {member_of(uncast(d)["c"][0], {})}) <= fresh:
                        ctx.violate("copied", f.loc(n), "%s copies the bytes of another object, with pointers that its destructor releases, and does not replace them" % f.name, "mem|%s|%s" % (cls, short(f.name)))
    ch = True
    while ch:
        ch = False
        for name, r in db.recs.items():
            if name.endswith("#dep") or r.get("nocopy"):
                continue
            for kind, flag in (("copy", "ucopy"), ("assign", "uassign")):
                if r.get(flag) or kind in shallow.get(name, ()):
                    continue
                vals = [base_type(x["t"]) for x in r.get("fields", []) if not isptr(x["t"]) and not x["t"].rstrip().endswith("&")] + list(r.get("bq", []))
                if any(kind in shallow.get(t, ()) for t in vals):
                    shallow.setdefault(name, set()).add(kind)
                    ch = True
    held = re.compile(r"std::(?:vector|deque|list|map|set|unordered_map|pair)<")
    for f in fns:
        for n in f.nodes():
            if n["k"] == "Ctor" and n.get("copy"):
                t = base_type(n.get("t", ""))
                if "copy" in shallow.get(t, ()):
                    ctx.violate("copied", f.loc(n), "%s copies a %s member by member, although its destructor releases memory: two owners" % (f.name, t[:60]), "copy|%s|%s" % (short(f.name), t))
            if n["k"] in ("OCall", "MCall", "Bin") and (n.get("op") == "=" or last(n) == "operator=") and n.get("c") and n["c"][0] is not None:
                t = base_type(n["c"][0].get("t", ""))
                if "assign" in shallow.get(t, ()):
                    src = children(n)[-1]
                    if not isptr(n["c"][0].get("t", "")):
                        ctx.violate("copied", f.loc(n), "%s assigns a %s member by member, although its destructor releases memory: two owners" % (f.name, t[:60]), "assign|%s|%s" % (short(f.name), t))
            if n["k"] == "MCall" and n.get("c") and n["c"][0] is not None and last(n) in ("push_back", "resize", "insert", "reserve", "assign", "push_front", "emplace_back", "erase"):
                t = n["c"][0].get("t", "")
                m = re.match(r"(?:const )?std::(vector|deque|list|set|unordered_set)<([\w:]+(?:<[^<>]*>)?)[,>]", t)
                if m and "copy" in shallow.get(m.group(2), ()):
                    if last(n) in ("resize", "reserve", "emplace_back") and m.group(1) != "vector":
                        continue
                    ctx.violate("copied", f.loc(n), "%s: a container of %s copies its elements, although their destructor releases memory" % (f.name, m.group(2)[:60]), "cont|%s|%s" % (short(f.name), m.group(2)))
    return shallow


# ------------------------------------------------------------------------------------------------ room
def pointee(e):
    """pointee type of an expression before conversions to void*."""
    while e is not None and e["k"] in ("ICast", "Cast", "Paren") and e.get("c"):
        e = e["c"][0]
    t = (e or {}).get("t", "").strip()
    t = re.sub(r"\s*const$", "", t.rstrip("&").strip())
    if t.endswith("*"):
        return re.sub(r"^(const |volatile )+", "", t[:-1].strip()).removesuffix(" const").strip()
    m = re.match(r"(?:const )?(.*?)\s*\[\d*\]", t)
    return m.group(1).strip() if m else None


def sizeofs(e):
    return [x for x in walk(e) if x["k"] == "Sizeof" and x.get("at")]


def linear_len(e):
    """(text of a length, constant) for strlen(x)+k, s.size()+k."""
    e = uncast(e)
    if e is None:
        return None
    c = is_const(e)
    if c is not None:
        return ("", c)
    if e["k"] == "Sizeof":
        return ("", 1) if "char" in (e.get("at") or "") else None
    if e["k"] == "Bin" and e["op"] in ("+", "-"):
        a, b = linear_len(e["c"][0]), linear_len(e["c"][1])
        if a is None or b is None:
            return None
        if e["op"] == "-":
            return (a[0], a[1] - b[1]) if not b[0] else None
        if a[0] and b[0]:
            return ("+".join(sorted((a[0], b[0]))), a[1] + b[1])
        return (a[0] or b[0], a[1] + b[1])
    if e["k"] == "Bin" and e["op"] == "*":
        a, b = linear_len(e["c"][0]), linear_len(e["c"][1])
        if b == ("", 1):
            return a
        if a == ("", 1):
            return b
        return None
    if e["k"] == "Call" and last(e) == "strlen":
        u = children(e)[0]
        return (textof(u), 0)
    if e["k"] == "MCall" and last(e) in ("size", "length") and "string" in e["c"][0].get("t", ""):
        return (textof(e["c"][0]), 0)
    return None


def textof(e):
    e = uncast(e)
    if e["k"] == "MCall" and last(e) in ("c_str", "data"):
        e = uncast(e["c"][0])
    if e["k"] == "Str":
        return "\"" + str(e.get("v"))
    return render(e)


def fixed_room(ctx, f):
    """an array of a fixed number of elements does not receive a variable number of them."""
    news = [n for n in f.nodes() if n["k"] == "Bin" and n["op"] == "=" and uncast(n["c"][1])["k"] == "New" and uncast(n["c"][1]).get("arr")]
    if not news:
        return
    g = cfg(f)
    for w in news:
        p, cnt = path(w["c"][0]), uncast(uncast(w["c"][1])["c"][0])
        o = g.owner.get(w["i"])
        if not p or o is None:
            continue
        k = is_const(cnt)
        if k is None and cnt["k"] in ("Mem", "Ref"):
            cp = path(cnt)
            for d in g.dominators(o):
                a = d.ast
                if d.kind == "expr" and a is not None and a["k"] == "Bin" and a["op"] == "=" and path(a["c"][0]) == cp:
                    k = is_const(a["c"][1])
                    break
        if k is None:
            continue
        for n in f.nodes():
            if n["k"] == "Call" and last(n) in ("memcpy", "memmove") and len(children(n)) == 3 and path(children(n)[0]) == p:
                m = g.owner.get(n["i"])
                if m is None or o not in g.dominators(m):
                    continue
                z = uncast(children(n)[2])
                var = [x for x in walk(z) if x["k"] in ("Mem", "Ref", "MCall") and is_const(x) is None]
                names, ok = {render(uncast(v)) for v in var}, not var
                for d in g.dominators(m):
                    a = d.ast
                    if d.kind == "assume" and any(v in render(a) for v in names):
                        ok = True
                    if ok or d.kind == "expr" and a is not None and a["k"] == "Bin" and a["op"] == "=" and render(uncast(a["c"][0])) in names:
                        break
                ctx.ob(ok)
                ctx.count("sizes of buffers and block operations", 1)
                if not ok:
                    ctx.violate("room", f.loc(n), "%s copies %s bytes into an array of %d elements" % (f.name, render(z), k), "fixed|%s|%s" % (short(f.name), p))


def room(db, ctx, fns):
    for f in fns:
        fixed_room(ctx, f)
    for f in fns:
        allocs = {}
        for n in f.nodes():
            dst = src = None
            if n["k"] == "Var" and children(n):
                dst, src = "%s#%d" % (n["n"], n["d"]), uncast(n["c"][0])
            elif n["k"] in ("Bin",) and n["op"] == "=":
                dst, src = path(n["c"][0]), uncast(n["c"][1])
            if dst and src is not None:
                if src["k"] == "New" and src.get("arr") and (src.get("at") or "") == "char":
                    allocs.setdefault(dst, []).append((src["c"][0], n))
                elif src["k"] == "Call" and last(src) == "malloc":
                    allocs.setdefault(dst, []).append((children(src)[0], n))
        for n in f.nodes():
            if n["k"] != "Call":
                # a cast of malloc decides the type
                if n["k"] == "Cast" and n.get("c"):
                    u = n["c"][0]
                    while u is not None and u["k"] == "ICast":
                        u = u["c"][0]
                    if u is not None and u["k"] == "Call" and last(u) in ("malloc", "calloc", "realloc"):
                        t = (n.get("t") or "").strip()
                        want = re.sub(r"^(struct |class )", "", t[:-1].strip()) if t.endswith("*") else None
                        for s in sizeofs(u):
                            ctx.ob()
                            ctx.count("sizes of buffers and block operations", 1)
                            if want and re.sub(r"^(struct |class )", "", s["at"]) != want and want not in ("void",):
                                ctx.violate("room", f.loc(u), "%s allocates sizeof(%s) for a pointer to %s" % (f.name, s["at"], want), "alloc|%s|%s" % (short(f.name), want))
                continue
            nm = last(n)
            a = children(n)
            if nm in ("memcpy", "memmove", "memset", "memcmp") and len(a) == 3:
                for s in sizeofs(a[2]):
                    ctx.ob()
                    ctx.count("sizes of buffers and block operations", 1)
                    for x in (a[:1] if nm == "memset" else a[:2]):
                        p = pointee(x)
                        at = re.sub(r"^(struct |class |const )", "", s["at"])
                        if p is None or p in ("void", "char", "unsigned char", "signed char", "uint8_t"):
                            continue
                        p = re.sub(r"^(struct |class |const )", "", p)
                        m = re.match(r"(.*?)\s*\[\d+\]", at)
                        el = m.group(1).strip() if m else at
                        if p == at or p == el or re.sub(r"\s*\[.*", "", p) == el:
                            continue
                        if not size_of(db, p) or not size_of(db, at) or size_of(db, p) == size_of(db, at):
                            continue
                        if re.search(r"void|char", at) and size_of(db, at) == 1:
                            continue
                        ctx.violate("room", f.loc(n), "%s: %s over %s counts in sizeof(%s)" % (f.name, nm, p, s["at"]), "block|%s|%s|%s" % (short(f.name), nm, p))
            if nm in ("strcpy", "strcat", "sprintf", "sscanf", "fscanf", "strncat"):
                for x in (a[2:] if nm in ("sscanf", "fscanf") else a[:1]):
                    for sz, at in allocs.get(path(x) or "?", []):
                        L = linear_len(sz)
                        ctx.ob()
                        ctx.count("sizes of buffers and block operations", 1)
                        if L is not None and L[0] and L[1] < 1:
                            ctx.violate("room", f.loc(at), "%s allocates '%s' without room for the terminator %s writes" % (f.name, re.sub(r"#\d+", "", path(x)), nm), "nul|%s|%s" % (short(f.name), re.sub(r"#\d+", "", path(x))))
            if nm in ("strcpy",) and len(a) == 2:
                d = path(a[0])
                for sz, at in allocs.get(d, []):
                    L = linear_len(sz)
                    src = uncast(a[1])
                    need = ("", len(src.get("v", "")) + 1) if src["k"] == "Str" else (textof(src), 1)
                    ctx.ob()
                    if L is None:
                        continue
                    ctx.count("sizes of buffers and block operations", 1)
                    if L[0] == need[0] and L[1] < need[1]:
                        ctx.violate("room", f.loc(n), "%s copies %s with its terminator into a buffer of %s%+d bytes" % (f.name, re.sub(r"#\d+", "", need[0] or src.get("v", "")), re.sub(r"#\d+", "", L[0]) + " length" if L[0] else "", L[1]), "str|%s|%s" % (short(f.name), re.sub(r"#\d+", "", d)))


SZ = {"char": 1, "bool": 1, "short": 2, "unsigned short": 2, "int": 4, "unsigned int": 4, "unsigned": 4, "float": 4, "long": 8, "unsigned long": 8, "double": 8, "long long": 8, "unsigned long long": 8, "unsigned char": 1, "signed char": 1}


def size_of(db, t):
    t = t.strip()
    if t.endswith("*"):
        return 8
    if t in SZ:
        return SZ[t]
    r = db.recs.get(t)
    return r.get("size") if r else None


def run(db, ctx):
    ctx.rule("form", "memory is released in the form it was allocated in (new/delete, new[]/delete[], malloc/free, fopen/fclose)")
    ctx.rule("once", "nothing is released twice, used after its release, or left dangling in a member, a global or a container")
    ctx.rule("owner", "an owning pointer gets memory that nobody else releases")
    ctx.rule("copied", "an object that releases memory in its destructor is never copied member by member")
    ctx.rule("room", "allocations and block operations are sized for the type and text they hold")
    calls = Calls(db)
    fns = [f for f in db.fns.values() if project(f) and f.body is not None]
    ctx.count("functions analysed", len(fns))
    forms(db, ctx, calls, fns)
    owned = owns(db, fns, calls)
    o = Once(db, ctx, calls, fns, owned)
    cand = {f.key for f in fns if any(freed_arg(n) or o.giver(n) for n in f.nodes())}
    for rnd in range(4):
        before = (dict(o.frees), dict(o.takes), {k: set(v) for k, v in o.leaves.items()})
        for f in fns:
            if f.key in cand or any(o.callee_effect(n) for n in f.nodes()):
                cand.add(f.key)
                o.run(f, False)
        if before == (o.frees, o.takes, o.leaves):
            break
    callers = {}
    for f in fns:
        for n in f.nodes():
            for t in calls.targets(n):
                if o.leaves.get(t.key):
                    callers.setdefault(t.key, []).append((f, n))
    for f in fns:
        if f.key in cand:
            o.run(f, True)
            ctx.count("functions that release or hand over memory", 1)
    for f in fns:
        for p in sorted(o.other.get(f.key, ())):
            ctx.violate("once", "%s:%s" % (f.file, f.line), "%s releases %s and leaves it dangling" % (f.name, o.nice(p)), "arg|%s|%s" % (short(f.name), o.nice(p)))
        lv = o.leaves.get(f.key)
        if not lv or f.h.get("dtor"):
            continue
        cs = callers.get(f.key, [])
        ctx.ob()
        if cs and all(o.onthis(n) for g, n in cs):
            continue
        lv = {p for p in lv if not p.startswith("::")} or lv
        if f.file.startswith("training/utils/sentserver") or all(p.startswith("::") for p in lv):
            continue
        ctx.violate("once", "%s:%s" % (f.file, f.line), "%s releases %s and leaves it dangling" % (f.name, ", ".join(sorted(o.nice(p) for p in lv))), "left|%s|%s" % (short(f.name), ",".join(sorted(o.nice(p) for p in lv))))
    copied(db, ctx, fns, owned)
    room(db, ctx, fns)
    ctx.floor("functions that release or hand over memory", ctx.counts.get("functions that release or hand over memory", 0), 30)
