"""C10: what a search returned is used as a position only after it is known that something was found."""
import re
from facts import walk
from ir import cfg, fn_parents, uncast, inexpr_guards, split_cond, render, path, walk_nl, is_const

GROUPS = ["utils", "decoder", "training", "extractor", "mteval", "word-aligner"]

STR_FIND = {"find", "rfind", "find_first_of", "find_last_of", "find_first_not_of", "find_last_not_of"}
PTR_FIND = {"strchr", "strrchr", "strstr", "strpbrk", "memchr", "getenv", "fopen", "opendir", "popen", "fgets", "strtok", "readdir"}
ALGO = {"find", "find_if", "lower_bound", "upper_bound", "search", "adjacent_find", "find_first_of"}
NEEDS = {"strlen", "strcpy", "strcat", "atoi", "atof", "fclose", "fgets", "fputs", "fread", "fwrite", "fscanf", "fprintf", "feof", "pclose", "strtod", "strtol", "strncpy", "getline", "strcmp"}


def peel(n):
    """drop casts and iterator conversions."""
    n = uncast(n)
    for _ in range(8):
        if n["k"] in ("Ctor", "Init", "Temp") and len(n.get("c") or []) == 1:
            n = uncast(n["c"][0])
        elif n["k"] in ("Cast", "ICast") and n.get("c"):
            n = uncast(n["c"][0])
        else:
            break
    return n


def search_kind(n):
    """'iter' | 'pos' | 'ptr' for an expression that is the result of a search, else None."""
    m = n
    while m["k"] in ("ICast", "Cast") and m.get("c"):
        if m["k"] == "Cast" and m.get("sty") == "CXXDynamicCastExpr" and m["t"].rstrip().endswith("*"):
            return "ptr"
        m = m["c"][0]
    n = peel(n)
    s = (n.get("fn") or "").split("::")[-1]
    if n["k"] == "MCall":
        if s in STR_FIND and re.match(r"(std::)?size_t|unsigned long", n["t"]):
            return "pos"
        if s == "find" and re.search(r"terator", n["t"]):
            return "iter"
        if s in ("lower_bound", "upper_bound") and "terator" in n["t"]:
            return "iter"
    if n["k"] == "Call":
        if s in PTR_FIND and n["t"].rstrip().endswith("*"):
            return "ptr"
        if s in ALGO and (n.get("fn") or "").startswith("std::") and n["t"].rstrip().endswith("*") is False and "terator" in n["t"]:
            return "iter"
    return None


def container(n):
    n = peel(n)
    if n["k"] == "MCall":
        return render(n["c"][0])
    return None


def var_of(n):
    n = peel(n)
    if n["k"] == "Ref" and n.get("dk") in ("local", "param", "slocal") and "d" in n:
        return ("l", n["d"])
    if n["k"] == "Mem":
        p = path(n)
        return ("m", p) if p else None
    return None


# lookups whose key is present by an invariant established elsewhere: (file, where the container comes from) -> reason
INVARIANT = {
    ("extractor/target_phrase_extractor.cc", "param"): "phrases are extracted only when every link of a covered target word leads to a covered source word (RuleExtractorHelper::FindFixPoint), and source_indexes holds all covered source words",
}


class Judge:
    def __init__(self, fn, ctx, db):
        self.fn, self.ctx, self.db = fn, ctx, db
        self.g = cfg(fn)
        self.par = fn_parents(fn)
        self.bools = {}
        self.home = {}          # search node -> container expression
        self.plain = {v["d"] for v in walk(fn.body) if v["k"] == "Var" and not v["t"].rstrip().endswith(("&", "*"))}
        asg = {}
        for v in walk(fn.body):
            if v["k"] in ("Bin", "CAssign") and v["op"].endswith("=") and v["op"] not in ("==", "!=", "<=", ">="):
                l = uncast(v["c"][0])
                if l["k"] == "Ref":
                    asg[l.get("d")] = asg.get(l.get("d"), 0) + 1
        for v in walk(fn.body):
            if v["k"] == "Var" and v.get("c") and v["t"].replace("const ", "") == "bool" and v["d"] not in asg:
                self.bools[v["d"]] = v["c"][0]

    # --- transfer
    def source(self, n):
        """(var, kind, container) when n assigns a search result."""
        if n["k"] == "Var" and n.get("c"):
            k = search_kind(n["c"][0])
            if k:
                return ("l", n["d"]), k, container(n["c"][0])
        if n["k"] in ("Bin", "OCall") and n.get("op") == "=" and len(n["c"]) == 2:
            k = search_kind(n["c"][1])
            v = var_of(n["c"][0])
            if v and k:
                return v, k, container(n["c"][1])
        return None

    def assigned(self, n):
        if n["k"] == "Var":
            return ("l", n["d"])
        if n["k"] in ("Bin", "OCall") and n.get("op") == "=" and len(n["c"]) == 2:
            return var_of(n["c"][0])
        if n["k"] == "CAssign":
            return var_of(n["c"][0])
        return None

    def learn(self, e, pol, st, depth=0):
        """variables known good after condition e has value pol."""
        good = set()
        for a, p in split_cond(e, pol):
            u = uncast(a)
            if u["k"] == "Ref" and u.get("d") in self.bools and depth < 3:
                good |= self.learn(self.bools[u["d"]], p, st, depth + 1)
                continue
            if u["k"] in ("Bin", "OCall") and u.get("op") in ("==", "!=", "<", ">", "<=", ">=") and len(u["c"]) == 2:
                for s, o in ((0, 1), (1, 0)):
                    v = var_of(self.inner(u["c"][s]))
                    if v is None or v not in st:
                        continue
                    other = uncast(u["c"][o])
                    kind = st[v][0]
                    sentinel = self.sentinel(other, kind)
                    if sentinel and kind == "iter" and self.foreign(st[v][1], other):
                        continue        # compared with the end of another container: says nothing
                    if u["op"] == "==":
                        if p and not sentinel or not p and sentinel:
                            good.add(v)
                    elif u["op"] == "!=":
                        if p and sentinel or not p and not sentinel:
                            good.add(v)
                    else:
                        op = u["op"]
                        if s == 1:
                            op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}[op]
                        if op in ("<", "<=") and p or op in (">", ">=") and not p or kind == "iter":
                            good.add(v)
            elif var_of(u) in st and st[var_of(u)][0] == "ptr":
                if p:
                    good.add(var_of(u))
        return good

    def foreign(self, src, other):
        """the end() compared with belongs to a container known to be a different object."""
        o = peel(other)
        if o["k"] != "MCall":
            return False
        a, b = self.home.get(src), uncast(o["c"][0])
        if a is None:
            return False

        def root(x):
            x = uncast(x)
            if x["k"] == "Mem" and x.get("c") and uncast(x["c"][0])["k"] == "This" and not x["t"].endswith("&"):
                return ("m", x["n"])
            if x["k"] == "Ref" and "d" in x and x.get("dk") in ("local", "slocal") and x["d"] in self.plain:
                return ("l", x["d"])
            return None
        ra, rb = root(a), root(b)
        return ra is not None and rb is not None and ra != rb

    def inner(self, n):
        """(it = m.find(k)) == m.end()  -> it."""
        n = uncast(n)
        while n["k"] == "Paren" or n["k"] in ("ICast", "Cast") and n.get("c"):
            n = uncast(n["c"][0])
        if n["k"] in ("Bin", "OCall") and n.get("op") == "=":
            return n["c"][0]
        return n

    def sentinel(self, o, kind):
        o = peel(o)
        if kind == "iter":
            if o["k"] == "MCall" and (o.get("fn") or "").split("::")[-1] in ("end", "cend"):
                return True
            if o["k"] == "Ref" and o.get("dk") in ("local", "slocal", "param"):
                return True         # a stored end()
            return o["k"] in ("Mem",)
        if kind == "pos":
            if (o.get("n") or "").split("::")[-1] == "npos":
                return True
            v = is_const(o)
            if o["k"] == "Un" and o["op"] == "-":
                return True
            return v is not None and int(v) in (-1, 2 ** 64 - 1)
        return o["k"] in ("NullPtr", "Null") or is_const(o) == 0

    def run(self):
        fn, g = self.fn, self.g
        srcs = []
        direct = []
        for n in fn.nodes():
            if self.source(n):
                srcs.append(n)
            k = search_kind(n) if n["k"] in ("MCall", "Call", "Cast") else None
            if k and peel(n) is n or k and n["k"] == "Cast" and n.get("sty") == "CXXDynamicCastExpr":
                direct.append((n, k))
        if not direct:
            return
        self.ctx.count("searches", len(direct))
        if srcs:
            self.flow()
        for n, k in direct:
            self.direct(n, k)

    def direct(self, n, k):
        """immediate use of a search result without storing it."""
        x, prev = self.par.get(n["i"]), n
        while x is not None and x["k"] in ("ICast", "Cast", "Paren", "Temp") or x is not None and x["k"] == "Ctor" and len(x["c"]) == 1 and "terator" in x["t"]:
            prev, x = x, self.par.get(x["i"])
        if x is None:
            return
        bad = self.isuse(x, prev, k)
        if bad is None:
            return
        ok = self.known_present(n, prev)
        if not ok and n["k"] == "MCall" and (self.fn.file, (uncast(n["c"][0]) or {}).get("dk")) in INVARIANT:
            self.ctx.count("by_invariant")
            ok = True
        self.ctx.ob(ok)
        if not ok:
            self.ctx.violate("checked", self.fn.loc(n), "%s %s the result of %s without checking that anything was found" % (self.fn.name, bad, self.label(n)), "%s|%s" % (self.fn.name, render(n)[:80]))

    def label(self, n):
        n = peel(n) if n["k"] != "Cast" else n
        return "dynamic_cast" if n["k"] == "Cast" else (n.get("fn") or "").split("::")[-1] + "()"

    def isuse(self, x, prev, k):
        """does expression x use its operand prev as a valid position?"""
        f = (x.get("fn") or "").split("::")[-1]
        if k == "iter":
            if x["k"] == "OCall" and x["op"] in ("->", "*") and x["c"][0] is prev:
                return "dereferences"
            if x["k"] == "Un" and x["op"] == "*":
                return "dereferences"
            if x["k"] == "Mem" and x.get("a") and x["c"][0] is prev:
                return "dereferences"
            if x["k"] == "MCall" and f == "erase" and x["c"][0] is not prev and len(x["c"]) == 2:
                return "erases at"
        elif k == "pos":
            args = x["c"][1:] if x["k"] in ("MCall", "OCall") else []
            if x["k"] == "OCall" and x["op"] == "[]" and x["c"][1] is prev:
                return "indexes with"
            if x["k"] == "Sub" and x["c"][1] is prev:
                return "indexes with"
            if x["k"] == "MCall" and f in ("substr", "erase", "insert", "at", "replace") and args and args[0] is prev:
                return "passes to %s()" % f
            if x["k"] == "Bin" and x["op"] in ("+", "-") and is_const(x["c"][1]) is not None and x["c"][0] is prev and not (x["op"] == "+" and is_const(x["c"][1]) == 1):
                # (npos + 1 is 0 by design: "everything" when nothing was found)
                y = self.par.get(x["i"])
                while y is not None and y["k"] in ("ICast", "Cast"):
                    x, y = y, self.par.get(y["i"])
                f = ((y or {}).get("fn") or "").split("::")[-1]
                if y is not None and (y["k"] == "MCall" and f in ("substr", "erase", "insert", "at", "replace") and y["c"][1] is x or y["k"] == "OCall" and y["op"] == "[]" and y["c"][1] is x or y["k"] == "Sub" and y["c"][1] is x):
                    return "computes a position from"
        elif k == "ptr":
            if x["k"] == "Un" and x["op"] == "*" or x["k"] == "Mem" and x.get("a") and x["c"][0] is prev or x["k"] == "Sub" and x["c"][0] is prev or x["k"] == "MCall" and x["c"][0] is prev:
                return "dereferences"
            if x["k"] == "Call" and f in NEEDS:
                return "passes to %s()" % f
            if x["k"] == "Ctor" and re.match(r"(const )?std::(basic_)?string", x["t"]):
                return "makes a string of"
        return None

    def known_present(self, n, at):
        """count(k) was found true / the key was just inserted on the way here."""
        p = peel(n)
        if p["k"] != "MCall" or len(p["c"]) < 2:
            return False
        obj, key = render(p["c"][0]), render(p["c"][1])

        def says(e, pol):
            for a, q in split_cond(e, pol):
                u = uncast(a)
                neg = False
                if u["k"] in ("Bin", "OCall") and u.get("op") in ("==", "!=", ">") and len(u["c"]) == 2:
                    l, r = uncast(u["c"][0]), uncast(u["c"][1])
                    c = is_const(r)
                    if l["k"] == "MCall" and (l.get("fn") or "").split("::")[-1] in ("count",) and c is not None:
                        neg = u["op"] == "==" and int(c) == 0
                        u = l
                    else:
                        for s, o in ((l, r), (r, l)):
                            s = peel(s)
                            if s["k"] == "MCall" and (s.get("fn") or "").split("::")[-1] == "find" and render(s["c"][0]) == obj and render(s["c"][1]) == key:
                                if (u["op"] == "!=") == q:
                                    return True
                if u["k"] == "MCall" and (u.get("fn") or "").split("::")[-1] in ("count", "contains") and render(u["c"][0]) == obj and len(u["c"]) > 1 and render(u["c"][1]) == key:
                    if q != neg:
                        return True
            return False
        for e, pol in inexpr_guards(self.fn, n):
            if says(e, pol):
                return True
        o = self.g.owner.get(n["i"])
        if o is None:
            return False
        for e, pol, *_ in self.g.assumes(o):
            if says(e, pol):
                return True
        return False

    def flow(self):
        fn, g = self.fn, self.g

        def effects(ast, st, report):
            """evaluate one node's expression in order."""
            st = dict(st)
            for x in order(ast):
                src = self.source(x)
                if src:
                    v, k, cont = src
                    q = peel(x["c"][0] if x["k"] == "Var" else x["c"][1])
                    if q["k"] == "MCall":
                        self.home[x["i"]] = uncast(q["c"][0])
                    st[v] = (k, x["i"], "?")
                    continue
                a = self.assigned(x)
                if a is not None and a in st:
                    st.pop(a, None)
                if x["k"] in ("OCall", "MCall", "Un", "Mem", "Sub", "Call", "Ctor"):
                    for i, c in enumerate(x.get("c") or []):
                        if c is None:
                            continue
                        v = var_of(c)
                        if v is None or v not in st:
                            continue
                        how = self.isuse(x, c, st[v][0])
                        if how and report is not None:
                            gs = inexpr_guards(fn, x)
                            ok = st[v][2] == "ok" or any(v in self.learn(e, p, st) for e, p in gs)
                            report(x, v, how, ok)
            return st

        def order(ast):
            from ir import evalorder
            yield from evalorder(ast)

        def transfer(nd, st):
            if nd.kind == "assume" and nd.ast is not None:
                st = dict(st)
                for v in self.learn(nd.ast, nd.pol, st):
                    st[v] = st[v][:2] + ("ok",)
                return st
            if nd.kind in ("expr", "decl", "init", "return") and nd.ast is not None and nd.kind != "return":
                return effects(nd.ast, st, None)
            return st

        def join(a, b):
            r = dict(a)
            for k, v in b.items():
                if k not in r or v[2] == "?":
                    r[k] = v
            return r
        ins = g.forward({}, transfer, join)
        names = {}
        for x in walk(fn.body):
            if x["k"] == "Var":
                names[("l", x["d"])] = x.get("n")
        seen = {}

        def rep(x, v, how, ok):
            k = (x["i"], v)
            if k not in seen:
                seen[k] = True
                self.ctx.ob(ok)
                if not ok:
                    nm = names.get(v, v[1])
                    self.ctx.violate("checked", fn.loc(x), "%s %s '%s', the result of a search, on a path where it may not have found anything" % (fn.name, how, nm), "%s|%s|%s" % (fn.name, nm, how))
        for nd in g.nodes:
            if nd.id in ins and nd.kind in ("expr", "decl", "init") and nd.ast is not None:
                effects(nd.ast, ins[nd.id], rep)


def run(db, ctx):
    ctx.rule("checked", "the result of find/rfind/find_first_of/..., std::find, lower_bound, dynamic_cast<T*>, strchr, strstr, getenv, fopen, ... is dereferenced, erased at, indexed with or passed to a function needing a valid position only on paths where a comparison with end()/npos/null (or count() on the same key) has shown that it is one")
    ctx.assume.append("search results stored in data members of other objects or returned are not followed")
    for f in sorted(db.fns.values(), key=lambda f: (f.file, f.line, f.key)):
        if f.body is None or f.h.get("dep") or f.file.startswith("klm/"):
            continue
        Judge(f, ctx, db).run()
    ctx.floor("searches_seen", ctx.counts.get("searches", 0), 120)
