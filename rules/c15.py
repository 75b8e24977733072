"""C15: the dynamic-programming state of feature functions.

within    every access to the state through the output or an antecedent pointer lies inside the bytes the
          feature function reserved
readback  what is read from an antecedent's state was written there under the same layout
arity     antecedent k is used only where the edge is known to have more than k antecedents; an edge with
          several antecedents reads the same parts of each one's state
complete  every branch over the edge's arity writes every part of the state that the other branches write
history   a plain member changed while scoring is set before it is read in the same call"""
import re, sys
from facts import walk
from ir import uncast, render, is_const, cfg, Calls, fn_parents, evalorder
from zone import zone
from c14 import strip, short, own, chain, persistent, CONTAINER, NOTPROJECT

GROUPS = ["decoder"]
sys.setrecursionlimit(20000)
SIZES = {"bool": 1, "char": 1, "unsigned char": 1, "signed char": 1, "short": 2, "unsigned short": 2, "int": 4, "unsigned int": 4, "unsigned": 4, "float": 4, "long": 8, "unsigned long": 8, "double": 8, "long long": 8, "unsigned long long": 8}


def plain(t):
    t = (t or "").strip()
    while t.endswith("&"):
        t = t[:-1].strip()
    t = re.sub(r"^(const |volatile )+", "", t)
    if t.endswith(" const"):
        t = t[:-6]
    return t.strip()


def pointee(t):
    t = plain(t)
    if t.endswith("*const"):
        t = t[:-5]
    return plain(t[:-1]) if t.endswith("*") else None


# ---------------------------------------------------------------- linear forms
def ladd(a, b, s=1):
    if a is None or b is None:
        return None
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0) + s * v
    return {k: v for k, v in r.items() if v or k == 1}


def lmul(a, b):
    if a is None or b is None:
        return None
    for x, y in ((a, b), (b, a)):
        if set(x) <= {1}:
            c = x.get(1, 0)
            return {k: v * c for k, v in y.items()}
    return None


def nonneg(a):
    """a >= 0 for all symbols >= 2."""
    return sum(2 * v if k != 1 else v for k, v in a.items()) >= 0 and all(v >= 0 for k, v in a.items() if k != 1)


class Lin:
    def __init__(self, db, calls):
        self.db, self.calls = db, calls
        self.busy = set()
        self.fcache = {}

    def ev(self, fn, e, sub=None, depth=0):
        e = strip(e)
        if e is None or depth > 12:
            return None
        c = is_const(e)
        if c is not None and not isinstance(c, (str, float)):
            return {1: int(c)}
        k = e["k"]
        if k == "Sizeof":
            return {1: e["v"]} if "v" in e else None
        if k == "Bin" and e["op"] in ("+", "-", "*"):
            a, b = self.ev(fn, e["c"][0], sub, depth + 1), self.ev(fn, e["c"][1], sub, depth + 1)
            return lmul(a, b) if e["op"] == "*" else ladd(a, b, 1 if e["op"] == "+" else -1)
        if k == "Cond":
            a, b = self.ev(fn, e["c"][1], sub, depth + 1), self.ev(fn, e["c"][2], sub, depth + 1)
            if b == {1: 0}:
                return a
            return b if a == {1: 0} else (a if a == b else None)
        if k == "Ref":
            if sub and e.get("d") in sub and e.get("dk") == "param":
                return sub[e["d"]]
            if e.get("dk") == "local":
                for n in fn.nodes():
                    if n["k"] == "Var" and n.get("d") == e.get("d"):
                        if (n.get("t") or "").startswith("const ") and n.get("c") and n["c"][0] is not None:
                            return self.ev(fn, n["c"][0], sub, depth + 1)
            if e.get("dk") in ("param", "local") and (fn.h.get("ctor") or e["dk"] == "param" and self.busy):
                return {e["n"].rstrip("_"): 1}
            return None
        if k == "Mem" and own(e):
            return self.field(own(e), depth)
        if k in ("Call", "MCall"):
            for t in self.calls.targets(e):
                r = [n for n in t.nodes() if n["k"] == "Return" and n.get("c") and n["c"][0] is not None] if t.body is not None else []
                if len(r) == 1:
                    args = e["c"][1 if k == "MCall" else 0:]
                    s2 = {p["d"]: self.ev(fn, a, sub, depth + 1) for p, a in zip(t.params, args) if "d" in p and a is not None}
                    return self.ev(t, r[0]["c"][0], s2, depth + 1)
                if t.name == "FeatureFunction::StateSize":
                    return None
        return None

    def field(self, f, depth):
        if f in self.fcache:
            return self.fcache[f]
        if f in self.busy:
            return None
        self.busy.add(f)
        vals = []
        cls = f.rsplit("::", 1)[0]
        for g in self.db.fns.values():
            if g.body is None or g.cls != cls:
                continue
            if g.h.get("ctor"):
                for i in g.inits:
                    if i.get("field") and cls + "::" + i["field"] == f and i.get("c"):
                        vals.append(self.ev(g, i["c"][0], None, depth + 1))
            for n in g.nodes():
                if n["k"] == "Bin" and n["op"] == "=" and own(n["c"][0]) == f:
                    vals.append(self.ev(g, n["c"][1], None, depth + 1))
        self.busy.discard(f)
        r = vals[0] if vals and all(v is not None and v == vals[0] for v in vals) else {f.rsplit("::", 1)[1].rstrip("_"): 1}
        self.fcache[f] = r
        return r


class Acc:
    def __init__(self, root, idx, off, size, typ, how, fn, node, whole=False):
        self.root, self.idx, self.off, self.size, self.typ, self.how, self.fn, self.node, self.whole = root, idx, off, size, typ, how, fn, node, whole


class State:
    """accesses to the state made while one feature function scores."""

    def __init__(self, db, calls, lin, x):
        self.db, self.calls, self.lin, self.x = db, calls, lin, x
        self.acc, self.start, self.esc, self.reach = [], [], set(), []
        self.seen = set()

    def size(self, t):
        t = plain(t)
        if t in SIZES:
            return SIZES[t]
        if t.endswith("*"):
            return 8
        m = re.match(r"(.*)\[(\d+)\]$", t)
        if m:
            s = self.size(m.group(1))
            return s * int(m.group(2)) if s else None
        r = self.db.recs.get(t)
        return r.get("size") if r else None

    def bound(self, fn, at, e, sub):
        """linear upper bounds of an index: from the differences between counters at the access, or at the call that passes it."""
        t = strip(e)
        if t is not None and t["k"] == "Ref" and t.get("dk") == "param" and (sub or {}).get(("at", t.get("d"))):
            f2, a2, e2 = sub[("at", t["d"])]
            return self.bound(f2, a2, e2, None)
        r = []
        for v, c in zone(fn).upper(at, e) or []:
            if v is None:
                r.append({1: c})
            elif isinstance(v, str) and v.startswith("this."):
                b = self.lin.field(fn.cls + "::" + v[5:], 0)
                if b is not None:
                    r.append(ladd(b, {1: c}))
        return r

    def visit(self, fn, roles, sub, depth=0):
        key = (fn.key, tuple(sorted((d, str(r)) for d, r in roles.items())), tuple(sorted((k[1], id(v[1])) for k, v in sub.items() if isinstance(k, tuple))))
        if key in self.seen or depth > 6 or fn.body is None:
            return
        self.seen.add(key)
        env = dict(roles)
        par = fn_parents(fn)
        writes = {}
        for n in fn.nodes():
            if n["k"] == "Bin" and n["op"] == "=" or n["k"] == "CAssign" or n["k"] == "Un" and n["op"] in ("++", "--"):
                b = strip(n["c"][0])
                if b is not None and b["k"] == "Ref" and "d" in b:
                    writes[b["d"]] = True

        def P(e):
            """pointer value -> (root, idx, off)"""
            e = strip(e)
            if e is None:
                return None
            k = e["k"]
            if k == "Ref":
                r = env.get(e.get("d"))
                return r if r and r[0] in ("out", "ant") and not (len(r) > 3 and r[3]) else None
            if k == "Bin" and e["op"] in ("+", "-"):
                b = P(e["c"][0])
                if b is None:
                    return None
                sz = self.size(pointee(e.get("t")) or "")
                d = self.lin.ev(fn, e["c"][1], sub)
                d = lmul(d, {1: sz}) if sz else None
                return (b[0], b[1], ladd(b[2], d, 1 if e["op"] == "+" else -1))
            if k in ("OCall", "Sub") and (k == "Sub" or e["op"] == "[]") or k == "MCall" and short(e) == "at":
                b = strip(e["c"][0])
                if b is not None and b["k"] == "Ref" and env.get(b.get("d"), (None,))[0] == "antvec":
                    i = strip(e["c"][1])
                    return ("ant", (render(i), is_const(i), e, fn.key), {1: 0})
            if k == "Un" and e["op"] == "&":
                l = L(e["c"][0])
                return l[:3] if l else None
            return None

        def L(e):
            """lvalue inside the state -> (root, idx, off, type)"""
            e = strip(e)
            if e is None:
                return None
            k = e["k"]
            if k == "Un" and e["op"] == "*":
                b = P(e["c"][0])
                return b + (plain(e.get("t")),) if b else None
            if k == "Sub":
                b = P(e["c"][0])
                if b is None:
                    b = L(e["c"][0])
                    b = b[:3] if b else None
                if b is None:
                    return None
                sz = self.size(e.get("t"))
                d = self.lin.ev(fn, e["c"][1], sub) if is_const(strip(e["c"][1])) is not None else None
                if d is None and b[2] is not None and sz:
                    self.start.append(Acc(b[0], b[1], b[2], {1: sz}, plain(e.get("t")), "a", fn, e))
                    for u in self.bound(fn, e, e["c"][1], sub):
                        self.reach.append((Acc(b[0], b[1], ladd(b[2], lmul(u, {1: sz})), {1: sz}, plain(e.get("t")), "a", fn, e), b[2]))
                return (b[0], b[1], ladd(b[2], lmul(d, {1: sz}) if sz else None), plain(e.get("t")))
            if k == "Mem" and e.get("c"):
                b = P(e["c"][0]) if e.get("a") else (L(e["c"][0]) or (None,))
                if not b or b[0] is None:
                    return None
                rec = (e.get("f") or "").rsplit("::", 1)[0]
                off = None
                for fl in (self.db.recs.get(rec) or {}).get("fields", []):
                    if fl["n"] == e["n"] and "off" in fl:
                        off = {1: fl["off"]}
                return (b[0], b[1], ladd(b[2], off), plain(e.get("t")))
            if k == "Ref":
                r = env.get(e.get("d"))
                if r and len(r) > 3 and r[3]:
                    return (r[0], r[1], r[2], r[3])
            return None
        for n in fn.nodes():
            if n["k"] != "Var" or "d" not in n or not n.get("c") or n["c"][0] is None:
                continue
            t = (n.get("t") or "").rstrip()
            if t.endswith("&"):
                l = L(n["c"][0])
                if l:
                    env[n["d"]] = l
                    continue
                b = strip(n["c"][0])
                if b is not None and b["k"] == "Ref" and b.get("d") in env:
                    env[n["d"]] = env[b["d"]]
            elif "*" in t:
                p = P(n["c"][0])
                if p:
                    env[n["d"]] = p if n["d"] not in writes else (p[0], p[1], None)
        self.env = env

        def add(l, how, n, sz=None):
            s = {1: self.size(l[3])} if sz is None and self.size(l[3]) else sz
            self.acc.append(Acc(l[0], l[1], l[2], s, l[3], how, fn, n))
        for n in fn.nodes():
            k = n["k"]
            if k in ("Un", "Sub", "Mem", "Ref"):
                l = L(n)
                if l:
                    q = par.get(n["i"])
                    while q is not None and q["k"] in ("ICast", "Cast", "Paren"):
                        q = par.get(q["i"])
                    if q is not None and (q["k"] in ("Mem", "Sub") or q["k"] == "Un" and q["op"] == "&"):
                        continue
                    if q is not None and q["k"] == "Var" and (q.get("t") or "").rstrip().endswith("&"):
                        continue
                    if k == "Ref" and q is not None and q["k"] == "DeclRef":
                        continue
                    how = "r"
                    if q is not None and (q["k"] == "Bin" and q["op"] == "=" or q["k"] == "OCall" and q["op"] == "=") and strip(q["c"][0]) is strip(n):
                        how = "w"
                    elif q is not None and q["k"] in ("CAssign", "OCall") and strip(q["c"][0]) is strip(n) and q["op"] in ("=", "+=", "-=", "|=", "&=", "^="):
                        how = "w"
                    elif q is not None and q["k"] in ("Call", "MCall", "Ctor", "OCall"):
                        how = "w" if l[0] == "out" else "r"
                    add(l, how, n)
            if k in ("Call", "MCall", "Ctor", "OCall"):
                args = (n.get("c") or [])
                a0 = 1 if k == "MCall" else 0
                fnm = short(n)
                if fnm in ("memcpy", "memmove", "memset") and len(args) == 3:
                    p = P(args[0])
                    sz = self.lin.ev(fn, args[2], sub)
                    if p:
                        add(p + ("bytes",), "w", n, sz)
                    p = P(args[1]) if fnm != "memset" else None
                    if p:
                        add(p + ("bytes",), "r", n, sz)
                    continue
                for a, t in zip(args[a0:], n.get("pt") or []):
                    if a is not None and not t.startswith("const ") and (P(a) or (None,))[0] == "out":
                        self.esc.add(n["i"])
                ts = [t for t in self.calls.targets(n) if t.body is not None and not t.file.startswith("utils/")]
                for t in ts:
                    rl, s2 = {}, {}
                    ar = args[a0:]
                    if k == "OCall" and t.cls and len(t.params) == len(args) - 1:
                        ar = args[1:]
                    for p, a in zip(t.params, ar):
                        if "d" not in p or a is None:
                            continue
                        q = P(a)
                        b = strip(a)
                        if q:
                            rl[p["d"]] = q
                        elif b is not None and b["k"] == "Ref" and env.get(b.get("d"), (None,))[0] == "antvec":
                            rl[p["d"]] = env[b["d"]]
                        else:
                            s2[p["d"]] = self.lin.ev(fn, a, sub)
                            if s2[p["d"]] is None and plain(p.get("t")) in SIZES:
                                s2[("at", p["d"])] = (fn, n, a)
                    if rl:
                        self.visit(t, rl, {d: v for d, v in s2.items() if v is not None}, depth + 1)
                if not ts:
                    for a, t in zip(args[a0:], n.get("pt") or []):
                        p = P(a) if a is not None else None
                        if p:
                            self.acc.append(Acc(p[0], p[1], p[2], None, "?", "w" if not t.startswith("const ") and p[0] == "out" else "r", fn, n))


def arity_of(fn, e):
    """the expression counts the antecedents of the edge."""
    e = strip(e)
    if e is None:
        return False
    if e["k"] == "Ref" and e.get("dk") == "local":
        for n in fn.nodes():
            if n["k"] == "Var" and n.get("d") == e.get("d") and n.get("c") and n["c"][0] is not None:
                return arity_of(fn, n["c"][0])
        return False
    if e["k"] == "MCall" and short(e) == "Arity":
        return True
    return e["k"] == "MCall" and short(e) == "size" and re.search(r"ant|tail", render(e["c"][0])) is not None


def excludes(fn, cond, pol, m):
    """the assumption is false for an edge with m antecedents"""
    c = strip(cond)
    while c is not None and c["k"] == "Un" and c["op"] == "!":
        c, pol = strip(c["c"][0]), not pol
    if c is None:
        return False
    if c["k"] == "Bin" and c["op"] in ("&&", "||"):
        if (c["op"] == "&&") == pol:
            return any(excludes(fn, x, pol, m) for x in c["c"])
        return all(excludes(fn, x, pol, m) for x in c["c"])
    if c["k"] == "Bin" and c["op"] in ("==", "!=", "<", "<=", ">", ">="):
        a, b, op = c["c"][0], c["c"][1], c["op"]
        if arity_of(fn, b):
            a, b = b, a
            op = {"<": ">", "<=": ">=", ">": "<", ">=": "<="}.get(op, op)
        v = is_const(strip(b))
        if not arity_of(fn, a) or v is None:
            return False
        return {"==": m == v, "!=": m != v, "<": m < v, "<=": m <= v, ">": m > v, ">=": m >= v}[op] != pol
    if arity_of(fn, c):
        return (m != 0) != pol
    return False


def atleast(fn, cond, pol):
    """(lower bound, exact or None) on the arity that the assumption gives."""
    c = strip(cond)
    if c is None:
        return None
    if c["k"] == "Un" and c["op"] == "!":
        return atleast(fn, c["c"][0], not pol)
    if c["k"] == "Bin" and c["op"] == "&&" and pol or c["k"] == "Bin" and c["op"] == "||" and not pol:
        r = [atleast(fn, x, pol) for x in c["c"]]
        r = [x for x in r if x]
        return max(r, key=lambda x: x[0]) if r else None
    if c["k"] == "Bin" and c["op"] in ("==", "!=", "<", "<=", ">", ">="):
        a, b, op = c["c"][0], c["c"][1], c["op"]
        if arity_of(fn, b):
            a, b = b, a
            op = {"<": ">", "<=": ">=", ">": "<", ">=": "<="}.get(op, op)
        v = is_const(strip(b))
        if not arity_of(fn, a) or v is None:
            return None
        if not pol:
            op = {"==": "!=", "!=": "==", "<": ">=", "<=": ">", ">": "<=", ">=": "<"}[op]
        if op == "==":
            return (v, v)
        if op == ">":
            return (v + 1, None)
        if op == ">=":
            return (v, None)
        if op == "!=" and v == 0:
            return (1, None)
    if arity_of(fn, c) and pol:
        return (1, None)
    return None


def assumed(fn, n):
    from ir import inexpr_guards
    g = cfg(fn)
    best = (0, None)
    nd = g.owner.get(n["i"])
    todo = []
    if nd is not None:
        todo += [(a, p) for a, p, _ in g.assumes(nd)]
    try:
        todo += list(inexpr_guards(fn, n))
    except Exception:
        pass
    for cnd, pol in todo:
        r = atleast(fn, cnd, pol)
        if r and (r[0] > best[0] or r[1] is not None and best[1] is None):
            best = (max(r[0], best[0]), r[1] if r[1] is not None else best[1])
    return best


def lt(o):
    if o is None:
        return "?"
    return "+".join(("%d" % v if k == 1 else "%d*%s" % (v, k)) for k, v in sorted(o.items(), key=str) if v or k == 1) or "0"


def declared(db, lin, x):
    """linear form of the number of state bytes the class reserves, or None."""
    out = []
    for g in db.fns.values():
        if g.cls != x or not g.h.get("ctor"):
            continue
        got = None
        for i in g.inits:
            if i.get("base", "").startswith("FeatureFunction") and i.get("c"):
                c = strip(i["c"][0])
                if c is not None and c["k"] == "Ctor" and c.get("c"):
                    got = lin.ev(g, c["c"][0])
                elif c is not None and c["k"] == "Ctor":
                    got = {1: 0}
        if g.body is not None:
            for n in g.nodes():
                if n["k"] == "MCall" and short(n) == "SetStateSize" and len(n["c"]) == 2 and strip(n["c"][0])["k"] == "This":
                    got = lin.ev(g, n["c"][1])
                    if got is None:
                        return None
        if got is not None:
            out.append(got)
    return out[0] if out and all(o == out[0] for o in out) else None


def kind(t):
    if t in ("float", "double"):
        return "float"
    if t.endswith("*"):
        return "pointer"
    return "int" if t in SIZES else "?"


def complete(ctx, x, f, accs, st):
    """branches over the arity: each writes every part of the state."""
    g = cfg(f)
    mine = [a for a in accs if a.fn is f and a.root == "out" and a.how == "w"]
    if not mine:
        return
    parts, of = {}, {}
    for a in mine:
        o = lt(a.off) if a.off is not None and not isinstance(st.env.get(None), int) else "?"
        top = o
        for d, r in st.env.items():      # parts of a record belong to the object the local stands for
            if len(r) > 3 and r[0] == "out" and r[2] is not None and a.off is not None and set(a.off) <= {1} and set(r[2]) <= {1}:
                sz = st.size(r[3])
                if sz and r[2].get(1, 0) <= a.off.get(1, 0) < r[2].get(1, 0) + sz:
                    top = lt(r[2])
        whole = a.size is not None and set(a.size) <= {1} and a.typ == "bytes"
        of.setdefault(a.node["i"], set()).add((top, a.size.get(1, 0) if whole and a.size else 0))
        if a.typ != "bytes":
            parts[top] = a
    if "?" in parts or not parts:
        return
    arities = {}

    def step(nd, stt):
        ar, done = stt
        if nd.kind == "assume" and nd.ast is not None:
            r = atleast(f, nd.ast, nd.pol)
            if r and r[1] is not None:
                ar = r[1]
        if nd.ast is not None:
            for n in evalorder(nd.ast):
                if n["i"] in st.esc:
                    done = done | set(parts)
                for top, w in of.get(n["i"], ()):
                    if w:
                        done = done | {p for p in parts if int(top or 0) <= int(p or 0) < int(top or 0) + w}
                    else:
                        done = done | {top}
        return (ar, done)

    # path-sensitive in the arity only: run the dataflow once per arity the function distinguishes
    known = sorted({r[1] for nd in g.nodes if nd.kind == "assume" and nd.ast is not None for r in [atleast(f, nd.ast, nd.pol)] if r and r[1] is not None})
    for m in known:
        def tr(nd, done):
            if nd.kind == "assume" and nd.ast is not None:
                r = atleast(f, nd.ast, nd.pol)
                if r and (r[0] > m or r[1] is not None and r[1] != m):
                    return None
                if excludes(f, nd.ast, nd.pol, m):
                    return None
            return step(nd, (None, done))[1]
        ins = g.forward(frozenset(), tr, lambda a, b: a & b)
        if g.exit.id not in ins:
            continue
        ctx.ob()
        miss = sorted(set(parts) - set(ins[g.exit.id]))
        if miss and ins[g.exit.id] != parts.keys():
            ctx.violate("complete", f.loc(), "%s leaves part of the state (offset %s) unset for edges with %d antecedents; other branches set it (%s)" % (f.name, miss[0], m, parts[miss[0]].fn.loc(parts[miss[0]].node)), "%s|%s|%d" % (x, miss[0], m))


def run(db, ctx):
    ctx.rule("within", "every access through the output-state or an antecedent-state pointer (followed through casts, offsets, locals and calls) ends inside the bytes reserved by the constructor; offsets and sizes are linear in the settings")
    ctx.rule("readback", "a read of an antecedent's state has the same offset, width and kind as a write of the output state")
    ctx.rule("arity", "antecedent k is used only under a test that the edge has more than k antecedents, and where an edge is known to have exactly m > 1 antecedents the same parts of every antecedent's state are read")
    ctx.rule("complete", "for each number of antecedents the scoring function distinguishes, every path writes every part of the state other branches write")
    ctx.rule("history", "a scalar member changed while scoring is written before it is read on every path of the same call, or is guarded by a comparison with the value it caches")
    ctx.assume.append("ModelSet hands every feature function a zeroed output state of the reserved size; arrays of unknown length inside a state (language model words) are followed to their start only; SetStateSize arguments are compared as linear forms over settings of the same name, each at least 2")
    calls = Calls(db)
    lin = Lin(db, calls)
    ffs = sorted({f.cls for f in db.fns.values() if f.short == "TraversalFeaturesImpl" and f.cls and f.cls != "FeatureFunction"})
    n_acc = 0
    for x in ffs:
        fs = [f for f in db.fns.values() if f.cls == x and f.short in ("TraversalFeaturesImpl", "FinalTraversalFeatures") and f.body is not None]
        main = [f for f in fs if f.short == "TraversalFeaturesImpl" and len(f.params) == 6]
        if not main or any(f.short == "PrepareForInput" and forwards(f, ffs) for f in db.fns.values() if f.cls == x and f.body is not None):
            continue            # a wrapper around another feature function
        S = declared(db, lin, x)
        st = State(db, calls, lin, x)
        envs = {}
        for f in fs:
            roles = {}
            if f.short == "TraversalFeaturesImpl":
                for p, r in ((f.params[2], ("antvec",)), (f.params[5], ("out", None, {1: 0}))):
                    if "d" in p:
                        roles[p["d"]] = r
            elif f.params and "d" in f.params[0]:
                roles[f.params[0]["d"]] = ("ant", ("0", 0, None, None), {1: 0})
            st.visit(f, roles, {})
            envs[f.key] = None
        accs = st.acc
        n_acc += len(accs)
        if accs:
            ctx.count("stateful_feature_functions")
            ctx.sample("%s: %d state accesses, %s bytes reserved" % (x, len(accs), lt(S)), 40)
        for a in accs:
            ctx.ob()
            where = a.fn.loc(a.node)
            if S is not None and a.off is not None and a.size is not None and None not in a.size.values():
                room = ladd(ladd(S, a.off, -1), a.size, -1)
                if not nonneg(room) or not nonneg(a.off):
                    ctx.violate("within", where, "%s accesses bytes [%s, %s) of a state of %s bytes" % (a.fn.name, lt(a.off), lt(ladd(a.off, a.size)), lt(S)), "%s|%s|%s" % (x, a.fn.name, lt(a.off)))
            elif S == {1: 0}:
                ctx.violate("within", where, "%s accesses a state although no bytes are reserved" % a.fn.name, "%s|%s|none" % (x, a.fn.name))
        for a, start in st.reach:
            if S is None or a.off is None or None in a.off.values() or a.root != "out":
                continue
            ctx.ob()
            ctx.count("array_parts_bounded")
            if not nonneg(ladd(ladd(S, a.off, -1), a.size, -1)):
                ctx.violate("within", a.fn.loc(a.node), "%s writes up to byte %s of a state of %s bytes (array at offset %s)" % (a.fn.name, lt(ladd(a.off, a.size)), lt(S), lt(start)), "%s|%s|%s|array" % (x, a.fn.name, lt(start)))
        overlap(ctx, x, S, accs + st.start)
        outs = [a for a in accs if a.root == "out" and a.how == "w"]
        for a in accs:
            if a.root != "ant" or a.how != "r" or a.off is None or a.size is None or a.typ == "bytes":
                continue
            ctx.ob()
            if not fits(a, outs):
                ctx.violate("readback", a.fn.loc(a.node), "%s reads %s at offset %s of an antecedent's state, which is not written that way (written: %s)" % (a.fn.name, a.typ, lt(a.off), ", ".join(sorted({"%s at %s" % (w.typ, lt(w.off)) for w in outs})[:5]) or "nothing"), "%s|%s|%s" % (x, a.typ, lt(a.off)))
        for f in main:
            per = {}
            for a in uses(f, f.params[2]):
                k = is_const(strip(a["c"][1]))
                lo, ex = assumed(f, a)
                if k is None:
                    continue
                ctx.ob()
                if not lo > k:
                    ctx.violate("arity", f.loc(a), "%s uses antecedent %d where the edge may have only %d" % (f.name, k, lo), "%s|%d|%d" % (x, k, lo))
            for a in accs:
                if a.root == "ant" and a.idx and a.idx[1] is not None and a.off is not None and a.idx[2] is not None and f.key == a.idx[3]:
                    lo, ex = assumed(f, a.idx[2])
                    if ex is not None and ex > 1:
                        per.setdefault(ex, {}).setdefault(a.idx[1], {}).setdefault(lt(a.off), a)
            for m, d in sorted(per.items()):
                alls = set().union(*[set(v) for v in d.values()])
                for k in range(m):
                    ctx.ob()
                    for o in sorted(alls - set(d.get(k, ()))):
                        w = [v[o] for v in d.values() if o in v][0]
                        ctx.violate("arity", f.loc(w.node), "%s reads the state at offset %s of one antecedent but never of antecedent %d (edges with %d antecedents)" % (f.name, o, k, m), "%s|%d|%s|sym" % (x, k, o))
            st2 = State(db, calls, lin, x)
            roles = {p["d"]: r for p, r in ((f.params[2], ("antvec",)), (f.params[5], ("out", None, {1: 0}))) if "d" in p}
            st2.visit(f, roles, {}, 6)      # this function only
            complete(ctx, x, f, st2.acc, st2)
    ctx.floor("state_accesses", n_acc, 60)
    history(db, ctx, calls, ffs)


def overlap(ctx, x, S, accs):
    """different parts of the state do not share bytes."""
    parts = {}
    for a in accs:
        if a.off is None or a.size is None or None in a.size.values() or kind(a.typ) == "?" and a.typ != "bytes" or a.typ == "bytes" and a.size == S:
            continue
        parts.setdefault((lt(a.off), lt(a.size)), a)
    ps = sorted(parts.items())
    for i, (k1, a) in enumerate(ps):
        for k2, b in ps[i + 1:]:
            ctx.ob()
            if k1[0] == k2[0]:
                if a.size != b.size and "bytes" not in (a.typ, b.typ):
                    ctx.violate("readback", b.fn.loc(b.node), "%s and %s use the state at offset %s with different widths (%s and %s)" % (a.fn.name, b.fn.name, k1[0], a.typ, b.typ), "%s|%s|width" % (x, k1[0]))
                continue
            if not nonneg(ladd(ladd(b.off, a.off, -1), a.size, -1)) and not nonneg(ladd(ladd(a.off, b.off, -1), b.size, -1)):
                ctx.violate("readback", b.fn.loc(b.node), "bytes [%s, %s) used by %s overlap bytes [%s, %s) used by %s (%s)" % (lt(b.off), lt(ladd(b.off, b.size)), b.fn.name, lt(a.off), lt(ladd(a.off, a.size)), a.fn.name, a.fn.loc(a.node)), "%s|%s|%s|overlap" % (x, k1[0], k2[0]))


def forwards(f, ffs):
    return any(n["k"] == "MCall" and short(n) == f.short and (n.get("fn") or "").rsplit("::", 1)[0] in ["FeatureFunction"] + list(ffs) and strip(n["c"][0])["k"] != "This" for n in f.nodes() if n["k"] == "MCall" and n.get("c") and strip(n["c"][0]) is not None)


def uses(f, p):
    return [n for n in f.nodes() if n["k"] == "OCall" and n["op"] == "[]" and len(n["c"]) == 2 and (strip(n["c"][0]) or {}).get("d") == p.get("d") and strip(n["c"][0])["k"] == "Ref"]


def fits(a, outs):
    for w in outs:
        if w.off is None or w.size is None or w.typ in ("?",):
            if w.typ == a.typ or w.typ in ("?", "bytes") or w.off is None and (w.size or {}).get(1) == a.size.get(1) and kind(w.typ) == kind(a.typ):
                return True
            continue
        d = ladd(a.off, w.off, -1)
        if w.typ == "bytes":
            if nonneg(d) and nonneg(ladd(ladd(w.size, d, -1), a.size, -1)):
                return True
            continue
        if d == {1: 0} or not d or set(d) <= {1} and d.get(1, 0) == 0:
            if w.size == a.size and kind(w.typ) == kind(a.typ):
                return True
    # a record read as a whole whose members are written one by one
    cover = [w for w in outs if w.off is not None and w.size is not None and set(w.off) <= {1} and set(a.off) <= {1}]
    if kind(a.typ) == "?":
        return any(a.off.get(1, 0) <= w.off.get(1, 0) and w.off.get(1, 0) + w.size.get(1, 0) <= a.off.get(1, 0) + a.size.get(1, 0) for w in cover)
    return any(kind(w.typ) == "?" and w.off.get(1, 0) <= a.off.get(1, 0) < w.off.get(1, 0) + w.size.get(1, 0) for w in cover)


def members_of(db, x):
    """classes whose objects live as long as the feature function: itself, its bases and what its members hold."""
    out, todo = set(), [x]
    names = {}
    for r in db.reclist:
        names.setdefault(r["name"].split("<")[0], []).append(r)
    while todo:
        c = todo.pop()
        if c in out:
            continue
        out.add(c)
        for r in names.get(c.split("<")[0], []):
            for b in r.get("bases", []):
                n = b.get("n") or b.get("name") if isinstance(b, dict) else b
                if n:
                    todo.append(n.split("<")[0])
            for f in r["fields"]:
                for w in re.findall(r"[A-Za-z_][\w:]*", f["t"]):
                    if w in names and w not in ("std",):
                        todo.append(w)
    return out


def history(db, ctx, calls, ffs):
    from c14 import Analysis
    A = Analysis(db)
    A.calls = calls
    A.ffs = set(ffs) | {"FeatureFunction"}
    for x in ffs:
        roots = [f for f in db.fns.values() if f.cls == x and f.short in ("TraversalFeaturesImpl", "FinalTraversalFeatures") and f.body is not None]
        keep = members_of(db, x) & {x} | {c for c in members_of(db, x) if c.startswith(x) or c.endswith("Impl") or "Impl" in c}
        R = [db.fns[k] for k in A.reach(roots, x)]
        wr, rd = {}, {}
        for f in R:
            if f.body is None or f.h.get("dep") or f.file.startswith(NOTPROJECT) or f.file.startswith("utils/") or f.h.get("ctor"):
                continue
            par = fn_parents(f)
            for n in f.nodes():
                if not place(n) or n["k"] == "Mem" and f.cls not in keep or CONTAINER.search(n.get("t") or ""):
                    continue
                if plain(n.get("t")) not in SIZES and not plain(n.get("t")).endswith("*"):
                    continue
                q = par.get(n["i"])
                if q is not None and (q["k"] == "Bin" and q["op"] == "=") and q["c"][0] is n:
                    wr.setdefault(place(n), []).append((f, q))
                elif q is not None and (q["k"] == "CAssign" and q["c"][0] is n or q["k"] == "Un" and q["op"] in ("++", "--")):
                    wr.setdefault(place(n), []).append((f, q))
                    rd.setdefault(place(n), []).append((f, n))
                else:
                    rd.setdefault(place(n), []).append((f, n))
        for fld, ws in sorted(wr.items()):
            ctx.ob()
            ctx.count("members_changed_while_scoring")
            reads = [(f, n) for f, n in rd.get(fld, []) if not before(f, n, fld) and not tested(f, n)]
            if reads and not all(guarded(f, w, wr) for f, w in ws):
                f, n = reads[0]
                ctx.violate("history", f.loc(n), "%s reads %s, which scoring an earlier edge changed (%s): the feature depends on the order edges are scored in" % (f.name, fld, ws[0][0].loc(ws[0][1])), "%s|%s" % (x, fld))


def place(n):
    """what keeps its value between calls: a member of the object, a static local or a global."""
    n = strip(n)
    if n["k"] == "Ref" and n.get("dk") in ("slocal", "global") and "v" not in n:
        return "static " + str(n.get("n"))
    return own(n) if n["k"] == "Mem" else None


def before(f, n, fld):
    """a write of the member on every path to n."""
    g = cfg(f)
    nd = g.owner.get(n["i"])
    if nd is None:
        return False
    for d in g.dominators(nd):
        if d.ast is None or d.id == nd.id:
            continue
        for m in evalorder(d.ast):
            if m["k"] == "Bin" and m["op"] == "=" and place(m["c"][0]) == fld:
                return True
    return False


def tested(f, n):
    """the read is itself the test whether a cached value is current."""
    par = fn_parents(f)
    q = par.get(n["i"])
    while q is not None and q["k"] in ("ICast", "Cast", "Paren"):
        q = par.get(q["i"])
    if q is None or q["k"] != "Bin" or q["op"] not in ("!=", "=="):
        return False
    while q is not None and q["k"] != "If":
        q = par.get(q["i"])
    return q is not None and any(m["k"] == "Bin" and m["op"] == "=" and place(m["c"][0]) == place(n) for b in q["c"][3:] if b is not None for m in walk(b))


def guarded(f, w, wr):
    """the write sits in a branch taken when another member (or this one) is not current, and that member is set there too."""
    par = fn_parents(f)
    q = par.get(w["i"])
    while q is not None:
        if q["k"] == "If" and q["c"][2] is not None:
            tests = {place(m) for m in walk(q["c"][2]) if place(m)}
            sets = {place(m["c"][0]) for b in q["c"][3:] if b is not None for m in walk(b) if m["k"] == "Bin" and m["op"] == "="}
            if tests & sets:
                return True
        q = par.get(q["i"])
    return False
