"""Ordering relations are strict weak orders; companion operators agree."""
import re
from minieval import epsilons, Relation, call_fn, Unsupported, Obj, ThisObj, Ev
from ir import walk_nl, uncast, base_type
from facts import Fn, walk, children

GROUPS = ["utils", "decoder", "mteval", "training", "word-aligner", "extractor", "klm"]

SORTS = {"sort", "stable_sort", "partial_sort", "nth_element", "make_heap", "push_heap", "pop_heap", "sort_heap",
         "min_element", "max_element", "lower_bound", "upper_bound", "equal_range", "binary_search", "merge",
         "inplace_merge", "includes", "set_union", "set_intersection", "set_difference", "partial_sort_copy", "is_sorted"}
ORDERED = ("std::set<", "std::multiset<", "std::map<", "std::multimap<", "std::priority_queue<")


def targs(t, start):
    """template arguments of the template-id whose '<' is at t[start]."""
    d, cur, out = 0, "", []
    for ch in t[start:]:
        if ch == "<":
            d += 1
            if d == 1:
                continue
        if ch == ">":
            d -= 1
            if d == 0:
                out.append(cur.strip())
                return out
        if ch == "," and d == 1:
            out.append(cur.strip())
            cur = ""
            continue
        cur += ch
    return out


def lambda_fn(db, owner, n):
    h = {"key": owner.key + "::lambda", "name": owner.name + "::lambda", "file": owner.file, "l": n["l"], "params": n["par"], "op": "()"}
    f = Fn(h, None, {}, db)
    f._body, f._inits = n["c"][0], []
    return f


def find(db):
    """comparators: {id: (Fn, how)}"""
    out = {}

    def add(f, how):
        out.setdefault(f.key + f.loc(), (f, how))
    byclass = {}
    for f in db.fns.values():
        if f.h.get("op") == "()" and len(f.params) == 2 and f.h["ret"] == "bool":
            byclass.setdefault(f.h.get("cls"), []).append(f)
            byclass.setdefault(f.cls, []).append(f)
        if f.h.get("op") in ("<", ">") and f.h["ret"] == "bool":
            ts = [base_type(p["t"]) for p in f.params]
            if (len(ts) == 1 and (ts[0] == f.h.get("cls") or ts[0].split("::")[-1] == (f.cls or "").split("::")[-1])) or (len(ts) == 2 and ts[0] == ts[1]):
                add(f, "operator" + f.h["op"])

    def addcls(t, how):
        t = base_type(t)
        for f in byclass.get(t, []) + (byclass.get(re.sub(r"<.*", "", t), []) if "<" in t else []):
            if base_type(f.params[0]["t"]) == base_type(f.params[1]["t"]):
                add(f, how)
    types = set()
    for f in db.fns.values():
        for n in f.nodes():
            t = n.get("t")
            if t:
                types.add(t)
            if n["k"] == "Call" and n.get("fn", "").startswith("std::") and n["fn"].split("::")[-1] in SORTS or \
               (n["k"] == "MCall" and n.get("fn", "").startswith("std::list") and n["fn"].endswith("::sort")):
                for a in children(n):
                    u = uncast(a)
                    if u["k"] == "Ref" and u["dk"] == "fn" and u["f"] in db.fns:
                        add(db.fns[u["f"]], n["fn"])
                    elif u["k"] == "Un" and u["op"] == "&" and u["c"][0]["k"] == "Ref" and u["c"][0].get("f") in db.fns:
                        add(db.fns[u["c"][0]["f"]], n["fn"])
                    elif u["k"] == "Lambda":
                        add(lambda_fn(db, f, u), n["fn"])
                    elif u["k"] == "Ctor" and len(children(u)) == 1 and children(u)[0]["k"] == "Lambda":
                        add(lambda_fn(db, f, children(u)[0]), n["fn"])
                    else:
                        addcls(a.get("t", ""), n["fn"])
    for r in db.recs.values():
        for fl in r["fields"]:
            types.add(fl["t"])
    for v in db.vars.values():
        types.add(v["t"])
    for t in types:
        for o in ORDERED:
            i = t.find(o)
            while i >= 0:
                for a in targs(t, i + len(o) - 1)[1:]:
                    addcls(a, o[:-1])
                i = t.find(o, i + 1)
    return list(out.values())


class M:
    """boolean matrix, rows as bit sets."""
    def __init__(self, rows):
        self.n = len(rows)
        self.r = [sum(1 << j for j, v in enumerate(row) if v) for row in rows] if rows and isinstance(rows[0], list) else rows
        self.full = (1 << self.n) - 1

    @property
    def T(self):
        return M([sum(1 << i for i in range(self.n) if self.r[i] >> j & 1) for j in range(self.n)])

    def __invert__(self):
        return M([self.full & ~x for x in self.r])

    def __and__(self, o):
        return M([x & y for x, y in zip(self.r, o.r)])

    def __or__(self, o):
        return M([x | y for x, y in zip(self.r, o.r)])

    def __xor__(self, o):
        return M([x ^ y for x, y in zip(self.r, o.r)])

    def first(self):
        for i, x in enumerate(self.r):
            if x:
                return [i, (x & -x).bit_length() - 1]
        return None


def check_order(m):
    """-> None or (law, indices)"""
    for i in range(m.n):
        if m.r[i] >> i & 1:
            return "irreflexivity: an element orders before itself", [i]
    s = (m & m.T).first()
    if s:
        return "asymmetry: a orders before b and b before a", s

    def trans(R):
        for a in range(R.n):
            x = R.r[a]
            while x:
                b = (x & -x).bit_length() - 1
                x &= x - 1
                d = R.r[b] & ~R.r[a]
                if d:
                    return [a, b, (d & -d).bit_length() - 1]
        return None
    x = trans(m)
    if x:
        return "transitivity: a before b before c, but not a before c", x
    x = trans(~(m | m.T))
    if x:
        return "equivalence of ties: a ties with b, b with c, but a does not tie with c", x
    return None


def ident(f):
    return "%s(%s)" % (f.name, ",".join(p["t"] for p in f.params))


def run(db, ctx):
    ctx.rule("strict-weak-order", "every function used as an ordering (operator<, operator>, comparator given to a sort/heap/search algorithm or to an ordered container) is evaluated on all valuations of the attributes it reads over a 3-element ordered domain; irreflexivity, asymmetry, transitivity and transitivity of ties must hold")
    ctx.rule("companion-operators", "operators < > <= >= == != defined for the same type must agree on the same enumeration")
    cmps = find(db)
    dec = und = 0
    lim = 243 if ctx.tier == "quick" else 729
    for f, how in sorted(cmps, key=lambda x: (x[0].file, x[0].line, x[0].key)):
        r = Relation(db, [("r", call_fn(db, f))], lim)
        try:
            res = r.run()
        except Unsupported as e:
            und += 1
            ctx.notes.append("undecided comparator %s %s: %s" % (ident(f)[:120], f.loc(), e))
            continue
        except RecursionError:
            und += 1
            continue
        dec += 1
        bad = None
        for cf, out in res:
            bad = check_order(M(out["r"]))
            if bad:
                break
        for eps in sorted(epsilons(db, f))[:3] if not bad else ():
            r2 = Relation(db, [("r", call_fn(db, f))], lim)
            r2.eps = eps
            try:
                for cf, out in r2.run():
                    bad = bad or check_order(M(out["r"]))
            except (Unsupported, RecursionError):
                continue
            if bad:
                r = r2
                break
        ctx.ob(bad is None)
        ctx.sample("%s %s used by %s: attributes {%s}, %d profiles" % (f.loc(), ident(f)[:100], how, ", ".join(a for a, _ in r.attrs), len(r.prof)))
        if bad:
            ctx.violate("strict-weak-order", f.loc(), "%s (used as %s) violates %s; witness %s" % (f.name, how, bad[0], " ".join(r.show(i) for i in bad[1])), "%s|%s" % (f.file, ident(f)))
    # companions
    groups = {}
    for f in db.fns.values():
        op = f.h.get("op")
        if op in ("<", ">", "<=", ">=", "==", "!=") and f.h["ret"] == "bool":
            ts = [base_type(p["t"]) for p in f.params]
            if len(ts) == 2 and ts[0] == ts[1]:
                groups.setdefault(ts[0], {})[op] = f
            elif len(ts) == 1 and f.h.get("cls") and (ts[0] == f.h["cls"] or ts[0].split("::")[-1] == f.cls.split("::")[-1]):
                groups.setdefault(ts[0], {})[op] = f
    comp = 0
    laws = [(">", lambda m: m["<"].T, ("<",), "a>b iff b<a"), ("<=", lambda m: ~m["<"].T, ("<",), "a<=b iff not b<a"),
            (">=", lambda m: ~m["<"], ("<",), "a>=b iff not a<b"), ("!=", lambda m: ~m["=="], ("==",), "a!=b iff not a==b"),
            ("<=", lambda m: ~m[">"], (">",), "a<=b iff not a>b")]
    for t, g in sorted(groups.items()):
        for op, mk, needs, law in laws:
            if op not in g or any(x not in g for x in needs):
                continue
            fs = [(o, call_fn(db, g[o])) for o in (op,) + needs]
            r = Relation(db, fs, 81)
            try:
                res = r.run()
            except (Unsupported, RecursionError) as e:
                ctx.notes.append("undecided companion %s of %s: %s" % (op, t, e))
                continue
            comp += 1
            ok = True
            for cf, out in res:
                m = {o: M(v) for o, v in out.items()}
                bad = (m[op] ^ mk(m)).first()
                if bad:
                    ok = False
                    ctx.violate("companion-operators", g[op].loc(), "operator%s of %s breaks '%s'; witness %s %s" % (op, t, law, r.show(bad[0]), r.show(bad[1])), "%s|%s|%s" % (g[op].file, t, op))
                    break
            ctx.ob(ok)
    # a<b and a==b exclusive
    for t, g in sorted(groups.items()):
        if "<" in g and "==" in g:
            r = Relation(db, [("<", call_fn(db, g["<"])), ("==", call_fn(db, g["=="]))], 81)
            try:
                res = r.run()
            except (Unsupported, RecursionError) as e:
                continue
            comp += 1
            ok = True
            for cf, out in res:
                a, b = (M(out[o]) for o in ("<", "=="))
                bad = (a & b).first()
                if bad:
                    ok = False
                    ctx.violate("companion-operators", g["<"].loc(), "%s: a<b and a==b both hold; witness %s %s" % (t, r.show(bad[0]), r.show(bad[1])), "%s|%s|<&==" % (g["<"].file, t))
                    break
            ctx.ob(ok)
    ctx.floor("comparators_decided", dec, 20)
    ctx.count("comparators_undecided", und)
    ctx.floor("companion_laws_decided", comp, 5)
    ctx.assume += ["floating-point keys are not NaN", "attributes an ordering reads vary independently over three ordered values (every violation of these universal laws that depends only on comparisons shows up there)"]
