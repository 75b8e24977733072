"""C07: arithmetic members of statistics, vectors and semiring values act on every component,
with the operator they are named after, on every branch."""
import itertools
from facts import walk, AnalysisError
from ir import uncast, base_type
from alg import Eng, Poly, LogV, Obj, Idx, Unsup, numeric, is_container

GROUPS = ["mteval", "decoder", "utils", "training"]
COMP = {"operator+=": "+", "operator-=": "-", "operator*=": "*", "operator/=": "/"}
BINF = {"operator+": "+", "operator-": "-", "operator*": "*", "operator/": "/"}
A, C = Poly.a, Poly.c
# containers of representation, hulls of lines: not component-wise
SKIP = {"ConvexHull": "hull of lines: union and Minkowski sum are not component-wise",
        "cdec::DepthFirstIterator": "iterator", "cdec::BreadthFirstIterator": "iterator"}


def tmplname(c):
    return (c or "").split("<")[0]


def classof(t):
    return base_type(t)


class Cls:
    def __init__(self, name):
        self.name, self.ops = name, []


def fields_of(db, cls):
    out, seen = [], set()
    todo = [cls]
    while todo:
        c = todo.pop()
        r = db.recs.get(c) or next((x for n, x in db.recs.items() if n.split("<")[0] == tmplname(c)), None)
        if r is None or c in seen:
            continue
        seen.add(c)
        for f in r["fields"]:
            if not f.get("static"):
                out.append((f["n"], f["t"]))
        todo += r.get("bases") or []
    return out


def kind(db, f, scores):
    """(op, parameter role list) or None."""
    s, ps = f.short, f.params
    if f.body is None or f.h.get("dep"):
        return None
    if s == "plus_eq_v_times_s" and len(ps) == 2 and numeric(ps[1]["t"]):
        return ("plus", 2)
    if f.cls in scores:
        if s == "PlusEquals":
            return ("plus", len(ps))
        if s == "Subtract" and len(ps) == 2:
            return ("sub2", 2)
        if s == "TimesEquals" and len(ps) == 1:
            return ("times", 1)
        return None
    if s in COMP and f.cls and len(ps) == 1:
        t = classof(ps[0]["t"])
        if tmplname(t) == tmplname(f.cls) or t == f.cls or f.cls.endswith("::" + t):
            return ("comp" + COMP[s], 1)
        if COMP[s] in "*/" and (numeric(ps[0]["t"]) or tmplname(t) in ("LogVal",)):
            return ("scal" + COMP[s], 1)
    return None


def loops_full(eng, p, path, decls, where):
    """every loop through which `path` was updated covers all positions."""
    bad = []
    for lp in p.loops.get(path, []):
        if lp.kind == "idx":
            if lp.start.const() != 0:
                bad.append("the loop starts at %s instead of 0" % lp.start)
            if lp.op not in ("<", "!="):
                bad.append("the loop condition uses %s" % lp.op)
            if lp.step != "++":
                bad.append("the loop steps by %s" % lp.step)
            b = lp.bound
            k = b.const() if isinstance(b, Poly) else None
            want = decls.get(path.split("[")[0].split(".")[-1])
            if k is not None:
                if want is not None and want != k:
                    bad.append("the loop covers %s of %s elements" % (k, want))
            elif isinstance(b, Poly):
                if len(b.m) != 1 or list(b.m.values())[0] != 1:
                    bad.append("the loop bound is %s" % b)
    return bad


def extents(db, cls):
    """field -> element count fixed by its type or by every constructor."""
    d = {}
    for n, t in fields_of(db, cls):
        if t.rstrip().endswith("]"):
            try:
                d[n] = int(t[t.rindex("[") + 1:-1])
            except ValueError:
                pass
    for f in db.fns.values():
        if f.cls == cls and f.h.get("ctor") and f.body is not None:
            for i in f.inits:
                if i.get("field") and i["c"]:
                    x = uncast(i["c"][0])
                    if x["k"] == "Ctor" and "valarray" in x.get("t", "") and len(x.get("c") or []) == 2:
                        v = uncast(x["c"][1])
                        if "v" in v:
                            d.setdefault(i["field"], int(v["v"]))
    return d


def starts(db, cls, logval):
    """initial stores: boolean components enumerated."""
    bools = [n for n, t in fields_of(db, cls) if t == "bool" and not n.startswith("is_")]
    if len(bools) > 2:
        bools = []
    return bools


def run(db, ctx):
    ctx.rule("component-update", "every arithmetic member (+=, -=, *=, /=, PlusEquals, Subtract, TimesEquals and the free operators) leaves in each component exactly the sum, difference, product or quotient of that component and its counterpart; components are the fields any of the class's arithmetic members writes")
    ctx.rule("loop-covers", "an element-wise update runs over all elements: from 0, step 1, below the element count")
    ctx.rule("can-return", "an arithmetic member has a branch that returns normally")
    ctx.rule("identity-test", "IsAdditiveIdentity answers true only when every component is zero, and false only when some component is not")
    ctx.rule("semiring-update", "special products and sums: (p,r)*(p',r') = (pp', pr'+p'r); tropical sum is the larger; logarithm-valued numbers add, subtract, multiply, divide, negate and invert the numbers they stand for, sign by sign")
    ctx.assume.append("overloaded operators of std::valarray and of LogVal (judged on its own) act as arithmetic on their elements; resize zero-fills; floating-point rounding ignored")
    scores = {r["name"] for r in db.recs.values() if derives(db, r["name"], "Score")}
    fam = {}
    for f in db.fns.values():
        if f.file.startswith("klm/"):
            continue
        k = kind(db, f, scores)
        if k and tmplname(f.cls) not in SKIP and "<TropicalValue" not in f.key:
            fam.setdefault(f.cls, []).append((f, k))
    ctx.floor("classes_with_arithmetic", len(fam), 10)
    written = {}
    extents_used = {}
    results = []
    for cls, fs in sorted(fam.items()):
        for f, k in fs:
            r = summarise(db, ctx, cls, f, k)
            results.append((cls, f, k, r))
            if r:
                for st, p, roots in r:
                    for path in p.store:
                        for rt in ("this", "out"):
                            if path.startswith((rt + ".", rt + "[")) and "[=]" not in path:
                                written.setdefault(cls, set()).add(path[len(rt):].lstrip("."))
                                for lp in p.loops.get(path, []):
                                    if isinstance(lp.bound, Poly):
                                        extents_used.setdefault(cls, set()).update(a.split(".")[-1] for m in lp.bound.m for a, _ in m)
    for cls in written:
        written[cls] -= extents_used.get(cls, set())
    for cls, f, k, r in results:
        if r is None:
            continue
        judge(db, ctx, cls, f, k, r, written.get(cls, set()), len([1 for x in fam[cls]]))
    plain_loops(db, ctx, fam)
    ident(db, ctx, scores, written)
    binary(db, ctx, fam, written)
    logval(db, ctx)
    ctx.floor("members_judged", ctx.counts.get("members_judged", 0), 25)


def derives(db, c, base, d=0):
    r = db.recs.get(c)
    if r is None or d > 6:
        return False
    for b in r.get("bases") or []:
        if b == base or b.split("<")[0] == base or derives(db, b, base, d + 1):
            return True
    return False


def engine(db, cls):
    return Eng(db, numlike=() if tmplname(cls) == "LogVal" else ("LogVal",))


def summarise(db, ctx, cls, f, k):
    eng = engine(db, cls)
    out = []
    bools = starts(db, cls, None)
    pn = [p["d"] for p in f.params]
    for vals in itertools.product((0, 1), repeat=2 * len(bools)):
        store = {}
        for i, b in enumerate(bools):
            store["this." + b] = bool(vals[2 * i])
            store["o." + b] = bool(vals[2 * i + 1])
        if tmplname(cls) == "LogVal":
            store["this.v_"], store["o.v_"] = LogV(A("A")), LogV(A("B"))
        env = {"this": Obj("this", cls)}
        if k[0] in ("plus", "sub2"):
            env[pn[0]] = Obj("o", cls)
            if len(pn) > 1:
                env[pn[1]] = A("s") if k[0] == "plus" else Obj("out", cls)
        elif k[0].startswith("comp"):
            env[pn[0]] = Obj("o", cls)
        else:
            env[pn[0]] = A("s")
        try:
            for p in eng.paths(f, env, store):
                out.append((store, p, None))
        except Unsup as e:
            ctx.notes.append("not decided: %s (%s)" % (f.key, e))
            ctx.count("members_not_decided")
            return None
    return out


def expected(k, this, o, s):
    if k[0] == "plus":
        return this + (o if k[1] == 1 else s * o)
    if k[0] == "sub2":
        return this - o
    if k[0] in ("times", "scal*"):
        return this * s
    if k[0] == "scal/":
        return this * s.inv()
    return {"comp+": lambda: this + o, "comp-": lambda: this - o}[k[0]]()


def judge(db, ctx, cls, f, k, res, comps, nops):
    tn = tmplname(cls)
    if tn == "LogVal" or not f.file.startswith(("utils/", "decoder/", "training/", "mteval/")):
        return
    nm = "%s::%s/%d" % (cls, f.short, len(f.params))
    ctx.count("members_judged")
    if not [1 for _, p, _ in res if not p.thrown]:
        ctx.ob(False)
        ctx.violate("can-return", f.loc(), "%s never returns normally: every branch throws" % nm, nm)
        return
    if k[0] in ("comp*", "comp/") or tn in ("TropicalValue", "Boolean"):
        return special(db, ctx, cls, f, k, res, nm)
    ext = extents(db, cls)
    flds = fields_of(db, cls)
    want = set(comps)
    if nops == 1:
        for n, t in flds:
            if t.endswith("]"):
                want.add(n + "[*]")
            elif numeric(t) and t != "bool":
                want.add(n)
    want = {w for w in want if keep(w, flds)}
    groups = alternatives(want)
    for store, p, _ in res:
        if p.thrown:
            continue
        tgt = "out" if k[0] == "sub2" else "this"
        eng = Eng(db)
        eng.p, eng.sub, eng.copies = p, p.sub, p.copies
        copied = [v[1] for kk, v in p.store.items() if kk == tgt + "[=]"]
        for alts in groups:
            # alternative representations of one component: one of them is updated on each branch
            msgs = []
            done = False
            for w in alts:
                path = join(tgt, w)
                e = expected(k, sval(p, join("this", w)), sval(p, join("o", w)), A("s").subst(p.sub))
                got = p.store.get(path)
                if got is None and copied:
                    got = sval(p, join(copied[0], w))
                if got is None and (tgt == "this") and e == sval(p, join("this", w)):
                    got = e            # nothing to do on this branch
                if got is None:
                    msgs.append("%s is not updated%s" % (w, cond(p)))
                    continue
                done = True
                got = got.subst(p.sub) if isinstance(got, Poly) else got
                if got != e:
                    msgs = ["%s becomes %s, not %s%s" % (w, got, e, cond(p))]
                    break
                msgs = []
                bad = loops_full(eng, p, path, ext, f)
                if bad:
                    ctx.ob(False)
                    ctx.violate("loop-covers", f.loc(), "%s updates %s but %s" % (nm, w, bad[0]), nm + "|" + w)
                break
            ctx.ob(not msgs)
            if msgs:
                ctx.violate("component-update", f.loc(), "%s: %s" % (nm, msgs[0]), nm + "|" + alts[0])
    ctx.sample("%s: %d components on %d branches" % (nm, len(want), len(res)))


def sval(p, path):
    return A(path).subst(p.sub) if path else None


def join(a, w):
    return a + w if w.startswith("[") else a + "." + w


def keep(w, flds):
    top = w.split("[")[0].split(".")[0]
    t = dict(flds).get(top)
    if t is None:
        return bool(w == "[*]" or w.startswith("["))
    if t.rstrip().endswith("*") and "[" not in w:
        return False
    if "string" in t or t == "bool":
        return False
    return True


def alternatives(want):
    """groups of components that are representations of one another (one union / two storages)."""
    rep = [w for w in want if w.startswith("data_.") or w == "[*]"]
    rest = [[w] for w in sorted(want) if w not in rep]
    return rest + ([sorted(rep)] if rep else [])


def cond(p):
    ds = ["%s%s" % ("" if v else "not ", k) for k, v in p.dec.items()]
    return " (when %s)" % " and ".join(ds) if ds else ""


def special(db, ctx, cls, f, k, res, nm):
    tn = tmplname(cls)
    for store, p, _ in res:
        if p.thrown:
            continue
        g = lambda w: p.store.get("this." + w, sval(p, "this." + w))
        t, o = lambda w: sval(p, "this." + w), lambda w: sval(p, "o." + w)
        ok, why = True, ""
        if tn == "PRPair" and k[0] == "comp*":
            for w, e in (("p", t("p") * o("p")), ("r", t("p") * o("r") + o("p") * t("r"))):
                if g(w) != e:
                    ok, why = False, "%s becomes %s, not %s" % (w, g(w), e)
        elif tn == "TropicalValue":
            if k[0] == "comp+":
                d = None
                for kk, v in p.dec.items():
                    if kk == "neg(%s)" % (A("this.v_") - A("o.v_")):
                        d = v
                    elif kk == "neg(%s)" % (A("o.v_") - A("this.v_")):
                        d = not v
                e = o("v_") if d else t("v_")
                if d is None or g("v_") != e:
                    ok, why = False, "v_ becomes %s%s, not the larger one" % (g("v_"), cond(p))
            elif g("v_") != t("v_") * o("v_"):
                ok, why = False, "v_ becomes %s" % g("v_")
        elif tn == "Boolean":
            x, y = store["this.x"], store["o.x"]
            e = (x or y) if k[0] == "comp+" else (x and y)
            v = g("x")
            v = v.const() != 0 if isinstance(v, Poly) else v
            if bool(v) != e:
                ok, why = False, "%s and %s give %s" % (x, y, v)
        else:
            return
        ctx.ob(ok)
        if not ok:
            ctx.violate("semiring-update", f.loc(), "%s: %s" % (nm, why), nm)
    ctx.sample("%s: %d branches" % (nm, len(res)))


def plain_loops(db, ctx, fam):
    """index loops of the members, by their form: they start at the first element and do not stop short of the last;
    a member does not cut its own storage down to that of its operand."""
    fs = [f for x in fam.values() for f, _ in x]
    fs += [f for f in db.fns.values() if f.short == "IsAdditiveIdentity" and f.body is not None and not f.h.get("dep") and f.cls]
    for f in sorted(fs, key=lambda f: f.key):
        if not f.file.startswith(("utils/", "decoder/", "training/", "mteval/")):
            continue
        idx = [x for x in (subscript(n) for n in walk(f.body)) if x is not None]
        direct = {int(x["v"]) for x in idx if "v" in x}
        for n in walk(f.body):
            if n["k"] != "For":
                continue
            lp = index_loop(n)
            if lp is None:
                continue
            v, start, cut, op = lp
            body = [x for x in (subscript(y) for y in walk(n["c"][-1])) if x is not None]
            used = [x for x in body if any(y["k"] == "Ref" and y.get("d") == v for y in walk(x))]
            if not used or any(x["k"] != "Ref" for x in used):
                continue
            ok = start <= 0 or set(range(start)) <= direct
            ctx.ob(ok)
            if not ok:
                ctx.violate("loop-covers", f.loc(n), "%s: the loop starts at %d instead of 0" % (f.name, start), "%s|%s|start" % (f.cls, f.short))
            ok = cut - (op == "<=") <= 0 or any(x["k"] == "Bin" and x not in used for x in idx)
            ctx.ob(ok)
            if not ok:
                ctx.violate("loop-covers", f.loc(n), "%s: the loop stops short of the last element" % f.name, "%s|%s|end" % (f.cls, f.short))
        cut_down(ctx, f, f.body, any(x["k"] == "Bin" and x["op"] in ("<", ">", "<=", ">=") for n in walk(f.body) if n["k"] in ("If", "Cond") for c in n["c"][:3] if c is not None for x in walk(c)))


def subscript(n):
    """index expression of a[i] (builtin or overloaded)."""
    if n["k"] in ("Index", "Sub", "Arr") and len(n["c"]) == 2:
        return uncast(n["c"][1])
    if n["k"] == "OCall" and n.get("op") == "[]" and len(n["c"]) == 2:
        return uncast(n["c"][1])
    return None


def index_loop(n):
    """(variable, constant start, elements left out at the end, operator) of an upward index loop bounded by a size()."""
    init, cond = n["c"][0], n["c"][2]
    if init is None or cond is None:
        return None
    vs = [x for x in walk(init) if x["k"] == "Var" and x.get("c")]
    if len(vs) != 1:
        return None
    st = uncast(vs[0]["c"][0])
    if "v" not in st:
        return None
    c = uncast(cond)
    if c["k"] != "Bin" or c["op"] not in ("<", "<=", "!=", ">", ">="):
        return None
    l, r = uncast(c["c"][0]), uncast(c["c"][1])
    if c["op"] in (">", ">="):
        l, r = r, l
    op = {">": "<", ">=": "<="}.get(c["op"], c["op"])
    la, lk = offset(l)
    ra, rk = offset(r)
    if la is None or ra is None or la["k"] != "Ref" or la.get("d") != vs[0].get("d"):
        return None
    if not (ra["k"] == "MCall" and ra.get("fn", "").split("::")[-1] in ("size", "length")):
        return None
    return vs[0]["d"], int(st["v"]), lk - rk, op


def offset(e):
    """(atom, constant) of atom + c or atom - c."""
    e = uncast(e)
    if e["k"] == "Bin" and e["op"] in "+-":
        l, r = uncast(e["c"][0]), uncast(e["c"][1])
        if "v" in r:
            return l, int(r["v"]) * (1 if e["op"] == "+" else -1)
        if "v" in l and e["op"] == "+":
            return r, int(l["v"])
    return e, 0


def cut_down(ctx, f, n, guard):
    """own.resize(operand.size()) that no comparison of sizes guards."""
    if n is None:
        return
    if n["k"] == "MCall" and n.get("fn", "").split("::")[-1] == "resize" and len(n["c"]) >= 2:
        own, want = uncast(n["c"][0]), uncast(n["c"][1])
        if own["k"] == "Mem" and own["c"] and uncast(own["c"][0])["k"] == "This" and want["k"] == "MCall" and want.get("fn", "").split("::")[-1] == "size" and want["c"]:
            src = uncast(want["c"][0])
            if src["k"] == "Mem" and src.get("n") == own.get("n") and src["c"] and uncast(src["c"][0])["k"] != "This":
                ctx.ob(guard)
                if not guard:
                    ctx.violate("loop-covers", f.loc(n), "%s cuts its own %s down to the operand's length: the elements beyond are lost" % (f.name, own.get("n")), "%s|%s|cut" % (f.cls, f.short))
    for c in n.get("c") or []:
        cut_down(ctx, f, c, guard)


def ident(db, ctx, scores, written):
    for f in sorted(db.fns.values(), key=lambda f: f.key):
        if f.short != "IsAdditiveIdentity" or f.body is None or f.h.get("dep") or not f.cls:
            continue
        eng = engine(db, f.cls)
        try:
            ps = eng.paths(f, {"this": Obj("this", f.cls)})
        except Unsup as e:
            ctx.notes.append("not decided: %s (%s)" % (f.key, e))
            ctx.count("members_not_decided")
            continue
        ctx.count("members_judged")
        comps = {w for w in written.get(f.cls, set()) if keep(w, fields_of(db, f.cls))}
        ext = extents(db, f.cls)
        for p in ps:
            if p.thrown:
                continue
            r = p.ret
            eng.p, eng.sub, eng.copies, eng.pre = p, p.sub, {}, p.dec
            if not isinstance(r, bool):
                try:
                    r = eng.decide(r)
                except Exception:
                    # returned expression is itself the test
                    rs = [(True, r), (False, r)]
                    z = getattr(r, "zero", None)
                    nz = {w for w in comps if sval(p, "this." + w).const() != 0}
                    miss = [w for w in nz if z is None or z != A("this." + w)]
                    ok = not miss and not getattr(r, "neg", False)
                    ctx.ob(ok)
                    if not ok:
                        ctx.violate("identity-test", f.loc(), "%s answers true without testing %s" % (f.name, ", ".join(sorted(miss)) or "its component"), f.cls)
                    continue
            nonzero = any(kk.startswith("zero(") and not v for kk, v in p.dec.items())
            if r:
                miss = sorted(w for w in comps if sval(p, "this." + w).const() != 0)
                ctx.ob(not miss)
                if miss:
                    ctx.violate("identity-test", f.loc(), "%s answers true without testing %s" % (f.name, ", ".join(miss)), f.cls)
            else:
                ctx.ob(nonzero)
                if not nonzero:
                    ctx.violate("identity-test", f.loc(), "%s answers false although no component was found to differ from zero" % f.name, f.cls)
        # loops of the test cover everything
        for n in walk(f.body):
            if n["k"] == "For":
                cc = uncast(n["c"][2]) if n["c"][2] is not None else None
                b = uncast(cc["c"][1]) if cc is not None and cc["k"] == "Bin" else None
                if b is not None and "v" in b and len(set(ext.values())) == 1 and ext:
                    ok = int(b["v"]) == list(ext.values())[0] and cc["op"] in ("<", "!=")
                    ctx.ob(ok)
                    if not ok:
                        ctx.violate("loop-covers", f.loc(n), "%s tests %s of %s elements" % (f.name, b["v"], list(ext.values())[0]), f.cls + "|ident")


def binary(db, ctx, fam, written):
    """free operators returning a new value."""
    for f in sorted(db.fns.values(), key=lambda f: f.key):
        if f.short not in BINF or f.body is None or f.h.get("dep") or f.cls or "<TropicalValue" in f.key or len(f.params) != 2 or f.file.startswith("klm/"):
            continue
        ts = [classof(p["t"]) for p in f.params]
        cls = next((t for t in ts if t in fam or any(tmplname(t) == tmplname(c) for c in fam)), None)
        if cls is None or tmplname(cls) in ("LogVal", "Boolean") or tmplname(cls) in SKIP:
            continue
        both = tmplname(ts[0]) == tmplname(ts[1])
        op = BINF[f.short]
        if both and op in "*/" and tmplname(cls) != "PRPair":
            continue
        eng = engine(db, cls)
        env = {"this": None}
        if both:
            env[f.params[0]["d"]], env[f.params[1]["d"]] = Obj("this", cls), Obj("o", cls)
        else:
            i = 0 if ts[0] == cls else 1
            env[f.params[i]["d"]], env[f.params[1 - i]["d"]] = Obj("this", cls), A("s")
        try:
            ps = eng.paths(f, env)
        except Unsup as e:
            ctx.notes.append("not decided: %s (%s)" % (f.key, e))
            ctx.count("members_not_decided")
            continue
        ctx.count("members_judged")
        comps = set()
        for c, w in written.items():
            if tmplname(c) == tmplname(cls):
                comps |= w
        flds = fields_of(db, cls)
        comps = {w for w in comps if keep(w, flds)}
        nm = "%s(%s)" % (f.short, ", ".join(ts))
        for p in ps:
            if p.thrown or not isinstance(p.ret, Obj):
                continue
            eng.p, eng.sub, eng.copies = p, p.sub, p.copies
            for alts in alternatives(comps):
                msgs = []
                for w in alts:
                    t, o, s = sval(p, join("this", w)), sval(p, join("o", w)), A("s").subst(p.sub)
                    if tmplname(cls) == "PRPair" and op == "*":
                        e = {"p": t * o, "r": sval(p, "this.p") * o + sval(p, "o.p") * t}[w]
                    elif both:
                        e = t + o if op == "+" else t - o
                    else:
                        e = t * s if op == "*" else t * s.inv() if op == "/" else None
                    if e is None:
                        break
                    got = eng.read(Obj(join(p.ret.path, w)))
                    if got == e:
                        msgs = []
                        break
                    msgs.append("%s of the result is %s, not %s%s" % (w, got, e, cond(p)))
                ctx.ob(not msgs)
                if msgs:
                    ctx.violate("component-update", f.loc(), "%s: %s" % (nm, msgs[0]), nm)
        ctx.sample("%s: %d components" % (nm, len(comps)))


def logval(db, ctx):
    """numbers kept as sign and logarithm: real value (+-)exp(v_)."""
    fs = [f for f in db.fns.values() if tmplname(f.cls) == "LogVal" and f.body is not None and not f.h.get("dep") and f.cls == "LogVal<double>" or (f.cls == "LogVal" and not f.h.get("dep"))]
    n = 0
    for f in fs:
        np_, s = len(f.params), f.short
        if s in COMP and np_ == 1 and "LogVal" in f.params[0]["t"]:
            sp = COMP[s]
        elif s == "operator-" and np_ == 0:
            sp = "neg"
        elif s == "negate":
            sp = "negate"
        elif s == "inverse":
            sp = "inv"
        elif s == "poweq":
            sp = "pow"
        elif s == "as_float":
            sp = "real"
        else:
            continue
        eng = Eng(db)
        nm = "LogVal::" + s
        for a, b in itertools.product((False, True), repeat=2):
            if np_ == 0 and b:
                continue
            store = {"this.s_": a, "o.s_": b, "this.v_": LogV(A("A")), "o.v_": LogV(A("B"))}
            env = {"this": Obj("this", f.cls)}
            if np_:
                env[f.params[0]["d"]] = Obj("o", f.cls) if "LogVal" in f.params[0]["t"] else A("k")
            try:
                ps = eng.paths(f, env, store)
            except Unsup as e:
                ctx.notes.append("not decided: %s (%s)" % (f.key, e))
                ctx.count("members_not_decided")
                break
            n += 1
            for p in ps:
                if p.thrown:
                    continue
                sg = lambda x: C(-1) if x else C(1)
                x, y = sg(a) * A("A").subst(p.sub), sg(b) * A("B").subst(p.sub)
                tgt = "this"
                try:
                    if sp == "+":
                        e = x + y
                    elif sp == "-":
                        e = x - y
                    elif sp == "*":
                        e = x * y
                    elif sp == "/":
                        e = x * y.inv()
                    elif sp in ("neg", "negate"):
                        e = -x
                    elif sp == "inv":
                        e = x.inv()
                    elif sp == "real":
                        e = x
                    elif sp == "pow":
                        if a:
                            continue
                        e = A("(A)**(k)")
                except Unsup:
                    continue
                if sp == "real":
                    got = p.ret
                else:
                    if sp in ("neg", "inv"):
                        tgt = p.ret.path if isinstance(p.ret, Obj) else "this"
                    v, sv = p.store.get(tgt + ".v_"), p.store.get(tgt + ".s_")
                    if isinstance(sv, Poly):
                        sv = sv.const() != 0
                    got = sg(sv) * v.p if isinstance(v, LogV) and isinstance(sv, bool) else None
                    if got is not None:
                        got = got.subst(p.sub)
                ok = got == e
                ctx.ob(ok)
                if not ok:
                    ctx.violate("semiring-update", f.loc(), "%s: for signs (%s,%s) the result stands for %s, not %s%s" % (nm, "-" if a else "+", "-" if b else "+", got, e, cond(p)), nm)
        ctx.sample(nm)
    ctx.floor("logarithm_cases", n, 10)
