"""Equality is an equivalence relation and hashing respects it."""
import re
import hashread
from minieval import epsilons, parallel, Relation, call_fn, Unsupported, Obj, ThisObj, Ev
from c01 import targs, M, ident
from ir import base_type

WANT_DEP = True
GROUPS = ["utils", "decoder", "mteval", "training", "word-aligner", "extractor", "klm"]
CONT = re.compile(r"(?:std::|boost::unordered::)unordered_(map|set|multimap|multiset)<")


def norm(t):
    return re.sub(r"\s+", "", t).replace("(anonymousnamespace)::", "")


def hash_call(fn):
    def go(ev):
        out = []
        for x in ("A", "B"):
            ev2 = Ev(ev.db, ev.val, hashmode=True)
            ps = fn.params
            this = None
            if fn.h.get("op") == "()":
                this = Obj("K", "hasher", "")
            r = ev2.call(fn, this, [Obj(x, "", ps[0]["t"])] + [Obj("K", "seed", "unsigned long") for _ in ps[1:]])
            out.append(ev2.scalar(r) if isinstance(r, Obj) else r)
        return out[0] == out[1]

    def unary(ev):
        ev2 = Ev(ev.db, ev.val, hashmode=True)
        ps = fn.params
        this = Obj("K", "hasher", "") if fn.h.get("op") == "()" else None
        r = ev2.call(fn, this, [Obj("A", "", ps[0]["t"])] + [Obj("K", "seed", "unsigned long") for _ in ps[1:]])
        return ev2.scalar(r) if isinstance(r, Obj) else r
    go.unary = unary
    return go


def eqlaws(r, key, again=()):
    """-> ('undecided', why) or ('ok', bad, attrs, cfgs, shown witnesses)"""
    v = eqlaws1(r, key)
    if v[0] == "ok" and not v[1]:
        for r2 in again:
            w = eqlaws1(r2, key)
            if w[0] == "ok" and w[1]:
                return w
    return v


def again(db, f):
    out = []
    for e in sorted(epsilons(db, f))[:2]:
        r = Relation(db, [("==", call_fn(db, f))], 243)
        r.eps = e
        out.append(r)
    return out


def eqlaws1(r, key):
    try:
        res = r.run()
    except (Unsupported, RecursionError) as e:
        return "undecided", str(e)
    bad = None
    for cf, out in res:
        m = M(out["=="])
        for i in range(m.n):
            if not m.r[i] >> i & 1:
                bad = "reflexivity", [i]
        s = (m ^ m.T).first()
        if not bad and s:
            bad = "symmetry", s
        if not bad:
            for a in range(m.n):
                x = m.r[a]
                while x and not bad:
                    b = (x & -x).bit_length() - 1
                    x &= x - 1
                    d = m.r[b] & ~m.r[a]
                    if d:
                        bad = "transitivity", [a, b, (d & -d).bit_length() - 1]
        if bad:
            break
    return "ok", bad, r.attrs, r.cfgs, [r.show(i) for i in bad[1]] if bad else []


def hashlaws(r):
    try:
        res = r.run()
    except (Unsupported, RecursionError) as e:
        return "undecided", str(e)
    for cf, out in res:
        m, h = M(out["=="]), M(out["h"])
        bad = (m & ~h).first()
        if bad:
            return "ok", [r.show(bad[0]), r.show(bad[1])], r.attrs
    return "ok", None, r.attrs


def strip_alloc(t):
    return norm(t)


def run(db, ctx):
    hashread.run(db, ctx)
    ctx.floor("hash functions read", ctx.counts.get("hash functions read", 0), 8)
    for k in [k for k, f in db.fns.items() if f.h.get("dep")]:
        del db.fns[k]
    db.by_name.clear()
    for f in db.fns.values():
        db.by_name.setdefault(f.name, []).append(f)
    ctx.rule("equality-equivalence", "every equality (operator==, equality functor of a hash container) is evaluated on all valuations of the attributes it reads over a small domain; reflexivity, symmetry and transitivity must hold")
    ctx.rule("hash-respects-equality", "for every hash container key type (and every hash_value with a matching operator==) equal profiles must give structurally equal hash terms: the hash may read only what equality fixes")
    eqs, hashes = {}, {}
    for f in db.fns.values():
        if f.h.get("op") == "==" and f.h["ret"] == "bool":
            ts = [norm(base_type(p["t"])) for p in f.params]
            if len(ts) == 2 and ts[0] == ts[1]:
                eqs.setdefault(ts[0], f)
            elif len(ts) == 1 and f.cls and (ts[0] == norm(f.h["cls"]) or ts[0].split("<")[0].split("::")[-1] == f.cls.split("::")[-1]):
                eqs.setdefault(ts[0], f)
        if f.short == "hash_value" and f.params:
            hashes.setdefault(norm(base_type(f.params[0]["t"])), f)
    functors = {}
    for f in db.fns.values():
        if f.h.get("op") == "()" and f.h.get("cls"):
            functors.setdefault(norm(f.h["cls"]), []).append(f)
    pairs = {}    # (hash key, eq key) -> (hash fn, eq fn, key type)
    types = set()
    for f in db.fns.values():
        for n in f.nodes():
            if n.get("t"):
                types.add(n["t"])
    for r in db.recs.values():
        for fl in r["fields"]:
            types.add(fl["t"])
    for v in db.vars.values():
        types.add(v["t"])
    unresolved = set()
    for t in types:
        for m in CONT.finditer(t):
            a = targs(t, m.end() - 1)
            k = 1 if m.group(1) in ("map", "multimap") else 0
            if len(a) < k + 3:
                continue
            key, h, e = a[0], norm(a[k + 1]), norm(a[k + 2])
            hf = ef = None
            if h in functors:
                hf = [f for f in functors[h] if len(f.params) == 1][0] if any(len(f.params) == 1 for f in functors[h]) else None
            elif h.startswith("boost::hash<"):
                hf = hashes.get(h[len("boost::hash<"):-1])
            if e in functors:
                ef = next((f for f in functors[e] if len(f.params) == 2), None)
            elif e.startswith("std::equal_to<"):
                ef = eqs.get(e[len("std::equal_to<"):-1])
            if hf is not None and ef is not None:
                pairs[(hf.key, ef.key)] = (hf, ef, key)
            elif hf is not None or ef is not None:
                if ef is None and e.startswith("std::equal_to<"):
                    pairs[(hf.key, "std")] = (hf, None, key)
                    continue
                unresolved.add((key[:80], h[:60], e[:60]))
    for t, hf in hashes.items():
        if t in eqs:
            pairs[(hf.key, eqs[t].key)] = (hf, eqs[t], t)
    # equality laws
    todo = {f.key: f for f in eqs.values()}
    for hf, ef, k in pairs.values():
        if ef is not None:
            todo[ef.key] = ef
    dec = 0
    decided = {}
    fl = sorted(todo.values(), key=lambda f: (f.file, f.line, f.key))
    for f in fl:
        f.body      # parsed before the workers fork
    for f, v in zip(fl, parallel(lambda f: eqlaws(Relation(db, [("==", call_fn(db, f))], 243), f.key, again(db, f)), fl)):
        if v[0] == "undecided":
            ctx.notes.append("undecided equality %s %s: %s" % (ident(f)[:110], f.loc(), v[1]))
            continue
        _, bad, attrs, cfgs, shown = v
        dec += 1
        decided[f.key] = (attrs, cfgs)
        ctx.ob(bad is None)
        ctx.sample("%s %s: equality over {%s}" % (f.loc(), ident(f)[:90], ", ".join(a for a, _ in attrs)), 14)
        if bad:
            ctx.violate("equality-equivalence", f.loc(), "%s violates %s; witness %s" % (f.name, bad[0], " ".join(shown)), "%s|%s" % (f.file, ident(f)))
    hd = 0
    pl = sorted(pairs.values(), key=lambda p: (p[0].file, p[0].line, p[0].key))

    def one(p):
        hf, ef, key = p
        kt = norm(base_type(key))
        own = any(norm(x) == kt or norm(rr["plain"]) == kt for x, rr in db.recs.items())
        eqf = call_fn(db, ef) if ef is not None else (lambda ev: ev.leaf(Obj("A", "")) == ev.leaf(Obj("B", "")))
        r = Relation(db, [("==", eqf), ("h", hash_call(hf))], 81)
        r.whole = ef is None and not own
        r0 = decided.get(ef.key) if ef is not None else None
        if r0:
            r.attrs, r.cfgs = list(r0[0]), list(r0[1])
        return hashlaws(r)
    for (hf, ef, key), v in zip(pl, parallel(one, pl)):
        en = ef.name if ef is not None else "the library equality of the key type"
        ei = ident(ef) if ef is not None else "std"
        if v[0] == "undecided":
            ctx.notes.append("undecided hash/equality pair %s / %s: %s" % (hf.name, en, v[1]))
            continue
        hd += 1
        _, bad, attrs = v
        ctx.ob(bad is None)
        if bad:
            ctx.violate("hash-respects-equality", hf.loc(), "%s gives different hashes to keys of type %s that %s calls equal; witness %s %s" % (hf.name, key[:60], en, bad[0], bad[1]), "%s|%s|%s" % (hf.file, ident(hf), ei))
        ctx.sample("%s %s with %s: attributes {%s}" % (hf.loc(), hf.name[:80], en[:80], ", ".join(a for a, _ in attrs)), 30)
    for u in sorted(unresolved):
        ctx.notes.append("half-resolved hash container: %s / %s / %s" % u)
    ctx.floor("equalities_decided", dec, 12)
    ctx.floor("hash_pairs_decided", hd, 6)
    ctx.assume += ["opaque hash mixing functions are deterministic functions of the values they are given", "floating-point fields are not NaN"]
