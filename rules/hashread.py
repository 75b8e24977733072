"""What hash functions read: never where an object lies, never bytes nobody wrote,
never members equality does not look at (templates included)."""
import re
from facts import walk
from ir import uncast, is_const, fn_parents, render

RAW = re.compile(r"(Murmur\w*|murmur\w*|^crc\w*|^xxh\w*|FNV\w*|fnv\w*|^hash_bytes$)")
INTT = re.compile(r"^(const )?(unsigned |signed )?(long|int|short|char|long long|size_t|unsigned)( int)?( const)?$")


def hashers(db):
    out = []
    for f in db.fns.values():
        if f.file.startswith(("/", "klm/")) or f.file.startswith("utils/murmur") or re.search(r"_test\.|/ts\.cc", f.file):
            continue
        nm = f.short
        if nm in ("hash_value", "hash_impl") or f.h.get("op") == "()" and len(f.params) == 1 and re.search(r"[hH]ash", f.h.get("cls") or f.name) and INTT.match(f.h["ret"]) or re.match(r"^[hH]ash[A-Z_]\w*$", nm) and INTT.match(f.h["ret"]):
            out.append(f)
    return out


def stripc(n):
    while n is not None and n["k"] in ("ICast", "Cast", "Paren") and n.get("c"):
        n = n["c"][0]
    return n


def terms(e, f, out):
    """additive terms of an expression; locals with one initialiser are looked through."""
    e = stripc(e)
    if e is None:
        return
    if e["k"] == "Bin" and e["op"] == "+":
        terms(e["c"][0], f, out)
        terms(e["c"][1], f, out)
        return
    if e["k"] == "Ref" and e.get("dk") == "local":
        vs = [v for v in f.nodes() if v["k"] == "Var" and v.get("d") == e.get("d") and v.get("c")]
        if len(vs) == 1 and not any(x["k"] in ("CAssign", "Bin") and x.get("op", "").endswith("=") and x.get("op") not in ("==", "!=", "<=", ">=") and stripc(x["c"][0]) is not None and stripc(x["c"][0]).get("d") == e.get("d") and stripc(x["c"][0])["k"] == "Ref" for x in f.nodes()):
            terms(vs[0]["c"][0], f, out)
            return
    v = is_const(e)
    if v is None and "v" in e and e["k"] in ("Sizeof", "Bin"):
        v = e["v"]
    if isinstance(v, (int, float)):
        out["#"] = out.get("#", 0) + int(v)
    else:
        r = render(e)
        out[r] = out.get(r, 0) + 1


def base_local(e):
    """(Var id, offset node or None) of buf, &buf[k], buf + k"""
    e = stripc(e)
    if e is None:
        return None
    if e["k"] == "Ref" and e.get("dk") == "local":
        return e.get("d"), None
    if e["k"] == "Un" and e["op"] == "&":
        s = stripc(e["c"][0])
        if s["k"] == "Sub":
            b = stripc(s["c"][0])
            if b["k"] == "Ref" and b.get("dk") == "local":
                return b.get("d"), s["c"][1]
        if s["k"] == "Ref" and s.get("dk") == "local":
            return s.get("d"), None
    if e["k"] == "Bin" and e["op"] == "+":
        b = stripc(e["c"][0])
        if b["k"] == "Ref" and b.get("dk") == "local":
            return b.get("d"), e["c"][1]
    return None


def fields(f, r):
    """member names of the hashed / compared class that f reads"""
    out = set()
    for n in f.nodes():
        if n["k"] in ("Mem", "DepMem"):
            b = stripc((n.get("c") or [None])[0])
            if b is None or b["k"] == "This" or b["k"] == "Ref" and b.get("dk") == "param" or b["k"] == "Un" and b["op"] == "*":
                out.add(n["n"])
    return out & {x["n"] for x in r["fields"]} if r else set()


def callees(db, f, depth=2):
    out = [f]
    if depth:
        for n in f.nodes():
            if n["k"] in ("MCall", "Call") and n.get("f"):
                g = db.fns.get(n["f"]) or db.fns.get(n["f"] + "#dep")
                if g is not None and g is not f and g.cls == f.cls:
                    out += callees(db, g, depth - 1)
    return out


def run(db, ctx):
    ctx.rule("hash-reads", "a hash function (templates included) reads values only: no address of the hashed object or of the functor, no bytes of a buffer beyond those written to it, no padding of a structure, no length other than the size of what it hashes, and in a class no member that the class's own equality does not compare")
    hs = hashers(db)
    for f in hs:
        par = fn_parents(f)
        ctx.count("hash functions read")
        key = "%s|%s" % (f.file, f.name)
        pnames = {p["n"]: p for p in f.params}
        bad = []
        for n in f.nodes():
            own = None
            if n["k"] == "This":
                own = n
            elif n["k"] == "Un" and n["op"] == "&":
                b = stripc(n["c"][0])
                while b is not None and b["k"] in ("Mem", "DepMem", "Sub") and not b.get("a"):
                    b = stripc(b["c"][0])
                if b is not None and (b["k"] == "Ref" and b.get("dk") == "param" and not pnames.get(b["n"], {}).get("t", "").rstrip().endswith("*") or b["k"] == "This"):
                    own = n
            elif n["k"] == "Ref" and n.get("dk") == "param" and pnames.get(n["n"], {}).get("t", "").rstrip().endswith(("*", "*const")):
                own = n
            if own is None:
                continue
            p = par.get(own["i"])
            viacast = False
            while p is not None and p["k"] in ("ICast", "Cast", "Paren"):
                viacast = viacast or bool(INTT.match(p.get("t", "")))
                p = par.get(p["i"])
            nm = (p.get("fn") or "").split("<")[0].split("::")[-1] if p is not None else ""
            if not nm and p is not None and p["k"] == "Call" and p.get("c") and p["c"][0] is not None and p["c"][0]["k"] == "DepRef":
                nm = p["c"][0]["n"]
            if viacast or p is not None and p["k"] in ("Call", "OCall") and (nm in ("hash_combine", "hash_value") or p["k"] == "OCall" and p["op"] == "()" and "hash<" in (p.get("fn") or "") and "*" in (p.get("fn") or "")):
                bad.append((own, "the address %s" % render(own)))
        # raw bytes
        for n in f.nodes():
            if n["k"] != "Call" or not n.get("c"):
                continue
            nm = (n.get("fn") or "").split("<")[0].split("::")[-1]
            if not RAW.search(nm) or len(n["c"]) < 2:
                continue
            ctx.count("raw byte hashes")
            ptr, ln = n["c"][0], n["c"][1]
            t = {}
            terms(ln, f, t)
            for x in walk(ln):
                if x["k"] in ("MCall", "DepMem") and ((x.get("fn") or "").split("::")[-1] in ("capacity", "max_size", "bucket_count") or x.get("n") in ("capacity", "max_size")):
                    bad.append((n, "as many bytes as fit into the object, not as many as it holds"))
                    break
            bl = base_local(ptr)
            if bl is not None:
                vs = [v for v in f.nodes() if v["k"] == "Var" and v.get("d") == bl[0]]
                vt = vs[0]["t"] if vs else ""
                m = re.match(r"^(.*?) ?\[(\d+)\]$", vt)
                if m and not any(v.get("c") for v in vs):
                    covered, whole, other = [], False, False
                    for x in f.nodes():
                        if x["k"] == "Call" and (x.get("fn") or "").split("::")[-1] in ("memcpy", "memset", "memmove", "bzero"):
                            b2 = base_local(x["c"][0])
                            if b2 is not None and b2[0] == bl[0]:
                                tt = {}
                                if b2[1] is not None:
                                    terms(b2[1], f, tt)
                                terms(x["c"][-1], f, tt)
                                covered.append(tt)
                        elif x["k"] == "Bin" and x["op"] == "=" or x["k"] in ("Call", "MCall", "OCall") and x is not n:
                            tgt = x["c"][:1] if x["k"] == "Bin" else x["c"]
                            if any(y["k"] == "Ref" and y.get("d") == bl[0] and y.get("dk") == "local" for a in tgt if a is not None for y in walk(a)):
                                other = True
                    # every write's end must not lie before the end of what is hashed
                    if covered and not other:
                        def ge(a, b):
                            return all(a.get(k, 0) >= v for k, v in b.items())
                        if not any(ge(c, t) for c in covered):
                            bad.append((n, "bytes of %s that nobody wrote" % (vs[0]["n"])))
                elif vs:
                    r = db.recs.get(re.sub(r"^const ", "", vt))
                    padding(r, t, n, bad)
            else:
                p0 = stripc(ptr)
                if p0 is not None and p0["k"] == "Un" and p0["op"] == "&":
                    padding(db.recs.get(re.sub(r"^const ", "", p0["c"][0].get("t", ""))), t, n, bad)
        # members
        r = db.recs.get(f.cls) if f.cls else None
        if r is None and f.short == "hash_value" and f.params:
            r = db.recs.get(re.sub(r"^const |&| $", "", f.params[0]["t"]).strip())
        if r is None and f.cls:
            r = next((x for x in db.reclist if x["name"].split("<")[0] == f.cls.split("<")[0]), None)
        if r is not None and f.short in ("hash_impl", "hash_value"):
            rb = r["name"].split("<")[0]
            eq = [g for g in db.fns.values() if g.h.get("op") == "==" and (g.cls and g.cls.split("<")[0] == rb or len(g.params) == 2 and all(re.sub(r"^const |[& ]+$", "", p["t"]).split("<")[0] == rb for p in g.params))]
            if eq:
                cmpd = set()
                for g in eq:
                    for h in callees(db, g):
                        cmpd |= fields(h, r)
                mine = set()
                for h in callees(db, f):
                    mine |= fields(h, r)
                # storage read through a discriminating member counts when equality reads it too
                extra = mine - cmpd
                ctx.ob(not (extra and cmpd))
                if extra and cmpd:
                    bad.append((None, "member %s, which equality does not compare" % ", ".join(sorted(extra))))
        ctx.ob(not bad)
        for n, what in bad[:2]:
            ctx.violate("hash-reads", f.loc(n), "%s hashes %s: equal keys can hash differently" % (f.name, what), "hash-reads|" + key)


def padding(r, t, n, bad):
    if not r or not r.get("size") or set(t) != {"#"}:
        return
    used = 0
    for fl in r["fields"]:
        if fl.get("sz") is None:
            return
        used += fl["sz"]
    if t["#"] > used and not r.get("bases"):
        bad.append((n, "padding bytes of %s" % r["name"]))
