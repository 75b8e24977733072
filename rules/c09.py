"""C09: dynamic dispatch reaches the implementation that was written for the class."""
import re
from facts import walk
from ir import uncast, fn_parents

GROUPS = ["utils", "decoder", "training", "extractor", "mteval", "word-aligner", "klm"]


def plain(t):
    t = re.sub(r"\b(const|volatile|class|struct|enum)\b ?", "", t or "")
    return t.replace("*", "").replace("&", "").strip()


def norm(pt):
    return [re.sub(r"\s+", "", re.sub(r"\bconst\b", "", t)) for t in pt]


class Types:
    def __init__(self, db):
        self.R = {}
        for r in db.reclist:
            if not r.get("dep"):
                self.R.setdefault((r["name"], r["file"]), r)
        self.by = {}
        for (n, f), r in self.R.items():
            self.by.setdefault(n, []).append(r)
        self.kids = {}
        for r in self.R.values():
            for b in r.get("bq") or []:
                self.kids.setdefault(b, []).append(r)

    def get(self, name, file=None):
        c = self.by.get(name, [])
        for r in c:
            if r["file"] == file:
                return r
        return c[0] if c else None

    def bases(self, r, seen=()):
        for b in r.get("bq") or []:
            x = self.get(b, r["file"])
            if x is not None and b not in seen:
                yield x
                yield from self.bases(x, seen + (b,))

    def derived(self, name, seen=()):
        for r in self.kids.get(name, []):
            if r["name"] not in seen:
                yield r
                yield from self.derived(r["name"], seen + (r["name"],))


def forwards(db, d, m, bname):
    """D::m is a mere forwarder to B::m."""
    f = db.fns.get(m["key"])
    if f is None or f.body is None:
        return False
    return any(x["k"] in ("MCall", "Call") and (x.get("fn") or "").split("::")[-1] == m["n"] for x in walk(f.body))


def run(db, ctx):
    ctx.rule("override", "a member function named like an inherited virtual function overrides one (same parameters, same constness)")
    ctx.rule("shadow", "a member of a polymorphic class does not hide an inherited non-virtual member with the same parameters (calls through the base would miss it)")
    ctx.rule("virtual-destructor", "an object deleted through a base-class pointer has a base with a virtual destructor")
    ctx.rule("ctor-call", "a constructor or destructor does not call, on its own object, a virtual function that a derived class overrides")
    ctx.rule("slicing", "an object of a derived class is never copied into an object of its polymorphic base")
    ctx.rule("enum", "a switch over an enumeration handles every enumerator or has a default; a name table indexed by an enumeration has one entry per enumerator")
    ctx.rule("registry", "feature functions are registered under distinct names, and every concrete feature function that has a usage() text is registered")
    T = Types(db)
    n_ov, n_poly = 0, 0
    for (name, file), r in sorted(T.R.items()):
        if r.get("poly"):
            n_poly += 1
        bs = list(T.bases(r))
        ovk = {k for m in r["methods"] for k in m["ovr"]}
        for m in r["methods"]:
            if m.get("ctor") or m.get("dtor") or m.get("static"):
                continue
            if m["ovr"]:
                n_ov += 1
                ctx.ob()
                continue
            for b in bs:
                for bm in b["methods"]:
                    if bm["n"] != m["n"] or bm.get("ctor") or bm.get("dtor"):
                        continue
                    if bm.get("virt"):
                        # an overload beside a proper override is fine
                        ok = bm["key"] in ovk or any(x is not m and bm["key"] in x["ovr"] for x in r["methods"]) or any(bm["key"] in x["ovr"] for o in bs for x in o["methods"] if o is not b and len(norm(bm["pt"])) != len(norm(m["pt"])))
                        ctx.ob(ok)
                        if not ok:
                            ctx.violate("override", "%s:%d" % (file, m["l"]), "%s::%s hides the virtual function %s instead of overriding it: calls through the base reach the inherited version" % (name, m["n"], bm["key"]), "%s::%s" % (name, m["n"]))
                    elif (b.get("poly") or r.get("poly")) and norm(bm["pt"]) == norm(m["pt"]) and not bm.get("static") and bm["acc"] != "private" and "klm/" not in file:
                        ok = forwards(db, r, m, b["name"]) or not b.get("poly")
                        ctx.ob(ok)
                        if not ok:
                            ctx.violate("shadow", "%s:%d" % (file, m["l"]), "%s::%s hides %s, which is not virtual: calls through the base reach the inherited version" % (name, m["n"], bm["key"]), "%s::%s" % (name, m["n"]))
    ctx.floor("overriding_members", n_ov, 250)
    ctx.floor("polymorphic_classes", n_poly, 60)
    # deletion through a base
    SM = re.compile(r"(?:std|boost)::(?:__1::)?(unique_ptr|auto_ptr|scoped_ptr|shared_ptr)<(.*)>$")
    ndel = 0
    fns = sorted((f for f in db.fns.values() if not f.h.get("dep")), key=lambda f: (f.file, f.line, f.key))
    for f in fns:
        for x in f.nodes():
            if x["k"] == "Delete":
                t = plain(uncast_one(x["c"][0])["t"])
                r = T.get(t, f.file)
                if r is None:
                    continue
                ndel += 1
                ok = not list(T.derived(t)) or not r.get("poly") or r.get("vdtor")
                # a class that is not polymorphic but has derived classes: deleting through it is as wrong, if a derived object may be meant
                ctx.ob(ok)
                if not ok:
                    ctx.violate("virtual-destructor", f.loc(x), "%s deletes a %s through a pointer, but %s has derived classes and no virtual destructor" % (f.name, t, t), "%s|%s" % (f.name, t))
            elif x["k"] in ("Ctor", "MCall", "OCall") and x.get("t"):
                # smart pointer built from a pointer of its element type while the element has derived classes
                cls = x.get("cls") or plain(x["t"])
                m = SM.search(re.sub(r"\b(const|class) ", "", x["t"])) if x["k"] == "Ctor" else None
                if m and x.get("c") and m.group(1) != "shared_ptr":
                    t = plain(m.group(2).split(",")[0])
                    r = T.get(t, f.file)
                    if r is not None and r.get("poly"):
                        ndel += 1
                        ok = r.get("vdtor") or not list(T.derived(t))
                        ctx.ob(bool(ok))
                        if not ok:
                            ctx.violate("virtual-destructor", f.loc(x), "%s gives a %s to %s, which deletes it through the base, but %s has no virtual destructor" % (f.name, t, m.group(1), t), "%s|%s" % (f.name, t))
    for (name, file), r in sorted(T.R.items()):
        for fl in r["fields"]:
            m = SM.search(re.sub(r"\b(const|class) ", "", fl["t"]))
            if m and m.group(1) != "shared_ptr":
                t = plain(m.group(2).split(",")[0])
                b = T.get(t, file)
                if b is not None and b.get("poly") and list(T.derived(t)):
                    ndel += 1
                    ok = bool(b.get("vdtor"))
                    ctx.ob(ok)
                    if not ok:
                        ctx.violate("virtual-destructor", "%s:%d" % (file, fl["l"]), "%s::%s owns a %s through the base, which has no virtual destructor" % (name, fl["n"], t), "%s::%s" % (name, fl["n"]))
    # a polymorphic base whose derived classes own something must have a virtual destructor when it is held by shared_ptr of base built from base pointer
    for f in fns:
        for x in f.nodes():
            if x["k"] == "Ctor" and x.get("c"):
                m = SM.search(re.sub(r"\b(const|class) ", "", x["t"]))
                if not m or m.group(1) != "shared_ptr":
                    continue
                a = uncast_base(x["c"][0])
                if a is None or not a["t"].rstrip().endswith("*"):
                    continue
                t = plain(a["t"])
                r = T.get(t, f.file)
                if r is None or not r.get("poly") or uncast(x["c"][0])["k"] == "New":
                    continue
                ndel += 1
                ok = bool(r.get("vdtor")) or not list(T.derived(t))
                ctx.ob(ok)
                if not ok:
                    ctx.violate("virtual-destructor", f.loc(x), "%s hands a %s* to shared_ptr, which deletes it through the base, but %s has no virtual destructor" % (f.name, t, t), "%s|%s" % (f.name, t))
    ctx.floor("deletions_judged", ndel, 40)
    # virtual calls while constructing / destroying
    virt = {}
    for r in T.R.values():
        for m in r["methods"]:
            for k in m["ovr"]:
                virt.setdefault(k, []).append(r["name"])

    def ownvirt(f, depth, seen):
        for x in f.nodes():
            if x["k"] == "MCall" and x.get("f") and uncast(x["c"][0])["k"] == "This":
                if x.get("virt") and virt.get(x["f"]):
                    yield x, f
                elif depth < 3 and x["f"] in db.fns and x["f"] not in seen and db.fns[x["f"]].body is not None:
                    seen.add(x["f"])
                    for y, g in ownvirt(db.fns[x["f"]], depth + 1, seen):
                        yield y, g
    # which classes are built on top of a given base constructor
    users = {}
    for f in fns:
        if f.h.get("ctor"):
            for i in f.inits:
                if i.get("base"):
                    for c in i["c"]:
                        c = uncast(c)
                        if c["k"] == "Ctor" and c.get("f"):
                            users.setdefault(c["f"], set()).add(f.h["cls"])
    for _ in range(4):
        for f in fns:
            if f.h.get("ctor") and users.get(f.key):
                for i in f.inits:
                    if i.get("base"):
                        for c in i["c"]:
                            c = uncast(c)
                            if c["k"] == "Ctor" and c.get("f"):
                                users[c["f"]] |= users[f.key]
    nct = 0
    for f in fns:
        if not (f.h.get("ctor") or f.h.get("dtor")) or f.body is None:
            continue
        nct += 1
        bad = None
        for x, g in ownvirt(f, 0, set()):
            # overridden in a class derived from the one under construction?
            ds = {d["name"] for d in T.derived(f.h["cls"])} & set(virt[x["f"]])
            if f.h.get("ctor"):
                ds &= users.get(f.key, set())
            if not ds:
                continue
            if qualified(x):
                continue
            bad = (x, g, sorted(ds)[0])
            break
        ctx.ob(bad is None)
        if bad:
            x, g, d = bad
            ctx.violate("ctor-call", g.loc(x), "%s calls virtual %s on the object under construction; the override in %s is not reached" % (f.name, x["fn"], d), "%s|%s" % (f.name, x["fn"]))
    ctx.count("constructors_and_destructors", nct)
    # slicing
    nsl = 0
    for f in fns:
        for x in f.nodes():
            if x["k"] == "Ctor" and len(x.get("c") or []) == 1:
                t = plain(x["t"])
                r = T.get(t, f.file)
                if r is None or not r.get("poly"):
                    continue
                a = x["c"][0]
                st = None
                y = a
                while y is not None and y["k"] in ("ICast", "Cast"):
                    if "DerivedToBase" in (y.get("ck") or ""):
                        st = y["c"][0]["t"]
                    y = y["c"][0] if y.get("c") else None
                if st is None or not r.get("poly"):
                    continue
                if st.rstrip().endswith("*"):
                    continue
                inbase = f.h.get("ctor") and any(i.get("base") and any(z is x for c in i["c"] for z in walk(c)) for i in f.inits)
                nsl += 1
                ctx.ob(bool(inbase))
                if not inbase:
                    ctx.violate("slicing", f.loc(x), "%s copies a %s into a %s, losing its derived part" % (f.name, plain(st), t), "%s|%s" % (f.name, t))
    ctx.count("base_copies_seen", nsl)
    enums(db, ctx, fns)
    registry(db, ctx, T, fns)


def uncast_one(n):
    while n is not None and n["k"] == "ICast" and n.get("c"):
        n = n["c"][0]
    return n


def uncast_base(n):
    """strip casts but not derived-to-base ones."""
    while n is not None and n["k"] in ("ICast", "Cast") and n.get("c") and "DerivedToBase" not in (n.get("ck") or ""):
        n = n["c"][0]
    return n


def qualified(x):
    return bool(x.get("qual"))


def enums(db, ctx, fns):
    E = {n: e for n, e in db.enums.items()}
    nsw = 0
    for f in fns:
        if f.body is None:
            continue
        for x in walk(f.body):
            if x["k"] != "Switch":
                continue
            cond = x["c"][2]
            y = cond
            while y["k"] in ("ICast",) and y.get("c"):
                y = y["c"][0]
            t = plain(y["t"])
            e = E.get(t)
            if e is None or f.file.startswith("klm/"):
                continue
            nsw += 1
            vals, dflt = set(), False
            for z in walk(x["c"][3]):
                if z["k"] == "Switch" and z is not x:
                    continue
                if z["k"] == "Default":
                    dflt = True
                if z["k"] == "Case":
                    v = uncast(z["c"][0])
                    v = v.get("v", z.get("v"))
                    if v is not None:
                        vals.add(str(v))
            miss = [c[0] for c in e["consts"] if str(c[1]) not in vals]
            ok = dflt or not miss
            ctx.ob(ok)
            if not ok:
                ctx.violate("enum", f.loc(x), "the switch over %s in %s has no case for %s and no default" % (t, f.name, ", ".join(m.split("::")[-1] for m in miss)), "%s|%s" % (f.name, t))
    ctx.floor("enum_switches", nsw, 4)
    # arrays indexed by an enumeration value
    seen = set()
    for f in fns:
        if f.body is None or f.file.startswith("klm/"):
            continue
        for x in walk(f.body):
            if x["k"] != "Sub":
                continue
            i = x["c"][1]
            while i["k"] in ("ICast", "Cast") and i.get("c"):
                i = i["c"][0]
            e = E.get(plain(i["t"]))
            b = uncast(x["c"][0])
            if e is None or b["k"] not in ("Ref", "Mem"):
                continue
            m = re.search(r"\[(\d+)\]$", b["t"])
            if not m or (b.get("n"), f.file) in seen:
                continue
            seen.add((b.get("n"), f.file))
            mx = max(int(c[1]) for c in e["consts"])
            ok = int(m.group(1)) > mx
            ctx.ob(ok)
            if not ok:
                ctx.violate("enum", f.loc(x), "%s has %s entries but is indexed by %s, whose largest value is %d" % (b.get("n"), m.group(1), e["name"], mx), "%s|%s" % (f.name, b.get("n")))


def strlit(n):
    n = uncast(n)
    for _ in range(6):
        if n["k"] == "Str":
            return n.get("v")
        if n["k"] in ("Ctor", "Init", "Cast", "ICast") and n.get("c"):
            n = uncast(n["c"][0])
        else:
            return None


def registry(db, ctx, T, fns):
    reg, names = {}, {}
    for f in fns:
        if f.body is None or not f.file.startswith("decoder/"):
            continue
        for x in walk(f.body):
            if x["k"] == "MCall" and re.search(r"Registry(<.*>)?::Register$", x.get("fn") or "") and len(x["c"]) == 3:
                nm = strlit(x["c"][1])
                if nm is None:
                    continue
                ok = nm not in names
                ctx.ob(ok)
                if not ok:
                    ctx.violate("registry", f.loc(x), "feature function name '%s' is registered twice (also %s): start-up aborts" % (nm, names[nm]), "dup|%s" % nm)
                names[nm] = f.loc(x)
                for y in walk(x["c"][2]):
                    if y["k"] == "New":
                        reg.setdefault(re.sub(r"\s", "", y["at"]), nm)
    ctx.floor("registered_feature_functions", len(names), 30)
    facs = " ".join(reg)
    # factories of their own: which classes they create
    made = set()
    for f in fns:
        if f.short == "usage" and f.cls and f.cls in reg:
            for y in walk(f.body):
                if y["k"] == "Call" and (y.get("fn") or "").endswith("::usage"):
                    made.add(y["fn"][:-7].split("<")[0])
        if f.short == "Create" and f.body is not None:
            for y in walk(f.body):
                if y["k"] == "New":
                    made.add(plain(y["at"]))
    for (name, file), r in sorted(T.R.items()):
        if not file.startswith("decoder/") or r.get("abstract") or file.endswith("_test.cc"):
            continue
        if not any(b["name"] == "FeatureFunction" for b in T.bases(r)):
            continue
        used = name.split("<")[0] in made or name in facs.replace(">", ",").replace("<", ",").split(",") or name in made
        u = any(m["n"] == "usage" for m in r["methods"])
        if u:
            ctx.ob(used)
            if not used:
                ctx.violate("registry", "%s:%d" % (file, r["l"]), "feature function %s has a usage text but is not registered: it cannot be configured" % name, "unreg|%s" % name)
