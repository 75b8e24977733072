"""Copies carry every field: copy/assign/swap members, and edge/node copies between forests."""
import re
from facts import children, walk
from ir import uncast, path, ref_aliases, base_type, plain_type, Calls, fn_parents, is_const, cfg, split_cond, render

GROUPS = ["utils", "decoder", "mteval", "training", "word-aligner", "extractor"]
EDGE, NODE = "HG::Edge", "HG::Node"
EDGE_PAYLOAD = ["rule_", "feature_values_", "i_", "j_", "prev_i_", "prev_j_"]
NODE_PAYLOAD = ["cat_", "node_hash"]
# members a copy legitimately does not carry; one reason each
EXEMPT = {
    "TRule::ext_states_": "grammar-side state of tree-to-string rules; copied rules are templates for glue/unary rules",
    "TRule::parent_rule_": "link of constrained decoding, set by the pass that creates the copy",
    "TRule::prev_i": "decode-time coordinate of the original, reset on purpose (-1)",
    "TRule::prev_j": "decode-time coordinate of the original, reset on purpose (-1)",
    "TRule::fine_rules_": "coarse-to-fine link owned by the grammar's own rule object",
    "TRule::tree_structure": "display structure of the original rule",
}
SITE_EXEMPT = {
    "Hack::": "max-translation search: the forest built is scratch, only its yield is read back",
}
TRIGGER = {"rule_", "i_", "j_", "prev_i_", "prev_j_", "cat_", "node_hash"}
ASG = ("=",)


def fields(db, cls):
    r = db.recs.get(cls)
    return [f for f in r["fields"] if not f.get("static") and not f["t"].startswith("const ")] if r else []


class Copies:
    """per function: fields copied from one object to another of the same record, through copy helpers."""

    def __init__(self, db):
        self.db = db
        self.memo = {}
        self.direct = {}
        self.cond = {}      # function -> {(dst, src, cls): fields copied on some branches only}

    def of(self, fn, stack=()):
        """-> {(dst, src, cls): {field: node}}, dst/src are paths; params and this by name."""
        if fn.key in self.memo:
            return self.memo[fn.key]
        if fn.key in stack:
            return {}
        db, al, out = self.db, ref_aliases(fn), {}
        # locals / params seen as objects
        direct = self.direct.setdefault(fn.key, set())
        sites = {}

        def put(d, s, cls, f, n, own=True, partial=False):
            out.setdefault((d, s, cls), {}).setdefault(f, n)
            sites.setdefault((d, s, cls), {}).setdefault(f, []).append((n, partial))
            if own:
                direct.add((d, s, cls))
        defs = {}
        for n in fn.nodes():
            if n["k"] == "Var" and children(n) and not n["t"].rstrip().endswith("&"):
                defs[n["d"]] = children(n)[0]

        def srcs(e, depth=0):
            """(src path, field, class) reads in an expression, following scalar locals"""
            for x in walk(e):
                if x["k"] == "Mem" and x.get("f") and not x.get("sv") and not x.get("meth"):
                    b = path(x["c"][0], al) if x.get("c") else "this"
                    if b:
                        yield b, x["n"], x["f"].rsplit("::", 1)[0]
                elif x["k"] == "MCall" and x.get("c") and x.get("fn") and depth < 3:
                    # trivial getter
                    t = db.fns.get(x.get("f"))
                    if t is not None and t.body is not None and len(t.params) == 0:
                        bs = children(t.body)
                        if len(bs) == 1 and bs[0]["k"] == "Return" and children(bs[0]):
                            u = uncast(children(bs[0])[0])
                            if u["k"] == "Mem" and u.get("c") and u["c"][0]["k"] == "This":
                                b = path(x["c"][0], al)
                                if b:
                                    yield b, u["n"], u["f"].rsplit("::", 1)[0]
                elif x["k"] == "Ref" and x["dk"] == "local" and x["d"] in defs and x["d"] not in al and depth < 3:
                    yield from srcs(defs[x["d"]], depth + 1)

        for i in fn.inits:
            if i.get("field") or i.get("n"):
                nm = (i.get("field") or i.get("n")).split("::")[-1]
                for c in i["c"]:
                    for b, f, cls in srcs(c):
                        if f == nm and b != "this":
                            put("this", b, cls, f, c)
        for n in fn.nodes():
            if n["k"] in ("Bin", "OCall") and n.get("op") == "=" and len(children(n)) == 2:
                l = uncast(n["c"][0])
                while (l["k"] == "Sub" or l["k"] == "OCall" and l.get("op") == "[]") and l.get("c"):
                    l = uncast(l["c"][0])
                if l["k"] == "Mem" and not l.get("sv"):
                    d = path(l["c"][0], al) if l.get("c") else "this"
                    for b, f, cls in srcs(n["c"][1]):
                        if f == l["n"] and b != d and d:
                            put(d, b, cls, f, n)
                else:
                    # whole-object assignment
                    d, s = path(n["c"][0], al), path(n["c"][1], al)
                    t1, t2 = plain_type(n["c"][0].get("t", "")), plain_type(n["c"][1].get("t", ""))
                    if d and s and t1 == t2 and t1 in db.recs and n["k"] == "OCall":
                        for f in db.recs[t1]["fields"]:
                            put(d, s, t1, f["n"], n)
            elif n["k"] in ("MCall", "Call", "Ctor", "OCall") and n.get("f") in db.fns:
                t = db.fns[n["f"]]
                args = children(n)
                m = {}
                if n["k"] == "MCall":
                    m["this"] = path(args[0], al)
                    args = args[1:]
                elif n["k"] == "Ctor":
                    m["this"] = "new@%d" % n["i"]
                elif n["k"] == "OCall" and t.cls and not t.h.get("static"):
                    m["this"] = path(args[0], al)
                    args = args[1:]
                for p, a in zip(t.params, args):
                    m["%s#%d" % (p["n"], p["d"])] = path(a, al)
                if t.short == "AddEdge":
                    # an edge made from another edge's rule
                    for p, a in zip(t.params, args):
                        u = uncast(a)
                        while u["k"] in ("Ctor",) and len(children(u)) == 1:
                            u = uncast(u["c"][0])
                        if "TRule" in p["t"] and u["k"] == "Mem" and u["n"] == "rule_" and u.get("c") and (u.get("f") or "").startswith(EDGE):
                            s0 = path(u["c"][0], al)
                            up = fn_parents(fn).get(n["i"])
                            while up is not None and up["k"] in ("Cast", "ICast"):
                                up = fn_parents(fn).get(up["i"])
                            if s0 and up is not None and up["k"] == "Var":
                                put("%s#%d" % (up["n"], up["d"]), s0, EDGE, "rule_", n)
                sub = self.of(t, stack + (fn.key,))
                for (d, s, cls), fs in sub.items():
                    d2, s2 = rebase(d, m), rebase(s, m)
                    if s2 is None:
                        continue
                    if d2 is None:
                        d2 = "in %s" % t.short
                    if d2 == s2:
                        continue
                    part = self.cond.get(t.key, {}).get((d, s, cls), ())
                    for f in fs:
                        put(d2, s2, cls, f, n, own=False, partial=f in part)
        self.memo[fn.key] = out
        self.cond[fn.key] = {k: partly(fn, v) for k, v in sites.items() if k[2] in (EDGE, NODE)}
        return out


def arms(fn, n):
    """(if statement, arm) pairs the node lies under."""
    pa, r, x = fn_parents(fn), set(), n
    while x is not None:
        up = pa.get(x["i"])
        if up is not None and up["k"] in ("If", "Cond"):
            for i, a in enumerate(up["c"]):
                if a is x and i >= len(up["c"]) - 2:
                    r.add((up["i"], i - len(up["c"])))
        x = up
    return r


def partly(fn, fields):
    """fields copied only under a condition that does not hold the other fields back."""
    where = {}
    for f, ns in fields.items():
        where[f] = [(arms(fn, n) if n["i"] in fn_parents(fn) else set(), p) for n, p in ns]
    trig = [a for f in where if f in TRIGGER for a, _ in where[f]]
    if not trig:
        return set()
    base = min(trig, key=len)
    r = set()
    for f, ws in where.items():
        full = [a - base for a, p in ws if not p]
        if any(not a for a in full):
            continue
        # both arms of the same condition
        if any(len(a) == 1 and any({(next(iter(a))[0], -3 - next(iter(a))[1])} == b for b in full) for a in full):
            continue
        r.add(f)
    return r


def rebase(p, m):
    root = re.split(r"[.\[]", p, 1)[0]
    if root in m:
        return None if m[root] is None else m[root] + p[len(root):]
    return None


def run(db, ctx):
    ctx.rule("copy-complete", "every user-written copy constructor, copy assignment and swap (and every method copying several members from an object of its own class) transfers every data member, each to itself")
    ctx.rule("edge-payload", "code that copies an edge's rule or source span to another edge (through any helper) carries the whole payload: rule, features, span and previous span; code that copies a node's wiring or hash carries category and hash")
    cp = Copies(db)
    nfun = nsite = 0
    seen = set()
    for f in sorted(db.fns.values(), key=lambda f: (f.file, f.line, f.key)):
        if f.file.startswith("/") or f.file.startswith("klm/") or f.h.get("impl") or f.body is None:
            continue
        if (f.file, f.line) in seen:
            continue
        seen.add((f.file, f.line))
        ps = f.params
        cls = f.cls
        own = [p for p in ps if cls and plain_type(p["t"]) in (cls, plain_type(f.h.get("cls") or cls))]
        kind = None
        if cls and f.h.get("ctor") and len(ps) == 1 and own:
            kind = "copy constructor"
        elif cls and f.h.get("op") == "=" and own:
            kind = "assignment"
        elif cls and f.short in ("swap", "Swap") and own:
            kind = "swap"
        if kind:
            rec = db.recs.get(f.h.get("cls") or cls) or db.recs.get(cls)
            if not rec:
                continue
            nfun += 1
            check_full(db, ctx, cp, f, cls, rec, "%s#%d" % (own[0]["n"], own[0]["d"]), kind)
            continue
        # several members of one class copied from an object of that class: outside the class' own helpers
        groups, dsts, lowest, partial = {}, {}, set(), {}
        for (d, s, c), fs in cp.of(f).items():
            dsts.setdefault((c, s), set()).add(d)
            if (d, s, c) in cp.direct[f.key]:
                lowest.add((c, s))
            if c not in (EDGE, NODE):
                if len(fs) >= 2 and c in db.recs and c == "Hypergraph" and not f.h.get("ctor"):
                    groups.setdefault((c, s), {}).update(fs)
                continue
            groups.setdefault((c, s), {}).update(fs)
            partial.setdefault((c, s), set()).update(cp.cond.get(f.key, {}).get((d, s, c), ()))
            partial[c, s] -= set(fs) - cp.cond.get(f.key, {}).get((d, s, c), set())
            if (d, s, c) in cp.direct[f.key]:
                crossed(db, ctx, f, c, d, s)
        hashed_nodes(f, groups, lowest, dsts)
        for (c, s), fs in sorted(groups.items(), key=lambda kv: kv[0]):
            if cls == c:
                if f.short != "copy_reindex":
                    continue
            if any(x in f.name for x in SITE_EXEMPT):
                ctx.notes.append("%s not judged: %s" % (f.name, [v for k, v in SITE_EXEMPT.items() if k in f.name][0]))
                continue
            if c == EDGE:
                if not (set(fs) & {"rule_", "i_", "j_", "prev_i_", "prev_j_", "head_node_", "tail_nodes_"}):
                    continue
                need = list(EDGE_PAYLOAD)
                if "head_node_" in fs and "tail_nodes_" in fs:
                    need.append("edge_prob_")
                if f.short == "copy_reindex":
                    need = [x["n"] for x in fields(db, EDGE) if x["n"] != "tail_nodes_"]
            elif c == NODE:
                need = list(NODE_PAYLOAD)
                if f.short == "copy_reindex":
                    need.append("id_")
                # values may travel as call arguments (AddNode(node.cat_))
                al = ref_aliases(f)
                for n in f.nodes():
                    if n["k"] in ("MCall", "Call") and "Node" in (n.get("fn") or "").split("::")[-1]:
                        for a in children(n)[1:]:
                            for x in walk(a):
                                if x["k"] == "Mem" and x.get("n") in NODE_PAYLOAD and x.get("c") and path(x["c"][0], al) == s:
                                    fs = dict(fs, **{x["n"]: n})
            else:
                need = [x["n"] for x in fields(db, c)]
            if c == EDGE and "rule_" in fs and (c, s) not in lowest:
                al = ref_aliases(f)
                for n in f.nodes():
                    if n["k"] in ("Bin", "OCall") and n.get("op") == "=" and len(children(n)) == 2:
                        l = uncast(n["c"][0])
                        if l["k"] == "Mem" and l["n"] == "feature_values_" and (l.get("f") or "").rsplit("::", 1)[0] == EDGE and not reads_features(f, n["c"][1], s, al) \
                                and (path(l["c"][0], al) or "") != s:
                            lowest.add((c, s))
            if (c, s) not in lowest:
                continue        # judged where the fields are copied
            nsite += 1
            other_set = set_fields(db, f, c, dsts[(c, s)], s if "rule_" in fs else None)
            fs = {k: v for k, v in fs.items() if k not in partial.get((c, s), ())}
            miss = [x for x in need if x not in fs and x not in other_set]
            if miss and s in ["%s#%d" % (p["n"], p["d"]) for p in ps]:
                # a helper: its callers may carry the rest
                cl = callers(db, f)
                al = ref_aliases(f)
                spoilt = {uncast(n["c"][0])["n"] for n in f.nodes() if n["k"] in ("Bin", "OCall") and n.get("op") == "=" and len(children(n)) == 2
                          and uncast(n["c"][0])["k"] == "Mem" and uncast(n["c"][0])["n"] in miss and (uncast(n["c"][0]).get("f") or "").rsplit("::", 1)[0] == c
                          and (uncast(n["c"][0])["n"] != "feature_values_" or not reads_features(f, n["c"][1], s, al))}
                if cl and not spoilt and all(not [x for x in miss if x not in caller_fields(db, cp, g, c, f)] for g in cl):
                    miss = []
            ctx.ob(not miss)
            ctx.sample("%s: %s copies {%s} of %s" % (f.loc(), f.name, ",".join(sorted(fs)), c), 30)
            if miss:
                ctx.violate("edge-payload", f.loc(next(iter(fs.values()))), "%s copies %s from one %s to another but drops %s" % (f.name, ",".join(sorted(fs)), c, ",".join(miss)), "%s|%s|%s" % (f.name, c, ",".join(miss)))
    ctx.floor("copy_functions", nfun, 7)
    ctx.floor("edge_node_copy_sites", nsite, 5)


def hashed_nodes(f, groups, lowest, dsts):
    """a node made from another node's category, in code that identifies nodes by their hash, is a copy of that node."""
    if f.body is None:
        return
    al, cats, hashes = ref_aliases(f), {}, set()
    for n in f.nodes():
        if n["k"] == "MCall" and (n.get("fn") or "").endswith("AddNode"):
            for a in children(n)[1:]:
                u = uncast(a)
                if u["k"] == "Mem" and u["n"] == "cat_" and u.get("c"):
                    cats[path(u["c"][0], al)] = n
        if n["k"] == "Mem" and n["n"] == "node_hash" and n.get("c"):
            hashes.add(path(n["c"][0], al))
    for s in cats:
        if s in hashes:
            groups.setdefault((NODE, s), {}).setdefault("cat_", cats[s])
            lowest.add((NODE, s))
            dsts.setdefault((NODE, s), set())


def crossed(db, ctx, f, c, d, s):
    """a payload member is never filled from another member of the element it is copied from."""
    al = ref_aliases(f)
    fl = {x["n"]: x["t"] for x in fields(db, c)}
    for n in f.nodes():
        if n["k"] not in ("Bin", "OCall") or n.get("op") != "=" or len(children(n)) != 2:
            continue
        l, r = uncast(n["c"][0]), uncast(n["c"][1])
        if l["k"] == "Mem" and r["k"] == "Mem" and l.get("c") and r.get("c") and l["n"] != r["n"] and l["n"] in TRIGGER and r["n"] in fl and fl.get(l["n"]) == fl[r["n"]] \
                and path(l["c"][0], al) == d and path(r["c"][0], al) == s and (l.get("f") or "").rsplit("::", 1)[0] == c == (r.get("f") or "").rsplit("::", 1)[0]:
            ctx.violate("edge-payload", f.loc(n), "%s fills %s of the copied %s from the source's %s" % (f.name, l["n"], c, r["n"]), "%s|%s<-%s" % (f.name, l["n"], r["n"]))


def set_fields(db, f, c, dsts, src=None):
    """members of the destination objects otherwise set in f: assigned from anything, or given to the call that makes the object."""
    al, r = ref_aliases(f), set()
    for n in f.nodes():
        if n["k"] in ("Bin", "OCall") and n.get("op") == "=" and n.get("c"):
            l = uncast(n["c"][0])
            if l["k"] == "Mem" and l.get("c") and path(l["c"][0], al) in dsts:
                if l["n"] == "feature_values_" and src and not reads_features(f, n["c"][1], src, al):
                    continue        # the rule is the source's, so the features are the source's too
                r.add(l["n"])
        if n["k"] == "Var" and children(n):
            pn = "%s#%d" % (n["n"], n["d"])
            if any(d == pn or d.startswith(pn + ".") or d == "*" + pn for d in dsts) or pn in dsts:
                for x in walk(children(n)[0]):
                    if x["k"] in ("MCall", "Call"):
                        for t in x.get("pt") or ():
                            if "TRule" in t:
                                r.add("rule_")
    return r


def reads_features(f, e, src, al):
    """the expression depends on something other than a rule's own scores."""
    for x in walk(e):
        if x["k"] == "Mem" and x.get("n") == "scores_" or x["k"] == "MCall" and (x.get("fn") or "").endswith("GetFeatureValues"):
            return False
    return True


def callers(db, f):
    return [g for g in db.fns.values() if g is not f and g.body is not None and not g.h.get("impl") and any(n.get("f") == f.key for n in g.nodes())]


def caller_fields(db, cp, g, c, f):
    r = set()
    for (d, s, cc), fs in cp.of(g).items():
        if cc == c:
            r |= set(fs) | set_fields(db, g, c, {d})
    return r


def touched(db, fn, obj, al, seen=frozenset()):
    """members of obj (a path root such as this or a parameter) mentioned in fn, through its own methods."""
    r = set()
    for x in fn.nodes():
        if x["k"] == "Mem" and x.get("f") and not x.get("meth"):
            b = path(x["c"][0], al) if x.get("c") else "this"
            if b == obj:
                r.add(x["n"])
        elif x["k"] in ("MCall", "OCall") and x.get("f") in db.fns and x.get("c"):
            t = db.fns[x["f"]]
            if not t.cls or t.key in seen or len(seen) > 4:
                continue
            if path(x["c"][0], al) == obj:
                r |= touched(db, t, "this", ref_aliases(t), seen | {t.key})
    return r


def check_full(db, ctx, cp, f, cls, rec, other, kind):
    al = ref_aliases(f)
    mine, theirs = touched(db, f, "this", al), touched(db, f, other, al)
    for i in f.inits:
        nm = i.get("field") or i.get("n")
        if nm:
            nm = nm.split("::")[-1]
            rd = set()
            for c in i["c"]:
                for x in walk(c):
                    if x["k"] == "Mem" and x.get("n") and x.get("c") and path(x["c"][0], al) == other:
                        rd.add(x["n"])
            if i["c"] and (rd or i.get("w")):
                mine.add(nm)
            fl = {x["n"]: x["t"] for x in rec["fields"]}
            bad = [x for x in rd if x != nm and x in fl and nm in fl and fl[x] == fl[nm]]
            if bad and nm not in rd:
                ctx.violate("copy-complete", f.loc(), "%s initialises member %s from the source's %s" % (f.name, nm, bad[0]), "%s|%s<-%s" % (f.name, nm, bad[0]))
    # delegation: whole-object operations on *this / other
    if kind == "swap":
        for n in f.nodes():
            if n["k"] in ("Call", "MCall") and (n.get("fn") or "").split("::")[-1] in ("swap", "iter_swap") and len(children(n)) == 2:
                a, b = [path(x, al) for x in children(n)]
                if a and b and "." in a and "." in b and a.split(".", 1)[1] != b.split(".", 1)[1]:
                    ctx.violate("copy-complete", f.loc(n), "%s swaps %s with %s" % (f.name, a.split("#")[0], b.split("#")[0]), "%s|%s" % (f.name, a.split(".", 1)[1]))
        one_way(ctx, f, rec, other, al)
    else:
        covers(ctx, f, rec, other, al, kind)
    if delegates(db, f, other, al):
        owned(db, ctx, f, cls, kind)
        ctx.ob(True)
        ctx.sample("%s: %s of %s copies the object as a whole" % (f.loc(), kind, cls), 30)
        return
    derived = derived_fields(f, other, al)
    mixed(ctx, f, rec, other, al, theirs, kind, cls)
    owned(db, ctx, f, cls, kind)
    for fl in rec["fields"]:
        n = fl["n"]
        if fl.get("static") or fl["t"].startswith("const "):
            continue
        key = "%s::%s" % (cls, n)
        if key in EXEMPT:
            ctx.notes.append("%s not carried by %s: %s" % (key, f.name, EXEMPT[key]))
            continue
        ok = n in mine and (n in theirs or n in derived)
        if not ok and (n in mine or n in theirs):
            # moved as part of a whole: e.g. clear(); insert(other...)
            ok = n in mine and whole(f, other, al)
        ctx.ob(ok)
        if not ok:
            ctx.violate("copy-complete", f.loc(), "%s of %s does not carry member %s" % (kind, cls, n), "%s|%s" % (f.name, key))
    branches(db, ctx, f, cls, rec, al, derived - theirs, kind)
    ctx.sample("%s: %s of %s covers %s" % (f.loc(), kind, cls, ",".join(x["n"] for x in rec["fields"])), 30)


def mixed(ctx, f, rec, other, al, theirs, kind, cls):
    """a member filled from a different member of the source while the source's own is never read."""
    fl = {x["n"]: x["t"] for x in rec["fields"]}
    for n in f.nodes():
        if n["k"] in ("Bin", "OCall") and n.get("op") == "=" and len(children(n)) == 2:
            l, r = uncast(n["c"][0]), uncast(n["c"][1])
            if l["k"] == "Mem" and r["k"] == "Mem" and l["n"] != r["n"] and r.get("c") and fl.get(l["n"]) == fl.get(r["n"], 0) and l["n"] not in theirs \
                    and (not l.get("c") or path(l["c"][0], al) == "this") and path(r["c"][0], al) == other and not re.search(r"capac|alloc|reserv", l["n"]):
                ctx.ob(False)
                ctx.violate("copy-complete", f.loc(n), "%s of %s fills %s from the source's %s" % (kind, cls, l["n"], r["n"]), "%s|%s<-%s" % (f.name, l["n"], r["n"]))


def guards(f, n):
    """texts of the conditions (conjuncts) under which the node runs."""
    g = cfg(f)
    o = g.owner.get(n["i"])
    r = set()
    for e, pol, _ in (g.assumes(o) if o is not None else []):
        for c, p in split_cond(e, pol):
            r.add((render(uncast(c)), p))
    return r


def owned(db, ctx, f, cls, kind):
    """a buffer the object releases under a condition is duplicated by a copy under that condition, not a narrower one."""
    al = ref_aliases(f)
    news = {}
    for n in f.nodes():
        if n["k"] == "Bin" and n["op"] == "=" and uncast(n["c"][1])["k"] == "New":
            p = path(n["c"][0], al)
            if p and p.startswith("this."):
                news.setdefault(p, []).append(n)
    if not news:
        return
    for p, ns in sorted(news.items()):
        rel = None
        for g in db.fns.values():
            if g.cls != f.cls or g.body is None or g is f or bool(g.h.get("dep")) != bool(f.h.get("dep")):
                continue
            for d in g.nodes():
                if d["k"] == "Delete" and path(d["c"][0], ref_aliases(g)) == p:
                    gs = guards(g, d)
                    rel = gs if rel is None else rel & gs
        if rel is None or len(ns) != 1:
            continue
        gs = {(t, q) for t, q in guards(f, ns[0]) if "this" in t and "other" not in t and not t.startswith(("&", "(&"))}
        # only whole copies share the other's pointer until it is replaced
        if not any(n["k"] in ("Call", "MCall") and (n.get("fn") or "").split("::")[-1] == "memcpy" and (path(n["c"][0], al) or "").lstrip("*") == "this" for n in f.nodes()):
            continue
        extra = {x for x in gs - rel if "this" in x[0]}
        ok = not extra
        ctx.ob(ok)
        if not ok:
            ctx.violate("copy-complete", f.loc(ns[0]), "%s of %s duplicates %s only if also %s: otherwise both objects own the same buffer" % (kind, cls, p, " and ".join(("" if q else "not ") + t for t, q in sorted(extra))), "%s|owned|%s" % (f.name, p))


def one_way(ctx, f, rec, other, al):
    """a member assigned in one direction only is not swapped."""
    names = {x["n"] for x in rec["fields"]}
    to, frm, sw = {}, set(), set()
    for n in f.nodes():
        if n["k"] in ("Bin", "OCall") and n.get("op") == "=" and len(children(n)) == 2:
            l = uncast(n["c"][0])
            if l["k"] == "Mem" and l["n"] in names:
                b = path(l["c"][0], al) if l.get("c") else "this"
                if b == "this":
                    to.setdefault(l["n"], n)
                elif b == other:
                    frm.add(l["n"])
        elif n["k"] in ("Call", "MCall") and (n.get("fn") or "").split("::")[-1].lower() in ("swap", "memcpy", "memmove", "swap_ranges"):
            for x in walk(n):
                if x["k"] == "Mem" and x.get("n") in names:
                    sw.add(x["n"])
    for m in sorted(set(to) ^ frm):
        if m not in sw:
            ctx.ob(False)
            ctx.violate("copy-complete", f.loc(to.get(m)) if m in to else f.loc(), "%s moves member %s in one direction only" % (f.name, m), "%s|oneway|%s" % (f.name, m))


def covers(ctx, f, rec, other, al, kind):
    """element loops of a copy run over all the source's elements."""
    names = {x["n"]: x["t"] for x in rec["fields"]}
    g = None
    for n in f.nodes():
        if n["k"] != "For":
            continue
        init, _, cond, _, body = n["c"]
        el = [x for x in walk(body) if x["k"] in ("Bin", "OCall") and x.get("op") == "=" and len(children(x)) == 2
              and uncast(x["c"][0])["k"] == "Sub" and uncast(x["c"][1])["k"] == "Sub"]
        el = [x for x in el if (path(uncast(x["c"][0])["c"][0], al) or "").startswith("this.") and (path(uncast(x["c"][1])["c"][0], al) or "").startswith(other + ".")]
        c = uncast(cond) if cond is not None else None
        if not el or c is None or c["k"] != "Bin" or c["op"] not in ("<", "!=", "<=") or init is None or init["k"] != "Decl":
            continue
        v = init["c"][0]
        st = is_const(children(v)[0]) if v["k"] == "Var" and children(v) else None
        b = uncast(c["c"][1])
        k = is_const(b)
        t = uncast(uncast(el[0]["c"][0])["c"][0]).get("t", "")
        m = re.search(r"\[(\d+)\]", t)
        bad = None
        if st not in (0, None):
            bad = "starts at element %d" % st
        elif c["op"] == "<=" and b["k"] == "Mem":
            bad = None
        elif k is not None and m and k + (c["op"] == "<=") < int(m.group(1)):
            bad = "copies %d of %s elements" % (k, m.group(1))
        elif k is not None and not m:
            bad = "copies a fixed number of elements (%d) of a buffer of variable length" % k
        elif b["k"] == "Mem" and b["n"] in names and (not b.get("c") or path(b["c"][0], al) == "this"):
            g = g or cfg(f)
            here = g.owner.get(c["i"]) or g.owner.get(el[0]["i"])
            sets = [x for x in f.nodes() if x["k"] in ("Bin", "OCall") and x.get("op") == "=" and uncast(x["c"][0])["k"] == "Mem" and uncast(x["c"][0])["n"] == b["n"]
                    and path(uncast(x["c"][0]), al) == "this." + b["n"]]
            dom = set(map(id, g.dominators(here))) | {id(here)} if here is not None else set()
            inits = any((i.get("field") or i.get("n") or "").split("::")[-1] == b["n"] and i.get("w") for i in f.inits)
            if sets and here is not None and not inits and not any(id(g.owner.get(x["i"])) in dom for x in sets):
                bad = "runs up to %s before it is set from the source" % b["n"]
        ctx.ob(bad is None)
        if bad:
            ctx.violate("copy-complete", f.loc(n), "%s of %s %s" % (kind, f.cls, bad), "%s|loop|%s" % (f.name, path(uncast(el[0]["c"][0])["c"][0], al)))


def whole(f, other, al):
    for n in f.nodes():
        if n["k"] in ("Call", "MCall", "OCall", "ForRange", "Ctor"):
            for x in children(n):
                if path(x, al) == other:
                    return True
    return False


def delegates(db, f, other, al):
    """the object is copied as a whole: memcpy(this, &other, sizeof), *this = other, T(other).swap(*this)."""
    for n in f.nodes():
        nm = (n.get("fn") or "").split("::")[-1]
        a = children(n)
        if n["k"] in ("Call", "MCall") and nm in ("memcpy", "memmove") and len(a) == 3:
            d, s = path(a[0], al), path(a[1], al)
            z = uncast(a[2])
            if d in ("this", "*this") and s is not None and s.lstrip("&*") == other and z["k"] == "Sizeof" and plain_type(z.get("at", "")) == (f.cls or ""):
                return True
        if n["k"] in ("Call", "MCall") and nm in ("swap", "Swap") and len(a) == 2:
            for x, y in ((a[0], a[1]), (a[1], a[0])):
                x = uncast(x)
                py = path(y, al)
                if py is not None and py.lstrip("*") == "this":
                    src = x
                    if x["k"] == "Ref" and x["dk"] == "local":
                        for v in f.nodes():
                            if v["k"] == "Var" and v["d"] == x["d"] and children(v):
                                src = children(v)[0]
                    for k in walk(src):
                        if k["k"] == "Ctor" and children(k) and path(children(k)[0], al) == other:
                            return True
                    if x["k"] == "Ref" and x["dk"] == "param" and not f.params[0]["t"].rstrip().endswith("&"):
                        return True
    if f.h.get("ctor"):
        # a copy constructor whose body is *this = other
        for n in f.nodes():
            if n["k"] == "OCall" and n.get("op") == "=" and len(n["c"]) == 2:
                a, b = path(n["c"][0], al), path(n["c"][1], al)
                if a and a.lstrip("*") == "this" and b == other:
                    return True
        # private and empty of reads: declared only to forbid copying
        if f.h.get("acc") == "private" and not any(n["k"] == "Ref" and n["dk"] == "param" for n in f.nodes()):
            return True
    return False


def derived_fields(f, other, al):
    """members assigned from an expression over the source object (any of its members)."""
    r = set()
    for n in f.nodes():
        if n["k"] in ("Bin", "OCall") and n.get("op") == "=" and len(children(n)) == 2:
            l = uncast(n["c"][0])
            if l["k"] == "Mem" and (not l.get("c") or path(l["c"][0], al) == "this"):
                for x in walk(n["c"][1]):
                    if x["k"] == "Ref" and "%s#%d" % (x["n"], x["d"]) == other:
                        r.add(l["n"])
    return r


def branches(db, ctx, f, cls, rec, al, skip, kind):
    """when both arms of an if write members of *this, they write the same ones (unless written outside it)."""
    names = {x["n"] for x in rec["fields"]}

    def wr(n):
        r = set()
        for x in walk(n):
            tgt = None
            if x["k"] in ("Bin", "CAssign", "OCall") and x.get("op", "").endswith("=") and x.get("op") not in ("==", "!=", "<=", ">="):
                tgt = x["c"][0]
            elif x["k"] in ("Call", "MCall") and (x.get("fn") or "").split("::")[-1] in ("memcpy", "memmove"):
                tgt = x["c"][0]
            elif x["k"] in ("Call", "MCall") and (x.get("fn") or "").split("::")[-1] in ("swap", "copy"):
                tgt = x
            if tgt is not None:
                for y in walk(tgt):
                    if y["k"] == "Mem" and y.get("n") in names and (not y.get("c") or path(y["c"][0], al) == "this"):
                        r.add(y["n"])
        return r
    for n in f.nodes():
        if n["k"] == "If" and n["c"][4] is not None:
            a, b = wr(n["c"][3]), wr(n["c"][4])
            if not a or not b:
                continue
            inside = {id(x) for x in walk(n)}
            pa, x, excl = fn_parents(f), n, set()
            while x is not None:
                up = pa.get(x["i"])
                if up is not None and up["k"] == "If":
                    for arm in up["c"][3:]:
                        if arm is not None and arm is not x:
                            excl |= {id(y) for y in walk(arm)}
                x = up
            out = set()
            for x in f.nodes():
                if id(x) not in inside and id(x) not in excl and x["k"] in ("Bin", "CAssign", "OCall", "Call", "MCall"):
                    if not any(id(y) in inside for y in walk(x)):
                        out |= wr(x)
            for i in f.inits:
                nm = (i.get("field") or i.get("n") or "").split("::")[-1]
                if i.get("w"):
                    out.add(nm)
            ctx.ob()
            for m in sorted((a ^ b) - out - skip):
                ctx.violate("copy-complete", f.loc(n), "%s of %s writes member %s in one branch only" % (kind, cls, m), "%s|branch|%s" % (f.name, m))
