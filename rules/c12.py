"""C12: edges carry their rule's features, and forests are scored with the current weights."""
import re
from facts import walk
from ir import cfg, fn_parents, uncast, render, path, is_const, ref_aliases, evalorder, base_type, Calls
from c11 import strip, hgm, Judge as Rules

GROUPS = ["decoder", "training", "utils", "mteval"]
ADD = "AddEdge"
KEEP = {"AddNode", "ConnectEdgeToHeadNode", "TopologicallySortNodesAndEdges", "PruneUnreachable", "PruneEdges", "PruneInsideOutside", "DensityPruneInsideOutside", "BeamPruneInsideOutside", "ResizeNodes", "ResizeEdges"}


def short(n):
    return (n.get("fn") or "").split("::")[-1].split("<")[0]


def mutpt(pt):
    """parameter type through which a forest can be changed."""
    return bool(re.search(r"\b(Hypergraph|HG)\b", pt)) and "Hypergraph::" not in pt and "HG::" not in pt and re.search(r"[*&]\s*$", pt) is not None and not re.match(r"^\s*const\b", pt)


def is_forest_t(t):
    return re.match(r"^(const )?(class )?(Hypergraph|HG)( const)?( ?[*&])*( const)?$", (t or "").strip()) is not None


EDGE_T = re.compile(r"\bEdge ?[*&]+ ?(const)?$")
FEATW, PROBW = {}, {}        # functions that write features / set the probability of an edge parameter: key -> positions


def helpers(db):
    """functions that write the features or the probability of an edge handed to them."""
    FEATW.clear()
    PROBW.clear()
    for f in db.fns.values():
        if f.body is None or f.file.startswith("klm/"):
            continue
        # the product kept in a local first: the probability is fixed where the local gets its value
        for n in f.nodes():
            v = m = None
            if n["k"] == "MCall" and short(n) == "logeq" and len(n.get("c") or []) == 2:
                m, v = strip(n["c"][0]), strip(n["c"][1])
            elif n["k"] in ("Bin", "OCall") and n.get("op") == "=" and len(n["c"]) == 2:
                m, v = strip(n["c"][0]), strip(n["c"][1])
            if m is None or v is None or m["k"] != "Mem" or m["n"] != "edge_prob_" or v["k"] != "Ref" or v.get("dk") != "local" or "d" not in v:
                continue
            for x in f.nodes():
                if x["k"] == "Var" and x["d"] == v["d"] and x.get("c") and x["c"][0] is not None and any(y["k"] == "MCall" and short(y) == "dot" for y in walk(x["c"][0])):
                    x["_pw"] = m["c"][0] if m.get("c") else m
    fns = [f for f in db.fns.values() if f.body is not None and any(EDGE_T.search(p.get("t", "")) and not p["t"].startswith("const") for p in f.params)]
    for rnd in range(3):
        for f in fns:
            pos = {p["n"]: i for i, p in enumerate(f.params) if p.get("n") and EDGE_T.search(p.get("t", "")) and not p["t"].startswith("const")}

            def names(t):
                t = strip(t)
                while t is not None and t["k"] in ("OCall", "Sub") and t.get("c"):
                    t = strip(t["c"][0])
                return pos.get(t.get("n")) if t is not None and t["k"] == "Ref" and t.get("dk") == "param" else None
            for n in f.nodes():
                for t in feat_writes(n):
                    i = names(t)
                    if i is not None:
                        FEATW.setdefault(f.key, set()).add(i)
                t = prob_writes(n)
                if t is not None:
                    i = names(t)
                    if i is not None:
                        PROBW.setdefault(f.key, set()).add(i)


def args_of(n):
    return n["c"][1:] if n["k"] == "MCall" else n.get("c") or []


# ------------------------------------------------------------------ features of an edge under construction

def feat_target(n):
    """X for X->feature_values_ (also through a reference cast)."""
    m = strip(n)
    if m is not None and m["k"] == "Mem" and m["n"] == "feature_values_" and m.get("c"):
        return m["c"][0]
    return None


class EdgeFeat:
    """what has been written to feature_values_ of each edge added in this function."""

    def __init__(self, fn, J):
        self.fn, self.J = fn, J
        self.g = cfg(fn)
        self.sites = {}
        self.need = {}
        self.fparams = []
        for p in fn.params:
            t = p.get("t", "")
            if re.match(r"^const .*SparseVector<.*> ?&$", t) and p.get("n"):
                self.fparams.append(p)
        if not any(n["k"] == "Ref" and n.get("d") == p.get("d") for p in self.fparams for n in fn.nodes()):
            pass

    def vkey(self, n):
        n = strip(n)
        if n is None:
            return None
        if n["k"] == "Mem" and n["n"] == "id_" and n.get("c"):
            return self.vkey(n["c"][0])
        if n["k"] == "Sub" or n["k"] == "OCall" and n["op"] == "[]":
            b = strip(n["c"][0])
            if b["k"] == "Mem" and b["n"] == "edges_":
                return self.vkey(n["c"][1])
        if n["k"] == "OCall" and n["op"] in ("->", "*") and len(n["c"]) == 1:
            return self.vkey(n["c"][0])
        if n["k"] == "Ref" and "d" in n:
            return "%s#%s" % (n["n"], n["d"])
        return path(n)

    def opener(self, n):
        n = strip(n)
        if n is None:
            return None
        if n["k"] == "Mem" and n["n"] == "id_" and n.get("c"):
            return self.opener(n["c"][0])
        if n["k"] == "OCall" and n["op"] in ("->", "*"):
            return self.opener(n["c"][0])
        if hgm(n, ADD) or n["k"] in ("Call", "MCall") and n.get("f") in self.J.makers:
            return n
        return None

    def carries(self, x):
        """does the rule given to this AddEdge come with features of its own?  'rule' / 'copy' / None"""
        if not hgm(x, ADD) or len(x["c"]) < 2:
            return self.J.makers.get(x.get("f")) if x.get("f") in self.J.makers else None
        pt = (x.get("pt") or [""])[0]
        if "Edge" in pt:
            return "copy"
        e = strip(x["c"][1])
        return "rule" if self.rich(e, set()) else None

    def rich(self, e, seen):
        e = strip(e)
        while e is not None and e["k"] == "Cond":
            return any(self.rich(c, seen) for c in e["c"][1:])
        if e is None:
            return False
        if e["k"] in ("Ctor", "Init", "Temp", "Cast", "ICast") and e.get("c"):
            t = e.get("t", "")
            if "TRule" in t and "Ptr" not in t and "shared_ptr" not in t and e["k"] == "Ctor":
                pt = (e.get("pt") or [""])[0]
                if "TRule" in pt:                    # a copy of another rule
                    return any(self.rich(c, seen) for c in e["c"] if c is not None)
                return "string" in pt and not any(c is not None and has_lit(c) for c in e["c"])
            return any(self.rich(c, seen) for c in e["c"] if c is not None)
        if e["k"] == "New":
            return any(self.rich(c, seen) for c in e.get("c", []) if c is not None)
        if e["k"] in ("Call", "MCall"):
            s = short(e)
            if s in ("GetIthRule", "CreateRuleMonolingual", "CreateRuleBilingual", "CreateRuleSynchronous", "CreatePhrasetableRule", "CreateRulePhrasetable"):
                return True
            return False
        if e["k"] == "OCall" and e["op"] in ("[]", "*", "->") or e["k"] == "Sub":
            if e["k"] == "OCall" and e["op"] != "[]":
                return self.rich(e["c"][0], seen)
            return True
        if e["k"] == "Mem":
            if e["n"] == "rule_" or e["n"] == "first" or e["n"] == "second":
                return True
            return False
        if e["k"] == "Ref":
            if e.get("dk") == "param":
                return True
            if "d" not in e or e["d"] in seen:
                return False
            seen = seen | {e["d"]}
            if e.get("dk") in ("slocal", "global"):
                return False
            for v in self.fn.nodes():
                if v["k"] in ("Var", "ForRange") and (v["d"] if v["k"] == "Var" else (v.get("var") or {}).get("d") if isinstance(v.get("var"), dict) else None) == e["d"]:
                    t = v.get("t", "") if v["k"] == "Var" else ""
                    if t.rstrip().endswith("&") and "TRule" in t and not (v.get("c") and v["c"][0] is not None and strip(v["c"][0])["k"] in ("Mem", "New")):
                        return True                  # an element of a list of rules
                if v["k"] == "Var" and v["d"] == e["d"] and v.get("c") and v["c"][0] is not None and self.rich(v["c"][0], seen):
                    return True
                if v["k"] == "OCall" and v["op"] == "=" and strip(v["c"][0]).get("d") == e["d"] and self.rich(v["c"][1], seen):
                    return True
                if v["k"] == "MCall" and short(v) == "reset" and strip(v["c"][0]).get("d") == e["d"] and len(v["c"]) > 1 and self.rich(v["c"][1], seen):
                    return True
            return False
        return False

    def source(self, rhs):
        """kinds of features an expression brings: 'rule' (of a rule), 'edge' (of another edge), parameters."""
        out = set()
        single = {y["i"] for x in walk(rhs) if x["k"] == "MCall" and short(x) in ("value", "get", "size", "empty", "count", "dot") and x.get("c") for y in walk(x["c"][0])}
        for x in walk(rhs):
            if x["i"] in single:
                continue
            if x["k"] == "Mem" and x["n"] in ("scores_",):
                out.add("rule")
            if x["k"] == "MCall" and short(x) == "GetFeatureValues":
                out.add("rule")
            if x["k"] == "Mem" and x["n"] == "feature_values_":
                out.add("edge")
            if x["k"] == "Ref" and x.get("dk") == "param":
                out.add(("param", x["n"]))
            if x["k"] == "Ref" and x.get("dk") == "local" and "SparseVector" in (x.get("t") or ""):
                for v in self.fn.nodes():
                    if v["k"] == "Var" and v["d"] == x.get("d") and v.get("c") and v["c"][0] is not None and v["c"][0] is not rhs:
                        for y in walk(v["c"][0]):
                            if y["k"] == "Ref" and y.get("dk") == "param":
                                out.add(("param", y["n"]))
                            if y["k"] == "Mem" and y["n"] == "scores_" or y["k"] == "MCall" and short(y) == "GetFeatureValues":
                                out.add("rule")
                            if y["k"] == "Mem" and y["n"] == "feature_values_":
                                out.add("edge")
                    # local += x
                    if v["k"] == "OCall" and v["op"] in ("+=", "=") and strip(v["c"][0]).get("d") == x.get("d") and strip(v["c"][0])["k"] == "Ref" and v["c"][1] is not rhs:
                        for y in walk(v["c"][1]):
                            if y["k"] == "Ref" and y.get("dk") == "param":
                                out.add(("param", y["n"]))
                            if y["k"] == "Mem" and y["n"] == "scores_" or y["k"] == "MCall" and short(y) == "GetFeatureValues":
                                out.add("rule")
        return out

    def step(self, ast, st, rep):
        st = dict(st)
        for x in evalorder(ast):
            k = x["k"]
            if k in ("MCall", "Call") and self.opener(x) is x:
                s = x["i"]
                self.sites[s] = x
                c = self.carries(x)
                if s in st and rep is not None:
                    self.closing(s, st[s], rep, "before the next edge is added")
                st[s] = frozenset(["W", "edge"]) if c in ("copy", "done") else frozenset()
            elif k in ("MCall", "Call") and x.get("f") in FEATW:
                for i in FEATW[x["f"]]:
                    if i < len(args_of(x)) and args_of(x)[i] is not None:
                        for s in self.edges_of(args_of(x)[i], st):
                            if s in st:
                                src = set()
                                for a in args_of(x):
                                    if a is not None:
                                        src |= self.source(a)
                                st[s] = st[s] | src | {"W", "rule"}
            elif k == "Var" and x.get("c") and x["c"][0] is not None:
                self.bind("%s#%s" % (x["n"], x["d"]), x["c"][0], st)
            elif k in ("Bin", "OCall", "CAssign") and x.get("op") in ("=", "+=", "-=", "*=") and len(x["c"]) == 2:
                t = feat_target(x["c"][0])
                if t is not None:
                    for s in self.edges_of(t, st):
                        src = self.source(x["c"][1])
                        old = st.get(s)
                        if old is None:
                            continue
                        if x["op"] == "=":
                            if "W" in old and "edge" not in {z for z in src} and rep is not None and not self.self_ref(x["c"][1], t):
                                rep("kept", x, "features already written to the edge are thrown away by a plain assignment")
                            st[s] = frozenset(["W"]) | src if not self.self_ref(x["c"][1], t) else old | src | {"W"}
                        elif x["op"] == "+=":
                            st[s] = old | src | {"W"}
                        else:
                            st[s] = old | {"W"}
                elif x.get("op") == "=":
                    v = self.vkey(x["c"][0])
                    if v is not None:
                        self.bind(v, x["c"][1], st)
            elif k == "MCall" and x.get("c"):
                t = feat_target(x["c"][0])
                if t is not None and short(x) in ("set_value", "add_value", "clear", "swap", "insert", "erase"):
                    for s in self.edges_of(t, st):
                        if s in st:
                            if short(x) in ("clear", "swap"):
                                if "W" in st[s] and rep is not None:
                                    rep("kept", x, "features already written to the edge are cleared")
                                st[s] = frozenset()
                            else:
                                src = set()
                                for a in x["c"][1:]:
                                    src |= self.source(a)
                                st[s] = st[s] | src | {"W"}
        return st

    def self_ref(self, rhs, t):
        r = render(t)
        return any(x["k"] == "Mem" and x["n"] == "feature_values_" and x.get("c") and render(x["c"][0]) == r for x in walk(rhs))

    def edges_of(self, t, st):
        o = self.opener(t)
        if o is not None:
            return (o["i"],)
        return st.get(("v", self.vkey(t)), ())

    def bind(self, v, rhs, st):
        st.pop(("v", v), None)
        o = self.opener(rhs)
        if o is not None:
            st[("v", v)] = (o["i"],)
            return
        w = self.vkey(rhs)
        if w is not None and ("v", w) in st:
            st[("v", v)] = st[("v", w)]

    def closing(self, s, have, rep, when):
        x = self.sites[s]
        c = self.carries(x)
        if c == "rule" and not ({"rule", "edge"} & have) and "*" not in have:
            ps = [h for h in have if isinstance(h, tuple) and h[1] not in {p["n"] for p in self.fparams}]
            if not ps:
                rep("rule-features", x, "an edge is built for a rule that has features, but on some path the edge does not get them (%s)" % when)
                return
        for p in self.fparams:
            if ("param", p["n"]) not in have and self.param_matters(p):
                rep("given-features", x, "the features handed to the function in '%s' do not reach the edge built here on some path (%s)" % (p["n"], when))

    def param_matters(self, p):
        return True

    def run(self):
        g = self.g

        def transfer(nd, st):
            if nd.ast is not None and nd.kind in ("expr", "decl", "init", "assume", "rangedecl"):
                # a loop over a feature list: its body may run zero times; what the loop adds counts as added
                return self.step(nd.ast, st, None)
            if nd.kind == "return" and nd.ast is not None and nd.ast.get("c") and nd.ast["c"][0] is not None:
                return self.step(nd.ast["c"][0], st, None)
            return st

        def join(a, b):
            r = {}
            for k in set(a) | set(b):
                x, y = a.get(k), b.get(k)
                if x is None or y is None:
                    r[k] = x if y is None else y
                elif isinstance(k, tuple):
                    r[k] = tuple(sorted(set(x) | set(y)))
                else:
                    r[k] = x & y | ({"W"} & (x | y))
            return r
        ins = g.forward({}, transfer, join)
        out = {}

        def rep(rule, x, msg):
            out.setdefault((rule, x["i"], msg), (rule, x, msg))
        for nd in g.nodes:
            if nd.id in ins and nd.ast is not None:
                if nd.kind in ("expr", "decl", "init", "assume", "rangedecl"):
                    self.step(nd.ast, ins[nd.id], rep)
                elif nd.kind == "return" and nd.ast.get("c") and nd.ast["c"][0] is not None:
                    self.step(nd.ast["c"][0], ins[nd.id], rep)
        ex = ins.get(g.exit.id)
        self.escapes = set()
        self.exstate = ex or {}
        if ex is not None:
            lp = self.loop_writes()
            for s, have in ex.items():
                if isinstance(s, tuple):
                    continue
                have = have | lp.get(s, frozenset())
                self.closing(s, have, rep, "at the end of the function")
        return [v for v in out.values()]

    def loop_writes(self):
        """features added one by one in a loop over a list (the loop may be empty: nothing to add then)."""
        r = {}
        vs = {}
        for n in self.fn.nodes():
            if n["k"] == "Var" and n.get("c") and n["c"][0] is not None:
                o = self.opener(n["c"][0])
                if o is not None:
                    vs["%s#%s" % (n["n"], n["d"])] = o["i"]
        par = fn_parents(self.fn)
        for n in self.fn.nodes():
            if n["k"] == "MCall" and n.get("c") and short(n) in ("set_value", "add_value"):
                t = feat_target(n["c"][0])
                if t is None:
                    continue
                s = vs.get(self.vkey(t))
                if s is None:
                    continue
                p = par.get(n["i"])
                while p is not None:
                    if p["k"] in ("For", "ForRange", "While"):
                        src = {("param", x["n"]) for x in walk(p) if x["k"] == "Ref" and x.get("dk") == "param"}
                        if any(x["k"] == "Mem" and x["n"] == "scores_" or x["k"] == "MCall" and short(x) == "GetFeatureValues" for x in walk(p)):
                            src.add("rule")
                        r[s] = r.get(s, frozenset()) | src
                    p = par.get(p["i"])
        return r


def has_lit(n):
    return any(x["k"] == "Str" for x in walk(n))


# ------------------------------------------------------------------ scoring of forests

class Score:
    """effect of a function on the scoring of the forests it is given: for every forest parameter
    the set of outcomes at returns that are not 'false':  I (as it came)  W (weighted last)  D (changed after)."""

    def __init__(self, db, calls):
        self.db, self.calls = db, calls
        self.sum = {}
        self.busy = set()
        self.fail = {}
        self.wpar = {}

    def forests(self, fn):
        return [(i, p) for i, p in enumerate(fn.params) if mutpt(p.get("t", "")) and p.get("n")]

    def summary(self, key):
        if key in self.sum:
            return self.sum[key]
        fn = self.db.fns.get(key)
        if fn is None or fn.body is None:
            return None
        if key in self.busy:
            return {}
        self.busy.add(key)
        r = Flow2(fn, self).run()
        self.busy.discard(key)
        self.sum[key] = r
        return r


class Flow2:
    def __init__(self, fn, S):
        self.fn, self.S = fn, S
        self.g = cfg(fn)
        self.al = ref_aliases(fn)
        self.last = {}
        self.edgevars = {}
        for n in fn.nodes():
            if n["k"] == "Var" and n.get("c") and n["c"][0] is not None and re.search(r"Edge ?[*&]", n.get("t", "")):
                r = self.root(n["c"][0])
                if r is not None:
                    self.edgevars[n["d"]] = r

    def root(self, e):
        """the forest an expression (forest, its edges_, an edge of it) belongs to."""
        e = strip(e)
        k = 0
        while e is not None and k < 12:
            k += 1
            if e["k"] == "Ref":
                if is_forest_t(e.get("t")) and "d" in e:
                    # a reference to another forest
                    for v in self.fn.nodes():
                        if v["k"] == "Var" and v["d"] == e["d"] and v.get("t", "").rstrip().endswith(("&", "*")) and v.get("c") and v["c"][0] is not None:
                            x = self.root(v["c"][0])
                            return x if x is not None else "%s#%s" % (e["n"], e["d"])
                    return "%s#%s" % (e["n"], e["d"])
                if e.get("d") in self.edgevars:
                    return self.edgevars[e["d"]]
                return None
            if e["k"] == "Mem":
                if is_forest_t(e.get("t")):
                    return path(e, self.al) or render(e)
                if not e.get("c"):
                    return None
                e = strip(e["c"][0])
                continue
            if e["k"] in ("Sub",) or e["k"] == "OCall" and e["op"] in ("[]", "->", "*"):
                e = strip(e["c"][0])
                continue
            if e["k"] == "MCall" and e.get("c") and (hgm(e, ADD) or short(e) in ("get", "front", "back", "begin", "end")):
                e = strip(e["c"][0])
                continue
            if e["k"] == "This" and (self.fn.h.get("cls") == "Hypergraph"):
                return "this"
            return None
        return None

    def step(self, ast, st):
        """st: {forest: state}"""
        st = dict(st)
        for x in evalorder(ast):
            k = x["k"]
            if k == "MCall" and x.get("c") and (x.get("fn") or "").startswith("Hypergraph::"):
                r = self.root(x["c"][0])
                s = short(x)
                if r is None:
                    continue
                if s == "Reweight":
                    st[r] = "W"
                    self.last[r] = x
                elif s == ADD:
                    st[r] = "D"
                    self.last[r] = x
                elif s == "swap" and len(x["c"]) > 1:
                    o = self.root(x["c"][1])
                    a, b = st.get(r, "I"), st.get(o, "I") if o else "D"
                    st[r] = b
                    if o:
                        st[o] = a
                elif s == "clear":
                    st[r] = "E"
                elif s in KEEP or x.get("const"):
                    pass
            elif k in ("MCall", "OCall", "Bin", "CAssign") and x.get("c"):
                t = None
                if k == "MCall" and short(x) in ("set_value", "add_value", "clear", "erase"):
                    t = feat_target(x["c"][0])
                elif k != "MCall" and x.get("op") in ("=", "+=", "-=", "*=", "/="):
                    t = feat_target(x["c"][0])
                    if t is None and x["op"] == "=" and is_forest_t(strip(x["c"][0]).get("t")):
                        r, o = self.root(x["c"][0]), self.root(x["c"][1])
                        if r:
                            st[r] = st.get(o, "I") if o else "D"
                        continue
                if t is not None:
                    r = self.root(t)
                    if r is not None:
                        st[r] = "D"
                        self.last[r] = x
                elif k == "MCall":
                    self.call(x, st)
            elif k == "Var" and is_forest_t(x.get("t")) and not x["t"].rstrip().endswith(("&", "*")):
                st["%s#%s" % (x["n"], x["d"])] = "E"
            elif k == "Call":
                self.call(x, st)
        return st

    def call(self, x, st):
        args = x["c"][1:] if x["k"] == "MCall" else x["c"]
        pt = x.get("pt") or []
        keys = None
        for i in FEATW.get(x.get("f"), ()):
            if i < len(args) and args[i] is not None:
                r = self.root(args[i])
                if r is not None:
                    st[r] = "D"
                    self.last[r] = x
        for i, a in enumerate(args):
            if a is None or i >= len(pt) or not mutpt(pt[i]):
                continue
            r = self.root(a)
            if r is None:
                continue
            if keys is None:
                keys = self.S.calls.targets(x) or ([x["f"]] if x.get("f") else [])
            outs = set()
            for key in keys:
                s = self.S.summary(getattr(key, "key", key))
                if s is None:
                    outs.add("D")
                else:
                    outs |= s.get(i, {"I"} if s == {} else set())
            if not outs:
                continue
            old = st.get(r, "I")
            res = {old if o == "I" else o for o in outs}
            st[r] = "D" if "D" in res else next(iter(sorted(res, reverse=True)))
            if "W" in res and "I" in res:
                st[r] = "I"
            if "D" in res or "W" in res:
                self.last[r] = x

    def run(self):
        """disjunctive forward analysis; the elements are (state, variables known false)."""
        g, fn = self.g, self.fn
        pf = self.S.forests(fn)
        CAP = 48

        def norm(states):
            return frozenset(list(states)[:CAP]) if len(states) > CAP else frozenset(states)

        def enc(st, fl):
            return (tuple(sorted(st.items())), fl)

        def transfer(nd, S):
            out = set()
            for st, fl in S:
                if nd.kind == "assume" and nd.ast is not None:
                    v = strip(nd.ast)
                    pol = nd.pol
                    while v is not None and v["k"] == "Un" and v["op"] == "!":
                        v, pol = strip(v["c"][0]), not pol
                    nst = self.step(nd.ast, dict(st))
                    if v is not None and v["k"] == "Ref" and "d" in v and v.get("t") in ("bool", "const bool"):
                        if not pol:
                            fl = fl | {v["d"]}
                        elif v["d"] in fl:
                            continue
                    out.add(enc(nst, fl))
                elif nd.ast is not None and nd.kind in ("expr", "decl", "init", "rangedecl", "return"):
                    a = nd.ast
                    if nd.kind == "return":
                        if a["k"] != "Return" or not a.get("c") or a["c"][0] is None:
                            out.add((st, fl))
                            continue
                        a = a["c"][0]
                    nst = self.step(a, dict(st))
                    for w in evalorder(a):
                        if w["k"] == "Var" or w["k"] == "Bin" and w["op"] == "=":
                            d = w["d"] if w["k"] == "Var" else strip(w["c"][0]).get("d")
                            val = (w["c"][0] if w.get("c") else None) if w["k"] == "Var" else w["c"][1]
                            fl = fl - {d}
                            if val is not None and is_const(val) == 0 and "bool" in (w.get("t") or ""):
                                fl = fl | {d}
                    out.add(enc(nst, fl))
                else:
                    out.add((st, fl))
            return norm(out)
        init = frozenset([enc({}, frozenset())])
        ins = g.forward(init, transfer, lambda a, b: norm(a | b))
        res = {i: set() for i, p in pf}
        self.bad = {}
        for nd in g.nodes:
            if nd.id not in ins:
                continue
            if nd.kind == "return":
                a = nd.ast["c"][0] if nd.ast is not None and nd.ast["k"] == "Return" and nd.ast.get("c") else None
                for st, fl in transfer(nd, ins[nd.id]):
                    if a is not None:
                        v = strip(a)
                        if is_const(a) == 0 and "bool" in (fn.h.get("ret") or ""):
                            continue
                        if v is not None and v["k"] == "Ref" and v.get("d") in fl:
                            continue
                    self.collect(dict(st), pf, res, nd)
            elif nd is not g.exit and g.exit in nd.succ and nd.kind != "return":
                for st, fl in transfer(nd, ins[nd.id]):
                    self.collect(dict(st), pf, res, nd)
        return res

    def collect(self, st, pf, res, nd):
        for i, p in pf:
            k = "%s#%s" % (p["n"], p["d"]) if "d" in p else None
            if k is None:
                k = next((x for x in st if x.startswith(p["n"] + "#")), None)
            s = st.get(k, "I")
            res[i].add(s)
            if s in ("D",):
                self.bad.setdefault(i, (nd, self.last.get(k)))


# ------------------------------------------------------------------ probabilities computed from features

def prob_writes(n):
    """X for X->edge_prob_ set from a dot product of features and weights."""
    if n["k"] == "MCall" and short(n) in ("logeq",) and n.get("c"):
        m = strip(n["c"][0])
        if m["k"] == "Mem" and m["n"] == "edge_prob_" and any(x["k"] == "MCall" and short(x) == "dot" for a in n["c"][1:] for x in walk(a)):
            return m["c"][0] if m.get("c") else m
    if "_pw" in n:
        return n["_pw"]
    if n["k"] in ("MCall", "Call") and n.get("f") in PROBW:
        for i in PROBW[n["f"]]:
            if i < len(args_of(n)) and args_of(n)[i] is not None:
                return args_of(n)[i]
    if n["k"] in ("Bin", "OCall") and n.get("op") == "=" and len(n["c"]) == 2:
        m = strip(n["c"][0])
        if m is not None and m["k"] == "Mem" and m["n"] == "edge_prob_" and any(x["k"] == "MCall" and short(x) == "dot" for x in walk(n["c"][1])):
            return m["c"][0] if m.get("c") else m
    return None


def feat_writes(n):
    """expressions naming edges whose features this node changes (also by handing out their address)."""
    out = []
    if n["k"] == "MCall" and n.get("c") and short(n) in ("set_value", "add_value", "clear", "erase"):
        t = feat_target(n["c"][0])
        if t is not None:
            out.append(t)
    if n["k"] in ("OCall", "Bin", "CAssign") and n.get("op") in ("=", "+=", "-=", "*=", "/=") and len(n["c"]) == 2:
        t = feat_target(n["c"][0])
        if t is not None:
            out.append(t)
    if n["k"] in ("MCall", "Call"):
        for i in FEATW.get(n.get("f"), ()):
            if i < len(args_of(n)) and args_of(n)[i] is not None:
                out.append(args_of(n)[i])
        pt = n.get("pt") or []
        args = n["c"][1:] if n["k"] == "MCall" else n["c"]
        for i, a in enumerate(args):
            if a is not None and i < len(pt) and re.search(r"SparseVector<[^>]*> ?[*&]$", pt[i]) and not pt[i].startswith("const"):
                t = feat_target(a)
                if t is not None:
                    out.append(t)
    return out


def prob_order(fn, ctx):
    ws = [n for n in fn.nodes() if prob_writes(n) is not None]
    fs = [n for n in fn.nodes() if feat_writes(n)]
    if not ws:
        # features produced for an edge by feature functions must be followed by its probability
        if not any(n["k"] == "MCall" and (n.get("fn") or "").startswith("FeatureFunction::") and feat_writes(n) for n in fs):
            return
    al = ref_aliases(fn)
    for w in ws:
        t = prob_writes(w)
        own = render(t, al)
        dots = [x for x in walk(w) if x["k"] == "MCall" and short(x) == "dot"]
        for d in dots:
            ft = [feat_target(a) for a in d["c"] if a is not None]
            ft = [f for f in ft if f is not None]
            if ft:
                ok = all(render(f, al) == own for f in ft)
                ctx.ob(ok)
                ctx.count("probabilities_from_features")
                if not ok:
                    ctx.violate("scored", fn.loc(w), "%s computes an edge's probability from another edge's features" % fn.name, "%s|other" % fn.name)
    if not fs:
        return
    g = cfg(fn)
    S0 = frozenset(["clean"])

    def step(ast, st):
        for x in evalorder(ast):
            if prob_writes(x) is not None:
                st = None
            elif feat_writes(x):
                st = x["i"]
        return st

    def transfer(nd, S):
        if nd.ast is None or nd.kind not in ("expr", "decl", "init", "assume", "return"):
            return S
        a = nd.ast
        if nd.kind == "return":
            a = a["c"][0] if a["k"] == "Return" and a.get("c") else None
        if a is None:
            return S
        return frozenset(step(a, s) for s in S)
    ins = g.forward(frozenset([None]), transfer, lambda a, b: a | b)
    left = [s for s in ins.get(g.exit.id, ()) if s is not None]
    ctx.ob(not left)
    for s in left:
        x = next(n for n in fn.nodes() if n["i"] == s)
        ctx.violate("scored", fn.loc(x), "%s computes the edge's probability, but on some path features change afterwards (or the probability is not computed at all)" % fn.name, "%s|order" % fn.name)


def loops_all(fn, ctx):
    """Reweight: every edge of the forest gets a probability from its own features and the weights given."""
    if (fn.h.get("cls") or "") != "Hypergraph" or fn.name.split("::")[-1].split("<")[0] != "Reweight":
        return
    every_iter(fn, ctx, lambda x: prob_writes(x) is not None, lambda l: any(y["k"] == "Mem" and y["n"] == "edges_" for y in walk(l)), "scored", "an edge is left with its old probability")


def every_iter(fn, ctx, event, over, rule, what):
    """in every loop over a matching range, each path through the body reaches an event."""
    from ir import walk_nl
    found = False
    for n in fn.nodes():
        if n["k"] not in ("For", "ForRange", "While"):
            continue
        if n["k"] == "ForRange":
            rng, body = n["c"][0], n["c"][1]
        elif n["k"] == "For":
            rng, body = n["c"][2], n["c"][4]
        else:
            rng, body = n["c"][1], n["c"][2]
        if body is None or not any(event(x) for x in walk(body)):
            continue
        if rng is not None and not over(rng) and not over(body):
            continue
        # innermost loop holding the event
        if any(m is not n and m["k"] in ("For", "ForRange", "While", "Do") and any(event(x) for x in walk(m)) for m in walk(body)):
            continue
        found = True
        ok = must(fn, body, event)
        ctx.ob(ok)
        ctx.count("loops_over_all")
        if not ok:
            ctx.violate(rule, fn.loc(n), "%s: on some path through the loop %s" % (fn.name, what), "%s|%s" % (fn.name, what[:40]))
    return found


def must(fn, s, event):
    """does every path through statement s reach an event (paths leaving by return/break/continue included)?"""
    if s is None:
        return False
    k = s["k"]
    if k in ("Block", "Compound", "DeclStmt", "Seq"):
        for c in s.get("c", []):
            if must(fn, c, event):
                return True
            if c is not None and leaves(c):
                return False
        return False
    if k == "If":
        if any(s["c"][i] is not None and any(event(x) for x in walk_plain(s["c"][i])) for i in (0, 1, 2)):
            return True
        return must(fn, s["c"][3], event) and s["c"][4] is not None and must(fn, s["c"][4], event)
    if k in ("For", "While", "ForRange", "Switch", "Try"):
        return False
    if k == "Do":
        return must(fn, s["c"][0], event)
    return any(event(x) for x in walk_plain(s))


def walk_plain(n):
    """no short-circuit right sides, no conditional branches."""
    if n is None:
        return
    yield n
    cs = n.get("c") or []
    if n["k"] == "Bin" and n["op"] in ("&&", "||"):
        cs = cs[:1]
    if n["k"] == "Cond":
        cs = cs[:1]
    if n["k"] == "Lambda":
        return
    for c in cs:
        if c is not None:
            yield from walk_plain(c)


def leaves(s):
    """may the statement leave the block early?"""
    return any(x["k"] in ("Return", "Break", "Continue", "Goto") for x in walk(s) if x["k"] != "Lambda")


# ------------------------------------------------------------------ derivation aggregators

def traversals(db, ctx):
    """functors (edge, antecedents, result): the result takes the edge's own part and every antecedent."""
    for f in sorted(db.fns.values(), key=lambda f: (f.file, f.line, f.key)):
        if f.body is None or f.h.get("op") != "()" or "_test" in f.file:
            continue
        ps = f.params
        if len(ps) != 3:
            continue
        t = [p.get("t", "") for p in ps]
        if not ("Edge" in t[0] and "vector" in t[1] and t[1].rstrip().endswith("&") and t[2].rstrip().endswith("*")):
            continue
        ctx.count("traversals")
        uses = {p["n"]: [n for n in f.nodes() if n["k"] == "Ref" and n.get("n") == p["n"] and n.get("dk") == "param"] for p in ps}
        ok = bool(uses[ps[1]["n"]])
        ctx.ob(ok)
        if not ok:
            ctx.violate("derivation", f.loc(), "%s ignores the antecedents of the edge: the yield of a derivation loses its sub-derivations" % f.name, "%s|ants" % f.name)
            continue
        if not re.match(r"^(unsigned |long )*(int|long|unsigned|double|float|size_t)\b", t[2]):
            ok = bool(uses.get(ps[0]["n"])) if ps[0].get("n") else False
            ctx.ob(ok)
            if not ok:
                ctx.violate("derivation", f.loc(), "%s does not use the edge: the edge's own part is missing from the yield" % f.name, "%s|edge" % f.name)
        # where antecedents are visited one by one, the loop starts at the first and skips none
        par = fn_parents(f)
        for u in uses[ps[1]["n"]]:
            p = par.get(u["i"])
            if p is None or not (p["k"] == "OCall" and p["op"] == "[]"):
                continue
            ix = strip(p["c"][1])
            if ix["k"] == "Int":
                continue
            lp = p
            while lp is not None and lp["k"] not in ("For",):
                lp = par.get(lp["i"])
            if lp is None:
                continue
            init = lp["c"][0]
            iv = [v for v in walk(init) if v["k"] == "Var"] if init is not None else []
            if len(iv) == 1 and ix["k"] == "Ref" and ix.get("d") == iv[0]["d"]:
                s0 = is_const(iv[0]["c"][0]) if iv[0].get("c") else None
                cond = strip(lp["c"][2]) if lp["c"][2] is not None else None
                okc = cond is not None and cond["k"] == "Bin" and cond["op"] in ("<", "!=") and not any(x["k"] == "Bin" and x["op"] == "-" for x in walk(cond))
                ctx.ob(s0 == 0 and okc)
                if not (s0 == 0 and okc):
                    ctx.violate("derivation", f.loc(lp), "%s does not visit every antecedent of the edge" % f.name, "%s|range" % f.name)


# ------------------------------------------------------------------ feature sets

def every_model(db, ctx):
    for f in sorted(db.fns.values(), key=lambda f: (f.file, f.line, f.key)):
        if f.body is None or (f.h.get("cls") or "") != "ModelSet":
            continue
        ev = {}
        for n in f.nodes():
            if n["k"] == "MCall" and (n.get("fn") or "").startswith("FeatureFunction::") and short(n) in ("TraversalFeatures", "FinalTraversalFeatures", "PrepareForInput"):
                ev.setdefault(short(n), []).append(n)
        for name, ns in ev.items():
            ids = {n["i"] for n in ns}
            found = every_iter(f, ctx, lambda x: x["i"] in ids, lambda l: any(y["k"] == "Mem" and y["n"] in ("models_", "model_ids_", "model_state_pos_") for y in walk(l)), "every-model", "a feature function is skipped (%s)" % name)
            ctx.count("model_loops", 1 if found else 0)
            if not found:
                # not in a loop over the models: every model cannot be reached
                loops = [n for n in f.nodes() if n["k"] in ("For", "ForRange", "While", "Do")] or [1 for h in db.fns.values() if h is not f and h.h.get("cls") == "ModelSet" and any(n.get("f") == f.key for n in h.nodes())]
                ctx.ob(bool(loops))
                if not loops:
                    ctx.violate("every-model", f.loc(), "%s calls %s for a single feature function" % (f.name, name), "%s|%s" % (f.name, name))


def read_scored(db, ctx, calls, scope):
    """a forest read from a file carries no probabilities (they are not stored): Reweight before they are used."""
    readers = set()
    for f in scope:
        if (f.h.get("cls") or "") in ("HG::Edge", "Hypergraph") and f.name.split("::")[-1].split("<")[0] in ("Reweight", "operator=", "copy_fixed", "copy_pod", "copy_reindex", "Edge"):
            continue
        lhs = {strip(n["c"][0])["i"] for n in f.nodes() if n["k"] in ("Bin", "OCall") and n.get("op") == "=" and n.get("c") and strip(n["c"][0]) is not None}
        lhs |= {strip(n["c"][0])["i"] for n in f.nodes() if n["k"] == "MCall" and n.get("c") and short(n) in ("logeq",)}
        if any(n["k"] == "Mem" and n["n"] == "edge_prob_" and n["i"] not in lhs for n in f.nodes()):
            readers.add(f.key)
    memo = {}

    def uses(keys):
        keys = tuple(sorted(getattr(k, "key", k) for k in keys))
        if keys not in memo:
            memo[keys] = bool(set(calls.reach([db.fns[k] for k in keys if k in db.fns])) & readers)
        return memo[keys]
    for f in scope:
        rd = [n for n in f.nodes() if n["k"] in ("Call", "MCall") and short(n).startswith("ReadFrom") and any(is_forest_t(t) for t in n.get("pt") or [])]
        if not rd:
            continue
        F = Flow2(f, Score(db, calls))
        g = cfg(f)
        bad = {}

        def step(ast, st, rep):
            st = set(st)
            for x in evalorder(ast):
                if x["k"] not in ("Call", "MCall"):
                    continue
                if x in rd:
                    for a in args_of(x):
                        r = F.root(a) if a is not None else None
                        if r is not None:
                            st.add(r)
                    continue
                if x["k"] == "MCall" and x.get("c"):
                    r = F.root(x["c"][0])
                    if r in st:
                        if short(x) in ("Reweight", "clear"):
                            st.discard(r)
                        elif (x.get("fn") or "").startswith("Hypergraph::") and rep and uses(calls.targets(x)):
                            rep(x, r)
                pt = x.get("pt") or []
                for i, a in enumerate(args_of(x)):
                    r = F.root(a) if a is not None and i < len(pt) and re.search(r"\b(Hypergraph|HG)\b( const)? ?[*&]", pt[i]) else None
                    if r in st:
                        t = calls.targets(x)
                        if any((x2 := db.fns.get(getattr(k, "key", k))) is not None and any(hgm(y, "Reweight") for y in x2.nodes()) for k in t):
                            st.discard(r)
                        elif rep and uses(t):
                            rep(x, r)
            return frozenset(st)

        def transfer(nd, st):
            if nd.ast is None or nd.kind not in ("expr", "decl", "init", "assume", "return", "rangedecl"):
                return st
            a = nd.ast
            if nd.kind == "return":
                a = a["c"][0] if a["k"] == "Return" and a.get("c") else None
            return step(a, st, None) if a is not None else st
        ins = g.forward(frozenset(), transfer, lambda a, b: a | b)
        for nd in g.nodes:
            if nd.id in ins and nd.ast is not None and nd.kind in ("expr", "decl", "init", "assume", "return", "rangedecl"):
                a = nd.ast
                if nd.kind == "return":
                    a = a["c"][0] if a["k"] == "Return" and a.get("c") else None
                if a is not None:
                    step(a, ins[nd.id], lambda x, r: bad.setdefault(x["i"], (x, r)))
        ctx.count("forests_read", len(rd))
        ctx.ob(not bad)
        for x, r in bad.values():
            ctx.violate("read-scored", f.loc(x), "%s uses edge probabilities of a forest read from a file (%s in %s) before scoring it with Reweight" % (f.name, r.split("#")[0], short(x)), "%s|%s" % (f.name, short(x)))


def run(db, ctx):
    ctx.rule("read-scored", "probabilities are not stored with a forest: after ReadFromBinary/ReadFromPLF a forest goes through Reweight before it is passed to code that reads edge probabilities")
    ctx.rule("rule-features", "an edge added for a rule that has features (from a grammar, a phrase table, another edge or a parameter; not a fixed literal rule) receives that rule's features on every path to the next added edge or to the end of the function")
    ctx.rule("given-features", "features handed to the edge-building function as a parameter (lattice or transition costs) reach every edge it adds")
    ctx.rule("kept", "features written to an edge under construction are not overwritten or cleared afterwards")
    ctx.rule("reweighted", "every path through Translator::TranslateImpl that reports success ends with Reweight on the returned forest, after the last edge was added and the last feature changed (through helpers, swaps and virtual calls)")
    ctx.rule("scored", "where code computes an edge's probability from its features, the features are that edge's own, and no feature changes afterwards; Reweight does so for every edge")
    ctx.rule("every-model", "ModelSet consults every feature function in every round of its loops")
    ctx.rule("derivation", "traversal functors that combine an edge with its antecedents visit all antecedents")
    helpers(db)
    J = Rules(db, ctx)
    J.makers = {}
    scope = [f for f in sorted(db.fns.values(), key=lambda f: (f.file, f.line, f.key)) if f.body is not None and not f.h.get("dep") and "_test" not in f.file and "/test_" not in f.file and not f.file.startswith("klm/")]
    cand = [f for f in scope if any(hgm(n, ADD) for n in f.nodes()) and not ((f.h.get("cls") or "") == "Hypergraph" and f.name.split("::")[-1] == ADD)]
    for rnd in range(2):
        allc = cand + [f for f in scope if f not in cand and any(n["k"] in ("Call", "MCall") and n.get("f") in J.makers for n in f.nodes())]
        res = {}
        for f in allc:
            E = EdgeFeat(f, J)
            res[f.key] = (f, E, E.run())
            # a helper that returns the fresh edge: its callers may complete it
            if re.search(r"Edge ?\*$", f.h.get("ret") or ""):
                need = [E.carries(x) for s, x in E.sites.items()]
                miss = [r for r in res[f.key][2] if r[0] in ("rule-features",)]
                J.makers[f.key] = "rule" if miss and "rule" in need else ("done" if "rule" in need or "copy" in need else None)
    for f, E, probs in res.values():
        for s, x in E.sites.items():
            ctx.count("edges_added")
            c = E.carries(x)
            if c == "rule":
                ctx.count("edges_for_rules_with_features")
                ctx.ob(not any(r == "rule-features" and y["i"] == s for r, y, m in probs))
        for rule, x, msg in probs:
            if rule == "rule-features" and f.key in J.makers:
                continue
            if rule != "rule-features":
                ctx.ob(False)
            ctx.violate(rule, f.loc(x), "%s: %s" % (f.name, msg), "%s|%s" % (f.name, re.sub(r"\W+", " ", render(x))[:60]))
    calls = Calls(db)
    S = Score(db, calls)
    for f in scope:
        if f.name.split("::")[-1] == "TranslateImpl" and not f.h.get("pure"):
            fl = Flow2(f, S)
            r = fl.run()
            S.sum[f.key] = r
            for i, p in S.forests(f):
                ctx.count("translators")
                ok = "D" not in r.get(i, ()) and "I" not in r.get(i, ())
                ctx.ob(ok)
                ctx.sample("%s: %s" % (f.name, ",".join(sorted(r.get(i, ())))))
                if not ok:
                    nd, last = fl.bad.get(i, (None, None))
                    ctx.violate("reweighted", f.loc(last) if last is not None else f.loc(), "%s can report success with a forest whose edges were not scored with the given weights after it was built" % f.name, f.name)
    read_scored(db, ctx, calls, scope)
    for f in scope:
        prob_order(f, ctx)
        loops_all(f, ctx)
    traversals(db, ctx)
    every_model(db, ctx)
    ctx.floor("edges_added", ctx.counts.get("edges_added", 0), 15)
