"""C11: forests are wired consistently: every edge reaches its head, both sides of a link change
together, ids equal positions, the goal is the last node, and an edge has as many tails as its rule
has nonterminals."""
import re
from facts import walk
from ir import cfg, fn_parents, uncast, render, path, is_const, ref_aliases, evalorder, base_type, Calls

GROUPS = ["decoder", "training", "utils", "mteval"]

ADD, CONNECT, ADDNODE = "AddEdge", "ConnectEdgeToHeadNode", "AddNode"
SORTS = {"TopologicallySortNodesAndEdges", "PruneEdges", "PruneUnreachable", "clear", "swap"}


def hgm(n, *names):
    """is n a call of one of these Hypergraph members?"""
    if n is None or n["k"] not in ("MCall", "Call"):
        return False
    f = (n.get("fn") or "")
    return f.startswith("Hypergraph::") and f.split("::")[-1].split("<")[0] in names


def strip(n):
    n = uncast(n)
    while n is not None and (n["k"] in ("Cast", "ICast", "Paren", "Temp") and n.get("c") or n["k"] == "Un" and n["op"] in ("&", "*") or n["k"] == "Ctor" and len(n.get("c") or []) == 1 and n["c"][0] is not None and (n.get("copy") or n.get("move") or n.get("elidable"))):
        n = uncast(n["c"][0])
    return n


class Flow:
    """one function: the life of every edge and node it creates."""

    def __init__(self, fn, J):
        self.fn, self.J = fn, J
        self.g = cfg(fn)
        self.al = ref_aliases(fn)
        self.par = fn_parents(fn)
        self.problems = {}
        self.sites = {}
        self.ret_open = False
        self.connected_params = None

    # ---- small helpers
    def vkey(self, n):
        """the local variable (or element) an expression names: edge pointer, id, or edges_[id]."""
        n = strip(n)
        if n is None:
            return None
        if n["k"] == "Mem" and n["n"] == "id_" and n.get("c"):
            return self.vkey(n["c"][0])
        if n["k"] in ("Sub",) or n["k"] == "OCall" and n["op"] == "[]":
            b = strip(n["c"][0])
            if b["k"] == "Mem" and b["n"] in ("edges_", "nodes_"):
                return self.vkey(n["c"][1])
        if n["k"] == "MCall" and (n.get("fn") or "").split("::")[-1] in ("get", "back", "front"):
            return render(n)
        if n["k"] == "OCall" and n["op"] in ("->", "*") and len(n["c"]) == 1:
            return self.vkey(n["c"][0])
        if n["k"] == "Ref" and "d" in n:
            return "%s#%s" % (n["n"], n["d"])
        if n["k"] in ("Mem", "Sub", "OCall"):
            p = path(n)
            return p
        return None

    def opener(self, n):
        """the call in n whose result is a fresh unconnected edge (AddEdge or a helper returning one)."""
        n = strip(n)
        if n is None:
            return None
        if n["k"] == "Mem" and n["n"] == "id_" and n.get("c"):
            return self.opener(n["c"][0])
        if n["k"] == "OCall" and n["op"] in ("->", "*"):
            return self.opener(n["c"][0])
        if hgm(n, ADD):
            return n
        if n["k"] in ("Call", "MCall") and n.get("f") in self.J.opens:
            return n
        return None

    def nodetok(self, n, st):
        """token of the node an expression denotes: created here, or 'last' marks."""
        n0 = strip(n)
        if n0 is None:
            return None
        if n0["k"] == "Mem" and n0["n"] == "id_" and n0.get("c"):
            return self.nodetok(n0["c"][0], st)
        if n0["k"] == "OCall" and n0["op"] in ("->", "*"):
            return self.nodetok(n0["c"][0], st)
        if hgm(n0, ADDNODE):
            return n0["i"]
        if n0["k"] == "Bin" and n0["op"] == "-" and is_const(n0["c"][1]) == 1:
            l = strip(n0["c"][0])
            if l["k"] == "MCall" and (l.get("fn") or "").split("::")[-1] == "size":
                o = strip(l["c"][0])
                if o["k"] == "Mem" and o["n"] == "nodes_":
                    h = path(o["c"][0], self.al) if o.get("c") else "this"
                    return st.get(("last", h))
        v = self.vkey(n0)
        if v is not None:
            return st.get(("node", v))
        return None

    def rule_text(self, e):
        return self.J.rule_text(self.fn, e)

    # ---- transfer
    def step(self, ast, st, rep):
        st = dict(st)
        for x in evalorder(ast):
            k = x["k"]
            # new edge
            if k in ("MCall", "Call") and self.opener(x) is x:
                self.open(x, st, rep)
            elif hgm(x, ADDNODE):
                h = path(x["c"][0], self.al)
                st[("last", h)] = x["i"]
                if st.get(("goal", h)) is not None:
                    st[("goal", h)] = ("late", x["i"])
            elif hgm(x, CONNECT):
                self.connect(x, x["c"][-2], x["c"][-1], st, rep)
            elif hgm(x, *SORTS):
                h = path(x["c"][0], self.al)
                st.pop(("goal", h), None)
            elif k in ("Call", "MCall") and x.get("f") in self.J.conn:
                args = x["c"][1:] if k == "MCall" else x["c"]
                for i in self.J.conn[x["f"]]:
                    if i < len(args):
                        self.connect(x, args[i], None, st, rep)
            elif k == "Var" and x.get("c"):
                self.bind("%s#%s" % (x["n"], x["d"]), x["c"][0], st)
            elif k in ("Bin", "OCall") and x.get("op") == "=" and len(x["c"]) == 2:
                l = strip(x["c"][0])
                if l is not None and l["k"] == "Mem" and l["n"] == "head_node_" and l.get("c"):
                    v = self.vkey(l["c"][0])
                    if ("edge", v) in st:
                        self.mark(v, "C", st)
                v = self.vkey(x["c"][0])
                if v is not None:
                    self.bind(v, x["c"][1], st)
        return st

    def bind(self, v, rhs, st):
        o = self.opener(rhs)
        st.pop(("edge", v), None)
        st.pop(("node", v), None)
        st.pop(("tails", v), None)
        if o is not None:
            st[("edge", v)] = (o["i"],)
            return
        r = strip(rhs)
        w = self.vkey(r) if r is not None else None
        if w is not None and ("edge", w) in st:
            st[("edge", v)] = st[("edge", w)]
            return
        t = self.nodetok(rhs, st)
        if t is not None:
            st[("node", v)] = t
        if r is not None and r["k"] in ("Ctor", "Init") and len(r.get("c") or []) == 2:
            t = self.nodetok(r["c"][1], st)
            if t is not None:
                st[("tails", v)] = t

    def open(self, x, st, rep):
        s = x["i"]
        self.sites[s] = x
        old = st.get(("site", s))
        if old in ("O", "M") and rep is not None:
            rep("connected", x, "an edge is added here again while the edge added before (in the previous round of the loop) has not been connected to a head node")
        st[("site", s)] = "O"
        # immediate uses
        p, prev = self.par.get(x["i"]), x
        while p is not None and (p["k"] in ("Cast", "ICast", "Paren") or p["k"] == "Mem" and p["n"] == "id_" or p["k"] == "OCall" and p["op"] in ("->", "*")):
            prev, p = p, self.par.get(p["i"])
        if p is None or p["k"] in ("Block", "If", "For", "While", "ForRange"):
            if rep is not None:
                rep("connected", x, "the edge added here is dropped without being connected to a head node")
            st[("site", s)] = "X"
        elif p["k"] == "Return":
            self.ret_open = True
            st[("site", s)] = "X"
        elif p["k"] == "Var" or p["k"] in ("Bin", "OCall") and p.get("op") == "=" or hgm(p, CONNECT) or p["k"] in ("Call", "MCall") and p.get("f") in self.J.conn:
            pass
        else:
            st[("site", s)] = "X"       # handed on somewhere else: not followed
            self.J.loose.add((self.fn.key, s))
        # tails must not contain the head; remember the node token of the tails
        if hgm(x, ADD) and len(x["c"]) > 2:
            t = x["c"][2]
            tk = None
            v = self.vkey(t)
            if v is not None:
                tk = st.get(("tails", v))
            r = strip(t)
            if tk is None and r is not None and r["k"] in ("Ctor", "Init") and len(r.get("c") or []) == 2:
                tk = self.nodetok(r["c"][1], st)
            if tk is not None:
                st[("tailtok", s)] = tk

    def connect(self, x, e, head, st, rep):
        o = self.opener(e)
        if o is not None:
            ss = (o["i"],)
        else:
            v = self.vkey(e)
            ss = st.get(("edge", v), ())
        if ss and all(st.get(("site", s)) == "C" for s in ss) and rep is not None:
            rep("connected", x, "an edge is connected to a head node a second time: it would be counted twice among its head's incoming edges")
        for s in ss:
            st[("site", s)] = "C"
            if head is not None:
                ht = self.nodetok(head, st)
                a = self.sites.get(s)
                h = path(x["c"][0], self.al)
                if ht is not None and st.get(("tailtok", s)) == ht and rep is not None:
                    rep("acyclic", x, "the edge's tail is the node the edge is connected to (the last node was looked up after the head had been added)")
                txt = self.rule_text(a["c"][1]) if a is not None and hgm(a, ADD) else None
                if txt and any(t.startswith("[Goal]") for t in txt):
                    last = st.get(("last", h))
                    self.J.goals.add((self.fn.key, s))
                    if ht is not None and last is not None:
                        st[("goal", h)] = ("ok", ht) if last == ht else ("late", last)

    def mark(self, v, c, st):
        for s in st.get(("edge", v), ()):
            st[("site", s)] = c

    def run(self):
        fn, g = self.fn, self.g

        def transfer(nd, st):
            if nd.kind in ("expr", "decl", "init", "return", "assume", "rangedecl") and nd.ast is not None:
                if nd.kind == "return":
                    a = nd.ast
                    if a["k"] == "Return":
                        v = self.vkey(a["c"][0]) if a.get("c") and a["c"][0] is not None else None
                        op = [s for s in st.get(("edge", v), ()) if st.get(("site", s)) == "O"] if v is not None else []
                        if op:
                            self.ret_open = True
                            st = dict(st)
                            for s in op:
                                st[("site", s)] = "X"
                    return st
                return self.step(nd.ast, st, None)
            return st

        def join(a, b):
            r = {}
            for k in set(a) | set(b):
                x, y = a.get(k), b.get(k)
                if x == y:
                    r[k] = x
                elif k[0] == "site":
                    s = {x, y}
                    r[k] = "X" if "X" in s or "P" in s else ("M" if None not in s or "C" not in s and "O" not in s else (x or y))
                    if None in s:
                        r[k] = x or y
                    if s == {"P", "C"}:
                        r[k] = "P"
                elif k[0] == "edge":
                    r[k] = tuple(sorted(set(x or ()) | set(y or ())))
                elif k[0] == "goal":
                    z = [w for w in (x, y) if w is not None]
                    r[k] = next((w for w in z if w[0] == "late"), z[0])
                elif k[0] in ("last", "node", "tails", "tailtok") and (x is None or y is None) and k[0] in ("node", "tails", "tailtok"):
                    pass
                elif k[0] == "last":
                    r[k] = -1
            return r
        init = {}
        for i, p in enumerate(fn.params):
            if re.match(r"(const )?(HG|Hypergraph)::Edge \*|(const )?HG::Edge &|(const )?int\b", p.get("t", "")) and "d" in p:
                init[("edge", "%s#%s" % (p["n"], p["d"]))] = (-1 - i,)
                init[("site", -1 - i)] = "P"
        ins = g.forward(init, transfer, join)
        rp = {}

        def rep(rule, x, msg):
            rp.setdefault((rule, x["i"]), (rule, x, msg))
        outs = {}
        for nd in g.nodes:
            if nd.id not in ins:
                continue
            if nd.kind in ("expr", "decl", "init", "assume", "rangedecl") and nd.ast is not None:
                self.step(nd.ast, ins[nd.id], rep)
        ex = ins.get(g.exit.id)
        if ex is not None:
            for k, v in sorted(ex.items(), key=str):
                if k[0] == "site" and v in ("O", "M"):
                    rep("connected", self.sites[k[1]], "the edge added here is not connected to a head node on %s path to the end of the function" % ("every" if v == "O" else "some"))
                if k[0] == "goal" and v[0] == "late":
                    x = next((n for n in fn.nodes() if n["i"] == v[1]), None)
                    if x is not None:
                        rep("goal-last", x, "a node is added after the goal node and the forest is not sorted afterwards: the last node is no longer the goal")
            self.pconn = {-1 - k[1] for k, v in ex.items() if k[0] == "site" and k[1] < 0 and v == "C"}
        else:
            self.pconn = set()
        return list(rp.values())


class Judge:
    def __init__(self, db, ctx):
        self.db, self.ctx = db, ctx
        self.opens, self.conn = set(), {}
        self.goals, self.loose = set(), set()
        self.fieldinit = {}
        for f in db.fns.values():
            if f.h.get("ctor"):
                for i in f.inits:
                    if i.get("field"):
                        self.fieldinit.setdefault((f.h.get("cls"), i["field"]), []).extend(c for c in i["c"] if c is not None)
        self.vars = {}

    def rule_text(self, fn, e):
        """the string pieces a rule expression is built from, when it is a fixed rule; else None."""
        s = self.rule_src(fn, e)
        if s is None:
            return None
        return [x["v"] for n in s for x in walk(n) if x["k"] == "Str"]

    def rule_src(self, fn, e):
        e = strip(e)
        if e is None:
            return None
        if e["k"] == "Mem" and e.get("c") and strip(e["c"][0])["k"] == "This":
            cls = e["f"].rsplit("::", 1)[0]
            for (c, f), v in self.fieldinit.items():
                if f.split("::")[-1] == e["n"] and c == cls:
                    return v
            return None
        if e["k"] == "Ref" and e.get("dk") in ("local", "slocal") and "d" in e:
            for v in fn.nodes():
                if v["k"] == "Var" and v["d"] == e["d"] and v.get("c"):
                    return [v["c"][0]]
        if e["k"] == "Ref" and e.get("dk") in ("slocal", "global"):
            for v in fn.nodes():
                if v["k"] == "Var" and v.get("n") == e.get("n") and v.get("c"):
                    return [v["c"][0]]
        return None

    def arity(self, fn, e):
        """number of nonterminals of a fixed rule written as one literal."""
        s = self.rule_src(fn, e)
        if not s:
            return None
        lits = [x for n in s for x in walk(n) if x["k"] == "Str"]
        if len(lits) != 1 or any(x["k"] in ("OCall", "Bin") and x.get("op") == "+" for n in s for x in walk(n)):
            return None
        if not any(x["k"] == "New" for n in s for x in walk(n)):
            return None
        parts = lits[0]["v"].split("|||")
        if len(parts) < 2:
            return None
        return len(re.findall(r"\[[^\]\s]+\]", parts[1]))

    def ntails(self, fn, t):
        """statically known number of tails."""
        r = strip(t)
        if r is None:
            return None
        if r["k"] in ("Ctor", "Init", "Temp"):
            c = r.get("c") or []
            if len(c) == 0:
                return 0
            return is_const(c[0]) if len(c) <= 2 and c[0] is not None else None
        if r["k"] == "Ref" and r.get("dk") == "local":
            d = None
            for v in fn.nodes():
                if v["k"] == "Var" and v["d"] == r["d"]:
                    d = v
                if v["k"] == "MCall" and (v.get("fn") or "").split("::")[-1] in ("push_back", "resize", "clear", "pop_back", "swap", "assign") and strip(v["c"][0]).get("d") == r["d"] and strip(v["c"][0])["k"] == "Ref":
                    return None
                if v["k"] in ("Call", "MCall", "OCall") and v.get("op") != "[]":
                    for i, a in enumerate(v.get("c") or []):
                        if a is not None and a["k"] == "Ref" and a.get("d") == r["d"] and not hgm(v, ADD):
                            pt = v.get("pt") or []
                            j = i - (1 if v["k"] == "MCall" else 0)
                            if v["k"] == "OCall" or 0 <= j < len(pt) and "const" not in pt[j] and pt[j].rstrip().endswith(("&", "*")):
                                return None
            if d is not None and d.get("c"):
                return self.ntails(fn, d["c"][0])
        return None


PAIR = {"head_node_": "in_edges_", "in_edges_": "head_node_", "tail_nodes_": "out_edges_", "out_edges_": "tail_nodes_"}


def field_writes(fn):
    """{field: [(node, owner expression, kind, value)]} direct changes of forest link fields."""
    out = {}

    def lv(n):
        n = strip(n)
        while n is not None and (n["k"] == "Sub" or n["k"] == "OCall" and n["op"] == "[]"):
            n = strip(n["c"][0])
        return n
    for n in fn.nodes():
        if n["k"] == "MCall" and n["c"] and len(n["c"]) > 1 and (n.get("fn") or "").split("::")[-1] in ("push_back", "emplace_back"):
            m = strip(n["c"][0])
            if m is not None and m["k"] == "Mem" and m["n"] == "edges_" and m.get("f", "").startswith("Hypergraph::"):
                a = strip(n["c"][1])
                if not (a["k"] in ("Ctor", "Init", "Temp") and not (a.get("c") or [])):
                    out.setdefault("tail_nodes_", []).append((n, None, "append", None))     # an edge with its tails joins the forest
        if n["k"] in ("Bin", "CAssign", "OCall") and n.get("op", "").endswith("=") and n["op"] not in ("==", "!=", "<=", ">=") and len(n["c"]) == 2:
            m = lv(n["c"][0])
            if m is not None and m["k"] == "Mem" and m["n"] in PAIR and m.get("f", "").startswith("HG::"):
                out.setdefault(m["n"], []).append((n, m["c"][0] if m.get("c") else None, "=", n["c"][1]))
        if n["k"] == "MCall" and n["c"]:
            m = lv(n["c"][0])
            s = (n.get("fn") or "").split("::")[-1]
            if m is not None and m["k"] == "Mem" and m["n"] in PAIR and m.get("f", "").startswith("HG::") and s in ("push_back", "resize", "clear", "swap", "pop_back", "erase", "assign", "insert", "emplace_back"):
                out.setdefault(m["n"], []).append((n, m["c"][0] if m.get("c") else None, s, n["c"][1] if len(n["c"]) > 1 else None))
        if n["k"] in ("MCall", "Call"):
            args = n["c"][1:] if n["k"] == "MCall" else n["c"]
            pt = n.get("pt") or []
            for i, a in enumerate(args):
                m = strip(a)
                if m is not None and m["k"] == "Mem" and m["n"] in PAIR and m.get("f", "").startswith("HG::") and i < len(pt) and pt[i].rstrip().endswith("&") and "const" not in pt[i] and "::foreach_detail_" not in (n.get("fn") or ""):
                    out.setdefault(m["n"], []).append((n, m["c"][0] if m.get("c") else None, "arg", None))
    return out


def pairing(fn, db, ctx, calls):
    w = field_writes(fn)
    if not w:
        return
    cls = (fn.h.get("cls") or "")
    # functions of one side only are judged where they are used (their caller has both sides in hand)
    if cls in ("HG::Edge", "HG::Node"):
        return
    al = ref_aliases(fn)
    callee_names = {(n.get("fn") or "").split("::")[-1].split("<")[0] for n in fn.nodes() if n["k"] in ("MCall", "Call")}
    for a, b in (("head_node_", "in_edges_"), ("tail_nodes_", "out_edges_")):
        if a not in w and b not in w:
            continue
        # an edge that is not (yet) part of a forest: AddEdge will link its tails
        wa = [x for x in w.get(a, []) if not detached(fn, x[1])]
        wb = w.get(b, [])
        if not wa and not wb:
            continue
        other = bool(wa) and bool(wb)
        if not other:
            helper = callee_names & ({"index_tails"} if a == "tail_nodes_" else {CONNECT})
            sorts = a == "tail_nodes_" and not wb and resorted(fn, [x[0] for x in wa])
            copy = callee_names & {"copy_reindex"}
            other = bool(helper or sorts or copy)
            # helpers such as index_tails(edge): only the out side, called with an edge whose tails are set
            if not wa and wb and a == "tail_nodes_" and reads(fn, "tail_nodes_"):
                other = True
        n = (wa or wb)[0][0]
        if other and a == "tail_nodes_" and wa:
            late = unlinked(fn, wa, wb)
            if late is not None:
                ctx.violate("both-sides", fn.loc(late), "%s sets the tails of an edge after the tails' lists of outgoing edges have been filled" % fn.name, "%s|order" % fn.name)
        ctx.ob(other)
        if not other:
            ctx.violate("both-sides", fn.loc(n), "%s changes %s but not %s: the two ends of the link disagree" % (fn.name, a if wa else b, b if wa else a), "%s|%s" % (fn.name, a if wa else b))
    heads(fn, w, ctx, al)


def resorted(fn, writes):
    """every path from these writes to the end of the function rebuilds the forest's order (and lists)."""
    g = cfg(fn)
    ws = {x["i"] for x in writes}

    def transfer(nd, st):
        if nd.kind in ("expr", "decl", "init", "assume") and nd.ast is not None:
            for x in evalorder(nd.ast):
                if x["i"] in ws:
                    st = True
                if hgm(x, *SORTS):
                    st = False
        return st
    ins = g.forward(False, transfer, lambda a, b: a or b)
    return not ins.get(g.exit.id, False)


def unlinked(fn, wa, wb):
    """a tail write after which no outgoing list is filled any more (and the forest is not sorted)."""
    g = cfg(fn)
    marks = {x[0]["i"] for x in wb if x[1] is not None and any(y["k"] == "Mem" and y["n"] == "tail_nodes_" for y in walk(x[1]))}
    if not marks and not any(x["k"] in ("MCall", "Call") and (x.get("fn") or "").split("::")[-1] == "index_tails" for x in fn.nodes()):
        return None
    after = set()
    at = {}
    for nd in g.nodes:
        if nd.ast is None or nd.kind == "return":
            continue
        for k, x in enumerate(evalorder(nd.ast)):
            if x["i"] in marks or hgm(x, *SORTS) or x["k"] in ("MCall", "Call") and (x.get("fn") or "").split("::")[-1] in ("index_tails", "copy_reindex", ADD):
                after.add((nd.id, k))
            at[x["i"]] = (nd, k)
    nodes = {a for a, _ in after}
    for x in wa:
        if x[0]["i"] not in at:
            continue
        nd, k = at[x[0]["i"]]
        if any(a == nd.id and b > k for a, b in after):
            continue
        seen, st = set(), list(nd.succ)
        ok = False
        while st:
            m = st.pop()
            if m.id in seen:
                continue
            seen.add(m.id)
            if m.id in nodes:
                ok = True
                break
            st.extend(m.succ)
        if not ok:
            return x[0]
    return None


def same_list(fn, ctx):
    """lists of links are filled from the list of the same name."""
    sides = {"in_edges_": "out_edges_", "out_edges_": "in_edges_"}
    for n in fn.nodes():
        dst = src = None
        if n["k"] in ("Bin", "OCall") and n.get("op") == "=" and len(n["c"]) == 2:
            dst, src = n["c"]
        elif n["k"] == "MCall" and len(n["c"]) >= 2 and (n.get("fn") or "").split("::")[-1].split("<")[0] in ("resize", "push_back", "assign", "reindex_push_back"):
            if (n.get("fn") or "").endswith("reindex_push_back"):
                src, dst = n["c"][1], n["c"][2] if len(n["c"]) > 2 else None
            else:
                dst, src = n["c"][0], n["c"][1]
        if dst is None or src is None:
            continue
        m = strip(dst)
        while m is not None and (m["k"] == "Sub" or m["k"] == "OCall" and m["op"] == "[]"):
            m = strip(m["c"][0])
        if m is None or m["k"] != "Mem" or m["n"] not in sides or not m.get("f", "").startswith("HG::"):
            continue
        names = {x["n"] for x in walk(src) if x["k"] == "Mem" and x["n"] in sides}
        if not names:
            continue
        ok = m["n"] in names
        ctx.ob(ok)
        if not ok:
            ctx.violate("both-sides", fn.loc(n), "%s fills %s from %s" % (fn.name, m["n"], sorted(names)[0]), "%s|same|%s" % (fn.name, m["n"]))


LINKS = {"head_node_": "node", "tail_nodes_": "node", "in_edges_": "edge", "out_edges_": "edge"}


def inits(fn):
    """local -> its only definition."""
    d, n = {}, {}
    for x in fn.nodes():
        if x["k"] == "Var" and "d" in x:
            n[x["d"]] = n.get(x["d"], 0) + 1
            if x.get("c") and x["c"][0] is not None:
                d[x["d"]] = x["c"][0]
        t = None
        if x["k"] in ("Bin", "CAssign", "OCall") and x.get("op", "").endswith("=") and x["op"] not in ("==", "!=", "<=", ">="):
            t = strip(x["c"][0])
        elif x["k"] == "Un" and x.get("op") in ("++", "--"):
            t = strip(x["c"][0])
        if t is not None and t["k"] == "Ref" and "d" in t:
            n[t["d"]] = n.get(t["d"], 0) + 5
    return {k: v for k, v in d.items() if n.get(k) == 1}


def value(e, ini, depth=0):
    e = strip(e)
    while e is not None and e["k"] == "Ref" and e.get("dk") == "local" and e.get("d") in ini and depth < 4:
        n = strip(ini[e["d"]])
        if n is None or n["k"] not in ("Ref", "Bin", "Sub", "OCall", "Mem"):
            break
        e, depth = n, depth + 1
    return e


def deepwalk(e, ini, depth=0):
    """the nodes of an expression and of what its locals were initialised with."""
    for x in walk(e):
        yield x
        if x["k"] == "Ref" and x.get("d") in ini and x.get("dk") == "local" and depth < 3:
            yield from deepwalk(ini[x["d"]], ini, depth + 1)


def listvars(fn):
    """variables that walk a list of links."""
    r = set()
    for n in fn.nodes():
        if n["k"] == "ForRange":
            if n["c"][0] is not None and n.get("var") and any(x["k"] == "Mem" and x["n"] in LINKS for x in walk(n["c"][0])):
                r.add(n["var"].get("d"))
        elif n["k"] == "Var" and n.get("c") and n["c"][0] is not None:
            # iterators over a list
            if any(x["k"] == "MCall" and (x.get("fn") or "").split("::")[-1] in ("begin", "cbegin") and any(y["k"] == "Mem" and y["n"] in LINKS for y in walk(x["c"][0])) for x in walk(n["c"][0])):
                r.add(n.get("d"))
    return r


def relisted(val, ini, listed):
    """the value appended comes out of a list of links (a list rebuilt or renumbered)."""
    if val is None:
        return False
    for x in deepwalk(val, ini):
        if x["k"] == "Mem" and x["n"] in ("in_edges_", "out_edges_") or x["k"] == "Ref" and x.get("d") in listed:
            return True
    return False


def linkelem(e):
    """the link field an element or scalar expression denotes."""
    e = strip(e)
    while e is not None and (e["k"] == "Sub" or e["k"] == "OCall" and e["op"] == "[]"):
        e = strip(e["c"][0])
    if e is not None and e["k"] == "Mem" and e["n"] in LINKS and e.get("f", "").startswith("HG::"):
        return e
    return None


def offsets(fn, ctx, ini):
    """links copied from one forest behind another one's are shifted by the amount by which what they name is shifted."""
    use, place = {}, {}
    for n in fn.nodes():
        if n["k"] not in ("Bin", "OCall") or n.get("op") != "=" or len(n["c"]) != 2:
            continue
        l = strip(n["c"][0])
        if l is not None and l["k"] == "Mem" and l["n"] == "id_" and l.get("f") in ("HG::Node::id_", "HG::Edge::id_"):
            v = value(n["c"][1], ini)
            if v is not None and v["k"] == "Bin" and v["op"] == "+":
                place.setdefault("node" if "Node" in l["f"] else "edge", []).append({okey(x, ini) for x in v["c"]} - {None})
            continue
        m = linkelem(n["c"][0])
        if m is None:
            continue
        v = value(n["c"][1], ini)
        if v is None or v["k"] != "Bin" or v["op"] != "+":
            continue
        a, b = v["c"]
        for src, off in ((a, b), (b, a)):
            w = linkelem(value(src, ini)) if value(src, ini) is not None else None
            k = okey(off, ini)
            if w is not None and k is not None:
                use.setdefault(LINKS[m["n"]], []).append((k, n, m["n"]))
    for sp, us in use.items():
        ps = place.get(sp) or []
        if not ps:
            continue
        okk = set.intersection(*ps)
        for k, n, name in us:
            ok = not okk or k in okk
            ctx.count("shifted_links")
            ctx.ob(ok)
            if not ok:
                ctx.violate("both-sides", fn.loc(n), "%s shifts %s by %s although the %ss they name are shifted by %s" % (fn.name, name, k.split("#")[0], sp, "/".join(sorted(x.split("#")[0] for x in okk))), "%s|shift|%s" % (fn.name, name))


def okey(e, ini):
    """name of a shift: a local (through copies)."""
    e = strip(e)
    for _ in range(4):
        if e is None or e["k"] != "Ref":
            return None
        n = strip(ini[e["d"]]) if e.get("d") in ini else None
        if n is not None and n["k"] == "Ref":
            e = n
        else:
            break
    return "%s#%s" % (e.get("n"), e.get("d")) if "d" in e else None


def compact(fn, ctx, ini):
    """a list of links compacted in place (list[c++] = ...) is filled from itself and cut to the number kept."""
    ns = list(fn.nodes())
    sides = {"in_edges_": "out_edges_", "out_edges_": "in_edges_"}
    for i, n in enumerate(ns):
        if n["k"] not in ("Bin", "OCall") or n.get("op") != "=" or len(n["c"]) != 2:
            continue
        l = strip(n["c"][0])
        m = linkelem(l)
        if m is None or l["k"] == "Mem" or m["n"] not in sides:
            continue
        v = strip(n["c"][1])
        if v is not None and v["k"] == "Ref" and v.get("d") in ini:
            names = {x["n"] for x in walk(ini[v["d"]]) if x["k"] == "Mem" and x["n"] in sides}
            if names:
                ok = m["n"] in names
                ctx.ob(ok)
                if not ok:
                    ctx.violate("both-sides", fn.loc(n), "%s fills %s from %s" % (fn.name, m["n"], sorted(names)[0]), "%s|same|%s" % (fn.name, m["n"]))
        ix = strip(l["c"][1])
        if ix is None or ix["k"] != "Un" or ix.get("op") != "++":
            continue
        own = render(m["c"][0]) if m.get("c") else ""
        for y in ns:
            if y["k"] == "If" and v is not None and v["k"] == "Ref" and any(x is n for x in walk(y["c"][3])):
                t = strip(y["c"][2])
                zero = False
                if t["k"] == "Bin" and t["op"] in (">", "<", "!=") and len(t["c"]) == 2:
                    a, b = strip(t["c"][0]), strip(t["c"][1])
                    a, b = (b, a) if t["op"] == "<" else (a, b)
                    if t["op"] == "!=" and a["k"] != "Ref":
                        a, b = b, a
                    zero = a["k"] == "Ref" and a.get("d") == v.get("d") and str(is_const(b)) == "0"
                elif t["k"] == "Ref" and t.get("d") == v.get("d"):
                    zero = True
                ctx.ob(not zero)
                if zero:
                    ctx.violate("both-sides", fn.loc(y), "%s drops the link to position 0 from %s" % (fn.name, m["n"]), "%s|zero|%s" % (fn.name, m["n"]))

        def cut(x):
            if x["k"] != "MCall" or (x.get("fn") or "").split("::")[-1] not in ("resize", "erase", "pop_back", "clear"):
                return False
            for q in ns:
                if q["k"] == "If" and any(z is x for z in walk(q)) and not any(z is n for z in walk(q)) and not any(z["k"] == "MCall" and (z.get("fn") or "").endswith("size") for z in walk(q["c"][2])):
                    return False        # only cut when something else holds too
            y = strip(x["c"][0])
            return y is not None and y["k"] == "Mem" and y["n"] == m["n"] and (not y.get("c") or render(y["c"][0]) == own)
        ok = any(cut(x) for x in ns[i:]) or any((x["k"] == "Call" or x["k"] == "MCall" and (x.get("fn") or "").split("::")[0] != "std") and any(y["k"] == "Mem" and y["n"] == m["n"] for a in x["c"][:] if a is not None for y in [strip(a)] if y is not None) for x in ns[i:])
        ctx.count("lists_compacted")
        ctx.ob(ok)
        if not ok:
            ctx.violate("both-sides", fn.loc(n), "%s compacts %s in place but does not cut it to the number of links kept: dropped links stay at its end" % (fn.name, m["n"]), "%s|cut|%s" % (fn.name, m["n"]))


def pushed(fn, ctx, al, ini):
    """what a head's list of incoming edges receives is the id given to the edge."""
    idw, hw = {}, set()
    for n in fn.nodes():
        if n["k"] == "Bin" and n["op"] == "=":
            l = strip(n["c"][0])
            if l is not None and l["k"] == "Mem" and l.get("c") and l.get("f") == "HG::Edge::id_":
                idw.setdefault(render(l["c"][0]), []).append(n["c"][1])
            if l is not None and l["k"] == "Mem" and l.get("c") and l.get("f") == "HG::Edge::head_node_":
                hw.add(render(l["c"][0]))
    if len(hw) != 1 or set(idw) != hw or any(len(v) != 1 for v in idw.values()):
        return
    e = next(iter(hw))
    listed = listvars(fn)
    want = value(idw[e][0], ini)
    for n in fn.nodes():
        if n["k"] == "MCall" and (n.get("fn") or "").split("::")[-1] in ("push_back", "emplace_back") and len(n["c"]) == 2:
            m = strip(n["c"][0])
            if m is None or m["k"] != "Mem" or m["n"] not in ("in_edges_", "out_edges_") or not m.get("f", "").startswith("HG::"):
                continue
            v = value(n["c"][1], ini)
            if v is None or relisted(n["c"][1], ini, listed):
                continue
            if v["k"] == "Mem" and v["n"] == "id_":
                ok = v.get("f") == "HG::Edge::id_"
            else:
                ok = norm(render(v)) == norm(render(want)) or v["k"] not in ("Ref", "Bin", "Int") or (v["k"] == "Ref" and v.get("dk") != "local")
            ctx.count("edges_listed")
            ctx.ob(ok)
            if not ok:
                ctx.violate("both-sides", fn.loc(n), "%s lists %s under %s although the edge's id is %s" % (fn.name, render(v).split("#")[0], m["n"], render(want).split("#")[0]), "%s|listed|%s" % (fn.name, m["n"]))


def reads(fn, field):
    return any(n["k"] == "Mem" and n["n"] == field for n in fn.nodes())


def detached(fn, owner):
    """the owner is an edge object that is not inside a forest: a member/local object of type Edge."""
    o = strip(owner) if owner is not None else None
    if o is None:
        return False
    if o["k"] == "Mem" and base_type(o["t"]) in ("HG::Edge", "Edge") and not o["t"].rstrip().endswith(("*", "&")):
        return True
    if o["k"] == "Ref" and o.get("dk") == "local" and not o["t"].rstrip().endswith(("*", "&")) and base_type(o["t"]) in ("HG::Edge", "Edge"):
        # a local object, unless it is a reference variable (Ref's t drops the reference)
        for v in fn.nodes():
            if v["k"] == "Var" and v["d"] == o["d"]:
                return not v["t"].rstrip().endswith(("&", "*"))
    return False


def heads(fn, w, ctx, al):
    """every 'head := h' comes with 'h.in_edges_ += edge', and conversely."""
    def nodekey(e):
        e = strip(e)
        if e["k"] == "Mem" and e["n"] == "id_" and e.get("c"):
            return nodekey(e["c"][0])
        if e["k"] == "Sub" or e["k"] == "OCall" and e["op"] == "[]":
            b = strip(e["c"][0])
            if b["k"] == "Mem" and b["n"] == "nodes_":
                return nodekey(e["c"][1])
        if e["k"] == "OCall" and e["op"] in ("->", "*") and len(e["c"]) == 1:
            return nodekey(e["c"][0])
        p = path(e, al)
        if p:
            m = re.match(r".*\.nodes_\[(.*)\]$", p)
            return m.group(1) if m else p
        return render(e, al)
    A = {}
    P = {}
    ini = inits(fn)
    listed = listvars(fn)
    ren = set()
    for n, owner, kind, val in w.get("head_node_", []):
        if detached(fn, owner):
            continue
        if any(x["k"] == "Mem" and x["n"] == "head_node_" for x in deepwalk(val, ini)):
            ren.add(nodekey(val))
            continue        # renumbering: the lists of incoming edges are renumbered too (pairing above)
        A[n["i"]] = nodekey(val)
    for n, owner, kind, val in w.get("in_edges_", []):
        if kind in ("push_back", "emplace_back") and owner is not None and not relisted(val, ini, listed):
            if nodekey(owner) not in ren:
                P[n["i"]] = nodekey(owner)
    if not A and not P:
        return
    g = cfg(fn)
    nodes = {}

    def step(ast, st, rep):
        st = dict(st)
        for x in evalorder(ast):
            for tab, me, other in ((A, "A", "P"), (P, "P", "A")):
                if x["i"] in tab:
                    nodes[x["i"]] = x
                    k = tab[x["i"]]
                    if (other, k) in st:
                        st.pop((other, k))
                    else:
                        o = [q for q in st if q[0] == other]
                        if len(o) == 1 and len([q for q in st if q[0] == me]) == 0 and not simple(k) + simple(o[0][1]) == 2:
                            st.pop(o[0])        # the same node under another name
                        elif (me, k) in st and rep is not None:
                            rep(x, me)
                        else:
                            st[(me, k)] = x["i"]
        return st

    def simple(k):
        return 1 if re.match(r"^[A-Za-z_]\w*#\d+$", k) else 0

    def transfer(nd, st):
        return step(nd.ast, st, None) if nd.kind in ("expr", "decl", "init", "assume") and nd.ast is not None else st

    def join(a, b):
        r = dict(a)
        r.update({k: v for k, v in b.items() if k not in r})
        return r
    ins = g.forward({}, transfer, join)
    bad = {}

    def rep(x, me):
        bad[x["i"]] = (x, me)
    for nd in g.nodes:
        if nd.id in ins and nd.kind in ("expr", "decl", "init", "assume") and nd.ast is not None:
            step(nd.ast, ins[nd.id], rep)
    for (me, k), i in (ins.get(g.exit.id) or {}).items():
        bad[i] = (nodes[i], me)
    ctx.ob(not bad)
    for x, me in bad.values():
        ctx.violate("both-sides", fn.loc(x), "%s %s" % (fn.name, "sets an edge's head without adding the edge to that node's incoming edges" if me == "A" else "adds an edge to a node's incoming edges without making that node the edge's head"), "%s|head|%s" % (fn.name, me))


def ids(fn, ctx, al):
    """object.id_ = position of the object."""
    for n in fn.nodes():
        if not (n["k"] == "Bin" and n["op"] == "="):
            continue
        l = strip(n["c"][0])
        if l["k"] != "Mem" or l["n"] != "id_" or l.get("f") not in ("HG::Edge::id_", "HG::Node::id_") or not l.get("c"):
            continue
        want = "edges_" if "Edge" in l["f"] else "nodes_"
        p = path(l["c"][0], al)
        if p is None:
            continue
        m = re.match(r"(.*\." + want + r"|re|rn)\[(.*)\]$", p)
        if not m:
            ctx.count("ids_elsewhere")
            continue
        idx, cont = m.group(2), m.group(1)
        val = render(n["c"][1], al)
        if "." + want + "[" in val or val.startswith(("reloc", "indices")) or re.match(r"^reloc|.*\[this\.", val):
            ctx.count("ids_renumbered")
            continue
        v = strip(n["c"][1])
        if v["k"] in ("OCall", "Sub"):
            ctx.count("ids_renumbered")      # renumbering through a table
            continue
        if idx == "-1":
            ok = "%s" % val == "(std::vector<%s>::size(%s)-1)" % ("", cont) or re.search(r"size\(%s\)-1\)$" % re.escape(cont), val) is not None
            if not ok and v["k"] == "Ref":
                # a count taken before the element was appended
                for q in fn.nodes():
                    if q["k"] == "Var" and q["d"] == v.get("d") and q.get("c") and re.search(r"size\(%s\)$" % re.escape(cont), render(q["c"][0], al)):
                        ok = True
        else:
            ok = val == idx or norm(val) == norm(idx)
        ctx.ob(ok)
        if not ok:
            ctx.violate("ids", fn.loc(n), "%s gives %s the id %s although it stands at position %s" % (fn.name, p.split("#")[0], val.split("#")[0], idx.split("#")[0]), "%s|%s" % (fn.name, p))


def norm(s):
    m = re.match(r"^\((.*)\+(.*)\)$", s)
    return tuple(sorted(m.groups())) if m else s


def run(db, ctx):
    ctx.rule("connected", "the edge returned by Hypergraph::AddEdge (or by a helper that returns a fresh edge) reaches ConnectEdgeToHeadNode (directly or through a helper that connects it) on every path to the end of the function or to the next round of the loop, and is never connected twice")
    ctx.rule("acyclic", "an edge is not connected to a node that is also its tail: 'the last node' is looked up for the tail before the head is appended")
    ctx.rule("goal-last", "after an edge with a [Goal] rule has been connected, no node is appended to the forest unless the forest is sorted again")
    ctx.rule("arity", "an edge with a fixed rule gets as many tails as the rule has nonterminals")
    ctx.rule("both-sides", "code that changes an edge's head also changes the head's list of incoming edges (the same node, on the same paths), and code that changes tails also changes the tails' lists of outgoing edges or has the forest rebuilt")
    ctx.rule("ids", "the id stored in a node or edge is the position at which it stands")
    ctx.assume.append("edges handed to other objects before being connected are counted but not followed")
    J = Judge(db, ctx)
    calls = Calls(db)
    scope = []
    for f in sorted(db.fns.values(), key=lambda f: (f.file, f.line, f.key)):
        if f.body is None or f.h.get("dep") or f.file.startswith("klm/") or "_test" in f.file or "/test_" in f.file:
            continue
        scope.append(f)
    cand = [f for f in scope if any(n["k"] in ("MCall", "Call") and (n.get("fn") or "").split("::")[-1].split("<")[0] in (ADD, CONNECT, ADDNODE) or n["k"] == "Mem" and n["n"] in PAIR for n in f.nodes())]
    results = {}
    for rnd in range(3):
        before = (set(J.opens), {k: set(v) for k, v in J.conn.items()})
        extra = [f for f in scope if f not in cand and any(n.get("f") in J.opens or n.get("f") in J.conn for n in f.nodes() if n["k"] in ("Call", "MCall"))]
        for f in cand + extra:
            if (f.h.get("cls") or "") == "Hypergraph" and f.name.split("::")[-1] in (ADD, CONNECT, ADDNODE):
                continue
            F = Flow(f, J)
            results[f.key] = (f, F, F.run())
            if F.ret_open:
                J.opens.add(f.key)
            if F.pconn:
                J.conn[f.key] = set(F.pconn)
        if (set(J.opens), {k: set(v) for k, v in J.conn.items()}) == before:
            break
    ctx.count("goal_edges", len(J.goals))
    ctx.count("edges_not_followed", len(J.loose))
    ctx.count("helpers", len(J.opens) + len(J.conn))
    for f, F, probs in results.values():
        for s, x in F.sites.items():
            ctx.count("edges_added")
            ctx.ob(True)
        for rule, x, msg in probs:
            ctx.ob(False)
            ctx.violate(rule, f.loc(x), "%s: %s" % (f.name, msg), "%s|%s|%s" % (f.name, rule, re.sub(r"\W+", " ", render(x))[:60]))
        for n in f.nodes():
            if hgm(n, ADD) and len(n["c"]) == 3:
                a = J.arity(f, n["c"][1])
                t = J.ntails(f, n["c"][2])
                if a is not None and t is not None:
                    ctx.count("fixed_rules")
                    ctx.ob(a == t)
                    if a != t:
                        ctx.violate("arity", f.loc(n), "%s adds an edge with %d tail(s) for a rule with %d nonterminal(s)" % (f.name, t, a), "%s|%s" % (f.name, render(n["c"][1])))
    for f in scope:
        pairing(f, db, ctx, calls)
        same_list(f, ctx)
        if any(n["k"] == "Mem" and n["n"] in LINKS for n in f.nodes()):
            ini = inits(f)
            offsets(f, ctx, ini)
            compact(f, ctx, ini)
            pushed(f, ctx, ref_aliases(f), ini)
        if f.file.startswith("decoder/hg") or any(n["k"] == "Mem" and n["n"] == "id_" and n.get("f", "").startswith("HG::") for n in f.nodes()):
            ids(f, ctx, ref_aliases(f))
    ctx.floor("edges_added", ctx.counts.get("edges_added", 0), 15)
    ctx.sample([results[k][0].name for k in sorted(results)][:12])
