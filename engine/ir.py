"""Program representation shared by the rules: control-flow graphs over the
exported syntax trees, dominators, branch facts, a forward dataflow solver,
access paths, call resolution and fixpoint summaries."""
import re
from facts import walk, children, Fn, DB, AnalysisError

STMTS = {"Block", "If", "For", "While", "Do", "ForRange", "Switch", "Case", "Default", "Break", "Continue", "Return",
         "Null", "Goto", "Label", "Try", "Catch", "Decl", "OMP", "OtherStmt"}


def walk_nl(n):
    """walk, but do not enter lambda bodies."""
    if n is None:
        return
    st = [n]
    while st:
        x = st.pop()
        yield x
        if x["k"] == "Lambda":
            continue
        for key in ("c", "b"):
            c = x.get(key)
            if c:
                for y in reversed(c):
                    if y is not None:
                        st.append(y)
        for cl in x.get("cl") or ():
            st.extend(cl["c"])
        if "var" in x:
            st.append(x["var"])


def evalorder(n):
    """post-order walk (operands before operators), lambdas not entered; assignment: rhs before lhs."""
    if n is None:
        return
    c = children(n) if n["k"] != "Lambda" else []
    if n["k"] in ("Bin", "CAssign") and n.get("op", "").endswith("=") and n["op"] not in ("==", "!=", "<=", ">="):
        c = list(reversed(c))
    for x in c:
        yield from evalorder(x)
    yield n


class Node:
    __slots__ = ("id", "kind", "ast", "pol", "succ", "pred", "vars", "extra")

    def __init__(self, i, kind, ast=None, pol=None):
        self.id, self.kind, self.ast, self.pol = i, kind, ast, pol
        self.succ, self.pred, self.vars, self.extra = [], [], (), None

    def __repr__(self):
        return "<%d %s l%s>" % (self.id, self.kind, self.ast["l"] if self.ast else "?")


def is_const(n):
    n = uncast(n)
    if n is not None and "v" in n and n["k"] in ("Int", "Bool", "Char", "Bin", "Un", "Ref", "Sizeof", "Cast"):
        try:
            return int(n["v"])
        except (ValueError, TypeError):
            return None
    return None


def uncast(n):
    while n is not None and n["k"] in ("ICast", "Cast") and n.get("c"):
        n = n["c"][0]
    return n


class CFG:
    def __init__(self, fn, body=None, inits=True):
        self.fn = fn
        self.nodes = []
        self.entry = self._new("entry")
        self.exit = self._new("exit")
        self.xexit = self._new("xexit")     # throw / noreturn
        self.cur = [self.entry]
        self.loops = []                     # (kind, break_outs, cont_outs, scope depth)
        self.scopes = []
        self.trys = []
        self.labels, self.gotos = {}, []
        self.owner = {}                     # ast id -> cfg node
        if body is None:
            if inits and hasattr(fn, "inits"):
                for i in fn.inits:
                    for c in i["c"]:
                        n = self._add("init", c)
                        if n:
                            n.extra = i
            body = fn.body
        self._stmt(body)
        for n in self.cur:
            self._edge(n, self.exit)
        for g, lab in self.gotos:
            if lab in self.labels:
                self._edge(g, self.labels[lab])
        self._index()

    # -- construction
    def _new(self, kind, ast=None, pol=None):
        n = Node(len(self.nodes), kind, ast, pol)
        self.nodes.append(n)
        return n

    def _edge(self, a, b):
        if b not in a.succ:
            a.succ.append(b)
            b.pred.append(a)

    def _add(self, kind, ast=None, pol=None):
        if not self.cur:
            n = self._new(kind, ast, pol)   # unreachable code still gets nodes
            self.cur = [n]
        else:
            n = self._new(kind, ast, pol)
            for p in self.cur:
                self._edge(p, n)
            self.cur = [n]
        for t in self.trys:
            t.append(n)
        return n

    def _expr(self, e, kind="expr"):
        if e is None:
            return None
        n = self._add(kind, e)
        for x in walk_nl(e):
            if x.get("nr") and x["k"] in ("Call", "MCall"):
                self._edge(n, self.xexit)
                self.cur = []
            if x["k"] == "Throw":
                self._throw(n)
                self.cur = []
        return n

    def _throw(self, n):
        if not self.trys:
            self._edge(n, self.xexit)

    def _cond(self, e):
        """-> (true_outs, false_outs)"""
        if e is None:
            return list(self.cur), []
        u = e
        if u["k"] == "Bin" and u["op"] in ("&&", "||"):
            t1, f1 = self._cond(u["c"][0])
            if u["op"] == "&&":
                self.cur = t1
                if not t1:
                    return [], f1
                t2, f2 = self._cond(u["c"][1])
                return t2, f1 + f2
            self.cur = f1
            if not f1:
                return t1, []
            t2, f2 = self._cond(u["c"][1])
            return t1 + t2, f2
        if u["k"] == "Un" and u["op"] == "!":
            t, f = self._cond(u["c"][0])
            return f, t
        if u["k"] == "Bin" and u["op"] == ",":
            self._expr(u["c"][0])
            return self._cond(u["c"][1])
        cv = is_const(u) if u["k"] in ("Int", "Bool", "ICast") else None
        if cv is not None:
            self._expr(u)
            return (list(self.cur), []) if cv else ([], list(self.cur))
        self._expr(u)
        base = list(self.cur)
        if not base:
            return [], []
        t = self._add("assume", u, True)
        self.cur = base
        f = self._add("assume", u, False)
        return [t], [f]

    def _push(self):
        self.scopes.append([])

    def _unscope(self, depth):
        vs = [v for s in reversed(self.scopes[depth:]) for v in reversed(s)]
        if vs and self.cur:
            n = self._add("unscope")
            n.vars = tuple(vs)

    def _pop(self):
        self._unscope(len(self.scopes) - 1)
        self.scopes.pop()

    def _stmt(self, s):
        if s is None:
            return
        k = s["k"]
        if k == "Block":
            self._push()
            for x in s.get("c", []):
                self._stmt(x)
            self._pop()
        elif k == "Decl":
            for v in s["c"]:
                if v["k"] != "Var":
                    continue
                n = self._expr(v, "decl")
                if self.scopes and not v.get("static"):
                    self.scopes[-1].append(v)
        elif k == "If":
            self._push()
            c = s["c"]
            self._stmt(c[0])
            self._stmt(c[1])
            t, f = self._cond(c[2])
            self.cur = t
            if t:
                self._stmt(c[3])
            o = self.cur
            self.cur = f
            if c[4] is not None and f:
                self._stmt(c[4])
            self.cur = o + self.cur
            self._pop()
        elif k in ("For", "While"):
            self._push()
            c = s["c"]
            if k == "For":
                self._stmt_or_expr(c[0])
                cv, cond, inc, body = c[1], c[2], c[3], c[4]
            else:
                cv, cond, inc, body = c[0], c[1], None, c[2]
            head = self._add("loop", None)
            head.extra = s
            self._stmt(cv)
            t, f = self._cond(cond)
            br, co = [], []
            self.loops.append((br, co, len(self.scopes)))
            self.cur = t
            if t:
                self._stmt(body)
            self.loops.pop()
            self.cur = self.cur + co
            if inc is not None and self.cur:
                self._expr(inc)
            for n in self.cur:
                self._edge(n, head)
            self.cur = f + br
            self._pop()
        elif k == "Do":
            head = self._add("loop", None)
            head.extra = s
            br, co = [], []
            self.loops.append((br, co, len(self.scopes)))
            self._stmt(s["c"][0])
            self.loops.pop()
            self.cur = self.cur + co
            t, f = self._cond(s["c"][1]) if self.cur else ([], [])
            for n in t:
                self._edge(n, head)
            self.cur = f + br
        elif k == "ForRange":
            self._push()
            self._expr(s["c"][0])
            head = self._add("loop", None)
            head.extra = s
            br, co = [], []
            self.loops.append((br, co, len(self.scopes)))
            base = list(self.cur)
            d = self._add("rangedecl", s["var"])
            d.extra = s
            self._stmt(s["c"][1])
            self.loops.pop()
            for n in self.cur + co:
                self._edge(n, head)
            self.cur = base + br
            self._pop()
        elif k == "Switch":
            self._push()
            self._stmt(s["c"][0])
            self._stmt(s["c"][1])
            h = self._expr(s["c"][2])
            br = []
            head = list(self.cur)
            sw = {"head": head, "default": False, "ast": s}
            self.loops.append((br, None, len(self.scopes)))
            self._switch = getattr(self, "_switch", []) + [sw]
            self.cur = []
            self._stmt(s["c"][3])
            self._switch.pop()
            self.loops.pop()
            if not sw["default"]:
                self.cur = self.cur + head
            self.cur = self.cur + br
            self._pop()
        elif k in ("Case", "Default"):
            sw = self._switch[-1]
            prev = self.cur
            self.cur = list(sw["head"])
            if k == "Case":
                a = self._add("case", s["c"][0])
                a.extra = sw["ast"]
            else:
                a = self._add("default", None)
                a.extra = sw["ast"]
                sw["default"] = True
            self.cur = [a]
            j = self._new("join")
            self._edge(a, j)
            for p in prev:
                self._edge(p, j)
            self.cur = [j]
            self._stmt(s["c"][-1])
        elif k == "Break":
            if self.loops and self.cur:
                br, co, depth = self.loops[-1]
                self._unscope(depth)
                br.extend(self.cur)
            self.cur = []
        elif k == "Continue":
            for br, co, depth in reversed(self.loops):
                if co is not None:
                    if self.cur:
                        self._unscope(depth)
                        co.extend(self.cur)
                    break
            self.cur = []
        elif k == "Return":
            n = self._expr(s["c"][0] if s.get("c") else None)
            if self.cur:
                self._unscope(0)
                r = self._add("return", s)
                self._edge(r, self.exit)
            self.cur = []
        elif k == "Goto":
            if self.cur:
                g = self._add("goto", s)
                self.gotos.append((g, s["n"]))
            self.cur = []
        elif k == "Label":
            j = self._add("join")
            self.labels[s["n"]] = j
            self._stmt_or_expr(s["c"][0])
        elif k == "Try":
            self.trys.append([])
            pre = list(self.cur)
            self._stmt(s["c"][0])
            inside = self.trys.pop()
            outs = list(self.cur)
            for h in s["c"][1:]:
                self.cur = list(dict.fromkeys(pre + inside))
                if not self.cur:
                    continue
                self._add("catch", h)
                self._stmt(h["c"][0])
                outs += self.cur
            self.cur = outs
        elif k == "OMP":
            b = self._add("omp", s)
            for cl in s.get("cl", []):
                for x in cl["c"]:
                    self._expr(x)
            for x in s.get("c", []):
                self._stmt_or_expr(x)
            if self.cur:
                e = self._add("ompend", s)
        elif k == "Null":
            pass
        elif k == "OtherStmt":
            self._add("expr", s)
        else:
            self._stmt_expr(s)

    def _stmt_or_expr(self, s):
        if s is None:
            return
        if s["k"] in STMTS:
            self._stmt(s)
        else:
            self._stmt_expr(s)

    def _stmt_expr(self, e):
        # assert-like  (cond) ? (void)0 : __assert_fail(...)
        if e["k"] == "Cond":
            t, f = self._cond(e["c"][0])
            self.cur = t
            if t:
                self._stmt_expr(e["c"][1])
            o = self.cur
            self.cur = f
            if f:
                self._stmt_expr(e["c"][2])
            self.cur = o + self.cur
            return
        if e["k"] == "Bin" and e["op"] in ("&&", "||"):
            t, f = self._cond(e)
            self.cur = t + f
            return
        if e["k"] == "Cast" and e.get("c") and uncast(e) is not None and uncast(e)["k"] == "Cond":
            return self._stmt_expr(uncast(e))
        self._expr(e)

    def _index(self):
        for n in self.nodes:
            if n.ast is not None and n.kind in ("expr", "decl", "init", "rangedecl", "return"):
                for x in walk_nl(n.ast):
                    if n.kind == "return":
                        continue
                    self.owner.setdefault(x["i"], n)
        # reachability
        seen, st = {self.entry.id}, [self.entry]
        order = []
        while st:
            n = st.pop()
            for m in n.succ:
                if m.id not in seen:
                    seen.add(m.id)
                    st.append(m)
        self.reach = seen
        self._dom = None

    # -- queries
    def rpo(self):
        if getattr(self, "_rpo", None):
            return self._rpo
        seen, out = set(), []
        st = [(self.entry, iter(self.entry.succ))]
        seen.add(self.entry.id)
        while st:
            n, it = st[-1]
            for m in it:
                if m.id not in seen:
                    seen.add(m.id)
                    st.append((m, iter(m.succ)))
                    break
            else:
                out.append(n)
                st.pop()
        out.reverse()
        self._rpo = out
        return out

    def doms(self):
        """immediate dominators, id -> id."""
        if self._dom is not None:
            return self._dom
        r = self.rpo()
        num = {n.id: i for i, n in enumerate(r)}
        idom = {self.entry.id: self.entry.id}
        ch = True
        while ch:
            ch = False
            for n in r[1:]:
                new = None
                for p in n.pred:
                    if p.id in idom:
                        if new is None:
                            new = p.id
                        else:
                            a, b = p.id, new
                            while a != b:
                                while num[a] > num[b]:
                                    a = idom[a]
                                while num[b] > num[a]:
                                    b = idom[b]
                            new = a
                if new is not None and idom.get(n.id) != new:
                    idom[n.id] = new
                    ch = True
        self._dom = idom
        return idom

    def dominators(self, n):
        """dominating nodes of n, nearest first (n excluded)."""
        d = self.doms()
        out = []
        i = n.id
        while i in d and d[i] != i:
            i = d[i]
            out.append(self.nodes[i])
        return out

    def assumes(self, n):
        """(expr, polarity) facts established on every path to n (no kill check)."""
        r = [(a.ast, a.pol, a) for a in self.dominators(n) if a.kind == "assume"]
        if n.kind == "assume":
            r.insert(0, (n.ast, n.pol, n))
        return r

    def forward(self, init, transfer, join, bottom=None):
        """worklist forward dataflow -> {id: in-state}. transfer(node,state)->state
        (or a dict {succ id: state})."""
        ins = {self.entry.id: init}
        work = [self.entry]
        order = {n.id: i for i, n in enumerate(self.rpo())}
        inq = {self.entry.id}
        import heapq
        heap = [(0, self.entry.id)]
        while heap:
            _, i = heapq.heappop(heap)
            inq.discard(i)
            n = self.nodes[i]
            out = transfer(n, ins[i])
            if out is None:
                continue
            for m in n.succ:
                o = out
                if m.id in ins:
                    j = join(ins[m.id], o)
                    if j == ins[m.id]:
                        continue
                    ins[m.id] = j
                else:
                    ins[m.id] = o
                if m.id not in inq:
                    inq.add(m.id)
                    heapq.heappush(heap, (order.get(m.id, 0), m.id))
        return ins


_cfgs = {}


def cfg(fn):
    k = id(fn)
    c = _cfgs.get(k)
    if c is None:
        c = _cfgs[k] = CFG(fn)
    return c


def parents(root):
    p = {}
    for n in walk(root):
        for key in ("c", "b"):
            for x in n.get(key) or ():
                if x is not None:
                    p[x["i"]] = n
        if "var" in n:
            p[n["var"]["i"]] = n
    return p


_par = {}


def fn_parents(fn):
    k = id(fn)
    if k not in _par:
        p = parents(fn.body) if fn.body else {}
        for i in fn.inits:
            for c in i["c"]:
                p.update(parents(c))
        _par[k] = p
    return _par[k]


def inexpr_guards(fn, n, top=None):
    """short-circuit / ?: facts that hold when sub-expression n is evaluated."""
    p = fn_parents(fn)
    out = []
    x = n
    while x["i"] in p:
        q = p[x["i"]]
        if q["k"] in STMTS:
            break
        if q["k"] == "Bin" and q["op"] in ("&&", "||") and q["c"][1] is x:
            out.append((q["c"][0], q["op"] == "&&"))
        if q["k"] == "Cond" and q["c"][0] is not x:
            out.append((q["c"][0], q["c"][1] is x))
        x = q
    res = []
    for e, pol in out:
        res += split_cond(e, pol)
    return res


def split_cond(e, pol):
    if e["k"] == "Un" and e["op"] == "!":
        return split_cond(e["c"][0], not pol)
    if e["k"] == "Bin" and e["op"] == "&&" and pol:
        return split_cond(e["c"][0], True) + split_cond(e["c"][1], True)
    if e["k"] == "Bin" and e["op"] == "||" and not pol:
        return split_cond(e["c"][0], False) + split_cond(e["c"][1], False)
    return [(e, pol)]


# ---------------------------------------------------------------- paths
def path(n, alias=None):
    """access path text of an lvalue-ish expression, or None. Reference locals are
    followed through alias {decl id: path}."""
    if n is None:
        return None
    k = n["k"]
    if k in ("ICast", "Cast"):
        return path(n["c"][0], alias) if n.get("c") else None
    if k == "This":
        return "this"
    if k == "Ref":
        if n["dk"] in ("local", "param"):
            if alias and n["d"] in alias and alias[n["d"]] is not None:
                return alias[n["d"]]
            return "%s#%d" % (n["n"], n["d"])
        if n["dk"] in ("global", "slocal"):
            return "::" + str(n.get("q", n["n"]))
        if n["dk"] == "enum":
            return "enum:" + n["q"]
        return None
    if k == "Mem":
        if n.get("sv"):
            return "::" + n["f"]
        b = path(n["c"][0], alias) if n.get("c") else "this"
        return None if b is None else b + "." + n["n"]
    if k == "Un" and n["op"] in ("*", "&"):
        b = path(n["c"][0], alias)
        return b
    if k == "Sub":
        b = path(n["c"][0], alias)
        i = render(n["c"][1], alias)
        return None if b is None else b + "[" + (i or "?") + "]"
    if k == "OCall" and n["op"] == "[]":
        b = path(n["c"][0], alias)
        i = render(n["c"][1], alias)
        return None if b is None else b + "[" + (i or "?") + "]"
    if k == "OCall" and n["op"] == "()" and len(n["c"]) == 3 and re.match(r"(class |struct )?(const )?(Array2D|ActiveChart)\b", n["c"][0].get("t", "")):
        b = path(n["c"][0], alias)
        return None if b is None else "%s[%s,%s]" % (b, render(n["c"][1], alias) or "?", render(n["c"][2], alias) or "?")
    if k == "OCall" and n["op"] in ("->", "*") and len(n["c"]) == 1:
        return path(n["c"][0], alias)
    if k == "MCall" and n["c"]:
        nm = n["fn"].split("::")[-1] if n.get("fn") else ""
        b = path(n["c"][0], alias)
        if b is None:
            return None
        if nm in ("at",) and len(n["c"]) == 2:
            return b + "[" + (render(n["c"][1], alias) or "?") + "]"
        if nm in ("get", "c_str", "data") and len(n["c"]) == 1:
            return b
        if nm == "front" and len(n["c"]) == 1:
            return b + "[0]"
        if nm == "back" and len(n["c"]) == 1:
            return b + "[-1]"
    return None


def render(n, alias=None):
    """canonical text of an expression (casts dropped)."""
    if n is None:
        return ""
    k = n["k"]
    if k in ("ICast", "Cast"):
        return render(n["c"][0], alias) if n.get("c") else "?"
    c = is_const(n)
    if c is not None:
        return str(c)
    p = path(n, alias)
    if p is not None:
        return p
    if k in ("Int", "Bool", "Char", "Float", "Str"):
        return repr(n.get("v"))
    if k in ("Bin", "CAssign"):
        return "(%s%s%s)" % (render(n["c"][0], alias), n["op"], render(n["c"][1], alias))
    if k == "Un":
        return "(%s%s)" % (n["op"], render(n["c"][0], alias))
    if k == "OCall":
        return "op%s(%s)" % (n["op"], ",".join(render(x, alias) for x in n["c"]))
    if k in ("MCall", "Call"):
        return "%s(%s)" % (n.get("fn", "?"), ",".join(render(x, alias) for x in children(n)))
    if k == "Ctor":
        if len(children(n)) == 1 and (n.get("copy") or n.get("move")):
            return render(n["c"][0], alias)
        return "%s{%s}" % (n["t"], ",".join(render(x, alias) for x in children(n)))
    return "%s(%s)" % (k, ",".join(render(x, alias) for x in children(n)))


def is_ref_type(t):
    return t.rstrip().endswith("&")


def ref_aliases(fn):
    """{decl id: path} for local reference variables bound once to a path, and for
    pointer locals that are never reassigned and initialised with &path / path."""
    al = {}
    assigned = set()
    for n in fn.nodes():
        if n["k"] in ("Bin", "CAssign") and n["op"].endswith("=") and n["op"] not in ("==", "!=", "<=", ">="):
            l = uncast(n["c"][0])
            if l is not None and l["k"] == "Ref" and "d" in l:
                assigned.add(l["d"])
        if n["k"] == "Un" and n["op"] in ("++", "--"):
            l = uncast(n["c"][0])
            if l is not None and l["k"] == "Ref" and "d" in l:
                assigned.add(l["d"])
    for n in fn.nodes():
        if n["k"] == "Var" and n.get("c"):
            t = n["t"].rstrip()
            if t.endswith("&"):
                p = path(n["c"][0], al)
                if p is not None:
                    al[n["d"]] = p
            elif (t.endswith("*") or t.endswith("*const")) and n["d"] not in assigned:
                p = path(n["c"][0], al)
                if p is not None:
                    al[n["d"]] = p
    return al


# ---------------------------------------------------------------- calls
class Calls:
    """call resolution: direct callee + overriders of virtual methods."""

    def __init__(self, db):
        self.db = db
        self.over = {}
        for f in db.fns.values():
            for o in f.h.get("ovr", []):
                self.over.setdefault(o, set()).add(f.key)
        ch = True
        while ch:
            ch = False
            for k, v in list(self.over.items()):
                for x in list(v):
                    n = self.over.get(x, set()) - v
                    if n:
                        v |= n
                        ch = True

    def targets(self, n):
        f = n.get("f")
        if not f or n["k"] not in ("Call", "MCall", "OCall", "Ctor"):
            return []
        r = []
        if f in self.db.fns:
            r.append(self.db.fns[f])
        if n.get("virt") and not n.get("qual"):
            for k in self.over.get(f, ()):
                if k in self.db.fns:
                    r.append(self.db.fns[k])
        return r

    def callees(self, fn):
        r = {}
        for n in fn.nodes():
            if n["k"] in ("Call", "MCall", "OCall", "Ctor"):
                for t in self.targets(n):
                    r.setdefault(t.key, (t, n))
        return r

    def reach(self, roots):
        seen = {}
        st = [(r, None) for r in roots]
        while st:
            f, via = st.pop()
            if f.key in seen:
                continue
            seen[f.key] = via
            for t, n in self.callees(f).values():
                if t.key not in seen:
                    st.append((t, (f, n)))
        return seen


def fixpoint(db, calls, local, combine):
    """boolean/set summaries: S(f) = local(f) ∪ combine(f, n, S(callee)) to a fixpoint."""
    S = {k: set(local(f)) for k, f in db.fns.items()}
    callers = {}
    sites = {}
    for k, f in db.fns.items():
        for n in f.nodes():
            if n["k"] in ("Call", "MCall", "OCall", "Ctor"):
                for t in calls.targets(n):
                    callers.setdefault(t.key, set()).add(k)
                    sites.setdefault(k, []).append((n, t))
    work = set(db.fns)
    while work:
        k = work.pop()
        f = db.fns[k]
        new = set(S[k])
        for n, t in sites.get(k, ()):
            new |= combine(f, n, t, S[t.key])
        if new != S[k]:
            S[k] = new
            work |= callers.get(k, set())
    return S


def base_type(t):
    t = t.strip()
    t = re.sub(r"^(const|volatile)\s+", "", t)
    while t and (t[-1] in "&*" or t.endswith("const")):
        t = t[:-5].rstrip() if t.endswith("const") else t[:-1].rstrip()
    t = re.sub(r"^(const|volatile)\s+", "", t)
    return t


def plain_type(t):
    """record name without template arguments."""
    t = base_type(t)
    return re.sub(r"<.*", "", t)
