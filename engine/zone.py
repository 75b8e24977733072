"""Difference bounds between integer variables (zone domain), partitioned by the values of boolean locals.

zone(fn).before(ast) gives the states that hold just before the statement containing an expression;
upper(fn, expr) gives linear upper bounds (variable or None, constant) of an integer expression there."""
from facts import walk
from ir import cfg, evalorder, is_const

INTS = {"bool", "char", "signed char", "unsigned char", "short", "unsigned short", "int", "unsigned int", "unsigned", "long", "unsigned long", "long long", "unsigned long long", "size_t"}
UNS = {"unsigned char", "unsigned short", "unsigned int", "unsigned", "unsigned long", "unsigned long long", "size_t", "bool"}
Z = "0"
INF = None


def plain(t):
    t = (t or "").strip()
    while t.endswith("&"):
        t = t[:-1].strip()
    for w in ("const ", "volatile "):
        while t.startswith(w):
            t = t[len(w):]
    return t.strip()


def strip(e):
    while e is not None and e["k"] in ("ICast", "Cast", "Paren", "CleanUps", "Temp") and e.get("c"):
        if e["k"] in ("ICast", "Cast") and plain(e.get("t")) not in INTS:
            return e
        e = e["c"][0]
    return e


class M:
    """closed difference-bound matrix; absent means unbounded."""
    __slots__ = ("d",)

    def __init__(self, d=None):
        self.d = d if d is not None else {}

    def copy(self):
        return M(dict(self.d))

    def get(self, x, y):
        return 0 if x == y else self.d.get((x, y))

    def add(self, x, y, c):
        """x - y <= c; False when contradictory."""
        if x == y:
            return c >= 0
        o = self.d.get((x, y))
        if o is not None and o <= c:
            return True
        r = self.d.get((y, x))
        if r is not None and r + c < 0:
            return False
        self.d[(x, y)] = c
        ins = [(a, v) for (a, b), v in self.d.items() if b == x] + [(x, 0)]
        outs = [(b, v) for (a, b), v in self.d.items() if a == y] + [(y, 0)]
        for a, u in ins:
            for b, v in outs:
                if a != b:
                    w = u + c + v
                    o = self.d.get((a, b))
                    if o is None or w < o:
                        self.d[(a, b)] = w
        return True

    def forget(self, x):
        self.d = {k: v for k, v in self.d.items() if x not in k}

    def shift(self, x, c):
        self.d = {(a, b): v + (c if a == x else 0) - (c if b == x else 0) for (a, b), v in self.d.items()}

    def join(self, o):
        return M({k: max(v, o.d[k]) for k, v in self.d.items() if k in o.d})

    def widen(self, o):
        return M({k: v for k, v in self.d.items() if k in o.d and o.d[k] <= v})

    def __eq__(self, o):
        return self.d == o.d


class Zone:
    def __init__(self, fn):
        self.fn = fn
        self.g = cfg(fn)
        self.vars, self.bools = {}, []
        self._pick()
        self.ins = self._solve() if self.vars else {}

    def _pick(self):
        fn = self.fn
        bad, typ = set(), {}
        for p in fn.params:
            if "d" in p and plain(p["t"]) in INTS and not p["t"].rstrip().endswith("&"):
                typ[p["d"]] = plain(p["t"])
        self.assigned = set()
        for n in fn.nodes():
            k = n["k"]
            if k == "Var" and "d" in n and plain(n.get("t")) in INTS and not (n.get("t") or "").rstrip().endswith("&") and not n.get("static"):
                typ[n["d"]] = plain(n["t"])
            if k == "Un" and n["op"] == "&":
                e = strip(n["c"][0])
                if e is not None and e["k"] == "Ref":
                    bad.add(e.get("d"))
            if k == "Var" and (n.get("t") or "").rstrip().endswith("&") and n.get("c") and n["c"][0] is not None:
                e = strip(n["c"][0])
                if e is not None and e["k"] == "Ref":
                    bad.add(e.get("d"))
            if k == "Lambda":
                for m in walk(n):
                    if m["k"] == "Ref":
                        bad.add(m.get("d"))
            if k in ("Call", "MCall", "OCall", "Ctor"):
                args = n.get("c") or []
                a0 = 1 if k == "MCall" else 0
                for a, t in zip(args[a0:], n.get("pt") or []):
                    if a is not None and t.rstrip().endswith("&") and not t.startswith("const "):
                        e = strip(a)
                        if e is not None and e["k"] == "Ref":
                            bad.add(e.get("d"))
            if k in ("Bin", "CAssign", "Un") and (k != "Bin" or n["op"] == "=") and (k != "Un" or n["op"] in ("++", "--")):
                e = strip(n["c"][0])
                if e is not None and e["k"] == "Mem":
                    self.assigned.add(e.get("f"))
        self.vars = {d: t for d, t in typ.items() if d not in bad}
        if len(self.vars) > 40:
            self.vars = {}
        used = {}
        for n in fn.nodes():
            if n["k"] == "Ref" and self.vars.get(n.get("d")) == "bool":
                used[n["d"]] = used.get(n["d"], 0) + 1
        self.bools = [d for d, _ in sorted(used.items(), key=lambda x: (-x[1], x[0]))][:4]

    def term(self, e):
        """(variable or Z, constant) or None"""
        e = strip(e)
        if e is None:
            return None
        c = is_const(e)
        if c is not None and not isinstance(c, (str, float)):
            return (Z, int(c))
        k = e["k"]
        if k == "Ref" and e.get("d") in self.vars and e.get("dk") in ("local", "param"):
            return (e["d"], 0)
        if k == "Mem" and e.get("c") and e["c"][0] is not None and e["c"][0]["k"] == "This" and plain(e.get("t")) in INTS and e.get("f") not in self.assigned:
            return ("this." + e["n"], 0)
        if k == "Bin" and e["op"] in ("+", "-"):
            a, b = self.term(e["c"][0]), self.term(e["c"][1])
            if a and b and b[0] == Z:
                return (a[0], a[1] + (b[1] if e["op"] == "+" else -b[1]))
            if a and b and a[0] == Z and e["op"] == "+":
                return (b[0], a[1] + b[1])
        if k == "Un" and e["op"] == "+":
            return self.term(e["c"][0])
        return None

    # state: {bool valuation tuple: M}
    def _assume_m(self, m, e, pol):
        """m restricted by e == pol (new M), or None."""
        e = strip(e)
        if e is None:
            return m
        if e["k"] == "Un" and e["op"] == "!":
            return self._assume_m(m, e["c"][0], not pol)
        if e["k"] == "Bin" and e["op"] in ("&&", "||"):
            if (e["op"] == "&&") == pol:
                for x in e["c"]:
                    m = self._assume_m(m, x, pol)
                    if m is None:
                        return None
                return m
            r = [x for x in (self._assume_m(m, y, pol) for y in e["c"]) if x is not None]
            return None if not r else r[0] if len(r) == 1 else r[0].join(r[1])
        if e["k"] == "Bin" and e["op"] in ("<", "<=", ">", ">=", "==", "!="):
            a, b = self.term(e["c"][0]), self.term(e["c"][1])
            if not a or not b:
                return m
            op = e["op"]
            if not pol:
                op = {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}[op]
            if op in (">", ">="):
                a, b, op = b, a, {">": "<", ">=": "<="}[op]
            m = m.copy()
            c = b[1] - a[1]
            if op in ("<", "<="):
                return m if m.add(a[0], b[0], c - (op == "<")) else None
            if op == "==":
                return m if m.add(a[0], b[0], c) and m.add(b[0], a[0], -c) else None
            lo = m.get(b[0], a[0])          # a != b: sharpen a bound that touches
            hi = m.get(a[0], b[0])
            if hi is not None and hi == c and not m.add(a[0], b[0], c - 1):
                return None
            if lo is not None and lo == -c and not m.add(b[0], a[0], -c - 1):
                return None
            return m
        t = self.term(e)
        if t and t[0] != Z and e["k"] == "Ref" and self.vars.get(e.get("d")) != "bool":
            m = m.copy()
            if not pol:
                return m if m.add(t[0], Z, 0) and m.add(Z, t[0], 0) else None
            if self.vars.get(e["d"]) in UNS:
                return m if m.add(Z, t[0], -1) else None
        return m

    def _put(self, out, k, m):
        if m is None:
            return
        out[k] = out[k].join(m) if k in out else m

    def _bool(self, e):
        e = strip(e)
        return self.bools.index(e["d"]) if e is not None and e["k"] == "Ref" and e.get("d") in self.bools else None

    def assume(self, st, e, pol):
        e = strip(e)
        if e is None:
            return st
        if e["k"] == "Un" and e["op"] == "!":
            return self.assume(st, e["c"][0], not pol)
        if e["k"] == "Bin" and e["op"] in ("&&", "||"):
            if (e["op"] == "&&") == pol:
                for x in e["c"]:
                    st = self.assume(st, x, pol)
                return st
            a, b = self.assume(st, e["c"][0], pol), self.assume(self.assume(st, e["c"][0], not pol), e["c"][1], pol)
            out = dict(a)
            for k, m in b.items():
                self._put(out, k, m)
            return out
        i = self._bool(e)
        out = {}
        for k, m in st.items():
            if i is not None:
                if k[i] == pol:
                    out[k] = m
                continue
            self._put(out, k, self._assume_m(m, e, pol))
        return out

    def _assign(self, st, d, e):
        if d in self.bools:
            i = self.bools.index(d)
            out = {}
            for v in (False, True):
                c = is_const(strip(e)) if e is not None else None
                if c is not None and bool(c) != v:
                    continue
                s = st if e is None or c is not None else self.assume(st, e, v)
                for k, m in s.items():
                    self._put(out, k[:i] + (v,) + k[i + 1:], m)
            return out
        out = {}
        for k, m in st.items():
            self._put(out, k, self._set(m, d, e))
        return out

    def _set(self, m, d, e):
        e = strip(e)
        t = self.term(e) if e is not None else None
        m = m.copy()
        if t and t[0] == d:
            m.shift(d, t[1])
            return m
        if t:
            m.forget(d)
            m.add(d, t[0], t[1])
            m.add(t[0], d, -t[1])
            return m
        opts = None
        if e is not None and e["k"] == "Cond":
            opts = [(self._assume_m(m, e["c"][0], True), e["c"][1]), (self._assume_m(m, e["c"][0], False), e["c"][2])]
            r = [self._set(x, d, y) for x, y in opts if x is not None]
            return r[0] if len(r) == 1 else r[0].join(r[1]) if r else None
        if e is not None and e["k"] == "Call" and (e.get("fn") or "").split("::")[-1] in ("max", "min") and len(e.get("c") or []) == 2:
            a, b = self.term(e["c"][0]), self.term(e["c"][1])
            mx = e["fn"].split("::")[-1] == "max"
            if (a and a[0] == d) or (b and b[0] == d):
                m.forget(d)
                return self._typed(m, d)
            new = []
            vs = {x for kk in m.d for x in kk} | {Z}
            for v in vs:
                if v == d:
                    continue
                hs = [None if not t2 or m.get(t2[0], v) is None else t2[1] + m.get(t2[0], v) for t2 in (a, b)]
                ls = [None if not t2 or m.get(v, t2[0]) is None else m.get(v, t2[0]) - t2[1] for t2 in (a, b)]
                if mx:
                    if None not in hs:
                        new.append((d, v, max(hs)))
                    new += [(v, d, x) for x in ls if x is not None]
                else:
                    new += [(d, v, x) for x in hs if x is not None]
                    if None not in ls:
                        new.append((v, d, max(ls)))
            m.forget(d)
            for t2 in (a, b):
                if t2:
                    m.add(*((t2[0], d, -t2[1]) if mx else (d, t2[0], t2[1])))
            for x in new:
                m.add(*x)
            return m
        m.forget(d)
        if e is not None and e["k"] == "Bin" and e["op"] == "%":
            b = self.term(e["c"][1])
            if b and plain(e.get("t")) in UNS:
                m.add(d, b[0], b[1] - 1)
        if e is not None and e["k"] == "Bin" and e["op"] == "&":
            b = is_const(strip(e["c"][1]))
            if isinstance(b, int) and b >= 0:
                m.add(d, Z, b)
                m.add(Z, d, 0)
        return self._typed(m, d)

    def _typed(self, m, d):
        if self.vars.get(d) in UNS:
            m.add(Z, d, 0)
        return m

    def transfer(self, nd, st, stop=None):
        if nd.ast is None:
            return st
        if nd.kind == "rangedecl":
            return st
        for n in evalorder(nd.ast):
            if stop is not None and n["i"] == stop:
                return st
            st = self.effect(st, n)
        if nd.kind == "assume" and nd.pol is not None:
            st = self.assume(st, nd.ast, nd.pol)
        return st

    def effect(self, st, n):
        k = n["k"]
        if k == "Var" and n.get("d") in self.vars:
            return self._assign(st, n["d"], n["c"][0] if n.get("c") else None)
        if k == "Bin" and n["op"] == "=":
            e = strip(n["c"][0])
            if e is not None and e["k"] == "Ref" and e.get("d") in self.vars:
                return self._assign(st, e["d"], n["c"][1])
        elif k == "CAssign":
            e = strip(n["c"][0])
            if e is not None and e["k"] == "Ref" and e.get("d") in self.vars:
                t = self.term(n["c"][1])
                if e["d"] in self.bools:
                    return self._assign(st, e["d"], None)
                out = {}
                for kk, m in st.items():
                    m = m.copy()
                    if t and t[0] == Z and n["op"] in ("+=", "-="):
                        m.shift(e["d"], t[1] if n["op"] == "+=" else -t[1])
                    else:
                        m.forget(e["d"])
                        m = self._typed(m, e["d"])
                    out[kk] = m
                return out
        elif k == "Un" and n["op"] in ("++", "--"):
            e = strip(n["c"][0])
            if e is not None and e["k"] == "Ref" and e.get("d") in self.vars and e["d"] not in self.bools:
                out = {}
                for kk, m in st.items():
                    m = m.copy()
                    m.shift(e["d"], 1 if n["op"] == "++" else -1)
                    out[kk] = m
                return out
        return st

    def _solve(self):
        import heapq, itertools
        g = self.g
        order = {n.id: i for i, n in enumerate(g.rpo())}
        m0 = M()
        for d, t in self.vars.items():
            if t in UNS and any(p.get("d") == d for p in self.fn.params):
                m0.add(Z, d, 0)
        init = {k: m0 for k in itertools.product((False, True), repeat=len(self.bools))}
        ins = {g.entry.id: init}
        cnt = {}
        preds = {}
        for n in g.nodes:
            for s in n.succ:
                preds.setdefault(s.id, []).append(n)
        heap, inq = [(0, g.entry.id)], {g.entry.id}
        steps = 0
        while heap:
            _, i = heapq.heappop(heap)
            inq.discard(i)
            steps += 1
            if steps > 20000:
                return {}
            n = g.nodes[i]
            out = self.transfer(n, ins[i])
            if not out:
                continue
            for s in n.succ:
                old = ins.get(s.id)
                if old is None:
                    ins[s.id] = out
                else:
                    back = order.get(s.id, 0) <= order.get(i, 0)
                    new = dict(old)
                    ch = False
                    for k, m in out.items():
                        if k not in new:
                            new[k] = m
                            ch = True
                            continue
                        j = new[k].join(m)
                        if j == new[k]:
                            continue
                        ch = True
                        if back:
                            cnt[(s.id, k)] = cnt.get((s.id, k), 0) + 1
                            if cnt[(s.id, k)] > 3:
                                j = new[k].widen(j)
                        new[k] = j
                    if not ch:
                        continue
                    ins[s.id] = new
                if s.id not in inq:
                    inq.add(s.id)
                    heapq.heappush(heap, (order.get(s.id, 0), s.id))
        # two descending passes recover bounds lost to widening
        rp = [n for n in g.rpo() if n.id in ins]
        for _ in range(2):
            outs = {n.id: self.transfer(n, ins[n.id]) for n in rp}
            for n in rp:
                if n is g.entry:
                    continue
                new = {}
                for p in preds.get(n.id, []):
                    for k, m in (outs.get(p.id) or {}).items():
                        self._put(new, k, m)
                ins[n.id] = new
                outs[n.id] = self.transfer(n, new)
        return ins

    def before(self, ast):
        """the state just before an expression is evaluated (None: not known, {}: unreachable)."""
        nd = self.g.owner.get(ast["i"])
        if nd is None or nd.id not in self.ins:
            return None
        return self.transfer(nd, self.ins[nd.id], ast["i"]) if nd.ast is not None and any(n["i"] == ast["i"] for n in evalorder(nd.ast)) else self.ins[nd.id]

    def upper(self, at, e):
        """[(variable name or None, c)]: e <= variable + c just before `at`; None when unreachable."""
        st = self.before(at)
        t = self.term(e)
        if st is None or t is None:
            return []
        if not st:
            return None
        r = None
        for m in st.values():
            b = {v: (m.get(t[0], v)) for v in {x for kk in m.d for x in kk} | {Z, t[0]} if m.get(t[0], v) is not None}
            r = b if r is None else {v: max(c, b[v]) for v, c in r.items() if v in b}
        return [(None if v == Z else v, c + t[1]) for v, c in r.items()]

    def lower(self, at, e):
        """greatest constant c with e >= c just before `at`, or None."""
        st = self.before(at)
        t = self.term(e)
        if st is None or t is None:
            return None
        r = None
        for m in st.values():
            c = m.get(Z, t[0])
            if c is None:
                return None
            v = -c + t[1]
            r = v if r is None else min(r, v)
        return r


_z = {}


def zone(fn):
    k = id(fn)
    if k not in _z:
        _z[k] = Zone(fn)
    return _z[k]
