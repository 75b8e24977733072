"""Update summaries of arithmetic members.

For a compound-arithmetic member the effect on every component (field, container element,
held statistic) is summarised as a normal form: a Laurent polynomial over the values the
components had on entry, or the logarithm of one.  Branches are summarised separately, each
with the equalities its conditions state; a loop over a container contributes one update for
an arbitrary element plus the range it covers.  Nothing is run and no solver is involved: two
updates agree exactly when their normal forms are identical."""
from fractions import Fraction
from facts import children, walk
from ir import uncast, base_type

NUM = {"int", "unsigned int", "long", "unsigned long", "short", "unsigned short", "char", "unsigned char", "signed char",
       "float", "double", "long double", "long long", "unsigned long long", "bool"}


class Unsup(Exception):
    pass


class Fork(Exception):
    def __init__(self, key):
        self.key = key


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Thrown(Exception):
    pass


class BrkE(Exception):
    pass


class ContE(Exception):
    pass


class Poly:
    __slots__ = ("m",)

    def __init__(self, m):
        self.m = {k: v for k, v in m.items() if v != 0}

    @staticmethod
    def c(x):
        return Poly({(): Fraction(x)})

    @staticmethod
    def a(name):
        return Poly({((name, 1),): Fraction(1)})

    def const(self):
        if not self.m:
            return Fraction(0)
        if list(self.m) == [()]:
            return self.m[()]
        return None

    def __add__(s, o):
        m = dict(s.m)
        for k, v in o.m.items():
            m[k] = m.get(k, 0) + v
        return Poly(m)

    def __neg__(s):
        return Poly({k: -v for k, v in s.m.items()})

    def __sub__(s, o):
        return s + (-o)

    def __mul__(s, o):
        m = {}
        for k, v in s.m.items():
            for k2, v2 in o.m.items():
                d = dict(k)
                for a, e in k2:
                    d[a] = d.get(a, 0) + e
                kk = tuple(sorted((a, e) for a, e in d.items() if e))
                m[kk] = m.get(kk, 0) + v * v2
        return Poly(m)

    def inv(s):
        if len(s.m) != 1:
            raise Unsup("division by a sum or zero")
        (k, v), = s.m.items()
        return Poly({tuple((a, -e) for a, e in k): 1 / v})

    def subst(s, sub):
        if not any(a in sub for k in s.m for a, _ in k):
            return s
        r = Poly({})
        for k, v in s.m.items():
            t = Poly.c(v)
            for a, e in k:
                x = sub.get(a)
                x = Poly.a(a) if x is None else x
                if e < 0:
                    if not x.m:
                        raise Unsup("division by zero on this branch")
                    x, e = x.inv(), -e
                for _ in range(e):
                    t = t * x
            r = r + t
        return r

    def __eq__(s, o):
        return isinstance(o, Poly) and s.m == o.m

    def __hash__(s):
        return hash(tuple(sorted(s.m.items())))

    def __str__(s):
        if not s.m:
            return "0"
        out = []
        for k, v in sorted(s.m.items()):
            t = "*".join(a if e == 1 else "%s^%d" % (a, e) for a, e in k)
            out.append((("" if v == 1 else "-" if v == -1 else str(v) + "*") + t) if t else str(v))
        return " + ".join(out)
    __repr__ = __str__


class LogV:
    __slots__ = ("p",)

    def __init__(self, p):
        self.p = p

    def __eq__(s, o):
        return isinstance(o, LogV) and s.p == o.p

    def __hash__(s):
        return hash(("L", s.p))

    def __str__(s):
        return "log(%s)" % s.p
    __repr__ = __str__


class Obj:
    __slots__ = ("path", "t", "idx")

    def __init__(self, path, t="", idx=()):
        self.path, self.t, self.idx = path, t, tuple(idx)

    def __repr__(self):
        return "&" + self.path


class Idx:
    """arbitrary position of a loop."""
    def __init__(self, loop):
        self.loop = loop

    def __repr__(self):
        return "idx"


class Iter:
    def __init__(self, obj, end=False, loop=None):
        self.obj, self.end, self.loop = obj, end, loop


class Opq:
    def __init__(self, s):
        self.s = s

    def __repr__(self):
        return "?" + self.s


class Cnd:
    """undecided condition; zero: the polynomial whose being zero it states (or None)."""
    def __init__(self, key, zero=None, neg=False, absent=None):
        self.key, self.zero, self.neg, self.absent = key, zero, neg, absent


def numeric(t):
    return t.replace("const ", "").replace("&", "").strip() in NUM


def is_container(t):
    b = t.replace("const ", "").replace("&", "").strip()
    return b.startswith(("std::vector<", "std::valarray<", "std::map<", "std::unordered_map<", "std::deque<")) or b.endswith("]")


class Loop:
    def __init__(self, node, start=None, bound=None, op=None, step=None, kind="idx"):
        self.node, self.start, self.bound, self.op, self.step, self.kind = node, start, bound, op, step, kind


class Path:
    def __init__(self):
        self.store, self.ret, self.thrown, self.loops, self.dec, self.sub = {}, None, False, {}, {}, {}


class Eng:
    """numlike: class names whose values are treated as plain numbers."""
    def __init__(self, db, numlike=(), maxpaths=400):
        self.db, self.numlike, self.maxpaths = db, set(numlike), maxpaths

    def isnum(self, t):
        t = (t or "").replace("const ", "").replace("&", "").strip()
        return t in NUM or base_type(t).split("<")[0] in self.numlike or t.startswith(("std::valarray<", "std::_Expr<"))

    # ------------------------------------------------------------------ driver
    def paths(self, fn, env, store=None):
        """env: decl id -> value; store: initial component values. Yields Path."""
        out, work = [], [{}]
        while work:
            dec = work.pop()
            p = Path()
            p.store = dict(store or {})
            self.p, self.pre, self.depth, self.steps, self.nloc = p, dec, 0, 0, 0
            p.dec = {}
            self.sub, self.copies = p.sub, {}
            p.copies = self.copies
            e = dict(env)
            try:
                for i in fn.inits:
                    self.init(i, e)
                self.stmt(fn.body, e)
            except Ret as r:
                p.ret = r.v
            except Thrown:
                p.thrown = True
            except Fork as f:
                work.append({**dec, f.key: False})
                work.append({**dec, f.key: True})
                if len(work) + len(out) > self.maxpaths:
                    raise Unsup("too many branches")
                continue
            out.append(p)
        return out

    def init(self, i, e):
        th = e.get("this")
        if i.get("field") and i["c"] and isinstance(th, Obj):
            v = self.ex(i["c"][0], e)
            self.write(Obj(th.path + "." + i["field"]), v)
        elif i.get("deleg") or not i.get("field"):
            pass

    # ------------------------------------------------------------------ conditions
    def decide(self, c):
        if c is True or c is False:
            return c
        if isinstance(c, Poly):
            k = c.const()
            if k is not None:
                return k != 0
            c = self.zero(c, True)
            return self.decide(c)
        if isinstance(c, Obj):
            v = self.read(c)
            if isinstance(v, (Poly, bool)):
                return self.decide(v)
            c = Cnd("set(%s)" % c.path)
        if isinstance(c, LogV):
            c = Cnd("nz(%s)" % c)
        if not isinstance(c, Cnd):
            c = Cnd("cond(%r)" % (c,)) if not isinstance(c, Opq) else Cnd(c.s)
        key = c.key
        if key not in self.p.dec:
            if key not in self.pre:
                raise Fork(key)
            self.p.dec[key] = self.pre[key]
            if self.pre[key] and c.zero is not None:
                self.assume_zero(c.zero)
            if not self.pre[key] and c.absent:      # position beyond the end: counts as zero
                self.sub[c.absent] = Poly({})
        r = self.p.dec[key]
        return not r if c.neg else r

    def zero(self, p, neg=False):
        p = p.subst(self.sub)
        k = p.const()
        if k is not None:
            return (k == 0) != neg
        # canonical sign
        lead = sorted(p.m.items())[0][1]
        q = p * Poly.c(1 / lead)
        return Cnd("zero(%s)" % q, q, neg)

    def assume_zero(self, p):
        # linear in one atom: a*x + c
        if len(p.m) <= 2:
            ks = [k for k in p.m if k]
            if len(ks) == 1 and len(ks[0]) == 1 and ks[0][0][1] == 1:
                self.sub[ks[0][0][0]] = Poly.c(-p.m.get((), 0) / p.m[ks[0]])
                for k, v in list(self.p.store.items()):
                    self.p.store[k] = self.norm(v)
                return
        if len(p.m) == 2 and () not in p.m:   # x - y
            (k1, v1), (k2, v2) = sorted(p.m.items())
            if len(k1) == len(k2) == 1 and k1[0][1] == k2[0][1] == 1:
                self.sub[k1[0][0]] = Poly({k2: -v2 / v1})

    def norm(self, v):
        if isinstance(v, Poly):
            return v.subst(self.sub)
        if isinstance(v, LogV):
            return LogV(v.p.subst(self.sub))
        return v

    # ------------------------------------------------------------------ store
    def canon(self, o):
        p = o.path
        if o.t and o.t.replace("const ", "").replace("&", "").strip().startswith("std::valarray<"):
            p += "[*]"
        return p

    def root(self, p):
        i = len(p)
        for ch in ".[":
            j = p.find(ch)
            if j >= 0:
                i = min(i, j)
        return p[:i], p[i:]

    def read(self, o):
        p = self.canon(o)
        for _ in range(8):
            if p in self.p.store:
                return self.norm(self.p.store[p])
            r, rest = self.root(p)
            if r in self.copies:
                p = self.copies[r] + rest
            else:
                break
        return self.norm(Poly.a(p))

    def write(self, o, v):
        p = self.canon(o)
        if isinstance(v, Obj):
            if self.isnum(v.t) or self.isnum(o.t) or p in self.p.store:
                v = self.read(v)
            else:
                # whole-object copy: forget what was known about it, alias to the source
                src = v.path
                for k in [k for k in self.p.store if k == p or k.startswith((p + ".", p + "["))]:
                    del self.p.store[k]
                for k in [k for k in list(self.p.store) if k.startswith((src + ".", src + "["))]:
                    self.p.store[p + k[len(src):]] = self.p.store[k]
                self.p.store[p + "[=]"] = ("copyof", src)
                if p in self.copies:
                    self.copies[p] = src
                return
        for i in o.idx:
            if i.loop.kind == "idx" and i.loop.start.const() is None:
                return          # part of the container only
        for i in o.idx:
            self.p.loops.setdefault(p, [])
            if i.loop not in self.p.loops[p]:
                self.p.loops[p].append(i.loop)
        self.p.store[p] = v

    # ------------------------------------------------------------------ statements
    def stmt(self, s, env):
        self.steps += 1
        if self.steps > 4000:
            raise Unsup("step bound")
        if s is None:
            return
        k = s["k"]
        c = s.get("c") or []
        if k == "Block":
            for x in c:
                self.stmt(x, env)
        elif k == "Return":
            raise Ret(self.ex(c[0], env) if c and c[0] is not None else None)
        elif k == "If":
            self.stmt(c[0], env)
            self.stmt(c[1], env)
            if self.decide(self.ex(c[2], env)):
                self.stmt(c[3], env)
            else:
                self.stmt(c[4], env)
        elif k == "Decl":
            for v in c:
                if v["k"] == "Var":
                    self.decl(v, env)
        elif k == "For":
            self.stmt(c[0], env)
            self.loop(s, c[2], c[3], c[4], env)
        elif k == "While":
            self.loop(s, c[1], None, c[2], env)
        elif k == "ForRange":
            o = self.ex(c[0], env)
            if not isinstance(o, Obj):
                raise Unsup("range-for")
            lp = Loop(s, kind="range", bound=o)
            env[s["var"]["d"]] = self.elem(o, Idx(lp), s["var"]["t"])
            try:
                self.stmt(c[1], env)
            except (BrkE, ContE):
                pass
        elif k == "Break":
            raise BrkE()
        elif k == "Continue":
            raise ContE()
        elif k in ("Throw",):
            raise Thrown()
        elif k in ("Null", "Using"):
            pass
        elif k in ("Switch", "Do", "Try", "Goto", "Label", "OMP"):
            raise Unsup(k)
        else:
            self.ex(s, env)

    def decl(self, v, env):
        t = v["t"]
        if not v.get("c"):
            env[v["d"]] = Obj(self.fresh(), t) if not numeric(t) else Poly.c(0)
            return
        x = self.ex(v["c"][0], env)
        if t.rstrip().endswith(("&", "*")):
            env[v["d"]] = x
        elif isinstance(x, Obj) and not x.path.startswith("L"):
            if self.isnum(t):
                env[v["d"]] = self.read(x)
            elif t.replace("const ", "").strip().endswith("*") or "iterator" in t:
                env[v["d"]] = x
            else:
                n = self.fresh()
                self.copies[n] = x.path
                env[v["d"]] = Obj(n, t)
        else:
            env[v["d"]] = x

    def fresh(self):
        self.nloc += 1
        return "L%d" % self.nloc

    def loop(self, s, cond, inc, body, env):
        """one pass for an arbitrary position."""
        lp = None
        mod = set()
        for x in walk(inc) if inc is not None else []:
            if x["k"] == "Un" and x["op"] in ("++", "--"):
                u = uncast(x["c"][0])
                if u["k"] == "Ref":
                    mod.add((u["d"], x["op"]))
            elif x["k"] == "OCall" and x["op"] in ("++", "--"):
                u = uncast(x["c"][0])
                if u["k"] == "Ref":
                    mod.add((u["d"], x["op"]))
            elif x["k"] == "CAssign":
                u = uncast(x["c"][0])
                if u["k"] == "Ref":
                    mod.add((u["d"], x["op"] + str(uncast(x["c"][1]).get("v"))))
        if not mod:
            raise Unsup("loop without a counter")
        for d, op in sorted(mod, key=str):
            v = env.get(d)
            if isinstance(v, Poly):
                lp = Loop(s, start=v, step=op)
                cc = uncast(cond) if cond is not None else None
                if cc is None or cc["k"] != "Bin":
                    raise Unsup("loop condition")
                l, r = uncast(cc["c"][0]), uncast(cc["c"][1])
                o = cc["op"]
                if r["k"] == "Ref" and r.get("d") == d:
                    l, r, o = r, l, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(o, o)
                if not (l["k"] == "Ref" and l.get("d") == d):
                    raise Unsup("loop condition")
                lp.op = o
                b = self.ex(r, env)
                lp.bound = self.read(b) if isinstance(b, Obj) else b
                env[d] = Idx(lp)
            elif isinstance(v, Iter):
                lp = Loop(s, kind="iter", bound=v.obj, start=v, op=op)
                x = None
                for y in walk(cond) if cond is not None else []:
                    if y["k"] in ("Ref", "MCall", "Call"):
                        try:
                            z = self.ex(y, env)
                        except Unsup:
                            continue
                        if isinstance(z, Iter) and z.end:
                            x = z
                lp.step = x
                env[d] = Iter(v.obj, False, Idx(lp))
            else:
                raise Unsup("loop variable")
        try:
            self.stmt(body, env)
        except (BrkE, ContE):
            pass
        for d, op in mod:
            env[d] = Opq("loop end")

    # ------------------------------------------------------------------ expressions
    def num(self, v):
        if isinstance(v, Obj):
            v = self.read(v)
        if isinstance(v, bool):
            return Poly.c(int(v))
        if isinstance(v, (Poly, LogV)):
            return v
        raise Unsup("not a number: %r" % (v,))

    def arith(self, op, a, b):
        a, b = self.num(a), self.num(b)
        if isinstance(a, Poly) and isinstance(b, Poly):
            return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a * b.inv()}[op]() if op in "+-*/" else self.bits(op, a, b)
        if isinstance(a, LogV) and isinstance(b, LogV):
            if op == "+":
                return LogV(a.p * b.p)
            if op == "-":
                return LogV(a.p * b.p.inv())
            raise Unsup("product of logarithms")
        # one log, one number
        l, q = (a, b) if isinstance(a, LogV) else (b, a)
        if op == "*":
            k = q.const()
            if k is not None and k.denominator == 1 and abs(k) <= 4:
                r = Poly.c(1)
                x = l.p if k > 0 else l.p.inv()
                for _ in range(abs(int(k))):
                    r = r * x
                return LogV(r)
            return LogV(Poly.a("(%s)**(%s)" % (l.p, q)))
        if op in "+-" and q.const() == 0:
            if op == "+" or l is a:
                return l
            return LogV(l.p.inv())
        raise Unsup("log arithmetic " + op)

    def bits(self, op, a, b):
        x, y = a.const(), b.const()
        if x is None or y is None:
            raise Unsup("op " + op)
        x, y = int(x), int(y)
        return Poly.c({"&": x & y, "|": x | y, "^": x ^ y}[op]) if op in "&|^" else self._no(op)

    def _no(self, op):
        raise Unsup("op " + op)

    def compare(self, op, a, b):
        if isinstance(a, Obj) and not self.isnum(a.t) and a.path not in self.p.store and isinstance(b, Obj):
            return Cnd("%s %s %s" % (a.path, op, b.path))
        if isinstance(a, (Idx, Iter, Opq)) or isinstance(b, (Idx, Iter, Opq)):
            if op in (">", "<="):
                a, b, op = b, a, "<" if op == ">" else ">="
            ab = None
            if isinstance(a, Idx) and isinstance(b, Poly) and str(b).endswith(".size()"):
                ab = str(b)[:-7] + "[*]"
            return Cnd("%r < %r" % (a, b), None, op == ">=", ab) if op in ("<", ">=") else Cnd("%r %s %r" % (a, op, b))
        a, b = self.num(a), self.num(b)
        if op in ("<", ">", "<=", ">="):      # |x| > small: x is not zero
            x, y, o2 = (a, b, op) if isinstance(b, Poly) and b.const() is not None else (b, a, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}[op])
            if isinstance(x, Poly) and isinstance(y, Poly) and y.const() is not None and 0 <= y.const() <= 1 and len(x.m) == 1:
                (kk, _), = x.m.items()
                if len(kk) == 1 and kk[0][0].startswith("|") and kk[0][1] == 1:
                    return self.zero(Poly.a(kk[0][0][1:-1]), o2 in (">", ">="))
        NI = Poly({(("inf", 1),): Fraction(-1)})
        if isinstance(a, LogV) and isinstance(b, Poly):
            b = LogV(Poly.c(1)) if b.const() == 0 else LogV(Poly.c(0)) if b == NI else b
        if isinstance(b, LogV) and isinstance(a, Poly):
            a = LogV(Poly.c(1)) if a.const() == 0 else LogV(Poly.c(0)) if a == NI else a
        if isinstance(a, LogV) != isinstance(b, LogV):
            raise Unsup("comparison of unlike values")
        if isinstance(a, LogV):
            ap, bp = a.p, b.p
        else:
            ap, bp = a, b
        d = (ap - bp).subst(self.sub)
        k = d.const()
        if k is not None:
            return {"<": k < 0, ">": k > 0, "<=": k <= 0, ">=": k >= 0, "==": k == 0, "!=": k != 0}[op]
        if op in ("==", "!="):
            return self.zero(d, op == "!=")
        # canonical: x < y
        if op in (">", "<="):
            d = -d
        # now: d<0  ('<','>')  or not(d<0) ('>=','<=')
        return Cnd("neg(%s)" % d, None, op in ("<=", ">="))

    def elem(self, o, i, t=""):
        if isinstance(i, Obj):
            i = self.read(i)
        if isinstance(i, Idx):
            return Obj(o.path + "[*]", t, o.idx + (i,))
        if isinstance(i, Poly):
            k = i.const()
            return Obj("%s[%s]" % (o.path, k if k is not None else i), t, o.idx)
        raise Unsup("subscript")

    def deref(self, o, t=""):
        if isinstance(o, Iter):
            if o.loop is None:
                raise Unsup("iterator")
            return Obj(o.obj.path + "[*]", t, o.obj.idx + ((o.loop,) if isinstance(o.loop, Idx) else ()))
        if isinstance(o, Obj):
            return Obj(o.path, t or o.t, o.idx)
        raise Unsup("deref")

    def ex(self, n, env):
        self.steps += 1
        if self.steps > 4000:
            raise Unsup("step bound")
        k, t, c = n["k"], n.get("t", ""), n.get("c") or []
        if k in ("Int", "Char"):
            return Poly.c(int(n["v"]))
        if k == "Bool":
            return bool(n["v"])
        if k == "Float":
            return Poly.c(Fraction(str(n["v"])))
        if k == "Str":
            return Opq("str")
        if k == "NullPtr":
            return Opq("null")
        if k == "ZeroInit":
            return Poly.c(0)
        if k == "This":
            return env["this"]
        if k in ("ICast", "Cast"):
            v = self.ex(c[0], env)
            if isinstance(v, Obj) and not numeric(t):
                return Obj(v.path, t.replace("*", "").strip() if not self.isnum(v.t) else v.t, v.idx)
            if isinstance(v, Obj) and numeric(t):
                return self.read(v) if not t == "bool" else v
            return v
        if k == "Ref":
            if n.get("dk") in ("local", "param"):
                if n["d"] in env:
                    return env[n["d"]]
                raise Unsup("captured")
            if "v" in n:
                return Poly.c(int(n["v"]))
            nm = str(n.get("q", n.get("n")))
            return Obj("::" + nm, t)
        if k == "Mem":
            if "v" in n:
                return Poly.c(int(n["v"]))
            o = self.ex(c[0], env) if c else env["this"]
            if isinstance(o, Iter):
                if n["n"] == "first":
                    return o.loop if o.loop is not None else Opq("key")
                if n["n"] == "second":
                    return self.deref(o, t)
                o = self.deref(o)
            if not isinstance(o, Obj):
                raise Unsup("member of %r" % (o,))
            if n["n"] == "first" and o.path.endswith("[*]") and o.idx:
                return o.idx[-1]
            if n["n"] == "second" and o.path.endswith("[*]"):
                return Obj(o.path, t, o.idx)
            return Obj(o.path + "." + n["n"], t, o.idx)
        if k == "Sub":
            return self.elem(self.ex(c[0], env), self.ex(c[1], env), t)
        if k == "Un":
            op = n["op"]
            if op in ("*", "&"):
                v = self.ex(c[0], env)
                return self.deref(v, t if op == "*" else "") if op == "*" else v
            if op == "!":
                return not self.decide(self.ex(c[0], env))
            if op == "-":
                v = self.num(self.ex(c[0], env))
                return -v if isinstance(v, Poly) else LogV(v.p.inv())
            if op == "+":
                return self.ex(c[0], env)
            if op in ("++", "--"):
                return self.assign(c[0], self.arith("+" if op == "++" else "-", self.ex(c[0], env), Poly.c(1)), env)
            raise Unsup("unary " + op)
        if k == "Bin":
            op = n["op"]
            if op == "&&":
                return self.decide(self.ex(c[0], env)) and self.decide(self.ex(c[1], env))
            if op == "||":
                return self.decide(self.ex(c[0], env)) or self.decide(self.ex(c[1], env))
            if op == ",":
                self.ex(c[0], env)
                return self.ex(c[1], env)
            if op == "=":
                return self.assign(c[0], self.ex(c[1], env), env)
            a, b = self.ex(c[0], env), self.ex(c[1], env)
            if op in ("<", ">", "<=", ">=", "==", "!="):
                return self.compare(op, a, b)
            return self.arith(op, a, b)
        if k == "CAssign":
            a, b = self.ex(c[0], env), self.ex(c[1], env)
            return self.assign(c[0], self.arith(n["op"][:-1], a, b), env)
        if k == "Cond":
            for i, j in ((2, 1), (1, 2)):   # assert(): the failing arm does not return
                if any(x["k"] == "Call" and (x.get("fn") or "").split("::")[-1] in ("__assert_fail", "abort") for x in walk(c[i])):
                    return None
            return self.ex(c[1] if self.decide(self.ex(c[0], env)) else c[2], env)
        if k == "Init" and len(c) == 1:
            return self.ex(c[0], env)
        if k == "Throw":
            raise Thrown()
        if k == "OCall":
            return self.ocall(n, env)
        if k in ("MCall", "Call"):
            return self.call(n, env)
        if k == "Ctor":
            return self.ctor(n, env)
        if k == "Sizeof":
            return Poly.c(int(n["v"]))
        if k == "New":
            return Obj(self.fresh(), t)
        raise Unsup("node " + k)

    def assign(self, l, v, env):
        l = uncast(l)
        if l["k"] == "Ref" and l.get("dk") in ("local", "param"):
            cur = env.get(l["d"])
            if not isinstance(cur, Obj) or isinstance(v, (Iter, Idx)) or not cur.path or self.isptr(l.get("t", "")):
                env[l["d"]] = v if not (isinstance(v, Obj) and self.isnum(v.t)) else self.read(v)
                return v
        o = self.ex(l, env)
        if isinstance(o, Obj):
            if isinstance(v, Obj) and self.isnum(v.t):
                v = self.read(v)
            if isinstance(v, (Opq, Iter, Idx, Cnd)) or v is None:
                v = Poly.a("opaque:%r" % (v,)) if self.isnum(o.t) else v
                if isinstance(v, Poly):
                    self.write(o, v)
                return o
            self.write(o, v)
            return o
        raise Unsup("assignment")

    def isptr(self, t):
        return t.replace("const ", "").rstrip().endswith("*") or "iterator" in t

    OPS = {"+": "+", "-": "-", "*": "*", "/": "/"}

    def ocall(self, n, env):
        op, c, t = n["op"], n.get("c") or [], n.get("t", "")
        if op == "[]":
            o = self.ex(c[0], env)
            i = self.ex(c[1], env)
            f = self.db.fns.get(n.get("f"))
            if f is not None and isinstance(o, Obj) and f.file.startswith(REPO_DIRS):
                try:
                    return self.inline(f, o, [i])
                except Unsup:
                    pass
            if isinstance(o, Obj):
                return self.elem(o, i, t)
            raise Unsup("subscript")
        if op in ("*", "->") and len(c) == 1:
            return self.deref(self.ex(c[0], env), t.replace("*", "").strip())
        vs = [self.ex(x, env) for x in c]
        at = [x.get("t", "") for x in c]
        if op in ("==", "!=", "<", ">", "<=", ">="):
            if all(isinstance(v, (Poly, LogV, bool)) or (isinstance(v, Obj) and self.isnum(v.t)) for v in vs):
                return self.compare(op, *vs)
            return Cnd("%r %s %r" % (vs[0], op, vs[1] if len(vs) > 1 else ""))
        if len(vs) == 2 and op in ("+", "-", "*", "/") and all(self.isnum(x) for x in at):
            return self.arith(op, *vs)
        if len(vs) == 1 and op == "-" and self.isnum(at[0]):
            return -self.num(vs[0])
        if len(vs) == 2 and op in ("+=", "-=", "*=", "/=") and self.isnum(at[0]):
            return self.assign(c[0], self.arith(op[0], *vs), env)
        if op == "=" and len(vs) == 2:
            f = self.db.fns.get(n.get("f"))
            if f is not None and f.body is not None and base_type(at[1]) != base_type(at[0]) and isinstance(vs[0], Obj) and f.file.startswith(REPO_DIRS) and not self.isnum(at[0]):
                return self.inline(f, vs[0], vs[1:])
            return self.assign(c[0], vs[1], env)
        f = self.db.fns.get(n.get("f"))
        if f is not None and f.body is not None:
            if n.get("mem"):
                return self.inline(f, vs[0], vs[1:])
            return self.inline(f, None, vs)
        if op == "()":
            return Opq("call")
        if op in ("<<",):
            return Opq("stream")
        if op in ("+=", "-=", "*=", "/=") and isinstance(vs[0], Obj):
            if "string" in at[0]:
                return Opq("string")
        raise Unsup("operator " + op)

    def inline(self, f, this, args):
        self.depth += 1
        if self.depth > 8:
            self.depth -= 1
            raise Unsup("depth")
        env = {}
        for p, a in zip(f.params, args):
            t = p["t"]
            if isinstance(a, Obj) and not t.rstrip().endswith(("&", "*")):
                if self.isnum(t):
                    a = self.read(a)
                else:
                    nn = self.fresh()
                    self.copies[nn] = a.path
                    for k in [k for k in self.p.store if k.startswith((a.path + ".", a.path + "["))]:
                        self.p.store[nn + k[len(a.path):]] = self.p.store[k]
                    a = Obj(nn, t)
            env[p["d"]] = a
        env["this"] = this
        try:
            self.stmt(f.body, env)
        except Ret as r:
            v = r.v
            if isinstance(v, Obj) and self.isnum(f.h["ret"]) and not f.h["ret"].rstrip().endswith("&"):
                v = self.read(v)
            return v
        finally:
            self.depth -= 1
        return None

    def ctor(self, n, env):
        c, t = n.get("c") or [], n.get("t", "")
        f = self.db.fns.get(n.get("f"))
        if len(c) == 1 and base_type(c[0].get("t", "")) == base_type(t):
            v = self.ex(c[0], env)
            if isinstance(v, Obj) and not self.isnum(t) and not v.path.startswith("L"):
                nn = self.fresh()
                self.copies[nn] = v.path
                for k in [k for k in self.p.store if k.startswith((v.path + ".", v.path + "["))]:
                    self.p.store[nn + k[len(v.path):]] = self.p.store[k]
                return Obj(nn, t)
            return v
        if self.isnum(t):
            if len(c) == 1:
                return self.ex(c[0], env)
            if not c:
                return Poly.c(0)
            raise Unsup("ctor")
        vs = [self.ex(x, env) for x in c]
        o = Obj(self.fresh(), t)
        if f is not None and f.file.startswith(REPO_DIRS) and not f.h.get("copy"):
            self.depth += 1
            if self.depth > 8:
                self.depth -= 1
                raise Unsup("depth")
            e = {p["d"]: a for p, a in zip(f.params, vs)}
            e["this"] = o
            try:
                for i in f.inits:
                    if i.get("field") and i["c"]:
                        try:
                            self.write(Obj(o.path + "." + i["field"]), self.ex(i["c"][0], e))
                        except Unsup:
                            self.write(Obj(o.path + "." + i["field"]), Poly.a("opaque-init"))
                self.stmt(f.body, e)
            except Ret:
                pass
            finally:
                self.depth -= 1
            return o
        if t.startswith("std::") and "vector" in t and len(vs) >= 2:
            self.write(Obj(o.path + "[*]"), self.num(vs[1]))
        return o

    IGN = {"resize", "reserve", "clear", "assign", "push_back", "str"}

    def call(self, n, env):
        k, c, t = n["k"], n.get("c") or [], n.get("t", "")
        fnm = n.get("fn") or ""
        sh = fnm.split("::")[-1]
        if sh in ("__assert_fail", "abort", "exit", "terminate"):
            raise Thrown()
        if k == "MCall":
            o = self.ex(c[0], env)
            if isinstance(o, Iter):
                o = self.deref(o)
            ot = base_type(c[0].get("t", ""))
            if isinstance(o, Obj):
                if sh in ("begin", "cbegin"):
                    return Iter(Obj(o.path, o.t, o.idx))
                if sh in ("end", "cend"):
                    return Iter(Obj(o.path, o.t, o.idx), True)
                if sh in ("size", "Size", "height", "width", "length"):
                    return Poly.a("%s.%s()" % (self.srcof(o.path), sh))
                if sh == "empty":
                    if is_container(o.t) or "string" in o.t or ot.startswith("std::"):
                        return Cnd("%s.empty()" % o.path)
                    return self.zero(self.read(Obj(o.path + "[*]")))
                if sh in ("find", "at", "get_or_create_bin", "lower_bound"):
                    i = self.ex(c[1], env)
                    if sh == "find":
                        return Iter(o, False, i if isinstance(i, Idx) else None)
                    return self.elem(o, i, t.replace("&", "").strip())
                if sh in ("get", "c_str", "data"):
                    return Obj(o.path, t, o.idx)
                if sh in self.IGN:
                    for x in c[1:]:
                        self.ex(x, env)
                    return Opq(sh)
                if sh in STATOPS and not (isinstance(c[0], dict) and uncast(c[0])["k"] == "This"):
                    return self.statop(sh, o, [self.ex(x, env) for x in c[1:]], n)
            f = self.db.fns.get(n.get("f"))
            vs = [self.ex(x, env) for x in c[1:]]
            if f is not None and f.body is not None and isinstance(o, Obj):
                try:
                    return self.inline(f, o, vs)
                except Unsup:
                    if n.get("cm"):
                        return Opq("%s.%s()" % (o.path, sh))
                    raise
            if n.get("cm") and isinstance(o, Obj):
                return Obj("%s.%s()" % (o.path, sh), t, o.idx)
            raise Unsup("call " + sh)
        if sh in ("exp", "log", "log1p", "fabs", "abs", "fabsf", "signbit", "isnan", "infinity", "max", "min"):
            vs = [self.ex(x, env) for x in c]
            if sh == "infinity":
                return Poly.a("inf")
            v = [self.num(x) for x in vs]
            if sh == "exp":
                if isinstance(v[0], LogV):
                    return v[0].p
                return Poly.a("exp(%s)" % v[0])
            if sh == "log":
                return LogV(v[0]) if isinstance(v[0], Poly) else self._no("log log")
            if sh == "log1p":
                return LogV(Poly.c(1) + v[0]) if isinstance(v[0], Poly) else self._no("log log")
            if sh in ("fabs", "abs", "fabsf") and isinstance(v[0], Poly):
                return Poly.a("|%s|" % v[0]) if v[0].const() is None else Poly.c(abs(v[0].const()))
            return Poly.a("%s(%s)" % (sh, ",".join(str(x) for x in v)))
        f = self.db.fns.get(n.get("f"))
        vs = [self.ex(x, env) for x in c]
        if f is not None and f.body is not None and not n.get("ind"):
            return self.inline(f, None, vs)
        raise Unsup("call " + sh)

    def srcof(self, path):
        r, rest = self.root(path)
        while r in self.copies:
            path = self.copies[r] + rest
            r, rest = self.root(path)
        return path

    def statop(self, sh, o, vs, n):
        """a held statistic combined through its own interface."""
        nm = o.path
        if sh == "PlusEquals":
            s = self.num(vs[1]) if len(vs) > 1 else Poly.c(1)
            self.write(Obj(nm, "", o.idx), self.read(Obj(nm)) + s * self.read(Obj(vs[0].path)))
        elif sh == "Subtract":
            self.write(Obj(vs[1].path, "", vs[1].idx), self.read(Obj(nm)) - self.read(Obj(vs[0].path)))
        elif sh == "TimesEquals":
            self.write(Obj(nm, "", o.idx), self.read(Obj(nm)) * self.num(vs[0]))
        elif sh == "IsAdditiveIdentity":
            return self.zero(self.read(Obj(nm)))
        return None


STATOPS = {"PlusEquals", "Subtract", "TimesEquals", "IsAdditiveIdentity"}
REPO_DIRS = ("utils/", "decoder/", "training/", "mteval/", "extractor/", "word-aligner/", "klm/")
