"""Finite-domain evaluator for comparison-only functions.

Comparators, equality and hash functions are evaluated over abstract objects whose
attributes ("leaves": whatever the function reads from one argument) range over a small
ordered domain.  The attribute set is discovered while evaluating.  The functions are
never compiled or run: this interprets the exported syntax trees."""
import itertools
import re
from facts import children
from ir import is_const, uncast, base_type


class Unsupported(Exception):
    pass


class Need(Exception):
    def __init__(self, root, name, dom):
        self.root, self.name, self.dom = root, name, dom


class Obj:
    __slots__ = ("root", "path", "off", "t")

    def __init__(self, root, path, t="", off=None):
        self.root, self.path, self.t, self.off = root, path, t, off

    def __repr__(self):
        return "%s:%s%s" % (self.root, self.path, "" if self.off is None else "+%s" % self.off)


class Term(tuple):
    pass


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


WRAP = {"unsigned int": 1 << 32, "unsigned long": 1 << 64, "unsigned long long": 1 << 64, "unsigned char": 1 << 8,
        "unsigned short": 1 << 16}
SIGNED = {"int": 32, "long": 64, "short": 16, "signed char": 8, "char": 8, "long long": 64}


SCAL = set(WRAP) | set(SIGNED) | {"bool", "double", "float"}


def ptrlike(t):
    t = t.rstrip()
    return t.endswith("*") or t.endswith("]") or t.endswith("*const") or "__normal_iterator" in t


_loopy = {}


def loopy(f):
    v = _loopy.get(f.key)
    if v is None:
        v = _loopy[f.key] = any(x["k"] in ("For", "While", "Do", "ForRange") for x in f.nodes())
    return v


class Ev:
    def __init__(self, db, val, consts=(), hashmode=False, maxsteps=20000):
        self.db, self.val, self.hashmode = db, val, hashmode
        self.steps, self.maxsteps, self.depth = 0, maxsteps, 0
        self.touched = set()

    # ---- leaves
    def leaf(self, o, t=None):
        t = (t or o.t or "").replace("const ", "").replace("&", "").strip()
        name = o.path + ("" if o.off is None else "+%s" % o.off)
        v = self.val.get((o.root, name))
        if v is None and self.hashmode:
            v = self.determined(o.root, name)
        if v is None and self.hashmode and name in ("", "*"):
            raise Unsupported("hash of the whole object")
        if v is None:
            dom = (0, 1) if t == "bool" else (0, 1, 2)
            if t in ("double", "float", "long double") and self.val.get("eps"):
                dom = (0, 0.6 * self.val["eps"], 1.2 * self.val["eps"])
            raise Need(o.root, name, dom)
        self.touched.add((o.root, name))
        return v

    def determined(self, root, name):
        """(hash mode) a whole is determined by its known parts, a part by its known whole."""
        if (root, "") in self.val and (self.val.get("whole") or re.match(r"\[|\*$|\.size\(\)|\+|$", name)):
            return Term((self.val[(root, "")], name))
        n0 = re.sub(r"(\+\d+|&|\*)+$", "", name)
        if (root, n0) in self.val:
            return Term((self.val[(root, n0)], name))
        parts = sorted((k[1], v) for k, v in self.val.items() if k[0] == root and k != 'whole' and k[1].startswith(n0) and len(k[1]) > len(n0) and (k[1][len(n0)] in "[*+" or k[1] == n0 + ".size()") and "." not in k[1][len(n0):].replace(".size()", ""))
        if parts and n0:
            return Term(("parts",) + tuple(parts))
        for k, v in self.val.items():
            if k[0] == root and k[1] and name.startswith(k[1]) and name[len(k[1])] in "[*.+&":
                return Term((v, name[len(k[1]):]))
        return None

    def scalar(self, v, t=None):
        if isinstance(v, Obj):
            return self.leaf(v, t)
        return v

    def truth(self, v, t=None):
        v = self.scalar(v, t)
        if isinstance(v, Term):
            raise Unsupported("branch on an uninterpreted value")
        return bool(v)

    # ---- calls
    def writeback(self, n, env, vals):
        """non-const reference parameters change the caller's local."""
        c = n.get("c") or []
        off = 1 if (n["k"] == "MCall" or n.get("mem")) else 0
        for i, t in enumerate(n.get("pt") or []):
            if t.rstrip().endswith("&") and not t.startswith("const ") and i + off < len(c):
                a = uncast(c[i + off])
                if a["k"] == "Ref" and a["dk"] in ("local", "param") and a["d"] in env and not isinstance(env[a["d"]], dict):
                    v = vals(i)
                    if v is not None:
                        env[a["d"]] = v

    def call(self, fn, this, args, back=None):
        self.depth += 1
        if self.depth > 12:
            self.depth -= 1
            raise Unsupported("call depth")
        env = {p["d"]: a for p, a in zip(fn.params, args)}
        env["this"] = this
        try:
            self.stmt(fn.body, env)
        except Ret as r:
            return r.v
        finally:
            self.depth -= 1
            if back is not None:
                back.extend(env.get(p["d"]) for p in fn.params)
        return None

    def stmt(self, s, env):
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Unsupported("step bound")
        if s is None:
            return
        k = s["k"]
        if k == "Block":
            for x in s.get("c", []):
                self.stmt(x, env)
        elif k == "Return":
            raise Ret(self.ex(s["c"][0], env) if s.get("c") and s["c"][0] is not None else None)
        elif k == "If":
            for x in s["c"][:2]:
                self.stmt(x, env)
            if self.truth(self.ex(s["c"][2], env), s["c"][2].get("t")):
                self.stmt(s["c"][3], env)
            else:
                self.stmt(s["c"][4], env)
        elif k == "Decl":
            for v in s["c"]:
                if v["k"] == "Var":
                    rec = self.db.recs.get(base_type(v["t"]))
                    if rec and (rec.get("union") or rec.get("agg")) and (not v.get("c") or (v["c"][0]["k"] == "Ctor" and not v["c"][0].get("c"))):
                        env[v["d"]] = {"__union": 1} if rec.get("union") else {}
                        continue
                    env[v["d"]] = self.ex(v["c"][0], env) if v.get("c") else ({} if v["t"].endswith("]") else None)
        elif k in ("For", "While", "Do"):
            if k == "For":
                self.stmt(s["c"][0], env)
                cond, inc, body = s["c"][2], s["c"][3], s["c"][4]
            elif k == "While":
                cond, inc, body = s["c"][1], None, s["c"][2]
            else:
                cond, inc, body = s["c"][1], None, s["c"][0]
            first = k == "Do"
            while True:
                self.steps += 1
                if self.steps > self.maxsteps:
                    raise Unsupported("loop bound")
                once = False
                if not first and cond is not None:
                    cv = self.ex(cond, env)
                    if self.hashmode and isinstance(self.hv(cv), Term):
                        once = True     # trip count fixed by already-known data: read the body once
                    elif not self.truth(cv, cond.get("t")):
                        break
                first = False
                try:
                    self.stmt(body, env)
                except Brk:
                    break
                except Cont:
                    pass
                if once:
                    break
                if inc is not None:
                    self.ex(inc, env)
        elif k == "ForRange":
            o = self.ex(s["c"][0], env)
            if not isinstance(o, Obj):
                raise Unsupported("range-for")
            own = self.own_range(s["c"][0].get("t", ""))
            p = e = None
            if own:
                this = ThisObj(o.root, o.path, o.t)
                p, e = self.call(own[0], this, []), self.call(own[1], this, [])
                if not isinstance(p, Obj) or not isinstance(e, Obj):
                    raise Unsupported("range-for")
            else:
                n = self.scalar(Obj(o.root, o.path + ".size()"))
            i = -1
            while True:
                self.steps += 1
                if self.steps > self.maxsteps:
                    raise Unsupported("step bound")
                i += 1
                if own:
                    if not self.truth(self.cmp("!=", p, e, None, None)):
                        break
                    env[s["var"]["d"]] = self.deref(p, s["var"]["t"])
                    p = self.addptr(p, 1)
                else:
                    if i >= (1 if isinstance(n, Term) else int(n)):
                        break
                    env[s["var"]["d"]] = Obj(o.root, o.path + ("[%d]" % i if i else "*"), s["var"]["t"])
                try:
                    self.stmt(s["c"][1], env)
                except Brk:
                    break
                except Cont:
                    pass
        elif k == "Break":
            raise Brk()
        elif k == "Continue":
            raise Cont()
        elif k == "Null":
            pass
        elif k == "Switch":
            v = self.scalar(self.ex(s["c"][2], env))
            body = s["c"][3]
            on = False
            seq = []

            def flat(x):
                if x["k"] in ("Case", "Default"):
                    seq.append(x)
                    flat(x["c"][-1]) if x["c"][-1] is not None else None
                else:
                    seq.append(x)
            for x in body.get("c", []):
                flat(x)
            has = any(x["k"] == "Case" and is_const(x["c"][0]) == v for x in seq)
            try:
                for x in seq:
                    if x["k"] == "Case":
                        on = on or is_const(x["c"][0]) == v
                    elif x["k"] == "Default":
                        on = on or not has
                    elif on:
                        self.stmt(x, env)
            except Brk:
                pass
        elif k in ("Try", "Goto", "Label", "OMP", "OtherStmt"):
            raise Unsupported(k)
        else:
            self.ex(s, env)

    def wrap(self, v, t):
        t = (t or "").replace("const ", "").strip()
        if isinstance(v, (int, float)) and not isinstance(v, bool):
            if t in WRAP:
                return int(v) % WRAP[t]
            if t in SIGNED:
                b = SIGNED[t]
                v = int(v) & ((1 << b) - 1)
                return v - (1 << b) if v >> (b - 1) else v
        return v

    def roots(self, vs):
        r = set()
        for v in vs:
            if isinstance(v, Obj):
                r.add(v.root)
            elif isinstance(v, Term):
                r |= self.roots(v)
            elif isinstance(v, dict):
                r |= self.roots(v.values())
        return r

    def own_range(self, t):
        """begin() and end() of a range whose class is the project's own."""
        t = re.sub(r"^const ", "", t.replace("&", "").strip())
        t = re.sub(r", \d+>$", ">", t)
        if t.startswith("std::"):
            return None
        r = []
        for nm in ("begin", "end"):
            fs = [f for f in self.db.by_name.get(t + "::" + nm, []) if not f.params]
            fs = [f for f in fs if f.h.get("const")] or fs
            if not fs:
                return None
            r.append(fs[0])
        return r

    def txt(self, v):
        if isinstance(v, Obj):
            return v.path + ("" if v.off is None else "+%s" % v.off)
        return repr(v)

    def merged(self, name, vs, t):
        """opaque function of at most one argument's data -> a new leaf object."""
        r = self.roots(vs) - {"K"}
        if len(r) > 1:
            raise Unsupported("opaque function of both arguments: " + name)
        return Obj(r.pop() if r else "K", "%s(%s)" % (name, ",".join(self.txt(v) for v in vs)), t)

    def lval(self, n, env):
        n = uncast(n)
        if n["k"] == "Ref" and n["dk"] in ("local", "param"):
            return n["d"]
        raise Unsupported("assignment to " + n["k"])

    def deref(self, v, t):
        if isinstance(v, Obj):
            if v.off:
                if isinstance(v.off, Term):
                    return Obj(v.root, v.path + "[each]", t)
                if not -1 <= v.off <= 6:
                    raise Unsupported("subscript range")
                return Obj(v.root, v.path + "[%s]" % v.off, t)
            return Obj(v.root, v.path + "*", t)
        raise Unsupported("deref")

    def cmp(self, op, a, b, at, bt):
        if isinstance(a, Obj) and isinstance(b, Obj) and (a.off is not None or b.off is not None) and a.root == b.root and a.path == b.path:
            a, b = a.off or 0, b.off or 0
        if isinstance(a, Term) or isinstance(b, Term):
            if self.hashmode and not (isinstance(a, Term) and isinstance(b, Term)):
                return Term((op, self.hv(a), self.hv(b)))
            if op in ("==", "!="):
                return (a == b) == (op == "==")
            raise Unsupported("order of uninterpreted values")
        x, y = self.scalar(a, at), self.scalar(b, bt)
        if x is None or y is None:
            raise Unsupported("undefined value")
        return {"<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y, "==": x == y, "!=": x != y}[op]

    def addptr(self, a, k):
        if isinstance(a.off, Term) or isinstance(k, Term):
            return Obj(a.root, a.path, a.t, Term(("+", a.off, k)))
        return Obj(a.root, a.path, a.t, (a.off or 0) + k)

    def arith(self, op, a, b, n):
        la, lb = n["c"][0].get("t", ""), n["c"][1].get("t", "")
        if isinstance(a, Obj) and ptrlike(la) and op in ("+", "-"):
            if isinstance(b, Obj) and ptrlike(lb):
                if a.root == b.root and a.path == b.path:
                    return (a.off or 0) - (b.off or 0)
                raise Unsupported("pointer difference")
            kk = self.scalar(b, lb)
            if isinstance(kk, Term):
                return self.addptr(a, kk)
            return self.addptr(a, int(kk) if op == "+" else -int(kk))
        if isinstance(b, Obj) and ptrlike(lb) and op == "+":
            return self.addptr(b, int(self.scalar(a, la)))
        if isinstance(a, Term) or isinstance(b, Term) or (self.hashmode and op not in ("+", "-")):
            return Term((op, self.hv(a), self.hv(b)))
        x, y = self.scalar(a, la), self.scalar(b, lb)
        if x is None or y is None:
            raise Unsupported("undefined value")
        if isinstance(x, (Term, dict)) or isinstance(y, (Term, dict)):
            return Term((op, self.hv(x), self.hv(y)))
        if op == "+":
            r = x + y
        elif op == "-":
            r = x - y
        elif op == "*":
            r = x * y
        elif op == "/":
            if y == 0:
                raise Unsupported("division by zero")
            r = x // y if isinstance(x, int) and isinstance(y, int) else x / y
        elif op == "%":
            if y == 0:
                raise Unsupported("mod zero")
            r = x % y
        elif op in ("&", "|", "^", "<<", ">>"):
            x, y = int(x), int(y)
            r = {"&": x & y, "|": x | y, "^": x ^ y, "<<": x << min(y, 64), ">>": x >> y}[op]
        else:
            raise Unsupported("op " + op)
        return self.wrap(r, n.get("t"))

    def hv(self, v):
        if isinstance(v, dict):
            return Term(("array",) + tuple((i, self.hv(x)) for i, x in sorted(v.items(), key=str)))
        return self.scalar(v) if isinstance(v, Obj) else v

    def ex(self, n, env):
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Unsupported("step bound")
        k = n["k"]
        t = n.get("t", "")
        if k in ("Int", "Char", "Bool"):
            return int(n["v"])
        if k == "Float":
            return float(n["v"])
        if k == "NullPtr":
            return 0
        if k == "Str":
            return Obj("K", repr(n.get("v")), t)
        if k == "ZeroInit":
            return 0
        if k == "This":
            return env.get("this") or Obj("K", "this", t)
        c = n.get("c") or []
        if k in ("ICast", "Cast"):
            v = self.ex(c[0], env)
            if isinstance(v, Obj):
                if ptrlike(t):
                    return type(v)(v.root, v.path, t, v.off)
                if k == "ICast" or t in WRAP or t in SIGNED or t in ("double", "float", "bool"):
                    if self.hashmode:
                        return v
                    v = self.scalar(v, c[0].get("t"))
            if t == "bool" and isinstance(v, (int, float)):
                return int(bool(v))
            return self.wrap(v, t)
        if k == "Ref":
            if n["dk"] in ("local", "param"):
                if n["d"] in env:
                    v = env[n["d"]]
                    if v is None:
                        raise Unsupported("uninitialised local")
                    return v
                raise Unsupported("captured variable")
            if "v" in n:
                return int(n["v"])
            if n["dk"] == "fn":
                return Term(("fn", n["f"]))
            return Obj("K", "::" + str(n.get("q", n["n"])), t)
        if k == "Mem":
            if "v" in n:
                return int(n["v"])
            o = self.ex(c[0], env) if c else env.get("this")
            if isinstance(o, dict):
                if n["n"] in o:
                    return o[n["n"]]
                if o.get("__union"):
                    x = [v for kk, v in o.items() if kk != "__union"]
                    if len(x) == 1:
                        return self.merged("bits:" + n["n"], x, t) if not self.hashmode else Term(("bits", self.hv(x[0])))
                raise Unsupported("unset member")
            if not isinstance(o, Obj):
                raise Unsupported("member of non-object")
            p = o.path
            if n.get("a"):
                p += "*" if not o.off else "[%s]" % o.off
            return Obj(o.root, p + "." + n["n"], t)
        if k == "Sub" or (k == "OCall" and n["op"] == "[]"):
            f = self.db.fns.get(n.get("f")) if k == "OCall" else None
            o, i = self.ex(c[0], env), self.ex(c[1], env)
            if isinstance(o, dict):
                return o[self.scalar(i)]
            if f is not None and isinstance(o, Obj) and isinstance(i, (int, Obj)):
                try:
                    return self.call(f, o if isinstance(o, ThisObj) else ThisObj(o.root, o.path, o.t), [i])
                except Unsupported:
                    pass
            if not isinstance(o, Obj):
                raise Unsupported("subscript of non-object")
            if isinstance(i, Obj):
                if i.root == o.root == "K":
                    return Obj("K", "%s[%s]" % (o.path, i.path), t)
                if o.root == "K":
                    return Obj(i.root, "%s[%s]" % (o.path, self.txt(i)), t)
                i = self.scalar(i, c[1].get("t"))
            if isinstance(i, int) and i >= 1 << 63:
                i -= 1 << 64
            if isinstance(i, (Term, float)) or i is None:
                raise Unsupported("subscript value")
            i += o.off or 0
            if not -1 <= i <= 6:
                raise Unsupported("subscript range")
            return Obj(o.root, o.path + "*" if i == 0 else "%s[%s]" % (o.path, i), t)
        if k == "Un":
            op = n["op"]
            if op in ("++", "--"):
                d = self.lval(c[0], env)
                old = env[d]
                if isinstance(old, Obj):
                    if not ptrlike(c[0].get("t", "")):
                        old = self.scalar(old, c[0].get("t"))
                        new = old + (1 if op == "++" else -1)
                    else:
                        new = self.addptr(old, 1 if op == "++" else -1)
                        old = Obj(old.root, old.path, old.t, old.off or 0)
                else:
                    new = self.wrap(old + (1 if op == "++" else -1), t)
                env[d] = new
                return old if n.get("post") else new
            v = self.ex(c[0], env)
            if op == "*":
                return self.deref(v, t)
            if op == "&":
                if isinstance(v, Obj):
                    return Obj(v.root, v.path[:-1] if v.path.endswith("*") else v.path + "&", t)
                raise Unsupported("&")
            if op == "!":
                return int(not self.truth(v, c[0].get("t")))
            if isinstance(v, Term) or (self.hashmode and isinstance(v, Obj)):
                return Term((op, self.hv(v)))
            v = self.scalar(v, c[0].get("t"))
            if op == "-":
                return self.wrap(-v, t)
            if op == "~":
                return self.wrap(~int(v), t)
            if op == "+":
                return v
            raise Unsupported("unary " + op)
        if k == "Bin":
            op = n["op"]
            if op in ("&&", "||"):
                a = self.truth(self.ex(c[0], env), c[0].get("t"))
                if op == "&&":
                    return int(a and self.truth(self.ex(c[1], env), c[1].get("t")))
                return int(a or self.truth(self.ex(c[1], env), c[1].get("t")))
            if op == ",":
                self.ex(c[0], env)
                return self.ex(c[1], env)
            if op == "=":
                v = self.ex(c[1], env)
                l = uncast(c[0])
                if l["k"] == "Mem" and l.get("c") and isinstance(env.get(l["c"][0].get("d")), dict):
                    o = env[l["c"][0]["d"]]
                    if o.get("__union"):
                        o.clear()
                        o["__union"] = 1
                    o[l["n"]] = v
                    return v
                if l["k"] == "Sub" and isinstance(env.get(uncast(l["c"][0]).get("d")), dict):
                    env[uncast(l["c"][0])["d"]][self.scalar(self.ex(l["c"][1], env))] = v
                    return v
                env[self.lval(c[0], env)] = v
                return v
            a, b = self.ex(c[0], env), self.ex(c[1], env)
            if op in ("<", ">", "<=", ">=", "==", "!="):
                r = self.cmp(op, a, b, c[0].get("t"), c[1].get("t"))
                return r if isinstance(r, Term) else int(r)
            return self.arith(op, a, b, n)
        if k == "CAssign":
            d = self.lval(c[0], env)
            v = self.arith(n["op"][:-1], self.ex(c[0], env), self.ex(c[1], env), n)
            env[d] = v
            return v
        if k == "Cond":
            return self.ex(c[1] if self.truth(self.ex(c[0], env), c[0].get("t")) else c[2], env)
        if k == "Sizeof":
            return int(n["v"])
        if k in ("OCall", "MCall", "Call", "Ctor"):
            return self.callex(n, env)
        if k == "Init" and len(c) == 1:
            return self.ex(c[0], env)
        if "v" in n:
            return int(n["v"])
        raise Unsupported("node " + k)

    def callex(self, n, env):
        k, c, t = n["k"], n.get("c") or [], n.get("t", "")
        fnm = n.get("fn", "") or ""
        short = fnm.split("::")[-1]
        if k == "Ctor":
            if len(c) == 1:
                return self.ex(c[0], env)
            vs = [self.ex(x, env) for x in c]
            if self.hashmode and vs:
                return Term((fnm,) + tuple(self.hv(v) for v in vs))
            if not vs:
                return Obj("K", "new:" + t, t)
            return self.merged("ctor:" + fnm, vs, t)
        if n.get("ind"):
            raise Unsupported("indirect call")
        vs = [self.ex(x, env) for x in c]
        if self.hashmode and k == "Call" and len(vs) >= 2 and (n.get("pt") or ["", ""])[0] == "const void *" and n["pt"][1] in ("unsigned long", "size_t", "int", "unsigned int"):
            n2 = vs[1] if not isinstance(vs[1], Obj) else self.scalar(vs[1])
            x = self.blob(vs[0], c[0], n2)
            if x is not None:
                return Term((fnm, x, n2) + tuple(self.hv(v) for v in vs[2:]))
        f = self.db.fns.get(n.get("f"))
        op = n.get("op") if k == "OCall" else None
        if op in ("++", "--", "->", "*", "!=", "==") and vs and all(isinstance(v, Obj) and v.off is not None for v in vs):
            f = None
        if short in ("begin", "cbegin", "end", "cend") and len(vs) == 1 and not t.rstrip().endswith("*"):
            f = None
        single = len(self.roots(vs) - {"K"}) <= 1
        if f is not None and not n.get("virt") and not (single and loopy(f) and not (self.hashmode and any(isinstance(v, Obj) and not ptrlike(v.t or "") and (v.t or "").replace("const ", "").replace("&", "").strip() not in SCAL for v in vs))):
            try:
                this, args = None, vs
                if (k == "MCall" or n.get("mem")) and vs:
                    this, args = vs[0], vs[1:]
                    if isinstance(this, Obj) and n.get("a") and not isinstance(this, ThisObj):
                        this = Obj(this.root, this.path + ("*" if not this.off else "[%s]" % this.off), this.t)
                    # `this` is a pointer in the callee; members are written this->x
                    if isinstance(this, Obj):
                        this = Obj(this.root, this.path + "&", this.t)
                        this = ThisObj(this.root, this.path[:-1], this.t)
                sv = self.steps
                back = []
                r = self.call(f, this, args, back)
                self.writeback(n, env, lambda i: back[i] if i < len(back) and not isinstance(back[i], Obj) else None)
                return r
            except Unsupported:
                self.depth = max(0, self.depth)
                r = self.roots(vs) - {"K"}
                if len(r) > 1:
                    raise
        ops = ("<", ">", "<=", ">=", "==", "!=")
        if op in ops and len(vs) == 2:
            r = self.cmp(op, vs[0], vs[1], c[0].get("t"), c[1].get("t"))
            return r if isinstance(r, Term) else int(r)
        if op in ("->",) and len(vs) == 1:
            return vs[0]
        if op == "*" and len(vs) == 1:
            return self.deref(vs[0], t)
        if op in ("++", "--") and c:
            d = self.lval(c[0], env)
            old = env[d]
            if not isinstance(old, Obj):
                raise Unsupported("++ on object")
            env[d] = self.addptr(old, 1 if op == "++" else -1)
            return env[d] if len(c) == 1 else Obj(old.root, old.path, old.t, old.off or 0)
        if op in ("+", "-") and len(vs) == 2 and isinstance(vs[0], Obj) and "iterator" in c[0].get("t", ""):
            return self.addptr(vs[0], int(self.scalar(vs[1])) * (1 if op == "+" else -1))
        if op == "!" and len(vs) == 1:
            return int(not self.truth(vs[0]))
        if op == "()" and len(vs) == 3:
            for nm, o2 in (("less", "<"), ("greater", ">"), ("equal_to", "=="), ("less_equal", "<=")):
                if fnm.startswith("std::%s::" % nm) or fnm.startswith("std::%s<" % nm):
                    return int(self.cmp(o2, vs[1], vs[2], None, None))
        if short in ("begin", "cbegin") and len(vs) == 1 and isinstance(vs[0], Obj):
            return Obj(vs[0].root, self.arrow(vs[0], n), t, 0)
        if short in ("end", "cend") and len(vs) == 1 and isinstance(vs[0], Obj):
            p = self.arrow(vs[0], n)
            sz = self.leaf(Obj(vs[0].root, p + ".size()", "int"))
            return Obj(vs[0].root, p, t, sz if isinstance(sz, Term) else int(sz))
        if short in ("size", "length") and len(vs) == 1 and isinstance(vs[0], Obj):
            return Obj(vs[0].root, self.arrow(vs[0], n) + ".size()", "int")
        if short == "empty" and len(vs) == 1 and isinstance(vs[0], Obj):
            return int(self.leaf(Obj(vs[0].root, self.arrow(vs[0], n) + ".size()", "int")) == 0)
        if short in ("front", "back", "top", "get", "data", "c_str") and len(vs) == 1 and isinstance(vs[0], Obj):
            if short == "front":
                return Obj(vs[0].root, self.arrow(vs[0], n) + "*", t)
            if short in ("data", "c_str", "get"):
                return Obj(vs[0].root, self.arrow(vs[0], n), t)
        if short == "compare" and len(vs) == 2:
            x, y = self.scalar(vs[0]), self.scalar(vs[1])
            return (x > y) - (x < y)
        if short in ("memcmp", "strcmp", "strncmp", "bcmp") and len(vs) >= 2:
            if len(vs) == 3 and len(c) == 3:
                n3 = vs[2] if not isinstance(vs[2], Obj) else self.scalar(vs[2])
                x, y = self.blob(vs[0], c[0], n3), self.blob(vs[1], c[1], n3)
                if x is not None and y is not None:
                    return (x > y) - (x < y)
            x, y = self.scalar(vs[0]), self.scalar(vs[1])
            return (x > y) - (x < y)
        if short == "equal" and fnm.startswith("std::") and len(vs) >= 3:
            return int(self.scalar(vs[0]) == self.scalar(vs[2]))
        if short == "lexicographical_compare" and len(vs) == 4:
            return int(self.scalar(vs[0]) < self.scalar(vs[2]))
        if short in ("abs", "fabs") and len(vs) == 1:
            return abs(self.scalar(vs[0]))
        if short in ("min", "max") and len(vs) == 2:
            x, y = self.scalar(vs[0]), self.scalar(vs[1])
            return min(x, y) if short == "min" else max(x, y)
        if self.hashmode:
            tv = Term((fnm, "out") + tuple(self.hv(v) for v in vs))
            self.writeback(n, env, lambda i: tv)
            try:
                m = self.merged(fnm if k != "OCall" else "op" + op, vs, t)
                if (m.root, m.path) in self.val:
                    return m
            except Unsupported:
                pass
            return Term((fnm,) + tuple(self.hv(v) for v in vs))
        return self.merged(fnm if k != "OCall" else "op" + op, vs, t)

    ELEM = {"char": 1, "unsigned char": 1, "bool": 1, "short": 2, "unsigned short": 2, "int": 4, "unsigned int": 4, "float": 4, "double": 8, "long": 8, "unsigned long": 8}
    nonblob = False

    def blob(self, v, n, size):
        """the elements covered by `size` bytes of a member array (three at most)."""
        u = n
        while u["k"] in ("ICast", "Cast") and len(u["c"]) == 1:
            u = u["c"][0]
        m = re.match(r"^(?:const )?([a-z ]+?) ?\[(\d+)\]$", u.get("t", ""))
        size = self.fold(size)
        if self.nonblob or not isinstance(v, Obj) or not m or m.group(1) not in self.ELEM or isinstance(size, Term) or not isinstance(size, (int, float)):
            return None
        k = -(-int(size) // self.ELEM[m.group(1)])
        return tuple(self.leaf(Obj(v.root, "%s[%d]" % (v.path, i) if i else v.path + "*", "bool")) for i in range(max(0, min(k, 3))))

    def fold(self, x):
        if isinstance(x, tuple) and len(x) == 3 and x[0] in ("+", "-", "*"):
            a, b = self.fold(x[1]), self.fold(x[2])
            if isinstance(a, (int, float)) and isinstance(b, (int, float)):
                return a + b if x[0] == "+" else a - b if x[0] == "-" else a * b
        return x

    def arrow(self, o, n):
        if isinstance(o, ThisObj):
            return o.path
        return o.path + ("*" if n.get("a") and not o.off else "" if not n.get("a") else "[%s]" % o.off)


class ThisObj(Obj):
    """the object a member function runs on: `this->x` must not add a deref marker."""
    __slots__ = ()


_ex0 = Ev.ex


def _ex(self, n, env):
    if n["k"] == "Mem" and n.get("c") and n["c"][0]["k"] == "This" and isinstance(env.get("this"), ThisObj):
        if "v" in n:
            return int(n["v"])
        o = env["this"]
        return Obj(o.root, o.path + "." + n["n"], n.get("t", ""))
    if n["k"] == "Un" and n["op"] == "*" and n["c"][0]["k"] == "This" and isinstance(env.get("this"), ThisObj):
        o = env["this"]
        return Obj(o.root, o.path, n.get("t", ""))
    return _ex0(self, n, env)


Ev.ex = _ex


class Relation:
    """evaluates a two-argument function over all profiles of discovered attributes."""

    def __init__(self, db, fns, limit=243):
        """fns: list of (name, callable(ev, A, B)) evaluated on the same attribute space."""
        self.db, self.limit = db, limit
        self.attrs, self.cfgs, self.whole, self.eps = [], [], False, None
        self.fns = fns

    def run(self):
        """-> list of (config, {name: matrix}) over profiles; raises Unsupported."""
        for _ in range(60):
            try:
                return self._all()
            except Need as e:
                tgt = self.cfgs if e.root == "K" else self.attrs
                if e.name in [a for a, _ in tgt]:
                    raise Unsupported("leaf loop " + e.name)
                tgt.append((e.name, e.dom))
                if len(tgt) > 9:
                    raise Unsupported("too many attributes: " + ", ".join(a for a, _ in tgt))
        raise Unsupported("attribute discovery did not converge")

    def profiles(self):
        doms = [d for _, d in self.attrs]
        size = 1
        for d in doms:
            size *= len(d)
        # shrink the least significant (last discovered) domains first; the closely spaced values last
        order = sorted(range(len(doms)), key=lambda i: (any(isinstance(v, float) for v in doms[i]), -i))
        for i in order:
            if size <= self.limit:
                break
            if len(doms[i]) > 2:
                size = size // len(doms[i]) * 2
                doms[i] = doms[i][:2]
        if size > 1024:
            raise Unsupported("attribute space too large (%d)" % size)
        return list(itertools.product(*doms))

    def _all(self):
        prof = self.profiles()
        res, bad = [], None
        for cf in itertools.product(*[d for _, d in self.cfgs]):
            kv = {("K", nm): v for (nm, _), v in zip(self.cfgs, cf)}
            if self.eps:
                kv["eps"] = self.eps
            out = {nm: [] for nm, _ in self.fns}
            names = [a for a, _ in self.attrs]
            la = [{("A", nm): v for nm, v in zip(names, p)} for p in prof]
            lb = [{("B", nm): v for nm, v in zip(names, p)} for p in prof]
            rows, why = {}, None
            una = {}
            for nm, fn in self.fns:
                if not hasattr(fn, "unary") and la and any(hasattr(g, "unary") for _, g in self.fns):
                    try:
                        for b in (lb[0], lb[-1]):
                            fn(Ev(self.db, {**kv, **la[0], **b, **({"whole": 1} if self.whole else {})}))
                    except (Unsupported, TypeError, ValueError, KeyError, OverflowError):
                        pass
            for nm, fn in self.fns:
                if hasattr(fn, "unary"):
                    try:
                        una[nm] = [fn.unary(Ev(self.db, {**kv, **a, **({"whole": 1} if self.whole else {})})) for a in la]
                    except (Unsupported, TypeError, ValueError, KeyError, OverflowError) as e:
                        if not isinstance(e, Unsupported):
                            e = Unsupported(repr(e))
                        if not self.cfgs:
                            raise e
                        why, rows = e, None
            for ia, a in enumerate(la):
                if rows is None:
                    break
                rows = {nm: [] for nm, _ in self.fns}
                for ib, b in enumerate(lb):
                    val = {**kv, **a, **b}
                    if self.whole:
                        val["whole"] = 1
                    for nm, fn in self.fns:
                        if nm in una:
                            rows[nm].append(una[nm][ia] == una[nm][ib])
                            continue
                        try:
                            rows[nm].append(bool(fn(Ev(self.db, val))))
                        except (Unsupported, TypeError, ValueError, KeyError, OverflowError) as e:
                            if not isinstance(e, Unsupported):
                                e = Unsupported(repr(e))
                            if not self.cfgs:
                                raise e
                            why = e
                            rows = None
                            break
                    if rows is None:
                        break
                if rows is None:
                    break
                for nm in rows:
                    out[nm].append(rows[nm])
            if rows is None:
                bad = why
                continue
            res.append((dict(zip([c for c, _ in self.cfgs], cf)), out))
        if not res:
            raise bad
        self.prof = prof
        return res

    def show(self, i):
        return "{" + ", ".join("%s=%s" % (a or "value", v) for (a, _), v in zip(self.attrs, self.prof[i])) + "}"


def epsilons(db, fn, depth=3, seen=None):
    """small floating constants a function (or what it calls) compares with: values
    closer together than these must be tried too."""
    seen = set() if seen is None else seen
    if fn.key in seen or depth < 0:
        return set()
    seen.add(fn.key)
    out = set()
    for n in fn.nodes():
        v = None
        if n["k"] == "Float":
            v = n.get("v")
        elif n["k"] == "Ref" and n.get("dk") in ("global", "slocal"):
            g = db.vars.get(n["n"]) or db.vars.get(n.get("q"))
            c = uncast(g["c"][0]) if g and g.get("c") and g["c"][0] is not None else None
            v = c.get("v") if c is not None and c["k"] == "Float" else None
        elif n["k"] in ("Call", "MCall", "OCall") and n.get("f") in db.fns:
            out |= epsilons(db, db.fns[n["f"]], depth - 1, seen)
        if v is not None:
            try:
                x = abs(float(v))
            except ValueError:
                continue
            if 0 < x < 0.5:
                out.add(x)
    return out


def call_fn(db, fn, swap=False):
    """callable(ev) evaluating fn(A,B) (member functions: A is *this, or a functor)."""
    ps = fn.params

    def go(ev):
        x, y = ("B", "A") if swap else ("A", "B")
        # a reference parameter names the object itself, a pointer parameter its address
        ts = [p["t"] for p in ps]
        if len(ps) == 2:
            return ev.truth(ev.call(fn, None, [Obj(x, "", ts[0]), Obj(y, "", ts[1])]))
        return ev.truth(ev.call(fn, ThisObj(x, "", fn.cls or ""), [Obj(y, "", ts[0])]))
    return go


def parallel(fn, items):
    """map over items in forked workers (results must be picklable)."""
    import multiprocessing as mp
    import os
    n = min(os.cpu_count() or 1, 8, len(items))
    if n < 2:
        return [fn(x) for x in items]
    global _pf, _pi
    _pf, _pi = fn, items
    with mp.get_context("fork").Pool(n) as pool:
        return pool.map(_pcall, range(len(items)), chunksize=1)


def _pcall(i):
    return _pf(_pi[i])
