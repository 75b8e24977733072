"""Element-wise agreement of a two-sided archive: the reader's element loops invert the writer's.

The writer's and the reader's syntax trees are evaluated over a small abstract domain: each member that is a
vector of integers is a short list of small integers, the archive is the list of items, TD::Convert is an
uninterpreted bijection between non-negative ids and strings, every other value is unknown.  Nothing is
compiled or run; a statement outside this fragment ends the evaluation without a verdict."""
import itertools
from facts import children
from ir import uncast, is_const, base_type


class Skip(Exception):
    pass


class Wrong(Exception):
    def __init__(self, n, what):
        self.n, self.what = n, what


class Ret(Exception):
    pass


class Brk(Exception):
    pass


class Cont(Exception):
    pass


U = ("?",)          # unknown value


class Ev:
    def __init__(self, fn, fields, tape, out):
        self.fn, self.F, self.tape, self.out = fn, fields, tape, out
        self.env = {}
        self.pos = 0
        self.steps = 0
        self.ar = {p["d"] for p in fn.params if "archive" in p["t"]}
        if not self.ar:
            raise Skip()

    def run(self):
        try:
            self.st(self.fn.body)
        except Ret:
            pass

    # -- statements
    def st(self, s):
        if s is None:
            return
        self.steps += 1
        if self.steps > 4000:
            raise Skip()
        k = s["k"]
        if k == "Block":
            for x in children(s):
                self.st(x)
        elif k == "Decl":
            for v in children(s):
                if v["k"] == "Var":
                    self.env[v["d"]] = self.wrap(self.ex(children(v)[0]), v["t"]) if children(v) else U
                    if "&" in v["t"]:
                        raise Skip()
        elif k == "If":
            c = s["c"]
            self.st(c[0])
            self.st(c[1])
            self.st(c[3] if self.truth(c[2]) else c[4])
        elif k in ("For", "While"):
            c = s["c"]
            init, cond, inc, body = (c[0], c[2], c[3], c[4]) if k == "For" else (None, c[1], None, c[2])
            if init is not None:
                self.st(init) if init["k"] in ("Decl", "Block") else self.ex(init)
            while cond is None or self.truth(cond):
                try:
                    self.st(body)
                except Brk:
                    break
                except Cont:
                    pass
                if inc is not None:
                    self.ex(inc)
                self.steps += 1
                if self.steps > 4000:
                    raise Skip()
        elif k == "ForRange":
            r = s["c"][0]
            while r is not None and r["k"] in ("Decl", "Var"):
                r = children(r)[0]
            l = self.vec(r)
            if l is None or (not self.out and "&" in s["var"]["t"]):
                raise Skip()
            for v in list(l):
                self.env[s["var"]["d"]] = v
                try:
                    self.st(s["c"][1])
                except Brk:
                    break
                except Cont:
                    pass
        elif k == "Return":
            raise Ret()
        elif k == "Break":
            raise Brk()
        elif k == "Continue":
            raise Cont()
        elif k == "Null":
            pass
        elif k in ("Do", "Switch", "Try", "Goto", "OMP", "Label", "Case", "Default"):
            raise Skip()
        else:
            self.ex(s)

    def truth(self, e):
        v = self.ex(e)
        if v is U or isinstance(v, tuple):
            raise Skip()
        return bool(v)

    # -- places
    def vec(self, e):
        e = uncast(e)
        if e is not None and e["k"] == "Mem" and e.get("n") in self.F and uncast(e["c"][0])["k"] == "This":
            return self.F[e["n"]]
        return None

    def place(self, e):
        e = uncast(e)
        if e["k"] == "Ref" and e["dk"] in ("local", "param"):
            return ("l", e["d"])
        if e["k"] == "Mem":
            return ("m", e.get("n"))
        if e["k"] in ("Sub", "OCall") and len(e["c"]) == 2 and (e["k"] == "Sub" or e.get("op") == "[]"):
            l = self.vec(e["c"][0])
            if l is None:
                return ("?",)
            i = self.ex(e["c"][1])
            if not isinstance(i, int):
                raise Skip()
            if not 0 <= i < len(l):
                raise Wrong(e, "an element outside the vector is accessed")
            return ("v", l, i)
        if e["k"] == "MCall" and (e.get("fn") or "").endswith("::at") and len(e["c"]) == 2:
            return self.place({"k": "Sub", "c": e["c"]})
        return ("?",)

    def get(self, p):
        if p[0] == "l":
            return self.env.get(p[1], U)
        if p[0] == "v":
            return p[1][p[2]]
        return U

    def put(self, p, v, t):
        v = self.wrap(v, t)
        if p[0] == "l":
            self.env[p[1]] = v
        elif p[0] == "v":
            p[1][p[2]] = v

    def wrap(self, v, t):
        if not isinstance(v, int):
            return v
        t = base_type(t)
        b = {"unsigned int": 32, "unsigned long": 64, "unsigned short": 16, "unsigned char": 8}.get(t)
        if b:
            return v & ((1 << b) - 1)
        if t == "bool":
            return int(bool(v))
        b = {"int": 32, "short": 16, "long": 64, "char": 8, "signed char": 8}.get(t)
        if b:
            return ((v + (1 << b - 1)) & ((1 << b) - 1)) - (1 << b - 1)
        return v

    # -- expressions
    def ex(self, e):
        e0 = e
        if e is None:
            return U
        k = e["k"]
        c = is_const(e)
        if c is not None and isinstance(c, int):
            return c
        if k in ("Cast", "ICast"):
            return self.wrap(self.ex(e["c"][0]), e.get("t", ""))
        e = uncast(e)
        k = e["k"]
        op = e.get("op")
        cs = children(e)
        if k in ("Bin", "OCall") and op in ("&", "<<", ">>") and len(cs) == 2 and self.chain(e):
            return U
        if k == "Bin":
            if op == "=":
                v = self.ex(cs[1])
                self.put(self.place(cs[0]), v, cs[0].get("t", ""))
                return v
            if op in ("&&", "||"):
                a = self.truth(cs[0])
                if a == (op == "||"):
                    return int(a)
                return int(self.truth(cs[1]))
            if op == ",":
                self.ex(cs[0])
                return self.ex(cs[1])
            return self.arith(op, self.ex(cs[0]), self.ex(cs[1]), e.get("t", ""))
        if k == "CAssign":
            p = self.place(cs[0])
            v = self.arith(op[:-1], self.get(p), self.ex(cs[1]), cs[0].get("t", ""))
            self.put(p, v, cs[0].get("t", ""))
            return v
        if k == "Un":
            if op in ("++", "--"):
                p = self.place(cs[0])
                v = self.get(p)
                if isinstance(v, int):
                    self.put(p, v + (1 if op == "++" else -1), cs[0].get("t", ""))
                return v if e.get("post") else self.get(p)
            v = self.ex(cs[0])
            if not isinstance(v, int):
                return U
            return self.wrap({"-": -v, "!": int(not v), "~": ~v, "+": v}.get(op, U), e.get("t", ""))
        if k == "Cond":
            return self.ex(cs[1] if self.truth(cs[0]) else cs[2])
        if k in ("Sub",) or k == "OCall" and op == "[]":
            return self.get(self.place(e))
        if k == "Ref" and e["dk"] in ("local", "param"):
            return self.env.get(e["d"], U)
        if k == "MCall":
            m = (e.get("fn") or "").split("::")[-1]
            l = self.vec(cs[0]) if cs else None
            if l is not None:
                if m == "size":
                    return len(l)
                if m == "empty":
                    return int(not l)
                if m in ("resize",):
                    n = self.ex(cs[1])
                    if not isinstance(n, int) or n > 64:
                        raise Skip()
                    l[:] = (l + [0] * n)[:n]
                    return U
                if m == "clear":
                    l[:] = []
                    return U
                if m == "push_back":
                    l.append(self.ex(cs[1]))
                    return U
                if m in ("reserve", "shrink_to_fit", "capacity"):
                    return U
                raise Skip()
            for a in cs:
                if self.vec(a) is not None:
                    raise Skip()
                self.ex(a)
            return U
        if k == "Call" and (e.get("fn") or "") == "TD::Convert" and len(cs) == 1:
            v = self.ex(cs[0])
            if isinstance(v, int):
                if v < 0 or v >= 1 << 31:
                    raise Wrong(e, "a negative id reaches the dictionary")
                return ("S", v)
            if isinstance(v, tuple) and v[0] == "S":
                return v[1]
            return U
        if k in ("Call", "OCall", "Ctor"):
            vs = [self.ex(a) for a in cs]
            if any(self.vec(a) is not None for a in cs):
                raise Skip()
            if k == "OCall" and op == "=" and len(cs) == 2:
                self.put(self.place(cs[0]), vs[1], "")
            if k == "Ctor" and len(vs) == 1:
                return vs[0]
            return U
        if k == "Mem":
            return U
        if k in ("Lambda", "New", "Delete"):
            raise Skip()
        return U

    def chain(self, e):
        items, x = [], e
        while x is not None and x["k"] in ("Bin", "OCall") and x.get("op") in ("&", "<<", ">>") and len(children(x)) == 2:
            items.append(x["c"][1])
            x = uncast(x["c"][0])
        if x is None or x["k"] != "Ref" or x.get("d") not in self.ar:
            return False
        for a in reversed(items):
            if self.out:
                l = self.vec(a)
                self.tape.append((self.ex(a) if l is None else ("V", list(l)), a))
            else:
                if self.pos >= len(self.tape):
                    raise Skip()
                v = self.tape[self.pos][0]
                self.pos += 1
                l = self.vec(a)
                if l is not None:
                    if not isinstance(v, tuple) or v[0] != "V":
                        raise Skip()
                    l[:] = v[1]
                    continue
                if isinstance(v, tuple) and v[0] == "V":
                    raise Skip()
                t = base_type(uncast(a).get("t", ""))
                want_s = "basic_string" in t or t.endswith("string")
                if isinstance(v, tuple) and v[0] == "S" and not want_s:
                    raise Wrong(a, "a string written for the element is read back as a number")
                if isinstance(v, int) and want_s:
                    raise Wrong(a, "a number written for the element is read back as a string")
                self.put(self.place(a), v, uncast(a).get("t", ""))
        return True

    def arith(self, op, a, b, t):
        if not isinstance(a, int) or not isinstance(b, int):
            return U
        try:
            v = {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "<<": lambda: a << b, ">>": lambda: a >> b,
                 "|": lambda: a | b, "&": lambda: a & b, "^": lambda: a ^ b, "<": lambda: int(a < b), ">": lambda: int(a > b),
                 "<=": lambda: int(a <= b), ">=": lambda: int(a >= b), "==": lambda: int(a == b), "!=": lambda: int(a != b)}[op]()
        except (KeyError, ValueError):
            return U
        return self.wrap(v, t)


INTS = ("int", "unsigned int", "short", "long")


def check(db, wf, rf, fields, vary):
    """-> (ran, None | (fn, node, text)).  fields: members that are vectors of integers; `vary` takes all values."""
    n = 0
    for size in (1, 3):
        for vals in itertools.product((-2, -1, 0, 1, 2), repeat=size):
            F = {f: list(vals) if f == vary else [] for f in fields}
            tape = []
            where = wf
            try:
                Ev(wf, F, tape, True).run()
                where = rf
                G = {f: [] for f in fields}
                Ev(rf, G, tape, False).run()
            except Wrong as w:
                return n, (where, w.n, w.what + " (elements %s)" % (list(vals),))
            n += 1
            for f in sorted(fields):
                if any(isinstance(x, tuple) for x in G[f]):
                    raise Skip()
                if G[f] != F[f]:
                    return n, (rf, None, "the elements %s of %s come back as %s" % (F[f], f, G[f]))
    return n, None
