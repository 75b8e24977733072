"""Helpers that the specification does not know are read in place.

engine/known_fns.json lists the functions of the tree the rules were written for. A
function that is not on the list (a helper somebody extracted, say) has no role of its
own in any rule, so its calls are replaced by its body wherever the call stands in a
position from which the body can be executed at the same moment: as a statement, as
the value that is returned, as the first thing a statement evaluates, or anywhere when
the helper is one expression. Returns inside if/else chains become branches; a helper
that returns out of a loop is inlined only where its value is returned at once.
A function with no calls left is not analysed on its own any more.
"""
import json, os, re

HERE = os.path.dirname(os.path.abspath(__file__))
_KNOWN = None


def bare(name):
    """qualified name without template arguments."""
    if "operator" in name:
        return name
    out, depth = [], 0
    for ch in name:
        if ch == "<":
            depth += 1
        elif ch == ">":
            depth -= 1
        elif depth == 0:
            out.append(ch)
    return "".join(out)


def known():
    global _KNOWN
    if _KNOWN is None:
        try:
            _KNOWN = set(json.load(open(os.path.join(HERE, "known_fns.json"))))
        except OSError:
            _KNOWN = set()
    return _KNOWN


def walk(n):
    st = [n]
    while st:
        x = st.pop()
        if x is None:
            continue
        if isinstance(x, list):
            st.extend(x)
            continue
        if not isinstance(x, dict):
            continue
        if "k" in x:
            yield x
        for k in ("c", "b", "cl", "par", "inits", "var", "body"):
            v = x.get(k)
            if isinstance(v, (dict, list)):
                st.append(v)


def fresh(n):
    """deep copy"""
    if isinstance(n, list):
        return [fresh(x) for x in n]
    if not isinstance(n, dict):
        return n
    return {k: fresh(v) if isinstance(v, (dict, list)) else v for k, v in n.items()}


SIMPLE = ("Int", "Bool", "Char", "Float", "Str", "NullPtr", "This", "Ref")


def simple(n):
    k = n["k"]
    if k in SIMPLE:
        return True
    if k == "Mem" or k in ("ICast", "Cast") or k == "Un" and n.get("op") in ("*", "&"):
        return len(n.get("c") or []) == 1 and n["c"][0] is not None and simple(n["c"][0])
    return False


def effects(n):
    for x in walk(n):
        k = x["k"]
        if k in ("Call", "MCall", "OCall", "Ctor", "New", "Delete", "CAssign", "Lambda") or k == "Un" and x.get("op") in ("++", "--") or k == "Bin" and x.get("op") == "=":
            return True
    return False


def assigned(body, d):
    for x in walk(body):
        k = x["k"]
        if k == "CAssign" or k == "Bin" and x.get("op") == "=" or k == "Un" and x.get("op") in ("++", "--", "&"):
            t = x["c"][0]
            while t is not None and t["k"] in ("ICast", "Cast"):
                t = t["c"][0]
            if t is not None and t["k"] == "Ref" and t.get("dk") == "param" and t.get("d") == d:
                return True
    return False


def has_return(s):
    if s is None:
        return False
    if s["k"] == "Return":
        return True
    if s["k"] == "Lambda":
        return False
    return any(has_return(x) for x in (s.get("c") or []) if isinstance(x, dict)) or isinstance(s.get("body"), dict) and has_return(s["body"])


def always(s):
    if s is None:
        return False
    k = s["k"]
    if k == "Return":
        return True
    if k in ("Call", "MCall") and s.get("nr"):
        return True
    if k == "Block":
        return any(always(x) for x in s.get("c") or [])
    if k == "If":
        return always(s["c"][3]) and always(s["c"][4])
    return False


class Fail(Exception):
    pass


def block(cs, l):
    return {"k": "Block", "l": l, "el": l, "c": cs}


def tail(stmts, sink, l):
    """statement list without returns; a return hands its value to sink"""
    out = []
    for k, s in enumerate(stmts):
        if s is None:
            continue
        if not has_return(s):
            out.append(s)
            continue
        rest = stmts[k + 1:]
        if s["k"] == "Return":
            return out + sink(s)
        if s["k"] == "Block":
            return out + tail((s.get("c") or []) + rest, sink, l)
        if s["k"] == "If":
            c = s["c"]
            if always(c[3]):
                c[3] = block(tail([c[3]], sink, l), l)
                c[4] = block(tail([c[4]] + rest, sink, l), l)
            elif always(c[4]):
                c[4] = block(tail([c[4]], sink, l), l)
                c[3] = block(tail([c[3]] + rest, sink, l), l)
            else:
                raise Fail()
            return out + [s]
        raise Fail()
    return out


class Helper:
    pass


class Inliner:
    def __init__(self, db, fns):
        self.db = db
        self.fns = fns          # key -> Fn
        self.busy = set()
        self.done = 0

    def body_of(self, key):
        f = self.fns[key]
        if key in self.busy:
            return None
        self.busy.add(key)
        try:
            return f.body
        finally:
            self.busy.discard(key)

    def counters(self, root):
        d = i = 0
        for r in root:
            for x in walk(r):
                v = x.get("d")
                if isinstance(v, int) and v >= d:
                    d = v + 1
                v = x.get("i")
                if isinstance(v, int) and v >= i:
                    i = v + 1
        self.nd, self.ni = d, i

    def node(self, **kw):
        kw["i"] = self.ni
        self.ni += 1
        return kw

    def fresh_ids(self, n):
        for x in walk(n):
            if "i" in x:
                x["i"] = self.ni
                self.ni += 1
        return n

    def instance(self, call):
        """-> (prelude statements, body statements) with parameters bound, or raise Fail"""
        key = call["f"]
        f = self.fns[key]
        b = self.body_of(key)
        if b is None or b["k"] != "Block":
            raise Fail()
        args = call.get("c") or []
        obj = None
        if call["k"] == "MCall":
            obj, args = args[0], args[1:]
        params = f.params
        if len(args) != len(params) or any(a is None for a in args):
            raise Fail()
        b = self.fresh_ids(fresh(b))
        # locals of the helper
        ren = {}
        for x in walk(b):
            if x["k"] == "Var" and isinstance(x.get("d"), int):
                if x.get("static"):
                    raise Fail()
                ren[x["d"]] = None
        for d in sorted(ren):
            ren[d] = self.nd
            self.nd += 1
        pre, sub = [], {}
        l = call["l"]
        for p, a in zip(params, args):
            if "d" not in p:
                if effects(a):
                    pre.append(a)
                continue
            ref = p["t"].rstrip().endswith("&")
            if simple(a) and (ref or not assigned(b, p["d"])):
                sub[p["d"]] = a
            else:
                v = self.nd
                self.nd += 1
                pre.append(self.node(k="Decl", l=l, c=[self.node(k="Var", l=l, n=p["n"], d=v, t=p["t"], c=[a])]))
                sub[p["d"]] = self.node(k="Ref", l=l, t=p["t"].replace("&", "").strip() if ref else p["t"], n=p["n"], dk="local", d=v)
        base = None
        if obj is not None and obj["k"] != "This":
            if not simple(obj):
                v = self.nd
                self.nd += 1
                if call.get("a"):
                    pre.append(self.node(k="Decl", l=l, c=[self.node(k="Var", l=l, n="this__", d=v, t=obj["t"], c=[obj])]))
                else:
                    pre.append(self.node(k="Decl", l=l, c=[self.node(k="Var", l=l, n="this__", d=v, t=obj["t"] + " &", c=[obj])]))
                obj = self.node(k="Ref", l=l, t=obj["t"], n="this__", dk="local", d=v)
            base = (obj, bool(call.get("a")))

        def rep(n):
            """n with parameters, locals and this replaced"""
            k = n["k"]
            if k == "Ref":
                if n.get("dk") == "param" and n.get("d") in sub:
                    r = self.fresh_ids(fresh(sub[n["d"]]))
                    return r
                if n.get("dk") in ("local", "slocal") and n.get("d") in ren:
                    n["d"] = ren[n["d"]]
                return n
            if k == "Lambda":
                raise Fail()
            if base is not None:
                if k == "This":
                    o = self.fresh_ids(fresh(base[0]))
                    return o if base[1] else self.node(k="Un", op="&", l=n["l"], t=n["t"], c=[o])
                if k in ("Mem", "MCall") and n["c"][0] is not None and n["c"][0]["k"] == "This" and not base[1]:
                    n["c"][0] = self.fresh_ids(fresh(base[0]))
                    n.pop("a", None)
                    n["c"][1:] = [rep(x) if x is not None else None for x in n["c"][1:]]
                    return n
                if k == "Un" and n.get("op") == "*" and n["c"][0]["k"] == "This" and not base[1]:
                    return self.fresh_ids(fresh(base[0]))
            if k == "Var" and n.get("d") in ren:
                n["d"] = ren[n["d"]]
            for kk in ("c", "b", "cl", "par", "inits"):
                v = n.get(kk)
                if isinstance(v, list):
                    for j in range(len(v)):
                        if isinstance(v[j], dict):
                            v[j] = rep(v[j])
            for kk in ("var", "body"):
                v = n.get(kk)
                if isinstance(v, dict):
                    n[kk] = rep(v)
            return n
        b = rep(b)
        return pre, b.get("c") or []

    # ---- positions -------------------------------------------------------
    def is_call(self, n):
        return n is not None and n.get("k") in ("Call", "MCall") and n.get("f") in self.fns and not n.get("virt") and n["f"] not in self.busy

    def mentions(self, n):
        return n is not None and any(self.is_call(x) for x in walk(n))

    def expressions(self, root):
        """calls of one-expression helpers are replaced wherever they stand"""
        for n in list(walk(root)):
            for kk in ("c", "b", "cl", "par", "inits"):
                v = n.get(kk)
                if not isinstance(v, list):
                    continue
                for j in range(len(v)):
                    x = v[j]
                    for _ in range(4):
                        if not isinstance(x, dict) or not self.is_call(x):
                            break
                        b = self.body_of(x["f"])
                        if b is None or b["k"] != "Block" or len(b.get("c") or []) != 1 or b["c"][0] is None or b["c"][0]["k"] != "Return" \
                                or not b["c"][0].get("c") or b["c"][0]["c"][0] is None:
                            break
                        f = self.fns[x["f"]]
                        args = (x.get("c") or [])[1 if x["k"] == "MCall" else 0:]
                        uses = {}
                        for y in walk(b):
                            if y["k"] == "Ref" and y.get("dk") == "param":
                                uses[y.get("d")] = uses.get(y.get("d"), 0) + 1
                        ok = len(args) == len(f.params)
                        for p, a in zip(f.params, args):
                            if a is None or not simple(a) and (uses.get(p.get("d"), 0) > 1 and effects(a) or uses.get(p.get("d"), 0) == 0 and effects(a)):
                                ok = False
                        if x["k"] == "MCall" and x["c"][0]["k"] != "This" and not simple(x["c"][0]):
                            ok = False
                        if not ok:
                            break
                        try:
                            pre, body = self.instance_expr(x)
                        except Fail:
                            break
                        v[j] = x = body
                        self.done += 1

    def instance_expr(self, call):
        save = globals()["simple"]
        try:
            globals()["simple"] = lambda n: True
            pre, body = self.instance(call)
        finally:
            globals()["simple"] = save
        if pre:
            raise Fail()
        return pre, body[0]["c"][0]

    def statements(self, n):
        """inline calls in the statement lists below n"""
        for x in list(walk(n)):
            if x["k"] in ("If", "For", "While", "Do", "ForRange"):
                idx = {"If": (3, 4), "For": (4,), "While": (2,), "Do": (0,), "ForRange": (1,)}[x["k"]]
                for j in idx:
                    c = x["c"]
                    if j < len(c) and c[j] is not None and c[j]["k"] != "Block" and self.mentions(c[j]):
                        c[j] = self.node(**block([c[j]], c[j]["l"]))
        for x in list(walk(n)):
            if x["k"] == "Block" and self.mentions(x):
                self.block(x)

    def block(self, b):
        cs = b["c"]
        i = 0
        n = 0
        while i < len(cs) and n < 400:
            s = cs[i]
            if s is None or not self.mentions(s):
                i += 1
                continue
            n += 1
            r = self.statement(s)
            if r is None:
                i += 1
                continue
            self.done += 1
            cs[i:i + 1] = r      # look at the result again
        b["c"] = cs

    def statement(self, s):
        l = s["l"]
        if self.is_call(s):
            try:
                pre, body = self.instance(s)

                def drop(r):
                    e = r["c"][0] if r.get("c") else None
                    return [e] if e is not None and effects(e) else []
                return pre + [self.node(**block(tail(body, drop, l), l))]
            except Fail:
                return None
        if s["k"] == "Return" and s.get("c") and s["c"][0] is not None:
            e = s["c"][0]
            while e["k"] == "ICast":
                e = e["c"][0]
            if self.is_call(e):
                try:
                    pre, body = self.instance(e)
                    return pre + body
                except Fail:
                    return None
        slot = self.first(s)
        if slot is None:
            return None
        call = slot[0][slot[1]]
        if (self.fns[call["f"]].h["ret"] or "void") == "void":
            return None
        try:
            pre, body = self.instance(call)
            rets = sum(1 for x in body for y in walk(x) if y["k"] == "Return")
            if rets == 1 and body and body[-1] is not None and body[-1]["k"] == "Return" and body[-1]["c"][0] is not None:
                slot[0][slot[1]] = body[-1]["c"][0]
                return pre + body[:-1] + [s]
            if not all(always(x) for x in [block(body, l)]):
                return None
            v = self.nd
            self.nd += 1
            t = self.fns[call["f"]].h["ret"]
            if t.rstrip().endswith("&"):
                return None

            def keep(r):
                return [self.node(k="Bin", op="=", l=r["l"], t=t, c=[self.node(k="Ref", l=r["l"], t=t, n="ret__", dk="local", d=v), r["c"][0]])]
            out = tail(body, keep, l)
            slot[0][slot[1]] = self.node(k="Ref", l=l, t=t, n="ret__", dk="local", d=v)
            return pre + [self.node(k="Decl", l=l, c=[self.node(k="Var", l=l, n="ret__", d=v, t=t)])] + out + [s]
        except Fail:
            return None

    def first(self, stmt):
        """(list, index) of the call of a new helper that stmt evaluates before any effect"""
        k, c = stmt["k"], stmt.get("c")
        if k in ("If", "Switch"):
            if c[0] is not None or c[1] is not None:
                return None
            todo = (c, 2)
        elif k == "Return" and c:
            todo = (c, 0)
        elif k == "ForRange":
            todo = (c, 0)
        elif k == "Decl":
            vs = c or []
            if len(vs) != 1 or vs[0]["k"] != "Var" or not vs[0].get("c"):
                return None
            todo = (vs[0]["c"], 0)
        elif k in ("Bin", "CAssign", "Un", "Call", "MCall", "OCall", "Ctor"):
            todo = ([stmt], 0)
        else:
            return None

        def find(lst, i):
            n = lst[i]
            if n is None:
                return False
            if n["k"] == "Lambda":
                return None
            cs = n.get("c") or []
            if n["k"] == "Cond" or n["k"] == "Bin" and n.get("op") in ("&&", "||"):
                return find(cs, 0) or None
            order = range(len(cs))
            if n["k"] in ("CAssign",) or n["k"] == "Bin" and n.get("op") == "=":
                order = (1, 0)
            for j in order:
                r = find(cs, j)
                if r or r is None:
                    return r
            if self.is_call(n):
                return lst, i
            if n["k"] in ("Call", "MCall", "OCall", "Ctor", "New", "Delete", "CAssign") or n["k"] == "Un" and n.get("op") in ("++", "--") or n["k"] == "Bin" and n.get("op") == "=":
                f = n.get("f") or ""
                if f.endswith(")const") or n["k"] == "Ctor" and (n.get("copy") or n.get("move")):
                    return False
                return None
            return False
        r = find(*todo)
        return r or None

    def lambdas(self, fn, body):
        """a lambda kept in a local that is only called is a helper too"""
        lam = {}
        for n in walk(body):
            if n["k"] == "Var" and n.get("c") and n["c"][0] is not None:
                e = n["c"][0]
                while e is not None and (e["k"] == "ICast" or e["k"] == "Ctor" and len(e.get("c") or []) == 1):
                    e = e["c"][0]
                if e is not None and e["k"] == "Lambda" and e.get("c") and e["c"][0] is not None:
                    lam[n["d"]] = e
        if not lam:
            return {}
        calls, uses = {}, {}
        for n in walk(body):
            if n["k"] == "OCall" and n.get("op") == "()" and n["c"][0] is not None:
                r = n["c"][0]
                while r is not None and r["k"] in ("ICast", "Cast"):
                    r = r["c"][0]
                if r is not None and r["k"] == "Ref" and r.get("d") in lam:
                    calls.setdefault(r["d"], []).append(n)
            if n["k"] == "Ref" and n.get("d") in lam and n.get("dk") in ("local", "slocal"):
                uses[n["d"]] = uses.get(n["d"], 0) + 1
        out = {}
        for d, e in lam.items():
            if uses.get(d, 0) != len(calls.get(d, [])) or not calls.get(d):
                continue
            if any(x["k"] == "Lambda" for x in walk(e["c"][0])) or any(x["k"] == "OCall" and x.get("op") == "()" and x in calls.get(d, []) for x in walk(e["c"][0])):
                continue
            key = "lambda#%d" % d
            h = Helper()
            h.h = {"ret": calls[d][0]["t"]}
            h.params = e.get("par") or []
            h.body = e["c"][0]
            out[key] = h
            for n in calls[d]:
                n["k"], n["f"], n["c"] = "Call", key, n["c"][1:]
                n.pop("op", None)
        return out

    def run(self, fn, body, inits):
        extra = self.lambdas(fn, body) if body is not None else {}
        if not extra:
            self.run1(fn, body, inits)
            return
        self.fns = dict(self.fns)
        self.fns.update(extra)
        try:
            self.run1(fn, body, inits)
            left = {x["f"] for x in walk(body) if x["k"] == "Call" and x.get("f") in extra}
            if left:
                raise Fail()
            for b in list(walk(body)):
                if b["k"] == "Block":
                    b["c"] = [s for s in b["c"] if not (s is not None and s["k"] == "Decl" and len(s.get("c") or []) == 1 and "lambda#%s" % s["c"][0].get("d") in extra)]
        finally:
            for k in extra:
                self.fns.pop(k, None)

    def run1(self, fn, body, inits):
        roots = [x for x in [body] + [e for i in inits for e in i["c"]] if x is not None]
        if not any(self.mentions(r) for r in roots):
            return
        self.counters(roots)
        self.nd = max([self.nd] + [p["d"] + 1 for p in fn.params if isinstance(p.get("d"), int)])
        save = (self.nd, self.ni)
        for f in {x["f"] for r in roots for x in walk(r) if self.is_call(x)}:
            self.body_of(f)            # loads (and inlines into) the helper first
        self.nd, self.ni = save
        for i in inits:
            self.expressions(i)
        if body is not None:
            w = {"k": "Block", "l": 0, "c": [body]}
            self.expressions(w)
            if body["k"] == "Block":
                self.statements(body)


def setup(db):
    """db.inliner for the functions of the database that the specification does not know"""
    kn = known()
    db.inliner = None
    if not kn:
        return
    new = {}
    for k, f in db.fns.items():
        h = f.h
        if h.get("ctor") or h.get("dtor") or h.get("virt") or h.get("op") or h.get("ovr") or h.get("dep"):
            continue
        if "operator" in f.name or f.short == "main" or bare(f.name) in kn:
            continue
        new[k] = f
    rx = re.compile(r'"(?:f|q)":(\d+)')
    # helpers that call themselves, directly or through each other, stay functions
    graph = {k: {f.strs.get(int(m)) for m in rx.findall(f._raw)} & new.keys() for k, f in new.items() if f._raw is not None}
    for k in list(new):
        seen, todo = set(), list(graph.get(k, ()))
        while todo:
            y = todo.pop()
            if y not in seen:
                seen.add(y)
                todo += graph.get(y, ())
        if k in seen or k not in graph:
            del new[k]
    db.inliner = Inliner(db, new)
    callers = []
    used = set()
    for f in db.fns.values():
        if f._raw is None:
            continue
        st = f.strs
        ks = {st.get(int(m)) for m in rx.findall(f._raw)} & new.keys()
        if ks:
            callers.append(f)
            used |= ks
    for f in callers:
        f.body
    left = set()
    for f in db.fns.values():
        if f._raw is None and f.key not in new:
            for r in [f._body] + [e for i in f._inits for e in i["c"]]:
                if r is not None:
                    left |= {x["f"] for x in walk(r) if isinstance(x.get("f"), str) and x["f"] in new}
    grow = True
    while grow:
        grow = False
        for k in list(left):
            f = new[k]
            for x in walk(f.body) if f.body is not None else ():
                if isinstance(x.get("f"), str) and x["f"] in new and x["f"] not in left:
                    left.add(x["f"])
                    grow = True
    for k in new:
        if k in used and k not in left:
            del db.fns[k]
