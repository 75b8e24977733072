"""What a writer emits, the paired reader consumes: same order, widths, counts, fields."""
import re
import elemtrip
from facts import children, walk
from ir import walk_nl, uncast, is_const, base_type, path, ref_aliases, render, evalorder, cfg, split_cond

GROUPS = ["utils", "decoder", "mteval", "training", "word-aligner", "extractor"]
WANT_DEP = True

PAIRS = [("save", "load"), ("Save", "Load"), ("SaveImpl", "LoadImpl"), ("serialize", "deserialize"), ("Serialize", "Deserialize"),
         ("WriteToBinary", "ReadFromBinary"), ("WriteToFile", "InitFromFile"), ("WriteToFile", "ReadFromFile"), ("WriteBinary", "ReadBinary"),
         ("Write", "Read"), ("write", "read")]
ARCH_OUT = re.compile(r"oarchive")
ARCH_IN = re.compile(r"iarchive")
STREAM_OUT = re.compile(r"basic_ostream|basic_ostringstream|basic_ofstream|basic_iostream|basic_stringstream|basic_fstream")
STREAM_IN = re.compile(r"basic_istream|basic_istringstream|basic_ifstream|basic_iostream|basic_stringstream|basic_fstream")
W = {"char": 1, "signed char": 1, "unsigned char": 1, "bool": 1, "short": 2, "unsigned short": 2, "int": 4, "unsigned int": 4,
     "long": 8, "unsigned long": 8, "long long": 8, "unsigned long long": 8, "float": 4, "double": 8}

# members that are deliberately not part of the stored form; one reason each
DERIVED = {
    "HG::Edge::edge_prob_": "recomputed from feature values by Reweight before use",
    "TRule::ext_states_": "grammar-side state of tree-to-string rules, not part of a derivation",
    "TRule::parent_rule_": "decode-time link of constrained decoding, relinked by the second pass",
    "TRule::prev_i": "decode-time source coordinate, also stored on the edge",
    "TRule::prev_j": "decode-time source coordinate, also stored on the edge",
    "TRule::fine_rules_": "coarse-to-fine grammar link, owned by the grammar",
    "TRule::tree_structure": "optional display structure of TSG rules",
}


def wire_type(t):
    t = base_type(t)
    if t in W:
        return ("float%d" if t in ("float", "double") else "int%d") % W[t]
    t = t.replace("std::basic_string<char>", "std::string").replace("std::basic_string<char, std::char_traits<char>, std::allocator<char>>", "std::string")
    t = re.sub(r"\bconst\s+", "", t)
    t = re.sub(r"\bunsigned (int|long|short)\b", r"\1", t)
    if "dependent" in t or "type-parameter" in t or t == "<bound member function type>":
        return "?"
    return t.replace(" ", "")


def negs(e):
    """parity of arithmetic negations, None when the value depends on a condition."""
    c = 0
    for x in walk(e) if e is not None else ():
        if x["k"] == "Cond" or (x["k"] == "Bin" and x["op"] in ("*", "-", "/")):
            return None
        if x["k"] == "Un" and x["op"] == "-":
            c ^= 1
    return c


class Seq:
    """builds the ordered wire description of one writer or reader function."""

    def __init__(self, db, fn, out, stream=None, this_fields=True, depth=0, st=None):
        self.db, self.fn, self.out, self.depth = db, fn, out, depth
        self.al = ref_aliases(fn)
        self.streams = set()
        self.sids = {}
        for p in fn.params:
            t = p["t"]
            if stream is not None:
                if p["d"] in stream:
                    self.streams.add(p["d"])
            elif self.is_stream(t):
                self.streams.add(p["d"])
        self.st = st if st is not None else {"n": 0, "tok": [], "var": {}, "fld": {}, "touched": set()}
        self.vf = {}     # local -> fields it was computed from (writer) ; flow order
        self.vt = {}     # local -> token index last read into it (reader)

    def is_stream(self, t):
        a = (ARCH_OUT if self.out else ARCH_IN).search(t)
        s = (STREAM_OUT if self.out else STREAM_IN).search(t)
        return bool(a or s or "type-parameter" in t and t.rstrip().endswith("&"))

    # -- expression helpers
    def members(self, e):
        """data members / pseudo members an expression depends on (through locals)."""
        r = set()
        for x in walk(e):
            if x["k"] == "Mem" and not x.get("meth"):
                if x.get("n") and not x.get("sv"):
                    r.add(x["n"])
            elif x["k"] == "Ref" and x["dk"] in ("local", "param"):
                r |= self.vf.get(x["d"], set())
                a = self.al.get(x["d"])
                if a:
                    r |= set(re.findall(r"\.([A-Za-z_]\w*)", a))
                    if a.startswith("this"):
                        r.add("*this*")
            elif x["k"] == "This":
                r.add("*this*")
        if len(r) > 1:
            r.discard("*this*")
        return r

    def toks(self, e):
        return {self.vt[x["d"]] for x in walk(e) if x["k"] == "Ref" and x["dk"] in ("local", "param") and x["d"] in self.vt}

    def stream_ref(self, e):
        e = uncast(e)
        while e is not None and e["k"] == "Un" and e["op"] in ("*", "&"):
            e = uncast(e["c"][0])
        if e is None:
            return False
        if e["k"] == "Ref" and e["dk"] in ("param",):
            return e["d"] in self.streams
        if e["k"] in ("Ref", "Mem", "MCall", "OCall"):
            t = e.get("t", "")
            if e["k"] == "MCall" and not re.search(r"stream", e.get("fn") or ""):
                return False
            return bool((ARCH_OUT if self.out else ARCH_IN).search(t) or (STREAM_OUT if self.out else STREAM_IN).search(t))
        return False

    def sid(self, e):
        e = uncast(e)
        while e is not None and e["k"] == "Un" and e["op"] in ("*", "&"):
            e = uncast(e["c"][0])
        if e["k"] == "Ref" and e.get("d") in self.streams:
            return self.sids.get(e["d"], "param")
        return path(e, self.al) or "?"

    def token(self, kind, ty, e, where, sid="param"):
        i = self.st["n"]
        self.st["n"] += 1
        names = ()
        u = uncast(e)
        while u is not None and u["k"] == "Un" and u["op"] in ("&", "*"):
            u = uncast(u["c"][0])
        f = self.members(u)
        if u is not None and u["k"] == "Ref" and u["dk"] == "local" and not self.out:
            self.vt[u["d"]] = i
            if u["d"] not in self.al:
                f = set()
        t = {"k": kind, "t": ty, "i": i, "f": f, "w": where, "sid": sid, "neg": negs(u), "x": render(u, self.al) if u is not None else "?"}
        self.st["tok"].append(t)
        return ("op", t)

    # -- ops contained in an expression, in evaluation order
    def expr(self, e):
        r = []
        e0 = e
        if e is None:
            return r
        k = e["k"]
        if k == "Lambda":
            return r
        op = e.get("op")
        if k in ("Bin", "OCall") and op in ("<<", ">>", "&") and len(children(e)) == 2:
            chain, x = [], e
            while x is not None and x["k"] in ("Bin", "OCall") and x.get("op") in ("<<", ">>", "&") and len(children(x)) == 2:
                chain.append(x["c"][1])
                x = uncast(x["c"][0])
            if self.stream_ref(x) and not STREAM_OUT.search(x.get("t", "")) and not STREAM_IN.search(x.get("t", "")):
                for a in reversed(chain):
                    r.append(self.token("ar", wire_type(a.get("t", "?")), a, self.fn.loc(a), self.sid(x)))
                return r
        if k == "MCall" and e.get("fn") and re.search(r"basic_[io]stream.*::(write|read)$", e["fn"]) and len(children(e)) == 3 and self.stream_ref(e["c"][0]):
            r.append(self.raw(e))
            return r
        if k in ("Call", "MCall", "OCall", "Ctor") and e.get("f") in self.db.fns and self.depth < 4:
            t = self.db.fns[e["f"]]
            args = children(e)
            recv = None
            if k == "MCall" or (k == "OCall" and t.cls and not t.h.get("static")):
                recv, args = args[0], args[1:]
            sp = {p["d"] for p, a in zip(t.params, args) if self.stream_ref(a)}
            if sp:
                s = Seq(self.db, t, self.out, sp, depth=self.depth + 1, st=self.st)
                # by-value / by-reference argument fields
                for p, a in zip(t.params, args):
                    s.vf[p["d"]] = self.members(a)
                    if p["d"] in sp:
                        s.sids[p["d"]] = self.sid(a)
                    elif p["d"] in sp or not self.out and recv is not None:
                        self.st["touched"] |= self.members(recv)
                    pa = path(a, self.al)
                    if pa:
                        s.al[p["d"]] = pa
                if recv is not None and not self.out:
                    self.st["touched"] |= self.members(recv)
                sub = s.block(t.body)
                # reference parameters that received a token
                for p, a in zip(t.params, args):
                    if p["d"] in s.vt:
                        u = uncast(a)
                        while u is not None and u["k"] == "Un":
                            u = uncast(u["c"][0])
                        if u is not None and u["k"] == "Ref":
                            self.vt[u["d"]] = s.vt[p["d"]]
                r.append(("seq", sub))
                return r
        elif k == "MCall" and e.get("fn") and any(self.stream_ref(a) for a in children(e)[1:]):
            nm = e["fn"].split("::")[-1]
            nm = {"save": "S", "load": "S", "serialize": "S", "deserialize": "S", "Serialize": "S", "Deserialize": "S", "SaveImpl": "S", "LoadImpl": "S"}.get(nm)
            if nm:
                rp = path(e["c"][0], self.al) or "?"
                return [("op", {"k": "call", "t": "nested", "i": -1, "f": set(re.findall(r"\.(\w+)", rp)), "w": self.fn.loc(e), "x": rp})]
        cs = children(e)
        if k in ("Bin", "CAssign") and op and op.endswith("=") and op not in ("==", "!=", "<=", ">="):
            cs = list(reversed(cs))
        if k == "Cond":
            a, b = self.expr(cs[1]), self.expr(cs[2])
            r += self.expr(cs[0])
            if a or b:
                r.append(("if", a, b, self.fn.loc(e)))
        else:
            for c in cs:
                r += self.expr(c)
        if k == "Var":
            cc = children(e)
            if cc:
                self.define(e["d"], cc[0])
        if k in ("Bin", "CAssign", "OCall") and op and op.endswith("=") and op not in ("==", "!=", "<=", ">=") and len(children(e)) == 2:
            self.assign(e["c"][0], e["c"][1], op != "=")
        elif k in ("Bin", "OCall") and op == "==" and not self.out:
            self.relate(e)
        elif k == "MCall" and not self.out:
            self.relate(e)
            if not e.get("cm"):
                for m in self.members(e["c"][0]):
                    self.st["touched"].add(m)
                self.via_this(e)
        elif k == "Un" and op in ("++", "--") and not self.out:
            self.st["touched"] |= self.members(e["c"][0])
        elif k in ("Call",) and not self.out:
            self.relate(e)
            for a in children(e):
                self.st["touched"] |= self.members(a)
        return r

    def via_this(self, e):
        """a method called on this object: everything it (transitively) assigns is touched."""
        if uncast(e["c"][0])["k"] == "This" and e.get("f") in self.db.fns:
            self.st["touched"] |= writes(self.db, self.db.fns[e["f"]], set())

    def define(self, d, init):
        self.vf[d] = self.members(init)
        t = self.toks(init)
        if t:
            self.vt[d] = min(t)
        else:
            self.vt.pop(d, None)

    def relate(self, e):
        ms = self.members(e)
        for t in self.toks(e):
            self.st["tok"][t]["f"] |= ms if t < len(self.st["tok"]) else set()

    def assign(self, l, r, compound):
        u = uncast(l)
        ms = self.members(r)
        tk = self.toks(r)
        base = u
        while base is not None and base["k"] in ("Sub",) or base is not None and base["k"] == "OCall" and base.get("op") == "[]":
            base = uncast(base["c"][0])
        if u["k"] == "Ref" and u["dk"] == "local" and u["d"] not in self.al:
            if compound:
                self.vf[u["d"]] = self.vf.get(u["d"], set()) | ms
            else:
                self.vf[u["d"]] = ms
                if tk:
                    self.vt[u["d"]] = min(tk)
                else:
                    self.vt.pop(u["d"], None)
            return
        tgt = self.members(l)
        if not self.out:
            self.st["touched"] |= tgt
            for t in tk:
                self.st["tok"][t]["f"] |= tgt
                self.st["tok"][t]["neg"] = negs(r)
        b = base
        if b is not None and b["k"] == "Ref" and b["dk"] == "local":
            self.vf[b["d"]] = self.vf.get(b["d"], set()) | ms

    def raw(self, e):
        dst, size = e["c"][1], e["c"][2]
        const, var = 1, []

        def fac(x):
            nonlocal const
            x = uncast(x)
            v = is_const(x)
            if v is not None:
                const *= v
            elif x["k"] == "Bin" and x["op"] == "*":
                fac(x["c"][0])
                fac(x["c"][1])
            else:
                var.append(x)
        fac(size)
        vdesc = []
        for v in var:
            vdesc.append((frozenset(self.toks(v)), frozenset(self.members(v))))
        u = uncast(dst)
        o = u
        obj = None
        if u is not None and u["k"] == "Un" and u["op"] == "&":
            obj = uncast(u["c"][0])
        r = self.token("raw", "%d bytes%s" % (const, "*n" * len(var)), dst, self.fn.loc(e), self.sid(e["c"][0]))
        r[1]["var"] = vdesc
        r[1]["const"] = const
        if obj is not None and obj["k"] in ("Ref", "Mem") and base_type(obj.get("t", "")) in W and not obj["t"].rstrip().endswith("*"):
            r[1]["objsize"] = W[base_type(obj["t"])]
        for x in walk(dst):
            if x["k"] == "Mem" and x.get("n"):
                self.st["touched"].add(x["n"])
        return r

    # -- statements
    def block(self, s):
        if s is None:
            return []
        k = s["k"]
        r = []
        if k == "Block":
            cs = children(s)
            for i, x in enumerate(cs):
                if x["k"] == "If" and i + 1 < len(cs):
                    th, el = leaves(x["c"][3]), leaves(x["c"][4])
                    if th != el:
                        # the rest of the block belongs to the branch that goes on
                        c = x["c"]
                        r += self.block(c[0]) + self.block(c[1]) + self.expr(c[2])
                        a, b = self.block(c[3]), self.block(c[4])
                        rest = self.block({"k": "Block", "c": cs[i + 1:]})
                        a, b = (a, b + rest) if th else (a + rest, b)
                        fails = aborts(c[3] if th else c[4]) or any(self.stream_ref(x) for x in walk(c[2]))
                        if has_op(a) and has_op(b) or has_op(rest) and not fails:
                            r.append(("if", a, b, self.fn.loc(x)))
                        else:
                            r += a + b
                        return r
                r += self.block(x)
            return r
        if k == "Decl":
            for v in children(s):
                r += self.expr(v)
            return r
        if k == "If":
            c = s["c"]
            r += self.block(c[0]) + self.block(c[1]) + self.expr(c[2])
            a, b = self.block(c[3]), self.block(c[4])
            if a or b:
                r.append(("if", a, b, self.fn.loc(s)))
            return r
        if k in ("For", "While"):
            c = s["c"]
            if k == "For":
                init, cv, cond, inc, body = c
                r += self.block(init) if init is not None and init["k"] in ("Decl", "Block") else self.expr(init)
            else:
                cv, cond, body = c
                init = inc = None
            info = self.bound(init, cond)
            r += self.block(cv) if cv is not None else []
            pre = self.expr(cond)
            b = self.block(body) + (self.expr(inc) if inc is not None else [])
            b = pre + b
            if has_op(b):
                r.append(("loop", info, b, self.fn.loc(s)))
                if not self.out and not has_op(b):
                    self.st.setdefault("rebuild", []).append((info, self.fn.loc(s)))
            elif not self.out:
                self.st.setdefault("rebuild", []).append((info, self.fn.loc(s)))
            return r
        if k == "Do":
            b = self.block(s["c"][0]) + self.expr(s["c"][1])
            if has_op(b):
                r.append(("loop", self.bound(None, s["c"][1]), b, self.fn.loc(s)))
            return r
        if k == "ForRange":
            rng = s["c"][0]
            rr = rng
            if rr is not None and rr["k"] == "Decl":
                rr = rr["c"][0]
            if rr is not None and rr["k"] == "Var":
                rr = children(rr)[0] if children(rr) else rr
            v = s["var"]
            self.vf[v["d"]] = self.members(rr)
            pa = path(rr, self.al)
            if pa and v["t"].rstrip().endswith("&"):
                self.al[v["d"]] = pa + "[?]"
            b = self.block(s["c"][1])
            if has_op(b):
                r.append(("loop", {"tok": self.toks(rr), "f": self.members(rr), "adj": 0, "start": 0, "kind": "range"}, b, self.fn.loc(s)))
            return r
        if k == "Return":
            return self.expr(s["c"][0]) if children(s) else []
        if k in ("Break", "Continue"):
            return [("op", {"k": "ctl", "t": "skip", "i": -1, "f": set(), "w": self.fn.loc(s), "x": "skip", "neg": None})]
        if k in ("Null", "Goto"):
            return r
        if k == "Switch":
            return [x for x in self.block(s["c"][3]) if not (x[0] == "op" and x[1]["k"] == "ctl")]
        if k in ("Case", "Default", "Label"):
            return self.block(s["c"][-1])
        if k == "Try":
            return self.block(s["c"][0])
        if k in ("OMP",):
            for x in children(s):
                r += self.block(x)
            return r
        return self.expr(s)

    def bound(self, init, cond):
        d = {"tok": set(), "f": set(), "adj": None, "start": None, "kind": "?"}
        iv = None
        if init is not None and init["k"] == "Decl" and init["c"] and init["c"][0]["k"] == "Var":
            iv = init["c"][0]
            if children(iv):
                d["start"] = is_const(children(iv)[0])
            if "iterator" in iv["t"]:
                d["start"] = None
        c = uncast(cond) if cond is not None else None
        if c is not None and c["k"] in ("Bin", "OCall") and c.get("op") in ("<", "<=", "!=", ">", ">="):
            l, r = c["c"][0], c["c"][1]
            if iv is not None and not any(x["k"] == "Ref" and x.get("d") == iv["d"] for x in walk(l)):
                l, r = r, l
            d["tok"], d["f"] = self.toks(r), self.members(r)
            adj = 1 if c["op"] in ("<=", ">=") else 0
            x = uncast(r)
            while x is not None and x["k"] == "Bin" and x["op"] in ("+", "-") and is_const(x["c"][1]) is not None:
                adj += is_const(x["c"][1]) * (1 if x["op"] == "+" else -1)
                x = uncast(x["c"][0])
            d["adj"] = adj
            d["kind"] = "count"
            if x is not None and (x["k"] == "MCall" and (x.get("fn") or "").split("::")[-1] == "end"):
                d["kind"] = "iter"
                d["adj"] = 0
        return d


def always(items):
    """fields transferred whatever the branches taken."""
    got = set()
    for it in flat(items):
        if it[0] == "op":
            got |= it[1]["f"]
        elif it[0] == "loop":
            got |= always(it[2])
        else:
            got |= always(it[1]) & always(it[2])
    return got


def leaves(s):
    """the statement always returns from the function."""
    if s is None:
        return False
    if s["k"] == "Block":
        return any(leaves(x) for x in children(s))
    if s["k"] == "If":
        return leaves(s["c"][3]) and leaves(s["c"][4])
    return s["k"] == "Return" or aborts(s)


def aborts(s):
    """the statement ends in a failure (abort, throw, return false), not in a normal return."""
    if s is None:
        return False
    if s["k"] == "Block":
        return bool(children(s)) and aborts(children(s)[-1])
    if s["k"] == "Return":
        return bool(children(s)) and is_const(s["c"][0]) == 0
    return s["k"] == "Throw" or s["k"] == "Call" and bool(s.get("nr"))


def writes(db, fn, seen):
    if fn.key in seen:
        return set()
    seen.add(fn.key)
    r = set()
    for n in fn.nodes():
        t = None
        if n["k"] in ("Bin", "CAssign", "OCall") and n.get("op", "").endswith("=") and n["op"] not in ("==", "!=", "<=", ">="):
            t = n["c"][0]
        elif n["k"] == "Un" and n["op"] in ("++", "--", "&"):
            t = n["c"][0]
        elif n["k"] == "MCall" and n.get("f") in db.fns and uncast(n["c"][0])["k"] == "This":
            r |= writes(db, db.fns[n["f"]], seen)
        elif n["k"] == "MCall":
            t = n["c"][0]
        elif n["k"] == "New":
            t = n
        if t is not None:
            for x in walk(t):
                if x["k"] == "Mem" and x.get("n"):
                    r.add(x["n"])
    return r


def has_op(items):
    return any(it[0] == "op" and it[1]["k"] != "ctl" or any(has_op(x) for x in it[1:] if isinstance(x, list)) for it in items)


def one_stream(items, st):
    """keep the items of the stream object that carries most of them, drop empty shells."""
    cnt = {}
    for t in st["tok"]:
        cnt[t["sid"]] = cnt.get(t["sid"], 0) + 1
    if not cnt:
        main = None
    else:
        main = max(sorted(cnt), key=lambda k: cnt[k])

    def go(its):
        r = []
        for it in flat(its):
            if it[0] == "op":
                if it[1].get("sid", main) == main:
                    r.append(it)
            elif it[0] == "loop":
                b = go(it[2])
                if has_op(b):
                    r.append(("loop", it[1], b, it[3]))
            else:
                a, b = go(it[1]), go(it[2])
                if a or b:
                    r.append(("if", a, b, it[3]))
        return r
    return go(items)


def flat(items):
    for it in items:
        if it[0] == "seq":
            yield from flat(it[1])
        else:
            yield it


def show(items):
    out = []
    for it in flat(items):
        if it[0] == "op":
            out.append("%s" % it[1]["t"])
        elif it[0] == "loop":
            out.append("loop{%s}" % show(it[2]))
        else:
            out.append("if{%s|%s}" % (show(it[1]), show(it[2])))
    return " ".join(out)


def shape(items):
    return show(items)


def tm(a, b):
    return a == b or a == "?" or b == "?"


class Cmp:
    def __init__(self, ctx, wf, rf, key):
        self.ctx, self.wf, self.rf, self.key = ctx, wf, rf, key
        self.ok = True
        self.n = 0

    def bad(self, where, what, tag):
        self.ok = False
        self.ctx.violate("writer-reader-agree", where, "%s / %s: %s" % (self.wf.name, self.rf.name, what), "%s|%s" % (self.key, tag))

    def cmp(self, A, B, wt, rt, pos=""):
        A, B = list(flat(A)), list(flat(B))
        for i in range(max(len(A), len(B))):
            p = pos + str(i)
            if i >= len(A):
                return self.bad(B[i][1]["w"] if B[i][0] == "op" else B[i][3], "the reader expects an item (%s) the writer never emits at position %s" % (show([B[i]]), p), "extra-read@" + p)
            if i >= len(B):
                return self.bad(A[i][1]["w"] if A[i][0] == "op" else A[i][3], "the writer emits an item (%s) the reader never consumes at position %s" % (show([A[i]]), p), "extra-write@" + p)
            a, b = A[i], B[i]
            self.n += 1
            if a[0] != b[0]:
                return self.bad(b[1]["w"] if b[0] == "op" else b[3], "at position %s the writer emits %s where the reader consumes %s" % (p, show([a]), show([b])), "kind@" + p)
            if a[0] == "op":
                x, y = a[1], b[1]
                if x["k"] != y["k"] or not tm(x["t"], y["t"]):
                    return self.bad(y["w"], "at position %s the writer emits %s (%s) but the reader consumes %s (%s)" % (p, x["t"], x["x"], y["t"], y["x"]), "width@" + p)
                fx, fy = x["f"] - {"*this*"}, y["f"] - {"*this*"}
                if fx and fy and not (fx & fy):
                    return self.bad(y["w"], "at position %s the writer emits %s but the reader restores it into %s" % (p, "/".join(sorted(fx)), "/".join(sorted(fy))), "field@" + p)
                if fx & fy and len(fx) == 1 and x["neg"] is not None and y["neg"] is not None and x["neg"] != y["neg"]:
                    return self.bad(y["w"], "at position %s the value of %s is negated on one side only" % (p, "/".join(sorted(fx))), "sign@" + p)
            elif a[0] == "loop":
                x, y = a[1], b[1]
                if x["kind"] in ("count", "range", "iter") and y["kind"] in ("count", "range", "iter"):
                    sa = (x["start"] or 0) if x["start"] is not None else 0
                    sb = (y["start"] or 0) if y["start"] is not None else 0
                    if x["adj"] is not None and y["adj"] is not None and x["adj"] - sa != y["adj"] - sb:
                        return self.bad(b[3], "at position %s writer and reader loops run a different number of times (bound adjustment %+d vs %+d)" % (p, x["adj"] - sa, y["adj"] - sb), "count@" + p)
                    if y["tok"] and x["f"] - {"*this*"}:
                        tf = set()
                        for t in y["tok"]:
                            if t < len(wt):
                                tf |= wt[t]["f"]
                        tf -= {"*this*"}
                        if tf and not (tf & x["f"]):
                            return self.bad(b[3], "at position %s the writer's loop runs over %s but the reader's count came from %s" % (p, "/".join(sorted(x["f"])), "/".join(sorted(tf))), "bound@" + p)
                self.cmp(a[2], b[2], wt, rt, p + ".")
            else:
                s1 = (show(a[1]), show(a[2]))
                s2 = (show(b[1]), show(b[2]))
                if s1 == s2:
                    self.cmp(a[1], b[1], wt, rt, p + "t.")
                    self.cmp(a[2], b[2], wt, rt, p + "f.")
                elif s1 == (s2[1], s2[0]):
                    self.cmp(a[1], b[2], wt, rt, p + "t.")
                    self.cmp(a[2], b[1], wt, rt, p + "f.")
                else:
                    return self.bad(b[3], "at position %s the writer's alternatives are %s, the reader's %s" % (p, s1, s2), "if@" + p)


def fields_of(db, cls):
    r = db.recs.get(cls)
    return r["fields"] if r else []


def run(db, ctx):
    ctx.rule("writer-reader-agree", "the ordered tree of items (archive operators, raw write/read calls, loops, branches; helpers taking the stream are inlined) of each writer equals that of its reader: kinds, widths, counts and the members they carry")
    ctx.rule("member-restored", "every data member of a class with a reader is restored, rebuilt or listed as derived with a reason")
    ctx.rule("read-fits", "a raw read of a constant number of bytes never exceeds the size of the scalar object it is read into, and the writer never writes more bytes than its scalar has")
    ctx.rule("length-fits", "a container length stored in an 8- or 16-bit variable that is then written is bounded by a dominating check")
    by = {}
    for f in db.fns.values():
        if not f.file.startswith("/") and f.body is not None:
            by.setdefault((f.cls or f.name.rsplit("::", 1)[0], f.short), []).append(f)
    npairs = items = skips = trips = 0
    done = set()
    for (cls, nm), fs in sorted(by.items(), key=lambda kv: (str(kv[0]))):
        for wn, rn in PAIRS:
            if nm != wn or (cls, rn) not in by:
                continue
            ws = pick(fs)
            rs = pick(by[(cls, rn)])
            for wf in ws:
                best = None
                for rf in rs:
                    if wf.key == rf.key:
                        continue
                    A = Seq(db, wf, True)
                    B = Seq(db, rf, False)
                    sa = one_stream(A.block(wf.body), A.st)
                    sb = one_stream(B.block(rf.body), B.st)
                    if best is None or (not sb) < (not best[3]):
                        best = (rf, A, sa, sb, B)
                if best is None:
                    continue
                rf, A, sa, sb, B = best
                if not sa or not sb:
                    continue
                k = "%s::%s" % (cls, wn)
                if k in done:
                    continue
                done.add(k)
                npairs += 1
                sa2, sb2 = align_branches(sa, sb)
                c = Cmp(ctx, wf, rf, k)
                c.cmp(sa2, sb2, A.st["tok"], B.st["tok"])
                items += c.n
                ctx.ob(c.ok)
                ctx.sample("%s / %s: %s" % (wf.name, rf.name, show(sa2)[:160]), 40)
                member_check(db, ctx, cls, wf, rf, A, B)
                skips += skip_balance(db, ctx, wf, k)
                trips += elements(db, ctx, cls, wf, rf, k)
                for info, where in B.st.get("rebuild", ()):
                    if info["kind"] != "count" or not (info["f"] - {"*this*"}) or info["adj"] is None:
                        continue
                    ok = info["adj"] == 0 and info["start"] in (0, None)
                    ctx.ob(ok)
                    if not ok:
                        ctx.violate("member-restored", where, "%s rebuilds derived data from only part of %s" % (rf.name, "/".join(sorted(info["f"]))), "%s|rebuild" % k)
    # single-function archives (serialize used both ways) and raw reads everywhere
    ser = set()
    for f in db.fns.values():
        if f.short == "serialize" and f.params and "archive" in f.params[0]["t"] and f.cls and not f.file.startswith("/"):
            if (f.cls, f.file) in ser:
                continue
            s = Seq(db, f, ARCH_OUT.search(f.params[0]["t"]) is not None)
            it = list(flat(s.block(f.body)))
            if not it:
                continue
            ser.add((f.cls, f.file))
            npairs += 1
            cover(db, ctx, f.cls, f, always(it))
    raws = 0
    for f in db.fns.values():
        if f.file.startswith("/") or f.h.get("dep"):
            continue
        for n in f.nodes():
            if n["k"] == "MCall" and n.get("fn") and re.search(r"basic_[io]stream.*::(write|read)$", n["fn"]) and len(children(n)) == 3:
                raws += 1
                u = uncast(n["c"][1])
                sz = is_const(n["c"][2])
                if u is not None and u["k"] == "Un" and u["op"] == "&" and sz is not None:
                    o = uncast(u["c"][0])
                    t = base_type(o.get("t", ""))
                    if o["k"] in ("Ref", "Mem") and t in W and not o["t"].rstrip().endswith(("*", "]")):
                        ok = sz == W[t]
                        ctx.ob(ok)
                        if not ok:
                            ctx.violate("read-fits", f.loc(n), "%s transfers %d bytes through %s, whose type %s has %d" % (f.name, sz, o.get("n"), t, W[t]), "%s|%s" % (f.name, o.get("n")))
    narrowed(db, ctx)
    sized_target(db, ctx)
    narrow = 0
    for f in db.fns.values():
        if f.file.startswith("/") or f.h.get("dep"):
            continue
        al = None
        for n in f.nodes():
            if n["k"] != "Var" or not children(n) or W.get(base_type(n["t"]), 8) >= 4 or base_type(n["t"]) == "bool":
                continue
            i = uncast(children(n)[0])
            if i is None or i["k"] != "MCall" or (i.get("fn") or "").split("::")[-1] not in ("size", "length"):
                continue
            if not any(x["k"] == "MCall" and re.search(r"basic_ostream.*::write$", x.get("fn") or "") and len(children(x)) == 3
                       and any(y["k"] == "Ref" and y.get("d") == n["d"] for y in walk(x)) for x in f.nodes()):
                continue
            narrow += 1
            al = al or ref_aliases(f)
            g = cfg(f)
            node = g.owner.get(n["i"])
            lim = 256 ** W[base_type(n["t"])]
            want = render(i, al)
            ok = False
            for e, pol, _ in (g.assumes(node) if node else []):
                for c, p in split_cond(e, pol):
                    c = uncast(c)
                    if c["k"] == "Bin" and c["op"] in ("<", "<=", ">", ">="):
                        l, r, op = c["c"][0], c["c"][1], c["op"]
                        if is_const(l) is not None:
                            l, r, op = r, l, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}[op]
                        if not p:
                            op = {"<": ">=", ">": "<=", "<=": ">", ">=": "<"}[op]
                        b = is_const(r)
                        if b is not None and render(l, al) == want and (op == "<" and b <= lim or op == "<=" and b < lim):
                            ok = True
            ctx.ob(ok)
            if not ok:
                ctx.violate("length-fits", f.loc(n), "%s stores a container length in %s %s before writing it, and nothing bounds the length by %d: longer payloads are cut short without notice" % (f.name, base_type(n["t"]), n["n"], lim - 1), "%s|%s" % (f.name, n["n"]))
    ctx.count("narrow_length_fields", narrow)
    ctx.count("cursor_skips_checked", skips)
    ctx.count("element_round_trips", trips)
    ctx.floor("writer_reader_pairs", npairs, 12)
    ctx.floor("items_compared", items, 40)
    ctx.floor("raw_transfers", raws, 30)
    ctx.assume.append("boost archive operators and iostream write/read transfer exactly the value they are given; value transforms (sign flips, word id <-> string) are not compared")


STREAMY = re.compile(r"archive|basic_ostream|basic_ofstream|basic_ostringstream|basic_iostream|basic_fstream")


def narrowed(db, ctx):
    """the value handed to an archive or to a raw write is as wide as the member it stands for."""
    n = 0
    for f in db.fns.values():
        if f.file.startswith("/") or f.h.get("dep") or not any(STREAMY.search(p["t"]) for p in f.params):
            continue
        sent = set()
        for x in f.nodes():
            if x["k"] in ("OCall", "Bin") and x.get("op") in ("&", "<<", ">>") and len(children(x)) == 2 and "archive" in (x["c"][0].get("t") or ""):
                u = uncast(x["c"][1])
                if u["k"] == "Ref":
                    sent.add(u.get("d"))
            elif x["k"] == "MCall" and re.search(r"basic_ostream.*::write$", x.get("fn") or "") and len(children(x)) == 3:
                u = uncast(x["c"][1])
                if u["k"] == "Un" and u["op"] == "&" and uncast(u["c"][0])["k"] == "Ref":
                    sent.add(uncast(u["c"][0]).get("d"))
        for x in f.nodes():
            if x["k"] != "Var" or x.get("d") not in sent or not children(x):
                continue
            i = uncast(children(x)[0])
            a, b = W.get(base_type(x["t"])), W.get(base_type(i.get("t", "")))
            if i["k"] != "Mem" or i.get("meth") or a is None or b is None or base_type(x["t"]) == "bool":
                continue
            n += 1
            ok = a >= b
            ctx.ob(ok)
            if not ok:
                ctx.violate("writer-reader-agree", f.loc(x), "%s stores member %s (%d bytes) through the %d-byte local %s: large values come back changed" % (f.name, i.get("n"), b, a, x["n"]), "%s|narrowed|%s" % (f.name, i.get("n")))
    ctx.count("members_stored_through_locals", n)


SIZES = ("resize", "assign", "push_back", "emplace_back", "insert", "swap")


def sized_target(db, ctx):
    """a raw read into the elements of a container happens after the container was given elements."""
    n = 0
    for f in db.fns.values():
        if f.file.startswith("/") or f.h.get("dep"):
            continue
        al = None
        for x in f.nodes():
            if x["k"] != "MCall" or not re.search(r"basic_istream.*::read$", x.get("fn") or "") or len(children(x)) != 3:
                continue
            u = uncast(x["c"][1])
            if u["k"] == "Un" and u["op"] == "&":
                u = uncast(u["c"][0])
                if u["k"] == "OCall" and u.get("op") == "[]" and is_const(u["c"][1]) == 0:
                    u = uncast(u["c"][0])
                elif u["k"] == "MCall" and (u.get("fn") or "").split("::")[-1] == "front":
                    u = uncast(u["c"][0])
                else:
                    continue
            elif u["k"] == "MCall" and (u.get("fn") or "").split("::")[-1] == "data":
                u = uncast(u["c"][0])
            else:
                continue
            if not re.search(r"\bvector<|basic_string<", u.get("t", "")):
                continue
            al = al or ref_aliases(f)
            want = path(u, al)
            if want is None:
                continue
            n += 1
            res = [y for y in f.nodes() if y["k"] == "MCall" and path(y["c"][0], al) == want]
            names = {(y.get("fn") or "").split("::")[-1] for y in res}
            # reserve() alone leaves the container empty
            bad = "reserve" in names and not names & set(SIZES)
            if not bad and "reserve" in names:
                g = cfg(f)
                here = g.owner.get(x["i"])
                if here is not None:
                    dom = set(map(id, g.dominators(here)))
                    bad = not any(id(g.owner.get(y["i"])) in dom for y in res if (y.get("fn") or "").split("::")[-1] in SIZES) \
                        and any(id(g.owner.get(y["i"])) in dom for y in res if (y.get("fn") or "").split("::")[-1] == "reserve")
            if not bad and u["k"] == "Ref" and u["dk"] == "local" and not names & set(SIZES):
                v = [y for y in f.nodes() if y["k"] == "Var" and y.get("d") == u["d"]]
                bad = bool(v) and v[0]["t"].rstrip()[-1] != "&" and (not children(v[0]) or uncast(v[0]["c"][0])["k"] == "Ctor" and not [a for a in children(uncast(v[0]["c"][0])) if a["k"] != "DefArg"])
                bad = bad and not any(y["k"] in ("Bin", "OCall") and y.get("op") == "=" and path(y["c"][0], al) == want for y in f.nodes())
            ctx.ob(not bad)
            if bad:
                ctx.violate("read-fits", f.loc(x), "%s reads raw bytes into %s, which was never given any elements" % (f.name, want), "%s|sized|%s" % (f.name, want.split(".")[-1]))
    ctx.count("raw_reads_into_containers", n)


def elements(db, ctx, cls, wf, rf, key):
    """vectors of ids written element by element (masks, signs, dictionary strings) come back as they were."""
    fs = [f["n"] for f in fields_of(db, wf.h.get("cls") or cls) or fields_of(db, cls)
          if re.search(r"vector<\s*(int|WordID|unsigned int|short|long)\s*>|vector<int, ", f.get("ct") or f["t"]) and not f["t"].rstrip().endswith(("*", "&"))]
    # only members whose elements both sides handle one by one
    used = [{n["n"] for n in f.nodes() if n["k"] == "Mem" and n.get("n") in fs} for f in (wf, rf)]
    fs = sorted(set(fs) & used[0] & used[1])
    if not fs:
        return 0
    n = 0
    for f in fs:
        try:
            r, bad = elemtrip.check(db, wf, rf, fs, f)
        except (elemtrip.Skip, KeyError, IndexError, TypeError):
            continue
        except (elemtrip.Ret, elemtrip.Brk, elemtrip.Cont):
            continue
        n += r
        ctx.ob(bad is None)
        if bad:
            fn, node, what = bad
            ctx.violate("writer-reader-agree", fn.loc(node) if node is not None else fn.loc(), "%s / %s: %s" % (wf.name, rf.name, what), "%s|elements|%s" % (key, f))
    return n


def counted(db, ctx, f, key, cnt):
    """a stored element count taken from size() is stored as it is when every element is written."""
    ns = list(f.nodes())
    if any(x["k"] in ("Continue", "Break") for x in ns):
        return
    for v in [n for n in ns if n["k"] == "Var" and n.get("d") in cnt]:
        i = uncast(children(v)[0])
        if i is None or i["k"] != "MCall" or (i.get("fn") or "").split("::")[-1] not in ("size", "length"):
            continue
        rec = path(i["c"][0], ref_aliases(f))
        loops = [l for l in ns if l["k"] == "ForRange" and rec and path(rng(l), ref_aliases(f)) == rec and not any(x["k"] in ("If", "Switch", "Cond") for x in walk(l["c"][1]))]
        sent = [x for x in ns if x["k"] in ("OCall", "Bin") and x.get("op") in ("&", "<<") and len(children(x)) == 2 and uncast(x["c"][1]).get("d") == v["d"] and uncast(x["c"][1])["k"] == "Ref"]
        if not loops or not sent:
            continue
        mod = [x for x in ns if (x["k"] == "CAssign" or x["k"] == "Un" and x["op"] in ("++", "--") or x["k"] == "Bin" and x["op"] == "=") and uncast(x["c"][0])["k"] == "Ref" and uncast(x["c"][0]).get("d") == v["d"]]
        ctx.ob(not mod)
        if mod:
            ctx.violate("writer-reader-agree", f.loc(mod[0]), "%s changes the stored count %s although every element of %s is written" % (f.name, v["n"], rec), "%s|count|%s" % (key, v["n"]))


def rng(l):
    r = l["c"][0]
    while r is not None and r["k"] in ("Decl", "Var") and children(r):
        r = children(r)[0]
    return r


def skip_balance(db, ctx, f, key):
    """elements skipped by advancing the cursor before the write loop are taken off the stored count, on every path."""
    its = {n["d"]: n["n"] for n in f.nodes() if n["k"] == "Var" and "iterator" in n["t"].lower() and n.get("d") is not None}
    cnt = {n["d"]: n["n"] for n in f.nodes() if n["k"] == "Var" and base_type(n["t"]) in W and children(n)}
    if not its and cnt:
        counted(db, ctx, f, key, cnt)
    if not its or not cnt:
        return 0

    def written(n):
        for x in walk_nl(n.ast):
            if x["k"] in ("OCall", "Bin") and x.get("op") in ("&", "<<") and len(x["c"]) == 2 and "archive" in (x["c"][0].get("t") or "") + (x.get("fn") or ""):
                u = uncast(x["c"][1])
                if u["k"] == "Ref" and u.get("d") in cnt:
                    yield u["d"]
            if x["k"] == "MCall" and (x.get("fn") or "").endswith("::write") and len(x["c"]) == 3:
                for y in walk(x["c"][1]):
                    if y["k"] == "Ref" and y.get("d") in cnt:
                        yield y["d"]
    # the loop that writes from the cursor must write unconditionally
    for n in f.nodes():
        if n["k"] in ("While", "For", "Do") and any(x["k"] in ("If", "Continue", "Switch", "Cond") for x in walk(n)):
            return 0
    g = cfg(f)
    checked = [0]
    for it in sorted(its):
        if not any(x["k"] in ("Un", "OCall") and x.get("op") == "++" and uncast(x["c"][0]).get("d") == it for x in f.nodes()):
            continue
        for c in sorted(cnt):
            bad = []

            def one(n, stt):
                di, dn, st = stt
                for x in evalorder(n.ast):
                    k = x["k"]
                    if k == "Var" and x.get("d") == it:
                        di = 0
                    elif k == "Var" and x.get("d") == c:
                        dn = 0
                    elif k in ("Un", "OCall") and x.get("op") in ("++", "--") and x.get("c"):
                        u = uncast(x["c"][0])
                        if u["k"] == "Ref" and u.get("d") == it:
                            di += 1 if x["op"] == "++" else -1
                        elif u["k"] == "Ref" and u.get("d") == c and not st:
                            dn += 1 if x["op"] == "++" else -1
                    elif k == "CAssign" and x["op"] in ("-=", "+="):
                        u, v = uncast(x["c"][0]), is_const(x["c"][1])
                        if u["k"] == "Ref" and u.get("d") == c and not st:
                            if v is None:
                                return None
                            dn += v if x["op"] == "+=" else -v
                    elif k in ("Bin", "OCall") and x.get("op") == "=":
                        u = uncast(x["c"][0])
                        if u["k"] == "Ref" and u.get("d") in (c, it) and not (u["d"] == c and st):
                            return None
                    elif st and (k == "Mem" and x.get("a") or k in ("Un", "OCall") and x.get("op") in ("*", "->")):
                        u = uncast(x["c"][0])
                        while u is not None and u["k"] in ("OCall", "MCall") and u.get("c"):
                            u = uncast(u["c"][0])
                        if u is not None and u["k"] == "Ref" and u.get("d") == it:
                            checked[0] += 1
                            if di + dn:
                                bad.append((x, di, dn))
                            return None
                return di, dn, st

            def tr(n, s):
                if n.ast is None or n.kind in ("loop", "join", "unscope", "return", "case", "default"):
                    return s
                w = c in set(written(n)) if n.kind == "expr" else False
                out = set()
                for stt in s:
                    r = one(n, stt)
                    if r is not None:
                        di, dn, st = r
                        if w:
                            st = 1
                        if abs(di) < 5 and abs(dn) < 5:
                            out.add((di, dn, st))
                return frozenset(out)
            g.forward(frozenset([(0, 0, 0)]), tr, lambda a, b: a | b)
            for x, di, dn in bad[:1]:
                ctx.violate("writer-reader-agree", f.loc(x), "%s stores the count in %s but skips %d element(s) through %s while taking %d off the count" % (f.name, cnt[c], di, its[it], -dn), "%s|skip|%s" % (key, cnt[c]))
    ctx.ob(True)
    return checked[0]


def pick(fs):
    inst = [f for f in fs if not f.h.get("dep")]
    return inst or fs


def align_branches(a, b):
    """text/binary dual-format functions: compare only the branch both sides write raw."""
    A, B = list(flat(a)), list(flat(b))
    if len(A) == 1 and len(B) == 1 and A[0][0] == "if" and B[0][0] == "if":
        ra = [x for x in (A[0][1], A[0][2]) if x]
        rb = [x for x in (B[0][1], B[0][2]) if x]
        if len(ra) == 1 and len(rb) == 1:
            return ra[0], rb[0]
    return a, b


def cover(db, ctx, cls, f, got):
    for fl in fields_of(db, f.h.get("cls") or cls) or fields_of(db, cls):
        n = fl["n"]
        if re.match(r"const\b", fl["t"]) or fl.get("static"):
            continue
        ok = n in got
        key = "%s::%s" % (cls, n)
        if not ok and DERIVED.get(key):
            ctx.notes.append("%s not stored: %s" % (key, DERIVED[key]))
            ok = True
        ctx.ob(ok)
        if not ok:
            ctx.violate("member-restored", f.loc(), "%s does not carry member %s" % (f.name, key), key)


def member_check(db, ctx, cls, wf, rf, A, B):
    got = set(B.st["touched"])
    for t in B.st["tok"]:
        got |= t["f"]
    if not rf.cls:
        return
    if "*this*" in got and not (got - {"*this*"}):
        return
    cover(db, ctx, cls, rf, got)
