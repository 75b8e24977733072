"""Front end: builds the exporter, runs it over /repo's current sources (in
parallel), and gives the rule code resolved functions, records and variables."""
import hashlib, json, os, re, subprocess, sys, time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import inline
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("CDEC_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
ENGINE = os.path.join(VERIF, "engine")

CONFIG_H = """#ifndef CONFIG_H
#define CONFIG_H
#define HAVE_ZLIB 1
#define HAVE_BZLIB 1
#define HAVE_XZLIB 1
#define HAVE_EIGEN 1
#endif
"""
COMPAT_H = """#include <math.h>
#include <algorithm>
#include <boost/serialization/split_member.hpp>
"""


class AnalysisError(Exception):
    """The analysis itself is broken (vanished anchor, parse failure, ...)."""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def tool():
    os.makedirs(CACHE, exist_ok=True)
    src = open(os.path.join(ENGINE, "cdecfacts.cc"), "rb").read()
    h = hashlib.sha1(src).hexdigest()[:12]
    exe = os.path.join(CACHE, "cdecfacts-" + h)
    if not os.path.exists(exe):
        r = sh(["bash", os.path.join(ENGINE, "build_tool.sh"), exe])
        if r.returncode != 0 or not os.path.exists(exe):
            raise AnalysisError("cannot build exporter: " + r.stderr[-2000:])
    return exe


def tree_hash():
    """content hash of every C/C++ source under the repository (cache key)."""
    h = hashlib.sha1()
    ents = []
    for d, ds, fs in os.walk(REPO):
        ds[:] = sorted(x for x in ds if not x.startswith(".") and x != "_build")
        for f in fs:
            if re.search(r"\.(cc|cpp|c|h|hh|hpp|ll|inc|i)$", f):
                ents.append(os.path.join(d, f))
    for p in sorted(ents):
        h.update(p.encode() + b"\0")
        try:
            h.update(open(p, "rb").read())
        except OSError:
            pass
    return h.hexdigest()


def gen_dir(key):
    g = os.path.join(CACHE, "gen-" + key[:12])
    os.makedirs(g, exist_ok=True)
    for n, t in (("config.h", CONFIG_H), ("compat.h", COMPAT_H)):
        p = os.path.join(g, n)
        if not os.path.exists(p):
            tmp = p + ".%d" % os.getpid()
            open(tmp, "w").write(t)
            os.replace(tmp, p)
    lex = os.path.join(g, "rule_lexer.cc")
    if not os.path.exists(lex):
        tmp = lex + ".%d" % os.getpid()
        r = sh(["flex", "-o", tmp, os.path.join(REPO, "decoder/rule_lexer.ll")])
        if r.returncode != 0:
            raise AnalysisError("flex failed: " + r.stderr)
        t = open(tmp).read().replace(tmp, lex)
        open(tmp, "w").write(t)
        os.replace(tmp, lex)
    return g


def sources():
    return json.load(open(os.path.join(ENGINE, "sources.json")))


def group_of(f):
    g = f.split("/")[0]
    return "decoder" if g == "example_extff" else g


def flags(f, incs, gen):
    a = ["clang++", "-x", "c++", "-std=gnu++14", "-w", "-DHAVE_CONFIG_H", "-DKENLM_MAX_ORDER=6", "-I" + gen]
    a += ["-I" + os.path.normpath(os.path.join(REPO, i)) for i in incs]
    a += ["-I/usr/include/eigen3", "-include", gen + "/compat.h", "-ferror-limit=5"]
    if f.startswith("extractor/"):
        a.append("-fopenmp")
    return a + ["-fsyntax-only", f if f.startswith("/") else os.path.join(REPO, f)]


def _run_chunk(args):
    exe, out, cdb, files = args
    tmp = out + ".tmp%d" % os.getpid()
    r = sh([exe, REPO, tmp, cdb] + files)
    if r.returncode != 0:
        return "exporter failed on %s: %s" % (files[:3], r.stderr[-3000:])
    os.replace(tmp, out)
    return None


def extract(groups, only=None, jobs=8):
    """-> list of fact files for the requested groups (cached by content)."""
    exe = tool()
    key = hashlib.sha1((tree_hash() + os.path.basename(exe)).encode()).hexdigest()[:16]
    gen = gen_dir(key)
    src = sources()
    outs, work = [], []
    cdbdir = os.path.join(CACHE, "cdb-" + key)
    os.makedirs(cdbdir, exist_ok=True)
    ents = []
    for f, incs in src.items():
        p = os.path.join(REPO, f)
        ents.append({"directory": REPO, "file": p, "arguments": flags(f, incs, gen)})
    lex = gen + "/rule_lexer.cc"
    ents.append({"directory": REPO, "file": lex, "arguments": flags(lex, src["decoder/trule.cc"], gen)})
    cdbf = os.path.join(cdbdir, "compile_commands.json")
    tmp = cdbf + ".%d" % os.getpid()
    json.dump(ents, open(tmp, "w"))
    os.replace(tmp, cdbf)
    for g in groups:
        fs = sorted(f for f in src if group_of(f) == g)
        for f in fs:
            if not os.path.exists(os.path.join(REPO, f)):
                raise AnalysisError("source file vanished: " + f)
        fs = [os.path.join(REPO, f) for f in fs]
        if g == "decoder":
            fs.append(lex)
        n = min(jobs, max(1, (len(fs) + 3) // 4))
        chunks = [fs[i::n] for i in range(n)]
        for i, c in enumerate(chunks):
            out = os.path.join(CACHE, "facts-%s-%s-%d.jsonl" % (key, g, i))
            outs.append((g, out))
            if not os.path.exists(out):
                work.append((exe, out, cdbdir, c))
    if work:
        with ThreadPoolExecutor(jobs) as ex:
            errs = [e for e in ex.map(_run_chunk, work) if e]
        if errs:
            raise AnalysisError(errs[0])
    return outs


INTERNED = ("t", "f", "fn", "q", "at")


def children(n):
    c = n.get("c")
    return [x for x in c if x is not None] if c else []


def walk(n):
    """pre-order over a node tree (dicts)."""
    if n is None:
        return
    st = [n]
    while st:
        x = st.pop()
        yield x
        for key in ("c", "b"):
            c = x.get(key)
            if c:
                for y in reversed(c):
                    if y is not None:
                        st.append(y)
        if x.get("cl"):
            for cl in x["cl"]:
                for y in cl["c"]:
                    st.append(y)
        if "var" in x:
            st.append(x["var"])


FLIP = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "==": "==", "!=": "!="}
LITERAL = ("Int", "Float", "Flt", "Bool", "Chr", "Char", "NullPtr", "Str", "Sizeof")
CASTS = ("ICast", "Cast", "Paren")


def _literal(n):
    while n is not None and n["k"] in CASTS and n.get("c"):
        n = n["c"][0]
    if n is None:
        return False
    if n["k"] == "Un" and n.get("op") in ("-", "+", "~"):
        return _literal(n["c"][0])
    if n["k"] == "Bin" and n.get("op") in ("+", "-", "*", "<<", "|"):
        return _literal(n["c"][0]) and _literal(n["c"][1])
    return n["k"] in LITERAL or (n["k"] == "Ref" and n.get("dk") == "enum")


def _sameplace(a, b):
    """two spellings of one side-effect free place"""
    while a is not None and a["k"] == "ICast" and a.get("ck") in ("LValueToRValue", "NoOp"):
        a = a["c"][0]
    while b is not None and b["k"] == "ICast" and b.get("ck") in ("LValueToRValue", "NoOp"):
        b = b["c"][0]
    if a is None or b is None or a["k"] != b["k"]:
        return False
    if a["k"] == "Ref":
        return a.get("d") == b.get("d") and a["n"] == b["n"]
    if a["k"] == "This":
        return True
    if a["k"] == "Mem":
        return a.get("f") == b.get("f") and bool(a.get("a")) == bool(b.get("a")) and _sameplace(a["c"][0], b["c"][0])
    if a["k"] == "Un" and a.get("op") == "*" and b.get("op") == "*":
        return _sameplace(a["c"][0], b["c"][0])
    return False


def _intone(n):
    while n is not None and n["k"] == "ICast":
        n = n["c"][0]
    return n is not None and n["k"] == "Int" and n.get("v") == 1


def normalise(root):
    """One form for the ways of writing the same thing: the constant of a
    comparison stands on the right, `x += 1` and `x = x + 1` are `++x`,
    `x = x + e` is `x += e`, `(*p).m` is `p->m`, `!(a == b)` is `a != b`."""
    order = list(walk(root))
    for n in reversed(order):
        k = n["k"]
        c = n.get("c")
        if k == "Bin" and len(c) == 2:
            op = n.get("op")
            if op in FLIP and _literal(c[0]) and not _literal(c[1]):
                n["c"] = [c[1], c[0]]
                n["op"] = FLIP[op]
            elif op == "=" and c[1]["k"] == "Bin" and c[1].get("op") in ("+", "-", "*", "/", "|", "&", "^", "%", "<<", ">>") \
                    and c[1]["t"] == n["t"] and _sameplace(c[0], c[1]["c"][0]):
                n["k"] = "CAssign"
                n["op"] = c[1]["op"] + "="
                n["c"] = [c[0], c[1]["c"][1]]
                k, c = "CAssign", n["c"]
        elif k in ("Mem", "MCall") and not n.get("a") and c and c[0] is not None:
            d = c[0]
            if d["k"] == "Un" and d.get("op") == "*" and d["c"][0].get("t", "").endswith(("*", "*const", "* const")):
                n["c"] = [d["c"][0]] + c[1:]
                n["a"] = 1
            elif d["k"] == "OCall" and d.get("op") == "*" and len(d["c"]) == 1 and re.search(r"_ptr<.*>::operator\*$|^(std|__gnu_cxx|boost)::.*iterator<.*>::operator\*$", d.get("fn") or ""):
                d["op"] = "->"
                d["fn"] = d["fn"][:-1] + "->"
                if d.get("f"):
                    d["f"] = d["f"].replace("operator*", "operator->")
                d["t"] = (d.get("t") or "") + " *"
                n["a"] = 1
        elif k == "Un" and n.get("op") == "!" and c and c[0] is not None and c[0]["k"] == "Bin" and c[0].get("op") in ("==", "!="):
            n["k"] = "Bin"
            n["op"] = "!=" if c[0]["op"] == "==" else "=="
            n["c"] = c[0]["c"]
        elif k == "For" and c and len(c) > 2 and c[0] is not None and c[2] is not None:
            iv = {v.get("d") for v in walk(c[0]) if v["k"] == "Var"} | {v.get("d") for v in walk(c[0]) if v["k"] == "Ref" and v.get("dk") == "local"}
            for x in walk(c[2]):
                if x["k"] == "Bin" and x.get("op") in FLIP and len(x["c"]) == 2:
                    a, b = x["c"]
                    while b is not None and b["k"] == "ICast":
                        b = b["c"][0]
                    while a is not None and a["k"] == "ICast":
                        a = a["c"][0]
                    if a is not None and b is not None and b["k"] == "Ref" and b.get("d") in iv and b.get("dk") == "local" and not (a["k"] == "Ref" and a.get("d") in iv):
                        x["c"] = [x["c"][1], x["c"][0]]
                        x["op"] = FLIP[x["op"]]
        elif k == "Cast" and c and c[0] is not None and n.get("t") == "bool" and c[0].get("t") == "bool":
            keep = c[0]
            n.clear()
            n.update(keep)
            continue
        if k == "CAssign" and n.get("op") in ("+=", "-=") and _intone(c[1]):
            n["k"] = "Un"
            n["op"] = "++" if n["op"] == "+=" else "--"
            n["c"] = [c[0]]


SCALAR = re.compile(r"^(const )?((unsigned|signed) )?(bool|char|short|int|long|long long|float|double|unsigned|size_t|[\w:<>, ]+ ?\*)( ?const)?$")
EFFECT = ("Call", "MCall", "OCall", "Ctor", "New", "Delete", "CAssign", "Lambda")


def _effects(n):
    for x in walk(n):
        k = x["k"]
        if k in EFFECT or k == "Un" and x.get("op") in ("++", "--") or k == "Bin" and x.get("op") == "=":
            return True
    return False


def _observer(n):
    """a call of a const member function without arguments, or a const operator"""
    f = n.get("f") or ""
    return f.endswith(")const") and (n["k"] == "MCall" and f.endswith("()const") or n["k"] == "OCall")


def _observing(n):
    """evaluating n changes nothing and calls only observers"""
    for x in walk(n):
        k = x["k"]
        if k in EFFECT and not _observer(x) or k == "Un" and x.get("op") in ("++", "--") or k == "Bin" and x.get("op") == "=":
            return False
    return True


def _slot(stmt, d, pure=False):
    """(list, index) of the one use of local d in the part of stmt evaluated at once
    and before anything else happens, or None"""
    k = stmt["k"]
    c = stmt.get("c")
    if k == "If":
        if c[0] is not None or c[1] is not None:
            return None
        todo = [(c, 2)]
    elif k == "Switch":
        if c[0] is not None or c[1] is not None:
            return None
        todo = [(c, 2)]
    elif k == "Return":
        todo = [(c, 0)] if c else []
    elif k == "Decl":
        vs = stmt.get("c") or []
        if len(vs) != 1 or vs[0]["k"] != "Var" or vs[0].get("static") or not vs[0].get("c"):
            return None
        todo = [(vs[0]["c"], 0)]
    elif k in ("Bin", "CAssign", "Un", "Call", "MCall", "OCall"):
        todo = [([stmt], 0)]
    else:
        return None

    def find(lst, i):
        """-> slot | False (not here, no effects) | None (not here or not reachable first)"""
        n = lst[i]
        if n is None:
            return False
        if n["k"] == "Ref" and n.get("dk") == "local" and n.get("d") == d:
            return lst, i
        if n["k"] == "Lambda":
            return None
        cs = n.get("c") or []
        if n["k"] == "Cond" or n["k"] == "Bin" and n.get("op") in ("&&", "||"):
            return find(cs, 0) or None
        for j in range(len(cs)):
            r = find(cs, j)
            if r:
                return r
            if r is None:
                return None
        if pure and n["k"] in ("MCall", "OCall") and _observer(n):
            return False
        if n["k"] in EFFECT or n["k"] == "Un" and n.get("op") in ("++", "--") or n["k"] == "Bin" and n.get("op") == "=":
            return None
        return False
    for lst, i in todo:
        r = find(lst, i)
        return r or None
    return None


def inline_temporaries(root):
    """a scalar local initialised in the statement before its only use, which that
    statement evaluates first, is replaced by its initialiser: naming a value for one
    use is the same as writing it in place."""
    uses = {}
    decls = False
    for n in walk(root):
        if n["k"] == "Ref" and n.get("dk") == "local":
            uses[n.get("d")] = uses.get(n.get("d"), 0) + 1
        elif n["k"] == "Lambda":
            return
    for n in list(walk(root)):
        if n["k"] != "Block":
            continue
        cs = n.get("c")
        if not cs or not isinstance(cs, list):
            continue
        i = len(cs) - 2
        while i >= 0:
            s = cs[i]
            if s is not None and s["k"] == "Decl" and len(s.get("c") or []) == 1 and s["c"][0]["k"] == "Var":
                v = s["c"][0]
                if not v.get("static") and v.get("c") and v["c"][0] is not None and uses.get(v.get("d")) == 1 and SCALAR.match(v["t"]) \
                        and v["c"][0]["k"] != "InitList":
                    nx = cs[i + 1]
                    sl = _slot(nx, v["d"], _observing(v["c"][0])) if nx is not None else None
                    if sl is not None:
                        sl[0][sl[1]] = v["c"][0]
                        del cs[i]
            i -= 1


class Fn:
    __slots__ = ("h", "_raw", "strs", "_body", "_inits", "db")

    def __init__(self, h, raw, strs, db):
        self.h, self._raw, self.strs, self._body, self._inits, self.db = h, raw, strs, None, None, db

    def _load(self):
        b = json.loads(self._raw)
        st = self.strs

        def res(n):
            stack = [n]
            while stack:
                x = stack.pop()
                if isinstance(x, list):
                    for y in x:
                        if isinstance(y, (dict, list)):
                            stack.append(y)
                    continue
                for k in INTERNED:
                    v = x.get(k)
                    if isinstance(v, int):
                        x[k] = st[v]
                pt = x.get("pt")
                if pt is not None:
                    x["pt"] = [st[i] for i in pt]
                for k in ("c", "b", "cl", "par", "inits"):
                    v = x.get(k)
                    if v:
                        stack.append(v)
                for k in ("var", "body"):
                    v = x.get(k)
                    if isinstance(v, dict):
                        stack.append(v)
        res(b)
        inl = getattr(self.db, "inliner", None)
        if inl is not None:
            try:
                inl.run(self, b["body"], b.get("inits", []))
            except (inline.Fail, KeyError, IndexError, TypeError, AttributeError) as ex:
                if os.environ.get("DBGI"):
                    raise
                b = json.loads(self._raw)       # as written
                res(b)
        if b["body"]:
            inline_temporaries(b["body"])
            normalise(b["body"])
        for i in b.get("inits", []):
            for e in i["c"]:
                normalise(e)
        self._body = b["body"]
        self._inits = b.get("inits", [])
        self._raw = None

    @property
    def body(self):
        if self._raw is not None:
            self._load()
        return self._body

    @property
    def inits(self):
        if self._raw is not None:
            self._load()
        return self._inits

    key = property(lambda s: s.h["key"])
    name = property(lambda s: s.h["name"])
    file = property(lambda s: s.h["file"])
    line = property(lambda s: s.h["l"])
    cls = property(lambda s: s.h.get("clsp"))
    params = property(lambda s: s.h["params"])

    @property
    def short(self):
        return self.name.split("::")[-1]

    def loc(self, n=None):
        return "%s:%d" % (self.file, n["l"] if n is not None else self.line)

    def nodes(self):
        for i in self.inits:
            for c in i["c"]:
                yield from walk(c)
        yield from walk(self.body)

    def __repr__(self):
        return "<Fn %s %s:%d>" % (self.key, self.file, self.line)


class DB:
    def __init__(self, groups, want_dep=False):
        t0 = time.time()
        self.groups = list(groups)
        self.fns = {}      # key -> Fn
        self.recs = {}     # name -> record
        self.reclist = []  # every record definition (same-named ones in different files included)
        self.enums = {}
        self.vars = {}
        self.by_name = {}  # plain qualified name -> [Fn]
        self.units = 0
        for g, p in extract(groups):
            self._load(p, want_dep)
        inline.setup(self)
        for f in self.fns.values():
            self.by_name.setdefault(f.name, []).append(f)
        self.load_s = time.time() - t0

    def _load(self, path, want_dep):
        strs = {}
        pend = None
        for line in open(path):
            if pend is not None:
                h = pend
                pend = None
                if h.get("dep") and not want_dep:
                    continue
                if h["key"] in self.fns:
                    o = self.fns[h["key"]]
                    if o.h["file"] == h["file"] and o.h["l"] == h["l"]:
                        continue
                    k2 = h["key"] + "@" + h["file"] + ":%d" % h["l"]
                    if k2 in self.fns:
                        continue
                    h["key"] = k2
                h["ret"] = strs[h["ret"]]
                for q in h["params"]:
                    q["t"] = strs[q["t"]]
                self.fns[h["key"]] = Fn(h, line, strs, self)
                continue
            if line.startswith('{"k":"s"'):
                d = json.loads(line)
                strs[d["i"]] = d["v"]
                continue
            d = json.loads(line)
            k = d["k"]
            if k == "fn":
                pend = d
            elif k == "rec":
                for f in d["fields"]:
                    f["t"] = strs[f["t"]]
                for m in d["methods"]:
                    m["ret"] = strs[m["ret"]]
                    m["pt"] = [strs[i] for i in m["pt"]]
                self.reclist.append(d)
                if d["name"] not in self.recs:
                    self.recs[d["name"]] = d
            elif k == "enum":
                self.enums[d["name"]] = d
            elif k == "var":
                d["t"] = strs[d["t"]]
                if "c" in d:
                    fake = Fn({}, None, strs, self)
                    fake._raw = json.dumps({"body": {"k": "X", "c": d["c"]}})
                    d["c"] = fake.body["c"]
                if d["name"] not in self.vars or "c" in d:
                    self.vars[d["name"]] = d
            elif k == "end":
                self.units += d["tus"]

    def named(self, *names):
        return [f for n in names for f in self.by_name.get(n, [])]

    def match(self, rx):
        r = re.compile(rx)
        return [f for f in self.fns.values() if r.search(f.name)]


if __name__ == "__main__":
    t = time.time()
    db = DB(sys.argv[1:])
    print(len(db.fns), "functions", len(db.recs), "records", len(db.vars), "vars", len(db.enums), "enums", db.units, "units", round(time.time() - t, 1), "s")
