"""C13: ids and positions of different kinds are never mixed up.

Every integer that names something (a forest node, a forest edge, a feature, a word, a position in a
source or target sentence, a place in a rule's side, a suffix-array rank ...) gets a kind by polymorphic
unification over the typed program; two different kinds meeting in an assignment, comparison, call or
index are a mix-up."""
import os, re, sys
from facts import walk
from ir import uncast, render, is_const, cfg, walk_nl

GROUPS = ["decoder", "training", "utils", "mteval", "word-aligner", "extractor"]
sys.setrecursionlimit(20000)

INT = re.compile(r"^(const )?(unsigned |signed |long |short )*(int|long|short|unsigned|size_t|unsigned char|char|WordID|uint\w+_t|int\d+_t|std::size_t|size_type|std::vector<.*>::size_type|difference_type)( const)?( ?&)?( const)?$")


TRACE = os.environ.get("C13_TRACE")


class Slot:
    __slots__ = ("up", "kind", "ch", "glob", "why")

    def __init__(self, kind=None, glob=False, why=None):
        self.up, self.kind, self.ch, self.glob, self.why = None, kind, {}, glob, why


def find(s):
    while s.up is not None:
        s = s.up
    return s


class Conflict(Exception):
    pass


class Solver:
    def __init__(self, db, ctx):
        self.db, self.ctx = db, ctx
        self.fields = {}
        self.statics = {}
        self.sums = {}          # fn key -> (params slots, ret slot)
        self.busy = {}
        self.conf = {}
        self.cur = None
        self.node = None
        self.quiet = 0
        self.merged = 0
        self.joins = []

    def child(self, s, name):
        if s is None:
            return None
        s = find(s)
        c = s.ch.get(name)
        if c is None:
            c = s.ch[name] = Slot(glob=s.glob)
        return find(c)

    def seed(self, s, kind, why):
        if s is None or kind is None:
            return
        s = find(s)
        if s.kind is None:
            s.kind, s.why = kind, why
        elif s.kind != kind:
            self.report(s, kind, why)

    def report(self, s, kind, why):
        k = (self.cur.key, self.node["i"] if self.node is not None else 0)
        self.conf.setdefault(k, (self.cur, self.node, s.kind, kind, s.why, why))

    def same(self, a, b):
        """b's contents are copied into a: elements correspond; index kinds only if they agree."""
        if a is None or b is None:
            return
        a, b = find(a), find(b)
        x, y = a.ch.get("ix"), b.ch.get("ix")
        if x is not None and y is not None and find(x).kind and find(y).kind and find(x).kind != find(y).kind:
            self.unify(self.child(a, "el"), self.child(b, "el"))
            return
        self.unify(a, b)

    def unify(self, a, b, depth=0):
        if a is None or b is None:
            return
        a, b = find(a), find(b)
        if a is b or depth > 6:
            return
        self.merged += 1
        self.joins.append((self.cur.key, self.node, a))
        if a.kind is not None and b.kind is not None and a.kind != b.kind:
            self.report(a, b.kind, b.why)
            return
        if b.glob and not a.glob:
            a, b = b, a
        if a.glob and b.glob and TRACE:
            print("  JOIN", self.cur.loc(self.node), self.name(a), "~", self.name(b))
        b.up = a
        if a.kind is None:
            a.kind, a.why = b.kind, b.why
        if b.glob or a.glob:
            a.glob = True
            self.globalise(b)
        for n, c in list(b.ch.items()):
            if n in a.ch:
                self.unify(a.ch[n], c, depth + 1)
            else:
                a.ch[n] = c

    def name(self, s):
        out = []
        for f, x in self.fields.items():
            if find(x) is s:
                out.append(f)
            for k, c in find(x).ch.items():
                if find(c) is s:
                    out.append(f + "." + k)
        return out[:3]

    def globalise(self, s, depth=0):
        s.glob = True
        if depth < 6:
            for c in s.ch.values():
                c = find(c)
                if not c.glob:
                    self.globalise(c, depth + 1)

    def copy(self, s, memo, depth=0):
        if s is None:
            return None
        s = find(s)
        if s.glob:
            return s
        if id(s) in memo:
            return memo[id(s)]
        n = memo[id(s)] = Slot(s.kind, False, s.why)
        if depth < 7:
            for k, c in s.ch.items():
                n.ch[k] = self.copy(c, memo, depth + 1)
        return n

    def field(self, f):
        s = self.fields.get(f)
        if s is None:
            s = self.fields[f] = Slot(glob=True)
            for pth, kind in FIELDS.get(f, {}).items():
                x = s
                for p in [q for q in pth.split(".") if q]:
                    x = self.child(x, p)
                x.kind, x.why = kind, "field " + f
        return find(s)

    def summary(self, key):
        if key in self.sums:
            return self.sums[key], False
        if key in self.busy:
            return self.busy[key], True
        fn = self.db.fns.get(key)
        if fn is None or fn.body is None or skip(fn):
            return None, False
        return self.solve(fn), False

    def solve(self, fn):
        F = Typer(fn, self)
        ps = [F.var(p.get("d"), p.get("n")) if p.get("n") else Slot() for p in fn.params]
        ret = Slot()
        if SIDED_IN.match(fn.name):
            for p, q in zip(fn.params, ps):
                for pth, kind in SIDES.get(p.get("n") or "", {}).items():
                    x = q
                    for w in [w for w in pth.split(".") if w]:
                        x = self.child(x, w)
                    x.kind, x.why = kind, "parameter %s of %s" % (p["n"], fn.short)
        self.busy[fn.key] = (ps, ret)
        sc, sn = self.cur, self.node
        self.cur = fn
        F.ret = ret
        F.run()
        self.cur, self.node = sc, sn
        del self.busy[fn.key]
        self.sums[fn.key] = (ps, ret)
        return ps, ret


CONTAINER_FILES = ("utils/small_vector.h", "utils/fast_sparse_vector.h", "utils/value_array.h", "utils/array2d.h", "utils/sparse_vector.h", "utils/dict.h", "utils/hash.h", "utils/murmur_hash.h", "utils/indices_after.h", "utils/fdict.h", "utils/tdict.h", "utils/stringlib.h", "utils/max_plus.h", "utils/string_to.h", "utils/nan.h", "utils/sampler.h", "utils/alias_sampler.h", "utils/star.h", "utils/fast_sparse_vector.h")


BRIDGES = {"HypergraphIO::PLFtoLattice", "HypergraphIO::AsPLF", "AlignmentPoint::Inverted"}   # nodes of a PLF forest are lattice positions; sides exchanged on purpose


def skip(fn):
    return fn.name in BRIDGES or fn.file in ("extractor/suffix_array.cc",) or fn.h.get("dep") or fn.file.startswith("klm/") or fn.file in CONTAINER_FILES or "_test" in fn.file or "/test_" in fn.file or "mocks" in fn.file


NODE, EDGE, FEAT, WORD = "forest node id", "forest edge id", "feature id", "word id"
SENT, LMW = "sentence number", "language-model vocabulary id"

FIELDS = {
    "HG::Node::id_": {"": NODE}, "HG::Node::in_edges_": {"el": EDGE}, "HG::Node::out_edges_": {"el": EDGE},
    "HG::Edge::id_": {"": EDGE}, "HG::Edge::head_node_": {"": NODE}, "HG::Edge::tail_nodes_": {"el": NODE},
    "HG::Edge::feature_values_": {"ix": FEAT},
    "Hypergraph::nodes_": {"ix": NODE}, "Hypergraph::edges_": {"ix": EDGE},
    "TRule::e_": {"el": WORD}, "TRule::f_": {"el": WORD}, "TRule::lhs_": {"": WORD}, "TRule::scores_": {"ix": FEAT},
    "LatticeArc::label": {"": WORD}, "LatticeArc::features": {"ix": FEAT},
    "SentenceMetadata::sent_id_": {"": SENT},
}
# method -> ({argument number or 'ret': {path: kind}})
METHODS = {
    "FD::NumFeats": {"ret": {"": FEAT}}, "TD::NumWords": {"ret": {"": WORD}}, "TD::end": {"ret": {"": WORD}},
    "TD::ConvertSentence": {1: {"el": WORD}}, "TD::GetWordIDs": {1: {"el": WORD}}, "TD::GetString": {0: {"el": WORD}},
    "Weights::InitFromFile": {1: {"ix": FEAT}}, "Weights::WriteToFile": {1: {"ix": FEAT}}, "Weights::InitSparseVector": {0: {"ix": FEAT}, 1: {"ix": FEAT}},
    "Hypergraph::AddNode": {0: {"": WORD}}, "TRule::CreateLexicalRule": {0: {"": WORD}, 1: {"": WORD}},
    "extractor::Alignment::GetLinks": {0: {"": "sentence of the bitext"}, "ret": {"el.1": "bitext source position", "el.2": "bitext target position"}},
    "extractor::SuffixArray::GetSuffix": {0: {"": "suffix-array rank"}, "ret": {"": "source data index"}},
    "extractor::Vocabulary::GetTerminalIndex": {"ret": {"": "grammar symbol"}}, "extractor::Vocabulary::GetTerminalValue": {0: {"": "grammar symbol"}},
}
SIDED = {
    "GetSentenceStart": {0: {"": "sentence of the bitext"}, "ret": {"": "%s data index"}},
    "GetSentenceId": {0: {"": "%s data index"}, "ret": {"": "sentence of the bitext"}},
    "GetSentenceLength": {0: {"": "sentence of the bitext"}, "ret": {"": "bitext %s position"}},
    "GetWordId": {"ret": {"": "%s vocabulary id"}}, "GetWord": {0: {"": "%s vocabulary id"}},
    "AtIndex": {0: {"": "%s data index"}, "ret": {"": "%s vocabulary id"}},
    "GetWordAtIndex": {0: {"": "%s data index"}}, "GetWordIds": {0: {"": "%s data index"}, "ret": {"el": "%s vocabulary id"}}, "GetWords": {0: {"": "%s data index"}},
    "GetData": {"ret": {"ix": "%s data index", "el": "%s vocabulary id"}}, "GetSize": {"ret": {"": "%s data index"}},
    "GetNumSentences": {"ret": {"": "sentence of the bitext"}}, "GetVocabularySize": {"ret": {"": "%s vocabulary id"}},
}
SP, TP = "bitext source position", "bitext target position"
# parameters of the rule extractor that say which side they are on
SIDES = {"source_low": {"ix": SP, "el": TP}, "source_high": {"ix": SP, "el": TP}, "target_low": {"ix": TP, "el": SP}, "target_high": {"ix": TP, "el": SP},
         "source_phrase_low": {"": SP}, "source_phrase_high": {"": SP}, "source_back_low": {"": SP}, "source_back_high": {"": SP},
         "target_phrase_low": {"": TP}, "target_phrase_high": {"": TP}, "source_sent_start": {"": "source data index"}, "sentence_id": {"": "sentence of the bitext"},
         "matching": {"el": "source data index"}, "source_gaps": {"el.1": SP, "el.2": SP}, "target_gaps": {"el.1": TP, "el.2": TP}, "source_indexes": {"ix": SP}}
SIDED_IN = re.compile(r"^extractor::(RuleExtractorHelper::(CheckAlignedTerminals|CheckTightPhrases|FindFixPoint|GetGaps|GetSourceIndexes|GetLinksSpans)|RuleExtractor::(AddExtracts|AddNonterminalExtremities|ExtractAlignments)|TargetPhraseExtractor::(ExtractPhrases|GeneratePhrases))$")
SCALARISH = re.compile(r"^(const )?(double|float|bool|std::basic_string<.*|std::string|prob_t|LogVal<.*|weight_t|char)( const)?( ?[&*])*$")


def short(n):
    return (n.get("fn") or "").split("::")[-1].split("<")[0]


STD = ("std::", "__gnu_cxx::", "SmallVector", "FastSparseVector", "boost::array", "boost::unordered", "ValueArray", "google::", "SparseVector", "boost::shared_ptr", "boost::multi_array")


def webs(fn):
    """A local integer assigned several times is several values: {(declaration, node) : web}.
    Definitions that reach a common use belong to one web."""
    asg, bad, refs = {}, set(), []
    for n in fn.nodes():
        if n["k"] == "Bin" and n["op"] == "=":
            l = uncast(n["c"][0])
            if l["k"] == "Ref" and l.get("dk") in ("local", "param") and "d" in l and INT.match(l.get("t") or ""):
                asg.setdefault(l["d"], set()).add(l["i"])
        elif n["k"] == "Un" and n["op"] == "&" and uncast(n["c"][0])["k"] == "Ref":
            bad.add(uncast(n["c"][0]).get("d"))
        elif n["k"] in ("Call", "MCall", "OCall", "Ctor"):
            args = (n.get("c") or [])[1 if n["k"] == "MCall" else 0:]
            for a, t in zip(args, n.get("pt") or []):
                if a is not None and t.endswith("&") and not t.startswith("const ") and uncast(a)["k"] == "Ref":
                    bad.add(uncast(a).get("d"))
        elif n["k"] == "Lambda":
            for m in walk(n):
                if m["k"] == "Ref":
                    bad.add(m.get("d"))
        elif n["k"] == "Var" and (n.get("t") or "").endswith("&") and n.get("c") and n["c"][0] is not None and uncast(n["c"][0])["k"] == "Ref":
            bad.add(uncast(n["c"][0]).get("d"))
    decls = {n["d"]: (1 if n.get("c") and n["c"][0] is not None else 0) for n in fn.nodes() if n["k"] == "Var" and "d" in n}
    for p in fn.params:
        if "d" in p:
            decls[p["d"]] = 1
    cand = {d for d, a in asg.items() if d not in bad and d in decls and len(a) + decls[d] >= 2}
    if not cand:
        return {}
    g = cfg(fn)
    up = {}

    def root(x):
        while up.get(x, x) != x:
            x = up[x]
        return x

    def defs(nd):
        out = {}
        if nd.ast is None:
            return out
        for m in walk_nl(nd.ast):
            if m["k"] == "Bin" and m["op"] == "=":
                l = uncast(m["c"][0])
                if l["k"] == "Ref" and l.get("d") in cand:
                    out.setdefault(l["d"], []).append((l["d"], l["i"]))
            elif m["k"] == "Var" and m.get("d") in cand:
                out.setdefault(m["d"], []).append((m["d"], 0))
        return out
    dm = {nd.id: defs(nd) for nd in g.nodes}
    init = {d: frozenset([(d, 0)]) for d in cand}

    def tr(nd, st):
        if not dm[nd.id]:
            return st
        st = dict(st)
        for d, v in dm[nd.id].items():
            st[d] = frozenset(v[-1:])
        return st
    ins = g.forward(init, tr, lambda a, b: {d: a[d] | b[d] for d in a})
    at = {}
    for nd in g.nodes:
        if nd.ast is None or nd.id not in ins:
            continue
        lhs = {i for v in dm[nd.id].values() for _, i in v}
        for m in walk_nl(nd.ast):
            if m["k"] == "Ref" and m.get("d") in cand:
                if m["i"] in lhs:
                    at[m["i"]] = (m["d"], m["i"])
                    continue
                ds = sorted(ins[nd.id][m["d"]] | frozenset(dm[nd.id].get(m["d"], [])[:-1] if len(dm[nd.id].get(m["d"], [])) > 1 else []))
                for x in ds[1:]:
                    up[root(x)] = root(ds[0])
                if ds:
                    at[m["i"]] = ds[0]
    return {i: root(x) for i, x in at.items()}


class Typer:
    def __init__(self, fn, S):
        self.webs = webs(fn)
        self.fn, self.S = fn, S
        self.vars = {}
        self.memo = {}
        self.ret = None

    def var(self, d, n=None):
        k = d if d is not None else "n:" + str(n)
        if k not in self.vars:
            self.vars[k] = Slot()
        return find(self.vars[k])

    def sizeof(self, e):
        e = uncast(e)
        while e["k"] in ("Cast", "ICast", "Paren") and e.get("c"):
            e = uncast(e["c"][0])
        return e["k"] == "MCall" and short(e) in ("size", "length", "FLength", "ELength", "Arity")

    def usable(self, t):
        return not SCALARISH.match(t or "")

    def slot(self, e):
        e = uncast(e)
        if e is None:
            return None
        i = e["i"]
        if i in self.memo:
            return self.memo[i]
        self.memo[i] = None
        r = self._slot(e)
        self.memo[i] = r
        return r

    def mapderef(self, e):
        """(container slot) when e dereferences a map iterator / is an element of a map walked by range-for."""
        return "pair<const " in (e.get("t") or "")

    def _slot(self, e):
        S, k = self.S, e["k"]
        if k == "Ref":
            if e.get("dk") in ("local", "param", "slocal") and "d" in e:
                w = self.webs.get(e["i"])
                return self.var(e["d"] if w is None or w[1] == 0 else w)
            if e.get("dk") in ("global", "slocal") and not (e.get("t") or "").startswith("const") and not INT.match(e.get("t") or ""):
                return S.statics.setdefault(e["n"], Slot(glob=True))
            return None
        if k in ("Cast", "ICast", "Paren", "Temp"):
            c = e.get("c") or []
            if not c or not self.usable(e.get("t")):
                return None
            if k == "Cast" and e.get("ck") in ("FloatingToIntegral", "IntegralToFloating", "BitCast"):
                return None
            return self.slot(c[0])
        if k == "Mem":
            f = e.get("f") or ""
            b = uncast(e["c"][0]) if e.get("c") else None
            if e["n"] in ("first", "second") and f.startswith(("std::pair", "std::_")):
                bs = self.slot(b)
                if bs is None:
                    return None
                d = b
                while d["k"] in ("OCall", "Un", "Paren") and d.get("op") in ("->", "*") and d.get("c"):
                    if "pair<const " in (d.get("t") or "") or "pair<const " in (uncast(d["c"][0]).get("t") or "") or "map" in (uncast(d["c"][0]).get("t") or ""):
                        return S.child(self.slot(d["c"][0]), "ix" if e["n"] == "first" else "el")
                    d = uncast(d["c"][0])
                if self.mapderef(b):
                    return S.child(bs, "k" if e["n"] == "first" else "v")
                return S.child(bs, "1" if e["n"] == "first" else "2")
            if not f or f.startswith("indices_after::") or f in ("HG::Edge::i_", "HG::Edge::j_", "HG::Edge::prev_i_", "HG::Edge::prev_j_"):
                return None
            if "<" in f.split("(")[0] and not f.startswith(("HG::", "KLanguageModel", "ReverseCharLM", "VMapper", "CSVMapper")):
                return None
            return S.field(f)
        if k == "Sub":
            b = self.slot(e["c"][0])
            if re.match(r"^(const )?(unsigned |short |long )*(int|short|long|WordID|unsigned)( const)? \*", uncast(e["c"][0]).get("t") or ""):
                self.slot(e["c"][1])
                return b          # a pointer to integers stands for what it points to
            S.unify(self.slot(e["c"][1]), S.child(b, "ix")) if INT.match(uncast(e["c"][1]).get("t") or "int") else None
            return S.child(b, "el")
        if k == "OCall":
            op = e["op"]
            if op == "[]":
                b = self.slot(e["c"][0])
                x = self.slot(e["c"][1])
                if b is not None:
                    S.unify(x, S.child(b, "ix"))
                    return S.child(b, "el")
                return None
            if op == "*" and len(e["c"]) == 1:
                b = uncast(e["c"][0])
                if "_ptr<" in (b.get("t") or "") or "Ptr" in (b.get("t") or ""):
                    return self.slot(b)
                s = self.slot(b)
                if "pair<const " in (e.get("t") or ""):
                    r = Slot()
                    r.ch["k"], r.ch["v"] = S.child(s, "ix"), S.child(s, "el")
                    return r
                return S.child(s, "el")
            if op == "->" and len(e["c"]) == 1:
                b = uncast(e["c"][0])
                if "_ptr<" in (b.get("t") or "") or "Ptr" in (b.get("t") or ""):
                    return self.slot(b)
                return S.child(self.slot(b), "el")
            if op in ("++", "--"):
                return self.slot(e["c"][0])
            if op == "=":
                a, b = self.slot(e["c"][0]), self.slot(e["c"][1])
                S.same(a, b)
                return a
            if op in ("+=", "-=") and len(e["c"]) == 2 and "SparseVector" in (uncast(e["c"][0]).get("t") or ""):
                a, b = self.slot(e["c"][0]), self.slot(e["c"][1])
                S.unify(a, b)
                return a
            if op in ("+", "-") and len(e["c"]) == 2:
                a, b = uncast(e["c"][0]), uncast(e["c"][1])
                if "iterator" in (a.get("t") or "") or "SparseVector" in (a.get("t") or ""):
                    return self.slot(a)
                return None
            if op in ("==", "!=", "<", ">", "<=", ">=") and len(e["c"]) == 2:
                S.unify(self.slot(e["c"][0]), self.slot(e["c"][1]))
                return None
            if op == "()" :
                return self.call(e)
            return None
        if k == "Un":
            if e["op"] in ("&", "*", "+"):
                b = uncast(e["c"][0])
                s = self.slot(b)
                if e["op"] == "*" and False:
                    return S.child(s, "el")
                return s
            if e["op"] in ("++", "--"):
                return self.slot(e["c"][0])
            return None
        if k == "Bin":
            op = e["op"]
            if op == "=":
                a, b = self.slot(e["c"][0]), self.slot(e["c"][1])
                if self.usable(uncast(e["c"][0]).get("t")):
                    S.unify(a, b)
                return a
            if op in ("==", "!=", "<", ">", "<=", ">="):
                a, b = uncast(e["c"][0]), uncast(e["c"][1])
                if self.usable(a.get("t")) and self.usable(b.get("t")):
                    if self.sizeof(a) and self.sizeof(b):
                        self.slot(a), self.slot(b)      # two lengths compared
                    else:
                        S.unify(self.slot(a), self.slot(b))
                return None
            if op in ("+", "-"):
                a, b = e["c"]
                if is_const(b) is not None and abs(is_const(b)) <= 1:
                    return self.slot(a)
                if op == "+" and is_const(a) is not None and abs(is_const(a)) <= 1:
                    return self.slot(b)
                t = uncast(a).get("t") or ""
                if t.rstrip().endswith("*"):
                    return self.slot(a)
                return None
            if op == ",":
                return self.slot(e["c"][1])
            return None
        if k == "Cond":
            a, b = self.slot(e["c"][1]), self.slot(e["c"][2])
            if self.usable(e.get("t")):
                S.unify(a, b)
                return a if a is not None else b
            return None
        if k in ("Ctor", "Init"):
            return self.ctor(e)
        if k in ("Call", "MCall"):
            return self.call(e)
        if k == "Var":
            return self.var(e["d"])
        if k == "New":
            for c in e.get("c") or []:
                if c is not None:
                    return self.slot(c) if not e.get("arr") else None
            return None
        return None

    def ctor(self, e):
        S = self.S
        c = [x for x in e.get("c") or [] if x is not None]
        t = e.get("t") or ""
        if re.match(r"^(const )?std::pair<", t):
            if len(c) == 2:
                r = Slot()
                for n, x in zip("12", c):
                    s = self.slot(x)
                    if s is not None:
                        r.ch[n] = s
                return r
            if len(c) == 1:
                return self.slot(c[0])
            return None
        if len(c) == 1 and re.sub(r"[&* ]|const", "", uncast(c[0]).get("t") or "") == re.sub(r"[&* ]|const", "", t):
            return self.slot(c[0])
        if re.match(r"^(const )?(std::vector|SmallVector)", t) or "TailNodeVector" in t:
            r = Slot()
            if c and INT.match(uncast(c[0]).get("t") or ""):
                S.unify(self.slot(c[0]), S.child(r, "ix"))
                if len(c) >= 2 and self.usable(uncast(c[1]).get("t")):
                    S.unify(self.slot(c[1]), S.child(r, "el"))
            elif len(c) >= 2 and ("iterator" in (uncast(c[0]).get("t") or "") or (uncast(c[0]).get("t") or "").rstrip().endswith("*")):
                a = self.slot(c[0])
                if a is not None:
                    S.unify(S.child(a, "el") if "iterator" in (uncast(c[0]).get("t") or "") else a, S.child(r, "el"))
            return r
        if "iterator" in t and len(c) == 1:
            return self.slot(c[0])
        if ("shared_ptr" in t or "_ptr<" in t) and len(c) == 1:
            return self.slot(c[0])
        if e.get("f"):
            return self.apply(e, c)
        return None

    def call(self, e):
        S = self.S
        fn = e.get("fn") or ""
        s = short(e)
        k = e["k"]
        if k == "MCall":
            obj, args = e["c"][0], e["c"][1:]
        elif k == "OCall":
            obj, args = e["c"][0], e["c"][1:]
        else:
            obj, args = None, e.get("c") or []
        if k == "Call" and fn.startswith("std::"):
            if s in ("min", "max") and len(args) == 2:
                if self.usable(uncast(args[0]).get("t")):
                    a, b = self.slot(args[0]), self.slot(args[1])
                    S.unify(a, b)
                    return a if a is not None else b
                return None
            if s == "swap" and len(args) == 2:
                S.unify(self.slot(args[0]), self.slot(args[1]))
                return None
            if s == "make_pair" and len(args) == 2:
                r = Slot()
                for n, x in zip("12", args):
                    y = self.slot(x)
                    if y is not None and self.usable(uncast(x).get("t")):
                        r.ch[n] = y
                return r
            if s in ("find", "count", "lower_bound", "upper_bound", "binary_search", "fill") and len(args) >= 3:
                a = self.slot(args[0])
                if "iterator" in (uncast(args[0]).get("t") or ""):
                    S.unify(self.slot(args[2]), S.child(a, "el"))
                return a
            if s in ("move", "forward", "ref", "cref", "abs") and len(args) == 1 and s != "abs":
                return self.slot(args[0])
            for a in args:
                self.slot(a)
            return None
        if obj is not None and k == "MCall" and (fn.startswith(STD) or "std::" in (uncast(obj).get("t") or "")[:12]):
            return self.stdcall(e, s, obj, args)
        # seeds
        seeds = METHODS.get(fn)
        side = None
        if fn.startswith("extractor::DataArray::"):
            m = re.search(r"(source|target)", render(obj)) if obj is not None else None
            side = m.group(1) if m else None
            seeds = SIDED.get(s) if side else None
            if side is None and s in SIDED:
                for a in args:
                    self.slot(a)
                return None
        if fn.startswith("lm::"):
            for a, t in zip(args, e.get("pt") or []):
                if a is not None and t in ("unsigned int", "const unsigned int"):
                    self.need(a, {"": LMW}, fn)
            if re.match(r"^(const )?unsigned int$", e.get("t") or "") and s in ("Index", "BeginSentence", "EndSentence", "NotFound"):
                return Slot(LMW, False, fn)
            return None
        if fn in ("FD::Convert", "TD::Convert"):
            kind = FEAT if fn[0] == "F" else WORD
            pt = (e.get("pt") or [""])[0]
            if "string" in pt or "char" in pt:
                return Slot(kind, False, fn)
            self.need(args[0], {"": kind}, fn)
            return None
        if seeds:
            r = None
            for a, d in seeds.items():
                if side:
                    d = {p: (x % side if "%s" in x else x) for p, x in d.items()}
                if a == "ret":
                    r = Slot()
                    for p, x in d.items():
                        q = r
                        for w in [w for w in p.split(".") if w]:
                            q = S.child(q, w)
                        q.kind, q.why = x, fn
                elif a < len(args):
                    self.need(args[a], d, fn)
            if r is not None:
                return r
        return self.apply(e, args)

    def need(self, arg, d, why):
        S = self.S
        s = self.slot(arg)
        if s is None:
            return
        n = S.node
        S.node = uncast(arg) if "l" in (uncast(arg) or {}) else n
        for p, x in d.items():
            q = s
            for w in [w for w in p.split(".") if w]:
                q = S.child(q, w)
            S.seed(q, x, why)
        S.node = n

    def apply(self, e, args):
        """call of a function with a body: unify with an instance of its summary."""
        S = self.S
        keys = []
        f = e.get("f")
        if f in S.db.fns:
            keys.append(f)
        if not keys or S.db.fns[keys[0]].body is None:
            keys = [t.key for t in S.calls.targets(e)]
        sl = [self.slot(a) if a is not None else None for a in args]
        ret = None
        for key in keys[:6]:
            sm, rec = S.summary(key)
            if sm is None:
                continue
            memo = {}
            ps, r = sm
            for i, (a, p) in enumerate(zip(sl, ps)):
                if a is None:
                    continue
                n = S.node
                S.node = uncast(args[i])
                S.unify(a, p if rec else S.copy(p, memo))
                S.node = n
            rr = r if rec else S.copy(r, memo)
            if ret is None:
                ret = rr
            else:
                S.unify(ret, rr)
        return ret

    def stdcall(self, e, s, obj, args):
        S = self.S
        o = self.slot(obj)
        ot = uncast(obj).get("t") or ""
        if o is None:
            for a in args:
                self.slot(a)
            return None
        a = [self.slot(x) for x in args]
        if "ptr<" in ot and s in ("get", "reset"):
            if s == "reset" and a:
                S.unify(o, a[0])
            return o
        ismap = re.search(r"\b(unordered_)?(multi)?map<|sparse_hash_map|dense_hash_map|SparseVector", ot) is not None
        isset = re.search(r"\b(unordered_)?(multi)?set<", ot) is not None
        el, ix = lambda: S.child(o, "el"), lambda: S.child(o, "ix")
        if s in ("size", "length", "max_size"):
            return ix() if not (ismap or isset) else None
        if s in ("begin", "end", "rbegin", "rend", "cbegin", "cend", "data"):
            return o
        if s in ("at",):
            S.unify(a[0], ix())
            return el()
        if s in ("back", "front", "top"):
            return el()
        if s in ("push_back", "push", "emplace_back", "push_front") and len(a) == 1:
            if self.usable(uncast(args[0]).get("t")):
                S.unify(a[0], el())
            return None
        if s in ("resize", "assign", "reserve"):
            if args and INT.match(uncast(args[0]).get("t") or ""):
                S.unify(a[0], ix())
                if len(a) > 1 and self.usable(uncast(args[1]).get("t")):
                    S.unify(a[1], el())
            return None
        if s in ("set_value", "add_value"):
            S.unify(a[0], ix())
            return None
        if s in ("value", "get", "nonzero") and "SparseVector" in ot and a:
            S.unify(a[0], ix())
            return el()
        if s == "dot" and a:
            S.unify(a[0], o)
            return None
        if s in ("find", "count", "lower_bound", "upper_bound", "erase") and a:
            t = uncast(args[0]).get("t") or ""
            if "iterator" not in t and self.usable(t):
                S.unify(a[0], ix() if ismap else el())
            return o if s in ("find", "lower_bound", "upper_bound") else None
        if s in ("insert",) and len(a) == 1:
            if ismap and a[0] is not None:
                S.unify(S.child(a[0], "1"), ix())
                S.unify(S.child(a[0], "2"), el())
                r = Slot()
                r.ch["1"] = o
                return r
            if isset:
                if self.usable(uncast(args[0]).get("t")):
                    S.unify(a[0], el())
                r = Slot()
                r.ch["1"] = o
                return r
            return None
        if s == "swap" and a:
            S.unify(a[0], o)
            return None
        return None

    def run(self):
        fn, S = self.fn, self.S
        for i in fn.inits:
            if i.get("field") and i["c"] and i["c"][0] is not None:
                S.node = i["c"][0]
                a = self.slot(i["c"][0])
                f = i["field"] if "::" in i["field"] else (fn.h.get("cls") or "") + "::" + i["field"]
                if self.usable(uncast(i["c"][0]).get("t")) and "<" not in f:
                    S.unify(S.field(f), a)
        for n in fn.nodes():
            k = n["k"]
            if k in ("OCall", "MCall", "Call", "Bin", "Sub", "Cond", "Ctor"):
                S.node = n
                self.slot(n)
            elif k == "Var" and n.get("c") and n["c"][0] is not None:
                S.node = n
                if self.usable(n.get("t")):
                    S.unify(self.var(n["d"]), self.slot(n["c"][0]))
            elif k == "ForRange":
                v = n.get("var")
                if v is not None:
                    S.node = n
                    r = self.slot(n["c"][0])
                    if r is not None:
                        if "pair<const " in (v.get("t") or ""):
                            vs = self.var(v["d"])
                            S.unify(S.child(vs, "k"), S.child(r, "ix"))
                            S.unify(S.child(vs, "v"), S.child(r, "el"))
                        elif self.usable(v.get("t")):
                            S.unify(self.var(v["d"]), S.child(r, "el"))
            elif k == "Return" and n.get("c") and n["c"][0] is not None:
                S.node = n
                if self.usable(fn.h.get("ret") or ""):
                    S.unify(self.ret, self.slot(n["c"][0]))


def run(db, ctx):
    from ir import Calls
    S = Solver(db, ctx)
    S.calls = Calls(db)
    ctx.rule("kinds", "node ids, edge ids, feature ids, word ids, language-model ids, sentence numbers, suffix-array ranks, data-array positions, vocabulary ids and bitext positions get their kind where they are defined; polymorphic unification carries kinds through assignments, comparisons, container indexes and elements, fields, calls and returns; no place may have two kinds")
    ctx.assume.append("an integer computed by arithmetic other than +/-1 has no kind; local integers are split by reaching definitions; containers of the library are modelled, not analysed; PLF forests (node = lattice position) and AlignmentPoint::Inverted are declared bridges")
    n = 0
    for f in sorted(db.fns.values(), key=lambda f: (f.file, f.line, f.key)):
        if f.body is None or skip(f):
            continue
        n += 1
        S.summary(f.key)
    ctx.count("functions_typed", n)
    ctx.count("unifications", S.merged)
    by, seen = {}, set()
    for key, nd, s in S.joins:
        k = find(s).kind
        at = (key, nd["i"] if nd is not None else 0, k)
        if k is None or at in seen:
            continue
        seen.add(at)
        by[k] = by.get(k, 0) + 1
        ctx.ob()
        if by[k] <= 2 and nd is not None:
            ctx.sample("%s: %s in %s" % (db.fns[key].loc(nd), k, db.fns[key].name))
    for k, c in sorted(by.items()):
        ctx.count(k.replace(" ", "_").replace("-", "_"), c)
    ctx.floor("kinds", len(by), 8)
    ctx.floor("joins", sum(by.values()), 300)
    seen = set()
    for (k, i), (fn, nd, a, b, w1, w2) in sorted(S.conf.items(), key=lambda x: (x[1][0].file, x[1][1]["l"] if x[1][1] is not None else 0)):
        where = fn.loc(nd)
        if where in seen:
            continue
        seen.add(where)
        ctx.violate("kinds", where, "%s uses a %s as a %s (%s; %s)" % (fn.name, a, b, w1, w2), "%s|%s" % (fn.name, render(nd)[:80]))
