"""No scalar is read before it has a value: locals (definite assignment) and data members (constructors)."""
import re
from facts import children, walk
from ir import cfg, uncast, path, ref_aliases, base_type, plain_type, walk_nl, evalorder, fixpoint, Calls, render

GROUPS = ["utils", "decoder", "mteval", "training", "word-aligner", "extractor"]
SCALAR = re.compile(r"^(const )?(unsigned |signed )?(int|char|short|long|long long|bool|float|double|unsigned|wchar_t|size_t|unsigned int|unsigned char|unsigned short|unsigned long)$")


def scalar(db, t):
    t = t.strip()
    if t.endswith("*") or t.endswith("*const"):
        return True
    if SCALAR.match(t):
        return True
    b = t.replace("const ", "").replace("enum ", "")
    return b in db.enums


def nonconst_ref(t):
    t = t.rstrip()
    if not t.endswith("&"):
        return False
    u = t.rstrip("&").rstrip()
    return not (u.endswith("const") or (u.startswith("const ") and not u.endswith("*")))


def fact(e, pol):
    """canonical (text, polarity) of a branch condition; negations folded in."""
    e = uncast(e)
    while True:
        if e["k"] == "Un" and e["op"] == "!" or e["k"] == "OCall" and e["op"] == "!" and len(e["c"]) == 1:
            e, pol = uncast(e["c"][0]), not pol
            continue
        if e["k"] == "MCall" and "operator bool" in (e.get("fn") or "") and e.get("c"):
            e = uncast(e["c"][0])
            continue
        break
    if e["k"] == "Bin" and e["op"] in ("!=", ">=", ">", "<="):
        a, b = render(e["c"][0]), render(e["c"][1])
        if e["op"] == "!=":
            return "(%s==%s)" % (a, b), not pol
        if e["op"] == ">=":
            return "(%s<%s)" % (a, b), not pol
        if e["op"] == ">":
            return "(%s<%s)" % (b, a), pol
        return "(%s<%s)" % (b, a), not pol
    return render(e), pol


class Locals:
    def __init__(self, db, ctx, f):
        self.db, self.ctx, self.f = db, ctx, f

    def run(self):
        f = self.f
        cand = {}
        for n in f.nodes():
            if n["k"] == "Var" and not n.get("static") and not children(n) and scalar(self.db, n["t"]) and not n.get("param"):
                cand[n["d"]] = n
        if not cand:
            return 0
        # loop variables of range-for, catch variables, lambda captured: skip
        for n in f.nodes():
            if n["k"] == "ForRange":
                cand.pop(n["var"]["d"], None)
            if n["k"] == "Catch" and n.get("var"):
                cand.pop(n["var"]["d"], None)
            if n["k"] == "Lambda":
                for x in walk(n):
                    if x["k"] == "Ref" and x.get("d") in cand:
                        cand.pop(x["d"], None)
            if n["k"] == "Un" and n["op"] == "&":
                # address taken: only plain call arguments count as writes, anything else leaves the analysis
                pass
        g = cfg(f)
        self.cand = cand
        self.rep = set()
        ins = g.forward(frozenset(), lambda n, s: self.step(n, s, False), lambda a, b: a | b)
        for n in g.nodes:
            if n.id in ins:
                self.step(n, ins[n.id], True)
        return len(cand)

    def step(self, n, s, report):
        """s: set of (local that may still be unset, facts established since it was declared)."""
        if n.kind == "unscope":
            ds = {v["d"] for v in n.vars}
            return frozenset(x for x in s if x[0] not in ds)
        if n.kind == "assume" and s:
            t, pol = fact(n.ast, n.pol)
            if "?" in t or not s:
                return s
            out = set()
            for d, fs in s:
                if (t, not pol) in fs:
                    continue
                if len(fs) < 6:
                    fs = fs | {(t, pol)}
                out.add((d, fs))
            if not out:
                return None
            return frozenset(out)
        if n.kind in ("assume", "loop", "join", "entry", "exit", "return", "omp", "ompend", "catch") or n.ast is None:
            return s
        st = {}
        for d, fs in s:
            st.setdefault(d, set()).add(fs)
        writes, nowrite, killed = {}, set(), set()
        # classify references: written (lhs of =, &x argument, reference argument, >> target) or read
        for x in walk_nl(n.ast):
            k = x["k"]
            if k in ("Bin", "CAssign") and x["op"].endswith("=") and x["op"] not in ("==", "!=", "<=", ">="):
                l = uncast(x["c"][0])
                if l["k"] == "Ref" and x["op"] == "=":
                    writes[l["i"]] = "assign"
                killed.add(render(l))
            elif k == "Un" and x["op"] in ("++", "--"):
                killed.add(render(uncast(x["c"][0])))
            elif k == "Var":
                killed.add("%s#%d" % (x["n"], x["d"]))
                if x["t"].rstrip().endswith("&") and children(x):
                    u = uncast(x["c"][0])
                    if u["k"] == "Ref":
                        writes[u["i"]] = "addr"
            elif k == "Un" and x["op"] == "&":
                l = uncast(x["c"][0])
                if l["k"] == "Ref":
                    writes[l["i"]] = "addr"
                killed.add(render(l))
            elif k in ("Call", "MCall", "OCall", "Ctor"):
                args = x.get("c") or []
                pt = x.get("pt") or []
                off = 1 if k == "MCall" or (k == "OCall" and len(args) == len(pt) + 1) else 0
                if off and args and args[0] is not None and not x.get("cm") and x.get("op") not in ("[]", "*", "->"):
                    killed.add(render(uncast(args[0])))
                for i, a in enumerate(args):
                    if a is None:
                        continue
                    if k == "OCall" and x["op"] in (">>", "&") and i == 1:
                        u = uncast(a)
                        if u["k"] == "Ref":
                            writes[u["i"]] = "addr"
                        killed.add(render(u))
                        continue
                    if i - off < 0 or i - off >= len(pt):
                        continue
                    t = pt[i - off]
                    u = uncast(a)
                    if nonconst_ref(t):
                        killed.add(render(u))
                        if u["k"] == "Ref":
                            writes[u["i"]] = "addr"
            elif k == "Sizeof":
                for y in walk(x):
                    nowrite.add(y["i"])
            elif k == "Cast" and x.get("t") == "void":
                u = uncast(x)
                if u is not None and u["k"] == "Ref":
                    nowrite.add(u["i"])
        for x in evalorder(n.ast):
            k = x["k"]
            if k == "Var" and x["d"] in self.cand and x["i"] == self.cand[x["d"]]["i"]:
                st[x["d"]] = {frozenset()}
            elif k == "Ref" and x.get("dk") == "local" and x["d"] in st:
                w = writes.get(x["i"])
                if w == "addr":
                    del st[x["d"]]
                elif w == "assign" or x["i"] in nowrite:
                    pass
                else:
                    if report and x["d"] not in self.rep:
                        self.rep.add(x["d"])
                        self.ctx.violate("local-set-before-use", self.f.loc(x), "%s may read '%s' before it is given a value" % (self.f.name, x["n"]), "%s|%s" % (self.f.name, x["n"]))
                    del st[x["d"]]
            elif k == "Bin" and x["op"] == "=":
                l = uncast(x["c"][0])
                if l["k"] == "Ref":
                    st.pop(l.get("d"), None)
        out = set()
        for d, fss in st.items():
            for fs in fss:
                if killed and fs:
                    fs = frozenset(f for f in fs if not any(q and q in f[0] for q in killed))
                out.add((d, fs))
            # keep the state small: forget facts when there are many variants
        if len(out) > 64:
            out = {(d, frozenset()) for d, _ in out}
        return frozenset(out)


# members deliberately left unset by a constructor: what sets them before the first read
EXEMPT = {
    "OracleBleu::*": "bound to command-line options with defaults in AddOptions before use",
    "SmallVector::capacity_": "only read while the vector is on the heap, where every allocation sets it",
    "indices_after::map": "only read for i < n_mapped, which is 0 until init() allocates it",
    "indices_after::n_kept": "set by init() together with n_mapped",
    "gzstreambuf::file": "only read while opened is true, open() sets it",
    "gzstreambuf::mode": "only read while opened is true, open() sets it",
    "Candidate::node_index_": "the two-argument constructor builds a key for a uniqueness query that is never incorporated; other candidates get the index when it is looked up",
    "Hack::Candidate::node_index_": "as for Candidate",
    "EarleyComposerImpl::goal_node": "Compose() sets it before anything reads it",
    "SpanFeatures::fid_beg_": "only read when use_collapsed_features_, set with it",
    "SpanFeatures::fid_end_": "only read when use_collapsed_features_, set with it",
    "SpanFeatures::fid_span_": "only read when use_collapsed_features_, set with it",
    "SpanFeatures::fid_span_s_": "only read when use_collapsed_features_, set with it",
    "SpanFeatures::oov_": "only read when the class map is non-empty, set with it",
    "BlunsomSynchronousParseHack::cur_ref_": "PrepareForInput sets it before any feature is fired",
    "SCFGTranslatorImpl::ctf_alpha_": "only read under use_ctf_, set with it",
    "SCFGTranslatorImpl::ctf_wide_alpha_": "only read under use_ctf_, set with it",
    "SCFGTranslatorImpl::ctf_num_widenings_": "only read under use_ctf_, set with it",
    "SCFGTranslatorImpl::ctf_exhaustive_": "only read under use_ctf_, set with it",
    "SCFGTranslatorImpl::show_tree_structure_": "only read under use_ctf_, set with it",
    "TreeFragmentProduction::lhs": "ParseRec fills the production before it is published",
    "DepthFirstIterator::sym": "Stage() sets it for every dereferenceable position; end iterators are not dereferenced",
    "BreadthFirstIterator::sym": "Stage() sets it for every dereferenceable position; end iterators are not dereferenced",
    "cdec::TreeFragmentProduction::lhs": "ParseRec fills the production before it is published",
    "cdec::DepthFirstIterator::sym": "Stage() sets it for every dereferenceable position; end iterators are not dereferenced",
    "cdec::BreadthFirstIterator::sym": "Stage() sets it for every dereferenceable position; end iterators are not dereferenced",
    "BackoffSampler::max_samples": "default constructor serves test doubles that override sampling",
    "extractor::BackoffSampler::max_samples": "default constructor serves test doubles that override sampling",
    "ConditionalLikelihoodObserver::state": "set by the first notification",
    "maxent::ME_Model::SGD_ITER": "read only after use_SGD() selected the method and set it",
    "maxent::ME_Model::SGD_ETA0": "read only after use_SGD() selected the method and set it",
    "maxent::ME_Model::SGD_ALPHA": "read only after use_SGD() selected the method and set it",
    "maxent::ME_Model::_num_classes": "set by training or loading, meaningless before",
    "maxent::ME_Model::_train_error": "set by training, meaningless before",
    "maxent::ME_Model::_heldout_error": "set by training, meaningless before",
    "dtrain::KBestGetter::src_len_": "set by NotifySourceParseComplete-time hook before scoring",
    "dtrain::KSampler::src_len_": "set by the forest notification before scoring",
    "dtrain::KSampler::scorer": "unused member",
    "ProLoss::tppl": "set by operator() before GetHeldoutPerplexity-style reads",
    "LBFGS::ec": "progress counter, reset in MinimizeFunction before use",
}


class Members:
    """definite assignment of scalar members in constructors, through own-class helper calls."""

    def __init__(self, db, ctx):
        self.db, self.ctx = db, ctx
        self.must = {}

    def fields(self, cls):
        r = self.db.recs.get(cls)
        if not r:
            return {}
        return {x["n"]: x for x in r["fields"] if not x.get("static") and not x.get("init") and (x.get("scalar") or scalar(self.db, x["t"]))}

    def own(self, x):
        """member name when x denotes this->m (or an element of it)"""
        x = uncast(x)
        while x is not None and x["k"] == "Sub":
            x = uncast(x["c"][0])
        if x is not None and x["k"] == "Mem" and not x.get("sv") and not x.get("meth") and x.get("c") and x["c"][0]["k"] == "This":
            return x["n"]
        return None

    def effects(self, n, f, stack):
        """ordered events of a CFG node: ('set', m) / ('read', m, node) / ('all',)"""
        ev = []
        asg = set()
        for x in walk_nl(n.ast):
            if x["k"] == "Bin" and x["op"] == "=":
                l = uncast(x["c"][0])
                if l["k"] == "Mem":
                    asg.add(l["i"])
        addr = set()
        for x in walk_nl(n.ast):
            if x["k"] == "Un" and x["op"] == "&":
                addr.add(uncast(x["c"][0])["i"])
            if x["k"] in ("Call", "MCall", "OCall", "Ctor"):
                args, pt = x.get("c") or [], x.get("pt") or []
                off = 1 if x["k"] == "MCall" or (x["k"] == "OCall" and len(args) == len(pt) + 1) else 0
                for i, a in enumerate(args):
                    if a is None or i - off < 0:
                        continue
                    if x["k"] == "OCall" and x["op"] in (">>", "&") and i == 1 or i - off < len(pt) and nonconst_ref(pt[i - off]):
                        addr.add(uncast(a)["i"])
            if x["k"] == "Var" and x["t"].rstrip().endswith("&") and children(x):
                addr.add(uncast(x["c"][0])["i"])
        for x in evalorder(n.ast):
            k = x["k"]
            if k == "Mem":
                m = self.own(x)
                if m:
                    if x["i"] in addr:
                        ev.append(("set", m))
                    elif x["i"] not in asg:
                        ev.append(("read", m, x))
            elif k == "Bin" and x["op"] == "=":
                m = self.own(x["c"][0])
                if m:
                    ev.append(("set", m))
                l = uncast(x["c"][0])
                if l["k"] == "Un" and l["op"] == "*" and uncast(l["c"][0])["k"] == "This":
                    ev.append(("all",))
            elif k in ("Call", "MCall", "OCall", "Ctor"):
                args = x.get("c") or []
                t = self.db.fns.get(x.get("f"))
                isthis = bool(args) and args[0] is not None and uncast(args[0])["k"] in ("This",) or bool(args) and args[0] is not None and uncast(args[0])["k"] == "Un" and uncast(args[0]).get("op") == "*" and uncast(uncast(args[0])["c"][0])["k"] == "This"
                if k == "OCall" and x["op"] == "=" and isthis:
                    ev.append(("all",))
                elif k == "MCall" and isthis:
                    if t is not None and t.body is not None:
                        for m in self.must_set(t, stack):
                            ev.append(("set", m))
                elif k == "Call" and any(a is not None and uncast(a)["k"] == "This" for a in args):
                    ev.append(("all",))
        return ev

    def must_set(self, f, stack=()):
        if f.key in self.must:
            return self.must[f.key]
        if f.key in stack or len(stack) > 6:
            return frozenset()
        r = self.flow(f, stack + (f.key,))[0]
        self.must[f.key] = r
        return r

    def flow(self, f, stack, watch=None):
        """-> (members surely set when f returns, [(read-before-set member, node)])"""
        g = cfg(f)
        ALL = "*"

        def tr(n, s):
            if n.ast is None or n.kind in ("assume", "return", "omp", "ompend", "catch", "loop", "join", "unscope"):
                return s
            st = set(s)
            for e in self.effects(n, f, stack):
                if e[0] == "set":
                    st.add(e[1])
                elif e[0] == "all":
                    st.add(ALL)
            if n.kind == "init" and n.extra.get("field") and (n.extra.get("w") or n.extra["c"]):
                st.add(n.extra["field"].split("::")[-1])
            if n.kind == "init" and not n.extra.get("field") and n.extra.get("deleg"):
                st.add(ALL)
            return frozenset(st)
        init = frozenset()
        ins = g.forward(init, tr, lambda a, b: a & b if ALL not in a and ALL not in b else (b if ALL in a and ALL not in b else a if ALL in b and ALL not in a else a & b))
        reads = []
        if watch is not None:
            for n in g.nodes:
                if n.id not in ins or n.ast is None or n.kind in ("assume", "return", "omp", "ompend", "catch", "loop", "join", "unscope"):
                    continue
                st = set(ins[n.id])
                for e in self.effects(n, f, stack):
                    if e[0] == "set":
                        st.add(e[1])
                    elif e[0] == "all":
                        st.add(ALL)
                    elif e[0] == "read" and e[1] in watch and e[1] not in st and ALL not in st:
                        reads.append((e[1], e[2]))
        return ins.get(g.exit.id, frozenset([ALL])), reads

    def run(self):
        nc = nm = 0
        seen = set()
        used = self.constructed()
        for f in sorted(self.db.fns.values(), key=lambda f: (f.file, f.line, f.key)):
            if not f.h.get("ctor") or f.h.get("impl") or f.body is None or f.file.startswith("/") or f.file.startswith("klm/"):
                continue
            if (f.file, f.line) in seen:
                continue
            seen.add((f.file, f.line))
            cls = f.h.get("cls") or f.cls
            fl = self.fields(cls)
            if not fl:
                continue
            if f.h.get("copy") or len(f.params) == 1 and plain_type(f.params[0]["t"]) == plain_type(cls):
                continue            # copies are judged for completeness elsewhere
            nc += 1
            done, reads = self.flow(f, (f.key,), set(fl))
            for m, x in reads:
                self.ctx.violate("member-read-early", f.loc(x), "constructor %s reads member %s before giving it a value" % (f.name, m), "%s|%s" % (f.name, m))
            pc = plain_type(cls)
            for m in sorted(fl):
                nm += 1
                ok = m in done or "*" in done
                if not ok:
                    why = EXEMPT.get("%s::%s" % (pc, m)) or EXEMPT.get("%s::*" % pc)
                    if why is None and f.h.get("acc") in ("protected", "private") and f.key not in used:
                        why = "constructor is not public and never called (test doubles only)"
                    if why is None and not self.read_anywhere(pc, m):
                        why = "member is never read"
                    if why:
                        self.ctx.notes.append("%s::%s left unset by %s: %s" % (pc, m, f.loc(), why))
                        ok = True
                self.ctx.ob(ok)
                if not ok:
                    self.ctx.violate("member-initialised", f.loc(), "constructor %s leaves scalar member %s without a value on some path" % (f.name, m), "%s/%d|%s" % (f.name, len(f.params), m))
        return nc, nm

    def constructed(self):
        r = set()
        for f in self.db.fns.values():
            for n in f.nodes():
                if n["k"] == "Ctor" and n.get("f"):
                    r.add(n["f"])
        return r

    def read_anywhere(self, pc, m):
        if not hasattr(self, "_reads"):
            self._reads = set()
            for f in self.db.fns.values():
                asg = set()
                for n in f.nodes():
                    if n["k"] == "Bin" and n["op"] == "=":
                        asg.add(uncast(n["c"][0])["i"])
                for n in f.nodes():
                    if n["k"] == "Mem" and n.get("f") and n["i"] not in asg:
                        self._reads.add(re.sub(r"<[^>]*>", "", n["f"]))
        return "%s::%s" % (pc, m) in self._reads


def run(db, ctx):
    ctx.rule("local-set-before-use", "a scalar local declared without a value is given one on every path before it is read")
    ctx.rule("member-initialised", "every constructor gives every scalar data member a value, unless the class sets it before every read")
    nl = 0
    seen = set()
    for f in sorted(db.fns.values(), key=lambda f: (f.file, f.line, f.key)):
        if f.file.startswith("/") or f.h.get("impl") or f.body is None or (f.file, f.line) in seen:
            continue
        seen.add((f.file, f.line))
        nl += Locals(db, ctx, f).run()
    ctx.floor("locals_declared_without_value", nl, 10)
    nc, nm = Members(db, ctx).run()
    for _ in range(nl):
        ctx.ob()
    ctx.floor("constructors", nc, 60)
    ctx.floor("scalar_members_at_construction", nm, 150)
