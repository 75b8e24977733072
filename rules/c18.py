"""C18: results do not depend on chance, the clock or memory addresses.

chance    random sources are used only where sampling is meant, and the random generator is seeded with the given seed
clock     what a clock returns only reaches messages and elapsed-time sums (or a time limit the user asked for)
order     nothing is ordered, walked, numbered or printed by memory address
"""
import re
from facts import walk, AnalysisError
from ir import cfg, uncast, children, path, render, evalorder, fn_parents, walk_nl, Calls, inexpr_guards
from c14 import short

GROUPS = ["utils", "decoder", "training", "extractor", "mteval", "word-aligner"]

CHANCE = {"rand", "random", "drand48", "lrand48", "mrand48", "rand_r", "erand48", "random_shuffle", "getpid", "getppid", "pthread_self", "get_id", "gettid", "omp_get_thread_num", "arc4random", "getrandom", "srand", "srandom", "srand48", "tmpnam", "hostname", "gethostname"}
CLOCK = {"time", "clock", "gettimeofday", "clock_gettime", "times", "getrusage", "now", "ftime"}
# functions in which a source of chance is meant: name -> (calls, reason)
MEANT = {
    "TernaryQuicksort": ({"rand"}, "random pivot: the sorted result is the same for every pivot"),
    "perform_SGD": ({"random_shuffle"}, "order of training samples, from the library's unseeded (hence repeatable) sequence"),
    "GetTrulyRandomSeed": ({"time"}, "seed for generators nobody gave a seed"),
}
TESTS = re.compile(r"(_test\.(cc|cpp)$|/ts\.cc$|test_|^tests/)")
# generators that are created without a seed because the program offers none: sampling is what was asked for
UNSEEDED = {("decoder/decoder.cc", "max_translation_sample"), ("training/dtrain/dtrain.cc", "forest sampling"), ("training/dpmert/mr_dpmert_generate_mapper_input.cc", "random directions")}
UNSEEDED_FILES = {a for a, _ in UNSEEDED}
SEEDOPT = re.compile(r"seed")

PTR = r"(?:[\w:]+(?:<.*>)?(?: const)? ?\*(?: ?const)?|(?:boost|std)::(?:shared_ptr|unique_ptr)<.*>)"


def project(f):
    return not f.file.startswith(("/", "klm/")) and not TESTS.search(f.file)


def targs(t):
    """top-level template arguments of a type."""
    i = t.find("<")
    if i < 0:
        return []
    out, d, cur = [], 0, ""
    for ch in t[i + 1:]:
        if ch == "<":
            d += 1
        elif ch == ">":
            if d == 0:
                break
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    out.append(cur.strip())
    return out


def clean(t):
    t = re.sub(r"^(const |class |struct |typename )+", "", (t or "").strip())
    return re.sub(r"( const)?[ &]*$", "", t)


def addressed(t):
    """values of this type compare or hash by memory address."""
    t = clean(t)
    if re.match(r"^(std|boost)::(shared_ptr|unique_ptr|weak_ptr)<|^boost::intrusive_ptr<", t):
        return True
    if t.endswith("*") or t.endswith("*const"):
        return not re.match(r"^(const )?(char|unsigned char) ?\*", t) or True
    if re.match(r"^(std::)?(pair|tuple|vector|list|deque|array)<", t):
        a = targs(t)
        if re.match(r"^(std::)?(vector|list|deque|array)<", t):
            a = a[:1]
        return any(addressed(x) for x in a)
    return False


CONT = re.compile(r"^(?:std::|boost::|std::tr1::|boost::unordered::)?(unordered_)?(multi)?(set|map)<")


def keyed_by_address(t):
    """ordered or hashed container whose order follows addresses; None if not."""
    t = clean(t)
    m = CONT.match(t)
    if not m:
        return None
    a = targs(t)
    if not a or not addressed(a[0]):
        return None
    k = 2 if m.group(3) == "map" else 1
    fn = a[k] if len(a) > k else ""
    if m.group(1):
        return "hash"           # whatever the hash: projects' functors over pointees are judged below
    if not fn or re.match(r"^(std::)?(less|greater)<", fn):
        return "order"
    return None


def custom_hash(t):
    a = targs(clean(t))
    k = 2 if "map<" in clean(t)[:40] else 1
    return a[k] if len(a) > k and not re.match(r"^(std|boost|std::tr1)::hash<", a[k]) else None


def last(n):
    s, d, out = n.get("fn") or "", 0, ""
    if "operator" in s:
        return s[s.rindex("operator"):]
    for ch in s:
        if ch == "<":
            d += 1
        elif ch == ">":
            d -= 1
        elif d == 0:
            out += ch
    return out.split("::")[-1]


def lib(n):
    fn = n.get("fn") or ""
    return "::" not in fn or fn.startswith(("std::", "boost::"))


def stmt_body_harmless(body):
    """a walk that only releases, counts nothing but visits: order cannot matter."""
    for n in walk(body):
        if n["k"] in ("Bin", "CAssign") and n.get("op") == "=":
            l = uncast(n["c"][0])
            if l["k"] in ("Ref",) and l.get("dk") == "local":
                continue
            return False
        if n["k"] in ("Return", "Break"):
            return False
        if n["k"] in ("Call", "MCall", "OCall"):
            s = short(n)
            if n["k"] == "OCall" and n["op"] in ("*", "->", "++", "!=", "==", "()") or s in ("begin", "end", "cbegin", "cend", "get", "clear", "size", "empty", "first", "second"):
                continue
            return False
        if n["k"] == "CAssign" or n["k"] == "Un" and n["op"] in ("++", "--"):
            continue
    return True


# ------------------------------------------------------------------ chance
def guards(f, node):
    out = []
    for e, pol, _ in cfg(f).assumes(node) or []:
        out.append((e, pol))
    return out


def names_seed(e):
    return any(x["k"] == "Str" and SEEDOPT.search(str(x.get("v"))) for x in walk(e))


def chance(db, ctx, fns):
    callers = {}
    seeded_files = set()
    for f in fns:
        for n in f.nodes():
            if n["k"] == "Str" and SEEDOPT.search(str(n.get("v") or "")) and re.match(r'^"?(random_)?seed(,\w)?"?$', str(n.get("v"))):
                seeded_files.add(f.file)
    for f in fns:
        g = None
        for n in f.nodes():
            k = n["k"]
            if k in ("Call", "MCall") and lib(n) and n.get("fn"):
                s = last(n)
                ent = (n.get("fn") or "")
                if s in CHANCE and n["k"] == "Call" or ent.startswith(("std::random_device", "boost::random::random_device", "boost::random_device")):
                    ctx.count("random sources")
                    me = MEANT.get(f.short) or MEANT.get(f.name.split("::")[-1].split("<")[0])
                    if me and s in me[0]:
                        ctx.ob()
                        continue
                    if s in ("getpid", "gethostname", "mkstemp") and only_text(f, n):
                        ctx.ob()
                        continue
                    if s == "omp_get_thread_num" and in_subscript(f, n):
                        ctx.ob()
                        continue
                    ctx.ob(False)
                    ctx.violate("chance", f.loc(n), "%s calls %s: its results differ from run to run" % (f.name, ent), "chance|%s|%s" % (f.file, s))
            if k in ("Ctor", "Var") and "random_device" in (n.get("t") or ""):
                if k == "Var":
                    ctx.violate("chance", f.loc(n), "%s uses a random device: its results differ from run to run" % f.name, "chance|%s|random_device" % f.file)
            if k == "Str" and re.match(r'^"?/dev/u?random"?$', str(n.get("v") or "")):
                ctx.count("random sources")
                if f.name.split("::")[-1] != "GetTrulyRandomSeed":
                    ctx.violate("chance", f.loc(n), "%s reads %s: its results differ from run to run" % (f.name, n.get("v")), "chance|%s|dev" % f.file)
    # generators
    for f in fns:
        if f.file == "utils/sampler.h" and not f.h.get("dep"):
            generator(ctx, f)
    for f in fns:
        if f.file == "utils/sampler.h":
            continue
        for n in f.nodes():
            if n["k"] != "Ctor" or not re.match(r"^(const )?(RandomNumberGenerator<|MT19937|boost::(random::)?(mt19937|mersenne_twister|minstd|taus)|std::(mt19937|mersenne_twister|default_random_engine|minstd))", n.get("t") or ""):
                continue
            if n.get("copy") or n.get("move"):
                continue
            ctx.count("generators created")
            args = [x for x in n.get("c") or [] if x is not None]
            std = not re.match(r"^(const )?(RandomNumberGenerator<|MT19937)", n["t"])
            if args:
                ctx.ob()
                bad = [x for a in args for x in walk(a) if x["k"] in ("Call", "MCall") and (last(x) in CHANCE | CLOCK | {"GetTrulyRandomSeed"})]
                if bad:
                    ctx.violate("chance", f.loc(n), "%s seeds a random generator with %s" % (f.name, render(bad[0])), "seed|%s" % f.file)
                continue
            if std:
                ctx.ob()        # a library engine without a seed always gives the same sequence
                continue
            if f.file in seeded_files:
                ok = False
                nd = cfg_node(f, n)
                if nd is not None:
                    for e, pol in guards(f, nd):
                        if seed_absent(f, e, pol):
                            ok = True
                for e, pol in inexpr_guards(f, n) or []:
                    if seed_absent(f, e, pol):
                        ok = True
                ctx.ob(ok)
                if not ok:
                    ctx.violate("chance", f.loc(n), "%s creates its random generator without the seed although the program takes one" % f.name, "unseeded|%s" % f.file)
            else:
                ok = f.file in UNSEEDED_FILES
                ctx.ob(ok)
                if not ok:
                    ctx.violate("chance", f.loc(n), "%s creates a random generator that no option seeds" % f.name, "unseeded|%s" % f.file)


def seed_absent(f, e, pol):
    e = uncast(e)
    while e is not None and e["k"] == "Un" and e["op"] == "!":
        e, pol = uncast(e["c"][0]), not pol
    if e is None:
        return False
    if e["k"] == "Ref" and e.get("dk") == "local":
        for v in f.nodes():
            if v["k"] == "Var" and v.get("d") == e.get("d") and children(v):
                return seed_absent(f, v["c"][0], pol)
    if e["k"] in ("Bin", "OCall") and e.get("op") in ("==", "!=", ">", "<", ">=", "<=") and names_seed(e):
        zero = any(uncast(c) is not None and uncast(c)["k"] == "Int" and int(uncast(c)["v"]) == 0 for c in e["c"])
        one = any(uncast(c) is not None and uncast(c)["k"] == "Int" and int(uncast(c)["v"]) == 1 for c in e["c"])
        op = e["op"]
        if uncast(e["c"][0]) is not None and uncast(e["c"][0])["k"] == "Int":
            op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
        if zero:
            return (op == "==") == pol and op in ("==", "!=") or op == ">" and not pol or op == "<=" and pol
        if one:
            return op in (">=", "==") and not pol or op in ("<", "!=") and pol
        return False
    return not pol and names_seed(e) and any(x["k"] == "MCall" and last(x) == "count" for x in walk(e))


def cfg_node(f, ast):
    for nd in cfg(f).nodes:
        if nd.ast is not None and isinstance(nd.ast, dict) and nd.kind in ("expr", "decl", "init", "return"):
            if any(x is ast for x in walk(nd.ast)):
                return nd
    return None


def generator(ctx, f):
    """the wrapped generator takes the seed it is given; without one (or with 0) it asks for a random one."""
    if not f.h.get("ctor") or "RandomNumberGenerator" not in f.name:
        return
    p = [q for q in f.params]
    calls = [n for n in f.nodes() if n["k"] in ("Call", "MCall") and last(n) == "GetTrulyRandomSeed"]
    seeds = [n for n in f.nodes() if n["k"] == "MCall" and last(n) == "seed"]
    if len(p) != 1 or "RandomNumberGenerator" in p[0]["t"]:
        return
    ctx.count("generator constructors")
    d = p[0]["d"]
    for c in calls:
        nd = cfg_node(f, c)
        ok = False
        for e, pol in (guards(f, nd) if nd is not None else []):
            e = uncast(e)
            while e is not None and e["k"] == "Un" and e["op"] == "!":
                e, pol = uncast(e["c"][0]), not pol
            if e is not None and e["k"] == "Ref" and e.get("d") == d and not pol:
                ok = True
            if e is not None and e["k"] == "Bin" and e["op"] in ("==", "!=") and any(uncast(x)["k"] == "Ref" and uncast(x).get("d") == d for x in e["c"]) and (e["op"] == "==") == pol:
                ok = True
        for e, pol in inexpr_guards(f, c) or []:
            e = uncast(e)
            if e is not None and e["k"] == "Ref" and e.get("d") == d and not pol:
                ok = True
        ctx.ob(ok)
        if not ok:
            ctx.violate("chance", f.loc(c), "%s replaces the seed it was given by a random one" % f.name, "generator|replaced")
    uses = any(any(x["k"] == "Ref" and x.get("d") == d for x in walk(s)) for s in seeds) or any(any(x["k"] == "Ref" and x.get("d") == d for x in walk(y)) for i in f.inits for y in (i.get("c") or []) if y is not None)
    via = {v.get("d") for v in f.nodes() if v["k"] == "Var" and children(v) and any(x["k"] == "Ref" and x.get("d") == d for x in walk(v["c"][0]))}
    uses = uses or any(any(x["k"] == "Ref" and x.get("d") in via for x in walk(s)) for s in seeds)
    ctx.ob(uses)
    if not uses:
        ctx.violate("chance", f.loc(), "%s does not seed its generator with the seed it was given" % f.name, "generator|unused")


def only_text(f, n):
    par = fn_parents(f)
    x = par.get(n["i"])
    while x is not None and x["k"] in ("ICast", "Cast", "Paren"):
        x = par.get(x["i"])
    return x is not None and x["k"] == "OCall" and x["op"] == "<<"


def in_subscript(f, n):
    par = fn_parents(f)
    x, c = par.get(n["i"]), n
    while x is not None and x["k"] in ("ICast", "Cast", "Paren"):
        c, x = x, par.get(x["i"])
    return x is not None and (x["k"] == "Sub" or x["k"] == "OCall" and x["op"] == "[]") and x["c"][1] is c


# ------------------------------------------------------------------ clock
class Clock:
    """flow-insensitive slots that hold clock readings or differences of them."""

    def __init__(self, db, ctx, fns):
        self.db, self.ctx, self.fns = db, ctx, fns
        self.slots, self.ret = set(), set()

    def slot(self, f, e):
        e = uncast(e)
        if e is None:
            return None
        if e["k"] == "Ref":
            if e.get("dk") in ("local", "param", "slocal") and "d" in e:
                return (f.key, e["d"])
            return ("g", e.get("q") or e["n"])
        if e["k"] == "Mem":
            return ("m", e.get("f") or e["n"])
        return None

    def source(self, n):
        if n["k"] in ("Call", "MCall") and lib(n) and n.get("fn"):
            s = last(n)
            if s in ("time", "clock", "gettimeofday", "clock_gettime", "times", "getrusage", "ftime"):
                return n["k"] == "Call"
            if s == "now" and "chrono" in n["fn"]:
                return True
        return False

    def tainted(self, f, e):
        if f.file == "utils/sampler.h":     # seeding from the clock as a last resort is meant
            return None
        for n in walk_nl(e) if e is not None else ():
            if self.source(n):
                return n
            if n["k"] in ("Call", "MCall") and n.get("f") in self.ret:
                return n
            s = self.slot(f, n) if n["k"] in ("Ref", "Mem") else None
            if s and s in self.slots:
                # a member of an object that has timing members is only tainted itself
                return n
        return None

    def arith(self, t):
        t = clean(t)
        return t in ("int", "unsigned int", "long", "unsigned long", "double", "float", "long long", "unsigned long long", "bool", "char", "short", "unsigned short", "unsigned char") or "chrono" in t or t in ("time_t", "clock_t", "timeval", "timespec", "tms", "rusage") or "time" in t

    def run(self):
        changed = True
        rounds = 0
        while changed and rounds < 12:
            changed, rounds = False, rounds + 1
            for f in self.fns:
                if f.body is None:
                    continue
                for i in f.inits:
                    if i.get("field") and any(y is not None and self.tainted(f, y) for y in i.get("c") or []):
                        s = ("m", i["field"] if "::" in i["field"] else (f.h.get("cls") or "") + "::" + i["field"])
                        if s not in self.slots:
                            self.slots.add(s)
                            changed = True
                for n in f.nodes():
                    k = n["k"]
                    add = None
                    if k == "Var" and children(n) and self.arith(n.get("t")) and self.tainted(f, n["c"][0]):
                        add = (f.key, n["d"])
                    elif k in ("Bin", "CAssign", "OCall") and n.get("op") in ("=", "+=", "-=", "*=", "/=") and len(n.get("c") or []) == 2 and self.arith(n["c"][0].get("t")) and self.tainted(f, n["c"][1]):
                        add = self.slot(f, n["c"][0])
                    elif k == "Return" and children(n) and self.arith(n["c"][0].get("t")) and self.tainted(f, n["c"][0]):
                        if f.key not in self.ret:
                            self.ret.add(f.key)
                            changed = True
                    elif k == "Call" and self.source(n):
                        for a in n.get("c") or []:
                            u = uncast(a)
                            if u is not None and u["k"] == "Un" and u["op"] == "&":
                                s = self.slot(f, u["c"][0])
                                if s and s not in self.slots:
                                    self.slots.add(s)
                                    changed = True
                    elif k in ("Call", "MCall") and n.get("f") in self.db.fns:
                        g = self.db.fns[n["f"]]
                        a = (n.get("c") or [])[1:] if k == "MCall" else (n.get("c") or [])
                        for p, x in zip(g.params, a):
                            if x is not None and self.arith(p["t"]) and self.tainted(f, x) and project(g) and (g.key, p["d"]) not in self.slots:
                                self.slots.add((g.key, p["d"]))
                                changed = True
                    if add and add not in self.slots:
                        self.slots.add(add)
                        changed = True
        for f in self.fns:
            if f.body is None:
                continue
            for n in f.nodes():
                if self.source(n):
                    self.ctx.count("clock readings")
                    self.ctx.ob()
                if n["k"] in ("If", "While", "Do", "Switch", "For", "Cond"):
                    c = n["c"][2] if n["k"] in ("If", "For", "Switch") else n["c"][1] if n["k"] in ("While", "Do") else n["c"][0]
                    if c is None:
                        continue
                    t = self.tainted(f, c)
                    if t and not self.limit(f, c) and not self.only_times(f, n):
                        self.bad(f, c, "branches on the clock (%s)" % render(uncast(c))[:80], "branch")
                elif n["k"] == "Sub" or n["k"] == "OCall" and n.get("op") == "[]":
                    if self.tainted(f, n["c"][1]):
                        self.bad(f, n, "uses the clock as an index", "index")
                elif n["k"] == "MCall" and last(n) in ("push_back", "insert", "emplace_back", "emplace", "seed", "push", "set_value", "add_value"):
                    if any(x is not None and self.arith(x.get("t")) and self.tainted(f, x) for x in n["c"][1:]):
                        self.bad(f, n, "stores a clock reading among its results (%s)" % last(n), "store")
                elif n["k"] == "Call" and last(n) in ("srand", "srandom", "srand48"):
                    pass        # reported as chance
                elif n["k"] in ("Bin", "CAssign") and n.get("op") in ("=", "+=", "*=", "-="):
                    l = uncast(n["c"][0])
                    if (l["k"] == "Sub" or l["k"] == "OCall" and l.get("op") == "[]") and self.arith(l.get("t")) and self.tainted(f, n["c"][1]):
                        self.bad(f, n, "stores a clock reading among its results", "store")
                elif n["k"] == "OCall" and n.get("op") == "<<" and len(n.get("c") or []) == 2 and self.tainted(f, n["c"][1]):
                    r = n["c"][0]
                    u = uncast(r)
                    while u is not None and u["k"] == "OCall" and u.get("op") == "<<":
                        u = uncast(u["c"][0])
                    if u is not None and u["k"] == "Ref" and u.get("n") == "cout":
                        self.bad(f, n, "prints a clock reading with its results", "print")

    def only_times(self, f, s):
        """what the branch decides is only how times are summed up or reported."""
        if s["k"] == "Cond":
            return self.tainted(f, s["c"][1]) is not None or self.tainted(f, s["c"][2]) is not None
        if s["k"] != "If":
            return False
        for part in s["c"][3:5]:
            if part is None:
                continue
            for n in walk(part):
                if n["k"] in ("Bin", "CAssign") and n.get("op", "").endswith("=") and n["op"] not in ("==", "!=", "<=", ">="):
                    if self.slot(f, n["c"][0]) not in self.slots:
                        return False
                elif n["k"] in ("Return", "Break", "Continue", "Goto", "Throw", "New", "Delete"):
                    return False
                elif n["k"] == "Un" and n["op"] in ("++", "--"):
                    return False
                elif n["k"] in ("Call", "MCall", "OCall") and not (n["k"] == "OCall" and n.get("op") in ("<<", "-", "+", "/", "*")) and not self.source(n) and not (lib(n) and last(n) in ("count", "duration_cast", "min", "max", "str", "endl")):
                    return False
        return True

    def limit(self, f, c):
        """a comparison with a limit the user set."""
        for n in walk(c):
            if n["k"] in ("Ref", "Mem") and re.search(r"time_?out|time_?limit|max_?(time|sec)", n.get("n", "").lower()):
                return True
            if n["k"] == "Ref" and n.get("dk") == "local":
                for x in f.nodes():     # read from an option that names a time
                    src = None
                    if x["k"] == "Bin" and x["op"] == "=" and x["c"][0]["k"] == "Ref" and x["c"][0].get("d") == n.get("d"):
                        src = x["c"][1]
                    elif x["k"] == "Var" and x.get("d") == n.get("d") and x.get("c"):
                        src = x["c"][0]
                    if src is not None and any(y["k"] == "Str" and re.search(r"time", str(y.get("v", ""))) for y in walk(src)):
                        return True
        return False

    def bad(self, f, n, what, key):
        self.ctx.ob(False)
        self.ctx.violate("clock", f.loc(n), "%s %s" % (f.name, what), "clock|%s|%s" % (f.name, key))


# ------------------------------------------------------------------ order
ALGO = {"sort": 2, "stable_sort": 2, "nth_element": 3, "partial_sort": 3, "make_heap": 2, "push_heap": 2, "pop_heap": 2, "sort_heap": 2, "max_element": 2, "min_element": 2, "lower_bound": 3, "upper_bound": 3, "binary_search": 3, "is_sorted": 2, "unique_copy": 99, "set_intersection": 5, "set_union": 5, "inplace_merge": 3, "merge": 5}


def elem_of_iter(t):
    t = clean(t)
    m = re.match(r"^__gnu_cxx::__normal_iterator<", t)
    if m:
        a = targs(t)
        return a[0][:-1].strip() if a and a[0].rstrip().endswith("*") else None
    m = re.match(r"^(?:std::)?(?:vector|deque|list)<", t)
    if m and ("iterator" in t):
        return targs(t)[0]
    if t.endswith("*"):
        return t[:-1].strip()
    return None


def hashlike(f):
    return re.search(r"hash", f.name, re.I) is not None


def order(db, ctx, fns):
    for f in fns:
        if f.body is None:
            continue
        seen = set()
        for n in f.nodes():
            k = n["k"]
            # walks over containers ordered by address
            rng, body = None, None
            if k == "ForRange":
                rng, body = n["c"][0], n["c"][1]
            elif k == "MCall" and last(n) in ("begin", "cbegin", "rbegin", "lower_bound", "upper_bound") and n.get("c"):
                rng = n["c"][0]
            if rng is not None:
                t = rng.get("t") or ""
                if k == "MCall" and n.get("a"):
                    t = re.sub(r" ?\*(const)?$", "", clean(t))
                kb = keyed_by_address(t)
                if kb:
                    if kb == "hash" and custom_hash(t) and not hash_reads_address(db, custom_hash(t)):
                        ctx.count("walks over containers of pointers")
                        ctx.ob()
                        continue
                    ctx.count("walks over containers of pointers")
                    if body is None:
                        body = loop_of(f, n)
                    ok = body is not None and stmt_body_harmless(body)
                    ctx.ob(ok)
                    if not ok:
                        ctx.violate("order", f.loc(n), "%s walks '%s', whose order follows memory addresses" % (f.name, render(uncast(rng))), "walk|%s|%s" % (f.name, re.sub(r"#\d+", "", render(uncast(rng)))))
            if k == "MCall" and last(n) in ("top", "pop") and n.get("c"):
                t = clean(n["c"][0].get("t"))
                if re.match(r"^(std::)?priority_queue<", t):
                    a = targs(t)
                    if a and addressed(a[0]) and (len(a) < 3 or re.match(r"^(std::)?(less|greater)<", a[2])):
                        ctx.ob(False)
                        ctx.violate("order", f.loc(n), "%s takes from a priority queue ordered by memory address" % f.name, "pq|%s" % f.name)
            # sorting by address
            if k == "Call" and (n.get("fn") or "").startswith(("std::", "__gnu")) and last(n) in ALGO:
                args = [x for x in n.get("c") or []]
                if args and len(args) <= ALGO[last(n)] and len(args) >= 2:
                    e = elem_of_iter(args[0].get("t"))
                    if e is not None:
                        ctx.count("orderings without a comparator")
                        ok = not addressed(e)
                        ctx.ob(ok)
                        if not ok:
                            ctx.violate("order", f.loc(n), "%s orders elements of type %s by memory address (%s without a comparator)" % (f.name, e, last(n)), "sort|%s|%s" % (f.name, last(n)))
                elif len(args) > ALGO[last(n)]:
                    ct = clean(args[-1].get("t"))
                    m = re.match(r"^(std::)?(less|greater)<(.*)>$", ct)
                    if m:
                        e = m.group(3) or elem_of_iter(args[0].get("t")) or ""
                        if addressed(e):
                            ctx.ob(False)
                            ctx.violate("order", f.loc(n), "%s orders elements by memory address (%s)" % (f.name, ct), "sort|%s|%s" % (f.name, last(n)))
            # comparators over addresses
            if k == "Bin" and n["op"] in ("<", ">", "<=", ">=") and addressed(n["c"][0].get("t")) and comparator_like(f):
                a, b = uncast(n["c"][0]), uncast(n["c"][1])
                if a["k"] != "NullPtr" and b["k"] != "NullPtr" and own_param(f, a) and own_param(f, b):
                    ctx.ob(False)
                    ctx.violate("order", f.loc(n), "%s orders by memory address (%s)" % (f.name, render(n)), "compare|%s" % f.name)
            if k == "OCall" and n.get("op") in ("<", ">", "<=", ">=") and comparator_like(f) and len(n["c"]) == 2 and addressed(n["c"][0].get("t")):
                ctx.ob(False)
                ctx.violate("order", f.loc(n), "%s orders by memory address (%s)" % (f.name, render(n)), "compare|%s" % f.name)
            if k == "OCall" and n.get("op") == "()" and re.match(r"^std::(less|greater)<", n.get("fn") or "") and len(n["c"]) == 3 and addressed(n["c"][1].get("t")) and comparator_like(f):
                ctx.ob(False)
                ctx.violate("order", f.loc(n), "%s orders by memory address" % f.name, "compare|%s" % f.name)
            # addresses as numbers
            if k in ("Cast", "ICast") and n.get("ck") == "PointerToIntegral":
                ctx.count("addresses turned into numbers")
                ok = hashlike(f) or table_key(f, n) or aligned_only(f, n)
                ctx.ob(ok)
                if not ok:
                    ctx.violate("order", f.loc(n), "%s uses the address '%s' as a number" % (f.name, render(uncast(n["c"][0]))), "number|%s" % f.name)
            if k in ("Call", "OCall", "MCall") and (last(n) == "hash_value" or re.match(r"^(std|boost)::hash<.*\*>::operator\(\)", n.get("fn") or "")):
                a = [x for x in n.get("c") or [] if x is not None]
                if a and addressed(a[-1].get("t")) and not hashlike(f) and not lib_fn(f):
                    ctx.ob(False)
                    ctx.violate("order", f.loc(n), "%s uses the hash of an address" % f.name, "number|%s" % f.name)
            # addresses in the output
            if k in ("OCall", "MCall", "Call") and (n.get("op") == "<<" or last(n) == "operator<<") and any(re.sub(r"\s", "", p) in ("constvoid*", "void*") for p in n.get("pt") or []):
                a = uncast(n["c"][-1])
                st = n["c"][-1]
                ctx.count("addresses printed")
                ok = debug_stream(f, n)
                ctx.ob(ok)
                if not ok:
                    ctx.violate("order", f.loc(n), "%s prints the address '%s'" % (f.name, render(a)), "print|%s" % f.name)


def lib_fn(f):
    return f.file.startswith("/")


def hash_reads_address(db, cls):
    c = re.sub(r"^(const )", "", cls).strip()
    for f in db.by_name.get(c + "::operator()", []) + db.by_name.get(re.sub(r"<.*", "", c) + "::operator()", []):
        for n in f.nodes():
            if n["k"] in ("Cast", "ICast") and n.get("ck") == "PointerToIntegral":
                return True
            if n["k"] in ("Call", "MCall", "OCall") and (last(n) in ("hash_value", "hash_combine") or "hash<" in (n.get("fn") or "")) and any(x is not None and addressed(x.get("t")) for x in (n.get("c") or [])[-1:]):
                return True
        return False
    return True


def loop_of(f, n):
    par = fn_parents(f)
    x, c = par.get(n["i"]), n
    while x is not None:
        if x["k"] in ("For", "While"):
            if x["k"] == "For" and x["c"][4] is not c:
                return x["c"][4]
            return None
        if x["k"] in ("Block",):
            # iterator declared before a while loop is not followed
            return None
        c, x = x, par.get(x["i"])
    return None


def comparator_like(f):
    ret = (f.h.get("ret") or "").strip()
    ps = [p for p in f.params]
    if f.h.get("op") in ("<", ">", "<=", ">=") or f.name.split("::")[-1] in ("operator<", "operator>", "operator<=", "operator>="):
        return True
    if ret in ("bool", "int") and len(ps) == 2 and clean(ps[0]["t"]) == clean(ps[1]["t"]):
        return f.name.split("::")[-1].startswith("operator()") or re.search(r"less|comp|cmp|before|order|lt\b", f.name.split("::")[-1], re.I) is not None
    return False


def own_param(f, e):
    """the value comes from a parameter or the object itself (not a position inside a buffer being walked)."""
    e = uncast(e)
    while e is not None and e["k"] in ("Mem", "Un", "MCall", "OCall", "Sub") and children(e):
        e = uncast(e["c"][0])
    return e is not None and (e["k"] == "This" or e["k"] == "Ref" and e.get("dk") == "param")


def table_key(f, n):
    """used only to look something up in a hash table."""
    par = fn_parents(f)
    x, c = par.get(n["i"]), n
    while x is not None and x["k"] in ("ICast", "Cast", "Paren", "Temp"):
        c, x = x, par.get(x["i"])
    if x is None:
        return False
    if x["k"] == "OCall" and x.get("op") == "[]" and x["c"][1] is c and "unordered_" in (x["c"][0].get("t") or ""):
        return True
    return x["k"] == "MCall" and last(x) in ("find", "count", "at", "erase") and "unordered_" in (x["c"][0].get("t") or "")


def aligned_only(f, n):
    par = fn_parents(f)
    x = par.get(n["i"])
    while x is not None and x["k"] in ("ICast", "Cast", "Paren"):
        x = par.get(x["i"])
    return x is not None and x["k"] == "Bin" and x["op"] in ("%", "&", "-", "==", "!=")


def debug_stream(f, n):
    u = uncast(n["c"][0])
    while u is not None and u["k"] in ("OCall", "MCall", "Call") and (u.get("op") == "<<" or last(u) == "operator<<"):
        u = uncast(u["c"][0])
    if u is None:
        return False
    if u["k"] == "Ref" and u.get("n") in ("cerr", "clog"):
        return True
    # the chart's own debugging operator
    return f.file == "decoder/earley_composer.cc" and f.name.split("::")[-1] == "operator<<"


def run(db, ctx):
    ctx.rule("chance", "random sources (rand, random devices, process and thread ids, ...) are called only in the functions listed as meant for it; a random generator is created without a seed only where the program's seed option is known to be absent or the program offers none and is listed as sampling; the generator wrapper uses the seed it is given")
    ctx.rule("clock", "clock readings and what is computed from them reach messages and time sums only: they decide no branch (time limits aside), are no index and are not stored or printed with results")
    ctx.rule("order", "no container keyed by addresses is walked, no elements are ordered by address, and addresses are neither turned into numbers outside hash functions nor printed")
    fns = [f for f in db.fns.values() if project(f) and f.body is not None]
    ctx.count("functions analysed", len(fns))
    chance(db, ctx, fns)
    Clock(db, ctx, fns).run()
    order(db, ctx, fns)
    for k in ("random sources", "generators created", "clock readings", "addresses turned into numbers"):
        ctx.floor(k, ctx.counts.get(k, 0), 2)
