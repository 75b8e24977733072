"""C08: options a program consults exist, with the type they were declared with, and are present when read."""
import itertools
import re
from facts import walk, AnalysisError
from ir import uncast, fn_parents, render

GROUPS = ["utils", "decoder", "training", "extractor", "mteval", "word-aligner"]
PO = "boost::program_options::"

# options declared only in some build configurations; every use is behind count()
CONDITIONAL = {("decoder", "cmph_perfect_feature_hash"): "declared only when built with the cmph library; consulted only after count()"}


def peel(n):
    n = uncast(n)
    for _ in range(8):
        if n["k"] in ("Ctor", "Init", "Cast", "ICast", "Temp") and n.get("c") and len(n["c"]) >= 1:
            n = uncast(n["c"][0])
        elif n["k"] == "MCall" and (n.get("fn") or "").split("::")[-1] == "c_str":
            n = uncast(n["c"][0])
        else:
            break
    return n


class FnInfo:
    """local definitions of one function."""

    def __init__(self, f):
        self.f = f
        self.par = None
        self.init, self.asg = {}, {}
        for v in walk(f.body):
            if v["k"] == "Var":
                self.init[v["d"]] = v["c"][0] if v.get("c") else None
            elif v["k"] == "Bin" and v["op"] == "=" or v["k"] == "CAssign":
                l = uncast(v["c"][0])
                if l["k"] == "Ref" and "d" in l:
                    self.asg.setdefault(l["d"], []).append(v)
            elif v["k"] == "OCall" and v["op"] in ("=", "+=") and v["c"]:
                l = uncast(v["c"][0])
                if l["k"] == "Ref" and "d" in l:
                    self.asg.setdefault(l["d"], []).append(v)
            elif v["k"] == "Un" and v["op"] in ("&", "++", "--"):
                l = uncast(v["c"][0])
                if l["k"] == "Ref" and "d" in l:
                    self.asg.setdefault(l["d"], []).append(v)

    def parents(self):
        if self.par is None:
            self.par = fn_parents(self.f)
        return self.par


INFO = {}


def info(f):
    i = INFO.get(f.key)
    if i is None:
        i = INFO[f.key] = FnInfo(f)
    return i


def name_id(n, fn, depth=0):
    """what option name an expression denotes: ('lit', s), ('pre', prefix, local), ('param', i) or None."""
    n = peel(n)
    if n["k"] == "Str":
        return ("lit", n.get("v"))
    if n["k"] == "Ref" and n.get("dk") == "param":
        for i, p in enumerate(fn.params):
            if p["d"] == n["d"]:
                return ("param", i)
        return None
    if n["k"] == "Ref" and n.get("dk") == "local" and depth < 4:
        inf = info(fn)
        if n["d"] in inf.asg or inf.init.get(n["d"]) is None:
            return None
        r = name_id(inf.init[n["d"]], fn, depth + 1)
        if r is not None and r[0] == "pre":
            return ("pre", r[1], n["d"])
        return r
    if n["k"] == "OCall" and n["op"] == "+":
        r = name_id(n["c"][0], fn, depth + 1)
        if r is not None and r[0] == "lit":
            return ("pre", r[1], None)
    return None


class Opt:
    def __init__(self, name, short, type, default, required, bound, loc, group):
        self.__dict__.update(locals())


def vtype(n):
    d = {"type": None, "default": False, "required": False, "bound": False}
    n = uncast(n)
    while True:
        if n["k"] == "MCall":
            s = (n.get("fn") or "").split("::")[-1]
            if s in ("default_value", "implicit_value", "required", "composing", "multitoken", "zero_tokens", "notifier", "value_name"):
                d["default"] |= s == "default_value"
                d["required"] |= s == "required"
                n = uncast(n["c"][0])
                continue
        if n["k"] == "Call" and (n.get("fn") or "").startswith(PO):
            s = n["fn"].split("::")[-1]
            if s in ("value", "bool_switch"):
                m = re.match(r".*typed_value<(.*), char> \*", n["t"])
                d["type"] = norm(m.group(1)) if m else None
                d["bound"] = any(uncast(x)["k"] not in ("NullPtr", "Int", "ZeroInit") for x in n.get("c") or [])
                d["default"] |= s == "bool_switch"
                return d
        return None


def norm(t):
    return re.sub(r"\s+", "", t.replace("const ", "").replace("&", "")).replace("std::basic_string<char>", "std::string")


def group_of(f):
    return "decoder" if f.startswith("decoder/") else f


def receiver_group(n, fn):
    """the program whose options the map holds."""
    c = uncast(n["c"][0])
    for x in walk(c):
        if x["k"] in ("MCall", "Call") and (x.get("fn") or "").endswith("Decoder::GetConf"):
            return "decoder"
    if c["k"] == "Ref" and c.get("dk") == "local":
        i = info(fn).init.get(c["d"])
        if i is not None:
            for x in walk(i):
                if x["k"] in ("MCall", "Call") and (x.get("fn") or "").endswith("Decoder::GetConf"):
                    return "decoder"
    return group_of(fn.file)


def basekey(k):
    return k.split("@")[0]


# ---------------------------------------------------------------- propositional facts
class Facts:
    """conditions as formulas over 'option given' atoms and other conditions."""

    def __init__(self, db, group_fns):
        self.db, self.fns = db, group_fns
        self.mem = {}
        for f in group_fns:
            for i in f.inits:
                if i.get("field") and i["c"]:
                    self.mem.setdefault((f.cls, i["field"]), []).append((f, i["c"][0]))
            for x in f.nodes():
                if x["k"] == "Bin" and x["op"] == "=":
                    l = uncast(x["c"][0])
                    if l["k"] == "Mem":
                        self.mem.setdefault((None, l["n"]), []).append((f, x["c"][1]))

    def memdef(self, cls, name):
        r = list(self.mem.get((None, name), []))
        for (c, n), v in self.mem.items():
            if c is not None and n == name:
                r += v
        return r[0] if len(r) == 1 else None

    def form(self, e, fn, depth=0):
        if e is None:
            return ("c", True)
        e = uncast(e)
        v = e.get("v")
        if e["k"] in ("Bool", "Int") and v is not None:
            return ("c", str(v) not in ("0", "False", "false"))
        if e["k"] == "MCall" and (e.get("fn") or "").split("::")[-1] == "count" and "program_options::variable_value" in e["fn"] and len(e["c"]) > 1:
            ni = name_id(e["c"][1], fn)
            return ("a", "#%s" % (ni,)) if ni else ("a", "?%d" % e["i"])
        if e["k"] == "Un" and e["op"] == "!":
            return ("!", self.form(e["c"][0], fn, depth))
        if e["k"] == "Bin" and e["op"] in ("&&", "||"):
            return (e["op"], self.form(e["c"][0], fn, depth), self.form(e["c"][1], fn, depth))
        if e["k"] == "Bin" and e["op"] in ("==", "!=", ">", ">=", "<"):
            for a, b in ((0, 1), (1, 0)):
                x, y = uncast(e["c"][a]), uncast(e["c"][b])
                if y["k"] in ("Int", "Bool") and y.get("v") is not None and (x["k"] in ("MCall", "Ref", "Mem", "Un")):
                    k = int(str(y["v"]).replace("False", "0").replace("True", "1").replace("false", "0").replace("true", "1"))
                    op = e["op"]
                    if a == 1:
                        op = {">": "<", "<": ">", ">=": "<="}.get(op, op)
                    fx = self.form(x, fn, depth)
                    if fx[0] != "a" or fx[1].startswith("#"):
                        if (op, k) in ((">", 0), (">=", 1), ("!=", 0), ("==", 1)):
                            return fx
                        if (op, k) in (("==", 0), ("<", 1)):
                            return ("!", fx)
                    break
        if e["k"] == "Str":
            return ("c", True)
        if e["k"] in ("OCall", "Bin") and e["op"] in ("==", "!="):
            for a, b in ((0, 1), (1, 0)):
                o, y = self.optval(e["c"][a], fn), peel(e["c"][b])
                if o is not None and y["k"] in ("Str", "Int", "Bool"):
                    at = ("a", "@%s==%s" % (o, y.get("v")))
                    return at if e["op"] == "==" else ("!", at)
        if e["k"] == "Cond":
            c = self.form(e["c"][0], fn, depth)
            return ("||", ("&&", c, self.form(e["c"][1], fn, depth)), ("&&", ("!", c), self.form(e["c"][2], fn, depth)))
        if depth < 4 and e["k"] == "Ref" and e.get("dk") == "local":
            inf = info(fn)
            i, a = inf.init.get(e["d"]), inf.asg.get(e["d"], [])
            if not a and i is not None:
                return self.form(i, fn, depth + 1)
            if len(a) == 1 and a[0]["k"] == "Bin" and i is not None:
                i0, a0 = self.form(i, fn, depth + 1), self.form(a[0]["c"][1], fn, depth + 1)
                if i0[0] == "c" and a0[0] == "c" and i0 != a0:
                    enc = self.enclosing(a[0], fn, depth + 1)
                    r = ("c", True)
                    for x in enc:
                        r = ("&&", r, x)
                    return r if a0[1] else ("!", r)
        if depth < 4 and e["k"] == "Mem" or depth < 4 and e["k"] == "Ref" and e.get("dk") in ("global", "slocal"):
            d = self.memdef(None, e["n"]) if e["k"] == "Mem" else None
            if d is None and e["k"] == "Ref":
                hits = [(f, x["c"][1]) for f in self.fns for x in f.nodes() if x["k"] == "Bin" and x["op"] == "=" and uncast(x["c"][0])["k"] == "Ref" and uncast(x["c"][0]).get("n") == e["n"] and uncast(x["c"][0]).get("dk") == e["dk"]]
                d = hits[0] if len(hits) == 1 else None
            if d is not None:
                return self.form(d[1], d[0], depth + 1)
        if depth < 4 and e["k"] in ("Call", "MCall"):
            # a helper returning a condition
            hs = [h for h in self.fns if basekey(h.key) == e.get("f") and h.body is not None]
            if len(hs) == 1:
                rets = [x for x in walk(hs[0].body) if x["k"] == "Return" and x.get("c")]
                if len(rets) == 1 and rets[0]["c"][0] is not None:
                    r = self.form(rets[0]["c"][0], hs[0], depth + 1)
                    return self.subst(r, e, fn, hs[0])
        return ("a", "%s" % render(e) if e["k"] in ("Ref", "Mem") else "?%d" % e["i"])

    def optval(self, n, fn, depth=0):
        """name of the option whose value an expression is."""
        n = peel(n)
        if n["k"] == "MCall" and (n.get("fn") or "").endswith("variable_value::as"):
            o = uncast(n["c"][0])
            if o["k"] == "OCall" and o["op"] == "[]":
                ni = name_id(o["c"][1], fn)
                return ni[1] if ni and ni[0] == "lit" else None
        if n["k"] == "Ref" and n.get("dk") == "local" and depth < 3:
            inf = info(fn)
            if n["d"] not in inf.asg and inf.init.get(n["d"]) is not None:
                return self.optval(inf.init[n["d"]], fn, depth + 1)
        return None

    def subst(self, r, call, fn, h):
        """parameter names in a helper's formula -> the names given at the call."""
        if r[0] == "a":
            m = re.match(r"#\('param', (\d+)\)", r[1])
            if m:
                a = call["c"][1:] if call["k"] == "MCall" else call["c"]
                ni = name_id(a[int(m.group(1))], fn) if int(m.group(1)) < len(a) else None
                return ("a", "#%s" % (ni,)) if ni else ("a", "?x")
            return r
        if r[0] == "c":
            return r
        return (r[0],) + tuple(self.subst(x, call, fn, h) for x in r[1:])

    def enclosing(self, n, fn, depth=0):
        """formulas known to hold where n is evaluated (structure of the enclosing statements)."""
        par = info(fn).parents()
        out = []
        x, prev = par.get(n["i"]), n
        while x is not None:
            if x["k"] == "If":
                if prev is x["c"][3]:
                    out.append(self.form(x["c"][2], fn, depth))
                elif prev is x["c"][4]:
                    out.append(("!", self.form(x["c"][2], fn, depth)))
            elif x["k"] == "Cond":
                if prev is x["c"][1]:
                    out.append(self.form(x["c"][0], fn, depth))
                elif prev is x["c"][2]:
                    out.append(("!", self.form(x["c"][0], fn, depth)))
            elif x["k"] == "Bin" and x["op"] in ("&&", "||") and prev is x["c"][1]:
                f = self.form(x["c"][0], fn, depth)
                out.append(f if x["op"] == "&&" else ("!", f))
            elif x["k"] == "While" and prev is x["c"][2]:
                out.append(self.form(x["c"][1], fn, depth))
            elif x["k"] == "Block":
                for y in x["c"]:
                    if y is prev:
                        break
                    if y is not None and y["k"] == "If":
                        out.extend(self.leaving(y, fn, depth))
                    y = uncast(y)
                    if y is not None and y["k"] == "Cond":      # assert(cond)
                        for b, pol in ((1, False), (2, True)):
                            if always_leaves(uncast(y["c"][b]), fn):
                                g = self.form(y["c"][0], fn, depth)
                                out.append(g if pol else ("!", g))
            prev, x = x, par.get(x["i"])
        return out

    def leaving(self, y, fn, depth=0):
        if y["c"][3] is not None and always_leaves(y["c"][3], fn):
            yield ("!", self.form(y["c"][2], fn, depth))
        if y["c"][4] is not None and always_leaves(y["c"][4], fn):
            yield self.form(y["c"][2], fn, depth)

    def program_facts(self):
        """conditions under which some function of the program ends it."""
        out = []
        for f in self.fns:
            if f.body is None:
                continue
            for y in walk(f.body):
                if y["k"] == "If":
                    for br, pol in ((y["c"][3], False), (y["c"][4], True)):
                        if br is not None and (ends(br) or self.flag_ends(br, f)):
                            g = self.form(y["c"][2], f)
                            if any(a.startswith("#") for a in atoms(g)):
                                out.append(g if pol else ("!", g))
                elif y["k"] in ("Call", "MCall") and always_leaves(y, f) or y["k"] == "Throw":
                    # if (fine) return; ...; exit(1);
                    r = ("c", True)
                    for g in self.enclosing(y, f):
                        r = ("&&", r, g)
                    if any(a.startswith("#") for a in atoms(r)):
                        out.append(("!", r))
                elif y["k"] == "Return" and y.get("c") and y["c"][0] is not None:
                    # return conf->count("x");  -- the caller leaves on false
                    g = self.form(y["c"][0], f)
                    if g[0] != "c" and any(a.startswith("#") for a in atoms(g)) and f.h["ret"].replace("const ", "") == "bool":
                        out.append(g)
        return out

    def flag_ends(self, br, f):
        """the branch sets a flag on which the function later leaves."""
        for y in walk(br):
            if y["k"] == "Bin" and y["op"] == "=" or y["k"] == "CAssign" and y["op"] == "|=":
                l = uncast(y["c"][0])
                if l["k"] == "Ref" and "d" in l:
                    for z in walk(f.body):
                        if z["k"] == "If" and any(w["k"] == "Ref" and w.get("d") == l["d"] for w in walk(z["c"][2])):
                            if any(b is not None and ends(b) for b in (z["c"][3], z["c"][4])):
                                return True
                            if any(b is not None and always_leaves(b, f) for b in (z["c"][3], z["c"][4])):
                                blk = info(f).parents().get(z["i"])
                                if blk is not None and blk["k"] == "Block" and any(y is not None and y["i"] > z["i"] and always_leaves(y, f) and ends(y) for y in blk["c"]):
                                    return True
                        if z["k"] == "Return" and z.get("c") and z["c"][0] is not None and any(w["k"] == "Ref" and w.get("d") == l["d"] for w in walk(z["c"][0])):
                            return True
        return False


def straight(br):
    """statements of a branch that run whenever the branch does (or at least may end it directly)."""
    if br is None:
        return
    yield br
    if br["k"] in ("If", "For", "While", "Do", "ForRange", "Switch", "Lambda"):
        return
    for c in br.get("c") or []:
        if c is not None:
            yield from straight(c)


def ends(br):
    for y in straight(br):
        if y["k"] == "Return":
            v = uncast(y["c"][0]) if y.get("c") and y["c"][0] is not None else None
            if v is not None and str(v.get("v")).lower() in ("0", "1", "-1", "false", "true"):
                return True
            if v is not None and v["k"] == "Un" and v["op"] == "-":
                return True
        if y["k"] == "Throw":
            return True
        if y["k"] in ("Call", "MCall") and (y.get("nr") or (y.get("fn") or "").split("::")[-1] in ("exit", "abort", "_exit", "MPI_Abort")):
            return True
    return False


def always_leaves(s, fn):
    if s["k"] == "Block":
        return any(x is not None and always_leaves(x, fn) for x in s["c"])
    if s["k"] in ("Return", "Throw", "Break", "Continue", "Goto"):
        return True
    if s["k"] == "If":
        return s["c"][3] is not None and s["c"][4] is not None and always_leaves(s["c"][3], fn) and always_leaves(s["c"][4], fn)
    if s["k"] in ("Call", "MCall"):
        return bool(s.get("nr")) or (s.get("fn") or "").split("::")[-1] in ("exit", "abort", "_exit")
    return False


def atoms(f):
    if f[0] == "a":
        return {f[1]}
    if f[0] == "c":
        return set()
    r = set()
    for x in f[1:]:
        r |= atoms(x)
    return r


def ev(f, env):
    if f[0] == "a":
        return env[f[1]]
    if f[0] == "c":
        return f[1]
    if f[0] == "!":
        return not ev(f[1], env)
    if f[0] == "&&":
        return ev(f[1], env) and ev(f[2], env)
    return ev(f[1], env) or ev(f[2], env)


def entails(facts, goal):
    """do the facts force the atom? (only facts connected with it; truth table)"""
    rel, at, todo = [f for f in facts if not atoms(f)], {goal}, list(facts)
    while True:
        more = [f for f in todo if atoms(f) & at]
        if not more or len(at) > 9:
            break
        for f in more:
            if len(atoms(f) | at) <= 11:
                rel.append(f)
                at |= atoms(f)
        todo = [f for f in todo if f not in more]
    at = sorted(at)
    sat = False
    for vals in itertools.product((False, True), repeat=len(at)):
        env = dict(zip(at, vals))
        if all(ev(f, env) for f in rel):
            sat = True
            if not env[goal]:
                return False
    return sat or bool(rel)


def run(db, ctx):
    ctx.rule("declared", "every option name consulted (conf[name], conf.count(name)) is declared by the same program")
    ctx.rule("type", "conf[name].as<T>() uses exactly the type the option was declared with; flags without a value are never read with as<>")
    ctx.rule("present", "conf[name].as<T>() is reached only when the option has a default, is required, was found given (count) on the way, or its absence has ended the program earlier")
    ctx.rule("unique", "no two options of one program share a name or a one-letter form")
    ctx.assume.append("boost::program_options behaves as documented")
    ctx.assume.append("decoder.GetConf() holds the decoder's options; a program's own map holds the options declared in its file")
    INFO.clear()
    decl = {}
    acc = []
    fns = sorted((f for f in db.fns.values() if f.body is not None and not f.h.get("dep") and not f.file.startswith("klm/")), key=lambda f: (f.file, f.line, f.key))
    groups = {}
    for f in fns:
        groups.setdefault(group_of(f.file), []).append(f)
    for f in fns:
        g = group_of(f.file)
        par = None
        for n in f.nodes():
            if n["k"] == "OCall" and n["op"] == "()" and (n.get("fn") or "").endswith("options_description_easy_init::operator()"):
                ni = name_id(n["c"][1], f)
                if ni is None or ni[0] != "lit":
                    ctx.notes.append("option declared with a computed name at %s" % f.loc(n))
                    continue
                v = {"type": None, "default": False, "required": False, "bound": False}
                if len(n["c"]) > 2 and peel(n["c"][2])["k"] != "Str":
                    v = vtype(n["c"][2])
                    if v is None:
                        ctx.notes.append("option %s: value semantics not understood at %s" % (ni[1], f.loc(n)))
                        v = {"type": "?", "default": True, "required": False, "bound": True}
                parts = ni[1].split(",")
                decl.setdefault(g, []).append(Opt(parts[0], parts[1] if len(parts) > 1 else None, v["type"], v["default"], v["required"], v["bound"], f.loc(n), g))
            elif n["k"] == "OCall" and n["op"] == "[]" and (n.get("fn") or "").endswith("variables_map::operator[]"):
                par = par or info(f).parents()
                use = up(par, n)
                acc.append((receiver_group(n, f), f, n, n["c"][1], "as" if use else "ref", norm(use["t"]) if use else None, ()))
            elif n["k"] == "MCall" and (n.get("fn") or "").split("::")[-1] in ("count", "find") and "program_options::variable_value" in (n.get("fn") or ""):
                acc.append((receiver_group(n, f), f, n, n["c"][1], "count", None, ()))
    # unique
    for g, os_ in decl.items():
        seenn, seens = {}, {}
        for o in os_:
            fl = o.loc.split(":")[0]
            a = o.name not in seenn or seenn[o.name].loc.split(":")[0] != fl
            ctx.ob(a)
            if not a:
                ctx.violate("unique", o.loc, "option --%s is declared twice (also %s)" % (o.name, seenn[o.name].loc), "%s|%s" % (g, o.name))
            seenn[o.name] = o
            if o.short:
                a = o.short not in seens or seens[o.short].loc.split(":")[0] != fl
                ctx.ob(a)
                if not a:
                    ctx.violate("unique", o.loc, "-%s stands for both --%s and --%s" % (o.short, seens[o.short].name, o.name), "%s|-%s" % (g, o.short))
                seens[o.short] = o
    ctx.floor("options_declared", sum(len(v) for v in decl.values()), 250)
    ctx.floor("programs", len(decl), 20)
    facts, pfacts = {}, {}
    for g in groups:
        if g in decl:
            facts[g] = Facts(db, groups[g])
            pfacts[g] = facts[g].program_facts()
    nofacts = Facts(db, [])
    # resolve parameters through callers; chain = [(fn, node)] of evaluation points from the read outwards
    pend = list(acc)
    resolved, seen = [], set()
    while pend:
        g, f, n, arg, kind, t, chain = pend.pop()
        ni = name_id(arg, f)
        if ni is None:
            ctx.notes.append("option name computed at %s" % f.loc(n))
            ctx.count("names_not_resolved")
            continue
        if ni[0] != "param":
            resolved.append((g, f, n, ni, kind, t, chain))
            continue
        k = (f.key, n["i"], ni, kind, t, chain[-1][1]["i"] if chain else 0)
        if k in seen or len(chain) > 3:
            continue
        seen.add(k)
        # tested inside the wrapper itself?
        kind2 = kind
        if kind == "as":
            F = facts.get(group_of(f.file), nofacts)
            if entails(F.enclosing(n, f), "#%s" % (ni,)):
                kind2 = "as-ok"
        fg = group_of(f.file)
        for h in fns:
            if not (group_of(h.file) == fg or not f.file.endswith(".cc")):
                continue
            for m in h.nodes():
                if m["k"] in ("Call", "MCall") and m.get("f") == basekey(f.key):
                    a = (m["c"][1:] if m["k"] == "MCall" else m["c"])
                    if ni[1] < len(a):
                        pend.append((group_of(h.file) if g == fg else g, h, m, a[ni[1]], kind2, t, chain + ((f, n),)))
    ctx.floor("options_consulted", len(resolved), 400)
    callers = {}
    for f in fns:
        for m in f.nodes():
            if m["k"] in ("Call", "MCall", "Ctor") and m.get("f"):
                callers.setdefault(m["f"], []).append((f, m))

    def present(g, f, n, ni, depth=0):
        F = facts.get(group_of(f.file), nofacts)
        here = F.enclosing(n, f)
        # (a condition the read itself stands under does not end the program before it)
        if entails(here + [x for x in pfacts.get(g, []) if not (x[0] == "!" and x[1] in here)], "#%s" % (ni,)):
            return True
        if depth < 3 and ni[0] == "lit":
            cs = [c for c in callers.get(basekey(f.key), []) if group_of(c[0].file) == group_of(f.file)]
            if cs and f.short != "main":
                return all(present(g, h, m, ni, depth + 1) for h, m in cs)
        return False

    for g, f, n, ni, kind, t, chain in sorted(resolved, key=lambda r: (r[1].file, r[2]["l"], r[4])):
        os_ = decl.get(g)
        if not os_:
            ctx.count("consulted_without_declarations")
            continue
        if ni[0] == "lit":
            cand = [x for x in os_ if x.name == ni[1]]
        else:
            cand = [x for x in os_ if re.match(re.escape(ni[1]) + r"\d*$", x.name)]
        label = ni[1] + ("*" if ni[0] == "pre" else "")
        ok = bool(cand) or (g, label) in CONDITIONAL
        ctx.ob(ok)
        if not ok:
            ctx.violate("declared", f.loc(n), "%s consults option '%s', which its program does not declare" % (f.name, label), "%s|%s" % (g, label))
            continue
        if kind not in ("as", "as-ok"):
            continue
        for o in cand:
            if o.type == "?":
                continue
            ok = o.type is not None and t == o.type
            ctx.ob(ok)
            if not ok:
                ctx.violate("type", f.loc(n), "%s reads option '%s' as %s, but it was declared as %s (%s): bad_any_cast when used" % (f.name, o.name, t, o.type or "a flag without value", o.loc), "%s|%s|%s" % (g, o.name, f.name))
        if kind == "as" and (any(not (o.default or o.required) and o.type is not None for o in cand) or not cand):
            ok = present(g, f, n, ni)
            ctx.ob(ok)
            if not ok:
                ctx.violate("present", f.loc(n), "%s reads option '%s', which has no default, without knowing it was given" % (f.name, label), "%s|%s|%s" % (g, label, f.name))
    for g, os_ in sorted(decl.items()):
        ctx.sample("%s: %d options" % (g, len(os_)))


def up(par, n):
    """the as<T>() call applied to conf[name], if any."""
    x = par.get(n["i"])
    while x is not None and x["k"] in ("ICast", "Cast", "Paren"):
        x = par.get(x["i"])
    if x is not None and x["k"] == "MCall" and (x.get("fn") or "").endswith("variable_value::as"):
        return x
    return None
