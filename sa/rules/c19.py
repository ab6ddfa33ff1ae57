"""C19 reproducible results: nothing is read before it is set, no order depends on addresses, and clocks and random numbers stay where they belong."""
from ..common import *
from ..flow import Flow, U, M, I, SCALAR, refs, written
from .c09 import w

TITLE = "reproducible results"


def run(prog, ck):
    fds = Fields(prog)
    for fn in sorted(prog.functions.values(), key=lambda f: f["key"]):
        if fn.get("body"):
            variables(prog, ck, fn, fds)
    members(prog, ck, fds)
    addresses(prog, ck)
    sources(prog, ck)
    ck.expect("variables", 200)
    ck.expect("members", 30)
    ck.expect("addresses", 1)
    ck.expect("clock", 5)
    ck.expect("random", 1)


class Fields:
    """scalar fields without an initialiser, per class"""
    def __init__(self, prog):
        self.prog = prog
        self.read = set()
        for f in prog.functions.values():
            self.reads(f.get("body"), False)

    def reads(self, x, lhs):
        if isinstance(x, dict):
            if x.get("k") == "assign" and x["op"] == "=":
                self.reads(x["b"], False)
                a = x["a"]
                if a.get("k") == "mem":
                    self.reads(a["b"], False)
                else:
                    self.reads(a, False)
                return
            if x.get("k") == "mem":
                self.read.add((x["cls"], x["f"]))
            for v in x.values():
                self.reads(v, False)
        elif isinstance(x, list):
            for v in x:
                self.reads(v, False)

    def later(self, f):
        """the field is no pointer, and some function that makes no such object fills it in"""
        for c in self.prog.classes.values():
            for d in c["fields"]:
                if d["n"] == f and not d["hasinit"] and d["tk"] == "ptr":
                    return False
        for g in self.prog.functions.values():
            if any(x["k"] == "assign" and x["a"].get("k") == "mem" and x["a"]["f"] == f for x in nodes(g.get("body"))) and not any(x["k"] == "new" for x in nodes(g.get("body"))):
                return True
        return False

    def cls(self, ty):
        t = ty.replace("const ", "").replace("struct ", "").rstrip("&* ").strip()
        return self.prog.classes.get(t) or next((c for n, c in sorted(self.prog.classes.items()) if n.endswith("::" + t)), None)

    def of(self, ty):
        c = self.cls(ty)
        if c is None or ty.rstrip().endswith("*"):
            return []
        if c.get("userctor"):
            if not plain(c):
                return []
            k = [f for f in self.prog.functions.values() if f.get("ctor") and f["cls"] == c["name"] and not f["params"]]
            if len(k) != 1:
                return []
            names = {f["n"] for f in c["fields"] if not f["hasinit"] and f["tk"] in SCALAR}
            done = inited(k[0]) | (sets(self.prog, k[0], names) or set())
            return [n for n in sorted(names - done) if (c["name"], n) in self.read]
        return [f["n"] for f in c["fields"] if not f["hasinit"] and f["tk"] in SCALAR and (c["name"], f["n"]) in self.read]


def plain(c):
    """a class with nothing but data and constructors"""
    return not any(not m.get("ctor") and not m.get("implicit") and not m["n"].startswith("~") for m in c["methods"])


def inited(k):
    return {i.get("field") for i in k.get("inits", []) if i.get("field") and not (i["e"] or {}).get("k") in ("implicit", None)}


def variables(prog, ck, fn, fds):
    bad, und = [], []

    def on_read(fl, t, lv, tag, x, whole=False):
        n = fl.names.get(t[0] if isinstance(t, tuple) else t, "?") + ("." + t[1] if isinstance(t, tuple) else "")
        if lv == U:
            bad.append((n, x["l"], "no write to it can have happened before"))
        elif not tag.loop and not (tag.corr & fl.depends(t)):
            bad.append((n, x["l"], "a path through the function leaves it unset and nothing on the way to the read depends on that"))
        else:
            und.append((n, x["l"]))
    class Fl(Flow):
        def on_lost(self, fl, q):
            alias = {x["a"].get("id") for x in nodes(fn["body"]) if x["k"] == "assign" and x["a"].get("k") == "var" and x["b"].get("k") == "var" and x["b"].get("id") == q[0]}
            alias |= {x["id"] for x in nodes(fn["body"]) if x["k"] == "decl" and (x.get("init") or {}).get("k") == "var" and x["init"].get("id") == q[0]}
            other = any(x["k"] == "assign" and x["a"].get("k") == "mem" and x["a"]["f"] == q[1] and x["a"]["b"] and x["a"]["b"].get("k") == "var" and x["a"]["b"].get("id") in alias for x in nodes(fn["body"]))
            if not other and not fds.later(q[1]):
                lost.append(self.names[q[0]] + "->" + q[1])
    lost = []
    fl = Fl(fds.of, on_read)
    fl.go(fn["body"])
    inst = fn["name"] + ("/%d" % len(fn["params"]) if len(prog.fns(fn["name"])) > 1 else "")
    own = fn["cls"] or fn["file"]
    for n, l, t in bad:
        ck.bad("variables", own + " " + n, "%s is read in line %d, yet %s" % (n, l, t), "%s:%d (%s)" % (fn["file"], l, fn["name"]))
    for n, l in und:
        ck.und("variables", own + " " + n, "%s may be unset when it is read in line %d" % (n, l), "%s:%d (%s)" % (fn["file"], l, fn["name"]))
    for n in sorted(set(lost)):
        ck.bad("variables", own + " " + n, "the object lives on although %s is never set" % n, w(fn))
    if not bad and not und and not lost:
        ck.ok("variables", inst + fn["key"][len(fn["name"]):][:80], "%d variables without an initialiser, all set before they are read" % fl.count, w(fn))


# ---- members

def sets(prog, fn, names, depth=0):
    """fields of this certainly set when fn returns (those among names); None if it never returns normally"""
    class Fl(Flow):
        def method(self, f, st):
            g = prog.functions.get(f.get("key"))
            if g and g.get("body") and depth < 3 and not f.get("virt"):
                for n in sets(prog, g, names, depth + 1) or ():
                    st[("this", n)] = (I, None)
    out = None
    for st in Fl(lambda t: [], lambda *a: None).go(fn["body"], {("this", n): (U, None) for n in names}):
        got = {n for n in names if st.get(("this", n), (U, None))[0] == I}
        out = got if out is None else out & got
    return out


def accepts(prog, fn, names):
    """fields set on every path on which a configuring function accepts"""
    class Fl(Flow):
        def run(self, s, st):
            if s is not None and st is not None and s["k"] == "return" and s.get("e") and s["e"].get("k") == "bool" and not s["e"].get("v"):
                return None
            return Flow.run(self, s, st)
    out = None
    for st in Fl(lambda t: [], lambda *a: None).go(fn["body"], {("this", n): (U, None) for n in names}):
        got = {n for n in names if st.get(("this", n), (U, None))[0] == I}
        out = got if out is None else out & got
    return out or set()


def members(prog, ck, fds):
    for name, c in sorted(prog.classes.items()):
        need = [f for f in c["fields"] if f["tk"] in SCALAR]
        if not need:
            continue
        where = "%s:%d (%s)" % (c["file"], c["l"], name)
        left = [f for f in need if not f["hasinit"]]
        if not left:
            ck.ok("members", name, "%d members, all with an initialiser" % len(need), where)
            continue
        names = {f["n"] for f in left}
        ctors = [f for f in prog.functions.values() if f.get("ctor") and f["cls"] == name]
        if not c["userctor"]:
            # aggregates are followed object by object (rule variables)
            emb = [(n2, f["n"]) for n2, c2 in sorted(prog.classes.items()) for f in c2["fields"] if not f["hasinit"] and f["tk"] == "rec" and f["ty"] in (name, name.split("::")[-1])]
            for n2, m in emb:
                ck.und("members", n2 + "." + m, "a %s whose members have no initialiser" % name, where)
            ck.ok("members", name, "no constructor: %d members without initialiser are followed in every object" % len(left), where)
            continue
        unset = {}
        for k in ctors:
            if any(i.get("deleg") for i in k.get("inits", [])) or k["name"].split("::")[-1] != name.split("::")[-1]:
                continue
            if is_copy(k, name):
                continue
            if plain(c) and not k["params"]:
                continue        # followed object by object
            has = inited(k)
            has |= sets(prog, k, names) or set()
            for n in names - has:
                unset.setdefault(n, k)
        if not ctors or any(m.get("ctor") and not m.get("implicit") and m["key"] not in prog.functions and len([f for f in ctors]) == 0 for m in c["methods"]):
            for n in names:
                unset.setdefault(n, None)
        conf = [f for f in prog.functions.values() if f.get("cls") == name and f["short"].startswith("config") and f["rtk"] == "bool"]
        for f in conf:
            for n in list(unset):
                if n in accepts(prog, f, {n}):
                    unset.pop(n)
        for n, k in sorted(unset.items()):
            use = uses(prog, name, n)
            inst = name + "." + n
            if use is None:
                ck.ok("members", inst, "never read before the same function has set it", where)
            else:
                ck.bad("members", inst, "%s has no initialiser, %s does not set it, and %s reads it" % (n, "the constructor in line %d" % k["l"] if k else "no constructor", use["name"]), "%s:%d (%s)" % (use["file"], use["l"], use["name"]))
        ck.ok("members", name, "%d members: initialised, or set by every constructor" % len(need), where)


def is_copy(k, name):
    p = k["params"]
    return len(p) == 1 and p[0]["ty"].replace("const ", "").rstrip("& ").split("::")[-1] == name.split("::")[-1]


def uses(prog, cls, n):
    """a function that reads the member before it has set it itself"""
    sub = set(prog.derived(cls))
    for f in sorted(prog.functions.values(), key=lambda f: f["key"]):
        if not f.get("body") or f.get("ctor"):
            continue
        hit = []
        if f.get("cls") in sub:
            Flow(lambda t: [], lambda fl, t, lv, tag, x, whole=False: hit.append(x) if t == ("this", n) else None).go(f["body"], {("this", n): (U, None)})
        elif any(x.get("k") == "mem" and x["f"] == n and x["cls"] == cls for x in nodes(f["body"])):
            hit.append(1)
        if hit:
            return f
    return None


def nodes(x):
    if isinstance(x, dict):
        if "k" in x:
            yield x
        for v in x.values():
            yield from nodes(v)
    elif isinstance(x, list):
        for v in x:
            yield from nodes(v)


# ---- addresses

def ptrkey(ty):
    """the key type of an ordered container, if it is a pointer and no comparison is given"""
    import re
    t = ty.replace("const ", "")
    m = re.match(r"^(?:std::)?(set|multiset|map|multimap)<(.*)>$", t.rstrip("& ").strip())
    if not m:
        return None
    args, d, cur = [], 0, ""
    for ch in m.group(2):
        d += ch in "<(" 
        d -= ch in ">)"
        if ch == "," and d == 0:
            args.append(cur.strip())
            cur = ""
        else:
            cur += ch
    args.append(cur.strip())
    n = 1 if "set" in m.group(1) else 2
    if len(args) > n and "less<" not in args[n]:
        return None
    k = args[0]
    return k if k.endswith("*") or "shared_ptr<" in k.split("<")[0] + "<" or "unique_ptr<" in k.split("<")[0] + "<" else None


def addresses(prog, ck):
    n = 0
    for fn in sorted(prog.functions.values(), key=lambda f: f["key"]):
        iterated = set()
        for x in nodes(fn.get("body")):
            if x["k"] == "bin" and x["op"] in ("<", ">", "<=", ">=") and x["a"].get("tk") == "ptr" and x["b"].get("tk") == "ptr" and not carr(x):
                ck.bad("addresses", fn["name"], "line %d orders two objects by their addresses" % x["l"], "%s:%d (%s)" % (fn["file"], x["l"], fn["name"]))
            elif x["k"] == "opcall" and x["op"] in ("<", ">", "<=", ">=") and all("_ptr<" in a.get("t", "").split("<")[0] + "<" for a in x["a"]):
                ck.bad("addresses", fn["name"], "line %d orders two objects by their addresses" % x["l"], "%s:%d (%s)" % (fn["file"], x["l"], fn["name"]))
            elif x["k"] == "rfor" and ptrkey(x["range"].get("t", "")):
                ck.bad("addresses", fn["name"], "line %d walks a container ordered by addresses (%s)" % (x["l"], x["range"]["t"][:60]), "%s:%d (%s)" % (fn["file"], x["l"], fn["name"]))
            elif x["k"] == "mcall" and (x.get("f") or {}).get("short", "") in ("begin", "rbegin", "lower_bound", "upper_bound") and ptrkey(x["o"].get("t", "")):
                ck.bad("addresses", fn["name"], "line %d walks a container ordered by addresses (%s)" % (x["l"], x["o"]["t"][:60]), "%s:%d (%s)" % (fn["file"], x["l"], fn["name"]))
            elif x["k"] == "call" and (x.get("f") or {}).get("name") in ("std::sort", "std::stable_sort", "std::max_element", "std::min_element") and len(x["a"]) == 2 and ("*>" in x["a"][0].get("t", "").replace(" ", "").split("iterator<")[-1][:200] and "**" in x["a"][0].get("t", "").replace(" ", "") or "iterator<std::shared_ptr" in x["a"][0].get("t", "")):
                ck.bad("addresses", fn["name"], "line %d sorts pointers by their addresses" % x["l"], "%s:%d (%s)" % (fn["file"], x["l"], fn["name"]))
        n += 1
    ck.count("functions searched for orders by address", n)
    ck.ok("addresses", "all functions", "%d functions: no comparison, container or sort orders by addresses" % n)


def carr(x):
    return any("char" in x[s].get("t", "") or "iterator" in x[s].get("t", "") for s in "ab")


# ---- clocks and random numbers

RANDOM = {"rand", "random", "drand48", "lrand48", "rand_r"}
HOME = ("kMeansPlusPlus", "streamingKmeans", "streamingUtils")


def sources(prog, ck):
    for fn in sorted(prog.functions.values(), key=lambda f: f["key"]):
        rnd, clk = [], []
        for x in nodes(fn.get("body")):
            if x["k"] in ("call", "mcall", "opcall", "ctor"):
                f = x.get("f") or {}
                nm, sh = f.get("name", ""), f.get("short", "")
                if sh in RANDOM and not f.get("repo") or "random_device" in nm and x["k"] != "ctor" or "_distribution" in nm and x["k"] == "opcall" or sh in ("shuffle", "random_shuffle") and nm.startswith("std::"):
                    rnd.append(x)
                if sh == "now" and "chrono" in nm or nm in ("time", "std::time", "clock", "std::clock", "gettimeofday", "clock_gettime") or sh in ("getpid",):
                    clk.append(x)
        where = "%s:%d (%s)" % (fn["file"], fn["l"], fn["name"])
        if rnd:
            owner = fn.get("cls", "").split("::")[-1]
            if owner in HOME or callers_in(prog, fn, HOME):
                ck.ok("random", fn["name"], "random choices of a randomised clustering", where)
            else:
                ck.bad("random", fn["name"], "line %d draws a random number outside the randomised clusterings" % rnd[0]["l"], where)
        if clk:
            clock(ck, fn, clk, where)


def callers_in(prog, fn, home):
    cs = [g for g in prog.functions.values() if any(x["k"] in ("call", "mcall") and (x.get("f") or {}).get("key") == fn["key"] for x in nodes(g.get("body")))]
    return bool(cs) and all(g.get("cls", "").split("::")[-1] in home for g in cs)


def clock(ck, fn, clk, where):
    """what is computed from the clock may only be shown or appended to texts"""
    taint = set()

    def tainted(x):
        return any(y.get("k") == "var" and y.get("id") in taint or y in clk for y in nodes(x))
    for _ in range(5):
        n = len(taint)
        for x in nodes(fn["body"]):
            if x["k"] == "decl" and x.get("init") and tainted(x["init"]):
                taint.add(x["id"])
            elif x["k"] in ("assign",) and x["a"].get("k") == "var" and tainted(x["b"]):
                taint.add(x["a"].get("id"))
            elif x["k"] == "opcall" and x["op"] in ("=", "+=") and x["a"][0].get("k") == "var" and tainted(x["a"][1]):
                taint.add(x["a"][0].get("id"))
        if len(taint) == n:
            break
    for x in nodes(fn["body"]):
        k = x["k"]
        if k in ("if", "while", "for", "do", "cond") and x.get("c") and tainted(x["c"]):
            return ck.bad("clock", fn["name"], "line %d decides by the clock" % x["l"], where)
        if k == "call" and (x.get("f") or {}).get("short", "") in ("srand",) or k == "mcall" and (x.get("f") or {}).get("short", "") == "seed":
            if fn.get("cls", "") not in HOME and tainted(x["a"]):
                return ck.bad("clock", fn["name"], "line %d seeds a generator by the clock" % x["l"], where)
        if k == "assign" and x["a"].get("k") == "mem" and tainted(x["b"]) and x["a"].get("tk") != "rec":
            return ck.bad("clock", fn["name"], "line %d keeps a value of the clock in %s" % (x["l"], x["a"]["f"]), where)
        if k == "mcall" and (x.get("f") or {}).get("short", "") in ("push_back", "insert", "emplace_back") and tainted(x["a"]) and not any("string" in a.get("t", "") for a in x["a"]):
            return ck.bad("clock", fn["name"], "line %d stores a value of the clock" % x["l"], where)
        if k == "return" and x.get("e") and x["e"].get("tk") in SCALAR and tainted(x["e"]):
            return ck.und("clock", fn["name"], "line %d returns a value of the clock" % x["l"], where)
    ck.ok("clock", fn["name"], "%d readings of the clock, only shown" % len(clk), where)
