"""C03 command line options."""
from ..common import *
from ..loops import irange, diff, bound
import re

TITLE = "command line options"

OPTIONS = {  # option: (shorthand, default)
    "mpi": ("a", "0"), "mode": ("m", "standard"), "dimensions": ("d", "1"), "iterations": ("r", "250"), "pipeline": ("p", ""),
    "inputFile": ("i", "None"), "outputFile": ("o", "output.csv"), "epsilon": ("e", "5"), "lambda": ("l", ".25"), "debug": ("x", "0"),
    "complexType": ("c", "simplexTree"), "clusters": ("k", "20"), "preprocessor": ("pre", ""), "upscale": ("u", "false"),
    "twist": ("t", "false"), "collapse": ("z", "false")}


def tables(prog):
    """constant string -> string tables: globals, static members and function-local ones"""
    out = {}

    def lits(x):
        """list of (a,b) literal pairs directly in an initialiser"""
        res = []

        def w(y):
            if isinstance(y, dict):
                ss = pairof(y)
                if ss:
                    res.append(ss)
                    return
                for v in y.values():
                    w(v)
            elif isinstance(y, list):
                for v in y:
                    w(v)
        w(x)
        return res
    for k, g in prog.globals.items():
        if g.get("init") is not None and ("map" in str(g.get("ty", "")) or True):
            l = lits(g["init"])
            if len(l) >= 5:
                out[k] = (l, "%s:%s" % (g["file"], g["l"]))
    return out


def pairof(y):
    """('a','b') if y is an initialiser of exactly two string literals"""
    a = y.get("a")
    if y.get("k") in ("ctor", "init") and isinstance(a, list) and len(a) == 2:
        s = [strlit(x) for x in a]
        if None not in s:
            return tuple(s)
    return None


def strlit(x):
    n = 0
    while isinstance(x, dict) and n < 8:
        n += 1
        if x.get("k") == "str":
            return x["v"]
        a = x.get("a")
        if isinstance(a, list) and a:
            x = a[0]
        elif isinstance(a, dict):
            x = a
        elif isinstance(x.get("e"), dict):
            x = x["e"]
        else:
            return None
    return None


def run(prog, ck):
    tabs = tables(prog)
    alias = deflt = None
    for k, (l, w) in tabs.items():
        d = dict(l)
        if d.get("epsilon") is None and "inputFile" not in d:
            continue
        sc = sum(d.get(o) == s for o, (s, _) in OPTIONS.items())
        sd = sum(d.get(o) == v for o, (_, v) in OPTIONS.items())
        if sc > sd:
            alias = (k, l, w)
        else:
            deflt = (k, l, w)
    if alias is None or deflt is None:
        ck.und("tables", "alias/default", "no constant option tables found; their contents cannot be decided")
    else:
        table_rules(ck, alias, deflt)
    resolve(prog, ck, alias and alias[0], deflt and deflt[0])
    parse(prog, ck)
    usage(prog, ck)
    ck.expect("alias", 16)
    ck.expect("default", 16)
    ck.expect("resolve", 3)
    ck.expect("parse", 2)


def table_rules(ck, alias, deflt):
    al, dl = dict(alias[1]), dict(deflt[1])
    for o, (s, v) in OPTIONS.items():
        ck.require(al.get(o) == s, "alias", o, "option --%s answers to shorthand %r instead of -%s" % (o, al.get(o), s), alias[2])
        ck.require(dl.get(o) == v, "default", o, "option --%s defaults to %r instead of %r" % (o, dl.get(o), v), deflt[2])
    sh = [s for _, s in alias[1]]
    for s in sh:
        if sh.count(s) > 1:
            ck.bad("alias-unique", s, "shorthand -%s is shared by %s" % (s, [o for o, x in alias[1] if x == s]), alias[2])
        else:
            ck.ok("alias-unique", s)
        ck.require(s not in al, "alias-not-long", s, "shorthand -%s is also the name of an option" % s, alias[2])
    for tab, l, w in (alias, deflt):
        for o in {o for o, _ in l}:
            ck.require(sum(x == o for x, _ in l) == 1, "one-entry", "%s/%s" % (tab, o), "option %s has two entries in %s: only the first one counts" % (o, tab), w)
    for o in al:
        ck.require(o in dl, "alias-has-default", o, "option --%s has no default" % o, deflt[2])


def peel(m, k):
    """value of map term m at key k, where keys written differently are different keys"""
    while True:
        if m.op in ("upd", "ins") and len(m.a) > 2:
            if m.a[1] is k:
                return m.a[2]
            m = m.a[0]
        elif m.op == "rm":
            if m.a[1] is k:
                return None
            m = m.a[0]
        elif m.op == "touch":
            m = m.a[0]
        else:
            return mk("at", m, k)


def present(m, k):
    while True:
        if m.op in ("upd", "ins", "touch"):
            if m.a[1] is k:
                return True
            m = m.a[0]
        elif m.op == "rm":
            if m.a[1] is k:
                return False
            m = m.a[0]
        else:
            return None


def resolve(prog, ck, alias, deflt):
    fns = prog.fns("argParser::defaultArguments")
    if len(fns) != 1 or len(fns[0]["params"]) != 1:
        ck.und("resolve", "defaultArguments", "no single definition")
        return
    fn = fns[0]
    where = "%s:%d" % (fn["file"], fn["l"])
    en = Engine(prog)
    try:
        sts = en.run(fn)
    except (PathLimit, Undecided) as ex:
        ck.und("resolve", "defaultArguments", str(ex))
        return
    pname = fn["params"][0]["n"]
    n = 0
    recs = {}
    for s in sts:
        for e, _, _ in walk_ev(s.ev):
            if e.k == "loop":
                recs[e.rec.lid] = e.rec
    for r in recs.values():
        ms = [h for h in r.H if h.op in ("L.var", "L.ref") and (h.a[-1] == pname or h.a[0] == pname)]
        if not ms:
            ms = [h for h in r.H if show(h) == pname]
        if not ms:
            continue
        H = ms[0]
        cur = None
        for kind, p in r.paths:
            M = en.read(p, H)
            b = M
            while b.op in ("upd", "rm", "touch", "ins"):
                b = b.a[0]
            cur = b
            es = {x.a[0] for x in list(p.atoms) + [M] for x in subterms(x) if x.op == "fld" and x.a[1] in ("first", "second")}
            es = [x for x in es if x.op == "at" and any(y.op == "lv" for y in subterms(x.a[1]))]
            tabs = {y for x in es for y in subterms(x) if y.op == "init"}
            if len(es) != 1:
                ck.und("resolve", "entry %s" % kind, "table element not recognised")
                continue
            el = es[0]
            k, s = mk("fld", el, "first"), mk("fld", el, "second")
            hs, hk = p.atoms.get(mk("has", cur, s)), p.atoms.get(mk("has", cur, k))
            if kind != "end":
                ck.bad("resolve", "all-options", "the loop over the options stops early", where, [fmt_guards(p.atoms)])
                continue
            n += 1
            v = peel(M, k)
            if hs is True:
                ok = v is mk("at", cur, s) or (hk is True and v is mk("at", cur, k))
                ck.require(ok, "resolve", "shorthand", "the value given with the shorthand is not what the option gets: %s" % show(v), where, [fmt_guards(p.atoms)])
                ck.require(present(M, s) is not True, "resolve", "shorthand-key", "the shorthand stays in the settings", where)
            elif hs is False and hk is False:
                if v is not None and v.op == "at" and v.a[0] is not cur and v.a[1] is k:
                    d = v.a[0]
                    nm = show(d)
                    ok = deflt is None or deflt in nm
                    ck.require(ok or alias is None or alias not in nm, "resolve", "default", "an option that was not given takes its value from %s" % nm, where)
                elif v is None or v.op in ("at", "str", "empty"):
                    ck.bad("resolve", "default", "an option that was not given does not get its default: %s" % (show(v) if v is not None else "removed"), where, [fmt_guards(p.atoms)])
                else:
                    ck.und("resolve", "default", show(v))
            elif hs is False and hk is True:
                ck.require(v is mk("at", cur, k), "resolve", "given", "a value given with the long option is replaced by %s" % (show(v) if v is not None else "nothing"), where, [fmt_guards(p.atoms)])
            else:
                if hs is False and hk is None and v is not None and v.op == "at" and v.a[0] is not cur:
                    ck.bad("resolve", "given", "a value given with the long option is replaced by the default", where, [fmt_guards(p.atoms)])
                else:
                    ck.und("resolve", "path", fmt_guards(p.atoms))
        it = [(i, v) for i, v in r.ivs.items()]
        if r.kind == "rfor" or it:
            if it:
                ck.require(any(v[1] == 1 and (v[0].op == "int" and v[0].a[0] == 0 or v[0].op in ("begin",)) for i, v in it) or r.kind == "rfor", "resolve", "from-first", "the loop over the options does not start with the first one: %s" % [(show(a), show(b[0]), b[1]) for a, b in it], where)
    if not n:
        ck.und("resolve", "defaultArguments", "no loop over the option table recognised")


def parse(prog, ck):
    fn = prog.fn("argParser::parse", 2)
    where = "%s:%d" % (fn["file"], fn["l"])
    en = Engine(prog, opaque=lambda f: f["short"] in ("printUsage", "defaultArguments"))
    sts = en.run(fn)
    argc, argv = [mk("param", p["n"]) for p in fn["params"]]
    seen = set()
    nset = 0
    for s in sts:
        for e, ctx, own in walk_ev(s.ev):
            if e.k == "index" and e.c is argv and id(e) not in seen:
                seen.add(id(e))
                if en_implied(en, own, e, lt(e.i, argc)) is False or unbounded(e, argc):
                    ck.bad("argv-bound", show(strip(e.i)), "argv[%s] is read without knowing that it is below argc" % show(strip(e.i)), e.where(), [fmt_guards(e.g)])
                else:
                    ck.ok("argv-bound", show(strip(e.i)), "", e.where())
            if e.k in ("lwrite", "write") and e.place.op in ("L.elem", "L.key") and id(e) not in seen:
                seen.add(id(e))
                key = e.place.a[1]
                if not contains(key, lambda x: x is argv):
                    continue
                nset += 1
                if key.op != "substr" or key.a[0].op != "at":
                    if key.op == "at" and key.a[0] is argv:
                        ck.bad("parse", "key", "an option is stored with its leading dashes: %s" % show(key), e.where())
                    else:
                        ck.und("parse", "key", show(key))
                    continue
                src, off = key.a[0], key.a[1]
                p2 = mk("==", mk("substr", src, INT(0), INT(2)), STR("--"))
                p1 = mk("==", mk("substr", src, INT(0), INT(1)), STR("-"))
                two = [e.g.get(a) for a in (p2, eq(mk("substr", src, INT(0), INT(2)), STR("--")))]
                one = [e.g.get(a) for a in (p1, eq(mk("substr", src, INT(0), INT(1)), STR("-")))]
                want = 2 if True in two else 1 if True in one and False in two else None
                rest = key.a[2] if len(key.a) > 2 else None
                if want is None:
                    ck.und("parse", "prefix", fmt_guards(e.g))
                else:
                    ck.require(off is INT(want) and (rest is None or rest.op == "init" or rest.op == "int" and rest.a[0] < 0 or rest.op not in ("int",)), "parse", "--" if want == 2 else "-", "the option name after %s is taken from %s" % ("--" if want == 2 else "-", show(key)), e.where())
                v = e.val
                ok = v is mk("at", argv, add(src.a[1], INT(1)))
                ck.require(ok or v.op not in ("at", "str", "substr"), "parse", "value%d" % (want or 0), "the value of an option is %s instead of the next argument" % show(v), e.where())
        for e, _, _ in walk_ev(s.ev):
            if e.k == "loop":
                for iv, (v0, stp) in e.rec.ivs.items():
                    if any(a.op == "<" and a.a[0] is iv and a.a[1] is argc for a, b in e.rec.conds):
                        ck.require(v0 is INT(1), "parse", "first-argument", "parsing starts at argument %s" % show(v0), e.where())
                        ck.require(stp == 2, "parse", "step", "parsing advances by %s arguments per option" % stp, e.where())
                whole(ck, e, argc, argv)
        # defaults applied to what is returned
        calls = [e for e, _, _ in walk_ev(s.ev) if e.k == "call" and e.name.endswith("::defaultArguments")]
        if s.status == "ret":
            ck.require(bool(calls), "parse", "defaults-applied", "parse returns settings that were never completed with the defaults", where)


def whole(ck, e, argc, argv):
    """the loop over the arguments goes up to the last one, and each option it meets is stored"""
    r = e.rec
    if r.lid in {x.rec.lid for x in ck.__dict__.setdefault("c03seen", [])}:
        return
    ck.c03seen.append(e)
    for iv in r.ivs:
        g = irange(r, iv)
        if g is None or g.hi is None or not g.known:
            continue
        d = diff(g.hi, argc)
        if d is None:
            continue
        ck.require(d >= -1, "parse", "last-argument", "parsing stops %d arguments before the last one" % -d, e.where())
        for kind, p in r.paths:
            short = [a for a, b in p.atoms.items() if bound(iv, a, b) and bound(iv, a, b)[0] == "lb" and diff(bound(iv, a, b)[1], argc) is not None]
            opt = any(b and a.op == "==" and any(x.op == "substr" and x.a[0] is mk("at", argv, iv) for x in a.a) for a, b in p.atoms.items())
            stored = any(x.k in ("lwrite", "write") and x.place.op in ("L.elem", "L.key") and contains(x.place.a[1], lambda y: y is argv) for x in p.ev) or any(h.op in ("L.var", "L.ref") and contains(v, lambda y: y.op in ("upd", "ins") and contains(y, lambda z: z is argv)) for h, v in p.store.items())
            said = any(x.k == "call" and x.name.endswith("printUsage") for x in p.ev)
            byval = [a for a in p.atoms if any(x.op == "at" and x.a[0] is argv and diff(x.a[1], iv) == 1 for x in subterms(a))]
            if not short and opt and said and not stored and byval:
                ck.bad("parse", "stored", "an option on the command line is passed over because of its value when %s" % fmt_guards(p.atoms)[:300], e.where())
                continue
            if short or not opt or said:
                continue
            if not stored:
                ck.bad("parse", "stored", "an option on the command line is passed over when %s" % fmt_guards(p.atoms)[:300], e.where())
            else:
                ck.ok("parse", "stored", "", e.where())
            if kind in ("brk", "ret") and stored:
                ck.bad("parse", "goes on", "the arguments after an option are not read when %s" % fmt_guards(p.atoms)[:300], e.where())
            else:
                ck.ok("parse", "goes on", "", e.where())


def strip(t):
    return t


def en_implied(en, st, e, t):
    return None


def unbounded(e, argc):
    """the index is one more than a guarded one and only the smaller one is guarded"""
    i = e.i
    def guarded(x):
        if e.g.get(lt(x, argc)) is True:
            return True
        for a, b in e.g.items():
            if b and a.op == "<" and a.a[1] is argc and x.op == "+" and a.a[0].op == "+" and a.a[0].a[0] is x.a[0] and cval(x.a[1]) is not None and cval(a.a[0].a[1]) is not None and cval(a.a[0].a[1]) >= cval(x.a[1]):
                return True
            if b and a.op == "<" and a.a[1] is argc and a.a[0].op == "+" and a.a[0].a[0] is x and (cval(a.a[0].a[1]) or -1) >= 0:
                return True
            if b and a.op == "<" and a.a[0] is x and a.a[1].op == "+" and a.a[1].a[0] is argc and (cval(a.a[1].a[1]) or 0) <= 0:
                return True
            if b and a.op == "<" and x.op == "+" and a.a[0] is x.a[0] and a.a[1].op == "+" and a.a[1].a[0] is argc and cval(a.a[1].a[1]) is not None and cval(x.a[1]) is not None and cval(a.a[1].a[1]) + cval(x.a[1]) <= 0:
                return True
        return False
    if guarded(i):
        return False
    if i.op == "+" and i.a[0].op == "lv" and cval(i.a[1]) is not None and cval(i.a[1]) > 0:
        # only certain when the plain counter is bounded by argc itself and nothing else constrains the index
        return not any(contains(a, lambda x: x is i) for a in e.g)
    return False


def usage(prog, ck):
    """what the usage text promises is what the parser does"""
    fn = prog.fn("argParser::printUsage", 0)
    en = Engine(prog)
    txt = ""
    for s in en.run(fn)[:1]:
        for e, _, _ in walk_ev(s.ev):
            if e.k == "emit" and e.val.op == "str":
                txt += e.val.a[0]
    cur = None
    where = "%s:%d" % (fn["file"], fn["l"])
    for line in txt.split("\n"):
        m = re.search(r"-(\w+),\s*--(\w+)", line)
        if m:
            cur = m.group(2)
            o = OPTIONS.get(cur)
            ck.require(o is not None and o[0] == m.group(1), "usage", cur, "the usage text offers -%s,--%s" % (m.group(1), cur), where)
        m = re.search(r"default:\s*(\S+)", line)
        if m and cur in OPTIONS:
            ck.require(m.group(1) == OPTIONS[cur][1], "usage", cur + "/default", "the usage text states default %s for --%s" % (m.group(1), cur), where)


