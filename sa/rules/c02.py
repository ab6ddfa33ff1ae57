"""C02 parameter binding."""
from ..common import *
from .c01 import base_map

TITLE = "settings reach the computation under their own name"

KIND = {"epsilon": "real", "lambda": "real", "dimensions": "int", "clusters": "int", "iterations": "int", "debug": "int",
        "outputFile": "str", "inputFile": "str", "collapse": "str", "twist": "str", "fn": "str", "complexType": "str"}
CONV = {"real": ("toreal",), "int": ("toint",)}
# settings the run function of a stage computes with (confirmed by reading)
CONSUMED = {
    "distMatrix": ["epsilon"], "rips": ["dimensions", "collapse"], "fastPersistence": ["epsilon", "dimensions"],
    "persistence/simplexTree": ["epsilon", "dimensions"], "persistence/simplexArrayList": ["epsilon", "dimensions"],
    "persistence/indSimplexTree": ["epsilon", "dimensions"], "boundary": ["dimensions"],
    "slidingwindow": ["inputFile", "epsilon"], "naivewindow": ["inputFile"],
    "kmeans++": ["clusters", "iterations"], "streamingkmeans": ["clusters"], "denstream": ["epsilon", "lambda"]}


def run(prog, ck):
    stages = stage_classes(prog)
    pres = pre_classes(prog)
    done = {}
    for name, cls in list(stages.items()) + list(pres.items()):
        cfgname = "configPipe" if name in stages else "configPreprocessor"
        fn = method(prog, cls, cfgname, 1)
        if fn is None or fn["cls"] in ("basePipe", "preprocessor"):
            continue
        if cls not in done:
            done[cls] = binding(prog, ck, name, cls, fn)
        b = done[cls]
        if b is None:
            continue
        for key in CONSUMED.get(name, []):
            consumed(prog, ck, name, cls, fn, b, key)
    simplex(prog, ck)
    uses(prog, ck, stages, pres, done)
    subconfig(prog, ck, stages, done)
    ck.expect("exact-value", 25)
    ck.expect("consumed", 16)


def keys_of(v, cfg):
    return {x.a[1].a[0] for x in subterms(v) if x.op in ("at",) and base_map(x.a[0]) is cfg and x.a[1].op == "str"}


def exact(v, cfg):
    """('key', conversion ops outermost first) when v is conv(cfg[key]) else None"""
    ops = []
    while v.op in ("toreal", "toint", "float32", "b2i"):
        ops.append(v.op)
        v = v.a[0]
    if v.op == "at" and base_map(v.a[0]) is cfg and v.a[1].op == "str":
        return v.a[1].a[0], tuple(ops)
    return None


def binding(prog, ck, name, cls, fn):
    """{key: {field}} on successful configuration; judges every field whose value depends on a setting"""
    cfg = mk("param", fn["params"][0]["n"])
    en = Engine(prog)
    where = "%s:%d" % (fn["file"], fn["l"])
    try:
        sts = en.run(fn, dyn=cls)
    except (PathLimit, Undecided) as ex:
        ck.und("exact-value", name, str(ex), where)
        return None
    bind = {}
    good = []
    for s in sts:
        if s.status != "ret":
            continue
        for s2, r in en.branch(s, s.ret):
            if not r:
                continue
            good.append(s2)
            for pl, v in s2.store.items():
                if pl.op != "L.fld" or pl.a[0] is not THISP:
                    continue
                f = pl.a[1]
                if base_map(v) is cfg:
                    bind.setdefault("*", set()).add(f)
                    ck.ok("exact-value", "%s.%s" % (cls, f), "whole configuration kept", where)
                    continue
                ks = keys_of(v, cfg)
                if not ks:
                    continue
                if f == "ut" or v.op in ("obj", "agg", "struct", "utils"):
                    # the logger: debug level and log target in their own slots
                    logger(ck, cls, f, v, cfg, where)
                    continue
                e = exact(v, cfg)
                inst = "%s.%s" % (cls, f)
                if e is None:
                    if len(ks) == 1 and (v.op in ("+", "-", "*", "/", "%", "cat") and KIND.get(list(ks)[0]) in ("real", "int") or v.op in ("min", "max", "cat") and list(ks)[0] in KIND):
                        ck.bad("exact-value", inst, "field %s is not the supplied %s but %s" % (f, list(ks)[0], show(v)), where)
                    else:
                        ck.und("exact-value", inst, show(v)[:200], where)
                        for k in ks:
                            bind.setdefault(k, set()).add(f)
                    continue
                k, ops = e
                bind.setdefault(k, set()).add(f)
                kind = KIND.get(k)
                if kind == "real" and "toint" in ops:
                    ck.bad("exact-value", inst, "the real-valued setting '%s' is truncated to an integer in field %s" % (k, f), where)
                elif kind == "real" and "float32" in ops:
                    ck.bad("exact-value", inst, "the real-valued setting '%s' is rounded to float in field %s" % (k, f), where)
                elif kind == "int" and ops == ("toreal",) and not numeric_int(prog, cls, f):
                    ck.bad("exact-value", inst, "field %s is a real number but taken from the integer setting '%s'" % (f, k), where)
                else:
                    ck.ok("exact-value", inst, "%s <- %s" % (f, show(v)), where)
    everypath(ck, name, cls, cfg, good, bind, where)
    # one field, one setting
    seen = {}
    for k, fs in bind.items():
        for f in fs:
            seen.setdefault(f, set()).add(k)
    for f, ks in seen.items():
        if "*" in ks:
            continue
        num = {k for k in ks if KIND.get(k) in ("real", "int")}
        ck.require(len(num) <= 1, "one-setting-per-field", "%s.%s" % (cls, f), "field %s takes its value from %s" % (f, sorted(ks)), where)
        for k in num:
            for st, own in STEMS.items():
                if st in f.lower() and own != k and not any(x in f.lower() for x, o in STEMS.items() if o == k):
                    ck.bad("name-agrees", "%s.%s" % (cls, f), "field %s receives setting '%s'" % (f, k), where)
                    break
            else:
                ck.ok("name-agrees", "%s.%s" % (cls, f))
    # nothing else overwrites a bound field
    for k, fs in bind.items():
        if KIND.get(k) not in ("real", "int"):
            continue
        for f in fs:
            w = writers(prog, cls, f)
            ck.require(not w, "not-overwritten", "%s.%s" % (cls, f), "field %s (setting '%s') is overwritten in %s" % (f, k, ", ".join(w)), where)
    return bind


def logger(ck, cls, f, v, cfg, where):
    if v.op != "struct":
        return
    for key in ("debug", "outputFile"):
        x = getf(v, key) if key in v.a else None
        if x is None:
            continue
        ks = keys_of(x, cfg)
        ck.require(not ks or ks == {key}, "logger", "%s.%s/%s" % (cls, f, key), "the stage's log takes the setting %s where '%s' belongs" % (sorted(ks), key), where)


def everypath(ck, name, cls, cfg, good, bind, where):
    """on every path to a successful configuration a supplied setting is in the fields that hold it on any path"""
    for s in good:
        own = {pl.a[1]: v for pl, v in s.store.items() if pl.op == "L.fld" and pl.a[0] is THISP}
        for key, fs in bind.items():
            if key == "*":
                if not any(base_map(v) is cfg for v in own.values()):
                    ck.bad("every-path", "%s/*" % name, "the configuration is kept on some paths only: missing when %s" % fmt_guards(s.atoms)[:200], where)
                continue
            if s.atoms.get(mk("has", cfg, STR(key))) is not True:
                continue
            for f in fs:
                v = own.get(f)
                if v is not None and (exact(v, cfg) or (None,))[0] == key:
                    ck.ok("every-path", "%s.%s" % (cls, f), "", where)
                elif v is None or not keys_of(v, cfg):
                    if KIND.get(key) == "str" and v is not None:
                        ck.und("every-path", "%s.%s" % (cls, f), show(v)[:100], where)
                    else:
                        ck.bad("every-path", "%s.%s" % (cls, f), "the supplied setting '%s' does not reach field %s when %s" % (key, f, fmt_guards(s.atoms)[:200]), where)
        for key in ("debug", "outputFile"):
            if s.atoms.get(mk("has", cfg, STR(key))) is False:
                continue
            kept = [f for f, v in own.items() if (exact(v, cfg) or (None,))[0] == key]
            ck.require(bool(kept), "common-setting", "%s/%s" % (cls, key), "no field of %s receives the supplied setting '%s'" % (cls, key), where)
            logs = [v for f, v in own.items() if v.op == "struct" and "debug" in v.a and "outputFile" in v.a]
            for v in logs:
                x = getf(v, key)
                ck.require(key in keys_of(x, cfg), "common-setting", "%s/log %s" % (cls, key), "the stage's log does not receive the supplied setting '%s'" % key, where)


STEMS = {"eps": "epsilon", "dim": "dimensions", "cluster": "clusters", "iter": "iterations", "lambda": "lambda"}


def numeric_int(prog, cls, f):
    for c in prog.ancestors(cls):
        for x in prog.classes.get(c, {}).get("fields", []):
            if x["n"] == f:
                return x["tk"] in ("int", "uint", "bool", "integer")
    return True


def closure(prog, cls, skip=("configPipe", "configPreprocessor")):
    """methods of class cls (own and inherited) without configuration and constructors, plus everything they hand fields to"""
    out = {}
    for c in prog.ancestors(cls):
        for f in prog.functions.values():
            if f.get("cls") == c and f["short"] not in skip and not f.get("ctor"):
                out.setdefault(f["short"] + str(len(f["params"])), f)
    return list(out.values())


def ismem(x, field):
    return x.get("k") == "mem" and x.get("f") == field and isinstance(x.get("b"), dict) and x["b"]["k"] in ("this",)


def config_only(prog, cls):
    """methods reached only from configuration (setters) are part of it"""
    mets = closure(prog, cls)
    conf = [m for c in prog.ancestors(cls) for m in prog.functions.values() if m.get("cls") == c and m["short"] in ("configPipe", "configPreprocessor")]

    def callees(f):
        out = set()

        def w(x):
            fr = x.get("f")
            if isinstance(fr, dict) and fr.get("repo"):
                out.add(fr["key"])
            return False
        any_node(f["body"], w)
        return out
    fromconf = set()
    for m in conf:
        fromconf |= callees(m)
    others = set()
    for m in mets:
        others |= callees(m)
    return fromconf - others


def readers(prog, cls, field):
    skip = config_only(prog, cls)
    out = []
    for f in closure(prog, cls):
        if f["key"] in skip:
            continue
        n = []

        def w(x):
            if ismem(x, field):
                n.append(1)
            if x.get("k") == "assign" and isinstance(x.get("a"), dict) and ismem(x["a"], field) and x.get("op") in (None, "="):
                n.append(-1)
            return False
        any_node(f["body"], w)
        if sum(n) > 0:
            out.append(f["short"])
    return out


def writers(prog, cls, field):
    skip = config_only(prog, cls)
    out = []
    for f in closure(prog, cls):
        if f["key"] in skip:
            continue
        if any_node(f["body"], lambda x: x.get("k") == "assign" and isinstance(x.get("a"), dict) and ismem(x["a"], field)):
            out.append(f["short"])
    return out


def consumed(prog, ck, name, cls, fn, b, key):
    where = "%s:%d" % (fn["file"], fn["l"])
    fs = b.get(key, set())
    inst = "%s/%s" % (name, key)
    if not fs:
        if "*" in b:
            ck.ok("consumed", inst, "kept in the whole configuration", where)
        else:
            ck.bad("consumed", inst, "no field of %s receives the setting '%s'" % (cls, key), where)
        return
    rd = [f for f in fs if readers(prog, cls, f)]
    ck.require(bool(rd), "consumed", inst, "the setting '%s' is stored in %s but the stage never reads it" % (key, sorted(fs)), where)


def simplex(prog, ck):
    """the complex receives epsilon and dimensions too"""
    fn = prog.fn("simplexBase::setConfig", 1)
    cfg = mk("param", fn["params"][0]["n"])
    where = "%s:%d" % (fn["file"], fn["l"])
    for cls in ("simplexTree", "simplexArrayList", "indSimplexTree"):
        en = Engine(prog)
        m = method(prog, cls, "setConfig", 1)
        for s in en.run(m, dyn=cls):
            for key, conv in (("epsilon", "toreal"), ("dimensions", "toint")):
                h = s.atoms.get(mk("has", cfg, STR(key)))
                if h is False:
                    continue
                got = [(pl.a[1], exact(v, cfg)) for pl, v in s.store.items() if pl.op == "L.fld" and pl.a[0] is THISP and key in keys_of(v, cfg)]
                ok = [f for f, e in got if e and e[0] == key and (conv in e[1] and ("toint" not in e[1] or conv == "toint") and "float32" not in e[1])]
                if h is True or got:
                    ck.require(bool(ok), "complex-config", "%s/%s" % (cls, key), "setting '%s' does not reach the complex unchanged: %s" % (key, [(f, e) for f, e in got]), where)
            for pl, v in s.store.items():
                if pl.op == "L.fld" and pl.a[0] is THISP and v.op == "struct" and "debug" in v.a and "outputFile" in v.a:
                    for key in ("debug", "outputFile"):
                        if s.atoms.get(mk("has", cfg, STR(key))) is not True:
                            continue
                        x = getf(v, key)
                        e, ks = exact(x, cfg), keys_of(x, cfg)
                        if e and e[0] == key and not e[1]:
                            ck.ok("complex-config", "%s/%s" % (cls, key), "", where)
                        elif ks:
                            ck.bad("complex-config", "%s/%s" % (cls, key), "setting '%s' does not reach the complex unchanged: %s" % (key, show(x)[:100]), where)
    # the factory configures what it builds
    fac = prog.fn("simplexBase::newSimplex", 2)
    en = Engine(prog, opaque=lambda f: f["short"] in ("setConfig",))
    for s in en.run(fac):
        if s.status != "ret" or s.ret.op == "null":
            continue
        cl = newclass(s.ret)
        calls = [e for e, _, _ in walk_ev(s.ev) if e.k == "call" and e.name.endswith("::setConfig") and e.recv is mk("L.deref", s.ret)]
        ck.require(bool(calls), "complex-configured", cl or show(s.ret), "newSimplex returns a complex that was never given the configuration", "%s:%d" % (fac["file"], fac["l"]))
        for e in calls:
            p = mk("param", fac["params"][1]["n"])
            ck.require(any(a is p or base_map(a) is p for a in e.args if isinstance(a, T)), "complex-configured", (cl or "?") + "/map", "newSimplex configures the complex with something else than the configuration it was given: %s" % [show(a) for a in e.args if isinstance(a, T)], e.where())


def uses(prog, ck, stages, pres, done):
    """the value handed on is the configured one"""
    def fieldsof(cls, key):
        return (done.get(cls) or {}).get(key, set())
    # rips -> expandDimensions(dimensions)
    cls = stages.get("rips")
    if cls:
        fn = method(prog, cls, "runPipe", 1)
        en = Engine(prog, nomerge=True, opaque=lambda f: f["short"] in ("expandDimensions", "reduceComplex"))
        for s in en.run(fn, dyn=cls):
            names = [e.name for e, _, _ in walk_ev(s.ev) if e.k == "call"]
            if s.status == "ret":
                ck.require(any(n.endswith("::expandDimensions") for n in names), "use", "rips/expanded", "the complex is not expanded when %s" % fmt_guards(s.atoms)[:150], "%s:%d" % (fn["file"], fn["l"]))
                want, known = wanted(s, fieldsof(cls, "collapse"))
                if known:
                    ck.require(any(n.endswith("::reduceComplex") for n in names) == want, "use", "rips/collapse", "the complex is %sreduced when %s" % ("not " if want else "", fmt_guards(s.atoms)[:150]), "%s:%d" % (fn["file"], fn["l"]))
            for e, _, _ in walk_ev(s.ev):
                if e.k == "call" and e.name.endswith("::expandDimensions"):
                    a = e.args[0]
                    f = fieldname(a)
                    if f is not None:
                        ck.require(f in fieldsof(cls, "dimensions"), "use", "rips/expandDimensions", "the complex is expanded to %s, not to the configured dimension" % show(a), e.where())
                    elif a.op in ("int", "+", "-", "*", "/"):
                        ck.bad("use", "rips/expandDimensions", "the complex is expanded to %s, not to the configured dimension" % show(a), e.where())
                    else:
                        ck.und("use", "rips/expandDimensions", show(a))
    # denStream
    cls = pres.get("denstream")
    if cls:
        fn = method(prog, cls, "runPreprocessor", 1)
        sites = callsites(prog, fn)
        for m in closure(prog, cls):
            if m["key"] != fn["key"]:
                sites += callsites(prog, m)
        for f, args, l, file in sites:
            want = None
            if f["name"].startswith("microCluster::") and len(args) == 3:
                want, a = "lambda", args[2]
            elif f["name"] == "dbscan::cluster" and len(args) >= 3:
                want, a = "epsilon", args[2]
            if want:
                mem = [x for x in nodes(a) if x.get("k") == "mem" and x["b"].get("k") == "this"]
                if len(mem) == 1:
                    ck.require(mem[0]["f"] in fieldsof(cls, want), "use", "denstream/%s" % want, "%s receives field %s where the setting '%s' belongs" % (f["name"], mem[0]["f"], want), "%s:%s" % (file, l))
                elif not mem and a.get("k") in ("int", "real"):
                    ck.bad("use", "denstream/%s" % want, "%s receives a constant where the setting '%s' belongs" % (f["name"], want), "%s:%s" % (file, l))
    # k-means++: the number of centroids is 'clusters', the number of rounds is 'iterations'
    cls = pres.get("kmeans++")
    if cls:
        fn = method(prog, cls, "runPreprocessor", 1)
        for m in closure(prog, cls):
            for x in nodes(m["body"]):
                if x.get("k") == "bin" and x.get("op") in ("<", "<=", ">", ">=", "!="):
                    for p, q in ((x["a"], x["b"]), (x["b"], x["a"])):
                        fq = [y for y in nodes(q) if y.get("k") == "mem" and y["b"].get("k") == "this"]
                        sz = [y for y in nodes(p) if isinstance(y.get("f"), dict) and y["f"].get("short") == "size"]
                        if len(fq) == 1 and sz:
                            ck.require(fq[0]["f"] not in fieldsof(cls, "iterations"), "use", "kmeans++/clusters", "the number of centroids is compared with the configured number of iterations", "%s:%s" % (m["file"], x.get("l")))


def wanted(s, fs):
    """(is the collapse setting 'true' or '1' on this path, is that known)"""
    vals = {}
    for t, b in s.atoms.items():
        if t.op == "==" and any(fieldname(x) in fs for x in t.a if isinstance(x, T)):
            for x in t.a:
                if x.op == "str":
                    vals[x.a[0]] = b
    if any(vals.values()):
        return any(b and v in ("true", "1") for v, b in vals.items()), True
    if vals and vals.get("true") is False and vals.get("1") is False:
        return False, True
    if vals and not any(t.op != "==" and any(fieldname(x) in fs for x in subterms(t)) for t in s.atoms):
        # "1" or "true" and any other value go the same way
        return None, True
    return None, False


def nodes(x):
    todo = [x]
    while todo:
        y = todo.pop()
        if isinstance(y, dict):
            if "k" in y:
                yield y
            todo += list(y.values())
        elif isinstance(y, list):
            todo += y


def callsites(prog, fn):
    out = []
    for x in nodes(fn["body"]):
        f = x.get("f")
        if isinstance(f, dict) and f.get("repo"):
            out.append((f, x.get("args") or x.get("a") or [], x.get("l"), fn["file"]))
    return out


def subconfig(prog, ck, stages, done):
    """window stages hand their own configuration on to the stages they run"""
    for name in ("slidingwindow", "naivewindow"):
        cls = stages.get(name)
        b = done.get(cls) or {}
        if not cls:
            continue
        for m in closure(prog, cls):
            if not any(f["short"] == "configPipe" for f, _, _, _ in callsites(prog, m)):
                continue
            en = Engine(prog, opaque=lambda f: f["short"] in ("configPipe", "newPipe", "runPipeWrapper", "outputData"))
            try:
                sts = en.run(m, dyn=cls)
            except (PathLimit, Undecided) as ex:
                ck.und("subconfig", name, str(ex))
                continue
            for s in sts:
                for e, _, _ in walk_ev(s.ev):
                    if e.k == "call" and e.name.endswith("::configPipe") and e.args and isinstance(e.args[0], T):
                        c = e.args[0]
                        over = set()
                        while c.op in ("touch", "upd"):
                            if c.op == "upd" and c.a[1].op == "str":
                                over.add(c.a[1].a[0])
                            c = c.a[0]
                        bad = over & {"epsilon", "dimensions", "inputFile", "debug", "outputFile"}
                        ck.require(not bad, "subconfig", name, "the stages run on each window get a different %s" % ", ".join(sorted(bad)), e.where())
                        f = fieldname(c)
                        if f is not None:
                            ck.require(f in b.get("*", set()), "subconfig", name + "/map", "the stages run on each window are configured from %s, which does not hold the stage's own configuration" % f, e.where())
