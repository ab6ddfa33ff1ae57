"""C01 stage gating."""
from ..common import *

TITLE = "stage gating"

# settings each stage's computation reads as numbers (confirmed by reading each run function)
REQUIRED = {
    "distMatrix": {"epsilon"}, "neighGraph": {"epsilon", "dimensions"}, "rips": {"dimensions"}, "boundary": {"epsilon", "dimensions"},
    "persistence/simplexTree": {"epsilon", "dimensions"}, "persistence/simplexArrayList": {"epsilon", "dimensions"},
    "persistence/indSimplexTree": {"epsilon", "dimensions"}, "fastPersistence": {"epsilon", "dimensions"},
    "slidingwindow": {"epsilon", "dimensions"}, "naivewindow": {"epsilon", "dimensions"}, "upscale": set(),
    "kmeans++": {"clusters", "iterations"}, "streamingkmeans": {"clusters", "iterations"}, "denstream": {"lambda", "epsilon"}}

# optional settings the command line always supplies and a stage may insist on
ACCEPT = {"persistence": {"twist"}, "fastPersistence": {"twist"}, "rips": {"collapse"}}


def run(prog, ck):
    stages = stage_classes(prog)
    pres = pre_classes(prog)
    flagsP = wrapper(prog, ck, "basePipe::runPipeWrapper", "runPipe")
    flagsQ = wrapper(prog, ck, "preprocessor::runPreprocessorWrapper", "runPreprocessor")
    for name, req in REQUIRED.items():
        cls = stages.get(name) or pres.get(name)
        if cls is None:
            continue
        config(prog, ck, name, cls, "configPipe" if name in stages else "configPreprocessor", req, flagsP if name in stages else flagsQ)
    drivers(prog, ck)
    complexes(prog, ck)
    ck.expect("success-needs-settings", 12)
    ck.expect("wrapper-gate", 2)
    ck.expect("driver-gate", 4)


def wrapper(prog, ck, name, runname):
    fn = prog.fn(name, 1)
    en = Engine(prog, opaque=lambda f: f["short"] in (runname,))
    sts = en.run(fn)
    flags = None
    ncalls = 0
    for s in sts:
        calls = [(e, ctx, own) for e, ctx, own in walk_ev(s.ev) if e.k == "call" and e.name.endswith("::" + runname)]
        for e, ctx, own in calls:
            ncalls += 1
            fl = {fieldname(a.a[0]) for a, b in e.g.items() if b and a.op == "nz" and fieldname(a.a[0])}
            flags = fl if flags is None else flags & fl
    if not ncalls:
        raise AnalysisError("%s never calls %s" % (name, runname))
    flags = {f for f in flags or () if any(x["n"] == f and x["tk"] == "bool" for c in prog.ancestors(name.split("::")[0]) for x in prog.classes[c]["fields"])}
    ck.require(bool(flags), "wrapper-gate", name, "the run function is called on a path where no 'configured' flag of the stage is known to be set", fn["file"] + ":%d" % fn["l"])
    # refused: the packet comes back untouched
    ip = mk("param", fn["params"][0]["n"])
    n = 0
    for s in sts:
        f = [x for x in flags if s.atoms.get(mk("nz", mk("init", mk("L.fld", THISP, x), ""))) is False]
        if not f:
            continue
        n += 1
        ck.require(s.ret is ip, "unconfigured-untouched", name, "an unconfigured stage changes the packet it was given: returns %s" % show(s.ret)[:200], fn["file"] + ":%d" % fn["l"], [repr(e) for e in s.ev])
        sides = [e for e, _, _ in walk_ev(s.ev) if e.k == "call" and e.virt]
        ck.require(not sides, "unconfigured-no-run", name, "an unconfigured stage still runs %s" % [e.name for e in sides], fn["file"] + ":%d" % fn["l"])
    # the configured path returns what the run function produced
    return flags


def config(prog, ck, name, cls, mname, req, flags):
    fn = method(prog, cls, mname, 1)
    if fn is None or fn["cls"] != cls and fn["cls"] in ("basePipe", "preprocessor"):
        ck.bad("own-config", name, "stage %s has no configuration of its own (class %s)" % (name, cls))
        return
    cfg = mk("param", fn["params"][0]["n"])
    inits = {}
    for c in prog.ancestors(cls):
        for f in prog.classes[c]["fields"]:
            if f["n"] in flags:
                v = f["init"]
                ok = v is not None and ((v["k"] == "bool" and not v["v"]) or (v["k"] in ("int", "zero") and not v.get("v", 0)) or (v["k"] == "init" and not v["a"]))
                ck.require(ok, "flag-starts-false", cls + "." + f["n"], "the configured flag does not start out false", "%s:%s" % (prog.classes[c]["file"], f["l"]))
    ctors = prog.fns(cls + "::" + cls)
    for c in ctors:
        if not c["params"]:
            for s in Engine(prog).run(c):
                for fl in flags:
                    v = s.store.get(mk("L.fld", THISP, fl))
                    if v is TRUE:
                        ck.bad("flag-starts-false", cls + "()." + fl, "the constructor marks the stage configured", "%s:%s" % (c["file"], c["l"]))
    en = Engine(prog)
    try:
        sts = en.run(fn, dyn=cls, pre=bindpre(fields={f: FALSE for f in flags}))
    except (PathLimit, Undecided) as ex:
        ck.und("success-needs-settings", name, str(ex))
        return
    where = "%s:%d" % (fn["file"], fn["l"])
    ck.count("configuration paths", len(sts))
    for s in sts:
        if s.status == "throw":
            continue
        for s2, r in en.branch(s, s.ret):
            have = {a.a[1].a[0] for a, b in s2.atoms.items() if b and a.op == "has" and a.a[1].op == "str" and base_map(a.a[0]) is cfg}
            val = [s2.store.get(mk("L.fld", THISP, f)) for f in flags]
            if r:
                if req:
                    miss = req - have
                    ck.require(not miss, "success-needs-settings", name, "configuration succeeds although %s may be missing" % ", ".join(sorted(miss)), where, [fmt_guards(s2.atoms, 20)])
                else:
                    ck.ok("success-needs-settings", name)
                ck.require(any(v is TRUE for v in val), "success-sets-configured", name, "configuration reports success without marking the stage configured", where, [fmt_guards(s2.atoms, 20)])
            else:
                ck.require(not any(v is TRUE for v in val), "failure-not-configured", name, "configuration reports failure but leaves the stage marked configured", where, [fmt_guards(s2.atoms, 20)])
                if req | ACCEPT.get(name.split("/")[0], set()) <= have:
                    ck.bad("complete-settings-accepted", name, "a configuration that supplies every required setting is refused", where, [fmt_guards(s2.atoms, 20)])
    ck.ok("complete-settings-accepted", name)


def base_map(t):
    while t.op in ("touch", "upd"):
        t = t.a[0]
    return t


def drivers(prog, ck):
    """every call of a wrapper is dominated by a non-null check and a successful configuration of the same object"""
    for wrap, conf, runs in (("runPipeWrapper", "configPipe", "runPipe"), ("runPreprocessorWrapper", "configPreprocessor", "runPreprocessor")):
        base = "basePipe" if conf == "configPipe" else "preprocessor"
        pred = lambda f: f["short"] in (wrap,) and base in prog.ancestors(f["name"].rsplit("::", 1)[0].split("]")[-1])
        rs, calls, direct = reach(prog, pred)
        virt = {m["key"] for c in prog.classes.values() for m in c["methods"] if m["virt"]}
        called = set()
        for k, cs in calls.items():
            called |= {c for c in cs if c != k}
        roots = [k for k in rs if k in virt or k not in called]
        sites = {}
        for k in roots:
            en = Engine(prog, opaque=lambda f: f["key"] not in rs or f["short"] in (wrap, conf), cap=6000, streams=False)
            try:
                sts = en.run(prog.functions[k])
            except (PathLimit, Undecided) as ex:
                ck.und("driver-gate", k.split("(")[0] + "/" + wrap, "too many paths: %s" % ex)
                # fall back to the direct callers one by one
                for d in sorted(direct):
                    try:
                        sts = Engine(prog, opaque=lambda f: f["key"] not in rs or f["short"] in (wrap, conf) or f["key"] in direct, cap=6000, streams=False).run(prog.functions[d])
                        scan(prog, ck, sts, wrap, conf, sites)
                    except (PathLimit, Undecided):
                        pass
                continue
            scan(prog, ck, sts, wrap, conf, sites)
        for (w, i), (status, text, tr) in sorted(sites.items()):
            ck.add("driver-gate", "%s -> %s" % (i, wrap), status, text, w, tr)


def ismem(x, field):
    while isinstance(x, dict) and x.get("k") in ("cast", "impl", "paren"):
        x = x.get("e")
    return isinstance(x, dict) and x.get("k") == "mem" and x.get("f") == field


def complexes(prog, ck):
    """nothing is run on a packet whose complex could not be built"""
    from ..trees import noepoch
    rs = reach(prog, lambda f: f["short"] in ("runPipeWrapper", "runPreprocessorWrapper"))[0]
    built, calls, _ = reach(prog, lambda f: f["name"] == "simplexBase::newSimplex")
    called = set()
    for k, cs in calls.items():
        called |= {c for c in cs if c != k}
    virt = {m["key"] for c in prog.classes.values() for m in c["methods"] if m["virt"]}

    def tests(k):
        return any_node(prog.functions[k].get("body"), lambda x: x.get("k") in ("if", "cond", "while", "bin", "un") and any_node([x.get("c"), x.get("a"), x.get("b"), x.get("e")], lambda y: ismem(y, "complex")) and x.get("k") in ("if", "cond") or
                        x.get("k") == "bin" and x.get("op") in ("==", "!=") and any(isinstance(y, dict) and ismem(y, "complex") for y in (x.get("a"), x.get("b"))))
    for k in sorted(rs & built - called - virt):
        fn = prog.functions[k]
        try:
            sts = Engine(prog, opaque=lambda f: f["key"] not in built or f["key"] in rs and f["key"] != k or f["name"] == "simplexBase::newSimplex", cap=6000, streams=False).run(fn)
        except (PathLimit, Undecided) as ex:
            ck.und("complex-gate", fn["name"], str(ex)[:100], "%s:%d" % (fn["file"], fn["l"]))
            continue
        for s in sts:
            new = None
            for e, ctx, own in walk_ev(s.ev):
                if e.k != "call":
                    continue
                if e.name == "simplexBase::newSimplex":
                    new = e.d["res"]
                elif new is not None and any(f in rs for f in prog_keys(prog, e.name)):
                    g = e.g.get(nz(new)) or any(b and a.op == "nz" and noepoch(a.a[0]).op == "init" and noepoch(a.a[0]).a[0].op == "L.fld" and noepoch(a.a[0]).a[0].a[1] == "complex" for a, b in e.g.items())
                    st = "ok" if g else "bad" if not any(tests(c) for f in prog_keys(prog, e.name) for c in below_(calls, f) if c in prog.functions) else "undecided"
                    ck.add("complex-gate", "%s -> %s" % (fn["name"], e.name), st, "stages are run although no complex may have been built (unknown name)", e.where(), [fmt_guards(e.g, 4)])


def prog_keys(prog, name):
    return [f["key"] for f in prog.fns(name)]


def below_(calls, k):
    out, todo = set(), [k]
    while todo:
        x = todo.pop()
        if x not in out:
            out.add(x)
            todo += calls.get(x, ())
    return out


def scan(prog, ck, sts, wrap, conf, sites):
    done = set()
    for s in sts:
        for e, ctx, own in walk_ev(s.ev):
            if e.k != "call" or id(e) in done:
                continue
            done.add(id(e))
            if e.name.split("::")[-1] != wrap:
                continue
            ptr = e.recv.a[0] if e.recv is not None and e.recv.op == "L.deref" else None
            g = e.g
            nn = ptr is not None and (ptr.op in ("new", "addr") or g.get(mk("nz", ptr)) is True)
            cf = False
            for a, b in g.items():
                x = a.a[0] if a.op == "nz" else None
                if b and x is not None and x.op == "call" and x.a[0].split("::")[-1] == conf:
                    cf = cf or conf_of(own or s, s, x, e.recv)
            key = ("%s:%s" % (e.file, e.l), e.fn)
            st = "ok" if nn and cf else "bad"
            txt = "" if st == "ok" else "%s is called %s" % (wrap, "on a pointer not checked against null" if not nn else "without a successful %s of that stage" % conf)
            if key not in sites or sites[key][0] == "ok":
                sites[key] = (st, txt, [fmt_guards(g)])


def conf_of(own, s, res, recv):
    for st in (own, s):
        for e in st.ev:
            if e.k == "call" and e.d.get("res") is res:
                return e.recv is recv
    return True
