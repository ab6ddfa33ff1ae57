"""C04 stage names and modes."""
from ..common import *
from .c03 import OPTIONS
from .c02 import nodes

TITLE = "stage names and run modes"

FAST = "distMatrix.neighGraph.rips.fastPersistence"
BOUND = "distMatrix.neighGraph.rips.persistence.boundary.upscale"
# mode: (pipeline, preprocessor when none is given (None: keeps), preprocessor forced?, upscale, complexType)
MODES = {
    "standard": (FAST, None, False, None, None), "reduced": (FAST, "kmeans++", False, "false", "simplexTree"),
    "upscaleBound": (BOUND, "kmeans++", False, "true", None), "upscale": (BOUND, "kmeans++", False, "true", None),
    "stream": (FAST, "streamingkmeans", False, None, None), "sw": ("slidingwindow", "", True, "false", "simplexTree"),
    "slidingwindow": ("slidingwindow", "", True, "false", "simplexTree"), "fast": (FAST, None, False, "false", "simplexTree"),
    "naive": ("naivewindow", "", True, "false", "simplexTree"), "naivewindow": ("naivewindow", "", True, "false", "simplexTree")}
COMPLEX = {"simplexTree": "simplexTree", "simplexArrayList": "simplexArrayList", "indSimplexTree": "indSimplexTree"}


def run(prog, ck):
    ck.prog = prog
    names(prog, ck)
    modes(prog, ck)
    splits(prog, ck)
    prework(prog, ck)
    dispatch(prog, ck)
    ck.expect("stage-name", 20)
    ck.expect("mode", 40)
    ck.expect("split", 3)
    ck.expect("preprocess", 8)


def names(prog, ck):
    def one(rule, inst, fname, args, want, np):
        fn, en, r = factory(prog, fname, args, nparams=np)
        where = "%s:%d" % (fn["file"], fn["l"])
        for c, t, s in r:
            if c is None and t.op not in ("null", "new") and not (t.op == "int"):
                ck.und(rule, inst, show(t))
                continue
            ck.require(c == want, rule, inst, "the name resolves to %s instead of %s" % (c or "nothing", want or "nothing"), where)
    for n, c in PIPE_NAMES.items():
        for ct in COMPLEX:
            one("stage-name", "%s/%s" % (n, ct), "basePipe::newPipe", [STR(n), STR(ct)], c, 2)
    one("stage-name", "persistence/simplexTree", "basePipe::newPipe", [STR("persistence"), STR("simplexTree")], "persistencePairs", 2)
    one("stage-name", "persistence/simplexArrayList", "basePipe::newPipe", [STR("persistence"), STR("simplexArrayList")], "persistencePairs", 2)
    one("stage-name", "persistence/indSimplexTree", "basePipe::newPipe", [STR("persistence"), STR("indSimplexTree")], "optPersistencePairs", 2)
    for n, c in PRE_NAMES.items():
        one("preprocessor-name", n, "preprocessor::newPreprocessor", [STR(n)], c, 1)
    for n, c in COMPLEX.items():
        one("complex-name", n, "simplexBase::newSimplex", [STR(n)], c, 2)
    for bad in ("nosuchstage", ""):
        one("unknown-name", "stage %r" % bad, "basePipe::newPipe", [STR(bad), STR("simplexTree")], None, 2)
        one("unknown-name", "preprocessor %r" % bad, "preprocessor::newPreprocessor", [STR(bad)], None, 1)
        one("unknown-name", "complex %r" % bad, "simplexBase::newSimplex", [STR(bad)], None, 2)


def argmap(**kw):
    fl = []
    for o, (s, d) in OPTIONS.items():
        fl += [STR(o), STR(kw.get(o, d))]
    return mk("maplit", *fl)


def modes(prog, ck):
    fn = prog.fn("argParser::setPipeline", 1)
    where = "%s:%d" % (fn["file"], fn["l"])
    p = fn["params"][0]
    opts = ("pipeline", "preprocessor", "upscale", "complexType", "mode", "epsilon", "dimensions", "clusters", "inputFile", "outputFile", "lambda", "debug", "mpi")

    def after(**kw):
        en = Engine(prog)
        m0 = argmap(**kw)
        out = []
        for s in en.run(fn, pre=bindpre({0: m0})):
            pl = [x for x in s.store if x.op in ("L.ref", "L.var") and (x.a[0] == p["n"] or x.a[-1] == p["n"])]
            m = m0
            for x in pl:
                m = s.store[x]
            out.append({o: at(m, STR(o)) for o in opts})
        return m0, out
    for mode, (pipe, pre, forced, up, ct) in MODES.items():
        for givenpre in ("", "denStream"):
            for gup in ("false", "true"):
                for gct in ("simplexTree", "indSimplexTree"):
                    m0, outs = after(mode=mode, preprocessor=givenpre, upscale=gup, complexType=gct)
                    inst = mode + ("" if (givenpre, gup, gct) == ("", "false", "simplexTree") else "/%s/%s/%s" % (givenpre, gup, gct))
                    want = {"pipeline": pipe, "preprocessor": ("" if forced else givenpre or (pre or "")), "upscale": up or gup, "complexType": ct or gct, "mode": mode}
                    for o in outs:
                        for k, v in o.items():
                            w = want.get(k, OPTIONS[k][1])
                            if v.op != "str":
                                ck.und("mode", inst + "/" + k, show(v))
                            else:
                                ck.require(v.a[0] == w, "mode", inst + "/" + k, "mode %s leaves %s = %r instead of %r" % (mode, k, v.a[0], w), where)
                        if o["pipeline"].op == "str" and o["complexType"].op == "str":
                            for st in o["pipeline"].a[0].split("."):
                                _, _, r = factory(prog, "basePipe::newPipe", [STR(st), o["complexType"]], nparams=2)
                                ck.require(all(t.op != "null" for c, t, s in r), "mode-stages-exist", "%s/%s" % (mode, st), "mode %s schedules stage %r, which does not exist" % (mode, st), where)
                        if o["preprocessor"].op == "str" and o["preprocessor"].a[0]:
                            _, _, r = factory(prog, "preprocessor::newPreprocessor", [o["preprocessor"]], nparams=1)
                            ck.require(all(t.op != "null" for c, t, s in r), "mode-stages-exist", "%s/pre/%s" % (mode, o["preprocessor"].a[0]), "mode %s uses preprocessor %r, which does not exist" % (mode, o["preprocessor"].a[0]), where)
    # a pipeline the user wrote is run as written, in every mode
    for mode in list(MODES) + ["whatever"]:
        m0, outs = after(mode=mode, pipeline="distMatrix.neighGraph", preprocessor="kmeans++", upscale="true", complexType="indSimplexTree")
        for o in outs:
            for k, v in o.items():
                w = at(m0, STR(k))
                if v.op != "str":
                    ck.und("explicit-pipeline", mode + "/" + k, show(v))
                else:
                    ck.require(v is w, "explicit-pipeline", mode + "/" + k, "an explicitly given pipeline is run with %s = %s instead of %s" % (k, show(v), show(w)), where)


def splits(prog, ck):
    """a '.'-separated pipeline is cut into exactly its parts, in order, each run on the result of the one before"""
    for fn in sorted(prog.functions.values(), key=lambda f: f["key"]):
        if not any(isinstance(x.get("f"), dict) and x["f"].get("name") == "basePipe::newPipe" for x in nodes(fn["body"])):
            continue
        if fn["short"] == "newPipe":
            continue
        inst = fn["name"]
        en = Engine(prog, opaque=lambda f: f["short"] in ("newPipe", "configPipe", "runPipeWrapper", "outputData", "writeStats", "writeBarcodes"), cap=6000)
        try:
            sts = en.run(fn)
        except (PathLimit, Undecided) as ex:
            ck.und("split", inst, str(ex))
            continue
        recs = {}
        for s in sts:
            for e, _, _ in walk_ev(s.ev):
                if e.k == "loop" and any(x.k == "call" and x.name == "basePipe::newPipe" for k, p in e.rec.paths for x in p.ev):
                    recs[e.rec.lid] = (e.rec, e)
        if not recs:
            ck.und("split", inst, "no stage loop recognised")
        for r, le in recs.values():
            one_split(ck, en, inst, r, le)


def one_split(ck, en, inst, r, le):
    where = "%s:%s" % (le.file, le.l)
    for kind, p in r.paths:
        calls = [e for e in p.ev if e.k == "call" and e.name == "basePipe::newPipe"]
        runs = [e for e in p.ev if e.k == "call" and e.name.endswith("::runPipeWrapper")]
        if not calls and kind == "end" and any(e.k == "call" and e.name == "basePipe::newPipe" for k, q in r.paths for e in q.ev):
            blank = any(b and (x.op == "==" and any(y is STR("") for y in x.a) or x.op == "==" and any(y is INT(0) for y in x.a) and any(y.op in ("len", "size", "s:len") for y in x.a) or x.op in ("empty",)) for x, b in p.atoms.items())
            if not blank:
                ck.bad("split", inst + "/every", "a part of the pipeline is passed over without building its stage", where, [fmt_guards(p.atoms)])
        for e in calls:
            c = e.d.get("res")
            if kind != "end" or c is None:
                continue
            null = any(not b and x.op == "nz" and x.a[0] is c or b and x.op == "==" and c in x.a for x, b in p.atoms.items())
            cfg = [x for x in p.ev if x.k == "call" and x.name.endswith("::configPipe") or x.k == "call" and x.name.endswith("configPipe")]
            refused = any(not b and x.op == "nz" and any(x.a[0] is y.d.get("res") for y in cfg) or b and x.op == "==" and any(y.d.get("res") in x.a for y in cfg) for x, b in p.atoms.items())
            if not null and not refused and not runs:
                ck.bad("split", inst + "/every", "a stage is built but not run", where, [fmt_guards(p.atoms)])
            elif runs and not cfg:
                ck.bad("split", inst + "/every", "a stage is run without being configured", where, [fmt_guards(p.atoms)])
            else:
                ck.ok("split", inst + "/every", "", where)
        for e in calls:
            a = e.args[0]
            if a.op != "substr" or a.a[0].op != "lv":
                ck.und("split", inst, show(a))
                continue
            S = a.a[0]
            dot = None
            if a.a[1] is not INT(0):
                ck.bad("split", inst, "a stage name is cut out as %s" % show(a), e.where())
                continue
            f = a.a[2]
            if f.op == "s:find" and f.a[0] is S and f.a[1].op in ("str", "chr", "int"):
                ck.require(show(f.a[1]) in ('"."', "chr(46)", "46"), "split", inst, "stage names are cut at %s" % show(f.a[1]), e.where())
                dot = f
            else:
                ck.und("split", inst, show(a))
                continue
            h = [x for x in r.H if en.read(p, x) is not None and mk("lv", S.a[0], x) is S or S.a[1] is x]
            if h and kind == "end":
                nx = en.read(p, h[0])
                good = nx.op == "substr" and nx.a[0] is S and nx.a[1] is add(dot, INT(1)) and (len(nx.a) < 3 or nx.a[2].op != "int")
                if good:
                    ck.ok("split", inst + "/advance", "", where)
                elif nx is S:
                    ck.bad("split", inst + "/advance", "the list of stages is not advanced: the same stage runs again", where, [fmt_guards(p.atoms)])
                elif nx.op == "substr" and nx.a[0] is S and nx.a[1] is dot or (nx.op == "substr" and nx.a[1].op == "+" and nx.a[1].a[0] is dot):
                    ck.bad("split", inst + "/advance", "the rest of the list starts at %s" % show(nx.a[1]), where)
                else:
                    ck.und("split", inst + "/advance", show(nx))
                P = r.init.get(h[0])
                if P is not None and P.op == "str" and len(e.args) > 1:
                    for st in P.a[0].split("."):
                        _, _, rr = factory(ck.prog, "basePipe::newPipe", [STR(st), e.args[1] if e.args[1].op == "str" else None], nparams=2)
                        known = [1 for c, t, s2 in rr if t.op != "null"]
                        ck.require(bool(known), "sublist-exists", "%s/%s" % (inst, st), "the built-in stage list names %r, which does not exist" % st, e.where())
                for iv, (v0, stp) in r.ivs.items():
                    for at_, b in list(r.conds):
                        if at_.op == "<" and at_.a[0] is iv:
                            bound = at_.a[1]
                            parts = None
                            if P is not None and P.op == "str":
                                parts = INT(len(P.a[0].split(".")))
                            cnt = [x for x in subterms(bound) if x.op == "cnt"]
                            if bound.op == "int" and parts is not None:
                                ok = sub_(bound, v0) == parts.a[0]
                            elif cnt and bound.op == "+" and bound.a[0] is cnt[0]:
                                ok = cval(bound.a[1]) is not None and cval(v0) is not None and cval(bound.a[1]) - cval(v0) == 1 and cnt[0].a[0] is P and show(cnt[0].a[1]) in ("chr(46)", '"."', "46")
                            elif cnt and bound is cnt[0]:
                                ok = cval(v0) == -1
                            elif bound.op == "min" and len([x for x in bound.a if cval(x) is not None]) == 1 and cnt and cval(v0) is not None and stp == 1:
                                ok = False
                            else:
                                ck.und("split", inst + "/count", show(bound))
                                continue
                            ck.require(ok and stp == 1, "split", inst + "/count", "the stage loop runs from %s below %s in steps of %s for the list %s" % (show(v0), show(bound), stp, show(P) if P is not None else "?"), where)
            elif kind != "end":
                ck.und("split", inst + "/early", "stage loop left early")
        for e in runs:
            res = e.d.get("res")
            ws = [x for x in p.ev if x.k in ("write", "lwrite") and x.val is res]
            pl = e.d.get("places") or ()
            stored = [h for h in r.H if en.read(p, h) is res]
            ck.require(bool(ws or stored), "chained", inst, "the result of a stage is dropped: the next stage starts from the old data", e.where())
            a = e.args[0] if e.args else None
            if isinstance(a, T) and (ws or stored):
                tgt = ws[-1].place if ws else stored[0]
                # argument must be the current content of the same packet
                src = a
                ok = any(x is mk("lv", r.lid, tgt) for x in subterms(src)) or any(x.op == "init" and x.a[0] is tgt for x in subterms(src)) or a.op not in ("init", "lv", "param")
                other = a.op == "init" and a.a[0] is not tgt or a.op == "param"
                ck.require(ok or not other, "chained", inst + "/input", "a stage is given %s while results go to %s" % (show(a), show(tgt)), e.where())


def prework(prog, ck):
    """a preprocessor that was named and configured runs once, before the stages, and its result is what they are given"""
    for fn in sorted(prog.functions.values(), key=lambda f: f["key"]):
        if fn["short"] == "newPreprocessor" or not any(isinstance(x.get("f"), dict) and x["f"].get("name") == "preprocessor::newPreprocessor" for x in nodes(fn["body"])):
            continue
        inst = fn["name"]
        en = Engine(prog, opaque=lambda f: f is not fn and not f["short"].startswith("operator") and any(isinstance(x, dict) and x.get("k") in ("for", "while", "do", "rfor", "if", "new") for x in nodes(f["body"])) or f["short"] in ("newPreprocessor", "configPreprocessor", "runPreprocessorWrapper", "newPipe", "configPipe", "runPipeWrapper", "runPipeline"), cap=6000)
        try:
            sts = en.run(fn)
        except (PathLimit, Undecided) as ex:
            ck.und("preprocess", inst, str(ex))
            continue
        where = "%s:%s" % (fn["file"], fn["l"])
        stage = lambda e: e.k == "call" and (e.name.endswith("::runPipeWrapper") or e.name == "runPipeline") or e.k == "loop" and any(stage(x) for _, p in e.rec.paths for x in p.ev)
        for s in sts:
            made = [e for e in s.ev if e.k == "call" and e.name == "preprocessor::newPreprocessor"]
            runs = [(i, e) for i, e in enumerate(s.ev) if e.k == "call" and e.name.endswith("::runPreprocessorWrapper")]
            cfg = [(i, e) for i, e in enumerate(s.ev) if e.k == "call" and e.name.endswith("configPreprocessor")]
            stg = [i for i, e in enumerate(s.ev) if stage(e)]
            given = {b for a, b in s.atoms.items() if a.op == "==" and any(y is STR("") for y in a.a) and any(y.op == "at" and y.a[1] is STR("preprocessor") for y in a.a)}
            if True in given or s.status != "ret":
                continue
            if not made:
                if False in given and stg:
                    ck.bad("preprocess", inst + "/built", "a preprocessor was named but none is built", where, [fmt_guards(s.atoms)])
                continue
            for e in made:
                a = e.args[0] if e.args else None
                ok = a is not None and a.op == "at" and a.a[1] is STR("preprocessor")
                if ok:
                    ck.ok("preprocess", inst + "/name", "", where)
                elif a is not None and a.op in ("str", "substr") or a is not None and a.op == "at" and a.a[1].op == "str":
                    ck.bad("preprocess", inst + "/name", "the preprocessor is looked up under %s" % show(a), where)
                else:
                    ck.und("preprocess", inst + "/name", show(a) if a is not None else "?")
            res = [e.d.get("res") for e in made] + [e.d.get("res") for _, e in cfg]
            refused = any(not b and x.op == "nz" and x.a[0] in res or b and x.op == "==" and any(y in res for y in x.a) for x, b in s.atoms.items())
            if not runs:
                if not refused and stg:
                    ck.bad("preprocess", inst + "/run", "the preprocessor is built but does not run", where, [fmt_guards(s.atoms)])
                continue
            ck.require(len(runs) == 1, "preprocess", inst + "/once", "the preprocessor runs %d times" % len(runs), where)
            i, e = runs[0]
            ck.require(bool(cfg) and cfg[0][0] < i, "preprocess", inst + "/configured", "the preprocessor runs without its settings", e.where())
            if stg:
                ck.require(i < stg[0], "preprocess", inst + "/first", "the preprocessor runs after the stages", e.where())
            r = e.d.get("res")
            st = [x for x in s.ev if x.k in ("write", "lwrite") and x.val is r] or [k for k, v in s.store.items() if contains(v, lambda y: y is r)]
            later = any(contains(a, lambda y: y is r) for x in s.ev[i + 1:] if x.k == "call" for a in x.args if isinstance(a, T))
            ck.require(bool(st) or later, "preprocess", inst + "/kept", "the result of the preprocessor is dropped: the stages are given the data from before", e.where())


def sub_(a, b):
    x, y = cval(a), cval(b)
    return None if x is None or y is None else x - y


def dispatch(prog, ck):
    """the run type selected on the command line is the one executed"""
    fn = prog.fn("main", None)
    procs = {"processUpscaleWrapper", "processReducedWrapper", "processDataWrapper"}
    en = Engine(prog, opaque=lambda f: f["short"] in procs or f["short"] in ("parse", "setPipeline", "printUsage", "readCSV", "pipePacket"), cap=6000)
    try:
        sts = en.run(fn)
    except (PathLimit, Undecided) as ex:
        ck.und("dispatch", "main", str(ex))
        return
    for s in sts:
        order = [e for e, _, _ in walk_ev(s.ev) if e.k == "call"]
        nm = [e.name.split("::")[-1] for e in order]
        if "parse" in nm and "setPipeline" in nm:
            ck.ok("dispatch", "settings")
        for e in order:
            short = e.name.split("::")[-1]
            if short not in procs:
                continue
            up = [b for a, b in e.g.items() if a.op == "==" and a.a[1] is STR("true") and a.a[0].op == "at" and a.a[0].a[1] is STR("upscale")]
            red = [b for a, b in e.g.items() if a.op == "==" and a.a[1] is STR("reduced") and a.a[0].op == "at" and a.a[0].a[1] is STR("mode")]
            want = "processUpscaleWrapper" if up and up[-1] else "processReducedWrapper" if up and red and red[-1] else "processDataWrapper" if up and red else None
            if want is None:
                ck.und("dispatch", short, fmt_guards(e.g))
            else:
                ck.require(short == want, "dispatch", want, "the selected run type executes %s" % short, e.where())
