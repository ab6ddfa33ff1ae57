"""C11 statistics: one row per stage that ran, with six true columns, kept in order and written with the results at the end."""
from ..common import *
from ..loops import *
from ..trees import noepoch
from .c09 import req, w, strip, same, pieces, split, fieldval

TITLE = "statistics rows and final outputs"

UNIT = {"B": 1, "KB": 1000, "MB": 1000000, "GB": 1000000000}
UNIT2 = {"B": 1, "KB": 1024, "MB": 1024 ** 2, "GB": 1024 ** 3}


def run(prog, ck):
    for fn in sorted(prog.functions.values(), key=lambda f: f["key"]):
        if fn["name"] == "basePipe::runPipeWrapper":
            wrapper(prog, ck, fn, "runPipe")
        elif fn["name"] == "preprocessor::runPreprocessorWrapper":
            wrapper(prog, ck, fn, "runPreprocessor")
        elif fn["name"] == "pipePacket::getSize":
            packet(prog, ck, fn)
        elif fn["name"] == "simplexBase::streamEvaluator":
            decision(prog, ck, fn)
    outputs(prog, ck)
    keep(prog, ck)
    ck.expect("row", 2)
    ck.expect("column", 8)
    ck.expect("outputs", 2)
    ck.expect("kept", 8)


def engine(prog, ck, fn, rule, opq):
    try:
        en = Engine(prog, opaque=lambda f: f["short"] in opq, nomerge=True)
        return en.run(fn)
    except (PathLimit, Undecided) as e:
        ck.und(rule, fn["short"], str(e), w(fn))
        return None


def nm(e):
    return e.d.get("name", "").split("::")[-1]


def wrapper(prog, ck, fn, stage):
    sts = engine(prog, ck, fn, "row", {stage, "outputData", "getSize", "vertexCount", "simplexCount", "writeLog", "writeDebug", "writeError"})
    if sts is None:
        return
    W = w(fn)
    I = fn["name"]
    pipe = stage == "runPipe"
    for s in sts:
        if s.status != "ret":
            continue
        calls = [e for e in s.ev if e.k == "call"]
        runs = [e for e in calls if nm(e) == stage]
        if not runs:
            continue
        res = runs[-1].d["res"]
        before = getf(res, "stats")
        after = getf(s.ret, "stats")
        a = noepoch(after)
        b = noepoch(before)
        if a is b:
            ck.bad("row", I, "no statistics row is added for a stage that ran when %s" % fmt_guards(s.atoms, 2)[:160], W)
            continue
        if a.op != "cat":
            ck.und("row", I, "statistics are %s" % show(a)[:100], W)
            continue
        ps = list(a.a)
        if ps[0] is b:
            ps = ps[1:]
        elif any(p is b for p in ps):
            ck.bad("row", I, "the row is put in front of the rows of earlier stages", W)
            continue
        elif contains(a, lambda x: x.op == "havoc"):
            ck.und("row", I, "statistics are %s" % show(a)[:100], W)
            continue
        elif not contains(a, lambda x: x is b):
            ck.bad("row", I, "the rows of earlier stages are lost", W)
            continue
        else:
            ck.und("row", I, "statistics are %s" % show(a)[:100], W)
            continue
        rows, left = split(ps)
        if left or len(rows) != 1:
            ck.bad("row", I, "a stage adds %d complete rows%s" % (len(rows), " and an unfinished one" if left else ""), W)
            continue
        f = rows[0]
        if pipe:
            ck.require(len(f) == 6, "row", I, "a row has %d columns, the header names 6" % len(f), W)
            if len(f) != 6:
                continue
        else:
            ck.ok("row", I, "", W)
        where_run = s.ev.index(runs[-1])
        name(ck, I, f[0], stage, W)
        if len(f) > 1:
            clock(ck, I, f[1], s, where_run, W)
        if not pipe:
            continue
        unit(ck, I, f[2], f[3], s, where_run, W)
        count(ck, I + " vertices", f[4], "vertexCount", s, res, where_run, W)
        count(ck, I + " simplices", f[5], "simplexCount", s, res, where_run, W)


def name(ck, I, f, stage, W):
    v = noepoch(f[0]) if len(f) == 1 and isinstance(f[0], T) else None
    if v is not None and v.op == "init" and v.a[0].op == "L.fld" and v.a[0].a[1] in ("pipeType", "procName"):
        ck.ok("column", I + " name", "", W)
    elif f and all(isinstance(x, str) for x in f) or not f:
        ck.bad("column", I + " name", "the first column is %r for every stage" % "".join(f), W)
    elif v is not None and v.op == "substr" and v.a[0].op == "init" and v.a[0].a[0].op == "L.fld" and all(cval(x) is not None for x in v.a[1:]):
        ck.bad("column", I + " name", "the name of a stage is cut to %s" % show(v), W)
    else:
        ck.und("column", I + " name", "first column %s" % [x if isinstance(x, str) else show(x)[:40] for x in f], W)


def clock(ck, I, f, s, at_, W):
    raw = f[0].a[0] if len(f) == 1 and isinstance(f[0], T) and f[0].op in ("tostr", "fmt") else None
    if raw is None:
        ck.und("column", I + " time", "time column not decided", W)
        return
    reads = {}
    for i, e in enumerate(s.ev):
        if e.k == "call" and "now" == nm(e):
            reads[e.d["res"]] = i
    d = [x for x in subterms(raw) if isinstance(x, T) and x.op == "-" and len(x.a) == 2]
    used = [x for x in subterms(raw) if x in reads]
    if not used:
        if cval(raw) is not None:
            ck.bad("column", I + " time", "the time is always %s" % show(raw), W)
        else:
            ck.und("column", I + " time", "time is %s" % show(raw)[:100], W)
        return
    if len(d) == 1 and d[0].a[0] in reads and d[0].a[1] in reads:
        t1, t0 = reads[d[0].a[0]], reads[d[0].a[1]]
        if t0 > t1:
            ck.bad("column", I + " time", "the start is subtracted from, so times are negative", W)
        else:
            ck.require(t0 < at_ < t1, "column", I + " time", "the clock is not read right before and after the stage: its work is not measured", W)
    else:
        ck.und("column", I + " time", "time is %s" % show(raw)[:100], W)


def unit(ck, I, fs, fu, s, at_, W):
    v = fs[0].a[0] if len(fs) == 1 and isinstance(fs[0], T) and fs[0].op in ("tostr", "fmt") else None
    u = "".join(fu) if all(isinstance(x, str) for x in fu) else None
    if v is None or u is None:
        ck.und("column", I + " size", "size column not decided", W)
        return
    v = strip(v)
    k, base = 1, v
    while base.op in ("/", "cast", "i2d", "div"):
        if base.op in ("/", "div"):
            c = cval(base.a[1])
            if c is None:
                break
            k, base = k * c, base.a[0]
        else:
            base = base.a[-1]
    if base.op == "*" and cval(base.a[1]) is not None and cval(base.a[1]):
        k, base = k / cval(base.a[1]), base.a[0]
    e = [i for i, x in enumerate(s.ev) if x.k == "call" and x.d.get("res") is base]
    if not e or nm(s.ev[e[0]]) != "getSize":
        ck.und("column", I + " size", "size is %s" % show(v)[:80], W)
        return
    ck.require(e[0] > at_, "column", I + " size", "the size is taken before the stage ran", W)
    if u not in UNIT:
        ck.bad("column", I + " unit", "the unit is %r" % u, W)
        return
    ck.require(abs(k - UNIT[u]) < 1e-6 * UNIT[u] or abs(k - UNIT2[u]) < 1e-6 * UNIT[u], "column", I + " unit", "a size divided by %s is labelled %s" % (k, u), W)


def count(ck, I, f, want, s, res, at_, W):
    v = f[0].a[0] if len(f) == 1 and isinstance(f[0], T) and f[0].op in ("tostr", "fmt") else None
    if v is None:
        if all(isinstance(x, str) for x in f):
            ck.bad("column", I, "the column is always %r" % "".join(f), W)
        else:
            ck.und("column", I, "column not decided", W)
        return
    v = strip(v)
    if v.op in ("narrow", "float32"):
        ck.bad("column", I, "the count is squeezed into a type it does not fit", W)
        return
    e = [i for i, x in enumerate(s.ev) if x.k == "call" and x.d.get("res") is v]
    if not e:
        ck.und("column", I, "column is %s" % show(v)[:80], W)
        return
    got = nm(s.ev[e[0]])
    if got in ("vertexCount", "simplexCount"):
        ck.require(got == want and e[0] > at_, "column", I, "the column holds %s%s" % (got, " from before the stage" if e[0] < at_ else " instead of " + want), W)
    else:
        ck.und("column", I, "column is %s" % got, W)


# ---- size of the data

def packet(prog, ck, fn):
    sts = engine(prog, ck, fn, "size", {"getSize"})
    if sts is None:
        return
    W = w(fn)
    R = loops_of(sts)
    for s in sts:
        if s.status != "ret":
            continue
        v = strip(noepoch(s.ret))
        d, k = lin(v)
        xs = list(d)
        comp = [x for x in xs if x.op.startswith("call") and "getSize" in show(x)]
        rest = [x for x in xs if x not in comp]
        if not comp and not any(e.k == "call" and nm(e) == "getSize" for e in s.ev):
            nocomplex = any("complex" in show(a) for a in s.atoms)
            if not nocomplex:
                ck.bad("size", "complex", "the size of the complex is not part of the size of the data", W)
            continue
        ck.require(all(d[x] == 1 for x in comp) if comp else True, "size", "complex", "the size of the complex is counted %s times" % [d[x] for x in comp], W)
        los = [x for x in rest if x.op == "lo"]
        if len(los) == 1 and len(rest) == 1:
            for r, ctx, _ in R:
                if r.lid != los[0].a[0]:
                    continue
                iv = [i for i in r.ivs if irange(r, i) and irange(r, i).hi is not None]
                if len(iv) != 1:
                    ck.und("size", "points", "loop shape", W)
                    continue
                g = irange(r, iv[0])
                t = show(noepoch(g.hi))
                if t.startswith("size(") and "originalData" in t and t.count("[") == 0:
                    vv, why = verdict(r, iv[0], INT(0), g.hi)
                    req(ck, "size", "points", vv, why, W)
                else:
                    ck.und("size", "points", "loop over %s" % t[:60], W)
        elif not rest:
            ck.bad("size", "points", "the size of the points is not part of the size of the data", W)
        else:
            ck.und("size", "points", "size is %s" % show(v)[:100], W)


# ---- decisions of the window

def decision(prog, ck, fn):
    sts = engine(prog, ck, fn, "decision", {"nearestNeighbors"})
    if sts is None:
        return
    W = w(fn)
    for s in sts:
        if s.status != "ret":
            continue
        st = [v for k, v in s.store.items() if k.op == "L.fld" and k.a[1] == "stats"]
        if not st:
            ck.bad("decision", "row", "a point is decided on without a row in the statistics", W)
            continue
        b, ps = pieces(st[0])
        rows, left = split(ps)
        if left or len(rows) != 1:
            ck.bad("decision", "row", "a decision adds %d complete rows%s" % (len(rows), " and an unfinished one" if left else ""), W)
            continue
        f = rows[0]
        if not ck.require(len(f) == 7, "decision", "row", "a row has %d columns, the header names 7" % len(f), W):
            continue
        last = "".join(f[6]) if all(isinstance(x, str) for x in f[6]) else None
        t = True if s.ret is BOOL(True) or cval(s.ret) == 1 else False if s.ret is BOOL(False) or cval(s.ret) == 0 else None
        if last is None or t is None:
            ck.und("decision", "result", "result column not decided", W)
        else:
            ck.require(last == ("Accept" if t else "Reject"), "decision", "result", "a point that is %s is recorded as %r" % ("accepted" if t else "rejected", last), W)
        v = fieldval(f[0])
        if v is not None and v.op == "init" and v.a[0].op == "L.fld":
            ck.require(v.a[0].a[1] == "runningVectorCount", "decision", "index", "the first column is %s instead of the number of the point" % show(v), W)
        else:
            ck.und("decision", "index", "first column %s" % (show(v)[:60] if v is not None else "?"), W)


# ---- results written at the end

def outputs(prog, ck):
    import json
    drivers = [f for f in prog.functions.values() if not f.get("cls") and '"writeOutput::write' in json.dumps(f["body"])]
    for fn in sorted(drivers, key=lambda f: f["key"]):
        sts = engine(prog, ck, fn, "outputs", {"runPipeWrapper", "runPreprocessorWrapper", "newPipe", "configPipe", "newPreprocessor", "configPreprocessor", "writeStats", "writeBarcodes", "writeCSV", "writeMAT"})
        if sts is None:
            continue
        W = w(fn)
        for s in sts:
            if s.status != "ret":
                continue
            console = None
            for a, b in s.atoms.items():
                a2 = show(noepoch(a))
                if '"outputFile"' in a2 and '"console"' in a2 and a.op == "==":
                    console = b
            runs = [i for i, e in enumerate(s.ev) if e.k == "loop" and any(x.k == "call" and nm(x) == "runPipeWrapper" for _, p in e.rec.paths for x in p.ev)] + [i for i, e in enumerate(s.ev) if e.k == "call" and nm(e) == "runPipeWrapper"]
            wr = [(i, e) for i, e in enumerate(s.ev) if e.k == "call" and nm(e) in ("writeStats", "writeBarcodes")]
            if console is not False:
                continue
            for n, fld in (("writeStats", "stats"), ("writeBarcodes", "bettiOutput")):
                me = [(i, e) for i, e in wr if nm(e) == n]
                what = "statistics" if fld == "stats" else "intervals"
                if not me:
                    ck.bad("outputs", fn["short"] + " " + what, "the %s are not written to the output file when %s" % (what, fmt_guards(s.atoms, 2)[:160]), W)
                    continue
                i, e = me[-1]
                a0, a1 = noepoch(e.d["args"][0]), noepoch(e.d["args"][1])
                if a0.op == "fld" or a0.op == "init" and a0.a[0].op == "L.fld":
                    got = a0.a[1] if a0.op == "fld" else a0.a[0].a[1]
                    ck.require(got == fld, "outputs", fn["short"] + " " + what, "%s are written in place of the %s" % (got, what), W)
                else:
                    ck.und("outputs", fn["short"] + " " + what, "writes %s" % show(a0)[:80], W)
                ck.require(not runs or i > max(runs), "outputs", fn["short"] + " " + what + " order", "the %s are written before the stages ran" % what, W)
                if a1.op in ("substr", "cat") and a1.a[0].op == "at" and a1.a[0].a[1] is STR("outputFile"):
                    ck.bad("outputs", fn["short"] + " " + what + " file", "the %s are written to %s instead of the file asked for" % (what, show(a1)[:60]), W)
                elif '"outputFile"' in show(a1):
                    ck.ok("outputs", fn["short"] + " " + what + " file", "", W)
                elif a1.op == "str" or a1.op == "at":
                    ck.bad("outputs", fn["short"] + " " + what + " file", "the %s are written to %s instead of the file asked for" % (what, show(a1)[:60]), W)
                else:
                    ck.und("outputs", fn["short"] + " " + what + " file", "written to %s" % show(a1)[:60], W)


# ---- no stage drops what earlier stages recorded

def keep(prog, ck):
    """no function other than the wrappers assigns the packet's statistics"""
    for fn in sorted(prog.functions.values(), key=lambda f: f["key"]):
        if fn["short"] not in ("runPipe", "runPreprocessor") or not fn.get("cls"):
            continue
        hits = assigned(fn["body"], "stats", "pipePacket")
        ck.require(not hits, "kept", fn["cls"], "a stage overwrites the statistics of the stages before it (line %s)" % (hits[0] if hits else ""), w(fn))


def assigned(body, field, cls):
    """lines where member `field` of a `cls` object is replaced, cleared or cut"""
    out = []

    def ismem(x):
        return isinstance(x, dict) and x.get("k") == "mem" and x.get("f") == field and x.get("cls") == cls

    def go(x):
        if isinstance(x, dict):
            fr = x.get("f")
            if isinstance(fr, dict) and fr.get("short") in ("operator=", "clear", "erase", "assign", "swap", "resize"):
                if ismem(x.get("o")) or (x.get("a") and ismem(x["a"][0])):
                    out.append(x.get("l"))
            for v in x.values():
                go(v)
        elif isinstance(x, list):
            for v in x:
                go(v)
    go(body)
    return out
