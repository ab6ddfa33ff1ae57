"""C20 intermediate results: every stage that ran writes what it produced to its own file when debugging, preprocessors and windowed runs always, with every element once and in order."""
import re
from ..common import *
from ..loops import *
from ..trees import noepoch
from .c09 import w, strip
from ..cases import holds
from .c10 import Text, Lost, fold, narrowed
from .c14 import flat
from .c12 import par

TITLE = "intermediate results"

STAGES = ("runPipe", "runPreprocessor", "runPipeWrapper")
QUIET = {"writeDebug", "writeLog", "writeError", "getSize", "newPipe", "configPipe", "getAllEdges", "vertexCount", "simplexCount"}


# ---------------------------------------------------------------- what a file must hold

def lit(s):
    return ("lit", s)


def val(f):
    return ("val", f)


def each(cont, elem):
    return ("each", cont, elem)


def table(c):
    return [each(c, lambda r: [each(r, lambda x: [val(x), lit(",")]), lit("\n")])]


def simplices(c):
    return [each(c, lambda p: [each(getf(p, "first"), lambda v: [val(v), lit(",")]), val(getf(p, "second")), lit("\n")])]


def pairs(c):
    return [lit("ti,Dim,Marked,Birth,Death,Simplex\n"),
            each(c, lambda t: [val(getf(t, "ti")), lit(","), val(add(size(getf(t, "simplex")), INT(-1))), lit(","), val(getf(t, "marked")), lit(","), val(getf(t, "birth")), lit(","), val(getf(t, "death")), lit(","),
                               each(getf(t, "simplex"), lambda v: [val(v), lit(" ")]), lit("\n")])]


def bare(t):
    return strip(noepoch(t))


def known(t):
    """a term made of parameters, members, elements and counts only: what is written is certain"""
    return all(x.op in ("init", "param", "at", "fld", "size", "int", "str", "chr", "+", "-", "lv", "this", "L.fld", "L.deref", "L.var", "struct", "L.glob", "L.at", "tostr", "cat", "empty", "cast", "toint", "float32", "i2d", "b2i") or x.op == "call" and str(x.a[0]).endswith(("getAllEdges", "runPreprocessor"))
               for x in subterms(bare(t)))


class No(Exception):
    def __init__(self, bad, text):
        self.bad, self.text = bad, text


def match(items, spec, sts, strict):
    """raises No unless the items are what the specification says; `strict` is False where not all loops were recognised"""
    items = fold(items)
    i = 0
    rest = list(items)
    for n, s in enumerate(spec):
        if s[0] == "lit":
            if rest and rest[0].k == "lit" and rest[0].v.startswith(s[1]):
                t = rest[0].v[len(s[1]):]
                rest = ([type(rest[0])("lit", t)] if t else []) + rest[1:]
                continue
            got = show_items(rest[:1])
            raise No(not rest or rest[0].k == "lit" or rest[0].k == "rep" or known(rest[0].v), "%s where %r must follow" % (got or "nothing is written", s[1]))
        elif s[0] == "val":
            if rest and rest[0].k == "val" and narrowed(noepoch(rest[0].v)) and not narrowed(s[1]):
                raise No(True, narrowed(noepoch(rest[0].v)) + " is written")
            if rest and rest[0].k == "val" and bare(rest[0].v) is bare(s[1]):
                rest = rest[1:]
                continue
            if rest and rest[0].k == "val" and diff(bare(rest[0].v), bare(s[1])) == 0:
                rest = rest[1:]
                continue
            got = show_items(rest[:1])
            raise No(not rest or rest[0].k in ("lit", "rep") or known(rest[0].v), "%s where %s must follow" % (got or "nothing is written", show(bare(s[1]))))
        else:
            rest = repeated(rest, s, sts)
    if rest and not (len(rest) == 1 and rest[0].k == "lit" and not rest[0].v.strip("\n")):
        raise No(all(x.k in ("lit", "rep") or known(x.v) for x in rest), "%s is added" % show_items(rest))


def show_items(xs):
    return "".join(repr(x.v) if x.k == "lit" else show(bare(x.v)) if x.k == "val" else "a pass over other data" if x.k == "rep" else "?" for x in xs)[:120]


def repeated(rest, s, sts):
    cont = bare(s[1])
    if not rest or rest[0].k != "rep":
        got = show_items(rest[:1])
        raise No(not rest or rest[0].k == "lit" or known(rest[0].v), "%s instead of the elements of %s" % (got or "nothing is written", show(cont)))
    r, paths = rest[0].rec, rest[0].paths
    c = [(iv, irange(r, iv)) for iv in r.ivs]
    c = [(iv, g) for iv, g in c if g is not None and g.hi is not None]
    hit = None
    for iv, g in c:
        ok, why = verdict(r, iv, INT(0), size(s[1]))
        if ok is None:
            d = diff(bare(g.hi), bare(size(s[1])))
            e = diff(bare(g.lo), INT(0)) if g.lo is not None else None
            if d is not None and e is not None and g.known and not g.extra and g.step in (1, -1):
                ok = d == 0 and e == 0
                why = "the elements %s..%s of %s are visited" % (show(g.lo), show(g.hi), show(cont))
        if ok is True and g.step == -1:
            ok, why = False, "they are written last to first"
        if ok is not None:
            hit = (iv, ok, why)
            break
        h = bare(g.hi)
        if g.known and h.op == "size" and known(h) and h is not bare(size(s[1])):
            hit = (iv, False, "%s is written instead of %s" % (show(h.a[0]), show(cont)))
    if hit is None:
        raise No(False, "pass over %s not recognised" % show(cont))
    iv, ok, why = hit
    if not ok:
        raise No(True, "the elements of %s: %s" % (show(cont), why))
    for k, st, sub in paths:
        if k != "end":
            raise No(True, "the elements of %s stop being written when %s" % (show(cont), fmt_guards(own(st, r), 2)[-120:]))
        try:
            match(sub, s[2](at(s[1], iv)), sts, True)
        except No as e:
            g = own(st, r)
            if g and not e.bad:
                raise No(False, e.text)
            raise
    return rest[1:]


def own(s, r):
    h = set(r.hdr[0]) if r.hdr else set()
    return {a: b for a, b in s.atoms.items() if a not in h}


# ---------------------------------------------------------------- rules

def run(prog, ck):
    fs = sorted(prog.functions.values(), key=lambda f: f["key"])
    for fn in fs:
        n = fn["name"]
        if fn["short"] == "outputData":
            writes(prog, ck, fn)
        elif n == "basePipe::runPipeWrapper":
            wrapper(prog, ck, fn)
        elif n == "preprocessor::runPreprocessorWrapper":
            prewrapper(prog, ck, fn)
        elif fn["short"] == "runSubPipeline" and len(fn["params"]) == 1:
            window(prog, ck, fn)
    ck.expect("file", 10)
    ck.expect("content", 10)
    ck.expect("written", 2)
    ck.expect("numbered", 2)


def states(prog, ck, fn, rule, opq=()):
    try:
        return Engine(prog, opaque=lambda f: (f["short"] in QUIET or f["short"] in opq) and f["key"] != fn["key"], nomerge=True).run(fn)
    except (PathLimit, Undecided) as e:
        ck.und(rule, fn["name"], str(e), w(fn))
        return None


def inst(fn):
    if fn["name"] == "preprocessor::outputData":
        return fn["name"] + ("(points)" if "vector<std::vector" in fn["params"][0]["ty"] else "(labels)")
    return fn["name"]


def filename(t):
    """parts of a file name, members as (name)"""
    t = noepoch(t)
    out = []
    for x in (t.a if t.op == "cat" else [t]):
        if x.op == "str":
            if out and isinstance(out[-1], str) and not out[-1].startswith("<"):
                out[-1] += x.a[0]
            else:
                out.append(x.a[0])
        elif x.op == "chr":
            out.append(chr(x.a[0]))
        else:
            y = x.a[0] if x.op in ("tostr", "fmt") else x
            f = y.a[0].a[1] if y.op == "init" and y.a[0].op == "L.fld" else None
            if f is None:
                return None
            out.append("<%s>" % f)
    return "".join(out)


def complexfield(fn, sts, name):
    """the term of inData.complex-><name> as the function reads it"""
    for s in sts:
        seen = set()
        todo = list(s.atoms)
        for k, e, l in flat(s):
            if k == "close":
                todo.append(e.d["value"])
            if k == "loop":
                todo += list(e.rec.init.values())
                for kk, q in e.rec.paths:
                    todo += list(q.store.values()) + list(q.atoms)
        for t in todo:
            if not isinstance(t, T):
                continue
            for x in subterms(t):
                if isinstance(x, T) and x.op == "init" and x.a[0].op == "L.fld" and x.a[0].a[1] == name and "complex" in show(x):
                    return x
    return None


def files(s):
    """(base, value) of every file written on a path, in order"""
    out = []
    for k, e, l in flat(s):
        if k == "close":
            out.append(e.d["value"])
    return out


def base_of(v):
    n = 0
    while isinstance(v, T) and n < 300:
        n += 1
        if v.op in ("sw", "flushed", "touch", "closed", "after"):
            v = v.a[0]
        else:
            break
    return v


SPEC = {
    "basePipe": ["plain"], "distMatrixPipe": ["matrix"], "naiveWindow": ["window"], "slidingWindow": ["window"], "neighGraphPipe": ["graph"], "ripsPipe": ["rips"],
    "boundaryPipe": ["bettis"], "fastPersistence": ["bettis", "pairs"], "persistencePairs": ["bettis", "pairs"], "optPersistencePairs": ["bettis", "pairs"], "preprocessor": ["pre"],
}


def writes(prog, ck, fn):
    J, W = inst(fn), w(fn)
    kinds = SPEC.get(fn.get("cls"))
    if not kinds:
        return
    sts = states(prog, ck, fn, "content")
    if sts is None:
        return
    p = par(fn, 0)
    fnmod = None
    for s in sts:
        if s.status != "ret":
            continue
        arr = truth(s, "simplexType")
        got = []
        for v in files(s):
            tx = Text(sts)
            try:
                it = fold(tx.stream(v))
            except Lost as e:
                if base_of(v).op in ("obj", "empty"):
                    continue        # never opened
                ck.und("content", J, str(e), W)
                return
            got.append((tx.base, it))
        want = []
        for k in kinds:
            if k == "plain":
                want.append(("output/<pipeType>_output.csv", table(getf(p, "originalData"))))
            elif k == "window":
                want.append(("output/<pipeType>_<repCounter>_output.csv", table(getf(p, "originalData"))))
            elif k == "matrix":
                c = complexfield(fn, sts, "distMatrix")
                if c is None:
                    (ck.bad if got and all(i.k != "val" or known(i.v) for b, it in got for i in it) else ck.und)("content", J, "the distance matrix is not written", W)
                    return
                want.append(("output/<pipeType>_output.csv", table(c)))
            elif k == "bettis":
                t = [b for a, b in s.atoms.items() if a.op == "nz" and "fnmod" in show(a)]
                suffix = "<fnmod>" if (t and t[0]) or not t and any("<fnmod>" in (filename(b.a[-2] if b.op == "stream" else b.a[0]) or "") for b, it in got) else ""
                if fn["cls"] == "boundaryPipe":
                    suffix = ""
                want.append(("output/<pipeType>_bettis_output%s.csv" % suffix, [val(getf(p, "bettiOutput"))]))
            elif k == "pairs":
                want.append(("output/tArray.csv", pairs(mk("init", mk("L.fld", mk("L.deref", THIS), "tArray"), ""))))
            elif k == "pre":
                if "vector<std::vector" in fn["params"][0]["ty"]:
                    want.append(("output/<procName>_centroid_output.csv", table(p)))
                else:
                    want.append(("output/<procName>_label_output.csv", [each(p, lambda x: [val(x), lit("\n")])]))
            elif k in ("graph", "rips"):
                g = complexfield(fn, sts, "weightedGraph")
                if arr is None:
                    ck.und("content", J, "kind of complex not told apart", W)
                    return
                if k == "rips":
                    if not arr:
                        if got:
                            ck.und("content", J, "written for other complexes, too", W)
                        continue
                    if g is None:
                        ck.und("content", J, "simplices not found", W)
                        return
                    want.append(("output/<pipeType>_output.csv", [each(g, lambda d: simplices(d))]))
                elif arr:
                    if g is None:
                        ck.und("content", J, "simplices not found", W)
                        return
                    few = [a for a, b in s.atoms.items() if a.op == "<" and not b and bare(a.a[1]) is bare(size(g)) and cval(a.a[0]) is not None]
                    few += [a for a, b in s.atoms.items() if a.op == "<" and b and bare(a.a[0]) is bare(size(g)) and cval(a.a[1]) is not None]
                    lim = min([cval(a.a[0]) + 1 if cval(a.a[0]) is not None else cval(a.a[1]) for a in few] or [99])
                    if few and lim > 2 and lim < 99:
                        ck.bad("content", J, "with %d dimensions stored the edges are not written" % (lim - 1), W)
                        return
                    want.append(("output/<pipeType>_output.csv", [] if few else simplices(at(g, INT(1)))))
                else:
                    e = None
                    for kk, ev, l in flat(s):
                        if kk == "call" and ev.d["name"].endswith("getAllEdges"):
                            e = ev.d["res"]
                    if e is None:
                        ck.und("content", J, "simplices not found", W)
                        return
                    want.append(("output/<pipeType>_output.csv", [each(e, lambda d: simplices(d))]))
        # files
        named = []
        for b, it in got:
            a = list(b.a)[1:] if b.op == "stream" else list(b.a)
            named.append((filename(a[0]) if a else None, b, it, " ".join(show(x) for x in a[1:])))
        for name, spec in want:
            hits = [x for x in named if x[0] == name]
            if not hits:
                if any(x[0] is None for x in named):
                    ck.und("file", J, "file name not recognised", W)
                else:
                    ck.bad("file", J, "%s is not written%s" % (name, "; the files written are %s" % ", ".join(sorted({x[0] for x in named})) if named else ""), W)
                continue
            if len(hits) > 1:
                ck.bad("file", J, "%s is opened again after it was written, so what was written is lost" % name, W)
                continue
            if re.search(r"::(app|ate|in)\b", hits[0][3]):
                ck.bad("file", J, "%s is opened so that what it contained before remains in it" % name, W)
                continue
            ck.ok("file", J, "", W)
            try:
                match(hits[0][2], spec, sts, True)
                ck.ok("content", J, "", W)
            except No as e:
                (ck.bad if e.bad else ck.und)("content", J, "%s: %s" % (name, e.text), W)


def truth(s, name):
    """is the complex an array list on this path"""
    for a, b in s.atoms.items():
        if a.op == "==" and name in show(a):
            o = [x for x in a.a if x.op == "str"]
            if o and o[0].a[0] == "simplexArrayList":
                return b
            if o and b:
                return False
    return None


def calls(s, names):
    out = []
    for k, e, l in flat(s):
        if k == "call" and e.d["name"].split("::")[-1] in names:
            out.append((e.d["name"].split("::")[-1], e, l))
    return out


def wrapper(prog, ck, fn):
    R, J, W = "written", fn["name"], w(fn)
    sts = states(prog, ck, fn, R, ("outputData", "runPipe"))
    if sts is None:
        return
    n = 0
    for s in sts:
        cs = calls(s, ("runPipe", "outputData"))
        ran = [i for i, c in enumerate(cs) if c[0] == "runPipe"]
        outs = [i for i, c in enumerate(cs) if c[0] == "outputData"]
        if not ran:
            if outs:
                ck.bad(R, J, "data is written for a stage that did not run", W)
                return
            continue
        dbg = [(a, b) for a, b in s.atoms.items() if contains(a, lambda x: x.op == "init" and x.a[0].op == "L.fld" and x.a[0].a[1] == "debug")]
        d = next((x for a, b in dbg for x in subterms(a) if x.op == "init" and x.a[0].op == "L.fld" and x.a[0].a[1] == "debug"), None)
        act = {}
        for v in (0, 1):
            act[v], left = holds(dict(dbg), {d: v}) if d is not None else (True, [])
            if left:
                act[v] = None
        if outs and any(cs[i][2] for i in outs):
            ck.und(R, J, "written in a loop", W)
            return
        if None in act.values():
            ck.und(R, J, "debug setting not recognised", W)
            return
        if act[1] and len(outs) != 1:
            ck.bad(R, J, "with debugging on, a stage that ran writes its data %s" % ("%d times" % len(outs) if outs else "not at all when " + fmt_guards(s.atoms, 4)[-160:]), W)
            return
        if act[0] and outs:
            ck.bad(R, J, "data is written although debugging is off", W)
            return
        if outs:
            a = cs[outs[0]][1].d["args"][-1]
            res = cs[ran[-1]][1].d["res"]
            if outs[0] < ran[-1]:
                ck.bad(R, J, "the data is written before the stage ran", W)
                return
            b = getf(a, "bettiOutput")
            if not contains(b, lambda x: x is res):
                (ck.bad if known(b) else ck.und)(R, J, "what is written is %s, not what the stage produced" % show(b)[:80], W)
                return
        n += 1
    if n:
        ck.ok(R, J, "", W)


def prewrapper(prog, ck, fn):
    R, J, W = "written", fn["name"], w(fn)
    sts = states(prog, ck, fn, R, ("outputData", "runPreprocessor"))
    if sts is None:
        return
    n = 0
    for s in sts:
        cs = calls(s, ("runPreprocessor", "outputData"))
        ran = [i for i, c in enumerate(cs) if c[0] == "runPreprocessor"]
        outs = [c[1] for c in cs if c[0] == "outputData"]
        if not ran:
            if outs:
                ck.bad(R, J, "data is written for a preprocessor that did not run", W)
                return
            continue
        res = cs[ran[-1]][1].d["res"]
        for what in ("originalData", "originalLabels"):
            k = [e for e in outs if bare(e.d["args"][-1]) is bare(getf(res, what))]
            if len(k) != 1:
                other = [e for e in outs if not any(bare(e.d["args"][-1]) is bare(getf(res, x)) for x in ("originalData", "originalLabels"))]
                if other and not all(known(noepoch(e.d["args"][-1])) for e in other):
                    ck.und(R, J, "what is written is not recognised", W)
                else:
                    ck.bad(R, J, "the %s of the result %s%s" % ("points" if what == "originalData" else "labels", "are not written" if not k else "are written more than once", " when " + fmt_guards(s.atoms, 3)[-120:] if s.atoms else ""), W)
                return
        n += 1
    if n:
        ck.ok(R, J, "", W)


def window(prog, ck, fn):
    """the window of an inner run is written under a number of its own, which its results carry, too"""
    R, J, W = "numbered", fn["name"], w(fn)
    sts = states(prog, ck, fn, R, ("outputData", "runPipeWrapper"))
    if sts is None:
        return
    cnt = mk("L.fld", mk("L.deref", THIS), "repCounter")
    n = 0
    for s in sts:
        cs = calls(s, ("runPipeWrapper", "outputData"))
        outs = [i for i, c in enumerate(cs) if c[0] == "outputData"]
        ran = [i for i, c in enumerate(cs) if c[0] == "runPipeWrapper"]
        if not ran and not outs:
            continue
        if len(outs) != 1 or cs[outs[0]][2]:
            ck.bad(R, J, "the window of an inner run is %s" % ("not written" if not outs else "written more than once"), W)
            return
        if ran and outs[0] > ran[0]:
            ck.und(R, J, "the window is written after the run", W)
            return
        a = cs[outs[0]][1].d["args"][-1]
        if bare(getf(a, "originalData")) is not bare(getf(par(fn, 0), "originalData")):
            ck.und(R, J, "what is written is %s" % show(getf(a, "originalData"))[:80], W)
            return
        v = next((x for k, x in s.store.items() if k.op == "L.fld" and k.a[1] == "repCounter"), None)
        d = None
        if v is None:
            ck.bad(R, J, "the number of the run does not advance, so the next window replaces this one", W)
            return
        v = noepoch(v)
        i0 = noepoch(mk("init", cnt, ""))
        d = diff(v, i0)
        if d == 0:
            ck.bad(R, J, "the number of the run does not advance, so the next window replaces this one", W)
            return
        if cval(v) is not None:
            ck.bad(R, J, "the number of the run is set to %s, so windows replace each other" % show(v), W)
            return
        if v.op == "%":
            ck.bad(R, J, "the number of the run starts over, so windows replace each other: it becomes %s" % show(v), W)
            return
        if d is None:
            ck.und(R, J, "the number of the run becomes %s" % show(v)[:60], W)
            return
        # the number handed to the stages
        sub = next((x for k, x in s.store.items() if k.op == "L.fld" and k.a[1] == "subConfigMap"), None)
        put = None
        t = sub
        for _ in range(12):
            if t is None or t.op not in ("upd", "set", "ins", "put"):
                break
            if len(t.a) >= 3 and t.a[1].op == "str" and t.a[1].a[0] == "fn":
                put = t.a[2]
                break
            t = t.a[0]
        if sub is not None and put is not None:
            m = [x for x in subterms(put) if x.op == "tostr"]
            if len(m) == 1:
                d2 = diff(noepoch(m[0].a[0]), i0)
                if d2 is None and cval(noepoch(m[0].a[0])) is None:
                    ck.und(R, J, "results are numbered %s" % show(m[0].a[0])[:60], W)
                    return
                if d2 != 0:
                    ck.bad(R, J, "the results of a run carry number %s, its window number %s" % (show(noepoch(m[0].a[0])), show(i0)), W)
                    return
            elif not m:
                ck.bad(R, J, "the results of a run are named %s, the same for every run" % show(put)[:60], W)
                return
        elif sub is None or t is None or t.op in ("init", "empty"):
            ck.bad(R, J, "the stages are not told the number of the run", W)
            return
        else:
            ck.und(R, J, "settings of the inner stages are %s" % show(sub)[:80], W)
            return
        n += 1
    if n:
        ck.ok(R, J, "", W)
