"""C08 a cleared complex is empty and starts over."""
from ..common import *
from ..loops import *
from ..trees import noepoch
from .c07 import CLASSES, retrieve, callees, reachset, overrides, MUT, roots, lastwrite
from ..report import Check

TITLE = "cleared complexes start over"


def w(fn):
    return "%s:%d" % (fn["file"], fn["l"])


def run(prog, ck):
    for cls, lf in CLASSES.items():
        fields(prog, ck, cls, lf)
    drivers(prog, ck)
    ck.expect("cleared", 10)
    ck.expect("driver", 2)


def fresh(prog, cls):
    """values of the members after construction as the factory does it"""
    out = {}
    ctors = [f for f in prog.fns(cls + "::" + cls) if f.get("ctor")]
    fac = [f for f in prog.fns("simplexBase::newSimplex")]
    for c in ctors:
        try:
            sts = Engine(prog).run(c)
        except (PathLimit, Undecided):
            continue
        for s in sts:
            for k, v in s.store.items():
                if k.op == "L.fld" and k.a[0] is THISP:
                    out.setdefault(k.a[1], set()).add(v)
    return out


def written(prog, cls, skip):
    """members the insertion side changes: {member: set of functions}"""
    out = {}
    for f in prog.functions.values():
        if f.get("cls") not in (cls, "simplexBase") or f.get("ctor") or f.get("dtor") or f["short"] in skip:
            continue
        try:
            sts = Engine(prog, opaque=lambda g: True).run(f, dyn=cls)
        except (PathLimit, Undecided):
            continue
        for s in sts:
            for e, _, _ in walk_ev(s.ev):
                if e.k in MUT and e.d.get("place") is not None:
                    r = roots(e.place)
                    if r.op == "L.fld" and r.a[0] is THISP:
                        out.setdefault(r.a[1], set()).add(f["short"])
    return out


def fieldsof(t):
    return {z.a[0].a[1] for z in subterms(t) if z.op == "init" and z.a[0].op == "L.fld" and z.a[0].a[0] is THISP}


def observed(prog, cls):
    """members that other behaviour depends on: read in results, conditions, or values of other members"""
    out = set()
    for f in prog.functions.values():
        if f.get("cls") != cls or f.get("ctor") or f["short"] in ("clear", "getSize", "printTree"):
            continue
        try:
            sts = Engine(prog, opaque=lambda g: True).run(f, dyn=cls)
        except (PathLimit, Undecided):
            continue
        for s in sts:
            if s.ret is not None:
                out |= fieldsof(s.ret)
            for a in s.atoms:
                out |= fieldsof(a)
            for e, _, own in walk_ev(s.ev):
                if own is not None:
                    for a in own.atoms:
                        out |= fieldsof(a)
                v = e.d.get("val")
                if isinstance(v, T) and e.d.get("place") is not None:
                    me = {roots(e.place).a[1]} if roots(e.place).op == "L.fld" else set()
                    out |= fieldsof(v) - me
                for x in (e.d.get("args") or []):
                    if isinstance(x, T):
                        out |= fieldsof(x)
                if e.k == "index":
                    out |= fieldsof(e.i)
                    out |= fieldsof(e.c)
    return out


class Sink:
    def __getattr__(self, n):
        return lambda *a, **k: None


def fields(prog, ck, cls, lf):
    fn = method(prog, cls, "clear", 0)
    if fn is None or fn["cls"] != cls:
        ck.bad("cleared", cls, "the class has no clear of its own")
        return
    init = fresh(prog, cls)
    skip = {"clear", "getAllEdges", "getIndexEdges", "sortAndBuildGraph", "setConfig", "setDistanceMatrix", "setStreamEvaluator", "newSimplex", "streamEvaluator", "deleteIterative"}
    wr = written(prog, cls, skip)
    given = set()       # handed in from outside, not filled by insertions
    for f in prog.functions.values():
        if f["short"] in ("setConfig", "setDistanceMatrix", "setStreamEvaluator") and f["cls"] in prog.ancestors(cls):
            try:
                for s in Engine(prog).run(f, dyn=cls):
                    given |= {k.a[1] for k in s.store if k.op == "L.fld" and k.a[0] is THISP}
            except (PathLimit, Undecided):
                pass
    seen = observed(prog, cls)
    flags, caches = {}, set()
    for name in ("getAllEdges", "getIndexEdges"):
        g = method(prog, cls, name, 1)
        if g is not None and g["cls"] == cls:
            a, b = retrieve(prog, Sink(), cls, lf, g)
            flags.update(a)
            caches |= b
    try:
        sts = [s for s in Engine(prog, opaque=lambda g: g["name"].startswith("utils::")).run(fn, dyn=cls) if s.status == "ret"]
    except (PathLimit, Undecided) as ex:
        ck.und("cleared", cls, str(ex), w(fn))
        return
    for f, who in sorted(wr.items()):
        if f in flags or f in caches and f != lf or f not in seen or f in given:
            continue
        want = init.get(f)
        if not want:
            want = {mk("empty")}
        tag = "%s::%s" % (cls, f)
        for s in sts:
            v = lastwrite(prog, s, f, cls)
            st0 = s.atoms
            vi = mk("init", mk("L.fld", THISP, f), "")
            ok = False
            for x in want:
                if v is not None and (noepoch(v) is noepoch(x) or cval(v) is not None and cval(v) == cval(x) or v.op == "null" and x.op == "null"):
                    ok = True
                if x.op in ("empty", "init") and v is not None and v.op == "empty":
                    ok = True
                if v is None and (x.op == "null" or cval(x) == 0) and st0.get(nz(vi)) is False:
                    ok = True
                if v is None and x.op in ("empty", "init") and st0.get(nz(size(vi))) is False:
                    ok = True
            if any(x.op in ("list", "push", "unknown") for x in want):
                ck.und("cleared", tag, "the member does not start empty: %s" % [show(x)[:40] for x in want], w(fn))
                continue
            if v is None and any(st0.get(q) is False for g in wr for q in (nz(mk("init", mk("L.fld", THISP, g), "")), nz(size(mk("init", mk("L.fld", THISP, g), ""))))):
                ck.ok("cleared", cls + " already empty")     # nothing was inserted since the last start
                continue
            if ok:
                ck.ok("cleared", tag)
            elif v is None or isconst(v) or v.op in ("null", "list", "push") or emptiedrows(s, v):
                ck.bad("cleared", tag, "%s, which %s fills, %s" % (f, ", ".join(sorted(who))[:60], "keeps its old value" if v is None else "becomes %s instead of its value in a new complex" % show(v)[:60]), w(fn), [fmt_guards(s.atoms)])
            else:
                ck.und("cleared", tag, show(v)[:120], w(fn))


def emptiedrows(s, v):
    """only the rows of a nested list were emptied, or nothing at all"""
    v = noepoch(v)
    if v.op == "init":
        return True
    if v.op != "lo":
        return False
    for r, _, _ in loops_of([s]):
        if r.lid == v.a[0] and v.a[1] in r.init:
            cur = mk("lv", r.lid, v.a[1])
            return all(p.store.get(v.a[1]) is None or noepoch(p.store[v.a[1]]) is cur or p.store[v.a[1]].op == "upd" for _, p in r.paths) and noepoch(r.init[v.a[1]]).op == "init"
    return False


# ---------------------------------------------------------------- drivers that reuse one complex
def drivers(prog, ck):
    base = {}
    for f in prog.functions.values():
        base[f["key"]] = callees(f)
    wrap = {f["key"] for f in prog.fns("basePipe::runPipeWrapper")}
    stage = set()
    for c in prog.classes:
        if "basePipe" in prog.ancestors(c) or "preprocessor" in prog.ancestors(c):
            stage.add(c)
    runners = {f["key"] for f in prog.functions.values() if f.get("cls") not in stage and wrap & (reachset(base, base[f["key"]]))}
    for f in prog.functions.values():
        if f["key"] not in runners or not (base[f["key"]] & runners):
            continue
        if f["short"] == "main":
            continue
        rn = base[f["key"]] & runners
        try:
            sts = Engine(prog, opaque=lambda g: g["key"] in rn or g["name"].startswith("utils::") or g["name"].startswith("preprocessor::"), cap=4000).run(f)
        except (PathLimit, Undecided) as ex:
            ck.und("driver", f["name"], str(ex), w(f))
            continue
        for s in sts:
            if s.status != "ret":
                continue
            walk(ck, f, s.ev, rn, "clean", s)


def isclear(e):
    return e.k == "call" and e.d.get("name", "").split("::")[-1] == "clear" and any(x in e.d.get("name", "") for x in ("simplexBase", "simplexTree", "ArrayList"))


def walk(ck, f, evs, rn, d, s):
    for e in evs:
        if e.k == "loop":
            ins = {d}
            for _ in range(2):
                outs = set()
                for i in ins:
                    for kind, p in e.rec.paths:
                        outs.add(walk(ck, f, p.ev, rn, i, p))
                ins |= outs
            d = "dirty" if "dirty" in ins else "clean"
        elif e.k == "call" and e.d.get("key") in rn:
            ck.require(d == "clean", "driver", "%s:%s" % (f["name"], "in loop" if s.ev is evs and False else e.name), "the stages run again on a complex that still holds the simplices of the previous run", e.where(), [fmt_guards(s.atoms, 4)])
            d = "dirty"
        elif isclear(e):
            d = "clean"
    return d
