"""C07 retrieving the simplices: complete, ordered by weight, whatever happened before."""
from ..common import *
from ..loops import *
from ..order import rows, cmporder, Rows
from ..trees import noepoch

TITLE = "ordered retrieval after any history"
CLASSES = {"simplexTree": "weightEdgeGraph", "indSimplexTree": "dimensions", "simplexArrayList": "weightedGraph"}


def w(fn):
    return "%s:%d" % (fn["file"], fn["l"])


def run(prog, ck):
    for cls, lf in CLASSES.items():
        flags = {}
        caches = set()
        for name in ("getAllEdges", "getIndexEdges"):
            fn = method(prog, cls, name, 1)
            if fn is None or fn["cls"] != cls:
                continue
            f, c = retrieve(prog, ck, cls, lf, fn)
            flags.update(f)
            caches |= c
        if flags:
            resets(prog, ck, cls, lf, flags, caches)
    ck.expect("ordered", 4)
    ck.expect("complete", 4)
    ck.expect("refreshed", 3)


def flagatoms(s):
    out = {}
    for a, b in s.atoms.items():
        if a.op == "nz":
            f = fieldname(a.a[0])
            if f:
                out[f] = b
    return out


def retrieve(prog, ck, cls, lf, fn):
    en = Engine(prog)
    try:
        sts = [s for s in en.run(fn, dyn=cls) if s.status == "ret"]
    except (PathLimit, Undecided) as ex:
        ck.und("ordered", cls + "::" + fn["short"], str(ex), w(fn))
        return {}, set()
    G = mk("init", mk("L.fld", THISP, lf), "")
    tag = cls + "::" + fn["short"]
    flags, caches = {}, set()
    pend = []
    for s in sts:
        recs = [r for r, _, _ in loops_of([s])]
        fa = flagatoms(s)
        emptyG = s.atoms.get(nz(size(G))) is False
        if s.ret.op == "empty":
            if emptyG:
                ck.ok("complete", tag + " empty")
            else:
                ck.bad("complete", tag, "nothing is returned when %s" % fmt_guards(s.atoms, 4), w(fn), [fmt_guards(s.atoms)])
            continue
        rw = rows(prog, s.ret, recs, en)
        src = rw.src
        if src is None and rw.full is False:
            ck.bad("complete", tag, rw.why, w(fn), [fmt_guards(s.atoms)])
            continue
        ok = src is not None and src.op == "init" and fieldname(src)
        if rw.order == "src" and ok:
            # unsorted copy of a stored list: allowed only when a flag says it is ordered
            cand = [(f, b) for f, b in fa.items() if f not in ("head",)]
            pend.append((s, rw, fieldname(src), cand))
            continue
        if rw.order is None or src is None:
            ck.und("ordered", tag, rw.why, w(fn))
        else:
            ck.require(rw.order == "asc", "ordered", tag, "the simplices of a dimension are %s" % ("in descending order of weight" if rw.order == "desc" else "not ordered by weight%s" % (": " + rw.why if rw.why else "")), w(fn), [fmt_guards(s.atoms)])
        if ok and fieldname(src) == lf:
            ck.add("complete", tag, {True: "ok", False: "bad", None: "undecided"}[rw.full], rw.why, w(fn), [fmt_guards(s.atoms)])
        elif ok:
            ck.bad("complete", tag, "the result is taken from %s, not from the stored simplices" % fieldname(src), w(fn), [fmt_guards(s.atoms)])
        else:
            ck.und("complete", tag, repr(rw), w(fn))
        # what the flag promises from now on
        for f, b in fa.items():
            v = s.store.get(mk("L.fld", THISP, f))
            if b is False and v is not None and (v is TRUE or cval(v) == 1):
                flags[f] = True
            elif b is True and v is not None and (v is FALSE or cval(v) == 0):
                flags[f] = False
    # flags set without ordering
    for s, rw, cache, cand in pend:
        if not cand:
            ck.bad("ordered", tag, "the simplices are returned in the order they were recorded when %s" % (fmt_guards(s.atoms, 4) or "always"), w(fn), [fmt_guards(s.atoms)])
            continue
        claim = [f for f, b in cand if b is not None and s.store.get(mk("L.fld", THISP, f)) is not None and cval(b2i_(s.store[mk("L.fld", THISP, f)])) == (0 if b else 1)]
        if claim:
            ck.bad("ordered", tag, "%s is set although the simplices are returned in the order they were recorded" % claim[0], w(fn), [fmt_guards(s.atoms)])
            continue
        good = [f for f, b in cand if flags.get(f) is b]
        if good:
            caches.add(cache)
            ck.ok("ordered", tag + " kept")
            ck.add("complete", tag + " kept", {True: "ok", False: "bad", None: "undecided"}[rw.full], rw.why, w(fn))
            # the kept list is the one the ordering filled
            for s2 in sts:
                fa = flagatoms(s2)
                if any(fa.get(f) is (not flags[f]) for f in good) and s2.ret.op != "empty":
                    v = s2.store.get(mk("L.fld", THISP, cache))
                    recs = [r for r, _, _ in loops_of([s2])]
                    if v is None:
                        ck.bad("ordered", tag + " kept", "the kept list %s is not the one that was ordered" % cache, w(fn))
                    else:
                        k = rows(prog, v, recs, en)
                        if k.src is None and k.full is False:
                            ck.bad("complete", tag + " kept", k.why, w(fn))
                        elif k.order is None:
                            ck.und("ordered", tag + " kept", k.why, w(fn))
                        else:
                            ck.require(k.order == "asc", "ordered", tag + " kept", "the kept list is not ordered by weight%s" % (": " + k.why if k.why else ""), w(fn))
        elif flags or not any(flagatoms(x) for x in sts):
            ck.bad("ordered", tag, "the simplices are returned in the order they were recorded when %s" % fmt_guards(s.atoms, 4), w(fn), [fmt_guards(s.atoms)])
        else:
            # no path establishes the flag: look at every writer of it
            ck.und("ordered", tag, "no path establishes %s" % [f for f, _ in cand], w(fn))
    return flags, caches


def b2i_(t):
    return INT(1) if t is TRUE else (INT(0) if t is FALSE else t)


def roots(pl):
    while pl.op in ("L.elem", "L.fld") and not (pl.op == "L.fld" and pl.a[0] is THISP):
        pl = pl.a[0]
    return pl


MUT = ("write", "push", "erase", "clear", "insert", "lwrite", "sort", "assign", "pop", "resize")


def resets(prog, ck, cls, lf, flags, caches):
    """a method that adds simplices leaves the ordering flag cleared"""
    G = mk("L.fld", THISP, lf)
    fns = [f for f in prog.functions.values() if f.get("cls") == cls and not f.get("ctor") and not f.get("dtor")]
    # functions that change the list directly
    direct = {}
    for f in fns:
        try:
            sts = Engine(prog, opaque=lambda g: True).run(f, dyn=cls)
        except (PathLimit, Undecided):
            continue
        for s in sts:
            for e, ctx, _ in walk_ev(s.ev):
                if e.k in MUT and e.d.get("place") is not None and roots(e.place) is G:
                    direct.setdefault(f["key"], set()).add(kindof(e))
    calls = {f["key"]: callees(f) for f in fns}
    mut = {k: set(v) for k, v in direct.items()}
    ch = True
    while ch:
        ch = False
        for k, cs in calls.items():
            for c in cs:
                if c in mut and not mut[c] <= mut.get(k, set()):
                    mut.setdefault(k, set()).update(mut[c])
                    ch = True
    rec = {k for k in mut if k in reachset(calls, calls.get(k, ()))}
    getters = {"getAllEdges", "getIndexEdges"}
    inner = set()
    for k, cs in calls.items():
        for c in cs:
            if c != k:
                inner.add(c)
    for f in fns:
        k = f["key"]
        if k not in mut or f["short"] in getters or k in rec and k in inner:
            continue
        if not overrides(prog, cls, f):
            continue
        try:
            sts = Engine(prog, opaque=lambda g: g["key"] in rec and g["key"] != k or g["name"].startswith("utils::"), cap=3000).run(f, dyn=cls)
        except (PathLimit, Undecided) as ex:
            ck.und("refreshed", cls + "::" + f["short"], str(ex), w(f))
            continue
        for s in sts:
            if s.status != "ret":
                continue
            kinds = set()
            for e, ctx, _ in walk_ev(s.ev):
                if e.k in MUT and e.d.get("place") is not None and roots(e.place) is G:
                    kinds.add(kindof(e))
                if e.k == "call" and e.d.get("key") in mut:
                    kinds |= mut[e.d["key"]]
            kinds.discard("sort")
            if lf in caches and not (lf not in caches):
                kinds -= {"erase"}
            elif "erase" in kinds and all(emptied(s, c) for c in caches):
                kinds -= {"erase"}
            if not kinds:
                continue
            for fl, good in flags.items():
                v = lastwrite(prog, s, fl, cls)
                st = s.atoms.get(nz(mk("init", mk("L.fld", THISP, fl), "")))
                isreset = v is not None and (v is FALSE or cval(v) == 0 if good else v is TRUE or cval(v) == 1) or v is None and st is (not good)
                if isreset:
                    ck.ok("refreshed", cls + "::" + f["short"])
                elif v is None or isconst(v) or noepoch(v).op == "init":
                    ck.bad("refreshed", cls + "::" + f["short"], "%s while %s keeps claiming the retrieved list is up to date" % ({"erase": "simplices are removed"}.get(next(iter(kinds)) if len(kinds) == 1 else "", "simplices are added"), fl), w(f), [fmt_guards(s.atoms)])
                else:
                    flp = mk("L.fld", THISP, fl)
                    want = (lambda x: x is not None and cval(b2i_(x)) == (0 if good else 1))
                    at_ = [own for e, ctx, own in walk_ev(s.ev) if e.k in MUT and e.d.get("place") is not None and roots(e.place) is G and kindof(e) in kinds]
                    if at_ and all(want(own.store.get(flp)) for own in at_ if own is not None) and None not in at_:
                        ck.ok("refreshed", cls + "::" + f["short"])
                    else:
                        ck.und("refreshed", cls + "::" + f["short"], show(v)[:100], w(f))


def lastwrite(prog, s, fl, cls):
    """value of a member at the end when no callee in between can change it"""
    pl = mk("L.fld", THISP, fl)
    v = s.store.get(pl)
    if v is not None and isconst(v):
        return v
    last = None
    for e in s.ev:
        if e.k == "write" and e.place is pl:
            last = e.val
        elif e.k == "call" and last is not None and writes(prog, e.d.get("key"), fl, set()):
            last = None
        elif e.k == "loop":
            for x, _, _ in walk_ev([e]):
                if x.k == "write" and x.place is pl or x.k == "call" and writes(prog, x.d.get("key"), fl, set()):
                    last = None
    return last if last is not None else v


def writes(prog, key, fl, seen):
    """may the function assign a member of that name"""
    f = prog.functions.get(key)
    if f is None or key in seen:
        return False
    seen.add(key)
    hit = []

    def vis(x):
        if x.get("k") == "mem" and x.get("f") == fl:
            hit.append(1)
        return False
    any_node(f["body"], vis)
    return bool(hit) or any(writes(prog, c, fl, seen) for c in callees(f))


def emptied(s, c):
    v = s.store.get(mk("L.fld", THISP, c))
    return v is not None and v.op == "empty"


def kindof(e):
    if e.k == "sort":
        return "sort"
    if e.k in ("erase", "clear", "pop"):
        return "erase"
    if e.d.get("how") in ("erase", "clear", "pop_back", "remove"):
        return "erase"
    v = e.d.get("val")
    if e.k in ("write", "lwrite") and v is not None and v.op in ("empty", "erase", "erased", "sorted"):
        return "erase" if v.op != "sorted" else "sort"
    return "add"


def callees(f):
    out = set()

    def vis(x):
        fr = x.get("f")
        if isinstance(fr, dict) and fr.get("repo"):
            out.add(fr["key"])
        return False
    any_node(f["body"], vis)
    return out


def reachset(calls, start):
    seen, todo = set(), list(start)
    while todo:
        c = todo.pop()
        if c in seen:
            continue
        seen.add(c)
        todo += list(calls.get(c, ()))
    return seen


def overrides(prog, cls, f):
    c = prog.classes.get(cls)
    for m in (c or {}).get("methods", []):
        if m["key"] == f["key"] and m["overrides"]:
            return True
    return False
