"""C17 stream clustering: micro-clusters are the decayed mean of the points given to them, every point goes to the nearest one that can take it, light ones are dropped."""
import math
from ..common import *
from ..loops import *
from ..trees import noepoch
from ..cases import value, holds, grid
from .c09 import w
from .c12 import par
from .c13 import recs, lv
from .c14 import states, isdist, full, txt, extremum
from .c16 import flat

TITLE = "stream clustering"
OPQ = {"vectors_distance", "writeDebug", "writeLog"}


def run(prog, ck):
    K = {}
    fs = sorted((f for f in prog.functions.values() if f["name"].startswith(("microCluster::", "denStream::"))), key=lambda f: f["key"])
    for fn in fs:
        n = fn["name"]
        if n == "microCluster::insertPoint":
            insert(prog, ck, fn)
        elif n == "microCluster::getWeight":
            weight(prog, ck, fn)
        elif n in ("microCluster::getRadius", "microCluster::mergeRadius"):
            radius(prog, ck, fn, K)
        elif n == "microCluster::microCluster":
            fresh(prog, ck, fn)
        elif n in ("denStream::nearestPCluster", "denStream::nearestOCluster"):
            closest(prog, ck, fn)
    for fn in fs:
        if fn["name"] == "denStream::merging":
            merging(prog, ck, fn, K)
        elif fn["name"] == "denStream::runPreprocessor":
            stream(prog, ck, fn)
    ck.expect("mean", 1)
    ck.expect("weight", 1)
    ck.expect("radius", 2)
    ck.expect("nearest", 2)
    ck.expect("given to one", 1)
    ck.expect("every point", 1)
    ck.expect("returned", 1)


F = lambda n: mk("init", mk("L.fld", mk("L.deref", mk("this")), n), "")


def fields(prog, sts):
    """values of the object's fields on entry, by name"""
    out = {}
    for s in sts:
        seen = [v for v in s.store.values()] + list(s.atoms) + ([s.ret] if isinstance(s.ret, T) else [])
        for r, c in recs([s]):
            seen += list(r.init.values())
            for k, p in r.paths:
                seen += list(p.store.values()) + list(p.atoms)
        for v in seen:
            for x in subterms(v):
                if x.op == "init" and x.a[0].op == "L.fld" and x.a[0].a[0].op in ("this", "L.deref") and (x.a[0].a[0].op == "this" or x.a[0].a[0].a[0].op == "this"):
                    out.setdefault(x.a[0].a[1], set()).add(x)
    return out


def stored(s, name):
    """(place, value) of field `name` of the object after path s"""
    for p, v in s.store.items():
        if p.op == "L.fld" and p.a[1] == name and p.a[0].op in ("this", "L.deref") and (p.a[0].op == "this" or p.a[0].a[0].op == "this"):
            return p, v
    return None, None


SAMPLES = [dict(c=3.0, s=11.0, p=7.0, w=2.5, l=0.25, t=9, e=5), dict(c=-2.0, s=5.5, p=4.0, w=7.0, l=1.0, t=3, e=3), dict(c=0.5, s=0.75, p=-6.0, w=0.5, l=0.5, t=20, e=12),
           dict(c=10.0, s=140.0, p=1.0, w=30.0, l=0.1, t=8, e=7), dict(c=0.0, s=0.0, p=2.5, w=0.0, l=0.5, t=6, e=0)]


def expected(g):
    wd = g["w"] * 2 ** (-g["l"] * (g["t"] - g["e"]))
    n = wd + 1
    return dict(wd=wd, n=n, c=g["c"] + (g["p"] - g["c"]) / n, s=g["s"] + (g["p"] ** 2 - g["s"]) / n)


def near(a, b):
    return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))


def env_of(fs, point, time, g, comps=()):
    env = {}
    for n, k in (("weight", "w"), ("lambda", "l"), ("editTime", "e")):
        for x in fs.get(n, ()):
            env[x] = g[k]
    for x in fs.get("creationTime", ()):
        env[x] = g["e"] - 2
    if time is not None:
        env[time] = g["t"]
    for x, k in comps:
        env[x] = g[k]
    return env


def comp_terms(fs, point, iv, cur=()):
    """element terms at position iv of the centre, the squares and the point"""
    out = []
    for n, k in (("center", "c"), ("avgSquares", "s")):
        for x in fs.get(n, ()):
            out.append((at(x, iv), k))
    for v, k in cur:
        out.append((at(v, iv), k))
    if point is not None:
        out.append((at(point, iv), "p"))
    return out


def dims(fs, point):
    return ([size(point)] if point is not None else []) + [size(x) for n in ("center", "avgSquares") for x in fs.get(n, ())]


def over(ck, R, inst, W, r, ds):
    """the loop's variable over all coordinates"""
    bad = None
    for iv in r.ivs:
        for d in ds:
            ok, why = verdict(r, iv, INT(0), d)
            if ok:
                if early(r):
                    ck.und(R, inst, "the loop over the coordinates may stop early", W)
                    return None
                return iv
            if ok is False:
                bad = why
    (ck.bad if bad else ck.und)(R, inst, "not every coordinate is updated: %s" % bad if bad else "loop over the coordinates not recognised", W)
    return None


def insert(prog, ck, fn):
    W, inst, R = w(fn), fn["short"], "mean"
    sts = states(prog, ck, fn, R, OPQ)
    if sts is None:
        return
    point, time = par(fn, 0), par(fn, 1)
    fs = fields(prog, sts)
    seen = set()
    for s in sts:
        rs = {r.lid: r for r, c in recs([s])}
        ds = dims(fs, point) + [size(lv(r, h)) for r in rs.values() for h in r.H]
        loc = {}
        for nm, k in (("center", "c"), ("avgSquares", "s")):
            pl, v = stored(s, nm)
            if v is None or v in fs.get(nm, ()):
                loc[k] = ("keep",)
                continue
            if v is point:
                loc[k] = ("point",)
                continue
            if v.op == "lo" and v.a[0] in rs and v.a[1] in rs[v.a[0]].H:
                r = rs[v.a[0]]
                i0 = r.init[v.a[1]]
                if i0 not in fs.get(nm, ()) and i0 is not point:
                    ck.und(R, inst, "%s before the loop: %s" % (nm, show(i0)[:60]), W)
                    return
                iv = over(ck, R, inst, W, r, ds)
                if iv is None:
                    return
                loc[k] = ("loop", r, v.a[1], iv, "p" if i0 is point else k)
                continue
            ck.und(R, inst, "%s becomes %s" % (nm, show(v)[:80]), W)
            return
        pw, vw = stored(s, "weight")
        pe, ve = stored(s, "editTime")
        for g in SAMPLES:
            base = env_of(fs, point, time, g)
            okk, rest = holds({a: b for a, b in s.atoms.items() if not contains(a, lambda x: x.op in ("lo", "lv"))}, base)
            if not okk:
                continue
            if rest:
                ck.und(R, inst, "paths depend on %s" % txt(rest)[:150], W)
                return
            seen.add(g["w"] == 0)
            X = expected(g)
            x = value(vw, base) if vw is not None else g["w"]
            if x is None:
                ck.und("weight", inst, "weight becomes %s" % show(vw)[:100], W)
            elif not near(x, X["n"]):
                ck.bad("weight", inst, "weight %s, last changed at %s, decay %s: at %s it becomes %.6g instead of %.6g" % (g["w"], g["e"], g["l"], g["t"], x, X["n"]), W)
                return
            x = value(ve, base) if ve is not None else g["e"]
            if x is None:
                ck.und("weight", inst, "time of change becomes %s" % show(ve)[:100], W)
            elif x != g["t"]:
                ck.bad("weight", inst, "a point inserted at %s leaves the time of the last change at %s" % (g["t"], x), W)
                return
            for nm, k in (("center", "c"), ("avgSquares", "s")):
                what = {"c": "the centre", "s": "the average square"}[k]
                L = loc[k]
                if L[0] == "keep":
                    got = [g[k]]
                elif L[0] == "point":
                    got = [g["p"]]
                else:
                    _, r, h, iv, start = L
                    cur = [(lv(r, hh), kk) for hh in r.H for kk, l2 in loc.items() if l2[0] == "loop" and l2[1] is r and l2[2] is hh for kk in [l2[4]]]
                    other = [(v, "p" if l2[0] == "point" else None) for kk, l2 in loc.items() if l2[0] in ("point",) for v in [stored(s, "center" if kk == "c" else "avgSquares")[1]]]
                    done = [(mk("lo", l2[1].lid, l2[2]), ("new", kk)) for kk, l2 in loc.items() if l2[0] == "loop" and l2[1] is not r]
                    got = []
                    for kd, p in r.paths:
                        e = dict(env_of(fs, point, time, g, comp_terms(fs, point, iv, cur)))
                        for v, kk in done:
                            e[at(v, iv)] = X[kk[1]]
                        for q, val in ((pw, X["n"]), (pe, g["t"])):
                            if q is not None and q in r.init and r.init[q] is not None:
                                pass
                        ok2, rest = holds({a: b for a, b in p.atoms.items() if not any(a in alt for alt in r.hdr)}, e)
                        if not ok2:
                            continue
                        v = p.store.get(h, lv(r, h))
                        if v is lv(r, h):
                            y = g[start]
                        elif v.op == "upd" and v.a[0] is lv(r, h) and v.a[1] is iv:
                            y = value(v.a[2], e)
                        else:
                            y = None
                        if y is None or rest:
                            ck.und(R, inst, "%s: %s" % (nm, show(v)[:150]), W)
                            return
                        got.append(y)
                for y in got:
                    if not near(y, X[k]):
                        ck.bad(R, inst, "%s: coordinate %s, point %s, weight before %s (decayed %.6g): %s becomes %.6g instead of %.6g" % (nm, g[k], g["p"], g["w"], X["wd"], what, y, X[k]), W)
                        return
    if seen == {True, False}:
        ck.ok(R, inst, "centre and average squares become the weighted means with the new point of weight 1, in every coordinate", W)
        ck.ok("weight", inst, "the decayed weight plus one, the time of change is the point's", W)
    else:
        ck.und(R, inst, "paths not recognised", W)


def weight(prog, ck, fn):
    W, inst, R = w(fn), fn["short"], "weight"
    sts = states(prog, ck, fn, R, OPQ)
    if sts is None:
        return
    fs, time = fields(prog, sts), par(fn, 0)
    for s in sts:
        for g in SAMPLES:
            e = env_of(fs, None, time, g)
            okk, rest = holds(s.atoms, e)
            if not okk:
                continue
            x = value(s.ret, e)
            if x is None or rest:
                ck.und(R, inst, "weight %s" % show(s.ret)[:120], W)
                return
            if not near(x, expected(g)["wd"]):
                ck.bad(R, inst, "weight %s, last changed at %s, decay %s: at %s it is %.6g instead of %.6g" % (g["w"], g["e"], g["l"], g["t"], x, expected(g)["wd"]), W)
                return
    ck.ok(R, inst, "halved every 1/lambda units since the last change", W)


def radius(prog, ck, fn, K):
    W, inst, R = w(fn), fn["short"], "radius"
    sts = states(prog, ck, fn, R, OPQ)
    if sts is None:
        return
    merge = fn["short"] == "mergeRadius"
    point, time = (par(fn, 0), par(fn, 1)) if merge else (None, None)
    fs = fields(prog, sts)
    for s in sts:
        v = s.ret
        sq = True
        if v.op == "sqrt":
            v, sq = v.a[0], False
        for _ in range(2):
            if v.op == "max" and any(cval(x) == 0 for x in v.a):
                v = next(x for x in v.a if cval(x) != 0)
            if v.op == "sqrt" and sq:
                v, sq = v.a[0], False
        r = next((r for r, c in recs([s]) if v.op == "lo" and r.lid == v.a[0]), None)
        if r is None:
            ck.und(R, inst, "radius %s" % show(s.ret)[:120], W)
            return
        h = v.a[1]
        if cval(r.init.get(h)) != 0:
            (ck.bad if cval(r.init.get(h)) is not None else ck.und)(R, inst, "the sum starts at %s" % show(r.init.get(h)), W)
            return
        iv = over(ck, R, inst, W, r, dims(fs, point))
        if iv is None:
            return
        for g in SAMPLES:
            X = expected(g)
            e = env_of(fs, point, time, g, comp_terms(fs, point, iv))
            e[lv(r, h)] = 100.0
            want = X["s"] - X["c"] ** 2 if merge else g["s"] - g["c"] ** 2
            for k, p in r.paths:
                okk, rest = holds({a: b for a, b in list(s.atoms.items()) + list(p.atoms.items()) if not any(a in alt for alt in r.hdr) and not contains(a, lambda x: x.op == "lo")}, e)
                if not okk:
                    continue
                x = value(p.store.get(h, lv(r, h)), e)
                if x is None or rest:
                    ck.und(R, inst, "a coordinate contributes %s" % show(p.store.get(h))[:150], W)
                    return
                if not near(x - 100.0, want):
                    ck.bad(R, inst, "coordinate with mean %s, mean square %s%s contributes %.6g instead of %.6g" % (g["c"], g["s"], ", point %s, decayed weight %.6g" % (g["p"], X["wd"]) if merge else "", x - 100, want), W)
                    return
        if merge:
            K["sq"] = sq
        elif sq:
            ck.und(R, inst, "the squared radius is returned", W)
            return
    ck.ok(R, inst, "the standard deviation over all coordinates" + (" with the new point taken in" if merge else ""), W)


def fresh(prog, ck, fn):
    W, inst, R = w(fn), "microCluster", "mean"
    sts = states(prog, ck, fn, R, OPQ)
    if sts is None:
        return
    for s in sts:
        for nm, i in (("creationTime", 0), ("lambda", 2), ("weight", None)):
            pl, v = stored(s, nm)
            if v is None:
                ck.bad(R, inst, "%s is never set" % nm, W)
                return
            want = par(fn, i) if i is not None else INT(0)
            if v is not want and not (i is None and cval(v) == 0):
                bad = isconst(v) or v.op == "uninit" or any(v is par(fn, j) for j in range(3))
                (ck.bad if bad else ck.und)(R, inst, "%s starts as %s" % (nm, show(v)[:60]), W)
                return
        for nm in ("center", "avgSquares"):
            pl, v = stored(s, nm)
            if v is None or v.op != "filled" or v.a[0] is not par(fn, 1):
                (ck.bad if v is None or v.op == "filled" and diff(v.a[0], par(fn, 1)) else ck.und)(R, inst, "%s starts as %s" % (nm, show(v)[:60] if v is not None else "nothing"), W)
                return
    ck.ok(R, inst, "empty, with its own time of creation and decay", W)


def closest(prog, ck, fn):
    W, inst, R = w(fn), fn["short"], "nearest"
    cont = "pMicroClusters" if "PCluster" in fn["short"] else "oMicroClusters"
    sts = states(prog, ck, fn, R, OPQ)
    if sts is None:
        return
    point = par(fn, 0)
    C = None
    for s in sts:
        for x in fields(prog, [s]).get(cont, ()):
            C = x
    if C is None:
        others = {n for s in sts for n in fields(prog, [s]) if n in ("pMicroClusters", "oMicroClusters")}
        (ck.bad if others else ck.und)(R, inst, "it searches %s" % (", ".join(others) or "nothing recognised"), W)
        return
    for s in sts:
        v = s.ret
        r = next((r for r, c in recs([s]) if v.op == "lo" and r.lid == v.a[0]), None)
        if r is None:
            okk, rest = holds({a: b for a, b in s.atoms.items() if not contains(a, lambda x: x.op == "lo")}, {size(C): 3})
            (ck.bad if cval(v) is not None and okk and not rest else ck.und)(R, inst, "with three micro-clusters the result is %s" % show(v)[:80], W)
            return
        h = v.a[1]
        dh = None
        for q in r.H:
            x = extremum(r, q)
            if x[0] in ("max", "min", "last", "skip") and isinstance(x[1], T) and isdist(x[1]) or x[0] == "skip":
                dh, X = q, x
                if x[0] in ("max", "min"):
                    break
        if dh is None:
            fix = [a for k, p in r.paths if p.store.get(h, lv(r, h)) is not lv(r, h) for a in p.atoms if a.op == "<" and all(isdist(x) for x in a.a) and sum(contains(x, lambda y: y.op == "lv") for x in a.a) == 1]
            (ck.bad if fix else ck.und)(R, inst, "distances are compared with that of the first micro-cluster, not the least so far" if fix else "search not recognised", W)
            return
        if X[0] == "max":
            ck.bad(R, inst, "the farthest micro-cluster is chosen", W)
            return
        if X[0] in ("last", "skip"):
            ck.und(R, inst, "search depends on more than the distance", W)
            return
        q = isdist(X[1])
        own = [x for x in q if x is not point]
        if len(own) != 1 or not any(contains(own[0], lambda z: z is at(C, i)) for i in r.ivs):
            other = [x for x in subterms(X[1]) if x.op == "init" and x.a[0].op == "L.fld" and x.a[0].a[1] in ("pMicroClusters", "oMicroClusters") and x is not C]
            (ck.bad if other else ck.und)(R, inst, "distances are taken from %s to %s" % tuple(show(x)[:60] for x in q), W)
            return
        iv = next(i for i in r.ivs if contains(own[0], lambda z: z is at(C, i)))
        if own[0] is not getf(at(C, iv), "center"):
            ck.und(R, inst, "distance to %s" % show(own[0])[:60], W)
            return
        i0, d0 = r.init.get(h), r.init.get(dh)
        ok, why = verdict(r, iv, INT(0), size(C))
        first = cval(i0) if i0 is not None else None
        isfirst = d0 is not None and isdist(d0) and first is not None and d0 is subst(X[1], {iv: INT(first)})
        if not ok:
            if isfirst and first == 0:
                ok2, why = verdict(r, iv, INT(1), size(C))
                if ok2 is None and any(x.op == "init" and x.a[0].op == "L.fld" and x.a[0].a[1] in CL and x is not C for alt in r.hdr for a in alt for x in subterms(a)):
                    ok2, why = False, "the search ends at the size of the other list"
                if not ok2:
                    (ck.bad if ok2 is False else ck.und)(R, inst, "not every micro-cluster is compared: %s" % why, W)
                    return
            else:
                (ck.bad if ok is False else ck.und)(R, inst, "not every micro-cluster is compared: %s" % why, W)
                return
        if d0 is not None and isdist(d0) and not isfirst:
            (ck.bad if first is not None else ck.und)(R, inst, "the search starts with number %s at the distance %s" % (show(i0), show(d0)[:80]), W)
            return
        if d0 is not None and cval(d0) is not None and cval(d0) < 1e30:
            ck.bad(R, inst, "the search starts with the distance %s" % show(d0), W)
            return
        if early(r):
            ck.bad(R, inst, "the search may stop before the last micro-cluster", W)
            return
        for k, p in r.paths:
            moved = p.store.get(dh, lv(r, dh)) is not lv(r, dh)
            nv = p.store.get(h, lv(r, h))
            if moved and nv is not iv:
                (ck.bad if nv is lv(r, h) or diff(nv, iv) else ck.und)(R, inst, "a nearer micro-cluster %s is remembered as %s" % (show(iv), show(nv)), W)
                return
            if not moved and nv is not lv(r, h):
                ck.bad(R, inst, "the index changes although no nearer one was found", W)
                return
    ck.ok(R, inst, "the least distance from a centre, over all of %s" % cont, W)


CL = ("pMicroClusters", "oMicroClusters")


def contof(pl):
    """(container name, index) when the place is an element of a micro-cluster list"""
    pl = noepoch(pl) if isinstance(pl, T) else pl
    if isinstance(pl, T) and pl.op == "L.elem" and pl.a[0].op == "L.fld" and pl.a[0].a[1] in CL:
        return pl.a[0].a[1], pl.a[1]
    return None


def listname(pl):
    return pl.a[1] if isinstance(pl, T) and pl.op == "L.fld" and pl.a[1] in CL else None


def merging(prog, ck, fn, K):
    W, inst, R = w(fn), fn["short"], "given to one"
    sts = states(prog, ck, fn, R, OPQ | {"insertPoint", "mergeRadius", "nearestPCluster", "nearestOCluster", "getWeight"})
    if sts is None:
        return
    data, p, time = (par(fn, i) for i in range(3))
    pt = at(data, p)
    fs = fields(prog, sts)
    eps = [x for x in fs.get("epsilon", ())]
    for s in sts:
        rad, wt, ins, pushes, erases, near_ = {}, {}, [], [], [], {}
        for e in flat(s):
            if e.k == "call" and e.d["name"] == "microCluster::mergeRadius":
                c = contof(e.d["recv"])
                a = e.d["args"]
                if c is None or a[0] is not pt or a[1] is not time:
                    ck.und(R, inst, "radius of %s with %s at %s" % (show(e.d["recv"])[:60], show(a[0]), show(a[1])), W)
                    return
                rad[c[0]] = (e.d["res"], c[1])
            elif e.k == "call" and e.d["name"] in ("denStream::nearestPCluster", "denStream::nearestOCluster"):
                if e.d["args"][0] is not pt:
                    ck.und(R, inst, "nearest to %s" % show(e.d["args"][0]), W)
                    return
                near_[noepoch(e.d["res"])] = CL["OCl" in e.d["name"]]
            elif e.k == "call" and e.d["name"] == "microCluster::getWeight":
                c = contof(e.d["recv"])
                wt[e.d["res"]] = (c, bool(ins), e.d["args"][0] is time)
            elif e.k == "call" and e.d["name"] == "microCluster::insertPoint":
                a = e.d["args"]
                if a[0] is not pt and not contains(a[0], lambda x: x is data) or contains(a[0], lambda x: x.op == "fld" and x.a[1] == "center"):
                    ck.bad(R, inst, "a micro-cluster is made anew from %s: the points it stood for are lost" % show(a[0])[-60:], W)
                    return
                if a[0] is not pt or a[1] is not time:
                    (ck.bad if diff(a[1], time) or a[0].op == "at" and a[0].a[0] is data and diff(a[0].a[1], p) else ck.und)(R, inst, "%s is inserted at time %s" % (show(a[0]), show(a[1])), W)
                    return
                ins.append((contof(e.d["recv"]), e))
            elif e.k == "push" and listname(e.d["place"]):
                pushes.append((listname(e.d["place"]), e))
            elif e.k == "erase" and listname(e.d["place"]):
                erases.append((listname(e.d["place"]), e))
        for g in grid(nP=(0, 1, 3), nO=(0, 1, 3), rP=(1.0, 2.0, 3.0), rO=(1.0, 2.0, 3.0), w=(1.0, 3.0)):
            env = {}
            for x in fs.get("pMicroClusters", ()):
                env[size(x)] = g["nP"]
            for x in fs.get("oMicroClusters", ()):
                env[size(x)] = g["nO"]
            for c, k in (("pMicroClusters", "rP"), ("oMicroClusters", "rO")):
                if c in rad:
                    env[rad[c][0]] = g[k] ** 2 if K.get("sq") else g[k]
            for x in eps:
                env[x] = 2.0
            for n, v in (("beta", 0.2), ("mu", 10)):
                for x in fs.get(n, ()):
                    env[x] = v
            for x in wt:
                env[x] = g["w"]
            okk, rest = holds(s.atoms, env)
            if not okk:
                continue
            if rest:
                ck.und(R, inst, "paths depend on %s" % txt(rest)[:150], W)
                return
            sit = "%s potential and %s outlier micro-clusters, radius with the point %s and %s for epsilon 2" % (g["nP"] or "no", g["nO"] or "no", g["rP"], g["rO"])
            want = "pMicroClusters" if g["nP"] and g["rP"] <= 2 else "oMicroClusters" if g["nO"] and g["rO"] <= 2 else "new"
            if len(ins) != 1:
                ck.bad(R, inst, "the point is inserted %d times (%s)" % (len(ins), sit), W)
                return
            c = ins[0][0]
            if c and any(n == c[0] and size(e.d["c"]) is noepoch(c[1]) for n, e in pushes):
                c = None
            got = c[0] if c else "new" if ins[0][1].d["recv"].op in ("L.var", "L.tmp", "L.elem") or pushes else "?"
            if got != want:
                names = {"pMicroClusters": "a potential micro-cluster", "oMicroClusters": "an outlier micro-cluster", "new": "a new micro-cluster", "?": "something else"}
                (ck.und if got == "?" else ck.bad)(R, inst, "the point goes into %s instead of %s (%s)" % (names[got], names[want], sit), W)
                return
            if c:
                i = noepoch(c[1])
                if near_.get(i) != c[0] and not (cval(i) == 0 and g["nP" if c[0] == "pMicroClusters" else "nO"] == 1):
                    (ck.bad if i in near_ or isconst(i) else ck.und)(R, inst, "the point goes into number %s of %s, not the nearest one" % (show(i)[:60], c[0]), W)
                    return
                if c[0] in rad and noepoch(rad[c[0]][1]) is not i:
                    ck.bad(R, inst, "the radius of another micro-cluster is compared", W)
                    return
            promote = want == "oMicroClusters" and g["w"] > 2
            if want == "oMicroClusters":
                for x, (cc, after, t) in wt.items():
                    if cc is None or cc[0] != "oMicroClusters" or noepoch(cc[1]) is not noepoch(c[1]) or not t:
                        ck.und(R, inst, "weight of %s" % show(x)[:80], W)
                        return
                    if not after:
                        ck.bad(R, inst, "the weight is compared before the point is inserted", W)
                        return
            toP = [e for n, e in pushes if n == "pMicroClusters"]
            toO = [e for n, e in pushes if n == "oMicroClusters"]
            if want == "new":
                if len(toO) != 1 or toP or erases:
                    (ck.bad)(R, inst, "a new micro-cluster is added %d times to the outliers and %d times to the potential ones (%s)" % (len(toO), len(toP), sit), W)
                    return
                if flat(s).index(toO[0]) < flat(s).index(ins[0][1]) and not contof(ins[0][1].d["recv"]):
                    ck.bad(R, inst, "the new micro-cluster is stored before the point is inserted", W)
                    return
                continue
            if toO:
                ck.bad(R, inst, "an outlier micro-cluster is added although the point was taken (%s)" % sit, W)
                return
            if promote != bool(toP) or promote != bool(erases):
                ck.bad(R, inst, "an outlier micro-cluster of weight %s for a limit of 2 %s" % (g["w"], "is copied to the potential ones but stays an outlier" if toP and not erases else "is dropped" if erases and not toP else "is made a potential one" if toP else "stays an outlier"), W)
                return
            if promote:
                e = erases[0][1]
                if len(toP) > 1 or len(erases) > 1 or erases[0][0] != "oMicroClusters" or noepoch(e.d["pos"]) is not noepoch(c[1]):
                    d = erases[0][0] != "oMicroClusters" or not contains(e.d["pos"], lambda x: x.op in ("call", "lo", "lv", "sel")) or diff(noepoch(e.d["pos"]), noepoch(c[1]))
                    (ck.bad if d else ck.und)(R, inst, "number %s of %s is removed when an outlier is promoted" % (show(e.d["pos"])[:60], erases[0][0]), W)
                    return
                evs = flat(s)
                if evs.index(e) < evs.index(toP[0]) and contof_val(toP[0].d["val"]):
                    ck.bad(R, inst, "the promoted micro-cluster is removed before it is copied", W)
                    return
                v = toP[0].d["val"]
                if not contains(v, lambda x: x.op == "L.fld" and x.a[1] == "oMicroClusters" or x.op == "init" and x.a[0].op == "L.fld" and x.a[0].a[1] == "oMicroClusters"):
                    (ck.bad if v.op in ("obj", "ctor") else ck.und)(R, inst, "promoted micro-cluster %s" % show(v)[:80], W)
                    return
    ck.ok(R, inst, "each point is inserted once: nearest potential micro-cluster within epsilon, else nearest outlier (promoted above the limit), else a new outlier", W)


def contof_val(v):
    return v.op == "at" and v.a[0].op == "erased"


def stream(prog, ck, fn):
    W, inst, R = w(fn), "denStream", "every point"
    sts = states(prog, ck, fn, R, OPQ | {"insertPoint", "cluster", "merging", "getWeight"})
    if sts is None:
        return
    inData = par(fn, 0)
    data = getf(inData, "originalData")
    found = set()
    done = set()

    def verd(rule, i, good, text):
        if (rule, i) in done:
            return
        done.add((rule, i))
        (ck.ok if good else ck.bad if good is False else ck.und)(rule, i, text, W)

    for s in sts:
        if s.atoms.get(nz(size(data))) is False:
            continue
        lab = next((e for e in flat(s) if e.k == "call" and e.d["name"] == "dbscan::cluster"), None)
        if lab is None:
            ck.und(R, inst, "initial clustering not recognised", W)
            return
        L = lab.d["res"]
        N = lab.d["args"][3]
        if noepoch(lab.d["args"][0]) is not data:
            ck.und(R, inst, "clustering of %s" % show(lab.d["args"][0])[:60], W)
            return
        for r, ctx in recs([s]):
            if ctx:
                continue
            evs = [e for k, p in r.paths for e in flat(p)]
            if any(e.k == "call" and e.d["name"] == "denStream::merging" for e in evs):
                found.add("stream")
                one_stream(ck, verd, r, data, N, s)
            elif any(e.k == "call" and e.d["name"] == "microCluster::insertPoint" for e in evs):
                found.add("initial")
                one_initial(ck, verd, r, data, N, L)
        v = getf(s.ret, "originalData")
        returned(ck, verd, s, v)
    for x, rule in (("stream", R), ("initial", R)):
        if x not in found:
            ck.und(rule, x, "loop not recognised", W)


def one_initial(ck, verd, r, data, N, L):
    R, inst = "every point", "initial"
    iv, bad = None, None
    for x in r.ivs:
        ok, why = verdict(r, x, INT(0), N)
        if ok:
            iv = x
        elif ok is False:
            bad = why
    if iv is None:
        return verd(R, inst, False if bad else None, "not every one of the first %s points is taken: %s" % (show(N), bad))
    if early(r):
        return verd(R, inst, False, "the loop over the first points may stop early")
    own = at(L, iv)
    for k, p in r.paths:
        ins = [e for e in flat(p) if e.k == "call" and e.d["name"] == "microCluster::insertPoint"]
        rel = {a: b for a, b in p.atoms.items() if not any(a in alt for alt in r.hdr) and contains(a, lambda x: x is iv)}
        for l in (-1, 1, 2, 3):
            okk, rest = holds(rel, {own: l})
            if not okk:
                continue
            if rest:
                return verd(R, inst, None, "depends on %s" % txt(rest)[:120])
            if len(ins) != (l > 0):
                return verd(R, inst, False, "a point with label %d is inserted %d times" % (l, len(ins)))
            if l > 0:
                c = contof(ins[0].d["recv"])
                if c is None or c[0] != "pMicroClusters":
                    return verd(R, inst, None, "inserted into %s" % show(ins[0].d["recv"])[:60])
                x = value(noepoch(c[1]), {own: l, noepoch(own): l})
                if x is None:
                    return verd(R, inst, None, "inserted into number %s" % show(c[1])[:60])
                if x != l - 1:
                    return verd(R, inst, False, "a point with label %d goes into micro-cluster number %d" % (l, x))
                a = ins[0].d["args"][0]
                if noepoch(a) is not noepoch(at(data, iv)):
                    b = a.op == "at" and a.a[0] is data and diff(a.a[1], iv)
                    return verd(R, inst, False if b else None, "for point %s the point %s is inserted" % (show(iv), show(a)[:60]))
    verd(R, inst, True, "each clustered point into the micro-cluster of its label, noise into none")


def one_stream(ck, verd, r, data, N, s):
    R, inst = "every point", "stream"
    iv = None
    bad = None
    for x in r.ivs:
        ok, why = verdict(r, x, N, size(data))
        if ok:
            iv = x
        elif ok is False:
            bad = why
        elif r.ivs[x][1] == 1 and iv is None and isconst(r.ivs[x][0]):
            bad = "it starts at %s, the first %s were clustered" % (show(r.ivs[x][0]), show(N))
    if iv is None:
        return verd(R, inst, False if bad else None, "not every later point is streamed: %s" % bad)
    if early(r):
        return verd(R, inst, False, "the stream may end before the last point")
    for k, p in r.paths:
        ms = [e for e in flat(p) if e.k == "call" and e.d["name"] == "denStream::merging"]
        if len(ms) != 1:
            g = [(a, b) for a, b in p.atoms.items() if not any(a in alt for alt in r.hdr) and contains(a, lambda x: x.op == "lv" and x.a[0] == r.lid)]
            return verd(R, inst, False if not ms or len(ms) > 1 else None, "a point is merged %d times when %s" % (len(ms), txt(g)[:150]))
        a = ms[0].d["args"]
        if noepoch(a[0]) is not data or a[1] is not iv:
            return verd(R, inst, False if diff(a[1], iv) else None, "point %s is merged in pass %s" % (show(a[1])[:60], show(iv)))
        prune(ck, verd, r, p, iv)
    clock(ck, verd, r)
    verd(R, inst, True, "each later point is merged once, in order")


def clock(ck, verd, r):
    """the time passed to merging advances by one every streamSpeed points"""
    R, inst = "every point", "time"
    cnt = None
    for k, p in r.paths:
        ms = next((e for e in flat(p) if e.k == "call" and e.d["name"] == "denStream::merging"), None)
        t = noepoch(ms.d["args"][2])
        ts = [x for x in subterms(t) if x.op == "lv" and x.a[0] == r.lid and x.a[1].op in ("L.fld", "L.var")]
        if len(ts) != 1 or diff(t, ts[0]) is None:
            return verd(R, inst, None, "time %s" % show(t)[:60])
        st = diff(t, ts[0])
        for h in r.H:
            if h is ts[0].a[1] or h.op != "L.var":
                continue
            old, new = lv(r, h), p.store.get(h, lv(r, h))
            sp = [x for a in p.atoms for x in subterms(a) if x.op == "lv" and x.a[0] == r.lid and x.a[1].op == "L.fld" and x.a[1].a[1] == "streamSpeed"]
            if not any(contains(a, lambda x: x is old) and any(contains(a, lambda y: y is q) for q in sp) for a in p.atoms):
                continue
            cnt = h
            for n in range(0, 4):
                env = {old: n}
                for q in sp:
                    env[q] = 4
                okk, rest = holds({a: b for a, b in p.atoms.items() if contains(a, lambda x: x is old)}, env)
                if not okk:
                    continue
                want, wn = (1, 0) if n + 1 == 4 else (0, n + 1)
                x = value(new, env)
                if x is None:
                    return verd(R, inst, None, "count of points %s" % show(new)[:60])
                if (st, x) != (want, wn):
                    return verd(R, inst, False, "after %d of 4 points per unit, the next one moves the time by %d and the count to %s" % (n, st, x))
    verd(R, inst, True if cnt is not None else None, "advances by one every streamSpeed points" if cnt is not None else "not recognised")


def prune(ck, verd, r, p, iv):
    for e in p.ev:
        if e.k != "loop":
            continue
        q = e.rec
        er = [(k, s, x) for k, s in q.paths for x in flat(s) if x.k == "erase" and listname(x.d["place"])]
        if not er:
            continue
        nm = listname(er[0][2].d["place"])
        inst = "pruning " + nm
        R = "pruned"
        h = er[0][2].d["place"]
        C = lv(q, h)
        pos = None
        for hh in q.H:
            for k, s, x in er:
                v = s.store.get(hh, lv(q, hh))
                pp = x.d["pos"]
                if contains(pp, lambda z: z is lv(q, hh)):
                    pos = hh
        if pos is None:
            return verd(R, inst, None, "position not recognised")
        i = lv(q, pos)
        i0 = q.init.get(pos)
        i0 = i0.a[1] if i0 is not None and i0.op in ("iter", "riter") else i0
        if i0 is None or cval(i0) != 0:
            return verd(R, inst, False if i0 is not None and cval(i0) is not None else None, "the sweep starts at %s" % (show(i0) if i0 is not None else "?"))
        hd = [a for alt in q.hdr for a in alt]
        if not any(a.op == "<" and a.a[0] is i and a.a[1] is size(C) for a in hd):
            return verd(R, inst, False if any(a.op == "<" and a.a[0] is i and diff(a.a[1], size(C)) for a in hd) else None, "the sweep does not reach the end of the list")
        lim = None
        for k, s in q.paths:
            if k != "end":
                return verd(R, inst, False, "the sweep may stop before the end of the list")
            xs = [x for x in flat(s) if x.k == "erase"]
            np_ = s.store.get(pos, i)
            np_ = np_.a[1] if np_.op in ("iter", "riter") else np_
            if len(xs) > 1:
                return verd(R, inst, None, "two elements erased in one pass")
            if xs and xs[0].d["pos"] is not i:
                return verd(R, inst, False if diff(xs[0].d["pos"], i) else None, "number %s is erased when number %s is light" % (show(xs[0].d["pos"]), show(i)))
            st = diff(np_, i)
            if st is None:
                return verd(R, inst, None, "next position %s" % show(np_)[:60])
            if xs and st != 0:
                return verd(R, inst, False, "after an erased micro-cluster the next one is not examined")
            if not xs and st != 1:
                return verd(R, inst, False if st != 1 else None, "a micro-cluster that stays moves the sweep by %d" % st)
            # the limit
            cur = [x.d["res"] for x in flat(s) if x.k == "call" and x.d["name"] == "microCluster::getWeight"]
            if len(cur) != 1:
                return verd(R, inst, None, "%d weights compared" % len(cur))
            rel = {noepoch(a): b for a, b in s.atoms.items() if contains(a, lambda x: x is cur[0])}
            for g in grid(w=(0.5, 1.0, 1.5, 1.9, 2.1, 3.0), t=(40,), c=(30, 36, 40)):
                env = {noepoch(cur[0]): g["w"]}
                tp = 2
                lam = 0.5
                for a in rel:
                    for x in subterms(a):
                        f = x.a[0].a[1] if x.op == "init" and x.a[0].op == "L.fld" else x.a[1] if x.op == "fld" else x.a[1].a[1] if x.op == "lv" and x.a[1].op == "L.fld" else None
                        if f in ("lambda", "timestamp", "beta", "mu", "Tp", "creationTime"):
                            env.setdefault(x, {"lambda": lam, "timestamp": g["t"], "beta": 0.2, "mu": 10, "Tp": tp, "creationTime": g["c"]}[f])
                okk, rest = holds(rel, env)
                if rest:
                    return verd(R, inst, None, "limit depends on %s" % txt(rest)[:150])
                if not okk:
                    continue
                if nm == "pMicroClusters":
                    limit = 2.0
                else:
                    limit = (2 ** (-lam * (g["t"] - g["c"] + tp)) - 1) / (2 ** (-tp * lam) - 1)
                if abs(g["w"] - limit) < 1e-6:
                    continue
                if bool(xs) != (g["w"] < limit):
                    return verd(R, inst, False, "a micro-cluster of weight %s with the limit %.4g %s" % (g["w"], limit, "is dropped" if xs else "is kept"))
        verd(R, inst, True, "each one once, dropped iff its weight is below the limit")


def returned(ck, verd, s, v):
    R, inst = "returned", "centres"
    r = next((r for r, c in recs([s]) if v.op == "lo" and r.lid == v.a[0]), None)
    if r is None or v.a[1] not in r.init:
        return verd(R, inst, None, "result %s" % show(v)[:80])
    h = v.a[1]
    i0 = r.init[h]
    C = None
    for k, p in r.paths:
        x = p.store.get(h, lv(r, h))
        for t in subterms(x):
            if t.op in ("lo", "init") and contains(t, lambda z: z.op == "L.fld" and z.a[1] in CL) and (t.op == "init" and t.a[0].op == "L.fld" or t.op == "lo" and t.a[1].op == "L.fld"):
                C = t
    if C is None:
        return verd(R, inst, None, "centres of %s" % show(v)[:80])
    nm = C.a[1].a[1] if C.op == "lo" else C.a[0].a[1]
    if nm != "pMicroClusters":
        return verd(R, inst, False, "the centres of %s are returned" % nm)
    iv, bad = None, None
    for x in r.ivs:
        ok, why = verdict(r, x, INT(0), size(C))
        if ok:
            iv = x
        elif ok is False:
            bad = why
    if iv is None:
        return verd(R, inst, False if bad else None, "not every centre is returned: %s" % bad)
    if early(r):
        return verd(R, inst, False, "the loop may stop before the last centre")
    for k, p in r.paths:
        x = p.store.get(h, lv(r, h))
        if i0.op == "empty":
            e = x.a[1] if x.op == "push" and x.a[0] is lv(r, h) else None
        else:
            if i0.op != "filled" or i0.a[0] is not size(C):
                return verd(R, inst, False if i0.op == "filled" and diff(i0.a[0], size(C)) else None, "%s centres are returned" % show(i0)[:60])
            e = x.a[2] if x.op == "upd" and x.a[0] is lv(r, h) and x.a[1] is iv else None
        if x is lv(r, h):
            g = [(a, b) for a, b in p.atoms.items() if contains(a, lambda z: z is iv) and not any(a in alt for alt in r.hdr)]
            return verd(R, inst, False, "a centre is left out when %s" % txt(g))
        if e is not getf(at(C, iv), "center"):
            return verd(R, inst, None, "each result is %s" % (show(e)[:80] if e is not None else show(x)[:80]))
    verd(R, inst, True, "the centre of every potential micro-cluster, once")
