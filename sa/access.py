"""Accesses that the conditions on their own path show to be outside their container, or through a null pointer."""
from .terms import *
from .loops import lin, addl, bound, loops_of
from .engine import Engine, PathLimit, Undecided, walk_ev
from .common import fmt_guards, nz, mk, INT, add

NULL = ("null",)


def facts(G, base):
    """(upper bounds, lower bounds, other) about base in the atoms: base <= term / base >= term"""
    ub, lb, other = [], [], 0
    for a, b in G.items():
        if a.op == "<" or a.op in ("==", "nz"):
            k = bound(base, a, b)
            if k is None:
                if a.op == "==" and b and base in lin_terms(a):
                    other += 1
                continue
            if k[0] == "ub":
                ub.append(addl(lin(k[1]), ({}, 1), -1))
            elif k[0] == "lb":
                lb.append(lin(k[1]))
            else:
                other += 1
    return ub, lb, other


def lin_terms(a):
    out = set()
    for x in a.a:
        if isinstance(x, T):
            out |= set(lin(x)[0])
    return out


def within(G, n, i):
    """the conditions say i < n (where n is 0, the path is no path)"""
    d, k = lin(i)
    dn = lin(n)
    for base in d:
        for u in facts(G, base)[0]:
            e, m = addl(addl(u, ({}, k), 1), dn, -1)
            if not e and m < 0:
                return True
    return False


def outside(G, c, i):
    """text when the index i is (or, by the very conditions that limit it, may be) outside c"""
    n = size(c)
    if within(G, n, i):
        return ""
    if c.op == "empty" or G.get(nz(n)) is False:
        return "the container is empty"
    if n.op == "int" and n.a[0] == 0:
        return "the container is empty"
    d, k = lin(i)
    if not d:
        if k < 0:
            return "the index is %d" % k
        ub, lb, other = facts(G, n)
        for u in ub:
            if not u[0] and u[1] <= k:
                return "element %d is taken from at most %d" % (k, u[1])
        if n.op == "int" and n.a[0] <= k:
            return "element %d is taken from %d" % (k, n.a[0])
        return ""
    if len(d) != 1 or list(d.values())[0] != 1:
        return ""
    base = list(d)[0]
    ub, lb, other = facts(G, base)
    if other:
        return ""
    dn = lin(n)
    near = []
    for u in ub:
        e, m = addl(addl(u, ({}, k), 1), dn, -1)
        if not e:
            near.append(m)
        else:
            return ""
    for l in lb:
        e, m = addl(addl(l, ({}, k), 1), dn, -1)
        if not e and m >= 0:
            return "the index is at least the number of elements"
    if near and min(near) >= 0:
        return "the index may be %s" % ("the number of elements" if min(near) == 0 else "the number of elements + %d" % min(near))
    return ""


def past(c, i):
    e, m = addl(lin(i), lin(size(c)), -1)
    return "the index is at least the number of elements in the first round" if not e and m >= 0 else ""


def below(i, recs):
    d, k = lin(i)
    for x in d:
        r = recs.get(x.a[0]) if x.op == "lv" else None
        iv = r and r.ivs.get(x)
        if iv and isinstance(iv[1], int) and iv[1] < 0 and len(r.hdr) == 1 and list(d) == [x] and d[x] == 1:
            lb = [b[1] for b in (bound(x, a, y) for a, y in r.hdr[0].items()) if b and b[0] == "lb"]
            if len(lb) == 1 and not lin(lb[0])[0] and lin(lb[0])[1] + k < 0:
                return "the index goes down to %d" % (lin(lb[0])[1] + k)
    return ""


def null(G, p):
    if p.op in NULL:
        return True
    if G.get(nz(p)) is False:
        return True
    return any(b and a.op == "==" and p in a.a and any(x.op in NULL for x in a.a) for a, b in G.items())


def first(i, recs):
    """the index in the first round of a loop that counts down without an upper bound in its header"""
    for x in terms_of(i):
        if x.op == "lv":
            r = recs.get(x.a[0])
            iv = r and r.ivs.get(x)
            if iv and isinstance(iv[1], int) and iv[1] < 0 and len(r.hdr) == 1 and not any((bound(x, a, b) or ("",))[0] == "ub" for a, b in r.hdr[0].items()):
                d, k = lin(i)
                if list(d) == [x] and d[x] == 1:
                    return add(iv[0], INT(k)) if k else iv[0]
    return None


def opening(G, c, i, ctx):
    """the same access in the first round of the loops around it"""
    for r in reversed(ctx):
        m = {mk("lv", r.lid, h): v for h, v in r.init.items() if v is not None}
        memo = {}
        c, i, g = subst(c, m, memo), subst(i, m, memo), {}
        for a, b in G.items():
            x = subst(a, m, memo)
            if x is TRUE or x is FALSE or cval(x) is not None:
                if (x is TRUE or x is not FALSE and cval(x) != 0) != b:
                    return ""
                continue
            if g.get(x, b) != b:
                return ""
            g[x] = b
        G = g
        t = outside(G, c, i)
        if t:
            return t + " in the first round"
    return ""


def check(prog, fn, dyn=None, cap=3000):
    """[(text, event)] of wrong accesses in one function, calls left alone"""
    key = ("access", fn["key"])
    memo = prog.__dict__.setdefault("_access", {})
    if key in memo:
        return memo[key]
    out, seen = [], set()
    en = Engine(prog, opaque=lambda f: True, nomerge=True, cap=cap)
    try:
        sts = en.run(fn, dyn=dyn or fn.get("cls"))
    except (PathLimit, Undecided, RecursionError):
        memo[key] = None
        return None
    n = 0

    recs = {}

    def evs(lst, ctx):
        for e in lst:
            if e.k == "loop":
                recs[e.rec.lid] = e.rec
                for kind, p in e.rec.paths:
                    yield from evs(p.ev, ctx + [e.rec])
            yield e, ctx
    for s in sts:
        for e, ctx in evs(s.ev, []):
            t = ""
            if e.k == "index":
                n += 1
                c, i = e.c, e.i
                what = "%s[%s]" % (show(e.c)[:80], show(e.i)[:60])
            elif e.k == "deref_iter" and e.it.op == "iter" and len(e.it.a) == 2:
                n += 1
                c, i = e.c, e.it.a[1]
                what = "the element at %s" % show(e.it)[:100]
            elif e.k == "deref":
                n += 1
                if null(e.g, e.ptr):
                    t = "the pointer is null"
                c = None
                what = "*%s" % show(e.ptr)[:100]
            else:
                continue
            if c is not None:
                t = outside(e.g, c, i)
                if not t:
                    f = first(i, recs)
                    t = f is not None and past(c, f) or below(i, recs)
                if not t:
                    t = opening(e.g, c, i, ctx)
            if t and (e.l, what, t) not in seen:
                seen.add((e.l, what, t))
                out.append(("%s is used although %s" % (what, t), e))
    m, bad = loops(en, sts)
    for t, e in bad:
        if (e.l, t) not in seen:
            seen.add((e.l, t))
            out.append((t, e))
    memo[key] = (n + m, out)
    return memo[key]


STEADY = {"lv", "int", "real", "init", "size", "+", "-", "*", "<", "==", "nz", "iter", "begin", "end", "null", "empty", "not", "var", "this", "param", "str", "bool", "cast", "i2d", "b2i"}


def terms_of(t, out=None):
    out = set() if out is None else out
    if isinstance(t, T) and t not in out:
        out.add(t)
        for x in t.a:
            if isinstance(x, T):
                terms_of(x, out)
            elif isinstance(x, tuple):
                for y in x:
                    terms_of(y, out)
    return out


def stuck(en, r, q):
    """the round changes nothing that decided it was taken: the loop never leaves it"""
    new = [a for a in q.atoms if a not in r.entry]
    for a in new:
        for x in terms_of(a):
            if x.op not in STEADY and x.op not in ("fld", "loc", "var"):
                return False
            if x.op == "lv" and x.a[0] == r.lid and en.read(q, x.a[1]) is not x:
                return False
    return bool(new)


def away(r):
    """text when the loop counts away from the bound that ends it"""
    if r.kind == "do" or len(r.hdr) != 1 or any(k not in ("end", "cont") for k, q in r.paths):
        return ""
    for iv, (start, step) in r.ivs.items():
        if not isinstance(step, int) or not step:
            continue
        ks = [(bound(iv, a, b), a) for a, b in r.hdr[0].items()]
        ks = [k for k, a in ks if k]
        if not ks:
            continue
        d, k0 = lin(start)
        if step < 0 and all(k[0] == "ub" for k in ks) and not d and any(lin(k[1])[0] for k in ks):
            return "it counts down from %d although it runs while it is below %s" % (k0, show(ks[0][1])[:80])
        if step > 0 and all(k[0] == "lb" for k in ks):
            return "it counts up although it runs while it is at least %s" % show(ks[0][1])[:80]
        if step < 0 and all(k[0] == "ne" for k in ks) and not d and k0 == 0 and any(lin(k[1])[0] for k in ks):
            return "it steps back from the first element"
    return ""


def loops(en, sts):
    """[(rule, text, loop record)] of loops that cannot end the way they are meant to"""
    out, seen = [], set()

    def rec(lst):
        for e in lst:
            if e.k == "loop":
                yield e
                for kind, p in e.rec.paths:
                    yield from rec(p.ev)
    n = 0
    for s in sts:
        for e in rec(s.ev):
            r = e.rec
            if id(r) in seen:
                continue
            seen.add(id(r))
            n += 1
            t = away(r)
            if t:
                out.append(("the loop never reaches its bound: " + t, e))
            for kind, q in r.paths:
                if kind in ("end", "cont") and stuck(en, r, q):
                    out.append(("the loop repeats a round that changes nothing it depends on (%s)" % fmt_guards({a: b for a, b in q.atoms.items() if a not in r.entry})[:200], e))
                    break
    return n, out


TABLE = {
    "C03": ["argParser::"],
    "C05": ["distMatrixPipe::runPipe", "neighGraphPipe::runPipe", "utils::vectors_distance", "utils::feature_distance"],
    "C06": [c + m for c in ("simplexTree::", "indSimplexTree::", "simplexArrayList::", "simplexBase::") for m in ("insert$", "recurseInsert", "insertIterative", "expandDimensions", "find$", "findWeight", "findIndex", "getWeight", "search", "locate", "haveChild", "simplexCount", "vertexCount", "getSize", "sortAndBuildGraph", "compareByWeight")] + ["ripsPipe::runPipe"],
    "C07": [c + m for c in ("simplexTree::", "indSimplexTree::", "simplexArrayList::", "simplexBase::") for m in ("getAllEdges", "getDimEdges", "getIndexEdges", "getd0Pairs")],
    "C08": [c + m for c in ("simplexTree::", "indSimplexTree::", "simplexArrayList::") for m in ("clear", "deletion", "deleteIterative", "deleteIndexRecurse")],
    "C09": ["fastPersistence::runPipe", "persistencePairs::runPipe", "optPersistencePairs::runPipe", "boundaryPipe::runPipe", "upscalePipe::runPipe"],
    "C10": ["writeOutput::", "readInput::"],
    "C11": ["basePipe::runPipeWrapper", "preprocessor::runPreprocessorWrapper", "pipePacket::getSize", "runPipeline"],
    "C12": ["utils::setXOR", "utils::symmetricDiff", "utils::setIntersect", "utils::setUnion", "utils::intersect", "utils::getSubsets", "utils::nearestNeighbors", "persistencePairs::checkFace", "optPersistencePairs::checkFace", "boundaryPipe::checkFace"],
    "C13": [c + m for c in ("persistencePairs::", "optPersistencePairs::", "boundaryPipe::") for m in ("createBoundaryMatrix", "createBoundarySets", "getRankNull", "nSimplices", "boundaryMatrix", "reduceBoundaryMatrix", "extractBoundaries")] + ["simplexBase::graphEntry::", "optPersistencePairs::runPipe", "boundaryPipe::runPipe"],
    "C14": ["utils::separatePartitions", "utils::separateBoundaryPartitions", "utils::computeMaxRadius", "utils::mapPartitionIndexing", "processReducedWrapper", "processUpscaleWrapper", "processDataWrapper"],
    "C15": ["kMeansPlusPlus::runPreprocessor"],
    "C16": ["kdTree::", "kdNode::", "dbscan::", "newKdNodePtr", "sortByLevel"],
    "C17": ["denStream::", "microCluster::"],
    "C18": ["slidingWindow::runPipe$", "slidingWindow::nnBasedEvaluator", "slidingWindow::deleteNNstats", "slidingWindow::runComplexInitializer", "slidingWindow::updateStats", "naiveWindow::", "simplexTree::deleteIterative", "simplexTree::insertIterative"],
    "C20": ["outputData"],
    "C21": ["slidingWindow::deleteNNstats", "slidingWindow::updateStats"],
}


def apply(prog, ck):
    """every indexed or dereferenced element and every loop of the functions a property is anchored in"""
    pats = TABLE.get(ck.pid, ())
    n = m = 0
    for fn in sorted(prog.functions.values(), key=lambda f: f["key"]):
        if not fn.get("body") or not any(fn["name"].startswith(p) if not p.endswith("$") else fn["name"] == p[:-1] for p in pats) and not (ck.pid == "C20" and fn["name"].endswith("::outputData")):
            continue
        r = check(prog, fn)
        if r is None:
            ck.und("access", fn["name"], "too many paths")
            continue
        n += 1
        m += r[0]
        if not r[1]:
            ck.ok("access", fn["key"][:80], "%d element accesses and loops: none is outside its container on its own path, every loop moves towards its end" % r[0])
        for t, e in r[1]:
            ck.bad("access", "%s/%s" % (fn["name"], t[:60]), t, e.where())
    ck.count("accesses and loops", m)
