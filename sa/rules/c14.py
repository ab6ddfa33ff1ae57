"""C14 partitions: points and their indices are binned together into every bin they belong to, and results found inside a bin are mapped back to the full data."""
from ..common import *
from ..loops import *
from ..trees import noepoch
from .c09 import w
from .c12 import par
from .c13 import recs, lv

TITLE = "partitions and the mapping back"
OPQ = {"vectors_distance", "writeDebug", "writeLog", "print1DVector", "print2DVector"}
DIST = "utils::vectors_distance"


def run(prog, ck):
    for fn in sorted(prog.functions.values(), key=lambda f: f["key"]):
        n, np = fn["name"], len(fn["params"])
        if n == "utils::separatePartitions":
            if fn["params"][0]["ty"] in ("int", "unsigned int"):
                bylabel(prog, ck, fn)
            else:
                byradius(prog, ck, fn)
        elif n == "utils::separateBoundaryPartitions":
            byset(prog, ck, fn)
        elif n == "utils::mapPartitionIndexing":
            mapback(prog, ck, fn)
        elif n == "utils::computeMaxRadius":
            radius(prog, ck, fn)
        elif n == "processReducedWrapper":
            reduced(prog, ck, fn)
    ck.expect("binned", 3)
    ck.expect("bins", 3)
    ck.expect("mapped back", 1)
    ck.expect("radius", 1)
    ck.expect("each partition", 1)
    ck.expect("merged", 1)


def states(prog, ck, fn, rule, opq=OPQ):
    try:
        return [s for s in Engine(prog, opaque=lambda f: f["short"] in opq and f["key"] != fn["key"], nomerge=True).run(fn) if s.status == "ret"]
    except (PathLimit, Undecided) as e:
        ck.und(rule, fn["short"], str(e), w(fn))
        return None


def isdist(t):
    """(x, y) when t is the distance of two points"""
    if t.op == "call" and t.a[0] == DIST:
        v = [x for x in t.a[1:] if isinstance(x, T)]
        return (v[-2], v[-1]) if len(v) >= 2 else None
    return None


def distances(t):
    return [x for x in subterms(t) if isdist(x)]


# ---------------------------------------------------------------- bins

def writes(v, cur):
    """[(bin, element)] pushed to value v, a container of containers, since cur; None when not of that form"""
    out = []
    for _ in range(6):
        if v is cur:
            return out[::-1]
        if v.op == "upd":
            b, k, n = v.a[0], v.a[1], v.a[2]
            if n.op in ("push", "app") and noepoch(n.a[0]) is noepoch(at(b, k)):
                out.append((k, n.a[1]))
                v = b
                continue
        return None
    return None


class Bins:
    """how the two halves of a result are filled: per path of the innermost loop"""
    def __init__(self, sts, vals):
        self.rs = recs(sts)
        self.ok = False
        self.why = ""
        self.chain = []
        self.inits = []
        cur = list(vals)
        for d in range(4):
            if not all(v.op == "lo" for v in cur) or len({v.a[0] for v in cur}) != 1:
                self.why = "the bins are not filled in one loop" if not d else "inner loop not recognised"
                return
            r = next((x for x, c in self.rs if x.lid == cur[0].a[0]), None)
            if r is None:
                self.why = "loop not found"
                return
            self.chain.append(r)
            self.hs = [v.a[1] for v in cur]
            self.inits.append([r.init.get(h) for h in self.hs])
            inner = {tuple(self.val(s, r, h) for h in self.hs) for k, s in r.paths if k == "end"}
            nxt = [t for t in inner if all(x.op == "lo" for x in t)]
            if nxt and len({t[0].a[0] for t in nxt}) == 1 and not any(x is lv(r, h) for t in inner for x, h in zip(t, self.hs)):
                cur = list(nxt[0])
                q = next((x for x, c in self.rs if x.lid == cur[0].a[0]), None)
                if q is not None and all(q.init.get(v.a[1]) is lv(r, h) for v, h in zip(cur, self.hs)):
                    continue
                self.why = "nested loops not recognised"
                return
            self.ok = True
            return

    def val(self, s, r, h):
        v = s.store.get(h)
        return v if v is not None else lv(r, h)

    def paths(self):
        r = self.chain[-1]
        for k, s in r.paths:
            ws = [writes(self.val(s, r, h), lv(r, h)) for h in self.hs]
            yield k, s, ws


def begin(v):
    """number of empty bins an initial value holds"""
    if v is not None and v.op == "filled" and v.a[1].op == "empty":
        return v.a[0]
    return None


def counter(r, cont):
    """the loop's variable that ranges over the positions of cont: (iv, ok, why)"""
    best = None
    for iv in r.ivs:
        ok, why = verdict(r, iv, INT(0), size(cont))
        if ok:
            return iv, True, ""
        if best is None or (best[1] is None and ok is not None):
            best = (iv, ok, why)
    return best or (None, None, "no counted variable")


def full(ck, rule, inst, r, conts, what, where):
    """the loop visits every position of one of the containers; returns its variable"""
    bad = None
    for c in conts:
        iv, ok, why = counter(r, c)
        if ok:
            ev = [(k, s) for k, s in early(r)]
            if ev:
                g = "; ".join(("" if b else "not ") + show(a) for a, b in list(ev[0][1].atoms.items())[-2:])
                ck.bad(rule, inst, "not every %s is looked at: the loop may stop early when %s" % (what, g), where)
                return None
            return iv
        if ok is False and bad is None:
            bad = why
    if bad:
        ck.bad(rule, inst, "not every %s is looked at: %s" % (what, bad), where)
    else:
        ck.und(rule, inst, "range of the loop over every %s not recognised" % what, where)
    return None


def lockstep(ck, inst, fn, k, s, ws, data):
    """pushes of one pass as [(bin, point index)], or None (reported)"""
    W = w(fn)
    if any(x is None for x in ws):
        ck.und("binned", inst, "the way a bin is filled is not recognised", W)
        return None
    if len(ws) == 1:
        ids, pts = None, ws[0]
    else:
        ids, pts = ws
        if len(ids) != len(pts):
            ck.bad("binned", inst, "a pass adds %d point(s) and %d index(es), so the two lists of a bin no longer correspond" % (len(pts), len(ids)), W)
            return None
    out = []
    for n, (b, p) in enumerate(pts):
        if p.op != "at" or noepoch(p.a[0]) is not data:
            ck.und("binned", inst, "the value put into a bin is %s, not a data point" % show(p)[:80], W)
            return None
        if ids is not None:
            b2, i = ids[n]
            if b2 is not b:
                if diff(b2, b) not in (None, 0) or (b.op != b2.op):
                    ck.bad("binned", inst, "a point goes into bin %s but its index into bin %s" % (show(b), show(b2)), W)
                else:
                    ck.und("binned", inst, "bins %s and %s not shown to be the same" % (show(b), show(b2)), W)
                return None
            if i is not p.a[1]:
                ck.bad("binned", inst, "point %s is recorded under the index %s" % (show(p.a[1]), show(i)), W)
                return None
        out.append((b, p.a[1]))
    return out


def bins(prog, ck, fn, pair):
    sts = states(prog, ck, fn, "binned")
    if sts is None:
        return None
    res = []
    for s in sts:
        r = s.ret
        if pair:
            vals = (getf(r, "first"), getf(r, "second"))
        else:
            vals = (r,)
        if all(isinstance(v, T) and v.op == "lo" for v in vals):
            res.append(vals)
    if not res:
        ck.und("binned", inst_of(fn), "the returned bins are not recognised", w(fn))
        return None
    B = Bins(sts, res[-1])
    if not B.ok:
        ck.und("binned", inst_of(fn), B.why, w(fn))
        return None
    return B


def inst_of(fn):
    return fn["short"] + ("" if fn["short"] != "separatePartitions" else "(labels)" if fn["params"][0]["ty"] in ("int", "unsigned int") else "(radius)")


def nbins(ck, fn, B, want, names):
    inst, W = inst_of(fn), w(fn)
    for h, v in zip(B.hs, B.inits[0]):
        n = begin(v)
        if n is None:
            ck.und("bins", inst, "initial bins not recognised: %s" % (show(v) if v is not None else "?"), W)
            return
        d = [diff(n, x) for x in want]
        if any(x is not None and x >= 0 for x in d):
            if any(x == 0 for x in d):
                continue
            ck.und("bins", inst, "there are more bins than %s" % names, W)
            return
        if any(x is not None for x in d):
            ck.bad("bins", inst, "there are %s bins for %s" % (show(n), names), W)
            return
        ck.und("bins", inst, "number of bins %s not comparable with %s" % (show(n), names), W)
        return
    ck.ok("bins", inst, "one bin for each of %s" % names, W)


def bylabel(prog, ck, fn):
    B = bins(prog, ck, fn, True)
    if B is None:
        return
    inst, W = inst_of(fn), w(fn)
    k, data, labels = par(fn, 0), par(fn, 1), par(fn, 2)
    nbins(ck, fn, B, [k], "the k labels")
    if len(B.chain) != 1:
        ck.und("binned", inst, "more than one loop", W)
        return
    r = B.chain[0]
    iv = full(ck, "binned", inst, r, (labels, data), "point", W)
    if iv is None:
        return
    for kk, s, ws in B.paths():
        ps = lockstep(ck, inst, fn, kk, s, ws, data)
        if ps is None:
            return
        own = at(labels, iv)
        if not ps:
            g = [(a, b) for a, b in s.atoms.items() if contains(a, lambda x: x is iv) and not any(a in alt for alt in r.hdr)]
            rng = [a for a, b in g if a.op == "<" and own in a.a]
            if g and len(rng) == len(g):
                ck.und("binned", inst, "points are left out depending on %s" % show(rng[0]), W)
            else:
                ck.bad("binned", inst, "a point goes into no bin when %s" % "; ".join(("" if b else "not ") + show(a) for a, b in g), W)
            return
        if len(ps) > 1:
            ck.bad("binned", inst, "one pass puts %d points into bins" % len(ps), W)
            return
        b, i = ps[0]
        if i is not iv:
            d = diff(i, iv)
            (ck.bad if d else ck.und)("binned", inst, "pass %s adds point %s" % (show(iv), show(i)), W)
            return
        if b is not own:
            if b.op == "at" and b.a[0] is labels and diff(b.a[1], iv):
                ck.bad("binned", inst, "point %s goes into the bin of the label of point %s" % (show(i), show(b.a[1])), W)
            elif diff(b, own):
                ck.bad("binned", inst, "point %s goes into bin %s" % (show(i), show(b)), W)
            else:
                ck.und("binned", inst, "point %s goes into bin %s, its label is %s" % (show(i), show(b), show(own)), W)
            return
    ck.ok("binned", inst, "every point and its index go into the bin of its label", W)


def pairloops(ck, fn, B, rows, cols, rname, cname):
    """(row variable, column variable) of the two nested loops, in either nesting"""
    inst, W = inst_of(fn), w(fn)
    if len(B.chain) == 1:
        for r, ctx in B.rs:
            if ctx and ctx[-1] is B.chain[0] and early(r) and any(counter(r, c)[1] for c in cols + rows):
                ck.bad("binned", inst, "the search over every %s stops at the first one that fits" % (cname if any(counter(r, c)[1] for c in cols) else rname), W)
                return None
    if len(B.chain) != 2:
        ck.und("binned", inst, "%d nested loops instead of points by bins" % len(B.chain), W)
        return None
    o, i = B.chain
    first = None
    for conts, name in ((rows, rname), (cols, cname)):
        for c in conts:
            iv, ok, why = counter(o, c)
            if ok and first is None:
                first = name
    swap = first == cname
    a = full(ck, "binned", inst, o, cols if swap else rows, cname if swap else rname, W)
    if a is None:
        return None
    b = full(ck, "binned", inst, i, rows if swap else cols, rname if swap else cname, W)
    if b is None:
        return None
    return (b, a) if swap else (a, b)


def guards_of(s, B, vs):
    return [(a, b) for a, b in s.atoms.items() if contains(a, lambda x: x in vs) and not any(a in alt for r in B.chain for alt in r.hdr)]


def txt(g):
    return "; ".join(("" if b else "not ") + show(a) for a, b in g) or "always"


def byradius(prog, ck, fn):
    B = bins(prog, ck, fn, True)
    if B is None:
        return
    inst, W = inst_of(fn), w(fn)
    rad, cen, data, labels = (par(fn, i) for i in range(4))
    nbins(ck, fn, B, [size(cen)], "the centroids")
    p = pairloops(ck, fn, B, (labels, data), (cen,), "point", "centroid")
    if p is None:
        return
    i, j = p
    want = {at(data, i), at(cen, j)}
    for kk, s, ws in B.paths():
        ps = lockstep(ck, inst, fn, kk, s, ws, data)
        if ps is None:
            return
        g = guards_of(s, B, {i, j})
        near = None
        other = []
        for a, b in g:
            ds = distances(a)
            if a.op == "<" and ds and len(ds) == 1 and a.a[0] is ds[0] and a.a[1] is rad:
                near, d = b, ds[0]
            elif a.op == "<" and ds and len(ds) == 1 and a.a[1] is ds[0] and a.a[0] is rad:
                near, d = not b, ds[0]
            elif ds or contains(a, lambda x: x is rad):
                ck.und("binned", inst, "test %s not recognised" % show(a), W)
                return
            else:
                other.append((a, b))
                continue
            got = set(isdist(d))
            if got != want:
                if all(x.op == "at" and x.a[0] in (data, cen, labels) for x in got):
                    ck.bad("binned", inst, "point %s is put in bin %s by the distance of %s" % (show(i), show(j), " and ".join(sorted(show(x) for x in got))), W)
                else:
                    ck.und("binned", inst, "distance of %s" % " and ".join(sorted(show(x) for x in got)), W)
                return
        own = any(a.op == "==" and {noepoch(x) for x in a.a} == {at(labels, i), j} and b for a, b in other)
        if ps:
            if near is False and not own:
                ck.bad("binned", inst, "a point goes into a bin whose centroid is further away than the radius (%s)" % txt(g), W)
                return
            if near is None and not own:
                ck.bad("binned", inst, "a point goes into a bin without its distance being compared with the radius (%s)" % txt(g), W)
                return
            for b, x in ps:
                if b is not j or x is not i:
                    if diff(b, j) or diff(x, i) or (b is i and x is j) or (b.op == "at" and b.a[0] is labels):
                        ck.bad("binned", inst, "point %s is compared with centroid %s, but point %s is put into bin %s" % (show(i), show(j), show(x), show(b)), W)
                    else:
                        ck.und("binned", inst, "point %s into bin %s" % (show(x), show(b)), W)
                    return
            if len(ps) > 1:
                ck.bad("binned", inst, "one pass puts a point into its bin %d times" % len(ps), W)
                return
        elif near is not False:
            ck.bad("binned", inst, "a point within the radius of a centroid is left out of its bin when %s" % txt(g), W)
            return
    ck.ok("binned", inst, "every point and its index go into the bin of every centroid nearer than the radius", W)


def byset(prog, ck, fn):
    B = bins(prog, ck, fn, False)
    if B is None:
        return
    inst, W = inst_of(fn), w(fn)
    sets, data, labels = (par(fn, i) for i in range(3))
    nbins(ck, fn, B, [size(sets)], "the boundary lists")
    p = pairloops(ck, fn, B, (data, labels), (sets,), "point", "boundary list")
    if p is None:
        return
    i, j = p
    test = has(at(sets, j), at(labels, i))
    for kk, s, ws in B.paths():
        ps = lockstep(ck, inst, fn, kk, s, ws, data)
        if ps is None:
            return
        g = guards_of(s, B, {i, j})
        t = None
        for a, b in g:
            if noepoch(a) is noepoch(test):
                t = b
        more = [(a, b) for a, b in g if noepoch(a) is not noepoch(test) and not irrel(a, sets, labels)]
        for a, b in more:
            if a.op == "has" and t is None:
                ck.bad("binned", inst, "point %s is put in bin %s by %s" % (show(i), show(j), show(a)), W)
                return
        if more and t is True and not ps and all(a.op == "has" or a.op in ("<", "==", "nz") and all(x in (i, j) or cval(x) is not None for x in a.a) for a, b in more):
            ck.bad("binned", inst, "a point whose label is in the boundary is left out when %s" % txt(more), W)
            return
        more = [(a, b) for a, b in more if not (t is not None and bool(ps) == t)]
        if more:
            ck.und("binned", inst, "test %s not recognised" % show(more[0][0]), W)
            return
        if ps and t is not True:
            ck.bad("binned", inst, "a point goes into the bin of a boundary that does not name its label (%s)" % txt(g), W)
            return
        if not ps and t is not False:
            ck.bad("binned", inst, "a point whose label is in the boundary is left out when %s" % txt(g), W)
            return
        for b, x in ps:
            if b is not j or x is not i:
                ck.bad("binned", inst, "point %s into bin %s" % (show(x), show(b)), W) if diff(b, j) or diff(x, i) else ck.und("binned", inst, "point %s into bin %s" % (show(x), show(b)), W)
                return
        if len(ps) > 1:
            ck.bad("binned", inst, "one pass puts a point into its bin %d times" % len(ps), W)
            return
    ck.ok("binned", inst, "every point goes into the bin of every boundary list that names its label", W)


def irrel(a, sets, labels):
    return a.op == "nz" and a.a[0].op == "size"


# ---------------------------------------------------------------- mapping back

def mapback(prog, ck, fn):
    sts = states(prog, ck, fn, "mapped back")
    if sts is None:
        return
    inst, W = fn["short"], w(fn)
    ids, table = par(fn, 0), par(fn, 1)
    rs = recs(sts)
    outer = [r for r, c in rs if not c]
    hit = []
    for r in outer:
        for k, s in r.paths:
            for h in r.H:
                v = s.store.get(h)
                if v is not None and v.op == "upd" and v.a[0] is lv(r, h) and v.a[2].op == "struct" and "boundaryPoints" in v.a[2].a:
                    hit.append((r, h))
    if not hit:
        touched = [r for r in outer for h in r.H if r.init.get(h) is not None and noepoch(r.init[h]) is noepoch(table)]
        fin = [s for s in sts if any(k.op == "L.var" and noepoch(v) is noepoch(table) for k, v in s.store.items())]
        if outer and not touched and not written(sts, fn):
            ck.bad("mapped back", inst, "the entries of the table are left as they were", W)
        else:
            ck.und("mapped back", inst, "the loop that rewrites the entries is not recognised", W)
        return
    r, h = hit[0]
    tab = lv(r, h)
    iv = full(ck, "mapped back", inst, r, (tab, r.init[h], table), "entry", W)
    if iv is None:
        return
    for k, s in r.paths:
        v = s.store.get(h)
        g = [(a, b) for a, b in s.atoms.items() if contains(a, lambda x: x is iv) and not any(a in alt for alt in r.hdr)]
        if v is None or v is tab:
            if not any(empty_guard(a, b) for a, b in g):
                ck.bad("mapped back", inst, "an entry keeps its partition indices when %s" % txt(g), W)
                return
            continue
        if v.op != "upd" or v.a[0] is not tab or v.a[1] is not iv or v.a[2].op != "struct":
            ck.und("mapped back", inst, "entry written as %s" % show(v)[:90], W)
            return
        new = getf(v.a[2], "boundaryPoints")
        old = getf(at(tab, iv), "boundaryPoints")
        if noepoch(new) is noepoch(old):
            ck.bad("mapped back", inst, "an entry keeps its partition indices", W)
            return
        x = image(new, rs, old, ids, k)
        if x is True:
            continue
        (ck.bad if x and x[0] is False else ck.und)("mapped back", inst, x[1] if x else "new boundary points %s" % show(new)[:90], W)
        return
    ck.ok("mapped back", inst, "every boundary index of every entry is replaced by the index it stands for", W)


def written(sts, fn):
    for s in sts:
        for e, ctx, st in walk_ev(s.ev):
            if e.k in ("write", "lwrite", "push") and "bettiTable" in show(e.d.get("place")):
                return True
    return False


def empty_guard(a, b):
    return a.op == "nz" and a.a[0].op == "size" and not b or a.op == "<" and not b and cval(a.a[0]) == 0 and a.a[1].op == "size"


def image(new, rs, old, ids, k):
    """True when new holds ids[x] for every x of old; (False|None, why)"""
    o = noepoch(old)
    if new.op == "lo":
        q = next((x for x, c in rs if x.lid == new.a[0]), None)
        if q is None:
            return None, "loop not found"
        H = new.a[1]
        ini = q.init.get(H)
        if ini is None or ini.op != "empty":
            if ini is not None and noepoch(ini) is o:
                return False, "the new indices are added to the old ones"
            if ini is not None and ini.op in ("lv", "lo"):
                return False, "the indices of one entry are carried over to the next"
            return None, "the new set starts as %s" % (show(ini) if ini is not None else "?")
        for iv in q.ivs:
            okk, why = verdict(q, iv, INT(0), size(old))
            if okk is not None:
                break
        else:
            return None, "range of the loop over the indices not recognised"
        if not okk:
            return False, "not every index is mapped: " + why
        if early(q):
            return False, "the loop over the indices may stop early"
        for kk, s in q.paths:
            v = s.store.get(H)
            v = v if v is not None else lv(q, H)
            if v is lv(q, H):
                own = [(a, b) for a, b in s.atoms.items() if contains(a, lambda x: x is iv) and not any(a in alt for alt in q.hdr)]
                # leaving out an index already there is harmless
                if any(a.op == "has" and b and a.a[0] is v for a, b in own):
                    continue
                if own and all(a.op == "<" and contains(a, lambda x: x.op == "size" and x.a[0] is ids) for a, b in own):
                    return None, "indices outside the list are left out"
                return False, "an index is dropped when %s" % txt(own)
            if v.op not in ("ins", "push") or v.a[0] is not lv(q, H):
                return None, "set written as %s" % show(v)[:80]
            e = noepoch(v.a[1])
            if e is noepoch(at(ids, at(old, iv))):
                continue
            if e is noepoch(at(old, iv)):
                return False, "the partition index itself is kept"
            if e.op == "at" and e.a[0] is noepoch(ids) and e.a[1] is iv:
                return False, "the position within the entry is mapped instead of the index"
            if e.op == "at" and e.a[0] is noepoch(ids) and diff(e.a[1], noepoch(at(old, iv))):
                return False, "index %s is mapped instead of %s" % (show(e.a[1]), show(at(old, iv)))
            if diff(e, noepoch(at(ids, at(old, iv)))):
                return False, "the mapped index is %s" % show(e)
            return None, "element %s" % show(e)[:80]
        return True
    x = new
    if x.op in ("toset", "asset") and x.a:
        x = x.a[0]
    if x.op == "map" and noepoch(x.a[0]) is noepoch(size(old)):
        e = noepoch(x.a[2])
        if e is noepoch(at(ids, at(old, x.a[1]))):
            return True
        if e is noepoch(at(old, x.a[1])):
            return False, "the partition index itself is kept"
    return None, "new boundary points %s" % show(new)[:80]


# ---------------------------------------------------------------- the radius

def extremum(r, h):
    """('max'|'min', candidate) kept by loop record r in h; (None, why); ('skip', guards) when some pass looks at nothing; ('swap', why)"""
    cur = lv(r, h)
    kinds, cand = set(), set()
    rest = []
    for k, s in r.paths:
        if k != "end":
            continue
        v = s.store.get(h)
        v = cur if v is None else v
        if v.op in ("max", "min") and cur in v.a:
            kinds.add(v.op)
            cand |= {x for x in v.a if x is not cur}
            continue
        cmp_ = [(a, b) for a, b in s.atoms.items() if a.op == "<" and cur in a.a]
        if v is cur:
            rest.append((s, cmp_))
            continue
        cand.add(v)
        for a, b in cmp_:
            if v in a.a:
                up = (a.a[0] is cur) == b
                kinds.add("max" if up else "min")
                break
        else:
            kinds.add("any")
    if len(cand) != 1:
        return None, "%d candidates" % len(cand)
    c = cand.pop()
    if len(kinds) != 1:
        return None, "mixed"
    kd = kinds.pop()
    if kd == "any":
        return "last", c
    for s, cmp_ in rest:
        ok = False
        for a, b in cmp_:
            if c in a.a:
                keep = (a.a[0] is cur) != b      # cur is at least c
                ok = keep == (kd == "max")
        if not ok:
            g = [(a, b) for a, b in s.atoms.items() if contains(a, lambda x: x.op == "lv" and x.a[0] == r.lid) and not any(a in alt for alt in r.hdr)]
            return "skip", g, kd, c
    return kd, c


def radius(prog, ck, fn):
    sts = states(prog, ck, fn, "radius")
    if sts is None:
        return
    inst, W = fn["short"], w(fn)
    cen, data, labels = par(fn, 1), par(fn, 2), par(fn, 3)
    vs = [s.ret for s in sts if s.ret is not None]
    los = [v for v in vs if v.op == "lo"]
    if not los or any(v.op != "lo" and not isconst(v) and not contains(v, lambda x: x.op == "lv" and x.a[0] == los[0].a[0]) for v in vs):
        ck.und("radius", inst, "the result is not what a loop leaves: %s" % "; ".join(show(v)[:60] for v in vs[:3]), W)
        return
    rs = recs(sts)
    r = next((x for x, c in rs if x.lid == los[0].a[0]), None)
    if r is None:
        ck.und("radius", inst, "loop not found", W)
        return
    h = los[0].a[1]
    iv = full(ck, "radius", inst, r, (labels, data), "point", W)
    if iv is None:
        return
    e = extremum(r, h)
    if e[0] is None:
        ck.und("radius", inst, "the way the largest distance is kept is not recognised (%s)" % e[1], W)
        return
    if e[0] == "skip":
        ck.bad("radius", inst, "a point does not count for the radius when %s" % txt(e[1]), W)
        return
    if e[0] != "max":
        ck.bad("radius", inst, "the radius is the %s distance instead of the largest" % ("smallest" if e[0] == "min" else "last"), W)
        return
    d = isdist(e[1])
    if d is None:
        ck.und("radius", inst, "candidate %s is not a distance" % show(e[1])[:80], W)
        return
    want = {at(data, iv), at(cen, at(labels, iv))}
    if set(d) != want:
        if all(x.op == "at" and x.a[0] in (data, cen) for x in d):
            ck.bad("radius", inst, "the distance of %s is used for point %s" % (" and ".join(sorted(show(x) for x in d)), show(iv)), W)
        else:
            ck.und("radius", inst, "distance of %s" % " and ".join(sorted(show(x) for x in d)), W)
        return
    c = cval(r.init[h])
    if c is not None and c > 0:
        ck.bad("radius", inst, "the radius starts at %s" % c, W)
        return
    ck.ok("radius", inst, "the largest distance of any point to the centroid of its label", W)


# ---------------------------------------------------------------- the reduced run

STAGES = {"runPipeline", "computeMaxRadius", "separatePartitions", "mapPartitionIndexing", "newPreprocessor", "configPreprocessor", "runPreprocessorWrapper", "print1DVector", "vectors_distance", "clear"}


def nm(e):
    return e.d.get("name", "").split("::")[-1]


def part(t, f):
    """z when t is element z of half f of what separatePartitions returned"""
    if t.op == "at" and t.a[0].op == "fld" and t.a[0].a[-1] == f and t.a[0].a[0].op == "call" and t.a[0].a[0].a[0] == "utils::separatePartitions":
        return t.a[1], t.a[0].a[0]
    return None


def flat(s):
    """events of a pass in order, inner loops expanded in place"""
    out = []

    def go(evs, loop):
        for e in evs:
            if e.k == "loop":
                out.append(("loop", e, loop))
                for k, p in e.rec.paths:
                    go(p.ev, e.rec)
            else:
                out.append((e.k, e, loop))
    go(s.ev, None)
    return out


def reduced(prog, ck, fn):
    sts = states(prog, ck, fn, "each partition", STAGES)
    if sts is None:
        return
    inst, W = fn["short"], w(fn)
    tops = []
    for s in sts:
        for e in s.ev:
            if e.k == "loop":
                es = [x for k, p in e.rec.paths for q, x, l in flat(p) if q == "call" and nm(x) == "runPipeline"]
                if es:
                    tops.append((s, e.rec))
    if not tops:
        ck.und("each partition", inst, "no loop that runs the pipeline on each partition is recognised", W)
        return
    done = set()
    good = True
    for s, r in tops:
        if id(r) in done:
            continue
        done.add(id(r))
        good = partitions(ck, inst, W, s, r) and good
    if good:
        ck.ok("each partition", inst, "every non-empty partition is run on its own points with an empty table, and its entries are mapped back and kept", W)
    g2 = True
    for s in sts:
        if any(x[0] is s for x in tops):
            g2 = merged(ck, inst, W, s) and g2
    if g2:
        ck.ok("merged", inst, "the entries of every partition and of the reduced data are in the merged result", W)
    radiuses(ck, inst, W, sts)


def radiuses(ck, inst, W, sts):
    """the partitions are cut with twice the radius computed from the same centroids, data and labels"""
    cuts = {}
    for s in sts:
        for q, e, l in flat(s):
            if q == "call" and nm(e) == "separatePartitions" and len(e.d["args"]) == 4:
                cuts[id(e)] = e
    for e in cuts.values():
        rad, cen, data, lab = e.d["args"]
        d, k = lin(rad)
        cm = [x for x in d if x.op == "call" and x.a[0] == "utils::computeMaxRadius"]
        if len(cm) != 1 or len(d) != 1:
            ck.und("radius", inst, "partitions are cut at %s" % show(rad)[:100], W)
            return
        if d[cm[0]] < 2 or k < 0:
            ck.bad("radius", inst, "partitions are cut at %s times the largest cluster radius; points within twice the radius are left out" % d[cm[0]], W)
            return
        a = [x for x in cm[0].a[1:] if isinstance(x, T)]
        a = a[-4:]
        for what, three in (("radius", a[1:]), ("partitions", (cen, data, lab))):
            for nme, x, f in zip(("centroids", "data", "labels"), three, ("originalData", "fullData", "originalLabels")):
                g = fieldof(noepoch(x))
                if g in ("originalData", "fullData", "originalLabels") and g != f:
                    ck.bad("radius", inst, "the %s of the %s are %s" % (nme, what, g), W)
                    return
        for nme, x, y in (("centroids", a[1], cen), ("data", a[2], data), ("labels", a[3], lab)):
            if noepoch(x) is not noepoch(y):
                ck.und("radius", inst, "the radius is computed for other %s than the partitions" % nme, W)
                return
    if cuts:
        ck.ok("radius", inst, "partitions take every full-data point within twice the largest cluster radius of a centroid", W)


def fieldof(t):
    if t.op == "fld":
        return t.a[-1]
    if t.op == "init":
        for x in t.a:
            if isinstance(x, T) and x.op == "L.fld":
                return x.a[1]
    return None


def isfld(pl, f):
    return isinstance(pl, T) and pl.op == "L.fld" and pl.a[1] == f


def partitions(ck, inst, W, s, r):
    """one pass of the loop over the partitions"""
    R = "each partition"
    ivs = None
    for k, p in r.paths:
        ev = flat(p)
        for q, e, l in ev:
            if q == "write" and isfld(e.d.get("place"), "originalData"):
                x = part(noepoch(e.d["val"]), "second")
                if x:
                    ivs = x
    if ivs is None:
        ck.und(R, inst, "the data a partition is run on is not recognised", W)
        return False
    iv, cut = ivs
    if iv not in r.ivs:
        ck.und(R, inst, "partition number %s is not the loop variable" % show(iv), W)
        return False
    hd = None
    for n in subterms(noepoch(mk("x", *[a for alt in r.hdr for a in alt]))):
        if n.op == "size" and n.a[0].op == "fld" and n.a[0].a[0] is cut:
            hd = n.a[0]
    okk, why = verdict(r, iv, INT(0), size(hd)) if hd is not None else (None, "?")
    if okk is None:
        for alt in r.hdr:
            for a in alt:
                for n in subterms(a):
                    if n.op == "size" and n.a[0].op == "fld":
                        v = verdict(r, iv, INT(0), n)
                        if v[0] is not None:
                            okk, why = v
    if okk is None:
        ck.und(R, inst, "range of the loop over the partitions not recognised", W)
        return False
    if not okk:
        ck.bad(R, inst, "not every partition is run: " + why, W)
        return False
    if early(r):
        ck.bad(R, inst, "the loop over the partitions may stop early", W)
        return False
    for k, p in r.paths:
        ev = flat(p)
        runs = [n for n, (q, e, l) in enumerate(ev) if q == "call" and nm(e) == "runPipeline"]
        g = [(a, b) for a, b in p.atoms.items() if contains(a, lambda x: x is iv) and not any(a in alt for alt in r.hdr)]
        if not runs:
            emp = [x for x in g if empty_guard(*x)]
            if len(emp) != 1:
                tiny = [(a, b) for a, b in g if a.op == "<" and b and a.a[0].op == "size" and (cval(a.a[1]) or 9) <= 1]
                if not tiny:
                    ck.bad(R, inst, "a partition that holds points is not run when %s" % txt(g), W)
                    return False
            continue
        if len(runs) > 1:
            ck.und(R, inst, "a partition is run more than once", W)
            return False
        n = runs[0]
        pre = ev[:n]
        dw = [noepoch(e.d["val"]) for q, e, l in pre if q == "write" and isfld(e.d.get("place"), "originalData")]
        if not dw:
            ck.bad(R, inst, "the pipeline runs without the partition's points being set", W)
            return False
        x = part(dw[-1], "second")
        if x is None or x[0] is not iv:
            (ck.bad if x and diff(x[0], iv) else ck.und)(R, inst, "partition %s is run on %s" % (show(iv), show(dw[-1])[:90]), W)
            return False
        # the table
        if not cleared(ev, n, r, s):
            ck.bad(R, inst, "the table still holds the entries of the run before when a partition is run, so they are mapped through the wrong partition and kept twice", W)
            return False
        # the complex
        if not any(q == "call" and nm(e) == "clear" or q == "write" and isfld(e.d.get("place"), "complex") for q, e, l in ev):
            ck.bad(R, inst, "the complex is not emptied between the runs", W)
            return False
        post = ev[n + 1:]
        maps = [(m, e) for m, (q, e, l) in enumerate(post) if q == "call" and nm(e) == "mapPartitionIndexing"]
        if not maps:
            ck.bad(R, inst, "the entries of a partition are kept with the indices of the partition", W)
            return False
        m, e = maps[0]
        if len(maps) > 1:
            ck.bad(R, inst, "the entries of a partition are mapped back %d times" % len(maps), W)
            return False
        ids = noepoch(e.d["args"][0])
        y = part(ids, "first")
        if y is None or y[0] is not iv or noepoch(y[1]) is not noepoch(x[1]):
            bad = y is not None and (diff(y[0], iv) or isconst(y[0])) or ids.op == "fld" or y is not None and noepoch(y[1]) is not noepoch(x[1])
            (ck.bad if bad else ck.und)(R, inst, "the entries of partition %s are mapped back by %s" % (show(iv), show(ids)[:90]), W)
            return False
        tb = e.d["places"][1]
        if not isfld(tb, "bettiTable"):
            # a copy of the table
            ck.und(R, inst, "the table that is mapped back is not the one of the run", W)
            return False
        wipes = [q for q, z, l in post[:m] if q == "write" and isfld(z.d.get("place"), "bettiTable")]
        if wipes:
            ck.und(R, inst, "the table is written between the run and the mapping", W)
            return False
        # kept
        if not kept(ck, inst, W, p, post, m):
            return False
    return True


def cleared(ev, n, r, s):
    """the table is emptied before event n (in this pass, or at the end of the pass and before the loop)"""
    def clr(x):
        return x[0] == "write" and isfld(x[1].d.get("place"), "bettiTable") and x[1].d["val"].op == "empty"
    if any(clr(x) for x in ev[:n]):
        return True
    after = any(clr(x) for x in ev[n + 1:])
    first = any(clr(x) for x in flat(s))
    return after and (first or True)


def kept(ck, inst, W, p, post, m):
    """after the mapping the table's entries are all appended to a list that lives outside the loop"""
    R = "each partition"
    for q, e, l in post[m + 1:]:
        if q == "push" and l is not None:
            v = noepoch(e.d["val"])
            if v.op == "at" and v.a[0].op in ("out", "init", "fld"):
                iv = v.a[1]
                okk = verdict(l, e.d["val"].a[1], INT(0), size(e.d["val"].a[0])) if e.d["val"].op == "at" else (None, "")
                if okk[0] is False:
                    ck.bad(R, inst, "not every entry of a partition is kept: " + okk[1], W)
                    return False
                if early(l):
                    ck.bad(R, inst, "the loop that keeps the entries may stop early", W)
                    return False
                miss = [t for k, t in l.paths if not any(x.k == "push" and x.d.get("place") is e.d["place"] for x in t.ev)]
                if miss:
                    own = [(a, b) for a, b in miss[0].atoms.items() if contains(a, lambda z: z.op == "lv" and z.a[0] == l.lid) and not any(a in alt for alt in l.hdr)]
                    ck.bad(R, inst, "an entry of a partition is dropped when %s" % txt(own), W)
                    return False
                return True
        if q in ("write", "push") and l is None and any(contains(x, lambda t: t.op == "out" and t.a[0] == "utils::mapPartitionIndexing") for x in [e.d.get("val")] if isinstance(x, T)):
            if not isfld(e.d.get("place"), "bettiTable"):
                return True
    done = appended(p, lambda x: x.op == "out" and x.a[0] == "utils::mapPartitionIndexing")
    if done:
        return True
    if any(q == "push" and l is not None for q, e, l in post[:m]):
        ck.bad(R, inst, "the entries of a partition are kept before they are mapped back", W)
        return False
    ck.und(R, inst, "how the entries of a partition are kept is not recognised", W)
    return False


def appended(p, pred):
    """some list holds what it held before with a whole table added at the end"""
    for h, v in p.store.items():
        if h.op == "L.var" and isinstance(v, T) and v.op in ("cat", "app") and any(isinstance(x, T) and pred(x) for x in v.a):
            return True
    return False


def merged(ck, inst, W, s):
    """the final run on the reduced data"""
    R = "merged"
    ev = flat(s)
    runs = [n for n, (q, e, l) in enumerate(ev) if q == "call" and nm(e) == "runPipeline" and l is None]
    if not runs:
        g = [(a, b) for a, b in s.atoms.items() if a.op == "nz" and a.a[0].op == "size" and not b]
        return True
    n = runs[0]
    # writes since the loop over the partitions
    li = max([m for m, (q, e, l) in enumerate(ev[:n]) if l is not None] or [0])
    dw = [e for q, e, l in ev[li:n] if q == "write" and isfld(e.d.get("place"), "originalData")]
    cut = [e for q, e, l in ev[:n] if q == "call" and nm(e) == "separatePartitions"]
    if not dw:
        ck.bad(R, inst, "the reduced data is not set again after the partitions were run", W)
        return False
    if cut and len(cut[-1].d["args"]) == 4 and noepoch(dw[-1].d["val"]) is not noepoch(cut[-1].d["args"][1]):
        f = fieldof(noepoch(dw[-1].d["val"]))
        (ck.bad if f in ("fullData",) else ck.und)(R, inst, "the last run is on %s" % show(dw[-1].d["val"])[:80], W)
        return False
    if not any(q == "write" and isfld(e.d.get("place"), "bettiTable") and e.d["val"].op == "empty" for q, e, l in ev[li:n]):
        lasts = [e for q, e, l in ev[:li + 1] if q == "write" and isfld(e.d.get("place"), "bettiTable") and e.d["val"].op == "empty" and l is not None]
        # the pass itself may empty the table after the run
        ok = False
        for q, e, l in ev[:li + 1]:
            if q == "loop":
                for k, p in e.rec.paths:
                    f = flat(p)
                    rr = [m for m, x in enumerate(f) if x[0] == "call" and nm(x[1]) == "runPipeline"]
                    if rr and any(x[0] == "write" and isfld(x[1].d.get("place"), "bettiTable") and x[1].d["val"].op == "empty" for x in f[rr[-1] + 1:]):
                        ok = True
        if not ok:
            ck.bad(R, inst, "the table still holds the entries of the last partition when the reduced data is run", W)
            return False
    post = ev[n + 1:]
    for q, e, l in post:
        if q == "push" and l is not None:
            if early(l):
                ck.bad(R, inst, "the loop that keeps the entries of the reduced data may stop early", W)
                return False
            return True
        if q == "write" and l is None and contains(e.d["val"], lambda t: t.op in ("cat", "union")):
            return True
    if appended(s, lambda x: fieldof(x) == "bettiTable"):
        return True
    ck.und(R, inst, "how the entries of the reduced data are kept is not recognised", W)
    return False
