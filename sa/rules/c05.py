"""C05 distances and the neighbourhood graph."""
from ..common import *
from ..loops import *
from ..trees import step, dist_reads, below, noepoch, node_field, nosize

TITLE = "distances and neighbourhood graph"


def run(prog, ck):
    ck.prog = prog
    metric(prog, ck)
    matrix(prog, ck)
    handover(prog, ck)
    feed(prog, ck)
    for cls, lf in (("simplexTree", "weightEdgeGraph"), ("indSimplexTree", "dimensions")):
        tree(prog, ck, cls, lf)
    arraylist(prog, ck)
    ck.expect("pair-stored", 1)
    ck.expect("cutoff", 4)
    ck.expect("orientation", 2)


def w(fn):
    return "%s:%d" % (fn["file"], fn["l"])


# ---------------------------------------------------------------- the metric
def metric(prog, ck):
    for fn in prog.fns("utils::vectors_distance"):
        if len(fn["params"]) != 2 or "vector" not in fn["params"][0]["ty"]:
            continue
        en = Engine(prog)
        sts = en.run(fn)
        a, b = [mk("init", mk("L.ref", p["n"]), "") if p["m"] in ("ref", "cref") else mk("param", p["n"]) for p in fn["params"]]
        for s in sts:
            if s.status != "ret":
                continue
            recs = [r for r, _, _ in loops_of([s])]
            t = s.ret
            if cval(t) is not None:
                empty = any(s.atoms.get(nz(size(x))) is False for x in (a, b))
                if empty or t.op == "real":
                    ck.ok("metric", "empty row")
                else:
                    ck.bad("metric", "constant", "the distance of two non-empty rows is the constant %s" % show(t), w(fn), [fmt_guards(s.atoms)])
                continue
            if contains(t, lambda z: z.op == "truncsum"):
                ck.bad("metric", "precision", "the squared differences are added up in a type that cannot hold them: every term is cut", w(fn))
                continue
            if t.op != "sqrt":
                sf = sumform(t, recs)
                if sf is not None:
                    ck.bad("metric", "root", "the distance is returned without the square root: %s" % show(t)[:200], w(fn))
                else:
                    ck.und("metric", "shape", show(t)[:200], w(fn))
                continue
            sf = sumform(t.a[0], recs)
            if sf is None:
                ck.und("metric", "shape", show(t)[:200], w(fn))
                continue
            n, i, body = sf
            A, B = at(a, i), at(b, i)
            m = same_iv(recs)
            body, A, B = (noepoch(subst(x, m)) for x in (body, A, B))
            d1, d2 = mk("-", A, B), mk("-", B, A)
            good = {mul(x, y) for x in (d1, d2) for y in (d1, d2)} | {mk("abs2", d1)}
            ck.require(body in good, "metric", "squared difference", "the distance adds up %s instead of the squared differences of the coordinates" % show(body)[:200], w(fn))
            dn = [diff(n, size(x)) for x in (a, b)]
            if 0 in dn:
                ck.ok("metric", "all coordinates")
            elif any(x is not None for x in dn):
                ck.bad("metric", "all coordinates", "the distance uses %s coordinates" % show(n), w(fn))
            else:
                ck.und("metric", "all coordinates", show(n), w(fn))


# ---------------------------------------------------------------- the matrix
def isdist(t):
    """(a, b) when t is the distance of the two rows"""
    if t.op == "call" and t.a[0] == "utils::vectors_distance":
        return t.a[1], t.a[2]
    return None


def matrix(prog, ck):
    cls = stage_classes(prog).get("distMatrix")
    fn = method(prog, cls, "runPipe", 1)
    en = Engine(prog, opaque=lambda f: f["name"].startswith("utils::") or f["short"] == "setDistanceMatrix")
    try:
        sts = en.run(fn, dyn=cls)
    except (PathLimit, Undecided) as ex:
        ck.und("pair-stored", "all", str(ex), w(fn))
        return
    packet = mk("param", fn["params"][0]["n"])
    data = getf(packet, "originalData")
    eps = None
    for s in sts:
        if s.status != "ret":
            continue
        recs = loops_of([s])
        allr = [r for r, _, _ in recs]
        writes = [(e, ctx, own) for e, ctx, own in walk_ev(s.ev) if e.k == "lwrite" and e.place.op == "L.elem" and e.place.a[0].op == "L.elem"]
        writes = [x for x in writes if len(x[1]) >= 2]
        sites = {}
        for e, ctx, own in writes:
            sites.setdefault((e.l, e.fn, ctx[-1].lid), []).append((e, ctx, own))
        mats = {e.place.a[0].a[0] for e, _, _ in writes}
        decided = False
        for key, es in sites.items():
            e, ctx, own = es[0]
            row, col = e.place.a[0].a[1], e.place.a[1]
            outer, inner = ctx[-2], ctx[-1]
            ivs = {}
            for r in (outer, inner):
                for iv in r.ivs:
                    ivs[iv] = r
            if row not in ivs or col not in ivs or ivs[row] is ivs[col]:
                ck.und("pair-stored", "sites", "matrix entry %s,%s" % (show(row), show(col)), e.where())
                continue
            ro, co = ivs[row], ivs[col]
            oiv, iiv = (row, col) if ro is outer else (col, row)
            full = verdict(outer, oiv, INT(0), size(data), allr)
            up = verdict(inner, iiv, add(oiv, INT(1)), size(data), allr)
            low = verdict(inner, iiv, INT(0), oiv, allr)
            allv = verdict(inner, iiv, INT(0), size(data), allr)
            rowfirst = None        # is the row index the smaller one
            if up[0]:
                rowfirst = oiv is row
            elif low[0]:
                rowfirst = iiv is row
            elif allv[0]:
                decided = None
                ck.und("pair-stored", "sites", "the inner loop runs over all rows", e.where())
                continue
            else:
                v = up if up[0] is False else (low if low[0] is False and up[0] is None else None)
                if v is not None:
                    gi, go = irange(inner, iiv), irange(outer, oiv)
                    # outer/inner ends may be shortened together without losing a pair
                    if diff(gi.lo, add(oiv, INT(1))) == 0 and gi.hi is not None and diff(gi.hi, size(data)) == 0:
                        pass
                    ck.bad("pair-stored", "inner range", "for a row %s, %s: a pair of points is missing from the distance matrix" % (show(oiv)[:60], v[1]), "%s:%s" % (inner.file, inner.l))
                    decided = True
                else:
                    ck.und("pair-stored", "inner range", up[1], "%s:%s" % (inner.file, inner.l))
                continue
            if full[0] is False:
                g = irange(outer, oiv)
                # the last row has no partner behind it
                if rowfirst is not None and up[0] and diff(g.lo, INT(0)) == 0 and diff(outer_value(g.hi, allr), size(data)) == -1:
                    full = (True, "")
                elif low[0] and diff(g.lo, INT(0)) == 1 and diff(outer_value(g.hi, allr), size(data)) == 0:
                    full = (True, "")
            ck.add("pair-stored", "outer range", {True: "ok", False: "bad", None: "undecided"}[full[0]], "over the rows, %s" % full[1], "%s:%s" % (outer.file, outer.l))
            if rowfirst is False and any(k2[2] == key[2] and o[0].place.a[0].a[0] is e.place.a[0].a[0] and o[0].place.a[0].a[1] is col and o[0].place.a[1] is row for k2, os_ in sites.items() for o in os_):
                continue        # stored on both sides; the entry above the diagonal is decided on its own
            ck.require(rowfirst, "orientation", "distance matrix", "the distance is stored below the diagonal, where the complexes do not look", e.where())
            decided = True
            ab = isdist(e.val)
            A, B = at(data, row), at(data, col)
            for e2, _, _ in es:
                ab = isdist(e2.val)
                if ab is None:
                    ck.add("pair-value", "distance", "bad" if cval(e2.val) is not None or fieldname(e2.val) is not None or e2.val.op in ("+", "-", "*", "/", "float32", "trunc", "toint") and contains(e2.val, lambda z: isdist(z) is not None) else "undecided", "the entry becomes %s instead of the distance of the two points" % show(e2.val)[:200], e2.where())
                else:
                    x = {A, B}
                    ck.require(set(ab) == x, "pair-value", "distance", "the entry for rows %s and %s is the distance of %s and %s" % (show(row), show(col), show(ab[0]), show(ab[1])), e2.where())
            # no way through one iteration that leaves the entry out
            for kind, p in inner.paths:
                has_ = any(x.k == "lwrite" and x.l == key[0] and x.fn == key[1] for x, _, _ in walk_ev(p.ev))
                if kind != "end":
                    ck.add("pair-stored", "every iteration", "bad", "the loop over partners stops early", "%s:%s" % (inner.file, inner.l), [fmt_guards(p.atoms)])
                    continue
                if not has_ and not skipok(p, data):
                    ck.bad("pair-stored", "every iteration", "a pair is skipped when %s" % fmt_guards(dict((a, b) for a, b in p.atoms.items() if a not in inner.entry and a not in inner.hdr[0]), 6), "%s:%s" % (inner.file, inner.l), [fmt_guards(p.atoms)])
                else:
                    ck.ok("pair-stored", "every iteration")
            for kind, p in outer.paths:
                if kind != "end":
                    ck.bad("pair-stored", "every row", "the loop over rows stops early", "%s:%s" % (outer.file, outer.l), [fmt_guards(p.atoms)])
                    continue
                has_ = any(x.k == "loop" and x.rec is inner or x.k == "loop" and x.rec.lid == inner.lid for x in p.ev)
                if not has_ and not skipok(p, data):
                    ck.bad("pair-stored", "every row", "a row is skipped when %s" % fmt_guards(dict((a, b) for a, b in p.atoms.items() if a not in outer.entry and a not in outer.hdr[0]), 6), "%s:%s" % (outer.file, outer.l), [fmt_guards(p.atoms)])
                else:
                    ck.ok("pair-stored", "every row")
            # the filtration values below the cut-off
            for kind, p in inner.paths:
                ds = {x.val for x, _, _ in walk_ev(p.ev) if x.k == "lwrite" and isdist(x.val)}
                pushes = [x for x, _, _ in walk_ev(p.ev) if x.k == "push" and x.d.get("how") == "insert"]
                for d in ds:
                    facts = [(a, b) for a, b in p.atoms.items() if a.op == "<" and d in a.a]
                    ins = any(x.val is d for x in pushes)
                    for a, b in facts:
                        o = a.a[1] if a.a[0] is d else a.a[0]
                        if fieldname(o) is None:
                            ck.und("cutoff", "filtration values", show(a)[:120])
                            continue
                        isless = (a.a[0] is d) == b      # d < eps (or <=)
                        ck.require(ins == isless, "cutoff", "filtration values", "a distance %s the cut-off is %s the filtration values" % ("below" if isless else "above", "in" if ins else "missing from"), "%s:%s" % (inner.file, inner.l), [fmt_guards(p.atoms)])
                    if not facts:
                        if not ins:
                            ck.bad("cutoff", "filtration values", "distances are not entered into the filtration values", "%s:%s" % (inner.file, inner.l))
                        else:
                            ck.bad("cutoff", "filtration values", "a distance is entered into the filtration values whatever its size", "%s:%s" % (inner.file, inner.l))
        if not decided:
            ck.und("pair-stored", "sites", "no pairwise store into a local matrix was recognised", w(fn))
        # ends of the filtration
        if s.ret is not None:
            W = getf(s.ret, "weights")
            had = inserted(W)
            base = W
            while base.op in ("ins", "app"):
                base = base.a[0]
            ck.require(base.op != "empty", "cutoff", "filtration values kept", "the filtration values found among the distances are dropped again when %s" % fmt_guards(s.atoms)[:200], w(fn))
            if had is not None:
                ck.require(any(cval(x) == 0 for x in had), "filtration ends", "0", "0 is not among the filtration values", w(fn))
                ck.require(any(fieldname(x) for x in had), "filtration ends", "cut-off", "the cut-off itself is not among the filtration values", w(fn))
            elif W is getf(packet, "weights"):
                ck.bad("filtration ends", "0", "the filtration values are not filled", w(fn))
        # hand-over
        sets = [(e, ctx) for e, ctx, _ in walk_ev(s.ev) if e.k == "call" and e.name.endswith("::setDistanceMatrix")]
        if not sets:
            ck.bad("matrix handed over", "call", "the distance matrix is not given to the complex", w(fn), [fmt_guards(s.atoms)])
        for e, ctx in sets:
            ck.require(not ctx, "matrix handed over", "after the loops", "the matrix is handed over inside a loop, before it is complete", e.where())
            v = e.args[0]
            roots = {mk("lo", r.lid, m) for r, _, _ in recs for m in mats}
            if v in roots:
                # the loop that leaves it must be the outermost fill loop
                ck.ok("matrix handed over", "value")
            elif contains(v, lambda x: x in roots):
                ck.und("matrix handed over", "value", show(v)[:200], e.where())
            elif mats and v.op in ("filled", "empty"):
                ck.bad("matrix handed over", "value", "the complex receives %s, not the filled matrix" % show(v)[:200], e.where())
            else:
                ck.und("matrix handed over", "value", show(v)[:200], e.where())


def inserted(W):
    out = []
    while W.op in ("ins", "app"):
        out.append(W.a[1])
        W = W.a[0]
    return out if out else None


def skipok(p, data):
    """an iteration may be left out when one of the rows has no coordinates, or when the value is known to be 0"""
    for a, b in p.atoms.items():
        if b and a.op == "==" and all(x.op == "at" and x.a[0] is data for x in a.a):
            return True         # equal points: the entry stays 0
        if not b and a.op == "nz":
            x = a.a[0]
            if x.op == "size" and x.a[0].op == "at" and x.a[0].a[0] is data:
                return True
            if isdist(x):
                return True
    return False


def handover(prog, ck):
    n = 0
    for fn in prog.functions.values():
        if fn["short"] != "setDistanceMatrix":
            continue
        en = Engine(prog)
        for s in en.run(fn):
            if s.status != "ret":
                continue
            v = en.read(s, mk("L.fld", THISP, "distMatrix"))
            p = fn["params"][0]
            want = mk("param", p["n"]) if p["m"] == "val" else mk("init", mk("L.ref", p["n"]), "")
            ck.require(v is want, "matrix kept", fn["name"], "the complex keeps %s instead of the matrix it was given" % show(v)[:100], w(fn))
            n += 1


# ---------------------------------------------------------------- points into the complex
def feed(prog, ck):
    cls = stage_classes(prog).get("neighGraph")
    fn = method(prog, cls, "runPipe", 1)
    en = Engine(prog, opaque=lambda f: f["name"].startswith("utils::") or "simplexBase" in prog.ancestors(f.get("cls") or "") and f["short"] == "insert")
    try:
        sts = en.run(fn, dyn=cls)
    except (PathLimit, Undecided) as ex:
        ck.und("every point inserted", "all", str(ex), w(fn))
        return
    data = getf(mk("param", fn["params"][0]["n"]), "originalData")
    for s in sts:
        if s.status != "ret":
            continue
        recs = loops_of([s])
        allr = [r for r, _, _ in recs]
        calls = [(e, ctx) for e, ctx, _ in walk_ev(s.ev) if e.k == "call" and e.name.endswith("::insert") and e.virt]
        sites = {(e.l, e.fn): (e, ctx) for e, ctx in calls}
        if not calls:
            ck.bad("every point inserted", "call", "no point is inserted into the complex", w(fn), [fmt_guards(s.atoms)])
            continue
        for (l, f), (e, ctx) in sites.items():
            if len(ctx) != 1:
                ck.add("every point inserted", "once", "bad" if len(ctx) > 1 else "undecided", "points are inserted inside %d nested loops" % len(ctx), e.where())
                continue
            r = ctx[0]
            if not r.ivs:
                ck.und("every point inserted", "range", "loop shape", e.where())
                continue
            iv = list(r.ivs)[0]
            x = e.args[0]
            pl = e.d.get("places")
            val = x
            if not contains(val, lambda z: z is iv):
                ck.und("every point inserted", "argument", show(val)[:120], e.where())
            else:
                ck.require(noepoch(outer_value(val, allr)) is noepoch(outer_value(at(data, iv), allr)) or base_at(val, iv, data, allr), "every point inserted", "argument", "the complex receives %s" % show(val)[:120], e.where())
            v = verdict(r, iv, INT(0), size(data), allr)
            ck.add("every point inserted", "range", {True: "ok", False: "bad", None: "undecided"}[v[0]], "over the points, %s" % v[1], "%s:%s" % (r.file, r.l))
            g = irange(r, iv)
            if g is not None and g.step == -1:
                ck.bad("every point inserted", "order", "points are inserted in reverse, while the matrix lists the earlier point first", "%s:%s" % (r.file, r.l))
            for kind, p in r.paths:
                n = sum(1 for x in p.ev if x.k == "call" and x.name.endswith("::insert") and x.virt)
                if kind != "end":
                    ck.bad("every point inserted", "every iteration", "the loop stops early", "%s:%s" % (r.file, r.l), [fmt_guards(p.atoms)])
                elif n != 1 and not (n == 0 and skipok2(p)):
                    ck.bad("every point inserted", "every iteration", "a point is inserted %d times when %s" % (n, fmt_guards(dict((a, b) for a, b in p.atoms.items() if a not in r.entry), 6)), "%s:%s" % (r.file, r.l), [fmt_guards(p.atoms)])
                else:
                    ck.ok("every point inserted", "every iteration")


def base_at(v, iv, data, allr):
    return v.op == "at" and v.a[1] is iv and contains(v.a[0], lambda z: z is data or z.op == "L.fld" and z.a[-1] == "originalData")


def skipok2(p):
    return any(not b and a.op == "nz" and a.a[0].op == "size" for a, b in p.atoms.items())


# ---------------------------------------------------------------- edges in the trees
def tree(prog, ck, cls, lf):
    try:
        st = step(prog, cls, lf)
    except (PathLimit, Undecided) as ex:
        ck.und("cutoff", cls, str(ex))
        return
    if st is None:
        ck.und("cutoff", cls, "no recursive insertion step recognised")
        return
    nidx = mk("init", mk("L.fld", mk("L.deref", st.node), "index"), "")
    cnt = mk("init", mk("L.fld", THISP, "indexCounter"), "")
    eps = mk("init", mk("L.fld", THISP, "maxEpsilon"), "")
    for s, rows in st.rows:
        ds = {}
        for e, ctx, own in walk_ev(s.ev):
            if e.k == "index":
                for t, r, c in dist_reads(at(e.c, e.i)):
                    if t is at(e.c, e.i):
                        ds[t] = (r, c, e)
        for t, (r, c, e) in ds.items():
            names = {"node": nidx, "new": (cnt, st.index)}

            def off(x, ys):
                for y in ys:
                    d, k = addl(lin(x), lin(y), -1)
                    if nidx not in d and cnt not in d and st.index not in d:
                        return (tuple(sorted((z.uid, q) for z, q in d.items())), k)
                return None
            ro, co = off(r, (nidx,)), off(c, (cnt, st.index))
            if ro is not None and co is not None:
                ck.ok("orientation", cls)
                ck.require(ro == co, "orientation", cls + " shift", "row and column are shifted by different amounts: %s" % show(t)[:200], e.where())
                if fits(s, st) and ro[0] == () and ro[1] != 0:
                    ck.bad("orientation", cls + " shift", "the entry read is not the one of the two points: %s" % show(t)[:200], e.where())
            elif off(r, (cnt, st.index)) is not None and off(c, (nidx,)) is not None:
                ck.bad("orientation", cls, "the entry below the diagonal is read: %s" % show(t)[:200], e.where())
            else:
                ck.und("orientation", cls, show(t)[:200], e.where())
        if len(ds) != 1:
            (ck.bad if not ds and rows else ck.und)("cutoff", cls, "%d matrix entries are looked up on one path" % len(ds), st.where)
            continue
        D = list(ds)[0]
        A = {noepoch(a): b for a, b in s.atoms.items()}
        D = noepoch(D)
        if rows:
            for x, nm in ((D, "the distance to the point"), (st.w, "the weight so far")):
                if below(A, x, eps):
                    ck.ok("cutoff", cls + " kept/" + nm)
                else:
                    ck.bad("cutoff", cls + " kept/" + nm, "a simplex is recorded although %s may exceed the cut-off" % nm, rows[0][0].where(), [fmt_guards(s.atoms)])
        else:
            if below(A, eps, D) or below(A, eps, st.w) or any(below(A, eps, m) for m in A for m in ()):
                ck.ok("cutoff", cls + " left out")
            elif any(x.op == "max" for a in A for x in a.a if isinstance(x, T)) and any(a.op == "<" and not b and a.a[1] is eps or a.op == "<" and b and a.a[0] is eps for a, b in A.items()):
                ck.ok("cutoff", cls + " left out")
            else:
                ck.bad("cutoff", cls + " left out", "a point within the cut-off is not connected when %s" % fmt_guards(s.atoms, 6), st.where, [fmt_guards(s.atoms)])
    top(prog, ck, st, lf)


def fits(s, st):
    """path on which nothing was evicted from the window"""
    return all(not (a.op == "<" and b and any(z.op == "init" and z.a[0].op == "L.fld" and z.a[0].a[1] == "runningVectorIndices" for z in subterms(a))) for a, b in s.atoms.items())


def top(prog, ck, st, lf):
    """the outer insertion tries the new point against every present point"""
    fn = st.ins
    en = Engine(prog, opaque=lambda f: f["key"] == st.fn["key"] or f["name"].startswith("utils::"))
    sts = en.run(fn, dyn=st.cls)
    cnt = mk("init", mk("L.fld", THISP, "indexCounter"), "")
    head = mk("nz", mk("init", mk("L.fld", THISP, "head"), ""))
    dims = mk("init", mk("L.fld", THISP, lf if st.cls == "indSimplexTree" else "dimensions"), "")
    ro = st.roles
    for s in sts:
        if s.status != "ret":
            continue
        A = {noepoch(a): b for a, b in s.atoms.items()}
        skip = any(not b and a.op == "nz" and a.a[0].op == "size" for a, b in A.items())
        calls = []
        for e, ctx, own in walk_ev(s.ev):
            if e.k == "call" and e.d["key"] == st.fn["key"]:
                calls.append((e, ctx))
        if A.get(head) is not True:
            continue
        if skip and not calls:
            continue
        if not calls:
            ck.bad("edges to all points", st.cls, "a new point is not compared with the present ones", w(fn), [fmt_guards(s.atoms)])
            continue
        for e, ctx in calls:
            a = [noepoch(x) for x in e.args]
            ck.require(a[ro["index"]] is cnt, "edges to all points", st.cls + " index", "the step is started with index %s" % show(a[ro["index"]]), e.where())
            ck.require(cval(a[ro["w"]]) == 0, "edges to all points", st.cls + " weight", "the step is started with weight %s" % show(a[ro["w"]]), e.where())
            if not ctx:
                continue
            r = ctx[-1]
            n = e.args[ro["node"]]
            chain(prog, ck, en, r, n, [noepoch(at(dims, INT(0))), noepoch(at(at(dims, INT(0)), INT(0))), mk("init", mk("L.fld", THISP, "head"), "")], "edges to all points", st.cls, lambda p: any(x.k == "call" and x.d["key"] == st.fn["key"] for x in p.ev), s)


def chain(prog, ck, en, r, n, starts, rule, inst, hit, s=None):
    """loop r walks a sibling chain from one of the given starts with cursor n, acting on every node"""
    where = "%s:%s" % (r.file, r.l)
    if n in starts:
        ck.bad(rule, inst + " walk", "only the first node of the chain is visited", where)
        return
    if n.op != "lv" or n.a[0] != r.lid:
        ck.und(rule, inst + " walk", show(n)[:120], where)
        return
    h = n.a[1]
    i = noepoch(r.init[h])
    if i in starts:
        ck.ok(rule, inst + " start")
    elif i.op == "init" and i.a[0].op == "L.fld" and i.a[0].a[1] == "sibling" and i.a[0].a[0].op == "L.deref" and i.a[0].a[0].a[0] in starts:
        ck.bad(rule, inst + " start", "the walk starts at the second node of the chain", where)
    else:
        ck.und(rule, inst + " start", show(i)[:160], where)
    nxt = mk("init", mk("L.fld", mk("L.deref", n), "sibling"), "")
    for kind, p in r.paths:
        v = noepoch(en.read(p, h))
        A = {noepoch(a): b for a, b in p.atoms.items()}
        if kind == "end" and not hit(p):
            ck.bad(rule, inst + " every node", "a node of the chain is passed over when %s" % fmt_guards(dict((a, b) for a, b in p.atoms.items() if a not in r.entry), 4), where, [fmt_guards(p.atoms)])
        elif kind == "end":
            ck.ok(rule, inst + " every node")
        if kind == "end":
            if v is nxt or v is n and A.get(nz(nxt)) is False:
                ck.ok(rule, inst + " walk")
            elif v.op == "init" and v.a[0].op == "L.fld" and v.a[0].a[0].op == "L.deref" and contains(v, lambda z: z is nxt) and v is not nxt:
                ck.bad(rule, inst + " walk", "the walk advances to %s and skips a node" % show(v)[:100], where)
            elif v is n and A.get(nz(nxt)) is True:
                ck.bad(rule, inst + " walk", "the walk does not advance", where)
            else:
                ck.und(rule, inst + " walk", show(v)[:120], where)
        elif kind in ("brk", "ret"):
            if A.get(nz(nxt)) is not False and A.get(nz(n)) is not False:
                ck.bad(rule, inst + " walk", "the walk is left early when %s" % fmt_guards(p.atoms, 3), where, [fmt_guards(p.atoms)])
    # the loop goes on exactly while there is a next node
    for kind, p in r.paths:
        pass


# ---------------------------------------------------------------- edges in the array list
def arraylist(prog, ck):
    cls = "simplexArrayList"
    fn = method(prog, cls, "insert", 1)
    if fn is None or fn.get("cls") != cls:
        ck.und("cutoff", cls, "no insertion of its own")
        return
    en = Engine(prog, opaque=lambda f: f["name"].startswith("utils::"), nomerge=True)
    G = mk("L.fld", THISP, "weightedGraph")
    G0 = mk("init", G, "")
    eps = mk("init", mk("L.fld", THISP, "maxEpsilon"), "")
    for s in en.run(fn, dyn=cls):
        if s.status != "ret":
            continue
        recs = loops_of([s])
        allr = [r for r, _, _ in recs]
        n0 = size(at(G0, INT(0)))
        # vertices
        last = [e for e in s.ev if e.k == "push" and (e.place is mk("L.elem", G, INT(0)) or e.place is G and not any(x.k == "loop" for x in s.ev))]
        if s.atoms.get(nz(size(mk("init", mk("L.ref", fn["params"][0]["n"]), "")))) is False:
            ck.require(not any(e.k == "push" for e in s.ev), "edges to all points", cls + " empty", "a row without coordinates is inserted", w(fn))
            continue
        ck.require(len(last) == 1, "edges to all points", cls + " vertex", "inserting a point adds %d vertices" % len(last), w(fn), [fmt_guards(s.atoms)])
        for e, ctx, own in walk_ev(s.ev):
            pass
        for r, ctx, own in recs:
            reads = {}
            for kind, p in r.paths:
                for e, c2, o2 in walk_ev(p.ev):
                    if e.k == "index":
                        for t, rr, cc in dist_reads(at(e.c, e.i)):
                            if t is at(e.c, e.i):
                                reads[noepoch(t)] = (rr, cc, e)
            if not reads or not r.ivs:
                continue
            iv = [x for x in r.ivs if any(contains(t, lambda z: z is x) for t in reads)]
            if len(iv) != 1 or len(reads) != 1:
                ck.und("cutoff", cls, "pair loop", "%s:%s" % (r.file, r.l))
                continue
            iv = iv[0]
            D, (rr, cc, e) = list(reads.items())[0]
            dr, dc = diff(rr, iv), diff(outer_value(cc, allr), outer_value(n0, allr))
            if dr == 0 and dc == 0:
                ck.ok("orientation", cls)
            elif diff(cc, iv) == 0 and diff(outer_value(rr, allr), outer_value(n0, allr)) == 0:
                ck.bad("orientation", cls, "the entry below the diagonal is read: %s" % show(D)[:200], e.where())
            elif (dr is not None and dr != 0) or (dr == 0 and dc is not None):
                ck.bad("orientation", cls, "the entry read is not the one of the two points: %s" % show(D)[:200], e.where())
            else:
                ck.und("orientation", cls, show(D)[:200], e.where())
            v = verdict(r, iv, INT(0), n0, allr)
            ck.add("edges to all points", cls + " range", {True: "ok", False: "bad", None: "undecided"}[v[0]], "over the present points, %s" % v[1], "%s:%s" % (r.file, r.l))
            for kind, p in r.paths:
                if kind != "end":
                    ck.bad("edges to all points", cls + " early", "the loop over the present points stops early", "%s:%s" % (r.file, r.l), [fmt_guards(p.atoms)])
                    continue
                A = {noepoch(a): b for a, b in p.atoms.items()}
                es = [x for x, _, _ in walk_ev(p.ev) if x.k == "push" and (x.place is G or x.place.op == "L.elem" and x.place.a[0] is G)]
                dup = any(a.op == "has" and b or a.op in ("==", "nz") and any(z.op == "find" for z in subterms(a)) for a, b in A.items())
                if below(A, D, eps):
                    ck.require(bool(es) or dup, "cutoff", cls + " kept", "a pair within the cut-off gets no edge", "%s:%s" % (r.file, r.l), [fmt_guards(p.atoms)])
                elif below(A, eps, D):
                    ck.require(not es, "cutoff", cls + " left out", "a pair beyond the cut-off gets an edge", "%s:%s" % (r.file, r.l), [fmt_guards(p.atoms)])
                elif es:
                    ck.bad("cutoff", cls + " kept", "a pair gets an edge whatever its distance", "%s:%s" % (r.file, r.l), [fmt_guards(p.atoms)])
                else:
                    ck.bad("cutoff", cls + " kept", "a pair gets no edge whatever its distance", "%s:%s" % (r.file, r.l), [fmt_guards(p.atoms)])
                for x in es:
                    v0 = x.val
                    while v0.op == "push" and v0.a[0].op == "empty":
                        v0 = v0.a[1]
                    if v0.op == "list" and len(v0.a) == 1:
                        v0 = v0.a[0]
                    if v0.op == "empty" and len(es) == 1:
                        ck.bad("edge contents", cls, "the first edge is not put in the list that is started for it", x.where())
                        continue
                    if v0.op != "pair":
                        ck.und("edge contents", cls, show(v0)[:120], x.where())
                        continue
                    ed, wt = v0.a
                    ck.require(noepoch(wt) is D, "edge contents", cls + " weight", "the edge gets weight %s instead of the distance of its ends" % show(wt)[:120], x.where())
                    if ed.op == "list" and len(ed.a) == 2:
                        o = [outer_value(z, allr) for z in ed.a]
                        ck.require(diff(o[0], iv) == 0 and diff(o[1], outer_value(n0, allr)) == 0, "edge contents", cls + " ends", "the edge joins %s and %s" % (show(ed.a[0]), show(ed.a[1])), x.where())
                    else:
                        ck.und("edge contents", cls + " ends", show(ed)[:120], x.where())
