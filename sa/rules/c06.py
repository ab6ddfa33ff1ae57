"""C06 what the complexes record: simplices, weights, dimensions, counts."""
from ..common import *
from ..loops import *
from ..trees import step, dist_reads, below, noepoch, node_field, nosize, maxleaves
from ..cases import value
from .c05 import chain, w

TITLE = "recorded simplices, weights and counts"


def run(prog, ck):
    for cls, lf in (("simplexTree", "weightEdgeGraph"), ("indSimplexTree", "dimensions")):
        try:
            st = step(prog, cls, lf)
        except (PathLimit, Undecided) as ex:
            st = None
        if st is None:
            ck.und("contents", cls, "no recursive insertion step recognised")
            continue
        tree(prog, ck, st, lf)
        vertex(prog, ck, st, lf)
        counts(prog, ck, cls)
        vertices(prog, ck, cls, lf)
        treefind(prog, ck, cls)
        treesearch(prog, ck, cls, lf)
    arrayvertex(prog, ck)
    arraycounts(prog, ck)
    expand(prog, ck)
    lookup(prog, ck)
    ck.expect("contents", 2)
    ck.expect("weight", 6)
    ck.expect("count", 4)


def linkfield(st, s, new):
    """member of the incoming node through which the new node is found again"""
    for e, _, _ in walk_ev(s.ev):
        if e.k == "write" and e.d.get("val") is new and e.place.op == "L.fld" and e.place.a[0].op == "L.deref" and e.place.a[0].a[0] is st.node:
            return e.place.a[1], e
    return None, None


def tree(prog, ck, st, lf):
    cls = st.cls
    nidx = mk("init", mk("L.fld", mk("L.deref", st.node), "index"), "")
    nw = mk("init", mk("L.fld", mk("L.deref", st.node), "weight"), "")
    want = mk("ins", st.simp, nidx)
    self_ = lambda e: e.k == "call" and e.d["key"] == st.fn["key"]
    md = None
    for s, rows in st.rows:
        A = {noepoch(a): b for a, b in s.atoms.items()}
        # the counter
        incs = [e for e, ctx, _ in walk_ev(s.ev) if e.k == "write" and e.place is mk("L.fld", THISP, "nodeCount")]
        good = [e for e in incs if diff(noepoch(e.val), noepoch(e.d["old"]) if e.d.get("old") is not None else mk("void")) == 1]
        if rows:
            ck.require(len(incs) == 1 and len(good) == 1, "count", cls + " kept", "recording a simplex changes the simplex count %d times" % len(incs) if len(incs) != 1 else "recording a simplex sets the count to %s" % show(incs[0].val), st.where, [fmt_guards(s.atoms)])
        else:
            ck.require(not incs, "count", cls + " left out", "the simplex count changes although nothing is recorded", st.where, [fmt_guards(s.atoms)])
        calls = [(e, ctx) for e, ctx, _ in walk_ev(s.ev) if self_(e)]
        if not rows:
            if calls:
                # a coface of a rejected simplex would have to be rejected as well
                ck.bad("cofaces", cls, "larger simplices are tried although the smaller one was not recorded", calls[0][0].where(), [fmt_guards(s.atoms)])
            continue
        ck.require(len(rows) == 1, "contents", cls + " once", "one step records %d simplices" % len(rows), st.where, [fmt_guards(s.atoms)])
        e, lev, sset, wt, ctx = rows[0]
        if sset is None or wt is None:
            ck.und("contents", cls, show(e.val)[:200], e.where())
            continue
        sset, wt = noepoch(sset), noepoch(wt)
        alt = mk("ins", want, st.index)
        alt2 = mk("ins", mk("ins", st.simp, st.index), nidx)
        if sset in (want, alt, alt2):
            ck.ok("contents", cls)
        elif sset.op in ("ins", "list", "empty", "param") or sset is st.simp:
            ck.bad("contents", cls, "the recorded simplex is %s instead of the simplex so far extended by the node's vertex" % show(sset)[:160], e.where(), [fmt_guards(s.atoms)])
        else:
            ck.und("contents", cls, show(sset)[:200], e.where())
        # weight: the largest of the new distance, the weight so far and the node's weight
        D = None
        for x, _, _ in walk_ev(s.ev):
            if x.k == "index":
                for t, r, c in dist_reads(at(x.c, x.i)):
                    if t is at(x.c, x.i):
                        D = noepoch(t)
        cands = [("the distance to the point", D), ("the weight so far", st.w), ("the weight of the node", nw)]
        leaves = maxleaves(wt)
        known = [c for _, c in cands]
        if all(x in known for x in leaves):
            for nm, c in cands:
                if c is None:
                    continue
                if c in leaves or below(A, c, wt) or any(below(A, c, x) for x in leaves):
                    ck.ok("weight", cls + "/" + nm)
                else:
                    ck.bad("weight", cls + "/" + nm, "the recorded weight %s may be smaller than %s" % (show(wt)[:80], nm), e.where(), [fmt_guards(s.atoms)])
        elif isconst(wt) or wt.op == "init":
            ck.bad("weight", cls + "/source", "the recorded weight is %s" % show(wt)[:120], e.where(), [fmt_guards(s.atoms)])
        else:
            ck.und("weight", cls + "/source", show(wt)[:200], e.where())
        # position
        n = nosize(size(sset))
        if lev is not None:
            d = diff(nosize(noepoch(lev)), n)
            if d is None:
                ck.und("dimension", cls, "%s for a simplex of %s" % (show(lev)[:100], show(sset)[:100]), e.where())
            else:
                ck.require(d == -1, "dimension", cls, "a simplex of size n is filed under dimension %s" % ("n%+d" % d), e.where(), [fmt_guards(s.atoms)])
        G = mk("size", mk("init", st.L, ""))
        for a, b in A.items():
            if b and a.op == "==":
                l = addl(lin(nosize(a.a[0])), lin(nosize(a.a[1])), -1)
                g = l[0].get(G)
                if g in (1, -1):
                    d, k = addl(({x: -g * y for x, y in l[0].items() if x is not G}, -g * l[1]), lin(n), -1)
                    if not d and lev is None:
                        ck.require(k == -1, "dimension", cls + " new row", "a new dimension is opened at the wrong size", e.where(), [fmt_guards(s.atoms)])
                    elif not d:
                        ck.require(k >= 0, "dimension", cls + " existing row", "a simplex is filed under a dimension that does not exist", e.where(), [fmt_guards(s.atoms)])
                continue
            k = bound(G, nosize(a), b)
            if k is None:
                continue
            d = diff(nosize(k[1]), n)
            if d is None:
                continue
            # level of the simplex is n-1: a new row needs size(G) <= n-1, an existing one size(G) >= n
            if lev is None and k[0] == "ub":
                ck.require(d <= 0, "dimension", cls + " new row", "a new dimension is opened although it may exist already", e.where(), [fmt_guards(s.atoms)])
            elif lev is not None and k[0] == "lb":
                ck.require(d >= 0, "dimension", cls + " existing row", "a simplex is filed under a dimension that may not exist", e.where(), [fmt_guards(s.atoms)])
        # the new node must be found by later insertions
        news = [x.val for x, _, _ in walk_ev(s.ev) if x.k == "new"]
        F = None
        for nn in news:
            F, le_ = linkfield(st, s, nn)
            if F:
                break
        if F is None:
            ck.add("linked", cls, "bad" if news else "undecided", "the new node is not attached to the node it extends", st.where, [fmt_guards(s.atoms)])
            continue
        ck.ok("linked", cls)
        oldc = mk("init", mk("L.fld", mk("L.deref", st.node), F), "")
        sib = mk("L.fld", mk("L.deref", nn), "sibling")
        wsib = [x for x, _, _ in walk_ev(s.ev) if x.k == "write" and x.place is sib]
        if A.get(nz(oldc)) is True or A.get(nz(oldc)) is None:
            keep = wsib and noepoch(wsib[-1].val) is oldc
            if A.get(nz(oldc)) is True or wsib:
                ck.add("linked", cls + " siblings", "ok" if keep else "bad", "attaching the new node loses the nodes attached before", st.where, [fmt_guards(s.atoms)])
        # larger simplices through the nodes attached before
        guard = [(a, b) for a, b in A.items() if any(z.op == "init" and z.a[0].op == "L.fld" and z.a[0].a[0] is THISP and z.a[0].a[1] in ("maxDimension", "maxDim") for z in subterms(a))]
        for a, b in guard:
            M = [z for z in subterms(a) if z.op == "init" and z.a[0].op == "L.fld" and z.a[0].a[0] is THISP and z.a[0].a[1] in ("maxDimension", "maxDim")][0]
            k = bound(M, nosize(a), b)
            if k is None:
                continue
            d = diff(nosize(k[1]), n)
            if d is None:
                continue
            # with max dimension M, simplices of size n+1 are wanted while n <= M
            if calls:
                ck.require(k[0] != "lb" or d == 0, "dimension limit", cls + " go on", "simplices larger than the requested dimension allows are recorded" if d < 0 else "the largest requested simplices are left out", st.where, [fmt_guards(s.atoms)])
            elif k[0] == "ub":
                ck.require(d == 0, "dimension limit", cls + " stop", "simplices larger than the requested dimension allows are recorded" if d < 0 else "the largest requested simplices are left out", st.where, [fmt_guards(s.atoms)])
        if A.get(nz(oldc)) is False:
            ck.require(not calls or True, "cofaces", cls + " first", "")
            continue
        if not calls:
            kinds = [bound(M, nosize(a), b) for a, b in guard for M in subterms(a) if M.op == "init" and M.a[0].op == "L.fld" and M.a[0].a[0] is THISP and M.a[0].a[1] in ("maxDimension", "maxDim")]
            if (not guard or all(k is not None and k[0] == "lb" for k in kinds)) and A.get(nz(oldc)) is not False:
                ck.bad("cofaces", cls, "larger simplices are not tried when %s" % fmt_guards(s.atoms, 4), st.where, [fmt_guards(s.atoms)])
            continue
        if not guard:
            ck.bad("dimension limit", cls + " go on", "larger simplices are recorded without regard to the requested dimension", calls[0][0].where(), [fmt_guards(s.atoms)])
        ro = st.roles
        for c, cctx in calls:
            a = [noepoch(x) for x in c.args]
            ck.require(a[ro["index"]] is st.index, "cofaces", cls + " index", "the step continues with index %s" % show(a[ro["index"]])[:100], c.where())
            wa = a[ro["w"]]
            okw = wa is wt or all(x in maxleaves(wa) or any(below(A, x, y) for y in maxleaves(wa)) for x in leaves)
            if okw:
                ck.ok("cofaces", cls + " weight")
            elif wa in known or isconst(wa):
                ck.bad("cofaces", cls + " weight", "the step continues with weight %s, losing %s" % (show(wa)[:80], show(wt)[:80]), c.where(), [fmt_guards(s.atoms)])
            else:
                ck.und("cofaces", cls + " weight", show(wa)[:120], c.where())
            sa = a[ro["simp"]]
            if sa in (want, sset):
                ck.ok("cofaces", cls + " simplex")
            elif sa.op in ("ins", "list", "empty", "param"):
                ck.bad("cofaces", cls + " simplex", "the step continues with %s" % show(sa)[:120], c.where(), [fmt_guards(s.atoms)])
            else:
                ck.und("cofaces", cls + " simplex", show(sa)[:120], c.where())
            if not cctx and len(calls) == 1:
                ck.add("cofaces", cls + " all", "bad" if a[ro["node"]] is oldc else "undecided", "only one of the nodes attached before is tried", c.where(), [fmt_guards(s.atoms)])
            if cctx:
                chain(prog, ck, st.en, cctx[-1], c.args[ro["node"]], [oldc], "cofaces", cls, lambda p: any(self_(x) for x in p.ev))


def vertex(prog, ck, st, lf):
    """a new point becomes a vertex: filed under dimension 0 with weight 0, counted, and reachable"""
    fn, cls = st.ins, st.cls
    en = Engine(prog, opaque=lambda f: f["key"] == st.fn["key"] or f["name"].startswith("utils::"))
    cnt = mk("init", mk("L.fld", THISP, "indexCounter"), "")
    empty = mk("size", mk("init", mk("L.fld", THISP, "distMatrix"), ""))
    for s in en.run(fn, dyn=cls):
        if s.status != "ret":
            continue
        A = {noepoch(a): b for a, b in s.atoms.items()}
        pushes = [(e, ctx) for e, ctx, _ in walk_ev(s.ev) if e.k == "push" and (e.place is st.L or e.place.op == "L.elem" and e.place.a[0] is st.L)]
        tag = cls + (" first" if any(e.place is st.L for e, _ in pushes) else "")
        if A.get(nz(empty)) is False:
            ck.require(not pushes, "vertex", cls + " no distances", "a vertex is recorded without distances", w(fn))
            continue
        if len(pushes) != 1:
            ck.bad("vertex", tag + " once", "inserting a point records %d vertices" % len(pushes), w(fn), [fmt_guards(s.atoms)])
            continue
        e, ctx = pushes[0]
        ck.require(not ctx, "vertex", tag + " once", "the vertex is recorded inside a loop", e.where())
        if e.place is not st.L:
            ck.require(cval(e.place.a[1]) == 0, "vertex", tag + " dimension", "a vertex is filed under dimension %s" % show(e.place.a[1]), e.where())
        v = e.val
        while v.op == "push" and v.a[0].op == "empty":
            v = v.a[1]
        if v.op == "list" and len(v.a) == 1:
            v = v.a[0]
        if v.op == "pair":
            sset, wt = v.a
        elif v.op == "new":
            sset = wt = None
            for x, _, _ in walk_ev(s.ev):
                if x.k == "write" and x.place is mk("L.fld", mk("L.deref", v), "simplexSet"):
                    sset = x.val
                if x.k == "write" and x.place is mk("L.fld", mk("L.deref", v), "weight"):
                    wt = x.val
            if wt is None:
                wt = en.read(s, mk("L.fld", mk("L.deref", v), "weight"))
        else:
            ck.und("vertex", tag + " contents", show(v)[:120], e.where())
            continue
        if sset is None:
            ck.bad("vertex", tag + " contents", "the vertex has no simplex", e.where())
        else:
            sset = noepoch(sset)
            els = list(sset.a) if sset.op == "list" else ([sset.a[1]] if sset.op == "ins" and sset.a[0].op == "empty" else None)
            if els is None:
                ck.und("vertex", tag + " contents", show(sset)[:120], e.where())
            else:
                ck.require(els == [cnt], "vertex", tag + " contents", "the vertex is recorded as {%s}" % ", ".join(show(x) for x in els), e.where())
        if wt is not None and cval(wt) is not None:
            ck.require(cval(wt) == 0, "vertex", tag + " weight", "a vertex gets weight %s" % show(wt), e.where())
        running = ("runningVectorCount",) if any(f["short"] == "insertIterative" and f.get("cls") == cls for f in prog.functions.values()) and any(z.op == "L.fld" and z.a[1] == "runningVectorCount" for q in st.rows for a in q[0].atoms for z in subterms(a)) else ()
        for fld in ("nodeCount", "indexCounter") + running:
            ws = [x for x in s.ev if x.k == "write" and x.place is mk("L.fld", THISP, fld)]
            okc = len(ws) == 1 and ws[0].d.get("old") is not None and diff(noepoch(ws[0].val), noepoch(ws[0].d["old"])) == 1
            ck.require(okc, "count" if fld == "nodeCount" else "vertex", tag + " " + fld, "inserting a point %s" % ("does not advance %s" % fld if not ws else "sets %s to %s" % (fld, show(ws[-1].val)[:80])), w(fn), [fmt_guards(s.atoms)])
        # the walk to the end of the vertex chain
        head = A.get(nz(mk("init", mk("L.fld", THISP, "head"), "")))
        ws = [x for x in s.ev if x.k == "write" and x.place.op == "L.fld" and x.place.a[1] == "sibling" and x.val.op == "new"]
        hs = [x for x in s.ev if x.k == "write" and x.place is mk("L.fld", THISP, "head")]
        if head is True:
            ck.require(bool(ws) or bool(hs), "vertex", tag + " reachable", "the new vertex is not attached to the chain of vertices", w(fn), [fmt_guards(s.atoms)])
            for x in ws:
                at_ = x.place.a[0].a[0]
                nxt = mk("init", mk("L.fld", mk("L.deref", noepoch(at_)), "sibling"), "")
                if noepoch(x.d["old"]) is nxt and A.get(nz(nxt)) is False:
                    ck.ok("vertex", tag + " at the end")
                elif A.get(nz(nxt)) is None and at_.op != "lo":
                    ck.bad("vertex", tag + " at the end", "vertices attached after %s are lost" % show(at_)[:80], x.where())
                else:
                    ck.und("vertex", tag + " at the end", show(at_)[:100], x.where())
        elif head is False:
            ck.require(any(x.val.op == "new" for x in hs), "vertex", tag + " reachable", "the first vertex does not become the head", w(fn), [fmt_guards(s.atoms)])


def counts(prog, ck, cls):
    fn = method(prog, cls, "simplexCount", 0)
    for s in Engine(prog).run(fn, dyn=cls):
        if s.status != "ret":
            continue
        f = fieldname(s.ret)
        if f == "nodeCount":
            ck.ok("count", cls + " reported")
        elif f is not None or isconst(s.ret):
            ck.bad("count", cls + " reported", "the reported number of simplices is %s" % show(s.ret), w(fn))
        else:
            ck.und("count", cls + " reported", show(s.ret)[:120], w(fn))


def vertices(prog, ck, cls, lf):
    """the reported number of vertices is not the number of simplices"""
    fn = method(prog, cls, "vertexCount", 0)
    sc = method(prog, cls, "simplexCount", 0)
    if fn is None or sc is None or fn["cls"] != cls:
        return
    total = {noepoch(s.ret) for s in Engine(prog).run(sc, dyn=cls) if s.status == "ret"}
    L = mk("init", mk("L.fld", THISP, lf), "")
    for s in Engine(prog).run(fn, dyn=cls):
        if s.status != "ret":
            continue
        v = noepoch(s.ret)
        none = any(not b and a in (nz(size(L)), nz(size(at(L, INT(0))))) for a, b in s.atoms.items())
        if v in total:
            ck.bad("count", cls + " vertices", "the number of simplices is reported as the number of vertices", w(fn), [fmt_guards(s.atoms)])
        elif isconst(v) and not (none and cval(v) == 0):
            ck.bad("count", cls + " vertices", "the reported number of vertices is %s" % show(v), w(fn), [fmt_guards(s.atoms)])
        elif v.op == "size" and v.a[0].op == "at" and noepoch(v.a[0].a[0]) is L and cval(v.a[0].a[1]) not in (None, 0):
            ck.bad("count", cls + " vertices", "the reported number of vertices is that of %s" % show(v)[:100], w(fn), [fmt_guards(s.atoms)])
        else:
            ck.ok("count", cls + " vertices")


def treefind(prog, ck, cls):
    """looking a simplex up in a tree: every further vertex is sought among the children of the node reached, and what is reported is whether there is one"""
    for fn in sorted((f for f in prog.functions.values() if f.get("cls") == cls and f["short"] in ("find", "findIndex") and len(f["params"]) == 1 and "set<" in f["params"][0]["ty"]), key=lambda f: f["key"]):
        name, p = cls + "::" + fn["short"], fn["params"][0]
        v = mk("param", p["n"]) if p["m"] == "val" else mk("init", mk("L.ref", p["n"]), "")
        try:
            sts = Engine(prog, nomerge=True).run(fn, dyn=cls)
        except (PathLimit, Undecided) as ex:
            ck.und("lookup", name, str(ex)[:100], w(fn))
            continue
        recs = []
        for r, ctx, ow in loops_of(sts):
            if r not in recs:
                recs.append(r)
        walks = [(r, iv) for r in recs for iv in r.ivs if any(at(v, iv) in set(subterms(a)) for _, q in r.paths for a in q.atoms)]
        if fn["short"] == "find":
            for s in sts:
                dep = [a for a, b in s.atoms.items() if a.op == "nz" and node_value(a.a[0])]
                if s.status == "ret" and dep and isconst(s.ret):
                    ck.bad("lookup", name + " hit", "whether the simplex is stored is told from %s" % show(dep[0].a[0])[:100], w(fn), [fmt_guards(s.atoms)])
        if not walks:
            over = [r for r in recs for iv in r.ivs if any(a is lt(iv, size(v)) for _, q in r.paths for a in q.atoms)]
            if over and not any(at(v, iv) in set(subterms(x)) for r in over for iv in r.ivs for _, q in r.paths for x in list(q.store.values()) + [e.val for e in q.ev if getattr(e, "val", None) is not None] if hasattr(x, "op")):
                ck.bad("lookup", name + " step", "the vertices behind the first are never compared", "%s:%s" % (over[0].file, over[0].l))
                continue
            if any(s.ret is not None and not isconst(s.ret) for s in sts):
                ck.und("lookup", name, "no walk over the vertices recognised", w(fn))
            continue
        for s in sts:
            if s.status != "ret" or s.ret is None or isconst(s.ret):
                continue
            for x in subterms(s.ret):
                if x.op == "nz" and node_value(x.a[0]):
                    ck.bad("lookup", name + " hit", "whether the simplex is stored is told from %s" % show(x.a[0])[:100], w(fn), [fmt_guards(s.atoms)])
                    break
            else:
                ck.ok("lookup", name + " hit")
        for r, iv in walks:
            c = nz(iv)
            for kind, q in r.paths:
                if kind not in ("end", "cont"):
                    continue
                if q.atoms.get(c) is False:
                    continue
                hit = [a for a, b in q.atoms.items() if b and a.op == "==" and at(v, iv) in a.a]
                if hit:
                    o = [x for x in hit[0].a if x is not at(v, iv)]
                    ck.add("lookup", name + " step", "ok" if o and node_value(o[0]) else "undecided", show(hit[0])[:100], w(fn), [fmt_guards(q.atoms)])
                elif q.atoms.get(c) is True and not any(at(v, iv) in set(subterms(a)) for a in q.atoms) and len(walks) == 1:
                    ck.bad("lookup", name + " step", "a vertex is passed over without a node of that vertex", w(fn), [fmt_guards(q.atoms)])
                else:
                    ck.und("lookup", name + " step", fmt_guards(q.atoms)[:150], w(fn))


def treesearch(prog, ck, cls, lf):
    """lookups that answer yes or no: no as soon as there is no node for a vertex, yes once every vertex was met"""
    dims = [mk("init", mk("L.fld", THISP, x), "") for x in ("dimensions", lf)]
    for fn in sorted((f for f in prog.functions.values() if f.get("cls") == cls and f["short"] in ("find", "search") and f.get("body") and len(f["params"]) == 1 and "set<" in f["params"][0]["ty"]), key=lambda f: f["key"]):
        name = cls + "::" + fn["short"]
        try:
            sts = Engine(prog, nomerge=True).run(fn, dyn=cls)
        except (PathLimit, Undecided):
            continue
        recs = [r for r, _, _ in loops_of(sts)]
        for s in sts:
            if s.status != "ret" or s.ret is None or not isconst(s.ret):
                continue
            yes = not (s.ret is FALSE or cval(s.ret) == 0)
            if any(s.atoms.get(nz(size(d))) is False for d in dims):
                ck.require(not yes, "lookup", name + " empty", "an empty complex is said to hold the simplex", w(fn), [fmt_guards(s.atoms)])
                continue
            gone = [a for a, b in s.atoms.items() if not b and a.op == "nz" and a.a[0].op in ("lo", "lv", "init") and any(z.op == "L.fld" and z.a[1] in ("child", "sibling", "parent") for x in set(subterms(a)) | {y for r in recs for h in r.H for _, q in r.paths for y in subterms(q.store.get(h) or INT(0))} for z in ([x.a[0]] if x.op == "init" else []))]
            mid = any(b and a.op == "<" and a.a[0].op == "lv" for a, b in s.atoms.items())
            done = any(not b and a.op == "<" and a.a[0].op == "lo" and a.a[1].op == "size" for a, b in s.atoms.items())
            if gone and mid:
                ck.require(not yes, "lookup", name + " missing", "a simplex is said to be stored although a vertex has no node", w(fn), [fmt_guards(s.atoms)])
            elif done and not gone and not mid:
                ck.require(yes, "lookup", name + " found", "a simplex is said not to be stored although every vertex was met", w(fn), [fmt_guards(s.atoms)])


def node_value(t):
    """a number stored in a node"""
    t = noepoch(t)
    return t.op == "init" and t.a[0].op == "L.fld" and t.a[0].a[1] in ("index", "sortedIndex", "weight") or t.op == "fld" and t.a[1] in ("index", "sortedIndex")


def sumsizes(t, recs, G):
    """t is the sum of the sizes of G's rows"""
    sf = sumform(t, [r for r, _, _ in recs])
    if sf is None:
        return None
    n, i, body = sf
    if diff(noepoch(n), size(G)) is None:
        return None
    return diff(noepoch(n), size(G)) == 0 and noepoch(body) is size(at(G, i))


def arrayvertex(prog, ck):
    """every point inserted into the array list becomes one vertex, numbered after those before it"""
    cls = "simplexArrayList"
    fn = method(prog, cls, "insert", 1)
    if fn is None or fn.get("cls") != cls:
        return
    GP = mk("L.fld", THISP, "weightedGraph")
    G = mk("init", GP, "")
    p = fn["params"][0]
    vec = mk("param", p["n"]) if p["m"] == "val" else mk("init", mk("L.ref", p["n"]), "")
    n0 = size(at(G, INT(0)))
    try:
        sts = Engine(prog, opaque=lambda f: f["name"].startswith("utils::"), nomerge=True).run(fn, dyn=cls)
    except (PathLimit, Undecided) as ex:
        ck.und("vertex", cls, str(ex)[:100], w(fn))
        return
    for s in sts:
        if s.status != "ret":
            continue
        A = s.atoms
        rows = [(e, ctx) for e, ctx, _ in walk_ev(s.ev) if e.k == "push" and (e.place is GP and one(e.val) is not None and one(e.val)[0] is not None and len(one(e.val)[0]) == 1 or e.place.op == "L.elem" and e.place.a[0] is GP and cval(e.place.a[1]) == 0)]
        other = [e for e, ctx, _ in walk_ev(s.ev) if e.k in ("call", "assign", "unknown") and any(y is GP for y in (e.d.get("places") or ()))]
        if A.get(nz(size(vec))) is False:
            ck.require(not rows, "vertex", cls + " no coordinates", "a point without coordinates becomes a vertex", w(fn))
            continue
        if len(rows) != 1:
            wrote = [e for e, ctx, _ in walk_ev(s.ev) if e.k == "write" and (e.place is GP or e.place.op == "L.elem" and e.place.a[0] is GP) and e.d.get("how") not in ("push_back", "emplace_back")]
            if not rows and (other or wrote or GP in s.store and not any(e.k == "push" for e, _, _ in walk_ev(s.ev))):
                ck.und("vertex", cls + " once", "written in another way", w(fn))
            else:
                ck.bad("vertex", cls + " once", "inserting a point records %d vertices" % len(rows), w(fn), [fmt_guards(A)])
            continue
        e, ctx = rows[0]
        if not ck.require(not ctx, "vertex", cls + " once", "the vertex is recorded inside a loop", e.where()):
            continue
        els, wt = one(e.val) or (None, None)
        if els is None or len(els) != 1:
            ck.und("vertex", cls + " number", show(e.val)[:120], e.where())
            continue
        none, some = A.get(nz(size(G))) is False, atleast(A, addl(lin(size(G)), ({}, -1), 1))
        if e.place is GP:
            ck.require(none or not some, "vertex", cls + " row", "a vertex opens a new dimension although there are vertices", e.where(), [fmt_guards(A)])
        v = els[0]
        if diff(noepoch(v), n0) == 0:
            ck.require(not none, "vertex", cls + " number", "the first row is read before there is one", e.where(), [fmt_guards(A)])
        elif cval(v) == 0 and none:
            ck.ok("vertex", cls + " number")
        elif cval(v) is not None or diff(noepoch(v), n0) is not None:
            ck.bad("vertex", cls + " number", "the vertex of a new point is %s, whatever vertices there are" % show(v) if cval(v) is not None else "the vertex of a new point is %s" % show(v)[:80], e.where(), [fmt_guards(A)])
        else:
            ck.und("vertex", cls + " number", show(v)[:120], e.where())
        if cval(wt) is not None:
            ck.require(cval(wt) == 0, "vertex", cls + " weight", "a vertex gets weight %s" % show(wt), e.where())


def one(v):
    """([vertices], weight) of a recorded simplex, alone or as the only element of a row"""
    while v.op == "push" and v.a[0].op == "empty":
        v = v.a[1]
    if v.op == "list" and len(v.a) == 1:
        v = v.a[0]
    if v.op != "pair":
        return None
    x = v.a[0]
    while x.op == "push" and x.a[0].op == "empty":
        return [x.a[1]], v.a[1]
    return (list(x.a) if x.op == "list" else None), v.a[1]


def arraycounts(prog, ck):
    cls = "simplexArrayList"
    G = mk("init", mk("L.fld", THISP, "weightedGraph"), "")
    fn = method(prog, cls, "simplexCount", 0)
    for s in Engine(prog).run(fn, dyn=cls):
        r = sumsizes(s.ret, loops_of([s]), G)
        if r is None and isconst(s.ret):
            r = False
        x = s.ret
        if r is None and x is not None and x.op == "lo":
            for q, _, _ in loops_of([s]):
                if q.lid == x.a[0] and cval(q.init.get(x.a[1], mk("void"))) not in (None, 0):
                    r = False
                ps = [p.store[x.a[1]] for k, p in q.paths if x.a[1] in p.store] if q.lid == x.a[0] else []
                if r is None and ps and len(ps) == len(q.paths) and not any(z.op == "lv" and z.a[1] is x.a[1] for v in ps for z in subterms(v)) and all(v.op == "size" or isconst(v) for v in ps):
                    r = False       # only the last row counts
        ck.add("count", cls + " reported", {True: "ok", False: "bad", None: "undecided"}[r], "the reported number of simplices is %s" % show(s.ret)[:120], w(fn))
    fn = method(prog, cls, "vertexCount", 0)
    for s in Engine(prog).run(fn, dyn=cls):
        if s.atoms.get(nz(size(G))) is False:
            ck.require(cval(s.ret) == 0, "count", cls + " vertices/empty", "an empty complex reports %s vertices" % show(s.ret), w(fn))
        elif noepoch(s.ret) is size(at(G, INT(0))):
            ck.ok("count", cls + " vertices")
        elif s.ret.op == "size" or isconst(s.ret) or diff(noepoch(s.ret), size(at(G, INT(0)))) is not None:
            ck.bad("count", cls + " vertices", "the reported number of vertices is %s" % show(s.ret)[:120], w(fn))
        else:
            ck.und("count", cls + " vertices", show(s.ret)[:120], w(fn))


def expand(prog, ck):
    """higher simplices of the array list are built from pairs of simplices with all faces present"""
    cls = "simplexArrayList"
    fn = method(prog, cls, "expandDimensions", 1)
    G = mk("L.fld", THISP, "weightedGraph")
    en = Engine(prog, opaque=lambda f: f["name"].startswith("utils::") or f["short"] == "findWeight", nomerge=True, cap=6000)
    try:
        sts = en.run(fn, dyn=cls)
    except (PathLimit, Undecided) as ex:
        ck.und("expansion", cls, str(ex), w(fn))
        return
    orders(prog, ck, cls, fn, sts)
    dim = mk("param", fn["params"][0]["n"])
    isfind = lambda t: t.op == "call" and t.a[0].split("::")[-1] == "findWeight"
    nosite = 0
    for s in sts:
        if s.status != "ret":
            continue
        recs = loops_of([s])
        allr = [r for r, _, _ in recs]
        # the nest around the recording of a simplex
        sites = {}
        for e, ctx, own in walk_ev(s.ev):
            if e.k == "push" and len(ctx) >= 3 and (e.place is G or e.place.op == "L.elem" and e.place.a[0] is G):
                sites.setdefault((e.l, e.fn), []).append((e, ctx, own))
        if not sites:
            nosite += 1
        for key, es in sites.items():
            e, ctx, own = es[0]
            dl, jl, tl = ctx[0], ctx[1], ctx[2]
            div = [x for x in dl.ivs]
            ivj = [x for x in jl.ivs]
            ivt = [x for x in tl.ivs]
            if not (len(div) == len(ivj) == len(ivt) == 1):
                ck.und("expansion", cls + " loops", "loop variables", e.where())
                continue
            d, j, t = div[0], ivj[0], ivt[0]
            g = irange(dl, d)
            row = lambda x: at(x, sub(d, INT(1)))
            if g and g.known and g.lo is not None and g.hi is not None:
                k = diff(g.hi, add(dim, INT(1)))
                lo = cval(g.lo)
                if k is None or lo is None:
                    ck.und("expansion", cls + " dimensions", repr(g), "%s:%s" % (dl.file, dl.l))
                else:
                    ck.require(k == 0 and lo == 2, "expansion", cls + " dimensions", "simplices of sizes %s+1..%s+1 are built instead of 3..dim+1" % (show(g.lo), show(sub(g.hi, INT(1)))), "%s:%s" % (dl.file, dl.l))
            for r, iv, lo, nm in ((jl, j, INT(0), "first"), (tl, t, add(j, INT(1)), "second")):
                gg = irange(r, iv)
                if gg is None or not gg.known or gg.hi is None or gg.lo is None:
                    ck.und("expansion", cls + " pairs", nm, "%s:%s" % (r.file, r.l))
                    continue
                isrow = gg.hi.op == "size" and gg.hi.a[0].op == "at" and diff(gg.hi.a[0].a[1], sub(d, INT(1))) == 0
                k = diff(gg.lo, lo)
                tail = bound_tail(gg.hi, d)
                if not isrow and gg.hi.op == "size" and gg.hi.a[0].op == "at" and diff(gg.hi.a[0].a[1], sub(d, INT(1))) is not None:
                    ck.bad("expansion", cls + " pairs/" + nm, "the loop over pairs of simplices is limited by the number of simplices of another dimension", "%s:%s" % (r.file, r.l))
                elif fixedlimit(r):
                    ck.bad("expansion", cls + " pairs/" + nm, "the loop over pairs of simplices runs %s" % fixedlimit(r), "%s:%s" % (r.file, r.l))
                elif gg.extra:
                    ck.und("expansion", cls + " pairs", "pairs are also limited by %s" % [show(a)[:80] for a, b in gg.extra], "%s:%s" % (r.file, r.l))
                elif k is None or (not isrow and tail is None):
                    ck.und("expansion", cls + " pairs", repr(gg)[:160], "%s:%s" % (r.file, r.l))
                else:
                    ck.require(k <= 0 and (isrow or tail >= (0 if nm == "second" else -1)), "expansion", cls + " pairs/" + nm, "pairs of simplices are left out: %r" % gg, "%s:%s" % (r.file, r.l))
            for kind, p in dl.paths:
                if any(x.k == "loop" and x.rec.lid == jl.lid for x in p.ev):
                    continue
                A = {noepoch(a): b for a, b in p.atoms.items()}
                own_ = {a: b for a, b in A.items() if a not in {noepoch(z) for z in dl.entry} and a not in {noepoch(z) for z in dl.hdr[0]}}
                isG = lambda x: x.op in ("lv", "init", "lo") and x.a[-1] is G or x.op == "init" and x.a[0] is G
                gs = {z for a in own_ for z in subterms(a) if z.op == "size" and (isG(z.a[0]) or z.a[0].op == "at" and isG(z.a[0].a[0]) and diff(z.a[0].a[1], sub(d, INT(1))) == 0)}
                nd = noepoch(d)
                fine = False
                for z in gs:
                    if isG(z.a[0]):
                        fine = fine or atleast(own_, addl(addl(lin(nd), lin(z), -1), ({}, -1), 1))
                    else:       # d vertices: a simplex of d+1 has d+1 faces of that size
                        fine = fine or atleast(own_, addl(lin(nd), lin(z), -1)) or own_.get(nz(z)) is False
                ck.add("expansion", cls + " goes on", "ok" if fine else ("bad" if gs else "undecided"), "no larger simplices are built when %s" % fmt_guards(own_, 4), "%s:%s" % (dl.file, dl.l))
            for r, nm in ((jl, "first"), (tl, "second")):
                for kind, p in r.paths:
                    if kind != "end":
                        ck.bad("expansion", cls + " pairs/" + nm, "the loop over pairs stops early when %s" % fmt_guards(dict((a, b) for a, b in p.atoms.items() if a not in r.entry), 4), "%s:%s" % (r.file, r.l))
        # one pair
        tls = {}
        for key, es in sites.items():
            tls[es[0][1][2].lid] = es[0][1][2]
            if len(es[0][1][0].ivs) == 1:
                recording(ck, cls, list(es[0][1][0].ivs)[0], es[0][1][2], G, isfind, s)
        for tl in tls.values():
            for kind, p in tl.paths:
                A = p.atoms
                rec_ = [x for x in p.ev if x.k == "push" and (x.place is G or x.place.op == "L.elem" and x.place.a[0] is G)]
                finds = [x.d["res"] for x in p.ev if x.k == "call" and isfind(x.d["res"])]
                missing = [f for f in finds if A.get(lt(f, INT(0))) is True]
                if rec_:
                    ck.require(not missing, "expansion", cls + " faces", "a simplex is recorded although a face is missing", rec_[0].where(), [fmt_guards(A)])
                for x in rec_:
                    v = x.val
                    while v.op == "push" and v.a[0].op == "empty":
                        v = v.a[1]
                    if v.op == "list" and len(v.a) == 1:
                        v = v.a[0]
                    if v.op != "pair":
                        ck.und("expansion", cls + " weight", show(v)[:120], x.where())
                        continue
                    wt = v.a[1]
                    if x.place.op == "L.elem":
                        d = [iv for iv in allivs(recs) if True]
                    base = wt
                    loops = [q.rec for q in p.ev if q.k == "loop"]
                    if base.op == "lo":
                        for r in loops:
                            if r.lid == base.a[0]:
                                expandloop(ck, en, r, base.a[1], cls, isfind)
                                base = r.init[base.a[1]]
                                break
                    seconds = [z for z in weights_read(p)]
                    for q in p.ev:
                        if q.k == "call" and isop(q.d["res"], "symmetricDiff"):
                            for y in q.d["res"].a[1:3]:
                                if isinstance(y, T) and y.op == "fld" and y.a[1] == "first" and getf(y.a[0], "second") not in seconds:
                                    seconds.append(getf(y.a[0], "second"))
                    leaves = maxleaves(base)
                    for z in seconds + [f for f in finds if f not in missing]:
                        if z in leaves or below(A, z, base) or any(below(A, z, y) for y in leaves):
                            ck.ok("expansion", cls + " weight")
                        else:
                            ck.bad("expansion", cls + " weight", "the recorded weight %s may be smaller than %s" % (show(base)[:80], show(z)[:80]), x.where(), [fmt_guards(A, 6)])


    joined(prog, ck, cls, sts, isfind)
    if nosite == len([s for s in sts if s.status == "ret"]):
        ck.und("expansion", cls, "no recording of larger simplices recognised", w(fn))


def recording(ck, cls, d, tl, G, isfind, s):
    """where a simplex goes, that it goes there once, and that weight zero does not keep it out"""
    R = "expansion"
    isG = lambda x: x.op in ("lv", "lo") and x.a[1] is G or x.op == "init" and x.a[0] is G
    later = any(e.k in ("erase", "uniq") and any(x is G for x in chain_(e.d.get("place"))) for e, _, _ in walk_ev(s.ev)) or any(x.op in ("uniq", "erased") for v in s.store.values() if isinstance(v, T) for x in subterms(v))
    for kind, p in tl.paths:
        if kind not in ("end", "cont"):
            continue
        A = {noepoch(a): b for a, b in p.atoms.items() if a not in tl.entry}
        rec_ = [x for x in p.ev if x.k == "push" and (x.place is G or x.place.op == "L.elem" and x.place.a[0] is G)]
        env = {noepoch(d): 3}
        sizes = {x for a in A for x in subterms(a) if x.op == "size" and isG(x.a[0])}
        for x in rec_:
            if x.place is G:
                env.update({z: 4 for z in sizes})
                hit = [a for a in A if sizes & set(subterms(a))]
                vs = [value(a, env) for a in hit]
                if hit and None not in vs and all(bool(v) == A[a] for a, v in zip(hit, vs)):
                    ck.bad(R, cls + " row", "a second list of simplices of %s vertices is started" % "d+1", x.where(), [fmt_guards(p.atoms, 4)])
                elif hit and None not in vs:
                    ck.ok(R, cls + " row")
                else:
                    ck.und(R, cls + " row", fmt_guards(p.atoms, 4), x.where())
            else:
                k = diff(x.place.a[1], d)
                ck.add(R, cls + " row", "undecided" if k is None else "ok" if k == 0 else "bad", "a simplex of d+1 vertices is put in the list of those with d+1%+d" % (k or 0), x.where())
                told = [a for a in A if a.op == "has" or any(z.op in ("has", "find", "findif", "count", "f:find", "f:find_if", "f:any_of", "f:none_of", "f:count") for z in subterms(a)) or any(e.k == "loop" for e in p.ev) and any(z.op in ("lo", "ret") and not isG(z) and any(y.k == "loop" and y.rec.lid == z.a[0] and not any(q.k == "call" and isfind(q.d["res"]) for _, pp in y.rec.paths for q in pp.ev) and y.rec.ivs is not None and any(at_row(zz, isG, d) for _, pp in y.rec.paths for zz in subterms_of(pp.atoms)) for y in p.ev) for z in subterms(a))]
                other = any(e.k == "call" and isinstance(e.d.get("res"), T) and not isfind(e.d["res"]) and not any(isop(e.d["res"], n) for n in SETS + ("getSubsets",)) for e in p.ev)
                if told:
                    ck.ok(R, cls + " once")
                elif later or other or any(z.op == "at" and isG(z.a[0]) and diff(z.a[1], d) == 0 for a in A for z in subterms(a)):
                    ck.und(R, cls + " once", fmt_guards(p.atoms, 4), x.where())
                else:
                    ck.bad(R, cls + " once", "a simplex is recorded again for every pair of its faces", x.where(), [fmt_guards(p.atoms, 4)])
        if rec_:
            continue
        # all faces present with weight zero, one shared vertex, not recorded yet
        for n in (3, 4):
            env = {noepoch(d): 2}
            env.update({z: n for z in sizes if n >= 2})
            rest, ok = 0, True
            for a, b in A.items():
                for z in subterms(a):
                    if z.op == "size" and isop(z.a[0], "symmetricDiff"):
                        env[z] = 2
                    elif z.op == "size" and isop(z.a[0], "setIntersect"):
                        env[z] = 1
                    elif isfind(z) or z.op == "fld" and z.a[1] == "second":
                        env[z] = 0.0
                    elif z.op == "has" and any(y.op == "pair" for y in subterms(z)):
                        env[z] = False
                if a.op == "<" and a.a[0].op == "lo" and b is False or a in {noepoch(h) for alt in tl.hdr for h in alt}:
                    continue        # an inner loop ran to its end
                v = value(a, env)
                if v is None:
                    rest += 1
                elif bool(v) != b:
                    ok = False
                    break
            finds = [e for e in p.ev if e.k == "call" and isfind(e.d["res"])]
            if ok and not rest and finds:
                ck.bad(R, cls + " zero weight", "a simplex whose edges all have weight zero is left out", finds[0].where(), [fmt_guards(p.atoms, 5)])
                break


def at_row(z, isG, d):
    return z.op == "at" and isG(z.a[0]) and diff(z.a[1], d) == 0


def chain_(pl):
    while isinstance(pl, T):
        yield pl
        pl = pl.a[0] if pl.op.startswith("L.") and pl.a and isinstance(pl.a[0], T) else None


def vparts(x, recs, seen=()):
    """the vertex sets a list of vertices is put together from (None: not told)"""
    x = noepoch(x)
    if x.op in ("sorted", "setof", "uniq", "rev", "reversed"):
        return vparts(x.a[0], recs, seen)
    if x.op == "empty":
        return frozenset()
    if x.op == "list":
        return frozenset(x.a)
    if x.op in ("push", "ins"):
        a = vparts(x.a[0], recs, seen)
        if a is None:
            return None
        e = noepoch(x.a[1])
        if e.op == "at" and e.a[1].op == "lv" and any(r.lid == e.a[1].a[0] and whole(r, e.a[1], e.a[0]) for r in recs):
            b = vparts(e.a[0], recs, seen)
            return None if b is None else a | b
        return a | {e}
    if x.op == "cat":
        out = frozenset()
        for y in x.a:
            b = vparts(y, recs, seen)
            if b is None:
                return None
            out |= b
        return out
    if x.op == "call" and x.a[0].split("::")[-1] == "setUnion":
        out = frozenset()
        for y in x.a[1:3]:
            b = vparts(y, recs, seen)
            if b is None:
                return None
            out |= b
        return out
    if x.op in ("call", "at", "fld"):
        return frozenset([x])
    if x.op in ("lo", "lv"):
        k = (x.a[0], x.a[1])
        if k in seen:
            return frozenset()
        out, hit = frozenset(), False
        for r in recs:
            if r.lid == x.a[0] and x.a[1] in r.H:
                hit = True
                for v in [r.init.get(x.a[1])] + [p.store.get(x.a[1]) for q, p in r.paths if q in ("end", "cont", "brk")]:
                    if v is None:
                        continue
                    b = vparts(v, recs, seen + (k,))
                    if b is None:
                        return None
                    out |= b
        return out if hit else None
    return None


def whole(r, iv, c):
    g = irange(r, iv)
    return bool(g and g.known and g.step == 1 and g.lo is not None and cval(g.lo) == 0 and g.hi is not None and noepoch(g.hi) is noepoch(size(c)) and not g.extra)


def isop(t, n):
    return t.op == "call" and t.a[0].split("::")[-1] == n


def joined(prog, ck, cls, sts, isfind):
    """what a pair of simplices is joined to, and which faces are looked up for it"""
    for s in sts:
        recs = [r for r, _, _ in loops_of([s])]
        for r in recs:
            for kind, p in r.paths:
                if kind not in ("end", "cont"):
                    continue
                rec_ = [x for x in p.ev if x.k == "push" and one(x.val) is not None and (x.place.op == "L.fld" and x.place.a[1] == "weightedGraph" or x.place.op == "L.elem" and x.place.a[0].op == "L.fld" and x.place.a[0].a[1] == "weightedGraph")]
                for x in rec_:
                    v = x.val
                    while v.op == "push" and v.a[0].op == "empty":
                        v = v.a[1]
                    if v.op == "list" and len(v.a) == 1:
                        v = v.a[0]
                    mine = [q for q in recs if any(e.k == "loop" and e.rec is q for e, _, _ in walk_ev(p.ev))]
                    us = vparts(v.a[0], mine)
                    pair = None
                    for e, _, _ in walk_ev(p.ev):
                        if e.k == "call" and isop(e.d["res"], "symmetricDiff"):
                            pair = noepoch(e.d["res"])
                    A = {noepoch(k): y for k, y in p.atoms.items()}
                    m = [t for t in subterms_of(A) if isop(t, "setIntersect") and pair is not None and {t.a[1], t.a[2]} == {pair.a[1], pair.a[2]}]
                    if us is None or pair is None:
                        ck.und("expansion", cls + " vertices", show(v.a[0])[:150], x.where())
                        continue
                    o = ascending(v.a[0], mine)
                    if o is False and pair in us and len(us) > 1:
                        ck.bad("expansion", cls + " order/recorded", "a simplex is recorded with its vertices out of order, which no look-up finds", x.where(), [show(v.a[0])[:150]])
                    a, b = pair.a[1], pair.a[2]
                    rows = []
                    for y in (a, b):
                        if y.op == "fld" and y.a[1] == "first" and y.a[0].op == "at" and y.a[0].a[0].op == "at":
                            rows.append((y.a[0].a[0], y.a[0].a[1]))
                    if len(rows) == 2:
                        ck.require(rows[0][0] is rows[1][0] and rows[0][1] is not rows[1][1], "expansion", cls + " pair", "a simplex is compared with %s" % ("itself" if rows[0] == rows[1] else "one of another dimension"), x.where(), [show(pair)[:200]])
                    si = [t for t in us if isop(t, "setIntersect") and {t.a[1], t.a[2]} == {a, b}]
                    sub_ = [t for t in us if t.op == "at" and isop(t.a[0], "getSubsets") and isop(t.a[0].a[-1] if len(t.a[0].a) == 2 else t.a[0].a[1], "setIntersect")]
                    alien = [t for t in us if t not in si and t not in sub_ and t is not pair and t not in (a, b)]
                    if (pair in us and (si or sub_)) or {a, b} <= us:
                        ck.ok("expansion", cls + " vertices")
                    elif alien:
                        ck.und("expansion", cls + " vertices", show(v.a[0])[:150], x.where())
                    elif any(size(t) in set(subterms_of(A)) and not atleast(A, addl(lin(size(t)), ({}, -1), 1)) for t in m):
                        continue        # no shared vertex: cannot be with two that are not
                    else:
                        ck.bad("expansion", cls + " vertices", "the recorded simplex does not hold all vertices of the two it is joined from: %s" % ", ".join(sorted(show(t)[:60] for t in us)), x.where(), [fmt_guards(p.atoms, 4)])
                    single = any(y and k.op == "==" and size(t) in k.a and any(cval(z) == 1 for z in k.a) for t in m for k, y in A.items())
                    n = 0
                    for e, ctx, _ in walk_ev(p.ev):
                        if not (e.k == "call" and isfind(e.d["res"])):
                            continue
                        n += 1
                        fs = vparts(e.args[0], mine)
                        if fs is None:
                            ck.und("expansion", cls + " face", show(e.args[0])[:120], e.where())
                            continue
                        if fs == {pair}:
                            ck.require(single or not m, "expansion", cls + " face", "the face looked up has only the two vertices not shared, whatever the dimension", e.where(), [fmt_guards(p.atoms, 4)])
                        elif pair in fs and any(t.op == "at" and isop(t.a[0], "getSubsets") for t in fs) and len(fs) == 2:
                            ck.ok("expansion", cls + " face")
                        elif pair not in fs and all(t.op == "at" and isop(t.a[0], "getSubsets") or t in si for t in fs):
                            ck.bad("expansion", cls + " face", "the face looked up lacks the vertices that are not shared", e.where())
                        else:
                            ck.und("expansion", cls + " face", show(e.args[0])[:120], e.where())
                    if not n and m and (single or any(y and k.op == "<" and size(t) in [z for z in k.a] for t in m for k, y in A.items())):
                        ck.bad("expansion", cls + " face", "a simplex is recorded without looking for its other faces", x.where(), [fmt_guards(p.atoms, 5)])


def subterms_of(A):
    out = set()
    for a in A:
        out |= set(subterms(a))
    return out


def bound_tail(hi, d):
    """hi = size(row d-1)+k -> k"""
    dd, k = lin(hi)
    if len(dd) == 1:
        t, c = list(dd.items())[0]
        if c == 1 and t.op == "size" and t.a[0].op == "at" and diff(t.a[0].a[1], sub(d, INT(1))) == 0:
            return k
    return None


def allivs(recs):
    for r, _, _ in recs:
        yield from r.ivs


def weights_read(p):
    out = []
    for a in p.atoms:
        for z in subterms(a):
            if z.op == "fld" and z.a[1] == "second" and z.a[0].op == "at" and z not in out:
                out.append(z)
    return out


SETS = ("symmetricDiff", "setIntersect", "setUnion", "setXOR")


def ascending(x, recs, seen=()):
    """is this list of vertices in ascending order? (None: not told)"""
    x = noepoch(x)
    if x.op in ("sorted", "setof", "empty"):
        return True
    if x.op == "call":
        return True if x.a[0].split("::")[-1] in SETS else None
    if x.op == "fld" and x.a[1] == "first" and x.a[0].op == "at":
        return True
    if x.op in ("push", "cat", "rev", "reversed"):
        return False
    if x.op in ("lo", "lv"):
        if x in seen:
            return True
        out = True
        for r in recs:
            if r.lid == x.a[0] and x.a[1] in r.H:
                for v in [r.init.get(x.a[1])] + [p.store.get(x.a[1]) for k, p in r.paths if k in ("end", "cont")]:
                    if v is None or noepoch(v) is mk("lv", r.lid, x.a[1]):
                        continue
                    o = ascending(v, recs, seen + (x, mk("lv", r.lid, x.a[1]), mk("lo", r.lid, x.a[1])))
                    if o is False:
                        return False
                    out = out and o
        return out
    return None


def orders(prog, ck, cls, fn, sts):
    """lists looked up among the stored ones, or declared sorted, are in ascending order"""
    recs = [r for r, _, _ in loops_of(sts)]
    seen = set()
    for r in recs:
        for _, p in r.paths:
            for e in p.ev:
                if e.k != "call":
                    continue
                n = e.name.split("::")[-1]
                args = [a for a in e.args if isinstance(a, T)]
                if n in ("find", "findWeight") and e.name.startswith(cls) and len(args) == 1:
                    ops, what = args, "a face is looked up with its vertices out of order, which no stored simplex equals"
                elif n in SETS and len(args) == 3 and args[2] is TRUE:
                    ops, what = args[:2], "a list is declared sorted that is not"
                else:
                    continue
                for a in ops:
                    if (e.l, e.fn, a) in seen:
                        continue
                    seen.add((e.l, e.fn, a))
                    o = ascending(a, recs)
                    ck.add("expansion", cls + " order/" + n, {True: "ok", False: "bad", None: "undecided"}[o], what + ": " + show(a)[:100], e.where(), [fmt_guards(p.atoms, 4)])


def expandloop(ck, en, r, h, cls, isfind):
    cur = mk("lv", r.lid, h)
    for kind, p in r.paths:
        finds = [x.d["res"] for x in p.ev if x.k == "call" and isfind(x.d["res"])]
        v = en.read(p, h)
        for f in finds:
            if p.atoms.get(lt(f, INT(0))) is True:
                vals = [(x, y) for x, y in p.store.items() if x.op == "L.var"]
                neg = [x for x, y in vals if y is FALSE or cval(y) is not None and cval(y) <= 0]
                found = [q for _, q in r.paths if any(x.k == "call" and isfind(x.d["res"]) and q.atoms.get(lt(x.d["res"], INT(0))) is not True for x in q.ev)]
                chg = [x for x in r.H if x.op == "L.var" and x is not h and en.read(p, x) is not mk("lv", r.lid, x) and not any(noepoch(en.read(q, x)) is noepoch(en.read(p, x)) for q in found)]
                good = bool(neg) and (kind == "brk" or any(x in r.H for x in neg)) or kind == "ret"
                ck.add("expansion", cls + " faces", "ok" if good else ("undecided" if kind == "brk" or chg else "bad"), "a missing face is ignored", "%s:%s" % (r.file, r.l), [fmt_guards(p.atoms, 4)])
                continue
            lv_ = maxleaves(v)
            for z in (f, cur):
                ck.require(z in lv_ or below(p.atoms, z, v) or any(below(p.atoms, z, y) for y in lv_), "expansion", cls + " weight", "the weight %s may be smaller than %s" % (show(v)[:60], show(z)[:60]), "%s:%s" % (r.file, r.l), [fmt_guards(p.atoms, 4)])


def lookup(prog, ck):
    """searching the array list by simplex"""
    cls = "simplexArrayList"
    G = mk("init", mk("L.fld", THISP, "weightedGraph"), "")
    for name in ("find", "findWeight"):
        fs = [f for f in prog.functions.values() if f.get("cls") == cls and f["short"] == name and len(f["params"]) == 1 and "vector" in f["params"][0]["ty"]]
        for fn in fs:
            p = fn["params"][0]
            v = mk("param", p["n"]) if p["m"] == "val" else mk("init", mk("L.ref", p["n"]), "")
            row = at(G, sub(size(v), INT(1)))
            for s in Engine(prog, nomerge=True).run(fn, dyn=cls):
                if s.status != "ret":
                    continue
                recs = loops_of([s])
                hit = [a for a, b in s.atoms.items() if b and a.op == "==" and v in a.a]
                if hit:
                    other = [x for x in hit[0].a if x is not v][0]
                    el = other.a[0] if other.op == "fld" and other.a[1] == "first" else None
                    if el is None or el.op != "at":
                        ck.und("lookup", name, show(other)[:100], w(fn))
                        continue
                    if name == "find":
                        ck.require(s.ret is TRUE, "lookup", name + " hit", "a stored simplex is reported as %s" % show(s.ret), w(fn), [fmt_guards(s.atoms)])
                    else:
                        ck.require(noepoch(s.ret) is noepoch(getf(el, "second")), "lookup", name + " hit", "the weight reported for a stored simplex is %s" % show(s.ret)[:100], w(fn), [fmt_guards(s.atoms)])
                    if noepoch(el.a[0]) is row:
                        ck.ok("lookup", name + " dimension")
                        A = {noepoch(a): b for a, b in s.atoms.items()}
                        ck.require(atleast(A, addl(lin(size(G)), lin(size(v)), -1)) and atleast(A, addl(lin(size(v)), ({}, -1), 1)), "lookup", name + " present", "the row of the simplex is read although the complex may not have that dimension", w(fn), [fmt_guards(s.atoms)])
                    elif el.a[0].op == "at" and noepoch(el.a[0].a[0]) is G and diff(el.a[0].a[1], sub(size(v), INT(1))) is not None:
                        ck.bad("lookup", name + " dimension", "a simplex is looked up under the wrong dimension: %s" % show(el.a[0])[:100], w(fn))
                    else:
                        ck.und("lookup", name + " dimension", show(el.a[0])[:100], w(fn))
                    for r, ctx, _ in recs:
                        for iv in r.ivs:
                            if iv is el.a[1]:
                                vv = verdict(r, iv, INT(0), size(row), [q for q, _, _ in recs])
                                ck.add("lookup", name + " all", {True: "ok", False: "bad", None: "undecided"}[vv[0]], "the search %s" % vv[1], "%s:%s" % (r.file, r.l))
                                for kind, q in r.paths:
                                    h2 = [a for a, b in q.atoms.items() if b and a.op == "==" and v in a.a]
                                    if kind in ("brk", "ret") and not h2:
                                        ck.bad("lookup", name + " all", "the search is given up early", "%s:%s" % (r.file, r.l), [fmt_guards(q.atoms)])
                else:
                    if not recs:
                        # nothing searched: there must be no row for this size
                        A = {noepoch(a): b for a, b in s.atoms.items()}
                        none_ = A.get(nz(size(v))) is False or atleast(A, ({size(v): -1}, 0)) or atleast(A, addl(addl(lin(size(v)), lin(size(G)), -1), ({}, -1), 1))
                        if not none_:
                            ck.bad("lookup", name + " searched", "the simplex is not looked for when %s" % fmt_guards(s.atoms, 4), w(fn), [fmt_guards(s.atoms)])
                    if name == "find":
                        ck.add("lookup", name + " miss", "ok" if s.ret is FALSE or cval(s.ret) == 0 else ("bad" if s.ret is TRUE else "undecided"), "a simplex that was not found is reported as %s" % show(s.ret)[:60], w(fn), [fmt_guards(s.atoms)])
                    else:
                        c = cval(s.ret)
                        ck.add("lookup", name + " miss", "ok" if c is not None and c < 0 else ("bad" if c is not None else "undecided"), "the weight of a simplex that was not found is %s" % show(s.ret)[:60], w(fn), [fmt_guards(s.atoms)])
