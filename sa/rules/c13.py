"""C13 boundary tables: every face of every simplex is entered, every position is reduced over every row, and positions are offset by the lower dimensions."""
from ..common import *
from ..loops import *
from ..trees import noepoch
from .c09 import w, strip
from .c12 import par

TITLE = "boundary tables and their reduction"

XORS = ("f:set_symmetric_difference",)
OPAQUE = {"checkFace", "writeDebug", "writeLog", "print1DVector", "getRankNull", "createBoundaryMatrix", "createBoundarySets", "getAllEdges", "getIndexEdges", "getFaces",
          "reduceBoundaryMatrix", "boundaryMatrix", "setIntersect", "extractBoundaries"}


def run(prog, ck):
    for fn in sorted(prog.functions.values(), key=lambda f: f["key"]):
        n, s, ps = fn["name"], fn["short"], fn["params"]
        rows = len(ps) and "vector<std::" in ps[0]["ty"] and "graphEntry" not in ps[0]["ty"]
        if s in ("getRankNull", "reduceBoundaryMatrix") and rows:
            reduction(prog, ck, fn, "set<" in ps[0]["ty"])
        elif s == "getRankNull":
            lazy(prog, ck, fn)
        if s in ("createBoundaryMatrix", "createBoundarySets", "boundaryMatrix") or (s == "getRankNull" and not rows):
            table(prog, ck, fn)
        if n in ("optPersistencePairs::runPipe", "persistencePairs::createBoundaryMatrix") or (s == "getRankNull" and not rows):
            offsets(prog, ck, fn)
    ck.expect("positions", 4)
    ck.expect("search", 4)
    ck.expect("pivot", 4)
    ck.expect("eliminate", 5)
    ck.expect("cleared face", 3)
    ck.expect("table", 4)
    ck.expect("offset", 4)
    ck.expect("rows read", 1)


def I(fn):
    t = "" if fn["short"] != "getRankNull" else "(sets)" if "vector<std::set" in fn["params"][0]["ty"] else "(simplices)" if "graphEntry" in fn["params"][0]["ty"] else "(matrix)"
    return fn["name"] + t


def states(prog, ck, fn, rule):
    try:
        return Engine(prog, opaque=lambda f: f["short"] in OPAQUE and f["key"] != fn["key"], nomerge=True).run(fn)
    except (PathLimit, Undecided) as e:
        ck.und(rule, I(fn), str(e), w(fn))
        return None


def lv(r, h):
    return mk("lv", r.lid, h)


def recs(sts):
    """loop records by header, each with its chain of enclosing records; the same loop met on several paths is kept once per distinct entry"""
    out, seen = [], set()
    for r, ctx, o in loops_of(sts):
        k = (r.lid, tuple((h.uid, v.uid) for h, v in sorted(r.init.items(), key=lambda p: p[0].uid)), tuple(c.lid for c in ctx))
        if k in seen:
            continue
        seen.add(k)
        out.append((r, ctx))
    return out


def first_of(t):
    """X when t is the smallest element of X"""
    t = noepoch(t)
    if t.op == "at" and len(t.a) == 2 and cval(t.a[1]) == 0:
        return t.a[0]
    if t.op == "fld":
        return None
    return None


def position(a, b):
    """(row term, position term, truth) when the atom says whether a row holds a position (as its first)"""
    a = noepoch(a)
    if a.op == "==":
        for x, y in ((a.a[0], a.a[1]), (a.a[1], a.a[0])):
            if cval(y) == 1 and x.op == "at":
                return x.a[0], x.a[1], b
            if cval(y) == 0 and x.op == "at" and x.a[0].op == "at":
                return x.a[0], x.a[1], not b
        for x, y in ((a.a[0], a.a[1]), (a.a[1], a.a[0])):
            f = first_of(x)
            if f is not None and cval(y) is None:
                return f, y, b
    if a.op == "nz" and a.a[0].op == "at" and a.a[0].a[0].op == "at":
        return a.a[0].a[0], a.a[0].a[1], b
    if a.op == "has":
        return a.a[0], a.a[1], b
    return None


def small(a, b, row):
    """the atom says the row has fewer than n elements, n > 1"""
    a = noepoch(a)
    sz = noepoch(size(row))
    if a.op == "<":
        if a.a[0] is sz and b:
            return (cval(a.a[1]) or 0) > 1
        if a.a[1] is sz and not b:
            return (cval(a.a[0]) or 0) > 0
    return a.op == "==" and b and sz in a.a and any((cval(x) or 0) > 0 for x in a.a)


def changed(s, r, h, en=None):
    v = s.store.get(h)
    return v if v is not None and v is not lv(r, h) else None


def xored(v, h, r):
    """(row index, added row, field or '') when v is handle h with one whole row replaced by its xor with another"""
    v = noepoch(v)
    if v.op != "upd" or v.a[0] is not noepoch(lv(r, h)):
        return None
    k, n = v.a[1], v.a[2]
    old = at(lv(r, h), k)
    fld = ""
    if n.op == "struct":
        d = [(n.a[i], n.a[i + 1]) for i in range(1, len(n.a) - 1, 2)]
        d = [(f, x) for f, x in d if isinstance(x, T) and x.op in XORS]
        if len(d) != 1:
            return None
        fld, n = d[0]
        old = getf(old, fld)
    if n.op in XORS:
        x, y = noepoch(n.a[0]), noepoch(n.a[1])
        o = noepoch(old)
        if x is o:
            return k, y, fld
        if y is o:
            return k, x, fld
        return k, None, fld
    return None


def mixes(v, cell):
    cell = noepoch(cell)
    return v.op in ("+", "-", "*") and any(noepoch(x) is cell for x in v.a if isinstance(x, T)) and not isconst(v.a[1])


def eliminations(rs):
    """(record, context, row variable, handle, added row, inner column record or None)"""
    out = []
    for r, ctx in rs:
        for k, s in r.paths:
            for h in r.H:
                v = changed(s, r, h)
                if v is None:
                    continue
                x = xored(v, h, r)
                if x:
                    out.append((r, ctx, x[0], h, x[1], None, x[2]))
                    continue
                if v.op == "lo":
                    for q, qc in rs:
                        if q.lid == v.a[0] and v.a[1] in q.init and q.init[v.a[1]] is lv(r, h):
                            for kk, z in q.paths:
                                c = changed(z, q, v.a[1])
                                if c is None:
                                    continue
                                c = noepoch(c)
                                if c.op == "upd" and c.a[0] is lv(q, v.a[1]) and c.a[2].op == "upd" and (c.a[2].a[2].op in ("^", "|", "&") or mixes(c.a[2].a[2], at(at(lv(q, v.a[1]), c.a[1]), c.a[2].a[1]))):
                                    row, col, val = c.a[1], c.a[2].a[1], c.a[2].a[2]
                                    cell = noepoch(at(at(lv(q, v.a[1]), row), col))
                                    y = [u for u in val.a if noepoch(u) is not cell]
                                    if val.op == "^" and len(y) == 1 and y[0].op == "at" and y[0].a[1] is col:
                                        out.append((r, ctx, row, h, y[0].a[0], (q, col), ""))
                                    else:
                                        out.append((r, ctx, row, h, None, (q, col), ""))
    seen, res = set(), []
    for e in out:
        k = (e[0].lid, tuple(c.lid for c in e[1]), e[3], e[2])
        if k not in seen:
            seen.add(k)
            res.append(e)
    return res


def reduction(prog, ck, fn, sets):
    W, J = w(fn), I(fn)
    sts = states(prog, ck, fn, "positions")
    if sts is None:
        return
    rs = recs(sts)
    M = par(fn, 0)
    els = [e for e in eliminations(rs) if len(e[1]) >= 2]
    if not els:
        # somewhere rows must be added to each other
        ck.und("eliminate", J, "no loop that adds one row to others is recognised", W)
        return
    for r, ctx, k, h, added, inner, fld in els[:1]:
        S, O = ctx[-1], ctx[-2]
        # the search and the elimination work on the same rows
        hS = r.init[h]
        base = noepoch(hS)
        removed = None
        for _ in range(2):
            if base.op in ("erasedrange", "erased"):
                removed = base.a[1]
                base = base.a[0]
        if not (base.op == "lv" and base.a[0] == S.lid):
            ck.und("eliminate", J, "rows on entry of the elimination are %s" % show(base)[:100], W)
            return
        hM = base.a[1]
        rows = lv(S, hM)
        # --- positions
        hO = S.init[hM]
        hO = hO.a[1] if hO.op == "lv" and hO.a[0] == O.lid else None
        M0 = O.init.get(hO) if hO is not None else None
        iv = None
        for x in O.ivs:
            if any(p and noepoch(p[1]) is x for p in (position(a, b) for kk, s in S.paths for a, b in s.atoms.items())):
                iv = x
        if iv is None or M0 is None:
            ck.und("positions", J, "outer loop over positions not recognised", W)
        else:
            positions(ck, J, W, rs, O, iv, M0, M, sets)
        # --- search
        j = search(ck, J, W, S, O, iv, hM, rows)
        if j is None:
            continue
        # --- pivots
        empties = [x.ret for x in sts if x.status == "ret" and x.ret is not None]
        got = [getf(x, "first") for x in empties]
        if got and all(x is not None and noepoch(x).op == "empty" for x in got):
            ck.bad("pivot", J, "the rows found are never reported", W)
        else:
            pivots(ck, J, W, S, hM, rows, j, iv, h, r)
        # --- elimination
        eliminate(ck, J, W, r, S, k, h, hM, rows, j, iv, added, inner, removed)
        if "pair<std::set" in fn.get("ret", "") or "retFaces" in "".join(show(x) for x in S.H):
            faces(ck, J, W, rs, S, hM, rows, j, iv, sets)


def positions(ck, J, W, rs, O, iv, M0, M, sets):
    g = irange(O, iv)
    if g is None or not g.known or g.hi is None:
        ck.und("positions", J, "range of positions not decided", W)
        return
    all_ = [q for q, _ in rs]
    hi = outer_value(g.hi, [q for q in all_ if q is O])
    if g.step != 1:
        ck.und("positions", J, "positions advance by %s" % g.step, W)
        return
    if cval(g.lo) not in (0, None) and cval(g.lo) > 0:
        ck.bad("positions", J, "positions below %s are never reduced" % show(g.lo), W)
        return
    e = [x for x in early(O)]
    if cutoff(O):
        ck.bad("positions", J, "the reduction stops after a fixed number of positions (%s)" % cutoff(O)[:80], W)
        return
    if g.extra or e:
        ck.und("positions", J, "the loop over positions may stop early", W)
        return
    if not sets:
        d = None
        for q in (at(M, INT(0)), at(M0, INT(0))):
            d = diff(noepoch(hi), noepoch(size(q)))
            if d is not None:
                break
        if d is None:
            n = diff(noepoch(hi), noepoch(size(M)))
            if n is not None:
                ck.bad("positions", J, "positions run to the number of rows, not to the number of entries of a row", W)
            else:
                ck.und("positions", J, "positions run to %s" % show(hi)[:80], W)
        elif d < 0:
            ck.bad("positions", J, "the last %d positions of a row are never reduced" % -d, W)
        elif d > 0:
            ck.bad("positions", J, "positions run %d past the end of a row" % d, W)
        else:
            ck.ok("positions", J, "every position of a row, in ascending order", W)
        return
    if diff(noepoch(hi), noepoch(size(M))) is not None:
        ck.bad("positions", J, "positions run to the number of rows, so faces numbered above it are never reduced", W)
        return
    # largest face + 1
    hi = noepoch(hi)
    if hi.op == "lo":
        for q in all_:
            if q.lid != hi.a[0]:
                continue
            hh = hi.a[1]
            cur = lv(q, hh)
            row = None
            for x in q.ivs:
                v, _ = verdict(q, x, INT(0), size(M))
                if v is False:
                    ck.bad("positions", J, "not every row counts towards the largest face: %s" % _, W)
                    return
                if v:
                    row = noepoch(at(M, x))
            if row is None or early(q):
                break
            last = noepoch(at(row, add(size(row), INT(-1))))
            good = None
            for kk, s in q.paths:
                v = noepoch(s.store.get(hh, cur))
                at_ = {noepoch(a): b for a, b in s.atoms.items()}
                if v is cur:
                    less = at_.get(lt(last, cur))
                    empty = at_.get(mk("nz", size(row)))
                    if not (less is True or empty is False):
                        le = at_.get(lt(cur, add(last, INT(1))))
                        if le is not False:
                            good = False if less is False else good
                    continue
                d = diff(v, last)
                if d is None:
                    good = None
                    break
                if d < 1:
                    ck.bad("positions", J, "the largest face is left out: positions stop at %s" % show(v)[:60], W)
                    return
                good = good if good is False else True
            if good:
                ck.ok("positions", J, "every face that occurs in some row, in ascending order", W)
                return
            break
    ck.und("positions", J, "positions run to %s" % show(hi)[:80], W)


def search(ck, J, W, S, O, iv, hM, rows):
    """row variable of the search (its term) after judging it"""
    j = None
    for h in S.init:
        x = lv(S, h)
        if x in S.ivs or any(diff(s.store.get(h, x), x) == 1 for kk, s in S.paths if s.store.get(h) is not None):
            if any(bound(x, a, b) for alt in S.hdr for a, b in alt.items()):
                j = h
    if j is None:
        ck.und("search", J, "search over rows not recognised", W)
        return None
    x = lv(S, j)
    c = cval(S.init[j])
    if c is None:
        ck.und("search", J, "the search starts at %s" % show(S.init[j])[:60], W)
        return None
    if c > 0:
        ck.bad("search", J, "the first %d rows are never searched" % c, W)
        return x
    if fixedlimit(S):
        ck.bad("search", J, "rows are searched %s" % fixedlimit(S), W)
        return x
    ub = [bound(x, a, b) for alt in S.hdr[:1] for a, b in alt.items()]
    ub = [u[1] for u in ub if u and u[0] in ("ub", "ne")]
    if len(S.hdr) != 1 or len(ub) != 1:
        ck.und("search", J, "end of the search not decided", W)
        return x
    d = diff(noepoch(ub[0]), noepoch(size(rows)))
    if d is None:
        d = diff(noepoch(outer_value(ub[0], [S, O])), noepoch(outer_value(size(rows), [S, O])))
    if d is None:
        ck.und("search", J, "the search ends at %s" % show(ub[0])[:60], W)
        return x
    if d:
        ck.bad("search", J, "the search %s" % ("leaves out the last %d rows" % -d if d < 0 else "runs %d past the last row" % d), W)
        return x
    row = noepoch(at(rows, x))
    for kk, s in S.paths:
        hit = None
        for a, b in s.atoms.items():
            p = position(a, b)
            if p and noepoch(p[0]) is row and noepoch(p[1]) is iv:
                hit = p[2]
        empty = any(noepoch(a) is mk("nz", size(row)) and not b for a, b in s.atoms.items())
        ch = changed(s, S, hM) is not None
        if hit and not ch:
            ck.bad("search", J, "a row holding the position is passed over when %s" % fmt_guards(s.atoms, 3)[-160:], W)
            return x
        if ch and hit is False:
            ck.bad("search", J, "a row not holding the position is taken as its pivot", W)
            return x
        if not ch and hit is None and any(small(a, b, row) for a, b in s.atoms.items()):
            ck.bad("search", J, "rows with few faces are passed over when %s" % fmt_guards(s.atoms, 2)[-120:], W)
            return x
        if not ch and hit is None and not empty:
            ck.und("search", J, "row passed over when %s" % fmt_guards(s.atoms, 2)[-120:], W)
            return x
        if ch and hit is None:
            ck.und("search", J, "condition under which a row is a pivot not recognised", W)
            return x
    ck.ok("search", J, "every row, and exactly those holding the position are pivots", W)
    return x


def pivots(ck, J, W, S, hM, rows, j, iv, h, r):
    """what the search records about the row found"""
    n = 0
    row = noepoch(at(rows, j))
    for kk, s in S.paths:
        if changed(s, S, hM) is None:
            continue
        vals = {}
        for g in S.H:
            v = changed(s, S, g)
            if v is not None and g is not hM and lv(S, g) is not j:
                vals[g] = noepoch(v)
        done = False
        for g, v in vals.items():
            cur = lv(S, g)
            if v.op in ("ins", "push") and v.a[0] is cur:
                d = diff(v.a[1], j)
                if d == 0 or v.a[1] is row:
                    done = True
                elif d is not None:
                    ck.bad("pivot", J, "the row reported for a position is %+d from the one found" % d, W)
                    return
                elif iv is not None and diff(v.a[1], iv) is not None and v.op == "ins" and not done:
                    if len(vals) == 1:
                        ck.bad("pivot", J, "the position is reported in place of the row found", W)
                        return
                elif v.a[1].op == "at" and v.a[1].a[0].op == "lo" and noepoch(v.a[1].a[1]) is j and v.op == "push":
                    ck.bad("pivot", J, "the row is reported after rows were added to it", W)
                    return
            dv = diff(v, cur)
            if dv is not None and dv != 1 and any(x.op == "push" for x in vals.values()):
                ck.bad("pivot", J, "the rank grows by %d for one row" % dv, W)
                return
        if not done:
            # nothing recorded for the row found
            if not any(v.op in ("ins", "push", "lo") for v in vals.values()):
                ck.bad("pivot", J, "a row found is not reported when %s" % fmt_guards(s.atoms, 2)[-120:], W)
            else:
                ck.und("pivot", J, "what is recorded for a row found is not decided", W)
            return
        if any(v.op == "push" and v.a[1] is row for v in vals.values()):
            ranks = [v for g, v in vals.items() if diff(v, lv(S, g)) is not None]
            if not ranks:
                ck.bad("pivot", J, "the rank does not count the row found", W)
                return
        n += 1
    if n:
        ck.ok("pivot", J, "the row found is what is reported", W)


def eliminate(ck, J, W, r, S, k, h, hM, rows, j, iv, added, inner, removed):
    R = "eliminate"
    row = noepoch(at(rows, j))
    if k not in r.ivs:
        # counted on every path by one, maybe
        ck.und(R, J, "rows added to are not counted by the loop", W)
        return
    g = irange(r, k)
    if g is None or not g.known or g.hi is None or g.step != 1:
        ck.und(R, J, "range of the elimination not decided", W)
        return
    d = diff(g.lo, j)
    c = cval(g.lo)
    if d is None and c != 0:
        ck.und(R, J, "the elimination starts at %s" % show(g.lo)[:60], W)
        return
    if removed is None and d is not None and d >= 1:
        if d == 1:
            z = False
            for kk, s in S.paths:
                v = changed(s, S, hM)
                if v is not None and not (noepoch(v).op == "lo" and v.a[0] == r.lid):
                    z = None
            if z is False:
                ck.bad(R, J, "the pivot row keeps its own entries and is found again at a later position", W)
            else:
                ck.und(R, J, "the pivot row is changed apart from the elimination", W)
            return
        ck.bad(R, J, "the elimination leaves out %d rows after the pivot row" % (d - 1), W)
        return
    if removed is not None and d is not None and d >= 1:
        ck.bad(R, J, "after the pivot row is taken out, the next row is left out of the elimination", W)
        return
    hi = diff(noepoch(g.hi), noepoch(size(lv(r, h))))
    if hi is None:
        hi = diff(noepoch(outer_value(g.hi, [r])), noepoch(outer_value(size(lv(r, h)), [r])))
    if hi is None:
        ck.und(R, J, "the elimination ends at %s" % show(g.hi)[:60], W)
        return
    if hi:
        ck.bad(R, J, "the elimination %s" % ("leaves out the last %d rows" % -hi if hi < 0 else "runs past the last row"), W)
        return
    if early(r) or g.extra:
        if cutoff(r):
            ck.bad(R, J, "the elimination stops early: %s" % cutoff(r)[:80], W)
            return
        bad = False
        for kk, s in early(r):
            bad = True
        if bad and all(kk == "brk" and changed(s, r, h) is not None for kk, s in early(r)):
            ck.bad(R, J, "the elimination stops after the first row it changes", W)
        else:
            ck.und(R, J, "the elimination may stop early", W)
        return
    if added is None:
        ck.bad(R, J, "a row is not replaced by its sum with the pivot row", W)
        return
    a = noepoch(added)
    if a is not row:
        if a.op == "at" and a.a[0].op in ("lv",) and noepoch(a.a[1]) is j and a.a[0].a[0] != S.lid:
            if removed is None:
                ck.bad(R, J, "rows are added to the pivot row as it is during the elimination, which has become empty by then", W)
            else:
                ck.bad(R, J, "the row added is the one that took the place of the pivot row", W)
            return
        ck.und(R, J, "the row added is %s" % show(a)[:80], W)
        return
    for kk, s in r.paths:
        hit = None
        cur = noepoch(at(lv(r, h), k))
        for x, b in s.atoms.items():
            p = position(x, b)
            if p and noepoch(p[0]) is cur and noepoch(p[1]) is iv:
                hit = p[2]
        empty = any(noepoch(x) is mk("nz", size(cur)) and not b for x, b in s.atoms.items())
        ch = changed(s, r, h) is not None
        if hit and not ch:
            ck.bad(R, J, "a later row holding the position keeps it when %s" % fmt_guards(s.atoms, 3)[-140:], W)
            return
        if ch and hit is False:
            ck.bad(R, J, "the pivot row is added to rows that do not hold the position", W)
            return
        if ch and hit is None:
            ck.bad(R, J, "the pivot row is added to rows without looking whether they hold the position", W) if not any(position(x, b) for x, b in s.atoms.items() if contains(x, lambda t: t.op == "lv" and t.a[0] == r.lid)) else ck.und(R, J, "condition of the elimination not recognised", W)
            return
        if not ch and hit is None and any(small(x, b, cur) for x, b in s.atoms.items()):
            ck.bad(R, J, "rows with few faces keep the position when %s" % fmt_guards(s.atoms, 2)[-120:], W)
            return
        if not ch and hit is None and not empty:
            ck.und(R, J, "row left as it is when %s" % fmt_guards(s.atoms, 2)[-120:], W)
            return
    if inner:
        q, col = inner
        gg = irange(q, col)
        if fixedlimit(q):
            ck.bad(R, J, "columns of the sum are added %s" % fixedlimit(q), W)
            return
        if gg is None or not gg.known or gg.hi is None or gg.step != 1 or early(q) or gg.extra:
            ck.und(R, J, "columns of the sum not decided", W)
            return
        lo = cval(gg.lo)
        if lo is not None and lo > 0:
            ck.bad(R, J, "the first %d columns are left out of the sum" % lo, W)
            return
        if lo is None and diff(gg.lo, iv) not in (0, 1):
            ck.und(R, J, "columns of the sum start at %s" % show(gg.lo)[:60], W)
            return
        all_ = [q, r, S]
        # the length of any row
        hh = noepoch(gg.hi)
        ok = None
        ln = lin(hh)
        szs = [x for x in ln[0] if x.op == "size" and x.a[0].op == "at"]
        if len(ln[0]) == 1 and len(szs) == 1 and ln[0][szs[0]] == 1:
            ok = ln[1]
        if ok is None:
            if len(ln[0]) == 1 and list(ln[0])[0].op == "size":
                ck.bad(R, J, "the sum runs over as many columns as there are rows", W)
            else:
                ck.und(R, J, "columns of the sum end at %s" % show(hh)[:60], W)
            return
        if ok < 0:
            ck.bad(R, J, "the last %d columns are left out of the sum" % -ok, W)
            return
        if ok > 0:
            ck.bad(R, J, "the sum runs past the last column", W)
            return
        for kk, s in q.paths:
            if all(changed(s, q, x) is None for x in q.H if lv(q, x) is not col):
                ck.bad(R, J, "some columns keep their entry when %s" % fmt_guards(s.atoms, 3)[-120:], W)
                return
    ck.ok(R, J, "every later row holding the position, in every column, with the row as it was found", W)


def largest(rs, v, row, rule=None):
    """is v the largest element (or the last position holding 1) of row?  (True|False|None, why)"""
    v = noepoch(v)
    if (v.op == "at" and v.a[0] is row and v.a[1].op == "lv") or v.op == "lv":
        x = v if v.op == "lv" else v.a[1]
        for q, _ in rs:
            if q.lid == x.a[0] and x in q.ivs and q.ivs[x][1] == 1 and any(k == "brk" for k, s in early(q)):
                return False, "the search for it stops at the first"
    if v.op == "at" and v.a[0] is row:
        d = diff(v.a[1], size(row))
        if d == -1:
            return True, ""
        if cval(v.a[1]) is not None or d is not None:
            return False, "it is element %s" % show(v.a[1])[:40]
    if v.op == "lo":
        for q, _ in rs:
            if q.lid != v.a[0] or v.a[1] not in q.init:
                continue
            cur = lv(q, v.a[1])
            if early(q):
                if all(k == "brk" and s.store.get(v.a[1], cur) is not cur for k, s in early(q)):
                    return False, "the search for it stops at the first"
                return None, "the search for it may stop early"
            ups = [(noepoch(s.store.get(v.a[1], cur)), s) for k, s in q.paths]
            up = [(x, s) for x, s in ups if x is not cur]
            if not up:
                return False, "it never moves past %s" % show(q.init[v.a[1]])[:40]
            for x, s in up:
                if x.op == "at" and noepoch(x.a[0]) is row:
                    iv = x.a[1]
                    r_, why = verdict(q, iv, INT(0), size(row))
                    if r_ is False and "starts at" in why and "first 1 " in why:
                        r_ = True
                    if r_ is not True:
                        if r_ is False and "past" not in why:
                            return False, "the search for it: " + why
                        return None, why
                    own = [(a, b) for a, b in s.atoms.items() if contains(a, lambda t: t is cur)]
                    for a, b in own:
                        n = noepoch(a)
                        if n.op == "<" and n.a[0] is x and n.a[1] is cur and b:
                            return False, "it moves to smaller elements"
                        if n.op == "<" and n.a[0] is cur and n.a[1] is x and not b:
                            return False, "it moves to smaller elements"
                elif x in q.ivs:
                    g = irange(q, x)
                    if not g or not g.known or g.step != 1 or g.extra or g.hi is None:
                        if g and g.step == -1:
                            return None, "it is searched from the end"
                        return None, "range of its search not decided"
                    d = diff(noepoch(g.hi), noepoch(size(row)))
                    if d is None:
                        ln = lin(noepoch(g.hi))
                        z = [y for y in ln[0] if y.op == "size" and y.a[0].op == "at"]
                        d = ln[1] if len(ln[0]) == 1 and len(z) == 1 else None
                    if d is None:
                        return None, "its search ends at %s" % show(g.hi)[:50]
                    if d < 0:
                        return False, "the last %d positions are not looked at" % -d
                    hold = [p for p in (position(a, b) for a, b in s.atoms.items()) if p and noepoch(p[0]) is row and noepoch(p[1]) is x]
                    if any(not p[2] for p in hold):
                        return False, "it moves to positions the row does not hold"
                    if not hold:
                        return (False, "it moves to positions whether the row holds them or not") if not any(contains(a, lambda t: t is x) and not any(a in alt for alt in q.hdr) for a, b in s.atoms.items()) else (None, "condition not recognised")
                else:
                    return None, "it moves to %s" % show(x)[:60]
            return True, ""
    return None, "it is %s" % show(v)[:60]


def faces(ck, J, W, rs, S, hM, rows, j, iv, sets):
    R = "cleared face"
    row = noepoch(at(rows, j))
    n = 0
    for kk, s in S.paths:
        if changed(s, S, hM) is None:
            continue
        for g in S.H:
            v = changed(s, S, g)
            if v is None or g is hM:
                continue
            v = noepoch(v)
            if v.op == "ins" and v.a[0] is lv(S, g) and diff(v.a[1], j) is None:
                ok, why = largest(rs, v.a[1], row)
                n += 1
                if ok is not True:
                    (ck.bad if ok is False else ck.und)(R, J, "the face cleared in the dimension below must be the largest of the row: %s" % why, W)
                    return
    if n:
        ck.ok(R, J, "the largest face of the row, read before rows are added", W)
    else:
        ck.und(R, J, "no cleared face is recorded", W)


def cell(v):
    """the two simplices an entry compares"""
    v = noepoch(v)
    while v.op in ("cast", "b2i"):
        v = v.a[-1]
    if v.op == "call" and str(v.a[0]).endswith("checkFace"):
        xs = [x for x in v.a[1:] if isinstance(x, T) and x.op != "this"]
        return xs[-2:]
    return None


def simplex(t):
    """(container of one dimension, index) of a simplex"""
    t = noepoch(t)
    while t.op == "fld" and t.a[1] in ("first", "simplexSet"):
        t = t.a[0]
    if t.op == "at":
        return t.a[0], t.a[1]
    return None


def table(prog, ck, fn):
    R, W, J = "table", w(fn), I(fn)
    sts = states(prog, ck, fn, R)
    if sts is None:
        return
    rs = recs(sts)
    n = 0
    und = bad = None
    for r, ctx in rs:
        for k, s in r.paths:
            for h in r.H:
                v = changed(s, r, h)
                if v is None:
                    continue
                v = noepoch(v)
                # entry of a matrix row
                if v.op == "upd" and v.a[0] is lv(r, h) and v.a[2].op == "upd" and cell(v.a[2].a[2]):
                    res = entries(fn, r, ctx, s, h, v.a[1], v.a[2].a[1], cell(v.a[2].a[2]))
                elif v.op == "push" and v.a[0] is lv(r, h) and cell(v.a[1]):
                    res = pushed(fn, rs, r, ctx, h, cell(v.a[1]), par(fn, 0), par(fn, 1) if len(fn["params"]) > 1 else None)
                elif v.op == "upd" and v.a[0] is lv(r, h) and v.a[2].op == "call" and str(v.a[2].a[0]).endswith("getFaces"):
                    res = None      # judged by the call below
                    n += 1
                    c = faces_of(r, s, v, fn)
                    if c:
                        bad = bad or c
                    sk = skipped(r, h)
                    if sk and sk[0] is False:
                        bad = bad or sk[1]
                    elif sk and sk[0] is None:
                        und = und or sk[1]
                    continue
                else:
                    continue
                n += 1
                if res[0] is False:
                    bad = bad or res[1]
                elif res[0] is None:
                    und = und or res[1]
    if fn["short"] == "getRankNull":
        return
    for q in sts:
        t = noepoch(q.ret) if q.status == "ret" and q.ret is not None else None
        if n and t is not None and t.op in ("filled", "fill", "rep"):
            bad = bad or "the table has no entries when %s" % fmt_guards(q.atoms, 3)[-120:]
    if bad:
        ck.bad(R, J, bad, W)
    elif und:
        ck.und(R, J, und, W)
    elif n:
        ck.ok(R, J, "an entry for every simplex and every simplex one dimension below (%d forms)" % n, W)
    else:
        ck.und(R, J, "entries of the table not recognised", W)


def skipped(r, h):
    """rows the loop leaves as they are: only those equal to a recorded face"""
    for k, s in r.paths:
        if k != "end":
            return None, "the loop over rows may stop early"
        if changed(s, r, h) is not None:
            continue
        own = [(noepoch(a), b) for a, b in s.atoms.items() if contains(a, lambda x: x in r.ivs) and not any(a in alt for alt in r.hdr)]
        eq = [a for a, b in own if (a.op == "==" and b) or (a.op == "has" and b)]
        if not eq:
            return False, "the faces of a simplex are left out when %s" % ("; ".join(("" if b else "not ") + show(a) for a, b in own)[:120] or "anything")
        for a in eq:
            if a.op == "has":
                continue
            other = [x for x in a.a if x not in r.ivs]
            if len(other) != 1:
                return None, "rows skipped on %s" % show(a)[:80]
            o = other[0]
            if cval(o) is not None:
                return False, "the faces of simplex %s are left out" % show(o)
            if o.op == "lv" and o.a[0] == r.lid:
                i0 = noepoch(r.init[o.a[1]])
                if first_of(i0) is None:
                    return None, "row to skip starts as %s" % show(i0)[:60]
                src = first_of(i0)
                if src.op not in ("param", "init", "lv"):
                    return None, "row to skip comes from %s" % show(src)[:60]
    return True, ""


def faces_of(r, s, v, fn):
    """text when the row stored is not that of the simplex of the same number"""
    i = v.a[1]
    for e in s.ev:
        if e.k == "call" and e.d["name"].endswith("getFaces") and noepoch(e.d["res"]) is v.a[2]:
            rc = e.d.get("recv")
            if rc is None:
                return None
            if rc.op == "L.elem" and diff(rc.a[1], i) not in (0, None):
                return "row %s holds the faces of simplex %s" % (show(i), show(rc.a[1]))
    vd = None
    if i in r.ivs:
        g = irange(r, i)
        if g and g.known and cval(g.lo) not in (None, 0):
            return "the first %s simplices have no faces entered" % show(g.lo)
        if g and g.known and g.hi is not None:
            ln = lin(noepoch(g.hi))
            sz = [x for x in ln[0] if x.op == "size"]
            if len(ln[0]) == 1 and len(sz) == 1 and ln[1] < 0:
                return "the last %d simplices have no faces entered" % -ln[1]
    return None


def entries(fn, r, ctx, s, h, row, col, pair):
    a, b = simplex(pair[0]), simplex(pair[1])
    if not a or not b:
        return None, "simplices compared are not recognised"
    m = same_iv((r,) + tuple(ctx))
    if m:
        row, col = subst(row, m), subst(col, m)
        a, b = (subst(a[0], m), subst(a[1], m)), (subst(b[0], m), subst(b[1], m))
    if noepoch(col) is a[1] and noepoch(row) is b[1]:
        lower, upper = a[0], b[0]
    elif noepoch(col) is b[1] and noepoch(row) is a[1]:
        lower, upper = b[0], a[0]
    else:
        ds = [diff(x, y) for x, y in ((col, a[1]), (row, b[1]))]
        if None not in ds:
            return False, "entry [%s][%s] compares simplices %s and %s" % (show(row), show(col), show(b[1]), show(a[1]))
        ds = [diff(x, y) for x, y in ((col, b[1]), (row, a[1]))]
        ivs = {x for c in (r,) + tuple(ctx) for x in c.ivs}
        if None not in ds or all(x in ivs for x in (col, row, a[1], b[1])):
            return False, "entry [%s][%s] compares simplices %s and %s" % (show(row), show(col), show(a[1]), show(b[1]))
        return None, "indices of the simplices compared are not those of the entry"
    # one dimension apart
    if lower.op == "at" and upper.op == "at" and lower.a[0] is upper.a[0]:
        d = diff(upper.a[1], lower.a[1])
        if d is not None and d != 1:
            return False, "simplices are compared with those %d dimensions below" % d
        if d is None:
            return None, "dimensions compared are not decided"
    else:
        return None, "the simplices compared are not dimensions of one complex"
    # ranges
    cols = [c for c in (r,) + tuple(reversed(ctx)) if col in c.ivs]
    rows_ = [c for c in (r,) + tuple(reversed(ctx)) if row in c.ivs]
    if not cols or not rows_:
        return None, "rows and columns are not counted by loops"
    for c, x, what, of in ((cols[0], col, "faces", lower), (rows_[0], row, "simplices", upper)):
        v, why = verdict(c, x, INT(0), size(of))
        if v is False:
            return False, "the loop over %s: %s" % (what, why)
        if v is None:
            return None, "the loop over %s: %s" % (what, why)
        if early(c):
            return None, "the loop over %s may stop early" % what
    for kk, z in cols[0].paths:
        if all(changed(z, cols[0], x) is None for x in cols[0].H if lv(cols[0], x) is not col):
            return False, "an entry is left out when %s" % fmt_guards(z.atoms, 3)[-120:]
    if rows_[0] is not cols[0]:
        hh = [x for x in rows_[0].H if any(changed(z, rows_[0], x) is not None and changed(z, rows_[0], x).op == "lo" and changed(z, rows_[0], x).a[0] == cols[0].lid for kk, z in rows_[0].paths)]
        if hh:
            return skipped(rows_[0], hh[0])
        return None, "rows not recognised"
    return True, ""


def pushed(fn, rs, r, ctx, h, pair, A, B):
    """rows built by appending entries: one entry per element of the other chain, one row per element"""
    a, b = simplex(pair[0]), simplex(pair[1])
    if not a or not b or not ctx:
        return None, "simplices compared are not recognised"
    col = [x for x in (a, b) if x[1] in r.ivs]
    row = [x for x in (a, b) if x[1] not in r.ivs]
    if len(col) != 1 or len(row) != 1:
        return None, "simplices compared are not those of the two loops"
    v, why = verdict(r, col[0][1], INT(0), size(col[0][0]))
    if v is not True:
        return v, "entries of a row: " + why
    if early(r) or len(r.paths) != 1:
        for k, s in r.paths:
            if k == "end" and changed(s, r, h) is None:
                return False, "an entry is left out when %s" % fmt_guards(s.atoms, 3)[-120:]
        return None, "the loop over entries may stop early"
    o = ctx[-1]
    if row[0][1] not in o.ivs:
        return None, "rows are not counted by a loop"
    v, why = verdict(o, row[0][1], INT(0), size(row[0][0]))
    if v is not True:
        return v, "rows: " + why
    for k, s in o.paths:
        if k != "end":
            return None, "the loop over rows may stop early"
        got = [changed(s, o, x) for x in o.H]
        got = [noepoch(x) for x in got if x is not None and x.op in ("push", "lo")]
        if not any(x.op == "push" and contains(x.a[1], lambda t: t.op == "lo" and t.a[0] == r.lid) for x in got):
            return (False, "a row is not kept when %s" % fmt_guards(s.atoms, 3)[-120:]) if not got else (None, "rows kept not recognised")
        i0 = r.init[h]
        if i0.op != "empty":
            return (False, "a row starts with the entries of the one before") if i0.op == "lv" else (None, "a row starts as %s" % show(i0)[:50])
    return True, ""


def offsets(prog, ck, fn):
    """positions are offset by the simplices of all lower dimensions"""
    R, W, J = "offset", w(fn), I(fn)
    sts = states(prog, ck, fn, R)
    if sts is None:
        return
    rs = recs(sts)
    byid = {}
    for q, _ in rs:
        byid.setdefault(q.lid, q)
    seen = set()
    for r, ctx in rs:
        chain_ = ctx + (r,)
        # the loop that goes down the dimensions
        D = None
        for c in chain_:
            for x in c.ivs:
                if c.ivs[x][1] == -1:
                    D, d = c, x
        if D is None:
            continue
        for k, s in r.paths:
            for e in s.ev:
                if e.k != "push" or e.d.get("how") != "insert":
                    continue
                v = noepoch(e.d["val"])
                c = e.d["c"]
                if c.op != "lv":
                    continue
                # a local position plus something that moves with the dimension
                l, off = lin(v)
                moving = [x for x in l if x.op == "lv" and x.a[0] == D.lid and x is not d]
                if not moving:
                    root = c
                    if c.a[0] == r.lid and D is not r and any(contains(x, lambda t: t.op == "call" and str(t.a[0]).endswith("getRankNull")) for x in l):
                        if (D.lid, "none") not in seen:
                            seen.add((D.lid, "none"))
                            ck.bad(R, J, "positions of a dimension are recorded without the simplices of lower dimensions before them", W)
                    continue
                if (D.lid, c.a[1]) in seen:
                    continue
                seen.add((D.lid, c.a[1]))
                src = [x for x in D.ivs[d][0].a if isinstance(x, T)] if D.ivs[d][0].op == "min" else [D.ivs[d][0]]
                src = [x.a[0] for y in src for x in lin(y)[0] if x.op == "size"]
                K = J + " over " + (short(src[0]) if src else "dimensions")
                m = moving[0]
                hoff = m.a[1]
                # what one dimension takes off
                rest = {x: n for x, n in l.items() if x is not m}
                sizes = {x: n for x, n in rest.items() if resolve(x, D, byid)}
                E = None
                steps = set()
                for kk, z in D.paths:
                    st = z.store.get(hoff, lv(D, hoff))
                    steps.add(noepoch(norm(st, byid)))
                if len(steps) != 1:
                    ck.und(R, K, "the offset changes differently on different paths", W)
                    continue
                dl = addl(lin(steps.pop()), ({noepoch(lv(D, hoff)): 1}, 0), -1)
                if len(dl[0]) != 1 or dl[1]:
                    if not dl[0]:
                        ck.bad(R, K, "the offset changes by %s per dimension whatever its size" % dl[1], W)
                    else:
                        ck.und(R, K, "the offset changes by %s per dimension" % show(unlin(dl))[:80], W)
                    continue
                sz, cf = list(dl[0].items())[0]
                if cf != -1 or sz.op != "size" or sz.a[0].op != "at":
                    ck.und(R, K, "the offset changes by %s per dimension" % show(unlin(dl))[:80], W)
                    continue
                E, idx = sz.a[0].a
                dd = diff(idx, d)
                if dd is None:
                    ck.und(R, K, "the offset takes off the size of dimension %s" % show(idx)[:40], W)
                    continue
                if dd != 0:
                    ck.bad(R, K, "the offset takes off the size of dimension %s while positions are of dimension %s" % (show(idx), show(d)), W)
                    continue
                # at the time of recording
                cur = lin(norm(unlin((({x: n for x, n in l.items()}), off)), byid))
                local = [x for x in cur[0] if not (x is noepoch(lv(D, hoff))) and not (x.op == "size")]
                szs = {x: n for x, n in cur[0].items() if x.op == "size"}
                t = D.init.get(hoff)
                first = start_of(t, [q for q, _ in rs])
                if first is not None and cval(t) is None and cur[1] + first:
                    ck.bad(R, K, "positions are recorded %+d off" % (cur[1] + first), W)
                    continue
                if first is None and cur[1]:
                    ck.bad(R, K, "positions are recorded %+d off" % cur[1], W)
                    continue
                if len(local) == 1 and cur[0][local[0]] < 0 and szs and all(n == -1 for n in szs.values()):
                    ck.bad(R, K, "the number of a row is taken off the simplices of lower dimensions instead of added", W)
                    continue
                if not szs:
                    ck.bad(R, K, "positions are recorded before the size of their own dimension is taken off", W)
                    continue
                if len(szs) != 1 or list(szs.items())[0] != (sz, -1) or len(local) != 1 or cur[0][local[0]] != 1:
                    ck.und(R, K, "position recorded is %s" % show(v)[:100], W)
                    continue
                # the total to start with
                if first:
                    t = rebase(t, [q for q, _ in rs])
                    if t is None:
                        ck.und(R, K, "the offset starts at a constant", W)
                        continue
                sf = t if isinstance(t, tuple) else sumform(noepoch(t), [q for q, _ in rs]) if t is not None else None
                if sf is None:
                    if t is not None and cval(t) is not None:
                        ck.bad(R, K, "the offset starts at %s instead of the number of simplices" % show(t), W)
                    else:
                        ck.und(R, K, "the offset starts at %s" % show(t)[:60], W)
                    continue
                n, b, body = sf
                if noepoch(n) is not noepoch(size(E)) or noepoch(body) is not noepoch(size(at(E, b))):
                    dn = diff(noepoch(n), noepoch(size(E)))
                    lb = lin(noepoch(body))
                    if dn == 0 and (lb[1] or list(lb[0].items()) != [(noepoch(size(at(E, b))), 1)]) and all(x is noepoch(size(at(E, b))) for x in lb[0]):
                        dn = 1
                    (ck.bad if dn not in (None, 0) else ck.und)(R, K, "the offset starts at the sum over %s of %s" % (show(n)[:40], show(body)[:40]), W)
                    continue
                st = D.ivs[d][0]
                tops = st.a if st.op == "min" else (st,)
                ok = any(diff(x, size(E)) == -1 for x in tops)
                if not ok:
                    far = [diff(x, size(E)) for x in tops]
                    far = [x for x in far if x is not None]
                    if far and far[0] != -1:
                        ck.bad(R, K, "the dimensions start at %s, but the offset counts the simplices of all of them" % show(st)[:60], W)
                        continue
                    ck.und(R, K, "the dimensions start at %s" % show(st)[:60], W)
                    continue
                g = irange(D, d)
                if g.lo is not None and cval(g.lo) is not None and cval(g.lo) > 1:
                    ck.bad(R, K, "dimensions below %d are left out" % cval(g.lo), W)
                    continue
                ck.ok(R, K, "the number of simplices of all lower dimensions", W)
    # pivots of a dimension that go nowhere
    for D, ctx in rs:
        for k, s in D.paths:
            got = {noepoch(z) for e in s.ev if e.k == "call" and e.d["name"].endswith("getRankNull") and e.d.get("res") is not None for z in [e.d["res"]]}
            if k != "end" or not got:
                continue
            if any(q.lid == key[0] for key in seen for q in (D,)):
                continue
            inside = [q for q, c in rs if any(x.lid == D.lid for x in c)] + [D]
            kept = any(e.k == "push" for q in inside for kk, z in q.paths for e in z.ev if e.d.get("val") is not None and (contains(noepoch(e.d["val"]), lambda t: t in got) or q is not D and any(contains(noepoch(v), lambda t: t in got) for x in q.ivs for g in [irange(q, x)] if g and g.hi is not None for v in [g.hi])))
            if not kept and any(g is not None and any(contains(noepoch(g), lambda t: t in got) for t in (1,)) for g in [changed(s, D, h) for h in D.H]):
                if all(noepoch(v).op in ("fld", "upd", "+", "-", "call", "int") for h in D.H for v in [changed(s, D, h)] if v is not None):
                    ck.bad(R, J + " over dimensions", "the pivots of a dimension are found but not recorded", W)
                    return


def start_of(t, rs):
    """the constant a counted total starts at"""
    if t is not None and t.op == "lo":
        for q in rs:
            if q.lid == t.a[0] and t.a[1] in q.init:
                return cval(noepoch(q.init[t.a[1]]))
    return None


def rebase(t, rs):
    """sum form of a total that does not start at 0"""
    for q in rs:
        if q.lid == t.a[0] and t.a[1] in q.init:
            h = t.a[1]
            old = q.init[h]
            q.init[h] = INT(0)
            try:
                return sumform(noepoch(t), rs)
            finally:
                q.init[h] = old
    return None


def short(t):
    return str(t.a[0]).rsplit("::", 1)[-1] if t.op == "call" else show(t)[:30]


def resolve(x, D, byid):
    return x.op == "size"


def norm(t, byid):
    """sizes of tables filled in loops are those they were made with"""
    def f(x):
        if x.op == "lo" and x.a[0] in byid and x.a[1] in byid[x.a[0]].init:
            r = byid[x.a[0]]
            if all(changed(s, r, x.a[1]) is None or noepoch(changed(s, r, x.a[1])).op in ("upd", "lo") for k, s in r.paths):
                return r.init[x.a[1]]
        return None
    m = {}

    def walk(x):
        if isinstance(x, T):
            if x.op == "size" and x.a[0].op == "lo":
                y = f(x.a[0])
                if y is not None:
                    m[x] = size(y)
            for z in x.a:
                walk(z)
    walk(t)
    return noepoch(subst(t, m)) if m else noepoch(t)


def lazy(prog, ck, fn):
    """reduction that reads rows only when it needs them: every row is read once, and kept until it is a pivot"""
    R, W, J = "rows read", w(fn), I(fn)
    sts = states(prog, ck, fn, R)
    if sts is None:
        return
    rs = recs(sts)
    els = [e for e in eliminations(rs) if e[6]]
    done = set()
    for r, ctx, k, h, added, inner, fld in els:
        if r.lid in done or not ctx:
            continue
        done.add(r.lid)
        waiting(ck, J, W, rs, r, ctx, k, h, added, fld)
    if not els:
        ck.und("eliminate", J, "no loop that adds one row to waiting ones is recognised", W)
    # the loop that reads new rows
    for r, ctx in rs:
        reads = [(k, s) for k, s in r.paths if any(e.k == "call" and e.d["name"].endswith("getFaces") for e in s.ev)]
        if not reads or not ctx:
            continue
        O = ctx[-1]
        if r.lid in done or not any(e.d.get("recv") is not None and contains(e.d["recv"], lambda t: t.op == "lv" and t.a[0] == r.lid) for k, s in reads for e in s.ev if e.k == "call" and e.d["name"].endswith("getFaces")):
            continue
        done.add(r.lid)
        # row variable: the one the faces are taken of
        j = None
        for k, s in reads:
            for e in s.ev:
                if e.k == "call" and e.d["name"].endswith("getFaces"):
                    rc = e.d.get("recv")
                    if rc is not None and rc.op == "L.elem":
                        j = rc.a[1]
        if j is None or j.op != "lv" or j not in r.ivs:
            ck.und(R, J, "rows read are not counted by the loop", W)
            continue
        # the positions searched for are those of the dimension below the rows
        gr = irange(r, j)
        for x in O.ivs:
            go = irange(O, x)
            hs = [noepoch(g.hi) for g in (gr, go) if g and g.known and g.hi is not None]
            cut_ = 0
            if len(hs) == 2:
                lo_ = lin(hs[1])
                if len(lo_[0]) == 1 and list(lo_[0].values()) == [1]:
                    cut_ = lo_[1]
                    hs[1] = list(lo_[0])[0]
            if len(hs) == 2 and all(h.op == "size" and h.a[0].op == "at" for h in hs) and hs[0].a[0].a[0] is hs[1].a[0].a[0]:
                dd = diff(hs[0].a[0].a[1], hs[1].a[0].a[1])
                if dd is not None and dd != 1:
                    ck.bad("positions", J, "the positions run over the simplices %d dimensions below the rows" % dd, W)
                elif dd == 1 and (cval(go.lo) or 0) > 0:
                    ck.bad("positions", J, "positions below %s are never reduced" % show(go.lo), W)
                elif dd == 1 and cut_ < 0:
                    ck.bad("positions", J, "the last %d positions of a row are never reduced" % -cut_, W)
                elif dd == 1 and cval(go.lo) == 0 and go.step == 1 and not go.extra and not early(O) and not cut_:
                    ck.ok("positions", J, "every position of a row, in ascending order", W)
        start = r.ivs[j][0]
        cnt = None
        if start.op == "lv" and start.a[0] == O.lid:
            cnt = start.a[1]
        if cnt is None:
            if cval(start) == 0:
                ck.bad(R, J, "reading starts over at the first row for every position", W)
            else:
                ck.und(R, J, "reading starts at %s" % show(start)[:60], W)
            continue
        if cval(O.init[cnt]) not in (0, None):
            ck.bad(R, J, "the first %s rows are never read" % show(O.init[cnt]), W)
            continue
        g = irange(r, j)
        ln = lin(noepoch(g.hi)) if g and g.hi is not None else None
        if ln and len(ln[0]) == 1 and list(ln[0])[0].op == "size" and ln[1] < 0:
            ck.bad(R, J, "the last %d rows are never read" % -ln[1], W)
            continue
        bad = und = None
        hc = [h for h in r.H if h is cnt or (r.init.get(h) is start and lv(r, h) is not j)]
        if not hc:
            ck.und(R, J, "how far rows were read is not kept", W)
            continue
        hc = hc[0]
        for k, s in r.paths:
            v = s.store.get(hc, lv(r, hc))
            dc = diff(v, lv(r, hc))
            g_ = fmt_guards({a: b for a, b in s.atoms.items() if contains(a, lambda t: t is j)}, 3)[-120:]
            if dc == 0:
                bad = "a row is read again for the next position: it is not counted when %s" % g_
            elif dc is not None and dc != 1:
                bad = "reading moves on by %d rows when %s" % (dc, g_)
            elif dc is None:
                dj = diff(v, j)
                if dj != 1:
                    und = "rows read are counted as %s" % show(v)[:60]
            # a row that is no pivot waits
            if k == "end" and any(e.k == "call" and e.d["name"].endswith("getFaces") for e in s.ev):
                kept = [noepoch(changed(s, r, h)) for h in r.H if changed(s, r, h) is not None]
                push = [x for x in kept if x.op == "push"]
                if not push:
                    bad = bad or "a row that is no pivot of the position is lost when %s" % g_
                else:
                    p = push[0].a[1]
                    f = getf(p, "first")
                    if diff(f, j) not in (0, None):
                        bad = bad or "a waiting row is kept under number %s" % show(f)
        if bad:
            ck.bad(R, J, bad, W)
        elif und:
            ck.und(R, J, und, W)
        else:
            ck.ok(R, J, "every row is read once and waits until it is a pivot", W)


def waiting(ck, J, W, rs, r, ctx, k, h, added, fld):
    """the waiting rows that hold the position of a pivot found among them"""
    R = "eliminate"
    S = ctx[-1]
    g = irange(r, k)
    if cutoff(r):
        ck.bad(R, J, "the elimination stops early: %s" % cutoff(r)[:80], W)
        return
    if g is None or not g.known or g.hi is None or g.step != 1 or early(r) or g.extra:
        ck.und(R, J, "range of the elimination not decided", W)
        return
    j = [x for x in S.ivs if diff(g.lo, x) is not None]
    j = j[0] if j else None
    if j is None and cval(g.lo) != 0:
        ck.und(R, J, "the elimination starts at %s" % show(g.lo)[:60], W)
        return
    if j is not None:
        d = diff(g.lo, j)
        if d > 1:
            ck.bad(R, J, "the elimination leaves out %d waiting rows after the pivot row" % (d - 1), W)
            return
        c = cval(S.ivs[j][0])
        if c is not None and c > 0:
            ck.bad("search", J, "the first %d waiting rows are never searched" % c, W)
    hi = diff(noepoch(g.hi), noepoch(size(lv(r, h))))
    if hi is None:
        hi = diff(noepoch(outer_value(g.hi, [r])), noepoch(outer_value(size(lv(r, h)), [r])))
    if hi is None:
        ck.und(R, J, "the elimination ends at %s" % show(g.hi)[:60], W)
        return
    if hi < 0:
        ck.bad(R, J, "the elimination leaves out the last %d waiting rows" % -hi, W)
        return
    cur = noepoch(getf(at(lv(r, h), k), fld))
    iv = None
    for kk, s in r.paths:
        hit = None
        for x, b in s.atoms.items():
            p = position(x, b)
            if p and noepoch(p[0]) is cur:
                hit = p[2]
        ch = changed(s, r, h) is not None
        empty = any(noepoch(x) is mk("nz", size(cur)) and not b for x, b in s.atoms.items())
        if hit and not ch:
            ck.bad(R, J, "a waiting row holding the position keeps it when %s" % fmt_guards(s.atoms, 3)[-140:], W)
            return
        if ch and hit is False:
            ck.bad(R, J, "the pivot row is added to waiting rows that do not hold the position", W)
            return
        if hit is None and not ch and any(small(x, b, cur) for x, b in s.atoms.items()):
            ck.bad(R, J, "waiting rows with few faces keep the position when %s" % fmt_guards(s.atoms, 2)[-120:], W)
            return
        if hit is None and not empty:
            ck.und(R, J, "condition of the elimination not recognised", W)
            return
    if added is None:
        ck.bad(R, J, "a waiting row is not replaced by its sum with the pivot row", W)
        return
    ck.ok(R, J, "every waiting row holding the position", W)
    # the face cleared
    n = 0
    for kk, s in S.paths:
        for e in s.ev:
            if e.k == "push" and e.d.get("how") == "insert":
                v = noepoch(e.d["val"])
                if v.op == "lo" or v.op == "at":
                    row = None
                    for q, _ in rs:
                        if v.op == "lo" and q.lid == v.a[0]:
                            i0 = noepoch(q.init[v.a[1]])
                            if i0.op == "at":
                                row = i0.a[0]
                    if row is None and v.op == "at":
                        row = v.a[0]
                    if row is None:
                        continue
                    ok, why = largest(rs, v, row)
                    n += 1
                    if ok is False:
                        ck.bad("cleared face", J, "the face cleared in the dimension below must be the largest of the row: %s" % why, W)
                        return
                    if ok is None:
                        ck.und("cleared face", J, why, W)
                        return
    if n:
        ck.ok("cleared face", J, "the largest face of the row", W)
