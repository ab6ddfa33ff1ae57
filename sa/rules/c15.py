"""C15 k-means++: every point gets the label of its nearest centroid, centroids are means of their points, and starting centroids are distinct data points."""
from ..common import *
from ..loops import *
from ..trees import noepoch
from .c09 import w
from .c13 import recs, lv
from .c14 import states, isdist, extremum, full, txt, counter

TITLE = "k-means++ assignment and centroids"
OPQ = {"vectors_distance", "writeLog", "writeDebug"}


def run(prog, ck):
    for fn in sorted(prog.functions.values(), key=lambda f: f["key"]):
        if fn["name"] == "kMeansPlusPlus::runPreprocessor":
            kmeans(prog, ck, fn)
    ck.expect("nearest", 1)
    ck.expect("label", 1)
    ck.expect("sum", 1)
    ck.expect("count", 1)
    ck.expect("mean", 1)
    ck.expect("result", 1)
    ck.expect("start", 1)


def kmeans(prog, ck, fn):
    sts = states(prog, ck, fn, "nearest", OPQ)
    if sts is None:
        return
    K(prog, ck, fn, sts).go()


def D(r, h):
    return lv(r, h)


class K:
    def __init__(self, prog, ck, fn, sts):
        self.ck, self.fn, self.sts, self.W, self.I = ck, fn, sts, w(fn), fn["name"].split("::")[0]
        self.all = recs(sts)

    def rec(self, lid):
        """every record of the loop with its context"""
        return [(r, c) for r, c in self.all if r.lid == lid]

    def bad(self, rule, text):
        self.ck.bad(rule, self.I, text, self.W)

    def und(self, rule, text):
        self.ck.und(rule, self.I, text, self.W)

    def go(self):
        # the loop over the centroids: keeps the smallest distance of a point and which centroid it is
        self.near = None
        for r, ctx in self.all:
            for h in r.H:
                if lv(r, h) in r.ivs:
                    continue
                e = extremum(r, h)
                if e[0] is None:
                    continue
                c = e[3] if e[0] == "skip" else e[1]
                d = isdist(c)
                if d and len(ctx) >= 2:
                    self.near = (r, ctx, h, e, d)
        if self.near is None:
            for r, ctx in self.all:
                for k, s in r.paths:
                    for h in r.H:
                        v = s.store.get(h)
                        if k == "end" and lv(r, h) not in r.ivs and v in r.ivs and len(ctx) >= 2:
                            for a, b in s.atoms.items():
                                if a.op == "<" and any(isdist(x) and contains(x, lambda y: y is v) for x in a.a) and not any(x.op == "lv" and x.a[0] == r.lid for x in a.a):
                                    self.bad("nearest", "each centroid is compared with %s instead of the nearest so far" % " and ".join(show(x)[:50] for x in a.a if not isdist(x)))
                                    return
            self.und("nearest", "no loop that keeps the nearest centroid is recognised")
            return
        if self.nearest():
            self.points()
        self.start()

    # -- the assignment
    def nearest(self):
        r, ctx, h, e, d = self.near
        if e[0] == "skip":
            return self.bad("nearest", "a centroid is not compared when %s" % txt(e[1]))
        if e[0] != "min":
            return self.bad("nearest", "a point gets the %s" % ("furthest centroid" if e[0] == "max" else "last centroid"))
        P = ctx[-1]
        self.P = P
        xs = [x for x in d if x.op == "at"]
        if len(xs) != 2:
            return self.und("nearest", "distance of %s" % " and ".join(show(x)[:60] for x in d))
        cen = [x for x in xs if x.a[1] in r.ivs]
        pts = [x for x in xs if x not in cen]
        if len(cen) == 2:
            return self.bad("nearest", "each centroid is compared with the point of the same number instead of the point looked at")
        if len(cen) != 1 or pts[0].a[1] not in P.ivs:
            return self.und("nearest", "distance of %s" % " and ".join(show(x)[:60] for x in xs))
        self.cen, self.data = cen[0].a[0], pts[0].a[0]
        self.c, self.j = cen[0].a[1], pts[0].a[1]
        if self.cen is self.data:
            return self.und("nearest", "points are compared with points")
        ini = r.init[h]
        i0 = first_pair(isdist(ini), self.cen, pts[0])
        if i0 is not None:
            # the first centroid's distance is the start, the loop looks at the others
            ok, why = verdict(r, self.c, add(i0, INT(1)), size(self.cen))
            if not ok and verdict(r, self.c, INT(0), size(self.cen))[0]:
                ok, why = True, ""
            if ok is None:
                return self.und("nearest", why)
            if not ok or early(r):
                return self.bad("nearest", "not every centroid is looked at: " + (why or "the loop may stop early"))
        elif full(self.ck, "nearest", self.I, r, (self.cen,), "centroid", self.W) is None:
            return None
        c = cval(ini)
        if i0 is not None:
            pass
        elif not (ini.op.startswith("f:") or "max" in show(ini)) and c is not None and c < 1e6:
            return self.bad("nearest", "the nearest distance starts at %s, so a point further away than that gets no centroid" % c)
        if ini.op in ("lv", "lo"):
            return self.bad("nearest", "the nearest distance is carried over from one point to the next")
        # the companion that names the centroid
        self.idx = None
        m = same_iv([r])
        cc = subst(self.c, m)
        for q in r.H:
            if lv(r, q) in r.ivs or q is h:
                continue
            okk = True
            some = False
            for k, s in r.paths:
                v = s.store.get(q)
                if v is not None and lv(r, q) not in r.ivs and subst(v, m) is cc:
                    v = self.c
                u = s.store.get(h)
                took = u is not None and u is not lv(r, h)
                if v is not None and v is not lv(r, q):
                    if v is self.c:
                        some = True
                    if not took:
                        okk = False
                elif took:
                    okk = False
                if took and v is not None and v is not self.c and v is not lv(r, q):
                    dd = diff(v, self.c)
                    if dd:
                        return self.bad("nearest", "the centroid recorded is %s when the distance is that of %s" % (show(v), show(self.c)))
                    okk = False
            if some and okk:
                self.idx = q
            elif some:
                return self.bad("nearest", "which centroid is nearest and its distance are not always updated together")
        if self.idx is None:
            return self.und("nearest", "the variable naming the nearest centroid is not recognised")
        if i0 is not None and r.init[self.idx] is not i0:
            dd = diff(r.init[self.idx], i0)
            if dd:
                return self.bad("nearest", "the distance starts as that of centroid %s, but centroid %s is recorded with it" % (show(i0), show(r.init[self.idx])))
            if dd is None:
                return self.und("nearest", "the centroid recorded first is %s" % show(r.init[self.idx])[:60])
        self.near_idx = mk("lo", r.lid, self.idx)
        self.ck.ok("nearest", self.I, "every centroid is compared and the nearest one is recorded with its distance", self.W)
        return True

    def points(self):
        P = self.P
        iv = full(self.ck, "label", self.I, P, (self.data,), "point", self.W)
        if iv is None:
            return
        outer = [c for r, c in self.all if r is P]
        # what each pass over a point adds
        lab = cnt = sm = None
        labs, cnts, sums = [], [], []
        for k, s in P.paths:
            if k != "end":
                continue
            l = c = m = 0
            for h in P.H:
                v = s.store.get(h)
                if v is None or v is lv(P, h):
                    continue
                if v.op in ("push", "app") and v.a[0] is lv(P, h):
                    e = v.a[1]
                    if e is self.near_idx:
                        l += 1
                        lab = h
                    elif contains(e, lambda x: x is self.near_idx) and diff(e, self.near_idx):
                        return self.bad("label", "the label given is %s" % show(e))
                    elif e.op == "lo" and e.a[0] == self.near_idx.a[0] and e is not self.near_idx:
                        pass
                elif v.op == "upd" and v.a[0] is lv(P, h) and v.a[1] is iv and v.a[2] is self.near_idx:
                    l += 1
                    lab = h
                elif v.op == "upd" and v.a[0] is lv(P, h) and diff(v.a[2], at(lv(P, h), v.a[1])) is not None:
                    dd = diff(v.a[2], at(lv(P, h), v.a[1]))
                    if dd != 1:
                        return self.bad("count", "a point counts %s times" % dd)
                    if v.a[1] is not self.near_idx:
                        return self.bad("count", "a point counts for cluster %s instead of its nearest" % show(v.a[1])) if diff(v.a[1], self.near_idx) or v.a[1] is iv else self.und("count", "counted for %s" % show(v.a[1]))
                    c += 1
                    cnt = h
                elif v.op == "lo":
                    m += 1
                    sums.append((h, v))
                    sm = h
            labs.append((l, s))
            cnts.append((c, s))
        miss = [s for l, s in labs if l == 0]
        if not labs or lab is None:
            if self.nolabels():
                return self.bad("label", "the list of labels returned never gets a label")
            return self.und("label", "the list the labels are put in is not recognised")
        if miss:
            return self.bad("label", "a point gets no label when %s, so the labels of later points are shifted" % txt(self.own(miss[0], P)))
        if any(l > 1 for l, s in labs):
            return self.bad("label", "a point gets more than one label")
        self.lab = lab
        i = P.init[lab]
        if i.op in ("lv", "lo"):
            return self.bad("label", "labels of one round are added to those of the round before")
        self.ck.ok("label", self.I, "every point gets the number of its nearest centroid, in the order of the points", self.W)
        if not self.moved(iv):
            return self.bad("sum", "the centroids returned are not made from the points' coordinates")
        if not self.divided():
            return self.bad("mean", "the sums are never divided: no centroid becomes the mean of its points")
        if cnt is None:
            self.und("count", "the counts are not recognised")
        elif any(c == 0 for c, s in cnts):
            self.bad("count", "a point is not counted when %s" % txt(self.own([s for c, s in cnts if c == 0][0], P)))
        else:
            ini = P.init[cnt]
            if ini.op in ("lv", "lo"):
                self.bad("count", "the counts of one round are carried over to the next")
            elif ini.op == "filled" and cval(ini.a[1]) not in (0, None):
                self.bad("count", "the counts start at %s" % show(ini.a[1]))
            else:
                self.ck.ok("count", self.I, "every point counts once, for its nearest centroid, from zero in each round", self.W)
        self.sums(P, iv, sm, sums)
        self.means(P, cnt, sm, outer)

    def moved(self, iv):
        """the coordinates of the points looked at find their way into the centroids returned"""
        for s in self.sts:
            v = getf(s.ret, "originalData")
            if v.op in ("fld", "init"):
                continue
            for x in feeds(v, self.all):
                if x.op == "at" and x.a[1] is iv and x.a[0] is self.data:
                    return True
        return False

    def divided(self):
        """the centroids returned are made with a quotient (or a product, or something the analysis does not see into)"""
        n = 0
        for s in self.sts:
            v = getf(s.ret, "originalData")
            if v.op in ("fld", "init"):
                continue
            n += 1
            if any(x.op in ("/", "*", "call", "apply", "ctor", "opaque", "unk", "havoc", "lambda") for x in feeds(v, self.all)):
                return True
        return n == 0

    def nolabels(self):
        """every list of labels returned after the rounds is empty, whatever the rounds did"""
        n = 0
        for s in self.sts:
            if not any(e.k == "loop" and e.rec.lid == self.P.lid or e.k == "loop" and any(x.k == "loop" and x.rec.lid == self.P.lid for _, q in e.rec.paths for x in q.ev) for e in s.ev):
                continue
            v = noepoch(getf(s.ret, "originalLabels"))
            n += 1
            if not self.holdsnothing(v, 0):
                return False
        return n > 0

    def holdsnothing(self, v, depth):
        v = noepoch(v)
        if v.op == "empty":
            return True
        if v.op == "lo" and depth < 4:
            rs = [r for r, c in self.rec(v.a[0]) if v.a[1] in r.init]
            for r in rs:
                if not self.holdsnothing(r.init[v.a[1]], depth + 1):
                    return False
                for k, s in r.paths:
                    x = s.store.get(v.a[1])
                    if x is not None and x is not lv(r, v.a[1]) and not self.holdsnothing(x, depth + 1):
                        return False
            return bool(rs)
        return False

    def own(self, s, r):
        return [(a, b) for a, b in s.atoms.items() if contains(a, lambda x: x.op == "lv" and x.a[0] == r.lid) and not any(a in alt for alt in r.hdr)]

    def sums(self, P, iv, sm, sums):
        R = "sum"
        if sm is None:
            return self.und(R, "the sums are not recognised")
        n = 0
        for h, v in sums:
            for r, ctx in self.rec(v.a[0]):
                if not ctx or ctx[-1].lid != P.lid or r.init.get(v.a[1]) is not lv(P, h):
                    continue
                n += 1
                H = v.a[1]
                d = None
                for k, s in r.paths:
                    x = s.store.get(H)
                    if x is None or x is lv(r, H):
                        return self.bad(R, "a coordinate is left out of the sum when %s" % txt(self.own(s, r)))
                    if x.op != "upd" or x.a[0] is not lv(r, H) or x.a[2].op != "upd":
                        return self.und(R, "sum written as %s" % show(x)[:80])
                    row, col, val = x.a[1], x.a[2].a[1], x.a[2].a[2]
                    if row is not self.near_idx:
                        if row is iv or diff(row, self.near_idx) or isconst(row):
                            return self.bad(R, "a point is added to the sum of cluster %s instead of its nearest" % show(row))
                        return self.und(R, "added to the sum of %s" % show(row))
                    if col not in r.ivs:
                        return self.und(R, "coordinate %s" % show(col))
                    pt = at(self.data, iv)
                    okk, why = verdict(r, col, INT(0), size(pt))
                    if okk is None:
                        okk, why = self.dims(r, col)
                    if okk is False:
                        return self.bad(R, "not every coordinate is summed: " + why)
                    if okk is None:
                        return self.und(R, why)
                    old = at(at(lv(r, H), row), col)
                    df = addl(lin(val), ({old: 1}, 0), -1)
                    want = at(pt, col)
                    if df != ({want: 1}, 0):
                        ks = list(df[0])
                        if df[1] == 0 and len(ks) == 1 and ks[0].op == "at" and ks[0].a[0].op == "at":
                            return self.bad(R, "the sum takes %s (x%s) for coordinate %s of point %s" % (show(ks[0]), df[0][ks[0]], show(col), show(iv)))
                        return self.und(R, "the sum becomes %s" % show(val)[:80])
                if early(r):
                    return self.bad(R, "the loop over the coordinates may stop early")
        if not n:
            return self.und(R, "the loop that sums the coordinates is not recognised")
        ini = P.init[sm]
        if ini.op in ("lv", "lo"):
            return self.bad(R, "the sums of one round are carried over to the next")
        self.ck.ok(R, self.I, "every coordinate of every point is added to the sum of its nearest centroid, from zero in each round", self.W)

    def dims(self, r, col):
        """range of a loop over coordinates, measured by any row of the data or centroids"""
        for alt in r.hdr[:1]:
            for a in alt:
                for n in subterms(a):
                    if n.op == "size" and n.a[0].op == "at":
                        v = verdict(r, col, INT(0), n)
                        if v[0] is not None:
                            return v
        return None, "range of the coordinates not recognised"

    def means(self, P, cnt, sm, outer):
        R = "mean"
        if sm is None or cnt is None:
            return
        S, C = mk("lo", P.lid, sm), mk("lo", P.lid, cnt)
        # the loop over the centroids that divides
        found = None
        for r, ctx in self.all:
            for h in r.H:
                if r.init.get(h) is S and not (ctx and ctx[-1].lid == P.lid):
                    found = (r, ctx, h)
        if found is None:
            return self.und(R, "the loop that divides the sums is not recognised")
        r, ctx, h = found
        base = lv(r, h)
        iv = full(self.ck, R, self.I, r, (base, S, self.cen, P.init[sm]), "centroid", self.W)
        if iv is None:
            return
        for k, s in r.paths:
            v = s.store.get(h)
            v = base if v is None else v
            empty = any(nothing(a, b, at(C, iv)) for a, b in s.atoms.items())
            if v.op == "upd" and v.a[0] is base and v.a[1] is iv and v.a[2].op == "at" and v.a[2].a[1] is iv and v.a[2].a[0] is self.cen:
                if not empty:
                    return self.bad(R, "a centroid with points stays where it is when %s" % txt(self.own(s, r)))
                continue
            if v is base:
                if empty:
                    return self.bad(R, "a centroid without points moves to the origin")
                return self.bad(R, "a centroid stays an undivided sum when %s" % txt(self.own(s, r)))
            if v.op != "lo":
                return self.und(R, "centroid written as %s" % show(v)[:80])
            qs = [(q, c) for q, c in self.rec(v.a[0]) if q.init.get(v.a[1]) is base]
            if empty and self.divides(v, at(C, iv), [e.rec for e in s.ev if e.k == "loop"]):
                return self.bad(R, "a centroid without points is divided by zero")
            if not qs:
                return self.und(R, "the loop over the coordinates is not recognised")
            q, qc = qs[0]
            if early(q):
                return self.bad(R, "the division may stop early")
            guarded = any(nothing(a, not b, at(C, iv)) for a, b in s.atoms.items())
            for kk, t in q.paths:
                x = t.store.get(v.a[1])
                if x is None or x is lv(q, v.a[1]):
                    return self.bad(R, "a coordinate is not divided when %s" % txt(self.own(t, q)))
                if x.op != "upd" or x.a[0] is not lv(q, v.a[1]) or x.a[2].op != "upd":
                    return self.und(R, "mean written as %s" % show(x)[:80])
                row, col, val = x.a[1], x.a[2].a[1], x.a[2].a[2]
                if col not in q.ivs:
                    return self.und(R, "coordinate %s" % show(col))
                okk, why = self.dims(q, col)
                if okk is not True:
                    return (self.bad if okk is False else self.und)(R, "not every coordinate is divided: " + why)
                old = at(at(lv(q, v.a[1]), row), col)
                if row is not iv:
                    return self.bad(R, "row %s is divided in pass %s" % (show(row), show(iv))) if diff(row, iv) or row is col else self.und(R, "row %s" % show(row))
                if val.op != "/":
                    return self.und(R, "mean is %s" % show(val)[:80])
                if val.a[0] is not old:
                    return self.und(R, "mean is %s" % show(val)[:80])
                if val.a[1] is not at(C, iv):
                    z = val.a[1]
                    if z.op == "at" and z.a[0] is C or diff(z, at(C, iv)) or isconst(z) or z.op == "size":
                        return self.bad(R, "the sum of centroid %s is divided by %s" % (show(iv), show(z)))
                    return self.und(R, "divided by %s" % show(z)[:80])
                guarded = guarded or any(nothing(a, not b, at(C, iv)) for a, b in t.atoms.items())
            if not guarded:
                return self.bad(R, "a centroid without points is divided by zero")
        self.ck.ok(R, self.I, "every centroid with points becomes their mean in every coordinate; one without points stays", self.W)
        self.rounds(P, ctx, mk("lo", r.lid, h))

    def divides(self, v, c, qs):
        return any(x is not None and x.op == "upd" and x.a[2].op == "upd" and x.a[2].a[2].op == "/" and x.a[2].a[2].a[1] is c for q in qs if q.lid == v.a[0] for k, t in q.paths for x in [t.store.get(v.a[1])])

    def stops(self, g, cur, old, Z):
        """do these conditions say that no label changed?  True, None, or why they do not"""
        why = None
        for a, b in g:
            t = a.a[0] if a.op == "nz" else a
            if t.op.split("::")[-1] == "equal" or t.op == "f:equal":
                its = [x for x in t.a if isinstance(x, T) and x.op == "iter"]
                if not b or len(its) < 3 or len({noepoch(its[0].a[0]), noepoch(its[1].a[0])}) != 1:
                    continue
                A, B = its[0].a[0], its[2].a[0]
                if {A, B} != {cur.a[1], old.a[1]}:
                    continue
                n = noepoch(its[1].a[1])
                if cval(its[0].a[1]) != 0 or n not in (noepoch(size(cur)), noepoch(size(old))) or cval(its[2].a[1]) != 0:
                    why = "only a part of the labels is compared"
                elif A is old.a[1] and not any(contains(x, lambda y: noepoch(y) is noepoch(size(old))) for x, _ in g if x is not a):
                    why = "nothing has changed yet in the first round, which has no earlier labels"
                else:
                    return True
            elif a.op == "<" or a.op == "==":
                for i in (0, 1):
                    c = a.a[i]
                    while c.op in ("i2d", "cast", "b2i") and isinstance(c.a[-1], T):
                        c = c.a[-1]
                    if c.op != "lo" or not self.counted(c):
                        continue
                    o = cval(a.a[1 - i])
                    if a.op == "==" and b and o == 0 or a.op == "<" and i == 0 and b and o == 1 or a.op == "<" and i == 1 and not b and o == 0:
                        return True
                    why = "some labels may still have changed"
        return why

    def counted(self, c):
        """a number of points, from zero, raised by one where a label differs"""
        rs = [r for r, _ in self.rec(c.a[0]) if c.a[1] in r.init]
        ok = bool(rs)
        for r in rs:
            if cval(r.init[c.a[1]]) != 0:
                return False
            up = [s for k, s in r.paths if s.store.get(c.a[1]) is not None and diff(s.store[c.a[1]], lv(r, c.a[1])) == 1]
            ok = ok and bool(up) and all(any(x.op in ("==", "<") and contains(x, lambda y: y.op in ("lo", "lv") and y.a[0] != r.lid or y.op == "at") for x in s.atoms) for s in up)
        return ok

    def rounds(self, P, ctx, new):
        """the new centroids are used in the next round, and the labels and centroids are returned"""
        R = "result"
        if not ctx:
            return self.und(R, "there are no rounds")
        Z = ctx[-1]
        L = mk("lo", P.lid, self.lab)
        cen = last = None
        for h in Z.H:
            if lv(Z, h) is self.cen:
                cen = h
        if cen is None:
            return self.bad(R, "the centroids compared with are the same in every round")
        for k, s in Z.paths:
            if k != "end":
                continue
            v = s.store.get(cen)
            if v is None or v is lv(Z, cen):
                return self.bad(R, "the centroids are not moved when %s" % txt(self.own(s, Z)))
            if v is not new and not (v.op == "lo" and v.a[0] == new.a[0]):
                return self.und(R, "the centroids become %s" % show(v)[:80])
            for h in Z.H:
                if s.store.get(h) is L:
                    last = h
        if last is None:
            if self.nolabels():
                return self.bad(R, "the labels of the rounds are not kept, so no labels are returned")
            return self.und(R, "the list that keeps the labels of a round is not recognised")
        # leaving early only when the labels did not change
        for k, s in early(Z):
            g = self.own(s, Z)
            if k in ("brk", "ret") and not any(a.op == "==" and b and {noepoch(x) for x in a.a} == {noepoch(L), noepoch(lv(Z, last))} for a, b in g):
                if any(a.op == "==" and not b and {noepoch(x) for x in a.a} == {noepoch(L), noepoch(lv(Z, last))} for a, b in g):
                    return self.bad(R, "the rounds stop although labels changed")
                v = self.stops(g, L, lv(Z, last), Z)
                if v is True:
                    continue
                return (self.und if v is None else self.bad)(R, "the rounds may stop when %s" % txt(g)[:120] + (": " + v if v else ""))
        n = 0
        for s in self.sts:
            if not any(e.k == "loop" and e.rec.lid == Z.lid for e in s.ev):
                continue
            n += 1
            od, ol = getf(s.ret, "originalData"), getf(s.ret, "originalLabels")
            for nme, v, ok in (("data", od, lambda t: t.op == "lo" and (t.a[0] == Z.lid and t.a[1] is cen or t.a[0] == new.a[0]) or self.kept(t, cen)),
                               ("labels", ol, lambda t: t.op == "lo" and (t.a[0] == Z.lid and t.a[1] is last or t is L) or t is lv(Z, last))):
                if ok(v):
                    continue
                if v is self.cen:
                    return self.bad(R, "the centroids of the round before are returned with the labels of this one") if False else self.und(R, "centroids returned are those of the round before")
                if v.op in ("fld", "init") or v.op == "empty":
                    return self.bad(R, "the %s returned are %s" % (nme, show(v)[:60]))
                return self.und(R, "the %s returned are %s" % (nme, show(v)[:80]))
        if not n:
            return self.und(R, "no path returns after the rounds")
        self.ck.ok(R, self.I, "rounds use the moved centroids, stop early only when no label changed, and the last centroids and labels are returned", self.W)

    def kept(self, t, cen):
        return t.op == "lo" and t.a[1] is cen

    # -- the starting centroids
    def start(self):
        R = "start"
        if self.near is None or not hasattr(self, "cen"):
            return
        # the container the rounds start from, back to the loops that fill it
        Z = None
        for r, c in self.all:
            for h in r.H:
                if lv(r, h) is self.cen:
                    Z = (r, h)
        if Z is None:
            return self.und(R, "the starting centroids are not recognised")
        t = Z[0].init[Z[1]]
        data = self.data
        n = 0
        for _ in range(6):
            if t.op == "lo":
                rs = self.rec(t.a[0])
                if not rs:
                    break
                r, ctx = rs[0]
                h = t.a[1]
                for r, ctx in rs:
                    for k, s in r.paths:
                        v = s.store.get(h)
                        v = lv(r, h) if v is None else v
                        x = self.pushed(v, r, h, s)
                        if x is None:
                            return self.und(R, "starting centroids written as %s" % show(v)[:80])
                        if len(x) > 1:
                            return self.und(R, "several centroids per pass")
                        for e in x:
                            if e.op != "at" or noepoch(e.a[0]) is not noepoch(data):
                                return self.und(R, "a starting centroid is %s" % show(e)[:80])
                            fresh = any(a.op == "has" and noepoch(a.a[1]) is noepoch(e) and a.a[0].op in ("lv",) and not b for a, b in s.atoms.items())
                            if not fresh:
                                return self.bad(R, "a data point may be taken as a starting centroid twice, so that one of the clusters stays empty")
                            n += 1
                t = rs[0][0].init[h]
                continue
            if t.op in ("push", "app"):
                e = t.a[1]
                if e.op != "at" or noepoch(e.a[0]) is not noepoch(data):
                    return self.und(R, "the first centroid is %s" % show(e)[:80])
                n += 1
                t = t.a[0]
                continue
            break
        if t.op != "empty":
            return self.und(R, "the starting centroids begin as %s" % show(t)[:80])
        self.ck.ok(R, self.I, "starting centroids are data points, each taken only when it is not a centroid already", self.W)

    def pushed(self, v, r, h, s):
        out = []
        for _ in range(4):
            if v is lv(r, h):
                return out
            if v.op in ("push", "app"):
                out.append(v.a[1])
                v = v.a[0]
                continue
            return None
        return None


def first_pair(d, cen, pt):
    """the centroid whose distance to the point is meant, or None"""
    if not d:
        return None
    for x, y in ((d[0], d[1]), (d[1], d[0])):
        if x.op == "at" and noepoch(x.a[0]) is noepoch(cen) and noepoch(y) is noepoch(pt) and cval(x.a[1]) == 0:
            return x.a[1]
    return None


def nothing(a, b, c):
    """the atom says the count is zero"""
    if a.op == "nz" and a.a[0] is c:
        return not b
    if a.op == "<" and a.a[1] is c and cval(a.a[0]) == 0:
        return not b
    if a.op == "<" and a.a[0] is c and cval(a.a[1]) in (1, 0.5):
        return b
    if a.op == "==" and c in a.a and any(cval(x) == 0 for x in a.a):
        return b
    return False
