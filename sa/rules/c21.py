"""C21 neighbour statistics of the sliding window: counts, nearest neighbours, distances and averages follow every point that leaves or joins."""
from ..common import *
from ..loops import *
from ..trees import noepoch
from ..cases import value, holds
from .c09 import w
from .c12 import par
from .c13 import recs, lv
from .c14 import states, isdist, txt
from .c16 import flat
from .c18 import last, OPQ, RUN, stored

TITLE = "neighbour statistics of the sliding window"
PER = ("nnIndices", "nnDists", "distsFromCurrVec")
W_, I_, DEL = 10, 3, 5          # window size, the point looked at, the position of the point that left
AD, AT, NDEL, NEAR, MEM, NEW = 2.5, 3.25, 1.75, 4.0, 6.0, 6     # averages, distance of the point that left, nearest of the target partition, nearest remaining member; its position


def run(prog, ck):
    upd = {}
    for fn in sorted(prog.functions.values(), key=lambda f: f["key"]):
        n = fn["name"]
        if n == "slidingWindow::deleteNNstats":
            upd["mark"] = removal(prog, ck, fn)
        elif n == "slidingWindow::nnBasedEvaluator":
            called(prog, ck, fn)
        elif n == "slidingWindow::runPipe":
            start(prog, ck, fn)
    for fn in sorted(prog.functions.values(), key=lambda f: f["key"]):
        if fn["name"] == "slidingWindow::updateStats":
            update(prog, ck, fn, upd.get("mark"))
    ck.expect("leaves", 1)
    ck.expect("updated", 1)
    ck.expect("neighbour", 1)
    ck.expect("matrix", 1)
    ck.expect("average", 1)
    ck.expect("start", 1)


# ---- values of the window's fields

def base(c):
    """(what a container was before, the operations on it since, oldest first)"""
    ops = []
    while c.op in ("upd", "touch", "push", "rm"):
        ops.append((c.op,) + tuple(c.a[1:]))
        c = c.a[0]
    return c, ops[::-1]


class Env:
    def __init__(self, f, env=None):
        self.f, self.env = f, dict(env or {})

    def elem(self, c, k):
        b, ops = base(c)
        nm = last(b)
        n = self.f.get("#" + str(nm))
        for i in range(len(ops) - 1, -1, -1):
            o = ops[i]
            if o[0] == "upd":
                x = self.val(o[1])
                if x is None:
                    return None
                if x == k:
                    return self.val(o[2])
            elif o[0] == "touch":
                continue
            elif o[0] == "rm":
                if self.val(o[1]) == k:
                    return 0
            elif o[0] == "push" and n is not None:
                if k == n + sum(1 for q in ops[:i] if q[0] == "push"):
                    return self.val(o[1])
        m = self.lo(b)
        m = self.f.get(nm) if m is None else m
        if isinstance(m, dict):
            return m.get(k, m.get("else", 0))
        return None

    def lo(self, b):
        return self.env.get(b) if isinstance(self.env.get(b), dict) else None

    def member(self, c, k):
        b, ops = base(c)
        for o in reversed(ops):
            if o[0] in ("upd", "touch", "rm"):
                x = self.val(o[1])
                if x is None:
                    return None
                if x == k:
                    return o[0] != "rm"
        m = self.lo(b)
        m = self.f.get(last(b)) if m is None else m
        return k in m if isinstance(m, dict) and "else" not in m else None

    def val(self, t):
        if t in self.env and not isinstance(self.env[t], dict):
            return self.env[t]
        env = {}
        for x in subterms(t):
            if x in self.env:
                v = self.env[x]
                v = None if isinstance(v, dict) else v
            elif x.op == "init" and last(x) in self.f and not isinstance(self.f[last(x)], dict):
                v = self.f[last(x)]
            elif x.op == "at" and x.a[1].op != "f:min_element" and x.a[1].op != "f:max_element":
                k = self.val(x.a[1]) if x is not t else self.val(x.a[1])
                v = None if k is None else self.elem(x.a[0], k)
            elif x.op == "has":
                k = self.val(x.a[1])
                v = None if k is None else self.member(x.a[0], k)
            elif x.op == "size":
                b, ops = base(x.a[0])
                v = self.f.get("#" + str(last(b)), self.env.get(mk("size", b)))
                v = None if v is None else v + sum(1 for o in ops if o[0] == "push")
            else:
                continue
            if v is not None:
                env[x] = v
        return value(t, env)

    def holds(self, atoms):
        rest = []
        for a, b in atoms.items():
            v = self.val(a)
            if v is None:
                rest.append((a, b))
            elif bool(v) != b:
                return False, rest
        return True, rest


def pushes(v):
    return [o[1] for o in base(v)[1] if o[0] == "push"]


# ---- a point leaves

def removal(prog, ck, fn):
    W, inst, R = w(fn), fn["short"], "leaves"
    sts = states(prog, ck, fn, R)
    if sts is None:
        return None
    bad, und, mark = None, None, None
    for s in sts:
        er, wrote = {}, {}
        for e in s.ev:
            if e.k == "erase":
                er.setdefault(last(e.d["place"]), []).append(e)
            elif e.k == "write" and last(e.d["place"]):
                wrote[last(e.d["place"])] = e.d["val"]
        for nm in PER + ("distMatrix",):
            es = er.get(nm, ())
            if len(es) != 1:
                bad = bad or "%s loses %d entries when a point leaves" % (nm, len(es))
            elif not (last(es[0].d["pos"]) == "indexToBeDeleted" and es[0].d["pos"].op == "init"):
                if cval(es[0].d["pos"]) is not None or diff(es[0].d["pos"], er["nnDists"][0].d["pos"]) if "nnDists" in er else False:
                    bad = bad or "%s loses number %s instead of the point that leaves" % (nm, show(es[0].d["pos"])[:60])
                else:
                    und = und or "%s loses number %s" % (nm, show(es[0].d["pos"])[:60])
        d = wrote.get("nnDistToBeDeleted")
        if d is None:
            bad = bad or "the distance of the point that leaves to its neighbour is not kept"
        elif not (d.op == "at" and last(d.a[0]) == "nnDists" and last(d.a[1]) == "indexToBeDeleted"):
            b = base(d.a[0])[0] if d.op == "at" else None
            if d.op == "at" and b is not None and b.op == "erased":
                bad = bad or "the distance is read after the point has left"
            else:
                und = und or "distance kept: %s" % show(d)[:80]
        elif d.a[0].op != "init":
            (bad, und) = (bad or "the distance is read after the point has left", und) if d.a[0].op == "erased" else (bad, und or "distance kept: %s" % show(d)[:80])
        # counts
        n0 = mk("at0")
        for n in (1, 2, 3):
            f = {"labelToBeDeleted": 1, "indexToBeDeleted": DEL, "numPointsPartn": {1: n, 2: 4}, "avgNNDistPartitions": {1: AD, 2: AT}, "maxKeys": {1: 50, 2: 60}, "#nnIndices": W_, "#distMatrix": W_}
            en = Env(f)
            ok, rest = en.holds({a: b for a, b in s.atoms.items() if not any(x.op == "lo" for x in subterms(a))})
            if not ok:
                continue
            if rest:
                und = und or "depends on %s" % txt(rest)[:100]
                continue
            for nm in ("numPointsPartn", "avgNNDistPartitions", "maxKeys"):
                v = stored(s, nm)
                mem = en.member(v, 1) if v is not None else True
                if mem is None:
                    und = und or "%s becomes %s" % (nm, show(v)[:80])
                elif mem and n == 1:
                    bad = bad or "the last point of a partition leaves, but %s keeps the partition" % nm
                elif not mem and n > 1:
                    bad = bad or "%s drops a partition that still has %d points" % (nm, n - 1)
                if v is not None and en.member(v, 2) is False:
                    bad = bad or "%s drops another partition" % nm
            v = stored(s, "numPointsPartn")
            x = en.elem(v, 1) if v is not None else n
            if n > 1 and x is None:
                und = und or "count becomes %s" % show(v)[:80]
            elif n > 1 and x != n - 1:
                bad = bad or "a partition of %d points counts %s after one has left" % (n, x)
        # the loops over the other points
        shifted = column = False
        for r, ctx in recs([s]):
            if ctx:
                continue
            hs = {last(h): h for h in r.H if last(h)}
            if "nnIndices" in hs:
                v0 = r.init.get(hs["nnIndices"])
                early_ = v0 is not None and v0.op != "erased"
                kind, m = shift(r, hs["nnIndices"], W_ - (0 if early_ else 1))
                shifted = True
                if kind is False:
                    bad = bad or m
                elif kind is None:
                    und = und or m
                else:
                    mark = m
            if "distMatrix" in hs:
                column = True
                kind, m = columns(r, hs["distMatrix"])
                if kind is False:
                    bad = bad or m
                elif kind is None:
                    und = und or m
        if not shifted:
            v = stored(s, "nnIndices")
            if v is not None and base(v)[0].op == "erased" and base(v)[0].a[0].op == "init":
                bad = bad or "the positions of the nearest neighbours stay as they were when a point in front of them leaves"
            else:
                und = und or "nearest neighbours become %s" % show(v)[:80]
        if not column:
            bad = bad or "the column of the point that leaves stays in the distance matrix"
    if bad:
        ck.bad(R, inst, bad, W)
    elif und or not sts:
        ck.und(R, inst, und or "no path", W)
    else:
        ck.ok(R, inst, "its entry of every list, its row and column go, positions behind it move up, its partition counts one less and disappears with its last point", W)
    return mark


def shift(r, h, n):
    iv, why = None, None
    for x in r.ivs:
        okv, y = verdict(r, x, INT(0), size(lv(r, h)))
        if okv:
            iv = x
        elif okv is False:
            why = y
    if early(r):
        return False, "not every nearest neighbour moves up: the loop stops early"
    if iv is None:
        return (False if why else None), "not every nearest neighbour moves up: %s" % (why or "range not recognised")
    mark = None
    for v in (DEL, DEL - 1, DEL + 1, 0, 9, -1):
        en = Env({"indexToBeDeleted": DEL, "nnIndices": {2: v}, "#nnIndices": n}, {iv: 2})
        met = False
        for k, p in r.paths:
            ok, rest = en.holds(p.atoms)
            if not ok:
                continue
            if rest:
                return None, "depends on %s" % txt(rest)[:100]
            met = True
            new = p.store.get(h, lv(r, h))
            if v == DEL:
                ops = [o for o in base(new)[1] if o[0] == "upd" and en.val(o[1]) == 2]
                if not ops:
                    return False, "a point whose nearest neighbour has left keeps its position, which is that of another point now"
                x = en.val(ops[-1][2])
                if x is not None and 0 <= x < W_ - 1:
                    return False, "a point whose nearest neighbour has left points to number %s" % x
                mark = ops[-1][2]
                continue
            x = en.elem(new, 2)
            want = v - 1 if v > DEL else v
            if x is None:
                return None, "position becomes %s" % show(new)[:80]
            if x != want:
                return False, "a nearest neighbour at %d is recorded at %s after number %d has left" % (v, x, DEL)
        if not met:
            return None, "situation not met"
    return True, mark


def columns(r, h):
    iv, why = None, None
    for x in r.ivs:
        okv, y = verdict(r, x, INT(0), size(lv(r, h)))
        if okv:
            iv = x
        elif okv is False:
            why = y
    if early(r) or iv is None:
        return (False if why or iv is not None else None), "not every row loses the column: %s" % (why or "range not recognised")
    for k, p in r.paths:
        es = [e for e in p.ev if e.k == "erase" and any(x is h for x in chain(e.d["place"]))]
        if len(es) != 1:
            rest = {a: b for a, b in p.atoms.items() if a not in r.entry and not any(a in alt for alt in r.hdr)}
            if not es and rest:
                en = Env({"indexToBeDeleted": DEL, "#distMatrix": W_}, {iv: 2})
                for a in rest:
                    for x in subterms(a):
                        if x.op == "size" and x.a[0].op == "at":
                            en.env[x] = W_
                ok, left = en.holds(rest)
                if not ok:
                    continue
                if left:
                    return None, "depends on %s" % txt(left)[:80]
            return False, "a row loses %d columns" % len(es)
        if not (last(es[0].d["pos"]) == "indexToBeDeleted" and es[0].d["pos"].op == "init"):
            return (False if cval(es[0].d["pos"]) is not None or es[0].d["pos"] is iv else None), "a row loses column %s" % show(es[0].d["pos"])[:60]
    return True, ""


def chain(pl):
    while isinstance(pl, T):
        yield pl
        pl = pl.a[0] if pl.op.startswith("L.") and pl.a and isinstance(pl.a[0], T) else None


# ---- every accepted point updates the statistics

def called(prog, ck, fn):
    W, inst, R = w(fn), fn["short"], "updated"
    sts = states(prog, ck, fn, R, OPQ | {"updateStats", "deleteNNstats"})
    if sts is None:
        return
    acc = rej = 0
    for s in sts:
        ups = [e for e in s.ev if e.k == "call" and e.d["name"].endswith("::updateStats")]
        dels = [e for e in s.ev if e.k == "call" and e.d["name"].endswith("::deleteNNstats")]
        if any(e.k == "loop" and any(x.k == "call" and x.d["name"].endswith(("::updateStats", "::deleteNNstats")) for k, p in e.rec.paths for x in flat(p)) for e in s.ev):
            ck.und(R, inst, "statistics updated in a loop", W)
            return
        v = cval(s.ret) if isinstance(s.ret, T) else None
        yes = bool(v) if v is not None else bool(dels)
        if not yes:
            rej += 1
            if ups or dels:
                ck.bad(R, inst, "a rejected point changes the statistics", W)
                return
            continue
        acc += 1
        if len(ups) != 1 or len(dels) != 1:
            ck.bad(R, inst, "an accepted point updates the statistics %d times and removes %d" % (len(ups), len(dels)), W)
            return
        o = s.ev
        iu, idl = o.index(ups[0]), o.index(dels[0])
        if iu < idl:
            ck.bad(R, inst, "the new point is counted before the one that leaves is removed", W)
            return
        for j, e in enumerate(o):
            if e.k in ("write", "lwrite") and last(e.d["place"]) in ("labelToBeDeleted", "indexToBeDeleted") and j > idl:
                ck.bad(R, inst, "%s is set after the point was removed" % last(e.d["place"]), W)
                return
            if e.k in ("write", "lwrite") and last(e.d["place"]) == "targetPartition" and j > iu:
                ck.bad(R, inst, "the partition of the new point is set after it was counted", W)
                return
    if not acc or not rej:
        ck.und(R, inst, "no accepted or no rejected point", W)
        return
    ck.ok(R, inst, "once for every accepted point, after the removal, never for a rejected one; %d paths" % len(sts), W)


# ---- the first full window

def start(prog, ck, fn):
    W, inst, R = w(fn), fn["short"], "start"
    sts = states(prog, ck, fn, R, RUN)
    if sts is None:
        return
    met = 0
    for r, ctx in recs(sts):
        for k, p in r.paths:
            ini = [e for e in flat(p) if e.k == "call" and e.d["name"].endswith("::runComplexInitializer")]
            if not ini or ctx:
                continue
            met += 1
            ws = {}
            after = False
            for e in p.ev:
                if e is ini[0]:
                    after = True
                if e.k in ("write", "lwrite") and e.d["place"].op in ("L.elem", "L.idx", "L.at"):
                    ws.setdefault(last(e.d["place"].a[0]), []).append((after, e))
            for nm in ("avgNNDistPartitions", "numPointsPartn", "maxKeys"):
                es = ws.get(nm, ())
                if not es:
                    ck.bad(R, inst, "%s has no entry for the first partition" % nm, W)
                    return
                if not es[-1][0] and nm == "avgNNDistPartitions":
                    ck.bad(R, inst, "the first average is taken before the distances are known", W)
                    return
                if last(es[-1][1].d["place"].a[1]) != "targetPartition":
                    ck.und(R, inst, "%s of partition %s" % (nm, show(es[-1][1].d["place"].a[1])[:50]), W)
                    return
            a = noepoch(ws["avgNNDistPartitions"][-1][1].d["val"])
            env = {}
            for x in subterms(a):
                if x.op in ("f:accumulate", "accumulate", "sum", "truncsum") or x.op.startswith("f:accumulate"):
                    if not any(last(y) == "nnDists" for y in subterms(x)):
                        ck.und(R, inst, "average of %s" % show(x)[:60], W)
                        return
                    env[x] = 30.0
                    if x.op == "truncsum":
                        ck.bad(R, inst, "the sum of the distances is cut", W)
                        return
                elif x.op == "size" and any(last(y) == "nnDists" for y in subterms(x)):
                    env[x] = 12
                elif last(x) == "windowMaxSize":
                    env[x] = 12
                elif x.op == "size":
                    env[x] = 12
            v = value(a, env)
            if v is None:
                ck.und(R, inst, "first average %s" % show(a)[:100], W)
                return
            if abs(v - 2.5) > 1e-9:
                ck.bad(R, inst, "12 distances with the sum 30 give the first average %s" % v, W)
                return
            n = noepoch(ws["numPointsPartn"][-1][1].d["val"])
            if last(n) != "windowMaxSize" and n.op != "size":
                v = value(n, {x: 12 for x in subterms(n) if last(x) == "windowMaxSize" or x.op == "size"})
                if v is None:
                    ck.und(R, inst, "first count %s" % show(n)[:80], W)
                    return
                if v != 12:
                    ck.bad(R, inst, "a window of 12 points counts %s" % v, W)
                    return
    if not met:
        ck.und(R, inst, "the initial complex is not built in a loop over the points", W)
        return
    ck.ok(R, inst, "the average of all distances and the size of the window", W)


# ---- the new point joins

def update(prog, ck, fn, mark):
    W, inst = w(fn), fn["short"]
    sts = states(prog, ck, fn, "neighbour")
    if sts is None:
        return
    bad = {}

    def say(rule, kind, text):
        bad.setdefault((rule, kind), text)

    U = Update(sts, mark, say)
    U.run()
    texts = {"neighbour": "nearest neighbour and distance of every point of the two partitions and of the new one, in every situation",
             "matrix": "one column for every row and one row",
             "average": "averages and counts follow every changed distance"}
    for rule in texts:
        b = [(kd, t) for (ru, kd), t in bad.items() if ru == rule]
        if any(kd == "bad" for kd, t in b):
            ck.bad(rule, inst, next(t for kd, t in b if kd == "bad"), W)
        elif b or U.n < 10:
            ck.und(rule, inst, b[0][1] if b else "situations not met", W)
        else:
            ck.ok(rule, inst, texts[rule] + "; %d situations" % U.n, W)


class Update:
    def __init__(self, sts, mark, say):
        self.sts, self.mark, self.say, self.n = sts, mark, say, 0

    def all(self, kind, text):
        for r in ("neighbour", "matrix", "average"):
            self.say(r, kind, text)

    def run(self):
        main = None
        for s in self.sts:
            for e in s.ev:
                if e.k == "loop" and any(last(h) in ("nnDists", "distMatrix") for h in e.rec.H):
                    if main is not None and main.lid != e.rec.lid:
                        return self.all("und", "several loops over the points")
                    main = main or e.rec
        if main is None:
            return self.all("und", "loop over the points not recognised")
        self.r = r = main
        self.hm = next((h for h in r.H if last(h) == "distMatrix"), None)
        iv, why = None, None
        ends = [x for alt in r.hdr for a in alt for x in subterms(a) if x.op == "size" and last(x.a[0]) in ("distMatrix", "distsFromCurrVec", "partitionLabels", "nnDists")]
        for x in r.ivs:
            for hi in ends + [sub(mk("init", fld(self.sts, "windowMaxSize")), INT(1))] if fld(self.sts, "windowMaxSize") is not None else ends:
                okv, y = verdict(r, x, INT(0), hi)
                if okv:
                    iv = x
                elif okv is False and hi in ends:
                    why = y
        if iv is None or early(r):
            return self.all("bad" if why or iv is not None else "und", "not every point of the window is updated: %s" % (why or "the loop may stop early"))
        self.iv = iv
        if self.hm is None:
            self.say("matrix", "bad", "the rows get no column for the new point")
        # one column per row
        for k, p in r.paths:
            if self.hm is None:
                break
            v = p.store.get(self.hm, lv(r, self.hm))
            b, ops = base(v)
            ups = [o for o in ops if o[0] == "upd"]
            if len(ops) != 1 or len(ups) != 1 or ups[0][1] is not iv:
                self.say("matrix", "bad" if not ops else "und", "a row %s" % ("gets no column" if not ops else "becomes %s" % show(v)[:80]))
                continue
            ps = pushes(ups[0][2])
            if len(ps) != 1:
                self.say("matrix", "bad", "a row gets %d columns" % len(ps))
            elif not (ps[0].op == "at" and last(ps[0].a[0]) == "distsFromCurrVec"):
                self.say("matrix", "bad" if ps[0].op == "at" and last(ps[0].a[0]) or cval(ps[0]) is not None else "und", "a row gets %s instead of the distance" % show(ps[0])[:80])
            elif ps[0].a[1] is not iv:
                self.say("matrix", "bad", "the row of a point gets the distance of another one, %s" % show(ps[0])[:80])
        for s in self.sts:
            v = stored(s, "distMatrix")
            b, ops = base(v) if v is not None else (None, [])
            if not ops:
                self.say("matrix", "bad", "the new point gets no row")
            elif len(ops) != 1 or ops[0][0] != "push":
                self.say("matrix", "und", "matrix becomes %s" % show(v)[:80])
            else:
                x = ops[0][1]
                if x.op == "filled":
                    y = Env({"#distMatrix": W_ - 1, "windowMaxSize": W_}).val(x.a[0])
                    if y is None:
                        self.say("matrix", "und", "row of %s" % show(x)[:60])
                    elif y < W_:
                        self.say("matrix", "bad", "the row of the new point has %s columns in a window of %d" % (y, W_))
                elif x.op == "empty" or last(x) == "distMatLastRow":
                    self.say("matrix", "bad", "the row of the new point is empty, so the columns of later points shift")
                else:
                    self.say("matrix", "und", "row %s" % show(x)[:60])
        self.tp()
        for d, t in ((1, 2), (1, 1), (1, 9)):
            for nd in (0, 1, 2, 4):
                for nt in (1, 2, 4) if t == 2 else (None,):
                    for L in (1, 2, 3):
                        if L == d and not nd:
                            continue
                        for gone in (False, True):
                            if gone and L != d:
                                continue
                            if L == d and nd == 1 and not gone:
                                continue
                            for dist in (3.0, 5.0, 8.0):
                                for other in (6.0, 9.0):
                                    if other == 9.0 and not gone:
                                        continue
                                    self.other = other
                                    if not self.situation(d, t, nd, nt, L, gone, dist):
                                        return

    def tp(self):
        """the lists of distances to and positions in the target partition"""
        r = self.r
        self.hd, self.hi = set(), set()
        for k, p in r.paths:
            for h in r.H:
                v = p.store.get(h)
                if v is None or h.op != "L.var" or v.op != "push":
                    continue
                for x in pushes(v):
                    if x.op == "at" and last(x.a[0]) == "distsFromCurrVec" and x.a[1] is self.iv:
                        self.hd.add(h)
                    elif x is self.iv:
                        self.hi.add(h)

    def situation(self, d, t, nd, nt, L, gone, dist):
        r, iv = self.r, self.iv
        same = d == t
        cnt = nd if L == d else nt if L == t else 5
        alone = cnt == 1 and L == t and not same
        old = -1.0 if alone else 5.0
        num = {1: nd, 3: 5} if nd else {3: 5}
        avg = {1: AD, 3: 1.0} if nd else {3: 1.0}
        if t == 2:
            num[2], avg[2] = nt, (-1.0 if nt == 1 else AT)
        if L == 2 and t != 2:
            num[2], avg[2] = 5, AT
        f = {"labelToBeDeleted": d, "targetPartition": t, "windowMaxSize": W_, "indexToBeDeleted": DEL, "nnDistToBeDeleted": NDEL,
             "numPointsPartn": num, "avgNNDistPartitions": avg, "partitionLabels": {I_: L, "else": 3}, "nnDists": {I_: old, "else": 1.0}, "nnIndices": {I_: (-2 if gone else -1 if alone else 7), "else": 7},
             "distsFromCurrVec": {I_: dist, "else": 20.0}, "#nnDists": W_ - 1, "#nnIndices": W_ - 1, "#distMatrix": W_ - 1, "#partitionLabels": W_ - 1, "#distsFromCurrVec": W_ - 1}
        if not nd:
            f["numPointsPartn"] = dict(num)
        env = {iv: I_}
        if self.mark is not None and cval(self.mark) is None:
            env[self.mark] = -2
        elif self.mark is not None and gone:
            f["nnIndices"][I_] = cval(self.mark)
        for h in r.H:
            x = cval(r.init[h]) if h in r.init else None
            if h.op == "L.var" and x is not None and lv(r, h) is not iv:
                env[lv(r, h)] = x
        sit = self.name(d, t, nd, nt, L, gone, dist, old)
        met = False
        for z in (0, 2):        # members seen before this one
            for h in self.hd | self.hi:
                env[mk("size", lv(r, h))] = z
            for k, p in r.paths:
                e1 = Env(f, env)
                ok, rest = e1.holds({a: b for a, b in p.atoms.items() if a not in r.entry and not (a.op == "<" and a.a[0].op == "lo" and a.a[0].a[0] != r.lid)})
                if not ok:
                    continue
                if rest:
                    self.all("und", "depends on %s" % txt(rest)[:150])
                    return False
                met = True
                self.n += 1
                if not self.path(p, e1, f, d, t, nd, nt, L, gone, dist, old, same, sit):
                    return False
        if not met:
            self.all("und", "no path for: %s" % sit)
            return False
        return True

    def name(self, d, t, nd, nt, L, gone, dist, old):
        return "%s of %d%s, new point at %s (nearest so far %s)" % ("a point of the partition that lost one and gets the new one," if L == d == t else "a point of the partition that lost one," if L == d else "a point of the new point's partition," if L == t else "a point of a third partition,",
                                                                    nd if L == d else nt if L == t and nt else 5, ", whose nearest neighbour left" if gone else "", dist, old)

    def path(self, p, e1, f, d, t, nd, nt, L, gone, dist, old, same, sit):
        r = self.r
        say = self.say
        cnt = nd if L == d else nt if L == t else 5
        val = {}
        for nm in ("nnDists", "nnIndices"):
            h = next((x for x in r.H if last(x) == nm), None)
            val[nm] = p.store.get(h, lv(r, h)) if h is not None else None
        D, N = val["nnDists"], val["nnIndices"]
        if D is None or N is None:
            say("neighbour", "bad", "the nearest neighbours are not updated")
            return False
        two = cnt == 1 and L == t
        cand = []
        if L == t and not two:
            cand.append((dist, W_ - 1))
        if two:
            cand = [(dist, W_ - 1)]
        elif gone:
            if cnt > 1:
                cand.append((self.other, NEW))
        else:
            cand.append((old, 7))
        want = min(cand)[0] if cand else -1.0
        widx = {x[1] for x in cand if x[0] == want} if cand else {-1}
        got = self.read(p, e1, D, I_, L, t)
        gi = self.read(p, e1, N, I_, L, t) if got is not None and got is not False else got
        if got is None or gi is None:
            say("neighbour", "und", "%s: %s" % (sit, self.why or show(D)[:100]))
            return False
        if got is False or gi is False:
            say("neighbour", "bad", "%s: %s" % (sit, self.why))
            return False
        if abs(got - want) > 1e-9:
            say("neighbour", "bad", "%s: its distance becomes %s instead of %s" % (sit, got, want))
            return False
        if gi not in widx:
            say("neighbour", "bad", "%s: its nearest neighbour becomes number %s instead of %s" % (sit, gi, min(widx)))
            return False
        pd, pi = pushes(D), pushes(N)
        if two:
            pass
        elif pd or pi:
            say("neighbour", "bad", "%s: the new point gets an entry of its own for it" % sit)
            return False
        if L == t and not two and self.hd:
            for hs, what in ((self.hd, "distance"), (self.hi, "position")):
                if not any(pushes(p.store.get(h, lv(r, h))) for h in hs):
                    say("neighbour", "bad", "%s: its %s is not considered for the new point" % (sit, what))
                    return False
        elif L != t and any(pushes(p.store.get(h, lv(r, h))) for h in self.hd | self.hi):
            say("neighbour", "bad", "%s: it is considered as a neighbour of the new point" % sit)
            return False
        # accumulators add up
        for h in r.H:
            x = lv(r, h)
            if h.op != "L.var" or x is self.iv or x not in e1.env or h not in p.store:
                continue
            v0 = self.val(e1, p, p.store[h], L, t)
            e2 = Env(e1.f, e1.env)
            e2.env[x] = 17.5
            v1 = self.val(e2, p, p.store[h], L, t)
            if v0 is None or v1 is None:
                say("average", "und", "%s: %s" % (sit, show(p.store[h])[:80]))
                return False
            if not (abs((v1 - 17.5) - (v0 - e1.env[x])) < 1e-9 or v0 == v1 and cval(p.store[h]) is not None and self.isflag(h)):
                say("average", "bad", "%s: the sum %s forgets what earlier points added" % (sit, show(h)[:40]))
                return False
        # afterwards
        if t == 2 and nt == 1 and L != t or same and nd == 1 and L != t:
            return True
        base_ = {}
        for h in r.H:
            lo = mk("lo", r.lid, h)
            if h in p.store and lv(r, h) in e1.env and h.op == "L.var":
                base_[lo] = self.val(e1, p, p.store[h], L, t)
            elif lv(r, h) in e1.env and h.op == "L.var":
                base_[lo] = e1.env[lv(r, h)]
            elif last(h) in ("numPointsPartn", "avgNNDistPartitions"):
                v = p.store.get(h, lv(r, h))
                m = {}
                for k in set(f[last(h)]) | {d, t}:
                    if e1.member(v, k):
                        y = self.elem(e1, p, v, k, L, t)
                        if y is None:
                            say("average", "und", "%s: %s" % (sit, show(v)[:100]))
                            return False
                        m[k] = y
                base_[lo] = m
        ok1 = False
        for s in self.sts:
            e3 = Env(f, base_)
            for x in {x for a in list(s.atoms) + [v for pl, v in s.store.items()] if isinstance(a, T) for x in subterms(a)}:
                if x.op == "at" and x.a[1].op in ("f:min_element",) and x.a[0] is x.a[1].a[0] and x.a[0].op == "lo" and x.a[0].a[1] in self.hd:
                    e3.env[x] = NEAR
                elif x.op == "at" and x.a[1].op in ("f:min_element",) and x.a[0].op == "lo" and x.a[0].a[1] in self.hi and x.a[1].a[0].op == "lo" and x.a[1].a[0].a[1] in self.hd:
                    e3.env[x] = NEW
                elif x.op == "at" and x.a[1].op == "f:max_element" and x.a[0].op == "lo" and x.a[0].a[1] in self.hd:
                    e3.env[x] = 99.0
                elif x.op == "at" and x.a[1].op == "f:max_element" and x.a[0].op == "lo" and x.a[0].a[1] in self.hi:
                    e3.env[x] = 99
                elif x.op == "f:min_element" and x.a[0].op == "lo" and x.a[0].a[1] in self.hd:
                    e3.env[x] = 2
            atoms = {a: b for a, b in s.atoms.items() if not any(x.op == "lo" and x.a[1] is self.iv.a[1] for x in subterms(a))}
            ok, rest = e3.holds(atoms)
            if not ok:
                continue
            if rest:
                say("average", "und", "depends on %s" % txt(rest)[:120])
                return False
            ok1 = True
            if not self.after(s, e3, f, d, t, nd, nt, L, dist, same, sit, two, len(pd), len(pi), pd, pi, got - old, e1, p):
                return False
        if not ok1:
            say("average", "und", "no path for: %s" % sit)
            return False
        return True

    def isflag(self, h):
        return all(cval(p.store[h]) is not None or p.store[h] is lv(self.r, h) for k, p in self.r.paths if h in p.store)

    def after(self, s, e3, f, d, t, nd, nt, L, dist, same, sit, two, npd, npi, pd, pi, change, e1, p):
        say = self.say
        new = t == 9 or same and not nd
        for nm, n0, ps in (("nnDists", npd, pd), ("nnIndices", npi, pi)):
            v = stored(s, nm)
            q = pushes(v) if v is not None else []
            if len(q) + n0 != 1:
                say("neighbour", "bad", "%s: the new point gets %d entries in %s" % (sit, len(q) + n0, nm))
                return False
            x = e3.val(q[0]) if q else self.val(e1, p, ps[0], L, t)
            want = {"nnDists": -1.0 if new else dist if two else NEAR, "nnIndices": -1 if new else I_ if two else NEW}[nm]
            if x is None:
                say("neighbour", "und", "%s: the new point gets %s" % (sit, show((q or ps)[0])[:80]))
                return False
            if x != want:
                say("neighbour", "bad", "%s: the new point gets %s in %s instead of %s" % (sit, x, nm, want))
                return False
        A, Nn = stored(s, "avgNNDistPartitions"), stored(s, "numPointsPartn")
        if A is None or Nn is None:
            say("average", "bad" if new else "und", "averages or counts do not change")
            return False
        exp = {}
        if new:
            exp[t] = (-1.0, 1)
        elif two:
            exp[t] = (dist, 2)
        elif same:
            exp[t] = (((nd + 1) * AD - NDEL + NEAR + (change if L == t else 0)) / (nd + 1), nd + 1)
        elif t == 2:
            exp[t] = ((nt * AT + NEAR + (change if L == t else 0)) / (nt + 1), nt + 1)
        if not same:
            if nd == 1 and L == d:
                exp[d] = (-1.0, 1)
            elif nd > 1:
                exp[d] = (((nd + 1) * AD - NDEL + (change if L == d else 0)) / nd, nd)
            elif nd == 0:
                if e3.member(A, d):
                    say("average", "bad", "a partition that lost its last point gets an average")
                    return False
        exp[3] = (1.0, 5)
        for k, (a, n) in exp.items():
            x, y = e3.elem(A, k), e3.elem(Nn, k)
            if x is None or y is None:
                say("average", "und", "%s: %s" % (sit, show(A if x is None else Nn)[:100]))
                return False
            who = "the new point's partition" if k == t else "the partition that lost a point" if k == d else "a third partition"
            if abs(x - a) > 1e-9:
                say("average", "bad", "%s: the average of %s becomes %s instead of %s" % (sit, who, round(x, 6), round(a, 6)))
                return False
            if y != n:
                say("average", "bad", "%s: %s counts %s points instead of %d" % (sit, who, y, n))
                return False
        return True

    # ---- values that may be the nearest of the remaining members

    def nearest(self, e, p, t, L, tgt):
        """a copy of e that knows the minima in t over the members of the partition, or None / False"""
        e = Env(e.f, e.env)
        self.why = None
        for x in sorted(subterms(t), key=lambda x: x.uid):
            if x.op != "at" or x.a[1].op not in ("f:min_element", "f:max_element"):
                continue
            m = x.a[1]
            if m.op == "f:max_element":
                self.why = "the farthest member is taken"
                return False
            dc, ic = m.a[0], x.a[0]
            b, ops = base(dc)
            extra = [o[1] for o in ops if o[0] == "push"]
            b2, ops2 = base(ic)
            extra2 = [o[1] for o in ops2 if o[0] == "push"]
            q = next((q for q, c2 in recs([p]) if b.op == "lo" and q.lid == b.a[0]), None)
            if q is None or b2.op != "lo" or b2.a[0] != b.a[0] or len(extra) > 1 or len(extra2) > 1:
                if b.op == "empty" and not extra:
                    self.why = "the nearest of no points is taken"
                else:
                    self.why = "nearest of %s" % show(dc)[:80]
                return None
            okm = self.members(q, b.a[1], b2.a[1] if ic is not dc else None, e, L)
            if okm is not True:
                return okm
            xs = [(self.other, NEW)]
            if extra:
                y = e.val(extra[0])
                if y is None:
                    self.why = "nearest of %s" % show(dc)[:80]
                    return None
                pos = e.val(extra2[0]) if extra2 and ic is not dc else W_ - 1
                xs.append((y, pos))
            best = min(xs)
            if ic is dc:
                e.env[x] = best[0]
            else:
                if bool(extra) != bool(extra2):
                    self.why = "distances and positions of the members differ in number"
                    return False
                e.env[x] = best[1]
        return e

    def read(self, p, e, c, k, L, tgt):
        b, ops = base(c)
        for o in reversed(ops):
            if o[0] == "upd" and e.val(o[1]) == k:
                return self.val(e, p, o[2], L, tgt)
        self.why = None
        return e.elem(c, k)

    def val(self, e, p, t, L, tgt):
        e2 = self.nearest(e, p, t, L, tgt)
        if not e2:
            return e2
        for m in subterms(t):       # the number of the smallest of two members, the other one first
            if m.op == "f:min_element" and m not in e2.env:
                b, ops = base(m.a[0])
                q = next((q for q, c2 in recs([p]) if b.op == "lo" and q.lid == b.a[0]), None)
                xs = [e2.val(o[1]) for o in ops if o[0] == "push"]
                if q is not None and len(xs) == len(ops) and None not in xs and self.members(q, b.a[1], None, e2, L) is True:
                    xs = [self.other] + xs
                    e2.env[m] = xs.index(min(xs))
        v = e2.val(t)
        return v

    def elem(self, e, p, c, k, L, tgt):
        e2 = self.nearest(e, p, c, L, tgt)
        return e2.elem(c, k) if e2 else None

    def members(self, q, hd, hi, e, L):
        key = (q.lid, hd, hi, L, tuple(sorted((x.uid, v) for x, v in e.env.items() if not isinstance(v, dict) and x.op == "lv")))
        memo = self.__dict__.setdefault("memo", {})
        if (q.lid, hd, hi, L, e.f["labelToBeDeleted"], e.f["targetPartition"]) in memo:
            r, self.why = memo[(q.lid, hd, hi, L, e.f["labelToBeDeleted"], e.f["targetPartition"])]
            return r
        r = self.members_(q, hd, hi, e, L)
        memo[(q.lid, hd, hi, L, e.f["labelToBeDeleted"], e.f["targetPartition"])] = (r, self.why)
        return r

    def members_(self, q, hd, hi, e, L):
        self.why = None
        jv, why = None, None
        # number of points looked at, by value
        for x in q.ivs:
            g = irange(q, x)
            if g is None or not g.known or g.lo is None or g.hi is None or g.step is None or g.extra:
                continue
            a, b = e.val(g.lo), e.val(g.hi)
            if a is None or b is None:
                continue
            if (a, b) == (0, W_ - 1) and g.step in (1, -1):
                jv = x
            else:
                why = "members number %s to %s of %d are looked at" % (a, b - 1, W_ - 1)
        if jv is None or early(q):
            self.why = "not every member is looked at: %s" % (why or "the loop may stop early" if jv is not None else why or "range not recognised")
            return False if why or jv is not None else None
        for h in (hd, hi):
            if h is not None and (h not in q.init or q.init[h].op != "empty"):
                self.why = "members of earlier points are kept"
                return False if h in q.init and q.init[h].op in ("lv", "lo") else None
        for j in (I_ - 1, I_, I_ + 1, I_ + 4):
            for lab in (L, 7):
                if j == I_ and lab != L:
                    continue
                ee = Env(dict(e.f), e.env)
                ee.f["partitionLabels"] = {I_: L, j: lab, "else": 8}
                ee.env[jv] = j
                met = False
                for k, p in q.paths:
                    ok, rest = ee.holds({a: b for a, b in p.atoms.items() if a not in q.entry})
                    if not ok:
                        continue
                    if rest:
                        self.why = "depends on %s" % txt(rest)[:100]
                        return None
                    met = True
                    pd = pushes(p.store.get(hd, lv(q, hd)))
                    pi = pushes(p.store.get(hi, lv(q, hi))) if hi is not None else None
                    want = 1 if lab == L and j != I_ else 0
                    if len(pd) != want or pi is not None and len(pi) != want:
                        self.why = "itself counts as a member" if j == I_ else "a point of another partition counts as a member" if lab != L else "a member %s it is left out" % ("before" if j < I_ else "behind")
                        return False
                    if not want:
                        continue
                    c = self.cell(pd[0], ee)
                    if c is None:
                        self.why = "distance %s" % show(pd[0])[:80]
                        return None
                    if c != (min(I_, j), max(I_, j)):
                        self.why = "the distance of %d and %d is read at %s" % (I_, j, c)
                        return False
                    if pi:
                        x = ee.val(pi[0])
                        if x is None or x != j:
                            self.why = "position %s" % show(pi[0])[:60]
                            return None if x is None else False
                if not met:
                    self.why = "situation not met"
                    return None
        return True

    def cell(self, t, e):
        if t.op != "at":
            return None
        row, c = t.a[0], e.val(t.a[1])
        if row.op == "push":
            row = row.a[0]
        if row.op != "at" or last(base(row.a[0])[0]) != "distMatrix":
            return None
        r = e.val(row.a[1])
        return None if r is None or c is None else (r, c)


def fld(sts, name):
    for s in sts:
        for a in s.atoms:
            for x in subterms(a):
                if x.op == "init" and last(x) == name:
                    return x.a[0]
        for pl, v in s.store.items():
            if isinstance(v, T):
                for x in subterms(v):
                    if x.op == "init" and last(x) == name:
                        return x.a[0]
    return None
