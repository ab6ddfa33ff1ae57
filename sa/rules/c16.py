"""C16 neighbour search and density clustering: a kd-tree query returns exactly the points within the radius, and DBSCAN labels follow the density rule."""
from ..common import *
from ..loops import *
from ..trees import noepoch
from ..cases import value, holds, grid
from .c09 import w
from .c12 import par
from .c13 import recs, lv
from .c14 import states, isdist, full, counter, txt, flat as flat3

TITLE = "kd-tree neighbours and DBSCAN"
OPQ = {"vectors_distance", "writeDebug", "writeLog"}


def run(prog, ck):
    fs = sorted((f for f in prog.functions.values() if f.get("cls") in ("kdTree", "kdNode", "dbscan") or f["name"].startswith(("kdTree::", "kdNode::", "dbscan::"))), key=lambda f: f["key"])
    K = Tree()
    for fn in fs:
        n = fn["name"]
        if n == "kdTree::makeTree":
            build(prog, ck, fn, K)
        elif n == "kdNode::kdNode" and len(fn["params"]) == 3:
            node(prog, ck, fn)
    for fn in fs:
        n, np = fn["name"], len(fn["params"])
        if n == "kdTree::kdTree" and np == 2:
            index(prog, ck, fn)
        elif n == "kdTree::neighborhood" and np == 4:
            within(prog, ck, fn, K)
        elif n == "kdTree::neighborhood" and np == 2:
            entry(prog, ck, fn)
        elif n in ("kdTree::neighborhoodPoints", "kdTree::neighborhoodIndices"):
            convert(prog, ck, fn)
        elif n == "kdTree::findNearest":
            nearest(prog, ck, fn, K)
        elif n == "kdTree::nearest":
            nentry(prog, ck, fn)
        elif n == "dbscan::cluster":
            cluster(prog, ck, fn)
        elif n == "dbscan::expandCluster":
            expand(prog, ck, fn)
    ck.expect("split", 1)
    ck.expect("stored", 1)
    ck.expect("indexed", 1)
    ck.expect("within the radius", 2)
    ck.expect("converted", 2)
    ck.expect("nearest", 1)
    ck.expect("labelled", 1)
    ck.expect("expanded", 1)


class Tree:
    low, high, step = "left", "right", None        # child holding the smaller coordinates, and the level step of the build


def flat(s):
    return [e for k, e, l in flat3(s)]


def opaque(*names):
    return OPQ | set(names)


def fieldof(t, obj):
    """field name when t is a field of what the pointer obj refers to"""
    t = noepoch(t)
    if t.op == "init" and t.a[0].op == "L.fld":
        b = t.a[0].a[0]
        if b.op == "L.deref" and noepoch(b.a[0]) is noepoch(obj):
            return t.a[0].a[1]
    return None


def next_level(t, level):
    """c when t is (level + c) % dimension; 'bare' when the remainder is missing"""
    t = noepoch(t)
    if t.op == "%" and t.a[1].op == "size":
        d = diff(t.a[0], level)
        return d
    if t.op == "%" and isconst(t.a[1]) and diff(t.a[0], level) is not None:
        return "bare"
    if diff(t, level) is not None:
        return "bare"
    return None


# ---------------------------------------------------------------- building

def order_of(prog, cmp_, args, level):
    """'asc'/'desc'/'other'/None: how a comparator orders two indexed points by the coordinate `level`"""
    alts = None
    if cmp_ is None:
        return "other"
    if cmp_.op == "lam" and len(cmp_.a) == 3:
        a, b, body = cmp_.a
        alts = [({}, body)]
        A, B = a, b
        lev = level
    else:
        b_ = [x for x in args]
        f = next((prog.functions.get(x.a[0]) for x in b_ if x.op == "fn"), None)
        if f is None or len(f["params"]) not in (2, 3):
            return None
        try:
            sts = Engine(prog).run(f)
        except (PathLimit, Undecided):
            return None
        A, B = par(f, 0), par(f, 1)
        lev = par(f, 2) if len(f["params"]) == 3 else None
        if lev is not None:
            ph = [x for x in b_ if "_1" in show(x) or "_2" in show(x)]
            rest = b_[b_.index(next(x for x in b_ if x.op == "fn")) + 1:]
            if len(rest) == 3 and "_1" in show(rest[1]) and "_2" in show(rest[0]):
                A, B = B, A
            elif not (len(rest) == 3 and "_1" in show(rest[0]) and "_2" in show(rest[1])):
                return None
            if noepoch(rest[2]) is not noepoch(level):
                return "other" if isconst(rest[2]) or diff(rest[2], level) or next_level(rest[2], level) else None
        alts = [(s.atoms, s.ret) for s in sts if s.status == "ret"]

    def coord(t, X):
        if t.op != "at":
            return None
        c = t.a[0]
        if c.op == "fld" and c.a[1] == "first" and c.a[0] is X:
            return t.a[1]
        if c.op == "init" and c.a[0].op == "L.fld" and c.a[0].a[1] == "first" and X.op == "init" and c.a[0].a[0] is X.a[0]:
            return t.a[1]
        return None
    ka = kb = None
    seen = set()
    for at_, r in alts:
        for t in list(at_) + [r]:
            for x in subterms(t):
                for X, nm in ((A, "a"), (B, "b")):
                    i = coord(x, X)
                    if i is not None:
                        seen.add((nm, noepoch(i)))
                        if nm == "a":
                            ka = x
                        else:
                            kb = x
    if ka is None or kb is None:
        return "other" if alts and not seen else None
    if len({i for n, i in seen}) != 1:
        return None
    i = seen.pop()[1]
    if lev is not None and i is not noepoch(lev):
        return "other" if isconst(i) or diff(i, lev) else None
    got = {}
    for x, y in ((0, 1), (1, 0)):
        env = {ka: x, kb: y}
        rs = set()
        for at_, r in alts:
            okk, _ = holds(at_, env)
            if okk:
                v = value(r, env)
                if v is None:
                    return None
                rs.add(bool(v))
        if len(rs) != 1:
            return None
        got[x] = rs.pop()
    eqs = [value(r, {ka: 0, kb: 0}) for at_, r in alts if holds(at_, {ka: 0, kb: 0})[0]]
    if eqs and all(eqs):
        return "other"
    if got[0] and not got[1]:
        return "asc"
    if got[1] and not got[0]:
        return "desc"
    return "other"


def build(prog, ck, fn, K):
    W, inst = w(fn), fn["short"]
    sts = states(prog, ck, fn, "split", opaque(fn["short"]))
    if sts is None:
        return
    begin, end, length, level = (par(fn, i) for i in range(4))
    B = {}
    for s in sts:
        r = s.ret
        if r.op != "new":
            ck.und("split", inst, "result %s not recognised" % show(r)[:80], W)
            return
        args = [x for x in r.a if isinstance(x, T)]
        evs = flat(s)
        sorts = [(n, e) for n, e in enumerate(evs) if e.k == "rsort"]
        calls = [(n, e) for n, e in enumerate(evs) if e.k == "call" and e.d["name"] == fn["name"]]
        nonempty = [b for a, b in s.atoms.items() if a.op == "==" and {noepoch(x) for x in a.a} == {begin, end}]
        mid = next((noepoch(a) for a in args if noepoch(a).op == "init" and noepoch(a).a[0].op == "L.deref"), None)
        if mid is None:
            if not calls and (True in nonempty or not args[1:]):
                if False in nonempty:
                    ck.bad("split", inst, "a non-empty range becomes an empty node, so its points are lost", W)
                    return
                continue
            ck.und("split", inst, "node %s not recognised" % show(r)[:80], W)
            return
        m = mid.a[0].a[0]
        moff = diff(m, begin)
        children = args[args.index(next(a for a in args if noepoch(a) is mid)) + 1:]
        if len(children) < 2:
            ck.und("split", inst, "children not recognised", W)
            return
        one = [b for a, b in s.atoms.items() if a.op == "<" and value(a, {length: 1}) is not None and value(a, {length: 1}) != value(a, {length: 2})]
        multi = {value(a, {length: 2}) == b for a, b in s.atoms.items() if value(a, {length: 2}) is not None}
        possible = False not in multi
        if not sorts:
            if possible:
                ck.bad("split", inst, "a range of two or more points is split without being ordered first", W)
                return
        else:
            n, e = sorts[-1]
            a = e.d["args"]
            if e.d["how"] not in ("sort", "stable_sort"):
                ck.und("split", inst, "ordered with std::%s" % e.d["how"], W)
                return
            if noepoch(a[0]) is not begin or noepoch(a[1]) is not end:
                ds = [diff(a[0], begin), diff(a[1], end)]
                if not contains(a[1], lambda x: x is end):
                    ns = [(value(unlin(addl(lin(noepoch(a[1])), lin(begin), -1)), {length: L}), L) for L in (2, 3, 4)]
                    if all(x == L for x, L in ns) and ds[0] == 0:
                        ds = None
                    elif all(x is not None for x, L in ns):
                        ds[1] = 1
            else:
                ds = None
            if ds is not None:
                (ck.bad if any(ds) else ck.und)("split", inst, "only %s..%s is ordered, not the whole range" % (show(a[0]), show(a[1])), W)
                return
            if any(c < n for c, _ in calls):
                ck.bad("split", inst, "the range is ordered again after a branch was built from it", W)
                return
            binds = [x for q in evs[:n] if q.k == "call" and q.d["name"] == "std::bind" and len(a) > 2 and q.d["res"] is a[2] for x in q.d["args"]]
            o = order_of(prog, a[2] if len(a) > 2 else None, binds or ([a[2]] if len(a) > 2 else []), level)
            if o in (None,):
                ck.und("split", inst, "ordering not recognised", W)
                return
            if o == "other":
                ck.bad("split", inst, "the points are not ordered by the coordinate of this level", W)
                return
            B["order"] = o if B.get("order", o) == o else "mixed"
        # the halves, for small ranges
        say = pieces(s, begin, end, length, m, children, calls)
        if say:
            ck.bad("split", inst, say, W)
            return
        halves = {}
        for i, nm in ((0, "left"), (1, "right")):
            c = children[i]
            cc = next((e for _, e in calls if e.d["res"] is c), None)
            if cc is None:
                if c.op == "new":
                    halves[nm] = None
                    continue
                ck.und("split", inst, "%s branch %s not recognised" % (nm, show(c)[:60]), W)
                return
            a = [noepoch(x) for x in cc.d["args"]]
            st = next_level(a[3], level)
            if st is None:
                ck.und("split", inst, "level %s of the %s branch" % (show(a[3]), nm), W)
                return
            B.setdefault("step", set()).add(st)
            half = None
            if a[0] is begin and diff(a[1], m) is not None:
                half, off = "low", diff(a[1], m)
                want = sub(m, begin)
            elif diff(a[0], m) is not None and a[1] is end:
                half, off = "high", diff(a[0], m) - 1
                want = None
            else:
                ck.und("split", inst, "range %s..%s of the %s branch" % (show(a[0]), show(a[1]), nm), W)
                return
            if off:
                ck.bad("split", inst, "the branches leave out or repeat a point: the %s one covers %s..%s, the node is %s" % (nm, show(a[0]), show(a[1]), show(m)), W)
                return
            ml = lin(sub(m, begin))
            exp = sub(m, begin) if half == "low" else sub(sub(length, sub(m, begin)), INT(1))
            d = diff(a[2], exp)
            if d is None:
                for L in range(1, 8):
                    env = {length: L}
                    if holds({x: y for x, y in s.atoms.items() if contains(x, lambda z: z is length)}, env)[0]:
                        x, y = value(a[2], env), value(unlin(lin(exp)), env)
                        if x is not None and y is not None and x != y:
                            d = x - y
                            break
            if d is None:
                ck.und("split", inst, "length %s passed for the %s branch" % (show(a[2]), nm), W)
                return
            if d:
                ck.bad("split", inst, "the %s branch is built with length %s for %s points" % (nm, show(a[2]), show(exp)), W)
                return
            halves[nm] = half
        if None not in halves.values() and len(set(halves.values())) != 2:
            ck.bad("split", inst, "both branches hold the same half", W)
            return
        for nm, h in halves.items():
            if h is not None:
                o = B.setdefault(nm, h)
                if o != h:
                    ck.und("split", inst, "branches not always the same half", W)
                    return
        if list(halves.values()).count(None):
            # an omitted branch must be empty (or the points have no coordinates)
            dim0 = any(not b and a.op == "nz" and a.a[0].op == "size" for a, b in s.atoms.items())
            if dim0:
                continue
            miss = [nm for nm, h in halves.items() if h is None]
            q = None
            for L in range(1, 7):
                env = {length: L}
                okk, rest = holds({a: b for a, b in s.atoms.items() if contains(a, lambda x: x is length)}, env)
                if not okk:
                    continue
                lo = value(unlin(addl(lin(m), lin(begin), -1)), env)
                if lo is None:
                    q = "und"
                    continue
                for nm in miss:
                    which = B.get(nm) or ("low" if nm == "left" else "high")
                    cnt = lo if which == "low" else L - lo - 1
                    if cnt > 0:
                        ck.bad("split", inst, "with %d points the %s branch is left empty although %d point(s) belong there" % (L, nm, cnt), W)
                        return
            if q:
                ck.und("split", inst, "when a branch is left out is not recognised", W)
                return
    steps = B.get("step", set())
    if not steps or "order" not in B or B["order"] == "mixed":
        ck.und("split", inst, "ordering or levels not recognised", W)
        return
    if "bare" in steps:
        ck.bad("split", inst, "the level of a branch may exceed the dimension", W)
        return
    if len(steps) != 1:
        ck.bad("split", inst, "the two branches are split on different coordinates", W)
        return
    K.step = steps.pop()
    first = {v: k for k, v in B.items() if k in ("left", "right")}
    lo, hi = first.get("low", "left"), first.get("high", "right")
    K.low, K.high = (lo, hi) if B["order"] == "asc" else (hi, lo)
    ck.ok("split", inst, "the middle point of the ordered range, both halves and nothing else below it", W)


def pieces(s, begin, end, length, m, children, calls):
    """what goes wrong when a range of L points becomes a node and two branches; None when nothing is known to"""
    rel = {noepoch(a): b for a, b in s.atoms.items() if not (a.op == "nz" and a.a[0].op == "size")}
    for L in range(1, 9):
        env = {begin: 0, end: L, length: L}
        okk, rest = holds(rel, env)
        if not okk or rest:
            continue
        p = value(m, env)
        if p is None:
            return None
        if not 0 <= p < L:
            return "of %d points, number %d becomes the node" % (L, p)
        got = [p]
        for c in children[:2]:
            cc = next((e for _, e in calls if e.d["res"] is c), None)
            if cc is None:
                if c.op != "new":
                    return None
                continue
            v = [value(noepoch(x), env) for x in cc.d["args"][:3]]
            if None in v:
                return None
            if v[2] != v[1] - v[0]:
                return "of %d points, a branch over %d of them is built with length %d" % (L, v[1] - v[0], v[2])
            got += list(range(v[0], v[1]))
        if any(not b and a.op == "nz" and a.a[0].op == "size" for a, b in s.atoms.items()):
            continue
        if sorted(got) != list(range(L)):
            return "of %d points, the node and its branches hold number %s" % (L, ", ".join(map(str, sorted(got))))
    return None


def node(prog, ck, fn):
    W = w(fn)
    inst = "kdNode(" + ",".join(p["n"] for p in fn["params"]) + ")"
    sts = states(prog, ck, fn, "stored", opaque())
    if sts is None:
        return
    ps = [par(fn, i) for i in range(3)]
    want = {"x": "first", "index": "second"}
    for s in sts:
        for f in ("x", "index", "left", "right"):
            v = next((x for p, x in s.store.items() if p.op == "L.fld" and p.a[1] == f and p.a[0].op in ("this", "L.deref")), None)
            if v is None:
                ck.bad("stored", inst, "the node's %s is never set" % f, W)
                return
            v = noepoch(v)
            if f in want:
                t = show(v)
                ok = v is getf(ps[0], want[f]) or v.op == "init" and v.a[0].op == "L.fld" and v.a[0].a[1] == want[f] and fn["params"][0]["n"] in t
                bad = v.op == "init" and v.a[0].op == "L.fld" and not ok or isconst(v)
            else:
                i = 1 if f == "left" else 2
                ok = v is ps[i]
                bad = v is ps[3 - i] or v.op in ("null", "empty")
            if ok:
                continue
            (ck.bad if bad else ck.und)("stored", inst, "the node's %s is %s" % (f, show(v)), W)
            return
    ck.ok("stored", inst, "point, index and both branches", W)


def index(prog, ck, fn):
    W, inst = w(fn), "kdTree"
    sts = states(prog, ck, fn, "indexed", opaque("makeTree"))
    if sts is None:
        return
    data, num = par(fn, 0), par(fn, 1)
    n = 0
    for s in sts:
        calls = [e for e in flat(s) if e.k == "call" and e.d["name"] == "kdTree::makeTree"]
        root = next((x for p, x in s.store.items() if p.op == "L.fld" and p.a[1] == "root"), None)
        if len(calls) != 1 or root is None:
            ck.und("indexed", inst, "%d trees built" % len(calls), W)
            return
        if root is not calls[0].d["res"]:
            ck.und("indexed", inst, "the root is %s" % show(root)[:80], W)
            return
        a = calls[0].d["args"]
        if not (a[0].op == "iter" and a[1].op == "iter" and a[0].a[0] is a[1].a[0]):
            ck.und("indexed", inst, "range passed to the build not recognised", W)
            return
        if cval(a[0].a[1]) != 0 or a[1].a[1].op != "end":
            ck.bad("indexed", inst, "the tree is built from %s..%s instead of all points" % (show(a[0]), show(a[1])), W)
            return
        if cval(a[3]) is not None and cval(a[3]) != 0:
            ck.bad("indexed", inst, "the build starts at level %s, a query at level 0" % show(a[3]), W)
            return
        zero = [b for t, b in s.atoms.items() if t.op == "nz" and t.a[0] is num] + [not b for t, b in s.atoms.items() if t is eq(num, INT(0))]
        if not zero:
            if any(contains(t, lambda x: x is num) for t in s.atoms):
                ck.und("indexed", inst, "handling of the number of points not recognised", W)
                return
        all_ = zero and not zero[0]
        want = size(data) if all_ else num
        for r, ctx in recs([s]):
            h = next((h for h in r.H if h is a[0].a[0]), None)
            if h is None:
                continue
            n += 1
            if r.init.get(h) is None or r.init[h].op != "empty":
                ck.und("indexed", inst, "points added to %s" % show(r.init.get(h))[:60], W)
                return
            okk, iv, why = None, None, ""
            for v in r.ivs:
                x, y = verdict(r, v, INT(0), want)
                if x:
                    iv = v
                    break
                if x is False:
                    okk, why = False, y
            if iv is None and want is num and any(verdict(r, v, INT(0), size(data))[0] for v in r.ivs):
                okk, why = False, "all points are put into it"
            if iv is None:
                (ck.bad if okk is False else ck.und)("indexed", inst, "not every one of the %s points is put into the tree: %s" % (show(want), why or "range not recognised"), W)
                return
            for k, p in r.paths:
                if k != "end":
                    ck.und("indexed", inst, "the loop may stop early", W)
                    return
                v = p.store.get(h, lv(r, h))
                if v is lv(r, h):
                    g = [(x, b) for x, b in p.atoms.items() if contains(x, lambda z: z is iv) and not any(x in alt for alt in r.hdr)]
                    ck.bad("indexed", inst, "a point is left out of the tree when %s" % txt(g), W)
                    return
                e = v.a[1] if v.op == "push" and v.a[0] is lv(r, h) else None
                if e is None or e.op != "pair":
                    ck.und("indexed", inst, "entry %s not recognised" % show(v)[:80], W)
                    return
                if e.a[0] is not at(data, iv) or e.a[1] is not iv:
                    d = diff(e.a[1], iv)
                    (ck.bad if d or e.a[0].op == "at" and e.a[0].a[0] is data and diff(e.a[0].a[1], iv) else ck.und)("indexed", inst, "the tree stores %s under the index %s" % (show(e.a[0]), show(e.a[1])), W)
                    return
    if n:
        ck.ok("indexed", inst, "each of the first points under its own index, build and query start at the same level", W)
    else:
        ck.und("indexed", inst, "loop filling the tree not recognised", W)


# ---------------------------------------------------------------- searching

class Search:
    """one recursive search function: its paths and the terms its conditions speak about"""
    def __init__(self, prog, ck, fn, rule, branch, pt, level):
        self.ok = False
        self.fn, self.W = fn, w(fn)
        self.sts = states(prog, ck, fn, rule, opaque(fn["short"]))
        if self.sts is None:
            return
        self.branch, self.pt, self.level = branch, pt, level
        self.bx = self.px = self.d = None
        self.wrong = None
        for s in self.sts:
            for a in s.atoms:
                for x in subterms(a):
                    if x.op == "at" and fieldof(x.a[0], branch) == "x":
                        if noepoch(x.a[1]) is level:
                            self.bx = noepoch(x)
                        else:
                            self.wrong = x
                    if x.op == "at" and noepoch(x.a[0]) is pt:
                        if noepoch(x.a[1]) is level:
                            self.px = noepoch(x)
                        else:
                            self.wrong = x
                    q = isdist(x)
                    if q and {fieldof(y, branch) == "x" for y in q} == {True, False} and any(noepoch(y) is pt for y in q):
                        self.d = noepoch(x)
        self.ok = True

    def empty(self, s):
        """True/False/None: the path is taken for an empty branch"""
        for a, b in s.atoms.items():
            if a.op == "nz" and a.a[0].op == "size" and fieldof(a.a[0].a[0], self.branch) == "x":
                return not b
            if a.op == "==" and any(x.op == "null" for x in a.a) and any(noepoch(x) is self.branch for x in a.a):
                if b:
                    return True
        return None

    def calls(self, s):
        return [e for e in flat(s) if e.k == "call" and e.d["name"] == self.fn["name"] and len(e.d["args"]) == len(self.fn["params"])]


def within(prog, ck, fn, K):
    W, inst, R = w(fn), fn["short"], "within the radius"
    branch, pt, rad, level = (par(fn, i) for i in range(4))
    S = Search(prog, ck, fn, R, branch, pt, level)
    if not S.ok:
        return
    leaf = False
    for s in S.sts:
        e = S.empty(s)
        calls = S.calls(s)
        if e:
            leaf = True
            if s.ret.op != "empty":
                ck.bad(R, inst, "an empty branch yields %s" % show(s.ret)[:80], W)
                return
            continue
        if e is None and not calls and s.ret.op == "empty":
            g = [(a, b) for a, b in s.atoms.items()]
            ck.und(R, inst, "nothing is returned when %s" % txt(g)[:200], W)
            return
        # what is returned
        v, parts = s.ret, []
        for _ in range(8):
            if v.op == "empty":
                break
            if v.op == "push":
                parts.append(("point", v.a[1]))
                v = v.a[0]
            elif v.op in ("app", "cat") and len(v.a) == 2 and v.a[1].op == "empty":
                v = v.a[0]
            elif v.op in ("app", "cat") and len(v.a) == 2 and any(c.d["res"] is v.a[1] for c in calls):
                parts.append(("all", v.a[1]))
                v = v.a[0]
            elif any(c.d["res"] is v for c in calls):
                parts.append(("all", v))
                break
            elif v.op == "app" and len(v.a) == 2:
                parts.append(("point", v.a[1]))
                v = v.a[0]
            else:
                ck.und(R, inst, "result %s not recognised" % show(v)[:100], W)
                return
        own = 0
        for k, x in parts:
            if k == "point":
                x = noepoch(x)
                fs = [fieldof(y, branch) for y in x.a if isinstance(y, T)] if x.op in ("pair", "ctor", "struct") else []
                fs = [f for f in fs if f]
                if x.op == "pair" and fs == ["x", "index"]:
                    own += 1
                else:
                    ck.und(R, inst, "a branch contributes %s" % show(x)[:80], W)
                    return
        seen = {}
        for c in calls:
            a = c.d["args"]
            f = fieldof(a[0], branch)
            if f not in ("left", "right"):
                ck.und(R, inst, "search of %s" % show(a[0])[:60], W)
                return
            if noepoch(a[1]) is not pt:
                ck.und(R, inst, "a branch is searched for %s" % show(a[1])[:60], W)
                return
            if noepoch(a[2]) is not rad:
                x = noepoch(a[2])
                (ck.bad if differs(x, rad, {S.bx: 0, S.px: 1, S.d: 2}) else ck.und)(R, inst, "a branch is searched with radius %s" % show(a[2])[:80], W)
                return
            st = next_level(a[3], level)
            if st is None:
                ck.und(R, inst, "a branch is searched at level %s" % show(a[3])[:80], W)
                return
            if st == "bare" or K.step is not None and st != K.step:
                ck.bad(R, inst, "the %s branch is searched at level %s, it was split %s" % (f, show(a[3]), "on the next coordinate" if K.step == 1 else "%s levels on" % K.step), W)
                return
            if not any(k == "all" and x is c.d["res"] for k, x in parts):
                ck.bad(R, inst, "the points found in the %s branch are not returned" % f, W)
                return
            if f in seen:
                ck.bad(R, inst, "the %s branch is searched twice" % f, W)
                return
            seen[f] = c
        if own > 1:
            ck.bad(R, inst, "the point of a branch is returned twice", W)
            return
        skip = [f for f in ("left", "right") if f not in seen]
        rel = {noepoch(a): b for a, b in s.atoms.items() if not (a.op == "nz" and fieldof(a.a[0].a[0] if a.a[0].op == "size" else a.a[0], branch) == "x")}
        for g in grid(px=range(-3, 4), rad=range(0, 4), up=(0, 1, 2)):
            env = {rad: g["rad"]}
            if S.bx is not None:
                env[S.bx] = 0
            if S.px is not None:
                env[S.px] = g["px"]
            dd = abs(g["px"]) + g["up"]
            if S.d is not None:
                env[S.d] = dd
            okk, rest = holds(rel, env)
            if not okk:
                continue
            say = None
            if (own == 1) != (dd <= g["rad"]):
                say = "the point of a branch at distance %d is %s for radius %d" % (dd, "returned" if own else "left out", g["rad"])
            for f in skip:
                dx = -g["px"]
                fine = dx < -g["rad"] if f == K.low else dx > g["rad"]
                if not fine:
                    say = "the %s branch is not searched although the split is at offset %d and the radius is %d" % (f, dx, g["rad"])
            if say is None:
                continue
            if rest:
                t = txt(rest)
                if S.wrong is not None and any(contains(a, lambda x: x is S.wrong) for a, b in rest):
                    ck.bad(R, inst, "a branch is left out by comparing %s, not the coordinate the tree was split on" % show(S.wrong), W)
                else:
                    ck.und(R, inst, "%s, depending on %s" % (say, t[:150]), W)
                return
            ck.bad(R, inst, say, W)
            return
    if not leaf:
        ck.und(R, inst, "the empty branch is not recognised", W)
        return
    ck.ok(R, inst, "a point is returned iff it lies within the radius; a branch is left out only when the split lies farther away", W)


def entry(prog, ck, fn):
    W, inst, R = w(fn), "neighborhood(query)", "within the radius"
    sts = states(prog, ck, fn, R, opaque(fn["short"]))
    if sts is None:
        return
    pt, rad = par(fn, 0), par(fn, 1)
    for s in sts:
        calls = [e for e in flat(s) if e.k == "call" and e.d["name"] == "kdTree::neighborhood"]
        c = next((e for e in calls if e.d["res"] is s.ret), None)
        if c is None or len(c.d["args"]) != 4:
            ck.und(R, inst, "result %s" % show(s.ret)[:80], W)
            return
        a = c.d["args"]
        if not ("root" in show(a[0]) and a[0].op == "init"):
            ck.und(R, inst, "search starts at %s" % show(a[0]), W)
            return
        if a[1] is not pt or a[2] is not rad:
            x = a[2]
            (ck.bad if a[1] is pt and (diff(x, rad) or isconst(x)) else ck.und)(R, inst, "query (%s, %s) is searched as (%s, %s)" % (show(pt), show(rad), show(a[1]), show(a[2])), W)
            return
        if cval(a[3]) != 0:
            (ck.bad if cval(a[3]) is not None else ck.und)(R, inst, "the search starts at level %s, the tree at level 0" % show(a[3]), W)
            return
    ck.ok(R, inst, "from the root, at level 0", W)


def convert(prog, ck, fn):
    W, inst, R = w(fn), fn["short"], "converted"
    f = "first" if "Points" in fn["short"] else "second"
    sts = states(prog, ck, fn, R, opaque("neighborhood"))
    if sts is None:
        return
    for s in sts:
        calls = [e for e in flat(s) if e.k == "call" and e.d["name"] == "kdTree::neighborhood"]
        if len(calls) != 1:
            ck.und(R, inst, "%d searches" % len(calls), W)
            return
        c = calls[0]
        if [noepoch(x) for x in c.d["args"][:2]] != [par(fn, 0), par(fn, 1)]:
            ck.und(R, inst, "searched for %s" % ", ".join(show(x) for x in c.d["args"]), W)
            return
        N, v = c.d["res"], s.ret
        if v.op == "map":
            n, b, body = v.a
            if n is size(N) and body is getf(at(N, b), f):
                continue
            if body is getf(at(N, b), f):
                (ck.bad if diff(n, size(N)) or isconst(n) else ck.und)(R, inst, "%s of the points found are returned" % show(n), W)
                return
            ck.und(R, inst, "each result is %s" % show(body)[:80], W)
            return
        if v.op == "lo":
            r = next((r for r, _ in recs([s]) if r.lid == v.a[0]), None)
            if r is None or v.a[1] not in r.init or r.init[v.a[1]].op != "empty":
                ck.und(R, inst, "loop not recognised", W)
                return
            iv = full(ck, R, inst, r, (N,), "point found", W)
            if iv is None:
                return
            h = v.a[1]
            for k, p in r.paths:
                x = p.store.get(h, lv(r, h))
                if x is lv(r, h):
                    g = [(a, b) for a, b in p.atoms.items() if contains(a, lambda z: z is iv) and not any(a in alt for alt in r.hdr)]
                    ck.bad(R, inst, "a point found is dropped when %s" % txt(g), W)
                    return
                if not (x.op == "push" and x.a[0] is lv(r, h) and noepoch(x.a[1]) is noepoch(getf(at(N, iv), f))):
                    ck.und(R, inst, "each result is %s" % show(x)[:80], W)
                    return
            continue
        ck.und(R, inst, "result %s" % show(v)[:80], W)
        return
    ck.ok(R, inst, "every point found, once", W)


def nearest(prog, ck, fn, K):
    W, inst, R = w(fn), fn["short"], "nearest"
    branch, pt, level, best, bd = (par(fn, i) for i in range(5))
    S = Search(prog, ck, fn, R, branch, pt, level)
    if not S.ok:
        return
    for s in S.sts:
        e = S.empty(s)
        calls = S.calls(s)
        if e:
            if s.ret.op != "new" and noepoch(s.ret) is not best:
                ck.und(R, inst, "an empty branch yields %s" % show(s.ret)[:80], W)
                return
            continue
        cand = [(noepoch(best), "best", bd), (noepoch(branch), "own", S.d)]
        found = {}
        dl = {}
        for a in list(s.atoms) + [x for c in calls for x in c.d["args"]]:
            for x in subterms(a):
                q = isdist(x)
                if q:
                    for c in calls:
                        if any(fieldof(y, c.d["res"]) == "x" for y in q) and any(noepoch(y) is pt for y in q):
                            dl[noepoch(c.d["res"])] = noepoch(x)
                if x.op == "nz" and x.a[0].op == "size":
                    for c in calls:
                        if fieldof(x.a[0].a[0], c.d["res"]) == "x":
                            found[noepoch(c.d["res"])] = noepoch(x)
        seen = {}
        for c in calls:
            a = c.d["args"]
            f = fieldof(a[0], branch)
            if f not in ("left", "right") or noepoch(a[1]) is not pt:
                ck.und(R, inst, "search of %s for %s" % (show(a[0])[:60], show(a[1])[:60]), W)
                return
            st = next_level(a[2], level)
            if st is None:
                ck.und(R, inst, "a branch is searched at level %s" % show(a[2])[:80], W)
                return
            if st == "bare" or K.step is not None and st != K.step:
                ck.bad(R, inst, "the %s branch is searched at level %s, not the one it was split on" % (f, show(a[2])), W)
                return
            seen[f] = c
        skip = [f for f in ("left", "right") if f not in seen]
        rs = [noepoch(c.d["res"]) for c in calls]
        rel = {noepoch(a): b for a, b in s.atoms.items() if not (a.op == "nz" and a.a[0].op == "size" and fieldof(a.a[0].a[0], branch) == "x")}
        dom = dict(px=range(-3, 4), up=(0, 1, 2), bd=range(0, 5))
        for i in range(len(rs)):
            dom["l%d" % i] = range(0, 5)
            dom["f%d" % i] = (0, 1)
        if len(rs) > 2:
            ck.und(R, inst, "%d searches on one path" % len(rs), W)
            return
        for g in grid(**dom):
            env = {bd: g["bd"]}
            if S.bx is not None:
                env[S.bx] = 0
            if S.px is not None:
                env[S.px] = g["px"]
            dd = abs(g["px"]) + g["up"]
            if S.d is not None:
                env[S.d] = dd
            known = {noepoch(best): g["bd"], noepoch(branch): dd}
            good = True
            for i, r in enumerate(rs):
                if not g["f%d" % i]:
                    if g["l%d" % i]:
                        good = False
                        break
                    if r in found:
                        env[found[r]] = False
                    if not holds(rel, env)[0]:
                        good = False
                        break
                    continue
                if r in found:
                    env[found[r]] = True
                if r in dl:
                    env[dl[r]] = g["l%d" % i]
                if not holds(rel, env)[0]:
                    good = False
                    break
                lim = value(noepoch(calls[i].d["args"][4]), env)
                if lim is None:
                    ck.und(R, inst, "distance %s passed down" % show(calls[i].d["args"][4])[:80], W)
                    return
                if g["l%d" % i] > lim:
                    good = False
                    break
                known[noepoch(r)] = g["l%d" % i]
                b = noepoch(calls[i].d["args"][3])
                if b in known and known[b] != lim:
                    okk, rest = holds({a: v for a, v in rel.items()}, env)
                    if okk and not rest:
                        ck.bad(R, inst, "a branch is searched with the distance %s for a point at distance %s" % (lim, known[b]), W)
                        return
                    good = False
                    break
            if not good:
                continue
            okk, rest = holds(rel, env)
            if not okk:
                continue
            x = noepoch(s.ret)
            if x not in known:
                if any(noepoch(r) is x for r in rs):
                    ck.bad(R, inst, "an empty result of a branch is returned", W) if not rest else ck.und(R, inst, "result %s" % show(x)[:80], W)
                else:
                    ck.und(R, inst, "result %s" % show(x)[:80], W)
                return
            m = known[x]
            say = None
            if m > min(known.values()):
                say = "a point at distance %d is returned although one at distance %d was seen" % (m, min(known.values()))
            for f in skip:
                far = g["px"] if f == K.low else -g["px"]
                if far < m:
                    say = "the %s branch is not searched although the split is %d away on its side and the nearest point known is %d away" % (f, far, m)
            if say:
                (ck.und if rest else ck.bad)(R, inst, say + (", depending on " + txt(rest)[:150] if rest else ""), W)
                return
    ck.ok(R, inst, "the closest of what was known, the branch point and both sides; a side is left out only when its split lies no nearer", W)


def nentry(prog, ck, fn):
    W, inst, R = w(fn), "nearest(query)", "nearest"
    sts = states(prog, ck, fn, R, opaque("findNearest"))
    if sts is None:
        return
    pt = par(fn, 0)
    for s in sts:
        c = next((e for e in flat(s) if e.k == "call" and e.d["name"] == "kdTree::findNearest" and e.d["res"] is s.ret), None)
        if c is None:
            ck.und(R, inst, "result %s" % show(s.ret)[:80], W)
            return
        a = c.d["args"]
        q = isdist(a[4])
        if a[0].op != "init" or "root" not in show(a[0]) or a[1] is not pt:
            ck.und(R, inst, "search of %s for %s" % (show(a[0]), show(a[1])), W)
            return
        if cval(a[2]) != 0:
            (ck.bad if cval(a[2]) is not None else ck.und)(R, inst, "the search starts at level %s" % show(a[2]), W)
            return
        if a[3] is not a[0] or not q or not any(fieldof(x, a[0]) == "x" for x in q) or pt not in q:
            if a[3] is a[0] and cval(a[4]) == 0:
                ck.bad(R, inst, "the root is taken to be at distance 0", W)
            else:
                ck.und(R, inst, "initial best %s at %s" % (show(a[3]), show(a[4])[:60]), W)
            return
    ck.ok(R, inst, "from the root, whose distance is the first best", W)


# ---------------------------------------------------------------- DBSCAN

def differs(x, e, env=()):
    """x is known to be another value than e"""
    v = value(x, {**dict(env), e: 12})
    return not contains(x, lambda t: t is e) or diff(x, e) not in (None, 0) or v is not None and v != 12


def neighbours(evs, data, i, eps):
    """results of the neighbourhood queries among evs, and the ones that ask for something else"""
    mine, other = [], []
    for e in evs:
        if e.k == "call" and e.d["name"] == "kdTree::neighborhoodIndices":
            a = [noepoch(x) for x in e.d["args"]]
            if a[0] is noepoch(at(data, i)) and a[1] is noepoch(eps):
                mine.append(e)
            else:
                other.append(e)
    return mine, other


def asked(ck, R, inst, W, e, data, i, eps):
    a = [noepoch(x) for x in e.d["args"]]
    if a[0] is noepoch(at(data, i)):
        (ck.bad if differs(a[1], eps) else ck.und)(R, inst, "neighbours are looked up within %s instead of %s" % (show(a[1]), show(eps)), W)
    else:
        b = a[0].op == "at" and a[0].a[0] is noepoch(data)
        (ck.bad if b else ck.und)(R, inst, "neighbours of %s are looked up for point %s" % (show(a[0]), show(i)), W)


def cluster(prog, ck, fn):
    W, inst, R = w(fn), fn["short"], "labelled"
    sts = states(prog, ck, fn, R, opaque("neighborhoodIndices", "expandCluster", "kdTree"))
    if sts is None:
        return
    data, minp, eps, num = (par(fn, i) for i in range(4))
    done = set()
    for s in sts:
        v = s.ret
        r = next((r for r, c in recs([s]) if v.op == "lo" and r.lid == v.a[0] and not c), None)
        if v.op == "filled":
            ck.bad(R, inst, "every point keeps the label %s" % show(v.a[1]), W)
            return
        if r is None:
            ck.und(R, inst, "result %s not recognised" % show(v)[:80], W)
            return
        h = v.a[1]
        L0, L = r.init.get(h), lv(r, h)
        if L0 is None or L0.op != "filled" or cval(L0.a[1]) is None:
            ck.und(R, inst, "initial labels %s" % (show(L0)[:80] if L0 is not None else "?"), W)
            return
        if cval(L0.a[1]) != 0:
            ck.bad(R, inst, "points start with the label %s instead of unvisited" % show(L0.a[1]), W)
            return
        n = L0.a[0]
        nzn = [b for a, b in s.atoms.items() if a.op == "nz" and a.a[0] is num]
        if nzn and not nzn[0] and n is not size(data):
            (ck.bad if n is num else ck.und)(R, inst, "without a limit only %s points are clustered" % show(n), W)
            return
        trees = [x for hh, x in r.init.items() if x.op == "obj" and x.a[0] == "kdTree"]
        if len(trees) != 1:
            ck.und(R, inst, "%d trees" % len(trees), W)
            return
        ta = [x for x in trees[0].a[1:] if isinstance(x, T)]
        if ta[0] is not data:
            ck.und(R, inst, "tree over %s" % show(ta[0]), W)
            return
        if ta[1] is not n and not (cval(ta[1]) == 0 and n is size(data)):
            d = diff(ta[1], n)
            ck.bad(R, inst, "the tree holds %s points, %s are labelled" % ("all" if cval(ta[1]) == 0 else show(ta[1]), show(n)), W) if d or isconst(ta[1]) or {ta[1], n} == {num, size(data)} else ck.und(R, inst, "tree over %s points, labels for %s" % (show(ta[1]), show(n)), W)
            return
        iv, ok, why = None, None, ""
        for x in r.ivs:
            a, b = verdict(r, x, INT(0), n)
            if a:
                iv = x
                break
            if a is False:
                ok, why = False, b
        if iv is None:
            (ck.bad if ok is False else ck.und)(R, inst, "not every point is labelled: %s" % (why or "range not recognised"), W)
            return
        if early(r):
            ck.bad(R, inst, "the labelling may stop before the last point", W)
            return
        own = at(L, iv)
        for k, p in r.paths:
            evs = flat(p)
            mine, other = neighbours(evs, data, iv, eps)
            if other:
                asked(ck, R, inst, W, other[0], data, iv, eps)
                return
            ex = [e for e in evs if e.k == "call" and e.d["name"] == "dbscan::expandCluster"]
            new = p.store.get(h, L)
            if ex and any(x.k == "call" and x in mine for x in evs[evs.index(ex[0]):]):
                ck.und(R, inst, "neighbours looked up after the cluster was grown", W)
                return
            N = [e.d["res"] for e in mine]
            rel = {a: b for a, b in p.atoms.items() if not any(a in alt for alt in r.hdr)}
            for g in grid(l=(-1, 0, 1, 2), n=(1, 2, 3, 4), m=(1, 2, 3)):
                if g["l"] == -1 and g["n"] >= g["m"]:
                    continue                      # noise was found to have too few neighbours
                env = {own: g["l"], minp: g["m"]}
                for x in N:
                    env[size(x)] = g["n"]
                okk, rest = holds(rel, env)
                if not okk:
                    continue
                rest = [(a, b) for a, b in rest if contains(a, lambda x: x is iv or x is L or x in N)]
                want = "keep" if g["l"] else "noise" if g["n"] < g["m"] else "grow"
                got = "grow" if ex else "keep" if new is L else "noise" if new.op == "upd" and new.a[0] is L and new.a[1] is iv and cval(new.a[2]) == -1 else "other"
                if got == want or g["l"] == -1 and got == "noise":
                    continue
                txt_ = {"keep": "left as it is", "noise": "marked as noise", "grow": "made the start of a cluster", "other": "given %s" % show(new)[:60]}
                say = "a point with label %d and %d neighbours is %s when %d are required" % (g["l"], g["n"], txt_[got], g["m"])
                if rest or got == "other" and not (new.op == "upd" and isconst(new.a[2])):
                    ck.und(R, inst, say + ", depending on " + txt(rest)[:100], W)
                else:
                    ck.bad(R, inst, say, W)
                return
            if ex:
                if len(ex) > 1:
                    ck.und(R, inst, "grown twice", W)
                    return
                a = ex[0].d["args"]
                if len(a) != 7:
                    ck.und(R, inst, "unexpected arguments", W)
                    return
                if noepoch(a[0]) is not data or a[1] is not L or not N or a[2] is not N[-1]:
                    ck.und(R, inst, "cluster grown from %s with labels %s" % (show(a[2])[:60], show(a[1])[:60]), W)
                    return
                if a[5] is not minp or a[6] is not eps:
                    ck.bad(R, inst, "a cluster is grown with (%s, %s) instead of (%s, %s)" % (show(a[5]), show(a[6]), show(minp), show(eps)), W)
                    return
                lab = a[3]
                c = [x for x in subterms(lab) if x.op == "lv" and x.a[0] == r.lid]
                if len(c) != 1 or diff(lab, c[0]) is None:
                    some = [x for x in subterms(lab) if x.op == "at" and x.a[0] is L]
                    if isconst(lab):
                        ck.bad(R, inst, "every cluster gets the label %s" % show(lab), W)
                    elif some and all(x.op in ("at", "max", "min", "+", "lv", "int", "size", "back", "cond", "ite", "L.ref", "L.var", "L.obj") for x in subterms(lab)) and all(not contains(x.a[1], lambda y: y is iv) for x in some):
                        ck.bad(R, inst, "a cluster gets the label %s, worked out from %d of the labels: it may be the label of an earlier cluster" % (show(lab)[:80], len(some)), W)
                    else:
                        ck.und(R, inst, "label %s" % show(lab)[:60], W)
                    return
                hh = c[0].a[1]
                done.add((hh, diff(lab, c[0]), r))
                st = p.store.get(hh, c[0])
                d = diff(st, c[0])
                if d is None:
                    ck.und(R, inst, "next label %s" % show(st)[:60], W)
                    return
                if d <= 0:
                    ck.bad(R, inst, "the next cluster gets the label of an earlier one", W)
                    return
                i0 = cval(r.init.get(hh)) if r.init.get(hh) is not None else None
                if i0 is None:
                    ck.und(R, inst, "first label not recognised", W)
                    return
                if i0 + diff(lab, c[0]) < 1:
                    ck.bad(R, inst, "the first cluster gets the label %d, which stands for %s points" % (i0 + diff(lab, c[0]), "unvisited" if i0 + diff(lab, c[0]) == 0 else "noise"), W)
                    return
            else:
                for hh, off, rr in done:
                    st = p.store.get(hh)
                    if st is not None and rr.lid == r.lid and (diff(st, lv(r, hh)) or 0) < 0:
                        ck.bad(R, inst, "the cluster label is lowered", W)
                        return
    if done:
        ck.ok(R, inst, "unvisited points in turn: noise below the required number of neighbours, otherwise a cluster with a fresh label", W)
    else:
        ck.und(R, inst, "no cluster is ever started", W)


def expand(prog, ck, fn):
    W, inst, R = w(fn), fn["short"], "expanded"
    sts = states(prog, ck, fn, R, opaque("neighborhoodIndices", "kdTree"))
    if sts is None:
        return
    data, labels, queue, lab, tree, minp, eps = (par(fn, i) for i in range(7))
    hl, hq = (mk("L.ref", fn["params"][i]["n"]) for i in (1, 2))
    n = 0
    for s in sts:
        for r, ctx in recs([s]):
            if ctx or hl not in r.H:
                continue
            n += 1
            L, Q = lv(r, hl), lv(r, hq)
            if r.init.get(hl) is not None and r.init[hl] is not labels:
                ck.und(R, inst, "labels changed before the loop", W)
                return
            if hq not in r.H:
                qs = [k for k, p in r.paths if any(contains(v, lambda x: x.op in ("app", "cat")) for hh, v in p.store.items())]
                Q = queue
            hd = [t for alt in r.hdr for t in alt if t.op == "<"]
            iv = None
            bad = None
            for x in r.ivs:
                i0, st = r.ivs[x]
                for t in hd:
                    if t.a[0] is x and cval(i0) == 0 and (st == 1 or cval(st) == 1 if isinstance(st, T) else st == 1):
                        if t.a[1] is size(Q):
                            iv = x
                        elif t.a[1] is size(queue) and Q is not queue:
                            bad = "points added while the cluster grows are never looked at"
                        elif diff(t.a[1], size(Q)):
                            bad = "the last entries of the queue are never looked at"
                    elif t.a[0] is x and cval(i0) is not None and cval(i0) > 0 and t.a[1] is size(Q):
                        bad = "the first entries of the queue are never looked at"
            if iv is None:
                (ck.bad if bad else ck.und)(R, inst, bad or "the loop over the queue is not recognised", W)
                return
            if early(r):
                ck.bad(R, inst, "the queue may be left before its end", W)
                return
            more = [t for alt in r.hdr for t in alt if t is not lt(iv, size(Q)) and contains(t, lambda x: x is iv)]
            more = [t for t in more if not (t.op in ("==", "nz") or t.op == "<" and t.a[0] is iv and (diff(t.a[1], size(Q)) or 0) > 0)]
            if more:
                (ck.bad if all(t.op == "<" and not contains(t, lambda x: x is L) for t in more) else ck.und)(R, inst, "the queue may be left before its end: %s" % "; ".join(show(t) for t in more)[:200], W)
                return
            pt = at(Q, iv)
            own = at(L, pt)
            for k, p in r.paths:
                evs = flat(p)
                mine, other = neighbours(evs, data, pt, eps)
                if other:
                    asked(ck, R, inst, W, other[0], data, pt, eps)
                    return
                N = [e.d["res"] for e in mine]
                new, q = p.store.get(hl, L), p.store.get(hq, Q) if hq in r.H else Q
                rel = {a: b for a, b in p.atoms.items() if not any(a in alt for alt in r.hdr)}
                for g in grid(l=(-1, 0, 1, 2), c=(1, 2), n=(1, 2, 3, 4), m=(1, 2, 3)):
                    if g["l"] == -1 and g["n"] >= g["m"]:
                        continue
                    env = {own: g["l"], minp: g["m"], lab: g["c"]}
                    for x in N:
                        env[size(x)] = g["n"]
                    okk, rest = holds(rel, env)
                    if not okk:
                        continue
                    rest = [(a, b) for a, b in rest if contains(a, lambda x: x is iv or x is L or x is Q or x in N)]
                    wl = g["l"] <= 0
                    if new is L:
                        gl = False
                    elif new.op == "upd" and new.a[0] is L and noepoch(new.a[1]) is noepoch(pt):
                        x = value(new.a[2], env)
                        gl = True if new.a[2] is lab else (None if x is None else x == g["c"])
                        if gl is False and not wl and x == g["l"]:
                            gl = False
                        elif gl is False:
                            gl = "wrong"
                        if gl is True and g["l"] == g["c"]:
                            gl = wl
                    else:
                        gl = None
                    # the queue
                    if q is Q:
                        gq = False
                    elif q.op in ("app", "cat") and q.a[0] is Q and q.a[1] in N:
                        gq = True
                    else:
                        gq = None
                    wq = g["l"] == 0 and g["n"] >= g["m"]
                    say = None
                    if gl is None or gq is None:
                        ck.und(R, inst, "a pass leaves labels %s, queue %s" % (show(new)[:60], show(q)[:60]), W)
                        return
                    if gl == "wrong":
                        say = "a point with label %d gets the label %s" % (g["l"], show(new.a[2])[:40])
                    elif gl != wl:
                        say = "a %s point reached by the cluster %s" % ({-1: "noise", 0: "new"}.get(g["l"], "labelled"), "gets its label" if gl else "does not get its label")
                    elif gq != wq:
                        say = "the neighbours of a point with label %d and %d neighbours (%d required) are %s" % (g["l"], g["n"], g["m"], "added" if gq else "not added")
                    if say:
                        place = rest and any(holds(dict(rest), {iv: i, size(Q): q, size(queue): q})[0] and not holds(dict(rest), {iv: i, size(Q): q, size(queue): q})[1] for q in range(1, 6) for i in range(q))
                        (ck.und if rest and not place else ck.bad)(R, inst, say + (", depending on " + txt(rest)[:100] if rest else ""), W)
                        return
    if n:
        ck.ok(R, inst, "every point reached is labelled once, and the neighbours of core points follow", W)
    else:
        ck.und(R, inst, "loop not recognised", W)
