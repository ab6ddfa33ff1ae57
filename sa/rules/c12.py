"""C12 vertex-set operations: unions, intersections, differences, faces and neighbour distances are the mathematical ones for any two sets."""
from ..common import *
from ..loops import *
from ..trees import noepoch
from .c09 import w, strip

TITLE = "vertex set operations"

# (in A, in B) in this order
COMBOS = ((0, 0), (0, 1), (1, 0), (1, 1))
UNION = (0, 1, 1, 1)
INTER = (0, 0, 0, 1)
XOR = (0, 1, 1, 0)
NAMES = {UNION: "their union", INTER: "what both share", XOR: "what exactly one has", (0, 0, 1, 1): "the first set", (0, 1, 0, 1): "the second set",
         (0, 0, 0, 0): "nothing", (0, 0, 1, 0): "what only the first has", (0, 1, 0, 0): "what only the second has"}
SPEC = {"setXOR": XOR, "symmetricDiff": XOR, "setIntersect": INTER, "setUnion": UNION}
OPS = {"f:set_union": lambda x, y: x | y, "f:set_intersection": lambda x, y: x & y, "f:set_symmetric_difference": lambda x, y: x ^ y,
       "f:set_difference": lambda x, y: x & (1 - y), "f:merge": lambda x, y: x | y}


def run(prog, ck):
    for fn in sorted(prog.functions.values(), key=lambda f: f["key"]):
        if fn.get("cls") == "utils":
            s = fn["short"]
            if s in SPEC and len(fn["params"]) >= 2:
                binary(prog, ck, fn, SPEC[s])
            elif s == "intersect" and len(fn["params"]) >= 2:
                adjacent(prog, ck, fn)
            elif s == "getSubsets":
                subsets(prog, ck, fn)
            elif s == "nearestNeighbors":
                neighbours(prog, ck, fn)
        if fn["short"] == "getAllSubsets":
            subsets(prog, ck, fn)
        elif fn["short"] == "getFaces" and fn.get("cls", "").endswith("graphEntry"):
            positions(prog, ck, fn)
        if fn["short"] == "checkFace" and len(fn["params"]) == 2:
            face(prog, ck, fn)
    ck.expect("op", 6)
    ck.expect("adjacent", 2)
    ck.expect("subsets", 12)
    ck.expect("face positions", 1)
    ck.expect("face", 5)
    ck.expect("neighbours", 2)


def I(fn):
    return fn["short"] + "(" + ", ".join("set" if "set<" in p["ty"] else "list" if "vector<" in p["ty"] else p["ty"] for p in fn["params"]) + ") of " + fn["cls"]


def par(fn, i):
    """the value of parameter i on entry"""
    p = fn["params"][i]
    return mk("init", mk("L.ref", p["n"]), "") if p["m"] in ("ref", "cref") else mk("param", p["n"])


class Sets:
    """which elements a value holds, per membership in the two operands"""

    def __init__(self, A, B, sts):
        self.A, self.B = A, B
        self.recs = [r for r, _, _ in loops_of(sts)]
        self.memo = {}
        self.unsorted = []

    def of(self, t, can=COMBOS):
        """membership vector or None"""
        t = noepoch(t)
        if t is self.A:
            return (0, 0, 1, 1)
        if t is self.B:
            return (0, 1, 0, 1)
        if t.op in ("empty", "list") and not t.a:
            return (0, 0, 0, 0)
        if t.op in ("sorted", "rev", "setof", "listof", "uniq"):
            return self.of(t.a[0])
        if t.op in OPS and len(t.a) == 2:
            for x in t.a:
                if not ordered(x, self):
                    self.unsorted.append((t, x))
            x, y = self.of(t.a[0]), self.of(t.a[1])
            if x is None or y is None:
                return None
            return tuple(OPS[t.op](p, q) for p, q in zip(x, y))
        if t.op == "fld" and t.a[0].op == "empty":
            return (0, 0, 0, 0)
        if t.op in ("union", "cat", "app") and len(t.a) >= 2:
            xs = [self.of(x) if isinstance(x, T) else None for x in t.a]
            if None in xs:
                return None
            return tuple(int(any(c)) for c in zip(*xs))
        if t.op == "lo":
            if t not in self.memo:
                self.memo[t] = None
                self.memo[t] = self.loop(t)
            return self.memo[t]
        return None

    def loop(self, t):
        rs = [r for r in self.recs if r.lid == t.a[0]]
        if len(rs) != 1:
            return None
        r, h = rs[0], t.a[1]
        if h not in r.init or early(r):
            return None
        base = self.of(r.init[h])
        if base is None:
            return None
        # the collection it runs over
        for iv in r.ivs:
            g = irange(r, iv)
            if not g or not g.known or g.hi is None or g.extra or g.step != 1 or cval(g.lo) != 0 or noepoch(g.hi).op != "size":
                continue
            X = noepoch(g.hi).a[0]
            if X.op == "lv" and X.a[0] == r.lid:
                continue
            mx = self.of(X)
            if mx is None:
                continue
            out = list(base)
            cur = mk("lv", r.lid, h)
            for c, (a, b) in enumerate(COMBOS):
                if not mx[c]:
                    continue
                res = set()
                for k, s in r.paths:
                    el = []
                    ok = True
                    for at_, tr in s.atoms.items():
                        v = self.elem(at_, X, iv, c, cur, base)
                        if v == "other":
                            continue
                        if v is None:
                            if not irrelevant(at_, iv):
                                return None
                            continue
                        if v != bool(tr):
                            ok = False
                            break
                    if not ok:
                        continue
                    v = s.store.get(h)
                    res.add(self.step(v, cur, X, iv, base[c]))
                if len(res) != 1 or None in res:
                    return None
                out[c] = res.pop()
            return tuple(out)
        return None

    def step(self, v, cur, X, iv, was):
        if v is None or v is cur:
            return was
        n = noepoch(v)
        is_el = lambda x: noepoch(x).op == "at" and noepoch(x).a[0] is X and noepoch(x).a[1] is iv
        if n.op in ("push", "ins") and n.a[0] is noepoch(cur) and is_el(n.a[1]):
            return 1
        if n.op in ("rm", "rmk") and n.a[0] is noepoch(cur) and is_el(n.a[1]):
            return 0
        return None

    def elem(self, a, X, iv, c, cur, base):
        """truth of an atom for an element with membership combo c; 'other' when not about membership"""
        a = noepoch(a)
        if a.op == "nz":
            a = strip(a.a[0])
        if a.op in ("has", "count") and len(a.a) >= 2:
            y = self.of(a.a[0])
            e = a.a[1]
            if a.a[0] is noepoch(cur):
                # every element of a set comes once: its state is the one before the loop
                y = base
            if y is None or not (e.op == "at" and e.a[0] is X and e.a[1] is iv):
                return None
            return bool(y[c])
        if bound(iv, a, True) is not None or bound(iv, a, False) is not None:
            return "other"
        return None


def irrelevant(a, iv):
    return not contains(a, lambda x: x is iv)


def ordered(x, S):
    """is this operand of a merge in ascending order?"""
    if x.op in ("sorted", "setof", "empty", "list"):
        return True
    if x.op in OPS:
        return all(ordered(y, S) for y in x.a)
    if x is S.A or x is S.B:
        return True if x in S.sortedp else False if x in (S.A, S.B) else None
    return None


def possible(s, S):
    """membership combos an element can have when the path is taken"""
    out = list(COMBOS)
    for a, b in s.atoms.items():
        a = noepoch(a)
        if a.op == "==" and b and all(isinstance(x, T) for x in a.a):
            x, y = S.of(a.a[0]), S.of(a.a[1])
            if x and y:
                out = [c for c in out if x[COMBOS.index(c)] == y[COMBOS.index(c)]]
            for i in (0, 1):
                if a.a[i].op == "size" and cval(a.a[1 - i]) == 0:
                    z = S.of(a.a[i].a[0])
                    if z:
                        out = [c for c in out if not z[COMBOS.index(c)]]
        if a.op == "nz" and b and a.a[0].op == "f:includes" and len(a.a[0].a) == 3 and all(x.op == "iter" for x in a.a[0].a[1:]):
            # everything in the second range is in the first
            f = a.a[0]
            x = S.of(f.a[0])
            y = [v for p_, v in ((q, S.of(q)) for q in (S.A, S.B)) if p_.op == "init" and p_.a[0] is f.a[1].a[0] or p_ is f.a[1].a[0] or p_.op == "param" and f.a[1].a[0].op == "L.var" and f.a[1].a[0].a[-1] == p_.a[0]]
            if x and len(y) == 1 and y[0] and cval(f.a[1].a[1]) == 0:
                out = [c for c in out if x[COMBOS.index(c)] or not y[0][COMBOS.index(c)]]
        if a.op == "has" and len(a.a) >= 2 and a.a[1].op == "at":
            x, y = S.of(a.a[1].a[0]), S.of(a.a[0])
            one = any(tr and q.op == "==" and any(z.op == "size" and z.a[0] is a.a[1].a[0] for z in q.a) and any(cval(z) == 1 for z in q.a) for q, tr in ((noepoch(q), tr) for q, tr in s.atoms.items()))
            if x and y and one:
                out = [c for c in out if not x[COMBOS.index(c)] or bool(y[COMBOS.index(c)]) == bool(b)]
        if a.op == "<" and b and all(x.op == "at" for x in a.a):
            # the last of one is before the first of the other
            x, y = a.a[0].a[0], a.a[1].a[0]
            if {x, y} == {S.A, S.B} and x in S.sortedp and y in S.sortedp and diff(a.a[0].a[1], size(x)) == -1 and cval(a.a[1].a[1]) == 0:
                out = [c for c in out if c != (1, 1)]
        if a.op == "nz" and not b and a.a[0].op == "size":
            z = S.of(a.a[0].a[0])
            if z:
                out = [c for c in out if not z[COMBOS.index(c)]]
    return out


def start(prog, ck, fn, rule):
    try:
        sts = Engine(prog, nomerge=True).run(fn)
    except (PathLimit, Undecided) as e:
        ck.und(rule, I(fn), str(e), w(fn))
        return None
    return [s for s in sts if s.status == "ret"]


def prep(sts, fn, s=None):
    A, B = par(fn, 0), par(fn, 1)
    S = Sets(A, B, sts)
    S.sortedp = set(par(fn, i) for i in (0, 1) if "set<" in fn["params"][i]["ty"])
    if s is not None and len(fn["params"]) > 2:
        f = noepoch(mk("nz", par(fn, 2)))
        for a, b in s.atoms.items():
            if noepoch(a) is f and b:
                S.sortedp |= {A, B}
    return S


def describe(v):
    return NAMES.get(tuple(v), "the wrong elements")


def agree(ck, rule, fn, S, s, t, spec, what):
    v = S.of(t)
    inst = I(fn) + ("" if not what else " " + what)
    if v is None:
        ck.und(rule, inst, "%s is %s" % (what or "result", show(t)[:100]), w(fn))
        return
    for c in possible(s, S):
        i = COMBOS.index(c)
        if v[i] != spec[i]:
            ck.bad(rule, inst, "it returns %s instead of %s when %s: an element %s is %s" % (
                describe(v), describe(spec), fmt_guards(s.atoms, 2)[:100] or "called",
                ("both have", "only the first has", "only the second has", "neither has")[3 - i if i in (0, 3) else (2 if i == 1 else 1)],
                "kept" if v[i] else "lost"), w(fn))
            return
    uns = [x for _, x in S.unsorted if ordered(x, S) is False]
    S.unsorted = []
    if uns:
        ck.bad(rule, inst, "the operand %s is merged although nothing put it in order: elements are missed" % show(uns[0])[:40], w(fn))
        return
    ck.ok(rule, inst, "", w(fn))


def binary(prog, ck, fn, spec):
    sts = start(prog, ck, fn, "op")
    if sts is None:
        return
    for s in sts:
        S = prep(sts, fn, s)
        agree(ck, "op", fn, S, s, s.ret, spec, "")


def adjacent(prog, ck, fn):
    """what differs and the union when the two simplices differ in exactly two vertices, else nothing"""
    sts = start(prog, ck, fn, "adjacent")
    if sts is None:
        return
    for s in sts:
        S = prep(sts, fn, s)
        f, g = (noepoch(getf(s.ret, x)) for x in ("first", "second"))
        two = None
        for a, b in s.atoms.items():
            n = noepoch(a)
            if n.op == "==" and any(x.op == "size" and S.of(x.a[0]) == XOR for x in n.a):
                k = [cval(x) for x in n.a if cval(x) is not None]
                if k:
                    if k[0] == 2:
                        two = bool(b)
                    elif b:
                        two = False
            elif n.op == "==" and b and {S.of(x) for x in n.a} == {(0, 0, 1, 1), (0, 1, 0, 1)}:
                two = False
        if two is None:
            ks, asked = set(range(7)), False
            for a, b in s.atoms.items():
                n = noepoch(a)
                if n.op in ("<", "==") and any(x.op == "size" and S.of(x.a[0]) == XOR for x in n.a) and any(cval(x) is not None for x in n.a):
                    asked = True
                    vals = lambda k: [k if x.op == "size" else cval(x) for x in n.a]
                    ks = {k for k in ks if ((vals(k)[0] < vals(k)[1]) if n.op == "<" else vals(k)[0] == vals(k)[1]) == bool(b)}
            if asked and ks == {2}:
                two = True
            elif asked and 2 not in ks:
                two = False
            elif asked and S.of(f) == XOR and ks - {2}:
                ck.bad("adjacent", I(fn), "a result is given for sets that differ in %s elements" % "/".join(str(k) for k in sorted(ks - {2})), w(fn))
                continue
        S.unsorted = []
        if two is None:
            known = [S.of(x.a[0]) for a, b in s.atoms.items() for n in [noepoch(a)] if n.op == "==" and b for x in n.a if x.op == "size"]
            if S.of(f) not in (None, (0, 0, 0, 0)) and (not s.atoms or None not in known and known):
                ck.bad("adjacent", I(fn), "a result is given when %s, which does not say that they differ in exactly two elements" % fmt_guards(s.atoms, 3)[-120:], w(fn))
                continue
            if S.of(f) == (0, 0, 0, 0) and S.of(g) == (0, 0, 0, 0):
                ck.und("adjacent", I(fn), "guard %s not decided" % fmt_guards(s.atoms, 3)[:120], w(fn))
            elif S.of(f) is None or S.of(g) is None:
                ck.und("adjacent", I(fn), "result not decided", w(fn))
            else:
                ck.und("adjacent", I(fn), "guard %s not decided" % fmt_guards(s.atoms, 3)[:120], w(fn))
            continue
        if two:
            agree(ck, "adjacent", fn, S, s, f, XOR, "first")
            agree(ck, "adjacent", fn, S, s, g, UNION, "second")
        else:
            for t, n in ((f, "first"), (g, "second")):
                v = S.of(t)
                if v is None:
                    ck.und("adjacent", I(fn), "%s is %s" % (n, show(t)[:80]), w(fn))
                else:
                    left = [c for c in possible(s, S) if v[COMBOS.index(c)]]
                    ck.require(not left, "adjacent", I(fn) + " otherwise", "sets that do not differ in exactly two elements still yield %s when %s" % (describe(v), fmt_guards(s.atoms, 2)[:100]), w(fn))


# ---- enumeration of subsets

def subsets(prog, ck, fn):
    sts = start(prog, ck, fn, "subsets")
    if sts is None:
        return
    for s in sts:
        Enum(ck, fn, sts, s).run()


def positions(prog, ck, fn):
    """the position of every face that is found is returned"""
    R = "face positions"
    try:
        sts = Engine(prog, opaque=lambda f: f["short"] in ("getAllSubsets", "getSubsets", "findIndex"), nomerge=True).run(fn)
    except (PathLimit, Undecided) as e:
        ck.und(R, I(fn), str(e), w(fn))
        return
    for s in sts:
        t = noepoch(s.ret)
        rs = [r for r, _, _ in loops_of([s]) if t.op == "lo" and r.lid == t.a[0]]
        if len(rs) != 1:
            ck.und(R, I(fn), "result %s" % show(t)[:80], w(fn))
            continue
        r, h = rs[0], t.a[1]
        cur = mk("lv", r.lid, h)
        calls = [e for e in s.ev if e.k == "call" and e.d["name"].split("::")[-1] in ("getAllSubsets", "getSubsets")]
        src = noepoch(calls[0].d["res"]) if calls else None
        arg = calls[0].d["args"][0] if calls and calls[0].d["args"] else None
        if src is None or arg is None:
            ck.und(R, I(fn), "the faces looked up are not recognised", w(fn))
            continue
        if not contains(arg, lambda x: x.op == "L.fld" and x.a[1] == "simplexSet"):
            ck.und(R, I(fn), "faces of %s" % show(arg)[:60], w(fn))
            continue
        iv = [x for x in r.ivs if verdict(r, x, INT(0), size(src))[0] is not None]
        if not iv:
            ck.und(R, I(fn), "loop over faces not recognised", w(fn))
            continue
        v, why = verdict(r, iv[0], INT(0), size(src))
        if early(r):
            v, why = (False, "it stops early") if all(k == "brk" and not any(a.op in ("==", "<") and contains(a, lambda x: x.op == "size") for a in z.atoms if not any(a in alt for alt in r.hdr)) for k, z in early(r)) else (None, "it may stop early")
        if v is not True:
            (ck.bad if v is False else ck.und)(R, I(fn), "faces looked up: " + why, w(fn))
            continue
        bad = und = None
        for k, z in r.paths:
            look = [e for e in z.ev if e.k == "call" and e.d["name"].split("::")[-1] == "findIndex"]
            x = noepoch(z.store.get(h, cur))
            idx = noepoch(look[0].d["res"]) if look else None
            if x is cur:
                neg = False
                for a, b in z.atoms.items():
                    a = noepoch(a)
                    if idx is not None and contains(a, lambda q: q is idx):
                        n = bound(idx, a, b)
                        if n and n[0] == "ub" and (cval(n[1]) is not None and cval(n[1]) <= 0):
                            neg = True
                        if a.op == "==" and b and any(cval(q) is not None and cval(q) < 0 for q in a.a):
                            neg = True
                        if n and n[0] == "ub" and cval(n[1]) is not None and cval(n[1]) > 0:
                            neg = None
                if neg is not True:
                    bad = "the position of a face is left out when %s" % fmt_guards(z.atoms, 2)[-120:]
            elif x.op in ("ins", "push") and x.a[0] is noepoch(cur):
                if idx is None or x.a[1] is not idx:
                    d = diff(x.a[1], idx) if idx is not None else None
                    if d:
                        bad = "the position returned is %+d off" % d
                    else:
                        und = "returns %s" % show(x.a[1])[:60]
                elif look and noepoch(at(src, iv[0])) is not noepoch(look[0].d["args"][0]):
                    und = "looks up %s" % show(look[0].d["args"][0])[:60]
            else:
                und = "result becomes %s" % show(x)[:60]
        if bad:
            ck.bad(R, I(fn), bad, w(fn))
        elif und:
            ck.und(R, I(fn), und, w(fn))
        else:
            ck.ok(R, I(fn), "the position of every face found", w(fn))


def s_cond(s):
    """does the path depend on more than its loops having ended?"""
    return any(not contains(a, lambda x: x.op == "lo") for a in s.atoms)


class Enum:
    def __init__(self, ck, fn, sts, s):
        self.ck, self.fn, self.s = ck, fn, s
        self.set = par(fn, 0)
        self.dim = par(fn, 1) if len(fn["params"]) > 1 else None
        self.recs = {}
        for r, _, _ in loops_of(sts):
            self.recs.setdefault(r.lid, []).append(r)

    def rec(self, lid):
        rs = self.recs.get(lid, [])
        if len({tuple(sorted((k.uid, v.uid) for k, v in r.init.items())) for r in rs}) != 1:
            return None
        return rs[0]

    def und(self, inst, text):
        self.ck.und("subsets", I(self.fn) + " " + inst, text, w(self.fn))

    def req(self, cond, inst, text):
        if cond is None:
            self.und(inst, text)
        else:
            self.ck.require(cond, "subsets", I(self.fn) + " " + inst, text, w(self.fn))

    def over(self, r, X):
        """complete loop over X: (iv, verdict, why)"""
        best = (None, None, "no counted loop")
        for iv in r.ivs:
            if early(r):
                c = cutoff(r)
                return (iv, False, "it stops once " + c) if c else (iv, None, "it may stop early")
            v, why = verdict(r, iv, INT(0), size(X))
            if v is True:
                return iv, True, ""
            g = irange(r, iv)
            if g and g.hi is not None and contains(g.hi, lambda x: x is X):
                best = (iv, v, why)
            elif best[0] is None and v is not None:
                best = (iv, v, why)
        return best

    def run(self):
        t = noepoch(self.s.ret)
        short_cut = self.trivial(t)
        if short_cut:
            return
        if t.op != "lo":
            self.und("filter", "result %s" % show(t)[:80])
            return
        r = self.rec(t.a[0])
        h = t.a[1]
        if r is None or h not in r.init:
            self.und("filter", "loop not found")
            return
        init = noepoch(r.init[h])
        if not (init.op == "empty" or init.op == "list" and not init.a):
            self.und("filter", "starts from %s" % show(init)[:60])
            return
        cur = noepoch(mk("lv", r.lid, h))
        # direct form: drop each element in turn
        vals = [noepoch(s.store.get(h, cur)) for k, s in r.paths if k == "end"]
        pushed = [v for v in vals if v.op in ("push", "ins") and v.a[0] is cur]
        if pushed and all(v.a[1].op in ("rm",) for v in pushed):
            self.drop(r, pushed, len(vals))
            return
        self.filter(r, h, cur)

    def trivial(self, t):
        if t.op != "empty":
            return False
        if not s_cond(self.s):
            self.req(False, "filter", "no subset is ever returned")
            return True
        for a, b in self.s.atoms.items():
            n = noepoch(a)
            if n.op == "nz" and not b and n.a[0].op == "size" and n.a[0].a[0] is self.set and self.dim is None:
                self.req(True, "filter", "")
                return True
            if self.dim is not None and n.op == "<" and b and n.a[0].op == "size" and n.a[0].a[0] is self.set and strip(n.a[1]) is self.dim:
                self.req(True, "filter", "")
                return True
        return False

    def drop(self, r, pushed, n):
        if self.dim is not None or len(pushed) != n:
            self.und("filter", "shape")
            return
        iv, v, why = self.over(r, self.set)
        self.req(v, "every element", "faces are built by leaving out one element, but " + why)
        if v:
            for p in pushed:
                d = p.a[1]
                good = d.a[0] is self.set and isinstance(d.a[1], T) and (d.a[1] is noepoch(at(self.set, iv)) or d.a[1] is iv)
                self.req(True if good else None, "filter", "face %s" % show(d)[:60])

    def own(self, pushes):
        got = []
        for s, e in pushes:
            for a in s.atoms:
                contains(noepoch(a), lambda x: x.op == "init" and x.a[0].op == "L.fld" and x.a[0].a[1] == "simplexSet" and got.append(x))
        return got[0] if got else None

    def filter(self, r, h, cur):
        # which list it filters
        src = None
        pushes = []
        for k, s in r.paths:
            v = noepoch(s.store.get(h, cur))
            if v is cur:
                continue
            if v.op in ("push", "ins") and v.a[0] is cur and v.a[1].op == "at":
                src = v.a[1].a[0]
                pushes.append((s, v.a[1]))
            else:
                self.und("filter", "keeps %s" % show(v)[:80])
                return
        if src is None:
            self.req(False, "filter", "no subset is ever kept")
            return
        iv, v, why = self.over(r, src)
        self.req(v, "kept from all", "the subsets looked at are not all: " + why)
        if not v:
            return
        el = noepoch(at(src, iv))
        want = self.dim if self.dim is not None else sub(size(self.set), INT(1))
        if any(contains(noepoch(a), lambda x: x.op == "init" and x.a[0].op == "L.fld" and x.a[0].a[1] == "simplexSet") for e in pushes for a in e[0].atoms):
            # the entry's own simplex, whose subsets are asked for
            want = sub(size(own), INT(1)) if (own := self.own(pushes)) is not None else want
        for s, e in pushes:
            if e is not el:
                self.req(None, "filter", "keeps %s" % show(e)[:60])
                return
            ok = None
            for a, b in s.atoms.items():
                n = noepoch(a)
                if n.op == "==" and b:
                    l = addl(lin(n.a[0]), lin(n.a[1]), -1)
                    c = l[0].get(noepoch(size(el)))
                    if c:
                        rest = addl(({}, 0), ({x: y for x, y in l[0].items() if x is not noepoch(size(el))}, l[1]), -c)
                        d = addl(rest, lin(noepoch(want)), -1)
                        if not d[0]:
                            ok = d[1] == 0
                            if not ok:
                                self.req(False, "filter", "it keeps subsets of a size %d off the one asked for" % d[1])
                                return
                        elif all(strip(x) in (strip(noepoch(want)),) for x in d[0]):
                            ok = None
            others = [(a, b) for a, b in s.atoms.items() if contains(a, lambda x: x.op == "lv" and x.a[0] == r.lid)
                      and not contains(noepoch(a), lambda x: x is noepoch(size(el))) and bound(iv, a, True) is None]
            if ok and others:
                ok = None
            if ok is None and not any(contains(noepoch(a), lambda x: x is noepoch(size(el))) for a in s.atoms):
                self.req(False if not others else None, "filter", "every subset is kept whatever its size")
                return
            self.req(ok, "filter", "kept when %s" % fmt_guards(s.atoms, 3)[:120])
        # the complement is dropped only for its size
        for k, s in r.paths:
            v = noepoch(s.store.get(h, cur))
            if v is not cur:
                continue
            wanted = any(noepoch(a).op == "==" and b and contains(noepoch(a), lambda x: x is noepoch(size(el))) for a, b in s.atoms.items())
            if wanted:
                rest = [(a, b) for a, b in s.atoms.items() if contains(a, lambda x: x.op == "lv" and x.a[0] == r.lid)
                        and not contains(noepoch(a), lambda x: x is noepoch(size(el))) and bound(iv, a, True) is None]
                counts = rest and all(a.op == "<" and any(x.op == "size" and x.a[0].op == "lv" for x in a.a) and any(cval(x) is not None for x in a.a) for a, b in rest)
                self.req(False if counts else None, "filter", "a subset of the size asked for is dropped when %s" % "; ".join(("" if b else "not ") + show(a) for a, b in rest)[:120])
                continue
            if not any(noepoch(a).op == "==" and not b and contains(noepoch(a), lambda x: x is noepoch(size(el))) for a, b in s.atoms.items()):
                self.req(None, "filter", "drops when %s" % fmt_guards(s.atoms, 3)[:120])
        self.power(src)

    def power(self, src):
        """src holds every subset"""
        if src.op != "lo":
            if src.op in ("push", "empty", "list"):
                self.req(False, "all subsets", "only %s is looked at" % show(src)[:60])
            else:
                self.und("all subsets", "list %s" % show(src)[:80])
            return
        r = self.rec(src.a[0])
        h = src.a[1]
        if r is None or h not in r.init:
            self.und("all subsets", "loop not found")
            return
        init = noepoch(r.init[h])
        if init.op == "empty" or init.op == "list" and not init.a:
            self.req(False, "all subsets", "the enumeration does not start from the empty set, so it stays empty")
            return
        one = init.op == "push" and init.a[0].op == "empty" and init.a[1].op == "empty" or init.op == "list" and len(init.a) == 1 and init.a[0].op == "empty" or \
            init.op == "filled" and cval(init.a[0]) == 1
        if not one:
            self.und("all subsets", "starts from %s" % show(init)[:60])
            return
        iv, v, why = self.over(r, self.set)
        self.req(v, "every element", "elements of the set are left out of the subsets: " + why)
        if not v:
            return
        x = noepoch(at(self.set, iv))
        S0 = noepoch(mk("lv", r.lid, h))
        for k, s in r.paths:
            ps = self.parts(noepoch(s.store.get(h, S0)), S0, x, 0)
            if isinstance(ps, str):
                (self.und if ps[0] == "?" else lambda i, t: self.req(False, i, t))("all subsets", ps.lstrip("?"))
                continue
            kinds = sorted(ps)
            self.req(kinds == ["all", "ext"] if "?" not in kinds else None, "all subsets",
                     "with a further element the list becomes %s instead of the subsets without and with it" % (
                         " and ".join({"all": "the subsets without it", "ext": "the subsets with it"}.get(q, q) for q in kinds) or "nothing"))

    def parts(self, v, S0, x, d):
        """list value as concatenation of ['all' = S0 | 'ext' = every element of S0 with x]; a text when it is neither"""
        if d > 8:
            return "?too deep"
        if v is S0:
            return ["all"]
        if v.op == "cat":
            out = []
            for p in v.a:
                q = self.parts(p, S0, x, d + 1)
                if isinstance(q, str):
                    return q
                out += q
            return out
        if v.op == "empty":
            return []
        if v.op != "lo":
            return "?list %s" % show(v)[:80]
        r = self.rec(v.a[0])
        h = v.a[1]
        if r is None or h not in r.init or len(r.paths) != 1 or early(r):
            return "?inner loop shape"
        b0 = self.parts(noepoch(r.init[h]), S0, x, d + 1)
        if isinstance(b0, str):
            return b0
        cur = noepoch(mk("lv", r.lid, h))
        n = noepoch(r.paths[0][1].store.get(h, cur))
        if n is cur:
            return b0
        if n.op == "upd" and n.a[0] is cur:
            # every element in place
            if len(n.a) > 2 and isinstance(n.a[1], T) and b0 == ["all"]:
                iv = n.a[1]
                vd, why = self.full(r, iv, noepoch(r.init[h]), cur)
                if vd is None:
                    return "?" + why
                if not vd:
                    return "an element is not added to every subset: " + why
                old = noepoch(at(cur, iv))
                y = n.a[2]
                if y.op in ("ins", "push") and y.a[0] is old:
                    return ["ext"] if y.a[1] is x else "the subsets are extended by %s instead of the element at hand" % show(y.a[1])[:60] if not contains(y.a[1], lambda q: q.op in ("lv", "lo") and q is not x and q not in x.a) else "?extended by other"
                return "?updated to %s" % show(y)[:60]
            return "?update"
        if n.op in ("push", "ins") and n.a[0] is cur:
            y = n.a[1]
            ext = False
            if y.op in ("ins", "push") and y.a[1] is x:
                ext, y = True, y.a[0]
            if y.op != "at":
                return "?adds %s" % show(y)[:60]
            Y, iv = y.a
            cont = self.parts(Y if Y is not cur else noepoch(r.init[h]), S0, x, d + 1)
            if isinstance(cont, str):
                return cont
            vd, why = self.full(r, iv, noepoch(r.init[h]) if Y is cur else Y, cur if Y is cur else None)
            if vd is None:
                return "?" + why
            if not vd:
                return "subsets are lost: " + why
            if ext:
                cont = ["ext" if q == "all" else q for q in cont]
            return b0 + cont
        return "?inner loop gives %s" % show(n)[:60]

    def full(self, r, iv, X, cur):
        v, why = verdict(r, iv, INT(0), noepoch(size(X)))
        if v is None and cur is not None:
            v, why = verdict(r, iv, INT(0), size(cur))
        if v is None:
            # sizes equal through an in-place update of a copy
            g = irange(r, iv)
            if g and g.known and g.hi is not None and g.step == 1 and not g.extra:
                hi = noepoch(g.hi)
                if hi.op == "size" and self.norm(hi.a[0]) is self.norm(X):
                    d = diff(g.lo, INT(0))
                    if d is None:
                        return None, why
                    return d <= 0, "the first %d are left out" % d
                l = lin(hi)
                ss = [q for q in l[0] if q.op == "size" and self.norm(q.a[0]) is self.norm(X)]
                if len(l[0]) == 1 and ss and l[1] < 0:
                    return False, "the last %d are left out" % -l[1]
        return v, why

    def norm(self, t):
        """list with the same number of elements, before in-place updates"""
        for _ in range(8):
            if t.op == "upd":
                t = t.a[0]
                continue
            if t.op in ("lo", "lv"):
                r = self.rec(t.a[0])
                if r is None or t.a[1] not in r.init:
                    return t
                if all(self.samesize(noepoch(s.store.get(t.a[1], mk("lv", r.lid, t.a[1]))), r, t.a[1]) for k, s in r.paths):
                    t = noepoch(r.init[t.a[1]])
                    continue
            return t
        return t

    def samesize(self, v, r, h):
        while v.op == "upd":
            v = v.a[0]
        return v is noepoch(mk("lv", r.lid, h))


# ---- faces

def face(prog, ck, fn):
    """a simplex one vertex larger (or no simplex at all) has this face; others do not"""
    try:
        sts = Engine(prog, nomerge=True).run(fn)
    except (PathLimit, Undecided) as e:
        ck.und("face", I(fn), str(e), w(fn))
        return
    for s in sts:
        if s.status != "ret":
            continue
        S = prep(sts, fn, s)
        A, B = S.A, S.B
        emptyB = differ = None
        for a, b in s.atoms.items():
            n = noepoch(a)
            if n.op == "nz" and n.a[0].op == "size" and S.of(n.a[0].a[0]) == (0, 1, 0, 1):
                emptyB = not b
            if n.op == "==" and any(x.op == "size" and S.of(x.a[0]) == XOR for x in n.a):
                k = [cval(x) for x in n.a if cval(x) is not None]
                if k and k[0] == 1:
                    differ = bool(b)
                elif k:
                    differ = False if b else differ
                    if k[0] != 1 and not b and differ is None:
                        differ = "?"
            if n.op == "==" and b and {S.of(x) for x in n.a if isinstance(x, T)} == {(0, 0, 1, 1), (0, 1, 0, 1)}:
                differ = False
        r = strip(noepoch(s.ret))
        c = cval(r)
        if c is None:
            # returned as the comparison itself
            ck.und("face", I(fn), "returns %s" % show(r)[:80], w(fn))
            continue
        if emptyB:
            ck.ok("face", I(fn) + " empty simplex", "", w(fn))
        elif differ is True:
            ck.require(bool(c), "face", I(fn) + " face", "a simplex with one more vertex is not recognised as having the face", w(fn))
        elif differ is False and emptyB is False:
            ck.require(not c, "face", I(fn) + " other", "sets that do not differ in exactly one vertex are taken for face and simplex when %s" % fmt_guards(s.atoms, 3)[:140], w(fn))
        elif differ == "?" and emptyB is False:
            ck.require(not c, "face", I(fn) + " other", "sets that differ in another number of vertices than one are taken for face and simplex when %s" % fmt_guards(s.atoms, 3)[:140], w(fn)) if c else ck.und("face", I(fn), "guards not decided", w(fn))
        else:
            ck.und("face", I(fn), "guards %s" % fmt_guards(s.atoms, 3)[:120], w(fn))


def neighbours(prog, ck, fn):
    try:
        sts = Engine(prog, opaque=lambda f: f["short"] == "vectors_distance", nomerge=True).run(fn)
    except (PathLimit, Undecided) as e:
        ck.und("neighbours", I(fn), str(e), w(fn))
        return
    P, C = par(fn, 0), par(fn, 1)
    recs = [r for r, _, _ in loops_of(sts)]
    for s in sts:
        if s.status != "ret":
            continue
        t = noepoch(s.ret)
        if t.op == "map":
            ck.require(t.a[0] is noepoch(size(C)), "neighbours", "one per point", "not one distance per point: %s" % show(t.a[0])[:60], w(fn))
            check_dist(ck, fn, t.a[2], P, noepoch(at(C, t.a[1])))
            continue
        if t.op != "lo":
            ck.und("neighbours", I(fn), "result %s" % show(t)[:80], w(fn))
            continue
        rs = [r for r in recs if r.lid == t.a[0]]
        h = t.a[1]
        r = rs[0] if len(rs) == 1 else None
        if r is None or noepoch(r.init[h]).op not in ("empty",):
            ck.und("neighbours", I(fn), "loop shape", w(fn))
            continue
        vd = (None, "not a loop over the points")
        for iv in r.ivs:
            v, why = verdict(r, iv, INT(0), size(C))
            if v is None:
                v, why = verdict(r, iv, INT(0), noepoch(size(C)))
            if v is not None:
                vd = (v, why)
                break
        if early(r):
            vd = (None, "it may stop early")
        if vd[0] is None:
            ck.und("neighbours", I(fn), vd[1], w(fn))
            continue
        ck.require(vd[0], "neighbours", "one per point", "points are left out: " + vd[1], w(fn))
        cur = noepoch(mk("lv", r.lid, h))
        for k, ps in r.paths:
            v = noepoch(ps.store.get(h, mk("lv", r.lid, h)))
            if v is cur:
                ck.bad("neighbours", "one per point", "a point gets no distance, so later distances move to other points, when %s" % fmt_guards(ps.atoms, 3)[-120:], w(fn))
                continue
            if v.op != "push" or v.a[0] is not cur:
                ck.und("neighbours", I(fn), "adds %s" % show(v)[:80], w(fn))
                continue
            check_dist(ck, fn, v.a[1], P, noepoch(at(C, iv)))


def check_dist(ck, fn, d, P, q):
    d = noepoch(d)
    if d.op == "call" and "vectors_distance" in str(d.a[0]):
        args = [x for x in d.a if isinstance(x, T)]
        ok = any(x is P for x in args) and any(x is q for x in args)
        ck.require(ok, "neighbours", "distance", "the distance stored for a point is %s" % show(d)[:100], w(fn))
    elif cval(d) is not None:
        ck.bad("neighbours", "distance", "the distance stored for a point is %s" % show(d)[:60], w(fn))
    else:
        ck.und("neighbours", "distance", "stores %s" % show(d)[:80], w(fn))
