"""Zones: difference bounds between indices and sizes, from the conditions of a path and the ranges of its loops."""
from .terms import *
from .loops import lin, addl, irange, bound

ZERO = "0"
INF = 10 ** 9


def sizes_kept(r, h):
    """how the size of container h changes per round of loop r: 0 kept, 1 never smaller, None unknown"""
    cur = mk("lv", r.lid, h)
    out = 0
    for kind, p in r.paths:
        v = p.store.get(h)
        if v is None or v is cur:
            continue
        d, k = addl(lin(size(v)), lin(size(cur)), -1)
        if d:
            lo = all(c > 0 and (x.op == "size") for x, c in d.items())
            if not lo or k < 0:
                return None
            out = 1
        elif k < 0:
            return None
        elif k > 0:
            out = 1
    return out


class Zone:
    """facts x - y <= k"""

    def __init__(self, atoms, recs, ctx=()):
        self.e = {}
        self.ne = []
        self.recs = recs
        self.done = set()
        for a, b in atoms.items():
            self.atom(a, b)
        for r in ctx:
            for iv in r.ivs:
                g = irange(r, iv)
                st, step = r.ivs[iv]
                self.terms(iv)
                if isinstance(step, (int, float)):
                    if step > 0:
                        self.le(lin(st), ({iv: 1}, 0))
                    elif step < 0:
                        self.le(({iv: 1}, 0), lin(st))
                if g is not None and g.hi is not None and step == 1 and self.inside(r, atoms):
                    self.le(({iv: 1}, 1), lin(g.hi))
        n = -1
        while n != len(self.done):
            n = len(self.done)
            for t in list(self.nodes()):
                if t is not ZERO and t not in self.done:
                    self.done.add(t)
                    self.about(t)

    def inside(self, r, atoms):
        return any(all(atoms.get(a) == b for a, b in alt.items()) for alt in r.hdr[:1]) if r.hdr else False

    def nodes(self):
        s = set()
        for x, y in self.e:
            s.add(x)
            s.add(y)
        return s

    def terms(self, t):
        self.e.setdefault((t, t), 0)

    def about(self, t):
        """what is known of a term by itself"""
        if t.op == "size":
            self.put(ZERO, t, 0)
            c = t.a[0]
            if c.op in ("lv", "lo"):
                for r in self.recs:
                    if r.lid == c.a[0] and c.a[1] in r.H and r.init.get(c.a[1]) is not None:
                        k = sizes_kept(r, c.a[1])
                        if k is not None:
                            i = lin(size(r.init[c.a[1]]))
                            self.le(i, ({t: 1}, 0))
                            if k == 0:
                                self.le(({t: 1}, 0), i)
                        break
            elif c.op in ("setof", "uniq"):
                self.le(({t: 1}, 0), lin(size(c.a[0])))
            elif c.op == "upd":
                pass
        elif t.op in ("lv", "lo"):
            for r in self.recs:
                if r.lid == t.a[0]:
                    iv = mk("lv", r.lid, t.a[1])
                    if iv in r.ivs:
                        st, step = r.ivs[iv]
                        if isinstance(step, (int, float)):
                            if step > 0:
                                self.le(lin(st), ({t: 1}, 0))
                            elif step < 0:
                                self.le(({t: 1}, 0), lin(st))
                    break
        elif t.op in ("param", "init") and False:
            pass

    def put(self, x, y, k):
        """x - y <= k"""
        if self.e.get((x, y), INF) > k:
            self.e[(x, y)] = k

    def le(self, a, b):
        """a <= b for linear forms"""
        d, k = addl(a, b, -1)
        pos = [x for x, c in d.items() if c == 1]
        neg = [x for x, c in d.items() if c == -1]
        if len(pos) + len(neg) != len(d) or len(pos) > 1 or len(neg) > 1 or not d:
            return
        self.put(pos[0] if pos else ZERO, neg[0] if neg else ZERO, -k)

    def atom(self, a, b):
        if a.op == "<":
            x, y = lin(a.a[0]), lin(a.a[1])
            if b:
                self.le((x[0], x[1] + 1), y)
            else:
                self.le(y, x)
        elif a.op == "==" and all(isinstance(z, T) for z in a.a):
            x, y = lin(a.a[0]), lin(a.a[1])
            if b:
                self.le(x, y)
                self.le(y, x)
            else:
                self.ne.append(addl(x, y, -1))
        elif a.op == "nz":
            x = lin(a.a[0])
            if not b:
                self.le(x, ({}, 0))
                self.le(({}, 0), x)
            elif a.a[0].op == "size":
                self.le(({}, 1), x)
            else:
                self.ne.append(x)

    def close(self):
        """all-pairs shortest bounds"""
        ns = list(self.nodes() | {ZERO})
        d = dict(self.e)
        for n in ns:
            d[(n, n)] = 0
        for k in ns:
            ks = [(j, d[(k, j)]) for j in ns if (k, j) in d]
            for i in ns:
                ik = d.get((i, k))
                if ik is None:
                    continue
                for j, kj in ks:
                    v = ik + kj
                    if v < d.get((i, j), INF):
                        d[(i, j)] = v
        self.d = d
        return self

    def upper(self, a, b):
        """least k with a - b <= k known (None: nothing known)"""
        f, k = addl(a, b, -1)
        pos = [x for x, c in f.items() if c == 1]
        neg = [x for x, c in f.items() if c == -1]
        if len(pos) + len(neg) != len(f) or len(pos) > 1 or len(neg) > 1:
            return None
        x, y = pos[0] if pos else ZERO, neg[0] if neg else ZERO
        if x is y:
            return k
        for t in (x, y):
            if t is not ZERO and t not in self.done:
                self.done.add(t)
                self.terms(t)
                n = len(self.e)
                self.about(t)
                for u in list(self.nodes()):
                    if u is not ZERO and u not in self.done:
                        self.done.add(u)
                        self.about(u)
                self.close()
        v = self.d.get((x, y))
        return None if v is None else v + k
