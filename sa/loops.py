"""Ranges of loops and sums, as linear facts about induction variables."""
from .terms import *


def lin(t):
    """linear normal form: ({term: coefficient}, constant)"""
    if t.op == "+":
        a, b = lin(t.a[0]), lin(t.a[1])
        return addl(a, b, 1)
    if t.op == "-" and len(t.a) == 2:
        return addl(lin(t.a[0]), lin(t.a[1]), -1)
    if t.op == "-" and len(t.a) == 1:
        return addl(({}, 0), lin(t.a[0]), -1)
    if t.op == "*":
        for i in (0, 1):
            c = cval(t.a[i])
            if c is not None:
                d, k = lin(t.a[1 - i])
                return {x: c * y for x, y in d.items() if c * y}, c * k
    if t.op == "b2i" or t.op == "cast" or t.op == "i2d":
        return lin(t.a[-1]) if isinstance(t.a[-1], T) else ({t: 1}, 0)
    c = cval(t)
    if c is not None:
        return {}, c
    return {t: 1}, 0


def addl(a, b, s):
    d = dict(a[0])
    for x, y in b[0].items():
        d[x] = d.get(x, 0) + s * y
        if not d[x]:
            del d[x]
    return d, a[1] + s * b[1]


def diff(a, b):
    """a-b when it is a constant, else None"""
    d, k = addl(lin(a), lin(b), -1)
    return k if not d else None


def unlin(l):
    d, k = l
    t = None
    for x, c in sorted(d.items(), key=lambda p: p[0].uid):
        y = x if c == 1 else mul(x, REAL(c))
        t = y if t is None else add(t, y)
    if t is None:
        return REAL(k)
    return add(t, REAL(k)) if k else t


class Range:
    """values lo..hi-1 visited by an induction variable (terms or None), header conditions not about it"""
    def __init__(self, lo, hi, step, extra, known):
        self.lo, self.hi, self.step, self.extra, self.known = lo, hi, step, extra, known

    def __repr__(self):
        return "[%s..%s) step %s%s" % (show(self.lo) if self.lo is not None else "?", show(self.hi) if self.hi is not None else "?", self.step, " if ..." if self.extra else "")


def bound(iv, a, b):
    """(kind, term): fact about iv in atom a with truth b. kinds: ub (iv<term), lb (iv>=term), ne"""
    if a.op == "<":
        l = addl(lin(a.a[0]), lin(a.a[1]), -1)
    elif a.op in ("==", "nz"):
        l = addl(lin(a.a[0]), lin(a.a[1]) if a.op == "==" else ({}, 0), -1)
    else:
        return None
    c = l[0].get(iv)
    if c not in (1, -1):
        return None
    rest = ({x: y for x, y in l[0].items() if x is not iv}, l[1])
    if a.op in ("==", "nz"):
        if b:
            return None
        return "ne", unlin(addl(({}, 0), rest, -c))
    if c == 1:
        # iv + rest < 0  : iv < -rest ; not: iv >= -rest
        return ("ub" if b else "lb"), unlin(addl(({}, 0), rest, -1))
    # -iv + rest < 0 : iv > rest ; not: iv <= rest
    return ("lb", unlin(addl(rest, ({}, 1), 1))) if b else ("ub", unlin(addl(rest, ({}, 1), 1)))


def irange(r, iv):
    if iv not in r.ivs:
        return None
    start, step = r.ivs[iv]
    ub = lb = ne = None
    extra, known = [], True
    for alt in r.hdr[:1]:
        for a, b in alt.items():
            k = bound(iv, a, b)
            if k is None:
                extra.append((a, b))
            elif k[0] == "ub":
                ub = k[1] if ub is None else (extra.append((a, b)) or ub)
            elif k[0] == "lb":
                lb = k[1] if lb is None else (extra.append((a, b)) or lb)
            else:
                ne = k[1]
    if len(r.hdr) != 1:
        known = False
    if r.kind == "do":
        known = False
    if step == 1:
        return Range(start, ub if ub is not None else ne, 1, extra, known)
    if step == -1:
        lo = lb if lb is not None else (add(ne, INT(1)) if ne is not None else None)
        return Range(lo, add(start, INT(1)), -1, extra, known)
    return Range(start, ub if ub is not None else ne, step, extra, known)


def early(r):
    """ways a loop may stop before its header says so"""
    return [(k, s) for k, s in r.paths if k != "end"]


def outer_value(t, recs):
    """t with the values of enclosing/earlier loops' containers replaced by what they were before the loop (sizes only differ if the loop grows them)"""
    m = {}
    for r in recs:
        for h in r.H:
            if mk("lv", r.lid, h) in r.ivs:
                continue
            m[mk("lv", r.lid, h)] = r.init[h]
            m[mk("lo", r.lid, h)] = r.init[h]
    for _ in range(6):
        n = subst(t, m)
        if n is t:
            break
        t = n
    return t


def verdict(r, iv, lo, hi, strip=()):
    """does the loop visit exactly lo..hi-1?  (True, '') | (False, why) | (None, why)"""
    g = irange(r, iv)
    if g is None:
        return None, "%s is not a counted loop variable" % show(iv)
    if not g.known or g.lo is None or g.hi is None or g.step is None:
        return None, "loop shape not decided"
    if g.step not in (1, -1):
        return False, "it advances by %s and skips elements" % g.step
    ol = lambda t: outer_value(t, strip)
    dl, dh = diff(ol(g.lo), ol(lo)), diff(ol(g.hi), ol(hi))
    if dl is None or dh is None:
        return None, "bounds %r not comparable with [%s, %s)" % (g, show(lo), show(hi))
    if dl > 0:
        return False, "it starts at %s, leaving out the first %d of %s.." % (show(g.lo), dl, show(lo))
    if dh < 0:
        return False, "it stops before %s, leaving out the last %d up to %s" % (show(g.hi), -dh, show(hi))
    if (dl < 0 or dh > 0) and any(a.op in ("<", "==") and any(contains_lin(x, iv) for x in a.a) and not any(a in alt for alt in r.hdr) for _, s in r.paths for a in s.atoms):
        return None, "the loop runs beyond the range, but tells its rounds apart"
    if dl < 0:
        return False, "it starts %d before %s" % (-dl, show(lo))
    if dh > 0:
        return False, "it runs %d past %s" % (dh, show(hi))
    for a, b in g.extra:
        if a.op == "<" and cval(ol(hi)) is None:
            i, k = a.a if b else (a.a[1], a.a[0])
            d = diff(i, iv)
            if d is not None and cval(k) is not None:
                return False, "it also stops at %s, however long the range is" % show(k)
    if g.extra:
        return None, "additional loop condition %s" % "; ".join(("" if b else "not ") + show(a) for a, b in g.extra)
    return True, ""


def contains_lin(t, iv):
    """is iv itself, not an element chosen by it, part of the sum t?"""
    return t is iv or t.op in ("+", "-", "*") and any(contains_lin(x, iv) for x in t.a if hasattr(x, "op"))


def loops_of(sts):
    """every loop record of a run, with its enclosing records and the state whose event list holds it"""
    seen = {}

    def go(evs, ctx, owner):
        for e in evs:
            if e.k == "loop":
                r = e.rec
                if id(r) not in seen:
                    seen[id(r)] = (r, ctx, owner)
                    for k, s in r.paths:
                        go(s.ev, ctx + (r,), s)
    for s in sts:
        go(s.ev, (), s)
    return list(seen.values())


def sumform(t, recs):
    """(count, binder, body) of a value that is the sum over i of body(i), from 0; None when not of that form"""
    if t.op == "sum" and len(t.a) == 2 and cval(t.a[1]) == 0:
        c = t.a[0]
        if c.op == "map":
            return c.a[0], c.a[1], c.a[2]
        b = mk("bind", "s")
        return size(c), b, at(c, b)
    if t.op == "lo":
        for r in recs:
            if r.lid != t.a[0]:
                continue
            h = t.a[1]
            if h not in r.init or cval(r.init[h]) != 0 or early(r):
                return None
            cur = mk("lv", r.lid, h)
            vals = set()
            for k, s in r.paths:
                v = s.store.get(h)
                vals.add(v)
            if len(vals) != 1:
                return None
            v = vals.pop()
            if v is None:
                return None
            d = addl(lin(v), ({cur: 1}, 0), -1)
            if cur in d[0]:
                return None
            body = unlin(d)
            for iv in r.ivs:
                g = irange(r, iv)
                if g and g.known and g.step == 1 and cval(g.lo) == 0 and g.hi is not None and not g.extra:
                    return g.hi, iv, body
    return None


def fixedlimit(r):
    """text when the loop runs over a range of unknown length but never past a fixed position, else ''"""
    if len(r.hdr) != 1:
        return ""
    for h in r.H:
        iv = mk("lv", r.lid, h)
        ub = [u[1] for u in (bound(iv, a, b) for a, b in r.hdr[0].items()) if u and u[0] == "ub"]
        k = [u for u in ub if cval(u) is not None]
        if k and any(contains(u, lambda x: x.op == "size") for u in ub):
            return "not past position %s" % show(k[0])
    return ""


def cutoff(r):
    """text when the loop may be left early merely because a count reached a fixed number, else ''"""
    if fixedlimit(r):
        return fixedlimit(r)
    for k, s in early(r):
        if k not in ("brk", "ret"):
            continue
        own = [(a, b) for a, b in s.atoms.items() if contains(a, lambda x: x.op == "lv" and x.a[0] == r.lid) and not any(a in alt for alt in r.hdr)]
        if not own:
            continue

        def counting(a):
            if a.op not in ("<", "=="):
                return False
            xs = [lin(x) for x in a.a]
            d, c = addl(xs[0], xs[1], -1)
            # distance from where the loop started
            starts = {y for x in d if x in r.ivs for y in lin(r.ivs[x][0])[0] if y.op == "lv"} if any(x in r.ivs for x in d) else set()
            d = {x: n for x, n in d.items() if x not in starts}
            return len(d) == 1 and abs(c) >= 2 and all((x.op == "size" and x.a[0].op == "lv" and x.a[0].a[0] == r.lid) or x in r.ivs for x in d)
        if all(counting(a) for a, b in own):
            return "; ".join(("" if b else "not ") + show(a) for a, b in own)
    return ""


def same_iv(recs):
    """substitution that writes counters of one loop that move together in terms of one of them"""
    m = {}
    for r in recs:
        ivs = sorted(r.ivs, key=lambda x: x.uid)
        for n, x in enumerate(ivs):
            for y in ivs[:n]:
                if y in m or r.ivs[x][1] != r.ivs[y][1]:
                    continue
                d = diff(r.ivs[x][0], r.ivs[y][0])
                if d is not None:
                    m[x] = add(y, INT(d)) if d else y
                    break
    return m


def atleast(A, l):
    """one of the conditions A says that the linear form l (of lin/addl) is not negative"""
    d, k = l
    if not d:
        return k >= 0
    for a, b in A.items():
        if a.op == "<":
            x, c = addl(lin(a.a[0]), lin(a.a[1]), -1)
            f = ({t: -v for t, v in x.items()}, -c - 1) if b else (x, c)
        elif a.op == "nz" and b and a.a[0].op in ("size", "b2i"):
            f = ({a.a[0]: 1}, -1)
        elif a.op == "==" and b:
            x, c = addl(lin(a.a[0]), lin(a.a[1]), -1)
            if x == d and k >= c or {t: -v for t, v in x.items()} == d and k >= -c:
                return True
            continue
        else:
            continue
        if f[0] == d and k >= f[1]:
            return True
    return False


def feeds(t, all_recs):
    """every term the value of t may be made from: its parts, and what the loops store in what it names"""
    out, work = set(), [t]
    by = {}
    for x in all_recs:
        r = x[0] if isinstance(x, tuple) else x
        by.setdefault(r.lid, []).append(r)
    while work:
        x = work.pop()
        if x is None or x in out:
            continue
        for y in subterms(x):
            if y in out:
                continue
            out.add(y)
            if y.op in ("lo", "lv"):
                for r in by.get(y.a[0], []):
                    work.append(r.init.get(y.a[1]))
                    for k, s in r.paths:
                        work.append(s.store.get(y.a[1]))
    return out
