"""Nested lists as values: which stored list they hold, whether each row is ordered by weight, whether anything is missing."""
from .common import *
from .loops import *
from .trees import noepoch

WT = ("second", "weight")


def keyof(t, x):
    """t is the weight of element x"""
    return t.op == "fld" and t.a[1] in WT and t.a[0] is x or t.op == "init" and t.a[0].op == "L.fld" and t.a[0].a[1] in WT and (t.a[0].a[0] is x or t.a[0].a[0].op == "L.ref" and x.op == "init" and x.a[0] is t.a[0].a[0])


def cmporder(prog, c):
    """'asc' | 'desc' | 'other' | None for a comparator term"""
    if c is None:
        return "other"
    if c.op == "lam" and len(c.a) == 3:
        a, b, body = c.a
        return bodyorder([({}, body)], a, b)
    if c.op == "fn":
        f = prog.functions.get(c.a[0])
        if f is None or len(f["params"]) != 2:
            return None
        try:
            sts = Engine(prog).run(f)
        except (PathLimit, Undecided):
            return None
        ab = [mk("init", mk("L.ref", p["n"]), "") if p["m"] in ("ref", "cref") else mk("param", p["n"]) for p in f["params"]]
        return bodyorder([(s.atoms, s.ret) for s in sts if s.status == "ret"], *ab)
    if c.op in ("struct", "tmp", "new", "ctor") or c.op == "init":
        return None
    return None


def bodyorder(cs, a, b):
    flat = []

    def split(at_, t):
        if t.op == "ite":
            c = t.a[0]
            neg = False
            while c.op == "!":
                c, neg = c.a[0], not neg
            split(dict(at_, **{}) | {c: not neg}, t.a[1])
            split(dict(at_) | {c: neg}, t.a[2])
        elif t.op == "cases":
            flat.append((at_, t))
        else:
            flat.append((at_, t))
    for at_, t in cs:
        split(dict(at_), t)
    res = set()

    def lead(t):
        if t.op == "b2i":
            t = t.a[0]
        if t.op == "!":
            r = lead(t.a[0])
            return {"asc": "desc", "desc": "asc"}.get(r)     # not (a<b): includes ties
        if t.op == "||" and len(t.a) == 2:
            return lead(t.a[0])
        if t.op == "<":
            if keyof(t.a[0], a) and keyof(t.a[1], b):
                return "asc"
            if keyof(t.a[0], b) and keyof(t.a[1], a):
                return "desc"
            m = [[y for y in (a, b) if contains(x, lambda z: z is y) or y.op == "init" and contains(x, lambda z: z is y.a[0])] for x in t.a]
            if all(len(x) == 1 for x in m) and m[0] != m[1]:
                return "other"
        return None
    for at_, t in flat:
        asc = desc = None
        tie = False
        for x, v in at_.items():
            if x.op == "==" and v and any(keyof(x.a[0], p) and keyof(x.a[1], q) for p, q in ((a, b), (b, a))):
                tie = True
            if x.op == "<" and keyof(x.a[0], a) and keyof(x.a[1], b):
                asc = v
            if x.op == "<" and keyof(x.a[0], b) and keyof(x.a[1], a):
                desc = v
        if tie or asc is False and desc is False:
            continue
        if t is TRUE or cval(t) == 1:
            res.add("asc" if asc else ("desc" if desc else None))
        elif t is FALSE or cval(t) == 0:
            res.add("asc" if desc or asc is False else ("desc" if asc or desc is False else None))
        else:
            res.add(lead(t))
    if len(res) == 1:
        return res.pop()
    return None


class Rows:
    """src: stored list the value was made from; order: 'asc','src','desc','other',None; full: True/False/None; levels: 'all' or reason"""
    def __init__(self, src, order, full, why=""):
        self.src, self.order, self.full, self.why = src, order, full, why

    def __repr__(self):
        return "Rows(%s, %s, full=%s %s)" % (show(self.src)[:80] if self.src is not None else None, self.order, self.full, self.why)


def elems(t):
    return t


EMPTYROW = ("empty",)


def rowinfo(prog, t, recs, en):
    """a single row: (base row term, order, full, why)"""
    t = noepoch(t)
    if t.op == "sorted":
        b, o, f, y = rowinfo(prog, t.a[0], recs, en)
        if o in EMPTYROW:
            return b, o, f, y
        return b, cmporder(prog, t.a[1] if len(t.a) > 1 else None), f, y
    if t.op == "partsort":
        b, o, f, y = rowinfo(prog, t.a[0], recs, en)
        return b, "other", f, "only part of a row is sorted"
    if t.op == "reversed":
        b, o, f, y = rowinfo(prog, t.a[0], recs, en)
        return b, {"asc": "desc", "desc": "asc"}.get(o, None if o is None else "other"), f, "a row is reversed"
    if t.op == "lo":
        for r in recs:
            if r.lid == t.a[0] and t.a[1] in r.init:
                h = t.a[1]
                ini = noepoch(r.init[h])
                base0 = None
                if ini.op != "empty":
                    return None, None, None, "row starts as %s" % show(ini)[:80]
                cur = mk("lv", r.lid, h)
                base, full, why = None, True, ""
                if early(r):
                    full, why = False, "copying a row stops early"
                for kind, p in r.paths:
                    v = noepoch(en.read(p, h))
                    if v is cur:
                        if kind == "end":
                            full, why = False, "an entry is left out when %s" % fmt_guards(dict((a, b) for a, b in p.atoms.items() if a not in r.entry and a not in r.hdr[0]), 4)
                        continue
                    if v.op not in ("push", "ins") or noepoch(v.a[0]) is not cur:
                        return None, None, None, "row built by %s" % show(v)[:80]
                    src = None
                    for z in subterms(v.a[1]):
                        if z.op == "at" and z.a[1] in r.ivs:
                            src = z
                    if src is None:
                        return None, None, None, "row entry %s" % show(v.a[1])[:80]
                    src = noepoch(src)
                    if base is not None and base is not src:
                        return None, None, None, "two sources"
                    base = src
                    wv = weightof(v.a[1])
                    if wv is not None and not contains(wv, lambda z: z is src):
                        full, why = False, "an entry gets weight %s" % show(wv)[:80]
                if base is None:
                    return None, None, None, "nothing copied"
                vd = verdict(r, base.a[1], INT(0), size(base.a[0]), recs)
                if vd[0] is not True and full is True:
                    full, why = vd
                return noepoch(base.a[0]), "src", full, why
        return None, None, None, show(t)[:80]
    if t.op == "at" or t.op == "init":
        return t, "src", True, ""
    if t.op == "empty":
        return None, "empty", False, "the rows returned hold nothing"
    return None, None, None, show(t)[:80]


def weightof(el):
    if el.op == "pair":
        return el.a[1]
    if el.op == "struct":
        for i in range(1, len(el.a) - 1):
            if el.a[i] in WT:
                return el.a[i + 1]
    return None


def dimbound(r, iv, vd):
    """a loop over the dimensions that also stops at the largest one asked for: dimensions 0..maxDimension are stored"""
    g = irange(r, iv)
    if vd[0] is not None or g is None or not g.extra:
        return vd
    res = (True, "")
    for a, b in g.extra:
        if a.op != "<":
            return vd
        x, y = a.a
        md = [z for z in subterms(mk("+", x, y)) if z.op == "init" and fieldname(z) in ("maxDimension", "maxDim")]
        if len(set(md)) != 1:
            return vd
        # last index visited, relative to the largest dimension
        last = None
        i, m = (x, y) if b else (y, x)
        di, dm = diff(i, iv), diff(m, md[0])
        if di is not None and dm is not None:
            last = dm - di - (1 if b else 0)
        if last is None:
            return vd
        if last < 0:
            res = (False, "the simplices of dimension %s%+d up to the largest are left out" % (fieldname(md[0]), last + 1))
    if res[0] is True and irange(r, iv).step in (1, -1):
        return True, ""
    return res


def rows(prog, t, recs, en):
    t = noepoch(t)
    if t.op == "init":
        return Rows(t, "src", True)
    if t.op == "empty":
        return Rows(None, "asc", True, "empty")
    if t.op in ("push", "upd"):
        # a row placed directly
        r0 = rows(prog, t.a[0], recs, en)
        return r0 if t.op == "push" else Rows(r0.src, None, None, "single row replaced")
    if t.op == "lo":
        for r in recs:
            if r.lid != t.a[0] or t.a[1] not in r.init:
                continue
            h = t.a[1]
            ini = noepoch(r.init[h])
            cur = mk("lv", r.lid, h)
            inplace = ini.op == "init" or ini.op == "lo"
            src, orders, full, why = None, set(), True, ""
            first = 0
            if early(r):
                full, why = False, "the loop over the dimensions stops early"
            ivu = None
            for kind, p in r.paths:
                v = noepoch(en.read(p, h))
                if kind != "end" and v is cur:
                    continue
                if v is cur:
                    # a dimension passed over
                    emptyrow = any(not b and a.op == "nz" and a.a[0].op == "size" for a, b in p.atoms.items() if a not in r.entry) or any(b and a.op == "==" and any(cval(x) == 0 for x in a.a) for a, b in p.atoms.items() if a not in r.entry)
                    if not emptyrow:
                        if inplace:
                            orders.add("src")
                        else:
                            full, why = False, "a dimension is left out when %s" % fmt_guards(dict((a, b) for a, b in p.atoms.items() if a not in r.entry and a not in r.hdr[0]), 4)
                    continue
                if v.op == "upd" and noepoch(v.a[0]) is cur and v.a[1] in r.ivs:
                    b, o, f, y = rowinfo(prog, v.a[2], recs, en)
                    if o in EMPTYROW:
                        return Rows(None, "asc", False, y)
                    if b is None or b is not noepoch(at(cur, v.a[1])):
                        return Rows(None, None, None, y or "row %s" % show(b)[:80])
                    ivu = v.a[1]
                    src = ini
                    orders.add(o)
                    if f is not True and full is True:
                        full, why = f, y
                elif v.op == "push" and noepoch(v.a[0]) is cur:
                    b, o, f, y = rowinfo(prog, v.a[1], recs, en)
                    if o in EMPTYROW:
                        return Rows(None, "asc", False, y)
                    if b is None or b.op != "at" or b.a[1] not in r.ivs:
                        return Rows(None, None, None, y or "row %s" % show(b)[:80] if b is not None else y)
                    ivu = b.a[1]
                    if src is not None and src is not b.a[0]:
                        return Rows(None, None, None, "two sources")
                    src = b.a[0]
                    orders.add(o)
                    if f is not True and full is True:
                        full, why = f, y
                else:
                    return Rows(None, None, None, "rows built by %s" % show(v)[:100])
            if ivu is None:
                return Rows(ini, "src", True) if inplace else Rows(None, None, None, "no rows built")
            # vertices all have weight zero, so an in-place or appended range may leave out row 0
            lo = INT(0)
            seed = 0
            b0 = ini
            while b0.op == "push":
                seed += 1
                rb = rowinfo(prog, b0.a[1], recs, en)
                b0 = b0.a[0]
            n = size(cur if inplace else src)
            vd = dimbound(r, ivu, verdict(r, ivu, INT(seed), n, recs))
            if inplace and vd[0] is False:
                v2 = dimbound(r, ivu, verdict(r, ivu, INT(1), n, recs))
                vd = vd if v2[0] is False else v2
            if inplace and vd[0] is not True:
                o2 = "other" if vd[0] is False else None
                orders.add(o2)
                why = why or "sorting the dimensions: " + vd[1]
            elif vd[0] is not True and full is True:
                full, why = vd[0], "copying the dimensions: " + vd[1]
            # order of the source itself
            o = orders.pop() if len(orders) == 1 else (None if None in orders else "other")
            under = rows(prog, src, recs, en)
            if o == "src":
                o = under.order
            if under.full is not True and full is True:
                full, why = under.full, under.why
            return Rows(under.src if under.src is not None else src, o, full, why or under.why)
        return Rows(None, None, None, show(t)[:80])
    return Rows(None, None, None, show(t)[:100])
