"""C09 the reported intervals: three fields, births and deaths that are weights of simplices of the right dimension, text and table agree."""
from ..common import *
from ..loops import *
from ..trees import noepoch
from ..report import Check

TITLE = "intervals reported by the persistence stages"
OPQ = {"setIntersect", "setUnion", "symmetricDiff", "createBoundaryMatrix", "getRankNull", "createBoundarySets", "nSimplices", "checkFace"}


def w(fn, l=None):
    return "%s:%d (%s)" % (fn["file"], l or fn["l"], fn["name"])


def base_name(t):
    return t.a[2] if t.op == "L.var" else t.a[1] if t.op == "L.fld" else show(t)


def pieces(v):
    """(base, appended pieces) of a text value"""
    v = noepoch(v)
    if v.op != "cat":
        return v, []
    xs = list(v.a)
    if xs[0].op in ("lv", "lo", "init"):
        return xs[0], xs[1:]
    return STR(""), xs


def split(ps):
    """pieces -> (complete rows as lists of fields, leftover)"""
    rows, fields, cur = [], [], []
    for p in ps:
        if p.op == "str":
            for ch in p.a[0]:
                if ch == ",":
                    fields.append(cur)
                    cur = []
                elif ch == "\n":
                    fields.append(cur)
                    rows.append(fields)
                    fields, cur = [], []
                else:
                    cur = cur + [ch]
        else:
            cur = cur + [p]
    return rows, bool(fields or cur)


def fieldval(f):
    """value of a text field"""
    if f and all(isinstance(x, str) for x in f):
        s = "".join(f)
        try:
            return INT(int(s))
        except ValueError:
            try:
                return REAL(float(s))
            except ValueError:
                return STR(s)
    if len(f) == 1 and isinstance(f[0], T) and f[0].op in ("tostr", "fmt"):
        return noepoch(f[0].a[0])
    return None


def chain(v):
    """push chain of a list value: (base, [values])"""
    out = []
    while v.op in ("push", "ins") and len(v.a) >= 2:
        out.append(v.a[1])
        v = v.a[0]
    return v, out[::-1]


def aggv(x):
    """(dim, birth, death) of a table entry"""
    if x.op in ("agg", "struct"):
        d = {}
        a = x.a if x.op == "agg" else x.a[1:]
        for i in range(0, len(a) - 1, 2):
            d[a[i]] = a[i + 1]
        if all(k in d for k in ("bettiDim", "birth", "death")):
            return tuple(noepoch(d[k]) for k in ("bettiDim", "birth", "death"))
    try:
        r = tuple(noepoch(getf(x, k)) for k in ("bettiDim", "birth", "death"))
        return r
    except Exception:
        return None


def same(a, b):
    if a is b:
        return True
    if a is None or b is None:
        return False
    x, y = cval(a), cval(b)
    if x is not None and y is not None:
        return x == y
    if strip(a) is strip(b):
        return True
    return diff(a, b) == 0


def strip(t):
    while t.op in ("cast", "i2d", "b2i"):
        t = t.a[-1]
    return t


def weight(t):
    """(list of rows, dimension, index) when t is the weight of an element of a list of simplices per dimension"""
    t = strip(t)
    if t.op == "fld" and t.a[1] in ("second", "weight") and t.a[0].op == "at" and t.a[0].a[0].op == "at":
        r = t.a[0].a[0]
        return r.a[0], r.a[1], t.a[0].a[1]
    return None


def req(ck, rule, inst, cond, text, where):
    if cond is None:
        ck.und(rule, inst, text or "not decided", where)
    else:
        ck.require(cond, rule, inst, text, where)


def returned(s):
    """the text in the packet a stage returns (when a helper built it)"""
    try:
        v = getf(s.ret, "bettiOutput")
    except Exception:
        return []
    return [] if v is None or v.op == "fld" else [(mk("L.fld", mk("L.val", s.ret), "bettiOutput"), v)]


class Out:
    """the text a stage reports: its variable and everything appended to it"""

    def __init__(self, prog, fn, sts):
        self.fn, self.sts = fn, sts
        self.recs = [(r, ctx, ow) for r, ctx, ow in loops_of(sts)]
        self.byid = {}
        for r, ctx, ow in self.recs:
            self.byid.setdefault(r.lid, []).append((r, ctx, ow))
        self.vars, self.consts, self.unk = set(), set(), []
        self.lead, self.seen = [], set()
        self.final = []
        for s in sts:
            if s.status != "ret":
                continue
            for k, v in [(k, v) for k, v in s.store.items() if k.op == "L.fld" and k.a[1] == "bettiOutput"] or returned(s):
                b, p = pieces(v)
                self.final.append((s, k, b, p))
                self.trace(b)

    def trace(self, b):
        if b.op in ("lv", "lo"):
            h = b.a[1]
            if (b.a[0], h) in self.seen:
                return
            self.seen.add((b.a[0], h))
            self.vars.add(h)
            for r, _, _ in self.byid.get(b.a[0], []):
                if h in r.init:
                    b0, p0 = pieces(r.init[h])
                    self.lead.append((r, [b0] + p0 if b0.op == "str" else p0))
                    self.trace(b0)
        elif b.op == "str" and b.a[0] == "":
            pass
        else:
            self.unk.append(b)


def run(prog, ck):
    n = 0
    for fn in sorted(prog.functions.values(), key=lambda f: f["name"]):
        if fn["short"] != "runPipe" or not fn.get("cls"):
            continue
        if not writes_output(prog, fn):
            continue
        stage(prog, ck, fn)
        n += 1
    ck.count("stages that report intervals", n)
    ck.expect("row", 6)
    ck.expect("meaning", 8)
    ck.expect("table", 4)
    ck.expect("records", 3)
    ck.expect("components", 5)
    ck.expect("columns", 9)


def writes_output(prog, fn):
    """does the function, or a helper it calls in its class or file, report intervals?"""
    import json
    seen, todo = set(), [fn["key"]]
    while todo:
        k = todo.pop()
        f = prog.functions.get(k)
        if k in seen or f is None or not f.get("body"):
            continue
        seen.add(k)
        if f is not fn and f["cls"] != fn["cls"] and f["file"] != fn["file"]:
            continue
        if '"bettiOutput"' in json.dumps(f["body"]):
            return True
        any_node(f["body"], lambda x: isinstance(x.get("f"), dict) and x["f"].get("repo") and todo.append(x["f"]["key"]) and False)
    return False


def stage(prog, ck, fn):
    try:
        en = Engine(prog, opaque=lambda f: f["short"] in OPQ, nomerge=True)
        try:
            sts = en.run(fn)
        except PathLimit:
            en = Engine(prog, opaque=lambda f: f["short"] in OPQ)
            sts = en.run(fn)
    except (PathLimit, Undecided) as e:
        ck.und("row", fn["cls"], str(e), w(fn))
        return
    out = Out(prog, fn, sts)
    if not out.vars and not any(p for _, _, _, p in out.final):
        return
    rows = textrows(ck, fn, out)
    outputs(ck, fn, out)
    meanings(prog, ck, fn, en, out, rows)
    if any(k.op == "L.fld" and k.a[1] == "bettiTable" and chain(noepoch(v))[1] for r, _, _ in out.recs for _, s in r.paths for k, v in s.store.items()):
        table(ck, fn, en, out)
    records(ck, fn, out)
    components(prog, ck, fn, en, out)
    columns(prog, ck, fn, en, out)


# ---- the per-simplex table

def entryfields(x):
    if x.op not in ("struct", "agg"):
        return {}
    a = x.a[1:] if x.op == "struct" else x.a
    return {a[i]: a[i + 1] for i in range(0, len(a) - 1, 2)}


def entrywrites(v):
    """(base, entries added, [(index, fields)] changed) of a table of births and deaths"""
    new, upd_ = [], []
    while v.op in ("push", "ins", "upd", "touch"):
        if v.op in ("push", "ins"):
            new.append(v.a[1])
        elif v.op == "upd" and len(v.a) >= 3:
            upd_.append((v.a[1], v.a[2]))
        v = v.a[0]
    return v, new[::-1], upd_[::-1]


def istable(x):
    d = entryfields(x)
    return "birth" in d and "marked" in d


def records(ck, fn, out):
    """each simplex has one entry, with its own simplex and weight"""
    tabs, fills, grown = set(), [], set()
    for r, ctx, ow in out.recs:
        for k, s in r.paths:
            for h in r.H:
                v = s.store.get(h)
                if v is None or v.op not in ("push", "ins", "upd", "touch"):
                    continue
                b, new, ups = entrywrites(noepoch(v))
                if any(istable(x) for x in new) or any(istable(x) for _, x in ups):
                    tabs.add(h)
                    if new:
                        grown.add(h)
                    fills.append((r, ctx, k, s, h, b, new, ups))
    seen = {}
    for r, ctx, k, s, h, b, new, ups in fills:
        inst = "%s:%d" % (fn["cls"], r.l)
        if h not in grown and h.op == "L.fld" and not any(h in t.store and t.store[h].op not in ("lo", "lv", "upd", "touch", "init") for t in out.sts):
            seen[inst] = "entries of births and deaths are changed but never added"
            continue
        if not new and not any(h in q.H and q.lid == r.lid and n2 for q, _, _, _, h2, _, n2, _ in fills if h2 is h):
            continue
        if h not in grown:
            continue
        if len(new) != 1 and k in ("end", "brk"):
            seen.setdefault(inst, "one simplex adds %d entries when %s" % (len(new), fmt_guards(s.atoms, 3)[-200:]))
            continue
        if len(new) != 1:
            continue
        own = [x for i, x in ups if i in r.ivs or any(z.op == "size" for z in subterms(i)) and not contains(i, lambda z: z.op == "lo")]
        if not own and any(i not in r.ivs for i, x in ups):
            continue
        e = entryfields(own[-1] if own else new[0])
        e0 = entryfields(new[0])
        f = lambda n: e.get(n, e0.get(n))
        sx, bi, ma = f("simplex"), f("birth"), f("marked")
        seen.setdefault(inst, None)
        if sx is None or bi is None or ma is None:
            continue
        if sx.op == "empty":
            seen[inst] = "an entry holds no simplex when %s" % fmt_guards(s.atoms, 3)[-200:]
            continue
        q = setroot(sx)
        m = cval(ma)
        if m is None and ma is not None and ma.op in ("bool", "true", "false"):
            m = ma.op != "false"
        if m is None and show(ma) in ("True", "False"):
            m = show(ma) == "True"
        if q is None or not m:
            continue
        if cval(bi) is not None:
            seen[inst] = "an interval may be born here, but its birth is recorded as %s when %s" % (show(bi), fmt_guards(s.atoms, 3)[-200:])
            continue
        d = setroot(bi)
        if d is not None and counterpart(r, d[1], q[1]) is False:
            seen[inst] = "the birth recorded is the weight of another simplex"
            continue
        if d is not None and counterpart(r, d[1], q[1]):
            ok, why = side(out, q[0], d[0])
            if ok is False:
                seen[inst] = why
    for i, why in seen.items():
        req(ck, "records", i, why is None, why or "", w(fn))
    for r, ctx, ow in out.recs:
        if ctx and any(h in tabs for h in ctx[-1].H):
            search(ck, fn, out, r, tabs)


def dimof(t):
    """index of the per-simplex arrays whose simplex t is"""
    if t.op == "fld" and t.a[1] == "simplex":
        t = t.a[0]
    q = setroot(t)
    return q[1] if q else None


def search(ck, fn, out, r, tabs):
    """the simplex whose interval is closed: born earlier, one dimension lower, on the boundary"""
    bad, hit = None, False
    for k, p in r.paths:
        if k != "brk":
            continue
        born = openly = differ = common = None
        edge = False
        about = False
        for a, b in p.atoms.items():
            a = noepoch(a)
            if a.op == "nz" and a.a[0].op == "fld" and a.a[0].a[1] == "marked" and setroot(a.a[0].a[0]) and setroot(a.a[0].a[0])[1] in r.ivs:
                born = b
                about = True
            if a.op in ("<", "==") and any(x.op == "fld" and x.a[1] == "death" and setroot(x.a[0]) and setroot(x.a[0])[1] in r.ivs for x in a.a if isinstance(x, T)):
                openly = b
                about = True
            if a.op == "==":
                x, y = a.a
                for x, y in ((x, y), (y, x)):
                    if x.op == "size" and y.op == "size" and dimof(x.a[0]) is not None and dimof(y.a[0]) is not None and dimof(x.a[0]) in r.ivs and dimof(y.a[0]) is not dimof(x.a[0]):
                        differ = not b
                    if x.op == "size" and dimof(x.a[0]) is not None and dimof(x.a[0]) not in r.ivs and cval(y) == 2 and b:
                        edge = True
                    if x.op == "size" and inter(x.a[0]) and b:
                        u, v = inter(x.a[0])
                        iu, iv = dimof(u), dimof(v)
                        if iu is None or iv is None:
                            common = None
                            continue
                        cur = u if iu not in r.ivs else v
                        d = None
                        for z in (mk("size", cur),) + tuple(z for z in subterms(y) if z.op == "size" and dimof(z.a[0]) is dimof(cur)):
                            d = diff(y, z) if d is None else d
                        common = d
        if not about:
            continue
        # a relation of the sizes stated in another way
        other = any(a.op in ("==", "<") and sum(1 for z in subterms(noepoch(a)) if z.op == "size") >= 2 and not (a.op == "==" and any(inter(z) for z in subterms(noepoch(a)))) and not (noepoch(a).op == "==" and all(x.op == "size" for x in noepoch(a).a)) for a in p.atoms if a not in r.entry)
        hit = True
        if born is False or born is None:
            bad = "an interval may be closed whose simplex bears none"
        elif differ is False or differ is None and not other:
            bad = "an interval may be closed by a simplex of the same dimension"
        elif common is not None and common != -1:
            bad = "an interval may be closed by a simplex that shares k%+d of its k vertices with it" % common
        elif common is None and not edge and not other and not any(inter(z) for a in p.atoms for z in subterms(noepoch(a))):
            bad = "an interval may be closed by a simplex it is not a face of"
    if hit:
        req(ck, "records", "%s:%d" % (fn["cls"], r.l), bad is None, bad or "", w(fn, r.l))


# ---- text form

def textrows(ck, fn, out):
    """[(rec or None, ctx, state, fields...)]"""
    found = {}
    seen = set()

    def add(rec, ctx, st, h, base, ps, l):
        if base.op in ("lv", "lo") and base.a[1] is not h:
            ck.und("row", "%s:%s" % (fn["cls"], l), "text continued from another variable", w(fn, l))
        rows, left = split(ps)
        key = (rec.lid if rec else "", tuple(tuple(tuple(x if isinstance(x, str) else id(x) for x in f) for f in r) for r in rows), left)
        if key not in seen:
            seen.add(key)
            inst = "%s:%s#%d" % (fn["cls"], l, len([k for k in seen if k[0] == key[0]]))
            if left:
                ck.und("row", inst, "a row is completed elsewhere", w(fn, l))
            for r in rows:
                req(ck, "row", inst, len(r) == 3 and all(fieldval(f) is not None and fieldval(f).op != "str" for f in r) if all(r) else False,
                           "a row of the interval text has the fields [%s] instead of dimension, birth, death" % " | ".join("".join(x if isinstance(x, str) else show(x)[-60:] for x in f) for f in r), w(fn, l))
        for r in rows:
            if len(r) == 3:
                found.setdefault(id(st), []).append((rec, ctx, st, [fieldval(f) for f in r]))
    for r, ctx, ow in out.recs:
        for kind, s in r.paths:
            for h in out.vars:
                if h not in r.H:
                    continue
                v = s.store.get(h)
                if v is None:
                    continue
                b, ps = pieces(v)
                if b.op == "str" and r.init.get(h) is not None and not (b.op == "str" and b.a[0] == "" and declared_inside(r, h)):
                    ck.bad("row", "%s:%d" % (fn["cls"], r.l), "the interval text collected so far is replaced when %s" % fmt_guards(s.atoms, 3), w(fn, r.l))
                    continue
                add(r, ctx + (r,), s, h, b, ps, r.l)
    for r, ps in out.lead:
        for f in split(ps)[0]:
            if len(f) != 3 or not all(f) or any((fieldval(x) or STR("")).op == "str" and fieldval(x) is not None for x in f):
                ck.bad("row", "%s:%s" % (fn["cls"], r.l), "the interval text starts with the row [%s]; the file's header is added by its writer" % " | ".join("".join(x if isinstance(x, str) else show(x)[-60:] for x in g) for g in f), "%s:%s" % (r.file, r.l))
    for s, k, b, ps in out.final:
        if ps:
            add(None, (), s, b.a[1] if b.op in ("lv", "lo") else k, b, ps, fn["l"])
    return [x for v in found.values() for x in v]


def declared_inside(r, h):
    return h not in r.init


def outputs(ck, fn, out):
    """on every return the stage reports the text it collected"""
    bad = None
    for s in out.sts:
        if s.status != "ret":
            continue
        mine = [(k, b, p) for s2, k, b, p in out.final if s2 is s]
        last = [e.rec for e in s.ev if e.k == "loop" and any(h in e.rec.H for h in out.vars)]
        if last and not mine:
            bad = "the collected intervals are not reported when %s" % fmt_guards(s.atoms, 3)
        elif last:
            k, b, p = mine[-1]
            if b.op == "lo" and b.a[1] in out.vars:
                l2 = [r for r in last if b.a[1] in r.H]
                if l2 and l2[-1].lid != b.a[0]:
                    bad = "intervals collected after %s are not reported" % b.a[0]
            elif b.op == "str":
                bad = "the reported text is not the collected one when %s" % fmt_guards(s.atoms, 3)
    req(ck, "reported", fn["cls"], bad is None, bad or "", w(fn))


# ---- what the fields are

def setroot(t):
    """(array name, index) for an entry of one of the parallel per-simplex arrays"""
    t = strip(t)
    if t.op != "at":
        return None
    a = t.a[0]
    while a.op in ("upd", "push", "touch"):
        a = a.a[0]
    if a.op in ("lv", "lo"):
        return a.a[1], t.a[1]
    if a.op == "init":
        return a.a[0], t.a[1]
    return None


def counterpart(r, X, hash_):
    """X is a counter that moves with the element visited by a loop over a container"""
    if X is hash_:
        return True
    if X in r.ivs and hash_ in r.ivs and X.op == "lv" and X.a[0] == r.lid:
        a, b = r.ivs[X], r.ivs[hash_]
        return a[1] == b[1] and diff(a[0], b[0]) == 0
    if X.op == "lv" and X.a[0] == r.lid and X not in r.ivs:
        return False
    return None


def overloop(ctx, cont):
    """loop of ctx (innermost first) visiting cont, with its induction variable"""
    for r in reversed(ctx):
        for iv in r.ivs:
            g = irange(r, iv)
            if g and g.known and g.hi is not None and noepoch(g.hi) is noepoch(size(cont)):
                return r, iv
    return None


def meanings(prog, ck, fn, en, out, rows):
    eps = {noepoch(mk("init", mk("L.fld", THISP, "maxEpsilon"), ""))}
    done = {}
    for rec, ctx, st, (lab, birth, death) in rows:
        if lab is None or birth is None or death is None:
            continue
        l = rec.l if rec else fn["l"]
        inst = "%s:%d" % (fn["cls"], l)
        ok, why = meaning(prog, fn, out, rec, ctx, st, lab, birth, death, eps)
        key = (inst, show(lab), show(birth), show(death))
        if key in done and (done[key] is False or ok is not False):
            continue
        done[key] = ok
        if ok is not False:
            part = partial(ctx, lab, (birth, death))
            if part:
                ok, why = False, part
        if ok is True:
            ck.ok("meaning", inst)
        elif ok is False:
            ck.bad("meaning", inst, why, w(fn, l))
        else:
            ck.und("meaning", inst, why, w(fn, l))


def partial(ctx, lab, ends):
    """a loop around the row leaves out entries of the list the row is about"""
    for r in ctx:
        if fixedlimit(r):
            return "intervals are looked for only in part of the entries: %s" % fixedlimit(r)
        for iv in r.ivs:
            g = irange(r, iv)
            if g is None or not g.known or g.lo is None or g.hi is None or diff(lab, iv) is not None:
                continue
            if not any(z.op == "at" and z.a[1] is iv for t in ends for z in subterms(t)):
                continue
            ln = lin(g.hi)
            if len(ln[0]) == 1 and list(ln[0].values()) == [1] and list(ln[0])[0].op == "size":
                if ln[1] < 0:
                    return "intervals of the last %d entries are not looked for" % -ln[1]
                lo = cval(g.lo)
                if lo is not None and lo > 0:
                    return "intervals of the first %d entries are not looked for" % lo
    return ""


def meaning(prog, fn, out, rec, ctx, st, lab, birth, death, eps):
    lastdeath = strip(death) in eps
    L = cval(lab)
    wb, wd = weight(birth), weight(death)
    # rows of the spanning forest
    if L is not None and cval(birth) is not None:
        if L != 0:
            return False, "an interval of dimension %d is said to be born at the constant %s" % (L, cval(birth))
        if cval(birth) != 0:
            return False, "a component is said to be born at %s, vertices have weight 0" % cval(birth)
        if lastdeath:
            return True, ""
        if wd:
            c = cval(wd[1])
            if c is None:
                return None, "death %s" % show(death)[-100:]
            return (True, "") if c == 1 else (False, "a component dies at the weight of a simplex of dimension %s instead of an edge" % c)
        ds = deferred(out, death)
        if ds is None:
            return None, "death %s" % show(death)[-100:]
        for d in ds:
            x = weight(d)
            if x is None:
                if strip(d) in eps:
                    continue
                return (False, "a component dies at %s" % show(d)[-120:]) if cval(d) is not None else (None, "death %s" % show(d)[-100:])
            if cval(x[1]) is not None and cval(x[1]) != 1:
                return False, "a component dies at the weight of a simplex of dimension %s instead of an edge" % show(x[1])
        return True, ""
    if wb:
        d = diff(lab, wb[1])
        if d is None:
            return None, "label %s for a simplex of dimension %s" % (show(lab)[-80:], show(wb[1])[-80:])
        if d != 0:
            return False, "an interval born with a simplex of dimension %s is listed under dimension %s" % (show(wb[1])[-60:], show(lab)[-60:])
        if lastdeath:
            return True, ""
        if not wd:
            return None, "death %s" % show(death)[-100:]
        if noepoch(wd[0]) is not noepoch(wb[0]):
            return None, "two lists"
        k = diff(wd[1], wb[1])
        if k is None:
            return None, "dimension of the death"
        if k != 1:
            return False, "an interval of dimension %s dies with a simplex %+d dimensions higher" % (show(lab)[-60:], k)
        z = nonzero(st, birth, death)
        if not z:
            return False, "an interval is listed even when it is born and dies at the same weight"
        return indices(out, ctx, wb, wd)
    # one entry per simplex
    eb = getfb(birth)
    if eb:
        ll = lin(lab)
        if len(ll[0]) != 1 or list(ll[0].values()) != [1]:
            return (False, "an interval of any dimension is listed under dimension %s" % show(lab)) if L is not None else (None, "label %s" % show(lab)[-100:])
        S = next(iter(ll[0]))
        if S.op != "size":
            return None, "label %s" % show(lab)[-100:]
        s = S.a[0]
        if s.op == "fld" and s.a[1] == "simplex":
            s = s.a[0]
        ent = setroot(s)
        if ent is None:
            return None, "label of %s" % show(s)[-100:]
        c = ll[1]
        if lastdeath:
            if ent[1] is not eb[1]:
                return False, "the dimension is that of another simplex than the birth"
            if c != -1:
                return False, "a simplex with k vertices is listed under dimension k%+d" % c
            return True, ""
        dd = setroot(death)
        if dd is None:
            if death.op == "fld" and death.a[1] == "death":
                return None, "death field"
            return None, "death %s" % show(death)[-100:]
        if dd[1] is eb[1]:
            return False, "an interval dies at the weight of the simplex it is born with"
        if ent[1] is eb[1] and c == -1:
            pass
        elif ent[1] is dd[1]:
            if c != -2:
                return False, "the interval closed by a simplex with k vertices is listed under dimension k%+d" % c
        else:
            return (False, "the dimension does not belong to the simplices of the interval")if ent[1] is eb[1] else (None, "label of %s" % show(s)[-80:])
        z = nonzero(st, birth, death)
        if not z:
            return False, "an interval is listed even when it is born and dies at the same weight"
        return lockstep(out, ctx, ent, dd)
    if L is None and weightless(birth) and weightless(death):
        return True, ""
    return None, "birth %s" % show(birth)[-100:]


def weightless(t):
    """a scale recorded while the cut-off grows"""
    return any(z.op == "fld" and z.a[1] == "epsilon" for z in subterms(t)) or t.op == "lv"


def getfb(t):
    t = strip(t)
    if t.op == "fld" and t.a[1] == "birth":
        r = setroot(t.a[0])
        return r
    return None


def nonzero(st, a, b):
    for x, v in st.atoms.items():
        x = noepoch(x)
        if x.op == "==" and not v or x.op == "<" and v:
            p, q = strip(x.a[0]), strip(x.a[1])
            if {id(p), id(q)} == {id(strip(a)), id(strip(b))}:
                return True
            if weak(p) is weak(strip(a)) and weak(q) is weak(strip(b)) or weak(q) is weak(strip(a)) and weak(p) is weak(strip(b)):
                return True
            # the recorded death compared instead of the weight
            fs = {z.a[1] for z in (p, q) if z.op == "fld"}
            if "birth" in fs and getfb(a):
                return True
    return False


def weak(t):
    """t over the list before in-place changes"""
    m = {}
    for z in subterms(t):
        if z.op in ("upd", "touch"):
            m[z] = z.a[0]
    return subst(t, m) if m else t


def deferred(out, t):
    """values listed by a loop over a collected list: t=list[#]"""
    t = strip(t)
    if t.op != "at":
        return None
    return collected(out, t.a[0])


def collected(out, c, seen=None):
    seen = seen if seen is not None else set()
    b, vs = chain(noepoch(c))
    if b.op in ("lv", "lo"):
        if (b.a[0], b.a[1]) in seen:
            return vs
        seen.add((b.a[0], b.a[1]))
        for r, _, _ in out.byid.get(b.a[0], []):
            if b.a[1] not in r.H:
                continue
            x = collected(out, r.init[b.a[1]], seen) if b.a[1] in r.init else []
            if x is None:
                return None
            vs = vs + x
            for k, s in r.paths:
                v = s.store.get(b.a[1])
                if v is None:
                    return None
                y = collected(out, v, seen)
                if y is None:
                    return None
                vs = vs + y
        return vs
    if b.op == "empty":
        return vs
    return None


def indices(out, ctx, wb, wd):
    """birth and death index the row and the column they belong to"""
    E = noepoch(wd[0])
    col = overloop(ctx, mk("at", wd[0], wd[1]))
    if col is None:
        return None, "no loop over the columns found"
    r, iv = col
    c = counterpart(r, wd[2], iv)
    if c is False:
        return False, "the index of the closing simplex is not advanced with every simplex"
    if c is None:
        return None, "index of the closing simplex %s" % show(wd[2])[-80:]
    return True, ""


def lockstep(out, ctx, ent, dd):
    """the arrays of simplices and weights are filled side by side"""
    a, b = ent[0], dd[0]
    if a.op == "L.fld" and ctx:
        # per-simplex table: which list its simplices come from
        src = set()
        for k, s in ctx[-1].paths:
            v = s.store.get(a)
            for z in subterms(noepoch(v)) if v is not None else ():
                if z.op == "struct":
                    for i in range(1, len(z.a) - 1):
                        if z.a[i] == "simplex" and z.a[i + 1].op == "at":
                            q = setroot(z.a[i + 1])
                            if q and q[1] is ent[1]:
                                src.add(q[0])
                            elif q:
                                return False, "the per-simplex table holds another simplex than its weight"
        if len(src) != 1:
            return None, "simplices of the per-simplex table"
        a = src.pop()
    return side(out, a, b)


def side(out, a, b):
    """two lists filled side by side with simplices and their weights"""
    hit = False
    for r, _, _ in out.recs:
        for k, s in r.paths:
            va = s.store.get(a) if a in r.H else None
            vb = s.store.get(b) if b in r.H else None
            if va is None or vb is None:
                continue
            (ba, xa), (bb, xb) = chain(noepoch(va)), chain(noepoch(vb))
            if not (ba.op in ("lv", "lo") and bb.op in ("lv", "lo")):
                return None, "lists of simplices and weights"
            if len(xa) != len(xb):
                return False, "simplices and weights are not listed side by side"
            for p, q in zip(xa, xb):
                hit = True
                if p.op == "fld" and q.op == "fld":
                    if p.a[0] is not q.a[0]:
                        return False, "the weight listed with a simplex is that of another one"
                    if q.a[1] not in ("second", "weight") or p.a[1] not in ("first", "simplexSet", "simplex"):
                        return False, "the weight list holds %s" % q.a[1]
                else:
                    return None, "list entries"
    # entries also refer to the per-simplex table
    return (True, "") if hit else (None, "filling of the lists not found")


# ---- text and table

def table(ck, fn, en, out):
    tabs = {k for r, _, _ in out.recs for k in r.H if k.op == "L.fld" and k.a[1] == "bettiTable"}
    # lists that are turned into rows later
    later = {}
    for r, ctx, ow in out.recs:
        for h in out.vars:
            if h not in r.H:
                continue
            for k, s in r.paths:
                b, ps = pieces(s.store.get(h)) if s.store.get(h) is not None else (None, [])
                for row in split(ps)[0] if ps else []:
                    fv = [fieldval(f) for f in row]
                    if len(fv) != 3 or None in fv:
                        continue
                    for i, v in enumerate(fv):
                        v = strip(v)
                        if v.op == "at" and v.a[1] in r.ivs:
                            bb, xs = chain(v.a[0])
                            if bb.op in ("lv", "lo") and not weight(v):
                                g = verdict(r, v.a[1], INT(0), size(v.a[0]), [q for q, _, _ in out.recs])
                                later.setdefault(bb.a[1], []).append((i, fv, g, r))
    for L, us in later.items():
        bad = [u for u in us if u[2][0] is False]
        one = len({u[3].lid for u in us}) == 1
        req(ck, "table", "%s:rows of %s" % (fn["cls"], base_name(L)), None if not one else False if bad else all(u[2][0] for u in us) or None,
                   bad[0][2][1] if bad else "", w(fn, us[0][3].l))
        for u in us:
            for k, p in u[3].paths:
                if k == "end" and not any(h in u[3].H and p.store.get(h) is not None and pieces(p.store[h])[1] for h in out.vars):
                    ck.bad("table", "%s:rows of %s" % (fn["cls"], base_name(L)), "a collected interval is not listed when %s" % fmt_guards({a: b for a, b in p.atoms.items() if a not in u[3].entry and a not in u[3].hdr[0]}, 3)[-200:], w(fn, u[3].l))
        if any(early(u[3]) for u in us):
            ck.bad("table", "%s:rows of %s" % (fn["cls"], base_name(L)), "listing the collected intervals stops early", w(fn, us[0][3].l))
    # path by path
    n = 0
    for r, ctx, ow in out.recs:
        if not any(h in r.H for h in tabs):
            if not any(h in r.H for h in out.vars):
                continue
            # a loop that only lists collected intervals
            if any(u[3].lid == r.lid for us in later.values() for u in us):
                continue
        for k, s in r.paths:
            n += onepath(ck, fn, out, r, s, tabs, later)
    early_rows, early_ev = set(), set()
    for r, _, _ in out.recs:
        for k, s in early(r):
            early_ev |= {id(e) for e in s.ev}
            for h in out.vars:
                if h in r.H and s.store.get(h) is not None:
                    for row in split(pieces(s.store[h])[1])[0]:
                        early_rows.add(tuple(show(fieldval(f)) if fieldval(f) is not None else "?" for f in row))
    for s in out.sts:
        if s.status == "ret":
            T_ = [aggv(e.val) for e in s.ev if e.k == "push" and noepoch(e.place) in tabs and id(e) not in early_ev]
            R_ = []
            for s2, k, b, ps in out.final:
                if s2 is s:
                    ps = toplevel(s, b, ps)
                    R_ += [tuple(fieldval(f) for f in row) for row in split(ps)[0] if tuple(show(fieldval(f)) if fieldval(f) is not None else "?" for f in row) not in early_rows]
            n += compare(ck, fn, fn["l"], s, T_, R_)
    ck.count("paths on which text and table were compared", n)


def toplevel(s, b, ps):
    """pieces appended outside loops"""
    ps = list(ps)
    recs = [e.rec for e in s.ev if e.k == "loop"]
    n = 0
    while b.op == "lo" and n < 50:
        n += 1
        r = [r for r in recs if r.lid == b.a[0] and b.a[1] in r.init]
        if not r:
            break
        h = b.a[1]
        b, q = pieces(r[-1].init[h])
        ps = list(q) + ps
    return ps


def onepath(ck, fn, out, rec, s, tabs, later):
    T_, R_, l = [], [], rec.l
    for h in tabs & set(rec.H):
        v = s.store.get(h)
        if v is None:
            continue
        b, xs = chain(noepoch(v))
        if b.op not in ("lv", "lo", "init") and not (b.op == "fld"):
            ck.und("table", "%s:%d" % (fn["cls"], l), "table value %s" % show(b)[:80], w(fn, l))
            return 0
        T_ += [aggv(x) for x in xs]
    for h in out.vars & set(rec.H):
        v = s.store.get(h)
        if v is None:
            continue
        b, ps = pieces(v)
        for row in split(ps)[0]:
            fv = tuple(fieldval(f) for f in row)
            # an entry of a list collected before, compared where it was collected
            if any(u[3].lid == rec.lid and len(fv) == 3 and fv[u[0]] is not None and show(fv[u[0]]) == show(u[1][u[0]]) for us in later.values() for u in us):
                continue
            R_.append(fv)
    for L, us in later.items():
        v = s.store.get(L)
        if v is None or L not in rec.H:
            continue
        b, xs = chain(noepoch(v))
        i, fv, _, _ = us[0]
        for x in xs:
            R_.append(tuple(x if j == i else fv[j] for j in range(3)))
    return compare(ck, fn, l, s, T_, R_)


def compare(ck, fn, l, s, T_, R_):
    if not T_ and not R_:
        return 0
    inst = "%s:%d" % (fn["cls"], l)
    if any(x is None or None in x for x in T_ + R_) or any(len(x) != 3 for x in R_):
        ck.und("table", inst, "an entry is not decided", w(fn, l))
        return 1
    left = list(R_)
    for t in T_:
        m = [r for r in left if all(same(a, b) for a, b in zip(t, r))]
        if m:
            left.remove(m[0])
        else:
            ck.bad("table", inst, "the table lists (%s) but the text does not, when %s" % (", ".join(show(x)[-70:] for x in t), fmt_guards(s.atoms, 2)[-200:]), w(fn, l))
            return 1
    if left:
        ck.bad("table", inst, "the text lists (%s) but the table does not, when %s" % (", ".join(show(x)[-70:] for x in left[0]), fmt_guards(s.atoms, 2)[-200:]), w(fn, l))
        return 1
    ck.ok("table", inst)
    return 1


def ends_short(ro, p, K):
    """why the search may end while points are still apart, worked out on small numbers; None when not decided"""
    from .. import cases
    rel = {noepoch(a): b for a, b in p.atoms.items() if a not in ro.entry and a not in ro.hdr[0]}
    it = {mk("lv", ro.lid, h) for h in ro.H} & set(ro.ivs)
    count = lambda z: z.op == "size" and (z.a[0].op == "at" and cval(z.a[0].a[1]) == 0 or z.a[0].op in ("lo", "lv") and z.a[0].a[1].op == "L.var")
    leaf = lambda t: True if count(t) or t in it or isconst(t) else t.op in ("+", "-", "*", "/", "<", "==", "i2d", "cast") and all(leaf(x) for x in t.a if isinstance(x, T))
    use = {a: b for a, b in rel.items() if leaf(a) and any(count(z) or z in it for z in subterms(a))}
    ns = {z for a in use for z in subterms(a) if count(z) and z.a[0].op == "at"}
    ms = {z for a in use for z in subterms(a) if count(z) and z.a[0].op != "at"}
    if len(ns) != 1 or len(ms) != 1:
        return None
    n, m = list(ns)[0], list(ms)[0]
    lst = p.store.get(m.a[0].a[1])
    more = len(chain(noepoch(lst))[1]) if lst is not None else 0
    for nv in range(2, 10):
        for mv in range(0, nv - 1 - more):
            for i in range(mv, (mv + 1) * (mv + 2) // 2):
                env = {n: nv, m: mv}
                env.update({x: i for x in it})
                okk, rest = cases.holds(use, env)
                if okk and not rest:
                    return "the search for joining edges ends with %d of %d edges found" % (mv + more, nv - 1)
    return None


# ---- components (dimension 0) and columns (higher dimensions) of the reduction

def holds(atoms, pred):
    """truth of the first atom satisfying pred, None when there is none"""
    for a, b in atoms.items():
        if pred(noepoch(a)):
            return b
    return None


def inter(t):
    """(x, y) when t is the intersection of two sets"""
    if t.op == "call" and isinstance(t.a[0], str) and t.a[0].endswith("setIntersect") and len(t.a) >= 3:
        return t.a[1], t.a[2]
    if t.op.startswith("f:") and "set_intersection" in t.op or t.op == "f" and t.a and t.a[0] == "set_intersection":
        xs = [x for x in t.a if isinstance(x, T)]
        if len(xs) >= 2:
            return xs[0], xs[1]
    return None


def knows(atoms, n, es):
    """is the number of common elements n on this path? es: (edge vertices, component)"""
    for a, b in atoms.items():
        a = noepoch(a)
        if a.op == "==" and cval(a.a[1]) is not None or a.op == "==" and cval(a.a[0]) is not None:
            x, c = (a.a[0], cval(a.a[1])) if cval(a.a[1]) is not None else (a.a[1], cval(a.a[0]))
            if x.op == "size":
                xy = inter(x.a[0])
                if xy and set(map(id, xy)) == set(map(id, es)):
                    if c == n:
                        return b
                    if b:
                        return False
        if a.op == "nz" and a.a[0].op == "size" and n > 0:
            xy = inter(a.a[0].a[0])
            if xy and set(map(id, xy)) == set(map(id, es)) and not b:
                return False
    return None


def has_sub(t, x):
    return t is not None and contains(noepoch(t), lambda z: z is x)


def components(prog, ck, fn, en, out):
    """merging of components along the edges"""
    seen = set()
    for ri, ctx, ow in out.recs:
        if not ctx or ow is None:
            continue
        ro = ctx[-1]
        oiv = [iv for iv in ro.ivs for g in [irange(ro, iv)] if g and g.known and g.hi is not None and g.hi.op == "size" and g.hi.a[0].op == "at"]
        iiv = [iv for iv in ri.ivs for g in [irange(ri, iv)] if g and g.known and g.hi is not None and g.hi.op == "size" and g.hi.a[0].op == "lv" and g.hi.a[0].a[0] == ro.lid]
        if not oiv or not iiv:
            continue
        g = irange(ri, iiv[0])
        S = g.hi.a[0]
        E1 = irange(ro, oiv[0]).hi.a[0]
        el = noepoch(mk("at", E1, oiv[0]))
        edge = noepoch(mk("fld", el, "first"))
        comp = noepoch(at(S, iiv[0]))
        if not any(inter(z) and set(map(id, inter(z))) == {id(edge), id(comp)} for k, p in ri.paths for a in p.atoms for z in subterms(noepoch(a))):
            continue
        merge(ck, fn, out, ro, ri, S, oiv[0], iiv[0], E1, edge, comp)


def merge(ck, fn, out, ro, ri, S, oi, ii, E1, edge, comp):
    name = fn["cls"]
    where = w(fn, ri.l)
    tabs = {k for k in ri.H if k.op == "L.fld" and k.a[1] == "bettiTable"}
    c = cval(E1.a[1])
    if c is not None and c != 1:
        ck.bad("components", name + ":edges", "components are merged along simplices of dimension %d" % c, w(fn, ro.l))
    for r, iv, cont, what in ((ri, ii, S, "components"), (ro, oi, E1, "edges")):
        vd = verdict(r, iv, INT(0), size(cont), [q for q, _, _ in out.recs])
        req(ck, "components", name + ":all " + what, vd[0], "not every one of the %s is looked at: %s" % (what, vd[1]), w(fn, r.l))
    if early(ri):
        ck.bad("components", name + ":all components", "not every component is looked at: the loop stops when %s" % fmt_guards(early(ri)[0][1].atoms, 2)[-200:], where)
    M, K, F, B = set(), set(), set(), set()
    info = []
    for k, p in ri.paths:
        one, two = knows(p.atoms, 1, (edge, comp)), knows(p.atoms, 2, (edge, comp))
        kept, merged = [], []
        for h in ri.H:
            v = p.store.get(h)
            if v is None:
                continue
            v = noepoch(v)
            cur = mk("lv", ri.lid, h)
            if v is cur or h in tabs:
                continue
            b, xs = chain(v)
            if v.op in ("push",) and b is cur and any(x is comp for x in xs):
                kept.append((h, len([x for x in xs if x is comp])))
            elif v.op in ("app", "ins", "cat", "f", "sorted") or v.op.startswith("f:") or v.op == "push":
                if has_sub(v, comp) and h.op == "L.var" and not inter(v) and h.a[2] != "wset":
                    if not any(inter(z) for z in [v]):
                        merged.append((h, v))
            if v.op == "bool" and v.a[0]:
                (F if one else B if two else set()).add(h)
        rec = sum(len(chain(noepoch(p.store[h]))[1]) for h in tabs if p.store.get(h) is not None)
        info.append((p, one, two, kept, merged, rec))
        M |= {h for h, _ in merged}
        K |= {h for h, _ in kept}
    F -= B
    if len(K) != 1 or len(M) != 1:
        ck.und("components", name + ":merge", "collections of kept and merged components: %s, %s" % (sorted(map(show, K)), sorted(map(show, M))), where)
        return
    K, M = K.pop(), M.pop()
    bad = und = None
    for p, one, two, kept, merged, rec in info:
        g = fmt_guards({a: b for a, b in p.atoms.items() if a not in ri.entry and a not in ri.hdr[0]}, 3)[-220:]
        if one is None:
            und = und or "a path does not tell how many vertices of the edge lie in the component"
            continue
        if one is False:
            if merged:
                bad = "a component that does not hold exactly one end of the edge is merged (%s)" % g
            elif not kept:
                bad = "a component that is not joined by the edge is dropped (%s)" % g
            elif kept[0][1] > 1:
                bad = "a component is kept twice (%s)" % g
            if rec:
                bad = "an interval is recorded for an edge that does not touch the component (%s)" % g
            continue
        if not merged:
            bad = "a component holding one end of the edge is not merged (%s)" % g
            continue
        if kept:
            bad = "a merged component is kept as well (%s)" % g
            continue
        v = merged[0][1]
        if not (has_sub(v, edge) or has_sub(v, mk("lv", ri.lid, M))):
            bad = "the merged component loses the vertices merged before (%s)" % g
        first = [h for h in F if p.atoms.get(mk("nz", mk("lv", ri.lid, h))) is False or p.atoms.get(mk("lv", ri.lid, h)) is False]
        later = [h for h in F if p.atoms.get(mk("nz", mk("lv", ri.lid, h))) is True or p.atoms.get(mk("lv", ri.lid, h)) is True]
        if first:
            if not has_sub(v, edge):
                bad = "the joined component lacks the ends of the edge (%s)" % g
            if rec != 1:
                bad = "an edge joining a component is recorded %d times (%s)" % (rec, g)
        elif later:
            if not has_sub(v, mk("lv", ri.lid, M)):
                bad = "the component joined first is lost (%s)" % g
            if rec:
                bad = "an edge is recorded once per component it joins (%s)" % g
        elif rec and F:
            und = und or "flag of the first joined component"
    req(ck, "components", name + ":merge", False if bad else None if und else True, bad or und or "", where)
    # after all components were looked at
    if len(F) != 1 or len(B) != 1:
        ck.und("components", name + ":edge", "flags of the merge", w(fn, ro.l))
        return
    F, B = F.pop(), B.pop()
    otabs = {k for k in ro.H if k.op == "L.fld" and k.a[1] == "bettiTable"}
    bad = und = None
    for k, p in ro.paths:
        recs = [e.rec for e in p.ev if e.k == "loop" and e.rec.lid == ri.lid]
        if not recs:
            und = und or "an edge that skips the components"
            if k == "end" and not any(e.k == "loop" for e in p.ev):
                bad = "an edge is skipped when %s" % fmt_guards({a: b for a, b in p.atoms.items() if a not in ro.entry}, 3)[-200:]
            continue
        r2 = recs[-1]
        for h, what in ((K, "list of components of the new generation"), (M, "merged component")):
            ini = noepoch(r2.init[h]) if h in r2.init else None
            if ini is None:
                continue
            if ini.op == "lv" and ini.a[0] == ro.lid:
                # must be emptied at the end of every round
                for k3, p3 in ro.paths:
                    if k3 == "end" and noepoch(p3.store.get(h)) is not None and noepoch(p3.store[h]).op != "empty":
                        bad = "the %s still holds the previous edge's vertices" % what
                i0 = noepoch(ro.init.get(h)) if ro.init.get(h) is not None else None
                if i0 is not None and i0.op != "empty":
                    und = und or "start of the %s" % what
            elif ini.op != "empty":
                und = und or "start of the %s" % what
        for h in (F, B):
            ini = r2.init.get(h)
            if ini is None or cval(ini) not in (0, False):
                if ini is not None and ini.op == "bool" and ini.a[0] is False:
                    continue
                if ini is not None and ini.op == "lv" and ini.a[0] == ro.lid:
                    bad = "a flag of the merge keeps its value from the previous edge"
                else:
                    und = und or "start of a flag"
        f = flag(p, ri.lid, F)
        b = flag(p, ri.lid, B)
        if k != "end":
            continue
        g = fmt_guards({x: y for x, y in p.atoms.items() if x not in ro.entry and x not in ro.hdr[0]}, 3)[-200:]
        v = noepoch(p.store.get(S.a[1])) if p.store.get(S.a[1]) is not None else None
        base, xs = chain(v) if v is not None else (None, [])
        rec = sum(len([x for x in chain(noepoch(p.store[h]))[1]]) for h in otabs if p.store.get(h) is not None)
        if base is None or base.op != "lo" or base.a[0] != ri.lid or base.a[1] is not K:
            if base is not None and base.op == "lv" and base.a[1] is S.a[1]:
                bad = "the merged components are not taken over (%s)" % g
            else:
                und = und or "components after an edge: %s" % (show(base)[:80] if base is not None else "?")
            continue
        newm = [x for x in xs if x.op == "lo" and x.a[0] == ri.lid and x.a[1] is M]
        newe = [x for x in xs if x is edge]
        if len(newm) + len(newe) != len(xs):
            und = und or "components after an edge"
            continue
        if f is True:
            if len(newm) != 1 or newe:
                bad = "the joined component is %s (%s)" % ("lost" if not newm else "listed twice" if len(newm) > 1 else "listed next to the edge", g)
            elif rec:
                bad = "an edge joining components is recorded again (%s)" % g
        elif f is False and b is True:
            if xs:
                bad = "an edge inside a component adds a component (%s)" % g
            elif rec:
                bad = "an edge inside a component is recorded (%s)" % g
        elif f is False and b is False:
            if not newe or newm or len(newe) > 1:
                bad = "an edge between two single points does not become a component (%s)" % g
            elif rec != 1:
                bad = "an edge between two single points is recorded %d times (%s)" % (rec, g)
        else:
            und = und or "what the flags say after an edge"
    req(ck, "components", name + ":edge", False if bad else None if und else True, bad or und or "", w(fn, ro.l))
    # edges that join components are remembered for the next dimension
    def idx(p):
        return [(e.place, counterpart(ro, noepoch(e.val), oi)) for e in p.ev if e.k == "push" and e.place.op == "L.var" and noepoch(e.val).op == "lv" and noepoch(e.val).a[0] == ro.lid and counterpart(ro, noepoch(e.val), oi) is not None]
    P = {h for q in (ri, ro) for k, p in q.paths for h, _ in idx(p)}
    if len(P) == 1:
        bad = und = None
        inner = []
        for k, p in ri.paths:
            sets = [h for h, v in p.store.items() if h is F and v.op == "bool" and v.a[0]]
            was = flagin(p, ri.lid, F)
            inner.append((bool(sets) and was is not True, idx(p)))
            if any(x is False for _, x in idx(p)):
                bad = "the remembered number of an edge does not move with the edges"
        first = {len(m) for f, m in inner if f}
        if len(first) != 1 or any(m for f, m in inner if not f):
            und = "what is remembered while components are joined"
            if any(m for f, m in inner if not f) and all(len(m) for f, m in inner if f):
                bad = bad or "an edge is remembered once per component it touches"
        for k, p in ro.paths:
            f, b = flag(p, ri.lid, F), flag(p, ri.lid, B)
            mine = idx(p)
            g = fmt_guards({x: y for x, y in p.atoms.items() if x not in ro.entry and x not in ro.hdr[0]}, 3)[-200:]
            if k != "end" or f is None or und or f is False and b is None:
                continue
            if any(x is False for _, x in mine):
                bad = bad or "the remembered number of an edge does not move with the edges (%s)" % g
            n = len(mine) + (max(first) if f else 0)
            if f or not b:
                if n != 1:
                    bad = bad or "an edge that joins two components is remembered %d times as closing one (%s)" % (n, g)
            elif n:
                bad = bad or "an edge inside a component is remembered as closing one (%s)" % g
        bad = bad if bad else None
        if und and not bad:
            ck.und("components", name + ":remembered", und, w(fn, ro.l))
            bad = None
        else:
            req(ck, "components", name + ":remembered", not bad, bad or "", w(fn, ro.l))
    # early end
    for k, p in ro.paths:
        if k == "end":
            continue
        ok = None
        for a, b in p.atoms.items():
            if a in ro.entry or not b:
                continue
            a = noepoch(a)
            if a.op == "==":
                l = addl(lin(a.a[0]), lin(a.a[1]), -1)
                sz = [z for z in l[0] if z.op == "size" and z.a[0].op == "at"]
                ls = [z for z in l[0] if z.op == "size" and z.a[0].op in ("lo", "lv") and z.a[0].a[1].op == "L.var"]
                if len(l[0]) == 2 and sz and ls and l[0][sz[0]] == -l[0][ls[0]]:
                    # coeff*(merged - n) + const == 0 with pushes on this path folded into the constant
                    lst = p.store.get(ls[0].a[0].a[1])
                    more = len(chain(noepoch(lst))[1]) if lst is not None else 0
                    base = l[1] * l[0][ls[0]]        # merged(before) - n + base == 0
                    missing = base - more            # merged(after) = n - missing
                    if cval(sz[0].a[0].a[1]) not in (0, None):
                        ok = "the search for joining edges ends at the number of simplices of dimension %s" % show(sz[0].a[0].a[1])
                    else:
                        ok = True if missing <= 1 else "the search for joining edges ends %d before the last one" % (missing - 1)
                        if ok is not True:
                            break
        if ok is None:
            ok = ends_short(ro, p, K)
        if ok is not True:
            req(ck, "components", name + ":end", False if ok else None, ok or "the search for joining edges ends when %s" % fmt_guards({x: y for x, y in p.atoms.items() if x not in ro.entry and x not in ro.hdr[0]}, 2)[-200:], w(fn, ro.l))
        else:
            ck.ok("components", name + ":end")


def flagin(p, lid, h):
    """what a path of the loop asked about the flag before its own steps"""
    for a, b in p.atoms.items():
        x = a.a[0] if a.op == "nz" else a
        if x.op == "lv" and x.a[0] == lid and x.a[1] is h:
            return b
    return None


def flag(p, lid, h):
    for a, b in p.atoms.items():
        x = a.a[0] if a.op == "nz" else a
        if x.op == "lo" and x.a[0] == lid and x.a[1] is h:
            return b
    return None


def columns(prog, ck, fn, en, out):
    """columns of one dimension reduced against the rows one dimension lower"""
    name = fn["cls"]
    for rr, ctx, ow in out.recs:
        for k, p in rr.paths:
            ins = [(h, noepoch(p.store[h])) for h in rr.H if p.store.get(h) is not None and noepoch(p.store[h]).op == "ins" and noepoch(p.store[h]).a[0] is mk("lv", rr.lid, h)]
            if ins:
                break
        else:
            continue
        # rows: a list of one dimension, columns: the next
        riv = [(iv, g.hi.a[0]) for iv in rr.ivs for g in [irange(rr, iv)] if g and g.known and g.hi is not None and g.hi.op == "size" and g.hi.a[0].op == "at"]
        if not riv or not ctx:
            continue
        rc = ctx[-1]
        civ = [(iv, g.hi.a[0]) for iv in rc.ivs for g in [irange(rc, iv)] if g and g.known and g.hi is not None and g.hi.op == "size" and g.hi.a[0].op == "at"]
        if not civ:
            continue
        (ri, R), (ci, C) = riv[0], civ[0]
        if noepoch(R.a[0]) is not noepoch(C.a[0]) or diff(C.a[1], R.a[1]) is None:
            continue
        if diff(C.a[1], R.a[1]) != 1:
            ck.bad("columns", name + ":rows", "simplices are reduced against rows %s dimensions lower" % diff(C.a[1], R.a[1]), w(fn, rr.l))
            continue
        column(ck, fn, out, rr, rc, ctx, ri, ci, R, C)


def column(ck, fn, out, rr, rc, ctx, ri, ci, R, C):
    name = fn["cls"]
    recs = [q for q, _, _ in out.recs]
    for r, iv, cont, what in ((rr, ri, R, "rows"), (rc, ci, C, "columns")):
        vd = verdict(r, iv, INT(0), size(cont), recs)
        req(ck, "columns", name + ":all " + what, vd[0], "not every one of the %s is looked at: %s" % (what, vd[1]), w(fn, r.l))
        if early(r):
            ck.bad("columns", name + ":all " + what, "not every one of the %s is looked at: the loop stops early" % what, w(fn, r.l))
    row, col = noepoch(mk("at", R, ri)), noepoch(mk("at", C, ci))
    bad = und = None
    cs = set()
    for k, p in rr.paths:
        isf = pivot = None
        for a, b in p.atoms.items():
            a = noepoch(a)
            if a in rr.entry:
                continue
            if contains(a, lambda z: z is row) and contains(a, lambda z: z is col):
                if "includes" in a.op or any("includes" in (z.op if z.op != "f" else str(z.a[0])) for z in subterms(a)):
                    isf = face(a, b, row, col)
        ins = []
        for h in rr.H:
            v = p.store.get(h)
            if v is not None and noepoch(v).op == "ins" and noepoch(v).a[0] is mk("lv", rr.lid, h):
                ins.append((h, noepoch(v).a[1]))
                cs.add(h)
        skip = pivotskip(p, rr)
        g = fmt_guards({x: y for x, y in p.atoms.items() if x not in rr.entry and x not in rr.hdr[0]}, 3)[-200:]
        if ins:
            x = counterpart(rr, ins[0][1], ri)
            if x is False:
                bad = "the row index does not move with the rows (%s)" % g
            elif x is None:
                und = und or "row index %s" % show(ins[0][1])[-80:]
            if isf == "reverse":
                bad = "a row is added when it holds all of the column, instead of the column all of it (%s)" % g
            elif isf is False:
                bad = "a row that is not a face of the column is added (%s)" % g
            elif isf is None:
                if not any(contains(noepoch(a), lambda z: z is row) and contains(noepoch(a), lambda z: z is col) for a in p.atoms):
                    bad = "a row is added without testing that it is a face of the column (%s)" % g
                else:
                    und = und or "test that a row is a face"
            if skip is True:
                bad = "a row closed in the previous dimension is added (%s)" % g
        else:
            if isf is True and skip is not True:
                bad = "a face of the column is left out (%s)" % g
            elif isf in (None, "reverse") and skip is not True:
                if k == "end":
                    und = und or "a row is skipped when %s" % g
    req(ck, "columns", name + ":faces", False if bad else None if und else True, bad or und or "", w(fn, rr.l))
    pointer(ck, fn, rr, ri)
    if len(cs) != 1:
        return
    cset = cs.pop()
    for ini in {noepoch(q.init[cset]) for q, _, _ in out.recs if q.lid == rr.lid and cset in q.init}:
        if ini.op != "empty":
            req(ck, "columns", name + ":fresh column", False if ini.op == "lv" else None, "a column starts with the faces of the previous one", w(fn, rr.l))
        else:
            ck.ok("columns", name + ":fresh column")
    # reduction
    for rw, ctx2, ow2 in out.recs:
        if ctx2 and ctx2[-1] is rc and cset not in rw.H and rw.lid != rr.lid and any(k == "end" and any(a.op == "has" and b and any(z.op == "lo" and z.a[0] == rr.lid and z.a[1] is cset for z in subterms(a)) for a, b in p.atoms.items()) for k, p in rw.paths):
            ck.bad("columns", name + ":reduction", "a column whose row is taken is never changed", w(fn, rw.l))
        if ctx2 and ctx2[-1] is rc and cset in rw.H and rw.lid != rr.lid:
            reduction(ck, fn, out, rw, rc, ctx, ci, cset)


def face(a, b, row, col):
    """does atom a with truth b say that row's vertices are included in col's?"""
    z = a
    if z.op == "nz":
        z = z.a[0]
    args = [x for x in z.a if isinstance(x, T)]
    pos = [("r" if has_sub(x, row) else "c" if has_sub(x, col) else "?") for x in args]
    pos = [x for x in pos if x != "?"] or pos
    if "c" in pos and "r" in pos:
        return b if pos.index("c") < pos.index("r") else "reverse"
    return b if z.op != "f" else b


def pivotskip(p, rr):
    """True: the row equals the next recorded pivot; False: it does not; None: not tested"""
    res = None
    for a, b in p.atoms.items():
        if a in rr.entry:
            continue
        a = noepoch(a)
        if a.op == "==" and any(x.op == "at" and x.a[1].op == "lv" and x.a[1].a[0] == rr.lid for x in a.a) and any(y.op == "lv" and y.a[0] == rr.lid for y in a.a):
            res = b
    return res


def pointer(ck, fn, rr, ri):
    """the pivot pointer advances exactly past the pivots met"""
    name = fn["cls"]
    hs = [h for h in rr.H if rr.init.get(h) is not None and rr.init[h].op == "iter"]
    if len(hs) != 1:
        ck.und("columns", name + ":pivots", "no pivot pointer", w(fn, rr.l))
        return
    h = hs[0]
    bad = und = None
    if cval(rr.init[h].a[1]) not in (0,):
        bad = "the pivots are not read from the first one"
    for k, p in rr.paths:
        v = p.store.get(h)
        if v is None or v.op != "iter":
            und = "pivot pointer"
            continue
        d = diff(v.a[1], mk("lv", rr.lid, h))
        sk = pivotskip(p, rr)
        g = fmt_guards({x: y for x, y in p.atoms.items() if x not in rr.entry and x not in rr.hdr[0]}, 3)[-200:]
        if d is None:
            und = und or "pivot pointer"
        elif sk is True and d != 1:
            bad = "the pointer stays on a pivot that was met (%s)" % g
        elif sk is not True and d != 0:
            bad = "the pointer passes a pivot that was not met (%s)" % g
    req(ck, "columns", name + ":pivots", False if bad else None if und else True, bad or und or "", w(fn, rr.l))


def reduction(ck, fn, out, rw, rc, ctx, ci, cset):
    name = fn["cls"]
    cur = mk("lv", rw.lid, cset)
    bad = und = None
    stored = set()
    nextp = set()
    for k, p in rw.paths:
        g = fmt_guards({x: y for x, y in p.atoms.items() if x not in rw.entry and x not in rw.hdr[0]}, 3)[-200:]
        known = key = V = None
        for a, b in p.atoms.items():
            a = noepoch(a)
            if a.op == "has" and a.a[0].op in ("lv",) and a.a[1].op == "at" and a.a[1].a[0] is cur:
                known, V, key = b, a.a[0].a[1], a.a[1]
        if known is None:
            und = und or "a path does not ask whether the row is taken"
            continue
        if cval(key.a[1]) != 0:
            und = und or "pivot of the column is not its first row"
        nv = noepoch(p.store[V]) if p.store.get(V) is not None else None
        while nv is not None and nv.op in ("touch",):
            nv = nv.a[0]
        nc = noepoch(p.store[cset]) if p.store.get(cset) is not None else None
        st = nv is not None and nv.op == "upd" and nv.a[1] is key and nv.a[2] is cur
        pushes = {}
        for e in p.ev:
            if e.k == "push" and e.place.op == "L.var" and e.place is not cset:
                x = noepoch(e.val)
                if x.op in ("lv", "int") and counterpart(rc, x, ci) is not None:
                    pushes.setdefault(e.place, []).append(x)
        pushes = list(pushes.items())
        if not known:
            if not st:
                bad = "a reduced column is not stored for its row (%s)" % g
            if k == "end":
                bad = bad or "a stored column is reduced on (%s)" % g
            if len(pushes) != 1 or len(pushes[0][1]) != 1:
                bad = bad or ("a stored column is not remembered as a pivot of the next dimension (%s)" % g if not pushes else None)
                und = und or "pivots of the next dimension"
            else:
                nextp.add(pushes[0][0])
                if counterpart(rc, pushes[0][1][0], ci) is False:
                    bad = "the remembered pivot index does not move with the columns (%s)" % g
        else:
            if st:
                bad = "a taken row is overwritten (%s)" % g
            if pushes:
                bad = "a column that is not stored is remembered as a pivot (%s)" % g
            if k in ("brk", "ret"):
                own = [(noepoch(a), b) for a, b in p.atoms.items() if a not in rw.entry and a not in rw.hdr[0] and noepoch(a).op != "has"]
                stuck = any(a.op == "==" and b and not all(z.op == "size" for z in a.a) and (has_sub(a, cur) or any(z is cur for z in subterms(a))) for a, b in own) or any(a.op == "nz" and not b for a, b in own)
                if not stuck and own and all(a.op in ("<", "==") and any(z.op == "size" for z in subterms(a)) for a, b in own):
                    bad = "a column is given up before its row is free or it is empty (%s)" % g
            if k == "end":
                ok = nc is not None and nc is not cur and has_sub(nc, cur) and any(z.op == "at" and z.a[0].op in ("lv",) and z.a[0].a[1] is V or z.op == "at" and has_sub(z, mk("lv", rw.lid, V)) for z in subterms(nc))
                if not ok:
                    bad = "a column whose row is taken is not combined with the stored one (%s)" % g
    req(ck, "columns", name + ":reduction", False if bad else None if und else True, bad or und or "", w(fn, rw.l))
    # next dimension
    if len(nextp) == 1 and len(ctx) >= 2:
        N = nextp.pop()
        rd = ctx[-2]
        bad = und = None
        i0 = noepoch(rc.init.get(N)) if rc.init.get(N) is not None else None
        if i0 is not None and i0.op == "lv":
            bad = "the pivots of the next dimension still hold those of this one"
        elif i0 is None or i0.op != "empty":
            und = "start of the next pivots"
        for k, p in rd.paths:
            if k != "end":
                continue
            took = [h for h in rd.H if p.store.get(h) is not None and noepoch(p.store[h]).op == "lo" and noepoch(p.store[h]).a[1] is N and h is not N]
            if not took:
                bad = bad or "the pivots found are not taken to the next dimension"
        req(ck, "columns", name + ":next pivots", False if bad else None if und else True, bad or und or "", w(fn, rd.l))
        for V in sorted({h for k, p in rw.paths for h, v in p.store.items() if h.op == "L.var" and noepoch(v).op == "upd" and noepoch(v).a[2] is cur}, key=show):
            v0 = noepoch(rc.init.get(V)) if rc.init.get(V) is not None else None
            if v0 is not None and (v0.op == "lv" and v0.a[0] == rd.lid or v0.op == "init" and str(v0.a[0].a[-1]).startswith("static:")):
                ck.bad("columns", name + ":fresh store", "columns stored for one dimension are used for the next", w(fn, rd.l))
            elif v0 is not None:
                ck.ok("columns", name + ":fresh store")
        # dimensions
        for iv in rd.ivs:
            g = irange(rd, iv)
            if g is None or not g.known or g.lo is None:
                continue
            d = cval(g.lo)
            req(ck, "columns", name + ":dimensions", None if d is None else d == 1, "the reduction starts at dimension %s" % show(g.lo), w(fn, rd.l))
            his = [g.hi] + [k[1] for alt in rd.hdr[:1] for a, b in alt.items() for k in [bound(iv, a, b)] if k and k[0] == "ub"]
            for h in his:
                if h is None:
                    continue
                l = lin(noepoch(h))
                if len(l[0]) == 1:
                    t, c = next(iter(l[0].items()))
                    if t.op == "init" and t.a[0].op == "L.fld" and t.a[0].a[1] == "dim":
                        req(ck, "columns", name + ":dimensions", l[1] >= 0, "dimension %s is left out" % show(h), w(fn, rd.l))
                    elif t.op == "size":
                        req(ck, "columns", name + ":dimensions", l[1] >= -1, "a dimension the complex holds is left out", w(fn, rd.l))
