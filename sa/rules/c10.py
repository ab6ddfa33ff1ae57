"""C10 files written and files read: every element once, in order, in the documented layout; success reported only when the file is complete; every row that is not blank is read."""
import re
from ..common import *
from ..loops import *
from ..trees import noepoch
from .c09 import req, w, strip, same, chain

TITLE = "tables written to and read from files"


# ---- text sent to a stream, as a sequence of items

class Item:
    def __init__(self, k, v, rec=None, paths=None):
        self.k, self.v, self.rec, self.paths = k, v, rec, paths

    def __repr__(self):
        return repr(self.v) if self.k == "lit" else show(self.v) if self.k == "val" else "(%s)*" % ["".join(map(repr, p)) for _, _, p in self.paths] if self.k == "rep" else "?" + show(self.v)


class Lost(Exception):
    pass


class Text:
    def __init__(self, sts):
        self.recs = {}
        for r, ctx, ow in loops_of(sts):
            self.recs.setdefault(r.lid, []).append(r)
        self.base = None

    def stream(self, t, stop=None, depth=0):
        """items of a stream value down to its opening (or to `stop`)"""
        if depth > 200:
            raise Lost("too deep")
        if stop is not None and t is stop:
            return []
        if t.op == "sw":
            return self.stream(t.a[0], stop, depth + 1) + self.piece(t.a[1])
        if t.op in ("flushed", "touch", "closed"):
            return self.stream(t.a[0], stop, depth + 1)
        if t.op in ("stream", "opened"):
            self.base = t
            return []
        if t.op == "lo":
            return self.loop(t, lambda v, s: self.stream(v, s, depth + 1), stop)
        raise Lost("text written to %s" % show(t)[:80])

    def loop(self, t, rd, stop=None):
        rs = [r for r in self.recs.get(t.a[0], []) if t.a[1] in r.init]
        # the same loop may be met on several paths: pick one whose starting value reads
        if not rs:
            raise Lost("loop not found")
        r = rs[0]
        h = t.a[1]
        pre = [] if r.init[h] is stop and stop is not None else rd(r.init[h], stop)
        cur = mk("lv", r.lid, h)
        ps = []
        for k, s in r.paths:
            v = s.store.get(h, cur)
            ps.append((k, s, rd(v, cur)))
        return pre + [Item("rep", t, r, ps)]

    def piece(self, v):
        v = noepoch(v)
        if v.op == "str":
            return [Item("lit", v.a[0])] if v.a[0] else []
        if v.op == "chr":
            return [Item("lit", chr(v.a[0]))]
        if v.op == "empty":
            return []
        if v.op == "cat":
            out = []
            for x in v.a:
                out += self.piece(x)
            return out
        if v.op in ("tostr", "fmt"):
            return [Item("val", v.a[0])]
        if v.op == "lo":
            try:
                return self.loop(v, self.string)
            except Lost:
                return [Item("val", v)]
        return [Item("val", v)]

    def string(self, v, stop):
        v = noepoch(v)
        if stop is not None and v is stop:
            return []
        if v.op == "cat" and stop is not None:
            if v.a[0] is not stop:
                raise Lost("text rebuilt from %s" % show(v.a[0])[:60])
            out = []
            for x in v.a[1:]:
                out += self.piece(x)
            return out
        if stop is not None and v.op == "lo":
            return self.loop(v, self.string, stop)
        if stop is not None:
            raise Lost("text rebuilt from %s" % show(v)[:60])
        return self.piece(v)


def fold(items):
    """literals merged"""
    out = []
    for i in items:
        if i.k == "lit" and out and out[-1].k == "lit":
            out[-1] = Item("lit", out[-1].v + i.v)
        else:
            out.append(i)
    return out


def narrowed(x):
    """why a value loses its fraction or precision on the way, or None"""
    x0 = x
    while isinstance(x, T) and x.op in ("cast", "i2d", "b2i", "float32", "toint", "trunc", "f2i", "d2i"):
        if x.op in ("float32", "toint", "trunc", "f2i", "d2i"):
            return "%s instead of the value itself" % show(x0)
        if x.op == "cast" and isinstance(x.a[0], str) and x.a[0] in ("int", "long", "unsigned int", "float", "bool", "unsigned long", "short", "char"):
            return "the value converted to %s" % x.a[0]
        x = x.a[-1]
    return None


# ---- writers

def run(prog, ck):
    n = 0
    for fn in sorted(prog.functions.values(), key=lambda f: f["key"]):
        if fn["name"] not in ("writeOutput::writeStats", "writeOutput::writeCSV", "writeOutput::writeMAT", "writeOutput::writeBarcodes"):
            continue
        writer(prog, ck, fn)
        n += 1
    ck.count("writers", n)
    readers(prog, ck)
    ck.expect("file", 8)
    ck.expect("success", 8)
    ck.expect("layout", 8)
    ck.expect("elements", 4)
    ck.expect("read", 6)
    ck.expect("fields", 4)
    ck.expect("stream", 4)


def inst(fn):
    return fn["name"] + "(" + ",".join("table" if "vector" in p["ty"] else "text" for p in fn["params"]) + ")"


def verdict_states(en, sts):
    return [s for s in sts if s.status == "ret"]


def writer(prog, ck, fn):
    name = inst(fn)
    at_ = w(fn)
    try:
        en = Engine(prog, nomerge=True)
        sts = en.run(fn)
    except (PathLimit, Undecided) as e:
        ck.und("file", name, str(e), at_)
        return
    P = [mk("init", mk("L.var", 1, p["id"], p["n"])) for p in fn["params"]]
    pv = {}
    for i, p in enumerate(fn["params"]):
        pv[i] = p["n"]
    short = fn["short"]
    kind = "MAT" if short == "writeMAT" else "stats" if short == "writeStats" else "CSV"
    ext = {"MAT": ".mat", "stats": "_stats.csv", "CSV": ".csv"}[kind]
    if len(fn["params"]) < 2:
        return
    for s in sts:
        if s.status != "ret":
            continue
        tx = Text(sts)
        fin = None
        # the stream whose state decides the result
        g = asked(s)
        if g is None:
            v = noepoch(s.ret)
            if v is BOOL(True) or cval(v) == 1:
                # returned without asking the file
                ck.bad("success", name, "success is reported without asking whether the file took the data", at_)
            elif v is BOOL(False) or cval(v) == 0:
                good = any(a.op == "good" or a.op == "is_open" or (a.op == "nz" and a.a[0].op in ("stream", "opened", "good", "is_open")) for a in s.atoms)
                ck.require(good, "success", name, "failure is reported for every file", at_)
                continue
            else:
                ck.und("success", name, "result %s" % show(v)[:80], at_)
        cand = [v for v in streams(s, sts)]
        if not cand and g is None:
            ck.und("file", name, "no stream found", at_)
            continue
        final = max(cand, key=lambda v: depth(v)) if cand else g
        try:
            items = fold(tx.stream(final))
        except Lost as e:
            ck.und("layout", name, str(e), at_)
            continue
        if g is not None:
            try:
                tg = Text(sts)
                gi = fold(tg.stream(g))
                done = repr(gi) == repr(items)
                closed = has_op(g, ("closed", "flushed"))
                if done and not closed:
                    ck.bad("success", name, "the result is read from the file before what was written has reached it, so a failing write is reported as success", at_)
                elif not done:
                    ck.bad("success", name, "the result is read from the file before everything is written", at_)
                else:
                    ck.ok("success", name, "", at_)
            except Lost as e:
                ck.und("success", name, str(e), at_)
        path(ck, fn, name, tx.base, ext, at_)
        layout(ck, fn, name, kind, items, s, sts, at_)


def has_op(t, ops):
    while isinstance(t, T):
        if t.op in ops:
            return True
        if t.op in ("sw", "after", "touch", "closed", "flushed"):
            t = t.a[0]
        else:
            return False
    return False


def asked(s):
    """stream value whose state is the result"""
    v = s.ret
    if v is None:
        return None
    for _ in range(5):
        if v.op in ("good", "is_open"):
            return v.a[0]
        if v.op in ("nz", "cast", "b2i"):
            v = v.a[-1]
            continue
        if v.op in ("closed", "flushed", "sw", "lo", "opened", "stream"):
            return v
        break
    b = cval(v)
    if v is BOOL(True) or v is BOOL(False) or b in (0, 1):
        want = v is BOOL(True) or b == 1
        cs = []
        for a, t in s.atoms.items():
            x = a
            while x.op in ("nz",):
                x = x.a[0]
            if x.op == "good":
                cs.append((x.a[0], t))
            elif x.op in ("closed", "flushed", "sw", "lo", "stream", "opened"):
                cs.append((x, t))
        cs = [c for c, t in cs if t == want and has_op(c, ("closed", "flushed"))]
        if cs:
            return cs[-1]
    return None


def depth(t):
    n = 0
    while isinstance(t, T) and t.op in ("sw", "closed", "flushed", "touch"):
        n += 1
        t = t.a[0]
    return n + (1000 if t.op == "lo" else 0)


def streams(s, sts):
    out = []
    for t in list(s.atoms) + ([s.ret] if s.ret is not None else []):
        for x in subterms(t):
            if isinstance(x, T) and x.op in ("closed", "sw", "flushed"):
                out.append(x)
    for k, v in s.store.items():
        if isinstance(v, T) and v.op in ("closed", "sw", "flushed"):
            out.append(v)
    return out


def path(ck, fn, name, base, ext, at_):
    if base is None:
        ck.und("file", name, "file not seen being opened", at_)
        return
    a = list(base.a)
    if base.op == "stream":
        a = a[1:]
    p = noepoch(a[0])
    parts = list(p.a) if p.op == "cat" else [p]
    filep = fn["params"][1]["n"]
    if len(parts) == 2 and show(parts[0]) == filep and parts[1].op == "str":
        ck.require(parts[1].a[0] == ext, "file", name, "the file is called filename + \"%s\" instead of filename + \"%s\"" % (parts[1].a[0], ext), at_)
    elif len(parts) == 1 and show(parts[0]) == filep:
        ck.bad("file", name, "the file is called filename without \"%s\"" % ext, at_)
    else:
        ck.und("file", name, "file name %s" % show(p)[:80], at_)
    m = " ".join(show(x) for x in a[1:])
    if re.search(r"::(app|ate|in)\b", m):
        ck.bad("file", name + " fresh", "the file is opened so that what it contained before remains in it", at_)
    else:
        ck.ok("file", name + " fresh", "", at_)


HEAD = {"stats": "PipeName,PhysExecutionTime,MemorySize,MemoryUnits,VertexCount,SimplexCount\n", "bar": "dimension,birth,death\n"}


def layout(ck, fn, name, kind, items, s, sts, at_):
    data = fn["params"][0]["n"]
    table = "vector" in fn["params"][0]["ty"]
    rest = items
    if kind == "stats":
        rest = header(ck, name, rest, HEAD["stats"], at_)
    elif fn["short"] == "writeBarcodes":
        rest = header(ck, name, rest, HEAD["bar"], at_)
    elif len(fn["params"]) == 3:
        h = fn["params"][2]["n"]
        if rest and rest[0].k == "val" and show(noepoch(rest[0].v)) == h:
            ck.ok("layout", name + " header", "", at_)
            rest = rest[1:]
        elif any(i.k == "val" and show(noepoch(i.v)) == h for i in rest):
            ck.bad("layout", name + " header", "the header does not come first", at_)
            return
        elif all(i.k in ("lit", "rep") or show(noepoch(i.v)) == data for i in rest):
            ck.bad("layout", name + " header", "the header is not written", at_)
        else:
            ck.und("layout", name + " header", "header not found in %s" % rest, at_)
            return
    if rest is None:
        return
    if not table:
        if len(rest) == 1 and rest[0].k == "val" and show(noepoch(rest[0].v)) == data:
            ck.ok("layout", name, "", at_)
        elif not any(i.k == "val" and show(noepoch(i.v)) == data for i in rest) and all(i.k == "lit" for i in rest):
            ck.bad("layout", name, "the text given is not written", at_)
        elif sum(i.k == "val" and show(noepoch(i.v)) == data for i in rest) > 1:
            ck.bad("layout", name, "the text given is written more than once", at_)
        elif all(i.k == "lit" or show(noepoch(i.v)) == data for i in rest):
            ck.bad("layout", name, "text that was not given is added", at_)
        else:
            ck.und("layout", name, "written as %s" % rest, at_)
        return
    pre = []
    while rest and rest[0].k != "rep":
        pre.append(rest[0])
        rest = rest[1:]
    if not rest:
        # no loop on this path: only right when the table is empty
        empty = any(noepoch(a).op == "nz" and not t and show(noepoch(a)).startswith("nz(size(%s" % data) for a, t in s.atoms.items())
        if not empty:
            ck.und("layout", name, "rows not found", at_)
            return
    if kind == "MAT":
        preamble(ck, name, pre, data, s, at_)
    elif pre and any(i.k == "val" or i.v.strip(" \n") for i in pre):
        ck.bad("layout", name, "%s is written before the first row" % pre, at_)
    elif pre:
        ck.ok("layout", name + " start", "", at_)
    if not rest:
        return
    rep = rest[0]
    tail = rest[1:]
    if any(i.k == "rep" for i in tail):
        ck.und("layout", name, "more than one pass over the data", at_)
        return
    if tail and (any(i.k == "val" for i in tail) or any(i.v.strip(" \n") for i in tail)):
        ck.bad("layout", name, "%s is written after the last row" % tail, at_)
    rows(ck, fn, name, kind, rep, data, at_)


def header(ck, name, items, text, at_):
    if items and items[0].k == "lit" and items[0].v.startswith(text):
        ck.ok("layout", name + " header", "", at_)
        r = items[0].v[len(text):]
        return ([Item("lit", r)] if r else []) + items[1:]
    if items and items[0].k == "lit" and "," in items[0].v and items[0].v.endswith("\n"):
        ck.bad("layout", name + " header", "the first line is %r instead of %r" % (items[0].v, text), at_)
        return items[1:]
    if items and items[0].k in ("val", "rep") and all(i.k in ("val", "rep") or len(i.v) < 3 for i in items):
        ck.bad("layout", name + " header", "the line naming the columns is not written first", at_)
        return None
    ck.und("layout", name + " header", "starts with %s" % items[:2], at_)
    return None


def preamble(ck, name, pre, data, s, at_):
    t = "size(%s)" % data
    empty = None
    for a, b in s.atoms.items():
        x = show(noepoch(a))
        if x == "nz(%s)" % t:
            empty = not b
        if x in ("(0<%s)" % t,):
            empty = not b
        if x in ("(%s==0)" % t, "(0==%s)" % t):
            empty = b
    want = [("val", {t}), ("lit", "\n"), ("val", {"size(%s[0])" % data} | ({"0"} if empty else set())), ("lit", "\n")]
    got = []
    for i in pre:
        if i.k == "lit":
            # literal numbers count as values
            for m in re.finditer(r"\d+|\s+|[^\d\s]+", i.v):
                got.append(("val", m.group()) if m.group().isdigit() else ("lit", m.group()))
        else:
            got.append(("val", show(strip(noepoch(i.v)))))
    okv = len(got) == 4 and all(g[0] == x[0] and (g[1] in x[1] if x[0] == "val" else g[1] == x[1]) for g, x in zip(got, want))
    if okv:
        ck.ok("layout", name + " counts", "", at_)
        return
    known = {t, "size(%s[0])" % data, "0"}
    vals = [g[1] for g in got if g[0] == "val"]
    if all(v in known or re.fullmatch(r"\(?(%s|%s)[-+]+\d+\)?" % (re.escape(t), re.escape("size(%s[0])" % data)), v) or v.isdigit() for v in vals):
        ck.bad("layout", name + " counts", "the file starts with %s instead of the number of rows and the number of columns, one per line" % "".join(("<%s>" % g[1]) if g[0] == "val" else repr(g[1]) for g in got), at_)
    else:
        ck.und("layout", name + " counts", "starts with %s" % got, at_)


def binder(r):
    """(iv, range) of the counted variable of a loop"""
    c = [(iv, irange(r, iv)) for iv in r.ivs]
    c = [(iv, g) for iv, g in c if g is not None and g.hi is not None]
    return c[0] if len(c) == 1 else (None, None)


def matches(t, text):
    return show(strip(noepoch(t))) == text


def rows(ck, fn, name, kind, rep, data, at_):
    r = rep.rec
    iv, g = binder(r)
    where = at_
    if iv is None:
        ck.und("elements", name + " rows", "row loop shape not decided", where)
        return
    if show(noepoch(g.hi)) != "size(%s)" % data:
        base = lin(noepoch(g.hi))
        if g.hi is not None and any(show(x) == "size(%s)" % data for x in base[0]):
            pass
        else:
            ck.und("elements", name + " rows", "rows run over %r" % g, where)
            return
    D = None
    for x in subterms(noepoch(g.hi)):
        if isinstance(x, T) and x.op == "size" and show(x) == "size(%s)" % data:
            D = x
    v, why = verdict(r, iv, INT(0), D) if D is not None else (None, "rows not decided")
    v, why = capped(g, iv, data, v, why)
    if v is True and g.step != 1:
        v, why = False, "rows are written in reverse"
    if v is True and early(r):
        v, why = False, "writing stops before the last row when %s" % fmt_guards(early(r)[0][1].atoms, 2)[:160]
    req(ck, "elements", name + " rows", v, why, where)
    for k, s, items in rep.paths:
        if k != "end":
            continue
        row(ck, fn, name, kind, r, iv, s, fold(items), data, D, where)


def capped(g, iv, data, v, why):
    """a second limit made of the counter and sizes or constants only stops the loop before all elements are written"""
    if v is None and g.known:
        for a, b in g.extra:
            a = noepoch(a)
            leaves = [x for x in subterms(a) if isinstance(x, T) and (x.op in ("lv", "init", "lo") or x.op.startswith(("f:", "s:", "call")))]
            if a.op in ("<", "==", "nz") and any(x is iv for x in leaves) and all(x is iv or show(x) in (data, "init(%s)" % data) or (x.op == "lv") for x in leaves):
                return False, "it also stops when %s%s" % ("not " if b else "", show(a))
    return v, why


def zerorow(s, data, iv):
    t = "size(%s[%s])" % (data, show(iv))
    for a, b in s.atoms.items():
        x = show(noepoch(a))
        if x == "nz(%s)" % t and not b or x == "(0<%s)" % t and not b:
            return True
    return False


def row(ck, fn, name, kind, r, iv, s, items, data, D, where):
    reps = [i for i in items if i.k == "rep"]
    if not reps:
        if zerorow(s, data, iv):
            return
        if not any(i.k == "val" for i in items):
            ck.bad("elements", name + " columns", "a row is left out when %s" % fmt_guards(new_atoms(s, r), 3)[:160], where)
        else:
            ck.und("elements", name + " columns", "row written as %s" % items, where)
        return
    if len(reps) > 1:
        ck.und("elements", name + " columns", "several passes over one row", where)
        return
    i0 = items.index(reps[0])
    pre, post = items[:i0], items[i0 + 1:]
    c = reps[0].rec
    jv, g = binder(c)
    S = None
    if jv is not None:
        for x in subterms(noepoch(g.hi)):
            if isinstance(x, T) and x.op == "size":
                S = x
    if jv is None or S is None:
        ck.und("elements", name + " columns", "column loop shape not decided", where)
        return
    if show(noepoch(S)) != "size(%s[%s])" % (data, show(noepoch(iv))):
        rect = show(noepoch(S)) == "size(%s[0])" % data
        if rect and kind == "MAT":
            # the layout only has room for rows of equal length
            pass
        elif rect:
            ck.und("elements", name + " columns", "columns counted on the first row", where)
            return
        else:
            ck.und("elements", name + " columns", "columns run over %s" % show(S), where)
            return
    lead = []
    j0 = cval(g.lo)
    if j0 is not None and j0 > 0:
        # elements written before the loop
        lead = [i for i in pre if i.k == "val"]
        lead = lead if not lead or len(lead) == j0 and all(matches(i.v, "%s[%s][%d]" % (data, show(iv), n)) for n, i in enumerate(lead)) else None
    tail_ok = False
    hi = noepoch(S)
    d = diff(noepoch(g.hi), hi)
    trail = [i for i in post if i.k == "val"]
    if d is not None and d < 0 and len(trail) == -d and lead is not None:
        tail_ok = all(same(strip(noepoch(i.v)), noepoch(at(S.a[0], add(S, INT(d + n))))) for n, i in enumerate(trail))
    if lead and g.step == 1 and not early(c) and d == 0:
        v, why = True, ""
    elif tail_ok and g.step == 1 and not early(c) and cval(g.lo) == 0:
        v, why = True, ""
    elif lead is None or (trail and not tail_ok):
        v, why = None, "elements outside the column loop"
    else:
        v, why = verdict(c, jv, INT(0), S)
        v, why = capped(g, jv, data, v, why)
        if v is True and g.step != 1:
            v, why = False, "the row is written in reverse"
        if v is True and early(c):
            v, why = False, "writing stops inside a row when %s" % fmt_guards(early(c)[0][1].atoms, 2)[:160]
    req(ck, "elements", name + " columns", v, why, where)
    el = "%s[%s][%s]" % (data, show(noepoch(iv)), show(noepoch(jv)))
    sepb = sepa = 0
    lines = 0
    for k, ps, its in reps[0].paths:
        if k != "end":
            continue
        its = fold(its)
        vals = [i for i in its if i.k == "val"]
        if any(i.k == "rep" for i in its):
            ck.und("elements", name + " value", "element written by a loop", where)
            return
        if len(vals) != 1:
            if not vals:
                ck.bad("elements", name + " value", "an element is left out when %s" % fmt_guards(new_atoms(ps, c), 3)[:200], where)
            elif all(matches(i.v, el) for i in vals):
                ck.bad("elements", name + " value", "an element is written %d times" % len(vals), where)
            else:
                ck.und("elements", name + " value", "element written as %s" % its, where)
            continue
        x = noepoch(vals[0].v)
        nw = narrowed(x)
        if nw and matches(unnarrow(x), el):
            ck.bad("elements", name + " value", "what is written is %s" % nw, where)
        elif matches(x, el):
            ck.ok("elements", name + " value", "", where)
        elif x.op == "at" or cval(x) is not None or data in show(x):
            ck.require(False, "elements", name + " value", "element [i][j] is written as %s" % show(x)[:120], where)
        else:
            ck.und("elements", name + " value", "element written as %s" % show(x)[:120], where)
        j = its.index(vals[0])
        b = "".join(i.v for i in its[:j])
        a = "".join(i.v for i in its[j + 1:])
        want = "," if kind == "CSV" else "\n"
        core = lambda t: t.replace(" ", "").replace("\t", "")
        cb, ca = core(b), core(a)
        if cb + ca == want:
            ck.ok("layout", name + " separators", "", where)
        elif cb + ca == "":
            # allowed for the first (separator in front) or the last element (separator behind)
            e = ends(ps, jv, S)
            if e:
                ck.ok("layout", name + " separators", "", where)
            elif e is False:
                ck.bad("layout", name + " separators", "elements are not separated when %s" % fmt_guards(new_atoms(ps, c), 2)[:160], where)
            else:
                ck.und("layout", name + " separators", "separator left out when %s" % fmt_guards(new_atoms(ps, c), 2)[:160], where)
        elif kind == "CSV" and "\n" in cb + ca and ends(ps, jv, S):
            lines += 1
        else:
            ck.bad("layout", name + " separators", "an element is surrounded by %r and %r instead of being separated by %r" % (b, a, want), where)
    pb = "".join(i.v for i in pre if i.k == "lit")
    pa = "".join(i.v for i in post if i.k == "lit")
    if kind == "CSV":
        if lines:
            ck.und("layout", name + " lines", "line ended inside the column loop", where)
        elif (pa + pb).count("\n") == 1 and not (pa + pb).replace("\n", "").strip(" ,"):
            ck.ok("layout", name + " lines", "", where)
        elif not (pa + pb).replace("\n", "").strip(" ,") or True:
            ck.bad("layout", name + " lines", "a row is surrounded by %r and %r instead of ending its line" % (pb, pa), where)
    else:
        ck.require(not (pa + pb).strip(), "layout", name + " lines", "%r is written around a row" % (pb + pa), where)


def unnarrow(x):
    while isinstance(x, T) and x.op in ("cast", "i2d", "b2i", "float32", "toint", "trunc", "f2i", "d2i"):
        x = x.a[-1]
    return x


def ends(s, jv, S):
    """True: the path is that of the first or last element; False: it says nothing about the position; None: not decided"""
    touched = None
    for a, b in s.atoms.items():
        a = noepoch(a)
        if not any(x is jv for x in subterms(a)):
            continue
        l = bound(jv, a, b)
        if a.op == "nz" and a.a[0] is jv and not b:
            return True
        if a.op == "==" and b:
            d0 = diff(a.a[0], a.a[1])
            z = addl(lin(a.a[0]), lin(a.a[1]), -1)
            c = z[0].get(jv)
            if c:
                o = unlin(addl(({}, 0), ({x: y for x, y in z[0].items() if x is not jv}, z[1]), -c))
                if cval(o) == 0 or diff(o, S) == -1:
                    return True
                touched = True
        if l:
            k, t = l
            if k == "ub" and cval(t) == 1:
                return True
            if k == "lb" and diff(t, S) == -1:
                return True
            if k == "ub" and diff(t, S) == 0:
                continue
            if k == "lb" and cval(t) == 0:
                continue
            touched = True
        else:
            touched = True
    return None if touched else False


def new_atoms(s, r):
    h = set(r.hdr[0]) if r.hdr else set()
    return {a: b for a, b in s.atoms.items() if a not in h}


# ---- readers

SAMPLES = ["1.5", "-2", "+3", "1e5", "2E-3", "1.5,2.5", "inf", "nan", "0x1p3"]


def blankfree(t):
    """(source, True/False/None): t is its source without blanks; False when characters of numbers would be lost"""
    src, v = t, True
    while src.op == "f:std::regex_replace":
        pat = None
        for x in subterms(src.a[1]):
            if isinstance(x, T) and x.op == "str":
                pat = x.a[0]
        rep_ = src.a[2].a[0] if src.a[2].op == "str" else None
        if pat is None or rep_ is None:
            return src.a[0], None
        try:
            if rep_ != "" or any(re.search(pat, s) for s in SAMPLES):
                v = False
        except re.error:
            v = None
        src = src.a[0]
    return src, v


def one(prog, name):
    fs = [f for f in prog.functions.values() if f["name"] == name]
    return fs[0] if len(fs) == 1 else None


def readers(prog, ck):
    f = one(prog, "readInput::readCSV")
    if f:
        readcsv(prog, ck, f)
    f = one(prog, "readInput::parseDoubleVector")
    if f:
        parse(prog, ck, f)
    f = one(prog, "readInput::readMAT")
    if f:
        readmat(prog, ck, f)
    f = one(prog, "readInput::streamInit")
    if f:
        sinit(prog, ck, f)
    f = one(prog, "readInput::streamRead")
    if f:
        sread(prog, ck, f)


def engine(prog, ck, fn, rule, opq):
    try:
        en = Engine(prog, opaque=lambda f: f["short"] in opq, nomerge=True)
        return en.run(fn)
    except (PathLimit, Undecided) as e:
        ck.und(rule, fn["short"], str(e), w(fn))
        return None


def opensafe(atoms, want=True):
    for a, b in atoms.items():
        x = a
        while x.op == "nz":
            x = x.a[0]
        if x.op in ("stream", "opened", "is_open", "good") and b == want:
            return True
    return False


def callname(e):
    return e.d.get("name", "").split("::")[-1]


def readcsv(prog, ck, fn):
    sts = engine(prog, ck, fn, "read", {"parseDoubleVector"})
    if sts is None:
        return
    W = w(fn)
    recs = [r for r, ctx, _ in loops_of(sts) if not ctx]
    rd = [r for r in recs if any(e.k == "getline" for _, s in r.paths for e in s.ev)] or [r for r in recs if any("gotline" in show(a) for h in r.hdr for a in h)]
    if len({r.lid for r in rd}) != 1:
        ck.und("read", "readCSV", "reading loop not found", W)
        return
    # a file that cannot be opened
    for r in rd:
        header = [(a, b) for h in r.hdr for a, b in h.items()]
        byline = any("gotline" in show(a) and b for a, b in header)
        byeof = any(has_top(a, "eof") for a, b in header)
        bygood = any(a.op in ("nz", "good") and not has_top(a, "eof") and "gotline" not in show(a) and b for a, b in header)
        opened = opensafe(r.entry.atoms) if r.entry is not None and hasattr(r.entry, "atoms") else any(any(r2 is r for r2 in recs) and opensafe(s.atoms) for s in sts)
        ck.require(byline or bygood or opened, "read", "readCSV unopened", "a file that cannot be opened is read without end: its end is never reached", W)
        lim = limits(header)
        if lim:
            ck.bad("read", "readCSV lines", "rows are no longer read once %s no longer holds" % lim, W)
        if not (byline or byeof or bygood):
            ck.und("read", "readCSV end", "loop condition not decided", W)
        else:
            ck.ok("read", "readCSV end", "", W)
        res = None
        for k, s in r.paths:
            evs = [e for e, *_ in walk(s.ev)]
            start = 0
            if s.status == "ret" or k != "end":
                # leaving in the middle: only after a line that could not be read
                bad_line = any("gotline" in show(a) and not b for a, b in s.atoms.items())
                eofa = [a for a, b in s.atoms.items() if has_top(a, "eof") and b and "after" in show(a)]
                mine = own(s, r)
                n_lines = [e for e in mine if e.k == "getline"]
                n_parse = [e for e in mine if e.k == "call" and callname(e) == "parseDoubleVector"]
                if bad_line:
                    ck.ok("read", "readCSV lines", "", W)
                elif len(n_parse) < len(n_lines):
                    ck.bad("read", "readCSV lines", "reading ends at a line that is not looked at (%s)" % fmt_guards(s.atoms, 1)[:160], W)
                elif n_parse:
                    ck.bad("read", "readCSV lines", "rows after one for which %s are not read" % fmt_guards(s.atoms, 1)[:160], W)
                continue
            lines = [e for e in evs if e.k == "getline"]
            pc = [e for e in evs if e.k == "call" and callname(e) == "parseDoubleVector"]
            blank = [a for a, b in s.atoms.items() if not b and a.op == "nz" and a.a[0].op == "size"] + [a for a, b in s.atoms.items() if "gotline" in show(a) and not b]
            hl = [e for e in lines]
            expect = len(hl) if hl else 1
            if len(pc) < expect and not blank:
                ck.bad("read", "readCSV lines", "a line is skipped when %s" % fmt_guards(new_atoms(s, r), 2)[:160], W)
                continue
            for e in pc:
                src = noepoch(e.d["args"][0])
                src, v = blankfree(src)
                if src.op == "line":
                    req(ck, "read", "readCSV lines", v, "characters of numbers are removed from a line", W)
                else:
                    ck.und("read", "readCSV lines", "parsed text is %s" % show(src)[:80], W)
            # appended rows
            for h in r.H:
                cur = mk("lv", r.lid, h)
                v = s.store.get(h)
                if v is None or not isinstance(v, T):
                    continue
                b, xs = chain(v)
                if not xs:
                    if b is cur and pc and all(truth_of(s, e) for e in pc) and is_result(sts, r, h):
                        ck.bad("read", "readCSV rows", "a row that was parsed is not kept when %s" % fmt_guards(new_atoms(s, r), 2)[:160], W)
                    continue
                if not is_result(sts, r, h):
                    continue
                if b is not cur:
                    ck.bad("read", "readCSV rows", "rows read before are lost", W)
                    continue
                outs = [x for x in xs if x.op == "out"]
                if len(xs) != 1 or len(outs) != 1:
                    ck.require(len(xs) == len(outs) == len(pc), "read", "readCSV rows", "a line adds %d rows" % len(xs), W)
                    continue
                arg = noepoch(outs[0].a[3]) if len(outs[0].a) > 3 else None
                fresh = arg is not None and arg.op == "empty"
                if fresh:
                    ck.ok("read", "readCSV rows", "", W)
                elif arg is not None and arg.op in ("lv", "lo"):
                    ck.bad("read", "readCSV rows", "a row starts with what was left of the previous one", W)
                else:
                    ck.und("read", "readCSV rows", "row built from %s" % show(arg)[:60] if arg is not None else "row not decided", W)
                for e in pc:
                    if truth_of(s, e) is False:
                        ck.bad("read", "readCSV rows", "a blank line adds a row", W)
    for s in sts:
        if s.status != "ret":
            continue
        v = noepoch(s.ret)
        if v.op == "empty":
            ck.require(opensafe(s.atoms, False) or any("gotline" in show(a) and not b for a, b in s.atoms.items()), "read", "readCSV result", "an empty table is returned for a file that can be read", W)
        elif v.op in ("lo", "lv") and v.a[0] in {r.lid for r in rd}:
            ck.ok("read", "readCSV result", "", W)
        else:
            ck.und("read", "readCSV result", "returns %s" % show(v)[:80], W)


def has_top(a, op):
    while isinstance(a, T) and a.op in ("nz", "not", "cast", "b2i"):
        a = a.a[-1]
    return isinstance(a, T) and a.op == op


def walk(evs):
    return walk_ev(evs)


def own(s, r):
    """events of a leaving path that belong to the last pass of the loop"""
    out = []
    last = 0
    for i, e in enumerate(s.ev):
        if e.k == "loop" and e.rec is r:
            last = i + 1
    return s.ev[last:]


def truth_of(s, e):
    res = e.d.get("res")
    for a, b in s.atoms.items():
        if a.op == "nz" and a.a[0] is res:
            return b
    return None


def is_result(sts, r, h):
    return any(x is mk("lo", r.lid, h) or (isinstance(x, T) and x.op in ("lo", "lv") and x.a[0] == r.lid and x.a[1] is h) for s in sts if s.ret is not None for x in subterms(s.ret))


def parse(prog, ck, fn):
    sts = engine(prog, ck, fn, "fields", set())
    if sts is None:
        return
    W = w(fn)
    row = fn["params"][1]["n"]
    rv = lambda t: show(noepoch(t))
    # what is split: the line without blanks
    loops = [(r, ctx) for r, ctx, _ in loops_of(sts)]
    top = [r for r, ctx in loops if not ctx]
    for s in sts:
        if s.status != "ret":
            continue
        val = s.ret
        t = True if val is BOOL(True) or cval(val) == 1 else False if val is BOOL(False) or cval(val) == 0 else None
        final = rowvalue(s, fn)
        blank = isblank(s)
        if t is None:
            ck.und("fields", "parseDoubleVector result", "returns %s" % show(val)[:80], W)
        elif blank:
            ck.require(not t, "fields", "parseDoubleVector result", "a blank line is reported as a row", W)
        elif not blank and not t:
            got = final is not None and rv(final) != row
            ck.require(not got and any_blank_guard(s), "fields", "parseDoubleVector result", "a line with values is reported as blank when %s" % fmt_guards(s.atoms, 2)[:160], W)
        else:
            ck.ok("fields", "parseDoubleVector result", "", W)
    done = set()
    for r in top:
        if r.lid in done:
            continue
        done.add(r.lid)
        splitloop(ck, fn, r, sts, row, W)
    if not done:
        ck.und("fields", "parseDoubleVector", "no splitting loop", W)


def rowvalue(s, fn):
    n = fn["params"][1]["n"]
    for k, v in s.store.items():
        if show(k) == n or (k.op == "L.var" and k.a[-1] == n):
            return v
    return None


def isblank(s):
    for a, b in s.atoms.items():
        a = noepoch(a)
        if a.op == "nz" and a.a[0].op == "size" and not b:
            x = a.a[0].a[0]
            if x.op in ("f:std::regex_replace",) or x.op in ("init", "param", "arg"):
                return True
            if x.op not in ("lo", "lv"):
                return True
    return False


def any_blank_guard(s):
    return any(noepoch(a).op == "nz" and noepoch(a).a[0].op == "size" and not b for a, b in s.atoms.items())


def splitloop(ck, fn, r, sts, row, W):
    # names of what the loop changes
    rows_ = [h for h in r.H if any(isinstance(s.store.get(h), T) and chain(s.store[h])[1] for _, s in r.paths)]
    txt = [h for h in r.H if any(isinstance(s.store.get(h), T) and s.store[h].op in ("erasedrange", "substr") for _, s in r.paths)]
    I = "parseDoubleVector "
    hdr = [(a, b) for h in r.hdr for a, b in h.items()]
    bytok = any("gotline" in show(a) for a, _ in hdr)
    if len(rows_) != 1 or (len(txt) != 1 and not bytok):
        ck.und("fields", I + "splitting", "splitting loop shape not decided", W)
        return
    h = rows_[0]
    cur = mk("lv", r.lid, h)
    if r.init.get(h) is not None:
        b = show(noepoch(r.init[h]))
        if b not in (row, "init(%s)" % row):
            ck.und("fields", I + "row", "values collected in %s" % b[:60], W)
    if bytok:
        for k, s in r.paths:
            if k != "end":
                ck.bad("fields", I + "values", "values after one for which %s are left out" % fmt_guards(s.atoms, 1)[:120], W)
                continue
            b, xs = chain(s.store.get(h, cur))
            if not xs:
                if not any_blank_guard(s):
                    ck.bad("fields", I + "values", "a value is left out when %s" % fmt_guards(new_atoms(s, r), 2)[:160], W)
                continue
            nw = narrowed(xs[0])
            if nw:
                ck.bad("fields", I + "values", "a value is kept as %s" % nw, W)
                continue
            x = xs[0]
            okv = x.op == "toreal" and x.a[0].op == "line"
            req(ck, "fields", I + "values", True if okv and len(xs) == 1 and b is cur else None, "value %s" % show(x)[:80], W)
            if okv:
                d = show(x.a[0].a[1]) if len(x.a[0].a) > 1 else "?"
                ck.require("44" in d or "','" in d or '","' in d or d == "chr(44)", "fields", I + "splitting", "values are separated at %s" % d, W)
        return
    t = txt[0]
    tc = mk("lv", r.lid, t)
    src, v = blankfree(noepoch(r.init[t]))
    req(ck, "fields", I + "blanks", v, "characters of numbers are removed from the line before it is split", W)
    for k, s in r.paths:
        if k != "end":
            ck.bad("fields", I + "values", "values after one for which %s are left out" % fmt_guards(s.atoms, 1)[:160], W)
            continue
        b, xs = chain(s.store.get(h, cur))
        nt = noepoch(s.store.get(t, tc))
        p, cutn = cutof(nt, tc)
        if p is None:
            ck.und("fields", I + "splitting", "text after a value is %s" % show(nt)[:100], W)
            continue
        pos, ch = comma(p, tc)
        if pos is None:
            ck.und("fields", I + "splitting", "split at %s" % show(p)[:100], W)
            continue
        ck.require(ch == ",", "fields", I + "splitting", "values are separated at %r instead of a comma" % ch, W)
        ck.require(cutn == 1, "fields", I + "rest", "after a value the text continues %+d characters from the comma instead of right behind it" % cutn, W)
        if not xs:
            # an empty field may be skipped
            z = any(not b2 and noepoch(a).op == "nz" and noepoch(a).a[0] is p for a, b2 in s.atoms.items()) or any_blank_guard(s) or any(b2 and noepoch(a).op == "==" and p in noepoch(a).a and INT(0) in noepoch(a).a for a, b2 in s.atoms.items())
            ck.require(z, "fields", I + "values", "a value is left out when %s" % fmt_guards(new_atoms(s, r), 2)[:160], W)
            continue
        if len(xs) != 1 or b is not cur:
            ck.require(False if b is cur else None, "fields", I + "values", "a field adds %d values" % len(xs), W) if b is cur else ck.und("fields", I + "values", "row rebuilt", W)
            continue
        value(ck, I + "values", xs[0], tc, p, W)
    # the rest behind the last comma
    lo_t, lo_r = mk("lo", r.lid, t), mk("lo", r.lid, h)
    for s in sts:
        if s.status != "ret" or not any(x is lo_t for a in s.atoms for x in subterms(noepoch(a))) and not any(e.k == "loop" and e.rec.lid == r.lid for e in s.ev):
            continue
        pushes = [e for e in s.ev if e.k == "push"]
        empty = any(not b and noepoch(a).op == "nz" and noepoch(a).a[0].op == "size" and noepoch(a).a[0].a[0] is lo_t for a, b in s.atoms.items())
        if empty:
            ck.require(not pushes, "fields", I + "last", "a comma at the end of a line adds a value", W)
        elif not pushes:
            # must know that nothing is left
            ck.bad("fields", I + "last", "the value behind the last comma is left out when %s" % fmt_guards(s.atoms, 2)[:160], W)
        elif len(pushes) == 1:
            value(ck, I + "last", pushes[0].d["val"], lo_t, None, W)
        else:
            ck.bad("fields", I + "last", "the value behind the last comma is added %d times" % len(pushes), W)


def cutof(nt, tc):
    """text left after removing a value: (position of the comma, offset behind it)"""
    if nt.op == "erasedrange" and nt.a[0] is tc:
        if cval(nt.a[1]) != 0:
            return None, None
        e = nt.a[2]
    elif nt.op == "substr" and nt.a[0] is tc:
        e = nt.a[1]
    else:
        return None, None
    d, k = lin(e)
    if len(d) == 1 and list(d.values()) == [1]:
        return list(d)[0], k
    return None, None


def comma(p, tc):
    if p.op in ("s:find_first_of", "s:find") and p.a[0] is tc:
        c = p.a[1]
        ch = c.a[0] if c.op == "str" else chr(c.a[0]) if c.op == "chr" else None
        if len(p.a) > 2 and cval(p.a[2]) != 0:
            return None, None
        return p, ch
    return None, None


def value(ck, inst_, x, text, p, W):
    nw = narrowed(x)
    x0 = unnarrow(x)
    if x0.op != "toreal":
        if nw or x.op == "toint":
            ck.bad("fields", inst_, "a value is read as %s" % (nw or "a whole number"), W)
        else:
            ck.und("fields", inst_, "value %s" % show(x)[:80], W)
        return
    if nw:
        ck.bad("fields", inst_, "a value is kept as %s" % nw, W)
        return
    y = noepoch(x0.a[0])
    if y is text:
        # conversion stops at the comma by itself
        ck.ok("fields", inst_, "", W)
        return
    if y.op == "substr" and y.a[0] is text:
        o, n = y.a[1], y.a[2] if len(y.a) > 2 else None
        if cval(o) is not None and cval(o) != 0:
            ck.bad("fields", inst_, "the first %d characters of a value are left out" % cval(o), W)
            return
        if cval(o) is None:
            ck.und("fields", inst_, "value starts at %s" % show(o)[:60], W)
            return
        if p is None:
            # the rest: npos, or the position of a comma that is not there, or the size
            full = n is None or "npos" in show(n) or "find" in show(n) or (n.op == "size" and n.a[0] is text)
            d = diff(n, size(text)) if n is not None else 0
            if full:
                ck.ok("fields", inst_, "", W)
            elif d is not None and d < 0 or cval(n) is not None:
                ck.bad("fields", inst_, "the end of the last value is cut off (%s characters of it are read)" % show(n)[:60], W)
            else:
                ck.und("fields", inst_, "value is %s" % show(y)[:80], W)
            return
        d = diff(n, p)
        if d == 0 or d == 1:
            ck.ok("fields", inst_, "", W)
        elif d is not None and d < 0:
            ck.bad("fields", inst_, "the last %d characters of a value are cut off" % -d, W)
        elif cval(n) is not None:
            ck.bad("fields", inst_, "only %s characters of a value are read" % show(n), W)
        else:
            ck.und("fields", inst_, "value is %s" % show(y)[:80], W)
        return
    ck.und("fields", inst_, "value is %s" % show(y)[:80], W)


# ---- MAT

def limits(conds):
    """a loop condition that sets a fixed limit on how much is read"""
    for a, b in conds:
        if a.op == "<" and any(cval(x) is not None for x in a.a) and any(contains(x, lambda y: y.op == "lv") and not contains(x, lambda y: y.op in ("gotline", "stream", "opened", "line")) for x in a.a):
            return ("" if b else "not ") + show(a)
    return ""


def count_of(t):
    """number of lines read before the line a count comes from, or None"""
    while t.op in ("cast", "i2d"):
        t = t.a[-1]
    if t.op not in ("toint", "toreal"):
        return None
    src, v = blankfree(noepoch(t.a[0]))
    if src.op != "line":
        return None
    return lines_before(src.a[0])


def lines_before(st):
    n = 0
    while isinstance(st, T) and st.op in ("after", "touch"):
        n += st.op == "after"
        st = st.a[0]
    return n if isinstance(st, T) and st.op in ("opened", "stream") else None


def readmat(prog, ck, fn):
    sts = engine(prog, ck, fn, "read", set())
    if sts is None:
        return
    W = w(fn)
    R = loops_of(sts)
    outer = [r for r, ctx, _ in R if not ctx]
    lids = {r.lid for r in outer}
    if len(lids) != 1:
        ck.und("read", "readMAT", "loops not decided", W)
        return
    seen = False
    for r in outer:
        iv, g = binder(r)
        if iv is None:
            ck.und("read", "readMAT rows", "row loop not decided", W)
            continue
        n = count_of(g.hi)
        lo = cval(g.lo)
        if limits(g.extra):
            ck.bad("read", "readMAT rows", "rows are no longer read once %s no longer holds" % limits(g.extra), W)
        if n is None:
            d = lin(g.hi)
            cs = [(x, count_of(x)) for x in d[0]]
            if len(cs) == 1 and cs[0][1] is not None and d[0][cs[0][0]] == 1:
                n, off = cs[0][1], d[1]
            else:
                ck.und("read", "readMAT rows", "row count %s" % show(g.hi)[:60], W)
                continue
        else:
            off = 0
        if lo is None or g.step != 1 or g.extra:
            ck.und("read", "readMAT rows", "row range %r" % g, W)
        else:
            ck.require(n == 0 and off - lo == 0, "read", "readMAT rows", "the number of rows read is %s instead of the number on the first line" % ("that on line %d%s" % (n + 1, " %+d" % (off - lo) if off - lo else "")), W)
        inner = [x for x, ctx, _ in R if ctx and ctx[0] is r]
        for c in inner:
            jv, gc = binder(c)
            if jv is None:
                ck.und("read", "readMAT columns", "column loop not decided", W)
                continue
            d = lin(gc.hi)
            if limits(gc.extra):
                ck.bad("read", "readMAT columns", "values are no longer read once %s no longer holds" % limits(gc.extra), W)
            cs = [(x, count_of(x)) for x in d[0]]
            if len(cs) != 1 or cs[0][1] is None or cval(gc.lo) is None or gc.step != 1:
                ck.und("read", "readMAT columns", "column range %r" % gc, W)
            else:
                ck.require(cs[0][1] == 1 and d[1] - cval(gc.lo) == 0, "read", "readMAT columns", "the number of values per row is not the number on the second line", W)
            matvalues(ck, c, jv, W)
            seen = True
        for k, s in r.paths:
            if k != "end":
                continue
            for h in r.H:
                v = s.store.get(h)
                if not isinstance(v, T) or not is_result(sts, r, h):
                    continue
                b, xs = chain(v)
                cur = mk("lv", r.lid, h)
                if b is cur and len(xs) == 1:
                    x = noepoch(xs[0])
                    if x.op == "lo":
                        c = [c for c in inner if c.lid == x.a[0] and x.a[1] in c.init]
                        i0 = c and noepoch(c[0].init[x.a[1]])
                        if c and i0.op == "empty":
                            ck.ok("read", "readMAT row", "", W)
                        elif c and i0.op in ("lv", "lo"):
                            ck.bad("read", "readMAT row", "a row starts with the values of the previous one", W)
                        else:
                            ck.und("read", "readMAT row", "row not decided", W)
                    elif x.op == "empty":
                        ck.bad("read", "readMAT row", "an empty row is added", W)
                    elif x.op == "lv" and any(c.lid == x.a[0] for c in inner) and any(failed_line(a, b) for a, b in s.atoms.items()) and not any(contains(a, lambda y: y.op == "size" and noepoch(y.a[0]) is x) for a in s.atoms):
                        ck.bad("read", "readMAT row", "a row is kept although the file ended in the middle of it", W)
                    else:
                        ck.und("read", "readMAT row", "row %s" % show(x)[:60], W)
                elif b is cur and not xs:
                    ck.bad("read", "readMAT row", "a row is left out when %s" % fmt_guards(new_atoms(s, r), 2)[:160], W)
                else:
                    ck.und("read", "readMAT row", "rows %s" % show(v)[:80], W)
    if not seen:
        ck.und("read", "readMAT values", "values not found", W)


def matvalues(ck, c, jv, W):
    for k, s in c.paths:
        mine = own(s, c) if k != "end" else s.ev
        lines = [e for e in mine if e.k == "getline"]
        pushes = [e for e in mine if e.k == "push"]
        failed = any(failed_line(a, b) for a, b in s.atoms.items())
        got = any(passed_line(a, b, c) for a, b in s.atoms.items())
        if k != "end":
            ck.require(failed, "read", "readMAT end", "reading stops inside a row when %s" % fmt_guards(new_atoms(s, c), 1)[:160], W)
            continue
        if not lines:
            ck.und("read", "readMAT values", "no line is read for a value", W)
            continue
        if failed:
            ck.require(not pushes, "read", "readMAT values", "a value is added for a line that is not there", W)
            continue
        if not got:
            ck.bad("read", "readMAT values", "a value is taken from a line without asking whether it was read, so the last value is repeated for a file that is too short", W)
            continue
        if not pushes:
            blank = any_blank_guard(s)
            ck.require(blank, "read", "readMAT values", "a value is left out when %s" % fmt_guards(new_atoms(s, c), 1)[:160], W)
            continue
        if len(pushes) > 1:
            ck.bad("read", "readMAT values", "a line adds %d values" % len(pushes), W)
            continue
        x = pushes[0].d["val"]
        nw = narrowed(x)
        y = unnarrow(x)
        if nw or y.op == "toint":
            ck.bad("read", "readMAT values", "a value is read as %s" % (nw or "a whole number"), W)
            continue
        if y.op != "toreal":
            ck.und("read", "readMAT values", "value %s" % show(y)[:60], W)
            continue
        src, v = blankfree(noepoch(y.a[0]))
        if src.op != "line" or v is None:
            ck.und("read", "readMAT values", "value from %s" % show(src)[:60], W)
        else:
            ck.require(v, "read", "readMAT values", "characters of numbers are removed from a line", W)


def failed_line(a, b):
    return "gotline" in show(a) and not b


def passed_line(a, b, c):
    return b and any(isinstance(x, T) and x.op == "gotline" and any(isinstance(y, T) and y.op == "lv" and y.a[0] == c.lid for y in subterms(x)) for x in subterms(a))


# ---- rows read one at a time

def sinit(prog, ck, fn):
    sts = engine(prog, ck, fn, "stream", set())
    if sts is None:
        return
    W = w(fn)
    for s in sts:
        if s.status != "ret":
            continue
        op = [a for a in s.atoms if a.op == "nz" and a.a[0].op.startswith("f:fopen")]
        t = True if s.ret is BOOL(True) or cval(s.ret) == 1 else False if s.ret is BOOL(False) or cval(s.ret) == 0 else None
        if op and t is not None:
            ck.require(s.atoms[op[0]] == t, "stream", "streamInit result", "%s is reported for a file that %s" % ("success" if t else "failure", "cannot be opened" if t else "was opened"), W)
            x = op[0].a[0]
            ck.require(show(noepoch(x.a[0])) == fn["params"][0]["n"], "stream", "streamInit file", "the file opened is %s" % show(x.a[0])[:60], W)
            kept = [v for k, v in s.store.items() if k.op == "L.fld" and v is x]
            ck.require(bool(kept), "stream", "streamInit kept", "the opened file is not kept for reading", W)
        elif s.ret is not None and s.ret.op == "nz" and s.ret.a[0].op.startswith("f:fopen"):
            ck.ok("stream", "streamInit result", "", W)
        elif t and not op:
            ck.bad("stream", "streamInit result", "success is reported without asking whether the file was opened", W)
        else:
            ck.und("stream", "streamInit result", "returns %s" % show(s.ret)[:60], W)


def isgets(x):
    return isinstance(x, T) and x.op.startswith("f:fgets")


def sread(prog, ck, fn):
    sts = engine(prog, ck, fn, "stream", {"parseDoubleVector"})
    if sts is None:
        return
    W = w(fn)
    row = fn["params"][0]["n"]
    sizes = set()
    recs = {}
    for r, ctx, _ in loops_of(sts):
        recs.setdefault(r.lid, r)
    units = []          # (kind, state, record or None)
    for s in sts:
        if s.status == "ret":
            units.append(("ret", s, None))
    for r in recs.values():
        for k, s in r.paths:
            units.append((k, s, r))
    found = False
    for k, s, r in units:
        gets = [(x, b) for a, b in s.atoms.items() for x in subterms(a) if isgets(x) and a.op == "nz" and a.a[0] is x]
        closed = any(a.op == "nz" and a.a[0].op == "init" and "L.fld" == a.a[0].a[0].op and not b for a, b in s.atoms.items())
        evs = own(s, r) if r is not None and k != "end" else s.ev
        pc = [e for e in evs if e.k == "call" and callname(e) == "parseDoubleVector"]
        ended = any(not b for _, b in gets)
        for x, b in gets:
            sizes.add(x)
        if s.status == "ret":
            t = True if s.ret is BOOL(True) or cval(s.ret) == 1 else False if s.ret is BOOL(False) or cval(s.ret) == 0 else None
            if t is False:
                if closed or ended:
                    ck.ok("stream", "streamRead end", "", W)
                else:
                    why = "a line that holds no values" if any(truth_of(s, e) is False for e in pc) else "a line for which %s" % fmt_guards(s.atoms, 1)[:140]
                    if gets or pc or not s.atoms:
                        ck.bad("stream", "streamRead end", "the end of the stream is reported at %s" % why, W)
                    else:
                        ck.und("stream", "streamRead end", "ends when %s" % fmt_guards(s.atoms, 2)[:140], W)
            elif t is True:
                okv = any(truth_of(s, e) for e in pc)
                ck.require(okv, "stream", "streamRead row", "a row is reported that was not read", W)
                if okv:
                    found = True
            elif s.ret is not None and any(e.d.get("res") is s.ret or contains(s.ret, lambda x: x is e.d.get("res")) for e in pc):
                # the result of parsing is the result of reading: a blank line ends the stream
                ck.bad("stream", "streamRead end", "the end of the stream is reported at a line that holds no values", W)
                found = True
            else:
                ck.und("stream", "streamRead row", "returns %s" % show(s.ret)[:60] if s.ret is not None else "no result", W)
        # parsed text is a whole line
        for e in pc:
            txt = noepoch(e.d["args"][0])
            if not any(isgets(x) for x, _ in gets) :
                ck.und("stream", "streamRead line", "line not read with fgets", W)
                continue
            whole = False
            for a, b in s.atoms.items():
                a2 = noepoch(a)
                if b and a2.op == "==" and any(isinstance(x, T) and x.op == "chr" and x.a[0] == 10 for x in a2.a):
                    whole = True
                if b and a2.op == "nz" and (a2.a[0].op.startswith("f:strchr") or a2.a[0].op.startswith("f:feof")):
                    whole = True
                if not b and a2.op == "==" and "npos" in show(a2) and "find" in show(a2):
                    whole = True
            ck.require(whole, "stream", "streamRead line", "a line longer than the buffer is read in pieces, each taken for a row", W)
            place = e.d["places"][1] if len(e.d.get("places") or ()) > 1 else None
        if r is not None and k == "end" and gets and not pc and not ended:
            # nothing parsed: the text must be kept for the next round
            keep = False
            for h in r.H:
                v = s.store.get(h)
                if isinstance(v, T) and noepoch(v).op == "cat" and noepoch(v).a[0] is mk("lv", r.lid, h):
                    keep = True
            last = any(noepoch(a).op == "nz" and noepoch(a).a[0].op.startswith("f:feof") for a in s.atoms)
            after = any(e.k == "call" and callname(e) == "parseDoubleVector" for k2, s2, r2 in units if r2 is None for e in s2.ev if e.k == "call" and e.d.get("args") and any(x.op == "lo" for x in subterms(noepoch(e.d["args"][0]))))
            if keep and not last and not after:
                ck.bad("stream", "streamRead line", "a last line that does not end with a newline is never looked at", W)
            ck.require(keep, "stream", "streamRead line", "part of a line is read and dropped when %s" % fmt_guards(s.atoms, 1)[:140], W)
    for x in sizes:
        a = x.a
        n = cval(a[1])
        m = re.search(r"\[(\d+)\]", show(a[1]))
        n = int(m.group(1)) if m else n
        cap = None
        c = prog.classes.get(fn.get("cls") or "")
        for f in (c or {}).get("fields", []):
            mm = re.search(r"\[(\d+)\]", f.get("ty", ""))
            if mm and show(noepoch(a[0])).endswith("." + f["n"]) or mm and f["n"] in show(a[0]):
                cap = int(mm.group(1))
        if n is not None and cap is not None:
            ck.require(n <= cap, "stream", "streamRead buffer", "%d characters are read into a buffer of %d" % (n, cap), W)
        else:
            ck.und("stream", "streamRead buffer", "buffer size not decided", W)
    if not found:
        ck.und("stream", "streamRead", "no row is ever reported", W)
