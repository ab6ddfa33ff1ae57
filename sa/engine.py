"""Path-sensitive abstract interpreter over the extracted AST.

Every function is evaluated once, for all inputs, on symbolic value terms: a
state maps places to terms, branches contribute syntactic facts ("atoms"), a
branch whose atom contradicts a known one is dropped, and paths with the same
state are merged.  Loops are evaluated once from a state in which everything
the loop writes is forgotten.  No solver and no execution is involved."""
from .terms import *
from .front import AnalysisError


class PathLimit(Exception):
    pass


class Undecided(Exception):
    pass


class Ev:
    __slots__ = ("k", "d", "l", "file", "fn", "g")

    def __init__(self, k, d, l, file, fn, g):
        self.k, self.d, self.l, self.file, self.fn, self.g = k, d, l, file, fn, g

    def key(self):
        return (self.k, self.l, self.fn, tuple(sorted((a, b if not isinstance(b, list) else id(b)) for a, b in self.d.items() if isinstance(b, (T, str, int, bool, tuple)) or b is None) if False else tuple((a, b) if isinstance(b, (T, str, int, bool, tuple, type(None))) else (a, id(b)) for a, b in sorted(self.d.items()))))

    def __getattr__(self, n):
        try:
            return self.d[n]
        except KeyError:
            raise AttributeError(n)

    def where(self):
        return "%s:%s (%s)" % (self.file, self.l, self.fn)

    def __repr__(self):
        return "<%s %s @%s:%s>" % (self.k, {a: b for a, b in self.d.items() if a not in ("paths",)}, self.file, self.l)


class State:
    __slots__ = ("store", "refs", "atoms", "ev", "status", "ret", "epoch", "tepoch", "fep")

    def __init__(self):
        self.store, self.refs, self.atoms, self.ev = {}, {}, {}, []
        self.status, self.ret, self.epoch, self.tepoch, self.fep = "ok", None, "", "", {}

    def fork(self):
        s = State.__new__(State)
        s.store, s.refs, s.atoms, s.ev = self.store.copy(), self.refs.copy(), self.atoms.copy(), self.ev.copy()
        s.status, s.ret, s.epoch, s.tepoch, s.fep = self.status, self.ret, self.epoch, self.tepoch, self.fep
        return s


class Frame:
    __slots__ = ("id", "fn", "this", "file", "name", "depth", "chain", "ret_ref", "dyn", "caps")

    def __init__(self, id, fn, this, depth, chain, dyn=None):
        self.caps = {}
        self.id, self.fn, self.this, self.depth, self.chain = id, fn, this, depth, chain
        self.file, self.name, self.dyn = fn["file"], fn["name"], dyn


class LoopRec:
    __slots__ = ("lid", "l", "file", "fn", "paths", "H", "init", "exits", "kind", "ivs", "space", "cont", "var", "entry", "conds", "hdr")


MAXDEPTH = 8
PURE_STD = {"size", "length", "empty", "c_str", "data", "count", "str", "capacity", "max_size"}
NOOPS = {"utils::writeLog", "utils::writeDebug", "utils::writeError"}


SCALAR = {"int", "unsigned int", "long", "unsigned long", "size_t", "short", "unsigned", "float", "double", "bool", "char"}


def epos(p):
    """end() as the position it denotes, for arithmetic on it"""
    return size(p.a[0]) if p.op == "end" else p


class Engine:
    def __init__(self, prog, opaque=None, pure=(), cap=3000, streams=True, depth=MAXDEPTH, dyn=None, nomerge=False):
        self.nomerge = nomerge
        self.p, self.cap, self.depth = prog, cap, depth
        self.opaque = opaque or (lambda f: False)
        self.pure = set(pure)
        self.streams = streams
        self.frames, self.nid, self.loopH, self.lambdas = {}, {}, {}, {}
        self.derived = {}
        self.effc = {}
        self.dyn = dyn
        self.visited = set()
        self.unknown = []
        self.keep = []
        self.recs = {}

    # ------------------------------------------------------------------ ids
    def node(self, e):
        i = self.nid.get(id(e))
        if i is None:
            i = self.nid[id(e)] = len(self.nid) + 1
            self.keep.append(e)
        return i

    # ------------------------------------------------------------------ effects
    def effects(self, key):
        """(writes this, writes heap, set of by-ref param indexes) -- conservative, transitive"""
        if key in self.effc:
            return self.effc[key]
        self.effc[key] = (False, False, frozenset())
        for _ in range(3):
            r = self._eff(key)
            if r == self.effc[key]:
                break
            self.effc[key] = r
        return self.effc[key]

    def _eff(self, key):
        f = self.p.functions.get(key)
        if f is None:
            return (True, True, frozenset(range(10)))
        th, hp, rf = [False], [False], set()
        pidx = {p["id"]: (i, p["m"]) for i, p in enumerate(f["params"])}
        refs = {}

        def root(e):
            while True:
                k = e["k"]
                if k == "this":
                    return "this"
                if k == "mem":
                    if e["b"]["k"] == "this":
                        return "this"
                    if e["arrow"]:
                        return "heap"
                    e = e["b"]
                elif k == "idx":
                    e = e["a"]
                elif k == "un" and e["op"] == "*":
                    return "heap" if e["e"]["k"] != "this" else "this"
                elif k == "opcall" and e["a"]:
                    if e["op"] in ("*", "->"):
                        return "any"
                    e = e["a"][0]
                elif k == "mcall":
                    if e["f"]["short"] if "f" in e else None in ("at", "front", "back", "begin", "end"):
                        e = e["o"]
                    else:
                        return "any"
                elif k == "conv":
                    e = e["e"]
                elif k == "var":
                    if e["id"] in pidx:
                        i, m = pidx[e["id"]]
                        return ("p", i) if m in ("ref",) else "local"
                    if e["id"] in refs:
                        return refs[e["id"]]
                    return "local" if e.get("sc") == "local" else "heap"
                else:
                    return "local"

        def mark(r):
            if r == "this":
                th[0] = True
            elif r == "heap":
                hp[0] = True
            elif r == "any":
                th[0] = hp[0] = True
                rf.update(i for i, m in pidx.values() if m == "ref")
            elif isinstance(r, tuple):
                rf.add(r[1])

        def walk(x):
            if isinstance(x, list):
                for y in x:
                    walk(y)
                return
            if not isinstance(x, dict):
                return
            k = x.get("k")
            if k == "decl" and x.get("ref") and x.get("init"):
                refs[x["id"]] = root(x["init"])
            if k == "rfor":
                if x["var"].get("ref"):
                    refs[x["var"]["id"]] = root(x["range"])
            if k == "assign":
                mark(root(x["a"]))
            elif k == "un" and ("++" in x["op"] or "--" in x["op"]):
                mark(root(x["e"]))
            elif k == "delete":
                hp[0] = True
            elif k in ("opcall",):
                if x["op"] in ("=", "+=", "-=", "++", "--", "<<", ">>", "[]", "*="):
                    if x["op"] in ("<<", ">>") and root(x["a"][0]) == "heap" and x["a"][0]["k"] == "var":
                        pass
                    elif not (x["op"] == "[]" and "map" not in (x["a"][0].get("t") or "")):
                        mark(root(x["a"][0]))
                    if x["op"] == ">>" and len(x["a"]) > 1:
                        mark(root(x["a"][1]))
            elif k in ("mcall", "call", "ctor"):
                fr = x.get("f")
                if fr and fr.get("repo") and fr["name"] not in NOOPS:
                    keys = [fr["key"]]
                    if fr.get("virt") and k == "mcall" and not x.get("qual"):
                        keys += self.overrides(fr["key"])
                    for kk in keys:
                        t2, h2, r2 = self.effects(kk)
                        if t2 and k == "mcall":
                            mark("heap" if x.get("arrow") and x["o"]["k"] != "this" else root(x["o"]))
                        if h2:
                            hp[0] = True
                        for i in r2:
                            if i < len(x["a"]) and i < len(fr["pm"]) and fr["pm"][i] == "ref":
                                mark(root(x["a"][i]))
                elif fr:
                    if k == "mcall" and not fr.get("const") and fr["short"] not in ("begin", "end", "rbegin", "rend", "find", "at", "front", "back", "is_open", "size"):
                        mark(root(x["o"]))
                    for i, m in enumerate(fr["pm"]):
                        if m == "ref" and i < len(x["a"]) and k != "ctor":
                            mark(root(x["a"][i]))
                    if k == "call" and fr["short"] not in READING and not (fr["short"] == "for_each" and reads_only(x["a"])):
                        for a in x["a"][3 if fr["short"] in COPYING else 0:] if fr["short"] != "copy" else x["a"][2:]:
                            if a["k"] == "mcall" and "f" in a and a["f"]["short"] in ("begin", "end"):
                                mark(root(a["o"]))
                            elif a["k"] == "call":
                                for b in a["a"]:
                                    mark(root(b))
                elif not (k == "ctor" and not x.get("f")):
                    th[0] = hp[0] = True
                    for a in x["a"]:
                        mark(root(a))
                else:
                    th[0] = hp[0] = True
            for kk, v in x.items():
                if isinstance(v, (dict, list)) and kk not in ("f", "pm"):
                    walk(v)

        walk(f["body"])
        for i in f.get("inits", []):
            walk(i["e"])
        return (th[0], hp[0], frozenset(rf))

    def overrides(self, key):
        out = []
        for c in self.p.classes.values():
            for m in c["methods"]:
                if key in m["overrides"]:
                    out.append(m["key"])
                    out += self.overrides(m["key"])
        return out

    # ------------------------------------------------------------------ store
    def root(self, pl):
        while pl.op in ("L.fld", "L.elem"):
            pl = pl.a[0]
        return pl

    def read(self, st, pl):
        if pl.op == "L.elem":
            return at(self.read(st, pl.a[0]), pl.a[1])
        if pl.op == "L.val":
            return pl.a[0]
        v = st.store.get(pl)
        if v is None:
            v = self.inherit(st, pl)
        ch = self.children(st, pl)
        for f, c in ch:
            v = setf(v, f, self.read(st, c))
        return v

    def children(self, st, pl):
        out = []
        seen = set()
        for k in st.store:
            if k.op == "L.fld":
                # direct child on the chain
                x = k
                while x.op == "L.fld" and x.a[0] is not pl:
                    x = x.a[0]
                if x.op == "L.fld" and x.a[0] is pl and x not in seen:
                    seen.add(x)
                    out.append((x.a[1], x))
        return sorted(out, key=lambda z: z[0])

    def inherit(self, st, pl):
        if pl.op == "L.fld":
            p = pl.a[0]
            if p.op == "L.elem":
                return getf(self.read(st, p), pl.a[1])
            if p in st.store:
                return getf(st.store[p], pl.a[1])
            if p.op == "L.val":
                return getf(p.a[0], pl.a[1])
            if p.op == "L.fld":
                b = self.inherit(st, p)
                if b.op != "init":
                    return getf(b, pl.a[1])
        r = self.root(pl)
        if r.op == "L.deref":
            if r.a[0].op == "new":
                return mk("init", pl, "")
            if r.a[0].op == "this":
                return mk("init", pl, st.tepoch)
            ep = st.epoch
            x = pl
            while x.op == "L.fld":
                ep = ep + st.fep.get(x.a[1], "")
                x = x.a[0]
            return mk("init", pl, ep)
        return mk("init", pl, "")

    def write(self, st, pl, v, note=None):
        if pl.op == "L.elem":
            c = self.read(st, pl.a[0])
            self.write(st, pl.a[0], mk("upd", c, pl.a[1], v, 1 if note == "map" else 0), note=None)
            return
        if pl.op == "L.val":
            return
        if pl.op == "L.fld":
            # a field of an element is a functional update of the element
            x = pl
            chain = []
            while x.op == "L.fld":
                chain.append(x.a[1])
                x = x.a[0]
            if x.op == "L.elem":
                base = self.read(st, x)
                self.write(st, x, self.setpath(base, chain[::-1], v))
                return
        st.store[pl] = v
        for k in list(st.store):
            if k is not pl and k.op == "L.fld":
                x = k.a[0]
                while True:
                    if x is pl:
                        del st.store[k]
                        break
                    if x.op != "L.fld":
                        break
                    x = x.a[0]
        r = self.root(pl)
        if r.op == "L.deref" and r.a[0].op not in ("this",) and pl.op == "L.fld":
            self.alias_kill(st, pl, r)

    def alias_kill(self, st, pl, r):
        """a write through one pointer may change what another pointer (not known distinct) shows"""
        f = pl.a[1]
        for k in list(st.store):
            if k is pl or k.op != "L.fld" or k.a[1] != f:
                continue
            r2 = self.root(k)
            if r2.op == "L.deref" and r2 is not r and r2.a[0].op != "this":
                if r.a[0].op == "new" and r2.a[0].op == "new":
                    continue
                if r.a[0].op == "new" and self.older(r2.a[0], r.a[0]):
                    continue
                if r2.a[0].op == "new" and self.older(r.a[0], r2.a[0]):
                    continue
                st.store[k] = mk("alias", k, st.store[pl])
        if r.a[0].op != "new":
            st.fep = dict(st.fep)
            st.fep[f] = self.fresh(st.fep.get(f, ""), "w%d" % st.store[pl].uid)

    def older(self, t, newt):
        return not contains(t, lambda x: x.op in ("lv", "lo", "call", "havoc", "alias")) and not contains(t, lambda x: x is newt)

    def setpath(self, base, chain, v):
        if not chain:
            return v
        return setf(base, chain[0], self.setpath(getf(base, chain[0]), chain[1:], v))

    def havoc_root(self, st, pl, tag):
        self.write(st, pl, mk("havoc", tag, pl))

    # ------------------------------------------------------------------ events
    def event(self, st, fr, kind, e, **d):
        st.ev.append(Ev(kind, d, e.get("l"), fr.file, fr.name, st.atoms.copy()))

    # ------------------------------------------------------------------ atoms
    def implied(self, st, a):
        if a.op == "bool":
            return a.a[0]
        if a.op == "not":
            r = self.implied(st, a.a[0])
            return None if r is None else not r
        at_ = st.atoms
        if a in at_:
            return at_[a]
        if a.op == "<":
            x, y = a.a
            if at_.get(mk("<", y, x)) is True:
                return False
            e = mk("==", *sorted((x, y), key=lambda t: t.uid)) if not (isconst(x) or isconst(y)) else eq(x, y)
            if at_.get(e) is True:
                return False
            for t, c, flip in ((x, cval(y), False), (y, cval(x), True)):
                if c is None:
                    continue
                lo, hi, los, his = self.interval(st, t)
                if not flip:  # t < c
                    if hi is not None and (hi < c or (hi == c and his)):
                        return True
                    if lo is not None and (lo > c or (lo == c)):
                        return False
                else:  # c < t
                    if lo is not None and (lo > c or (lo == c and los)):
                        return True
                    if hi is not None and hi <= c:
                        return False
        elif a.op == "==":
            x, y = a.a
            if at_.get(mk("<", x, y)) or at_.get(mk("<", y, x)):
                return False
            if isconst(y):
                for b, v in at_.items():
                    if v and b.op == "==" and b.a[0] is x and isconst(b.a[1]) and b.a[1] is not y:
                        return False
                c = cval(y)
                if c is not None:
                    lo, hi, los, his = self.interval(st, x)
                    if lo is not None and (c < lo or (c == lo and los)):
                        return False
                    if hi is not None and (c > hi or (c == hi and his)):
                        return False
                elif y.op == "str" and at_.get(mk("nz", size(x))) is False:
                    return False
        elif a.op == "nz":
            x = a.a[0]
            lo, hi, los, his = self.interval(st, x)
            if lo is not None and (lo > 0 or (lo == 0 and los)):
                return True
            if hi is not None and (hi < 0 or (hi == 0 and his)):
                return True
            if lo == 0 and hi == 0:
                return False
            if x.op == "size" and not unsignedcontainer(x):
                for b, v in at_.items():
                    if v and b.op == "==" and b.a[0] is x.a[0] and b.a[1].op == "str":
                        return bool(b.a[1].a[0])
                    if v and b.op == "has" and b.a[0] is x.a[0]:
                        return True
        return None

    def interval(self, st, t):
        lo = hi = None
        los = his = False
        if unsigned(t):
            lo = 0
        off = 0
        base = t
        for b, v in st.atoms.items():
            if b.op == "<":
                x, y = b.a
                cx, cy = cval(x), cval(y)
                if x is base and cy is not None:
                    if v:
                        if hi is None or cy < hi or (cy == hi and not his):
                            hi, his = cy, True
                    else:
                        if lo is None or cy > lo:
                            lo, los = cy, False
                elif y is base and cx is not None:
                    if v:
                        if lo is None or cx > lo or (cx == lo and not los):
                            lo, los = cx, True
                    else:
                        if hi is None or cx < hi:
                            hi, his = cx, False
            elif b.op == "==" and v and b.a[0] is base and cval(b.a[1]) is not None:
                lo = hi = cval(b.a[1])
                los = his = False
            elif b.op == "nz" and b.a[0] is base:
                if not v:
                    lo = hi = 0
                    los = his = False
                elif lo == 0 and not los:
                    los = True
        if unsigned(t):
            if lo is not None and los:
                lo, los = int(lo) + 1, False
            if hi is not None and his:
                import math
                hi, his = math.ceil(hi) - 1, False
            if lo is not None and not los and at_ne(st, base, lo):
                lo += 1
        return lo, hi, los, his

    def branch(self, st, t):
        """states in which truth value of t is known: [(state, bool)]"""
        if t.op == "bool":
            return [(st, t.a[0])]
        if t.op == "not":
            return [(s, not b) for s, b in self.branch(st, t.a[0])]
        if t.op == "&&":
            out = []
            for s, b in self.branch(st, t.a[0]):
                out += self.branch(s, t.a[1]) if b else [(s, False)]
            return out
        if t.op == "||":
            out = []
            for s, b in self.branch(st, t.a[0]):
                out += [(s, True)] if b else self.branch(s, t.a[1])
            return out
        if t.op == "ite":
            out = []
            for s, b in self.branch(st, t.a[0]):
                out += self.branch(s, truth(t.a[1] if b else t.a[2]))
            return out
        t = truth(t)
        if t.op in ("bool", "not", "&&", "||"):
            return self.branch(st, t)
        r = self.implied(st, t)
        if r is not None:
            return [(st, r)]
        s2 = st.fork()
        st.atoms[t] = True
        s2.atoms[t] = False
        return [(st, True), (s2, False)]

    # ------------------------------------------------------------------ conditions
    def cond(self, st, fr, e):
        if e is None:
            return [(st, True)]
        k = e["k"]
        if k == "bin" and e["op"] in ("&&", "||"):
            out = []
            for s, b in self.cond(st, fr, e["a"]):
                if b == (e["op"] == "&&"):
                    out += self.cond(s, fr, e["b"])
                else:
                    out.append((s, b))
            return out
        if k == "un" and e["op"] == "!":
            return [(s, not b) for s, b in self.cond(st, fr, e["e"])]
        out = []
        for s, v in self.ev(st, fr, e):
            out += self.branch(s, v)
        return out

    # ------------------------------------------------------------------ lvalues
    def lv(self, st, fr, e):
        k = e["k"]
        if k == "var":
            return [(st, self.varplace(st, fr, e))]
        if k == "mem":
            if "cls" not in e and e["b"]["k"] != "this" and False:
                pass
            f = e["f"]
            if e["b"]["k"] == "this":
                return [(st, self.fldref(st, mk("L.fld", fr.this, f)))]
            if self.overarrow(e["b"]):
                return [(s, self.fldref(s, mk("L.fld", self.norm(p), f))) for s, p in self.lv(st, fr, e["b"])]
            if e["arrow"]:
                out = []
                for s, v in self.ev(st, fr, e["b"]):
                    out.append((s, self.fldref(s, mk("L.fld", self.deref(s, fr, v, e), f))))
                return out
            return [(s, self.fldref(s, mk("L.fld", p, f))) for s, p in self.lv(st, fr, e["b"])]
        if k == "this":
            return [(st, fr.this)]
        if k == "un" and e["op"] == "*":
            if e["e"]["k"] == "this":
                return [(st, fr.this)]
            return [(s, self.deref(s, fr, v, e)) for s, v in self.ev(st, fr, e["e"])]
        if k == "un" and e["op"] in ("++", "--"):
            return [(s, p) for s, p in self.incdec(st, fr, e, e["e"])]
        if k == "idx":
            out = []
            for s, p in self.lv(st, fr, e["a"]) if e["a"].get("tk") != "ptr" or True else []:
                for s2, i in self.ev(s, fr, e["b"]):
                    self.event(s2, fr, "index", e, c=self.read(s2, p), i=i, place=p, how="[]")
                    out.append((s2, mk("L.elem", p, i)))
            return out
        if k == "opcall":
            op, a = e["op"], e["a"]
            if e.get("f", {}).get("repo") and not self.implicit_assign(e):
                return [(s, self.valplace(v)) for s, v in self.ev(st, fr, e)]
            if op == "[]":
                out = []
                ism = "map" in (a[0].get("t") or "")
                for s, p in self.lv(st, fr, a[0]):
                    for s2, i in self.ev(s, fr, a[1]):
                        c = self.read(s2, p)
                        if ism:
                            h = has(c, i)
                            im = self.implied(s2, h)
                            if im is not True:
                                self.event(s2, fr, "mapidx", e, c=c, key=i, known=im)
                                self.write(s2, p, mk("touch", c, i))
                        else:
                            self.event(s2, fr, "index", e, c=c, i=i, place=p, how="[]")
                        out.append((s2, mk("L.elem", p, i)))
                return out
            if op == "*" and len(a) == 1:
                return [(s, self.deref(s, fr, v, e)) for s, v in self.ev(st, fr, a[0])]
            if op == "->":
                return [(s, self.deref(s, fr, v, e)) for s, v in self.ev(st, fr, a[0])]
            if op in ("=", "+=", "-=", "*=", "/=", "<<", ">>", "|=", "&=", "^="):
                return [(s, p) for s, p, v in self.assignop(st, fr, e)]
            if op in ("++", "--"):
                if not e.get("post"):
                    return self.incdec(st, fr, {"op": op, "l": e.get("l"), "k": "un"}, a[0])
        if k == "assign":
            return [(s, p) for s, p, v in self.assign(st, fr, e)]
        if k == "conv" or k == "copy":
            if k == "conv" and e["ck"] in ("IntegralCast",):
                pass
            else:
                return self.lv(st, fr, e["e"])
        if k == "cond":
            out = []
            for s, b in self.cond(st, fr, e["c"]):
                out += self.lv(s, fr, e["a"] if b else e["b"])
            return out
        if k == "mcall" and "f" in e and not e["f"].get("repo"):
            n = e["f"]["short"]
            if n in ("at", "front", "back"):
                out = []
                for s, p in self.recv(st, fr, e):
                    c = self.read(s, p)
                    if n == "at":
                        for s2, i in self.ev(s, fr, e["a"][0]):
                            c = self.read(s2, p)
                            self.event(s2, fr, "index", e, c=c, i=i, place=p, how="at")
                            out.append((s2, mk("L.elem", p, i)))
                    else:
                        i = INT(0) if n == "front" else sub(size(c), INT(1))
                        self.event(s, fr, "nonempty", e, c=c, place=p, how=n)
                        out.append((s, mk("L.elem", p, i)))
                return out
        if k in ("mcall", "call") and e.get("f", {}).get("repo") and e["f"].get("rref"):
            return [(s, v) for s, v in self.callexpr(st, fr, e, want_place=True)]
        if k == "bin" and e["op"] == ",":
            out = []
            for s, _ in self.ev(st, fr, e["a"]):
                out += self.lv(s, fr, e["b"])
            return out
        return [(s, self.valplace(v)) for s, v in self.ev(st, fr, e)]

    def valplace(self, v):
        return mk("L.val", v)

    def fldref(self, st, p):
        return st.refs.get(p, p)

    def varplace(self, st, fr, e):
        if e.get("sc") in ("global", "smember"):
            return mk("L.glob", e.get("q") or e["n"])
        if e["id"] in fr.caps:      # what a lambda captured is the variable of the frame that created it, or its copy
            ofr, copy = fr.caps[e["id"]]
            return copy if copy is not None else self.varplace(st, ofr, e)
        p = mk("L.var", fr.id, e["id"], e["n"])
        if p in st.refs:
            return st.refs[p]
        if p not in st.store:
            # lambda bodies look outwards
            for anc in self.outer(fr):
                q = mk("L.var", anc, e["id"], e["n"])
                if q in st.refs:
                    return st.refs[q]
                if q in st.store:
                    return q
        return p

    def outer(self, fr):
        out = []
        c = fr.chain
        while c is not None:
            out.append(c[0])
            c = c[1]
        return out

    def deref(self, st, fr, v, e):
        if v.op == "iter":
            self.event(st, fr, "deref_iter", e, it=v, c=self.read(st, v.a[0]))
            pos = v.a[1]
            c = self.read(st, v.a[0])
            if pos.op == "find":
                kind = pos.a[2]
                if kind == "map":
                    return mk("L.kv", v.a[0], pos.a[1])
                if kind == "set":
                    return mk("L.val", pos.a[1])
            return mk("L.elem", v.a[0], pos)
        if v.op == "riter":
            return mk("L.elem", v.a[0], sub(sub(size(self.read(st, v.a[0])), INT(1)), v.a[1]))
        if v.op == "addr":
            return v.a[0]
        if v.op == "this":
            return fr.this
        self.event(st, fr, "deref", e, ptr=v)
        return mk("L.deref", v)

    # ------------------------------------------------------------------ rvalues
    def ev(self, st, fr, e):
        if e is None:
            return [(st, mk("void"))]
        k = e["k"]
        m = getattr(self, "x_" + k, None)
        if m is None:
            self.unknown.append((k, fr.file, e.get("l")))
            return [(st, mk("unk", k, self.node(e)))]
        r = m(st, fr, e)
        if len(r) > self.cap:
            raise PathLimit("%s:%s" % (fr.file, e.get("l")))
        return r

    def x_int(self, st, fr, e):
        return [(st, INT(e["v"]))]

    def x_char(self, st, fr, e):
        return [(st, mk("chr", e["v"]))]

    def x_real(self, st, fr, e):
        return [(st, REAL(e["v"]))]

    def x_str(self, st, fr, e):
        return [(st, STR(e["v"]))]

    def x_bool(self, st, fr, e):
        return [(st, BOOL(e["v"]))]

    def x_null(self, st, fr, e):
        return [(st, NULL)]

    def x_zero(self, st, fr, e):
        return [(st, INT(0) if e.get("tk") in ("int", "uint", "real", "char", "bool") else NULL if e.get("tk") == "ptr" else EMPTY)]

    def x_sizeof(self, st, fr, e):
        return [(st, mk("sizeof", e["arg"]))]

    def x_fn(self, st, fr, e):
        return [(st, mk("fn", e["f"]["key"]))]

    def x_this(self, st, fr, e):
        if fr.this is not None and fr.this.op == "L.deref":
            return [(st, fr.this.a[0])]
        return [(st, mk("addr", fr.this))]

    def x_var(self, st, fr, e):
        if e.get("sc") in ("global", "smember"):
            return [(st, self.readglob(st, fr, e))]
        p = self.varplace(st, fr, e)
        return [(st, self.readp(st, p))]

    def readglob(self, st, fr, e):
        p = mk("L.glob", e.get("q") or e["n"])
        return self.read(st, p)

    def readp(self, st, p):
        return self.read(st, self.norm(p))

    def norm(self, p):
        """L.kv(container, key).first/.second -> key / element"""
        if p.op == "L.fld":
            b = self.norm(p.a[0])
            if b.op == "L.kv":
                if p.a[1] == "second":
                    return mk("L.elem", b.a[0], b.a[1])
                return mk("L.val", b.a[1])
            if b.op == "L.deref" and b.a[0].op == "addr":
                b = b.a[0].a[0]
            if b is not p.a[0]:
                return mk("L.fld", b, p.a[1])
        if p.op == "L.elem":
            b = self.norm(p.a[0])
            if b is not p.a[0]:
                return mk("L.elem", b, p.a[1])
        if p.op == "L.kv" and False:
            return p
        return p

    def x_mem(self, st, fr, e):
        out = []
        for s, p in self.lv(st, fr, e):
            p = self.norm(p)
            if p.op == "L.kv":
                out.append((s, mk("kv", self.read(s, p.a[0]), p.a[1])))
            else:
                out.append((s, self.read(s, p)))
        return out

    def x_conv(self, st, fr, e):
        ck = e["ck"]
        out = []
        for s, v in self.ev(st, fr, e["e"]):
            if ck in ("PointerToBoolean", "IntegralToBoolean", "FloatingToBoolean"):
                v = truth(v)
            elif ck == "FloatingToIntegral":
                if v.op == "int":
                    pass
                elif v.op == "real":
                    v = INT(int(v.a[0]))
                else:
                    v = mk("trunc", v)
            elif ck in ("IntegralCast", "IntegralToFloating"):
                if v.op == "bool":
                    v = INT(v.a[0])
                elif v.op in ("<", "==", "not", "nz", "has", "&&", "||"):
                    v = mk("b2i", v)
                elif v.op == "chr":
                    v = mk("chr", v.a[0])
                elif ck == "IntegralCast" and e.get("tk") == "uint" and e.get("from") == "int" and v.op == "int" and v.a[0] < 0:
                    v = mk("wrap", v)
                elif ck == "IntegralCast" and not isconst(v) and v.op != "chr" and any(x in str(e.get("t")) for x in ("short", "int16", "int8", "unsigned char", "signed char")):
                    v = mk("narrow", v)
            elif ck == "FloatingCast":
                if e.get("t") == "float":
                    v = mk("float32", v) if not isconst(v) else v
            out.append((s, v))
        return out

    def x_copy(self, st, fr, e):
        return self.rvalue(st, fr, e["e"])

    def rvalue(self, st, fr, e):
        """value of an lvalue-or-rvalue expression of record type"""
        if e["k"] in ("var", "mem", "idx") or (e["k"] == "un" and e["op"] == "*") or (e["k"] == "opcall" and e["op"] in ("[]", "*", "=")) or (e["k"] == "mcall" and e.get("f", {}).get("short") in ("front", "back", "at")):
            out = []
            for s, p in self.lv(st, fr, e):
                p = self.norm(p)
                out.append((s, mk("kv", self.read(s, p.a[0]), p.a[1]) if p.op == "L.kv" else self.read(s, p)))
            return out
        return self.ev(st, fr, e)

    def x_un(self, st, fr, e):
        op = e["op"]
        if op == "!":
            return [(s, neg(truth(v))) for s, v in self.ev(st, fr, e["e"])]
        if op == "-":
            return [(s, mul(INT(-1), v)) for s, v in self.ev(st, fr, e["e"])]
        if op == "+":
            return self.ev(st, fr, e["e"])
        if op == "~":
            return [(s, mk("~", v)) for s, v in self.ev(st, fr, e["e"])]
        if op == "&":
            out = []
            for s, p in self.lv(st, fr, e["e"]):
                p = self.norm(p)
                out.append((s, p.a[0] if p.op == "L.deref" else mk("addr", p)))
            return out
        if op == "*":
            return self.rvalue_place(st, fr, e)
        if op in ("++", "--"):
            return [(s, self.readp(s, p)) for s, p in self.incdec(st, fr, e, e["e"])]
        if op in ("p++", "p--"):
            out = []
            for s, p in self.lv(st, fr, e["e"]):
                p = self.norm(p)
                old = self.read(s, p)
                self.assign_to(s, fr, p, self.bump(s, fr, old, op[1:], e), e)
                out.append((s, old))
            return out
        return [(st, mk("unk", "un" + op, self.node(e)))]

    def rvalue_place(self, st, fr, e):
        out = []
        for s, p in self.lv(st, fr, e):
            p = self.norm(p)
            out.append((s, mk("kv", self.read(s, p.a[0]), p.a[1]) if p.op == "L.kv" else self.read(s, p)))
        return out

    def bump(self, st, fr, v, op, e):
        d = 1 if op == "++" else -1
        if (v.a[1] if v.op in ("iter", "riter") else v).op == "lv":
            self.event(st, fr, "bump", e, v=v)
        if v.op == "iter":
            return mk("iter", v.a[0], add(epos(v.a[1]), INT(d)) if v.a[1].op not in ("find",) else mk("adv", v.a[1], d))
        if v.op == "riter":
            return mk("riter", v.a[0], add(v.a[1], INT(d)))
        return add(v, INT(d))

    def incdec(self, st, fr, e, tgt):
        out = []
        for s, p in self.lv(st, fr, tgt):
            p = self.norm(p)
            if p.op == "L.val":
                out.append((s, mk("L.val", self.bump(s, fr, p.a[0], e["op"][-2:], e))))
                continue
            self.assign_to(s, fr, p, self.bump(s, fr, self.read(s, p), e["op"][-2:], e), e)
            out.append((s, p))
        return out

    def x_assign(self, st, fr, e):
        return [(s, v) for s, p, v in self.assign(st, fr, e)]

    def arith(self, op, a, b):
        if op == "+":
            if a.op in ("iter", "riter"):
                return mk(a.op, a.a[0], add(epos(a.a[1]), b))
            if b.op in ("iter",):
                return mk(b.op, b.a[0], add(epos(b.a[1]), a))
            return add(a, b)
        if op == "-":
            if a.op == "iter" and b.op == "iter" and a.a[0] is b.a[0]:
                return sub(epos(a.a[1]), epos(b.a[1]))
            if a.op in ("iter", "riter"):
                return mk(a.op, a.a[0], sub(epos(a.a[1]), b))
            return sub(a, b)
        if op == "*":
            return mul(a, b)
        if op in ("/", "%", "&", "|", "^", "<<", ">>"):
            x, y = cval(a), cval(b)
            if a.op == "int" and b.op == "int" and y:
                if op == "/":
                    q = abs(x) // abs(y)
                    return INT(q if (x < 0) == (y < 0) else -q)
                if op == "%":
                    return INT(x % y) if x >= 0 and y > 0 else mk("%", a, b)
                if op == "<<":
                    return INT(x << y)
            return mk(op, a, b)
        return mk(op, a, b)

    def assign(self, st, fr, e):
        out = []
        if e["op"] == "=":
            for s, v in self.rvalue(st, fr, e["b"]):
                for s2, p in self.lv(s, fr, e["a"]):
                    p = self.norm(p)
                    self.assign_to(s2, fr, p, v, e)
                    out.append((s2, p, v))
            return out
        for s, v in self.ev(st, fr, e["b"]):
            for s2, p in self.lv(s, fr, e["a"]):
                p = self.norm(p)
                old = self.read(s2, p)
                if e["op"] == "/" and e["a"].get("tk") == "real" or e["op"] == "/" and e["b"].get("tk") == "real":
                    nv = mk("/", old, v) if not (isconst(old) and isconst(v) and cval(v)) else REAL(cval(old) / cval(v))
                else:
                    nv = self.arith(e["op"], old, v)
                self.assign_to(s2, fr, p, nv, e)
                out.append((s2, p, nv))
        return out

    def islocal(self, p):
        return self.root(p).op in ("L.var", "L.val", "L.tmp")

    def assign_to(self, st, fr, p, v, e, note=None):
        if p.op == "L.kv":
            return
        if p.op == "L.elem" and note is None:
            c = self.read(st, p.a[0])
            note = "map" if p.a[1].op == "str" or c.op in ("touch", "maplit") else None
        if not self.islocal(p):
            self.event(st, fr, "write", e, place=p, val=v, old=self.read(st, p))
        else:
            self.event(st, fr, "lwrite", e, place=p, val=v) if p.op != "L.var" else None
        self.write(st, p, v, note)

    def assignop(self, st, fr, e):
        op, a = e["op"], e["a"]
        out = []
        if op in ("<<", ">>"):
            return self.shift(st, fr, e)
        if op == "=":
            for s, v in self.rvalue(st, fr, a[1]):
                for s2, p in self.lv(s, fr, a[0]):
                    p = self.norm(p)
                    if v.op == "ilist":
                        v = mk("list", *v.a)
                    if v.op in ("chr",):
                        v = STR(chr(v.a[0]))
                    self.assign_to(s2, fr, p, v, e)
                    out.append((s2, p, v))
            return out
        for s, v in self.rvalue(st, fr, a[1]):
            for s2, p in self.lv(s, fr, a[0]):
                p = self.norm(p)
                old = self.read(s2, p)
                if op == "+=" and old.op not in ("iter", "riter"):
                    nv = cat(old, v)
                else:
                    nv = self.arith(op[:-1], old, v)
                self.assign_to(s2, fr, p, nv, e)
                out.append((s2, p, nv))
        return out

    def shift(self, st, fr, e):
        op, a = e["op"], e["a"]
        out = []
        for s, p in self.lv(st, fr, a[0]):
            p = self.norm(p)
            if op == "<<":
                if a[1]["k"] == "fn":
                    nm = a[1]["f"]["short"]
                    v = STR("\n") if nm == "endl" else STR("")
                    vs = [(s, v)]
                else:
                    vs = self.rvalue(s, fr, a[1])
                for s2, v in vs:
                    if v.op == "chr":
                        v = STR(chr(v.a[0]))
                    if not isinstance(v, T) or (v.op == "str" and v.a[0] == ""):
                        out.append((s2, p, v))
                        continue
                    if p.op == "L.glob":
                        if self.streams:
                            self.event(s2, fr, "emit", e, stream=p, val=v, t=a[1].get("t"))
                    else:
                        old = self.read(s2, p)
                        if not self.islocal(p) or True:
                            self.event(s2, fr, "emit", e, stream=p, val=v, t=a[1].get("t"))
                        self.write(s2, p, mk("sw", old, v))
                    out.append((s2, p, v))
            else:
                for s2, q in self.lv(s, fr, a[1]):
                    q = self.norm(q)
                    old = self.read(s2, p)
                    self.write(s2, q, mk("extract", old))
                    self.write(s2, p, mk("after", old))
                    out.append((s2, p, old))
        return out

    def cmp(self, st, op, a, b):
        for x, y in ((a, b), (b, a)):
            if x.op == "iter" and y.op == "iter":
                if op in ("==", "!="):
                    r = self.itereq(st, a, b)
                    return r if op == "==" else neg(r)
                a, b = a.a[1], b.a[1]
                break
            if x.op == "riter" and y.op == "riter":
                a, b = a.a[1], b.a[1]
                r = neg(lt(a, b)) if op == "==" else lt(a, b) if op == "!=" else None
                if r is not None:
                    return r
        if a.op == "chr" and b.op == "chr":
            a, b = INT(a.a[0]), INT(b.a[0])
        if op == "==":
            return eq(a, b)
        if op == "!=":
            return neg(eq(a, b))
        if op == "<":
            return lt(a, b)
        if op == ">":
            return lt(b, a)
        if op == "<=":
            return neg(lt(b, a))
        if op == ">=":
            return neg(lt(a, b))
        return mk(op, a, b)

    def itereq(self, st, a, b):
        if a is b:
            return TRUE
        for x, y in ((a, b), (b, a)):
            if y.a[1].op == "end":
                c = y.a[1].a[0]
                pos = x.a[1]
                if pos.op == "find":
                    return neg(has(pos.a[0], pos.a[1]))
                if pos.op == "end":
                    return TRUE
                # normal iterators: pos == end  <=> !(pos < size)
                return neg(lt(pos, size(c)))
        return eq(a.a[1], b.a[1])

    def x_bin(self, st, fr, e):
        op = e["op"]
        if op in ("&&", "||"):
            out = []
            for s, b in self.cond(st, fr, e):
                out.append((s, BOOL(b)))
            return out
        if op == ",":
            out = []
            for s, _ in self.ev(st, fr, e["a"]):
                out += self.ev(s, fr, e["b"])
            return out
        out = []
        for s, a in self.ev(st, fr, e["a"]):
            for s2, b in self.ev(s, fr, e["b"]):
                if op in ("==", "!=", "<", ">", "<=", ">="):
                    v = self.cmp(s2, op, a, b)
                elif op == "/" and e.get("tk") == "real":
                    v = REAL(cval(a) / cval(b)) if isconst(a) and isconst(b) and cval(b) else mk("/", a, b)
                else:
                    v = self.arith(op, a, b)
                out.append((s2, v))
        return out

    def x_cond(self, st, fr, e):
        out = []
        for s, b in self.cond(st, fr, e["c"]):
            out += self.rvalue(s, fr, e["a"] if b else e["b"])
        return out

    def x_idx(self, st, fr, e):
        return self.rvalue_place(st, fr, e)

    def x_opcall(self, st, fr, e):
        op, a = e["op"], e["a"]
        f = e.get("f", {})
        if op == "()" and "(anonymous class)" in f.get("name", ""):
            return self.callfunctor(st, fr, e)
        if f.get("repo") and not self.implicit_assign(e):
            return self.callexpr(st, fr, e)
        if op in ("[]",) or (op in ("*", "->") and len(a) == 1):
            return self.rvalue_place(st, fr, e)
        if op in ("=", "+=", "-=", "*=", "/=") or (op in ("<<", ">>") and "stream" in (a[0].get("t") or "")):
            return [(s, self.read(s, p)) for s, p, v in self.assignop(st, fr, e)]
        if op in ("<<", ">>"):
            return [(s, self.read(s, p)) for s, p, v in self.shift(st, fr, e)]
        if op in ("++", "--"):
            if e.get("post"):
                out = []
                for s, p in self.lv(st, fr, a[0]):
                    p = self.norm(p)
                    old = self.read(s, p)
                    self.assign_to(s, fr, p, self.bump(s, fr, old, op, e), e)
                    out.append((s, old))
                return out
            return [(s, self.readp(s, p)) for s, p in self.incdec(st, fr, {"op": op, "l": e.get("l")}, a[0])]
        if op == "()":
            return self.callfunctor(st, fr, e)
        if op == "!":
            return [(s, neg(truth(v))) for s, v in self.ev(st, fr, a[0])]
        if len(a) == 2:
            out = []
            for s, x in self.rvalue(st, fr, a[0]):
                for s2, y in self.rvalue(s, fr, a[1]):
                    if op in ("==", "!=", "<", ">", "<=", ">="):
                        v = self.cmp(s2, op, x, y)
                    elif op == "+" and "string" in (e.get("t") or ""):
                        v = cat(x if x.op != "chr" else STR(chr(x.a[0])), y if y.op != "chr" else STR(chr(y.a[0])))
                    else:
                        v = self.arith(op, x, y)
                    out.append((s2, v))
            return out
        if op == "-" and len(a) == 1:
            return [(s, mul(INT(-1), v)) for s, v in self.ev(st, fr, a[0])]
        return [(st, mk("unk", "op" + op, self.node(e)))]

    def implicit_assign(self, e):
        return e["op"] == "=" and e["f"]["key"] not in self.p.functions

    def callfunctor(self, st, fr, e):
        out = []
        for s, f in self.rvalue(st, fr, e["a"][0]):
            if f.op == "lambda" and f.a[0] in self.lambdas:
                out += self.inline_lambda(s, fr, e, f, e["a"][1:])
            else:
                for s2, args in self.evargs(s, fr, e["a"][1:]):
                    out.append((s2, mk("apply", f, *args)))
        return out

    def inline_lambda(self, st, fr, e, f, argexprs):
        node, ofr = self.lambdas[f.a[0]]
        fn = {"key": node["key"], "name": ofr.fn["name"], "file": ofr.file, "params": node["params"], "body": node["body"], "rref": False}
        if fr.depth >= self.depth:
            raise Undecided("lambda depth")
        fid = self.frames.setdefault(("lam", fr.id, self.node(e), f.a[0]), len(self.frames) + 1)
        nf = Frame(fid, fn, ofr.this, fr.depth + 1, (ofr.id, ofr.chain), ofr.dyn)
        for c in node.get("caps", []):
            if "id" in c:
                nf.caps[c["id"]] = (ofr, None if c.get("byref") else self.capcopy(ofr, f.a[0], c["id"]))
        return self.run_inline(st, fr, nf, fn, argexprs, e, lambda_=True)

    def x_lambda(self, st, fr, e):
        key = "lam%d.%d" % (fr.id, self.node(e))
        self.lambdas[key] = (e, fr)
        for c in e.get("caps", []):
            if "id" in c and not c.get("byref"):
                x = next(nodes_of(e["body"], lambda y: y.get("k") == "var" and y.get("id") == c["id"]), None)
                if x is not None:
                    self.write(st, self.capcopy(fr, key, c["id"]), self.read(st, self.varplace(st, fr, x)))
        return [(st, mk("lambda", key))]

    def capcopy(self, fr, key, id):
        return mk("L.var", fr.id, "%s.%d" % (key, id), "copy")

    def x_new(self, st, fr, e):
        t = mk("new", e["ty"], "%d.%d" % (fr.id, self.node(e)))
        pl = mk("L.deref", t)
        for k in list(st.store):
            if self.root(k) is pl:
                del st.store[k]
        init = e["init"]
        self.event(st, fr, "new", e, ty=e["ty"], val=t)
        if init is None:
            return [(st, t)]
        if init["k"] in ("ctor",):
            out = []
            for s in self.construct(st, fr, init, pl, e["ty"]):
                out.append((s, t))
            return out
        if init["k"] == "zero":
            self.write(st, pl, mk("zeroed"))
            return [(st, t)]
        out = []
        for s, v in self.rvalue(st, fr, init):
            self.write(s, pl, v)
            out.append((s, t))
        return out

    def x_delete(self, st, fr, e):
        out = []
        for s, v in self.ev(st, fr, e["e"]):
            self.event(s, fr, "delete", e, ptr=v)
            out.append((s, mk("void")))
        return out

    def x_init(self, st, fr, e):
        out = []
        for s, args in self.evargs(st, fr, e["a"]):
            fs = e.get("fields")
            t = e.get("t") or ""
            if fs is not None and "std::" not in t.split("<")[0] and len(fs) >= len(args) and fs:
                flat = []
                for f, v in zip(fs, args):
                    flat += [f, v]
                out.append((s, mk("agg", *flat)))
            elif len(args) == 1 and t.replace("const ", "") in SCALAR:
                out.append((s, args[0]))
            elif not args:
                out.append((s, EMPTY))
            else:
                out.append((s, mk("list", *args)))
        return out

    def x_throw(self, st, fr, e):
        st.status = "throw"
        self.event(st, fr, "throw", e)
        return [(st, mk("void"))]

    def x_unk(self, st, fr, e):
        self.unknown.append((e.get("why"), fr.file, e.get("l")))
        sts = [st]
        for sub_ in e.get("s", []):
            nx = []
            for s in sts:
                nx += [s2 for s2, _ in self.ev(s, fr, sub_)]
            sts = nx
        return [(s, mk("unk", e.get("why", "?"), self.node(e))) for s in sts]

    def evargs(self, st, fr, es):
        sts = [(st, ())]
        for x in es:
            nx = []
            for s, vs in sts:
                for s2, v in self.rvalue(s, fr, x):
                    nx.append((s2, vs + (v,)))
            sts = nx
            if len(sts) > self.cap:
                raise PathLimit("args")
        return sts

    def x_ctor(self, st, fr, e):
        f = e["f"]
        cls = f.get("cls", "")
        if f.get("repo"):
            n = mk("L.tmp", "%d.%d" % (fr.id, self.node(e)))
            for k in list(st.store):
                if self.root(k) is n:
                    del st.store[k]
            out = []
            for s in self.construct(st, fr, e, n, cls):
                v = self.read(s, n)
                for k in list(s.store):
                    if self.root(k) is n:
                        del s.store[k]
                out.append((s, v))
            return out
        out = []
        for s, args in self.evargs(st, fr, e["a"]):
            out.append((s, self.stdctor(s, fr, e, cls, args)))
        return out

    def stdctor(self, st, fr, e, cls, args):
        if cls and cls.startswith("std::function") and len(args) == 1 and args[0].op == "lambda":
            return args[0]
        short = cls.split("::")[-1].split("<")[0]
        if not args:
            if "stream" in short:
                return mk("obj", "std::" + short)
            return EMPTY
        if short == "pair":
            if len(args) == 2:
                return mk("pair", *args)
            if len(args) == 1:
                return args[0]
        if short in ("vector", "set", "list", "map", "unordered_map", "basic_string", "multiset", "deque", "unordered_set"):
            if len(args) >= 1 and args[0].op == "list":
                if short in ("map", "unordered_map") and all(x.op == "pair" for x in args[0].a):
                    flat = []
                    for x in args[0].a:
                        flat += [x.a[0], x.a[1]]
                    return mk("maplit", *flat)
                return args[0]
            if len(args) >= 2 and args[0].op == "iter" and args[1].op == "iter":
                v = self.rangeval(st, args[0], args[1])
                if short == "set" and len(args) == 2 and v.op in ("lo", "lv", "init", "param", "push", "cat", "sorted", "slice", "at", "fld", "list") and "_Rb_tree" not in str((e["a"][0] or {}).get("ty", "")):
                    return v.a[0] if v.op == "sorted" and v.a[0].op == "setof" else mk("setof", v)
                return v
            if short == "basic_string" and len(args) == 1:
                a = args[0]
                return STR(chr(a.a[0])) if a.op == "chr" else a
            if short == "basic_string":
                return args[0] if len(args) == 2 and args[1].op == "empty" else mk("substr", *args)
            if short == "vector":
                n = [a for a in args]
                if len(n) == 1:
                    return mk("filled", n[0], INT(0))
                return mk("filled", n[0], n[1])
            if len(args) == 1:
                return args[0]
        if "stream" in short:
            self.event(st, fr, "open", e, stream=None, path=args[0], args=args)
            return mk("stream", "std::" + short, *args)
        if short == "__normal_iterator" and len(args) == 1:
            return args[0]
        return mk("ctor", short, *args)

    def rangeval(self, st, a, b):
        if a.a[0] is b.a[0]:
            c = self.read(st, a.a[0])
            if cval(a.a[1]) == 0 and b.a[1].op == "end":
                return c
            return mk("slice", c, a.a[1], size(c) if b.a[1].op == "end" else b.a[1])
        return mk("range", a, b)

    # construct object at place
    def construct(self, st, fr, e, place, cls):
        f = e["f"]
        fn = self.p.functions.get(f["key"])
        cname = f.get("cls") or cls
        if fn is None:
            out = []
            for s, args in self.evargs(st, fr, e["a"]):
                if not f.get("repo"):
                    self.write(s, place, self.stdctor(s, fr, e, cname, args))
                else:
                    self.default_init(s, fr, place, cname, e.get("zero"))
                out.append(s)
            return out
        if fr.depth >= self.depth or f["key"] in self.stack(fr) or self.opaque(fn):
            out = []
            for s, args in self.evargs(st, fr, e["a"]):
                self.write(s, place, mk("obj", cname, *args))
                out.append(s)
            return out
        fid = self.frames.setdefault((fr.id, self.node(e), f["key"]), len(self.frames) + 1)
        nf = Frame(fid, fn, place, fr.depth + 1, None)
        nf.ret_ref = fr
        self.parent[fid] = (fr, f["key"])
        return [s for s, _ in self.run_inline(st, fr, nf, fn, e["a"], e, ctor=cname)]

    parent = {}

    def stack(self, fr):
        out = []
        n = 0
        while fr is not None and n < 40:
            out.append(fr.fn["key"])
            p = self.parent.get(fr.id)
            fr = p[0] if p else None
            n += 1
        return out

    def default_init(self, st, fr, place, cname, zero=False):
        c = self.p.classes.get(cname)
        if c is None:
            return
        for b in c["bases"]:
            self.default_init(st, fr, place, b, zero)
        for fld in c["fields"]:
            p = mk("L.fld", place, fld["n"])
            if fld["init"] is not None:
                nf = Frame(self.frames.setdefault(("dinit", fr.id, cname), len(self.frames) + 1), {"file": c["file"], "name": cname, "key": cname}, place, fr.depth, None)
                r = self.rvalue(st, nf, fld["init"])
                if r:
                    self.write(st, p, r[0][1])
            elif fld["tk"] in ("int", "uint", "real", "bool", "char", "ptr", "enum"):
                self.write(st, p, UNINIT if not zero else INT(0))
            elif fld["tk"] == "rec":
                if fld["ty"].startswith("std::") or "basic_" in fld["ty"]:
                    self.write(st, p, EMPTY if "stream" not in fld["ty"] else mk("obj", "std::fstream"))
                else:
                    self.default_init(st, fr, p, fld["ty"], zero)

    # ------------------------------------------------------------------ calls
    def x_mcall(self, st, fr, e):
        return self.callexpr(st, fr, e)

    def x_call(self, st, fr, e):
        return self.callexpr(st, fr, e)

    def overarrow(self, b):
        """b is p-> of an iterator or smart pointer: already the object pointed to"""
        return b["k"] == "opcall" and b["op"] == "->" and len(b["a"]) == 1 and not b.get("f", {}).get("repo")

    def recv(self, st, fr, e):
        """places of the implicit object"""
        o = e["o"]
        if o["k"] == "this":
            return [(st, fr.this)]
        if e.get("arrow") and not self.overarrow(o):
            out = []
            for s, v in self.ev(st, fr, o):
                out.append((s, self.norm(self.deref(s, fr, v, e))))
            return out
        return [(s, self.norm(p)) for s, p in self.lv(st, fr, o)]

    def dynclass(self, fr, st, pl):
        r = pl
        if r is fr.this and fr.dyn:
            return fr.dyn
        if r.op == "L.deref" and r.a[0].op == "new":
            return r.a[0].a[0]
        if r.op == "L.deref" and r.a[0].op == "this" and self.dyn:
            return self.dyn
        return None

    def callexpr(self, st, fr, e, want_place=False):
        f = e.get("f")
        if f is None:
            out = []
            fp = e.get("fp")
            for s, v in (self.ev(st, fr, fp) if fp else [(st, mk("unk", "fp", 0))]):
                tgt = self.p.functions.get(v.a[0]) if v.op == "fn" else None
                if tgt is not None and not self.opaque(tgt) and fr.depth < self.depth and tgt["key"] not in self.stack(fr):
                    fid = self.frames.setdefault((fr.id, self.node(e), tgt["key"]), len(self.frames) + 1)
                    nf = Frame(fid, tgt, None, fr.depth + 1, None)
                    self.parent[fid] = (fr, tgt["key"])
                    out += self.run_inline(s, fr, nf, tgt, e["a"], e)
                elif v.op == "lambda" and v.a[0] in self.lambdas:
                    out += self.inline_lambda(s, fr, e, v, e["a"])
                else:
                    for s2, args in self.evargs(s, fr, e["a"]):
                        self.event(s2, fr, "call", e, key="fp", name="fp", recv=v, args=args, res=mk("apply", v, *args), virt=False)
                        out.append((s2, mk("apply", v, *args)))
            return out
        if f["name"] in NOOPS:
            return [(s, mk("void")) for s, _ in self.evargs(st, fr, e["a"])]
        if f.get("repo"):
            return self.repocall(st, fr, e, f, want_place)
        if e["k"] == "mcall":
            return self.stdmethod(st, fr, e, f)
        return self.stdfunc(st, fr, e, f)

    def repocall(self, st, fr, e, f, want_place):
        ismem = e["k"] == "mcall"
        isop = e["k"] == "opcall"
        args = e["a"]
        if isop and f.get("method"):
            rec = [(s, self.norm(p)) for s, p in self.lv(st, fr, args[0])]
            args = args[1:]
            ismem = True
        else:
            rec = self.recv(st, fr, e) if ismem and not f.get("static") else [(st, None)]
        out = []
        for s, pl in rec:
            key = f["key"]
            virt = f.get("virt") and ismem and not e.get("qual")
            fn = self.p.functions.get(key)
            dyn = None
            if virt:
                dc = self.dynclass(fr, s, pl)
                if dc:
                    fn = self.p.resolve_virtual(dc, f)
                    dyn = dc
                elif self.overrides(key):
                    fn = None
            elif ismem and pl is fr.this:
                dyn = fr.dyn
            op = fn is None or fr.depth >= self.depth or fn["key"] in self.stack(fr) or self.opaque(fn)
            if fn is not None and not op:
                fid = self.frames.setdefault((fr.id, self.node(e), fn["key"]), len(self.frames) + 1)
                nf = Frame(fid, fn, pl, fr.depth + 1, None, dyn)
                self.parent[fid] = (fr, fn["key"])
                out += self.run_inline(s, fr, nf, fn, args, e, want_place=want_place)
            else:
                out += self.opaquecall(s, fr, e, f, fn, pl, args, virt and fn is None)
        return out

    def opaquecall(self, st, fr, e, f, fn, pl, args, virt):
        out = []
        key = fn["key"] if fn else f["key"]
        keys = [key] + (self.overrides(key) if virt else [])
        wt = wh = False
        refs = set()
        if f["name"] not in self.pure:
            for k in keys:
                if k in self.p.functions:
                    a, b, c = self.effects(k)
                    wt, wh, refs = wt or a, wh or b, refs | set(c)
                elif len(keys) == 1:
                    wt = wh = True
        sts = [(st, (), ())]
        for i, x in enumerate(args):
            nx = []
            byref = i < len(f["pm"]) and f["pm"][i] == "ref"
            for s, vs, ps in sts:
                if byref:
                    for s2, p in self.lv(s, fr, x):
                        p = self.norm(p)
                        nx.append((s2, vs + (self.read(s2, p),), ps + (p,)))
                else:
                    for s2, v in self.rvalue(s, fr, x):
                        nx.append((s2, vs + (v,), ps + (None,)))
            sts = nx
        for s, vs, ps in sts:
            tag = "%d.%d" % (fr.id, self.node(e))
            pure = not (wt or wh or refs)
            rv = self.read(s, pl) if (pl is not None and pure and pl.op != "L.deref") else pl
            if pure:
                base = () if pl is None or self.stateless(key) else (pl, s.epoch, s.tepoch) if pl.op in ("L.deref", "L.fld", "L.glob") else (rv,)
                res = mk("call", f["name"], *(base + vs))
            else:
                res = mk("call", f["name"], *(vs + (tag,)))
            self.event(s, fr, "call", e, key=key, name=f["name"], recv=pl, args=vs, places=ps, res=res, virt=bool(virt), cls=f.get("cls"))
            if wt and pl is not None:
                r = self.root(pl)
                if r.op == "L.deref" and r.a[0].op == "this" and pl is r:
                    for k in list(s.store):
                        if self.root(k) is r:
                            del s.store[k]
                    s.tepoch = self.fresh(s.tepoch, tag)
                elif r.op == "L.deref" and pl is r:
                    wh = True
                else:
                    self.write(s, pl, mk("havoc", tag, pl))
            if wh:
                for k in list(s.store):
                    r = self.root(k)
                    if r.op == "L.deref" and r.a[0].op != "this":
                        del s.store[k]
                s.epoch = self.fresh(s.epoch, tag)
            for i, p in enumerate(ps):
                if p is not None and i in refs and p.op != "L.kv":
                    self.write(s, p, mk("out", f["name"], i, *(vs + (tag,))))
            if want_void(f):
                res = mk("void")
            out.append((s, res))
        return out

    def fresh(self, ep, tag):
        return "%s/%s" % (str(ep)[-30:], tag)

    def stateless(self, key):
        """method body does not read fields of this"""
        f = self.p.functions.get(key)
        if f is None:
            return False
        c = self.effc.get(("sl", key))
        if c is None:
            c = not any_node(f["body"], lambda x: x.get("k") == "this")
            self.effc[("sl", key)] = c
        return c

    def run_inline(self, st, fr, nf, fn, args, e, ctor=None, want_place=False, lambda_=False):
        self.visited.add(fn["key"])
        # bind parameters
        sts = [(st, ())]
        for i, p in enumerate(fn["params"]):
            if i >= len(args):
                break
            x = args[i]
            byref = p["m"] in ("ref", "cref")
            nx = []
            for s, bs in sts:
                if byref:
                    for s2, pl in self.lv(s, fr, x):
                        nx.append((s2, bs + (("r", self.norm(pl)),)))
                else:
                    for s2, v in self.rvalue(s, fr, x):
                        nx.append((s2, bs + (("v", v),)))
            sts = nx
        out = []
        for s, bs in sts:
            for p, (kind, v) in zip(fn["params"], bs):
                pl = mk("L.var", nf.id, p["id"], p["n"])
                if kind == "r":
                    if v.op == "L.kv":
                        v = mk("L.val", mk("kv", self.read(s, v.a[0]), v.a[1]))
                    s.refs[pl] = v
                else:
                    s.refs.pop(pl, None)
                    self.write(s, pl, v)
            if ctor:
                ss = self.ctor_inits(s, nf, fn, ctor)
            else:
                ss = [s]
            for s1 in ss:
                for s2 in self.stmts_run(s1, nf, fn["body"]):
                    r = s2.ret if s2.ret is not None else mk("void")
                    if s2.status in ("ret", "ok"):
                        s2.status = "ok"
                    s2.ret = None
                    if r.op == "retplace":
                        r = r.a[0] if want_place else self.read(s2, r.a[0])
                    elif want_place:
                        r = self.valplace(r)
                    # drop the callee's locals
                    self.drop(s2, nf.id)
                    out.append((s2, r))
        return self.merge_vals(out)

    def drop(self, st, fid):
        for k in list(st.store):
            r = self.root(k)
            if r.op == "L.var" and r.a[0] == fid:
                del st.store[k]
        for k in list(st.refs):
            if k.op == "L.var" and k.a[0] == fid:
                del st.refs[k]

    def ctor_inits(self, st, nf, fn, cname):
        c = self.p.classes.get(cname)
        sts = [st]
        place = nf.this
        inits = {i.get("field"): i for i in fn.get("inits", []) if i.get("field")}
        bases = [i for i in fn.get("inits", []) if i.get("base")]
        if any(i.get("deleg") for i in fn.get("inits", [])):
            for i in fn["inits"]:
                nx = []
                for s in sts:
                    nx += self.construct(s, nf, i["e"], place, cname)
                sts = nx
            return sts
        for b in bases:
            if b["e"] and b["e"]["k"] == "ctor":
                nx = []
                for s in sts:
                    nx += self.construct(s, nf, b["e"], place, b["base"])
                sts = nx
        for s in sts:
            if c:
                for fld in c["fields"]:
                    if fld["n"] in inits:
                        continue
                    p = mk("L.fld", place, fld["n"])
                    if fld["tk"] == "rec":
                        if fld["ty"].startswith("std::") or "basic_" in fld["ty"]:
                            self.write(s, p, EMPTY)
                        else:
                            self.default_init(s, nf, p, fld["ty"])
                    elif fld["tk"] != "arr":
                        self.write(s, p, UNINIT)
        for f in [x["n"] for x in (c["fields"] if c else [])]:
            if f in inits:
                i = inits[f]
                nx = []
                for s in sts:
                    p = mk("L.fld", place, f)
                    x = i["e"]
                    if x is not None and x["k"] == "ctor" and x["f"].get("repo"):
                        nx += self.construct(s, nf, x, p, x["f"].get("cls"))
                        continue
                    for s2, v in self.rvalue(s, nf, x):
                        self.write(s2, p, v)
                        nx.append(s2)
                sts = nx
        return sts

    # ------------------------------------------------------------------ std methods
    def iterval(self, st, pl, pos):
        return mk("iter", pl, pos)

    def stdmethod(self, st, fr, e, f):
        n = f["short"]
        out = []
        ot = e["o"].get("t") or ""
        isp = ot.startswith("std::shared_ptr") or ot.startswith("std::unique_ptr")
        for s, pl in self.recv(st, fr, e):
            if pl.op == "L.kv":
                pl = mk("L.val", mk("kv", self.read(s, pl.a[0]), pl.a[1]))
            for s2, args in self.evargs(s, fr, e["a"]):
                out += self.stdm(s2, fr, e, f, n, pl, args, ot)
        return out

    def setc(self, st, fr, e, pl, v, what):
        if not self.islocal(pl):
            self.event(st, fr, "write", e, place=pl, val=v, old=None, how=what)
        self.write(st, pl, v)

    def stdm(self, st, fr, e, f, n, pl, a, ot):
        c = self.read(st, pl)
        R = lambda v: [(st, v)]
        ism = ot.startswith(("std::map", "std::unordered_map", "std::multimap"))
        iss = ot.startswith(("std::set", "std::unordered_set", "std::multiset"))
        isstr = ot.startswith("std::basic_string")
        if e.get("conv"):
            if "stream" in ot:
                return R(mk("good", c))
            return R(truth(c))
        if n in ("size", "length"):
            return R(size(c))
        if n == "empty":
            return R(neg(nz(size(c))))
        if n in ("c_str", "data", "str", "get"):
            if n == "str" and a:
                self.setc(st, fr, e, pl, a[0], "str")
                return R(mk("void"))
            return R(c)
        if n in ("begin", "cbegin"):
            return R(mk("iter", pl, INT(0)))
        if n in ("end", "cend"):
            return R(mk("iter", pl, mk("end", c)))
        if n in ("rbegin", "crbegin"):
            return R(mk("riter", pl, INT(0)))
        if n in ("rend", "crend"):
            return R(mk("riter", pl, size(c)))
        if n == "find" and (ism or iss):
            return R(mk("iter", pl, mk("find", c, a[0], "map" if ism else "set")))
        if n in ("count", "contains") and (ism or iss):
            h = has(c, a[0])
            return R(h if n == "contains" else (INT(h.a[0]) if h.op == "bool" else mk("b2i", h)))
        if isstr and n in ("find", "rfind", "find_first_of", "find_last_of", "find_first_not_of", "find_last_not_of"):
            a = tuple(STR(chr(x.a[0])) if x.op == "chr" else x for x in a)
            return R(mk("s:" + n, c, *a))
        if n == "substr":
            if c.op == "str" and all(x.op == "int" for x in a):
                i = a[0].a[0]
                return R(STR(c.a[0][i:i + a[1].a[0]] if len(a) > 1 else c.a[0][i:]))
            if len(a) == 1:
                return R(mk("substr", c, a[0], mk("npos")))
            return R(mk("substr", c, *a))
        if n == "compare" and isstr and len(a) == 1:
            return R(mk("b2i", neg(eq(c, a[0]))))
        if n in ("at", "front", "back"):
            return [(s, self.readp(s, p)) for s, p in self.lv(st, fr, e)] if False else R(self.elemread(st, fr, e, pl, c, n, a))
        # mutators
        if n in ("push_back", "emplace_back", "push_front", "emplace_front"):
            v = self.emplaced(f, a, ot) if n.startswith("emplace") else a[0]
            if isstr:
                self.setc(st, fr, e, pl, cat(c, STR(chr(v.a[0])) if v.op == "chr" else v), n)
            else:
                self.event(st, fr, "push", e, place=pl, val=v, c=c, how=n)
                self.setc(st, fr, e, pl, mk("push" if "back" in n else "pushf", c, v), n)
            return R(mk("void"))
        if n == "append" and isstr:
            self.setc(st, fr, e, pl, cat(c, *a), n)
            return R(c)
        if n == "clear":
            self.setc(st, fr, e, pl, EMPTY if "stream" not in ot else c, n)
            return R(mk("void"))
        if n == "pop_back":
            self.event(st, fr, "nonempty", e, c=c, place=pl, how=n)
            self.setc(st, fr, e, pl, c.a[0] if c.op == "push" else mk("popb", c), n)
            return R(mk("void"))
        if n in ("insert", "emplace", "insert_or_assign"):
            return self.insertm(st, fr, e, f, pl, c, a, ism, iss, n, ot)
        if n == "erase":
            return self.erasem(st, fr, e, pl, c, a, ism, iss)
        if n == "resize":
            self.setc(st, fr, e, pl, mk("resized", c, *a) if c.op != "empty" else mk("filled", a[0], a[1] if len(a) > 1 else INT(0)), n)
            return R(mk("void"))
        if n == "assign":
            if len(a) == 2 and a[0].op == "iter":
                v = self.rangeval(st, a[0], a[1])
            elif len(a) == 1:
                v = a[0]
            else:
                v = mk("filled", *a)
            self.setc(st, fr, e, pl, v, n)
            return R(mk("void"))
        if n == "swap" and len(e["a"]) == 1:
            out = []
            for s, q in self.lv(st, fr, e["a"][0]):
                q = self.norm(q)
                x, y = self.read(s, pl), self.read(s, q)
                self.setc(s, fr, e, pl, y, n)
                self.setc(s, fr, e, q, x, n)
                out.append((s, mk("void")))
            return out
        if n in ("reserve", "shrink_to_fit"):
            return R(mk("void"))
        if n == "sort" and ot.startswith("std::list"):
            self.setc(st, fr, e, pl, mk("sorted", c, *a), n)
            return R(mk("void"))
        if n == "reset":
            self.setc(st, fr, e, pl, a[0] if a else NULL, n)
            return R(mk("void"))
        if "stream" in ot or "filebuf" in ot:
            if n == "open":
                self.event(st, fr, "open", e, stream=pl, path=a[0], args=a)
                self.write(st, pl, mk("opened", a[0], *a[1:]))
                return R(mk("void"))
            if n == "close":
                self.event(st, fr, "close", e, stream=pl, value=c)
                self.write(st, pl, mk("closed", c))
                return R(mk("void"))
            if n == "flush":
                self.write(st, pl, mk("flushed", c))
                return R(c)
            if n in ("is_open",):
                return R(mk("is_open", openof(c)))
            if n in ("good",):
                return R(mk("good", c))
            if n in ("fail", "bad"):
                return R(neg(mk("good", c)))
            if n == "eof":
                return R(mk("eof", c))
            self.write(st, pl, mk("after", c))
            return R(mk("m:" + n, c, *a))
        r = mk("m:" + n, c, *a)
        if not f.get("const") and n not in ("lower_bound", "upper_bound", "equal_range"):
            self.setc(st, fr, e, pl, mk("mut:" + n, c, *a), n)
        return R(r)

    def elemread(self, st, fr, e, pl, c, n, a):
        if n == "at":
            self.event(st, fr, "index", e, c=c, i=a[0], place=pl, how="at")
            return at(c, a[0])
        self.event(st, fr, "nonempty", e, c=c, place=pl, how=n)
        if n == "front":
            return at(c, INT(0))
        return at(c, sub(size(c), INT(1)))

    def emplaced(self, f, a, ot):
        if len(a) == 1:
            return a[0]
        if "pair<" in ot and len(a) == 2:
            return mk("pair", *a)
        if not a:
            return EMPTY
        return mk("ctor", "elem", *a)

    def insertm(self, st, fr, e, f, pl, c, a, ism, iss, n, ot):
        R = lambda v: [(st, v)]
        if ism and n in ("insert", "emplace"):
            if len(a) == 1 and a[0].op == "pair":
                k, v = a[0].a
            elif len(a) == 2 and n == "emplace":
                k, v = a
            else:
                self.setc(st, fr, e, pl, mk("mut:insert", c, *a), n)
                return R(mk("m:insert", c, *a))
            out = []
            for s, b in self.branch(st, has(c, k)):
                if not b:
                    self.setc(s, fr, e, pl, mk("upd", c, k, v, 1), n)
                out.append((s, mk("pair", mk("iter", pl, mk("find", self.read(s, pl), k, "map")), BOOL(not b))))
            return out
        if ism and n == "insert_or_assign":
            self.setc(st, fr, e, pl, mk("upd", c, a[0], a[1], 1), n)
            return R(mk("void"))
        if iss and len(a) == 1 and a[0].op == "list":
            nv = c
            for x in a[0].a:
                nv = mk("ins", nv, x)
            self.setc(st, fr, e, pl, nv, n)
            return R(mk("void"))
        if iss and len(a) == 1:
            self.event(st, fr, "push", e, place=pl, val=a[0], c=c, how=n)
            self.setc(st, fr, e, pl, mk("ins", c, a[0]), n)
            return R(mk("pair", mk("iter", pl, mk("find", self.read(st, pl), a[0], "set")), mk("not", mk("has", c, a[0]))))
        if iss and len(a) == 2 and a[0].op == "iter" and a[1].op == "iter" and a[0].a[0] is a[1].a[0]:
            self.setc(st, fr, e, pl, mk("union", c, self.rangeval(st, a[0], a[1])), n)
            return R(mk("void"))
        if iss and n == "emplace_hint" or (iss and len(a) == 2):
            self.setc(st, fr, e, pl, mk("ins", c, a[1]), n)
            return R(mk("void"))
        # vectors / lists
        if len(a) == 2 and a[0].op == "iter":
            pos = a[0].a[1]
            self.event(st, fr, "push", e, place=pl, val=a[1], c=c, how=n, pos=pos)
            if pos.op == "end":
                self.setc(st, fr, e, pl, mk("push", c, a[1]), n)
            else:
                self.setc(st, fr, e, pl, mk("insat", c, pos, a[1]), n)
            return R(mk("iter", pl, pos))
        if len(a) == 3 and a[0].op == "iter" and a[1].op == "iter" and a[2].op == "iter":
            v = self.rangeval(st, a[1], a[2])
            self.setc(st, fr, e, pl, mk("app", c, v) if a[0].a[1].op == "end" else mk("insrange", c, a[0].a[1], v), n)
            return R(a[0])
        self.setc(st, fr, e, pl, mk("mut:insert", c, *a), n)
        return R(mk("m:insert", c, *a))

    def erasem(self, st, fr, e, pl, c, a, ism, iss):
        R = lambda v: [(st, v)]
        if len(a) == 1 and a[0].op == "iter":
            pos = a[0].a[1]
            self.event(st, fr, "erase", e, place=pl, c=c, pos=pos)
            if pos.op == "find":
                self.setc(st, fr, e, pl, mk("rm", c, pos.a[1]), "erase")
                return R(mk("iter", pl, mk("afterfind", c, pos.a[1])))
            self.setc(st, fr, e, pl, mk("erased", c, pos), "erase")
            return R(mk("iter", pl, pos))
        if len(a) == 1 and (ism or iss):
            self.event(st, fr, "erase", e, place=pl, c=c, pos=mk("find", c, a[0], "key"))
            self.setc(st, fr, e, pl, mk("rm", c, a[0]), "erase")
            return R(mk("b2i", has(c, a[0])))
        self.event(st, fr, "erase", e, place=pl, c=c, pos=mk("range", *a))
        self.setc(st, fr, e, pl, mk("erasedrange", c, *a), "erase")
        return R(a[0] if a else mk("void"))

    # ------------------------------------------------------------------ std functions
    def stdfunc(self, st, fr, e, f):
        n = f["short"]
        es = e["a"]
        if n == "swap" and len(es) == 2:
            out = []
            for s, p in self.lv(st, fr, es[0]):
                for s2, q in self.lv(s, fr, es[1]):
                    p, q = self.norm(p), self.norm(q)
                    x, y = self.read(s2, p), self.read(s2, q)
                    self.assign_to(s2, fr, p, y, e)
                    self.assign_to(s2, fr, q, x, e)
                    out.append((s2, mk("void")))
            return out
        if n in ("move", "forward", "as_const", "ref", "cref") and len(es) == 1:
            return self.rvalue(st, fr, es[0])
        if n == "for_each" and len(es) == 3:
            return self.foreach(st, fr, e, es)
        if n == "getline" and len(es) >= 2:
            out = []
            for s, p in self.lv(st, fr, es[0]):
                for s2, q in self.lv(s, fr, es[1]):
                    p, q = self.norm(p), self.norm(q)
                    for s3, extra in self.evargs(s2, fr, es[2:]):
                        old = self.read(s3, p)
                        tag = "%d.%d" % (fr.id, self.node(e))
                        d = extra[0] if extra else mk("chr", 10)
                        self.event(s3, fr, "getline", e, stream=old, delim=d, dest=q)
                        self.write(s3, q, mk("line", old, d))
                        self.write(s3, p, mk("after", old, d))
                        out.append((s3, mk("gotline", old, d)))
            return out
        if n in ("begin", "end", "cbegin", "cend", "back_inserter", "inserter", "front_inserter", "size", "empty", "distance", "next", "prev", "advance"):
            if n in ("next", "prev", "distance", "advance"):
                out = []
                for s, a in self.evargs(st, fr, es):
                    if n in ("next", "prev"):
                        d = a[1] if len(a) > 1 else INT(1)
                        out.append((s, self.arith("+" if n == "next" else "-", a[0], d)))
                    elif n == "distance":
                        if a[0].op == "iter" and a[1].op == "iter":
                            hi = size(a[1].a[1].a[0]) if a[1].a[1].op == "end" else a[1].a[1]
                            out.append((s, sub(hi, a[0].a[1]) if a[0].a[1].op != "find" else mk("distance", *a)))
                        else:
                            out.append((s, mk("distance", *a)))
                    else:
                        for s2, p in self.lv(s, fr, es[0]):
                            p = self.norm(p)
                            self.assign_to(s2, fr, p, self.arith("+", self.read(s2, p), a[1]), e)
                            out.append((s2, mk("void")))
                return out
            out = []
            for s, p in self.lv(st, fr, es[0]):
                p = self.norm(p)
                c = self.read(s, p)
                if n in ("begin", "cbegin"):
                    v = mk("iter", p, INT(0))
                elif n in ("end", "cend"):
                    v = mk("iter", p, mk("end", c))
                elif n == "size":
                    v = size(c)
                elif n == "empty":
                    v = neg(nz(size(c)))
                else:
                    v = mk("inserter", p)
                out.append((s, v))
            return out
        out = []
        for s, a in self.evargs(st, fr, es):
            for x in a:
                if x.op == "lambda" and x.a[0] in self.lambdas and lam_writes(self.lambdas[x.a[0]][0]):
                    raise Undecided("%s with a function that changes its surroundings" % n)
            out += self.stdf(s, fr, e, f, n, a)
        return out

    def foreach(self, st, fr, e, es):
        """std::for_each over a whole container as the loop it is"""
        ends = []
        for x, names in zip(es, (("begin", "cbegin"), ("end", "cend"))):
            while x.get("k") in ("conv", "copy") and "e" in x:
                x = x["e"]
            f = x.get("f") or {}
            o = x.get("o") if x.get("k") == "mcall" else (x.get("a") or [None])[0] if x.get("k") == "call" else None
            ends.append(o if f.get("short") in names and o is not None else None)
        fn = es[2]
        while fn.get("k") in ("conv", "copy") and "e" in fn:
            fn = fn["e"]
        if fn.get("k") == "lambda":
            node = fn
        else:
            vs = self.rvalue(st.fork(), fr, fn)
            node = None
            if len(vs) == 1 and vs[0][1].op == "lambda" and vs[0][1].a[0] in self.lambdas:
                node, ofr = self.lambdas[vs[0][1].a[0]]
                if ofr is not fr:
                    node = None
        if node is None or None in ends or strip_l(ends[0]) != strip_l(ends[1]) or len(node["params"]) != 1 or any(not c.get("byref") for c in node.get("caps", []) if "id" in c):
            raise Undecided("for_each")
        pr = node["params"][0]
        body = ret2cont(node["body"], False)
        if body is None:
            raise Undecided("for_each with return inside a loop")
        s = dict(k="rfor", l=e.get("l"), var=dict(id=pr["id"], n=pr["n"], ref=pr["m"] in ("ref", "cref"), ty=pr["ty"], tk=pr.get("tk")), range=ends[0], body=body)
        s = self.derived.setdefault(id(e), s)
        return [(x, mk("void")) for x in self.s_rfor(st, fr, s)]

    def stdf(self, st, fr, e, f, n, a):
        R = lambda v: [(st, v)]
        if n in ("make_pair",):
            return R(mk("pair", *a))
        if n == "make_shared":
            t = mk("new", (f.get("rt") or "").replace("std::shared_ptr<", "").rstrip(">").strip(), "%d.%d" % (fr.id, self.node(e)), *a)
            return R(t)
        if n == "to_string":
            return R(mk("tostr", a[0]))
        if n in ("atoi", "stoi", "atol", "stol", "strtol", "stoul", "stoull", "stoll", "atoll", "strtoul"):
            return R(mk("toint", a[0]))
        if n in ("atof", "stod", "stof", "strtod", "stold"):
            return R(mk("toreal", a[0]) if n != "stof" else mk("float32", mk("toreal", a[0])))
        if n in ("fabs", "abs", "fabsf"):
            if a[0].op == "-":
                x, y = a[0].a
                if y.uid < x.uid:
                    return R(mk("abs", mk("-", y, x)))
            return R(mk("abs", a[0]))
        if n in ("max", "min") and len(a) == 2:
            x, y = a
            if y.uid < x.uid:
                x, y = y, x
            if x is y:
                return R(x)
            if isconst(x) and isconst(y) and cval(x) is not None:
                return R(x if (cval(x) >= cval(y)) == (n == "max") else y)
            return R(mk(n, x, y))
        if n in ("max", "min") and len(a) == 1 and a[0].op == "list":
            return R(mk(n, *sorted(a[0].a, key=lambda z: z.uid)))
        if n == "pow" and cval(a[1]) == 2:
            return R(mul(a[0], a[0]))
        if n in ("sqrt", "pow", "exp", "log", "floor", "ceil", "round", "log2", "cos", "sin", "cbrt", "isnan", "isinf", "tolower", "toupper", "isspace", "isdigit"):
            return R(mk(n, *a))
        if n in ("sort", "stable_sort") and len(a) >= 2 and a[0].op == "iter":
            pl = a[0].a[0]
            c = self.read(st, pl)
            whole = cval(a[0].a[1]) == 0 and a[1].op == "iter" and a[1].a[1].op == "end"
            a = list(a[:2]) + [self.lamval(st, fr, e, x) for x in a[2:]]
            self.event(st, fr, "sort", e, place=pl, c=c, cmp=a[2] if len(a) > 2 else None, whole=whole)
            self.setc(st, fr, e, pl, mk("sorted", c, *a[2:]) if whole else mk("partsort", c, a[0].a[1], *a[2:]), n)
            return R(mk("void"))
        if n in ("sort", "stable_sort", "partial_sort", "nth_element") and len(a) >= 2:
            self.event(st, fr, "rsort", e, how=n, args=[a[0], a[1]] + [self.lamval(st, fr, e, x) for x in a[2:]])
        if n == "reverse" and a[0].op == "iter":
            pl = a[0].a[0]
            self.setc(st, fr, e, pl, mk("reversed", self.read(st, pl)), n)
            return R(mk("void"))
        if n in ("find", "find_if", "lower_bound", "upper_bound", "min_element", "max_element", "remove", "remove_if", "unique", "partition", "adjacent_find", "binary_search", "includes", "all_of", "any_of", "none_of", "count", "count_if", "accumulate", "is_sorted", "find_if_not", "nth_element", "iota", "fill", "for_each"):
            return self.algo(st, fr, e, n, a)
        if n == "transform":
            r = self.transform(st, fr, e, a)
            if r is not None:
                return r
        if n in ("set_union", "set_intersection", "set_difference", "set_symmetric_difference", "copy", "transform", "copy_if", "merge"):
            vals = []
            i = 0
            dest = None
            rest = []
            while i < len(a):
                if a[i].op == "iter" and i + 1 < len(a) and a[i + 1].op == "iter" and a[i].a[0] is a[i + 1].a[0] and dest is None:
                    vals.append(self.rangeval(st, a[i], a[i + 1]))
                    i += 2
                    continue
                if a[i].op in ("inserter", "iter") and dest is None:
                    dest = a[i]
                else:
                    rest.append(a[i])
                i += 1
            res = mk("f:" + n, *(vals + rest))
            if dest is not None:
                pl = dest.a[0]
                old = self.read(st, pl)
                nv = res if old.op == "empty" else mk("app", old, res)
                if n == "copy" and old.op == "empty":
                    nv = vals[0] if vals else nv
                if dest.op == "iter":
                    nv = mk("overwrite", old, dest.a[1], res)
                self.setc(st, fr, e, pl, nv, n)
                return R(mk("iter", pl, mk("endof", res)))
            return R(res)
        pure = self.unresolved_pure(f)
        args = a
        if pure:
            return R(mk("f:" + f["name"], *args))
        tag = "%d.%d" % (fr.id, self.node(e))
        res = mk("f:" + f["name"], *(args + (tag,)))
        self.event(st, fr, "call", e, key=f["key"], name=f["name"], recv=None, args=args, places=(), res=res, virt=False, cls=None, std=True)
        for i, x in enumerate(a):
            if x.op in ("iter",):
                pl = x.a[0]
                if pl.op != "L.val" and not self.isconstalgo(n):
                    self.write(st, pl, mk("mut:" + n, self.read(st, pl)))
        for i, m in enumerate(f["pm"]):
            if m == "ref" and i < len(e["a"]) and e["a"][i]["k"] in ("var", "mem"):
                for s, p in self.lv(st, fr, e["a"][i]):
                    self.write(s, self.norm(p), mk("out", n, i, tag))
        return R(res)

    def isconstalgo(self, n):
        return n in ("find", "count", "equal", "distance", "accumulate", "inner_product", "lexicographical_compare")

    def unresolved_pure(self, f):
        return f["name"] in ("std::now",) or f["short"] in ("equal", "lexicographical_compare", "inner_product", "setw", "setprecision", "make_tuple", "tie", "get", "hypot", "numeric_limits", "max", "infinity", "lowest", "min", "strlen", "strcmp", "operator+", "isalpha", "quoted")

    def x_term(self, st, fr, e):
        return [(st, e["v"])]

    def lamval(self, st, fr, e, f):
        """a lambda as the function it computes: lam(binders.., body), when its body is a single effect-free expression"""
        if f.op != "lambda" or f.a[0] not in self.lambdas:
            return f
        node, ofr = self.lambdas[f.a[0]]
        bs = [mk("bind", i) for i in range(len(node["params"]))]
        try:
            rs = self.inline_lambda(st.fork(), fr, e, f, [dict(k="term", v=b) for b in bs])
        except Undecided:
            return f
        if len(rs) != 1 or any(x.k in ("write", "lwrite", "push", "call", "loop") for x in rs[0][0].ev[len(st.ev):]):
            if len(rs) <= 8 and not any(x.k not in ("index", "deref", "deref_iter", "nonempty") for r in rs for x in r[0].ev[len(st.ev):]):
                alts = []
                for s2, v in rs:
                    g = [a if b else neg(a) for a, b in s2.atoms.items() if a not in st.atoms]
                    alts.append(mk("case", mk("and", *g), v))
                return mk("lam", *bs, mk("cases", *alts))
            return f
        return mk("lam", *bs, rs[0][1])

    def lamapply(self, f, *args):
        if f.op == "lam" and len(f.a) == len(args) + 1:
            return subst(f.a[-1], dict(zip(f.a, args)))
        return mk("apply", f, *args)

    def transform(self, st, fr, e, a):
        if len(a) not in (4, 5) or a[0].op != "iter" or a[1].op != "iter":
            return None
        f = self.lamval(st, fr, e, a[-1])
        if f.op == "lambda":
            return None
        r1 = self.rangeval(st, a[0], a[1])
        b = mk("bind", "m")
        xs = [at(r1, b)]
        if len(a) == 5:
            if a[2].op != "iter":
                return None
            c2 = self.read(st, a[2].a[0])
            xs.append(at(c2, b if cval(a[2].a[1]) == 0 else add(a[2].a[1], b)))
        dest = a[-2]
        val = mk("map", size(r1), b, self.lamapply(f, *xs))
        if dest.op not in ("inserter", "iter"):
            return None
        pl = dest.a[0]
        old = self.read(st, pl)
        if dest.op == "inserter":
            nv = val if old.op == "empty" else mk("app", old, val)
        elif cval(dest.a[1]) == 0 and (size(old) is size(r1) or old.op == "filled" and old.a[0] is size(r1)):
            nv = val
        else:
            nv = mk("overwrite", old, dest.a[1], val)
        self.setc(st, fr, e, pl, nv, "transform")
        return [(st, mk("iter", pl, mk("endof", val)))]

    def algo(self, st, fr, e, n, a):
        R = lambda v: [(st, v)]
        if n not in ("for_each",):
            a = type(a)(self.lamval(st, fr, e, x) if x.op == "lambda" else x for x in a)
        if not a or a[0].op != "iter":
            return R(mk("f:" + n, *a))
        pl = a[0].a[0]
        rng = self.rangeval(st, a[0], a[1]) if len(a) > 1 and a[1].op == "iter" else mk("range", a[0])
        c = self.read(st, pl)
        if n == "find":
            return R(mk("iter", pl, mk("find", rng, a[2], "seq")))
        if n == "count":
            h = has(rng, a[2])
            return R(INT(h.a[0]) if h.op == "bool" else mk("cnt", rng, a[2]))
        if n in ("find_if", "find_if_not"):
            return R(mk("iter", pl, mk("findif", rng, a[2])))
        if n in ("lower_bound", "upper_bound", "min_element", "max_element", "adjacent_find"):
            return R(mk("iter", pl, mk("f:" + n, rng, *a[2:])))
        if n in ("remove", "remove_if", "unique", "partition"):
            nv = mk("mut:" + n, c, *a[2:])
            self.setc(st, fr, e, pl, nv, n)
            return R(mk("iter", pl, mk("newend", nv)))
        if n in ("fill", "iota", "for_each", "nth_element"):
            self.setc(st, fr, e, pl, mk("mut:" + n, c, *a[2:]), n)
            return R(mk("void"))
        if n == "accumulate":
            rt = (e.get("f") or {}).get("rt", "")
            if rt in ("int", "unsigned int", "long", "unsigned long", "short", "char", "bool") and ("double" in e["f"]["key"].split(",")[0] or "float" in e["f"]["key"].split(",")[0]) or rt == "float" and "double" in e["f"]["key"].split(",")[0]:
                return R(mk("truncsum", rng, *a[2:]))
            return R(mk("sum", rng, *a[2:]))
        return R(mk("f:" + n, rng, *a[2:]))

    # ------------------------------------------------------------------ statements
    def stmts_run(self, st, fr, s):
        return self.stmt([st], fr, s)

    def stmt(self, sts, fr, s):
        if s is None:
            return sts
        out = []
        k = s["k"]
        m = getattr(self, "s_" + k)
        for st in sts:
            if st.status != "ok":
                out.append(st)
            else:
                out += m(st, fr, s)
        if len(out) > 1:
            out = self.merge(out)
        if len(out) > self.cap:
            raise PathLimit("%s:%s (%d paths)" % (fr.file, s.get("l"), len(out)))
        return out

    def merge_vals(self, out):
        if len(out) < 2:
            return out
        for s, v in out:
            s.ret = v
        ms = self.merge([s for s, _ in out])
        r = []
        for s in ms:
            v = s.ret
            s.ret = None
            r.append((s, v))
        return r

    def merge(self, sts):
        if self.nomerge:
            return sts
        groups = {}
        order = []
        for s in sts:
            k = (s.status, s.ret, s.epoch, s.tepoch, tuple(sorted(s.fep.items())), len(s.ev), len(s.store), len(s.refs))
            groups.setdefault(k, []).append(s)
            if len(groups[k]) == 1:
                order.append(k)
        if len(order) == len(sts):
            return sts
        out = []
        for k in order:
            g = groups[k]
            if len(g) == 1:
                out += g
                continue
            reps = []
            for s in g:
                for r in reps:
                    if s.store == r.store and s.refs == r.refs and evs_equal(s.ev, r.ev):
                        r.atoms = {a: b for a, b in r.atoms.items() if s.atoms.get(a) is b}
                        for i, (x, y) in enumerate(zip(r.ev, s.ev)):
                            if x is not y and x.g != y.g:
                                r.ev[i] = Ev(x.k, x.d, x.l, x.file, x.fn, {a: b for a, b in x.g.items() if y.g.get(a) is b})
                        break
                else:
                    reps.append(s)
            out += reps
        return out

    def s_block(self, st, fr, s):
        sts = [st]
        decls = []
        for x in s["s"]:
            sts = self.stmt(sts, fr, x)
        # scope exit is only needed for real blocks (DeclStmt is encoded as a block too)
        if s["s"] and not all(x["k"] == "decl" for x in s["s"]):
            ids = [d["id"] for x in s["s"] if x["k"] == "block" and x["s"] and all(y["k"] == "decl" for y in x["s"]) for d in x["s"]]
            if ids:
                files = {d["id"] for x in s["s"] if x["k"] == "block" for d in x["s"] if d["k"] == "decl" and d["tk"] == "rec" and "fstream" in d["ty"]}
                ids = set(ids)
                for z in sts:
                    for kx in list(z.store) if files else ():
                        if kx.op == "L.var" and kx.a[0] == fr.id and kx.a[1] in files and z.store[kx].op != "closed":
                            self.event(z, fr, "close", s, stream=kx, value=z.store[kx])
                    for kx in list(z.store):
                        r = self.root(kx)
                        if r.op == "L.var" and r.a[0] == fr.id and r.a[1] in ids and not self.captured(z, r):
                            del z.store[kx]
                    for kx in list(z.refs):
                        if kx.op == "L.var" and kx.a[0] == fr.id and kx.a[1] in ids:
                            del z.refs[kx]
        return sts

    def captured(self, st, r):
        return st.ret is not None and contains(st.ret, lambda t: t is r)

    def s_decl(self, st, fr, s):
        pl = mk("L.var", fr.id, s["id"], s["n"])
        st.refs.pop(pl, None)
        for k in list(st.store):
            if self.root(k) is pl:
                del st.store[k]
        i = s["init"]
        if s.get("static"):
            self.write(st, pl, mk("init", mk("L.glob", "static:" + s["n"]), ""))
            return [st]
        if i is None:
            self.write(st, pl, UNINIT if s["tk"] != "rec" else EMPTY)
            return [st]
        if s.get("ref"):
            out = []
            for s2, p in self.lv(st, fr, i):
                p = self.norm(p)
                if p.op == "L.val":
                    self.write(s2, pl, p.a[0])
                elif p.op == "L.kv":
                    self.write(s2, pl, mk("kv", self.read(s2, p.a[0]), p.a[1]))
                else:
                    s2.refs[pl] = p
                out.append(s2)
            return out
        if i["k"] == "ctor" and i["f"].get("repo"):
            return self.construct(st, fr, i, pl, i["f"].get("cls"))
        out = []
        for s2, v in self.rvalue(st, fr, i):
            if v.op == "chr" and "string" in s["ty"]:
                v = STR(chr(v.a[0]))
            self.write(s2, pl, v)
            out.append(s2)
        return out

    def s_expr(self, st, fr, s):
        return [x for x, _ in self.ev(st, fr, s["e"])]

    def s_if(self, st, fr, s):
        sts = [st]
        if s.get("init"):
            sts = self.stmt(sts, fr, s["init"])
        if s.get("cv"):
            sts = [y for x in sts for y in self.s_decl(x, fr, s["cv"])]
        t, f = [], []
        for x in sts:
            for y, b in self.cond(x, fr, s["c"]):
                (t if b else f).append(y)
        out = self.stmt(t, fr, s["a"]) if t else []
        out2 = self.stmt(f, fr, s["b"]) if s["b"] and f else f
        return out + out2

    def s_return(self, st, fr, s):
        if s["e"] is None:
            st.status, st.ret = "ret", mk("void")
            return [st]
        out = []
        if fr.fn.get("rref"):
            for x, p in self.lv(st, fr, s["e"]):
                x.status, x.ret = "ret", mk("retplace", self.norm(p))
                out.append(x)
            return out
        for x, v in self.rvalue(st, fr, s["e"]):
            if x.status == "ok":
                x.status, x.ret = "ret", v
            out.append(x)
        return out

    def s_break(self, st, fr, s):
        st.status = "brk"
        return [st]

    def s_continue(self, st, fr, s):
        st.status = "cont"
        return [st]

    def s_try(self, st, fr, s):
        out = self.stmt([st.fork()], fr, s["body"])
        tag = "try%d.%d" % (fr.id, self.node(s))
        for h in s.get("handlers", []):
            x = st.fork()
            for pl in self.written(st, out):
                self.write(x, pl, mk("havoc", tag, pl))
            self.event(x, fr, "caught", s)
            out = out + self.stmt([x], fr, h)
        return out

    def s_unkstmt(self, st, fr, s):
        self.unknown.append((s.get("why"), fr.file, s.get("l")))
        return [st]

    def s_switch(self, st, fr, s):
        out = []
        items = s["s"]
        for x, v in self.ev(st, fr, s["c"]):
            pend = x
            starts = []
            dflt = None
            for i, it in enumerate(items):
                if it is None:
                    continue
                if it["k"] == "default":
                    dflt = i
                elif it["k"] == "case" and pend is not None:
                    (pend, cv), = self.ev(pend, fr, it["v"])
                    if v.op != "chr" and cv.op == "chr":
                        cv = INT(cv.a[0])
                    br = self.branch(pend, eq(v, cv))
                    pend = None
                    for y, b in br:
                        if b:
                            starts.append((y, i))
                        else:
                            pend = y
            if pend is not None:
                if dflt is not None:
                    starts.append((pend, dflt))
                else:
                    out.append(pend)
            for y, i in starts:
                sts = [y]
                for it in items[i:]:
                    if it is None or it["k"] in ("case", "default"):
                        continue
                    sts = self.stmt(sts, fr, it)
                for z in sts:
                    if z.status == "brk":
                        z.status = "ok"
                out += sts
        return out

    # ------------------------------------------------------------------ loops
    def written(self, base, ends):
        """outer places whose value differs from base in some end state"""
        H = []
        seen = set()
        for s in ends:
            for p, v in s.store.items():
                if p in seen:
                    continue
                r = self.root(p)
                if base.store.get(p) is v:
                    continue
                if r.op in ("L.var", "L.tmp") and not any(self.root(q) is r for q in base.store):
                    continue
                seen.add(p)
                H.append(p)
            for p in base.store:
                if p not in s.store and p not in seen:
                    r = self.root(p)
                    # children killed by a whole-object write, or dropped by havoc
                    if r.op != "L.var" or any(self.root(q) is r for q in s.store):
                        q = p
                        seen.add(p)
                        H.append(p)
        # keep outermost places only
        hs = set(H)
        out = []
        for p in H:
            x = p
            anc = False
            while x.op == "L.fld":
                x = x.a[0]
                if x in hs:
                    anc = True
                    break
            if not anc:
                out.append(p)
        return out

    def lowered(self, base, h, ends, alls, hdr, by=-1):
        """h moves by one per pass and the body only uses the moved value"""
        c = self.read(base, h)
        c = c.a[1] if c.op in ("iter", "riter") else c
        if c.op != "lv" or not ends:
            return False
        low = add(c, INT(by))
        for x in ends:
            v = self.read(x, h)
            v = v.a[1] if v.op in ("iter", "riter") else v
            if v is not low:
                return False
        mark = mk("lowered")
        uses = 0
        if by > 0:
            for x in ends:
                at_ = next((n for n, e in enumerate(x.ev) if e.k == "bump" and (e.d["v"].a[1] if e.d["v"].op in ("iter", "riter") else e.d["v"]) is c), None)
                if at_ is None:
                    return False
                for e in x.ev[:at_]:
                    if any(isinstance(v, T) and contains(v, lambda y: y is c) for v in (e.d.values() if e.k != "loop" else e.rec.init.values())):
                        return False
        heads = {a for alt in hdr for a in alt}
        for x in alls:
            ts = [v for k, v in x.store.items() if k is not h and base.store.get(k) is not v] + [a for a in x.atoms if a not in heads]
            if isinstance(x.ret, T):
                ts.append(x.ret)
            for e in x.ev:
                if e.k == "bump":
                    continue
                for d in ([e.d] if e.k != "loop" else [e.rec.init]):
                    ts += [v for k, v in d.items() if isinstance(v, T) and k not in (h, "old") and not (k == "val" and d.get("place") is h)]
                    for v in d.values():
                        if isinstance(v, tuple):
                            ts += [y for y in v if isinstance(y, T)]
                if e.k == "loop":
                    for alt in e.rec.hdr:
                        ts += list(alt)
            for t in ts:
                if not contains(t, lambda y: y is c):
                    continue
                t2 = subst(t, {low: mark})
                if contains(t2, lambda y: y is c):
                    return False
                uses += 1
        return uses > 0

    def loop(self, st, fr, s, condf, body, incf, kind, first_uncond=False):
        lid = "%d.%d|%s:%s" % (fr.id, self.node(s), fr.file, s.get("l"))
        H = list(self.loopH.get(lid, []))
        for rnd in range(8):
            s0 = st.fork()
            s0.ev = []
            inits = {}
            for h in H:
                v0 = self.read(st, h)
                inits[h] = v0
                head = mk("lv", lid, h)
                if h in self.recs.get(("shift", lid), ()):
                    head = add(head, INT(self.recs[("shift", lid)][h]))
                if v0.op in ("iter", "riter") and h in self.recs.get(("it", lid), ()):
                    self.write(s0, h, mk(v0.op, v0.a[0], head))
                else:
                    self.write(s0, h, head)
            heap = ("heap", lid) in self.recs
            theap = ("theap", lid) in self.recs
            if heap:
                s0.epoch = "lv" + lid
                self.dropheap(s0, False, H)
            if theap:
                s0.tepoch = "lv" + lid
                self.dropheap(s0, True, H)
            feps = self.recs.get(("fep", lid), ())
            if feps:
                s0.fep = dict(s0.fep)
                for fx in feps:
                    s0.fep[fx] = "lv" + lid
                self.dropfields(s0, feps, H)
            base = s0.fork()
            entry_atoms = s0.atoms.copy()
            exits, ends = [], []
            if first_uncond:
                bs = [s0]
            else:
                bs = []
                for x, b in condf(s0):
                    (bs if b else exits).append(x)
            bodyp = []
            hdr = [{a: b for a, b in x.atoms.items() if a not in entry_atoms} for x in bs]
            for x in bs:
                bodyp += self.stmt([x], fr, body)
            bodyp = self.merge(bodyp)
            ends, brks, rets = [], [], []
            for x in bodyp:
                if x.status in ("ok", "cont"):
                    x.status = "ok"
                    if incf:
                        ends += incf(x)
                    else:
                        ends.append(x)
                elif x.status == "brk":
                    brks.append(x)
                else:
                    rets.append(x)
            if first_uncond:
                e2 = []
                for x in ends:
                    for y, b in condf(x):
                        (e2 if b else exits).append(y)
                # do-while: exits are end states too
                alle = e2 + exits
            else:
                alle = ends
            new = [p for p in self.written(base, alle) if not self.covered(p, H)]
            chg = False
            for x in alle:
                if x.epoch != base.epoch and not heap:
                    self.recs[("heap", lid)] = True
                    chg = True
                for fx, v in x.fep.items():
                    if v != base.fep.get(fx) and fx not in feps:
                        self.recs.setdefault(("fep", lid), set()).add(fx)
                        chg = True
                if x.tepoch != base.tepoch and not theap:
                    self.recs[("theap", lid)] = True
                    chg = True
            # iterator-valued loop variables keep their container
            for h in list(H) + new:
                v0 = self.read(st, h)
                if v0.op in ("iter", "riter"):
                    okk = all(self.read(x, h).op == v0.op and self.read(x, h).a[0] is v0.a[0] for x in alle)
                    cur = self.recs.setdefault(("it", lid), set())
                    if okk and h not in cur and h not in self.recs.setdefault(("noit", lid), set()):
                        cur.add(h)
                        chg = True
                    elif not okk and h in cur:
                        cur.discard(h)
                        self.recs[("noit", lid)].add(h)
                        chg = True
            if not new and not chg:
                if first_uncond:
                    break
                # a counter moved before it is used: name it by the value the body sees
                sh = self.recs.setdefault(("shift", lid), {})
                mv = {h: -by for by in (1, -1) for h in H if h not in sh and self.lowered(base, h, ends, ends + brks + rets, hdr, by)}
                if not mv:
                    break
                sh.update(mv)
            H = [h for h in H if not any(self.under(h, n) for n in new)] + new
            self.loopH[lid] = H
        else:
            raise Undecided("loop fixpoint " + lid)
        # record
        r = LoopRec()
        r.lid, r.l, r.file, r.fn, r.kind = lid, s.get("l"), fr.file, fr.name, kind
        r.paths = [("end", x) for x in alle] + [("brk", x.fork()) for x in brks] + [("ret", x.fork()) for x in rets]
        r.H, r.init, r.entry = list(H), inits, entry_atoms
        r.ivs = {}
        for h in H:
            cur = self.read(base, h)
            vals = {self.read(x, h) for x in (ends if not first_uncond else alle)}
            c0 = cur.a[1] if cur.op in ("iter", "riter") else cur
            off = 0
            if h in self.recs.get(("shift", lid), ()) and c0.op == "+":
                c0, off = c0.a[0], self.recs[("shift", lid)][h]
            steps = set()
            for v in vals:
                v1 = v.a[1] if v.op in ("iter", "riter") else v
                if off:
                    v1 = sub(v1, INT(off))
                if v1 is c0:
                    steps.add(0)
                elif v1.op == "+" and v1.a[0] is c0 and cval(v1.a[1]) is not None:
                    steps.add(cval(v1.a[1]))
                elif v1.op == "*" and False:
                    pass
                else:
                    steps.add(None)
            if len(steps) == 1 and None not in steps and 0 not in steps:
                v0 = inits[h]
                v0 = v0.a[1] if v0.op in ("iter", "riter") else v0
                r.ivs[c0] = (sub(v0, INT(off)) if off else v0, steps.pop())
        r.cont = getattr(self, "_rcont", None)
        r.var = None
        r.hdr = hdr if not first_uncond else [{a: b for a, b in x.atoms.items() if a not in entry_atoms} for x in e2]
        r.conds = []
        for x in bs[:1] if not first_uncond else []:
            r.conds = [(a, b) for a, b in x.atoms.items() if a not in entry_atoms]
        out = []
        # normal exit
        sx = st.fork()
        for h in H:
            v0 = inits[h]
            if v0.op in ("iter", "riter") and h in self.recs.get(("it", lid), ()):
                self.write(sx, h, mk(v0.op, v0.a[0], mk("lo", lid, h)))
            else:
                self.write(sx, h, mk("lo", lid, h))
        if heap:
            sx.epoch = "lo" + lid
            self.dropheap(sx, False, H)
        if theap:
            sx.tepoch = "lo" + lid
            self.dropheap(sx, True, H)
        if feps:
            sx.fep = dict(sx.fep)
            for fx in feps:
                sx.fep[fx] = "lo" + lid
            self.dropfields(sx, feps, H)
        sx.ev.append(Ev("loop", {"rec": r}, s.get("l"), fr.file, fr.name, st.atoms.copy()))
        nev = len(sx.ev)
        if first_uncond:
            ex = []
            for x in exits:
                y = x.fork()
                y.ev = st.ev + [Ev("loop", {"rec": r}, s.get("l"), fr.file, fr.name, st.atoms.copy())] + x.ev
                y.status = "ok"
                ex.append(y)
            out += ex
        else:
            keepev = list(sx.ev)
            for x, b in condf(sx):
                if not b:
                    x.ev = x.ev[:nev] if len(x.ev) > nev and not any(q.k in ("call", "write") for q in x.ev[nev:]) else x.ev
                    out.append(x)
        pre = st.ev
        for x in brks:
            x.status = "ok"
            x.ev = pre + [Ev("loop", {"rec": r, "partial": True}, s.get("l"), fr.file, fr.name, st.atoms.copy())] + x.ev
            out.append(x)
        for x in rets:
            x.ev = pre + [Ev("loop", {"rec": r, "partial": True}, s.get("l"), fr.file, fr.name, st.atoms.copy())] + x.ev
            out.append(x)
        return out

    def dropheap(self, st, this, H):
        for k in list(st.store):
            r = self.root(k)
            if r.op == "L.deref" and (r.a[0].op == "this") == this and not self.covered(k, H):
                del st.store[k]

    def dropfields(self, st, feps, H):
        for k in list(st.store):
            if k.op != "L.fld" or k.a[1] not in feps:
                continue
            r = self.root(k)
            if r.op == "L.deref" and r.a[0].op != "this" and not self.covered(k, H):
                del st.store[k]

    def covered(self, p, H):
        while True:
            if p in H:
                return True
            if p.op != "L.fld":
                return False
            p = p.a[0]

    def under(self, p, n):
        while p.op == "L.fld":
            p = p.a[0]
            if p is n:
                return True
        return False

    def s_while(self, st, fr, s):
        def condf(x):
            if s.get("cv"):
                out = []
                for y in self.s_decl(x, fr, s["cv"]):
                    out += self.cond(y, fr, s["c"])
                return out
            return self.cond(x, fr, s["c"])
        return self.loop(st, fr, s, condf, s["body"], None, "while")

    def s_do(self, st, fr, s):
        return self.loop(st, fr, s, lambda x: self.cond(x, fr, s["c"]), s["body"], None, "do", first_uncond=True)

    def s_for(self, st, fr, s):
        out = []
        sts = self.stmt([st], fr, s["init"]) if s.get("init") else [st]
        inc = None
        if s.get("inc"):
            inc = lambda x: [y for y, _ in self.ev(x, fr, s["inc"])]
        for x in sts:
            out += self.loop(x, fr, s, lambda y: self.cond(y, fr, s["c"]), s["body"], inc, "for")
        # the header's variables go out of scope
        if s.get("init") and s["init"]["k"] == "block":
            ids = {d["id"] for d in s["init"]["s"] if d["k"] == "decl"}
            for z in out:
                for kx in list(z.store):
                    r = self.root(kx)
                    if r.op == "L.var" and r.a[0] == fr.id and r.a[1] in ids:
                        del z.store[kx]
                for kx in list(z.refs):
                    if kx.op == "L.var" and kx.a[0] == fr.id and kx.a[1] in ids:
                        del z.refs[kx]
        return out

    def s_rfor(self, st, fr, s):
        out = []
        v = s["var"]
        for x, cp in self.lv(st, fr, s["range"]):
            cp = self.norm(cp)
            if cp.op == "L.val":
                t = mk("L.tmp", "rf%d.%d" % (fr.id, self.node(s)))
                self.write(x, t, cp.a[0])
                cp = t
            ipl = mk("L.var", fr.id, -self.node(s), "#")
            self.write(x, ipl, INT(0))
            vpl = mk("L.var", fr.id, v["id"], v["n"])
            ism = "map" in (s["range"].get("t") or "").split("<")[0]

            def condf(y, cp=cp, ipl=ipl, vpl=vpl, bind=True):
                r = []
                c = self.read(y, cp)
                for z, b in self.branch(y, lt(self.read(y, ipl), size(c))):
                    if b:
                        i = self.read(z, ipl)
                        z.refs.pop(vpl, None)
                        if v.get("ref"):
                            z.refs[vpl] = mk("L.elem", cp, i)
                        else:
                            self.write(z, vpl, at(c, i))
                    r.append((z, b))
                return r

            def incf(y, ipl=ipl, vpl=vpl):
                self.write(y, ipl, add(self.read(y, ipl), INT(1)))
                y.refs.pop(vpl, None)
                for kx in list(y.store):
                    if self.root(kx) is vpl:
                        del y.store[kx]
                return [y]

            self._rcont = cp
            res = self.loop(x, fr, s, condf, s["body"], incf, "rfor")
            self._rcont = None
            for z in res:
                for kx in list(z.store):
                    r = self.root(kx)
                    if r is vpl or r is ipl:
                        del z.store[kx]
                z.refs.pop(vpl, None)
            out += res
        return out

    # ------------------------------------------------------------------ entry
    def run(self, fn, dyn=None, this=None, pre=None):
        """analyse fn for all inputs; returns its end states"""
        fid = self.frames.setdefault(("top", fn["key"], dyn), len(self.frames) + 1)
        fr = Frame(fid, fn, this or mk("L.deref", THIS), 0, None, dyn)
        self.parent = {}
        st = State()
        for p in fn["params"]:
            pl = mk("L.var", fid, p["id"], p["n"])
            if p["m"] in ("ref", "cref"):
                st.refs[pl] = mk("L.ref", p["n"])
            else:
                st.store[pl] = mk("param", p["n"])
        self.top = fr
        self.visited.add(fn["key"])
        if pre:
            pre(st, fr)
        if fn.get("ctor"):
            sts = self.ctor_inits(st, fr, fn, fn["cls"])
        else:
            sts = [st]
        sts = self.stmt(sts, fr, fn["body"])
        for s in sts:
            if s.status == "ok":
                s.status = "ret"
                s.ret = mk("void")
            elif s.ret is not None and s.ret.op == "retplace":
                s.ret = self.read(s, s.ret.a[0])
        return sts


def openof(c):
    while c.op in ("sw", "after", "flushed", "touch"):
        c = c.a[0]
    return c


def at_ne(st, t, c):
    return st.atoms.get(eq(t, INT(c))) is False if float(c).is_integer() and c != 0 else False


def unsignedcontainer(x):
    return False


def want_void(f):
    return f.get("rt") == "void"


READING = ("find", "find_if", "find_if_not", "count", "count_if", "any_of", "all_of", "none_of", "accumulate", "distance", "max_element", "min_element", "minmax_element", "equal",
           "lower_bound", "upper_bound", "binary_search", "includes", "lexicographical_compare", "inner_product", "is_sorted", "adjacent_find", "next", "prev", "size", "empty", "begin", "end", "cbegin", "cend")
COPYING = ("set_union", "set_intersection", "set_difference", "set_symmetric_difference", "merge")


def reads_only(args):
    """for_each with a lambda that takes its element by value or as constant"""
    l = args[-1] if args else {}
    while l.get("k") in ("conv", "copy") and "e" in l:
        l = l["e"]
    return l.get("k") == "lambda" and len(l.get("params", [])) == 1 and l["params"][0]["m"] != "ref"


def lam_writes(node):
    """does the body of a lambda change what it captured?"""
    caps = {c["id"] for c in node.get("caps", []) if c.get("byref")}
    this = any(c.get("this") for c in node.get("caps", []))

    def root(x):
        while isinstance(x, dict):
            if x.get("k") == "var":
                return x.get("id") in caps or x.get("sc") in ("global", "smember")
            if x.get("k") == "this":
                return this
            x = x.get("b") or x.get("e") or x.get("o") or (x.get("a")[0] if isinstance(x.get("a"), list) and x.get("a") else x.get("a"))
        return False

    def w(x):
        k = x.get("k")
        if k == "assign":
            return root(x["a"])
        if k == "un" and x.get("op") in ("++", "--"):
            return root(x.get("e") or x.get("a"))
        if k == "opcall" and x.get("op") in ("=", "+=", "-=", "*=", "/=", "++", "--", "<<"):
            return root(x["a"][0])
        if k == "mcall":
            return not (x.get("f") or {}).get("const") and root(x.get("o"))
        return False
    return any_node(node["body"], w)


def strip_l(x):
    if isinstance(x, dict):
        return {k: strip_l(v) for k, v in x.items() if k not in ("l",)}
    return [strip_l(v) for v in x] if isinstance(x, list) else x


def ret2cont(x, inloop):
    """body of a lambda called once per element as a loop body: return becomes continue (None when it sits inside a loop of its own)"""
    if isinstance(x, list):
        ys = [ret2cont(v, inloop) for v in x]
        return None if any(y is None and v is not None for y, v in zip(ys, x)) else ys
    if not isinstance(x, dict):
        return x
    if x.get("k") == "lambda":
        return x
    if x.get("k") == "return":
        if inloop:
            return None
        c = dict(k="continue", l=x.get("l"))
        return c if x.get("e") is None else dict(k="block", l=x.get("l"), s=[dict(k="expr", l=x.get("l"), e=x["e"]), c])
    out = {}
    for k, v in x.items():
        y = ret2cont(v, inloop or x.get("k") in ("for", "while", "do", "rfor"))
        if y is None and v is not None:
            return None
        out[k] = y
    return out


def nodes_of(x, pred):
    if isinstance(x, dict):
        if pred(x):
            yield x
        for v in x.values():
            yield from nodes_of(v, pred)
    elif isinstance(x, list):
        for v in x:
            yield from nodes_of(v, pred)


def any_node(x, pred):
    if isinstance(x, list):
        return any(any_node(y, pred) for y in x)
    if isinstance(x, dict):
        if "k" in x and pred(x):
            return True
        return any(any_node(v, pred) for kk, v in x.items() if isinstance(v, (dict, list)) and kk not in ("f", "pm"))
    return False


def evs_equal(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x is y:
            continue
        if x.k != y.k or x.l != y.l or x.fn != y.fn or x.d.keys() != y.d.keys():
            return False
        for k, v in x.d.items():
            w = y.d[k]
            if v is not w and v != w:
                return False
    return True


def walk_ev(evs, inloop=()):
    """every event, loops flattened: yields (event, enclosing loop records, path state or None)"""
    for e in evs:
        if e.k == "loop":
            yield e, inloop, None
            if not e.d.get("partial"):
                for kind, s in e.rec.paths:
                    yield from walk_ev2(s, inloop + (e.rec,))
        else:
            yield e, inloop, None


def walk_ev2(s, inloop):
    for e in s.ev:
        if e.k == "loop":
            yield e, inloop, s
            if not e.d.get("partial"):
                for kind, s2 in e.rec.paths:
                    yield from walk_ev2(s2, inloop + (e.rec,))
        else:
            yield e, inloop, s
