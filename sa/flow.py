"""Definite assignment over the syntax tree: U (no write can have happened), M (some paths), I (every path)."""
U, M, I = 0, 1, 2
SCALAR = ("int", "uint", "real", "bool", "ptr", "char", "enum")


class Tag(object):
    """why a variable is only maybe assigned: the conditions its assignment depends on"""
    def __init__(self, corr, loop):
        self.corr, self.loop = corr, loop


def refs(x, out=None):
    """ids of the variables and names of the fields an expression mentions"""
    out = set() if out is None else out
    if isinstance(x, dict):
        if x.get("k") == "var":
            out.add(x.get("id", x.get("n")))
        elif x.get("k") == "mem":
            out.add(x.get("f"))
        for v in x.values():
            refs(v, out)
    elif isinstance(x, list):
        for v in x:
            refs(v, out)
    return out


def written(x, out=None):
    """ids and field names written anywhere below (over-approximate: every reference argument, every object of a call)"""
    out = set() if out is None else out
    if isinstance(x, dict):
        k = x.get("k")
        if k == "assign":
            refs(x["a"], out)
        elif k == "un" and x["op"] in ("++", "--", "p++", "p--"):
            refs(x["e"], out)
        elif k in ("call", "mcall", "opcall", "ctor"):
            if x.get("o"):
                refs(x["o"], out)
            for a in x["a"]:
                refs(a, out)
        elif k == "decl":
            out.add(x["id"])
        for v in x.values():
            written(v, out)
    elif isinstance(x, list):
        for v in x:
            written(v, out)
    return out


def has(x, k):
    if isinstance(x, dict):
        return x.get("k") == k or any(has(v, k) for v in x.values())
    return isinstance(x, list) and any(has(v, k) for v in x)


class Flow:
    """walks one body; st: {var: (level, tag)}; None = unreachable"""
    def __init__(self, fields_of, on_read, shared_reads=None):
        self.fields_of, self.on_read = fields_of, on_read
        self.names = {}
        self.gone = set()        # objects known elsewhere
        self.ctx = []            # conditions the current statement depends on
        self.count = 0
        self.clock, self.born = 0, {}

    # ---- states
    @staticmethod
    def join(a, b, corr=(), loop=False):
        if a is None:
            return b
        if b is None:
            return a
        out = {}
        for k in set(a) | set(b):
            if k not in a or k not in b:
                continue
            (x, tx), (y, ty) = a[k], b[k]
            if x == y:
                out[k] = (x, tx or ty)
            else:
                t = tx or ty
                out[k] = (M, Tag(set(corr) | (t.corr if t else set()), loop or bool(t and t.loop)))
        return out

    def set(self, st, k):
        for q in [q for q in st if q == k or isinstance(q, tuple) and q[0] == k]:
            st[q] = (I, None)

    # ---- statements
    def run(self, s, st):
        """state after s; self.brk/self.cont/self.rets collect jumps"""
        if s is None or st is None:
            return st
        k = s["k"]
        if k == "block":
            for x in s["s"]:
                st = self.run(x, st)
            if st is not None and not (s["s"] and all(x and x["k"] == "decl" for x in s["s"])):
                self.leave(st, {d["id"] for x in s["s"] if x for d in ([x] if x["k"] == "decl" else x["s"] if x["k"] == "block" else []) if d and d["k"] == "decl"})
            return st
        if k == "decl":
            return self.decl(s, st)
        if k == "expr":
            self.ex(s["e"], st)
            if s["e"] and s["e"].get("k") == "throw":
                return None
            return st
        if k == "return":
            if s.get("e"):
                self.ex(s["e"], st)
            self.leave(st, None)
            self.rets.append(dict(st))
            return None
        if k in ("break", "continue"):
            (self.brk if k == "break" else self.cont)[-1].append(dict(st))
            return None
        if k == "if":
            if s.get("init"):
                st = self.run(s["init"], st)
            if s.get("cv"):
                st = self.decl(s["cv"], st)
            a, b = self.cond(s["c"], st)
            self.ctx.append(refs(s["c"]))
            a = self.run(s["a"], a)
            b = self.run(s["b"], b) if s.get("b") else b
            self.ctx.pop()
            for r, y in ((a, s["a"]), (b, s.get("b"))):
                if r is None:
                    (self.leaves if has(y, "return") or has(y, "throw") else self.exits).append((self.clock, refs(s["c"])))
            return self.join(a, b, refs(s["c"]) | written(s["a"]) | written(s.get("b")))
        if k in ("while", "for", "rfor", "do"):
            return self.loop(s, st)
        if k == "switch":
            self.ex(s["c"], st)
            self.brk.append([])
            self.ctx.append(refs(s["c"]))
            cur, dflt = None, False
            w = refs(s["c"]) | written(s["s"])
            for x in s["s"]:
                if x and x["k"] in ("case", "default"):
                    dflt |= x["k"] == "default"
                    cur = self.join(cur, dict(st), w)
                else:
                    cur = self.run(x, cur)
            self.ctx.pop()
            for b in self.brk.pop():
                cur = self.join(cur, b, w)
            return cur if dflt else self.join(cur, dict(st), w)
        if k == "try":
            a = self.run(s["body"], dict(st))
            for h in s["handlers"]:
                a = self.join(a, self.run(h, dict(st)), (), True)
            return a
        self.ex(s, st)
        return st

    def loop(self, s, st):
        k = s["k"]
        if s.get("init"):
            st = self.run(s["init"], st)
        c = s.get("c")
        if k == "rfor":
            self.ex(s["range"], st)
            st = dict(st)
            if s["var"].get("id") is not None:
                st.pop(s["var"]["id"], None)
        w = written(s["body"]) | written(s.get("inc")) | (refs(c) if c else set())
        zero = dict(st)
        body = dict(st)
        if k != "do" and c:
            body, zero = self.cond(c, dict(st))
        if k != "do" and s.get("cv"):
            body = self.decl(s["cv"], body)
        self.brk.append([])
        self.cont.append([])
        self.ctx.append((refs(c) if c else set()) | (refs(s["range"]) if k == "rfor" else set()))
        before = list(self.exits)
        end = self.run(s["body"], body)
        self.exits = before
        self.ctx.pop()
        for b in self.cont.pop():
            end = self.join(end, b, w, True)
        if end is not None and s.get("inc"):
            self.ex(s["inc"], end)
        if k == "do" and end is not None:
            end, x = self.cond(c, end)[::-1]
        brk = self.brk.pop()
        forever = k != "do" and k != "rfor" and (c is None or c.get("k") == "bool" and c.get("v"))
        out = None if forever else end if k == "do" else self.join(zero, end, w, True)
        if out is not None and end is not None and k != "do":
            for q in out:       # an iteration may leave it unset, too
                if out[q][0] == M and q in end and end[q][0] != I and not (end[q][1] and end[q][1].loop):
                    out[q] = (M, Tag(out[q][1].corr if out[q][1] else set(), False))
        for b in brk:
            out = self.join(out, b, w, out is None)
        return out

    def decl(self, d, st):
        st = st if st is None else dict(st)
        if st is None:
            return None
        self.clock += 1
        self.born[d["id"]] = (len(self.ctx), self.clock)
        if d.get("init") and not self.trivial(d):
            if d.get("ref"):
                self.bind(d["init"], st)
            else:
                self.ex(d["init"], st)
            st.pop(d["id"], None)
            for q in [q for q in st if isinstance(q, tuple) and q[0] == d["id"]]:
                st.pop(q)
            n = d["init"]
            while n and n.get("k") in ("conv", "copy"):
                n = n["e"]
            if n and n.get("k") == "new" and d["tk"] == "ptr":
                self.track(st, d, n.get("ty", ""), n.get("init"))
            return st
        if d.get("static") or d["tk"] not in SCALAR + ("rec",):
            return st
        self.names[d["id"]] = d["n"]
        if d["tk"] == "rec":
            self.track(st, d, d["ty"], d.get("init"))
        else:
            st[d["id"]] = (U, None)
            self.count += 1
        return st

    def trivial(self, d):
        i = d.get("init")
        return d["tk"] == "rec" and i is not None and i.get("k") == "ctor" and not i["a"] and not i.get("zero")

    def track(self, st, d, ty, init):
        if init is not None and (init.get("k") != "ctor" or init["a"] or init.get("zero")):
            return
        fs = self.fields_of(ty)
        if fs:
            self.names[d["id"]] = d["n"]
            for f in fs:
                st[(d["id"], f)] = (U, None)
                self.count += 1

    def depends(self, t):
        """what decides, since t was declared, whether this place is reached"""
        d, c = self.born.get(t[0] if isinstance(t, tuple) else t, (0, 0))
        out = set().union(*self.ctx[d:]) if self.ctx[d:] else set()
        for k, r in self.exits + self.leaves:
            if k >= c:
                out |= r
        return out

    def leave(self, st, ids):
        """objects made here that live on with fields never set"""
        for q, (lv, tag) in st.items():
            if isinstance(q, tuple) and lv == U and q[0] in self.gone and (ids is None or q[0] in ids):
                self.on_lost(self, q)

    def on_lost(self, fl, q):
        pass

    # ---- expressions
    def cond(self, c, st):
        """states when c is true, when it is false"""
        if c.get("k") == "bin" and c["op"] in ("&&", "||"):
            a, b = self.cond(c["a"], st)
            if c["op"] == "&&":
                t, f = self.cond(c["b"], dict(a))
                return t, self.join(b, f, refs(c))
            t, f = self.cond(c["b"], dict(b))
            return self.join(a, t, refs(c)), f
        if c.get("k") == "un" and c["op"] == "!":
            return self.cond(c["e"], st)[::-1]
        self.ex(c, st)
        if c.get("k") == "bool":
            return (dict(st), None) if c.get("v") else (None, dict(st))
        return dict(st), dict(st)

    def target(self, x):
        """tracked key an lvalue denotes, or None"""
        while x and x.get("k") == "conv" and x.get("ck") in ("NoOp", "DerivedToBase"):
            x = x["e"]
        if x is None:
            return None
        if x["k"] == "var":
            return x.get("id")
        if x["k"] == "mem":
            b = x["b"]
            if b and b.get("k") == "this":
                return ("this", x["f"])
            if b and b["k"] == "var" and "id" in b:
                return (b["id"], x["f"])
        return None

    def bind(self, x, st):
        """x is bound to a reference or its address is taken: it may be written from now on"""
        t = self.target(x)
        if t is not None and x.get("tk") == "ptr" and t not in st and any(isinstance(q, tuple) and q[0] == t for q in st):
            self.gone.add(t)
            return
        if t is not None and (t in st or any(isinstance(q, tuple) and q[0] == t for q in st)):
            self.set(st, t)
            return
        if x and x.get("k") == "cond":
            self.ex(x["c"], st)
            self.bind(x["a"], st)
            self.bind(x["b"], st)
            return
        self.ex(x, st)

    def read(self, x, st):
        t = self.target(x)
        if t in st:
            lv, tag = st[t]
            if lv != I:
                self.on_read(self, t, lv, tag, x)
                st[t] = (I, None)
            return True
        if x["k"] == "var":
            qs = [q for q in st if isinstance(q, tuple) and q[0] == t]
            if qs and x.get("tk") == "ptr":
                self.gone.add(t)
            for q in qs:
                if st[q][0] != I and x.get("tk") == "rec":
                    self.on_read(self, q, st[q][0], st[q][1], x, True)
                    st[q] = (I, None)
            return bool(qs)
        return False

    def ex(self, x, st):
        if x is None or st is None:
            return
        k = x.get("k")
        if k in ("var", "mem"):
            if self.read(x, st):
                return
            if k == "mem":
                b = x["b"]
                if b and b.get("k") == "var" and b.get("tk") in ("rec",):
                    return
                if b and b.get("k") == "var" and b.get("id") not in st:
                    return
                self.ex(b, st)
            return
        if k == "assign":
            t = self.target(x["a"])
            if x["op"] == "=":
                self.ex(x["b"], st)
                if t is not None and (t in st or any(isinstance(q, tuple) and q[0] == t for q in st)):
                    self.set(st, t)
                elif t is None:
                    self.ex(x["a"], st)
            else:
                self.ex(x["b"], st)
                self.ex(x["a"], st)
            return
        if k == "bin" and x["op"] in ("&&", "||"):
            t, f = self.cond(x, dict(st))
            j = self.join(t, f, refs(x))
            if j is not None:
                st.update(j)
            return
        if k == "cond":
            a, b = self.cond(x["c"], dict(st))
            self.ctx.append(refs(x["c"]))
            for y, s in ((x["a"], a), (x["b"], b)):
                if s is not None:
                    self.ex(y, s)
            self.ctx.pop()
            j = self.join(a, b, refs(x))
            if j is not None:
                st.update(j)
            return
        if k == "un" and x["op"] == "&":
            self.bind(x["e"], st)
            return
        if k == "lambda":
            for c in x.get("caps", []):
                if "id" in c:
                    self.set(st, c["id"])
            return
        if k in ("call", "mcall", "opcall", "ctor"):
            f = x.get("f") or {}
            pm = f.get("pm", [])
            a = x["a"]
            if k == "opcall" and f.get("method"):
                o, rest = a[0], a[1:]
                if x.get("op") == "=" and self.target(o) is not None:
                    for y, m in zip(rest, list(pm) + ["ref"] * len(rest)):
                        (self.bind if m == "ref" else self.ex)(y, st)
                    self.bind(o, st)
                    return
                (self.ex if f.get("const") else self.obj)(o, st)
                a = rest
            elif k == "mcall":
                self.obj(x.get("o"), st)
                if x.get("o") and x["o"].get("k") == "this":
                    self.method(f, st)
            for i, y in enumerate(a):
                m = pm[i] if i < len(pm) else "val" if k == "call" and f else "ref"
                (self.bind if m == "ref" else self.ex)(y, st)
            return
        if k == "new" and x.get("init"):
            self.ex(x["init"], st)
            return
        if k == "sizeof":
            return
        for kk in x:
            v = x[kk]
            if isinstance(v, dict) and kk not in ("f",):
                self.ex(v, st) if "k" in v else None
            elif isinstance(v, list):
                for y in v:
                    if isinstance(y, dict) and "k" in y:
                        self.ex(y, st)

    def obj(self, o, st):
        """an object a method is called on: reads a pointer, leaves a class object alone"""
        if o is None:
            return
        if o.get("k") == "var" and o.get("tk") == "rec":
            self.set(st, o.get("id"))
            return
        self.ex(o, st)

    def method(self, f, st):
        pass

    def go(self, body, st=None):
        self.rets, self.brk, self.cont, self.exits, self.leaves = [], [[]], [[]], [], []
        st = self.run(body, dict(st or {}))
        if st is not None:
            self.rets.append(st)
        return self.rets
