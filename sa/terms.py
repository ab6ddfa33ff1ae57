"""Interned value terms and their normalisation."""


class T:
    __slots__ = ("op", "a", "uid", "_free")
    tab = {}
    n = 0

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.uid < o.uid


def mk(op, *a):
    k = (op,) + tuple(("#", x.uid) if isinstance(x, T) else (type(x).__name__, x) for x in a)
    t = T.tab.get(k)
    if t is None:
        t = T()
        t.op, t.a = op, a
        T.n += 1
        t.uid = T.n
        T.tab[k] = t
    return t


def show(t, d=0):
    if not isinstance(t, T):
        return repr(t) if not isinstance(t, str) else t
    if d > 9:
        return "..."
    s = lambda x: show(x, d + 1)
    o, a = t.op, t.a
    if o in ("int", "real", "bool"):
        return str(a[0])
    if o == "str":
        return '"%s"' % a[0].replace("\n", "\\n")
    if o == "null":
        return "null"
    if o == "L.var":
        return str(a[2])
    if o == "L.fld":
        return s(a[0]) + "." + a[1]
    if o == "L.deref":
        return "*" + s(a[0]) if a[0].op != "this" else "this"
    if o == "L.elem":
        return s(a[0]) + "[" + s(a[1]) + "]"
    if o in ("L.glob", "L.ref", "param"):
        return str(a[0])
    if o == "init":
        return "init(" + s(a[0]) + (")" if not a[1] else "@%s)" % a[1])
    if o == "at":
        return s(a[0]) + "[" + s(a[1]) + "]"
    if o == "fld":
        return s(a[0]) + "." + a[1]
    if o in ("lv", "lo"):
        return "%s(%s,%s)" % (o, a[0].rsplit("|", 1)[-1] if isinstance(a[0], str) else a[0], s(a[1]) if isinstance(a[1], T) else a[1])
    if o in ("<", "==", "+", "-", "*", "/", "%"):
        return "(" + s(a[0]) + o + s(a[1]) + ")"
    return o + "(" + ", ".join(s(x) for x in a) + ")"


def INT(v):
    return mk("int", int(v))


def REAL(v):
    v = float(v)
    if v == int(v) and abs(v) < 1e15:
        return mk("int", int(v))
    return mk("real", v)


def STR(s):
    return mk("str", s)


TRUE, FALSE, NULL, EMPTY = mk("bool", True), mk("bool", False), mk("null"), mk("empty")
UNINIT = mk("uninit")
THIS = mk("this")


def BOOL(b):
    return TRUE if b else FALSE


def isconst(t):
    return t.op in ("int", "real", "bool", "str", "null")


def cval(t):
    if t.op in ("int", "real"):
        return t.a[0]
    if t.op == "bool":
        return int(t.a[0])
    if t.op == "null":
        return 0
    return None


def neg(t):
    if t.op == "bool":
        return BOOL(not t.a[0])
    if t.op == "not":
        return t.a[0]
    return mk("not", t)


def lt(a, b):
    x, y = cval(a), cval(b)
    if x is not None and y is not None:
        return BOOL(x < y)
    if a is b:
        return FALSE
    if x == 0 and b.op == "b2i":
        return truth(b.a[0])
    if y == 1 and a.op == "b2i":
        return neg(truth(a.a[0]))
    # integers: 0 < size  <=> nz(size)
    if x == 0 and unsigned(b):
        return nz(b)
    if y == 1 and unsigned(a):
        return neg(nz(a))
    if y == 0 and unsigned(a):
        return FALSE
    # x+1 < y+1 style folding for integer offsets on one side
    if y is not None and a.op == "+" and a.a[1].op == "int" and b.op == "int":
        return lt(a.a[0], INT(y - a.a[1].a[0])) if not unsigned(a.a[0]) or y - a.a[1].a[0] >= 0 else FALSE
    return mk("<", a, b)


def unsigned(t):
    return t.op == "size" or (t.op == "+" and unsigned(t.a[0]) and t.a[1].op == "int" and t.a[1].a[0] >= 0)


def le(a, b):
    return neg(lt(b, a))


def eq(a, b):
    if a is b:
        return TRUE
    if isconst(a) and isconst(b):
        if a.op == "str" or b.op == "str":
            return BOOL(a.op == b.op and a.a[0] == b.a[0])
        return BOOL(cval(a) == cval(b))
    if isconst(a):
        a, b = b, a
    if isconst(b):
        if b.op == "null" or cval(b) == 0 and b.op != "str":
            if b.op == "bool":
                return neg(truth(a))
            return neg(nz(a))
        if b.op == "bool":
            return truth(a)
        if b.op == "str" and b.a[0] == "":
            return neg(nz(size(a)))
        if a.op == "b2i" and cval(b) == 1:
            return truth(a.a[0])
    elif b.uid < a.uid:
        a, b = b, a
    if b.op == "empty":
        return neg(nz(size(a)))
    return mk("==", a, b)


def nz(a):
    c = cval(a)
    if c is not None:
        return BOOL(c != 0)
    if a.op == "new" or a.op == "addr":
        return TRUE
    if a.op == "size":
        c = a.a[0]
        if c.op in ("push", "ins", "upd"):
            return TRUE
    if a.op == "b2i":
        return truth(a.a[0])
    return mk("nz", a)


def truth(a):
    """boolean view of a value"""
    if a.op in ("bool", "not", "<", "==", "nz", "has", "&&", "||"):
        return a
    if isconst(a) and a.op != "str":
        return BOOL(cval(a) != 0)
    if a.op == "b2i":
        return truth(a.a[0])
    return nz(a) if a.op == "size" or a.op == "new" else mk("nz", a)


def size(c):
    if c.op == "empty":
        return INT(0)
    if c.op == "str":
        return INT(len(c.a[0]))
    if c.op == "upd" and c.a[2] is not None and not c.a[3]:
        return size(c.a[0])
    if c.op == "push":
        return add(size(c.a[0]), INT(1))
    if c.op in ("sorted", "reversed"):
        return size(c.a[0])
    if c.op in ("map", "filled"):
        return c.a[0]
    return mk("size", c)


def add(a, b):
    x, y = cval(a), cval(b)
    if x is not None and y is not None and a.op != "bool" and b.op != "bool":
        return REAL(x + y) if "real" in (a.op, b.op) else INT(x + y)
    if x is not None and y is None:
        a, b, x, y = b, a, y, x
    if y == 0:
        return a
    if y is not None and a.op == "+" and cval(a.a[1]) is not None:
        return add(a.a[0], add(a.a[1], b))
    if y is None and b.uid < a.uid and not (cval(a) is not None):
        a, b = b, a
    return mk("+", a, b)


def sub(a, b):
    x, y = cval(a), cval(b)
    if y is not None:
        return add(a, REAL(-y))
    if a is b:
        return INT(0)
    return mk("-", a, b)


def mul(a, b):
    x, y = cval(a), cval(b)
    if x is not None and y is not None:
        return REAL(x * y)
    if x is not None:
        a, b, x, y = b, a, y, x
    if y == 1:
        return a
    if y is None and b.uid < a.uid:
        a, b = b, a
    return mk("*", a, b)


def cat(*xs):
    out = []
    for x in xs:
        if x.op == "cat":
            out += list(x.a)
        elif x.op == "empty" or (x.op == "str" and x.a[0] == ""):
            pass
        else:
            out.append(x)
    res = []
    for x in out:
        if x.op == "chr":
            x = STR(chr(x.a[0]))
        if res and res[-1].op == "str" and x.op == "str":
            res[-1] = STR(res[-1].a[0] + x.a[0])
        else:
            res.append(x)
    if not res:
        return STR("")
    if len(res) == 1:
        return res[0]
    return mk("cat", *res)


def distinct(a, b):
    return isconst(a) and isconst(b) and a is not b and (a.op == b.op or (a.op != "str" and b.op != "str"))


def at(c, i, default=None):
    n = 0
    while True:
        n += 1
        if c.op == "upd":
            if c.a[1] is i:
                return c.a[2]
            if distinct(c.a[1], i):
                c = c.a[0]
                continue
        elif c.op == "touch":
            c = c.a[0]
            continue
        elif c.op == "push":
            if i is size(c.a[0]):
                return c.a[1]
        elif c.op == "list" and i.op == "int" and 0 <= i.a[0] < len(c.a):
            return c.a[i.a[0]]
        elif c.op == "maplit":
            for k in range(0, len(c.a), 2):
                if c.a[k] is i:
                    return c.a[k + 1]
        elif c.op == "map":
            return subst(c.a[2], {c.a[1]: i})
        elif c.op == "filled":
            return c.a[1]
        break
    return mk("at", c, i)


def has(c, k):
    while True:
        if c.op in ("upd", "touch"):
            if c.a[1] is k:
                return TRUE
            if distinct(c.a[1], k):
                c = c.a[0]
                continue
        elif c.op == "ins":
            if c.a[1] is k:
                return TRUE
            if distinct(c.a[1], k):
                c = c.a[0]
                continue
        elif c.op == "rm":
            if c.a[1] is k:
                return FALSE
            if distinct(c.a[1], k):
                c = c.a[0]
                continue
        elif c.op == "empty":
            return FALSE
        elif c.op == "maplit":
            ks = c.a[::2]
            if k in ks:
                return TRUE
            if isconst(k) and all(isconst(x) for x in ks):
                return FALSE
        elif c.op == "list":
            if k in c.a:
                return TRUE
        break
    return mk("has", c, k)


def getf(v, f):
    if v.op == "struct":
        for i in range(1, len(v.a), 2):
            if v.a[i] == f:
                return v.a[i + 1]
        return getf(v.a[0], f)
    if v.op == "pair" and f in ("first", "second"):
        return v.a[0] if f == "first" else v.a[1]
    if v.op == "agg":
        for i in range(0, len(v.a), 2):
            if v.a[i] == f:
                return v.a[i + 1]
    if v.op == "kv" and f == "first":
        return v.a[1]
    if v.op == "kv" and f == "second":
        return at(v.a[0], v.a[1])
    if v.op == "obj" and v.a[0].startswith("std::"):
        return EMPTY
    return mk("fld", v, f)


def setf(v, f, x):
    if v.op == "pair" and f in ("first", "second"):
        return mk("pair", x, v.a[1]) if f == "first" else mk("pair", v.a[0], x)
    if v.op == "struct":
        d = {v.a[i]: v.a[i + 1] for i in range(1, len(v.a), 2)}
        base = v.a[0]
    else:
        d, base = {}, v
    d[f] = x
    flat = []
    for k in sorted(d):
        flat += [k, d[k]]
    return mk("struct", base, *flat)


def subterms(t, seen=None):
    """all subterms (deduplicated)"""
    seen = set() if seen is None else seen
    todo = [t]
    while todo:
        x = todo.pop()
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        yield x
        todo += [y for y in x.a if isinstance(y, T)]


def contains(t, pred):
    return any(pred(x) for x in subterms(t))


def subst(t, m, memo=None):
    memo = {} if memo is None else memo
    if not isinstance(t, T):
        return t
    if t in m:
        return m[t]
    if t in memo:
        return memo[t]
    na = tuple(subst(x, m, memo) for x in t.a)
    if all(x is y for x, y in zip(na, t.a)):
        r = t
    else:
        r = rebuild(t.op, na)
    memo[t] = r
    return r


REB = {}


def rebuild(op, a):
    f = REB.get(op)
    return f(*a) if f else mk(op, *a)


REB.update({"<": lt, "==": eq, "nz": nz, "not": neg, "+": add, "-": sub, "*": mul, "cat": cat, "at": at, "has": has, "fld": getf, "size": size})
