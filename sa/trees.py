"""What one step of incremental insertion into a simplex tree records, as terms over the incoming node and point."""
from .common import *
from .loops import *
from .rules.c02 import closure

MEM = {}


def nosize(t):
    """size of a set extended by a vertex it cannot contain yet"""
    def go(x):
        if not isinstance(x, T):
            return x
        a = tuple(go(y) for y in x.a)
        if x.op == "size" and a[0].op == "ins":
            return add(go(mk("size", a[0].a[0])), INT(1))
        if x.op == "size" and a[0].op == "list":
            return INT(len(a[0].a))
        if all(p is q for p, q in zip(a, x.a)):
            return x
        return rebuild(x.op, a)
    return go(t)


def noepoch(t):
    m = {}

    def go(x):
        if not isinstance(x, T):
            return x
        if x in m:
            return m[x]
        a = tuple(go(y) for y in x.a)
        if x.op == "init":
            r = mk("init", a[0], "")
        elif all(p is q for p, q in zip(a, x.a)):
            r = x
        else:
            r = rebuild(x.op, a)
        m[x] = r
        return r
    return go(t)


def recursive_callee(prog, fn):
    """the function reachable from fn that calls itself"""
    out = []
    todo, seen = [fn["key"]], set()
    while todo:
        k = todo.pop()
        if k in seen or k not in prog.functions:
            continue
        seen.add(k)
        cs = set()

        def w(x):
            fr = x.get("f")
            if isinstance(fr, dict) and fr.get("repo"):
                cs.add(fr["key"])
            return False
        any_node(prog.functions[k]["body"], w)
        if k in cs and prog.functions[k]["cls"] == fn["cls"]:
            out.append(prog.functions[k])
        todo += list(cs)
    return out


def roles(fn):
    """parameters of the step by type: node, index, weight so far, simplex so far"""
    r = {}
    for i, p in enumerate(fn["params"]):
        ty = p["ty"]
        if p["m"] == "ptr" and "node" not in r:
            r["node"] = i
        elif "set<" in ty and "simp" not in r:
            r["simp"] = i
        elif ty.replace("const ", "").strip(" &") in ("double", "float") and "w" not in r:
            r["w"] = i
        elif "unsigned" in ty and "set<" not in ty and "index" not in r:
            r["index"] = i
    return r


class Step:
    pass


def node_field(t, node):
    """F when t is the value node->F had on entry"""
    if t.op == "init" and t.a[0].op == "L.fld" and t.a[0].a[0].op == "L.deref" and t.a[0].a[0].a[0] is node:
        return t.a[0].a[1]
    return None


def step(prog, cls, listfield):
    """paths of the recursive insertion step of cls; listfield: the member that records simplices per dimension"""
    k = (id(prog), cls)
    if k in MEM:
        return MEM[k]
    ins = method(prog, cls, "insert", 1)
    if ins is None or ins["cls"] != cls:
        return None
    recs = recursive_callee(prog, ins)
    if len(recs) != 1:
        MEM[k] = None
        return None
    fn = recs[0]
    ro = roles(fn)
    if set(ro) != {"node", "index", "w", "simp"}:
        MEM[k] = None
        return None
    st = Step()
    st.fn, st.ins, st.roles, st.cls = fn, ins, ro, cls
    st.where = "%s:%d" % (fn["file"], fn["l"])
    st.en = Engine(prog, opaque=lambda f: f["key"] == fn["key"], nomerge=True)
    P = lambda n: mk("param", fn["params"][ro[n]]["n"])
    st.node, st.index, st.w, st.simp = P("node"), P("index"), P("w"), P("simp")
    st.states = [s for s in st.en.run(fn, dyn=cls) if s.status == "ret"]
    st.L = mk("L.fld", THISP, listfield)
    st.rows = []
    for s in st.states:
        recsn = []
        for e, ctx, own in walk_ev(s.ev):
            if e.k != "push":
                continue
            pl, v = e.place, e.val
            if pl is st.L:
                v0 = v
                while v0.op == "push" and v0.a[0].op == "empty":
                    v0 = v0.a[1]
                if v0.op == "list" and len(v0.a) == 1:
                    v0 = v0.a[0]
                if v0.op != "empty":        # an empty list only makes room for the dimension
                    recsn.append((e, None, v0, ctx))
            elif pl.op == "L.elem" and pl.a[0] is st.L:
                recsn.append((e, pl.a[1], v, ctx))
        out = []
        for e, lev, v, ctx in recsn:
            if v.op == "pair":
                sset, wt = v.a
            elif v.op == "new":
                n = mk("L.deref", v)
                sset = wt = None
                for f in ("simplexSet", "simplex"):
                    x = s.store.get(mk("L.fld", n, f))
                    if x is not None and x.op not in ("empty", "init"):
                        sset = x
                wt = s.store.get(mk("L.fld", n, "weight"))
                if sset is None or wt is None:
                    # the fields may be hidden behind later heap effects: last writes win
                    for e2, _, _ in walk_ev(s.ev):
                        if e2.k == "write" and e2.place.op == "L.fld" and e2.place.a[0] is n:
                            if e2.place.a[1] in ("simplexSet", "simplex") and sset is None:
                                sset = e2.val
                            if e2.place.a[1] == "weight" and wt is None:
                                wt = e2.val
                if wt is not None and wt.op == "init":
                    wt = None
                    for e2, _, _ in walk_ev(s.ev):
                        if e2.k == "write" and e2.place is mk("L.fld", n, "weight"):
                            wt = e2.val
            else:
                sset = wt = None
            out.append((e, lev, sset, wt, ctx))
        st.rows.append((s, out))
    MEM[k] = st
    return st


def dist_reads(t):
    """distMatrix entries in a term: (entry, row, column)"""
    M = mk("init", mk("L.fld", THISP, "distMatrix"), "")
    for x in subterms(t):
        if x.op == "at" and x.a[0].op == "at" and noepoch(x.a[0].a[0]) is M:
            yield x, x.a[0].a[1], x.a[1]


def order(atoms):
    """known a<=b pairs: {a: set(b)} and strict ones"""
    le_, st_ = {}, set()
    for a, b in atoms.items():
        if a.op == "<":
            x, y = (a.a[0], a.a[1]) if b else (a.a[1], a.a[0])
            le_.setdefault(x, set()).add(y)
            if b:
                st_.add((x, y))
        elif a.op == "==" and b:
            le_.setdefault(a.a[0], set()).add(a.a[1])
            le_.setdefault(a.a[1], set()).add(a.a[0])
    return le_, st_


def maxleaves(t):
    if t.op in ("f:std::max", "f:max", "max"):
        r = []
        for x in t.a:
            if isinstance(x, T):
                r += maxleaves(x)
        return r
    return [t]


def below(atoms, a, b):
    """a <= b is known on the path"""
    if a is b:
        return True
    la, lb = maxleaves(a), maxleaves(b)
    if len(la) > 1:
        return all(below(atoms, x, b) for x in la)
    g, _ = order(atoms)
    todo, seen = [a], set()
    while todo:
        x = todo.pop()
        if x is b or x in lb or b in maxleaves(x) and x is b:
            return True
        if x in seen:
            continue
        seen.add(x)
        for y in g.get(x, ()):
            todo.append(y)
        for k in g:
            if len(maxleaves(k)) > 1 and x in maxleaves(k):
                todo.append(k)
        # a maximum known elsewhere on the path bounds its operands
        for y in list(g.values()):
            for z in y:
                if len(maxleaves(z)) > 1 and x in maxleaves(z):
                    todo.append(z)
    return False
