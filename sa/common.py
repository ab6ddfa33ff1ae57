"""Shared anchors: everything is reached from the public API names, not from private names or text."""
from .terms import *
from .engine import Engine, PathLimit, Undecided, any_node, walk_ev, walk_ev2
from .front import AnalysisError

THISP = mk("L.deref", THIS)


def bindpre(vals=None, fields=None):
    """pre-state hook: bind parameters (by position) and this-fields to given terms"""
    def pre(st, fr):
        for i, v in (vals or {}).items():
            p = fr.fn["params"][i]
            pl = mk("L.var", fr.id, p["id"], p["n"])
            if pl in st.refs:
                st.store[st.refs[pl]] = v
            else:
                st.store[pl] = v
        for f, v in (fields or {}).items():
            st.store[mk("L.fld", THISP, f)] = v
    return pre


# names accepted on the command line, with the stage they must reach
PIPE_NAMES = {
    "distMatrix": "distMatrixPipe", "neighGraph": "neighGraphPipe", "rips": "ripsPipe", "upscale": "upscalePipe",
    "boundary": "boundaryPipe", "slidingwindow": "slidingWindow", "sliding": "slidingWindow",
    "fastPersistence": "fastPersistence", "fast": "fastPersistence", "naivewindow": "naiveWindow", "naive": "naiveWindow"}
PRE_NAMES = {
    "kmeansplusplus": "kMeansPlusPlus", "kmeans++": "kMeansPlusPlus", "kmeans": "kMeansPlusPlus",
    "streamingKmeans": "streamingKmeans", "streamingkmeans": "streamingKmeans", "streamKM": "streamingKmeans",
    "denStream": "denStream", "denstream": "denStream", "DenStream": "denStream"}


def newclass(t):
    """class of a freshly allocated object term, or None"""
    return t.a[0] if t.op == "new" else None


def factory(prog, name, args, fields=None, nparams=None):
    """results of a factory method called with constant strings: list of (class or None, term, state)"""
    fn = prog.fn(name, nparams)
    en = Engine(prog)
    sts = en.run(fn, pre=bindpre({i: a for i, a in enumerate(args) if a is not None}, fields))
    return fn, en, [(newclass(s.ret), s.ret, s) for s in sts if s.status == "ret"]


def stage_classes(prog):
    """{public stage name: class} resolved through the factory itself"""
    out = {}
    for n in list(PIPE_NAMES) + ["persistence"]:
        for ct in ("simplexTree", "simplexArrayList", "indSimplexTree"):
            _, _, r = factory(prog, "basePipe::newPipe", [STR(n), STR(ct)], nparams=2)
            cl = {c for c, _, _ in r}
            if len(cl) == 1 and None not in cl:
                out.setdefault(n if n != "persistence" else "persistence/" + ct, cl.pop())
    return out


def pre_classes(prog):
    out = {}
    for n in PRE_NAMES:
        _, _, r = factory(prog, "preprocessor::newPreprocessor", [STR(n)], nparams=1)
        cl = {c for c, _, _ in r}
        if len(cl) == 1 and None not in cl:
            out[n] = cl.pop()
    return out


def method(prog, cls, name, nparams=None):
    """definition of a method as seen on class cls"""
    for c in prog.ancestors(cls):
        fs = [f for f in prog.fns(c + "::" + name) if nparams is None or len(f["params"]) == nparams]
        if fs:
            return fs[0]
    return None


def field_inits(prog, cls):
    """initial values of all fields of a freshly constructed object of cls: {field: term}"""
    en = Engine(prog)
    pl = mk("L.tmp", "probe")
    ctors = [f for f in prog.fns(cls + "::" + cls.split("::")[-1]) if f.get("ctor") and not f["params"]]
    from .engine import State, Frame
    out = {}
    if ctors:
        sts = en.run(ctors[0])
        base = THISP
        st = sts[0]
    else:
        st = State()
        en.default_init(st, Frame(0, {"file": "", "name": cls, "key": cls}, THISP, 0, None), THISP, cls)
        sts = [st]
        base = THISP
    for s in sts:
        for k, v in s.store.items():
            if k.op == "L.fld" and k.a[0] is base:
                if k.a[1] in out and out[k.a[1]] is not v:
                    out[k.a[1]] = mk("unknown")
                else:
                    out[k.a[1]] = v
    # fields of bases without a written constructor
    return out


def reach(prog, pred):
    """keys of functions from which a function satisfying pred may be called (call graph with all overrides)"""
    calls = {}
    for k, f in prog.functions.items():
        cs = set()

        def w(x):
            fr = x.get("f")
            if isinstance(fr, dict) and fr.get("repo"):
                cs.add(fr["key"])
            return False
        any_node(f["body"], w)
        calls[k] = cs
    over = {}
    for c in prog.classes.values():
        for m in c["methods"]:
            for o in m["overrides"]:
                over.setdefault(o, set()).add(m["key"])
    hit = {k for k, f in prog.functions.items() if pred(f)}
    direct = {k for k, cs in calls.items() if any(pred_key(prog, c, pred) for c in cs)}
    res = set(direct)
    ch = True
    while ch:
        ch = False
        for k, cs in calls.items():
            if k in res:
                continue
            for c in cs:
                if c in res:
                    res.add(k)
                    ch = True
                    break
    return res, calls, direct


def pred_key(prog, key, pred):
    f = prog.functions.get(key)
    if f is not None:
        return pred(f)
    return pred({"name": key.split("(")[0].split("]")[-1], "short": key.split("(")[0].split("::")[-1], "key": key})


def guards(e, extra=None):
    g = dict(e.g)
    if extra:
        g.update(extra)
    return g


def fmt_guards(g, n=8):
    return " & ".join(("" if b else "not ") + show(a) for a, b in list(g.items())[-n:])


def fieldname(t):
    """name of a this-field initial value term"""
    if t.op == "init" and t.a[0].op == "L.fld" and t.a[0].a[0] is THISP:
        return t.a[0].a[1]
    return None
