"""C18 windowed runs: the window's points, keys and labels stay in step, exactly one point leaves for each one accepted, and it is the right one."""
from ..common import *
from ..loops import *
from ..trees import noepoch
from ..cases import value, holds, grid
from .c09 import w
from .c12 import par
from .c13 import recs, lv
from .c14 import states, isdist, txt
from .c16 import flat

TITLE = "windowed runs"
OPQ = {"vectors_distance", "nearestNeighbors", "writeDebug", "writeLog"}
RUN = OPQ | {"insertIterative", "streamRead", "streamInit", "runSubPipeline", "writeComplexStats", "runComplexInitializer", "setStreamEvaluator", "simplexCount", "vertexCount", "outputData"}
SIDE = ("windowKeys", "partitionLabels")


def run(prog, ck):
    fs = sorted((f for f in prog.functions.values()), key=lambda f: f["key"])
    for fn in fs:
        n = fn["name"]
        if n in ("slidingWindow::runPipe", "naiveWindow::runPipe"):
            window(prog, ck, fn, n.startswith("slid"))
        elif n == "slidingWindow::nnBasedEvaluator":
            evaluator(prog, ck, fn)
        elif n == "naiveWindow::sampleStreamEvaluator":
            untouched(prog, ck, fn)
        elif n == "slidingWindow::runComplexInitializer":
            initial(prog, ck, fn)
        elif n == "simplexTree::insertIterative":
            verdicts(prog, ck, fn)
    ck.expect("filled", 2)
    ck.expect("replaced", 2)
    ck.expect("reported", 1)
    ck.expect("one leaves", 1)
    ck.expect("which leaves", 1)
    ck.expect("partition", 1)
    ck.expect("neighbours", 1)
    ck.expect("verdict", 1)


def last(pl):
    """name of the field a place or a value read from it denotes"""
    for _ in range(4):
        if pl is None or not isinstance(pl, T):
            return None
        if pl.op == "L.fld":
            return pl.a[1]
        if pl.op in ("init",):
            pl = pl.a[0]
        elif pl.op in ("lv", "lo"):
            pl = pl.a[1]
        elif pl.op == "fld":
            return pl.a[1]
        else:
            return None


def within(pl, p):
    while pl is not p and pl.op in ("L.fld", "L.elem", "L.idx", "L.at"):
        pl = pl.a[0]
    return pl is p


def stored(s, name):
    for p, v in s.store.items():
        if p.op == "L.fld" and p.a[1] == name:
            return v
    return None


# ---- the loop that reads the stream

def window(prog, ck, fn, sliding):
    W, inst = w(fn), fn["name"].split("::")[0]
    sts = states(prog, ck, fn, "filled", RUN)
    if sts is None:
        return
    r = None
    for q, ctx in recs(sts):
        if any(e.k == "call" and e.d["name"] == "readInput::streamRead" for k, p in q.paths for e in flat(p)):
            r = q
            break
    if r is None:
        ck.und("filled", inst, "loop over the stream not recognised", W)
        return
    wd = next((e.d["places"][1] for k, p in r.paths for e in flat(p) if e.k == "call" and e.d["name"] == "simplexBase::insertIterative"), None)
    if wd is None:
        ck.bad("replaced", inst, "later points are never offered to the complex", W)
        return
    n0 = size(lv(r, wd))
    cap = None
    for k, p in r.paths:
        for a in p.atoms:
            for x in subterms(a):
                if x.op in ("<", "==") and n0 in [b for y in x.a for b in lin(y)[0]]:
                    for z in list(x.a) + [b for y in x.a for b in lin(y)[0]]:
                        if last(z) == "windowMaxSize":
                            cap = noepoch(z)
    M = 50 if not sliding else 5
    seen = set()
    bad = {}

    def say(rule, kind, text):
        bad.setdefault((rule, kind), text)

    for k, p in r.paths:
        evs = flat(p)
        rd = [e for e in evs if e.k == "call" and e.d["name"] == "readInput::streamRead"]
        if len(rd) != 1:
            continue
        cur = None
        for e in evs:
            for v in [e.d.get("val")] + list(e.d.get("args") or []):
                if isinstance(v, T) and v.op == "out" and v.a[0] == "readInput::streamRead":
                    cur = v
        got = rd[0].d["res"]
        if p.atoms.get(got) is False:
            continue
        if k != "end":
            say("filled", "bad", "reading stops before the end of the stream")
            continue
        ins = [e for e in evs if e.k == "call" and e.d["name"] == "simplexBase::insertIterative"]
        base = {}
        cnts = []
        for a in p.atoms:
            for x in subterms(a):
                if last(x) == "windowMaxSize":
                    base[noepoch(x)] = M
                if x.op == "lv" and x.a[0] == r.lid and x.a[1].op == "L.var" and x.a[1] is not wd and x is not lv(r, wd):
                    cnts.append(noepoch(x))
        for n in (0, 1, M - 2, M - 1, M):
            for acc in (True, False):
                for pc in (99, 100, 101, 300):
                    env = dict(base)
                    env[noepoch(n0)] = n
                    for c in cnts:
                        env[c] = pc
                    for e in ins:
                        env[noepoch(e.d["res"])] = acc
                        env[e.d["res"]] = acc
                    at0 = {noepoch(a): b for a, b in p.atoms.items() if a not in r.entry and a is not got and not contains(a, lambda x: x is got)}
                    okk, rest = holds(at0, env)
                    if not okk:
                        continue
                    rest = [x for x in rest]
                    if rest:
                        say("filled", "und", "paths depend on %s" % txt(rest)[:150])
                        continue
                    full_ = n >= M
                    seen.add((full_, acc))
                    rule = "replaced" if full_ else "filled"
                    sit = "a window of %d points with room for %d" % (n, M) if not full_ else "a full window and a point that is %s" % ("accepted" if acc else "rejected")
                    if full_ and len(ins) != 1:
                        say(rule, "bad", "with a full window the point is offered %d times to the complex" % len(ins))
                        continue
                    if not full_ and ins:
                        say(rule, "bad", "a point is offered to the complex before the window is full (%s)" % sit)
                        continue
                    for e in ins:
                        if e.d["args"][0] is not cur:
                            say(rule, "und", "%s is offered" % show(e.d["args"][0])[:60])
                    push = [e for e in evs if e.k == "push" and e.d["place"] is wd]
                    gone = [e for e in evs if e.k == "erase" and e.d["place"] is wd]
                    if any(e.d.get("pos") is not None and e.d["pos"].op != "end" and diff(e.d["pos"], size(e.d["c"])) != 0 for e in push):
                        say(rule, "bad", "%s: the point enters at number %s, not behind the others" % (sit, show([e for e in push if e.d.get("pos") is not None][0].d["pos"])[:40]))
                        continue
                    other = [e for e in evs if e.k in ("write", "lwrite") and e.d["place"] is wd and e.d.get("how") not in ("push_back", "emplace_back", "erase")]
                    if other:
                        say(rule, "und", "the window is also changed by %s" % show(other[0].d["val"])[:80])
                        continue
                    want = 1 if not full_ or acc else 0
                    if len(push) != want:
                        say(rule, "bad", "%s: the point is appended %d times" % (sit, len(push)))
                        continue
                    if push and push[0].d["val"] is not cur and not (push[0].d["val"].op == "out" and push[0].d["val"].a[0] == "simplexBase::insertIterative" and push[0].d["val"].a[1] == 0):
                        say(rule, "und", "%s is appended" % show(push[0].d["val"])[:60])
                        continue
                    wg = 1 if not sliding and full_ and acc else 0
                    if len(gone) != wg:
                        say(rule, "bad", "%s: %d points leave in the loop%s" % (sit, len(gone), " although the evaluator has removed one" if sliding and gone else ""))
                        continue
                    if gone:
                        q = cval(gone[0].d["pos"])
                        if q is None or q != 0:
                            say(rule, "bad" if q is not None or diff(gone[0].d["pos"], size(gone[0].d["c"])) is not None else "und", "number %s of the window leaves instead of the oldest" % show(gone[0].d["pos"]))
                            continue
                    if sliding:
                        step(say, rule, sit, p, evs, want, full_)
                    init_ = [e for e in evs if e.k == "call" and e.d["name"].endswith("::runComplexInitializer")]
                    setev = [e for e in evs if e.k == "call" and e.d["name"] == "simplexBase::setStreamEvaluator"]
                    due = not full_ and n + 1 == M
                    if len(init_) != due:
                        say("filled", "bad", "%s: the initial complex is built %d times after the point" % (sit, len(init_)))
                        continue
                    if due:
                        d = getf(init_[0].d["args"][0], "originalData")
                        if d is not mk("push", lv(r, wd), cur):
                            late = evs.index(init_[0]) < evs.index(push[0]) or d is lv(r, wd) or d.op == "fld"
                            say("filled", "bad" if late else "und", "the initial complex is built from %s" % ("other data than the full window" if late else show(d)[:80]))
                            continue
                        if len(setev) != 1 or not contains(setev[0].d["args"][0], lambda x: x.op == "fn" and any(isinstance(y, str) and y.startswith(inst + "::") for y in x.a)):
                            say("filled", "bad" if not setev else "und", "the evaluator is set %d times" % len(setev))
                            continue
    ran = 0
    for ctx, st in [("in", p) for k, p in r.paths] + [("after", x) for x in sts]:
        cur_w = None
        for e in flat(st) if ctx == "in" else [e for e in st.ev if e.k != "loop"]:
            if e.k in ("push", "erase") and e.d["place"] is wd:
                cur_w = mk("push", e.d["c"], e.d["val"]) if e.k == "push" else mk("erased", e.d["c"], e.d["pos"])
            elif e.k == "call" and e.d["name"] == "simplexBase::insertIterative":
                cur_w = mk("out", "after")
            elif e.k == "call" and e.d["name"].endswith("Window::runSubPipeline"):
                d = getf(e.d["args"][0], "originalData")
                here = (cur_w if cur_w is not None else lv(r, wd)) if ctx == "in" else mk("lo", r.lid, wd)
                if ctx == "after":
                    a0 = {noepoch(a): b for a, b in st.atoms.items() if a not in r.entry and contains(a, lambda x: x is here)}
                    env = {noepoch(size(here)): M}
                    for a in a0:
                        for x in subterms(a):
                            if last(x) == "windowMaxSize":
                                env[x] = M
                    if not holds(a0, env)[0]:
                        continue
                ran += 1
                if d is here or here.op == "out" and contains(d, lambda x: x.op == "out" and x.a[0] == "simplexBase::insertIterative"):
                    continue
                stale = d.op in ("lv", "lo", "init") or d.op == "fld" or any(x.op in ("lv", "lo") and x.a[1] is wd for x in subterms(d))
                say("reported", "bad" if stale else "und", "the pipeline run %s sees %s, not the current window" % ("during the stream" if ctx == "in" else "at its end", "an earlier window" if stale else show(d)[:80]))
    if sliding:
        b = [(kd, t) for (ru, kd), t in bad.items() if ru == "reported"]
        if b:
            (ck.bad if any(kd == "bad" for kd, t in b) else ck.und)("reported", inst, sorted(b)[0][1], W)
        else:
            (ck.ok if ran else ck.und)("reported", inst, "every run of the inner pipeline sees the window of that moment" if ran else "no run of the inner pipeline", W)
    for rule in ("filled", "replaced"):
        b = [(kd, t) for (ru, kd), t in bad.items() if ru == rule]
        if any(kd == "bad" for kd, t in b):
            ck.bad(rule, inst, next(t for kd, t in b if kd == "bad"), W)
        elif b or not any(x[0] == (rule == "replaced") for x in seen):
            ck.und(rule, inst, b[0][1] if b else "situation not met", W)
        else:
            ck.ok(rule, inst, "the first points fill the window in order and start the complex once" if rule == "filled" else "an accepted point is appended once, a rejected one changes nothing", W)


def step(say, rule, sit, p, evs, want, full_):
    """keys and labels follow the window"""
    keys = [e for e in evs if e.k == "push" and last(e.d["place"]) == "windowKeys"]
    labs = [e for e in evs if e.k == "push" and last(e.d["place"]) == "partitionLabels"]
    for nm, es in (("key", keys), ("label", labs)):
        if len(es) != want:
            return say(rule, "bad", "%s: a %s is appended %d times, a point %d times" % (sit, nm, len(es), want))
    kf = None
    for e in evs:
        if e.k in ("write", "lwrite") and last(e.d["place"]) == "key":
            kf = e.d["val"]
    if not want:
        if kf is not None and not (last(kf) == "key" and kf.op in ("lv", "init")):
            say(rule, "bad", "%s: the next key changes" % sit)
        return
    v = keys[0].d["val"]
    if kf is None:
        return say(rule, "bad", "%s: the next point gets the same key" % sit)
    d = diff(kf, v)
    if d != 1:
        return say(rule, "bad" if d is not None else "und", "%s: the key appended is %s, the next one becomes %s" % (sit, show(v)[:60], show(kf)[:60]))
    if last(labs[0].d["val"]) != "targetPartition":
        x = labs[0].d["val"]
        return say(rule, "bad" if cval(x) is not None or last(x) else "und", "%s: the label appended is %s" % (sit, show(x)[-60:]))
    if full_:
        mx = [e for e in evs if e.k == "write" and e.d["place"].op in ("L.elem", "L.idx", "L.at") and last(e.d["place"].a[0]) == "maxKeys"]
        if not mx:
            return say(rule, "bad", "%s: the newest key of its partition is not recorded" % sit)
        d = diff(mx[-1].d["val"], v)
        if d != 0 or last(mx[-1].d["place"].a[1]) != "targetPartition":
            return say(rule, "bad" if d is not None and d != 0 else "und", "%s: the newest key of the partition becomes %s instead of %s" % (sit, show(mx[-1].d["val"])[-60:], show(v)[-60:]))


# ---- the decision about a point

def conts(s, win):
    """erase events by container"""
    out = {}
    for e in flat(s):
        if e.k == "erase":
            nm = "window" if e.d["place"] is win else last(e.d["place"])
            if nm in SIDE + ("window", "distsFromCurrVec"):
                out.setdefault(nm, []).append(e)
        elif e.k in ("push", "write", "lwrite") and (e.d["place"] is win or last(e.d["place"]) in SIDE) and e.d.get("how") not in ("erase",):
            out.setdefault("changed", []).append(e)
    return out


def evaluator(prog, ck, fn):
    W, inst = w(fn), fn["short"]
    sts = states(prog, ck, fn, "one leaves", OPQ | {"updateStats"})
    if sts is None:
        return
    vec, win = par(fn, 0), None
    for e in (e for s in sts for e in flat(s)):
        if e.k == "call" and e.d["name"] == "utils::nearestNeighbors":
            win = e.d["places"][1]
    if win is None:
        ck.und("one leaves", inst, "distances to the window not recognised", W)
        return
    bad = {}

    def say(rule, kind, text):
        bad.setdefault((rule, kind), text)

    seen = {}
    for s in sts:
        if not isinstance(s.ret, T):
            say("one leaves", "und", "no verdict")
            continue
        acc = bool(cval(s.ret))
        vp = vec.a[0] if vec.op == "init" else vec
        if any(e.k in ("write", "lwrite", "push", "erase") and isinstance(e.d["place"], T) and within(e.d["place"], vp) for e in flat(s)):
            say("one leaves", "bad", "the evaluator changes the point it judges")
            continue
        cs = conts(s, win)
        if cval(s.ret) is None:
            acc = bool(cs)
        if cs.get("changed"):
            if any(isinstance(e.d.get("val"), T) and e.d["val"].op == "popb" for e in cs["changed"]):
                say("which leaves", "bad", "the newest point of the window leaves")
            say("one leaves", "und", "the window is changed by %s" % show(cs["changed"][0].d.get("val") or cs["changed"][0].d["place"])[:60])
            continue
        ns = {c: len(cs.get(c, ())) for c in SIDE + ("window",)}
        if not acc and any(ns.values()):
            say("one leaves", "bad", "a rejected point still removes %s" % ", ".join("%d of %s" % (v, k) for k, v in ns.items() if v))
            continue
        if acc and set(ns.values()) != {1}:
            say("one leaves", "bad", "an accepted point removes %s" % ", ".join("%d of %s" % (v, k) for k, v in sorted(ns.items())))
            continue
        idx = None
        if acc:
            ps = {c: noepoch(cs[c][0].d["pos"]) for c in ns}
            if len(set(ps.values())) != 1:
                a, b = [x for x in ps.items()][:2] if ps["windowKeys"] is not ps["partitionLabels"] else [("window", ps["window"]), ("windowKeys", ps["windowKeys"])]
                say("one leaves", "bad" if any(cval(x) is not None for x in (a[1], b[1])) or diff(a[1], b[1]) else "und", "%s loses number %s, %s loses number %s" % (a[0], show(a[1])[:80], b[0], show(b[1])[:80]))
                continue
            idx = cs["window"][0].d["pos"]
        decide(prog, say, seen, s, acc, idx, win, vec)
    texts = {"one leaves": "a rejected point removes nothing, an accepted one the same position of points, keys and labels",
             "which leaves": "the oldest of the smallest outdated partition, else the oldest when a partition is opened, else the oldest of another partition",
             "partition": "the nearest neighbour's partition or a new one, by the distances"}
    for rule in texts:
        b = [(kd, t) for (ru, kd), t in bad.items() if ru == rule]
        if any(kd == "bad" for kd, t in b):
            ck.bad(rule, inst, next(t for kd, t in b if kd == "bad"), W)
        elif b or not seen.get("out") or not seen.get("new") or not seen.get("old") or not seen.get("pure") or not seen.get("reject"):
            ck.und(rule, inst, b[0][1] if b else "situations not met", W)
        else:
            ck.ok(rule, inst, texts[rule], W)


L0, LN, LM, LO, LF, LS = 3, 5, 7, 4, 6, 1      # labels of the oldest point, of the nearest one, the largest one, of the outdated partition, of the farthest point, the smallest one


def decide(prog, say, seen, s, acc, idx, win, vec):
    atoms = {a: b for a, b in s.atoms.items() if not (a.op == "<" and a.a[1].op == "size" and any(x.op == "lo" for x in subterms(a.a[0])))}
    out = None
    for r, ctx in recs([s]):
        if any(last(x) == "maxKeys" for alt in r.hdr for a in alt for x in subterms(a)):
            out = r
    terms = {}
    everything = [x for a in atoms for x in subterms(a)] + ([x for x in subterms(idx)] if idx is not None else [])
    tgt = None
    for e in flat(s):
        if e.k in ("write", "lwrite") and last(e.d["place"]) == "targetPartition":
            tgt = e.d["val"]
    everything += list(subterms(tgt)) if tgt is not None else []
    lab = outl = None
    for x in everything:
        if x.op == "at" and last(x.a[0]) == "partitionLabels":
            i = x.a[1]
            terms[x] = ("l0" if cval(i) == 0 else "ln" if i.op == "f:min_element" and isnn(i.a[0]) else "lf" if i.op == "f:max_element" and isnn(i.a[0]) else "lm" if i.op == "f:max_element" and last(i.a[0]) == "partitionLabels" else "ls" if i.op == "f:min_element" and last(i.a[0]) == "partitionLabels" else "l?")
        elif x.op == "at" and x.a[1].op == "f:min_element" and isnn(x.a[0]):
            terms[x] = "nn"
        elif x.op in ("at", "mget", "mat") and last(x.a[0]) == "avgNNDistPartitions":
            terms[x] = "avg"
        elif x.op in ("at", "mget", "mat") and last(x.a[0]) == "numPointsPartn":
            terms[x] = "num"
        elif x.op == "size" and last(x.a[0]) == "avgNNDistPartitions":
            terms[x] = "parts"
        elif out is not None and x.op == "lo" and x.a[0] == out.lid and x.a[1] in out.H:
            v = [p.store.get(x.a[1]) for k, p in out.paths]
            if any(y is not None and isfirst(y) for y in v):
                terms[x] = "outl"
                outl = x
            elif x.a[1].op == "L.var":
                terms[x] = "outc"
    if out is not None and not seen.get(("loop", out.lid)):
        seen[("loop", out.lid)] = True
        outdated(say, out)
    G = grid(parts=(1, 2), nn=(0, 0.5, 1.5, 3, 5, 6), avg=(-1, 0, 0.1, 0.3, 1, 2), outl=(-1, LO), num=(1, 2))
    for g in G:
        env = {}
        for x, k in terms.items():
            if k == "l0":
                env[x] = L0
            elif k == "ln":
                env[x] = LN
            elif k == "lm":
                env[x] = LM
            elif k in ("lf", "ls"):
                env[x] = {"lf": LF, "ls": LS}[k]
            elif k == "outc":
                env[x] = -1 if g["outl"] == -1 else 2
            elif k in g:
                env[x] = g[k]
        if g["parts"] == 1 and g["avg"] == -1:
            continue
        okk, rest = holds(atoms, env)
        if not okk:
            continue
        if rest:
            for ru in ("one leaves", "which leaves", "partition"):
                say(ru, "und", "depends on %s" % txt(rest)[:150])
            return
        nn, avg = g["nn"], g["avg"]
        if g["parts"] == 1:
            want = not (nn == 0 or avg <= 0.25 and nn <= 1) and (avg == 0 or nn / avg > 4)
            t = L0 + 1
            ev = "pure"
        else:
            want = True
            near = nn == 0 or nn <= 5 and (avg == -1 or avg <= 0.25 and nn <= 1 or avg > 0 and nn / avg <= 4)
            t = LN if near else LM + 1
            ev = "out" if g["outl"] != -1 else "old" if near else "new"
        sit = "nearest neighbour at %s, average %s in %s" % (nn, avg, "the only partition" if g["parts"] == 1 else "its partition, one of several")
        v = value(s.ret, env)
        if v is None:
            say("partition", "und", "the verdict is %s" % show(s.ret)[:80])
            return
        if acc and not v:
            say("one leaves", "bad", "a point with the %s is rejected, yet one leaves" % sit)
            return
        acc = bool(v)
        if acc != want:
            say("partition", "bad", "a point with the %s is %s" % (sit, "accepted" if acc else "rejected"))
            return
        if not acc:
            seen["reject"] = True
            continue
        seen[ev] = True
        x = value(tgt, env) if tgt is not None else None
        if tgt is None:
            say("partition", "bad", "a point with the %s keeps the partition of the previous one" % sit)
            return
        if x is None:
            say("partition", "und", "partition %s" % show(tgt)[:100])
            return
        if x != t:
            names = {LF: "that of the farthest point", LS: "the smallest label", LS + 1: "the smallest label + 1", L0: "that of the oldest point", LN: "that of the nearest point", LM: "the one with the largest label", LM + 1: "a new one", L0 + 1: "the oldest point's label + 1"}
            say("partition", "bad", "a point with the %s gets the partition %s instead of %s" % (sit, names.get(x, x), names[t]))
            return
        which(say, ev, idx, env, outl, t)


def isnn(c):
    return c.op == "call" and c.a[0] == "utils::nearestNeighbors" or last(c) == "distsFromCurrVec"


def isfirst(v):
    return v.op == "fld" and v.a[1] == "first" or v.op == "first"


def which(say, ev, idx, env, outl, t):
    R = "which leaves"
    zero = cval(idx) == 0
    if ev in ("pure", "new"):
        if not zero:
            say(R, "bad" if idx.op in ("find", "findif") or cval(idx) is not None else "und", "for a point of a new partition number %s of the window leaves, not the oldest" % show(idx)[:100])
        return
    src = {"out": "the smallest outdated partition", "old": "another partition than the point's"}[ev]
    if zero or idx.op in ("f:min_element", "f:max_element"):
        return say(R, "bad", "the point that leaves is %s, not the oldest of %s" % ("the oldest of the window" if zero else show(idx)[:60], src))
    if idx.op == "find" and last(idx.a[0]) == "partitionLabels":
        if ev == "out" and noepoch(idx.a[1]) is noepoch(outl):
            return
        v = value(idx.a[1], env)
        return say(R, "bad" if v is not None else "und", "the oldest point with the label %s leaves instead of the oldest of %s" % (show(idx.a[1])[:80], src))
    if idx.op == "findif" and last(idx.a[0]) == "partitionLabels":
        lam = idx.a[1]
        if lam.op == "lam":
            b, body = lam.a[0], lam.a[1]
            got = [x for x in (L0, LO, LN, LM, t, 99) if value(body, dict(env, **{}) | {b: x})]
            unk = any(value(body, dict(env) | {b: x}) is None for x in (L0, LO, t))
            if not unk:
                want = [x for x in (L0, LO, LN, LM, t, 99) if (x == LO if ev == "out" else x != t)]
                if got != want:
                    return say(R, "bad", "the oldest point with a label among %s leaves, the new one gets %s: not the oldest of %s" % (sorted(set(got)), t, src))
                return
    say(R, "und", "number %s leaves" % show(idx)[:100])


def outdated(say, r):
    """the loop that looks for the smallest outdated partition"""
    R = "which leaves"
    hl = hc = None
    for h in r.H:
        for k, p in r.paths:
            v = p.store.get(h)
            if v is not None and isfirst(v):
                hl = h
            elif v is not None and v is not lv(r, h) and h.op == "L.var" and any(last(x) == "numPointsPartn" for x in subterms(v)):
                hc = h
    if hl is None or hc is None:
        return say(R, "und" if hl is not None else "und", "search for an outdated partition not recognised")
    if early(r):
        return say(R, "bad", "the search for outdated partitions may stop at the first one")
    if cval(r.init.get(hl)) != -1 or cval(r.init.get(hc)) != -1:
        return say(R, "und", "the search starts with %s and %s" % (show(r.init.get(hl)), show(r.init.get(hc))))
    for k, p in r.paths:
        at0 = {a: b for a, b in p.atoms.items() if a not in r.entry and not any(a in alt for alt in r.hdr)}
        for g in grid(cnt=(-1, 3), num=(1, 3, 5), age=(0, 24, 25, 26, 60)):
            env = {lv(r, hc): g["cnt"], lv(r, hl): -1 if g["cnt"] == -1 else 9}
            for a in list(at0) + [x for x in (p.store.get(hc),) if x is not None]:
                for x in subterms(a):
                    if x.op in ("at", "mget", "mat") and last(x.a[0]) == "numPointsPartn":
                        env[x] = g["num"]
                    elif x.op in ("init", "lv") and last(x) == "key":
                        env[x] = 100
                    elif x.op in ("fld", "second") and (x.op == "second" or x.a[1] == "second"):
                        env[x] = 100 - g["age"]
            okk, rest = holds(at0, env)
            if not okk:
                continue
            if rest:
                return say(R, "und", "search for outdated partitions depends on %s" % txt(rest)[:120])
            upd = p.store.get(hl) is not None and p.store.get(hl) is not lv(r, hl)
            updc = p.store.get(hc) is not None and p.store.get(hc) is not lv(r, hc)
            want = g["age"] > 25 and (g["cnt"] == -1 or g["num"] < g["cnt"])
            if g["num"] == g["cnt"] and g["age"] > 25:
                if upd != updc:
                    return say(R, "bad", "label and size of the outdated partition do not change together")
                continue
            if upd != want or updc != want:
                return say(R, "bad", "a partition of %d points whose last point came %d insertions ago, with %s so far, is %s" % (g["num"], g["age"], "none" if g["cnt"] == -1 else "one of 3", "taken" if upd else "passed over" if not updc else "remembered by its size only"))
            if want:
                x = value(p.store.get(hc), env)
                if x != g["num"]:
                    return say(R, "bad" if x is not None else "und", "the size remembered is %s" % show(p.store.get(hc))[:80])


def untouched(prog, ck, fn):
    W, inst, R = w(fn), "naiveWindow", "one leaves"
    sts = states(prog, ck, fn, R, OPQ)
    if sts is None:
        return
    for s in sts:
        for e in flat(s):
            pl = e.d.get("place")
            if e.k in ("erase", "push", "write", "lwrite") and isinstance(pl, T) and any(pl is x for x in parplaces(fn)) and e.k in ("erase", "push"):
                ck.bad(R, inst, "the evaluator changes the window, which the loop replaces the oldest point of", W)
                return
    ck.ok(R, inst, "the evaluator leaves the window to the loop", W)


def parplaces(fn):
    return [mk("L.var", p["id"], p["name"]) if False else par(fn, i).a[0] if par(fn, i).op == "init" else par(fn, i) for i, p in enumerate(fn["params"])]


def verdicts(prog, ck, fn):
    W, inst, R = w(fn), fn["cls"] or "simplexTree", "verdict"
    sts = states(prog, ck, fn, R, OPQ)
    if sts is None:
        return
    win = par(fn, 1)
    some = False
    for s in sts:
        if s.atoms.get(nz(size(win))) is False:
            continue
        calls = [(a, b) for a, b in s.atoms.items() if a.op in ("call", "apply", "nz") and contains(a, lambda x: last(x) == "streamEval")]
        v = s.ret
        if cval(v) is None:
            if v.op in ("call", "apply") and contains(v, lambda x: last(x) == "streamEval"):
                some = True
                continue
            ck.und(R, inst, "verdict %s" % show(v)[:80], W)
            return
        if len(calls) != 1:
            ck.und(R, inst, "%d evaluations" % len(calls), W)
            return
        some = True
        if bool(cval(v)) != calls[0][1]:
            ck.bad(R, inst, "the evaluator says %s, the caller is told %s" % (calls[0][1], bool(cval(v))), W)
            return
    (ck.ok if some else ck.und)(R, inst, "the evaluator's verdict is passed on", W)


# ---- nearest neighbours of the initial window

def initial(prog, ck, fn):
    W, inst, R = w(fn), fn["short"], "neighbours"
    sts = states(prog, ck, fn, R, OPQ | {"insert", "setDistanceMatrix"})
    if sts is None:
        return
    data = None
    for r, ctx in recs(sts):
        for alt in r.hdr:
            for a in alt:
                for x in subterms(a):
                    if x.op == "size" and last(x.a[0]) == "originalData":
                        data = x.a[0]
    if data is None:
        ck.und(R, inst, "loop over the points not recognised", W)
        return
    n = size(data)
    for s in sts:
        done = False
        for r, ctx in recs([s]):
            if ctx:
                continue
            pushes = [[e for e in p.ev if e.k == "push" and last_par(e.d["place"], fn)] for k, p in r.paths]
            if not any(pushes):
                continue
            done = True
            iv, why = None, None
            for x in r.ivs:
                okv, y = verdict(r, x, INT(0), n)
                if okv:
                    iv = x
                elif okv is False:
                    why = y
            if iv is None or early(r):
                ck.bad(R, inst, "not every point gets a nearest neighbour: %s" % (why or "the loop may stop early"), W) if why or iv is not None else ck.und(R, inst, "loop over the points not recognised", W)
                return
            for (k, p), ps in zip(r.paths, pushes):
                skip = p.atoms.get(nz(size(at(data, iv))))
                if skip is False:
                    continue
                by = {}
                for e in ps:
                    by.setdefault(last_par(e.d["place"], fn), []).append(e)
                if len(by.get(1, ())) != 1 or len(by.get(2, ())) != 1:
                    ck.bad(R, inst, "a point gets %d nearest neighbours and %d distances" % (len(by.get(1, ())), len(by.get(2, ()))), W)
                    return
                vi, vd = by[1][0].d["val"], by[2][0].d["val"]
                if vd.op != "at" or vd.a[1].op not in ("f:min_element", "f:max_element") or vd.a[1].a[0] is not vd.a[0]:
                    ck.und(R, inst, "distance %s" % show(vd)[:100], W)
                    return
                m, D = vd.a[1], vd.a[0]
                if m.op == "f:max_element":
                    ck.bad(R, inst, "the farthest point is recorded", W)
                    return
                if D.op != "lo":
                    ck.und(R, inst, "distances %s" % show(D)[:80], W)
                    return
                q = next((q for q, c2 in recs([p]) if q.lid == D.a[0]), None)
                if q is None or not dists(ck, R, inst, W, q, D.a[1], iv, data, n):
                    if q is None:
                        ck.und(R, inst, "distances not recognised", W)
                    return
                for mi in range(0, 4):
                    env = {iv: 2, m: mi}
                    okk, rest = holds({a: b for a, b in p.atoms.items() if contains(a, lambda x: x is m)}, env)
                    if not okk:
                        continue
                    x = value(vi, env)
                    if x is None or rest:
                        ck.und(R, inst, "neighbour %s" % show(vi)[:80], W)
                        return
                    if x != (mi if mi < 2 else mi + 1):
                        ck.bad(R, inst, "for point 2 the nearest of the others is number %d, recorded is %s" % (mi if mi < 2 else mi + 1, x), W)
                        return
        if not done:
            ck.und(R, inst, "loop not recognised", W)
            return
    ck.ok(R, inst, "the index and the distance of the nearest other point, for every point", W)


def last_par(pl, fn):
    for i in (1, 2):
        q = par(fn, i)
        if pl is q or q.op == "init" and pl is q.a[0]:
            return i
    return None


def dists(ck, R, inst, W, q, h, i, data, n):
    """q collects in h the distance of point i to every other point, in order"""
    jv, why = None, None
    for x in q.ivs:
        okv, y = verdict(q, x, INT(0), n)
        if okv:
            jv = x
        elif okv is False:
            why = y
    if jv is None or early(q):
        (ck.bad if why or jv is not None else ck.und)(R, inst, "not every other point is compared: %s" % (why or "range not recognised"), W)
        return False
    if q.init.get(h) is None or q.init[h].op != "empty":
        (ck.bad if q.init.get(h) is not None and q.init[h].op in ("lv", "lo") else ck.und)(R, inst, "the distances of the previous point are kept", W)
        return False
    for k, p in q.paths:
        v = p.store.get(h, lv(q, h))
        for a, b in ((1, 2), (2, 2), (3, 2)):
            env = {jv: a, i: b}
            okk, rest = holds({x: y for x, y in p.atoms.items() if x not in q.entry and not any(x in alt for alt in q.hdr) and not contains(x, lambda z: isdist(z))}, env)
            if not okk:
                continue
            if rest:
                ck.und(R, inst, "depends on %s" % txt(rest)[:100], W)
                return False
            if a == b:
                if v is not lv(q, h):
                    ck.bad(R, inst, "a point counts as its own neighbour", W)
                    return False
                continue
            if v is lv(q, h):
                ck.bad(R, inst, "a point %s the one looked at is left out" % ("before" if a < b else "after"), W)
                return False
            if v.op != "push" or v.a[0] is not lv(q, h):
                ck.und(R, inst, "distances become %s" % show(v)[:80], W)
                return False
            x = v.a[1]
            dd = isdist(x)
            if dd:
                if {y.uid for y in dd} != {at(data, i).uid, at(data, jv).uid}:
                    ck.und(R, inst, "distance %s" % show(x)[:100], W)
                    return False
            elif x.op == "at" and x.a[0].op == "at":
                row, col = x.a[0].a[1], x.a[1]
                if {row.uid, col.uid} != {i.uid, jv.uid}:
                    ck.bad(R, inst, "the distance of points %s and %s is taken from %s" % (show(i), show(jv), show(x)[:60]), W)
                    return False
                if (row is jv) != (a < b):
                    ck.bad(R, inst, "the lower half of the distance matrix, which is not filled yet, is read", W)
                    return False
            else:
                ck.und(R, inst, "distance %s" % show(x)[:100], W)
                return False
    return True
