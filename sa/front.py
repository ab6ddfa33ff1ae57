"""Front end: turns /repo's current sources into one program description.

Every run hashes the sources and re-extracts whatever changed (parsing is done
by the clang-based extractor tool/lhfx.cpp, one process per translation unit)."""
import glob, hashlib, json, os, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("LHF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
DIRS = ["Utils", "Complex", "Pipes", "Preprocessing", "LHFmain"]
MPI = "/usr/lib/x86_64-linux-gnu/openmpi/include"


class AnalysisError(Exception):
    """The analysis itself cannot run / an anchor vanished: exit 2, neither pass nor alarm."""


def sources():
    cpp, hpp = [], []
    for d in DIRS:
        for root, _, fs in os.walk(os.path.join(REPO, d)):
            for f in fs:
                p = os.path.join(root, f)
                if f.endswith((".cpp", ".cc", ".cxx")):
                    cpp.append(p)
                elif f.endswith((".hpp", ".h", ".hh")):
                    hpp.append(p)
    return sorted(cpp), sorted(hpp)


def flags():
    fl = ["-std=gnu++20", "-w", "-DOMPI_SKIP_MPICXX", "-resource-dir=/usr/lib/llvm-18/lib/clang/18"]
    for d in DIRS:
        fl.append("-I" + os.path.join(REPO, d))
    fl += ["-I" + MPI, "-I" + MPI + "/openmpi"]
    return fl


def ensure_tool():
    r = subprocess.run(["bash", os.path.join(VERIF, "tool", "build.sh")], capture_output=True, text=True)
    if r.returncode:
        raise AnalysisError("extractor build failed:\n" + r.stderr[-3000:])
    return os.path.join(BUILD, "lhfx")


def load():
    tool = ensure_tool()
    cpp, hpp = sources()
    if not cpp:
        raise AnalysisError("no sources found under " + REPO)
    h = hashlib.sha256()
    for p in hpp + [os.path.join(VERIF, "tool", "lhfx.cpp"), os.path.join(HERE, "front.py")]:
        h.update(p.encode() + b"\0" + open(p, "rb").read() + b"\0")
    base = h.hexdigest()
    cache = os.path.join(BUILD, "cache")
    os.makedirs(cache, exist_ok=True)

    def one(p):
        k = hashlib.sha256((base + p).encode() + open(p, "rb").read()).hexdigest()[:32]
        out = os.path.join(cache, k + ".json")
        if not os.path.exists(out):
            tmp = tempfile.mktemp(dir=cache, suffix=".tmp")
            r = subprocess.run([tool, "--root", REPO + "/", "--out", tmp, p, "--"] + flags(), capture_output=True, text=True)
            if r.returncode or not os.path.exists(tmp):
                raise AnalysisError("cannot parse " + p + ":\n" + r.stderr[-3000:])
            os.replace(tmp, out)
        try:
            os.utime(out)
        except OSError:
            pass
        return p, out

    with ThreadPoolExecutor(max_workers=8) as ex:
        outs = list(ex.map(one, cpp))
    functions, classes, globs = {}, {}, {}
    for p, out in outs:
        d = json.load(open(out))
        for src, dst in ((d["functions"], functions), (d["classes"], classes), (d["globals"], globs)):
            for k, v in src.items():
                dst.setdefault(k, v)
    # bound the cache (never what a check that runs at the same time may still read)
    ents = []
    for e in glob.glob(os.path.join(cache, "*.json")):
        try:
            ents.append((os.path.getmtime(e), e))
        except OSError:
            pass
    ents.sort()
    for t, e in ents[:-400]:
        if t < time.time() - 600:
            try:
                os.unlink(e)
            except OSError:
                pass
    return Program(functions, classes, globs, [os.path.relpath(p, REPO) for p in cpp])


class Program:
    def __init__(self, functions, classes, globs, units):
        self.functions, self.classes, self.globals, self.units = functions, classes, globs, units
        for k, c in classes.items():
            c.setdefault("n", k)
        self.by_name = {}
        for k, f in functions.items():
            f.setdefault("cls", "")
            self.by_name.setdefault(f["name"], []).append(f)
        self.subs = {}
        for k, c in classes.items():
            for b in c["bases"]:
                self.subs.setdefault(b, []).append(k)

    def fns(self, name):
        """all overloads with a body of a qualified name"""
        return self.by_name.get(name, [])

    def fn(self, name, nparams=None, pred=None):
        c = [f for f in self.fns(name) if nparams is None or len(f["params"]) == nparams]
        if pred:
            c = [f for f in c if pred(f)]
        if len(c) != 1:
            raise AnalysisError("anchor %s%s: %d definitions found" % (name, "" if nparams is None else "/%d" % nparams, len(c)))
        return c[0]

    def ancestors(self, cls):
        out, todo = [], [cls]
        while todo:
            c = todo.pop(0)
            if c in out:
                continue
            out.append(c)
            todo += self.classes.get(c, {}).get("bases", [])
        return out

    def derived(self, cls):
        out, todo = [], [cls]
        while todo:
            c = todo.pop(0)
            if c in out:
                continue
            out.append(c)
            todo += self.subs.get(c, [])
        return out

    def resolve_virtual(self, cls, fref):
        """most-derived definition of method fref for dynamic class cls (None if unknown)"""
        want = fref["short"]
        sig = fref["key"][fref["key"].index("("):]
        for c in self.ancestors(cls):
            cand = self.functions.get(c + "::" + want + sig)
            if cand:
                return cand
            if any(m["n"] == want and m["key"].endswith(want + sig) for m in self.classes.get(c, {}).get("methods", [])):
                return None
        return None
