"""Case analysis of path conditions: a term is evaluated under an assignment of numbers to its symbols (one representative of every ordering of them)."""
import math
from itertools import product
from .terms import *


def value(t, env):
    """value of term t under env {term: number}; None when it depends on something else"""
    if t in env:
        return env[t]
    o = t.op
    if o in ("int", "real", "bool"):
        return t.a[0]
    if o == "chr":
        return None
    if o in ("+", "-", "*", "<", "==", "max", "min"):
        v = [value(x, env) for x in t.a]
        if any(x is None for x in v):
            return None
        if o == "+":
            return sum(v)
        if o == "-":
            return -v[0] if len(v) == 1 else v[0] - v[1]
        if o == "*":
            r = 1
            for x in v:
                r *= x
            return r
        if o == "<":
            return v[0] < v[1]
        if o == "==":
            return v[0] == v[1]
        return max(v) if o == "max" else min(v)
    if o in ("neg", "abs", "!", "not", "nz", "b2i", "sqrt"):
        v = value(t.a[0], env)
        if v is None:
            return None
        if o == "sqrt":
            return v ** 0.5 if v >= 0 else None
        return {"neg": lambda: -v, "abs": lambda: abs(v), "!": lambda: not v, "not": lambda: not v, "nz": lambda: v != 0, "b2i": lambda: int(bool(v))}[o]()
    if o in ("/", "%"):
        v = [value(x, env) for x in t.a]
        if any(x is None for x in v) or not v[1]:
            return None
        if o == "/" and any(isinstance(x, float) for x in v):
            return v[0] / v[1]
        if not all(isinstance(x, int) and x >= 0 for x in v):
            return None
        return v[0] // v[1] if o == "/" else v[0] % v[1]
    if o == "pow":
        v = [value(x, env) for x in t.a]
        try:
            return None if None in v else float(v[0]) ** v[1]
        except (ValueError, OverflowError, ZeroDivisionError):
            return None
    if o in ("exp", "log", "log2", "floor", "ceil", "trunc", "round"):
        v = value(t.a[0], env)
        try:
            return None if v is None else float(getattr(math, o)(v)) if o != "round" else float(math.floor(v + 0.5))
        except (ValueError, OverflowError):
            return None
    if o == "list" and len(t.a) == 1:
        return value(t.a[0], env)
    if o == "ite":
        c = value(t.a[0], env)
        return None if c is None else value(t.a[1] if c else t.a[2], env)
    if o == "cases":
        for c in t.a:
            g = value(c.a[0], env)
            if g is None:
                return None
            if g:
                return value(c.a[1], env)
        return None
    if o in ("&&", "||", "and", "or"):
        v = [value(x, env) for x in t.a]
        if o in ("&&", "and"):
            return False if any(x is not None and not x for x in v) else None if None in v else True
        return True if any(x for x in v) else None if None in v else False
    return None


def holds(atoms, env):
    """(consistent, atoms that could not be evaluated)"""
    rest = []
    for a, b in atoms.items():
        v = value(a, env)
        if v is None:
            rest.append((a, b))
        elif bool(v) != b:
            return False, rest
    return True, rest


def grid(**kw):
    """assignments: names to lists of values"""
    ks = list(kw)
    for vs in product(*(kw[k] for k in ks)):
        yield dict(zip(ks, vs))
