"""Cross-check of the engine's reading of Python and NumPy against CPython and NumPy themselves.

Each snippet is read symbolically by the engine (arrays of symbolic extent and entries); the results are then evaluated on concrete
arrays and compared with what CPython computes from the same text.   python3-vt cross.py [names] runs it alone; main.py runs it with
every check and refuses all obligations if anything differs.  A snippet the engine does not read is reported, not counted.
"""
import cmath
import itertools
import math
import os
import sys

import numpy as np

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import api
import interp
from values import *  # noqa

TEXT = open(os.path.join(HERE, "cross_snippets.py")).read()
ATOL = 1e-7


class NotEvaluable(Exception):
    pass


class Eval:
    """Concrete value of terms: extents, named arrays, index variables."""

    def __init__(self, ip, sizes, data, group=None):
        self.ip, self.sizes, self.data, self.group = ip, sizes, data, group

    def size(self, d):
        if isinstance(d, int):
            return d
        if isinstance(d, BDim):
            return d.c * self.size(d.base)
        if isinstance(d, PDim):
            return math.prod(self.size(p) for p in d.parts)
        if d in self.sizes:
            return self.sizes[d]
        if getattr(d, "parent", None) is not None:
            return len(self.domain(d))
        raise NotEvaluable(f"extent {d}")

    def domain(self, d):
        """Values of an index over d: those of the parent for the part of an extent that meets a condition."""
        if isinstance(d, Dim) and d not in self.sizes and getattr(d, "parent", None) is not None:
            return [k for k in self.domain(d.parent) if self.cond(self.ip.as_cond(d.cond(k)), {})]
        return range(self.size(d))

    def index(self, i, env):
        if isinstance(i, int):
            return i
        if i[0] == "v":
            if i in env:
                return env[i]
        elif i[0] == "b":
            raise NotEvaluable("block index")
        elif i[0] == "w" and self.group is not None:
            r = 0
            for l, s in i[2]:
                x = self.index(l, env)
                r = self.group[r, x if s == 1 else int(np.argwhere(self.group[x] == 0)[0][0])]
            return int(r)
        elif i[0] == "f" and i[1] in self.ip.choice_defs:
            fv, y, e = self.ip.choice_defs[i[1]]
            env = dict(zip(fv, (self.index(x, env) for x in i[2])))
            for k in self.domain(y[2]):
                if self.cond(e, {**env, y: k}):
                    return k
            raise NotEvaluable("no such index")
        elif i[0] == "f" and i[1] == "reversed":
            return self.size(i[3]) - 1 - self.index(i[2][0], env)
        elif i[0] == "f" and i[1] == "at":
            return self.size(i[3]) + int(i[1][2:])
        elif i[0] == "f" and i[1][:2] == "at" and i[1][2:].lstrip("-").isdigit():
            k = int(i[1][2:])
            return k if k >= 0 else self.size(i[3]) + k
        raise NotEvaluable(f"index {i}")

    def pindex(self, i, env):
        """Composite indices: pairs in row-major order, blocks one after the other."""
        if isinstance(i, tuple) and i[0] == "p":
            r = 0
            for q in i[1]:
                r = r * self.size(idx_dim(q)) + self.index(q, env)
            return r
        if isinstance(i, tuple) and i[0] == "b":
            return i[1] * self.size(idx_dim(i[2])) + self.index(i[2], env)
        if isinstance(i, tuple) and i[0] in ("v", "f") and isinstance(idx_dim(i), Dim) and idx_dim(i) not in self.sizes:
            return list(self.domain(idx_dim(i))).index(self.index(i, env))
        return self.index(i, env)

    def poly(self, p, env):
        tot = 0
        for (bd, fs), c in p.items():
            for vals in itertools.product(*[self.domain(v[2]) for v in bd]):
                e = {**env, **dict(zip(bd, vals))}
                t = complex(float(c.re), float(c.im))
                for f, q in fs:
                    x = self.factor(f, e)
                    if q < 0 and x == 0:
                        raise NotEvaluable("division by zero")
                    t = t * x ** q
                    if t == 0:
                        break
                tot += t
        return tot

    def factor(self, f, env):
        k = f[0]
        if k == "A":
            if f[1].startswith("#"):
                for d in [*self.sizes, *self.ip.__dict__.get("_filt", {}).values()]:
                    if "#" + d.name == f[1]:
                        return self.size(d)
                raise NotEvaluable(f"extent {f[1]}")
            if f[1] == "pi":
                return math.pi
            if f[1] not in self.data:
                raise NotEvaluable(f"atom {f[1]}")
            x = self.data[f[1]][tuple(self.index(i, env) for i in f[2])]
            return np.conj(x) if f[3] else x
        if k == "D":
            return 1 if self.index(f[1], env) == self.index(f[2], env) else 0
        if k == "I":
            return 1 if self.cond(f[1], env) else 0
        if k == "E":
            return cmath.exp(2j * math.pi * self.poly(f[1], env))
        if k == "F":
            a = [None if f_.d == fun("none").d else self.poly(f_, env) for f_ in f[2]]
            x = self.function(f[1], a)
            return np.conj(x) if f[3] else x
        raise NotEvaluable(f"factor {f}")

    def function(self, n, a):
        r = lambda x: x.real if isinstance(x, complex) else x
        if n == "id":
            return a[0]
        if n == "abs":
            return abs(a[0])
        if n == "re":
            return a[0].real
        if n == "im":
            return a[0].imag
        if n == "angle":
            return cmath.phase(a[0])
        if n == "clip":
            return float(np.clip(r(a[0]), None if a[1] is None else r(a[1]), None if a[2] is None else r(a[2])))
        if n == "mod":
            return float(np.mod(r(a[0]), r(a[1])))
        if n == "pow":
            return a[0] ** a[1]
        if n in ("exp", "sqrt") or n in ("cos", "sin", "tan"):
            return getattr(cmath, n)(a[0])
        if n in ("rint", "floor", "trunc", "arccos", "arctan", "arctan2", "hypot", "arcsin", "log"):
            return float(getattr(np, n)(*[r(x) for x in a]))
        raise NotEvaluable(f"function {n}")

    def cond(self, c, env):
        o, a = c.op, c.args
        if o == "true" or o == "false":
            return o == "true"
        if o == "and":
            return all(self.cond(x, env) for x in a)
        if o == "not":
            return not self.cond(a[0], env)
        if o == "eqi":
            return self.index(a[0], env) == self.index(a[1], env)
        if o in ("le", "lt", "eq"):
            x, y = self.poly(a[0], env), self.poly(a[1], env)
            return abs(x - y) < ATOL if o == "eq" else x.real <= y.real + ATOL if o == "le" else x.real < y.real - ATOL
        if o == "close":
            x, y, rt, at = (self.poly(aspoly(q), env) for q in a)
            return abs(x - y) <= at.real + rt.real * abs(y) + ATOL
        if o in ("all", "ex"):
            v = a[0]
            return (all if o == "all" else any)(self.cond(a[1], {**env, v: k}) for k in self.domain(v[2]))
        raise NotEvaluable(f"condition {c}")

    def value(self, ip, v):
        """Concrete Python/NumPy value of an engine value."""
        if isinstance(v, bool) or v is None or isinstance(v, str):
            return v
        if isinstance(v, Poly):
            return self.poly(v, {})
        if isinstance(v, Cond):
            return self.cond(v, {})
        if isinstance(v, Ix):
            return self.index(v.t, {})
        if isinstance(v, DimVal):
            return self.size(v.dim)
        if isinstance(v, (int, float, complex, Fr)):
            return complex(v) if isinstance(v, complex) else float(v)
        if isinstance(v, tuple):
            return tuple(self.value(ip, x) for x in v)
        if isinstance(v, LList):
            if v.cat:
                raise NotEvaluable("concatenated list")
            if v.sym is not None:
                d, w, t = v.sym
                return [self.value(ip, vsubst(t, {w: k})) if not isinstance(t, Arr) else self.array(ip, t, {w: k}) for k in self.domain(d)]
            return [self.value(ip, x) for x in v.items]
        if isinstance(v, SDict):
            return {k: self.value(ip, x) for k, x in v.conc.items()}
        if isinstance(v, Arr):
            return self.array(ip, v, {})
        raise NotEvaluable(f"value {v!r}")

    def array(self, ip, a, env):
        out = np.full([self.size(d) for d in a.shape], np.nan, dtype=complex)
        for idx, vs, x in api.elements(a.shape, lambda i: ip.get(a, i)):
            for vals in itertools.product(*[self.domain(v[2]) for v in vs]):
                e = {**env, **dict(zip(vs, vals))}
                y = x
                if isinstance(y, Ix):
                    y = self.index(y.t, e)
                elif isinstance(y, Cond):
                    y = self.cond(y, e)
                elif isinstance(y, DimVal):
                    y = self.size(y.dim)
                else:
                    y = self.poly(num(y), e)
                out[tuple(self.pindex(i, e) if not isinstance(i, int) else i for i in idx)] = y
        return out


def same(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (str, bool, type(None))) or isinstance(b, (str, bool, type(None))):
        return bool(a) == bool(b) if isinstance(a, (bool, np.bool_)) or isinstance(b, (bool, np.bool_)) else a == b
    x, y = np.asarray(a), np.asarray(b)
    return x.shape == y.shape and np.allclose(x.astype(complex), y.astype(complex), atol=1e-6)


def make(h, rng, spec, dims, sizes, data):
    """Symbolic and concrete argument for a specification 'name:kind:dims' ('A:complex:n,n,3', 't:scalar:', 'L:list:n|real:d')."""
    name, kind, ds = spec.split(":")
    shape = [int(x) if x.isdigit() else dims.setdefault(x, h.dim(x)) for x in ds.split(",") if x]
    for x, d in dims.items():
        sizes.setdefault(d, 2 + (len(sizes) % 2))
    conc = [s if isinstance(s, int) else sizes[s] for s in shape]

    def draw(sh):
        if kind == "int":
            return rng.integers(-2, 3, sh)
        if kind == "complex":
            return rng.normal(size=sh) + 1j * rng.normal(size=sh)
        if kind == "bool":
            return rng.integers(0, 2, sh)
        return rng.normal(size=sh)
    x = data[name] = draw(conc)
    if not shape:
        if kind == "int":
            h.ctx.integer.add(name)
        if kind != "complex":
            h.ctx.real.add(name)
        return api.atom(name), x.item() if hasattr(x, "item") else x
    if kind == "list":
        h.ctx.real.add(name)
        i = api.fresh(shape[0])
        t = mkarr(shape[1:], lambda idx: api.atom(name, i, *idx)) if len(shape) > 1 else api.atom(name, i)
        return LList(sym=(shape[0], i, t)), [y for y in x]
    return h.arr(name, shape, kind if kind in ("real", "int", "complex") else "real"), x


def run(names=None, seeds=(1, 2)):
    """[[snippet, outcome]], outcome True (agrees), False (differs) or the reason why it was not compared."""
    interp.SNIPPETS["cross"] = TEXT
    for old, new in (("complex_", complex), ("float_", float), ("bool_", np.bool_)):    # names of NumPy 1
        if not hasattr(np, old):
            setattr(np, old, new)
    scope = {}
    exec(compile(TEXT, "cross_snippets", "exec"), scope)
    out = []
    for name, specs in scope["CASES"].items():
        if names and name not in names:
            continue
        res = True
        for seed in seeds:
            rng = np.random.default_rng(seed)
            h = api.H("cross." + name, "cross")
            dims, sizes, data = {}, {}, {}
            args = [make(h, rng, s, dims, sizes, data) for s in specs.split()]
            ev = Eval(h.ip, sizes, data)
            try:
                paths = h.run([a for a, _ in args])
            except (Undecided, api.PyExc) as e:
                res = f"not read: {type(e).__name__} {e}"
                break
            try:
                want = ("end", scope[name](*[(x.copy() if hasattr(x, "copy") else x) for _, x in args]))
            except Exception as e:
                want = ("exc", type(e).__name__)
            try:
                live = [(f, o) for f, o in paths if all(ev.cond(h.ip.as_cond(c), {}) for c in f)]
                if len(live) != 1:
                    res = False if not live else f"{len(live)} paths"
                elif live[0][1][0] != want[0]:
                    res = False
                elif want[0] == "end":
                    got = h.with_facts(live[0][0], lambda: ev.value(h.ip, live[0][1][1]))
                    if not same(got, want[1]):
                        res = False
                        if names:
                            print("engine", got, "\nCPython", want[1])
            except (NotEvaluable, Undecided) as e:
                res = f"not compared: {e}"
            if res is not True:
                break
        out.append([name, res])
    return out


if __name__ == "__main__":
    import time
    t = time.time()
    r = run(sys.argv[1:])
    for n, x in r:
        if x is not True:
            print(n, x)
    print(sum(x is True for _, x in r), "agree of", len(r), f"{time.time() - t:.1f}s")
