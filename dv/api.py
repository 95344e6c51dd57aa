"""Contract harness: symbolic arguments, running a function of /repo under contract, obligations."""
from __future__ import annotations

import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
if HERE not in sys.path:
    sys.path.insert(0, HERE)

from interp import *  # noqa
from interp import Interp

REG = []          # (pid, function, contract, fn)


def contract(pids, function):
    """Register a contract: pids served, function under contract 'module.name'."""
    def deco(f):
        REG.append(((pids,) if isinstance(pids, str) else tuple(pids), function, f.__name__, f))
        return f
    return deco


class Skip(Exception):
    pass


class H:
    """State of one contract."""

    def __init__(self, function, cname, budget=60):
        self.function, self.cname = function, cname
        self.ctx = Ctx()
        self.ip = Interp(self.ctx)
        self.ip.deadline = time.time() + budget
        self.obs = []
        self.requires = []
        self.npaths = 0
        self.shared = []

    # ---------------------------------------------------------------- symbolic arguments
    def group(self, name="G"):
        d = Dim(name, group=name)
        return d

    def dim(self, name):
        return Dim(name)

    def arr(self, name, shape, kind="real", arg=True):
        if kind in ("real",):
            self.ctx.real.add(name)
        elif kind == "int":
            self.ctx.real.add(name)
            self.ctx.integer.add(name)
        elif kind == "unimod":
            self.ctx.unimod.add(name)
        a = mkarr(shape, lambda idx: atom(name, *idx))
        if arg:
            a.name = name
        return a

    def index_arr(self, name, shape, fn, arg=True):
        a = mkarr(shape, lambda idx: Ix(fn(idx)))
        if arg:
            a.name = name
        return a

    def table(self, G, name="table"):
        """Multiplication table of the group G."""
        return self.index_arr(name, (G, G), lambda i: gmul(i[0], i[1]))

    def req(self, text):
        self.requires.append(text)
        self.ctx.axioms.append(text)

    # ---------------------------------------------------------------- running
    def fn(self, name=None):
        m, f = (name or self.function).split(".")
        v = self.ip.lookup(self.ip.module(m), f)
        if not isinstance(v, Func):
            raise Undecided(f"{name} is not a function of /repo")
        return v

    def paths(self, thunk, assume=()):
        """Explore thunk(); returns [(facts, outcome)] with feasible paths only."""
        n0 = len(self.ip.facts)
        for a in assume:
            self.ip.assume(a)
        base = list(self.ip.facts[n0:])
        try:
            res = self.ip.explore(thunk)
        finally:
            del self.ip.facts[n0:]
        out = []
        for facts, o in res:
            if o[0] == "ret":
                o = ("end", o[1])
            out.append((base + facts, o))
        self.npaths += len(out)
        return out

    def run(self, args, kw=None, name=None, assume=()):
        f = self.fn(name)
        for x in [*args, *(kw or {}).values()]:
            if isinstance(x, LList):
                x.arg = True
        self.given = [*args, *(kw or {}).values()]
        arrays = []
        arrays_of(self.given, arrays)
        written = [list(a.stores) for a in arrays]

        def thunk():
            for a, w in zip(arrays, written):       # each path starts from the arguments as given
                a.stores, a.taint = list(w), []
            r = self.ip.call_value(f, list(args), dict(kw or {}))
            shared_with_arguments(r, self.shared)
            if any(len(a.stores) != len(w) for a, w in zip(arrays, written)):
                r = separate(self.ip, r)
            no_poison(r)
            return r
        try:
            return self.paths(thunk, assume)
        finally:
            for a, w in zip(arrays, written):
                a.stores, a.taint = list(w), []

    def with_facts(self, facts, thunk):
        n0 = len(self.ip.facts)
        for a in facts:
            self.ip.assume(a)
        try:
            return thunk()
        finally:
            del self.ip.facts[n0:]

    def feasible(self, facts):
        return not self.with_facts(facts, self.ip.infeasible)

    # ---------------------------------------------------------------- obligations
    def add(self, label, ok, backend="normaliser", detail=""):
        i = f"{self.function}::{self.cname}::{label}"
        for o in self.obs:                  # the same obligation met again on another path: one entry, discharged only if always
            if o["id"] == i:
                if not ok and o["status"] == "discharged":
                    o.update(status="undecided", detail=detail)
                return ok
        self.obs.append({"id": i, "status": "discharged" if ok else "undecided",
                         "backend": backend, "detail": detail if not ok else ""})
        return ok

    def eq(self, label, a, b, facts=()):
        a, b = num(a), num(b)
        self.ctx.facts = tuple(facts)
        ok = equal(self.ctx, a, b)
        self.ctx.facts = ()
        det = "" if ok else f"not proved: {normalise(self.ctx, a - b)!r}"[:600]
        return self.add(label, ok, "normaliser", det)

    def eq_split(self, label, a, b, facts=(), limit=12):
        """a == b by case distinction over the conditions occurring in indicators."""
        def under(fs, f):
            """f() with the facts (and their simplified forms) known to the normaliser."""
            self.ctx.facts = tuple(dict.fromkeys(list(fs) + [ctx_simplify_cond(self.ctx, c) for c in fs]))
            try:
                return f()
            finally:
                self.ctx.facts = ()

        def go(p, fs, depth):
            p = under(fs, lambda: normalise(self.ctx, p))
            if not p.d:
                return True
            conds = [f[1] for (bd, fs_), _ in p.items() for f, q in fs_ if f[0] == "I" and not any(occ(v, f) for v in bd)]
            if not conds:
                return not self.feasible(fs)
            if depth == 0 or not self.feasible(fs):
                return depth != 0
            c = min(conds, key=repr)
            return all(go(under([x], lambda: normalise(self.ctx, p)), list(fs) + [x], depth - 1) for x in (c, mk_not(c)))
        p = normalise(self.ctx, num(a) - num(b))
        ok = go(p, list(facts), limit)
        return self.add(label, ok, "normaliser", "" if ok else f"not proved: {p!r}"[:600])

    def nearest(self, x):
        """numpy.around of a number."""
        return num(self.ip.np_call("numpy.around", [x], {}))

    def same_index(self, label, a, b):
        ok = isinstance(a, Ix) and isinstance(b, Ix) and idx_eq(a.t, b.t) is True
        return self.add(label, ok, "normaliser", "" if ok else f"{a!r} is not {b!r}")

    def true(self, label, c, facts=()):
        if isinstance(c, bool):
            return self.add(label, c, "path", "" if c else "false")
        r = self.with_facts(facts, lambda: self.ip.decide(self.ip.as_cond(c)))
        return self.add(label, r is True, "z3", "" if r is True else f"{'refuted' if r is False else 'not proved'}: {c!r}"[:600])

    def iff(self, label, a, b, facts=()):
        a, b = self.ip.as_cond(a), self.ip.as_cond(b)
        if not isinstance(a, bool) and a.op not in ("true", "false") and all(
                self.with_facts([*facts, x], lambda: self.ip.decide(y)) is True for x, y in ((a, b), (b, a))):
            return self.add(label, True, "z3")
        return self.true(label, mk_or(mk_and(a, b), mk_and(mk_not(a), mk_not(b))), facts)

    def decides(self, label, outcomes, spec):
        """The value returned is true exactly if spec holds, on every path; neither answer is the only one."""
        seen = set()
        for facts, v in outcomes:
            c = self.ip.as_cond(v)
            seen |= {True} if c.op == "true" else {False} if c.op == "false" else {True, False}
            self.iff(label, c, spec, facts)
        self.add(label + ": both results are possible", seen == {True, False}, "path", str(seen))

    def iff_cases(self, label, a, b, facts, case):
        """a <=> b in the case."""
        self.ctx.facts = tuple(facts) + (case,)
        try:
            a, b = ctx_simplify_cond(self.ctx, self.ip.as_cond(a)), ctx_simplify_cond(self.ctx, self.ip.as_cond(b))
            if a == b:
                return self.add(label, True, "normaliser")
            return self.iff(label, a, b, list(facts) + [case])
        finally:
            self.ctx.facts = ()

    def only_return(self, label, paths):
        """Every feasible path returns a value; yields (facts, value)."""
        out = []
        for n, (facts, o) in enumerate(paths):
            if o[0] == "end":
                out.append((facts, o[1]))
                continue
            inf = self.with_facts(facts, self.ip.infeasible)
            self.add(f"{label}.path{n}", inf, "z3", "" if inf else f"path ends in {o} under {facts}"[:500])
        self.add(f"{label}.returns", bool(out), "path", "no returning path")
        return out

    def frame(self, label="frame"):
        v = self.ip.violations
        self.add(label, not v, "write-barrier", repr(v[:2])[:400])
        self.add(label + ": no result shares memory with an argument", not self.shared, "write-barrier", repr(self.shared[:2])[:400])

    def el(self, a, *idx):
        return self.ip.get(a, idx)


def arrays_of(v, acc):
    if isinstance(v, Arr):
        acc.append(v)
    elif isinstance(v, (tuple, list)):
        for x in v:
            arrays_of(x, acc)
    elif isinstance(v, LList):
        arrays_of([v.sym[2]] if v.sym is not None else v.items or [], acc)
    elif isinstance(v, SDict):
        arrays_of(list(v.conc.values()), acc)


def no_poison(v):
    """A result must not hold a list or array whose content was not followed."""
    if isinstance(v, Poison):
        raise Undecided(f"result: {v.why if hasattr(v, 'why') else 'not followed'}")
    if isinstance(v, (tuple, list)):
        for x in v:
            no_poison(x)
    elif isinstance(v, LList):
        if v.poison:
            raise Undecided(f"list {v.poison}")
        for x in [v.sym[2]] if v.sym is not None else v.items or []:
            no_poison(x)
    elif isinstance(v, SDict):
        if "__poison__" in v.conc:
            raise Undecided("dict " + str(v.conc["__poison__"]))


def separate(ip, v):
    """Copies of the arrays of a result (arguments were written to: their later states differ)."""
    if isinstance(v, Arr):
        return ip.copy(v)
    if isinstance(v, tuple):
        return tuple(separate(ip, x) for x in v)
    if isinstance(v, LList) and v.sym is None and v.items:
        v.items = [separate(ip, x) for x in v.items]
    return v


def shared_with_arguments(v, acc):
    """Arrays in a result that are, or may be views of, arrays of the arguments."""
    from interp import root_of
    if isinstance(v, Arr):
        r = root_of(v)
        if r.name is not None:
            acc.append((r.name, repr(v)))
    elif isinstance(v, (tuple, list)):
        for x in v:
            shared_with_arguments(x, acc)
    elif isinstance(v, LList):
        if v.arg:
            acc.append(("list", repr(v)[:100]))
        for x in ([v.sym[2]] if v.sym is not None else v.items or []):
            shared_with_arguments(x, acc)
    elif isinstance(v, SDict):
        for x in v.conc.values():
            shared_with_arguments(x, acc)


def purified(key):
    """Contract of the cleaning functions at their call sites: entries move by less than atol (modelled as unchanged), the array
    given is written to (so it may not belong to an argument of the caller), the tolerance is the caller's or at most 1e-6."""
    def stub(ip, env):
        from interp import root_of
        a, t = env[key], env.get("atol")
        if not isinstance(a, Arr):
            raise Undecided("cleaning of something that is not an array")
        if root_of(a).name is not None:
            ip.violations.append(("write to argument", root_of(a).name, "purify"))
        c = t if isinstance(t, (int, float, Fr)) else num(t).const_value() if num(t).is_const() else None
        if c is not None and not 0 <= float(c if not hasattr(c, "re") else c.re) <= 1e-6:
            raise Undecided("cleaning with a coarse tolerance")
        return a
    return stub


def shape_is(a, shape):
    return isinstance(a, Arr) and a.shape == tuple(shape)


def source_digest():
    """Digest of the package's syntax trees: comments, layout and docstrings do not count."""
    import ast
    import hashlib
    import interp
    d = hashlib.sha256()
    for f in sorted(os.listdir(interp.SRC)):
        if f.endswith(".py"):
            t = ast.parse(open(os.path.join(interp.SRC, f)).read())
            for n in ast.walk(t):
                if isinstance(n, (ast.Module, ast.FunctionDef, ast.ClassDef)) and n.body and isinstance(n.body[0], ast.Expr) \
                        and isinstance(getattr(n.body[0], "value", None), ast.Constant) and isinstance(n.body[0].value.value, str):
                    n.body = n.body[1:] or [ast.Pass()]
            d.update(f.encode() + ast.dump(t).encode())
    return d.hexdigest()


def run_contract(item):
    pids, function, name, f = item
    t0 = time.time()
    ORDERS.clear()
    h = H(function, name)
    note = None
    try:
        f(h)
    except (Undecided, Skip, PyExc) as e:
        note = f"{type(e).__name__}: {e}"
    except RecursionError:
        note = "recursion limit"
    except Exception as e:  # engine error: never a verdict
        note = f"engine error {type(e).__name__}: {e}"
        if os.environ.get("DV_DEBUG"):
            traceback.print_exc()
    if note:
        h.obs.append({"id": f"{function}::{name}::verification", "status": "undecided", "backend": "", "detail": note[:500]})
    return {"function": function, "contract": name, "pids": pids, "obs": h.obs, "wall_s": time.time() - t0, "solver_s": h.ip.solver_s,
            "nz3": h.ip.nz3, "inlined": sorted(h.ip.inlined), "called": sorted(map(str, h.ip.called)), "requires": h.requires,
            "paths": h.npaths, "complete": note is None}


def mk_iff(a, b):
    return mk_or(mk_and(a, b), mk_and(mk_not(a), mk_not(b)))
