"""Symbolic interpreter for the Python source of spgrep (parsed from /repo on every run).

for-loops over symbolic extents are summarised exactly: the body is run once per path for a generic index and its effects
(element stores, appends, dictionary entries, accumulations, exits) are generalised over the index.  Anything outside the
supported subset raises Undecided, never a verdict.
"""
from __future__ import annotations

import ast
import os
import time

import z3

from values import *  # noqa
from terms import _cnt

SRC = os.environ.get("SPGREP_SRC", "/repo/src") + "/spgrep"


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cnt(Exception):
    pass


class Dec:
    def __init__(self, dec):
        self.dec, self.pos, self.alts = list(dec), 0, []


class Frame:
    """Effect log of a loop body execution."""

    def __init__(self):
        self.log = []
        self.reads = []


SNIPPETS = {}      # name -> text: modules of the vacuity guards and of dv/cross.py


MUTATORS = {"append", "extend", "insert", "remove", "pop", "clear", "update", "setdefault", "popitem", "add", "discard", "sort", "reverse", "fill", "put"}


def written_names(tree):
    """Names whose value is modified somewhere in the module: by item assignment, a mutating method or a global statement."""
    r = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Global):
            r |= set(n.names)
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
            b = n.value
            while isinstance(b, (ast.Subscript, ast.Attribute)):
                b = b.value
            if isinstance(b, ast.Name):
                r.add(b.id)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
            b = n.func.value
            while isinstance(b, (ast.Subscript, ast.Attribute)):
                b = b.value
            if isinstance(b, ast.Name):
                r.add(b.id)
    return r


def package_written(_memo={}):
    if SRC not in _memo:
        r = set()
        for f in sorted(os.listdir(SRC)):
            if f.endswith(".py"):
                try:
                    r |= written_names(ast.parse(open(f"{SRC}/{f}").read()))
                except SyntaxError:
                    pass
        _memo[SRC] = r
    return _memo[SRC]


class Interp:
    def __init__(self, ctx, contracts=None):
        self.ctx = ctx
        self.contracts = contracts or {}
        self.facts = []
        self.decs = []
        self.frames = []
        self.mods = {}
        self.obls = []            # obligations raised while executing (callee preconditions)
        self.violations = []      # frame violations
        self.solver_s = 0.0
        self.nz3 = 0
        self.inlined = set()
        self.called = set()
        self.loop_hook = None
        self.conc_hook = None
        self.sorted_hook = None
        self.sequence_hook = None   # equality of sequences of different symbolic length, where a contract knows it
        self.deadline = time.time() + 120
        self.depth = 0
        self.injective = []       # arrays whose TupKey rows are pairwise distinct: fn(template)->bool
        self.index_oracle = None
        self.accum = False        # in-place sums in loops: the terms added are logged, not the elements written
        self.given = {}           # names a path of a loop body assigned, where the value alone does not tell
        self.touched = None       # reads made while the iterable of a loop is evaluated
        self.witness = None       # group, letters -> candidate words that may refute a universal condition
        self.injections = {}      # injective index functions: name -> (image, inverse)
        self.relation = None      # extra relations between group words
        self.choice_defs = {}
        self.texts = set()
        self.choice_ids = {}
        self._tr = None
        self.members = {}         # dim -> fn(interp, index) -> True/False/None  membership of group words in sub-extents

    # ------------------------------------------------------------ modules
    def module(self, name):
        if name in self.mods:
            return self.mods[name]
        path = f"{SRC}/{name}.py"
        tree = ast.parse(SNIPPETS[name] if name in SNIPPETS else open(path).read(), path)
        env = {"__name__": name}
        self.mods[name] = env
        bound = {}
        other = []
        for st in tree.body:
            names = []
            if isinstance(st, ast.FunctionDef):
                env[st.name] = Func(st, env, name, st.name)
                names = [st.name]
            elif isinstance(st, ast.Import):
                for a in st.names:
                    nm = a.asname or a.name.split(".")[0]
                    env[nm] = Module(a.name if a.asname else nm)
            elif isinstance(st, ast.ImportFrom):
                for a in st.names:
                    nm = a.asname or a.name
                    if st.module and st.module.startswith("spgrep."):
                        env[nm] = ("lazy", st.module.split(".", 1)[1], a.name)
                    else:
                        env[nm] = Builtin(f"{st.module}.{a.name}")
                    names.append(nm)
            elif isinstance(st, (ast.Assign, ast.AnnAssign)) and all(isinstance(t, ast.Name) for t in (st.targets if isinstance(st, ast.Assign) else [st.target])):
                for t in st.targets if isinstance(st, ast.Assign) else [st.target]:
                    names.append(t.id)
                    if st.value is not None:
                        try:
                            env[t.id] = ast.literal_eval(st.value)
                        except Exception:
                            env[t.id] = ("expr", st.value)
            elif isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant):
                pass
            else:
                other.append(st)
            for nm in names:
                bound[nm] = bound.get(nm, 0) + 1
        for nm, k in bound.items():
            if k > 1:
                env[nm] = Poison(f"module name {nm} bound {k} times")
        for st in other:            # statements of the module that are not read: whatever they mention is unknown
            for n in ast.walk(st):
                nm = n.id if isinstance(n, ast.Name) else n.name if isinstance(n, (ast.FunctionDef, ast.ClassDef)) else None
                if nm and not isinstance(env.get(nm), (Module, Builtin)):
                    env[nm] = Poison(f"module name {nm} in a {type(st).__name__} statement of the module")
        for nm in package_written() | written_names(tree):
            if isinstance(env.get(nm), (list, dict, set)) or isinstance(env.get(nm), tuple) and env[nm][:1] == ("expr",):
                env[nm] = Poison(f"module variable {nm} is modified")
        for nm, v in list(env.items()):
            if isinstance(v, (list, dict, set)) and not v:
                env[nm] = Poison(f"module variable {nm} starts empty")
        return env

    def lookup(self, env, name):
        e = env
        while e is not None:
            if name in e:
                v = e[name]
                if isinstance(v, tuple) and len(v) == 3 and v[0] == "lazy":
                    v = self.lookup(self.module(v[1]), v[2])
                if isinstance(v, tuple) and len(v) == 2 and v[0] == "expr":
                    v = self.ev(v[1], e)
                if isinstance(v, Poison):
                    raise Undecided(f"read of {name}: {v.why}")
                return v
            e = e.get("__parent__")
        if name in ("len", "range", "enumerate", "zip", "list", "tuple", "set", "sorted", "sum", "all", "any", "map", "int", "float",
                    "bool", "min", "max", "abs", "isinstance", "reversed", "complex", "round", "dict", "pow", "print", "filter", "str", "slice", "divmod", "next"):
            return Builtin(name)
        if name in ("ValueError", "TypeError", "IndexError", "KeyError", "Exception", "RuntimeError", "AssertionError", "NotImplementedError", "StopIteration"):
            return Opaque("exc", name)
        raise Undecided(f"name {name}")

    # ------------------------------------------------------------ exploration
    def explore(self, fn):
        """All paths of fn(): list of (facts, outcome) with outcome ('ret', v) / ('exc', PyExc) / ('brk',) / ('cnt',) / ('end',)"""
        res = []
        stack = [[]]
        n = 0
        while stack:
            if time.time() > self.deadline:
                raise Undecided("time limit of symbolic execution")
            n += 1
            if n > 400:
                raise Undecided("too many paths")
            d = Dec(stack.pop())
            nf = len(self.facts)
            self.decs.append(d)
            try:
                try:
                    out = ("end", fn())
                except Ret as r:
                    out = ("ret", r.v)
                except Brk:
                    out = ("brk",)
                except Cnt:
                    out = ("cnt",)
                except PyExc as e:
                    out = ("exc", e)
                facts = self.facts[nf:]
                res.append((facts, out))
            finally:
                self.decs.pop()
                del self.facts[nf:]
            stack.extend(d.alts)
        return res

    def assume(self, c):
        c = ctx_simplify_cond(self.ctx, c)
        if c.op == "and":
            for a in c.args:
                self.assume(a)
        elif c.op != "true":
            self.facts.append(c)

    def truth(self, x):
        """Python truth value of a symbolic value; forks when undetermined."""
        if isinstance(x, (bool, int, float, complex, str)) or x is None:
            return bool(x)
        if isinstance(x, tuple):
            return len(x) > 0
        if isinstance(x, LList):
            if x.sym is None:
                return len(x.items) > 0
            return self.truth(self.nonempty(x.sym[0]))
        if isinstance(x, DimVal):
            return True
        if isinstance(x, SDict):
            raise Undecided("truth of dict")
        c = self.as_cond(x)
        r = self.decide(c)
        if r is not None:
            return r
        d = self.decs[-1]
        if d.pos < len(d.dec):
            v = d.dec[d.pos]
        else:
            v = True
            d.alts.append(d.dec[:] + [False])
            d.dec.append(True)
        d.pos += 1
        self.assume(c if v else mk_not(c))
        return v

    def choose(self, label):
        """Fork without a condition."""
        d = self.decs[-1]
        if d.pos < len(d.dec):
            v = d.dec[d.pos]
        else:
            v = True
            d.alts.append(d.dec[:] + [False])
            d.dec.append(True)
        d.pos += 1
        return v

    def as_cond(self, x):
        if isinstance(x, Cond):
            return x
        if isinstance(x, bool):
            return TRUE if x else FALSE
        if isinstance(x, Arr):
            if all(d == 1 for d in x.shape):
                return self.as_cond(self.get(x, tuple(0 for _ in x.shape)))
            raise PyExc("ValueError", "truth value of an array is ambiguous")
        if isinstance(x, Opaque):
            raise Undecided(f"truth of {x.tag}")
        if isinstance(x, Ix):
            raise Undecided("truth of an index")
        p = num(x)
        if p.is_const():
            return TRUE if p.const_value() else FALSE
        # 0/1 indicator polynomials
        if len(p.d) == 1:
            ((b, fs), c), = p.d.items()
            if not b and len(fs) == 1 and fs[0][0][0] == "I" and fs[0][1] == 1 and c == CQ(1):
                return fs[0][0][1]
        return mk_not(cmp("eq", p, 0))

    def nonempty(self, dim):
        return Cond("nonempty", (repr(dim),)) if not (isinstance(dim, Dim) and getattr(dim, "nonempty", True)) else TRUE

    def decide(self, c):
        c = ctx_simplify_cond(self.ctx, c)
        if c.op == "true":
            return True
        if c.op == "false":
            return False
        if c in self.facts:
            return True
        if mk_not(c) in self.facts:
            return False
        if c.op == "and":
            rs = [self.decide(a) for a in c.args]
            if any(r is False for r in rs):
                return False
            if all(r is True for r in rs):
                return True
        if c.op == "not":
            r = self.decide(c.args[0])
            if r is not None:
                return not r
        if c.op == "eqi":
            r = self.eq_index(*c.args)
            if r is not None:
                return r
        if c.op == "all":
            for x in prefix_variants(c):
                if x in self.facts:
                    return True
                if mk_not(x) in self.facts:
                    return False
            v = c.args[0]
            if self.witness and isinstance(v[2], Dim) and v[2].group and not getattr(v[2], "sub", False):
                ls = sorted([x for x in vars_of(c) if isinstance(x[2], Dim) and x[2].group == v[2].group and x[1][0] != "@"], key=skey)
                fs = sorted([x for x in index_terms(c) if x[0] == "f" and idx_group(x) == v[2].group], key=skey)
                for t in self.witness(v[2].group, ls + fs):
                    if self.decide(c.args[1].subst({v: t})) is False:
                        return False
            f = fresh(v[2], "q")
            if self.decide(c.args[1].subst({v: f})) is True:
                return True
        return self.z3decide(c)

    def eq_index(self, i, j):
        r = idx_eq(i, j)
        if r is True or r is False:
            return r
        if isinstance(i, int) or isinstance(j, int):
            return None
        gi, gj = idx_group(i), idx_group(j)
        if gi and gi == gj and self.relation is not None:
            r = self.relation(i, j)
            if r is not None:
                return r
        if gi and gi == gj:
            for d, fn in self.members.items():
                a, b = fn(self, i), fn(self, j)
                if a is not None and b is not None and a != b:
                    return False
        return None

    # ------------------------------------------------------------ z3
    def translator(self):
        """Translation of the current facts (cached while the facts stay the same)."""
        key = tuple(self.facts)
        if self._tr is None or self._tr[0] != key:
            self._tr = (key, Z3(self))
        return self._tr[1]

    def z3decide(self, c):
        t = time.time()
        try:
            tr = self.translator()
            k = (c, len(self.choice_defs), len(self.ctx.rules))
            if k not in tr.memo:
                tr.memo[k] = tr.decide(c)
            return tr.memo[k]
        finally:
            self.solver_s += time.time() - t

    def infeasible(self):
        t = time.time()
        try:
            tr = Z3(self)
            tr.new += tr.instances(tr.cand, tr.base_quants, set())
            tr.flush()
            self.nz3 += 1
            return tr.solver.check() == z3.unsat
        finally:
            self.solver_s += time.time() - t

    # ------------------------------------------------------------ arrays
    def overlay(self, a):
        """Stores on object a: its own plus those logged in the loops being executed."""
        st = list(a.stores)
        for fr in self.frames:
            for e in fr.log:
                if e[0] == "store" and e[1] is a:
                    st.append(e[2])
                elif e[1] is a:
                    raise Undecided("array " + str(e[2]))
        return st

    def get(self, a, idx):
        if a.base is not None:
            return self.get(a.base, a.imap(tuple(idx)))
        if a.alias is not None:
            root = a.alias[0]
            if self.version(root) != a.alias[1] or any(w is not a and overlap(reg, a.alias[2]) for reg, w in root.taint):
                raise Undecided("read of a possible view after a write to the viewed array")
        if self.touched is not None:
            self.touched.append((a, tuple(idx)))
        if any(overlap(reg, [tuple(idx)]) for reg, w in a.taint):
            raise Undecided("read of an array after a write to what may be a view of it")
        idx = tuple(idx)
        if len(idx) != len(a.shape):
            raise Undecided(f"rank mismatch {idx} {a.shape}")
        for d, i in zip(a.shape, idx):
            if isinstance(d, int) and isinstance(i, int) and not 0 <= i < d:
                raise PyExc("IndexError", "index out of bounds")
        if self.frames and a.home is not self.frames[-1] and not getattr(a, "const", False):
            own = [e[2] for e in self.frames[-1].log if e[0] == "store" and e[1] is a]
            v, definite = self.read(own, idx)
            if definite:
                return v
            self.frames[-1].reads.append((a, idx))
        ov = self.overlay(a)
        for n, i in enumerate(idx):         # literal extent written element by element: no generic index
            if isinstance(i, tuple) and i[0] == "v" and isinstance(i[2], int) and any(isinstance(s.keys[n], int) for s in ov):
                raise GenericIndex("generic index over a literal extent")
        v, definite = self.read(ov, idx)
        if not definite:
            if any(isinstance(i, tuple) and i[0] == "v" and isinstance(i[2], int) for i in idx):
                raise GenericIndex("generic index over a literal extent")
            if os.environ.get("DV_DEBUG"):
                print("UNSET", idx, a.stores, "FACTS", self.facts)
            raise Undecided(f"read of an element that may be unset: {idx}")
        return v

    def read(self, stores, idx):
        conds = []
        for s in reversed(stores):
            m, cond = self.match(s, idx)
            if m is None:
                continue
            g = mk_and(cond, s.guard.subst(m))
            r = self.decide(g)
            if r is False:
                continue
            left = [v for v in s.bvars if v not in m]
            val = vsubst(s.val, m)
            if left and any(v in vars_of_val(val) or v in vars_of(g) for v in left):
                raise Undecided("ambiguous store")
            if r is True:
                for g2, v2 in reversed(conds):
                    val = self.ite(g2, v2, val)
                return val, True
            conds.append((g, val))
        return None, False

    def match(self, s, idx):
        m = {}
        conds = []
        pend = list(zip(s.keys, idx))
        for rnd in range(len(pend) + 1):
            rest = []
            for k, i in pend:
                k = any_subst(k, m)
                todo = [(k, i)]
                while todo:
                    k, i = todo.pop()
                    if isinstance(k, tuple) and k[0] == "v" and k in s.bvars and k not in m:
                        if occ(k, i):
                            raise Undecided("capture")
                        c = self.fits(k[2], i)
                        if c is False:
                            return None, None
                        m[k] = i
                        if c is not True:
                            conds.append(c)
                        continue
                    r = idx_eq(k, i)
                    if r is True:
                        continue
                    if r is False:
                        return None, None
                    if isinstance(r, list):
                        todo += r
                        continue
                    fv = [v for v in s.bvars if v not in m and occ(v, k)]
                    if fv:
                        if rnd == len(pend):
                            raise Undecided(f"cannot solve index equation {k} == {i}")
                        sol = solve_for(fv[0], k, i) if len(fv) == 1 else None
                        if sol is None and len(fv) == 1:
                            r = solve_injection(self.injections, fv[0], k, i)
                            if r is not None:
                                sol, c = r
                                conds.append(c)
                        if sol is not None:
                            c = self.fits(fv[0][2], sol)
                            if c is False:
                                return None, None
                            m[fv[0]] = sol
                            if c is not True:
                                conds.append(c)
                            continue
                        rest.append((k, i))
                        continue
                    conds.append(mk_eqi(k, i))
            if not rest:
                break
            pend = rest
        return m, mk_and(*conds)

    def fits(self, dim, i):
        """Is index i within extent dim? True / False / Cond"""
        if isinstance(i, int):
            if isinstance(dim, int):
                return 0 <= i < dim
            raise Undecided("literal index into a symbolic extent")
        d = idx_dim(i)
        if d == dim or getattr(dim, "axes", dim) == getattr(d, "axes", d):      # several axes and the same flattened
            return True
        if isinstance(d, tuple) and d[0] == "group":
            if isinstance(dim, Dim) and dim.group == d[1]:
                if not getattr(dim, "sub", False):
                    return True
                fn = self.members.get(dim)
                if fn is not None:
                    r = fn(self, i)
                    if r is not None:
                        return r
                return Cond("mem", (dim.name, i))
            raise Undecided("index of another extent")
        if isinstance(d, Dim) and isinstance(dim, Dim) and d.group and d.group == dim.group:
            if getattr(dim, "sub", False):
                fn = self.members.get(dim)
                if fn is not None:
                    r = fn(self, i)
                    if r is not None:
                        return r
                return Cond("mem", (dim.name, i))
            return True
        if isinstance(i, tuple) and i[0] == "p" and isinstance(dim, PDim):
            return True
        if isinstance(i, tuple) and i[0] == "b" and isinstance(dim, BDim):
            return True
        p = getattr(d, "parent", None)
        while p is not None and p != dim:
            p = getattr(p, "parent", None)
        if p is not None:       # an element of a selected part is an element of the whole
            return True
        raise Undecided(f"index {i} into extent {dim}")

    def ite(self, c, a, b):
        if c.op == "true":
            return a
        if c.op == "false":
            return b
        if isinstance(a, Ix) or isinstance(b, Ix):
            if a == b:
                return a
            return a if self.truth(c) else b
        if isinstance(a, Cond) or isinstance(b, Cond) or isinstance(a, bool):
            a, b = self.as_cond(a), self.as_cond(b)
            return mk_or(mk_and(c, a), mk_and(mk_not(c), b))
        if isinstance(a, Arr) and isinstance(b, Arr):
            if a.shape != b.shape:
                raise Undecided("branches with different shapes")
            return mkarr(a.shape, lambda i: self.ite(c, self.get(a, i), self.get(b, i)), a.flavour)
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.ite(c, x, y) for x, y in zip(a, b))
        pc = self.condpoly(c)
        a, b = num(a), num(b)
        return pc * (a - b) + b

    def condpoly(self, c):
        if c.op == "eqi":
            return delta(*c.args)
        if c.op == "not":
            return Poly.const(1) - self.condpoly(c.args[0])
        if c.op == "and":
            r = Poly.const(1)
            for a in c.args:
                r = r * self.condpoly(a)
            return r
        return aspoly(c)

    def new(self, a):
        a.home = self.frames[-1] if self.frames else None
        return a

    def mk(self, shape, fn, flavour="array", dtype=None):
        return self.new(mkarr(shape, fn, flavour, dtype))

    def store(self, a, st):
        """Element store with write barrier."""
        if a.readonly:
            raise PyExc("ValueError", "assignment destination is read-only")
        if a.base is not None:
            nk = a.imap(st.keys)
            return self.store(a.base, Store(st.bvars, nk, st.guard, st.val))
        if a.flavour != "list":
            st = self.converted(a, st)
        if a.alias is not None:
            root, _, region = a.alias
            if root.name is not None:
                self.violations.append(("write to what may be a view of argument", root.name, repr(st)[:200]))
            if not any(w is a for _, w in root.taint):
                root.taint.append((region, a))
        if a.name is not None:
            self.violations.append(("write to argument", a.name, repr(st)[:200]))
        elif a.elem:
            raise Undecided("write to an element of a list of symbolic length")
        if self.frames and a.home is not self.frames[-1]:
            self.frames[-1].log.append(("store", a, st))
        else:
            a.stores.append(st)

    def add_to(self, a, st):
        """Add st.val to the elements st.keys (once for every value of the bound variables that are not keys themselves)."""
        if a.readonly:
            raise PyExc("ValueError", "assignment destination is read-only")
        if a.base is not None:
            return self.add_to(a.base, Store(st.bvars, a.imap(st.keys), st.guard, st.val))
        if a.elem or a.alias is not None:
            raise Undecided("sum in place in what may be a view")
        if self.frames and a.home is not self.frames[-1]:
            self.frames[-1].log.append(("accum", a, st))
            return
        if any(not isinstance(d, (Dim, int)) for d in a.shape) or a.flavour == "list":
            raise Undecided("sum in place")

        def new(idx):
            m, at = {}, TRUE
            for k, i in zip(st.keys, idx):
                if k in st.bvars and k not in m:
                    m[k] = i
                elif k != i:
                    at = mk_and(at, mk_eqi(m.get(k, k) if isinstance(k, tuple) else k, i))
            if any(occ(b, k) for b in m for k in st.keys if k != b):
                raise Undecided("sum in place")
            g = mk_and(at, st.guard.subst(m))
            term = num(vsubst(st.val, m))
            term = term if g.op == "true" else Poly() if g.op == "false" else self.condpoly(g) * term
            for b in st.bvars:
                if b not in m:
                    term = term.sum(b)
            return normalise(self.ctx, num(self.get(a, tuple(idx))) + term)
        for idx, vs, x in elements(a.shape, new):
            self.store(a, Store(vs, idx, TRUE, x))

    def holds(self, a, v):
        """Undecided unless an array of derived element type keeps the value as it is."""
        if a.name is not None or isinstance(v, (bool, int, Ix, DimVal, Cond)):
            return
        import numpy_model
        v = normalise(self.ctx, num(v))
        if numpy_model.is_integer_poly(self, v):
            return
        src = getattr(a, "like", None) or a
        real = lambda p: is_real(self.ctx, p) or equal(self.ctx, p, p.conj(self.ctx))
        for idx, vs in patterns(src.shape, generic=True)[:1]:
            x = self.get(src, idx)
            if isinstance(x, (Poly, complex, float)):
                x = normalise(self.ctx, num(x))
                if not numpy_model.is_integer_poly(self, x) and (real(v) or not real(x)):
                    return
        raise Undecided("value stored in an array of unknown element type")

    def converted(self, a, st):
        """The value as the array's element type keeps it: imaginary parts and fractions are dropped where the type has none."""
        v = st.val
        if a.dtype is None:
            self.holds(a, v)
            return st
        if a.dtype == "c" or not isinstance(v, (Poly, complex, float, Fr)) and not (a.dtype == "b" and isinstance(v, (int, Ix, DimVal))):
            return st
        if a.dtype == "b":
            w = self.as_cond(v)
        else:
            w = normalise(self.ctx, num(v))
            if not is_real(self.ctx, w) and not equal(self.ctx, w, w.conj(self.ctx)):
                w = normalise(self.ctx, fun("re", w))
            if a.dtype == "i":
                import numpy_model
                w = num(numpy_model.to_int(self, w))
        return Store(st.bvars, st.keys, st.guard, w)

    def version(self, a):
        """Number of writes to the array object so far."""
        return len(a.stores) + sum(1 for fr in self.frames for e in fr.log if e[1] is a)

    def may_view(self, r, o):
        """numpy may return a view of o: remember it (reads after a write to o and writes to r are not decided)."""
        if isinstance(r, Arr) and isinstance(o, Arr) and r is not o and r.base is None:
            root = root_of(o)
            r.alias = (root, self.version(root), region_of(o))
        return r

    def log(self, obj, entry, apply):
        if self.frames and obj.home is not self.frames[-1]:
            self.frames[-1].log.append(entry)
        else:
            apply()

    # ------------------------------------------------------------ lists
    def lstate(self, l, at=None):
        """Current content of a list including loop logs; at: only this element is looked at."""
        if l.poison:
            raise Undecided(f"list {l.poison}")
        if l.cat:
            raise Undecided("list extended by symbolic lists")
        if l.sym is not None:
            base = ("sym", l.sym)
            items = None
        else:
            items = list(l.items)
        for fr in self.frames:
            for e in fr.log:
                if e[1] is l:
                    if e[0] == "append" and items is not None:
                        items.append(e[2])
                    else:
                        raise Undecided("list modified in a loop and read there")
        if self.frames and l.home is not self.frames[-1]:
            self.frames[-1].reads.append((l, at))
        if items is None:
            return base
        return ("conc", items)

    def append(self, l, v):
        if getattr(l, "arg", None):
            self.violations.append(("append to argument", l.arg, repr(v)[:200]))
        elif l.elem and l.sym is None:
            raise Undecided("change of an element of a list of symbolic length")
        self.log(l, ("append", l, v), lambda: self._append(l, v))

    def _append(self, l, v):
        if l.sym is not None or l.cat:
            raise Undecided("append to a list of symbolic length")
        l.items.append(v)

    # ------------------------------------------------------------ statements
    def exec_block(self, body, env):
        for st in body:
            self.exec(st, env)

    def exec(self, st, env):
        if time.time() > self.deadline:
            raise Undecided("time limit of symbolic execution")
        t = type(st)
        if t is ast.Assign:
            v = self.ev(st.value, env)
            for tg in st.targets:
                self.assign(tg, v, env)
        elif t is ast.AnnAssign:
            if st.value is not None:
                self.assign(st.target, self.ev(st.value, env), env)
        elif t is ast.AugAssign:
            self.augassign(st, env)
        elif t is ast.Expr:
            self.ev(st.value, env)
        elif t is ast.If:
            if self.truth(self.ev(st.test, env)):
                self.exec_block(st.body, env)
            else:
                self.exec_block(st.orelse, env)
        elif t is ast.For:
            self.for_(st, env)
        elif t is ast.While:
            self.while_(st, env)
        elif t is ast.Return:
            raise Ret(None if st.value is None else self.ev(st.value, env))
        elif t is ast.Raise:
            self.raise_(st, env)
        elif t is ast.Continue:
            raise Cnt()
        elif t is ast.Break:
            raise Brk()
        elif t is ast.Pass:
            pass
        elif t is ast.Try:
            self.try_(st, env)
        elif t is ast.Assert:
            if not self.truth(self.ev(st.test, env)):
                raise PyExc("AssertionError")
        elif t is ast.FunctionDef:
            env[st.name] = Func(st, env, env.get("__mod__"), st.name)
        elif t in (ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal):
            raise Undecided("import or global statement in a function")
        elif t is ast.Delete:
            for tg in st.targets:
                if isinstance(tg, ast.Name):
                    env.pop(tg.id, None)
                else:
                    raise Undecided("del")
        elif t is ast.With:
            for it in st.items:
                v = self.ev(it.context_expr, env)
                if not (isinstance(v, Opaque) and v.tag == "nocontext"):
                    raise Undecided("with statement")
            self.exec_block(st.body, env)
        else:
            raise Undecided(f"statement {t.__name__}")

    def raise_(self, st, env):
        if st.exc is None:
            raise env["__exc__"]
        v = self.ev(st.exc, env)
        if isinstance(v, Opaque) and v.tag == "exc":
            raise PyExc(v.data)
        if isinstance(v, Opaque) and v.tag == "excval":
            raise PyExc(*v.data)
        raise Undecided("raise")

    def try_(self, st, env):
        if st.finalbody:
            raise Undecided("finally")
        try:
            self.exec_block(st.body, env)
        except PyExc as e:
            for h in st.handlers:
                names = []
                if h.type is not None:
                    tv = self.ev(h.type, env)
                    names = [x.data for x in (tv if isinstance(tv, tuple) else (tv,))]
                if h.type is None or e.etype in names or "Exception" in names or ("LookupError" in names and e.etype in ("IndexError", "KeyError")):
                    env2 = env
                    if h.name:
                        env[h.name] = Opaque("excval", (e.etype, e.msg))
                    self.exec_block(h.body, env2)
                    return
            raise
        self.exec_block(st.orelse, env)

    def assign(self, tg, v, env):
        if isinstance(tg, ast.Name):
            env[tg.id] = v
        elif isinstance(tg, (ast.Tuple, ast.List)):
            items = self.unpack(v, len(tg.elts), any(isinstance(e, ast.Starred) for e in tg.elts))
            if any(isinstance(e, ast.Starred) for e in tg.elts):
                raise Undecided("starred assignment")
            if len(items) != len(tg.elts):
                raise PyExc("ValueError", "unpack")
            for e, x in zip(tg.elts, items):
                self.assign(e, x, env)
        elif isinstance(tg, ast.Subscript):
            o = self.ev(tg.value, env)
            k = self.ev_index(tg.slice, env)
            self.setitem(o, k, v)
        elif isinstance(tg, ast.Attribute):
            raise Undecided("attribute assignment")
        else:
            raise Undecided("assignment target")

    def unpack(self, v, n, star=False):
        if isinstance(v, tuple):
            return list(v)
        k, it = self.iter_spec(v)
        if k != "conc":
            raise Undecided("unpacking of symbolic length")
        return it

    def augassign(self, st, env):
        from numpy_model import basic_index, expand_ellipsis, is_fancy
        if self.accum and isinstance(st.target, ast.Subscript) and isinstance(st.op, (ast.Add, ast.Sub)):
            o, k = self.ev(st.target.value, env), self.ev_index(st.target.slice, env)
            if isinstance(o, Arr) and o.flavour == "array" and self.frames and root_of(o).home is not self.frames[-1]:
                ks = expand_ellipsis(o, k if isinstance(k, tuple) else (k,))
                if not any(is_fancy(x) for x in ks):
                    shape, mapper = basic_index(self, o, ks)
                    rhs = self.ev(st.value, env)
                    if shape == () and is_scalar(rhs):
                        x = num(rhs)
                        self.add_to(o, Store((), mapper(()), TRUE, x if isinstance(st.op, ast.Add) else Poly() - x))
                        return
        cur = self.ev(as_load(st.target), env)
        rhs = self.ev(st.value, env)
        if isinstance(cur, LList) and isinstance(st.op, ast.Add):
            kind, it = self.iter_spec(rhs)
            if kind != "conc":
                raise Undecided("extend")
            for x in it:
                self.append(cur, x)
            return
        if self.accum and isinstance(cur, Arr) and cur.flavour == "array" and cur.shape != () and isinstance(st.op, (ast.Add, ast.Sub)) and (
                self.frames and root_of(cur).home is not self.frames[-1]):
            term = self.elementwise(lambda x: num(x) if isinstance(st.op, ast.Add) else Poly() - num(x), rhs)
            term = term if isinstance(term, Arr) else self.to_arr(term)
            if self.bcast([cur.shape, term.shape]) != cur.shape:
                raise PyExc("ValueError", "in-place broadcast")
            for idx, vs, x in elements(cur.shape, lambda i: self.bget(term, i, cur.shape)):
                self.add_to(cur, Store(vs, idx, TRUE, x))
            return
        new = self.binop(type(st.op).__name__, cur, rhs)
        if isinstance(cur, Arr) and cur.flavour == "array" and cur.shape != ():
            if new.shape != cur.shape:
                raise PyExc("ValueError", "in-place broadcast")
            # in-place update of the array object
            for idx, vs, x in elements(cur.shape, lambda i: self.get(new, i)):
                self.store(cur, Store(vs, idx, TRUE, x))
            if isinstance(st.target, ast.Subscript):
                pass
            return
        self.assign(st.target, new, env)

    # ------------------------------------------------------------ loops
    def iter_spec(self, v):
        """('conc', items) or ('sym', vars, item)"""
        if isinstance(v, tuple):
            return "conc", list(v)
        if isinstance(v, LList):
            k, s = self.lstate(v)
            if k == "conc":
                return "conc", s
            d, x, t = s
            f = fresh(d)
            return "sym", ([f], vsubst(t, {x: f}))
        if isinstance(v, Arr):
            if not v.shape:
                raise PyExc("TypeError", "iteration over a 0-d array")
            d = v.shape[0]
            if isinstance(d, Several):
                raise Undecided("array with any number of axes")
            if isinstance(d, int):
                return "conc", [self.getitem(v, i) for i in range(d)]
            if isinstance(d, BDim):
                raise Undecided("loop over block extent")
            f = fresh(d)
            return "sym", ([f], self.getitem(v, counted(f)))
        if isinstance(v, Opaque) and v.tag == "range":
            lo, hi, stp = v.data
            if all(isinstance(x, int) for x in (lo, hi, stp)):
                return "conc", list(range(lo, hi, stp))
            if lo == 0 and stp == 1 and isinstance(hi, DimVal):
                f = fresh(hi.dim)
                return "sym", ([f], counted(f))
            if stp == 1 and is_scalar(lo) and is_scalar(hi) and not isinstance(lo, Ix) and not isinstance(hi, Ix):
                lo, hi = num(lo), num(hi)
                d = Dim(f"range({lo!r},{hi!r})")
                d.nonempty = False
                self.ctx.real.add("val")
                self.ctx.integer.add("val")
                self.ctx.bounds[d.name] = (lo, hi)
                f = fresh(d)
                return "sym", ([f], atom("val", f))
            raise Undecided("range with symbolic bounds")
        if isinstance(v, Opaque) and v.tag == "symiter":
            vs, item = v.data
            m = {x: fresh(x[2]) for x in vs}
            return "sym", ([m[x] for x in vs], vsubst(item, m))
        if isinstance(v, SDict):
            if v.entries:
                raise Undecided("iteration over symbolic dict")
            return "conc", list(v.conc)
        if isinstance(v, dict):
            return "conc", list(v)
        if isinstance(v, list):
            return "conc", list(v)
        if isinstance(v, TupKey):
            k, s = self.iter_spec(v.arr)
            sub = lambda x: TupKey(self.frozen(x, True)) if isinstance(x, Arr) else x
            return (k, [sub(x) for x in s]) if k == "conc" else (k, (s[0], sub(s[1])))
        if isinstance(v, Opaque) and v.tag == "set" and v.data[0] == "conc":
            return "conc", list(v.data[1])
        raise Undecided(f"iteration over {v!r}")

    def for_(self, st, env):
        outer, self.touched = self.touched, []
        try:
            kind, it = self.iter_spec(self.ev(st.iter, env))
        finally:
            touched, self.touched = self.touched, outer
        if outer is not None:
            outer += touched
        if kind == "conc":
            if self.conc_hook is not None and self.conc_hook(self, st, env, it):
                return
            broke = False
            watched = [(o, self.held(o)) for o in self.iterated(st.iter, env)]
            for x in it:
                self.assign(st.target, x, env)
                try:
                    self.exec_block(st.body, env)
                except Cnt:
                    pass
                except Brk:
                    broke = True
                    break
                if any(self.held(o) != w for o, w in watched):
                    raise Undecided("loop over a list it changes")
            if not broke:
                self.exec_block(st.orelse, env)
            return
        vs, item = it
        if self.loop_hook is not None and self.loop_hook(self, st, env, vs, item):
            return
        self.sym_loop(vs, lambda e: (self.assign(st.target, item, e), self.exec_block(st.body, e)), env, assigned_names(st), st.orelse,
                      touched)

    def iterated(self, e, env):
        """Lists and dictionaries a loop over expression e steps through."""
        if isinstance(e, ast.Name):
            o = self.lookup(env, e.id)
            return [o] if isinstance(o, (LList, SDict)) else []
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("enumerate", "zip", "reversed", "iter", "map", "filter"):
            return [o for a in e.args for o in self.iterated(a, env)]
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ("items", "keys", "values"):
            return self.iterated(e.func.value, env)
        return []

    def held(self, o):
        if isinstance(o, SDict):
            return list(o.conc), len(o.entries), sum(1 for fr in self.frames for e in fr.log if e[1] is o)
        return [id(x) for x in o.items or []], o.sym is None, sum(1 for fr in self.frames for e in fr.log if e[1] is o)

    def body_paths(self, body, env0):
        """Paths of one iteration: [(condition, outcome, frame, environment)]."""
        paths = []

        def run():
            fr = Frame()
            self.frames.append(fr)
            e = dict(env0)
            try:
                try:
                    body(e)
                    out = ("end",)
                except Cnt:
                    out = ("end",)
                except Brk:
                    out = ("brk",)
                except Ret as r:
                    out = ("ret", r.v)
                except PyExc as x:
                    out = ("exc", x)
            finally:
                self.frames.pop()
            return out, fr, e

        for facts, (tag, r) in self.explore(run):
            if tag != "end":
                raise Undecided("loop body")
            out, fr, e = r
            paths.append((mk_and(*facts), out, fr, e))
        return paths

    def sym_loop(self, vs, body, env, names, orelse=(), touched=()):
        """Summarise a loop whose body is body(env) for generic index vs."""
        outer_vals = {n: env[n] for n in names if n in env}
        carried = {}
        env0 = dict(env)
        for n, val in outer_vals.items():
            if isinstance(val, (int, float, complex, Poly)) and not isinstance(val, bool):
                a = f"carry{next(_cnt)}"
                carried[n] = a
                env0[n] = Poly.base(("A", a, (), 0))
                self.ctx.real.add(a) if not self.maybe_complex(val) else None
        nviol = len(self.violations)
        if not self.accum:                      # arrays updated in place at the same elements by all iterations: sums
            paths = self.body_paths(body, env0)
            try:
                self.check_reads(vs, paths)
            except Undecided:
                self.accum = True
                try:
                    return self.sym_loop(vs, body, env, names, orelse, touched)
                finally:
                    self.accum = False
        paths = self.body_paths(body, env0)
        kept = [n for n in outer_vals if n not in carried and any(self.changed(p[3], env0, n) for p in paths if p[1][0] == "end")]
        if kept:                                                # what an earlier iteration left in them is not known
            env0.update({n: Poison("variable updated in a loop") for n in kept})
            for n in kept:
                o = outer_vals[n]
                if isinstance(o, Arr) and o.flavour == "array" and o.shape and all(isinstance(d, (Dim, int)) for d in o.shape):
                    carried[n] = a = f"carry{next(_cnt)}"
                    env0[n] = mkarr(o.shape, lambda i, a=a: atom(a, *i))
                    env0[n].dtype = o.dtype
                    if all(is_real(self.ctx, num(x)) for _, _, x in elements(o.shape, lambda i: self.get(o, i))):
                        self.ctx.real.add(a)
            paths = self.body_paths(body, env0)
            if any(x[1] is env0[n] for p in paths for x in p[2].log for n in kept):
                raise Undecided("write to a loop-carried array")
            for p in paths:
                for n in kept:
                    if p[3].get(n) is not env0[n]:
                        self.given.setdefault(id(p[3]), (p[3], set()))[1].add(n)
                    elif p[1][0] == "end":
                        p[3][n] = outer_vals[n]
            env0.update({n: outer_vals[n] for n in kept})
        normal = [p for p in paths if p[1][0] == "end"]
        exits = [p for p in paths if p[1][0] != "end"]
        for p in paths:
            if self.mentions_carry(p[0], carried) or any(self.mentions_carry(y, carried) for x in p[2].log for y in self.parts_of(x[2])) or (
                    p[1][0] == "ret" and any(self.mentions_carry(y, carried) for y in self.parts_of(p[1][1]))):
                raise Undecided("use of a loop-carried value")
        for a, idx in touched:                                  # elements the loop runs over: read at the start of each iteration
            if len(vs) == 1:
                m = {v: vs[0] for v in vars_of(tuple(idx)) if v[2] == vs[0][2]}
                idx = tuple(any_subst(i, m) for i in idx)
            for _, _, fr, _ in paths:
                fr.reads.append((a, idx))
        self.check_reads(vs, paths)
        self.check_writes(vs, normal)
        if self.frames:
            for _, _, fr, _ in paths:
                self.frames[-1].reads += [r for r in fr.reads if r[0].home is not self.frames[-1]]
        effects = any(p[2].log for p in normal) or any(self.changed(p[3], env0, n) for p in normal for n in names)
        # exits
        first, exits = None, [p for p in exits if self.as_cond(p[0]).op != "false"]
        if len(exits) > 1 and not self.same_exit(vs, exits, env0, names):
            # several ways out with different effects: the one taken is that of the first element with any of them
            if len(vs) != 1:
                raise Undecided("several ways out of nested loops")
            anyc = mk_or(*[p[0] for p in exits])
            if not self.truth_once(ex_over(vs, anyc)):
                exits = []
            else:
                first = {vs[0]: self.choice(anyc, vs[0])}
        for k, (cond, out, fr, e) in enumerate(exits):
            ex = ex_over(vs, cond) if first is None else cond.subst(first)
            if (first is not None and k == len(exits) - 1) or self.truth_once(ex):
                m = dict(first or {})                           # index of the exit
                c0 = ctx_simplify_cond(self.ctx, cond)
                for v in vs if first is None else ():
                    r = one_point(v, c0)
                    if r is not None and not any(occ(w, r[0]) for w in vs):
                        m[v], c0 = r
                    else:
                        m[v] = self.choice(c0 if v is vs[-1] else ex_over([w for w in vs if w is not v and w not in m], c0), v)
                        c0 = c0.subst({v: m[v]})
                for v in vs:
                    m[v] = any_subst(m[v], m)
                for o in {id(x[1]): x[1] for p in normal for x in p[2].log}.values():
                    self.poison(o, "modified in earlier iterations of a loop left early")
                for x in fr.log:
                    self.replay(x, m)
                if out[0] == "ret":
                    raise Ret(vsubst(self.frozen(out[1]), m))
                for n in names:
                    if n not in e and any(n in p[3] for p in normal):
                        env[n] = Poison("variable assigned in earlier iterations of a loop left early")
                    if n in e:
                        if n in carried and e[n] == env0[n]:
                            env[n] = outer_vals[n] if not any(self.changed(p[3], env0, n) for p in normal) else Poison("loop-carried value")
                        elif self.mentions_carry(e[n], carried):
                            env[n] = Poison("loop-carried value")
                        else:
                            env[n] = e[n] if isinstance(e[n], Poison) else vsubst(self.frozen(e[n]), m)
                if out[0] == "exc":
                    raise out[1]
                return  # break: orelse skipped
        # no exit happens: facts  all v: not cond
        if not normal:
            raise Undecided("loop body always leaves")
        # effects of normal paths
        self.apply_normal(vs, normal, env, env0, names, carried, outer_vals, len(exits) > 0)
        self.exec_block(orelse, env)

    def same_exit(self, vs, exits, env0, names):
        """Whether all ways out of a loop have the same effect, the same at every index."""
        def effect(p):
            _, out, fr, e = p
            if fr.log or out[0] == "brk" and any(self.changed(e, env0, n) for n in names):
                return None
            if out[0] == "exc":
                return ("exc", out[1].etype)
            if out[0] == "ret" and not (isinstance(out[1], (bool, int, str, Cond)) or out[1] is None or isinstance(out[1], Poly)):
                return None
            r = out[1] if out[0] == "ret" else None
            return None if isinstance(r, (Cond, Poly)) and any(occ(v, r) for v in vs) else (out[0], repr(r))
        es = {effect(p) for p in exits}
        return len(es) == 1 and None not in es

    def truth_once(self, c):
        return self.truth(c)

    def choice(self, e, v):
        """f(free variables): the first index satisfying e(v).  Its defining axiom  ex v e(v) -> e(f)  is instantiated by the
        solver translation wherever the term occurs."""
        e = ctx_simplify_cond(self.ctx, e).subst({v: ("v", "@first", v[2])})
        r = repr(e)
        fv = sorted([x for x in vars_of(e) if x[1] != "@first"], key=lambda x: (r.find(x[1]), x[1]))
        pat = e.subst({x: ("v", f"?{n}", x[2]) for n, x in enumerate(fv)})
        n = self.choice_ids.setdefault((pat, v[2]), len(self.choice_ids))
        self.choice_defs[f"first{n}"] = (tuple(fv), ("v", "@first", v[2]), e)
        return ("f", f"first{n}", tuple(fv), v[2])

    def maybe_complex(self, v):
        return isinstance(v, complex) or (isinstance(v, Poly) and not is_real(self.ctx, v))

    def frozen(self, v, value=False):
        """Materialise views so that substitution is possible; the copy remembers what it views unless only its value counts."""
        if isinstance(v, Arr) and v.base is not None:
            r = self.copy(v)
            return r if value else self.may_view(r, v)
        if isinstance(v, tuple):
            return tuple(self.frozen(x, value) for x in v)
        if isinstance(v, TupKey):
            return TupKey(self.frozen(v.arr, True))
        if isinstance(v, LList) and v.sym is None:
            if any(isinstance(x, Arr) and x.base is not None or isinstance(x, (LList, tuple)) for x in v.items):
                r = LList(items=[self.frozen(x, value) for x in v.items])
                r.home, r.elem = v.home, True
                return r
        return v

    def kinded(self, a, kind):
        a.dtype = kind
        return a

    def copy(self, a):
        b = self.mk(a.shape, lambda i: self.get(a, i), a.flavour, a.dtype)
        return b

    def poison(self, o, why):
        self.log(o, ("poison", o, why), lambda: self._poison(o, why))

    def _poison(self, o, why):
        if isinstance(o, LList):
            o.poison = why
        elif isinstance(o, Arr):
            o.stores = []
        elif isinstance(o, SDict):
            o.complete = False
            o.entries = []
            o.conc = {"__poison__": why}

    def changed(self, e, env0, n):
        if id(e) in self.given and n in self.given[id(e)][1]:
            return True             # given a value, if only the one it had
        return n in e and not (n in env0 and e[n] is env0[n])

    def mentions_carry(self, v, carried):
        s = repr(v) if isinstance(v, (Poly, Cond)) else (repr([x.val for x in v.stores]) if isinstance(v, Arr) else "")
        return any(a in s for a in carried.values())

    def parts_of(self, v):
        """The polynomials, conditions and arrays in the value of an effect."""
        if isinstance(v, Store):
            return [z for z in (v.val, v.guard) for z in self.parts_of(z)]
        if isinstance(v, Arr):
            return [self.frozen(v)]
        if isinstance(v, LList):
            return self.parts_of(tuple(v.items) if v.sym is None else v.sym[2])
        if isinstance(v, TupKey):
            return self.parts_of(v.arr)
        if isinstance(v, (tuple, list)):
            return [z for y in v for z in self.parts_of(y)]
        return [v] if isinstance(v, (Poly, Cond)) else []

    def check_reads(self, vs, paths):
        """Objects read in the pre-loop state must not be written by other iterations at the place read."""
        writes = {}
        for _, out, fr, _ in paths:
            if out[0] != "end":
                continue            # the last iteration: no other one reads after it
            for x in fr.log:
                writes.setdefault(id(x[1]), []).append(x)
        for _, _, fr, _ in paths:
            for a, idx in fr.reads:
                for x in writes.get(id(a), ()):
                    if x[0] == "listset" and idx is not None and len(vs) == 1 and idx == vs[0] == x[2].t:
                        continue
                    if x[0] != "store" or idx is None:
                        if isinstance(a, LList) or isinstance(a, SDict):
                            raise Undecided("loop reads a container it modifies")
                        raise Undecided("loop reads what it writes")
                    keys = x[2].keys
                    ok = all(any(keys[n] == v and idx[n] == v for n in range(len(keys))) for v in vs)
                    if not ok and not self.accumulation(a, x[2], idx, vs):
                        raise Undecided("loop reads elements other iterations may write")

    def check_writes(self, vs, normal):
        """Different writes of a loop must not meet at one element in different iterations: the later iteration would win."""
        writes = {}
        kinds = {(id(x[1]), x[0] == "accum") for _, _, fr, _ in normal for x in fr.log}
        if any((i, not k) in kinds for i, k in kinds):
            raise Undecided("sums and other writes of one array in a loop")
        for _, _, fr, _ in normal:
            for x in fr.log:
                if x[0] in ("store", "dictset"):
                    ks = writes.setdefault(id(x[1]), [])
                    k = (x[2].keys, frozenset(x[2].bvars))
                    if k not in ks:
                        ks.append(k)
        for ks in writes.values():
            for (k1, b1), (k2, b2) in itertools.combinations(ks, 2):
                if len(k1) != len(k2) or not all(self.apart(k1, b1, k2, b2, v, vs) for v in vs):
                    raise Undecided("different writes of a loop may meet at one element")

    def apart(self, k1, b1, k2, b2, v, vs):
        """Two writes in iterations that differ in v never meet, or are in the same place whatever v is."""
        if any(x == v and y == v for x, y in zip(k1, k2)):
            return True
        if all(x == y or x in b1 and y in b2 for x, y in zip(k1, k2)) and not any(occ(v, x) for x in k1):
            return True
        m = {w: fresh(w[2]) for w in vs}
        c = []
        for x, y in zip(k1, k2):
            if x in b1 or y in b2 or any(occ(w, x) for w in b1) or any(occ(w, y) for w in b2):
                if isinstance(x, tuple) and isinstance(y, tuple) and x[0] == y[0] == "b" and x[1] != y[1]:
                    return True
                continue
            c.append(mk_eqi(x, any_subst(y, m)))
        return self.decide(mk_and(*c, mk_not(mk_eqi(v, m[v])))) is False

    def accumulation(self, a, st, idx, vs):
        return False

    def replay(self, x, m):
        if x[0] == "store":
            s = x[2]
            self.store(x[1], sub_store(s, m))
        elif x[0] == "accum":
            self.add_to(x[1], sub_store(x[2], m))
        elif x[0] == "append":
            l = x[1]
            if l.sym is not None:           # element of a symbolic list: the one of the iteration left
                l = LList(sym=tuple(vsubst(y, m) if n == 2 else y for n, y in enumerate(l.sym)))
            self.append(l, vsubst(self.frozen(x[2]), m))
        elif x[0] == "dictset":
            self.dict_set_entry(x[1], sub_store(x[2], m))
        elif x[0] == "poison":
            self.poison(x[1], x[2])
        else:
            raise Undecided("effect")

    def apply_normal(self, vs, normal, env, env0, names, carried, outer_vals, has_exits):
        ctx = self.ctx
        # stores
        for cond, out, fr, e in normal:
            for x in fr.log:
                if x[0] == "store":
                    s = x[2]
                    if any(a in repr(s.val) + repr(s.guard) for a in carried.values()):
                        raise Undecided("store of a loop-carried value")
                    self.store(x[1], Store(tuple(vs) + s.bvars, s.keys, mk_and(cond, s.guard), s.val))
                elif x[0] == "accum":
                    s = x[2]
                    self.add_to(x[1], Store(tuple(vs) + s.bvars, s.keys, mk_and(cond, s.guard), s.val))
                elif x[0] == "dictset":
                    s = x[2]
                    self.dict_set_entry(x[1], Store(tuple(vs) + s.bvars, s.keys, mk_and(cond, s.guard), self.frozen(s.val)))
        # appends
        lists, sets = {}, {}
        for n, (cond, out, fr, e) in enumerate(normal):
            for x in fr.log:
                if x[0] == "append":
                    lists.setdefault(id(x[1]), (x[1], {}))[1].setdefault(n, []).append(self.frozen(x[2]))
                elif x[0] == "listset":
                    sets.setdefault(id(x[1]), (x[1], {}))[1].setdefault(n, []).append((x[2], self.frozen(x[3])))
                elif x[0] not in ("store", "dictset", "accum"):
                    raise Undecided("loop effect")
        for l, per in sets.values():
            self.items_set(l, per, vs, normal, carried, has_exits, id(l) in lists)
        for l, per in lists.values():
            if len(vs) != 1 and True:
                dim = PDim([v[2] for v in vs]) if len(vs) > 1 else vs[0][2]
            else:
                dim = vs[0][2]
            if any(len(x) != 1 for x in per.values()):
                raise Undecided("several appends per iteration")
            if l.sym is not None or l.items:
                raise Undecided("append to a non-empty list")
            app = [n for n in range(len(normal)) if n in per]
            conds = [normal[n][0] for n in app]
            val = per[app[-1]][0]
            for n in reversed(app[:-1]):
                val = self.ite(normal[n][0], per[n][0], val)
            if len(vs) > 1:
                raise Undecided("append in a loop over a product")
            v = vs[0]
            if len(app) == len(normal):
                sym = (dim, v, val)
            else:
                c = mk_or(*conds)
                sub = self.filtered(dim, v, c)
                w = fresh(sub, "f")
                sym = (sub, w, vsubst(val, {v: w}))
            self.log(l, ("setsym", l, sym), lambda: self._setsym(l, sym))
        # scalars
        for n in names:
            ch = [p for p in normal if self.changed(p[3], env0, n)]
            if not ch:
                continue
            if n not in outer_vals:
                vals = [p[3][n] for p in ch]
                env[n] = Poison("variable assigned in a loop")
                continue
            if n in carried and isinstance(outer_vals[n], Arr):
                env[n] = self.summed_array(vs, normal, n, carried, outer_vals[n]) if not has_exits else None
                if env[n] is None:
                    env[n] = Poison("variable updated in a loop")
                continue
            if n in carried:
                cp = Poly.base(("A", carried[n], (), 0))
                tot = num(outer_vals[n])
                ok = True
                inc_sum = Poly()
                for p in normal:
                    new = p[3][n]
                    if not is_scalar(new) or isinstance(new, (Ix, Cond)):
                        ok = False
                        break
                    inc = num(new) - cp
                    if any(a in repr(inc) or a in repr(p[0]) for a in carried.values()):
                        ok = False
                        break
                    inc_sum = inc_sum + self.condpoly(p[0]) * inc if p[0].op != "true" else inc_sum + inc
                if ok and not has_exits:
                    for v in vs:
                        inc_sum = inc_sum.sum(v)
                    env[n] = tot + inc_sum
                    continue
            # flag: assigned a loop-independent value on some paths
            vals = []
            for p in ch:
                vals.append(p[3][n])
            const = all(isinstance(x, (bool, int, str)) or x is None for x in vals) and len({repr(x) for x in vals}) == 1
            if const and n not in [k for k in carried if k == n and False]:
                c = mk_or(*[p[0] for p in ch])
                if carried.get(n) and any(carried[n] in repr(p[0]) for p in normal):
                    env[n] = Poison("loop-carried flag")
                    continue
                if self.reads_name_in_cond(n):
                    env[n] = Poison("loop-carried flag")
                    continue
                for v in vs:
                    c = mk_ex(v, c)
                if self.truth(c):
                    env[n] = vals[0]
                continue
            env[n] = Poison("variable updated in a loop")
        if has_exits:
            pass

    def summed_array(self, vs, normal, n, carried, old):
        """Value of a name to which every iteration binds its last value plus something, None if it is none of that kind."""
        def total(idx):
            tot = Poly()
            for p in normal:
                new = p[3][n]
                if new is old:
                    continue
                inc = normalise(self.ctx, num(self.get(new, idx)) - atom(carried[n], *idx))
                if any(a in repr(inc) or a in repr(p[0]) for a in carried.values()):
                    raise Undecided("loop-carried array")
                tot = tot + (inc if p[0].op == "true" else self.condpoly(p[0]) * inc)
            for v in vs:
                tot = tot.sum(v)
            return normalise(self.ctx, num(self.get(old, idx)) + tot)
        if any(not isinstance(p[3].get(n), Arr) or p[3][n].shape != old.shape or p[3][n].flavour != "array" for p in normal):
            return None
        try:
            return self.mk(old.shape, total)
        except Undecided:
            return None

    def reads_name_in_cond(self, n):
        return False

    def items_set(self, l, per, vs, normal, carried, has_exits, appended):
        """out[i] = X in a loop over i: element i becomes X on the paths that assign it."""
        if appended or has_exits or len(vs) != 1 or l.sym is None or l.poison or l.cat:
            raise Undecided("list assignment")
        v, (dim, w, old) = vs[0], l.sym
        if dim is not v[2] or any(len(x) != 1 or not isinstance(x[0][0], Ix) or x[0][0].t != v for x in per.values()):
            raise Undecided("list assignment")
        if any(a in repr(x[0][1]) for x in per.values() for a in carried.values()):
            raise Undecided("assignment of a loop-carried value")
        val = None
        for n in reversed(range(len(normal))):
            x = per[n][0][1] if n in per else vsubst(old, {w: v})
            val = x if n == len(normal) - 1 else self.ite(normal[n][0], x, val)
        self.log(l, ("setsym", l, (dim, v, val)), lambda: self._setsym(l, (dim, v, val)))

    def _setsym(self, l, sym):
        l.items, l.sym = None, sym

    def filtered(self, dim, v, c):
        """Extent of the indices of dim satisfying c (canonical per condition)."""
        key = (dim, c.subst({v: ("v", "$", v[2])}))
        reg = self.__dict__.setdefault("_filt", {})
        if key not in reg:
            d = Dim(f"{dim}|{len(reg)}", group=dim.group if isinstance(dim, Dim) and dim.group else f"sub:{dim}")
            d.sub = True
            d.parent = dim
            d.nonempty = False
            d.cond = lambda i, c=c, v=v: c.subst({v: i})
            reg[key] = d
        return reg[key]

    def while_(self, st, env):
        h = self.contracts.get("__while__")
        if h is not None:
            return h(self, st, env)
        n = 0
        while True:
            c = self.ev(st.test, env)
            if isinstance(c, Cond):
                r = self.decide(c)
                c = c if r is None else r
            if not (isinstance(c, (bool, int)) or (isinstance(c, Cond) and c.op in ("true", "false"))):
                raise Undecided("while loop with a symbolic condition")
            if not self.truth(c):
                return
            try:
                self.exec_block(st.body, env)
            except Brk:
                return
            except Cnt:
                pass
            n += 1
            if n > 1000:
                raise Undecided("while loop bound")

    # ------------------------------------------------------------ dicts
    def dict_set_entry(self, d, s):
        self.log(d, ("dictset", d, s), lambda: d.entries.append(s))

    def dict_set(self, d, k, v):
        if isinstance(k, Ix):
            self.same_sort(d, k)
            self.dict_set_entry(d, Store((), (k.t,), TRUE, v))
        elif isinstance(k, (int, str, tuple)) and not self.frames_outer(d):
            d.conc[k] = v
        else:
            raise Undecided("dict key")

    def same_sort(self, d, k):
        """Keys of one dictionary are all elements or all positions in the same part."""
        if d.sort is None:
            d.sort = (k.pos,)
        elif d.sort != (k.pos,):
            raise Undecided("positions and elements as keys of one dictionary")

    def placed(self, d, k):
        """Lists and arrays over a part of a group are indexed by positions in it, others by elements."""
        if isinstance(k, Ix) and not isinstance(k.t, int) and k.pos != (d if getattr(d, "sub", False) else None):
            raise Undecided("index of an element used as a position" if k.pos is None else "position used as an index of an element")

    def frames_outer(self, d):
        return bool(self.frames) and d.home is not self.frames[-1]

    def dict_get(self, d, k):
        if "__poison__" in d.conc:
            raise Undecided("dict " + d.conc["__poison__"])
        if isinstance(k, Ix):
            self.same_sort(d, k)
            ent = list(d.entries)
            for fr in self.frames:
                ent += [e[2] for e in fr.log if e[0] == "dictset" and e[1] is d]
                if any(e[0] == "poison" and e[1] is d for e in fr.log):
                    raise Undecided("dictionary modified in a loop left early")
            if self.frames and d.home is not self.frames[-1]:
                self.frames[-1].reads.append((d, None))
            rest = []
            for s in reversed(ent):
                m, cond = self.match(s, (k.t,))
                if m is None:
                    continue
                if self.truth(mk_and(cond, s.guard.subst(m))):
                    if any(v not in m for v in s.bvars):
                        raise Undecided("ambiguous dict entry")
                    return vsubst(s.val, m)
            raise PyExc("KeyError")
        if isinstance(k, (int, str)) or (isinstance(k, tuple)):
            if d.entries:
                raise Undecided("dict lookup")
            if k in d.conc:
                return d.conc[k]
            raise PyExc("KeyError")
        raise Undecided("dict key")

    from numpy_model import (ev, ev_index, call, call_func, getitem, setitem, binop, compare, unary, bcast, method, attr, np_call,
                             builtin_call, contains, comp, matmul, einsum, elementwise, to_arr, equal_values, reduce_sum, flat_shape,
                             reshape, list_index, fancy, quant, call_value, bget)



def root_of(a):
    while a.base is not None or a.alias is not None:
        a = a.base if a.base is not None else a.alias[0]
    return a


def region_of(o):
    """Generic index tuples of the root array covered by the view o; None: all of it."""
    try:
        out = [idx for idx, vs in patterns(o.shape)]
        while o.base is not None or o.alias is not None:
            if o.base is None:
                return None
            out = [tuple(o.imap(i)) for i in out]
            o = o.base
        return out
    except (Undecided, GenericIndex):
        return None


def overlap(r, s):
    """May two sets of generic index tuples have an element in common?"""
    return r is None or s is None or any(all(not (isinstance(x, int) and isinstance(y, int) and x != y) for x, y in zip(i, j)) for i in r for j in s)


def ex_over(vs, c):
    for v in reversed(list(vs)):
        c = mk_ex(v, c)
    return c


def as_load(t):
    t2 = ast.copy_location(ast.parse(ast.unparse(t), mode="eval").body, t)
    return t2


def assigned_names(st):
    out = set()
    for n in ast.walk(st):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        elif isinstance(n, ast.FunctionDef):
            out.add(n.name)
    return sorted(out)


def vars_of_val(v):
    if isinstance(v, (Poly, Cond)):
        return vars_of(v)
    if isinstance(v, Ix):
        return vars_of(v.t)
    return set()


class Z3:
    """Translation of conditions; polynomials become linear terms over uninterpreted monomials."""

    def __init__(self, ip):
        self.ip = ip
        self.side = []
        self.mono = {}
        self.atoms = {}
        self.quants = {}
        self.new = []            # formulas not yet given to the solver
        self.cand = set()
        self.inst = set()
        self.expanded = False
        self.memo = {}
        self.nside = 0
        self.solver = z3.Solver()
        self.solver.set("timeout", 2000)
        self.solver.set("random_seed", 0)
        for f in ip.facts:
            self.cand |= index_terms(f)
        for f in ip.facts:
            self.new.append(self.cond(f))
        self.base_quants = set(self.quants)

    def flush(self):
        self.solver.add(*self.new)
        self.new = []
        self.solver.add(*self.side[self.nside:])
        self.nside = len(self.side)

    def decide(self, c):
        g = self.cond(c)
        roots = set(self.base_quants) | quants_of(c)
        self.flush()
        for rnd in range(2):
            extra = []
            if rnd == 1:
                if not self.base_quants and not quants_of(c) and not self.ip.choice_defs and not getattr(self.ip, "_filt", None):
                    return None
                if not self.expanded:
                    self.expanded = True
                    self.new += self.instances(self.cand, self.base_quants, set())
                extra = self.instances(self.cand | index_terms(c), roots, set(self.inst))
                self.flush()
            for goal, val in ((z3.Not(g), True), (g, False)):
                self.ip.nz3 += 1
                self.solver.push()
                self.solver.add(*extra)
                self.solver.add(goal)
                r = self.solver.check()
                self.solver.pop()
                if r == z3.unsat:
                    return val
        return None

    def instances(self, cand, roots, seen):
        """Instances of the quantified atoms at the index terms that occur, and witnesses of the negations of the given ones."""
        out = []
        base = not seen
        ctx = self.ip.ctx
        cand = sorted(cand, key=skey)
        for t in cand:
            if t[0] == "v" and getattr(t[2], "cond", None) is not None and ("member", t) not in seen:
                seen.add(("member", t))
                out.append(self.cond(ctx_simplify_cond(ctx, t[2].cond(t))))
        for t in cand:
            if t[0] == "f" and t[1] in self.ip.choice_defs and ("choice", t) not in seen:
                seen.add(("choice", t))
                fv, v, e = self.ip.choice_defs[t[1]]
                e = e.subst(dict(zip(fv, t[2])))
                ex = ctx_simplify_cond(ctx, mk_ex(v, e))
                inst = ctx_simplify_cond(ctx, e.subst({v: t}))
                roots = roots | quants_of(ex)
                out.append(z3.Implies(self.cond(ex), self.cond(inst)))
        todo = set(roots)
        for level in range(3):
            nxt = set()
            for q in sorted(todo, key=skey):
                b, v = self.cond(q), q.args[0]
                for t in cand:
                    if (q, t) in seen:
                        continue
                    seen.add((q, t))
                    try:
                        if self.ip.fits(v[2], t) is not True:
                            continue
                    except Undecided:
                        continue
                    c = ctx_simplify_cond(ctx, q.args[1].subst({v: t}))
                    nxt |= quants_of(c)
                    out.append(z3.Implies(b, self.cond(c)))
                if level == 0 and (q, "sk") not in seen:
                    seen.add((q, "sk"))
                    sk = ("v", f"sk{next(_cnt)}", v[2])
                    out.append(z3.Implies(z3.Not(b), z3.Not(self.cond(ctx_simplify_cond(ctx, q.args[1].subst({v: sk}))))))
            todo = nxt
            if not todo or len(out) > 600:
                break
        if base:
            self.inst = seen
        return out

    def cond(self, c):
        op = c.op
        if op == "true":
            return z3.BoolVal(True)
        if op == "false":
            return z3.BoolVal(False)
        if op == "and":
            return z3.And(*[self.cond(a) for a in c.args])
        if op == "not":
            return z3.Not(self.cond(c.args[0]))
        if op in ("le", "lt", "eq"):
            p = normalise(self.ip.ctx, c.args[0] - c.args[1])
            re, im = self.lin(p)
            if op == "le":
                return re <= 0
            if op == "lt":
                return re < 0
            return z3.And(re == 0, im == 0)
        key = ("atom", c)
        if op == "all" and key not in self.atoms:
            self.quants[c] = self.atoms[key] = z3.Bool(f"b{len(self.atoms)}")
        if key not in self.atoms:
            self.atoms[key] = z3.Bool(f"b{len(self.atoms)}")
        return self.atoms[key]

    def lin(self, p):
        re, im = z3.RealVal(0), z3.RealVal(0)
        for (b, fs), c in p.items():
            m = self.monomial(b, fs)
            if c.re:
                re = re + z3.RealVal(str(c.re)) * m[0]
                if m[1] is not None:
                    im = im + z3.RealVal(str(c.re)) * m[1]
            if c.im:
                im = im + z3.RealVal(str(c.im)) * m[0]
                if m[1] is not None:
                    re = re - z3.RealVal(str(c.im)) * m[1]
        return re, im

    def monomial(self, b, fs):
        if not b and not fs:
            return z3.RealVal(1), None
        k = (b, fs)
        if k in self.mono:
            return self.mono[k]
        n = len(self.mono)
        isreal = is_real(self.ip.ctx, Poly({k: CQ(1)}))
        r = z3.Real(f"m{n}")
        i = None if isreal else z3.Real(f"i{n}")
        self.mono[k] = (r, i)
        if not b and len(fs) == 1 and fs[0][1] == 1:
            f = fs[0][0]
            if f[0] == "A" and f[1].startswith("#"):
                self.side.append(r >= 1)
            if f[0] == "F" and f[1] == "rint":
                x, _ = self.lin(f[2][0])
                q = z3.Int(f"q{n}")
                self.side += [r == z3.ToReal(q), r - x <= z3.RealVal("1/2"), x - r <= z3.RealVal("1/2")]
            if f[0] == "F" and f[1] == "abs":
                x, xi = self.lin(f[2][0])
                self.side.append(r >= 0)
                if f[2][0].is_const() or is_real(self.ip.ctx, f[2][0]):
                    self.side.append(r == z3.If(x >= 0, x, -x))
            if f[0] == "A" and f[1] == "val" and f[2][0][0] == "v" and f[2][0][2].name in self.ip.ctx.bounds:
                lo, hi = self.ip.ctx.bounds[f[2][0][2].name]
                self.side += [self.lin(lo)[0] <= r, r < self.lin(hi)[0]]
            if f[0] == "A" and f[1] in self.ip.ctx.integer:
                q = z3.Int(f"q{n}")
                self.side.append(r == z3.ToReal(q))
            if f[0] == "I":
                bv = self.cond(f[1])
                self.side.append(r == z3.If(bv, z3.RealVal(1), z3.RealVal(0)))
            if f[0] == "A" and f[1] in getattr(self.ip.ctx, "positive", ()):
                self.side.append(r > 0)
        return self.mono[k]


def quants_of(c, acc=None):
    """Outermost quantified subformulas."""
    if acc is None:
        acc = set()
    if c.op == "all":
        acc.add(c)
    elif c.op in ("and", "not"):
        for a in c.args:
            quants_of(a, acc)
    return acc


def index_terms(c, acc=None):
    if acc is None:
        acc = set()
    if isinstance(c, Cond):
        if c.op in ("all", "ex"):
            sub = set()
            index_terms(c.args[1], sub)
            acc |= {t for t in sub if not occ(c.args[0], t)}
        else:
            for a in c.args:
                index_terms(a, acc)
    elif isinstance(c, Poly):
        for (b, fs), _ in c.items():
            for f, p in fs:
                sub = set()
                index_terms(f, sub)
                acc |= {t for t in sub if not any(occ(v, t) for v in b)}
    elif isinstance(c, tuple):
        if len(c) > 1 and c[0] in ("v", "w", "f") and not (c[0] == "f" and len(c) != 4):
            acc.add(c)
            if c[0] == "f":
                for a in c[2]:
                    index_terms(a, acc)
        else:
            for a in c:
                index_terms(a, acc)
    return acc
