"""Exact term algebra: indexed tensor-network polynomials with phases.

A Poly is a finite sum of monomials.  A monomial is

    coef * SUM over bound indices of  PRODUCT of factors base**pow

with coef a Gaussian rational and bases one of
    ('A', name, idxs, conj)          array element / scalar atom
    ('D', i, j)                      Kronecker delta
    ('E', poly_key)                  exp(2 pi i poly)           (pow is always 1)
    ('F', fname, poly_keys, conj)    opaque function of polys (real unless declared)
    ('I', cond)                      0/1 indicator of a condition
    ('phi', rep, word)               potential of a cocycle (unimodular unless declared)

Index terms are ints or tuples
    ('v', name, dim)  variable      ('w', group, ((letter, +-1), ...)) word in a group
    ('f', fname, args, dim)         ('b', c, idx) block index       ('p', (i, j)) pair index
"""
from __future__ import annotations

import itertools
from fractions import Fraction as Fr


class Undecided(Exception):
    """The engine cannot handle the construct: never a verdict about the code."""


class GenericIndex(Undecided):
    """A generic index over a literal extent does not do: use the single indices."""


# ---------------------------------------------------------------- dims and indices
class Dim:
    """Symbolic extent. group: name of the group whose elements index this dim."""

    _reg: dict = {}

    def __init__(self, name, group=None):
        self.name, self.group = name, group
        Dim._reg[name] = self

    def __repr__(self):
        return self.name

    def __eq__(self, o):
        return isinstance(o, Dim) and o.name == self.name

    def __hash__(self):
        return hash(("Dim", self.name))


class Several(Dim):
    """The extent of several axes (one or more) taken together.  Only the array as a whole, its first axes, einsum with an ellipsis
    for these axes and the functions that take the axes one after another (numpy_model.cells) know what to do with one; rank: how
    many there are; flat: the extent of the array flattened over them; same: they are of the same length."""

    def __init__(self, name, rank=None, same=True):
        super().__init__(name)
        self.rank, self.same = rank, same
        self.flat = Dim(name + " flattened")
        self.flat.axes = self


class Ones(Several):
    """Several axes of extent one."""

    def __init__(self, rank):
        super().__init__(f"ones({rank!r})", rank)


class BDim:
    """c * dim, indexed by blocks."""

    def __init__(self, c, base):
        self.c, self.base = c, base

    def __eq__(self, o):
        return isinstance(o, BDim) and (o.c, o.base) == (self.c, self.base)

    def __hash__(self):
        return hash(("BDim", self.c, self.base))

    def __repr__(self):
        return f"{self.c}*{self.base}"


class PDim:
    """product of extents (C order), indexed by pairs."""

    def __init__(self, parts):
        self.parts = tuple(parts)

    def __eq__(self, o):
        return isinstance(o, PDim) and o.parts == self.parts

    def __hash__(self):
        return hash(("PDim", self.parts))

    def __repr__(self):
        return "*".join(map(str, self.parts))


_cnt = itertools.count()


def var(name, dim):
    return ("v", name, dim)


def fresh(dim, hint="i"):
    """A fresh index over extent dim (block / pair indices get structured generic indices)."""
    if isinstance(dim, PDim):
        return ("p", tuple(fresh(d, hint) for d in dim.parts))
    if isinstance(dim, BDim):
        raise Undecided("generic index over block extent")
    return ("v", f"{hint}{next(_cnt)}", dim)


def is_index(x):
    return isinstance(x, int) or (isinstance(x, tuple) and len(x) > 1 and x[0] in ("v", "w", "f", "b", "p"))


def idx_dim(i):
    if isinstance(i, int):
        return None
    if i[0] == "v":
        return i[2]
    if i[0] == "w":
        return ("group", i[1])
    if i[0] == "f":
        return i[3]
    return None


def idx_group(i):
    if isinstance(i, tuple):
        if i[0] == "w":
            return i[1]
        if i[0] == "v" and isinstance(i[2], Dim):
            return i[2].group
        if i[0] == "f" and isinstance(i[3], Dim):
            return i[3].group
    return None


def word(i):
    if i[0] == "w":
        return list(i[2])
    return [(i, 1)]


ORDERS = {}      # letter -> order (relation letter^order = 1 of the contract under verification)


def mkword(g, letters):
    out = []
    for l, s in letters:
        p = ORDERS.get(l)
        for s in ([s] if p is None else [1] * (s % p)):
            if out and out[-1][0] == l and out[-1][1] == -s:
                out.pop()
            elif p is not None and len(out) >= p - 1 and all(x == (l, 1) for x in out[len(out) - p + 1:]):
                del out[len(out) - p + 1:]
            else:
                out.append((l, s))
    if len(out) == 1 and out[0][1] == 1:
        return out[0][0]
    return ("w", g, tuple(out))


def gmul(*xs):
    g = None
    letters = []
    for x in xs:
        g = g or idx_group(x)
        letters += word(x)
    return mkword(g, letters)


def ginv(x):
    return mkword(idx_group(x), [(l, -s) for l, s in reversed(word(x))])


def gone(g):
    return ("w", g, ())


def idx_subst(i, m):
    """Substitute variables by m (dict var->index)."""
    if isinstance(i, int):
        return i
    if i in m:
        return m[i]
    t = i[0]
    if t == "v":
        return i
    if t == "w":
        out = []
        for l, s in i[2]:
            l2 = idx_subst(l, m)
            ws = word(l2) if not isinstance(l2, int) else None
            if ws is None:
                raise Undecided("int in word")
            out += ws if s == 1 else [(a, -b) for a, b in reversed(ws)]
        return mkword(i[1], out)
    if t == "f":
        return ("f", i[1], tuple(any_subst(a, m) for a in i[2]), i[3])
    if t == "b":
        return ("b", i[1], idx_subst(i[2], m))
    if t == "p":
        return ("p", tuple(idx_subst(a, m) for a in i[1]))
    raise Undecided(f"index {i}")


def any_subst(x, m):
    if isinstance(x, Poly):
        return x.subst(m)
    if isinstance(x, Cond):
        return x.subst(m)
    if is_index(x):
        return idx_subst(x, m)
    if isinstance(x, tuple):
        return tuple(any_subst(a, m) for a in x)
    return x


def vars_of(x, acc=None):
    if acc is None:
        acc = set()
    if isinstance(x, Poly):
        for (b, fs), _ in x.items():
            sub = set()
            for f, _p in fs:
                vars_of(f, sub)
            acc |= sub - set(b)
    elif isinstance(x, Cond):
        sub = set()
        for a in x.args:
            vars_of(a, sub)
        if x.op in ("all", "ex"):
            sub.discard(x.args[0])
        acc |= sub
    elif isinstance(x, tuple):
        if len(x) == 3 and x[0] == "v":
            acc.add(x)
        else:
            for a in x:
                vars_of(a, acc)
    elif isinstance(x, (list, frozenset, set)):
        for a in x:
            vars_of(a, acc)
    return acc


# ---------------------------------------------------------------- coefficients
class CQ:
    __slots__ = ("re", "im")

    def __init__(self, re=0, im=0):
        self.re, self.im = Fr(re), Fr(im)

    def __add__(self, o):
        return CQ(self.re + o.re, self.im + o.im)

    def __mul__(self, o):
        return CQ(self.re * o.re - self.im * o.im, self.re * o.im + self.im * o.re)

    def inv(self):
        n = self.re * self.re + self.im * self.im
        return CQ(self.re / n, -self.im / n)

    def conj(self):
        return CQ(self.re, -self.im)

    def __bool__(self):
        return bool(self.re or self.im)

    def __eq__(self, o):
        return self.re == o.re and self.im == o.im

    def __hash__(self):
        return hash((self.re, self.im))

    def __repr__(self):
        if not self.im:
            return str(self.re)
        if not self.re:
            return f"{self.im}i"
        return f"({self.re}+{self.im}i)"


def skey(x):
    """Deterministic sort key."""
    return repr(x)


# ---------------------------------------------------------------- polynomials
class Poly:
    __slots__ = ("d", "_h", "_r", "_b")

    def __init__(self, d=None):
        self.d = d or {}
        self._h = None
        self._r = None
        self._b = None

    # construction
    @staticmethod
    def const(re, im=0):
        c = CQ(re, im)
        return Poly({((), ()): c}) if c else Poly()

    @staticmethod
    def base(b, p=1):
        return Poly({((), ((b, p),)): CQ(1)})

    def items(self):
        return self.d.items()

    def __eq__(self, o):
        return isinstance(o, Poly) and self.d == o.d

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.d.items()))
        return self._h

    def __repr__(self):
        if self._r is None:
            if not self.d:
                self._r = "0"
            else:
                self._r = " + ".join(
                    sorted(f"{c}" + (f" SUM{[v[1] for v in b]}" if b else "") + "".join(f" {pf(f, p)}" for f, p in fs)
                           for (b, fs), c in self.d.items()))
        return self._r

    def __add__(self, o):
        o = aspoly(o)
        d = dict(self.d)
        for k, c in o.d.items():
            n = d[k] + c if k in d else c
            if n:
                d[k] = n
            else:
                d.pop(k, None)
        return Poly(d)

    __radd__ = __add__

    def __neg__(self):
        return Poly({k: CQ(-c.re, -c.im) for k, c in self.d.items()})

    def __sub__(self, o):
        return self + (-aspoly(o))

    def __rsub__(self, o):
        return aspoly(o) + (-self)

    def __mul__(self, o):
        o = aspoly(o)
        d = {}
        for (b1, f1), c1 in self.d.items():
            for (b2, f2), c2 in o.d.items():
                if b2:
                    m = {v: ("v", f"~{next(_cnt)}", v[2]) for v in b2}
                    f2s = tuple((any_subst(f, m), p) for f, p in f2)
                    b2s = tuple(m[v] for v in b2)
                else:
                    f2s, b2s = f2, b2
                k = (b1 + b2s, mulfac(f1, f2s))
                c = c1 * c2
                n = d[k] + c if k in d else c
                if n:
                    d[k] = n
                else:
                    d.pop(k, None)
        return Poly(d)

    __rmul__ = __mul__

    def inverse(self):
        if len(self.d) == 1:
            ((b, fs), c), = self.d.items()
            if not b:
                return Poly({((), tuple((f, -p) if f[0] != "E" else (("E", -f[1]), p) for f, p in fs)): c.inv()})
        if not self.d:
            raise Undecided("division by zero")
        return Poly.base(("F", "id", (self,), 0), -1)

    def __truediv__(self, o):
        return self * aspoly(o).inverse()

    def __pow__(self, n):
        assert isinstance(n, int)
        if n < 0:
            return self.inverse() ** (-n)
        r = Poly.const(1)
        for _ in range(n):
            r = r * self
        return r

    def subst(self, m):
        if not m:
            return self
        out = Poly()
        d = {}
        used = None
        for (b, fs), c in self.d.items():
            mm = {k: v for k, v in m.items() if k not in b}
            if b and mm:
                if used is None:
                    used = vars_of(tuple(m.values()))
                if not used.isdisjoint(b):          # no variable of a replacement may become bound
                    ren = {v: ("v", f"~{next(_cnt)}", v[2]) for v in b if v in used}
                    b, fs = tuple(ren.get(v, v) for v in b), tuple((any_subst(f, ren), p) for f, p in fs)
            k = (b, sortfac([(any_subst(f, mm), p) for f, p in fs]))
            n = d[k] + c if k in d else c
            if n:
                d[k] = n
            else:
                d.pop(k, None)
        out.d = d
        return out

    def conj(self, ctx):
        out = Poly()
        for (b, fs), c in self.d.items():
            out = out + Poly({(b, sortfac([conjfac(f, p, ctx) for f, p in fs])): c.conj()})
        return out

    def sum(self, v):
        return Poly({(b + (v,), fs): c for (b, fs), c in self.d.items()})

    def is_const(self):
        return all(k == ((), ()) for k in self.d)

    def const_value(self):
        if not self.d:
            return CQ(0)
        return self.d[((), ())]


def pf(f, p):
    if f[0] == "A":
        s = f[1] + ("*" if f[3] else "") + ("[" + ",".join(pi(i) for i in f[2]) + "]" if f[2] else "")
    elif f[0] == "D":
        s = f"d({pi(f[1])},{pi(f[2])})"
    elif f[0] == "E":
        s = f"E({f[1]!r})"
    elif f[0] == "F":
        s = f"{f[1]}({','.join(map(repr, f[2]))})" + ("*" if f[3] else "")
    elif f[0] == "phi":
        s = f"phi_{f[1]}({pi(f[2])})" + ("*" if f[3] else "")
    else:
        s = repr(f)
    return s if p == 1 else f"{s}^{p}"


def pi(i):
    if isinstance(i, int):
        return str(i)
    if i[0] == "v":
        return i[1]
    if i[0] == "w":
        return "<" + ".".join(pi(l) + ("" if s == 1 else "'") for l, s in i[2]) + ">"
    if i[0] == "f":
        return f"{i[1]}({','.join(pi(a) if is_index(a) else repr(a) for a in i[2])})"
    return repr(i)


def aspoly(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, bool):
        return Poly.const(int(x))
    if isinstance(x, int):
        return Poly.const(x)
    if isinstance(x, Fr):
        return Poly.const(x)
    if isinstance(x, float):
        return Poly.const(frac(x))
    if isinstance(x, complex):
        return Poly.const(frac(x.real), frac(x.imag))
    if isinstance(x, Cond):
        if x.op == "true":
            return Poly.const(1)
        if x.op == "false":
            return Poly()
        return Poly.base(("I", x))
    raise Undecided(f"not a scalar: {x!r}")


def frac(x):
    return Fr(repr(float(x)))


def sortfac(fs):
    d = {}
    E = None
    for f, p in fs:
        if f[0] == "E":
            e = f[1] * p
            E = e if E is None else E + e
            continue
        d[f] = d.get(f, 0) + p
    out = [(f, p) for f, p in d.items() if p]
    if E is not None and E.d:
        out.append((("E", E), 1))
    out.sort(key=lambda t: skey(t))
    return tuple(out)


def mulfac(a, b):
    return sortfac(list(a) + list(b))


def conjfac(f, p, ctx):
    t = f[0]
    if t == "A":
        nm = f[1]
        if nm in ctx.real or nm.startswith("#"):
            return f, p
        if nm in ctx.unimod:
            return f, -p
        return ("A", nm, f[2], 1 - f[3]), p
    if t == "D" or t == "I":
        return f, p
    if t == "E":
        return ("E", -(f[1].conj(ctx))), p
    if t == "F":
        if f[1] in ctx.cfun:
            return ("F", f[1], f[2], 1 - f[3]), p
        if f[1] == "id":
            return ("F", "id", (f[2][0].conj(ctx),), 0), p
        return f, p
    if t == "phi":
        if f[1] in ctx.unimod_phi:
            return f, -p
        return ("phi", f[1], f[2], 1 - f[3]), p
    raise Undecided(f"conj {f}")


def atom(name, *idxs):
    return Poly.base(("A", name, tuple(idxs), 0))


def fun(name, *args):
    return Poly.base(("F", name, tuple(aspoly(a) for a in args), 0))


def E(p):
    """exp(2 pi i p)"""
    p = aspoly(p)
    return Poly.base(("E", p)) if p.d else Poly.const(1)


def delta(i, j):
    r = idx_eq(i, j)
    if r is True:
        return Poly.const(1)
    if r is False:
        return Poly()
    if isinstance(r, list):
        out = Poly.const(1)
        for a, b in r:
            out = out * delta(a, b)
        return out
    a, b = cancel(i, j) or sorted([i, j], key=skey)
    return Poly.base(("D", a, b))


def cancel(i, j):
    """Canonical form of the equation i == j between words of one group (None if not such an equation)."""
    if isinstance(i, int) or isinstance(j, int) or (i[0] != "w" and j[0] != "w"):
        return None
    g = idx_group(i)
    if g is None or g != idx_group(j):
        return None
    a, b = word(i), word(j)
    # cyclic relator a b^-1 = 1
    r = list(mkword_letters(a + [(l, -s) for l, s in reversed(b)]))
    while len(r) >= 2 and r[0][0] == r[-1][0] and r[0][1] == -r[-1][1]:
        r = r[1:-1]
    if not r:
        return True
    cnt = {}
    for l, s in r:
        cnt[l] = cnt.get(l, 0) + 1
    once = sorted([l for l in cnt if cnt[l] == 1], key=skey)
    if once:
        n = next(k for k, (l, s) in enumerate(r) if l == once[0])
        s = r[n][1]
        rot = r[n + 1:] + r[:n]          # l^s * rot = 1  ->  l^s = rot^-1
        t = [(l, -q) for l, q in reversed(rot)] if s == 1 else rot
        return (once[0], mkword(g, t))
    return (mkword(g, r), gone(g))


def mkword_letters(letters):
    out = []
    for l, s in letters:
        if out and out[-1][0] == l and out[-1][1] == -s:
            out.pop()
        else:
            out.append((l, s))
    return out


def idx_eq(i, j):
    """True / False / list of component equalities / None(unknown)"""
    if i == j:
        return True
    if cancel(i, j) is True:
        return True
    if isinstance(i, int) and isinstance(j, int):
        return False
    if isinstance(i, tuple) and isinstance(j, tuple) and i[0] == j[0] == "b":
        if i[1] != j[1]:
            return False
        return [(i[2], j[2])]
    if isinstance(i, tuple) and isinstance(j, tuple) and i[0] == j[0] == "p":
        return list(zip(i[1], j[1]))
    return None


# ---------------------------------------------------------------- conditions
class Cond:
    """op in true,false,and,or,not,le,lt,eq,eqi,all,ex,op(opaque)"""

    __slots__ = ("op", "args", "_h")

    def __init__(self, op, args=()):
        self.op, self.args = op, tuple(args)
        self._h = None

    def __eq__(self, o):
        return isinstance(o, Cond) and self.op == o.op and self.args == o.args

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.op, self.args))
        return self._h

    def __repr__(self):
        a = ", ".join(pi(x) if is_index(x) else repr(x) for x in self.args)
        return f"{self.op}({a})"

    def subst(self, m):
        if self.op in ("all", "ex"):
            m = {k: v for k, v in m.items() if k != self.args[0]}
            if m and self.args[0] in vars_of(tuple(m.values())):
                w = ("v", f"~{next(_cnt)}", self.args[0][2])
                m = {**m, self.args[0]: w}
                return mk_all(w, self.args[1].subst(m)) if self.op == "all" else mk_ex(w, self.args[1].subst(m))
            return mk_all(self.args[0], self.args[1].subst(m)) if self.op == "all" else mk_ex(self.args[0], self.args[1].subst(m))
        if self.op == "eqi":
            return mk_eqi(any_subst(self.args[0], m), any_subst(self.args[1], m))
        if self.op == "and":
            return mk_and(*[a.subst(m) for a in self.args])
        if self.op == "not":
            return mk_not(self.args[0].subst(m))
        return Cond(self.op, tuple(any_subst(a, m) for a in self.args))


TRUE, FALSE = Cond("true"), Cond("false")


def mk_eqi(i, j):
    r = idx_eq(i, j)
    if r is True:
        return TRUE
    if r is False:
        return FALSE
    if isinstance(r, list):
        return mk_and(*[mk_eqi(a, b) for a, b in r])
    a, b = cancel(i, j) or sorted([i, j], key=skey)
    return Cond("eqi", (a, b))


def mk_and(*cs):
    out = []
    for c in cs:
        if c.op == "false":
            return FALSE
        if c.op == "true":
            continue
        if c.op == "and":
            out += [x for x in c.args if x not in out]
        elif c not in out:
            out.append(c)
    if not out:
        return TRUE
    if any(mk_not(c) in out for c in out):
        return FALSE
    out.sort(key=skey)
    return out[0] if len(out) == 1 else Cond("and", out)


def mk_or(*cs):
    return mk_not(mk_and(*[mk_not(c) for c in cs])) if cs else FALSE


def mk_not(c):
    if c.op == "true":
        return FALSE
    if c.op == "false":
        return TRUE
    if c.op == "not":
        return c.args[0]
    return Cond("not", (c,))


def mk_all(v, c):
    if c.op in ("true",):
        return c
    if isinstance(v[2], int) and v[2] <= 4:
        return mk_and(*[c.subst({v: k}) for k in range(v[2])])
    n = qdepth(c)
    w = ("v", f"@{n}", v[2])
    if w != v:
        free = {x[1] for x in vars_of(c)}
        while w[1] in free:
            n += 1
            w = ("v", f"@{n}", v[2])
    return Cond("all", (w, c.subst({v: w}) if w != v else c))


def prefix_variants(c):
    """The same universally quantified condition with the prefix in every order."""
    pre = []
    b = c
    while b.op == "all":
        w = ("v", f"~{next(_cnt)}", b.args[0][2])
        b = b.args[1].subst({b.args[0]: w})
        pre.append(w)
    if not 2 <= len(pre) <= 4:
        return []
    out = []
    for perm in itertools.permutations(pre):
        x = b
        for w in reversed(perm):
            x = mk_all(w, x)
        out.append(x)
    return out


def qdepth(c):
    if c.op in ("all", "ex"):
        return 1 + qdepth(c.args[1])
    d = 0
    for a in c.args:
        if isinstance(a, Cond):
            d = max(d, qdepth(a))
        elif isinstance(a, tuple):
            d = max(d, qd_tuple(a))
        elif isinstance(a, Poly):
            for (b, fs), _ in a.items():
                for f, p in fs:
                    d = max(d, qd_tuple(f))
    return d


def binders(x):
    """1 + the largest k of the bound variables _k inside x: names from there on are free for an enclosing sum."""
    if isinstance(x, Poly):
        if x._b is None:
            n = 0
            for (b, fs), _ in x.d.items():
                for v in b:
                    if v[1][0] == "_" and v[1][1:].isdigit():
                        n = max(n, int(v[1][1:]) + 1)
                n = max(n, binders(fs))
            x._b = n
        return x._b
    if isinstance(x, Cond):
        return binders(x.args)
    if isinstance(x, tuple):
        n = 0
        for a in x:
            if isinstance(a, (tuple, Poly, Cond)):
                n = max(n, binders(a))
        return n
    return 0


def qd_tuple(t):
    d = 0
    for a in t:
        if isinstance(a, Cond):
            d = max(d, qdepth(a))
        elif isinstance(a, tuple):
            d = max(d, qd_tuple(a))
        elif isinstance(a, Poly):
            d = max(d, qdepth(Cond("x", (a,))))
    return d


def mk_ex(v, c):
    return mk_not(mk_all(v, mk_not(c)))


def cmp(op, a, b):
    a, b = aspoly(a), aspoly(b)
    dlt = a - b
    if dlt.is_const():
        c = dlt.const_value()
        if op == "eq":
            return FALSE if c else TRUE
        if c.im == 0:
            if op == "le":
                return TRUE if c.re <= 0 else FALSE
            if op == "lt":
                return TRUE if c.re < 0 else FALSE
    return Cond(op, (a, b))
