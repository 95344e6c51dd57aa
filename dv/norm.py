"""Normaliser: decides equality of Polys modulo the axioms of a context.

Axioms are declared per context (Ctx) by the contract under verification; each is either a precondition of that contract
or a definition.  The rewriting below is equational, so zero normal form of (a - b) proves a = b.
"""
from __future__ import annotations

import itertools
import math

from terms import *  # noqa
from terms import _cnt


class Ctx:
    _n = 0

    def __init__(self):
        Ctx._n += 1
        self.serial = Ctx._n    # identifies this context in caches
        self.real = set()       # names of real atoms
        self.unimod = set()     # names of unimodular atoms (conj = inverse)
        self.integer = set()    # names of integer-valued atoms (also real)
        self.cfun = set()       # complex valued opaque functions
        self.unimod_phi = set()
        self.hom = {}           # name -> dict(proj=rep|None, unitary=bool)  : name[g,a,b] matrix representation
        self.cocycle = {}       # name -> rep  : name[g,h] = phi(g) phi(h)^sigma(g) / phi(gh)
        self.antilin = {}       # rep -> set of anti-linear letters (for twisted cocycles)
        self.isometry = {}      # name -> 'both' : name[.., a, b] unitary matrix for fixed leading indices
        self.bounds = {}        # extent name of a symbolic range -> (lower, upper) bound
        self.inverse = {}       # matrix name -> name of its inverse
        self.idem = set()       # 0/1-valued atoms (x^2=x)
        self.ranks = set()      # numbers of axes, at least one
        self.rules = []         # fn(ctx, bound, factors) -> Poly | None
        self.axioms = []        # human-readable list of assumptions
        self.normalized = set()  # reps with phi(1)=1
        self.facts = ()
        self.member = {}        # name of a sub-extent -> fn(index) -> membership or None
        self.flagged = set()    # letters whose flags are set
        self.unflagged = set()  # extents (subgroups) on which the flags are not set
        self.flags = set()      # opaque conditions that are homomorphisms to Z2: flag(gh) = flag(g) xor flag(h)

    def conj_letter(self, rep, l):
        return l in self.antilin.get(rep, ())


def size_atom(dim):
    if isinstance(dim, int):
        return Poly.const(dim)
    if isinstance(dim, BDim):
        return size_atom(dim.base) * dim.c
    if isinstance(dim, PDim):
        r = Poly.const(1)
        for p in dim.parts:
            r = r * size_atom(p)
        return r
    return Poly.base(("A", "#" + dim.name, (), 0))


def is_real_atom(ctx, nm):
    return nm.startswith("#") or nm in ctx.real or nm in ctx.integer or nm == "pi"


def expand_hom(ctx, f, p):
    """f = ('A', name, (word, a, b), conj)"""
    nm, (w, a, b), cj = f[1], f[2], f[3]
    h = ctx.hom[nm]
    if not (isinstance(w, tuple) and w[0] == "w"):
        return None
    letters = w[2]
    if len(letters) == 1 and not h.get("unitary"):
        return None  # inverse letter stays
    if p != 1:
        raise Undecided("power of a matrix element at a word")
    rep = h.get("proj")
    dim = h["dim"]
    out = Poly.const(1)
    if rep:
        ph = Poly.base(("phi", rep, w, cj))
        out = out * ph
    tw = bool(h.get("twisted"))
    conj_now = cj
    if not letters:
        d = delta(a, b)
        return out * d if rep is None else out * d
    idxs = [a] + [fresh(dim, "c") for _ in letters[1:]] + [b]
    for n, (l, s) in enumerate(letters):
        i, j = idxs[n], idxs[n + 1]
        if tw and s == -1 and ctx.conj_letter(rep, l):
            # D(l^-1) for anti-linear l : conj(D(l))^-1 up to phase = transpose(D(l))
            conj_now ^= 1
            x = Poly.base(("A", nm, (l, j, i), 1 - conj_now))
            if rep:
                x = x * Poly.base(("phi", rep, l, 1 - conj_now), -1)
            out = out * x
            continue
        if s == 1:
            x = Poly.base(("A", nm, (l, i, j), conj_now))
            if rep:
                x = x * Poly.base(("phi", rep, l, conj_now), -1)
        elif h.get("unitary"):
            x = Poly.base(("A", nm, (l, j, i), 1 - conj_now))
            if rep:
                x = x * Poly.base(("phi", rep, l, 1 - conj_now), -1)
        else:
            x = Poly.base(("A", nm, (mkword(w[1], [(l, -1)]), i, j), conj_now))
        out = out * x
        if tw and ctx.conj_letter(rep, l):
            conj_now ^= 1
    for v in idxs[1:-1]:
        out = out.sum(v)
    # realness of atoms / phis
    return fixconj(out, ctx)


def fixconj(p, ctx):
    out = Poly()
    for (b, fs), c in p.items():
        nf = []
        for f, q in fs:
            if f[0] == "A" and f[3] and is_real_atom(ctx, f[1]):
                f = ("A", f[1], f[2], 0)
            elif f[0] == "A" and f[3] and f[1] in ctx.unimod:
                f, q = ("A", f[1], f[2], 0), -q
            elif f[0] == "phi" and f[3] and f[1] in ctx.unimod_phi:
                f, q = ("phi", f[1], f[2], 0), -q
            nf.append((f, q))
        out = out + Poly({(b, sortfac(nf)): c})
    return out


def sigma(ctx, rep, w):
    n = 0
    for l, s in word(w):
        n ^= ctx.conj_letter(rep, l)
    return n


def count_occ(v, factors):
    n = 0
    for f, p in factors:
        n += occ(v, f)
    return n


def occ(v, x):
    if x == v:
        return 1
    if isinstance(x, Poly):
        return sum(occ(v, f) for (b, fs), _ in x.items() if v not in b for f, _p in fs)
    if isinstance(x, Cond):
        return sum(occ(v, a) for a in x.args)
    if isinstance(x, tuple):
        if len(x) == 3 and x[0] == "v":
            return 0
        return sum(occ(v, a) for a in x)
    return 0


def solve_for(v, i, j):
    """From index equation i == j, return t with v = t (v not in t) or None."""
    if i == v and not occ(v, j):
        return j
    if j == v and not occ(v, i):
        return i
    for a, b in ((i, j), (j, i)):
        if isinstance(a, tuple) and a[0] == "w" and occ(v, a) == 1 and not occ(v, b) and not isinstance(b, int):
            ls = list(a[2])
            for n, (l, s) in enumerate(ls):
                if l == v:
                    left, right = ls[:n], ls[n + 1:]
                    inv = lambda q: [(x, -y) for x, y in reversed(q)]
                    t = inv(left) + word(b) + inv(right)
                    if s == -1:
                        t = inv(t)
                    return mkword(a[1], t)
    return None


def solve_injection(inj, v, i, j):
    """i == j with i = f(v), f injective with partial inverse inj[f] = (in the image?, preimage): (v, condition) or None."""
    for a, b in ((i, j), (j, i)):
        if isinstance(a, tuple) and a[0] == "f" and a[1] in inj and a[2] == (v,) and not occ(v, b):
            image, pre = inj[a[1]]
            return pre(b), image(b)
    return None


def step(ctx, bound, factors, coef):
    """One rewriting step on a monomial; returns Poly or None if in normal form."""
    C = Poly({((), ()): coef})

    def rebuild(new_bound, facs, extra=None):
        p = Poly({(tuple(new_bound), sortfac(facs)): coef})
        if extra is not None:
            if any(v in set(new_bound) for v in vars_of(extra)):
                # extra uses bound variables: multiply under the sum
                out = Poly()
                for (b2, f2), c2 in extra.items():
                    out = out + Poly({(tuple(new_bound) + b2, mulfac(sortfac(facs), f2)): coef * c2})
                return out
            p = p * extra
        return p

    for n, (f, p) in enumerate(factors):
        rest = factors[:n] + factors[n + 1:]
        t = f[0]
        if t == "E":
            q = norm_exponent(ctx, f[1])
            if not q.d:
                return rebuild(bound, rest)
            if q.is_const():
                c = q.const_value()
                if c.im == 0 and (c.re * 4).denominator == 1:
                    k = int(c.re * 4) % 4
                    return rebuild(bound, rest, Poly.const([1, 0, -1, 0][k], [0, 1, 0, -1][k]))
            if q != f[1]:
                return rebuild(bound, list(rest) + [(("E", q), 1)])
        elif t == "A":
            nm = f[1]
            if nm in ctx.hom and len(f[2]) == 3:
                if f[2][0] and isinstance(f[2][0], tuple) and f[2][0][0] == "w":
                    e = expand_hom(ctx, f, p)
                    if e is not None:
                        return rebuild(bound, rest, e)
            if nm in ctx.cocycle:
                rep = ctx.cocycle[nm]
                g, h = f[2]
                x = Poly.base(("phi", rep, g, f[3])) * Poly.base(("phi", rep, h, f[3] ^ sigma(ctx, rep, g))) \
                    * Poly.base(("phi", rep, gmul(g, h), f[3]), -1)
                x = fixconj(x, ctx)
                return rebuild(bound, rest, x ** p if p > 0 else x.inverse() ** (-p))
            if nm in ctx.idem and p > 1:
                return rebuild(bound, list(rest) + [(f, 1)])
        elif t == "phi":
            if f[2] == ("w", f[2][1] if isinstance(f[2], tuple) and len(f[2]) > 1 else None, ()) and f[1] in ctx.normalized:
                return rebuild(bound, rest)
        elif t == "D":
            i, j = f[1], f[2]
            r = idx_eq(i, j)
            if r is True:
                return rebuild(bound, rest)
            if r is False:
                return Poly()
            if isinstance(r, list):
                e = Poly.const(1)
                for a, b in r:
                    e = e * delta(a, b)
                return rebuild(bound, rest, e)
            if p != 1:
                return rebuild(bound, list(rest) + [(f, 1)])
            e = delta(i, j)
            if e != Poly.base(f):
                return rebuild(bound, rest, e)
            for v in bound:
                s = solve_for(v, i, j)
                if s is not None and same_dim(v[2], s):
                    m = {v: s}
                    nb = [b for b in bound if b != v]
                    nf = [(any_subst(g, m), q) for g, q in rest]
                    return Poly({(tuple(nb), sortfac(nf)): coef})
            v = f[1] if is_var(f[1]) else f[2] if is_var(f[2]) else None
            if v is not None:
                o = f[2] if v == f[1] else f[1]
                if not occ(v, o) and any(occ(v, g) for g, _ in rest):
                    return rebuild(bound, [(any_subst(g, {v: o}), q) for g, q in rest] + [(f, 1)])
        elif t == "I":
            c = ctx_simplify_cond(ctx, f[1])
            if c.op == "true":
                return rebuild(bound, rest)
            if c.op == "false":
                return Poly()
            if p != 1 or c != f[1]:
                return rebuild(bound, list(rest) + [(("I", c), 1)])
            if any(g[0] == "I" and g[1] == mk_not(c) for g, _ in rest):
                return Poly()
        elif t == "F":
            args = tuple(normalise(ctx, a) for a in f[2])
            e = simplify_fun(ctx, f[1], args, f[3])
            if e is not None:
                return rebuild(bound, rest, e ** p if p > 0 else e.inverse() ** (-p))
            if args != f[2]:
                return rebuild(bound, list(rest) + [(("F", f[1], args, f[3]), p)])
    # unused bound variables
    for v in bound:
        if count_occ(v, factors) == 0:
            nb = [b for b in bound if b != v]
            return Poly({(tuple(nb), factors): coef}) * size_atom(v[2])
    # unitarity / inverse contraction
    fl = [(n, f) for n, (f, p) in enumerate(factors) if f[0] == "A" and p == 1 and len(f[2]) >= 2]
    sq = [(n, f) for n, (f, p) in enumerate(factors) if f[0] == "A" and p == 2 and len(f[2]) >= 2 and is_real_atom(ctx, f[1])]
    for n, f in sq:
        uni = (f[1] in ctx.isometry)
        if uni:
            for pos in (1, 0):
                v = f[2][-2:][pos]
                if v in bound and count_occ(v, [x for k, x in enumerate(factors) if k != n]) == 0 and occ(v, f) == 1:
                    nb = [b for b in bound if b != v]
                    return rebuild(nb, [x for k, x in enumerate(factors) if k != n])
    for (n1, f1), (n2, f2) in itertools.combinations(fl, 2):
        if f1[1] != f2[1]:
            continue
        nm = f1[1]
        lead1, lead2 = f1[2][:-2], f2[2][:-2]
        (a, b), (c, d) = f1[2][-2:], f2[2][-2:]
        uni = nm in ctx.isometry or (nm in ctx.hom and ctx.hom[nm].get("unitary"))
        if uni and lead1 == lead2 and (f1[3] != f2[3] or is_real_atom(ctx, nm)):
            for x, y, o1, o2 in ((a, c, b, d), (b, d, a, c)):
                if x == y and x in bound and count_occ(x, factors) == 2 and isinstance(x, tuple):
                    nb = [q for q in bound if q != x]
                    facs = [q for k, q in enumerate(factors) if k not in (n1, n2)]
                    return rebuild(nb, facs, delta(o1, o2))
        if nm in ctx.hom and not ctx.hom[nm].get("unitary") and len(lead1) == 1 and len(lead2) == 1 \
                and not isinstance(lead1[0], int) and not isinstance(lead2[0], int) \
                and ctx.hom[nm].get("proj") is None and gmul(lead1[0], lead2[0]) == gone(idx_group(lead1[0])):
            for x, y, o1, o2 in ((b, c, a, d), (a, d, b, c)):
                if x == y and x in bound and count_occ(x, factors) == 2:
                    nb = [q for q in bound if q != x]
                    facs = [q for k, q in enumerate(factors) if k not in (n1, n2)]
                    return rebuild(nb, facs, delta(o1, o2))
    for (n1, f1), (n2, f2) in itertools.permutations(fl, 2) if ctx.inverse else ():
        if ctx.inverse.get(f1[1]) == f2[1] and f1[3] == f2[3] and len(f1[2]) == len(f2[2]) == 2:
            (a, b), (c, d) = f1[2], f2[2]
            for x, y, o1, o2 in ((b, c, a, d), (a, d, b, c)):
                if x == y and x in bound and count_occ(x, factors) == 2:
                    return rebuild([q for q in bound if q != x], [q for k, q in enumerate(factors) if k not in (n1, n2)], delta(o1, o2))
    for rule in ctx.rules:
        r = rule(ctx, bound, factors)
        if r is not None:
            return r * C if not isinstance(r, tuple) else rebuild(*r)
    return None


def is_var(i):
    return isinstance(i, tuple) and i[0] == "v"


def same_dim(d, s):
    if isinstance(s, int):
        return isinstance(d, int) and 0 <= s < d
    if s[0] == "v":
        return s[2] == d or (isinstance(d, Dim) and isinstance(s[2], Dim) and d.group and d.group == s[2].group)
    if s[0] == "w":
        return isinstance(d, Dim) and d.group == s[1]
    if s[0] == "f":
        return s[3] == d
    if s[0] == "b":
        return isinstance(d, BDim)
    return True


def simplify_fun(ctx, name, args, cj):
    if name == "id":
        return None
    if name in ("rint", "floor", "trunc"):
        a = args[0]
        keep, drop = Poly(), Poly()
        for (b, fs), c in a.items():
            if c.im == 0 and c.re.denominator == 1 and all(f[0] == "A" and (f[1] in ctx.integer or f[1].startswith("#")) and p > 0 or
                                                           f[0] in ("D", "I") or f[0] == "F" and f[1] in ("rint", "floor", "trunc") and p > 0
                                                           for f, p in fs):
                drop = drop + Poly({(b, fs): c})
            else:
                keep = keep + Poly({(b, fs): c})
        if not keep.d:
            return drop
        if drop.d and name != "trunc":
            return fun(name, keep) + drop
        if name == "rint" and negative(a):
            return -fun("rint", -a)         # rounding half to even is odd
        return None
    if name == "abs":
        if negative(args[0]):
            return fun("abs", -args[0])
        return None
    if name == "sqrt":
        cs = list(args[0].d.values())
        if not cs:
            return Poly()
        if any(c.im for c in cs):
            return None
        n = math.gcd(*[abs(c.re.numerator) for c in cs])
        d = math.lcm(*[c.re.denominator for c in cs])
        m, k = n * d, 1
        if m > 10 ** 6:
            return None
        for q in range(math.isqrt(m), 1, -1):
            if m % (q * q) == 0:
                k = q
                break
        b = m // (k * k)
        out = Fr(k, d)
        rest = args[0] * Fr(d, n) * b
        if rest == Poly.const(1):
            return Poly.const(out)
        return fun("sqrt", rest) * out if out != 1 else None
    if name == "re":
        a = args[0]
        if is_real(ctx, a):
            return a
        s = (a + a.conj(ctx)) * Fr(1, 2)
        return s
    if name == "im":
        a = args[0]
        return (a - a.conj(ctx)) * Poly.const(0, Fr(-1, 2))
    return None


def negative(p):
    """Canonical choice between p and -p."""
    if not p.d:
        return False
    k = min(p.d, key=lambda m: skey(([(sub_colour(f, None, {v: "" for v in m[0]}), q) for f, q in m[1]], len(m[0]))))
    c = p.d[k]
    return (c.re, c.im) < (0, 0)


def is_real(ctx, p):
    for (b, fs), c in p.items():
        if c.im:
            return False
        for f, q in fs:
            if f[0] == "A" and not is_real_atom(ctx, f[1]):
                return False
            if f[0] in ("E", "phi"):
                return False
            if f[0] == "F" and f[1] in ctx.cfun:
                return False
            if f[0] == "F" and f[1] == "id" and not is_real(ctx, f[2][0]):
                return False
    return True


def one_point(v, c):
    """c as a conjunction containing v == t: the instance of the rest at t, else None."""
    cs = c.args if c.op == "and" else (c,)
    for n, a in enumerate(cs):
        if a.op == "eqi":
            t = solve_for(v, *a.args)
            if t is not None and same_dim(v[2], t) and not getattr(v[2], "sub", False):
                return t, mk_and(*[b.subst({v: t}) for m, b in enumerate(cs) if m != n])
    return None


def ctx_simplify_cond(ctx, c):
    r = _simplify_cond(ctx, c)
    if ctx.facts:
        for x in (c, r):
            if x in ctx.facts:
                return TRUE
            if mk_not(x) in ctx.facts:
                return FALSE
    return r


def _simplify_cond(ctx, c):
    if c.op == "all":
        v, b = c.args
        b = ctx_simplify_cond(ctx, b)
        if b.op in ("true", "false") and b.op == "true":
            return b
        if b.op == "and":
            return mk_and(*[ctx_simplify_cond(ctx, mk_all(v, x)) for x in b.args])
        r = one_point(v, mk_not(b))
        if r is not None:
            return ctx_simplify_cond(ctx, mk_not(r[1]))
        if not occ(v, b):
            return b
        return mk_all(v, b)
    if c.op in ("le", "lt", "eq"):
        q = normalise(ctx, c.args[0] - c.args[1])
        if c.op == "eq" and negative(q):
            q = -q
        return cmp(c.op, q, 0)
    if c.op in ("and", "not"):
        args = [ctx_simplify_cond(ctx, a) for a in c.args]
        return mk_and(*args) if c.op == "and" else mk_not(args[0])
    if c.op in ("all", "ex"):
        b = ctx_simplify_cond(ctx, c.args[1])
        return mk_all(c.args[0], b) if c.op == "all" else mk_ex(c.args[0], b)
    if c.op == "mem" and c.args[0] in ctx.member:
        r = ctx.member[c.args[0]](c.args[1])
        return c if r is None else TRUE if r else FALSE
    if c.op in ctx.flags and len(c.args) == 1 and c.args[0] in ctx.flagged:
        return TRUE
    if c.op in ctx.flags and len(c.args) == 1 and isinstance(c.args[0], tuple) and c.args[0][0] == "v" and c.args[0][2] in ctx.unflagged:
        return FALSE
    if c.op in ctx.flags and len(c.args) == 1 and isinstance(c.args[0], tuple) and c.args[0][0] == "w":
        r = FALSE
        for l, s in c.args[0][2]:
            a = Cond(c.op, (l,))
            r = mk_or(mk_and(r, mk_not(a)), mk_and(mk_not(r), a))
        return r
    if c.op == "close":
        x, y = normalise(ctx, c.args[0]), normalise(ctx, c.args[1])
        if x == y:
            return TRUE
        if not y.d:
            return ctx_simplify_cond(ctx, cmp("le", fun("abs", x), c.args[3]))
        return Cond("close", (x, y) + tuple(c.args[2:]))
    if c.op not in ("true", "false", "eqi") and any(isinstance(a, Poly) for a in c.args):
        return Cond(c.op, tuple(normalise(ctx, a) if isinstance(a, Poly) else a for a in c.args))
    return c


def norm_exponent(ctx, p):
    """Normalise and drop integers."""
    p = normalise(ctx, p)
    out = {}
    for (b, fs), c in p.items():
        if c.im == 0 and all((f[0] == "A" and f[1] in ctx.integer and q > 0) or f[0] in ("D", "I") or
                             (f[0] == "F" and f[1] in ("rint", "floor", "trunc") and q > 0) for f, q in fs):
            r = c.re - (c.re.numerator // c.re.denominator)
            if r == 0:
                continue
            c = CQ(r)
        out[(b, fs)] = c
    return Poly(out)


_cache = {}


def normalise(ctx, p, _depth=0):
    p = aspoly(p)
    key = (ctx.serial, len(ctx.axioms), len(ctx.rules), ctx.facts, p)
    if key in _cache:
        return _cache[key]
    out = {}
    work = list(p.items())
    n = 0
    while work:
        (b, fs), c = work.pop()
        n += 1
        if b and any(v[1][0] == "_" for v in b):
            m = {v: ("v", f"~{next(_cnt)}", v[2]) for v in b}
            b, fs = tuple(m[v] for v in b), sortfac([(any_subst(f, m), p) for f, p in fs])
        if n > 20000:
            raise Undecided("normalisation budget")
        r = step(ctx, b, fs, c)
        if r is None:
            k = canon(b, fs)
            if k in out:
                s = out[k] + c
                if s:
                    out[k] = s
                else:
                    del out[k]
            else:
                out[k] = c
        else:
            work.extend(r.items())
    res = Poly(out)
    if len(_cache) > 200000:
        _cache.clear()
    _cache[key] = res
    return res


def colour(v, cols, factors):
    sig = []
    for f, p in factors:
        if occ(v, f):
            sig.append(skey(sub_colour(f, v, cols)) + f"^{p}")
    return "|".join(sorted(sig))


def sub_colour(x, v, cols):
    if isinstance(x, tuple) and len(x) == 3 and x[0] == "v":
        if x == v:
            return ("*",)
        if x in cols:
            return ("?", cols[x])
        return x
    if isinstance(x, tuple):
        return tuple(sub_colour(a, v, cols) for a in x)
    if isinstance(x, Poly):
        return tuple(sorted(skey((len(b), [(sub_colour(f, v, cols), p) for f, p in fs], c)) for (b, fs), c in x.items()))
    if isinstance(x, Cond):
        return (x.op, tuple(sub_colour(a, v, cols) for a in x.args))
    return x


def redelta(f):
    if f[0] == "D":
        c = cancel(f[1], f[2])
        a, b = c if isinstance(c, tuple) else sorted([f[1], f[2]], key=skey)
        return ("D", a, b)
    return f


def canon(bound, factors):
    if not bound:
        return ((), factors)
    cols = {v: repr(v[2]) for v in bound}
    for _ in range(len(bound) + 1):
        new = {v: cols[v] + "#" + colour(v, cols, factors) for v in bound}
        ranks = {s: n for n, s in enumerate(sorted(set(new.values())))}
        nc = {v: f"{v[2]!r}:{ranks[new[v]]}" for v in bound}
        if nc == cols:
            break
        cols = nc
    classes = {}
    for v in bound:
        classes.setdefault(cols[v], []).append(v)
    order = sorted(classes)
    perms = [list(itertools.permutations(classes[c])) for c in order]
    tot = 1
    for q in perms:
        tot *= len(q)
    best = None
    k0 = binders(factors)
    free = {v[1] for v in vars_of(factors) if v[1][0] == "_"} - {v[1] for v in bound}
    names = []
    while len(names) < len(bound):                  # never a name bound inside a factor, or free in one
        if f"_{k0}" not in free:
            names.append(f"_{k0}")
        k0 += 1
    for n, choice in enumerate(itertools.product(*perms)):
        if n > 720:
            break
        seq = [v for grp in choice for v in grp]
        m = {v: ("v", names[k], v[2]) for k, v in enumerate(seq)}
        nf = sortfac([(redelta(any_subst(f, m)), p) for f, p in factors])
        r = skey(nf)
        if best is None or r < best[0]:
            best = (r, (tuple(m[v] for v in seq), nf))
    return best[1]


def group_letters(p):
    out = set()
    for v in vars_of(p):
        if isinstance(v[2], Dim) and v[2].group:
            out.add(v)
    return out


def reindexed(ctx, mono, c, letters):
    """All normal forms reachable by reindexing the group sums of a monomial."""
    b, fs = mono
    res = [Poly({mono: c})]
    gb = [v for v in b if isinstance(v[2], Dim) and v[2].group and not getattr(v[2], "sub", False)]
    for v in gb[:2]:
        new = []
        cand = [None]
        for x in letters:
            if isinstance(x, tuple) and x[2].group == v[2].group:
                for s in (1, -1):
                    cand.append(("l", x, s))
                    cand.append(("r", x, s))
        cand.append(("inv",))
        for base in res:
            for cd in cand:
                if cd is None:
                    new.append(base)
                    continue
                if cd[0] == "inv":
                    t = ginv(v)
                elif cd[0] == "l":
                    t = mkword(v[2].group, [(cd[1], cd[2]), (v, 1)])
                else:
                    t = mkword(v[2].group, [(v, 1), (cd[1], cd[2])])
                q = Poly()
                for (b2, f2), c2 in base.items():
                    if v not in b2:
                        q = None
                        break
                    q = q + Poly({(b2, sortfac([(any_subst(f, {v: t}), p) for f, p in f2])): c2})
                if q is not None:
                    new.append(q)
        res = new
    out = []
    for q in res:
        try:
            out.append(normalise(ctx, q))
        except Undecided:
            pass
    return out


def equal(ctx, a, b):
    """True if a == b is proved."""
    d = normalise(ctx, aspoly(a) - aspoly(b))
    if not d.d:
        return True
    letters = group_letters(d)
    if not any(isinstance(v[2], Dim) and v[2].group for (bb, _), _c in d.items() for v in bb):
        return False
    for mono, c in list(d.items()):
        for alt in reindexed(ctx, mono, c, letters):
            d2 = normalise(ctx, d - Poly({mono: c}) + alt)
            if not d2.d:
                return True
            if len(d2.d) < len(d.d):
                return equal(ctx, d2, Poly())
    return False


def close_cond(x, y, rtol, atol):
    return Cond("close", (aspoly(x), aspoly(y), aspoly(rtol), aspoly(atol)))
