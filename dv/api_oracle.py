"""list.index / membership on lists indexed by group elements or by plain extents."""
from norm import *  # noqa
from values import *  # noqa


def letters_in(x, acc=None):
    """Group letters occurring in a value."""
    if acc is None:
        acc = []
    if isinstance(x, TupKey):
        x = x.arr
    if isinstance(x, Arr):
        for s in x.stores:
            for v in sorted(vars_of(s.val) if isinstance(s.val, (Poly, Cond)) else set(), key=skey):
                if isinstance(v[2], Dim) and v[2].group and v not in acc:
                    acc.append(v)
    elif isinstance(x, (Poly, Cond)):
        for v in sorted(vars_of(x), key=skey):
            if isinstance(v[2], Dim) and v[2].group and v not in acc:
                acc.append(v)
    elif isinstance(x, Ix):
        letters_in(Poly.base(("A", "", (x.t,), 0)), acc)
    elif isinstance(x, tuple):
        for i in x:
            letters_in(i, acc)
    return acc


def atoms_of(x, acc=None):
    if acc is None:
        acc = set()
    if isinstance(x, TupKey):
        x = x.arr
    if isinstance(x, Arr):
        for s in x.stores:
            atoms_of(s.val, acc)
    elif isinstance(x, Poly):
        for (b, fs), _ in x.items():
            for f, p in fs:
                atoms_of(f, acc)
    elif isinstance(x, Cond):
        for a in x.args:
            atoms_of(a, acc)
    elif isinstance(x, tuple):
        if len(x) == 4 and x[0] == "A":
            acc.add(x[1])
        for a in x:
            if isinstance(a, (tuple, Poly, Cond, TupKey, Arr)):
                atoms_of(a, acc)
    return acc


def leaves(t, v, acc):
    """Collect the plain leaves name[v, idx...] of a key template; components must be entries at index v."""
    if isinstance(t, tuple):
        for a in t:
            leaves(a, v, acc)
    elif isinstance(t, TupKey) or isinstance(t, Arr):
        a = t.arr if isinstance(t, TupKey) else t
        for s in a.stores:
            if s.guard.op == "true" and isinstance(s.val, Poly):
                plain(s.val, v, s.bvars, acc)
    elif isinstance(t, Poly):
        plain(t, v, (), acc)
        if len(t.d) == 1:
            ((b, fs), c), = t.d.items()
            if not b and c == CQ(1) and len(fs) == 1 and fs[0][0][0] == "I" and fs[0][1] == 1:
                leaves(fs[0][0][1], v, acc)
    elif isinstance(t, Cond):
        if t.op == "not" and t.args[0].op == "eq" and t.args[0].args[1] == Poly():
            plain(t.args[0].args[0], v, (), acc)
        elif t.op == "anti" and t.args == (v,):
            acc.add(("anti", ()))


def plain(p, v, bvars, acc):
    if len(p.d) != 1:
        return
    ((b, fs), c), = p.d.items()
    if not b and len(fs) == 1 and fs[0][1] == 1 and fs[0][0][0] == "A" and fs[0][0][2][:1] == (v,):
        acc.add((fs[0][0][1], tuple("*" if i in bvars else i for i in fs[0][0][2][1:])))


def covers(acc, name, dims):
    """All entries of the row name[v] appear among the leaves."""
    if any(n == name and all(i == "*" for i in idx) and len(idx) == len(dims) for n, idx in acc):
        return True
    if not all(isinstance(d, int) for d in dims):
        return False
    return all((name, ix) in acc for ix in itertools.product(*[range(d) for d in dims]))


def group_oracle(injective):
    """injective: list of dicts {atom name: extents of its rows}; equality of all these rows determines the index
    (precondition of the contract)."""

    def orc(ip, d, v, t, x, contains=False):
        if not (isinstance(d, Dim) and d.group):
            return None
        acc = set()
        leaves(t, v, acc)
        if not any(all(covers(acc, nm, dims) for nm, dims in s.items()) for s in injective):
            return None
        ls = [l for l in letters_in(x) if l[2].group == d.group]
        cands = [gone(d.group)] + [l for l in ls] + [ginv(l) for l in ls] + [gmul(a, b) for a in ls for b in ls] + \
                [gmul(ginv(a), b) for a in ls for b in ls] + [gmul(a, ginv(b)) for a in ls for b in ls] + \
                [gmul(gmul(a, b), c) for a in ls for b in ls for c in ls]
        seen = set()
        for c in cands:
            if c in seen or ip.fits(d, c) is not True:
                continue
            seen.add(c)
            e = ip.as_cond(ip.equal_values(vsubst(t, {v: c}), x))
            if ip.decide(e) is True:
                return TRUE if contains else Ix(c)
        return None
    return orc


def first_oracle(ip, d, v, t, x, contains=False):
    """Index of the first equal entry over a plain extent: forks on existence."""
    e = ctx_simplify_cond(ip.ctx, ip.as_cond(ip.equal_values(t, x)))
    ex = mk_ex(v, e)
    if contains:
        return ex
    if not ip.truth(ex):
        raise PyExc("ValueError", "not in list")
    return Ix(ip.choice(e, v))
