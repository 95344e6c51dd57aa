"""Symbolic values of the interpreter."""
from __future__ import annotations

from norm import *  # noqa
from terms import _cnt


class Ix:
    """Index-valued scalar.  pos: the part of a group or extent it counts the elements of; None: it names an element itself."""
    __slots__ = ("t", "pos")

    def __init__(self, t, pos=None):
        self.t, self.pos = t, pos

    def __repr__(self):
        return f"Ix({pi(self.t)})"

    def __eq__(self, o):
        return isinstance(o, Ix) and o.t == self.t and o.pos == self.pos

    def __hash__(self):
        return hash(("Ix", self.t))


def counted(v):
    """The number of the element v of its extent: an index of lists over that extent, not of what the elements are taken from."""
    return Ix(v, v[2] if getattr(v[2], "sub", False) else None)


class DimVal:
    """Integer equal to an extent."""
    __slots__ = ("dim",)

    def __init__(self, dim):
        self.dim = dim

    def __repr__(self):
        return f"DimVal({self.dim})"


class Poison:
    def __init__(self, why):
        self.why = why


class Store:
    __slots__ = ("bvars", "keys", "guard", "val")

    def __init__(self, bvars, keys, guard, val):
        self.bvars, self.keys, self.guard, self.val = tuple(bvars), tuple(keys), guard, val

    def __repr__(self):
        return f"Store({[v[1] for v in self.bvars]} keys={[pi(k) for k in self.keys]} guard={self.guard} val={self.val})"


class Arr:
    """Array (or list of scalars when flavour == 'list').  Element at idx = last matching store.

    A view has base/imap instead of stores: element at idx = base element at imap(idx)."""

    def __init__(self, shape, stores=None, flavour="array", base=None, imap=None):
        self.shape = tuple(shape)
        self.stores = stores if stores is not None else []
        self.flavour = flavour
        self.base, self.imap = base, imap
        self.home = None
        self.taint = []         # regions written through possible views
        self.readonly = base is not None and base.readonly
        self.alias = None       # (array this may be a view of, number of writes to it when the view was taken)
        self.name = None        # set for arguments of the function under contract
        self.dtype = None       # b, i, f, c: what the elements can hold; None: that of the operands
        self.like = None
        self.elem = False       # copy that stands for an element of a list of symbolic length: writes are not followed

    def __repr__(self):
        return f"Arr{list(self.shape)}" + (f"<{self.name}>" if self.name else "")


class LList:
    """Python list: concrete items, or symbolic length (dim, var, template)."""

    def __init__(self, items=None, sym=None):
        self.items, self.sym = items, sym
        self.arg = None         # set for list arguments of the function under contract
        self.cat = None         # symbolic lists it was extended by
        self.home = None
        self.poison = None
        self.elem = False

    def __repr__(self):
        return f"LList({self.items if self.sym is None else self.sym})"


class SDict:
    def __init__(self):
        self.conc = {}
        self.sort = None
        self.entries = []   # Store-like: bvars, (key,), guard, val(any value)
        self.home = None
        self.complete = True


class TupKey:
    """Hashable nested tuple of integers with the entries of an array of concrete or symbolic shape."""

    def __init__(self, arr):
        self.arr = arr

    def __repr__(self):
        return f"TupKey({self.arr})"


class Rng:
    def __init__(self):
        self.n = 0


class Func:
    def __init__(self, node, env, mod, name):
        self.node, self.env, self.mod, self.name = node, env, mod, name


class Builtin:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"Builtin({self.name})"


class Module:
    def __init__(self, name):
        self.name = name


class Opaque:
    def __init__(self, tag, data=None):
        self.tag, self.data = tag, data


class PyExc(Exception):
    """Exception raised by the interpreted program."""

    def __init__(self, etype, msg=""):
        self.etype, self.msg = etype, msg
        super().__init__(f"{etype}: {msg}")


def vsubst(x, m):
    """Substitute index variables in any value."""
    if not m:
        return x
    if isinstance(x, (Poly, Cond)):
        return x.subst(m)
    if isinstance(x, Ix):
        return Ix(any_subst(x.t, m), x.pos)
    if isinstance(x, Arr):
        if x.base is not None:
            raise Undecided("substitution in a view")
        a = Arr(x.shape, [sub_store(s, m) for s in x.stores], x.flavour)
        a.dtype, a.home, a.name = x.dtype, x.home, x.name
        a.elem, a.readonly = True, x.readonly
        a.alias = x.alias and x.alias[:2] + (None,)
        a.taint = [(None, w) for _, w in x.taint]
        return a
    if isinstance(x, LList):
        if x.sym is not None:
            d, v, t = x.sym
            mm = {k: w for k, w in m.items() if k != v}
            r = LList(sym=(d, v, vsubst(t, mm)))
        else:
            r = LList(items=[vsubst(i, m) for i in x.items])
        r.home, r.elem, r.poison, r.arg = x.home, True, x.poison, x.arg
        if x.cat:
            raise Undecided("substitution in an extended list")
        return r
    if isinstance(x, TupKey):
        return TupKey(vsubst(x.arr, m))
    if isinstance(x, tuple):
        return tuple(vsubst(i, m) for i in x)
    if isinstance(x, Opaque) and x.tag == "perm":
        return Opaque("perm", (any_subst(x.data[0], m), x.data[1]))
    if isinstance(x, (Opaque, SDict)) and any(v[1] in repr(vars(x)) for v in m):
        if isinstance(x, Opaque) and isinstance(x.data, (tuple, Arr, Poly, Ix, Cond)):
            return Opaque(x.tag, vsubst(x.data, m))
        raise Undecided("substitution in " + (x.tag if isinstance(x, Opaque) else "a dictionary"))
    return x


def is_scalar(x):
    return isinstance(x, (Poly, Ix, Cond, DimVal, int, float, complex, bool, Fr)) and not isinstance(x, Arr)


def num(x):
    """Numeric scalar -> Poly."""
    if isinstance(x, Poly):
        return x
    if isinstance(x, DimVal):
        return size_atom(x.dim)
    if isinstance(x, Ix):
        if isinstance(x.t, int):
            return Poly.const(x.t)
        raise Undecided("index used as a number")
    if x is None or isinstance(x, str):
        raise PyExc("TypeError", "number expected")
    return aspoly(x)


def sub_store(s, m):
    m2 = {k: v for k, v in m.items() if k not in s.bvars}
    if not m2:
        return s
    # avoid capture
    clash = set()
    for t in m2.values():
        clash |= vars_of(t)
    ren = {v: ("v", f"{v[1]}'{next(_cnt)}", v[2]) for v in s.bvars if v in clash}
    bv = tuple(ren.get(v, v) for v in s.bvars)
    keys, guard, val = s.keys, s.guard, s.val
    if ren:
        keys, guard, val = tuple(any_subst(k, ren) for k in keys), guard.subst(ren), vsubst(val, ren)
    return Store(bv, tuple(any_subst(k, m2) for k in keys), guard.subst(m2), vsubst(val, m2))


def patterns(shape, generic=True):
    """Generic index tuples covering a shape: list of (idx tuple, vars)."""
    opts = []
    for d in shape:
        if isinstance(d, BDim):
            o = []
            for c in range(d.c):
                i = fresh(d.base)
                o.append((("b", c, i), [i]))
            opts.append(o)
        elif isinstance(d, PDim):
            i = fresh(d)
            vs = []
            for q in i[1]:
                if q[0] != "v":
                    raise Undecided("nested structured extent")
                vs.append(q)
            opts.append([(i, vs)])
        elif d == 1:
            opts.append([(0, [])])
        elif isinstance(d, int) and not generic:
            opts.append([(q, []) for q in range(d)])
        else:
            i = fresh(d)
            opts.append([(i, [i])])
    out = []
    for combo in itertools.product(*opts):
        out.append((tuple(c[0] for c in combo), [v for c in combo for v in c[1]]))
    return out


def elements(shape, fn):
    """[(index, variables, fn(index))] covering the shape; literal extents index by index where needed."""
    try:
        return [(idx, vs, fn(idx)) for idx, vs in patterns(shape)]
    except GenericIndex:
        return [(idx, vs, fn(idx)) for idx, vs in patterns(shape, False)]


def mkarr(shape, fn, flavour="array", dtype=None):
    st = [Store(vs, idx, TRUE, x) for idx, vs, x in elements(shape, fn)]
    a = Arr(shape, st, flavour)
    a.dtype = dtype
    return a
