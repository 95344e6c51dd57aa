"""Expression semantics: Python operators, builtins and the part of NumPy that spgrep uses (exact real arithmetic)."""
from __future__ import annotations

import ast
import math

from values import *  # noqa
from terms import _cnt

PI = Poly.base(("A", "pi", (), 0))


# ------------------------------------------------------------------ expressions
def ev(self, e, env):
    t = type(e)
    if t is ast.Constant:
        return e.value
    if t is ast.Name:
        return self.lookup(env, e.id)
    if t is ast.Attribute:
        return self.attr(self.ev(e.value, env), e.attr)
    if t is ast.Call and isinstance(e.func, ast.Name) and e.func.id == "next" and e.args and isinstance(e.args[0], ast.GeneratorExp):
        return first_of(self, e, env)
    if t is ast.Call:
        return self.call(e, env)
    if t is ast.BinOp:
        return self.binop(type(e.op).__name__, self.ev(e.left, env), self.ev(e.right, env))
    if t is ast.UnaryOp:
        return self.unary(type(e.op).__name__, self.ev(e.operand, env))
    if t is ast.BoolOp:
        isand = isinstance(e.op, ast.And)
        for n, x in enumerate(e.values):
            v = self.ev(x, env)
            if n == len(e.values) - 1:
                return v
            tv = self.truth(v)
            if isand and not tv:
                return v if not isinstance(v, (Cond, Arr)) else False
            if not isand and tv:
                return v if not isinstance(v, (Cond, Arr)) else True
    if t is ast.Compare:
        left = self.ev(e.left, env)
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, env)
            c = self.compare(type(op).__name__, left, right)
            if len(e.ops) == 1:
                return c
            if not self.truth(c):
                return False
            left = right
        return True
    if t is ast.IfExp:
        return self.ev(e.body if self.truth(self.ev(e.test, env)) else e.orelse, env)
    if t is ast.Subscript:
        o = self.ev(e.value, env)
        if isinstance(o, (Builtin, Opaque)) and not (isinstance(o, Opaque) and o.tag in ("range", "val")):
            return o
        return self.getitem(o, self.ev_index(e.slice, env))
    if t in (ast.List, ast.Tuple):
        items = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                k, it = self.iter_spec(self.ev(x.value, env))
                if k != "conc":
                    raise Undecided("starred of symbolic length")
                items += it
            else:
                items.append(self.ev(x, env))
        if t is ast.Tuple:
            return tuple(items)
        return self.new(LList(items=items))
    if t in (ast.ListComp, ast.GeneratorExp):
        return self.comp(e, env)
    if t is ast.DictComp:
        d = self.new(SDict())
        body = lambda en: self.dict_set(d, self.ev(e.key, en), self.ev(e.value, en))
        run_comp(self, e.generators, body, env)
        return d
    if t is ast.SetComp:
        return Opaque("set", ("comp", self.comp(e, env)))
    if t is ast.Dict:
        d = self.new(SDict())
        for k, v in zip(e.keys, e.values):
            self.dict_set(d, self.ev(k, env), self.ev(v, env))
        return d
    if t is ast.Set:
        return Opaque("set", ("conc", [self.ev(x, env) for x in e.elts]))
    if t is ast.JoinedStr:
        return "<fstring>"
    if t is ast.Lambda:
        return Func(e, env, None, "<lambda>")
    if t is ast.NamedExpr:
        v = self.ev(e.value, env)
        env[e.target.id] = v
        return v
    if t is ast.Starred:
        raise Undecided("starred")
    raise Undecided(f"expression {t.__name__}")


def several(x):
    return isinstance(x, Arr) and any(isinstance(d, Several) for d in x.shape) or isinstance(x, (tuple, list)) and any(several(y) for y in x)


def whole(*xs):
    """Operations that would have to know how many axes there are."""
    if any(several(x) for x in xs):
        raise Undecided("array with any number of axes")


# functions of an array as a whole
WHOLE = ("einsum", "linalg.norm", "sum", "allclose", "isclose", "zeros_like", "ones_like", "empty_like", "abs", "conj", "conjugate", "real", "imag")


def reshape_axes(self, a, new):
    """Array of any number of axes flattened, or given them back."""
    data = [d for d in a.shape if d != 1]
    if isinstance(new, Opaque) and new.tag in ("shape", "shape-list") and not any(isinstance(d, Ones) for d in data) and (
            any(isinstance(d, Ones) for d in new.data) or len(data) > 1) and all(not isinstance(d, Several) or d.rank is not None for d in data):
        old = [(d, k) for k, d in enumerate(a.shape) if d != 1]
        at = [k for k, d in enumerate(new.data) if d != 1 and not isinstance(d, Ones)]
        if [d for d, _ in old] == [new.data[k] for k in at]:
            back = {o: k for (_, o), k in zip(old, at)}
            return self.may_view(self.mk(tuple(new.data), lambda i: self.get(a, tuple(i[back[o]] if o in back else 0 for o in range(len(a.shape))))), a)
    if isinstance(new, Opaque) and new.tag == "shape" and len(new.data) == len(data) == 1 and isinstance(new.data[0], Several):
        d = new.data[0]
        if data[0] in (d, d.flat):
            return self.may_view(self.mk(new.data, lambda i: self.get(a, tuple(0 if e == 1 else i[0] for e in a.shape))), a)
    if isinstance(new, (tuple, LList)) and len(data) == 1 and isinstance(data[0], Several) and len(a.shape) == 1:
        k, new = self.iter_spec(new)
        new = [int(x.const_value().re) if isinstance(x, Poly) and x.is_const() else x for x in new] if k == "conc" else []
        if all(isinstance(x, int) and x in (1, -1) for x in new) and new.count(-1) == 1:
            return self.may_view(self.mk(tuple(data[0].flat if x == -1 else 1 for x in new), lambda i: self.get(a, (i[new.index(-1)],))), a)
    raise Undecided("array with any number of axes")


def counts(self, p):
    """The number p as a sum of numbers of axes (each at least one, self.ctx.ranks) and a constant: its least value, or None."""
    least = 0
    for (b, fs), c in num(p).items():
        if b or c.im or c.re.denominator != 1 or fs and (c.re < 0 or Poly({((), fs): CQ(1)}) not in self.ctx.ranks):
            return None
        least += int(c.re)
    return least


def cells(shape):
    """The axes of an array one after another: [extent, axis it came from]."""
    for d in shape:
        if isinstance(d, Several) and d.rank is None:
            raise Undecided("array with any number of axes")
    return [[d, k] for k, d in enumerate(shape)]


def cell(self, cs, p):
    """The single axis at position p, several axes of extent one being split where they have to."""
    p, before = num(p), Poly()
    if (counts(self, p) or 0) < 0 or counts(self, p) is None:
        raise Undecided(f"axis {p!r}")
    for k, (d, src) in enumerate(cs):
        rest = p - before
        if not isinstance(d, Several):
            if not rest.d:
                return cs[k]
            before = before + 1
            continue
        after = d.rank - rest - 1
        if isinstance(d, Ones) and all(c is not None and c >= 0 for c in (counts(self, rest), counts(self, after))):
            new = [1, None]
            cs[k:k + 1] = [x for x in ([Ones(rest), None] if rest.d else None, new, [Ones(after), None] if after.d else None) if x]
            return new
        if not rest.d:
            break
        before = before + d.rank
    raise Undecided(f"axis {p!r} of {[d for d, _ in cs]}")


def assembled(self, a, cs):
    """The array of the axes cs of a; neighbouring axes of extent one are joined where there may be any number of them."""
    out, run = [], []

    def flush():
        if any(isinstance(d, Ones) for d, _ in run):
            out.append([Ones(sum((d.rank if isinstance(d, Ones) else Poly.const(1) for d, _ in run), Poly())), None])
        else:
            out.extend(run)
        del run[:]
    for c in cs:
        if isinstance(c[0], Ones) or c[0] == 1:
            run.append(c)
        else:
            flush()
            out.append(c)
    flush()
    at = {src: k for k, (_, src) in enumerate(out) if src is not None}
    return tuple(d for d, _ in out), lambda i: tuple(
        i[at[k]] if k in at else fresh(d) if isinstance(d, Ones) else 0 for k, d in enumerate(a.shape))


def swap_several(self, a, p, q):
    cs = cells(a.shape)
    x = cell(self, cs, p)
    y = cell(self, cs, q)
    if not any(c is x for c in cs):
        raise Undecided("axes")
    i, j = [next(k for k, c in enumerate(cs) if c is z) for z in (x, y)]
    cs[i], cs[j] = cs[j], cs[i]
    shape, back = assembled(self, a, cs)
    return self.may_view(self.mk(shape, lambda i: self.get(a, back(i))), a)


def sum_several(self, a, axis, keepdims):
    cs = cells(a.shape)
    x = cell(self, cs, axis)
    if x[1] is None:
        raise Undecided("axes")
    k, d = x[1], x[0]
    if keepdims:
        x[0], x[1] = 1, None
    else:
        cs[:] = [c for c in cs if c is not x]
    shape, back = assembled(self, a, cs)

    def el(idx):
        full = list(back(idx))
        return normalise(self.ctx, sum_over(self, d, lambda i: num(self.get(a, tuple(full[:k] + [i] + full[k + 1:])))))
    return self.mk(shape, el)


def as_shape(self, x):
    """A shape, or a concrete list or tuple of extents, as (kind, extents)."""
    if isinstance(x, Opaque) and x.tag in ("shape", "shape-list"):
        return "tuple" if x.tag == "shape" else "list", tuple(x.data)
    if isinstance(x, (tuple, LList)):
        k, s = self.iter_spec(x)
        if k == "conc":
            return "tuple" if isinstance(x, tuple) else "list", tuple(value_dim(self, y) for y in s)
    raise Undecided("shape")


def first_of(self, e, env):
    """next(x for ... if ...): the loop that returns its first element."""
    g = e.args[0]
    body = [ast.Return(g.elt)]
    for c in reversed(g.generators):
        for i in reversed(c.ifs):
            body = [ast.If(i, body, [])]
        body = [ast.For(c.target, c.iter, body, [], None)]
    body.append(ast.Return(e.args[1]) if len(e.args) > 1 else
                ast.Raise(ast.Call(ast.Name("StopIteration", ast.Load()), [], []), None))
    f = ast.FunctionDef("next", ast.arguments([], [], None, [], [], None, []), body, [], None)
    for x in ast.walk(f):
        ast.copy_location(x, e)
    ast.fix_missing_locations(f)
    return self.call_value(Func(f, env, None, "<next>"), [], {})


def run_comp(self, gens, body, env):
    from interp import assigned_names

    def rec(n, en):
        if n == len(gens):
            return body(en)
        g = gens[n]
        kind, it = self.iter_spec(self.ev(g.iter, en))

        def inner(e2, item):
            self.assign(g.target, item, e2)
            for c in g.ifs:
                if not self.truth(self.ev(c, e2)):
                    return
            rec(n + 1, e2)

        if kind == "conc":
            for x in it:
                inner(en, x)
        else:
            vs, item = it
            self.sym_loop(vs, lambda e2: inner(e2, item), en, [])
    rec(0, dict(env))


def comp(self, e, env):
    l = self.new(LList(items=[]))
    run_comp(self, e.generators, lambda en: self.append(l, self.ev(e.elt, en)), env)
    if l.sym is not None:
        return norm_list(self, l)
    return l


def norm_list(self, l):
    """A list of symbolic length holding scalars (or such lists) becomes an indexed store of list flavour."""
    if self.frames and l.home is not self.frames[-1]:
        return l
    d, v, t = l.sym
    if isinstance(t, Arr) and t.flavour == "list" and t.base is None or isinstance(t, (int, float, complex)) and not isinstance(t, bool):
        p = self.to_arr(t)
        a = self.new(Arr((d,) + p.shape, [], "list"))
        for idx, vs, x in elements(p.shape, lambda i: self.get(p, i)):
            a.stores.append(Store((v,) + tuple(vs), (v,) + idx, TRUE, x))
        return a
    return l


def ev_index(self, s, env):
    if isinstance(s, ast.Slice):
        return slice(*(None if x is None else self.ev(x, env) for x in (s.lower, s.upper, s.step)))
    if isinstance(s, ast.Tuple):
        return tuple(self.ev_index(x, env) for x in s.elts)
    return self.ev(s, env)


# ------------------------------------------------------------------ arrays: shapes and broadcasting
def bcast(self, shapes):
    n = max(len(s) for s in shapes)
    out = []
    for k in range(n):
        d = 1
        for s in shapes:
            m = k - (n - len(s))
            if m < 0:
                continue
            x = s[m]
            if x == 1:
                continue
            if d == 1:
                d = x
            elif d != x:
                if isinstance(d, int) and isinstance(x, int):
                    raise PyExc("ValueError", "shapes do not broadcast")
                raise Undecided(f"broadcast of extents {d} and {x}")
        out.append(d)
    return tuple(out)


def bget(self, a, idx, out):
    k = len(idx) - len(a.shape)
    return self.get(a, tuple(0 if d == 1 else i for d, i in zip(a.shape, idx[k:])))


def to_arr(self, x):
    """Scalar or list or array -> Arr (0-d for scalars)."""
    if isinstance(x, Arr):
        return x
    if is_scalar(x):
        a = Arr((), [Store((), (), TRUE, x)])
        a.const = True
        return a
    if isinstance(x, tuple):
        x = LList(items=list(x))
    whole(x)
    if isinstance(x, Opaque) and x.tag == "range":
        k, it = self.iter_spec(x)
        if k == "conc":
            x = LList(items=it)
        else:
            (v,), item = it
            return self.mk((v[2],), lambda i: counted(i[0]))
    if isinstance(x, LList):
        kind, s = self.lstate(x)
        if kind == "conc":
            if not s:
                return self.new(Arr((0,), []))
            whole(s)
            parts = [self.to_arr(i) for i in s]
            sh = parts[0].shape
            if any(p.shape != sh for p in parts):
                raise Undecided("ragged array")
            st = []
            for n, p in enumerate(parts):
                for idx, vs, x in elements(sh, lambda i: self.get(p, i)):
                    st.append(Store(vs, (n,) + idx, TRUE, x))
            return self.new(Arr((len(s),) + sh, st))
        d, v, t = s
        if isinstance(t, TupKey):
            t = t.arr
        whole(t)
        if isinstance(t, (LList, Arr, tuple)) or is_scalar(t):
            p = self.to_arr(t)
            st = []
            for idx, vs, x in elements(p.shape, lambda i: self.get(p, i)):
                st.append(Store((v,) + tuple(vs), (v,) + idx, TRUE, x))
            return self.new(Arr((d,) + p.shape, st))
    raise Undecided(f"array of {x!r}")


def elementwise(self, f, *xs):
    arrs = [self.to_arr(x) for x in xs]
    if all(a.shape == () for a in arrs) and not any(isinstance(x, Arr) for x in xs):
        return f(*xs)
    if any(several(a) for a in arrs) and len({a.shape for a in arrs if a.shape}) > 1:
        shs = [a.shape for a in arrs if a.shape]
        aligned = len({len(s) for s in shs}) == 1 and all(
            len({repr(d.rank if isinstance(d, Several) else Poly.const(1)) for d in ds}) == 1 and (
                not any(isinstance(d, Several) for d in ds) or all(isinstance(d, Several) and d.rank is not None for d in ds) and len({d for d in ds if not isinstance(d, Ones)}) <= 1)
            for ds in zip(*shs))
        if not aligned:
            whole(*arrs)
        sh = tuple(x[0] if len(x := [d for d in ds if not isinstance(d, Ones)]) else ds[0] for ds in zip(*shs))
        sh = tuple(d if isinstance(d, Several) else self.bcast([(e,) for e in ds])[0] for d, ds in zip(sh, zip(*shs)))
        return self.mk(sh, lambda i: f(*[self.get(a, tuple(0 if d == 1 else fresh(d) if isinstance(d, Ones) else x for d, x in zip(a.shape, i))) for a in arrs]))
    sh = self.bcast([a.shape for a in arrs])
    if sh == ():
        return f(*[self.get(a, ()) for a in arrs])
    return self.mk(sh, lambda i: f(*[bget(self, a, i, sh) for a in arrs]))


OPS = {"Add": lambda a, b: a + b, "Sub": lambda a, b: a - b, "Mult": lambda a, b: a * b}


def binop(self, op, a, b):
    if isinstance(a, (int, float, complex, str)) and isinstance(b, (int, float, complex, str)):
        if op == "Div" and not isinstance(a, str) and isinstance(a, int) and isinstance(b, int):
            return Poly.const(Fr(a, b)) if b and Fr(a, b).denominator != 1 else a / b
        try:
            return {"Add": lambda: a + b, "Sub": lambda: a - b, "Mult": lambda: a * b, "Div": lambda: a / b, "Mod": lambda: a % b,
                    "FloorDiv": lambda: a // b, "Pow": lambda: a ** b}[op]()
        except KeyError:
            raise Undecided(f"operator {op}")
    if isinstance(a, Module) or isinstance(b, Module):
        raise Undecided("operator on module")
    if op == "BitOr" and (isinstance(a, (Builtin, Opaque)) or isinstance(b, (Builtin, Opaque))):
        return Opaque("type")
    # lists / tuples
    if op == "Add" and any(isinstance(x, Opaque) and x.tag in ("shape", "shape-list") for x in (a, b)):
        (ka, sa), (kb, sb) = as_shape(self, a), as_shape(self, b)
        if ka != kb:
            raise PyExc("TypeError", "concatenation")
        return Opaque("shape" if ka == "tuple" else "shape-list", sa + sb)
    if op == "Mult" and isinstance(a, (LList, tuple)) and isinstance(b, Poly) and not b.is_const() and (counts(self, b) or 0) >= 1:
        k, s = self.iter_spec(a)
        if k == "conc" and s == [1]:
            return Opaque("shape" if isinstance(a, tuple) else "shape-list", (Ones(b),))
    if isinstance(a, (LList, tuple)) and isinstance(b, (LList, tuple)) and op == "Add":
        ka, sa = self.iter_spec(a)
        kb, sb = self.iter_spec(b)
        if ka == kb == "conc":
            return tuple(sa + sb) if isinstance(a, tuple) else self.new(LList(items=sa + sb))
        raise Undecided("concatenation of symbolic lists")
    if isinstance(a, (LList, tuple)) and isinstance(b, int) and op == "Mult":
        k, s = self.iter_spec(a)
        if k == "conc":
            return tuple(s * b) if isinstance(a, tuple) else self.new(LList(items=s * b))
    if isinstance(a, LList) and isinstance(b, DimVal) and op == "Mult":
        k, s = self.lstate(a)
        if k == "conc" and len(s) == 1 and (s[0] is None or is_scalar(s[0])):
            return self.new(LList(sym=(b.dim, fresh(b.dim), s[0])))
    if isinstance(a, (LList,)) or isinstance(b, (LList,)):
        if isinstance(a, Arr) or isinstance(b, Arr):
            a, b = self.to_arr(a), self.to_arr(b)
        elif op != "Add":
            raise Undecided("list operator")
    if any(isinstance(x, Arr) and x.flavour == "list" for x in (a, b)) and not any(isinstance(x, Arr) and x.flavour == "array" for x in (a, b)):
        raise Undecided("list operator")
    if op == "MatMult":
        return self.matmul(self.to_arr(a), self.to_arr(b))
    if isinstance(a, Arr) or isinstance(b, Arr):
        return self.elementwise(lambda x, y: scalar_op(self, op, x, y), a, b)
    return scalar_op(self, op, a, b)


def scalar_op(self, op, a, b):
    if isinstance(a, DimVal) and isinstance(b, DimVal) and op == "Mult":
        return DimVal(PDim((a.dim, b.dim)))
    if op == "Mult" and isinstance(a, DimVal) and isinstance(b, int) and not isinstance(b, bool) and b >= 1:
        return DimVal(BDim(b, a.dim)) if b > 1 else a
    if op == "Mult" and isinstance(b, DimVal) and isinstance(a, int) and not isinstance(a, bool) and a >= 1:
        return DimVal(BDim(a, b.dim)) if a > 1 else b
    if isinstance(a, DimVal) and isinstance(b, DimVal) and op == "FloorDiv" or op == "Mod" and isinstance(a, DimVal):
        raise Undecided("integer division of extents")
    if isinstance(a, Cond) and isinstance(b, Cond) and op in ("BitAnd", "BitOr", "BitXor", "Mult"):
        if op in ("BitAnd", "Mult"):
            return mk_and(a, b)
        if op == "BitOr":
            return mk_or(a, b)
        return mk_or(mk_and(a, mk_not(b)), mk_and(mk_not(a), b))
    x, y = num(a), num(b)
    if op in OPS:
        return OPS[op](x, y)
    if op == "Div":
        y = normalise(self.ctx, y)
        return x * inverse(self, y)
    if op == "Pow":
        if y.is_const():
            c = y.const_value()
            if c.im == 0 and c.re.denominator == 1:
                n = int(c.re)
                if n >= 0:
                    return x ** n
                return inverse(self, normalise(self.ctx, x)) ** (-n)
        return cfun(self, "pow", x, y)
    if op == "Mod":
        if y == Poly.const(1):
            return x - fun("floor", x)
        return fun("mod", normalise(self.ctx, x), normalise(self.ctx, y))
    if op == "FloorDiv":
        return fun("floor", normalise(self.ctx, x * inverse(self, normalise(self.ctx, y))))
    raise Undecided(f"operator {op}")


def equal_numbers(ctx, x, y):
    """x = y; split into real and imaginary part when both are visible."""
    p = aspoly(x) - aspoly(y)
    re, im = Poly(), Poly()
    for (b, fs), c in p.items():
        m = Poly({(b, fs): CQ(1)})
        if not is_real(ctx, m):
            return cmp("eq", x, y)
        re = re + m * Poly.const(c.re)
        im = im + m * Poly.const(c.im)
    return mk_and(cmp("eq", re, 0), cmp("eq", im, 0)) if im.d else cmp("eq", x, y)


def inverse(self, y):
    if len(y.d) == 1:
        ((b, fs), c), = y.d.items()
        if not b:
            return y.inverse()
    if not y.d:
        raise Undecided("division by zero")
    return Poly.base(("F", "id", (y,), 0), -1)


def cfun(self, name, *args):
    """Opaque complex-valued function."""
    self.ctx.cfun.add(name)
    return fun(name, *[normalise(self.ctx, num(a)) for a in args])


def unary(self, op, a):
    if op == "Not":
        if isinstance(a, Cond):
            return mk_not(a)
        return not self.truth(a)
    if op == "USub":
        if isinstance(a, (int, float, complex)) and not isinstance(a, bool):
            return -a
        return self.elementwise(lambda x: -num(x), a)
    if op == "UAdd":
        return a
    if op == "Invert":
        return self.elementwise(lambda x: mk_not(self.as_cond(x)), a)
    raise Undecided(op)


NP_CMP = {"Eq": "eq", "NotEq": "ne", "Lt": "lt", "LtE": "le", "Gt": "gt", "GtE": "ge"}


def compare(self, op, a, b):
    if op in ("Is", "IsNot"):
        if a is None or b is None:
            r = a is None and b is None
        elif isinstance(a, bool) and isinstance(b, bool):
            r = a is b
        elif isinstance(b, bool) and isinstance(a, Cond):
            c = a if b else mk_not(a)
            return c if op == "Is" else mk_not(c)
        else:
            raise Undecided("identity comparison")
        return r if op == "Is" else not r
    if op in ("In", "NotIn"):
        r = self.contains(b, a)
        return r if op == "In" else (mk_not(r) if isinstance(r, Cond) else not r)
    if isinstance(a, str) and isinstance(b, Opaque) and b.tag == "method":
        a, b = b, a
    if isinstance(a, Opaque) and a.tag == "method" and isinstance(b, str) and op in ("Eq", "NotEq"):
        c = Cond(f"the method is {b!r}", ())
        for d in self.texts - {c}:
            self.assume(mk_not(mk_and(c, d)))
        self.texts.add(c)
        return c if op == "Eq" else mk_not(c)
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        if any(isinstance(x, Opaque) and x.tag in ("method", "real") for x in (a, b)) and op not in ("Is", "IsNot") and not (a is None or b is None):
            raise Undecided("comparison of an arbitrary argument")
        r = a == b if (a is None or isinstance(a, str)) and (b is None or isinstance(b, str)) else False
        if op == "Eq":
            return r
        if op == "NotEq":
            return not r
        raise Undecided("ordering of strings")
    conc = (int, float, complex, bool)
    if isinstance(a, conc) and isinstance(b, conc):
        return {"Eq": lambda: a == b, "NotEq": lambda: a != b, "Lt": lambda: a < b, "LtE": lambda: a <= b, "Gt": lambda: a > b,
                "GtE": lambda: a >= b}[op]()
    if isinstance(a, Opaque) and a.tag == "set" or isinstance(b, Opaque) and b.tag == "set":
        c = set_equal(self, a, b)
        return c if op == "Eq" else mk_not(c)
    if isinstance(a, (tuple, TupKey, LList)) or isinstance(b, (tuple, TupKey, LList)):
        if isinstance(a, Arr) or isinstance(b, Arr):
            a, b = self.to_arr(a), self.to_arr(b)
        else:
            c = self.equal_values(a, b)
            if op == "Eq":
                return c
            if op == "NotEq":
                return mk_not(c)
            raise Undecided("ordering of sequences")
    if isinstance(a, Arr) and a.shape != () or isinstance(b, Arr) and b.shape != ():
        return self.elementwise(lambda x, y: scalar_cmp(self, op, x, y), a, b)
    if isinstance(a, Arr):
        a = self.get(a, ())
    if isinstance(b, Arr):
        b = self.get(b, ())
    return scalar_cmp(self, op, a, b)


def scalar_cmp(self, op, a, b):
    if isinstance(a, DimVal) and isinstance(b, DimVal) and a.dim == b.dim:
        return op in ("Eq", "LtE", "GtE")
    if isinstance(a, Ix) or isinstance(b, Ix):
        if isinstance(a, Ix) and isinstance(b, Ix):
            if a.pos != b.pos:
                raise Undecided("position compared with an element")
            c = mk_eqi(a.t, b.t)
        elif isinstance(a, Ix) and isinstance(b, int) or isinstance(b, Ix) and isinstance(a, int):
            i, n = (a, b) if isinstance(a, Ix) else (b, a)
            if n < 0:
                c = FALSE
            else:
                raise Undecided("index compared with a literal")
        else:
            raise Undecided("index compared with a number")
        if op == "Eq":
            return c
        if op == "NotEq":
            return mk_not(c)
        raise Undecided("ordering of indices")
    if isinstance(a, Cond) or isinstance(b, Cond):
        if isinstance(a, (Cond, bool)) and isinstance(b, (Cond, bool)):
            a, b = self.as_cond(a), self.as_cond(b)
            same = mk_or(mk_and(a, b), mk_and(mk_not(a), mk_not(b)))
            return same if op == "Eq" else mk_not(same)
    x, y = num(a), num(b)
    # booleans represented as 0/1 indicators
    if op in ("Eq", "NotEq"):
        i1, i2 = indicator(self, x), indicator(self, y)
        if i1 is not None and i2 is not None:
            same = mk_or(mk_and(i1, i2), mk_and(mk_not(i1), mk_not(i2)))
            return same if op == "Eq" else mk_not(same)
    x, y = normalise(self.ctx, x), normalise(self.ctx, y)
    if op in ("Eq", "NotEq"):
        e = equal_numbers(self.ctx, x, y)
        return e if op == "Eq" else mk_not(e)
    return {"Lt": lambda: cmp("lt", x, y),
            "LtE": lambda: cmp("le", x, y), "Gt": lambda: cmp("lt", y, x), "GtE": lambda: cmp("le", y, x)}[op]()


def indicator(self, p):
    """Cond for a polynomial that is a 0/1 indicator."""
    if not p.d:
        return FALSE
    if p == Poly.const(1):
        return TRUE
    if len(p.d) == 1:
        ((b, fs), c), = p.d.items()
        if not b and len(fs) == 1 and fs[0][1] == 1 and c == CQ(1):
            f = fs[0][0]
            if f[0] == "I":
                return f[1]
            if f[0] == "D":
                return mk_eqi(f[1], f[2])
    if len(p.d) == 2:
        q = Poly.const(1) - p
        if len(q.d) == 1:
            r = indicator(self, q)
            return None if r is None else mk_not(r)
    return None


def equal_values(self, a, b):
    """Python == of nested sequences / keys."""
    if isinstance(b, TupKey) and isinstance(a, tuple):
        a, b = b, a
    if isinstance(a, TupKey) and isinstance(b, tuple):
        if a.arr.shape[0] != len(b):
            if isinstance(a.arr.shape[0], int):
                return FALSE
            raise Undecided("key of symbolic length compared with a tuple")
        rows = [self.getitem(a.arr, q) for q in range(len(b))]
        return mk_and(*[self.as_cond(self.equal_values(TupKey(self.frozen(x, True)) if isinstance(x, Arr) else x, y)) for x, y in zip(rows, b)])
    if isinstance(a, TupKey) and isinstance(b, TupKey):
        x, y = a.arr, b.arr
        if len(x.shape) != len(y.shape):
            return FALSE
        if x.shape != y.shape:
            raise Undecided("keys of different shape")
        c = self.quant(x.shape, lambda i: scalar_cmp(self, "Eq", self.get(x, i), self.get(y, i)))
        return c
    if isinstance(a, (tuple, LList)) and isinstance(b, (tuple, LList)):
        ka, sa = self.iter_spec(a)
        kb, sb = self.iter_spec(b)
        if ka == kb == "conc":
            if len(sa) != len(sb):
                return FALSE
            return mk_and(*[self.as_cond(self.equal_values(x, y)) for x, y in zip(sa, sb)])
        A, B = self.to_arr(a), self.to_arr(b)
        if A.shape != B.shape:
            c = self.sequence_hook(a, b) if self.sequence_hook else None
            if c is None:
                raise Undecided("sequences of different symbolic length")
            return c
        return self.quant(A.shape, lambda i: scalar_cmp(self, "Eq", self.get(A, i), self.get(B, i)))
    if isinstance(a, Arr) or isinstance(b, Arr):
        raise PyExc("ValueError", "ambiguous")
    if isinstance(a, TupKey) or isinstance(b, TupKey) or isinstance(a, (tuple, LList)) or isinstance(b, (tuple, LList)):
        raise Undecided(f"comparison of {a!r} and {b!r}")
    return self.as_cond(self.compare("Eq", a, b))


def quant(self, shape, f):
    """forall indices of shape: f(idx)"""
    cs = []
    for idx, vs, c in elements(shape, f):
        c = self.as_cond(c)
        c = ctx_simplify_cond(self.ctx, c)
        for v in reversed(vs):
            c = canon_all(v, c)
        cs.append(c)
    return mk_and(*cs)


def canon_all(v, c):
    if c.op == "true" or not occ(v, c):
        return c
    return mk_all(v, c)


def set_equal(self, a, b):
    """Equality of set(row of a table) and set(range(order)): surjectivity."""
    def seq(x):
        if isinstance(x, Opaque) and x.tag == "set":
            k, d = x.data
            if k == "conc":
                return ("conc", d)
            return ("seq", d)
        raise Undecided("set comparison")
    x, y = seq(a), seq(b)
    if x[0] == y[0] == "conc" and all(isinstance(q, (int, str, bool)) for q in x[1] + y[1]):
        return TRUE if set(x[1]) == set(y[1]) else FALSE

    def rng_dim(q):
        if q[0] == "seq" and isinstance(q[1], Opaque) and q[1].tag == "range":
            lo, hi, st = q[1].data
            if lo == 0 and st == 1 and isinstance(hi, DimVal):
                return hi.dim
        return None
    if rng_dim(x) is not None:
        x, y = y, x
    d = rng_dim(y)
    if d is None or x[0] != "seq":
        raise Undecided("set comparison")
    arr = self.to_arr(x[1])
    if len(arr.shape) != 1:
        raise Undecided("set of rows")
    t = fresh(d, "s")
    w = fresh(arr.shape[0], "s")
    e = self.get(arr, (w,))
    if not isinstance(e, Ix):
        raise Undecided("set of numbers")
    if self.fits(d, e.t) is not True or e.pos != counted(t).pos:
        raise Undecided("set members out of range")
    wc, tc = ("v", "@0", w[2]), ("v", "@1", t[2])
    c = mk_eqi(e.t, t).subst({w: wc, t: tc})
    return mk_all(tc, mk_ex(wc, c))


# ------------------------------------------------------------------ indexing
def getitem(self, o, k):
    if isinstance(o, tuple):
        if isinstance(k, slice):
            return o[conc_slice(k)]
        if isinstance(k, int):
            try:
                return o[k]
            except IndexError:
                raise PyExc("IndexError", "tuple")
        if isinstance(k, Poly) and k.is_const():
            return o[int(k.const_value().re)]
        raise Undecided("tuple index")
    if isinstance(o, LList):
        kind, s = self.lstate(o, k.t if isinstance(k, Ix) else None)
        if kind == "conc":
            if isinstance(k, slice):
                r = s[conc_slice(k)]
                return self.new(LList(items=r))
            if isinstance(k, int):
                try:
                    return s[k]
                except IndexError:
                    raise PyExc("IndexError", "tuple")
            raise Undecided("list index")
        d, v, t = s
        if isinstance(k, Poly) and len(k.d) == 1 and (f := next(iter(k.d))[1]) and k == atom("val", *f[0][0][2]) and len(f[0][0][2]) == 1:
            k = counted(f[0][0][2][0])  # the number of an element
        if isinstance(k, slice) and k == slice(None, None, None):
            return self.new(LList(sym=s))
        if isinstance(k, slice) and k == slice(None, None, -1):
            w = fresh(d)
            return self.new(LList(sym=(d, w, vsubst(t, {v: ("f", "reversed", (w,), d)}))))
        if isinstance(k, Ix):
            self.placed(d, k)
            if self.fits(d, k.t) is not True:
                raise Undecided("list index out of range?")
            # element access through a list of symbolic length: row view for lists of lists
            sel = vsubst(t, {v: k.t})
            if isinstance(t, (LList, Arr)):
                raise_if_mutable(self, o)
            return sel
        if isinstance(k, int):
            if isinstance(d, int) or isinstance(d, Dim) and k >= -1:
                # k-th element: exists only if the list is long enough
                n = Poly.const(d) if isinstance(d, int) else size_atom(d)
                if (k > 0 or not getattr(d, "nonempty", True)) and not self.truth(cmp("lt", Poly.const(k if k >= 0 else -k - 1), n)):
                    raise PyExc("IndexError", "list index")
                w = ("f", f"at{k}", (d.name if isinstance(d, Dim) else d,), d)
                return vsubst(t, {v: w})
        raise Undecided("index into a list of symbolic length")
    if isinstance(o, SDict):
        return self.dict_get(o, k)
    if isinstance(o, dict):
        try:
            return o[k]
        except KeyError:
            raise PyExc("KeyError")
        except TypeError:
            raise Undecided("dict index")
    if isinstance(o, str):
        if isinstance(k, int):
            return o[k]
    if isinstance(o, TupKey):
        return self.getitem(o.arr, k)
    if isinstance(o, list):
        return o[k]
    if not isinstance(o, Arr):
        raise Undecided(f"index of {o!r}")
    ks = k if isinstance(k, tuple) else (k,)
    if several(o):
        ns = len([d for d in itertools.takewhile(lambda d: not isinstance(d, Several), o.shape)])
        lead = ks[:-1] if ks and ks[-1] is Ellipsis else ks
        if len(lead) > ns or not all(isinstance(x, (int, Ix)) for x in lead):
            whole(o)
    ks = expand_ellipsis(o, ks)
    if any(is_fancy(x) for x in ks):
        return self.fancy(o, ks)
    shape, mapper = basic_index(self, o, ks)
    if shape == ():
        return self.get(o, mapper(()))
    v = Arr(shape, None, o.flavour, base=o, imap=mapper)
    v.home = self.frames[-1] if self.frames else None
    v.dtype = o.dtype
    return v


def raise_if_mutable(self, o):
    pass


def conc_slice(k):
    for x in (k.start, k.stop, k.step):
        if x is not None and not isinstance(x, int):
            raise Undecided("symbolic slice")
    return k


def is_fancy(x):
    return isinstance(x, (LList, Arr)) or isinstance(x, tuple) or (isinstance(x, Opaque) and x.tag == "range")


def expand_ellipsis(o, ks):
    n = sum(1 for x in ks if x is not None and x is not Ellipsis)
    # boolean arrays consume their rank
    n += sum(len(x.shape) - 1 for x in ks if isinstance(x, Arr) and is_bool_arr(x))
    out = []
    seen = False
    for x in ks:
        if x is Ellipsis:
            out += [slice(None)] * (len(o.shape) - n)
            seen = True
        else:
            out.append(x)
    if not seen:
        out += [slice(None)] * (len(o.shape) - n)
    if n > len(o.shape):
        raise PyExc("IndexError", "too many indices")
    return out


def is_bool_arr(x):
    a = x
    while a.base is not None:
        a = a.base
    return bool(a.stores) and all(isinstance(s.val, (Cond, bool)) for s in a.stores)


def index_scalar(self, d, k):
    """Index value k into extent d -> index term."""
    if isinstance(k, Ix):
        self.placed(d, k)
        c = self.fits(d, k.t) if not isinstance(k.t, int) else True
        if c is False:
            raise PyExc("IndexError", "tuple")
        if c is not True and not self.truth(c):
            raise PyExc("IndexError", "tuple")
        return k.t
    if isinstance(k, Poly) and not k.is_const() and not isinstance(d, int):     # counted from the end of the axis
        q = k - size_atom(d)
        if q.is_const() and q.const_value().re < 0:
            k = q
    if isinstance(k, Poly) and k.is_const() and k.const_value().im == 0 and k.const_value().re.denominator == 1:
        k = int(k.const_value().re)
    if isinstance(k, bool):
        raise Undecided("boolean index")
    if isinstance(k, int):
        if isinstance(d, int):
            if not -d <= k < d:
                raise PyExc("IndexError", "out of bounds")
            return k % d
        if isinstance(d, Dim):
            if (k not in (0, -1) or not getattr(d, "nonempty", True)) and not self.truth(
                    cmp("lt", Poly.const(k if k >= 0 else -k - 1), size_atom(d))):
                raise PyExc("IndexError", "out of bounds")
            return ("f", f"at{k}", (d.name,), d)
        raise Undecided("literal index into a structured extent")
    raise Undecided(f"index {k!r}")


def basic_index(self, o, ks):
    shape, comps = [], []
    axis = 0
    for k in ks:
        if k is None:
            shape.append(1)
            comps.append(("new",))
            continue
        d = o.shape[axis]
        if isinstance(k, slice):
            lo, hi, st = k.start, k.stop, k.step
            if lo is None and hi is None and st is None:
                shape.append(d)
                comps.append(("all",))
            elif isinstance(d, BDim) and st is None:
                a, b = block_bound(d, lo, 0), block_bound(d, hi, d.c)
                if b - a == 1:
                    shape.append(d.base)
                    comps.append(("blk", a))
                else:
                    shape.append(BDim(b - a, d.base))
                    comps.append(("blks", a))
            elif isinstance(d, int) and all(x is None or isinstance(x, int) for x in (lo, hi, st)):
                r = range(d)[k]
                shape.append(len(r))
                comps.append(("rng", r))
            elif isinstance(hi, DimVal) and hi.dim == d and lo in (None, 0) and st is None:
                shape.append(d)
                comps.append(("all",))
            else:
                raise Undecided("slice")
        else:
            comps.append(("ix", index_scalar(self, d, k)))
        axis += 1

    def mapper(idx, comps=tuple(comps)):
        out = []
        n = 0
        for c in comps:
            if c[0] == "new":
                n += 1
            elif c[0] == "ix":
                out.append(c[1])
            else:
                i = idx[n]
                n += 1
                if c[0] == "all":
                    out.append(i)
                elif c[0] == "blk":
                    out.append(("b", c[1], i))
                elif c[0] == "blks":
                    out.append(("b", i[1] + c[1], i[2]))
                else:
                    if isinstance(i, int):
                        out.append(c[1][i])
                    elif c[1] == range(len(c[1])):
                        raise GenericIndex("generic index into a literal slice")
                    else:
                        raise GenericIndex("generic index into a literal slice")
        return tuple(out)
    return tuple(shape), mapper


def block_bound(d, x, dflt):
    if x is None:
        return dflt
    if isinstance(x, int) and x == 0:
        return 0
    if isinstance(x, DimVal):
        if x.dim == d.base:
            return 1
        if isinstance(x.dim, BDim) and x.dim.base == d.base:
            return x.dim.c
    if isinstance(x, Poly):
        q = x * size_atom(d.base).inverse()
        q = normalise(Ctx(), q)
        if q.is_const():
            return int(q.const_value().re)
    raise Undecided("block bound")


def fancy(self, o, ks):
    """Advanced indexing: boolean masks, integer index arrays."""
    # boolean mask on the leading axes
    for n, k in enumerate(ks):
        if isinstance(k, LList):
            ks[n] = self.to_arr(k)
        elif isinstance(k, tuple):
            ks[n] = self.to_arr(LList(items=list(k)))
        elif isinstance(k, Opaque) and k.tag == "range":
            ks[n] = self.to_arr(k)
    masks = [k for k in ks if isinstance(k, Arr) and is_bool_arr(k)]
    if masks:
        if len(masks) != 1 or len(masks[0].shape) != 1:
            raise Undecided("boolean mask")
        m = masks[0]
        n = ks.index(m)
        d = o.shape[n]
        if m.shape[0] != d:
            raise Undecided("mask length")
        v = fresh(d)
        c = self.as_cond(self.get(m, (v,)))
        sub = self.filtered(d, v, c)
        ks = list(ks)
        ks[n] = self.mk((sub,), lambda i: Ix(i[0]))
    adv = [n for n, k in enumerate(ks) if isinstance(k, Arr)]
    arrs = [ks[n] for n in adv]
    sh = self.bcast([a.shape for a in arrs])
    contiguous = adv == list(range(adv[0], adv[-1] + 1))
    # scalar indices next to index arrays are broadcast too
    axes = []
    axis = 0
    rest_shape = []
    where = None
    out_pos = 0
    for n, k in enumerate(ks):
        if k is None:
            rest_shape.append((1, "new", None))
            continue
        d = o.shape[axis]
        if isinstance(k, Arr):
            axes.append(("adv", k, d))
            if where is None:
                where = len(rest_shape)
        elif isinstance(k, slice):
            if k == slice(None):
                rest_shape.append((d, "all", None))
            else:
                s, mp = basic_index(self, Arr((d,)), [k])
                rest_shape.append((s[0], "map", mp))
            axes.append(("sl", len(rest_shape) - 1))
        else:
            axes.append(("ix", index_scalar(self, d, k)))
            if where is None:
                where = len(rest_shape)
            arrs_like = True
        axis += 1
    has_scalar = [n for n, k in enumerate(ks) if k is not None and not isinstance(k, (Arr, slice))]
    allpos = sorted(adv + has_scalar)
    if allpos != list(range(allpos[0], allpos[-1] + 1)):
        where = 0
    shape = tuple(r[0] for r in rest_shape[:where]) + sh + tuple(r[0] for r in rest_shape[where:])

    def elem(idx):
        a = idx[where:where + len(sh)]
        rest = idx[:where] + idx[where + len(sh):]
        full = []
        for x in axes:
            if x[0] == "ix":
                full.append(x[1])
            elif x[0] == "sl":
                r = rest_shape[x[1]]
                i = rest[x[1]]
                full.append(i if r[1] == "all" else r[2]((i,))[0])
            else:
                e = bget(self, x[1], a, sh)
                if isinstance(e, (int,)) or isinstance(e, Ix) or isinstance(e, Poly):
                    full.append(index_scalar(self, x[2], e))
                else:
                    raise Undecided("index array of non-indices")
        return self.get(o, tuple(full))
    if shape == ():
        return elem(())
    return self.mk(shape, elem)


def setitem(self, o, k, v):
    if isinstance(o, LList):
        if getattr(o, "arg", None):
            self.violations.append(("assignment to an element of argument", o.arg, repr(v)[:200]))
        if o.elem:
            raise Undecided("change of an element of a list of symbolic length")
        if isinstance(k, Ix) and o.sym is not None:
            self.placed(o.sym[0], k)
        if isinstance(k, Ix) and self.frames and o.home is not self.frames[-1] and o.sym is not None and not o.cat and not o.poison and not getattr(o, "arg", None):
            self.log(o, ("listset", o, k, v), None)
            return
        kind, s = self.lstate(o)
        if kind == "conc" and isinstance(k, int) and not isinstance(k, bool) and not -len(s) <= k < len(s):
            raise PyExc("IndexError", "list assignment index out of range")
        if kind == "conc" and isinstance(k, int) and (not self.frames or o.home is self.frames[-1]):
            o.items[k] = v
            return
        raise Undecided("list assignment")
    if isinstance(o, SDict):
        return self.dict_set(o, k, v)
    if not isinstance(o, Arr):
        raise Undecided("assignment to element")
    whole(o, v)
    ks = expand_ellipsis(o, k if isinstance(k, tuple) else (k,))
    if len(ks) == 1 and isinstance(ks[0], Arr) and is_bool_arr(ks[0]):
        return mask_assign(self, o, ks[0], v)
    if any(isinstance(x, Arr) and is_bool_arr(x) for x in ks):
        if len(o.shape) == len(ks[0].shape) and len(ks) == 1:
            return mask_assign(self, o, ks[0], v)
        m = ks[0]
        if isinstance(m, Arr) and is_bool_arr(m) and m.shape == o.shape[: len(m.shape)]:
            return mask_assign(self, o, m, v)
        raise Undecided("mask assignment")
    if any(is_fancy(x) for x in ks):
        return fancy_assign(self, o, ks, v)
    shape, mapper = basic_index(self, o, ks)
    val = self.to_arr(v)
    if len(val.shape) > len(shape) and any(d != 1 for d in val.shape[: len(val.shape) - len(shape)]):
        raise PyExc("ValueError", "could not broadcast")
    full = self.bcast([shape, val.shape]) if shape else ()
    if shape == () and val.shape != () and all(d == 1 for d in val.shape):
        val = self.mk((), lambda i: self.get(val0, (0,) * len(val0.shape))) if (val0 := val) is not None else val
    if shape == () and val.shape != ():
        raise PyExc("ValueError", "setting an array element with a sequence")
    if full != shape:
        raise PyExc("ValueError", "could not broadcast")
    for idx, vs, x in elements(shape, lambda i: bget(self, val, i, shape) if shape else self.get(val, ())):
        self.store(o, Store(vs, mapper(idx), TRUE, cast(o, x)))


def cast(o, v):
    return v


def mask_assign(self, o, m, v):
    """o[m] = scalar"""
    if m.shape != o.shape[: len(m.shape)]:
        raise Undecided("mask shape")
    val = self.to_arr(v)
    if val.shape != ():
        raise Undecided("mask assignment of an array")
    x = self.get(val, ())
    for idx, vs in patterns(o.shape):
        c = self.as_cond(self.get(m, idx[: len(m.shape)]))
        self.store(o, Store(vs, idx, c, x))


def fancy_assign(self, o, ks, v):
    ks = list(ks)
    for n, k in enumerate(ks):
        if is_fancy(k) and not isinstance(k, Arr):
            ks[n] = self.to_arr(k)
    adv = [k for k in ks if isinstance(k, Arr)]
    if len(adv) != 1:
        sh = self.bcast([a.shape for a in adv])
        if not all(isinstance(k, Arr) for k in ks):
            raise Undecided("fancy assignment")
        val = self.to_arr(v)
        for idx, vs in patterns(sh):
            keys = tuple(index_scalar(self, d, bget(self, a, idx, sh)) for a, d in zip(ks, o.shape))
            self.store(o, Store(vs, keys, TRUE, bget(self, val, idx, sh)))
        return
    a = adv[0]
    if len(a.shape) != 1:
        raise Undecided("fancy assignment")
    pos = ks.index(a)
    ks2 = [slice(None) if isinstance(k, Arr) else k for k in ks]
    # result shape: index array takes the place of its axis
    probe = Arr(o.shape)
    shape, mapper = basic_index(self, probe, ks2)
    axis_out = sum(1 for k in ks2[:pos] if k is None or isinstance(k, slice))
    axis_in = sum(1 for k in ks[:pos] if k is not None)
    shape = tuple(a.shape[0] if n == axis_out else d for n, d in enumerate(shape))
    val = self.to_arr(v)
    if self.bcast([shape, val.shape]) != shape:
        raise PyExc("ValueError", "could not broadcast")
    for idx, vs in patterns(shape):
        e = self.get(a, (idx[axis_out],))
        keys = list(mapper(tuple(0 if n == axis_out else i for n, i in enumerate(idx))))
        keys[axis_in] = index_scalar(self, o.shape[axis_in], e)
        self.store(o, Store(vs, tuple(keys), TRUE, bget(self, val, idx, shape)))


# ------------------------------------------------------------------ linear algebra
def reduce_sum(self, dims_vars, p):
    """Sum p over index variables (structured indices expand)."""
    for v in dims_vars:
        p = num(p).sum(v)
    return p


def sum_over(self, dim, f):
    """sum_{i in dim} f(i)"""
    if isinstance(dim, int):
        i = fresh(dim, "s") if dim > 1 else 0
        if dim == 0:
            return Poly()
        if dim == 1:
            return num(f(0))
        try:
            return num(f(i)).sum(i)
        except GenericIndex:
            tot = Poly()
            for q in range(dim):
                tot = tot + num(f(q))
            return tot
    if isinstance(dim, BDim):
        tot = Poly()
        for c in range(dim.c):
            i = fresh(dim.base, "s")
            tot = tot + num(f(("b", c, i))).sum(i)
        return tot
    if isinstance(dim, PDim):
        i = fresh(dim, "s")
        p = num(f(i))
        for q in i[1]:
            p = p.sum(q)
        return p
    i = fresh(dim, "s")
    return num(f(i)).sum(i)


def unify_dim(self, a, b):
    if a == b:
        return a
    if isinstance(a, int) and isinstance(b, int):
        raise PyExc("ValueError", f"dimension mismatch {a} {b}")
    raise Undecided(f"extents {a} and {b}")


def matmul(self, a, b):
    whole(a, b)
    if a.shape == () or b.shape == ():
        raise PyExc("ValueError", "matmul of scalar")
    va, vb = len(a.shape) == 1, len(b.shape) == 1
    ba = a.shape[:-2] if not va else ()
    bb = b.shape[:-2] if not vb else ()
    n = unify_dim(self, a.shape[-1], b.shape[-1 if vb else -2])
    bt = self.bcast([ba, bb]) if ba or bb else ()
    shape = bt + (() if va else (a.shape[-2],)) + (() if vb else (b.shape[-1],))

    def elem(idx):
        pre = idx[: len(bt)]
        rest = list(idx[len(bt):])
        ia = () if va else (rest.pop(0),)
        ib = () if vb else (rest.pop(0),)

        def term(k):
            pa = tuple(0 if d == 1 else i for d, i in zip(ba, pre[len(bt) - len(ba):])) if ba else ()
            pb = tuple(0 if d == 1 else i for d, i in zip(bb, pre[len(bt) - len(bb):])) if bb else ()
            return num(self.get(a, pa + ia + (k,))) * num(self.get(b, pb + (k,) + ib))
        return normalise(self.ctx, sum_over(self, n, term))
    if shape == ():
        return elem(())
    return self.mk(shape, elem)


def einsum(self, spec, ops):
    spec = spec.replace(" ", "")
    if "->" in spec:
        ins, out = spec.split("->")
    else:
        ins, out = spec, None
    ins = ins.split(",")
    if len(ins) != len(ops):
        raise PyExc("ValueError", "einsum operands")
    ops = [self.to_arr(o) for o in ops]
    for s, o in zip(ins, ops):
        if several(o):
            ns = [isinstance(d, Several) for d in o.shape]
            a = s.split("...")
            if sum(ns) > 1 or len(a) != 2 or len(a[0]) != ns.index(True) or len(a[0]) + len(a[1]) != len(ns) - 1 or sum(
                    "..." in x for x in ins) > 1 or out is None or "..." not in out:
                whole(o)
    dims = {}
    # ellipsis -> fresh letters
    ell = 0
    labs = []
    pool = [chr(c) for c in range(0x3b1, 0x3c9)]
    for s, o in zip(ins, ops):
        if "..." in s:
            n = len(o.shape) - len(s.replace("...", ""))
            ell = max(ell, n)
    for s, o in zip(ins, ops):
        l = []
        if "..." in s:
            a, b = s.split("...")
            n = len(o.shape) - len(a) - len(b)
            l = list(a) + pool[ell - n:ell] + list(b)
        else:
            l = list(s)
        if len(l) != len(o.shape):
            raise PyExc("ValueError", "einsum subscripts")
        for c, d in zip(l, o.shape):
            if c in dims and dims[c] != 1 and d != 1:
                unify_dim(self, dims[c], d)
            if c not in dims or dims[c] == 1:
                dims[c] = d
        labs.append(l)
    if out is None:
        flat = [c for l in labs for c in l if c not in pool]
        out_l = (pool[:ell] if ell else []) + sorted(c for c in set(flat) if flat.count(c) == 1)
    else:
        a = out.split("...")
        out_l = list(a[0]) + (pool[:ell] + list(a[1]) if len(a) > 1 else [])
    shape = tuple(dims[c] for c in out_l)
    summed = [c for c in dims if c not in out_l]

    def elem(idx):
        m = dict(zip(out_l, idx))

        def rec(n):
            if n == len(summed):
                p = Poly.const(1)
                for l, o in zip(labs, ops):
                    p = p * num(self.get(o, tuple(0 if d == 1 else m[c] for c, d in zip(l, o.shape))))
                return p
            c = summed[n]

            def f(i):
                m[c] = i
                r = rec(n + 1)
                return r
            return sum_over(self, dims[c], f)
        return normalise(self.ctx, rec(0))
    if shape == ():
        return elem(())
    return self.mk(shape, elem)


def flat_shape(self, shape):
    return shape


def reshape(self, a, new):
    return self.may_view(reshape_(self, a, new), a)


def reshape_(self, a, new):
    """C-order reshape when each new extent is a product of consecutive old extents (or the converse)."""
    old = list(a.shape)
    new = list(new)
    if any(isinstance(x, int) and x == -1 for x in new):
        return reshape_infer(self, a, new)
    parts_of = lambda sh: [q for d in sh if d != 1 for q in (d.parts if isinstance(d, PDim) else (d,))]
    if any(isinstance(d, PDim) for d in old) and parts_of(old) == parts_of(new):
        def unsplit(idx):
            comp = []
            for d, x in zip(new, idx):
                if isinstance(d, PDim):
                    if not (isinstance(x, tuple) and x[0] == "p"):
                        raise Undecided("index of a merged axis")
                    comp += list(x[1])
                elif d != 1:
                    comp.append(x)
            full = []
            for d in old:
                if isinstance(d, PDim):
                    full.append(("p", tuple(comp[:len(d.parts)])))
                    del comp[:len(d.parts)]
                else:
                    full.append(0 if d == 1 else comp.pop(0))
            return self.get(a, tuple(full))
        return self.mk(tuple(new), unsplit)
    # group old axes for every new axis
    groups = []
    pos = 0
    oldq = list(enumerate(old))

    def dim_of(x):
        return x
    i = 0
    plan = []
    for d in new:
        if d == 1:
            plan.append(("one",))
            continue
        while i < len(old) and old[i] == 1:
            i += 1
        if i < len(old) and old[i] == d:
            plan.append(("same", i))
            i += 1
            continue
        if isinstance(d, PDim):
            parts = list(d.parts)
            got = []
            for p in parts:
                while i < len(old) and old[i] == 1:
                    i += 1
                if i < len(old) and old[i] == p:
                    got.append(i)
                    i += 1
                else:
                    raise Undecided("reshape")
            plan.append(("merge", got))
            continue
        if isinstance(d, int):
            got, prod = [], 1
            while prod < d and i < len(old) and isinstance(old[i], int):
                prod *= old[i]
                got.append(i)
                i += 1
            if prod == d:
                plan.append(("mergeint", got))
                continue
        raise Undecided("reshape")
    while i < len(old) and old[i] == 1:
        i += 1
    if i != len(old):
        # split case: old PDim -> several new
        raise Undecided("reshape")

    def elem(idx):
        full = [0] * len(old)
        for p, x in zip(plan, idx):
            if p[0] == "same":
                full[p[1]] = x
            elif p[0] == "merge":
                if not (isinstance(x, tuple) and x[0] == "p"):
                    raise Undecided("reshape index")
                for q, y in zip(p[1], x[1]):
                    full[q] = y
            elif p[0] == "mergeint":
                if not isinstance(x, int):
                    raise Undecided("generic index into a flattened literal extent")
                for q in reversed(p[1]):
                    full[q] = x % old[q]
                    x //= old[q]
        return self.get(a, tuple(full))
    try:
        return self.mk(tuple(new), elem, dtype=a.dtype)
    except Undecided:
        raise


def reshape_infer(self, a, new):
    old = [d for d in a.shape if d != 1]
    k = new.index(-1)
    known = [d for n, d in enumerate(new) if n != k and d != 1]
    # leading and trailing known extents
    lead = [d for d in new[:k] if d != 1]
    trail = [d for d in new[k + 1:] if d != 1]
    if old[: len(lead)] != lead or (trail and old[-len(trail):] != trail):
        raise Undecided("reshape(-1)")
    mid = old[len(lead): len(old) - len(trail)]
    d = 1 if not mid else (mid[0] if len(mid) == 1 else PDim(tuple(mid)))
    if mid and all(isinstance(x, int) for x in mid):
        d = math.prod(mid)
    new = list(new)
    new[k] = d
    return self.reshape(a, tuple(new))


def list_index(self, l, x):
    """l.index(x) with ValueError when absent."""
    kind, s = self.lstate(l) if isinstance(l, LList) else self.iter_spec(l)
    if kind == "conc":
        for n, y in enumerate(s):
            if self.truth(self.equal_values(y, x)):
                return n
        raise PyExc("ValueError", "not in list")
    d, v, t = s
    if self.index_oracle is not None:
        r = self.index_oracle(self, d, v, t, x)
        if r is not None:
            return r
    raise Undecided("list.index on a list of symbolic length")


def contains(self, c, x):
    if isinstance(c, (tuple, LList)):
        k, s = self.iter_spec(c) if isinstance(c, tuple) else self.lstate(c)
        if k == "conc":
            return self.as_cond_or(*[self.compare("Eq", y, x) for y in s]) if hasattr(self, "as_cond_or") else cond_or(self, [self.equal_values(y, x) for y in s])
        d, v, t = s
        if self.index_oracle is not None:
            r = self.index_oracle(self, d, v, t, x, contains=True)
            if r is not None:
                return r
        raise Undecided("membership in a list of symbolic length")
    if isinstance(c, SDict):
        if isinstance(x, Ix):
            try:
                self.dict_get(c, x)
                return True
            except PyExc:
                return False
        return x in c.conc
    if isinstance(c, dict):
        return x in c
    if isinstance(c, Opaque) and c.tag == "set" and c.data[0] == "conc":
        return cond_or(self, [self.equal_values(y, x) for y in c.data[1]])
    raise Undecided("membership")


def cond_or(self, cs):
    cs = [self.as_cond(c) for c in cs]
    r = mk_or(*cs)
    return r


# ------------------------------------------------------------------ attributes and methods
def attr(self, o, name):
    if isinstance(o, Module):
        full = f"{o.name}.{name}"
        if full in ("numpy.pi", "math.pi"):
            return PI
        if full == "numpy.newaxis":
            return None
        if full in ("numpy.linalg", "numpy.random", "itertools.chain", "numpy.typing"):
            return Module(full)
        return Builtin(full)
    if isinstance(o, Builtin):
        return Builtin(f"{o.name}.{name}")
    for t, py in ((LList, list), (SDict, dict), (type(None), type(None)), (str, str)):
        if isinstance(o, t) and not hasattr(py, name):
            raise PyExc("AttributeError", name)
    if isinstance(o, Arr) and o.flavour == "list" and not hasattr(list, name):
        raise PyExc("AttributeError", name)
    if isinstance(o, Arr):
        if several(o) and name in ("shape", "ndim"):
            if name == "shape":
                return Opaque("shape", o.shape)
            return self.builtin_call("len", [Opaque("shape", o.shape)], {})
        if name not in ("copy", "conj", "conjugate", "reshape", "ravel", "flatten", "sum", "transpose"):
            whole(o)
        if name == "shape":
            return tuple(dim_value(d) for d in o.shape)
        if name == "T":
            n = len(o.shape)
            v = Arr(o.shape[::-1], None, o.flavour, base=o, imap=lambda i: i[::-1])
            v.home = self.frames[-1] if self.frames else None
            return v
        if name == "ndim":
            return len(o.shape)
        if name == "size":
            return DimVal(PDim(o.shape)) if len(o.shape) > 1 else dim_value(o.shape[0])
        if name in ("real", "imag"):
            return self.np_call("numpy." + name, [o], {})
        if name == "dtype":
            return Opaque("dtype", o)
        if name == "flags":
            return Opaque("flags", o)
    if isinstance(o, Poly) or isinstance(o, (int, float, complex)):
        if name in ("real", "imag"):
            return self.np_call("numpy." + name, [o], {})
    if isinstance(o, Opaque) and o.tag in ("exc", "excval"):
        return Opaque("type")
    return ("method", o, name)


def dim_value(d):
    return d if isinstance(d, int) else DimVal(d)


def value_dim(self, x):
    """Integer value -> extent."""
    if isinstance(x, bool):
        raise Undecided("extent")
    if isinstance(x, int):
        return x
    if isinstance(x, DimVal):
        return x.dim
    if isinstance(x, Poly) and x.is_const():
        return int(x.const_value().re)
    raise Undecided(f"extent {x!r}")


def shape_of(self, x):
    if isinstance(x, (tuple, LList)):
        k, s = self.iter_spec(x)
        if k != "conc":
            raise Undecided("symbolic rank")
        return tuple(value_dim(self, i) for i in s)
    return (value_dim(self, x),)


def call(self, e, env):
    f = self.ev(e.func, env)
    args = []
    for a in e.args:
        if isinstance(a, ast.Starred):
            k, it = self.iter_spec(self.ev(a.value, env))
            if k != "conc":
                raise Undecided("star argument")
            args += it
        else:
            args.append(self.ev(a, env))
    kw = {}
    for k in e.keywords:
        if k.arg is None:
            v = self.ev(k.value, env)
            if isinstance(v, SDict) and not v.entries:
                kw.update(v.conc)
                continue
            raise Undecided("double star")
        kw[k.arg] = self.ev(k.value, env)
    return self.call_value(f, args, kw)


def call_value(self, f, args, kw):
    if isinstance(f, Func):
        return self.call_func(f, args, kw)
    if isinstance(f, tuple) and len(f) == 3 and f[0] == "method":
        return self.method(f[1], f[2], args, kw)
    if isinstance(f, Builtin):
        if f.name in self.contracts:        # assumed contract of a dependency
            self.called.add(f.name)
            return self.contracts[f.name](self, {**{n: a for n, a in enumerate(args)}, **kw})
        return self.builtin_call(f.name, args, kw)
    if isinstance(f, Opaque) and f.tag == "exc":
        return Opaque("excval", (f.data, str(args[0]) if args else ""))
    if callable(f):
        return f(self, args, kw)
    raise Undecided(f"call of {f!r}")


def bind_args(self, f, args, kw):
    a = f.node.args
    if a.vararg or a.kwarg or a.posonlyargs:
        raise Undecided("varargs")
    names = [x.arg for x in a.args]
    env = {}
    for d in a.defaults + [x for x in a.kw_defaults if x is not None]:
        if any(isinstance(x, (ast.List, ast.Dict, ast.Set, ast.Call, ast.ListComp, ast.DictComp)) for x in ast.walk(d)):
            raise Undecided("mutable default argument")
    if len(args) > len(names):
        raise PyExc("TypeError", "too many arguments")
    for n, v in zip(names, args):
        env[n] = v
    for k, v in kw.items():
        if k in env or k not in names + [x.arg for x in a.kwonlyargs]:
            raise PyExc("TypeError", f"argument {k}")
        env[k] = v
    for n, d in zip(names[len(names) - len(a.defaults):], a.defaults):
        if n not in env:
            env[n] = self.ev(d, f.env)
    for x, d in zip(a.kwonlyargs, a.kw_defaults):
        if x.arg not in env and d is not None:
            env[x.arg] = self.ev(d, f.env)
    for n in names:
        if n not in env:
            raise PyExc("TypeError", f"missing {n}")
    return env


def call_func(self, f, args, kw):
    key = f"{f.mod}.{f.name}" if f.mod else f.name
    env = bind_args(self, f, args, kw)
    if key in self.contracts and f.name != getattr(self, "under_contract", None):
        self.called.add(key)
        return self.contracts[key](self, env)
    if isinstance(f.node, ast.Lambda):
        env["__parent__"] = f.env
        return self.ev(f.node.body, env)
    if getattr(f.node, "decorator_list", None):
        raise Undecided("decorated function")
    if self.depth > 12:
        raise Undecided("recursion depth")
    if f.mod:
        self.inlined.add(key)
    env["__parent__"] = f.env
    env["__mod__"] = f.mod
    self.depth += 1
    from interp import Ret
    try:
        self.exec_block(f.node.body, env)
        return None
    except Ret as r:
        return r.v
    finally:
        self.depth -= 1


def method(self, o, name, args, kw):
    if isinstance(o, Arr) and name == "reshape" and (several(o) or len(args) == 1 and isinstance(args[0], Opaque)):
        return reshape_axes(self, o, args[0] if len(args) == 1 and not isinstance(args[0], int) else tuple(args))
    if isinstance(o, Arr) and several(o) and name in ("ravel", "flatten", "sum", "transpose") and not kw:
        if name == "transpose" and len(args) == 1:
            return self.np_call("numpy.transpose", [o] + args, kw)
        if not args and name == "sum":
            return self.np_call("numpy.sum", [o], {})
        if not args and name != "transpose":
            r = reshape_axes(self, o, (-1,))
            return self.copy(r) if name == "flatten" else r
    if name not in ("copy", "conj", "conjugate", "append"):
        whole(o, *args)
    if isinstance(o, LList):
        if name == "append":
            return self.append(o, args[0])
        if o.elem and name not in ("index", "copy", "count"):
            raise Undecided("change of an element of a list of symbolic length")
        if name == "extend":
            k, it = self.iter_spec(args[0])
            if k != "conc":
                if o.sym is not None or o.items or (self.frames and o.home is not self.frames[-1]):
                    raise Undecided("extend by symbolic length")
                o.cat = (o.cat or []) + [(it[0], self.frozen(it[1]))]
                return None
            for x in list(it):
                self.append(o, x)
            return None
        if name == "index":
            return self.list_index(o, args[0])
        if name == "copy":
            return self.getitem(o, slice(None, None, None))
        if name == "clear" and (not self.frames or o.home is self.frames[-1]):
            o.items, o.sym = [], None
            return None
        if name == "count":
            raise Undecided("list.count")
        raise Undecided(f"list.{name}")
    if isinstance(o, tuple):
        if name == "index":
            return self.list_index(o, args[0])
    if isinstance(o, SDict):
        if name == "get":
            try:
                return self.dict_get(o, args[0])
            except PyExc:
                return args[1] if len(args) > 1 else None
        if name == "items" and not o.entries:
            return self.new(LList(items=[(k, v) for k, v in o.conc.items()]))
        if name == "keys" and not o.entries:
            return self.new(LList(items=list(o.conc)))
        if name == "values" and not o.entries:
            return self.new(LList(items=list(o.conc.values())))
        raise Undecided(f"dict.{name}")
    if isinstance(o, dict):
        if name == "items":
            return LList(items=[(k, v) for k, v in o.items()])
        if name in ("keys", "values"):
            return LList(items=list(getattr(o, name)()))
        if name == "get":
            return o.get(*args)
        raise Undecided(f"dict.{name}")
    if isinstance(o, str):
        if all(isinstance(a, (str, int)) for a in args):
            r = getattr(o, name)(*args) if name in ("startswith", "endswith", "replace", "split", "strip", "lower", "upper", "lstrip") else None
            if r is not None:
                return LList(items=r) if isinstance(r, list) else r
        if name == "format":
            return "<str>"
        raise Undecided(f"str.{name}")
    if isinstance(o, Rng):
        if name == "random":
            sh = shape_of(self, args[0] if args else kw.get("size")) if (args or kw) else ()
            nm = f"rnd{self.__dict__.setdefault('_nrnd', 0)}"
            self._nrnd += 1
            self.ctx.real.add(nm)
            if sh == ():
                return Poly.base(("A", nm, (), 0))
            return self.mk(sh, lambda i: Poly.base(("A", nm, tuple(i), 0)))
        raise Undecided(f"generator.{name}")
    if isinstance(o, Opaque) and o.tag == "excval":
        return "<str>"
    if isinstance(o, Arr) and o.flavour == "list":
        raise Undecided("list flavour")
    if isinstance(o, Arr) or is_scalar(o):
        if name in ("copy",):
            return self.copy(o) if isinstance(o, Arr) else o
        if kw and name not in ("conj", "conjugate", "sum", "all", "any", "transpose", "round", "trace", "mean", "max", "astype"):
            raise Undecided(f"keyword of {name}")
        if name == "astype":
            if set(kw) - {"copy", "dtype"}:
                raise Undecided("keyword of astype")
            r = astype(self, o, args[0] if args else kw["dtype"])
            if isinstance(r, Arr) and r is not o and r.base is None:
                r.dtype = element_kind(args[0] if args else kw["dtype"])
            return self.may_view(r, o) if kw else r
        if name == "tolist":
            if isinstance(o, Arr):
                return tolist(self, o)
            return o
        if name == "reshape":
            sh = shape_of(self, args[0]) if len(args) == 1 and isinstance(args[0], (tuple, LList)) else tuple(
                -1 if (isinstance(x, int) and x == -1) else value_dim(self, x) for x in args)
            return self.reshape(o, sh)
        if name in ("conj", "conjugate", "sum", "all", "any", "transpose", "dot", "round", "trace", "prod", "mean", "max", "min", "swapaxes"):
            if name == "transpose" and args and not isinstance(args[0], (tuple, LList)):
                args = [tuple(args)]
            r = self.np_call("numpy." + {"round": "around"}.get(name, name), [o] + args, kw)
            # an array of real type is its own conjugate
            return self.may_view(r, o) if name.startswith("conj") and isinstance(o, Arr) and o.dtype != "c" and isinstance(r, Arr) else r
        if name == "flatten":
            return self.copy(self.reshape(o, (-1,)))
        if name == "ravel":
            return self.reshape(o, (-1,))
        if name == "item" and isinstance(o, Arr) and all(d == 1 for d in o.shape):
            return self.get(o, tuple(0 for _ in o.shape))
        if name == "item" and not isinstance(o, Arr):
            return o
        if name == "tobytes" and isinstance(o, Arr):
            return TupKey(o)
        if name == "nonzero":
            return self.np_call("numpy.nonzero", [o], {})
    raise Undecided(f"method {name}")


def tolist(self, o):
    if len(o.shape) == 1:
        d = o.shape[0]
        if isinstance(d, int):
            return self.new(LList(items=[self.get(o, (i,)) for i in range(d)]))
        v = fresh(d)
        return self.new(LList(sym=(d, v, self.get(o, (v,)))))
    d = o.shape[0]
    if isinstance(d, int):
        return self.new(LList(items=[tolist(self, self.getitem(o, i)) for i in range(d)]))
    v = fresh(d)
    return self.new(LList(sym=(d, v, tolist(self, self.getitem(o, counted(v))))))


def astype(self, o, ty):
    nm = ty.name if isinstance(ty, Builtin) else (ty if isinstance(ty, str) else getattr(ty, "tag", "?"))
    nm = nm.split(".")[-1]
    if nm in ("int", "int_", "int64", "int32", "intp", "integer"):
        return self.elementwise(lambda x: to_int(self, x), o)
    if nm in ("float", "float_", "float64", "complex", "complex_", "complex128", "cdouble", "double"):
        if nm.startswith("f") or nm == "double":
            # discards the imaginary part
            return self.elementwise(lambda x: x if isinstance(x, Ix) else normalise(self.ctx, fun("re", num(x))), o)
        return self.elementwise(lambda x: x, o) if not isinstance(o, Arr) else self.copy(o)
    if nm in ("bool", "bool_"):
        return self.elementwise(lambda x: self.as_cond(x), o)
    raise Undecided(f"astype {nm}")


def to_int(self, x):
    if isinstance(x, (Ix, DimVal, int)) and not isinstance(x, bool):
        return x
    p = normalise(self.ctx, num(x))
    if is_integer_poly(self, p):
        return p
    if p.is_const():
        return int(p.const_value().re)
    return fun("trunc", p)


def is_integer_poly(self, p):
    for (b, fs), c in p.items():
        if c.im or c.re.denominator != 1:
            return False
        for f, q in fs:
            if q < 0:
                return False
            if f[0] == "A" and (f[1] in self.ctx.integer or f[1].startswith("#")):
                continue
            if f[0] == "F" and f[1] in ("rint", "floor", "trunc"):
                continue
            if f[0] in ("D", "I"):
                continue
            return False
    return True


# ------------------------------------------------------------------ builtins
def builtin_call(self, name, args, kw):
    if name.startswith("numpy.") or name.startswith("math.") or name.startswith("cmath."):
        if not name.startswith("numpy.") and name.split(".")[1] not in ("sqrt", "cos", "sin", "tan", "exp", "floor", "fabs", "log", "hypot"):
            raise Undecided(name)
        return self.np_call(name, args, kw)
    if name != "isinstance":
        whole(*args, *kw.values())
    if unknown := set(kw) - set(BUILTIN_KEYWORDS.get(name, ())):
        raise Undecided(f"keyword {sorted(unknown)} of {name}")
    if name == "len":
        x = args[0]
        if isinstance(x, Opaque) and x.tag == "shape" and all(not isinstance(d, Several) or d.rank is not None for d in x.data):
            return sum((d.rank if isinstance(d, Several) else Poly.const(1) for d in x.data), Poly())
        if isinstance(x, Arr):
            return dim_value(x.shape[0])
        if isinstance(x, tuple):
            return len(x)
        if isinstance(x, LList):
            k, s = self.lstate(x)
            return len(s) if k == "conc" else dim_value(s[0])
        if isinstance(x, (list, dict, str)):
            return len(x)
        if isinstance(x, SDict) and not x.entries:
            return len(x.conc)
        raise Undecided("len")
    if name == "range":
        a = [x if not (isinstance(x, Poly) and x.is_const()) else int(x.const_value().re) for x in args]
        if len(a) == 1:
            a = [0, a[0], 1]
        elif len(a) == 2:
            a = a + [1]
        return Opaque("range", tuple(a))
    if name in ("enumerate", "zip", "itertools.product", "map", "reversed", "itertools.permutations", "itertools.combinations",
                "itertools.chain.from_iterable", "itertools.chain"):
        return iterator(self, name, args, kw)
    if name in ("set", "list", "sorted") and args:
        x = args[0]
        if isinstance(x, LList) and x.cat and name in ("set", "sorted"):
            x = Opaque("cat", x.cat)
        if isinstance(x, Opaque) and x.tag == "cat":
            if name != "sorted":
                return x
            if self.sorted_hook is None:
                raise Undecided("sorted elements of joined lists")
            return self.sorted_hook(self, x.data)
    if name in ("list", "tuple") and len(args) == 1 and isinstance(args[0], Opaque) and args[0].tag in ("shape", "shape-list"):
        return Opaque("shape" if name == "tuple" else "shape-list", args[0].data)
    if name in ("list", "tuple"):
        if not args:
            return self.new(LList(items=[])) if name == "list" else ()
        x = args[0]
        if isinstance(x, Arr) and len(x.shape) >= 1:
            if isinstance(x.shape[0], int):
                it = [self.getitem(x, i) for i in range(x.shape[0])]
                return tuple(it) if name == "tuple" else self.new(LList(items=it))
            v = fresh(x.shape[0])
            r = self.new(LList(sym=(x.shape[0], v, self.frozen(self.getitem(x, counted(v))))))
            return r if name == "list" else TupKey(self.to_arr(r))
        k, it = self.iter_spec(x)
        if k == "conc":
            return tuple(it) if name == "tuple" else self.new(LList(items=it))
        vs, item = it
        if len(vs) == 1:
            r = self.new(LList(sym=(vs[0][2], vs[0], self.frozen(item))))
            return r if name == "list" else TupKey(self.to_arr(r))
        raise Undecided("list of a product")
    if name in ("all", "any"):
        k, it = self.iter_spec(args[0]) if not isinstance(args[0], Arr) else ("arr", None)
        if k == "arr":
            return self.np_call("numpy." + name, args, {})
        if k == "conc":
            cs = [self.as_cond(x) for x in it]
            return mk_and(*cs) if name == "all" else mk_or(*cs)
        vs, item = it
        c = self.as_cond(item)
        if name == "any":
            c = mk_not(c)
        for v in reversed(vs):
            c = canon_all(v, c)
        return c if name == "all" else mk_not(c)
    if name == "sum":
        start = args[1] if len(args) > 1 else kw.get("start", 0)
        k, it = self.iter_spec(args[0])
        if k == "conc":
            r = start
            for x in it:
                r = self.binop("Add", r, x)
            return r
        vs, item = it
        if isinstance(item, Arr):
            def f(i):
                p = num(self.get(item, i))
                for v in vs:
                    p = p.sum(v)
                return normalise(self.ctx, p)
            r = self.mk(item.shape, f)
            return r if start == 0 and not isinstance(start, (Arr, Poly)) else self.binop("Add", start, r)
        if isinstance(item, Cond):
            item = self.condpoly(item)
        p = num(item)
        for v in vs:
            p = p.sum(v)
        return num(start) + normalise(self.ctx, p)
    if name == "set":
        x = args[0] if args else LList(items=[])
        if isinstance(x, (Arr, LList)) or isinstance(x, Opaque) and x.tag == "range":
            try:
                k, it = self.iter_spec(x)
            except Undecided:
                k = "sym"
            if k == "conc":
                return Opaque("set", ("conc", it))
            return Opaque("set", ("seq", x))
        k, it = self.iter_spec(x)
        if k == "conc":
            return Opaque("set", ("conc", it))
        raise Undecided("set")
    if name == "isinstance":
        raise Undecided("isinstance")
    if name in ("int", "round"):
        x = args[0]
        if len(args) > 1 and args[1] is not None:
            raise Undecided(f"{name} with two arguments")
        if isinstance(x, (int, float)):
            return int(x) if name == "int" else round(x)
        if isinstance(x, Arr) and x.shape == ():
            x = self.get(x, ())
        if name == "round":
            return self.np_call("numpy.around", [x], {})
        return to_int(self, x)
    if name in ("float", "complex"):
        if not args:
            return 0.0
        x = args[0]
        if isinstance(x, str) or kw:
            raise Undecided(f"{name} of {x!r}")
        if isinstance(x, Arr) and x.shape == ():
            x = self.get(x, ())
        if name == "complex" and len(args) == 2:
            return binop(self, "Add", x, binop(self, "Mult", Poly.const(0, 1), args[1]))
        if name == "float" and isinstance(x, (Poly, complex)) and not is_real(self.ctx, normalise(self.ctx, num(x))):
            raise Undecided("float of a number not known to be real")
        return x if not isinstance(x, int) else float(x)
    if name == "bool":
        x = args[0]
        if isinstance(x, (Cond, Poly)) or isinstance(x, Arr):
            return self.as_cond(x)
        return self.truth(x)
    if name == "slice":
        return slice(*args)
    if name == "divmod":
        return (binop(self, "FloorDiv", args[0], args[1]), binop(self, "Mod", args[0], args[1]))
    if name in ("min", "max"):
        xs = list(args)
        if len(xs) == 1:
            k, xs = self.iter_spec(xs[0])
            if k != "conc":
                raise Undecided(name)
        if all(isinstance(x, (int, float)) for x in xs):
            return (min if name == "min" else max)(xs)
        if all(isinstance(x, DimVal) and x.dim == xs[0].dim for x in xs):
            return xs[0]
        r = xs[0]
        for x in xs[1:]:
            c = scalar_cmp(self, "LtE" if name == "min" else "GtE", r, x)
            r = r if self.truth(c) else x
        return r
    if name == "abs":
        return self.np_call("numpy.abs", args, {})
    if name == "pow" and len(args) == 2:
        return self.binop("Pow", args[0], args[1])
    if name == "sorted":
        k, it = self.iter_spec(args[0])
        if k == "conc" and all(isinstance(x, (int, float, str)) for x in it) and not kw:
            return LList(items=sorted(it))
        if k == "sym" and "key" in kw and len(it[0]) == 1:
            # some permutation of the elements (the order itself is not specified)
            (v,), item = it
            self.call_value(kw["key"], [item], {})
            return LList(sym=(v[2], v, vsubst(self.frozen(item), {v: ("f", "sorted", (v,), v[2])})))
        raise Undecided("sorted")
    if name in ("warnings.warn", "print"):
        return None
    if name == "dict":
        if not args and not kw:
            return self.new(SDict())
        raise Undecided("dict()")
    if name == "str":
        return "<str>"
    if name.startswith("copy.") and name.endswith("copy"):
        x = args[0]
        if isinstance(x, Arr):
            return self.copy(x)
        if isinstance(x, LList) and self.lstate(x)[0] == "conc" and name == "copy.copy":
            return self.new(LList(items=list(self.lstate(x)[1])))
        if isinstance(x, (LList, SDict)):
            raise Undecided(name)
        return x
    raise Undecided(f"builtin {name}")


def iterator(self, name, args, kw):
    if name == "enumerate":
        start = args[1] if len(args) > 1 else kw.get("start", 0)
        k, it = self.iter_spec(args[0])
        if k == "conc":
            return LList(items=[(n + start, x) for n, x in enumerate(it)])
        vs, item = it
        if len(vs) != 1 or start != 0:
            raise Undecided("enumerate of a product")
        return Opaque("symiter", (vs, (counted(vs[0]), self.frozen(item))))
    if name == "zip":
        sp = [self.iter_spec(a) for a in args]
        if all(s[0] == "conc" for s in sp):
            return LList(items=[tuple(x) for x in zip(*[s[1] for s in sp])])
        if all(s[0] == "sym" for s in sp):
            vs0 = sp[0][1][0]
            items = []
            for _, (vs, item) in sp:
                if len(vs) != 1 or len(vs0) != 1:
                    raise Undecided("zip of products")
                unify_dim(self, vs0[0][2], vs[0][2])
                items.append(vsubst(self.frozen(item), {vs[0]: vs0[0]}))
            return Opaque("symiter", (vs0, tuple(items)))
        raise Undecided("zip of concrete and symbolic")
    if name == "itertools.product":
        rep = kw.get("repeat", 1)
        sp = [self.iter_spec(a) for a in args] if rep == 1 else [self.iter_spec(a) for _ in range(rep) for a in args]
        if all(s[0] == "conc" for s in sp):
            import itertools as it_
            return LList(items=[tuple(x) for x in it_.product(*[s[1] for s in sp])])
        if all(s[0] == "sym" for s in sp):
            vs, items = [], []
            for _, (v, item) in sp:
                m = {x: fresh(x[2]) for x in v}
                vs += [m[x] for x in v]
                items.append(vsubst(self.frozen(item), m))
            return Opaque("symiter", (vs, tuple(items)))
        raise Undecided("product of concrete and symbolic")
    if name == "map":
        k, it = self.iter_spec(args[1])
        if len(args) > 2:
            raise Undecided("map")
        if k == "conc":
            return LList(items=[self.call_value(args[0], [x], {}) for x in it])
        vs, item = it
        return Opaque("symiter", (vs, self.frozen(self.call_value(args[0], [item], {}))))
    k, it = self.iter_spec(args[0])
    if k != "conc":
        raise Undecided(name)
    if name == "reversed":
        return LList(items=it[::-1])
    import itertools as it_
    if name == "itertools.permutations":
        return LList(items=list(it_.permutations(it, *args[1:])))
    if name == "itertools.combinations":
        return LList(items=list(it_.combinations(it, args[1])))
    raise Undecided(name)


def close(self, x, y, rtol, atol):
    x, y = num(x), num(y)
    d = normalise(self.ctx, x - y)
    if not d.d:
        return TRUE
    x, y = normalise(self.ctx, x), normalise(self.ctx, y)
    if x.is_const() and y.is_const():
        a, b = x.const_value(), y.const_value()
        if num(rtol).is_const() and num(atol).is_const():
            r, t = num(rtol).const_value().re, num(atol).const_value().re
            diff = abs(complex(a.re - b.re, a.im - b.im))
            lim = t + r * Fr(repr(abs(complex(b.re, b.im))))
            return TRUE if diff <= lim else FALSE
    return Cond("close", (x, y, normalise(self.ctx, num(rtol)), normalise(self.ctx, num(atol))))


def exp_(self, p):
    """exp(p) with p = 2 pi i q  ->  E(q)"""
    p = normalise(self.ctx, num(p))
    ph, other = Poly(), Poly()
    for (b, fs), c in p.items():
        pw = dict(fs).get(("A", "pi", (), 0), 0)
        rest = tuple((f, q) for f, q in fs if f != ("A", "pi", (), 0))
        q1 = Poly({(b, rest): c * CQ(0, Fr(-1, 2))})  # c/(2i)
        if pw == 1 and is_real(self.ctx, q1):
            ph = ph + q1
        else:
            other = other + Poly({(b, fs): c})
    r = E(ph)
    if other.d:
        r = r * cfun(self, "exp", other)
    return r


def np_call(self, name, args, kw):
    n = name.split(".", 1)[1]
    if n == "reshape" and len(args) == 2 and isinstance(args[0], Arr) and (several(args[0]) or isinstance(args[1], Opaque)):
        return reshape_axes(self, args[0], args[1])
    if n == "transpose" and several(args[0]):
        p = kw.get("axes", args[1] if len(args) > 1 else None)
        if isinstance(p, Opaque) and p.tag == "perm" and args[0].shape == (p.data[1],):
            a = args[0]
            return self.may_view(self.mk(a.shape, lambda i: self.get(a, (("f", "permuted", (p.data[0], i[0]), p.data[1]),))), a)
    if n == "swapaxes" and len(args) == 3 and not kw and several(args[0]):
        return swap_several(self, args[0], args[1], args[2])
    if n == "sum" and len(args) in (1, 2) and several(args[0]) and set(kw) <= {"axis", "keepdims"} and kw.get("keepdims", False) in (True, False):
        ax = args[1] if len(args) > 1 else kw.get("axis")
        if isinstance(ax, int) and not isinstance(ax, bool) or isinstance(ax, Poly):
            return sum_several(self, args[0], ax, kw.get("keepdims", False))
    if n not in WHOLE or kw.get("axis") is not None or len(args) > 1 and n not in ("allclose", "isclose", "einsum"):
        whole(*args, *kw.values())
    ctx = self.ctx
    dtype = kw.get("dtype")
    if n in ("zeros", "ones", "empty", "array", "asarray", "ascontiguousarray", "zeros_like", "ones_like", "empty_like") and len(args) == 2 and dtype is None:
        dtype, args = args[1], args[:1]
    elif n == "full" and len(args) == 3 and dtype is None:
        dtype, args = args[2], args[:2]
    kw = {k: v for k, v in kw.items() if k not in ("optimize", "dtype")}
    if unknown := set(kw) - set(KEYWORDS.get(n, ())):
        raise Undecided(f"keyword {sorted(unknown)} of {n}")
    if len(args) > POSITIONAL.get(n, 2):
        raise Undecided(f"positional arguments of {n}")
    A = lambda k, d=None: args[k] if len(args) > k else d
    kind = element_kind(dtype)
    if dtype is not None and n not in ("zeros", "ones", "empty", "full", "zeros_like", "ones_like", "empty_like", "eye", "identity", "array", "asarray",
                                       "ascontiguousarray"):
        raise Undecided(f"dtype of {n}")

    def axis_of():
        return kw.get("axis", A(1))
    if n in ("zeros", "ones", "empty", "full"):
        sh = shape_of(self, kw["shape"] if "shape" in kw else A(0))
        if n == "empty":
            if sh == ():
                raise Undecided("empty scalar")
            return self.kinded(self.new(Arr(sh, [])), kind or "f")
        val = Poly() if n == "zeros" else Poly.const(1) if n == "ones" else num(A(1, kw.get("fill_value")))
        if n == "full" and kind in ("i", "b"):
            raise Undecided("full with a type")
        return self.kinded(self.mk(sh, lambda i: val), kind or (None if n == "full" else "f"))
    if n in ("zeros_like", "ones_like", "empty_like"):
        a = self.to_arr(A(0))
        r = self.kinded(self.mk(a.shape, lambda i: Poly() if n != "ones_like" else Poly.const(1)), kind or a.dtype)
        r.like = a if r.dtype is None else None
        return r
    if n in ("eye", "identity"):
        d = value_dim(self, A(0))
        return self.kinded(self.mk((d, d), lambda i: delta(i[0], i[1])), kind or "f")
    if n in ("array", "asarray", "ascontiguousarray") and dtype is not None:
        src = A(0) if n != "array" and isinstance(A(0), Arr) and A(0).flavour == "array" else None
        r = self.to_arr(self.np_call(name, args, kw))
        if src is not None or kind != "c" or r.flavour == "list":
            r = astype(self, r, dtype)
        if isinstance(r, Arr) and r.base is None:
            r = self.kinded(r, kind)
        # without a change of type the array itself is returned
        return self.may_view(r, src) if src is not None and src.dtype in (None, kind) and isinstance(r, Arr) else r
    if n in ("array", "asarray", "ascontiguousarray"):
        x = A(0)
        if isinstance(x, Arr):
            return self.copy(x) if n == "array" else x
        if isinstance(x, LList):
            k, s = self.lstate(x)
            if k == "conc" and any(isinstance(i, LList) for i in s):
                x = LList(items=[self.np_call("numpy.array", [i], {}) if isinstance(i, LList) else i for i in s])
        return self.to_arr(x)
    if n == "arange":
        if len(args) == 1:
            d = value_dim(self, A(0))
            if isinstance(d, int):
                return self.to_arr(LList(items=list(range(d))))
            return self.mk((d,), lambda i: counted(i[0]))
        raise Undecided("arange")
    if n == "stack" or n == "vstack" and False:
        if kw.get("axis", A(1, 0)) == 0:
            return self.to_arr(A(0))
        raise Undecided("stack")
    if n in ("dot", "matmul", "inner", "vdot"):
        a, b = self.to_arr(A(0)), self.to_arr(A(1))
        if a.shape == () or b.shape == ():
            return self.binop("Mult", args[0], args[1])
        if n == "vdot":
            a = self.elementwise(lambda x: num(x).conj(ctx), a)
        if n == "inner" and len(b.shape) > 1:
            raise Undecided("inner")
        if n == "dot" and len(b.shape) > 2:
            raise Undecided("dot")
        if n == "dot" and len(a.shape) > 2 and len(b.shape) == 2:
            return self.matmul(a, b)
        return self.matmul(a, b)
    if n == "outer":
        a, b = self.to_arr(A(0)), self.to_arr(A(1))
        return self.mk(a.shape + b.shape, lambda i: num(self.get(a, i[: len(a.shape)])) * num(self.get(b, i[len(a.shape):])))
    if n == "kron":
        a, b = self.to_arr(A(0)), self.to_arr(A(1))
        if len(a.shape) != len(b.shape):
            raise Undecided("kron")

        def kd(x, y):
            return y if x == 1 else x if y == 1 else PDim((x, y)) if not (isinstance(x, int) and isinstance(y, int)) else x * y
        if any(isinstance(x, int) and isinstance(y, int) and x > 1 and y > 1 for x, y in zip(a.shape, b.shape)):
            raise Undecided("kron of literal extents")

        def el(idx):
            ia, ib = [], []
            for x, y, i in zip(a.shape, b.shape, idx):
                if x == 1:
                    ia.append(0), ib.append(i)
                elif y == 1:
                    ia.append(i), ib.append(0)
                else:
                    ia.append(i[1][0]), ib.append(i[1][1])
            return num(self.get(a, tuple(ia))) * num(self.get(b, tuple(ib)))
        return self.mk(tuple(kd(x, y) for x, y in zip(a.shape, b.shape)), el)
    if n == "einsum":
        r = self.einsum(args[0], args[1:])
        return self.may_view(r, args[1]) if len(args) == 2 else r
    if n == "tensordot":
        a, b = self.to_arr(A(0)), self.to_arr(A(1))
        ax = kw.get("axes", A(2, 2))
        if isinstance(ax, int):
            xa, xb = list(range(len(a.shape) - ax, len(a.shape))), list(range(ax))
        else:
            k, s = self.iter_spec(ax)
            xa, xb = [[q] if isinstance(q, int) else self.iter_spec(q)[1] for q in s]
        la = [chr(97 + i) for i in range(len(a.shape))]
        lb = [chr(110 + i) for i in range(len(b.shape))]
        for i, j in zip(xa, xb):
            lb[j] = la[i]
        out = [c for i, c in enumerate(la) if i not in [q % len(la) for q in xa]] + [c for j, c in enumerate(lb) if j not in [q % len(lb) for q in xb]]
        return self.einsum("".join(la) + "," + "".join(lb) + "->" + "".join(out), [a, b])
    if n == "trace":
        a = self.to_arr(A(0))
        ax1, ax2 = kw.get("axis1", 0), kw.get("axis2", 1)
        l = [chr(97 + i) for i in range(len(a.shape))]
        l[ax2 % len(l)] = l[ax1 % len(l)]
        out = [c for c in l if l.count(c) == 1]
        return self.einsum("".join(l) + "->" + "".join(out), [a])
    if n in ("add", "subtract", "multiply", "divide", "true_divide", "power"):
        return self.binop({"add": "Add", "subtract": "Sub", "multiply": "Mult", "divide": "Div", "true_divide": "Div", "power": "Pow"}[n], args[0], args[1])
    if n == "negative":
        return self.unary("USub", args[0])
    if n in ("equal", "not_equal", "less", "less_equal", "greater", "greater_equal"):
        return self.compare({"equal": "Eq", "not_equal": "NotEq", "less": "Lt", "less_equal": "LtE", "greater": "Gt", "greater_equal": "GtE"}[n], args[0], args[1])
    if n in ("logical_and", "logical_or", "logical_not", "logical_xor"):
        if n == "logical_not":
            return self.elementwise(lambda x: mk_not(self.as_cond(x)), args[0])
        f = {"logical_and": mk_and, "logical_or": mk_or}.get(n)
        if f is None:
            f = lambda a, b: mk_or(mk_and(a, mk_not(b)), mk_and(mk_not(a), b))
        return self.elementwise(lambda x, y: f(self.as_cond(x), self.as_cond(y)), args[0], args[1])
    if n == "exp":
        return self.elementwise(lambda x: exp_(self, x), A(0))
    if n in ("conj", "conjugate"):
        return self.elementwise(lambda x: x if isinstance(x, Ix) else num(x).conj(ctx), A(0))
    if n in ("real", "imag"):
        f = "re" if n == "real" else "im"
        return self.may_view(self.elementwise(lambda x: normalise(ctx, fun(f, num(x))), A(0)), A(0))
    if n in ("abs", "absolute", "fabs"):
        return self.elementwise(lambda x: abs_(self, x), A(0))
    if n == "angle":
        return self.elementwise(lambda x: fun("angle", normalise(ctx, num(x))), A(0))
    if n in ("sqrt", "cos", "sin", "arccos", "arctan2", "tan", "log", "arcsin", "arctan", "hypot"):
        return self.elementwise(lambda *x: fun(n, *[normalise(ctx, num(y)) for y in x]), *args)
    if n in ("around", "round", "rint", "round_"):
        if len(args) > 1 or kw.get("decimals"):
            if (A(1) or kw.get("decimals")) not in (0, None):
                raise Undecided("rounding to decimals")
        def nearest(x):
            if isinstance(x, (Ix, DimVal)):
                return x
            x = normalise(ctx, num(x))
            if is_real(ctx, x) or equal(ctx, x, x.conj(ctx)):
                return normalise(ctx, fun("rint", x))
            parts = [normalise(ctx, fun("rint", normalise(ctx, fun(f, x)))) for f in ("re", "im")]
            return parts[0] + parts[1] * Poly.const(0, 1)
        return self.elementwise(nearest, A(0))
    if n == "floor":
        return self.elementwise(lambda x: fun("floor", normalise(ctx, num(x))), A(0))
    if n in ("remainder", "mod"):
        return self.elementwise(lambda x, y: scalar_op(self, "Mod", x, y), args[0], args[1])
    if n in ("allclose", "isclose"):
        rtol, atol = kw.get("rtol", A(2, 1e-5)), kw.get("atol", A(3, 1e-8))
        a, b = self.to_arr(A(0)), self.to_arr(A(1))
        if n == "isclose":
            return self.elementwise(lambda x, y: close(self, x, y, rtol, atol), *[x for x in (args[0], args[1])])
        sh = self.bcast([a.shape, b.shape])
        return self.quant(sh, lambda i: close(self, bget(self, a, i, sh), bget(self, b, i, sh), rtol, atol))
    if n in ("array_equal",):
        a, b = self.to_arr(A(0)), self.to_arr(A(1))
        if len(a.shape) != len(b.shape):
            return False
        if a.shape != b.shape:
            if all(isinstance(d, int) for d in a.shape + b.shape):
                return False
            raise Undecided("array_equal")
        return self.quant(a.shape, lambda i: scalar_cmp(self, "Eq", self.get(a, i), self.get(b, i)))
    if n in ("all", "any"):
        a = self.to_arr(A(0))
        ax = axis_of()
        if ax is not None:
            ax = ax if isinstance(ax, tuple) else (ax,)
            ax = [q % len(a.shape) for q in ax]
            keep = [q for q in range(len(a.shape)) if q not in ax]

            def el(idx):
                def f(j):
                    full = [None] * len(a.shape)
                    for q, i in zip(keep, idx):
                        full[q] = i
                    for q, i in zip(ax, j):
                        full[q] = i
                    c = self.as_cond(self.get(a, tuple(full)))
                    return c if n == "all" else mk_not(c)
                c = self.quant(tuple(a.shape[q] for q in ax), f)
                return c if n == "all" else mk_not(c)
            if not keep:
                return el(())
            return self.mk(tuple(a.shape[q] for q in keep), el)
        c = self.quant(a.shape, lambda i: (lambda q: q if n == "all" else mk_not(q))(self.as_cond(self.get(a, i))))
        return c if n == "all" else mk_not(c)
    if n in ("sum", "mean", "prod", "max", "min", "amax", "amin"):
        if n in ("prod", "max", "min", "amax", "amin"):
            a = self.to_arr(A(0))
            if n == "prod" and len(a.shape) == 1 and isinstance(a.shape[0], int):
                r = Poly.const(1)
                for i in range(a.shape[0]):
                    r = r * num(self.get(a, (i,)))
                return r
            if n in ("max", "amax") and axis_of() is None:
                return Opaque("maxof", a)
            raise Undecided(n)
        a = self.to_arr(A(0))
        ax = axis_of()
        if ax is None:
            ax = tuple(range(len(a.shape)))
        ax = ax if isinstance(ax, tuple) else (ax,)
        ax = [q % len(a.shape) for q in ax]
        keepdims = bool(kw.get("keepdims", False))
        keep = [q for q in range(len(a.shape)) if q not in ax]

        def el(idx):
            full = [None] * len(a.shape)
            src = idx
            if keepdims:
                src = [i for q, i in enumerate(idx) if q in keep]
            for q, i in zip(keep, src):
                full[q] = i

            def rec(m):
                if m == len(ax):
                    x = self.get(a, tuple(full))
                    return self.condpoly(x) if isinstance(x, Cond) else num(x)
                return sum_over(self, a.shape[ax[m]], lambda i: (full.__setitem__(ax[m], i), rec(m + 1))[1])
            r = rec(0)
            if n == "mean":
                for q in ax:
                    r = r * size_atom(a.shape[q]).inverse()
            return normalise(ctx, r)
        sh = tuple((1 if q in ax else a.shape[q]) for q in range(len(a.shape))) if keepdims else tuple(a.shape[q] for q in keep)
        if sh == ():
            return el(())
        return self.mk(sh, el)
    if n == "transpose":
        a = self.to_arr(A(0))
        ax = kw.get("axes", A(1))
        if ax is None:
            return self.attr(a, "T")
        ax = [q for q in self.iter_spec(ax)[1]]
        return self.may_view(self.mk(tuple(a.shape[q] for q in ax), lambda i: self.get(a, tuple(i[ax.index(q)] for q in range(len(a.shape))))), a)
    if n == "swapaxes":
        a = self.to_arr(A(0))
        r = list(range(len(a.shape)))
        p, q = A(1) % len(r), A(2) % len(r)
        r[p], r[q] = r[q], r[p]
        return self.may_view(self.mk(tuple(a.shape[k] for k in r), lambda i: self.get(a, tuple(i[r.index(k)] for k in range(len(a.shape))))), a)
    if n == "reshape":
        return self.reshape(self.to_arr(A(0)), tuple(-1 if x == -1 else value_dim(self, x) for x in self.iter_spec(A(1))[1]))
    if n == "diag":
        a = self.to_arr(A(0))
        if len(a.shape) == 1:
            return self.mk(a.shape * 2, lambda i: delta(i[0], i[1]) * num(self.get(a, (i[0],))))
        r = self.may_view(self.mk(a.shape[:1], lambda i: self.get(a, (i[0], i[0]))), a)
        r.readonly = True
        return r
    if n == "concatenate":
        return concatenate(self, A(0), kw.get("axis", A(1, 0)))
    if n in ("hstack", "vstack", "block"):
        def parts(x):
            k, s = self.iter_spec(x) if isinstance(x, (tuple, LList)) else (None, None)
            if k != "conc" or not s:
                raise Undecided(n)
            return s
        rows = parts(A(0))
        if n == "block":
            if not all(isinstance(r, LList) and all(isinstance(x, Arr) and len(x.shape) >= 2 for x in parts(r)) for r in rows):
                raise Undecided("block")
            if len({len(x.shape) for r in rows for x in parts(r)}) > 1:
                raise Undecided("block")
            return concatenate(self, tuple(concatenate(self, r, -1) for r in rows), -2)
        if not all(isinstance(x, Arr) and len(x.shape) >= 2 for x in rows):
            raise Undecided(n)
        return concatenate(self, A(0), 1 if n == "hstack" else 0)
    if n == "linalg.inv":
        return linalg_inv(self, self.to_arr(A(0)))
    if n == "linalg.solve":
        return matmul(self, linalg_inv(self, self.to_arr(A(0))), self.to_arr(A(1)))
    if n == "linalg.matrix_power" and isinstance(A(1), int) and 0 < A(1) < 20:
        r = m = self.to_arr(A(0))
        for _ in range(A(1) - 1):
            r = matmul(self, r, m)
        return r if r is not m else self.copy(m)
    if n == "linalg.det" and getattr(self, "det_hook", None) is not None:
        return self.det_hook(self, self.copy(self.to_arr(A(0))))
    if n == "linalg.det":
        a = self.to_arr(A(0))
        return opaque_of(self, "det", a)
    if n == "linalg.norm":
        a = self.to_arr(A(0))
        ax = kw.get("axis")
        if ax is None:
            tot = self.np_call("numpy.sum", [self.elementwise(lambda x: num(x) * num(x).conj(ctx), a)], {})
        else:
            tot = self.np_call("numpy.sum", [self.elementwise(lambda x: num(x) * num(x).conj(ctx), a)], {"axis": ax, "keepdims": kw.get("keepdims", False)})
        return self.elementwise(lambda x: fun("sqrt", normalise(ctx, num(x))), tot)
    if n == "random.default_rng":
        return Rng()
    if n.startswith("random."):
        self.violations.append(("global random state", n))
        raise Undecided("global random state")
    if n == "meshgrid" and len(args) == 2 and not kw:
        a, b = self.to_arr(args[0]), self.to_arr(args[1])
        return (self.mk((b.shape[0], a.shape[0]), lambda i: self.get(a, (i[1],))),
                self.mk((b.shape[0], a.shape[0]), lambda i: self.get(b, (i[0],))))
    if n == "nonzero":
        h = getattr(self, "nonzero_hook", None)
        if h is not None:
            return h(self, self.to_arr(A(0)))
        raise Undecided("nonzero")
    if n == "ix_":
        a, b = self.to_arr(args[0]), self.to_arr(args[1])
        return (self.mk((a.shape[0], 1), lambda i: self.get(a, (i[0],))), self.mk((1, b.shape[0]), lambda i: self.get(b, (i[1],))))
    if n == "where" and len(args) == 3:
        return self.elementwise(lambda c, x, y: self.ite(self.as_cond(c), x, y), *args)
    if n in ("clip",):
        a, lo, hi = A(0), kw.get("a_min", A(1)), kw.get("a_max", A(2))
        lo = num(lo) if lo is not None else fun("none")
        hi = num(hi) if hi is not None else fun("none")
        return self.elementwise(lambda x: fun("clip", normalise(ctx, num(x)), lo, hi), a)
    if n in ("int_", "float_", "complex_", "bool_", "float64", "complex128", "int64"):
        return astype(self, A(0), Builtin(name))
    if n in ("linalg.eigh", "linalg.eig", "linalg.qr", "linalg.svd"):
        h = getattr(self, "linalg_hook", None)
        if h is not None:
            return h(self, n, args, kw)
        raise Undecided(n)
    raise Undecided(f"{name}")


BUILTIN_KEYWORDS = {"enumerate": ("start",), "sum": ("start",), "itertools.product": ("repeat",), "sorted": ("key",), "warnings.warn": ("stacklevel", "category"),
                    "print": ("end", "file")}
KEYWORDS = {
    "zeros": ("shape",), "ones": ("shape",), "empty": ("shape",), "full": ("shape", "fill_value"), "stack": ("axis",),
    "tensordot": ("axes",), "trace": ("axis1", "axis2"), "around": ("decimals",), "round": ("decimals",), "round_": ("decimals",),
    "allclose": ("rtol", "atol"), "isclose": ("rtol", "atol"), "all": ("axis",), "any": ("axis",), "max": ("axis",), "amax": ("axis",),
    "prod": (), "sum": ("axis", "keepdims"), "mean": ("axis", "keepdims"), "transpose": ("axes",), "concatenate": ("axis",),
    "linalg.norm": ("axis", "keepdims"), "clip": ("a_min", "a_max"), "linalg.qr": ("mode",), "linalg.svd": ("full_matrices", "compute_uv", "hermitian"),
    "random.default_rng": ("seed",), "meshgrid": (),
}
POSITIONAL = {
    "einsum": 99, "allclose": 4, "isclose": 4, "clip": 3, "where": 3, "swapaxes": 3, "full": 2, "zeros": 1, "ones": 1, "empty": 1, "eye": 1,
    "identity": 1, "array": 1, "asarray": 1, "ascontiguousarray": 1, "arange": 1, "stack": 2, "zeros_like": 1, "ones_like": 1, "empty_like": 1,
    "trace": 1, "exp": 1, "conj": 1, "conjugate": 1, "real": 1, "imag": 1, "abs": 1, "absolute": 1, "fabs": 1, "angle": 1, "sqrt": 1, "cos": 1,
    "sin": 1, "arccos": 1, "tan": 1, "log": 1, "arcsin": 1, "arctan": 1, "floor": 1, "negative": 1, "logical_not": 1, "diag": 1,
    "linalg.inv": 1, "linalg.det": 1, "linalg.norm": 1, "linalg.eigh": 1, "linalg.eig": 1, "linalg.qr": 1, "linalg.svd": 1, "nonzero": 1,
    "tensordot": 3, "rint": 1, "prod": 1,
}


def element_kind(ty):
    """b, i, f or c for a type argument of NumPy, None if there is none."""
    if ty is None:
        return None
    nm = ty.name if isinstance(ty, Builtin) else ty if isinstance(ty, str) else getattr(ty, "tag", "?")
    nm = nm.split(".")[-1]
    for k, names in (("b", ("bool", "bool_")), ("i", ("int", "int_", "int64", "intp", "integer")), ("f", ("float", "float_", "float64", "double")),
                     ("c", ("complex", "complex_", "complex128", "cdouble"))):
        if nm in names:
            return k
    raise Undecided(f"element type {nm}")


def concatenate(self, v, axis):
    if axis is None:
        raise Undecided("concatenate without axis")
    listed = isinstance(v, LList) and self.lstate(v)[0] == "conc" or isinstance(v, tuple)
    if listed:
        parts = [self.to_arr(x) for x in (v if isinstance(v, tuple) else self.lstate(v)[1])]
        if parts and any(len(x.shape) != len(parts[0].shape) for x in parts):
            raise PyExc("ValueError", "all the input array dimensions must match")
        if parts and not -len(parts[0].shape) <= axis < len(parts[0].shape):
            raise PyExc("ValueError", "axis out of bounds")
        axis = axis % len(parts[0].shape) if parts and parts[0].shape else axis
        if any(isinstance(x, int) and isinstance(y, int) and x != y for p in parts for q, (x, y) in enumerate(zip(p.shape, parts[0].shape)) if q != axis):
            raise PyExc("ValueError", "all the input array dimensions must match")
        ext = [x.shape[axis] for x in parts] if parts and parts[0].shape else []
        if len(parts) > 1 and ext and all(x.shape[:axis] + x.shape[axis + 1:] == parts[0].shape[:axis] + parts[0].shape[axis + 1:] for x in parts) and (
                axis != 0 and all(isinstance(d, int) for d in ext) or all(type(d) is Dim and d == ext[0] for d in ext)) and len({repr(x.dtype) for x in parts}) == 1:
            whole_ext = sum(ext) if isinstance(ext[0], int) else BDim(len(parts), ext[0])
            r = self.new(Arr(parts[0].shape[:axis] + (whole_ext,) + parts[0].shape[axis + 1:], []))
            r.dtype = parts[0].dtype
            at = 0
            for c, x in enumerate(parts):
                for i in range(ext[c]) if isinstance(ext[0], int) else (fresh(ext[0]),):
                    rest = x.shape[:axis] + x.shape[axis + 1:]
                    place = i + at if isinstance(i, int) else ("b", c, i)
                    for idx, vs, e in elements(rest, lambda j: self.get(x, j[:axis] + (i,) + j[axis:])):
                        r.stores.append(Store(tuple(vs) + (() if isinstance(i, int) else (i,)), idx[:axis] + (place,) + idx[axis:], TRUE, e))
                at += ext[c] if isinstance(ext[0], int) else 0
            return r
    if axis != 0:
        raise Undecided("concatenate along another axis")
    if listed:
        parts = [self.to_arr(x) for x in (v if isinstance(v, tuple) else self.lstate(v)[1])]
        if not parts:
            raise PyExc("ValueError", "need at least one array to concatenate")
        if len(parts) == 1:
            return self.copy(parts[0])
        if not all(isinstance(x.shape[0], int) and x.shape[1:] == parts[0].shape[1:] for x in parts):
            raise Undecided("concatenate")
        pos = [(x, i) for x in parts for i in range(x.shape[0])]
        rows = [self.getitem(x, i) for x, i in pos]
        return self.to_arr(LList(items=rows))
    a = self.to_arr(v)
    if len(a.shape) < 2:
        raise PyExc("ValueError", "zero-dimensional arrays cannot be concatenated")
    return self.reshape(a, (a.shape[1] if a.shape[0] == 1 else a.shape[0] if a.shape[1] == 1 else
                            PDim(a.shape[:2]),) + a.shape[2:])


def abs_(self, x):
    p = normalise(self.ctx, num(x))
    if p.is_const():
        c = p.const_value()
        if c.im == 0:
            return Poly.const(abs(c.re))
    # |monomial| of unimodular factors
    q = normalise(self.ctx, p * p.conj(self.ctx))
    if q == Poly.const(1):
        return Poly.const(1)
    return fun("abs", p)


def opaque_of(self, name, a):
    """Scalar determined by the contents of an array: opaque function of its generic element."""
    idx, vs = patterns(a.shape)[0]
    if len(patterns(a.shape)) > 1:
        raise Undecided(name)
    body = normalise(self.ctx, num(self.get(a, idx)))
    m = {v: ("v", f"%{n}", v[2]) for n, v in enumerate(vs)}
    self.ctx.cfun.add(name)
    if is_real(self.ctx, body):
        nm = name + "_r"
    else:
        nm = name
    return Poly.base(("F", nm, (body.subst(m),), 0))


def linalg_inv(self, a):
    """inverse: recorded as a named inverse when the array is a registered invertible atom."""
    h = getattr(self, "inv_hook", None)
    if h is not None:
        r = h(self, a)
        if r is not None:
            return r
    if len(a.shape) != 2 or a.shape[0] != a.shape[1]:
        raise Undecided("linalg.inv")
    i, j = fresh(a.shape[0]), fresh(a.shape[0])
    p = num(self.get(a, (i, j)))
    if len(p.d) == 1:
        ((b, fs), c), = p.d.items()
        if not b and c == CQ(1) and len(fs) == 1 and fs[0][1] == 1 and fs[0][0][0] == "A" and not fs[0][0][3]:
            nm, ix = fs[0][0][1], fs[0][0][2]
            if ix in ((i, j), (j, i)):
                self.ctx.inverse[nm] = nm + "^-1"
                if nm in self.ctx.real:
                    self.ctx.real.add(nm + "^-1")
                return self.mk(a.shape, lambda x: atom(nm + "^-1", *(x if ix == (i, j) else x[::-1])))
    raise Undecided("linalg.inv")
