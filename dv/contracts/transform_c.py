"""Contracts on spgrep.transform and spgrep.utils."""
from api import *
from api_oracle import *
from interp import assigned_names


def inverse_atoms(v):
    return v


@contract(("C13", "C05"), "transform.transform_symmetry_and_kpoint")
def transformed(h):
    n = h.dim("n")
    P, R, w, k = h.arr("P", (3, 3)), h.arr("R", (n, 3, 3), "int"), h.arr("w", (n, 3)), h.arr("k", (3,))
    for facts, v in h.only_return("total", h.run([P, R, w, k])):
        ok = isinstance(v, tuple) and len(v) == 3
        h.add("three results", ok, "path", repr(v))
        if not ok:
            continue
        h.add("shapes", shape_is(v[0], (n, 3, 3)) and shape_is(v[1], (n, 3)) and shape_is(v[2], (3,)), "path", repr(v))
        i, a, b, c, d = fresh(n), fresh(3), fresh(3), fresh(3), fresh(3)
        Pi = h.ip.np_call("numpy.linalg.inv", [P], {})
        pi = lambda a, b: num(h.el(Pi, a, b))
        rot = (pi(a, c) * atom("R", i, c, d) * atom("P", d, b)).sum(c).sum(d)
        h.eq("rotation is P^-1 R P", h.el(v[0], i, a, b), fun("rint", normalise(h.ctx, rot)))
        h.eq("translation is P^-1 v, not reduced", h.el(v[1], i, a), (pi(a, c) * atom("w", i, c)).sum(c))
        h.eq("k-vector is P^T k", h.el(v[2], a), (atom("P", c, a) * atom("k", c)).sum(c))
        h.eq("k.v does not depend on the basis", (num(h.el(v[2], a)) * num(h.el(v[1], i, a))).sum(a),
             (atom("k", a) * atom("w", i, a)).sum(a))
        # x' = P^-1 x: the transformed operation maps x' to P^-1 (R x + v)
        h.arr("x", (3,), arg=False)
        lhs = (rot * (pi(b, c) * atom("x", c)).sum(c)).sum(b) + h.el(v[1], i, a)
        rhs = (pi(a, b) * ((atom("R", i, b, c) * atom("x", c)).sum(c) + atom("w", i, b))).sum(b)
        h.eq("acts on the same points", lhs, rhs)
    h.frame()


@contract(("C19", "C14"), "utils.ndarray2d_to_integer_tuple")
def integer_tuple(h):
    n, m = h.dim("n"), h.dim("m")
    A = h.arr("A", (n, m))
    for facts, v in h.only_return("total", h.run([A])):
        ok = isinstance(v, TupKey) and v.arr.shape == (n, m)
        h.add("nested tuple of the shape of the array", ok, "path", repr(v))
        if ok:
            i, j = fresh(n), fresh(m)
            h.eq("entries are the nearest integers", h.el(v.arr, i, j), fun("rint", atom("A", i, j)))
    h.frame()


@contract("C19", "utils.is_integer_array")
def integer_array(h):
    from numpy_model import close
    n, m = h.dim("n"), h.dim("m")
    A = h.arr("A", (n, m))
    h.ctx.real |= {"rtol", "atol"}
    rt, at = atom("rtol"), atom("atol")
    i, j = fresh(n), fresh(m)
    spec = mk_all(i, mk_all(j, close(h.ip, fun("rint", atom("A", i, j)), atom("A", i, j), rt, at)))
    for facts, v in h.only_return("total", h.run([A], {"rtol": rt, "atol": at})):
        h.iff("accepted iff all entries are close to the nearest integer", v, spec, facts)
    h.frame()


@contract("C19", "utils.is_prime")
def prime(h):
    """For every integer n: False iff some integer i with 2 <= i < n divides n."""
    h.ctx.integer.add("N")
    N = atom("N")
    _, ((i,), item) = h.ip.iter_spec(Opaque("range", (2, N, 1)))
    divides = mk_ex(i, cmp("eq", fun("mod", N, item), 0))
    h.decides("true iff no proper divisor", h.only_return("total", h.run([N])), mk_not(divides))


def polar(z, euler):
    """|w| exp(i angle(w)) == w; (z^(1/n))^n == z; Euler's formula."""
    def rule(ctx, bound, factors):
        for n, (f, p) in enumerate(factors):
            if f[0] == "F" and f[1] in ("cos", "sin") and isinstance(p, int) and p > 0:
                a, b = euler(f[2][0])
                rest = Poly({(bound, sortfac([x for k, x in enumerate(factors) if k != n])): CQ(1)})
                return rest * ((a + b) * Fr(1, 2) if f[1] == "cos" else (a - b) * Poly.const(0, Fr(-1, 2))) ** p
            if f[0] == "F" and f[1] == "abs":
                for m, (g, q) in enumerate(factors):
                    if g[0] == "F" and g[1] == "exp" and q == p and g[2] == (Poly.const(0, 1) * fun("angle", f[2][0]),):
                        rest = [x for k, x in enumerate(factors) if k not in (n, m)]
                        return Poly({(bound, sortfac(rest)): CQ(1)}) * f[2][0] ** p
            if f[0] == "F" and f[1] == "pow" and f[2][0] == z and (f[2][1] * p).is_const() and f[2][1] * p == Poly.const(1):
                rest = [x for k, x in enumerate(factors) if k != n]
                return Poly({(bound, sortfac(rest)): CQ(1)}) * z
        return None
    return rule


@contract("C19", "utils.nroot")
def root(h):
    """The n-th power is z and the angle is within pi/n: for every n >= 1 (polar form w exp(-2 pi i rint(.)/n) with w^n = z), and
    spelled out for n = 1 .. 12."""
    from numpy_model import exp_
    z = atom("z")

    def euler(x):
        return [normalise(h.ctx, exp_(h.ip, x * Poly.const(0, s))) for s in (1, -1)]
    h.ctx.rules.append(polar(z, euler))
    h.ctx.real.add("pi")
    h.req("|w| exp(i angle(w)) == w and (z ** (1/n)) ** n == z; exp(2 pi i m) == 1 for integers m (n-th power of the polar form)")
    N = atom("N")
    h.ctx.integer.add("N")
    h.ctx.real.add("N")
    w = fun("pow", z, N.inverse())
    half = fun("angle", w) * N * Fr(1, 2) * atom("pi").inverse()
    for facts, v in h.only_return("every n", h.run([z, N], assume=[cmp("lt", -N, 0)])):
        h.eq("every n: polar form", v, fun("abs", w) * fun("exp", Poly.const(0, 1) * fun("angle", w)) * E(-(fun("rint", half)) * N.inverse()))
        h.true("every n: angle within pi/n", cmp("le", fun("abs", half - fun("rint", half)), Fr(1, 2)))
    for n in range(1, 13):
        for facts, v in h.only_return(f"n={n}", h.run([z, n])):
            h.eq(f"n={n}: the power is z", num(v) ** n, z)
            w = fun("pow", z, frac(1) / n)
            half = fun("angle", w) * n * Fr(1, 2) * atom("pi").inverse()      # angle in units of 2 pi/n
            h.eq(f"n={n}: polar form", v, fun("abs", w) * fun("exp", Poly.const(0, 1) * fun("angle", w)) * E(-(fun("rint", half)) * Fr(1, n)))
            h.true(f"n={n}: angle within pi/n", cmp("le", fun("abs", half - fun("rint", half)), Fr(1, 2)))
    h.frame()


@contract("C19", "utils.mode_dot")
def mode_product(h):
    m = h.dim("m")
    for rank in (1, 2, 3, 4, 5, 6):
        T = h.arr("T", (m,) * rank)
        ns = [h.dim(f"n{q}") for q in range(rank)]
        Ms = [h.arr(f"M{q}", (m, ns[q])) for q in range(rank)]
        for facts, v in h.only_return(f"rank {rank}", h.run([T, LList(items=list(Ms))])):
            h.add(f"rank {rank}: shape", shape_is(v, ns), "path", repr(v))
            out = [fresh(d) for d in ns]
            s = [fresh(m) for _ in range(rank)]
            spec = atom("T", *s)
            for q in range(rank):
                spec = spec * atom(f"M{q}", s[q], out[q])
            for x in s:
                spec = spec.sum(x)
            h.eq(f"rank {rank}: product along every axis", h.el(v, *out), spec)
    h.frame()


@contract("C19", "utils.mode_dot")
def mode_product_any_rank(h):
    """Tensors of any rank, by induction over the axes: after q products the result is that of the first q matrices; the next step
    multiplies it along axis q by the q-th matrix.  The axes before q are A (none or several), those after it B (none or several)."""
    m, n = h.dim("m"), h.dim("n")
    P = h.dim("P")
    q = fresh(P)
    ra, rb = atom("val", q), atom("number of axes after")
    h.ctx.ranks |= {ra, rb}
    A, B = Several("A", ra, same=False), Several("B", rb, same=False)
    old, new = Several("all extents", atom("rank"), same=False), Several("all new extents", atom("rank"), same=False)
    h.ctx.ranks.add(atom("rank"))
    T = h.arr("T", (old,))
    v = fresh(P)
    Ms = LList(sym=(P, v, mkarr((m, n), lambda i: atom("M", v, *i))))
    done = {}

    def axes(ip, st, env, vs, item):
        if vs[0][2] != P:
            raise Undecided("loop over something else")
        names = [x for x in assigned_names(st) if isinstance(env.get(x), Arr)]
        if len(names) != 1:
            raise Undecided("carried arrays")
        r = names[0]
        if not h.add("starts with the tensor", shape_is(env[r], (old,)), "path", repr(env[r])):
            raise Undecided("start")
        h.eq("starts with the tensor: elements", h.el(env[r], w := fresh(old)), atom("T", w))
        for lab, before, after in (("only axis", (), ()), ("first axis", (), (B,)), ("last axis", (A,), ()), ("axis between", (A,), (B,))):
            ev = dict(env)
            for x in assigned_names(st):
                ev[x] = Poison("of the previous iteration of the loop over the axes")
            shape = before + (m,) + after
            ev[r] = h.ip.new(mkarr(shape, lambda i: atom("R", *i)))
            value = ra if before else 0
            paths = ip.body_paths(lambda e2: (ip.assign(st.target, value, e2), ip.exec_block(st.body, e2)), ev)
            ok = len(paths) == 1 and paths[0][0].op == "true" and paths[0][1] == ("end",) and not paths[0][2].log
            if not h.add(lab + ": one path", ok, "path", repr(paths)[:200]):
                raise Undecided("iteration")
            got = paths[0][3][r]
            want = before + (n,) + after
            if not h.add(lab + ": shape", shape_is(got, want), "path", repr(got)):
                raise Undecided("shape")
            ix = tuple(fresh(d) for d in want)
            s, k = fresh(m), len(before)
            which = q if before else ("f", "at0", (P.name,), P)
            h.eq(lab + ": product along the axis", h.el(got, *ix),
                 (atom("R", *ix[:k], s, *ix[k + 1:]) * atom("M", which, s, ix[k])).sum(s))
        for x in assigned_names(st):
            env[x] = Poison("assigned in the loop over the axes")
        env[r] = h.ip.new(mkarr((new,), lambda i: atom("product", *i)))
        done["r"] = env[r]
        return True
    h.ip.loop_hook = axes
    for facts, r in h.only_return("any rank", h.run([T, Ms])):
        h.add("any rank: the result of the last step", done and shape_is(r, (new,)), "path", repr(r))
        h.eq("any rank: the product with all matrices", h.el(r, w := fresh(new)), atom("product", w))
    h.req("as many matrices as the tensor has axes")
    h.frame("any rank: ")


def singular(h, checks, least):
    """numpy.linalg.qr returns an orthonormal basis Q of the columns; svd(compute_uv=False) the singular values."""
    def hook(ip, n, args, kw):
        if n == "linalg.qr":
            a = ip.to_arr(args[0])
            nm = "Q" + str(len(checks["qr"]))
            checks["qr"].append(a)
            return (ip.mk((a.shape[0], a.shape[1]), lambda i: atom(nm, *i)), Opaque("R"))
        if n == "linalg.svd" and kw.get("compute_uv") is False:
            a = ip.to_arr(args[0])
            checks["svd"].append(a)
            return ip.mk((least,), lambda i: atom("s", *i))
        raise Undecided(n)
    return hook


@contract("C19", "utils.grassmann_distance")
def principal_angles(h):
    """Subspaces of any dimensions k, l of a space of any dimension: the distance is computed from the min(k, l) singular values s
    of Q1^dagger Q2 with Q1, Q2 orthonormal bases of the two spaces."""
    h.req("the dimensions of the subspaces are at most that of the space; numpy.linalg.qr gives orthonormal columns spanning the same space; "
          "numpy.linalg.svd gives the singular values in descending order")
    h.ctx.real.add("s")
    for rel in ("equal", "smaller", "larger"):
        for order in ("min", "projection"):
            for skip in (False, True):
                n, k = h.dim("n"), h.dim("k")
                l = k if rel == "equal" else h.dim("l")
                least = l if rel == "larger" else k
                a, b = size_atom(k), size_atom(l)
                cases = {"equal": (), "smaller": (cmp("lt", a, b),), "larger": (cmp("lt", b, a),)}[rel]
                A, B = h.arr("A", (k, n), "complex"), h.arr("B", (l, n), "complex")
                ch = {"qr": [], "svd": []}
                h.ip.linalg_hook = singular(h, ch, least)
                lab = f"{rel},{order},{'given bases' if skip else 'orthonormalised'}"
                for facts, v in h.only_return(lab, h.run([A, B, order, skip], assume=cases)):
                    i, j, x, y = fresh(k), fresh(l), fresh(n), fresh(n)
                    if not skip:
                        ok = len(ch["qr"]) == 2 and ch["qr"][0].shape == (n, k) and ch["qr"][1].shape == (n, l)
                        h.add(f"{lab}: two orthonormal bases", ok, "path", repr(ch))
                        if ok:
                            h.eq(f"{lab}: basis of the first space", h.el(ch["qr"][0], x, i), atom("A", i, x))
                            h.eq(f"{lab}: basis of the second space", h.el(ch["qr"][1], x, j), atom("B", j, x))
                    ok = len(ch["svd"]) == 1 and ch["svd"][0].shape in ((k, l), (l, k))
                    h.add(f"{lab}: singular values of the overlap", ok, "path", repr(ch))
                    if ok:
                        q1 = (lambda i, x: atom("A", i, x)) if skip else (lambda i, x: atom("Q0", x, i))
                        q2 = (lambda i, x: atom("B", i, x)) if skip else (lambda i, x: atom("Q1", x, i))
                        ov = (q1(i, y).conj(h.ctx) * q2(j, y)).sum(y)
                        M = ch["svd"][0]

                        def is_overlap(t):
                            """The overlap matrix or its adjoint: same singular values."""
                            return equal(h.ctx, num(h.el(M, *((i, j) if not t else (j, i)))), ov if not t else ov.conj(h.ctx))
                        h.add(f"{lab}: overlap matrix", M.shape == (k, l) and is_overlap(False) or M.shape == (l, k) and is_overlap(True))
                    if order == "min":
                        s = atom("s", ("f", "at-1", (least.name,), least))
                        spec = fun("sqrt", fun("clip", normalise(h.ctx, Poly.const(1) - s * s), 0, fun("none")))
                    else:
                        q = fresh(least)
                        s = (fun("arccos", fun("clip", atom("s", q), -1, 1)) ** 2).sum(q)
                        spec = fun("sqrt", normalise(h.ctx, s * size_atom(least).inverse()))
                    h.eq(f"{lab}: value", v, spec)
    h.frame()


@contract(("C19", "C21"), "utils.grassmann_distance")
def unknown_kind(h):
    n = h.dim("n")
    h.ip.linalg_hook = singular(h, {"qr": [], "svd": []}, 2)
    ps = h.run([h.arr("A", (2, n), "complex"), h.arr("B", (2, n), "complex"), "max"])
    h.add("ValueError", bool(ps) and all(o[0] == "exc" and o[1].etype == "ValueError" for f, o in ps), "path", repr(ps)[:200])


@contract(("C13", "C05"), "transform.unique_primitive_symmetry")
def duplicates_removed(h):
    """One operation of every class of equal (rotation, time reversal), and the mapping of every operation to its class."""
    from loops import growing_lists
    for case in ("no time reversal given", "time reversal"):
        n = h.dim("n")
        R, w = h.arr("R", (n, 3, 3), "int"), h.arr("w", (n, 3))
        t = h.arr("t", (n,), "int")
        lab = case + ": "
        h.ip.index_oracle = first_oracle
        info = growing_lists(h, lab)
        args = [R, w] + ([t] if case == "time reversal" else [])
        for facts, v in h.only_return(lab + "total", h.run(args)):
            ok = isinstance(v, tuple) and len(v) == 3 and "U" in info
            h.add(lab + "three results of the invariant's loop", ok, "path", repr(v))
            if not ok:
                continue
            U, u, found = info["U"], info["u"], info["found"]
            h.add(lab + "shapes", shape_is(v[0], (U, 3, 3)) and shape_is(v[1], (U, 3)), "path", repr(v))
            x, y, a, b, i = fresh(U), fresh(U), fresh(3), fresh(3), fresh(n)
            h.eq(lab + "rotations are input rotations", h.el(v[0], x, a, b), atom("R", u(x), a, b))
            h.eq(lab + "translations are the reduced input translations", h.el(v[1], x, a),
                 atom("w", u(x), a) - fun("floor", atom("w", u(x), a)))
            m = v[2]
            got = h.ip.getitem(m, Ix(i))
            h.same_index(lab + "mapping of every operation", got, Ix(found(i)))
            same = lambda p, q: mk_and(mk_all(a, mk_all(b, cmp("eq", atom("R", p, a, b), atom("R", q, a, b)))),
                                       *([mk_iff(cmp("eq", atom("t", p), 0), cmp("eq", atom("t", q), 0))]
                                         if case == "time reversal" else []))
            h.true(lab + "every operation equals its representative up to a translation", mk_all(i, same(i, u(found(i)))), facts)
            h.true(lab + "representatives are pairwise different",
                   mk_all(x, mk_all(y, mk_or(Cond("eqi", (x, y)), mk_not(same(u(x), u(y)))))), facts)
    h.frame()


@contract(("C13", "C21"), "transform.get_crystal_system")
def crystal_systems(h):
    """Every integer: the crystal system whose Hall numbers contain it, ValueError outside 1..530."""
    h.ctx.integer.add("N")
    h.ctx.real.add("N")
    N = atom("N")
    spec = {"triclinic": (1, 2), "monoclinic": (3, 107), "orthorhombic": (108, 348), "tetragonal": (349, 429), "trigonal": (430, 461),
            "hexagonal": (462, 488), "cubic": (489, 530)}
    within = lambda a, b: mk_and(cmp("le", a, N), cmp("le", N, b))
    seen = set()
    for n, (facts, o) in enumerate(h.run([N])):
        if o[0] == "end" and o[1] in spec:
            seen.add(o[1])
            h.true(f"{o[1]}: Hall number in its range", within(*spec[o[1]]), facts)
        elif o[0] == "exc" and o[1].etype == "ValueError":
            seen.add("ValueError")
            h.true("ValueError only outside 1..530", mk_not(within(1, 530)), facts)
        else:
            h.add(f"path{n}", not h.feasible(facts), "z3", repr(o))
    h.add("all outcomes are possible", seen == {*spec, "ValueError"}, "path", repr(seen))
    h.frame()


@contract(("C21", "C13"), "utils.get_symmetry_from_hall_number")
def hall_numbers(h):
    """Every integer: ValueError outside 1..530, otherwise the operations of spglib's database entry."""
    h.ctx.integer.add("N")
    h.ctx.real.add("N")
    N = atom("N")
    m = h.dim("m")
    asked = []

    def database(ip, env):
        asked.append(next(iter(env.values())))
        d = SDict()
        d.conc = {"rotations": h.arr("R", (m, 3, 3), "int", arg=False), "translations": h.arr("w", (m, 3), arg=False)}
        return d
    h.ip.contracts["spglib.get_symmetry_from_database"] = database
    ok = False
    for n, (facts, o) in enumerate(h.run([N])):
        inside = mk_and(cmp("le", 1, N), cmp("le", N, 530))
        if o[0] == "end":
            ok = True
            i, a, b = fresh(m), fresh(3), fresh(3)
            h.true("answers only inside 1..530", inside, facts)
            h.add("entry of that Hall number", bool(asked) and all(num(x) == N for x in asked), "path", repr(asked))
            h.eq("rotations", h.el(o[1][0], i, a, b), atom("R", i, a, b))
            h.eq("translations", h.el(o[1][1], i, a), atom("w", i, a))
        elif o[0] == "exc" and o[1].etype == "ValueError":
            h.true("ValueError only outside 1..530", mk_not(inside), facts)
        else:
            h.add(f"path{n}", not h.feasible(facts), "z3", repr(o))
    h.add("answers", ok, "path")
    h.frame()


CENTRINGS = {"P": [], "A": [(0, 1, 1)], "B": [(1, 0, 1)], "C": [(1, 1, 0)], "I": [(1, 1, 1)], "F": [(0, 1, 1), (1, 0, 1), (1, 1, 0)]}


@contract("C13", "transform.get_primitive_transformation_matrix")
def primitive_matrices(h):
    """Every crystal system, centring letter and setting of a trigonal group: the columns of the matrix generate exactly the lattice
    of the cell and its centring vectors (obverse setting for H), and are oriented like the cell."""
    import sympy
    m = h.ip.module("transform")
    systems = ["triclinic", "monoclinic", "orthorhombic", "tetragonal", "trigonal", "hexagonal", "cubic"]
    cases = [(s, "", pre + c + " 2") for s in systems if s != "trigonal" for c in CENTRINGS for pre in ("", "-")]
    cases += [("trigonal", c, sym) for c in ("H", "R", "") for sym in ("R 3", "-R 3", "P 3", "-P 3")]
    for system, choice, symbol in cases:
        asked = []
        N = Opaque("hall number")
        h.ip.contracts["transform.get_crystal_system"] = lambda ip, env: (asked.append(env["hall_number"] is N), system)[1]

        def kind(ip, env):
            asked.append(next(iter(env.values())) is N)
            d = SDict()
            d.conc = {"choice": choice, "hall_symbol": symbol}
            return d
        h.ip.contracts["spglib.get_spacegroup_type"] = kind
        if system == "trigonal":
            vec = [(sympy.Rational(2, 3), sympy.Rational(1, 3), sympy.Rational(1, 3)), (sympy.Rational(1, 3), sympy.Rational(2, 3), sympy.Rational(2, 3))] \
                if choice == "H" else []
        else:
            vec = [tuple(sympy.Rational(x, 2) for x in v) for v in CENTRINGS[symbol.lstrip("-")[0]]]
        lab = f"{system}, {choice or symbol}: "
        for facts, v in h.only_return(lab + "total", h.run([N])):
            h.add(lab + "of the given Hall number", bool(asked) and all(asked), "path")
            x = [[normalise(h.ctx, num(h.el(v, i, j))) for j in range(3)] for i in range(3)] if isinstance(v, Arr) and shape_is(v, (3, 3)) else None
            if not h.add(lab + "matrix of numbers", x is not None and all(e.is_const() for r in x for e in r), "path", repr(v)):
                continue
            M = sympy.Matrix(3, 3, lambda i, j: value(x[i][j]))
            good = M.det() == sympy.Rational(1, len(vec) + 1)
            h.add(lab + "volume of the cell divided by the number of its lattice points", good, "sympy", repr(M))
            Mi = M.inv()
            h.add(lab + "vectors of the cell are integer combinations", all(e.is_integer for e in Mi), "sympy", repr(Mi))
            h.add(lab + "centring vectors are integer combinations", all(e.is_integer for c in vec for e in Mi * sympy.Matrix(c)), "sympy", repr(Mi))


def value(p):
    import sympy
    c = p.d.get(((), ()))
    if c is None:
        return sympy.Integer(0)
    if c.im != 0:
        raise Undecided("complex entry")
    return sympy.Rational(c.re.numerator, c.re.denominator)


@contract("C13", "transform.get_centering")
def centring_letter(h):
    for c in list(CENTRINGS) + ["R"]:
        for pre in ("", "-"):
            for facts, v in h.only_return("total", h.run([f"{pre}{c} 2y"])):
                h.add(f"letter of {pre}{c}", v == c, "path", repr(v))
