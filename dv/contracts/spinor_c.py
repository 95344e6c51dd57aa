"""SU(2) matrices, spinor factor systems and spinor small representations."""
from api import *  # noqa
from api_oracle import *  # noqa
from contracts.group_c import affine, fixes_k
from contracts.irreps_c import law_rule, generic_list


def square_rule(h, name, value):
    """name^2 == value for a scalar atom or function factor given as a predicate-free factor."""
    key = name if isinstance(name, tuple) else ("A", name, (), 0)

    def rule(ctx, bound, factors):
        for n, (f, p) in enumerate(factors):
            if f == key and (p >= 2 or p <= -2):
                s = 1 if p > 0 else -1
                rest = [x for m, x in enumerate(factors) if m != n] + ([(f, p - 2 * s)] if p != 2 * s else [])
                return Poly({(bound, sortfac(rest)): CQ(1)}) * (value if s > 0 else value.inverse())
        return None
    h.ctx.rules.append(rule)


def unit_axis(h, pre="m"):
    m = [atom(f"{pre}{i}") for i in range(3)]
    for i in range(3):
        h.ctx.real.add(f"{pre}{i}")
    square_rule(h, f"{pre}2", Poly.const(1) - m[0] ** 2 - m[1] ** 2)
    return m


def lit(ip, rows):
    """Concrete array of scalars."""
    return ip.to_arr(LList(items=[LList(items=list(r)) if isinstance(r, (list, tuple)) else r for r in rows]))


def eps(a, b, c):
    return (a - b) * (b - c) * (c - a) // 2


def rodrigues(c, s, m):
    one = Poly.const(1)
    return [[(c if a == b else 0 * one) + (one - c) * m[a] * m[b] + sum((s * m[k] * -eps(a, b, k) for k in range(3)), 0 * one)
             for b in range(3)] for a in range(3)]


@contract("C06", "spinor.get_rotation_angle_and_axis")
def angle_and_axis(h):
    """For a rotation by phi in (0, pi) about the unit vector m the sine and cosine of the returned angle are those of phi and the
    axis is m."""
    h.req("Euler's theorem: the argument is c 1 + (1-c) m m^T + s [m]_x with c = cos phi, s = sin phi > 0, |m| = 1 (generic angle)")
    h.req("not numerically equal to the identity and not by pi (those two cases: contracts below)")
    ip = h.ip
    h.ctx.real.add("c")
    c = atom("c")
    s = fun("sqrt", normalise(h.ctx, Poly.const(1) - c ** 2))
    (_, fs), = [k for k, _ in s.items()]
    square_rule(h, fs[0][0], Poly.const(1) - c ** 2)
    m = unit_axis(h)
    R = lit(ip, rodrigues(c, s, m))
    R.name = "cart_rotation"
    def eig(ip, n, args, kw):
        raise Undecided("half turn")
    notid = mk_not(ip.as_cond(ip.np_call("numpy.allclose", [R, ip.np_call("numpy.eye", [3], {})], {})))
    notpi = mk_not(ip.as_cond(ip.np_call("numpy.isclose", [c, -1], {})))
    pos = cmp("lt", -s, Poly.const(0))
    n = 0
    for facts, v in h.only_return("total", h.run([R], assume=[notid, notpi, pos])):
        ok = isinstance(v, tuple) and len(v) == 2
        h.add(f"angle and axis.{n}", ok, "path", repr(v)[:200])
        if ok:
            h.eq(f"angle with the given sine and cosine.{n}", v[0], fun("arctan2", normalise(h.ctx, s), normalise(h.ctx, c)))
            a = ip.to_arr(v[1])
            for i in range(3):
                h.eq(f"axis.{n}.{i}", h.el(a, i), m[i])
        n += 1
    h.frame()


@contract("C06", "spinor.get_rotation_angle_and_axis")
def identity_and_half_turn(h):
    """Numerically the identity: angle zero.  Rotation by pi: angle pi and a unit vector along an eigenvector of eigenvalue one."""
    ip = h.ip
    R = h.arr("R", (3, 3))
    close_id = ip.as_cond(ip.np_call("numpy.allclose", [R, ip.np_call("numpy.eye", [3], {})], {}))
    for n, (facts, v) in enumerate(h.only_return("identity", h.run([R], assume=[close_id]))):
        ok = isinstance(v, tuple) and len(v) == 2
        h.add(f"identity: two results.{n}", ok, "path", repr(v)[:200])
        if ok:
            a = ip.to_arr(v[1])
            h.eq(f"identity: angle zero.{n}", v[0], 0)
            h.eq(f"identity: unit axis.{n}", sum((num(h.el(a, i)) ** 2 for i in range(3)), Poly()), 1)
    h.req("numpy.linalg.eig returns eigenvalues lam and real eigenvectors V (columns) of its argument; one eigenvalue of a half turn is 1")
    i = fresh(3)
    tr = normalise(h.ctx, (num(h.el(R, i, i)).sum(i) - 1) * Fr(1, 2))
    half = ip.as_cond(ip.np_call("numpy.isclose", [tr, -1], {}))
    h.ctx.real.update(("lam", "V"))
    asked = []

    def eig(ip, n, args, kw):
        if n != "linalg.eig":
            raise Undecided(n)
        asked.append(args[0])
        return (mkarr((3,), lambda i: atom("lam", *i)), mkarr((3, 3), lambda i: atom("V", *i)))
    ip.linalg_hook = eig
    one = [ip.as_cond(ip.np_call("numpy.isclose", [atom("lam", i), 1], {})) for i in range(3)]
    for q in range(3):
        facts0 = [mk_not(close_id), half] + [one[i] if i == q else mk_not(one[i]) for i in range(3)]
        nrm = fun("sqrt", normalise(h.ctx, (lambda i: (atom("V", i, q) ** 2).sum(i))(fresh(3))))
        n = 0
        for facts, v in h.only_return(f"half turn {q}", h.run([R], assume=facts0)):
            ok = isinstance(v, tuple) and len(v) == 2 and v[1] is not None
            h.add(f"half turn {q}: two results.{n}", ok, "path", repr(v)[:200])
            if ok:
                a = ip.to_arr(v[1])
                h.eq(f"half turn {q}: angle pi.{n}", v[0], atom("pi"))
                sgn = [s for s in (1, -1) if all(equal(h.ctx, num(h.el(a, i)), atom("V", i, q) * nrm.inverse() * s) for i in range(3))]
                h.add(f"half turn {q}: normalised eigenvector of eigenvalue one up to sign.{n}", len(sgn) == 1, "normaliser", repr([h.el(a, i) for i in range(3)])[:300])
            n += 1
    h.add("eigenvectors of the given matrix", bool(asked) and all(x is R for x in asked), "path")
    h.frame()


def R_el(h, R, i, j):
    return num(h.el(R, i, j))


SIGMA = [[[0, 1], [1, 0]], [[0, Poly.const(0, -1)], [Poly.const(0, 1), 0]], [[1, 0], [0, -1]]]


@contract(("C06", "C07", "C08"), "spinor.get_spinor_unitary_rotation")
def su2_matrix(h):
    """The 2x2 matrix is unitary, has determinant one and its adjoint action is the proper part of the rotation in Cartesian
    coordinates, A^T (sign det R) R (A^T)^-1."""
    ip = h.ip
    L, R = h.arr("L", (3, 3)), h.arr("R", (3, 3), "int")
    h.req("lattice invertible; contract of get_rotation_angle_and_axis: Cartesian rotation by theta about the unit vector m")
    h.ctx.real.update(("theta", "detR"))
    m = unit_axis(h)
    ch, sh = (fun(f, normalise(h.ctx, atom("theta") * Fr(1, 2))) for f in ("cos", "sin"))
    (_, fs), = [k for k, _ in sh.items()]
    square_rule(h, fs[0][0], Poly.const(1) - ch ** 2)
    asked = []

    def axis(ip, env):
        asked.append((ip.frozen(env["cart_rotation"]), list(ip.facts)))
        return (atom("theta"), lit(ip, m))
    ip.contracts["spinor.get_rotation_angle_and_axis"] = axis
    ip.det_hook = lambda ip, a: det_of(h, a, R)
    Li = h.ip.np_call("numpy.linalg.inv", [L], {})
    n = 0
    for facts, v in h.only_return("total", h.run([L, R])):
        ok = isinstance(v, Arr) and v.shape == (2, 2)
        h.add(f"2x2 matrix.{n}", ok, "path", repr(v))
        if not ok:
            continue
        U = [[num(h.el(v, i, j)) for j in range(2)] for i in range(2)]
        Ud = [[U[j][i].conj(h.ctx) for j in range(2)] for i in range(2)]
        for i in range(2):
            for j in range(2):
                h.eq(f"unitary.{n}.{i}{j}", U[i][0] * Ud[0][j] + U[i][1] * Ud[1][j], 1 if i == j else 0)
        h.eq(f"determinant one.{n}", U[0][0] * U[1][1] - U[0][1] * U[1][0], 1)
        rot = rodrigues(2 * ch * ch - 1, 2 * sh * ch, m)
        for a in range(3):
            for b in range(3):
                # 1/2 tr(sigma_a U sigma_b U^dagger)
                x = Poly()
                for i, j, k, l in itertools.product(range(2), repeat=4):
                    x = x + num(SIGMA[a][i][j]) * U[j][k] * num(SIGMA[b][k][l]) * Ud[l][i]
                h.eq(f"adjoint action is the rotation.{n}.{a}{b}", x * Fr(1, 2), rot[a][b])
        n += 1
    pos = cmp("lt", -atom("detR"), Poly.const(0))
    a, b, c, d = (fresh(3) for _ in range(4))
    signs = set()
    for n, (x, facts) in enumerate(asked):
        s = h.with_facts(facts, lambda: ip.decide(pos))
        signs.add(s)
        h.add(f"sign of the determinant decides.{n}", s is not None, "z3", repr((facts, pos)))
        h.eq(f"Cartesian proper rotation.{n}", h.el(x, a, b), (num(h.el(L, c, a)) * num(h.el(R, c, d)) * num(h.el(Li, b, d))).sum(c).sum(d) * (1 if s else -1))
    h.add("proper and improper operations", signs == {True, False}, "path", repr(signs))
    h.frame()


def det_of(h, a, R):
    i, j = fresh(3), fresh(3)
    p = num(h.el(a, i, j))
    if equal(h.ctx, p, num(h.el(R, i, j))):
        return atom("detR")
    raise Undecided("determinant of another matrix")


def su2_family(h, z, letters=2):
    """U[g] = [[a, -b*], [b, a*]] in SU(2), with U[g]U[q] = z U[gq] for a sign z (two products of SU(2) with equal adjoint action)."""
    el = lambda g: [[atom("a", g), -atom("b", g).conj(h.ctx)], [atom("b", g), atom("a", g).conj(h.ctx)]]

    def rule(ctx, bound, factors):
        for n, (f, p) in enumerate(factors):
            if f[0] == "A" and f[1] in ("a", "b") and isinstance(f[2][0], tuple) and f[2][0][0] == "w" and len(f[2][0][2]) >= 2 and p == 1:
                w = f[2][0]
                g, q = mkword(w[1], w[2][:1]), mkword(w[1], w[2][1:])
                x, y = el(g), el(q)
                r = 0 if f[1] == "a" else 1
                e = (x[r][0] * y[0][0] + x[r][1] * y[1][0]) * z
                if f[3]:
                    e = e.conj(h.ctx)
                rest = [o for m, o in enumerate(factors) if m != n]
                return Poly({(bound, sortfac(rest)): CQ(1)}) * e
        return None
    h.ctx.rules.append(rule)
    return el


def not_own_negative(h, el, g):
    """A matrix of SU(2) is not numerically equal to its negative."""
    ip = h.ip
    U = lit(ip, el(g))
    return [mk_not(ip.as_cond(ip.np_call("numpy.allclose", [U, ip.binop("Mult", -1, U)], {}))),
            mk_not(ip.as_cond(ip.np_call("numpy.allclose", [ip.binop("Mult", -1, U), U], {})))]


@contract(("C06", "C07"), "spinor.get_spinor_factor_system")
def sign_cocycle(h):
    """For SU(2) matrices with U[g] U[q] = z U[gq], z = 1 or -1, the entry of the factor system is z, for every pair; the matrices
    returned are those of the operations."""
    for z in (1, -1):
        h.ctx = Ctx()
        h.ip = Interp(h.ctx)
        h.ip.deadline = time.time() + 60
        ip = h.ip
        G = h.group()
        L, R = h.arr("L", (3, 3)), h.arr("R", (G, 3, 3), "int")
        el = su2_family(h, z)
        used = []

        def unitary(ip, env):
            x = ip.to_arr(env["rotation"])
            i, j = fresh(3), fresh(3)
            gs = sorted({v for v in vars_of(num(h.el(x, i, j))) if v[2] == G}, key=skey)
            if len(gs) != 1 or not equal(h.ctx, num(h.el(x, i, j)), atom("R", gs[0], i, j)) or env["lattice"] is not L:
                raise Undecided("matrix of another operation")
            used.append(gs[0])
            return lit(ip, el(gs[0]))
        ip.contracts["spinor.get_spinor_unitary_rotation"] = unitary
        ip.contracts["group.get_cayley_table"] = lambda ip, env: h.table(G) if env["rotations"] is R and env.get("time_reversals") is None else ip.fail("table")
        g, q = fresh(G), fresh(G)
        n = 0
        lab = f"z={z}: "
        for facts, v in h.only_return(lab + "total", h.run([L, R])):
            ok = isinstance(v, tuple) and len(v) == 2 and v[0].shape == (G, G) and v[1].shape == (G, 2, 2)
            h.add(f"{lab}factor system and matrices.{n}", ok, "path", repr(v)[:200])
            if not ok:
                continue
            for i in range(2):
                for j in range(2):
                    h.eq(f"{lab}matrix of the operation.{n}.{i}{j}", h.el(v[1], g, i, j), el(g)[i][j], facts)
            w = num(h.el(v[0], g, q))
            ass = not_own_negative(h, el, gmul(g, q))
            h.eq_split(f"{lab}sign.{n}", w, z, list(facts) + ass)
            n += 1
        h.frame(lab + "frame")
    h.req("products of SU(2) matrices with equal adjoint action agree up to sign (paper lemma: kernel of SU(2) -> SO(3))")
    h.req("a matrix of SU(2) is not numerically close to its negative")


@contract("C08", "corep.get_corep_spinor_factor_system")
def antilinear_sign_cocycle(h):
    """With matrices U[g] (times the time-reversal matrix and anti-linear for time-reversing g) the returned factor system consists
    of signs with U[g] U[q]^(conjugated if g is anti-linear) = omega(g,q) U[gq], and the flags are those of the operations."""
    for z, tg, tq in itertools.product((1, -1), (0, 1), (0, 1)):
        h.ctx = Ctx()
        h.ip = Interp(h.ctx)
        h.ip.deadline = time.time() + 60
        ip = h.ip
        G = h.group()
        L, R, t = h.arr("L", (3, 3)), h.arr("R", (G, 3, 3), "int"), h.arr("t", (G,), "int")
        el = su2_family(h, z)

        def unitary(ip, env):
            x = ip.to_arr(env["rotation"])
            i, j = fresh(3), fresh(3)
            gs = sorted({v for v in vars_of(num(h.el(x, i, j))) if v[2] == G}, key=skey)
            if len(gs) != 1 or not equal(h.ctx, num(h.el(x, i, j)), atom("R", gs[0], i, j)) or env["lattice"] is not L:
                raise Undecided("matrix of another operation")
            return lit(ip, el(gs[0]))
        ip.contracts["spinor.get_spinor_unitary_rotation"] = unitary

        def table(ip, env):
            if env["rotations"] is not R or env.get("time_reversals") is not t:
                raise Undecided("table of other operations")
            return h.table(G)
        ip.contracts["group.get_cayley_table"] = table
        g, q = fresh(G), fresh(G)
        flags = [cmp("eq", atom("t", g), Poly.const(tg)), cmp("eq", atom("t", q), Poly.const(tq)),
                 cmp("eq", atom("t", gmul(g, q)), Poly.const(tg ^ tq))]
        n = 0
        lab = f"z={z}, time reversal {tg}{tq}: "
        T = [[0, -1], [1, 0]]

        def U(k, tk):
            u = el(k)
            return u if not tk else [[u[i][0] * T[0][j] + u[i][1] * T[1][j] for j in range(2)] for i in range(2)]
        for facts, v in h.only_return(lab + "total", h.run([L, R, t])):
            ok = isinstance(v, tuple) and len(v) == 3 and v[0].shape == (G, G) and v[1].shape == (G, 2, 2) and v[2].shape == (G,)
            h.add(f"{lab}factor system, matrices, flags.{n}", ok, "path", repr(v)[:200])
            if not ok:
                continue
            fs = list(facts) + flags + [mk_not(cmp("eq", atom("t", k), Poly.const(1 - x))) for k, x in ((g, tg), (q, tq), (gmul(g, q), tg ^ tq))]
            for k, tk, nm in ((g, tg, "g"), (q, tq, "q"), (gmul(g, q), tg ^ tq, "gq")):
                for i in range(2):
                    for j in range(2):
                        h.eq_split(f"{lab}matrix of {nm}.{n}.{i}{j}", h.el(v[1], k, i, j), U(k, tk)[i][j], fs)
                fl = h.el(v[2], k)
                h.iff(f"{lab}flag of {nm}.{n}", ip.as_cond(fl), TRUE if tk else FALSE, fs)
            w = -z if tg and tq else z
            a, b, c = U(g, tg), U(q, tq), U(gmul(g, q), tg ^ tq)
            for i in range(2):
                for j in range(2):
                    x = sum((a[i][k] * (b[k][j].conj(h.ctx) if tg else b[k][j]) for k in range(2)), Poly())
                    h.eq(f"{lab}law with the sign.{n}.{i}{j}", x, c[i][j] * w)
            M = lit(ip, c)
            ass = [mk_not(ip.as_cond(ip.np_call("numpy.allclose", [x, y], {}))) for x, y in ((M, ip.binop("Mult", -1, M)), (ip.binop("Mult", -1, M), M))]
            h.eq_split(f"{lab}sign.{n}", h.el(v[0], g, q), w, fs + ass)
            n += 1
        h.frame(lab + "frame")
    h.req("products of SU(2) matrices with equal adjoint action agree up to sign (paper lemma: kernel of SU(2) -> SO(3))")
    h.req("a matrix of SU(2) is not numerically close to its negative; time_reversals are 0 or 1 and multiply like the operations")


@contract(("C07", "C05"), "spinor.enumerate_spinor_small_representations")
def spinor_small_representations(h):
    """For irreps of the product of the sign factor system and exp(-i g_i.w_j) every returned family is unitary and obeys the law of
    the little group with that sign and the phases of lattice translations; without translations and k, the law with the sign."""
    for lab in ("little group: ", "point group: "):
        h.ctx = Ctx()
        h.ip = Interp(h.ctx)
        h.ip.deadline = time.time() + 60
        ip, C = h.ip, h.ip.contracts
        point = lab.startswith("point")
        G, d, M = h.group(), h.dim("d"), h.dim("M")
        L, R, w, k = h.arr("L", (3, 3)), h.arr("R", (G, 3, 3), "int"), h.arr("w", (G, 3)), h.arr("k", (3,))
        affine(h.ctx)
        fixes_k(h.ctx)
        z = (mkarr((G, G), lambda i: atom("z", *i)), Opaque("matrices"))

        def sign(ip, env):
            if env["lattice"] is not L or env["rotations"] is not R:
                raise Undecided("signs of other operations")
            return z
        C["spinor.get_spinor_factor_system"] = sign
        given = {}

        def irreps(ip, env):
            if env["rotations"] is not R or ip.truth(env["real"]):
                raise Undecided("irreps of another group or real representations")
            given["F"] = env["factor_system"]
            return (generic_list(h, M, mkarr((G, d, d), lambda i: atom("D", *i))), Opaque("regular representation"))
        C["irreps.enumerate_unitary_irreps"] = irreps
        h.ctx.isometry["D"] = "both"
        law_rule(h, "D", lambda g, q: num(h.el(given["F"], g, q)))
        n = 0
        for facts, v in h.only_return(lab + "total", h.run([L, R], {} if point else {"little_translations": w, "kpoint": k})):
            ok = isinstance(v, tuple) and len(v) == 3
            h.add(f"{lab}three results.{n}", ok, "path", repr(v))
            if not ok:
                continue
            h.add(f"{lab}signs and matrices are passed on.{n}", v[1] is z[0] and v[2] is z[1], "path", repr(v))
            kind, (vs, a) = ip.iter_spec(v[0])
            h.add(f"{lab}one small representation per irrep.{n}", vs[0][2] == M and shape_is(a, (G, d, d)), "path", repr(a))
            g, q, i, j, c, x = fresh(G), fresh(G), fresh(d), fresh(d), fresh(d), fresh(3)
            ph = E(-(atom("k", x) * atom("t", g, q, x)).sum(x)) if not point else 1
            h.eq(f"{lab}multiplication law.{n}", (num(h.el(a, g, i, c)) * num(h.el(a, q, c, j))).sum(c), atom("z", g, q) * h.el(a, gmul(g, q), i, j) * ph)
            h.eq(f"{lab}unitary.{n}", (num(h.el(a, g, i, c)) * num(h.el(a, g, j, c)).conj(h.ctx)).sum(c), delta(i, j))
            n += 1
        h.add(lab + "returns", n > 0, "path")
        h.frame(lab + "frame")
    h.req("operations closed modulo lattice translations t, each mapping k to k plus a reciprocal lattice vector; irreps of the given "
          "factor system (contract of enumerate_unitary_irreps)")
