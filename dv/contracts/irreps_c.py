"""Contracts on spgrep.irreps."""
from api import *
from api_oracle import *
from contracts.group_c import affine, fixes_k, flags
from contracts.rep_c import unitary_hom


def law_rule(h, name, factor, lead=0):
    """sum_c name[g,a,c] name[h,c,b] = factor(g,h) name[gh,a,b] (precondition or callee postcondition), and its complex conjugate.
    lead: number of leading indices (same family on both sides)."""

    def rule(ctx, bound, factors):
        fl = [(n, f) for n, (f, p) in enumerate(factors) if f[0] == "A" and f[1] == name and p == 1 and len(f[2]) == 3 + lead]
        for (n, f), (m, e) in itertools.permutations(fl, 2):
            c = f[2][-1]
            if f[3] == e[3] and f[2][:lead] == e[2][:lead] and c == e[2][-2] and c in bound and count_occ(c, factors) == 2:
                g, q = f[2][lead], e[2][lead]
                rest = [x for k, x in enumerate(factors) if k not in (n, m)]
                x = factor(g, q) * atom(name, *f[2][:lead], gmul(g, q), f[2][-2], e[2][-1])
                if f[3]:
                    x = x.conj(ctx)
                out = Poly()
                for (b3, f3), c3 in x.items():
                    out = out + Poly({(tuple(v for v in bound if v != c) + b3, mulfac(sortfac(rest), f3)): c3})
                return out
        return None
    h.ctx.rules.append(rule)


def generic_list(h, M, arr):
    """List of M arrays, any of which is arr (arr stands for an arbitrary member)."""
    v = fresh(M)
    return LList(items=None, sym=(M, v, arr))


@contract(("C03", "C05", "C17"), "irreps.enumerate_small_representations")
def small_representations(h):
    """For irreps of the factor system exp(-i g_i.w_j) (contract of enumerate_unitary_irreps) every returned family obeys the
    multiplication law of the little group with the phases of lattice translations and is unitary."""
    G, d, M = h.group(), h.dim("d"), h.dim("M")
    R, w, k = h.arr("R", (G, 3, 3), "int"), h.arr("w", (G, 3)), h.arr("k", (3,))
    affine(h.ctx)
    fixes_k(h.ctx)
    h.req("operations closed modulo lattice translations t, each mapping k to k plus a reciprocal lattice vector")
    given = {}

    def irreps(ip, env):
        if env["rotations"] is not R:
            raise Undecided("enumerate_unitary_irreps is called with other rotations")
        if ip.truth(env["real"]):
            raise Undecided("enumerate_unitary_irreps is called with real=True")
        given["F"] = env["factor_system"]
        D = mkarr((G, d, d), lambda i: atom("D", *i))
        return (generic_list(h, M, D), Opaque("indicators", None))
    h.ip.contracts["irreps.enumerate_unitary_irreps"] = irreps
    h.ip.contracts["representation.frobenius_schur_indicator"] = lambda ip, env: (given.update(fs=env["irrep"] if "irrep" in env else
                                                                                             list(env.values())[0]), atom("indicator"))[1]
    h.ctx.isometry["D"] = "both"
    law_rule(h, "D", lambda g, q: num(h.el(given["F"], g, q)))
    n, kinds = 0, set()
    for facts, v in h.only_return("total", h.run([R, w, k], {"method": Opaque("method", None)})):
        ok = isinstance(v, tuple) and len(v) == 2
        h.add(f"two results.{n}", ok, "path", repr(v))
        if not ok:
            continue
        kind, (vs, a) = h.ip.iter_spec(v[0])
        h.add(f"one small representation per irrep.{n}", vs[0][2] == M and shape_is(a, (G, d, d)), "path", repr(a))
        g, q, i, j, c, x = fresh(G), fresh(G), fresh(d), fresh(d), fresh(d), fresh(3)
        h.eq(f"multiplication law.{n}", (num(h.el(a, g, i, c)) * num(h.el(a, q, c, j))).sum(c),
             h.el(a, gmul(g, q), i, j) * E(-(atom("k", x) * atom("t", g, q, x)).sum(x)))
        h.eq(f"unitary.{n}", (num(h.el(a, g, i, c)) * num(h.el(a, g, j, c)).conj(h.ctx)).sum(c), delta(i, j))
        real = h.ip.quant((3,), lambda x: cmp("le", fun("abs", (lambda q: q - fun("rint", q))(atom("k", *x) * 2)),
                                              Poly.const(Fr(1, 10 ** 8))))
        kind, (vs2, ind) = h.ip.iter_spec(v[1])
        h.add(f"one indicator per irrep.{n}", vs2[0][2] == M, "path", repr(v[1]))
        ind = num(ind)
        parts = list(real.args) if real.op == "and" else [real]
        for case, want in [(parts, atom("indicator"))] + [(parts[:q] + [mk_not(parts[q])], Poly()) for q in range(len(parts))]:
            here = list(facts) + case
            if not h.feasible(here):
                continue
            is_real = case is parts
            kinds.add(is_real)
            h.eq("indicator of Frobenius and Schur if 2k is a reciprocal lattice vector" if is_real else
                 "indicator zero if 2k is not a reciprocal lattice vector", ind, want, here)
            if is_real:
                h.eq("indicator of the small representation", h.el(given["fs"], g, i, j), h.el(a, g, i, j))
        n += 1
    h.add("both kinds of k", kinds == {True, False}, "path", repr(kinds))
    h.frame()


def blocks(h, v, d, c=2):
    """v[g, block r, block s] -> function (g, r, i, s, j)."""
    return lambda g, r, i, s, j: num(h.el(v, g, ("b", r, i), ("b", s, j)))


@contract(("C09",), "irreps.get_physically_irrep")
def real_form_doubled(h):
    """Indicator -1 or 0: X -> [[Re X, Im X], [-Im X, Re X]], a homomorphism of matrices into real orthogonal ones."""
    G, d = h.group(), h.dim("d")
    A = h.arr("A", (G, d, d), "complex")
    h.ctx.isometry["A"] = "both"
    h.req("irrep: unitary matrices")
    for ind in (-1, 0):
        for facts, v in h.only_return(f"indicator {ind}", h.run([A, ind])):
            B = BDim(2, d)
            ok = h.add(f"{ind}: shape", shape_is(v, (G, B, B)), "path", repr(v))
            if not ok:
                continue
            el = blocks(h, v, d)
            g, q, i, j, c = fresh(G), fresh(G), fresh(d), fresh(d), fresh(d)
            re = lambda x: fun("re", x)
            im = lambda x: fun("im", x)
            phi = lambda x, r, s: re(x) if r == s else (im(x) if r == 0 else -im(x))
            prod = (atom("A", g, i, c) * atom("A", q, c, j)).sum(c)
            for r in range(2):
                for s in range(2):
                    h.eq(f"{ind}: block {r}{s}", el(g, r, i, s, j), phi(atom("A", g, i, j), r, s))
                    x = Poly()
                    o = Poly()
                    for m in range(2):
                        x = x + (el(g, r, i, m, c) * el(q, m, c, s, j)).sum(c)
                        o = o + (el(g, r, i, m, c) * el(g, s, j, m, c)).sum(c)
                    h.eq(f"{ind}: block {r}{s} of a product is that of the product", x, phi(prod, r, s))
                    h.eq(f"{ind}: orthogonal {r}{s}", o, delta(i, j) if r == s else 0)
            h.eq(f"{ind}: character", el(g, 0, c, 0, c).sum(c) + el(g, 1, c, 1, c).sum(c),
                 (atom("A", g, c, c) + atom("A", g, c, c).conj(h.ctx)).sum(c))
    h.frame()


@contract(("C09",), "irreps.get_physically_irrep")
def real_form_real(h):
    """Indicator 1: with U symmetric unitary, irrep U = U conj(irrep) (contract of get_intertwiner and Frobenius-Schur) and S
    diagonalising U (eigenvectors of a generic real combination of its real and imaginary parts), the result is the
    similarity transform T^-1 irrep T with T unitary and it is real without taking the real part."""
    G, d = h.group(), h.dim("d")
    A = h.arr("A", (G, d, d), "complex")
    h.ctx.isometry["A"] = "both"
    h.req("irrep: unitary matrices equivalent to their conjugates by a symmetric unitary matrix U = S diag(l) S^T, S real orthogonal; "
          "numpy.linalg.eigh of cos(1) Re U + sin(1) Im U returns S (no accidental degeneracy)")
    h.ctx.isometry["S"] = "both"
    h.ctx.real.add("S")
    h.ctx.unimod.add("root")
    m = fresh(d)
    U = lambda a, b: (lambda m: (atom("S", a, m) * atom("root", m) ** 2 * atom("S", b, m)).sum(m))(fresh(d))
    seen = {}

    def intertwiner(ip, env):
        g, i, j = fresh(G), fresh(d), fresh(d)
        ok = equal(h.ctx, num(h.el(env["rep1"], g, i, j)), atom("A", g, i, j)) and \
            equal(h.ctx, num(h.el(env["rep2"], g, i, j)), atom("A", g, i, j).conj(h.ctx))
        h.add("intertwiner of the irrep and its conjugate", ok, "normaliser", "other arguments")
        return ip.mk((d, d), lambda i: U(*i))

    def hook(ip, n, args, kw):
        if n != "linalg.eigh":
            raise Undecided(n)
        a, i, j = ip.to_arr(args[0]), fresh(d), fresh(d)
        u = U(i, j)
        want = fun("cos", 1) * fun("re", u) + fun("sin", 1) * fun("im", u)
        h.eq("eigenvectors of a generic combination of real and imaginary part", num(h.el(a, i, j)), want)
        return (Opaque("eigenvalues"), ip.mk((d, d), lambda i: atom("S", *i)))

    def root(ip, env):
        z = normalise(h.ctx, num(env["z"]))
        if env["n"] != 2 or len(z.d) != 1:
            raise Undecided("nroot of something else")
        ((b, fs), c), = z.d.items()
        if b or c != CQ(1) or len(fs) != 1 or fs[0][0][1] != "root" or fs[0][1] != 2:
            raise Undecided(f"nroot of {z!r}")
        return Poly.base(fs[0][0])
    h.ip.contracts["representation.get_intertwiner"] = intertwiner
    h.ip.contracts["utils.nroot"] = root
    h.ip.linalg_hook = hook
    h.req("nroot(z, 2)^2 = z (contract C19), of modulus one for z of modulus one")

    def conj_rule(ctx, bound, factors):        # conj(A) = U^dagger A U
        for n, (f, p) in enumerate(factors):
            if f[0] == "A" and f[1] == "A" and f[3] == 1 and p == 1:
                rest = [x for k, x in enumerate(factors) if k != n]
                a, b = fresh(d), fresh(d)
                x = (U(a, f[2][1]).conj(ctx) * atom("A", f[2][0], a, b) * U(b, f[2][2])).sum(a).sum(b)
                out = Poly()
                for (b3, f3), c3 in x.items():
                    out = out + Poly({(tuple(bound) + b3, mulfac(sortfac(rest), f3)): c3})
                return out
        return None
    for facts, v in h.only_return("total", h.run([A, 1])):
        h.add("shape", shape_is(v, (G, d, d)), "path", repr(v))
        g, q, i, j, c, a, b = fresh(G), fresh(G), fresh(d), fresh(d), fresh(d), fresh(d), fresh(d)
        T = lambda a, b: (lambda m: (atom("S", a, m) * atom("root", m) * atom("S", b, m)).sum(m))(fresh(d))
        sim = lambda g, i, j: (lambda a, b: (T(a, i).conj(h.ctx) * atom("A", g, a, b) * T(b, j)).sum(a).sum(b))(fresh(d), fresh(d))
        h.eq("T is unitary", (T(i, c) * T(j, c).conj(h.ctx)).sum(c), delta(i, j))
        x = num(h.el(v, g, i, j))
        y = sim(g, i, j)
        h.ctx.rules.append(conj_rule)
        h.eq("real part of the similarity transform is the similarity transform", x, y)
        h.ctx.rules.remove(conj_rule)
        h.eq("law of the similarity transform", (sim(g, i, c) * sim(q, c, j)).sum(c),
             (T(a, i).conj(h.ctx) * (atom("A", g, a, c) * atom("A", q, c, b)).sum(c) * T(b, j)).sum(a).sum(b))
    h.frame()
