"""Contracts on spgrep.representation."""
from api import *
from api_oracle import *


def close_all(h, shape, f, rtol, atol):
    """All entries (x, y) = f(idx) satisfy |x - y| <= atol + rtol |y|."""
    from numpy_model import close
    return h.ip.quant(shape, lambda i: close(h.ip, *f(i), rtol, atol))


def unitary_hom(h, name, dim, proj=None):
    h.ctx.hom[name] = {"dim": dim, "unitary": True, **({"proj": proj} if proj else {})}


def mat(name, g, a, c):
    return atom(name, g, a, c)


def mul(h, A, B, i, j, a, b, d):
    c = fresh(d)
    return (atom(A, i, a, c) * atom(B, j, c, b)).sum(c)


# ---------------------------------------------------------------- C16: checkers
@contract("C16", "representation.is_unitary")
def unitary_iff(h):
    n, d = h.dim("n"), h.dim("d")
    D = h.arr("D", (n, d, d), "complex")
    i = fresh(n)

    def f(ab):
        c = fresh(d)
        return (atom("D", i, ab[0], c) * atom("D", i, ab[1], c).conj(h.ctx)).sum(c), delta(*ab)
    spec = mk_all(i, close_all(h, (d, d), f, 1e-5, 1e-8))
    h.decides("true iff all matrices are unitary", h.only_return("total", h.run([D])), spec)
    h.frame()


@contract("C16", "representation.is_representation")
def representation_iff(h):
    n, d = h.dim("n"), h.dim("d")
    D = h.arr("D", (n, d, d), "complex")
    T = h.index_arr("table", (n, n), lambda ij: ("f", "T", ij, n))
    W = h.arr("W", (n, n), "complex")
    h.ctx.real |= {"rtol", "atol"}
    rt, at = atom("rtol"), atom("atol")
    for label, kw in (("linear", {}), ("projective", {"factor_system": W})):
        i, j = fresh(n), fresh(n)

        def f(ab):
            y = atom("D", ("f", "T", (i, j), n), *ab)
            return mul(h, "D", "D", i, j, *ab, d), y * atom("W", i, j) if kw else y
        spec = mk_all(i, mk_all(j, close_all(h, (d, d), f, rt, at)))
        h.decides(f"{label}: true iff multiplication law", h.only_return(label, h.run([D, T], {**kw, "rtol": rt, "atol": at})), spec)
    h.frame()


@contract("C16", "representation.check_spacegroup_representation")
def spacegroup_representation_iff(h):
    from contracts.group_c import affine
    G, d = h.group(), h.dim("d")
    R, w, k = h.arr("R", (G, 3, 3), "int"), h.arr("w", (G, 3)), h.arr("k", (3,))
    D, W = h.arr("D", (G, d, d), "complex"), h.arr("W", (G, G), "complex")
    h.ctx.hom["R"] = {"dim": 3}
    h.req("g -> R[g] is an injective homomorphism into integer matrices (coset representatives of the little group)")
    h.ip.index_oracle = group_oracle([{"R": (3, 3)}])
    h.ctx.real.add("rtol")
    rt = atom("rtol")
    for label, kw in (("spinless", {}), ("spinor", {"spinor_factor_system": W})):
        i, j, c, a = fresh(G), fresh(G), fresh(3), fresh(3)
        shift = (atom("R", i, a, c) * atom("w", j, c)).sum(c) + atom("w", i, a) - atom("w", gmul(i, j), a)
        ph = E(-(atom("k", a) * shift).sum(a))

        def f(ab):
            x = ph * atom("D", gmul(i, j), *ab)
            return (x * atom("W", i, j) if kw else x), mul(h, "D", "D", i, j, *ab, d)
        spec = mk_all(i, mk_all(j, close_all(h, (d, d), f, rt, 1e-8)))
        h.decides(f"{label}: true iff multiplication law with translation phase", h.only_return(label, h.run([R, w, k, D], {**kw, "rtol": rt})), spec)
    h.frame()


@contract("C16", "group.check_cocycle_condition")
def cocycle_iff(h):
    G = h.group()
    R, W = h.arr("R", (G, 3, 3), "int"), h.arr("W", (G, G), "complex")
    h.ctx.hom["R"] = {"dim": 3}
    h.req("g -> R[g] is an injective homomorphism into integer matrices")
    h.ip.index_oracle = group_oracle([{"R": (3, 3)}])
    from numpy_model import close
    i, j, k = fresh(G), fresh(G), fresh(G)
    spec = mk_all(i, mk_all(j, mk_all(k, close(h.ip, atom("W", i, gmul(j, k)) * atom("W", j, k), atom("W", gmul(i, j), k) * atom("W", i, j),
                                               1e-5, 1e-8))))
    h.decides("true iff cocycle condition", h.only_return("total", h.run([R, W])), spec)
    h.frame()


@contract("C16", "group.check_cocycle_condition")
def no_group_rejected(h):
    n = h.dim("n")
    R, W = h.arr("R", (n, 3, 3), "int"), h.arr("W", (n, n), "complex")
    h.ip.contracts["group.is_matrix_group"] = lambda ip, env: False
    h.req("is_matrix_group(R) is False")
    for facts, v in h.only_return("total", h.run([R, W])):
        h.add("rejected", v is False, "path", repr(v))


# ---------------------------------------------------------------- C17: algebra of representations
@contract("C17", "representation.get_regular_representation")
def regular(h):
    G = h.group()
    R = h.arr("R", (G, 3, 3), "int")
    h.ctx.hom["R"] = {"dim": 3}
    h.req("g -> R[g] is an injective homomorphism into integer matrices")
    h.ip.index_oracle = group_oracle([{"R": (3, 3)}])
    for facts, v in h.only_return("total", h.run([R])):
        h.add("shape", shape_is(v, (G, G, G)), "path", repr(v))
        k, i, j, l = fresh(G), fresh(G), fresh(G), fresh(G)
        h.eq("reg[k,i,j] == [k j == i]", h.el(v, k, i, j), delta(gmul(k, j), i))
        c = fresh(G)
        h.eq("homomorphism", (h.el(v, k, i, c) * h.el(v, l, c, j)).sum(c), h.el(v, gmul(k, l), i, j))
        h.eq("unitary", (h.el(v, k, c, i) * h.el(v, k, c, j)).sum(c), delta(i, j))
        h.eq("character", num(h.el(v, k, c, c)).sum(c), delta(k, gone("G")) * size_atom(G))
    h.frame()


@contract("C17", "representation.get_projective_regular_representation")
def projective_regular(h):
    G = h.group()
    R = h.arr("R", (G, 3, 3), "int")
    W = h.arr("W", (G, G), "complex")
    h.ctx.hom["R"] = {"dim": 3}
    h.ctx.unimod.add("W")
    h.ctx.cocycle["W"] = "W"
    h.ctx.unimod_phi.add("W")
    h.req("g -> R[g] is an injective homomorphism into integer matrices; W is a cocycle of modulus one")
    h.ip.index_oracle = group_oracle([{"R": (3, 3)}])
    for facts, v in h.only_return("total", h.run([R, W])):
        h.add("shape", shape_is(v, (G, G, G)), "path", repr(v))
        k, i, j, l = fresh(G), fresh(G), fresh(G), fresh(G)
        h.eq("reg[k,i,j] == [k j == i] W[k,j]", h.el(v, k, i, j), delta(gmul(k, j), i) * atom("W", k, j))
        c = fresh(G)
        h.eq("multiplication law", (h.el(v, k, i, c) * h.el(v, l, c, j)).sum(c), h.el(v, gmul(k, l), i, j) * atom("W", k, l))
        h.eq("unitary", (h.el(v, k, c, i).conj(h.ctx) * h.el(v, k, c, j)).sum(c), delta(i, j))
    h.frame()


@contract("C17", "representation.get_character")
def character(h):
    n, d = h.dim("n"), h.dim("d")
    D = h.arr("D", (n, d, d), "complex")
    for facts, v in h.only_return("total", h.run([D])):
        h.add("shape", shape_is(v, (n,)), "path", repr(v))
        i, a = fresh(n), fresh(d)
        h.eq("trace", h.el(v, i), atom("D", i, a, a).sum(a))
    h.frame()


@contract("C17", "representation.get_direct_product")
def direct_product(h):
    G, d1, d2 = h.group(), h.dim("d1"), h.dim("d2")
    A, B = h.arr("A", (G, d1, d1), "complex"), h.arr("B", (G, d2, d2), "complex")
    for facts, v in h.only_return("total", h.run([A, B])):
        P = PDim((d1, d2))
        h.add("shape", shape_is(v, (G, P, P)), "path", repr(v))
        g, i, k, j, l = fresh(G), fresh(d1), fresh(d2), fresh(d1), fresh(d2)
        el = lambda g, i, k, j, l: h.el(v, g, ("p", (i, k)), ("p", (j, l)))
        h.eq("Kronecker product", el(g, i, k, j, l), atom("A", g, i, j) * atom("B", g, k, l))
        a, b = fresh(d1), fresh(d2)
        h.eq("character is the product", el(g, a, b, a, b).sum(a).sum(b), atom("A", g, a, a).sum(a) * atom("B", g, b, b).sum(b))
    h.frame()


@contract("C17", "representation.get_direct_product")
def direct_product_law(h):
    """Factor systems multiply."""
    G, d1, d2 = h.group(), h.dim("d1"), h.dim("d2")
    A, B = h.arr("A", (G, d1, d1), "complex"), h.arr("B", (G, d2, d2), "complex")
    unitary_hom(h, "A", d1, "U")
    unitary_hom(h, "B", d2, "V")
    for nm in "UV":
        h.ctx.cocycle[nm] = nm
        h.ctx.unimod_phi.add(nm)
    h.req("A and B are unitary projective representations with cocycles U and V of modulus one")
    for facts, v in h.only_return("total", h.run([A, B])):
        el = lambda g, i, k, j, l: h.el(v, g, ("p", (i, k)), ("p", (j, l)))
        g, e, i, k, j, l, a, b = fresh(G), fresh(G), fresh(d1), fresh(d2), fresh(d1), fresh(d2), fresh(d1), fresh(d2)
        h.eq("multiplication law", (el(g, i, k, a, b) * el(e, a, b, j, l)).sum(a).sum(b),
             el(gmul(g, e), i, k, j, l) * atom("U", g, e) * atom("V", g, e))
        h.eq("unitary", (el(g, i, k, a, b) * el(g, j, l, a, b).conj(h.ctx)).sum(a).sum(b), delta(i, j) * delta(k, l))


@contract(("C17", "C21"), "representation.get_direct_product")
def direct_product_rejects(h):
    n, m, d1, d2 = h.dim("n"), h.dim("m"), h.dim("d1"), h.dim("d2")
    for a, b in ((n, m), (d1, d2)):
        h.ip.facts.append(mk_not(cmp("eq", size_atom(a), size_atom(b))))
    for label, s1, s2 in (("orders differ", (n, d1, d1), (m, d2, d2)), ("not square", (n, d1, d2), (n, d2, d2)),
                          ("second not square", (n, d1, d1), (n, d2, d1))):
        A, B = h.arr("A", s1, "complex"), h.arr("B", s2, "complex")
        ps = h.run([A, B])
        h.add(f"{label}: ValueError", bool(ps) and all(o[0] == "exc" and o[1].etype == "ValueError" for f, o in ps), "path", repr(ps)[:200])


@contract("C17", "representation.frobenius_schur_indicator")
def frobenius_schur(h):
    G, d = h.group(), h.dim("d")
    D = h.arr("D", (G, d, d), "complex")
    unitary_hom(h, "D", d)
    h.req("D is a unitary representation")
    g, a = fresh(G), fresh(d)
    s = (atom("D", gmul(g, g), a, a)).sum(a).sum(g) * size_atom(G).inverse()
    spec = fun("rint", normalise(h.ctx, fun("re", s)))
    n = 0
    for facts, o in h.run([D]):
        if o[0] == "exc":
            h.add("error is ValueError", o[1].etype == "ValueError", "path", repr(o))
            h.true("error only if the indicator exceeds one", cmp("lt", 1, spec), facts)
        else:
            n += 1
            h.eq("sum of characters of squares", o[1], spec, facts)
            h.true("at most one", cmp("le", spec, 1), facts)
    h.add("returns", n >= 1, "path", "")
    h.frame()


# ---------------------------------------------------------------- C10: intertwiner
@contract("C10", "representation.get_intertwiner")
def intertwines(h):
    """Each value returned other than the zero fallback satisfies rep1[g] M == M rep2[g] for all g."""
    G, d = h.group(), h.dim("d")
    A, B = h.arr("A", (G, d, d), "complex"), h.arr("B", (G, d, d), "complex")
    h.ctx.cocycle["W"] = "W"
    h.ctx.unimod_phi.add("W")
    unitary_hom(h, "A", d, "W")
    unitary_hom(h, "B", d, "W")
    h.req("rep1, rep2: unitary representations with one factor system of modulus one")
    n = 0
    for facts, v in h.only_return("total", h.run([A, B], {"max_num_random_generations": 2})):
        h.add(f"shape.{n}", shape_is(v, (d, d)), "path", repr(v))
        g, i, j, c = fresh(G), fresh(d), fresh(d), fresh(d)
        h.eq(f"intertwines.{n}", (atom("A", g, i, c) * h.el(v, c, j)).sum(c), (h.el(v, i, c) * atom("B", g, c, j)).sum(c), facts)
        n += 1
    h.add("several outcomes", n >= 2, "path", str(n))
    h.frame()


@contract("C10", "representation.get_intertwiner")
def normalised(h):
    """The matrix returned is M / det(M)^(1/d) for an intertwiner M that is not zero within atol: its determinant is one and, by
    Schur's lemma (M M^dagger is a positive multiple of one), it is unitary.  Zero is returned only if every trial vanishes."""
    G, d = h.group(), h.dim("d")
    A, B = h.arr("A", (G, d, d), "complex"), h.arr("B", (G, d, d), "complex")
    h.ctx.cocycle["W"] = "W"
    h.ctx.unimod_phi.add("W")
    unitary_hom(h, "A", d, "W")
    unitary_hom(h, "B", d, "W")
    h.ctx.real.add("atol")
    seen = []
    h.ctx.cfun.add("pow")

    def det(ip, a):
        seen.append(a)
        h.ctx.cfun.add("det")
        return atom(f"det{len(seen)}")
    h.ip.det_hook = det
    h.req("paper lemma: det(M/s) = det(M)/s^d, (z^(1/d))^d = z; Schur: a nonzero intertwiner M of irreps has M M^dagger = c 1, c = |det M|^(2/d)")
    kinds = []
    tr = 3
    ps = h.run([A, B], {"atol": atom("atol"), "max_num_random_generations": tr})
    for n, (facts, v) in enumerate(h.only_return("total", ps)):
        i, j, c, g = fresh(d), fresh(d), fresh(d), fresh(G)
        if v.stores and equal(h.ctx, num(h.el(v, i, j)), Poly()):
            kinds.append("zero")
            small = [f for f in facts if f.op == "all"]
            h.add(f"zero only after {tr} trials vanish within atol.{n}", len(small) == tr, "path", repr(facts)[:300])
            continue
        kinds.append("M")
        M = [m for k, m in enumerate(seen) if f"det{k + 1}" in repr(normalise(h.ctx, num(h.el(v, i, j))))]
        ok = h.add(f"one determinant.{n}", len(M) == 1, "path", repr(v)[:200])
        if not ok:
            continue
        M, nm = M[0], f"det{seen.index(M[0]) + 1}"
        m = num(h.el(M, i, j))
        h.eq(f"M intertwines.{n}", (atom("A", g, i, c) * num(h.el(M, c, j))).sum(c), (num(h.el(M, i, c)) * atom("B", g, c, j)).sum(c))
        h.eq(f"scaled to determinant one.{n}", h.el(v, i, j), m * fun("pow", atom(nm), size_atom(d).inverse()).inverse())
        big = mk_not(h.ip.quant((d, d), lambda x: cmp("le", fun("abs", num(h.el(M, *x))), atom("atol"))))
        h.true(f"M does not vanish within atol.{n}", big, facts)
    h.add("first nonzero trial, else zero", kinds.count("M") == tr and kinds.count("zero") == 1, "path", repr(kinds))
    h.frame()
