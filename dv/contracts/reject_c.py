"""Rejections reach the caller: a function whose callee rejects its arguments with ValueError returns no answer."""
from api import *  # noqa
from api_oracle import *  # noqa
from contracts.core_c import crystal, is_centring, little_group_contract, settings, spin_results
from contracts.corep_c import flags


def rejecting(h, kw=None, given=None):
    """A callee that raises ValueError; it must have been asked about what the caller was asked."""
    def cg(ip, env):
        if kw is not None and env.get("method") is not kw["method"]:
            if isinstance(env.get("method"), str):
                h.add("the callee is asked about the given method", False, "path", repr(env["method"]))
            raise Undecided("callee asked about another method")
        for name, x in (given or {}).items():
            if env.get(name) is not x:
                raise Undecided(f"callee asked about another {name}")
        raise PyExc("ValueError", "rejected by the callee")
    return cg


def reaches_caller(h, lab, outcomes):
    res = [(facts, o) for facts, o in outcomes if o[0] == "exc" and o[1].etype == "ValueError" or h.feasible(facts)]
    h.add(lab, bool(res) and all(o[0] == "exc" and o[1].etype == "ValueError" for _, o in res), "path", repr([o for _, o in res])[:300])


@contract("C21", "irreps.enumerate_unitary_irreps")
def rejects_methods_and_sets(h):
    """Every method but the two known ones is rejected, whatever its name; a set that is not closed is by both of them."""
    from contracts.irreps2_c import group_inputs
    for real in (False, True):
        G, d, N, R, W, irr, used = group_inputs(h, True)
        reaches_caller(h, f"any other method{', real' if real else ''}", h.run([R], {"method": Opaque("method"), "real": real}, assume=[
            mk_not(Cond(f"the method is {x!r}", ())) for x in ("Neto", "random")]))
        for method, callee in (("Neto", "group.get_cayley_table"), ("random", "representation.get_projective_regular_representation")):
            G, d, N, R, W, irr, used = group_inputs(h, True)
            h.ip.contracts[callee] = rejecting(h, given={"rotations": R})
            reaches_caller(h, f"rotations that are not closed, {method}{', real' if real else ''}", h.run([R], {"method": method, "real": real}))
    h.frame()


def not_closed(h, args, lab=""):
    n = h.dim("n")
    R = h.arr("R", (n, 3, 3), "int")
    h.ip.contracts["group.get_cayley_table"] = rejecting(h, given={"rotations": R})
    h.ip.contracts["spinor.get_spinor_unitary_rotation"] = lambda ip, env: ip.mk((2, 2), lambda i: atom("u", *i))
    reaches_caller(h, "rotations that are not closed", h.run(args(n, R)))
    h.frame()


@contract("C21", "representation.get_regular_representation")
def regular_not_closed(h):
    not_closed(h, lambda n, R: [R])


@contract("C21", "representation.get_projective_regular_representation")
def projective_not_closed(h):
    not_closed(h, lambda n, R: [R, h.arr("W", (n, n), "complex")])


@contract("C21", "spinor.get_spinor_factor_system")
def spinor_not_closed(h):
    not_closed(h, lambda n, R: [h.arr("A", (3, 3)), R])


@contract("C21", "corep.get_corep_spinor_factor_system")
def corep_not_closed(h):
    not_closed(h, lambda n, R: [h.arr("A", (3, 3)), R, flags(h, n)])


@contract("C21", "irreps.enumerate_small_representations")
def small_rejected(h):
    for real in (False, True):
        n = h.dim("n")
        R, w, k = h.arr("R", (n, 3, 3), "int"), h.arr("w", (n, 3)), h.arr("k", (3,))
        kw = settings(h)
        h.ip.contracts["irreps.enumerate_unitary_irreps"] = rejecting(h, kw)
        reaches_caller(h, f"rejected irreps{', real' if real else ''}", h.run([R, w, k], {"real": real, **kw}))
    h.frame()


@contract("C21", "spinor.enumerate_spinor_small_representations")
def spinor_small_rejected(h):
    n = h.dim("n")
    A, R, w, k = h.arr("A", (3, 3)), h.arr("R", (n, 3, 3), "int"), h.arr("w", (n, 3)), h.arr("k", (3,))
    kw = settings(h)
    C = h.ip.contracts
    C["spinor.get_spinor_factor_system"] = lambda ip, env: (mkarr((n, n), lambda i: atom("z", *i)), Opaque("matrices"))
    C["irreps.enumerate_unitary_irreps"] = rejecting(h, kw)
    reaches_caller(h, "rejected irreps", h.run([A, R, w, k], kw))
    C["spinor.get_spinor_factor_system"] = rejecting(h, given={"rotations": R})
    reaches_caller(h, "rotations that are not closed", h.run([A, R, w, k], kw))
    h.frame()


@contract("C21", "core.get_crystallographic_pointgroup_irreps_from_symmetry")
def pointgroup_rejected(h):
    n = h.dim("n")
    R = h.arr("R", (n, 3, 3), "int")
    kw = settings(h)
    h.ip.contracts["irreps.enumerate_unitary_irreps"] = rejecting(h, kw, {"rotations": R})
    for real in (False, True):
        reaches_caller(h, f"rejected irreps{', real' if real else ''}", h.run([R], {"real": real, **kw}))
    h.frame()


@contract("C21", "core.get_crystallographic_pointgroup_spinor_irreps_from_symmetry")
def spinor_pointgroup_rejected(h):
    for magnetic in (False, True):
        n = h.dim("n")
        A, R = h.arr("A", (3, 3)), h.arr("R", (n, 3, 3), "int")
        t = flags(h, n)
        kw = settings(h)
        C = h.ip.contracts
        r = spin_results(h, n, magnetic)
        C["spinor.get_spinor_factor_system"] = lambda ip, env: (r["N"], r["U"])
        C["irreps.enumerate_unitary_irreps"] = C["corep.enumerate_spinor_small_corepresentations"] = rejecting(h, kw)
        C["spinor.enumerate_spinor_small_representations"] = rejecting(h, kw)
        reaches_caller(h, f"rejected irreps{', magnetic' if magnetic else ''}", h.run([A, R], {"time_reversals": t if magnetic else None, **kw}))
    h.frame()


@contract("C21", "core.get_spacegroup_irreps_from_primitive_symmetry")
def primitive_rejected(h):
    n = h.dim("n")
    R, w, k = h.arr("R", (n, 3, 3), "int"), h.arr("w", (n, 3)), h.arr("k", (3,))
    kw = settings(h)
    little_group_contract(h, n, [])
    h.ip.contracts["irreps.enumerate_small_representations"] = rejecting(h, kw)
    for real in (False, True):
        reaches_caller(h, f"rejected representations{', real' if real else ''}", h.run([R, w, k], {"real": real, **kw}))
    h.frame()


@contract("C21", "core.get_spacegroup_spinor_irreps_from_primitive_symmetry")
def spinor_primitive_rejected(h):
    for magnetic in (False, True):
        for given_k in (True, False):
            n = h.dim("n")
            A, R, w, k = h.arr("A", (3, 3)), h.arr("R", (n, 3, 3), "int"), h.arr("w", (n, 3)), h.arr("k", (3,))
            t = flags(h, n)
            kw = settings(h)
            little_group_contract(h, n, [])
            C = h.ip.contracts
            C["spinor.enumerate_spinor_small_representations"] = C["corep.enumerate_spinor_small_corepresentations"] = rejecting(h, kw)
            reaches_caller(h, f"rejected representations{', magnetic' if magnetic else ''}{'' if given_k else ', k omitted'}",
                           h.run([A, R, w], {"time_reversals": t if magnetic else None, "kpoint": k if given_k else None, **kw}))
    h.frame()


@contract("C21", "core.get_spacegroup_irreps")
def crystal_rejected(h):
    for given in (False, True):
        n, N = h.dim("n"), h.dim("N")
        crystal(h, n)
        A, x, z, k, B = h.arr("A", (3, 3)), h.arr("x", (N, 3)), h.arr("z", (N,), "int"), h.arr("k", (3,)), h.arr("B", (3, 3))
        kw = settings(h)
        h.ip.contracts["core.get_spacegroup_irreps_from_primitive_symmetry"] = rejecting(h, kw)
        reaches_caller(h, f"rejected representations{', other reciprocal basis' if given else ''}",
                       h.run([A, x, z, k], {"reciprocal_lattice": B if given else None, **kw}))
    h.frame()


@contract("C21", "core.get_spacegroup_spinor_irreps")
def crystal_spinor_rejected(h):
    for magnetic in (False, True):
        for given, given_k in ((False, True), (True, True), (False, False)):
            n, N = h.dim("n"), h.dim("N")
            st, T, Pm = crystal(h, n)
            A, x, z, k = h.arr("A", (3, 3)), h.arr("x", (N, 3)), h.arr("z", (N,), "int"), h.arr("k", (3,))
            M, B = h.arr("mag", (N, 3)), h.arr("B", (3, 3))
            kw = settings(h)
            p = st["p"]
            st["t"] = mkarr((n,), lambda i: Poly.base(("I", Cond("anti", (p(i[0]),)))))
            h.ip.injections["p"] = (lambda b: TRUE, lambda b: b[2][0] if b[:2] == ("f", "p") else ("f", "u", (b,), n))
            h.ip.contracts["core.get_spacegroup_spinor_irreps_from_primitive_symmetry"] = rejecting(h, kw)
            reaches_caller(h, f"rejected representations{', magnetic' if magnetic else ''}{', other reciprocal basis' if given else ''}{'' if given_k else ', k omitted'}",
                           h.run([A, x, z], {"magmoms": M if magnetic else None, "kpoint": k if given_k else None, "reciprocal_lattice": B if given else None, **kw}))
    h.frame()


@contract("C21", "tensor.get_symmetry_adapted_tensors")
def tensors_rejected(h):
    n, d = h.dim("n"), h.dim("d")
    R = h.arr("R", (n, 3, 3), "int")
    A = h.arr("A", (n, d, d), "complex")
    h.ip.contracts["irreps.enumerate_unitary_irreps"] = rejecting(h, given={"rotations": R})
    for rank in (1, 2):
        reaches_caller(h, f"rotations that are not closed, rank {rank}", h.run([A, R, rank]))
    h.frame()


@contract("C21", "corep.enumerate_spinor_small_corepresentations")
def corepresentations_rejected(h):
    n, H = h.dim("n"), h.dim("H")
    A, R, w, k = h.arr("A", (3, 3)), h.arr("R", (n, 3, 3), "int"), h.arr("w", (n, 3)), h.arr("k", (3,))
    t = flags(h, n)
    kw = settings(h)
    C = h.ip.contracts
    C["spinor.enumerate_spinor_small_representations"] = C["irreps.enumerate_unitary_irreps"] = rejecting(h, kw)
    C["group.decompose_by_maximal_space_subgroup"] = lambda ip, env: (
        h.index_arr("xsg", (H,), lambda i: ("f", "x", (i[0],), n), arg=False), Opaque("mapping"), Ix(("f", "a0", (), n)))
    C["corep.get_corep_spinor_factor_system"] = lambda ip, env: (mkarr((n, n), lambda i: atom("S", *i)), Opaque("matrices"), Opaque("anti"))
    C["group.get_factor_system_from_little_group"] = lambda ip, env: mkarr((n, n), lambda i: atom("N", *i))
    reaches_caller(h, "rejected irreps", h.run([A, R, w, t, k], kw))
    h.frame()
