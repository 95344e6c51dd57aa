"""Contracts on the entry points of spgrep.core: which results of which callees, for which arguments, are put together."""
from api import *
from api_oracle import *
from contracts.group_c import affine, fixes_k

SETTINGS = ("method", "rtol", "atol", "max_num_random_generations")


def settings(h):
    """Symbolic settings and the check that a callee got them."""
    h.ctx.real |= {"rtol", "atol"}
    kw = {"method": Opaque("method"), "rtol": atom("rtol"), "atol": atom("atol"), "max_num_random_generations": Opaque("trials")}
    return kw


def passed(h, lab, env, kw, names=SETTINGS):
    bad = [n for n in names if not (n in env and (env[n] is kw[n] or isinstance(kw[n], Poly) and isinstance(env[n], Poly) and env[n] == kw[n]))]
    h.add(lab, not bad, "path", repr(bad))


def is_centring(h, n, at, timerev=False):
    """i -> (rotation i is close to the identity and its translation is not close to zero)."""
    from numpy_model import close
    one = Poly.const(1)

    def cond(i):
        rot = mk_and(*[close(h.ip, atom("R", i, a, b), Poly.const(1 if a == b else 0), atom("rtol"), atom("atol")) for a in range(3) for b in range(3)])
        tr = mk_and(*[close(h.ip, atom("w", i, a), Poly(), Poly.const(Fr(1, 10 ** 5)), atom("atol")) for a in range(3)])
        c = mk_and(rot, mk_not(tr))
        return mk_and(mk_not(Cond("anti", (i,))), c) if timerev else c
    return cond


def little_group_contract(h, n, calls):
    """Positions m of the operations fixing k, in input order (contract of get_little_group: C01)."""
    L = h.dim("L")
    m = lambda l: ("f", "m", (l,), n)

    def cg(ip, env):
        calls.append(dict(env))
        return (ip.mk((L, 3, 3), lambda i: atom("R", m(i[0]), i[1], i[2])), ip.mk((L, 3), lambda i: atom("w", m(i[0]), i[1])),
                mkarr((L,), lambda i: Ix(m(i[0]))))
    h.ip.contracts["group.get_little_group"] = cg
    return L, m


@contract(("C03", "C21", "C01"), "core.get_spacegroup_irreps_from_primitive_symmetry")
def primitive(h):
    n = h.dim("n")
    R, w, k = h.arr("R", (n, 3, 3), "int"), h.arr("w", (n, 3)), h.arr("k", (3,))
    kw = settings(h)
    real = Opaque("real")
    calls, made, out = [], [], []
    L, m = little_group_contract(h, n, calls)

    def small(ip, env):
        made.append(dict(env))
        out.append((Opaque("irreps"), Opaque("indicators")))
        return out[-1]
    h.ip.contracts["irreps.enumerate_small_representations"] = small
    cent = is_centring(h, n, None)
    i = fresh(n)
    some = mk_ex(i, cent(i))
    kinds = set()
    for facts, o in h.run([R, w, k], {"real": real, **kw}):
        if o[0] == "exc":
            kinds.add("error")
            h.add("only ValueError", o[1].etype == "ValueError", "path", repr(o))
            h.true("rejected only with a pure translation", some, facts)
            continue
        kinds.add("answer")
        v = o[1]
        h.true("answered only without pure translations", mk_not(some), facts)
        e, s = calls[-1], made[-1]
        h.add("little group of the given operations and k", e["rotations"] is R and e["translations"] is w and e["kpoint"] is k and
              e["atol"] == atom("atol") and e.get("time_reversals") is None, "path", repr(e))
        l, a, b = fresh(L), fresh(3), fresh(3)
        h.eq("representations of the little rotations", h.el(s["little_rotations"], l, a, b), atom("R", m(l), a, b))
        h.eq("representations of the little translations", h.el(s["little_translations"], l, a), atom("w", m(l), a))
        h.add("of the given k", s["kpoint"] is k and s["real"] is real, "path", repr(s))
        passed(h, "with the given settings", s, kw)
        ok = isinstance(v, tuple) and len(v) == 2 and v[0] is out[-1][0]
        h.add("returned as they are", ok, "path", repr(v))
        if ok:
            h.same_index("with the positions of the little group", h.el(v[1], l), Ix(m(l)))
    h.add("both outcomes", kinds == {"error", "answer"}, "path", repr(kinds))
    h.frame()


@contract("C04", "core.get_crystallographic_pointgroup_irreps_from_symmetry")
def pointgroup(h):
    n = h.dim("n")
    R = h.arr("R", (n, 3, 3), "int")
    kw = settings(h)
    real = Opaque("real")
    made, out = [], (Opaque("irreps"), Opaque("indicators"))
    h.ip.contracts["irreps.enumerate_unitary_irreps"] = lambda ip, env: (made.append(dict(env)), out)[1]
    for facts, v in h.only_return("total", h.run([R], {"real": real, **kw})):
        s = made[-1]
        h.add("irreps of the given rotations without factor system", s["rotations"] is R and s["factor_system"] is None and s["real"] is real, "path", repr(s))
        passed(h, "with the given settings", s, kw)
        h.add("returned as they are", v is out[0], "path", repr(v))
    h.frame()


def agrees(h, lab, got, want, facts=()):
    """The same value: the object itself or an array with the same entries."""
    if got is want:
        return h.add(lab, True, "path")
    if isinstance(got, Arr) and isinstance(want, Arr):
        if not h.add(lab + " (shape)", shape_is(got, want.shape), "path", repr(got)):
            return False
        ix = tuple(fresh(d) for d in want.shape)
        a, b = h.el(got, *ix), h.el(want, *ix)
        return h.same_index(lab, a, b) if isinstance(b, Ix) else h.eq(lab, a, b, facts)
    if isinstance(want, Poly) and isinstance(got, Poly):
        return h.eq(lab, got, want, facts)
    return h.add(lab, False, "path", f"{got!r} is not {want!r}"[:200])


def conventional(h):
    """Arguments of _adjust_phase_for_centering_translations: n operations of the cell, each a translate of one of P primitive
    operations, of which the L of the little group are the m(l) (distinct)."""
    n, P, L, N, d = h.dim("n"), h.dim("P"), h.dim("L"), h.dim("N"), h.dim("d")
    p = lambda i: ("f", "p", (i,), P)
    m = lambda l: ("f", "m", (l,), P)
    h.ip.injections["m"] = (lambda b: Cond("little", (b,)), lambda b: ("f", "pos", (b,), L))
    w, k, u = h.arr("w", (n, 3)), h.arr("k", (3,)), h.arr("u", (P, 3))
    P2 = h.index_arr("mapping_to_prim", (n,), lambda i: p(i[0]))
    M = h.index_arr("mapping_prim_little_group", (L,), lambda i: m(i[0]))
    x = fresh(N)
    X = mkarr((L, d, d), lambda i: atom("X", x, *i))
    irreps = LList(sym=(N, x, X))
    h.ip.contracts["irreps.purify_irrep_value"] = purified("irrep")
    h.req("the positions of the little group are distinct (contract of get_little_group); purify_irrep_value as the identity (moves entries by less than atol)")
    return n, P, L, N, d, p, m, [w, k, u, P2, irreps, M]


@contract("C05", "core._adjust_phase_for_centering_translations")
def phases(h):
    n, P, L, N, d, p, m, args = conventional(h)
    for facts, v in h.only_return("total", h.run(args)):
        ok = isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], LList) and v[0].sym is not None and v[0].sym[0] == N and isinstance(v[1], Arr)
        if not h.add("one representation per representation, and a mapping", ok, "path", repr(v)):
            continue
        S = v[1].shape[0]
        if not h.add("mapping is a selection in input order", getattr(S, "parent", None) == n and len(v[1].shape) == 1, "path", repr(v[1])):
            continue
        i = fresh(n)
        h.iff("selected exactly if the primitive operation is in the little group", S.cond(i), Cond("little", (p(i),)), facts)
        s = fresh(S)
        h.same_index("mapping entry", h.el(v[1], s), Ix(s))
        kind, (vs, A) = h.ip.iter_spec(v[0])
        h.add("shape", shape_is(A, (S, d, d)), "path", repr(A))
        a, b, c = fresh(d), fresh(d), fresh(3)
        ph = E(-(atom("k", c) * (atom("w", s, c) - atom("u", p(s), c))).sum(c))
        h.eq("matrix of the primitive operation times the phase of the translation", h.el(A, s, a, b), ph * atom("X", vs[0], ("f", "pos", (p(s),), L), a, b))
    h.frame()


@contract(("C05", "C07"), "core._adjust_phase_for_centering_translations")
def law_with_centring(h):
    """For operations g of the cell that all belong to the little group: if the primitive representations obey the law with the
    lattice translations of the primitive operations, the results obey it with the translations of the operations of the cell."""
    from contracts.irreps_c import law_rule
    n, P, L, N, d, p, m, args = conventional(h)
    G = h.group()
    p = lambda i: ("f", "p", (i,), P)
    s, ub = h.arr("s", (G, 3), "int", arg=False), h.arr("ub", (G, 3), arg=False)
    h.ctx.hom["R"] = {"dim": 3}
    h.ctx.real |= {"R"}
    h.ctx.integer.add("R")
    fixes_k(h.ctx)
    args[0] = mkarr((G, 3), lambda i: atom("ub", *i) + atom("s", *i))
    args[3] = h.index_arr("mapping_to_prim", (G,), lambda i: p(i[0]))

    def pull(ctx, bound, factors):
        """Index the primitive operations by the operations of the cell: X[pos(p(g))] = D[g], u[p(g)] = ub[g]."""
        for n, (f, q) in enumerate(factors):
            if f[0] == "A" and f[1] == "X" and isinstance(f[2][1], tuple) and f[2][1][:2] == ("f", "pos") and f[2][1][2][0][:2] == ("f", "p"):
                new = ("A", "D", (f[2][0], f[2][1][2][0][2][0], *f[2][2:]), f[3])
            elif f[0] == "A" and f[1] == "u" and isinstance(f[2][0], tuple) and f[2][0][:2] == ("f", "p"):
                new = ("A", "ub", (f[2][0][2][0], *f[2][1:]), f[3])
            else:
                continue
            return Poly({(tuple(bound), sortfac([(new, q)] + [y for j, y in enumerate(factors) if j != n])): CQ(1)})
        return None
    h.ctx.rules.append(pull)
    c = fresh(3)

    def excess(g, l, w):
        e = fresh(3)
        return (atom("R", g, c, e) * w(l, e)).sum(e) + w(g, c) - w(gmul(g, l), c)
    U = lambda g, c: atom("ub", g, c)
    W = lambda g, c: atom("ub", g, c) + atom("s", g, c)
    phase = lambda g, l, w: E(-(atom("k", c) * excess(g, l, w)).sum(c))
    law_rule(h, "D", lambda g, l: phase(g, l, U), lead=1)
    i = fresh(P)
    h.req("the operations of the cell form a group modulo its translations; each differs from its primitive operation by a lattice vector s; "
          "R[g]^T k - k is an integer vector; law of the primitive representations (C03, C07)")
    for facts, v in h.only_return("total", h.run(args, assume=[mk_all(i, Cond("little", (i,)))])):
        kind, (vs, A) = h.ip.iter_spec(v[0])
        g, l = fresh(G), fresh(G)
        h.true("all operations are selected", v[1].shape[0].cond(g) if hasattr(v[1].shape[0], "cond") else True, facts)
        a, b, e = fresh(d), fresh(d), fresh(d)
        el = lambda g, a, b: num(h.el(A, g, a, b))
        h.with_facts(facts, lambda: h.eq("law", (el(g, a, e) * el(l, e, b)).sum(e), phase(g, l, W) * el(gmul(g, l), a, b), facts))


def crystal(h, n, magnetic=False):
    """Contracts of spglib (the symmetry of the given cell) and of the callees of the two entry points."""
    st = {k: [] for k in ("cell", "hall", "change", "unique", "primitive", "back")}
    C = h.ip.contracts
    T, Pm = h.arr("T", (3, 3), arg=False), h.arr("Pm", (3, 3), arg=False)
    st["R"], st["w"] = h.arr("R", (n, 3, 3), "int", arg=False), h.arr("w", (n, 3), arg=False)
    st["t"] = h.arr("t", (n,), "int", arg=False)
    hall = Opaque("hall number")

    def dataset(kind):
        def cg(ip, env):
            st["cell"].append((kind, dict(env)))
            d = SDict()
            d.conc = {"rotations": st["R"], "translations": st["w"], "transformation_matrix": T, "hall_number": hall}
            if kind == "magnetic":
                d.conc["time_reversals"] = st["t"]
            return d
        return cg
    C["spglib.get_symmetry_dataset"] = dataset("ordinary")
    C["spglib.get_magnetic_symmetry_dataset"] = dataset("magnetic")

    def prim(ip, env):
        st["hall"].append(env["hall_number"] is hall)
        return Pm
    C["transform.get_primitive_transformation_matrix"] = prim
    P = h.dim("P")
    u = lambda x: ("f", "u", (x,), n)
    p = lambda i: ("f", "p", (i,), P)
    st.update(P=P, p=p)
    st["pR"], st["pw"], st["pk"] = h.arr("pR", (n, 3, 3), "int", arg=False), h.arr("pw", (n, 3), arg=False), h.arr("pk", (3,), arg=False)

    def change(ip, env):
        st["change"].append(dict(env))
        return st["pR"], st["pw"], st["pk"]
    C["transform.transform_symmetry_and_kpoint"] = change
    st["uR"], st["uw"] = h.arr("uR", (P, 3, 3), "int", arg=False), h.arr("uw", (P, 3), arg=False)
    st["map"] = h.index_arr("mapping_to_prim", (n,), lambda i: p(i[0]), arg=False)

    def unique(ip, env):
        st["unique"].append(dict(env))
        return st["uR"], st["uw"], st["map"]
    C["transform.unique_primitive_symmetry"] = unique
    L = h.dim("L")
    m = lambda l: ("f", "m", (l,), P)
    st.update(L=L, m=m)
    st["lmap"] = h.index_arr("mapping_prim_little_group", (L,), lambda i: m(i[0]), arg=False)
    h.ip.injections["m"] = (lambda b: Cond("little", (b,)), lambda b: ("f", "pos", (b,), L))
    st["irreps"], st["result"] = Opaque("irreps"), Opaque("results")
    S = h.dim("S")
    st.update(S=S, sel=lambda s: ("f", "sel", (s,), n))
    st["selmap"] = h.index_arr("mapping_little_group", (S,), lambda i: st["sel"](i[0]), arg=False)

    def back(ip, env):
        st["back"].append(dict(env))
        return st["result"], st["selmap"]
    C["core._adjust_phase_for_centering_translations"] = back
    h.req("contract of spglib: the operations of the given cell, and its matrix to the standardized cell; contracts of "
          "transform_symmetry_and_kpoint, unique_primitive_symmetry, get_primitive_transformation_matrix (C13) and of the primitive function")
    return st, T, Pm


def conversion(h, lab, st, T, Pm, args, facts, given, given_k, magnetic):
    """The calls made on the way from the cell to its primitive cell."""
    lattice, positions, numbers, k = args
    ok = len(st["cell"]) == 1 and st["cell"][0][0] == ("magnetic" if magnetic else "ordinary")
    if h.add(lab + "symmetry is searched once", ok, "path", repr(st["cell"])[:200]):
        cell = st["cell"][0][1].get("cell")
        want = [lattice, positions, numbers] + ([magnetic] if magnetic else [])
        h.add(lab + "symmetry of the given cell", isinstance(cell, tuple) and len(cell) == len(want) and all(a is b for a, b in zip(cell, want)), "path", repr(cell)[:200])
    h.add(lab + "primitive cell of the Hall number found", st["hall"] == [True], "path", repr(st["hall"]))
    c = st["change"][-1]
    i, a, b, e = fresh(3), fresh(3), fresh(3), fresh(3)
    inv = h.ip.np_call("numpy.linalg.inv", [T], {})
    M = c["transformation_matrix"]
    h.eq(lab + "matrix to the primitive cell", h.el(M, a, b), (num(h.el(inv, a, e)) * atom("Pm", e, b)).sum(e))
    agrees(h, lab + "rotations of the cell are transformed", c["rotations"], st["R"])
    agrees(h, lab + "translations of the cell are transformed", c["translations"], st["w"])
    # k @ reciprocal = k_conv @ dual, dual = (A^-1)^T
    A1 = h.ip.np_call("numpy.linalg.inv", [lattice], {})
    dual = lambda a, b: num(h.el(A1, b, a))
    kc = c["kpoint"]
    recip = (lambda a, b: atom("B", a, b)) if given else dual
    kp = (lambda a: atom("k", a)) if given_k else (lambda a: Poly())
    h.eq(lab + "same k in the dual basis of the cell", (num(h.el(kc, a)) * dual(a, b)).sum(a), (kp(a) * recip(a, b)).sum(a), facts)
    q = st["unique"][-1]
    agrees(h, lab + "duplicates of the transformed rotations", q["rotations"], st["pR"])
    agrees(h, lab + "duplicates of the transformed translations", q["translations"], st["pw"])
    if magnetic:
        agrees(h, lab + "duplicates with time reversal", q["time_reversals"], st["t"])
    else:
        h.add(lab + "duplicates without time reversal", q.get("time_reversals") is None, "path", repr(q.get("time_reversals")))


def handed_back(h, lab, st):
    e = st["back"][-1]
    for nm, want in (("prim_translations", "pw"), ("prim_kpoint", "pk"), ("uniq_prim_translations", "uw"), ("mapping_to_prim", "map"),
                     ("prim_irreps", "irreps"), ("mapping_prim_little_group", "lmap")):
        agrees(h, f"{lab}phases from {nm}", e[nm], st[want])


@contract(("C05", "C01"), "core.get_spacegroup_irreps")
def crystal_irreps(h):
    for given in (False, True):
        n, N = h.dim("n"), h.dim("N")
        st, T, Pm = crystal(h, n)
        A, x, z, k = h.arr("A", (3, 3)), h.arr("x", (N, 3)), h.arr("z", (N,), "int"), h.arr("k", (3,))
        B = h.arr("B", (3, 3))
        kw = settings(h)
        made = []

        def prim(ip, env):
            made.append(dict(env))
            return st["irreps"], st["lmap"]
        h.ip.contracts["core.get_spacegroup_irreps_from_primitive_symmetry"] = prim
        lab = "other reciprocal basis: " if given else "dual basis: "
        for facts, v in h.only_return(lab + "total", h.run([A, x, z, k], {"reciprocal_lattice": B if given else None, **kw})):
            conversion(h, lab, st, T, Pm, (A, x, z, k), facts, given, True, None)
            e = made[-1]
            agrees(h, lab + "irreps of the primitive rotations", e["rotations"], st["uR"])
            agrees(h, lab + "irreps of the primitive translations", e["translations"], st["uw"])
            agrees(h, lab + "at the transformed k", e["kpoint"], st["pk"])
            h.add(lab + "over the complex numbers", e["real"] is False, "path", repr(e["real"]))
            passed(h, lab + "with the given settings", e, kw)
            handed_back(h, lab, st)
            ok = isinstance(v, tuple) and len(v) == 4 and v[0] is st["result"]
            if h.add(lab + "results", ok, "path", repr(v)):
                agrees(h, lab + "rotations of the cell", v[1], st["R"])
                agrees(h, lab + "translations of the cell", v[2], st["w"])
                agrees(h, lab + "mapping", v[3], st["selmap"])
    h.frame()


def spin_results(h, L, magnetic):
    """Results of the spinor callees for L operations."""
    d = {"irreps": Opaque("irreps"), "indicators": Opaque("indicators"),
         "N": h.arr("NF", (L, L), "complex", arg=False), "U": h.arr("UU", (L, 2, 2), "complex", arg=False),
         "a": mkarr((L,), lambda i: Cond("lin", i))}
    return d


@contract(("C07", "C08", "C21"), "core.get_spacegroup_spinor_irreps_from_primitive_symmetry")
def spinor_primitive(h):
    for magnetic in (False, True):
        for given_k in (True, False):
            n = h.dim("n")
            A, R, w, k = h.arr("A", (3, 3)), h.arr("R", (n, 3, 3), "int"), h.arr("w", (n, 3)), h.arr("k", (3,))
            t = mkarr((n,), lambda i: Poly.base(("I", Cond("anti", i))))
            t.name = "t"
            kw = settings(h)
            calls, made = [], []
            L, m = little_group_contract(h, n, calls)
            r = spin_results(h, L, magnetic)
            h.ip.contracts["spinor.enumerate_spinor_small_representations"] = \
                lambda ip, env: (made.append(("linear", dict(env))), (r["irreps"], r["N"], r["U"]))[1]
            h.ip.contracts["corep.enumerate_spinor_small_corepresentations"] = \
                lambda ip, env: (made.append(("magnetic", dict(env))), (r["irreps"], r["indicators"], r["N"], r["U"], r["a"]))[1]
            cent = is_centring(h, n, None, magnetic)
            i = fresh(n)
            some = mk_ex(i, cent(i))
            kinds = set()
            lab = ("with" if magnetic else "without") + " time reversal, k " + ("given: " if given_k else "omitted: ")
            for facts, o in h.run([A, R, w], {"time_reversals": t if magnetic else None, "kpoint": k if given_k else None, **kw}):
                if o[0] == "exc":
                    kinds.add("error")
                    h.add(lab + "only ValueError", o[1].etype == "ValueError", "path", repr(o))
                    h.true(lab + "rejected only with a pure translation", some, facts)
                    continue
                kinds.add("answer")
                v = o[1]
                h.true(lab + "answered only without pure translations", mk_not(some), facts)
                e, (kind, s) = calls[-1], made[-1]
                zero = mkarr((3,), lambda i: Poly())
                kk = k if given_k else zero
                agrees(h, lab + "little group of the rotations", e["rotations"], R)
                agrees(h, lab + "little group of the translations", e["translations"], w)
                agrees(h, lab + "little group of k", e["kpoint"], kk)
                h.add(lab + "little group within the tolerance", e["atol"] == atom("atol"), "path")
                h.add(lab + "little group with time reversal", e["time_reversals"] is (t if magnetic else None), "path", repr(e["time_reversals"]))
                h.add(lab + "kind of representations", kind == ("magnetic" if magnetic else "linear"), "path", kind)
                l, a, b = fresh(L), fresh(3), fresh(3)
                h.add(lab + "lattice", s["lattice"] is A, "path")
                h.eq(lab + "little rotations", h.el(s["little_rotations"], l, a, b), atom("R", m(l), a, b))
                h.eq(lab + "little translations", h.el(s["little_translations"], l, a), atom("w", m(l), a))
                agrees(h, lab + "k", s["kpoint"], kk)
                if magnetic:
                    h.eq(lab + "little time reversals", h.el(s["little_time_reversals"], l), Poly.base(("I", Cond("anti", (m(l),)))))
                passed(h, lab + "with the given settings", s, kw)
                want = [r["irreps"]] + ([r["indicators"]] if magnetic else []) + [r["N"], r["U"]] + ([r["a"]] if magnetic else [])
                ok = isinstance(v, tuple) and len(v) == len(want) + 1 and all(x is y for x, y in zip(v, want))
                if h.add(lab + "returned as they are", ok, "path", repr(v)[:200]):
                    h.same_index(lab + "with the positions of the little group", h.el(v[-1], l), Ix(m(l)))
            h.add(lab + "both outcomes", kinds == {"error", "answer"}, "path", repr(kinds))
    h.frame()


@contract(("C07", "C08"), "core.get_crystallographic_pointgroup_spinor_irreps_from_symmetry")
def spinor_pointgroup(h):
    for magnetic in (False, True):
        n = h.dim("n")
        A, R = h.arr("A", (3, 3)), h.arr("R", (n, 3, 3), "int")
        t = mkarr((n,), lambda i: Poly.base(("I", Cond("anti", i))))
        t.name = "t"
        kw = settings(h)
        made = []
        r = spin_results(h, n, magnetic)
        C = h.ip.contracts
        C["spinor.get_spinor_factor_system"] = lambda ip, env: (made.append(("factor", dict(env))), (r["N"], r["U"]))[1]
        C["irreps.enumerate_unitary_irreps"] = lambda ip, env: (made.append(("irreps", dict(env))), (r["irreps"], r["indicators"]))[1]
        C["corep.enumerate_spinor_small_corepresentations"] = \
            lambda ip, env: (made.append(("magnetic", dict(env))), (r["irreps"], r["indicators"], r["N"], r["U"], r["a"]))[1]
        lab = "with time reversal: " if magnetic else "without time reversal: "
        for facts, v in h.only_return(lab + "total", h.run([A, R], {"time_reversals": t if magnetic else None, **kw})):
            got = dict(made)
            if magnetic:
                s = got.get("magnetic")
                if not h.add(lab + "co-representations", s is not None, "path"):
                    continue
                h.add(lab + "of the given operations", s["lattice"] is A and s["little_rotations"] is R and s["little_time_reversals"] is t, "path", repr(s)[:200])
                agrees(h, lab + "without translations", s["little_translations"], mkarr((n, 3), lambda i: Poly()))
                agrees(h, lab + "at k = 0", s["kpoint"], mkarr((3,), lambda i: Poly()))
                want = [r["irreps"], r["indicators"], r["N"], r["U"], r["a"]]
            else:
                f, s = got.get("factor"), got.get("irreps")
                if not h.add(lab + "factor system and irreps", f is not None and s is not None, "path"):
                    continue
                h.add(lab + "factor system of the given operations", f["lattice"] is A and f["rotations"] is R and f.get("time_reversals") is None, "path", repr(f)[:200])
                h.add(lab + "irreps with this factor system", s["rotations"] is R and s["factor_system"] is r["N"] and s["real"] is False, "path", repr(s)[:200])
                want = [r["irreps"], r["N"], r["U"]]
            passed(h, lab + "with the given settings", s, kw)
            h.add(lab + "returned as they are", isinstance(v, tuple) and len(v) == len(want) and all(x is y for x, y in zip(v, want)), "path", repr(v)[:200])
    h.frame()


@contract(("C05", "C07", "C08"), "core.get_spacegroup_spinor_irreps")
def crystal_spinor_irreps(h):
    for magnetic in (False, True):
        for given, given_k in ((False, True), (True, True), (False, False)):
            n, N = h.dim("n"), h.dim("N")
            st, T, Pm = crystal(h, n)
            P, L, S, p = st["P"], st["L"], st["S"], st["p"]
            A, x, z, k = h.arr("A", (3, 3)), h.arr("x", (N, 3)), h.arr("z", (N,), "int"), h.arr("k", (3,))
            M, B = h.arr("mag", (N, 3)), h.arr("B", (3, 3))
            kw = settings(h)
            # time reversal of an operation is that of its primitive operation (contract of unique_primitive_symmetry)
            st["t"] = mkarr((n,), lambda i: Poly.base(("I", Cond("anti", (p(i[0]),)))))
            # any operation with that primitive operation
            h.ip.injections["p"] = (lambda b: TRUE, lambda b: b[2][0] if b[:2] == ("f", "p") else ("f", "u", (b,), n))
            made = []
            r = spin_results(h, L, magnetic)

            def prim(ip, env):
                made.append(dict(env))
                return (st["irreps"], r["indicators"], r["N"], r["U"], r["a"], st["lmap"]) if magnetic else (st["irreps"], r["N"], r["U"], st["lmap"])
            h.ip.contracts["core.get_spacegroup_spinor_irreps_from_primitive_symmetry"] = prim
            lab = ("magnetic, " if magnetic else "") + (f"{'other reciprocal basis' if given else 'dual basis'}, k {'given' if given_k else 'omitted'}: ")
            s = fresh(S)
            sel = mk_all(s, Cond("little", (p(st["sel"](s)),)))
            for facts, v in h.only_return(lab + "total", h.run([A, x, z], {"magmoms": M if magnetic else None, "kpoint": k if given_k else None,
                                                                         "reciprocal_lattice": B if given else None, **kw}, assume=[sel])):
                conversion(h, lab, st, T, Pm, (A, x, z, k), facts, given, given_k, M if magnetic else None)
                e = made[-1]
                a, b, c = fresh(3), fresh(3), fresh(3)
                # rows of P^T A are the primitive vectors: x = P x', so that A^T P x' = (P^T A)^T x'
                inv = h.ip.np_call("numpy.linalg.inv", [T], {})
                tp = (num(h.el(inv, c, 0)) * 0)
                q = fresh(3)
                h.eq(lab + "lattice of the primitive cell", h.el(e["lattice"], a, b),
                     (num(h.el(inv, c, q)) * atom("Pm", q, a) * atom("A", c, b)).sum(c).sum(q))
                agrees(h, lab + "primitive rotations", e["rotations"], st["uR"])
                agrees(h, lab + "primitive translations", e["translations"], st["uw"])
                agrees(h, lab + "transformed k", e["kpoint"], st["pk"])
                if magnetic:
                    i = fresh(n)
                    h.eq(lab + "primitive time reversals", h.el(e["time_reversals"], p(i)), h.el(st["t"], i))
                else:
                    h.add(lab + "no time reversals", e.get("time_reversals") is None, "path")
                passed(h, lab + "with the given settings", e, kw)
                handed_back(h, lab, st)
                ok = isinstance(v, tuple) and len(v) == (8 if magnetic else 6) and v[0] is st["result"]
                if not h.add(lab + "results", ok, "path", repr(v)[:200]):
                    continue
                s1, s2 = fresh(S), fresh(S)
                pos = lambda s: ("f", "pos", (p(st["sel"](s)),), L)
                h.add(lab + "shapes", shape_is(v[1], (S, S)) and shape_is(v[2], (S, 2, 2)), "path", repr(v[1:3]))
                h.eq(lab + "factor system of the primitive operations", h.el(v[1], s1, s2), atom("NF", pos(s1), pos(s2)))
                a2, b2 = fresh(2), fresh(2)
                h.eq(lab + "matrices of the primitive operations", h.el(v[2], s1, a2, b2), atom("UU", pos(s1), a2, b2))
                if magnetic:
                    h.iff(lab + "anti-linear exactly as the primitive operation", h.ip.as_cond(h.el(v[3], s1)), Cond("lin", (pos(s1),)), facts)
                    agrees(h, lab + "time reversals of the cell", v[6], st["t"])
                o = 4 if magnetic else 3
                agrees(h, lab + "rotations of the cell", v[o], st["R"])
                agrees(h, lab + "translations of the cell", v[o + 1], st["w"])
                agrees(h, lab + "mapping", v[-1], st["selmap"])
    h.req("selected operations belong to the little group (contract of _adjust_phase_for_centering_translations); operations with the same primitive "
          "operation have the same time reversal (contract of unique_primitive_symmetry)")
    h.frame()
