"""Contracts on spgrep.irreps: dispatch, pairing of conjugate irreps, comparison and cleaning of values."""
from api import *  # noqa
from api_oracle import *  # noqa
from contracts.irreps_c import generic_list


@contract(("C04", "C08", "C09", "C18"), "irreps.is_equivalent_irrep")
def equivalent_iff(h):
    """True exactly if sum conj(c1) c2 rounds to the order: real part within one half of it, imaginary part within one half of zero."""
    G = h.dim("n")
    a, b = h.arr("a", (G,), "complex"), h.arr("b", (G,), "complex")
    g = fresh(G)
    s = (atom("a", g).conj(h.ctx) * atom("b", g)).sum(g)
    re, im = (normalise(h.ctx, fun(f, normalise(h.ctx, s))) for f in ("re", "im"))
    spec = mk_and(cmp("eq", fun("rint", re), size_atom(G)), cmp("eq", fun("rint", im), Poly()))
    h.decides("true iff the count is the order", h.only_return("total", h.run([a, b])), spec)
    h.frame()


def ip_cond(h, v):
    return h.ip.as_cond(v)


def cleaning(h, kind, values):
    """The array given is returned; each step replaces exactly the entries closer than atol to one value by that value; the
    values are those listed (pairwise further apart than 2 atol), so every entry moves by less than atol, at most once."""
    n, d = h.dim("n"), h.dim("d")
    X = h.arr("X", (n, d, d), kind)
    h.ctx.real.add("atol")
    at = atom("atol")
    done = []

    def steps(ip, st, env, items):
        for x in items:
            env0 = dict(env)
            for p, (c, out, fr, e) in enumerate(ip.body_paths(lambda e: (ip.assign(st.target, x, e), ip.exec_block(st.body, e)), env0)):
                v = normalise(h.ctx, num(x))
                stores = [y for y in fr.log if y[0] == "store"]
                ok = out == ("end",) and len(fr.log) == len(stores) == 1 and stores[0][1] is X
                k = len(done)
                h.add(f"step {k}: one store in place", ok and p == 0, "path", repr(fr.log)[:300])
                if not ok:
                    continue
                s = stores[0][2]
                idx = tuple(s.keys)
                e = atom("X", *idx)
                h.add(f"step {k}: every entry is looked at", sorted(map(repr, s.bvars)) == sorted(map(repr, idx)), "path", repr(s))
                h.iff(f"step {k}: replaced exactly if closer than atol", s.guard, cmp("lt", fun("abs", normalise(h.ctx, e - v)), at))
                h.eq(f"step {k}: replaced by the value", num(s.val), v)
                done.append(v)
        return True
    h.ip.conc_hook = steps
    for facts, v in h.only_return("total", h.run([X], {"atol": at})):
        h.add("the array is returned", v is X, "path", repr(v))
    want = [normalise(h.ctx, num(x)) for x in values]
    h.add("the values are the listed ones", len(done) == len(want) and all(any(equal(h.ctx, x, y) for y in want) for x in done)
          and all(any(equal(h.ctx, x, y) for y in done) for x in want), "normaliser", repr(done))
    h.req("atol is less than half the distance of any two listed values (defaults: 1e-8)")


@contract(("C03", "C04"), "irreps.purify_irrep_value")
def purify(h):
    cleaning(h, "complex", [0] + [E(Fr(*q)) for q in ((0, 1), (1, 6), (1, 4), (1, 3), (1, 2), (2, 3), (3, 4), (5, 6))])


@contract("C09", "irreps.purify_real_irrep_value")
def purify_real(h):
    r3 = fun("sqrt", 3) * Fr(1, 2)
    cleaning(h, "real", [0, 1, -1, Poly.const(Fr(1, 2)), Poly.const(Fr(-1, 2)), r3, -r3])


def group_inputs(h, ones):
    G, d, N = h.group(), h.dim("d"), h.dim("N")
    R = h.arr("R", (G, 3, 3), "int")
    W = None if ones else h.arr("W", (G, G), "complex")
    ip, C = h.ip, h.ip.contracts
    irr = LList(sym=(N, (v := fresh(N)), mkarr((G, d, d), lambda i: atom("D", v, *i))))
    used = []
    table, gens, reg = h.table(G), Opaque("generators"), mkarr((G, G, G), lambda i: atom("reg", *i))

    def factor(F):
        g, q = fresh(G), fresh(G)
        return F is W if not ones else equal(h.ctx, num(h.el(F, g, q)), Poly.const(1))

    def need(c, what):
        if not c:
            raise Undecided(what)
    C["group.get_cayley_table"] = lambda ip, env: (need(env["rotations"] is R and env.get("time_reversals") is None, "table of other rotations"), table)[1]
    C["pointgroup.get_pointgroup_chain_generators"] = lambda ip, env: (need(list(env.values())[0] is R, "chain of other rotations"), gens)[1]

    def chain(ip, env):
        need(env["table"] is table and factor(env["factor_system"]) and env["solvable_chain_generators"] is gens, "chain construction with other arguments")
        used.append("Neto")
        return irr
    C["irreps.enumerate_unitary_irreps_from_solvable_group_chain"] = chain

    def regular(ip, env):
        need(list(env.values())[0] is R and factor(list(env.values())[1]), "regular representation of something else")
        return reg
    C["representation.get_projective_regular_representation"] = regular

    def decomposed(ip, env):
        need(env["reg"] is reg, "decomposition of something else")
        used.append("random")
        return irr
    C["irreps.enumerate_unitary_irreps_from_regular_representation"] = decomposed
    # values are cleaned in place: entries move by less than atol (contract of purify_irrep_value), modelled as unchanged
    C["irreps.purify_irrep_value"] = purified("irrep")
    C["irreps.purify_real_irrep_value"] = purified("real_irrep")
    h.req("purify_irrep_value and purify_real_irrep_value move entries by less than atol (their contracts); treated as the identity")
    return G, d, N, R, W, irr, used


@contract(("C04", "C03", "C17"), "irreps.enumerate_unitary_irreps")
def dispatch(h):
    """Both methods get the group and factor system that were given; the indicators are those of Frobenius and Schur, and zero
    where the factor system is not real."""
    for method, ones in itertools.product(("Neto", "random"), (True, False)):
        lab = f"{method}, {'no factor system' if ones else 'factor system'}: "
        h.ctx = Ctx()
        h.ip = Interp(h.ctx)
        h.ip.deadline = time.time() + 60
        G, d, N, R, W, irr, used = group_inputs(h, ones)
        seen = []
        h.ip.contracts["representation.frobenius_schur_indicator"] = lambda ip, env: (lambda x: (seen.append(x), ip.mk((), lambda i: atom("fs", member(h, x, G, d))))[1].stores[0].val)(
            list(env.values())[0])
        n, kinds = 0, set()
        for facts, v in h.only_return(lab + "total", h.run([R] if ones else [R, W], {"method": method})):
            ok = isinstance(v, tuple) and len(v) == 2 and h.ip.iter_spec(v[1])[0] == "sym" and h.ip.iter_spec(v[1])[1][0][0][2] == N
            h.add(f"{lab}irreps and one indicator for each.{n}", ok, "path", repr(v))
            if not ok:
                continue
            kind, (vs, a) = h.ip.iter_spec(v[0])
            g, i, j = fresh(G), fresh(d), fresh(d)
            h.add(f"{lab}the irreps of the method.{n}", vs[0][2] == N and shape_is(a, (G, d, d)) and
                  equal(h.ctx, num(h.el(a, g, i, j)), atom("D", vs[0], g, i, j)), "path", repr(v[0]))
            kind, (vs2, ind) = h.ip.iter_spec(v[1])
            ind = num(vsubst(ind, {vs2[0]: vs[0]}))
            g, q = fresh(G), fresh(G)
            if equal(h.ctx, ind, atom("fs", vs[0])):
                kinds.add("fs")
            else:
                h.eq(f"{lab}indicator zero.{n}", ind, 0)
                kinds.add("zero")
                if ones:
                    h.add(f"{lab}zero only for a factor system that is not real.{n}", False, "path", repr(facts))
                else:
                    im = fun("im", atom("W", g, q))
                    h.true(f"{lab}zero only for a factor system that is not real.{n}",
                           mk_not(mk_all(g, mk_all(q, cmp("le", fun("abs", normalise(h.ctx, im)), Poly.const(Fr(1, 10 ** 8)))))), facts)
            n += 1
        h.add(lab + "kinds of indicators", kinds == ({"fs"} if ones else {"fs", "zero"}), "path", repr(kinds))
        h.add(lab + "the method asked for is used", set(used) == {method}, "path", repr(used))
        h.frame(lab + "frame")


def member(h, x, G, d):
    """Member of the list of irreps of which x is the matrix family."""
    g, i, j = fresh(G), fresh(d), fresh(d)
    p = normalise(h.ctx, num(h.el(x, g, i, j)))
    ms = {f[2][0] for (bd, fs), _ in p.items() for f, q in fs if f[0] == "A" and f[1] == "D"}
    if len(ms) != 1:
        raise Undecided("not a member of the list of irreps")
    m = ms.pop()
    if not equal(h.ctx, p, atom("D", m, g, i, j)):
        raise Undecided("not a member of the list of irreps")
    return m


@contract("C21", "irreps.enumerate_unitary_irreps")
def unknown_method(h):
    """Any other method name is rejected."""
    G, d, N, R, W, irr, used = group_inputs(h, True)
    for name in ("neto", "Random", "", "regular", None, 0):
        for n, (facts, o) in enumerate(h.run([R], {"method": name})):
            ok = o[0] == "exc" and o[1].etype == "ValueError"
            h.add(f"method {name!r} raises ValueError.{n}", ok or not h.feasible(facts), "path", repr(o))
    h.frame()


def equivalence(h, x, y, star):
    """Condition that two characters (by their values at one arbitrary element) are found equivalent: symmetric in both, and
    unchanged when both are conjugated (contract of is_equivalent_irrep)."""
    p = normalise(h.ctx, num(x).conj(h.ctx) * num(y))
    q = p.conj(h.ctx)
    return Cond("equiv", (normalise(h.ctx, p + q), normalise(h.ctx, p * q)))        # determine {p, conj p}


def pair_conjugates(h, N, chi, star, lab=""):
    """Loop that marks irreps and lists (i, j): from an arbitrary set of marked ones, an unmarked i is marked and listed once, with
    an unmarked j != i equivalent to its conjugate (marked as well) or, when there is none, with itself."""
    ip = h.ip
    info = {}
    P = h.dim("P")

    def hook(ip, st, env, vs, item):
        if vs[0][2] != N or info:
            return False
        vis = [n for n, x in env.items() if isinstance(x, LList) and x.sym is not None and x.sym[0] == N and x.sym[2] is False]
        if len(vis) != 1:
            return False
        env0 = dict(env)
        V = env0[vis[0]] = mkarr((N,), lambda i: Poly.base(("I", Cond("visited", i))))
        i, = vs
        free = lambda j: mk_and(mk_not(Cond("visited", (j,))), mk_not(mk_eqi(i, j)),
                                equivalence(h, chi(i, star).conj(h.ctx), chi(j, star), star))
        j = fresh(N)
        lists, kinds = {}, set()
        for n, (c, out, fr, e) in enumerate(ip.body_paths(lambda e: (ip.assign(st.target, item, e), ip.exec_block(st.body, e)), env0)):
            if not h.feasible([c]):
                continue
            marks = [x[2] for x in fr.log if x[0] == "store" and x[1] is V]
            apps = [x for x in fr.log if x[0] == "append"]
            h.add(f"{lab}pairing: only marks and list entries.{n}", out == ("end",) and len(marks) + len(apps) == len(fr.log) and
                  all(s.val is True and s.guard.op == "true" and not s.bvars for s in marks), "path", repr(fr.log)[:300])
            if not fr.log:
                kinds.add("skip")
                h.true(f"{lab}pairing: skipped only if marked.{n}", Cond("visited", (i,)), [c])
                continue
            h.true(f"{lab}pairing: listed only if not marked.{n}", mk_not(Cond("visited", (i,))), [c])
            ok = len(apps) == 1 and isinstance(apps[0][2], tuple) and len(apps[0][2]) == 2 and all(isinstance(x, Ix) for x in apps[0][2])
            h.add(f"{lab}pairing: one pair.{n}", ok, "path", repr(apps)[:300])
            if not ok:
                raise Undecided("pairs of another form")
            a, b = (x.t for x in apps[0][2])
            lists[id(apps[0][1])] = apps[0]
            h.add(f"{lab}pairing: first of the pair.{n}", a == i, "path", repr(a))
            got = {s.keys for s in marks}
            h.add(f"{lab}pairing: exactly the pair is marked.{n}", got == {(i,), (b,)}, "path", repr(got))
            if b == i:
                kinds.add("alone")
                h.true(f"{lab}pairing: alone only without a free conjugate.{n}", mk_all(j, mk_not(free(j))), [c])
            else:
                kinds.add("pair")
                fs = [c]
                if b[0] == "f" and b[1] in ip.choice_defs:
                    fv, y, e2 = ip.choice_defs[b[1]]
                    fs.append(e2.subst(dict(zip(fv, b[2]))).subst({y: b}))
                h.true(f"{lab}pairing: the second is free and equivalent to the conjugate of the first.{n}", free(b), fs)
        h.add(f"{lab}pairing: all kinds of steps", kinds == {"skip", "alone", "pair"} and len(lists) == 1, "path", repr(kinds))
        p = fresh(P)
        info.update(P=P, first=lambda p: ("f", "first", (p,), N), second=lambda p: ("f", "second", (p,), N))
        for nm, x in list(env.items()):
            if id(x) in lists:
                env[nm] = LList(sym=(P, p, (Ix(info["first"](p)), Ix(info["second"](p)))))
        env[vis[0]] = Poison("marks after the pairing")
        return True
    ip.loop_hook = hook
    return info


def real_forms(h, lab, info, v, cases, n):
    """One real form per pair: that of the first of the pair with its indicator.  cases: [(name, facts, indicator is not zero)]"""
    P = info.get("P")
    ok = isinstance(v, tuple) and len(v) == 2 and P is not None and all(h.ip.iter_spec(x)[0] == "sym" and h.ip.iter_spec(x)[1][0][0][2] == P for x in v)
    if not h.add(f"{lab}one real representation and one indicator per pair.{n}", ok, "path", repr(v)):
        return
    (k1, (vs, a)), (k2, (vs2, ind)) = h.ip.iter_spec(v[0]), h.ip.iter_spec(v[1])
    m = info["first"](vs[0])
    G, B = a.shape[0], a.shape[1]
    g, i, j = fresh(G), fresh(B), fresh(B)
    ind = num(vsubst(ind, {vs2[0]: vs[0]}))
    for nm, facts, nonzero in cases:
        want = atom("fs", m) if nonzero else Poly()
        h.eq(f"{lab}{nm}indicator of the first.{n}", ind, want, facts)
        h.eq(f"{lab}{nm}real form of the first with its indicator.{n}", num(h.el(a, g, i, j)),
             fun("form", atom("m", m), want, atom("ix", g), atom("ix", i), atom("ix", j)), facts)


@contract("C09", "irreps.enumerate_unitary_irreps")
def real_representations(h):
    for method, ones in itertools.product(("Neto", "random"), (True, False)):
        lab = f"{method}, {'no factor system' if ones else 'factor system'}: "
        h.ctx = Ctx()
        h.ip = Interp(h.ctx)
        h.ip.deadline = time.time() + 60
        ip, C = h.ip, h.ip.contracts
        G, d, N, R, W, irr, used = group_inputs(h, ones)
        form(h, G, d)
        star = ("f", "star", (), G)
        chi = lambda m, g: (lambda i: atom("D", m, g, i, i).sum(i))(fresh(d))
        info = pair_conjugates(h, N, chi, star, lab)
        for n, (facts, v) in enumerate(h.only_return(lab + "total", h.run([R] if ones else [R, W], {"method": method, "real": True}))):
            real_forms(h, lab, info, v, [("", facts, True)], n)
        h.frame(lab + "frame")
    h.req("lemma on paper: marks start empty, every step lists an unmarked irrep once with its conjugate, so the pairs partition the irreps")


def form(h, G, d):
    """Callee contracts: indicator and real form of a member of the list of irreps."""
    C = h.ip.contracts
    star = ("f", "star", (), G)
    C["representation.frobenius_schur_indicator"] = lambda ip, env: atom("fs", member(h, list(env.values())[0], G, d))
    C["irreps.is_equivalent_irrep"] = lambda ip, env: equivalence(h, h.el(env["character1"], star), h.el(env["character2"], star), star)

    def physical(ip, env):
        m, ind = member(h, env["irrep"], G, d), normalise(h.ctx, num(env["indicator"]))
        B = Dim("dreal")
        return mkarr((G, B, B), lambda i: fun("form", atom("m", m), ind, *[atom("ix", x) for x in i]))
    C["irreps.get_physically_irrep"] = physical


@contract("C09", "irreps.enumerate_small_representations")
def real_small_representations(h):
    """Over the reals: the small representations are paired with their conjugates, one real form per pair, of the first with its
    Frobenius-Schur indicator (zero unless 2k is a reciprocal lattice vector)."""
    G, d, N = h.group(), h.dim("d"), h.dim("N")
    R, w, k = h.arr("R", (G, 3, 3), "int"), h.arr("w", (G, 3)), h.arr("k", (3,))
    ip, C = h.ip, h.ip.contracts
    h.ctx.isometry["D"] = "both"
    ph = lambda g: (lambda x: E(-(atom("k", x) * atom("w", g, x)).sum(x)))(fresh(3))

    def irreps(ip, env):
        if env["rotations"] is not R or ip.truth(env["real"]):
            raise Undecided("irreps of another group or real representations")
        v = fresh(N)
        # D ph^-1 so that the small representations are the families D
        return (LList(sym=(N, v, mkarr((G, d, d), lambda i: atom("D", v, *i) * ph(i[0]).inverse()))), Opaque("indicators"))
    C["irreps.enumerate_unitary_irreps"] = irreps
    C["irreps.purify_real_irrep_value"] = purified("real_irrep")
    form(h, G, d)
    star = ("f", "star", (), G)
    chi = lambda m, g: (lambda i: atom("D", m, g, i, i).sum(i))(fresh(d))
    info = pair_conjugates(h, N, chi, star)
    le = [cmp("le", fun("abs", normalise(h.ctx, (lambda q: q - fun("rint", q))(atom("k", x) * 2))), Poly.const(Fr(1, 10 ** 8))) for x in range(3)]
    le = [ctx_simplify_cond(h.ctx, c) for c in le]
    for n, (facts, v) in enumerate(h.only_return("total", h.run([R, w, k], {"real": True}))):
        cases = [("2k in the reciprocal lattice: ", le, True)] + [(f"2k[{x}] no integer: ", [mk_not(le[x])], False) for x in range(3)]
        real_forms(h, "", info, v, [c for c in cases if h.feasible(list(facts) + c[1])], n)
    h.frame()
