"""Contracts on spgrep.corep."""
from api import *  # noqa
from api_oracle import *  # noqa
from contracts.group_c import flags
from contracts.irreps_c import law_rule, generic_list


def magnetic(h):
    """Little group M = D u a0 D: D (unitary half) listed by positions identified with its elements; S, N: factor systems of spin and
    of lattice translations, both twisted cocycles of M (contracts C08, C02)."""
    G = h.group()
    H = Dim("H", G.group)
    a0 = ("f", "a0", (), G)
    for nm in ("S", "N"):
        h.ctx.cocycle[nm] = nm
        h.ctx.unimod |= {nm}
        h.ctx.unimod_phi.add(nm)
        h.ctx.antilin[nm] = {a0}
    return G, H, a0


@contract("C08", "corep.enumerate_spinor_small_corepresentations")
def construction(h):
    """For each value of the indicator: the matrices built from the irreps of the unitary half obey
    D(g) D(q)^(conjugated if g is anti-linear) = S(g,q) N(g,q) p(g) p(q)^(..) / p(gq) D(gq) and are unitary."""
    for ind in (1, -1, 0):
        h.ctx = Ctx()
        h.ip = Interp(h.ctx)
        h.ip.deadline = time.time() + 120
        step(h, ind)


def step(h, ind):
    ip, ctx, C = h.ip, h.ctx, h.ip.contracts
    lab = f"indicator {ind}: "
    G, H, a0 = magnetic(h)
    N, P, d = h.dim("N"), h.dim("P"), h.dim("d")
    H.sub = True

    def member(ip, i):
        ls = word(i)
        if all(x == a0 or x[2] == H for x, _ in ls):
            return sum(x == a0 for x, _ in ls) % 2 == 0
        return None
    ip.members[H] = member
    ctx.member["H"] = lambda i: member(ip, i)
    L, R, w, k = h.arr("L", (3, 3)), h.arr("R", (G, 3, 3), "int"), h.arr("w", (G, 3)), h.arr("k", (3,))
    t = flags(h, G)
    spin = (mkarr((G, G), lambda i: atom("S", *i)), Opaque("matrices"), Opaque("flags"))

    def factor(ip, env):
        if env["lattice"] is not L or env["rotations"] is not R or env["time_reversals"] is not t:
            raise Undecided("factor system of other operations")
        return spin
    C["corep.get_corep_spinor_factor_system"] = factor

    def nonsymmorphic(ip, env):
        if [env[n] for n in ("little_rotations", "little_translations", "kpoint", "little_time_reversals")] != [R, w, k, t]:
            raise Undecided("factor system of other operations")
        return mkarr((G, G), lambda i: atom("N", *i))
    C["group.get_factor_system_from_little_group"] = nonsymmorphic

    def halves(ip, env):
        if list(env.values())[:3] != [R, w, t]:
            raise Undecided("decomposition of other operations")
        v = fresh(H)
        return (LList(sym=(H, v, Ix(v))), Opaque("second list"), Ix(a0))
    C["group.decompose_by_maximal_space_subgroup"] = halves

    def table(ip, env):
        if list(env.values())[:2] != [R, t]:
            raise Undecided("table of other operations")
        return h.table(G)
    C["group.get_cayley_table"] = table
    C["group.get_inverse_index"] = lambda ip, env: inverse(h, G, env)
    W = lambda g, q: atom("S", g, q) * atom("N", g, q)

    def irreps(ip, env):
        F = env["factor_system"]
        if ip.truth(env["real"]):
            raise Undecided("real representations")
        g, q = fresh(H), fresh(H)
        h.eq(lab + "factor system of the unitary half", num(h.el(F, g, q)), W(g, q))
        x, a, b = fresh(H), fresh(3), fresh(3)
        h.eq(lab + "rotations of the unitary half", num(h.el(env["rotations"], x, a, b)), atom("R", x, a, b))
        v = fresh(N)
        return (LList(sym=(N, v, mkarr((H, d, d), lambda i: atom("D", v, *i)))), Opaque("regular representation"))
    C["irreps.enumerate_unitary_irreps"] = irreps
    C["spinor.enumerate_spinor_small_representations"] = lambda ip, env: (Opaque("irreps"), Opaque("factor system"), Opaque("matrices"))
    law_rule(h, "D", W, 1)
    ctx.isometry["D"] = ctx.isometry["U"] = "both"
    star = ("f", "star", (), H)         # characters compared as functions, represented by their value at one arbitrary element
    equiv = lambda x, y: Cond("equiv", (normalise(ctx, num(x)), normalise(ctx, num(y))))
    C["irreps.is_equivalent_irrep"] = lambda ip, env: equiv(h.el(env["character1"], star), h.el(env["character2"], star))
    back = lambda x: gmul(ginv(a0), x, a0)
    tw = lambda x: x.conj(ctx)
    D = lambda m, x, i, j: atom("D", m, x, i, j)
    bar = lambda m, x, i, j: W(x, a0) * tw(W(a0, back(x)) * D(m, back(x), i, j) * 1) * (W(a0, back(x)) * tw(W(a0, back(x)))).inverse()
    chi = lambda m, x, f=D: (lambda i: f(m, x, i, i).sum(i))(fresh(d))
    info = {}

    def intertwiner(ip, env):
        A, B = env["rep1"], env["rep2"]
        x, i, j = fresh(H), fresh(d), fresh(d)
        ms = {f[2][0] for (bd, fs), _ in num(h.el(A, x, i, j)).items() for f, p in fs if f[0] == "A" and f[1] == "D"}
        m = ms.pop() if len(ms) == 1 else info["member"]
        h.eq(lab + "intertwiner: first representation", num(h.el(A, x, i, j)), D(m, x, i, j))
        h.eq(lab + "intertwiner: second representation", num(h.el(B, x, i, j)), bar(m, x, i, j))
        return ip.mk((d, d), lambda i: atom("U", m, *i))
    C["representation.get_intertwiner"] = intertwiner

    def loop(ip, st, env, vs, item):
        if vs[0][2] == N and "member" not in info:
            vis = [n for n, x in env.items() if isinstance(x, LList) and x.sym is not None and x.sym[0] == N and x.sym[2] is False]
            if len(vis) == 1:
                return pairing(ip, st, env, vs, item, vis[0])
        return False

    def pairing(ip, st, env, vs, item, vis):
        """One step of the selection of irreps from an arbitrary set of visited ones."""
        env0 = dict(env)
        V = env0[vis] = mkarr((N,), lambda i: Poly.base(("I", Cond("visited", i))))
        i, = vs
        u = fresh(H)
        gu = gmul(a0, u)
        total = (W(gu, gu) * chi(i, gmul(gu, gu))).sum(u)
        total = fun("rint", normalise(ctx, fun("re", normalise(ctx, total))))
        size = size_atom(H)
        value = fun("floor", normalise(ctx, total * size.inverse()))
        divides = cmp("eq", fun("mod", normalise(ctx, total), size), Poly())
        free = lambda j: mk_and(mk_not(Cond("visited", (j,))), mk_not(mk_eqi(i, j)), equiv(chi(i, star, bar), chi(j, star)))
        j = fresh(N)
        none = mk_all(j, mk_not(free(j)))
        lists, kinds = {}, set()

        def body(e):
            ip.assign(st.target, item, e)
            ip.exec_block(st.body, e)
        for n, (c, out, fr, e) in enumerate(ip.body_paths(body, env0)):
            if not h.feasible([c]):
                continue
            marks = [x[2] for x in fr.log if x[0] == "store" and x[1] is V]
            apps = [x for x in fr.log if x[0] == "append"]
            h.add(f"{lab}selection: only marks and list entries.{n}", len(marks) + len(apps) == len(fr.log) and
                  all(s.val is True and s.guard.op == "true" and not s.bvars for s in marks), "path", repr(fr.log)[:300])
            if out != ("end",):
                h.true(f"{lab}selection: fails only if the indicator is no integer or the conjugate is missing.{n}",
                       mk_or(mk_not(divides), mk_and(cmp("eq", value, Poly()), none)), [c])
                continue
            if not fr.log:
                kinds.add("skip")
                h.true(f"{lab}selection: skipped only if accounted for before.{n}", Cond("visited", (i,)), [c])
                continue
            h.true(f"{lab}selection: not accounted for before.{n}", mk_not(Cond("visited", (i,))), [c])
            h.add(f"{lab}selection: marked.{n}", [s.keys for s in marks][:1] == [(i,)], "path", repr(marks))
            pairs = [x for x in apps if isinstance(x[2], tuple)]
            rest = [x for x in apps if not isinstance(x[2], tuple)]
            ok = len(pairs) == len(rest) == 1
            h.add(f"{lab}selection: one entry for the irrep and one indicator.{n}", ok, "path", repr(apps)[:300])
            if not ok:
                raise Undecided("entries of the selection")
            isnum = lambda x: isinstance(x, (int, Poly)) and not isinstance(x, bool)
            for x in [y for y in pairs[0][2] if isnum(y)] + [rest[0][2]]:
                h.eq(f"{lab}selection: indicator is the Frobenius-Schur sum.{n}", num(x), value)
            x, a, b = fresh(H), fresh(d), fresh(d)
            arrs = [y for y in pairs[0][2] if not isnum(y)]
            found = []
            for y in arrs:
                v = num(h.el(y, x, a, b))
                found += [nm for nm, f in (("irrep", D), ("conjugate", bar)) if equal(ctx, v, f(i, x, a, b))]
            h.add(f"{lab}selection: the irrep and its conjugate.{n}", len(found) == len(arrs) and "irrep" in found, "normaliser", repr(found))
            others = [s.keys[0] for s in marks[1:]]
            if not others:
                kinds.add("single")
                h.true(f"{lab}selection: alone only if the indicator is not zero.{n}", mk_not(cmp("eq", value, Poly())), [c])
            else:
                kinds.add("pair")
                h.true(f"{lab}selection: paired only if the indicator is zero.{n}", cmp("eq", value, Poly()), [c])
                h.add(f"{lab}selection: one partner.{n}", len(others) == 1, "path", repr(others))
                q = others[0]
                if q[0] == "f" and q[1] in ip.choice_defs:
                    fv, y, e2 = ip.choice_defs[q[1]]
                    sat = e2.subst(dict(zip(fv, q[2]))).subst({y: q})
                    h.true(f"{lab}selection: partner is equivalent to the conjugate and free.{n}", free(q), [c, sat])
                else:
                    h.true(f"{lab}selection: partner is equivalent to the conjugate and free.{n}", free(q), [c])
            lists[id(pairs[0][1])] = pairs[0]
            lists[id(rest[0][1])] = rest[0]
        h.add(lab + "selection: all kinds of steps", kinds == {"skip", "single", "pair"} and len(lists) == 2, "path", repr(kinds))
        p = fresh(P)
        m = ("f", "selected", (p,), N)
        info["member"] = m
        for nm, x in list(env.items()):
            if id(x) in lists:
                y = lists[id(x)][2]
                if isinstance(y, tuple):
                    y = tuple(ind if isinstance(z, (int, Poly)) else vsubst(ip.frozen(z), {i: m}) for z in y)
                else:
                    y = ind
                env[nm] = LList(sym=(P, p, y))
        env[vis] = Poison("marks after the selection")
        return True
    ip.loop_hook = loop

    def rule(ctx, bound, factors):
        """D(x) U = U bar(x);  U conj(U) = indicator W(a0,a0) D(a0 a0); and their conjugates."""
        us = [(n, f) for n, (f, p) in enumerate(factors) if f[0] == "A" and f[1] == "U" and p == 1]
        ds = [(n, f) for n, (f, p) in enumerate(factors) if f[0] == "A" and f[1] == "D" and p == 1]

        def build(x, drop, c, cj):
            if cj:
                x = x.conj(ctx)
            rest = [y for k, y in enumerate(factors) if k not in drop]
            out = Poly()
            for (b3, f3), c3 in x.items():
                out = out + Poly({(tuple(v for v in bound if v != c) + b3, mulfac(sortfac(rest), f3)): c3})
            return out
        for (n, f), (m, e) in itertools.product(ds, us):
            c = f[2][3]
            if f[3] == e[3] and f[2][0] == e[2][0] and c == e[2][1] and c in bound and count_occ(c, factors) == 2:
                k = fresh(d)
                x = (atom("U", e[2][0], f[2][2], k) * bar(f[2][0], f[2][1], k, e[2][2])).sum(k)
                return build(x, (n, m), c, f[3])
        for (n, f), (m, e) in itertools.permutations(us, 2):
            c = f[2][2]
            if not f[3] and e[3] and f[2][0] == e[2][0] and c == e[2][1] and c in bound and count_occ(c, factors) == 2:
                return build(W(a0, a0) * D(f[2][0], gmul(a0, a0), f[2][1], e[2][2]) * ind, (n, m), c, False)
            if f[3] and not e[3] and f[2][0] == e[2][0] and c == e[2][1] and c in bound and count_occ(c, factors) == 2:
                return build(W(a0, a0) * D(f[2][0], gmul(a0, a0), f[2][1], e[2][2]) * ind, (n, m), c, True)
        return None
    ctx.rules.append(rule)
    x = fresh(G)
    base = [Cond("anti", (a0,)), mk_ex(x, Cond("anti", (x,)))]
    ctx.flagged.add(a0)
    ctx.unflagged.add(H)
    n = 0
    for facts, v in h.only_return(lab + "total", h.run([L, R, w, t, k], assume=base)):
        ok = isinstance(v, tuple) and len(v) == 5 and isinstance(v[0], LList) and v[0].sym is not None and v[0].sym[0] == P
        h.add(f"{lab}one co-representation per selected irrep.{n}", ok, "path", repr(v))
        if not ok:
            continue
        h.add(f"{lab}spin factor system, matrices and flags are passed on.{n}", v[2] is spin[0] and v[3] is spin[1] and v[4] is spin[2], "path", repr(v))
        h.add(f"{lab}one indicator per co-representation.{n}", isinstance(v[1], LList) and v[1].sym is not None and v[1].sym[0] == P and v[1].sym[2] == ind,
              "path", repr(v[1]))
        kind, (vs, A) = ip.iter_spec(v[0])
        x, y = fresh(H), fresh(H)
        e = gone(G.group)
        el = lambda g, i, j: num(h.el(A, g, i, j))
        double = ind != 1
        B = BDim(2, d) if double else d
        if not h.add(f"{lab}shape.{n}", shape_is(A, (G, B, B)), "path", repr(A)):
            continue
        ix = (lambda s, i: ("b", s, i)) if double else (lambda s, i: i)
        K = range(2 if double else 1)
        c3 = fresh(3)
        p = lambda g: E(-(atom("k", c3) * atom("w", g, c3)).sum(c3))
        for s1, s2 in itertools.product((0, 1), repeat=2):
            g, q = gmul(a0, x) if s1 else x, gmul(a0, y) if s2 else y
            sg = tw if s1 else (lambda z: z)
            for r, s in itertools.product(K, repeat=2):
                i, j = fresh(d), fresh(d)
                prod, uni = Poly(), Poly()
                for z in K:
                    c = fresh(d)
                    prod = prod + (el(g, ix(r, i), ix(z, c)) * sg(el(q, ix(z, c), ix(s, j)))).sum(c)
                    uni = uni + (el(g, ix(r, i), ix(z, c)) * tw(el(g, ix(s, j), ix(z, c)))).sum(c)
                f = W(g, q) * p(g) * sg(p(q)) * p(gmul(g, q)).inverse()
                h.eq(f"{lab}law {'ua'[s1]}{'ua'[s2]} block {r}{s}.{n}", prod, f * el(gmul(g, q), ix(r, i), ix(s, j)))
                if not s2:
                    h.eq(f"{lab}unitary {'ua'[s1]} block {r}{s}.{n}", uni, delta(i, j) if r == s else 0)
        n += 1
    h.frame(lab + "frame")
    h.req("operations closed modulo lattice translations with time reversal; S, N twisted cocycles (contracts of the two factor systems)")
    h.req("theorems cited: the indicator sum of an irrep is 1, -1 or 0 times the order of the unitary half (Wigner), U conj(U) = indicator omega(a0,a0) D(a0^2) "
          "for the unitary intertwiner of an irrep and its conjugate (Schur); the conjugate of an irrep with indicator 0 is equivalent to another irrep of the list")


@contract("C08", "corep.enumerate_spinor_small_corepresentations")
def type_one(h):
    """Without time reversal: the spinor small representations of the same operations, no indicators, all operators linear."""
    n = h.dim("n")
    L, R, w, k = h.arr("L", (3, 3)), h.arr("R", (n, 3, 3), "int"), h.arr("w", (n, 3)), h.arr("k", (3,))
    t = flags(h, n)
    out = (Opaque("irreps"), Opaque("factor system"), Opaque("matrices"))
    given = []
    h.ip.contracts["spinor.enumerate_spinor_small_representations"] = lambda ip, env: (given.append(dict(env)), out)[1]
    x = fresh(n)
    for facts, v in h.only_return("total", h.run([L, R, w, t, k], assume=[mk_all(x, mk_not(Cond("anti", (x,))))])):
        e = given[-1]
        h.add("representations of the given operations", e["lattice"] is L and e["little_rotations"] is R and e["little_translations"] is w
              and e["kpoint"] is k, "path", repr(e))
        ok = isinstance(v, tuple) and len(v) == 5 and v[0] is out[0] and v[2] is out[1] and v[3] is out[2] and isinstance(v[1], LList) and not v[1].items \
            and v[1].sym is None and v[4].shape == (n,)
        h.add("results are passed on", ok, "path", repr(v))
        if ok:
            i = fresh(n)
            h.true("all operators are linear", mk_not(h.ip.as_cond(h.el(v[4], i))), facts)
    h.frame()


def inverse(h, G, env):
    T, i = list(env.values())[:2]
    x, y = fresh(G), fresh(G)
    if not (isinstance(i, Ix) and h.el(T, x, y) == Ix(gmul(x, y))):
        raise Undecided("inverse of something else")
    return Ix(ginv(i.t))
