"""Induction step of the solvable-chain construction of irreps."""
from api import *
from api_oracle import *
from contracts.irreps_c import law_rule


def pow_rule(h, roots):
    """x**n == z for the n-th roots x listed in roots: {factor: (n, z)}."""
    def rule(ctx, bound, factors):
        for k, (f, p) in enumerate(factors):
            if f in roots or f[0] == "F" and f[1] == "pow" and f[2][1].is_const() and f[2][1].const_value().re == Fr(1, max(1, f[2][1].const_value().re.denominator)):
                n, z = roots.get(f) or (int(1 / f[2][1].const_value().re), f[2][0])
                if n == 1:
                    continue
                if p >= n:
                    rest = [x for m, x in enumerate(factors) if m != k] + ([(f, p - n)] if p > n else [])
                    return Poly({(bound, sortfac(rest)): CQ(1)}) * z
                if p < 0:
                    rest = [x for m, x in enumerate(factors) if m != k] + [(f, p + n)]
                    return Poly({(bound, sortfac(rest)): CQ(1)}) * z.inverse()
        return None
    h.ctx.rules.append(rule)


def power_rule(h, name, r, p, rep):
    """name[r] ... name[r] (p factors) = phi(r)^p 1."""
    def rule(ctx, bound, factors):
        fl = [n for n, (f, q) in enumerate(factors) if f[0] == "A" and f[1] == name and q == 1 and not f[3] and f[2][0] == r]
        if len(fl) < p:
            return None
        for perm in itertools.permutations(fl, p):
            idx = [factors[n][0][2] for n in perm]
            if all(idx[k][2] == idx[k + 1][1] and idx[k][2] in bound and count_occ(idx[k][2], factors) == 2 for k in range(p - 1)):
                gone_ = [i[2] for i in idx[:-1]]
                rest = [x for n, x in enumerate(factors) if n not in perm]
                return Poly({(tuple(v for v in bound if v not in gone_), sortfac(rest)): CQ(1)}) * \
                    Poly.base(("phi", rep, r, 0), p) * delta(idx[0][1], idx[-1][2])
        return None
    h.ctx.rules.append(rule)


def setting(h, p):
    G = h.group()
    H = Dim("H", group=G.group)
    H.sub = True
    r = ("f", "r", (), G)
    ORDERS[r] = p

    def exponent(ip, i):
        e = 0
        for l, s in word(i):
            if l == r:
                e += s
            elif not (l[0] == "v" and l[2] == H):
                return None
        return e % p
    T = Dim("T", group=G.group)     # the whole table; the group of this step is a part of it with its own positions
    G.sub = True
    h.ip.members[G] = lambda ip, i: True if exponent(ip, i) is not None or i[0] == "v" and i[2] == G else None
    h.ip.members[H] = lambda ip, i: None if exponent(ip, i) is None else exponent(ip, i) == 0
    return T, G, H, r


@contract("C04", "irreps.enumerate_unitary_irreps_from_solvable_group_chain")
def induction_step(h):
    """One step of the chain, for a generator r of order p in {2, 3}: from representations D of the subgroup H with
    D(s)D(t) = mu(s,t) D(st) every representation produced on the group of all r^m s obeys the same law with mu, there are p
    of dimension dim D when D is conjugate to itself under r and one of dimension p dim D otherwise; the next list consists of
    produced ones, pairwise inequivalent."""
    h.req("G is the disjoint union of r^m H, 0 <= m < p, with H normal and r of order p (chain condition, contract of the generators)")
    h.req("paper lemma: an intertwiner M of D and its conjugate by r is a multiple of D(r) for an extension of D to G (Schur; M^p is scalar)")
    h.req("factor system normalised: mu(g, 1) = mu(1, g) = 1")
    for p in (2, 3):
        for extends in (True, False):
            step(h, p, extends)


def step(h, p, extends):
    """extends: D is modelled as the restriction of a representation of G (self-conjugate case); otherwise only as one of H."""
    lab = f"p={p}, {'self-conjugate' if extends else 'any'} D: "
    h.ctx = Ctx()
    h.ip = Interp(h.ctx)
    h.ip.deadline = time.time() + 60
    ip = h.ip
    ORDERS.clear()
    T, G, H, r = setting(h, p)
    d, N = h.dim("d"), h.dim("N")
    h.ctx.cocycle["W"] = "W"
    h.ctx.unimod_phi.add("W")
    h.ctx.normalized.add("W")
    h.ctx.unimod.add("W")
    h.ctx.unimod.add("kappa")
    if extends:
        h.ctx.hom["D"] = {"dim": d, "unitary": True, "proj": "W"}
        power_rule(h, "D", r, p, "W")
    else:
        law_rule(h, "D", lambda g, k: atom("W", g, k))
    roots = {}
    pow_rule(h, roots)
    table = h.table(T)
    mu = h.arr("W", (T, T), "complex")
    D = mkarr((H, d, d), lambda i: atom("D", *i))
    gens = LList(sym=(h.dim("q"), fresh(h.dim("q")), Ix(r)))
    C = ip.contracts
    C["group.get_identity_index"] = lambda ip, env: Ix(gone(G.group))
    C["group.get_inverse_index"] = lambda ip, env: Ix(ginv(env["idx"].t))

    def order(ip, env):
        if env["idx"] != Ix(r):
            raise Undecided("order of another element")
        return p
    C["group.get_order"] = order

    def nth_root(ip, env):
        z = normalise(h.ctx, num(env["z"]))
        x = fun("nroot", z, env["n"])
        ((_, fs), _), = x.d.items()
        roots[fs[0][0]] = (env["n"], z)
        return x
    C["utils.nroot"] = nth_root
    asked = []

    def intertwiner(ip, env):
        asked.append((env["rep1"], env["rep2"], list(ip.facts)))
        return ip.mk((d, d), lambda i: atom("kappa") * atom("D", r, *i) if extends else atom("M", *i))
    C["representation.get_intertwiner"] = intertwiner
    star = ("f", "star", (), G)         # characters compared as functions, represented by their value at one arbitrary element

    eqv = []

    def equiv(a, b):
        return Cond("equiv", (normalise(h.ctx, num(h.el(a, star))), normalise(h.ctx, num(h.el(b, star)))))

    def equivalent(ip, env):
        a, b = env.values()
        if a.shape == (H,):
            eqv.append((a, b))
            return Cond("selfconjugate", ())
        return equiv(a, b)
    C["irreps.is_equivalent_irrep"] = equivalent
    joined = []

    def joined_sorted(ip, parts):
        joined.append(parts)
        v = fresh(G)
        out.append(LList(sym=(G, v, Ix(v))))
        return out[0]
    ip.sorted_hook = joined_sorted
    out = []

    def exhausted(a, b):
        """The sorted list of the new group against the list of all positions of the table."""
        for x, y in ((a, b), (b, a)):
            if out and x is out[0] and isinstance(y, LList) and y.sym is not None and y.sym[0] == T and y.sym[2] == Ix(y.sym[1]):
                return TRUE if "exhausted" not in state else FALSE
        return None
    ip.sequence_hook = exhausted
    state = {}

    def loops(ip, st, env, vs, item):
        if "exhausted" in state:        # after the last step, with a group smaller than the table
            env[state["grp"]], env[state["reps"]] = out[0], LList(sym=(N, fresh(N), D))
            return True
        if "outer" not in state:
            # generic state before the step
            state["outer"] = True
            lists = [(n, x) for n, x in env.items() if isinstance(x, LList) and x.items is not None and len(x.items) == 1]
            grp = [n for n, x in lists if isinstance(x.items[0], Ix)]
            reps = [n for n, x in lists if isinstance(x.items[0], Arr)]
            if len(grp) != 1 or len(reps) != 1:
                raise Undecided("state of the chain loop")
            first = env[reps[0]].items[0]
            h.add(lab + "starts with the identity and its representation", env[grp[0]].items == [Ix(gone(G.group))] and first.shape == (1, 1, 1)
                  and num(h.el(first, 0, 0, 0)) == Poly.const(1), "path", repr(env[grp[0]]))
            v = fresh(H)
            env[grp[0]] = LList(sym=(H, v, Ix(v)))
            env[reps[0]] = LList(sym=(N, fresh(N), D))
            state["reps"], state["grp"], state["D"] = reps[0], grp[0], env[reps[0]]
            ip.assign(st.target, item, env)
            ip.exec_block(st.body, env)
            return True
        if "produced" not in state and vs[0][2] == N:
            paths = ip.body_paths(lambda e: (ip.assign(st.target, item, e), ip.exec_block(st.body, e)), env)
            target = {id(x[1]): x[1] for _, _, fr, _ in paths for x in fr.log if x[0] == "append"}
            h.add(lab + "one list of produced representations", len(target) == 1 and all(o == ("end",) for _, o, _, _ in paths)
                  and all(x[0] == "append" for _, _, fr, _ in paths for x in fr.log), "path", repr([[x[0] for x in fr.log] for _, _, fr, _ in paths]))
            state["produced"] = [(c, [x[2] for x in fr.log if x[0] == "append"], e) for c, _, fr, e in paths]
            tgt, = target.values()
            M = Dim("produced")
            v = fresh(M)
            new = LList(sym=(M, v, mkarr((G, Dim("dn"), Dim("dn")), lambda i: atom("X", v, *i))))
            for n, x in list(env.items()):
                if x is tgt:
                    env[n] = new
            state["M"] = M
            return True
        if "M" in state and vs[0][2] == state["M"] and "filtered" not in state:
            state["filtered"] = True
            return hook2(ip, st, env, vs, item)
        return False
    from loops import growing_lists

    def related(x, y):
        a, = [v for v in x.values() if v.shape == (G,)]
        b, = [v for v in y.values() if v.shape == (G,)]
        return equiv(a, b)
    info = growing_lists(h, lab + "selection: ", related)
    hook2 = ip.loop_hook
    ip.loop_hook = loops
    ps = h.run([table, mu, gens])
    h.add(lab + "step executed", "produced" in state and "U" in info, "path", repr(ps)[:300])
    for n, (facts, o) in enumerate(ps):
        ok = o[0] == "end" and isinstance(o[1], LList) and o[1].sym is not None and o[1].sym[0] == info.get("U")
        h.add(f"{lab}the selected representations are returned when the group is exhausted.{n}", ok or not h.feasible(facts), "path", repr(o)[:300])
    if "produced" not in state:
        return
    state["exhausted"] = False
    rest = h.run([table, mu, gens])
    h.add(lab + "no representations when the generators given do not reach the whole group",
          bool(rest) and all(o[0] == "end" and isinstance(o[1], LList) and o[1].items == [] for _, o in rest), "path", repr(rest)[:300])
    # group
    ok = len(joined) == 1 and all(len(vs) == 1 and vs[0][2] == H and isinstance(it, Ix) for vs, it in joined[0])
    h.add(lab + "next group: cosets of the subgroup", ok, "path", repr(joined))
    if ok:
        ms = sorted(sum(s for l, s in word(it.t) if l == r) % p for vs, it in joined[0]) if all(
            [l for l, s in word(it.t) if l != r] == [vs[0]] for vs, it in joined[0]) else None
        h.add(lab + "next group: each of the p cosets once", ms == list(range(p)), "path", repr(joined))
    kinds = set()
    for n, (c, reps, e) in enumerate(state["produced"]):
        s, t = fresh(H), fresh(H)
        if not reps:
            h.add(f"{lab}something is produced.{n}", not h.feasible([c]), "path")
            continue
        if ("selfconjugate" in repr(c).replace("not(selfconjugate", "")) != extends:
            continue
        same = len(reps) == p and all(x.shape == (G, d, d) for x in reps)
        ind = len(reps) == 1 and reps[0].shape == (G, BDim(p, d), BDim(p, d))
        kinds.add("extended" if same else "induced" if ind else "?")
        h.add(f"{lab}{n}: p extensions or one induced representation", same or ind, "path", repr(reps))
        h.true(f"{lab}{n}: extended exactly if conjugate to itself", Cond("selfconjugate", ()) if same else mk_not(Cond("selfconjugate", ())), [c])
        if same:
            s0 = gmul(r, s)
            i, j = fresh(d), fresh(d)
            found = [k for X in reps for k in range(p) if equal(h.ctx, num(h.el(X, s0, i, j)), E(Fr(k, p)) * h.el(reps[0], s0, i, j))]
            h.add(f"{lab}{n}: the extensions differ by the p roots of unity", sorted(found) == list(range(p)), "normaliser", repr(found))
        for q, X in enumerate(reps):
            i, j = fresh(d), fresh(d)
            if same:
                h.eq(f"{lab}{n}: extension {q}: restricts to the given representation", h.el(X, s, i, j), atom("D", s, i, j), [c])
            elif ind:
                for x in range(p):
                    for y in range(p):
                        h.eq(f"{lab}{n}: induced: identity, block {x}{y}", h.el(X, gone(G.group), ("b", x, i), ("b", y, j)),
                             atom("D", gone(G.group), i, j) if x == y else 0, [c])
                h.eq(f"{lab}{n}: induced: restriction contains the given representation", h.el(X, s, ("b", 0, i), ("b", 0, j)), atom("D", s, i, j), [c])
            for a in range(p):
                for b in range(p):
                    g, k = gmul(*[r] * a, s) if a else s, gmul(*[r] * b, t) if b else t
                    if same:
                        i, j, m = fresh(d), fresh(d), fresh(d)
                        h.eq(f"{lab}{n}: extension {q}: law r^{a}s r^{b}t", (num(h.el(X, g, i, m)) * num(h.el(X, k, m, j))).sum(m),
                             atom("W", g, k) * h.el(X, gmul(g, k), i, j), [c])
                    elif ind:
                        for x in range(p):
                            for y in range(p):
                                i, j = ("b", x, fresh(d)), ("b", y, fresh(d))
                                tot = Poly()
                                for z in range(p):
                                    m = fresh(d)
                                    tot = tot + (num(h.el(X, g, i, ("b", z, m))) * num(h.el(X, k, ("b", z, m), j))).sum(m)
                                h.eq(f"{lab}{n}: induced: law r^{a}s r^{b}t block {x}{y}", tot, atom("W", g, k) * h.el(X, gmul(g, k), i, j), [c])
    h.add(lab + "the case occurs", kinds == {"extended" if extends else "induced"}, "path", repr(kinds))
    # characters compared
    if extends:
        for n, (A, B, facts) in enumerate(asked[:1]):
            s, i, j, m, m2 = fresh(H), fresh(d), fresh(d), fresh(d), fresh(d)
            M = lambda x, y: atom("D", r, x, y)
            h.eq(f"{lab}intertwiner of the representation and its conjugate: D(r) intertwines them", (num(h.el(A, s, i, m)) * M(m, j)).sum(m),
                 (M(i, m2) * num(h.el(B, s, m2, j))).sum(m2))
        h.add(lab + "an intertwiner is used", bool(asked), "path")
        h.frame(lab + "frame")
        return
    s, i = fresh(H), fresh(d)
    ch = lambda g: atom("D", g, i, i).sum(i)
    conj = lambda k: gmul(ginv(rk(k)), s, rk(k)) if k else s
    rk = lambda k: gmul(*[r] * k)
    ph = lambda g: Poly.base(("phi", "W", g, 0))
    for n, pair in enumerate(eqv[:1]):
        js = []
        for x in pair:
            js += [k for k in range(p) if equal(h.ctx, num(h.el(x, s)), ch(conj(k)) * (ph(s) * ph(conj(k)).inverse() if k else 1))]
        h.add(lab + "compares the characters of the representation and of a conjugate", len(js) == 2 and js[0] != js[1], "normaliser", repr(js))
    h.add(lab + "a comparison is made", bool(eqv), "path")
    h.frame(lab + "frame")

