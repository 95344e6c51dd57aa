"""Contracts on spgrep.group."""
from api import *
from api_oracle import *


def affine(ctx, R="R", w="w", t="t"):
    """w[gh] = R[g] w[h] + w[g] - t[g,h] (t: integer lattice translations); R is a homomorphism (integer matrices)."""
    ctx.hom[R] = {"dim": 3}

    def rule(ctx, bound, factors):
        for n, (f, p) in enumerate(factors):
            if f[0] == "A" and f[1] == w and isinstance(f[2][0], tuple) and f[2][0][0] == "w" and len(f[2][0][2]) >= 2 and p == 1:
                g = f[2][0][1]
                l, r = mkword(g, f[2][0][2][:1]), mkword(g, f[2][0][2][1:])
                c = fresh(3, "c")
                a = f[2][1]
                e = (atom(R, l, a, c) * atom(w, r, c)).sum(c) + atom(w, l, a) - atom(t, l, r, a)
                rest = [x for m, x in enumerate(factors) if m != n]
                out = Poly()
                for (b2, f2), c2 in e.items():
                    out = out + Poly({(tuple(bound) + b2, mulfac(sortfac(rest), f2)): c2})
                return out
        return None
    ctx.rules.append(rule)
    ctx.integer.add(t)
    ctx.real |= {t, w, R}
    ctx.integer.add(R)


def fixes_k(ctx, R="R", k="k", hname="h", sign=None):
    """R[g]^T k = s(g) k + h[g] with h integer (s = 1 unless given as an atom)."""
    def rule(ctx, bound, factors):
        for n, (f, p) in enumerate(factors):
            if f[0] == "A" and f[1] == R and p == 1 and len(f[2]) == 3:
                g, b, a = f[2]
                if b not in bound:
                    continue
                for m, (f2, p2) in enumerate(factors):
                    if m != n and f2[0] == "A" and f2[1] == k and f2[2] == (b,) and p2 == 1 and count_occ(b, factors) == 2:
                        rest = [x for q, x in enumerate(factors) if q not in (n, m)]
                        s = atom(sign, g) if sign else Poly.const(1)
                        e = s * atom(k, a) + atom(hname, g, a)
                        nb = tuple(x for x in bound if x != b)
                        out = Poly()
                        for (b3, f3), c3 in e.items():
                            out = out + Poly({(nb + b3, mulfac(sortfac(rest), f3)): c3})
                        return out
        return None
    def hrule(ctx, bound, factors):
        for n, (f, p) in enumerate(factors):
            if f[0] == "A" and f[1] == hname and isinstance(f[2][0], tuple) and f[2][0][0] == "w" and len(f[2][0][2]) >= 2 and p == 1:
                # R[gl]^T k = R[l]^T (s(g) k + h[g]) = s(g) s(l) k + s(g) h[l] + R[l]^T h[g]
                g = f[2][0][1]
                w1, l = mkword(g, f[2][0][2][:1]), mkword(g, f[2][0][2][1:])
                c = fresh(3, "c")
                a = f[2][1]
                s = atom(sign, w1) if sign else Poly.const(1)
                e = s * atom(hname, l, a) + (atom(R, l, c, a) * atom(hname, w1, c)).sum(c)
                rest = [x for q, x in enumerate(factors) if q != n]
                out = Poly()
                for (b3, f3), c3 in e.items():
                    out = out + Poly({(tuple(bound) + b3, mulfac(sortfac(rest), f3)): c3})
                return out
        return None
    ctx.rules += [rule, hrule]
    ctx.integer.add(hname)
    ctx.real |= {hname, k}


def flags(h, dim):
    """Array of 0/1 time-reversal flags; a homomorphism when dim is a group."""
    t = mkarr((dim,), lambda i: Poly.base(("I", Cond("anti", i))))
    t.name = "t"
    h.ctx.flags.add("anti")
    return t


@contract("C02", "group.get_factor_system_from_little_group")
def value(h):
    n = h.dim("n")
    R, w, k = h.arr("R", (n, 3, 3), "int"), h.arr("w", (n, 3)), h.arr("k", (3,))
    for facts, v in h.only_return("total", h.run([R, w, k])):
        h.add("shape", shape_is(v, (n, n)), "path", repr(v))
        i, j, a, b = fresh(n), fresh(n), fresh(3), fresh(3)
        e = (atom("R", i, b, a) * atom("k", b)).sum(b) - atom("k", a)
        x = h.el(v, i, j)
        h.eq("value", x, E(-(e * atom("w", j, a)).sum(a)))
        h.eq("modulus one", x * x.conj(h.ctx), 1)
    h.frame()


@contract("C02", "group.get_factor_system_from_little_group")
def value_antilinear(h):
    n = h.dim("n")
    R, w, k = h.arr("R", (n, 3, 3), "int"), h.arr("w", (n, 3)), h.arr("k", (3,))
    t = flags(h, n)
    for facts, v in h.only_return("total", h.run([R, w, k, t])):
        h.add("shape", shape_is(v, (n, n)), "path", repr(v))
        i, j, a, b = fresh(n), fresh(n), fresh(3), fresh(3)
        for sgn, fact in ((1, Cond("anti", (i,))), (-1, mk_not(Cond("anti", (i,))))):
            def go():
                e = (atom("R", i, b, a) * atom("k", b)).sum(b) + atom("k", a) * sgn
                h.eq(f"value{sgn}", h.el(v, i, j), E(-(e * atom("w", j, a)).sum(a)), [fact])
            h.with_facts(facts + [fact], go)
    h.frame()


@contract("C02", "group.get_factor_system_from_little_group")
def cocycle(h):
    """Associativity for every group closed modulo integer translations fixing k."""
    G = h.group()
    R, w, k = h.arr("R", (G, 3, 3), "int"), h.arr("w", (G, 3)), h.arr("k", (3,))
    h.req("R[gh] = R[g] R[h]; w[gh] = R[g] w[h] + w[g] - t with t an integer vector; R[g]^T k - k is an integer vector")
    affine(h.ctx)
    fixes_k(h.ctx)
    for facts, v in h.only_return("total", h.run([R, w, k])):
        i, j, l = fresh(G), fresh(G), fresh(G)
        h.eq("cocycle", h.el(v, i, j) * h.el(v, gmul(i, j), l), h.el(v, i, gmul(j, l)) * h.el(v, j, l))
        c = fresh(3)
        h.eq("law of the product", h.el(v, i, j), E(-(atom("h", i, c) * atom("w", j, c)).sum(c)))


@contract(("C02", "C08"), "group.get_factor_system_from_little_group")
def cocycle_antilinear(h):
    """With time reversal: twisted associativity w(i,j) w(ij,l) = w(j,l)^(conjugated if i is anti-linear) w(i,jl), and the phases
    exp(-ik.w) turn a representation with this factor system into one with the phases exp(-ik.t) of lattice translations."""
    signs = list(itertools.product((1, -1), repeat=3))
    for s in signs:
        h.ctx = Ctx()
        h.ip = Interp(h.ctx)
        h.ip.deadline = time.time() + 60
        G = h.group()
        R, w, k = h.arr("R", (G, 3, 3), "int"), h.arr("w", (G, 3)), h.arr("k", (3,))
        t = flags(h, G)
        affine(h.ctx)
        fixes_k(h.ctx, sign="s")
        h.ctx.real.add("s")
        i, j, l = fresh(G), fresh(G), fresh(G)
        val = dict(zip((i, j, l), s))

        def rule(ctx, bound, factors):
            for n, (f, p) in enumerate(factors):
                if f[0] == "A" and f[1] == "s" and all(x in val for x, _ in word(f[2][0])):
                    c = 1
                    for x, _ in word(f[2][0]):
                        c *= val[x]
                    return Poly({(tuple(bound), tuple(x for m, x in enumerate(factors) if m != n)): CQ(c ** p)})
            return None
        h.ctx.rules.append(rule)
        fs = [Cond("anti", (x,)) if val[x] < 0 else mk_not(Cond("anti", (x,))) for x in (i, j, l)]
        lab = "anti-linear " + "".join("y" if x < 0 else "n" for x in s) + ": "
        for facts, v in h.only_return(lab + "total", h.run([R, w, k, t])):
            W = lambda a, b: h.with_facts(list(facts) + fs, lambda: num(h.el(v, a, b)))
            tw = lambda x: x.conj(h.ctx) if s[0] < 0 else x
            h.eq(lab + "cocycle", W(i, j) * W(gmul(i, j), l), W(i, gmul(j, l)) * tw(W(j, l)), fs)
            x = fresh(3)
            p = lambda g: E(-(atom("k", x) * atom("w", g, x)).sum(x))
            h.eq(lab + "phases", W(i, j) * p(i) * tw(p(j)), p(gmul(i, j)) * E(-(atom("k", x) * atom("t", i, j, x)).sum(x)), fs)
        h.frame(lab + "frame")
    h.req("operations closed modulo integer translations t; R[g]^T k = +-k + integer vector, - for operations with time reversal")


@contract(("C14", "C02"), "group.get_cayley_table")
def table_of_group(h):
    G = h.group()
    R = h.arr("R", (G, 3, 3), "int")
    h.ctx.hom["R"] = {"dim": 3}
    h.req("g -> R[g] is an injective homomorphism into integer matrices")
    h.ip.index_oracle = group_oracle([{"R": (3, 3)}])
    for facts, v in h.only_return("total", h.run([R])):
        h.add("shape", shape_is(v, (G, G)), "path", repr(v))
        i, j = fresh(G), fresh(G)
        h.same_index("entry is the index of the product", h.el(v, i, j), Ix(gmul(i, j)))
    h.frame()


@contract(("C14", "C08"), "group.get_cayley_table")
def table_of_magnetic_group(h):
    G = h.group()
    R = h.arr("R", (G, 3, 3), "int")
    h.ctx.hom["R"] = {"dim": 3}
    t = flags(h, G)
    h.req("g -> (R[g], t[g]) is an injective homomorphism into integer matrices times {0,1}")
    h.ip.index_oracle = group_oracle([{"R": (3, 3), "anti": ()}])
    for facts, v in h.only_return("total", h.run([R, t])):
        h.add("shape", shape_is(v, (G, G)), "path", repr(v))
        i, j = fresh(G), fresh(G)
        h.same_index("entry is the index of the product", h.el(v, i, j), Ix(gmul(i, j)))
    h.frame()


@contract(("C14", "C21"), "group.get_cayley_table")
def table_of_any_list(h):
    """Any list of matrices: an entry is the first index of the product; ValueError iff some product is missing."""
    n = h.dim("n")
    R = h.arr("R", (n, 3, 3), "int")
    h.ip.index_oracle = first_oracle
    i, j, k = fresh(n), fresh(n), fresh(n)

    def same(i, j, k):
        return h.ip.quant((3, 3), lambda ab: prod_eq(i, j, k, *ab))

    def prod_eq(i, j, k, a, b):
        c = fresh(3)
        return cmp("eq", atom("R", k, a, b) - (atom("R", i, a, c) * atom("R", j, c, b)).sum(c), 0)
    closed = mk_all(i, mk_all(j, mk_ex(k, same(i, j, k))))
    nret = 0
    for facts, o in h.run([R]):
        if o[0] == "exc":
            h.add("error is ValueError", o[1].etype == "ValueError", "path", repr(o[1]))
            h.true("error only if not closed", mk_not(closed), facts)
        else:
            nret += 1
            a, b = fresh(n), fresh(n)
            x = h.with_facts(facts, lambda: h.el(o[1], a, b))
            ok = isinstance(x, Ix)
            h.add("entry is an index", ok, "path", repr(x))
            if ok:
                h.true("entry holds the product", same(a, b, x.t), facts)
    h.add("returns", nret == 1, "path", str(nret))


@contract("C14", "group.get_identity_index")
def identity(h):
    G = h.group()
    T = h.table(G)
    for facts, v in h.only_return("total", h.run([T])):
        h.same_index("identity", v, Ix(gone("G")))
    h.frame()


@contract("C14", "group.get_inverse_index")
def inverse(h):
    G = h.group()
    T = h.table(G)
    g = fresh(G)
    for facts, v in h.only_return("total", h.run([T, Ix(g)])):
        h.same_index("inverse", v, Ix(ginv(g)))
    h.frame()


def cyclic(g, m):
    """g has order exactly m: words in g alone compare by exponent modulo m."""
    def rel(i, j):
        ls = word(i) + [(l, -s) for l, s in reversed(word(j))]
        if any(l != g for l, s in ls):
            return None
        return sum(s for l, s in ls) % m == 0
    return rel


@contract("C14", "group.get_order")
def order(h):
    """Complete for crystallographic groups: their elements have order 1, 2, 3, 4 or 6 (others up to 24 as well)."""
    for m in list(range(1, 13)) + [24]:
        G = h.group()
        T = h.table(G)
        g = fresh(G)
        h.ip.relation = cyclic(g, m)
        for facts, v in h.only_return(f"order{m}", h.run([T, Ix(g)])):
            h.eq(f"order{m}.value", v, m)
    h.req("the element has finite order m (every m up to 12, and 24)")
    h.frame()


@contract("C14", "group.is_matrix_group")
def group_accepted(h):
    G = h.group()
    R = h.arr("R", (G, 3, 3), "int")
    h.ctx.hom["R"] = {"dim": 3}
    h.req("g -> R[g] is an injective homomorphism into integer matrices")
    h.ip.index_oracle = group_oracle([{"R": (3, 3)}])
    for facts, v in h.only_return("total", h.run([R])):
        h.true("accepted", v, facts)
    h.frame()


@contract("C14", "group.is_matrix_group")
def only_groups_accepted(h):
    """Accepted lists are closed and every row and column of their table exhausts the list (for get_cayley_table by its
    contract table_of_any_list; prod(i,j,k): R[i] R[j] == R[k])."""
    n = h.dim("n")
    R = h.arr("R", (n, 3, 3), "int")
    i, j, k = fresh(n), fresh(n), fresh(n)
    prod = lambda i, j, k: Cond("prod", (i, j, k))
    closed = mk_all(i, mk_all(j, mk_ex(k, prod(i, j, k))))
    entry = lambda ip, i, j: Ix(ip.choice(prod(i, j, k), k))

    def cayley(ip, env):
        if env["rotations"] is not R or env["time_reversals"] is not None:
            raise Undecided("get_cayley_table is called with other arguments")
        if not ip.truth(closed):
            raise PyExc("ValueError", "not closed")
        return ip.mk((n, n), lambda x: entry(ip, *x))
    h.ip.contracts["group.get_cayley_table"] = cayley
    acc = 0
    for facts, v in h.only_return("total", h.run([R])):
        r = h.with_facts(facts, lambda: h.ip.decide(h.ip.as_cond(v)))
        if r is False:
            continue
        acc += 1
        h.true("closed", closed, facts)
        e = entry(h.ip, i, j)
        h.true("rows of the table exhaust the list", mk_all(i, mk_all(k, mk_ex(j, mk_eqi(e.t, k)))), facts)
        h.true("columns of the table exhaust the list", mk_all(j, mk_all(k, mk_ex(i, mk_eqi(e.t, k)))), facts)
    h.add("some list is accepted", acc == 1, "path", str(acc))


@contract("C01", "group.get_little_group")
def selection(h):
    n = h.dim("n")
    R, w, k = h.arr("R", (n, 3, 3), "int"), h.arr("w", (n, 3)), h.arr("k", (3,))
    h.ctx.real.add("atol")
    t = flags(h, n)
    h.ctx.real.add("atol")
    for label, args in (("spinless", {}), ("with time reversal", {"time_reversals": t})):
        for facts, v in h.only_return(label, h.run([R, w, k], {"atol": atom("atol"), **args})):
            def spec(i):
                def c(a):
                    b = fresh(3)
                    s = (Poly.const(1) - Poly.base(("I", Cond("anti", (i,)))) * 2) if args else Poly.const(1)
                    r = (atom("R", i, b, a) * atom("k", b)).sum(b) - s * atom("k", a)
                    return cmp("le", fun("abs", r - fun("rint", r)), atom("atol"))
                return mk_and(*[c(a) for a in range(3)])
            ok = isinstance(v, tuple) and len(v) == 3
            h.add(f"{label}: three results", ok, "path", repr(v))
            if ok:
                for m, (x, rest, val) in enumerate(zip(v, ((3, 3), (3,), ()), (lambda i, a: atom("R", i, *a), lambda i, a: atom("w", i, *a),
                                                                              lambda i, a: Ix(i)))):
                    selected(h, f"{label}: result {m}", x, n, rest, spec, val, facts, [Cond("anti", (fresh(n),))] if False else None)
    h.frame()


def selected(h, label, x, n, rest, spec, val, facts, cases=None):
    """x lists val(i) for exactly the i in n with spec(i), in order."""
    d = x.shape[0] if isinstance(x, Arr) else None
    ok = isinstance(d, Dim) and (d == n or getattr(d, "parent", None) == n) and x.shape[1:] == rest
    h.add(f"{label} is a selection in input order", ok, "path", repr(x))
    if not ok:
        return
    i = fresh(n)
    c = d.cond(i) if d != n else TRUE
    for f in (Cond("anti", (i,)), mk_not(Cond("anti", (i,)))):
        h.iff_cases(f"{label}: selected iff it fixes k, {f.op}", c, spec(i), facts, f)
    f = fresh(d)
    idx = tuple(fresh(q) for q in rest)
    e = h.el(x, f, *idx)
    r = val(f, idx)
    if isinstance(r, Ix):
        h.same_index(f"{label}: element", e, r)
    else:
        h.eq(f"{label}: element", e, r)


@contract(("C14", "C08"), "group.decompose_by_maximal_space_subgroup")
def cosets(h):
    """Magnetic group M = D u D a0: lists D in input order, a0 the first operation with time reversal, and for each of D
    the position of its product with a0 (modulo lattice translations)."""
    G = h.group()
    R, w = h.arr("R", (G, 3, 3), "int"), h.arr("w", (G, 3))
    affine(h.ctx)
    t = flags(h, G)
    h.req("operations closed modulo integer translations, with time-reversal parts a homomorphism")
    h.ip.witness = lambda g, ls: [gmul(a, b) for a in ls for b in ls if a != b]
    x = fresh(G)
    anyanti = mk_ex(x, Cond("anti", (x,)))
    kinds = set()
    for facts, v in h.only_return("total", h.run([R, w, t])):
        if v is None:
            kinds.add("type I")
            h.true("None only for type I", mk_not(anyanti), facts)
            continue
        kinds.add("other")
        h.true("decomposed unless type I", anyanti, facts)
        ok = isinstance(v, tuple) and len(v) == 3 and isinstance(v[0], LList) and isinstance(v[1], LList) and isinstance(v[2], Ix)
        h.add("three results", ok, "path", repr(v))
        if not ok:
            continue
        a0 = v[2].t
        h.true("a0 has time reversal", Cond("anti", (a0,)), facts)
        (k, (vs, it)), (k2, (vs2, it2)) = h.with_facts(facts, lambda: (h.ip.iter_spec(v[0]), h.ip.iter_spec(v[1])))
        d = vs[0][2]
        ok = d.parent == G and it == Ix(vs[0])
        h.add("first list: a selection in input order", ok, "path", repr(it))
        i = fresh(G)
        h.iff("first list: exactly the operations without time reversal", d.cond(i), mk_not(Cond("anti", (i,))), facts)
        h.add("second list: one entry per entry of the first", vs2[0][2] == d and isinstance(it2, Ix), "path", repr((vs2, d)))
        f, a, b = vs2[0], fresh(3), fresh(3)
        if it2.t[0] == "f":                       # found by a search: lemma that the search succeeds
            fv, y, e = h.ip.choice_defs[it2.t[1]]
            found = ctx_simplify_cond(h.ctx, mk_ex(y, e.subst(dict(zip(fv, it2.t[2])))))
            if h.true("second list: the product is found", found, facts):
                facts = facts + [found]
        h.true("second list: time reversal", Cond("anti", (it2.t,)), facts)
        prod = gmul(f, a0)
        close = lambda x, y: Cond("close", (x, y, Poly.const(Fr(1, 10 ** 5)), Poly.const(Fr(1, 10 ** 8))))
        for a in range(3):
            for b in range(3):
                h.true(f"second list: rotation of the product {a}{b}", close(atom("R", prod, a, b), atom("R", it2.t, a, b)), facts)
            x = atom("w", prod, a) - atom("w", it2.t, a)
            h.true(f"second list: translation of the product {a} modulo 1", cmp("le", fun("abs", x - fun("rint", x)), Poly.const(Fr(1, 10 ** 8))), facts)
    h.add("both results", kinds == {"type I", "other"}, "path", repr(kinds))
    h.frame()
