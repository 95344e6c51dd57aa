"""Projection of a representation onto an irrep."""
from api import *  # noqa
from api_oracle import *  # noqa
from contracts.decomp_c import unitary_hom


def sqrt_factors(p):
    return sorted({f for (b, fs), _ in p.items() for f, q in fs if f[0] == "F" and f[1] == "sqrt"}, key=repr)



def counters(env, st):
    return [n for n in assigned_names(st) if isinstance(env.get(n), int) and not isinstance(env.get(n), bool)]


@contract("C11", "representation.project_to_irrep")
def projections(h):
    """Every set of vectors returned is a normalised projection b_i = (dim/|G|) sum_k conj(X(k)_ij) A(k) e_n of some basis vector
    e_n that is not close to zero; the rows are orthonormal and transform as row i of X; a further set is kept exactly if its
    distance from the span of those kept before is at least 1/2; the sets returned are those of the last trial."""
    G, d, e, T = h.group(), h.dim("d"), h.dim("e"), h.dim("trials")
    A, X = h.arr("A", (G, d, d), "complex"), h.arr("X", (G, e, e), "complex")
    h.ctx.cocycle["W"] = "W"
    h.ctx.unimod_phi.add("W")
    unitary_hom(h, "A", d, "W")
    unitary_hom(h, "X", e, "W")
    h.req("A a unitary representation and X a unitary irrep with the same factor system of modulus one")
    h.req("paper lemma (Schur): sum_k X(k)_ab conj(X(k)_cd) = |G|/dim X delta_ac delta_bd")
    h.req("contract of grassmann_distance (C19)")
    ip = h.ip
    h.ctx.real.update(("dist", "tol"))
    asked = []

    def grass(ip, env):
        asked.append(env)
        if set(k for k, v in env.items() if isinstance(v, Arr)) != {"basis1", "basis2"}:
            raise Undecided("arguments of grassmann_distance")
        return atom("dist")
    ip.contracts["utils.grassmann_distance"] = grass
    B = Dim("B")
    G_ = fresh(G)
    info = {}

    def template(n, j):
        """The set appended in iteration (n, j)."""
        m = {info["n"]: n, info["j"]: j}
        return vsubst(info["tpl"], m)
    u = lambda q, v: ("f", f"kept{q}", (v,), d if q == 0 else e)

    def inner(st, env, j, item):
        """One projection on an arbitrary list of kept ones: at most one append, of the value appended to an empty list."""
        lists = [n for n, x in env.items() if isinstance(x, LList) and x is info.get("list")]
        name, = lists or [None]

        def body(ev):
            ip.assign(st.target, item, ev)
            ip.exec_block(st.body, ev)
        for empty in (True, False):
            env0 = dict(env)
            if empty:
                lst = LList(items=[])
                count = 0
            else:
                v = fresh(B)
                lst = LList(sym=(B, v, template(u(0, v), u(1, v))))
                count = size_atom(B)
            env0[name] = lst
            for c in counters(env, st):
                env0[c] = count
            cs = counters(env, st)
            kept = dropped = 0
            for k, (c, out, fr, ev) in enumerate(ip.body_paths(body, env0)):
                if not h.feasible([c]):
                    continue
                ap = [x for x in fr.log if x[0] == "append" and x[1] is lst]
                lab = f"{'first set' if empty else 'further set'} "
                h.add(f"{lab}only appends.{k}", out == ("end",) and len(ap) == len(fr.log) <= 1, "path", repr((out, fr.log))[:300])
                for n in cs:
                    h.add(f"{lab}counted.{k}", equal(h.ctx, num(ev[n]), num(count) + (1 if ap else 0)), "normaliser", repr(ev[n]))
                a, b = fresh(e), fresh(d)
                g = fresh(G)
                raw = (atom("X", g, a, j).conj(h.ctx) * atom("A", g, b, info["n"])).sum(g) * size_atom(e) * size_atom(G).inverse()
                zero = ip.np_call("numpy.allclose", [ip.mk((e, d), lambda i: raw.subst({a: i[0], b: i[1]})), 0], {"atol": atom("tol")})
                far = TRUE if empty else mk_not(cmp("lt", atom("dist"), Poly.const(Fr(1, 2))))
                h.iff(f"{lab}kept exactly if not zero and far from the others.{k}", mk_and(mk_not(ip.as_cond(zero)), far), TRUE if ap else FALSE, [c])
                if not ap:
                    dropped += 1
                    continue
                kept += 1
                val = ip.frozen(ip.to_arr(ap[0][2]))
                if empty:
                    info["tpl"], info["j"] = val, j
                ok = val.shape == (e, d)
                h.add(f"{lab}shape.{k}", ok, "path", repr(val))
                if ok:
                    nrm = fun("sqrt", normalise(h.ctx, (raw * raw.conj(h.ctx)).sum(b)))
                    h.eq(f"{lab}normalised projection.{k}", h.el(val, a, b), raw * nrm.inverse())
            h.add(f"{'first' if empty else 'further'} sets are kept and dropped", bool(kept) and bool(dropped), "path", f"{kept} {dropped}")
        last = asked[-1] if asked else {}
        a, b, v = fresh(e), fresh(d), fresh(B)
        b1, b2 = last.get("basis1"), last.get("basis2")
        ok = b1 is not None and b1.shape == (e, d) and b2.shape == (PDim((B, e)), d)
        h.add("distance of the candidate from the kept sets: shapes", ok, "path", repr((b1, b2)))
        if ok:
            h.eq("distance of the candidate", h.el(b1, a, b), h.el(info["tpl"], a, b))
            h.eq("distance from all kept sets", h.el(b2, ("p", (v, a)), b), h.el(template(u(0, v), u(1, v)), a, b))
        for c in counters(env, st):
            env[c] = size_atom(B)
        return True

    def loop(ip, st, env, vs, item):
        if len(vs) != 1:
            return False
        v, = vs
        if v[2] == T:
            # one trial with an arbitrary tolerance; the state after the loop is that of a trial
            env0 = dict(env)
            tols = [n for n in assigned_names(st) if n in env and not isinstance(env[n], LList)]
            for n in tols:
                env0[n] = atom("tol")
            ends = ip.body_paths(lambda ev: (ip.assign(st.target, item, ev), ip.exec_block(st.body, ev)), env0)
            ends = [x for x in ends if h.feasible([x[0]])]
            h.add("every trial ends", bool(ends) and all(x[1][0] in ("end", "brk") for x in ends), "path", repr([x[1] for x in ends]))
            h.add("a trial changes nothing but its own lists", all(not fr.log for _, _, fr, _ in ends), "path")
            ga, gb = fresh(e), fresh(d)
            mult = (atom("X", G_, ga, ga).sum(ga).conj(h.ctx) * atom("A", G_, gb, gb).sum(gb)).sum(G_)
            mult = fun("rint", normalise(h.ctx, fun("re", normalise(h.ctx, h.nearest(mult) * size_atom(G).inverse()))))
            for x in ends:
                cnt = size_atom(B)
                h.iff("no further trial exactly if as many sets as the multiplicity were found", cmp("eq", cnt, mult), TRUE if x[1][0] == "brk" else FALSE, [x[0]])
                if x[1][0] == "end":
                    low = h.with_facts([x[0]], lambda: ip.decide(cmp("lt", cnt, mult)))
                    new = [x[3][n] for n in tols if x[3].get(n) is not env0[n]]
                    lim = Fr(1, 10 ** 10) if low else Fr(1, 100)
                    want = fun("sqrt", normalise(h.ctx, atom("tol") * lim))
                    h.add(f"the tolerance is {'tightened' if low else 'loosened'}", low is not None and len(new) == 1 and
                          equal(h.ctx, num(new[0]), want), "normaliser", repr((low, new)))
            env.update(ends[0][3])
            for n in tols:
                env[n] = atom("tol")
            return True
        if v[2] == d and "list" not in info:
            lists = [(n, x) for n, x in env.items() if isinstance(x, LList) and x.sym is None and not x.items]
            if len(lists) != 1:
                raise Undecided("list of kept sets")
            info["n"], (name, info["list"]) = v, lists[0]
            cs = counters(env, st)
            h.add("counting starts at zero", all(env[c] == 0 for c in cs), "path")
            ip.body_paths(lambda ev: (ip.assign(st.target, item, ev), ip.exec_block(st.body, ev)), env)
            if "tpl" not in info:
                raise Undecided("no set kept")
            w = fresh(B)
            env[name] = LList(sym=(B, w, template(u(0, w), u(1, w))))
            for c in cs:
                env[c] = size_atom(B)
            info["result"] = env[name]
            del info["list"]
            return True
        if v[2] == e and "list" in info:
            return inner(st, env, v, item)
        return False
    ip.loop_hook = loop
    n = 0
    for facts, v in h.only_return("total", h.run([A, X], {"max_num_trials": DimVal(T)})):
        if isinstance(v, LList) and v.sym is None and not v.items:
            g, a, b = fresh(G), fresh(e), fresh(d)
            mult = (atom("X", g, a, a).sum(a).conj(h.ctx) * atom("A", g, b, b).sum(b)).sum(g)
            want = fun("rint", normalise(h.ctx, fun("re", normalise(h.ctx, h.nearest(mult) * size_atom(G).inverse()))))
            h.true(f"empty exactly if the multiplicity is zero.{n}", cmp("eq", want, Poly.const(0)), facts)
        else:
            h.add(f"sets of the last trial.{n}", isinstance(v, LList) and v.sym is not None and v.sym[0] == B, "path", repr(v)[:200])
        n += 1
    h.add("sets are returned", "result" in info, "path")
    # law of a generic set
    if "tpl" in info:
        t = info["tpl"]
        nn, j = info["n"], info["j"]
        g, a, a2, b, c = fresh(G), fresh(e), fresh(e), fresh(d), fresh(d)
        k, l, q = fresh(G), fresh(G), fresh(e)
        f = sqrt_factors(normalise(h.ctx, num(h.el(t, a, b))))
        h.add("one norm per row", len(f) == 1, "path", repr(f))
        if len(f) == 1:
            gram = (atom("X", k, a, j) * atom("X", k, a2, q).conj(h.ctx)).sum(k)          # Schur: |G|/dim delta(a,a2) delta(j,q)
            rest = atom("X", l, q, j).conj(h.ctx) * atom("A", l, nn, nn)
            scale = size_atom(e) * size_atom(e) * size_atom(G).inverse() * size_atom(G).inverse()
            term = lambda z, x, y: num(vsubst(atom("X", g, x, j).conj(h.ctx) * atom("A", g, y, nn), {g: z}))
            raw = lambda x, y: term(g, x, y).sum(g) * size_atom(e) * size_atom(G).inverse()
            # the two sums run over k and k l (k l runs over the group with l)
            h.eq("Gram matrix of a set in terms of the orthogonality sums of the irrep",
                 scale * (term(k, a, c).conj(h.ctx) * term(gmul(k, l), a2, c)).sum(c).sum(k).sum(l), scale * (gram * rest).sum(l).sum(q))
            h.eq("norm is the root of the Gram diagonal", f[0][2][0], normalise(h.ctx, (raw(a, c) * raw(a, c).conj(h.ctx)).sum(c)))
            # by Schur's lemma the diagonal does not depend on the row
            h.ctx.real.add("nrm")
            row = lambda x, y: num(h.el(t, x, y)) * Poly.base(vsubst_factor(f[0], a, x)) * atom("nrm").inverse()
            h.eq("transforms as the irrep", (atom("A", g, b, c) * row(a, c)).sum(c), (row(a2, b) * atom("X", g, a2, a)).sum(a2))
    h.frame()


@contract(("C11", "C21"), "representation.project_to_irrep")
def shapes_rejected(h):
    """Arrays that are not families of square matrices over the same group are rejected."""
    G, K, d, d2, e, e2 = h.group(), h.dim("K"), h.dim("d"), h.dim("d2"), h.dim("e"), h.dim("e2")
    for lab, s1, s2, x, y in (("orders differ", (K, d, d), (G, e, e), K, G), ("representation not square", (G, d, d2), (G, e, e), d, d2),
                              ("irrep not square", (G, d, d), (G, e, e2), e, e2)):
        A, X = h.arr("A", s1, "complex"), h.arr("X", s2, "complex")
        res = h.run([A, X], assume=[mk_not(cmp("eq", size_atom(x), size_atom(y)))])
        h.add(lab, bool(res) and all(o[0] == "exc" and o[1].etype == "ValueError" for _, o in res), "path", repr([o for _, o in res])[:300])


def vsubst_factor(f, a, x):
    (b, fs), = [k for k, _ in Poly.base(f).subst({a: x}).items()]
    return fs[0][0]
