"""Contracts on the decomposition of representations by commuting matrices."""
import numpy_model
from api import *
from api_oracle import *
def unitary_hom(h, name, dim, proj=None):
    h.ctx.hom[name] = {"dim": dim, "unitary": True, **({"proj": proj} if proj else {})}


def found_irreps(h, G, calls, rep_name):
    """Contract of _get_irreps_from_matrix: some list of families of matrices, any of which is X."""
    def c(ip, env):
        rep, matrix = env["reg"], env["matrix"]
        n = len(calls)
        N, d = Dim(f"N{n}"), Dim(f"d{n}")
        v = fresh(N)
        r = LList(sym=(N, v, mkarr((G, d, d), lambda i: atom(f"X{n}", v, *i))))
        calls.append({"rep": rep, "matrix": matrix, "result": r, "N": N, "d": d, "name": f"X{n}"})
        return r
    h.ip.contracts["irreps._get_irreps_from_matrix"] = c


def commutes(h, lab, name, M, d, G, facts=()):
    g, i, j, m = fresh(G), fresh(d), fresh(d), fresh(d)
    h.eq(lab, (atom(name, g, i, m) * num(h.el(M, m, j))).sum(m), (num(h.el(M, i, m)) * atom(name, g, m, j)).sum(m), facts)


def hermitian(h, lab, M, d, facts=()):
    i, j = fresh(d), fresh(d)
    h.eq(lab, num(h.el(M, i, j)).conj(h.ctx), h.el(M, j, i), facts)


def generic_average(h, lab, rep, M, d, G):
    """M is the average over the group of a Hermitian matrix with independent random real and imaginary parts."""
    import re
    i, j, k, l, m = fresh(d), fresh(d), fresh(d), fresh(d), fresh(G)
    names = sorted(set(re.findall(r"rnd\d+", repr(normalise(h.ctx, num(h.el(M, i, j)))))))
    ok = False
    I = Poly.const(0, 1)
    for a, b in itertools.permutations(names, 2):
        for s, t in ((k, l), (l, k)):
            H = atom(a, s, t) + atom(a, t, s) + I * (atom(b, s, t) - atom(b, t, s))
            avg = (num(h.el(rep, m, i, k)) * H * num(h.el(rep, m, j, l)).conj(h.ctx)).sum(k).sum(l).sum(m)
            ok = ok or equal(h.ctx, num(h.el(M, i, j)), avg)
    h.add(lab, ok, "normaliser", repr(names))


@contract("C18", "irreps.decompose_representation")
def decomposes(h):
    """The matrix whose eigenspaces are examined is Hermitian and commutes with the representation (any factor system of modulus
    one), so its eigenspaces are invariant; a list is returned only if the multiplicities found from the characters account for
    the whole dimension; otherwise the next random matrix is tried and the empty list is the last resort."""
    G, d = h.group(), h.dim("d")
    A = h.arr("A", (G, d, d), "complex")
    h.ctx.cocycle["W"] = "W"
    h.ctx.unimod_phi.add("W")
    unitary_hom(h, "A", d, "W")
    h.req("unitary representation with a factor system of modulus one")
    h.req("contract of _get_irreps_from_matrix (below) for the returned families")
    trials = 2
    calls = []
    found_irreps(h, G, calls, "A")
    accepted = 0
    for n, (facts, v) in enumerate(h.only_return("total", h.run([A], {"max_num_random_generations": trials}))):
        if isinstance(v, LList) and v.sym is None and not v.items:
            h.add(f"gives up only after all trials.{n}", sum("sum" in repr(f) or f.op in ("not", "eq") for f in facts) >= trials, "path", repr(facts)[:300])
            continue
        c = [x for x in calls if x["result"] is v]
        h.add(f"returns the families found.{n}", len(c) == 1, "path", repr(v)[:200])
        if len(c) != 1:
            continue
        c, = c
        accepted += 1
        h.add(f"families of the given representation.{n}", c["rep"] is A, "path")
        commutes(h, f"matrix commutes with the representation.{n}", "A", c["matrix"], d, G, facts)
        hermitian(h, f"matrix is Hermitian.{n}", c["matrix"], d, facts)
        generic_average(h, f"matrix is the group average of a generic Hermitian matrix.{n}", A, c["matrix"], d, G)
        x, g, i, j = fresh(c["N"]), fresh(G), fresh(c["d"]), fresh(d)
        chi = atom(c["name"], x, g, i, i).sum(i)
        psi = atom("A", g, j, j).sum(j)
        inner = (chi.conj(h.ctx) * psi).sum(g)
        mult = fun("rint", normalise(h.ctx, fun("re", normalise(h.ctx, inner)) * size_atom(G).inverse()))
        tot = (mult * size_atom(c["d"])).sum(x)
        h.true(f"accepted only if the multiplicities account for the dimension.{n}", cmp("eq", tot, size_atom(d)), facts)
    h.add("every trial can be accepted", accepted == trials, "path", str(accepted))
    h.frame()


@contract(("C04", "C18"), "irreps.enumerate_unitary_irreps_from_regular_representation")
def regular_decomposed(h):
    """For a projective regular representation reg[k,i,j] = [k j = i] W(k,j): the matrix whose eigenspaces are examined is Hermitian
    and commutes with reg; a list is returned only if the squared dimensions add up to the order."""
    G = h.group()
    h.ctx.cocycle["W"] = "W"
    h.ctx.unimod.add("W")
    h.ctx.unimod_phi.add("W")
    W = lambda a, b: atom("W", a, b)
    reg = mkarr((G, G, G), lambda i: delta(gmul(i[0], i[2]), i[1]) * W(i[0], i[2]))
    reg.name = "reg"
    h.req("projective regular representation with a factor system of modulus one (contract of get_projective_regular_representation)")
    h.req("contract of _get_irreps_from_matrix (below) for the returned families")

    def nonzero(ip, a):
        # row [m, i, :] of reg: the only non-zero entry is at m^-1 i
        j = fresh(a.shape[0])
        p = normalise(h.ctx, num(h.el(a, j)))
        if len(p.d) != 1:
            raise Undecided("nonzero of a sum")
        ((b, fs), c), = p.d.items()
        ds = [f for f, q in fs if f[0] == "D" and (occ(j, f[1]) != occ(j, f[2]))]
        rest = [f for f, q in fs if f[0] != "D"]
        if b or len(ds) != 1 or any(f[0] not in ("A", "phi") for f in rest):
            raise Undecided("nonzero of an unknown row")
        k, e = (ds[0][1], ds[0][2]) if occ(j, ds[0][1]) else (ds[0][2], ds[0][1])
        e = e if k == j else solve_for(j, k, e)
        if e is None:
            raise Undecided("nonzero: position")
        return (ip.mk((1,), lambda i: Ix(e)),)
    h.ip.nonzero_hook = nonzero
    trials = 2
    calls = []
    found_irreps(h, G, calls, "reg")
    accepted = 0
    for n, (facts, v) in enumerate(h.only_return("total", h.run([reg], {"max_num_random_generations": trials}))):
        if isinstance(v, LList) and v.sym is None and not v.items:
            continue
        c = [x for x in calls if x["result"] is v]
        h.add(f"returns the families found.{n}", len(c) == 1, "path", repr(v)[:200])
        if len(c) != 1:
            continue
        c, = c
        accepted += 1
        h.add(f"families of the given representation.{n}", c["rep"] is reg, "path")
        g, i, j, m = fresh(G), fresh(G), fresh(G), fresh(G)
        M = c["matrix"]
        h.eq(f"matrix commutes with the regular representation.{n}", (num(h.el(reg, g, i, m)) * num(h.el(M, m, j))).sum(m),
             (num(h.el(M, i, m)) * num(h.el(reg, g, m, j))).sum(m), facts)
        hermitian(h, f"matrix is Hermitian.{n}", M, G, facts)
        generic_average(h, f"matrix is the group average of a generic Hermitian matrix.{n}", reg, M, G, G)
        x = fresh(c["N"])
        tot = (size_atom(c["d"]) ** 2).sum(x)
        h.true(f"accepted only if the squared dimensions add up to the order.{n}", cmp("eq", tot, size_atom(G)), facts)
    h.add("every trial can be accepted", accepted == trials, "path", str(accepted))
    h.frame()


@contract(("C04", "C18"), "irreps._get_irreps_from_matrix")
def eigenspaces(h):
    """For a matrix commuting with the representation every family returned is T^dagger rho T for a matrix T with orthonormal
    columns spanning a space of eigenvectors; it is kept exactly if sum |chi|^2 equals the order (irreducible) and its character
    is not that of a family kept before."""
    from loops import growing_lists
    G, d = h.group(), h.dim("d")
    A, M = h.arr("A", (G, d, d), "complex"), h.arr("M", (d, d), "complex")
    h.req("numpy.linalg.eigh returns orthonormal eigenvectors; numpy.linalg.qr orthonormal columns with the same span")
    S, m = Dim("spaces"), Dim("m")
    ip = h.ip
    state = {"qr": []}
    k = fresh(S)

    def spaces(a):
        return sorted({x for x in vars_of(num(h.el(a, fresh(d), fresh(m)))) if x[2] == S}, key=skey)

    def linalg(ip, n, args, kw):
        if n == "linalg.eigh":
            h.add("eigenvectors of the given matrix", args[0] is M, "path", repr(args))
            return (mkarr((d,), lambda i: atom("lam", *i)), mkarr((d, d), lambda i: atom("V", *i)))
        if n == "linalg.qr":
            a = ip.to_arr(args[0])
            state["qr"].append(a)
            sp = spaces(a)
            if a.shape != (d, m) or len(sp) != 1:
                raise Undecided(f"qr of {a!r}")
            return (ip.mk((d, m), lambda i: atom("T", sp[0], *i)), Opaque("R"))
        raise Undecided(n)
    ip.linalg_hook = linalg
    h.ctx.real.add("lam")

    def admissible(x):
        c = chi_of(x)
        return numpy_model.equal_numbers(h.ctx, h.nearest((c(g).conj(h.ctx) * c(g)).sum(g)), size_atom(G))
    g = fresh(G)

    def chi_of(x):
        a, = [v for v in x.values() if isinstance(v, Arr) and v.shape == (G,)]
        return lambda g: num(h.el(a, g))

    def related(x, y):
        from numpy_model import close
        a, b = chi_of(x), chi_of(y)
        pr = h.nearest((a(g).conj(h.ctx) * b(g)).sum(g))
        return close(ip, pr, size_atom(G), num(state["rtol"]), Poly.const(Fr(1, 10 ** 8)))
    info = growing_lists(h, "", related, admissible)
    second = ip.loop_hook

    def loops(ip, st, env, vs, item):
        if vs[0][2] == d and "grouped" not in state:
            # grouping of the eigenvectors by eigenvalue: executed for one generic eigenvector on an arbitrary list of groups
            state["grouped"] = True
            lists = [(n, x) for n, x in env.items() if isinstance(x, LList) and x.sym is None and not x.items]
            if len(lists) != 1:
                raise Undecided("grouping of eigenvectors")
            name = lists[0][0]
            sp, q = fresh(S), fresh(m)
            vec = mkarr((d,), lambda i: atom("B", sp, q, *i))
            env[name] = LList(sym=(S, sp, (atom("mu", sp), LList(sym=(m, q, vec)))))
            h.ctx.real.add("mu")
            grouping(name, lists[0][1], vs[0], env[name], lambda e: (ip.assign(st.target, item, e), ip.exec_block(st.body, e)), env)
            return True
        if vs[0][2] == S and "U" not in info:
            return second(ip, st, env, vs, item)
        return False
    def grouping(name, empty, e, groups, body, env):
        from numpy_model import close
        closeness = lambda s: close(ip, atom("lam", e), atom("mu", s), num(state["rtol"]), Poly.const(Fr(1, 10 ** 8)))
        a = fresh(d)

        def pair(x, vec):
            return isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], LList) and x[1].items is not None and len(x[1].items) == 1 \
                and equal(h.ctx, num(x[0]), atom("lam", e)) and equal(h.ctx, num(h.el(x[1].items[0], a)), atom("V", a, e))
        first = ip.body_paths(body, dict(env, **{name: empty}))
        for c, out, fr, _ in first:
            ap = [x for x in fr.log if x[0] == "append"]
            h.add("first eigenvector starts a group", out == ("end",) and len(ap) == len(fr.log) == 1 and ap[0][1] is empty and pair(ap[0][2], e),
                  "path", repr(fr.log)[:300])
        kinds = set()
        for n, (c, out, fr, _) in enumerate(ip.body_paths(body, env)):
            if not h.feasible([c]):
                continue
            ap = [x for x in fr.log if x[0] == "append"]
            h.add(f"eigenvector is put in one group.{n}", out == ("end",) and len(ap) == len(fr.log) == 1, "path", repr((out, fr.log))[:300])
            if len(ap) != 1:
                continue
            if ap[0][1] is groups:
                kinds.add("new")
                h.add("new group of the eigenvector and its eigenvalue", pair(ap[0][2], e), "path", repr(ap)[:300])
                s = fresh(S)
                h.true("new group only if the eigenvalue is not close to that of a group", mk_all(s, mk_not(closeness(s))), [c])
            else:
                kinds.add("old")
                lst = ap[0][1]
                h.add("the eigenvector is added", isinstance(ap[0][2], Arr) and equal(h.ctx, num(h.el(ap[0][2], a)), atom("V", a, e)), "path", repr(ap)[:300])
                t = lst.sym[2] if lst.sym is not None else None
                sp = spaces_of(t) if t is not None else []
                h.add("to the list of an existing group", len(sp) == 1, "path", repr(lst))
                if len(sp) == 1:
                    h.true("whose eigenvalue is close", closeness(sp[0]), [c])
        h.add("both cases of the grouping", kinds == {"new", "old"}, "path", repr(kinds))

    def spaces_of(t):
        p = num(h.el(t, fresh(d)))
        return [f[2][0] for (b, fs), _ in p.items() for f, _ in fs if f[0] == "A" and f[1] == "B"]
    ip.loop_hook = loops
    state["rtol"] = atom("rtol")
    h.ctx.real.add("rtol")
    n = 0
    for facts, v in h.only_return("total", h.run([A, M], {"rtol": atom("rtol")})):
        ok = isinstance(v, LList) and v.sym is not None and v.sym[0] == info.get("U")
        h.add(f"list of kept families.{n}", ok, "path", repr(v)[:300])
        if not ok:
            continue
        U, var, t = v.sym
        ok = isinstance(t, Arr) and t.shape == (G, m, m)
        h.add(f"families of square matrices.{n}", ok, "path", repr(t))
        if not ok:
            continue
        x, g, i, j, a, b = fresh(U), fresh(G), fresh(m), fresh(m), fresh(d), fresh(d)
        el = num(h.el(vsubst(t, {var: x}), g, i, j))
        sp = sorted({y for y in index_terms_of_poly(el) if y[0] == "f" and y[3] == S and y[1].startswith("u")}, key=skey)
        h.add(f"one eigenspace per family.{n}", len(sp) == 1, "path", repr(sp))
        if sp:
            T = lambda a, i: atom("T", sp[0], a, i)
            chi, = [y for y in info["tpl"].values() if isinstance(y, Arr) and y.shape == (G,)]
            perm = sp[0][2][0]
            tr = (T(a, i).conj(h.ctx) * atom("A", g, a, b) * T(b, i)).sum(a).sum(b).sum(i)
            h.eq(f"character compared: that of the family.{n}", num(h.el(vsubst(chi, {info["i"]: sp[0]}), g)), tr)
            h.eq(f"family: T^dagger rho T.{n}", el, (T(a, i).conj(h.ctx) * atom("A", g, a, b) * T(b, j)).sum(a).sum(b))
        n += 1
    for a_ in state["qr"][:1]:
        q, a = fresh(m), fresh(d)
        sp = spaces(a_)[0]
        h.eq("T spans the eigenvectors of the group", h.el(a_, a, q), atom("B", sp, q, a))
    h.add("orthonormalised", bool(state["qr"]), "path")
    h.frame()


def index_terms_of_poly(p):
    from contracts.pointgroup_c import index_terms_of
    acc = []
    for (b, fs), _ in p.items():
        for f, _ in fs:
            index_terms_of(f, acc)
    return acc
