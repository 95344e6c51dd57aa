"""Contracts on spgrep.tensor."""
from api import *  # noqa
from api_oracle import *  # noqa
from interp import assigned_names


def rewriting(find):
    """Rule from find(ctx, bound, factors) -> (positions consumed, bound variables consumed, replacement Poly) or None."""
    def rule(ctx, bound, factors):
        r = find(ctx, bound, factors)
        if r is None:
            return None
        pos, vs, new = r
        rest = [x for n, x in enumerate(factors) if n not in pos]
        out = Poly()
        for (b3, f3), c3 in new.items():
            out = out + Poly({(tuple(v for v in bound if v not in vs) + b3, mulfac(sortfac(rest), f3)): c3})
        return out
    return rule


def named(factors, name):
    return [(n, f) for n, (f, p) in enumerate(factors) if f[0] == "A" and f[1] == name and p == 1]


def transforms(h, name, op, X, d, lead=1):
    """sum_c op(g; b..; c..) name[y; a; c..] = sum_a' name[y; a'; b..] X[x; g; a'; a], op a product of matrices: one (name, member
    indices?) per slot."""
    def find(ctx, bound, factors):
        for n, f in named(factors, name):
            y, a, cs = f[2][:lead], f[2][lead], f[2][lead + 1:]
            cs = cs[0][1] if len(cs) == 1 and isinstance(cs[0], tuple) and cs[0][0] == "p" else cs
            if len(cs) != len(op) or any(c not in bound or count_occ(c, factors) != 2 for c in cs):
                continue
            got, g, bs = [], None, []
            for c, (o, _) in zip(cs, op):
                k = [(m, e) for m, e in named(factors, o) if m not in got and e[2][-1] == c and e[3] == f[3] and (g is None or e[2][-3] == g)]
                if not k:
                    break
                got.append(k[0][0])
                g = k[0][1][2][-3]
                bs.append(k[0][1][2][-2])
            if len(got) < len(op):
                continue
            q = 0 if d == 1 else fresh(d)
            slots = (("p", tuple(bs)),) if len(f[2]) == lead + 2 and len(bs) > 1 else tuple(bs)
            new = atom(name, *y, q, *slots) * atom(X[0], *X[1](y), g, q, a)
            new = new if d == 1 else new.sum(q)
            return [n] + got, list(cs), new.conj(ctx) if f[3] else new
        return None
    h.ctx.rules.append(rewriting(find))


def orthonormal(h, name, slots, lead=1):
    """sum_c name[y; a; c..] conj(name[y; a'; c..]) = delta(a, a')."""
    def find(ctx, bound, factors):
        for (n, f), (m, e) in itertools.permutations(named(factors, name), 2):
            if f[3] or not e[3] or f[2][:lead] != e[2][:lead] or f[2][lead + 1:] != e[2][lead + 1:]:
                continue
            cs = f[2][lead + 1:]
            cs = cs[0][1] if len(cs) == 1 and isinstance(cs[0], tuple) and cs[0][0] == "p" else cs
            if any(c not in bound or count_occ(c, factors) != 2 for c in cs):
                continue
            return [n, m], list(cs), delta(f[2][lead], e[2][lead])
        return None
    h.ctx.rules.append(rewriting(find))


@contract("C12", "tensor.get_symmetry_adapted_tensors")
def adapted(h):
    """Induction over the rank: every vector and tensor basis collected is orthonormal and transforms as its irrep; those of rank p+1 are
    built from all pairs of a tensor basis of rank p and a vector basis and all sets projecting their product on each irrep; returned
    are exactly the bases of one-dimensional irreps equivalent to the identity, and these are invariant and normalised."""
    for rank in (1, 2, 3, 4, None):
        for real in (False, True):
            adapted_rank(h, rank, real)
    h.req("rank at least 1")
    h.req("contract of project_to_irrep (C11): orthonormal rows transforming as the irrep; contract of enumerate_unitary_irreps (C04, C09)")


def adapted_rank(h, rank, real):
    h.ctx = Ctx()
    h.ip = Interp(h.ctx)
    h.ip.deadline = time.time() + 60
    ip = h.ip
    G, m, N = h.group(), h.dim("m"), h.dim("N")
    d1, d2, d3 = h.dim("d1"), h.dim("d2"), h.dim("d3")
    A = h.arr("A", (G, m, m), "complex")
    R = h.arr("R", (G, 3, 3), "int")
    h.ctx.real.add("atol")
    lab = f"{'any rank' if rank is None else f'rank {rank}'}{', real' if real else ''}: "
    # with any rank, the axes of a tensor of rank p are taken together, and A x .. x A (p times) is the one matrix AX
    E = Several("mp")
    h.ctx.integer.add("rank")
    h.ctx.real.add("rank")
    x = fresh(N)
    fam = lambda nm, v, d: mkarr((G, d, d), lambda i: atom(nm, v, *i))
    irreps = LList(sym=(N, x, fam("X3", x, d3)))
    asked = []
    V, NT = h.dim("V"), {}
    st_ = {"p": 0, "log": []}

    def enumerate_(ip, env):
        h.add(lab + "irreps of the given rotations without factor system", env["rotations"] is R and env.get("factor_system") is None and
              env["real"] is real, "path", repr(env)[:200])
        return irreps, Opaque("indicators")
    ip.contracts["irreps.enumerate_unitary_irreps"] = enumerate_

    def project(ip, env):
        asked.append(dict(env))
        rep, irr = env["representation"], env["irrep"]
        if not isinstance(env["atol"], Poly) or env["atol"] != atom("atol"):
            raise Undecided("tolerance of the projection")
        C = h.dim("C")
        c = fresh(C)
        e = irr.shape[1]
        r = LList(sym=(C, c, mkarr((e, rep.shape[1]), lambda i: atom("C", c, *i))))
        asked[-1]["list"] = r
        return r
    ip.contracts["representation.project_to_irrep"] = project
    ip.contracts["irreps.is_equivalent_irrep"] = lambda ip, env: (asked.append(dict(env)), Cond("equivalent", ()))[1]
    depth = []
    collected = []

    def axes(p):
        return (E,) if p == "X" else (E, m) if p == "X+1" else (m,) * p

    def nx(p):
        return "X+1" if p == "X" else p + 1

    def ops(p):
        return ["AX"] if p == "X" else ["AX", "A"] if p == "X+1" else ["A"] * p

    def tensors(p, d, v):
        """Generic member of the list of rank p."""
        return mkarr((d,) + axes(p), lambda i: atom(f"T{p}", v, *i)), fam("X1", v, d)

    def nest(ip, st, env, vs, item):
        """A loop of a nest that only appends to a list created outside: one generic iteration."""
        depth.append(vs)
        if len(vs) == 1 and vs[0][2] == N and st_["p"] != 0 and len(depth) == 1:
            raise Undecided("loop over the irreps")
        paths = ip.body_paths(lambda ev: (ip.assign(st.target, item, ev), ip.exec_block(st.body, ev)), dict(env))
        depth.pop()
        for c, out, fr, ev in paths:
            for y in fr.log:
                if y[0] == "append":
                    collected.append((c, out, y[1], y[2]))
                else:
                    raise Undecided("loop effect")
            if out not in (("end",), ("cnt",)):
                raise Undecided(f"iteration with outcome {out}")
        return paths

    def loop(ip, st, env, vs, item):
        if depth:
            nest(ip, st, env, vs, item)
            return True
        lists = [n for n, z in env.items() if isinstance(z, LList) and z.sym is None and not z.items]
        del collected[:], asked[:]
        if len(vs) == 1 and vs[0][2] == N and st_["p"] == 0:
            nest(ip, st, env, vs, item)
            ok = len(asked) == 1 and asked[0]["representation"] is A and isinstance(asked[0]["irrep"], Arr)
            if not h.add(lab + "vectors: projection of the given representation", ok, "path", repr(asked)[:200]):
                raise Undecided("vectors")
            g, a, b = fresh(G), fresh(d3), fresh(d3)
            h.eq(lab + "vectors: on each irrep", h.el(asked[0]["irrep"], g, a, b), atom("X3", vs[0], g, a, b))
            ok = len(collected) == 1 and collected[0][0].op == "true" and isinstance(collected[0][3], tuple) and len(collected[0][3]) == 2
            if not h.add(lab + "vectors: every set is kept with its irrep", ok, "path", repr(collected)[:200]):
                raise Undecided("vectors")
            B, X = collected[0][3]
            k = fresh(m)
            (c, cdim) = asked[0]["list"].sym[1], asked[0]["list"].sym[0]
            e = num(h.el(B, a, k))
            it = [f for (bd, fs), _ in e.items() for f, q in fs if f[1] == "C"]
            h.add(lab + "vectors: the set itself", len(it) == 1 and e == atom("C", it[0][2][0], a, k), "normaliser", repr(e))
            h.eq(lab + "vectors: its irrep", h.el(X, g, a, b), atom("X3", vs[0], g, a, b))
            v = fresh(V)
            tgt = [n for n in lists if env[n] is collected[0][2]]
            for n in tgt:
                env[n] = LList(sym=(V, v, (mkarr((d2, m), lambda i: atom("T1", v, *i)), fam("X1", v, d2))))
            st_["p"] = 1
            NT[1] = V
            return bool(tgt)
        if len(vs) == 1 and rank is None and st_["p"] == 1:
            return ranks(ip, st, env, vs)
        if len(vs) == 2 and (st_["p"] == "X" or st_["p"] != "X+1" and st_["p"] >= 1):
            p = st_["p"]
            if not (vs[0][2] == NT[p] and vs[1][2] == V and isinstance(item, tuple) and all(isinstance(z, tuple) and len(z) == 2 for z in item)):
                raise Undecided("product of other lists")
            y, v = vs
            # the two members with dimensions of their own
            Tp = tensors(p, d1, y)
            Vb = (mkarr((d2, m), lambda i: atom("V", v, *i)), fam("X2", v, d2))
            a, a2, k = fresh(item[0][0].shape[0]), fresh(item[1][0].shape[0]), [fresh(z) for z in axes(p)]
            k1 = fresh(m)
            ok = h.el(item[0][0], a, *k) == atom(f"T{p}", y, a, *k) and h.el(item[1][0], a2, k1) == atom("T1", v, a2, k1)
            if not h.add(f"{lab}rank {nx(p)}: pairs of a tensor basis of rank {p} and a vector basis", ok, "normaliser", repr(item)[:200]):
                raise Undecided("pairs")
            nest(ip, st, env, vs, (Tp, Vb))
            L = f"{lab}rank {nx(p)}: "
            ok = len(asked) == 1 and isinstance(asked[0]["representation"], Arr) and shape_is(asked[0]["representation"], (G, PDim((d1, d2)), PDim((d1, d2))))
            if not h.add(L + "projection of the product", ok, "path", repr(asked)[:300]):
                raise Undecided("product")
            g, a, b, a2, b2 = fresh(G), fresh(d1), fresh(d2), fresh(d1), fresh(d2)
            h.eq(L + "projection of the Kronecker product of the two irreps", h.el(asked[0]["representation"], g, ("p", (a, b)), ("p", (a2, b2))),
                 atom("X1", y, g, a, a2) * atom("X2", v, g, b, b2))
            i, j = fresh(d3), fresh(d3)
            X3 = num(h.el(asked[0]["irrep"], g, i, j))
            xi = [f[2][0] for (bd, fs), _ in X3.items() for f, q in fs]
            if not h.add(L + "on each irrep", len(xi) == 1 and xi[0][2] == N and X3 == atom("X3", xi[0], g, i, j), "normaliser", repr(X3)):
                raise Undecided("irrep")
            ok = len(collected) == 1 and collected[0][0].op == "true" and isinstance(collected[0][3], tuple) and len(collected[0][3]) == 2
            if not h.add(L + "every set is kept with its irrep", ok, "path", repr(collected)[:200]):
                raise Undecided("sets")
            W, X = collected[0][3]
            h.eq(L + "its irrep", h.el(X, g, i, j), X3)
            if not h.add(L + "shape", shape_is(W, (d3,) + axes(nx(p))), "path", repr(W)):
                raise Undecided("shape")
            rules(p)
            bs, cs = [fresh(z) for z in axes(nx(p))], [fresh(z) for z in axes(nx(p))]
            lhs = num(h.el(W, i, *cs))
            for op, bb, cc in zip(ops(nx(p)), bs, cs):
                lhs = lhs * atom(op, g, bb, cc)
            for cc in cs:
                lhs = lhs.sum(cc)
            h.eq(L + "transforms as its irrep", lhs, (num(h.el(W, j, *bs)) * atom("X3", xi[0], g, j, i)).sum(j))
            gram = num(h.el(W, i, *cs)) * num(h.el(W, j, *cs)).conj(h.ctx)
            for cc in cs:
                gram = gram.sum(cc)
            h.eq(L + "orthonormal", gram, delta(i, j))
            del h.ctx.rules[:]
            q = nx(p)
            NT[q] = h.dim(f"NT{q}")
            w = fresh(NT[q])
            tgt = [n for n in lists if env[n] is collected[0][2] and all(env[n] is not z for z in st_.get("old", {}).values())]
            for n in tgt:
                env[n] = st_["next"] = LList(sym=(NT[q], w, tensors(q, d1, w)))
            st_["p"] = q
            return bool(tgt)
        p = st_["p"]
        if len(vs) == 1 and vs[0][2] == NT.get(p):
            h.add(lab + "bases of the requested rank", st_.get("all") is True if rank is None else p == rank, "path", str(p))
            y = vs[0]
            # irreps of more than one dimension
            n0 = len(ip.facts)
            ip.assume(cmp("lt", Poly.const(1), size_atom(d1)))
            nest(ip, st, env, vs, tensors(p, d1, y))
            del ip.facts[n0:]
            h.add(lab + "nothing returned for irreps of more dimensions", not [z for z in collected if h.feasible([z[0], cmp("lt", Poly.const(1), size_atom(d1))])], "path")
            del collected[:], asked[:]
            paths = nest(ip, st, env, vs, tensors(p, 1, y))
            g = fresh(G)
            arg = next((z for z in asked if "character1" in z), None)
            ok = arg is not None
            if not h.add(lab + "compared with the identity", ok, "path", repr(asked)[:200]):
                raise Undecided("comparison")
            ch = [num(h.el(arg[q], g)) for q in ("character1", "character2")]
            one = [q for q, z in enumerate(ch) if z == Poly.const(1)]
            h.add(lab + "character of the irrep is compared with that of the identity", len(one) == 1 and ch[1 - one[0]] == atom("X1", y, g, 0, 0), "normaliser", repr(ch))
            for n, (c, out, fr, ev) in enumerate(paths):
                ap = [z for z in fr.log if z[0] == "append"]
                h.iff(f"{lab}returned exactly if equivalent to the identity.{n}", Cond("equivalent", ()), TRUE if ap else FALSE, [c])
                for z in ap:
                    W = z[2]
                    if not h.add(f"{lab}shape.{n}", shape_is(W, axes(p)), "path", repr(W)):
                        continue
                    cs, bs = [fresh(z) for z in axes(p)], [fresh(z) for z in axes(p)]
                    transforms(h, f"T{p}", [(o, None) for o in ops(p)], ("X1", lambda q: q), 1)
                    orthonormal(h, f"T{p}", p)
                    h.ctx.rules.append(rewriting(lambda ctx, bound, factors: next((([k], [], Poly.const(1)) for k, f in named(factors, "X1")), None)))
                    lhs, nrm = num(h.el(W, *cs)), num(h.el(W, *cs)) * num(h.el(W, *cs)).conj(h.ctx)
                    for op, bb, cc in zip(ops(p), bs, cs):
                        lhs, nrm = (lhs * atom(op, g, bb, cc)).sum(cc), nrm.sum(cc)
                    h.eq(f"{lab}invariant.{n}", lhs, h.el(W, *bs))
                    h.eq(f"{lab}normalised.{n}", nrm, 1)
                    del h.ctx.rules[:]
                    st_["final"] = ip.frozen(W)
            tgt = [n for n in lists if collected and env[n] is collected[0][2]]
            Q = h.dim("Q")
            q = fresh(Q)
            for n in tgt:
                env[n] = LList(sym=(Q, q, vsubst(st_["final"], {y: ("f", "chosen", (q,), NT[p])})))
                st_["out"] = env[n]
            return bool(tgt)
        return False

    def ranks(ip, st, env, vs):
        """The loop over the rank, by induction: lists that hold the vectors at its start hold the bases of some rank p at the start of
        an iteration and those of rank p+1 at its end."""
        bound = h.ctx.bounds.get(vs[0][2].name)
        n = bound and bound[1] - bound[0]
        if n is None or n != atom("rank") - 1:
            raise Undecided("loop of another length")
        names = assigned_names(st)
        lists = [q for q in names if isinstance(env.get(q), LList) and env[q].sym is not None and env[q].sym[0] == V]
        if not lists:
            raise Undecided("nothing carried")
        for q in lists:
            d, v, (T, X) = env[q].sym
            a, b, k, g = fresh(d2), fresh(d2), fresh(m), fresh(G)
            if not h.add(f"{lab}starts with the vectors ({q})", h.el(T, a, k) == atom("T1", v, a, k) and h.el(X, g, a, b) == atom("X1", v, g, a, b),
                         "normaliser", repr(T)):
                raise Undecided("start")
        NT["X"] = h.dim("NTX")

        def carry(p, ev):
            for q in lists:
                w = fresh(NT[p])
                ev[q] = LList(sym=(NT[p], w, tensors(p, d1, w)))
        ev0 = dict(env)
        for q in names:
            ev0[q] = Poison("of the previous iteration of the loop over the rank")
        carry("X", ev0)
        st_["p"], st_["old"] = "X", dict(ev0)
        item = atom("val", vs[0])
        paths = ip.body_paths(lambda ev: (ip.assign(st.target, item, ev), ip.exec_block(st.body, ev)), ev0)
        ok = len(paths) == 1 and paths[0][0].op == "true" and paths[0][1] == ("end",) and not paths[0][2].log and st_["p"] == "X+1"
        if not h.add(lab + "one rank more in every iteration", ok and all(paths[0][3].get(q) is st_["next"] for q in lists), "path", repr(paths)[:200]):
            raise Undecided("iteration")
        for q in names:
            env[q] = Poison("assigned in the loop over the rank")
        NT["X"] = h.dim("NTR")
        carry("X", env)
        st_["p"], st_["all"] = "X", True
        return True

    def rules(p):
        del h.ctx.rules[:]
        transforms(h, f"T{p}", [(o, None) for o in ops(p)], ("X1", lambda q: q), d1)
        transforms(h, "V", [("A", None)], ("X2", lambda q: q), d2)
        orthonormal(h, f"T{p}", p)
        orthonormal(h, "V", 1)
        # the sets of coefficients: (X1 x X2) C = C X3
        def find(ctx, bound, factors):
            for n, f in named(factors, "C"):
                pr = f[2][2]
                if not (isinstance(pr, tuple) and pr[0] == "p"):
                    continue
                j, k = pr[1]
                for (m1, e1), (m2, e2) in itertools.product(named(factors, "X1"), named(factors, "X2")):
                    if e1[2][-1] == j and e2[2][-1] == k and e1[2][1] == e2[2][1] and f[3] == e1[3] == e2[3] and all(
                            z in bound and count_occ(z, factors) == 2 for z in (j, k)):
                        q = fresh(d3)
                        new = (atom("C", f[2][0], q, ("p", (e1[2][2], e2[2][2]))) * atom("X3", st_["xi"], e1[2][1], q, f[2][1])).sum(q)
                        return [n, m1, m2], [j, k], new.conj(ctx) if f[3] else new
            return None
        st_["xi"] = xi_of(asked[0]["irrep"])
        h.ctx.rules.append(rewriting(find))
        orthonormal(h, "C", 1)

    def xi_of(X):
        g, i, j = fresh(G), fresh(d3), fresh(d3)
        return [f[2][0] for (bd, fs), _ in num(h.el(X, g, i, j)).items() for f, q in fs][0]
    ip.loop_hook = loop
    for facts, v in h.only_return(lab + "total", h.run([A, R, atom("rank") if rank is None else rank], {"real": real, "atol": atom("atol")})):
        h.add(lab + "the chosen tensors are returned", v is st_.get("out"), "path", repr(v)[:200])
    h.frame(lab + "frame")


@contract("C12", "tensor.apply_intrinsic_symmetry")
def symmetrised(h):
    """Every tensor returned is the normalised sum over all permutations of the axes of one of the given tensors, symmetric under every
    permutation and invariant if the given tensor is; a tensor is dropped exactly if its sum is close to zero or closer than 1/1000
    to the span of those kept before."""
    for rank in (1, 2, 3, 4, None):
        intrinsic(h, rank)
    for rank in (1, 2, 3, None):
        intrinsic(h, rank, False)
    h.req("rank at least 1; permuting the axes of a tensor is an action of the symmetric group that commutes with A x .. x A; contract of grassmann_distance (C19): the distance between the spans")


def intrinsic(h, rank, real=True):
    h.ctx = Ctx()
    h.ip = Interp(h.ctx)
    h.ip.deadline = time.time() + 60
    ip = h.ip
    lab = f"{'any rank' if rank is None else f'rank {rank}'}{'' if real else ', complex'}: "
    N, m, B = h.dim("N"), h.dim("m"), h.dim("B")
    h.ctx.real |= {"T", "A", "AX", "dist"} if real else {"dist"}
    if rank is None:
        # the axes taken together, permuted by the symmetric group S; AX is A x .. x A
        h.ctx.real.add("rank")
        h.ctx.integer.add("rank")
        E, S = Several("mp", atom("rank")), h.group("S")

        def permutations(ip, env):
            k = env[0]
            if len(env) != 1 or not (isinstance(k, Opaque) and k.tag == "range" and k.data[0] == 0 and k.data[2] == 1 and num(k.data[1]) == E.rank):
                raise Undecided("permutations of something else")
            v = fresh(S)
            return Opaque("symiter", ((v,), Opaque("perm", (v, E))))
        ip.contracts["itertools.permutations"] = permutations

        def composed(x):
            """s (t X) = (s t) X"""
            s, y = x[2]
            return ("f", "permuted", (gmul(s, y[2][0]), y[2][1]), E) if is_permuted(y) else x
        h.ctx.rules.append(rewriting(lambda ctx, bound, factors: next((
            ([k], [], atom(f[1], f[2][0], composed(f[2][1])).conj(ctx) if f[3] else atom(f[1], f[2][0], composed(f[2][1])))
            for k, f in named(factors, "T") if is_permuted(f[2][1]) and is_permuted(f[2][1][2][1])), None)))
    axes = (E,) if rank is None else (m,) * rank
    flat_dim = E.flat if rank is None else m if rank == 1 else PDim((m,) * rank)
    t = fresh(N)
    tensors = LList(sym=(N, t, mkarr(axes, lambda i: atom("T", t, *i))))
    asked, info = [], {}
    h.ctx.real.add("atol")

    def grass(ip, env):
        asked.append(dict(env))
        return atom("dist")
    ip.contracts["utils.grassmann_distance"] = grass
    perms = [] if rank is None else list(itertools.permutations(range(rank)))
    u = lambda v: ("f", "kept", (v,), N)

    def total(t, idx):
        if rank is None:
            v = fresh(S)
            return atom("T", t, ("f", "permuted", (v, idx[0]), E)).sum(v)
        s = Poly()
        for p in perms:
            s = s + atom("T", t, *[idx[q] for q in p])
        return s

    def norm2(f):
        cs = [fresh(d) for d in axes]
        s = f(cs) * f(cs).conj(h.ctx)
        for c in cs:
            s = s.sum(c)
        return s

    def loop(ip, st, env, vs, item):
        if len(vs) != 1 or vs[0][2] != N or "tpl" in info:
            return False
        i, = vs
        lists = [n for n, z in env.items() if isinstance(z, LList) and z.sym is None and not z.items]
        if len(lists) != 1:
            raise Undecided("list of the kept tensors")
        nm, = lists
        n1 = fun("sqrt", normalise(h.ctx, norm2(lambda c: atom("T", i, *c))))
        raw = lambda idx: total(i, idx) * n1.inverse()
        for empty in (True, False):
            env0 = dict(env)
            if empty:
                lst = LList(items=[])
            else:
                v = fresh(B)
                lst = LList(sym=(B, v, vsubst(info["tpl"], {i: u(v)})))
            env0[nm] = lst
            del asked[:]
            kept = dropped = 0
            for k, (c, out, fr, ev) in enumerate(ip.body_paths(lambda e: (ip.assign(st.target, item, e), ip.exec_block(st.body, e)), env0)):
                if not h.feasible([c]):
                    continue
                L = f"{lab}{'first' if empty else 'further'} tensor: "
                ap = [x for x in fr.log if x[0] == "append" and x[1] is lst]
                h.add(f"{L}only appends.{k}", out in (("end",), ("cnt",)) and len(ap) == len(fr.log) <= 1, "path", repr((out, fr.log))[:200])
                zero = ip.as_cond(ip.np_call("numpy.allclose", [ip.mk(axes, lambda q: raw(q)), 0], {"atol": atom("atol")}))
                near = FALSE if empty else cmp("lt", atom("dist"), Poly.const(Fr(1, 1000)))
                h.iff(f"{L}dropped exactly if zero or in the span of the others.{k}", mk_or(zero, near), FALSE if ap else TRUE, [c])
                kept, dropped = kept + bool(ap), dropped + (not ap)
                if not ap:
                    continue
                val = ip.frozen(ip.to_arr(ap[0][2]))
                if not h.add(f"{L}one row.{k}", len(val.shape) == 2 and val.shape[0] == 1 and shape_is(val, (1, flat_dim)), "path", repr(val)):
                    raise Undecided("shape")
                if empty:
                    info["tpl"] = val
                idx = [fresh(d) for d in axes]
                flat = idx[0] if len(axes) == 1 else ("p", tuple(idx))
                n2 = fun("sqrt", normalise(h.ctx, norm2(raw)))
                got = num(h.el(val, 0, flat))
                h.eq(f"{L}normalised sum over all permutations.{k}", got, raw(idx) * n2.inverse())
                if rank is None:
                    h.eq(f"{L}unchanged by any permutation of the axes.{k}", got, h.el(val, 0, ("f", "permuted", (fresh(S), flat), E)))
                for q in range(0 if rank is None else rank - 1):
                    jdx = list(idx)
                    jdx[q], jdx[q + 1] = jdx[q + 1], jdx[q]
                    h.eq(f"{L}unchanged by exchanging axes {q} and {q + 1}.{k}", got, h.el(val, 0, ("p", tuple(jdx))))
                if empty:
                    scaled = got * n1 * n2
                    sq = got * got.conj(h.ctx)
                    for x in idx:
                        sq = sq.sum(x)
                    h.eq(f"{L}normalised.{k}", sq * n2 * n2, norm2(raw))
                    invariant(L, scaled, i, idx)
            h.add(f"{lab}{'first' if empty else 'further'} tensors are kept and dropped", bool(kept) and bool(dropped), "path", f"{kept} {dropped}")
        last = asked[-1] if asked else {}
        b1, b2 = last.get("basis1"), last.get("basis2")
        M = flat_dim
        ok = isinstance(b1, Arr) and isinstance(b2, Arr) and shape_is(b1, (1, M)) and b2.shape[1] == M and b2.shape[0] in (B, PDim((B, 1)))
        if h.add(lab + "distance of the candidate from those kept: shapes", ok, "path", repr((b1, b2))):
            idx, v = [fresh(d) for d in axes], fresh(B)
            flat = idx[0] if len(axes) == 1 else ("p", tuple(idx))
            h.eq(lab + "distance of the candidate", h.el(b1, 0, flat), h.el(info["tpl"], 0, flat))
            row = v if b2.shape[0] == B else ("p", (v, 0))
            h.eq(lab + "distance from all those kept", h.el(b2, row, flat), h.el(vsubst(info["tpl"], {i: u(v)}), 0, flat))
        w = fresh(B)
        env[nm] = LList(sym=(B, w, vsubst(info["tpl"], {i: u(w)})))
        return True

    def invariant(L, scaled, i, idx):
        """A A .. A T = T implies the same of the sum."""
        G = fresh(h.dim("G"))
        bs = [fresh(d) for d in axes]

        def find(ctx, bound, factors):
            for n, f in named(factors, "T") if rank is None else ():
                s, y = f[2][1][2] if is_permuted(f[2][1]) else (None, f[2][1])
                for q, e in named(factors, "AX"):
                    if e[2][2] == y and y in bound and count_occ(y, factors) == 2 and not f[3] and not e[3]:
                        return [n, q], [y], atom("T", f[2][0], ("f", "permuted", (s, e[2][1]), E) if s is not None else e[2][1])
            for n, f in named(factors, "T") if rank is not None else ():
                got, out = [], []
                for c in f[2][1:]:
                    k = [(q, e) for q, e in named(factors, "A") if q not in got and e[2][2] == c and c in bound and count_occ(c, factors) == 2]
                    if not k:
                        break
                    got.append(k[0][0])
                    out.append(k[0][1][2][1])
                if len(got) == rank:
                    return [n] + got, list(f[2][1:]), atom("T", f[2][0], *out)
            return None
        h.ctx.rules.append(rewriting(find))
        x = scaled
        for b, c in zip(bs, idx):
            x = (x * atom("AX" if rank is None else "A", G, b, c)).sum(c)
        h.eq(L + "invariant if the given tensor is", x, scaled.subst(dict(zip(idx, bs))))
        h.ctx.rules.pop()
    ip.loop_hook = loop
    for facts, v in h.only_return(lab + "total", h.run([tensors], {"atol": atom("atol")})):
        ok = isinstance(v, LList) and v.sym is not None and v.sym[0] == B
        if h.add(lab + "one tensor per tensor kept", ok, "path", repr(v)[:200]):
            kind, (vs, W) = ip.iter_spec(v)
            if h.add(lab + "shape", shape_is(W, axes), "path", repr(W)):
                idx = [fresh(d) for d in axes]
                flat = idx[0] if len(axes) == 1 else ("p", tuple(idx))
                h.eq(lab + "the tensors kept", h.el(W, *idx), h.el(vsubst(info["tpl"], {info_i(info["tpl"], N): u(vs[0])}), 0, flat))
    h.frame(lab + "frame")


def is_permuted(x):
    return isinstance(x, tuple) and len(x) == 4 and x[0] == "f" and x[1] == "permuted"


def info_i(tpl, N):
    """The loop variable of the template."""
    vs = {v for s in tpl.stores for v in vars_of(s.val) if v[2] == N}
    return next(iter(vs))
