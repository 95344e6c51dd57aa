"""Inductive invariants for loops that grow lists while iterating over a symbolic extent."""
from api import *  # noqa


def same(ip, a, b):
    f = lambda x: TupKey(ip.frozen(x, True)) if isinstance(x, Arr) else tuple(map(f, x)) if isinstance(x, tuple) else x
    return ip.equal_values(f(a), f(b))


yes = lambda x: TRUE


def growing_lists(h, tag="", rel=None, pre=yes):
    """Invariant before iteration i of `for i in ...` that only appends to lists empty at the start and stores one index per
    iteration in an array m:

        every list k equals [T_k(u(0)), ..., T_k(u(U-1))] with iterations u(0) < ... < u(U-1) < i,
        the keys T_q(u(v)) are pairwise distinct,
        m[i'] = found(i') with T_q(u(found(i'))) = T_q(i')  for every earlier iteration i'.

    The templates T_k are read off the first iteration (all lists empty); then one iteration from the generic state is executed
    for all paths and must re-establish the invariant.  After the loop the invariant is assumed.  Returns a dict filled with
    the symbolic final state.

    With rel (condition on the templates of two iterations) nothing is stored; an iteration is kept iff pre holds for it and rel with no kept one."""
    info = {}
    nm = tag.replace(" ", "").replace(":", "")

    def hook(ip, st, env, vs, item):
        if len(vs) != 1:
            return False
        i, = vs
        lists = {}
        for n, x in env.items():
            if isinstance(x, LList) and x.sym is None and not x.items and id(x) not in [id(y) for y in lists.values()]:
                lists[n] = x
        if not lists:
            return False

        def body(e):
            ip.assign(st.target, item, e)
            ip.exec_block(st.body, e)

        def appended(fr):
            """{list name: appended value}, stores; None when the log has another shape."""
            ap, stores = {}, []
            for x in fr.log:
                if x[0] == "append":
                    n = [n for n, l in env0.items() if l is x[1]]
                    if not n or n[0] in ap:
                        return None
                    ap[n[0]] = x[2]
                elif x[0] == "store":
                    stores.append(x)
                else:
                    return None
            return ap, stores
        # first iteration: all lists empty
        env0 = dict(env)
        first = [p for p in ip.body_paths(body, env0) if h.feasible([p[0]])]
        tpl = {}
        ok = bool(first)
        for c, out, fr, e in first:
            a = appended(fr)
            ok &= out == ("end",) and a is not None and (not tpl or not a[0] and rel is not None or set(a[0]) == set(tpl))
            if ok and not tpl and a[0]:
                tpl = {n: ip.frozen(x) for n, x in a[0].items()}
        grown = set(tpl)
        if not (ok and tpl):
            return False
        h.add(f"{tag}first operation is kept", True, "path")
        # generic state
        U = Dim("U" + nm)
        v = fresh(U)
        u = lambda x: ("f", "u" + nm, (x,), i[2])
        at = lambda n, x: vsubst(tpl[n], {i: x})
        env0 = dict(env)
        for n in grown:
            l = LList(sym=(U, v, at(n, u(v))))
            for k, x in env.items():
                if x is lists[n]:
                    env0[k] = l
            lists[n] = l
        keys = set(grown)
        kept, repeated = [], []
        for c, out, fr, e in ip.body_paths(body, env0):
            if not h.feasible([c]):
                continue
            a = appended(fr)
            if out != ("end",) or a is None:
                raise Undecided(f"iteration with outcome {out}")
            ap, stores = a
            if rel is not None:
                if stores:
                    raise Undecided("an iteration stores elements")
                w = fresh(U)
                e = rel({n: tpl[n] for n in grown}, {n: at(n, u(w)) for n in grown})
                want = mk_and(pre({n: tpl[n] for n in grown}), mk_all(w, mk_not(e)))
                h.iff(f"{tag}kept exactly if {'admissible and ' if pre is not yes else ''}not equivalent to a kept one", want, TRUE if ap else FALSE, [c])
                if ap:
                    kept.append((c, ap, None))
                continue
            if len(stores) != 1 or stores[0][2].keys != (i,) or stores[0][2].bvars or stores[0][2].guard.op != "true":
                raise Undecided("an iteration must store one index at its own position")
            if ap:
                kept.append((c, ap, stores[0]))
            else:
                repeated.append((c, stores[0]))
        h.add(f"{tag}an operation is kept in every list or in none",
              bool(kept) and all(set(ap) == grown for _, ap, _ in kept), "path", repr([list(x[1]) for x in kept]))
        w = fresh(U)
        for c, ap, s in kept:
            for n in sorted(grown):
                equal_ = n in ap and h.with_facts([c], lambda: ip.decide(ip.as_cond(same(ip, ap[n], tpl[n])))) is True
                h.add(f"{tag}kept operation {n}: value does not depend on the earlier ones", equal_, "z3", repr(ap.get(n))[:200])
                new = h.with_facts([c], lambda: ip.decide(mk_all(w, mk_not(ip.as_cond(same(ip, at(n, u(w)), tpl[n])))))) is True
                if not new:
                    keys.discard(n)
            if rel is not None:
                continue
            pos = s[2].val
            h.add(f"{tag}kept operation: mapped to its position", isinstance(pos, DimVal) and pos.dim == U or
                  isinstance(pos, Poly) and pos == size_atom(U), "path", repr(pos))
        for c, s in repeated:
            j = s[2].val
            if not isinstance(j, Ix):
                h.add(f"{tag}repeated operation: mapped to a kept one", False, "path", repr(j))
                keys = set()
                break
            for n in sorted(keys):
                if h.with_facts([c], lambda: ip.decide(ip.as_cond(same(ip, at(n, u(j.t)), tpl[n])))) is not True:
                    keys.discard(n)
        if rel is not None:
            for k, x in env0.items():
                env[k] = x
            info.update(U=U, u=u, tpl=tpl, i=i)
            for n in assigned_names(st):
                if n in env:
                    env[n] = Poison("last value of a loop variable")
            return True
        h.add(f"{tag}kept operations are pairwise different", bool(keys), "z3", "no list of keys")
        if not keys:
            raise Undecided("no key list")
        # after the loop
        for k, x in env0.items():
            env[k] = x
        m = ("f", "found" + nm, (i,), U)
        tgt = kept[0][2][1]
        if any(x[2][1] is not tgt for x in kept) or any(x[1][1] is not tgt for x in repeated):
            raise Undecided("positions stored in different arrays")
        ip.store(tgt, Store((i,), (i,), TRUE, Ix(m)))
        v2 = fresh(U)
        for n in sorted(keys):
            ip.facts.append(mk_all(i, ip.as_cond(same(ip, at(n, u(m)), tpl[n]))))
            ip.facts.append(mk_all(v, mk_all(v2, mk_or(Cond("eqi", (v, v2)),
                                                       mk_not(ip.as_cond(same(ip, at(n, u(v)), at(n, u(v2)))))))))
        info.update(U=U, u=u, found=lambda x: ("f", "found" + nm, (x,), U), keys=keys, tpl=tpl, i=i)
        for n in assigned_names(st):
            if n in env:
                env[n] = Poison("last value of a loop variable")
        return True

    h.ip.loop_hook = hook
    return info
