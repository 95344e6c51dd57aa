"""Contracts on spgrep.pointgroup."""
from api import *
from api_oracle import *


@contract(("C15", "C04"), "pointgroup.get_pointgroup_chain_generators")
def chain_generators(h):
    """The returned positions are those of the tabulated generators: the operation at the q-th returned position, in the basis P
    reported by spglib, is the tabulated operation number gen(q), and every tabulated operation occurs among the given ones in
    that basis.  Conjugation by P is an isomorphism, so the chain of the table (decided by enumeration of the tables) is a chain
    of the given group."""
    n, I, g = h.dim("n"), h.dim("I"), h.dim("g")
    R = h.arr("R", (n, 3, 3), "int")
    P = h.arr("P", (3, 3), arg=False)
    h.req("spglib.get_pointgroup returns the symbol of the group and a basis P in which one of the tabulated sets of operations is P^-1 R P")
    h.ctx.integer.add("T")
    h.ctx.real.add("T")
    v, q = fresh(I), fresh(g)
    asked = []
    h.ip.contracts["spglib.get_pointgroup"] = lambda ip, env: ("S", None, P)

    def gens(ip, env):
        sym, idx = env.values()
        asked.append((sym, idx))
        return LList(sym=(g, q, Ix(("f", "gen", (idx.t, q), n))))
    h.ip.contracts["pointgroup.get_generators"] = gens
    table = lambda i: TupKey(mkarr((n, 3, 3), lambda x: atom("T", i, *x)))
    d = SDict()
    d.conc = {"S": LList(sym=(I, v, table(v)))}
    h.ip.module("pointgroup")["pg_dataset"] = d
    h.ip.index_oracle = first_oracle
    Pi = h.ip.np_call("numpy.linalg.inv", [P], {})
    a, b, c, e = (fresh(3) for _ in range(4))

    def moved(i):
        return fun("rint", normalise(h.ctx, (num(h.el(Pi, a, c)) * atom("R", i, c, e) * atom("P", e, b)).sum(c).sum(e)))
    answers = 0
    for k, (facts, o) in enumerate(h.run([R])):
        if o[0] == "end" and isinstance(o[1], LList) and o[1].sym is None and not o[1].items:
            # nothing matched: excluded by the assumption on spglib
            i, j, w = fresh(I), fresh(n), fresh(n)
            some = mk_ex(i, mk_all(w, mk_ex(j, mk_all(a, mk_all(b, cmp("eq", moved(j), atom("T", i, w, a, b)))))))
            h.add(f"path{k}: an identified group is answered", not h.feasible(list(facts) + [some]), "z3", repr(facts)[:300])
            continue
        ok = o[0] == "end" and isinstance(o[1], LList) and o[1].sym is not None and isinstance(o[1].sym[2], Ix) and len(asked) > 0
        h.add(f"path{k}: list of positions", ok, "path", repr(o)[:300])
        if not ok:
            continue
        answers += 1
        dim, var, t = o[1].sym
        h.add(f"path{k}: one position per tabulated generator", dim == g, "path")
        idx = [x[1] for x in asked if isinstance(x[1], Ix)][-1]
        h.add(f"path{k}: generators of the table of the group's symbol", all(x[0] == "S" for x in asked), "path", repr(asked))
        w = fresh(n)
        tbl = [x for x in index_terms_of(t.t) if x[0] == "f" and x[1] == "gen"]
        h.add(f"path{k}: one tabulated generator per position", len(tbl) == 1, "path", repr(t))
        if len(tbl) != 1:
            continue
        i = tbl[0][2][0]
        h.true(f"path{k}: operation at the position is the tabulated generator",
               mk_all(a, mk_all(b, cmp("eq", moved(t.t), atom("T", i, tbl[0], a, b)))), facts)
        j = fresh(n)
        h.true(f"path{k}: every tabulated operation is among the given ones",
               mk_all(w, mk_ex(j, mk_all(a, mk_all(b, cmp("eq", moved(j), atom("T", i, w, a, b)))))), facts)
    h.add("an answer is possible", answers > 0, "path")
    h.frame()


def index_terms_of(t, acc=None):
    acc = [] if acc is None else acc
    if isinstance(t, tuple):
        if t and t[0] in ("f", "v", "w"):
            acc.append(t)
        for x in t:
            index_terms_of(x, acc)
    return acc


KINDS = {"1": (1, 3), "2": (1, -1), "3": (1, 0), "4": (1, 1), "6": (1, 2), "-1": (-1, -3), "m": (-1, 1), "-3": (-1, 0), "-4": (-1, -1), "-6": (-1, -2)}
# number of operations of each kind in the 32 crystallographic point groups (International Tables A)
OPERATIONS = {
    "1": "1", "-1": "1 -1", "2": "1 2", "m": "1 m", "2/m": "1 -1 2 m", "222": "1 2*3", "mm2": "1 2 m*2", "mmm": "1 -1 2*3 m*3",
    "4": "1 2 4*2", "-4": "1 2 -4*2", "4/m": "1 -1 2 m 4*2 -4*2", "422": "1 2*5 4*2", "4mm": "1 2 4*2 m*4", "-42m": "1 2*3 -4*2 m*2",
    "4/mmm": "1 -1 2*5 m*5 4*2 -4*2", "3": "1 3*2", "-3": "1 -1 3*2 -3*2", "32": "1 3*2 2*3", "3m": "1 3*2 m*3",
    "-3m": "1 -1 3*2 -3*2 2*3 m*3", "6": "1 2 3*2 6*2", "-6": "1 m 3*2 -6*2", "6/m": "1 -1 2 m 3*2 -3*2 6*2 -6*2", "622": "1 2*7 3*2 6*2",
    "6mm": "1 2 3*2 6*2 m*6", "-6m2": "1 3*2 -6*2 m*4 2*3", "6/mmm": "1 -1 2*7 m*7 3*2 -3*2 6*2 -6*2", "23": "1 2*3 3*8",
    "m-3": "1 -1 2*3 m*3 3*8 -3*8", "432": "1 2*9 3*8 4*6", "-43m": "1 2*3 3*8 -4*6 m*6", "m-3m": "1 -1 2*9 m*9 3*8 -3*8 4*6 -4*6"}


def mat(a, b):
    return tuple(tuple(sum(a[i][k] * b[k][j] for k in range(3)) for j in range(3)) for i in range(3))


def det(a):
    return sum(a[0][i] * (a[1][(i + 1) % 3] * a[2][(i + 2) % 3] - a[1][(i + 2) % 3] * a[2][(i + 1) % 3]) for i in range(3))


def generated(gens):
    one = ((1, 0, 0), (0, 1, 0), (0, 0, 1))
    seen, todo = {one}, [one]
    while todo:
        x = todo.pop()
        for g in gens:
            y = mat(x, g)
            if y not in seen:
                seen.add(y)
                todo.append(y)
            if len(seen) > 96:
                raise Undecided("tabulated operations generate an infinite group")
    return seen


@contract(("C15", "C04"), "pointgroup.get_generators")
def tabulated_chains(h):
    """Complete enumeration of the tables: every tabulated set of operations is a group with the operations of its symbol, and the
    generators returned for it, taken from the last to the first, extend the trivial group step by step to the whole group, each step
    normal in the next with the order of the generator as its index."""
    m = h.ip.module("pointgroup")
    data = m["pg_dataset"]
    h.add("the 32 crystallographic point groups", isinstance(data, dict) and set(data) == set(OPERATIONS), "enumeration", repr(set(data) ^ set(OPERATIONS)))
    for sym in data:
        for idx, ops in enumerate(data[sym]):
            lab = f"{sym}, {idx}: "
            S = set(ops)
            ok = len(S) == len(ops) and all(mat(a, b) in S for a in S for b in S) and all(abs(det(a)) == 1 for a in S)
            h.add(lab + "a group", ok, "enumeration")
            count = {}
            for a in ops:
                k = [n for n, v in KINDS.items() if v == (det(a), a[0][0] + a[1][1] + a[2][2])]
                count[k[0] if k else "?"] = count.get(k[0] if k else "?", 0) + 1
            want = {w.split("*")[0]: int((w + "*1").split("*")[1]) for w in OPERATIONS[sym].split()}
            h.add(lab + "operations of the symbol", count == want, "enumeration", repr(count))
            for facts, v in h.only_return(lab + "total", h.run([sym, idx])):
                gens = v if isinstance(v, list) else v.items if isinstance(v, LList) and v.sym is None else None
                if not h.add(lab + "list of positions", gens is not None and all(isinstance(g, int) and 0 <= g < len(ops) for g in gens), "path", repr(v)[:200]):
                    continue
                els = [ops[g] for g in gens]
                low, good = generated([]), True
                for q in reversed(range(len(els))):
                    high = generated(els[q:])
                    p = len(high) // len(low)
                    powers = generated([els[q]])
                    inv = next(y for y in high if mat(y, els[q]) == ((1, 0, 0), (0, 1, 0), (0, 0, 1)))
                    good &= p > 1 and len(high) == p * len(low) and len(powers) == p and powers & low == generated([]) and all(mat(mat(els[q], y), inv) in low for y in low)
                    low = high
                h.add(lab + "chain of normal subgroups extended by a generator with the index as its order", good, "enumeration", repr(gens))
                h.add(lab + "ends in the whole group", low == S, "enumeration", repr(gens))
