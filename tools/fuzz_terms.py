"""normalise / reindexed preserve the value of terms over a concrete group and representation."""
import os, sys, random, itertools, signal
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "dv"))
import numpy as np
import api, interp, norm
from values import *
from norm import *
from cross import Eval, NotEvaluable
from terms import _cnt
# D4 as permutations -> table, 2-dim irrep + 1-dim
g1 = np.array([[0, -1], [1, 0]]); m = np.array([[1, 0], [0, -1]])
els = [np.linalg.matrix_power(g1, k) @ x for k in range(4) for x in (np.eye(2), m)]
N = len(els)
def find(x): return next(i for i, y in enumerate(els) if np.allclose(x, y))
table = np.array([[find(a @ b) for b in els] for a in els])
rng0 = np.random.default_rng(5)
def setup(kind, rng):
    h = api.H("q.f", "q"); G = h.group(); d = h.dim("d"); n = h.dim("n")
    sizes = {G: N, d: 2, n: 3}
    q = np.linalg.qr(rng.normal(size=(2, 2)) + 1j * rng.normal(size=(2, 2)))[0]
    U = np.array([q @ e @ q.conj().T for e in els])
    data = {}
    if kind == "unitary":
        h.ctx.hom["D"] = {"dim": d, "unitary": True}; data["D"] = U
    elif kind == "general":
        s = rng.normal(size=(2, 2)) + np.eye(2) * 3
        h.ctx.hom["D"] = {"dim": d}; data["D"] = np.array([np.linalg.inv(s) @ e @ s for e in els]); 
    elif kind == "real":
        h.ctx.hom["D"] = {"dim": d}; h.ctx.real.add("D"); h.ctx.integer.add("D"); data["D"] = np.array(els)
    elif kind == "proj":
        ph = np.exp(2j * np.pi * rng.random(N)); ph[0] = 1
        h.ctx.hom["D"] = {"dim": d, "unitary": True, "proj": "r"}
        h.ctx.cocycle["mu"] = "r"; h.ctx.normalized.add("r"); h.ctx.unimod_phi.add("r"); h.ctx.unimod.add("mu")
        data["D"] = ph[:, None, None] ** 1 * U * 1; data["phi"] = ph
        data["mu"] = ph[:, None] * ph[None, :] / ph[table]
    data["A"] = rng.normal(size=(2, 2)) + 1j * rng.normal(size=(2, 2))
    data["x"] = rng.normal(size=3); h.ctx.real.add("x")
    data["u"] = np.exp(2j * np.pi * rng.random(3)); h.ctx.unimod.add("u")
    iso = np.linalg.qr(rng.normal(size=(3, 2, 2)) + 1j * rng.normal(size=(3, 2, 2)))[0]; data["Q"] = iso; h.ctx.isometry["Q"] = "both"
    return h, G, d, n, sizes, data
class EV(Eval):
    def factor(self, f, env):
        if f[0] == "phi":
            x = self.data["phi"][self.index(f[2], env)]
            return np.conj(x) if f[3] else x
        return super().factor(f, env)
def rnd(r, h, G, d, n, depth, vars_):
    """random Poly with free variables from vars_ (list)"""
    gs = [v for v in vars_ if v[2] is G]; ds = [v for v in vars_ if v[2] is d] ; ns = [v for v in vars_ if v[2] is n]
    def word_():
        k = r.randint(1, 3)
        ls = [(r.choice(gs), r.choice([1, 1, -1])) for _ in range(k)]
        return mkword("G", ls)
    def one():
        q = r.random()
        if q < .4: return Poly.base(("A", "D", (word_(), r.choice(ds), r.choice(ds)), r.choice([0, 1])))
        if q < .5 and "mu" in h.ctx.cocycle: return Poly.base(("A", "mu", (word_(), word_()), r.choice([0, 1])), r.choice([1, 1, -1]))
        if q < .58: return Poly.base(("A", "A", (r.choice(ds), r.choice(ds)), r.choice([0, 1])))
        if q < .64: return delta(r.choice(ds), r.choice(ds))
        if q < .70: return delta(word_(), word_())
        if q < .76: return Poly.base(("A", "Q", (r.choice(ns), r.choice(ds), r.choice(ds)), r.choice([0, 1])))
        if q < .80: return Poly.base(("A", "u", (r.choice(ns),), r.choice([0, 1])))
        if q < .84: return Poly.base(("I", mk_eqi(word_(), word_())))
        if q < .88: return Poly.base(("A", "x", (r.choice(ns),), 0), r.choice([1, 2]))
        if q < .94 and depth > 0: return fun(r.choice(["abs", "re", "im"]), rnd(r, h, G, d, n, depth - 1, vars_))
        return Poly.const(r.choice([1, -1, 2]), r.choice([0, 0, 1]))
    p = Poly()
    for _ in range(r.randint(1, 2)):
        bv = [fresh(r.choice([G, d, d, n])) for _ in range(r.choice([0, 1, 2, 2]))]
        sub = vars_ + bv
        gs = [v for v in sub if v[2] is G]; ds = [v for v in sub if v[2] is d] ; ns = [v for v in sub if v[2] is n]
        if bv and r.random() < .7:   # bias towards contractions
            pass
        t = one()
        for _ in range(r.randint(0, 3)): t = t * one()
        if r.random() < .3 and depth > 0: t = t * rnd(r, h, G, d, n, depth - 1, sub)
        if r.random() < .2: t = t.conj(h.ctx)
        for b in bv: t = t.sum(b)
        p = p + t
    return p
if __name__ == "__main__":
    a, b = int(sys.argv[1]), int(sys.argv[2]); bad = 0; done = 0; und = 0
    for k in range(a, b):
        r = random.Random(k); rng = np.random.default_rng(k)
        kind = r.choice(["unitary", "general", "real", "proj"])
        h, G, d, n, sizes, data = setup(kind, rng)
        fv = [fresh(G), fresh(G), fresh(d), fresh(d), fresh(n)]
        try:
            p = rnd(r, h, G, d, n, 1, fv)
            q = normalise(h.ctx, p)
            forms = [q]
            if r.random() < .4:
                for (mo, c) in list(q.items())[:1]:
                    base = Poly({mo: c})
                    forms2 = reindexed(h.ctx, mo, c, group_letters(q))
                else: forms2 = forms2 if q.d else []
            else: forms2 = []
        except Undecided as e:
            und += 1; continue
        ev = EV(h.ip, sizes, data, table)
        env = {v: int(rng.integers(0, sizes[v[2]])) for v in fv}
        try:
            x, y = ev.poly(p, env), ev.poly(q, env)
            if abs(x - y) > 1e-7 * (1 + abs(x)):
                print("DIFF", k, kind, repr(p)[:300], "-->", repr(q)[:300], x, y); bad += 1
            if forms2:
                mo, c = list(q.items())[0]; x = ev.poly(Poly({mo: c}), env)
                for f in forms2[:20]:
                    f = f if isinstance(f, Poly) else f
                    y = ev.poly(f, env)
                    if abs(x - y) > 1e-7 * (1 + abs(x)):
                        print("REIDX", k, kind, repr(Poly({mo: c}))[:300], "-->", repr(f)[:300], x, y); bad += 1; break
            done += 1
        except (NotEvaluable) as e:
            print("noteval", k, e) if k % 50 == 0 else 0
            und += 1
    print("done", done, "und", und, "bad", bad)
