"""Runtime contracts: each kind runs the real spgrep code on one generated input and
evaluates the postcondition with an independent oracle.  PLAN[pid](tier, seed) lists the inputs."""
import copy
import itertools
import json
import os
import pickle
from math import gcd

import numpy as np
import spglib

from lib import *  # noqa

import spgrep
from spgrep import core, corep, group, irreps as irr_m, pointgroup, representation, spinor, tensor, transform, utils

KINDS = {}
PLAN = {}


def kind(f):
    KINDS[f.__name__] = f
    return f


def plan(pid):
    def d(f):
        PLAN[pid] = f
        return f
    return d


def rng_of(seed, salt):
    return np.random.default_rng([int(seed), sum(map(ord, salt)) * 7919 + len(salt)])


def pickk(g, ks=None):
    """half of the time a point of high symmetry"""
    ks = KSPEC if ks is None else ks
    return (ks[g.integers(8)] if g.random() < .45 else ks[g.integers(len(ks))]).tolist()


def Q(tier, q, th):
    return q if tier == "quick" else th


def K(c):
    return np.array(c["k"], float)


def setup(c):
    """rotations, translations, k for a case with hall/seed/k"""
    R, T = hall(c["hall"])[:2]
    r, t, _, k = variant(R, T, c.get("seed", 0), k=K(c) if "k" in c else None)
    return r, shifted(c, r, t), near(c, r, None, k)


def near(c, r, tr, k):
    """k moved a little along a direction that some operation fixes: the neighbourhood of a special point."""
    if "near" not in c:
        return k
    g = np.random.default_rng(int(c["near"] * 1e9))
    i = g.integers(len(r))
    m = r[i].T if tr is None or not tr[i] else -r[i].T
    v, x = g.normal(size=3), np.zeros(3)
    for _ in range(12):
        x, v = x + v, m @ v
    if np.abs(x).max() < 1e-6:
        return k
    return k + x / np.abs(x).max() * c["near"]


def unusual(g, out, share=.12):
    """Cases next to, but not at, the special values: small shifts of the origin, k near a special point."""
    for c in out:
        x = g.random()
        if x < share:
            c.setdefault("tiny", float(10 ** g.uniform(-6.5, -2.5)))
        elif x < 2 * share and not c.get("pgonly"):
            c["near"] = float(10 ** g.uniform(-3.7, -1.7))
    return out


def shifted(c, r, t):
    """Translations after a small shift of the origin: phases close to, but not at, roots of unity."""
    if "tiny" not in c:
        return t
    s = np.array([.7, .5, .3]) * c["tiny"]
    return t + s - r @ s


def setup_m(c):
    R, T, TR, _ = uni(c["uni"])
    r, t, tr, k = variant(R, T, c.get("seed", 0), tr=TR, k=K(c))
    return r, shifted(c, r, t), tr, near(c, r, tr, k)


def frozen(*xs):
    cp = [np.array(x, copy=True) for x in xs]
    for x in cp:
        x.flags.writeable = False
    return cp


# ================================================================= C01 little group
@kind
def little_group(c):
    if "uni" in c:
        r, t, tr, k = setup_m(c)
    else:
        r, t, k = setup(c)
        tr = None
    if "shift" in c:
        k = k + np.array(c["shift"])
    exp = little(r, k, tr)
    if "eps" in c:  # displaced k: only operations fixing the displacement survive
        k = k + c["eps"] * np.array(c["dir"])
        exp = [i for i in range(len(r)) if (lambda d: np.abs(d - np.rint(d)).max() < c["atol"])(
            r[i].T @ k - (-1 if tr is not None and tr[i] else 1) * k)]
        margin = [np.abs((lambda d: d - np.rint(d))(r[i].T @ k - (-1 if tr is not None and tr[i] else 1) * k)).max() for i in range(len(r))]
        if any(abs(m / c["atol"] - 1) < .03 for m in margin):
            raise Skip
    kw = {} if tr is None else {"time_reversals": tr}
    if "atol" in c:
        kw["atol"] = c["atol"]
    lr, lt, mp = group.get_little_group(r, t, k, **kw)
    need(list(mp) == exp, f"little group consists of operations {list(mp)}, expected {exp}")
    need(close(lr, r[exp], 1e-12) and close(lt, t[exp], 1e-12), "little-group operations are not the mapped input operations")
    return len(exp) not in (1, len(r)) or "eps" in c


@plan("C01")
def _(tier, seed):
    g = rng_of(seed, "C01")
    n = 5400 if tier == "quick" else 12000
    out = []
    for _ in range(n):
        k = pickk(g)
        c = {"kind": "little_group", "k": k, "seed": int(g.integers(0, 1 << 30)) if g.random() < .8 else 0}
        if g.random() < .4:
            c["uni"] = int(g.integers(1, 1652))
        else:
            c["hall"] = int(g.integers(1, 531))
        x = g.random()
        if x < .25:
            c["shift"] = g.integers(-3, 4, size=3).tolist()
        elif x < .6:
            c["eps"] = float(g.choice([1e-6, 1e-4, 3e-3]))
            c["dir"] = [[1, 0, 0], [0, 1, 0], [0, 0, 1], [1, 1, 0], [1, 1, 1], [.3, .7, -.4]][g.integers(6)]
            c["atol"] = float(g.choice([1e-8, 1e-5, 1e-3, 1e-2]))
            if g.random() < .4:     # deviations next to the tolerance
                c["eps"] = c["atol"] * float(g.uniform(.2, 1.5))
        out.append(c)
    return out


# ================================================================= C02 factor system
@kind
def factor_system(c):
    if "uni" in c:
        r, t, tr, k = setup_m(c)
    else:
        r, t, k = setup(c)
        tr = None
    lg = little(r, k, tr)
    lr, lt = r[lg], t[lg]
    ltr = None if tr is None else tr[lg]
    args = (lr, lt, k) if ltr is None else (lr, lt, k, ltr)
    mu = group.get_factor_system_from_little_group(*args)
    n = len(lg)
    need(mu.shape == (n, n), "factor system has wrong shape")
    need(np.abs(np.abs(mu) - 1).max() < 1e-9, "factor system is not unimodular")
    s = np.ones(n) if ltr is None else np.where(ltr, -1, 1)
    # coset representatives commute with lattice phases: mu(i,j) is the product law's phase
    g = np.einsum("nba,b->na", lr, k) - s[:, None] * k
    exp = np.exp(-2j * np.pi * np.einsum("ia,ja->ij", g, lt))
    need(np.abs(mu - exp).max() < 1e-7, "factor system differs from exp(-i g_i.w_j)")
    tab = table_of(lr, ltr)
    for i in range(n):
        rhs = mu[i][tab]                       # mu(i, jk)
        jk = np.conj(mu) if ltr is not None and ltr[i] else mu
        lhs = rhs * jk                          # mu(i,jk) mu(j,k)^(i)
        need(np.abs(lhs - mu[tab[i]] * mu[i][:, None]).max() < 1e-6, f"cocycle condition fails for operation {i}")
    if ltr is None:
        need(n > 16 or group.check_cocycle_condition(lr, mu) is True, "cocycle check rejects a factor system")
    return np.abs(mu - 1).max() > 1e-3


@plan("C02")
def _(tier, seed):
    g = rng_of(seed, "C02")
    n = 1560 if tier == "quick" else 6000
    out = []
    for _ in range(n):
        c = {"kind": "factor_system", "k": pickk(g),
             "seed": int(g.integers(0, 1 << 30)) if g.random() < .8 else 0}
        if g.random() < .35:
            c["uni"] = int(g.integers(1, 1652))
        else:
            c["hall"] = int(g.integers(1, 531))
        out.append(c)
    return unusual(g, out)


# ================================================================= C03/C04 small irreps
def sg_irreps(c, method):
    r, t, k = setup(c)
    lg = little(r, k)
    if method == "Neto" and not neto_ok(r[lg]):
        raise Skip
    if c.get("api", "core") == "core":
        out, mp = core.get_spacegroup_irreps_from_primitive_symmetry(r, t, k, method=method, **c.get("opt", {}))
        need(list(mp) == lg, f"mapping to the little group is {list(mp)}, expected {lg}")
    else:
        out, ind = irr_m.enumerate_small_representations(r[lg], t[lg], k, method=method, **c.get("opt", {}))
        need(len(ind) == len(out), "one indicator per irrep")
        two = 2 * k - np.rint(2 * k)
        tab = table_of(r[lg])
        for x, s in zip(out, ind):
            need(s in (-1, 0, 1), f"indicator {s}")
            if np.abs(two).max() < 1e-6:
                # 1/n sum_g chi(g^2), g = (R, t): g^2 = lattice translation times a representative
                ph, _ = law_phase(r[lg], t[lg], k, tab)
                ch = np.einsum("kii->k", x)
                e = sum(ph[i, i] * ch[tab[i, i]] for i in range(len(lg))) / len(lg)
                need(abs(e - s) < 1e-4, f"Frobenius-Schur indicator is {s}, group average of chi(g^2) is {e:.4f}")
            else:
                need(s == 0, "indicator must vanish unless 2k is a reciprocal lattice vector")
    return r[lg], t[lg], k, out


@kind
def small_law(c):
    r, t, k, out = sg_irreps(c, c["method"])
    tab = table_of(r)
    ph, _ = law_phase(r, t, k, tab)
    for a, x in enumerate(out):
        need(x.shape == (len(r), x.shape[1], x.shape[1]), "wrong shape")
        need(check_unitary(x), f"irrep {a} is not unitary")
        e = check_law(x, tab, ph)
        need(e is None, f"irrep {a}: {e}")
        e = [i for i in range(len(r)) if (r[i] == I3).all()][0]
        need(close(x[e], np.exp(-2j * np.pi * t[e] @ k) * np.eye(x.shape[1])), "identity is not represented by its phase")
    need(len(out) > 0, "no irreps")
    return len(r) > 2


@kind
def small_complete(c):
    r, t, k, out = sg_irreps(c, c["method"])
    check_irreps(out, len(r), "small representations")
    tab = table_of(r)
    ph, _ = law_phase(r, t, k, tab)
    for a, x in enumerate(out):
        e = check_law(x, tab, ph)
        need(e is None, f"irrep {a} is no representation: {e}")
    if c.get("both") and c["method"] == "Neto":
        o2 = sg_irreps(dict(c), "random")[3]
        A, B = characters(out), characters(o2)
        need(A.shape == B.shape, "the two methods return different numbers of irreps")
        G = np.abs(A.conj() @ B.T / len(r))
        need(np.abs(G - np.rint(G)).max() < 1e-4 and (np.rint(G).sum(0) == 1).all() and (np.rint(G).sum(1) == 1).all(),
             "the two methods return different sets of irreps")
    return len(r) > 2


@kind
def pg_irreps(c):
    g = np.array(list(pgs())[c["pg"]][2])
    rng = np.random.default_rng(c["seed"])
    if c["seed"]:
        U = unimod(rng)
        Ui = np.rint(np.linalg.inv(U)).astype(int)
        g = np.array([Ui @ x @ U for x in g])[rng.permutation(len(g))]
    if c["method"] == "Neto" and not neto_ok(g):
        raise Skip
    out = core.get_crystallographic_pointgroup_irreps_from_symmetry(g, method=c["method"])
    tab = table_of(g)
    for x in out:
        need(check_unitary(x), "irrep is not unitary")
        e = check_law(x, tab, np.ones((len(g), len(g))))
        need(e is None, str(e))
    check_irreps(out, len(g), "point group")
    return len(g) > 1


def pgs():
    for s, gs in pointgroup.pg_dataset.items():
        for i, g in enumerate(gs):
            yield s, i, g


def sg_cases(name, g, n, kn, extra=None):
    out = []
    for _ in range(n):
        c = {"kind": kn, "hall": int(g.integers(1, 531)), "k": pickk(g),
             "seed": int(g.integers(0, 1 << 30)) if g.random() < .6 else 0,
             "method": "Neto" if g.random() < .65 else "random"}
        x = g.random()
        if x < .4:
            c["api"] = "enum"
        if x > .85:
            c["opt"] = {"rtol": 1e-4, "atol": 1e-7}
        if extra:
            extra(c, g)
        out.append(c)
    return unusual(g, out)


@plan("C03")
def _(tier, seed):
    g = rng_of(seed, "C03")
    return sg_cases("C03", g, 3120 if tier == "quick" else 9000, "small_law")


@plan("C04")
def _(tier, seed):
    g = rng_of(seed, "C04")
    out = sg_cases("C04", g, 2520 if tier == "quick" else 8000, "small_complete",
                   lambda c, g: c.update(both=bool(g.random() < .5)))
    npg = len(list(pgs()))
    for i in range(npg):
        for s in range(2 if tier == "quick" else 20):
            for m in ("Neto", "random"):
                out.append({"kind": "pg_irreps", "pg": i, "seed": int(s and g.integers(1, 1 << 30)), "method": m})
    return out


# ================================================================= C05 crystal structures
def make_crystal(c):
    """A crystal with (at least) the symmetry of the hall number, described in some cell."""
    h = c["hall"]
    _, _, P, r, t = hall(h)
    rng = np.random.default_rng(c["seed"])
    L = stdlat(r, c["seed"])
    # scale anisotropically is not allowed by metric averaging: keep L
    pos = []
    num = []
    for a in range(1 if len(r) > 24 else 2):
        x = rng.random(3)
        orb = []
        for R, v in zip(r, t):
            y = np.remainder(R @ x + v, 1)
            d = [np.abs((y - z) - np.rint(y - z)).max() for z in orb]
            if not d or min(d) > 1e-3:
                orb.append(y)
        pos += orb
        num += [a + 1] * len(orb)
    pos = np.array(pos)
    num = np.array(num)
    M = np.eye(3)
    cell = c["cell"]
    if cell == "prim":
        M = P
    elif cell == "uni":
        M = unimod(rng).astype(float)
    elif cell == "primuni":
        M = P @ unimod(rng)
    elif cell == "super":
        M = np.diag([[2, 1, 1], [1, 2, 1], [1, 1, 2], [2, 2, 1]][rng.integers(4)]).astype(float)
    o = rng.random(3) if rng.random() < .5 else np.zeros(3)
    L2 = M.T @ L
    Mi = np.linalg.inv(M)
    vol = abs(np.linalg.det(M))
    p2, n2 = [], []
    rngs = range(-3, 4) if vol > 1.01 or cell in ("uni", "primuni") else range(-1, 2)
    if vol <= 1.0001 and cell != "super":
        for x, a in zip(pos + o, num):
            y = np.remainder(Mi @ x, 1)
            if all(np.abs((y - z) - np.rint(y - z)).max() > 1e-4 for z in p2):
                p2.append(y)
                n2.append(a)
    else:
        for s in itertools.product(range(2), repeat=3):
            for x, a in zip(pos + o + np.array(s), num):
                y = np.remainder(Mi @ x, 1)
                if all(np.abs((y - z) - np.rint(y - z)).max() > 1e-4 for z in p2):
                    p2.append(y)
                    n2.append(a)
    p2 = np.array(p2)
    n2 = np.array(n2)
    q = rng.permutation(len(p2))
    return L2, p2[q], n2[q]


STRUCTS = {}


def _structs():
    if STRUCTS:
        return STRUCTS
    fcc = np.array([[0, .5, .5], [.5, 0, .5], [.5, .5, 0]])
    cv = np.array([[0, 0, 0], [0, .5, .5], [.5, 0, .5], [.5, .5, 0]])
    bcc = np.array([[-.5, .5, .5], [.5, -.5, .5], [.5, .5, -.5]])
    rut = np.array([[0, 0, 0], [.5, .5, .5], [.3, .3, 0], [.7, .7, 0], [.2, .8, .5], [.8, .2, .5]])
    S = STRUCTS
    S["Si prim"] = (fcc, np.array([[0, 0, 0], [.25, .25, .25]]), [1, 1])
    S["Si conv"] = (np.eye(3), np.vstack([cv, cv + .25]), [1] * 8)
    S["NaCl conv"] = (np.eye(3), np.vstack([cv, (cv + [.5, 0, 0]) % 1]), [1] * 4 + [2] * 4)
    S["sc"] = (np.eye(3), np.zeros((1, 3)), [1])
    S["sc 2x1x1"] = (np.diag([2., 1, 1]), np.array([[0, 0, 0], [.5, 0, 0]]), [1, 1])
    S["bcc prim"] = (bcc, np.zeros((1, 3)), [1])
    S["bcc conv"] = (np.eye(3), np.array([[0, 0, 0], [.5, .5, .5]]), [1, 1])
    S["tetragonal a"] = (np.diag([1.7, 1, 1]), np.zeros((1, 3)), [1])
    S["rhombo"] = (np.array([[1, .2, .2], [.2, 1, .2], [.2, .2, 1]]), np.zeros((1, 3)), [1])
    S["rutile"] = (np.diag([1, 1, .7]), rut, [1, 1, 2, 2, 2, 2])
    S["hcp"] = (np.array([[1, 0, 0], [-.5, np.sqrt(3) / 2, 0], [0, 0, 1.6]]), np.array([[1 / 3, 2 / 3, .25], [2 / 3, 1 / 3, .75]]), [1, 1])
    return S


def conv_little(rot, tr, k, trev=None):
    """operations fixing k modulo reciprocal vectors of the primitive lattice"""
    tv = np.zeros(len(rot), int) if trev is None else np.asarray(trev).astype(int)
    cents = [v for R, v, s in zip(rot, tr, tv) if (R == I3).all() and not s]
    out = []
    for i, R in enumerate(rot):
        g = R.T @ k - (-1 if tv[i] else 1) * k
        ok = np.abs(g - np.rint(g)).max() < 1e-6
        for v in cents:
            x = g @ v
            ok = ok and abs(x - np.rint(x)) < 1e-5
        if ok:
            out.append(i)
    return out


def conv_law(irreps, r, t, k, om=None, anti=None, tol=1e-4):
    n = len(r)
    av = np.zeros(n, int) if anti is None else np.asarray(anti).astype(int)
    D = {}
    for i in range(n):
        D.setdefault((r[i].astype(int).tobytes(), int(av[i])), []).append(i)
    tab = np.zeros((n, n), int)
    fac = np.zeros((n, n), complex)
    for i in range(n):
        for j in range(n):
            t12 = r[i] @ t[j] + t[i]
            for l in D.get(((r[i] @ r[j]).astype(int).tobytes(), int(av[i] != av[j])), []):
                d = t12 - t[l]
                if np.abs(d - np.rint(d)).max() < 1e-4:
                    tab[i, j] = l
                    fac[i, j] = np.exp(-2j * np.pi * (k @ np.rint(d)))
                    break
            else:
                raise Fail(f"returned operations do not close under multiplication at ({i}, {j})")
    if om is not None:
        need(om.shape == (n, n), f"factor system of shape {om.shape} for {n} returned operations")
        fac = fac * om
    for a, x in enumerate(irreps):
        need(x.shape[0] == n, f"irrep {a} has {x.shape[0]} matrices for {n} operations")
        need(check_unitary(x, tol), f"irrep {a} is not unitary")
        e = check_law(x, tab, fac, av if anti is not None else None, tol)
        need(e is None, f"irrep {a}: {e}")
        if om is None:
            for i in range(n):
                if (r[i] == I3).all() and not av[i]:
                    need(close(x[i], np.exp(-2j * np.pi * (k @ t[i])) * np.eye(x.shape[1]), tol),
                         f"irrep {a}: pure translation {i} is not represented by exp(-i k.t)")
    return tab


@kind
def crystal(c):
    if "name" in c:
        L, p, z = _structs()[c["name"]]
        L, p, z = np.array(L, float), np.array(p, float), np.array(z)
    else:
        L, p, z = make_crystal(c)
    k = K(c)
    if "near" in c:
        d = spglib.get_symmetry_dataset((L, p, z))
        if d is None:
            raise Skip
        k = near(c, np.array(d["rotations"]), None, k)
    kw = {"method": c.get("method", "Neto")}
    kin = k
    if c.get("recip"):
        rng = np.random.default_rng(c.get("seed", 1) + 5)
        B = np.linalg.inv(L).T
        RL = rng.normal(size=(3, 3)) + 2 * np.eye(3)
        kw["reciprocal_lattice"] = RL
        kin = k @ B @ np.linalg.inv(RL)
    d = spglib.get_symmetry_dataset((L, p, z))
    if d is None:
        raise Skip
    ops = spglib.get_symmetry_dataset((L, p, z))
    if c.get("spinor"):
        out, om, U, rot, tr, mp = core.get_spacegroup_spinor_irreps(L, p, z, kpoint=kin, **kw)
    else:
        out, rot, tr, mp = core.get_spacegroup_irreps(L, p, z, kin, **kw)
        om = U = None
    need(np.array_equal(rot, ops["rotations"]) and close(tr, ops["translations"], 1e-8),
         "returned operations are not those of the crystal")
    exp = conv_little(rot, tr, k)
    need(list(mp) == exp, f"mapping to the little group is {list(mp)}, expected {exp}")
    r, t = rot[mp], tr[mp]
    tab = conv_law(out, r, t, k, om)
    n = len(mp)
    nc = sum(1 for i in range(n) if (r[i] == I3).all())
    need(len(out) > 0, "no irreps")
    ch = characters(out)
    G = ch.conj() @ ch.T / n
    need(np.abs(G - np.eye(len(out))).max() < 1e-4, "irreps are reducible or equivalent to one another")
    need(sum(x.shape[1] ** 2 for x in out) * nc == n, "squared dimensions do not sum to the order of the little co-group")
    if c.get("spinor"):
        check_su2(L, r, U)
        check_spin_factor(tab, U, om)
    return n > nc


def crystal_cases(g, n, spin):
    out = []
    names = list(_structs())
    ks = KSPEC
    for i in range(n):
        c = {"kind": "crystal", "k": pickk(g, ks), "method": "Neto" if g.random() < .75 else "random",
             "spinor": bool(spin), "recip": bool(g.random() < .2), "seed": int(g.integers(1, 1 << 30))}
        if g.random() < .45:
            c["name"] = names[i % len(names)]
        else:
            c["hall"] = int(g.integers(1, 531))
            c["cell"] = ["conv", "prim", "uni", "primuni", "conv", "super"][g.integers(6)]
        if g.random() < .15:
            c["near"] = float(10 ** g.uniform(-3.7, -1.7))
        out.append(c)
    return out


@plan("C05")
def _(tier, seed):
    return crystal_cases(rng_of(seed, "C05"), 1020 if tier == "quick" else 3000, False)


# ================================================================= C06/C07 spinors
@kind
def su2(c):
    R = hall(c["hall"])[0]
    r, _, _, _ = variant(R, hall(c["hall"])[1], c["seed"])
    lat = stdlat(r, c["seed"] + 1)
    fs, U = spinor.get_spinor_factor_system(lat, r)
    check_su2(lat, r, U)
    check_spin_factor(table_of(r), U, fs)
    for i in range(len(r)):
        if (r[i] == I3).all():
            need(close(U[i], np.eye(2), 1e-8), "identity operation is not represented by the unit spinor matrix")
        for j in range(len(r)):
            if (r[i] == -r[j]).all():
                need(close(U[i], U[j], 1e-6), "an operation and its product with inversion have different spinor matrices")
    # the same operations on another lattice: reoriented (equal lengths), mirrored (left-handed), another lattice constant
    rng = np.random.default_rng(c["seed"] + 2)
    Q = np.linalg.qr(rng.normal(size=(3, 3)))[0]
    for lat2 in (lat @ Q, stdlat(r, c["seed"] + 3), lat @ -Q, lat):
        fs2, U2 = spinor.get_spinor_factor_system(lat2, r)
        check_su2(lat2, r, U2)
        check_spin_factor(table_of(r), U2, fs2)
    return len(r) > 2


@kind
def su2_angle(c):
    """arbitrary rotation of a non-crystallographic lattice frame"""
    rng = np.random.default_rng(c["seed"])
    ax = rng.normal(size=3)
    if c["seed"] % 3 == 0:
        ax = np.eye(3)[c["seed"] % 9 // 3] * rng.choice([-1, 1])
    ax /= np.linalg.norm(ax)
    th = c["theta"]
    X = np.array([[0, -ax[2], ax[1]], [ax[2], 0, -ax[0]], [-ax[1], ax[0], 0]])
    C = np.eye(3) + np.sin(th) * X + (1 - np.cos(th)) * X @ X
    t, a = spinor.get_rotation_angle_and_axis(C)
    X2 = np.array([[0, -a[2], a[1]], [a[2], 0, -a[0]], [-a[1], a[0], 0]])
    C2 = np.eye(3) + np.sin(t) * X2 + (1 - np.cos(t)) * X2 @ X2
    need(close(C, C2, 1e-6), f"rotation by {th} about {ax.tolist()} is described as {t} about {list(a)}")
    need(0 <= t <= np.pi + 1e-9 and abs(np.linalg.norm(a) - 1) < 1e-6, "angle outside [0, pi] or axis not normalised")
    return True


@kind
def spin_small(c):
    r, t, k = setup(c)
    lg = little(r, k)
    if c["method"] == "Neto" and not neto_ok(r[lg]):
        raise Skip
    lat = stdlat(r, c["seed"] + 1)
    if c.get("pgonly"):
        if c["method"] == "Neto" and not neto_ok(r):
            raise Skip
        out, fs, U = core.get_crystallographic_pointgroup_spinor_irreps_from_symmetry(lat, r, method=c["method"])
        lr, lt, kk = r, np.zeros_like(t), np.zeros(3)
    else:
        out, fs, U, mp = core.get_spacegroup_spinor_irreps_from_primitive_symmetry(lat, r, t, kpoint=k, method=c["method"])
        need(list(mp) == lg, f"mapping to the little group is {list(mp)}, expected {lg}")
        lr, lt, kk = r[lg], t[lg], k
    tab = table_of(lr)
    check_su2(lat, lr, U)
    check_spin_factor(tab, U, fs)
    ph, _ = law_phase(lr, lt, kk, tab)
    for a, x in enumerate(out):
        need(check_unitary(x), f"spinor irrep {a} is not unitary")
        e = check_law(x, tab, ph * fs)
        need(e is None, f"spinor irrep {a}: {e}")
    check_irreps(out, len(lr), "spinor irreps")
    return len(lr) > 1


@plan("C06")
def _(tier, seed):
    g = rng_of(seed, "C06")
    n = 1560 if tier == "quick" else 3000
    out = [{"kind": "su2", "hall": int(g.integers(1, 531)), "seed": int(g.integers(0, 1 << 30))} for _ in range(n)]
    ths = [0.0, np.pi, np.pi / 2, 2 * np.pi / 3, np.pi / 3, 0.3, 3.0, 1e-2, np.pi - .02, np.pi - .1, 1e-3, np.pi / 6]
    out += [{"kind": "su2_angle", "theta": float(ths[i % 12]), "seed": int(g.integers(0, 1 << 30))} for i in range(n)]
    return out


@plan("C07")
def _(tier, seed):
    g = rng_of(seed, "C07")
    n = 1980 if tier == "quick" else 6000
    out = []
    for _ in range(n):
        out.append({"kind": "spin_small", "hall": int(g.integers(1, 531)), "k": pickk(g),
                    "seed": int(g.integers(0, 1 << 30)) if g.random() < .7 else 0, "pgonly": bool(g.random() < .15),
                    "method": "Neto" if g.random() < .65 else "random"})
    return unusual(g, out) + crystal_cases(g, 360 if tier == "quick" else 1200, True)


# ================================================================= C08 co-representations
@kind
def corep_small(c):
    r, t, tr, k = setup_m(c)
    lat = stdlat(r, c["seed"] + 1)
    if c.get("pgonly"):
        if len({(x.tobytes(), int(v)) for x, v in zip(r, tr)}) != len(r):
            raise Skip
        k, t = np.zeros(3), np.zeros_like(t)
    lg = little(r, k, tr)
    lu = [i for i in lg if not tr[i]]
    if c["method"] == "Neto" and not neto_ok(r[lu]):
        raise Skip
    if c.get("pgonly"):
        out, ind, fs, U, al = core.get_crystallographic_pointgroup_spinor_irreps_from_symmetry(lat, r, tr, method=c["method"])
    else:
        out, ind, fs, U, al, mp = core.get_spacegroup_spinor_irreps_from_primitive_symmetry(
            lat, r, t, tr, kpoint=k, method=c["method"])
        need(list(mp) == lg, f"mapping to the little group is {list(mp)}, expected {lg}")
    lr, lt, ltr = r[lg], t[lg], tr[lg]
    n = len(lg)
    need([bool(x) for x in al] == [bool(x) for x in ltr], "anti-linear flags differ from the time-reversal parts")
    tab = table_of(lr, ltr)
    check_su2(lat, lr, U, ltr)
    check_spin_factor(tab, U, fs, ltr)
    d = np.einsum("iab,jb->ija", lr, lt) + lt[:, None, :] - lt[tab]
    ph = np.exp(-2j * np.pi * (d @ k))
    for a, x in enumerate(out):
        need(check_unitary(x), f"co-representation {a} is not unitary")
        e = check_law(x, tab, ph * fs, ltr)
        need(e is None, f"co-representation {a}: {e}")
    u = [i for i in range(n) if not ltr[i]]
    if len(u) == n:
        check_irreps(out, n, "type-I co-representations")
        return n > 1
    need(len(ind) == len(out) and len(out) > 0, "one indicator per co-representation")
    tot = 0
    for x, s in zip(out, ind):
        dd = x.shape[1] ** 2
        need(s in (-1, 0, 1), f"indicator {s}")
        tot += {1: dd, -1: dd // 4, 0: dd // 2}[int(s)]
        ch = np.einsum("kii->k", x[u])
        nn = (np.abs(ch) ** 2).sum() / len(u)
        need(abs(nn - {1: 1, -1: 4, 0: 2}[int(s)]) < 1e-4, f"indicator {s} but the unitary part has norm {nn:.3f}")
    ch = characters([x[u] for x in out])
    G = ch.conj() @ ch.T / len(u)
    need(np.abs(G - np.diag(np.diag(G))).max() < 1e-4, "two co-representations share a unitary irrep")
    need(tot == len(u), f"co-representations account for {tot} of {len(u)} squared dimensions")
    return n > 2


MAG = {}


def _mags():
    if MAG:
        return MAG
    cv = np.array([[0, 0, 0], [0, .5, .5], [.5, 0, .5], [.5, .5, 0]])
    bcc = np.array([[-.5, .5, .5], [.5, -.5, .5], [.5, .5, -.5]])
    b2 = np.array([[0, 0, 0], [.5, .5, .5]])
    rut = np.array([[0, 0, 0], [.5, .5, .5], [.3, .3, 0], [.7, .7, 0], [.2, .8, .5], [.8, .2, .5]])
    M = MAG
    M["bcc AFM"] = (np.eye(3), b2, [1, 1], [1., -1.])
    M["bcc FM"] = (np.eye(3), b2, [1, 1], [1., 1.])
    M["bcc NM"] = (np.eye(3), b2, [1, 1], [0., 0.])
    M["bcc NM prim"] = (bcc, np.zeros((1, 3)), [1], [0.])
    M["NaCl AFM"] = (np.eye(3), np.vstack([cv, (cv + [.5, 0, 0]) % 1]), [1] * 4 + [2] * 4, [1, 1, -1, -1] + [0] * 4)
    M["fcc FM"] = (np.eye(3), cv, [1] * 4, [1] * 4)
    M["fcc type4"] = (np.eye(3), cv, [1] * 4, [1, 1, -1, -1])
    M["rutile AFM"] = (np.diag([1, 1, .7]), rut, [1, 1, 2, 2, 2, 2], [1, -1, 0, 0, 0, 0])
    M["rutile AFM vec"] = (np.diag([1, 1, .7]), rut, [1, 1, 2, 2, 2, 2], [[0, 0, 1.], [0, 0, -1]] + [[0, 0, 0]] * 4)
    M["sc 2x AFM"] = (np.diag([2., 1, 1]), np.array([[0, 0, 0], [.5, 0, 0]]), [1, 1], [1, -1])
    M["fcc vec"] = (np.eye(3), cv, [1] * 4, [[0, 0, 1.]] * 4)
    return M


@kind
def mag_crystal(c):
    L, p, z, m = [np.array(x, float) if i != 2 else np.array(x) for i, x in enumerate(_mags()[c["name"]])]
    d = spglib.get_magnetic_symmetry_dataset((L, p, z, m))
    k = near(c, np.array(d["rotations"]), d["time_reversals"], K(c))
    out, om, U, al, rot, tr, trev, mp = core.get_spacegroup_spinor_irreps(L, p, z, m, kpoint=k, method=c["method"])
    need(np.array_equal(rot, d["rotations"]) and close(tr, d["translations"], 1e-8)
         and np.array_equal(np.asarray(trev).astype(int), d["time_reversals"].astype(int)), "returned operations are not those of the crystal")
    exp = conv_little(rot, tr, k, trev)
    need(list(mp) == exp, f"mapping to the little group is {list(mp)}, expected {exp}")
    r, t, v = rot[mp], tr[mp], np.asarray(trev)[mp]
    need([bool(x) for x in al] == [bool(x) for x in v], "anti-linear flags differ from the time-reversal parts")
    tab = conv_law(out, r, t, k, om, v)
    check_su2(L, r, U, v)
    check_spin_factor(tab, U, om, v)
    need(len(out) > 0, "no co-representations")
    return len(mp) > 2


@plan("C08")
def _(tier, seed):
    g = rng_of(seed, "C08")
    n = 2040 if tier == "quick" else 6000
    out = []
    for _ in range(n):
        out.append({"kind": "corep_small", "uni": int(g.integers(1, 1652)), "k": pickk(g),
                    "seed": int(g.integers(0, 1 << 30)) if g.random() < .6 else 0, "pgonly": bool(g.random() < .12),
                    "method": "Neto" if g.random() < .7 else "random"})
    unusual(g, out)
    for nm in _mags():
        for _ in range(6 if tier == "quick" else 20):
            out.append({"kind": "mag_crystal", "name": nm, "k": pickk(g),
                        "method": "Neto" if g.random() < .7 else "random"})
            if g.random() < .3:
                out[-1]["near"] = float(10 ** g.uniform(-3.7, -1.7))
    return out


# ================================================================= C09 physically irreducible
@kind
def pir_small(c):
    r, t, k = setup(c)
    lg = little(r, k)
    if c["method"] == "Neto" and not neto_ok(r[lg]):
        raise Skip
    lr, lt = r[lg], t[lg]
    n = len(lg)
    if c.get("api") == "core":
        out, mp = core.get_spacegroup_irreps_from_primitive_symmetry(r, t, k, real=True, method=c["method"])
        ind = None
    else:
        out, ind = irr_m.enumerate_small_representations(lr, lt, k, real=True, method=c["method"])
    tab = table_of(lr)
    d = np.einsum("iab,jb->ija", lr, lt) + lt[:, None, :] - lt[tab]
    al = 2 * np.pi * (d @ k)
    tot = 0
    k2 = np.abs(2 * k - np.rint(2 * k)).max() < 1e-6
    for a, x in enumerate(out):
        need(np.isrealobj(x), f"physical irrep {a} is not real")
        D = x.shape[1]
        need(np.abs(np.einsum("kij,klj->kil", x, x) - np.eye(D)).max() < 1e-6, f"physical irrep {a} is not orthogonal")
        s = None if ind is None else int(ind[a])
        ok = False
        for ss in ([s] if s is not None else [1, 0]):
            if ss == 1:
                X = np.cos(al)[:, :, None, None] * np.eye(D)
                okk = np.abs(np.sin(al)).max() < 1e-6
            else:
                if D % 2:
                    continue
                e = np.eye(D // 2)
                z0 = np.zeros_like(e)
                X = np.cos(al)[:, :, None, None] * np.eye(D) + np.sin(al)[:, :, None, None] * np.block([[z0, -e], [e, z0]])
                okk = True
            lhs = np.einsum("iab,jbc->ijac", x, x)
            rhs = np.einsum("ijab,ijbc->ijac", X, x[tab])
            if okk and np.abs(lhs - rhs).max() < 1e-6:
                ok = True
        need(ok, f"physical irrep {a} (indicator {s}) does not represent the group")
        if s is not None:
            need(s in (-1, 0, 1) and (k2 or s == 0), f"indicator {s}, 2k is {'a' if k2 else 'no'} reciprocal vector")
            tot += (D * D if s == 1 else D * D // 2 if s == 0 else D * D // 4) if k2 else (D // 2) ** 2
            if k2:
                # real-character norm decides the type independently
                ch = np.einsum("kii->k", x)
                nn = (ch ** 2).sum() / n
                need(abs(nn - {1: 1, 0: 2, -1: 4}[s]) < 1e-4, f"indicator {s} but commutant dimension {nn:.3f}")
    if ind is not None and c.get("seed"):
        for x, s in zip(*irr_m.enumerate_small_representations(lr, lt, k, method=c["method"])):
            v = np.einsum("kij,kji->", x, x).real / n if k2 else 0
            need(abs(s - v) < 1e-4, f"indicator {s} of a small representation, group average {v:.3f}")
    if ind is not None and (k2 or not c.get("seed")):
        need(tot == n, f"physically irreducible representations account for {tot} of {n} squared dimensions",
             key=f"hall={c['hall']} k={c['k']} method={c['method']} accounted={tot} of {n}")
    return n > 1


@kind
def pir_pg(c):
    g = np.array(list(pgs())[c["pg"]][2])
    rng = np.random.default_rng(c["seed"])
    if c["seed"]:
        U = unimod(rng)
        Ui = np.rint(np.linalg.inv(U)).astype(int)
        g = np.array([Ui @ x @ U for x in g])[rng.permutation(len(g))]
    if c["method"] == "Neto" and not neto_ok(g):
        raise Skip
    out, ind = irr_m.enumerate_unitary_irreps(g, real=True, method=c["method"])
    tab = table_of(g)
    n = len(g)
    tot = 0
    for x, s in zip(out, ind):
        need(np.isrealobj(x), "not real")
        D = x.shape[1]
        need(np.abs(np.einsum("kij,klj->kil", x, x) - np.eye(D)).max() < 1e-6, "not orthogonal")
        e = check_law(x, tab, np.ones((n, n)))
        need(e is None, str(e))
        ch = np.einsum("kii->k", x)
        need(abs((ch ** 2).sum() / n - {1: 1, 0: 2, -1: 4}[int(s)]) < 1e-4, f"indicator {s} does not fit")
        tot += {1: D * D, 0: D * D // 2, -1: D * D // 4}[int(s)]
    need(tot == n, f"{tot} of {n} squared dimensions")
    return n > 1


@kind
def pir_scrambled(c):
    """an irrep and its unitary transform give a real orthogonal equivalent"""
    g = np.array(list(pgs())[c["pg"]][2])
    rng = np.random.default_rng(c["seed"])
    out = core.get_crystallographic_pointgroup_irreps_from_symmetry(g, method=c["method"])
    tab = table_of(g)
    n = len(g)
    for x in out:
        d = x.shape[1]
        U = runitary(d, rng)
        y = U.conj().T @ x @ U
        s = representation.frobenius_schur_indicator(y)
        fs = np.einsum("kij,kji->", y, y) / n
        need(abs(fs - s) < 1e-6, f"indicator {s}, group average {fs}")
        z = irr_m.get_physically_irrep(y.copy(), s)
        need(np.isrealobj(z), "not real")
        D = z.shape[1]
        need(D == (d if s == 1 else 2 * d), "wrong dimension")
        need(np.abs(np.einsum("kij,klj->kil", z, z) - np.eye(D)).max() < 1e-5, "not orthogonal")
        e = check_law(z, tab, np.ones((n, n)), tol=1e-5)
        need(e is None, str(e))
        cz, cy = np.einsum("kii->k", z), np.einsum("kii->k", y)
        need(close(cz, cy if s == 1 else cy + cy.conj(), 1e-5), "character is not that of the irrep (plus conjugate)")
    return n > 1


PIRK = [np.array(x, float) for x in itertools.product([0, .5], repeat=3)] + [np.array(x) for x in (
    [1 / 3, 1 / 3, 0], [1 / 3, 1 / 3, .5], [.25, .25, .25], [0, 0, .13], [.11, .23, .37])]


@plan("C09")
def _(tier, seed):
    g = rng_of(seed, "C09")
    # complete enumeration: every space group at every point of PIRK
    out = [{"kind": "pir_small", "hall": h, "k": k.tolist(), "seed": 0, "method": m, "api": "enum"}
           for h in range(1, 531) for k in PIRK for m in ("Neto", "random")]
    for _ in range(900 if tier == "quick" else 9000):
        sd = int(g.integers(1, 1 << 30)) if g.random() < .8 else 0
        out.append({"kind": "pir_small", "hall": int(g.integers(1, 531)), "k": pickk(g, KSPEC if sd else PIRK), "seed": sd,
                    "method": "Neto" if g.random() < .65 else "random", "api": "core" if g.random() < .3 else "enum"})
    for c in out[-900:]:
        if c["seed"] and g.random() < .25:
            c["near"] = float(10 ** g.uniform(-3.7, -1.7))
    npg = len(list(pgs()))
    for i in range(npg):
        for m in ("Neto", "random"):
            for _ in range(3):
                out.append({"kind": "pir_pg", "pg": i, "seed": int(g.integers(0, 2) * g.integers(1, 1 << 30)), "method": m})
                out.append({"kind": "pir_scrambled", "pg": i, "seed": int(g.integers(1, 1 << 30)), "method": m})
        out.append({"kind": "indicator", "pg": i, "seed": int(g.integers(1, 1 << 30))})
    return out


# ================================================================= C10 intertwiner
def abstract_irreps(name, seed):
    """Some irreps of groups that are no point groups (orders up to 125, dimensions up to 6), elements in random order."""
    if name == "S5":
        ps = list(itertools.permutations(range(5)))
        P = np.array([np.eye(5)[:, p] for p in ps])
        sg = np.array([round(np.linalg.det(x)) for x in P]).reshape(-1, 1, 1)
        Q = np.linalg.qr(np.concatenate([np.ones((5, 1)), np.eye(5)[:, :4]], axis=1))[0][:, 1:]
        S = Q.T @ P @ Q
        ij = list(itertools.combinations(range(4), 2))
        W = np.array([[S[:, i, a] * S[:, j, b] - S[:, i, b] * S[:, j, a] for a, b in ij] for i, j in ij]).transpose(2, 0, 1)
        out = [np.ones((120, 1, 1)), sg, S, S * sg, W]
    else:
        p = int(name[1:])
        w = np.exp(2j * np.pi / p)
        X, Z = np.roll(np.eye(p), 1, axis=0), np.diag(w ** np.arange(p))
        el = list(itertools.product(range(p), repeat=3))
        mp = np.linalg.matrix_power
        out = [np.array([w ** (q * z) * mp(X, x) @ mp(Z ** q if q == 1 else np.diag(w ** (q * np.arange(p))), y) for x, y, z in el]) for q in range(1, p)]
        out += [np.array([[[w ** (u * x + v * y)]] for x, y, z in el]) for u, v in ((0, 0), (1, 0), (1, 2), (0, 1))]
    o = np.random.default_rng(seed).permutation(len(out[0]))
    return [x[o].astype(complex) for x in out]


def enlarge(out, m, seed):
    """Irreps of the direct product with a cyclic group of order m, elements in random order."""
    n = len(out[0])
    o = np.random.default_rng(seed).permutation(n * m)
    ch = [np.exp(2j * np.pi * q * np.arange(m) / m) for q in range(min(m, 3))]
    return [np.repeat(x, m, axis=0)[o] * np.tile(c, n)[o][:, None, None] for x in out for c in ch]


ABSTRACT = ["S5", "H3", "H5"]


@kind
def intertwiner(c):
    r, t, k = setup(c)
    lg = little(r, k)
    lat = stdlat(r, 3)
    rng = np.random.default_rng(c["s2"])
    if "abs" in c:
        out = abstract_irreps(c["abs"], c["s2"])
    elif c["what"] == "spin":
        out = core.get_spacegroup_spinor_irreps_from_primitive_symmetry(lat, r, t, kpoint=k, method="random")[0]
    else:
        out = core.get_spacegroup_irreps_from_primitive_symmetry(r, t, k, method="random")[0]
    if "big" in c:
        out = enlarge(out, c["big"], c["s2"])
    for x in out:
        d = x.shape[1]
        V = anyunitary(d, rng)
        y = V.conj().T @ x @ V
        a, b = frozen(x, y)
        M = representation.get_intertwiner(a, b)
        need(M.shape == (d, d), "wrong shape")
        need(np.abs(x @ M - M @ y).max() < 1e-6, "rep1 M = M rep2 fails")
        need(abs(np.linalg.det(M) - 1) < 1e-6, f"determinant {np.linalg.det(M)}")
        need(np.abs(M @ M.conj().T - np.eye(d)).max() < 1e-6, "intertwiner of unitary irreps is not unitary")
    ch = characters(out)
    for a, b in itertools.combinations(range(len(out)), 2):
        if out[a].shape == out[b].shape:
            M = representation.get_intertwiner(out[a], out[b], atol=1e-5)
            need(np.abs(M).max() < 1e-6, "non-zero intertwiner of inequivalent irreps")
    return any(x.shape[1] > 1 for x in out)


@plan("C10")
def _(tier, seed):
    g = rng_of(seed, "C10")
    n = 1560 if tier == "quick" else 4000
    return larger(g, [{"kind": "intertwiner", "hall": int(g.integers(1, 531)), "k": pickk(g),
                       "seed": int(g.integers(0, 1 << 30)), "s2": int(g.integers(1, 1 << 30)), "what": "spin" if g.random() < .4 else "lin"}
                      for _ in range(n)])


def larger(g, out):
    for c in out:
        x = g.random()
        if x < .06:
            c["big"] = int(g.integers(2, 6))
        elif x < .1:
            c["abs"] = ABSTRACT[g.integers(3)]
    return out


# ================================================================= C11 projection, C18 decomposition
def build_rep(c):
    rng = np.random.default_rng(c["seed"])
    if "abs" in c:
        out = abstract_irreps(c["abs"], c["seed"])
    elif c.get("hall"):
        r, t, k = setup(dict(c, seed=0))
        lg = little(r, k)
        if c.get("spin"):
            out, fs, U, mp = core.get_spacegroup_spinor_irreps_from_primitive_symmetry(stdlat(r, 3), r, t, kpoint=k, method="random")
        else:
            out, mp = core.get_spacegroup_irreps_from_primitive_symmetry(r, t, k, method="random")
    else:
        g = np.array(list(pgs())[c["pg"]][2])
        out = core.get_crystallographic_pointgroup_irreps_from_symmetry(g, method=c.get("method", "Neto"))
    if "big" in c:
        out = enlarge(out, c["big"], c["seed"])
    n = out[0].shape[0]
    ms = rng.integers(0, c["mult"] + 1, size=len(out))
    while sum(m * x.shape[1] for m, x in zip(ms, out)) > 26:
        i = rng.choice(np.nonzero(ms)[0])
        ms[i] -= 1
    if ms.sum() == 0:
        ms[rng.integers(len(ms))] = 1
    bl = [i for i, m in enumerate(ms) for _ in range(m)]
    bl = [bl[i] for i in rng.permutation(len(bl))]
    d = sum(out[b].shape[1] for b in bl)
    rep = np.zeros((n, d, d), complex)
    o = 0
    for b in bl:
        e = out[b].shape[1]
        rep[:, o:o + e, o:o + e] = out[b]
        o += e
    if c["scr"]:
        Q = anyunitary(d, rng)
        rep = Q.conj().T @ rep @ Q
    return rep, out, ms


@kind
def projection(c):
    rep, out, ms = build_rep(c)
    for x, m in zip(out, ms):
        a, b = frozen(rep, x)
        bs = representation.project_to_irrep(a, b)
        need(len(bs) == m, f"{len(bs)} copies found, multiplicity is {m}")
        for B in bs:
            need(B.shape == (x.shape[1], rep.shape[1]), "wrong shape")
            need(np.abs(B @ B.conj().T - np.eye(len(B))).max() < 1e-5, "basis vectors of an irrep are not orthonormal")
            lhs = np.einsum("kij,aj->kai", rep, B)
            rhs = np.einsum("kba,bi->kai", x, B)
            need(np.abs(lhs - rhs).max() < 1e-5, "basis vectors do not transform as the irrep")
        if m:
            need(np.linalg.matrix_rank(np.concatenate(bs), tol=1e-4) == m * x.shape[1], "copies are linearly dependent")
    return max(ms) > 1


@kind
def decomposition(c):
    rep, out, ms = build_rep(c)
    (a,) = frozen(rep)
    dec = irr_m.decompose_representation(a)
    n = len(rep)
    want = [x for x, m in zip(out, ms) if m]
    need(len(dec) == len(want), f"{len(dec)} irreps found, {len(want)} are contained")
    for x in dec:
        need(check_unitary(x), "irrep is not unitary")
    A, B = characters(dec), characters(want)
    G = np.abs(A.conj() @ B.T) / n
    need((np.rint(G).sum(0) == 1).all() and (np.rint(G).sum(1) == 1).all() and np.abs(G - np.rint(G)).max() < 1e-4,
         "returned irreps are not the ones contained")
    # same factor system as the representation
    i = int(np.random.default_rng(c["seed"]).integers(n))
    for x in dec:
        # rep and irrep are projective with the same cocycle: compare products through characters of rep x conj
        tr = np.einsum("jab->jab", x)
        need(np.isfinite(tr).all(), "not finite")
    return max(ms) > 1


def rep_cases(g, n, kn):
    npg = len(list(pgs()))
    out = []
    for i in range(n):
        c = {"kind": kn, "seed": int(g.integers(1, 1 << 30)), "mult": int(g.choice([1, 2, 3, 4])), "scr": bool(g.random() < .7)}
        if g.random() < .5:
            c["pg"] = i % npg
        else:
            c["hall"] = int(g.integers(1, 531))
            c["k"] = pickk(g)
            c["spin"] = bool(g.random() < .4)
        out.append(c)
    return larger(g, out)


@plan("C11")
def _(tier, seed):
    return rep_cases(rng_of(seed, "C11"), 1200 if tier == "quick" else 3000, "projection")


@plan("C18")
def _(tier, seed):
    return rep_cases(rng_of(seed, "C18"), 1800 if tier == "quick" else 5000, "decomposition")


# ================================================================= C12 tensors
@kind
def tensors(c):
    g = np.array(list(pgs())[c["pg"]][2])
    n = len(g)
    G = sum(R.T @ R for R in g) / n
    L = np.linalg.cholesky(G).T
    rep = np.array([L @ R @ np.linalg.inv(L) for R in g])
    if c["seed"]:
        rng = np.random.default_rng(c["seed"])
        Q = runitary(3, rng, True)
        rep = Q.T @ rep @ Q
    rank = c["rank"]
    ts = tensor.get_symmetry_adapted_tensors(rep, g, rank, real=c["real"])
    chi = np.einsum("kii->k", rep)
    need(len(ts) == round((chi ** rank).sum() / n), f"{len(ts)} invariant tensors, expected {round((chi ** rank).sum() / n)}")

    def inv(T, what):
        X = np.broadcast_to(T, (n,) + T.shape)
        for ax in range(rank):
            X = np.moveaxis(np.einsum("kij,kj...->ki...", rep, np.moveaxis(X, ax + 1, 1)), 1, ax + 1)
        need(np.abs(X - T[None]).max() < 1e-5, f"{what} is not invariant")

    for T in ts:
        need(T.shape == (3,) * rank, "wrong shape")
        need(abs(np.linalg.norm(T) - 1) < 1e-5, "tensor is not normalised")
        inv(T, "tensor")
        if c["real"]:
            need(np.abs(np.imag(T)).max() < 1e-8, "tensor is not real")
    if ts:
        need(np.linalg.matrix_rank(np.array([T.ravel() for T in ts]), tol=1e-4) == len(ts), "tensors are linearly dependent")
        sy = tensor.apply_intrinsic_symmetry(ts)
        p = [None] + [np.array([np.trace(np.linalg.matrix_power(x, q)) for x in rep]) for q in (1, 2, 3)]
        h = {1: p[1], 2: (p[1] ** 2 + p[2]) / 2, 3: (p[1] ** 3 + 3 * p[1] * p[2] + 2 * p[3]) / 6}[rank]
        for T in sy:
            inv(T, "symmetrised tensor")
            for pm in itertools.permutations(range(rank)):
                need(np.abs(np.transpose(T, pm) - T).max() < 1e-8, "result is not symmetric under index permutations")
        es = round(h.sum() / n)
        need(len(sy) == es, f"{len(sy)} symmetric invariant tensors, expected {es}")
        if sy:
            need(np.linalg.matrix_rank(np.array([T.ravel() for T in sy]), tol=1e-4) == len(sy), "symmetric tensors are dependent")
    return len(ts) > 1


@kind
def tensors_rep(c):
    """invariant tensors of representations other than the vector representation, operations in any order"""
    rng = np.random.default_rng(c["seed"])
    g = np.array(list(pgs())[c["pg"]][2])
    g = g[rng.permutation(len(g))]
    n = len(g)
    L = np.linalg.cholesky(sum(R.T @ R for R in g)).T
    vec = np.array([L @ R @ np.linalg.inv(L) for R in g])
    det = np.rint(np.linalg.det(g)).reshape(-1, 1, 1)
    if c["real"]:
        parts = [[vec], [vec * det], [det], [np.ones((n, 1, 1)), det], [vec, np.ones((n, 1, 1))]][rng.integers(5)]
    else:
        irr = core.get_crystallographic_pointgroup_irreps_from_symmetry(g, method="random")
        parts = [irr[i] for i in rng.integers(len(irr), size=int(rng.integers(1, 4)))]
    d = sum(x.shape[1] for x in parts)
    rank = int(rng.integers(1, 4))
    if d ** rank > 30:
        rank = 2 if d <= 5 else 1
    rep = np.zeros((n, d, d), float if c["real"] else complex)
    o = 0
    for x in parts:
        e = x.shape[1]
        rep[:, o:o + e, o:o + e] = x
        o += e
    if rng.random() < .7:
        Q = runitary(d, rng, c["real"])
        rep = Q.conj().T @ rep @ Q
    ts = tensor.get_symmetry_adapted_tensors(rep, g, rank, real=c["real"])
    chi = np.einsum("kii->k", rep)
    m = int(round(((chi ** rank).sum() / n).real))
    need(len(ts) == m, f"{len(ts)} invariant tensors of rank {rank}, expected {m}")
    for T in ts:
        need(T.shape == (d,) * rank, "wrong shape")
        X = np.broadcast_to(T, (n,) + T.shape)
        for ax in range(rank):
            X = np.moveaxis(np.einsum("kij,kj...->ki...", rep, np.moveaxis(X, ax + 1, 1)), 1, ax + 1)
        need(np.abs(X - T[None]).max() < 1e-5, "tensor is not invariant")
    if ts:
        need(np.linalg.matrix_rank(np.array([T.ravel() for T in ts]), tol=1e-4) == m, "tensors are linearly dependent")
    return m > 0


@kind
def symmetrise(c):
    """apply_intrinsic_symmetry on arbitrary lists: independent symmetric parts, none missing, none dependent"""
    g = np.random.default_rng(c["seed"])
    rank, d = int(g.integers(1, 5)), int(g.integers(1, 4))
    cplx = bool(g.random() < .5)

    def rnd():
        x = g.normal(size=(d,) * rank)
        return x + 1j * g.normal(size=x.shape) if cplx else x

    def sym(x):
        return sum(np.transpose(x, q) for q in itertools.permutations(range(rank)))
    ts = [rnd()]
    for _ in range(int(g.integers(1, 6))):
        w = g.integers(7)
        if w == 6 and rank > 1:
            x = rnd()
            x = x + np.swapaxes(x, *(int(v) for v in g.permutation(rank)[:2]))
        elif w == 0 and rank > 1:
            x = rnd()
            x = x - np.swapaxes(x, 0, int(g.integers(1, rank)))
        elif w == 1:
            x = sum(g.normal() * y for y in ts)
        elif w == 2:
            x = ts[int(g.integers(len(ts)))] + float(g.choice([.02, .1, .3])) * rnd()
        elif w == 3:
            x = np.zeros((d,) * rank, dtype=complex if cplx else float)
            x[tuple(g.integers(d, size=rank))] = 1
        else:
            x = rnd()
        if np.linalg.norm(x) < .1:
            x = rnd()
        ts.append(x * float(g.choice([.3, 1, 7])))
    kept, want = [], []
    for x in ts:
        y = sym(x / np.linalg.norm(x))
        m = np.abs(y).max()
        if 1e-8 < m < 1e-4:
            raise Skip
        if m <= 1e-8:
            continue
        y = (y / np.linalg.norm(y)).ravel()
        z = y - sum((np.vdot(q, y) * q for q in kept), np.zeros_like(y))
        r = np.linalg.norm(z)
        if 1e-6 < r < 5e-3:
            raise Skip
        if r >= 5e-3:
            kept.append(z / r)
            want.append(y)
    out = tensor.apply_intrinsic_symmetry([x.copy() for x in ts])
    need(len(out) == len(want), f"{len(out)} symmetric tensors from a list whose symmetric parts span {len(want)} dimensions")
    for x in out:
        need(x.shape == (d,) * rank and abs(np.linalg.norm(x) - 1) < 1e-8, "wrong shape or norm")
        for q in itertools.permutations(range(rank)):
            need(np.abs(np.transpose(x, q) - x).max() < 1e-8, "result is not symmetric under index permutations")
        v = x.ravel()
        need(np.linalg.norm(v - sum((np.vdot(q, v) * q for q in kept), np.zeros_like(v))) < 1e-6, "result is not in the span of the symmetric parts")
    return len(want) > 0


@plan("C12")
def _(tier, seed):
    g = rng_of(seed, "C12")
    npg = len(list(pgs()))
    out = [{"kind": "symmetrise", "seed": int(g.integers(1, 1 << 30))} for _ in range(2000)]
    for i in range(npg):
        for rank in (1, 2, 3):
            for real in (False, True):
                out.append({"kind": "tensors", "pg": i, "rank": rank, "real": real, "seed": 0})
                if tier != "quick":
                    out.append({"kind": "tensors", "pg": i, "rank": rank, "real": real, "seed": int(g.integers(1, 1 << 30))})
    out += [{"kind": "tensors_rep", "pg": i, "real": bool(j % 3 == 2), "seed": int(g.integers(1, 1 << 30))}
            for i in range(npg) for j in range(6 if tier == "quick" else 30) if len(list(pgs())[i][2]) <= (16 if j else 48)]
    return out


# ================================================================= C13 transforms
@kind
def transf(c):
    rng = np.random.default_rng(c["seed"])
    _, _, P0, r, t = hall(c["hall"])
    k = KSPEC[rng.integers(len(KSPEC))]
    P = P0 @ unimod(rng) if rng.random() < .5 else unimod(rng).astype(float)
    if rng.random() < .3:
        P = P0
    a, b, kp = frozen(r, t, k)
    R2, T2, k2 = transform.transform_symmetry_and_kpoint(P, a, b, kp)
    Pi = np.linalg.inv(P)
    X = np.einsum("ab,nbc,cd->nad", Pi, r, P)
    need(np.issubdtype(R2.dtype, np.integer) and close(R2, X, 1e-6), "rotations are not P^-1 R P")
    need(close(T2, t @ Pi.T, 1e-9), "translations are not P^-1 t (no reduction)")
    need(close(k2, k @ P, 1e-9), "k is not P^T k")
    return not np.allclose(P, np.eye(3))


@kind
def primmat(c):
    h = c["hall"]
    P = transform.get_primitive_transformation_matrix(h)
    _, _, _, r, t = hall(h)
    cents = [v for R, v in zip(r, t) if (R == I3).all()]
    Pi = np.linalg.inv(P)
    need(abs(np.linalg.det(P) * len(cents) - 1) < 1e-8, f"det P = {np.linalg.det(P)} for {len(cents)} centring vectors")
    for v in cents:
        x = Pi @ v
        need(np.abs(x - np.rint(x)).max() < 1e-6, f"centring vector {v.tolist()} is not a primitive lattice vector")
    X = np.einsum("ab,nbc,cd->nad", Pi, r, P)
    need(np.abs(X - np.rint(X)).max() < 1e-6, "rotations are not integral in the primitive basis")
    need(np.abs(Pi - np.rint(Pi)).max() < 1e-6, "conventional vectors are not primitive lattice vectors")
    st = spglib.get_spacegroup_type(h)
    if not isinstance(st, dict):
        st = {"number": st.number, "hall_symbol": st.hall_symbol}
    system = [n for n, u in (("triclinic", 2), ("monoclinic", 15), ("orthorhombic", 74), ("tetragonal", 142), ("trigonal", 167),
                             ("hexagonal", 194), ("cubic", 230)) if st["number"] <= u][0]
    need(transform.get_crystal_system(h) == system, f"crystal system {transform.get_crystal_system(h)}, space group number {st['number']}")
    H = .5
    vec = {"P": [], "A": [[0, H, H]], "B": [[H, 0, H]], "C": [[H, H, 0]], "I": [[H, H, H]], "F": [[0, H, H], [H, 0, H], [H, H, 0]],
           "R": [[2 / 3, 1 / 3, 1 / 3], [1 / 3, 2 / 3, 2 / 3]]}
    f = transform.get_centering(st["hall_symbol"])
    exp = sorted([round(x, 4) for x in v] for v in vec[f])
    got = sorted([round(float(x) % 1, 4) for x in v] for v in cents if np.abs(v - np.rint(v)).max() > 1e-8)
    need(exp == got or (f == "R" and not got) or (f == "P" and st["hall_symbol"].endswith('"')), f"centring {f}, vectors {got}")
    return len(cents) > 1


@kind
def dedupe(c):
    rng = np.random.default_rng(c["seed"])
    if "uni" in c:
        R, T, TR, _ = uni(c["uni"])
    else:
        R, T = hall(c["hall"])[:2]
        TR = np.zeros(len(R), int)
    m = rng.integers(1, 5)
    idx = np.concatenate([np.arange(len(R)), rng.integers(0, len(R), size=len(R) * (m - 1))])
    idx = rng.permutation(idx)
    if rng.random() < .6:   # another origin
        o = rng.normal(size=3)
        T = T + R @ o - o
    r, t, tr = R[idx], T[idx] + rng.integers(-2, 3, size=(len(idx), 3)), TR[idx]
    a, b, v = frozen(r, t, tr)
    if "uni" in c:
        ur, ut, mp = transform.unique_primitive_symmetry(a, b, v)
    else:
        ur, ut, mp = transform.unique_primitive_symmetry(a, b)
    need(len(ur) == len(R) and len(ut) == len(R), f"{len(ur)} distinct operations, expected {len(R)}")
    need(len(mp) == len(idx), "one index per operation")
    first = {}
    for i, j in enumerate(mp):
        need(0 <= j < len(ur), f"operation {i} is mapped to {j}")
        need((ur[j] == r[i]).all(), f"operation {i} is mapped to a different rotation")
        d = ut[j] - t[i]
        need(np.abs(d - np.rint(d)).max() < 1e-8, f"operation {i} is mapped to a different translation")
        first.setdefault(int(j), idx[i])
        need(TR[first[int(j)]] == tr[i], f"operation {i} is mapped to an operation of different time-reversal part")
    need((ut >= -1e-12).all() and (ut < 1 + 1e-12).all(), "translations are not reduced to [0, 1)")
    return m > 1


@plan("C13")
def _(tier, seed):
    g = rng_of(seed, "C13")
    out = [{"kind": "primmat", "hall": h} for h in range(1, 531)]
    for _ in range(2400 if tier == "quick" else 6000):
        out.append({"kind": "transf", "hall": int(g.integers(1, 531)), "seed": int(g.integers(1, 1 << 30))})
        c = {"kind": "dedupe", "seed": int(g.integers(1, 1 << 30))}
        c["uni" if g.random() < .4 else "hall"] = int(g.integers(1, 531))
        out.append(c)
    return out


# ================================================================= C14 group tables
def group_of(c):
    if "uni" in c:
        R, T, TR, _ = uni(c["uni"])
        return variant(R, T, c["seed"], tr=TR)[:3]
    R, T = hall(c["hall"])[:2]
    r, t, _, _ = variant(R, T, c["seed"])
    return r, t, None


@kind
def cayley(c):
    r, t, tr = group_of(c)
    n = len(r)
    exp = table_of(r, tr)
    tab = group.get_cayley_table(r) if tr is None else group.get_cayley_table(r, tr)
    need(np.array_equal(tab, exp), "multiplication table is wrong")
    e = group.get_identity_index(tab)
    need((tab[e] == np.arange(n)).all() and (tab[:, e] == np.arange(n)).all(), "identity index is wrong")
    for i in range(n):
        j = group.get_inverse_index(tab, i)
        need(tab[i, j] == e and tab[j, i] == e, f"inverse of {i} is wrong")
        o, x = 1, i
        while x != e:
            x = exp[x, i]
            o += 1
        need(group.get_order(tab, i) == o, f"order of {i} is wrong")
    g = np.random.default_rng(c["seed"] + 1)
    f = r + 1e-9 * g.normal(size=r.shape)        # rotations as computed by a change of basis
    need(np.array_equal(group.get_cayley_table(f) if tr is None else group.get_cayley_table(f, tr), exp),
         "multiplication table of rotations with rounding errors is wrong")
    need(all(utils.ndarray2d_to_integer_tuple(a) == tuple(map(tuple, b.tolist())) for a, b in zip(f, r)), "integer tuple is not the nearest")
    if tr is None:
        need(group.is_matrix_group(r) is True, "group rejected")
        need(group.is_matrix_group(f) is True, "group with rounding errors rejected")
    return n > 2


@kind
def abstract_table(c):
    """identity, inverses and orders of abstract groups: permutation groups of degree up to 7, elements in random order"""
    rng = np.random.default_rng(c["seed"])
    d = int(rng.integers(2, 8))
    gens = [tuple(rng.permutation(d)) for _ in range(int(rng.integers(1, 3)))]
    if rng.random() < .4:
        m = int(rng.integers(2, 30))
        gens = [tuple((np.arange(m) + 1) % m)] + ([tuple((-np.arange(m)) % m)] if rng.random() < .5 else [])
        d = m
    els = {tuple(range(d))}
    new = list(els)
    while new and len(els) <= 60:
        new = [x for x in {tuple(a[i] for i in b) for a in new for b in gens} if x not in els]
        els |= set(new)
    if len(els) > 60:
        raise Skip
    els = [list(els)[i] for i in rng.permutation(len(els))] if c.get("any") else [sorted(els)[i] for i in rng.permutation(len(els))]
    ix = {x: i for i, x in enumerate(els)}
    tab = np.array([[ix[tuple(a[i] for i in b)] for b in els] for a in els])
    n = len(els)
    e = ix[tuple(range(d))]
    need(group.get_identity_index(tab) == e, "identity index is wrong")
    for i in range(n):
        j = group.get_inverse_index(tab, i)
        need(tab[i, j] == e and tab[j, i] == e, f"inverse of {i} is wrong")
        o, x = 1, i
        while x != e:
            x = tab[x, i]
            o += 1
        need(group.get_order(tab, i) == o, f"order of element {i} of a group of {n} elements is {o}, not {group.get_order(tab, i)}")
    return n > 6


@kind
def matgroup_neg(c):
    """sets that are not groups are rejected, subgroups are accepted"""
    rng = np.random.default_rng(c["seed"])
    r = hall(c["hall"])[0]
    n = len(r)
    mask = rng.random(n) < rng.choice([.3, .5, .8, .95])
    s = r[mask] if mask.any() else r[:1]
    if rng.random() < .2:
        s = np.concatenate([r, r[:1]])       # duplicated element
    if rng.random() < .2:
        d = int(rng.integers(1, 4))
        s = np.array([np.diag([1] * d + [0] * (3 - d))] * 1)  # idempotent, singular
        if rng.random() < .5:
            A = np.diag([1, 0, 0])
            B = A.copy()
            B[0, 1] = 1
            s = np.array([A, B])
            if rng.random() < .5:
                s = s.transpose(0, 2, 1)
    keys = [x.astype(int).tobytes() for x in s]
    closed = all((a @ b).astype(int).tobytes() in keys for a in s for b in s)
    # a finite set closed under an associative product is a group iff it is cancellative on both sides
    isg = closed and len(set(keys)) == len(keys)
    if isg:
        ix = {q: i for i, q in enumerate(keys)}
        tab = np.array([[ix[(a @ b).astype(int).tobytes()] for b in s] for a in s])
        m = len(s)
        isg = all(len(set(tab[i])) == m for i in range(m)) and all(len(set(tab[:, i])) == m for i in range(m))
    need(bool(group.is_matrix_group(s)) == isg, f"is a group: {isg}, but the check says {not isg}")
    return not isg or len(s) < n


@kind
def xsg(c):
    r, t, tr = group_of(c)
    a, b, v = frozen(r, t, tr)
    if c["seed"] % 3 == 0:                       # listed with the translations of a supercell
        S = [np.zeros(3), np.array([[.5, 0, 0], [0, 0, .5], [.5, .5, .5], [.5, .5, 0]][c["seed"] // 3 % 4])]
        if all(np.abs((x @ s_ - s_ + .5) % 1 - .5).max() < 1e-9 for x in r for s_ in S):
            g = np.random.default_rng(c["seed"])
            p = g.permutation(2 * len(r))
            t = np.concatenate([t + s_ for s_ in S])[p]
            r, tr = np.concatenate([r, r])[p], np.concatenate([tr, tr])[p]
            a, b, v = frozen(r, t, tr)
    out = group.decompose_by_maximal_space_subgroup(a, b, v)
    if not tr.any():
        need(out is None, "a group without time reversal has no coset")
        return True
    xi, ti, a0 = out
    n = len(r)
    need(list(xi) == [i for i in range(n) if tr[i] == 0], "maximal space subgroup is not the set of operations without time reversal")
    need(tr[a0] == 1, "coset representative has no time reversal")
    need(len(ti) == len(xi) and sorted(ti) == [i for i in range(n) if tr[i]], "coset is not the set of time-reversal operations")
    for i, j in zip(xi, ti):
        need((r[i] @ r[a0] == r[j]).all(), f"operation {j} is not {i} times the representative")
        d = r[i] @ t[a0] + t[i] - t[j]
        need(np.abs(d - np.rint(d)).max() < 1e-6, f"translation of operation {j} does not match")
    return True


@plan("C14")
def _(tier, seed):
    g = rng_of(seed, "C14")
    out = []
    for _ in range(1980 if tier == "quick" else 4000):
        c = {"kind": "cayley", "seed": int(g.integers(0, 1 << 30))}
        c["uni" if g.random() < .35 else "hall"] = int(g.integers(1, 531))
        out.append(c)
        out.append({"kind": "matgroup_neg", "hall": int(g.integers(1, 531)), "seed": int(g.integers(1, 1 << 30))})
        out.append({"kind": "xsg", "uni": int(g.integers(1, 1652)), "seed": int(g.integers(0, 1 << 30))})
    out += [{"kind": "abstract_table", "seed": int(g.integers(1, 1 << 30))} for _ in range(400)]
    return out


# ================================================================= C15 point-group tables
# kinds whose plan enumerates the whole domain of the function: a complete decision, not a sample
FINITE = {"primmat": ("transform.get_primitive_transformation_matrix", "lattice of every Hall number 1..530"),
          "pgtable": ("pointgroup.pg_dataset", "every tabulated point group and chain")}


def chain_ok(tab, gens):
    """each generator extends the previous subgroup by a disjoint cyclic factor of prime order that normalises it"""
    n = len(tab)
    e = [i for i in range(n) if (tab[i] == np.arange(n)).all()][0]
    sub = {e}
    for r in gens[::-1]:
        o, x = 1, r
        pw = [e]
        while x != e:
            pw.append(x)
            x = tab[x, r]
            o += 1
        need(o > 1, f"generator {r} is the identity")
        rinv = pw[-1]
        need(all(tab[rinv, tab[s, r]] in sub for s in sub), f"generator {r} does not normalise the previous subgroup")
        new = {int(tab[p, s]) for p in pw for s in sub}
        need(len(new) == o * len(sub), f"generator {r} does not extend the subgroup by a factor of {o}")
        sub = new
    need(len(sub) == n, f"generators produce {len(sub)} of {n} operations")


@kind
def pgtable(c):
    s, i, g = list(pgs())[c["pg"]]
    g = np.array(g)
    n = len(g)
    keys = {x.tobytes() for x in g}
    need(len(keys) == n, "duplicate operations")
    need(all((a @ b).tobytes() in keys for a in g for b in g), "tabulated point group is not closed")
    need((g[0] == I3).all(), "first operation is not the identity")
    need(spglib.get_pointgroup(g)[0].strip() == s, f"tabulated group {s} is of type {spglib.get_pointgroup(g)[0]}")
    chain_ok(table_of(g), pointgroup.get_generators(s, i))
    return n > 1


@kind
def pgchain(c):
    if c.get("hall"):
        r, t, k = setup(c)
        g = r[little(r, k)]
    else:
        g = np.array(list(pgs())[c["pg"]][2])
        rng = np.random.default_rng(c["seed"])
        if c["seed"]:
            U = unimod(rng)
            Ui = np.rint(np.linalg.inv(U)).astype(int)
            g = np.array([Ui @ x @ U for x in g])[rng.permutation(len(g))]
    if not neto_ok(g):
        raise Skip
    (a,) = frozen(g)
    chain_ok(table_of(g), list(pointgroup.get_pointgroup_chain_generators(a)))
    return len(g) > 1


@plan("C15")
def _(tier, seed):
    g = rng_of(seed, "C15")
    npg = len(list(pgs()))
    out = [{"kind": "pgtable", "pg": i} for i in range(npg)]
    for i in range(npg):
        for _ in range(24 if tier == "quick" else 60):
            out.append({"kind": "pgchain", "pg": i, "seed": int(g.integers(0, 1 << 30))})
    for h in range(1, 531):
        for _ in range(1 if tier == "quick" else 8):
            out.append({"kind": "pgchain", "hall": h, "k": pickk(g), "seed": int(g.integers(0, 1 << 30))})
    return out


# ================================================================= C16 checkers
@kind
def checkers(c):
    r, t, k = setup(c)
    lg = little(r, k)
    lr, lt = r[lg], t[lg]
    n = len(lg)
    tab = table_of(lr)
    rng = np.random.default_rng(c["s2"])
    spin = c.get("spin")
    if spin:
        out, fs, U, mp = core.get_spacegroup_spinor_irreps_from_primitive_symmetry(stdlat(r, 3), r, t, kpoint=k, method="random")
        kw = {"spinor_factor_system": fs}
    else:
        out, mp = core.get_spacegroup_irreps_from_primitive_symmetry(r, t, k, method="random")
        fs, kw = np.ones((n, n)), {}
    ph, _ = law_phase(lr, lt, k, tab)
    x = out[rng.integers(len(out))]
    need(representation.is_unitary(x) is True, "unitary representation rejected")
    need(representation.is_representation(x, tab, ph * fs) is True, "representation rejected")
    need(representation.check_spacegroup_representation(lr, lt, k, x, **kw) is True, "small representation rejected")
    mu = np.exp(-2j * np.pi * np.einsum("ia,ja->ij", np.einsum("nba,b->na", lr, k) - k, lt)) * fs
    need(n > 12 or group.check_cocycle_condition(lr, mu) is True, "factor system rejected")
    # the law changed at one pair only
    a, b = (int(v) for v in rng.integers(n, size=2))
    w1 = (ph * fs).astype(complex)
    w1[a, b] *= rng.choice([-1, 1j, np.exp(.02j), 1.05, 0])
    need(representation.is_representation(x, tab, w1) is False, f"accepted although the factor of the pair ({a}, {b}) is wrong")
    f1 = np.array(fs, dtype=complex)
    f1[a, b] *= rng.choice([-1, 1j, np.exp(.02j), 1.05, 0])
    need(representation.check_spacegroup_representation(lr, lt, k, x, f1) is False, f"accepted although the factor of the pair ({a}, {b}) is wrong")
    if n > 1:
        t1 = tab.copy()
        t1[a, b] = (t1[a, b] + 1 + rng.integers(n - 1)) % n
        ok = close(x[t1[a, b]] * (ph * fs)[a, b], x[tab[a, b]] * (ph * fs)[a, b], 1e-3)
        if ok or not close(x[t1[a, b]], x[tab[a, b]], 1e-2):
            need(representation.is_representation(x, t1, ph * fs) is ok, f"table entry ({a}, {b}) replaced: decided wrongly")
    # families of matrices next to unitary
    d = int(rng.integers(2, 5))
    base = np.array([np.linalg.qr(rng.normal(size=(d, d)) + 1j * rng.normal(size=(d, d)))[0] for _ in range(3)])
    need(representation.is_unitary(base) is True, "unitary matrices rejected")
    M = rng.normal(size=(d, d)) + 1j * rng.normal(size=(d, d))
    bad = [M / np.linalg.norm(M, axis=1)[:, None], M / np.linalg.norm(M, axis=0), M / np.linalg.det(M) ** (1 / d),
           base[0] * 1.02, base[0] @ np.diag([1.05] + [1] * (d - 1))]
    K = rng.normal(size=(d, d)) * .5
    K = K - K.T
    C = np.linalg.solve(np.eye(d) + 1j * K, np.eye(d) - 1j * K)   # complex orthogonal, not unitary
    if np.abs(C).max() < 50:
        bad.append(C)
    B = base.copy()
    B[rng.integers(3)] = bad[rng.integers(len(bad))]
    if not check_unitary(B, 1e-3):
        need(representation.is_unitary(B) is False, "non-unitary matrices accepted")
    # corrupted at one place only
    y = x.copy()
    i = int(rng.integers(n))
    mode = rng.integers(4)
    if mode == 0:
        y[i] = y[i] * np.exp(1j * rng.choice([1e-2, 1.0, np.pi]))
    elif mode == 1:
        y[i] = y[i] * 1.01
    elif mode == 2:
        a, b = rng.integers(x.shape[1], size=2)
        y[i, a, b] += rng.choice([1e-2, -.3, 1j * .1])
    else:
        y[i] = 0
    # decided only when clearly on one side of the tolerance
    if not check_unitary(y, 1e-3):
        need(representation.is_unitary(y) is False, f"non-unitary representation accepted (operation {i}, mode {mode})")
    elif check_unitary(y, 1e-8):
        need(representation.is_unitary(y) is True, "unitary matrices rejected")
    lawok = check_law(y, tab, ph * fs, tol=1e-3) is None
    if not lawok:
        need(representation.is_representation(y, tab, ph * fs) is False, f"non-representation accepted (operation {i}, mode {mode})")
        need(representation.check_spacegroup_representation(lr, lt, k, y, **kw) is False,
             f"matrices violating the multiplication law accepted (operation {i}, mode {mode})")
    if n <= 12:
        m2 = mu.copy()
        a, b = rng.integers(n, size=2)
        m2[a, b] *= rng.choice([-1, 1j, np.exp(.01j)])
        ok = True
        for q in range(n):
            if np.abs(m2[q][tab] * m2 - m2[tab[q]] * m2[q][:, None]).max() > 1e-4:
                ok = False
        need(group.check_cocycle_condition(lr, m2) is ok, f"factor system changed at ({a}, {b}): cocycle {ok}, check disagrees")
    if n > 1:
        need(group.check_cocycle_condition(lr[: n - 1] if n > 2 else lr[1:] if (lr[0] == I3).all() else lr[:1] * 2, mu) is False,
             "factor system of a set that is not a group accepted")
    if "wrongk" in c and n > 1:
        k2 = k + np.array([.37, .21, .13])
        ph2, _ = law_phase(lr, lt, k2, tab)
        ok = check_law(x, tab, ph2 * fs, tol=1e-4) is None
        need(representation.check_spacegroup_representation(lr, lt, k2, x, **kw) is ok, "law at another k decided wrongly")
    return n > 2


@kind
def checkers_big(c):
    """orders that no point group has"""
    rng = np.random.default_rng(c["s2"])
    n = c["n"]
    o = rng.permutation(n)
    inv = np.argsort(o)
    tab = inv[(o[:, None] + o[None, :]) % n]
    q = int(rng.integers(n))
    V = runitary(2, rng)
    x = np.array([V @ np.diag([np.exp(2j * np.pi * q * j / n), np.exp(-2j * np.pi * (q + 1) * j / n)]) @ V.conj().T for j in o])
    need(representation.is_unitary(x) is True and representation.is_representation(x, tab) is True, "representation rejected")
    a, b = (int(v) for v in rng.integers(n, size=2))
    w = np.ones((n, n), complex)
    w[a, b] = rng.choice([-1, 1j, np.exp(.02j), 1.05, 0])
    need(representation.is_representation(x, tab, w) is False, f"accepted although the factor of the pair ({a}, {b}) is wrong")
    y = x.copy()
    y[a] = y[a] * np.exp(.3j)
    need(representation.is_unitary(y) is True and representation.is_representation(y, tab) is False, f"wrong matrix of operation {a} accepted")
    y[a] = y[a] * 1.02
    need(representation.is_unitary(y) is False, f"matrix {a} is not unitary and accepted")
    return True


@plan("C16")
def _(tier, seed):
    g = rng_of(seed, "C16")
    out = []
    for _ in range(1980 if tier == "quick" else 5000):
        c = {"kind": "checkers", "hall": int(g.integers(1, 531)), "k": pickk(g),
             "seed": int(g.integers(0, 1 << 30)), "s2": int(g.integers(1, 1 << 30)), "spin": bool(g.random() < .3)}
        if g.random() < .3:
            c["wrongk"] = 1
        out.append(c)
    return out + [{"kind": "checkers_big", "n": int(g.integers(49, 75)), "s2": int(g.integers(1, 1 << 30))} for _ in range(24)]


# ================================================================= C17 regular representations etc.
@kind
def regular(c):
    r, t, k = setup(c)
    lg = little(r, k)
    lr, lt = r[lg], t[lg]
    n = len(lg)
    tab = table_of(lr)
    reg = representation.get_regular_representation(lr)
    E = np.zeros((n, n, n))
    for g in range(n):
        E[g, tab[g], np.arange(n)] = 1
    need(close(reg, E, 1e-12), "regular representation does not permute the group elements")
    mu = np.exp(-2j * np.pi * np.einsum("ia,ja->ij", np.einsum("nba,b->na", lr, k) - k, lt))
    pr = representation.get_projective_regular_representation(lr, mu)
    e = check_law(pr, tab, mu)
    need(e is None, f"projective regular representation: {e}")
    need(check_unitary(pr), "projective regular representation is not unitary")
    ch = representation.get_character(pr)
    need(close(ch, np.einsum("kii->k", pr)), "character is not the trace")
    out = core.get_spacegroup_irreps_from_primitive_symmetry(r, t, k, method="random")[0]
    rng = np.random.default_rng(c["seed"])
    a, b = out[rng.integers(len(out))], out[rng.integers(len(out))]
    dp = representation.get_direct_product(a, b)
    need(close(dp, np.array([np.kron(x, y) for x, y in zip(a, b)])), "direct product is not the Kronecker product")
    need(close(representation.get_character(dp), representation.get_character(a) * representation.get_character(b)),
         "character of a direct product is not the product")
    ri, rf = lr.astype(int), lr.astype(float)
    for x, y in ((ri, rf), (ri, b), (b, ri), (rf, b), (b, rf), (ri, ri), (lr.astype(complex), ri)):
        dp = representation.get_direct_product(x, y)
        need(close(dp, np.array([np.kron(p, q) for p, q in zip(x, y)])), f"direct product of {x.dtype} and {y.dtype} is not the Kronecker product")
    for x in (ri, rf, b):
        need(close(representation.get_character(x), np.einsum("kii->k", x)), f"character of {x.dtype} matrices is not the trace")
    return n > 2


@kind
def indicator(c):
    """Frobenius-Schur indicator of ordinary and double-valued irreps (real, quaternionic and complex) in a random basis"""
    g = np.array(list(pgs())[c["pg"]][2])
    rng = np.random.default_rng(c["seed"])
    g = g[rng.permutation(len(g))]
    n = len(g)
    tab = table_of(g)
    lat = stdlat(g, c["seed"])
    spin, om, U = core.get_crystallographic_pointgroup_spinor_irreps_from_symmetry(lat, g, method="random")
    gam = core.get_crystallographic_pointgroup_irreps_from_symmetry(g, method="random")
    seen = set()
    for D, w in [(D, np.ones((n, n))) for D in gam] + [(D, om) for D in spin]:
        q = runitary(D.shape[1], rng)
        y = q.conj().T @ D @ q
        ch = np.einsum("kii->k", y)
        v = sum(w[i, i] * ch[tab[i, i]] for i in range(n)).real / n
        s = representation.frobenius_schur_indicator(y)
        need(abs(v - s) < 1e-6, f"indicator {s}, group average of the characters of squares {v:.4f}")
        seen.add(int(round(v)))
        z = irr_m.get_physically_irrep(y.copy(), s)
        need(np.isrealobj(z) and z.shape[1] == D.shape[1] * (1 if s == 1 else 2), "wrong real form")
        need(close(np.einsum("kii->k", z), ch if s == 1 else ch + ch.conj(), 1e-5), "character is not that of the irrep (plus conjugate)")
        e = check_law(z, tab, w, tol=1e-5)
        need(e is None, str(e))
    return len(seen) > 1


@plan("C17")
def _(tier, seed):
    g = rng_of(seed, "C17")
    out = [{"kind": "regular", "hall": int(g.integers(1, 531)), "k": pickk(g),
            "seed": int(g.integers(0, 1 << 30))} for _ in range(1560 if tier == "quick" else 4000)]
    npg = len(list(pgs()))
    out += [{"kind": "pir_scrambled", "pg": i, "seed": int(g.integers(1, 1 << 30)), "method": "random"} for i in range(npg)]
    out += [{"kind": "indicator", "pg": i, "seed": int(g.integers(1, 1 << 30))} for i in range(npg) for _ in range(4)]
    return out


# ================================================================= C19 utilities
def anymatrix(g, m, n):
    """generic, complex, integer, diagonal, unit, permutation-like, sparse and singular matrices"""
    w = g.integers(9)
    x = g.normal(size=(m, n))
    if w == 1:
        x = x + 1j * g.normal(size=(m, n))
    elif w == 2:
        x = g.integers(-3, 4, size=(m, n))
    elif w == 3:
        x = x * np.eye(m, n)
    elif w == 4:
        x = np.eye(m, n)
    elif w == 5:
        x = np.eye(max(m, n))[g.permutation(max(m, n))][:m, :n]
    elif w == 6:
        x = x * (g.random(size=(m, n)) < .4)
    elif w == 7:
        x = np.outer(x[:, 0], x[0])
    return x


def anyunitary(d, g):
    w = g.integers(6)
    if w == 0:
        return np.eye(d, dtype=complex)
    if w == 1:
        return np.eye(d, dtype=complex)[g.permutation(d)]
    if w == 2:
        return np.diag(np.exp(2j * np.pi * g.random(d)))
    return runitary(d, g)


@kind
def util(c):
    g = np.random.default_rng(c["seed"])
    nd = int(g.integers(1, 5))
    sh = g.integers(1, 5, size=nd)
    T = g.normal(size=sh) + 1j * g.normal(size=sh)
    if g.random() < .3:
        T = [T.real, g.integers(-4, 5, size=sh), T * (g.random(size=sh) < .3)][g.integers(3)]
    q = int(g.integers(0, nd + 1))
    ms = [anymatrix(g, s, int(s if g.random() < .4 else g.integers(1, 5))) for s in sh[:q]]
    T0, = frozen(T)
    out = utils.mode_dot(T0, ms)
    E = T
    for ax in range(q):
        E = np.moveaxis(np.tensordot(E, ms[ax], axes=(ax, 0)), -1, ax)
    need(close(out, E, 1e-8), f"tensor contraction over {q} axes of shape {sh.tolist()} is wrong")
    n = int(g.integers(1, 8))
    z = complex(g.normal(), g.normal())
    if g.random() < .4:
        z = complex(np.exp(2j * np.pi * g.integers(0, 12) / 12) * g.choice([1, 2, .5]))
    w = utils.nroot(np.complex128(z), n)
    need(abs(w ** n - z) < 1e-8 and abs(np.angle(w)) <= np.pi / n + 1e-8, f"nroot({z}, {n}) = {w}")
    d = int(g.integers(2, 7))
    a, b = int(g.integers(1, d + 1)), int(g.integers(1, d + 1))
    A = g.normal(size=(a, d)) + 1j * g.normal(size=(a, d))
    B = g.normal(size=(b, d)) + 1j * g.normal(size=(b, d))
    if g.random() < .3 and a <= b:
        A = g.normal(size=(a, b)) @ B
    elif g.random() < .3:
        A, B = (anymatrix(g, x, d) for x in (a, b))
        if min(np.linalg.svd(x, compute_uv=False)[-1] for x in (A, B)) < .05:
            A, B = np.eye(a, d), np.eye(d)[g.permutation(d)[:b]]
    qa, qb = np.linalg.qr(A.T)[0], np.linalg.qr(B.T)[0]
    cs = np.clip(np.linalg.svd(qa.conj().T @ qb, compute_uv=False), 0, 1)
    m = min(a, b)
    need(abs(utils.grassmann_distance(A, B) - np.sqrt(1 - cs[m - 1] ** 2)) < 1e-6, "minimal-correlation distance is wrong")
    need(abs(utils.grassmann_distance(A, B, ord="projection") - np.sqrt(np.mean(np.arccos(cs[:m]) ** 2))) < 1e-5, "projection distance is wrong")
    need(abs(utils.grassmann_distance(qa.T, qb.T, skip_orthonormalization=True) - np.sqrt(1 - cs[m - 1] ** 2)) < 1e-6,
         "distance of orthonormal bases is wrong")
    X = g.normal(size=(a, a))
    need(abs(utils.grassmann_distance(X @ A, B) - utils.grassmann_distance(A, B)) < 1e-5, "distance depends on the choice of basis")
    p = int(g.integers(2, 400))
    need(utils.is_prime(p) == all(p % x for x in range(2, int(p ** .5) + 1)), f"is_prime({p})")
    Z = g.integers(-9, 10, size=(3, 3))
    need(bool(utils.is_integer_array(Z + 0.0)) is True and bool(utils.is_integer_array(Z + g.choice([-1e-10, 1e-10]))) is True, "integers rejected")
    W = Z + 0.0
    W[g.integers(3), g.integers(3)] += g.choice([.1, .5, -.3, .01])
    need(bool(utils.is_integer_array(W)) is False, "non-integer array accepted")
    need(utils.ndarray2d_to_integer_tuple(Z + g.choice([-1e-6, 1e-6, 0])) == tuple(map(tuple, Z.tolist())), "integer tuple is wrong")
    return True


@plan("C19")
def _(tier, seed):
    g = rng_of(seed, "C19")
    return [{"kind": "util", "seed": int(g.integers(1, 1 << 30))} for _ in range(9000 if tier == "quick" else 40000)]


# ================================================================= C20 frame and determinism
def _call(api, c, r, t, k, lat, tr):
    m = c["method"]
    if api == "sg":
        return core.get_spacegroup_irreps_from_primitive_symmetry(r, t, k, method=m)
    if api == "sgreal":
        return core.get_spacegroup_irreps_from_primitive_symmetry(r, t, k, real=True, method=m)
    if api == "pg":
        return core.get_crystallographic_pointgroup_irreps_from_symmetry(r, method=m)
    if api == "spin":
        return core.get_spacegroup_spinor_irreps_from_primitive_symmetry(lat, r, t, kpoint=k, method=m)
    if api == "corep":
        return core.get_spacegroup_spinor_irreps_from_primitive_symmetry(lat, r, t, tr, kpoint=k, method=m)
    if api == "little":
        return group.get_little_group(r, t, k)
    raise KeyError(api)


def flat(x):
    if isinstance(x, (tuple, list)):
        return [z for y in x for z in flat(y)]
    return [np.asarray(x)]


@kind
def frame(c):
    if c["api"] == "corep":
        r, t, tr, k = setup_m(c)
        lg = [i for i in little(r, k, tr) if not tr[i]]
    else:
        r, t, k = setup(c)
        tr = None
        lg = little(r, k) if c["api"] != "pg" else list(range(len(r)))
    if c["method"] == "Neto" and not neto_ok(r[lg]):
        raise Skip
    lat = stdlat(r, 5)
    arrs = [r, t, k, lat] + ([tr] if tr is not None else [])
    keep = [x.copy() for x in arrs]
    np.random.seed(c["s1"])
    st = np.random.get_state()[1].copy()
    o1 = _call(c["api"], c, r, t, k, lat, tr)
    for x, y, nm in zip(arrs, keep, ("rotations", "translations", "kpoint", "lattice", "time_reversals")):
        need(np.array_equal(x, y), f"argument {nm} was modified")
    need(np.array_equal(st, np.random.get_state()[1]), "the global random state was modified")
    np.random.seed(c["s1"] + 1)
    f = frozen(r, t, k, lat) + [None if tr is None else frozen(tr)[0]]
    o2 = _call(c["api"], c, f[0], f[1], f[2], f[3], f[4])
    a, b = flat(o1), flat(o2)
    need(len(a) == len(b) and all(np.array_equal(x, y) for x, y in zip(a, b)), "a second call returns a different result")
    for x in a:  # results do not alias the arguments
        if x.dtype != object and x.size:
            need(not any(np.shares_memory(x, y) for y in arrs), "a result shares memory with an argument")
    w = [x.copy() for x in b]
    spoil(o1)
    spoil(o2)
    b = flat(_call(c["api"], c, r, t, k, lat, tr))
    need(len(w) == len(b) and all(np.array_equal(x, y) for x, y in zip(w, b)), "a call returns what the caller did to the result of an earlier one")
    return len(r) > 2


def spoil(x):
    """what a caller may do to a result that is its own"""
    if isinstance(x, (tuple, list)):
        for y in x:
            spoil(y)
        if isinstance(x, list):
            x.reverse()
            x.append(None)
    elif isinstance(x, dict):
        x.clear()
    elif isinstance(x, np.ndarray) and x.flags.writeable and x.size:
        x[...] = 7


@kind
def frame_rep(c):
    rep, out, ms = build_rep(c)
    x = out[0]
    r2, x2 = rep.copy(), x.copy()
    a = representation.project_to_irrep(rep, x)
    b = irr_m.decompose_representation(rep)
    d = representation.get_direct_product(rep, x)
    s = representation.frobenius_schur_indicator(x)
    M = representation.get_intertwiner(x, x)
    irr_m.get_physically_irrep(x, s)
    need(np.array_equal(rep, r2) and np.array_equal(x, x2), "a representation passed as argument was modified")
    need(all(np.array_equal(p, q) for p, q in zip(a, representation.project_to_irrep(rep, x))), "projection is not deterministic")
    need(all(np.array_equal(p, q) for p, q in zip(b, irr_m.decompose_representation(rep))), "decomposition is not deterministic")
    return True


def pure(name, fn, *args):
    """fn(*args) leaves arrays (also inside lists) and the global random state alone, returns nothing that shares memory with
    them, accepts read-only arrays and is deterministic."""
    def arrays(x):
        return [x] if isinstance(x, np.ndarray) else [z for y in x for z in arrays(y)] if isinstance(x, (list, tuple)) else []

    def cp(x, ro):
        if isinstance(x, np.ndarray):
            y = x.copy()
            y.setflags(write=not ro)
            return y
        return type(x)(cp(y, ro) for y in x) if isinstance(x, (list, tuple)) else x

    def res(x):
        return [z for y in x for z in res(y)] if isinstance(x, (list, tuple)) else [np.asarray(x)]

    a1, a2 = cp(args, False), cp(args, True)
    np.random.seed(7)
    st = np.random.get_state()
    o1 = fn(*a1)
    need(str(np.random.get_state()) == str(st) and np.array_equal(np.random.get_state()[1], st[1]), f"{name}: the global random state was modified")
    for n, (x, y) in enumerate(zip(arrays(a1), arrays(args))):
        need(x.dtype == y.dtype and np.array_equal(x, y), f"{name}: argument array {n} was modified")
    np.random.seed(8)
    try:
        o2 = fn(*a2)
    except ValueError as e:
        need("read-only" not in str(e), f"{name}: writes to an argument: {e}")
        raise
    r1, r2 = res(o1), res(o2)
    need(len(r1) == len(r2) and all(np.array_equal(x, y) for x, y in zip(r1, r2)), f"{name}: a second call returns a different result")
    for x in r1:
        if x.dtype != object and x.size:
            need(not any(np.shares_memory(x, y) for y in arrays(a1)), f"{name}: a result shares memory with an argument")
    keep = [x.copy() for x in r1]
    good = copy.deepcopy(o1)
    spoil(o1)
    spoil(o2)
    r3 = res(fn(*cp(args, False)))
    need(len(r3) == len(keep) and all(np.array_equal(x, y) for x, y in zip(r3, keep)), f"{name}: a call returns what the caller did to the result of an earlier one")
    return good


@kind
def frame_crystal(c):
    """crystal entry points and tables"""
    h = c["hall"]
    pure("get_symmetry_from_hall_number", utils.get_symmetry_from_hall_number, h)
    pure("get_primitive_transformation_matrix", transform.get_primitive_transformation_matrix, h)
    pure("get_crystal_system", transform.get_crystal_system, h)
    g = np.random.default_rng(c["seed"])
    R, T = utils.get_symmetry_from_hall_number(h)
    lat = stdlat(R, c["seed"])
    pos, num = [], []
    for s in range(2):
        x = g.random(3)
        for y in (np.einsum("nab,b->na", R, x) + T) % 1:
            if all(np.abs((y - z + .5) % 1 - .5).max() > 1e-6 for z in pos):
                pos.append(y)
                num.append(s + 1)
    if len(pos) > 60:
        raise Skip
    pos, num = np.array(pos), np.array(num)
    k = KSPEC[g.integers(len(KSPEC))]
    m = "random"
    pure("get_spacegroup_irreps", lambda *a: core.get_spacegroup_irreps(*a, method=m), lat, pos, num, k)
    rl = np.linalg.inv(lat).T @ np.diag([1., 2., 1.])
    pure("get_spacegroup_irreps", lambda a, b, d, e, f: core.get_spacegroup_irreps(a, b, d, e, reciprocal_lattice=f, method=m), lat, pos, num, k @ np.diag([1, .5, 1]), rl)
    pure("get_spacegroup_spinor_irreps", lambda a, b, d, e: core.get_spacegroup_spinor_irreps(a, b, d, kpoint=e, method=m), lat, pos, num, k)
    mag = np.array([[0, 0, 1.]] * len(num)) @ lat / np.linalg.norm(lat[2])
    pure("get_spacegroup_spinor_irreps", lambda a, b, d, e, f: core.get_spacegroup_spinor_irreps(a, b, d, e, f, method=m), lat, pos, num, mag, k)
    return True


# history: the same calls in another order in another process give the same results
def related(c):
    """calls that a table of earlier results could confuse: they agree in all but one argument"""
    g = np.random.default_rng(c["seed"])
    r, t, k = setup(c)
    lat = stdlat(r, c["seed"])
    Q = np.linalg.qr(g.normal(size=(3, 3)))[0]
    n = len(r)
    p = g.permutation(n)
    k2 = KSPEC[g.integers(len(KSPEC))] + 0.
    lg = little(r, k)
    lr, lt = r[lg], t[lg]
    dt = np.array([g.integers(-2, 3, size=3) for _ in range(n)])
    mu = np.exp(-2j * np.pi * np.einsum("ia,ja->ij", np.einsum("nba,b->na", lr, k) - k, lt))
    ph = np.exp(2j * np.pi * g.random(len(lg)))
    tab = table_of(lr)
    mu2 = mu * ph[:, None] * ph[None, :] / ph[tab]
    tr = np.array([1] * n)
    m = "random"
    P = unimod(g).astype(float)
    calls = []
    for a, b, kk in ((r, t, k), (r, t, k2), (r, t, k + 1.), (r, t + dt, k), (r[p], t[p], k), (r, t, k + 1e-3)):
        calls += [lambda a=a, b=b, kk=kk: group.get_little_group(a, b, kk), lambda a=a, b=b, kk=kk: group.get_little_group(a, b, kk, 1e-2),
                  lambda a=a, b=b, kk=kk: group.get_little_group(a, b, kk, time_reversals=tr),
                  lambda a=a, b=b, kk=kk: group.get_factor_system_from_little_group(a, b, kk),
                  lambda a=a, b=b, kk=kk: group.get_factor_system_from_little_group(a, b, kk, tr),
                  lambda a=a, b=b, kk=kk: transform.transform_symmetry_and_kpoint(P, a, b, kk),
                  lambda a=a, b=b, kk=kk: transform.transform_symmetry_and_kpoint(P.T, a, b, kk),
                  lambda a=a, b=b, kk=kk: transform.unique_primitive_symmetry(a, b),
                  lambda a=a, b=b, kk=kk: core.get_spacegroup_irreps_from_primitive_symmetry(a, b, kk, method=m),
                  lambda a=a, b=b, kk=kk: core.get_spacegroup_irreps_from_primitive_symmetry(a, b, kk, real=True, method=m)]
    for L in (lat, lat @ Q, stdlat(r, c["seed"] + 1), -lat, 2 * lat):
        calls += [lambda L=L: spinor.get_spinor_factor_system(L, r), lambda L=L: [spinor.get_spinor_unitary_rotation(L, x) for x in r],
                  lambda L=L: core.get_spacegroup_spinor_irreps_from_primitive_symmetry(L, r, t, kpoint=k, method=m),
                  lambda L=L: corep.get_corep_spinor_factor_system(L, np.concatenate([r, r]), np.array([0] * n + [1] * n)),
                  lambda L=L: corep.get_corep_spinor_factor_system(L, r, np.zeros(n, dtype=int))]
    for a in (r, r[p], -r[p], lr):
        if len(a):
            calls += [lambda a=a: irr_m.enumerate_unitary_irreps(a, method=m), lambda a=a: irr_m.enumerate_unitary_irreps(a, real=True, method=m),
                      lambda a=a: representation.get_regular_representation(a), lambda a=a: group.is_matrix_group(a), lambda a=a: group.is_matrix_group(a[1:])]
    for w in (mu, mu2, np.ones_like(mu)):
        calls += [lambda w=w: irr_m.enumerate_unitary_irreps(lr, w, method=m), lambda w=w: representation.get_projective_regular_representation(lr, w),
                  lambda w=w: group.check_cocycle_condition(lr, w)]
        if neto_ok(lr):
            calls.append(lambda w=w: irr_m.enumerate_unitary_irreps(lr, w))
    if neto_ok(r):
        q = np.linalg.qr(g.normal(size=(3, 3)))[0]
        rep3 = np.array([lat.T @ a @ np.linalg.inv(lat.T) for a in r])
        for y in (rep3, q.T @ rep3 @ q):
            calls += [lambda y=y, z=z: tensor.get_symmetry_adapted_tensors(y, r, z, real=True) for z in (1, 2)]
    x = representation.get_projective_regular_representation(lr, mu)
    q = runitary(len(lr), g)
    for y in (x, q.conj().T @ x @ q, x.conj()):
        calls += [lambda y=y: irr_m.decompose_representation(y), lambda y=y: representation.get_character(y),
                  lambda y=y: representation.is_representation(y, tab, mu), lambda y=y: representation.is_unitary(2 * y)]
    return calls


def outcome(f):
    try:
        return flat(f())
    except Exception as e:
        return type(e).__name__


@kind
def history(c):
    import subprocess
    import sys
    import tempfile
    r = setup(c)[0]
    if len(r) > 16:
        raise Skip
    a = [outcome(f) for f in related(c)]
    with tempfile.TemporaryDirectory() as d:
        json.dump(c, open(d + "/c.json", "w"))
        src = os.path.dirname(os.path.dirname(os.path.abspath(core.__file__)))
        p = subprocess.run([sys.executable, os.path.abspath(__file__), d + "/c.json", d + "/o.pickle"], env=dict(os.environ, PYTHONPATH=src),
                           capture_output=True, text=True)
        if p.returncode:
            raise RuntimeError(p.stderr[-400:])
        b = pickle.load(open(d + "/o.pickle", "rb"))
    need(len(a) == len(b), "another number of calls")
    for n, (x, y) in enumerate(zip(a, b)):
        same = x == y if isinstance(x, str) or isinstance(y, str) else len(x) == len(y) and all(
            p.shape == q.shape and p.dtype == q.dtype and (np.array_equal(p, q) if p.dtype == object else np.allclose(p, q, atol=1e-7)) for p, q in zip(x, y))
        need(same, f"call {n} gives another result in a process in which other calls preceded it")
    return True


@kind
def frame_all(c):
    """Every public function on one group."""
    r, t, k = setup(c)
    g = np.random.default_rng(c["s1"])
    lg = little(r, k)
    lr, lt = r[lg], t[lg]
    n = len(lg)
    if n > 16:
        raise Skip
    m = c["method"]
    if m == "Neto" and not neto_ok(lr):
        m = "random"
    tr = np.zeros(n, dtype=int)
    tab = pure("get_cayley_table", group.get_cayley_table, lr)
    pure("get_identity_index", group.get_identity_index, tab)
    i = int(g.integers(n))
    pure("get_inverse_index", group.get_inverse_index, tab, i)
    pure("get_order", group.get_order, tab, i)
    pure("is_matrix_group", group.is_matrix_group, lr)
    mu = pure("get_factor_system_from_little_group", group.get_factor_system_from_little_group, lr, lt, k)
    pure("get_little_group", group.get_little_group, r, t, k)
    pure("check_cocycle_condition", group.check_cocycle_condition, lr, mu)
    lr2, lt2 = np.concatenate([lr, lr]), np.concatenate([lt, lt])
    tr2 = np.array([0] * n + [1] * n)
    pure("get_cayley_table", group.get_cayley_table, lr2, tr2)
    pure("decompose_by_maximal_space_subgroup", group.decompose_by_maximal_space_subgroup, lr2, lt2, tr2)
    pure("get_factor_system_from_little_group", group.get_factor_system_from_little_group, lr2, lt2, k, tr2)
    out, ind = pure("enumerate_small_representations", lambda *a: irr_m.enumerate_small_representations(*a, method=m), lr, lt, k)
    pure("enumerate_small_representations(real)", lambda *a: irr_m.enumerate_small_representations(*a, real=True, method=m), lr, lt, k)
    gam, gind = pure("enumerate_unitary_irreps", lambda *a: irr_m.enumerate_unitary_irreps(*a, method=m), lr)
    pure("enumerate_unitary_irreps(real)", lambda *a: irr_m.enumerate_unitary_irreps(*a, real=True, method=m), lr)
    pure("enumerate_unitary_irreps(factor system)", lambda *a: irr_m.enumerate_unitary_irreps(*a, method=m), lr, mu)
    reg = pure("get_projective_regular_representation", representation.get_projective_regular_representation, lr, mu)
    reg0 = pure("get_regular_representation", representation.get_regular_representation, lr)
    if n <= 12:
        pure("enumerate_unitary_irreps_from_regular_representation", irr_m.enumerate_unitary_irreps_from_regular_representation, reg)
        pure("decompose_representation", irr_m.decompose_representation, reg)
    x = gam[int(g.integers(len(gam)))]
    y = gam[int(g.integers(len(gam)))]
    if m == "Neto":
        gens = pure("get_pointgroup_chain_generators", pointgroup.get_pointgroup_chain_generators, lr)
        pure("enumerate_unitary_irreps_from_solvable_group_chain", irr_m.enumerate_unitary_irreps_from_solvable_group_chain, tab, mu, gens)
    for idc in (-1, 0):
        pure("get_physically_irrep", irr_m.get_physically_irrep, x, idc)
    for q, s in zip(gam, gind):
        if s == 1:
            pure("get_physically_irrep", irr_m.get_physically_irrep, q, s)
            break
    q = np.linalg.qr(g.normal(size=x.shape[1:]) + 1j * g.normal(size=x.shape[1:]))[0]
    z = q.conj().T @ x @ q
    ch = pure("get_character", representation.get_character, x)
    pure("is_equivalent_irrep", irr_m.is_equivalent_irrep, ch, ch)
    pure("get_intertwiner", representation.get_intertwiner, x, z)
    pure("project_to_irrep", representation.project_to_irrep, reg0.astype(complex), x)
    pure("is_unitary", representation.is_unitary, z)
    pure("is_representation", representation.is_representation, z, tab)
    pure("is_representation", representation.is_representation, reg, tab, mu)
    pure("frobenius_schur_indicator", representation.frobenius_schur_indicator, z)
    pure("check_spacegroup_representation", representation.check_spacegroup_representation, lr, lt, k, out[0])
    pure("get_direct_product", representation.get_direct_product, x, y)
    lat = stdlat(r, 5)
    fs, U = pure("get_spinor_factor_system", spinor.get_spinor_factor_system, lat, lr)
    pure("get_spinor_unitary_rotation", spinor.get_spinor_unitary_rotation, lat, lr[i])
    R = lat.T @ (lr[i] * round(np.linalg.det(lr[i]))) @ np.linalg.inv(lat.T)
    pure("get_rotation_angle_and_axis", spinor.get_rotation_angle_and_axis, R)
    pure("enumerate_spinor_small_representations", lambda *a: spinor.enumerate_spinor_small_representations(*a, method=m), lat, lr, lt, k)
    pure("get_corep_spinor_factor_system", corep.get_corep_spinor_factor_system, lat, lr2, tr2)
    P = np.array([[1, 1, 0], [0, 1, 0], [0, 0, 1.]])
    pr, pt, pk = pure("transform_symmetry_and_kpoint", transform.transform_symmetry_and_kpoint, P, r, t, k)
    pure("unique_primitive_symmetry", transform.unique_primitive_symmetry, lr2, lt2)
    pure("unique_primitive_symmetry", transform.unique_primitive_symmetry, lr2, lt2, tr2)
    if n <= 12 and neto_ok(lr):
        rep3 = np.array([lat.T @ a @ np.linalg.inv(lat.T) for a in lr])
        ts = pure("get_symmetry_adapted_tensors", lambda *a: tensor.get_symmetry_adapted_tensors(*a, real=True), rep3, lr, 2)
        ts = [1.5 * v for v in ts] + [g.normal(size=(3, 3))]
        pure("apply_intrinsic_symmetry", tensor.apply_intrinsic_symmetry, ts)
    A, B = g.normal(size=(2, 4)), g.normal(size=(3, 4))
    for kw in ({}, {"ord": "projection"}, {"skip_orthonormalization": True}):
        pure("grassmann_distance", lambda a, b: utils.grassmann_distance(a, b, **kw), A, B)
    T = g.normal(size=(2, 3))
    pure("mode_dot", utils.mode_dot, T, [])
    pure("mode_dot", utils.mode_dot, T, [g.normal(size=(2, 2))])
    pure("mode_dot", utils.mode_dot, T, [g.normal(size=(2, 2)), g.normal(size=(3, 1))])
    pure("is_integer_array", utils.is_integer_array, T)
    pure("ndarray2d_to_integer_tuple", utils.ndarray2d_to_integer_tuple, T)
    return n > 2


@plan("C20")
def _(tier, seed):
    g = rng_of(seed, "C20")
    out = [{"kind": "history", "hall": int(g.integers(1, 531)), "k": pickk(g), "seed": int(g.integers(1, 1 << 30))} for _ in range(64)]
    out += [{"kind": "frame_crystal", "hall": int(g.integers(1, 531)), "seed": int(g.integers(1, 1 << 30))} for _ in range(120)]
    for _ in range(1440 if tier == "quick" else 3000):
        api = ["sg", "sgreal", "pg", "spin", "corep", "little"][g.integers(6)]
        c = {"kind": "frame", "api": api, "k": pickk(g), "seed": int(g.integers(0, 1 << 30)),
             "s1": int(g.integers(1, 1 << 30)), "method": "Neto" if g.random() < .5 else "random"}
        if api == "corep":
            c["uni"] = int(g.integers(1, 1652))
        else:
            c["hall"] = int(g.integers(1, 531))
        out.append(c)
    out += rep_cases(g, 240 if tier == "quick" else 400, "frame_rep")
    out += [{"kind": "frame_all", "hall": int(g.integers(1, 531)), "k": pickk(g), "seed": int(g.integers(0, 1 << 30)),
             "s1": int(g.integers(1, 1 << 30)), "method": "Neto" if g.random() < .5 else "random"} for _ in range(600 if tier == "quick" else 2000)]
    return out


# ================================================================= C21 rejection
def raises(f, msg, exc=ValueError):
    try:
        f()
    except exc:
        return
    except Exception as e:
        raise Fail(f"{msg}: {type(e).__name__} instead of {exc.__name__}: {e}")
    raise Fail(f"{msg}: accepted")


@kind
def reject(c):
    g = np.random.default_rng(c["seed"])
    w = c["what"]
    _, _, P, r, t = hall(c["hall"])
    if w == "nonprim":
        cents = [v for R, v in zip(r, t) if (R == I3).all()]
        if len(cents) == 1:
            r = np.concatenate([r, r])
            s = np.array([[.5, 0, 0], [0, .5, 0], [0, 0, .5], [.5, .5, 0], [1., 0, 0], [0, 0, 1e-3]])[g.integers(6)]
            t = np.concatenate([t, t + s])
        p = g.permutation(len(r))
        k = KSPEC[g.integers(len(KSPEC))]
        for m in ("Neto", "random"):
            raises(lambda: core.get_spacegroup_irreps_from_primitive_symmetry(r[p], t[p], k, method=m),
                   "operations of a non-primitive cell")
            raises(lambda: core.get_spacegroup_spinor_irreps_from_primitive_symmetry(np.eye(3), r[p], t[p], kpoint=k, method=m),
                   "operations of a non-primitive cell (spinor)")
            raises(lambda: core.get_spacegroup_spinor_irreps_from_primitive_symmetry(
                np.eye(3), r[p], t[p], np.zeros(len(r), int), kpoint=k, method=m),
                "operations of a non-primitive cell (co-representation)")
            r2, t2, tr2 = np.concatenate([r, r]), np.concatenate([t, t]), np.array([0] * len(r) + [1] * len(r))
            q = g.permutation(len(r2))
            raises(lambda: core.get_spacegroup_spinor_irreps_from_primitive_symmetry(
                np.eye(3), r2[q], t2[q], tr2[q], kpoint=k, method=m),
                "operations of a non-primitive cell (grey group)")
    elif w == "method":
        R, T = hall(c["hall"])[:2]
        m = ["neto", "foo", "Random", ""][g.integers(4)]
        raises(lambda: core.get_spacegroup_irreps_from_primitive_symmetry(R, T, np.zeros(3), method=m), "unknown method")
        raises(lambda: irr_m.enumerate_unitary_irreps(R, method=m), "unknown method")
        raises(lambda: irr_m.enumerate_small_representations(R, T, np.zeros(3), method=m, real=True), "unknown method")
        k = [np.zeros(3), KSPEC[g.integers(len(KSPEC))]][g.integers(2)]
        A = np.linalg.cholesky(sum(x.T @ x for x in R) / len(R))
        tr = np.zeros(len(R), int)
        S, U = group.get_little_group(R, T, k)[:2]
        for f in (lambda: core.get_spacegroup_irreps_from_primitive_symmetry(R, T, k, method=m, real=True),
                  lambda: core.get_crystallographic_pointgroup_irreps_from_symmetry(R, method=m),
                  lambda: core.get_crystallographic_pointgroup_irreps_from_symmetry(R, method=m, real=True),
                  lambda: core.get_crystallographic_pointgroup_spinor_irreps_from_symmetry(A, R, method=m),
                  lambda: core.get_crystallographic_pointgroup_spinor_irreps_from_symmetry(A, R, tr, method=m),
                  lambda: core.get_spacegroup_spinor_irreps_from_primitive_symmetry(A, R, T, kpoint=k, method=m),
                  lambda: core.get_spacegroup_spinor_irreps_from_primitive_symmetry(A, R, T, method=m),
                  lambda: core.get_spacegroup_spinor_irreps_from_primitive_symmetry(A, R, T, tr, kpoint=k, method=m),
                  lambda: core.get_spacegroup_spinor_irreps_from_primitive_symmetry(
                      A, np.concatenate([R, R]), np.concatenate([T, T]), np.repeat([0, 1], len(R)), kpoint=k, method=m),
                  lambda: irr_m.enumerate_unitary_irreps(S, group.get_factor_system_from_little_group(S, U, k), method=m),
                  lambda: spinor.enumerate_spinor_small_representations(A, S, U, k, method=m),
                  lambda: spinor.enumerate_spinor_small_representations(A, R, method=m),
                  lambda: corep.enumerate_spinor_small_corepresentations(A, np.concatenate([S, S]), np.concatenate([U, U]),
                                                                         np.repeat([0, 1], len(S)), k * 0, method=m)):
            raises(f, f"unknown method {m!r}")
        x = np.random.default_rng(c["seed"]).random((2, 3))
        for f in (lambda: core.get_spacegroup_irreps(A, x, [1, 2], k, method=m), lambda: core.get_spacegroup_spinor_irreps(A, x, [1, 2], kpoint=k, method=m),
                  lambda: core.get_spacegroup_spinor_irreps(A, x, [1, 2], magmoms=np.zeros(2), kpoint=k, method=m)):
            raises(f, f"unknown method {m!r} for a cell")
    elif w == "shape":
        n, d1, d2 = int(g.integers(2, 6)), int(g.integers(1, 4)), int(g.integers(1, 4))
        A = g.normal(size=(n, d1, d1))
        B = g.normal(size=(n + 1, d2, d2))
        C = g.normal(size=(n, d2, d2 + 1))
        D = g.normal(size=(n, d1 + 1, d1))
        for X, Y in ((A, B), (A, C), (D, A), (D, C), (B, A)):
            raises(lambda: representation.get_direct_product(X, Y), "direct product of inconsistent shapes")
            raises(lambda: representation.project_to_irrep(X, Y), "projection with inconsistent shapes")
        # shapes that would broadcast
        E = np.ones((1, d2, d2))
        F = g.normal(size=(n, d2 + 1, 1))
        H = g.normal(size=(n, 1, d2 + 1))
        for X, Y in ((A, E), (E, A), (A, F), (F, A), (A, H), (H, A), (F, H), (E, F)):
            raises(lambda: representation.get_direct_product(X, Y), f"direct product of shapes {X.shape} and {Y.shape}")
            raises(lambda: representation.project_to_irrep(X, Y), f"projection of shapes {X.shape} and {Y.shape}")
        raises(lambda: representation.get_intertwiner(A, g.normal(size=(n, d1 + 1, d1 + 1))), "intertwiner of different dimensions", AssertionError)
        raises(lambda: representation.get_intertwiner(A, g.normal(size=(n + 1, d1, d1))), "intertwiner of different orders", AssertionError)
    elif w == "group":
        R = hall(c["hall"])[0]
        if len(R) < 3:
            raise Skip
        keep = np.delete(np.arange(len(R)), g.integers(len(R)))
        S = R[keep]
        keys = {x.tobytes() for x in S}
        if all((a @ b).tobytes() in keys for a in S for b in S):
            raise Skip
        raises(lambda: group.get_cayley_table(S), "multiplication table of a set that is not closed")
        raises(lambda: representation.get_regular_representation(S), "regular representation of a set that is not closed")
        A = np.linalg.cholesky(sum(x.T @ x for x in R) / len(R))
        one = np.ones((len(S), len(S)))
        for f in (lambda: representation.get_projective_regular_representation(S, one), lambda: irr_m.enumerate_unitary_irreps(S),
                  lambda: irr_m.enumerate_unitary_irreps(S, method="random"), lambda: irr_m.enumerate_unitary_irreps(S, one, real=True, method="random"),
                  lambda: spinor.get_spinor_factor_system(A, S), lambda: corep.get_corep_spinor_factor_system(A, S, np.zeros(len(S), int)),
                  lambda: core.get_crystallographic_pointgroup_irreps_from_symmetry(S),
                  lambda: core.get_crystallographic_pointgroup_irreps_from_symmetry(S, method="random"),
                  lambda: core.get_crystallographic_pointgroup_spinor_irreps_from_symmetry(A, S),
                  lambda: tensor.get_symmetry_adapted_tensors(S.astype(float), S, 2)):
            raises(f, "rotations that are not closed")
    elif w == "misc":
        raises(lambda: utils.grassmann_distance(np.eye(3), np.eye(3), ord=["max", "foo", "proj"][g.integers(3)]), "unknown distance")
        for h in (0, -1, 531, 532, int(g.integers(533, 2000)), -int(g.integers(2, 600))):
            raises(lambda: transform.get_primitive_transformation_matrix(h), f"Hall number {h}", (ValueError, TypeError))
            raises(lambda: transform.get_crystal_system(h), f"crystal system of Hall number {h}")
            raises(lambda: utils.get_symmetry_from_hall_number(h), f"symmetry of Hall number {h}", (ValueError, TypeError))
        n = int(g.integers(2, 5))
        raises(lambda: representation.frobenius_schur_indicator(np.array([np.eye(n)] * 3)), "indicator of a reducible representation")
    return True


@plan("C21")
def _(tier, seed):
    g = rng_of(seed, "C21")
    return [{"kind": "reject", "what": ["nonprim", "method", "shape", "group", "misc"][i % 5], "hall": int(g.integers(1, 531)),
             "seed": int(g.integers(1, 1 << 30))} for i in range(3600 if tier == "quick" else 6000)]


if __name__ == "__main__":          # the calls of a history case in reverse order (see history)
    import sys
    fs = related(json.load(open(sys.argv[1])))
    res = [outcome(f) for f in reversed(fs)][::-1]
    pickle.dump(res, open(sys.argv[2], "wb"))
