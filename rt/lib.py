"""Independent oracles and input generators for the runtime (bounded) contracts.

Nothing here calls spgrep to compute an expected value: groups come from the spglib
database, and laws are evaluated directly on the returned matrices.
"""
import itertools
import warnings
from functools import lru_cache

import numpy as np
import spglib

warnings.simplefilter("ignore")
I3 = np.eye(3, dtype=int)
SIG = np.array([[[0, 1], [1, 0]], [[0, -1j], [1j, 0]], [[1, 0], [0, -1]]])


class Fail(Exception):
    """A contract does not hold. key: identity of the failing input (known findings)."""

    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


class Skip(Exception):
    """Outside the domain of the contract."""


def need(c, msg, key=None):
    if not c:
        raise Fail(msg, key)


def close(a, b, tol=1e-6):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and (a.size == 0 or float(np.max(np.abs(a - b))) < tol)


# ------------------------------------------------------------------ groups
def reduce_primitive(r, t, tr):
    """Primitive basis P (columns) and coset representatives, from the pure translations."""
    ts = [t[i] for i in range(len(r)) if (r[i] == I3).all() and tr[i] == 0]
    n = len(ts)
    P = np.eye(3)
    if n > 1:
        cand = []
        for x in ts:
            for s in itertools.product([-1, 0, 1], repeat=3):
                v = x + np.array(s)
                if np.linalg.norm(v) > 1e-6:
                    cand.append(v)
        cand.sort(key=lambda v: (round(float(np.linalg.norm(v)), 6), tuple(np.round(v, 6))))
        for c in itertools.combinations(cand, 3):
            M = np.array(c).T
            if abs(abs(np.linalg.det(M)) - 1 / n) < 1e-6:
                P = M if np.linalg.det(M) > 0 else -M
                break
        else:
            raise AssertionError("no primitive basis")
    Pi = np.linalg.inv(P)
    seen, R, T, TR = set(), [], [], []
    for a, b, c in zip(r, t, tr):
        a2 = np.rint(Pi @ a @ P).astype(int)
        key = (a2.tobytes(), int(c))
        if key in seen:
            continue
        seen.add(key)
        R.append(a2)
        T.append(np.remainder(np.round(Pi @ b, 12), 1))
        TR.append(int(c))
    return np.array(R), np.array(T), np.array(TR), P


@lru_cache(None)
def hall(h):
    d = spglib.get_symmetry_from_database(h)
    r, t = d["rotations"].astype(int), np.array(d["translations"])
    R, T, _, P = reduce_primitive(r, t, np.zeros(len(r), int))
    return R, T, P, r, t


@lru_cache(None)
def uni(u):
    d = spglib.get_magnetic_symmetry_from_database(u)
    return reduce_primitive(d["rotations"].astype(int), np.array(d["translations"]), d["time_reversals"].astype(int))


def unimod(rng, shear=True):
    U = np.zeros((3, 3), int)
    p = rng.permutation(3)
    for i in range(3):
        U[i, p[i]] = rng.choice([-1, 1])
    if shear and rng.random() < 0.6:
        i, j = rng.choice(3, 2, replace=False)
        S = I3.copy()
        S[i, j] = rng.choice([-1, 1])
        U = U @ S
    if np.linalg.det(U) < 0:
        U = -U
    return U


def variant(R, T, seed, tr=None, k=None):
    """Another description of the same group: basis, origin, order and lattice offsets change."""
    if not seed:
        return R.copy(), T.copy(), None if tr is None else tr.copy(), k
    rng = np.random.default_rng(seed)
    U = unimod(rng)
    Ui = np.rint(np.linalg.inv(U)).astype(int)
    R2 = np.array([Ui @ x @ U for x in R])
    T2 = T @ Ui.T
    if rng.random() < 0.7:
        o = rng.choice([0, 0.25, 0.5, 1 / 3, 0.125, 0.2113], size=3)
        T2 = T2 + o - np.einsum("nij,j->ni", R2, o)
    off = rng.integers(-2, 3, size=T2.shape)
    trz = np.zeros(len(R), int) if tr is None else tr
    for i in range(len(R)):
        if (R2[i] == I3).all() and trz[i] == 0:
            off[i] = 0
            T2[i] = 0
    if rng.random() < 0.7:
        T2 = T2 + off
    p = rng.permutation(len(R))
    k2 = None if k is None else U.T @ k
    return R2[p], T2[p], None if tr is None else tr[p], k2


KSPEC = [np.array(x, float) for x in itertools.product([0, 0.5], repeat=3)] + [
    np.array([1 / 3, 1 / 3, 0]), np.array([1 / 3, 1 / 3, 0.5]), np.array([-1 / 3, 2 / 3, 0]),
    np.array([0.25, 0.25, 0.25]), np.array([0.25, 0.75, 0.5]), np.array([0.75, 0.75, 0.75]),
    np.array([0.5, 0.5, 1.5]), np.array([-1, 0.5, 2.0]), np.array([-0.5, 0.5, 0.5]),
    np.array([0, 0, 0.13]), np.array([0.3, 0.3, 0.3]), np.array([0.2, 0.2, 0]), np.array([0.5, 0, 0.21]),
    np.array([1 / 3, 1 / 3, 0.17]), np.array([0.11, 0.23, 0.37]), np.array([1.25, -0.75, 0.25]),
    np.array([0, 0.17, 0.17]), np.array([1.0, 0, -2.0]), np.array([-0.41, 0.41, 0.41])]


def little(R, k, tr=None, tol=1e-7):
    k = np.asarray(k, float)
    out = []
    for i, r in enumerate(R):
        s = -1 if tr is not None and tr[i] else 1
        d = r.T @ k - s * k
        if np.abs(d - np.rint(d)).max() < tol:
            out.append(i)
    return out


def table_of(R, tr=None):
    tr = np.zeros(len(R), int) if tr is None else tr
    D = {(np.ascontiguousarray(x, dtype=int).tobytes(), int(bool(v))): i for i, (x, v) in enumerate(zip(R, tr))}
    n = len(R)
    return np.array([[D[((R[i] @ R[j]).astype(int).tobytes(), int(bool(tr[i]) != bool(tr[j])))] for j in range(n)]
                     for i in range(n)])


def law_phase(R, T, k, tab):
    """exp(-2 pi i k.(R_i t_j + t_i - t_ij)), [i, j]"""
    d = np.einsum("iab,jb->ija", R, T) + T[:, None, :] - T[tab]
    return np.exp(-2j * np.pi * (d @ np.asarray(k, float))), d


def check_law(rep, tab, fac, anti=None, tol=1e-6):
    n = len(rep)
    for i in range(n):
        rj = np.conj(rep) if anti is not None and anti[i] else rep
        lhs = rep[i][None] @ rj
        rhs = fac[i][:, None, None] * rep[tab[i]]
        if not np.isfinite(lhs).all() or np.abs(lhs - rhs).max() > tol:
            j = int(np.argmax(np.abs(lhs - rhs).max(axis=(1, 2))))
            return f"multiplication law fails at operations ({i}, {j})"
    return None


def check_unitary(rep, tol=1e-6):
    d = rep.shape[1]
    return np.abs(np.einsum("kij,klj->kil", rep, rep.conj()) - np.eye(d)).max() < tol


def characters(irreps):
    return np.array([np.einsum("kii->k", x) for x in irreps])


def check_irreps(irreps, n, what="", tol=1e-5):
    """irreducible, inequivalent, complete"""
    need(len(irreps) > 0, f"{what}: no irreps returned")
    ch = characters(irreps)
    G = ch.conj() @ ch.T / n
    need(np.abs(np.diag(G) - 1).max() < tol, f"{what}: a returned representation is reducible")
    need(np.abs(G - np.eye(len(G))).max() < tol, f"{what}: equivalent irreps returned twice")
    need(sum(x.shape[1] ** 2 for x in irreps) == n, f"{what}: squared dimensions sum to "
         f"{sum(x.shape[1] ** 2 for x in irreps)}, not {n}")


def neto_ok(R):
    """spglib identifies the point group in this basis (a dependency's limit, not spgrep's)."""
    # when the search for axes fails, spglib returns whatever the previous call left behind
    try:
        Ps = []
        for h in (523, 1):
            spglib.get_pointgroup(hall(h)[0])
            Ps.append(np.array(spglib.get_pointgroup(R)[2]))
    except Exception:
        return False
    P = Ps[0]
    if not np.array_equal(*Ps) or abs(np.linalg.det(P)) < 0.5:
        return False
    Pi = np.linalg.inv(P)
    X = np.einsum("ab,nbc,cd->nad", Pi, R, P)
    return np.abs(X - np.rint(X)).max() < 1e-8


def stdlat(R, seed):
    """A lattice (rows) on which the integer matrices R act as isometries, randomly oriented."""
    rng = np.random.default_rng(seed)
    A = rng.random((3, 3)) + np.eye(3) * 2
    G = A @ A.T
    G = sum(r.T @ G @ r for r in R) / len(R)
    L = np.linalg.cholesky(G)
    Q, _ = np.linalg.qr(rng.normal(size=(3, 3)))
    if np.linalg.det(Q) < 0:
        Q = -Q
    if rng.random() < 0.3:
        Q = np.eye(3)
    return L @ Q.T


def check_su2(lat, R, U, tr=None):
    for i, (r, u) in enumerate(zip(R, U)):
        C = lat.T @ r @ np.linalg.inv(lat.T)
        C = C * np.sign(np.linalg.det(C))
        if tr is not None and tr[i]:
            u = u @ np.array([[0, 1], [-1, 0]])  # remove (-i sigma_y)
        need(np.abs(u @ u.conj().T - np.eye(2)).max() < 1e-6, f"spinor matrix {i} is not unitary")
        need(abs(np.linalg.det(u) - 1) < 1e-6, f"spinor matrix {i} has determinant {np.linalg.det(u)}")
        for b in range(3):
            lhs = u @ SIG[b] @ u.conj().T
            need(np.abs(lhs - np.einsum("a,aij->ij", C[:, b], SIG)).max() < 1e-5,
                 f"spinor matrix {i} does not cover the rotation part of its operation")


def check_spin_factor(tab, U, fs, tr=None):
    n = len(U)
    need(fs.shape == (n, n), f"spinor factor system has shape {fs.shape} for {n} operations")
    need(np.abs(np.abs(np.real(fs)) - 1).max() < 1e-8 and np.abs(np.imag(fs)).max() < 1e-8,
         "spinor factor system has values other than +1, -1")
    for i in range(n):
        uj = np.conj(U) if tr is not None and tr[i] else U
        need(np.abs(U[i][None] @ uj - fs[i][:, None, None] * U[tab[i]]).max() < 1e-6,
             f"spinor factor system is not the one of the returned spinor matrices (row {i})")


def runitary(d, rng, real=False):
    A = rng.normal(size=(d, d))
    if not real:
        A = A + 1j * rng.normal(size=(d, d))
    q, _ = np.linalg.qr(A)
    return q
