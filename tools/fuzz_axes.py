"""Arrays with any number of axes: random exchanges, sums and products of axes in the engine against NumPy at concrete numbers of axes.
Usage: python3-vt tools/fuzz_axes.py FIRST LAST"""
import os, random, sys
import numpy as np
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "dv"))
from terms import *
from values import *
import numpy_model as N
import interp
from norm import Ctx

RANK = {"A": 2, "B": 3}
EXT = {"x": 2, "y": 3, "z": 4}


def number(p):
    n = 0
    for (b, fs), c in num(p).items():
        v = int(c.re)
        for f, q in fs:
            v *= RANK[f[2][0]] ** q
        n += v
    return n


def flat(shape):
    out = []
    for d in shape:
        if isinstance(d, Ones):
            out += [1] * number(d.rank)
        elif isinstance(d, Several):
            out += [2 + (ord(d.name) + k) % 3 for k in range(RANK[d.name])]
        elif isinstance(d, int):
            out.append(d)
        else:
            out.append(EXT[d.name])
    return tuple(out)


def main(lo, hi):
    done = refused = 0
    for seed in range(lo, hi):
        r = random.Random(seed)
        ip = interp.Interp(Ctx()) if hasattr(interp, "Interp") else None
        ra, rb = atom("n", "A"), atom("n", "B")
        ip.ctx.ranks |= {ra, rb}
        pool = [Several("A", ra, same=False), Several("B", rb, same=False), Dim("x"), Dim("y"), 1, 1, Ones(ra + rb), Ones(ra), Ones(rb + 1)]
        shape = tuple(r.sample(pool, r.randint(2, 5)))
        if not any(isinstance(d, Several) for d in shape):
            continue
        # what an element holds is not needed here: axes are told apart by where they came from
        a = ip.mk(shape, lambda i: atom("T", *[j for j, d in zip(i, shape) if not isinstance(d, (int, Ones))]))
        c = np.arange(int(np.prod(flat(shape)))).reshape(flat(shape))
        for _ in range(r.randint(1, 4)):
            p, q = [r.choice([Poly.const(0), Poly.const(1), Poly.const(2), ra, ra + 1, rb, rb + 1, ra + rb, ra + rb + 1, ra + 2]) for _ in "pq"]
            try:
                kind = r.choice(["swap", "swap", "sum", "mult"])
                if kind == "swap":
                    b = N.swap_several(ip, a, p, q)
                elif kind == "sum":
                    b = N.sum_several(ip, a, p, keep := r.random() < 0.5)
                else:
                    other = tuple(d if r.random() < 0.5 else 1 if not isinstance(d, Several) else Ones(d.rank) for d in a.shape)
                    o = ip.mk(other, lambda i: atom("U", *[j for j, d in zip(i, other) if not isinstance(d, (int, Ones))]))
                    b = ip.elementwise(lambda x, y: num(x) * num(y), a, o)
            except Undecided:
                refused += 1
                continue
            try:
                if kind == "swap":
                    c = np.swapaxes(c, number(p), number(q))
                elif kind == "sum":
                    c = np.sum(c, axis=number(p), keepdims=keep)
                else:
                    c = c * np.ones(flat(other), int)
            except Exception as e:
                print(seed, "DIFF", shape, kind, p, q, repr(e))
                break
            if flat(b.shape) != c.shape:
                print(seed, "DIFF", shape, kind, p, q, b.shape, c.shape)
                break
            a, done = b, done + 1
            if kind == "swap" and not any(isinstance(d, Several) for d in a.shape):
                break
    print("steps", done, "refused", refused)


main(int(sys.argv[1]), int(sys.argv[2]))
