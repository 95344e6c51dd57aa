import os, sys, random, warnings, signal
warnings.filterwarnings("ignore")
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "dv"))
import numpy as np
import cross, api, interp
from values import *
from cross import *
from collections import Counter
# shape-typed random straight-line programs; a shape is a tuple of symbols 'n','d','3', composite 'n*d', '2n', '2d'
ARGS = {"A": ("n", "d"), "B": ("d", "d"), "C": ("n", "n", "d"), "D": ("n",), "F": ("d",), "R": ("n", "3", "3"), "V": ("n", "3"), "W": ("3",), "T": ("n", "d", "d"), "S": ("n", "n")}
KIND = dict(A="complex", B="complex", C="real", D="complex", F="real", R="real", V="real", W="real", T="complex", S="real")
SPECS = " ".join(f"{k}:{KIND[k]}:{','.join(v)}" for k, v in ARGS.items())
EXT = {"n": "n", "d": "d", "3": "3", "2n": "2 * n", "2d": "2 * d"}
def ext(s):
    if "*" in s: return " * ".join(ext(x) if x not in ("2n","2d") else f"({ext(x)})" for x in s.split("*"))
    return EXT[s]
class G:
    def __init__(g, r):
        g.r = r; g.env = {k: v for k, v in ARGS.items()}; g.lines = []; g.k = 0; g.cplx = {k for k in KIND if KIND[k] == "complex"}
        g.own = []
    def pick(g, f=lambda s: True):
        c = [k for k, s in g.env.items() if f(s)]
        if not c: return None
        new = [k for k in c if k.startswith("x")]
        return g.r.choice(new) if new and g.r.random() < .6 else g.r.choice(c)
    def let(g, e, shape, own=False):
        g.k += 1; x = f"x{g.k}"; g.env[x] = tuple(shape); g.lines.append(f"{x} = {e}")
        if own: g.own.append(x)
        return x
    def step(g):
        r = g.r; q = r.random(); a = g.pick(); sa = g.env[a]
        if q < .12:
            b = g.pick(lambda s: s == sa); g.let(f"{a} {r.choice('+-*')} {b}", sa, True)
        elif q < .2:   # broadcasting
            b = g.pick(lambda s: len(s) <= len(sa) and s == sa[len(sa)-len(s):])
            if b: g.let(r.choice([f"{a} {r.choice('+-*')} {b}", f"{b} {r.choice('+-*')} {a}"]), sa, True)
        elif q < .26:
            p = list(range(len(sa))); r.shuffle(p)
            g.let(r.choice([f"np.transpose({a}, {tuple(p)})", f"{a}.transpose({', '.join(map(str,p))})"]), [sa[i] for i in p])
        elif q < .30 and len(sa) >= 2:
            i, j = r.sample(range(len(sa)), 2); s = list(sa); s[i], s[j] = s[j], s[i]
            g.let(f"np.swapaxes({a}, {i}, {j})", s)
        elif q < .38 and len(sa) >= 1:
            b = g.pick(lambda s: len(s) >= 1 and len(s) + len(sa) <= 5)
            if b:
                sb = g.env[b]; L = "abcdefgh"; la = {}; 
                ia = L[:len(sa)]; used = list(ia); ib = ""
                free = iter(L[len(sa):])
                for s in sb:
                    m = [c for c, t in zip(ia, sa) if t == s and c not in ib]
                    c = r.choice(m) if m and r.random() < .6 else next(free)
                    ib += c; la[c] = s
                for c, s in zip(ia, sa): la[c] = s
                allc = sorted(set(ia + ib)); out = [c for c in allc if r.random() < .6][:4]; r.shuffle(out)
                w = r.choice(["", ", optimize='greedy'"])
                if not any("*" in la[c] or "2" in la[c] for c in allc if c not in out):
                    g.let(f"np.einsum('{ia},{ib}->{''.join(out)}', {a}, {b}{w})", [la[c] for c in out], True)
        elif q < .46 and len(sa) in (1, 2):
            b = g.pick(lambda s: len(s) in (1, 2) and s[0] == sa[-1])
            if b: g.let(f"{a} @ {b}", sa[:-1] + g.env[b][1:], True)
        elif q < .50 and len(sa) >= 1:
            i = r.randrange(len(sa)); g.let(f"np.sum({a}, axis={r.choice([i, i-len(sa)])})", sa[:i] + sa[i+1:], True)
        elif q < .54 and len(sa) >= 1:
            i = r.randrange(len(sa) + 1)
            if i < len(sa) and i >= 1 or len(sa) >= 2:
                j = r.randrange(len(sa) - 1) if len(sa) >= 2 else None
                if j is not None:
                    g.let(f"{a}.reshape({', '.join(ext(s) for s in sa[:j])}{', ' if j else ''}{ext(sa[j])} * {'('+ext(sa[j+1])+')'}{', ' if sa[j+2:] else ''}{', '.join(ext(s) for s in sa[j+2:])})", sa[:j] + (sa[j] + "*" + sa[j+1],) + sa[j+2:])
        elif q < .60:
            c = [k for k, s in g.env.items() if any("*" in x for x in s)]
            if c:
                a = r.choice(c); sa = g.env[a]; out = []
                for s in sa: out += s.split("*")
                g.let(f"{a}.reshape({', '.join(ext(s) for s in out)})", out)
        elif q < .65 and len(sa) == 2:
            b = g.pick(lambda s: len(s) == 2)
            sb = g.env[b]; g.let(f"np.kron({a}, {b})", (sa[0] + "*" + sb[0], sa[1] + "*" + sb[1]), True)
        elif q < .70:
            e = r.choice([f"np.conj({a})", f"{a}.conj()", f"{a}.real", f"np.imag({a})", f"np.abs({a})", f"-{a}", f"{a} * 1j", f"{a} / 2", f"{a} ** 2", f"np.rint({a}.real)", f"np.exp(1j * {a}.real)", f"{a}.copy()", f"np.array({a})", f"np.where({a}.real > 0, {a}, -{a})"])
            g.let(e, sa, not e.startswith(("np.imag",)) and ".real" != e[-5:] and ".conj" not in e)
        elif q < .76 and len(sa) == 2 and sa[0] in ("n", "d") and sa[1] in ("n", "d"):
            b = g.pick(lambda s: s == sa); c = g.pick(lambda s: s == sa)
            x = g.let(f"np.zeros((2 * {ext(sa[0])}, 2 * {ext(sa[1])}), dtype=complex)", ("2" + sa[0], "2" + sa[1]), True)
            n, m = ext(sa[0]), ext(sa[1])
            for blk, v in ((f"[:{n}, :{m}]", a), (f"[{n}:, {m}:]", b), (r.choice([f"[:{n}, {m}:]", f"[{n}:, :{m}]"]), r.choice([c, f"-{c}"]))):
                g.lines.append(f"{x}{blk} {r.choice(['=','=','+='])} {v}")
        elif q < .80:
            c = [k for k, s in g.env.items() if len(s) == 2 and s[0] in ("2n", "2d") and s[1] in ("2n", "2d")]
            if c:
                a = r.choice(c); sa = g.env[a]; n, m = sa[0][1], sa[1][1]
                sl, s = r.choice([(f"[:{n}, :{m}]", (n, m)), (f"[{n}:, :{m}]", (n, m)), (f"[{n}:, {m}:]", (n, m)), (f"[:, :{m}]", (sa[0], m))])
                g.let(f"{a}{sl}", s)
        elif q < .84 and len(sa) >= 1 and sa[0] == "n":
            g.let(f"{a}[::-1]", sa)
        elif q < .87 and len(sa) >= 1:
            i = r.choice(["None", "np.newaxis"])
            pass
        elif q < .90 and len(sa) >= 2 and "3" in sa:
            i = sa.index("3"); g.let(f"{a}[{':, ' * i}{r.choice('012')}]", sa[:i] + sa[i+1:])
        elif q < .93 and len(sa) >= 1 and sa[0] == "n":
            e = r.choice([f"np.array([y * 2 for y in {a}])", f"np.array([{a}[i] for i in range(n)])", f"np.array([np.conj(y) for y in {a}])", f"np.stack([y + 1 for y in {a}])"])
            g.let(e, sa, True)
        elif q < .96 and g.own:
            x = r.choice(g.own); sx = g.env[x]
            b = g.pick(lambda s: s == sx)
            k = r.random()
            if k < .4: g.lines.append(f"{x} {r.choice(['+=','*=','-='])} {r.choice([b, '2', b + '.real'])}")
            elif k < .6: g.lines.append(f"{x}[:] = {b}")
            elif sx and sx[0] == "n":
                b = g.pick(lambda s: s == sx[1:]) or "2"
                g.lines.append(f"for i in range(n):"); g.lines.append(f"    {x}[i] {r.choice(['=','+=','*='])} {b}")
        elif len(sa) >= 2:
            i, j = None, None
            for i in range(len(sa)):
                for j in range(i + 1, len(sa)):
                    if sa[i] == sa[j] and sa[i] in ("n", "d", "3"):
                        g.let(f"np.trace({a}, axis1={i}, axis2={j})", [s for k, s in enumerate(sa) if k not in (i, j)], True); return
    def program(g):
        for _ in range(g.r.randint(3, 8)): 
            g.step()
        g.env = {k: v for k, v in g.env.items() if k.startswith("x")}
        ret = [k for k in g.env][-3:] or ["A"]
        return f"def f({', '.join(ARGS)}):\n    n, d = A.shape\n" + "".join("    " + l + "\n" for l in g.lines) + f"    return {', '.join(ret)}\n"
def compare(text, k, seeds=(1, 2)):
    import fuzz_programs as fuzz3
    fuzz3.SPECS = SPECS
    return fuzz3.compare(text, k, seeds)
if __name__ == "__main__":
    a, b = int(sys.argv[1]), int(sys.argv[2])
    C = Counter()
    class TO(Exception): pass
    def on(*_): raise TO()
    signal.signal(signal.SIGALRM, on)
    for k in range(a, b):
        t = G(random.Random(k)).program()
        signal.setitimer(signal.ITIMER_REAL, 10)
        try: r = compare(t, k)
        except TO: r = "timeout"
        except Exception as e: r = f"crash {type(e).__name__} {str(e)[:80]}"
        finally: signal.setitimer(signal.ITIMER_REAL, 0)
        interp.SNIPPETS.pop(f"fz{k}", None)
        C[" ".join(r.split()[:6])[:60] if r[:4] != "DIFF" else "DIFF"] += 1
        if r[:4] in ("DIFF", "cras"): print(k, r[:200].replace("\n", " "), flush=True)
    print(C.most_common(40))
