"""Random programs about lists of arrays, tuples, dictionaries, views and shared objects: the verifier's reading against CPython."""
import os, random, signal, sys
from collections import Counter
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from fuzz_programs import compare, interp


class L:
    def __init__(g, rng):
        g.r, g.n = rng, 0

    def c(g, *xs):
        return g.r.choice(xs)

    def name(g, p):
        g.n += 1
        return f"{p}{g.n}"

    def ix(g, sc):
        return g.c(*(sc["ix"] or ["0"]), *(sc["ix"]), "0", "-1")

    def num(g, sc):
        o = ["s", "2", "0.5", f"A[{g.ix(sc)}]"] + [f"{v}[{g.ix(sc)}]" for v in sc["vec"]] + [f"M[{g.ix(sc)}, {g.ix(sc)}]"]
        x = g.c(*o)
        return x if g.r.random() < .7 else f"({x} {g.c('+', '*', '-')} {g.c(*o)})"

    def vec(g, sc, d=1):
        o = ["A", "B", f"M[{g.ix(sc)}]", f"M[:, {g.ix(sc)}]"] + sc["vec"] * 2 + [f"{m}[{g.ix(sc)}]" for m in sc["mat"]] + [f"{l}[{g.ix(sc)}]" for l in sc["lvec"]] * 2 + [f"{l}[{g.ix(sc)}][0]" for l in sc["lpair"]] * 2 + [f"{l}[{g.ix(sc)}][0]" for l in sc["llist"]]
        x = g.c(*o)
        k = g.r.random()
        if d and k < .35:
            return g.c(f"{x} + 0", f"{x}.copy()", f"{x} * {g.num(sc)}", f"np.asarray({x})", f"np.array({x})", f"{x}[:]", f"{x}.T", f"np.conj({x})", f"np.real({x})", f"np.where(A > 0, {x}, B)", f"{x} - {g.vec(sc, 0)}")
        return x

    def mat(g, sc):
        o = ["M"] + sc["mat"] * 2 + [f"np.array({l})" for l in sc["lvec"]] + [f"np.asarray({l})" for l in sc["lvec"]]
        x = g.c(*o)
        return x if g.r.random() < .6 else g.c(f"{x}.T", f"{x} + 0", f"{x}.copy()", f"{x} @ M", f"np.array({x})")

    def item(g, sc, kind):
        if kind == "lvec":
            return g.vec(sc)
        if kind == "lpair":
            return f"({g.vec(sc)}, {g.num(sc)})"
        if kind == "llist":
            return f"[{g.vec(sc)}]"
        return g.num(sc)

    def cond(g, sc):
        return f"{g.num(sc)} {g.c('>', '<')} {g.c('0', '0.3')}"

    def stmt(g, sc, ind, depth, loop):
        p = "    " * ind
        k = g.r.random()
        kind = g.c("lvec", "lvec", "lpair", "llist", "lnum")
        if k < .12:
            v = g.name("v"); t = g.vec(sc); sc["vec"].append(v)
            return [p + f"{v} = {t}"]
        if k < .16:
            v = g.name("w"); t = g.mat(sc); sc["mat"].append(v)
            return [p + f"{v} = {t}"]
        if k < .28:
            x = g.vec(sc, 0)
            return [p + g.c(f"{x}[{g.ix(sc)}] = {g.num(sc)}", f"{x}[{g.ix(sc)}] += {g.num(sc)}", f"{x}[:] = {g.vec(sc)}", f"{x} += {g.vec(sc)}" if "[" not in x else f"{x}[0] *= 2", f"h2({x}, {g.num(sc)})")]
        if k < .32:
            x = g.c(*(sc["mat"] or ["M"]))
            return [p + g.c(f"{x}[{g.ix(sc)}, {g.ix(sc)}] = {g.num(sc)}", f"{x}[{g.ix(sc)}] = {g.vec(sc)}", f"{x} *= 2")]
        if k < .42:
            l = g.c(*sc[kind]) if sc[kind] else None
            if l:
                return [p + f"{l}.append({g.item(sc, kind)})"]
        if k < .5:
            l = g.c(*sc[kind]) if sc[kind] else None
            if l:
                return [p + g.c(f"{l}[{g.ix(sc)}] = {g.item(sc, kind)}", f"{l}.extend({l})", f"{l}[{g.ix(sc)}] = {l}[{g.ix(sc)}]")]
        if k < .6:
            l = g.name("l")
            s2 = {a: list(b) for a, b in sc.items()}
            q = g.r.random()
            if q < .3:
                t = f"[{', '.join(g.item(sc, kind) for _ in range(g.r.randint(0, 2)))}]"
            elif q < .45:
                t = f"[{g.item(sc, kind)}] * {g.c('2', 'n', 'len(A)')}"
            elif q < .75:
                i = g.name("i"); s2["ix"].append(i)
                t = f"[{g.item(s2, kind)} for {i} in range(n)]"
            elif q < .9:
                r = g.name("r"); s2["vec"].append(r)
                t = f"[{g.item(s2, kind)} for {r} in {g.c('M', *sc['mat'], *sc['lvec'])}]"
            else:
                t = g.c(*sc[kind]) if sc[kind] else "[]"
                t = g.c(t, f"list({t})", f"{t}[:]", f"{t} + {t}")
            sc[kind].append(l)
            return [p + f"{l} = {t}"]
        if k < .66:
            return [p + g.c(f"d1[{g.c('0', '1', *sc['ix'])}] = {g.vec(sc)}", f"d1[{g.c('0', '1', *sc['ix'])}] = {g.num(sc)}")]
        if k < .7 and sc["llist"]:
            return [p + f"{g.c(*sc['llist'])}[{g.ix(sc)}].append({g.vec(sc)})"]
        if k < .78 and depth:
            s2 = {a: list(b) for a, b in sc.items()}
            return [p + f"if {g.cond(sc)}:"] + g.block(s2, ind + 1, depth - 1, loop) + ([p + "else:"] + g.block({a: list(b) for a, b in sc.items()}, ind + 1, depth - 1, loop) if g.r.random() < .4 else [])
        if k < .95 and depth:
            s2 = {a: list(b) for a, b in sc.items()}
            q = g.r.random()
            if q < .4:
                i = g.name("i"); s2["ix"].append(i); head = f"for {i} in range({g.c('n', 'len(A)', '2')}):"
            elif q < .6:
                i, r = g.name("i"), g.name("r"); s2["ix"].append(i); s2["vec"].append(r)
                head = f"for {i}, {r} in enumerate({g.c('M', *sc['mat'], *sc['lvec'])}):"
            elif q < .75:
                r, t = g.name("r"), g.name("r"); s2["vec"] += [r, t]
                head = f"for {r}, {t} in zip({g.c('M', *sc['lvec'])}, {g.c('M', *sc['mat'], *sc['lvec'])}):"
            elif q < .9 and sc["lpair"]:
                r, t = g.name("r"), g.name("q"); s2["vec"].append(r)
                head = f"for {r}, {t} in {g.c(*sc['lpair'])}:"
            else:
                r = g.name("r"); s2["vec"].append(r); head = f"for {r} in {g.c('M', *sc['lvec'])}:"
            return [p + head] + g.block(s2, ind + 1, depth - 1, True)
        if loop and k < .97:
            return [p + f"if {g.cond(sc)}:", p + "    " + g.c("break", "continue", f"return {g.vec(sc)}")]
        return [p + "pass"]

    def block(g, sc, ind, depth, loop):
        return [x for _ in range(g.r.randint(1, 3)) for x in g.stmt(sc, ind, depth, loop)]

    def program(g):
        sc = {"ix": [], "vec": [], "mat": [], "lvec": ["p0"], "lpair": [], "llist": [], "lnum": []}
        out = ["def h2(v, a):", f"    {g.c('v[0] = a', 'v += a', 'v = v + a')}", "", "def f(A, B, M, V, s, Z):", "    n = len(A)", "    d1 = {}", "    A, B, M = A.copy(), B + 0, np.array(M)" if g.r.random() < .8 else "    pass", f"    p0 = {g.c('[]', '[x for x in M]', '[A, B]', '[x + 0 for x in M]', '[None] * n')}"]
        for _ in range(g.r.randint(2, 4)):
            out += g.stmt(sc, 1, 2, False)
        outs = [f"{g.c(*sc[k])}" for k in ("vec", "mat", "lvec", "lpair", "llist", "lnum") if sc[k]]
        out.append("    return " + (", ".join(g.r.sample(outs, min(2, len(outs)))) if g.r.random() < .6 else g.c(g.vec(sc), g.mat(sc), g.num(sc), "d1", "np.array(p0)")))
        return "\n".join(out) + "\n"


if __name__ == "__main__":
    a, b = int(sys.argv[1]), int(sys.argv[2])
    C = Counter()

    class TO(BaseException):
        pass

    def on(*_):
        raise TO()
    signal.signal(signal.SIGALRM, on)
    for k in range(a, b):
        t = L(random.Random(k)).program()
        if "-k" in sys.argv:
            print("at", k, flush=True)
        signal.setitimer(signal.ITIMER_REAL, 6)
        try:
            r = compare(t, k)
        except TO:
            r = "timeout"
        except Exception as e:
            r = f"crash {type(e).__name__} {str(e)[:80]}"
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        interp.SNIPPETS.pop(f"fz{k}", None)
        C[" ".join(r.split()[:6])[:60] if r[:4] != "DIFF" else "DIFF"] += 1
        if r[:4] in ("DIFF", "cras"):
            print(k, r[:200], flush=True)
        if "-v" in sys.argv:
            print(t)
    print(C.most_common(30))
