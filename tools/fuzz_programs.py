import os, sys, random, time, warnings
warnings.filterwarnings("ignore")
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "dv"))
import numpy as np
import cross, api, interp
from values import *
from cross import *

class G:
    def __init__(g, rng):
        g.r = rng
        g.n = 0
    def c(g, *xs): return g.r.choice(xs)
    def num(g, sc, d=2):
        """scalar expression; sc: dict kind->names"""
        o = ["s", "0.5", "-1", "2"]
        o += sc["num"] * 3
        for i in sc["ix"]:
            o += [f"A[{i}]", f"B[{i}]", f"M[{i}, {i}]"]
            for j in sc["ix"]: o += [f"M[{i}, {j}]"]
            for x in sc["vec"]: o += [f"{x}[{i}]"]
            for x in sc["mat"]: o += [f"{x}[{i}, {i}]"]
        for i in sc["lix"]:
            o += [f"V[{i}]"]
            for x in sc["loc"]: o += [f"{x}[{i}]"]
        o += ["V[0]", "V[2]"]
        for x in sc["loc"]: o += [f"{x}[1]"]
        if d <= 0: return g.c(*o)
        k = g.r.random()
        if k < .45: return g.c(*o)
        if k < .7: return f"({g.num(sc, d-1)} {g.c('+','-','*')} {g.num(sc, d-1)})"
        if k < .78: return f"np.sum({g.vec(sc, d-1)})"
        if k < .84: return f"({g.vec(sc, d-1)} @ {g.vec(sc, d-1)})"
        if k < .88: return f"abs({g.num(sc, d-1)})"
        if k < .92: return f"({g.num(sc, d-1)} if {g.cond(sc, d-1)} else {g.num(sc, d-1)})"
        if k < .90: pass
        if g.r.random() < .35:
            return g.c(f"np.rint({g.num(sc, d-1)})", f"max({g.num(sc,d-1)}, {g.num(sc,d-1)})", f"np.linalg.norm({g.vec(sc,d-1)})", f"np.sum(np.abs({g.vec(sc,d-1)})**2)", f"np.vdot({g.vec(sc,d-1)}, {g.vec(sc,d-1)})", f"np.real(np.vdot({g.cvec(sc,d-1)}, {g.cvec(sc,d-1)}))", f"np.trace({g.cmat(sc,d-1)}).real", f"len([y for y in {g.vec(sc,d-1)} if y > {g.num(sc,0)}])", f"sum([y * y for y in {g.vec(sc,d-1)}])", f"np.einsum('i,i->', {g.vec(sc,0)}, {g.vec(sc,0)})", f"int({g.num(sc,d-1)})", f"np.max({g.vec(sc,0)})", f"h1({g.num(sc,d-1)}, {g.vec(sc,0)})", f"(1 if all([y > {g.num(sc,0)} for y in {g.vec(sc,0)}]) else 0)", f"np.count_nonzero({g.vec(sc,0)} > 0)", f"np.abs({g.cnum(sc,d-1)})", f"np.angle({g.cnum(sc,d-1)})", f"np.mean({g.vec(sc,d-1)})")
        if k < .96: return f"np.trace({g.mat(sc, d-1)})"
        return f"float({g.num(sc, d-1)})"
    def vec(g, sc, d=1):
        o = ["A", "B"] + sc["vec"] * 2 + [f"M[{i}]" for i in sc["ix"]] + [f"M[:, {i}]" for i in sc["ix"]] + [f"{x}[{i}]" for x in sc["mat"] for i in sc["ix"]]
        k = g.r.random()
        if d <= 0 or k < .5: return g.c(*o)
        if k < .7: return f"({g.vec(sc, d-1)} {g.c('+','-','*')} {g.vec(sc, d-1)})"
        if k < .8: return f"({g.mat(sc, d-1)} @ {g.vec(sc, d-1)})"
        if k < .9: return f"({g.num(sc, d-1)} * {g.vec(sc, d-1)})"
        return f"np.abs({g.vec(sc, d-1)})"
    def mat(g, sc, d=1):
        o = ["M"] + sc["mat"] * 2
        k = g.r.random()
        if d <= 0 or k < .5: return g.c(*o)
        if k < .6: return f"{g.c(*o)}.T"
        if k < .75: return f"({g.mat(sc, d-1)} {g.c('+','-','*','@')} {g.mat(sc, d-1)})"
        if k < .85: return f"np.outer({g.vec(sc, d-1)}, {g.vec(sc, d-1)})"
        if k < .95: return f"{g.mat(sc, d-1)}.T"
        return f"np.eye(len(A))"
    def cnum(g, sc, d=1):
        o = ["1j", "Z[0, 0]"] if False else ["1j", "np.trace(Z)"] + [f"Z[{i}, {j}]" for i in sc["ix"] for j in sc["ix"]]
        k = g.r.random()
        if d <= 0 or k < .5: return g.c(*o)
        if k < .8: return f"({g.cnum(sc,d-1)} {g.c('+','*','-')} {g.c(g.cnum(sc,d-1), g.num(sc,d-1))})"
        return g.c(f"np.conj({g.cnum(sc,d-1)})", f"np.exp(1j * {g.num(sc,0)})", f"({g.cnum(sc,d-1)}).conjugate()")
    def cvec(g, sc, d=1):
        o = ["Z @ A"] + [f"Z[{i}]" for i in sc["ix"]] + [f"Z[:, {i}]" for i in sc["ix"]]
        k = g.r.random()
        if d <= 0 or k < .5: return "(" + g.c(*o) + ")"
        return g.c(f"({g.cvec(sc,d-1)} + {g.vec(sc,0)})", f"({g.cmat(sc,d-1)} @ {g.cvec(sc,d-1)})", f"np.conj({g.cvec(sc,d-1)})", f"({g.cvec(sc,d-1)}).conj()")
    def cmat(g, sc, d=1):
        k = g.r.random()
        if d <= 0 or k < .4: return g.c("Z", "E1", "Z.T")
        return g.c(f"({g.cmat(sc,d-1)} {g.c('@','+','*')} {g.cmat(sc,d-1)})", f"{g.cmat(sc,d-1)}.conj().T", f"np.conj({g.cmat(sc,d-1)})", f"({g.cmat(sc,d-1)} + {g.mat(sc,0)})", f"np.einsum('{g.c('ij,jk->ik','ij,kj->ik','ij,ij->ij','ij,ij->ji')}', {g.cmat(sc,0)}, {g.cmat(sc,0)})")
    def cond(g, sc, d=1):
        k = g.r.random()
        o = [f"{x}" for x in sc["flag"]]
        if o and k < .2: return g.c(*o)
        if d > 0 and k < .35: return f"({g.cond(sc, d-1)} {g.c('and','or')} {g.cond(sc, d-1)})"
        if d > 0 and k < .42: return f"not {g.cond(sc, d-1)}"
        if k < .5 and len(sc["ix"]) > 1: 
            return f"{g.c(*sc['ix'])} {g.c('==','!=')} {g.c(*sc['ix'])}"
        if k < .56: return f"np.all({g.vec(sc, 0)} > {g.c('0','-1','0.5')})"
        if k < .62: return f"np.any({g.vec(sc, 0)} > {g.c('0','-1','0.5')})"
        return f"{g.num(sc, 1)} {g.c('>','<','>=')} {g.num(sc, 0)}"
    def block(g, sc, ind, depth, loop, size):
        out = []
        sc = {k: list(v) for k, v in sc.items()} if False else sc
        for _ in range(size):
            out += g.stmt(sc, ind, depth, loop)
        return out
    def sub(g, sc): return {k: list(v) for k, v in sc.items()}
    def fresh(g, p):
        g.n += 1
        return f"{p}{g.n}"
    def stmt(g, sc, ind, depth, loop):
        p = "    " * ind
        k = g.r.random()
        local = [x for x in sc["num"] if x.startswith("x")]
        if k < .12:
            return [p + f"{g.c(*local)} = {g.num(sc)}"]
        if k < .20:
            return [p + f"{g.c(*local)} {g.c('+=','+=','*=','-=')} {g.num(sc)}"]
        if k < .25:
            return [p + f"{g.c(*sc['flag'])} = {g.c('True','False', g.cond(sc))}"]
        if k < .32 and sc["list"]:
            return [p + f"{g.c(*sc['list'])}.append({g.num(sc)})"]
        own = [x for x in sc["vec"] if x.startswith("C")]
        if loop and os.environ.get("FZ_SUMS") and g.r.random() < .45:       # sums over the iterations
            x, y, i = g.c(*own), g.c(*[z for z in sc["mat"] if z.startswith("D")]), g.c(*(sc["ix"] or ["0"]))
            return [p + g.c(f"{x} {g.c('+=', '-=')} {g.vec(sc)}", f"{x} = {x} {g.c('+', '-')} {g.vec(sc)}", f"{y} {g.c('+=', '-=')} {g.mat(sc)}", f"{y} = {g.mat(sc)} + {y}",
                            f"{x}[{i}] += {g.num(sc)}", f"{y}[{i}] += {g.vec(sc)}", f"{y}[:, {i}] -= {g.vec(sc)}", f"{y}[{i}, {i}] += {g.num(sc)}", f"u1 += {g.num(sc)}", f"E1 = E1 + {g.cmat(sc)}")]
        if g.r.random() < .10:
            q = g.r.random(); a = g.r.choice(local)
            if q < .12: return [p + f"if {g.cond(sc)}:", p + "    raise " + g.c("ValueError('x')", "RuntimeError('y')")]
            if q < .24: return [p + "try:"] + g.block(g.sub(sc), ind+1, max(depth-1,0), loop, 1) + [p + f"    h3({g.num(sc,0)})"] + [p + g.c("except ValueError:", "except RuntimeError:", "except Exception:"), p + f"    {a} = {g.num(sc,0)}"]
            if q < .34: return [p + f"h3({g.num(sc,0)})"]
            if q < .46: return [p + f"l1 = [{g.num(sc,1).replace('A[', 'A[')} for q in range(len(A))]"]
            if q < .54: return [p + f"l1 = [y + {g.num(sc,0)} for y in {g.vec(sc,0)} if y > {g.num(sc,0)}]"]
            if q < .60: return [p + f"{a} = len(l1)"]
            if q < .66: return [p + f"for y in l1:", p + f"    {a} += y * {g.num(sc,0)}"]
            if q < .72: return [p + f"l1 = [[{g.num(sc,0)}, {g.num(sc,0)}][{g.c('0','1')}]]"]
            if q < .78: return [p + f"{a} = d1.get({g.c('0','1')}, {g.num(sc,0)})"]
            if q < .84: return [p + f"{g.c(*sc['flag'])} = any({g.cond(sc,0)} for q in range(n))"]
            if q < .90: return [p + f"{g.c(*sc['flag'])} = {g.c('0','1')} in d1"]
            if q < .95: return [p + f"{a}, {g.c(*own)}[{g.c(*(sc['ix'] or ['0']))}] = {g.num(sc)}, {g.num(sc)}"] if sc["ix"] else [p + f"{a} = {g.num(sc)}"]
            i = g.fresh("j")
            return [p + f"{i} = 0", p + f"while {i} < {g.c('2','3')}:", p + f"    {a} = {g.num(sc)}", p + f"    {i} += 1"]
        if k > .985:
            q = g.r.random(); a, b = g.r.choice(local), g.r.choice(local)
            if q < .2: return [p + f"{a}, {b} = {b}, {g.num(sc)}"]
            if q < .4: return [p + f"l1 = [{g.num(sc,0)}]"]
            if q < .6: return [p + f"E1[:] = {g.cmat(sc)}"] if g.r.random() < .5 else [p + f"E1 = {g.cmat(sc)}"]
            if q < .8: return [p + f"h2({g.c(*own)}, {g.num(sc)})"]
            return [p + f"d1[{g.c('0','1')}] = {g.num(sc)}"]
        if k > .97 and True:
            i = g.c(*(sc["ix"] or ["0"]))
            e = g.c(f"np.asarray({g.c(*own)}, dtype=float)", f"np.array({g.c(*own)})", f"{g.c(*own)}.copy()", f"{g.c(*own)}.astype(float)", f"{g.c(*own)}[::-1]", f"np.array([y * 2 for y in {g.vec(sc,0)}])", f"np.array([{g.c('y','-y')} for y in {g.vec(sc,0)}])", f"np.zeros_like({g.vec(sc,0)})", f"np.real({g.cvec(sc)})", f"({g.cvec(sc)}).imag", f"np.where({g.vec(sc,0)} > 0, {g.vec(sc,0)}, {g.num(sc,0)})", f"np.conj({g.c(*own)})", f"np.diag({g.mat(sc,0)})")
            x = g.fresh("C"); r = [p + f"{x} = {e}"]; sc["vec"].append(x); return r
        if k < .44 and own:
            x = g.c(*own)
            if sc["ix"] and g.r.random() < .8:
                return [p + f"{x}[{g.c(*sc['ix'])}] {g.c('=','+=','=','*=')} {g.num(sc)}"]
            return [p + g.c(f"{x} {g.c('+=','*=')} {g.vec(sc)}", f"{x}[:] = {g.vec(sc)}", f"{x} = {g.vec(sc)}")]
        ownm = [x for x in sc["mat"] if x.startswith("D")]
        if k < .52 and ownm:
            x = g.c(*ownm)
            if sc["ix"]:
                i, j = g.c(*sc["ix"]), g.c(*sc["ix"])
                return [p + g.c(f"{x}[{i}, {j}] {g.c('=','+=')} {g.num(sc)}", f"{x}[{i}] {g.c('=','+=')} {g.vec(sc)}", f"{x}[:, {i}] = {g.vec(sc)}")]
            return [p + g.c(f"{x} {g.c('+=','*=')} {g.mat(sc)}", f"{x} = {g.mat(sc)}")]
        if k < .56 and sc["loc"]:
            x = g.c(*sc["loc"])
            i = g.c("0", "1", "2", *sc["lix"])
            return [p + f"{x}[{i}] {g.c('=','+=')} {g.num(sc)}"]
        if k < .60:
            x = g.fresh("w"); 
            r = [p + f"{x} = {g.vec(sc, 1)}"]; sc["vec"].append(x); return r
        if k < .63 and ownm:
            x = g.fresh("C")
            e = g.c(*ownm)
            s = g.c(*(sc["ix"] or ["0"]))
            if not sc["ix"]: e2 = f"{e}.T"; x = g.fresh("D"); sc["mat"].append(x); return [p + f"{x} = {e2}"]
            sc["vec"].append(x); return [p + f"{x} = {g.c(f'{e}[{s}]', f'{e}[:, {s}]', f'{e}.T[{s}]')}"]
        if k < .66 and own:
            x = g.fresh("C"); sc["vec"].append(x); return [p + f"{x} = {g.c(*own)}"]
        if k < .78 and depth > 0:
            r = [p + f"if {g.cond(sc)}:"] + g.block(g.sub(sc), ind+1, depth-1, loop, g.r.randint(1, 2))
            if g.r.random() < .35: r += [p + "else:"] + g.block(g.sub(sc), ind+1, depth-1, loop, g.r.randint(1, 2))
            return r
        if k < .93 and depth > 0:
            s2 = g.sub(sc); q = g.r.random()
            if q < .45:
                i = g.fresh("i"); s2["ix"].append(i); head = f"for {i} in range({g.c('len(A)','n','M.shape[0]')}):"
            elif q < .6:
                i, a = g.fresh("i"), g.fresh("a"); s2["ix"].append(i); s2["num"].append(a); head = f"for {i}, {a} in enumerate({g.c('A','B')}):"
            elif q < .7:
                a, b = g.fresh("a"), g.fresh("b"); s2["num"] += [a, b]; head = f"for {a}, {b} in zip({g.vec(sc,0)}, B):"
            elif q < .8:
                i, a = g.fresh("i"), g.fresh("r"); s2["ix"].append(i); s2["vec"].append(a); head = f"for {i}, {a} in enumerate(M):"
            else:
                i = g.fresh("k"); s2["lix"].append(i); head = f"for {i} in range(3):"
            r = [p + head] + g.block(s2, ind+1, depth-1, True, g.r.randint(1, 3))
            if g.r.random() < .12: r += [p + "else:"] + g.block(g.sub(sc), ind+1, depth-1, loop, 1)
            return r
        if loop and k < .985:
            return [p + f"if {g.cond(sc)}:", p + "    " + g.c("break", "break", "continue", f"return {g.num(sc)}")]
        return [p + "pass"]
    def program(g):
        sc = {"num": ["x1", "x2"], "ix": [], "lix": [], "vec": ["C1"], "mat": ["D1"], "list": ["l1"], "flag": ["f1"], "loc": ["u1"]}
        L = ["def h1(a, v):", "    if a > v[0] if False else a > 0:", "        return a * 2", "    return np.sum(v) - a", "", "def h2(v, a):", f"    {g.c('v[:] = v + a', 'v += a', 'v *= a', 'v = v + a')}", "", "def h3(a):", "    if a > 0.3:", "        raise ValueError('big')", "", "def f(A, B, M, V, s, Z):", "    E1 = Z.copy()", "    d1 = {}", "    n = len(A)", "    x1, x2 = 0, s", f"    C1 = {g.c('np.zeros(n)', 'A.copy()', 'np.ones(len(B))', 'A + B')}",
             f"    D1 = {g.c('np.zeros((n, n))', 'M.copy()', 'np.eye(n)', 'M @ M')}", "    l1 = []", "    f1 = False", f"    u1 = {g.c('np.zeros(3)', 'V.copy()')}"]
        top = {k: list(v) for k, v in sc.items()}
        L += g.block(sc, 1, 3, False, g.r.randint(2, 4))
        L.append("    return x1, x2, f1, C1, D1, u1, l1" if g.r.random() < .5 else "    return " + g.c("x1", "x2", "f1", "C1", "D1", "E1", "d1", "u1", "(x1, f1)", "l1", "np.array(l1)"))
        return "\n".join(L) + "\n"

SPECS = "A:real:n B:real:n M:real:n,n V:real:3 s:real: Z:complex:n,n"

def finite(v):
    if isinstance(v, (list, tuple)):
        return all(finite(x) for x in v)
    if isinstance(v, dict):
        return all(finite(x) for x in v.values())
    try:
        return bool(np.all(np.abs(np.asarray(v, dtype=complex)) < 1e6))
    except Exception:
        return True

def compare(text, k, seeds=(1, 2, 3)):
    m = f"fz{k}"
    interp.SNIPPETS[m] = "import numpy as np\n" + text
    scope = {}
    exec("import numpy as np\n" + text, scope)
    for seed in seeds:
        rng = np.random.default_rng(seed)
        h = api.H(m + ".f", "fz")
        dims, sizes, data = {}, {}, {}
        args = [make(h, rng, s, dims, sizes, data) for s in SPECS.split()]
        ev = Eval(h.ip, sizes, data)
        try:
            want = ("end", scope["f"](*[(x.copy() if hasattr(x, "copy") else x) for _, x in args]))
        except Exception as e:
            want = ("exc", type(e).__name__)
        before = [x.copy() if hasattr(x, "copy") else x for _, x in args]
        cc = [x.copy() if hasattr(x, "copy") else x for _, x in args]
        try: scope["f"](*cc)
        except Exception: pass
        mutated = any(not np.array_equal(x, y) for x, y in zip(before, cc))
        try:
            paths = h.run([a for a, _ in args])
        except (Undecided, api.PyExc) as e:
            return f"unread {type(e).__name__} {str(e)[:60]}"
        if mutated and not h.ip.violations:
            return "DIFF mutation missed"
        if mutated:
            return "ok"
        try:
            live = [(f, o) for f, o in paths if all(ev.cond(h.ip.as_cond(c), {}) for c in f)]
            if len(live) != 1:
                return f"DIFF {len(live)} paths of {len(paths)}"
            if live[0][1][0] != want[0]:
                return f"DIFF outcome {live[0][1][0]} {want[0]}" + str(want[1])
            if want[0] == "end":
                got = h.with_facts(live[0][0], lambda: ev.value(h.ip, live[0][1][1]))
                if not finite(want[1]):
                    return "infinite"
                if not same(got, want[1]):
                    return f"DIFF value {got} {want[1]}"
        except (NotEvaluable, Undecided) as e:
            return f"noteval {str(e)[:40]}"
    return "ok"

if __name__ == "__main__":
    a, b = int(sys.argv[1]), int(sys.argv[2])
    from collections import Counter
    C = Counter(); 
    import signal
    class TO(BaseException): pass
    def on(*_): raise TO()
    signal.signal(signal.SIGALRM, on)
    for k in range(a, b):
        t = G(random.Random(k)).program()
        signal.setitimer(signal.ITIMER_REAL, 6)
        try: r = compare(t, k)
        except TO: r = "timeout"
        except Exception as e: r = f"crash {type(e).__name__} {str(e)[:80]}"
        finally: signal.setitimer(signal.ITIMER_REAL, 0)
        interp.SNIPPETS.pop(f"fz{k}", None)
        C[" ".join(r.split()[:6])[:60] if r[:4] != "DIFF" else "DIFF"] += 1
        if r[:4] in ("DIFF", "cras"):
            print(k, r[:200], flush=True)
    print(C.most_common(30))
