"""Self-test of the verifier: mutate the function under contract and re-run its contracts; a mutant whose obligations are all
discharged is a survivor (equivalent to the original under the contract, or a hole in contract or engine).

   python3-vt mutate.py MODULES [SUBSTR] [-v]
"""
import ast
import copy
import multiprocessing as mp
import os
import sys
import tempfile
import shutil

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import interp  # noqa
import api  # noqa


def mutants(fn):
    """Yield (description, mutated copy)."""
    nodes = [n for n in ast.walk(fn)]
    first = fn.body[0]
    doc = first.value if isinstance(first, ast.Expr) and isinstance(first.value, ast.Constant) else None
    defaults = {id(x) for d in fn.args.defaults + fn.args.kw_defaults if d is not None for x in ast.walk(d)}
    annot = {id(x) for a in fn.args.args + [fn] for t in [getattr(a, "annotation", None) or getattr(a, "returns", None)] if t is not None for x in ast.walk(t)}
    for n in nodes:
        if isinstance(n, ast.AnnAssign):
            annot |= {id(x) for x in ast.walk(n.annotation)}
    inraise = {id(x) for n in nodes if isinstance(n, (ast.Raise,)) for x in ast.walk(n)}
    inraise |= {id(x) for n in nodes if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "warn" for x in ast.walk(n)}

    def variant(k, edit):
        new = copy.deepcopy(fn)
        t = list(ast.walk(new))[k]
        r = edit(t)
        return new if r is None else r

    for k, n in enumerate(nodes):
        if n is doc or id(n) in annot or id(n) in inraise or id(n) in defaults:
            continue
        at = f"{getattr(n, 'lineno', 0)}"
        src = lambda: ast.unparse(n)[:70]
        if isinstance(n, ast.BinOp):
            swaps = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Add], ast.Div: [ast.Mult], ast.Pow: [ast.Mult]}.get(type(n.op), [])
            for o in swaps:
                yield f"{at}: {src()} -> {o.__name__}", variant(k, lambda t, o=o: setattr(t, "op", o()))
            if isinstance(n.op, (ast.MatMult, ast.Sub, ast.Div)):
                def sw(t):
                    t.left, t.right = t.right, t.left
                yield f"{at}: {src()} swapped", variant(k, sw)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            def un(t):
                t.op = ast.UAdd() if isinstance(t.op, ast.USub) else t.op
                if isinstance(t.op, ast.Not):
                    t.operand = ast.UnaryOp(ast.Not(), t.operand)
            yield f"{at}: {src()} unary", variant(k, un)
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            alt = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Is: ast.IsNot,
                   ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}.get(type(n.ops[0]))
            if alt:
                yield f"{at}: {src()} -> {alt.__name__}", variant(k, lambda t, a=alt: setattr(t, "ops", [a()]))
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float, complex)) and not isinstance(n.value, bool):
            yield f"{at}: const {n.value} -> +1", variant(k, lambda t: setattr(t, "value", t.value + 1))
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            yield f"{at}: const {n.value} negated", variant(k, lambda t: setattr(t, "value", not t.value))
        elif isinstance(n, ast.Constant) and isinstance(n.value, str) and "," in n.value and "->" in n.value:
            lhs, rhs = n.value.split("->")
            parts = lhs.split(",")
            for q, p in enumerate(parts):
                if len(p) >= 2:
                    pp = list(parts)
                    pp[q] = p[:-2] + p[-1] + p[-2]
                    yield f"{at}: einsum {n.value} -> {','.join(pp)}", variant(k, lambda t, v=",".join(pp) + "->" + rhs: setattr(t, "value", v))
        elif isinstance(n, ast.Call):
            f = ast.unparse(n.func)
            if f.split(".")[-1] in ("conj", "conjugate", "real", "imag", "rint", "around", "abs", "transpose", "copy", "cos", "sin", "sqrt") and len(n.args) == 1:
                def drop(t):
                    t.func = ast.Name("_ident", ast.Load())
                yield f"{at}: {src()} dropped", variant(k, lambda t: replace_call(t))
            if len(n.args) >= 2 and f not in ("range", "np.einsum", "isinstance"):
                def sw2(t):
                    t.args[0], t.args[1] = t.args[1], t.args[0]
                yield f"{at}: {src()} args swapped", variant(k, sw2)
        elif isinstance(n, ast.Attribute) and n.attr == "T":
            yield f"{at}: {src()} transpose dropped", variant(k, lambda t: drop_T(t))
        elif isinstance(n, ast.If):
            def neg(t):
                t.test = ast.UnaryOp(ast.Not(), t.test)
            yield f"{at}: if {ast.unparse(n.test)[:50]} negated", variant(k, neg)
        elif isinstance(n, ast.Break):
            yield f"{at}: break -> pass", replace_stmt(fn, k, ast.Pass())
        elif isinstance(n, ast.Continue):
            yield f"{at}: continue -> pass", replace_stmt(fn, k, ast.Pass())
        elif isinstance(n, (ast.AugAssign,)):
            yield f"{at}: {src()} removed", replace_stmt(fn, k, ast.Pass())
        elif isinstance(n, ast.Assign) and not isinstance(n.value, ast.Constant):
            if isinstance(n.targets[0], ast.Subscript):
                yield f"{at}: {src()} removed", replace_stmt(fn, k, ast.Pass())
        elif isinstance(n, ast.BoolOp):
            def bo(t):
                t.op = ast.And() if isinstance(t.op, ast.Or) else ast.Or()
            yield f"{at}: {src()} and/or", variant(k, bo)
        elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and isinstance(n.slice, ast.Tuple) and len(n.slice.elts) == 2 \
                and not any(isinstance(e, (ast.Slice, ast.Constant)) for e in n.slice.elts):
            def ss(t):
                t.slice.elts.reverse()
            yield f"{at}: {src()} indices swapped", variant(k, ss)


def replace_call(t):
    a = t.args[0]
    t.func = ast.Attribute(ast.Tuple([a], ast.Load()), "__getitem__", ast.Load())
    # (x)[0] spelled without a call
    return setattr_as(t, a)


def setattr_as(t, a):
    """Turn call node t into the expression a in place (via a conditional expression holding a)."""
    t.__class__ = ast.IfExp
    t._fields = ast.IfExp._fields
    t.test, t.body, t.orelse = ast.Constant(True), a, ast.Constant(None)
    return None


def drop_T(t):
    v = t.value
    t.__class__ = ast.IfExp
    t.test, t.body, t.orelse = ast.Constant(True), v, ast.Constant(None)
    return None


def replace_stmt(fn, k, st):
    new = copy.deepcopy(fn)
    target = list(ast.walk(new))[k]
    for p in ast.walk(new):
        for fld in ("body", "orelse", "finalbody"):
            b = getattr(p, fld, None)
            if isinstance(b, list) and target in b:
                b[b.index(target)] = ast.copy_location(st, target)
    return new


def job(arg):
    desc, function, src, items = arg
    d = tempfile.mkdtemp(prefix="mut")
    try:
        shutil.copytree(interp_src, d + "/spgrep")
        mod = function.split(".")[0]
        open(f"{d}/spgrep/{mod}.py", "w").write(src)
        interp.SRC = d + "/spgrep"
        out = []
        for n in items:
            r = api.run_contract(api.REG[n])
            bad = [o for o in r["obs"] if o["status"] != "discharged"]
            if bad:
                return desc, function, "killed", bad[0]["id"].split("::", 1)[1] + " " + bad[0]["detail"][:100]
            out.append(r["contract"])
        return desc, function, "SURVIVED", ",".join(out)
    finally:
        shutil.rmtree(d)


interp_src = interp.SRC


def main():
    import importlib
    import main as M
    args = [a for a in sys.argv[1:] if a[0] != "-"]
    M.load()
    subs = args[0].split(",") if args else [""]
    jobs = []
    for function in sorted({it[1] for it in api.REG}):
        if not any(s in function for s in subs):
            continue
        items = [n for n, it in enumerate(api.REG) if it[1] == function]
        mod, fname = function.split(".")
        text = open(f"{interp.SRC}/{mod}.py").read()
        tree = ast.parse(text)
        fn = next(n for n in tree.body if isinstance(n, ast.FunctionDef) and n.name == fname)
        pos = tree.body.index(fn)
        for desc, new in mutants(fn):
            t2 = copy.copy(tree)
            t2.body = list(tree.body)
            t2.body[pos] = new
            try:
                src = ast.unparse(ast.fix_missing_locations(t2))
                ast.parse(src)
            except Exception as e:
                print("skip", desc, e)
                continue
            jobs.append((desc, function, src, items))
    with mp.get_context("fork").Pool(8, maxtasksperchild=4) as pool:
        tot, surv = {}, []
        for desc, function, st, det in pool.imap_unordered(job, jobs):
            tot.setdefault(function, [0, 0])[st == "SURVIVED"] += 1
            if st == "SURVIVED":
                surv.append((function, desc))
            elif "-v" in sys.argv:
                print("killed", function, desc, "|", det)
    for f, d in sorted(surv):
        print("SURVIVED", f, d)
    for f, (k, s) in sorted(tot.items()):
        print(f"{f}: killed {k} survived {s}")


if __name__ == "__main__":
    main()
