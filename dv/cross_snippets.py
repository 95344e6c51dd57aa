import numpy as np

CASES = {}


def case(spec):
    def deco(f):
        CASES[f.__name__] = spec
        return f
    return deco


def matmul(a, b):
    return a @ b


CASES["matmul"] = "A:complex:n,m B:complex:m,k"


def dot_mv(a, b):
    return np.dot(a, b)


CASES["dot_mv"] = "A:real:n,m B:real:m"


def dot_vv(a, b):
    return np.dot(a, b) + a.dot(b)


CASES["dot_vv"] = "A:real:3 B:real:3"


def vdot_conj(a, b):
    return np.sum(np.conj(a) * b)


CASES["vdot_conj"] = "A:complex:n B:complex:n"


def einsum_1(a, b):
    return np.einsum("ijk,kl->ijl", a, b)


CASES["einsum_1"] = "A:complex:n,m,k B:complex:k,l"


def einsum_2(a, b):
    return np.einsum("ij,ij->", a, np.conj(b))


CASES["einsum_2"] = "A:complex:n,m B:complex:n,m"


def einsum_3(a):
    return np.einsum("kii->k", a)


CASES["einsum_3"] = "A:complex:n,m,m"


def einsum_opt(a, b, c):
    return np.einsum("ij,kjl,ml->kim", a, b, c, optimize="greedy")


CASES["einsum_opt"] = "A:real:n,m B:real:k,m,l C:real:n,l"


def transpose_1(a):
    return np.transpose(a, (2, 0, 1))


CASES["transpose_1"] = "A:real:n,m,k"


def transpose_2(a):
    return a.T @ a


CASES["transpose_2"] = "A:real:n,m"


def transpose_3(a):
    return a.transpose(1, 0, 2).conj()


CASES["transpose_3"] = "A:complex:n,m,k"


def swap(a):
    return np.swapaxes(a, 1, 2)


CASES["swap"] = "A:real:n,m,k"


def broadcast_1(a, b):
    return a[:, None] * b[None, :]


CASES["broadcast_1"] = "A:complex:n B:complex:m"


def broadcast_2(a, b):
    return a[:, None, None] * b


CASES["broadcast_2"] = "A:complex:n B:complex:n,m,k"


def broadcast_3(a, b):
    return a + b


CASES["broadcast_3"] = "A:real:n,m B:real:m"


def sum_axis(a):
    return np.sum(a, axis=1) + a.sum(axis=1)


CASES["sum_axis"] = "A:real:n,m"


def sum_axis_neg(a):
    return np.sum(a, axis=-1)


CASES["sum_axis_neg"] = "A:real:n,m,k"


def sum_keep(a):
    return a / np.sum(a, axis=0, keepdims=True)


CASES["sum_keep"] = "A:real:n,m"


def mean_1(a):
    return np.mean(a, axis=0)


CASES["mean_1"] = "A:real:n,m"


def norm_1(a):
    return np.linalg.norm(a)


CASES["norm_1"] = "A:complex:n"


def norm_axis(a):
    return np.linalg.norm(a, axis=1)


CASES["norm_axis"] = "A:real:n,m"


def trace_1(a):
    return np.trace(a)


CASES["trace_1"] = "A:complex:n,n"


def trace_axes(a):
    return np.trace(a, axis1=1, axis2=2)


CASES["trace_axes"] = "A:complex:n,m,m"


def det3(a):
    return np.linalg.det(a)


CASES["det3"] = "A:real:3,3"


def inv3(a):
    return np.linalg.inv(a)


CASES["inv3"] = "A:real:3,3"


def eye_k(a):
    return np.eye(3) - a


CASES["eye_k"] = "A:real:3,3"


def around(a):
    return np.around(a) - np.rint(2 * a)


CASES["around"] = "A:real:n,m"


def around_int(a):
    return np.around(a).astype(int)


CASES["around_int"] = "A:real:n"


def remainder(a):
    return np.remainder(a, 1)


CASES["remainder"] = "A:real:n"


def mod_1(a):
    return a % 1 + a // 2


CASES["mod_1"] = "A:real:n"


def int_trunc(a):
    return a.astype(int)


CASES["int_trunc"] = "A:real:n"


def clip_1(a):
    return np.clip(a, -1, 1)


CASES["clip_1"] = "A:real:n"


def exp_1(a, t):
    return np.exp(2j * np.pi * np.dot(a, t))


CASES["exp_1"] = "A:real:3 t:real:3"


def exp_2(a):
    return np.exp(-1j * a) * np.exp(a)


CASES["exp_2"] = "A:real:n"


def parts(a):
    return np.real(a) - 2 * np.imag(a) + a.real * a.imag


CASES["parts"] = "A:complex:n"


def angle_1(a):
    return np.angle(a)


CASES["angle_1"] = "A:complex:n"


def abs_1(a):
    return np.abs(a) + np.absolute(a) ** 2


CASES["abs_1"] = "A:complex:n"


def sqrt_1(a):
    return np.sqrt(a * a + 1)


CASES["sqrt_1"] = "A:real:n"


def close_1(a, b):
    return np.allclose(a, b, atol=2.0)


CASES["close_1"] = "A:real:n B:real:n"


def close_2(a, b):
    return np.isclose(a, b, atol=1.0)


CASES["close_2"] = "A:real:n B:real:n"


def close_3(a):
    if np.allclose(a, 0, rtol=0, atol=1.5):
        return 1
    return 2


CASES["close_3"] = "A:complex:n"


def compare(a, b):
    return (a < b) & (a != 1)


CASES["compare"] = "A:real:n B:real:n"


def all_any(a):
    return np.all(a > -1), np.any(a > 1)


CASES["all_any"] = "A:real:n"


def array_equal_1(a, b):
    return np.array_equal(a, b)


CASES["array_equal_1"] = "A:int:2 B:int:2"


def zeros_fill(a):
    n = a.shape[0]
    z = np.zeros((n, n), dtype=np.complex_)
    for i in range(n):
        for j in range(n):
            z[i, j] = a[i] * np.conj(a[j])
    return z


CASES["zeros_fill"] = "A:complex:n"


def zeros_part(a):
    n = a.shape[0]
    z = np.zeros((n, n))
    for i in range(n):
        z[i, i] = a[i]
    return z


CASES["zeros_part"] = "A:real:n"


def cond_fill(a):
    z = np.ones(len(a))
    for i, x in enumerate(a):
        if x > 0:
            z[i] = -1
    return z


CASES["cond_fill"] = "A:real:n"


def accumulate(a):
    s = 0
    for x in a:
        s += x * x
    return s


CASES["accumulate"] = "A:real:n"


def accumulate_arr(a, b):
    s = np.zeros((b.shape[1], b.shape[2]), dtype=np.complex_)
    for x, m in zip(a, b):
        s += x * m
    return s / len(a)


CASES["accumulate_arr"] = "A:complex:n B:complex:n,m,k"


def product_1(a):
    p = 1
    for i in range(3):
        p = p * a[i]
    return p


CASES["product_1"] = "A:real:3"


def slice_set(a):
    z = np.zeros((2, a.shape[0]))
    z[0] = a
    z[1, :] = 2 * a
    return z


CASES["slice_set"] = "A:real:n"


def slice_get(a):
    return a[:, 0], a[1], a[0, 1:]


CASES["slice_get"] = "A:real:3,3"


def neg_index(a):
    return a[-1] - a[0]


CASES["neg_index"] = "A:real:n"


def block_set(a):
    d = a.shape[0]
    z = np.zeros((2 * d, 2 * d), dtype=np.complex_)
    z[:d, :d] = a
    z[d:, d:] = np.conj(a)
    return z


CASES["block_set"] = "A:complex:d,d"


def block_off(a):
    d = a.shape[0]
    z = np.zeros((2 * d, 2 * d), dtype=np.complex_)
    z[:d, d:] = -a
    z[d:, :d] = a.T
    return z


CASES["block_off"] = "A:complex:d,d"


def kron_1(a, b):
    return np.kron(a, b)


CASES["kron_1"] = "A:real:n,n B:real:m,m"


def reshape_1(a):
    return a.reshape(a.shape[0], -1)


CASES["reshape_1"] = "A:real:n,m,k"


def reshape_2(a):
    return np.reshape(a, (-1,))


CASES["reshape_2"] = "A:real:n,m"


def reshape_back(a):
    return a.reshape(-1).reshape(a.shape).T


CASES["reshape_back"] = "A:real:n,m"


def reshape_order(a):
    return a.reshape(-1, a.shape[2])


CASES["reshape_order"] = "A:real:n,m,k"


def stack_1(a, b):
    return np.stack([a, b], axis=0)


CASES["stack_1"] = "A:real:n B:real:n"


def concat_1(a, b):
    return np.concatenate([a, b])


CASES["concat_1"] = "A:real:n B:real:n"


def array_list(a):
    return np.array([x * 2 for x in a])


CASES["array_list"] = "A:real:n,m"


def array_nested(a):
    return np.array([[1, 0], [0, -1]]) @ a


CASES["array_nested"] = "A:complex:2,2"


def list_comp(a, b):
    return [x @ y for x, y in zip(a, b)]


CASES["list_comp"] = "A:real:n,m,m B:real:n,m,m"


def list_append(a):
    out = []
    for i in range(len(a)):
        out.append(a[i] + i * 0)
    return np.array(out)


CASES["list_append"] = "A:real:n"


def tuple_ret(a):
    x, y = a[0], a[1]
    return y, x


CASES["tuple_ret"] = "A:real:2"


def chained(a):
    return 0 < a <= 1


CASES["chained"] = "a:real:"


def boolops(a, b):
    return (a > 0 and b > 0) or not a < b


CASES["boolops"] = "a:real: b:real:"


def ifelse(a):
    return a if a > 0 else -a


CASES["ifelse"] = "a:real:"


def nested_if(a, b):
    if a > b:
        r = 1
    elif a > 0:
        r = 2
    else:
        r = 3
    return r


CASES["nested_if"] = "a:real: b:real:"


def raises(a):
    if a > 0:
        raise ValueError("x")
    return a


CASES["raises"] = "a:real:"


def pow_neg(a):
    return a ** 2 - (1 + a * a) ** -1


CASES["pow_neg"] = "a:real:"


def prec(a, b):
    return -a ** 2 + a * b - b / 2


CASES["prec"] = "a:real: b:real:"


def early(a):
    for i in range(3):
        if a[i] > 0:
            return i
    return -1


CASES["early"] = "A:real:3"


def breaks(a):
    k = -1
    for i in range(3):
        if a[i] > 0:
            k = i
            break
    return k


CASES["breaks"] = "A:real:3"


def continues(a):
    s = 0
    for i in range(3):
        if a[i] > 0:
            continue
        s += a[i]
    return s


CASES["continues"] = "A:real:3"


def while_1(a):
    k = 0
    while k < 3:
        a = a * 2
        k += 1
    return a


CASES["while_1"] = "a:real:"


def aug_view(a):
    b = np.zeros((3, 3))
    c = b[0]
    c += a
    return b


CASES["aug_view"] = "A:real:3"


def alias_list(a):
    x = [1, 2]
    y = x
    y.append(3)
    return x


CASES["alias_list"] = "a:real:"


def copy_1(a):
    b = a.copy()
    b[0] = 0
    return a - b


CASES["copy_1"] = "A:real:n"


def diag_1(a):
    return np.diag(a)


CASES["diag_1"] = "A:real:3"


def outer_1(a, b):
    return np.outer(a, b)


CASES["outer_1"] = "A:real:n B:real:m"


def tensordot_1(a, b):
    return np.tensordot(a, b, axes=(1, 0))


CASES["tensordot_1"] = "A:real:n,m B:real:m,k"


def prod_1(a):
    return np.prod(a)


CASES["prod_1"] = "A:real:3"


def arange_1(a):
    return np.arange(3) * a


CASES["arange_1"] = "A:real:3"


def where_1(a):
    return np.where(a > 0, a, -a)


CASES["where_1"] = "A:real:n"


def max_1(a, b):
    return max(a, b) - min(a, b)


CASES["max_1"] = "a:real: b:real:"


def round_py(a):
    return round(a) + int(a)


CASES["round_py"] = "a:real:"


def fstr(a):
    return len([i for i in range(4) if i % 2 == 0])


CASES["fstr"] = "a:real:"


def divm(a):
    q, r = divmod(7, 3)
    return q * a + r


CASES["divm"] = "a:real:"


def default_arg(a, b=2):
    def inner(x, k=3):
        return x * k
    return inner(a) + inner(a, b) + inner(a, k=5)


CASES["default_arg"] = "a:real:"


def star(a):
    def f(*xs):
        return xs[0] - xs[1]
    return f(*[a, 2 * a])


CASES["star"] = "a:real:"


def lam(a):
    g = lambda x, y: x - y
    return g(a, 1)


CASES["lam"] = "a:real:"


def unpack_loop(a):
    s = 0
    for i, (x, y) in enumerate([(a, 1), (2, a)]):
        s += (i + 1) * (x - y)
    return s


CASES["unpack_loop"] = "a:real:"


def dict_1(a):
    d = {"x": a, "y": 2}
    d["x"] += 1
    return d["x"] * d.get("y", 0) + d.get("z", 7)


CASES["dict_1"] = "a:real:"


def complex_1(a):
    return complex(0, 1) * a + 1j * a.conjugate()


CASES["complex_1"] = "a:complex:"


def conj_method(a):
    return a.conj().T @ a


CASES["conj_method"] = "A:complex:n,m"


def ellipsis_1(a):
    return a[..., 0]


CASES["ellipsis_1"] = "A:real:n,m,2"


def newaxis_1(a):
    return a[np.newaxis, :] - a[:, np.newaxis]


CASES["newaxis_1"] = "A:real:n"


def solve3(a, b):
    return np.linalg.solve(a, b)


CASES["solve3"] = "A:real:3,3 B:real:3,3"


def mpow(a):
    return np.linalg.matrix_power(a, 3)


CASES["mpow"] = "A:real:n,n"


def sorted_1(a):
    return sorted([3, 1, 2]), sum([1, 2, 3]), list(range(1, 7, 2))


CASES["sorted_1"] = "a:real:"


def reversed_1(a):
    return [x for x in reversed([1, 2, 3])] + [4]


CASES["reversed_1"] = "a:real:"


def flipped(a):
    return a[::-1]


CASES["flipped"] = "A:real:3"


def np_round_half(a):
    return np.around(np.array([0.5, 1.5, 2.5, -0.5])) + a * 0


CASES["np_round_half"] = "a:real:"


def zeros_like_1(a):
    z = np.zeros_like(a)
    z[0] = a[1]
    return z


CASES["zeros_like_1"] = "A:real:3"


def cross_1(a, b):
    return np.cross(a, b)


CASES["cross_1"] = "A:real:3 B:real:3"


def sum_gen(a):
    return sum(x * x for x in a)


CASES["sum_gen"] = "A:real:n"


def all_gen(a):
    return all(x > -1 for x in a)


CASES["all_gen"] = "A:real:n"


def any_gen(a):
    return any(x > 1 for x in a)


CASES["any_gen"] = "A:real:n"


def fixed_filter(a):
    return [x for x in [a, -a, 2 * a] if x > 0]


CASES["fixed_filter"] = "a:real:"


def inplace_mult(a):
    b = a * 1
    b *= 2
    b -= 1
    b /= 4
    return b


CASES["inplace_mult"] = "A:real:n"


def assign_2d(a):
    b = np.zeros((2, 2), dtype=np.complex_)
    b[0, 0], b[1, 1] = a, np.conj(a)
    b[0, 1] = -1j
    return b


CASES["assign_2d"] = "a:complex:"


def int_cast(a):
    return a.astype(np.int_) @ a


CASES["int_cast"] = "A:int:n,n"


def nan_free(a):
    return 1 / (1 + a ** 2)


CASES["nan_free"] = "A:real:n"


def loop_dependent(a):
    x = a[0]
    for i in range(1, 3):
        x = x * 2 + a[i]
    return x


CASES["loop_dependent"] = "A:real:3"


def global_two_pi(a):
    two_pi = 2 * np.pi
    return np.cos(two_pi * a) + 1j * np.sin(two_pi * a)


CASES["global_two_pi"] = "a:real:"


def angle_between(a, b):
    return np.arccos(np.clip(np.dot(a, b) / 100, -1, 1)), np.arctan(a[0]), np.arctan2(a[0], b[0])


CASES["angle_between"] = "A:real:3 B:real:3"


def shape_check(a):
    if a.ndim == 3 and a.shape == (a.shape[0], 3, 3):
        return a[0, 1, 2]
    return 0


CASES["shape_check"] = "A:real:n,3,3"


def len_dim(a):
    return len(a) * a.shape[1] + a.size


CASES["len_dim"] = "A:real:n,m"


def list_arg(xs):
    return [2 * x for x in xs]


CASES["list_arg"] = "L:list:n,m"


def list_sum(xs):
    return sum(xs)


CASES["list_sum"] = "L:list:n"


def index_const_list(a):
    return [[1, 2], [3, 4]][1][0] + a


CASES["index_const_list"] = "a:real:"


def bool_index_count(a):
    return np.sum(a > 0)


CASES["bool_index_count"] = "A:real:n"


def ternary_arr(a, b):
    c = a if b > 0 else a.T
    return c


CASES["ternary_arr"] = "A:real:n,n b:real:"


def real_holds(a):
    z = np.zeros(len(a))
    z[:] = np.real(a)
    return z


CASES["real_holds"] = "A:complex:n"


def float_drops(a):
    z = np.zeros(a.shape, dtype=np.float64)
    z[:] = a
    return z


CASES["float_drops"] = "A:complex:n"


def int_drops(a):
    z = np.zeros(len(a), dtype=int)
    z[:] = a
    return z


CASES["int_drops"] = "A:real:n"


def bool_holds(a):
    z = np.zeros(len(a), dtype=np.bool_)
    for i, x in enumerate(a):
        if x > 0:
            z[i] = True
    return z


CASES["bool_holds"] = "A:real:n"


def like_drops(a, b):
    z = np.zeros_like(a, dtype=int)
    z[:] = b
    return z


CASES["like_drops"] = "A:real:n B:real:n"


def array_drops(a):
    return np.array(a, dtype=int), np.array([x for x in a], dtype=np.float64)


CASES["array_drops"] = "A:real:n"


def loop_drops(a):
    z = np.zeros((a.shape[0], 2), dtype=int)
    for i, x in enumerate(a):
        z[i, 0] = x
        z[i, 1] = 2
    return z


CASES["loop_drops"] = "A:real:n"


def round_digits(a):
    return round(a, 1)


CASES["round_digits"] = "a:real:"


def int_of(a):
    return int(a), float(a)


CASES["int_of"] = "a:real:"


def trace_offset(a):
    return np.trace(a, 1)


CASES["trace_offset"] = "A:real:3,3"


def norm_ord(a):
    return np.linalg.norm(a, ord=1)


CASES["norm_ord"] = "A:real:3"


def eye_rect(a):
    return np.eye(2, 3) + a


CASES["eye_rect"] = "A:real:2,3"


def eye_off(a):
    return np.eye(3, k=1) + a


CASES["eye_off"] = "A:real:3,3"


def array_equal_tol(a):
    return np.allclose(a, a + 1e-9), np.allclose(1e3 * a, 1e3 * a + 1e-4), np.isclose(a, a + 1, rtol=10)


CASES["array_equal_tol"] = "A:real:2"


def sum_start(a):
    return sum([1, 2], a)


CASES["sum_start"] = "a:real:"


def enum_start(a):
    return [i * x for i, x in enumerate([a, a], 1)]


CASES["enum_start"] = "a:real:"


def sorted_key(a):
    return sorted([3, 1, 2], key=lambda x: -x), sorted([3, 1, 2], reverse=True)


CASES["sorted_key"] = "a:real:"


def max_key(a):
    return max([3, 1, 2], key=lambda x: -x), min([3, 1, 2])


CASES["max_key"] = "a:real:"


def mod_neg(a):
    return (-7) % 3, (-7) // 3, 7 % -3, a % 2


CASES["mod_neg"] = "a:real:"


def zip_short(a):
    return [x * y for x, y in zip([1, 2, 3], [a, a])]


CASES["zip_short"] = "a:real:"


def slices(a):
    x = [1, 2, 3, 4, 5]
    return x[1:3], x[::2], x[-2:], x[:-1], x[::-1], a


CASES["slices"] = "a:real:"


def closure(a):
    k = 2

    def f(x):
        return x * k
    k = 3
    return f(a)


CASES["closure"] = "a:real:"


def mutable_default(a, xs=None):
    xs = xs or [a]
    xs += [1]
    return xs


CASES["mutable_default"] = "a:real:"


def in_list(a):
    return 2 in [1, 2], 3 not in (1, 2), a


CASES["in_list"] = "a:real:"


def for_else(a):
    for i in range(3):
        if i > 5:
            break
    else:
        return a
    return -a


CASES["for_else"] = "a:real:"


def loop_var_after(a):
    for i in range(3):
        pass
    return i + a


CASES["loop_var_after"] = "a:real:"


def try_1(a):
    try:
        if a > 0:
            raise ValueError("x")
        r = 1
    except ValueError:
        r = 2
    finally:
        pass
    return r


CASES["try_1"] = "a:real:"


def is_none(a):
    x = None
    return a if x is None else 0


CASES["is_none"] = "a:real:"


def matmul_3(a, b):
    return a @ b, np.dot(a, b[0])


CASES["matmul_3"] = "A:real:n,m,m B:real:n,m,m"


def matmul_vec(a, b):
    return a @ b


CASES["matmul_vec"] = "A:real:n,m,k B:real:k"


def dot_3(a, b):
    return np.dot(a, b)


CASES["dot_3"] = "A:real:2,2,2 B:real:2,2,2"


def einsum_implicit(a, b):
    return np.einsum("ij,jk", a, b), np.einsum("ji", a)


CASES["einsum_implicit"] = "A:real:n,m B:real:m,k"


def mult_elementwise(a, b):
    return a * b, a ** 2


CASES["mult_elementwise"] = "A:real:n,n B:real:n,n"


def compare_eq(a):
    return a == a, (a != 0)


CASES["compare_eq"] = "A:real:n"


def inplace_slice(a):
    b = a.copy()
    b[:, 0] *= 2
    b[0] += 1
    return b


CASES["inplace_slice"] = "A:real:n,3"


def view_write(a):
    b = a.copy()
    c = b[:, 0]
    c[0] = 7
    return b


CASES["view_write"] = "A:real:n,3"


def transpose_write(a):
    b = a.copy()
    c = b.T
    c[0, 1] = 7
    return b


CASES["transpose_write"] = "A:real:3,3"


def nested_lists(a):
    x = [[0] * 2 for _ in range(2)]
    x[0][1] = a
    return x


CASES["nested_lists"] = "a:real:"


def shared_rows(a):
    x = [[0] * 2] * 2
    x[0][1] = a
    return x


CASES["shared_rows"] = "a:real:"


def concat_axis(a, b):
    return np.concatenate([a, b], axis=1)


CASES["concat_axis"] = "A:real:2,2 B:real:2,2"


def linalg_axis(a):
    return np.linalg.norm(a, axis=(1, 2), keepdims=True)


CASES["linalg_axis"] = "A:complex:n,m,k"


def hermitian(a):
    return a + np.conj(a).T - a.conj().transpose(1, 0)


CASES["hermitian"] = "A:complex:n,n"


def triple(a, b, c):
    return np.einsum("ijk,k->ij", a, b) @ c


CASES["triple"] = "A:complex:n,m,k b:complex:k c:real:m"


def moveaxis(a):
    return np.moveaxis(a, 0, -1)


CASES["moveaxis"] = "A:real:n,m,k"


def squeeze(a):
    return np.squeeze(a[:1])


CASES["squeeze"] = "A:real:n,m"


def ravel(a):
    return a.ravel() + a.flatten()


CASES["ravel"] = "A:real:n,m"


def argmax(a):
    return np.argmax(a)


CASES["argmax"] = "A:real:3"


def strings(a):
    return "x".join(["a", "b"]), f"{1}", a


CASES["strings"] = "a:real:"


def is_close_complex(a):
    return np.isclose(a, np.conj(a), atol=1.0)


CASES["is_close_complex"] = "A:complex:n"


def power_complex(a):
    return np.exp(2j * np.pi * a) ** 2 * np.exp(-2j * np.pi * a)


CASES["power_complex"] = "a:real:"


def angle_pow(a):
    return a ** (1 / 3)


CASES["angle_pow"] = "a:complex:"


def truth_array(a):
    if a[0]:
        return 1
    return 0


CASES["truth_array"] = "A:int:3"


def truth_list(a):
    return 1 if [] else 2 if [a] else 3


CASES["truth_list"] = "a:real:"


def bool_arith(a):
    return (a > 0) * 2 + (a > 1) - 1


CASES["bool_arith"] = "A:real:n"


def count_nonzero(a):
    return np.count_nonzero(a > 0)


CASES["count_nonzero"] = "A:real:n"


def mask_read(a):
    return a[a > 0]


CASES["mask_read"] = "A:real:3"


def mask_write(a):
    b = a.copy()
    b[b > 0] = -1
    return b


CASES["mask_write"] = "A:real:n"


def fancy_read(a):
    return a[[2, 0]]


CASES["fancy_read"] = "A:real:3"


def fancy_write(a):
    b = np.zeros(3)
    b[[2, 0]] = a
    return b


CASES["fancy_write"] = "A:real:2"


def two_exits(a, b):
    for i in range(len(a)):
        if a[i] > 0:
            return i
        if b[i] > 0:
            return (1, i)
    return 100


CASES["two_exits"] = "A:real:n B:real:n"


def two_breaks(a, b):
    k = -1
    for i in range(len(a)):
        if a[i] > 0.5:
            k = i
            break
        if b[i] > 0.5:
            k = (1, i)
            break
    return k


CASES["two_breaks"] = "A:real:n B:real:n"


def either_break(a, b):
    k = -1
    for i in range(len(a)):
        if a[i] > 0.5 or b[i] > 0.5:
            k = i
            break
    return k


CASES["either_break"] = "A:real:n B:real:n"


def exit_or_fail(a, b):
    for i in range(len(a)):
        if a[i] > 0.5:
            raise ValueError("large")
        if b[i] > 0.5:
            return i
    return -1


CASES["exit_or_fail"] = "A:real:n B:real:n"


def last_write(a):
    k = -1
    for i in range(len(a)):
        if a[i] > 0.5:
            k = i
    return k


CASES["last_write"] = "A:real:n"


def found_else(a):
    for i in range(len(a)):
        if a[i] > 0.5:
            break
    else:
        return -1
    return i


CASES["found_else"] = "A:real:n"


def nested_first(a, b):
    for i in range(len(a)):
        for j in range(len(b)):
            if a[i] + b[j] > 0.5:
                return i, j
    return -1


CASES["nested_first"] = "A:real:n B:real:n"


def nested_break(a, b):
    out = []
    for i in range(len(a)):
        k = -1
        for j in range(len(b)):
            if a[i] > b[j] + 0.5:
                k = j
                break
            if a[i] < b[j] - 0.5:
                k = -2
                break
        out.append(k)
    return np.array(out)


CASES["nested_break"] = "A:real:n B:real:n"


def as_float(a):
    b = np.asarray(a, dtype=float)
    b[0] = 7
    return b


CASES["as_float"] = "A:real:3"


def sum_until(a):
    s = 0
    for i in range(len(a)):
        if a[i] > 0.5:
            break
        s += a[i]
    return s


CASES["sum_until"] = "A:real:n"


def flag_any(a):
    hit = False
    for i in range(len(a)):
        if a[i] > 0.5:
            hit = True
    return hit


CASES["flag_any"] = "A:real:n"


def count_up(a):
    k = 0
    for i in range(len(a)):
        if a[i] > 0.5:
            k += 1
    return k


CASES["count_up"] = "A:real:n"


def skip_then(a, b):
    for i in range(len(a)):
        if a[i] < 0:
            continue
        if b[i] < 0:
            return i
    return -1


CASES["skip_then"] = "A:real:n B:real:n"


def list_filter(a):
    return np.array([i for i in range(len(a)) if a[i] > 0])


CASES["list_filter"] = "A:real:n"


def dict_last(a):
    d = {}
    for i in range(len(a)):
        d[0] = a[i]
    return d


CASES["dict_last"] = "A:real:n"


def running(a):
    b = np.zeros(len(a))
    s = 0
    for i in range(len(a)):
        s = s + a[i]
        b[i] = s
    return b


CASES["running"] = "A:real:n"


def overwritten(a):
    b = np.zeros(3)
    for i in range(len(a)):
        b[0] = a[i]
    return b


CASES["overwritten"] = "A:real:n"


def swapvars(a):
    x, y = 0, 1
    for i in range(len(a)):
        x, y = y, x
    return x


CASES["swapvars"] = "A:real:n"


def nested_sums(m, a):
    return m @ np.abs(m @ np.abs(m @ a)), np.sum(np.abs(m @ np.ones(len(a))))


CASES["nested_sums"] = "M:real:n,n A:real:n"


def carried_flag(a):
    hit = False
    out = np.zeros(len(a))
    for i in range(len(a)):
        if not hit:
            out[i] = a[i]
            hit = True
    return out


CASES["carried_flag"] = "A:real:n"


def collected_until(a):
    out = []
    for i in range(len(a)):
        out.append(a[i])
        if a[i] < 0:
            break
    return out


CASES["collected_until"] = "A:real:n"


def diagonal_view(a):
    d = np.diag(a)
    b = a.copy()
    b += 1
    return d, np.diag(b)


CASES["diagonal_view"] = "M:real:n,n"


def as_own(a):
    b = np.zeros(3)
    c = np.asarray(b, dtype=float)
    c[0] = a
    return b


CASES["as_own"] = "a:real:"


def sum_of_rows(m):
    out = np.zeros_like(m[0])
    for i in range(len(m)):
        out += m[i] * 2
        out -= m[0]
    return out


CASES["sum_of_rows"] = "M:complex:n,n"


def sum_of_outer(a, m):
    out = m.copy()
    for i in range(len(a)):
        if a[i] > 0:
            out += a[i] * m
    return out


CASES["sum_of_outer"] = "A:real:n M:real:n,n"


def sum_at_places(a, m):
    out = np.zeros(m.shape)
    for i in range(len(a)):
        for j in range(len(a)):
            out[i] += a[j] * m[j]
    return out


CASES["sum_at_places"] = "A:real:n M:real:n,n"


def sum_into_one_row(a, m):
    out = m.copy()
    for i in range(len(a)):
        out[0] += a[i]
    return out


CASES["sum_into_one_row"] = "A:real:n M:real:n,n"


def sum_of_rows_rebound(a, m):
    out = np.zeros(len(a))
    first = out
    for i in range(len(a)):
        out = out + a[i] * m[i]
    return out, first


CASES["sum_of_rows_rebound"] = "A:real:n M:real:n,n"


def sum_of_rows_scaled(a, m):
    out = np.zeros(len(a))
    for i in range(len(a)):
        out = out * 2 + m[i]
    return out


CASES["sum_of_rows_scaled"] = "A:real:n M:real:n,n"


def sum_read_inside(a, m):
    out = np.zeros(len(a))
    s = 0.0
    for i in range(len(a)):
        out += m[i]
        s += out[0]
    return s


CASES["sum_read_inside"] = "A:real:n M:real:n,n"


def sum_left_early(a, m):
    out = np.zeros(len(a))
    for i in range(len(a)):
        out += m[i]
        if a[i] < 0:
            break
    return out


CASES["sum_left_early"] = "A:real:n M:real:n,n"


def sum_of_itself(m):
    out = m.copy()
    for i in range(len(m)):
        out += out
    return out


CASES["sum_of_itself"] = "M:real:n,n"


def sum_of_diagonal(a, m):
    out = m.copy()
    for i in range(len(a)):
        for j in range(len(a)):
            out[i, i] += a[j]
    return out


CASES["sum_of_diagonal"] = "A:real:n M:real:n,n"


def sum_while_small(a):
    s, t = 0.0, 0
    for x in a:
        if s < 1:
            t += 1
        s += x
    return t


CASES["sum_while_small"] = "A:real:n"


def far_elements(a):
    return a[3], [x for x in a][2]


CASES["far_elements"] = "A:real:n"


def sums_of_sums(a, m):
    out = np.zeros(m.shape)
    for i in range(len(a)):
        row = np.zeros(len(a))
        for j in range(len(a)):
            row += m[j] * a[i]
        out[i] = row
    return out


CASES["sums_of_sums"] = "A:real:n M:real:n,n"


def concat_columns(a, b):
    return np.concatenate([a, b], axis=-1)


CASES["concat_columns"] = "A:real:n,n B:real:n,n"


def block_matrix(a, b):
    return np.block([[a, b], [-b, a]])


CASES["block_matrix"] = "A:real:n,n B:real:n,n"


def block_family(a, b):
    return np.block([[a, b], [-b, a]])[1:]


CASES["block_family"] = "A:real:3,2,2 B:real:3,2,2"


def stacked_rows(a, b):
    return np.vstack([a, b, a]) @ np.hstack([a, b])


CASES["stacked_rows"] = "A:real:2,2 B:real:2,2"


def block_entries(a, b):
    c = np.block([[a, b], [-b, a]])
    return np.sum(c), np.trace(c)


CASES["block_entries"] = "A:real:n,n B:real:n,n"


def concat_then_write(a, b):
    c = np.concatenate([a, b], axis=1)
    c[0, 3] = 5
    return c, a


CASES["concat_then_write"] = "A:real:2,2 B:real:2,2"


def concat_wrong(a, b):
    return np.concatenate([a, b], axis=1)


CASES["concat_wrong"] = "A:real:2,2 B:real:3,2"


def concat_axis_bounds(a, b):
    return np.concatenate([a, b], axis=2)


CASES["concat_axis_bounds"] = "A:real:2,2 B:real:2,2"


def filled_list(a):
    n = len(a)
    out = [None] * n
    for i in range(n):
        out[i] = a[i] * 2
    return np.array(out)


CASES["filled_list"] = "A:real:n,n"


def filled_branch(a):
    out = [0] * len(a)
    for i, x in enumerate(a):
        if x > 0:
            out[i] = x
        else:
            out[i] = -2 * x
    return np.sum(np.array(out))


CASES["filled_branch"] = "A:real:n"


def filled_some(a):
    out = [0 for _ in a]
    for i, x in enumerate(a):
        if x > 0:
            out[i] = x
    return np.array(out)


CASES["filled_some"] = "A:real:n"


def filled_reads(a):
    out = [1] * len(a)
    for i in range(len(a)):
        out[i] = out[0] + a[i]
    return np.array(out)


CASES["filled_reads"] = "A:real:n"


def filled_buffer(a):
    buf = np.zeros(2)
    out = [None] * len(a)
    for i in range(len(a)):
        buf[0] = a[i]
        out[i] = buf
    return np.array(out)


CASES["filled_buffer"] = "A:real:n"


def filled_then_changed(a):
    out = [None] * len(a)
    for i in range(len(a)):
        b = a[i] + 0
        out[i] = b
        b[0] = 7
    return np.array(out)


CASES["filled_then_changed"] = "A:real:n,n"


def filled_running(a):
    out = [0] * len(a)
    s = 0
    for i in range(len(a)):
        s = s + a[i]
        out[i] = s
    return np.array(out)


CASES["filled_running"] = "A:real:n"


def filled_crossed(a):
    n = len(a)
    out = [0] * n
    for i in range(n):
        out[n - 1 - i] = a[i]
    return np.array(out)


CASES["filled_crossed"] = "A:real:n"


def filled_early(a):
    out = [0] * len(a)
    for i in range(len(a)):
        if a[i] > 0:
            break
        out[i] = a[i]
    return np.array(out)


CASES["filled_early"] = "A:real:n"


def filled_views(a):
    out = [None] * len(a)
    for i in range(len(a)):
        out[i] = a[i]
    a[0, 0] = 9
    return np.array(out)


CASES["filled_views"] = "A:real:n,n"


def filled_self(a):
    out = [x for x in a]
    for i, x in enumerate(out):
        out[i] = x * x
    return np.array(out)


CASES["filled_self"] = "A:real:n"


def appended_views(a):
    out = []
    for i in range(len(a)):
        out.append(a[i])
    a[0, 0] = 9
    return np.array(out)


CASES["appended_views"] = "A:real:n,n"


def comprehended_views(a):
    out = [x for x in a]
    a[0, 0] = 9
    return np.array(out)


CASES["comprehended_views"] = "A:real:n,n"


def views_written(a):
    out = [x for x in a]
    out[0][0] = 9
    return a


CASES["views_written"] = "A:real:n,n"


def dict_views(a):
    d = {i: a[i] for i in range(len(a))}
    a[0, 0] = 9
    return d[0]


CASES["dict_views"] = "A:real:n,n"


def fresh_kept(a):
    b = a * 2
    out = []
    for i in range(len(a)):
        out.append(b[i])
    b[0, 0] = 9
    return np.array(out)


CASES["fresh_kept"] = "A:real:n,n"


def element_written(a):
    out = [x + 0 for x in a]
    out[0][0] = 9
    return np.array(out)


CASES["element_written"] = "A:real:n,n"


def element_written_twice(a):
    out = [x + 0 for x in a]
    b = out[0]
    b[0] = 9
    return out[0]


CASES["element_written_twice"] = "A:real:n,n"


def element_in_two(a):
    p, q = [], []
    for x in a:
        b = x + 0
        p.append(b)
        q.append(b)
    p[0][0] = 9
    return q[0]


CASES["element_in_two"] = "A:real:n,n"


def element_loop_written(a):
    out = [x + 0 for x in a]
    for x in out:
        x[0] = 9
    return np.array(out)


CASES["element_loop_written"] = "A:real:n,n"


def element_zip_written(a):
    out = [x + 0 for x in a]
    for x, y in zip(out, a):
        x[0] = y[1]
    return np.array(out)


CASES["element_zip_written"] = "A:real:n,2"


def element_extended(a):
    out = [x + 0 for x in a]
    more = list(out)
    for x in more:
        x += 1
    return np.array(out)


CASES["element_extended"] = "A:real:n,n"


def pair_written(a):
    out = [(x + 0, 2) for x in a]
    out[0][0][0] = 9
    return np.array([p for p, q in out])


CASES["pair_written"] = "A:real:n,n"


def nested_list_written(a):
    out = [[x + 0] for x in a]
    out[0].append(a[0])
    return len(out[0])


CASES["nested_list_written"] = "A:real:n,n"


def arg_element_written(a):
    out = [x for x in a]
    for x in out:
        x[0] = 9
    return a


CASES["arg_element_written"] = "A:real:n,n"


def own_element(a):
    out = [x for x in a]
    for i in range(len(out)):
        out[i] = out[i] * 2 + 1
    return np.array(out)


CASES["own_element"] = "A:real:n"


def own_and_first(a):
    out = [x for x in a]
    for i in range(len(out)):
        out[i] = out[i] + out[0]
    return np.array(out)


CASES["own_and_first"] = "A:real:n"


def own_then_read(a):
    out = [x for x in a]
    s = 0
    for i in range(len(out)):
        out[i] = out[i] + 1
        s += out[i]
    return s


CASES["own_then_read"] = "A:real:n"


def own_nested(a):
    out = [x for x in a]
    for i in range(len(out)):
        for j in range(len(out)):
            out[j] = out[j] + a[i]
    return np.array(out)


CASES["own_nested"] = "A:real:n"


def selected_elements(a, b):
    k = [i for i in range(len(a)) if a[i] > 0]
    return np.array([b[i] for i in k])


CASES["selected_elements"] = "A:real:n B:real:n"


def selected_positions(a, b):
    k = [i for i in range(len(a)) if a[i] > 0]
    s = 0
    for j in range(len(k)):
        s += b[j]
    return s


CASES["selected_positions"] = "A:real:n B:real:n"


def selected_enumerated(a, b):
    k = [i for i in range(len(a)) if a[i] > 0]
    s = 0
    for j, i in enumerate(k):
        s += b[i] * a[j]
    return s


CASES["selected_enumerated"] = "A:real:n B:real:n"


def selected_indexed(a, b):
    k = [i for i in range(len(a)) if a[i] > 0]
    c = b[np.array(k)]
    s = 0
    for j in range(len(k)):
        s += c[j] * b[k[j]]
    return s


CASES["selected_indexed"] = "A:real:n B:real:n"


def selected_wrong_sort(a, b):
    k = [i for i in range(len(a)) if a[i] > 0]
    c = [b[i] for i in k]
    s = 0
    for i in k:
        if i < len(c):
            s += c[i]
    return s


CASES["selected_wrong_sort"] = "A:real:n B:real:n"


def selected_lookup(a, b):
    k = [i for i in range(len(a)) if a[i] > 0]
    at = {i: j for j, i in enumerate(k)}
    c = [b[i] for i in k]
    return np.array([c[at[i]] for i in k])


CASES["selected_lookup"] = "A:real:n B:real:n"


def selected_twice(a, b):
    k = [i for i in range(len(a)) if a[i] > 0]
    m = [j for j in range(len(k)) if b[k[j]] > 0]
    return np.array([b[j] for j in m])


CASES["selected_twice"] = "A:real:n B:real:n"


def selected_twice_well(a, b):
    k = [i for i in range(len(a)) if a[i] > 0]
    m = [i for i in k if b[i] > 0]
    return np.array([b[i] for i in m])


CASES["selected_twice_well"] = "A:real:n B:real:n"


def selected_mask(a, b):
    c = b[a > 0]
    s = 0
    for j, x in enumerate(c):
        s += x * b[j]
    return s


CASES["selected_mask"] = "A:real:n B:real:n"


def selected_nonzero(a, b):
    k = np.nonzero(a > 0)[0]
    s = 0
    for j in range(len(k)):
        s += b[k[j]] + a[j]
    return s


CASES["selected_nonzero"] = "A:real:n B:real:n"


def selected_where(a, b):
    k = np.where(a > 0)[0]
    return b[k], len(k)


CASES["selected_where"] = "A:real:n B:real:n"


def selected_swap(a, b):
    k = [i for i in range(len(a)) if a[i] > 0]
    same = [j for j, i in enumerate(k) if i == j]
    return len(same)


CASES["selected_swap"] = "A:real:n B:real:n"
