"""Scenarios for the linear, pooling and reducing layers of the circuit."""
from sc_arith import *
import sc_layer

LIN = []
HINTS = sc_layer.HINTS
def _variant(kind, ok=lambda x: True):
    def h(Ip, st, a, i):
        v = D(Ip, st, a[0], 8)
        if v.op != "adt":
            raise Giveup("variant of a parameter")
        return [(st, Some(v.a[3][0]) if v.a[2] == kind and ok(v.a[3][0]) else NONE)]
    return h


for _n, _k in (("as_i64", "Integer"), ("as_f64", "F64"), ("as_bool", "Boolean"), ("as_array", "Array")):
    RVM["rmpv::Value::" + _n] = _variant(_k)
RVM["std::prelude::v1::Some"] = lambda Ip, st, a, i: [(st, Some(a[0]))]


def naturals(hi):
    """values of the inputs that are not negative"""
    def g(xs):
        at = sorted({a for x in xs for a in FA.atoms(x)}, key=lambda a: str(a.a[0]))
        def it(rnd):
            for k in range(14):
                edge = [0, 1, 2, 3, 4, 5, 6, 7, hi - 2, hi - 1]
                yield {a: edge[(k + 3 * j) % len(edge)] if k < 10 else rnd.randrange(0, hi) for j, a in enumerate(at)}
        return it
    return g


def average_hint(xs, n):
    """the mean of the values, rounded to the nearest, halves up"""
    s = [x - circ.PRIME if 2 * x > circ.PRIME else x for x in xs]
    return [(2 * sum(s) + len(s)) // (2 * len(s))]


HINTS["jstprove.averagepool_hint"] = average_hint
HINTS["jstprove.global_averagepool_hint"] = average_hint


def total(xs):
    r = fe(0)
    for x in xs:
        r = fadd(r, x)
    return r


def whole(to, ps, kappa, n, relu, rescale):
    """outputs and limits of a rescaled array of sums"""
    q = [scaled(p, kappa, n, relu, rescale) for p in ps]
    return {"y": (list(to), [a for a, _ in q])}, set().union(*[b for _, b in q])


# ------------------------------------------------------------------------------------------------ matrix products
def product(a, b):
    """rows of the product of two matrices of values, as a flat list"""
    (r, k), (k2, c) = a[0], b[0]
    return [total(fmul(a[1][i * k + j], b[1][j * c + m]) for j in range(k)) for i in range(r) for m in range(c)]


def turned(a):
    (r, c), xs = a
    return [c, r], [xs[i * c + j] for j in range(c) for i in range(r)]


def gemm(xs, ws, bs, ta=0, tb=0, how="weights", relu=False, rescale=True, reps=1, attrs=None, ok=True, kappa=SCALE, n=BITS, out=True):
    """the layer Y = A B + C with A an input; B and C weights, inputs described as weights, or values"""
    wv = [[3, -2, 1, 4, -1, 2, 5, -3, 0, 6, -4, 7][j % 12] for j in range(max(1, __import__("math").prod(ws)))]
    bv = [[9, -7, 4, 2, -5, 1][j % 6] for j in range(__import__("math").prod(bs))]

    def parts(v):
        a, w, b = v["x"], v["w"], v["b"]
        a = ([1] + list(a[0]), a[1]) if len(a[0]) == 1 else a
        w = turned(w) if tb else w
        a = turned(a) if ta else a
        if a[0][1] != w[0][0]:
            return None
        to = [a[0][0], w[0][1]]
        if together(b[0], to) != to or len(b[0]) > 2:
            return None
        return to, [fadd(p, c) for p, c in zip(product(a, w), spread(b, to))]

    def run(v):
        p = parts(v) if ok else None
        return (None, set()) if p is None else whole(p[0], p[1], kappa, n, relu, rescale)
    given, kw = {"x": xs}, {}
    if how == "weights":
        kw["weights"] = {"w": (ws, wv), "b": (bs, bv)}
    else:
        given.update(w=ws, b=bs)
        kw["wai"] = how == "described"
    at = {"inputs": ["x", "w", "b"], **(attrs or {})}
    if ta:
        at["transA"] = ta
    if tb:
        at["transB"] = tb
    xx = [1] + list(xs) if len(xs) == 1 else list(xs)
    yy = [xx[1] if ta else xx[0], ws[0] if tb else ws[1]]
    return scenario("Gemm", given, lambda v: run(v)[0], at, shapes={"y": yy}, lims=lambda v: run(v)[1], gen=within(-6, 7), n_bits=n, scale=kappa, is_rescale=rescale, pattern="GemmRelu" if relu else "None", reps=reps, **kw)


for _x, _w, _b in (((1, 3), (3, 2), (2,)), ((2, 2), (2, 3), (3,)), ((2, 3), (3, 2), (1, 2)), ((2, 2), (2, 2), (2, 2)), ((2, 2), (2, 3), ()), ((2, 2), (2, 3), (1,)), ((1, 2), (2, 1), (1,)), ((2, 2), (2, 3), (2, 1)), ((2, 2), (2, 2), (2, 1)),
                   ((2, 2), (2, 2), (1, 1)), ((3, 1), (1, 2), (2,)), ((3,), (3, 2), (2,)), ((2, 2), (2, 3), (2,)), ((2, 2), (2, 3), (3, 1)), ((2, 2), (3, 2), (2,))):
    for _h in ("weights", "described"):
        LIN.append((f"Gemm of {list(_x)}, {list(_w)} and {list(_b)}, {_h}", gemm(_x, _w, _b, how=_h)))
for _ta, _tb in ((0, 1), (1, 0), (1, 1)):
    for _h in ("weights", "described"):
        LIN.append((f"Gemm with transA {_ta} and transB {_tb}, {_h}", gemm((3, 2) if _ta else (2, 3), (2, 3) if _tb else (3, 2), (2,), _ta, _tb, _h)))
LIN.append(("Gemm with transA of a square", gemm((2, 2), (2, 2), (2,), 1, 0, "described")))
LIN.append(("Gemm with transB of a square", gemm((2, 2), (2, 2), (2,), 0, 1, "described")))
for _re, _rl in ((True, True), (False, False), (False, True)):
    LIN.append((f"Gemm{' rescaled' if _re else ''}{' and fused' if _rl else ''}", gemm((2, 2), (2, 2), (2,), rescale=_re, relu=_rl)))
for _k, _n in ((18, 64), (5, 32), (18, 32)):
    LIN.append((f"Gemm with scale 2^{_k} and {_n} bits", gemm((1, 2), (2, 2), (2,), n=_n, kappa=_k)))
    LIN.append((f"Gemm with scale 2^{_k} and {_n} bits, fused", gemm((1, 2), (2, 2), (2,), n=_n, kappa=_k, relu=True)))
for _a, _ok in (({"alpha": 1.0}, True), ({"alpha": 0.5}, False), ({"beta": 2.0}, False), ({"beta": 0.0}, False), ({"transA": 2}, False), ({"transB": 2}, False)):
    LIN.append((f"Gemm with {_a}", gemm((2, 2), (2, 2), (2,), attrs=_a, ok=_ok)))
LIN.append(("Gemm without checks of the product", gemm((2, 2), (2, 2), (2,), reps=0, ok=False)))


def matmul(xs, ws, how="weights", rescale=True, reps=1, kappa=SCALE, n=BITS, ok=True):
    import math
    wv = [[3, -2, 1, 4, -1, 2, 5, -3, 0, 6, -4, 7][j % 12] for j in range(math.prod(ws))]

    def run(v):
        (sa, a), (sb, b) = v["x"], v["w"]
        ba, bb = list(sa[:-2]), list(sb[:-2])
        if not ok or len(sa) < 2 or len(sb) < 2 or sa[-1] != sb[-2] or (ba and bb and ba != bb):
            return None, set()
        to = bb or ba
        na, nb = sa[-1] * sa[-2], sb[-1] * sb[-2]
        out = []
        for k in range(math.prod(to)):
            i, j = (k if ba else 0), (k if bb else 0)
            out += product((list(sa[-2:]), a[i * na:(i + 1) * na]), (list(sb[-2:]), b[j * nb:(j + 1) * nb]))
        return whole(to + [sa[-2], sb[-1]], out, kappa, n, False, rescale)
    given, kw = {"x": xs}, {}
    if how == "weights":
        kw["weights"] = {"w": (ws, wv)}
    else:
        given["w"] = ws
        kw["wai"] = how == "described"
    return scenario("MatMul", given, lambda v: run(v)[0], {"inputs": ["x", "w"]}, lims=lambda v: run(v)[1], gen=within(-6, 7), n_bits=n, scale=kappa, is_rescale=rescale, reps=reps, **kw)


for _x, _w in (((2, 3), (3, 2)), ((1, 3), (3, 1)), ((2, 1), (1, 3)), ((2, 2, 2), (2, 2, 2)), ((2, 1, 2), (2, 2)), ((1, 2), (2, 2, 2)), ((1, 2, 1, 2), (1, 2, 2, 1)), ((1, 1, 2), (2, 2)), ((2, 2), (1, 2, 2)), ((2, 2), (3, 2)),
               ((2, 3, 1, 2), (3, 2, 2, 1)), ((1, 2, 2, 2), (2, 1, 2, 2)), ((3, 1, 2), (2, 2, 1)), ((2,), (2, 2)), ((2, 2), (2,)), ((2, 1, 2), (1, 3, 1))):
    for _h in ("weights", "described", "values"):
        LIN.append((f"MatMul of {list(_x)} and {list(_w)}, {_h}", matmul(_x, _w, _h)))
LIN.append(("MatMul that is not rescaled", matmul((2, 2), (2, 2), rescale=False)))
LIN.append(("MatMul without random checks", matmul((2, 2), (2, 2), "values", reps=0)))
for _k, _n in ((18, 64), (5, 32)):
    LIN.append((f"MatMul with scale 2^{_k} and {_n} bits", matmul((1, 2), (2, 2), "values", n=_n, kappa=_k)))


# ------------------------------------------------------------------------------------------------ convolution
def windows(shape, kernel, strides, pads, dil=(1, 1)):
    """[(place in the output, [(place in the window, place in the image)])] of a plane, and its shape"""
    (h, w), (kh, kw), (sh, sw), (pt, pl, pb, pr) = shape, kernel, strides, pads
    eh, ew = (kh - 1) * dil[0] + 1, (kw - 1) * dil[1] + 1
    if h + pt + pb < eh or w + pl + pr < ew:
        return None
    oh, ow = (h + pt + pb - eh) // sh + 1, (w + pl + pr - ew) // sw + 1
    out = []
    for i in range(oh):
        for j in range(ow):
            out.append([((a, b), (i * sh - pt + a * dil[0], j * sw - pl + b * dil[1])) for a in range(kh) for b in range(kw)
                        if 0 <= i * sh - pt + a * dil[0] < h and 0 <= j * sw - pl + b * dil[1] < w])
    return (oh, ow), out


def conv(shape, ws, strides=(1, 1), pads=(0, 0, 0, 0), bias=True, how="weights", relu=False, rescale=True, kappa=SCALE, n=BITS, attrs=None, ok=True, bn=None):
    import math
    N, Cn, H, W = shape
    F, _, kh, kw = ws
    wv = [[3, -2, 1, 4, -1, 2, 5, -3, 0, 6, -4, 7][j % 12] for j in range(math.prod(ws))]
    bs = (bn if bn is not None else F,)
    bv = [[9, -7, 4, 2, -5, 1][j % 6] for j in range(bs[0])]

    def run(v):
        win = windows((H, W), (kh, kw), strides, pads)
        if not ok or win is None:
            return None, set()
        x, w = v["x"][1], v["w"][1]
        out = []
        for b in range(N):
            for f in range(F):
                for ps in win[1]:
                    p = total(fmul(x[((b * Cn + c) * H + i) * W + j], w[((f * Cn + c) * kh + k) * kw + m]) for c in range(Cn) for (k, m), (i, j) in ps)
                    out.append(fadd(p, v["b"][1][f]) if bias else p)
        return whole([N, F, *win[0]], out, kappa, n, relu, rescale)
    given, kw_ = {"x": shape}, {}
    if how == "weights":
        kw_["weights"] = {"w": (ws, wv), **({"b": (bs, bv)} if bias else {})}
    else:
        given.update(w=ws, **({"b": bs} if bias else {}))
        kw_["wai"] = True
    at = {"inputs": ["x", "w"] + (["b"] if bias else []), "kernel_shape": [kh, kw], "strides": list(strides), "dilations": [1, 1], "pads": list(pads), "group": 1, **(attrs or {})}
    return scenario("Conv", given, lambda v: run(v)[0], at, lims=lambda v: run(v)[1], gen=within(-6, 7), n_bits=n, scale=kappa, is_rescale=rescale, pattern="ConvRelu" if relu else "None", **kw_)


for _s, _w, _st, _p in (((1, 1, 3, 3), (1, 1, 2, 2), (1, 1), (0, 0, 0, 0)), ((1, 1, 3, 3), (1, 1, 3, 3), (1, 1), (1, 1, 1, 1)), ((1, 2, 2, 3), (2, 2, 1, 2), (1, 1), (0, 0, 0, 0)), ((1, 1, 4, 4), (1, 1, 2, 2), (2, 2), (0, 0, 0, 0)),
                        ((1, 1, 3, 4), (1, 1, 2, 2), (1, 2), (0, 0, 0, 0)), ((1, 1, 4, 3), (1, 1, 2, 2), (2, 1), (0, 0, 0, 0)), ((1, 1, 3, 3), (1, 1, 2, 2), (2, 2), (1, 0, 0, 1)), ((1, 1, 3, 3), (1, 1, 2, 3), (1, 1), (0, 1, 1, 0)),
                        ((1, 1, 2, 2), (1, 1, 3, 2), (1, 1), (1, 0, 0, 1)), ((1, 1, 3, 3), (2, 1, 1, 1), (1, 1), (0, 0, 0, 0)), ((2, 1, 2, 2), (1, 1, 2, 2), (1, 1), (0, 0, 0, 0)), ((1, 1, 5, 2), (1, 1, 3, 1), (2, 1), (1, 0, 1, 0)),
                        ((1, 1, 2, 5), (1, 1, 1, 3), (1, 2), (0, 1, 0, 1)), ((1, 1, 4, 4), (1, 1, 3, 3), (2, 2), (1, 1, 0, 0)), ((1, 1, 4, 4), (1, 1, 3, 3), (3, 3), (1, 1, 1, 1)), ((1, 2, 2, 2), (1, 2, 2, 2), (1, 1), (0, 0, 1, 1))):
    LIN.append((f"Conv of {list(_s)} by {list(_w)} with strides {list(_st)} and pads {list(_p)}", conv(_s, _w, _st, _p)))
    LIN.append((f"Conv of {list(_s)} by {list(_w)} with strides {list(_st)} and pads {list(_p)}, without bias, weights as inputs", conv(_s, _w, _st, _p, bias=False, how="inputs")))
for _h in ("weights", "inputs"):
    for _re, _rl in ((True, True), (False, False), (False, True)):
        LIN.append((f"Conv{' rescaled' if _re else ''}{' and fused' if _rl else ''}, {_h}", conv((1, 1, 2, 3), (2, 1, 2, 2), how=_h, rescale=_re, relu=_rl)))
for _k, _n in ((18, 64), (5, 32)):
    LIN.append((f"Conv with scale 2^{_k} and {_n} bits", conv((1, 1, 2, 2), (1, 1, 2, 2), n=_n, kappa=_k)))
    LIN.append((f"Conv with scale 2^{_k} and {_n} bits, fused", conv((1, 1, 2, 2), (1, 1, 2, 2), n=_n, kappa=_k, relu=True)))
for _a in ({"group": 2}, {"dilations": [2, 2]}, {"dilations": [1, 2]}, {"dilations": [2, 1]}, {"strides": [0, 1]}, {"pads": [0, 0]}, {"group": 0}):
    LIN.append((f"Conv with {_a}", conv((1, 2, 4, 4), (2, 1 if _a.get("group") == 2 else 2, 2, 2), attrs=_a, ok=False)))
LIN.append(("Conv with a bias of another length", conv((1, 1, 2, 2), (2, 1, 1, 1), bn=3, ok=False)))


# ------------------------------------------------------------------------------------------------ pooling
def peak(xs, s):
    """greatest of the values and the limits of the circuit for it"""
    if not xs:
        return fe(0), set()
    if len(xs) == 1:
        return xs[0], set()
    B = 2 << s
    if len(xs) == 2:
        return maxof(xs), absl(fsub(xs[0], xs[1]), B)
    m = maxof(xs)
    return m, {("in", fsub(m, x), B) for x in xs if const_of(fsub(m, x)) is None}


def mean(xs, n):
    """mean of values that are not negative, to the nearest, halves up"""
    if len(xs) == 1:
        return xs[0], {("in", xs[0], 1 << n)}
    k = len(xs)
    return fdiv(fadd(total(xs), fe(k // 2)), k), {("in", x, 1 << n) for x in xs}


def pool(op, shape, kernel, strides=None, pads=None, dil=None, n=BITS, ok=True, attrs=None):
    N, Cn, H, W = shape
    def run(v):
        win = windows((H, W), kernel, strides or (1, 1), pads or (0, 0, 0, 0), dil or (1, 1))
        if not ok or win is None:
            return None, set()
        out, lim = [], set()
        for b in range(N):
            for c in range(Cn):
                for ps in win[1]:
                    xs = [v["x"][1][((b * Cn + c) * H + i) * W + j] for _, (i, j) in ps]
                    if op == "AveragePool" and not xs:
                        y, l = fe(0), set()
                    else:
                        y, l = peak(xs, n - 1) if op == "MaxPool" else mean(xs, n)
                    out.append(y)
                    lim |= l
        return {"y": ([N, Cn, *win[0]], out)}, lim
    at = {"kernel_shape": list(kernel)}
    for k, x in (("strides", strides), ("pads", pads), ("dilations", dil)):
        if x is not None:
            at[k] = list(x)
    at.update(attrs or {})
    win = windows((H, W), kernel, strides or (1, 1), pads or (0, 0, 0, 0), dil or (1, 1))
    return scenario(op, {"x": shape}, lambda v: run(v)[0], at, shapes={"y": [N, Cn, *(win[0] if win else (1, 1))]}, n_bits=n, lims=lambda v: run(v)[1], gen=within(-60, 61) if op == "MaxPool" else naturals(256))


POOLS = (((1, 1, 2, 2), (2, 2), None, None), ((1, 1, 2, 3), (1, 2), None, None), ((1, 1, 3, 2), (2, 1), (1, 1), None), ((1, 2, 2, 2), (2, 2), (2, 2), None), ((2, 1, 1, 2), (1, 2), None, None), ((1, 1, 3, 3), (2, 2), (2, 2), None),
         ((1, 1, 4, 2), (2, 2), (2, 1), None), ((1, 1, 2, 4), (2, 2), (1, 2), (0, 0, 0, 0)), ((1, 1, 2, 2), (2, 2), (1, 1), (1, 0, 0, 0)), ((1, 1, 2, 2), (2, 2), (1, 1), (0, 1, 0, 0)), ((1, 1, 2, 2), (2, 2), (1, 1), (0, 0, 1, 0)),
         ((1, 1, 2, 2), (2, 2), (1, 1), (0, 0, 0, 1)), ((1, 1, 2, 2), (2, 2), (2, 2), (1, 1, 1, 1)), ((1, 1, 2, 3), (1, 1), None, None), ((1, 1, 1, 3), (1, 3), None, None), ((1, 1, 2, 2), (3, 2), None, None), ((1, 1, 3, 1), (3, 1), (1, 1), (1, 0, 1, 0)))
for _op in ("MaxPool", "AveragePool"):
    for _s, _k, _st, _p in POOLS:
        LIN.append((f"{_op} of {list(_s)} over {list(_k)} with strides {_st} and pads {_p}", pool(_op, _s, _k, _st, _p)))
    for _n in (16, 32, 64):
        LIN.append((f"{_op} with {_n} bits", pool(_op, (1, 1, 1, 3), (1, 2), n=_n)))
for _d in ((2, 1), (1, 2), (2, 2)):
    LIN.append((f"MaxPool with dilations {list(_d)}", pool("MaxPool", (1, 1, 3, 3), (2, 2) if _d == (2, 2) else (2, 1) if _d[0] == 2 else (1, 2), None, None, _d)))
for _s, _k, _d, _t in (((1, 1, 1, 6), (1, 3), (1, 2), (1, 1)), ((1, 1, 5, 1), (3, 1), (2, 1), (1, 1)), ((1, 1, 3, 5), (2, 3), (1, 2), (2, 1)), ((1, 1, 1, 5), (1, 2), (1, 3), None)):
    LIN.append((f"MaxPool over {list(_k)} with dilations {list(_d)} and strides {_t}", pool("MaxPool", _s, _k, _t, None, _d)))
LIN.append(("MaxPool with dilations and pads", pool("MaxPool", (1, 1, 2, 3), (1, 2), (1, 1), (0, 1, 0, 1), (1, 2))))
LIN.append(("MaxPool with dilations that reach too far", pool("MaxPool", (1, 1, 2, 3), (2, 1), None, None, (2, 1))))
for _a in ({"ceil_mode": 1}, {"count_include_pad": 1}, {"auto_pad": "SAME_UPPER"}, {"kernel_shape": [2]}, {"kernel_shape": [0, 2]}, {"strides": [1]}, {"strides": [0, 1]}, {"pads": [0, 0]}, {"pads": [0, 0, -1, 0]}):
    LIN.append((f"AveragePool with {_a}", pool("AveragePool", (1, 1, 3, 3), (2, 2), attrs=_a, ok=False)))
for _a in ({"ceil_mode": 0}, {"count_include_pad": 0}, {"auto_pad": "NOTSET"}):
    LIN.append((f"AveragePool with {_a}", pool("AveragePool", (1, 1, 2, 2), (2, 2), attrs=_a)))


def gap(shape, n=BITS):
    import math
    k = math.prod(shape[2:])
    def run(v):
        r = [mean(v["x"][1][i * k:(i + 1) * k], n) for i in range(shape[0] * shape[1])]
        to = [shape[0], shape[1]] + [1] * (len(shape) - 2)
        return {"y": (to, [a for a, _ in r])}, set().union(*[b for _, b in r])
    return scenario("GlobalAveragePool", {"x": shape}, lambda v: run(v)[0] if len(shape) > 2 else None, {}, shapes={"y": list(shape[:2]) + [1] * (len(shape) - 2)}, n_bits=n, lims=(lambda v: run(v)[1]) if len(shape) > 2 else None, gen=naturals(256))


for _s in ((1, 1, 2, 2), (1, 2, 1, 3), (2, 1, 2), (1, 1, 1, 1), (1, 2, 2, 1, 1), (2, 2, 1, 2), (1, 1, 5), (1, 1, 1, 7), (2, 3)):
    LIN.append((f"GlobalAveragePool of {list(_s)}", gap(_s)))
LIN.append(("GlobalAveragePool with 64 bits", gap((1, 1, 3), 64)))


# ------------------------------------------------------------------------------------------------ reductions
def reduce(op, shape, axes, keep, how, n=BITS, attrs=None, noop=None):
    """axes: None or a list, given by attribute or by input"""
    r = len(shape)
    q = sorted({a + r if a < 0 else a for a in axes}) if axes is not None else []
    ok = all(0 <= a < r for a in q)
    if not q and noop != 1:
        q = list(range(r))
    to = ([1 if i in q else d for i, d in enumerate(shape)] if keep != 0 else [d for i, d in enumerate(shape) if i not in q])

    def run(v):
        groups = {}
        for ix, x in zip(indices(shape), v["x"][1]):
            groups.setdefault(tuple(i for k, i in enumerate(ix) if k not in q), []).append(x)
        out, lim = [], set()
        for k in sorted(groups):
            xs = groups[k]
            if op == "ReduceSum":
                y, l = total(xs), set()
            elif op == "ReduceMax":
                y, l = peak(xs, n - 1)
            else:
                m, S = len(xs), 1 << n - 1
                P = fadd(total(xs), fe(m // 2 + m * S))
                if m == 1:
                    y, l = xs[0], {("in", fadd(xs[0], fe(S)), 2 * S)}
                else:
                    y, l = fsub(fdiv(P, m), fe(S)), {("in", P, m * 2 * S)}
            out.append(y)
            lim |= l
        return {"y": (to, out)}, lim
    at, kw = dict(attrs or {}), {}
    if keep is not None:
        at["keepdims"] = keep
    if noop is not None:
        at["noop_with_empty_axes"] = noop
    if axes is not None:
        if how == "input":
            kw["weights"] = {"ax": ((len(axes),), list(axes))}
            at["inputs"] = ["x", "ax"]
        else:
            at["axes"] = list(axes)
    return scenario(op, {"x": shape}, lambda v: run(v)[0] if ok else None, at, shapes={"y": to}, n_bits=n, lims=(lambda v: run(v)[1]) if ok else None, gen=within(-60, 61), **kw)


for _op in ("ReduceSum", "ReduceMean", "ReduceMax"):
    for _s, _a in (((2, 3), (0,)), ((2, 3), (1,)), ((2, 3), (-1,)), ((2, 3), (0, 1)), ((2, 2), None), ((2, 2, 2), (1,)), ((2, 1, 2), (0, 2)), ((2, 2, 2), (-1, 0)), ((3,), (0,)), ((2, 1, 2), (1,)), ((2, 3), (2,)), ((2, 3), (-3,)), ((2, 3), (1, 1)), ((2, 3), (1, -1)), ((2, 2), ())):
        for _kd in (None, 0, 1) if _s == (2, 3) else (None, 0):
            for _h in ("attribute", "input"):
                if _a is None and _h == "input":
                    continue
                LIN.append((f"{_op} of {list(_s)} over {_a} by {_h}, keepdims {_kd}", reduce(_op, _s, _a, _kd, _h)))
    if _op != "ReduceSum":
        for _n in (16, 32, 64):
            LIN.append((f"{_op} with {_n} bits", reduce(_op, (1, 3), (1,), 0, "attribute", _n)))
for _a in (None, ()):
    for _k in (0, 1):
        for _op in ("ReduceSum", "ReduceMean", "ReduceMax"):
            LIN.append((f"{_op} over {_a} with noop_with_empty_axes {_k}", reduce(_op, (2, 2), _a, None, "attribute", noop=_k)))
            if _a is not None:
                LIN.append((f"{_op} over an empty axes input with noop_with_empty_axes {_k}", reduce(_op, (2, 2), _a, 0, "input", noop=_k)))
