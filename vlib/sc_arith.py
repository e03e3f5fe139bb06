"""Scenarios for the elementwise layers of the circuit: arithmetic, activation, comparison and selection."""
from sc_layers import *

ARITH = []
SCALE, BITS = 2, 8


def together(*shapes_):
    """shape a list of shapes broadcast to, None if they do not"""
    r = max(len(s) for s in shapes_)
    out = []
    for i in range(r):
        ds = {s[i - r + len(s)] for s in shapes_ if i - r + len(s) >= 0} - {1}
        if len(ds) > 1:
            return None
        out.append(ds.pop() if ds else 1)
    return out


def spread(a, to):
    sh, xs = a
    m = bcast(sh, to)
    return [fe(xs[k]) for k in m]


def bcast(sh, to):
    """flat index in an array of the shape for each element of the shape it is broadcast to"""
    st = steps(sh)
    off = len(to) - len(sh)
    return [sum((0 if d == 1 else i) * k for i, d, k in zip(ix[off:], sh, st)) for ix in indices(to)]


def each(names_, f):
    def ref(v):
        to = together(*[v[n][0] for n in names_])
        if to is None:
            return None
        cols = [spread(v[n], to) for n in names_]
        return {"y": (to, [f(*xs) for xs in zip(*cols)])}
    return ref


def absl(d, n):
    """|d| < n as a constraint on the inputs"""
    if const_of(d) is not None:
        return set()
    return {("abs", fneg(d) if lead_coef(d) < 0 else d, n)}


def within(lo, hi):
    """values of the inputs, near the ends of the interval and inside it"""
    def g(xs):
        at = sorted({a for x in xs for a in FA.atoms(x)}, key=lambda a: str(a.a[0]))
        def it(rnd):
            for k in range(14):
                edge = [lo, lo + 1, -5, -4, -1, 0, 1, 3, 4, hi - 2, hi - 1]
                yield {a: edge[(k + 3 * j) % len(edge)] if k < 11 else rnd.randrange(lo, hi) for j, a in enumerate(at)}
        return it
    return g


PAIRS = (((2, 3), (2, 3)), ((2, 3), (3,)), ((2, 3), (1, 3)), ((2, 3), (2, 1)), ((2, 1), (1, 3)), ((3,), (2, 3)), ((2, 3), ()), ((1,), (2, 2)), ((2, 1, 2), (3, 1)), ((2, 3), (2,)), ((2, 3), (3, 2)))


def two(op, f, lim=None, gen=None, **kw):
    """a layer of two operands over the shapes; constants on either side"""
    def lims(v):
        if lim is None:
            return set()
        to = together(v["a"][0], v["b"][0])
        if to is None:
            return set()
        return set().union(*[lim(x, y) for x, y in zip(spread(v["a"], to), spread(v["b"], to))])
    for a, b in PAIRS:
        to = together(a, b)
        ARITH.append((f"{op} of {list(a)} and {list(b)}", scenario(op, {"a": a, "b": b}, each("ab", f), {}, shapes={"y": to or [2, 3]}, lims=lims, gen=gen, **kw)))
    for wai in (False, True):
        ARITH.append((f"{op} with a constant{', described as an input' if wai else ''}", scenario(op, {"a": (2, 2)}, each("ab", f), {}, weights={"b": ((2,), (3, -2))}, shapes={"y": [2, 2]}, lims=lims, gen=gen, wai=wai, **kw)))
    ARITH.append((f"{op} from a constant", scenario(op, {"b": (2, 2)}, each("ab", f), {"inputs": ["a", "b"]}, weights={"a": ((2, 1), (5, -1))}, shapes={"y": [2, 2]}, lims=lims, gen=gen, **kw)))
    def ref(v):
        return each("ab", f)({**v, "b": ([2], [fe(3), fe(-2)])})
    def lims2(v):
        return lims({**v, "b": ([2], [fe(3), fe(-2)])})
    ARITH.append((f"{op} with a folded constant", scenario(op, {"a": (2, 2)}, ref, {"inputs": ["a", "b"]}, consts={"b": ((2,), (3, -2))}, shapes={"y": [2, 2], "b": [2]}, lims=lims2, gen=gen, **kw)))


two("Add", fadd)
two("Sub", fsub)


# ------------------------------------------------------------------------------------------------ rescaled products
def scaled(p, kappa, n, relu, rescale):
    al, S = 1 << kappa, 1 << n - 1
    if const_of(p) is not None:
        x = int(const_of(p))
        q = fe(x // al) if rescale else fe(x)
        return (pos(q) if relu else q), set()
    if not rescale:
        return (pos(p), absl(p, 2 * S)) if relu else (p, set())
    P = fadd(p, fe(al * S))
    q = fsub(fdiv(P, al), fe(S))
    return (pos(q), absl(q, 2 * S)) if relu else (q, {("in", P, al * 2 * S)})


for _k, _n, _re, _rl in ((2, 8, True, False), (2, 8, True, True), (2, 8, False, False), (2, 8, False, True), (18, 64, True, False), (18, 64, True, True), (5, 32, True, False), (18, 32, True, False)):
    _f = lambda x, y, k=_k, n=_n, re_=_re, rl=_rl: scaled(fmul(x, y), k, n, rl, re_)
    _g = within(-20, 21) if _n == 8 else within(-(1 << _n // 2), 1 << _n // 2)
    _t = f"with scale 2^{_k}, {_n} bits{', rescaled' if _re else ''}{' and fused' if _rl else ''}"
    if _n == 8:
        _n0 = len(ARITH)
        two("Mul", lambda x, y, f=_f: f(x, y)[0], lambda x, y, f=_f: f(x, y)[1], _g, scale=_k, n_bits=_n, is_rescale=_re, pattern="MulRelu" if _rl else "None")
        ARITH[_n0:] = [(f"{l} {_t}", s) for l, s in ARITH[_n0:]]
    else:
        ARITH.append((f"Mul {_t}", scenario("Mul", {"a": (2,), "b": (2,)}, each("ab", lambda x, y, f=_f: f(x, y)[0]), {}, shapes={"y": [2]}, gen=_g, scale=_k, n_bits=_n, is_rescale=_re, pattern="MulRelu" if _rl else "None",
                                            lims=lambda v, f=_f: set().union(*[f(x, y)[1] for x, y in zip(v["a"][1], v["b"][1])]))))


def batchnorm(shape, ch, wai, rescale, relu, ok=True, kappa=SCALE, n=BITS):
    at = [ix[1] if len(ix) > 1 else 0 for ix in indices(shape)]
    mu, ad = [3, -2, 5, 1][:ch], [7, -1, 0, -9][:ch]

    def cols(v):
        m, b = (v["m"][1], v["b"][1])
        return [scaled(fadd(fmul(x, fe(m[k])), fe(b[k])), kappa, n, relu, rescale) for x, k in zip(v["x"][1], at)]
    given = {"x": shape}
    kw = {}
    if wai:
        given.update(m=(ch,), b=(ch,))
    else:
        kw["weights"] = {"m": ((ch,), mu), "b": ((ch,), ad)}
    return scenario("BatchNormalization", given, lambda v: {"y": (list(shape), [c_[0] for c_ in cols(v)])} if ok else None, {}, shapes={"y": list(shape)}, n_bits=n, scale=kappa, wai=wai, is_rescale=rescale,
                    pattern="BatchnormRelu" if relu else "None", lims=(lambda v: set().union(*[c_[1] for c_ in cols(v)])) if ok else None, gen=within(-20, 21), **kw)


for _s, _c, _ok in (((1, 2, 2), 2, True), ((2, 3), 3, True), ((1, 2, 1, 2), 2, True), ((2, 2, 2, 1), 2, True), ((1, 2, 3), 3, False), ((1, 3, 2), 2, False)):
    for _w in (False, True):
        for _re, _rl in ((True, False), (True, True), (False, False), (False, True)):
            ARITH.append((f"BatchNormalization of {list(_s)} with {_c} channels{', weights as inputs' if _w else ''}{', rescaled' if _re else ''}{', fused' if _rl else ''}", batchnorm(_s, _c, _w, _re, _rl, _ok)))


# ------------------------------------------------------------------------------------------------ one operand
def single(op, f, lim=None, shape=(2, 2), **kw):
    return scenario(op, {"x": shape}, lambda v: {"y": (list(shape), [f(x) for x in v["x"][1]])}, {}, shapes={"y": list(shape)}, lims=(lambda v: set().union(*[lim(x) for x in v["x"][1]])) if lim else None, **kw)


for _s in ((2, 2), (3,), (1, 2, 2)):
    ARITH.append((f"Neg of {list(_s)}", single("Neg", fneg, shape=_s)))
    for _n in (8, 32, 64):
        ARITH.append((f"Relu of {list(_s)} with {_n} bits", single("Relu", pos, lambda x, n=_n: absl(x, 1 << n), shape=_s, n_bits=_n, gen=within(-100, 101), outside=lambda xs, n=_n: [{next(iter(FA.atoms(x))): (1 << n) if j == 0 else 1 for j, x in enumerate(xs)}])))
    ARITH.append((f"Not of {list(_s)}", single("Not", lambda x: fsub(fe(1), x), lambda x: {("bool", x)}, shape=_s, gen=within(0, 2) and (lambda xs: lambda rnd: [{next(iter(FA.atoms(x))): (k >> j) & 1 for j, x in enumerate(xs)} for k in range(6)]))))


def leaky(alpha, kappa, n):
    aq = round(alpha * (1 << kappa)) if abs(alpha * (1 << kappa) % 1 - 0.5) > 1e-12 else int(alpha * (1 << kappa) + (0.5 if alpha > 0 else -0.5))
    al, S = 1 << kappa, 1 << n - 1

    def val(x):
        r = pos(x)
        P = fadd(fmul(fe(aq), fsub(x, r)), fe(al * S))
        return fadd(r, fsub(fdiv(P, al), fe(S))), ({("in", P, al * 2 * S)} if aq else set()) | absl(x, 2 * S)
    at = {} if alpha == 0.01 else {"alpha": float(alpha)}
    def f(M):
        return scenario("LeakyRelu", {"x": (2,)}, lambda v: {"y": ([2], [val(x)[0] for x in v["x"][1]])}, dict(at), shapes={"y": [2]}, n_bits=n, scale=kappa, lims=lambda v: set().union(*[val(x)[1] for x in v["x"][1]]),
                        gen=within(-60, 61))(M)
    return f


for _a in (0.01, 0.1, 0.25, 0.5, 1.0, -0.5, 0.0):
    for _k, _n in ((2, 8), (8, 20), (18, 64)):
        ARITH.append((f"LeakyRelu with slope {_a}, scale 2^{_k} and {_n} bits", leaky(_a, _k, _n)))


# ------------------------------------------------------------------------------------------------ extremes and clipping
two("Max", lambda x, y: maxof([x, y]), lambda x, y: absl(fsub(x, y), 256), within(-100, 101), n_bits=8)
two("Min", lambda x, y: minof([x, y]), lambda x, y: absl(fsub(x, y), 256), within(-100, 101), n_bits=8)
for _n in (16, 32, 64):
    ARITH.append((f"Max with {_n} bits", scenario("Max", {"a": (2,), "b": (2,)}, each("ab", lambda x, y: maxof([x, y])), {}, shapes={"y": [2]}, n_bits=_n, gen=within(-100, 101), lims=lambda v, n=_n: set().union(*[absl(fsub(x, y), 1 << n) for x, y in zip(v["a"][1], v["b"][1])]))))


def clip(shape, lo, hi, how, bits=8):
    """lo, hi: None, a number, or 'in' for a tensor input"""
    given, wts, cs, order = {"x": shape}, {}, {}, ["x"]
    for nm, b in (("lo", lo), ("hi", hi)):
        if b is None:
            order.append("")
        else:
            order.append(nm)
            if how == "input":
                given[nm] = b
            elif how == "constant":
                wts[nm] = ((), [b])
            else:
                cs[nm] = ((), [b])
    while order[-1] == "":
        order.pop()

    def run(v):
        out, lim = [], set()
        v = {**v, **{k: ([], [fe(x) for x in xs]) for k, (s, xs) in cs.items()}}
        to = together(*[v[n][0] for n in ("x", "lo", "hi") if n in v])
        xs = spread(v["x"], to)
        ls = spread(v["lo"], to) if "lo" in v else [None] * len(xs)
        hs = spread(v["hi"], to) if "hi" in v else [None] * len(xs)
        for x, l, h in zip(xs, ls, hs):
            y = x
            if l is not None:
                lim |= absl(fsub(y, l), 1 << bits)
                y = maxof([y, l])
            if h is not None:
                lim |= absl(fsub(y, h), 1 << bits)
                y = minof([y, h])
            out.append(y)
        return {"y": (to, out)}, lim
    return scenario("Clip", given, lambda v: run(v)[0], {"inputs": order}, weights=wts, consts=cs, shapes={"y": list(shape), **{k: [] for k in cs}}, n_bits=bits, gen=within(-100, 101), lims=lambda v: run(v)[1])


for _l, _h in ((None, None), (0, None), (None, 6), (0, 6), (-3, 3), (5, 5), (4, -4)):
    for _how in ("constant", "folded"):
        ARITH.append((f"Clip to {_l} .. {_h}, {_how}", clip((2, 2), _l, _h, _how)))
ARITH.append(("Clip to bounds given as inputs", clip((2, 2), (), (), "input")))
ARITH.append(("Clip to bounds of other shapes", clip((2, 2), (2,), (2, 1), "input")))
ARITH.append(("Clip from below by an input", clip((2, 2), (1,), None, "input", 32)))
ARITH.append(("Clip from above by an input", clip((2, 2), None, (1,), "input", 64)))


# ------------------------------------------------------------------------------------------------ division by constants
def div(shape, ws, ds, n=8, kappa=2):
    ok = all(1 <= d < 1 << 32 for d in ds) and together(shape, ws) is not None
    S = 1 << n - 1

    def val(x, d):
        if d == 1:
            return x, set()
        P = fadd(x, fe(d * S))
        return fsub(fdiv(P, d), fe(S)), {("in", P, d * 2 * S)}

    def run(v):
        to = together(shape, ws)
        xs, d = spread(v["x"], to), [ds[k] for k in bcast(list(ws), to)]
        r = [val(x, k) for x, k in zip(xs, d)]
        return {"y": (to, [a for a, _ in r])}, set().union(*[b for _, b in r])
    return scenario("Div", {"x": shape}, lambda v: run(v)[0] if ok else None, {}, weights={"d": (ws, ds)}, shapes={"y": list(together(shape, ws) or shape)}, n_bits=n, scale=kappa, lims=(lambda v: run(v)[1]) if ok else None,
                    gen=within(-100, 101))


for _s, _w, _d in (((2, 2), (), (3,)), ((2, 2), (2,), (3, 5)), ((2, 2), (2, 1), (1, 7)), ((2, 3), (3,), (4, 4, 9)), ((3,), (2, 3), (2, 3, 5, 7, 1, 6)), ((2,), (1,), ((1 << 32) - 1,)), ((2,), (1,), (1,)), ((2,), (1,), (64,)),
                   ((2,), (1,), (0,)), ((2,), (1,), (-2,)), ((2,), (1,), (1 << 32,)), ((2, 2), (3,), (2, 2, 2)), ((2,), (2,), (2, 0))):
    ARITH.append((f"Div of {list(_s)} by {list(_d)} as {list(_w)}", div(_s, _w, _d)))
    if _d[0] in (3, 4):
        ARITH.append((f"Div of {list(_s)} by {list(_d)} as {list(_w)} with 64 bits", div(_s, _w, _d, 64, 18)))
ARITH.append(("Div by a value that is not constant", scenario("Div", {"a": (2,), "b": (2,)}, lambda v: None, {}, shapes={"y": [2]})))


# ------------------------------------------------------------------------------------------------ logic and comparison
for _a, _b in PAIRS:
    _to = together(_a, _b)
    ARITH.append((f"And of {list(_a)} and {list(_b)}", scenario("And", {"a": _a, "b": _b}, each("ab", fmul), {}, shapes={"y": _to or [2, 3]})))


def less(x, y):
    """1 when x < y"""
    kx, ky = const_of(x), const_of(y)
    if kx is not None and ky is not None:
        return fe(int(kx < ky))
    return fsub(fe(1), iszero(pos(fsub(y, x))))


two("Equal", lambda x, y: fe(int(const_of(fsub(x, y)) == 0)) if const_of(fsub(x, y)) is not None else iszero(fsub(x, y)), gen=within(-2, 3))
two("Less", less, lambda x, y: absl(fsub(x, y), 256), within(-100, 101), n_bits=8)
two("Greater", lambda x, y: less(y, x), lambda x, y: absl(fsub(x, y), 256), within(-100, 101), n_bits=8)
for _op in ("Less", "Greater"):
    ARITH.append((f"{_op} with 64 bits", scenario(_op, {"a": (1,), "b": (1,)}, each("ab", less if _op == "Less" else lambda x, y: less(y, x)), {}, shapes={"y": [1]}, n_bits=64, gen=within(-100, 101),
                                                lims=lambda v: set().union(*[absl(fsub(x, y), 1 << 64) for x, y in zip(v["a"][1], v["b"][1])]))))
for _op, _f in (("Less", lambda x, y: x < y), ("Greater", lambda x, y: x > y), ("Equal", lambda x, y: x == y)):
    for _a, _b in (((1, 2, 3, -4), (2, 2, -3, 1)), ((0, 5, -1, 7), (0, -5, -1, 6))):
        ARITH.append((f"{_op} of constants {list(_a)} and {list(_b)}", scenario(_op, {}, lambda v, f=_f, a=_a, b=_b: {"y": ([2, 2], [fe(int(f(x, y))) for x, y in zip(a, b)])}, {}, weights={"a": ((2, 2), _a), "b": ((2, 2), _b)}, shapes={"y": [2, 2]})))
    ARITH.append((f"{_op} of constants broadcast", scenario(_op, {}, lambda v, f=_f: {"y": ([2, 2], [fe(int(f(x, y))) for x, y in ((1, 2), (1, 1), (3, 2), (3, 1))])}, {}, weights={"a": ((2, 1), (1, 3)), "b": ((2,), (2, 1))}, shapes={"y": [2, 2]})))


def where(cs, xs, ys, const=None):
    to = together(cs, xs, ys)

    def ref(v):
        x, y = spread(v["x"], to), spread(v["z"], to)
        c_ = [fe(k) for k in const] if const is not None else v["c"][1]
        c_ = spread((list(cs), c_), to)
        nz = lambda t: fe(int(const_of(t) != 0)) if const_of(t) is not None else fsub(fe(1), iszero(t))
        return {"y": (to, [fadd(b, fmul(nz(k), fsub(a, b))) for k, a, b in zip(c_, x, y)])}
    given = {"x": xs, "z": ys}
    kw = {}
    if const is not None:
        kw["weights"] = {"c": (cs, const)}
    else:
        given = {"c": cs, **given}
    return scenario("Where", given, ref, {"inputs": ["c", "x", "z"]}, shapes={"y": to}, gen=within(-2, 3), **kw)


for _c, _x, _y, _k in (((2, 2), (2, 2), (2, 2), (1, 0, 0, 1)), ((2,), (2, 2), (2, 2), (0, 1)), ((2, 1), (2,), (1,), (1, 0)), ((1,), (2,), (3, 1), (1,)), ((2, 2), (2, 1), (2,), (0, 3, -1, 0))):
    ARITH.append((f"Where of {list(_c)}, {list(_x)} and {list(_y)}", where(_c, _x, _y)))
    ARITH.append((f"Where of the constant {list(_k)} as {list(_c)}, {list(_x)} and {list(_y)}", where(_c, _x, _y, _k)))
