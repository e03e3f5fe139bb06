"""Scenarios for Resize and for the layers that produce constants: Shape, Range, ConstantOfShape."""
import itertools
import math
from fractions import Fraction as Fr

from gkrscen import *
from sc_layers import *
from sc_linear import *

RSZ = []


def interpolate(xs, n):
    m = len(xs) // 2
    return [max(0, (sum(signed(x) * w for x, w in zip(xs[:m], xs[m:2 * m])) + xs[-1] // 2) // xs[-1])]


HINTS["jstprove.resize_hint"] = interpolate
COORD = ("half_pixel", "asymmetric", "align_corners", "pytorch_half_pixel", "tf_half_pixel_for_nn")
NEAR = ("round_prefer_floor", "round_prefer_ceil", "floor", "ceil")


def coord(o, i, n, mode):
    if mode == "asymmetric":
        return Fr(o * i, n)
    if mode == "align_corners":
        return Fr(o * (i - 1), n - 1) if n > 1 else Fr(0)
    if mode == "tf_half_pixel_for_nn":
        return (o + Fr(1, 2)) * i / n
    if mode == "pytorch_half_pixel" and n == 1:
        return Fr(0)
    return (o + Fr(1, 2)) * i / n - Fr(1, 2)


def near(x, i, how):
    f = math.floor(x)
    r = {"floor": f, "ceil": math.ceil(x), "round_prefer_floor": math.ceil(x - Fr(1, 2)), "round_prefer_ceil": math.floor(x + Fr(1, 2))}[how]
    return min(max(r, 0), i - 1)


def resize(shape, to, mode=None, cm=None, nm=None, kappa=4, n=BITS, ok=True, attrs=None):
    at = {"inputs": ["x"], **{k: v for k, v in (("mode", mode), ("coordinate_transformation_mode", cm), ("nearest_mode", nm)) if v is not None}, **(attrs or {})}
    C = cm or "half_pixel"
    S_ = 1 << kappa

    def run(v):
        if not ok:
            return None, set()
        x = v["x"][1]
        flat = lambda ix: sum(c * s for c, s in zip(ix, steps(shape)))
        out, lim = [], set()
        for ix in indices(to):
            if (mode or "nearest") == "nearest":
                out.append(x[flat([near(coord(c, i, o, C), i, nm or "round_prefer_floor") for c, i, o in zip(ix, shape, to)])])
                continue
            w = []
            for c, i, o in zip(ix, shape, to):
                p = Fr(c) if i == o else min(max(coord(c, i, o, C), Fr(0)), Fr(i - 1))
                f = math.floor(p)
                w.append([(f, 1 - (p - f))] + ([(f + 1, p - f)] if p > f else []))
            acc = []
            for comb in itertools.product(*w):
                k = math.prod([q for _, q in comb], start=Fr(1)) * S_
                assert k.denominator == 1
                acc.append(fmul(x[flat([a for a, _ in comb])], fe(int(k))))
            p = fadd(total(acc), fe(S_ // 2))
            out.append(fdiv(p, S_))
            lim.add(("in", p, S_ << n))
        return {"y": (list(to), out)}, lim
    return scenario("Resize", {"x": shape}, lambda v: run(v)[0], at, lims=lambda v: run(v)[1], shapes={"y": list(to)}, gen=naturals(40), n_bits=n, scale=kappa)


for _s, _t in (((4,), (8,)), ((3,), (6,)), ((6,), (3,)), ((2,), (6,)), ((8,), (2,)), ((5,), (1,)), ((1,), (3,)), ((3,), (3,)), ((4,), (6,)), ((6,), (4,)), ((5,), (3,)), ((3,), (7,))):
    for _c in COORD:
        for _m in NEAR:
            RSZ.append((f"nearest Resize of {list(_s)} to {list(_t)} with {_c} and {_m}", resize(_s, _t, "nearest", _c, _m)))
for _s, _t in (((1, 1, 2, 3), (1, 1, 4, 6)), ((1, 2, 2, 2), (1, 2, 3, 4)), ((2, 1, 4, 2), (2, 1, 2, 6)), ((1, 2, 3), (2, 2, 6))):
    for _c, _m in zip(COORD, NEAR + ("round_prefer_floor",)):
        RSZ.append((f"nearest Resize of {list(_s)} to {list(_t)} with {_c} and {_m}", resize(_s, _t, "nearest", _c, _m)))
for _a in ((None, None, None), ("nearest", None, None), (None, "asymmetric", None), (None, None, "floor"), ("nearest", None, "ceil")):
    RSZ.append((f"Resize with {_a}", resize((2, 4), (4, 6), *_a)))
for _m in ("linear", "bilinear", "trilinear"):
    RSZ.append((f"{_m} Resize of [2] to [4]", resize((2,), (4,), _m)))
for _s, _t in (((2,), (4,)), ((4,), (8,)), ((4,), (2,)), ((3,), (3,)), ((3,), (5,)), ((2,), (1,)), ((1,), (3,)), ((1, 1, 2, 2), (1, 1, 4, 4)), ((2, 2), (2, 4)), ((2, 2), (4, 2)), ((1, 2, 4, 1), (1, 2, 2, 1)), ((4, 4), (2, 2))):
    for _c in COORD[:4] if _t[-1] not in (3, 5) else ("align_corners",):
        if (_c == "align_corners" and any((o - 1) & (o - 2) for i, o in zip(_s, _t) if o > 1 and i != o)):
            continue
        RSZ.append((f"linear Resize of {list(_s)} to {list(_t)} with {_c}", resize(_s, _t, "linear", _c, kappa=6)))
for _k, _n in ((18, 32), (5, 16), (20, 62)):
    RSZ.append((f"linear Resize with scale 2^{_k} and {_n} bits", resize((2,), (4,), "linear", kappa=_k, n=_n)))
for _at in ({"mode": "cubic"}, {"mode": "area"}, {"coordinate_transformation_mode": "tf_crop_and_resize"}, {"coordinate_transformation_mode": "half_pixel_symmetric"}, {"nearest_mode": "round"}):
    RSZ.append((f"Resize with {_at}", resize((2,), (4,), attrs=_at, ok=False)))
RSZ.append(("Resize that changes the rank", resize((2,), (4, 1), ok=False)))


# ------------------------------------------------------------------------------------------------ constants
def shapeof(shape, start=None, end=None):
    r = len(shape)
    clip = lambda k: max(r + k, 0) if k < 0 else min(k, r)
    d = shape[clip(0 if start is None else start):clip(r if end is None else end)]
    at = {"inputs": ["x"], **{k: v for k, v in (("start", start), ("end", end)) if v is not None}}
    return scenario("Shape", {"x": shape}, lambda v: {"y": ([len(d)], [fe(k) for k in d])}, at or None, shapes={"y": [len(d)]})


for _s in ((2, 3, 4), (1, 5), (7,)):
    for _a in (None, 0, 1, 2, -1, -2, 5, -9):
        for _b in (None, 1, 2, 3, -1, 9, -9, 0):
            RSZ.append((f"Shape of {list(_s)} from {_a} to {_b}", shapeof(_s, _a, _b)))


def ranged(a, b, d, ok=True, shape=()):
    n = max(0, -((a - b) // d)) if d else 0
    ok = ok and d != 0
    return scenario("Range", {}, lambda v: {"y": ([n], [fe(a + k * d) for k in range(n)])} if ok else None, {"inputs": ["a", "b", "d"]}, shapes={"y": [n]}, weights={"a": (shape, [a] * max(1, math.prod(shape))), "b": ((), [b]), "d": ((), [d])})


for _a, _b, _d in ((0, 5, 1), (0, 5, 2), (1, 8, 3), (5, 0, -2), (5, 0, -1), (-4, 4, 3), (3, 3, 1), (3, 3, -1), (5, 0, 1), (0, 5, -1), (0, 6, 3), (6, 0, -3), (-1, -7, -2), (2, 3, 10), (0, 1 << 40, 1 << 38), (-(6 * 10 ** 18), 6 * 10 ** 18, 4 * 10 ** 18), (6 * 10 ** 18, -(6 * 10 ** 18), -(4 * 10 ** 18)), (0, 4, 0)):
    RSZ.append((f"Range from {_a} to {_b} by {_d}", ranged(_a, _b, _d)))
RSZ.append(("Range from one element", ranged(2, 7, 2, shape=(1,))))
RSZ.append(("Range from two elements", ranged(2, 7, 2, ok=False, shape=(2,))))


def filled(shape, value=None):
    at = {"inputs": ["s"], **({"value": value} if value is not None else {})}
    v = 0 if value is None else value[0] if isinstance(value, list) else value
    return scenario("ConstantOfShape", {}, lambda _: {"y": (list(shape), [fe(v)] * math.prod(shape))}, at, shapes={"y": list(shape)}, weights={"s": ((len(shape),), list(shape))})


for _s in ((3,), (2, 2), (1, 2, 3), (1,), ()):
    for _v in (None, 0, 1, -3, [5], [-1], [1 << 40]):
        RSZ.append((f"ConstantOfShape {list(_s)} of {_v}", filled(_s, _v)))
