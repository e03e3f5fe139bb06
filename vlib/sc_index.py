"""Scenarios for the layers that select, scatter and spread elements."""
import itertools

from gkrscen import *
from sc_layers import *

from sc_linear import *

IDX = []
_D = "std::ops::Deref::deref"


def m_deref(Ip, st, a, i):
    v = Ip.deref_val(st, a[0])
    if v.op == "adt" and v.a[0] == "std::borrow::Cow":
        x = v.a[3][0]
        return [(st, x if v.a[2] == "Borrowed" else mk("vref", x))]
    return (CM.get(_D) or GH.get(_D) or conc.CH.get(_D) or M_.lookup(_D, _D))(Ip, st, a, i)


RVM[_D] = m_deref


# ------------------------------------------------------------------------------------------------ ConvTranspose
def convt(shape, wsh, strides=(1, 1), pads=(0, 0, 0, 0), opad=(0, 0), bias=True, how="weights", n=BITS, kappa=2, rescale=True, attrs=None, ok=True, bn=None):
    N, Ci, H, W = shape
    _, Co, kh, kw = wsh
    ho, wo = strides[0] * (H - 1) + kh + opad[0] - pads[0] - pads[2], strides[1] * (W - 1) + kw + opad[1] - pads[1] - pads[3]
    ok = ok and ho > 0 and wo > 0 and wsh[0] == Ci

    def run(v):
        if not ok:
            return None, set()
        x, w = v["x"][1], v["w"][1]
        acc = {}
        for b in range(N):
            for ci in range(Ci):
                for i in range(H):
                    for j in range(W):
                        for co in range(Co):
                            for a in range(kh):
                                for c in range(kw):
                                    p, q = i * strides[0] + a - pads[0], j * strides[1] + c - pads[1]
                                    if 0 <= p < ho and 0 <= q < wo:
                                        acc.setdefault((b, co, p, q), []).append(fmul(x[((b * Ci + ci) * H + i) * W + j], w[((ci * Co + co) * kh + a) * kw + c]))
        out, lim = [], set()
        for ix in indices((N, Co, ho, wo)):
            p = total(acc.get(ix, []))
            if bias:
                p = fadd(p, v["b"][1][ix[1]])
            y, l = scaled(p, kappa, n, False, rescale)
            out.append(y)
            lim |= l
        return {"y": ([N, Co, ho, wo], out)}, lim
    given, kw_ = {"x": shape}, {}
    bs = (bn or Co,)
    if how == "weights":
        k = itertools.count(1)
        kw_["weights"] = {"w": (wsh, [(-1) ** (i % 3) * (i % 7 + 1) for i in range(wsh[0] * Co * kh * kw)]), **({"b": (bs, [3 * i - 2 for i in range(bs[0])])} if bias else {})}
    else:
        given = {"x": shape, "w": wsh, **({"b": bs} if bias else {})}
        kw_["wai"] = True
    at = {"inputs": ["x", "w"] + (["b"] if bias else []), "kernel_shape": [kh, kw], "strides": list(strides), "pads": list(pads), "output_padding": list(opad), "dilations": [1, 1], "group": 1, **(attrs or {})}
    at = {k: x for k, x in at.items() if x is not None}
    return scenario("ConvTranspose", given, lambda v: run(v)[0], at, lims=lambda v: run(v)[1], gen=within(-6, 7), n_bits=n, scale=kappa, is_rescale=rescale, **kw_)


for _s, _w, _st, _p, _o in (((1, 1, 2, 2), (1, 1, 2, 2), (1, 1), (0, 0, 0, 0), (0, 0)), ((1, 1, 2, 3), (1, 1, 2, 1), (1, 1), (0, 0, 0, 0), (0, 0)), ((1, 2, 2, 1), (2, 2, 1, 2), (1, 1), (0, 0, 0, 0), (0, 0)), ((2, 1, 1, 2), (1, 2, 1, 2), (1, 2), (0, 0, 0, 0), (0, 0)),
                            ((1, 1, 2, 2), (1, 1, 2, 2), (2, 1), (0, 0, 0, 0), (0, 0)), ((1, 1, 2, 2), (1, 1, 2, 3), (1, 2), (0, 1, 0, 0), (0, 0)), ((1, 1, 2, 2), (1, 1, 3, 2), (2, 2), (1, 0, 0, 1), (0, 0)), ((1, 1, 2, 2), (1, 1, 2, 2), (2, 2), (0, 0, 0, 0), (1, 0)),
                            ((1, 1, 2, 2), (1, 1, 2, 2), (2, 2), (0, 0, 0, 0), (0, 1)), ((1, 1, 3, 1), (1, 1, 1, 1), (3, 1), (0, 0, 0, 0), (0, 0)), ((1, 1, 2, 2), (1, 1, 1, 2), (1, 1), (0, 0, 1, 0), (0, 0)), ((1, 1, 1, 2), (1, 1, 1, 2), (1, 1), (0, 2, 0, 1), (0, 0)),
                            ((1, 1, 1, 1), (1, 1, 1, 1), (1, 1), (1, 0, 0, 0), (0, 0)), ((1, 2, 1, 1), (1, 1, 1, 1), (1, 1), (0, 0, 0, 0), (0, 0))):
    for _b, _h in ((True, "weights"), (False, "inputs"), (True, "inputs")):
        IDX.append((f"ConvTranspose of {list(_s)} by {list(_w)} with strides {list(_st)}, pads {list(_p)} and output padding {list(_o)}{'' if _b else ', without bias'}, {_h}", convt(_s, _w, _st, _p, _o, _b, _h)))
for _a, _ok in (({"group": 2}, False), ({"dilations": [2, 2]}, False), ({"dilations": [1, 2]}, False), ({"strides": [0, 1]}, False), ({"pads": [0, 0]}, False), ({"kernel_shape": [2]}, False), ({"kernel_shape": [1, 2]}, False),
                ({"output_padding": [0]}, False), ({"strides": None, "pads": None, "output_padding": None, "dilations": None, "group": None}, True)):
    IDX.append((f"ConvTranspose with {_a}", convt((1, 1, 2, 2), (1, 1, 2, 2), attrs=_a, ok=_ok)))
IDX.append(("ConvTranspose with a bias of another length", convt((1, 1, 2, 2), (1, 2, 1, 1), bn=3, ok=False)))
for _k, _n, _r in ((18, 64, True), (5, 32, True), (4, 16, False)):
    IDX.append((f"ConvTranspose with scale 2^{_k} and {_n} bits{'' if _r else ', not rescaled'}", convt((1, 1, 1, 2), (1, 1, 1, 2), n=_n, kappa=_k, rescale=_r)))


# ------------------------------------------------------------------------------------------------ ScatterND
def scatter(shape, ishape, ind, attrs=None, ok=True):
    import math
    d = ishape[-1]
    cnt = math.prod(ishape[:-1])
    size = math.prod(shape[d:])
    ok = ok and d <= len(shape) and all(-shape[i % d] <= v < shape[i % d] for i, v in enumerate(ind)) if d else ok

    def ref(v):
        if not ok:
            return None
        y = list(v["x"][1])
        for u in range(cnt):
            at = 0
            for j in range(d):
                c = ind[u * d + j]
                at = at * shape[j] + (c + shape[j] if c < 0 else c)
            y[at * size:(at + 1) * size] = v["u"][1][u * size:(u + 1) * size]
        return {"y": (list(shape), y)}
    us = tuple(ishape[:-1]) + tuple(shape[d:])
    return scenario("ScatterND", {"x": shape, "u": us}, ref, {"inputs": ["x", "ind", "u"], **(attrs or {})}, weights={"ind": (ishape, list(ind))}, shapes={"y": list(shape)})


for _s, _i, _v in (((4,), (2, 1), (1, 3)), ((4,), (2, 1), (-1, 0)), ((2, 3), (1, 1), (1,)), ((2, 3), (2, 2), (0, 2, 1, 0)), ((2, 3), (1, 2), (-1, -3)), ((2, 2, 2), (1, 2), (1, 0)), ((2, 2, 2), (2, 1), (1, 0)), ((3, 2), (1, 2, 1), (2, 0)),
                   ((2, 2, 2), (2, 3), (0, 0, 1, 1, 1, 0)), ((3,), (3, 1), (2, 0, 1)), ((4,), (1, 1), (4,)), ((4,), (1, 1), (-5,)), ((2, 3), (1, 2), (0, 3)), ((2, 3), (1, 2), (2, 0)), ((2, 3), (1, 1), (2,)), ((2, 3), (1, 1), (-2,)),
                   ((2, 3), (1, 2), (-3, 0)), ((2, 3), (1, 3), (0, 0, 0)), ((3,), (2, 1), (1, 1))):
    IDX.append((f"ScatterND into {list(_s)} at {list(_v)} in {list(_i)}", scatter(_s, _i, _v)))
for _r, _ok in (("none", True), ("add", False), ("mul", False), ("max", False)):
    IDX.append((f"ScatterND with reduction {_r}", scatter((4,), (1, 1), (1,), {"reduction": _r}, _ok)))


# ------------------------------------------------------------------------------------------------ GatherElements
def gather_hint(xs, n):
    i = signed(xs[1])
    return [xs[2 + (i + xs[0] if i < 0 else i)]]


HINTS["jstprove.gather_elements_hint"] = gather_hint


def isz(p):
    return iszero(fe(p))


def gathere(shape, ishape, axis, ind=None):
    """ind: constant indices, or None for an input"""
    r = len(shape)
    ax = 0 if axis is None else axis
    ok = -r <= ax < r and len(ishape) == r
    ax %= r
    L_ = shape[ax]
    if ind is not None:
        ok = ok and all(-L_ <= v < L_ for v in ind)
    st = [1] * r
    for i in reversed(range(r - 1)):
        st[i] = st[i + 1] * shape[i + 1]

    def run(v):
        if not ok:
            return None, set()
        out, lim = [], set()
        for k, ix in enumerate(indices(ishape)):
            lane = [v["x"][1][sum((a if d == ax else c) * st[d] for d, c in enumerate(ix))] for a in range(L_)]
            if ind is not None:
                out.append(lane[ind[k]])
                continue
            i = v["i"][1][k]
            hit = [fadd(isz(fsub(i, fe(a))), isz(fsub(fadd(i, fe(L_)), fe(a)))) for a in range(L_)]
            out.append(total([fmul(h, x) for h, x in zip(hit, lane)]))
            lim.add(("zero", fsub(total(hit), fe(1))))
        return {"y": (list(ishape), out)}, lim

    def gen(xs):
        names = sorted({a for x in xs for a in FA.atoms(x)}, key=lambda a: str(a.a[0]))
        def it(rnd):
            for _ in range(6):
                yield {a: (rnd.randrange(-L_, L_) if str(a.a[0]).startswith("i") else rnd.randrange(-90, 90)) % PRIME for a in names}
        return it
    at = {"inputs": ["x", "i"]}
    if axis is not None:
        at["axis"] = axis
    if ind is None:
        return scenario("GatherElements", {"x": shape, "i": ishape}, lambda v: run(v)[0], at, shapes={"y": list(ishape)}, lims=lambda v: run(v)[1], gen=gen)
    return scenario("GatherElements", {"x": shape}, lambda v: run(v)[0], at, shapes={"y": list(ishape)}, weights={"i": (ishape, list(ind))})


for _s, _i, _a, _v in (((3,), (2,), None, (0, 2)), ((3,), (2,), 0, (-1, 1)), ((2, 2), (1, 2), 0, (1, 0)), ((2, 2), (2, 1), 1, (1, 0)), ((2, 3), (2, 2), -1, (2, 0, -1, 1)), ((2, 3), (2, 3), 0, (0, 1, 0, 1, 1, -2)), ((2, 2, 2), (2, 1, 2), 1, (1, 0, 0, 1)),
                       ((3, 2), (2, 1), 0, (2, 1)), ((2, 2), (1, 1), 1, (1,)), ((3,), (1,), 0, (3,)), ((3,), (1,), 0, (-4,)), ((2, 2), (1, 2), 2, (0, 0)), ((2, 2), (1, 2), -3, (0, 0)), ((2, 2), (2,), 0, (0, 0)), ((2, 2, 2), (1, 2, 2), -3, (1, 0, 0, 1))):
    IDX.append((f"GatherElements of {list(_s)} along {_a} at {list(_v)} in {list(_i)}", gathere(_s, _i, _a, _v)))
    if not (_s == (3,) and _i == (1,) and _v[0] == -4):
        IDX.append((f"GatherElements of {list(_s)} along {_a} with an input of shape {list(_i)}", gathere(_s, _i, _a)))


# ------------------------------------------------------------------------------------------------ TopK
def top_hint(xs, n):
    k = n // 2
    xs = [signed(x) for x in xs[:-1]]
    at = sorted(range(len(xs)), key=lambda i: (-xs[i], i))[:k]
    return [xs[i] for i in at] + at


HINTS["jstprove.topk_hint"] = top_hint


def judge_top(facts, vals, idxs, lanes, k, n):
    """values and indices of each lane; the constraints must be those of the k first in descending order, lower index first"""
    N = len(lanes[0])
    hs = [h for f in facts if f.op == "hints" and f.a[1] == "jstprove.topk_hint" for h in f.a[0]]
    ins = sorted({a for l in lanes for x in l for a in FA.atoms(x)}, key=lambda a: str(a.a[0]))
    rnd = random.Random(3)
    for t in range(12):
        val = {a: (rnd.randrange(-127, 127) if t % 2 else rnd.randrange(-2, 3)) % PRIME for a in ins}
        base = dict(val)
        circ.honest(facts, val, rnd)
        b = circ.violated(facts, val)
        if b is not None:
            return [(False, f"for {circ.show_vals(base, base)} the honest prover violates the constraint {show(b)[:160]}")]
        for o, lane in enumerate(lanes):
            xs = [signed(ev(x, val)) for x in lane]
            at = sorted(range(N), key=lambda i: (-xs[i], i))[:k]
            got = [signed(ev(v, val)) for v in vals[o] + idxs[o]]
            if got != [xs[i] for i in at] + at:
                return [(False, f"for {circ.show_vals(base, base)} the outputs are {got} instead of {[xs[i] for i in at] + at}")]
        # every other choice of indices and the values there must fail
        for pick in itertools.product(range(N), repeat=k):
            for order in ((0,) if len(lanes) == 1 else range(len(lanes))):
                v2 = dict(val)
                lane = lanes[order]
                xs = [ev(x, val) for x in lane]
                h = hs[2 * k * order:2 * k * (order + 1)]
                for j, p in enumerate(pick):
                    v2[h[j]], v2[h[k + j]] = xs[p], p
                if all(v2[x] == val[x] for x in h):
                    continue
                if circ.violated(facts, v2) is None:
                    return [(False, f"for {circ.show_vals(base, base)} a dishonest prover gets the values {[signed(xs[p]) for p in pick]} at {list(pick)} past every constraint")]
    # every index is one of the lane: each case decided on its own
    zs = [f.a[0] for f in facts if f.op == "zero"]
    b = max(1, (N - 1).bit_length())
    one = {}
    for o, lane in enumerate(lanes):
        for h in hs[2 * k * o + k:2 * k * (o + 1)]:
            e = fsub(total([isz(fsub(fe(h), fe(a))) for a in range(N)]), fe(1))
            if not any(z is e or z is fneg(e) for z in zs):
                return [(None, "an index is not confined to the lane in a known way")]
    for pick in itertools.product(range(N), repeat=k * len(lanes)):
        m = {}
        for o in range(len(lanes)):
            for j in range(k):
                m[hs[2 * k * o + k + j]] = fe(pick[o * k + j])
        fs = [mk(f.op, *(circ.subst(x, m) if isinstance(x, T) and x.op == "fe" else x for x in f.a)) for f in facts]
        outs = [circ.subst(fe(x), m) for o in range(len(lanes)) for x in vals[o] + idxs[o]]
        o_, lim, res = circ.solve(fs, outs)
        bad = any(x[0] == "in" and const_of(x[1]) is not None and not 0 <= const_of(x[1]) < x[2] or x[0] == "zero" and const_of(x[1]) not in (None, 0) for x in lim)
        sels = [pick[o * k:(o + 1) * k] for o in range(len(lanes))]
        if any(len(set(s)) < k for s in sels):
            # descending keys that return to where they began add up to a negative number
            for s, lane in zip(sels, lanes):
                key = [fsub(fmul(x, fe(N)), fe(i)) for i, x in enumerate(lane)]
                have = [("in", fsub(fsub(key[s[j - 1]], key[s[j]]), fe(1)), 1 << n + b) in lim for j in range(1, k)]
                bad = bad or any(s[i] == s[j] and all(have[i:j]) for i in range(k) for j in range(i + 1, k))
            if not bad:
                return [(None, f"the indices {pick} are not refused")]
            continue
        want, wl = [], set()
        for o, (s, lane) in enumerate(zip(sels, lanes)):
            want += [lane[i] for i in s] + [fe(i) for i in s]
            key = [fsub(fmul(x, fe(N)), fe(i)) for i, x in enumerate(lane)]
            for j in range(1, k):
                wl.add(("in", fsub(fsub(key[s[j - 1]], key[s[j]]), fe(1)), 1 << n + b))
            for i in range(N):
                if i not in s:
                    wl.add(("in", fsub(fsub(key[s[-1]], key[i]), fe(1)), 1 << n + b))
        lim = {x for x in lim if const_of(x[1]) is None}
        if bad or res or not all(x is fe(y) for x, y in zip(o_, want)) or lim != wl:
            return [(None, f"the constraints for the indices {pick} are not the expected ones: {[show(x)[:100] for x in res][:2]} {[(x[0], show(x[1])[:100], x[2:]) for x in sorted(lim ^ wl, key=str)[:3]]}")]
    return [(True, "")]


def topk(shape, k, axis=None, largest=None, sorted_=None, n=BITS, outs=("y", "i"), ok=True, kind="weights", kshape=(1,)):
    r = len(shape)
    ax = (-1 if axis is None else axis)
    ok = ok and -r <= ax < r
    ax %= r
    ok = ok and 0 < k <= shape[ax]
    to = [max(k, 0) if d == ax else s for d, s in enumerate(shape)]
    at = {"inputs": ["x", "k"]}
    for name, v in (("axis", axis), ("largest", largest), ("sorted", sorted_)):
        if v is not None:
            at[name] = v

    def f(M):
        ins = {"x": (list(shape), ten("x", shape))}
        kw = {"weights": {"k": (kshape, [k] * (kshape[0] if kshape else 1))}}
        L = Layer(M, "TopK", ins, outs=outs, attrs=at, shapes={o: to for o in outs}, n_bits=n, **kw)
        L.given = ins
        if not ok:
            return judge(L, None, set(), values([x for s, v in ins.values() for x in v]), ())
        import math
        inner = math.prod(shape[ax + 1:])
        outer = math.prod(shape[:ax])
        N = shape[ax]
        X = ins["x"][1]
        res = L.run()
        if res[0] == "stopped":
            return res[1]
        if res[0] == "refused":
            return [(False, f"the layer is refused ({res[1]})")]
        _, v, facts = res
        if set(v) != set(outs):
            return [(False, f"the outputs are {sorted(v)}")]
        if any(list(v[o][0]) != to for o in outs):
            return [(False, f"an output has shape {[v[o][0] for o in outs]} instead of {to}")]
        lanes, vals, idxs = [], [], []
        hs = [h for f in facts if f.op == "hints" and f.a[1] == "jstprove.topk_hint" for h in f.a[0]]
        for o in range(outer):
            for i in range(inner):
                lanes.append([X[(o * N + a) * inner + i] for a in range(N)])
                vals.append([v["y"][1][(o * k + j) * inner + i] for j in range(k)])
                q = 2 * k * (len(lanes) - 1) + k
                idxs.append([v["i"][1][(o * k + j) * inner + i] for j in range(k)] if "i" in outs else hs[q:q + k])
        return judge_top(facts, vals, idxs, lanes, k, n)
    return f


for _s, _k, _a in (((3,), 1, None), ((3,), 2, 0), ((3,), 3, -1), ((1,), 1, None), ((2,), 2, None), ((4,), 2, None), ((2, 3), 2, None), ((2, 3), 1, 1), ((3, 2), 1, 0), ((3, 2), 2, -2), ((1, 2, 2), 2, 1), ((5,), 1, None), ((4,), 3, None)):
    IDX.append((f"TopK of {list(_s)} with K = {_k} along {_a}", topk(_s, _k, _a)))
for _n in (16, 32, 62):
    IDX.append((f"TopK with {_n} bits", topk((3,), 2, n=_n)))
IDX.append(("TopK without indices", topk((3,), 2, outs=("y",))))
for _l, _so, _ok in ((1, None, True), (0, None, False), (None, 1, True), (1, 1, True)):
    IDX.append((f"TopK with largest {_l} and sorted {_so}", topk((3,), 2, largest=_l, sorted_=_so, ok=_ok)))
for _s, _k, _a in (((3,), 4, None), ((3,), 0, None), ((3,), -1, None), ((3,), 1, 1), ((3,), 1, -2), ((2, 3), 3, 0)):
    IDX.append((f"TopK of {list(_s)} with K = {_k} along {_a}", topk(_s, _k, _a)))
IDX.append(("TopK with two values of K", topk((3,), 1, kshape=(2,), ok=False)))
