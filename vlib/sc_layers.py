"""Scenarios for the layers of the circuit: the layer built from its description, applied to inputs of the described shapes."""
from sc_layer import *
import sc_derive
import circ
from circ import CM
import models as M_
from gint import GH

LK_ = CP + "layers::"
UM = CP + "utils::onnx_model::"
UE = CP + "utils::errors::UtilsError"
OP = "jstprove_circuits::circuit_functions::layers::layer_ops::LayerOp<C, Builder>"
RV = "rmpv::Value"
STRUCT = {
    "Add": "binary_arith::BinaryArithLayer", "Sub": "binary_arith::BinaryArithLayer", "Max": "binary_compare::BinaryCompareLayer", "Min": "binary_compare::BinaryCompareLayer",
    "BatchNormalization": "batchnorm::BatchnormLayer", "Conv": "conv::ConvLayer", "ConvTranspose": "conv_transpose::ConvTransposeLayer", "MatMul": "matmul::MatMulLayer",
    "GlobalAveragePool": "global_averagepool::GlobalAveragePoolLayer", "AveragePool": "averagepool::AveragePoolLayer", "MaxPool": "maxpool::MaxPoolLayer",
    "And": "and_op::AndLayer", "Not": "not_op::NotLayer", "Where": "where_op::WhereLayer", "ReduceSum": "reduce_sum::ReduceSumLayer", "ReduceMean": "reduce_mean::ReduceMeanLayer",
    "ReduceMax": "reduce_max::ReduceMaxLayer", "LeakyRelu": "leaky_relu::LeakyReluLayer", "Relu": "relu::ReluLayer", "ConstantOfShape": "constant_of_shape::ConstantOfShapeLayer",
    "GatherElements": "gather_elements::GatherElementsLayer", "ScatterND": "scatter_nd::ScatterNDLayer", "TopK": "topk::TopKLayer", "GridSample": "gridsample::GridSampleLayer",
}


def struct(op):
    return LK_ + STRUCT.get(op, f"{op.lower()}::{op}Layer")


def method(op, m):
    return f"<{struct(op)} as {OP}>::{m}"


# ------------------------------------------------------------------------------------------------ attribute and weight values
def rv(x):
    """an attribute as the description holds it"""
    if isinstance(x, str):
        return adt(RV, 5, "String", (S(x),))
    if isinstance(x, (list, tuple)):
        return adt(RV, 7, "Array", (mkseq([rv(y) for y in x]),))
    if isinstance(x, float):
        return adt(RV, 4, "F64", (mk("fc", repr(x)),))
    return adt(RV, 2, "Integer", (I(x),))


def params(d):
    if d is None:
        return NONE
    return Some(adt(RV, 8, "Map", (mkseq([mk("tuple", (rv(k), rv(v))) for k, v in d.items()]),)))


def unrv(v, ty):
    """value of an attribute as a Rust type; None when it is not one"""
    m = {"i64": (-1 << 63, 1 << 63), "i32": (-1 << 31, 1 << 31), "u32": (0, 1 << 32), "u64": (0, 1 << 64), "usize": (0, 1 << 64), "u8": (0, 256), "isize": (-1 << 63, 1 << 63)}
    k = v.a[2]
    if ty in m:
        if k == "Integer" and m[ty][0] <= v.a[3][0].a[0] < m[ty][1]:
            return v.a[3][0]
        return None
    if ty.endswith("string::String"):
        return v.a[3][0] if k == "String" else None
    e = re.fullmatch(r"(?:std|alloc)::vec::Vec<(.*)>", ty)
    if e:
        if k != "Array":
            return None
        xs = [unrv(x, e.group(1)) for x in clist(v.a[3][0])]
        return None if None in xs else mkseq(xs)
    if ty in ("f32", "f64"):
        if k in ("F64", "F32"):
            return v.a[3][0]
    raise Giveup("attribute as " + ty)


def m_param(default):
    def h(Ip, st, a, i):
        p = D(Ip, st, a[2], 8)
        name = D(Ip, st, a[1], 8)
        ty = i["ga"][0]
        es = clist(p.a[3][0]) if p.op == "adt" and p.a[2] == "Map" else []
        for e in es:
            if e.a[0][0].a[3][0] is name:
                v = unrv(e.a[0][1], ty)
                return [(st, Ok(v) if v is not None else Err(mk("err")))]
        if default:
            d = D(Ip, st, a[3])
            if d.op == "adt" and d.a[2] == "Some":
                return [(st, Ok(D(Ip, st, d.a[3][0], 8)))]
        return [(st, Err(mk("err")))]
    return h


def m_weights(ws):
    def h(Ip, st, a, i):
        n = D(Ip, st, a[1], 8)
        k = n.a[0] if n.op == "str" else None
        if k is None:
            raise Giveup("name of a weight")
        if k in ws:
            return [(st, Ok(ws[k]))]
        vi = next(j for j, v in enumerate(Ip.p.adts[("ws", UE)]["variants"]) if v["name"] == "MissingTensor")
        return [(st, Err(adt(UE, vi, "MissingTensor", (n,))))]
    return h


def S(x):
    return mk("str", x)


def m_vstr(Ip, st, a, i):
    v = D(Ip, st, a[0], 8)
    return [(st, Some(v.a[3][0]) if v.a[2] == "String" else NONE)]


RVM = {"rmpv::Value::as_str": m_vstr, "rmpv::Utf8String::as_str": lambda Ip, st, a, i: [(st, Some(D(Ip, st, a[0], 8)))],
       "rmpv::Integer::as_i64": lambda Ip, st, a, i: [(st, Some(D(Ip, st, a[0], 8)))]}


def m_veq(neg):
    n = "std::cmp::PartialEq::" + ("ne" if neg else "eq")
    def h(Ip, st, a, i):
        x, y = D(Ip, st, a[0], 8), D(Ip, st, a[1], 8)
        if x.op == "adt" and y.op == "adt" and x.a[0] == y.a[0] == RV and all(z.a[2] in ("String", "Integer") for z in (x, y)) and all(z.a[3][0].op in ("str", "int") for z in (x, y)):
            return [(st, TRUE if (x is y) != neg else FALSE)]
        return (CM.get(n) or GH.get(n) or conc.CH.get(n) or M_.lookup(n, n))(Ip, st, a, i)
    return h


def m_from(Ip, st, a, i):
    if (i["dest"] or "") == "rmpv::Utf8String":
        return [(st, D(Ip, st, a[0], 8))]
    return circ.CM["std::convert::Into::into"](Ip, st, a, i)


RVM.update({"std::cmp::PartialEq::eq": m_veq(False), "std::cmp::PartialEq::ne": m_veq(True), "std::convert::Into::into": m_from, "std::convert::From::from": m_from})
KIND = "jstprove_circuits::circuit_functions::layers::layer_kinds::LayerKind"


def m_tryfrom(Ip, st, a, i):
    if i["dest"] and "LayerKind" in i["dest"].split(",")[0]:
        v = D(Ip, st, a[0], 8)
        src = "&jstprove_circuits::circuit_functions::utils::onnx_types::ONNXLayer" if v.op == "adt" else "&str"
        f = f"<{KIND} as core::convert::TryFrom<{src}>>::try_from"
        if ("ws", f) not in Ip.p.fns:
            raise Giveup("no " + f)
        return Ip.call_local(f, st, [a[0] if v.op == "adt" else v], i["ctx"], i["bb"])
    h = GH.get(i["fn"]) or conc.CH.get(i["fn"]) or M_.lookup(i["fn"], i["fn"])
    return h(Ip, st, a, i)


def names(xs):
    return mkseq([S(x) for x in xs])


class Layer:
    def __init__(self, M, op, ins, outs=("y",), attrs=None, weights=None, shapes=None, consts=None, opset=13, n_bits=8, scale=2, is_rescale=True, pattern="None", wai=False, reps=1, index=0, models=None):
        self.M, self.op, self.outs = M, op, list(outs)
        self.C = Circ(M, {**LM, **RVM, UM + "get_param": m_param(False), UM + "get_param_or_default": m_param(True), UM + "get_w_or_b": m_weights({k: arr(s, [I(x) for x in xs]) for k, (s, xs) in (weights or {}).items()}), "std::convert::TryFrom::try_from": m_tryfrom, "std::convert::TryInto::try_into": m_tryfrom, **(models or {})})
        sh = {k: s for k, (s, _) in ins.items()}
        sh.update({k: s for k, (s, _) in (weights or {}).items()})
        sh.update(shapes or {})
        self.sh = sh
        order = attrs.pop("inputs") if attrs and "inputs" in attrs else list(ins) + list(weights or {})
        hm = lambda d: conc.hmap([(S(k), v) for k, v in d.items()])
        m = M.mk
        lay = m(CP + "utils::onnx_types::ONNXLayer", None, id=I(index), name=S("layer"), op_type=S(op), inputs=names(order), outputs=names(outs),
                shape=hm({k: mkseq([I(d) for d in s]) for k, s in sh.items()}), tensor=NONE, params=params(attrs), opset_version_number=I(opset))
        cp = m(UM + "CircuitParams", None, scale_base=I(2), scale_exponent=I(scale), rescale_config=hm({}), inputs=mkseq([]), outputs=mkseq([]), freivalds_reps=I(reps),
               n_bits_config=hm({"layer": I(n_bits)}), weights_as_inputs=I(int(wai)), proof_system=mk("proofsystem"), proof_config=NONE, logup_chunk_bits=NONE, public_inputs=mkseq([]))
        cx = m(CP + "utils::build_layers::BuildLayerContext", None, w_and_b_map=mk("vref", hm({})), shapes_map=mk("vref", hm({k: mkseq([I(d) for d in s]) for k, s in sh.items()})),
               n_bits_config=mk("vref", hm({"layer": I(n_bits)})), default_n_bits=I(64), weights_as_inputs=I(int(wai)),
               constants_map=mk("vref", hm({k: arr(s, [I(x) for x in xs]) for k, (s, xs) in (consts or {}).items()})))
        self.args = [lay, cp, cx]
        self.ins = {k: arr(s, xs) for k, (s, xs) in ins.items()}
        self.pattern, self.is_rescale, self.index = pattern, is_rescale, index

    def run(self):
        """('refused', why) | ('stopped', verdicts) | ('ok', {name: (shape, elements)}, facts)"""
        lay, cp, cx = self.args
        pat = self.M.mk(CP + "utils::graph_pattern_matching::PatternRegistry", self.pattern)
        res, Ip = self.C.run(method(self.op, "build"), ["&lay", "&cp", pat, I(int(self.is_rescale)), I(self.index), "&cx"], {"lay": lay, "cp": cp, "cx": cx})
        r, e = one(res, Ip)
        if r is None:
            return "stopped", e
        o = ok_of(r[0])
        if o is None:
            return "refused", "build"
        while o.op == "box":
            o = o.a[0]
        im = conc.hmap([(S(k), v) for k, v in self.ins.items()])
        m = "apply_multi" if ("ws", method(self.op, "apply_multi")) in self.M.prog.fns else "apply"
        res, Ip = self.C.run(method(self.op, m), ["&self", "&api", "&lookup", "&in"], {"self": o, "in": im, "lookup": mk("logup")})
        r, e = one(res, Ip)
        if r is None:
            return "stopped", e
        o = ok_of(r[0])
        if o is None:
            return "refused", "apply"
        if m == "apply":
            ns, v = o.a[0]
            out = {n.a[0]: und(self.C, v) for n in clist(ns)}
        else:
            out = {x.a[0][0].a[0]: und(self.C, x.a[0][1]) for x in clist(o)}
        return "ok", out, r[2]


def judge(L, want, lims=frozenset(), gen=None, outside=()):
    """want: {output: (shape, elements)} or None for a refusal"""
    r = L.run()
    if r[0] == "stopped":
        if want is None and all(v is False for v, _ in r[1]):
            return [(True, "")]
        return r[1]
    if want is None:
        return [(r[0] == "refused", "the layer is accepted")]
    if r[0] == "refused":
        return [(False, f"the layer is refused ({r[1]})")]
    out, ws = [], []
    for n, (sh, xs) in want.items():
        if n not in r[1]:
            return [(False, f"there is no output {n}")]
        s, ys = r[1][n]
        if list(s) != list(sh):
            return [(False, f"output {n} has shape {list(s)} instead of {list(sh)}")]
        out += ys
        ws += xs
    return judge_system(r[2], out, ws, set(lims), gen or values([x for _, (_, v) in L.given.items() for x in v if x.op == "fe" and len(FA.atoms(x)) == 1]), outside)


def scenario(op, given, ref, attrs=None, gen=None, lims=None, outside=None, **kw):
    """given: inputs and their shapes; ref(values by name) -> {output: (shape, elements)} or None"""
    def f(M):
        ins = {k: (list(s), ten(k, s)) for k, s in given.items()}
        L = Layer(M, op, ins, attrs=None if attrs is None else dict(attrs), **kw)
        L.given = ins
        w = {k: (list(s), [fe(x) for x in xs]) for k, (s, xs) in (kw.get("weights") or {}).items()}
        want = ref({**ins, **w})
        allx = [x for s, v in ins.values() for x in v]
        return judge(L, want, lims({**ins, **w}) if lims else set(), gen(allx) if gen else values(allx), outside(allx) if outside else ())
    return f


# ------------------------------------------------------------------------------------------------ references
def take(a, f, shape):
    """array of the shape whose element at an index is that of a at f(index)"""
    sh, xs = a
    s = steps(sh)
    out = []
    for ix in indices(shape):
        src = f(ix)
        out.append(fe(0) if src is None else xs[sum(i * k for i, k in zip(src, s))])
    return list(shape), out


def indices(shape):
    return itertools.product(*[range(d) for d in shape])


MOVE = []


def transpose(shape, perm):
    p = perm if perm is not None else list(range(len(shape)))[::-1]
    q = [x + len(shape) if x < 0 else x for x in p]
    ok = sorted(q) == list(range(len(shape)))
    to = [shape[x] for x in q if 0 <= x < len(shape)]

    def ref(v):
        if not ok:
            return None
        def at(ix):
            src = [0] * len(shape)
            for j, x in enumerate(q):
                src[x] = ix[j]
            return src
        return {"y": take(v["x"], at, to)}
    return scenario("Transpose", {"x": shape}, ref, {"perm": list(perm)} if perm is not None else {}, shapes={"y": to})


for _s, _p in (((2, 3), None), ((2, 3), (1, 0)), ((2, 3), (0, 1)), ((2, 3, 2), (0, 2, 1)), ((2, 3, 2), (2, 0, 1)), ((2, 3, 2), (1, 2, 0)), ((2, 3, 2), None), ((1, 2, 3, 2), (0, 2, 3, 1)), ((4,), (0,)),
               ((2, 1, 3), (1, 0, 2)), ((2, 3), (0, 0)), ((2, 3), (0, 2)), ((2, 3), (0,)), ((2, 2, 2), (1, 1, 0))):
    MOVE.append((f"Transpose of {list(_s)} by {_p}", transpose(_s, _p)))


def concat(shapes_, axis):
    r = len(shapes_[0])
    ax = (axis or 0)
    ax = ax + r if ax < 0 else ax
    ok = 0 <= ax < r and all(len(s) == r and all(d == e for j, (d, e) in enumerate(zip(s, shapes_[0])) if j != ax) for s in shapes_)

    def ref(v):
        if not ok:
            return None
        to = list(shapes_[0])
        to[ax] = sum(s[ax] for s in shapes_)
        out = []
        for ix in indices(to):
            k, j = ix[ax], 0
            while k >= shapes_[j][ax]:
                k -= shapes_[j][ax]
                j += 1
            src = list(ix)
            src[ax] = k
            out.append(v[f"x{j}"][1][sum(i * q for i, q in zip(src, steps(shapes_[j])))])
        return {"y": (to, out)}
    return scenario("Concat", {f"x{j}": s for j, s in enumerate(shapes_)}, ref, {"axis": axis} if axis is not None else {})


for _s, _a in ((((2, 3), (2, 3)), 0), (((2, 3), (1, 3)), 0), (((2, 3), (2, 1)), 1), (((2, 3), (2, 1), (2, 2)), -1), (((1, 2, 2), (1, 1, 2), (1, 3, 2)), 1), (((1, 2, 2), (2, 2, 2)), -3), (((3,), (2,)), 0),
               (((2, 3), (2, 3)), 2), (((2, 3), (2, 3)), -3), (((2, 3), (2, 2)), 0), (((2, 3), (3,)), 0)):
    MOVE.append((f"Concat of {' '.join(map(str, _s))} along {_a}", concat(_s, _a)))


# ------------------------------------------------------------------------------------------------ reshaping
def reshape(shape, to, dest=None, static=None):
    """to: the shape input (None: only the described output shape is known)"""
    n = 1
    for d in shape:
        n *= d
    want = list(to if to is not None else static)
    if want.count(-1) == 1 and all(d > 0 for d in want if d != -1):
        k = 1
        for d in want:
            k *= d if d != -1 else 1
        want = [n // k if d == -1 else d for d in want] if n % k == 0 else None
    elif any(d <= 0 for d in want):
        want = None
    if want is not None:
        k = 1
        for d in want:
            k *= d
        if k != n:
            want = None
    at = {"inputs": ["x", "s"]}
    if to is not None:
        at["s"] = list(to)
    return scenario("Reshape", {"x": shape}, lambda v: None if want is None else {"y": (want, v["x"][1])}, at, shapes={"y": static} if static is not None else {})


for _s, _t, _d in (((2, 3), (3, 2), None), ((2, 3), (-1,), None), ((2, 3, 2), (2, -1), None), ((2, 3, 2), (-1, 3, 2), None), ((2, 3), (1, 6), (1, 6)), ((2, 3), None, (6,)), ((6,), None, (1, 2, 3)), ((2, 3), (4, -1), None),
                   ((2, 3), (-1, -1), None), ((2, 3), (2, 2), None), ((2, 3), (6, -2), None), ((1, 2, 3, 2), (2, -1), None)):
    MOVE.append((f"Reshape of {list(_s)} to {list(_t) if _t else _d}", reshape(_s, _t, static=_d)))


def flatten(shape, axis):
    a = 1 if axis is None else axis
    def ref(v):
        if a > len(shape):
            return None
        p = q = 1
        for d in shape[:a]:
            p *= d
        for d in shape[a:]:
            q *= d
        return {"y": ([p, q], v["x"][1])}
    return scenario("Flatten", {"x": shape}, ref, {"axis": axis} if axis is not None else {})


for _s, _a in (((2, 3, 2), None), ((2, 3, 2), 0), ((2, 3, 2), 1), ((2, 3, 2), 2), ((2, 3, 2), 3), ((2, 3, 2), 4), ((1, 2, 3, 2), None), ((4,), None), ((2, 1, 2, 3), 2)):
    MOVE.append((f"Flatten of {list(_s)} at {_a}", flatten(_s, _a)))


def axes_ok(axes, rank):
    q = [a + rank if a < 0 else a for a in axes]
    return q if all(0 <= a < rank for a in q) and len(set(q)) == len(q) else None


def squeeze(shape, axes, how):
    q = axes_ok(axes, len(shape)) if axes is not None else [i for i, d in enumerate(shape) if d == 1]
    ok = q is not None and all(shape[a] == 1 for a in q)
    to = [d for i, d in enumerate(shape) if i not in q] if ok else None
    at = {} if how == "attribute" else {"inputs": ["x", "ax"]}
    if axes is not None:
        at["axes" if how == "attribute" else "ax"] = list(axes)
    return scenario("Squeeze", {"x": shape}, lambda v: {"y": (to, v["x"][1])} if ok else None, at if axes is not None or how == "attribute" else None)


for _s, _a in (((1, 3, 1, 2), (0,)), ((1, 3, 1, 2), (2,)), ((1, 3, 1, 2), (-2, 0)), ((1, 3, 1, 2), (0, 2)), ((1, 3, 1, 2), None), ((2, 3), None), ((1, 1), None), ((1, 3), (1,)), ((1, 3), (0, -2)), ((1, 3), (2,)), ((1, 3), (-3,))):
    for _h in ("attribute", "input"):
        if _a is not None or _h == "attribute":
            MOVE.append((f"Squeeze of {list(_s)} at {_a} by {_h}", squeeze(_s, _a, _h)))


def unsqueeze(shape, axes, how):
    r = len(shape) + len(axes)
    q = axes_ok(axes, r)
    def ref(v):
        if q is None:
            return None
        it = iter(shape)
        return {"y": ([1 if i in q else next(it) for i in range(r)], v["x"][1])}
    return scenario("Unsqueeze", {"x": shape}, ref, {"axes": list(axes)} if how == "attribute" else {"inputs": ["x", "ax"], "ax": list(axes)})


for _s, _a in (((2, 3), (0,)), ((2, 3), (1,)), ((2, 3), (2,)), ((2, 3), (-1,)), ((2, 3), (0, -1)), ((2, 3), (3, 0)), ((3,), (0, 1)), ((2, 3), (3,)), ((2, 3), (-4,)), ((2, 3), (1, 1)), ((2, 3), (1, -3))):
    for _h in ("attribute", "input"):
        MOVE.append((f"Unsqueeze of {list(_s)} at {_a} by {_h}", unsqueeze(_s, _a, _h)))


def tile(shape, to):
    ok = len(shape) == len(to) and all(d and e and e % d == 0 for d, e in zip(shape, to))
    return scenario("Tile", {"x": shape}, lambda v: {"y": take(v["x"], lambda ix: [i % d for i, d in zip(ix, shape)], to)} if ok else None, {"inputs": ["x", "r"]}, shapes={"y": list(to)})


for _s, _t in (((2, 3), (2, 3)), ((2, 3), (4, 3)), ((2, 3), (2, 6)), ((2, 2), (4, 6)), ((1, 3), (3, 3)), ((3,), (6,)), ((2, 1, 2), (2, 3, 4)), ((2, 3), (3, 3)), ((2, 3), (1, 2, 3)), ((2, 3), (0, 3)), ((4, 2), (2, 2))):
    MOVE.append((f"Tile of {list(_s)} to {list(_t)}", tile(_s, _t)))


def bcast(shape, to):
    """index map of a broadcast, None when impossible"""
    k = len(to) - len(shape)
    if k < 0 or any(d != 1 and d != e for d, e in zip(shape, to[k:])):
        return None
    return lambda ix: [0 if d == 1 else i for i, d in zip(ix[k:], shape)]


def expand(shape, to, known=True):
    m = bcast(shape, to)
    kw = dict(shapes={"y": list(to)}) if known else dict(weights={"s": ([len(to)], list(to))})
    return scenario("Expand", {"x": shape}, lambda v: {"y": take(v["x"], m, to)} if m else None, {"inputs": ["x", "s"]}, **kw)


for _s, _t in (((2, 1), (2, 3)), ((1, 3), (2, 3)), ((3,), (2, 3)), ((2, 3), (2, 3)), ((1, 1), (2, 2)), ((1,), (2, 2)), ((2, 1, 2), (2, 3, 2)), ((2, 1), (1, 2, 3)), ((2, 3), (3, 3)), ((2,), (2, 3)), ((2, 3), (3,)), ((2, 3), (2, 1))):
    MOVE.append((f"Expand of {list(_s)} to {list(_t)}", expand(_s, _t)))
MOVE.append(("Expand of [2, 1] to a shape given as a tensor", expand((2, 1), (2, 3), False)))
MOVE.append(("Expand of [3] to a shape given as a tensor", expand((3,), (2, 3), False)))
MOVE.append(("Expand to a negative size", scenario("Expand", {"x": (1,)}, lambda v: None, {"inputs": ["x", "s"]}, weights={"s": ([1], [-1])})))


def sliced(shape, starts, ends, axes=None, steps_=None, to=None, how="weights"):
    r = len(shape)
    ax = list(axes) if axes is not None else list(range(len(starts)))
    st = list(steps_) if steps_ is not None else [1] * len(starts)
    rng = [range(d) for d in shape]
    ok = True
    for a, s, e, k in zip(ax, starts, ends, st):
        if not -r <= a < r or k == 0:
            ok = False
            break
        d = shape[a]
        rng[a] = range(d)[slice(s, e, k)] if k > 0 else range(d)[slice(s, None if e < -d else e, k)]
    want = [len(x) for x in rng]
    desc = list(to if to is not None else want)
    if ok and desc != want:
        ok = False
    given = {"inputs": ["x", "st", "en"] + (["ax"] if axes is not None else [""] if steps_ is not None else []) + (["sp"] if steps_ is not None else [])}
    vals = {"st": list(starts), "en": list(ends)}
    if axes is not None:
        vals["ax"] = list(axes)
    if steps_ is not None:
        vals["sp"] = list(steps_)
    kw = {}
    if how == "attributes":
        given.update(vals)
    else:
        kw = {"weights" if how == "weights" else "consts": {k: ([len(x)], x) for k, x in vals.items()}}
    return scenario("Slice", {"x": shape}, lambda v: {"y": take(v["x"], lambda ix: [q[i] for i, q in zip(ix, rng)], want)} if ok else None, given, shapes={"y": desc}, **kw)


for _h in ("weights", "consts", "attributes"):
    MOVE.append((f"Slice with {_h}", sliced((3, 4), (1, 0), (3, 3), (0, 1), (1, 2), how=_h)))
for _n, _x in (("the first rows", dict(shape=(3, 4), starts=(0,), ends=(2,))), ("a negative start", dict(shape=(3, 4), starts=(-2,), ends=(3,), axes=(1,))), ("a negative end", dict(shape=(3, 4), starts=(0,), ends=(-1,), axes=(1,))),
               ("an end beyond", dict(shape=(3, 4), starts=(1,), ends=((1 << 63) - 1,), axes=(0,))), ("a start far before", dict(shape=(3, 4), starts=(-(1 << 62),), ends=(2,), axes=(1,))), ("a negative axis", dict(shape=(3, 4), starts=(1,), ends=(4,), axes=(-1,))),
               ("every second", dict(shape=(2, 5), starts=(0,), ends=(5,), axes=(1,), steps_=(2,))), ("every second from one", dict(shape=(2, 5), starts=(1,), ends=(5,), axes=(1,), steps_=(2,))), ("every third", dict(shape=(2, 5), starts=(1,), ends=(5,), axes=(1,), steps_=(3,))),
               ("two axes in any order", dict(shape=(2, 3, 4), starts=(1, 1), ends=(4, 2), axes=(2, 0))), ("backwards", dict(shape=(2, 4), starts=(3,), ends=(0,), axes=(1,), steps_=(-1,))), ("backwards by two", dict(shape=(2, 5), starts=(4,), ends=(1,), axes=(1,), steps_=(-2,))),
               ("backwards with a negative start", dict(shape=(2, 4), starts=(-1,), ends=(1,), axes=(1,), steps_=(-1,))), ("steps without axes", dict(shape=(4, 3), starts=(0, 0), ends=(4, 3), steps_=(2, 1))), ("all of it", dict(shape=(2, 2), starts=(0,), ends=(2,))),
               ("a zero step", dict(shape=(2, 4), starts=(0,), ends=(4,), axes=(1,), steps_=(0,))), ("an axis beyond", dict(shape=(2, 4), starts=(0,), ends=(4,), axes=(2,))), ("an axis before", dict(shape=(2, 4), starts=(0,), ends=(4,), axes=(-3,))),
               ("a length that differs from the described one", dict(shape=(2, 4), starts=(0,), ends=(3,), axes=(1,), to=(2, 4))), ("a shorter described length", dict(shape=(2, 4), starts=(0,), ends=(3,), axes=(1,), to=(2, 2)))):
    MOVE.append((f"Slice: {_n}", sliced(**_x)))


def split(shape, axis, lens):
    r = len(shape)
    a = axis or 0
    ok = -r <= a < r
    a = a + r if a < 0 else a
    shapes_, off = {}, []
    for j, n in enumerate(lens):
        s = list(shape)
        if ok:
            s[a] = n
        shapes_[f"y{j}"] = s
        off.append(sum(lens[:j]))
    ok = ok and sum(lens) == shape[a]

    def ref(v):
        return {f"y{j}": take(v["x"], lambda ix: [i + (off[j] if q == a else 0) for q, i in enumerate(ix)], shapes_[f"y{j}"]) for j in range(len(lens))} if ok else None
    return scenario("Split", {"x": shape}, ref, {"axis": axis} if axis is not None else {}, shapes=shapes_, outs=[f"y{j}" for j in range(len(lens))])


for _s, _a, _l in (((4, 2), None, (2, 2)), ((4, 2), 0, (1, 3)), ((2, 4), 1, (2, 2)), ((2, 4), -1, (1, 2, 1)), ((2, 3, 2), 1, (1, 1, 1)), ((2, 3, 2), -2, (2, 1)), ((2, 3, 2), -3, (1, 1)), ((3,), 0, (3,)), ((2, 4), 2, (2, 2)), ((2, 4), -3, (2, 2))):
    MOVE.append((f"Split of {list(_s)} along {_a} into {list(_l)}", split(_s, _a, _l)))


def gather(shape, axis, ishape, idx):
    r = len(shape)
    a = axis or 0
    ok = -r <= a < r
    a = a + r if a < 0 else a
    ok = ok and all(-shape[a] <= i < shape[a] for i in idx)
    to = list(shape[:a]) + list(ishape) + list(shape[a + 1:])

    def ref(v):
        if not ok:
            return None
        def at(ix):
            mid = ix[a:a + len(ishape)]
            k = idx[sum(i * q for i, q in zip(mid, steps(ishape)))]
            return list(ix[:a]) + [k % shape[a]] + list(ix[a + len(ishape):])
        return {"y": take(v["x"], at, to)}
    return scenario("Gather", {"x": shape}, ref, {"axis": axis} if axis is not None else {}, weights={"i": (list(ishape), list(idx))}, shapes={"y": to})


for _s, _a, _q, _i in (((3, 2), None, (2,), (2, 0)), ((3, 2), 0, (3,), (1, 1, 0)), ((2, 3), 1, (2,), (2, 0)), ((2, 3), -1, (2,), (-1, 0)), ((3, 2), 0, (2, 2), (0, 2, 1, 1)), ((2, 3, 2), 1, (), (1,)), ((2, 3, 2), 1, (2,), (-3, 2)), ((2, 3, 2), 2, (2, 1), (1, 0)), ((4,), 0, (), (-2,)),
                       ((3, 2), 0, (1,), (3,)), ((3, 2), 0, (1,), (-4,)), ((2, 3, 2), -2, (2,), (0, 2))):
    MOVE.append((f"Gather from {list(_s)} along {_a} of {list(_i)} as {list(_q)}", gather(_s, _a, _q, _i)))


def pad(shape, pads, to=None, mode=None, cv=None, how="input", ok=True):
    r = len(shape)
    ok = ok and len(pads) == 2 * r and all(p >= 0 for p in pads) and mode in (None, "constant") and not cv
    want = [d + pads[i] + pads[i + r] for i, d in enumerate(shape)] if len(pads) == 2 * r else list(shape)

    def at(ix):
        src = [i - p for i, p in zip(ix, pads)]
        return src if all(0 <= s < d for s, d in zip(src, shape)) else None
    ps = {"inputs": ["x"]}
    kw = {}
    if mode is not None:
        ps["mode"] = mode
    if how == "attribute":
        ps["pads"] = list(pads)
    else:
        ps["inputs"] += ["p"]
        if how == "input":
            kw["weights"] = {"p": ([len(pads)], list(pads))}
        else:
            ps["p"] = list(pads)
    if cv is not None:
        ps["inputs"] += ["c"]
        kw.setdefault("weights", {})["c"] = ([1], [cv])
    return scenario("Pad", {"x": shape}, lambda v: {"y": take(v["x"], at, want)} if ok else None, ps, shapes={"y": to or [max(d, 1) for d in want]}, **kw)


for _s, _p in (((2, 3), (0, 1, 0, 2)), ((2, 3), (1, 0, 0, 0)), ((2, 2), (1, 1, 1, 1)), ((3,), (2, 1)), ((1, 2, 2), (0, 1, 0, 0, 0, 2)), ((2, 3), (0, 0, 0, 0))):
    for _h in ("input", "attribute", "described"):
        MOVE.append((f"Pad of {list(_s)} by {list(_p)} as {_h}", pad(_s, _p, how=_h)))
MOVE.append(("Pad with a constant mode", pad((2, 2), (1, 0, 0, 1), mode="constant", how="attribute")))
MOVE.append(("Pad with a zero value", pad((2, 2), (1, 0, 0, 1), cv=0)))
MOVE.append(("Pad by reflection", pad((2, 2), (1, 0, 0, 1), mode="reflect", how="attribute")))
MOVE.append(("Pad by edge values", pad((2, 2), (1, 0, 0, 1), mode="edge")))
MOVE.append(("Pad with another value", pad((2, 2), (1, 0, 0, 1), cv=3)))
MOVE.append(("Pad that crops", pad((3, 3), (1, 0, -1, 1))))
MOVE.append(("Pad with too few amounts", pad((3, 3), (1, 1))))


# ------------------------------------------------------------------------------------------------ copies
MOVE.append(("Identity", scenario("Identity", {"x": (2, 3)}, lambda v: {"y": ([2, 3], v["x"][1])}, {})))
for _t in (1, 6, 7, 10, 11):
    MOVE.append((f"Cast to type {_t}", scenario("Cast", {"x": (2, 2)}, lambda v: {"y": ([2, 2], v["x"][1])}, {"to": _t}, shapes={"y": [2, 2]})))
for _t in (0, 8, 14, 15):
    MOVE.append((f"Cast to type {_t}", scenario("Cast", {"x": (2, 2)}, lambda v: None, {"to": _t}, shapes={"y": [2, 2]})))
