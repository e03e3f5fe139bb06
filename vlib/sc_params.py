"""The per-layer parameters handed to consumers of the graph, against the layer they are read from."""
from terms import *
from onnxscen import *
from scrun import obligations
import sc_quant

PARAMS = []
L = "layer_params::"


def opt(x):
    return NONE if x is None else Some(S(x))


def decided(s, v):
    """(state, value) with the truth of trans_b decided"""
    fs = v.a[0]
    for i, x in enumerate(fs):
        if x.op in ("not", "eq0", "ge0", "and", "or"):
            for c, b in ((x, 1), (bnot(x), 0)):
                s2 = s.copy()
                if s2.assume(c):
                    yield s2, mk("tuple", fs[:i] + (I(b),) + fs[i + 1:])
            return
    yield s, v


def pj(label, ty, build):
    """build(m) -> (extra arguments, spec(k) -> {field: term} | ERR | ANY); the layer is the model's last node"""
    def f(M):
        m = Model(M)
        args, spec = build(m)
        if not m.outputs:
            m.output(m.out)
        res, raw = build_graph(m)
        raw, out = list(raw), []
        for s, r in res:
            if r[0] == "err":
                out.append((None, "graph construction refuses the model"))
                continue
            ly = [l for l in clist(M.field(r[1], "graph::LayerGraph", "layers")) if M.field(l, "graph::LayerNode", "name") is S("L")]
            if len(ly) != 1:
                raise Giveup("layer not found")
            o, I1 = M.call(L + ty + "::from_layer", s, [mk("vref", ly[0])] + args)
            raw += I1.raw
            for s2, v in o:
                v = I1.freeze(s2, v)
                if v.a[2] == "Err":
                    gots = [(s2, ("err",))]
                else:
                    gots = [(a, ("ok", b)) for a, b in decided(s2, deep(M, mk("tuple", tuple(M.field(v.a[3][0], L + ty, n) for n in FIELDS[ty]))))]

                def sp(k):
                    w = spec(k)
                    return ("ok", deep(M, mk("tuple", tuple(w[n] for n in FIELDS[ty])))) if isinstance(w, dict) else w
                out += [compare(m.dom, a, b, sp) for a, b in gots]
        return out + obligations(m, raw)
    PARAMS.append((f"{ty}: {label}", f))


FIELDS = {"GemmParams": "input_name weight_tensor_name bias_tensor_name trans_b k_dim n_dim w_rows w_cols".split(),
          "ConvParams": ("input_name weight_tensor_name bias_tensor_name c_out c_in kh kw pad_top pad_left pad_bottom pad_right stride_h stride_w out_h out_w patch_size "
                         "num_patches").split(),
          "MaxPoolParams": "input_name pool_h pool_w stride_h stride_w pool_oh pool_ow window_size".split(),
          "BatchNormParams": "input_name mul_tensor_name add_tensor_name".split(), "AddSubParams": "input_a_name input_b_name".split()}


def node(m, op, inputs, weights, outs=("y",), **at):
    m.input("x", [1, 3])
    for n, d in weights:
        m.init(n, d, floats=[m.flt("v_" + n)] if n else [])
    for i in inputs:
        if i and i != "x" and i not in [n for n, _ in weights]:
            m.input(i, [1, 3])
    m.node(op, list(inputs), list(outs), name="L", **at)
    m.out = outs[0]


# ------------------------------------------------------------------------------------------------ Gemm
def gemm(label, inputs=("x", "w", "b"), weights=("w", "b"), rank=2, ta=None, tb=None, alpha=None, beta=None):
    def build(m):
        d = [m.dim(f"d{i}", 0, 4096) for i in range(rank)]
        at = {}
        for n, v in (("transA", ta), ("transB", tb)):
            if v is not None:
                at[n] = m.sint(n, -1, 2) if v == "sym" else v
        for n, v in (("alpha", alpha), ("beta", beta)):
            if v is not None:
                at[n] = ("float", v if isinstance(v, T) else fc(v))
        node(m, "Gemm", inputs, [(n, d if n == "w" else [d[-1] if d else 1]) for n in weights], **at)

        def spec(k):
            if len(inputs) < 2 or inputs[1] not in weights or rank != 2:
                return ERR
            if at.get("transA") is not None and not k.eq(tt(at["transA"]), I(0)):
                return ERR
            bias = inputs[2] if len(inputs) > 2 and inputs[2] else None
            if alpha not in (None, 1.0):
                return ERR
            if beta not in (None, 1.0):
                return ERR if bias else ANY
            t = at.get("transB") is not None and not k.eq(tt(at["transB"]), I(0))
            return {"input_name": S(inputs[0]), "weight_tensor_name": S(inputs[1]), "bias_tensor_name": opt(bias), "trans_b": I(1 if t else 0),
                    "k_dim": d[1] if t else d[0], "n_dim": d[0] if t else d[1], "w_rows": d[0], "w_cols": d[1]}
        return [], spec
    pj(label, "GemmParams", build)


for t in (None, 0, 1, "sym"):
    gemm(f"transB {t}", tb=t)
gemm("transA and transB", ta="sym", tb="sym")
for r in (0, 1, 3, 4):
    gemm(f"a weight of rank {r}", rank=r)
gemm("no bias", ("x", "w"), ("w",), tb="sym")
gemm("an omitted bias", ("x", "w", ""), ("w",))
gemm("a computed bias", ("x", "w", "b"), ("w",), tb="sym")
gemm("a computed weight", ("x", "w", "b"), ("b",))
gemm("the weight first", ("w", "x", "b"), ("w", "b"))
gemm("one input", ("x",), ())
gemm("no inputs", (), ())
gemm("unit factors", alpha=1.0, beta=1.0, tb="sym")
for v in (0.5, 2.0, 0.0, -1.0):
    gemm(f"alpha {v}", alpha=v)
    gemm(f"beta {v}", beta=v)
    gemm(f"beta {v} without a bias", ("x", "w"), ("w",), beta=v)


# ------------------------------------------------------------------------------------------------ Conv
def conv(label, inputs=("x", "w", "b"), weights=("w", "b"), rank=4, ch="sym", group=None, pads=None, strides=None, dil=None, auto=None, ks=None, kmin=1, big=False):
    def build(m):
        co, ci = m.dim("co", 1, 512), m.dim("ci", 1, 512)
        kk = [m.dim(f"k{i}", kmin, 12) for i in range(max(rank - 2, 0))]
        wd = ([co, ci] + kk)[:rank]
        ic = m.dom.int("ic", 1, 512, m.st) if ch == "sym" else None
        ih, iw = m.dom.int("ih", 1, 512, m.st), m.dom.int("iw", 1, 512, m.st)
        at = {}
        if group is not None:
            at["group"] = m.sint("group", -2, 4) if group == "sym" else group
        if pads is not None:
            at["pads"] = [m.sint(f"p{i}", -2, 6) if e == "sym" else I(e) for i, e in enumerate(pads)]
        if strides is not None:
            at["strides"] = [m.sint(f"s{i}", -2, 6) if e == "sym" else I(e) for i, e in enumerate(strides)]
        if dil is not None:
            at["dilations"] = [m.sint(f"d{i}", 0, 4) if e == "sym" else I(e) for i, e in enumerate(dil)]
        if auto is not None:
            at["auto_pad"] = auto
        if ks:
            at["kernel_shape"] = kk
        node(m, "Conv", inputs, [(n, wd if n == "w" else [co]) for n in weights], **at)
        if ic is None:
            ic = ci

        def spec(k):
            if len(inputs) < 2 or inputs[1] not in weights or rank != 4:
                return ERR
            if group is not None and not k.eq(tt(at["group"]), I(1)):
                return ERR
            if not k.eq(ic, ci):
                return ERR
            p = at.get("pads", [I(0)] * 4)
            if len(p) != 4 and len(p) != 0:
                return ANY
            p = p or [I(0)] * 4
            if any(k.lt(e, I(0)) for e in p):
                return ERR
            s = at.get("strides", [I(1)] * 2)
            if len(s) != 2:
                return ANY
            if any(k.le(e, I(0)) for e in s):
                return ERR
            if auto in ("SAME_UPPER", "SAME_LOWER"):
                return ERR
            d = at.get("dilations", [])
            if any(not k.eq(e, I(1)) for e in d):
                return ANY if any(k.le(e, I(0)) for e in d) or not any(not k.eq(e, I(1)) and k.lt(I(1), x) for e, x in zip(d, kk)) else ERR
            out = []
            for x, k_, s_, b, e in ((ih, kk[0], s[0], p[0], p[2]), (iw, kk[1], s[1], p[1], p[3])):
                n = add(add(x, b), e)
                if k.lt(n, k_):
                    return ERR
                out.append(add(div(sub(n, k_), s_), I(1)))
            return {"input_name": S(inputs[0]), "weight_tensor_name": S(inputs[1]), "bias_tensor_name": opt(inputs[2] if len(inputs) > 2 and inputs[2] else None),
                    "c_out": co, "c_in": ci, "kh": kk[0], "kw": kk[1], "pad_top": p[0], "pad_left": p[1], "pad_bottom": p[2], "pad_right": p[3],
                    "stride_h": s[0], "stride_w": s[1], "out_h": out[0], "out_w": out[1], "patch_size": mul(mul(ci, kk[0]), kk[1]), "num_patches": mul(out[0], out[1])}
        return [ic, ih, iw], spec
    pj(label, "ConvParams", build)


conv("plain")
conv("kernel_shape", ks=True)
conv("no bias", ("x", "w"), ("w",))
conv("an omitted bias", ("x", "w", ""), ("w",))
conv("a computed bias", ("x", "w", "b"), ("w",))
conv("a computed weight", ("x", "w", "b"), ("b",))
conv("the weight first", ("w", "x", "b"), ("w", "b"))
conv("one input", ("x",), ())
conv("no inputs", (), ())
for r in (0, 2, 3, 5):
    conv(f"a weight of rank {r}", rank=r)
conv("groups", group="sym")
conv("one group", group=1, pads=["sym"] * 4)
conv("pads", pads=["sym"] * 4)
conv("pads at the start", pads=["sym", "sym", 0, 0])
conv("pads at the end", pads=[0, 0, "sym", "sym"])
conv("no pad entries", pads=[])
conv("strides", strides=["sym"] * 2)
conv("strides and pads", strides=["sym"] * 2, pads=["sym"] * 4)
for i in range(2):
    e = [1, 1]
    e[i] = "sym"
    conv(f"stride of dimension {i}", strides=e)
    conv(f"dilation of dimension {i}", dil=e)
for i in range(4):
    e = [0, 1, 2, 3]
    e[i] = "sym"
    conv(f"pad {i}", pads=e, strides=[2, 3])
conv("dilations", dil=["sym"] * 2)
conv("unit dilations", dil=[1, 1], strides=[2, 2], pads=[1, 1, 1, 1])
for a in ("NOTSET", "SAME_UPPER", "SAME_LOWER"):
    conv(f"auto_pad {a}", auto=a, pads=None if a != "NOTSET" else ["sym"] * 4, strides=["sym", 2])
conv("auto_pad VALID", auto="VALID", strides=["sym", 2])


# ------------------------------------------------------------------------------------------------ MaxPool
def pool(label, inputs=("x",), ks=("sym", "sym"), pads=None, strides=None, dil=None, auto=None, ceil=None, so=None):
    def build(m):
        ih, iw = m.dom.int("ih", 0, 512, m.st), m.dom.int("iw", 0, 512, m.st)
        at = {}
        if ks is not None:
            at["kernel_shape"] = [m.sint(f"k{i}", -1, 12) if e == "sym" else I(e) for i, e in enumerate(ks)]
        if pads is not None:
            at["pads"] = [m.sint(f"p{i}", 0, 4) if e == "sym" else I(e) for i, e in enumerate(pads)]
        if strides is not None:
            at["strides"] = [m.sint(f"s{i}", -2, 6) if e == "sym" else I(e) for i, e in enumerate(strides)]
        if dil is not None:
            at["dilations"] = [m.sint(f"d{i}", 0, 4) if e == "sym" else I(e) for i, e in enumerate(dil)]
        if auto is not None:
            at["auto_pad"] = auto
        if ceil is not None:
            at["ceil_mode"] = m.sint("ceil", 0, 1) if ceil == "sym" else ceil
        if so is not None:
            at["storage_order"] = so
        node(m, "MaxPool", inputs, [], **at)

        def spec(k):
            if not inputs or ks is None or len(ks) != 2:
                return ERR
            kk = at["kernel_shape"]
            if any(k.le(e, I(0)) for e in kk):
                return ERR
            s = at.get("strides", [I(1)] * 2)
            if len(s) != 2:
                return ANY
            if any(k.le(e, I(0)) for e in s) or any(not k.eq(e, I(0)) for e in at.get("pads", [])):
                return ERR
            if auto in ("SAME_UPPER", "SAME_LOWER"):
                return ERR
            if ceil is not None and not k.eq(tt(at["ceil_mode"]), I(0)):
                return ERR
            d = at.get("dilations", [])
            if any(not k.eq(e, I(1)) for e in d):
                return ANY if any(k.le(e, I(0)) for e in d) or not any(not k.eq(e, I(1)) and k.lt(I(1), x) for e, x in zip(d, kk)) else ERR
            out = []
            for x, k_, s_ in ((ih, kk[0], s[0]), (iw, kk[1], s[1])):
                if k.lt(x, k_):
                    return ERR
                out.append(add(div(sub(x, k_), s_), I(1)))
            return {"input_name": S(inputs[0]), "pool_h": kk[0], "pool_w": kk[1], "stride_h": s[0], "stride_w": s[1], "pool_oh": out[0], "pool_ow": out[1],
                    "window_size": mul(kk[0], kk[1])}
        return [ih, iw], spec
    pj(label, "MaxPoolParams", build)


pool("plain")
pool("no inputs", ())
pool("no kernel_shape", ks=None)
for n in (0, 1, 3):
    pool(f"a kernel of rank {n}", ks=("sym",) * n)
pool("strides", strides=["sym"] * 2)
pool("stride of dimension 0", strides=["sym", 1])
pool("stride of dimension 1", strides=[1, "sym"])
pool("pads", pads=["sym"] * 4, strides=[2, 2])
for i in range(4):
    e = [0] * 4
    e[i] = "sym"
    pool(f"pad {i}", pads=e, strides=[2, 3])
pool("no pad entries", pads=[])
pool("dilations", dil=["sym"] * 2)
pool("dilation of dimension 0", dil=["sym", 1])
pool("dilation of dimension 1", dil=[1, "sym"], strides=[2, 2])
pool("unit dilations", dil=[1, 1], strides=["sym", 2])
pool("ceil_mode", ceil="sym", strides=["sym", 2])
pool("storage_order", so=0, strides=[3, "sym"])
for a in ("NOTSET", "SAME_UPPER", "SAME_LOWER", "VALID"):
    pool(f"auto_pad {a}", auto=a, strides=["sym", 2])


# ------------------------------------------------------------------------------------------------ the other layers
def named(label, ty, op, inputs, fields, bad=False, weights=()):
    def build(m):
        node(m, op, inputs, [(w, [3]) for w in weights])
        return [], lambda k: ERR if bad else {f: S(i) for f, i in zip(FIELDS[ty], inputs)}
    pj(label, ty, build)


named("a folded normalisation", "BatchNormParams", "BatchNormalization", ("x", "mul", "plus"), 3, weights=("mul", "plus"))
for n in range(3):
    named(f"{n} inputs", "BatchNormParams", "BatchNormalization", ("x", "mul")[:n], 3, True)
named("a normalisation that is not folded", "BatchNormParams", "BatchNormalization", ("x", "s", "b", "mean", "var"), 3, True, ("s", "b", "mean", "var"))
for op in ("Add", "Sub"):
    named(f"{op} of two tensors", "AddSubParams", op, ("x", "z"), 2)
    named(f"{op} of a weight and a tensor", "AddSubParams", op, ("w", "x"), 2, weights=("w",))
    named(f"{op} of a tensor and a weight", "AddSubParams", op, ("x", "w"), 2, weights=("w",))
    named(f"{op} of a tensor with itself", "AddSubParams", op, ("x", "x"), 2)
    for n in range(2):
        named(f"{op} with {n} inputs", "AddSubParams", op, ("x",)[:n], 2, True)
