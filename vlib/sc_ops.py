"""Operator names, aliases, arithmetic classes, scale plans and the compatibility check."""
from terms import *
from onnxscen import *
from scrun import judge, obligations
import sc_parse
from sc_parse import PROTO, Proto, io_models, flags, opt

OPS, COMPAT, BIAS = [], [], []
STD = ("Add Div Sub Mul Gemm Conv Relu MaxPool BatchNormalization Max Min Cast Clip Exp Reshape Flatten Squeeze Unsqueeze Constant Softmax Sigmoid Gelu Tile Gather "
       "LayerNormalization Resize GridSample Transpose Concat Slice TopK Shape Log Expand ReduceMean MatMul AveragePool Pad Split Where Pow Sqrt Tanh ReduceSum Erf "
       "ConvTranspose LeakyRelu Identity Neg HardSwish GlobalAveragePool InstanceNormalization GroupNormalization Not And Equal Greater Less ConstantOfShape Sin Cos "
       "Range ReduceMax ScatterND GatherElements").split()
ALIAS = {"Int64Gemm": "Gemm", "Int64Conv": "Conv", "ReLU": "Relu", "Int64Relu": "Relu", "Int64MaxPool": "MaxPool", "Int64BatchNormalization": "BatchNormalization",
         "Int64Max": "Max", "Int64Min": "Min", "Int64Clip": "Clip", "LeakyReLU": "LeakyRelu", "Hardswish": "HardSwish"}
RESCALE = {"Gemm", "Conv", "BatchNormalization", "Mul", "MatMul", "ConvTranspose"}
SHAPEONLY = {"Reshape", "Flatten", "Squeeze", "Unsqueeze"}
TWO = {1: 1, 2: 2}
PLAN = {"Conv": TWO, "Gemm": TWO, "BatchNormalization": TWO, "LayerNormalization": TWO, "ConvTranspose": TWO, "GridSample": {1: 1}, "MatMul": {1: 1}}
# reported as supported by the compatibility check
LISTED = ("Add Cast Clip BatchNormalization Div Sub Mul Constant Flatten Gemm MaxPool Max Min Relu Reshape Conv Squeeze Unsqueeze Exp Softmax Sigmoid Gelu Tile Gather "
          "LayerNormalization Resize GridSample Transpose Concat Slice Shape Expand MatMul AveragePool Pad Split Where Pow Sqrt Tanh ReduceSum Erf ConvTranspose Log "
          "ReduceMean TopK").split()


def sc(label, l):
    def d(f):
        l.append((label, f))
        return f
    return d


def strings_in(M, path):
    """string constants of a function body (and of its closures)"""
    out = set()

    def walk(x):
        if isinstance(x, dict):
            if isinstance(x.get("str"), str):
                out.add(x["str"])
            for y in x.values():
                walk(y)
        elif isinstance(x, list):
            for y in x:
                walk(y)
    for (c, p), f in M.prog.fns.items():
        if c == CRATE and (p == path or p.startswith(path + "::")):
            walk(f)
    return out


def enum(M, name, ty="graph::OpType"):
    a = M.prog.adts.get((M.crate, ty))
    for vi, v in enumerate(a["variants"]):
        if v["name"] == name:
            return adt(ty, vi, name, ())
    raise Giveup(f"no operator {name}")


def build_one(M, opname):
    m = Model(M)
    m.input("x", [3])
    m.output("y")
    m.node(opname, ["x"], ["y"])
    return m, *build_graph(m)


def name_job(nm):
    def f(M):
        m, res, raw = build_one(M, nm)
        std = ALIAS.get(nm, nm)

        def proj(g):
            l = clist(M.field(g, "graph::LayerGraph", "layers"))[0]
            return mk("tuple", (S(M.field(l, "graph::LayerNode", "op_type").a[2]), M.field(l, "graph::LayerNode", "needs_rescale")))
        return judge(m, res, raw, lambda k: ("ok", mk("tuple", (S(std), I(1 if std in RESCALE else 0)))), proj)
    return f


for n in STD + sorted(ALIAS):
    OPS.append((f"the name {n}", name_job(n)))


@sc("every other name is refused", OPS)
def _(M):
    known = set(STD) | set(ALIAS)
    m = Model(M)
    extra = sorted((strings_in(M, "graph::OpType::from_str") | {"", "conv", "CONV", "Conv ", " Conv", "Con", "Convolution", "LSTM", "Int64Add", "Int64Mul", "ReduceMin", "GELU",
                                                                 "Einsum", "Round", "Or", "Xor", "GreaterOrEqual", "Mod", "Abs", "ArgMax", "Ceil", "Unsupported"}) - known)
    op = m.name("op", extra)
    m.input("x", [3])
    m.output("y")
    m.node(op, ["x"], ["y"])
    res, raw = build_graph(m)
    return judge(m, res, raw, lambda k: ERR, lambda g: mk("tuple", (op,)))


def plan_job(nm):
    def f(M):
        outs, I1 = M.call("ops::get_scale_plan", State(), [enum(M, nm)])
        r = []
        for s, v in outs:
            ps = pairs(I1.freeze(s, v))
            got = {a.a[0]: b.a[0] for a, b in ps if a.op == "int" and b.op == "int"}
            r.append((True, "") if len(got) == len(ps) and got == PLAN.get(nm, {}) else (False, f"scale plan of {nm} is {got}, not {PLAN.get(nm, {})}"))
        return r
    return f


for n in STD:
    OPS.append((f"scale plan of {n}", plan_job(n)))


@sc("operators that only rearrange elements", OPS)
def _(M):
    r = []
    for n in STD:
        outs, I1 = M.call("graph::OpType::is_shape_only", State(), [mk("vref", enum(M, n))])
        for s, v in outs:
            r.append((True, "") if v.op == "int" and bool(v.a[0]) == (n in SHAPEONLY) else (False if v.op == "int" else None, f"is_shape_only({n}) = {show(v)}"))
    return r


@sc("there is a variant for every operator and no other", OPS)
def _(M):
    a = M.prog.adts.get((M.crate, "graph::OpType"))
    have = {v["name"] for v in a["variants"]}
    return [(have >= set(STD), f"variants missing: {sorted(set(STD) - have)}")]


# ------------------------------------------------------------------------------------------------ compat
def compat(M, m, model):
    outs, I1 = M.call("compat::is_compatible", m.st, [mk("vref", mk("path", "in"))], io_models(model, m))
    return [(s, ("err",) if v.a[2] == "Err" else ("ok", deep(M, I1.freeze(s, v.a[3][0])))) for s, v in outs], I1.raw


def verdict(ok, *names):
    return ("ok", mk("tuple", (I(1 if ok else 0), mkseq([n if isinstance(n, T) else S(n) for n in names]))))


def flagged(m, res, raw, spec):
    out = []
    for s, r in res:
        fl = flags(s)
        sp = (lambda k: verdict(False, "FILE_NOT_FOUND")) if "absent" in fl else (lambda k: ERR) if "readerr" in fl else \
            (lambda k: verdict(False, "LOAD_ERROR")) if "decerr" in fl else spec
        out.append(compare(m.dom, s, r, sp))
    return out + obligations(m, raw)


@sc("a model without a graph", COMPAT)
def _(M):
    m = Model(M)
    res, raw = compat(M, m, Proto(m).model(None))
    return flagged(m, res, raw, lambda k: verdict(False, "LOAD_ERROR"))


@sc("a model of supported operators is compatible", COMPAT)
def _(M):
    m = Model(M)
    P = Proto(m)
    nodes = [P.node(n, ["x"], [f"y{i}"]) for i, n in enumerate(LISTED)]
    res, raw = compat(M, m, P.model(P.graph(nodes)))
    return flagged(m, res, raw, lambda k: verdict(True))


@sc("an operator reported as compatible is one the graph builder accepts", COMPAT)
def _(M):
    m = Model(M)
    P = Proto(m)
    tab = sorted((strings_in(M, "compat::SUPPORTED_OPS") | strings_in(M, "compat::is_compatible") | set(STD) | set(ALIAS) | {"LSTM", "conv", "FILE_NOT_FOUND"}) - {""})
    out = []
    for n in tab:
        m = Model(M)
        res, raw = compat(M, m, P.model(P.graph([P.node(n, ["x"], ["y"])])))
        known = n in STD or n in ALIAS
        for s, r in res:
            if flags(s):
                continue
            if r == verdict(True):
                out.append((known, f"{n} is reported as compatible but cannot be built"))
            else:
                out.append((n not in LISTED and r == verdict(False, n), f"{n}: {show(r[1]) if r[0] == 'ok' else 'error'}"))
        out += obligations(m, raw)
    return out


@sc("unsupported operators are reported once each, in order, whatever else the model contains", COMPAT)
def _(M):
    m = Model(M)
    P = Proto(m)
    tab = ("Relu", "LSTM", "Einsum", "")
    ops = [m.name(f"op{i}", tab) for i in range(3)]
    nodes = [P.node("Conv", ["x", "w"], ["a"])] + [P.node(o, ["x"], [f"y{i}"]) for i, o in enumerate(ops)] + [P.node(None, [], ["z"]), P.node("Add", ["x", "x"], ["q"])]
    res, raw = compat(M, m, P.model(P.graph(nodes)))

    def spec(k):
        un = []
        for o in ops:
            for n in ("LSTM", "Einsum"):
                if n not in un and k.when(ssel_eq(o, S(n))):
                    un.append(n)
        return verdict(not un, *un)
    return flagged(m, res, raw, spec)


@sc("several unsupported operators, repeated and interleaved, are reported in order of appearance", COMPAT)
def _(M):
    m = Model(M)
    P = Proto(m)
    seq_ = ["Mod", "Relu", "Einsum", "Mod", "Abs", "", "Conv", "abs", "Einsum", "LSTM", "Mod", "Relu6", "Abs"]
    nodes = [P.node(o, ["x"], [f"y{i}"]) for i, o in enumerate(seq_)]
    res, raw = compat(M, m, P.model(P.graph(nodes)))
    return flagged(m, res, raw, lambda k: verdict(False, "Mod", "Einsum", "Abs", "abs", "LSTM", "Relu6"))


# adding biases -----------------------------------------------------------------------------------
def addbias(M, m, model):
    outs, I1 = M.call("compat::add_zero_bias_to_conv", m.st, [mk("vref", mk("path", "in")), mk("vref", mk("path", "out"))], io_models(model, m))
    res = []
    for s, v in outs:
        w = s.env.get(("written",))
        if v.a[2] == "Err":
            res.append((s, ("err",)))
            continue
        res.append((s, ("ok", w, s.env.get(("writtento",)))))
    return res, I1.raw


def bias_tensor(P, name, n, dt, size):
    """the tensor add_zero_bias_to_conv adds"""
    return P.mk("TensorProto", name=Some(S(name)), dims=seq([n]), data_type=Some(I(dt)), raw_data=Some(mkseq([I(0)] * (n * size))))


def difference(x, y, path=""):
    if x.op == y.op == "adt" and x.a[2] == y.a[2] and len(x.a[3]) == len(y.a[3]):
        ps = list(zip(x.a[3], y.a[3]))
        path += "/" + x.a[2]
    elif x.op in ("arr", "tuple") and x.op == y.op and len(x.a[0]) == len(y.a[0]):
        ps = list(zip(x.a[0], y.a[0]))
    else:
        return f"{path}: {show(x)[:120]} instead of {show(y)[:120]}" if x is not y else ""
    for p, q in ps:
        d = difference(p, q, path)
        if d:
            return d
    return ""


def unname(M, md, orig):
    """added initializers and their uses under canonical names, with zero contents in one form; None when a name is not fresh"""
    gp, np_, tp = PROTO + "GraphProto", PROTO + "NodeProto", PROTO + "TensorProto"
    g = M.field(md, PROTO + "ModelProto", "graph").a[3][0]
    inits = clist(M.field(g, gp, "initializer"))
    n0 = len(clist(M.field(M.field(orig, PROTO + "ModelProto", "graph").a[3][0], gp, "initializer")))
    used = {x.a[0] for x in subterms(orig) if x.op == "str"}
    new, ren = [], {}
    for i, t in enumerate(inits[n0:]):
        nm = M.field(t, tp, "name")
        nm = nm.a[3][0] if nm.a[2] == "Some" else None
        if nm is None or nm.op != "str" or nm.a[0] in used:
            return None, f"the added initializer is named {show(nm) if nm is not None else 'nothing'}, which is not a fresh name"
        used.add(nm.a[0])
        ren[nm] = None
        new.append(t)
    for nd in clist(M.field(g, gp, "node")):
        for x in clist(M.field(nd, np_, "input")):
            if x in ren and ren[x] is None:
                outs = clist(M.field(nd, np_, "output"))
                ren[x] = S("<bias of " + show(outs[0]) + ">")
    return subst(md, {k: v or S("<unused>") for k, v in ren.items()}), ""


def bj(label, build):
    """build(m, P) -> (model, expected model)"""
    def f(M):
        m = Model(M)
        P = Proto(m)
        model, exp = build(m, P)
        res, raw = addbias(M, m, model)
        out = []
        for s, r in res:
            if flags(s):
                out.append((r[0] == "err", "a failed read, decode or write is reported as success"))
                continue
            if exp is None:
                out.append((r[0] == "err", "a model without a graph is accepted"))
                continue
            if r[0] == "err":
                out.append((False, "a valid model is refused"))
                continue
            w = r[1]
            for _ in range(3):
                if w is not None and w.op in ("vref", "box"):
                    w = w.a[0]
            if w is None or w.op != "encoded":
                out.append((False if w is None else None, "nothing is written" if w is None else "the written bytes are not the encoding of a model"))
                continue
            wm = w.a[0].a[0] if w.a[0].op == "vref" else w.a[0]
            u, why = unname(M, wm, model)
            if u is None:
                out.append((False, why))
                continue
            e, _ = unname(M, exp, model)
            v, msg = compare(m.dom, s, ("ok", deep(M, u)), lambda k: ("ok", deep(M, e)))
            out.append((v, "the written model is not the input with a zero bias per convolution: " + difference(deep(M, u), deep(M, e)) if v is False else msg))
        return out + obligations(m, raw)
    BIAS.append((label, f))


def w_(P, m, name, dims, dt=1):
    return P.tensor(name, dims, dt, float_data=[m.flt("wv")] if dt == 1 else [])


def _two(m, P):
    c = m.dim("c", 1, 99)
    w1, w2 = w_(P, m, "w1", [2, c, 3, 3]), w_(P, m, "w2", [3, 2, 1, 1])
    relu = P.node("Relu", ["a"], ["b"], "r")
    md = lambda n1, n2, extra: P.model(P.graph([P.node("Conv", ["x", "w1"] + n1, ["a"], "c1"), relu, P.node("Conv", ["b", "w2"] + n2, ["y"], None)], [w1, w2] + extra,
                                               [P.vi("x", [1, c, 8, 8], 1)], [P.vi("y", None, 1)]), [(None, 17)])
    return md([], [], []), md(["c1_zero_bias"], ["y_zero_bias"], [bias_tensor(P, "c1_zero_bias", 2, 1, 4), bias_tensor(P, "y_zero_bias", 3, 1, 4)])


bj("every convolution without a bias gets a zero bias of its own", _two)


def _kept(m, P):
    md = P.model(P.graph([P.node("Conv", ["x", "w", "b"], ["a"], "c1"), P.node("Gemm", ["a", "w"], ["g"], "g"), P.node("Conv", ["a", "v"], ["h"], "dyn"),
                          P.node("ConvTranspose", ["h", "w"], ["y"], "ct"), P.node("Conv", ["a"], ["q"], "bad")],
                         [w_(P, m, "w", [2, m.dim("c"), 3, 3]), w_(P, m, "b", [2])]))
    return md, md


bj("nodes that need no bias are left alone", _kept)


def _dbl(m, P):
    w = P.tensor("w", [2, m.dim("c"), 3], 11, double_data=[m.flt("v")])
    md = lambda x, e: P.model(P.graph([P.node("Conv", ["x", "w"] + x, ["y"], "c")], [w] + e))
    return md([], []), md(["c_zero_bias"], [bias_tensor(P, "c_zero_bias", 2, 11, 8)])


bj("a double-precision convolution gets a double-precision bias", _dbl)


def _half(code):
    def f(m, P):
        w = P.tensor("w", [3, m.dim("c"), 2], code, raw=[m.sint(f"b{i}", 0, 255) for i in range(4)])
        md = lambda x, e: P.model(P.graph([P.node("Conv", ["x", "w"] + x, ["y"], "c")], [w] + e))
        return md([], []), md(["c_zero_bias"], [bias_tensor(P, "c_zero_bias", 3, code, 2)])
    return f


bj("a half-precision convolution gets a half-precision bias", _half(10))
bj("a bfloat16 convolution gets a bfloat16 bias", _half(16))


def _scalar(m, P):
    md = P.model(P.graph([P.node("Conv", ["x", "w"], ["y"], "c")], [P.tensor("w", [], 1)]))
    return md, md


bj("a weight without dimensions is left alone", _scalar)
bj("a model without a graph is refused", lambda m, P: (P.model(None), None))


def _unnamed(m, P):
    w1, w2 = w_(P, m, "w1", [1, 1, 1, 1]), w_(P, m, "w2", [2, 1, 1, 1])
    md = lambda n1, n2, e: P.model(P.graph([P.node("Conv", ["x", "w1"] + n1, ["a"], ""), P.node("Conv", ["a", "w2"] + n2, ["y"], "")], [w1, w2] + e))
    return md([], [], []), md(["a_zero_bias"], ["y_zero_bias"], [bias_tensor(P, "a_zero_bias", 1, 1, 4), bias_tensor(P, "y_zero_bias", 2, 1, 4)])


bj("convolutions with empty names get distinct biases", _unnamed)


def _half(m, P):
    w = P.tensor("w", [2, 1, 1, 1], 10, raw=[I(0)] * 4)
    md = lambda x, e: P.model(P.graph([P.node("Conv", ["x", "w"] + x, ["y"], "c")], [w] + e))
    return md([], []), md(["c_zero_bias"], [bias_tensor(P, "c_zero_bias", 2, 10, 2)])


bj("a half-precision convolution gets a half-precision bias", _half)


def _abstract(m, P):
    c = m.dim("c", 1, 4096)
    w = w_(P, m, "w", [c, m.dim("d"), 3, 3])
    t = P.mk("TensorProto", name=Some(S("c_zero_bias")), dims=seq([c]), data_type=Some(I(1)), raw_data=Some(mk("rep", I(0), mul(I(4), c))))
    md = lambda x, e: P.model(P.graph([P.node("Conv", ["x", "w"] + x, ["y"], "c")], [w] + e))
    return md([], []), md(["c_zero_bias"], [t])


bj("the bias has one zero per output channel", _abstract)


def _names(m, P):
    """similar names and shared weights"""
    ws = [w_(P, m, n, [i + 1, 2, 1, 1]) for i, n in enumerate(("w1", "w", "W", "xw", "w.weight", ""))]
    md = lambda b, e: P.model(P.graph([P.node("Conv", [f"x{i}", n] + (["bb"] if False else b[i:i + 1]), [f"y{i}"], f"c{i}")
                                       for i, n in enumerate(("w", "w1", "xw", "w.weight", "W", "w", "nope"))] +
                                      [P.node("Conv", ["q", "w", "b"], ["r"], "k"), P.node("Conv", ["q", "w", ""], ["s"], "k2"), P.node("conv", ["q", "w"], ["t"], "k3")], ws + e))
    ch = [2, 1, 4, 5, 3, 2]
    return md([], []), md([f"c{i}_zero_bias" for i in range(6)], [bias_tensor(P, f"c{i}_zero_bias", c, 1, 4) for i, c in enumerate(ch)])


bj("similar names, shared weights and a weight computed at run time", _names)


def _collide(m, P):
    """two convolutions of the same name, and a tensor already called as their bias would be"""
    w = w_(P, m, "w", [2, 1, 1, 1])
    taken = P.tensor("k_zero_bias", [1], 1, float_data=[m.flt("wv")])
    md = lambda b, e: P.model(P.graph([P.node("Conv", ["x", "w"] + b[:1], ["a"], "c"), P.node("Conv", ["a", "w"] + b[1:2], ["b"], "c"),
                                       P.node("Conv", ["b", "w"] + b[2:3], ["d"], "k"), P.node("Add", ["d", "k_zero_bias"], ["e_zero_bias"], "n"),
                                       P.node("Conv", ["d", "w"] + b[3:4], ["f"], "e")], [w, taken] + e))
    bs = ["c_zero_bias", "c_zero_bias_", "k_zero_bias_", "e_zero_bias_"]
    return md([], []), md(bs, [bias_tensor(P, b, 2, 1, 4) for b in bs])


bj("names already in use are not taken again", _collide)


def _kinds():
    """(needs a bias, name of the weight, further inputs, operator)"""
    return [("needs", "Conv", "w", []), ("runtime weight", "Conv", "h", []), ("scalar weight", "Conv", "s", []), ("has bias", "Conv", "w", ["b"]),
            ("another operator", "Gemm", "w", []), ("no weight", "Conv", None, [])]


def _pairs(first):
    def f(m, P):
        ks = _kinds()
        ws = [w_(P, m, "w", [2, 1, 1, 1]), P.tensor("s", [], 1), w_(P, m, "b", [2])]
        seq_ = [x for k in range(len(ks)) for x in (ks[first], ks[k])]

        def md(add):
            nodes, extra = [], []
            for i, (kind, op, wt, more) in enumerate(seq_):
                b = []
                if add and kind == "needs":
                    b = [f"n{i}_zero_bias"]
                    extra.append(bias_tensor(P, b[0], 2, 1, 4))
                nodes.append(P.node(op, ["x"] + ([wt] if wt else []) + more + b, [f"y{i}"], f"n{i}"))
            return P.model(P.graph(nodes, ws + extra))
        return md(False), md(True)
    return f


for _i, _k in enumerate(_kinds()):
    bj(f"{_k[0]} next to every kind of node", _pairs(_i))
