"""The shapes the quantiser traces, against the ONNX shape rules of the shape-inference scenarios.

`graph.input_shapes` carries no batch dimension and the quantiser puts 1 there, so the scenarios are read with a batch of 1,
every dimension at least 1, and rank-two tensors (of whose inputs the single remaining dimension is kept as a row) squeezed out of rank-three inputs."""
import itertools, math
from terms import *
from onnxscen import *
from scrun import obligations
import scen
import sc_shape

QS = []
FAMILIES = ("conv", "bcast", "reshape", "index", "flow")
# label prefixes of scenarios whose traced shape is not claimed
SKIP = {
    "conv2d, kernel_shape": "a kernel_shape that contradicts the weight tensor",
    "conv3d, kernel_shape": "a kernel_shape that contradicts the weight tensor",
    "ConvTranspose output_shape": "an explicit output_shape",
    "MatMul 1 x 1": "vector operands (the MatMul circuit needs matrices)", "MatMul 2 x 1": "vector operands (the MatMul circuit needs matrices)",
    "MatMul 3 x 1": "vector operands (the MatMul circuit needs matrices)", "MatMul 4 x 1": "vector operands (the MatMul circuit needs matrices)",
    "Gemm 1-D": "row operands are traced without the batch dimension", "Flatten rank 1": "rows are traced without the batch dimension",
    "Reshape attr": "the target of opset 1 as an attribute", "Pad rank 1 attr": "the pads of opset 2 as an attribute", "Pad rank 2 attr": "the pads of opset 2 as an attribute",
    "Pad rank 3 attr": "the pads of opset 2 as an attribute", "Squeeze empty axes list": "an axes attribute that is present but empty",
    "Tile rank 2 repeats 1": "fewer repeats than dimensions, which ONNX does not have", "Tile rank 3 repeats 1": "fewer repeats than dimensions, which ONNX does not have",
    "Tile rank 3 repeats 2": "fewer repeats than dimensions, which ONNX does not have", "Tile rank 4 repeats 2": "fewer repeats than dimensions, which ONNX does not have",
    "Transpose rank 4 perm [0, -1": "negative perm entries, which ONNX does not have",
    "Shape rank": "values of shape arithmetic", "Range": "values of shape arithmetic", "ConstantOfShape": "values of shape arithmetic", "shape arithmetic": "values of shape arithmetic",
}


def excluded(l):
    return any(l.startswith(p) for p in SKIP)


def trace(m):
    """[(state, ('ok', hmap) | ('err',))], obligations, for a batch of 1 and dimensions of at least 1"""
    res, raw = build_graph(m)
    raw, out = list(raw), []
    for s, r in res:
        if r[0] == "err":
            continue
        o, I1 = m.M.call("quantizer::propagate_shapes", s, [mk("vref", r[1])])
        raw += I1.raw
        for s2, v in o:
            v = I1.freeze(s2, v)
            ok = True
            for io in m.inputs:
                ds = clist(m.M.field(io, "parser::IoSpec", "shape"))
                for d in ds:
                    ok = ok and s2.assume(ge0(sub(d, I(1))))
                if len(ds) >= 2:
                    ok = ok and s2.assume(eq0(sub(ds[0], I(1))))
            if ok:
                out.append((s2, ("err",) if v.a[2] == "Err" else ("ok", v.a[3][0])))
    return out, raw


class Fixed(Model):
    """a model whose narrow abstract attributes take the given values; records their ranges"""

    def __init__(self, M, values):
        super().__init__(M)
        self.values, self.ranges, self.sints, self.wrapped = values, {}, [], []

    def sint(self, name, lo=-4, hi=6):
        if hi - lo <= 14:
            self.ranges[name] = range(lo, hi + 1)
        self.sints.append(I(self.values[name]) if name in self.values else super().sint(name, lo, hi))
        return self.sints[-1]

    def input(self, name, dims, et=FLOAT):
        """a rank-two tensor is the squeezed page of a rank-three input"""
        if len(dims) != 2:
            return super().input(name, dims, et)
        super().input(name + " page", [1] + list(dims), et)
        if not self.wrapped:
            self.init("page axis", [1], ints=[0])
        self.wrapped.append(name)
        self.node("Squeeze", [name + " page", "page axis"], [name])


def judge_one(m, build, least, strict):
    outs, spec = build(m)
    r = trace(m)

    def sp(k):
        if least is not None and any(k.lt(t, I(least)) for t in m.sints):
            return ANY
        w = spec(k)
        return ("ok", mk("tuple", w[1])) if w[0] == "ok" else w if strict else ANY
    out = []
    for s, g in r[0]:
        got = ("ok", mk("tuple", tuple(shape_of(g[1], o) or S("<none>") for o in outs))) if g[0] == "ok" else g
        out.append(compare(m.dom, s, got, sp))
    return out + obligations(m, r[1])


def qs_job(build, least=None, strict=False):
    def f(M):
        scen.LIMIT[0] = 4000
        if (CRATE, "quantizer::propagate_shapes") not in M.prog.fns:
            raise Giveup("quantizer::propagate_shapes is gone")
        m = Fixed(M, {})
        try:
            out = judge_one(m, build, least, strict)
        except Giveup as e:
            out = [(None, str(e))]
        if all(v is not None for v, _ in out) or not m.ranges or math.prod(len(r) for r in m.ranges.values()) > 130:
            return out
        # undecided with abstract attributes: one run per combination of their values
        names, out = sorted(m.ranges), []
        for vs in itertools.product(*[m.ranges[n] for n in names]):
            out += judge_one(Fixed(M, dict(zip(names, vs))), build, least, strict)
        return out
    return f


LEAST = {"Expand": 1, "Transpose": 0}       # an Expand target of zero and the negative perm entries ONNX does not have are not claimed
LENIENT = ("Reshape dynamic", "Reshape scalar to vector", "Reshape copy past rank with size")     # traced even where no shape follows
for _f in FAMILIES:
    for _l, _b in sc_shape.SC[_f]:
        if not excluded(_l):
            QS.append((_l, qs_job(_b, LEAST.get(_l.split()[0]), _l.startswith("Reshape") and _l not in LENIENT)))
