"""Shape-inference scenarios: models of constant structure and the ONNX shape rule each must follow.

SC[family] = [(label, build)], build(m) -> (output names, spec) with spec(k) -> ("ok", (shape term per output)) | ERR | ANY.
"""
from terms import *
from onnxscen import *
import itertools

SC = {}


def sc(family, label):
    def d(f):
        SC.setdefault(family, []).append((label, f))
        return f
    return d


def product(xs):
    r = I(1)
    for x in xs:
        r = mul(r, tt(x))
    return r


def ok(*shapes):
    return ("ok", tuple(seq(s) for s in shapes))


def dims(m, names, lo=1, hi=4096):
    return [m.dim(n, lo, hi) for n in names]


def axis_of(k, a, r, extra=0):
    """normalised axis of abstract attribute a for rank r, None when out of range"""
    a = tt(a)
    if a.op == "int":
        v = a.a[0]
        v = v + r if v < 0 else v
        return v if 0 <= v < r + extra else None
    for i in range(-r, r + extra):
        if k.eq(a, I(i)):
            return i + r if i < 0 else i
    return None


def x1(m, shape, op, extra_inputs=(), outs=("y",), **attrs):
    m.input("x", shape)
    for o in outs:
        m.output(o)
    m.node(op, ["x"] + list(extra_inputs), list(outs), **attrs)
    return list(outs)


# ------------------------------------------------------------------------------------------------ convolution and pooling
def conv_spec(x, w, kern, strides, pads, dil):
    n = len(kern)

    def spec(k):
        out = [x[0], w[0]]
        for i in range(n):
            kk, s, d = tt(kern[i]), tt(strides[i]), tt(dil[i])
            if k.le(kk, I(-1)) or k.le(s, I(-1)) or k.le(d, I(-1)) or k.le(tt(pads[i]), I(-1)) or k.le(tt(pads[n + i]), I(-1)):
                return ERR
        for i in range(n):
            kk, s, d = tt(kern[i]), tt(strides[i]), tt(dil[i])
            if k.eq(kk, I(0)) or k.eq(s, I(0)):
                return ERR
            if k.eq(d, I(0)):
                return ANY
            eff = add(mul(sub(kk, I(1)), d), I(1))
            padded = add(tt(x[2 + i]), add(tt(pads[i]), tt(pads[n + i])))
            if k.lt(padded, eff):
                return ERR
            out.append(add(div(sub(padded, eff), s), I(1)))
        return ok(out)
    return spec


def add_conv(label, rank, kern=None, strides=None, pads=None, dil=None, bias=False, et="Conv", order=0, auto=None):
    """kern: None (taken from the weight) or list; entries may be names (abstract) or ints"""
    def build(m):
        n = rank - 2
        cache = {}

        def v(e, lo, hi):
            if isinstance(e, str):
                if e not in cache:
                    cache[e] = m.sint(e, lo, hi)
                return cache[e]
            return e
        x = dims(m, ["N", "C", "H", "W", "D"][:rank])
        wk = [m.dim(f"k{i}", 0 if kern is None else 1, 64) for i in range(n)]
        w = [m.dim("O", 1, 4096), m.dim("Cg", 1, 4096)] + wk
        at = {}
        K_ = wk
        if kern is not None:
            K_ = [v(e, -2, 64) for e in kern]
            at["kernel_shape"] = list(K_)
        s_ = [1] * n
        if strides is not None:
            s_ = [v(e, -2, 64) for e in strides]
            at["strides"] = list(s_)
        p_ = [0] * (2 * n)
        if pads is not None:
            p_ = [v(e, -2, 64) for e in pads]
            at["pads"] = list(p_)
        d_ = [1] * n
        if dil is not None:
            d_ = [v(e, -2, 64) for e in dil]
            at["dilations"] = list(d_)
        if auto is not None:
            at["auto_pad"] = auto
        m.init("w", w, floats=())
        if bias:
            m.init("b", [w[0]], floats=())
        m.input("x", x)
        m.output("y")
        m.node(et, ["x", "w"] + (["b"] if bias else []), ["y"], **at)
        return ["y"], conv_spec(x, w, K_, s_, p_, d_)
    sc("conv", label)(build)


add_conv("conv2d, weight kernel, defaults", 4)
add_conv("conv2d, strides", 4, strides=["s0", "s1"])
add_conv("conv2d, pads", 4, pads=["p0", "p1", "p2", "p3"])
add_conv("conv2d, dilations", 4, dil=["d0", "d1"])
add_conv("conv2d, kernel_shape", 4, kern=["kk0", "kk1"])
add_conv("conv2d, kernel_shape strides pads", 4, kern=[3, 5], strides=[2, "s1"], pads=[1, "p1", 2, 3], bias=True)
for _ap in ("", "NOTSET", "VALID"):
    add_conv(f"conv2d auto_pad {_ap!r}", 4, strides=["s0", 2], auto=_ap)
add_conv("conv1d", 3, strides=["s0"], pads=["p0", "p1"], dil=["d0"])
add_conv("conv1d alias", 3, strides=["s0"], et="Int64Conv")
add_conv("conv2d mixed", 4, strides=[2, 3], pads=[1, 2, 3, 4], dil=["d0", 3])
add_conv("conv3d", 5, strides=[1, 2, 3], pads=[0, 1, 2, 3, 4, "p5"], dil=[1, 2, "d2"])


def bad_conv(label, op, rankx, attrs, wrank=None):
    def build(m):
        x = dims(m, ["N", "C", "H", "W", "D"][:rankx], 4, 4096)
        wr = wrank or rankx
        m.init("w", [4, 4] + [2] * (wr - 2), floats=())
        m.input("x", x)
        m.output("y")
        m.node(op, ["x", "w"] if op.startswith("Conv") else ["x"], ["y"], **attrs)
        return ["y"], lambda k: ERR
    sc("conv", label)(build)


bad_conv("conv: short strides", "Conv", 4, {"strides": [1]})
bad_conv("conv: short pads", "Conv", 4, {"pads": [1, 1, 1]})
bad_conv("conv: short dilations", "Conv", 4, {"dilations": [1]})
bad_conv("conv: input rank too small", "Conv", 3, {}, wrank=4)
bad_conv("maxpool: short strides", "MaxPool", 4, {"kernel_shape": [2, 2], "strides": [1]})
bad_conv("maxpool: short pads", "MaxPool", 4, {"kernel_shape": [2, 2], "pads": [0, 0, 0]})
for _op in ("MaxPool", "AveragePool"):
    bad_conv(f"{_op}: short dilations", _op, 4, {"kernel_shape": [2, 2], "dilations": [1]})
for _ap in ("SAME_UPPER", "SAME_LOWER", "OTHER"):
    bad_conv(f"conv: auto_pad {_ap}", "Conv", 4, {"auto_pad": _ap})
    bad_conv(f"conv: auto_pad {_ap} with pads", "Conv", 4, {"auto_pad": _ap, "pads": [1, 1, 1, 1]})
    bad_conv(f"convtranspose: auto_pad {_ap}", "ConvTranspose", 4, {"auto_pad": _ap, "strides": [2, 2]})
bad_conv("maxpool: no kernel", "MaxPool", 4, {})
bad_conv("maxpool: rank too small", "MaxPool", 3, {"kernel_shape": [2, 2]})
bad_conv("convtranspose: strides length", "ConvTranspose", 4, {"strides": [1]})
bad_conv("convtranspose: pads length", "ConvTranspose", 4, {"pads": [1, 1]})
bad_conv("convtranspose: dilations length", "ConvTranspose", 4, {"dilations": [1]})
bad_conv("convtranspose: output_padding length", "ConvTranspose", 4, {"output_padding": [1]})
bad_conv("convtranspose: output_shape length", "ConvTranspose", 4, {"output_shape": [9]})
bad_conv("convtranspose: input rank too small", "ConvTranspose", 3, {}, wrank=4)


def add_pool(label, op, rank, kern, strides=None, pads=None, dil=None, ceil=None, auto=None):
    def build(m):
        n = rank - 2
        v = lambda e, lo, hi: m.sint(e, lo, hi) if isinstance(e, str) else e
        x = dims(m, ["N", "C", "H", "W", "D"][:rank])
        at = {"kernel_shape": [v(e, -2, 64) for e in kern]}
        K_ = at["kernel_shape"]
        s_, p_ = [1] * n, [0] * (2 * n)
        if strides is not None:
            s_ = at["strides"] = [v(e, -2, 64) for e in strides]
        if pads is not None:
            p_ = at["pads"] = [v(e, -2, 64) for e in pads]
        d_ = [1] * n
        if dil is not None:
            d_ = at["dilations"] = [v(e, -2, 64) for e in dil]
        if ceil is not None:
            at["ceil_mode"] = ceil
        if auto is not None:
            at["auto_pad"] = auto
        outs = x1(m, x, op, **at)
        cs = conv_spec(x, [x[1]], K_, s_, p_, d_)
        if auto not in (None, "", "NOTSET", "VALID"):
            return outs, lambda k: ERR
        if not ceil:
            return outs, cs

        def spec(k):
            r = cs(k)
            if r[0] != "ok":
                return r
            for i in range(n):          # ceil and floor agree only when the stride divides the span
                span = sub(add(tt(x[2 + i]), add(tt(p_[i]), tt(p_[n + i]))), add(mul(sub(tt(K_[i]), I(1)), tt(d_[i])), I(1)))
                if not k.eq(rem(span, tt(s_[i])), I(0)):
                    return ERR
            return r
        return outs, spec
    sc("conv", label)(build)


for op in ("MaxPool", "AveragePool"):
    add_pool(f"{op} kernel", op, 4, ["k0", "k1"])
    add_pool(f"{op} strides", op, 4, ["k0", 3], strides=["s0", "s1"])
    add_pool(f"{op} pads", op, 4, [2, 3], strides=[2, 1], pads=["p0", "p1", "p2", "p3"])
    add_pool(f"{op} 1d", op, 3, ["k0"], strides=["s0"], pads=["p0", "p1"])
    add_pool(f"{op} 3d", op, 5, [2, 3, 2], strides=[1, 2, 3], pads=[0, 1, 1, 1, 0, "p5"])
    add_pool(f"{op} dilations", op, 4, ["k0", 3], dil=["d0", "d1"])
    add_pool(f"{op} dilations strides pads", op, 4, [3, 2], strides=[2, 1], pads=[1, 0, 2, 1], dil=[2, "d1"])
    add_pool(f"{op} ceil_mode 0", op, 4, [3, 2], strides=[2, "s1"], ceil=0)
    add_pool(f"{op} ceil_mode", op, 4, [3, 2], strides=[2, 3], pads=[1, 1, 1, 0], ceil=1)
    add_pool(f"{op} ceil_mode dilations 1d", op, 3, ["k0"], strides=[2], dil=[2], ceil=1)
    for ap in ("", "NOTSET", "VALID", "SAME_UPPER", "SAME_LOWER", "OTHER"):
        add_pool(f"{op} auto_pad {ap!r}", op, 4, [3, "k1"], strides=[2, 1], auto=ap)
add_pool("Int64MaxPool", "Int64MaxPool", 4, [2, "k1"], strides=[2, 2])

for r in (2, 3, 4, 5):
    def gap(m, r=r):
        x = dims(m, ["N", "C", "H", "W", "D"][:r])
        outs = x1(m, x, "GlobalAveragePool")
        return outs, (lambda k: ERR if r < 3 else ok(x[:2] + [1] * (r - 2)))
    sc("conv", f"GlobalAveragePool rank {r}")(gap)


def add_ct(label, rank, kern=None, strides=None, pads=None, dil=None, opad=None, group=None, oshape=None, auto=None):
    def build(m):
        n = rank - 2
        v = lambda e, lo, hi: m.sint(e, lo, hi) if isinstance(e, str) else e
        x = dims(m, ["N", "C", "H", "W", "D"][:rank], 0 if label.endswith("zero") else 1, 4096)
        wk = [m.dim(f"k{i}", 0, 64) for i in range(n)]
        w = [x[1], m.dim("Og", 1, 256)] + wk
        at = {}
        K_, s_, p_, d_, o_, g_ = wk, [1] * n, [0] * (2 * n), [1] * n, [0] * n, I(1)
        if kern is not None:
            K_ = at["kernel_shape"] = [v(e, -2, 64) for e in kern]
        if strides is not None:
            s_ = at["strides"] = [v(e, -2, 64) for e in strides]
        if pads is not None:
            p_ = at["pads"] = [v(e, -2, 64) for e in pads]
        if dil is not None:
            d_ = at["dilations"] = [v(e, -2, 64) for e in dil]
        if opad is not None:
            o_ = at["output_padding"] = [v(e, -2, 64) for e in opad]
        if group is not None:
            g_ = at["group"] = tt(v(group, -2, 64))
        O_ = None
        if oshape is not None:
            O_ = at["output_shape"] = [v(e, -2, 64) for e in oshape]
        if auto is not None:
            at["auto_pad"] = auto
        m.init("w", w, floats=())
        m.input("x", x)
        m.output("y")
        m.node("ConvTranspose", ["x", "w"], ["y"], **at)

        def spec(k):
            if k.le(g_, I(0)):
                return ERR
            for l in (K_, s_, p_, d_, o_, O_ or []):
                for e in l:
                    if k.le(tt(e), I(-1)):
                        return ERR
            out = [x[0], mul(w[1], g_)]
            if O_ is not None:
                return ok(out + O_)
            for i in range(n):
                if k.eq(tt(x[2 + i]), I(0)) or k.eq(tt(K_[i]), I(0)):
                    return ERR
                if k.eq(tt(s_[i]), I(0)) or k.eq(tt(d_[i]), I(0)):
                    return ANY
                eff = add(mul(sub(tt(K_[i]), I(1)), tt(d_[i])), I(1))
                o = add(sub(add(mul(tt(s_[i]), sub(tt(x[2 + i]), I(1))), eff), add(tt(p_[i]), tt(p_[n + i]))), tt(o_[i]))
                if k.le(o, I(0)):
                    return ERR
                out.append(o)
            return ok(out)
        return ["y"], spec
    sc("conv", label)(build)


add_ct("ConvTranspose defaults", 4)
add_ct("ConvTranspose strides", 4, strides=["s0", "s1"])
add_ct("ConvTranspose pads", 4, pads=["p0", "p1", "p2", "p3"])
add_ct("ConvTranspose dilations", 4, kern=[3, "k1_"], dil=["d0", "d1"])
add_ct("ConvTranspose output_padding", 4, strides=[2, 2], opad=["o0", "o1"])
add_ct("ConvTranspose group", 4, group="g")
add_ct("ConvTranspose output_shape", 4, strides=[2, 2], oshape=["q0", "q1"])
for _ap in ("", "NOTSET", "VALID"):
    add_ct(f"ConvTranspose auto_pad {_ap!r}", 4, strides=["s0", 2], auto=_ap)
add_ct("ConvTranspose 1d", 3, strides=["s0"], pads=["p0", "p1"], dil=["d0"], opad=["o0"], group=2)
add_ct("ConvTranspose 3d", 5, strides=[1, 2, 3], pads=[0, 1, 1, 1, 0, 2], group="g")
add_ct("ConvTranspose zero", 4, kern=[2, 2], strides=[2, 1])


# ------------------------------------------------------------------------------------------------ broadcasting, matmul, gemm
def bcast(k, a, b):
    a, b = list(a), list(b)
    n = max(len(a), len(b))
    a = [I(1)] * (n - len(a)) + [tt(x) for x in a]
    b = [I(1)] * (n - len(b)) + [tt(x) for x in b]
    out = []
    for x, y in zip(a, b):
        if k.eq(x, y):
            out.append(x)
        elif k.eq(x, I(1)):
            out.append(y)
        elif k.eq(y, I(1)):
            out.append(x)
        else:
            return None
    return out


def add_bin(op, ra, rb, lo=1, second="input"):
    def build(m):
        a = dims(m, [f"a{i}" for i in range(ra)], lo)
        b = dims(m, [f"b{i}" for i in range(rb)], lo)
        m.input("a", a)
        m.input("b", b) if second == "input" else m.init("b", b, floats=())
        m.output("y")
        m.node(op, ["a", "b"], ["y"])

        def spec(k):
            r = bcast(k, a, b)
            return ERR if r is None else ok(r)
        return ["y"], spec
    sc("bcast", f"{op} rank {ra} with rank {rb} {second} lo{lo}")(build)


for op in ("Add", "Sub", "Mul", "Div", "Pow", "And", "Equal", "Greater", "Less"):
    add_bin(op, 2, 1)
    add_bin(op, 1, 2)
for ra, rb in ((0, 2), (2, 0), (2, 2), (1, 3), (3, 1), (1, 4), (2, 3), (3, 2)):
    add_bin("Add", ra, rb)
add_bin("Mul", 2, 1, 0)
add_bin("Add", 2, 2, 1, "initializer")


def add_where(rc, rx, ry):
    def build(m):
        c, x, y = [dims(m, [f"{n}{i}" for i in range(r)]) for n, r in (("c", rc), ("x", rx), ("y", ry))]
        for n, s in (("c", c), ("x", x), ("y", y)):
            m.input(n, s)
        m.output("z")
        m.node("Where", ["c", "x", "y"], ["z"])

        def spec(k):
            r = bcast(k, c, x)
            r = r and bcast(k, r, y) if r is not None else None
            return ERR if r is None else ok(r)
        return ["z"], spec
    sc("bcast", f"Where {rc} {rx} {ry}")(build)


for t in ((1, 1, 1), (1, 2, 1), (2, 1, 1), (1, 1, 2)):
    add_where(*t)


def add_expand(rx, rt):
    def build(m):
        x = dims(m, [f"x{i}" for i in range(rx)])
        t = [m.sint(f"t{i}", -2, 4096) for i in range(rt)]
        m.init("t", [rt], ints=t)
        outs = x1(m, x, "Expand", ["t"])

        def spec(k):
            if any(k.le(e, I(-1)) for e in t):
                return ERR
            r = bcast(k, x, t)
            return ERR if r is None else ok(r)
        return outs, spec
    sc("bcast", f"Expand {rx} to {rt}")(build)


for t in ((1, 1), (1, 2), (2, 1), (2, 2), (0, 1)):
    add_expand(*t)


def add_matmul(ra, rb):
    def build(m):
        a = dims(m, [f"a{i}" for i in range(ra)])
        b = dims(m, [f"b{i}" for i in range(rb)])
        m.input("a", a)
        m.input("b", b)
        m.output("y")
        m.node("MatMul", ["a", "b"], ["y"])

        def spec(k):
            if ra == 0 or rb == 0:
                return ERR
            A_ = [I(1)] + a if ra == 1 else a
            B_ = b + [I(1)] if rb == 1 else b
            if not k.eq(A_[-1], B_[-2]):
                return ERR
            bt = bcast(k, A_[:-2], B_[:-2])
            if bt is None:
                return ERR
            return ok(bt + ([] if ra == 1 else [A_[-2]]) + ([] if rb == 1 else [B_[-1]]))
        return ["y"], spec
    sc("bcast", f"MatMul {ra} x {rb}")(build)


for t in ((1, 1), (1, 2), (2, 1), (2, 2), (3, 2), (2, 3), (3, 3), (4, 3), (3, 4), (1, 3), (3, 1), (0, 2), (2, 0), (4, 4), (4, 2), (2, 4)):
    add_matmul(*t)


def add_gemm(label, ra, rb, ta=None, tb=None, bias=None, op="Gemm"):
    def build(m):
        a = dims(m, [f"a{i}" for i in range(ra)])
        b = dims(m, [f"b{i}" for i in range(rb)])
        va = m.sint(ta, -1, 2) if isinstance(ta, str) else ta
        vb = m.sint(tb, -1, 2) if isinstance(tb, str) else tb
        m.input("a", a)
        m.init("b", b, floats=())
        m.output("y")
        ins = ["a", "b"]
        if bias:
            m.init("c", [m.dim("c0")], floats=())
            ins.append("c")
        m.node(op, ins, ["y"], transA=va, transB=vb)

        def spec(k):
            if ra not in (1, 2) or rb not in (1, 2):
                return ERR
            A_ = [I(1)] + a if ra == 1 else a
            B_ = b + [I(1)] if rb == 1 else b
            if va is not None and not k.eq(tt(va), I(0)):
                A_ = A_[::-1]
            if vb is not None and not k.eq(tt(vb), I(0)):
                B_ = B_[::-1]
            return ok([A_[0], B_[1]]) if k.eq(A_[1], B_[0]) else ERR
        return ["y"], spec
    sc("bcast", label)(build)


add_gemm("Gemm plain", 2, 2)
add_gemm("Gemm transB", 2, 2, None, "tb")
add_gemm("Gemm transA", 2, 2, "ta", None)
add_gemm("Gemm transA transB", 2, 2, "ta", "tb", bias=True)
add_gemm("Gemm alias", 2, 2, 0, 1, op="Int64Gemm")
add_gemm("Gemm 1-D A", 1, 2, None, 1)
add_gemm("Gemm 1-D B", 2, 1)
add_gemm("Gemm 1-D both", 1, 1)
add_gemm("Gemm rank 3", 3, 2)
add_gemm("Gemm B rank 3", 2, 3)


# ------------------------------------------------------------------------------------------------ reshape family
def add_reshape(label, rx, target, allow=None, via="init", lo=1, hi=64):
    """target entries: ints or names (abstract in -2..hi)"""
    def build(m):
        x = dims(m, [f"x{i}" for i in range(rx)], lo, hi)
        t = [m.sint(e, -2, hi) if isinstance(e, str) else I(e) for e in target]
        aw = m.sint(allow, -1, 2) if isinstance(allow, str) else allow
        ins = ["x"]
        at = {"allowzero": aw}
        if via == "init":
            m.init("t", [len(t)], ints=t)
            ins.append("t")
        elif via == "const":
            m.node("Constant", [], ["t"], value=m.tensor("t", [len(t)], ints=t))
            ins.append("t")
        elif via == "attr":
            at["shape"] = list(t)
        else:
            ins.append("t")     # dynamic
        m.input("x", x)
        m.output("y")
        m.node("Reshape", ins, ["y"], **at)

        def spec(k):
            if via == "dyn":
                return ERR
            az = aw is not None and not k.eq(tt(aw), I(0))
            out, prod, hole, zero = [], I(1), [], False
            for i, e in enumerate(t):
                if k.eq(e, I(-1)):
                    hole.append(i)
                    out.append(None)
                elif k.le(e, I(-2)):
                    return ERR
                elif k.eq(e, I(0)):
                    if az:
                        zero = True
                        prod = I(0)
                        out.append(I(0))
                    else:
                        if i >= rx:
                            return ERR
                        prod = mul(prod, x[i])
                        out.append(x[i])
                else:
                    prod = mul(prod, e)
                    out.append(e)
            if len(hole) > 1 or (hole and zero):
                return ERR
            n = product(x)
            if hole:
                if k.eq(prod, I(0)):
                    return ERR
                if not k.when(eq0(rem(n, prod))):
                    return ERR
                out[hole[0]] = div(n, prod)
            elif not k.eq(n, prod):
                return ERR
            return ok(out)
        return ["y"], spec
    sc("reshape", label)(build)


add_reshape("Reshape 2 abstract", 2, ["t0", "t1"])
add_reshape("Reshape infer", 3, [2, -1])
add_reshape("Reshape copy and infer", 3, [0, -1])
add_reshape("Reshape copies", 3, [0, 0, "t2"])
add_reshape("Reshape zero past rank", 1, [-1, 0])
add_reshape("Reshape to scalar", 2, [])
add_reshape("Reshape two holes", 2, [-1, -1])
add_reshape("Reshape allowzero", 2, ["t0", 0], allow="az", lo=0)
add_reshape("Reshape allowzero with hole", 2, [0, -1], allow="az", lo=0)
add_reshape("Reshape allowzero first", 2, [0, "t1"], allow=1, lo=0)
add_reshape("Reshape attr", 2, ["t0", -1], via="attr")
add_reshape("Reshape constant node", 2, [-1, "t1"], via="const")
add_reshape("Reshape dynamic", 2, [1], via="dyn")
add_reshape("Reshape zero input", 2, [-1, 4], lo=0)


def add_flatten(r, ax):
    def build(m):
        x = dims(m, [f"x{i}" for i in range(r)], 0 if r == 2 else 1)
        a = m.sint("axis", -r - 2, r + 2) if ax == "sym" else ax
        outs = x1(m, x, "Flatten", axis=a)

        def spec(k):
            i = axis_of(k, 1 if a is None else a, r, 1)
            if i is None:
                return ERR
            return ok([product(x[:i]), product(x[i:])])
        return outs, spec
    sc("reshape", f"Flatten rank {r} axis {ax}")(build)


for r in (1, 2, 3, 4):
    add_flatten(r, "sym")
    add_flatten(r, None)
add_flatten(0, None)
add_flatten(0, 0)


def add_sq(label, op, r, axes, via):
    """axes: None or list of 'sym'/int"""
    def build(m):
        x = dims(m, [f"x{i}" for i in range(r)])
        ax = None
        if axes is not None:
            rr = r + (len(axes) if op == "Unsqueeze" else 0)
            ax = [m.sint(f"ax{i}", -rr - 1, rr) if e == "sym" else I(e) for i, e in enumerate(axes)]
        ins, at = [], {}
        if via == "attr":
            at["axes"] = ax
        elif via == "init":
            m.init("axes", [len(ax)], ints=ax)
            ins = ["axes"]
        elif via == "const":
            m.node("Constant", [], ["axes"], value=m.tensor("axes", [len(ax)], ints=ax))
            ins = ["axes"]
        elif via == "dyn":
            m.input("axes", [1], INT64)
            ins = ["axes"]
        elif via == "empty":
            ins = [""]
        outs = x1(m, x, op, ins, **at)

        def spec(k):
            if via == "dyn":
                return ERR
            if op == "Unsqueeze":
                if ax is None:
                    return ERR
                nr = r + len(ax)
                s = set()
                for e in ax:
                    i = axis_of(k, e, nr)
                    if i is None or i in s:
                        return ERR
                    s.add(i)
                itx = iter(x)
                return ok([I(1) if i in s else next(itx) for i in range(nr)])
            if ax is None:
                return ok([d for d in x if not k.eq(d, I(1))])
            s = set()
            for e in ax:
                i = axis_of(k, e, r)
                if i is None or i in s:
                    return ERR
                s.add(i)
            if any(not k.eq(x[i], I(1)) for i in s):
                return ERR
            return ok([d for i, d in enumerate(x) if i not in s])
        return outs, spec
    sc("reshape", label)(build)


for op in ("Squeeze", "Unsqueeze"):
    for r in (1, 2, 3):
        add_sq(f"{op} rank {r} one axis attr", op, r, ["sym"], "attr")
        add_sq(f"{op} rank {r} one axis input", op, r, ["sym"], "init")
    add_sq(f"{op} two axes", op, 3, ["sym", 0], "attr")
    add_sq(f"{op} two axes input", op, 2, ["sym", -1], "init")
    add_sq(f"{op} constant node", op, 2, ["sym"], "const")
    add_sq(f"{op} dynamic axes", op, 2, None, "dyn")
    add_sq(f"{op} no axes", op, 3, None, "none")
    add_sq(f"{op} empty axes name", op, 2, None, "empty")
    add_sq(f"{op} empty axes list", op, 2, [], "attr")
add_sq("Unsqueeze scalar", "Unsqueeze", 0, [0], "attr")
add_sq("Unsqueeze unordered axes", "Unsqueeze", 2, [3, 0], "attr")
add_sq("Unsqueeze three", "Unsqueeze", 2, [0, -1, 2], "init")


def add_transpose(r, perm):
    def build(m):
        x = dims(m, [f"x{i}" for i in range(r)])
        p = None if perm is None else [m.sint(f"p{i}", -r - 1, r) if e == "sym" else I(e) for i, e in enumerate(perm)]
        outs = x1(m, x, "Transpose", perm=p)

        def spec(k):
            if p is None:
                return ok(x[::-1])
            if len(p) != r:
                return ERR
            o = []
            for e in p:
                i = axis_of(k, e, r)
                if i is None or i in o:
                    return ERR
                o.append(i)
            return ok([x[i] for i in o])
        return outs, spec
    sc("reshape", f"Transpose rank {r} perm {perm}")(build)


for r, p in ((1, None), (3, None), (4, None), (2, ["sym", "sym"]), (3, ["sym", "sym", 0]), (3, [2, 0, 1]), (4, [0, 2, 3, 1]), (4, [0, -1, 1, "sym"]),
             (3, [0, 1]), (2, [0, 1, 1]), (2, [])):
    add_transpose(r, p)


# ------------------------------------------------------------------------------------------------ indexing family
def add_concat(label, ranks, ax, lo=1):
    def build(m):
        xs = []
        for j, r in enumerate(ranks):
            s = dims(m, [f"x{j}_{i}" for i in range(r)], lo)
            xs.append(s)
            m.input(f"x{j}", s)
        r = ranks[0]
        a = m.sint("axis", -r - 2, r + 1) if ax == "sym" else ax
        m.output("y")
        m.node("Concat", [f"x{j}" for j in range(len(ranks))], ["y"], axis=a)

        def spec(k):
            i = axis_of(k, 0 if a is None else a, r)
            if i is None:
                return ERR
            if any(q != r for q in ranks):
                return ERR
            out = list(xs[0])
            for s in xs[1:]:
                for j in range(r):
                    if j != i and not k.eq(s[j], xs[0][j]):
                        return ERR
                out[i] = add(out[i], s[i])
            return ok(out)
        return ["y"], spec
    sc("reshape", label)(build)


add_concat("Concat two rank 2", (2, 2), "sym")
add_concat("Concat default axis", (2, 2), None)
add_concat("Concat three rank 1", (1, 1, 1), "sym")
add_concat("Concat three rank 2", (2, 2, 2), 1, 0)
add_concat("Concat three rank 3", (3, 3, 3), -1)
add_concat("Concat one", (3,), "sym")
add_concat("Concat rank mismatch", (2, 3), 0)
add_concat("Concat rank mismatch later", (2, 2, 1), 1)


def add_slice(label, r, n, axes=None, steps=None, starts="sym", ends="sym", dyn=None, lo=0, cap=40):
    def build(m):
        x = dims(m, [f"x{i}" for i in range(r)], lo)
        B = 2**31 - 1
        S_ = [m.sint(f"s{i}", -B, B) if starts == "sym" else I(starts[i]) for i in range(n)]
        E_ = [m.sint(f"e{i}", -B, B) if ends == "sym" else I(ends[i]) for i in range(n)]
        for t in S_ + E_:
            if t in m.dom.c:
                m.dom.c[t] = [0, 1, 2, 3, 5, -1, -2, -3, -7, 9, 5000, -5000]
        A_ = None if axes is None else [m.sint(f"a{i}", -r - 1, r) if e == "sym" else I(e) for i, e in enumerate(axes)]
        T_ = None if steps is None else [m.sint(f"t{i}", -3, 4096) if e == "sym" else I(e) for i, e in enumerate(steps)]
        ins = ["st", "en"]
        for nm, v in (("st", S_), ("en", E_)):
            if dyn == nm:
                m.input(nm, [n], INT64)
            else:
                m.init(nm, [len(v)], ints=v)
        if A_ is not None or T_ is not None:
            if A_ is None:
                ins.append("")
            else:
                ins.append("ax")
                m.input("ax", [n], INT64) if dyn == "ax" else m.init("ax", [len(A_)], ints=A_)
        if T_ is not None:
            ins.append("sp")
            m.init("sp", [len(T_)], ints=T_)
        outs = x1(m, x, "Slice", ins)

        def spec(k):
            if dyn:
                return ANY
            if len(S_) != len(E_) or A_ is not None and len(A_) != n or T_ is not None and len(T_) != n:
                return ERR
            out = list(x)
            seen = set()
            for i in range(n):
                ax = axis_of(k, i if A_ is None else A_[i], r)
                if ax is None:
                    return ERR
                if ax in seen:
                    return ANY
                seen.add(ax)
                d = x[ax]
                s, e = S_[i], E_[i]
                st = I(1) if T_ is None else T_[i]
                if k.le(st, I(0)):
                    return ERR
                if k.le(s, I(-1)):
                    s = add(s, d)
                    if k.le(s, I(-1)):
                        s = I(0)
                elif k.lt(d, s):
                    s = d
                if k.le(e, I(-1)):
                    e = add(e, d)
                    if k.le(e, I(-1)):
                        e = I(0)
                elif k.lt(d, e):
                    e = d
                if not k.lt(s, e):
                    out[ax] = I(0)
                elif k.eq(st, I(1)):
                    out[ax] = sub(e, s)
                else:
                    out[ax] = add(div(sub(sub(e, s), I(1)), st), I(1))
            return ok(out)
        return outs, spec
    sc("index", label)(build)


add_slice("Slice rank 1", 1, 1)
add_slice("Slice rank 2 axis", 2, 1, axes=["sym"])
add_slice("Slice step", 1, 1, axes=[0], steps=["sym"])
add_slice("Slice step 2", 1, 1, axes=[-1], steps=[2])
add_slice("Slice without axes but steps", 1, 1, steps=[3])
add_slice("Slice two axes", 3, 2, axes=[0, 2], starts=[1, 0])
add_slice("Slice two default axes", 3, 2, starts=[0, -3])
add_slice("Slice two axes ends", 3, 2, axes=[2, -2], starts="sym", ends=[2**63 - 1, -1])
add_slice("Slice too many", 1, 2, starts=[0, 0], ends=[1, 1])
add_slice("Slice max end", 2, 1, axes=[1], ends=[2**63 - 1], steps=[2])
add_slice("Slice axes length", 2, 1, axes=[0, 1], starts=[0], ends=[1])
add_slice("Slice steps length", 2, 1, axes=[0], steps=[1, 1], starts=[0], ends=[1])


def add_gather(rd, ri, ax, op="Gather", data="input", idx="input"):
    def build(m):
        d = dims(m, [f"d{i}" for i in range(rd)])
        q = dims(m, [f"i{i}" for i in range(ri)])
        a = m.sint("axis", -rd - 2, rd - 1) if ax == "sym" else ax
        m.input("d", d) if data == "input" else m.init("d", d, floats=())
        m.input("i", q, INT64) if idx == "input" else m.init("i", q, ints=())
        m.output("y")
        m.node(op, ["d", "i"], ["y"], axis=a)

        def spec(k):
            if op == "GatherElements":
                return ok(q)
            i = axis_of(k, 0 if a is None else a, rd)
            if i is None:
                return ERR
            return ok(d[:i] + q + d[i + 1:])
        return ["y"], spec
    sc("index", f"{op} data {rd} indices {ri} axis {ax} {data} {idx}")(build)


for t in ((1, 0, None), (1, 1, "sym"), (2, 1, "sym"), (3, 2, "sym"), (2, 0, "sym"), (2, 2, None), (3, 1, -1)):
    add_gather(*t)
add_gather(2, 1, "sym", data="init")
add_gather(2, 2, 1, "GatherElements")
add_gather(3, 3, "sym", "GatherElements")


def add_topk(r, ax, kval="sym", n=1, largest=None, outs=("v", "i"), dyn=False):
    def build(m):
        x = dims(m, [f"x{i}" for i in range(r)])
        a = m.sint("axis", -r - 2, r + 1) if ax == "sym" else ax
        kk = m.sint("K", -2, 5000) if kval == "sym" else I(kval)
        la = m.sint("largest", -1, 2) if largest == "sym" else largest
        m.input("k", [1], INT64) if dyn else m.init("k", [n], ints=[kk] * n)
        o = x1(m, x, "TopK", ["k"], outs=outs, axis=a, largest=la)

        def spec(k):
            if dyn or n != 1:
                return ERR
            i = axis_of(k, -1 if a is None else a, r)
            if i is None:
                return ERR
            if la is not None and not k.eq(tt(la), I(1)):
                return ERR
            if k.le(kk, I(0)) or k.lt(x[i], kk):
                return ERR
            s = x[:i] + [kk] + x[i + 1:]
            return ok(*[s for _ in outs])
        return o, spec
    sc("index", f"TopK rank {r} axis {ax} K {kval} n {n} largest {largest} outs {len(outs)} {dyn}")(build)


add_topk(1, None)
add_topk(2, None)
add_topk(3, "sym")
add_topk(2, 0, largest="sym")
add_topk(2, 0, n=2)
add_topk(2, 1, outs=("v",))
add_topk(2, 1, dyn=True)


def add_shape(r, start, end):
    def build(m):
        x = dims(m, [f"x{i}" for i in range(r)])
        v = lambda e, n: m.sint(n, -r - 2, r + 2) if e == "sym" else e
        s, e = v(start, "start"), v(end, "end")
        outs = x1(m, x, "Shape", start=s, end=e)

        def spec(k):
            def norm(t, dflt):
                t = tt(dflt if t is None else t)
                for i in range(-r - 2, r + 3):
                    if k.eq(t, I(i)):
                        j = i + r if i < 0 else i
                        return max(0, min(r, j))
                return None
            a, b = norm(s, 0), norm(e, r)
            if a is None or b is None:
                return ANY
            return ok([max(0, b - a)])
        return outs, spec
    sc("index", f"Shape rank {r} start {start} end {end}")(build)


for t in ((0, None, None), (3, None, None), (3, "sym", None), (3, None, "sym"), (2, "sym", "sym")):
    add_shape(*t)


def add_reduce(op, r, axes, via, keep=None):
    def build(m):
        x = dims(m, [f"x{i}" for i in range(r)])
        ax = None if axes is None else [m.sint(f"a{i}", -r - 1, r) if e == "sym" else I(e) for i, e in enumerate(axes)]
        kd = m.sint("keep", -1, 2) if keep == "sym" else keep
        ins, at = [], {"keepdims": kd}
        if via == "attr":
            at["axes"] = ax
        elif via == "init":
            m.init("axes", [len(ax)], ints=ax)
            ins = ["axes"]
        elif via == "both":     # the input takes precedence
            m.init("axes", [len(ax)], ints=ax)
            ins = ["axes"]
            at["axes"] = [0]
        elif via == "empty":
            ins = [""]
            at["axes"] = ax
        elif via == "dyn":
            m.input("axes", [1], INT64)
            ins = ["axes"]
        outs = x1(m, x, op, ins, **at)

        def spec(k):
            if via == "dyn":
                return ERR
            if ax is None:
                s = set(range(r))
            else:
                s = set()
                for e in ax:
                    i = axis_of(k, e, r)
                    if i is None:
                        return ERR
                    s.add(i)
            kp = kd is None or not k.eq(tt(kd), I(0))
            return ok([I(1) if i in s else d for i, d in enumerate(x)] if kp else [d for i, d in enumerate(x) if i not in s])
        return outs, spec
    sc("index", f"{op} rank {r} axes {axes} {via} keep {keep}")(build)


for op in ("ReduceMean", "ReduceSum", "ReduceMax"):
    add_reduce(op, 3, ["sym"], "attr", "sym")
    add_reduce(op, 3, None, "none", "sym")
add_reduce("ReduceMean", 3, ["sym", 1], "init")
add_reduce("ReduceSum", 2, ["sym"], "init", 0)
add_reduce("ReduceMean", 4, [2, 3], "both", 0)
add_reduce("ReduceMean", 4, [-1, -2], "empty", 0)
add_reduce("ReduceMax", 2, None, "dyn")
add_reduce("ReduceMax", 2, ["sym"], "attr")


def add_pad(r, via, n=None, dyn=False):
    def build(m):
        x = dims(m, [f"x{i}" for i in range(r)])
        nn = 2 * r if n is None else n
        p = [m.sint(f"p{i}", -2, 4096) for i in range(nn)]
        ins, at = [], {}
        if via == "attr":
            at["pads"] = p
        elif via == "dyn":
            m.input("pads", [nn], INT64)
            ins = ["pads"]
        elif via == "init":
            m.init("pads", [nn], ints=p)
            ins = ["pads"]
        elif via == "both":
            m.init("pads", [nn], ints=p)
            ins = ["pads"]
            at["pads"] = [7] * nn
        outs = x1(m, x, "Pad", ins, **at)

        def spec(k):
            if via in ("dyn", "none") or nn != 2 * r:
                return ERR
            if any(k.le(e, I(-1)) for e in p):
                return ERR
            return ok([add(x[i], add(p[i], p[r + i])) for i in range(r)])
        return outs, spec
    sc("index", f"Pad rank {r} {via} {n}")(build)


for t in ((1, "attr"), (2, "attr"), (2, "init"), (3, "init"), (2, "both"), (2, "attr", 3), (2, "dyn"), (2, "none"), (2, "init", 6)):
    add_pad(*t)


def add_split(label, r, ax, nout, sizes, via):
    def build(m):
        x = dims(m, [f"x{i}" for i in range(r)])
        a = m.sint("axis", -r - 2, r + 1) if ax == "sym" else ax
        z = None if sizes is None else [m.sint(f"z{i}", -2, 4096) if e == "sym" else I(e) for i, e in enumerate(sizes)]
        ins, at = [], {"axis": a}
        if via == "attr":
            at["split"] = z
        elif via == "init":
            m.init("sp", [len(z)], ints=z)
            ins = ["sp"]
        elif via == "dyn":
            m.input("sp", [nout], INT64)
            ins = ["sp"]
        o = [f"y{i}" for i in range(nout)]
        outs = x1(m, x, "Split", ins, outs=o, **at)

        def spec(k):
            if via == "dyn":
                return ERR
            i = axis_of(k, 0 if a is None else a, r)
            if i is None:
                return ERR
            if z is None:
                if not k.when(eq0(rem(x[i], I(nout)))):
                    return ERR
                zz = [div(x[i], I(nout))] * nout
            else:
                if any(k.le(e, I(-1)) for e in z) or len(z) != nout:
                    return ERR
                tot = I(0)
                for e in z:
                    tot = add(tot, e)
                if not k.eq(tot, x[i]):
                    return ERR
                zz = z
            return ok(*[x[:i] + [e] + x[i + 1:] for e in zz])
        return outs, spec
    sc("index", label)(build)


add_split("Split equal", 2, "sym", 2, None, "none")
add_split("Split equal three default axis", 2, None, 3, None, "none")
add_split("Split sizes attr", 2, 1, 2, ["sym", "sym"], "attr")
add_split("Split sizes input", 2, "sym", 2, ["sym", 3], "init")
add_split("Split three sizes", 3, -1, 3, [1, "sym", 2], "init")
add_split("Split wrong count", 2, 0, 3, ["sym", "sym"], "attr")
add_split("Split dynamic", 2, 0, 2, None, "dyn")
add_split("Split one", 1, 0, 1, None, "none")


def add_tile(r, n, dyn=False):
    def build(m):
        x = dims(m, [f"x{i}" for i in range(r)])
        q = [m.sint(f"r{i}", -1, 4096) for i in range(n)]
        m.input("rep", [n], INT64) if dyn else m.init("rep", [n], ints=q)
        outs = x1(m, x, "Tile", ["rep"])

        def spec(k):
            if dyn or n > r:
                return ERR
            if any(k.le(e, I(0)) for e in q):
                return ERR
            qq = [I(1)] * (r - n) + q
            return ok([mul(d, e) for d, e in zip(x, qq)])
        return outs, spec
    sc("index", f"Tile rank {r} repeats {n} {dyn}")(build)


for t in ((1, 1), (2, 2), (3, 2), (3, 1), (1, 2), (2, 2, True)):
    add_tile(*t)


def add_resize(label, r, sizes=None, scales=None, nsz=None, nsc=None, dyn=None):
    def build(m):
        x = dims(m, [f"x{i}" for i in range(r)])
        ins = [""]
        z = sc_ = None
        if scales:
            sc_ = [m.flt(f"f{i}", (0.5, 2.0, 1.0, 1.5, 0.3, 0.0, -1.0)) for i in range(r if nsc is None else nsc)]
            m.init("scales", [len(sc_)], floats=sc_)
            ins.append("scales")
        elif sizes or dyn:
            ins.append("")
        if sizes:
            z = [m.sint(f"z{i}", -2, 4096) for i in range(r if nsz is None else nsz)]
            m.init("sizes", [len(z)], ints=z)
            ins.append("sizes")
        if dyn:
            m.input("sizes", [r], INT64)
            ins.append("sizes")
        outs = x1(m, x, "Resize", ins)

        def spec(k):
            if z is not None and len(z) == r:
                return ERR if any(k.le(e, I(-1)) for e in z) else ok(z)
            if sc_ is not None and len(sc_) == r:
                out = []
                for d, f in zip(x, sc_):
                    if k.when(fop("Le", f, fc(0.0))):
                        return ERR
                    out.append(mk("f2i", "usize", ffn("floor", fop("Mul", mk("i2f", d), f))))
                return ok(out)
            return ERR
        return outs, spec
    sc("index", label)(build)


add_resize("Resize sizes", 2, sizes=True)
add_resize("Resize scales", 2, scales=True)
add_resize("Resize both", 2, sizes=True, scales=True)
add_resize("Resize short sizes, scales", 2, sizes=True, scales=True, nsz=1)
add_resize("Resize short scales", 2, scales=True, nsc=1)
add_resize("Resize none", 2)
add_resize("Resize dynamic sizes", 2, dyn=True)


def add_grid(rx, rg):
    def build(m):
        x = dims(m, [f"x{i}" for i in range(rx)])
        g = dims(m, [f"g{i}" for i in range(rg)])
        m.input("g", g)
        outs = x1(m, x, "GridSample", ["g"])

        def spec(k):
            if rx != 4 or rg != 4:
                return ERR
            if not k.eq(g[3], I(2)) or not k.eq(g[0], x[0]):
                return ERR
            return ok([x[0], x[1], g[1], g[2]])
        return outs, spec
    sc("index", f"GridSample {rx} {rg}")(build)


for t in ((4, 4), (3, 4), (4, 3), (5, 5)):
    add_grid(*t)


def add_range(label, kind, dyn=False):
    def build(m):
        if kind == "int":
            a, b, c = m.sint("start", -4096, 4096), m.sint("limit", -4096, 4096), m.sint("delta", -64, 64)
            for n, v in (("a", a), ("b", b), ("c", c)):
                m.init(n, [], ints=[v])
            fa, fb, fcc = [mk("i2f", v) for v in (a, b, c)]
        else:
            fa, fb, fcc = m.flt("start", (0.0, 1.0, -2.5, 3.0)), m.flt("limit", (5.0, 2.0, -4.0, 0.5)), m.flt("delta", (1.0, 0.5, -1.5, 2.0, 0.0))
            for n, v in (("a", fa), ("b", fb), ("c", fcc)):
                m.init(n, [], floats=[v])
        if dyn:
            m.inits.pop()
            m.input("c", [])
        m.output("y")
        m.node("Range", ["a", "b", "c"], ["y"])

        def spec(k):
            if dyn:
                return ERR
            if k.when(fop("Eq", fcc, fc(0.0))):
                return ERR
            q = ffn("ceil", fop("Div", fop("Sub", fb, fa), fcc))
            return ok([mk("f2i", "usize", ffn("max", q, fc(0.0)))])
        return ["y"], spec
    sc("index", label)(build)


add_range("Range float", "flt")
add_range("Range int", "int")
add_range("Range dynamic", "int", True)


def add_cos(n, via):
    def build(m):
        z = [m.dim(f"z{i}", 0, 4096) for i in range(n)]
        m.output("y")
        if via == "init":
            m.init("s", [n], ints=z)
        elif via == "const":
            m.node("Constant", [], ["s"], value=m.tensor("s", [n], ints=z))
        else:
            m.input("s", [n], INT64)
        m.node("ConstantOfShape", ["s"], ["y"])
        return ["y"], (lambda k: ERR if via == "dyn" else ok(z))
    sc("index", f"ConstantOfShape {n} {via}")(build)


for t in ((1, "init"), (3, "const"), (2, "dyn"), (0, "init")):
    add_cos(*t)


# ------------------------------------------------------------------------------------------------ pass-through and pipeline
SAME = ["Relu", "ReLU", "Int64Relu", "Clip", "Int64Clip", "BatchNormalization", "Int64BatchNormalization", "Cast", "Exp", "Softmax", "Sigmoid", "Gelu",
        "LayerNormalization", "Log", "Sqrt", "Tanh", "Erf", "LeakyRelu", "LeakyReLU", "Identity", "Neg", "HardSwish", "Hardswish", "InstanceNormalization",
        "GroupNormalization", "Not", "Sin", "Cos", "ScatterND"]
for op in SAME:
    def same(m, op=op):
        x = dims(m, ["x0", "x1", "x2"], 0)
        return x1(m, x, op), (lambda k: ok(x))
    sc("flow", f"{op} keeps the shape")(same)


@sc("flow", "LayerNormalization with several outputs is refused")
def _(m):
    x = dims(m, ["x0", "x1"])
    return x1(m, x, "LayerNormalization", outs=("y", "mean")), (lambda k: ERR)


@sc("flow", "dynamic input dimensions count as 1")
def _(m):
    x = [m.sint("d0", -3, 4096), m.sint("d1", -3, 4096)]
    outs = x1(m, x, "Relu")
    return outs, (lambda k: ok([I(1) if k.le(d, I(-1)) else d for d in x]))


@sc("flow", "missing input shape is refused")
def _(m):
    m.input("x", dims(m, ["x0"]))
    m.output("y")
    m.node("Relu", ["nowhere"], ["y"])
    return ["y"], (lambda k: ERR)


@sc("flow", "unsupported operator is refused")
def _(m):
    m.input("x", dims(m, ["x0"]))
    m.output("y")
    m.node("NonMaxSuppression", ["x"], ["y"])
    return ["y"], (lambda k: ERR)


@sc("flow", "chain Conv, Relu, MaxPool, Flatten, Gemm")
def _(m):
    N, C_, H, W, O, D = [m.dim(n, 1, 256) for n in ("N", "C", "H", "W", "O", "D")]
    Kd = m.dim("Kd", 1, 2**20)
    m.input("x", [N, C_, H, W])
    m.init("w", [O, C_, 3, 3], floats=())
    m.init("g", [D, Kd], floats=())
    m.output("y")
    m.node("Conv", ["x", "w"], ["c"], pads=[1, 1, 1, 1])
    m.node("Relu", ["c"], ["r"])
    m.node("MaxPool", ["r"], ["p"], kernel_shape=[2, 2], strides=[2, 2])
    m.node("Flatten", ["p"], ["f"])
    m.node("Gemm", ["f", "g"], ["y"], transB=1)

    def spec(k):
        h, w = add(H, I(0)), W
        if k.lt(H, I(2)) or k.lt(W, I(2)):
            return ERR
        ph, pw = add(div(sub(H, I(2)), I(2)), I(1)), add(div(sub(W, I(2)), I(2)), I(1))
        flat = mul(mul(O, ph), pw)
        if not k.eq(flat, Kd):
            return ERR
        return ok([N, O, H, W], [N, O, H, W], [N, O, ph, pw], [N, flat], [N, D])
    return ["c", "r", "p", "f", "y"], spec


@sc("flow", "nodes listed in reverse order")
def _(m):
    a, b, c = dims(m, ["a", "b", "c"])
    m.input("x", [a, b])
    m.input("z", [c])
    m.output("y")
    m.node("Transpose", ["t2"], ["y"])
    m.node("Add", ["t1", "z"], ["t2"])
    m.node("Unsqueeze", ["x"], ["t1"], axes=[0])

    def spec(k):
        r = bcast(k, [I(1), a, b], [c])
        return ERR if r is None else ok([I(1), a, b], r, r[::-1])
    return ["t1", "t2", "y"], spec


@sc("flow", "declared output shapes do not override inferred ones")
def _(m):
    a, b = dims(m, ["a", "b"])
    m.input("x", [a, b])
    m.output("y", [77, -1, 5])
    m.node("Transpose", ["x"], ["y"])
    return ["y"], (lambda k: ok([b, a]))


@sc("flow", "shape arithmetic: flatten by Shape, Gather, Concat, Reshape")
def _(m):
    a, b, c = [m.dim(n, 1, 64) for n in "abc"]
    m.input("x", [a, b, c])
    m.output("y")
    m.init("i0", [], ints=[0])
    m.init("ax", [1], ints=[0])
    m.init("neg", [1], ints=[-1])
    m.node("Shape", ["x"], ["s"])
    m.node("Gather", ["s", "i0"], ["n"], axis=0)
    m.node("Unsqueeze", ["n", "ax"], ["n1"])
    m.node("Concat", ["n1", "neg"], ["t"], axis=0)
    m.node("Reshape", ["x", "t"], ["y"])
    return ["s", "n", "n1", "t", "y"], (lambda k: ok([3], [], [1], [2], [a, mul(b, c)]))


@sc("flow", "shape arithmetic: Shape, Slice, Concat, Reshape")
def _(m):
    a, b, c = [m.dim(n, 1, 64) for n in "abc"]
    m.input("x", [a, b, c])
    m.output("y")
    m.init("one", [1], ints=[1])
    m.init("end", [1], ints=[2**63 - 1])
    m.init("neg", [1], ints=[-1])
    m.init("zero", [1], ints=[0])
    m.node("Shape", ["x"], ["s"])
    m.node("Slice", ["s", "one", "end", "zero"], ["tail"])
    m.node("Concat", ["neg", "tail"], ["t"], axis=0)
    m.node("Reshape", ["x", "t"], ["y"])
    return ["tail", "t", "y"], (lambda k: ok([2], [3], [a, b, c]))


@sc("flow", "shape arithmetic: negative Gather index and Squeeze")
def _(m):
    a, b = [m.dim(n, 1, 64) for n in "ab"]
    m.input("x", [a, b])
    m.output("y")
    m.init("im", [1], ints=[-1])
    m.node("Shape", ["x"], ["s"])
    m.node("Gather", ["s", "im"], ["l"], axis=0)
    m.node("ConstantOfShape", ["l"], ["y"])
    return ["l", "y"], (lambda k: ok([1], [b]))


@sc("flow", "shape arithmetic: Cast of a Shape slice with start")
def _(m):
    a, b, c = [m.dim(n, 1, 64) for n in "abc"]
    m.input("x", [a, b, c])
    m.output("y")
    m.node("Shape", ["x"], ["s"], start=-2)
    m.node("Cast", ["s"], ["s2"], to=7)
    m.node("ConstantOfShape", ["s2"], ["y"])
    return ["s", "s2", "y"], (lambda k: ok([2], [2], [b, c]))


@sc("flow", "shape arithmetic: Gather of two indices")
def _(m):
    a, b, c = [m.dim(n, 1, 64) for n in "abc"]
    m.input("x", [a, b, c])
    m.output("y")
    i, j = m.sint("i", -3, 2), m.sint("j", -3, 2)
    m.init("ix", [2], ints=[i, j])
    m.node("Shape", ["x"], ["s"])
    m.node("Gather", ["s", "ix"], ["l"], axis=0)
    m.node("Expand", ["one", "l"], ["y"])
    m.init("one", [1], floats=[fc(1.0)])
    X = [a, b, c]

    def spec(k):
        o = []
        for t in (i, j):
            o.append(X[axis_of(k, t, 3)])
        return ok([2], o)
    return ["l", "y"], spec


def slice_fold(m, t):
    a, b, c = [m.dim(n, 1, 64) for n in "abc"]
    m.input("x", [a, b, c])
    m.output("y")
    s, e = m.sint("s", -4, 4), m.sint("e", -4, 4)
    for n, v in (("s", s), ("e", e), ("t", t), ("ax", I(0))):
        m.init(n + "_", [1], ints=[v])
    m.node("Shape", ["x"], ["sh"])
    m.node("Slice", ["sh", "s_", "e_", "ax_", "t_"], ["p"])
    m.node("ConstantOfShape", ["p"], ["y"])
    X = [a, b, c]

    def spec(k):
        def num(v, lo, hi):
            for i in range(lo, hi + 1):
                if k.eq(v, I(i)):
                    return i
        r = X[num(s, -4, 4):num(e, -4, 4):t]
        return ok([len(r)], r)
    return ["p", "y"], spec


for t_ in (1, 2):
    sc("flow", f"shape arithmetic: Slice with step {t_} and negative bounds")(lambda m, t_=t_: slice_fold(m, t_))


@sc("flow", "shape arithmetic: GatherElements, Reshape and Unsqueeze of constants")
def _(m):
    v = [m.dim(f"v{i}", 1, 64) for i in range(4)]
    m.init("d", [2, 2], ints=v)
    i, j = m.sint("i", -2, 1), m.sint("j", -2, 1)
    m.init("ix", [1, 2], ints=[i, j])
    m.init("flat", [1], ints=[-1])
    m.output("y")
    m.node("GatherElements", ["d", "ix"], ["g"], axis=0)
    m.node("Reshape", ["g", "flat"], ["r"])
    m.node("ConstantOfShape", ["r"], ["y"])

    def spec(k):
        p, q = axis_of(k, i, 2), axis_of(k, j, 2)
        return ok([1, 2], [2], [v[2 * p], v[2 * q + 1]])
    return ["g", "r", "y"], spec


@sc("flow", "shape arithmetic: Gather along a matrix axis")
def _(m):
    v = [m.dim(f"v{i}", 1, 64) for i in range(6)]
    m.init("d", [2, 3], ints=v)
    i, ax = m.sint("i", -1, 1), m.sint("ax", 0, 1)
    m.init("ix", [], ints=[i])
    m.output("y")
    m.node("Gather", ["d", "ix"], ["g"], axis=ax)
    m.node("ConstantOfShape", ["g"], ["y"])

    def spec(k):
        if k.eq(ax, I(0)):
            p = axis_of(k, i, 2)
            return ok([3], v[3 * p:3 * p + 3])
        p = axis_of(k, i, 3)
        return ok([2], [v[p], v[3 + p]])
    return ["g", "y"], spec


@sc("flow", "shape arithmetic: Concat of four constants")
def _(m):
    v = [m.dim(f"v{i}", 1, 9) for i in range(7)]
    for i, part in enumerate((v[:4], v[4:5], v[5:6], v[6:])):
        m.init(f"c{i}", [len(part)], ints=part)
    m.output("y")
    m.node("Concat", ["c0", "c1", "c2", "c3"], ["t"], axis=-1)
    m.node("ConstantOfShape", ["t"], ["y"])
    return ["t", "y"], (lambda k: ok([7], list(v)))


@sc("flow", "shape arithmetic: Gather by a matrix of indices")
def _(m):
    v = [m.dim(f"v{i}", 1, 64) for i in range(6)]
    m.init("d", [2, 3], ints=v)
    i, j, q = m.sint("i", -3, 2), m.sint("j", -3, 2), m.sint("q", -2, 1)
    m.init("ix", [1, 2], ints=[i, j])
    m.init("jx", [], ints=[q])
    m.init("flat", [1], ints=[-1])
    m.output("y")
    m.node("Gather", ["d", "ix"], ["g"], axis=1)
    m.node("Gather", ["g", "jx"], ["h"], axis=2)
    m.node("Reshape", ["h", "flat"], ["r"])
    m.node("ConstantOfShape", ["r"], ["y"])

    def spec(k):
        p = [axis_of(k, i, 3), axis_of(k, j, 3)][axis_of(k, q, 2)]
        return ok([2, 1, 2], [2, 1], [2], [v[p], v[3 + p]])
    return ["g", "h", "r", "y"], spec


@sc("flow", "shape arithmetic: Gather of a vector by a matrix of indices")
def _(m):
    v = [m.dim(f"v{i}", 1, 64) for i in range(3)]
    m.init("d", [3], ints=v)
    i, j = m.sint("i", -3, 2), m.sint("j", -3, 2)
    m.init("ix", [2, 1], ints=[i, j])
    m.init("zero", [], ints=[0])
    m.output("y")
    m.node("Gather", ["d", "ix"], ["g"])
    m.node("Gather", ["g", "zero"], ["h"], axis=1)
    m.node("ConstantOfShape", ["h"], ["y"])
    return ["g", "h", "y"], (lambda k: ok([2, 1], [2], [v[axis_of(k, i, 3)], v[axis_of(k, j, 3)]]))


@sc("flow", "shape arithmetic: GatherElements along the last axis, fewer indices than elements")
def _(m):
    v = [m.dim(f"v{i}", 1, 64) for i in range(6)]
    m.init("d", [2, 3], ints=v)
    i, j = m.sint("i", -3, 2), m.sint("j", -3, 2)
    m.init("ix", [2, 1], ints=[i, j])
    m.init("flat", [1], ints=[-1])
    m.output("y")
    m.node("GatherElements", ["d", "ix"], ["g"], axis=-1)
    m.node("Reshape", ["g", "flat"], ["r"])
    m.node("ConstantOfShape", ["r"], ["y"])
    return ["g", "r", "y"], (lambda k: ok([2, 1], [2], [v[axis_of(k, i, 3)], v[3 + axis_of(k, j, 3)]]))


@sc("flow", "shape arithmetic: a Gather index outside the axis gives no shape")
def _(m):
    v = [m.dim(f"v{i}", 1, 64) for i in range(6)]
    m.init("d", [2, 3], ints=v)
    i = m.sint("i", -6, 5)
    m.init("ix", [], ints=[i])
    m.output("y")
    m.node("Gather", ["d", "ix"], ["g"], axis=1)
    m.node("ConstantOfShape", ["g"], ["y"])

    def spec(k):
        if k.lt(i, I(-3)) or not k.lt(i, I(3)):
            return ERR
        p = axis_of(k, i, 3)
        return ok([2], [v[p], v[3 + p]])
    return ["g", "y"], spec


def fold_axes(op, axes, frm, to, kept, by_input):
    """a constant of shape frm, changed to shape `to` by the axes, then one element of its only long axis"""
    name = f"shape arithmetic: constant {op} of {frm} by axes {axes} {'input' if by_input else 'attribute'}"

    @sc("flow", name)
    def _(m):
        v = [m.dim(f"v{i}", 1, 64) for i in range(2)]
        m.init("c", frm, ints=v)
        j = m.sint("j", -2, 1)
        m.init("ix", [], ints=[j])
        m.init("flat", [1], ints=[-1])
        m.output("y")
        if by_input:
            m.init("axes_", [len(axes)], ints=list(axes))
            m.node(op, ["c", "axes_"], ["u"])
        else:
            m.node(op, ["c"], ["u"], axes=list(axes))
        m.node("Gather", ["u", "ix"], ["g"], axis=kept)
        m.node("Reshape", ["g", "flat"], ["r"])
        m.node("ConstantOfShape", ["r"], ["y"])
        return ["u", "r", "y"], (lambda k: ok(to, [1], [v[axis_of(k, j, 2)]]))


for _ax, _to, _kept in (((-1, -2), [2, 1, 1], 0), ((0, -1), [1, 2, 1], 1), ((-2, 0), [1, 1, 2], 2), ((2, 0), [1, 2, 1], 1), ((0, 1), [1, 1, 2], -1), ((-2,), [1, 2], 1)):
    for _by in (False, True):
        fold_axes("Unsqueeze", _ax, [2], _to, _kept, _by)
for _frm, _ax, _to, _kept in (([1, 2, 1], (0, 2), [2], 0), ([1, 2, 1], (-1, 0), [2], 0), ([1, 1, 2], (0, -2), [2], 0), ([2, 1, 1], (-1,), [2, 1], 0), ([1, 2, 1], (0,), [2, 1], 0), ([1, 1, 2], (1,), [1, 2], -1)):
    for _by in (False, True):
        fold_axes("Squeeze", _ax, _frm, _to, _kept, _by)


@sc("flow", "an operator's missing attribute of another kind is not used")
def _(m):
    x = dims(m, ["x0", "x1", "x2"])
    m.input("x", x)
    m.output("y")
    m.node("Flatten", ["x"], ["y"], axis=("float", fc(2.0)))
    return ["y"], (lambda k: ok([x[0], mul(x[1], x[2])]))


# ------------------------------------------------------------------------------------------------ further ranks and parameter sources
add_conv("conv1d, defaults with bias", 3, bias=True)
add_conv("conv2d, strides pads dilations", 4, strides=["s0", 2], pads=["p0", 0, 1, "p3"], dil=[1, "d1"], bias=True)
add_conv("conv3d, abstract strides", 5, strides=["s0", "s1", "s2"], pads=["p0", 1, 2, 3, "p4", 5])
add_conv("conv3d, kernel_shape", 5, kern=[1, "kk1", 3], pads=[0, 0, 1, 0, 2, 0])
for op in ("MaxPool", "AveragePool"):
    add_pool(f"{op} 1d kernel", op, 3, ["k0"])
    add_pool(f"{op} 2d large strides", op, 4, [2, 2], strides=["s0", 5], pads=[1, 0, 0, 1])
    add_pool(f"{op} 3d strides", op, 5, ["k0", 1, 2], strides=["s0", "s1", "s2"])
add_ct("ConvTranspose everything", 4, kern=[3, 2], strides=["s0", 2], pads=[1, "p1", 0, 2], dil=[1, "d1"], opad=[1, 0], group=3)
add_ct("ConvTranspose 3d strides", 5, strides=["s0", "s1", 2], opad=[0, 1, "o2"])

for ra, rb in ((3, 3), (2, 4), (4, 2), (4, 4)):
    add_bin("Mul", ra, rb)
add_bin("Sub", 3, 2)
add_bin("Div", 3, 3)
add_bin("Pow", 3, 0)
add_bin("Add", 4, 1, 1, "initializer")
add_bin("Add", 2, 2, 0)
for t in ((0, 2, 2), (2, 2, 2), (3, 1, 0), (1, 3, 2)):
    add_where(*t)
for t in ((3, 2), (2, 3), (3, 3), (1, 4)):
    add_expand(*t)
add_matmul(1, 4)
add_matmul(4, 1)
add_matmul(5, 3)

for r in (4, 5):
    for op in ("Squeeze", "Unsqueeze"):
        if r < 5 or op == "Squeeze":
            add_sq(f"{op} rank {r} one axis attr", op, r, ["sym"], "attr")
            add_sq(f"{op} rank {r} two axes input", op, r, ["sym", -2], "init")
add_sq("Squeeze rank 4 no axes", "Squeeze", 4, None, "none")
add_sq("Squeeze rank 0 no axes", "Squeeze", 0, None, "none")
add_sq("Squeeze three axes", "Squeeze", 4, [0, -1, "sym"], "attr")
add_sq("Squeeze constant node pair", "Squeeze", 4, [-1, "sym"], "const")
add_sq("Unsqueeze scalar twice", "Unsqueeze", 0, ["sym", "sym"], "init")
add_sq("Unsqueeze rank 1 two abstract axes", "Unsqueeze", 1, ["sym", "sym"], "attr")
add_flatten(5, "sym")
add_transpose(4, ["sym", "sym", 1, 0])
add_transpose(4, [3, "sym", "sym", 0])
add_transpose(5, [4, 2, 0, 1, 3])
add_transpose(0, None)
add_transpose(2, None)
add_transpose(5, None)
add_reshape("Reshape 4 to 2", 4, [0, -1], lo=1, hi=32)
add_reshape("Reshape 1 to 4", 1, ["t0", 2, -1, 3])
add_reshape("Reshape copy in the middle", 4, ["t0", 0, 0, -1], hi=16)
add_reshape("Reshape copies shifted", 3, [-1, 0, 0])
add_reshape("Reshape three abstract", 3, ["t0", "t1", "t2"], hi=16)
add_reshape("Reshape scalar to vector", 0, ["t0"])
add_reshape("Reshape scalar to scalar", 0, [])
add_reshape("Reshape copy past rank with size", 2, [1, 0, 0], hi=16)
add_reshape("Reshape allowzero via constant node", 3, ["t0", 0, 1], allow="az", via="const", lo=0, hi=16)
add_reshape("Reshape attr copies", 3, [0, "t1", -1], via="attr")
for r in (3, 4):
    add_concat(f"Concat two rank {r}", (r, r), "sym")
add_concat("Concat four rank 1", (1, 1, 1, 1), 0)
add_concat("Concat four rank 2", (2, 2, 2, 2), -2)
add_concat("Concat rank 0", (0, 0), 0)

add_slice("Slice rank 3 axis", 3, 1, axes=["sym"])
add_slice("Slice rank 4 axis", 4, 1, axes=["sym"], starts=[-3], ends="sym")
add_slice("Slice rank 3 axis and step", 3, 1, axes=["sym"], steps=[3], starts=[1])
add_slice("Slice two abstract axes", 3, 2, axes=["sym", "sym"], starts=[0, 1], ends=[2, -1])
add_slice("Slice three axes and steps", 3, 3, axes=[2, 0, 1], steps=[1, 2, "sym"], starts=[0, 1, 0], ends=[-1, 2**31 - 1, 5])
add_slice("Slice abstract step and end", 2, 1, axes=[-2], steps=["sym"], starts=[-5])
for t in ((3, 1, "sym"), (4, 1, "sym"), (4, 2, "sym"), (3, 0, "sym"), (1, 3, None)):
    add_gather(*t)
add_gather(3, 1, "sym", idx="init")
add_gather(1, 1, None, "GatherElements")
add_gather(4, 4, "sym", "GatherElements")
add_topk(2, "sym")
add_topk(4, "sym")
add_topk(3, None, outs=("v",))
for t in ((1, None, None), (4, "sym", "sym"), (2, -1, None), (4, 1, -1)):
    add_shape(*t)
for op in ("ReduceMean", "ReduceSum", "ReduceMax"):
    add_reduce(op, 4, ["sym"], "attr", 0)
    add_reduce(op, 4, ["sym", "sym"], "init", 1)
    add_reduce(op, 1, None, "none", 0)
    add_reduce(op, 4, ["sym", -1], "attr")
add_reduce("ReduceMean", 2, None, "dyn", 0)


def add_reduce_noop(op, r, via, noop, keep):
    def build(m):
        x = dims(m, [f"x{i}" for i in range(r)])
        ins, at = [], {"keepdims": keep, "noop_with_empty_axes": noop}
        if via == "init":
            m.init("axes", [0], ints=[])
            ins = ["axes"]
        elif via == "attr":
            at["axes"] = []
        outs = x1(m, x, op, ins, **at)
        return outs, lambda k: ok(x if noop == 1 else [I(1)] * r if keep != 0 else [])
    sc("index", f"{op} rank {r} no axes {via} noop {noop} keep {keep}")(build)


for _i, (_op, _via) in enumerate(itertools.product(("ReduceMean", "ReduceSum", "ReduceMax"), ("init", "attr", "none"))):
    for _noop in (None, 0, 1):
        add_reduce_noop(_op, 2 + _i % 2, _via, _noop, (None, 0, 1)[_i % 3])
add_reduce("ReduceSum", 3, ["sym", 0], "init", 0)
add_reduce("ReduceMax", 3, ["sym", 0], "init", 0)
add_pad(4, "init")
add_pad(3, "attr")
add_pad(4, "attr", 4)
for r in (3, 4):
    add_split(f"Split equal rank {r}", r, "sym", 2, None, "none")
    add_split(f"Split sizes rank {r}", r, "sym", 2, [1, "sym"], "attr")
    add_split(f"Split sizes input rank {r}", r, "sym", 3, ["sym", 1, 2], "init")
add_split("Split four outputs", 2, -1, 4, None, "none")
add_split("Split zero sizes", 2, 1, 3, [0, "sym", 0], "attr")
for t in ((4, 4), (4, 2), (2, 1), (0, 0)):
    add_tile(*t)
add_resize("Resize sizes rank 4", 4, sizes=True)
add_resize("Resize scales rank 4", 4, scales=True)
add_resize("Resize sizes rank 1 over scales", 1, sizes=True, scales=True)
add_cos(2, "init")


def const_param(label, op, r, param, values, spec, names=("y",), dt=None, ins=None, **attrs):
    """a parameter tensor that comes out of a Constant node instead of an initializer"""
    @sc("index", label)
    def _(m):
        x = dims(m, [f"x{i}" for i in range(r)])
        vs = [m.sint(f"v{i}", -r - 1, 64) if e == "sym" else I(e) for i, e in enumerate(values)]
        m.node("Constant", [], [param], value=m.tensor(param, [len(vs)], ints=vs))
        outs = x1(m, x, op, ins or [param], outs=names, **attrs)
        return outs, (lambda k: spec(k, x, vs))


def _cp_pad(k, x, v):
    return ERR if any(k.le(e, I(-1)) for e in v) else ok([add(x[i], add(v[i], v[2 + i])) for i in range(2)])


def _cp_tile(k, x, v):
    return ERR if any(k.le(e, I(0)) for e in v) else ok([mul(x[0], v[0]), mul(x[1], v[1])])


def _cp_reduce(k, x, v):
    i = axis_of(k, v[0], 3)
    return ERR if i is None else ok(x[:i] + [I(1)] + x[i + 1:])


def _cp_split(k, x, v):
    if any(k.le(e, I(-1)) for e in v) or not k.eq(add(v[0], v[1]), x[1]):
        return ERR
    return ok([x[0], v[0]], [x[0], v[1]])


def _cp_expand(k, x, v):
    if any(k.le(e, I(-1)) for e in v):
        return ERR
    r = bcast(k, x, v)
    return ERR if r is None else ok(r)


def _cp_topk(k, x, v):
    return ERR if k.le(v[0], I(0)) or k.lt(x[1], v[0]) else ok([x[0], v[0]], [x[0], v[0]])


def _cp_resize(k, x, v):
    return ERR if any(k.le(e, I(-1)) for e in v) else ok(v)


const_param("Pad by a constant node", "Pad", 2, "p", ["sym", "sym", 1, "sym"], _cp_pad)
const_param("Tile by a constant node", "Tile", 2, "p", ["sym", "sym"], _cp_tile)
for op in ("ReduceMean", "ReduceSum", "ReduceMax"):
    const_param(f"{op} by a constant node", op, 3, "p", ["sym"], _cp_reduce)
const_param("Split by a constant node", "Split", 2, "p", ["sym", "sym"], _cp_split, names=("y", "z"), axis=1)
const_param("Expand by a constant node", "Expand", 2, "p", ["sym", "sym"], _cp_expand)
const_param("TopK by a constant node", "TopK", 2, "p", ["sym"], _cp_topk, names=("y", "z"))
const_param("Resize by a constant node", "Resize", 2, "p", ["sym", "sym"], _cp_resize, ins=["", "", "p"])


@sc("index", "Slice by constant nodes")
def _(m):
    a, b = dims(m, ["a", "b"], 0)
    s, e = m.sint("s", -4096, 4096), m.sint("e", -4096, 4096)
    for n, v in (("s", s), ("e", e), ("ax", I(-1)), ("t", I(2))):
        m.node("Constant", [], [n + "_"], value=m.tensor(n + "_", [1], ints=[v]))
    outs = x1(m, [a, b], "Slice", ["s_", "e_", "ax_", "t_"])

    def spec(k):
        def clampd(v):
            if k.le(v, I(-1)):
                v = add(v, b)
                return I(0) if k.le(v, I(-1)) else v
            return b if k.lt(b, v) else v
        p, q = clampd(s), clampd(e)
        return ok([a, add(div(sub(sub(q, p), I(1)), I(2)), I(1)) if k.lt(p, q) else I(0)])
    return outs, spec
