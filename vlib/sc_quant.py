"""Quantiser scenarios: scale configurations, weight quantisation, batch-norm folding, bounds and bit widths."""
from terms import *
from onnxscen import *
from scrun import judge, obligations
import conc as C
import math

Q = "quantizer::"
SCALE, WEIGHT, FOLD, PIPE, BOUND = [], [], [], [], []
LOG2_10 = math.log2(10)


def job(l, label):
    def d(f):
        l.append((label, f))
        return f
    return d


def run(M, m, fn, args, spec, project=lambda x: x):
    outs, I1 = M.call(Q + fn, m.st, args)
    res = []
    for s, v in outs:
        v = I1.freeze(s, v)
        if v.op == "adt" and v.a[2] in ("Ok", "Err"):
            res.append((s, ("err",) if v.a[2] == "Err" else ("ok", project(deep(M, v.a[3][0])))))
        else:
            res.append((s, ("ok", project(deep(M, v)))))
    return judge(m, res, I1.raw, spec, lambda x: x)


def scfg(M, base, exp, alpha):
    return M.mk(Q + "ScaleConfig", base=tt(base), exponent=tt(exp), alpha=tt(alpha))


# ------------------------------------------------------------------------------------------------ scale configuration
@job(SCALE, "default scale")
def _(M):
    m = Model(M)
    path = next((p for (c, p) in M.prog.fns if c == M.crate and "ScaleConfig" in p and p.endswith("::default")), None)
    if path is None:
        raise Giveup("ScaleConfig::default is gone")
    outs, I1 = M.call(path, m.st, [])
    return judge(m, [(s, ("ok", deep(M, I1.freeze(s, v)))) for s, v in outs], I1.raw, lambda k: ("ok", scfg(M, 2, 18, 2**18)), lambda x: x)


for _b, _e in ((2, 0), (2, 1), (2, 18), (2, 31), (2, 62), (10, 0), (10, 5), (10, 18), (3, 7), (1, 40)):
    @job(SCALE, f"scale of base {_b} and exponent {_e}")
    def _(M, b=_b, e=_e):
        m = Model(M)
        return run(M, m, "ScaleConfig::new", [I(b), I(e)], lambda k: ("ok", scfg(M, b, e, b**e)))


@job(SCALE, "scale of an abstract exponent")
def _(M):
    m = Model(M)
    e = m.dom.int("e", 0, 62, m.st, "u32", pref=[0, 1, 5, 18, 31, 62])
    return run(M, m, "ScaleConfig::new", [I(2), e], lambda k: ("ok", scfg(M, 2, e, mk("pow", I(2), e))))


for _d in list(range(0, 19)):
    @job(SCALE, f"exponent for {_d} digits")
    def _(M, d=_d):
        m = Model(M)
        e = 0
        while 2**e < 10**d:
            e += 1
        return run(M, m, "ScaleConfig::exponent_for_digits", [I(d)], lambda k: ("ok", I(e)))


BOUNDS = [0.0, 0.5, 1.0, 1.0000001, 1.5, 2.0, 2.5, 3.0, 4.0, 1000.0, 1024.0, 1025.0, 2.0**20, 2.0**20 + 1, 2.0**31, 1e30]
FIELDS = [0, 1, 2, 3, 8, 30, 31, 32, 62, 63, 64]


def safe_term(k, n, b):
    """the largest e with 2e + ceil(log2 b) + 1 <= n, 0 when there is none"""
    acc = mk("f2i", "u32", ffn("ceil", ffn("log2", b))) if k.when(mk("fcmp", "Lt", fc(1.0), b)) else I(0)
    if not k.le(add(acc, I(1)), n):
        return I(0)
    return div(sub(n, add(acc, I(1))), I(2))


def args_nb(m, hi=125):
    n = m.dom.int("n", 0, hi, m.st, "u32", pref=[x for x in FIELDS + [100, 125] if x <= hi])
    return n, m.flt("b", BOUNDS)


@job(SCALE, "largest safe exponent")
def _(M):
    m = Model(M)
    n, b = args_nb(m)
    return run(M, m, "ScaleConfig::max_safe_exponent", [n, b], lambda k: ("ok", safe_term(k, n, b)))


@job(SCALE, "digits of the largest safe exponent")
def _(M):
    m = Model(M)
    n, b = args_nb(m)
    return run(M, m, "ScaleConfig::max_safe_digits", [n, b], lambda k: ("ok", mk("f2i", "u32", ffn("floor", fop("Div", mk("i2f", safe_term(k, n, b)), fc(LOG2_10))))))


@job(SCALE, "adaptive scale")
def _(M):
    m = Model(M)
    n, b = args_nb(m)

    def spec(k):
        e = safe_term(k, n, b)
        return ("ok", scfg(M, 2, e, mk("pow", I(2), e)))
    return run(M, m, "ScaleConfig::adaptive", [n, b], spec)


for _d in (0, 1, 2, 5, 9, 18):
    @job(SCALE, f"scale for {_d} digits is refused when the field cannot hold it")
    def _(M, d=_d):
        m = Model(M)
        n, b = args_nb(m)
        e = 0
        while 2**e < 10**d:
            e += 1

        def spec(k):
            return ("ok", scfg(M, 2, e, 2**e)) if k.le(I(e), safe_term(k, n, b)) else ERR
        return run(M, m, "ScaleConfig::for_precision", [I(d), n, b], spec)


# ------------------------------------------------------------------------------------------------ whole-pipeline helper
LG, LN, TD = "graph::LayerGraph", "graph::LayerNode", "parser::TensorData"
OPREC = {}


def graph_of(m):
    res, raw = build_graph(m)
    return res, list(raw)


def quantize(m, cfg):
    """[(state, ('ok', QuantizedModel) | ('err',))], obligations"""
    M = m.M
    res, raw = graph_of(m)
    out = []
    for s, r in res:
        if r[0] == "err":
            raise Giveup("the scenario's graph is refused")
        outs, I1 = M.call(Q + "quantize_model", s, [r[1], mk("vref", cfg)])
        raw += I1.raw
        for s2, v in outs:
            if v.op != "adt":
                raise Giveup("quantize_model: " + show(v)[:80])
            out.append((s2, ("err",)) if v.a[2] == "Err" else (s2, ("ok", I1.freeze(s2, v.a[3][0]))))
    return out, raw


def qfield(M, qm, f):
    return M.field(qm, Q + "QuantizedModel", f)


def layers_of(M, qm):
    return clist(M.field(qfield(M, qm, "graph"), LG, "layers"))


def weights_of(M, layer):
    return {k.a[0]: v for k, v in pairs(M.field(layer, LN, "weights"))}


DEFAULT = (2, 18, 2**18)
WV = (0.5, -0.25, 2.0**-19, -2.0**-19, 3 * 2.0**-19, 0.1, -1.7, 2.0**-9, 1000.0)


def guarded(s):
    """an overflow guard of astronomically large bounds is on the path"""
    return any(f[0] == "bl" and f[1].op == "fcmp" and f[2] and any(x.op == "fc" and abs(float(x.a[0])) > 1e250 for x in f[1].a[1:]) for f in facts_of(s))


def wq(w, alpha, k):
    return mk("f2i", "i64", ffn("round", fop("Mul", w, fc(float(alpha**k)))))


def view(M, qm, names=None):
    """operators, inputs, outputs, attributes and weights (by input position) of every layer, and the scale"""
    ls = []
    for l in layers_of(M, qm):
        w = weights_of(M, l)
        ins = clist(M.field(l, LN, "inputs"))
        wl = [deep(M, w.pop(i.a[0])) if i.a[0] in w else S("-") for i in ins]
        wl = [mk("tuple", tuple(M.field(t, TD, f) for f in ("dims", "float_data", "int_data"))) if t.op == "adt" else t for t in wl]
        known = names is None
        ls.append(mk("tuple", (S(M.field(l, LN, "op_type").a[2]), mkseq([i if known or i.a[0] in names else S("*") for i in ins]), M.field(l, LN, "outputs"), deep(M, M.field(l, LN, "attributes")),
                               mkseq(wl), I(len(w)), M.field(l, LN, "needs_rescale"))))
    return deep(M, mk("tuple", (mkseq(ls), qfield(M, qm, "scale_config"))))


def nbits_consistent(M, qm):
    """every layer's bit width is the one recorded under its name"""
    cfg = {k.a[0]: v for k, v in pairs(qfield(M, qm, "n_bits_config"))}
    ls = layers_of(M, qm)
    nm = [M.field(l, LN, "name").a[0] for l in ls]
    for l, n in zip(ls, nm):
        b = M.field(l, LN, "n_bits")
        want = cfg.get(n)
        if (b.a[2] == "None") != (want is None) or want is not None and b.a[3][0] is not want:
            return f"layer {n} has bit width {show(b)} but {show(want) if want is not None else 'none'} is recorded"
    extra = sorted(set(cfg) - set(nm))
    return f"bit widths are recorded for {extra}, which are not layers" if extra else None


def fresh_clash(M, qm, names):
    """tensors made up by the quantizer are told apart by their names across the model"""
    seen = {}
    for l in layers_of(M, qm):
        w = weights_of(M, l)
        for i in clist(M.field(l, LN, "inputs")):
            n = i.a[0]
            if n in names or n not in w:
                continue
            t = deep(M, w[n])
            if n in seen and seen[n][0] is not t:
                return f"two tensors with different contents are both named {n!r}"
            seen[n] = (t,)
    return None


def qjob(l, label, build, cfg=DEFAULT, names=None):
    """build(m) -> spec(k) giving ("ok", [(op, inputs, outputs, {attr}, [weights by position], rescale)]) or ERR"""
    def f(M):
        m = Model(M)
        spec = build(m)
        res, raw = quantize(m, scfg(M, *cfg))
        out = []

        def sp(k):
            w = spec(k)
            if w[0] != "ok":
                return w
            ls = []
            for op, ins, outs, at, ws, rs in w[1]:
                wl = [S("-") if t is None else mk("tuple", (seq(t[0]), mkseq(t[1]), mkseq(t[2]))) for t in ws]
                ls.append(mk("tuple", (S(op), mkseq([S(i) for i in ins]), mkseq([S(o) for o in outs]), deep(M, hmap([(S(a), v) for a, v in at.items()])), mkseq(wl), I(0), I(rs))))
            return ("ok", deep(M, mk("tuple", (mkseq(ls), scfg(M, *cfg)))))
        for s, r in res:
            if r[0] == "ok":
                for bad in (nbits_consistent(M, r[1]), fresh_clash(M, r[1], names) if names is not None else None):
                    if bad:
                        out.append((False if valuations(m.dom, s, n=1) else None, bad))
            v, why = compare(m.dom, s, ("ok", view(M, r[1], names)) if r[0] == "ok" else r, sp)
            if v is None and r[0] == "err" and guarded(s):
                v, why = True, ""
            out.append((v, why))
        return out + obligations(m, raw)
    l.append((label, f))


def fl(m, p, n):
    return [m.flt(f"{p}{i}", WV) for i in range(n)]


def weight_case(label, op, dims, bdims=None, plan=(1, 2), cfg=DEFAULT, xdims=(1, 2), rs=0, extra=(), **attrs):
    """op with constant second (and third) input"""
    def build(m):
        n = math.prod(dims)
        w = fl(m, "w", n)
        m.input("x", list(xdims))
        m.init("w", list(dims), floats=w)
        ins, ws = ["x", "w"], [None]
        q = lambda v, k: ([], [wq(x, cfg[2], k) for x in v]) if k else (v, [])
        ws.append((list(dims),) + q(w, plan[0]))
        if bdims is not None:
            b = fl(m, "b", math.prod(bdims))
            m.init("b", list(bdims), floats=b)
            ins.append("b")
            ws.append((list(bdims),) + q(b, plan[1]))
        m.output("y")
        m.node(op, ins, ["y"], **attrs)
        at = {k: m.attr(v) for k, v in attrs.items()}
        return lambda k: ("ok", [(op, ins, ["y"], at, ws, rs)])
    qjob(WEIGHT, label, build, cfg)


for _cfg in (DEFAULT, (2, 8, 256), (10, 3, 1000), (2, 31, 2**31), (2, 0, 1)):
    weight_case(f"Gemm with bias at scale {_cfg[2]}", "Gemm", (2, 2), (2,), rs=1, cfg=_cfg)
weight_case("Gemm without bias", "Gemm", (2, 3), rs=1)
weight_case("transposed Gemm", "Gemm", (3, 2), (3,), rs=1, transB=1)
weight_case("Conv with bias", "Conv", (2, 1, 1, 2), (2,), rs=1, xdims=(1, 1, 4, 4))
weight_case("Conv without bias", "Conv", (1, 2, 1, 1), rs=1, xdims=(1, 2, 4, 4))
weight_case("ConvTranspose with bias", "ConvTranspose", (1, 2, 2, 1), (2,), rs=1, xdims=(1, 1, 4, 4))
weight_case("MatMul by a constant", "MatMul", (2, 2), rs=1)
weight_case("LayerNormalization", "LayerNormalization", (2,), (2,))
weight_case("GridSample at constant coordinates", "GridSample", (1, 1, 1, 2), plan=(1,), xdims=(1, 1, 4, 4))
for _op, _rs in (("Add", 0), ("Sub", 0), ("Mul", 1), ("Div", 0), ("Max", 0), ("Min", 0)):
    weight_case(f"the constant operand of {_op} keeps its values", _op, (2,), plan=(0,), rs=_rs)


def _ints(m):
    v = [m.sint(f"v{i}", -9, 9) for i in range(4)]
    m.input("x", [1, 2])
    m.init("w", [2, 2], ints=v)
    m.output("y")
    m.node("Gemm", ["x", "w"], ["y"])
    return lambda k: ("ok", [("Gemm", ["x", "w"], ["y"], {}, [None, ([2, 2], [], v)], 1)])


qjob(WEIGHT, "integer weights keep their values", _ints)


def _shared(m):
    """a tensor used at two scales by two layers, and one used by a layer that does not scale it"""
    w = fl(m, "w", 2)
    m.input("x", [1, 2])
    m.init("w", [2], floats=w)
    m.init("k", [2, 2], floats=fl(m, "k", 4))
    kk = [t for t in m.dom.c if t.a[0].startswith("k")]
    m.output("z")
    m.node("Gemm", ["x", "k", "w"], ["a"])
    m.node("Add", ["a", "w"], ["b"])
    m.node("LayerNormalization", ["b", "w"], ["z"])
    q = lambda v, k: [wq(x, 2**18, k) for x in v]
    return lambda k: ("ok", [("Gemm", ["x", "k", "w"], ["a"], {}, [None, ([2, 2], [], q(kk, 1)), ([2], [], q(w, 2))], 1),
                             ("Add", ["a", "w"], ["b"], {}, [None, ([2], w, [])], 0),
                             ("LayerNormalization", ["b", "w"], ["z"], {}, [None, ([2], [], q(w, 1))], 0)])


qjob(WEIGHT, "a tensor shared by layers is scaled for each by its own plan", _shared)


# ------------------------------------------------------------------------------------------------ batch normalisation
def bn_case(label, c, eps=None, lens=None, missing=None, ints=False, extra_in=False):
    def build(m):
        ls = lens or [c] * 4
        vals = (0.5, -0.25, 1.5, 0.0, 2.0, -3.0)
        P = ("scale", "bias", "mean", "var")
        v = {}
        for p, n in zip(P, ls):
            v[p] = [m.sint(f"{p}{i}", 1, 4) for i in range(n)] if ints else [m.flt(f"{p}{i}", (0.75, 3.0, 0.0, -0.25, -1e-5, 0.1) if p == "var" else vals) for i in range(n)]
            if p != missing:
                if ints:
                    m.init(p, [n], ints=v[p])
                else:
                    m.init(p, [n], floats=v[p])
        m.input("x", [1, c, 2, 2])
        if missing:
            m.input(missing, [c])
        m.output("y")
        at = {}
        e = fc(1e-5)
        import struct
        if eps == "abs":
            e = m.flt("eps", [0.25, 2.0**-10, 1.0])
            at["epsilon"] = ("float", e)
        else:
            e = fc(struct.unpack("<f", struct.pack("<f", 1e-5))[0])
        m.node("BatchNormalization", ["x"] + list(P), ["y"], **at)
        A_ = {k: m.attr(w) for k, w in at.items()}

        def spec(k):
            if missing or any(n != ls[0] for n in ls):
                return ERR
            mul_, add_ = [], []
            fv = lambda p, i: mk("i2f", v[p][i]) if ints else v[p][i]
            for i in range(c):
                d = fop("Add", fv("var", i), e)
                if not k.when(mk("fcmp", "Lt", fc(0.0), d)):
                    return ERR
                mu = fop("Div", fv("scale", i), ffn("sqrt", d))
                mul_.append(mu)
                add_.append(fop("Sub", fv("bias", i), fop("Mul", fv("mean", i), mu)))
            return ("ok", [("BatchNormalization", ["x", "*", "*"], ["y"], A_, [None, ([c], [], [wq(x, 2**18, 1) for x in mul_]), ([c], [], [wq(x, 2**18, 2) for x in add_])], 1)])
        return spec
    qjob(FOLD, label, build, names={"x"})


bn_case("one channel, default epsilon", 1)
bn_case("two channels, default epsilon", 2)
bn_case("one channel, abstract epsilon", 1, eps="abs")
bn_case("three channels, abstract epsilon", 3, eps="abs")
bn_case("integer parameters", 2, ints=True)
for _i, _l in enumerate(([2, 1, 2, 2], [2, 2, 3, 2], [2, 2, 2, 1], [1, 2, 2, 2])):
    bn_case(f"parameters of different lengths {_l}", 2, lens=_l)
for _p in ("scale", "bias", "mean", "var"):
    bn_case(f"{_p} computed at run time is refused", 1, missing=_p)


for _n1, _n2 in (("n0", "n1"), ("", ""), ("bn", "bn"), ("", "n1")):
    @job(FOLD, "two normalisations keep their own parameters" + ("" if _n1 == "n0" else ", named " + " and ".join(repr(x) for x in (_n1, _n2))))
    def _(M, _n1=_n1, _n2=_n2):
        return two_norms(M, _n1, _n2)


def two_norms(M, n1, n2):
    def build(m):
        P = {}
        m.input("x", [1, 1, 2, 2])
        for L in "ab":
            for p in ("s", "o", "m", "v"):
                P[L + p] = m.flt(L + p, (0.5, 2.0, 0.75, 1.0))
                m.init(L + p, [1], floats=[P[L + p]])
        m.output("z")
        m.node("BatchNormalization", ["x", "as", "ao", "am", "av"], ["y"], name=n1)
        m.node("BatchNormalization", ["y", "bs", "ao", "bm", "bv"], ["z"], name=n2)
        import struct
        e = fc(struct.unpack("<f", struct.pack("<f", 1e-5))[0])

        def fold(s, o, mn, v):
            mu = fop("Div", P[s], ffn("sqrt", fop("Add", P[v], e)))
            return [None, ([1], [], [wq(mu, 2**18, 1)]), ([1], [], [wq(fop("Sub", P[o], fop("Mul", P[mn], mu)), 2**18, 2)])]

        def spec(k):
            for v in ("av", "bv"):
                if not k.when(mk("fcmp", "Lt", fc(0.0), fop("Add", P[v], e))):
                    return ERR
            return ("ok", [("BatchNormalization", ["x", "*", "*"], ["y"], {}, fold("as", "ao", "am", "av"), 1),
                           ("BatchNormalization", ["y", "*", "*"], ["z"], {}, fold("bs", "ao", "bm", "bv"), 1)])
        return spec
    l = []
    qjob(l, "", build, names={"x", "y"})
    return l[0][1](M)


# ------------------------------------------------------------------------------------------------ square roots and the pipeline
def pow_case(label, exps, dims, asint=False, src="init"):
    def build(m):
        es = [m.flt(f"e{i}", [0.5, 2.0, 1.0, 0.0, 0.25, 0.49, 0.501, 3.0, -1.0, -0.5]) for i in range(exps)] if not asint else [m.sint("e0", 0, 4)]
        m.input("x", [1, 2])
        if src == "init":
            m.init("e", list(dims), **({"ints": es} if asint else {"floats": es}))
        else:
            m.node("Constant", [], ["e"], value=m.tensor("e", list(dims), floats=es))
        m.output("y")
        m.node("Pow", ["x", "e"], ["y"])
        t = (list(dims), [], es) if asint else (list(dims), es, [])
        pre = [] if src == "init" else [("Constant", [], ["e"], {"value": m.attr(m.tensor("e", list(dims), floats=es))}, [], 0)]

        def spec(k):
            if exps != 1 and not asint:
                return ERR          # no safe bound for several exponents
            e = mk("i2f", es[0]) if asint else es[0]
            half = k.when(mk("fcmp", "Lt", ffn("abs", fop("Sub", e, fc(0.5))), fc(1e-9)))
            if not half and not k.when(mk("fcmp", "Le", fc(0.0), e)):
                return ERR          # neither has a negative one
            return ("ok", pre + [("Sqrt", ["x"], ["y"], {}, [None], 0) if half else ("Pow", ["x", "e"], ["y"], {}, [None, t], 0)])
        return spec
    qjob(PIPE, label, build)


pow_case("power with an abstract scalar exponent", 1, ())
pow_case("power with an abstract one-element exponent", 1, (1,))
pow_case("power with an abstract exponent from a Constant node", 1, (), src="const")
pow_case("power with an integer exponent", 1, (), asint=True)
pow_case("power with two exponents", 2, (2,))


@job(PIPE, "a mixed model is quantised layer by layer")
def _(M):
    def build(m):
        w, b = fl(m, "w", 2), fl(m, "b", 1)
        m.input("x", [1, 2])
        m.init("w", [2, 1], floats=w)
        m.init("b", [1], floats=b)
        m.init("h", [], floats=[fc(0.5)])
        m.output("s")
        m.node("Sigmoid", ["p"], ["s"])
        m.node("Pow", ["r", "h"], ["p"])
        m.node("Gemm", ["x", "w", "b"], ["g"])
        m.node("Relu", ["g"], ["r"])
        q = lambda v, k: [wq(x, 2**18, k) for x in v]
        return lambda k: ("ok", [("Sigmoid", ["p"], ["s"], {}, [None], 0), ("Sqrt", ["r"], ["p"], {}, [None], 0),
                                 ("Gemm", ["x", "w", "b"], ["g"], {}, [None, ([2, 1], [], q(w, 1)), ([1], [], q(b, 2))], 1), ("Relu", ["g"], ["r"], {}, [None], 0)])
    l = []
    qjob(l, "", build)
    return l[0][1](M)


# ------------------------------------------------------------------------------------------------ bounds and bit widths
BV = (0.5, -0.25, 1.5, 3.0, -6.0, 40.0, 0.0)        # weights and constants
ALPHA = float(2**18)


def fabs(x):
    return ffn("abs", x)


def fmx(*xs):
    r = xs[0]
    for x in xs[1:]:
        r = ffn("max", r, x)
    return r


def fadd(*xs):
    r = xs[0]
    for x in xs[1:]:
        r = fop("Add", r, x)
    return r


def absmax(xs):
    return fmx(fc(0.0), *[fabs(x) for x in xs])


def l1(xs):
    return fadd(fc(0.0), *[fabs(x) for x in xs])


def bits(k, f, alpha=ALPHA):
    if isinstance(f, list):
        r = bits(k, f[0], alpha)
        for x in f[1:]:
            r = mx(r, bits(k, x, alpha))
        return r
    v = fabs(fop("Mul", fc(alpha), f))
    if k.when(mk("fcmp", "Le", v, fc(1.0))):
        return I(2)
    return add(mk("f2i", "usize", ffn("ceil", ffn("log2", v))), I(1))


def bjob(label, build, cfg=DEFAULT):
    """build(m) -> spec(k) giving {layer name: bound} for the layers that record a bit width, or ERR"""
    def f(M):
        m = Model(M)
        spec = build(m)
        res, raw = quantize(m, scfg(M, *cfg))
        out = []

        def sp(k):
            w = spec(k)
            return w if w in (ERR, ANY) else ("ok", mk("tuple", tuple(mk("tuple", (S(n), bits(k, w[n], float(cfg[2])))) for n in sorted(w))))
        for s, r in res:
            got = r
            if r[0] == "ok":
                bad = nbits_consistent(M, r[1])
                if bad:
                    out.append((False if valuations(m.dom, s, n=1) else None, bad))
                got = ("ok", smap(qfield(M, r[1], "n_bits_config")))
            v, why = compare(m.dom, s, got, sp)
            if v is not True and r[0] == "err" and guarded(s):
                v, why = True, ""
            elif v is False and r[0] == "ok":
                v, why = too_narrow(m.dom, s, got[1], sp)
            out.append((v, why))
        return out + obligations(m, raw)
    BOUND.append((label, f))


def too_narrow(dom, s, got, sp):
    """a valuation on which a recorded width is missing or smaller than the bound needs"""
    g = {p.a[0][0].a[0]: p.a[0][1] for p in got.a[0]}
    for val in valuations(dom, s, n=24):
        try:
            w = sp(KV(val))
            if w == ANY:
                continue
            if w == ERR:
                return False, f"accepted where it must be refused, for {show_val(val)}"
            for p in w[1].a[0]:
                n, b = p.a[0][0].a[0], ev(p.a[0][1], val)
                if n not in g:
                    return False, f"no bit width is recorded for {n}, for {show_val(val)}"
                x = ev(g[n], val)
                if x < b:
                    return False, f"the bit width of {n} is {x} where its values need {b}, for {show_val(val)}"
        except Uneval as e:
            return None, f"not evaluable: {e}"
    return None, "the recorded widths are not the specified ones but no input was found on which one is too small"


def bsetup(m, xdims, n="c", x="x", out="y", vals=BV):
    """an input of bound 1 multiplied by an abstract constant; returns the bound of the product"""
    c = m.flt(n, vals)
    m.input(x, xdims)
    m.init(n, [], floats=[c])
    m.node("Mul", [x, n], [out], name=f"mul_{n}")
    return fop("Mul", fc(1.0), absmax([c]))


OUTER = ("Relu", "LeakyRelu", "MaxPool", "Max", "Min", "Clip", "Exp", "Softmax", "Sigmoid", "Gelu", "Resize", "GridSample", "TopK", "AveragePool", "Sqrt", "Tanh", "Erf", "Pow", "HardSwish",
         "GlobalAveragePool", "Sin", "Cos")
RESC = ("Conv", "Gemm", "MatMul", "Mul", "BatchNormalization", "ConvTranspose")


def op_case(label, op, F, xdims=(1, 2), wts=(), extra_nodes=None, outs=("z",), ins=None, probe=None, cfg=DEFAULT, refuse=None, cvals=BV, **attrs):
    """x -> Mul c -> y -> op(y, wts...) -> z -> Relu; F(m_y, {name: values}) is the bound of z.
    wts: [(name, dims, values or None for integers)]"""
    def build(m):
        my = bsetup(m, list(xdims), vals=cvals)
        V = {}
        for t in wts:
            n, dims, vals = t[:3]
            if n == "":
                continue
            if isinstance(vals, list):
                V[n] = [fc(float(x)) for x in vals]
                m.init(n, list(dims), ints=vals)
            else:
                V[n] = [m.flt(f"{n}{i}", vals or BV) for i in range(math.prod(dims))]
                m.init(n, list(dims), floats=V[n])
        if extra_nodes:
            extra_nodes(m, V)
        m.node(op, ins or (["y"] + [t[0] for t in wts]), list(outs), name="op", **attrs)
        m.node("Relu", [probe or outs[0]], ["r"], name="relu")
        m.output("r")

        def spec(k):
            if refuse and refuse(k, my, V):
                return ERR
            f = F(my, V) if F.__code__.co_argcount - len(F.__defaults__ or ()) == 2 else F(my, V, k)
            if f is ANY or f is ERR:
                return f
            f, g = f if isinstance(f, tuple) else (f, f)
            w = {"mul_c": my, "relu": g}
            w.update(V.get("*", {}))
            if op in RESC or op in OUTER:
                w["op"] = f
            return w
        return spec
    bjob(label, build, cfg)


SQ = (1, 1, 4, 4)
same = lambda my, V: my
for _cfg in ((2, 0, 1), (2, 1, 2), (2, 8, 256), (2, 31, 2**31), (10, 3, 1000)):
    op_case(f"rectified product at scale {_cfg[2]}", "Identity", same, cfg=_cfg)
# operators that keep the bound
for _op in ("Identity", "Neg", "Relu", "Gelu", "HardSwish"):
    op_case(f"{_op} keeps the bound", _op, same)
for _op, _kw, _x in (("Cast", dict(to=1), (1, 2)), ("Flatten", dict(axis=1), SQ), ("Transpose", dict(perm=[0, 1, 3, 2]), SQ), ("MaxPool", dict(kernel_shape=[2, 2]), SQ), ("AveragePool", dict(kernel_shape=[2, 2]), SQ),
                     ("GlobalAveragePool", {}, SQ), ("ReduceMean", dict(axes=[1]), SQ), ("ReduceMax", dict(axes=[1]), SQ)):
    op_case(f"{_op} keeps the bound", _op, same, xdims=_x, **_kw)
for _op, _w, _kw in (("Reshape", [("s", (2,), [1, -1])], {}), ("Squeeze", [("s", (1,), [1])], {}), ("Unsqueeze", [("s", (1,), [1])], {}), ("Tile", [("s", (4,), [1, 1, 2, 1])], {}),
                     ("Gather", [("s", (2,), [0, 1])], dict(axis=2)), ("GatherElements", [("s", (1, 1, 1, 2), [0, 1])], dict(axis=3)), ("Expand", [("s", (4,), [1, 2, 4, 4])], {}),
                     ("Slice", [("s", (1,), [0]), ("e", (1,), [2]), ("a", (1,), [2])], {}), ("Split", [("s", (2,), [1, 3])], dict(axis=2)), ("Resize", [("", (), 0), ("sc", (4,), (2.0, 1.0))], {})):
    op_case(f"{_op} keeps the bound", _op, same, xdims=SQ, wts=_w, outs=("z", "z2") if _op == "Split" else ("z",), **_kw)
op_case("the second output of Split has the bound too", "Split", same, xdims=SQ, wts=[("s", (2,), [1, 3])], outs=("z2", "z"), probe="z", axis=2)
op_case("GridSample keeps the bound", "GridSample", same, xdims=SQ, wts=[("g", (1, 1, 1, 2), (0.5, -0.5))])
op_case("TopK values keep the bound", "TopK", same, wts=[("k", (1,), [1])], outs=("z", "i"))
op_case("TopK indices have bound 1", "TopK", lambda my, V: (my, fc(1.0)), wts=[("k", (1,), [1])], outs=("z", "i"), probe="i")
# operators of bounded range
for _op in ("Tanh", "Erf", "Softmax", "Sigmoid", "Sin", "Cos"):
    op_case(f"{_op} is bounded by 1 after a layer of any bound", _op, lambda my, V: fc(1.0))
# weighted sums
for _b in (False, True):
    bw = [("b", (2,), None)] if _b else []
    bb = (lambda V: absmax(V["b"])) if _b else (lambda V: fc(0.0))
    t = " with bias" if _b else ""
    op_case("Gemm" + t, "Gemm", lambda my, V, bb=bb: fadd(fop("Mul", fmx(fc(0.0), *[l1(V["w"][c::2]) for c in range(2)]), my), bb(V)), xdims=(1, 3), wts=[("w", (3, 2), None)] + bw)
    op_case("transposed Gemm" + t, "Gemm", lambda my, V, bb=bb: fadd(fop("Mul", fmx(fc(0.0), *[l1(V["w"][c * 3:c * 3 + 3]) for c in range(2)]), my), bb(V)), xdims=(1, 3),
            wts=[("w", (2, 3), None)] + bw, transB=1)
    op_case("Conv" + t, "Conv", lambda my, V, bb=bb: fadd(fop("Mul", fmx(fc(0.0), *[l1(V["w"][c * 4:c * 4 + 4]) for c in range(2)]), my), bb(V)), xdims=(1, 2, 4, 4),
            wts=[("w", (2, 2, 1, 2), (0.5, -2.0, 16.0))] + bw)
    op_case("ConvTranspose" + t, "ConvTranspose", lambda my, V, bb=bb: fadd(fop("Mul", fmx(fc(0.0), *[l1([V["w"][(ci * 2 + c) * 2 + k] for ci in range(2) for k in range(2)]) for c in range(2)]), my), bb(V)),
            xdims=(1, 2, 4, 4), wts=[("w", (2, 2, 1, 2), (0.5, -2.0, 16.0))] + bw)
op_case("MatMul by a constant", "MatMul", lambda my, V: fop("Mul", fmx(fc(0.0), *[l1(V["w"][c::2]) for c in range(2)]), my), xdims=(1, 3), wts=[("w", (3, 2), None)])
op_case("MatMul by a constant column", "MatMul", lambda my, V: fop("Mul", fmx(fc(0.0), l1(V["w"])), my), xdims=(1, 3), wts=[("w", (3, 1), None)])
op_case("MatMul of a constant", "MatMul", lambda my, V: fop("Mul", fmx(fc(0.0), *[l1(V["w"][c * 3:c * 3 + 3]) for c in range(2)]), my), xdims=(1, 3, 2), wts=[("w", (2, 3), None)], ins=["w", "y"])


# every layout of the weights: tall, wide, single rows and columns, one or more channels and kernel positions
for _r, _c in ((1, 1), (1, 3), (3, 1), (2, 3), (4, 1), (2, 2), (1, 4)):
    _v = (0.5, -2.0, 16.0)
    op_case(f"Gemm by a {_r}x{_c} weight", "Gemm", lambda my, V, c_=_c: fop("Mul", fmx(fc(0.0), *[l1(V["w"][c::c_]) for c in range(c_)]), my), xdims=(1, _r), wts=[("w", (_r, _c), _v)])
    op_case(f"Gemm by a transposed {_r}x{_c} weight", "Gemm", lambda my, V, r_=_r, c_=_c: fop("Mul", fmx(fc(0.0), *[l1(V["w"][r * c_:r * c_ + c_]) for r in range(r_)]), my), xdims=(1, _c),
            wts=[("w", (_r, _c), _v)], transB=1)
    op_case(f"Gemm with bias by a {_r}x{_c} weight", "Gemm", lambda my, V, c_=_c: fadd(fop("Mul", fmx(fc(0.0), *[l1(V["w"][c::c_]) for c in range(c_)]), my), absmax(V["b"])), xdims=(1, _r),
            wts=[("w", (_r, _c), (0.5, -2.0)), ("b", (_c,), (0.0, -40.0))])
    op_case(f"MatMul by a {_r}x{_c} constant", "MatMul", lambda my, V, c_=_c: fop("Mul", fmx(fc(0.0), *[l1(V["w"][c::c_]) for c in range(c_)]), my), xdims=(1, _r), wts=[("w", (_r, _c), _v)])
    op_case(f"MatMul of a {_r}x{_c} constant", "MatMul", lambda my, V, r_=_r, c_=_c: fop("Mul", fmx(fc(0.0), *[l1(V["w"][r * c_:r * c_ + c_]) for r in range(r_)]), my), xdims=(1, _c, 2),
            wts=[("w", (_r, _c), _v)], ins=["w", "y"])
for _o, _i, _k in ((1, 1, (1, 1)), (1, 2, (1, 2)), (3, 1, (1, 1)), (2, 1, (2, 1)), (1, 3, (1, 1)), (1, 1, (2, 2)), (2, 3, (1, 1))):
    _n, _v = _i * math.prod(_k), (0.5, -2.0, 16.0)
    op_case(f"Conv with {_o} filters over {_i} channels, kernel {_k}", "Conv", lambda my, V, n=_n, o=_o: fop("Mul", fmx(fc(0.0), *[l1(V["w"][c * n:c * n + n]) for c in range(o)]), my),
            xdims=(1, _i, 4, 4), wts=[("w", (_o, _i) + _k, _v)])
    op_case(f"ConvTranspose from {_i} to {_o} channels, kernel {_k}", "ConvTranspose",
            lambda my, V, o=_o, i=_i, n=math.prod(_k): fop("Mul", fmx(fc(0.0), *[l1([V["w"][(ci * o + c) * n + k] for ci in range(i) for k in range(n)]) for c in range(o)]), my),
            xdims=(1, _i, 4, 4), wts=[("w", (_i, _o) + _k, _v)])
op_case("grouped Conv", "Conv", lambda my, V: fop("Mul", fmx(fc(0.0), *[l1(V["w"][c * 2:c * 2 + 2]) for c in range(4)]), my), xdims=(1, 2, 4, 4), wts=[("w", (4, 1, 1, 2), (0.5, -2.0, 16.0))], group=2)
op_case("MatMul by a stack of constants", "MatMul", lambda my, V: fop("Mul", fmx(fc(0.0), *[l1(V["w"][o + c:o + 4:2]) for o in (0, 4) for c in (0, 1)]), my), xdims=(1, 2, 2),
        wts=[("w", (2, 2, 2), (0.5, -16.0))])
for _n in (1, 3):
    for _op, _f in (("Add", lambda a, b: fop("Add", a, b)), ("Mul", lambda a, b: fop("Mul", a, b)), ("Max", lambda a, b: fmx(fc(0.0), a, b))):
        op_case(f"{_op} with {_n} constants", _op, lambda my, V, f=_f: f(my, absmax(V["w"])), wts=[("w", (_n, 1), (0.5, -16.0, 3.0))])


def _bn(my, V):
    import struct
    e = fc(struct.unpack("<f", struct.pack("<f", 1e-5))[0])
    mu, ad = [], []
    for i in range(2):
        x = fop("Div", V["s"][i], ffn("sqrt", fop("Add", V["v"][i], e)))
        mu.append(x)
        ad.append(fop("Sub", V["o"][i], fop("Mul", V["n"][i], x)))
    return fadd(fop("Mul", absmax(mu), my), absmax(ad))


def _bn_refuse(k, my, V):
    import struct
    e = fc(struct.unpack("<f", struct.pack("<f", 1e-5))[0])
    return any(not k.when(mk("fcmp", "Lt", fc(0.0), fop("Add", v, e))) for v in V["v"])


op_case("BatchNormalization", "BatchNormalization", _bn, xdims=(1, 2, 2, 2), wts=[(n, (2,), (0.5, -8.0) if n == "o" else (0.25, 4.0)) for n in "sonv"], refuse=_bn_refuse)
# element-wise arithmetic
for _op, _f in (("Add", lambda a, b: fop("Add", a, b)), ("Sub", lambda a, b: fop("Add", a, b)), ("Mul", lambda a, b: fop("Mul", a, b)), ("Max", lambda a, b: fmx(fc(0.0), a, b)),
                ("Min", lambda a, b: fmx(fc(0.0), a, b))):
    op_case(f"{_op} with a constant", _op, lambda my, V, f=_f: f(my, absmax(V["w"])), wts=[("w", (2,), None)])
    op_case(f"{_op} of a constant", _op, lambda my, V, f=_f: f(absmax(V["w"]), my), wts=[("w", (2,), None)], ins=["w", "y"])
    op_case(f"{_op} with integers", _op, lambda my, V, f=_f: f(my, fc(7.0)), wts=[("w", (2,), [-7, 2])])

    def _two(m, V):
        V["*"] = {"mul_d": bsetup(m, [1, 2], "d", "x2", "y2")}
    op_case(f"{_op} of two branches", _op, lambda my, V, f=_f: f(my, V["*"]["mul_d"]), ins=["y", "y2"], extra_nodes=_two)
    op_case(f"{_op} of a branch and itself", _op, lambda my, V, f=_f: f(my, my), ins=["y", "y"])
op_case("Max of three", "Max", lambda my, V: fmx(fc(0.0), my, absmax(V["v"]), absmax(V["w"])), wts=[("v", (2,), None), ("w", (2,), None)])
op_case("Min of three", "Min", lambda my, V: fmx(fc(0.0), my, absmax(V["v"]), absmax(V["w"])), wts=[("v", (2,), None), ("w", (2,), None)])
op_case("Clip between constants", "Clip", lambda my, V: fmx(fc(0.0), my, absmax(V["lo"]), absmax(V["hi"])), wts=[("lo", (), None), ("hi", (), None)])
op_case("Clip from below", "Clip", lambda my, V: fmx(fc(0.0), my, absmax(V["lo"])), wts=[("lo", (), None)])
op_case("Concat", "Concat", lambda my, V: fmx(fc(0.0), my, absmax(V["w"])), wts=[("w", (1, 2), None)], axis=1)
op_case("Concat of three", "Concat", lambda my, V: fmx(fc(0.0), my, absmax(V["v"]), absmax(V["w"])), wts=[("v", (1, 2), None), ("w", (1, 2), None)], axis=1)


def _where(m, V):
    m.input("q", [1, 2], et=BOOL)


op_case("Where", "Where", lambda my, V: fmx(my, absmax(V["w"])), wts=[("w", (2,), None)], ins=["q", "y", "w"], extra_nodes=_where)
op_case("Where the other way round", "Where", lambda my, V: fmx(absmax(V["w"]), my), wts=[("w", (2,), None)], ins=["q", "w", "y"], extra_nodes=_where)
def _div(my, V, k):
    """zero divisors are left out"""
    d = [fabs(w) for w in V["w"] if k.when(mk("fcmp", "Lt", fc(0.0), fabs(w)))]
    return fop("Div", my, ffn("min", *d) if len(d) > 1 else d[0]) if d else my


op_case("Div by a constant", "Div", _div, wts=[("w", (2,), (0.5, -0.25, 4.0, -8.0))])
op_case("Div by a scalar", "Div", _div, wts=[("w", (), (0.5, -0.25, 4.0, -8.0))])
op_case("Div by integers", "Div", lambda my, V: fop("Div", my, fc(2.0)), wts=[("w", (2,), [5, -2])])
op_case("Pad with zeros", "Pad", lambda my, V: fmx(my, fc(1.0)), xdims=SQ, wts=[("p", (8,), [0, 0, 1, 1, 0, 0, 1, 1])])
op_case("Pad by a value", "Pad", lambda my, V: fmx(my, absmax(V["v"])), xdims=SQ, wts=[("p", (8,), [0, 0, 1, 1, 0, 0, 1, 1]), ("v", (), None)])
op_case("ScatterND of constants", "ScatterND", lambda my, V: fmx(my, absmax(V["u"])), xdims=(1, 3), wts=[("i", (1, 2), [0, 1]), ("u", (1,), None)])
# non-linear operators
op_case("Sqrt", "Sqrt", lambda my, V: fmx(my, ffn("sqrt", my)))
op_case("Exp", "Exp", lambda my, V, k: ffn("exp", my) if k.when(mk("f.is_finite", ffn("exp", my))) else ERR, cvals=(0.0, 0.5, -2.0, 3.0, 20.0, 200.0))
op_case("Log", "Log", lambda my, V: fmx(my, ffn("ln", fc(ALPHA))))
op_case("Log at a small scale", "Log", lambda my, V: fmx(my, ffn("ln", fc(256.0))), cfg=(2, 8, 256))


def _pow(my, V, k):
    e = V["e"][0]
    if k.when(mk("fcmp", "Lt", fabs(fop("Sub", e, fc(0.5))), fc(1e-9))):
        return fmx(my, ffn("sqrt", my))
    if k.when(mk("fcmp", "Le", fc(1.0), e)):
        return ffn("powf", my, e)
    return fmx(my, ffn("powf", my, e)) if k.when(mk("fcmp", "Le", fc(0.0), e)) else ERR


op_case("Pow", "Pow", _pow, wts=[("e", (), (1.0, 2.0, 3.0, 0.0, 0.25, 0.75, 0.5, -1.0))])
op_case("Pow with an integer exponent", "Pow", lambda my, V: ffn("powf", my, fc(3.0)), wts=[("e", (), [3])])
op_case("LeakyRelu by default", "LeakyRelu", lambda my, V: fmx(my, fop("Mul", fc(0.01), my)))


def _leaky(label, vals):
    def build(m):
        my = bsetup(m, [1, 2])
        a = m.flt("a", vals)
        m.node("LeakyRelu", ["y"], ["z"], name="op", alpha=("float", a))
        m.node("Relu", ["z"], ["r"], name="relu")
        m.output("r")
        f = fmx(my, fop("Mul", fabs(a), my))
        return lambda k: {"mul_c": my, "op": f, "relu": f}
    bjob(label, build)


_leaky("LeakyRelu", (0.25, -0.5, 2.0, -4.0, 32.0))


def norm(label, op, eps=None, beta=True, **kw):
    def build(m):
        my = bsetup(m, [1, 2, 2, 2])
        g = [m.flt(f"g{i}", (0.5, -4.0, 16.0)) for i in range(2)]
        b = [m.flt(f"b{i}", (0.0, -2.0**12, 2.0**15)) for i in range(2)]
        m.init("g", [2], floats=g)
        if beta:
            m.init("b", [2], floats=b)
        import struct
        e = fc(max(1e-12, struct.unpack("<f", struct.pack("<f", 1e-5))[0]))
        at = {}
        if eps == "abs":
            e0 = m.flt("eps", [0.25, 2.0**-10, 1.0, 2.0**-20])
            at["epsilon"] = ("float", e0)
            e = fmx(fc(1e-12), e0)
        elif eps is not None:
            at["epsilon"] = ("float", fc(eps))
            e = fc(max(1e-12, eps))
        m.node(op, ["y", "g"] + (["b"] if beta else []), ["z"], name="op", **at, **kw)
        m.node("Relu", ["z"], ["r"], name="relu")
        m.output("r")
        nb = fop("Div", fop("Mul", fc(2.0), my), ffn("sqrt", e))
        f = fadd(fop("Mul", absmax(g), nb), absmax(b) if beta else fc(0.0))
        return lambda k: {"mul_c": my, "relu": f}
    bjob(label, build)


for _op, _kw in (("LayerNormalization", {}), ("InstanceNormalization", {}), ("GroupNormalization", dict(num_groups=1))):
    norm(f"{_op} at the default epsilon", _op, **_kw)
    norm(f"{_op} with an abstract epsilon", _op, "abs", **_kw)
    norm(f"{_op} with a zero epsilon", _op, 0.0, **_kw)
norm("LayerNormalization without offset", "LayerNormalization", beta=False)


# accumulation over abstract sizes
def red(label, axes, keep, rank=3, src="attr"):
    def build(m):
        c = m.flt("c", BV)
        ds = [m.dim(f"d{i}", 1, 9) for i in range(rank - 1)]
        m.input("x", [1] + ds)
        m.init("c", [], floats=[c])
        m.node("Mul", ["x", "c"], ["y"], name="mul_c")
        at = {} if keep is None else dict(keepdims=keep)
        ins = ["y"]
        if axes is not None and src == "attr":
            at["axes"] = list(axes)
        elif axes is not None:
            m.init("a", [len(axes)], ints=list(axes))
            ins.append("a")
        m.node("ReduceSum", ins, ["z"], name="op", **at)
        m.node("Relu", ["z"], ["r"], name="relu")
        m.output("r")
        my = fop("Mul", fc(1.0), absmax([c]))
        n = I(1)
        for i, d in enumerate([I(1)] + ds):
            if axes is None or i in axes or i - rank in axes:
                n = mul(n, d)
        return lambda k: {"mul_c": my, "relu": fop("Mul", my, mk("i2f", n))}
    bjob(label, build)


for _src in ("attr", "init"):
    for _a in ((1,), (2,), (-1,), (1, 2), (0, 1), (-2, -1)):
        for _k in (None, 0, 1):
            red(f"ReduceSum over {_a} from {_src}, keepdims {_k}", _a, _k, src=_src)
red("ReduceSum over everything", None, None)
red("ReduceSum over everything, keepdims 0", None, 0)
red("ReduceSum of a rank four tensor", (2, 3), 0, rank=4)


def dyn(label, da, db, k):
    def build(m):
        n = {s: m.dim(s, 1, 9) for s in "mkn"}
        c, d = m.flt("c", BV), m.flt("d", BV)
        for x, nm, v, ds in (("xa", "c", c, da), ("xb", "d", d, db)):
            m.input(x, [n.get(t, t) for t in ds])
            m.init(nm, [], floats=[v])
            m.node("Mul", [x, nm], ["y" + nm], name="mul_" + nm)
        m.node("MatMul", ["yc", "yd"], ["z"], name="op")
        m.node("Relu", ["z"], ["r"], name="relu")
        m.output("r")
        a, b = absmax([c]), absmax([d])
        f = fop("Mul", fop("Mul", a, b), mk("i2f", n["k"]))
        return lambda kk: {"mul_c": a, "mul_d": b, "op": f, "relu": f}
    bjob(label, build)


dyn("MatMul of two computed matrices", [1, "m", "k"], [1, "k", "n"], "k")
dyn("MatMul of two computed stacks", [1, 2, "m", "k"], [1, 2, "k", "n"], "k")


def _attention(m):
    """the contracted size goes through a reshape and a transposition"""
    c = m.flt("c", BV)
    n = m.dim("n", 1, 6)
    m.input("x", [1, n, 6])
    m.init("c", [], floats=[c])
    m.init("s", [4], ints=[1, -1, 2, 3])
    m.node("Mul", ["x", "c"], ["y"], name="mul_c")
    m.node("Reshape", ["y", "s"], ["h"], name="rs")
    m.node("Transpose", ["h"], ["q"], name="t1", perm=[0, 2, 1, 3])
    m.node("Transpose", ["h"], ["k"], name="t2", perm=[0, 2, 3, 1])
    m.node("MatMul", ["q", "k"], ["a"], name="qk")
    m.node("MatMul", ["a", "q"], ["z"], name="av")
    m.output("z")
    a = absmax([c])
    f = fop("Mul", fop("Mul", a, a), fc(3.0))
    return lambda k: {"mul_c": a, "qk": f, "av": fop("Mul", fop("Mul", f, a), mk("i2f", n))}


bjob("attention: the bounds of chained products", _attention)


# the environment of the bound computation
def _inputs(m):
    m.input("x", [1, 2])
    m.node("Relu", ["x"], ["r"], name="relu")
    m.output("r")
    return lambda k: {"relu": fc(1.0)}


bjob("a model input has bound 1", _inputs)


def _constant(m):
    v = [m.flt(f"v{i}", BV) for i in range(2)]
    m.input("x", [1, 2])
    m.node("Constant", [], ["k"], name="konst", value=m.tensor("k", [2], floats=v))
    m.node("Identity", ["k"], ["i"], name="id")
    m.node("Add", ["x", "i"], ["s"], name="add")
    m.node("Relu", ["s"], ["r"], name="relu")
    m.output("r")
    return lambda k: {"relu": fop("Add", fc(1.0), fmx(fc(1.0), *[fabs(x) for x in v]))}


bjob("a Constant node is bounded by its values", _constant)


def _long(m):
    b = bsetup(m, [1, 2])
    d = m.flt("d", BV)
    m.init("d", [2], floats=[d, fc(0.5)])
    m.node("Add", ["y", "d"], ["a1"], name="a1")
    m.node("Mul", ["a1", "d"], ["p"], name="p")
    m.node("Sub", ["p", "y"], ["q"], name="q")
    m.node("Relu", ["q"], ["r"], name="relu")
    m.node("Add", ["r", "r"], ["s"], name="a2")
    m.node("Relu", ["s"], ["t"], name="relu2")
    m.output("t")
    D = fmx(fc(0.0), fabs(d), fc(0.5))
    a1 = fop("Add", b, D)
    p = fop("Mul", a1, D)
    q = fop("Add", p, b)
    return lambda k: {"mul_c": b, "p": p, "relu": q, "relu2": fop("Add", q, q)}


bjob("bounds accumulate along the graph", _long)


def _order(m):
    """the file lists the consumer before its producers"""
    c = m.flt("c", BV)
    m.input("x", [1, 2])
    m.init("c", [], floats=[c])
    m.output("r")
    m.node("Relu", ["z"], ["r"], name="relu")
    m.node("Add", ["y", "x"], ["z"], name="add")
    m.node("Mul", ["x", "c"], ["y"], name="mul")
    y = absmax([c])
    return lambda k: {"mul": y, "relu": fop("Add", y, fc(1.0))}


bjob("bounds follow the dependencies, not the file order", _order)


def _dups(m):
    """three layers of the same name"""
    c, d = m.flt("c", BV), m.flt("d", BV)
    m.input("x", [1, 2])
    m.init("c", [], floats=[c])
    m.init("d", [], floats=[d])
    m.node("Mul", ["x", "c"], ["y"], name="n")
    m.node("Mul", ["x", "d"], ["z"], name="n")
    m.node("Relu", ["y"], ["r"], name="n")
    m.output("r")
    m.output("z")
    return lambda k: {"n": [absmax([c]), absmax([d])]}


bjob("layers that share a name get the widest width", _dups)
for _op in ("Add", "Sub", "Div", "Neg", "Identity", "Transpose", "Cast", "Flatten"):
    def _none(m, op=_op):
        m.input("x", [1, 2])
        two = op in ("Add", "Sub", "Div")
        if two:
            m.init("w", [2], floats=[fc(2.0), fc(4.0)])
        m.node(op, ["x"] + (["w"] if two else []), ["y"], name="op", **(dict(perm=[1, 0]) if op == "Transpose" else dict(to=1) if op == "Cast" else dict(axis=1) if op == "Flatten" else {}))
        m.output("y")
        return lambda k: {}
    bjob(f"{_op} records no width", _none)


# ------------------------------------------------------------------------------------------------ requested precision
PREC, OBS = [], []


def grow(f):
    """verdicts of a result that may be larger than the rule's but not smaller"""
    return f


def chain(m, kind):
    """a graph and the largest accumulator of its rescaling layers, every rescaled output counting as bounded by 1"""
    w = [m.flt(f"w{i}", BV) for i in range(4)]
    b = [m.flt(f"b{i}", BV) for i in range(2)]
    m.input("x", [1, 2])
    m.output("z")
    G = lambda w_, b_, my=fc(1.0): fadd(fop("Mul", fmx(fc(0.0), *[l1(w_[c::2]) for c in range(2)]), my), absmax(b_) if b_ else fc(0.0))
    if kind == "gemm":
        m.init("w", [2, 2], floats=w)
        m.init("b", [2], floats=b)
        m.node("Gemm", ["x", "w", "b"], ["z"], name="g")
        return fmx(fc(1.0), G(w, b)), ("g", "w", w)
    if kind == "two":
        v = [m.flt(f"v{i}", BV) for i in range(2)]
        m.init("w", [2, 2], floats=w)
        m.init("v", [2, 1], floats=v)
        m.node("Gemm", ["x", "w"], ["h"], name="g")
        m.node("Relu", ["h"], ["r"], name="r")
        m.node("Gemm", ["r", "v"], ["z"], name="g2")
        return fmx(fc(1.0), G(w, None), fop("Mul", fmx(fc(0.0), l1(v)), fc(1.0))), ("g2", "v", v)
    if kind == "sum":
        m.init("w", [2, 2], floats=w)
        m.init("k", [2], floats=b)
        m.node("Add", ["x", "k"], ["h"], name="a")
        m.node("Gemm", ["h", "w"], ["z"], name="g")
        return fmx(fc(1.0), G(w, None, fop("Add", fc(1.0), absmax(b)))), ("g", "w", w)
    if kind == "none":
        m.init("k", [2], floats=b)
        m.node("Add", ["x", "k"], ["z"], name="a")
        return fc(1.0), None
    if kind == "conv":
        m.inputs = []
        m.input("x", [1, 1, 4, 4])
        m.init("w", [2, 1, 1, 2], floats=w)
        m.node("Conv", ["x", "w"], ["z"], name="g")
        return fmx(fc(1.0), fop("Mul", fmx(fc(0.0), l1(w[:2]), l1(w[2:])), fc(1.0))), ("g", "w", w)
    if kind == "reduce":
        m.init("k", [1], floats=b[:1])
        n = m.dim("n", 1, 9)
        m.inputs = []
        m.input("x", [1, n, 3])
        m.node("ReduceSum", ["x"], ["s"], name="s", axes=[1], keepdims=0)
        m.node("Mul", ["s", "k"], ["z"], name="g")
        return fmx(fc(1.0), fop("Mul", mk("i2f", n), absmax(b[:1]))), None
    if kind == "matmul":
        k, n = m.dim("k", 1, 9), m.dim("n", 1, 9)
        m.inputs = []
        m.input("x", [1, 2, k])
        m.input("y", [1, k, n])
        m.node("MatMul", ["x", "y"], ["z"], name="g")
        return fmx(fc(1.0), mk("i2f", k)), None
    raise Giveup(kind)


KINDS = ("gemm", "two", "sum", "none", "conv", "reduce", "matmul")


def exponent_for(d):
    e = 0
    while 2**e < 10**d:
        e += 1
    return e


def mxbound(M, kind):
    m = Model(M)
    f, _ = chain(m, kind)
    res, raw = graph_of(m)
    out = []
    for s, r in res:
        s = s.copy()
        loc = ("arg:graph", 0)
        s.env[loc] = r[1]
        outs, I1 = M.call(Q + "compute_max_bound", s, [mk("ref", loc, ())])
        raw += I1.raw
        for s2, v in outs:
            got = ("err",) if v.a[2] == "Err" else ("ok", I1.freeze(s2, v.a[3][0]))
            vd, why = compare(m.dom, s2, got, lambda k: ("ok", f))
            if vd is False and got[0] == "ok":
                vd, why = None, "the bound is not the specified one"
                for val in valuations(m.dom, s2, n=24):
                    try:
                        x, y = ev(got[1], val), ev(f, val)
                    except Uneval as e:
                        vd, why = None, str(e)
                        break
                    if x < y * (1 - 1e-9):
                        vd, why = False, f"the bound {x:g} is below the largest accumulator {y:g}, for {show_val(val)}"
                        break
            out.append((vd, why))
    return out + obligations(m, raw)


def prec(M, kind, d):
    m = Model(M)
    f, wt = chain(m, kind)
    n = m.dom.int("fieldbits", 0, 125, m.st, "u32", pref=[8, 16, 20, 30, 31, 48, 62, 63, 64, 125])
    e = exponent_for(d)
    res, raw = graph_of(m)
    out = []

    def spec(k):
        if not k.le(I(e), safe_term(k, n, f)):
            return ERR
        w = S("-") if wt is None else mkseq([wq(x, 2**e, 1) for x in wt[2]])
        return ("ok", deep(M, mk("tuple", (scfg(M, 2, e, 2**e), w))))
    for s, r in res:
        outs, I1 = M.call(Q + "quantize_model_for_precision", s, [r[1], I(d), n])
        raw += I1.raw
        for s2, v in outs:
            if v.a[2] == "Err":
                got = ("err",)
            else:
                qm = I1.freeze(s2, v.a[3][0])
                w = S("-")
                if wt is not None:
                    l = [l for l in layers_of(M, qm) if M.field(l, LN, "name").a[0] == wt[0]]
                    w = M.field(weights_of(M, l[0])[wt[1]], TD, "int_data")
                got = ("ok", deep(M, mk("tuple", (qfield(M, qm, "scale_config"), w))))
            vd, why = compare(m.dom, s2, got, spec)
            if vd is not True and got[0] == "err" and guarded(s2):
                vd, why = True, ""
            out.append((vd, why))
    return out + obligations(m, raw)


for _k in KINDS:
    PREC.append((f"largest accumulator of {_k}", lambda M, k=_k: mxbound(M, k)))
    for _d in (0, 2, 5, 9):
        PREC.append((f"{_k} at {_d} digits", lambda M, k=_k, d=_d: prec(M, k, d)))


def observed(M, names, over):
    """layers of the given names, bit widths observed for some"""
    m = Model(M)
    m.input("x", [1, 2])
    prev = "x"
    for i, n in enumerate(names):
        m.node("Relu" if i % 2 else "Identity", [prev], [f"t{i}"], name=n)
        prev = f"t{i}"
    m.output(prev)
    ob = [m.dom.int(f"o{i}", 0, 200, m.st, "usize", pref=[0, 3, 20, 64]) for i in range(len(over))]
    res, raw = quantize(m, scfg(M, *DEFAULT))
    out = []
    for s, r in res:
        qm = r[1]
        cfg0 = {k.a[0]: v for k, v in pairs(qfield(M, qm, "n_bits_config"))}
        old = [M.field(l, LN, "n_bits") for l in layers_of(M, qm)]
        s = s.copy()
        loc = ("arg:model", 0)
        s.env[loc] = qm
        outs, I1 = M.call(Q + "QuantizedModel::apply_observed_n_bits", s, [mk("ref", loc, ()), mk("vref", hmap([(S(n), o) for n, o in zip(over, ob)]))])
        raw += I1.raw
        w = dict(zip(over, ob))
        want_cfg = dict(cfg0)
        want_cfg.update({n: o for n, o in w.items() if n in names})
        some = lambda o: deep(M, adt("std::option::Option", 1, "Some", (o,)))
        sp = deep(M, mk("tuple", (hmap([(S(n), v) for n, v in want_cfg.items()]), mkseq([some(w[n]) if n in w else o for n, o in zip(names, old)]))))
        for s2, v in outs:
            q2 = I1.freeze(s2, s2.env[loc])
            got = deep(M, mk("tuple", (qfield(M, q2, "n_bits_config"), mkseq([M.field(l, LN, "n_bits") for l in layers_of(M, q2)]))))
            out.append(compare(m.dom, s2, ("ok", got), lambda k: ("ok", sp)))
    return out + obligations(m, raw)


for _n, _o in ((["a", "b", "c", "d"], ["b"]), (["a", "b", "c", "d"], ["a", "d"]), (["a", "b", "c", "d"], []), (["a", "b"], ["zz", "b"]), (["a", "a", "b", "a"], ["a"]), (["a", "b", "c", "d"], ["d", "c", "b", "a"])):
    OBS.append((f"widths observed for {_o} of {_n}", lambda M, n=_n, o=_o: observed(M, n, o)))
