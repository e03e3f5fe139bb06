"""Graph construction scenarios (LayerGraph::from_parsed)."""
from terms import *
from onnxscen import *
from scrun import judge, obligations

RESCALE = {"Gemm", "Conv", "BatchNormalization", "Mul", "MatMul", "ConvTranspose"}     # layers whose results carry a surplus scale factor
LG = "graph::LayerGraph"
LN = "graph::LayerNode"
FID, TOPO, OPS = [], [], []


def sc(l, label):
    def d(f):
        l.append((label, f))
        return f
    return d


# ------------------------------------------------------------------------------------------------ ordering
def topo_job(build):
    def f(M):
        m = Model(M)
        ins = build(m)          # per node: list of (input term | str), outputs are "o<i>"
        n = len(ins)
        m.input("x", [1, 4])
        m.output(f"o{n - 1}")
        for i, l in enumerate(ins):
            m.node("Add" if len(l) == 2 else "Relu" if len(l) == 1 else "Concat", l, [f"o{i}"] + [f"p{i}"] * m.two)
        res, raw = build_graph(m)

        def edges(k):
            e = set()
            for i, l in enumerate(ins):
                for t in l:
                    for j in range(n):
                        if isinstance(t, str):
                            hit = t in (f"o{j}", f"p{j}")
                        else:
                            hit = any(k.when(ssel_eq(t, S(nm))) for nm in (f"o{j}", f"p{j}") if nm in t.a[1])
                        if hit:
                            e.add((j, i))
                            break
            return e

        def pred(k, got):
            e = edges(k)
            if any(a == b for a, b in e):
                return None
            ready, left = set(), set(range(n))
            while True:
                r = {i for i in left if all(a in ready for a, b in e if b == i)}
                if not r:
                    break
                ready |= r
                left -= r
            if got[0] == "err":
                return None if left else "an acyclic graph is refused"
            if left:
                return f"a cycle among layers {sorted(left)} is accepted"
            o = [t.a[0] if t.op == "int" else None for t in clist(M.field(got[1], LG, "topo_order"))]
            if sorted(x for x in o if x is not None) != list(range(n)) or len(o) != n:
                return f"the order {o} does not list every layer once"
            pos = {x: i for i, x in enumerate(o)}
            for a, b in sorted(e):
                if pos[a] > pos[b]:
                    return f"layer {b} is ordered before layer {a} that produces its input"
            return None
        out = [check_pred(m.dom, s, r, pred) for s, r in res]
        return out + obligations(m, raw)
    return f


def topo(label, spec, two=False):
    """spec: per node a list of entries; '*' abstract name among all outputs and x, 'x', or an int j (output of node j), 'p<j>'"""
    def build(m):
        m.two = int(two)
        n = len(spec)
        tab = ["x"] + [f"o{j}" for j in range(n)] + ([f"p{j}" for j in range(n)] if two else [])
        r = []
        for i, l in enumerate(spec):
            row = []
            for q, e in enumerate(l):
                if e == "*":
                    row.append(m.name(f"in{i}_{q}", [t for t in tab if t[1:] != str(i)]))
                elif isinstance(e, int):
                    row.append(f"o{e}")
                else:
                    row.append(e)
            r.append(row)
        return r
    TOPO.append((label, topo_job(build)))


A = "*"
topo("one layer", [["x"]])
topo("two layers", [[A, A], [A, A]])
topo("three layers", [[A], [A, A], [A]])
topo("three layers, both inputs of the first", [[A, A], [A], [A]])
topo("three layers, both inputs of the last", [[A], [A], [A, A]])
topo("four layers", [[A], [A], [A], [A]])
topo("four layers, diamond in any order", [[A, A], ["x"], [A, 1], [1, A]])
topo("four layers, repeated input", [["x"], [0, 0], [A, A], [A]])
topo("four layers, wide join", [["x"], ["x"], ["x", A, A], [A]])
topo("five layers, reverse chain", [[1], [2], [3], [4], [A]])
topo("five layers, chain with abstract ends", [[A], [0], [1], [2], [A]])
topo("five layers, fan-out", [["x"], [0], [0], [A, A], [A]])
topo("five layers, cycle behind a fan-out", [["x"], [0, A], [1], [2, A], [3]])
topo("six layers, two chains", [[A], [0], [1], ["x"], [3], [2, A]])
topo("three layers, second outputs", [[A], [A], [A]], two=True)
topo("four layers, second outputs", [["x"], ["p0", A], ["p1"], [A]], two=True)


@sc(TOPO, "an omitted optional input and an unused output are not a dependency")
def _(M):
    m = Model(M)
    m.input("x", [1, 4])
    m.output("y")
    m.node("TopK", ["t", "k"], ["y", ""])
    m.node("Clip", ["x", "", "mx"], ["t"])
    m.init("k", [1], ints=[2])
    m.init("mx", [], floats=())
    res, raw = build_graph(m)

    def pred(k, got):
        if got[0] == "err":
            return "an acyclic graph is refused"
        o = [t.a[0] for t in clist(M.field(got[1], LG, "topo_order"))]
        return None if o == [1, 0] else f"order {o}"
    return [check_pred(m.dom, s, r, pred) for s, r in res] + obligations(m, raw)


# ------------------------------------------------------------------------------------------------ fidelity
def enum_name(v):
    return v.a[2] if v.op == "adt" else "?" + show(v)[:30]


def project_graph(M, g):
    rows = []
    for l in clist(M.field(g, LG, "layers")):
        F_ = lambda n: deep(M, M.field(l, LN, n))
        rows.append(mk("tuple", (F_("id"), F_("name"), S(enum_name(M.field(l, LN, "op_type"))), F_("inputs"), F_("outputs"), F_("weights"), F_("attributes"), F_("output_shape"), F_("needs_rescale"), F_("n_bits"))))
    return mk("tuple", (mk("tuple", tuple(rows)), deep(M, M.field(g, LG, "input_names")), deep(M, M.field(g, LG, "output_names")),
                        deep(M, M.field(g, LG, "input_shapes"))))


def want_graph(m, nodes, input_names, output_names, input_shapes):
    """nodes: (name, op, inputs, outputs, weights {input: TensorData}, attrs {name: value})"""
    mp = lambda d: mk("tuple", tuple(mk("tuple", (S(k), deep(m.M, v))) for k, v in sorted(d.items())))
    rows = [mk("tuple", (I(i), S(nm), S(op), seq([S(x) for x in ins]), seq([S(x) for x in outs]), mp(w), mp({k: m.attr(v) for k, v in at.items()}), deep(m.M, seq([])), I(1 if op in RESCALE else 0), NONE))
            for i, (nm, op, ins, outs, w, at) in enumerate(nodes)]
    return ("ok", mk("tuple", (mk("tuple", tuple(rows)), seq([S(x) for x in input_names]), seq([S(x) for x in output_names]),
                               mp({k: seq(v) for k, v in input_shapes.items()}))))


def fid(label):
    def d(build):
        def f(M):
            m = Model(M)
            spec = build(m)
            res, raw = build_graph(m)
            return judge(m, res, raw, spec, lambda g: project_graph(M, g))
        FID.append((label, f))
        return build
    return d


@fid("weights, attributes and names of a two-layer model")
def _(m):
    N, C_, H = [m.dim(n, 1, 512) for n in ("N", "C", "H")]
    w0, w1 = m.flt("w0"), m.flt("w1")
    st = m.sint("st", -5, 5)
    al = m.flt("alpha")
    tw, tb = m.tensor("w", [C_, 2], floats=[w0, w1]), m.tensor("b", [2], floats=[w1, w1])
    m.inits += [(S("w"), tw), (S("b"), tb)]
    m.input("x", [N, C_, H])
    m.output("y")
    m.output("z")
    m.node("Gemm", ["x", "w", "b"], ["h"], name="first", alpha=("float", al), transB=st)
    m.node("Split", ["h"], ["y", "z"], name="second", axis=-1, split=[1, 1], mode="nearest")

    return lambda k: want_graph(m, [("first", "Gemm", ["x", "w", "b"], ["h"], {"w": tw, "b": tb}, {"alpha": ("float", al), "transB": st}),
                                    ("second", "Split", ["h"], ["y", "z"], {}, {"axis": -1, "split": [1, 1], "mode": "nearest"})],
                                ["x"], ["y", "z"], {"x": [C_, H]})


@fid("initializers listed among the inputs are not inputs")
def _(m):
    a = m.dim("a", 1, 64)
    tw = m.tensor("w", [a], floats=[m.flt("f")])
    m.inits.append((S("w"), tw))
    m.input("w", [a])
    m.input("x", [2, a])
    m.input("v", [a])
    m.output("y")
    m.node("Add", ["x", "w"], ["t"])
    m.node("Add", ["t", "v"], ["y"])
    return lambda k: want_graph(m, [("n0", "Add", ["x", "w"], ["t"], {"w": tw}, {}), ("n1", "Add", ["t", "v"], ["y"], {}, {})],
                                ["x", "v"], ["y"], {"x": [a], "v": [a]})


@fid("constants become weights, initializers win over constants")
def _(m):
    a = m.dim("a", 1, 64)
    f, g = m.flt("f"), m.flt("g")
    tc, tc2, ti = m.tensor("c", [a], floats=[f]), m.tensor("d", [1], floats=[g]), m.tensor("d", [2], floats=[g, f])
    m.inits.append((S("d"), ti))
    m.input("x", [a, a])
    m.output("y")
    m.node("Constant", [], ["c"], value=tc)
    m.node("Constant", [], ["d"], value=tc2)
    m.node("Mul", ["x", "c"], ["t"])
    m.node("Add", ["t", "d"], ["y"])
    return lambda k: want_graph(m, [("n0", "Constant", [], ["c"], {}, {"value": tc}), ("n1", "Constant", [], ["d"], {}, {"value": tc2}),
                                    ("n2", "Mul", ["x", "c"], ["t"], {"c": tc}, {}), ("n3", "Add", ["t", "d"], ["y"], {"d": ti}, {})],
                                ["x"], ["y"], {"x": [a]})


@fid("a constant listed after its consumer")
def _(m):
    a = m.dim("a", 1, 64)
    tc = m.tensor("c", [a], ints=[m.sint("v", -9, 9)])
    m.input("x", [a])
    m.output("y")
    m.node("Sub", ["c", "x"], ["y"])
    m.node("Constant", [], ["c"], value=tc)
    return lambda k: want_graph(m, [("n0", "Sub", ["c", "x"], ["y"], {"c": tc}, {}), ("n1", "Constant", [], ["c"], {}, {"value": tc})],
                                ["x"], ["y"], {"x": [a]})


@fid("a constant without a tensor value carries no weight")
def _(m):
    m.input("x", [3])
    m.output("y")
    m.node("Constant", [], ["c"], value_float=("float", m.flt("f")))
    m.node("Add", ["x", "c"], ["y"])
    return lambda k: want_graph(m, [("n0", "Constant", [], ["c"], {}, {"value_float": ("float", m.flt("f"))}), ("n1", "Add", ["x", "c"], ["y"], {}, {})],
                                ["x"], ["y"], {"x": [3]})


@fid("weights of one layer are not given to another")
def _(m):
    ta, tb = m.tensor("a", [1], floats=[m.flt("f")]), m.tensor("b", [1], floats=[m.flt("g")])
    m.inits += [(S("a"), ta), (S("b"), tb), (S("unused"), m.tensor("unused", [1], floats=[m.flt("h")]))]
    m.input("x", [3, 4])
    m.output("z")
    m.node("Mul", ["x", "a"], ["y"])
    m.node("Mul", ["b", "y"], ["t"])
    m.node("Mul", ["a", "t"], ["z"])
    return lambda k: want_graph(m, [("n0", "Mul", ["x", "a"], ["y"], {"a": ta}, {}), ("n1", "Mul", ["b", "y"], ["t"], {"b": tb}, {}),
                                    ("n2", "Mul", ["a", "t"], ["z"], {"a": ta}, {})], ["x"], ["z"], {"x": [4]})


for r in range(5):
    def shp(m, r=r):
        d = [m.sint(f"d{i}", -2, 4096) for i in range(r)]
        m.input("x", d)
        m.output("y")
        m.node("Relu", ["x"], ["y"])

        def spec(k):
            e = [I(1) if k.le(t, I(0)) else t for t in d]
            return want_graph(m, [("n0", "Relu", ["x"], ["y"], {}, {})], ["x"], ["y"], {"x": e[1:] if r >= 2 else e})
        return spec
    fid(f"input shape of rank {r} without the batch dimension")(shp)


@fid("several inputs and outputs keep their order")
def _(m):
    ds = [m.dim(f"d{i}") for i in range(4)]
    for n, d in zip(("q", "b", "x", "a"), ds):
        m.input(n, [1, d])
    for o in ("z", "y", "a2"):
        m.output(o)
    m.node("Add", ["q", "b"], ["z"])
    m.node("Add", ["x", "a"], ["y"])
    m.node("Add", ["b", "x"], ["a2"])
    return lambda k: want_graph(m, [("n0", "Add", ["q", "b"], ["z"], {}, {}), ("n1", "Add", ["x", "a"], ["y"], {}, {}), ("n2", "Add", ["b", "x"], ["a2"], {}, {})],
                                ["q", "b", "x", "a"], ["z", "y", "a2"], dict(zip(("q", "b", "x", "a"), [[d] for d in ds])))


@fid("an unknown operator anywhere is refused")
def _(m):
    op = m.name("op", ("Relu", "LSTM", "", "relu", "Conv ", "Neg"))
    m.input("x", [3])
    m.output("y")
    m.node("Relu", ["x"], ["t"])
    m.node(op, ["t"], ["y"])

    def spec(k):
        for n in ("Relu", "Neg"):
            if k.when(ssel_eq(op, S(n))):
                return want_graph(m, [("n0", "Relu", ["x"], ["t"], {}, {}), ("n1", n, ["t"], ["y"], {}, {})], ["x"], ["y"], {"x": [3]})
        return ERR
    return spec


def every_op(weighted):
    def b(m):
        import sc_ops
        ops = sc_ops.STD
        a = m.dim("a", 1, 64)
        tw, tc = m.tensor("w", [a], floats=[m.flt("f")]), m.tensor("c", [a], ints=[m.sint("v", -9, 9)])
        m.inits.append((S("w"), tw))
        m.input("x", [a, a])
        m.output("y")
        m.node("Constant", [], ["c"], value=tc)
        want = [("n0", "Constant", [], ["c"], {}, {"value": tc})]
        prev = "x"
        for i, o in enumerate(x for x in ops if x != "Constant"):
            ins = ["c", prev, "w"] if weighted == 2 else [prev, "w"] if weighted else [prev]
            m.node(o, ins, [f"t{i}"], k=i)
            want.append((f"n{i + 1}", o, ins, [f"t{i}"], dict([("w", tw)][:weighted] + [("c", tc)][:max(0, weighted - 1)]), {"k": i}))
            prev = f"t{i}"
        return lambda k: want_graph(m, want, ["x"], ["y"], {"x": [a]})
    return b


for _w in (0, 1, 2):
    fid(f"a model using every operator, {('without weights', 'with an initializer each', 'with a constant and an initializer each')[_w]}")(every_op(_w))


@fid("names of nodes, tensors and attributes may coincide")
def _(m):
    a = m.dim("a", 1, 64)
    tc, tw = m.tensor("c", [a], floats=[m.flt("f")]), m.tensor("w", [a], floats=[m.flt("g")])
    m.inits.append((S("w"), tw))
    m.input("x", [a])
    m.output("w2")
    m.node("Constant", [], ["c"], name="c", value=tc)
    m.node("Add", ["c", "x"], ["t"], name="c")
    m.node("Mul", ["t", "c"], ["u"], name="w", c=1)
    m.node("Sub", ["u", "w"], ["x2"], name="x")
    m.node("Div", ["x2", "c"], ["w2"], name="c", w=2)
    return lambda k: want_graph(m, [("c", "Constant", [], ["c"], {}, {"value": tc}), ("c", "Add", ["c", "x"], ["t"], {"c": tc}, {}), ("w", "Mul", ["t", "c"], ["u"], {"c": tc}, {"c": 1}),
                                    ("x", "Sub", ["u", "w"], ["x2"], {"w": tw}, {}), ("c", "Div", ["x2", "c"], ["w2"], {"c": tc}, {"w": 2})], ["x"], ["w2"], {"x": [a]})


@fid("operands used twice and constants with two outputs")
def _(m):
    a = m.dim("a", 1, 64)
    tc, tw = m.tensor("c", [a], floats=[m.flt("f")]), m.tensor("w", [a], floats=[m.flt("g")])
    m.inits.append((S("w"), tw))
    m.input("x", [a])
    m.output("y")
    m.node("Constant", [], ["c", "d"], value=tc)
    m.node("Concat", ["w", "w", "x", "d", "c", "x"], ["t"])
    m.node("Where", ["c", "t", "t"], ["y"])
    return lambda k: want_graph(m, [("n0", "Constant", [], ["c", "d"], {}, {"value": tc}), ("n1", "Concat", ["w", "w", "x", "d", "c", "x"], ["t"], {"w": tw, "c": tc, "d": tc}, {}),
                                    ("n2", "Where", ["c", "t", "t"], ["y"], {"c": tc}, {})], ["x"], ["y"], {"x": [a]})


# attribute accessors -----------------------------------------------------------------------------
def accessor(kind, fn, good):
    def f(M):
        out = []
        m = Model(M)
        vals = {"Int": m.sint("i", -9, 9), "Float": ("float", m.flt("f")), "String": "text", "Ints": [1, m.sint("j", -9, 9)], "Floats": ("floats", [m.flt("g")]),
                "Tensor": m.tensor("t", [1], ints=[3])}
        m.input("x", [3])
        m.output("y")
        m.node("Relu", ["x"], ["y"], **vals)
        res, raw = build_graph(m)
        out += obligations(m, raw)
        for s, r in res:
            if r[0] != "ok":
                return [(None, "graph refused")]
            layer = clist(M.field(r[1], LG, "layers"))[0]
            for nm in list(vals) + ["absent"]:
                os, ip = M.call("graph::LayerNode::" + fn, s, [mk("vref", layer), mk("vref", S(nm))])
                for s2, v in os:
                    v = deep(M, ip.freeze(s2, v))
                    w = m.attr(vals[nm]) if nm == good else None
                    want = NONE if w is None else Some(deep(M, w.a[3][0]))
                    out.append(compare(m.dom, s2, ("ok", v), lambda k: ("ok", want)))
        return out
    FID.append((f"{fn} returns attributes of its own kind only", f))


for g_, fn_ in (("Ints", "get_ints_attr"), ("Int", "get_int_attr"), ("Float", "get_float_attr"), ("String", "get_string_attr")):
    accessor(g_, fn_, g_)


def iter_job(M):
    m = Model(M)
    tab = ["x", "o0", "o1", "o2"]
    ins = [m.name(f"in{i}", [t for t in tab if t != f"o{i}"]) for i in range(3)]
    m.input("x", [1])
    m.output("o2")
    for i in range(3):
        m.node("Relu", [ins[i]], [f"o{i}"], name=f"layer{i}")
    res, raw = build_graph(m)
    out = obligations(m, raw)
    for s, r in res:
        if r[0] != "ok":
            continue
        order = clist(M.field(r[1], LG, "topo_order"))
        os, ip = M.call("shape_inference::infer_all_shapes", s, [mk("vref", m.parsed()), mk("vref", r[1])])
        for s2, v in os:
            out.append((v.a[2] == "Ok" or None, "a chain of layers has no shape" if v.a[2] != "Ok" else ""))
        out += obligations(m, ip.raw)
    return out


FID.append(("traversal in topological order sees every producer first", iter_job))
