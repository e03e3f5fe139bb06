"""Protobuf to ParsedModel (parser::parse_onnx) and the compatibility helpers (compat)."""
from terms import *
from onnxscen import *
from scrun import judge, obligations
import absint as A

PROTO = "onnx_ml::"
PARSE = []
FILE = mk("fileref")


def sc(label, l=PARSE):
    def d(f):
        l.append((label, f))
        return f
    return d


def opt(x, conv=lambda v: v):
    return NONE if x is None else Some(conv(x))


class Proto:
    """builder of onnx_ml values"""
    def __init__(self, m):
        self.m, self.M = m, m.M

    def mk(self, ty, **f):
        return self.M.mk(PROTO + ty, **f)

    def tensor(self, name, dims, dt=None, raw=None, **lists):
        f = {k: mkseq(v) for k, v in lists.items() if k not in ("data_location", "external_data")}
        for k in ("data_location",):
            if k in lists:
                f[k] = Some(I(lists[k]))
        if "external_data" in lists:
            f["external_data"] = mkseq(lists["external_data"])
        return self.mk("TensorProto", name=opt(name, S), dims=seq(dims), data_type=opt(dt, tt), raw_data=opt(raw, mkseq), **f)

    def attr(self, name, ty, **f):
        return self.mk("AttributeProto", name=opt(name, S), type=opt(ty, tt), **f)

    def node(self, op, ins, outs, name=None, attrs=(), domain=None):
        return self.mk("NodeProto", input=mkseq([st_(x) for x in ins]), output=mkseq([st_(x) for x in outs]), name=opt(name, S), op_type=opt(op, st_),
                       domain=opt(domain, S), attribute=mkseq(attrs))

    def dim(self, d):
        v = None if d is None else adtv(self.M, PROTO + "tensor_shape_proto::dimension::Value", "DimParam", S(d)) if isinstance(d, str) else \
            adtv(self.M, PROTO + "tensor_shape_proto::dimension::Value", "DimValue", tt(d))
        return self.mk("tensor_shape_proto::Dimension", value=opt(v))

    def vi(self, name, dims, et=None, kind="tensor"):
        if kind == "none":
            ty = None
        elif kind == "novalue":
            ty = self.mk("TypeProto", value=NONE)
        elif kind == "seq":
            ty = self.mk("TypeProto", value=Some(adtv(self.M, PROTO + "type_proto::Value", "SequenceType", mk("box", self.mk("type_proto::Sequence")))))
        else:
            sh = None if dims is None else self.mk("TensorShapeProto", dim=mkseq([self.dim(d) for d in dims]))
            ty = self.mk("TypeProto", value=Some(adtv(self.M, PROTO + "type_proto::Value", "TensorType", self.mk("type_proto::Tensor", elem_type=opt(et, tt), shape=opt(sh)))))
        return self.mk("ValueInfoProto", name=opt(name, S), type=opt(ty))

    def graph(self, nodes=(), inits=(), ins=(), outs=()):
        return self.mk("GraphProto", node=mkseq(nodes), initializer=mkseq(inits), input=mkseq(ins), output=mkseq(outs))

    def model(self, graph, opset=()):
        ops = [self.mk("OperatorSetIdProto", domain=opt(d, S), version=opt(v, tt)) for d, v in opset]
        return self.mk("ModelProto", opset_import=mkseq(ops), graph=opt(graph))


def io_models(model, rec):
    """effects of the file system and of protobuf decoding on a scenario file"""
    def read(Ip, st, a, i):
        return [(flag(st, "readerr", False), Ok(mk("filebytes"))), (flag(st, "readerr"), Err(mk("ioerr")))]

    def decode(Ip, st, a, i):
        return [(flag(st, "decerr", False), Ok(model)), (flag(st, "decerr"), Err(mk("decerr")))]

    def exists(Ip, st, a, i):
        return [(flag(st, "absent", False), I(1)), (flag(st, "absent"), I(0))]

    def encode(Ip, st, a, i):
        return [(st.copy(), mk("encoded", Ip.freeze(st, a[0])))]

    def write(Ip, st, a, i):
        s = st.copy()
        s.env[("written",)] = Ip.freeze(s, a[1])
        s.env[("writtento",)] = Ip.freeze(s, a[0])
        s.bl[mk("env", "writeerr")] = False
        return [(s, Ok(UNIT)), (flag(st, "writeerr"), Err(mk("ioerr")))]
    r = {"std::fs::read": read, "prost::Message::decode": decode, "std::path::Path::exists": exists, "prost::Message::encode_to_vec": encode, "std::fs::write": write}
    return {"models": r}


def flag(st, name, v=True):
    s = st.copy()
    s.bl[mk("env", name)] = v
    return s


def flags(st):
    return {b.a[0] for b, v in st.bl.items() if b.op == "env" and v}


def parse(m, model):
    """[(state, ('ok', ParsedModel) | ('err',))], obligations"""
    outs, I1 = m.M.call("parser::parse_onnx", m.st, [mk("vref", mk("path", "in"))], io_models(model, m))
    res = []
    for s, v in outs:
        if v.op != "adt":
            raise Giveup("parse_onnx: " + show(v)[:80])
        res.append((s, ("err",)) if v.a[2] == "Err" else (s, ("ok", I1.freeze(s, v.a[3][0]))))
    m.unknown = dict(I1.unknown_calls)
    return res, I1.raw


def project(M, p):
    f = lambda n: deep(M, M.field(p, "parser::ParsedModel", n))
    return mk("tuple", tuple(f(n) for n in ("nodes", "initializers", "inputs", "outputs", "opset_version")))


def want(m, nodes=(), inits=None, ins=(), outs=(), opset=0):
    M = m.M
    inits = inits or {}
    return ("ok", deep(M, mk("tuple", (mkseq([M.mk("parser::ParsedNode", name=S(n), op_type=S(op), inputs=mkseq([S(x) for x in i]), outputs=mkseq([S(x) for x in o]),
                                                     attributes=hmap([(S(k), v) for k, v in at.items()]), domain=S(d)) for n, op, i, o, at, d in nodes]),
                                         hmap([(S(k), v) for k, v in inits.items()]),
                                         mkseq([M.mk("parser::IoSpec", name=S(n), shape=seq(s), elem_type=tt(e)) for n, s, e in ins]),
                                         mkseq([M.mk("parser::IoSpec", name=S(n), shape=seq(s), elem_type=tt(e)) for n, s, e in outs]),
                                         tt(opset)))))


def td(m, name, dims, dt, ints=(), floats=()):
    return m.M.mk("parser::TensorData", name=S(name), dims=seq(dims), data_type=tt(dt), int_data=seq(ints), float_data=mkseq(floats))


def ps(label):
    def d(build):
        def f(M):
            m = Model(M)
            model, spec = build(m, Proto(m))
            res, raw = parse(m, model)
            out = []
            for s, r in res:
                got = ("ok", project(M, r[1])) if r[0] == "ok" else ("err",)
                bad = flags(s)
                out.append(compare(m.dom, s, got, (lambda k: ERR) if bad else spec))
            return out + obligations(m, raw)
        PARSE.append((label, f))
        return build
    return d


@ps("no graph")
def _(m, P):
    return P.model(None), lambda k: ERR


@ps("empty graph, no operator set")
def _(m, P):
    return P.model(P.graph()), lambda k: want(m)


def opsets(label, entries):
    @ps(label)
    def _(m, P):
        vs = [(d, None if v is None else m.sint(f"v{i}", -5, 40)) for i, (d, v) in enumerate(entries)]

        def spec(k):
            best = None
            for d, v in vs:
                if d:
                    continue
                v = I(0) if v is None else v
                if best is None or k.lt(best, v):
                    best = v
            return want(m, opset=I(0) if best is None else best)
        return P.model(P.graph(), vs), spec


opsets("one default operator set", [(None, 1)])
opsets("default operator set named by an empty domain", [("", 1)])
opsets("operator sets of other domains are ignored", [("ai.onnx.ml", 1), (None, 1), ("com.x", 1)])
opsets("only foreign operator sets", [("ai.onnx.ml", 1)])
opsets("several default operator sets, some without version", [(None, 1), ("", None), ("", 1)])

# tensors
RAW = [("Float", 1, 4, "f32"), ("Int32", 6, 4, "i32"), ("Int64", 7, 8, "i64"), ("Bool", 9, 1, "u8"), ("Double", 11, 8, "f64")]


def byte(m, n):
    return m.dom.int(n, 0, 255, m.st, "u8", pref=[0, 1, 2, 63, 64, 127, 128, 191, 192, 255])


for nm, code, size, ty in RAW:
    for cnt in (0, 1, 2, 3):
        @ps(f"raw {nm} data, {cnt} elements")
        def _(m, P, code=code, size=size, ty=ty, cnt=cnt):
            bs = [byte(m, f"b{i}") for i in range(cnt * size)]
            d0 = m.dim("d0", 0, 99)
            t = P.tensor("t", [d0], code, raw=bs)

            def spec(k):
                ints, fl = [], []
                for j in range(cnt):
                    c = bs[j * size:(j + 1) * size]
                    if ty == "u8":
                        ints.append(I(0) if k.eq(c[0], I(0)) else I(1))
                    elif ty in ("f32", "f64"):
                        fl.append(lev(ty, c))
                    else:
                        ints.append(lev(ty, c))
                return want(m, inits={"t": td(m, "t", [d0], code, ints, fl)})
            return P.model(P.graph(inits=[t])), spec


def lev(ty, bs):
    return C.frombytes(ty, "le", mkseq(bs))


for nm, code in (("Undefined", 0), ("Uint8", 2), ("Int8", 3), ("Int16", 5), ("String", 8), ("Float16", 10), ("Uint32", 12), ("Uint64", 13), ("Bfloat16", 16)):
    @ps(f"raw {nm} data is refused")
    def _(m, P, code=code):
        return P.model(P.graph(inits=[P.tensor("t", [1], code, raw=[byte(m, f"b{i}") for i in range(4)])])), lambda k: ERR


@ps("raw data of an unknown or missing type is refused")
def _(m, P):
    dt = m.sint("dt", 27, 90)
    return P.model(P.graph(inits=[P.tensor("t", [1], dt, raw=[byte(m, f"b{i}") for i in range(8)])])), lambda k: ERR


@ps("raw data without a type is refused")
def _(m, P):
    return P.model(P.graph(inits=[P.tensor("t", [1], None, raw=[byte(m, f"b{i}") for i in range(8)])])), lambda k: ERR


for fld, code, conv in (("float_data", 1, "f"), ("double_data", 11, "d"), ("int32_data", 6, "i"), ("int32_data", 9, "i"), ("int32_data", 3, "i"), ("int32_data", 2, "i"), ("int64_data", 7, "i")):
    @ps(f"typed {fld} with type code {code}")
    def _(m, P, fld=fld, code=code, conv=conv):
        a, b = m.sint("a", -9, 9), m.sint("b", -9, 9)
        lim = (-2**63, 2**63 - 1) if code == 7 else (-2**31, 2**31 - 1)
        vs = [m.flt("x"), m.flt("y"), m.flt("z")] if conv in "fd" else [m.dom.int(n, *lim, m.st, "i64", pref=[lim[0], -1, 0, 5, lim[1]]) for n in "xy"]
        t = P.tensor("w", [a, b], code, **{fld: vs})
        return P.model(P.graph(inits=[t])), lambda k: want(m, inits={"w": td(m, "w", [a, b], code, [] if conv in "fd" else vs, vs if conv in "fd" else [])})


@ps("a tensor stored in an external file is refused")
def _(m, P):
    t = P.tensor("w", [m.sint("a", 1, 9)], 1, data_location=1, external_data=[P.mk("StringStringEntryProto", key=Some(S("location")), value=Some(S("w.bin")))])
    return P.model(P.graph(inits=[t])), lambda k: ERR


@ps("external storage is refused whatever else the tensor holds")
def _(m, P):
    k = dict(data_location=1, external_data=[P.mk("StringStringEntryProto", key=Some(S("location")), value=Some(S("w.bin")))])
    ts = [P.tensor("ok", [1], 1, float_data=[m.flt("f")]), P.tensor("w", [1], 1, float_data=[m.flt("g")], **k)]
    return P.model(P.graph(inits=ts)), lambda _: ERR


@ps("external storage with raw data is refused")
def _(m, P):
    return P.model(P.graph(inits=[P.tensor("w", [1], 7, raw=[m.sint(f"b{i}", 0, 255) for i in range(8)], data_location=1)])), lambda _: ERR


@ps("internal storage said explicitly is accepted")
def _(m, P):
    f = m.flt("f")
    return P.model(P.graph(inits=[P.tensor("w", [1], 1, float_data=[f], data_location=0)])), lambda _: want(m, inits={"w": td(m, "w", [1], 1, floats=[f])})


@ps("unsigned 64-bit values are read, values that do not fit are refused")
def _(m, P):
    u, v = m.dom.int("u", 0, 2**64 - 1, m.st, "u64", pref=[0, 7, 2**63 - 1, 2**63, 2**64 - 1]), m.sint("v", 0, 9)
    t = P.tensor("w", [2], 13, uint64_data=[v, u])
    return P.model(P.graph(inits=[t])), lambda k: want(m, inits={"w": td(m, "w", [2], 13, [v, u])}) if k.le(u, I(2**63 - 1)) else ERR


for nm, code, size, ty in RAW:
    if size > 1:
        for n in (1, size - 1, size + 1, 2 * size - 1):
            @ps(f"raw {nm} data of {n} bytes ends within an element")
            def _(m, P, code=code, n=n):
                return P.model(P.graph(inits=[P.tensor("t", [m.dim("d", 0, 9)], code, raw=[byte(m, f"b{i}") for i in range(n)])])), lambda k: ERR


@ps("several initializers keep their own values and names")
def _(m, P):
    x, y, z = m.flt("x"), m.sint("y", -9, 9), m.flt("z")
    ts = [P.tensor("a", [1], 1, float_data=[x]), P.tensor("b", [], 7, int64_data=[y]), P.tensor("c", [1, 1], 11, double_data=[z])]
    return P.model(P.graph(inits=ts)), lambda k: want(m, inits={"a": td(m, "a", [1], 1, [], [x]), "b": td(m, "b", [], 7, [y]), "c": td(m, "c", [1, 1], 11, [], [z])})


@ps("an unreadable tensor anywhere makes the model unreadable")
def _(m, P):
    ts = [P.tensor("a", [1], 1, float_data=[m.flt("x")]), P.tensor("b", [1], 10, raw=[I(0), I(0)]), P.tensor("c", [1], 1, float_data=[m.flt("z")])]
    return P.model(P.graph(inits=ts)), lambda k: ERR


# nodes and attributes
@ps("nodes keep names, operators, domains, inputs and outputs in order")
def _(m, P):
    ns = [P.node("Relu", ["x"], ["y"], "first"), P.node("Split", ["y", "", "s"], ["b", "a"]), P.node(None, [], [], "third", domain="com.x"), P.node("Add", ["b", "a"], ["z"])]
    return P.model(P.graph(nodes=ns)), lambda k: want(m, nodes=[("first", "Relu", ["x"], ["y"], {}, ""), ("node_1", "Split", ["y", "", "s"], ["b", "a"], {}, ""),
                                                              ("third", "", [], [], {}, "com.x"), ("node_3", "Add", ["b", "a"], ["z"], {}, "")])


def attr_case(label, mkattr, wantattr):
    @ps(label)
    def _(m, P):
        e = {}
        at = mkattr(m, P, e)
        w = wantattr(m, e)
        n = P.node("Relu", ["x"], ["y"], "n", attrs=at)
        return P.model(P.graph(nodes=[n])), lambda k: want(m, nodes=[("n", "Relu", ["x"], ["y"], w, "")])


def av(m, v, p):
    return adtv(m.M, "parser::AttrValue", v, p)


def _mk(m, P, e):
    e["f"], e["i"], e["j"], e["g"] = m.flt("f"), m.sint("i", -9, 9), m.sint("j", -9, 9), m.flt("g")
    e["t"] = P.tensor("tn", [1], 7, int64_data=[e["j"]])
    s = mkseq([I(b) for b in b"nearest"])
    return [P.attr("f", 1, f=Some(e["f"])), P.attr("i", 2, i=Some(e["i"])), P.attr("s", 3, s=Some(s)), P.attr("fs", 6, floats=mkseq([e["g"], e["f"]])),
            P.attr("is", 7, ints=seq([e["j"], e["i"], 3])), P.attr("t", 4, t=Some(e["t"]))]


attr_case("every supported attribute kind", _mk, lambda m, e: {
    "f": av(m, "Float", e["f"]), "i": av(m, "Int", e["i"]), "s": av(m, "String", mk("str", "nearest")), "fs": av(m, "Floats", mkseq([e["g"], e["f"]])),
    "is": av(m, "Ints", seq([e["j"], e["i"], 3])), "t": av(m, "Tensor", td(m, "tn", [1], 7, [e["j"]]))})


def _mk2(m, P, e):
    e["i"] = m.sint("i", -9, 9)
    return [P.attr("f", 2, f=Some(m.flt("f")), i=Some(e["i"])), P.attr("a", 1, i=Some(e["i"])), P.attr(None, 2, i=Some(e["i"])), P.attr("n", None, i=Some(e["i"])),
            P.attr("u", 99, i=Some(e["i"])), P.attr("g", 5), P.attr("e", 7), P.attr("x", 2), P.attr("y", 4), P.attr("z", 3), P.attr("w", 6)]


attr_case("the declared kind decides and absent values give no attribute", _mk2, lambda m, e: {"f": av(m, "Int", e["i"]), "e": av(m, "Ints", seq([])), "w": av(m, "Floats", seq([]))})


@ps("an unreadable attribute tensor makes the model unreadable")
def _(m, P):
    n = P.node("Constant", [], ["y"], "n", attrs=[P.attr("value", 4, t=Some(P.tensor("v", [1], 10, raw=[I(0), I(60)])))])
    return P.model(P.graph(nodes=[n])), lambda k: ERR


# inputs and outputs
@ps("input and output shapes keep values, unknown dimensions are -1")
def _(m, P):
    a, b, et = m.sint("a", -3, 5000), m.sint("b", -3, 5000), m.sint("et", 0, 16)
    ins = [P.vi("x", [a, "batch", None, b], et), P.vi("y", None, 7), P.vi(None, [b], None), P.vi("s", [], 1)]
    outs = [P.vi("o", None, None, "none"), P.vi("p", [], 0, "novalue"), P.vi("q", [], 0, "seq"), P.vi("r", [b, a], 1)]
    return P.model(P.graph(ins=ins, outs=outs)), lambda k: want(
        m, ins=[("x", [a, -1, -1, b], et), ("y", [], 7), ("", [b], 0), ("s", [], 1)], outs=[("o", [], 0), ("p", [], 0), ("q", [], 0), ("r", [b, a], 1)])


# ------------------------------------------------------------------------------------------------ tensor accessors
def acc(label, fn, build):
    """build(m) -> (TensorData, spec)"""
    def f(M):
        m = Model(M)
        t, spec = build(m)
        outs, I1 = M.call(f"parser::TensorData::{fn}", m.st, [mk("vref", t)])
        res = [(s, ("ok", deep(M, I1.freeze(s, v)))) for s, v in outs]
        return judge(m, res, I1.raw, spec, lambda x: x)
    PARSE.append((label, f))


for _n in range(4):
    def _b(m, n=_n):
        d = [m.dim(f"d{i}", 0, 4096) for i in range(n)]
        p = I(1)
        for x in d:
            p = mul(p, x)
        return td(m, "t", d, 1), lambda k: ("ok", p)
    acc(f"element count of a rank-{_n} tensor", "total_elements", _b)

    def _b(m, n=_n):
        d = [m.dim(f"d{i}", 0, 4096) for i in range(n)]
        return td(m, "t", d, 1), lambda k: ("ok", mkseq(d))
    acc(f"shape of a rank-{_n} tensor", "shape", _b)
for _n in (0, 1, 3):
    def _b(m, n=_n):
        v = [m.sint(f"v{i}", -2**62, 2**62) for i in range(n)]
        return td(m, "t", [n], 7, ints=v), lambda k: ("ok", mkseq(v))
    acc(f"{_n} integer values as integers", "as_i64_vec", _b)

    def _b(m, n=_n):
        v = [m.sint(f"v{i}", -2**62, 2**62) for i in range(n)]
        return td(m, "t", [n], 7, ints=v), lambda k: ("ok", mkseq([mk("i2f", x) for x in v]))
    acc(f"{_n} integer values as floats", "as_f64_vec", _b)

    def _b(m, n=_n):
        v = [m.flt(f"v{i}") for i in range(n)]
        return td(m, "t", [n], 1, floats=v), lambda k: ("ok", mkseq(v))
    acc(f"{_n} float values as floats", "as_f64_vec", _b)

    def _b(m, n=_n):
        v = [m.flt(f"v{i}") for i in range(n)]
        return td(m, "t", [n], 1, floats=v), lambda k: ("ok", mkseq([mk("f2i", "i64", x) for x in v]))
    acc(f"{_n} float values as integers", "as_i64_vec", _b)
