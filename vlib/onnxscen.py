"""ONNX models of constant structure with abstract dimensions, attribute values and tensor contents."""
from terms import *
import absint as A
from absint import State, Budget
import conc as C
from conc import Giveup, mkseq, hmap, pairs, clist, fc, fsym
import terms
from scen import *

FLOAT, INT32, INT64, BOOL, DOUBLE = 1, 6, 7, 9, 11


def seq(xs):
    return mkseq([x if isinstance(x, terms.T) else I(x) for x in xs])


def tt(x):
    return x if isinstance(x, terms.T) else I(x)


class F(float):
    """marks a Float attribute"""


def st_(x):
    return x if isinstance(x, terms.T) else S(x)


class Model:
    def __init__(self, M):
        self.M = M
        self.st, self.dom = State(), Dom()
        self.nodes, self.inits, self.inputs, self.outputs = [], [], [], []

    # -- abstract scalars
    def dim(self, name, lo=1, hi=12):
        return self.dom.int(name, lo, hi, self.st, "i64")

    def sint(self, name, lo=-4, hi=6):
        return self.dom.int(name, lo, hi, self.st, "i64")

    def name(self, name, table):
        """an abstract string out of a finite table"""
        return mk("ssel", self.dom.int(name, 0, len(table) - 1, self.st, "usize"), tuple(table))

    def flt(self, name, vals=(0.5, -0.25, 1.5, 3.0, -2.0, 0.1)):
        return self.dom.flt(name, list(vals))

    # -- model parts
    def tensor(self, name, dims, ints=None, floats=None, dt=None):
        return self.M.mk("parser::TensorData", name=S(name), dims=seq(dims), data_type=I(dt if dt is not None else INT64 if ints is not None else FLOAT),
                         float_data=mkseq(floats or ()), int_data=seq(ints or ()))

    def attr(self, v):
        P = "parser::AttrValue"
        if isinstance(v, tuple) and v and v[0] == "float":
            return adtv(self.M, P, "Float", v[1])
        if isinstance(v, (int, terms.T)) and not (isinstance(v, terms.T) and v.op == "adt"):
            return adtv(self.M, P, "Int", tt(v))
        if isinstance(v, str):
            return adtv(self.M, P, "String", S(v))
        if isinstance(v, list):
            return adtv(self.M, P, "Ints", seq(v))
        if isinstance(v, tuple) and v[0] == "floats":
            return adtv(self.M, P, "Floats", mkseq(v[1]))
        return adtv(self.M, P, "Tensor", v)

    def node(self, op, inputs, outputs, name=None, **attrs):
        at = [(S(k), self.attr(v)) for k, v in attrs.items() if v is not None]
        self.nodes.append(self.M.mk("parser::ParsedNode", name=S(f"n{len(self.nodes)}" if name is None else name), op_type=st_(op), inputs=mkseq([st_(i) for i in inputs]),
                                    outputs=mkseq([st_(o) for o in outputs]), attributes=hmap(at), domain=S("")))

    def init(self, name, dims, ints=None, floats=None, dt=None, key=None):
        self.inits.append((S(key or name), self.tensor(name, dims, ints, floats, dt)))

    def input(self, name, dims, et=FLOAT):
        self.inputs.append(self.M.mk("parser::IoSpec", name=S(name), shape=seq(dims), elem_type=I(et)))

    def output(self, name, dims=(), et=FLOAT):
        self.outputs.append(self.M.mk("parser::IoSpec", name=S(name), shape=seq(dims), elem_type=I(et)))

    def parsed(self):
        return self.M.mk("parser::ParsedModel", nodes=mkseq(self.nodes), initializers=hmap(self.inits), inputs=mkseq(self.inputs),
                         outputs=mkseq(self.outputs), opset_version=I(17))


def adtv(M, path, variant, payload):
    a = M.prog.adts.get((M.crate, path))
    if a is None:
        raise Giveup(f"type {path} is gone")
    for vi, v in enumerate(a["variants"]):
        if v["name"] == variant:
            return adt(path, vi, variant, (payload,))
    raise Giveup(f"{path} has no variant {variant}")


def infer(mod):
    """[(state, ('ok', hmap) | ('err',))], obligations"""
    M = mod.M
    pm = mk("vref", mod.parsed())
    outs, I1 = M.call("graph::LayerGraph::from_parsed", mod.st, [pm])
    res, raw = [], list(I1.raw)
    for s, v in outs:
        if v.op != "adt":
            raise Giveup("from_parsed: " + show(v)[:80])
        if v.a[2] == "Err":
            res.append((s, ("err",)))
            continue
        g = I1.freeze(s, v.a[3][0])
        o2, I2 = M.call("shape_inference::infer_all_shapes", s, [pm, mk("vref", g)])
        raw += I2.raw
        for s2, v2 in o2:
            if v2.op != "adt":
                raise Giveup("infer_all_shapes: " + show(v2)[:80])
            res.append((s2, ("err",)) if v2.a[2] == "Err" else (s2, ("ok", I2.freeze(s2, v2.a[3][0]))))
        mod.unknown = dict(I2.unknown_calls)
    return res, raw


def shape_of(m, name):
    for k, v in pairs(m):
        if k.op == "str" and k.a[0] == name:
            return v
    return None


def build_graph(mod):
    """[(state, ('ok', LayerGraph) | ('err',))], obligations"""
    outs, I1 = mod.M.call("graph::LayerGraph::from_parsed", mod.st, [mk("vref", mod.parsed())])
    res = []
    for s, v in outs:
        if v.op != "adt":
            raise Giveup("from_parsed: " + show(v)[:80])
        res.append((s, ("err",)) if v.a[2] == "Err" else (s, ("ok", I1.freeze(s, v.a[3][0]))))
    return res, I1.raw


def smap(m):
    """map as a key-sorted tuple of pairs"""
    ps = pairs(m)
    if any(k.op != "str" for k, _ in ps):
        raise Giveup("map with abstract keys")
    return mk("tuple", tuple(mk("tuple", (k, v)) for k, v in sorted(ps, key=lambda kv: kv[0].a[0])))


def deep(M, v):
    """value with maps sorted and references dropped"""
    if v.op in ("vref", "box"):
        return deep(M, v.a[0])
    if v.op in ("hmap", "emptymap"):
        return mk("tuple", tuple(mk("tuple", (x.a[0][0], deep(M, x.a[0][1]))) for x in smap(v).a[0]))
    if v.op in ("arr", "vec"):
        return mk("arr", tuple(deep(M, x) for x in clist(v)))
    if v.op == "tuple":
        return mk("tuple", tuple(deep(M, x) for x in v.a[0]))
    if v.op == "adt":
        return mk("adt", v.a[0], v.a[1], v.a[2], tuple(deep(M, x) for x in v.a[3]))
    return v
