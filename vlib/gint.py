"""The abstract interpreter over several crates at once, for code generic in a field, a transcript and a commitment scheme.

Trait methods of type parameters have no body to follow: field operations are polynomial arithmetic (fieldalg), a transcript
is the history of what it absorbed (a challenge is an atom naming that history), a proof reader is a position in a sequence
of opaque items."""
import os, re
import extract, harness
from terms import *
import fieldalg as FA
from fieldalg import fe
import absint as A
import models as M
import conc
from conc import CInterp, Giveup, clist, mkseq, creg, D, D1
from scen import Machine
from absint import State, Budget

WS = "ws"
_progs = {}


def program(which):
    if which not in _progs:
        crates = extract.stub_mir(which)
        fns, adts = [], {}
        for c in crates.values():
            fns += c["fns"]
            adts.update(c["adts"])
        p = A.Program({WS: {"fns": fns, "adts": adts}})
        p.impls = {}
        for f in fns:
            if f.get("impl_trait"):
                base = re.sub(r"<.*", "", f.get("impl_self", ""))
                p.impls.setdefault((f["impl_trait"], f["path"].split("::")[-1]), []).append((f.get("impl_self", ""), base, f["path"]))
        _progs[which] = p
    return _progs[which]


def cell(Ip, st, a):
    """the innermost reference of a chain of references"""
    for _ in range(8):
        if a.op != "ref":
            return None
        v = Ip.read_loc(st, a.a[0], a.a[1])
        if v.op != "ref":
            return a
        a = v
    return None


def update(Ip, st, ref, v):
    s = st.copy()
    Ip.write_loc(s, ref.a[0], ref.a[1], v)
    return s


_canon = {}


def canon(t):
    """one form for sequences of constant length, whatever built them"""
    if not isinstance(t, T):
        return tuple(canon(x) for x in t) if isinstance(t, tuple) else t
    if t.op in ("fe", "simd", "tr", "item", "int", "str"):
        return t
    r = _canon.get(t)
    if r is None:
        if t.op in ("vec", "arr", "upd", "rep", "slice", "cat") and vlen(t).op == "int":
            r = mkseq(canon(x) for x in clist(t))
        else:
            r = mk(t.op, *(canon(x) for x in t.a))
        _canon[t] = r
    return r


FIELD = re.compile(r"Field\b|ChallengeF\b|\bF\b")


def isf(t):
    return t.op in ("fe", "simd")


class GInterp(CInterp):
    def __init__(self, prog, crate=WS, opts=None):
        o = dict(opts or {})
        o["models"] = {**GH, **o.get("models", {})}
        super().__init__(prog, crate, opts=o)
        self.konst = dict(o.get("konst", {}))
        self.ckey = ":".join(f"{k}={v.id}" for k, v in sorted(self.konst.items()))
        self.max_steps = self.opts.get("max_steps", 400000)

    def const(self, st, k, body):
        it = k.get("item")
        if it and "fnref" not in k:
            v = self.konst.get(it) or KONST.get(it)
            if v is None:
                v = next((x for s, x in self.konst.items() if it.endswith(s)), None)
            if v is not None:
                return v
        return super().const(st, k, body)

    def unknown(self, st, name, args, info):
        if PURE.search(name):
            return super().unknown(st, name, args, info)
        raise Giveup("no model of " + name)

    def eval_const_body(self, f, name):
        return super().eval_const_body(f, f"{name}|{self.ckey}" if f.get("kind") is None else name)

    def do_call(self, body, ctx, bb, st, t):
        fr = t[1].get("fnref")
        if fr is None:
            return super().do_call(body, ctx, bb, st, t)
        args = [self.operand(st, ctx, o, body) for o in t[2]]
        name = fr.get("rfn") or fr["fn"]
        info = {"fn": fr["fn"], "ga": fr.get("ga", []), "line": t[5], "bb": bb, "ctx": ctx, "body": body, "rfn": name,
                "dest": body.locals[t[3]["l"]] if not t[3]["p"] else None, "argty": t[6]}
        if fr.get("from") and (WS, fr["from"]) in self.p.fns:
            return self.call_named(st, fr["from"], "std::convert::From::from", args, info, None)
        return self.call_named(st, name, fr["fn"], args, info, None)

    def call_named(self, st, name, fn, args, info, local=None):
        if fn.startswith(TR) and args:
            # a transcript of this crate: its own method, or the trait's provided one
            c = cell(self, st, args[0])
            v = self.read_loc(st, c.a[0], c.a[1]) if c is not None else args[0]
            if v.op == "adt":
                m = fn[len(TR):]
                for full, base, path in self.p.impls.get((TR[:-2], m), ()):
                    if base.split("::")[-1] == v.a[0].split("::")[-1]:
                        return self.call_local(path, st, [c if c is not None else args[0]] + args[1:], info["ctx"], info["bb"])
                if (WS, fn) in self.p.fns:
                    return self.call_local(fn, st, args, info["ctx"], info["bb"])
        h = self.opts["models"].get(name)
        if h is not None and ((WS, name) in self.p.fns or name.startswith(("<ethnum", "ndarray::", "<ndarray", "<&'a ndarray"))):
            return h(self, st, args, info)
        if args and (name == fn or "rfn" not in info):
            # a trait method of a type parameter: the receiver may be a value of a known type
            v = args[0]
            for _ in range(6):
                if v.op in ("ref", "vref"):
                    v = self.deref_val(st, v)
            if v.op == "adt":
                tr, _, m = fn.rpartition("::")
                for full, base, path in self.p.impls.get((tr, m), ()):
                    if base == v.a[0] or base.split("::")[-1] == v.a[0].split("::")[-1] and base:
                        return super().call_named(st, path, fn, args, info, None)
        if fn.startswith("std::clone::Clone"):
            return [(st, self.deref_val(st, args[0]))]
        if fn in BYVALUE:
            vs = [D(self, st, x, 8) if x.op in ("ref", "vref") else x for x in args]
            if any(isf(v) for v in vs[:2]):
                return BYVALUE[fn](self, st, args, info)
        return super().call_named(st, name, fn, args, info, None)


TR = "gkr_engine::transcript::definition::Transcript::"
PURE = re.compile(r"^(std|core)::fmt::|^log::|^std::time::|^utils::timer::|SerdeError|::fmt$|^std::io::Error|^std::rt::|^core::panicking")
KONST = {"arith::field::Field::ZERO": FA.ZERO, "arith::field::Field::ONE": FA.ONE, "arith::field::Field::INV_2": FA.HALF, "arith::field::Field::SIZE": I(1)}
GH = {}
BYVALUE = {}


def g(*names):
    def d(f):
        for n in names:
            GH[n] = f
        return f
    return d


def bv(*names):
    def d(f):
        for n in names:
            BYVALUE[n] = f
        return f
    return d


def V(Ip, st, a):
    v = D(Ip, st, a, 8) if a.op in ("ref", "vref") else a
    if v.op == "int":
        return fe(v.a[0])
    if not isf(v):
        if v.op in ("adt", "tuple", "vec", "arr"):
            raise Giveup("not a field element: " + show(v)[:80])
        return fe(v)
    return v


def arith(op):
    f = {"add": FA.fadd, "sub": FA.fsub, "mul": FA.fmul}[op]

    def h(Ip, st, a, i):
        return [(st, f(V(Ip, st, a[0]), V(Ip, st, a[1])))]

    def ha(Ip, st, a, i):
        c = cell(Ip, st, a[0])
        if c is None:
            raise Giveup("assignment through an unknown reference")
        return [(update(Ip, st, c, f(V(Ip, st, a[0]), V(Ip, st, a[1]))), UNIT)]
    return h, ha


for _n in ("add", "sub", "mul"):
    _h, _ha = arith(_n)
    BYVALUE[f"std::ops::{_n.capitalize()}::{_n}"] = _h
    BYVALUE[f"std::ops::{_n.capitalize()}Assign::{_n}_assign"] = _ha


@bv("std::ops::Neg::neg")
def _(Ip, st, a, i):
    return [(st, FA.fneg(V(Ip, st, a[0])))]


@bv("std::cmp::PartialEq::eq")
def _(Ip, st, a, i):
    return [(st, FA.feq(V(Ip, st, a[0]), V(Ip, st, a[1])))]


@bv("std::cmp::PartialEq::ne")
def _(Ip, st, a, i):
    return [(st, bnot(FA.feq(V(Ip, st, a[0]), V(Ip, st, a[1]))))]


@bv("std::convert::From::from", "std::convert::Into::into")
def _(Ip, st, a, i):
    return [(st, a[0])]


def fm(name, f, n=1):
    def h(Ip, st, a, i):
        return [(st, f(*[V(Ip, st, x) for x in a[:n]]))]
    GH["arith::field::Field::" + name] = h


fm("square", lambda x: FA.fmul(x, x))
fm("double", lambda x: FA.fmul(x, fe(2)))
for _k in (2, 3, 5, 6):
    fm(f"mul_by_{_k}", lambda x, k=_k: FA.fmul(x, fe(k)))
fm("is_zero", lambda x: FA.feq(x, fe(0)))
GH["arith::field::Field::zero"] = lambda Ip, st, a, i: [(st, FA.ZERO)]
GH["arith::field::Field::one"] = lambda Ip, st, a, i: [(st, FA.ONE)]


@g("arith::field::Field::exp", "arith::field::Field::exp_power_of_2")
def _(Ip, st, a, i):
    n = D(Ip, st, a[1])
    if n.op != "int" or n.a[0] > 64:
        raise Giveup("power with an unknown exponent")
    return [(st, FA.fpow(V(Ip, st, a[0]), n.a[0] if i["fn"].endswith("::exp") else 1 << n.a[0]))]


@g("arith::field::Field::inv")
def _(Ip, st, a, i):
    x = V(Ip, st, a[0])
    c = FA.const_of(x)
    if c is None:
        raise Giveup("inverse of an unknown element")
    return [(st, NONE if c == 0 else Some(fe(1 / c)))]


@g("arith::field::Field::from_u256")
def _(Ip, st, a, i):
    return [(st, V(Ip, st, a[0]))]


for _m in ("mul_by_base_field",):
    GH["arith::extension_field::ExtensionField::" + _m] = lambda Ip, st, a, i: [(st, FA.fmul(V(Ip, st, a[0]), V(Ip, st, a[1])))]
GH["arith::extension_field::ExtensionField::add_by_base_field"] = lambda Ip, st, a, i: [(st, FA.fadd(V(Ip, st, a[0]), V(Ip, st, a[1])))]
GH["arith::simd_field::SimdField::scale"] = lambda Ip, st, a, i: [(st, FA.fmul(V(Ip, st, a[0]), V(Ip, st, a[1])))]


def packsize(Ip):
    v = Ip.konst.get("arith::simd_field::SimdField::PACK_SIZE")
    if v is None:
        raise Giveup("pack size")
    return v.a[0]


@g("arith::simd_field::SimdField::unpack")
def _(Ip, st, a, i):
    v = V(Ip, st, a[0])
    return [(st, mkseq(v.a[0] if v.op == "simd" else (v,) * packsize(Ip)))]


@g("arith::simd_field::SimdField::pack")
def _(Ip, st, a, i):
    return [(st, mk("simd", tuple(V(Ip, st, x) for x in clist(D1(Ip, st, a[0])))))]


@g("arith::simd_field::SimdField::pack_full")
def _(Ip, st, a, i):
    return [(st, V(Ip, st, a[0]))]


def _default(Ip, st, a, i):
    d = i["dest"] or ""
    ga = (i["ga"] or [""])[0]
    if FIELD.search(ga.split("::")[-1]) and not ga.startswith(("std::", "[")) or re.search(r"(Challenge|Circuit)Field$|::Field$", d):
        return [(st, FA.ZERO)]
    return conc.CH["std::default::Default::default"](Ip, st, a, i)


GH["std::default::Default::default"] = _default


def _from(Ip, st, a, i):
    s = i["argty"][0]
    d = i["dest"] or ""
    if re.search(r"(Challenge|Circuit|Simd\w*)?Field$|^F$", d.split("<")[0] if not d.startswith("<") else d) and (s in RANGES or isf(a[0])):
        return [(st, V(Ip, st, a[0]))]
    return M.h_from(Ip, st, a, i)


GH["std::convert::From::from"] = _from
GH["std::convert::Into::into"] = _from


def _sum(Ip, st, a, i):
    d = i["dest"] or ""
    if d in RANGES or d.startswith(("f64", "f32")):
        return conc.CH[i["fn"]](Ip, st, a, i)
    out = []
    for s, xs in conc.drain(Ip, st, conc.cit(Ip, st, a[0], i["argty"][0]), i):
        vs = [V(Ip, s, x) for x in xs]
        out.append((s, FA.total(vs) if i["fn"].endswith("sum") else FA.prod(vs)))
    return out


GH["std::iter::Iterator::sum"] = _sum
GH["std::iter::Iterator::product"] = _sum

# ------------------------------------------------------------------------------------------------ transcripts


def tr(Ip, st, a):
    c = cell(Ip, st, a)
    if c is None:
        raise Giveup("transcript behind an unknown reference")
    v = Ip.read_loc(st, c.a[0], c.a[1])
    if v.op != "tr":
        raise Giveup("not a transcript: " + show(v)[:60])
    return c, v


@g(TR + "new")
def _(Ip, st, a, i):
    return [(st, mk("tr", "start"))]


@g(TR + "append_field_element", TR + "append_u8_slice", TR + "append_commitment", TR + "append_serializable_data")
def _(Ip, st, a, i):
    c, t = tr(Ip, st, a[0])
    v = canon(Ip.freeze(st, D(Ip, st, a[1], 8)))
    return [(update(Ip, st, c, mk("tr", t, i["fn"].split("append_")[1], v)), UNIT)]


@g(TR + "generate_field_element")
def _(Ip, st, a, i):
    c, t = tr(Ip, st, a[0])
    return [(update(Ip, st, c, mk("tr", t, "draw", UNIT)), fe(mk("chal", t)))]


@g(TR + "lock_proof", TR + "unlock_proof")
def _(Ip, st, a, i):
    tr(Ip, st, a[0])
    return [(st, UNIT)]


@g(TR + "hash_and_return_state")
def _(Ip, st, a, i):
    c, t = tr(Ip, st, a[0])
    return [(update(Ip, st, c, mk("tr", t, "state", UNIT)), mkseq((mk("trstate", t),)))]


@g(TR + "set_state")
def _(Ip, st, a, i):
    c, t = tr(Ip, st, a[0])
    return [(update(Ip, st, c, mk("tr", t, "set", canon(Ip.freeze(st, D(Ip, st, a[1], 8))))), UNIT)]


# ------------------------------------------------------------------------------------------------ readers
def item(n, kind):
    return mk("item", n, kind)


def felem(n):
    return fe(item(n, "field"))


DES = ("serdes::serdes::ExpSerde::deserialize_from", "serdes::traits::ExpSerde::deserialize_from", "serdes::ExpSerde::deserialize_from")
SER = tuple(x.replace("deserialize_from", "serialize_into") for x in DES)


def kind_of(ty):
    for k in ("Commitment", "Opening"):
        if k in ty:
            return k.lower()
    return "field"


@g(*DES)
def _(Ip, st, a, i):
    kind = kind_of(i["ga"][0] if i["ga"] else "")
    if a[0].op == "ref":
        c = cell(Ip, st, a[0])
        r = Ip.read_loc(st, c.a[0], c.a[1])
    else:
        c, r = None, a[0]
    fail = Ip.opts.get("fail", ())
    err = Err(mk("err"))
    if r.op == "rd":
        n = r.a[0]
        s = update(Ip, st, c, mk("rd", n + 1)) if c is not None else st
        if n in fail or n in Ip.opts.get("invalid", ()):
            return [(s, err)]
        v = item(n, kind)
        return [(s, Ok(fe(v) if kind == "field" else v))]
    if r.op == "rdp":
        if not r.a[0]:
            return [(st, err)]
        s = update(Ip, st, c, mk("rdp", r.a[0][1:])) if c is not None else st
        x = r.a[0][0]
        if x.op == "pb":
            if x.a[0] in Ip.opts.get("invalid", ()):
                return [(s, err)]
            return [(s, Ok(fe(item(x.a[0], kind)) if kind == "field" else item(x.a[0], kind)))]
    raise Giveup("deserialisation from " + show(r)[:80])


@g(*SER)
def _(Ip, st, a, i):
    c = cell(Ip, st, a[1])
    w = Ip.read_loc(st, c.a[0], c.a[1])
    v = canon(Ip.freeze(st, D(Ip, st, a[0], 8)))
    return [(update(Ip, st, c, mkseq(clist(w) + [mk("ser", v)])), Ok(UNIT))]


@g("std::io::Read::read_exact")
def _(Ip, st, a, i):
    c = cell(Ip, st, a[0])
    r = Ip.read_loc(st, c.a[0], c.a[1])
    b = cell(Ip, st, a[1])
    n = len(clist(Ip.read_loc(st, b.a[0], b.a[1])))
    if r.op != "rd" or n != 1:
        raise Giveup("read_exact")
    s = update(Ip, st, c, mk("rd", r.a[0] + 1))
    if r.a[0] in Ip.opts.get("fail", ()):
        return [(s, Err(mk("err")))]
    return [(update(Ip, s, b, mkseq((mk("pb", r.a[0]),))), Ok(UNIT))]


@g("std::io::Cursor::<T>::new")
def _(Ip, st, a, i):
    v = D(Ip, st, a[0], 8)
    if v.op == "proofbytes":
        return [(st, mk("rd", 0))]
    return [(st, mk("rdp", tuple(clist(v))))]


# ------------------------------------------------------------------------------------------------ commitment scheme, MPI, parallel iterators
def _pcs(Ip, st, a, i):
    c, t = tr(Ip, st, a[5])
    vs = tuple(canon(Ip.freeze(st, D(Ip, st, x, 8))) for x in (a[0], a[1], a[2], a[3], a[4], a[6]))
    return [(update(Ip, st, c, mk("tr", t, "pcs", mk("tuple", vs))), mk("pcsok", t, *vs))]


PAR = {
    "rayon::iter::IntoParallelRefIterator::par_iter": "core::slice::<impl [T]>::iter",
    "rayon::iter::IntoParallelRefMutIterator::par_iter_mut": "core::slice::<impl [T]>::iter_mut",
    "rayon::iter::IntoParallelIterator::into_par_iter": "std::iter::IntoIterator::into_iter",
    "rayon::iter::IndexedParallelIterator::zip": "std::iter::Iterator::zip",
    "rayon::iter::IndexedParallelIterator::enumerate": "std::iter::Iterator::enumerate",
}
for _m in ("map", "all", "any", "for_each", "filter", "flat_map", "sum", "collect", "count", "chain", "cloned", "copied"):
    PAR["rayon::iter::ParallelIterator::" + _m] = "std::iter::Iterator::" + _m


def _par(to):
    def h(Ip, st, a, i):
        i2 = dict(i)
        i2["fn"] = to
        x = list(a)
        if to.startswith("core::slice"):
            v = x[0]
            for _ in range(4):
                if v.op == "ref" and Ip.read_loc(st, v.a[0], v.a[1]).op in ("ref", "vref"):
                    v = Ip.read_loc(st, v.a[0], v.a[1])
            x[0] = v
        hh = Ip.opts["models"].get(to) or M.lookup(to, to)
        if hh is None:
            raise Giveup("no model of " + to)
        return hh(Ip, st, x, i2)
    return h


for _k, _v in PAR.items():
    GH[_k] = _par(_v)


class GMachine(Machine):
    def __init__(self, prog):
        super().__init__(prog, WS)

    def call(self, path, st, args, opts=None):
        b = self.prog.body(WS, path)
        if b is None:
            raise Giveup(f"function {path} is gone")
        I_ = GInterp(self.prog, WS, opts=dict(opts or {}))
        I_.fnstack.append(path)
        outs = I_.run_body(b, st.copy(), "top/" + path.split("::")[-1], args)
        self.functions |= {path} | I_.inlined
        self.outcomes += len(outs)
        self.nobl += I_.nobl
        return outs, I_


@g("std::ptr::copy_nonoverlapping")
def _(Ip, st, a, i):
    src, dst = cell(Ip, st, a[0]), cell(Ip, st, a[1])
    n = D(Ip, st, a[2])
    if src is None or dst is None or n is not KONST["arith::field::Field::SIZE"]:
        raise Giveup("raw copy")
    v = Ip.read_loc(st, src.a[0], src.a[1])
    if not isf(v) or not isf(Ip.read_loc(st, dst.a[0], dst.a[1])):
        raise Giveup("raw copy of something else than a field element")
    return [(update(Ip, st, dst, v), UNIT)]


@g("std::ops::Fn::call")
def _(Ip, st, a, i):
    f = D(Ip, st, a[0], 8)
    if f.op == "str":
        return [(st, UNIT)]
    if f.op in ("fn", "closure") and a[1].op == "tuple":
        return Ip.call_value(st, a[0], list(a[1].a[0]), i["ctx"], i["bb"], i["body"], i["line"])
    raise Giveup("call of " + show(f)[:60])
