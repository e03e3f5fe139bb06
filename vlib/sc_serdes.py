"""Scenarios for the (de)serialisation of the basic types (prover/serdes).

A writer is the list of bytes written, a reader the list of bytes still to come.  The little-endian bytes of an opaque number
x are by(x, 0), ..., by(x, n-1); bytes of a value of a type parameter are one item `it`.  Reading bytes that are not those of
one number in order gives a value that is equal to nothing else."""
import re
from terms import *
import scrun
from gint import *
from conc import clist
from gkrscen import run_fn
import conc
from conc import hmap, HM

WHICH = "derive"
SERDES = []
TRAIT = "serdes::serdes::ExpSerde"
W = {"u8": 1, "u16": 2, "u32": 4, "u64": 8, "u128": 16, "usize": 8, "i8": 1, "i16": 2, "i32": 4, "i64": 8, "i128": 16, "isize": 8, "f32": 4, "f64": 8, "U256": 32, "I256": 32,
     "Fr": 32, "G1Affine": 32, "G2Affine": 64}


def stop(Ip, st, i, what):
    Ip.oblige(i["body"], i["bb"], "panic", i["line"], what, False, st, ())


def at(Ip, st, a):
    c = cell(Ip, st, a)
    if c is None:
        raise Giveup("an unknown stream")
    return c, Ip.read_loc(st, c.a[0], c.a[1])


def tbytes(x, n, kind, big=False):
    if x.op == "int":
        v = x.a[0] & ((1 << 8 * n) - 1)
        bs = [I((v >> 8 * k) & 255) for k in range(n)]
    else:
        bs = [mk("by", x, kind, I(k)) for k in range(n)]
    return bs[::-1] if big else bs


def frombytes(bs, n, kind, big=False):
    """the value with these bytes; ill is a value of no known meaning"""
    bs = list(bs)
    if big:
        bs = bs[::-1]
    if all(b.op == "int" for b in bs):
        return I(sum(b.a[0] << (8 * k) for k, b in enumerate(bs)))
    x = bs[0].a[0] if bs[0].op == "by" else None
    if x is not None and all(b.op == "by" and b.a[0] is x and b.a[1] == kind and b.a[2] is I(k) for k, b in enumerate(bs)) and n == W.get(kind, n):
        return x
    return mk("ill", kind, mkseq(bs))


def le(big=False, to=True):
    def to_(Ip, st, a, i):
        ty = tnum(Ip, st, a, i, to)
        n = W[ty]
        if to:
            return [(st, mkseq(tbytes(D(Ip, st, a[0], 8), n, ty, big)))]
        bs = clist(canon(Ip.freeze(st, D(Ip, st, a[0], 8))))
        if bs is None or len(bs) != n:
            raise Giveup("bytes of unknown length")
        return [(st, frombytes(bs, n, ty, big))]
    return to_


def tnum(Ip, st, a, i, to):
    s = i["rfn"]
    m = re.search(r"\b(U256|I256)\b|<impl (f32|f64)>", s)
    if m:
        return m.group(1) or m.group(2)
    d = i["dest"] or ""
    src = str((i["argty"] or [""])[0] if to else d)
    m = re.search(r"\b([ui](?:8|16|32|64|128|size)|f32|f64)\b", src)
    if not m:
        raise Giveup(f"number type of {s} ({src})")
    return m.group(1)


def opaque_bytes(kind):
    def h(Ip, st, a, i):
        return [(st, mkseq(tbytes(D(Ip, st, a[0], 8), W[kind], kind)))]
    return h


def opaque_from(kind):
    def h(Ip, st, a, i):
        v = canon(Ip.freeze(st, D(Ip, st, a[0], 8)))
        bs = clist(v)
        if bs is None or len(bs) != W[kind]:
            raise Giveup("bytes of unknown length")
        x = frombytes(bs, W[kind], kind)
        if x.op in ("ill", "int"):
            return [(st, mk("ctopt", NONE))]
        return [(st, mk("ctopt", Some(x)))]
    return h


def bykind(f):
    """G1Affine and G2Affine share GroupEncoding"""
    def h(Ip, st, a, i):
        s = " ".join([i["rfn"]] + [str(x) for x in i["ga"]] + [str(x) for x in (i["argty"] or [])])
        m = re.search(r"\b(G1Affine|G2Affine|Fr)\b", s)
        if not m:
            raise Giveup("whose encoding: " + s[:80])
        return f(m.group(1))(Ip, st, a, i)
    return h


def into_option(Ip, st, a, i):
    v = D1(Ip, st, a[0]) if a[0].op in ("ref", "vref") else a[0]
    if v.op != "ctopt":
        raise Giveup("into_option of " + show(v)[:60])
    return [(st, v.a[0])]


def is_some(want):
    def h(Ip, st, a, i):
        v = D(Ip, st, a[0], 4)
        if v.op != "ctopt":
            raise Giveup("CtOption")
        return [(st, I(1 if (v.a[0].op == "adt" and v.a[0].a[2] == "Some") == want else 0))]
    return h


def ct_unwrap(Ip, st, a, i):
    v = D(Ip, st, a[0], 4)
    if v.op != "ctopt":
        raise Giveup("CtOption")
    if v.a[0].a[2] == "Some":
        return [(st, v.a[0].a[3][0])]
    stop(Ip, st, i, "unwrap of a value that does not exist")
    return []


def write_all(Ip, st, a, i):
    c, w = at(Ip, st, a[0])
    if w.op != "wr":
        raise Giveup("writing to " + show(w)[:60])
    bs = clist(canon(Ip.freeze(st, D(Ip, st, a[1], 8))))
    if bs is None:
        raise Giveup("writing bytes of unknown length")
    lim = Ip.opts.get("wlimit")
    if lim is not None and len(w.a[0]) + len(bs) > lim:
        return [(update(Ip, st, c, mk("wr", w.a[0] + tuple(bs[:lim - len(w.a[0])]), 1)), Err(mk("ioerr", 1)))]
    return [(update(Ip, st, c, mk("wr", w.a[0] + tuple(bs), *w.a[1:])), Ok(UNIT))]


def read_exact(Ip, st, a, i):
    c, r = at(Ip, st, a[0])
    b = cell(Ip, st, a[1])
    if r.op != "rdr" or b is None:
        raise Giveup("reading from " + show(r)[:60])
    cur = Ip.read_loc(st, b.a[0], b.a[1])
    n = vlen(D(Ip, st, cur, 4))
    if n.op != "int":
        raise Giveup("reading an unknown number of bytes")
    n = n.a[0]
    if n > len(r.a[0]):
        return [(update(Ip, st, c, mk("rdr", ())), Err(mk("eof")))]
    s = update(Ip, st, c, mk("rdr", r.a[0][n:]))
    return [(update(Ip, s, b, mkseq(r.a[0][:n])), Ok(UNIT))]


def gser(Ip, st, a, i):
    """a value of a type parameter"""
    v = canon(Ip.freeze(st, D(Ip, st, a[0], 8)))
    c, w = at(Ip, st, a[1])
    lim = Ip.opts.get("wlimit")
    if lim is not None and len(w.a[0]) + 1 > lim:
        return [(update(Ip, st, c, mk("wr", w.a[0], 1)), Err(mk("ioerr", 1)))]
    x = v if v.op == "by" else mk("it", v)      # the bytes of an encoding are written as u8
    return [(update(Ip, st, c, mk("wr", w.a[0] + (x,), *w.a[1:])), Ok(UNIT))]


def gdes(Ip, st, a, i):
    c, r = at(Ip, st, a[0])
    if r.op != "rdr":
        raise Giveup("reading from " + show(r)[:60])
    if not r.a[0]:
        return [(st, Err(mk("eof")))]
    x = r.a[0][0]
    s = update(Ip, st, c, mk("rdr", r.a[0][1:]))
    if x.op == "bad":
        return [(s, Err(mk("ioerr", 2)))]
    return [(s, Ok(x.a[0] if x.op == "it" else x if x.op in ("by", "byte") else mk("ill", "item", x)))]


def as_slice(Ip, st, a, i):
    v = a[0]
    c = cell(Ip, st, v)
    return [(st, c if c is not None else v)]


def copy_from_slice(Ip, st, a, i):
    b = cell(Ip, st, a[0])
    if b is None:
        raise Giveup("copying into an unknown place")
    src = clist(canon(Ip.freeze(st, D(Ip, st, a[1], 8))))
    n = vlen(D(Ip, st, Ip.read_loc(st, b.a[0], b.a[1]), 4))
    if src is None or n.op != "int":
        raise Giveup(f"copying an unknown number of bytes {show(a[1])[:50]} to {show(n)[:80]}")
    if n.a[0] != len(src):
        stop(Ip, st, i, "slices of different lengths")
        return []
    return [(update(Ip, st, b, mkseq(src)), UNIT)]


def default_repr(Ip, st, a, i):
    s = " ".join([i["rfn"], i["dest"] or ""] + [str(x) for x in i["ga"]])
    m = re.search(r"\b(G1Affine|G2Affine)\b", s)
    if not m:
        m = re.search(r"(32|64)", s)
        if m:
            return [(st, mkseq([I(0)] * int(m.group(1))))]
        raise Giveup("a default of " + s[:80])
    return [(st, mkseq([I(0)] * W[m.group(1)]))]


def as_bytes(Ip, st, a, i):
    v = D(Ip, st, a[0], 8)
    if v.op == "text":
        return [(st, mk("vref", mkseq([mk("by", v, "text", I(k)) for k in range(v.a[1].a[0])])))]
    if v.op == "str":
        return [(st, mk("vref", mkseq([I(b) for b in v.a[0].encode()])))]
    raise Giveup("bytes of " + show(v)[:60])


def into_bytes(Ip, st, a, i):
    return [(s, v.a[0]) for s, v in as_bytes(Ip, st, a, i)]


def text_len(Ip, st, a, i):
    v = D(Ip, st, a[0], 8)
    if v.op == "text":
        return [(st, v.a[1])]
    if v.op == "str":
        return [(st, I(len(v.a[0].encode())))]
    raise Giveup("length of " + show(v)[:60])


def from_utf8(Ip, st, a, i):
    v = canon(Ip.freeze(st, D(Ip, st, a[0], 8)))
    bs = clist(v)
    if bs is None:
        raise Giveup("text of unknown length")
    if all(b.op == "int" for b in bs):
        try:
            return [(st, Ok(mk("str", bytes(b.a[0] for b in bs).decode())))]
        except UnicodeDecodeError:
            return [(st, Err(mk("utf8err")))]
    x = bs[0].a[0] if bs[0].op == "by" and bs[0].a[1] == "text" else None
    if x is not None and x.a[1] is I(len(bs)) and all(b.op == "by" and b.a[0] is x and b.a[2] is I(k) for k, b in enumerate(bs)):
        return [(st, Ok(x))]
    return [(st, Ok(mk("ill", "text", v)))]


def from_utf8_lossy(Ip, st, a, i):
    v = canon(Ip.freeze(st, D(Ip, st, a[0], 8)))
    bs = clist(v)
    if bs is None or not all(b.op == "int" for b in bs):
        raise Giveup("lossy text")
    return [(st, mk("str", bytes(b.a[0] for b in bs).decode(errors="replace")))]


HUGE = 1 << 40


def from_elem(Ip, st, a, i):
    n = D(Ip, st, a[1], 4)
    if n.op != "int":
        raise Giveup("a vector of unknown length")
    if n.a[0] >= HUGE:
        stop(Ip, st, i, "a buffer that does not fit into memory")
        return []
    if n.a[0] > 4096:
        raise Giveup("a large vector")
    return [(st, mkseq([a[0]] * n.a[0]))]


def capacity(empty):
    def h(Ip, st, a, i):
        n = D(Ip, st, a[0], 4)
        if n.op != "int":
            raise Giveup("an unknown capacity")
        if n.a[0] >= HUGE:
            stop(Ip, st, i, "a capacity that does not fit into memory")
            return []
        return [(st, empty)]
    return h


def reserve(Ip, st, a, i):
    n = D(Ip, st, a[1], 4)
    if n.op != "int":
        raise Giveup("an unknown capacity")
    if n.a[0] >= HUGE:
        stop(Ip, st, i, "a capacity that does not fit into memory")
        return []
    return [(st, UNIT)]


def take(Ip, st, a, i):
    c, r = at(Ip, st, a[0])
    n = D(Ip, st, a[1], 4)
    if n.op != "int" or r.op != "rdr":
        raise Giveup("take")
    return [(st, mk("taker", c, n))]


def read_to_end(Ip, st, a, i):
    c = a[0]
    t = D1(Ip, st, c) if c.op == "ref" else c
    if t.op == "ref":
        t = D1(Ip, st, t)
    lim = None
    rc = cell(Ip, st, a[0])
    if t.op == "taker":
        rc, lim = t.a[0], t.a[1].a[0]
    r = Ip.read_loc(st, rc.a[0], rc.a[1])
    b = cell(Ip, st, a[1])
    if r.op != "rdr" or b is None:
        raise Giveup("reading from " + show(r)[:60])
    k = len(r.a[0]) if lim is None else min(lim, len(r.a[0]))
    cur = clist(canon(Ip.freeze(st, Ip.read_loc(st, b.a[0], b.a[1]))))
    if cur is None:
        raise Giveup("a buffer of unknown content")
    s = update(Ip, st, rc, mk("rdr", r.a[0][k:]))
    if t.op == "taker":
        tc = a[0] if a[0].op == "ref" else None
        if tc is not None:
            s = update(Ip, s, tc, mk("taker", rc, I(lim - k)))
    return [(update(Ip, s, b, mkseq(list(cur) + list(r.a[0][:k]))), Ok(I(k)))]


def chars(Ip, st, a, i):
    v = D(Ip, st, a[0], 8)
    if v.op != "str":
        raise Giveup("characters of " + show(v)[:60])
    return [(st, mk("vref", mkseq([I(ord(c)) for c in v.a[0]])))]


def char_count(Ip, st, a, i):
    return [(st, I(len(clist(D(Ip, st, a[0], 8)))))]


def unchecked(kind):
    """no check: bytes that encode nothing give some point"""
    def h(Ip, st, a, i):
        bs = clist(canon(Ip.freeze(st, D(Ip, st, a[0], 8))))
        if bs is None:
            raise Giveup("bytes of unknown length")
        return [(st, mk("ctopt", Some(frombytes(bs, W[kind], kind))))]
    return h


def opt_from(Ip, st, a, i):
    v = D(Ip, st, a[0], 4)
    if v.op == "ctopt":
        return [(st, v.a[0])]
    return GH["std::convert::From::from"](Ip, st, a, i)


def ident(Ip, st, a, i):
    return [(st, a[0])]


MODELS = {TRAIT + "::serialize_into": gser, TRAIT + "::deserialize_from": gdes,
          "std::io::Write::write_all": write_all, "std::io::Read::read_exact": read_exact, "std::io::Read::by_ref": ident, "std::io::Write::by_ref": ident,
          "std::io::Read::take": take, "std::io::Read::read_to_end": read_to_end,
          "std::convert::AsRef::as_ref": as_slice, "std::convert::AsMut::as_mut": as_slice, "std::borrow::Borrow::borrow": as_slice,
          "core::slice::<impl [T]>::copy_from_slice": copy_from_slice, "core::slice::<impl [T]>::clone_from_slice": copy_from_slice,
          "subtle::CtOption::<T>::into_option": into_option, "subtle::CtOption::<T>::is_some": is_some(True), "subtle::CtOption::<T>::is_none": is_some(False),
          "subtle::CtOption::<T>::unwrap": ct_unwrap, "std::string::String::as_bytes": as_bytes, "core::str::<impl str>::as_bytes": as_bytes, "std::string::String::into_bytes": into_bytes,
          "std::string::String::len": text_len, "core::str::<impl str>::len": text_len, "std::string::String::as_str": ident,
          "std::string::String::from_utf8": from_utf8, "std::str::from_utf8": from_utf8, "core::str::from_utf8": from_utf8,
          "std::vec::from_elem": from_elem, "std::vec::Vec::<T>::with_capacity": capacity(mkseq(())),
          "std::vec::Vec::<T, A>::reserve": reserve, "std::vec::Vec::<T, A>::reserve_exact": reserve}
for _p in HM:
    MODELS[_p + "with_capacity"] = capacity(hmap(()))
    MODELS[_p + "reserve"] = reserve
for _t in ("core::num::<impl T>", "core::f64::<impl f64>", "core::f32::<impl f32>", "ethnum::U256", "std::num::<impl T>") + tuple(f"core::num::<impl {x}>" for x in W):
    for _e, _b in (("le", False), ("be", True), ("ne", False)):
        MODELS[f"{_t}::to_{_e}_bytes"] = le(_b, True)
        MODELS[f"{_t}::from_{_e}_bytes"] = le(_b, False)
MODELS["halo2curves::bn256::Fr::to_bytes"] = opaque_bytes("Fr")
MODELS["halo2curves::bn256::Fr::from_bytes"] = opaque_from("Fr")
MODELS["halo2curves::group::GroupEncoding::to_bytes"] = bykind(opaque_bytes)
MODELS["halo2curves::group::GroupEncoding::from_bytes_unchecked"] = bykind(unchecked)
MODELS["halo2curves::group::GroupEncoding::from_bytes"] = bykind(opaque_from)
for _k in ("G1Affine", "G2Affine"):
    MODELS[f"<halo2curves::bn256::{_k} as halo2curves::group::GroupEncoding>::to_bytes"] = opaque_bytes(_k)
    MODELS[f"<halo2curves::bn256::{_k} as halo2curves::group::GroupEncoding>::from_bytes"] = opaque_from(_k)
    MODELS[f"<halo2curves::bn256::{_k} as halo2curves::group::GroupEncoding>::from_bytes_unchecked"] = unchecked(_k)


def default(Ip, st, a, i):
    s = " ".join([i["rfn"], i["dest"] or ""] + [str(x) for x in i["ga"]])
    m = re.search(r"\b(G1Affine|G2Affine)\b", s) or re.search(r"\[u8; (\d+)\]|Bytes(\d+)", s)
    if m:
        x = m.group(1) or m.group(2)
        return [(st, mkseq([I(0)] * (W[x] if x in W else int(x))))]
    return conc.CH["std::default::Default::default"](Ip, st, a, i)


MODELS["std::default::Default::default"] = default
MODELS["std::convert::From::from"] = MODELS["std::convert::Into::into"] = opt_from
MODELS["core::str::<impl str>::chars"] = chars


class Cfg:
    def __init__(self, **o):
        self.opts = {"models": MODELS, **o}


def path(M, ty, m):
    for full, base, p in M.prog.impls.get((TRAIT, m), ()):
        if full == ty or full.split("::")[-1] == ty or base == ty:
            return p
    raise Giveup(f"{ty} has no {m}")


def sers(x, kind):
    return tuple(tbytes(x, W[kind], kind))


def ln(n):
    return sers(I(n), "usize")


def its(*ns):
    return [mk("sym", f"x{n}", "in") for n in ns]


def cases():
    """(label, type, value, the bytes it is written as)"""
    for t in ("u8", "u32", "u64", "u128", "usize"):
        top = (1 << 8 * W[t]) - 1
        for v in dict.fromkeys((0, 1, 127, 128, 255, 256, 0x0102030405060708, 0xFFEEDDCCBBAA99887766554433221100, top, top - 1, 1 << (8 * W[t] - 1))):
            if v <= top:
                yield f"{t} {v}", t, I(v), sers(I(v), t)
        x = mk("sym", "n", t)
        yield f"any {t}", t, x, sers(x, t)
    for t, full in (("f64", "f64"), ("U256", "ethnum::U256"), ("Fr", "halo2curves::bn256::Fr"), ("G1Affine", "halo2curves::bn256::G1Affine"), ("G2Affine", "halo2curves::bn256::G2Affine")):
        x = mk("sym", "n", t)
        yield f"any {t}", full, x, sers(x, t)
    yield "()", "()", UNIT, ()
    for b in (0, 1):
        yield f"bool {b}", "bool", I(b), (I(b),)
    for n in (0, 1, 2, 5, 17, 256, 300):
        xs = its(*range(n))
        yield f"Vec of {n}", "std::vec::Vec", mkseq(xs), ln(n) + tuple(mk("it", x) for x in xs)
    for n in (2, 3, 4, 8, 16, 32, 64):
        xs = its(*range(n))
        yield f"array of {n}", f"[S; {n}]", mkseq(xs), tuple(mk("it", x) for x in xs)
    a, b = its("a", "b")
    yield "pair", "(T1, T2)", tup(a, b), (mk("it", a), mk("it", b))
    yield "None", "std::option::Option", NONE, (I(0),)
    yield "Some", "std::option::Option", Some(a), (I(1), mk("it", a))
    for n in (0, 1, 3, 258):
        ks = [(mk("str", f"k{j}"), mk("sym", f"v{j}", "in")) for j in range(n)]
        yield f"HashMap of {n}", "std::collections::HashMap", hmap(tuple(ks)), ln(n) + tuple(mk("it", x) for kv in ks for x in kv)
    for t in ("", "a", "layer.0/weight", "h\u00e9llo \u4e16\u754c", "x" * 257):
        bs = t.encode()
        yield f"String {t[:20]!r}", "std::string::String", mk("str", t), ln(len(bs)) + tuple(I(x) for x in bs)


def plain(M, v):
    v = canon(v)
    if v.op == "int" or v.op == "bool":
        return v
    return v


DIM = ("blank", "opaque", "un", "from", "phi", "vague", "call")


def known(v):
    return not any(y.op in DIM or y.op.startswith("hv") for y in subterms(v))


def settled(s):
    """the path rests on no condition about something not understood"""
    return all(known(t) for t in s.va) and not s.bl and not s.ge and not s.ne


def stopped(Ip, what):
    return (False, f"{what}: stops in " + "; ".join(sorted({f"{x[1]}:{x[3]}" for x in Ip.raw})[:2])) if Ip.raw else (None, f"{what}: no outcome")


def rt(M, ty, v, bs):
    res = []
    outs, Ip = run_fn(M, Cfg(), path(M, ty, "serialize_into"), {"v": v, "w": mk("wr", ())}, [("&", "v"), ("&", "w")])
    if not outs or Ip.raw:
        res.append(stopped(Ip, "writing"))
    for s, r, cells in outs:
        got = cells["w"].a[0]
        if r.op != "adt" or r.a[2] not in ("Ok", "Err") or not all(known(x) for x in got):
            res.append((None, "not understood: " + show(r)[:60] + " " + show(cells["w"])[:80]))
        elif not settled(s) and (r.a[2] != "Ok" or tuple(got) != tuple(bs)):
            res.append((None, "a path under conditions that are not understood"))
        elif r.a[2] != "Ok":
            res.append((False, "writing fails although the writer accepts everything"))
        elif tuple(got) != tuple(bs):
            res.append((False, f"writes {len(got)} bytes {[show(x) for x in got][:24]} where the format is {[show(x) for x in bs][:24]} ({len(bs)})"))
        else:
            res.append((True, "writes the bytes of the format"))
    rest = (mk("byte", 1), mk("byte", 2))
    outs, Ip = run_fn(M, Cfg(), path(M, ty, "deserialize_from"), {"r": mk("rdr", tuple(bs) + rest)}, [("&", "r")])
    if not outs or Ip.raw:
        res.append(stopped(Ip, "reading"))
    for s, r, cells in outs:
        if r.op != "adt" or r.a[2] not in ("Ok", "Err"):
            res.append((None, "not understood: " + show(r)[:80]))
        elif not settled(s) and (r.a[2] == "Err" or canon(Ip.freeze(s, r.a[3][0])) is not canon(v)):
            res.append((None, "a path under conditions that are not understood"))
        elif r.a[2] == "Err":
            res.append((False, "what was written is refused"))
        else:
            x = canon(Ip.freeze(s, r.a[3][0]))
            if not known(x):
                res.append((None, "not understood: " + show(x)[:80]))
            elif x is not canon(v):
                res.append((False, f"reads back {show(x)[:160]} where {show(v)[:160]} was written"))
            elif cells["r"].a[0] != rest:
                res.append((False, f"{len(cells['r'].a[0])} bytes are left of the 2 that follow"))
            else:
                res.append((True, "reads back what was written"))
    return res


def verdict(res, outs, Ip, what):
    if not outs or Ip.raw:
        res.append(stopped(Ip, what))
    for s, r, cells in outs:
        if r.op != "adt" or r.a[2] not in ("Ok", "Err"):
            res.append((None, "not understood: " + show(r)[:80]))
        elif r.a[2] == "Ok" and not settled(s):
            res.append((None, "a path under conditions that are not understood"))
        else:
            res.append((r.a[2] == "Err", f"success although {what}"))


def cut(n):
    return range(n) if n <= 70 else [*range(10), n // 2, n - 2, n - 1]


def trunc(M, ty, v, bs):
    res = []
    p, q = path(M, ty, "serialize_into"), path(M, ty, "deserialize_from")
    for k in cut(len(bs)):
        outs, Ip = run_fn(M, Cfg(wlimit=k), p, {"v": v, "w": mk("wr", ())}, [("&", "v"), ("&", "w")])
        verdict(res, outs, Ip, f"the writer takes only {k} of {len(bs)} bytes")
        outs, Ip = run_fn(M, Cfg(), q, {"r": mk("rdr", tuple(bs[:k]))}, [("&", "r")])
        verdict(res, outs, Ip, f"the input ends after {k} of {len(bs)} bytes")
    return res


def bad(M, ty, streams):
    res = []
    q = path(M, ty, "deserialize_from")
    for what, bs in streams:
        outs, Ip = run_fn(M, Cfg(), q, {"r": mk("rdr", tuple(bs))}, [("&", "r")])
        verdict(res, outs, Ip, what)
    return res


for _l, _t, _v, _b in cases():
    SERDES.append((f"{_l}: written in its format and read back", lambda M, t=_t, v=_v, b=_b: rt(M, t, v, b)))
    if _b and not (_l[0] == "u" and _l[-1] not in "15"):
        SERDES.append((f"{_l}: truncated streams are errors", lambda M, t=_t, v=_v, b=_b: trunc(M, t, v, b)))
HUGES = [(1 << 64) - 1, 1 << 63, (1 << 63) - 1, 1 << 60, 1 << 44]
_it = [mk("it", mk("str", f"s{k}")) for k in range(4)]
_by = [I(97)] * 4
for _t, _r in (("std::vec::Vec", _it), ("std::collections::HashMap", _it), ("std::string::String", _by)):
    SERDES.append((f"{_t}: a declared length beyond the input is an error", lambda M, t=_t, r=_r: bad(M, t, [(f"a length of {n} is declared and {len(r)} elements follow", ln(n) + tuple(r)) for n in HUGES + [5, 1000]])))
SERDES.append(("Vec: an element that cannot be decoded is an error", lambda M: bad(M, "std::vec::Vec", [(f"element {k} cannot be decoded", ln(4) + tuple(_it[:k]) + (mk("bad"),) + tuple(_it[k + 1:])) for k in range(4)])))
SERDES.append(("HashMap: a key or value that cannot be decoded is an error", lambda M: bad(M, "std::collections::HashMap", [(f"item {k} cannot be decoded", ln(2) + tuple(_it[:k]) + (mk("bad"),) + tuple(_it[k + 1:])) for k in range(4)])))
SERDES.append(("Option: a value that cannot be decoded is an error", lambda M: bad(M, "std::option::Option", [("the value cannot be decoded", (I(1), mk("bad")))])))
SERDES.append(("pair: a component that cannot be decoded is an error", lambda M: bad(M, "(T1, T2)", [("the first cannot be decoded", (mk("bad"), _it[0])), ("the second cannot be decoded", (_it[0], mk("bad")))])))
for _n in (2, 3, 4, 8, 16, 32, 64):
    SERDES.append((f"array of {_n}: an element that cannot be decoded is an error", lambda M, n=_n: bad(M, f"[S; {n}]", [(f"element {k} cannot be decoded", (_it * n)[:k] + [mk("bad")] + (_it * n)[k + 1:n]) for k in {0, 1, n - 1}])))
SERDES.append(("String: bytes that are no text are an error", lambda M: bad(M, "std::string::String", [("the bytes are not UTF-8", ln(len(b)) + tuple(I(x) for x in b)) for b in (b"\xff", b"a\x80", b"\xc3", b"\xed\xa0\x80", b"ab\xf5c")])))
for _t in ("Fr", "G1Affine", "G2Affine"):
    SERDES.append((f"{_t}: bytes that encode no value are an error", lambda M, t=_t: bad(M, "halo2curves::bn256::" + t, [("the bytes encode no value", [I(255)] * W[t]), ("the bytes encode no value", [mk("byte", k) for k in range(W[t])])])))
