"""Scenarios for the derived (de)serialisation: the expansions of serdes_derive for the types of stubs/crates/witness.

A writer is the list of items written to it, a reader the list of items still to come.  Writing a value of another type than
the witness types appends one item naming the type and the value; reading one takes the next item and is misled when the
item is of another type."""
import re
from terms import *
import scrun, conc
from gint import *
import gkrscen
from gkrscen import run_fn, adtv1

TRAIT = "serdes::serdes::ExpSerde"
W = "witness::derived::"
WHICH = "derive"
DERIVED = []


class Cfg:
    def __init__(self, M, **o):
        self.M = M
        mods = {}
        for m, h in (("serialize_into", ser), ("deserialize_from", des)):
            mods[TRAIT + "::" + m] = h
            for full, base, path in M.prog.impls.get((TRAIT, m), ()):
                if W not in path:
                    mods[path] = h
        self.opts = {"models": mods, **o}


def tyname(s):
    return re.sub(r"\bstd::(vec|option|string)::|\balloc::(vec|string)::|\bcore::option::|\s+", "", s)


def selfty(i):
    """the type a trait function is called for"""
    m = re.match(r"<(.*) as " + re.escape(TRAIT), i["rfn"])
    ga = i["ga"][0] if i["ga"] else ""
    t = tyname(ga) if ga else tyname(m.group(1))
    return t


def at(Ip, st, a):
    c = cell(Ip, st, a)
    if c is None:
        raise Giveup("an unknown stream")
    return c, Ip.read_loc(st, c.a[0], c.a[1])


def ser(Ip, st, a, i):
    v0 = D(Ip, st, a[0], 8)
    if v0.op == "adt" and v0.a[0].startswith(W):
        raise Giveup("a derived type")
    c, w = at(Ip, st, a[1])
    v = canon(Ip.freeze(st, v0))
    if w.op != "wr":
        raise Giveup("writing to " + show(w)[:60])
    n = len(w.a[0])
    if n == Ip.opts.get("wfail"):
        return [(st, Err(mk("ioerr", n)))]
    if n > Ip.opts.get("wfail", 10 ** 9):
        return [(update(Ip, st, c, mk("wr", w.a[0] + (mk("after", v),))), Err(mk("ioerr", n)))]
    return [(update(Ip, st, c, mk("wr", w.a[0] + (mk("it", selfty(i), v),))), Ok(UNIT))]


def des(Ip, st, a, i):
    c, r = at(Ip, st, a[0])
    if r.op != "rdr":
        raise Giveup("reading from " + show(r)[:60])
    ty = selfty(i)
    if not r.a[0]:
        return [(st, Err(mk("eof")))]
    x = r.a[0][0]
    s = update(Ip, st, c, mk("rdr", r.a[0][1:]))
    if x.op == "bad":
        return [(s, Err(mk("ioerr", x.a[0])))]
    if x.a[0] != ty and ty != "_":
        return [(s, Ok(mk("misread", x.a[1], x.a[0], ty)))]
    return [(s, Ok(x.a[1]))]


def value(M, ty, ctr, choose):
    """a value of a field of type ty, made of distinct atoms; returns (value, items in the specified order)"""
    t = tyname(ty)
    m = re.match(r"derived::(\w+)(<.*)?$", t)
    if m:
        return make(M, m.group(1), choose.get(m.group(1), 0), ctr, choose)
    ctr[0] += 1
    if t in RANGES:
        x = mk("sym", f"{t}{ctr[0]}", t)
    elif t == "bool":
        x = mk("sym", f"b{ctr[0]}", "bool")
    else:
        x = mk("sym", f"x{ctr[0]}", "in")
    return x, [mk("it", t, x)]


def make(M, name, vi, ctr=None, choose=None, sub=()):
    ctr = ctr if ctr is not None else [0]
    a = M.prog.adts.get((M.crate, W + name))
    if a is None:
        raise Giveup("witness type " + name)
    v = a["variants"][vi]
    items = [mk("it", "u32", I(vi))] if a["kind"] == "enum" else []
    fs = []
    for _, ty in v["fields"]:
        for p, t in sub:
            ty = re.sub(rf"\b{p}\b", t, ty)
        x, its = value(M, ty, ctr, choose or {})
        fs.append(x)
        items += its
    return adt(W + name, vi, v["name"], tuple(fs)), items


def path(M, name, m):
    for full, base, p in M.prog.impls.get((TRAIT, m), ()):
        if base.split("::")[-1] == name and W in p:
            return p
    raise Giveup(f"{name} has no {m}")


def misreads(v):
    return [x for x in subterms(v) if x.op in ("misread", "after")]


def norm(items):
    """type parameters of nested witness types are written as the witness type's own"""
    return [mk("it", re.sub(r"\b[AB]\b", "P", x.a[0]), x.a[1]) for x in items]


def single(outs, what):
    if len(outs) != 1:
        return None, [(None, f"{what}: {len(outs)} outcomes")]
    return outs[0], None


def stopped(Ip, what):
    return (False, f"{what}: stops in " + "; ".join(sorted({f"{x[1]}:{x[3]}" for x in Ip.raw})[:2])) if Ip.raw else (None, f"{what}: no outcome")


def roundtrip(M, name, vi, choose=None):
    res = []
    v, items = make(M, name, vi, choose=choose)
    S_ = Cfg(M)
    outs, Ip = run_fn(M, S_, path(M, name, "serialize_into"), {"v": v, "w": mk("wr", ())}, [("&", "v"), ("&", "w")])
    if not outs:
        return [stopped(Ip, "serialising")]
    for s, r, cells in outs:
        got = cells["w"].a[0]
        if r.op != "adt" or r.a[2] != "Ok":
            res.append((False, "serialising fails although every write succeeds"))
        elif norm(got) != norm(items):
            res.append((False, f"writes {[show(x) for x in got]} where the fields in order are {[show(x) for x in items]}"))
        else:
            res.append((True, "writes its fields in order"))
    rd = norm(items)
    outs, Ip = run_fn(M, Cfg2(M), path(M, name, "deserialize_from"), {"r": mk("rdr", tuple(rd) + (mk("it", "u32", mk("sym", "rest", "in")),))}, [("&", "r")])
    if not outs:
        return res + [stopped(Ip, "deserialising")]
    for s, r, cells in outs:
        left = cells["r"].a[0]
        if r.op != "adt" or r.a[2] != "Ok":
            res.append((False, "what was written is refused"))
            continue
        x = canon(r.a[3][0])
        if any(y.op in ("blank", "opaque") or y.op.startswith("hv") for y in subterms(x)):
            res.append((None, "not understood: " + show(x)[:100]))
        elif x is not canon(v) or len(left) != 1:
            res.append((False, f"reads back {show(x)[:200]} where {show(v)[:200]} was written" if len(left) == 1 else f"leaves {len(left) - 1} items unread"))
        else:
            res.append((True, "reads back what was written"))
    return res


class Cfg2(Cfg):
    pass


_des = des


def des(Ip, st, a, i):     # noqa: F811 - types up to the names of type parameters
    i = dict(i)
    if i["ga"]:
        i["ga"] = [re.sub(r"\b[AB]\b", "P", i["ga"][0])] + list(i["ga"][1:])
    return _des(Ip, st, a, i)


def failures(M, name, vi, choose=None):
    res = []
    v, items = make(M, name, vi, choose=choose)
    p, q = path(M, name, "serialize_into"), path(M, name, "deserialize_from")
    for k in range(len(items)):
        outs, Ip = run_fn(M, Cfg(M, wfail=k), p, {"v": v, "w": mk("wr", ())}, [("&", "v"), ("&", "w")])
        if not outs:
            res.append(stopped(Ip, "a failing write"))
        for s, r, cells in outs:
            if r.op != "adt" or r.a[2] not in ("Ok", "Err"):
                res.append((None, "not understood: " + show(r)[:80]))
            elif r.a[2] == "Ok":
                res.append((False, f"success although writing item {k} failed"))
            elif any(x.op == "after" for x in cells["w"].a[0]):
                res.append((False, f"goes on writing after item {k} failed"))
            else:
                res.append((True, "reports the failed write"))
        for what, stream in (("the input ends before", norm(items)[:k]), ("the input cannot be decoded at", norm(items)[:k] + [mk("bad", k)] + norm(items)[k + 1:])):
            outs, Ip = run_fn(M, Cfg(M), q, {"r": mk("rdr", tuple(stream))}, [("&", "r")])
            if not outs:
                res.append(stopped(Ip, what + f" item {k}"))
            for s, r, cells in outs:
                if r.op != "adt" or r.a[2] not in ("Ok", "Err"):
                    res.append((None, "not understood: " + show(r)[:80]))
                else:
                    res.append((r.a[2] == "Err", f"success although {what} item {k}"))
    return res


def unknown_variant(M, name):
    n = len(M.prog.adts[(M.crate, W + name)]["variants"])
    res = []
    st_ = Cfg(M)
    for x in [n, n + 1, n + 255, 255 if n < 256 else n + 3, 256 if n < 257 else 512, 65536, 65537, 1 << 24, (1 << 32) - 1, (1 << 32) - n] + [256 + k for k in range(3) if 256 + k >= n] + [5, 1000] * (n < 5):
        fill = tuple(mk("it", t, mk("sym", f"j{k}", "in")) for k in range(14) for t in ("P",))
        outs, Ip = run_fn(M, st_, path(M, name, "deserialize_from"), {"r": mk("rdr", (mk("it", "u32", I(x)),) + fill)}, [("&", "r")])
        if not outs:
            res.append(stopped(Ip, f"variant index {x}"))
        for s, r, cells in outs:
            if r.op != "adt" or r.a[2] not in ("Ok", "Err"):
                res.append((None, "not understood: " + show(r)[:80]))
                continue
            res.append((r.a[2] == "Err", f"variant index {x} of {n} variants is read as {show(r)[:80]}"))
    return res


VARIANTS = {"One": 1, "Same": 1, "Mixed": 1, "Names": 1, "Nested": 1, "Sized4": 1, "Empty": 1, "Choice": 5, "Many": 8, "Numbered": 4, "Only": 1, "Large": 300}
for _n, _k in VARIANTS.items():
    if _n == "Large":
        DERIVED.append((f"{_n}: every variant is written and read back", lambda M: [x for k in (0, 1, 2, 127, 128, 254, 255, 256, 257, 298, 299) for x in roundtrip(M, "Large", k)]))
    else:
        for _i in range(_k):
            for _c in ([{"Choice": j} for j in range(5)] if _n == "Nested" or (_n == "Many" and _i == 6) else [None]):
                DERIVED.append((f"{_n}, variant {_i}{f', nested variant {_c}' if _c else ''}: written in order and read back", lambda M, n=_n, i=_i, c=_c: roundtrip(M, n, i, c)))
                if _n not in ("Empty",):
                    DERIVED.append((f"{_n}, variant {_i}{f', nested variant {_c}' if _c else ''}: failures are reported", lambda M, n=_n, i=_i, c=_c: failures(M, n, i, c)))
for _n in ("Choice", "Many", "Numbered", "Only", "Large"):
    DERIVED.append((f"{_n}: an unknown variant index is refused", lambda M, n=_n: unknown_variant(M, n)))
