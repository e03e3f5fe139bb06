"""Constant-structure abstract interpretation.

The same MIR interpreter (absint.Interp) specialised to arguments whose *shape* is constant (how many
layers, which operator, ranks, which attributes are present) while every dimension, attribute value and
weight stays an abstract value number.  Containers of constant length are propagated element by element
(constant propagation), so loops over them have constant trip counts and are unrolled; branches on
abstract values partition the trace; two partitions that agree on everything but one complementary
condition are merged exactly.  No state is ever joined approximately: an outcome's facts are exactly the
conditions under which the function produces it.  Whatever is not constant enough gives up (Giveup), which
is reported as undecided, never as a violation.
"""
import re
from terms import *
import terms
import absint as A
import models as M
from absint import Interp, State, Budget

IntI = I


class Giveup(Exception):
    pass


MAXLEN = 5000
MAXOUT = 4000


# ------------------------------------------------------------------------------------------------ sequences and maps
def clist(v, what=""):
    """elements of a sequence of constant length"""
    n = vlen(v)
    if n.op != "int":
        raise Giveup(f"sequence of unknown length {what} {show(v)[:80]}")
    if n.a[0] > MAXLEN:
        raise Giveup("sequence too long")
    if v.op == "str":
        return [I(ord(c)) for c in v.a[0]]
    if v.op in ("arr",):
        return list(v.a[0])
    if v.op == "vec" and all(p[0] == "e" for p in v.a[0]):
        return [p[1] for p in v.a[0]]
    return [velt(v, I(k)) for k in range(n.a[0])]


def mkseq(xs):
    return mk("arr", tuple(xs))


def hmap(pairs):
    return mk("hmap", tuple(pairs))


def pairs(m):
    if m.op == "hmap":
        return list(m.a[0])
    if m.op == "emptymap":
        return []
    raise Giveup(f"map of unknown content {show(m)[:80]}")


def strict_eq(x, y):
    """constant equality of keys; Giveup when not decidable"""
    if x is y:
        return True
    e = M.const_eq(x, y)
    if e is None:
        if x.op == "tuple" and y.op == "tuple":
            return all(strict_eq(p, q) for p, q in zip(x.a[0], y.a[0]))
        raise Giveup(f"key comparison {show(x)[:60]} / {show(y)[:60]}")
    return e


def eq_cond(x, y):
    """equality of two scalar keys as a condition"""
    if x is y:
        return TRUE
    e = M.const_eq(x, y)
    if e is not None:
        return TRUE if e else FALSE
    e = ssel_eq(x, y)
    if e is not None:
        return e
    if x.op == "tuple" and y.op == "tuple" and len(x.a[0]) == len(y.a[0]):
        r = TRUE
        for p, q in zip(x.a[0], y.a[0]):
            r = band(r, eq_cond(p, q))
        return r
    ints = lambda z: z.op in ("int", "L") or TYOF.get(z) in RANGES
    if ints(x) and ints(y):
        return eq0(sub(x, y))
    raise Giveup(f"key comparison {show(x)[:60]} / {show(y)[:60]}")


def cases(st, b):
    """[(state, bool)] partition of st by condition b"""
    k = st.known(b)
    if k is not None:
        return [(st, k)]
    out = []
    for val in (True, False):
        s = st.copy()
        if s.assume(b, val):
            out.append((s, val))
    return out


def lookup_key(st, m, k):
    """[(state, index | None)] over the pairs of m"""
    todo, out = [st], []
    for i, (kk, _) in enumerate(pairs(m)):
        nxt = []
        for s in todo:
            for s2, hit in cases(s, eq_cond(kk, k)):
                if hit:
                    out.append((s2, i))
                else:
                    nxt.append(s2)
        todo = nxt
    return out + [(s, None) for s in todo]


class ModelMap(dict):
    """exact names first, then integer methods by pattern"""
    def get(self, k, d=None):
        h = dict.get(self, k)
        if h is None:
            m = re.match(r"(?:core|std)::num::<impl (\w+)>::(\w+)$", k)
            if m and m.group(1) in RANGES and m.group(2) not in BYTEFNS:
                return int_method(m.group(1), m.group(2))
        return h if h is not None else d


BYTEFNS = {"to_le_bytes", "to_be_bytes", "to_ne_bytes", "from_le_bytes", "from_be_bytes", "from_ne_bytes"}
PARTITION = {"rem_euclid", "div_euclid", "checked_rem", "checked_div", "checked_rem_euclid", "checked_div_euclid", "abs", "unsigned_abs", "signum", "pow", "checked_pow", "isqrt",
             "wrapping_add", "wrapping_sub", "wrapping_mul", "wrapping_neg", "checked_neg", "leading_zeros", "trailing_zeros", "count_ones", "ilog2", "ilog10", "checked_ilog2",
             "next_power_of_two", "is_power_of_two", "next_multiple_of", "checked_next_multiple_of", "checked_add_signed", "saturating_add_signed", "checked_sub_unsigned",
             "saturating_pow", "saturating_neg", "saturating_abs", "checked_abs", "wrapping_abs", "wrapping_pow", "checked_shl", "checked_shr", "abs_diff", "wrapping_shl", "wrapping_shr",
             "checked_add_unsigned", "saturating_sub", "saturating_add", "saturating_mul", "overflowing_add", "overflowing_sub", "overflowing_mul", "wrapping_add_signed", "saturating_div", "wrapping_div", "wrapping_rem"}
EXACT = {"is_negative", "is_positive"}


def const_method(ty, m, xs):
    """value of an integer method on constants: a term, PANIC or None (not known)"""
    lo, hi = RANGES[ty]
    w = hi - lo + 1
    bits = w.bit_length() - 1
    x = xs[0]
    y = xs[1] if len(xs) > 1 else None
    wrap = lambda v: (v - lo) % w + lo
    fit = lambda v: lo <= v <= hi
    tq = lambda p, q: (abs(p) // abs(q)) * (1 if (p >= 0) == (q > 0) else -1)
    opt = lambda v: NONE if v is None or not fit(v) else Some(I(v))
    base = re.sub(r"^(checked|saturating|wrapping|overflowing)_", "", m)
    mode = m[:-len(base) - 1] if base != m else ""
    base = re.sub(r"_(un)?signed$", "", base)

    def raw():
        if base == "add":
            return x + y
        if base == "sub":
            return x - y
        if base == "mul":
            return x * y
        if base in ("div", "rem", "div_euclid", "rem_euclid", "next_multiple_of", "div_ceil"):
            if y == 0:
                return None
            if base == "div":
                return tq(x, y)
            if base == "rem":
                return x - y * tq(x, y)
            if base == "rem_euclid":
                return x % abs(y)
            if base == "div_euclid":
                return (x - x % abs(y)) // y
            if base == "next_multiple_of":
                return -(-x // y) * y
            return -(-x // y)
        if base == "neg":
            return -x
        if base == "abs":
            return abs(x)
        if base == "pow":
            return x ** y if 0 <= y <= 4096 else None
        if base in ("ilog2", "ilog10"):
            return None if x <= 0 else x.bit_length() - 1 if base == "ilog2" else len(str(x)) - 1
        if base in ("shl", "shr"):
            return None if not 0 <= y < bits else wrap(x << y) if base == "shl" else x >> y
        return "?"
    v = raw()
    if v != "?":
        if mode == "checked":
            return opt(v)
        if mode == "saturating":
            return None if v is None else I(max(lo, min(hi, v)))
        if mode == "wrapping":
            return None if v is None else I(wrap(v))
        if mode == "overflowing":
            return mk("tuple", (I(wrap(v)), I(0 if fit(v) else 1)))
        if v is None or not fit(v):
            return "panic"
        return I(v)
    if m == "unsigned_abs":
        return I(abs(x))
    if m == "abs_diff":
        return I(abs(x - y))
    if m == "signum":
        return I((x > 0) - (x < 0))
    if m == "isqrt":
        import math
        return I(math.isqrt(x)) if x >= 0 else "panic"
    if m == "leading_zeros":
        return I(bits - (x % w).bit_length())
    if m == "trailing_zeros":
        z = x % w
        return I(bits if z == 0 else (z & -z).bit_length() - 1)
    if m == "count_ones":
        return I(bin(x % w).count("1"))
    if m == "is_power_of_two":
        return I(1 if x > 0 and x & (x - 1) == 0 else 0)
    if m == "next_power_of_two":
        return I(1 << (x - 1).bit_length() if x > 1 else 1)
    return None


def int_method(ty, m):
    gen = M.INTM(ty, m)

    def h(Ip, st, a, i):
        xs = [Ip.typed(D(Ip, st, x), ty) for x in a]
        if m == "is_negative":
            return [(st, bnot(ge0(xs[0])))]
        if m == "is_positive":
            return [(st, ge0(sub(xs[0], I(1))))]
        if m not in PARTITION:
            return gen(Ip, st, xs, i)
        if any(x.op != "int" for x in xs):
            if m in ("abs", "unsigned_abs", "abs_diff", "saturating_sub", "saturating_add", "saturating_mul") or m.startswith("checked_") and m[8:] in ("div", "rem"):
                small = False
            else:
                small = all(x.op == "int" or narrow(st, x) for x in xs)
            if m == "pow" and xs[1].op == "int":
                small = False
            if not small:
                return gen(Ip, st, xs, i)
        out = []
        for s, ys in concretise(Ip, st, xs):
            v = const_method(ty, m, ys)
            if v is None:
                out += gen(Ip, s, [I(y) for y in ys], i)
            elif v == "panic":
                Ip.oblige(i["body"], i["bb"], "panic", i["line"], f"{m}{tuple(ys)} is defined", False, s, ())
            else:
                out.append((s, v))
        return out
    return h


def narrow(st, x, n=40):
    lo, hi = st.ival(x)
    return lo is not None and hi is not None and hi - lo < n


def concretise(Ip, st, xs):
    todo = [(st, [])]
    for x in xs:
        nxt = []
        for s, ys in todo:
            if x.op == "int":
                nxt.append((s, ys + [x.a[0]]))
                continue
            lo, hi = s.ival(x)
            nxt += [(s2, ys + [k]) for s2, k in int_cases(Ip, s, x, lo, hi) if k is not None]
        todo = nxt
    return todo


# ------------------------------------------------------------------------------------------------ the interpreter
class CInterp(Interp):
    def __init__(self, prog, crate, opts=None):
        super().__init__(prog, crate, opts=opts)
        self.max_steps = self.opts.get("max_steps", 150000)
        self.maxiter = self.opts.get("maxiter", 1500)
        self.raw = []           # unproved obligations: (kind, fn, line, goal, state)
        self.nobl = 0
        self.opts.setdefault("models", {})
        self.opts["models"] = ModelMap({**CH, **self.opts["models"]})

    def oblige(self, body, bb, kind, line, goal, ok, st, atoms=(), tag=""):
        self.nobl += 1
        if not ok and kind.startswith("overflow_Sub:u"):
            kind = "underflow"
        if not ok and not kind.startswith("overflow_"):
            f, l = line if isinstance(line, (list, tuple)) else ("?", line)
            self.raw.append((kind, body.path, f, l, goal, st.copy(), tuple(atoms)))

    def call_named(self, st, name, fn, args, info, local=None):
        f0 = (st.ge, st.ne, len(st.bl), len(st.va), st.uni)
        out = super().call_named(st, name, fn, args, info, local)
        if len(out) > 1 and (self.crate, name) not in self.p.fns:
            # a case distinction whose condition is not recorded: no witness may be drawn from it
            for k, (s, v) in enumerate(out):
                if (s.ge, s.ne, len(s.bl), len(s.va), s.uni) == f0:
                    s = s.copy()
                    s.va[mk("vague", name)] = ("=", 0)
                    out[k] = (s, v)
        return out

    def proj(self, st, v, e):
        if e[0] == "mv":
            ps = pairs(v)
            return ps[e[1]][1]
        return super().proj(st, v, e)

    def write_path(self, st, v, path, new):
        if path:
            e = path[0]
            if e[0] == "mv":
                ps = pairs(v)
                k, x = ps[e[1]]
                ps[e[1]] = (k, self.write_path(st, x, path[1:], new))
                return hmap(ps)
            if e[0] == "elt" and v.op not in ("arr",):
                i = e[1]
                if i.op == "int" and vlen(v).op == "int" and vlen(v).a[0] <= MAXLEN and i.a[0] < vlen(v).a[0]:
                    return super().write_path(st, mkseq(clist(v)), path, new)
            if e[0] == "sl" and vlen(v).op == "int" and e[1].op == "int" and e[2].op == "int":
                xs = clist(v)
                inner = self.write_path(st, self.proj(st, v, e), path[1:], new)
                o, n = e[1].a[0], e[2].a[0]
                ys = clist(inner)
                if len(ys) != n:
                    raise Giveup("slice write changes length")
                xs[o:o + n] = ys
                return mkseq(xs)
        return super().write_path(st, v, path, new)

    def reduce(self, body, ctx, bb, states):
        if len(states) <= 1:
            return states
        live = body.live[bb]
        for s in states:
            for k in [k for k in s.env if k[0] == ctx and k[1] not in live]:
                del s.env[k]
        return merge_exact(states)

    def merge_rets(self, body, ctx, out):
        for s, v in out:
            for k in [k for k in s.env if k[0] == ctx and k[1] != 0]:
                del s.env[k]
        if len(out) > 1:
            ss = merge_exact([s for s, _ in out])
            out = [(s, s.env.get((ctx, 0), UNIT)) for s in ss]
        if len(out) > MAXOUT:
            raise Budget("too many outcomes")
        return out

    def loop(self, body, ctx, h, entry_states, rets):
        limit = body.loops[h]
        states, out = list(entry_states), []
        self.unrolling += 1
        try:
            for it in range(self.maxiter):
                if not states:
                    break
                states = self.reduce(body, ctx, h, states)
                if len(states) > 600:
                    raise Budget("too many partitions in a loop")
                back, exits = self.region(body, ctx, h, states, limit, rets, header=h)
                for tgt, ss in exits.items():
                    out += [(tgt, s) for s in ss]
                states = back
            else:
                raise Giveup(f"loop at {body.path}:{h} does not end within {self.maxiter} rounds")
        finally:
            self.unrolling -= 1
        return out

    def unknown(self, st, name, args, info):
        if self.opts.get("strict"):
            raise Giveup("unknown call " + name)
        return super().unknown(st, name, args, info)

    def binop(self, st, ctx, r, body, bb, line):
        v = super().binop(st, ctx, r, body, bb, line)
        return v


def merge_exact(states):
    """merge states with identical environments whose facts differ only in one complementary condition"""
    groups = {}
    for s in states:
        groups.setdefault((frozenset(s.env.items()), s.log), []).append(s)
    res = []
    for l in groups.values():
        ch = True
        while ch and len(l) > 1:
            ch = False
            for i in range(len(l)):
                for j in range(i + 1, len(l)):
                    m = merge2(l[i], l[j])
                    if m is not None:
                        l[i] = m
                        del l[j]
                        ch = True
                        break
                if ch:
                    break
        res += l
    return res


def merge2(a, b):
    if a.uni != b.uni:
        return None
    dga, dgb = a.ge - b.ge, b.ge - a.ge
    dna, dnb = a.ne - b.ne, b.ne - a.ne
    dba = {k: v for k, v in a.bl.items() if b.bl.get(k, None) is not v}
    dbb = {k: v for k, v in b.bl.items() if a.bl.get(k, None) is not v}
    dva = {k: v for k, v in a.va.items() if b.va.get(k) != v}
    dvb = {k: v for k, v in b.va.items() if a.va.get(k) != v}
    n = len(dga) + len(dgb) + len(dna) + len(dnb) + len(dba) + len(dbb) + len(dva) + len(dvb)
    if n == 0:
        return a
    if not (dna or dnb or dva or dvb or dba or dbb) and len(dga) == 1 and len(dgb) == 1:
        (x,), (y,) = dga, dgb
        if sub(I(-1), x) is y:
            m = a.copy()
            m.ge = a.ge & b.ge
            m._inv()
            return m
    if not (dga or dgb or dna or dnb or dva or dvb) and len(dba) == 1 and len(dbb) == 1:
        (k1, v1), (k2, v2) = next(iter(dba.items())), next(iter(dbb.items()))
        if k1 is k2 and v1 != v2:
            m = a.copy()
            del m.bl[k1]
            m._inv()
            return m
    # one implies the other's extra facts away: a's facts are a subset of b's
    if not (dga or dna or dba or dva):
        return a
    if not (dgb or dnb or dbb or dvb):
        return b
    return None


# ------------------------------------------------------------------------------------------------ iterators
END = mk("end")
it = M.it


def cit(Ip, st, v, ty):
    """iterator term for an IntoIterator value"""
    x = M.as_iter(Ip, st, v, ty)
    return norm(Ip, st, x, v, ty)


def norm(Ip, st, x, v=None, ty=None):
    k, a = x.a[0], x.a[1:]
    if k == "slice":
        return it("seq", tuple(mk("vref", e) for e in clist(a[0])))
    if k == "slicemut":
        n = vlen(a[1])
        if n.op != "int":
            raise Giveup("iter_mut over unknown length")
        return it("seq", tuple(M.sub_ref(Ip, st, a[0], ("elt", I(j))) for j in range(n.a[0])))
    if k == "vecinto":
        if a[0].op in ("hmap", "emptymap"):
            return it("seq", tuple(tup(p, q) if q is not UNIT else p for p, q in pairs(a[0])))
        return it("seq", tuple(clist(a[0])))
    if k == "hiter":
        ps = pairs(a[0])
        if a[1] == "keys":
            return it("seq", tuple(mk("vref", p) for p, _ in ps))
        if a[1] in ("values", "into_values"):
            return it("seq", tuple(mk("vref", q) for _, q in ps))
        return it("seq", tuple(tup(mk("vref", p), mk("vref", q)) for p, q in ps))
    if k == "chunks":
        xs, n = clist(a[0]), cint(a[1])
        return it("seq", tuple(mk("vref", mkseq(xs[j:j + n])) for j in range(0, len(xs) - n + 1, n)))
    if k == "chunks_":
        xs, n = clist(a[0]), cint(a[1])
        return it("seq", tuple(mk("vref", mkseq(xs[j:j + n])) for j in range(0, len(xs), n)))
    if k == "windows":
        xs, n = clist(a[0]), cint(a[1])
        return it("seq", tuple(mk("vref", mkseq(xs[j:j + n])) for j in range(0, len(xs) - n + 1)))
    if k == "repeatn":
        return it("seq", (a[0],) * cint(a[1]))
    if k == "optinto":
        o = a[0]
        if o.op == "adt":
            return it("seq", (o.a[3][0],) if o.a[1] == 1 else ())
        raise Giveup("option iterator")
    if k == "opaque":
        o = a[0]
        while o.op in ("ref", "vref"):
            o = Ip.deref_val(st, o)
        if o.op == "iter":
            return norm(Ip, st, o)
        if o.op in ("hmap", "emptymap"):
            ps = pairs(o)
            s = bool(ty) and "Set<" in ty.split("<")[0] + "<"
            byref = bool(ty) and ty.startswith("&")
            w = (lambda z: mk("vref", z)) if byref else (lambda z: z)
            return it("seq", tuple(w(p) if s else tup(w(p), w(q)) for p, q in ps))
        if o.op == "adt" and o.a[0].endswith("::Range") or o.op == "adt" and "RangeInclusive" in o.a[0]:
            return M.as_iter(Ip, st, o, ty)
        if o.op == "adt" and o.a[0] == "std::option::Option":
            return it("seq", (mk("vref", o.a[3][0]) if ty.startswith("&") else o.a[3][0],) if o.a[1] == 1 else ())
        if o.op == "adt" and o.a[0] == "nd":
            w = (lambda z: mk("vref", z)) if ty and ty.startswith("&") else (lambda z: z)
            return it("seq", tuple(w(z) for z in clist(o.a[3][1])))
        if vlen(o).op == "int":
            return it("seq", tuple(clist(o)))
        raise Giveup(f"iterator over {show(o)[:80]}")
    return x


def cint(t):
    if t.op != "int":
        raise Giveup(f"count {show(t)[:60]}")
    return t.a[0]


def step(Ip, st, x, info):
    """[(state, rest iterator, element | END)]"""
    k, a = x.a[0], x.a[1:]
    if k == "seq":
        xs = a[0]
        return [(st, x, END)] if not xs else [(st, it("seq", xs[1:]), xs[0])]
    if k == "range":
        out = []
        d = sub(a[1], a[0])
        for s, more in cases(st, ge0(sub(d, I(1)))):
            if more and d.op != "int":
                hi = s.ival(d)[1]
                if hi is None or hi > 64:
                    raise Giveup(f"range of unknown extent {show(d)[:80]}")
            out.append((s, it("range", add(a[0], I(1)), a[1], a[2]), Ip.typed(a[0], a[2])) if more else (s, x, END))
        return out
    if k == "rangefrom":
        return [(st, it("rangefrom", add(a[0], I(1)), a[1]), a[0])]
    if k == "map":
        out = []
        for s, b, e in step(Ip, st, a[0], info):
            if e is END:
                out.append((s, it("map", b, a[1]), END))
            else:
                out += [(s2, it("map", b, a[1]), v) for s2, v in M.call(Ip, s, a[1], [e], info)]
        return out
    if k == "filter":
        return skipping(Ip, st, x, info, lambda s, e: [(s2, e if val else None) for s1, b in M.call(Ip, s, a[1], [mk("vref", e)], info) for s2, val in cases(s1, b)])
    if k == "filtermap":
        return skipping(Ip, st, x, info, lambda s, e: [(s2, p if vi else None) for s1, o in M.call(Ip, s, a[1], [e], info) for s2, vi, p in M.osplit(Ip, s1, o)])
    if k in ("copied",):
        return [(s, it(k, b), e if e is END else Ip.deref_val(s, e)) for s, b, e in step(Ip, st, a[0], info)]
    if k == "ident":
        return [(s, it(k, b), e) for s, b, e in step(Ip, st, a[0], info)]
    if k == "enum":
        n = a[1] if len(a) > 1 else I(0)
        return [(s, it("enum", b, add(n, I(1))), e if e is END else tup(n, e)) for s, b, e in step(Ip, st, a[0], info)]
    if k == "zip":
        out = []
        for s, b, e in step(Ip, st, a[0], info):
            if e is END:
                out.append((s, it("zip", b, a[1]), END))
                continue
            for s2, c, f in step(Ip, s, a[1], info):
                out.append((s2, it("zip", b, c), END if f is END else tup(e, f)))
        return out
    if k == "chain":
        out = []
        for s, b, e in step(Ip, st, a[0], info):
            if e is END:
                out += step(Ip, s, norm(Ip, s, a[1]), info)
            else:
                out.append((s, it("chain", b, a[1]), e))
        return out
    if k == "take":
        n = a[1]
        out = []
        for s, more in cases(st, ge0(sub(n, I(1)))):
            if not more:
                out.append((s, x, END))
            else:
                out += [(s2, it("take", b, sub(n, I(1))), e) for s2, b, e in step(Ip, s, a[0], info)]
        return out
    if k == "skip":
        todo, n = [(st, a[0])], a[1]
        for _ in range(cint(n)):
            nxt = []
            for s, b in todo:
                nxt += [(s2, c) for s2, c, e in step(Ip, s, b, info)]
            todo = nxt
        out = []
        for s, b in todo:
            out += step(Ip, s, b, info)
        return out
    if k == "stepby":
        n = cint(a[1])
        out = []
        for s, b, e in step(Ip, st, a[0], info):
            out.append((s, b if e is END else it("stepby2", b, I(n)), e))
        return out
    if k == "stepby2":
        return step(Ip, st, it("stepby", it("skip", a[0], I(a[1].a[0] - 1)), a[1]), info)
    if k == "takewhile":
        out = []
        for s, b, e in step(Ip, st, a[0], info):
            if e is END:
                out.append((s, it(k, b, a[1]), END))
                continue
            for s1, c in M.call(Ip, s, a[1], [mk("vref", e)], info):
                for s2, val in cases(s1, c):
                    out.append((s2, it(k, b, a[1]) if val else it("seq", ()), e if val else END))
        return out
    if k == "skipwhile":
        out, todo = [], [(st, a[0])]
        while todo:
            s, b0 = todo.pop()
            for s1, b, e in step(Ip, s, b0, info):
                if e is END:
                    out.append((s1, b, END))
                    continue
                for s2, c in M.call(Ip, s1, a[1], [mk("vref", e)], info):
                    for s3, val in cases(s2, c):
                        if val:
                            todo.append((s3, b))
                        else:
                            out.append((s3, b, e))
        return out
    if k == "mapwhile":
        out = []
        for s, b, e in step(Ip, st, a[0], info):
            if e is END:
                out.append((s, b, END))
                continue
            for s1, o in M.call(Ip, s, a[1], [e], info):
                for s2, vi, p in M.osplit(Ip, s1, o):
                    out.append((s2, it(k, b, a[1]) if vi else it("seq", ()), p if vi else END))
        return out
    if k in ("flatmap", "flatten"):
        cur = a[2] if len(a) > 2 and a[2] is not None and a[2].op == "iter" else None
        out, todo = [], [(st, a[0], cur)]
        f = a[1] if k == "flatmap" else None
        guard = 0
        while todo:
            guard += 1
            if guard > 2000:
                raise Budget("flat_map")
            s, b, c = todo.pop(0)
            if c is not None:
                for s2, c2, e in step(Ip, s, c, info):
                    if e is END:
                        todo.append((s2, b, None))
                    else:
                        out.append((s2, it("flatmap", b, f if f is not None else UNIT, c2) if f is not None else it("flatten", b, UNIT, c2), e))
                continue
            for s2, b2, e in step(Ip, s, b, info):
                if e is END:
                    out.append((s2, it("seq", ()), END))
                elif f is None:
                    todo.append((s2, b2, anyiter(Ip, s2, e)))
                else:
                    for s3, v in M.call(Ip, s2, f, [e], info):
                        todo.append((s3, b2, anyiter(Ip, s3, v)))
        return out
    if k == "rev":
        out = []
        if a[0].a[0] == "range":
            lo, hi, ty = a[0].a[1:]
            for s, more in cases(st, ge0(sub(sub(hi, lo), I(1)))):
                d = sub(hi, lo)
                if more and d.op != "int" and (s.ival(d)[1] is None or s.ival(d)[1] > 64):
                    raise Giveup("reverse range")
                nh = sub(hi, I(1))
                out.append((s, it("rev", it("range", lo, nh, ty)), Ip.typed(nh, ty)) if more else (s, x, END))
            return out
        for s, xs in drain(Ip, st, a[0], info):
            out += step(Ip, s, it("seq", tuple(reversed(xs))), info)
        return out
    if k == "peek":
        buf = a[1]
        if buf is None or buf is NOPEEK:
            return [(s, it("peek", b, NOPEEK), e) for s, b, e in step(Ip, st, a[0], info)]
        return [(st, it("peek", a[0], NOPEEK), buf)]
    if k == "cycle":
        out = []
        for s, b, e in step(Ip, st, a[0], info):
            if e is END:
                out += [(s2, it("cycle", b2, a[1]), e2) for s2, b2, e2 in step(Ip, s, a[1], info)]
            else:
                out.append((s, it("cycle", b, a[1]), e))
        return out
    if k == "repeat":
        return [(st, x, a[0])]
    if k == "scan":
        loc = a[1]
        out = []
        for s, b, e in step(Ip, st, a[0], info):
            if e is END:
                out.append((s, x, END))
                continue
            for s1, o in M.call(Ip, s, a[2], [mk("ref", loc.a[0], ()), e], info):
                for s2, vi, p in M.osplit(Ip, s1, o):
                    out.append((s2, it("scan", b, loc, a[2]), p if vi else END))
        return out
    y = norm(Ip, st, x)
    if y is not x:
        return step(Ip, st, y, info)
    raise Giveup(f"iterator {k}")


NOPEEK = mk("nopeek")


def anyiter(Ip, st, v):
    while v.op in ("ref",):
        v2 = Ip.deref_val(st, v)
        if v2.op == "iter":
            return norm(Ip, st, v2)
        return it("seq", tuple(mk("vref", e) for e in clist(v2)))
    if v.op == "iter":
        return norm(Ip, st, v)
    if v.op == "vref":
        return it("seq", tuple(mk("vref", e) for e in clist(v.a[0])))
    if v.op == "adt" and v.a[0] == "std::option::Option":
        return it("seq", (v.a[3][0],) if v.a[1] == 1 else ())
    if v.op == "adt" and v.a[0] == "std::result::Result":
        return it("seq", (v.a[3][0],) if v.a[1] == 0 else ())
    if v.op == "adt" and v.a[0].endswith("::Range"):
        return it("range", v.a[3][0], v.a[3][1], "usize")
    if v.op in ("hmap", "emptymap"):
        return norm(Ip, st, it("vecinto", v))
    return it("seq", tuple(clist(v)))


def skipping(Ip, st, x, info, f):
    k, a = x.a[0], x.a[1:]
    out, todo = [], [(st, a[0])]
    n = 0
    while todo:
        n += 1
        if n > 5000:
            raise Budget("filter")
        s, b = todo.pop()
        for s1, c, e in step(Ip, s, b, info):
            if e is END:
                out.append((s1, it(k, c, a[1]), END))
                continue
            for s2, v in f(s1, e):
                if v is None:
                    todo.append((s2, c))
                else:
                    out.append((s2, it(k, c, a[1]), v))
    return out


def drain(Ip, st, x, info):
    """[(state, [elements])]"""
    x = norm(Ip, st, x)
    if x.a[0] == "seq":
        return [(st, list(x.a[1]))]
    todo, out = [(st, x, ())], []
    n = 0
    while todo:
        s, y, acc = todo.pop()
        n += 1
        if n > 20000 or len(acc) > MAXLEN:
            raise Budget("iterator too long")
        for s2, z, e in step(Ip, s, y, info):
            if e is END:
                out.append((s2, list(acc)))
            else:
                todo.append((s2, z, acc + (e,)))
    return out


CH = {}


def creg(*names):
    def d(f):
        for n in names:
            CH[n] = f
        return f
    return d


@creg("std::iter::IntoIterator::into_iter")
def _(Ip, st, a, i):
    return [(st, cit(Ip, st, a[0], i["argty"][0]))]


@creg("std::iter::Iterator::by_ref")
def _(Ip, st, a, i):
    return [(st, a[0])]


def cunary(kind):
    def h(Ip, st, a, i):
        b = cit(Ip, st, a[0], i["argty"][0])
        return [(st, it(kind, b, *a[1:]))]
    return h


for _n, _k in (("map", "map"), ("filter", "filter"), ("filter_map", "filtermap"), ("enumerate", "enum"), ("rev", "rev"),
               ("copied", "copied"), ("cloned", "copied"), ("skip", "skip"), ("take", "take"), ("step_by", "stepby"),
               ("take_while", "takewhile"), ("skip_while", "skipwhile"), ("map_while", "mapwhile"), ("flat_map", "flatmap"),
               ("flatten", "flatten"), ("inspect", "ident"), ("fuse", "ident")):
    CH["std::iter::Iterator::" + _n] = cunary(_k)


@creg("std::iter::Iterator::peekable")
def _(Ip, st, a, i):
    return [(st, it("peek", cit(Ip, st, a[0], i["argty"][0]), NOPEEK))]


@creg("std::iter::Iterator::cycle")
def _(Ip, st, a, i):
    b = cit(Ip, st, a[0], i["argty"][0])
    return [(st, it("cycle", b, b))]


@creg("std::iter::Iterator::scan")
def _(Ip, st, a, i):
    s = st.copy()
    loc = (f"scan:{i['ctx']}:{i['bb']}", 0)
    s.env[loc] = a[1]
    return [(s, it("scan", cit(Ip, st, a[0], i["argty"][0]), mk("ref", loc, ()), a[2]))]


@creg("std::iter::repeat")
def _(Ip, st, a, i):
    return [(st, it("repeat", a[0]))]


@creg("std::iter::repeat_n")
def _(Ip, st, a, i):
    return [(st, it("take", it("repeat", a[0]), a[1]))]


@creg("std::iter::empty")
def _(Ip, st, a, i):
    return [(st, it("seq", ()))]


@creg("std::iter::once")
def _(Ip, st, a, i):
    return [(st, it("seq", (a[0],)))]


@creg("std::iter::Iterator::zip", "std::iter::Iterator::chain", "std::iter::zip")
def _(Ip, st, a, i):
    return [(st, it("zip" if i["fn"].endswith("zip") else "chain", cit(Ip, st, a[0], i["argty"][0]), cit(Ip, st, a[1], i["argty"][1])))]


@creg("core::slice::<impl [T]>::iter", "std::collections::VecDeque::<T, A>::iter")
def _(Ip, st, a, i):
    return [(st, it("seq", tuple(mk("vref", e) for e in clist(Ip.deref_val(st, a[0])))))]


@creg("core::slice::<impl [T]>::iter_mut")
def _(Ip, st, a, i):
    return [(st, norm(Ip, st, it("slicemut", a[0], Ip.deref_val(st, a[0]))))]


HM = ("std::collections::HashMap::<K, V, S, A>::", "std::collections::HashMap::<K, V, S>::", "std::collections::HashMap::<K, V>::",
      "std::collections::BTreeMap::<K, V, A>::", "std::collections::BTreeMap::<K, V>::")
HS = ("std::collections::HashSet::<T, S, A>::", "std::collections::HashSet::<T, S>::", "std::collections::HashSet::<T>::",
      "std::collections::BTreeSet::<T, A>::", "std::collections::BTreeSet::<T>::")


def hreg(*names, sets=True, maps=True):
    return creg(*[p + n for n in names for p in ((HM if maps else ()) + (HS if sets else ()))])


@hreg("new", "with_capacity", "with_capacity_and_hasher")
def _(Ip, st, a, i):
    return [(st, hmap(()))]


@creg("std::default::Default::default")
def _(Ip, st, a, i):
    d = i["dest"] or ""
    if d.startswith(("std::collections::HashMap", "std::collections::HashSet", "std::collections::BTree")):
        return [(st, hmap(()))]
    if d.startswith("std::collections::VecDeque"):
        return [(st, mkseq(()))]
    if d.startswith("std::string::String"):
        return [(st, mk("str", ""))]
    if d == "bool":
        return [(st, FALSE)]
    return [(st, M.default_of(d))]


@hreg("len")
def _(Ip, st, a, i):
    return [(st, I(len(pairs(D1(Ip, st, a[0])))))]


@hreg("is_empty")
def _(Ip, st, a, i):
    return [(st, FALSE if pairs(D1(Ip, st, a[0])) else TRUE)]


D1 = M.D1
D = M.D


@hreg("get", sets=False)
def _(Ip, st, a, i):
    m, k = D1(Ip, st, a[0]), D(Ip, st, a[1])
    return [(s, NONE if ix is None else Some(M.sub_ref(Ip, s, a[0], ("mv", ix)))) for s, ix in lookup_key(st, m, k)]


@hreg("get_mut", sets=False)
def _(Ip, st, a, i):
    m, k = D1(Ip, st, a[0]), D(Ip, st, a[1])
    return [(s, NONE if ix is None else Some(M.sub_ref(Ip, s, a[0], ("mv", ix)))) for s, ix in lookup_key(st, m, k)]


@hreg("get_key_value", sets=False)
def _(Ip, st, a, i):
    m, k = D1(Ip, st, a[0]), D(Ip, st, a[1])
    return [(s, NONE if ix is None else Some(tup(mk("vref", pairs(m)[ix][0]), mk("vref", pairs(m)[ix][1])))) for s, ix in lookup_key(st, m, k)]


@hreg("contains_key", sets=False)
def _(Ip, st, a, i):
    m, k = D1(Ip, st, a[0]), D(Ip, st, a[1])
    return [(s, FALSE if ix is None else TRUE) for s, ix in lookup_key(st, m, k)]


@hreg("contains", maps=False)
def _(Ip, st, a, i):
    m, k = D1(Ip, st, a[0]), D(Ip, st, a[1])
    return [(s, FALSE if ix is None else TRUE) for s, ix in lookup_key(st, m, k)]


def map_insert(Ip, st, r, k, v):
    """[(state, old value | None)]"""
    m = D1(Ip, st, r)
    out = []
    if k.op == "ssel":
        for s, n in int_cases(Ip, st, k.a[0], 0, len(k.a[1]) - 1):
            if n is not None:
                out += map_insert(Ip, s, r, mk("str", k.a[1][n]), v)
        return out
    for s, ix in lookup_key(st, m, k):
        s = s.copy()
        ps = pairs(m)
        old = None
        if ix is None:
            ps.append((k, v))
        else:
            old = ps[ix][1]
            ps[ix] = (ps[ix][0], v)
        M.writeback(Ip, s, r, hmap(ps))
        out.append((s, old))
    return out


def key_of(Ip, st, k):
    """owned form of a key (keys are compared by value)"""
    return D(Ip, st, k)


@hreg("insert", sets=False)
def _(Ip, st, a, i):
    return [(s, NONE if o is None else Some(o)) for s, o in map_insert(Ip, st, a[0], key_of(Ip, st, a[1]), a[2])]


@hreg("insert", maps=False)
def _(Ip, st, a, i):
    return [(s, TRUE if o is None else FALSE) for s, o in map_insert(Ip, st, a[0], key_of(Ip, st, a[1]), UNIT)]


def map_remove(Ip, st, r, k):
    m = D1(Ip, st, r)
    out = []
    for s, ix in lookup_key(st, m, k):
        if ix is None:
            out.append((s, None))
            continue
        s = s.copy()
        ps = pairs(m)
        old = ps.pop(ix)
        M.writeback(Ip, s, r, hmap(ps))
        out.append((s, old))
    return out


@hreg("remove", sets=False)
def _(Ip, st, a, i):
    return [(s, NONE if o is None else Some(o[1])) for s, o in map_remove(Ip, st, a[0], D(Ip, st, a[1]))]


@hreg("remove_entry", sets=False)
def _(Ip, st, a, i):
    return [(s, NONE if o is None else Some(tup(*o))) for s, o in map_remove(Ip, st, a[0], D(Ip, st, a[1]))]


@hreg("remove", maps=False)
def _(Ip, st, a, i):
    return [(s, FALSE if o is None else TRUE) for s, o in map_remove(Ip, st, a[0], D(Ip, st, a[1]))]


@hreg("clear")
def _(Ip, st, a, i):
    s = st.copy()
    M.writeback(Ip, s, a[0], hmap(()))
    return [(s, UNIT)]


@hreg("keys", sets=False)
def _(Ip, st, a, i):
    return [(st, it("seq", tuple(mk("vref", p) for p, _ in pairs(D1(Ip, st, a[0])))))]


@hreg("into_keys", sets=False)
def _(Ip, st, a, i):
    return [(st, it("seq", tuple(p for p, _ in pairs(a[0]))))]


@hreg("values", sets=False)
def _(Ip, st, a, i):
    return [(st, it("seq", tuple(mk("vref", q) for _, q in pairs(D1(Ip, st, a[0])))))]


@hreg("into_values", sets=False)
def _(Ip, st, a, i):
    return [(st, it("seq", tuple(q for _, q in pairs(a[0]))))]


@hreg("values_mut", sets=False)
def _(Ip, st, a, i):
    return [(st, it("seq", tuple(M.sub_ref(Ip, st, a[0], ("mv", j)) for j, _ in enumerate(pairs(D1(Ip, st, a[0]))))))]


@hreg("iter", sets=False)
def _(Ip, st, a, i):
    return [(st, it("seq", tuple(tup(mk("vref", p), mk("vref", q)) for p, q in pairs(D1(Ip, st, a[0])))))]


@hreg("iter_mut", sets=False)
def _(Ip, st, a, i):
    return [(st, it("seq", tuple(tup(mk("vref", p), M.sub_ref(Ip, st, a[0], ("mv", j))) for j, (p, q) in enumerate(pairs(D1(Ip, st, a[0]))))))]


@hreg("iter", maps=False)
def _(Ip, st, a, i):
    return [(st, it("seq", tuple(mk("vref", p) for p, q in pairs(D1(Ip, st, a[0])))))]


@hreg("drain")
def _(Ip, st, a, i):
    ps = pairs(D1(Ip, st, a[0]))
    s = st.copy()
    M.writeback(Ip, s, a[0], hmap(()))
    return [(s, it("seq", tuple(p if q is UNIT else tup(p, q) for p, q in ps)))]


@hreg("retain", sets=False)
def _(Ip, st, a, i):
    todo = [(st, ())]
    for p, q in pairs(D1(Ip, st, a[0])):
        nxt = []
        for s, keep in todo:
            for s1, b in M.call(Ip, s, a[1], [mk("vref", p), mk("vref", q)], i):
                for s2, val in cases(s1, b):
                    nxt.append((s2, keep + ((p, q),) if val else keep))
        todo = nxt
    out = []
    for s, keep in todo:
        s = s.copy()
        M.writeback(Ip, s, a[0], hmap(keep))
        out.append((s, UNIT))
    return out


@hreg("entry", sets=False)
def _(Ip, st, a, i):
    return [(st, mk("entry", a[0], key_of(Ip, st, a[1])))]


ENT = tuple(p + "Entry::" + g for p in ("std::collections::hash_map::", "std::collections::btree_map::") for g in
            ("<'a, K, V>::", "<'a, K, V, A>::", "<'_, K, V>::"))


def ereg(*names):
    return creg(*[p + n for p in ENT for n in names])


def entry_or(Ip, st, e, mkval, info):
    r, k = e.a
    m = D1(Ip, st, r)
    out = []
    for s, ix in lookup_key(st, m, k):
        if ix is not None:
            out.append((s, M.sub_ref(Ip, s, r, ("mv", ix))))
            continue
        for s2, v in mkval(s):
            s2 = s2.copy()
            ps = pairs(D1(Ip, s2, r))
            ps.append((k, v))
            M.writeback(Ip, s2, r, hmap(ps))
            out.append((s2, M.sub_ref(Ip, s2, r, ("mv", len(ps) - 1))))
    return out


@ereg("or_insert")
def _(Ip, st, a, i):
    return entry_or(Ip, st, a[0], lambda s: [(s, a[1])], i)


@ereg("or_insert_with")
def _(Ip, st, a, i):
    return entry_or(Ip, st, a[0], lambda s: M.call(Ip, s, a[1], [], i), i)


@ereg("or_default")
def _(Ip, st, a, i):
    t = re.sub(r"^&('\w+ )?mut ", "", i["dest"] or "")
    return entry_or(Ip, st, a[0], lambda s: CH["std::default::Default::default"](Ip, s, [], {"dest": t}), i)


@ereg("and_modify")
def _(Ip, st, a, i):
    r, k = a[0].a
    out = []
    for s, ix in lookup_key(st, D1(Ip, st, r), k):
        if ix is None:
            out.append((s, a[0]))
        else:
            out += [(s2, a[0]) for s2, _ in M.call(Ip, s, a[1], [M.sub_ref(Ip, s, r, ("mv", ix))], i)]
    return out


# -- consumers ------------------------------------------------------------------------------------
def get_iter(Ip, st, a0, ty):
    """(iterator term, reference to store the rest into or None)"""
    r = a0
    last = None
    while r.op == "ref":
        v = Ip.read_loc(st, r.a[0], r.a[1])
        last = r
        if v.op != "ref":
            break
        r = v
    x = D(Ip, st, a0, 6)
    t = re.sub(r"^&('\w+ )?(mut )?", "", ty) if a0.op in ("ref", "vref") else ty
    while t.startswith("&"):
        t = re.sub(r"^&('\w+ )?(mut )?", "", t)
    if x.op == "adt":
        x = M.as_iter(Ip, st, x, t)
    if x.op != "iter":
        raise Giveup(f"iterator value {show(x)[:80]}")
    return norm(Ip, st, x), last


@creg("std::iter::Iterator::next")
def c_next(Ip, st, a, i):
    x, r = get_iter(Ip, st, a[0], i["argty"][0])
    out = []
    for s, rest, e in step(Ip, st.copy(), x, i):
        if r is not None:
            s = s.copy()
            Ip.write_loc(s, r.a[0], r.a[1], rest)
        out.append((s, NONE if e is END else Some(e)))
    return out


@creg("std::iter::DoubleEndedIterator::next_back")
def _(Ip, st, a, i):
    x, r = get_iter(Ip, st, a[0], i["argty"][0])
    out = []
    for s, xs in drain(Ip, st.copy(), x, i):
        s = s.copy()
        if r is not None:
            Ip.write_loc(s, r.a[0], r.a[1], it("seq", tuple(xs[:-1])))
        out.append((s, Some(xs[-1]) if xs else NONE))
    return out


@creg("std::iter::Peekable::<I>::peek")
def _(Ip, st, a, i):
    x, r = get_iter(Ip, st, a[0], i["argty"][0])
    if x.a[0] != "peek":
        raise Giveup("peek")
    if x.a[2] is not NOPEEK:
        return [(st, Some(mk("vref", x.a[2])))]
    out = []
    for s, b, e in step(Ip, st, x.a[1], i):
        s = s.copy()
        if e is END:
            out.append((s, NONE))
            continue
        Ip.write_loc(s, r.a[0], r.a[1], it("peek", b, e))
        out.append((s, Some(mk("vref", e))))
    return out


def consumer(name):
    """decorator for whole-iterator consumers: f(Ip, st, elements, a, i) -> [(s, v)]"""
    def d(f):
        def h(Ip, st, a, i):
            x, r = iter_arg(Ip, st, a[0], i)
            out = []
            for s, xs in drain(Ip, st, x, i):
                if r is not None:
                    s = s.copy()
                    Ip.write_loc(s, r.a[0], r.a[1], it("seq", ()))
                out += f(Ip, s, xs, a, i)
            return out
        for n in name.split():
            CH["std::iter::Iterator::" + n] = h
        return f
    return d


def iter_arg(Ip, st, v, i):
    ty = i["argty"][0]
    if ty.startswith("&mut"):
        return get_iter(Ip, st, v, ty)
    if v.op == "iter":
        return norm(Ip, st, v), None
    return cit(Ip, st, v, ty), None


def owned(Ip, s, v):
    return v


def build(Ip, st, d, xs):
    """[(state, container of type d)]"""
    if d.startswith(("std::vec::Vec", "std::collections::VecDeque", "std::boxed::Box<[")):
        return [(st, mkseq(xs))]
    if d.startswith("std::string::String"):
        if all(x.op == "str" for x in xs):
            return [(st, mk("str", "".join(x.a[0] for x in xs)))]
        if all(x.op == "vref" and x.a[0].op == "str" for x in xs):
            return [(st, mk("str", "".join(x.a[0].a[0] for x in xs)))]
        if all(x.op == "int" for x in xs):
            return [(st, mk("str", "".join(chr(x.a[0]) for x in xs)))]
        return [(st, mk("fmt"))]
    todo = [(st, ())]
    isset = "Set<" in d[:40]
    for x in xs:
        k, v = (x, UNIT) if isset else (x.a[0] if x.op == "tuple" else (None, None))
        if k is None:
            raise Giveup("map from non-pairs")
        nxt = []
        for s, ps in todo:
            kk = D(Ip, s, k)
            for s2, ix in lookup_key(s, hmap(ps), kk):
                if ix is None:
                    nxt.append((s2, ps + ((kk, v),)))
                else:
                    p2 = list(ps)
                    p2[ix] = (p2[ix][0], v)
                    nxt.append((s2, tuple(p2)))
        todo = nxt
    return [(s, hmap(ps)) for s, ps in todo]


def c_collect(Ip, st, a, i):
    d = i["dest"] or (i["ga"][-1] if i["ga"] else "")
    x, r = iter_arg(Ip, st, a[0], i)
    wrap = "R" if d.startswith("std::result::Result") else "O" if d.startswith("std::option::Option") else None
    if not wrap:
        out = []
        for s, xs in drain(Ip, st, x, i):
            out += build(Ip, s, d, xs)
        return out
    inner = re.sub(r"^std::(result::Result|option::Option)<", "", d)
    todo, out = [(st, x, ())], []
    n = 0
    while todo:
        s, y, acc = todo.pop()
        n += 1
        if n > 20000:
            raise Budget("collect")
        for s2, z, e in step(Ip, s, y, i):
            if e is END:
                for s3, v in build(Ip, s2, inner, list(acc)):
                    out.append((s3, Ok(v) if wrap == "R" else Some(v)))
                continue
            for s3, vi, p in (M.rsplit if wrap == "R" else M.osplit)(Ip, s2, e):
                if vi == (0 if wrap == "R" else 1):
                    todo.append((s3, z, acc + (p,)))
                else:
                    out.append((s3, Err(p) if wrap == "R" else NONE))
    return out


CH["std::iter::Iterator::collect"] = c_collect
CH["std::iter::FromIterator::from_iter"] = c_collect


@creg("std::iter::Extend::extend")
def _(Ip, st, a, i):
    x = cit(Ip, st, a[1], i["argty"][1])
    tyv = re.sub(r"^&('\w+ )?(mut )?", "", i["argty"][0])
    out = []
    for s, xs in drain(Ip, st, x, i):
        cur = Ip.deref_val(s, a[0])
        if cur.op in ("hmap", "emptymap"):
            todo = [s]
            for e in xs:
                nxt = []
                for s1 in todo:
                    if e.op == "tuple" and "Set<" not in tyv[:40]:
                        nxt += [z for z, _ in map_insert(Ip, s1, a[0], D(Ip, s1, e.a[0][0]), e.a[0][1])]
                    else:
                        nxt += [z for z, _ in map_insert(Ip, s1, a[0], D(Ip, s1, e), UNIT)]
                todo = nxt
            out += [(z, UNIT) for z in todo]
            continue
        elt = tyv[tyv.find("<") + 1:]
        ys = [D1(Ip, s, e) if e.op in ("vref", "ref") and not elt.startswith("&") else e for e in xs]
        s = s.copy()
        M.writeback(Ip, s, a[0], mkseq(clist(cur) + ys))
        out.append((s, UNIT))
    return out


@consumer("count")
def _(Ip, st, xs, a, i):
    return [(st, I(len(xs)))]


@consumer("last")
def _(Ip, st, xs, a, i):
    return [(st, Some(xs[-1]) if xs else NONE)]


def arith(kind):
    def f(Ip, st, xs, a, i):
        d = i["dest"]
        wrap = d and (d.startswith("std::option::Option") or d.startswith("std::result::Result"))
        if wrap:
            raise Giveup("fallible sum/product")
        fl = d in ("f64", "f32") or (xs and isfloat(D(Ip, st, xs[0])))
        if fl:
            # std's float sum starts from -0.0, which is neutral
            r = None
            for x in xs:
                x = D(Ip, st, x)
                r = x if r is None else A.fop("Mul" if kind == "prod" else "Add", r, x)
            if r is None:
                r = fc(1.0 if kind == "prod" else 0.0)
            return [(st, r)]
        r = I(1 if kind == "prod" else 0)
        for x in xs:
            x = D(Ip, st, x)
            r = mul(r, x) if kind == "prod" else add(r, x)
            if d in RANGES and r.op not in ("int", "L"):
                Ip.typed(r, d)
        return [(st, r)]
    return f


consumer("product")(arith("prod"))
consumer("sum")(arith("sum"))


def fc(x):
    return mk("fc", repr(float(x)))


def isfloat(t):
    return t.op in ("fc", "fAdd", "fSub", "fMul", "fDiv", "fneg", "i2f", "f32", "fRem") or t.op.startswith("f.") or t.op in ("sym", "frombytes") and t in FSYM


FSYM = set()


def fsym(name):
    t = mk("sym", name, "in")
    FSYM.add(t)
    return t


def extremum(best):
    """max / min of integers (first/last tie rules do not matter for equal integers)"""
    def f(Ip, st, xs, a, i):
        if not xs:
            return [(st, NONE)]
        vals = [D(Ip, st, x) for x in xs]
        if not all(v.op in ("int", "L") or TYOF.get(v) in RANGES for v in vals):
            raise Giveup("max/min of non-integers")
        r = vals[0]
        for v in vals[1:]:
            r = (M.smx if best == "max" else M.smn)(st, r, v)
        d = i["dest"] or ""
        byref = "<&" in d
        return [(st, Some(mk("vref", r) if byref else r))]
    return f


consumer("max")(extremum("max"))
consumer("min")(extremum("min"))


def ordering_of(Ip, st, v):
    if v.op == "adt":
        return [(st, v.a[1] - 1 if v.a[0].endswith("Ordering") and v.a[1] in (0, 1, 2) else None)]
    if v.op == "ord":
        out = []
        x, y = v.a
        for s, lt in cases(st, ge0(sub(sub(y, x), I(1)))):
            if lt:
                out.append((s, -1))
            else:
                out += [(s2, 0 if eq else 1) for s2, eq in cases(s, eq0(sub(x, y)))]
        return out
    raise Giveup("ordering")


@creg("std::cmp::Ord::cmp")
def _(Ip, st, a, i):
    x, y = D(Ip, st, a[0]), D(Ip, st, a[1])
    if x.op == "str" and y.op == "str":
        n = (x.a[0] > y.a[0]) - (x.a[0] < y.a[0])
        return [(st, mkord(n))]
    return [(s, mkord(n)) for s, n in ordering_of(Ip, st, mk("ord", x, y))]


def mkord(n):
    return adt("std::cmp::Ordering", n + 1, ("Less", "Equal", "Greater")[n + 1], ())


@creg("std::cmp::PartialOrd::partial_cmp")
def _(Ip, st, a, i):
    x, y = D(Ip, st, a[0]), D(Ip, st, a[1])
    if isfloat(x) or isfloat(y):
        raise Giveup("float partial_cmp")
    return [(s, Some(mkord(n))) for s, n in ordering_of(Ip, st, mk("ord", x, y))]


def keyed(best):
    def f(Ip, st, xs, a, i):
        if not xs:
            return [(st, NONE)]
        todo = [(st, xs[0], None)]
        out = []
        ks = [(st, ())]
        for x in xs:
            nxt = []
            for s, acc in ks:
                nxt += [(s2, acc + (D(Ip, s2, k),)) for s2, k in M.call(Ip, s, a[1], [mk("vref", x)], i)]
            ks = nxt
        for s, keys in ks:
            todo = [(s, 0)]
            for j in range(1, len(xs)):
                nxt = []
                for s1, b in todo:
                    d = sub(keys[j], keys[b])
                    c = ge0(d) if best == "max" else ge0(sub(neg(d), I(1)))
                    nxt += [(s2, j if val else b) for s2, val in cases(s1, c)]
                todo = nxt
            out += [(s1, Some(xs[b])) for s1, b in todo]
        return out
    return f


consumer("max_by_key")(keyed("max"))
consumer("min_by_key")(keyed("min"))


@consumer("fold")
def _(Ip, st, xs, a, i):
    todo = [(st, a[1])]
    for x in xs:
        nxt = []
        for s, acc in todo:
            nxt += M.call(Ip, s, a[2], [acc, x], i)
        todo = nxt
    return todo


@consumer("reduce")
def _(Ip, st, xs, a, i):
    if not xs:
        return [(st, NONE)]
    todo = [(st, xs[0])]
    for x in xs[1:]:
        nxt = []
        for s, acc in todo:
            nxt += M.call(Ip, s, a[1], [acc, x], i)
        todo = nxt
    return [(s, Some(v)) for s, v in todo]


@consumer("for_each")
def _(Ip, st, xs, a, i):
    todo = [st]
    for x in xs:
        nxt = []
        for s in todo:
            nxt += [s2 for s2, _ in M.call(Ip, s, a[1], [x], i)]
        todo = nxt
    return [(s, UNIT) for s in todo]


@consumer("unzip")
def _(Ip, st, xs, a, i):
    return [(st, tup(mkseq([x.a[0][0] for x in xs]), mkseq([x.a[0][1] for x in xs])))]


@consumer("partition")
def _(Ip, st, xs, a, i):
    todo = [(st, (), ())]
    for x in xs:
        nxt = []
        for s, p, q in todo:
            for s1, b in M.call(Ip, s, a[1], [mk("vref", x)], i):
                for s2, val in cases(s1, b):
                    nxt.append((s2, p + (x,), q) if val else (s2, p, q + (x,)))
        todo = nxt
    return [(s, tup(mkseq(p), mkseq(q))) for s, p, q in todo]


def search(kind):
    """any / all / find / position / find_map / try_fold / try_for_each, with short-circuiting"""
    def h(Ip, st, a, i):
        x, r = iter_arg(Ip, st, a[0], i)
        out = []
        todo = [(st, x, 0, a[1] if kind == "try_fold" else None)]
        n = 0

        def fin(s, rest, v):
            if r is not None:
                s = s.copy()
                Ip.write_loc(s, r.a[0], r.a[1], rest)
            out.append((s, v))
        while todo:
            n += 1
            if n > 20000:
                raise Budget("search")
            s, y, k, acc = todo.pop()
            for s1, z, e in step(Ip, s, y, i):
                if e is END:
                    d = i["dest"] or ""
                    fin(s1, z, {"any": FALSE, "all": TRUE, "find": NONE, "position": NONE, "find_map": NONE}.get(kind) if kind not in ("try_fold", "try_for_each")
                        else (Ok if d.startswith("std::result") else Some)(acc if kind == "try_fold" else UNIT))
                    continue
                if kind == "try_fold":
                    for s2, v in M.call(Ip, s1, a[2], [acc, e], i):
                        isr = (i["dest"] or "").startswith("std::result")
                        for s3, vi, p in (M.rsplit if isr else M.osplit)(Ip, s2, v):
                            if vi == (0 if isr else 1):
                                todo.append((s3, z, k + 1, p))
                            else:
                                fin(s3, z, Err(p) if isr else NONE)
                    continue
                if kind == "try_for_each":
                    for s2, v in M.call(Ip, s1, a[1], [e], i):
                        isr = (i["dest"] or "").startswith("std::result")
                        for s3, vi, p in (M.rsplit if isr else M.osplit)(Ip, s2, v):
                            if vi == (0 if isr else 1):
                                todo.append((s3, z, k + 1, None))
                            else:
                                fin(s3, z, Err(p) if isr else NONE)
                    continue
                arg = mk("vref", e) if kind == "find" else e
                for s2, b in M.call(Ip, s1, a[1], [arg], i):
                    if kind == "find_map":
                        for s3, vi, p in M.osplit(Ip, s2, b):
                            if vi:
                                fin(s3, z, Some(p))
                            else:
                                todo.append((s3, z, k + 1, None))
                        continue
                    for s3, val in cases(s2, b):
                        if val != (kind != "all"):
                            todo.append((s3, z, k + 1, None))
                        else:
                            fin(s3, z, {"any": TRUE, "all": FALSE, "find": Some(e), "position": Some(I(k))}[kind])
        return out
    return h


for _k in ("any", "all", "find", "position", "find_map", "try_fold", "try_for_each"):
    CH["std::iter::Iterator::" + _k] = search(_k)


@creg("std::iter::Iterator::rposition")
def _(Ip, st, a, i):
    x, r = iter_arg(Ip, st, a[0], i)
    out = []
    for s, xs in drain(Ip, st, x, i):
        todo = [s]
        for k in range(len(xs) - 1, -1, -1):
            nxt = []
            for s1 in todo:
                for s2, b in M.call(Ip, s1, a[1], [xs[k]], i):
                    for s3, val in cases(s2, b):
                        if val:
                            out.append((s3, Some(I(k))))
                        else:
                            nxt.append(s3)
            todo = nxt
        out += [(s1, NONE) for s1 in todo]
    return out


@creg("std::iter::Iterator::nth")
def _(Ip, st, a, i):
    x, r = iter_arg(Ip, st, a[0], i)
    n = cint(a[1])
    todo = [(st, x)]
    for _ in range(n):
        nxt = []
        for s, y in todo:
            nxt += [(s2, z) for s2, z, e in step(Ip, s, y, i)]
        todo = nxt
    out = []
    for s, y in todo:
        for s2, z, e in step(Ip, s, y, i):
            s2 = s2.copy()
            if r is not None:
                Ip.write_loc(s2, r.a[0], r.a[1], z)
            out.append((s2, NONE if e is END else Some(e)))
    return out


@creg("std::iter::ExactSizeIterator::len")
def _(Ip, st, a, i):
    x, r = get_iter(Ip, st, a[0], i["argty"][0])
    return [(s, I(len(xs))) for s, xs in drain(Ip, st, x, i)]


@creg("std::iter::Iterator::eq")
def _(Ip, st, a, i):
    x, r = iter_arg(Ip, st, a[0], i)
    y = cit(Ip, st, a[1], i["argty"][1])
    out = []
    for s, xs in drain(Ip, st, x, i):
        for s2, ys in drain(Ip, s, y, i):
            out.append((s2, M.equal(Ip, s2, mkseq([D(Ip, s2, e) for e in xs]), mkseq([D(Ip, s2, e) for e in ys]))))
    return out


# -- vectors --------------------------------------------------------------------------------------
@creg("core::slice::<impl [T]>::contains", "std::collections::VecDeque::<T, A>::contains")
def _(Ip, st, a, i):
    v, x = Ip.deref_val(st, a[0]), D(Ip, st, a[1])
    out, todo = [], [st]
    for e in clist(v):
        nxt = []
        for s in todo:
            for s2, val in cases(s, M.equal(Ip, s, D(Ip, s, e), x)):
                if val:
                    out.append((s2, TRUE))
                else:
                    nxt.append(s2)
        todo = nxt
    return out + [(s, FALSE) for s in todo]


@creg("core::slice::<impl [T]>::reverse")
def _(Ip, st, a, i):
    s = st.copy()
    M.writeback(Ip, s, a[0], mkseq(reversed(clist(Ip.deref_val(s, a[0])))))
    return [(s, UNIT)]


def sort_states(Ip, st, xs, keys, less):
    """insertion sort with partitioning on undecided comparisons"""
    todo = [(st, [])]
    for j, x in enumerate(xs):
        nxt = []
        for s, acc in todo:
            work = [(s, len(acc))]
            while work:
                s1, p = work.pop()
                if p == 0:
                    nxt.append((s1, [j] + acc[0:] if False else acc[:0] + [j] + acc[0:]))
                    continue
                for s2, val in less(s1, keys[j], keys[acc[p - 1]]):
                    if val:
                        work.append((s2, p - 1))
                    else:
                        nxt.append((s2, acc[:p] + [j] + acc[p:]))
        todo = nxt
        if len(todo) > 300:
            raise Budget("sort partitions")
    return [(s, [xs[j] for j in acc]) for s, acc in todo]


def int_less(s, x, y):
    if x.op == "str" and y.op == "str":
        return [(s, x.a[0] < y.a[0])]
    if x.op == "tuple" and y.op == "tuple":
        out, todo = [], [s]
        for p, q in zip(x.a[0], y.a[0]):
            nxt = []
            for s1 in todo:
                for s2, lt in int_less(s1, p, q):
                    if lt:
                        out.append((s2, True))
                    else:
                        for s3, gt in int_less(s2, q, p):
                            if gt:
                                out.append((s3, False))
                            else:
                                nxt.append(s3)
            todo = nxt
        return out + [(s1, False) for s1 in todo]
    if x.op in ("int", "L") or TYOF.get(x) in RANGES:
        return cases(s, ge0(sub(sub(y, x), I(1))))
    if {x.op, y.op} <= {"str", "ssel"}:
        one = lambda v: [(v.a[0], TRUE)] if v.op == "str" else [(n, eq0(sub(v.a[0], I(k)))) for k, n in enumerate(v.a[1])]
        r = FALSE
        for n, c in one(x):
            for w, d in one(y):
                if n < w:
                    r = bor(r, band(c, d))
        return cases(s, r)
    raise Giveup("sort of non-integers")


@creg("core::slice::<impl [T]>::sort_unstable", "std::slice::<impl [T]>::sort")
def _(Ip, st, a, i):
    xs = clist(Ip.deref_val(st, a[0]))
    out = []
    for s, ys in sort_states(Ip, st, xs, [D(Ip, st, x) for x in xs], int_less):
        s = s.copy()
        M.writeback(Ip, s, a[0], mkseq(ys))
        out.append((s, UNIT))
    return out


@creg("std::slice::<impl [T]>::sort_by_key", "core::slice::<impl [T]>::sort_unstable_by_key")
def _(Ip, st, a, i):
    xs = clist(Ip.deref_val(st, a[0]))
    ks = [(st, ())]
    for x in xs:
        ks = [(s2, acc + (D(Ip, s2, k),)) for s, acc in ks for s2, k in M.call(Ip, s, a[1], [mk("vref", x)], i)]
    out = []
    unrev = lambda k: k
    for s0, keys in ks:
        less = int_less
        if keys and keys[0].op == "adt" and keys[0].a[0].endswith("Reverse"):
            keys = [k.a[3][0] for k in keys]
            less = lambda s, x, y: int_less(s, y, x)
        for s, ys in sort_states(Ip, s0, xs, keys, less):
            s = s.copy()
            M.writeback(Ip, s, a[0], mkseq(ys))
            out.append((s, UNIT))
    return out


@creg("std::slice::<impl [T]>::sort_by", "core::slice::<impl [T]>::sort_unstable_by")
def _(Ip, st, a, i):
    xs = clist(Ip.deref_val(st, a[0]))

    def less(s, x, y):
        out = []
        for s1, o in M.call(Ip, s, a[1], [mk("vref", x), mk("vref", y)], i):
            out += [(s2, n < 0) for s2, n in ordering_of(Ip, s1, o)]
        return out
    out = []
    for s, ys in sort_states(Ip, st, xs, xs, less):
        s = s.copy()
        M.writeback(Ip, s, a[0], mkseq(ys))
        out.append((s, UNIT))
    return out


@creg("std::cmp::Ordering::reverse")
def _(Ip, st, a, i):
    return [(s, mkord(-n)) for s, n in ordering_of(Ip, st, a[0])]


@creg("std::vec::Vec::<T, A>::dedup")
def _(Ip, st, a, i):
    todo = [(st, ())]
    for x in clist(Ip.deref_val(st, a[0])):
        nxt = []
        for s, acc in todo:
            if not acc:
                nxt.append((s, (x,)))
                continue
            for s2, val in cases(s, M.equal(Ip, s, acc[-1], x)):
                nxt.append((s2, acc if val else acc + (x,)))
        todo = nxt
    out = []
    for s, acc in todo:
        s = s.copy()
        M.writeback(Ip, s, a[0], mkseq(acc))
        out.append((s, UNIT))
    return out


@creg("std::vec::Vec::<T, A>::retain")
def _(Ip, st, a, i):
    todo = [(st, ())]
    for x in clist(Ip.deref_val(st, a[0])):
        nxt = []
        for s, keep in todo:
            for s1, b in M.call(Ip, s, a[1], [mk("vref", x)], i):
                for s2, val in cases(s1, b):
                    nxt.append((s2, keep + (x,) if val else keep))
        todo = nxt
    out = []
    for s, keep in todo:
        s = s.copy()
        M.writeback(Ip, s, a[0], mkseq(keep))
        out.append((s, UNIT))
    return out


@creg("std::vec::Vec::<T>::new", "std::vec::Vec::<T>::with_capacity", "std::collections::VecDeque::<T>::new", "std::collections::VecDeque::<T>::with_capacity")
def _(Ip, st, a, i):
    return [(st, mkseq(()))]


@creg("std::vec::Vec::<T, A>::push", "std::collections::VecDeque::<T, A>::push_back")
def _(Ip, st, a, i):
    s = st.copy()
    v = Ip.deref_val(s, a[0])
    M.writeback(Ip, s, a[0], mkseq(clist(v) + [a[1]]))
    return [(s, UNIT)]


@creg("std::collections::VecDeque::<T, A>::push_front")
def _(Ip, st, a, i):
    s = st.copy()
    v = Ip.deref_val(s, a[0])
    M.writeback(Ip, s, a[0], mkseq([a[1]] + clist(v)))
    return [(s, UNIT)]


def popper(front):
    def h(Ip, st, a, i):
        s = st.copy()
        xs = clist(Ip.deref_val(s, a[0]))
        if not xs:
            return [(s, NONE)]
        e = xs.pop(0) if front else xs.pop()
        M.writeback(Ip, s, a[0], mkseq(xs))
        return [(s, Some(e))]
    return h


CH["std::collections::VecDeque::<T, A>::pop_front"] = popper(True)
CH["std::collections::VecDeque::<T, A>::pop_back"] = popper(False)
CH["std::vec::Vec::<T, A>::pop"] = popper(False)


@creg("std::collections::BinaryHeap::<T>::new")
def _(Ip, st, a, i):
    raise Giveup("BinaryHeap")


@creg("std::vec::Vec::<T, A>::extend_from_slice")
def _(Ip, st, a, i):
    s = st.copy()
    M.writeback(Ip, s, a[0], mkseq(clist(Ip.deref_val(s, a[0])) + clist(Ip.deref_val(s, a[1]))))
    return [(s, UNIT)]


@creg("std::vec::Vec::<T, A>::append")
def _(Ip, st, a, i):
    s = st.copy()
    M.writeback(Ip, s, a[0], mkseq(clist(Ip.deref_val(s, a[0])) + clist(Ip.deref_val(s, a[1]))))
    M.writeback(Ip, s, a[1], mkseq(()))
    return [(s, UNIT)]


@creg("std::vec::Vec::<T, A>::resize")
def _(Ip, st, a, i):
    s = st.copy()
    xs = clist(Ip.deref_val(s, a[0]))
    n = cint(a[1])
    if n > MAXLEN:
        raise Giveup("resize")
    M.writeback(Ip, s, a[0], mkseq((xs + [a[2]] * n)[:n]))
    return [(s, UNIT)]


@creg("std::vec::Vec::<T, A>::insert")
def _(Ip, st, a, i):
    xs = clist(Ip.deref_val(st, a[0]))
    out = []
    for s, k in int_cases(Ip, st, a[1], 0, len(xs)):
        if k is None:
            Ip.oblige(i["body"], i["bb"], "insert", i["line"], f"{show(a[1])} <= {len(xs)}", False, s, (a[1],))
            continue
        s = s.copy()
        M.writeback(Ip, s, a[0], mkseq(xs[:k] + [a[2]] + xs[k:]))
        out.append((s, UNIT))
    return out


@creg("std::vec::Vec::<T, A>::remove", "std::vec::Vec::<T, A>::swap_remove")
def _(Ip, st, a, i):
    xs = clist(Ip.deref_val(st, a[0]))
    out = []
    for s, k in int_cases(Ip, st, a[1], 0, len(xs) - 1):
        if k is None:
            Ip.oblige(i["body"], i["bb"], "remove", i["line"], f"{show(a[1])} < {len(xs)}", False, s, (a[1],))
            continue
        s = s.copy()
        if i["fn"].endswith("swap_remove"):
            ys = list(xs)
            e = ys[k]
            ys[k] = ys[-1]
            ys.pop()
        else:
            e, ys = xs[k], xs[:k] + xs[k + 1:]
        M.writeback(Ip, s, a[0], mkseq(ys))
        out.append((s, e))
    return out


@creg("std::vec::Vec::<T, A>::truncate")
def _(Ip, st, a, i):
    xs = clist(Ip.deref_val(st, a[0]))
    out = []
    for s, k in int_cases(Ip, st, a[1], 0, len(xs)):
        s = s.copy()
        M.writeback(Ip, s, a[0], mkseq(xs if k is None else xs[:k]))
        out.append((s, UNIT))
    return out


@creg("std::vec::Vec::<T, A>::drain")
def _(Ip, st, a, i):
    xs = clist(Ip.deref_val(st, a[0]))
    rp = M.range_parts(D(Ip, st, a[1]), I(len(xs)))
    if rp is None:
        raise Giveup("drain")
    lo, hi = cint(rp[0]), cint(rp[1])
    s = st.copy()
    M.writeback(Ip, s, a[0], mkseq(xs[:lo] + xs[hi:]))
    return [(s, it("seq", tuple(xs[lo:hi])))]


@creg("std::vec::Vec::<T, A>::split_off")
def _(Ip, st, a, i):
    xs, n = clist(Ip.deref_val(st, a[0])), cint(a[1])
    s = st.copy()
    M.writeback(Ip, s, a[0], mkseq(xs[:n]))
    return [(s, mkseq(xs[n:]))]


@creg("core::slice::<impl [T]>::swap")
def _(Ip, st, a, i):
    xs = clist(Ip.deref_val(st, a[0]))
    p, q = cint(a[1]), cint(a[2])
    Ip.oblige(i["body"], i["bb"], "bounds", i["line"], f"swap {p} {q} < {len(xs)}", p < len(xs) and q < len(xs), st, ())
    if p >= len(xs) or q >= len(xs):
        return []
    xs[p], xs[q] = xs[q], xs[p]
    s = st.copy()
    M.writeback(Ip, s, a[0], mkseq(xs))
    return [(s, UNIT)]


@creg("core::slice::<impl [T]>::fill")
def _(Ip, st, a, i):
    s = st.copy()
    M.writeback(Ip, s, a[0], mkseq([a[1]] * len(clist(Ip.deref_val(st, a[0])))))
    return [(s, UNIT)]


@creg("core::slice::<impl [T]>::copy_from_slice", "core::slice::<impl [T]>::clone_from_slice")
def _(Ip, st, a, i):
    s = st.copy()
    v, w = Ip.deref_val(s, a[0]), Ip.deref_val(s, a[1])
    if len(clist(v)) != len(clist(w)):
        Ip.oblige(i["body"], i["bb"], "copy-len", i["line"], "lengths equal", False, st, ())
        return []
    M.writeback(Ip, s, a[0], mkseq(clist(w)))
    return [(s, UNIT)]


@creg("std::slice::<impl [T]>::concat")
def _(Ip, st, a, i):
    xs = []
    for e in clist(Ip.deref_val(st, a[0])):
        xs += clist(D(Ip, st, e))
    return [(st, mkseq(xs))]


@creg("core::slice::<impl [T]>::split_first", "core::slice::<impl [T]>::split_last")
def _(Ip, st, a, i):
    xs = clist(Ip.deref_val(st, a[0]))
    if not xs:
        return [(st, NONE)]
    n = len(xs)
    if i["fn"].endswith("first"):
        return [(st, Some(tup(mk("vref", xs[0]), mk("vref", mkseq(xs[1:])))))]
    return [(st, Some(tup(mk("vref", xs[-1]), mk("vref", mkseq(xs[:-1])))))]


@creg("std::array::<impl [T; N]>::map")
def _(Ip, st, a, i):
    todo = [(st, ())]
    for x in clist(a[0]):
        todo = [(s2, acc + (v,)) for s, acc in todo for s2, v in M.call(Ip, s, a[1], [x], i)]
    return [(s, mkseq(acc)) for s, acc in todo]


@creg("std::array::from_fn")
def _(Ip, st, a, i):
    raise Giveup("array::from_fn")


@creg("std::vec::from_elem")
def _(Ip, st, a, i):
    n = a[1]
    if n.op == "int" and n.a[0] <= MAXLEN:
        return [(st, mkseq([a[0]] * n.a[0]))]
    return [(st, mk("rep", a[0], n))]


def int_cases(Ip, st, t, lo, hi):
    """partition by the value of integer t in [lo, hi]; None = outside"""
    if t.op == "int":
        return [(st, t.a[0] if lo <= t.a[0] <= hi else None)]
    out, todo = [], [st]
    for k in range(lo, hi + 1):
        nxt = []
        for s in todo:
            for s2, val in cases(s, eq0(sub(t, I(k)))):
                if val:
                    out.append((s2, k))
                else:
                    nxt.append(s2)
        todo = nxt
    return out + [(s, None) for s in todo]


@creg("std::ops::Index::index", "std::ops::IndexMut::index_mut")
def c_index(Ip, st, a, i):
    ty = re.sub(r"^&('\w+ )?(mut )?", "", i["argty"][0])
    base = Ip.deref_val(st, a[0])
    if base.op in ("hmap", "emptymap"):
        out = []
        for s, ix in lookup_key(st, base, D(Ip, st, a[1])):
            if ix is None:
                Ip.oblige(i["body"], i["bb"], "map-index", i["line"], f"key {show(D(Ip, st, a[1]))[:60]} present", False, s, ())
            else:
                out.append((s, M.sub_ref(Ip, s, a[0], ("mv", ix))))
        return out
    n = vlen(base)
    if n.op == "int" and n.a[0] <= 64:
        ix = D(Ip, st, a[1])
        if i["argty"][1] == "usize" and ix.op != "int":
            Ip.typed(ix, "usize")
            out = []
            for s, k in int_cases(Ip, st, ix, 0, n.a[0] - 1):
                if k is None:
                    Ip.oblige(i["body"], i["bb"], "bounds", i["line"], f"{show(ix)} < {n.a[0]}", False, s, (ix,))
                else:
                    out.append((s, M.sub_ref(Ip, s, a[0], ("elt", I(k)))))
            return out
        rp = M.range_parts(ix, n) if i["argty"][1] != "usize" else None
        if rp and not (rp[0].op == "int" and rp[1].op == "int"):
            out = []
            for z in rp:
                Ip.typed(z, "usize")
            for s, lo in int_cases(Ip, st, rp[0], 0, n.a[0]):
                for s2, hi in int_cases(Ip, s, rp[1], 0, n.a[0]):
                    if lo is None or hi is None or lo > hi:
                        Ip.oblige(i["body"], i["bb"], "slice", i["line"], f"{show(rp[0])}..{show(rp[1])} within {n.a[0]}", False, s2, rp)
                    else:
                        out.append((s2, M.sub_ref(Ip, s2, a[0], ("sl", I(lo), I(hi - lo)))))
            return out
    return M.h_index(Ip, st, a, i)


@creg("core::slice::<impl [T]>::get", "core::slice::<impl [T]>::get_mut", "std::collections::VecDeque::<T, A>::get")
def c_get(Ip, st, a, i):
    base = Ip.deref_val(st, a[0])
    n = vlen(base)
    if i["argty"][1] == "usize" and n.op == "int" and n.a[0] <= 64:
        ix = Ip.typed(a[1], "usize")
        return [(s, NONE if k is None else Some(M.sub_ref(Ip, s, a[0], ("elt", I(k))))) for s, k in int_cases(Ip, st, ix, 0, n.a[0] - 1)]
    if i["argty"][1] != "usize" and n.op == "int":
        rp = M.range_parts(D(Ip, st, a[1]), n)
        if rp:
            out = []
            for s, lo in int_cases(Ip, st, rp[0], 0, n.a[0]):
                for s2, hi in int_cases(Ip, s, rp[1], 0, n.a[0]):
                    ok = lo is not None and hi is not None and lo <= hi
                    out.append((s2, Some(M.sub_ref(Ip, s2, a[0], ("sl", I(lo), I(hi - lo)))) if ok else NONE))
            return out
    return M.H["core::slice::<impl [T]>::get"](Ip, st, a, i)


# MIR-level indexing of arrays/slices (Len + bounds assert + elt projection) with a non-constant index is
# handled by the base class: velt over a constant-length sequence with an abstract index stays an `elt` term.


# -- strings --------------------------------------------------------------------------------------
def strh(f):
    def h(Ip, st, a, i):
        xs = [D(Ip, st, x) for x in a]
        if all(x.op in ("str", "int") for x in xs):
            r = f(*[x.a[0] if x.op == "str" else chr(x.a[0]) for x in xs])
            if isinstance(r, bool):
                return [(st, TRUE if r else FALSE)]
            if isinstance(r, str):
                return [(st, mk("str", r) if i["dest"] == "std::string::String" else mk("vref", mk("str", r)))]
        raise Giveup(f"string operation {i['fn']}")
    return h


for _n, _f in (("starts_with", str.startswith), ("ends_with", str.endswith), ("contains", lambda x, y: y in x), ("to_lowercase", str.lower),
               ("to_uppercase", str.upper), ("to_ascii_lowercase", str.lower), ("to_ascii_uppercase", str.upper), ("trim", str.strip),
               ("eq_ignore_ascii_case", lambda x, y: x.lower() == y.lower())):
    CH["core::str::<impl str>::" + _n] = strh(_f)
    CH["std::str::<impl str>::" + _n] = strh(_f)


@creg("core::str::<impl str>::is_empty", "std::string::String::is_empty")
def _(Ip, st, a, i):
    x = D(Ip, st, a[0])
    e = ssel_eq(x, mk("str", ""))
    if e is None:
        return M.H["std::vec::Vec::<T, A>::is_empty"](Ip, st, a, i)
    return [(st, e)]


@creg("core::str::<impl str>::strip_prefix")
def _(Ip, st, a, i):
    x, y = D(Ip, st, a[0]), D(Ip, st, a[1])
    if x.op == "str" and y.op == "str":
        return [(st, Some(mk("vref", mk("str", x.a[0][len(y.a[0]):]))) if x.a[0].startswith(y.a[0]) else NONE)]
    raise Giveup("strip_prefix")


@creg("std::string::String::push_str")
def _(Ip, st, a, i):
    s = st.copy()
    x, y = D(Ip, st, a[0]), D(Ip, st, a[1])
    M.writeback(Ip, s, a[0], mk("str", x.a[0] + y.a[0]) if x.op == "str" and y.op == "str" else mk("fmt"))
    return [(s, UNIT)]


@creg("std::string::String::push")
def _(Ip, st, a, i):
    s = st.copy()
    x, y = D(Ip, st, a[0]), D(Ip, st, a[1])
    ch = chr(y.a[0]) if y.op == "int" else y.a[0] if y.op in ("char", "str") and isinstance(y.a[0], str) else None
    M.writeback(Ip, s, a[0], mk("str", x.a[0] + ch) if x.op == "str" and ch is not None else mk("fmt"))
    return [(s, UNIT)]


@creg("std::string::String::from_utf8_lossy", "std::string::String::from_utf8", "std::string::String::from_utf8_unchecked")
def _(Ip, st, a, i):
    v = D(Ip, st, a[0])
    lossy = i["fn"].endswith("lossy")
    r = mk("utf8", v)
    try:
        xs = clist(v)
        if all(x.op == "int" for x in xs):
            b = bytes(x.a[0] for x in xs)
            try:
                r = mk("str", b.decode())
            except UnicodeDecodeError:
                if not lossy:
                    return [(st, Err(mk("err")))] if i["fn"].endswith("from_utf8") else [(st, r)]
                r = mk("str", b.decode(errors="replace"))
        elif not lossy:
            raise Giveup("from_utf8 of abstract bytes")
    except Giveup:
        if not lossy:
            raise
    if lossy:
        return [(st, adt("std::borrow::Cow", 0, "Borrowed", (mk("vref", r),)))]
    return [(st, Ok(r) if i["fn"].endswith("from_utf8") else r)]


@creg("std::string::String::from_utf8_lossy_owned")
def _(Ip, st, a, i):
    raise Giveup("from_utf8_lossy_owned")


@creg("std::string::ToString::to_string")
def _(Ip, st, a, i):
    v = D(Ip, st, a[0])
    while v.op == "adt" and v.a[0] in ("std::borrow::Cow",) and len(v.a[3]) == 1:
        v = D(Ip, st, v.a[3][0])
    if v.op in ("str", "ssel", "utf8"):
        return [(st, v)]
    if v.op == "int" and i["argty"][0].replace("&", "") in RANGES:
        return [(st, mk("str", str(v.a[0])))]
    return [(st, mk("tostring", v))]


@creg("std::borrow::Cow::<'_, B>::into_owned")
def _(Ip, st, a, i):
    v = a[0]
    if v.op == "adt" and v.a[2] == "Borrowed":
        return [(st, D(Ip, st, v.a[3][0]))]
    return [(st, v.a[3][0] if v.op == "adt" else mk("owned", v))]


# -- formatting -------------------------------------------------------------------------------------
@creg("core::fmt::rt::Argument::<'_>::new_display")
def _(Ip, st, a, i):
    return [(st, mk("fmtarg", D(Ip, st, a[0])))]


@creg("std::fmt::Arguments::<'a>::new")
def _(Ip, st, a, i):
    return [(st, mk("fmtargs", D(Ip, st, a[0]), D(Ip, st, a[1])))]


@creg("std::fmt::Arguments::<'a>::from_str", "std::fmt::Arguments::<'a>::from_str_nonconst", "std::fmt::Arguments::<'a>::new_const")
def _(Ip, st, a, i):
    return [(st, mk("fmtlit", D(Ip, st, a[0])))]


def fmt_text(v):
    """the formatted text, or None when it is not constant"""
    if v.op == "fmtlit":
        return v.a[0].a[0] if v.a[0].op == "str" else None
    if v.op != "fmtargs" or v.a[0].op != "arr":
        return None
    b = [x.a[0] for x in v.a[0].a[0]]
    args = list(clist(v.a[1]))
    out, p, n = b"", 0, 0
    while p < len(b) and b[p]:
        c = b[p]
        p += 1
        if c < 0x80:
            out += bytes(b[p:p + c])
            p += c
        elif c == 0x80:
            k = b[p] + 256 * b[p + 1]
            out += bytes(b[p + 2:p + 2 + k])
            p += 2 + k
        elif c == 0xc0:
            x = args[n]
            n += 1
            if x.op != "fmtarg" or x.a[0].op not in ("str", "int"):
                return None
            out += str(x.a[0].a[0]).encode()
        else:
            return None
    return out.decode(errors="replace")


@creg("std::fmt::format")
def _(Ip, st, a, i):
    t = fmt_text(a[0])
    return [(st, mk("fmt") if t is None else mk("str", t))]


# -- little-endian bytes ----------------------------------------------------------------------------
BW = {"u8": 1, "i8": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "u64": 8, "i64": 8, "usize": 8, "isize": 8, "u128": 16, "i128": 16, "f32": 4, "f64": 8}


def frombytes(ty, order, v):
    n = BW[ty]
    xs = clist(v)
    if len(xs) != n:
        raise Giveup("from_bytes length")
    if order != "le":
        xs = xs[::-1] if order == "be" else xs
    if ty in RANGES and all(x.op == "int" for x in xs):
        return I(int.from_bytes(bytes(x.a[0] for x in xs), "little", signed=ty[0] == "i"))
    t = mk("frombytes", ty, mk("arr", tuple(xs)))
    if ty in RANGES:
        TYOF[t] = ty
    else:
        FSYM.add(t)
    return t


for _ty in BW:
    for _o in ("le", "be", "ne"):
        def _h(Ip, st, a, i, ty=_ty, o=_o):
            return [(st, frombytes(ty, "le" if o == "ne" else o, D(Ip, st, a[0])))]
        for _p in ("core", "std"):
            if _ty in RANGES:
                CH[f"{_p}::num::<impl {_ty}>::from_{_o}_bytes"] = _h
            else:
                CH[f"{_p}::{_ty}::<impl {_ty}>::from_{_o}_bytes"] = _h


# -- options / results ----------------------------------------------------------------------------
def oreg(*names):
    return creg(*[f"std::option::Option::<{t}>::{n}" for n in names for t in ("T", "&T", "&mut T")])


@oreg("xor")
def _(Ip, st, a, i):
    out = []
    for s, vi, p in M.osplit(Ip, st, a[0]):
        for s2, v2, p2 in M.osplit(Ip, s, a[1]):
            out.append((s2, Some(p) if vi and not v2 else Some(p2) if v2 and not vi else NONE))
    return out


@oreg("and")
def _(Ip, st, a, i):
    return [(s, a[1] if vi else NONE) for s, vi, p in M.osplit(Ip, st, a[0])]


@oreg("get_or_insert_with")
def _(Ip, st, a, i):
    raise Giveup("get_or_insert_with")


@oreg("insert", "replace")
def _(Ip, st, a, i):
    s = st.copy()
    old = D1(Ip, st, a[0])
    M.writeback(Ip, s, a[0], Some(a[1]))
    if i["fn"].endswith("replace"):
        return [(s, old)]
    return [(s, mk("ref", a[0].a[0], a[0].a[1] + (("d", 1, "Some"), ("f", 0, None))))]


@oreg("as_ref", "as_deref")
def _(Ip, st, a, i):
    r = a[0]
    out = []
    for s, vi, p in M.osplit(Ip, st, D1(Ip, st, r)):
        if not vi:
            out.append((s, NONE))
        elif r.op == "ref":
            out.append((s, Some(mk("ref", r.a[0], r.a[1] + (("d", 1, "Some"), ("f", 0, None))))))
        else:
            out.append((s, Some(mk("vref", p))))
    return out


@creg("std::option::Option::<std::option::Option<T>>::flatten")
def _(Ip, st, a, i):
    return [(s, p if vi else NONE) for s, vi, p in M.osplit(Ip, st, a[0])]


@creg("std::option::Option::<std::result::Result<T, E>>::transpose")
def _(Ip, st, a, i):
    out = []
    for s, vi, p in M.osplit(Ip, st, a[0]):
        if not vi:
            out.append((s, Ok(NONE)))
            continue
        out += [(s2, Ok(Some(q)) if v2 == 0 else Err(q)) for s2, v2, q in M.rsplit(Ip, s, p)]
    return out


@creg("core::bool::<impl bool>::then")
def _(Ip, st, a, i):
    out = []
    for s, val in cases(st, a[0]):
        if val:
            out += [(s2, Some(v)) for s2, v in M.call(Ip, s, a[1], [], i)]
        else:
            out.append((s, NONE))
    return out


@creg("core::bool::<impl bool>::then_some")
def _(Ip, st, a, i):
    return [(s, Some(a[1]) if val else NONE) for s, val in cases(st, a[0])]


@creg("std::mem::swap")
def _(Ip, st, a, i):
    s = st.copy()
    x, y = D1(Ip, s, a[0]), D1(Ip, s, a[1])
    M.writeback(Ip, s, a[0], y)
    M.writeback(Ip, s, a[1], x)
    return [(s, UNIT)]


@creg("std::cmp::Reverse")
def _(Ip, st, a, i):
    return [(st, adt("std::cmp::Reverse", 0, "Reverse", (a[0],)))]
