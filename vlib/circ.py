"""Circuits as constraint systems.

A circuit builder is a cell holding the list of constraints emitted so far; a circuit variable is a polynomial (fieldalg) in
the circuit's inputs, in the values of hints (supplied by the prover, so constrained by nothing but the emitted constraints)
and in random challenges.  The list a gadget or a layer emits is normalised by lemmas that say which hints the constraints
determine (Euclidean division, selection by sign, maximum of a list, bits, Freivalds, table rows); what is left are the outputs
as functions of the inputs and the ranges the inputs are confined to.  These are compared with the specification.  A
disagreement counts only with a witness: inputs for which the honest hints violate a constraint or give a wrong output, or
hint values that satisfy every constraint and give a wrong output."""
import re, random, itertools
from terms import *
import fieldalg as FA
from fieldalg import fe, fadd, fsub, fmul, fneg, poly, pack, const_of
import conc
import models as M
from conc import CInterp, Giveup, clist, mkseq, D, D1
from gint import *
from absint import State

CP = "jstprove_circuits::circuit_functions::"
PRIME = 21888242871839275222246405745257275088548364400416034343698204186575808495617
BA = "expander_compiler::frontend::api::BasicAPI::"
UA = "expander_compiler::frontend::api::UnconstrainedAPI::"
CM = {}
VARIABLE = "expander_compiler::frontend::builder::Variable"


def c(*names):
    def d(f):
        for n in names:
            CM[n] = f
        return f
    return d


def signed(n):
    n %= PRIME
    return n - PRIME if n > PRIME // 2 else n


def F(Ip, st, a):
    v = V(Ip, st, a)
    k = const_of(v)
    return fe(signed(int(k))) if k is not None and k.denominator == 1 else v


def fact(Ip, st, api, *t):
    x = cell(Ip, st, api)
    if x is None:
        raise Giveup("builder is not known")
    v = Ip.read_loc(st, x.a[0], x.a[1])
    if v.op != "api":
        raise Giveup("builder is " + show(v)[:60])
    return update(Ip, st, x, mk("api", v.a[0] + (mk(*t),), v.a[1]))


def fresh(Ip, st, api, kind, args, n):
    """n new hint values"""
    x = cell(Ip, st, api)
    v = Ip.read_loc(st, x.a[0], x.a[1])
    k = v.a[1]
    hs = tuple(mk("hint", k + j, kind) for j in range(n))
    s = update(Ip, st, x, mk("api", v.a[0] + (mk("hints", hs, kind, tuple(args)),), k + n))
    return s, [fe(h) for h in hs]


for _n, _f in (("add", fadd), ("sub", lambda x, y: fsub(x, y)), ("mul", fmul)):
    def _h(Ip, st, a, i, f=_f):
        return [(st, f(F(Ip, st, a[1]), F(Ip, st, a[2])))]
    CM[BA + _n] = _h
CM[BA + "neg"] = lambda Ip, st, a, i: [(st, fneg(F(Ip, st, a[1])))]
CM[BA + "constant"] = lambda Ip, st, a, i: [(st, F(Ip, st, a[1]))]
CM[BA + "assert_is_zero"] = lambda Ip, st, a, i: [(fact(Ip, st, a[0], "zero", F(Ip, st, a[1])), UNIT)]
CM[BA + "assert_is_non_zero"] = lambda Ip, st, a, i: [(fact(Ip, st, a[0], "nonzero", F(Ip, st, a[1])), UNIT)]
CM[BA + "assert_is_bool"] = lambda Ip, st, a, i: [(fact(Ip, st, a[0], "bool", F(Ip, st, a[1])), UNIT)]
CM[BA + "assert_is_equal"] = lambda Ip, st, a, i: [(fact(Ip, st, a[0], "zero", fsub(F(Ip, st, a[1]), F(Ip, st, a[2]))), UNIT)]
CM[BA + "display"] = lambda Ip, st, a, i: [(st, UNIT)]


@c(BA + "get_random_value")
def _(Ip, st, a, i):
    s, vs = fresh(Ip, st, a[0], "random", (), 1)
    return [(s, vs[0])]


@c(BA + "is_zero")
def _(Ip, st, a, i):
    x = F(Ip, st, a[1])
    k = const_of(x)
    return [(st, fe(int(k == 0)) if k is not None else iszero(x))]


@c(BA + "gt")
def _(Ip, st, a, i):
    """the builder compares the field elements, as unsigned numbers"""
    x, y = F(Ip, st, a[1]), F(Ip, st, a[2])
    return [(st, fe(ugt(x, y)))]


@c(BA + "new_hint")
def _(Ip, st, a, i):
    k = D(Ip, st, a[1], 8)
    n = D(Ip, st, a[3])
    if k.op != "str" or n.op != "int":
        raise Giveup("hint of unknown name or size")
    xs = [F(Ip, st, x) for x in clist(D1(Ip, st, a[2]))]
    s, vs = fresh(Ip, st, a[0], k.a[0], xs, n.a[0])
    return [(s, mkseq(vs))]


for _n in ("identity", "add", "mul", "div", "pow", "int_div", "mod", "shift_l", "shift_r", "lesser_eq", "greater_eq", "lesser", "greater", "eq", "not_eq", "bool_or", "bool_and",
           "bit_or", "bit_and", "bit_xor"):
    def _h(Ip, st, a, i, n=_n):
        xs = [F(Ip, st, x) for x in a[1:3]]
        s, vs = fresh(Ip, st, a[0], "u." + n, xs, 1)
        return [(s, vs[0])]
    CM[UA + "unconstrained_" + _n] = _h


# ------------------------------------------------------------------------------------------------ 256-bit integers
def U(Ip, st, a):
    v = D(Ip, st, a, 8) if a.op in ("ref", "vref") else a
    if v.op == "fe":
        k = const_of(v)
        if k is not None:
            return I(int(k) % PRIME)
    return v


def u256(f):
    def h(Ip, st, a, i):
        x, y = U(Ip, st, a[0]), U(Ip, st, a[1])
        if x.op == "int" and y.op == "int":
            return [(st, I(f(x.a[0], y.a[0])))]
        return [(st, uop(i["rfn"], x, y))]
    return h


def uop(n, x, y):
    """an operation on integers that are not known: the value of a field element below the modulus"""
    if y.op == "int" and re.search("::(div|rem|shr)(_assign)?$", n) and y.a[0] > 0:
        m = 1 << y.a[0] if "shr" in n else y.a[0]
        p = fe(x)
        return fdiv(p, m) if "rem" not in n else fmod(p, m)
    raise Giveup("integer operation " + n)


TYS = ("", "<u128>", "<u64>", "<u32>", "<usize>", "<i32>", "<&'a ethnum::U256>", "<ethnum::U256>")
for _n, _k, _f in (("Add", "arith", lambda x, y: x + y), ("Sub", "arith", lambda x, y: x - y), ("Mul", "arith", lambda x, y: x * y), ("Div", "arith", lambda x, y: x // y),
                   ("Rem", "arith", lambda x, y: x % y), ("Shl", "bit", lambda x, y: x << y), ("Shr", "bit", lambda x, y: x >> y), ("BitAnd", "bit", lambda x, y: x & y),
                   ("BitOr", "bit", lambda x, y: x | y)):
    for _t in TYS:
        CM[f"<ethnum::U256 as core::ops::{_k}::{_n}{_t}>::{_n.lower()}"] = u256(_f)

        def _a(Ip, st, a, i, f=u256(_f)):
            x = cell(Ip, st, a[0])
            return [(update(Ip, st, x, v), UNIT) for st, v in f(Ip, st, a, i)]
        CM[f"<ethnum::U256 as core::ops::{_k}::{_n}Assign{_t}>::{_n.lower()}_assign"] = _a
for _t in ("bool", "u8", "u16", "u32", "u64", "u128"):
    CM[f"<ethnum::U256 as core::convert::From<{_t}>>::from"] = lambda Ip, st, a, i: [(st, D(Ip, st, a[0]))]
def _pow(Ip, st, a, i):
    x, y = U(Ip, st, a[0]), D(Ip, st, a[1])
    if x.op == "int" and y.op == "int":
        return [(st, I(x.a[0] ** y.a[0]))]
    raise Giveup("power of an unknown integer")


CM["ethnum::U256::pow"] = _pow
CM["ethnum::U256::into_words"] = lambda Ip, st, a, i: [(st, mk("tuple", (I(_int(U(Ip, st, a[0])) >> 128), I(_int(U(Ip, st, a[0])) & (1 << 128) - 1))))]


def _int(x):
    if x.op != "int":
        raise Giveup("words of an unknown integer")
    return x.a[0]


CM["ethnum::U256::new"] = lambda Ip, st, a, i: [(st, D(Ip, st, a[0]))]
for _w in (8, 32, 64, 128):
    def _as(Ip, st, a, i, w=_w):
        x = U(Ip, st, a[0])
        if x.op == "int":
            return [(st, I(x.a[0] & ((1 << w) - 1)))]
        if upper(x) is not None and upper(x) <= 1 << w:
            return [(st, x)]
        raise Giveup("narrowing of an unknown integer")
    CM[f"ethnum::U256::as_u{_w}"] = _as
CM["ethnum::U256::as_usize"] = CM["ethnum::U256::as_u64"]
CM["arith::field::Field::to_u256"] = lambda Ip, st, a, i: [(st, U(Ip, st, V(Ip, st, a[0])))]
CM["arith::field::Field::from_u256"] = lambda Ip, st, a, i: [(st, F(Ip, st, a[0]))]


def upper(x):
    """exclusive bound of an integer term"""
    x = fe(x)
    p = poly(x)
    if len(p) == 1:
        (m, k), = p.items()
        if k == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].op == "fmod":
            return m[0][0].a[1]
    return None


def _default(Ip, st, a, i):
    d = i["dest"] or ""
    if VARIABLE in (d, (i["ga"] or [""])[0]):
        return [(st, fe(mk("sym", "no variable", "in")))]
    return GH["std::default::Default::default"](Ip, st, a, i)


CM["std::default::Default::default"] = _default


def _from(Ip, st, a, i):
    if "ethnum::U256" in (i.get("dest") or ""):
        v = D(Ip, st, a[0])
        if v.op == "int":
            return [(st, v)]
    return GH["std::convert::From::from"](Ip, st, a, i)


CM["std::convert::From::from"] = CM["std::convert::Into::into"] = _from
CM[f"<{VARIABLE} as core::default::Default>::default"] = lambda Ip, st, a, i: [(st, fe(mk("sym", "no variable", "in")))]
for _n, _f in (("lt", lambda x, y: x < y), ("le", lambda x, y: x <= y), ("gt", lambda x, y: x > y), ("ge", lambda x, y: x >= y), ("eq", lambda x, y: x == y), ("ne", lambda x, y: x != y)):
    def _h(Ip, st, a, i, n=("std::cmp::PartialEq::" if _n in ("eq", "ne") else "std::cmp::PartialOrd::") + _n, f=_f):
        if (i["ga"] or [""])[0].endswith("ethnum::U256"):
            x, y = U(Ip, st, a[0]), U(Ip, st, a[1])
            if x.op == "int" and y.op == "int":
                return [(st, I(int(f(x.a[0], y.a[0]))))]
            raise Giveup("comparison of unknown integers")
        return (GH.get(n) or conc.CH.get(n) or M.lookup(n, n))(Ip, st, a, i)
    CM[("std::cmp::PartialEq::" if _n in ("eq", "ne") else "std::cmp::PartialOrd::") + _n] = _h
KN = {"arith::field::Field::MODULUS": I(PRIME), "ethnum::U256::ONE": I(1), "ethnum::U256::ZERO": I(0)}


# ------------------------------------------------------------------------------------------------ semantic atoms
def fdiv(p, m):
    """floor(p / m) of the signed value of p"""
    p = fe(p)
    k = const_of(p)
    if k is not None:
        return fe(signed(int(k)) // m)
    if m == 1:
        return p
    return fe(mk("fdiv", p, m))


def fmod(p, m):
    p = fe(p)
    k = const_of(p)
    if k is not None:
        return fe(signed(int(k)) % m)
    if m == 1:
        return fe(0)
    return fe(mk("fmod", p, m))


def iszero(p):
    """1 when p = 0"""
    lead = lead_coef(p)
    return fe(mk("iszero", fmul(p, fe(1 / lead))))


def iszero0(p):
    k = const_of(p)
    return fe(int(k == 0)) if k is not None else iszero(p)


def ugt(x, y):
    return mk("ugt", fe(x), fe(y))


def lead_coef(p):
    d = poly(p)
    m = sorted(d, key=lambda m: [(a.id, e) for a, e in m])[-1]
    return d[m]


def pos(d):
    """max(d, 0) of a signed value"""
    k = const_of(d)
    if k is not None:
        return fe(max(k, 0))
    if lead_coef(d) < 0:
        return fadd(pos(fneg(d)), d)
    return fe(mk("pos", d))


def maxof(xs):
    """largest of signed values"""
    xs = sorted(set(map(fe, xs)), key=lambda x: x.id)
    if len(xs) == 1:
        return xs[0]
    ks = [const_of(x) for x in xs]
    if all(k is not None for k in ks):
        return fe(max(ks))
    if len(xs) == 2:
        return fadd(xs[0], pos(fsub(xs[1], xs[0])))
    base = min(poly(x).get((), 0) for x in xs)
    return fadd(fe(mk("maxof", tuple(sorted((fsub(x, fe(base)) for x in xs), key=lambda x: x.id)))), fe(base))


def minof(xs):
    return fneg(maxof([fneg(fe(x)) for x in xs]))


def digit(p, at, w):
    """bits at .. at + w of a value"""
    return fe(mk("bit", fe(p), at, w))


def tab(name, p):
    return fe(mk("tab", name, fe(p)))


# ------------------------------------------------------------------------------------------------ values
def ev(t, val):
    """field value of a polynomial; val: atom -> int"""
    r = 0
    for m, k in poly(t).items():
        x = k.numerator * pow(k.denominator, PRIME - 2, PRIME) if k.denominator != 1 else k.numerator
        for a, e in m:
            x = x * pow(ev_atom(a, val), e, PRIME) % PRIME
        r += x
    return r % PRIME


def ev_atom(a, val):
    if a in val:
        return val[a] % PRIME
    if a.op == "fdiv":
        return signed(ev(a.a[0], val)) // a.a[1] % PRIME
    if a.op == "fmod":
        return signed(ev(a.a[0], val)) % a.a[1]
    if a.op == "pos":
        return max(signed(ev(a.a[0], val)), 0)
    if a.op == "ugt":
        return int(ev(a.a[0], val) > ev(a.a[1], val))
    if a.op == "iszero":
        return int(ev(a.a[0], val) == 0)
    if a.op == "maxof":
        return max(signed(ev(x, val)) for x in a.a[0]) % PRIME
    if a.op == "tab" and a.a[0] in ROWS:
        k = ev(a.a[1], val)
        if k not in ROWS[a.a[0]]:
            raise Uneval("no such row")
        return ROWS[a.a[0]][k]
    if a.op == "bit":
        return ev(a.a[0], val) >> a.a[1] & (1 << a.a[2]) - 1
    raise Uneval(show(a)[:60])


class Uneval(Exception):
    pass


TABLES = {}
HINTS = {
    "u.int_div": lambda x, y: [x // y if y else 0], "u.mod": lambda x, y: [x % y if y else 0], "u.greater_eq": lambda x, y: [int(x >= y)], "u.lesser_eq": lambda x, y: [int(x <= y)],
    "u.greater": lambda x, y: [int(x > y)], "u.lesser": lambda x, y: [int(x < y)], "u.eq": lambda x, y: [int(x == y)], "u.not_eq": lambda x, y: [int(x != y)],
    "u.shift_r": lambda x, y: [x >> y], "u.bit_and": lambda x, y: [x & y], "u.mul": lambda x, y: [x * y], "u.add": lambda x, y: [x + y], "u.identity": lambda x: [x],
    "u.shift_l": lambda x, y: [x << y], "u.bit_xor": lambda x, y: [x ^ y], "u.bit_or": lambda x, y: [x | y], "u.bool_and": lambda x, y: [int(bool(x and y))], "u.bool_or": lambda x, y: [int(bool(x or y))],
    "u.div": lambda x, y: [x * pow(y, PRIME - 2, PRIME)],
}


def honest(facts, val, rnd):
    """hint values as the honest prover computes them, added to val; False when a hint has no known meaning"""
    for f in facts:
        if f.op != "hints":
            continue
        hs, kind, args = f.a
        if kind == "random":
            val[hs[0]] = rnd.randrange(PRIME)
            continue
        h = HINTS.get(kind)
        if h is None:
            raise Uneval("hint " + kind)
        xs = [ev(x, val) for x in args]
        r = h(*xs) if kind.startswith("u.") else h(xs, len(hs))
        for a, v in zip(hs, r):
            val[a] = v % PRIME
    return val


def violated(facts, val):
    """a constraint that does not hold"""
    for f in facts:
        if f.op == "zero":
            if ev(f.a[0], val):
                return f
        elif f.op == "nonzero":
            if not ev(f.a[0], val):
                return f
        elif f.op == "bool":
            if ev(f.a[0], val) > 1:
                return f
        elif f.op == "range":
            if ev(f.a[0], val) >= 1 << f.a[1]:
                return f
        elif f.op == "row":
            if not inrow(f, val):
                return f
        elif f.op != "hints":
            raise Uneval("constraint " + f.op)
    return None


def inrow(f, val):
    name, k, v = f.a
    t = ROWS[name]
    return t.get(ev(k, val)) == ev(v, val)


ROWS = {}


# ------------------------------------------------------------------------------------------------ lemmas
def subst(t, m):
    """polynomial with atoms replaced (also inside semantic atoms)"""
    p = poly(t)
    hit = False
    r = fe(0)
    keep = {}
    for mo, k in p.items():
        todo = [(a, e, m[a] if a in m else inside(a, m)) for a, e in mo]
        if all(x is None for _, _, x in todo):
            keep[mo] = keep.get(mo, 0) + k
            continue
        hit = True
        u = fe(k)
        for a, e, x in todo:
            u = fmul(u, FA.fpow(x if x is not None else fe(a), e))
        r = fadd(r, u)
    return fadd(r, pack(keep)) if hit else t


def inside(a, m):
    return through(a, lambda t: subst(t, m))


def through(a, f):
    """semantic atom with its arguments mapped; None when nothing changes"""
    if a.op == "ugt":
        x, y = f(a.a[0]), f(a.a[1])
        return None if x is a.a[0] and y is a.a[1] else fe(ugt(x, y))
    if a.op == "maxof":
        xs = [f(x) for x in a.a[0]]
        return None if all(x is y for x, y in zip(xs, a.a[0])) else maxof(xs)
    if a.op == "tab":
        x = f(a.a[1])
        return None if x is a.a[1] else tab(a.a[0], x)
    if a.op in ("fdiv", "fmod", "pos", "iszero", "bit"):
        x = f(a.a[0])
        if x is a.a[0]:
            return None
        return {"fdiv": fdiv, "fmod": fmod, "pos": pos, "iszero": iszero0, "bit": digit}[a.op](x, *a.a[1:])
    return None


def hints_in(t):
    out = set()

    def go(a):
        if a.op == "hint":
            out.add(a)
        elif a.op in ("fdiv", "fmod", "pos", "iszero", "bit"):
            for b in FA.atoms(a.a[0]):
                go(b)
        elif a.op == "ugt":
            for x in a.a:
                for b in FA.atoms(x):
                    go(b)
        elif a.op == "maxof":
            for x in a.a[0]:
                for b in FA.atoms(x):
                    go(b)
        elif a.op == "tab":
            for b in FA.atoms(a.a[1]):
                go(b)
    for a in FA.atoms(t):
        go(a)
    return out


def linear(t, h):
    """(coefficient, rest) of the polynomial as coefficient * h + rest, coefficient a number; None if it is not of that form"""
    k = None
    rest = {}
    for m, cf in poly(t).items():
        if m == ((h, 1),):
            k = cf
        elif any(a is h for a, _ in m):
            return None
        else:
            rest[m] = cf
    return None if k is None else (k, pack(rest))


def coef_of(t, h):
    """(polynomial coefficient, rest) for a polynomial of degree at most one in h"""
    a, b = {}, {}
    for m, cf in poly(t).items():
        e = dict(m).get(h, 0)
        if e > 1:
            return None
        if e:
            m2 = tuple(x for x in m if x[0] is not h)
            a[m2] = a.get(m2, 0) + cf
        else:
            b[m] = cf
    return pack(a), pack(b)


def degree(t, h):
    return max([dict(m).get(h, 0) for m in poly(t)] or [0])


def quotient(p, d):
    """polynomial q with p = q * d, or None"""
    key = lambda m: (sum(e for _, e in m), [(a.id, e) for a, e in m])
    pd = poly(d)
    lm = max(pd, key=key)
    q = fe(0)
    for _ in range(60):
        pp = poly(p)
        if not pp:
            return q
        # a term that the leading term of d divides
        for m in sorted(pp, key=key, reverse=True):
            e = dict(m)
            if all(e.get(a, 0) >= n for a, n in lm):
                t = {tuple((a, n - dict(lm).get(a, 0)) for a, n in m if n > dict(lm).get(a, 0)): pp[m] / pd[lm]}
                break
        else:
            return None
        q = fadd(q, pack(t))
        p = fsub(p, fmul(pack(t), d))
    return None


def divide(p, d):
    """number k with p = k * d, or None"""
    pp, pd = poly(p), poly(d)
    if not pp:
        return 0
    if set(pp) != set(pd):
        return None
    k = next(iter(pp.values())) / pd[next(iter(pp))]
    return k if all(pp[m] == k * pd[m] for m in pp) else None


def swap(t, h, d):
    """t with the multiples of h d, h the sign of d, put as multiples of max(d, 0), also inside semantic atoms; None if h remains"""
    bad = []

    def deep(x):
        y = swap(x, h, d) if h in hints_in(x) else x
        if y is None:
            bad.append(x)
            return x
        return y
    m = {}
    for a in FA.atoms(t):
        if a is not h and h in hints_in(fe(a)):
            n = through(a, deep)
            if n is None or bad:
                return None
            m[a] = n
    if m:
        t = subst(t, m)
    co = coef_of(t, h)
    if co is None or h in hints_in(co[0]) or h in hints_in(co[1]):
        return None
    if not poly(co[0]):
        return co[1]
    k = quotient(co[0], d)
    return None if k is None else fadd(co[1], fmul(k, pos(d)))


def bound(t):
    """(lo, hi) of a polynomial of semantic atoms, or None"""
    lo = hi = 0
    for m, k in poly(t).items():
        l, h = 1, 1
        for a, e in m:
            if a.op == "fmod":
                x, y = 0, a.a[1] - 1
            elif a.op == "iszero":
                x, y = 0, 1
            elif a.op == "bit":
                x, y = 0, (1 << a.a[2]) - 1
            elif a.op == "tab":
                v = [signed(v) for v in ROWS[a.a[0]].values()]
                x, y = min(v), max(v)
            elif a.op == "fdiv":
                b = bound(a.a[0])
                if b is None:
                    return None
                x, y = b[0] // a.a[1], b[1] // a.a[1]
            else:
                return None
            for _ in range(e):
                c = (l * x, l * y, h * x, h * y)
                l, h = min(c), max(c)
        lo, hi = lo + min(k * l, k * h), hi + max(k * l, k * h)
    return lo, hi


class Solved:
    def __init__(self):
        self.sub = {}
        self.facts = []      # constraints left on inputs
        self.residual = []   # constraints with hints nothing determines


def coefficients(fs, rnds):
    """an equation in values drawn after the witness is fixed: every coefficient is zero; None when there is none"""
    out, did = [], False
    for f in fs:
        if f.op == "zero" and FA.atoms(f.a[0]) & rnds:
            parts = {}
            for m, k in poly(f.a[0]).items():
                r = tuple(x for x in m if x[0] in rnds)
                b = tuple(x for x in m if x[0] not in rnds)
                parts.setdefault(r, {})[b] = k
            out += [mk("zero", pack(p)) for p in parts.values()]
            did = True
        else:
            out.append(f)
    return out if did else None


def solve(facts, outs):
    """normal form of a constraint system: (outputs, [constraints on the inputs], [what is not understood])"""
    rnds = {h for f in facts if f.op == "hints" and f.a[1] == "random" for h in f.a[0]}
    allh = {h for f in facts if f.op == "hints" for h in f.a[0]} - rnds
    fs = []
    for f in facts:
        if f.op == "hints":
            continue
        fs.append(f)
    changed = True
    sem = []                 # ranges implied by a lemma: ("in", poly, exclusive bound)
    outs = list(outs)
    for f in list(fs):
        # a row of a table with consecutive keys: the key is confined
        if f.op == "row":
            ks = sorted(signed(k) for k in ROWS[f.a[0]])
            n = len(ks)
            if ks != list(range(ks[0], ks[0] + n)) or n & (n - 1):
                continue
            fs.append(mk("range", fsub(f.a[1], fe(ks[0])), n.bit_length() - 1) if n > 1 else mk("zero", fsub(f.a[1], fe(ks[0]))))

    def apply(m):
        nonlocal fs, outs, sem
        fs = [mk(f.op, *(subst(x, m) if isinstance(x, T) and x.op == "fe" else x for x in f.a)) for f in fs]
        outs = [subst(o, m) for o in outs]
        sem = [(k, subst(p, m), b) for k, p, b in sem]

    def split_random():
        nonlocal fs
        out = coefficients(fs, rnds)
        did = out is not None
        if did:
            fs = out
        return did

    def tidy():
        nonlocal fs
        seen = []
        for f in fs:
            if f in seen or f.op == "zero" and not poly(f.a[0]):
                continue
            k = const_of(f.a[0]) if f.op in ("range", "bool") else None
            if f.op == "range" and k is not None and 0 <= k < 1 << f.a[1] or f.op == "bool" and k in (0, 1):
                continue
            if f.op == "range" and k is None:
                b = bound(f.a[0])
                if b and b[0] >= 0 and b[1] < 1 << f.a[1]:
                    continue
            if f.op == "bool" and bound(f.a[0]) == (0, 1) and len(poly(f.a[0])) == 1:
                continue
            seen.append(f)
        fs = seen

    def euclid():
        rng = {}
        for f in fs:
            if f.op == "range":
                rng.setdefault(f.a[0], []).append(f)
        for z in fs:
            if z.op != "zero":
                continue
            hs = sorted(hints_in(z.a[0]), key=lambda h: h.a[0])
            for r in hs:
                lr = linear(z.a[0], r)
                if lr is None or abs(lr[0]) != 1:
                    continue
                zz = z.a[0] if lr[0] == 1 else fneg(z.a[0])
                rr = rng.get(fe(r))
                if not rr:
                    continue
                for q in hs:
                    if q is r:
                        continue
                    lq = linear(zz, q)
                    if lq is None or lq[0].denominator != 1 or lq[0] < 2:
                        continue
                    m = int(lq[0])
                    P = fneg(fsub(fsub(zz, fe(r)), fmul(fe(m), fe(q))))
                    if hints_in(P) & {q, r}:
                        continue
                    exact = [f for f in rr if 1 << f.a[1] == m]
                    used = exact[:1]
                    if not used:
                        other = rng.get(fsub(fe(m - 1), fe(r)))
                        if other and (1 << rr[0].a[1]) + (1 << other[0].a[1]) < PRIME:
                            used = [rr[0], other[0]]
                    if not used:
                        continue
                    # the quotient's range makes the division unique
                    qs = [f for f in fs if f.op == "range" and linear(f.a[0], q) and abs(linear(f.a[0], q)[0]) == 1]
                    plain = next(((f, f.a[0]) for f in qs if confined(f, q) is not None), None)
                    if plain:
                        n, off = plain[0].a[1], fe(confined(plain[0], q))
                        if m << n > PRIME // 2:
                            continue
                        P = fadd(P, fmul(fe(m), off))
                        return z, used + [plain[0]], {q: fsub(fdiv(P, m), off), r: fmod(P, m)}, [("in", P, m << n)]
                    # a quotient confined some other way: within a signed interval by a selection
                    for f in fs:
                        l = linear(f.a[0], q) if f.op == "abs" else None
                        if l and abs(l[0]) == 1:
                            ko = const_of(l[1])
                            if ko is None or ko.denominator != 1:
                                continue
                            off = int(ko) * int(l[0])
                            lo, hi = -(1 << f.a[1]) + 1 - off, (1 << f.a[1]) - 1 - off
                            if 2 * m * max(abs(hi) + 1, abs(lo) + 1) > PRIME:
                                continue
                            return z, used, {q: fdiv(P, m), r: fmod(P, m)}, []
        return None

    def confined(f, q):
        """constant c of the range of q + c, None when the range is another one"""
        l = linear(f.a[0], q)
        if l is None or l[0] != 1:
            return None
        c = const_of(l[1])
        return int(c) if c is not None and c.denominator == 1 else None

    def rounded():
        """P - m q in [0, m) and q + c in [0, 2^n): the quotient is that of P + m c, less c"""
        rng = {}
        for f in fs:
            if f.op == "range":
                rng.setdefault(f.a[0], []).append(f)
        for f in fs:
            if f.op != "range":
                continue
            for q in sorted(hints_in(f.a[0]), key=lambda h: h.a[0]):
                l = linear(f.a[0], q)
                if l is None or l[0].denominator != 1 or l[0] >= 0 or q in hints_in(l[1]):
                    continue
                m, P = -int(l[0]), l[1]
                other = [g for g in rng.get(fsub(fe(m - 1), f.a[0]), ()) if m <= 1 << g.a[1] < PRIME // 2]
                if m > 1 << f.a[1] or 1 << f.a[1] > PRIME // 2 or 1 << f.a[1] != m and not other:
                    continue
                used = [f] + other
                qs = [g for g in fs if g.op == "range" and g is not f and confined(g, q) is not None]
                if not qs or m << qs[0].a[1] > PRIME // 2:
                    continue
                off = fe(confined(qs[0], q))
                P = fadd(P, fmul(fe(m), off))
                return used + qs[:1], {q: fsub(fdiv(P, m), off)}, [("in", P, m << qs[0].a[1])]
        return None

    def selection():
        """b boolean, (2 b - 1) d in [0, 2^n): b d = max(d, 0), |d| < 2^n"""
        bools = [f for f in fs if f.op == "bool"]
        for b in bools:
            p = poly(b.a[0])
            if len(p) != 1:
                continue
            (m, k), = p.items()
            if k != 1 or len(m) != 1 or m[0][1] != 1 or m[0][0].op != "hint":
                continue
            h = m[0][0]
            for r in fs:
                if r.op != "range":
                    continue
                co = coef_of(r.a[0], h)
                if co is None or not poly(co[0]):
                    continue
                A, B = co
                # A b + B with A = 2 d, B = -d (selects |d|) or A = -2 d, B = d
                d = fneg(B)
                if not poly(d) or h in hints_in(d) or divide(A, d) != 2:
                    continue
                # every other occurrence of b is in a multiple of d
                ok = True
                res = {}
                for src, x in [("f", f) for f in fs if f is not b and f is not r] + [("o", o) for o in outs]:
                    for t in ([y for y in x.a if isinstance(y, T) and y.op == "fe"] if src == "f" else [x]):
                        if h not in hints_in(t):
                            continue
                        new = swap(t, h, d)
                        if new is None:
                            ok = False
                            break
                        res[t] = new
                    if not ok:
                        break
                sm = []
                for k3, p3, b3 in sem:
                    if h in hints_in(p3):
                        p3 = swap(p3, h, d)
                    if p3 is None:
                        ok = False
                        break
                    sm.append((k3, p3, b3))
                if ok:
                    return b, r, d, res, sm
        return None

    def largest():
        """prod (M - x_i) = 0 and M - x_i in [0, 2^n): M is the largest x_i"""
        for z in fs:
            if z.op != "zero":
                continue
            for h in sorted(hints_in(z.a[0]), key=lambda h: h.a[0]):
                for sign in (1, -1):
                    ds = []
                    for f in fs:
                        if f.op == "range":
                            l = linear(f.a[0], h)
                            if l and l[0] == sign and not hints_in(l[1]) & {h}:
                                ds.append((f, l[1]))
                    if len(ds) < 1:
                        continue
                    if not any(divide(z.a[0], FA.prod([f.a[0] for (f, _), e in zip(ds, es) for _ in range(e)])) not in (None, 0)
                               for es in itertools.product((1, 2), repeat=len(ds)) if sum(es) == degree(z.a[0], h)):
                        continue
                    v = maxof([fneg(e) for _, e in ds]) if sign == 1 else minof([e for _, e in ds])
                    return z, [f for f, _ in ds], {h: v}
        return None

    def rows():
        for f in fs:
            if f.op == "row":
                p = poly(f.a[2])
                ks = sorted(signed(k) for k in ROWS[f.a[0]])
                if ks != list(range(ks[0], ks[0] + len(ks))) or len(ks) & (len(ks) - 1):
                    continue
                if len(p) == 1:
                    (m, k), = p.items()
                    if k == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].op == "hint" and m[0][0] not in hints_in(f.a[1]):
                        return f, {m[0][0]: tab(f.a[0], f.a[1])}
        return None

    def twofold():
        """k and k + c both in [0, 2^b): k in [0, 2^b - c)"""
        rs = [f for f in fs if f.op == "range"]
        for x in rs:
            for y in rs:
                if x is y or x.a[1] != y.a[1]:
                    continue
                c = const_of(fsub(y.a[0], x.a[0]))
                if c is None or c.denominator != 1 or not 0 < c < 1 << x.a[1]:
                    continue
                left = (1 << x.a[1]) - int(c)
                if left & (left - 1) == 0:
                    return x, y, mk("range", x.a[0], left.bit_length() - 1)
        return None

    def pinned():
        """e and -e both in a range: e is zero"""
        rng = {f.a[0]: f for f in fs if f.op == "range"}
        for e, f in rng.items():
            g = rng.get(fneg(e))
            if g is not None and g is not f and (1 << f.a[1]) + (1 << g.a[1]) < PRIME:
                return f, g, mk("zero", e)
        return None

    def bits(least=1):
        """digits of known widths that add up to a value"""
        bs = {}
        for f in fs:
            if f.op in ("bool", "range"):
                p = poly(f.a[0])
                if len(p) == 1:
                    (m, k), = p.items()
                    if k == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].op == "hint":
                        h = m[0][0]
                        w = 1 if f.op == "bool" else f.a[1]
                        if h not in bs or bs[h][1] > w:
                            bs[h] = (f, w)
        for z in fs:
            if z.op != "zero":
                continue
            mine = [(linear(z.a[0], h), h) for h in bs if linear(z.a[0], h)]
            if not mine:
                continue
            for sign in (1, -1):
                w = {}
                for (k, _), h in mine:
                    k = k * sign
                    if k.denominator == 1 and k > 0 and int(k) & (int(k) - 1) == 0:
                        w[int(k).bit_length() - 1] = h
                at = 0
                for i in sorted(w):
                    if i != at:
                        break
                    at += bs[w[i]][1]
                else:
                    if not w or 1 << at >= PRIME:
                        continue
                    if len(w) != len(mine) or len(w) < least:
                        continue
                    rest = z.a[0]
                    for i, h in w.items():
                        rest = fsub(rest, fmul(fe(sign << i), fe(h)))
                    P = rest if sign == -1 else fneg(rest)
                    if hints_in(P) & set(w.values()):
                        continue
                    return z, [bs[h][0] for h in w.values()], {h: P if len(w) == 1 and at > 1 else digit(P, i, bs[h][1]) for i, h in w.items()}, P, 1 << at
        return None

    def defined():
        """a hint equal to an expression of other values, by an equation"""
        for z in fs:
            if z.op != "zero":
                continue
            for h in sorted(hints_in(z.a[0]), key=lambda h: -h.a[0]):
                l = linear(z.a[0], h)
                if l and h not in hints_in(l[1]) and abs(l[0]) == 1:
                    return z, {h: fmul(fe(-1 / l[0]), l[1])}
        return None

    def take(z, used, m, P, n):
        nonlocal fs
        fs = [f for f in fs if f is not z and f not in used]
        apply(m)
        sem.append(("in", P, n))

    for _ in range(4000):
        tidy()
        if split_random():
            continue
        r = rows()
        if r:
            fs.remove(r[0])
            apply(r[1])
            continue
        r = twofold()
        if r:
            x, y, t = r
            fs = [t if f is x else f for f in fs if f is not y]
            continue
        r = pinned()
        if r:
            x, y, t = r
            fs = [t if f is x else f for f in fs if f is not y]
            continue
        r = bits(3)
        if r:
            take(*r)
            continue
        r = euclid()
        if r:
            z, used, m, lim = r
            fs = [f for f in fs if f is not z and f not in used]
            apply(m)
            sem += lim
            continue
        r = rounded()
        if r:
            used, m, lim = r
            fs = [f for f in fs if f not in used]
            apply(m)
            sem += lim
            continue
        r = selection()
        if r:
            b, rg, d, res, sem = r
            fs = [mk("abs", d, rg.a[1]) if f is rg else mk(f.op, *(res.get(x, x) if isinstance(x, T) else x for x in f.a)) for f in fs if f is not b]
            outs = [res.get(o, o) for o in outs]
            continue
        r = largest()
        if r:
            z, used, m = r
            fs = [f for f in fs if f is not z]
            apply(m)
            continue
        r = bits()
        if r:
            take(*r)
            continue
        r = defined()
        if r:
            fs.remove(r[0])
            apply(r[1])
            continue
        break
    # a boolean or a digit that occurs nowhere else says nothing
    for f in list(fs):
        if f.op in ("bool", "range") and len(FA.atoms(f.a[0])) == 1:
            h = next(iter(FA.atoms(f.a[0])))
            if h.op == "hint" and f.a[0] is fe(h) and not any(h in hints_in(x) for g in fs if g is not f for x in g.a if isinstance(x, T) and x.op == "fe") \
                    and not any(h in hints_in(o) for o in outs) and not any(h in hints_in(p) for _, p, _ in sem):
                fs.remove(f)
    lim, res = set(), []
    for k, p, b in sem:
        if const_of(p) is not None and 0 <= const_of(p) < b:
            continue
        if const_of(p) is None and bound(p) and 0 <= bound(p)[0] and bound(p)[1] < b:
            continue
        (lim.add((k, p, b)) if not hints_in(p) else res.append((k, p, b)))
    for f in fs:
        if any(hints_in(x) for x in f.a if isinstance(x, T) and x.op == "fe"):
            res.append(f)
        elif f.op == "range":
            lim.add(("in", f.a[0], 1 << f.a[1]))
        elif f.op == "abs":
            d = f.a[0]
            lim.add(("abs", fneg(d) if lead_coef(d) < 0 else d, 1 << f.a[1]))
        else:
            lim.add((f.op,) + f.a)
    for o in outs:
        if hints_in(o):
            res.append(o)
    return outs, lim, res


# ------------------------------------------------------------------------------------------------ verdicts
def implied(lims):
    """the limits without those that follow from the intervals of the single inputs"""
    box = {}
    for l in lims:
        if l[0] == "in" and len(FA.atoms(l[1])) == 1:
            (x,) = FA.atoms(l[1])
            e = linear(l[1], x)
            c = const_of(e[1]) if e and e[0] == 1 else None
            if c is not None and c.denominator == 1:
                lo, hi = -int(c), l[2] - 1 - int(c)
                b = box.get(x)
                box[x] = (max(lo, b[0]), min(hi, b[1])) if b else (lo, hi)

    def follows(l):
        lo = hi = 0
        for m, k in poly(l[1]).items():
            if not m:
                lo, hi = lo + k, hi + k
                continue
            if len(m) != 1 or m[0][1] != 1 or m[0][0] not in box:
                return False
            a, b = sorted((k * box[m[0][0]][0], k * box[m[0][0]][1]))
            lo, hi = lo + a, hi + b
        return lo >= 0 and hi < l[2]
    return {l for l in lims if not (l[0] == "in" and len(FA.atoms(l[1])) > 1 and follows(l))}


def kept(l, val):
    """the values are within the limit, and a signed one within the interval of as many bits"""
    if l[0] == "in":
        return ev(l[1], val) < l[2]
    if l[0] == "abs":
        return 2 * abs(signed(ev(l[1], val))) < l[2]
    if l[0] == "bool":
        return ev(l[1], val) < 2
    return True


def show_vals(val, ins):
    return ", ".join(f"{a.a[0] if a.op == 'sym' else show(a)} = {signed(val[a])}" for a in sorted(ins, key=lambda a: str(a.a[0]))[:12])


def judge_system(facts, outs, want, lims, gen, outside=()):
    """facts and outputs of one path against the specified outputs and input ranges; gen: input values within the specified
    range; outside: values beyond it, which must be refused"""
    outs = [fe(o) for o in outs]
    want = [fe(w) for w in want]
    if len(outs) != len(want):
        return [(False, f"{len(outs)} outputs instead of {len(want)}")]
    o, lim, res = solve(facts, outs)
    lims = {x for x in lims if not (x[0] == "in" and const_of(x[1]) is not None)}
    lim, lims = implied(lim), implied(lims)
    proved = not res and all(x is y for x, y in zip(o, want)) and lim == lims
    rnd = random.Random(7)
    ins = set()
    for t in want + outs + [x for f in facts for x in f.a if isinstance(x, T) and x.op == "fe"]:
        collect(t, ins)
    try:
        vals = list(gen(rnd))
    except Uneval as e:
        vals = []
    why = ""
    try:
        for v in vals:
            val = dict(v)
            for a in ins:
                if a not in val and a.op != "hint":
                    val[a] = rnd.randrange(100)
            if not all(kept(x, val) for x in lims):
                continue
            base = dict(val)
            honest(facts, val, rnd)
            b = violated(facts, val)
            if b is not None:
                return [(False, f"for {show_vals(base, base)} the honest prover violates the constraint {show(b)[:160]}")]
            for k, (x, y) in enumerate(zip(outs, want)):
                if ev(x, val) != ev(y, val):
                    return [(False, f"for {show_vals(base, base)} output {k} is {signed(ev(x, val))} instead of {signed(ev(y, val))}")]
        if proved:
            return [(True, "")]
        for v in vals[:6]:
            val = dict(v)
            for a in ins:
                if a not in val and a.op != "hint":
                    val[a] = rnd.randrange(100)
            w = forge(facts, outs, want, val, rnd)
            if w:
                return [(False, w)]
        for v in outside:
            w = forge(facts, outs, None, dict(v), rnd)
            if w:
                return [(False, w)]
    except Uneval as e:
        if proved:
            return [(True, "")]
        why = f"; not evaluated: {e}"
    diff = [f"output {k}: {show(x)[:200]} / {show(y)[:200]}" for k, (x, y) in enumerate(zip(o, want)) if x is not y][:2]
    return [(None, f"not determined by the constraints: {[show(r)[:120] if isinstance(r, T) else str(r[0]) for r in res][:3]}; {diff}; ranges {len(lim - lims)} more, {len(lims - lim)} less{why}"
             + "".join("; " + x[0] + " " + show(x[1])[:80] + " " + (str(x[2]) if len(x) > 2 else "") for x in sorted(lim ^ lims, key=str)[:4]))]


def collect(t, out):
    for a in FA.atoms(t):
        coll_atom(a, out)


def coll_atom(a, out):
    if a.op in ("sym", "hint"):
        out.add(a)
    else:
        for x in a.a:
            if isinstance(x, T) and x.op == "fe":
                collect(x, out)
            elif isinstance(x, tuple):
                for y in x:
                    if isinstance(y, T) and y.op == "fe":
                        collect(y, out)


def forge(facts, outs, want, val, rnd):
    """hint values other than the honest ones that satisfy every constraint"""
    facts = coefficients(facts, {h for f in facts if f.op == "hints" and f.a[1] == "random" for h in f.a[0]}) or facts
    hs = [h for f in facts if f.op == "hints" and f.a[1] != "random" for h in f.a[0]]
    base = dict(val)
    ins = dict(val)
    honest(facts, base, rnd)
    zeros = [f for f in facts if f.op == "zero"]

    def good(v):
        try:
            if violated(facts, v) is not None:
                return None
        except Uneval:
            return None
        if want is None:
            return f"with inputs {show_vals(ins, ins)}, which are out of range, every constraint can be satisfied"
        for k, (x, y) in enumerate(zip(outs, want)):
            if ev(x, v) != ev(y, v):
                return f"for {show_vals(ins, ins)} a dishonest prover gets output {k} = {signed(ev(x, v))} instead of {signed(ev(y, v))} past every constraint"
        return None
    w = good(base)
    if w:
        return w
    n = 0
    for h in hs[:24]:
        tries = [base[h] + 1, base[h] - 1, 1 - base[h], 0, -base[h], base[h] + 2, base[h] + (1 << 20), rnd.randrange(PRIME)] + [v for v in list(ins.values())[:3]]
        # another remainder of a product by a constant
        for f in facts:
            l = linear(f.a[0], h) if f.op == "range" else None
            if l and l[0].denominator == 1 and abs(l[0]) > 1:
                k = ev(l[1], base)
                tries += [(r - k) * pow(int(l[0]), PRIME - 2, PRIME) for r in range(min(4, 1 << f.a[1]))]
        for t in tries:
            v = dict(base)
            v[h] = t % PRIME
            if v[h] == base[h]:
                continue
            # recompute what depends on it, or repair equations by solving for another hint
            for mode in (0, 1, 2):
                x = dict(v)
                fixed = {h}
                if mode == 1:
                    for f in facts:
                        if f.op == "hints" and f.a[1] != "random" and h not in f.a[0]:
                            try:
                                r = HINTS[f.a[1]](*[ev(y, x) for y in f.a[2]]) if f.a[1].startswith("u.") else HINTS[f.a[1]]([ev(y, x) for y in f.a[2]], len(f.a[0]))
                            except Exception:
                                continue
                            for a, q in zip(f.a[0], r):
                                x[a] = q % PRIME
                for _ in range(6):
                    bad = next((z for z in zeros if ev(z.a[0], x)), None)
                    if bad is None:
                        break
                    cand = [g for g in sorted(hints_in(bad.a[0]), key=lambda g: g.a[0], reverse=mode == 2) if g in base and g not in fixed]
                    done = False
                    for g in cand:
                        co = coef_of(bad.a[0], g)
                        if co is None:
                            continue
                        k = ev(co[0], x)
                        if k:
                            x[g] = -ev(co[1], x) * pow(k, PRIME - 2, PRIME) % PRIME
                            fixed.add(g)
                            done = True
                            break
                    if not done:
                        break
                w = good(x)
                if w:
                    return w
                n += 1
    return None


# ------------------------------------------------------------------------------------------------ running
class Circ:
    def __init__(self, M, models=None, konst=None, **o):
        self.M = M
        import ndmodel
        self.opts = {"models": {**CM, **ndmodel.NM, **(models or {})}, "konst": {**KN, **(konst or {})}, **o}

    def run(self, path, args, cells=None):
        """args: terms or '&name' (a cell of the caller; 'api' is the builder); [(value, {cell: value}, facts)], interpreter"""
        st = State()
        cells = dict(cells or {})
        cells.setdefault("api", mk("api", (), 0))
        for n, v in cells.items():
            st.env["c:" + n] = v
        av = [mk("ref", "c:" + x[1:], ()) if isinstance(x, str) else x for x in args]
        outs, Ip = self.M.call(path, st, av, self.opts)
        res = []
        for s, v in outs:
            cs = {n: canon(Ip.freeze(s, s.env["c:" + n])) for n in cells}
            res.append((canon(Ip.freeze(s, v)), cs, cs["api"].a[0]))
        return res, Ip


def ok_of(v):
    """value of Ok(v); None for Err"""
    if v.op == "adt" and v.a[2] == "Ok":
        return v.a[3][0]
    return None


def inp(n):
    return FA.atom(n)


def asym(n):
    return mk("sym", n, "in")
