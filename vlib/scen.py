"""Scenarios: abstract arguments of constant structure, a reference specification over the same value numbers, and the
comparison of the derived outcomes with it.

verdict of one outcome:
  proved    the outcome's facts entail the specified result
  refuted   derived and specified result are both fully understood terms and a valuation of the input symbols that satisfies
            the outcome's facts (listed in the report) tells them apart
  undecided otherwise
"""
import math, random, struct, re, time
from terms import *
import terms
import absint as A
from absint import State, Budget, Interp
import conc as C
from conc import CInterp, Giveup, mkseq, hmap, fsym, fc, pairs, clist

CRATE = "jstprove_onnx"


# ------------------------------------------------------------------------------------------------ term evaluation
class Uneval(Exception):
    pass


def to_f32(x):
    try:
        return struct.unpack("<f", struct.pack("<f", x))[0]
    except OverflowError:
        return math.copysign(math.inf, x)


def trunc_div(a, b):
    q = abs(a) // abs(b)
    return q if (a >= 0) == (b > 0) else -q


def ev(t, val, memo=None):
    if memo is None:
        memo = {}
    if t in memo:
        return memo[t]
    r = _ev(t, val, memo)
    memo[t] = r
    return r


def _ev(t, val, m):
    o, a = t.op, t.a
    e = lambda x: ev(x, val, m)
    if o == "int":
        return a[0]
    if o == "sym":
        if t in val:
            return val[t]
        raise Uneval(str(a[0]))
    if o == "L":
        return a[0] + sum(k * e(x) for x, k in a[1])
    if o == "mul":
        r = 1
        for x in a:
            r *= e(x)
        return r
    if o == "div":
        d = e(a[1])
        if d == 0:
            raise Uneval("div0")
        return trunc_div(e(a[0]), d)
    if o == "rem":
        x, d = e(a[0]), e(a[1])
        if d == 0:
            raise Uneval("rem0")
        return x - d * trunc_div(x, d)
    if o == "reme":
        d = e(a[1])
        if d == 0:
            raise Uneval("rem0")
        return e(a[0]) % abs(d)
    if o == "max":
        return max(e(a[0]), e(a[1]))
    if o == "min":
        return min(e(a[0]), e(a[1]))
    if o == "pow":
        n = e(a[1])
        if n < 0 or n > 200:
            raise Uneval("pow")
        return e(a[0]) ** n
    if o == "ge0":
        return e(a[0]) >= 0
    if o == "eq0":
        return e(a[0]) == 0
    if o == "not":
        return not e(a[0])
    if o == "and":
        return all(e(x) for x in a)
    if o == "eq":
        return e(a[0]) == e(a[1])
    if o == "cmp":
        x, y = e(a[1]), e(a[2])
        return {"Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y}[a[0]]
    if o == "fcmp":
        x, y = float(e(a[1])), float(e(a[2]))
        return {"Lt": x < y, "Le": x <= y, "Eq": x == y}[a[0]]
    if o == "fc":
        return float(a[0])
    if o == "i2f":
        return float(e(a[0]))
    if o == "f32":
        return to_f32(float(e(a[0])))
    if o == "f2i":
        x = e(a[1])
        lo, hi = RANGES[a[0]]
        if x != x:
            return 0
        if x in (math.inf, -math.inf):
            return hi if x > 0 else lo
        return max(lo, min(hi, int(x)))
    if o == "cast":
        lo, hi = RANGES[a[0]]
        return (e(a[2]) - lo) % (hi - lo + 1) + lo
    if o == "fneg":
        return -e(a[0])
    if o in ("fAdd", "fSub", "fMul", "fDiv", "fRem"):
        x, y = float(e(a[0])), float(e(a[1]))
        try:
            if o == "fAdd":
                return x + y
            if o == "fSub":
                return x - y
            if o == "fMul":
                return x * y
            if o == "fRem":
                return math.fmod(x, y)
            if y == 0:
                return math.nan if x == 0 or x != x else math.copysign(math.inf, x) * math.copysign(1, y)
            return x / y
        except (OverflowError, ValueError):
            raise Uneval(o)
    if o.startswith("f."):
        xs = [e(x) for x in a]
        f = o[2:]
        try:
            x = float(xs[0])
            if f == "abs":
                return abs(x)
            if f == "sqrt":
                return math.sqrt(x) if x >= 0 else math.nan
            if f in ("floor", "ceil", "trunc"):
                return x if math.isinf(x) or x != x else float(getattr(math, f)(x))
            if f == "round":
                return x if math.isinf(x) or x != x else math.copysign(math.floor(abs(x) + 0.5), x)
            if f == "round_ties_even":
                return float(round(x))
            if f == "log2":
                return math.log2(x) if x > 0 else (-math.inf if x == 0 else math.nan)
            if f == "log10":
                return math.log10(x) if x > 0 else (-math.inf if x == 0 else math.nan)
            if f == "ln":
                return math.log(x) if x > 0 else (-math.inf if x == 0 else math.nan)
            if f == "exp":
                return math.exp(x)
            if f == "exp2":
                return 2.0 ** x
            if f == "tanh":
                return math.tanh(x)
            if f == "sin":
                return math.sin(x)
            if f == "cos":
                return math.cos(x)
            if f in ("max", "min"):
                y = float(xs[1])
                if x != x:
                    return y
                if y != y:
                    return x
                return max(x, y) if f == "max" else min(x, y)
            if f in ("powf", "powi"):
                return x ** xs[1]
            if f == "mul_add":
                return x * xs[1] + xs[2]
            if f == "recip":
                return 1.0 / x
            if f == "is_finite":
                return math.isfinite(x)
            if f == "is_nan":
                return x != x
            if f == "is_infinite":
                return math.isinf(x)
            if f == "signum":
                return math.copysign(1.0, x)
            if f == "clamp":
                return max(float(xs[1]), min(float(xs[2]), x))
        except (OverflowError, ValueError, ZeroDivisionError):
            raise Uneval(o)
        raise Uneval(o)
    if o == "len":
        return len(e(a[0]))
    if o == "elt":
        s, i = e(a[0]), e(a[1])
        if not (0 <= i < len(s)):
            raise Uneval("elt")
        return s[i]
    if o == "arr":
        return tuple(e(x) for x in a[0])
    if o == "vec":
        out = []
        for p in a[0]:
            if p[0] == "e":
                out.append(e(p[1]))
            elif p[0] == "v":
                s, b, n = e(p[1]), e(p[2]), e(p[3])
                out += s[b:b + n]
            else:
                raise Uneval("vec")
        return tuple(out)
    if o == "rep":
        n = e(a[1])
        if n > 10000:
            raise Uneval("rep")
        return (e(a[0]),) * n
    if o == "vset":
        s = list(e(a[0]))
        i = e(a[1])
        if not (0 <= i < len(s)):
            raise Uneval("vset")
        s[i] = e(a[2])
        return tuple(s)
    if o == "str":
        return a[0]
    if o == "ssel":
        return a[1][e(a[0])]
    if o == "frombytes":
        b = bytes(e(a[1]))
        return struct.unpack("<f" if a[0] == "f32" else "<d", b)[0] if a[0][0] == "f" else int.from_bytes(b, "little", signed=a[0][0] == "i")
    if o == "unit":
        return ()
    if o == "tuple":
        return tuple(e(x) for x in a[0])
    if o in ("vref", "box"):
        return e(a[0])
    if o == "adt":
        return (a[2],) + tuple(e(x) for x in a[3])
    if o == "hmap":
        return frozenset((e(k), e(v)) for k, v in a[0])
    if o == "num":
        ty, f = a[0], a[1]
        xs = [e(x) for x in a[2:]]
        lo, hi = RANGES[ty]
        if f == "ilog2" and xs[0] > 0:
            return xs[0].bit_length() - 1
        if f == "leading_zeros":
            return (hi - lo + 1).bit_length() - 1 - (xs[0] % (hi - lo + 1)).bit_length()
        if f == "is_power_of_two":
            return xs[0] > 0 and xs[0] & (xs[0] - 1) == 0
        if f == "next_power_of_two":
            return 1 << (xs[0] - 1).bit_length() if xs[0] > 1 else 1
        if f == "next_multiple_of" and xs[1]:
            return -(-xs[0] // xs[1]) * xs[1]
        if f == "div_euclid" and xs[1]:
            r = xs[0] % abs(xs[1])
            return (xs[0] - r) // xs[1]
        if f == "signum":
            return (xs[0] > 0) - (xs[0] < 0)
        if f == "is_negative":
            return xs[0] < 0
        if f == "is_positive":
            return xs[0] > 0
        raise Uneval(f)
    if o in ("satsub", "saturating_add", "saturating_mul"):
        lo, hi = RANGES.get(TYOF.get(t), RANGES["i64"])
        x, y = e(a[0]), e(a[1])
        v = x - y if o == "satsub" else x + y if o == "saturating_add" else x * y
        return max(lo, min(hi, v))
    if o in ("wrapping_add", "wrapping_sub", "wrapping_mul"):
        lo, hi = RANGES.get(TYOF.get(t), RANGES["i64"])
        x, y = e(a[0]), e(a[1])
        v = x - y if "sub" in o else x + y if "add" in o else x * y
        return (v - lo) % (hi - lo + 1) + lo
    if o == "bit":
        x, y = e(a[1]), e(a[2])
        return {"BitAnd": x & y, "BitOr": x | y, "BitXor": x ^ y, "Shl": x << y if y < 256 else 0, "Shr": x >> y}[a[0]]
    raise Uneval(o)


def syms(t, out=None):
    out = set() if out is None else out
    for x in subterms(t):
        if x.op == "sym":
            out.add(x)
    return out


# ------------------------------------------------------------------------------------------------ valuations
class Dom:
    """declared input symbols: term -> candidate values for witnesses (small first)"""
    def __init__(self):
        self.c = {}

    def int(self, name, lo, hi, st, ty="usize", pref=None):
        t = A.sym(name, ty, "in")
        if lo is not None:
            st.add_ge(sub(t, I(lo)))
        if hi is not None:
            st.add_ge(sub(I(hi), t))
        l, h = (lo if lo is not None else -6), (hi if hi is not None else 9)
        self.c[t] = pref or [v for v in (1, 2, 3, 4, 5, 6, 0, 7, 8, -1, -2, -3, -4, -5, 9, 10, 12, 16, 33, 100, 1000) if l <= v <= h] or [l, h]
        return t

    def flt(self, name, vals):
        t = fsym(name)
        self.c[t] = vals
        return t


def facts_of(st):
    fs = [("ge", L) for L in st.ge] + [("ne", L) for L in st.ne] + [("bl", b, v) for b, v in st.bl.items()]
    return fs


def holds(f, val, memo):
    if f[0] == "ge":
        return ev(f[1], val, memo) >= 0
    if f[0] == "ne":
        return ev(f[1], val, memo) != 0
    if f[1].op in ("noovf", "env"):
        return True
    return bool(ev(f[1], val, memo)) == f[2]


def valuations(dom, st, extra=(), n=40, budget=4000, seed=1):
    """up to n valuations of the input symbols that satisfy the state's facts and the extra conditions (bounded search)"""
    rnd = random.Random(seed)
    fs = facts_of(st) + [("bl", b, True) for b in extra]
    fs = [f for f in fs if not (f[0] == "bl" and f[1].op in ("noovf", "env"))]
    if st.va:
        return []
    fsy = []
    order = []
    for f in fs:
        s = syms(f[1])
        if any(x not in dom.c for x in s):
            return []           # something the analysis did not understand is in the path condition
        fsy.append((s, f))
    allsy = list(dom.c)
    # most constrained first
    cnt = {x: 0 for x in allsy}
    for s, _ in fsy:
        for x in s:
            cnt[x] += 1
    allsy.sort(key=lambda x: -cnt[x])
    pos = {x: i for i, x in enumerate(allsy)}
    at = [[] for _ in allsy]
    free = []
    for s, f in fsy:
        if s:
            at[max(pos[x] for x in s)].append(f)
        else:
            free.append(f)
    try:
        if any(not holds(f, {}, {}) for f in free):
            return []
    except Uneval:
        return []
    cand = {x: list(c) for x, c in dom.c.items()}
    for f in fs:
        if f[0] in ("ge", "ne") and f[1].op in ("L", "sym"):
            c, d = lin(f[1])
            for x, k in d.items():
                if x in cand and x not in C.FSYM and abs(c) < 2**40:
                    for v in (-c // k, -c // k + 1, -c // k - 1):
                        if v not in cand[x]:
                            cand[x].append(v)
    out = []
    nodes = [0]

    def rec(i, val):
        if nodes[0] > budget:
            return False
        if i == len(allsy):
            out.append(dict(val))
            return True
        x = allsy[i]
        cs = list(cand[x])
        rnd.shuffle(cs)
        for v in cs:
            nodes[0] += 1
            if nodes[0] > budget:
                return False
            val[x] = v
            try:
                ok = all(holds(f, val, {}) for f in at[i])
            except Uneval:
                ok = False
            if ok and rec(i + 1, val):
                return True
        val.pop(x, None)
        return False
    for _ in range(n):
        nodes[0] = 0
        if not rec(0, {}):
            break
    return out


def show_val(val, dom=None):
    return ", ".join(f"{k.a[0]}={v:g}" if isinstance(v, float) else f"{k.a[0]}={v}" for k, v in sorted(val.items(), key=lambda kv: str(kv[0].a[0])))


# ------------------------------------------------------------------------------------------------ specification context
class Split(Exception):
    def __init__(s, c):
        s.c = c


class K:
    """what a specification may ask about the facts of an outcome"""
    def __init__(s, st):
        s.st = st
        s.cst = None

    def when(s, c):
        if c.op not in FB and any(x.op == "f2i" for x in subterms(c)):
            c = subst(c, f2is([c], s.st, {}))
        k = s.st.known(c)
        if k is None and c.op in FB:
            k = s.fcmp(c)
        if k is None:
            raise Split(c)
        return k

    def fcmp(s, c):
        """the same comparison of floats in another form"""
        if s.cst is None:
            s.cst = canon_state(s.st) or s.st
        return s.cst.known(cfact(c, s.st, {}))

    def lt(s, x, y):
        return s.when(ge0(sub(sub(y, x), I(1))))

    def le(s, x, y):
        return s.when(ge0(sub(y, x)))

    def eq(s, x, y):
        return s.when(eq0(sub(x, y)))


class KV(K):
    """the same questions under a concrete valuation"""
    def __init__(s, val):
        s.val = val

    def when(s, c):
        return bool(ev(c, s.val))


ERR = ("err",)
ANY = ("any",)


def close(x, y, tol):
    if isinstance(x, bool) or isinstance(y, bool):
        return bool(x) == bool(y)
    if isinstance(x, float) or isinstance(y, float):
        if x != x and y != y:
            return True
        if x == y:
            return True
        return abs(x - y) <= tol * max(1e-300, abs(x), abs(y))
    if isinstance(x, tuple) and isinstance(y, tuple):
        return len(x) == len(y) and all(close(p, q, tol) for p, q in zip(x, y))
    return x == y


def tequal(st, x, y):
    """terms equal under the facts of st"""
    if x is y:
        return True
    if C.isfloat(x) or x.op == "f2i":
        m = {}
        x, y = canon(x, m, st), canon(y, m, st)
        return x is y or structural(st, x, y)
    if x.op in ("arr", "vec") and y.op in ("arr", "vec"):
        try:
            p, q = clist(x), clist(y)
        except Giveup:
            return False
        return len(p) == len(q) and all(tequal(st, u, v) for u, v in zip(p, q))
    if x.op == "tuple" and y.op == "tuple":
        return len(x.a[0]) == len(y.a[0]) and all(tequal(st, u, v) for u, v in zip(x.a[0], y.a[0]))
    if x.op == "adt" and y.op == "adt":
        return x.a[1] == y.a[1] and len(x.a[3]) == len(y.a[3]) and all(tequal(st, u, v) for u, v in zip(x.a[3], y.a[3]))
    if x.op in ("int", "L", "mul", "div", "rem", "max", "min", "sym", "cast") and y.op in ("int", "L", "mul", "div", "rem", "max", "min", "sym", "cast"):
        d = sub(x, y)
        return st.proves(d) and st.proves(neg(d))
    return structural(st, x, y)


def structural(st, x, y):
    return x.op == y.op and len(x.a) == len(y.a) and x.op not in ("sym", "fc", "int", "str", "hmap", "vec", "ssel") and bool(x.a) and \
        all(p is q or isinstance(p, terms.T) and isinstance(q, terms.T) and tequal(st, p, q) or not isinstance(p, (terms.T, tuple)) and p == q for p, q in zip(x.a, y.a))


def fop(op, x, y):
    return A.fop(op, x, y)


def ffn(name, *a):
    a = tuple(sorted(a)) if name in ("max", "min") else a
    return mk("f." + name, *a)


def fconst(t):
    return float(t.a[0]) if t.op == "fc" else None


def fnonneg(t):
    """the float term is not negative"""
    if t.op == "fc":
        return float(t.a[0]) >= 0
    if t.op in ("f.abs", "f.sqrt", "f.exp"):
        return True
    if t.op == "f.max":
        return any(fnonneg(x) for x in t.a)
    if t.op in ("fAdd", "fMul", "fDiv", "f.min"):
        return all(fnonneg(x) for x in t.a)
    return False


def flat(t, op):
    return flat(t.a[0], op) + flat(t.a[1], op) if t.op == op else (t,)


def nest(op, xs):
    r = xs[0]
    for x in xs[1:]:
        r = mk(op, r, x)
    return r


def canon(t, memo, st=None):
    """float terms as expressions over the reals: sums, products and extrema flattened and ordered, neutral elements dropped; integers inside simplified with the facts of st"""
    if t in memo:
        return memo[t]
    r = t
    go = lambda x: canon(x, memo, st)
    if t.op in ("f.max", "f.min"):
        fl = set()
        for x in t.a:
            x = go(x)
            fl.update(flat(x, t.op))
        fl = {x for x in fl if fconst(x) != (float("inf") if t.op == "f.min" else float("-inf"))} or fl
        if t.op == "f.max" and any(fconst(x) is None and fnonneg(x) for x in fl):
            fl = {x for x in fl if fconst(x) is None or fconst(x) > 0}
        r = nest(t.op, sorted(fl))
    elif t.op in ("fAdd", "fMul"):
        e = 0.0 if t.op == "fAdd" else 1.0
        l = []
        for x in t.a:
            x = go(x)
            l += flat(x, t.op)
        a = sorted(x for x in l if fconst(x) != e)
        r = nest(t.op, a) if a else fc(e)
    elif t.op in ("fSub", "fDiv", "fneg") or t.op.startswith("f."):
        r = mk(t.op, *[go(x) for x in t.a])
        if r.op != t.op:
            pass
        elif t.op == "f.abs" and fnonneg(r.a[0]):
            r = r.a[0]
        elif t.op in ("fSub", "fDiv") and fconst(r.a[1]) == (0.0 if t.op == "fSub" else 1.0):
            r = r.a[0]
    elif t.op == "i2f":
        i = cint(t.a[0], memo, st)
        r = fc(float(i.a[0])) if i.op == "int" else mk("i2f", i)
    elif t.op == "f2i":
        r = mk("f2i", t.a[0], go(t.a[1]))
    memo[t] = r
    return r


def cint(t, memo, st):
    """an integer term with exact quotients and decided extrema resolved"""
    m = {}
    for x in sorted(subterms(t), key=lambda x: len(show(x))):
        if x.op == "f2i":
            m[x] = canon(x, memo, st)
        elif st is not None and x.op in ("div", "min", "max"):
            y = subst(x, m) if m else x
            if y.op == "div" and st.nonzero(y.a[1]):
                q = quotient(*y.a)
                if q is not None:
                    m[x] = q
            elif y.op in ("min", "max"):
                d = sub(y.a[0], y.a[1])
                if st.proves(d):
                    m[x] = y.a[0] if y.op == "max" else y.a[1]
                elif st.proves(neg(d)):
                    m[x] = y.a[1] if y.op == "max" else y.a[0]
    return subst(t, m) if m else t


FB = ("fcmp", "f.is_finite", "f.is_nan")


def cfact(b, st, memo):
    if b.op == "fcmp":
        return mk("fcmp", b.a[0], canon(b.a[1], memo, st), canon(b.a[2], memo, st))
    if b.op in FB:
        return mk(b.op, canon(b.a[0], memo, st))
    return b


def f2is(ts, st, memo):
    return {x: canon(x, memo, st) for t in ts for x in subterms(t) if x.op == "f2i"}


def canon_state(st):
    """st with its float facts in canonical form; None when they contradict each other"""
    memo = {}
    m = {k: v for k, v in f2is(list(st.ge) + list(st.ne), st, memo).items() if v is not k}
    r = substate(st, m) if m else st.copy()
    if r is None:
        return None
    bl = {}
    for b, v in r.bl.items():
        b = cfact(b, st, memo)
        if b.op == "f.is_finite" and not v and finite_form(b.a[0]) or bl.setdefault(b, v) != v:
            return None
        if b.op == "int" and bool(b.a[0]) != v:
            return None
    for b, v in list(bl.items()):
        if b.op == "fcmp" and (b.a[2].op == "f.min" or b.a[1].op == "f.max"):
            mn = b.a[2].op == "f.min"
            parts = [mk("fcmp", b.a[0], b.a[1], x) if mn else mk("fcmp", b.a[0], x, b.a[2]) for x in flat(b.a[2 if mn else 1], "f.min" if mn else "f.max")]
            if v:
                if any(bl.setdefault(x, True) is False for x in parts):
                    return None
            elif all(bl.get(x) for x in parts):
                return None
    r.bl = bl
    return r


def finite_form(t):
    """finite whenever the model's own floats are"""
    return t.op in ("f.abs", "f.max", "f.min") and bool(t.a) and all(finite_form(x) for x in t.a) or t.op == "fc" and abs(fconst(t)) != float("inf") or t.op == "sym"


def quotient(x, y):
    """x / y when the monomial y divides every monomial of x"""
    my = T_monos(y)
    if len(my) != 1 or not my[0][0] or my[0] == (1, ()):
        return None
    k, fy = my[0][0], list(my[0][1])
    r = I(0)
    for c, fs in T_monos(x):
        l = list(fs)
        if c % k:
            return None
        for f in fy:
            if f not in l:
                return None
            l.remove(f)
        q = I(c // k)
        for f in l:
            q = mul(q, f)
        r = add(r, q)
    return r


T_monos = terms._monos


def lemmas(st, ts, done):
    """facts about quotients and remainders that occur in ts; False when st becomes contradictory"""
    for t in ts:
        for x in list(subterms(t)):
            if x in done or x.op not in ("div", "rem"):
                continue
            done.add(x)
            n, d = x.a
            if not st.nonzero(d):
                continue
            q = quotient(n, d)
            if q is not None:
                e = sub(x, q) if x.op == "div" else x
                if not (st.add_ge(e) and st.add_ge(neg(e))):
                    return False
            elif x.op == "rem":
                e = sub(x, sub(n, mul(d, div(n, d))))
                if not (st.add_ge(e) and st.add_ge(neg(e))):
                    return False
            if x.op == "div":
                for y in list(done):
                    if y.op == "div" and y is not x and y.a[1] is d:
                        z = lambda e: st.proves(e) and st.proves(neg(e))
                        df = sub(n, y.a[0])
                        a = None
                        if z(df):
                            a, b, c = x, y, 0
                        elif z(sub(df, d)):
                            a, b, c = x, y, 1
                        elif z(add(df, d)):
                            a, b, c = y, x, 1
                        if a is not None and (c == 0 or st.proves(b.a[0]) and st.proves(sub(d, I(1)))):
                            e = sub(sub(a, b), I(c))
                            if not (st.add_ge(e) and st.add_ge(neg(e))):
                                return False
    return True


def pins(st, ts):
    """symbols that the facts pin to one value"""
    m = {}
    for t in ts:
        for x in syms(t):
            if x not in m and x not in C.FSYM:
                lo, hi = st.ival(x)
                if lo is not None and lo == hi:
                    m[x] = I(lo)
        for x in subterms(t):
            if x.op == "div" and x not in m and x.a[1].op == "int" and x.a[1].a[0] > 0 and st.proves(x.a[0]) and st.proves(sub(sub(x.a[1], I(1)), x.a[0])):
                m[x] = I(0)
    return m


def infeasible(st):
    for L in st.ne:
        if st.proves(L) and st.proves(neg(L)):
            return True
    for L in st.ge:
        if any(x.op in ("div", "rem", "min", "max") for x in lin(L)[1]) and st.proves(sub(I(-1), L)):
            return True
    return False


LIMIT = [700]


def wrapping_cast(ts):
    """an innermost conversion of a signed to an unsigned word"""
    for t in ts:
        for x in subterms(t):
            if x.op == "cast" and x.a[0] in ("usize", "u64") and x.a[1] in ("i64", "isize"):
                return wrapping_cast(x.a[2:]) or x
    return None


def minmax(ts):
    """an innermost min/max"""
    for t in ts:
        for x in subterms(t):
            if x.op in ("min", "max"):
                return minmax(x.a) or x
    return None


def substate(st, m):
    s = st.copy()
    ge, ne = s.ge, s.ne
    s.ge, s.ne = frozenset(), frozenset()
    s._inv()
    for L in sorted((subst(L, m) for L in ge), key=lambda L: len(lin(L)[1])):
        if not s.add_ge(L):
            return None
    for L in ne:
        if not s.add_ne(subst(L, m)):
            return None
    s.bl = {subst(b, m): v for b, v in s.bl.items()}
    return s


def compare(dom, s, got, spec, tol=1e-9, nval=24):
    """got: ('ok', term) | ('err',); spec(K) -> ('ok', term) | ERR | ANY.  Returns (verdict, message)"""
    work, n = [(s, got)], 0
    verdict = True
    why = ""
    und = []
    got0 = got
    while work:
        st, got = work.pop()
        gt = [got[1]] if got[0] == "ok" else []
        n += 1
        if n > LIMIT[0]:
            verdict, why = None, "too many cases"
            und += [(st, got)] + work
            break
        flt = any(b.op in FB for b in st.bl) or gt and any(x.op == "f2i" for x in subterms(gt[0]))
        if flt:
            cs = canon_state(st)
            if cs is None:
                continue
            if gt:
                got = ("ok", subst(gt[0], f2is(gt, st, {})))
                gt = [got[1]]
            st = cs
        wc = wrapping_cast(gt + list(st.ge) + list(st.ne))
        if wc is not None:
            for nonneg in (True, False):
                s2 = st.copy()
                if s2.assume(ge0(wc.a[2] if nonneg else sub(neg(wc.a[2]), I(1)))):
                    m = {wc: wc.a[2] if nonneg else add(wc.a[2], I(2**64))}
                    s3 = substate(s2, m)
                    if s3 is not None:
                        work.append((s3, ("ok", subst(got[1], m)) if gt else got))
            continue
        mm = minmax(gt + list(st.ge) + list(st.ne))
        if mm is not None:
            x, y = mm.a
            for first in (True, False):
                s2 = st.copy()
                if s2.assume(ge0(sub(x, y) if first else sub(sub(y, x), I(1)))):
                    m = {mm: x if (mm.op == "max") == first else y}
                    s3 = substate(s2, m)
                    if s3 is not None:
                        work.append((s3, ("ok", subst(got[1], m)) if gt else got))
            continue
        if infeasible(st):
            continue
        try:
            want = spec(K(st))
        except Split as sp:
            for v in (True, False):
                s2 = st.copy()
                if s2.assume(sp.c, v):
                    work.append((s2, got))
            continue
        if want == ANY:
            continue
        if flt and want[0] == "ok":
            want = ("ok", subst(want[1], f2is([want[1]], st, {})))
        if want[0] == got[0] and (want[0] == "err" or tequal(st, want[1], got[1])):
            continue
        s2 = st.copy()
        if not lemmas(s2, gt + ([want[1]] if want[0] == "ok" else []) + list(st.ge), set()) or infeasible(s2):
            continue
        if want[0] == got[0] and tequal(s2, want[1], got[1]):
            continue
        pm = pins(s2, list(s2.ge) + gt + ([want[1]] if want[0] == "ok" else []))
        if pm:
            s3 = substate(s2, pm)
            if s3 is None or infeasible(s3):
                continue
            if want[0] == got[0] and tequal(s3, subst(want[1], pm), subst(got[1], pm)):
                continue
        und.append((st, got))
    if not und:
        return True, ""
    # candidates for refutation: confirm with a valuation
    for st, got in und[:12]:
        vals = valuations(dom, st, n=nval)
        for val in vals:
            try:
                want = spec(KV(val))
                if want == ANY:
                    continue
                if want[0] != got[0]:
                    if got[0] == "ok":
                        return False, f"accepted with {pp_val(ev(got[1], val))} where it must be refused, for {show_val(val)}"
                    return False, f"refused where {pp_val(ev(want[1], val))} is specified, for {show_val(val)}"
                if want[0] == "err":
                    continue
                x, y = ev(got[1], val), ev(want[1], val)
                if not close(x, y, tol):
                    return False, f"yields {pp_val(x)} where {pp_val(y)} is specified, for {show_val(val)}"
            except Uneval as e:
                why = f"not evaluable: {e}"
    return None, why or "the derived result is not the specified term, and no separating input was found"


def check_pred(dom, s, got, pred, nval=12):
    """pred(k, got) -> None when the outcome is as specified, else what is wrong.  Returns (verdict, message)"""
    work, n, bad = [s], 0, []
    while work:
        st = work.pop()
        n += 1
        if n > 3000:
            return None, "too many cases"
        if infeasible(st):
            continue
        try:
            r = pred(K(st), got)
        except Split as sp:
            for v in (True, False):
                s2 = st.copy()
                if s2.assume(sp.c, v):
                    work.append(s2)
            continue
        if r is not None:
            bad.append((st, r))
    for st, r in bad[:20]:
        for val in valuations(dom, st, n=nval):
            try:
                r = pred(KV(val), got)
            except (Uneval, Split):
                continue
            if r is not None:
                return False, f"{r}, for {show_val(val)}"
    return (None, bad[0][1] + " (no witness)") if bad else (True, "")


def pp_val(x):
    if isinstance(x, tuple):
        return "[" + ", ".join(pp_val(y) for y in x) + "]"
    return f"{x:g}" if isinstance(x, float) else str(x)


# ------------------------------------------------------------------------------------------------ running
class Machine:
    def __init__(self, prog, crate=CRATE):
        self.prog, self.crate = prog, crate
        self.functions = set()
        self.outcomes = 0
        self.nobl = 0

    def mk(self, path, variant=None, **f):
        a = self.prog.adts.get((self.crate, path))
        if a is None:
            raise Giveup(f"type {path} is gone")
        for vi, v in enumerate(a["variants"]):
            if variant is None or v["name"] == variant:
                fs = []
                for n, ty in v["fields"]:
                    if n in f:
                        fs.append(f.pop(n))
                    else:
                        fs.append(self.default(ty, path, n))
                if f:
                    raise Giveup(f"{path} has no field {sorted(f)}")
                return adt(path, vi, v["name"], tuple(fs))
        raise Giveup(f"{path} has no variant {variant}")

    def default(self, ty, path, n):
        if ty.startswith("std::vec::Vec"):
            return mkseq(())
        if ty.startswith("std::collections::HashMap"):
            return hmap(())
        if ty.startswith("std::option::Option"):
            return NONE
        if ty == "std::string::String":
            return mk("str", "")
        if ty in ("bool",) or ty in RANGES:
            return I(0)
        raise Giveup(f"no default for {path}.{n}: {ty}")

    def field(self, v, path, name):
        a = self.prog.adts.get((self.crate, path))
        for i, (n, ty) in enumerate(a["variants"][0]["fields"]):
            if n == name:
                return v.a[3][i]
        raise Giveup(f"{path} has no field {name}")

    def call(self, path, st, args, opts=None):
        """[(state, value)], interpreter"""
        b = self.prog.body(self.crate, path)
        if b is None:
            raise Giveup(f"function {path} is gone")
        I_ = CInterp(self.prog, self.crate, opts=dict(opts or {}))
        I_.fnstack.append(path)
        outs = I_.run_body(b, st.copy(), "top/" + path.split("::")[-1], args)
        self.functions |= {path} | I_.inlined
        self.outcomes += len(outs)
        self.nobl += I_.nobl
        return outs, I_


def S(x):
    return mk("str", x)


def resolve(st, I_, v, depth=0):
    """replace references by the values they point to"""
    return I_.freeze(st, v)


PANIC_IGNORED = ("sign-cast", "trunc-cast")


def panic_conditions(kind, atoms):
    """extra conditions under which the unproved obligation really fails; None: not a panic"""
    if kind in PANIC_IGNORED:
        return None
    if kind == "bounds" and len(atoms) == 2:
        return [ge0(sub(atoms[1], atoms[0]))]
    if kind in ("slice-order", "clamp") and len(atoms) == 2:
        return [ge0(sub(sub(atoms[0], atoms[1]), I(1)))]
    if kind == "slice-end" and len(atoms) == 2:
        return [ge0(sub(sub(atoms[0], atoms[1]), I(1)))]
    if kind in ("div0", "rem0") and len(atoms) == 1 and atoms[0].op != "opaque":
        return [eq0(atoms[0])]
    if kind.startswith("underflow") and len(atoms) == 2:
        return [ge0(sub(sub(atoms[1], atoms[0]), I(1)))]
    if kind in ("insert", "remove", "copy-len", "map-index", "panic", "unwrap", "slice") or kind == "bounds":
        return []
    return None
