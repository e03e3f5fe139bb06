"""Hash-consed value terms (global value numbering) with a linear normal form for integers."""
import itertools

INF = float("inf")
_tab = {}
_cnt = itertools.count()
TYOF = {}          # term -> rust integer type (static, registered when a typed place is read)
RANGES = {
    "u8": (0, 2**8 - 1), "u16": (0, 2**16 - 1), "u32": (0, 2**32 - 1), "u64": (0, 2**64 - 1), "u128": (0, 2**128 - 1),
    "usize": (0, 2**64 - 1), "i8": (-2**7, 2**7 - 1), "i16": (-2**15, 2**15 - 1), "i32": (-2**31, 2**31 - 1),
    "i64": (-2**63, 2**63 - 1), "i128": (-2**127, 2**127 - 1), "isize": (-2**63, 2**63 - 1), "bool": (0, 1),
    "char": (0, 0x10FFFF),
}
INTS = set(RANGES) - {"bool", "char"}
UNSIGNED = {"u8", "u16", "u32", "u64", "u128", "usize"}
# sizes, lengths and tensor dimensions fit in isize (assumption stated in DESIGN.md)
SIZE_MAX = 2**63 - 1


class T:
    __slots__ = ("op", "a", "id", "_free", "_atoms")

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


def mk(op, *a):
    k = (op,) + a
    t = _tab.get(k)
    if t is None:
        if op in _FOLD or op[:2] == "f.":
            t = _fold(op, a)
            if t is not None:
                _tab[k] = t
                return t
        t = T()
        t.op, t.a, t.id = op, a, next(_cnt)
        t._free = None
        t._atoms = None
        _tab[k] = t
    return t


def I(n):
    return mk("int", int(n))


_FOLD = {"i2f", "f2i", "f32", "fneg", "fAdd", "fSub", "fMul", "fDiv", "fRem", "fcmp"}


def _fold(op, a):
    """a floating-point operation on constants is a constant"""
    xs = a[1:] if op in ("f2i", "fcmp") else a
    if op == "f.powf" and a[0].op == "fc" and float(a[0].a[0]) == 1.0:
        return a[0]         # for every exponent, NaN included
    if not xs or any(not isinstance(x, T) or x.op not in ("fc", "int") for x in xs) or op != "i2f" and not any(x.op == "fc" for x in xs):
        return None
    import scen
    t = T()
    t.op, t.a, t.id = op, a, -1
    try:
        v = scen.ev(t, {})
    except (scen.Uneval, OverflowError, ValueError):
        return None
    if isinstance(v, bool):
        return I(1 if v else 0)
    if isinstance(v, int):
        return I(v)
    return mk("fc", repr(float(v))) if v == v else None


UNIT = mk("unit")
TRUE, FALSE = I(1), I(0)


def lin(t):
    """(const, {atom: coef}) view of an integer term."""
    if t.op == "int":
        return t.a[0], {}
    if t.op == "L":
        return t.a[0], dict(t.a[1])
    return 0, {t: 1}


def mklin(c, d):
    d = {k: v for k, v in d.items() if v != 0}
    if not d:
        return I(c)
    if c == 0 and len(d) == 1:
        (k, v), = d.items()
        if v == 1:
            return k
    return mk("L", c, tuple(sorted(d.items(), key=lambda kv: kv[0].id)))


def add(x, y):
    c1, d1 = lin(x)
    c2, d2 = lin(y)
    for k, v in d2.items():
        d1[k] = d1.get(k, 0) + v
    return mklin(c1 + c2, d1)


def scale(x, n):
    c, d = lin(x)
    return mklin(c * n, {k: v * n for k, v in d.items()})


def neg(x):
    return scale(x, -1)


def sub(x, y):
    return add(x, neg(y))


def _monos(t):
    """linear term -> list of (coef, tuple of factor atoms)"""
    c, d = lin(t)
    out = [(c, ())] if c else []
    for k, v in d.items():
        out.append((v, k.a if k.op == "mul" else (k,)))
    return out


def mul(x, y):
    if x.op == "int":
        return scale(y, x.a[0])
    if y.op == "int":
        return scale(x, y.a[0])
    mx, my = _monos(x), _monos(y)
    if len(mx) * len(my) > 24:
        a, b = sorted((x, y))
        return mk("mul", a, b)
    c0, d = 0, {}
    for c1, f1 in mx:
        for c2, f2 in my:
            fs = tuple(sorted(f1 + f2))
            if not fs:
                c0 += c1 * c2
            else:
                at = fs[0] if len(fs) == 1 else mk("mul", *fs)
                d[at] = d.get(at, 0) + c1 * c2
    return mklin(c0, d)


def div(x, y):
    if y.op == "int" and y.a[0] == 1:
        return x
    if x.op == "int" and y.op == "int" and y.a[0] != 0:
        q = abs(x.a[0]) // abs(y.a[0])
        return I(q if (x.a[0] >= 0) == (y.a[0] > 0) else -q)
    return mk("div", x, y)


def rem(x, y):
    if y.op == "int" and abs(y.a[0]) == 1:
        return I(0)
    if x.op == "int" and y.op == "int" and y.a[0] != 0:
        r = abs(x.a[0]) % abs(y.a[0])
        return I(r if x.a[0] >= 0 else -r)
    return mk("rem", x, y)


def mx(x, y):
    if x is y:
        return x
    if x.op == "int" and y.op == "int":
        return I(max(x.a[0], y.a[0]))
    a, b = sorted((x, y))
    return mk("max", a, b)


def mn(x, y):
    if x is y:
        return x
    if x.op == "int" and y.op == "int":
        return I(min(x.a[0], y.a[0]))
    a, b = sorted((x, y))
    return mk("min", a, b)


# booleans ---------------------------------------------------------------------------------------
def ge0(t):
    if t.op == "int":
        return TRUE if t.a[0] >= 0 else FALSE
    return mk("ge0", t)


def eq0(t):
    if t.op == "int":
        return TRUE if t.a[0] == 0 else FALSE
    n = neg(t)
    if n.id < t.id:
        t = n
    return mk("eq0", t)


def bnot(t):
    if t.op == "int":
        return FALSE if t.a[0] else TRUE
    if t.op == "not":
        return t.a[0]
    if t.op == "ge0":
        return ge0(sub(I(-1), t.a[0]))
    return mk("not", t)


def band(x, y):
    if x.op == "int":
        return y if x.a[0] else FALSE
    if y.op == "int":
        return x if y.a[0] else FALSE
    return mk("and", *sorted((x, y)))


def bor(x, y):
    return bnot(band(bnot(x), bnot(y)))


# operators that bind a position symbol, and the argument index holding it
BINDER = {"prod": 2, "sum": 2, "fold": 3, "fmaxof": 3, "fsum": 3, "cmap": 2, "any": 1, "all": 1, "optmax": 2, "optmin": 2, "optlast": 2}


def ssel_eq(x, y):
    """equality of strings when one of them ranges over a finite table (ssel(index, table)); None when neither does"""
    if x.op != "ssel":
        x, y = y, x
    if x.op != "ssel":
        return None
    if x is y:
        return TRUE
    r = FALSE
    if y.op == "str":
        for k, n in enumerate(x.a[1]):
            if n == y.a[0]:
                r = bor(r, eq0(sub(x.a[0], I(k))))
        return r
    if y.op == "ssel":
        if x.a[1] == y.a[1]:
            return eq0(sub(x.a[0], y.a[0]))
        for k, n in enumerate(x.a[1]):
            for j, w in enumerate(y.a[1]):
                if n == w:
                    r = bor(r, band(eq0(sub(x.a[0], I(k))), eq0(sub(y.a[0], I(j)))))
        return r
    return None


def subst(t, m, memo=None):
    """Rebuild t with terms replaced by map m."""
    if memo is None:
        memo = {}
    if t in m:
        return m[t]
    if t in memo:
        return memo[t]
    if t.op in ("int", "sym", "str", "bytes", "unit", "fn"):
        return t

    bp = BINDER.get(t.op)
    if bp is not None and t.a[bp] in m:
        m = {k: v for k, v in m.items() if k is not t.a[bp]}
        if not m:
            return t
        memo = {}
    elif bp is not None and t.op != "vec":
        # the bound position is not a free occurrence
        pass

    def s(x):
        if isinstance(x, T):
            return subst(x, m, memo)
        if isinstance(x, tuple) and len(x) == 4 and x[0] == "m" and x[3] is not None and x[3] in m:
            m2 = {k: v for k, v in m.items() if k is not x[3]}
            return ("m", s(x[1]), tuple(subst(y, m2) for y in x[2]) if m2 else x[2], x[3])
        if isinstance(x, tuple):
            return tuple(s(y) for y in x)
        return x

    if t.op == "ssel":
        i = s(t.a[0])
        r = mk("str", t.a[1][i.a[0]]) if i.op == "int" and 0 <= i.a[0] < len(t.a[1]) else mk("ssel", i, t.a[1])
    elif t.op == "L":
        r = I(t.a[0])
        for k, v in t.a[1]:
            r = add(r, scale(s(k), v))
    elif t.op == "mul":
        r = I(1)
        for k in t.a:
            r = mul(r, s(k))
    elif t.op == "div":
        r = div(s(t.a[0]), s(t.a[1]))
    elif t.op == "rem":
        r = rem(s(t.a[0]), s(t.a[1]))
    elif t.op == "max":
        r = mx(s(t.a[0]), s(t.a[1]))
    elif t.op == "min":
        r = mn(s(t.a[0]), s(t.a[1]))
    elif t.op == "ge0":
        r = ge0(s(t.a[0]))
    elif t.op == "eq0":
        r = eq0(s(t.a[0]))
    elif t.op == "not":
        r = bnot(s(t.a[0]))
    elif t.op == "len":
        r = vlen(s(t.a[0]))
    elif t.op == "elt":
        r = velt(s(t.a[0]), s(t.a[1]))
    elif t.op == "fld":
        r = fld(s(t.a[0]), t.a[1], t.a[2])
    elif t.op == "dc":
        r = dc(s(t.a[0]), t.a[1], t.a[2])
    elif t.op == "vec":
        r = vec(tuple(s(x) for x in t.a[0]))
    else:
        r = mk(t.op, *[s(x) for x in t.a])
    if t in TYOF and r not in TYOF and r.op not in ("int", "L"):
        TYOF[r] = TYOF[t]
    memo[t] = r
    return r


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    if t in seen:
        return
    seen.add(t)
    yield t
    st = [t.a]
    while st:
        x = st.pop()
        for y in x:
            if isinstance(y, T):
                yield from subterms(y, seen)
            elif isinstance(y, tuple):
                st.append(y)


def contains(t, pred):
    return any(pred(x) for x in subterms(t))


# structured values ------------------------------------------------------------------------------
def fld(b, i, n=None):
    if n is not None and (n.isdigit() or n == ""):
        n = None
    if b.op in ("tuple", "closure_env"):
        return b.a[0][i]
    if b.op == "adt":
        return b.a[3][i]
    if b.op == "closure":
        return b.a[1][i]
    if b.op == "upd":
        for (k, v) in b.a[1]:
            if k == i:
                return v
        return fld(b.a[0], i, n)
    if b.op == "dc" and b.a[0].op == "adt":
        return b.a[0].a[3][i]
    return mk("fld", b, i, n)


def dc(b, vi, vn):
    if b.op == "adt":
        return b
    return mk("dc", b, vi, vn)


def adt(path, vi, vn, fields):
    return mk("adt", path, vi, vn, tuple(fields))


def Some(x):
    return adt("std::option::Option", 1, "Some", (x,))


NONE = adt("std::option::Option", 0, "None", ())


def Ok(x):
    return adt("std::result::Result", 0, "Ok", (x,))


def Err(x):
    return adt("std::result::Result", 1, "Err", (x,))


def tup(*xs):
    return mk("tuple", tuple(xs))


def _win(p):
    if p[0] == "v":
        return p
    if p[0] == "e" and p[1].op == "elt":
        return ("v", p[1].a[0], p[1].a[1], I(1))
    return None


def vec(parts):
    """parts: ('e', T) single element | ('m', lenT, (elem alternatives)) segment of lenT elements |
    ('v', T, off, lenT) window [off, off+len) of another vector."""
    out = []
    for p in parts:
        if p[0] == "m" and p[1].op == "int" and p[1].a[0] == 0:
            continue
        if p[0] == "v" and p[3].op == "int" and p[3].a[0] == 0:
            continue
        if p[0] == "v" and p[1].op == "zenc" and p[2].op == "int" and 0 < p[2].a[0] <= 4 and len(out) >= p[2].a[0]:
            k = p[2].a[0]
            if all(out[-k + j][0] == "e" and out[-k + j][1] is velt(p[1], I(j)) for j in range(k)):
                del out[-k:]
                p = ("v", p[1], I(0), add(p[3], I(k)))
        if out:
            l, r = _win(out[-1]), _win(p)
            if l and r and l[1] is r[1] and add(l[2], l[3]) is r[2]:
                out[-1] = ("v", l[1], l[2], add(l[3], r[3]))
                continue
        out.append(p)
    out = [("e", velt(p[1], p[2])) if p[0] == "v" and p[3] is I(1) else p for p in out]
    if len(out) == 1 and out[0][0] == "v":
        p = out[0]
        if p[2] is I(0) and p[3] is vlen(p[1]):
            return p[1]
    return mk("vec", tuple(out))


def parts(v):
    if v.op == "vec":
        return v.a[0]
    if v.op == "arr":
        return tuple(("e", x) for x in v.a[0])
    if v.op == "bytes":
        return tuple(("e", I(x)) for x in v.a[0])
    return (("v", v, I(0), vlen(v)),)


def plen(p):
    return I(1) if p[0] == "e" else p[1] if p[0] == "m" else p[3]


def vlen(v):
    if v.op in ("vec",):
        r = I(0)
        for p in v.a[0]:
            r = add(r, plen(p))
        return r
    if v.op == "arr":
        return I(len(v.a[0]))
    if v.op in ("bytes", "str"):
        return I(len(v.a[0]))
    if v.op == "rep":
        return v.a[1]
    if v.op in ("vset",):
        return vlen(v.a[0])
    if v.op == "reord":
        return vlen(v.a[1])
    if v.op in ("le", "be", "ne_"):
        return I(v.a[0])
    t = mk("len", v)
    TYOF[t] = "usize"
    return t


def has_pos(t):
    return contains(t, lambda y: y.op == "sym" and isinstance(y.a[0], str) and (y.a[0].startswith("pos@") or "phi:" in y.a[0]))


def melt(p, i):
    """element i of an 'm' part with one template"""
    if p[3] is not None:
        return subst(p[2][0], {p[3]: i})
    return p[2][0]


def velt(v, i):
    if v.op == "vset":
        if v.a[1] is i:
            return v.a[2]
        d = sub(v.a[1], i)
        if d.op == "int" and d.a[0] != 0:
            return velt(v.a[0], i)
        return mk("elt", v, i)
    if v.op == "rep":
        return v.a[0]
    if v.op == "zenc" and i.op == "int" and 0 <= i.a[0] < 4:
        return I((0x28, 0xB5, 0x2F, 0xFD)[i.a[0]])      # zstd frames start with their magic
    if v.op in ("arr", "vec", "bytes"):
        rest = i
        for p in parts(v):
            l = plen(p)
            if rest.op == "int" and l.op == "int":
                if rest.a[0] < l.a[0]:
                    if p[0] == "e":
                        return p[1]
                    if p[0] == "v":
                        return velt(p[1], add(p[2], rest))
                    if p[0] == "m" and len(p[2]) == 1 and (p[3] is not None or not has_pos(p[2][0])):
                        return melt(p, rest)
                    break
                rest = I(rest.a[0] - l.a[0])
                continue
            # symbolic: only resolvable when this is the only remaining part
            if len(parts(v)) == 1:
                if p[0] == "v":
                    return velt(p[1], add(p[2], rest))
                if p[0] == "m" and len(p[2]) == 1 and (p[3] is not None or not has_pos(p[2][0])):
                    return melt(p, rest)
            d = sub(rest, l)
            if d.op == "int" and d.a[0] >= 0:
                rest = d
                continue
            break
    return mk("elt", v, i)


def slice_of(v, off, ln):
    if off is I(0) and ln is vlen(v):
        return v
    ps = parts(v)
    if len(ps) == 1 and ps[0][0] == "v":
        p = ps[0]
        return vec((("v", p[1], add(p[2], off), ln),))
    rest, cur = list(ps), off
    while rest and cur is not I(0):
        d = sub(cur, plen(rest[0]))
        if not _nonneg(d):
            break
        rest.pop(0)
        cur = d
    if rest and cur is not I(0) and rest[0][0] == "v" and _nonneg(sub(plen(rest[0]), cur)):
        p = rest[0]
        rest[0] = ("v", p[1], add(p[2], cur), sub(p[3], cur))
        cur = I(0)
    if cur is I(0):
        need, out = ln, []
        for p in rest:
            if need is I(0):
                break
            d = sub(need, plen(p))
            if _nonneg(d):
                out.append(p)
                need = d
            elif p[0] == "v" and _nonneg(sub(plen(p), need)):
                out.append(("v", p[1], p[2], need))
                need = I(0)
            else:
                break
        if need is I(0):
            return vec(tuple(out))
    return vec((("v", v, off, ln),))


def _nonneg(t):
    """syntactically non-negative"""
    if t.op == "int":
        return t.a[0] >= 0
    c, d = lin(t)
    return c >= 0 and all(k >= 0 and (a.op == "len" or TYOF.get(a) in ("usize", "u64", "u32", "u8")) for a, k in d.items())


def show(t, d=0):
    if d > 14:
        return "…"
    s = lambda x: show(x, d + 1)
    o, a = t.op, t.a
    if o == "int":
        return str(a[0])
    if o == "L":
        out = []
        for k, v in a[1]:
            out.append((s(k) if v == 1 else f"-{s(k)}" if v == -1 else f"{v}*{s(k)}"))
        if a[0]:
            out.append(str(a[0]))
        return "(" + " + ".join(out).replace("+ -", "- ") + ")"
    if o == "sym":
        return str(a[0])
    if o == "len":
        return f"len({s(a[0])})"
    if o == "elt":
        return f"{s(a[0])}[{s(a[1])}]"
    if o == "fld":
        return f"{s(a[0])}.{a[2] if a[2] is not None else a[1]}"
    if o == "dc":
        return f"{s(a[0])}@{a[2]}"
    if o == "vref":
        return "&" + s(a[0])
    if o == "adt":
        return f"{a[2]}({', '.join(map(s, a[3]))})"
    if o == "tuple":
        return "(" + ", ".join(map(s, a[0])) + ")"
    if o == "str":
        return repr(a[0])
    if o == "mul":
        return "*".join(map(s, a))
    if o == "div":
        return f"({s(a[0])} / {s(a[1])})"
    if o == "vec":
        out = []
        for p in a[0]:
            if p[0] == "e":
                out.append(s(p[1]))
            elif p[0] == "m":
                out.append("{" + "|".join(map(s, p[2])) + "}*" + s(p[1]))
            else:
                out.append(f"{s(p[1])}[{s(p[2])};+{s(p[3])}]")
        return "vec[" + ", ".join(out) + "]"

    def f(x):
        if isinstance(x, T):
            return s(x)
        if isinstance(x, tuple):
            return "(" + ",".join(map(f, x)) + ")"
        return str(x)
    return f"{o}<{', '.join(map(f, a))}>"
