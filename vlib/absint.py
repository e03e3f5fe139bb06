"""Abstract interpreter over MIR.

Domain: per control point a small set of states (trace partitioning by enum variant, joined past a
bound), each = environment of value numbers (terms.py) + conjunction of linear inequalities over
them (weakly relational) + variant/boolean facts + universally quantified element facts.
Loops are solved by fixpoint with widening to phi symbols; local callees and closures are inlined,
external callees are modelled in models.py or treated as unknown.  No path is enumerated to a
solver and nothing is executed: entailment is bounded Fourier-Motzkin elimination on the facts.
"""
import struct, sys
from terms import *
import terms

sys.setrecursionlimit(20000)
MAXSTATES = 10
MAXDEPTH = 9


class Budget(Exception):
    pass


class State:
    __slots__ = ("env", "ge", "ne", "bl", "va", "uni", "log", "_b", "_pc")

    def __init__(s):
        s.env, s.ge, s.ne, s.bl, s.va, s.uni, s.log = {}, frozenset(), frozenset(), {}, {}, frozenset(), ()
        s._b = None
        s._pc = None

    def copy(s):
        n = State.__new__(State)
        n.env, n.ge, n.ne, n.bl, n.va, n.uni, n.log = dict(s.env), s.ge, s.ne, dict(s.bl), dict(s.va), s.uni, s.log
        n._b, n._pc = s._b, s._pc
        return n

    # -- facts ---------------------------------------------------------------------------------
    def _inv(s):
        s._b = None
        s._pc = None

    def bounds(s):
        if s._b is None:
            b = {}
            for L in s.ge:
                c, d = lin(L)
                if len(d) == 1:
                    (a, k), = d.items()
                    lo, hi = b.get(a, (None, None))
                    if k > 0:
                        v = -(c // k)        # a >= -c/k  -> ceil(-c/k)
                        v = -((c) // k)
                        lo = v if lo is None else max(lo, v)
                    else:
                        v = c // (-k)
                        hi = v if hi is None else min(hi, v)
                    b[a] = (lo, hi)
            s._b = b
        return s._b

    def abound(s, a, depth=2):
        lo, hi = s.bounds().get(a, (None, None))
        ty = TYOF.get(a)
        tlo, thi = (None, None)
        if ty in RANGES:
            tlo, thi = RANGES[ty]
            if ty == "usize":
                thi = SIZE_MAX
        if a.op == "len":
            tlo, thi = (9 if a.a[0].op == "zenc" else 0), SIZE_MAX
        if a.op == "discr":
            tlo = 0
        if depth > 0:
            if a.op == "div":
                la, ha = s.ival(a.a[0], depth - 1)
                lb, hb = s.ival(a.a[1], depth - 1)
                if (la is None or la < 0) and _quick(s, a.a[0]):
                    la = 0
                if la is not None and la >= 0 and lb is not None and lb >= 1:
                    tlo = max(0 if tlo is None else tlo, 0 if hb is None else la // hb)
                    if ha is not None:
                        thi = ha // lb if thi is None else min(thi, ha // lb)
            elif a.op == "rem":
                la, ha = s.ival(a.a[0], depth - 1)
                lb, hb = s.ival(a.a[1], depth - 1)
                if la is not None and la >= 0:
                    tlo = 0
                    if hb is not None and hb > 0:
                        thi = hb - 1 if thi is None else min(thi, hb - 1)
            elif a.op == "mul":
                l, h = 1, 1
                for f in a.a:
                    fl, fh = s.ival(f, depth - 1)
                    if fl is None or fl < 0:
                        l = None
                        break
                    l *= fl
                    h = None if (h is None or fh is None) else h * fh
                if l is not None:
                    tlo = l if tlo is None else max(tlo, l)
                    if h is not None:
                        thi = h if thi is None else min(thi, h)
            elif a.op in ("max", "min"):
                l1, h1 = s.ival(a.a[0], depth - 1)
                l2, h2 = s.ival(a.a[1], depth - 1)
                if a.op == "max":
                    cl = [x for x in (l1, l2) if x is not None]
                    if cl:
                        tlo = max(cl + ([tlo] if tlo is not None else []))
                    if h1 is not None and h2 is not None:
                        thi = max(h1, h2) if thi is None else min(thi, max(h1, h2))
                else:
                    ch = [x for x in (h1, h2) if x is not None]
                    if ch:
                        thi = min(ch + ([thi] if thi is not None else []))
                    if l1 is not None and l2 is not None:
                        tlo = min(l1, l2) if tlo is None else max(tlo, min(l1, l2))
        if a.op in ("ge0", "eq0", "not", "and", "eq", "fcmp", "any", "all"):
            tlo, thi = 0, 1
        lo = tlo if lo is None else lo if tlo is None else max(lo, tlo)
        hi = thi if hi is None else hi if thi is None else min(hi, thi)
        return lo, hi

    def ival(s, t, depth=2):
        c, d = lin(t)
        lo = hi = c
        for a, k in d.items():
            al, ah = s.abound(a, depth)
            if k < 0:
                al, ah = ah, al
            lo = None if lo is None or al is None else lo + k * al
            hi = None if hi is None or ah is None else hi + k * ah
            if lo is None and hi is None:
                break
        return lo, hi

    def axioms(s, a):
        out = []
        if a.op in ("max", "min"):
            x, y = a.a
            sg = 1 if a.op == "max" else -1
            out += [scale(sub(a, x), sg), scale(sub(a, y), sg)]
            # max(x, y) is one of the two: when x >= y it equals x
            for p, q in ((x, y), (y, x)):
                if _quick(s, scale(sub(p, q), sg)):
                    out.append(scale(sub(p, a), sg))
        elif a.op == "div":
            x, y = a.a
            if s.ival(x)[0] is not None and s.ival(x)[0] >= 0 or _quick(s, x):
                ly = s.ival(y)[0]
                if ly is not None and ly >= 1:
                    if y.op == "int":
                        out += [sub(x, scale(a, y.a[0])), sub(add(scale(a, y.a[0]), I(y.a[0] - 1)), x)]
                    else:
                        out += [sub(x, a), sub(x, mul(a, y))]
        elif a.op == "rem":
            x, y = a.a
            if s.ival(x)[0] is not None and s.ival(x)[0] >= 0 or _quick(s, x):
                out.append(sub(x, a))
                ly = s.ival(y)[0]
                if ly is not None and ly >= 1 or _quick(s, sub(y, I(1))):
                    out.append(sub(sub(y, I(1)), a))
        elif a.op == "mul":
            lows = [s.ival(f)[0] for f in a.a]
            if all(l is not None and l >= 0 for l in lows):
                for i, f in enumerate(a.a):
                    rest = [g for j, g in enumerate(a.a) if j != i]
                    if all(lows[j] >= 1 for j in range(len(a.a)) if j != i):
                        out.append(sub(a, f))
        return out

    def proves(s, L, depth=4):
        """L >= 0 entailed?"""
        if L.op == "int":
            return L.a[0] >= 0
        if s._pc is None:
            s._pc = {}
        k = (L, depth)
        r = s._pc.get(k)
        if r is None:
            s._pc[k] = False
            r = s._prove(L, depth, set())
            s._pc[k] = r
        return r

    def _prove(s, L, depth, seen):
        lo, _ = s.ival(L)
        if lo is not None and lo >= 0:
            return True
        if depth == 0 or L in seen:
            return False
        seen = seen | {L}
        c, d = lin(L)
        facts = s.ge
        cand = []
        for a, k in d.items():
            fs = [f for f in facts if f.op != "int" and _coef(f, a) * k > 0 and len(lin(f)[1]) > 1]
            fs += [f for f in s.axioms(a) if _coef(f, a) * k > 0]
            fs += s.inst(a, k)
            for f in fs:
                cand.append((len(lin(f)[1]), f.id, a, k, f))
        cand.sort(key=lambda x: (x[0], x[1]))
        for _, _, a, k, f in cand[:40]:
            ca = _coef(f, a)
            # L*|ca| - |k|*f  >= 0  suffices
            L2 = sub(scale(L, abs(ca)), scale(f, abs(k)))
            g = _gcd(L2)
            if g > 1:
                c2, d2 = lin(L2)
                L2 = mklin(c2 // g, {x: y // g for x, y in d2.items()})
            if L2.op == "int":
                if L2.a[0] >= 0:
                    return True
                continue
            if len(lin(L2)[1]) > len(d) + 1:
                continue
            if s._prove(L2, depth - 1, seen):
                return True
        return False

    def inst(s, a, k):
        """instances of universal facts about atom a (an element read)."""
        out = []
        if not s.uni:
            return out
        for (pos, F) in s.uni:
            for at in lin(F)[1]:
                if at is a:
                    continue
                m = _match(at, a, pos)
                if m is not None:
                    G = subst(F, {pos: m})
                    if _coef(G, a) * k > 0:
                        out.append(G)
        return out

    def add_ge(s, L):
        """assume L >= 0; False if contradictory"""
        if L.op == "int":
            return L.a[0] >= 0
        if L in s.ge:
            return True
        if s.proves(sub(I(-1), L), 3):
            return False
        g = _gcd(L, False)
        if g > 1:
            c, d = lin(L)
            L = mklin(c // g if c % g == 0 else (c // g), {x: y // g for x, y in d.items()})
        s.ge = s.ge | {L}
        s._inv()
        for n in list(s.ne):
            if n is L or neg(n) is L:
                s.ge = s.ge | {sub(L, I(1))}
                s._inv()
        return True

    def add_ne(s, L):
        if L.op == "int":
            return L.a[0] != 0
        if s.proves(L, 3):
            if s.proves(neg(L), 3):
                return False
            return s.add_ge(sub(L, I(1)))
        if s.proves(neg(L), 3):
            return s.add_ge(sub(neg(L), I(1)))
        s.ne = s.ne | {L}
        return True

    def nonzero(s, L):
        if L.op == "int":
            return L.a[0] != 0
        if L in s.ne or neg(L) in s.ne:
            return True
        return s.proves(sub(L, I(1))) or s.proves(sub(neg(L), I(1)))

    def known(s, b):
        """truth value of boolean term b, or None"""
        if b.op == "int":
            return bool(b.a[0])
        if b in s.bl:
            return s.bl[b]
        if b.op == "not":
            k = s.known(b.a[0])
            return None if k is None else not k
        if b.op == "ge0":
            if s.proves(b.a[0], 3):
                return True
            if s.proves(sub(I(-1), b.a[0]), 3):
                return False
            return None
        if b.op == "eq0":
            x = b.a[0]
            if x.op == "L" or True:
                if s.proves(x, 3) and s.proves(neg(x), 3):
                    return True
                if s.nonzero(x):
                    return False
            return None
        if b.op == "and":
            ks = [s.known(x) for x in b.a]
            if any(k is False for k in ks):
                return False
            if all(k is True for k in ks):
                return True
        if b.op == "fcmp" and b.a[0] in ("Lt", "Le"):
            return s.fknown(b)
        return None

    def fknown(s, b):
        """a comparison of x with a constant, from the recorded comparisons of x with constants (NaN fails every comparison)"""
        op, x, y = b.a
        if x.op == "fc" and y.op != "fc":
            up, c, x = False, float(x.a[0]), y          # c op x
        elif y.op == "fc" and x.op != "fc":
            up, c = True, float(y.a[0])                 # x op c
        else:
            return None
        if c != c:
            return False
        if x.op == "i2f" and abs(c) < 2**50:
            i = x.a[0]
            import math
            if up:
                k = math.floor(c) - (op == "Lt" and c == math.floor(c))
                q = sub(I(k), i)                        # x <= k
            else:
                k = math.ceil(c) + (op == "Lt" and c == math.ceil(c))
                q = sub(i, I(k))
            if s.proves(q, 3):
                return True
            if s.proves(sub(I(-1), q), 3):
                return False
            return None
        lo = hi = wlo = whi = None      # (value, strict): lo/hi exclude NaN, wlo/whi hold unless NaN
        for f, v in s.bl.items():
            if f.op != "fcmp" or f.a[0] not in ("Lt", "Le") or f.a[1] is not x and f.a[2] is not x:
                continue
            st = f.a[0] == "Lt"
            o = f.a[2] if f.a[1] is x else f.a[1]
            if o.op != "fc":
                continue
            k = float(o.a[0])
            if k != k:
                continue
            above = (f.a[2] is x) == v                  # x above k
            e = (k, st if v else not st)
            if above:
                if wlo is None or (k, e[1]) > wlo:
                    wlo = e
                if v and (lo is None or e > lo):
                    lo = e
            else:
                n = (k, e[1])
                better = lambda a: a is None or n[0] < a[0] or n[0] == a[0] and n[1] and not a[1]
                if better(whi):
                    whi = n
                if v and better(hi):
                    hi = n
        if x.op == "f.abs" and (wlo is None or wlo[0] < 0):
            wlo = (0.0, False)
        nan_free = lo is not None or hi is not None
        if nan_free:
            lo = lo if wlo is None or lo is not None and lo >= wlo else wlo
            hi = hi if whi is None or hi is not None and hi <= whi else whi
        sat = lambda a, side: a is not None and (a[0] < c or a[0] == c and (op == "Le" or a[1])) if side == "hi" else a is not None and (a[0] > c or a[0] == c and (op == "Le" or a[1]))
        vio = lambda a, side: a is not None and (a[0] > c or a[0] == c and (op == "Lt" or a[1])) if side == "lo" else a is not None and (a[0] < c or a[0] == c and (op == "Lt" or a[1]))
        if up:
            if nan_free and sat(hi, "hi"):
                return True
            if vio(wlo, "lo"):
                return False
        else:
            if nan_free and sat(lo, "lo"):
                return True
            if vio(whi, "hi"):
                return False
        return None

    def assume(s, b, val=True):
        if b.op == "int":
            return bool(b.a[0]) == val
        if b in s.bl:
            return s.bl[b] == val
        if b.op == "not":
            return s.assume(b.a[0], not val)
        if b.op == "ge0":
            return s.add_ge(b.a[0] if val else sub(I(-1), b.a[0]))
        if b.op == "eq0":
            x = b.a[0]
            d = _discr_const(x)
            if d is not None:
                return s.assume_variant(d[0], d[1], val)
            if val:
                return s.add_ge(x) and s.add_ge(neg(x))
            return s.add_ne(x)
        if b.op == "and":
            if val:
                return all(s.assume(x, True) for x in b.a)
            ks = [s.known(x) for x in b.a]
            if all(k is True for k in ks):
                return False
            if sum(k is True for k in ks) == len(ks) - 1:
                for x, k in zip(b.a, ks):
                    if k is not True:
                        return s.assume(x, False)
        if b.op in ("any", "all"):
            # a = (iter, pos, (facts when closure false...), (facts when true))
            fs = b.a[2] if (b.op == "any" and not val) else b.a[3] if (b.op == "all" and val) else ()
            for f in fs:
                s.uni = s.uni | {(b.a[1], f)}
        s.bl[b] = val
        s._pc = None
        return True

    def assume_variant(s, x, n, val=True):
        if x.op == "adt":
            return True
        cur = s.va.get(x)
        if val:
            if cur is not None and not _va_allows(cur, n):
                return False
            s.va[x] = ("=", n)
            return True
        if cur is not None and cur[0] == "=":
            return cur[1] != n
        ex = (cur[1] if cur else frozenset()) | {n}
        uni = DISCRS.get(x)
        if uni is not None:
            left = [u for u in uni if u not in ex]
            if not left:
                return False
            if len(left) == 1:
                s.va[x] = ("=", left[0])
                return True
        s.va[x] = ("!", frozenset(ex))
        return True

    def variant(s, x):
        if x.op == "adt":
            return x.a[1]
        c = s.va.get(x)
        return c[1] if c and c[0] == "=" else None


DISCRS = {}


def _va_allows(cur, n):
    return cur[1] == n if cur[0] == "=" else n not in cur[1]


def _discr_const(x):
    """eq0 argument of the form discr(v) - c"""
    c, d = lin(x)
    if len(d) == 1:
        (a, k), = d.items()
        if a.op == "discr" and k in (1, -1):
            return a.a[0], -c * k
    return None


def _coef(f, a):
    if f is a:
        return 1
    if f.op == "L":
        for x, v in f.a[1]:
            if x is a:
                return v
    return 0


def _gcd(L, withc=True):
    from math import gcd
    c, d = lin(L)
    g = 0
    for v in d.values():
        g = gcd(g, abs(v))
    if withc:
        g = gcd(g, abs(c)) if c else g
    return g or 1


def _quick(s, L):
    return s._prove(L, 1, set())


def _match(pat, t, pos):
    """match pattern term (with variable pos) against t; returns the instance for pos or None."""
    b = {}

    def go(p, x):
        if p is pos:
            if "v" in b:
                return b["v"] is x
            b["v"] = x
            return True
        if p is x:
            return True
        if p.op == "L" and not isinstance(x, str):
            # pos + c
            c, d = lin(p)
            if set(d) == {pos} and d[pos] == 1:
                v = sub(x, I(c))
                if "v" in b:
                    return b["v"] is v
                b["v"] = v
                return True
        if p.op != x.op or len(p.a) != len(x.a):
            return False
        for u, v in zip(p.a, x.a):
            if isinstance(u, T):
                if not isinstance(v, T) or not go(u, v):
                    return False
            elif u != v:
                return False
        return True

    if go(pat, t) and "v" in b:
        return b["v"]
    return None


def sym(name, ty=None, kind="op"):
    t = mk("sym", name, kind)
    if ty in RANGES:
        TYOF[t] = ty
    return t


FREE_OPS = {"L", "mul", "div", "rem", "max", "min", "len", "elt", "fld", "dc", "deref", "mapget", "cast", "vref", "tuple",
            "discr", "i2f", "adt", "vec", "arr", "upd", "rep", "fromle"}


def is_free(t):
    """t is a function of unconstrained inputs only (no widened/unknown component)."""
    if t._free is None:
        if t.op == "sym":
            r = t.a[1] == "in"
        elif t.op in ("int", "str", "bytes", "unit", "fc", "fn"):
            r = True
        elif t.op in FREE_OPS:
            r = True
            st = [t.a]
            while st and r:
                for y in st.pop():
                    if isinstance(y, T):
                        if not is_free(y):
                            r = False
                            break
                    elif isinstance(y, tuple):
                        st.append(y)
        else:
            r = False
        t._free = r
    return t._free


def touch(t, out=None):
    """which parts of the inputs a term talks about: (container, index | 'len' | '*')"""
    out = set() if out is None else out
    if not isinstance(t, T):
        if isinstance(t, tuple):
            for y in t:
                touch(y, out)
        return out
    if t.op == "elt":
        c, i = t.a[0], t.a[1]
        out.add((c, i.a[0] if isinstance(i, T) and i.op == "int" else "?"))
        touch(i, out)
        if c.op != "sym":
            touch(c, out)
    elif t.op == "len":
        out.add((t.a[0], "len"))
        if t.a[0].op != "sym":
            touch(t.a[0], out)
    elif t.op == "fromle" and t.a[1].op == "vec":
        for p in t.a[1].a[0]:
            if isinstance(p, tuple) and p[0] == "v" and p[2].op == "int" and p[3].op == "int":
                for k in range(p[2].a[0], p[2].a[0] + p[3].a[0]):
                    out.add((p[1], k))
            else:
                touch(p, out)
    elif t.op in ("sym", "fld", "mapget", "deref"):
        out.add((t, "*"))
        for y in t.a:
            touch(y, out)
    else:
        for y in t.a:
            touch(y, out)
    return out


def related(a, b):
    ta, tb = touch(a), touch(b)
    if ta & tb:
        return True
    for c, i in ta:
        for d, j in tb:
            if c is d and ("*" in (i, j) or "?" in (i, j) and "len" not in (i, j)):
                return True
    return False


def atoms_of(t):
    """elementary input atoms a term talks about"""
    out = set()
    for x in subterms(t):
        if x.op in ("sym", "elt", "len", "fld", "mapget", "deref"):
            out.add(x)
    return out


# -------------------------------------------------------------------------------------------------
class Body:
    def __init__(self, f, crate):
        self.f = f
        self.crate = crate
        self.path = f["path"]
        self.blocks = f["blocks"]
        self.locals = f["locals"]
        self.argc = f["argc"]
        self._loops()
        self._live()

    def succ(self, i):
        t = self.blocks[i]["t"]
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            return [x[1] for x in t[2]] + [t[3]]
        if k == "drop":
            return [t[2]]
        if k == "call":
            return [t[4]] if t[4] is not None else []
        if k == "assert":
            return [t[5]]
        return []

    def _loops(self):
        n = len(self.blocks)
        self.rpo = []
        seen = set()
        st = [(0, iter(self.succ(0)))]
        seen.add(0)
        while st:
            b, it = st[-1]
            for x in it:
                if x not in seen:
                    seen.add(x)
                    st.append((x, iter(self.succ(x))))
                    break
            else:
                self.rpo.append(b)
                st.pop()
        self.rpo.reverse()
        self.order = {b: i for i, b in enumerate(self.rpo)}
        preds = {b: [] for b in self.rpo}
        for b in self.rpo:
            for x in self.succ(b):
                preds[x].append(b)
        self.preds = preds
        idom = {self.rpo[0]: self.rpo[0]}
        ch = True
        while ch:
            ch = False
            for b in self.rpo[1:]:
                ps = [p for p in preds[b] if p in idom]
                d = ps[0]
                for p in ps[1:]:
                    x, y = p, d
                    while x != y:
                        while self.order[x] > self.order[y]:
                            x = idom[x]
                        while self.order[y] > self.order[x]:
                            y = idom[y]
                    d = x
                if idom.get(b) != d:
                    idom[b] = d
                    ch = True
        self.idom = idom

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == idom[b]:
                    return False
                b = idom[b]
        self.loops = {}
        self.back = set()
        for b in self.rpo:
            for x in self.succ(b):
                if dom(x, b):
                    self.back.add((b, x))
                    body = self.loops.setdefault(x, {x})
                    wl = [b]
                    while wl:
                        y = wl.pop()
                        if y not in body:
                            body.add(y)
                            wl.extend(preds[y])
        # RPO refined so that loop bodies are contiguous is not needed: region execution filters

    def _live(self):
        """live locals at block entry; borrowed locals are always live."""
        use, dfn = {}, {}
        self.borrowed = set()
        for b in self.rpo:
            u, d = set(), set()

            def rd(l):
                if l not in d:
                    u.add(l)

            def rdp(p):
                rd(p["l"])
                for e in p["p"]:
                    if e != "*" and e[0] == "i":
                        rd(e[1])

            def rdo(o):
                if o[0] in ("cp", "mv"):
                    rdp(o[1])

            def wr(p):
                if p["p"]:
                    rdp(p)
                else:
                    d.add(p["l"])
            for s in self.blocks[b]["s"]:
                if s[0] == "=":
                    r = s[2]
                    k = r[0]
                    if k in ("use", "rep"):
                        rdo(r[1])
                    elif k == "ref":
                        rdp(r[2])
                        if not any(e == "*" for e in r[2]["p"]):
                            self.borrowed.add(r[2]["l"])
                    elif k == "cast":
                        rdo(r[2])
                    elif k == "bin":
                        rdo(r[2]); rdo(r[3])
                    elif k == "un":
                        rdo(r[2])
                    elif k == "discr":
                        rdp(r[1])
                    elif k == "agg":
                        for o in r[2]:
                            rdo(o)
                    wr(s[1])
            t = self.blocks[b]["t"]
            if t[0] == "switch":
                rdo(t[1])
            elif t[0] == "call":
                if "dyn" in t[1]:
                    rdo(t[1]["dyn"])
                for o in t[2]:
                    rdo(o)
                wr(t[3])
            elif t[0] == "assert":
                rdo(t[1])
                for o in t[4]:
                    rdo(o)
            elif t[0] == "drop":
                rdp(t[1])
            elif t[0] == "ret":
                rd(0)
            use[b], dfn[b] = u, d
        live = {b: set() for b in self.rpo}
        ch = True
        while ch:
            ch = False
            for b in reversed(self.rpo):
                o = set()
                for x in self.succ(b):
                    o |= live[x]
                n = use[b] | (o - dfn[b])
                if n != live[b]:
                    live[b] = n
                    ch = True
        for b in self.rpo:
            live[b] |= self.borrowed
            live[b].add(0)
        self.live = live


class Program:
    def __init__(self, crates):
        self.fns = {}
        self.adts = {}
        for cn, c in crates.items():
            for f in c["fns"]:
                self.fns.setdefault((cn, f["path"]), f)
            for p, a in c["adts"].items():
                self.adts[(cn, p)] = a
        self._b = {}

    def body(self, crate, path):
        k = (crate, path)
        if k not in self._b:
            f = self.fns.get(k)
            self._b[k] = Body(f, crate) if f else None
        return self._b[k]


class Obl:
    __slots__ = ("fn", "bb", "kind", "line", "file", "status", "goal", "why", "ctx", "extra")


RANK = {"proved": 0, "unknown": 1, "refuted": 2}


class Interp:
    def __init__(self, prog, crate, watch=None, opts=None):
        import models
        self.p = prog
        self.crate = crate
        self.obs = {}
        self.record = True
        self.steps = 0
        self.max_steps = 60000
        self.watch = watch or (lambda name, args: None)
        self.models = models
        self.noinline = set()
        self.opts = opts or {}
        self.maxstates = self.opts.get('maxstates', MAXSTATES)
        self.loopgroups = self.opts.get('loopgroups', 4)
        self.unrolling = 0
        self.notes = []
        self.fnstack = []
        self.inlined = set()
        self.unknown_calls = {}

    # -- obligations ---------------------------------------------------------------------------
    def oblige(self, body, bb, kind, line, goal, ok, st, atoms=(), tag=""):
        if not self.record:
            return
        if ok:
            status = "proved"
        else:
            at = set()
            free = True
            for a in atoms:
                if not is_free(a):
                    free = False
                at |= atoms_of(a)
            status = "refuted" if free else "unknown"
            why = ""
            if status == "refuted":
                # an opaque condition on the path that talks about these atoms may carry the guard
                for b, v in st.bl.items():
                    if opaque_bool(b) and (atoms_of(b) & at) and any(related(b, a) for a in atoms):
                        status = "unknown"
                        break
        k = (body.path, bb, kind, tag)
        o = self.obs.get(k)
        if o is None or RANK[status] > RANK[o.status]:
            n = Obl()
            n.fn, n.bb, n.kind, n.status, n.goal = body.path, bb, kind, status, goal
            n.file, n.line = line if isinstance(line, (list, tuple)) else ("?", line)
            n.ctx = tuple(self.fnstack)
            n.extra = tag
            self.obs[k] = n

    # -- memory --------------------------------------------------------------------------------
    def deref_val(self, st, v):
        if v.op == "ref":
            return self.read_loc(st, v.a[0], v.a[1])
        if v.op == "vref":
            return v.a[0]
        if v.op == "box":
            return v.a[0]
        return mk("deref", v)

    def read_loc(self, st, loc, path):
        v = st.env.get(loc)
        if v is None:
            v = sym(f"uninit:{loc}")
        return self.read_path(st, v, path)

    def read_path(self, st, v, path):
        for e in path:
            v = self.proj(st, v, e)
        return v

    def proj(self, st, v, e):
        if e[0] == "f":
            if v.op == "box" and e[2] is None:
                return v
            return fld(v, e[1], e[2])
        if e[0] == "d":
            return dc(v, e[1], e[2])
        if e[0] == "elt":
            return velt(v, e[1])
        if e[0] == "sl":
            return slice_of(v, e[1], e[2])
        if e[0] == "*":
            return self.deref_val(st, v)
        return mk("proj", v, str(e))

    def resolve(self, st, ctx, place):
        cur = ("loc", (ctx, place["l"]), ())
        for e in place["p"]:
            if e == "*":
                v = self.read_loc(st, cur[1], cur[2]) if cur[0] == "loc" else cur[1]
                if v.op == "ref":
                    cur = ("loc", v.a[0], v.a[1])
                elif v.op == "box" and cur[0] == "loc":
                    cur = ("loc", cur[1], cur[2] + (("*",),))
                else:
                    cur = ("val", self.deref_val(st, v))
                continue
            if e[0] == "f":
                if cur[0] == "loc" and str(cur[1][0]).startswith("heap:") and (e[2] is None or e[2] in ("value", "__0")):
                    continue        # MaybeUninit / ManuallyDrop wrappers of a heap cell
                if cur[0] == "loc":
                    bv = self.read_loc(st, cur[1], cur[2])
                    if bv.op == "ref" and str(bv.a[0][0]).startswith("heap:"):
                        continue    # Box -> Unique -> NonNull pointer fields
                pe = ("f", e[1], e[2])
            elif e[0] == "d":
                pe = ("d", e[1], e[2])
            elif e[0] == "i":
                pe = ("elt", self.typed(self.read_loc(st, (ctx, e[1]), ()), "usize"))
            elif e[0] == "ci":
                base = self.read_loc(st, cur[1], cur[2]) if cur[0] == "loc" else cur[1]
                pe = ("elt", sub(vlen(base), I(e[1])) if e[3] else I(e[1]))
            elif e[0] == "ss":
                base = self.read_loc(st, cur[1], cur[2]) if cur[0] == "loc" else cur[1]
                to = sub(vlen(base), I(e[2])) if e[3] else I(e[2])
                pe = ("sl", I(e[1]), sub(to, I(e[1])))
            else:
                pe = ("x", str(e))
            if cur[0] == "loc":
                cur = ("loc", cur[1], cur[2] + (pe,))
            else:
                cur = ("val", self.proj(st, cur[1], pe))
        return cur

    def read(self, st, ctx, place):
        c = self.resolve(st, ctx, place)
        return self.read_loc(st, c[1], c[2]) if c[0] == "loc" else c[1]

    def write_path(self, st, v, path, new):
        if not path:
            return new
        e = path[0]
        inner = self.write_path(st, self.proj(st, v, e), path[1:], new)
        if e[0] == "f":
            if v.op == "tuple":
                fs = list(v.a[0]); fs[e[1]] = inner
                return mk("tuple", tuple(fs))
            if v.op == "adt":
                fs = list(v.a[3])
                if e[1] < len(fs):
                    fs[e[1]] = inner
                    return mk("adt", v.a[0], v.a[1], v.a[2], tuple(fs))
            if v.op == "closure":
                fs = list(v.a[1]); fs[e[1]] = inner
                return mk("closure", v.a[0], tuple(fs))
            if v.op == "box":
                return mk("box", inner)
            if v.op == "upd":
                d = dict(v.a[1]); d[e[1]] = inner
                return mk("upd", v.a[0], tuple(sorted(d.items(), key=lambda x: x[0])))
            return mk("upd", v, ((e[1], inner),))
        if e[0] == "d":
            if v.op == "adt":
                return inner
            return mk("upd", v, (("d%d" % e[1], inner),))
        if e[0] == "elt":
            if v.op in ("arr",) and e[1].op == "int" and e[1].a[0] < len(v.a[0]):
                fs = list(v.a[0]); fs[e[1].a[0]] = inner
                return mk("arr", tuple(fs))
            if v.op == "vec" and e[1].op == "int":
                ps = list(v.a[0])
                i = e[1].a[0]
                if all(p[0] == "e" for p in ps[: i + 1]) and i < len(ps):
                    ps[i] = ("e", inner)
                    return vec(tuple(ps))
            if inner is self.proj(st, v, e):
                return v
            return mk("vset", v, e[1], inner)
        if e[0] == "*":
            if v.op == "box":
                return mk("box", inner)
            return sym(f"wr:{v.id}")
        if e[0] == "sl":
            vl = vlen(v)
            if v.op in ("arr", "rep", "vec") and e[1].op == "int" and e[2].op == "int" and vl.op == "int" and vl.a[0] <= 64 \
                    and vlen(inner) is e[2]:
                o, n = e[1].a[0], e[2].a[0]
                return mk("arr", tuple(velt(inner, I(k - o)) if o <= k < o + n else velt(v, I(k)) for k in range(vl.a[0])))
            return mk("vslset", v, e[1], e[2], inner)
        return sym(f"wr:{v.id}")

    def write_loc(self, st, loc, path, new):
        if path:
            v = st.env.get(loc)
            if v is None:
                v = mk("uninit")
            # writes through a reference stored inside the value
            for i, e in enumerate(path):
                if e[0] == "*":
                    inner = self.read_path(st, v, path[:i])
                    if inner.op == "ref":
                        return self.write_loc(st, inner.a[0], inner.a[1] + path[i + 1:], new)
            new = self.write_path(st, v, path, new)
        st.env[loc] = new

    def write(self, st, ctx, place, v):
        c = self.resolve(st, ctx, place)
        if c[0] == "loc":
            self.write_loc(st, c[1], c[2], v)
        # writes through symbolic pointers have no tracked target

    def typed(self, t, ty):
        if ty in RANGES and t.op not in ("int", "L") and t not in TYOF:
            TYOF[t] = ty
        return t

    # -- operands / rvalues --------------------------------------------------------------------
    def const(self, st, k, body):
        if "fnref" in k:
            fr = k["fnref"]
            return mk("fn", fr.get("rfn") or fr["fn"], fr["fn"])
        if "int" in k:
            if k.get("ty") in ("f64", "f32"):
                w = 64 if k["ty"] == "f64" else 32
                bits = int(k["int"]) % (1 << w)
                return mk("fc", repr(struct.unpack("<d" if w == 64 else "<f", bits.to_bytes(w // 8, "little"))[0]))
            return I(int(k["int"]))
        if "str" in k:
            return mk("vref", mk("str", k["str"]))
        if "bytes" in k:
            return mk("vref", mk("arr", tuple(I(x) for x in k["bytes"])))
        if "promoted" in k:
            f = self.p.fns.get((self.crate, k["of"]))
            if f and k["promoted"] < len(f.get("promoted", [])):
                return self.eval_const_body(f["promoted"][k["promoted"]], f"promoted:{k['of']}:{k['promoted']}")
            return mk("konst", k["of"], k["promoted"])
        if "item" in k:
            f = self.p.fns.get((self.crate, k["item"]))
            if f:
                return self.eval_const_body(f, "const:" + k["item"])
            return mk("konst", k["item"])
        d = k.get("dbg", "")
        ty = k["ty"]
        if ty == "()":
            return UNIT
        if ty in ("f64", "f32"):
            s = d.replace("f64", "").replace("f32", "").replace("_", "").replace("const ", "")
            try:
                return mk("fc", repr(float(s)))
            except ValueError:
                return mk("konst", d)
        if d.startswith('b"') or d.startswith('const b"'):
            import ast
            try:
                return mk("vref", mk("arr", tuple(I(x) for x in ast.literal_eval(d.replace("const ", "")))))
            except (ValueError, SyntaxError):
                return mk("vref", mk("bytesdbg", d))
        return mk("konst", d, ty)

    def eval_const_body(self, f, name):
        cache = self.p._b
        key = (self.crate, "const!", name)
        if key not in cache:
            cache[key] = sym("const:" + name)
            b = Body({**f, "path": name}, self.crate)
            rec = self.record
            self.record = False
            try:
                outs = self.run_body(b, State(), name, [], const=True)
            finally:
                self.record = rec
            if len(outs) == 1:
                st, v = outs[0]
                cache[key] = self.freeze(st, v)
        return cache[key]

    def freeze(self, st, v, depth=0):
        """turn refs into value refs (constants have no locations)."""
        if depth > 12:
            return v
        if v.op == "ref":
            return mk("vref", self.freeze(st, self.deref_val(st, v), depth + 1))
        if v.op == "vref":
            return mk("vref", self.freeze(st, v.a[0], depth + 1))
        if v.op == "arr":
            return mk("arr", tuple(self.freeze(st, x, depth + 1) for x in v.a[0]))
        if v.op == "tuple":
            return mk("tuple", tuple(self.freeze(st, x, depth + 1) for x in v.a[0]))
        if v.op == "adt":
            return mk("adt", v.a[0], v.a[1], v.a[2], tuple(self.freeze(st, x, depth + 1) for x in v.a[3]))
        return v

    def operand(self, st, ctx, o, body):
        if o[0] == "k":
            return self.const(st, o[1], body)
        return self.read(st, ctx, o[1])

    def cast_int(self, st, v, frm, to, body, bb, line):
        if v.op == "int":
            lo, hi = RANGES[to]
            n = v.a[0]
            if lo <= n <= hi:
                return v
            w = hi - lo + 1
            n = (n - lo) % w + lo
            return I(n)
        lo, hi = RANGES[to]
        fl, fh = RANGES[frm]
        if frm == "usize":
            fh = SIZE_MAX
        ok_lo = fl >= lo or st.proves(sub(v, I(lo)))
        ok_hi = fh <= hi or st.proves(sub(I(hi), v))
        if to in UNSIGNED and frm not in UNSIGNED and frm in INTS:
            self.oblige(body, bb, "sign-cast", line, f"{show(v)} as {to}: {show(v)} >= 0", ok_lo, st, (v,))
        if ok_lo and ok_hi:
            return v
        if not ok_hi and to in INTS and frm in INTS and (hi < fh):
            ih = st.ival(v)[1]
            if not (to == "usize" and ih is not None and ih <= SIZE_MAX):
                self.oblige(body, bb, "trunc-cast", line, f"{show(v)} as {to} truncates", False, st, (mk("opaque"),))
        t = mk("cast", to, frm, v)
        TYOF[t] = to
        return t

    def rvalue(self, st, ctx, r, body, bb, line, destty):
        k = r[0]
        if k == "use":
            return self.operand(st, ctx, r[1], body)
        if k == "ref":
            c = self.resolve(st, ctx, r[2])
            if c[0] == "loc":
                return mk("ref", c[1], c[2])
            v = c[1]
            if v.op == "deref":
                return v.a[0]
            return mk("vref", v)
        if k == "bin":
            return self.binop(st, ctx, r, body, bb, line)
        if k == "un":
            v = self.operand(st, ctx, r[2], body)
            if r[1] == "Not":
                if destty == "bool":
                    return bnot(v)
                return mk("bitnot", v)
            if r[1] == "Neg":
                if destty in ("f64", "f32"):
                    return mk("fneg", v)
                return neg(v)
            if r[1] == "PtrMetadata":
                return vlen(self.deref_val(st, v))
            return mk("un", r[1], v)
        if k == "cast":
            v = self.operand(st, ctx, r[2], body)
            kind, to, frm = r[1], r[3], r[4]
            if kind == "IntToInt" and to in RANGES and frm in RANGES:
                self.typed(v, frm)
                return self.cast_int(st, v, frm, to, body, bb, line)
            if kind == "IntToFloat":
                self.typed(v, frm)
                return mk("i2f", v)
            if kind == "FloatToInt":
                t = mk("f2i", to, v)
                self.typed(t, to)
                return t
            if kind == "FloatToFloat":
                return v if to == "f64" else mk("f32", v)
            if kind.startswith("PointerCoercion") or kind in ("Transmute", "PtrToPtr", "Subtype", "BoxDerefTransmute"):
                return v
            return mk("castx", kind, to, v)
        if k == "discr":
            x = self.read(st, ctx, r[1])
            signed = -1 if r[3].endswith("cmp::Ordering") else None        # the discriminants -1, 0, 1 are recorded as 255, 0, 1
            num = lambda d: -1 if signed and int(d) == 255 else int(d) - (1 << 64) if int(d) >> 63 == 1 else int(d)
            if x.op == "adt":
                for dv, vi, vn in r[2]:
                    if vi == x.a[1]:
                        return I(num(dv))
                return I(x.a[1])
            if r[2]:
                DISCRS.setdefault(x, tuple(num(d[0]) for d in r[2]))
                kv = st.va.get(x)
                if kv and kv[0] == "=":
                    return I(kv[1])
            return mk("discr", x)
        if k == "agg":
            vs = [self.operand(st, ctx, o, body) for o in r[2]]
            kd = r[1]
            if kd[0] == "tuple":
                return mk("tuple", tuple(vs)) if vs else UNIT
            if kd[0] == "array":
                return mk("arr", tuple(vs))
            if kd[0] == "adt":
                return mk("adt", kd[1], kd[2], kd[3], tuple(vs))
            if kd[0] == "closure":
                return mk("closure", kd[1], tuple(vs))
            return mk("aggx", str(kd), tuple(vs))
        if k == "rep":
            v = self.operand(st, ctx, r[1], body)
            try:
                return mk("rep", v, I(int(r[2].split("_")[0])))
            except ValueError:
                return mk("rep", v, sym("n:" + r[2], "usize"))
        return sym(f"rv:{ctx}:{bb}:{str(r)[:40]}")

    def binop(self, st, ctx, r, body, bb, line):
        op, ty = r[1], r[4]
        x = self.typed(self.operand(st, ctx, r[2], body), ty)
        y = self.typed(self.operand(st, ctx, r[3], body), ty)
        if ty in ("f64", "f32"):
            return fop(op, x, y)
        if ty == "bool":
            if op == "BitAnd":
                return band(x, y)
            if op == "BitOr":
                return bor(x, y)
            if op in ("Eq", "Ne"):
                if y.op == "int":
                    e = x if y.a[0] else bnot(x)
                elif x.op == "int":
                    e = y if x.a[0] else bnot(y)
                else:
                    e = mk("eq", *sorted((x, y)))
                return e if op == "Eq" else bnot(e)
            return mk("bop", op, x, y)
        if ty not in RANGES and op in ("Eq", "Ne"):
            e = TRUE if x is y else mk("eq", *sorted((x, y)))
            return e if op == "Eq" else bnot(e)
        if op in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
            return icmp(op, x, y)
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        if base == "Add":
            v = add(x, y)
        elif base == "Sub":
            v = sub(x, y)
        elif base == "Mul":
            v = mul(x, y)
            if v.op == "mul" and v not in TYOF:
                TYOF[v] = ty
        elif base == "Div":
            v = div(x, y)
            self.typed(v, ty)
        elif base == "Rem":
            v = rem(x, y)
            self.typed(v, ty)
        else:
            if x.op == "int" and y.op == "int" and base in ("BitAnd", "BitOr", "BitXor", "Shl", "Shr"):
                a, b = x.a[0], y.a[0]
                v = I({"BitAnd": a & b, "BitOr": a | b, "BitXor": a ^ b, "Shl": a << b if b < 200 else 0, "Shr": a >> b}[base])
            else:
                v = mk("bit", base, *( sorted((x, y)) if base in ("BitAnd", "BitOr", "BitXor") else (x, y)))
            self.typed(v, ty)
        if op.endswith("WithOverflow"):
            return mk("tuple", (v, mk("ovf", base, ty, x, y)))
        return v

    # -- execution -----------------------------------------------------------------------------
    def run_body(self, body, st, ctx, args, const=False):
        """execute body from state st; returns list of (state, return value)."""
        for i, a in enumerate(args):
            st.env[(ctx, i + 1)] = a
        rets = []
        self.region(body, ctx, 0, [st], None, rets)
        out = []
        for s in rets:
            v = s.env.get((ctx, 0), UNIT)
            out.append((s, self.freeze(s, v) if const else v))
        if const:
            return out
        out = self.merge_rets(body, ctx, out)
        for s, _ in out:
            for k in [k for k in s.env if k[0] == ctx]:
                del s.env[k]
        return out

    def merge_rets(self, body, ctx, out):
        for s, v in out:
            for k in [k for k in s.env if k[0] == ctx and k[1] != 0]:
                del s.env[k]
        if self.opts.get("keepfacts") and len(self.fnstack) > 1:
            same = {}
            for s, v in out:
                same.setdefault((v, s.log, tuple(sorted((str(k), x.id) for k, x in s.env.items()))), []).append((s, v))
            out = []
            for l in same.values():
                if len(l) > 6:
                    m = self.join([x[0] for x in l], f"{ctx}:rets")
                    l = [(m, l[0][1])]
                out += l
        groups = {}
        for s, v in out:
            sg = (self.vsig(v), s.log, self.isig(s, v))
            groups.setdefault(sg, []).append((s, v))
        res = []
        for sg, l in groups.items():
            if len(l) > 1:
                errs = sg[0] in ("adt:Err", "adt:None", "adt:Break") and not self.opts.get("keeperr")
                if errs or len(out) > self.maxstates:
                    m = self.join([x[0] for x in l], f"{ctx}:ret")
                    l = [(m, m.env.get((ctx, 0), UNIT))]
            res += l
        return res

    def vsig(self, v, d=0):
        if v.op == "adt":
            return f"adt:{v.a[2]}"
        if v.op == "int":
            return f"int:{v.a[0]}" if v.a[0] in (0, 1) else "int"
        if v.op in ("ref", "vref", "iter", "closure"):
            return v.op
        return "v"

    def isig(self, s, v):
        return s.env.get(("fs", 0))

    def sig(self, s, ctx, live):
        out = [s.log]
        for (c, l), v in s.env.items():
            if c == ctx and l in live:
                if v.op == "adt":
                    out.append((l, "a", v.a[1]))
                elif v.op == "int" and v.a[0] in (0, 1):
                    out.append((l, "i", v.a[0]))
        return tuple(out[:1] + sorted(out[1:], key=str))

    def reduce(self, body, ctx, bb, states):
        """dead-local cleanup, dedupe, bounded merge of the states arriving at bb."""
        live = body.live[bb]
        for s in states:
            for k in [k for k in s.env if k[0] == ctx and k[1] not in live]:
                del s.env[k]
        if len(states) <= 1:
            return states
        uniq = {}
        for s in states:
            key = (tuple(sorted(((str(k), v.id) for k, v in s.env.items()))), s.log)
            if self.opts.get("keepfacts"):
                key += (s.ge, s.ne, frozenset(s.bl.items()), frozenset(s.va.items()))
            uniq.setdefault(key, []).append(s)
        states = []
        for l in uniq.values():
            states.append(l[0] if len(l) == 1 else self.join(l, f"{ctx}:{bb}"))
        if len(states) <= self.maxstates:
            return states
        groups = {}
        for s in states:
            groups.setdefault(self.sig(s, ctx, live), []).append(s)
        states = [l[0] if len(l) == 1 else self.join(l, f"{ctx}:{bb}:{i}") for i, l in enumerate(groups.values())]
        if len(states) <= 3 * self.maxstates:
            return states
        logs = {}
        for s in states:
            logs.setdefault(s.log, []).append(s)
        return [l[0] if len(l) == 1 else self.join(l, f"{ctx}:{bb}:L{i}") for i, l in enumerate(logs.values())]

    def region(self, body, ctx, entry, states, limit, rets, header=None):
        """Execute from entry within block set `limit` (None: whole body). Returns
        (back_states, exits) when header is given."""
        pending = {entry: list(states)}
        back, exits = [], {}
        order = body.order
        started = False
        while pending:
            bb = min(pending, key=lambda b: order[b])
            sts = pending.pop(bb)
            sts = self.reduce(body, ctx, bb, sts)
            if bb in body.loops and not (header == bb and not started):
                ex = self.loop(body, ctx, bb, sts, rets)
                outs = ex
            else:
                started = True
                outs = []
                for s in sts:
                    outs += self.block(body, ctx, bb, s, rets)
            for tgt, s in outs:
                if header is not None and tgt == header:
                    back.append(s)
                elif limit is not None and tgt not in limit:
                    exits.setdefault(tgt, []).append(s)
                else:
                    pending.setdefault(tgt, []).append(s)
        return back, exits

    def try_unroll(self, body, ctx, h, entry_states, rets):
        """exact execution of a loop that provably ends within a few iterations"""
        limit = body.loops[h]
        states, out, scratch, seen = list(entry_states), [], [], set()
        self.unrolling += 1
        rec, self.record = self.record, False
        try:
            for it in range(self.opts.get("unroll", 0)):
                fresh = []
                for s in states:
                    k = (tuple(sorted((str(a), b.id) for a, b in s.env.items() if a[0] != ctx or a[1] in body.live[h])), s.log,
                         s.ge, frozenset(s.bl.items()), frozenset(s.va.items()))
                    if k not in seen:
                        seen.add(k)
                        fresh.append(s)
                if not fresh:
                    break
                if len(fresh) > 40:
                    return None
                back, exits = self.region(body, ctx, h, [s.copy() for s in fresh], limit, scratch, header=h)
                for tgt, ss in exits.items():
                    out += [(tgt, s) for s in ss]
                states = back
            else:
                if states:
                    return None
        finally:
            self.unrolling -= 1
            self.record = rec
        if rec:
            # second pass records the obligations met on the way
            self.unrolling += 1
            try:
                states, seen2 = list(entry_states), set()
                for it in range(self.opts.get("unroll", 0)):
                    if not states:
                        break
                    fresh = []
                    for s in states:
                        k = (tuple(sorted((str(a), b.id) for a, b in s.env.items() if a[0] != ctx or a[1] in body.live[h])), s.log,
                             s.ge, frozenset(s.bl.items()), frozenset(s.va.items()))
                        if k not in seen2:
                            seen2.add(k)
                            fresh.append(s)
                    states, _ = self.region(body, ctx, h, [s.copy() for s in fresh], limit, [], header=h)
            finally:
                self.unrolling -= 1
        rets += scratch
        for tgt, s in out:
            for b in [b for b in s.bl if b.op == "exhausted"]:
                s.bl.pop(b)
        return out

    def loop(self, body, ctx, h, entry_states, rets):
        limit = body.loops[h]
        if self.opts.get("unroll", 0):
            r = self.try_unroll(body, ctx, h, [s.copy() for s in entry_states], rets)
            if r is not None:
                return r
            u, self.unrolling = self.unrolling, 0
            try:
                return self.loop_fix(body, ctx, h, entry_states, rets)
            finally:
                self.unrolling = u
        return self.loop_fix(body, ctx, h, entry_states, rets)

    def loop_fix(self, body, ctx, h, entry_states, rets):
        limit = body.loops[h]
        res = []
        groups = {}
        for s in entry_states:
            groups.setdefault(self.sig(s, ctx, body.live[h]), []).append(s)
        gl = list(groups.values())
        if self.loopgroups > 4 and len(entry_states) <= self.loopgroups:
            gl = [[s] for s in entry_states]
        elif len(gl) > 4:
            logs = {}
            for s in entry_states:
                logs.setdefault(s.log, []).append(s)
            gl = list(logs.values())
        for gi, g in enumerate(gl):
            H0 = g[0] if len(g) == 1 else self.join(g, f"{ctx}:{h}:e{gi}")
            res += self.loop1(body, ctx, h, H0, limit, rets, f"{ctx}:{h}:{gi}")
        return res

    def loop1(self, body, ctx, h, H0, limit, rets, tag):
        H = H0.copy()
        rec = self.record
        phis = {}          # loc -> (phi term)
        cand_done = set()
        stable = False
        deltas = {}
        for it in range(14):
            self.record = False
            scratch = []
            back, exits = self.region(body, ctx, h, [H.copy()], limit, scratch, header=h)
            self.record = rec
            changed = False
            live = body.live[h]
            for s in back:
                for k in [k for k in s.env if k[0] == ctx and k[1] not in live]:
                    del s.env[k]
            # environment
            newenv = {}
            for loc in list(H.env):
                if loc[0] == ctx and loc[1] not in live:
                    del H.env[loc]
                    continue
                hv = H.env[loc]
                for s in back:
                    bv = s.env.get(loc)
                    if bv is None or bv is hv:
                        continue
                    nv = self.widen(hv, bv, f"{tag}:{loc[0]}:{loc[1]}", H, s)
                    if nv is not hv:
                        hv = nv
                        changed = True
                if H.env[loc] is not hv:
                    newenv[loc] = hv
            if newenv:
                for loc, nv in newenv.items():
                    old = H0.env.get(loc)
                    if nv.op == "sym" and old is not None and loc not in phis:
                        phis[loc] = nv
                        self.seed_candidates(H, H0, old, nv, back, loc)
                    elif loc not in phis:
                        phis[loc] = nv
                    H.env[loc] = nv
                H._inv()
                changed = True
            # facts must be inductive
            for L in list(H.ge):
                for s in back:
                    L2 = self.at_back(L, H, s, phis)
                    if not (L2 in s.ge or s.proves(L2, 3)):
                        H.ge = H.ge - {L}
                        H._inv()
                        changed = True
                        break
            for L in list(H.ne):
                for s in back:
                    if not s.nonzero(self.at_back(L, H, s, phis)):
                        H.ne = H.ne - {L}
                        changed = True
                        break
            for s in back:
                for k in [k for k in H.bl if s.bl.get(k) != H.bl[k]]:
                    del H.bl[k]
                    changed = True
                for k in [k for k in H.va if s.va.get(k) != H.va[k]]:
                    del H.va[k]
                    changed = True
                if not H.uni <= s.uni:
                    H.uni = H.uni & s.uni
                    changed = True
                if s.log != H.log:
                    nl = widen_log(H.log, s.log)
                    if nl != H.log:
                        H.log = nl
                        changed = True
            if not changed:
                stable = True
                break
        if not stable:
            # give up on precision: havoc everything that ever changed
            for loc in phis:
                H.env[loc] = sym(f"hv:{tag}:{loc}")
            H.ge = frozenset(l for l in H0.ge if False)
            H.bl, H.va, H.uni, H.ne = {}, {}, frozenset(), frozenset()
            H._inv()
        self.last_back = None
        back, exits = self.region(body, ctx, h, [H.copy()], limit, rets, header=h)
        # element facts and exact counts at the iterator-exhausted exit
        out = []
        pos_syms = set()
        for s in back:
            for L in s.ge:
                for x in subterms(L):
                    if x.op == "sym" and isinstance(x.a[0], str) and x.a[0].startswith(f"pos@{ctx}:"):
                        pos_syms.add(x)
        uni = None
        for s in back:
            mine = set()
            for L in s.ge:
                if L in H.ge:
                    continue
                for p in pos_syms:
                    if contains(L, lambda y: y is p) and contains(L, lambda y: y.op == "elt" and contains(y, lambda z: z is p)):
                        if not contains(L, lambda y: y in phis.values()):
                            mine.add((p, L))
            uni = mine if uni is None else uni & mine
        for tgt, ss in exits.items():
            for s in ss:
                nx = [b for b in s.bl if b.op == "exhausted" and s.bl[b] and b.a[1].startswith(f"pos@{ctx}:")]
                if nx:
                    hx = [b for b in nx if b.a[2] == (ctx, h)] or nx
                    if uni:
                        s.uni = s.uni | frozenset(uni)
                    cnt = nx[0].a[0]
                    for b in nx:
                        s.bl.pop(b, None)
                    if stable and len(nx) == 1 and cnt.op != "none":
                        self.exact_counts(s, H, H0, back, phis, cnt, tag)
                out.append((tgt, s))
        return out

    def at_back(self, L, H, s, phis):
        """fact L over header phis, rewritten to the values the back edge gives them."""
        m = {}
        for loc, p in phis.items():
            bv = s.env.get(loc)
            if bv is not None and p.op == "sym" and bv is not p:
                m[p] = bv
            # vector phis: lengths
            if bv is not None and H.env.get(loc) is not None and H.env[loc].op == "vec" and bv.op == "vec":
                hl = vlen(H.env[loc])
                for q in H.env[loc].a[0]:
                    if q[0] == "m" and q[1].op == "sym":
                        rest = sub(hl, q[1])
                        if not contains(rest, lambda y: y is q[1]):
                            m[q[1]] = sub(vlen(bv), rest)
        if not m:
            return L
        return subst(L, m)

    def seed_candidates(self, H, H0, old, phi, back, loc):
        ty = TYOF.get(old)
        for s in back:
            bv = s.env.get(loc)
            if bv is not None:
                for x in (bv,) + tuple(lin(bv)[1]):
                    ty = ty or TYOF.get(x)
        if ty in RANGES:
            TYOF[phi] = ty
        if old.op in ("int", "L") or TYOF.get(old) in RANGES:
            c = {sub(phi, old), sub(old, phi)}
            lo, hi = H0.ival(old)
            if lo is not None:
                c.add(sub(phi, I(lo)))
            if hi is not None:
                c.add(sub(I(hi), phi))
            if old.op not in ("int", "L"):
                for f in H0.ge:
                    if _coef(f, old):
                        c.add(subst(f, {old: phi}))
            for s in back:
                bv = s.env.get(loc)
                if bv is None:
                    continue
                d = sub(bv, old)
                for f in s.ge:
                    # guard on the old value, shifted by the increment
                    if old.op not in ("int",) and _coef(f, old):
                        if d.op == "int":
                            c.add(subst(f, {old: sub(phi, d)}) if old.op != "L" else f)
            H.ge = H.ge | {x for x in c if x.op != "int"}
            H._inv()

    def exact_counts(self, s, H, H0, back, phis, cnt, tag):
        for loc, p in phis.items():
            hv, ov = H.env.get(loc), H0.env.get(loc)
            if hv is None or ov is None:
                continue
            ds = set()
            if hv.op == "vec":
                for b in back:
                    bv = b.env.get(loc)
                    if bv is None:
                        return
                    ds.add(sub(vlen(bv), vlen(hv)))
                if len(ds) == 1:
                    d, = ds
                    if d.op == "int":
                        e = sub(sub(vlen(hv), vlen(ov)), scale(cnt, d.a[0]))
                        s.add_ge(e)
                        s.add_ge(neg(e))
            elif hv.op == "sym":
                for b in back:
                    bv = b.env.get(loc)
                    ds.add(sub(bv, hv) if bv is not None else None)
                if len(ds) == 1:
                    d, = ds
                    if d is not None and d.op == "int" and (ov.op in ("int", "L") or TYOF.get(ov) in RANGES):
                        e = sub(sub(hv, ov), scale(cnt, d.a[0]))
                        s.add_ge(e)
                        s.add_ge(neg(e))

    def widen(self, hv, bv, tag, H, s):
        if hv is bv:
            return hv
        if hv.op == "adt" and bv.op == "adt" and hv.a[0] == bv.a[0] and hv.a[1] == bv.a[1]:
            fs = tuple(self.widen(x, y, f"{tag}.{i}", H, s) for i, (x, y) in enumerate(zip(hv.a[3], bv.a[3])))
            return mk("adt", hv.a[0], hv.a[1], hv.a[2], fs)
        if hv.op == "tuple" and bv.op == "tuple" and len(hv.a[0]) == len(bv.a[0]):
            fs = tuple(self.widen(x, y, f"{tag}.{i}", H, s) for i, (x, y) in enumerate(zip(hv.a[0], bv.a[0])))
            return mk("tuple", fs)
        if hv.op in ("vec",) or bv.op in ("vec",):
            r = widen_vec(hv, bv, tag)
            if r is not None:
                return r
        if bv.op == "vset" or hv.op == "vset" or hv.op == "vphi":
            base_h = hv
            x = bv
            while x.op == "vset":
                x = x.a[0]
            if x is hv or (hv.op == "vphi" and x is hv):
                # only elements written: keep the length
                if hv.op == "vphi":
                    return hv
                t = mk("vphi", tag)
                ln = vlen(t)
                e = sub(ln, vlen(hv))
                H.ge = H.ge | {q for q in (e, neg(e)) if q.op != "int"}
                H._inv()
                return t
        return sym(f"phi:{tag}")

    def join(self, states, tag):
        base = states[0]
        n = base.copy()
        others = states[1:]
        keys = set(base.env)
        for o in others:
            keys &= set(o.env)
        sub_maps = [dict() for _ in states]
        n.env = {}
        cands = set()
        for k in keys:
            vs = [s.env[k] for s in states]
            if all(v is vs[0] for v in vs):
                n.env[k] = vs[0]
            else:
                n.env[k] = self.joinval(vs, f"{tag}:{k[0]}:{k[1]}", states, sub_maps)
        facts = set()
        for i, s in enumerate(states):
            for L in s.ge:
                facts.add(L)
            # facts rewritten onto the phi
            inv = {}
            for p, v in sub_maps[i].items():
                if v.op not in ("int",):
                    inv.setdefault(v, []).append(p)
            for L in s.ge:
                for v, ps in inv.items():
                    if v.op == "L":
                        continue
                    if _coef(L, v):
                        for p in ps:
                            facts.add(subst(L, {v: p}))
        for p in sub_maps[0]:
            los = [s.ival(m[p]) for s, m in zip(states, sub_maps)]
            if all(l[0] is not None for l in los):
                facts.add(sub(p, I(min(l[0] for l in los))))
            if all(l[1] is not None for l in los):
                facts.add(sub(I(max(l[1] for l in los)), p))
            vals = [m[p] for m in sub_maps]
            for v in set(vals):
                facts.add(sub(p, v))
                facts.add(sub(v, p))
                # bounds through linear facts of each value's own state
        # relational candidates: phi <= t for the terms t any incoming value is bounded by
        for i, s in enumerate(states):
            for p, v in sub_maps[i].items():
                if v.op == "L":
                    for L in s.ge:
                        c, d = lin(L)
                        if any(a in d for a in lin(v)[1]):
                            # L in terms of v: replace one atom a = (v - rest)/k when k == +-1
                            for a, kk in lin(v)[1].items():
                                if a in d and kk in (1, -1):
                                    rest = sub(v, scale(a, kk))
                                    facts.add(subst(L, {a: scale(sub(p, rest), kk)}))
        keep = set()
        for L in facts:
            if L.op == "int":
                continue
            ok = True
            for s, m in zip(states, sub_maps):
                L2 = subst(L, m) if m else L
                if L2 in s.ge:
                    continue
                if not s.proves(L2, 2):
                    ok = False
                    break
            if ok:
                keep.add(L)
        n.ge = frozenset(keep)
        ne = set(base.ne)
        for s in states:
            ne |= s.ne
        n.ne = frozenset(L for L in ne if all(s.nonzero(L) for s in states))
        n.bl = {k: v for k, v in base.bl.items() if all(o.bl.get(k) == v for o in others)}
        n.va = {}
        for k, v in base.va.items():
            if all(o.va.get(k) == v for o in others):
                n.va[k] = v
        u = base.uni
        for o in others:
            u = u & o.uni
        n.uni = u
        logs = {s.log for s in states}
        if len(logs) > 1:
            n.log = join_logs(logs)
        n._inv()
        return n

    def joinval(self, vs, tag, states, maps):
        if all(v is vs[0] for v in vs):
            return vs[0]
        if all(v.op == "adt" and v.a[0] == vs[0].a[0] and v.a[1] == vs[0].a[1] for v in vs):
            fs = tuple(self.joinval([v.a[3][i] for v in vs], f"{tag}.{i}", states, maps) for i in range(len(vs[0].a[3])))
            return mk("adt", vs[0].a[0], vs[0].a[1], vs[0].a[2], fs)
        if all(v.op == "tuple" and len(v.a[0]) == len(vs[0].a[0]) for v in vs):
            return mk("tuple", tuple(self.joinval([v.a[0][i] for v in vs], f"{tag}.{i}", states, maps) for i in range(len(vs[0].a[0]))))
        if all(v.op in ("iter", "ref", "vref", "closure") for v in vs) and len({v.op for v in vs}) == 1:
            r = self.joinstruct(vs, tag, states, maps)
            if r is not None:
                return r
        if any(v.op in ("vec", "rep", "arr") for v in vs) or all(TYVEC.get(v) for v in vs):
            t = mk("sym", f"phi:{tag}", "op")
            ln = vlen(t)
            for m, v in zip(maps, vs):
                m[ln] = vlen(v)
            return t
        t = mk("sym", f"phi:{tag}", "op")
        ty = None
        for v in vs:
            ty = ty or TYOF.get(v)
            for a in lin(v)[1]:
                ty = ty or (TYOF.get(a) if v.op == "L" else None)
        ints = all(v.op in ("int", "L") or TYOF.get(v) in RANGES for v in vs)
        if ints:
            if ty:
                TYOF[t] = ty
            for m, v in zip(maps, vs):
                m[t] = v
        else:
            ln = vlen(t)
            for m, v in zip(maps, vs):
                m[ln] = vlen(v) if v.op not in ("adt",) else sym("nolen")
        return t

    def joinstruct(self, vs, tag, states, maps):
        """component-wise join of structurally equal iterator / closure / value-reference terms"""
        v0 = vs[0]
        if any(len(v.a) != len(v0.a) for v in vs):
            return None
        if v0.op == "ref":
            return None
        out = []
        for i in range(len(v0.a)):
            xs = [v.a[i] for v in vs]
            if all(isinstance(x, T) for x in xs):
                out.append(self.joinval(xs, f"{tag}~{i}", states, maps))
            elif all(isinstance(x, tuple) and len(x) == len(xs[0]) for x in xs) and all(isinstance(y, T) for x in xs for y in x):
                out.append(tuple(self.joinval([x[j] for x in xs], f"{tag}~{i}.{j}", states, maps) for j in range(len(xs[0]))))
            elif all(x == xs[0] for x in xs):
                out.append(xs[0])
            else:
                return None
        return mk(v0.op, *out)

    def block(self, body, ctx, bb, st, rets):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Budget(f"step budget exceeded in {body.path}")
        b = body.blocks[bb]
        f = body.f
        file = f.get("span", ["?"])[0]
        for s in b["s"]:
            if s[0] == "=":
                pl = s[1]
                destty = body.locals[pl["l"]] if not pl["p"] else None
                v = self.rvalue(st, ctx, s[2], body, bb, (file, s[3]), destty)
                if destty in RANGES:
                    self.typed(v, destty)
                self.write(st, ctx, pl, v)
        t = b["t"]
        k = t[0]
        if k == "goto":
            return [(t[1], st)]
        if k == "ret":
            rets.append(st)
            return []
        if k in ("unreachable", "resume", "abort", "x"):
            return []
        if k == "drop":
            return self.do_drop(body, ctx, bb, st, t)
        if k == "switch":
            return self.do_switch(body, ctx, st, t)
        if k == "assert":
            return self.do_assert(body, ctx, bb, st, t)
        if k == "call":
            outs = self.do_call(body, ctx, bb, st, t)
            res = []
            for s, v in outs:
                if t[4] is None:
                    continue
                pl = t[3]
                if not pl["p"] and body.locals[pl["l"]] in RANGES:
                    self.typed(v, body.locals[pl["l"]])
                self.write(s, ctx, pl, v)
                res.append((t[4], s))
            return res
        return []

    def do_drop(self, body, ctx, bb, st, t):
        ty = t[3]
        path = f"<{ty} as std::ops::Drop>::drop"
        ev = self.watch("drop:" + ty, [lambda: self.read(st, ctx, t[1])])
        if ev is not None:
            st.log = push_log(st.log, ev)
        if self.p.body(self.crate, path) and self.opts.get("drops", True):
            c = self.resolve(st, ctx, t[1])
            r = mk("ref", c[1], c[2]) if c[0] == "loc" else mk("vref", c[1])
            outs = self.call_local(path, st, [r], ctx, bb)
            return [(t[2], s) for s, _ in outs]
        return [(t[2], st)]

    def do_switch(self, body, ctx, st, t):
        v = self.operand(st, ctx, t[1], body)
        ty = t[4]
        out = []
        if v.op == "int":
            for val, tgt in t[2]:
                n = int(val)
                if ty in RANGES and RANGES[ty][0] < 0 and n > RANGES[ty][1]:
                    n -= (RANGES[ty][1] - RANGES[ty][0] + 1)
                if n == v.a[0]:
                    return [(tgt, st)]
            return [(t[3], st)]
        if ty == "bool":
            # targets: '0' -> false
            kn = st.known(v)
            for val, tgt in t[2]:
                want = bool(int(val))
                if kn is not None and kn != want:
                    continue
                s = st.copy()
                if s.assume(v, want):
                    out.append((tgt, s))
            vals = {bool(int(x[0])) for x in t[2]}
            other = ({True, False} - vals)
            if other:
                want = other.pop()
                if kn is None or kn == want:
                    s = st.copy()
                    if s.assume(v, want):
                        out.append((t[3], s))
            return out
        rest = st.copy()
        feasible = True
        for val, tgt in t[2]:
            n = int(val)
            if ty in RANGES and RANGES[ty][0] < 0 and n > RANGES[ty][1]:
                n -= (RANGES[ty][1] - RANGES[ty][0] + 1)
            c = eq0(sub(v, I(n)))
            s = st.copy()
            if s.assume(c, True):
                out.append((tgt, s))
            if feasible:
                feasible = rest.assume(c, False)
        if feasible and body.blocks[t[3]]["t"][0] != "unreachable":
            out.append((t[3], rest))
        return out

    def do_assert(self, body, ctx, bb, st, t):
        kind = t[3]
        ops = [self.operand(st, ctx, o, body) for o in t[4]]
        line = t[6]
        ok, goal, post = None, "", []
        if kind == "bounds":
            ln, ix = ops
            self.typed(ix, "usize")
            g = sub(sub(ln, I(1)), ix)
            ok = st.proves(g)
            goal, post = f"{show(ix)} < {show(ln)}", [g]
            self.oblige(body, bb, "bounds", line, goal, ok, st, (ln, ix))
        elif kind in ("div0", "rem0"):
            # operand of the assert message is the dividend; the condition compares the divisor
            cond = self.operand(st, ctx, t[1], body)
            kn = st.known(bnot(cond) if t[2] is False else cond)
            d = None
            b0 = cond
            while b0.op == "not":
                b0 = b0.a[0]
            if b0.op == "eq0":
                d = b0.a[0]
            ok = kn is True or (d is not None and st.nonzero(d))
            goal = f"divisor {show(d) if d is not None else show(cond)} != 0"
            self.oblige(body, bb, kind, line, goal, ok, st, (d,) if d is not None else (mk("opaque"),))
            s = st
            if not s.assume(cond, bool(t[2])):
                return []
            return [(t[5], s)]
        elif kind.startswith("overflow_"):
            cond = self.operand(st, ctx, t[1], body)
            if cond.op == "ovf":
                base, ty, x, y = cond.a
                r = {"Add": add, "Sub": sub, "Mul": mul}.get(base)
                if r is not None:
                    v = r(x, y)
                    lo, hi = RANGES[ty]
                    g1, g2 = sub(v, I(lo)), sub(I(hi), v)
                    ok1, ok2 = st.proves(g1), st.proves(g2)
                    sgn = {"Add": "+", "Sub": "-", "Mul": "*"}[base]
                    self.oblige(body, bb, kind + ":" + ty, line, f"{show(x)} {sgn} {show(y)} in {ty}", ok1 and ok2, st, (x, y))
                    if not st.add_ge(g1) or not st.add_ge(g2):
                        return []
                else:
                    self.oblige(body, bb, kind, line, f"{base}({show(x)}, {show(y)})", False, st, (mk("opaque"),))
            else:
                if kind == "overflow_Neg":
                    x = ops[0]
                    self.oblige(body, bb, kind, line, f"-({show(x)})", st.known(bnot(cond) if not t[2] else cond) is True, st, (mk("opaque"),))
                elif kind in ("overflow_Shl", "overflow_Shr"):
                    self.oblige(body, bb, kind, line, f"shift {show(ops[1])}", st.known(cond if t[2] else bnot(cond)) is True, st, (mk("opaque"),))
                else:
                    # overflow_Div / overflow_Rem: i::MIN / -1
                    kn = st.known(cond if t[2] else bnot(cond))
                    self.oblige(body, bb, kind, line, "MIN / -1", kn is True, st, (mk("opaque"),))
            return [(t[5], st)]
        else:
            cond = self.operand(st, ctx, t[1], body)
            kn = st.known(cond if t[2] else bnot(cond))
            self.oblige(body, bb, "assert:" + kind[:30], line, show(cond), kn is True, st, (cond,))
            if not st.assume(cond, bool(t[2])):
                return []
            return [(t[5], st)]
        for g in post:
            if not st.add_ge(g):
                return []
        return [(t[5], st)]

    # -- calls ---------------------------------------------------------------------------------
    def do_call(self, body, ctx, bb, st, t):
        args = [self.operand(st, ctx, o, body) for o in t[2]]
        line = t[5]
        fr = t[1].get("fnref")
        if fr is None:
            if "dyn" in t[1]:
                f = self.operand(st, ctx, t[1]["dyn"], body)
                return self.call_value(st, f, args, ctx, bb, body, line)
            return [(st, sym(f"call:{ctx}:{bb}"))]
        name = fr.get("rfn") or fr["fn"]
        info = {"fn": fr["fn"], "ga": fr.get("ga", []), "line": line, "bb": bb, "ctx": ctx, "body": body,
                "dest": body.locals[t[3]["l"]] if not t[3]["p"] else None, "argty": t[6]}
        local = fr.get("rlocal", fr.get("local")) if "rfn" in fr else fr.get("local")
        return self.call_named(st, name, fr["fn"], args, info, local)

    def call_named(self, st, name, fn, args, info, local=None):
        ctx, bb, body = info["ctx"], info["bb"], info["body"]
        ev = self.watch(name, [lambda a=a: a for a in args]) if self.watch else None
        if ev is not None:
            st = st.copy()
            st.log = push_log(st.log, ev(self, st, args) if callable(ev) else ev)
        if local is None:
            local = (self.crate, name) in self.p.fns
        if fn == "std::clone::Clone::clone":
            return self.models.h_clone(self, st, args, info)
        if local and (self.crate, name) in self.p.fns:
            ov = self.opts.get("override", {}).get(name)
            if ov is not None:
                return ov(self, st, args, info)
            if "{closure" in name and fn.startswith("std::ops::Fn"):
                return self.call_closure_direct(st, name, args, ctx, bb)
            if name in self.noinline or name in self.fnstack or len(self.fnstack) >= MAXDEPTH:
                return [(st, self.unknown(st, name, args, info))]
            return self.call_local(name, st, args, ctx, bb)
        h = self.opts.get("models", {}).get(fn) or self.models.lookup(name, fn)
        if h is not None:
            return h(self, st, args, info)
        if fn.startswith("std::ops::Fn") and args and args[0].op in ("closure", "ref", "vref", "fn"):
            clo = args[0]
            c = self.deref_val(st, clo) if clo.op in ("ref", "vref") else clo
            if c.op in ("closure", "fn"):
                tupargs = list(args[1].a[0]) if args[1].op == "tuple" else []
                return self.call_value(st, clo, tupargs, ctx, bb, body, info["line"])
        return [(st, self.unknown(st, name, args, info))]

    def unknown(self, st, name, args, info):
        self.unknown_calls[name] = self.unknown_calls.get(name, 0) + 1
        mut = any(ty.startswith("&mut") for ty in info.get("argty", []))
        for a, ty in zip(args, info.get("argty", [])):
            if ty.startswith("&mut") and a.op == "ref":
                self.write_loc(st, a.a[0], a.a[1], sym(f"hv:{info['ctx']}:{info['bb']}:{a.id}"))
        vals = []
        for a in args:
            v = a
            for _ in range(3):
                if v.op in ("ref", "vref"):
                    v = self.deref_val(st, v)
            vals.append(v)
        if mut or self.models.impure(name):
            return mk("call", name, tuple(vals), f"{info['ctx']}:{info['bb']}")
        return mk("call", name, tuple(vals), "")

    def call_local(self, name, st, args, ctx, bb):
        b = self.p.body(self.crate, name)
        self.inlined.add(name)
        self.fnstack.append(name)
        try:
            return self.run_body(b, st.copy(), f"{ctx}/{name.split('::')[-1]}@{bb}", args)
        finally:
            self.fnstack.pop()

    def call_closure_direct(self, st, name, args, ctx, bb):
        b = self.p.body(self.crate, name)
        clo = args[0]
        rest = list(args[1].a[0]) if len(args) > 1 and args[1].op == "tuple" else []
        if len(args) > 1 and args[1].op not in ("tuple", "unit"):
            rest = [fld(args[1], i) for i in range(b.argc - 1)]
        return self._closure(st, b, clo, rest, ctx, bb)

    def _closure(self, st, b, clo, rest, ctx, bb):
        want_ref = b.locals[1].startswith("&")
        c = clo
        if want_ref:
            if c.op not in ("ref", "vref"):
                c = mk("vref", c)
        else:
            while c.op in ("ref", "vref"):
                c = self.deref_val(st, c)
        if len(self.fnstack) >= MAXDEPTH + 4:
            return [(st, sym(f"deep:{ctx}:{bb}"))]
        self.fnstack.append(b.path)
        try:
            return self.run_body(b, st.copy(), f"{ctx}/{b.path.split('::')[-1]}@{bb}", [c] + rest)
        finally:
            self.fnstack.pop()

    def call_value(self, st, f, args, ctx, bb, body, line):
        """call a closure or function value with positional args"""
        c = f
        for _ in range(3):
            if c.op in ("ref", "vref"):
                c = self.deref_val(st, c)
        if c.op == "closure":
            b = self.p.body(self.crate, c.a[0])
            if b is not None:
                return self._closure(st, b, f, list(args), ctx, bb)
        if c.op == "fn":
            info = {"fn": c.a[1], "ga": [], "line": line, "bb": bb, "ctx": ctx, "body": body, "dest": None,
                    "argty": ["?"] * len(args)}
            vn = c.a[0]
            if vn.startswith("std::borrow::Cow"):
                return [(st, adt("std::borrow::Cow", 1 if vn.endswith("Owned") else 0, vn.rsplit("::", 1)[1], (args[0],)))]
            ctor = {"std::option::Option::Some": Some, "std::result::Result::Ok": Ok, "std::result::Result::Err": Err,
                    "std::option::Option::<T>::Some": Some}.get(vn)
            if ctor:
                return [(st, ctor(args[0]))]
            en, _, var = vn.rpartition("::")
            for path in (en, vn):
                for vi, v in enumerate((self.p.adts.get((self.crate, path)) or {}).get("variants", ())):
                    if v["name"] == var and len(v["fields"]) == len(args):
                        return [(st, adt(path, vi, var, tuple(args)))]
            return self.call_named(st, c.a[0], c.a[1], list(args), info)
        return [(st, mk("call", "dyn", tuple([c] + list(args)), f"{ctx}:{bb}"))]


TYVEC = {}


def opaque_bool(b):
    if b.op in ("ge0", "eq0"):
        return not is_free(b.a[0])
    if b.op in ("not", "and"):
        return any(opaque_bool(x) for x in b.a)
    return True


def fop(op, x, y):
    if op in ("Gt", "Ge"):
        return mk("fcmp", {"Gt": "Lt", "Ge": "Le"}[op], y, x)
    if op in ("Lt", "Le"):
        return mk("fcmp", op, x, y)
    if op in ("Eq", "Ne"):
        e = mk("fcmp", "Eq", *sorted((x, y)))
        return e if op == "Eq" else bnot(e)
    if op in ("Add", "Mul"):
        x, y = sorted((x, y))
    return mk("f" + op, x, y)


def icmp(op, x, y):
    if op == "Lt":
        return ge0(sub(sub(y, x), I(1)))
    if op == "Le":
        return ge0(sub(y, x))
    if op == "Gt":
        return ge0(sub(sub(x, y), I(1)))
    if op == "Ge":
        return ge0(sub(x, y))
    e = eq0(sub(x, y))
    return e if op == "Eq" else bnot(e)


def widen_vec(hv, bv, tag):
    hp, bp = list(parts(hv)) if hv.op != "sym" else None, list(parts(bv))
    if hp is None:
        return None
    # common prefix
    i = 0
    while i < len(hp) and i < len(bp) and hp[i] == bp[i]:
        i += 1
    pre = hp[:i]
    hrest, brest = hp[i:], bp[i:]
    alts, ok = [], True
    pos = None

    def collect(ps):
        nonlocal ok, pos
        for p in ps:
            if p[0] == "e":
                if p[1] not in alts:
                    alts.append(p[1])
            elif p[0] == "m":
                for e in p[2]:
                    if e not in alts:
                        alts.append(e)
                if len(p) > 3 and p[3] is not None:
                    pos = p[3]
            else:
                e = mk("elt", p[1], mk("sym", "any", "op"))
                if e not in alts:
                    alts.append(e)
    # fold a trailing m of the prefix into the widened part
    if pre and pre[-1][0] == "m" and not hrest:
        last = pre.pop()
        collect([last])
        collect(brest)
        return vec(tuple(pre) + (("m", last[1], tuple(alts), None),)) if alts != list(last[2]) else hv
    collect(hrest)
    collect(brest)
    if len(alts) > 8:
        return None
    ln = mk("sym", f"wl:{tag}", "op")
    TYOF[ln] = "usize"
    return vec(tuple(pre) + (("m", ln, tuple(alts), None),))


def push_log(log, ev):
    if log and log[-1] == ev:
        return log
    if len(log) > 60:
        return log
    return log + (ev,)


def widen_log(h, b):
    i = 0
    while i < len(h) and i < len(b) and h[i] == b[i]:
        i += 1
    extra = frozenset(b[i:]) | frozenset(h[i:])
    flat = set()
    for e in extra:
        if isinstance(e, tuple) and e and e[0] == "loop":
            flat |= set(e[1])
        else:
            flat.add(e)
    pre = h[:i]
    if pre and isinstance(pre[-1], tuple) and pre[-1][0] == "loop":
        flat |= set(pre[-1][1])
        pre = pre[:-1]
    return pre + (("loop", tuple(sorted(flat, key=str))),)


def join_logs(logs):
    logs = list(logs)
    h = logs[0]
    for b in logs[1:]:
        h = ("?",) + tuple(sorted(set(h) & set(b), key=str))
    return h
