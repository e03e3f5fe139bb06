"""Scenarios for the circuit gadgets and layers."""
from circ import *
import sc_derive

WHICH = "circuits"
GD = CP + "gadgets::"
LR = "circuit_std_rs::logup::"
RANGE, DIVIDE, EXTREME, MATRIX = [], [], [], []

RCM = GD + "range_check::LogupRangeCheckContext::range_check"


def m_range(Ip, st, a, i):
    """a range check, as the range check property says what it does"""
    n = D(Ip, st, a[3])
    if n.op != "int":
        raise Giveup("range of unknown width")
    if not 0 < n.a[0] <= 128:
        return [(st, Err(mk("err")))]
    return [(fact(Ip, st, a[1], "range", F(Ip, st, a[2]), n.a[0]), Ok(UNIT))]


RM = {RCM: m_range}


def one(res, Ip):
    if not res:
        return None, [sc_derive.stopped(Ip, "building the circuit")]
    if len(res) > 1:
        return None, [(None, "several outcomes" + (": " + "; ".join(show(v)[:80] for v, _, _ in res[:3]) if len(res) < 4 else ""))]
    return res[0], []


def stopped_raw(Ip):
    return [r for r in Ip.raw]


# ------------------------------------------------------------------------------------------------ division by a constant
def centered(name, bits):
    """edge and random values of one input in [-2^bits, 2^bits)"""
    B = 1 << bits
    return [-B, -B + 1, -1, 0, 1, B - 1]


def rescale(kappa, s, relu):
    def f(M):
        C = Circ(M, RM)
        r, e = one(*C.run(CP + "utils::quantization::RescalingContext::new", ["&api", I(kappa), I(s)]))
        if r is None:
            return e
        ctx = ok_of(r[0])
        if ctx is None:
            return [(False, f"scale 2^{kappa} and shift 2^{s} are refused")]
        x = inp("x")
        res, Ip = C.run(CP + "utils::quantization::rescale", ["&api", "&ctx", "&lookup", x, I(int(relu))], {"ctx": ctx, "lookup": mk("logup")})
        r, e = one(res, Ip)
        if r is None:
            return e
        o = ok_of(r[0])
        if o is None:
            return [(False, "the circuit is refused")]
        al, S = 1 << kappa, 1 << s
        P = fadd(x, fe(al * S))
        q = fsub(fdiv(P, al), fe(S))
        if relu:
            want, lim = pos(q), {("abs", q, 2 * S)}
            lo, hi = -al * S, al * 2 * S - al
        else:
            want, lim = q, {("in", P, al * 2 * S)}
            lo, hi = -al * S, al * S - 1

        def gen(rnd):
            for v in [lo, lo + 1, -al - 1, -al, -1, 0, 1, al - 1, al, hi - 1, hi] + [rnd.randrange(lo, hi) for _ in range(20)]:
                if lo <= v <= hi:
                    yield {asym("x"): v}
        out = [{asym("x"): hi + 1}] if not relu else []
        return judge_system(r[2], [o], [want], lim, gen, out)
    return f


for _k, _s in ((1, 3), (4, 8), (18, 63), (18, 31), (20, 40), (31, 50), (8, 1), (5, 0)):
    for _r in (False, True):
        DIVIDE.append((f"rescale by 2^{_k} with shift 2^{_s}{' and relu' if _r else ''}", rescale(_k, _s, _r)))


def divconst(d, s):
    def f(M):
        C = Circ(M, RM)
        x = inp("x")
        S = 1 << s
        res, Ip = C.run(GD + "euclidean_division::div_pos_integer_constant", ["&api", "&lookup", x, fe(d), I(d), fe(d * S), I(s), fe(S)], {"lookup": mk("logup")})
        r, e = one(res, Ip)
        if r is None:
            return e
        o = ok_of(r[0])
        if d == 0:
            return [(o is None, "division by zero is accepted")]
        if o is None:
            return [(False, "the circuit is refused")]
        P = fadd(x, fe(d * S))
        if d == 1:
            want, lim = x, set()
        else:
            want, lim = fsub(fdiv(P, d), fe(S)), {("in", P, d * 2 * S)}

        def gen(rnd):
            lo, hi = -d * S, d * S - 1
            for v in [lo, lo + 1, -d - 1, -d, -1, 0, 1, d - 1, d, hi - 1, hi] + [rnd.randrange(lo, hi) for _ in range(20)]:
                if lo <= v <= hi:
                    yield {asym("x"): v}
        return judge_system(r[2], [o], [want], lim, gen, [{asym("x"): d * S}] if d > 1 else [])
    return f


for _d in (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 49, 64, 100, 127, 128, 129, 65536, 65537, (1 << 31) - 1, 1 << 31, (1 << 32) - 1):
    for _s in (3, 31, 63):
        DIVIDE.append((f"division by {_d} with shift 2^{_s}", divconst(_d, _s)))


# ------------------------------------------------------------------------------------------------ extremes
def shiftctx(C, s):
    k = C.M.mk(CP + "layers::layer_kinds::LayerKind", "Max")
    return one(*C.run(GD + "max_min_clip::ShiftRangeContext::new", ["&api", k, I(s)]))


def extreme(kind, n, s, same=()):
    def f(M):
        C = Circ(M, RM)
        r, e = shiftctx(C, s)
        if r is None:
            return e
        ctx = ok_of(r[0])
        xs = [inp(f"x{i}") for i in range(n)]
        for i, j in same:
            xs[i] = xs[j]
        cells = {"ctx": ctx, "lookup": mk("logup")}
        if kind == "relu":
            args = ["&api", "&ctx", "&lookup", xs[0]]
        elif kind.startswith("clip"):
            lo, hi = kind[4] == "1", kind[5] == "1"
            args = ["&api", "&ctx", "&lookup", xs[0], Some(xs[1]) if lo else NONE, Some(xs[2]) if hi else NONE]
        else:
            args = ["&api", "&ctx", "&lookup", "&xs"]
            cells["xs"] = mkseq(xs)
        nm = {"relu": "constrained_relu", "max": "constrained_max", "min": "constrained_min"}.get(kind, "constrained_clip")
        res, Ip = C.run(GD + "max_min_clip::" + nm, args, cells)
        r, e = one(res, Ip)
        if r is None:
            return e
        o = ok_of(r[0])
        if o is None:
            return [(False, "the circuit is refused")]
        B = 2 << s
        lim = set()

        def ab(a, b):
            d = fsub(a, b)
            if const_of(d) is None:
                lim.add(("abs", fneg(d) if lead_coef(d) < 0 else d, B))
        if kind == "relu":
            want = pos(xs[0])
            ab(xs[0], fe(0))
        elif kind in ("max", "min"):
            want = (maxof if kind == "max" else minof)(xs)
            if n == 1:
                pass
            elif n == 2:
                ab(xs[0], xs[1])
            else:
                for x in xs:
                    d = fsub(want, x) if kind == "max" else fsub(x, want)
                    if const_of(d) is None:
                        lim.add(("in", d, B))
        else:
            want = xs[0]
            if lo:
                ab(want, xs[1])
                want = maxof([want, xs[1]])
            if hi:
                ab(want, xs[2])
                want = minof([want, xs[2]])

        def gen(rnd):
            E = [-(1 << s), -1, 0, 1, (1 << s) - 1]
            for k in range(40):
                v = {asym(f"x{i}"): (E[(k // 5 ** i) % 5] if k < 25 else rnd.randrange(-(1 << s), 1 << s)) for i in range(n)}
                if kind == "clip11" and v[asym("x1")] > v[asym("x2")]:
                    v[asym("x1")], v[asym("x2")] = v[asym("x2")], v[asym("x1")]
                yield v
        return judge_system(r[2], [o], [want], lim, gen)
    return f


for _s in (3, 31, 62):
    EXTREME.append((f"relu with shift 2^{_s}", extreme("relu", 1, _s)))
    for _n in (1, 2, 3, 4, 5, 9):
        EXTREME.append((f"maximum of {_n} with shift 2^{_s}", extreme("max", _n, _s)))
        EXTREME.append((f"minimum of {_n} with shift 2^{_s}", extreme("min", _n, _s)))
    for _c in ("clip11", "clip10", "clip01", "clip00"):
        EXTREME.append((f"{_c} with shift 2^{_s}", extreme(_c, 3, _s)))
EXTREME.append(("maximum of three, two of them the same", extreme("max", 3, 8, [(2, 0)])))
EXTREME.append(("minimum of three, two of them the same", extreme("min", 3, 8, [(1, 0)])))
EXTREME.append(("maximum of a value and itself", extreme("max", 2, 8, [(1, 0)])))


def empty(which):
    def f(M):
        C = Circ(M, RM)
        r, e = shiftctx(C, 8)
        if r is None:
            return e
        res, Ip = C.run(GD + "max_min_clip::constrained_" + which, ["&api", "&ctx", "&lookup", "&xs"], {"ctx": ok_of(r[0]), "lookup": mk("logup"), "xs": mkseq(())})
        return [(bool(res) and all(ok_of(v) is None for v, _, _ in res), "accepted")]
    return f


for _k in ("max", "min"):
    EXTREME.append((f"{_k}imum of nothing", empty(_k)))
HINTS["jstprove.max"] = lambda xs, n: [max(xs)]


# ------------------------------------------------------------------------------------------------ range checks
def digits_hint(xs, n):
    total, m, a = xs
    return [a >> m * i & (1 << m) - 1 for i in range(n)]


HINTS["myhint.rangeproofhint"] = digits_hint
CTX = GD + "range_check::LogupRangeCheckContext"
TBL = LR + "LogUpRangeProofTable"


def table_of(C, v):
    return C.M.field(v, CTX, "table") if v.a[0].endswith("Context") else v


def queries_of(C, v):
    return clist(C.M.field(table_of(C, v), TBL, "query_keys"))


def rangecheck(b, n, direct=False):
    def f(M):
        C = Circ(M)
        r, e = one(*C.run(CTX + "::new", [I(b)]))
        if r is None:
            return e
        x = inp("x")
        if direct:
            res, Ip = C.run(TBL + "::rangeproof", ["&tab", "&api", x, I(n)], {"tab": table_of(C, r[0])})
        else:
            res, Ip = C.run(RCM, ["&tab", "&api", x, I(n)], {"tab": r[0]})
        if not 0 < n <= 128 and not direct:
            return [(all(ok_of(v) is None for v, _, _ in res), f"a range of {n} bits is accepted")]
        r, e = one(res, Ip)
        if r is None:
            return e
        if not direct and ok_of(r[0]) is None:
            return [(False, f"a range of {n} bits is refused")]
        facts = r[2] + tuple(mk("range", fe(q), b) for q in queries_of(C, r[1]["tab"]))

        def gen(rnd):
            for v in [0, 1, (1 << n) - 1, 1 << n - 1] + [rnd.randrange(1 << n) for _ in range(12)]:
                yield {asym("x"): v}
        bad = [-1, 1 << n, (1 << n) + 1, -(1 << n), 1 - (1 << n), (1 << -(-n // b) * b) - 1, -((1 << -(-n // b) * b) - (1 << n)), 1 << n + 1, 1 << -(-n // b) * b]
        return judge_system(facts, [], [], {("in", x, 1 << n)}, gen, [{asym("x"): v} for v in bad if not 0 <= v < 1 << n])
    return f


for _b in (1, 2, 3, 4, 7, 8, 10, 12, 16):
    for _n in (0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 13, 16, 18, 24, 31, 32, 33, 48, 63, 64, 65, 96, 127, 128, 129, 200):
        RANGE.append((f"range of {_n} bits with {_b}-bit chunks", rangecheck(_b, _n)))
for _b, _n in ((8, 5), (8, 8), (8, 20), (4, 8), (16, 40)):
    RANGE.append((f"range proof of {_n} bits with {_b}-bit chunks", rangecheck(_b, _n, True)))


def bitcheck(n):
    def f(M):
        C = Circ(M)
        x = inp("x")
        res, Ip = C.run(GD + "range_check::range_check_pow2_unsigned", ["&api", x, I(n)])
        r, e = one(res, Ip)
        if r is None:
            return e
        o = ok_of(r[0])
        if n == 0 or n > 252:
            return [(o is None, f"a range of {n} bits is accepted")]
        if o is None:
            return [(False, f"a range of {n} bits is refused")]

        def gen(rnd):
            for v in [0, 1, (1 << n) - 1, 1 << n - 1] + [rnd.randrange(1 << n) for _ in range(12)]:
                yield {asym("x"): v}
        return judge_system(r[2], clist(o), [digit(x, i, 1) for i in range(n)], {("in", x, 1 << n)}, gen, [{asym("x"): -1}, {asym("x"): 1 << n}])
    return f


for _n in (0, 1, 2, 3, 8, 31, 33, 64, 100, 253, 255, 256, 300):
    RANGE.append((f"bits of a {_n}-bit value", bitcheck(_n)))


def logsum(terms, alpha):
    """(numerator, denominator) of sum of c / (alpha - v)"""
    ds = [fsub(alpha, v) for _, v in terms]
    num = fe(0)
    for i, (c, _) in enumerate(terms):
        num = fadd(num, fmul(c, FA.prod([d for j, d in enumerate(ds) if j != i])))
    return num, FA.prod(ds)


def lookup_identity(facts, table, queries, kind, hint_args):
    """one equation: the multiset of queries is a multiset of rows, the multiplicities as hints"""
    if not table or not queries:
        return [(None, "nothing to look up")]
    zs = [f for f in facts if f.op == "zero"]
    hs = [f for f in facts if f.op == "hints" and f.a[1] == kind]
    rs = [h for f in facts if f.op == "hints" and f.a[1] == "random" for h in f.a[0]]
    other = [f for f in facts if f.op not in ("zero", "hints")]
    w = len(table[0])
    if len(zs) != 1 or len(hs) != 1 or len(rs) != w or other:
        return [(None if zs and hs else False, f"{len(zs)} equations, {len(hs)} multiplicity hints, {len(rs)} challenges for a lookup of {len(queries)} values")]
    cs = [fe(h) for h in hs[0].a[0]]
    if len(cs) != len(table):
        return [(False, f"{len(cs)} multiplicities for a table of {len(table)} rows")]
    out = []
    if [fe(x) for x in hs[0].a[2]] != [fe(x) for x in hint_args]:
        out.append((False, "the multiplicity hint is given " + ", ".join(show(x)[:30] for x in hs[0].a[2])[:200]))
    import itertools
    got = zs[0].a[0]
    for perm in itertools.permutations(rs) if w <= 3 else [tuple(rs)]:
        al, co = fe(perm[0]), [fe(1)] + [fe(h) for h in perm[1:]]
        comb = [[FA.prod([fe(1)]) if False else sum_f([fmul(fe(v), k) for v, k in zip(row, co)]) for row in rows] for rows in (table, queries)]
        n1, d1 = logsum(list(zip(cs, comb[0])), al)
        n2, d2 = logsum([(fe(1), v) for v in comb[1]], al)
        want = fsub(fmul(n1, d2), fmul(n2, d1))
        if divide(got, want) not in (None, 0):
            return out or [(True, "")]
    # the equation is another one: values for which right multiplicities do not satisfy it, or wrong ones do
    rnd = random.Random(5)
    for t in range(20):
        val = {}
        ins = set()
        for q in queries:
            for v in q:
                collect(fe(v), ins)
        for row in table:
            for v in row:
                collect(fe(v), ins)
        rowv = [[rnd.randrange(1000) for _ in row] for row in table]
        for row, vs in zip(table, rowv):
            for x, v in zip(row, vs):
                a = list(FA.atoms(fe(x)))
                if a:
                    val[a[0]] = v
        good = t % 2 == 0
        pick = [rnd.randrange(len(table)) for _ in queries]
        for j, q in enumerate(queries):
            row = [ev(fe(x), val) for x in table[pick[j]]]
            if not good and j == len(queries) - 1:
                row = [(v + 1 + rnd.randrange(2) * 7919) % PRIME if (k == w - 1) else v for k, v in enumerate(row)]
            for x, v in zip(q, row):
                a = list(FA.atoms(fe(x)))
                if a:
                    val[a[0]] = v
        for i, ct in enumerate(cs):
            val[hs[0].a[0][i]] = sum(1 for p in pick if p == i)
        for h in rs:
            val[h] = rnd.randrange(PRIME)
        if any(a not in val for a in ins):
            continue
        try:
            z = ev(got, val)
        except Uneval as e:
            break
        if good and z:
            return out + [(False, "the equation fails although every looked-up value is a row of the table and the multiplicities are right")]
        if not good and not z:
            tab_ = {tuple(ev(fe(x), val) for x in row) for row in table}
            if any(tuple(ev(fe(x), val) for x in q) not in tab_ for q in queries):
                return out + [(False, "the equation holds for a looked-up value that is no row of the table")]
    return out + [(None, "another equation: " + show(got)[:200])]


def sum_f(xs):
    r = fe(0)
    for x in xs:
        r = fadd(r, x)
    return r


def final(b, n):
    def f(M):
        C = Circ(M)
        r, e = one(*C.run(CTX + "::new", [I(b)]))
        if r is None:
            return e
        r, e = one(*C.run(CTX + "::init", ["&tab", "&api"], {"tab": r[0]}))
        if r is None:
            return e
        cells, qs = r[1], []
        keys = clist(C.M.field(table_of(C, cells["tab"]), TBL, "table_keys"))
        if [const_of(fe(k)) for k in keys] != list(range(1 << b)):
            return [(False, f"the table of {b}-bit chunks holds {[show(k) for k in keys][:20]}")]
        tab_ = table_of(C, cells["tab"])
        for i in range(n):
            r, e = one(*C.run(TBL + "::query_range", ["&t", inp(f"q{i}")], {"t": tab_}))
            if r is None:
                return e
            tab_ = r[1]["t"]
            qs.append([inp(f"q{i}")])
        r, e = one(*C.run(TBL + "::final_check", ["&t", "&api"], {"t": tab_}))
        if r is None:
            return e
        if n == 0:
            return [(True, "")]
        return lookup_identity(r[2], [[k] for k in keys], qs, "myhint.querycounthint", [q[0] for q in qs])
    return f


for _b in (1, 2):
    for _n in (0, 1, 2, 3, 4):
        RANGE.append((f"lookup of {_n} values in a table of {1 << _b} rows", final(_b, _n)))
RANGE.append(("lookup of two values in a table of 8 rows", final(3, 2)))


def keyed(rows, n, w, batch):
    def f(M):
        C = Circ(M)
        T_ = LR + "LogUpSingleKeyTable"
        r, e = one(*C.run(T_ + "::new", [I(8)]))
        if r is None:
            return e
        t = r[0]
        table = [[inp(f"k{i}")] + [inp(f"v{i}.{j}") for j in range(w)] for i in range(rows)]
        queries = [[inp(f"q{i}")] + [inp(f"r{i}.{j}") for j in range(w)] for i in range(n)]
        steps = []
        if batch:
            steps.append(("new_table", [mkseq([x[0] for x in table]), mkseq([mkseq(x[1:]) for x in table])]))
            steps.append(("batch_query", [mkseq([x[0] for x in queries]), mkseq([mkseq(x[1:]) for x in queries])]))
        else:
            steps += [("add_table_row", [x[0], mkseq(x[1:])]) for x in table]
            steps += [("query", [x[0], mkseq(x[1:])]) for x in queries]
        for m, args in steps:
            r, e = one(*C.run(T_ + "::" + m, ["&t"] + args, {"t": t}))
            if r is None:
                return e
            t = r[1]["t"]
        r, e = one(*C.run(T_ + "::final_check", ["&t", "&api"], {"t": t}))
        if r is None:
            return e
        return lookup_identity(r[2], table, queries, "myhint.querycountbykeyhint", [fe(rows)] + [x[0] for x in table] + [x[0] for x in queries])
    return f


for _r, _n, _w in ((1, 1, 1), (2, 1, 1), (2, 2, 1), (3, 1, 1), (2, 1, 2), (1, 3, 1), (3, 2, 1)):
    for _b in (False, True):
        RANGE.append((f"keyed lookup of {_n} values of width {_w} in {_r} rows{' at once' if _b else ''}", keyed(_r, _n, _w, _b)))


# hints as the prover computes them
def hintrun(fn, xs, n, want):
    def f(M):
        C = Circ(M)
        res, Ip = C.run(fn, ["&in", "&out"], {"in": mkseq([fe(x) for x in xs]), "out": mkseq([fe(0)] * n)})
        r, e = one(res, Ip)
        if r is None:
            return e
        if want is None:
            return [(ok_of(r[0]) is None, "accepted")]
        if ok_of(r[0]) is None:
            return [(False, "refused")]
        got = [fe(v) for v in clist(r[1]["out"])]
        ks = [const_of(v) for v in got]
        if any(k is None for k in ks):
            return [(None, "values not known: " + ", ".join(map(show, got))[:120])]
        ks = [int(k) % PRIME for k in ks]
        return [(ks == [w % PRIME for w in want], f"{fn.split('::')[-1]}({', '.join(map(str, xs))}) = {ks} instead of {want}")]
    return f


for _n, _m, _a in ((1, 1, 1), (8, 4, 0xa5), (24, 8, 0x123456), (12, 12, 4095), (36, 12, (1 << 36) - 2), (64, 16, 0xfedcba9876543210), (130, 10, (1 << 128) - 3), (128, 2, (1 << 127) + 5), (60, 30, (1 << 59) + 7)):
    RANGE.append((f"digits of {_a:#x}: {_n} bits, {_m} each", hintrun(LR + "rangeproof_hint", [_n, _m, _a], _n // _m, digits_hint([_n, _m, _a], _n // _m))))
RANGE.append(("digits of width 0", hintrun(LR + "rangeproof_hint", [8, 0, 3], 2, None)))
for _q, _n in (([0], 1), ([0, 1, 1, 3], 4), ([2, 2, 2], 4), ([], 3), ([7, 0, 7, 5, 0], 8)):
    RANGE.append((f"multiplicities of {_q} in a table of {_n}", hintrun(LR + "query_count_hint", _q, _n, [_q.count(i) for i in range(_n)])))
RANGE.append(("multiplicities of a value that is no row", hintrun(LR + "query_count_hint", [1, 4], 4, None)))
for _k, _q in (([5, 9, 7], [9, 9, 5]), ([1], [1, 1]), ([0, 3], []), ([4, 2, 0, 1], [2, 0, 2, 1])):
    RANGE.append((f"multiplicities of {_q} among the keys {_k}", hintrun(LR + "query_count_by_key_hint", [len(_k)] + _k + _q, len(_k), [_q.count(k) for k in _k])))
