"""Scenarios for the tensor operations and layers of the circuit."""
from sc_circ import *
from ndmodel import arr, parts, count, steps

ND = "ndarray::"
WHICH = "circuits"


def nd(C, shape, xs):
    return arr(shape, xs)


def und(C, v):
    """(shape, elements in row-major order) of an array value"""
    sh, xs, _ = parts(v)
    return sh, xs


def ten(name, shape):
    return [inp(f"{name}{k}") for k in range(count(shape))]


def LK(C, k):
    return C.M.mk(CP + "layers::layer_kinds::LayerKind", k)


LA = GD + "linear_algebra::"
MATRIX = []


def elementwise(fn, f, sa, sb):
    def g_(M):
        C = Circ(M)
        a, b = ten("a", sa), ten("b", sb)
        res, Ip = C.run(LA + fn, ["&api", "&a", nd(C, sb, b), LK(C, "Add")], {"a": nd(C, sa, a)})
        r, e = one(res, Ip)
        if r is None:
            return e
        o = ok_of(r[0])
        if count(sa) != count(sb):
            return [(o is None, f"operands of shapes {sa} and {sb} are accepted")]
        if o is None:
            return [(False, "the circuit is refused")]
        sh, out = und(C, o)
        if sh != list(sa):
            return [(False, f"the result has shape {sh} instead of {sa}")]
        return judge_system(r[2], out, [f(x, y) for x, y in zip(a, b)], set(), values(a + b))
    return g_


def values(vs, lo=-50, hi=50, n=12):
    def gen(rnd):
        for _ in range(n):
            yield {next(iter(FA.atoms(v))): rnd.randrange(lo, hi) for v in vs}
    return gen


for _fn, _f in (("matrix_addition", fadd), ("matrix_subtraction", fsub), ("matrix_hadamard_product", fmul)):
    for _a, _b in (((3,), (3,)), ((2, 3), (2, 3)), ((2, 3), (6,)), ((2, 2, 2), (2, 2, 2)), ((1, 3), (3,)), ((2, 3), (3,)), ((2,), (4,)), ((), ())):
        MATRIX.append((f"{_fn} of {_a} and {_b}", elementwise(_fn, _f, _a, _b)))


def product(a, b, m, n, p):
    out = []
    for i in range(m):
        for j in range(p):
            t = fe(0)
            for k in range(n):
                t = fadd(t, fmul(a[i * n + k], b[k * p + j]))
            out.append(t)
    return out


def matmul_values(xs, n):
    l, m, k = xs[-3:]
    a, b = xs[:l * m], xs[l * m:l * m + m * k]
    return [sum(a[i * m + q] * b[q * k + j] for q in range(m)) for i in range(l) for j in range(k)]


HINTS["jstprove.matmul_hint"] = matmul_values


def matmul(sa, sb, how, reps=1, sc=None):
    def g_(M):
        C = Circ(M)
        a, b = ten("a", sa), ten("b", sb)
        A, B = nd(C, sa, a), nd(C, sb, b)
        K = LK(C, "MatMul")
        good = len(sa) == len(sb) == 2 and sa[1] == sb[0]
        if how == "full":
            res, Ip = C.run(LA + "matrix_multiplication", ["&api", A, B, K])
        elif how == "hint":
            res, Ip = C.run(LA + "unconstrained_matrix_multiplication", ["&api", A, B, K])
        else:
            res, Ip = C.run(LA + "freivalds_verify_matrix_product", ["&api", "&a", "&b", "&c", K, I(reps)], {"a": A, "b": B, "c": nd(C, sc, ten("c", sc))})
        r, e = one(res, Ip)
        if r is None:
            return e
        o = ok_of(r[0])
        if how == "check":
            ok = good and len(sc) == 2 and (sc[0], sc[1]) == (sa[0], sb[1]) and reps > 0
            return [((o is not None) == ok, f"a product of {sa} and {sb} in {sc} with {reps} repetitions is {'refused' if ok else 'accepted'}")]
        if not good:
            return [(o is None, f"operands of shapes {sa} and {sb} are accepted")]
        if o is None:
            return [(False, "the circuit is refused")]
        sh, out = und(C, o)
        if sh != [sa[0], sb[1]]:
            return [(False, f"the result has shape {sh} instead of {[sa[0], sb[1]]}")]
        want = product(a, b, sa[0], sa[1], sb[1])
        if how == "full":
            return judge_system(r[2], out, want, set(), values(a + b))
        # the hinted product together with its verification
        st0 = r[1]["api"]
        res, Ip = C.run(LA + "freivalds_verify_matrix_product", ["&api", "&a", "&b", "&c", K, I(reps)], {"a": A, "b": B, "c": o, "api": st0})
        r2, e = one(res, Ip)
        if r2 is None:
            return e
        if ok_of(r2[0]) is None:
            return [(False, "the verification is refused")]
        return judge_system(r2[2], out, want, set(), values(a + b))
    return g_


for _a, _b in (((1, 1), (1, 1)), ((2, 3), (3, 2)), ((3, 1), (1, 3)), ((1, 4), (4, 1)), ((2, 2), (2, 4)), ((2, 3), (2, 3)), ((3,), (3, 1)), ((1, 2, 2), (2, 2)), ((0, 2), (2, 2)), ((2, 0), (0, 2))):
    MATRIX.append((f"product of {_a} and {_b}", matmul(_a, _b, "full")))
    MATRIX.append((f"verified product of {_a} and {_b}", matmul(_a, _b, "hint")))
    if len(_a) == len(_b) == 2 and _a[1] == _b[0] and _a[0] * _a[1]:
        MATRIX.append((f"verified product of {_a} and {_b}, twice", matmul(_a, _b, "hint", 2)))
for _a, _b, _c, _r in (((2, 3), (3, 2), (2, 2), 0), ((2, 3), (3, 2), (2, 2), 1), ((2, 3), (3, 2), (3, 2), 1), ((2, 3), (3, 2), (2, 3), 1), ((2, 3), (3, 2), (4,), 1), ((2, 3), (2, 2), (2, 2), 1), ((2, 2), (2,), (2, 2), 1), ((4,), (2, 2), (2, 2), 1), ((2, 3), (3, 4), (2, 4), 3)):
    MATRIX.append((f"check of {_c} = {_a} {_b}, {_r} times", matmul(_a, _b, "check", _r, _c)))
MH = CP + "hints::matmul::matmul_hint"
for _l, _m, _n in ((1, 1, 1), (2, 3, 2), (1, 2, 3), (3, 1, 2), (0, 1, 1), (2, 0, 2)):
    _x = [7 * k % 11 - 3 for k in range(_l * _m + _m * _n)]
    MATRIX.append((f"hint for {_l}x{_m} times {_m}x{_n}", hintrun(MH, _x + [_l, _m, _n], _l * _n, matmul_values(_x + [_l, _m, _n], 0))))
MATRIX.append(("hint with too few values", hintrun(MH, [1, 2, 3, 1, 2, 2], 2, None)))
MATRIX.append(("hint with a wrong number of outputs", hintrun(MH, [1, 2, 3, 4, 1, 2, 1], 2, None)))


# ------------------------------------------------------------------------------------------------ functions by lookup
LOOKUP = []
FL = GD + "function_lookup::"
EXPQ = CP + "hints::exp::compute_exp_quantized"
KT = LR + "LogUpSingleKeyTable"


def fexp(k):
    import math

    def f(x, s):
        return round(math.exp(x / s) * s) if x / s < 40 else (1 << 63) - 1
    return f


def quad(k):
    return lambda x, s: (x * x + 3 * x + k * s) & 0xffff


def signedfn(k):
    return lambda x, s: k * x - 7


def fmodel(f):
    def h(Ip, st, a, i):
        x, s = D(Ip, st, a[0]), D(Ip, st, a[1])
        if x.op != "int" or s.op != "int":
            raise Giveup("function of an unknown value " + show(x) + " " + show(s))
        return [(st, I(f(x.a[0], s.a[0])))]
    return h


def fingerprint(rows):
    import hashlib
    return "t" + hashlib.sha256(repr(sorted(rows.items())).encode()).hexdigest()[:12]


def m_final(Ip, st, a, i):
    """a table's final check, as the range check property says what it does: every looked-up pair is a row"""
    t = D(Ip, st, a[0], 8)
    ad = Ip.p.adts[("ws", KT)]["variants"][0]["fields"]
    at = {f[0]: k for k, f in enumerate(ad)}
    rows = [clist(D(Ip, st, x, 8)) for x in clist(D(Ip, st, t.a[3][at["table"]], 8))]
    qs = [clist(D(Ip, st, x, 8)) for x in clist(D(Ip, st, t.a[3][at["query_results"]], 8))]
    if not rows or not qs:
        Ip.oblige(i["body"], i["bb"], "panic", i["line"], "a table and looked-up values", False, st, ())
        return []
    d = {}
    for r in rows:
        ks = [const_of(F(Ip, st, x)) for x in r]
        if len(ks) != 2 or None in ks:
            raise Giveup("table of unknown rows")
        k, v = (int(x) % PRIME for x in ks)
        if d.setdefault(k, v) != v:
            raise Giveup("two rows with one key")
    n = fingerprint(d)
    ROWS[n] = d
    for q in qs:
        st = fact(Ip, st, a[1], "row", n, F(Ip, st, q[0]), F(Ip, st, q[1]))
    return [(st, UNIT)]


LM = {**RM, KT + "::final_check": m_final}
FN = mk("fn", EXPQ, EXPQ)


def table_entries(n, scale, f, signed_):
    ks = range(-(1 << n - 1), 1 << n - 1) if signed_ else range(1 << n)
    return {k % PRIME: f(k, scale) % PRIME for k in ks}


def lookup(n, scale, f, queries, signed_):
    """x looked up in the table of f: y = f(x)"""
    def g_(M):
        C = Circ(M, {**LM, EXPQ: fmodel(f)})
        r, e = one(*C.run(FL + "FunctionLookupTable::build_" + ("signed" if signed_ else "unsigned"), ["&api", FN, I(n), I(scale)]))
        if r is None:
            return e
        t, api = r[0], r[1]["api"]
        qs = [(inp(f"x{k}"), inp(f"y{k}")) for k in range(queries)]
        for x, y in qs:
            r, e = one(*C.run(FL + "FunctionLookupTable::query", ["&t", x, y], {"t": t}))
            if r is None:
                return e
            t = r[1]["t"]
        res, Ip = C.run(FL + "FunctionLookupTable::finalize", ["&t", "&api"], {"t": t, "api": api})
        if not queries:
            return [(True, "")]
        r, e = one(res, Ip)
        if r is None:
            return e
        want = table_entries(n, scale, f, signed_)
        got = [x for x in r[2] if x.op == "row"]
        if [x for x in r[2] if x.op != "row"]:
            return [(None, "more than rows")]
        if len({x.a[0] for x in got}) != 1:
            return [(False, f"{len(got)} lookups of {queries} values")]
        t = ROWS[got[0].a[0]]
        if t != want:
            bad = sorted(set(t.items()) ^ set(want.items()))[:2]
            return [(False, f"the table of {n} bits at scale {scale} holds other rows: {[(signed(a), signed(b)) for a, b in bad]}")]
        return [([(x.a[1], x.a[2]) for x in got] == [(fe(a), fe(b)) for a, b in qs], "other pairs are looked up")]
    return g_


for _n in (1, 2, 3, 4):
    for _f, _nm in ((quad(2), "a function"), (signedfn(3), "a function with negative values"), (signedfn(-5), "a falling function"), (fexp(0), "exp")):
        for _s in (True, False):
            LOOKUP.append((f"{'signed' if _s else 'unsigned'} {_n}-bit table of {_nm}", lookup(_n, 4, _f, 2, _s)))
LOOKUP.append(("signed 8-bit table", lookup(8, 16, signedfn(9), 3, True)))
LOOKUP.append(("table with no lookup", lookup(3, 16, signedfn(9), 0, True)))


def verify_exp(total, scale, f, times=1):
    def g_(M):
        C = Circ(M, {**LM, EXPQ: fmodel(f)})
        r, e = one(*C.run(FL + "DecomposedExpLookup::build", ["&api", I(total), I(scale), FN]))
        if r is None:
            return e
        d, api = r[0], r[1]["api"]
        outs = []
        for k in range(times):
            res, Ip = C.run(FL + "DecomposedExpLookup::verify_exp", ["&d", "&api", "&lookup", inp(f"x{k}")], {"d": d, "api": api, "lookup": mk("logup")})
            r, e = one(res, Ip)
            if r is None:
                return e
            if ok_of(r[0]) is None:
                return [(False, "the circuit is refused")]
            outs.append(ok_of(r[0]))
            d, api = r[1]["d"], r[1]["api"]
        res, Ip = C.run(FL + "DecomposedExpLookup::finalize", ["&d", "&api"], {"d": d, "api": api})
        r, e = one(res, Ip)
        if r is None:
            return e
        cb = total // 2
        hb = total - cb
        hi = {k % PRIME: f(k << cb, scale) % PRIME for k in range(-(1 << hb - 1), 1 << hb - 1)}
        lo = {k: f(k, scale) % PRIME for k in range(1 << cb)}
        for t in (hi, lo):
            ROWS[fingerprint(t)] = t
        want, lims = [], set()
        for k in range(times):
            x = inp(f"x{k}")
            P = fadd(x, fe(1 << total - 1))
            eh = tab(fingerprint(hi), fsub(fdiv(P, 1 << cb), fe(1 << hb - 1)))
            el = tab(fingerprint(lo), fmod(P, 1 << cb))
            want.append(fdiv(fmul(eh, el), scale))
            lims.add(("in", P, 1 << total))
        h = 1 << total - 1

        def gen(rnd):
            for v in [-h, -h + 1, -1, 0, 1, h - 1] + [rnd.randrange(-h, h) for _ in range(10)]:
                yield {asym(f"x{k}"): (v if not k else rnd.randrange(-h, h)) for k in range(times)}
        HINTS["jstprove.exp_hint"] = lambda xs, n: [f(signed(xs[0]), xs[1])]
        return judge_system(r[2], outs, want, lims, gen, [{asym(f"x{k}"): h if not k else 0 for k in range(times)}, {asym(f"x{k}"): -h - 1 if not k else 0 for k in range(times)}])
    return g_


for _t in (2, 3, 4, 5, 6, 8):
    for _sc in (2, 4, 16, 256):
        LOOKUP.append((f"exponential of {_t}-bit values at scale {_sc}", verify_exp(_t, _sc, fexp(0))))
LOOKUP.append(("exponential of two values", verify_exp(4, 4, fexp(0), 2)))
LOOKUP.append(("exponential of 10-bit values at scale 4096", verify_exp(10, 4096, fexp(0))))


def function(fn, args, want):
    def g_(M):
        C = Circ(M)
        r, e = one(*C.run(fn, args))
        if r is None:
            return e
        v = r[0]
        if v.op in ("fe", "sym"):
            v = const_of(fe(v))
            v = None if v is None else signed(int(v) % PRIME)
        elif v.op == "int":
            v = v.a[0]
        else:
            v = None
        if v is None:
            return [(None, show(r[0])[:100])]
        return [(v == want, f"{fn.split('::')[-1]}({', '.join(map(show, args))}) = {v} instead of {want}")]
    return g_


for _v in (0, 1, 42, -1, -42, (1 << 63) - 1, -(1 << 63) + 1, -(1 << 63)):
    LOOKUP.append((f"field element of {_v}", function(FL + "i64_to_field", [I(_v)], _v)))
    LOOKUP.append((f"integer of field element {_v}", function(CP + "hints::field_to_i64", [fe(_v)], max(_v, -(1 << 63)))))
for _v in ((1 << 63), (1 << 200), PRIME // 2):
    LOOKUP.append((f"integer of field element {_v}", function(CP + "hints::field_to_i64", [fe(_v)], (1 << 63) - 1)))
    LOOKUP.append((f"integer of field element -{_v}", function(CP + "hints::field_to_i64", [fe(-_v)], -(1 << 63))))
