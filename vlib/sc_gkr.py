"""The GKR verifier: its verdict against the conditions of the protocol."""
from gkrscen import *

VERDICT, REJECT, SQUARE, WIRING, HOLO = [], [], [], [], []
A_ = FA.atom
METHODS = ("verify", "verify_with_progress", "par_verify", "verify_ref", "verify_ref_with_progress")


def a_(n):
    return A_(n)


def circuits():
    """name -> (layers input side first, public inputs per process, [(layer, kind, gate) drawn at random])"""
    add = lambda i, o, n: ((i,), o, a_(n), None)
    mul = lambda i, j, o, n: ((i, j), o, a_(n), None)
    cst = lambda o, n: ((), o, a_(n), None)
    C = {}
    C["one layer, product and sum gates"] = ([dict(nin=1, nout=0, mul=[mul(0, 1, 0, "m0")], add=[add(1, 0, "a0")])], 0, [])
    C["one layer, sum gates only"] = ([dict(nin=1, nout=1, add=[add(0, 1, "a0"), add(1, 0, "a1")])], 0, [])
    C["one input, no variable"] = ([dict(nin=0, nout=0, mul=[mul(0, 0, 0, "m0")], cst=[cst(0, "k0")])], 0, [])
    C["two layers with products"] = ([dict(nin=1, nout=1, mul=[mul(0, 1, 0, "m0"), mul(1, 1, 1, "m1")], add=[add(0, 0, "a0")], cst=[cst(1, "k0")]),
                                      dict(nin=1, nout=0, mul=[mul(0, 1, 0, "m2")], add=[add(1, 0, "a1")])], 0, [])
    C["linear layer below a product layer"] = ([dict(nin=1, nout=1, add=[add(0, 0, "a0"), add(1, 1, "a1")]),
                                                dict(nin=1, nout=1, mul=[mul(0, 1, 0, "m0"), mul(1, 0, 1, "m1")])], 0, [])
    C["linear layer above a product layer"] = ([dict(nin=1, nout=1, mul=[mul(0, 1, 1, "m0")], add=[add(0, 0, "a0")]),
                                                dict(nin=1, nout=1, add=[add(0, 1, "a1"), add(1, 0, "a2")], cst=[cst(0, "k0")])], 0, [])
    C["linear layer between product layers"] = ([dict(nin=1, nout=1, mul=[mul(0, 1, 1, "m0")], add=[add(0, 0, "a0")]),
                                                 dict(nin=1, nout=1, add=[add(0, 1, "a1"), add(1, 0, "a2")]),
                                                 dict(nin=1, nout=1, mul=[mul(0, 0, 1, "m1"), mul(1, 0, 0, "m2")])], 0, [])
    C["narrowing layers"] = ([dict(nin=2, nout=1, mul=[mul(0, 3, 0, "m0"), mul(1, 2, 1, "m1")], add=[add(2, 1, "a0")]),
                              dict(nin=1, nout=0, mul=[mul(0, 1, 0, "m2")])], 0, [])
    C["widening layers"] = ([dict(nin=0, nout=1, mul=[mul(0, 0, 1, "m0")], add=[add(0, 0, "a0")]),
                             dict(nin=1, nout=2, mul=[mul(0, 1, 3, "m1")], add=[add(1, 2, "a1"), add(0, 1, "a2")])], 0, [])
    C["public inputs"] = ([dict(nin=1, nout=1, mul=[mul(0, 1, 0, "m0")], add=[add(1, 1, "a0")], cst=[((), 0, a_("u"), ("pub", 1)), ((), 1, a_("u2"), ("pub", 0)), cst(0, "k0")]),
                           dict(nin=1, nout=0, mul=[mul(0, 1, 0, "m1")], cst=[((), 0, a_("u3"), ("pub", 1))])], 2, [])
    r = lambda ins, o, k: (ins, o, k, "rnd")
    C["random coefficients"] = ([dict(nin=1, nout=1, mul=[mul(0, 1, 0, "m0"), r((1, 1), 1, 2)], add=[r((0,), 0, 0)], cst=[cst(1, "k0"), r((), 0, 4)]),
                                 dict(nin=1, nout=0, mul=[r((0, 1), 0, 1)], add=[add(0, 0, "a0"), r((1,), 0, 3)])], 0,
                                [(0, "add", 0), (1, "mul", 0), (0, "mul", 1), (1, "add", 1), (0, "cst", 1)])
    return C


def squares():
    uni = lambda i, o, n, ty: ((i,), o, a_(n), None, ty)
    cst = lambda o, n: ((), o, a_(n), None)
    C = {}
    C["one layer"] = ([dict(nin=1, nout=1, uni=[uni(0, 1, "a0", 12346), uni(1, 0, "p0", 12345)], cst=[cst(0, "k0")], skip=True)], 0, [])
    C["two layers"] = ([dict(nin=1, nout=1, uni=[uni(0, 0, "p0", 12345), uni(1, 1, "a0", 12346), uni(0, 1, "a1", 12346)], skip=True),
                        dict(nin=1, nout=0, uni=[uni(1, 0, "p1", 12345), uni(0, 0, "a2", 12346)], cst=[((), 0, a_("u"), ("pub", 0))], skip=True)], 1, [])
    C["two layers, phase two not marked as skipped"] = ([dict(nin=1, nout=1, uni=[uni(0, 0, "p0", 12345), uni(1, 1, "a0", 12346)], skip=False),
                                                         dict(nin=1, nout=0, uni=[uni(1, 0, "p1", 12345)], skip=False)], 0, [])
    C["random coefficients"] = ([dict(nin=1, nout=0, uni=[((0,), 0, 0, "rnd", 12345), ((1,), 0, 1, "rnd", 12346)], cst=[((), 0, 2, "rnd")], skip=True)], 0,
                                [(0, "uni", 0), (0, "uni", 1), (0, "cst", 0)])
    return C


def publics(S_, n):
    return [mk("simd", tuple(a_(f"pub{m}_{i}_{l}") for l in range(S_.pack))) if S_.pack > 1 else a_(f"pub{m}_{i}_0") for m in range(S_.mpi) for i in range(n)]


def extra(meth):
    return [Some(S("callback"))] if meth.endswith("_with_progress") else []


def scen(cname, tab, scheme, meth, mpi, pack):
    def f(M):
        layers, npub, rnds = tab()[cname]
        S_ = Setting(M, mpi, pack, scheme)
        pub = publics(S_, npub)
        sp = Spec(S_, layers, pub, a_("claimed_v"), len(rnds))
        conds = sp.verify(S("params"), S("vk"))
        outs, Ip = run_verify(M, S_, VER + "::<Cfg>::" + meth, layers, pub, rnds, extra=extra(meth))
        return judge_verdict(outs, Ip, conds)
    return f


def rejects(cname, tab, scheme, meth, mpi, pack):
    def f(M):
        layers, npub, rnds = tab()[cname]
        S_ = Setting(M, mpi, pack, scheme)
        pub = publics(S_, npub)
        sp = Spec(S_, layers, pub, a_("claimed_v"), len(rnds))
        sp.verify(S("params"), S("vk"))
        out = []
        for n in range(sp.n):
            # cut short: nothing from item n on can be read; malformed: item n alone cannot be decoded
            for what, o in ((f"proof cut short at item {n}", {"fail": frozenset(range(n, sp.n + 40))}), (f"item {n} malformed", {"invalid": frozenset([n])})):
                outs, Ip = run_verify(M, S_, VER + "::<Cfg>::" + meth, layers, pub, rnds, opts=o, extra=extra(meth))
                out += judge_reject(outs, Ip, what)
        return out
    return f


SIZES = ((1, 1), (2, 1), (1, 2), (2, 2))
for _c in circuits():
    for _m in METHODS:
        for _mpi, _pack in SIZES + (((4, 4),) if _m in ("verify", "par_verify") else ()):
            if _m.endswith("_with_progress") and (_mpi, _pack) != (1, 1):
                continue
            VERDICT.append((f"{_m}: {_c}; {_mpi} processes, {_pack} lanes", scen(_c, circuits, "Vanilla", _m, _mpi, _pack)))
for _c in ("two layers with products", "linear layer below a product layer", "linear layer above a product layer", "one layer, sum gates only"):
    for _m in METHODS:
        for _mpi, _pack in ((1, 1), (2, 2))[:2 if _c.startswith("two") else 1]:
            if _m.endswith("_with_progress") and (_mpi, _pack) != (1, 1):
                continue
            REJECT.append((f"{_m} refuses damaged proofs: {_c}; {_mpi} processes, {_pack} lanes", rejects(_c, circuits, "Vanilla", _m, _mpi, _pack)))
for _c in squares():
    for _m in METHODS:
        for _mpi, _pack in ((1, 1), (2, 2)):
            if _m.endswith("_with_progress") and (_mpi, _pack) != (1, 1):
                continue
            SQUARE.append((f"{_m} (power gates): {_c}; {_mpi} processes, {_pack} lanes", scen(_c, squares, "GkrSquare", _m, _mpi, _pack)))
            if _c == "two layers":
                REJECT.append((f"{_m} (power gates) refuses damaged proofs: {_c}; {_mpi} processes, {_pack} lanes", rejects(_c, squares, "GkrSquare", _m, _mpi, _pack)))
