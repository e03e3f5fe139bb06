"""Scenarios for the GKR verifier: small circuits with opaque coefficients, a proof of opaque items."""
from terms import *
import fieldalg as FA
from fieldalg import fe, fadd, fsub, fmul, feq
from gint import *

CI = "circuit::layered::circuit::"
GA = "circuit::layered::gates::"
TRN = "gkr_engine::transcript::"
SCHEME = "gkr_engine::scheme::GKRScheme"
FT = "gkr_engine::field_engine::definition::FieldType"
VER = "gkr::verifier::snark::Verifier"


class Setting:
    """mpi processes, lanes of a packed element, scheme"""
    def __init__(self, M, mpi=1, pack=1, scheme="Vanilla", ftype=None):
        self.M, self.mpi, self.pack, self.scheme = M, mpi, pack, scheme
        self.ftype = ftype or ("M31x16" if pack > 1 else "Goldilocksx1")
        self.opts = {"konst": {
            "arith::simd_field::SimdField::PACK_SIZE": I(pack),
            "FieldEngine::FIELD_TYPE": M.mk(FT, self.ftype),
            "GKREngine::SCHEME": M.mk(SCHEME, scheme)}}

    def gate(self, ins, out, coef, kind=None, gtype=0):
        M = self.M
        ct = M.mk(GA + "CoefType", "Constant") if kind is None else M.mk(GA + "CoefType", "Random") if kind == "rnd" else \
            adtv1(M, GA + "CoefType", "PublicInput", I(kind[1]))
        if kind == "rnd":
            coef = FA.atom(f"stored{coef}")      # what the circuit holds before the coefficients are drawn
        return M.mk(GA + "Gate", i_ids=mkseq([I(x) for x in ins]), o_id=I(out), coef_type=ct, coef=coef, gate_type=I(gtype))

    def layer(self, nin, nout, mul=(), add=(), cst=(), uni=(), skip=None):
        M = self.M
        if skip is None:
            skip = not mul
        return M.mk(CI + "CircuitLayer", input_var_num=I(nin), output_var_num=I(nout), mul=mkseq([self.gate(*g) for g in mul]),
                    add=mkseq([self.gate(*g) for g in add]), const_=mkseq([self.gate(*g) for g in cst]), uni=mkseq([self.gate(*g) for g in uni]),
                    structure_info=M.mk(CI + "StructureInfo", skip_sumcheck_phase_two=I(1 if skip else 0)))


def adtv1(M, path, variant, *fs):
    a = M.prog.adts.get((M.crate, path))
    if a is None:
        raise Giveup(f"type {path} is gone")
    for vi, v in enumerate(a["variants"]):
        if v["name"] == variant:
            return adt(path, vi, variant, tuple(fs))
    raise Giveup(f"{path} has no variant {variant}")


def run_fn(M, set_, path, cells, args, opts=None):
    """cells: {name: value} of the caller; args: terms or ('&', name).  [(state, value, {name: value})]"""
    st = State()
    for n, v in cells.items():
        st.env["c:" + n] = v
    av = [mk("ref", "c:" + x[1], ()) if isinstance(x, tuple) else x for x in args]
    o = dict(set_.opts)
    o.update(opts or {})
    outs, Ip = M.call(path, st, av, o)
    res = []
    for s, v in outs:
        res.append((s, Ip.freeze(s, v), {n: Ip.freeze(s, s.env["c:" + n]) for n in cells}))
    return res, Ip


# ------------------------------------------------------------------------------------------------ the protocol, as specified
class Spec:
    """What the verifier computes, written from the protocol: which conditions have to hold for acceptance."""
    def __init__(self, st, layers, pub, claimed, nrnd=0, start=0):
        self.S, self.layers, self.pub, self.claimed = st, layers, pub, claimed
        self.t = mk("tr", "start")
        self.n = start
        self.conds = []
        self.nrnd = nrnd

    def app(self, kind, v):
        self.t = mk("tr", self.t, kind, v)

    def draw(self):
        c = fe(mk("chal", self.t))
        self.t = mk("tr", self.t, "draw", UNIT)
        return c

    def sync(self):
        if self.S.mpi > 1:
            s = mk("trstate", self.t)
            self.app("state", UNIT)
            self.app("set", mkseq((s,)))

    def item(self):
        v = felem(self.n)
        self.n += 1
        return v

    def round(self, deg, claim):
        ps = []
        for _ in range(deg + 1):
            p = self.item()
            ps.append(p)
            self.app("field_element", p)
        r = self.draw()
        self.conds.append(feq(fadd(ps[0], ps[1]), claim))
        return FA.lagrange(ps, r), r

    def rounds(self, n, deg, claim):
        rs = []
        for _ in range(n):
            claim, r = self.round(deg, claim)
            rs.append(r)
        return claim, rs

    def pre(self):
        self.commitment = mk("item", self.n, "commitment")
        self.n += 1
        self.app("commitment", mkseq((mk("ser", self.commitment),)))
        self.rnd = [self.draw() for _ in range(self.nrnd)]
        self.sync()

    def coef(self, g):
        if g[3] == "rnd":
            return self.rnd[g[2]]
        return g[2]

    def const_sum(self, cst, w, rs, rm):
        S = self.S
        local = len(self.pub) // S.mpi
        es, em = FA.eq_table(rs), FA.eq_table(rm)
        out = fe(0)
        for ins, o, c, kind in cst:
            if isinstance(kind, tuple):
                v = fe(0)
                for m in range(S.mpi):
                    x = self.pub[m * local + kind[1]]
                    xs = x.a[0] if x.op == "simd" else [x]
                    v = fadd(v, fmul(em[m], FA.total(fmul(e, y) for e, y in zip(es, xs))))
            else:
                v = self.coef((ins, o, c, kind))
            out = fadd(out, fmul(w[o], v))
        return out

    def vanilla_layer(self, L, ch, c0, c1, alpha, app=True):
        S = self.S
        rz0, rz1, rs, rm = ch
        w = FA.eq_table(rz0)
        claim = c0
        if alpha is not None:
            w = [fadd(a, fmul(alpha, b)) for a, b in zip(w, FA.eq_table(rz1))]
            claim = fadd(claim, fmul(alpha, c1))
        claim = fsub(claim, self.const_sum(L.get("cst", ()), w, rs, rm))
        nv, ns, nm = L["nin"], S.pack.bit_length() - 1, S.mpi.bit_length() - 1
        claim, rx = self.rounds(nv, 2, claim)
        claim, rs2 = self.rounds(ns, 3, claim)
        claim, rm2 = self.rounds(nm, 3, claim)
        lanes = fmul(FA.eq_vec(rs, rs2), FA.eq_vec(rm, rm2))
        ex = FA.eq_table(rx)
        vx = self.item()
        add = FA.total(fmul(fmul(w[o], ex[ins[0]]), self.coef((ins, o, c, k))) for ins, o, c, k in L.get("add", ()))
        claim = fsub(claim, fmul(vx, fmul(add, lanes)))
        self.app("field_element", vx)
        if L.get("mul"):
            claim, ry = self.rounds(nv, 2, claim)
            ey = FA.eq_table(ry)
            vy = self.item()
            self.app("field_element", vy)
            mul = FA.total(fmul(fmul(fmul(w[o], ex[ins[0]]), ey[ins[1]]), self.coef((ins, o, c, k))) for ins, o, c, k in L["mul"])
            self.conds.append(feq(claim, fmul(fmul(vx, vy), fmul(mul, lanes))))
            return (rx, ry, rs2, rm2), vx, vy
        self.conds.append(feq(claim, fe(0)))
        return (rx, None, rs2, rm2), vx, None

    def square_layer(self, L, ch, c0):
        S = self.S
        rz0, _, rs, rm = ch
        w = FA.eq_table(rz0)
        claim = fsub(c0, self.const_sum(L.get("cst", ()), w, rs, rm))
        claim, rx = self.rounds(L["nin"], 6, claim)
        claim, rs2 = self.rounds(S.pack.bit_length() - 1, 6, claim)
        claim, rm2 = self.rounds(S.mpi.bit_length() - 1, 6, claim)
        lanes = fmul(FA.eq_vec(rs, rs2), FA.eq_vec(rm, rm2))
        ex = FA.eq_table(rx)
        v = self.item()
        for g in L.get("uni", ()):
            ins, o, c, k, ty = g
            t = fmul(fmul(fmul(w[o], ex[ins[0]]), self.coef(g[:4])), lanes)
            claim = fsub(claim, fmul(t, FA.fpow(v, {12346: 1, 12345: 5}[ty])))
        self.app("field_element", v)
        self.conds.append(feq(claim, fe(0)))
        return (rx, None, rs2, rm2), v

    def gkr(self):
        S = self.S
        k, n, m = self.layers[-1]["nout"], S.pack.bit_length() - 1, S.mpi.bit_length() - 1
        rz = [self.draw() for _ in range(k)]
        rs = [self.draw() for _ in range(n)]
        rm = [self.draw() for _ in range(m)]
        ch, c0, c1, alpha = (rz, None, rs, rm), self.claimed, None, None
        self.app("field_element", self.claimed)
        for L in reversed(self.layers):
            if S.scheme == "Vanilla":
                ch, c0, c1 = self.vanilla_layer(L, ch, c0, c1, alpha)
                alpha = self.draw() if ch[1] is not None else None
            else:
                ch, c0 = self.square_layer(L, ch, c0)
        self.sync()
        return ch, c0, c1

    def opening(self, rz, rs, rm, claim, params, vk):
        op = mk("item", self.n, "opening")
        self.n += 1
        at = self.S.M.mk(TRN + "challenge::ExpanderSingleVarChallenge", rz=mkseq(rz), r_simd=mkseq(rs), r_mpi=mkseq(rm))
        vs = (params, vk, self.commitment, at, claim, op)
        self.conds.append(mk("pcsok", self.t, *vs))
        self.app("pcs", mk("tuple", vs))
        self.app("u8_slice", mkseq((mk("ser", op),)))

    def verify(self, params, vk):
        self.pre()
        ch, c0, c1 = self.gkr()
        self.opening(ch[0], ch[2], ch[3], c0, params, vk)
        if ch[1] is not None:
            self.opening(ch[1], ch[2], ch[3], c1, params, vk)
        return self.conds


# ------------------------------------------------------------------------------------------------ comparing verdicts
def conj(t):
    if t is TRUE or t.op == "int" and t.a[0] == 1:
        return set()
    if t.op == "and":
        return set().union(*(conj(x) for x in t.a))
    return {t}


def cond_atoms(c):
    return FA.atoms(c.a[0]) if c.op == "feq0" else set()


def ev(t, val):
    """truth of a condition under val (atoms -> numbers, opaque booleans -> 0/1)"""
    if t is TRUE or t is FALSE:
        return t is TRUE
    if t.op == "int":
        return t.a[0] != 0
    if t.op == "feq0":
        return FA.value(t.a[0], val) == 0
    if t.op == "and":
        return all(ev(x, val) for x in t.a)
    if t.op == "or":
        return any(ev(x, val) for x in t.a)
    if t.op == "not":
        return not ev(t.a[0], val)
    if t.op == "eq0":
        return not ev(t.a[0], val)
    if t in val:
        return bool(val[t])
    raise Giveup("condition " + t.op)


def leaves(t, out):
    if t.op in ("and", "or", "not", "eq0"):
        for x in t.a:
            leaves(x, out)
    elif t.op not in ("int", "bool"):
        out.add(t)
    return out


import random


def solve(conds, target, seed=1, fix=()):
    """values of all atoms under which exactly the conditions `target` (a subset of conds, in order) hold, as far as possible"""
    rnd = random.Random(seed)
    val = {}
    for c in conds:
        for a in cond_atoms(c):
            val.setdefault(a, rnd.randrange(2, FA.P))
        if c.op != "feq0":
            val[c] = 1 if c in target else 0
    frozen = set(fix)
    for c in conds:
        if c.op != "feq0" or c not in target:
            frozen |= cond_atoms(c)
            continue
        cand = [a for a in cond_atoms(c) if a not in frozen and a.op != "chal"]
        cand.sort(key=lambda a: (a.op == "item", a.a[0] if a.op == "item" else 0), reverse=True)
        for a in cand:
            v = []
            for x in (0, 1, 2):
                val[a] = x
                v.append(FA.value(c.a[0], val))
            d = (v[1] - v[0]) % FA.P
            if d and (v[2] - v[1]) % FA.P == d:
                val[a] = -v[0] * pow(d, FA.P - 2, FA.P) % FA.P
                break
        else:
            for a in cand:
                val[a] = rnd.randrange(2, FA.P)
            return None
        frozen |= cond_atoms(c)
    return val


def holds(s, v, val):
    """(does the outcome apply, its verdict)"""
    for b, x in s.bl.items():
        if any(l.op not in ("feq0",) and l not in val for l in leaves(b, set())):
            continue
        if ev(b, val) != bool(x):
            return False, None
    return True, ev(v, val)


def judge_verdict(outs, Ip, spec, mapping=None):
    """outs: [(state, verdict term)]"""
    if not outs:
        return [(False, "no proof is judged: the verifier stops in " + "; ".join(sorted({f"{x[1]}:{x[3]}" for x in Ip.raw})[:3]))] if Ip.raw else [(None, "no outcome")]
    want = set()
    for c in spec:
        want |= conj(c)
    proved = True
    seen = []
    for s, v in outs:
        pos, neg = set(), []
        for b, x in s.bl.items():
            if x:
                pos |= conj(b)
            else:
                neg.append(conj(b))
        for c in list(pos) + [y for n in neg for y in n] + sorted(leaves(v, set())):
            if c not in seen:
                seen.append(c)
        if v is FALSE:
            if not any(n and n <= want for n in neg):
                proved = False
        elif conj(v) | pos != want:
            proved = False
    if proved:
        return [(True, f"accepts exactly when the {len(want)} conditions of the protocol hold")]
    order = [c for s in spec for c in (sorted(conj(s)) if s.op == "and" else [s])] 
    order = [c for c in order if c is not TRUE]
    extra = [c for c in seen if c not in order and c.op in ("feq0", "pcsok", "sym")]
    for k in range(-1, len(order)):
        target = set(order) - ({order[k]} if k >= 0 else set())
        for seed in (1, 2):
            # conditions met only by the implementation get the values that follow
            val = solve(order, target, seed)
            if val is None:
                continue
            rnd = random.Random(seed + 7)
            for c in extra:
                for a in cond_atoms(c):
                    val.setdefault(a, rnd.randrange(2, FA.P))
                if c.op != "feq0":
                    val.setdefault(c, 1)
            truth = all(ev(c, val) for c in order)
            try:
                got = [r for ok, r in (holds(s, v, val) for s, v in outs) if ok]
            except Giveup as e:
                return [(None, str(e))]
            if len(set(got)) == 1 and got[0] != truth:
                if truth:
                    return [(False, "rejects a proof that meets every condition of the protocol")]
                return [(False, f"accepts a proof that breaks condition {k + 1} of {len(order)} of the protocol ({describe(order[k])})")]
    # a condition of the implementation alone
    return [(None, "the conditions differ in form; no separating proof found")]


def describe(c):
    if c.op == "feq0":
        its = sorted(a.a[0] for a in cond_atoms(c) if a.op == "item")
        return "relation between proof items " + ", ".join(map(str, its[:8]))
    return "the opening check" if c.op == "pcsok" else c.op


def judge_reject(outs, Ip, what):
    if not outs:
        if Ip.raw:
            return [(False, f"{what}: the verifier stops in " + "; ".join(sorted({f"{x[1]}:{x[3]}" for x in Ip.raw})[:3]))]
        return [(None, "no outcome")]
    for x in Ip.raw:
        if x[0] == "panic":
            conds = [c for b, w in x[5].bl.items() if w for c in sorted(conj(b))]
            if all(w for w in x[5].bl.values()):
                val = solve(conds, set(conds))
                if val is not None and all(ev(c, val) for c in conds):
                    return [(False, f"{what}: the verifier stops in {x[1]}:{x[3]}")]
    if all(v is FALSE for s, v in outs):
        return [(True, f"{what}: rejected")]
    for s, v in outs:
        if v is FALSE:
            continue
        conds = []
        for b, x in s.bl.items():
            if not x:
                break
            conds += sorted(conj(b))
        else:
            conds += sorted(conj(v), key=lambda c: max([a.a[0] for a in cond_atoms(c) if a.op == "item"], default=10 ** 6))
            val = solve(conds, set(conds))
            if val is not None and all(ev(c, val) for c in conds):
                return [(False, f"{what}: accepted when the other conditions hold")]
    return [(None, f"{what}: not decided")]


def run_verify(M, S_, path, layers, pub, rnds, opts=None, consts=None, extra=(), byref=False):
    """runs a Verifier method; [(state, verdict)]"""
    ls = [S_.layer(**L) for L in layers]
    kinds = {"mul": "Mul", "add": "Add", "cst": "Const", "uni": "Uni"}
    R = GA + "RndCoefIdx"
    idx = [M.mk(R, layer=I(l), kind=M.mk(GA + "GateKind", kinds[k]), gate=I(g)) for l, k, g in rnds]
    # the stored coefficient of a random gate is not its value
    circ = M.mk(CI + "Circuit", layers=mkseq(ls), rnd_coefs_identified=I(1), rnd_coefs=mkseq(idx))
    o = dict(S_.opts)
    o.update(opts or {})
    o["models"] = {"gkr_engine::poly_commit::definition::ExpanderPCS::verify": _pcs_model, **o.get("models", {})}
    ver = M.mk(VER, mpi_config=mk("sym", "mpicfg", "in"), phantom=UNIT)
    o["models"]["gkr_engine::mpi_engine::definition::MPIEngine::world_size"] = lambda Ip, st, a, i: [(st, I(S_.mpi))]
    o["models"]["<gkr_engine::mpi_engine::engine::MPIConfig as gkr_engine::mpi_engine::definition::MPIEngine>::world_size"] = lambda Ip, st, a, i: [(st, I(S_.mpi))]
    claimed = FA.atom("claimed_v")
    proof = M.mk(TRN + "proof::Proof", bytes=mk("proofbytes"))
    cells = {"v": ver, "c": circ, "pub": mkseq(pub), "claim": claimed, "pp": S("params"), "vk": S("vk"), "proof": proof}
    res, Ip = run_fn(M, S_, path, cells, [("&", "v"), ("&", "c"), ("&", "pub"), ("&", "claim"), ("&", "pp"), ("&", "vk"), ("&", "proof")] + list(extra), o)
    return [(s, v) for s, v, _ in res], Ip


def _pcs_model(Ip, st, a, i):
    import gint
    return gint._pcs(Ip, st, a, i)


def S(x):
    return mk("str", x)
