"""Scenarios for the procedural macros of the compiler's front end: the expansions of `kernel`, `call_kernel` and `memorized`
for the functions of stubs/crates/witness."""
import re
import itertools
from terms import *
import conc
from gint import *
from gkrscen import run_fn, S
import sc_derive

WHICH = "derive"
K = "witness::kernels::"
MM = "witness::memo::"
KERNELS, CALLS, MEMO = [], [], []


class Opt:
    def __init__(self, models, **o):
        self.opts = {"models": models, **o}


def nested(dims, leaf, pre=()):
    if not dims:
        return leaf(pre)
    return mkseq([nested(dims[1:], leaf, pre + (i,)) for i in range(dims[0])])


def prod(d):
    n = 1
    for x in d:
        n *= x
    return n


def flat(v, depth):
    if depth == 0:
        return [v]
    return [y for x in clist(v) for y in flat(x, depth - 1)]


def var(M, t):
    return M.mk(K + "Variable", id=t)


SHAPES = {
    "scalars": [("in", 0, []), ("out", 1, []), ("io", 1, [])],
    "vectors": [("out", 1, [3]), ("in", 0, [2]), ("io", 1, [4])],
    "matrices": [("in", 0, [2, 3]), ("out", 1, [3, 2]), ("io", 1, [4, 1])],
    "cubes": [("out", 1, [2, 3, 4]), ("in", 0, [4, 3, 2]), ("io", 1, [2, 1, 3])],
    "deep": [("in", 0, [2, 2, 3, 2]), ("out", 1, [2, 1, 2, 3])],
    "single_in": [("in", 0, [5])],
    "single_out": [("out", 1, [2, 5])],
    "computed_sizes": [("in", 0, [2, 3]), ("io", 1, [3, 4]), ("out", 1, [3, 3, 2])],
    "computed_cubes": [("in", 0, [2, 3, 3]), ("io", 1, [2, 4, 2])],
    "several": [("out", 1, [2]), ("io", 1, []), ("out", 1, [3, 2]), ("in", 0, [3, 2]), ("out", 1, []), ("in", 0, []), ("io", 1, [2, 3])],
    "mixed_kinds": [("in", 1, []), ("out", 0, []), ("io", 0, []), ("io", 0, [2, 2])],
}


def kernel(M, name):
    P = SHAPES[name]
    res, seen, ran = [], {}, []

    def touch(Ip, st, a, i):
        # the body: it sees its parameters and leaves new values in those it may change
        s = st
        got = []
        for k, (kind, mut, dims) in enumerate(P):
            x = a[1 + k]
            c = cell(Ip, s, x)
            if c is None:
                raise Giveup("parameter is not a reference")
            got.append(canon(Ip.freeze(s, Ip.read_loc(s, c.a[0], c.a[1]))))
            if mut:
                s = update(Ip, s, c, nested(dims, lambda p, k=k: var(M, mk("sym", "new%d_%s" % (k, "_".join(map(str, p))), "in"))))
        ran.append(tuple(got))
        return [(s, UNIT)]

    def compile_(Ip, st, a, i):
        specs = [canon(Ip.freeze(st, x)) for x in clist(D1(Ip, st, a[1]))]
        shapes = [canon(Ip.freeze(st, x)) for x in clist(D1(Ip, st, a[2]))]
        s = st.copy()
        s.env["c:ios"] = mkseq([mkseq([var(M, mk("sym", f"io{k}_{j}", "in")) for j in range(prod(d))]) for k, (_, _, d) in enumerate(P)])
        s.env["c:api"] = mk("api")
        out = []
        for s2, v in Ip.call_value(s, a[0], [mk("ref", "c:api", ()), mk("ref", "c:ios", ())], i["ctx"], i["bb"], i["body"], i["line"]):
            seen.setdefault("after", []).append((specs, shapes, canon(Ip.freeze(s2, s2.env["c:ios"]))))
            out.append((s2, Ok(mk("kernelprim"))))
        return out

    models = {K + "compile_with_spec_and_shapes": compile_}
    for n in (1, 2, 3, 4, 7):
        models[K + f"touch{n}"] = touch
    outs, Ip = run_fn(M, Opt(models), K + "compile_" + name, {}, [])
    if not outs:
        return [sc_derive.stopped(Ip, "compiling the kernel")]
    if len(outs) != 1 or len(seen.get("after", ())) != 1:
        return [(None, "several outcomes")]
    for s, v, _ in outs:
        res.append((v is Ok(mk("kernelprim")) or (None if v.op != "adt" else False), "the compiled kernel is not what is returned"))
    specs, shapes, ios = seen["after"][0]
    want = [M.mk(K + "IOVecSpec", len=I(prod(d)), is_input=I(1 if k in ("in", "io") else 0), is_output=I(1 if k in ("out", "io") else 0)) for k, _, d in P]
    res.append(same(specs, want, "the declared lengths and directions"))
    res.append(same(shapes, [mkseq([I(x) for x in d]) for _, _, d in P], "the declared shapes"))
    if len(ran) != 1:
        return res + [(False, f"the kernel's body runs {len(ran)} times")]
    for k, (kind, mut, dims) in enumerate(P):
        idx = {p: n for n, p in enumerate(itertools.product(*[range(x) for x in dims]))}
        given = nested(dims, lambda p: var(M, mk("sym", f"io{k}_{idx[p]}", "in"))) if kind != "out" else nested(dims, lambda p: var(M, I(0)))
        res.append(same(ran[0][k], given, f"parameter {k} as the body sees it"))
        if kind == "in":
            final = [var(M, mk("sym", f"io{k}_{n}", "in")) for n in range(prod(dims))]
        elif mut:
            final = [var(M, mk("sym", "new%d_%s" % (k, "_".join(map(str, p))), "in")) for p in idx]
        else:
            final = flat(given, len(dims))
        res.append(same(clist(ios)[k], mkseq(final), f"parameter {k} after the body has run"))
    return res


def same(got, want, what):
    g_, w = (canon(mkseq(x)) if isinstance(x, list) else canon(x) for x in (got, want))
    if g_ is w:
        return True, what
    if any(x.op in ("opaque", "blank", "phi") or x.op.startswith("hv") for x in subterms(g_)):
        return None, f"{what}: not understood"
    return False, f"{what}: {show(g_)[:160]} where {show(w)[:160]} is specified"


for _n in SHAPES:
    KERNELS.append((f"kernel {_n}: parameters are laid out as declared", lambda M, n=_n: kernel(M, n)))


# ------------------------------------------------------------------------------------------------ call_kernel
CALL = {   # handles passed, those the call may replace, number of runs, what is returned
    "call_none_mut": (2, [], lambda n: n, False), "call_first_mut": (2, [0], lambda n: add(n, I(1)), True),
    "call_last_mut": (3, [2], lambda n: I(7), True), "call_mixed": (5, [1, 3, 4], lambda n: n, True)}


def call(M, name, ok):
    nh, muts, par, tup = CALL[name]
    rec = []

    def ck(Ip, st, a, i):
        c = cell(Ip, st, a[3])
        if c is None:
            raise Giveup("handles")
        v = canon(Ip.freeze(st, Ip.read_loc(st, c.a[0], c.a[1])))
        rec.append((canon(Ip.freeze(st, D(Ip, st, a[1], 8))), canon(D(Ip, st, a[2])), v))
        s = update(Ip, st, c, mkseq([M.mk(K + "Handle", **{"0": mk("sym", f"left{k}", "in")}) for k in range(len(clist(v)))]))
        return [(s, Ok(UNIT) if ok else Err(mk("failed")))]

    hs = [M.mk(K + "Handle", **{"0": mk("sym", f"h{k}", "in")}) for k in range(nh)]
    kp, n = mk("sym", "kernel", "in"), mk("sym", "n", "usize")
    from absint import State
    st = State()
    st.bind(n, 0, 1000) if hasattr(st, "bind") else None
    outs, Ip = run_fn(M, Opt({K + "Ctx::call_kernel": ck}), K + name, {}, [M.mk(K + "Ctx"), kp, n] + hs)
    if not outs:
        return [sc_derive.stopped(Ip, "the call")]
    res = []
    left = [M.mk(K + "Handle", **{"0": mk("sym", f"left{k}", "in")}) for k in range(nh)]
    for s, v, _ in outs:
        if len(rec) != 1:
            res.append((False, f"the kernel is called {len(rec)} times"))
            continue
        res.append(same(rec[0][0], kp, "the kernel called"))
        res.append(same(rec[0][1], par(n), "the number of parallel runs"))
        res.append(same(rec[0][2], mkseq(hs), "the handles passed"))
        w = mk("tuple", tuple(left[k] for k in muts) + (I(1 if ok else 0),)) if tup else (Ok(UNIT) if ok else Err(mk("failed")))
        res.append(same(v, w, "the result and the variables passed as mutable"))
    return res


for _n in CALL:
    for _ok in (True, False):
        CALLS.append((f"{_n}: handles in order, {'success' if _ok else 'failure'} returned", lambda M, n=_n, ok=_ok: call(M, n, ok)))


# ------------------------------------------------------------------------------------------------ memorized
EX = MM + "extra::"
LEAF = {"JoinVecVariables": "join_vec_variables", "RebuildVecVariables": "rebuild_vec_variables", "HashStructureAndPrimitive": "hash_structure_and_primitive"}


def mv(M, n):
    return M.mk(MM + "Variable", id=mk("sym", n, "in"))


def shaped(M, shape, ctr, pre="v"):
    """shape: 'v' a variable, an int a number, ('n', shape) a number by reference..., a list of shapes"""
    if shape == "v":
        ctr[0] += 1
        return mv(M, f"{pre}{ctr[0]}")
    if isinstance(shape, int):
        return I(shape)
    return mkseq([shaped(M, x, ctr, pre) for x in shape])


def leaves(shape):
    return 1 if shape == "v" else 0 if isinstance(shape, int) else sum(leaves(x) for x in shape)


def dispatch(M, trait, m):
    """impls chosen by the value (Join, Hash) or by the type asked for (Rebuild)"""
    tys = []

    def tt_(s):
        return re.sub(r"\bstd::vec::|\balloc::vec::|witness::memo::|memo::|&|\s+|'\w+", "", s)

    def h(Ip, st, a, i):
        if trait == "RebuildVecVariables":
            ga = tt_(i["ga"][0]) if i["ga"] else ""
            mm = re.match(r"<(.*) as ", i["rfn"])
            if not ga and mm:
                ga = tt_(mm.group(1))
            if ga == "T" and tys:
                ga = tys[-1]
            if ga == "Variable":
                p = f"<{MM}Variable as {EX}{trait}>::{m}"
            elif ga.startswith("Vec<"):
                p = f"<alloc::vec::Vec<T> as {EX}{trait}>::{m}"
            else:
                raise Giveup("rebuilding a " + ga)
            tys.append(ga[4:-1] if ga.startswith("Vec<") else "")
            try:
                return Ip.call_local(p, st, a, i["ctx"], i["bb"])
            finally:
                tys.pop()
        v = D(Ip, st, a[0], 8)
        if v.op == "adt":
            p = f"<{MM}Variable as {EX}{trait}>::{m}"
        elif v.op == "int" or v.op == "sym":
            p = f"<T as {EX}{trait}>::{m}"
        else:
            clist(v)
            p = f"<alloc::vec::Vec<T> as {EX}{trait}>::{m}"
        c = cell(Ip, st, a[0])
        return Ip.call_local(p, st, [c if c is not None else mk("vref", v)] + list(a[1:]), i["ctx"], i["bb"])
    return h


FUNS = {   # (parameters, how each is passed), return shape in the scenario
    "one": ["v"], "two": ["v"], "other::one": ["v"], "pair": ["&v", "v"], "vecs": ["V", "&VV", "v", "&V"], "numbers": ["n", "v", "&n", "nn", "&V", "n"], "silent": ["v", "v"]}
RET = {"one": "v", "two": "v", "other::one": "v", "pair": ["v", "v", "v"], "vecs": [["v"], [], ["v", "v"]], "numbers": "v", "silent": None}


def run_memo(M, name, shapes, cached=False, ret="default"):
    """runs use_<name>; returns (outs, Ip, record)"""
    ret = RET[name] if ret == "default" else ret
    rec = {"body": [], "id": [], "call": [], "register": [], "get": []}
    mod = name.split("::")[:-1]
    path = MM + "::".join(mod + ["use_" + name.split("::")[-1]])

    def fz(Ip, st, x):
        return canon(Ip.freeze(st, D(Ip, st, x, 8) if x.op in ("ref", "vref") else x))

    def body(Ip, st, a, i):
        v = a[1]
        args = [fz(Ip, st, x) for x in (v.a[0] if v.op == "tuple" else [v])]
        rec["body"].append((fz(Ip, st, a[0]), args))
        return [(st, shaped(M, ret, [0], "r") if ret is not None else UNIT)]

    def new(Ip, st, a, i):
        return [(st, mk("kec", ()))]

    def upd(Ip, st, a, i):
        c = cell(Ip, st, a[0])
        w = Ip.read_loc(st, c.a[0], c.a[1])
        if w.op != "kec":
            raise Giveup("hashing into " + show(w)[:40])
        x = D(Ip, st, a[1], 8)
        if x.op != "str":
            xs = clist(x)
            if len(xs) == 1 and xs[0].op == "bytesof":
                x = xs[0].a[0]
            elif all(y.op == "int" for y in xs):
                x = mk("str", bytes(y.a[0] for y in xs).decode("latin1"))
        if x.op == "bytesof":
            x = x.a[0]
        if x.op != "str":
            raise Giveup("hashing " + show(x)[:60])
        return [(update(Ip, st, c, mk("kec", w.a[0] + (x.a[0],))), UNIT)]

    def fin(Ip, st, a, i):
        w = D(Ip, st, a[0], 4)
        c = cell(Ip, st, a[1])
        return [(update(Ip, st, c, mk("digest", "".join(w.a[0]))), UNIT)]

    def ident(Ip, st, a, i):
        d = D(Ip, st, a[1], 8)
        if d.op != "digest":
            raise Giveup("identifier of " + show(d)[:60])
        rec["id"].append(d.a[0])
        return [(st, mk("cid", d.a[0]))]

    def callsub(Ip, st, a, i):
        ins = [fz(Ip, st, x) for x in clist(D1(Ip, st, a[2]))]
        rec["call"].append((fz(Ip, st, a[1]), ins))
        if cached:
            return [(st, mkseq([mv(M, f"o{k}") for k in range(leaves(ret) if ret is not None else 0)]))]
        s = st.copy()
        s.env["c:formal"] = mkseq([mv(M, f"formal{k}") for k in range(len(ins))])
        out = []
        for s2, v in Ip.call_value(s, a[3], [a[0], mk("ref", "c:formal", ())], i["ctx"], i["bb"], i["body"], i["line"]):
            rec.setdefault("inner", []).append(fz(Ip, s2, v))
            n = len(clist(rec["inner"][-1]))
            out.append((s2, mkseq([mv(M, f"o{k}") for k in range(n)])))
        return out

    def register(Ip, st, a, i):
        rec["register"].append((fz(Ip, st, a[1]), fz(Ip, st, a[2])))
        return [(st, UNIT)]

    def get(Ip, st, a, i):
        rec["get"].append(fz(Ip, st, a[1]))
        if cached:
            return [(st, mkseq(structure(ret)))]
        if not rec["register"]:
            raise Giveup("structure asked for before it is known")
        return [(st, rec["register"][-1][1])]

    models = {MM + "body": body, MM + "RootAPI::hash_to_sub_circuit_id": ident, MM + "RootAPI::call_sub_circuit": callsub, MM + "RootAPI::register_sub_circuit_output_structure": register,
              MM + "RootAPI::get_sub_circuit_output_structure": get, "tiny_keccak::Keccak::v256": new, "tiny_keccak::Hasher::update": upd, "tiny_keccak::Hasher::finalize": fin,
              "<tiny_keccak::Keccak as tiny_keccak::Hasher>::update": upd, "<tiny_keccak::Keccak as tiny_keccak::Hasher>::finalize": fin}
    def tostr(Ip, st, a, i):
        v = D(Ip, st, a[0], 8)
        if v.op not in ("int", "str"):
            raise Giveup("text of " + show(v)[:60])
        return [(st, mk("str", str(v.a[0])))]
    models["std::string::ToString::to_string"] = tostr
    for t, m in LEAF.items():
        h = dispatch(M, t, m)
        models[EX + t + "::" + m] = h
        rec_impls = [p for _, _, p in M.prog.impls.get((EX + t, m), ())]
        rec.setdefault("impls", []).extend(rec_impls)
    disp = {p: models[p.split(" as ")[1].rsplit(">::", 1)[0] + "::" + p.rsplit("::", 1)[1]] for p in rec["impls"]}
    ctr = [0]
    vals, cells, args = [], {"api": mk("api")}, [("&", "api")]
    for k, (kind, sh) in enumerate(zip(FUNS[name], shapes)):
        v = shaped(M, sh, ctr)
        vals.append(v)
        if kind.startswith("&"):
            cells[f"p{k}"] = v
            args.append(("&", f"p{k}"))
        else:
            args.append(v)
    outs, Ip = run_fn(M, Opt({**disp, **models}), path, cells, args)
    return outs, Ip, rec, vals, ret


def structure(ret):
    if ret is None or ret == "v":
        return []
    return [I(len(ret))] + [y for x in ret for y in structure(x)]


def variables(v):
    if v.op == "adt":
        return [v]
    if v.op == "int":
        return []
    return [y for x in clist(v) for y in variables(x)]


def formal(M, v, ctr):
    if v.op == "adt":
        ctr[0] += 1
        return mv(M, f"formal{ctr[0] - 1}")
    if v.op == "int":
        return v
    return mkseq([formal(M, x, ctr) for x in clist(v)])


def memo(M, name, shapes, cached=False, ret="default"):
    outs, Ip, rec, vals, ret = run_memo(M, name, shapes, cached, ret)
    if not outs:
        return [sc_derive.stopped(Ip, "the call")]
    if len(outs) != 1 or len(rec["id"]) != 1 or len(rec["call"]) != 1:
        return [(None if len(outs) != 1 else False, f"{len(outs)} outcomes, {len(rec['call'])} sub-circuit calls")]
    cid = mk("cid", rec["id"][0])
    res = [same(rec["call"][0][0], cid, "the sub-circuit called"),
           same(rec["call"][0][1], [x for v in vals for x in variables(v)], "the variables handed to the sub-circuit")]
    n = leaves(ret) if ret is not None else 0
    if cached:
        res.append((not rec["body"] and not rec["register"], "the body runs again for a known sub-circuit"))
    else:
        if len(rec["body"]) != 1:
            return res + [(False, f"the body runs {len(rec['body'])} times")]
        who, args = rec["body"][0]
        res.append(same(who, S(name), "the function run"))
        ctr = [0]
        res.append(same(args, [formal(M, v, ctr) for v in vals], "the arguments of the function, in terms of the sub-circuit's inputs"))
        if ret is not None:
            res.append(same(rec["inner"][0], [mv(M, f"r{k + 1}") for k in range(n)], "the outputs of the sub-circuit"))
            res.append(same([mk("tuple", x) for x in rec["register"]], [mk("tuple", (cid, mkseq(structure(ret))))], "the structure registered"))
    for s, v, _ in outs:
        ctr = [-1]

        def build(sh):
            if sh == "v":
                ctr[0] += 1
                return mv(M, f"o{ctr[0]}")
            return mkseq([build(x) for x in sh])
        res.append(same(v, build(ret) if ret is not None else UNIT, "the value returned"))
    return res


V1, V2, V3, V11 = ["v"], ["v"] * 2, ["v"] * 3, ["v"] * 11
CASES = [("one", ["v"], "default"), ("other::one", ["v"], "default"), ("pair", ["v", "v"], "default"), ("pair", ["v", "v"], []), ("silent", ["v", "v"], "default"),
         ("vecs", [V2, [V1, V3], "v", V1], "default"), ("vecs", [[], [[], V2], "v", []], [[], []]), ("vecs", [V1, [], "v", V2], []),
         ("numbers", [7, "v", 12345678901, [[1, -2], [], [3]], V2, 9], "default"), ("numbers", [0, "v", 0, [], [], 0], "default")]
for _n, _sh, _r in CASES:
    for _c in (False, True):
        MEMO.append((f"memorized {_n} {_sh}, result {_r}{', already known' if _c else ''}: behaves as the function itself", lambda M, n=_n, sh=_sh, r=_r, c=_c: memo(M, n, sh, c, r)))

# calls that must not share a sub-circuit
KEYS = [("one", ["v"]), ("two", ["v"]), ("other::one", ["v"]), ("pair", ["v", "v"]), ("silent", ["v", "v"])]
KEYS += [("vecs", [a, b, "v", d]) for a in (V1, V2, V11, []) for b in ([], [V1], [V1, V1], [V2], [V11], [[], V2]) for d in ([], V1, V2, V11)]
KEYS += [("numbers", [n, "v", m, k, b, l]) for n in (0, 1, 11, 111) for m in (0, 1, 11) for k in ([], [[1]], [[11]], [[1, 1]], [[1], [1]], [[], [1, 1]], [[-1]]) for b in ([], V1) for l in (0, 1, 11)]


def keys(M):
    seen, res = {}, []
    for name, sh in KEYS:
        outs, Ip, rec, vals, ret = run_memo(M, name, sh, True)
        if len(outs) != 1 or len(rec["id"]) != 1:
            res.append((None, "the key is not understood"))
            continue
        k = rec["id"][0]
        o = seen.setdefault(k, (name, sh))
        res.append((o == (name, sh), f"{name}{sh} and {o[0]}{o[1]} share the sub-circuit key {k[:60]!r}"))
        if len(res) % 40 == 1:
            outs, Ip, rec, vals, ret = run_memo(M, name, sh, False, {"one": "v"}.get(name, "default"))
            res.append((rec["id"] == [k] or (None if len(rec["id"]) != 1 else False), "the key of a call depends on what is already known"))
    return res


MEMO.append(("calls of different functions, structures or numbers have different keys", keys))
