"""Models of the ndarray operations the circuit crate uses.  An array is its shape, its elements in row-major (logical) order and
its memory layout as far as operations ask for it: c (row-major), f (contiguous in another order), v (not contiguous)."""
from terms import *
import conc
import models as M
from conc import Giveup, clist, mkseq, it, vlen
from gint import cell, update, canon



def D(Ip, st, a, n=1):
    """the value behind references; a value that is no reference is itself"""
    for _ in range(n):
        if a.op not in ("ref", "vref"):
            break
        a = Ip.deref_val(st, a)
    return a


def D1(Ip, st, a):
    return D(Ip, st, a, 8)


NM = {}
P = "ndarray::"
AB = P + "ArrayBase::<S, D>::"
OW = P + "ArrayBase::<ndarray::OwnedRepr<A>, D>::"


def n(*names):
    def d(f):
        for x in names:
            NM[x] = f
        return f
    return d


def count(s):
    k = 1
    for d in s:
        k *= d
    return k


def steps(s):
    st, acc = [0] * len(s), 1
    for i in reversed(range(len(s))):
        st[i] = acc
        acc *= s[i]
    return st


def arr(shape, xs, lay="c"):
    xs = tuple(xs)
    assert len(xs) == count(shape)
    if sum(1 for d in shape if d > 1) <= 1 and lay == "f" or not xs:
        lay = "c"
    return adt("nd", 0, "nd", (mkseq([I(d) for d in shape]), mkseq(xs), mk("str", lay)))


def isarr(v):
    return v.op == "adt" and v.a[0] == "nd"


def parts(v):
    """(shape, elements, layout)"""
    if not isarr(v):
        raise Giveup("array is not known: " + show(v)[:60])
    return [D0(x) for x in clist(v.a[3][0])], clist(v.a[3][1]), v.a[3][2].a[0]


def D0(x):
    if x.op != "int":
        raise Giveup("dimension is not known: " + show(x)[:60])
    return x.a[0]


def get(Ip, st, a):
    v = a
    for _ in range(6):
        if v.op in ("ref", "vref"):
            v = Ip.deref_val(st, v)
    return parts(v)


def ints(Ip, st, a):
    v = D(Ip, st, a, 8) if a.op in ("ref", "vref") else a
    if v.op == "int":
        return [v.a[0]]
    if v.op == "tuple":
        return [D0(D1(Ip, st, x)) for x in v.a[0]]
    if v.op in ("fe",):
        raise Giveup("a circuit value as a size")
    return [D0(D1(Ip, st, x)) for x in clist(v)]


def stop(Ip, st, i, why):
    Ip.oblige(i["body"], i["bb"], "bounds", i["line"], why, False, st, ())
    return []


def err():
    return Err(mk("err"))


def seqv(xs):
    return mkseq([I(x) for x in xs])


def pattern(i, sh):
    """value of a shape or an index of the array's dimension type"""
    ty = i["dest"] or ""
    if "(" in ty and "IxDyn" not in ty or any("Dim<" in g or "Ix2" in g for g in (i["ga"] or ())) and len(sh) > 1:
        return mk("tuple", tuple(I(x) for x in sh))
    if ty == "usize":
        return I(sh[0])
    return seqv(sh)


@n(P + "IxDyn", P + "IxDynImpl::0")
def _(Ip, st, a, i):
    return [(st, seqv(ints(Ip, st, a[0])))]


for _k in "1234":
    NM[P + "Ix" + _k] = lambda Ip, st, a, i: [(st, mkseq([D1(Ip, st, x) for x in a]))]


@n("<ndarray::IxDynImpl as core::clone::Clone>::clone", "<ndarray::IxDynImpl as core::ops::deref::Deref>::deref")
def _(Ip, st, a, i):
    v = D(Ip, st, a[0], 8)
    return [(st, v if "Clone" in i["rfn"] else mk("vref", v))]


@n("<ndarray::Dim<N> as core::ops::index::Index<usize>>::index")
def _(Ip, st, a, i):
    v = ints(Ip, st, a[0])
    k = D0(D1(Ip, st, a[1]))
    if k >= len(v):
        return stop(Ip, st, i, "index of a dimension")
    return [(st, mk("vref", I(v[k])))]


NM["ndarray::IxDynImpl::size"] = lambda Ip, st, a, i: [(st, I(count(ints(Ip, st, a[0]))))]
NM["ndarray::Dimension::slice"] = NM["ndarray::Dimension::to_vec"] = lambda Ip, st, a, i: [(st, mk("vref", seqv(ints(Ip, st, a[0]))))]
NM["ndarray::Dimension::ndim"] = lambda Ip, st, a, i: [(st, I(len(ints(Ip, st, a[0]))))]


@n(OW + "from_shape_vec")
def _(Ip, st, a, i):
    sh, xs = ints(Ip, st, a[0]), clist(D1(Ip, st, a[1]))
    return [(st, Ok(arr(sh, xs)) if count(sh) == len(xs) else err())]


@n(OW + "from_elem")
def _(Ip, st, a, i):
    sh = ints(Ip, st, a[0])
    if count(sh) > 100000:
        raise Giveup("large array")
    return [(st, arr(sh, [D1(Ip, st, a[1])] * count(sh)))]


@n(OW + "default")
def _(Ip, st, a, i):
    sh = ints(Ip, st, a[0])
    info = dict(i)
    info["ga"] = [g for g in i["ga"] if "Dim" not in g and "ndarray" not in g and "(" not in g and "Shape" not in g][:1] or [""]
    info["dest"] = info["ga"][0]
    (s, v), = Ip.opts["models"]["std::default::Default::default"](Ip, st, [], info)
    return [(s, arr(sh, [v] * count(sh)))]


@n("<ndarray::ArrayBase<ndarray::OwnedRepr<A>, ndarray::IxDynImpl> as core::default::Default>::default")
def _(Ip, st, a, i):
    return [(st, arr([0], []))]


@n(P + "ArrayBase::<ndarray::OwnedRepr<A>, ndarray::Dim<1>>::from_vec")
def _(Ip, st, a, i):
    xs = clist(D1(Ip, st, a[0]))
    return [(st, arr([len(xs)], xs))]


def reshape(Ip, st, a, i, owned):
    sh, xs, lay = get(Ip, st, a[0])
    to = ints(Ip, st, a[1])
    if count(to) != len(xs) or owned and lay != "c":
        return [(st, err())]
    return [(st, Ok(arr(to, xs)))]


NM[OW + "into_shape_with_order"] = lambda Ip, st, a, i: reshape(Ip, st, a, i, True)
NM[AB + "to_shape"] = lambda Ip, st, a, i: reshape(Ip, st, a, i, False)
NM[AB + "shape"] = lambda Ip, st, a, i: [(st, mk("vref", seqv(get(Ip, st, a[0])[0])))]
NM[AB + "ndim"] = lambda Ip, st, a, i: [(st, I(len(get(Ip, st, a[0])[0])))]
NM[AB + "len"] = lambda Ip, st, a, i: [(st, I(count(get(Ip, st, a[0])[0])))]
NM[AB + "is_empty"] = lambda Ip, st, a, i: [(st, I(int(count(get(Ip, st, a[0])[0]) == 0)))]
NM[AB + "nrows"] = lambda Ip, st, a, i: [(st, I(get(Ip, st, a[0])[0][0]))]
NM[AB + "ncols"] = lambda Ip, st, a, i: [(st, I(get(Ip, st, a[0])[0][1]))]
NM[AB + "dim"] = NM[AB + "raw_dim"] = lambda Ip, st, a, i: [(st, pattern(i, get(Ip, st, a[0])[0]))]
NM[AB + "is_standard_layout"] = lambda Ip, st, a, i: [(st, I(int(get(Ip, st, a[0])[2] == "c")))]
NM[AB + "into_dyn"] = NM[AB + "view"] = NM[AB + "into_owned"] = NM[AB + "to_owned"] = NM[AB + "as_standard_layout"] = NM["<ndarray::ArrayBase<S, D> as core::clone::Clone>::clone"] = None


def _same(Ip, st, a, i):
    sh, xs, lay = get(Ip, st, a[0])
    m = (i.get("rfn") or i["fn"]).rsplit("::", 1)[1]
    if m in ("into_owned", "to_owned") and lay == "v" or m == "as_standard_layout":
        lay = "c"
    return [(st, arr(sh, xs, lay))]


for _k in [k for k, v in NM.items() if v is None]:
    NM[_k] = _same


@n(AB + "into_dimensionality")
def _(Ip, st, a, i):
    sh, xs, lay = get(Ip, st, a[0])
    import re
    want = [re.search(r"Dim<(?:\[usize; )?(\d+)", g) for g in i["ga"][2:]] or [re.search(r"Dim<(\d+)", i["dest"] or "")]
    k = next((int(m.group(1)) for m in want if m), None)
    if k is None:
        raise Giveup("dimensionality " + str(i["ga"]))
    return [(st, Ok(arr(sh, xs, lay)) if k == len(sh) else err())]


@n(AB + "iter", "<&'a ndarray::ArrayBase<S, D> as core::iter::traits::collect::IntoIterator>::into_iter")
def _(Ip, st, a, i):
    return [(st, it("seq", tuple(mk("vref", x) for x in get(Ip, st, a[0])[1])))]


@n("<ndarray::ArrayBase<ndarray::OwnedRepr<A>, D> as core::iter::traits::collect::IntoIterator>::into_iter")
def _(Ip, st, a, i):
    return [(st, it("seq", tuple(get(Ip, st, a[0])[1])))]


@n("<ndarray::ArrayBase<ndarray::ViewRepr<'a, A>, D> as core::iter::traits::collect::IntoIterator>::into_iter")
def _(Ip, st, a, i):
    return [(st, it("seq", tuple(mk("vref", x) for x in get(Ip, st, a[0])[1])))]


@n(AB + "indexed_iter")
def _(Ip, st, a, i):
    sh, xs, _ = get(Ip, st, a[0])
    s = steps(sh)
    ty = i["dest"] or ""
    pat = (lambda ix: mk("tuple", tuple(map(I, ix)))) if any("Dim<" in g for g in i["ga"]) and len(sh) > 1 else seqv
    return [(st, it("seq", tuple(mk("tuple", (pat([k // s[j] % sh[j] for j in range(len(sh))]), mk("vref", x))) for k, x in enumerate(xs))))]


def at(Ip, st, a, i):
    sh, xs, _ = get(Ip, st, a[0])
    ix = ints(Ip, st, a[1])
    if len(ix) != len(sh) or any(not 0 <= x < d for x, d in zip(ix, sh)):
        return None, xs
    return sum(x * s for x, s in zip(ix, steps(sh))), xs


def place(Ip, st, a, k, xs):
    c = cell(Ip, st, a)
    if c is None:
        return mk("vref", xs[k])
    return M.sub_ref(Ip, st, M.sub_ref(Ip, st, c, ("f", 1, "buf")), ("elt", I(k)))


@n("<ndarray::ArrayBase<S, D> as core::ops::index::Index<I>>::index", "<ndarray::ArrayBase<S, D> as core::ops::index::IndexMut<I>>::index_mut")
def _(Ip, st, a, i):
    k, xs = at(Ip, st, a, i)
    if k is None:
        return stop(Ip, st, i, "array index within bounds")
    if "Mut" not in i["rfn"]:
        return [(st, mk("vref", xs[k]))]
    return [(st, place(Ip, st, a[0], k, xs))]


@n(AB + "get", AB + "get_mut")
def _(Ip, st, a, i):
    k, xs = at(Ip, st, a, i)
    if k is None:
        return [(st, NONE)]
    return [(st, Some(place(Ip, st, a[0], k, xs) if "mut" in i["fn"] else mk("vref", xs[k])))]


@n(AB + "first")
def _(Ip, st, a, i):
    xs = get(Ip, st, a[0])[1]
    return [(st, Some(mk("vref", xs[0])) if xs else NONE)]


@n(AB + "as_slice")
def _(Ip, st, a, i):
    sh, xs, lay = get(Ip, st, a[0])
    return [(st, Some(mk("vref", mkseq(xs))) if lay == "c" else NONE)]


@n(AB + "as_slice_mut")
def _(Ip, st, a, i):
    sh, xs, lay = get(Ip, st, a[0])
    if lay != "c":
        return [(st, NONE)]
    c = cell(Ip, st, a[0])
    if c is None:
        raise Giveup("array in no place")
    return [(st, Some(M.sub_ref(Ip, st, c, ("f", 1, "buf"))))]


@n(OW + "into_raw_vec_and_offset")
def _(Ip, st, a, i):
    sh, xs, lay = get(Ip, st, a[0])
    if lay == "f":
        raise Giveup("raw buffer of a permuted array")
    return [(st, mk("tuple", (mkseq(xs), Some(I(0)) if xs else NONE)))]


def permute(sh, xs, ax):
    s = steps(sh)
    to = [sh[k] for k in ax]
    t = steps(to)
    out = []
    for k in range(len(xs)):
        out.append(xs[sum((k // t[j] % to[j]) * s[ax[j]] for j in range(len(to)))])
    return to, out


def perm(Ip, st, a, i, ax):
    sh, xs, lay = get(Ip, st, a[0])
    ax = ax(sh)
    if sorted(ax) != list(range(len(sh))):
        return stop(Ip, st, i, "axes are a permutation")
    if lay == "v":
        raise Giveup("permutation of a view")
    # the axes longer than one, in their order in memory
    if lay == "f" and ax != list(range(len(sh))):
        raise Giveup("permutation of a permuted array")
    big = [k for k in ax if sh[k] > 1]
    to, out = permute(sh, xs, ax)
    return [(st, arr(to, out, "c" if lay == "c" and big == sorted(big) else "f"))]


NM[AB + "permuted_axes"] = lambda Ip, st, a, i: perm(Ip, st, a, i, lambda sh: ints(Ip, st, a[1]))
NM[AB + "reversed_axes"] = NM[AB + "t"] = lambda Ip, st, a, i: perm(Ip, st, a, i, lambda sh: list(range(len(sh)))[::-1])


@n(AB + "map", AB + "mapv")
def _(Ip, st, a, i):
    sh, xs, lay = get(Ip, st, a[0])
    todo = [(st, [])]
    for x in xs:
        nxt = []
        for s, l in todo:
            for s2, v in Ip.call_value(s, a[1], [x if i["fn"].endswith("mapv") else mk("vref", x)], i["ctx"], i["bb"], i["body"], i["line"]):
                nxt.append((s2, l + [v]))
        todo = nxt
    return [(s, arr(sh, l, "c" if lay == "v" else lay)) for s, l in todo]


def write(Ip, st, a, shape_xs):
    c = cell(Ip, st, a)
    if c is None:
        raise Giveup("array in no place")
    return update(Ip, st, c, shape_xs)


@n(AB + "fill")
def _(Ip, st, a, i):
    v = deep(Ip, st, a[0])
    if v is not None:
        ref, lanes = v
        s = st
        x = D1(Ip, st, a[1])
        for k in lanes:
            s = update(Ip, s, M.sub_ref(Ip, s, M.sub_ref(Ip, s, ref, ("f", 1, "buf")), ("elt", I(k))), x)
        return [(s, UNIT)]
    sh, xs, lay = get(Ip, st, a[0])
    return [(write(Ip, st, a[0], arr(sh, [D1(Ip, st, a[1])] * len(xs), lay)), UNIT)]


@n(AB + "assign")
def _(Ip, st, a, i):
    v = deep(Ip, st, a[0])
    sh2, ys, _ = get(Ip, st, a[1])
    if v is not None:
        ref, lanes = v
        if len(ys) != len(lanes):
            raise Giveup("assignment of another shape")
        s = st
        for k, y in zip(lanes, ys):
            s = update(Ip, s, M.sub_ref(Ip, s, M.sub_ref(Ip, s, ref, ("f", 1, "buf")), ("elt", I(k))), y)
        return [(s, UNIT)]
    sh, xs, lay = get(Ip, st, a[0])
    if sh != sh2:
        raise Giveup("assignment of another shape")
    return [(write(Ip, st, a[0], arr(sh, ys, lay)), UNIT)]


def deep(Ip, st, a):
    """a mutable view: (reference to the array, positions)"""
    v = a
    for _ in range(6):
        if v.op in ("ref", "vref"):
            v = Ip.deref_val(st, v)
    if v.op == "ndview":
        return v.a[0], v.a[1]
    return None


@n(AB + "broadcast")
def _(Ip, st, a, i):
    sh, xs, lay = get(Ip, st, a[0])
    to = ints(Ip, st, a[1])
    if len(to) < len(sh) or any(d != t and d != 1 for d, t in zip(sh, to[len(to) - len(sh):])):
        return [(st, NONE)]
    return [(st, Some(arr(to, bcast(sh, xs, to), lay if count(to) == len(xs) else "v")))]


def bcast(sh, xs, to):
    pad = [1] * (len(to) - len(sh)) + list(sh)
    s, t = steps(pad), steps(to)
    return [xs[sum((k // t[j] % to[j]) * s[j] for j in range(len(to)) if pad[j] > 1)] for k in range(count(to))]


@n(AB + "index_axis")
def _(Ip, st, a, i):
    sh, xs, lay = get(Ip, st, a[0])
    ax, k = axis(Ip, st, a[1]), D0(D1(Ip, st, a[2]))
    if ax >= len(sh) or k >= sh[ax]:
        return stop(Ip, st, i, "index of an axis")
    s = steps(sh)
    to = sh[:ax] + sh[ax + 1:]
    return [(st, arr(to, [x for p, x in enumerate(xs) if p // s[ax] % sh[ax] == k], "c" if lay == "c" and count(sh[:ax]) == 1 else "v"))]


@n(AB + "insert_axis")
def _(Ip, st, a, i):
    sh, xs, lay = get(Ip, st, a[0])
    ax = axis(Ip, st, a[1])
    return [(st, arr(sh[:ax] + [1] + sh[ax:], xs, lay))] if ax <= len(sh) else stop(Ip, st, i, "axis")


@n(AB + "len_of")
def _(Ip, st, a, i):
    sh, xs, lay = get(Ip, st, a[0])
    ax = axis(Ip, st, a[1])
    return [(st, I(sh[ax]))] if ax < len(sh) else stop(Ip, st, i, "axis")


def axis(Ip, st, a):
    v = D1(Ip, st, a)
    if v.op == "adt":
        v = v.a[3][0]
    return D0(v)


def lanes(sh, ax):
    s = steps(sh)
    return [[b + k * s[ax] for k in range(sh[ax])] for b in range(count(sh)) if b // s[ax] % sh[ax] == 0] if count(sh) else []


@n(AB + "lanes")
def _(Ip, st, a, i):
    sh, xs, lay = get(Ip, st, a[0])
    ax = axis(Ip, st, a[1])
    if ax >= len(sh):
        return stop(Ip, st, i, "axis")
    return [(st, mkseq([arr([len(l)], [xs[k] for k in l], "c" if lay == "c" and ax == len(sh) - 1 else "v") for l in lanes(sh, ax)]))]


@n(AB + "lanes_mut")
def _(Ip, st, a, i):
    sh, xs, lay = get(Ip, st, a[0])
    ax = axis(Ip, st, a[1])
    c = cell(Ip, st, a[0])
    if c is None:
        raise Giveup("array in no place")
    if ax >= len(sh):
        return stop(Ip, st, i, "axis")
    return [(st, mkseq([mk("ndview", c, tuple(l)) for l in lanes(sh, ax)]))]


@n(P + "LaneMut::<'a, A>::iter_mut")
def _(Ip, st, a, i):
    v = deep(Ip, st, a[0])
    if v is None:
        raise Giveup("lane")
    return [(st, it("seq", tuple(M.sub_ref(Ip, st, M.sub_ref(Ip, st, v[0], ("f", 1, "buf")), ("elt", I(k))) for k in v[1])))]


NM[P + "LaneMut::<'a, A>::len"] = lambda Ip, st, a, i: [(st, I(len(deep(Ip, st, a[0])[1])))]


@n("<ndarray::LaneMut<'a, A> as core::ops::index::IndexMut<usize>>::index_mut", "<ndarray::LaneMut<'a, A> as core::ops::index::Index<usize>>::index")
def _(Ip, st, a, i):
    v = deep(Ip, st, a[0])
    k = D0(D1(Ip, st, a[1]))
    if k >= len(v[1]):
        return stop(Ip, st, i, "lane index")
    return [(st, M.sub_ref(Ip, st, M.sub_ref(Ip, st, v[0], ("f", 1, "buf")), ("elt", I(v[1][k]))))]


for _k in "234":
    NM[P + "mk" + _k] = lambda Ip, st, a, i: [(st, mk("ndslice", tuple(D1(Ip, st, x) for x in a)))]


def cut(Ip, st, i, sh, info):
    """(shape, positions) of a slice, or None when it is out of bounds"""
    if info.op != "ndslice" or len(info.a[0]) != len(sh):
        return None
    keep, picks = [], []
    for d, e in zip(sh, info.a[0]):
        if e.op == "int":
            if not 0 <= e.a[0] < d:
                return None
            picks.append([e.a[0]])
            continue
        r = M.range_parts(e, I(d))
        if r is None:
            raise Giveup("slice " + show(e)[:60])
        lo, hi = D0(r[0]), D0(r[1])
        if not 0 <= lo <= hi <= d:
            return None
        picks.append(list(range(lo, hi)))
        keep.append(hi - lo)
    s = steps(sh)
    pos = [0]
    for p, k in zip(picks, s):
        pos = [b + x * k for b in pos for x in p]
    return keep, pos


@n(AB + "slice")
def _(Ip, st, a, i):
    sh, xs, lay = get(Ip, st, a[0])
    r = cut(Ip, st, i, sh, D1(Ip, st, a[1]))
    if r is None:
        return stop(Ip, st, i, "slice within bounds")
    to, pos = r
    return [(st, arr(to, [xs[k] for k in pos], "c" if lay == "c" and pos == list(range(pos[0], pos[0] + len(pos)) if pos else []) else "v"))]


@n(AB + "slice_mut")
def _(Ip, st, a, i):
    sh, xs, lay = get(Ip, st, a[0])
    r = cut(Ip, st, i, sh, D1(Ip, st, a[1]))
    c = cell(Ip, st, a[0])
    if r is None:
        return stop(Ip, st, i, "slice within bounds")
    if c is None:
        raise Giveup("array in no place")
    return [(st, mk("ndview", c, tuple(r[1])))]


@n(P + "concatenate")
def _(Ip, st, a, i):
    ax = axis(Ip, st, a[0])
    l = [parts(D(Ip, st, x, 8) if x.op in ("ref", "vref") else x) for x in clist(D1(Ip, st, a[1]))]
    if not l or ax >= len(l[0][0]):
        return [(st, err())]
    base = l[0][0]
    if any(len(sh) != len(base) or any(d != b for j, (d, b) in enumerate(zip(sh, base)) if j != ax) for sh, _, _ in l):
        return [(st, err())]
    outer, inner = count(base[:ax]), count(base[ax + 1:])
    out = []
    for o in range(outer):
        for sh, xs, _ in l:
            k = sh[ax] * inner
            out += xs[o * k:(o + 1) * k]
    to = list(base)
    to[ax] = sum(sh[ax] for sh, _, _ in l)
    return [(st, Ok(arr(to, out)))]


ZA = P + "Zip::<(&'a mut ndarray::ArrayBase<ndarray::OwnedRepr<A>, D>,)>::"
NM[ZA + "from"] = lambda Ip, st, a, i: [(st, mk("ndzip", a[0]))]
NM[ZA + "and"] = lambda Ip, st, a, i: [(st, mk("ndzip", a[0].a[0], a[1]))] if get(Ip, st, a[0].a[0])[0] == get(Ip, st, a[1])[0] else stop(Ip, st, i, "shapes of zipped arrays")


@n(P + "Zip::<(&'a mut ndarray::ArrayBase<ndarray::OwnedRepr<A>, D>, &'b ndarray::ArrayBase<S, D2>)>::for_each")
def _(Ip, st, a, i):
    dst, src = a[0].a
    c = cell(Ip, st, dst)
    ys = get(Ip, st, src)[1]
    todo = [st]
    for k, y in enumerate(ys):
        nxt = []
        for s in todo:
            r = M.sub_ref(Ip, s, M.sub_ref(Ip, s, c, ("f", 1, "buf")), ("elt", I(k)))
            nxt += [s2 for s2, _ in Ip.call_value(s, a[1], [r, mk("vref", y)], i["ctx"], i["bb"], i["body"], i["line"])]
        todo = nxt
    return [(s, UNIT) for s in todo]
