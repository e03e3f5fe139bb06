"""Transfer functions for the std / anyhow callees the analysed crates use.

handler(I, st, args, info) -> [(state, value)].  `info` carries the call site (body, bb, ctx, line, dest type, arg types).
Anything without an entry is an unknown call (opaque value, &mut arguments havocked)."""
import re
from terms import *
import terms
import absint as A

H = {}
OPAQUE_UNIT = mk("fmt")


def reg(*names):
    def d(f):
        for n in names:
            H[n] = f
        return f
    return d


PURE_PREFIX = ("core::fmt", "std::fmt", "anyhow", "core::num", "core::f64", "std::f64", "core::f32", "core::str", "std::cmp")


def impure(name):
    return not name.startswith(PURE_PREFIX)


def lookup(name, fn):
    h = H.get(fn) or H.get(name)
    if h:
        return h
    # core/std aliasing and impl-path spelling differences
    n = fn.replace("alloc::", "std::")
    h = H.get(n)
    if h:
        return h
    m = re.match(r"(?:core|std)::(f64|f32)::<impl (?:f64|f32)>::(\w+)$", fn)
    if m:
        return FLOAT(m.group(2))
    m = re.match(r"(?:core|std)::num::<impl (\w+)>::(\w+)$", fn)
    if m:
        return INTM(m.group(1), m.group(2))
    if fn.startswith(("core::fmt::", "std::fmt::", "anyhow::__private::", "anyhow::error::", "log::", "tracing::")):
        return h_opaque
    return None


def h_opaque(I, st, args, info):
    return [(st, mk("err") if "rror" in (info["dest"] or "") else OPAQUE_UNIT)]


# ---------------------------------------------------------------------------------------------- helpers
def D(I, st, a, n=4):
    """strip references"""
    for _ in range(n):
        if a.op in ("ref", "vref"):
            a = I.deref_val(st, a)
        else:
            break
    return a


def D1(I, st, a):
    return I.deref_val(st, a)


def DT(I, st, a, ty):
    """strip exactly as many references as the static type says"""
    while ty.startswith("&"):
        ty = re.sub(r"^&('\w+ )?(mut )?", "", ty)
        a = I.deref_val(st, a)
    return a


def pay(v, vi, vn):
    if v.op == "adt":
        return v.a[3][0] if v.a[3] else UNIT
    return fld(dc(v, vi, vn), 0, None)


def split(I, st, v, names):
    """[(state, variant index, payload)] for a two-variant enum value; names = (v0, v1)"""
    if v.op == "adt":
        return [(st, v.a[1], pay(v, v.a[1], v.a[2]))]
    A.DISCRS.setdefault(v, (0, 1))
    out = []
    for vi in (0, 1):
        cur = st.va.get(v)
        if cur is not None and not A._va_allows(cur, vi):
            continue
        s = st.copy()
        if s.assume_variant(v, vi, True):
            out.append((s, vi, pay(v, vi, names[vi])))
    return out


def osplit(I, st, v):
    return split(I, st, v, ("None", "Some"))


def rsplit(I, st, v):
    return split(I, st, v, ("Ok", "Err"))


def call(I, st, f, args, info):
    return I.call_value(st, f, args, info["ctx"], info["bb"], info["body"], info["line"])


def is_res(ty):
    return ty is not None and ty.lstrip("&").startswith("std::result::Result")


def default_of(ty):
    if ty is None:
        return mk("default", "?")
    if ty in RANGES:
        return I(0)
    if ty in ("f64", "f32"):
        return mk("fc", "0.0")
    if ty.startswith("std::vec::Vec"):
        return vec(())
    if ty == "std::string::String":
        return mk("str", "")
    if ty.startswith("std::option::Option"):
        return NONE
    if ty.startswith(("&[", "&'static [")):
        return mk("vref", vec(()))
    return mk("default", ty)


IntI = I


def writeback(Ip, st, r, v):
    """store v through the reference value r"""
    if r.op == "ref":
        Ip.write_loc(st, r.a[0], r.a[1], v)


# ---------------------------------------------------------------------------------------------- Option / Result
CF = "std::ops::ControlFlow"


@reg("std::ops::Try::branch")
def h_branch(Ip, st, a, i):
    v = a[0]
    if is_res(i["argty"][0]):
        return [(s, adt(CF, 0, "Continue", (p,)) if vi == 0 else adt(CF, 1, "Break", (Err(p),))) for s, vi, p in rsplit(Ip, st, v)]
    if i["argty"][0].startswith("std::option::Option"):
        return [(s, adt(CF, 0, "Continue", (p,)) if vi == 1 else adt(CF, 1, "Break", (NONE,))) for s, vi, p in osplit(Ip, st, v)]
    return [(st, Ip.unknown(st, "branch", a, i))]


@reg("std::ops::FromResidual::from_residual")
def h_resid(Ip, st, a, i):
    d = i["dest"] or ""
    if d.startswith("std::option::Option"):
        return [(st, NONE)]
    v = a[0]
    e = v.a[3][0] if v.op == "adt" and v.a[3] else mk("err")
    return [(st, Err(e))]


def opt(name):
    return reg(f"std::option::Option::<T>::{name}", f"std::option::Option::<&T>::{name}", f"std::option::Option::<&mut T>::{name}")


def res(name):
    return reg(f"std::result::Result::<T, E>::{name}")


@opt("is_some")
def _(Ip, st, a, i):
    return [(s, TRUE if vi == 1 else FALSE) for s, vi, p in osplit(Ip, st, D1(Ip, st, a[0]))]


@opt("is_none")
def _(Ip, st, a, i):
    return [(s, TRUE if vi == 0 else FALSE) for s, vi, p in osplit(Ip, st, D1(Ip, st, a[0]))]


@res("is_ok")
def _(Ip, st, a, i):
    return [(s, TRUE if vi == 0 else FALSE) for s, vi, p in rsplit(Ip, st, D1(Ip, st, a[0]))]


@res("is_err")
def _(Ip, st, a, i):
    return [(s, TRUE if vi == 1 else FALSE) for s, vi, p in rsplit(Ip, st, D1(Ip, st, a[0]))]


def _each(Ip, outs, wrap):
    return [(s, wrap(v)) for s, v in outs]


@opt("map")
def _(Ip, st, a, i):
    out = []
    for s, vi, p in osplit(Ip, st, a[0]):
        out += _each(Ip, call(Ip, s, a[1], [p], i), Some) if vi else [(s, NONE)]
    return out


@opt("and_then")
def _(Ip, st, a, i):
    out = []
    for s, vi, p in osplit(Ip, st, a[0]):
        out += call(Ip, s, a[1], [p], i) if vi else [(s, NONE)]
    return out


@opt("is_some_and")
def _(Ip, st, a, i):
    out = []
    for s, vi, p in osplit(Ip, st, a[0]):
        out += call(Ip, s, a[1], [p], i) if vi else [(s, FALSE)]
    return out


@opt("is_none_or")
def _(Ip, st, a, i):
    out = []
    for s, vi, p in osplit(Ip, st, a[0]):
        out += call(Ip, s, a[1], [p], i) if vi else [(s, TRUE)]
    return out


@opt("filter")
def _(Ip, st, a, i):
    out = []
    for s, vi, p in osplit(Ip, st, a[0]):
        if not vi:
            out.append((s, NONE))
            continue
        for s2, b in call(Ip, s, a[1], [mk("vref", p)], i):
            for val in (True, False):
                k = s2.known(b)
                if k is not None and k != val:
                    continue
                s3 = s2.copy()
                if s3.assume(b, val):
                    out.append((s3, Some(p) if val else NONE))
    return out


@opt("or_else")
def _(Ip, st, a, i):
    out = []
    for s, vi, p in osplit(Ip, st, a[0]):
        out += [(s, Some(p))] if vi else call(Ip, s, a[1], [], i)
    return out


@opt("or")
def _(Ip, st, a, i):
    return [(s, Some(p) if vi else a[1]) for s, vi, p in osplit(Ip, st, a[0])]


@opt("unwrap_or")
def _(Ip, st, a, i):
    return [(s, p if vi else a[1]) for s, vi, p in osplit(Ip, st, a[0])]


@opt("unwrap_or_else")
def _(Ip, st, a, i):
    out = []
    for s, vi, p in osplit(Ip, st, a[0]):
        out += [(s, p)] if vi else call(Ip, s, a[1], [], i)
    return out


@opt("unwrap_or_default")
def _(Ip, st, a, i):
    return [(s, p if vi else default_of(i["dest"])) for s, vi, p in osplit(Ip, st, a[0])]


@opt("map_or")
def _(Ip, st, a, i):
    out = []
    for s, vi, p in osplit(Ip, st, a[0]):
        out += call(Ip, s, a[2], [p], i) if vi else [(s, a[1])]
    return out


@opt("map_or_else")
def _(Ip, st, a, i):
    out = []
    for s, vi, p in osplit(Ip, st, a[0]):
        out += call(Ip, s, a[2], [p], i) if vi else call(Ip, s, a[1], [], i)
    return out


@opt("ok_or_else")
def _(Ip, st, a, i):
    return [(s, Ok(p) if vi else Err(mk("err"))) for s, vi, p in osplit(Ip, st, a[0])]


@opt("ok_or")
def _(Ip, st, a, i):
    return [(s, Ok(p) if vi else Err(a[1])) for s, vi, p in osplit(Ip, st, a[0])]


@opt("copied")
def _(Ip, st, a, i):
    return [(s, Some(Ip.deref_val(s, p)) if vi else NONE) for s, vi, p in osplit(Ip, st, a[0])]


H["std::option::Option::<&T>::cloned"] = H["std::option::Option::<&T>::copied"]


@opt("as_ref")
def _(Ip, st, a, i):
    return [(s, Some(mk("vref", p)) if vi else NONE) for s, vi, p in osplit(Ip, st, D1(Ip, st, a[0]))]


for _n in ("as_deref",):
    H[f"std::option::Option::<T>::{_n}"] = H["std::option::Option::<T>::as_ref"]


@opt("as_mut")
def _(Ip, st, a, i):
    r = a[0]
    v = D1(Ip, st, r)
    out = []
    for s, vi, p in osplit(Ip, st, v):
        if vi and r.op == "ref":
            out.append((s, Some(mk("ref", r.a[0], r.a[1] + (("d", 1, "Some"), ("f", 0, None))))))
        else:
            out.append((s, Some(mk("vref", p)) if vi else NONE))
    return out


@opt("zip")
def _(Ip, st, a, i):
    out = []
    for s, vi, p in osplit(Ip, st, a[0]):
        for s2, v2, p2 in osplit(Ip, s, a[1]):
            out.append((s2, Some(tup(p, p2)) if vi and v2 else NONE))
    return out


@opt("take")
def _(Ip, st, a, i):
    v = D1(Ip, st, a[0])
    s = st.copy()
    writeback(Ip, s, a[0], NONE)
    return [(s, v)]


def unwrap_like(okv, kind):
    def h(Ip, st, a, i):
        out = []
        sp = (osplit if kind == "option" else rsplit)(Ip, st, a[0])
        bad = any(vi != okv for s, vi, p in sp)
        Ip.oblige(i["body"], i["bb"], "unwrap", i["line"], f"unwrap of {show(a[0])[:160]}", not bad, st,
                  (a[0] if len(sp) > 1 else mk("tuple", ()),))
        return [(s, p) for s, vi, p in sp if vi == okv]
    return h


for _n in ("unwrap", "expect"):
    H[f"std::option::Option::<T>::{_n}"] = unwrap_like(1, "option")
    H[f"std::result::Result::<T, E>::{_n}"] = unwrap_like(0, "result")


@res("map")
def _(Ip, st, a, i):
    out = []
    for s, vi, p in rsplit(Ip, st, a[0]):
        out += _each(Ip, call(Ip, s, a[1], [p], i), Ok) if vi == 0 else [(s, Err(p))]
    return out


@res("map_err")
def _(Ip, st, a, i):
    return [(s, Ok(p) if vi == 0 else Err(p if p.op == "err" else mk("maperr", p))) for s, vi, p in rsplit(Ip, st, a[0])]


@reg("anyhow::Context::context", "anyhow::Context::with_context")
def _(Ip, st, a, i):
    if is_res(i["argty"][0]):
        return [(s, Ok(p) if vi == 0 else Err(p if p.op == "err" else mk("maperr", p))) for s, vi, p in rsplit(Ip, st, a[0])]
    return [(s, Ok(p) if vi else Err(mk("err"))) for s, vi, p in osplit(Ip, st, a[0])]


@res("and_then")
def _(Ip, st, a, i):
    out = []
    for s, vi, p in rsplit(Ip, st, a[0]):
        out += call(Ip, s, a[1], [p], i) if vi == 0 else [(s, Err(p))]
    return out


@res("or_else")
def _(Ip, st, a, i):
    out = []
    for s, vi, p in rsplit(Ip, st, a[0]):
        out += call(Ip, s, a[1], [p], i) if vi == 1 else [(s, Ok(p))]
    return out


@res("ok")
def _(Ip, st, a, i):
    return [(s, Some(p) if vi == 0 else NONE) for s, vi, p in rsplit(Ip, st, a[0])]


@res("err")
def _(Ip, st, a, i):
    return [(s, Some(p) if vi == 1 else NONE) for s, vi, p in rsplit(Ip, st, a[0])]


@res("unwrap_or")
def _(Ip, st, a, i):
    return [(s, p if vi == 0 else a[1]) for s, vi, p in rsplit(Ip, st, a[0])]


@res("unwrap_or_else")
def _(Ip, st, a, i):
    out = []
    for s, vi, p in rsplit(Ip, st, a[0]):
        out += [(s, p)] if vi == 0 else call(Ip, s, a[1], [p], i)
    return out


@res("unwrap_or_default")
def _(Ip, st, a, i):
    return [(s, p if vi == 0 else default_of(i["dest"])) for s, vi, p in rsplit(Ip, st, a[0])]


@res("is_ok_and")
def _(Ip, st, a, i):
    out = []
    for s, vi, p in rsplit(Ip, st, a[0]):
        out += call(Ip, s, a[1], [p], i) if vi == 0 else [(s, FALSE)]
    return out


# ---------------------------------------------------------------------------------------------- pointers, boxes, cells
@reg("std::ops::Deref::deref", "std::ops::DerefMut::deref_mut", "std::vec::Vec::<T, A>::as_slice", "std::vec::Vec::<T, A>::as_mut_slice",
     "std::string::String::as_str", "std::convert::AsRef::as_ref", "std::borrow::Borrow::borrow", "std::string::String::as_bytes",
     "core::str::<impl str>::as_bytes", "std::path::PathBuf::as_path", "std::path::Path::new")
def h_ident(Ip, st, a, i):
    ty = i["argty"][0]
    t = re.sub(r"^&('\w+ )?(mut )?", "", ty)
    if t.startswith(("std::rc::Rc", "std::sync::Arc", "std::boxed::Box")):
        v = Ip.deref_val(st, a[0])
        if v.op in ("ref", "vref"):
            return [(st, v)]
        if v.op == "box":
            if a[0].op == "ref":
                return [(st, mk("ref", a[0].a[0], a[0].a[1] + (("*",),)))]
            return [(st, mk("vref", v.a[0]))]
        return [(st, v)]
    if t.startswith("std::borrow::Cow"):
        v = Ip.deref_val(st, a[0])
        if v.op == "adt" and v.a[1] == "std::borrow::Cow" or v.op == "adt" and v.a[0] == "std::borrow::Cow":
            x = v.a[3][0]
            return [(st, x if v.a[2] == "Borrowed" else mk("vref", x))]
    return [(st, a[0])]


@reg("std::clone::Clone::clone", "std::borrow::ToOwned::to_owned", "std::slice::<impl [T]>::to_vec", "core::slice::<impl [T]>::to_vec",
     "std::path::Path::to_path_buf", "std::slice::<impl [T]>::into_vec")
def h_clone(Ip, st, a, i):
    return [(st, Ip.deref_val(st, a[0]))]


@reg("std::string::ToString::to_string")
def h_tostring(Ip, st, a, i):
    v = D(Ip, st, a[0])
    if i["argty"][0].replace("&", "") in ("str", "std::string::String", "'static str"):
        return [(st, v)]
    return [(st, mk("tostring", v))]


@reg("std::convert::From::from", "std::convert::Into::into")
def h_from(Ip, st, a, i):
    d, s = i["dest"] or "", i["argty"][0]
    if d in RANGES and s in RANGES:
        return [(st, a[0])]
    if d in ("f64", "f32") and s in RANGES:
        return [(st, mk("i2f", a[0]))]
    if d == "std::string::String" and s in ("&str", "&'static str"):
        return [(st, D(Ip, st, a[0]))]
    if d in ("f64",) and s in ("f32",):
        return [(st, a[0])]
    return [(st, mk("from", d, a[0]))]


@reg("std::boxed::Box::<T>::new_uninit")
def _(Ip, st, a, i):
    s = st.copy()
    loc = (f"heap:{i['ctx']}:{i['bb']}", 0)
    s.env[loc] = mk("uninit")
    return [(s, mk("ref", loc, ()))]


@reg("std::boxed::box_assume_init_into_vec_unsafe")
def _(Ip, st, a, i):
    s = st.copy()
    r = a[0]
    if r.op == "ref":
        v = Ip.read_loc(s, r.a[0], r.a[1])
        s.env.pop(r.a[0], None)
        if v.op == "arr":
            v = vec(parts(v))
        return [(s, v)]
    return [(s, A.sym(f"bx:{i['ctx']}:{i['bb']}"))]


@reg("std::boxed::Box::<T>::new")
def _(Ip, st, a, i):
    return [(st, mk("box", a[0]))]


@reg("std::rc::Rc::<T>::new", "std::sync::Arc::<T>::new")
def _(Ip, st, a, i):
    s = st.copy()
    loc = (f"heap:{i['ctx']}:{i['bb']}", 0)
    s.env[loc] = a[0]
    return [(s, mk("ref", loc, ()))]


@reg("std::cell::Cell::<T>::new", "std::hint::must_use", "std::convert::identity")
def _(Ip, st, a, i):
    return [(st, a[0])]


@reg("std::cell::Cell::<T>::get")
def _(Ip, st, a, i):
    return [(st, Ip.deref_val(st, a[0]))]


@reg("std::cell::Cell::<T>::set")
def _(Ip, st, a, i):
    s = st.copy()
    writeback(Ip, s, a[0], a[1])
    return [(s, UNIT)]


@reg("std::mem::drop")
def m_drop(Ip, st, a, info):
    ty = (info.get("argty") or ["?"])[0]
    path = f"<{ty} as std::ops::Drop>::drop"
    if Ip.p.body(Ip.crate, path) and Ip.opts.get("drops", True):
        loc = ("dropped", info["ctx"], info["bb"])
        st.env[loc] = a[0]
        return [(s, UNIT) for s, _ in Ip.call_local(path, st, [mk("ref", loc, ())], info["ctx"], info["bb"])]
    return [(st, UNIT)]


@reg("std::mem::forget")
def m_forget(Ip, st, a, info):
    return [(st, UNIT)]


@reg("std::mem::take")
def _(Ip, st, a, i):
    v = Ip.deref_val(st, a[0])
    s = st.copy()
    writeback(Ip, s, a[0], default_of(i["dest"]))
    return [(s, v)]


@reg("std::mem::replace")
def _(Ip, st, a, i):
    v = Ip.deref_val(st, a[0])
    s = st.copy()
    writeback(Ip, s, a[0], a[1])
    return [(s, v)]


@reg("anyhow::__private::not")
def _(Ip, st, a, i):
    return [(st, bnot(D(Ip, st, a[0])))]


@reg("core::panicking::assert_failed", "core::panicking::panic", "core::panicking::panic_fmt", "std::rt::begin_panic", "std::rt::panic_fmt", "core::panicking::panic_display",
     "core::panicking::panic_explicit", "core::panicking::unreachable_display", "core::panicking::panic_str_2015", "core::panicking::assert_matches_failed", "std::rt::panic_display")
def _(Ip, st, a, i):
    Ip.oblige(i["body"], i["bb"], "panic", i["line"], "panic unreachable", False, st, (mk("opaque"),))
    return []


# ---------------------------------------------------------------------------------------------- comparison
def const_eq(x, y):
    """True/False/None"""
    if x is y:
        return True
    if x.op in ("str", "int", "bytes", "fc") and y.op == x.op:
        return False
    if x.op == "adt" and y.op == "adt":
        if x.a[1] != y.a[1]:
            return False
        r = True
        for p, q in zip(x.a[3], y.a[3]):
            e = const_eq(p, q)
            if e is False:
                return False
            if e is None:
                r = None
        return r
    if x.op in ("arr", "bytes", "vec") and y.op in ("arr", "bytes", "vec"):
        px, py = parts(x), parts(y)
        if all(p[0] == "e" for p in px + py):
            if len(px) != len(py):
                return False
            r = True
            for p, q in zip(px, py):
                e = const_eq(p[1], q[1])
                if e is False:
                    return False
                if e is None:
                    r = None
            return r
    return None


SEQ = ("arr", "vec", "rep")


def is_const_seq(x):
    return x.op == "arr" and all(e.op == "int" for e in x.a[0])


def canon_bytes(x):
    if x.op == "bytes":
        return mk("arr", tuple(IntI(b) for b in x.a[0]))
    return x


def equal(Ip, st, x, y):
    x, y = D(Ip, st, x), D(Ip, st, y)
    x, y = canon_bytes(x), canon_bytes(y)
    if x.op in SEQ or y.op in SEQ:
        lx, ly = vlen(x), vlen(y)
        if lx.op == "int" and ly.op == "int":
            if lx is not ly:
                return FALSE
            if lx.a[0] <= 32:
                x = mk("arr", tuple(velt(x, IntI(k)) for k in range(lx.a[0])))
                y = mk("arr", tuple(velt(y, IntI(k)) for k in range(lx.a[0])))
    c = const_eq(x, y)
    if c is not None:
        return TRUE if c else FALSE
    c = ssel_eq(x, y)
    if c is not None:
        return c
    if x.op == "adt" and y.op == "adt" and x.a[1] == y.a[1] and x.a[3]:
        r = TRUE
        for p, q in zip(x.a[3], y.a[3]):
            r = band(r, equal(Ip, st, p, q))
        return r
    kc = y if is_const_seq(y) else x if is_const_seq(x) else None
    if kc is not None:
        o = x if kc is y else y
        for b, v in st.bl.items():
            if v and b.op == "eq" and o in b.a and any(is_const_seq(z) and z is not kc for z in b.a):
                return FALSE
    if y.op == "adt" and not y.a[3] and x.op != "adt":
        return eq0(sub(mk("discr", x), IntI(y.a[1])))
    if x.op == "adt" and not x.a[3] and y.op != "adt":
        return eq0(sub(mk("discr", y), IntI(x.a[1])))
    if TYOF.get(x) in RANGES and (TYOF.get(y) in RANGES or y.op in ("int", "L")) or x.op in ("int", "L"):
        return eq0(sub(x, y))
    k = y if y.op == "str" else x if x.op == "str" else None
    if k is not None:
        o = x if k is y else y
        for b, v in st.bl.items():
            if v and b.op == "eq" and o in b.a and any(z.op == "str" and z is not k for z in b.a):
                return FALSE
    return mk("eq", *sorted((x, y)))


def equal_cases(Ip, st, a, b):
    """equality; a part of a sequence whose length is not known is compared with a constant by length first"""
    x, y = D(Ip, st, a), D(Ip, st, b)
    for v, k in ((x, y), (y, x)):
        if (v.op == "sym" or v.op == "vec" and len(v.a[0]) == 1 and v.a[0][0][0] == "v") and k.op in ("arr", "bytes") and vlen(v).op != "int" and vlen(k).op == "int" and vlen(k).a[0]:
            n = vlen(k)
            d = sub(vlen(v), n)
            out = []
            s = st.copy()
            if s.add_ge(d) and s.add_ge(neg(d)):
                out.append((s, equal(Ip, s, slice_of(v, IntI(0), n), k)))
            s = st.copy()
            if s.add_ne(d):
                out.append((s, FALSE))
            return out
    return [(st, equal(Ip, st, a, b))]


@reg("std::cmp::PartialEq::eq")
def _(Ip, st, a, i):
    return equal_cases(Ip, st, a[0], a[1])


@reg("std::cmp::PartialEq::ne")
def _(Ip, st, a, i):
    return [(s, bnot(r)) for s, r in equal_cases(Ip, st, a[0], a[1])]


def cmpm(op):
    def h(Ip, st, a, i):
        t = i["argty"][0].replace("&", "").strip()
        x, y = D(Ip, st, a[0]), D(Ip, st, a[1])
        if t in RANGES:
            return [(st, A.icmp(op, Ip.typed(x, t), Ip.typed(y, t)))]
        return [(st, mk("cmp", op, x, y))]
    return h


for _m, _o in (("lt", "Lt"), ("le", "Le"), ("gt", "Gt"), ("ge", "Ge")):
    H["std::cmp::PartialOrd::" + _m] = cmpm(_o)


@reg("std::cmp::Ord::max", "std::cmp::max")
def _(Ip, st, a, i):
    t = i["argty"][0]
    return [(st, Ip.typed(smx(st, Ip.typed(a[0], t), Ip.typed(a[1], t)), t))]


@reg("std::cmp::Ord::min", "std::cmp::min")
def _(Ip, st, a, i):
    t = i["argty"][0]
    return [(st, Ip.typed(smn(st, Ip.typed(a[0], t), Ip.typed(a[1], t)), t))]


def smx(st, x, y):
    if st.proves(sub(x, y), 2):
        return x
    if st.proves(sub(y, x), 2):
        return y
    return mx(x, y)


def smn(st, x, y):
    if st.proves(sub(x, y), 2):
        return y
    if st.proves(sub(y, x), 2):
        return x
    return mn(x, y)


@reg("std::cmp::Ord::clamp")
def _(Ip, st, a, i):
    t = i["argty"][0]
    x, lo, hi = (Ip.typed(z, t) for z in a)
    Ip.oblige(i["body"], i["bb"], "clamp", i["line"], f"clamp: {show(lo)} <= {show(hi)}", st.proves(sub(hi, lo)), st, (lo, hi))
    return [(st, Ip.typed(smn(st, Ip.typed(smx(st, x, lo), t), hi), t))]


# ---------------------------------------------------------------------------------------------- integers / floats
def fits(st, op, x, y, v, lo, hi):
    """x op y within lo..hi, by the intervals of the operands or by the facts"""
    if op in ("mul", "add"):
        (lx, hx), (ly, hy) = st.ival(x, 3), st.ival(y, 3)
        if lo == 0:
            lx, ly = (0 if (l is None or l < 0) and st.proves(t) else l for l, t in ((lx, x), (ly, y)))
        if None not in (lx, hx, ly, hy) and lx >= 0 and ly >= 0 and lo <= 0 and (hx * hy if op == "mul" else hx + hy) <= hi:
            return True
    return st.proves(sub(v, IntI(lo))) and st.proves(sub(IntI(hi), v))


def INTM(ty, m):
    def h(Ip, st, a, i):
        a = [Ip.typed(x, ty) if k == 0 or m not in ("pow", "checked_pow") else x for k, x in enumerate(a)]
        lo, hi = RANGES.get(ty, (None, None))
        if m in ("checked_mul", "checked_add", "checked_sub", "checked_div", "checked_rem"):
            x, y = a
            op = m[8:]
            v = {"mul": mul, "add": add, "sub": sub, "div": div, "rem": rem}[op](x, y)
            Ip.typed(v, ty)
            out = []
            s = st.copy()
            if op in ("div", "rem"):
                if s.add_ne(y):
                    out.append((s, Some(v)))
                s2 = st.copy()
                if s2.add_ge(y) and s2.add_ge(neg(y)):
                    out.append((s2, NONE))
                return out
            h2 = SIZE_MAX if False else hi
            if s.add_ge(sub(v, IntI(lo))) and s.add_ge(sub(IntI(h2), v)):
                s.bl[mk("noovf", v)] = True
                out.append((s, Some(v)))
            if op == "sub" and lo == 0:
                s2 = st.copy()
                if s2.add_ge(sub(sub(y, x), IntI(1))):
                    out.append((s2, NONE))
            elif not fits(st, op, x, y, v, lo, h2):
                out.append((st.copy(), NONE))
            return out
        if m == "saturating_sub":
            x, y = a
            v = sub(x, y)
            if lo == 0:
                return [(st, Ip.typed(smx(st, v, IntI(0)), ty))]
            return [(st, Ip.typed(mk("satsub", x, y), ty))]
        if m in ("saturating_add", "saturating_mul"):
            x, y = a
            v = add(x, y) if m == "saturating_add" else mul(x, y)
            return [(st, Ip.typed(smn(st, v, IntI(hi)), ty))] if lo == 0 else [(st, Ip.typed(mk(m, x, y), ty))]
        if m in ("wrapping_add", "wrapping_sub", "wrapping_mul", "overflowing_add"):
            return [(st, Ip.typed(mk(m, *a), ty))]
        if m == "pow":
            x, y = a
            if x.op == "int" and y.op == "int" and 0 <= y.a[0] < 128:
                return [(st, IntI(x.a[0] ** y.a[0]))]
            if y.op == "int" and 0 <= y.a[0] <= 4:
                r = IntI(1)
                for _ in range(y.a[0]):
                    r = mul(r, x)
                return [(st, Ip.typed(r, ty))]
            return [(st, Ip.typed(mk("pow", x, y), ty))]
        if m == "checked_pow":
            x, y = a
            v = Ip.typed(mk("pow", x, y), ty)
            s2 = st.copy()
            return [(st, Some(v)), (s2, NONE)]
        if m == "div_ceil":
            x, y = a
            Ip.oblige(i["body"], i["bb"], "div0", i["line"], f"div_ceil divisor {show(y)} != 0", st.nonzero(y), st, (y,))
            s = st.copy()
            if not s.add_ne(y):
                return []
            return [(s, Ip.typed(div(sub(add(x, y), IntI(1)), y), ty))]
        if m == "rem_euclid":
            x, y = a
            Ip.oblige(i["body"], i["bb"], "div0", i["line"], f"rem_euclid divisor {show(y)} != 0", st.nonzero(y), st, (y,))
            return [(st, Ip.typed(mk("reme", x, y), ty))]
        if m == "abs_diff":
            x, y = a
            return [(st, Ip.typed(sub(mx(x, y), mn(x, y)), ty))]
        if m in ("abs", "unsigned_abs"):
            if st.proves(a[0], 2):
                return [(st, a[0])]
            return [(st, Ip.typed(mx(a[0], neg(a[0])), ty))]
        if m == "to_le_bytes" or m == "to_be_bytes" or m == "to_ne_bytes":
            n = (RANGES[ty][1] - RANGES[ty][0] + 1).bit_length() // 8
            return [(st, mk("le" if "le" in m else "be" if "be" in m else "ne_", n, a[0]))]
        if m in ("from_le_bytes", "from_be_bytes", "from_ne_bytes"):
            k = {"from_le_bytes": "le", "from_be_bytes": "be", "from_ne_bytes": "ne_"}[m]
            v = D(Ip, st, a[0])
            if v.op == k:
                return [(st, v.a[1])]
            n = (RANGES[ty][1] - RANGES[ty][0] + 1).bit_length() // 8
            v = contiguous(v)
            if v.op == k:
                return [(st, v.a[1])]
            return [(st, Ip.typed(mk("from" + k, n, v), ty))]
        return [(st, Ip.typed(mk("num", ty, m, *a), i["dest"] if i["dest"] in RANGES else "?"))]
    return h



def contiguous(v):
    """an array listing consecutive elements of one sequence is that part of the sequence"""
    ps = parts(v) if v.op in ("vec", "arr") else ()
    es = [p[1] for p in ps] if ps and all(p[0] == "e" for p in ps) else []
    if es and all(isinstance(e, T) and e.op == "elt" and isinstance(e.a[1], T) for e in es):
        c, k = es[0].a[0], es[0].a[1]
        if all(e.a[0] is c and e.a[1] is add(k, IntI(j)) for j, e in enumerate(es)):
            return slice_of(c, k, IntI(len(es)))
    return v


def FLOAT(m):
    def h(Ip, st, a, i):
        if m in ("max", "min"):
            a = sorted(a)
        t = mk("f." + m, *a)
        return [(st, t)]
    return h


@reg("std::convert::TryFrom::try_from", "std::convert::TryInto::try_into")
def _(Ip, st, a, i):
    d, sty = i["dest"] or "", i["argty"][0]
    m = re.match(r"std::result::Result<(.*?), ", d)
    tgt = m.group(1) if m else ""
    v = a[0]
    if tgt in RANGES and sty in RANGES:
        Ip.typed(v, sty)
        lo, hi = RANGES[tgt]
        flo, fhi = RANGES[sty]
        out = []
        s = st.copy()
        ok = True
        if flo < lo:
            ok = s.add_ge(sub(v, IntI(lo)))
        if ok and fhi > hi:
            ok = s.add_ge(sub(IntI(hi), v))
        if ok:
            out.append((s, Ok(v)))
        if flo < lo:
            s2 = st.copy()
            if s2.add_ge(sub(IntI(lo - 1), v)):
                out.append((s2, Err(mk("err"))))
        if fhi > hi:
            s2 = st.copy()
            if s2.add_ge(sub(v, IntI(hi + 1))):
                out.append((s2, Err(mk("err"))))
        return out
    m = re.match(r"std::result::Result<&?\[.*; (\d+)\]", d)
    if m:
        n = int(m.group(1))
        x = D(Ip, st, v)
        l = vlen(x)
        e = sub(l, IntI(n))
        out = []
        s = st.copy()
        if s.add_ge(e) and s.add_ge(neg(e)):
            out.append((s, Ok(x)))
        if not (st.proves(e) and st.proves(neg(e))):
            s2 = st.copy()
            if s2.add_ne(e):
                out.append((s2, Err(mk("err"))))
        return out
    return [(st, Ip.unknown(st, "try_from", a, i))]


# ---------------------------------------------------------------------------------------------- vectors and slices
@reg("std::vec::Vec::<T, A>::len", "core::slice::<impl [T]>::len", "std::string::String::len", "core::str::<impl str>::len",
     "std::collections::HashMap::<K, V, S, A>::len", "std::collections::HashSet::<T, S, A>::len", "std::collections::VecDeque::<T, A>::len")
def _(Ip, st, a, i):
    return [(st, vlen(Ip.deref_val(st, a[0])))]


@reg("std::vec::Vec::<T, A>::is_empty", "core::slice::<impl [T]>::is_empty", "std::string::String::is_empty", "core::str::<impl str>::is_empty",
     "std::collections::HashMap::<K, V, S, A>::is_empty", "std::collections::HashSet::<T, S, A>::is_empty", "std::collections::VecDeque::<T, A>::is_empty")
def _(Ip, st, a, i):
    return [(st, eq0(vlen(Ip.deref_val(st, a[0]))))]


@reg("std::vec::Vec::<T>::new", "std::vec::Vec::<T>::with_capacity", "std::collections::VecDeque::<T>::new", "std::collections::VecDeque::<T>::with_capacity")
def _(Ip, st, a, i):
    return [(st, vec(()))]


@reg("std::string::String::new", "std::string::String::with_capacity")
def _(Ip, st, a, i):
    return [(st, mk("str", ""))]


@reg("std::collections::HashMap::<K, V>::new", "std::collections::HashSet::<T>::new", "std::collections::HashSet::<T>::with_capacity",
     "std::collections::HashMap::<K, V>::with_capacity", "std::collections::BTreeMap::<K, V>::new")
def _(Ip, st, a, i):
    return [(st, mk("emptymap"))]


@reg("std::default::Default::default")
def _(Ip, st, a, i):
    d = i["dest"] or ""
    if d.startswith(("std::collections::HashMap", "std::collections::HashSet")):
        return [(st, mk("emptymap"))]
    return [(st, default_of(d))]


@reg("std::vec::from_elem")
def _(Ip, st, a, i):
    return [(st, mk("rep", a[0], a[1]))]


def sub_ref(Ip, st, r, e):
    """reference to a sub-place of *r"""
    if r.op == "ref":
        return mk("ref", r.a[0], r.a[1] + (e,))
    return mk("vref", Ip.proj(st, Ip.deref_val(st, r), e))


def range_parts(x, ln):
    """(lo, hi) of a std range value over a sequence of length ln, or None"""
    if x.op != "adt":
        return None
    p = x.a[0]
    if p.endswith("::RangeFull"):
        return IntI(0), ln
    if p.endswith("::RangeFrom"):
        return x.a[3][0], ln
    if p.endswith("::RangeTo"):
        return IntI(0), x.a[3][0]
    if p.endswith("::RangeToInclusive"):
        return IntI(0), add(x.a[3][0], IntI(1))
    if p.endswith("::Range"):
        return x.a[3][0], x.a[3][1]
    if p.endswith("::RangeInclusive"):
        return x.a[3][0], add(x.a[3][1], IntI(1))
    return None


@reg("std::ops::Index::index", "std::ops::IndexMut::index_mut")
def h_index(Ip, st, a, i):
    ty = re.sub(r"^&('\w+ )?(mut )?", "", i["argty"][0])
    base = Ip.deref_val(st, a[0])
    if ty.startswith(("std::collections::HashMap", "std::collections::BTreeMap")):
        k = D(Ip, st, a[1])
        g = map_get(Ip, st, base, k)
        out = []
        sp = osplit(Ip, st, g)
        Ip.oblige(i["body"], i["bb"], "map-index", i["line"], f"key {show(k)[:80]} present", all(v for _, v, _ in sp), st, (mk("opaque"),))
        return [(s, p) for s, v, p in sp if v]
    ln = vlen(base)
    ix = a[1]
    if i["argty"][1] == "usize":
        Ip.typed(ix, "usize")
        g = sub(sub(ln, IntI(1)), ix)
        Ip.oblige(i["body"], i["bb"], "bounds", i["line"], f"{show(ix)} < {show(ln)}", st.proves(g), st, (ln, ix))
        s = st.copy()
        if not s.add_ge(g):
            return []
        return [(s, sub_ref(Ip, s, a[0], ("elt", ix)))]
    rp = range_parts(D(Ip, st, ix), ln)
    if rp:
        lo, hi = rp
        for z in (lo, hi):
            Ip.typed(z, "usize")
        g1, g2 = sub(hi, lo), sub(ln, hi)
        Ip.oblige(i["body"], i["bb"], "slice-order", i["line"], f"{show(lo)} <= {show(hi)}", st.proves(g1), st, (lo, hi))
        Ip.oblige(i["body"], i["bb"], "slice-end", i["line"], f"{show(hi)} <= {show(ln)}", st.proves(g2), st, (hi, ln))
        s = st.copy()
        if not (s.add_ge(g1) and s.add_ge(g2)):
            return []
        return [(s, sub_ref(Ip, s, a[0], ("sl", lo, sub(hi, lo))))]
    return [(st, Ip.unknown(st, "index", a, i))]


@reg("core::slice::<impl [T]>::get", "core::slice::<impl [T]>::get_mut")
def _(Ip, st, a, i):
    base = Ip.deref_val(st, a[0])
    ln = vlen(base)
    out = []
    if i["argty"][1] == "usize":
        ix = Ip.typed(a[1], "usize")
        g = sub(sub(ln, IntI(1)), ix)
        s = st.copy()
        if s.add_ge(g):
            out.append((s, Some(sub_ref(Ip, s, a[0], ("elt", ix)))))
        s2 = st.copy()
        if s2.add_ge(sub(ix, ln)):
            out.append((s2, NONE))
        return out
    rp = range_parts(D(Ip, st, a[1]), ln)
    if rp:
        lo, hi = rp
        s = st.copy()
        if s.add_ge(sub(hi, lo)) and s.add_ge(sub(ln, hi)):
            out.append((s, Some(sub_ref(Ip, s, a[0], ("sl", lo, sub(hi, lo))))))
        for g in (sub(hi, add(ln, IntI(1))), sub(lo, add(hi, IntI(1)))):
            s = st.copy()
            if s.add_ge(g):
                out.append((s, NONE))
        return out
    return [(st, Ip.unknown(st, "get", a, i))]


def first_last(last):
    def h(Ip, st, a, i):
        ln = vlen(Ip.deref_val(st, a[0]))
        out = []
        s = st.copy()
        if s.add_ge(sub(ln, IntI(1))):
            out.append((s, Some(sub_ref(Ip, s, a[0], ("elt", sub(ln, IntI(1)) if last else IntI(0))))))
        s2 = st.copy()
        if s2.add_ge(neg(ln)):
            out.append((s2, NONE))
        return out
    return h


H["core::slice::<impl [T]>::first"] = first_last(False)
H["core::slice::<impl [T]>::last"] = first_last(True)


def vparts(v):
    return parts(v)


@reg("std::vec::Vec::<T, A>::push", "std::collections::VecDeque::<T, A>::push_back")
def _(Ip, st, a, i):
    s = st.copy()
    v = Ip.deref_val(s, a[0])
    writeback(Ip, s, a[0], vec(tuple(parts(v)) + (("e", a[1]),)))
    return [(s, UNIT)]


@reg("std::vec::Vec::<T, A>::extend_from_slice")
def _(Ip, st, a, i):
    s = st.copy()
    v = Ip.deref_val(s, a[0])
    w = Ip.deref_val(s, a[1])
    writeback(Ip, s, a[0], vec(tuple(parts(v)) + tuple(parts(w))))
    return [(s, UNIT)]


@reg("std::vec::Vec::<T, A>::insert")
def _(Ip, st, a, i):
    s = st.copy()
    v = Ip.deref_val(s, a[0])
    ix = Ip.typed(a[1], "usize")
    ln = vlen(v)
    g = sub(ln, ix)
    Ip.oblige(i["body"], i["bb"], "insert", i["line"], f"{show(ix)} <= {show(ln)}", st.proves(g), st, (ln, ix))
    if not s.add_ge(g):
        return []
    if ix.op == "int" and ix.a[0] == 0:
        nv = vec((("e", a[2]),) + tuple(parts(v)))
    else:
        nv = vec(tuple(parts(slice_of(v, IntI(0), ix))) + (("e", a[2]),) + tuple(parts(slice_of(v, ix, sub(ln, ix)))))
    writeback(Ip, s, a[0], nv)
    return [(s, UNIT)]


@reg("std::vec::Vec::<T, A>::remove")
def _(Ip, st, a, i):
    s = st.copy()
    v = Ip.deref_val(s, a[0])
    ix = Ip.typed(a[1], "usize")
    ln = vlen(v)
    g = sub(sub(ln, IntI(1)), ix)
    Ip.oblige(i["body"], i["bb"], "remove", i["line"], f"{show(ix)} < {show(ln)}", st.proves(g), st, (ln, ix))
    if not s.add_ge(g):
        return []
    e = velt(v, ix)
    nx = add(ix, IntI(1))
    writeback(Ip, s, a[0], vec(tuple(parts(slice_of(v, IntI(0), ix))) + tuple(parts(slice_of(v, nx, sub(ln, nx))))))
    return [(s, e)]


@reg("std::vec::Vec::<T, A>::pop")
def _(Ip, st, a, i):
    v = Ip.deref_val(st, a[0])
    ln = vlen(v)
    out = []
    s = st.copy()
    if s.add_ge(sub(ln, IntI(1))):
        e = velt(v, sub(ln, IntI(1)))
        ps = tuple(parts(v))
        nv = vec(ps[:-1]) if ps and ps[-1][0] == "e" else slice_of(v, IntI(0), sub(ln, IntI(1)))
        writeback(Ip, s, a[0], nv)
        out.append((s, Some(e)))
    s2 = st.copy()
    if s2.add_ge(neg(ln)):
        out.append((s2, NONE))
    return out


@reg("std::vec::Vec::<T, A>::truncate")
def _(Ip, st, a, i):
    s = st.copy()
    v = Ip.deref_val(s, a[0])
    writeback(Ip, s, a[0], slice_of(v, IntI(0), smn(s, vlen(v), Ip.typed(a[1], "usize"))))
    return [(s, UNIT)]


@reg("std::vec::Vec::<T, A>::clear")
def _(Ip, st, a, i):
    s = st.copy()
    writeback(Ip, s, a[0], vec(()))
    return [(s, UNIT)]


@reg("core::slice::<impl [T]>::sort_unstable", "std::slice::<impl [T]>::sort", "core::slice::<impl [T]>::reverse", "core::slice::<impl [T]>::sort_unstable_by_key",
     "std::slice::<impl [T]>::sort_by", "std::slice::<impl [T]>::sort_by_key", "core::slice::<impl [T]>::sort_unstable_by")
def _(Ip, st, a, i):
    s = st.copy()
    v = Ip.deref_val(s, a[0])
    writeback(Ip, s, a[0], mk("reord", "sort" if "sort" in i["fn"] else "rev", v))
    return [(s, UNIT)]


@reg("core::slice::<impl [T]>::contains", "std::collections::HashSet::<T, S, A>::contains")
def _(Ip, st, a, i):
    v, x = Ip.deref_val(st, a[0]), D(Ip, st, a[1])
    if v.op in ("arr", "vec") and all(p[0] == "e" for p in parts(v)):
        r = FALSE
        for p in parts(v):
            r = bor(r, equal(Ip, st, p[1], x))
        return [(st, r)]
    return [(st, mk("contains", v, x))]


@reg("std::collections::HashSet::<T, S, A>::insert")
def _(Ip, st, a, i):
    s = st.copy()
    v, x = Ip.deref_val(s, a[0]), D(Ip, s, a[1])
    writeback(Ip, s, a[0], mk("setadd", v, x))
    return [(s, bnot(mk("contains", v, x)))]


@reg("core::slice::<impl [T]>::split_at")
def _(Ip, st, a, i):
    v = Ip.deref_val(st, a[0])
    n = Ip.typed(a[1], "usize")
    g = sub(vlen(v), n)
    Ip.oblige(i["body"], i["bb"], "slice-end", i["line"], f"{show(n)} <= {show(vlen(v))}", st.proves(g), st, (n, vlen(v)))
    s = st.copy()
    if not s.add_ge(g):
        return []
    return [(s, tup(sub_ref(Ip, s, a[0], ("sl", IntI(0), n)), sub_ref(Ip, s, a[0], ("sl", n, g))))]


# ---------------------------------------------------------------------------------------------- maps
def map_get(Ip, st, m, k):
    while m.op == "mapins":
        e = const_eq(m.a[1], k)
        if e is True:
            return Some(mk("vref", m.a[2]))
        if e is False:
            m = m.a[0]
            continue
        break
    if m.op == "emptymap":
        return NONE
    return mk("mapget", m, k)


@reg("std::collections::HashMap::<K, V, S, A>::get", "std::collections::BTreeMap::<K, V, A>::get")
def _(Ip, st, a, i):
    return [(st, map_get(Ip, st, D1(Ip, st, a[0]), D(Ip, st, a[1])))]


@reg("std::collections::HashMap::<K, V, S, A>::get_mut")
def _(Ip, st, a, i):
    s = st.copy()
    m = D1(Ip, s, a[0])
    g = map_get(Ip, s, m, D(Ip, s, a[1]))
    writeback(Ip, s, a[0], mk("mapmut", m, D(Ip, s, a[1]), f"{i['ctx']}:{i['bb']}"))
    return [(s, g)]


@reg("std::collections::HashMap::<K, V, S, A>::contains_key")
def _(Ip, st, a, i):
    g = map_get(Ip, st, D1(Ip, st, a[0]), D(Ip, st, a[1]))
    if g.op == "adt":
        return [(st, TRUE if g.a[1] else FALSE)]
    A.DISCRS.setdefault(g, (0, 1))
    return [(st, eq0(sub(mk("discr", g), IntI(1))))]


@reg("std::collections::HashMap::<K, V, S, A>::insert", "std::collections::BTreeMap::<K, V, A>::insert")
def _(Ip, st, a, i):
    s = st.copy()
    m = D1(Ip, s, a[0])
    k = D(Ip, s, a[1])
    old = map_get(Ip, s, m, k)
    depth, x = 0, m
    while x.op == "mapins":
        depth += 1
        x = x.a[0]
    writeback(Ip, s, a[0], mk("mapins", m, k, a[2]) if depth < 40 else mk("mapmut", m, k, f"{i['ctx']}:{i['bb']}"))
    return [(s, mk("mapold", old))]


@reg("std::collections::HashMap::<K, V, S, A>::remove")
def _(Ip, st, a, i):
    s = st.copy()
    m = D1(Ip, s, a[0])
    k = D(Ip, s, a[1])
    g = map_get(Ip, s, m, k)
    writeback(Ip, s, a[0], mk("mapdel", m, k))
    return [(s, mk("mapold", g))]


# ---------------------------------------------------------------------------------------------- iterators
def it(kind, *a):
    return mk("iter", kind, *a)


@reg("core::slice::<impl [T]>::iter")
def _(Ip, st, a, i):
    return [(st, it("slice", Ip.deref_val(st, a[0])))]


@reg("core::slice::<impl [T]>::iter_mut")
def _(Ip, st, a, i):
    return [(st, it("slicemut", a[0], Ip.deref_val(st, a[0])))]


@reg("core::slice::<impl [T]>::chunks_exact", "core::slice::<impl [T]>::chunks")
def _(Ip, st, a, i):
    n = Ip.typed(a[1], "usize")
    Ip.oblige(i["body"], i["bb"], "div0", i["line"], f"chunk size {show(n)} != 0", st.nonzero(n), st, (n,))
    s = st.copy()
    if not s.add_ne(n):
        return []
    return [(s, it("chunks" if i["fn"].endswith("exact") else "chunks_", Ip.deref_val(st, a[0]), n))]


@reg("core::slice::<impl [T]>::windows")
def _(Ip, st, a, i):
    return [(st, it("windows", Ip.deref_val(st, a[0]), a[1]))]


@reg("std::iter::repeat_n")
def _(Ip, st, a, i):
    return [(st, it("repeatn", a[0], a[1]))]


@reg("std::iter::once")
def _(Ip, st, a, i):
    return [(st, it("vecinto", vec((("e", a[0]),))))]


@reg("std::collections::HashMap::<K, V, S, A>::values", "std::collections::HashMap::<K, V, S, A>::keys",
     "std::collections::HashMap::<K, V, S, A>::iter", "std::collections::HashMap::<K, V, S, A>::values_mut")
def _(Ip, st, a, i):
    return [(st, it("hiter", D1(Ip, st, a[0]), i["fn"].rsplit("::", 1)[1]))]


def as_iter(Ip, st, v, ty):
    if v.op == "iter":
        return v
    t = ty
    m = re.match(r"^&('\w+ )?(mut )?(.*)$", t)
    if m:
        inner = m.group(3)
        tgt = Ip.deref_val(st, v)
        if tgt.op == "iter":
            return tgt
        if inner.startswith(("std::vec::Vec", "[", "std::collections::VecDeque")):
            return it("slicemut", v, tgt) if m.group(2) else it("slice", tgt)
        if inner.startswith(("std::collections::HashMap", "std::collections::BTreeMap")):
            return it("hiter", tgt, "iter")
        if inner.startswith(("std::collections::HashSet", "std::collections::BTreeSet")):
            return it("hiter", tgt, "keys")
        return it("opaque", tgt)
    if t.startswith(("std::vec::Vec", "[")):
        return it("vecinto", v)
    if t.startswith("std::ops::Range<") and v.op == "adt":
        e = t[len("std::ops::Range<"):-1]
        return it("range", Ip.typed(v.a[3][0], e), Ip.typed(v.a[3][1], e), e)
    if t.startswith("std::ops::RangeInclusive<") and v.op == "adt":
        e = t[len("std::ops::RangeInclusive<"):-1]
        return it("range", Ip.typed(v.a[3][0], e), add(Ip.typed(v.a[3][1], e), IntI(1)), e)
    if t.startswith("std::option::Option"):
        return it("optinto", v)
    return it("opaque", v)


@reg("std::ops::RangeInclusive::<Idx>::new")
def _(Ip, st, a, i):
    return [(st, adt("std::ops::RangeInclusive", 0, "RangeInclusive", (a[0], a[1])))]


@reg("std::iter::IntoIterator::into_iter", "std::iter::Iterator::by_ref")
def _(Ip, st, a, i):
    return [(st, as_iter(Ip, st, a[0], i["argty"][0]))]


def unary(kind):
    def h(Ip, st, a, i):
        b = as_iter(Ip, st, a[0], i["argty"][0])
        return [(st, it(kind, b, *a[1:]))]
    return h


for _n, _k in (("map", "map"), ("filter", "filter"), ("filter_map", "filtermap"), ("enumerate", "enum"), ("rev", "rev"),
               ("copied", "copied"), ("cloned", "copied"), ("skip", "skip"), ("take", "take"), ("step_by", "stepby"),
               ("take_while", "takewhile"), ("skip_while", "skipwhile"), ("flat_map", "flatmap"), ("peekable", "ident"), ("inspect", "ident")):
    H["std::iter::Iterator::" + _n] = unary(_k)


@reg("std::iter::Iterator::zip", "std::iter::Iterator::chain")
def _(Ip, st, a, i):
    x = as_iter(Ip, st, a[0], i["argty"][0])
    y = as_iter(Ip, st, a[1], i["argty"][1])
    return [(st, it(i["fn"].rsplit("::", 1)[1], x, y))]


NC = mk("none")


def count(st, x):
    k, a = x.a[0], x.a[1:]
    if k in ("slice", "vecinto"):
        return vlen(a[0])
    if k == "slicemut":
        return vlen(a[1])
    if k == "range":
        d = sub(a[1], a[0])
        r = smx(st, d, I(0))
        return r
    if k in ("map", "enum", "rev", "copied", "ident"):
        return count(st, a[0])
    if k == "zip":
        x, y = count(st, a[0]), count(st, a[1])
        if x is NC or y is NC:
            return NC
        return smn(st, x, y)
    if k == "chain":
        x, y = count(st, a[0]), count(st, a[1])
        return NC if x is NC or y is NC else add(x, y)
    if k == "take":
        x = count(st, a[0])
        return NC if x is NC else smn(st, x, a[1])
    if k == "skip":
        x = count(st, a[0])
        return NC if x is NC else smx(st, sub(x, a[1]), I(0))
    if k == "stepby":
        x = count(st, a[0])
        return NC if x is NC else div(sub(add(x, a[1]), I(1)), a[1])
    if k == "chunks":
        t = div(vlen(a[0]), a[1])
        TYOF.setdefault(t, "usize") if t.op not in ("int", "L") else None
        return t
    if k == "windows":
        return smx(st, add(sub(vlen(a[0]), a[1]), I(1)), I(0))
    if k == "repeatn":
        return a[1]
    if k == "hiter":
        return vlen(a[0])
    if k == "at":
        c = count(st, a[0])
        return c if c is NC else sub(c, I(a[1]))
    return NC


SKIP = mk("skip")


def elem(Ip, st, x, pos, info):
    """[(state, element value | SKIP)] for position pos of iterator x"""
    k, a = x.a[0], x.a[1:]
    if k == "at":
        return elem(Ip, st, a[0], add(pos, I(a[1])), info)
    if k == "slice":
        return [(st, mk("vref", velt(a[0], pos)))]
    if k == "slicemut":
        return [(st, sub_ref(Ip, st, a[0], ("elt", pos)))]
    if k == "vecinto":
        return [(st, velt(a[0], pos))]
    if k == "range":
        v = add(a[0], pos)
        return [(st, Ip.typed(v, a[2]))]
    if k == "map":
        out = []
        for s, v in elem(Ip, st, a[0], pos, info):
            out += [(s, v)] if v is SKIP else call(Ip, s, a[1], [v], info)
        return out
    if k == "enum":
        if has_filter(a[0]):
            p = A.sym(f"pos@{info['ctx']}:{info['bb']}:en", "usize", "op")
        else:
            p = pos
        return [(s, v if v is SKIP else tup(p, v)) for s, v in elem(Ip, st, a[0], pos, info)]
    if k == "copied":
        return [(s, v if v is SKIP else Ip.deref_val(s, v)) for s, v in elem(Ip, st, a[0], pos, info)]
    if k == "ident":
        return elem(Ip, st, a[0], pos, info)
    if k == "rev":
        c = count(st, a[0])
        if c is NC:
            return [(st, A.sym(f"el:{info['ctx']}:{info['bb']}"))]
        return elem(Ip, st, a[0], sub(sub(c, I(1)), pos), info)
    if k == "skip":
        return elem(Ip, st, a[0], add(pos, a[1]), info)
    if k in ("take", "takewhile"):
        return elem(Ip, st, a[0], pos, info)
    if k == "stepby":
        return elem(Ip, st, a[0], mul(pos, a[1]), info)
    if k == "zip":
        out = []
        for s, v in elem(Ip, st, a[0], pos, info):
            for s2, w in elem(Ip, s, a[1], pos, info):
                out.append((s2, SKIP if v is SKIP or w is SKIP else tup(v, w)))
        return out
    if k == "chain":
        c = count(st, a[0])
        if c is NC:
            return elem(Ip, st, a[0], pos, info) + elem(Ip, st.copy(), a[1], pos, info)
        out = []
        s = st.copy()
        if s.add_ge(sub(sub(c, I(1)), pos)):
            out += elem(Ip, s, a[0], pos, info)
        s = st.copy()
        if s.add_ge(sub(pos, c)):
            out += elem(Ip, s, a[1], sub(pos, c), info)
        return out
    if k == "chunks":
        o = mul(pos, a[1])
        return [(st, mk("vref", slice_of(a[0], o, a[1])))]
    if k == "windows":
        return [(st, mk("vref", slice_of(a[0], pos, a[1])))]
    if k == "repeatn":
        return [(st, a[0])]
    if k == "filter":
        out = []
        for s, v in elem(Ip, st, a[0], pos, info):
            if v is SKIP:
                out.append((s, v))
                continue
            for s2, b in call(Ip, s, a[1], [mk("vref", v)], info):
                for val in (True, False):
                    kn = s2.known(b)
                    if kn is not None and kn != val:
                        continue
                    s3 = s2.copy()
                    if s3.assume(b, val):
                        out.append((s3, v if val else SKIP))
        return out
    if k == "filtermap":
        out = []
        for s, v in elem(Ip, st, a[0], pos, info):
            if v is SKIP:
                out.append((s, v))
                continue
            for s2, o in call(Ip, s, a[1], [v], info):
                for s3, vi, p in osplit(Ip, s2, o):
                    out.append((s3, p if vi else SKIP))
        return out
    if k == "hiter":
        kk, vv = mk("vref", mk("mapkey", a[0], pos)), mk("vref", mk("mapval", a[0], pos))
        return [(st, {"values": vv, "keys": kk, "iter": tup(kk, vv)}.get(a[1], vv))]
    if k == "optinto":
        return [(s, p if vi else SKIP) for s, vi, p in osplit(Ip, st, a[0])]
    return [(st, mk("oel", x, pos))]


def has_filter(x):
    return x.a[0] in ("filter", "filtermap", "flatmap", "skipwhile", "opaque", "optinto") or any(
        isinstance(y, T) and y.op == "iter" and has_filter(y) for y in x.a[1:])


def clear_pos(st, pos):
    """forget facts left over from an earlier visit of this position symbol"""
    keep = frozenset(L for L in st.ge if not mentions(L, pos))
    if len(keep) != len(st.ge):
        st.ge = keep
        st._inv()
    ne = frozenset(L for L in st.ne if not mentions(L, pos))
    st.ne = ne
    for k in [k for k in st.bl if mentions(k, pos)]:
        del st.bl[k]
    for k in [k for k in st.va if mentions(k, pos)]:
        del st.va[k]


_ment = {}


def mentions(t, x):
    k = (t, x)
    r = _ment.get(k)
    if r is None:
        r = contains(t, lambda y: y is x)
        _ment[k] = r
    return r


@reg("std::iter::Iterator::next")
def h_next(Ip, st, a, i):
    x = D(Ip, st, a[0])
    if x.op != "iter":
        ty = re.sub(r"^(&mut )+", "", i["argty"][0])
        if x.op == "adt" and "Range" in x.a[0]:
            x = as_iter(Ip, st, x, ty)
        else:
            return [(st, Ip.unknown(st, "next", a, i))]
    c = count(st, x)
    if Ip.unrolling and not has_filter(x):
        k, base = (x.a[2], x.a[1]) if x.a[0] == "at" else (0, x)
        n = count(st, base)
        r = a[0]
        while r.op == "ref" and Ip.read_loc(st, r.a[0], r.a[1]).op == "ref":
            r = Ip.read_loc(st, r.a[0], r.a[1])
        if n.op == "int" and n.a[0] <= 16 and r.op == "ref":
            if k >= n.a[0]:
                return [(st, NONE)]
            out = []
            for s2, v in elem(Ip, st.copy(), base, I(k), i):
                Ip.write_loc(s2, r.a[0], r.a[1], it("at", base, k + 1))
                out.append((s2, Some(v)))
            return out
    pos = A.sym(f"pos@{i['ctx']}:{i['bb']}", "usize", "in")
    out = []
    s = st.copy()
    clear_pos(s, pos)
    s0 = s.copy()
    ok = True
    if c is not NC:
        ok = s.add_ge(sub(sub(c, I(1)), pos))
    if ok:
        for s2, v in elem(Ip, s, x, pos, i):
            if v is not SKIP:
                out.append((s2, Some(v)))
    s0.bl[mk("exhausted", c, pos.a[0], (i["ctx"], i["bb"]))] = True
    out.append((s0, NONE))
    return out


def new_facts(s, st, pos):
    return {L for L in s.ge - st.ge if mentions(L, pos)} | {L for L in s.ge if mentions(L, pos)}


def run_elems(Ip, st, x, info, tag):
    """evaluate one symbolic element; returns (pos, count, outcomes)"""
    d = getattr(Ip, "cdepth", 0)
    pos = A.sym(f"pos@canon{d}", "usize", "in")
    Ip.cdepth = d + 1
    try:
        s = st.copy()
        clear_pos(s, pos)
        c = count(st, x)
        if c is not NC:
            if not s.add_ge(sub(sub(c, I(1)), pos)):
                return pos, c, []
        return pos, c, elem(Ip, s, x, pos, info)
    finally:
        Ip.cdepth = d


def common_facts(outs, st, pos):
    f = None
    for s, _ in outs:
        m = new_facts(s, st, pos)
        f = m if f is None else f & m
    return f or set()


def seq_value(Ip, st, x, c, pos, outs, vals, info):
    """vector term for the collected values"""
    filt = has_filter(x) or c is NC
    alts = []
    for v in vals:
        if v not in alts:
            alts.append(v)
    if not alts:
        return vec(())
    if filt:
        ln = A.sym(f"flen:{info['ctx']}:{info['bb']}", "usize", "op")
        if c is not NC:
            st.add_ge(sub(c, ln))
        return vec((("m", ln, tuple(alts[:8]), None),)) if len(alts) <= 8 else mk("collected", x)
    if len(alts) == 1:
        v = alts[0]
        if v.op == "elt" and v.a[1] is pos and c is vlen(v.a[0]) and not mentions(v.a[0], pos):
            return v.a[0]
        if v.op == "elt" and not mentions(v.a[0], pos):
            o = sub(v.a[1], pos)
            if not mentions(o, pos):
                return slice_of(v.a[0], o, c)
        return vec((("m", c, (v,), pos),))
    return vec((("m", c, tuple(alts[:12]), pos),))


@reg("std::iter::Iterator::collect", "std::iter::FromIterator::from_iter")
def h_collect(Ip, st, a, i):
    x = as_iter(Ip, st, a[0], i["argty"][0])
    d = i["dest"] or (i["ga"][-1] if i["ga"] else "")
    pos, c, outs = run_elems(Ip, st, x, i, "c")
    outs = [(s, v) for s, v in outs if v is not SKIP]
    wrap = "R" if d.startswith("std::result::Result") else "O" if d.startswith("std::option::Option") else None
    inner = re.sub(r"^std::(result::Result|option::Option)<", "", d)
    res_ = []
    if wrap:
        oks, bad = [], False
        for s, v in outs:
            for s2, vi, p in (rsplit if wrap == "R" else osplit)(Ip, s, v):
                if vi == (0 if wrap == "R" else 1):
                    oks.append((s2, p))
                else:
                    bad = True
        if bad:
            res_.append((st.copy(), Err(mk("err")) if wrap == "R" else NONE))
        s = st.copy()
        outs = oks
    else:
        s = st.copy()
    if not outs and c is not NC:
        # no element can be produced without failing: the sequence is empty
        if not s.add_ge(neg(c)):
            return res_
    for L in common_facts(outs, st, pos):
        s.uni = s.uni | {(pos, L)}
    s._inv()
    if not inner.startswith("std::vec::Vec") and not d.startswith("std::vec::Vec") and "VecDeque" not in d:
        if inner.startswith("std::string"):
            v = mk("cstr", x)
        else:
            vals = tuple(dict.fromkeys(v for _, v in outs))[:6]
            v = mk("cmap", c, vals, pos)
    else:
        v = seq_value(Ip, s, x, c, pos, outs, [v for _, v in outs], i)
    res_.append((s, v if not wrap else (Ok(v) if wrap == "R" else Some(v))))
    return res_


@reg("std::iter::Extend::extend")
def _(Ip, st, a, i):
    x = as_iter(Ip, st, a[1], i["argty"][1])
    s = st.copy()
    v = Ip.deref_val(s, a[0])
    pos, c, outs = run_elems(Ip, st, x, i, "x")
    outs = [(q, w if not i["argty"][1].startswith("&") else D(Ip, q, w)) for q, w in outs if w is not SKIP]
    tyv = re.sub(r"^&('\w+ )?(mut )?", "", i["argty"][0])
    if not tyv.startswith("std::vec::Vec"):
        writeback(Ip, s, a[0], mk("extended", v, c, tuple(dict.fromkeys(w for _, w in outs))[:6], pos))
        return [(s, UNIT)]
    w = seq_value(Ip, s, x, c, pos, outs, [q for _, q in outs], i)
    writeback(Ip, s, a[0], vec(tuple(parts(v)) + tuple(parts(w))))
    return [(s, UNIT)]


def reduce_h(kind):
    def h(Ip, st, a, i):
        x = as_iter(Ip, st, a[0], i["argty"][0])
        pos, c, outs = run_elems(Ip, st, x, i, kind)
        vals = tuple(dict.fromkeys(SKIP if v is SKIP else D(Ip, s, v) for s, v in outs))
        d = i["dest"]
        if d in RANGES:
            for v in vals:
                Ip.typed(v, d)
        if c.op == "int" and len(vals) == 1 and SKIP not in vals and c.a[0] <= 6:
            r = I(1 if kind == "prod" else 0)
            for n in range(c.a[0]):
                e = subst(vals[0], {pos: I(n)})
                r = mul(r, e) if kind == "prod" else add(r, e)
            return [(st, Ip.typed(r, d) if d else r)]
        t = mk(kind, c, vals, pos)
        if d in RANGES:
            TYOF[t] = d
        return [(st, t)]
    return h


H["std::iter::Iterator::product"] = reduce_h("prod")
H["std::iter::Iterator::sum"] = reduce_h("sum")


@reg("std::iter::Iterator::count")
def _(Ip, st, a, i):
    x = as_iter(Ip, st, a[0], i["argty"][0])
    c = count(st, x)
    if c is not NC:
        return [(st, c)]
    pos, c, outs = run_elems(Ip, st, x, i, "n")
    t = mk("cnt", x)
    TYOF[t] = "usize"
    return [(st, t)]


@reg("std::iter::Iterator::max", "std::iter::Iterator::min", "std::iter::Iterator::last")
def _(Ip, st, a, i):
    x = as_iter(Ip, st, a[0], i["argty"][0])
    pos, c, outs = run_elems(Ip, st, x, i, "mx")
    t = mk("opt" + i["fn"].rsplit("::", 1)[1], c, tuple(dict.fromkeys(v for _, v in outs)), pos)
    A.DISCRS.setdefault(t, (0, 1))
    return [(st, t)]


@reg("std::iter::Iterator::fold")
def _(Ip, st, a, i):
    x = as_iter(Ip, st, a[0], i["argty"][0])
    init, f = a[1], a[2]
    acc = A.sym(f"acc@{getattr(Ip, 'cdepth', 0)}", i["dest"])
    pos, c, outs = run_elems(Ip, st, x, i, "f")
    vals = []
    for s, v in outs:
        if v is SKIP:
            continue
        for s2, r in call(Ip, s, f, [acc, v], i):
            if r not in vals:
                vals.append(r)
    t = None
    if len(vals) == 1:
        r = vals[0]
        if r.op == "mul" and acc in r.a and list(r.a).count(acc) == 1:
            e = I(1)
            for z in r.a:
                if z is not acc:
                    e = mul(e, z)
            if not mentions(e, acc):
                t = mul(init, mk("prod", c, (e,) + ((SKIP,) if has_filter(x) else ()), pos))
        elif r.op == "L" and A._coef(r, acc) == 1 and not mentions(sub(r, acc), acc):
            t = add(init, mk("sum", c, (sub(r, acc),) + ((SKIP,) if has_filter(x) else ()), pos))
        elif r.op == "f.max" and acc in r.a:
            e = [z for z in r.a if z is not acc]
            if len(e) == 1 and not mentions(e[0], acc):
                t = mk("fmaxof", init, c, (e[0],) + ((SKIP,) if has_filter(x) else ()), pos)
        elif r.op == "fAdd" and acc in r.a:
            e = [z for z in r.a if z is not acc]
            if len(e) == 1 and not mentions(e[0], acc):
                t = mk("fsum", init, c, (e[0],) + ((SKIP,) if has_filter(x) else ()), pos)
    if t is None:
        t = mk("fold", init, c, tuple(vals), pos)
    if i["dest"] in RANGES:
        Ip.typed(t, i["dest"])
    return [(st, t)]


@reg("std::iter::Iterator::try_fold")
def _(Ip, st, a, i):
    x = as_iter(Ip, st, D(Ip, st, a[0]), re.sub(r"^&mut ", "", i["argty"][0]))
    init, f = a[1], a[2]
    dt = i["dest"] or ""
    acc = A.sym(f"acc@{getattr(Ip, 'cdepth', 0)}", "usize" if "usize" in dt else None)
    pos, c, outs = run_elems(Ip, st, x, i, "f")
    vals = []
    isr = dt.startswith("std::result::Result")
    for s, v in outs:
        if v is SKIP:
            continue
        for s2, r in call(Ip, s, f, [acc, v], i):
            for s3, vi, p in (rsplit if isr else osplit)(Ip, s2, r):
                if vi == (0 if isr else 1) and p not in vals:
                    vals.append(p)
    t = None
    if len(vals) == 1:
        r = vals[0]
        if r.op == "mul" and list(r.a).count(acc) == 1:
            e = I(1)
            for z in r.a:
                if z is not acc:
                    e = mul(e, z)
            if not mentions(e, acc):
                t = mul(init, mk("prod", c, (e,), pos))
    if t is None:
        t = mk("fold", init, c, tuple(vals), pos)
    Ip.typed(t, "usize" if "usize" in dt else "?")
    s2 = st.copy()
    return [(st, Ok(t) if isr else Some(t)), (s2, Err(mk("err")) if isr else NONE)]


def quant(kind):
    def h(Ip, st, a, i):
        x = as_iter(Ip, st, D(Ip, st, a[0]), re.sub(r"^&mut ", "", i["argty"][0]))
        pos, c, outs = run_elems(Ip, st, x, i, kind)
        ff, ft, tm = None, None, []
        for s, v in outs:
            if v is SKIP:
                continue
            for s2, b in call(Ip, s, a[1], [v], i):
                if b not in tm:
                    tm.append(b)
                for val in (True, False):
                    kn = s2.known(b)
                    if kn is not None and kn != val:
                        continue
                    s3 = s2.copy()
                    if s3.assume(b, val):
                        m = new_facts(s3, st, pos) | {n for n in () }
                        if val:
                            ft = m if ft is None else ft & m
                        else:
                            ff = m if ff is None else ff & m
        key = lambda z: z.id
        t = mk(kind, x if len(tm) != 1 else mk("tuple", (c, tm[0])), pos,
               tuple(sorted(ff or (), key=key)), tuple(sorted(ft or (), key=key)))
        return [(st, t)]
    return h


H["std::iter::Iterator::any"] = quant("any")
H["std::iter::Iterator::all"] = quant("all")


@reg("std::iter::Iterator::find", "std::iter::Iterator::position", "std::iter::Iterator::find_map")
def _(Ip, st, a, i):
    x = as_iter(Ip, st, D(Ip, st, a[0]), re.sub(r"^&mut ", "", i["argty"][0]))
    kind = i["fn"].rsplit("::", 1)[1]
    pos = A.sym(f"pos@{i['ctx']}:{i['bb']}", "usize", "op")
    c = count(st, x)
    s = st.copy()
    clear_pos(s, pos)
    out = [(st.copy(), NONE)]
    if c is not NC and not s.add_ge(sub(sub(c, I(1)), pos)):
        return out
    for s1, v in elem(Ip, s, x, pos, i):
        if v is SKIP:
            continue
        arg = mk("vref", v) if kind == "find" else v
        for s2, b in call(Ip, s1, a[1], [arg], i):
            if kind == "find_map":
                for s3, vi, p in osplit(Ip, s2, b):
                    if vi:
                        out.append((s3, Some(p)))
                continue
            if s2.known(b) is False:
                continue
            s3 = s2.copy()
            if s3.assume(b, True):
                out.append((s3, Some(v if kind == "find" else pos)))
    return out


@reg("std::path::Path::join", "std::path::PathBuf::join")
def _(Ip, st, a, i):
    return [(st, mk("pjoin", D(Ip, st, a[0]), D(Ip, st, a[1])))]


@reg("core::slice::<impl [T]>::starts_with")
def _(Ip, st, a, i):
    v, w = Ip.deref_val(st, a[0]), Ip.deref_val(st, a[1])
    n = vlen(w)
    out = []
    s = st.copy()
    if s.add_ge(sub(vlen(v), n)):
        out.append((s, equal(Ip, s, mk("vref", slice_of(v, IntI(0), n)), mk("vref", w))))
    s = st.copy()
    if s.add_ge(sub(sub(n, vlen(v)), IntI(1))):
        out.append((s, FALSE))
    return out


@reg("core::slice::<impl [T]>::split_at_checked", "core::slice::<impl [T]>::split_first_chunk", "core::slice::<impl [T]>::first_chunk")
def _(Ip, st, a, i):
    v = Ip.deref_val(st, a[0])
    if i["fn"].endswith("checked"):
        n = Ip.typed(a[1], "usize")
    else:
        m = [g for g in i["ga"] if re.fullmatch(r"\d+(_usize)?", str(g))]
        if not m:
            return [(st, Ip.unknown(st, i["fn"], a, i))]
        n = IntI(int(str(m[0]).split("_")[0]))
    g = sub(vlen(v), n)
    out = []
    s = st.copy()
    if s.add_ge(g):
        x = sub_ref(Ip, s, a[0], ("sl", IntI(0), n))
        out.append((s, Some(x if i["fn"].endswith("first_chunk") and "split" not in i["fn"] else tup(x, sub_ref(Ip, s, a[0], ("sl", n, g))))))
    s = st.copy()
    if s.add_ge(sub(neg(g), IntI(1))):
        out.append((s, NONE))
    return out


@reg("std::vec::Vec::<T, A>::append")
def _(Ip, st, a, i):
    s = st.copy()
    v, w = Ip.deref_val(s, a[0]), Ip.deref_val(s, a[1])
    writeback(Ip, s, a[0], vec(tuple(parts(v)) + tuple(parts(w))))
    writeback(Ip, s, a[1], vec(()))
    return [(s, UNIT)]
