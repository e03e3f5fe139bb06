"""Library effects used by jstprove_io: files, readers, writers, codecs, CRC.

Readers are values carrying the byte sequence still to be delivered; writers carry what was handed to them but
has not reached the file; the file system is the set of paths created so far (env key ("fs",0)).  Every fallible
library call has an Err outcome, so every fault point is an outcome of the analysis.
 rd(C) | br(r) buffered | tk(r, L, C0, C) take | ch(a,b) chain | zr(r) zstd decoder | adt with a local Read impl
 file(path) | bufw(inner, pending) | zw(inner, plain)"""
from terms import *
from models import D, D1, it, equal, writeback
import models
import absint as A

M = {}
FS = ("fs", 0)


def reg(*names):
    def d(f):
        for n in names:
            M[n] = f
        return f
    return d


def ioerr(op):
    return Err(mk("ioerr", op))


def cat(*xs):
    ps = ()
    for x in xs:
        ps += tuple(parts(x))
    return vec(ps)


EMPTY = vec(())


def zdec(x):
    return x.a[0] if x.op == "zenc" else mk("zdec", x)


def de(x):
    return x.a[0] if x.op == "ser" else mk("de", x)


def crcapp(d, x):
    if vlen(x) is I(0):
        return d
    if d.op == "crc" and d.a[1].op == "pfx" and x.op == "rest" and x.a[0] is d.a[1].a[0]:
        return crcapp(d.a[0], x.a[0])
    t = mk("crc", d, x)
    TYOF[t] = "u32"
    return t


# -- file system -------------------------------------------------------------------------------
def fs_get(st):
    return dict(st.env[FS].a[0]) if FS in st.env else {}


def fs_put(st, d):
    st.env[FS] = mk("fs", tuple(sorted(d.items(), key=lambda kv: kv[0].id)))


def path_of(Ip, st, a):
    return D(Ip, st, a)


@reg("std::fs::create_dir", "std::fs::create_dir_all")
def _(Ip, st, a, i):
    p = path_of(Ip, st, a[0])
    ok = st.copy()
    d = fs_get(ok)
    d[p] = mk("dir") if i["fn"].endswith("create_dir") else mk("dirall")
    fs_put(ok, d)
    return [(ok, Ok(UNIT)), (st.copy(), ioerr("create_dir"))]


@reg("std::fs::File::create", "std::fs::File::create_new")
def _(Ip, st, a, i):
    p = path_of(Ip, st, a[0])
    ok = st.copy()
    d = fs_get(ok)
    d[p] = EMPTY
    fs_put(ok, d)
    return [(ok, Ok(mk("file", p))), (st.copy(), ioerr("create"))]


@reg("std::fs::write")
def _(Ip, st, a, i):
    p, b = path_of(Ip, st, a[0]), D(Ip, st, a[1])
    ok, part = st.copy(), st.copy()
    d = fs_get(ok)
    d[p] = b
    fs_put(ok, d)
    d = fs_get(part)
    d[p] = mk("partial", b)
    fs_put(part, d)
    return [(ok, Ok(UNIT)), (st.copy(), ioerr("write")), (part, ioerr("write"))]


@reg("std::fs::rename")
def _(Ip, st, a, i):
    p, q = path_of(Ip, st, a[0]), path_of(Ip, st, a[1])
    ok = st.copy()
    d = fs_get(ok)
    if p in d:
        c = d.pop(p)
        d[q] = c
        # children move along
        for k in list(d):
            if k.op == "pjoin" and k.a[0] is p:
                d[mk("pjoin", q, k.a[1])] = d.pop(k)
    fs_put(ok, d)
    return [(ok, Ok(UNIT)), (st.copy(), ioerr("rename"))]


def absent(st, p):
    """p lies in a directory this call created itself, and was not created in it"""
    d = fs_get(st)
    if p in d:
        return False
    while p.op == "pjoin":
        p = p.a[0]
        if p in d:
            return d[p].op == "dir"
    return False


@reg("std::fs::remove_file")
def _(Ip, st, a, i):
    p = path_of(Ip, st, a[0])
    s = st.copy()
    d = fs_get(s)
    if p in d:
        if d[p].op in ("dir", "dirall"):
            return [(s, ioerr("remove_file: is a directory"))]
        d.pop(p)
        fs_put(s, d)
        return [(s, Ok(UNIT))]
    if not absent(st, p):
        s.log = A.push_log(s.log, ("removed-foreign", p))
    return [(s, ioerr("remove_file"))]


@reg("std::fs::remove_dir")
def _(Ip, st, a, i):
    p = path_of(Ip, st, a[0])
    s = st.copy()
    d = fs_get(s)
    if p in d:
        if any(k.op == "pjoin" and k.a[0] is p for k in d):
            return [(s, ioerr("remove_dir: not empty"))]
        d.pop(p)
        fs_put(s, d)
        return [(s, Ok(UNIT))]
    if not absent(st, p):
        s.log = A.push_log(s.log, ("removed-foreign", p))
    return [(s, ioerr("remove_dir"))]


@reg("std::fs::remove_dir_all")
def _(Ip, st, a, i):
    p = path_of(Ip, st, a[0])
    s = st.copy()
    d = fs_get(s)
    if p in d:
        for k in list(d):
            if k is p or k.op == "pjoin" and k.a[0] is p:
                d.pop(k)
        fs_put(s, d)
        return [(s, Ok(UNIT))]
    if not absent(st, p):
        s.log = A.push_log(s.log, ("removed-foreign", p))
    return [(s, ioerr("remove_dir_all"))]


@reg("std::path::Path::is_dir")
def _(Ip, st, a, i):
    p = path_of(Ip, st, a[0])
    d = fs_get(st)
    if p in d:
        return [(st, TRUE if d[p].op in ("dir", "dirall") else FALSE)]
    return [(st, FALSE if absent(st, p) else mk("isdir", p))]


@reg("std::path::Path::is_file")
def _(Ip, st, a, i):
    p = path_of(Ip, st, a[0])
    d = fs_get(st)
    if p in d:
        return [(st, FALSE if d[p].op in ("dir", "dirall") else TRUE)]
    return [(st, FALSE if absent(st, p) else mk("isfile", p))]


@reg("std::path::Path::exists")
def _(Ip, st, a, i):
    p = path_of(Ip, st, a[0])
    return [(st, TRUE if p in fs_get(st) else FALSE if absent(st, p) else mk("exists", p))]


def notfound(p):
    return mk("ioerr", "notfound", p)


@reg("std::fs::Metadata::len")
def _(Ip, st, a, i):
    t = mk("filesize", D(Ip, st, a[0]))
    TYOF[t] = "u64"
    return [(st, t)]


@reg("std::fs::File::open")
def _(Ip, st, a, i):
    p = path_of(Ip, st, a[0])
    d = fs_get(st)
    if absent(st, p):
        return [(st.copy(), Err(notfound(p))), (st.copy(), Err(mk("ioerr", "open", p)))]
    if p not in d:
        return [(st.copy(), Ok(mk("rd", mk("content", p)))), (st.copy(), Err(notfound(p))), (st.copy(), Err(mk("ioerr", "open", p)))]
    c = d[p] if p in d and d[p].op not in ("dir", "dirall") else mk("content", p)
    return [(st.copy(), Ok(mk("rd", c))), (st.copy(), Err(mk("ioerr", "open", p)))]


@reg("std::fs::read")
def _(Ip, st, a, i):
    p = path_of(Ip, st, a[0])
    d = fs_get(st)
    if absent(st, p):
        return [(st.copy(), Err(notfound(p))), (st.copy(), Err(mk("ioerr", "open", p)))]
    if p not in d:
        return [(st.copy(), Ok(mk("content", p))), (st.copy(), Err(notfound(p))), (st.copy(), Err(mk("ioerr", "open", p)))]
    c = d[p] if p in d and d[p].op not in ("dir", "dirall") else mk("content", p)
    return [(st.copy(), Ok(c)), (st.copy(), Err(mk("ioerr", "open", p)))]


# -- codecs ------------------------------------------------------------------------------------
@reg("rmp_serde::to_vec_named", "rmp_serde::to_vec")
def _(Ip, st, a, i):
    v = Ip.freeze(st, D(Ip, st, a[0]))
    return [(st.copy(), Ok(mk("ser" if "named" in i["fn"] else "serpos", v))), (st.copy(), ioerr("serialize"))]


@reg("rmp_serde::from_slice")
def _(Ip, st, a, i):
    b = D(Ip, st, a[0])
    out = [(st.copy(), Ok(de(b)))]
    if b.op != "ser":
        out.append((st.copy(), ioerr("decode")))
    return out


@reg("zstd::encode_all")
def _(Ip, st, a, i):
    b = content(Ip, st, a[0])
    return [(st.copy(), Ok(mk("zenc", b))), (st.copy(), ioerr("zstd encode"))]


@reg("zstd::decode_all")
def _(Ip, st, a, i):
    b = content(Ip, st, a[0])
    out = [(st.copy(), Ok(zdec(b)))]
    if b.op != "zenc":
        out.append((st.copy(), ioerr("zstd decode")))
    return out


@reg("crc32c::crc32c")
def _(Ip, st, a, i):
    return [(st, crcapp(I(0), D(Ip, st, a[0])))]


@reg("crc32c::crc32c_append")
def _(Ip, st, a, i):
    return [(st, crcapp(a[0], D(Ip, st, a[1])))]


# -- readers -----------------------------------------------------------------------------------
READERS = ("rd", "br", "tk", "ch", "zr")


def local_impl(Ip, v, trait, method):
    """path of the crate's own implementation of trait::method for this value's type, or None"""
    if v.op != "adt":
        return None
    for (c, p), f in Ip.p.fns.items():
        if c == Ip.crate and f.get("impl_trait") and f["impl_trait"].startswith(trait) and p.endswith(">::" + method):
            if f.get("impl_self", "").split("<")[0] == v.a[0].split("<")[0]:
                return p
    return None


def content(Ip, st, r):
    """bytes the reader would deliver up to end of stream"""
    if r.op in ("ref", "vref"):
        return content(Ip, st, Ip.deref_val(st, r))
    if r.op == "box":
        return content(Ip, st, r.a[0])
    if r.op == "rd":
        return r.a[0]
    if r.op == "br":
        return content(Ip, st, r.a[0])
    if r.op == "tk":
        return r.a[3]
    if r.op == "ch":
        return cat(content(Ip, st, r.a[0]), content(Ip, st, r.a[1]))
    if r.op == "zr":
        return zdec(content(Ip, st, r.a[0]))
    if r.op == "adt":
        for f in r.a[3]:
            if f.op in READERS or f.op in ("ref", "box") and is_reader(Ip, st, f):
                return content(Ip, st, f)
    return r        # plain byte slices read as themselves


def is_reader(Ip, st, r):
    r = D(Ip, st, r)
    return r.op in READERS or r.op == "box" and is_reader(Ip, st, r.a[0]) or r.op == "adt" and local_impl(Ip, r, "std::io::Read", "read") is not None


def plain(r):
    return r.op == "rd" or r.op in ("br", "box") and plain(r.a[0])


def advance(Ip, st, r, mode, n=None):
    """reader after delivering everything ('all'), an unknown prefix ('some'), or n bytes ('n').
    Returns the new reader value; writes through references."""
    if r.op == "ref":
        v = Ip.deref_val(st, r)
        writeback(Ip, st, r, advance(Ip, st, v, mode, n))
        return r
    if r.op == "box":
        return mk("box", advance(Ip, st, r.a[0], mode, n))
    if r.op == "rd":
        C = r.a[0]
        return mk("rd", EMPTY if mode == "all" else mk("rest", C) if mode == "some" else slice_of(C, n, sub(vlen(C), n)))
    if r.op == "br":
        return mk("br", advance(Ip, st, r.a[0], mode, n))
    if r.op == "tk":
        inner, L, C0, C = r.a
        if inner.op in ("ref",):
            if mode == "all":
                advance(Ip, st, inner, "n", vlen(C))
            elif mode == "n":
                advance(Ip, st, inner, "n", n)
            else:
                advance(Ip, st, inner, "some")
        return mk("tk", inner, L, C0, EMPTY if mode == "all" else mk("rest", C) if mode == "some" else slice_of(C, n, sub(vlen(C), n)))
    if r.op == "ch":
        if mode == "all":
            return mk("ch", advance(Ip, st, r.a[0], mode), advance(Ip, st, r.a[1], mode))
        return mk("rd", mk("rest", content(Ip, st, r)) if mode == "some" else slice_of(content(Ip, st, r), n, sub(vlen(content(Ip, st, r)), n)))
    if r.op == "zr":
        # a decoder that reached its end need not have pulled the last bytes of its source
        return mk("zr", advance(Ip, st, r.a[0], "some"))
    if r.op == "adt":
        return adapter(Ip, st, r, mode, n)
    return mk("rd", mk("rest", r))


def adapter(Ip, st, r, mode, n):
    """a crate-local Read adapter: its `read` is summarised on one symbolic chunk"""
    path = local_impl(Ip, r, "std::io::Read", "read")
    idx = next((k for k, f in enumerate(r.a[3]) if is_reader(Ip, st, f)), None)
    if path is None or idx is None:
        return A.sym(f"reader?{r.id}")
    C = content(Ip, st, r)
    consumed = C if mode == "all" else mk("pfx", C) if mode == "some" else slice_of(C, I(0), n)
    # probe: one call read(buf) whose inner read delivers a chunk K of k >= 1 bytes, or 0 bytes
    before = {}
    for k, f in enumerate(r.a[3]):
        if k != idx and f.op == "ref":
            before[f] = Ip.deref_val(st, f)
    digest_ok = {}
    K = mk("sym", "chunk", "in")
    kn = vlen(K)
    B = mk("sym", "probebuf", "in")
    for delivered in (True, False):
        s = st.copy()
        s.env[("probe", 1)] = mk("adt", r.a[0], r.a[1], r.a[2], tuple(mk("probe", K if delivered else EMPTY) if k == idx else f for k, f in enumerate(r.a[3])))
        s.env[("probe", 2)] = B
        s.add_ge(sub(vlen(B), kn))
        if delivered:
            s.add_ge(sub(kn, I(1)))
        rec, Ip.record = Ip.record, False
        try:
            outs = Ip.call_local(path, s, [mk("ref", ("probe", 1), ()), mk("ref", ("probe", 2), ())], "probe", 0)
        finally:
            Ip.record = rec
        for s2, v in outs:
            if v.op == "adt" and v.a[2] == "Err":
                if contains(v, lambda t: t.op == "ioerr"):
                    continue
                Ip.notes.append(("adapter-error", path, "read() fails on its own account"))
                continue
            want = kn if delivered else I(0)
            if not (v.op == "adt" and v.a[2] == "Ok" and (v.a[3][0] is want or s2.known(eq0(sub(v.a[3][0], want))) is True)):
                Ip.notes.append(("adapter-count", path, f"read() returns {show(v)[:80]} when the source delivered {show(want)} bytes"))
            buf = s2.env.get(("probe", 2))
            if delivered and parts(slice_of(buf, I(0), kn)) != parts(K):
                Ip.notes.append(("adapter-bytes", path, f"read() leaves {show(buf)[:80]} instead of the delivered bytes"))
            for f, old in before.items():
                new = Ip.deref_val(s2, f)
                exp = crcapp(old, K) if delivered else old
                if new is exp:
                    digest_ok.setdefault(f, True)
                elif new is old and delivered:
                    digest_ok[f] = "the delivered bytes are not added to the digest"
                else:
                    digest_ok[f] = f"digest becomes {show(new)[:100]}, expected {show(exp)[:60]}"
    for f, ok in digest_ok.items():
        if ok is True:
            writeback(Ip, st, f, crcapp(before[f], consumed))
        else:
            Ip.notes.append(("adapter-digest", path, ok))
            writeback(Ip, st, f, mk("baddigest", before[f], consumed))
    fs = list(r.a[3])
    fs[idx] = advance(Ip, st, fs[idx], mode, n)
    return mk("adt", r.a[0], r.a[1], r.a[2], tuple(fs))


@reg("std::io::BufReader::<R>::new", "std::io::BufReader::<R>::with_capacity")
def _(Ip, st, a, i):
    return [(st, mk("br", a[-1]))]


@reg("std::io::Cursor::<T>::new")
def _(Ip, st, a, i):
    return [(st, mk("rd", D(Ip, st, a[0])))]


@reg("std::io::Read::by_ref", "std::io::Write::by_ref")
def _(Ip, st, a, i):
    return [(st, a[0])]


@reg("std::io::Read::chain")
def _(Ip, st, a, i):
    if plain(a[0]) and plain(a[1]):
        return [(st, mk("rd", cat(content(Ip, st, a[0]), content(Ip, st, a[1]))))]
    return [(st, mk("ch", a[0], a[1]))]


@reg("std::io::Read::take")
def _(Ip, st, a, i):
    C = content(Ip, st, a[0])
    L = Ip.typed(a[1], "u64")
    out = []
    s = st.copy()
    if s.add_ge(sub(vlen(C), L)):
        c = slice_of(C, I(0), L)
        out.append((s, mk("tk", a[0], L, c, c)))
    s = st.copy()
    if s.add_ge(sub(sub(L, vlen(C)), I(1))):
        out.append((s, mk("tk", a[0], L, C, C)))
    return out


@reg("std::io::Take::<T>::limit")
def _(Ip, st, a, i):
    v = D(Ip, st, a[0])
    if v.op == "tk":
        return [(st, sub(v.a[1], sub(vlen(v.a[2]), vlen(v.a[3]))))]
    return [(st, Ip.unknown(st, "limit", a, i))]


@reg("zstd::Decoder::<'static, std::io::BufReader<R>>::new", "zstd::Decoder::<'a, R>::with_buffer")
def _(Ip, st, a, i):
    return [(st.copy(), Ok(mk("zr", a[0]))), (st.copy(), ioerr("zstd decoder"))]


@reg("rmp_serde::from_read")
def _(Ip, st, a, i):
    s = st.copy()
    C = content(Ip, s, a[0])
    advance(Ip, s, a[0], "some")
    out = [(s, Ok(de(C)))]
    if C.op != "ser":
        out.append((st.copy(), ioerr("decode")))
    return out


@reg("std::io::copy")
def _(Ip, st, a, i):
    s = st.copy()
    C = content(Ip, s, a[0])
    advance(Ip, s, a[0], "all")
    return [(s, Ok(vlen(C))), (st.copy(), ioerr("copy"))]


@reg("std::io::sink", "std::io::Sink")
def _(Ip, st, a, i):
    return [(st, mk("sink"))]


@reg("std::io::Read::read_to_end")
def _(Ip, st, a, i):
    s = st.copy()
    C = content(Ip, s, a[0])
    old = D(Ip, s, a[1])
    writeback(Ip, s, a[1], cat(old, C))
    advance(Ip, s, a[0], "all")
    return [(s, Ok(vlen(C))), (st.copy(), ioerr("read_to_end"))]


@reg("std::io::Read::read_exact")
def _(Ip, st, a, i):
    s = st.copy()
    C = content(Ip, s, a[0])
    n = vlen(D(Ip, s, a[1]))
    out = []
    if s.add_ge(sub(vlen(C), n)):
        writeback(Ip, s, a[1], slice_of(C, I(0), n))
        advance(Ip, s, a[0], "n", n)
        out.append((s, Ok(UNIT)))
    s2 = st.copy()
    if s2.add_ge(sub(sub(n, vlen(C)), I(1))):
        out.append((s2, Err(mk("eof", C))))
    out.append((st.copy(), ioerr("read_exact")))
    return out


@reg("std::io::Read::read")
def _(Ip, st, a, i):
    r = D(Ip, st, a[0])
    if r.op == "probe":
        s = st.copy()
        K = r.a[0]
        if vlen(K) is I(0):
            return [(s, Ok(I(0))), (st.copy(), ioerr("read"))]
        old = D(Ip, st, a[1])
        writeback(Ip, s, a[1], cat(K, slice_of(old, vlen(K), sub(vlen(old), vlen(K)))))
        return [(s, Ok(vlen(K))), (st.copy(), ioerr("read"))]
    C = content(Ip, st, a[0])
    bl = vlen(D(Ip, st, a[1]))
    out = []
    if bl.op == "int" and bl.a[0] <= 8:
        for n in range(0, bl.a[0] + 1):
            s = st.copy()
            if n == 0:
                if bl.a[0] and not (s.add_ge(neg(vlen(C)))):
                    continue
            else:
                if not s.add_ge(sub(vlen(C), I(n))):
                    continue
                buf = a[1]
                if buf.op == "ref":
                    old = Ip.deref_val(s, buf)
                    new = mk("arr", tuple(velt(C, I(k)) if k < n else velt(old, I(k)) for k in range(bl.a[0])))
                    writeback(Ip, s, buf, new)
                advance(Ip, s, a[0], "n", I(n))
            out.append((s, Ok(I(n))))
        out.append((st.copy(), ioerr("read")))
        return out
    return [(st, Ip.unknown(st, "read", a, i))]


@reg("std::io::Error::kind")
def _(Ip, st, a, i):
    e = D(Ip, st, a[0])
    x = e
    while x.op in ("maperr", "from"):
        x = x.a[-1] if x.op == "from" else x.a[0]
    if x.op == "ioerr" and x.a[0] == "notfound":
        return [(st, adt("std::io::ErrorKind", 0, "NotFound", ()))]
    k = mk("errkind", x)
    s = st.copy()
    if x.op == "ioerr":
        s.assume_variant(k, 0, False)
    return [(s, k)]


@reg("anyhow::error::<impl anyhow::Error>::downcast_ref")
def _(Ip, st, a, i):
    e = D(Ip, st, a[0])
    x = e
    while x.op in ("maperr", "from"):
        x = x.a[-1] if x.op == "from" else x.a[0]
    if x.op == "ioerr":
        return [(st, Some(mk("vref", x)))]
    return [(st, mk("downcast", e))]


# -- writers -----------------------------------------------------------------------------------
@reg("std::io::BufWriter::<W>::new", "std::io::BufWriter::<W>::with_capacity")
def _(Ip, st, a, i):
    return [(st, mk("bufw", a[-1], EMPTY))]


@reg("zstd::Encoder::<'static, W>::new")
def _(Ip, st, a, i):
    return [(st.copy(), Ok(mk("zw", a[0], EMPTY))), (st.copy(), ioerr("zstd encoder"))]


def emit(Ip, st, w, data):
    """hand data to writer value w; returns the new writer value"""
    if w.op == "file":
        d = fs_get(st)
        if w.a[0] in d:
            d[w.a[0]] = cat(d[w.a[0]], data)
            fs_put(st, d)
        return w
    if w.op in ("bufw", "zw"):
        return mk(w.op, w.a[0], cat(w.a[1], data))
    if w.op == "ref":
        writeback(Ip, st, w, emit(Ip, st, Ip.deref_val(st, w), data))
        return w
    return mk("outw", w, data)


def flush(Ip, st, w):
    if w.op == "bufw":
        return mk("bufw", emit(Ip, st, w.a[0], w.a[1]), EMPTY)
    if w.op == "zw":
        return w
    if w.op == "ref":
        writeback(Ip, st, w, flush(Ip, st, Ip.deref_val(st, w)))
    return w


def probe_short(Ip, st, path, w):
    """a crate-local Write adapter must report exactly what its sink accepted"""
    n = A.sym("accepted", "usize", "in")
    s = st.copy()
    s.env[("probe", 1)] = mk("adt", w.a[0], w.a[1], w.a[2], tuple(mk("shortprobe", n) if f.op in ("bufw", "zw", "file", "ref") else f for f in w.a[3]))
    s.env[("probe", 2)] = A.sym("probebuf", None, "in")
    s.add_ge(sub(vlen(s.env[("probe", 2)]), n))
    rec, Ip.record = Ip.record, False
    try:
        outs = Ip.call_local(path, s, [mk("ref", ("probe", 1), ()), mk("vref", s.env[("probe", 2)])], "probe", 0)
    finally:
        Ip.record = rec
    for s2, v in outs:
        if v.op == "adt" and v.a[2] == "Ok" and v.a[3][0] is not n:
            Ip.notes.append(("writer-count", path, f"write() reports {show(v.a[3][0])[:60]} bytes when its sink accepted {show(n)}"))


def on_writer(act):
    def h(Ip, st, a, i):
        r = a[0]
        w = D(Ip, st, r)
        m = i["fn"].rsplit("::", 1)[1]
        p = local_impl(Ip, w, "std::io::Write", "write" if m == "write_all" else m)
        if p is not None:
            base = r
            while base.op == "ref" and Ip.deref_val(st, base).op == "ref":
                base = Ip.deref_val(st, base)
            if m == "write_all":
                probe_short(Ip, st, p, w)
                full = st.copy()
                full.env[("fullw", 0)] = UNIT
                outs = Ip.call_local(p, full, [base] + a[1:], i["ctx"], i["bb"])
                for s, _ in outs:
                    s.env.pop(("fullw", 0), None)
            else:
                outs = Ip.call_local(p, st.copy(), [base] + a[1:], i["ctx"], i["bb"])
            if m == "write_all":
                res = []
                for s, v in outs:
                    if v.op == "adt" and v.a[2] == "Ok":
                        n, want = v.a[3][0], vlen(D(Ip, s, a[1]))
                        if n is not want:
                            Ip.notes.append(("writer-count", p, f"write() reports {show(n)[:60]} bytes for a buffer of {show(want)[:60]}"))
                        v = Ok(UNIT)
                    res.append((s, v))
                return res
            return outs
        s = st.copy()
        base = r
        while base.op == "ref" and Ip.deref_val(st, base).op == "ref":
            base = Ip.deref_val(st, base)
        if m in ("write", "write_all"):
            data = D(Ip, s, a[1])
            out = [(st.copy(), ioerr(m))]
            if w.op == "shortprobe":
                return out + [(s, Ok(w.a[0]))]
            nw = emit(Ip, s, w, data)
            if base.op == "ref":
                writeback(Ip, s, base, nw)
            out.append((s, Ok(vlen(data) if m == "write" else UNIT)))
            if m == "write" and ("fullw", 0) not in st.env:
                s = st.copy()
                n = A.sym("shortcount", "usize", "in")
                if s.add_ge(sub(sub(vlen(data), n), I(1))):
                    nw = emit(Ip, s, w, slice_of(data, I(0), n))
                    if base.op == "ref":
                        writeback(Ip, s, base, nw)
                    out.append((s, Ok(n)))
            return out
        nw = flush(Ip, s, w)
        if base.op == "ref":
            writeback(Ip, s, base, nw)
        return [(s, Ok(UNIT)), (st.copy(), ioerr("flush"))]
    return h


for _m in ("write", "write_all", "flush"):
    M["std::io::Write::" + _m] = on_writer(_m)


@reg("zstd::Encoder::<'a, W>::finish")
def _(Ip, st, a, i):
    w = a[0]
    s = st.copy()
    if w.op == "zw":
        inner = emit(Ip, s, w.a[0], mk("zenc", w.a[1]))
        return [(s, Ok(inner)), (st.copy(), ioerr("finish"))]
    return [(st, Ip.unknown(st, "finish", a, i))]


@reg("zstd::Encoder::<'a, W>::do_finish", "zstd::Encoder::<'a, W>::try_finish")
def _(Ip, st, a, i):
    w = D(Ip, st, a[0])
    s = st.copy()
    if w.op == "zw":
        inner = emit(Ip, s, w.a[0], mk("zenc", w.a[1]))
        writeback(Ip, s, a[0], mk("zw", inner, EMPTY))
        return [(s, Ok(UNIT if "do_" in i["fn"] else inner)), (st.copy(), ioerr("finish"))]
    return [(st, Ip.unknown(st, "finish", a, i))]


@reg("std::io::BufWriter::<W>::into_inner")
def _(Ip, st, a, i):
    s = st.copy()
    if a[0].op == "bufw":
        return [(s, Ok(emit(Ip, s, a[0].a[0], a[0].a[1]))), (st.copy(), ioerr("into_inner"))]
    return [(st, Ip.unknown(st, "into_inner", a, i))]


@reg("std::fs::File::sync_all", "std::fs::File::sync_data")
def _(Ip, st, a, i):
    return [(st.copy(), Ok(UNIT)), (st.copy(), ioerr("sync"))]


@reg("std::fs::File::metadata")
def _(Ip, st, a, i):
    return [(st.copy(), Ok(mk("metadata", D(Ip, st, a[0])))), (st.copy(), ioerr("metadata"))]


@reg("std::io::stdout", "std::io::Stdout::lock")
def _(Ip, st, a, i):
    d = fs_get(st)
    d.setdefault(mk("stdout"), EMPTY)
    fs_put(st, d)
    return [(st, a[0] if a else mk("bufw", mk("file", mk("stdout")), EMPTY))]


@reg("std::io::stdin", "std::io::Stdin::lock")
def _(Ip, st, a, i):
    return [(st, mk("rd", mk("stdin")))]


@reg("rmp_serde::Serializer::<W>::new", "rmp_serde::Serializer::<W, C>::with_struct_map")
def _(Ip, st, a, i):
    if i["fn"].endswith("::new"):
        return [(st, mk("serializer", a[0], "tuple"))]
    return [(st, mk("serializer", a[0].a[0], "map"))]


@reg("serde::Serialize::serialize")
def _(Ip, st, a, i):
    s = st.copy()
    z = D(Ip, st, a[1])
    if z.op == "serializer":
        v = Ip.freeze(st, D(Ip, st, a[0]))
        w = z.a[0]
        data = mk("ser" if z.a[1] == "map" else "serpos", v)
        if w.op == "ref":
            emit(Ip, s, w, data)
        return [(s, Ok(UNIT)), (st.copy(), ioerr("serialize"))]
    return [(st, Ip.unknown(st, "serialize", a, i))]
