"""jstprove_io: envelopes, legacy formats, streaming codecs, bundles."""
from harness import *
from fw import Check
import iomodels
from iomodels import cat, zdec, de, crcapp, fs_get, EMPTY
from models import equal

CR = "jstprove_io"
OPTS = {"models": iomodels.M, "maxstates": 400, "loopgroups": 400, "unroll": 10, "keeperr": True, "keepfacts": True}
MAGIC = mk("arr", tuple(I(x) for x in b"JST\x01"))
ZMAGIC = mk("arr", tuple(I(x) for x in (0x28, 0xB5, 0x2F, 0xFD)))
TRUST = ("rustc's type checker and MIR construction; the effect summaries of std::fs/std::io, zstd, rmp_serde and crc32c in vlib/iomodels.py "
         "(each call delivers/accepts bytes in order, any fallible call may fail at any time; zstd and msgpack decoding invert encoding)")


def le_u(C, off, n):
    t = mk("fromle", n, slice_of(C, I(off), I(n)))
    TYOF[t] = {4: "u32", 8: "u64"}[n]
    return t


def cases(st, C):
    """split a state by the format of the input bytes"""
    L = vlen(C)
    out = []
    s = st.copy()
    if s.add_ge(sub(I(3), L)):
        out.append(("short", s))
    s = st.copy()
    if s.add_ge(sub(L, I(4))):
        em = equal(None, s, slice_of(C, I(0), I(4)), MAGIC)
        a = s.copy()
        if a.assume(em, True):
            out.append(("envelope", a))
        b = s.copy()
        if b.assume(em, False):
            ez = equal(None, b, slice_of(C, I(0), I(4)), ZMAGIC)
            c = b.copy()
            if c.assume(ez, True):
                out.append(("zstd", c))
            d = b.copy()
            if d.assume(ez, False):
                out.append(("raw", d))
    return out


def spec_decode(prog, path, run_, C, put):
    """Compare every outcome of a decoder of input bytes C with the documented format.
    put(kind, key, verdict, message): kind in integrity | legacy | complete"""
    seen = set()
    for st, v in run_.outs:
        for case, s in cases(st, C):
            good = understood(s, v)
            seen.add((case, "Ok" if is_ok(v) else "Err"))
            if case == "envelope":
                n, crc, flags = le_u(C, 8, 8), le_u(C, 16, 4), le_u(C, 4, 4)
                long_enough = s.known(ge0(sub(vlen(C), I(20))))
                fits = s.known(ge0(sub(vlen(C), add(n, I(20)))))
                payload = slice_of(C, I(20), n)
                crc_ok = s.known(eq0(sub(crcapp(I(0), payload), crc)))
                if is_ok(v):
                    for key, k, what in (("header", long_enough, "the input holds a whole 20-byte header"),
                                         ("length", fits, "the input holds the whole declared payload"),
                                         ("crc", crc_ok, "the CRC32C of the whole declared payload equals the recorded one")):
                        put("integrity", key, True if k is True else None if not good else False,
                            f"a value is returned for an enveloped input although nothing establishes that {what}; returned {show(v)[:120]}")
                    val = v.a[3][0]
                    bit = mk("bit", "BitAnd", I(1), flags)
                    for fl in (1, 0):
                        f = s.copy()
                        if not (f.add_ge(sub(bit, I(fl))) and f.add_ge(sub(I(fl), bit))):
                            continue
                        want = de(zdec(payload)) if fl else de(payload)
                        put("integrity", f"value-flag{fl}", True if val is want else None if opaque(val) else False,
                            f"with zstd flag {fl} the decoder returns {show(val)[:140]} instead of {show(want)[:140]}")
                elif is_err(v):
                    if has_ioerr(v):
                        put("complete", "envelope-err", True, "")
                    else:
                        # a refusal needs one of the documented reasons
                        reason = long_enough is False or fits is False or crc_ok is False
                        t = s.copy()
                        feasible = t.add_ge(sub(vlen(C), I(20))) and t.add_ge(sub(vlen(C), add(n, I(20)))) and \
                            t.assume(eq0(sub(crcapp(I(0), payload), crc)), True)
                        put("complete", "envelope-err", True if reason or not feasible else None if not good else False,
                            f"a well-formed envelope is rejected with {show(v)[:100]}")
                else:
                    put("complete", "envelope-err", None, show(v)[:80])
            else:
                want = de(zdec(C)) if case == "zstd" else de(C)
                if is_ok(v):
                    val = v.a[3][0]
                    put("legacy", case, True if val is want else None if opaque(val) or not good else False,
                        f"a {case} input decodes to {show(val)[:140]} instead of {show(want)[:80]}")
                elif is_err(v):
                    put("legacy", case + "-err", True if has_ioerr(v) else None if not good else False,
                        f"a {case} input (no envelope magic) is rejected with {show(v)[:100]} before decoding was attempted")
                else:
                    put("legacy", case, None, show(v)[:80])
    for case in ("envelope", "zstd", "raw", "short"):
        put("integrity" if case == "envelope" else "legacy", case + "-reachable",
            True if (case, "Ok") in seen else (None if run_.unknown else False), f"no {case} input is ever decoded successfully")


DECODERS = (("deserialize_from_bytes", "data"), ("deserialize_from_file", "file"))


def decode_runs(chk, prog):
    for path, kind in DECODERS:
        if (CR, path) not in prog.fns:
            chk.missing("jstprove_io::" + path)
            continue
        if kind == "data":
            C = sym("input", None, "in")
            r = run(prog, CR, path, OPTS, [mk("vref", C)], chk=chk)
        else:
            P = sym("path", None, "in")
            C = mk("content", P)
            r = run(prog, CR, path, OPTS, [mk("vref", P)], chk=chk)
        yield path, C, r


def collect_decode(chk, prog, kinds):
    n = 0
    for path, C, r in decode_runs(chk, prog):
        w = where(prog, CR, path)
        if r.err:
            chk.und(path, w, r.err)
            continue
        n += len(r.outs)
        chk.stats[f"outcomes_{path}"] = len(r.outs)
        for nt in r.notes:
            if "integrity" in kinds and nt[0].startswith("adapter"):
                chk.judge(f"{path}:{nt[0]}", None if r.unknown else False, where(prog, CR, nt[1]), nt[2])
        spec_decode(prog, path, r, C, lambda kind, key, v, m: chk.judge(f"{path}:{key}", v, w, m) if kind in kinds else None)
    return n


def P01(prog):
    chk = Check("P01", "Abstract interpretation of the MIR of both decoders over arbitrary input bytes: on every outcome that returns a value for an "
                "input beginning with the envelope magic, the facts established on the way must entail len >= 20 + declared length and "
                "crc32c(whole declared payload) == recorded CRC, and the value must be the decoding of exactly that payload.")
    n = collect_decode(chk, prog, ("integrity",))
    chk.need("decoder outcomes", n, 20)
    return chk.finish(trusted=TRUST)


def P04(prog):
    chk = Check("P04", "Same analysis, remaining outcomes: inputs without the envelope magic decode exactly as the legacy zstd / plain msgpack stream "
                "they are (every byte delivered, none skipped), and are only refused by the codec itself.")
    n = collect_decode(chk, prog, ("legacy",))
    chk.need("decoder outcomes", n, 20)
    return chk.finish(trusted=TRUST)


def call_chain(chk, prog, path, args, st):
    r = run(prog, CR, path, OPTS, args, st, chk=chk)
    return r


def P02(prog):
    chk = Check("P02", "Composition in the abstract domain: the decoder is analysed on the symbolic output of the encoder (for both compression settings, "
                "bytes and file API, and across them); every success must yield the very value serialised and every failure must come from a library call.")
    V = sym("value", None, "in")
    P = sym("path", None, "in")
    comps = 0
    for comp in (True, False):
        for wpath, wargs, src in (("serialize_to_bytes", [mk("vref", V), TRUE if comp else FALSE], "bytes"),
                                  ("serialize_to_file", [mk("vref", V), mk("vref", P), TRUE if comp else FALSE], "file")):
            if (CR, wpath) not in prog.fns:
                chk.missing("jstprove_io::" + wpath)
                continue
            w = run(prog, CR, wpath, OPTS, wargs, chk=chk)
            key = f"{wpath}:compress={comp}"
            ww = where(prog, CR, wpath)
            if w.err:
                chk.und(key, ww, w.err)
                continue
            oks = [(s, v) for s, v in w.outs if is_ok(v)]
            chk.judge(key + ":succeeds", True if oks else None if w.unknown else False, ww, "serialisation can never succeed")
            for s, v in w.outs:
                if is_err(v):
                    chk.judge(key + ":errors", True if has_ioerr(v) else None if not understood(s, v) else False, ww,
                              f"a value is refused with {show(v)[:100]} although no library call failed")
            for s, v in oks:
                if src == "file":
                    d = fs_get(s)
                    B = d.get(P)
                    chk.judge(key + ":complete", B is not None and B.op != "partial" if not w.unknown else True if B is not None and B.op != "partial" else None, ww,
                              f"success is reported but the file holds {show(B)[:80] if B is not None else 'nothing'}")
                    if B is None or B.op == "partial":
                        continue
                    rv = v.a[3][0]
                    chk.judge(key + ":size", True if s.known(eq0(sub(rv, vlen(B)))) is True else None if not understood(s, rv) or opaque(B) else False, ww,
                              f"reported size {show(rv)[:80]} differs from the size written")
                else:
                    B = v.a[3][0]
                    d = fs_get(s)
                    s = s.copy()
                    d[P] = B
                    iomodels.fs_put(s, d)
                for rpath, rargs in (("deserialize_from_bytes", [mk("vref", B)]), ("deserialize_from_file", [mk("vref", P)])):
                    if (CR, rpath) not in prog.fns:
                        chk.missing("jstprove_io::" + rpath)
                        continue
                    r = run(prog, CR, rpath, OPTS, rargs, s, chk=chk)
                    k2 = f"{key}->{rpath}"
                    rw = where(prog, CR, rpath)
                    if r.err:
                        chk.und(k2, rw, r.err)
                        continue
                    comps += 1
                    n_ok = 0
                    for s2, v2 in r.outs:
                        if is_ok(v2):
                            n_ok += 1
                            val = v2.a[3][0]
                            chk.judge(k2 + ":value", True if val is V else None if opaque(val) or not understood(s2, v2) else False, rw,
                                      f"what was written as `value` reads back as {show(val)[:160]}")
                        elif is_err(v2):
                            good = understood(s2, v2)
                            chk.judge(k2 + ":error", True if has_ioerr(v2) else None if not good else False, rw,
                                      f"reading back what was just written fails with {show(v2)[:100]} although no library call failed")
                        else:
                            chk.und(k2 + ":shape", rw, show(v2)[:80])
                    chk.judge(k2 + ":succeeds", True if n_ok else None if r.unknown else False, rw, "reading back can never succeed")
    chk.need("encoder/decoder compositions", comps, 8)
    # well-formed envelopes from elsewhere are accepted too
    collect_decode(chk, prog, ("complete",))
    return chk.finish(trusted=TRUST)


def P03(prog):
    chk = Check("P03", "Value-number layout of the encoder's output: magic 4A 53 54 01, u32 LE flags (bit 0 = zstd) at 4, u64 LE payload length at 8, "
                "u32 LE CRC32C of the stored payload at 16, payload at 20, nothing after it; payload = named msgpack, zstd-compressed iff asked.")
    V = sym("value", None, "in")
    n = 0
    for comp in (True, False):
        for wpath in ("serialize_to_bytes", "envelope::write_envelope"):
            if (CR, wpath) not in prog.fns:
                chk.missing("jstprove_io::" + wpath)
                continue
            if wpath == "serialize_to_bytes":
                r = run(prog, CR, wpath, OPTS, [mk("vref", V), TRUE if comp else FALSE], chk=chk)
                pay = mk("ser", V)
                pay = mk("zenc", pay) if comp else pay
            else:
                pay = sym("payload", None, "in")
                r = run(prog, CR, wpath, OPTS, [mk("vref", pay), TRUE if comp else FALSE], chk=chk)
            w = where(prog, CR, wpath)
            key = f"{wpath}:compress={comp}"
            if r.err:
                chk.und(key, w, r.err)
                continue
            for s, v in r.outs:
                if is_err(v):
                    continue
                B = v.a[3][0] if is_ok(v) else v
                n += 1
                fields = (("magic", 0, 4, MAGIC), ("flags", 4, 4, mk("le", 4, I(1 if comp else 0))), ("length", 8, 8, mk("le", 8, vlen(pay))),
                          ("crc", 16, 4, mk("le", 4, crcapp(I(0), pay))))
                for nm, off, ln, want in fields:
                    got = slice_of(B, I(off), I(ln))
                    same = all(velt(got, I(k)) is velt(want, I(k)) for k in range(ln))
                    chk.judge(f"{key}:{nm}", True if same else None if opaque(got) else False, w, f"bytes {off}..{off+ln} are {show(got)[:100]}, documented {show(want)[:100]}")
                tail = slice_of(B, I(20), sub(vlen(B), I(20)))
                chk.judge(f"{key}:payload", True if parts(tail) == parts(pay) or tail is pay else None if opaque(B) else False, w,
                          f"after the 20-byte header come {show(tail)[:120]}, expected {show(pay)[:80]}")
    chk.need("encoder outcomes", n, 4)
    return chk.finish(trusted=TRUST)


def P05(prog):
    chk = Check("P05", "Transfer functions of the streaming codec, computed on symbolic byte streams with every possible short read, short write and fault: "
                "the sniffing reader delivers exactly the stored bytes (decompressed iff they start with the zstd magic); a writer that finished "
                "successfully has put every byte handed to it, encoded as requested, into the file; the byte-level helpers invert each other.")
    C = sym("stored", None, "in")
    # sniffing reader
    for path, arg in (("compress::auto_reader", mk("rd", C)), ("compress::auto_decompress_bytes", mk("vref", C))):
        if (CR, path) not in prog.fns:
            chk.missing("jstprove_io::" + path)
            continue
        r = run(prog, CR, path, OPTS, [arg], chk=chk)
        w = where(prog, CR, path)
        if r.err:
            chk.und(path, w, r.err)
            continue
        chk.stats["outcomes_" + path] = len(r.outs)
        seen = set()
        for st, v in r.outs:
            for case, s in cases(st, C):
                good = understood(s, v)
                want = zdec(C) if case == "zstd" else C
                if is_ok(v):
                    seen.add(case)
                    x = v.a[3][0]
                    while x.op == "adt" and x.a[2] in ("Owned", "Borrowed"):
                        x = x.a[3][0]
                    while x.op == "vref":
                        x = x.a[0]
                    got = iomodels.content(r.I, s, x)
                    same = got is want or len(parts(got)) == len(parts(want)) and parts(got) == parts(want) or norm(s, got) is norm(s, want)
                    chk.judge(f"{path}:{case}", True if same else None if not good or opaque(got) else False, w,
                              f"stored bytes ({case}) are delivered as {show(got)[:140]}")
                elif is_err(v):
                    chk.judge(f"{path}:{case}-err", True if has_ioerr(v) else None if not good else False, w, f"refused with {show(v)[:80]} although no library call failed")
        for case in ("short", "envelope", "zstd", "raw"):
            chk.judge(f"{path}:{case}-reachable", True if case in seen else None if r.unknown else False, w, f"no {case} input can be read")
    # helpers
    D_ = sym("data", None, "in")
    for comp in (True, False):
        for path, args in (("compress::maybe_compress_bytes", [D_, TRUE if comp else FALSE]), ("compress::compress_bytes", [mk("vref", D_)])):
            if (CR, path) not in prog.fns:
                chk.missing("jstprove_io::" + path)
                continue
            r = run(prog, CR, path, OPTS, args, chk=chk)
            w = where(prog, CR, path)
            want = mk("zenc", D_) if comp or path.endswith("compress_bytes") and "maybe" not in path else D_
            for s, v in r.outs:
                if is_ok(v):
                    chk.judge(f"{path}:{comp}", True if v.a[3][0] is want else None if opaque(v) else False, w, f"returns {show(v)[:100]}, expected {show(want)[:60]}")
                elif is_err(v):
                    chk.judge(f"{path}:{comp}:err", True if has_ioerr(v) else None if not understood(s, v) else False, w, f"fails with {show(v)[:60]}")
    path = "compress::decompress_bytes"
    if (CR, path) not in prog.fns:
        chk.missing("jstprove_io::" + path)
    else:
        r = run(prog, CR, path, OPTS, [mk("vref", C)], chk=chk)
        for s, v in r.outs:
            if is_ok(v):
                chk.judge(path, True if v.a[3][0] is zdec(C) else None if opaque(v) else False, where(prog, CR, path), f"returns {show(v)[:100]}")
    # writer
    P = sym("path", None, "in")
    A1, A2 = sym("first", None, "in"), sym("second", None, "in")
    nfin = 0
    for need in ("compress::compressed_writer", "compress::MaybeCompressed::finish"):
        if (CR, need) not in prog.fns:
            chk.missing("jstprove_io::" + need)
            return chk.finish(trusted=TRUST)
    for comp in (True, False):
        st = State()
        iomodels.fs_put(st, {P: EMPTY})
        r = run(prog, CR, "compress::compressed_writer", OPTS, [mk("file", P), TRUE if comp else FALSE], st, chk=chk)
        w = where(prog, CR, "compress::MaybeCompressed::finish")
        unk = dict(r.unknown)
        states = [(s, v.a[3][0]) for s, v in r.outs if is_ok(v)]
        chk.judge(f"compressed_writer:{comp}:opens", True if states else None if unk else False, w, "no writer can be created")
        for data in (A1, A2):
            nxt = []
            for s, wv in states:
                s = s.copy()
                s.env[("w", 1)] = wv
                I_ = r.I
                info = {"fn": "std::io::Write::write_all", "ctx": "w", "bb": 0, "argty": ["&mut", "&[u8]"], "ga": [], "line": 0, "body": None}
                for s2, v2 in iomodels.M["std::io::Write::write_all"](I_, s, [mk("ref", ("w", 1), ()), mk("vref", data)], info):
                    if is_ok(v2):
                        nxt.append((s2, s2.env[("w", 1)]))
                    elif not is_err(v2):
                        chk.und(f"write:{comp}", w, show(v2)[:80])
                for nt in I_.notes:
                    chk.judge(f"write:{comp}:{nt[0]}", None if I_.unknown_calls else False, where(prog, CR, nt[1]), nt[2])
            states = nxt
        chk.judge(f"write:{comp}:possible", True if states else None if r.I.unknown_calls else False, w, "nothing can be written")
        want = cat(A1, A2)
        want = mk("zenc", want) if comp else want
        for s, wv in states:
            r2 = run(prog, CR, "compress::MaybeCompressed::finish", OPTS, [wv], s, chk=chk)
            for s3, v3 in r2.outs:
                if is_ok(v3):
                    nfin += 1
                    B = fs_get(s3).get(P)
                    good = B is not None and (B is want or parts(B) == parts(want))
                    chk.judge(f"finish:{comp}:content", True if good else None if r2.unknown or r.I.unknown_calls or B is None or opaque(B) else False, w,
                              f"finish() reports success but the file holds {show(B)[:100] if B is not None else None} instead of {show(want)[:80]} "
                              "(bytes left in a buffer are lost or their write error is swallowed)")
                elif is_err(v3):
                    chk.judge(f"finish:{comp}:err", True if has_ioerr(v3) else None if not understood(s3, v3) else False, w, f"fails with {show(v3)[:60]}")
    chk.need("successful finish outcomes", nfin, 2)
    # flushing passes through
    for comp in (True, False):
        st = State()
        iomodels.fs_put(st, {P: EMPTY})
        r = run(prog, CR, "compress::compressed_writer", OPTS, [mk("file", P), TRUE if comp else FALSE], st)
    # msgpack over stdio
    V = sym("value", None, "in")
    path = "write_msgpack_stdout"
    if (CR, path) in prog.fns:
        r = run(prog, CR, path, OPTS, [mk("vref", V)], chk=chk)
        w = where(prog, CR, path)
        for s, v in r.outs:
            if is_ok(v):
                B = fs_get(s).get(mk("stdout"))
                chk.judge(f"{path}:flushed", True if B is mk("ser", V) else None if r.unknown or B is None or opaque(B) else False, w,
                          f"success is reported with {show(B)[:80] if B is not None else None} on stdout instead of the serialised value")
            elif is_err(v):
                chk.judge(f"{path}:err", True if has_ioerr(v) else None if not understood(s, v) else False, w, f"fails with {show(v)[:60]}")
    else:
        chk.missing("jstprove_io::" + path)
    path = "read_msgpack_reader"
    if (CR, path) in prog.fns:
        r = run(prog, CR, path, OPTS, [mk("rd", C)], chk=chk)
        for s, v in r.outs:
            if is_ok(v):
                chk.judge(path, True if v.a[3][0] is de(C) else None if opaque(v) else False, where(prog, CR, path), f"decodes {show(v)[:80]}")
    else:
        chk.missing("jstprove_io::" + path)
    return chk.finish(trusted=TRUST)


def norm(s, B):
    """byte sequence with empty tails (by the facts of s) removed"""
    out = []
    for p in parts(B):
        ln = plen(p)
        if ln.op != "int" and s.known(ge0(neg(ln))) is True:
            continue
        out.append(p)
    v = vec(tuple(out))
    ps = parts(v)
    # a window that covers the whole of a sequence whose length is pinned
    if len(ps) == 1 and ps[0][0] == "v" and ps[0][2] is I(0) and s.known(eq0(sub(ps[0][3], vlen(ps[0][1])))) is True:
        return ps[0][1]
    if ps and all(p[0] == "e" or p[0] == "v" for p in ps):
        base = None
        if ps[0][0] == "e" and ps[0][1].op == "elt":
            base = ps[0][1].a[0]
        if base is not None and s.known(eq0(sub(vlen(v), vlen(base)))) is True and all(
                p[0] == "e" and p[1] is velt(base, I(k)) for k, p in enumerate(ps)):
            return base
    if not ps:
        return EMPTY
    if vlen(v).op != "int" and s.known(ge0(neg(vlen(v)))) is True:
        return EMPTY
    return v


BUNDLE_W = ("bundle::write_bundle_with_vk", "bundle::write_bundle")


def bundle_writes(chk, prog):
    """yield (label, run, dir, circuit, witness, vk or None, metadata, version, compress)"""
    dirp = sym("dir", None, "in")
    ci, ws, vk = (sym(n, None, "in") for n in ("circuit_bytes", "witness_bytes", "vk_bytes"))
    md, ver = sym("metadata", None, "in"), sym("version", None, "in")
    for path in BUNDLE_W:
        if (CR, path) not in prog.fns:
            chk.missing("jstprove_io::" + path)
            continue
        for comp in (True, False):
            for has_vk in ((True, False) if path.endswith("vk") else (False,)):
                st = State()
                for b in (ci, ws, vk):
                    st.assume(equal(None, st, slice_of(b, I(0), I(4)), ZMAGIC), False)
                c = TRUE if comp else FALSE
                args = [mk("vref", dirp), mk("vref", ci), mk("vref", ws)]
                if path.endswith("vk"):
                    args.append(Some(mk("vref", vk)) if has_vk else NONE)
                args += [md, ver, c]
                r = run(prog, CR, path, OPTS, args, st, chk=chk)
                yield f"{path.split('::')[-1]}:vk={has_vk}:compress={comp}", path, r, dirp, ci, ws, vk if has_vk else None, md, ver, comp


def P06(prog):
    chk = Check("P06", "Typestate of the file system along every path through the bundle writers, with a fault possible at every library call: at each "
                "failing exit nothing this call created is left behind and nothing it did not create was touched; the directory is created with "
                "create-new semantics, so an existing bundle is never overwritten; at each successful exit all parts are present and complete.")
    n = 0
    for label, path, r, dirp, ci, ws, vk, md, ver, comp in bundle_writes(chk, prog):
        w = where(prog, CR, path)
        if r.err:
            chk.und(label, w, r.err)
            continue
        fresh = True
        n_ok = 0
        for s, v in r.outs:
            n += 1
            good = not r.unknown
            d = fs_get(s)
            foreign = [ev for ev in s.log if ev[0] == "removed-foreign"]
            chk.judge(f"{label}:foreign", True if not foreign else None if not good else False, w,
                      f"removes {show(foreign[0][1])[:80] if foreign else ''}, which this call did not create")
            if is_err(v):
                chk.judge(f"{label}:cleanup", True if not d else None if not good else False, w,
                          f"fails with {show(v)[:60]} but leaves {', '.join(show(k)[:60] for k in d)} behind")
                chk.judge(f"{label}:err", True if has_ioerr(v) else None if not understood(s, v) else False, w, f"refuses a bundle with {show(v)[:60]} although no call failed")
            elif is_ok(v):
                n_ok += 1
                k = d.get(dirp)
                chk.judge(f"{label}:fresh-dir", True if k is not None and k.op == "dir" else None if not good else False, w,
                          "writes into a directory it did not create itself, so an existing bundle can be overwritten or mixed")
                vals = [x for x in d.values()]
                chk.judge(f"{label}:complete", True if not any(x.op == "partial" or x is EMPTY for x in vals) else None if not good else False, w,
                          "reports success with an incompletely written file")
                want = {tuple(map(str, parts(mk("zenc", x) if comp else x))) for x in ((ci, ws) + ((vk,) if vk is not None else ()))}
                have = {tuple(map(str, parts(x))) for x in vals if x.op not in ("dir", "dirall")}
                chk.judge(f"{label}:present", True if want <= have and len(d) == len(want) + 2 else None if not good or any(opaque(x) for x in vals) else False, w,
                          f"after success the bundle holds {', '.join(show(k)[:40]+'='+show(x)[:40] for k, x in d.items())}")
        chk.judge(f"{label}:succeeds", True if n_ok else None if r.unknown else False, w, "no bundle can ever be written")
    chk.need("bundle write outcomes", n, 60)
    return chk.finish(trusted=TRUST)


READS = ("bundle::read_bundle", "bundle::read_circuit_blob", "bundle::read_vk_only", "bundle::bundle_has_vk", "bundle::read_bundle_metadata")


def P07(prog):
    chk = Check("P07", "The bundle readers are analysed on the symbolic directory left by the bundle writers (with and without a verifying key, compressed or "
                "not): every success returns exactly the parts written, an absent key reads as absent, an unreadable key is an error, never as absent.")
    n = 0
    for p in READS:
        if (CR, p) not in prog.fns:
            chk.missing("jstprove_io::" + p)
    for label, path, r, dirp, ci, ws, vk, md, ver, comp in bundle_writes(chk, prog):
        if r.err:
            chk.und(label, where(prog, CR, path), r.err)
            continue
        for s, v in r.outs:
            if not is_ok(v):
                continue
            for rp in READS:
                if (CR, rp) not in prog.fns:
                    continue
                q = run(prog, CR, rp, OPTS, [mk("vref", dirp)], s, chk=chk)
                w = where(prog, CR, rp)
                key = f"{label}->{rp.split('::')[-1]}"
                if q.err:
                    chk.und(key, w, q.err)
                    continue
                n_ok = 0
                for s2, v2 in q.outs:
                    n += 1
                    unk = q.unknown or r.unknown
                    if rp.endswith("has_vk"):
                        k = s2.known(v2) if v2.op != "int" else bool(v2.a[0])
                        chk.judge(key, True if k is (vk is not None) else None if unk or opaque(v2) else False, w,
                                  f"answers {show(v2)[:40]} for a bundle written {'with' if vk is not None else 'without'} a verifying key")
                        n_ok += 1
                        continue
                    if is_err(v2):
                        if rp.endswith("vk_only") and vk is None:
                            chk.ok(key + ":absent", w)
                            n_ok += 1
                        else:
                            chk.judge(key + ":error", True if has_ioerr(v2) else None if unk or not understood(s2, v2) else False, w,
                                      f"reading a freshly written bundle fails with {show(v2)[:100]} although no library call failed")
                        continue
                    if not is_ok(v2):
                        chk.und(key, w, show(v2)[:80])
                        continue
                    n_ok += 1
                    x = v2.a[3][0]
                    if rp.endswith("read_bundle"):
                        f = prog_struct(prog, "BundleBlobs")
                        want = {"circuit": ci, "witness_solver": ws, "vk": NONE if vk is None else Some(vk), "metadata": md, "version": ver}
                        got = struct_fields(x, ("circuit", "witness_solver", "vk", "metadata", "version"))
                    elif rp.endswith("metadata"):
                        want, got = {"metadata": md, "version": ver}, {"metadata": fld(x, 0), "version": fld(x, 1)}
                    elif rp.endswith("vk_only"):
                        want, got = {"vk": vk}, {"vk": x}
                    else:
                        want, got = {"circuit": ci}, {"circuit": x}
                    for nm, wv in want.items():
                        g = got.get(nm)
                        same = g is not None and wv is not None and (g is wv or eqv(s2, g, wv))
                        chk.judge(f"{key}:{nm}", True if same else None if g is None or unk or opaque(g) else False, w,
                                  f"{nm} written as {show(wv)[:60] if wv is not None else 'absent'} is read back as {show(g)[:80] if g is not None else '?'}")
                chk.judge(key + ":succeeds", True if n_ok else None if q.unknown else False, w, "no bundle can be read back")
    chk.need("bundle read outcomes", n, 100)
    return chk.finish(trusted=TRUST)


def prog_struct(prog, name):
    return None


def struct_fields(x, names):
    if x.op == "adt":
        return dict(zip(names, x.a[3]))
    return {}


def eqv(s, a, b):
    if a.op == "adt" and b.op == "adt":
        return a.a[2] == b.a[2] and all(eqv(s, x, y) for x, y in zip(a.a[3], b.a[3]))
    if a is b:
        return True
    try:
        return norm(s, a) is norm(s, b)
    except Exception:
        return False


def P08(prog):
    chk = Check("P08", "Interval/difference analysis of every panic site (bounds, slice ranges, arithmetic overflow, unwrap, conversions) reachable from the "
                "decoders with arbitrary input bytes and file contents: each must be proved unreachable.")
    C, P = sym("input", None, "in"), sym("path", None, "in")
    entries = [("deserialize_from_bytes", [mk("vref", C)]), ("deserialize_from_file", [mk("vref", P)]), ("compress::auto_decompress_bytes", [mk("vref", C)]),
               ("compress::auto_reader", [mk("rd", C)]), ("envelope::parse_header", [mk("vref", C)]), ("envelope::detect_format", [mk("vref", C)]),
               ("bundle::read_bundle", [mk("vref", P)]), ("bundle::read_vk_only", [mk("vref", P)]), ("bundle::read_bundle_metadata", [mk("vref", P)]),
               ("bundle::read_circuit_blob", [mk("vref", P)])]
    tot = 0
    for path, args in entries:
        if (CR, path) not in prog.fns:
            if path.count("::") == 0 or path.startswith("bundle"):
                chk.missing("jstprove_io::" + path)
            continue
        r = run(prog, CR, path, {**OPTS, "keepfacts": False, "keeperr": False}, args, chk=chk)
        if r.err:
            chk.und(path, where(prog, CR, path), r.err)
            continue
        for o in r.I.obs.values():
            tot += 1
            chk.judge(f"{path}:{o.fn.split('::')[-1]}:{o.kind}", True if o.status == "proved" else False if o.status == "refuted" and not r.unknown else None,
                      f"{o.fn} line {o.line}", o.goal[:200])
    chk.need("panic sites", tot, 8)
    return chk.finish(trusted=TRUST)
