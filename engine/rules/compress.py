"""W04: compressing and decompressing streams."""
from lib import *
import core
from rules.calls import where, const, at, subj
from rules.server import p, mentions
from rules.frames import narrow
from rules.wire import lin, ladd, fz, compared
from rules.buffers import last, fields, aged

IN, OUT = "AbstractCompressedInputStream", "AbstractCompressedOutputStream"
BIN, BOUT = "BlockCompressionInputStream", "BlockCompressionOutputStream"


def compress_rules(R, P):
    R.rule("W04.pair", "what one side compresses with a type, the other side decompresses with the counterpart of the same format")
    R.rule("W04.block", "compressed blocks are read and written whole, inside their buffers, and every buffer is freed once")
    R.rule("W04.zlib", "zlib is given buffers with their own sizes, and what it leaves is returned")
    R.rule("W04.use", "a compressed message is finished before its size is taken and before its stream is read")
    ins, outs = pairs(R, P)
    size = block_output(R, P)
    block_input(R, P, size)
    for f in overriders(P, BIN, "RawUncompress"):
        raw_uncompress(R, P, f, size)
    for f in overriders(P, BOUT, "RawCompress"):
        raw_compress(R, P, f, ins, outs)
    gzip(R, P)
    users(R, P)


def overriders(P, cls, name):
    r = [f for f in P.fns.values() if f.cls and f.cls != cls and short(f.name) == name and P.is_a(f.cls, cls)]
    if not r:
        raise Broken("nothing implements %s::%s" % (cls, name))
    return sorted(r, key=lambda f: f.key)


def family(text):
    t = text.lower()
    return "snappy" if "snappy" in t else "lz4" if "lz4" in t else None


def number(t):
    """value of a constant expression"""
    t = unwrap(t)
    if t[0] == "op" and t[1] in ("|", "+", "-", "*", "&", "<<"):
        a, b = number(t[2]), number(t[3])
        if a is None or b is None:
            return None
        return {"|": a | b, "+": a + b, "-": a - b, "*": a * b, "&": a & b, "<<": a << b if 0 <= b < 63 else 0}[t[1]]
    return const(t)


# ------------------------------------------------------------------ pairing
def pairs(R, P):
    inw, outw = {}, {}

    # window bits by format
    fs = [f for f in P.fns.values() if any(n["k"] == "call" and (n.get("n") or "") == "inflateInit2_" for n in f.nodes)]
    if not fs:
        raise Broken("zlib decompression is never started")
    for f in fs:
        def step(ex, st, fr, ev, s):
            if ev[0] == "branch":
                t, tr = unneg(ev[1], ev[2])
                if t[0] == "eq" and const(t[2]) is not None and (t[1][0] == "p" or is_ld(t[1], "format_")):
                    if tr:
                        return ("is", const(t[2]))
                    return ("not", frozenset(s[1] | {const(t[2])} if s and s[0] == "not" else {const(t[2])})) if not (s and s[0] == "is") else s
            if ev[0] == "call" and ev[1] == "inflateInit2_":
                n = number(ev[3][1])
                if s and s[0] == "is" and n is not None:
                    inw.setdefault(s[1], set()).add(n)
                else:
                    for v in [1, 2]:
                        if not (s and s[0] == "not" and v in s[1]) and n is not None:
                            inw.setdefault(v, set()).add(n)
            return s
        automaton(R, P, f, "W04.pair", f.name, None, step, calls_named("inflateInit2_"), this_cls=f.cls or "GzipInputStream")
    fs = [f for f in P.fns.values() if any(n["k"] == "call" and (n.get("n") or "") == "deflateInit2_" for n in f.nodes)]
    if not fs:
        raise Broken("zlib compression is never started")
    for f in fs:
        def step(ex, st, fr, ev, s):
            if ev[0] == "branch":
                t, tr = unneg(ev[1], ev[2])
                if t[0] == "eq" and const(t[2]) is not None and last(t[1]) in ("format", "format_"):
                    return (s | {(const(t[2]), tr)})
            if ev[0] == "call" and ev[1] == "deflateInit2_":
                n = number(ev[3][3] if len(ev[3]) > 7 else ev[3][3])
                for v in [1, 2]:
                    if (v, False) not in s and not any(tr and c != v for c, tr in s) and n is not None:
                        outw.setdefault(v, set()).add(n)
                    elif n is None:
                        outw.setdefault(v, set()).add("?")
            return s
        automaton(R, P, f, "W04.pair", f.name, frozenset(), step, calls_named("deflateInit2_"), this_cls=f.cls or "GzipOutputStream")

    def bits(w, fmt):
        s = w.get(fmt, set())
        return list(s)[0] if len(s) == 1 else None

    def made(f, w, base):
        got = {}

        def step(ex, st, fr, ev, s):
            typ, fmt, new = s
            if ev[0] == "branch":
                t, tr = unneg(ev[1], ev[2])
                if t[0] == "eq" and tr and t[1] == p(f, 1) and const(t[2]) is not None:
                    return (const(t[2]), fmt, new)
            if ev[0] == "write" and ev[1] and ev[1][0] == "F" and str(ev[1][2]).endswith("Options::format"):
                return (typ, const(ev[2]), new)
            if ev[0] == "new" and P.is_a(ev[1], base):
                a = ev[2]
                stem = "zlib" if "Gzip" in ev[1] else family(ev[1]) or ev[1]
                if stem == "zlib":
                    k = const(a[1]) if len(a) > 1 else None
                    v = k if k is not None else fmt
                    stem = ("zlib", bits(w, v) if v is not None else None)
                if not a or a[0] != p(f, 0):
                    ex.report(st, fr, ev[4], "a compressing stream works on another stream than the message")
                return (typ, fmt, (ev[1], stem, ev[3]))
            if ev[0] == "ret" and fr.depth == 0:
                if typ is not None:
                    if not new or unwrap(ev[1]) != new[2]:
                        ex.report(st, fr, ev[2], "no stream is created for compression type %s" % typ)
                    got[typ] = new[:2] if new else None
            return s
        automaton(R, P, f, "W04.pair", f.name, (None, None, None), step, lambda g, i, n: g.nodes[i]["k"] == "new" if False else False)
        return got
    fi, fo = P.fn("get_compressed_input_stream"), P.fn("get_compressed_output_stream")
    gi, go = made(fi, inw, IN), made(fo, outw, OUT)
    if len(gi) < 2 or len(go) < 2:
        raise Broken("the streams for the compression types are not understood")
    for t in sorted(set(gi) | set(go)):
        a, b = gi.get(t), go.get(t)
        ok = a and b and a[1] == b[1] and not (isinstance(a[1], tuple) and a[1][1] is None)
        R.decide("W04.pair", "compression type %s" % t, bool(ok), where(fi), "compressed with %s, decompressed with %s" % (b, a))
    return gi, go


# ------------------------------------------------------------------ block streams
def byte_array(ev):
    return ev[0] == "new" and ev[1] in ("char", "unsigned char", "signed char") and len(ev[2]) == 1


def final_forms(w):
    return {k: dict(v) for k, v in w}


def note(w, key, v, f):
    return tuple(sorted([x for x in w if x[0] != key] + [(key, fz(fields(lin(v), f)))], key=str))


def handed(loc, f):
    if loc[0] == "p":
        return "p%d" % loc[2]
    if loc[0] == "F" and loc[1] == ("this",) and isinstance(loc[2], str):
        return loc[2].split("::")[-1]
    return None


def backed(ev):
    """whether bytes were given back: True / False / None"""
    t, tr = unneg(ev[1], ev[2])
    if t[0] == "eq" and is_ld(t[1], "_backed_up_bytes") and const(t[2]) == 0:
        return not tr
    if t[0] == "lt" and is_ld(t[1], "_backed_up_bytes") and const(t[2]) == 1:
        return not tr
    if t[0] == "lt" and is_ld(t[2], "_backed_up_bytes") and const(t[1]) == 0:
        return tr
    return None


def block_output(R, P):
    f = P.fn(BOUT + "::Next")
    sizes = set()

    def step(ex, st, fr, ev, s):
        w, bk, buf, blk = s
        k = ev[0]
        if k == "branch":
            b = backed(ev)
            if b is not None:
                bk = b
            t, tr = unneg(ev[1], ev[2])
            if t[0] == "eq" and t[2] == NULL and is_ld(t[1], "_input_buffer"):
                buf = "none" if tr else "full"
            return (w, bk, buf, blk)
        if k == "call" and short(ev[1]) == "Flush":
            return (w, bk, "flushed", blk)
        if byte_array(ev):
            n = const(ev[2][0])
            if n is None or n <= 0:
                raise Broken("the size of a block is not constant")
            sizes.add(n)
            return (w, bk, buf, n)
        if k == "write" and ev[1]:
            key = handed(ev[1], f)
            if key == "_input_buffer":
                if buf not in ("none", "flushed"):
                    ex.report(st, fr, ev[4], "a block is replaced before it was written")
                return (note(w, key, ("c", 7), f), bk, "new", blk)
            if key:
                return (note(w, key, ev[2], f), bk, buf, blk)
        if k == "ret" and fr.depth == 0:
            if retbool(ex, st, ev[1]) is False:
                return s
            g = final_forms(w)
            cnt = {x: g.get(x) for x in ("p0", "p1", "_byte_count", "_backed_up_bytes")}
            N = list(sizes)[0] if len(sizes) == 1 else None
            if bk:
                want1, want0 = {"_backed_up_bytes": 1}, None
                d0 = dict(cnt["p0"] or {})
                n = d0.pop(1, None)
                if d0 != {"_input_buffer": 1, "_backed_up_bytes": -1} or not n:
                    ex.report(st, fr, ev[2], "other bytes are handed out than the ones given back")
                else:
                    sizes.add(n)
                if cnt["_backed_up_bytes"] != {}:
                    ex.report(st, fr, ev[2], "bytes given back are handed out twice")
                if cnt["p1"] != want1:
                    ex.report(st, fr, ev[2], "another number of bytes is handed out than was given back")
            else:
                if buf != "new":
                    ex.report(st, fr, ev[2], "a block is handed out twice")
                d1 = cnt["p1"] or {}
                if set(d1) != {1} or d1[1] != blk:
                    ex.report(st, fr, ev[2], "more bytes are handed out than the block has room for")
                if not (cnt["p0"] and len(cnt["p0"]) == 1):
                    ex.report(st, fr, ev[2], "other bytes are handed out than the block")
            if cnt["p1"] is not None and cnt["_byte_count"] != ladd(cnt["p1"], {"_byte_count": 1}):
                ex.report(st, fr, ev[2], "another number of bytes is counted than was handed out")
        return s
    automaton(R, P, f, "W04.block", f.name, ((), None, "?", None), step, any_of(calls_named("Flush"), writes_field("_input_buffer", "_backed_up_bytes", "_byte_count")),
              this_cls=BOUT, boundary=[BOUT + "::Flush"], ident=f.key)
    R.decide("W04.block", "size of a block", len(sizes) == 1, where(f), "several sizes are used for a block: %s" % sorted(sizes))
    N = max(sizes) if sizes else 0
    backup(R, P, P.fn(BOUT + "::BackUp"))
    f = P.fn(BOUT + "::Flush")

    def step(ex, st, fr, ev, s):
        alloc, buf, n, out, done, facts = s
        k = ev[0]
        if k == "branch":
            t, tr = unneg(ev[1], ev[2])
            if t[0] == "eq" and t[2] == NULL and is_ld(t[1], "_input_buffer") and tr:
                facts = facts | {"empty"}
            if t[0] == "eq" and tr and const(t[2]) == 0 and fields(lin(t[1])) == {1: N, "_backed_up_bytes": -1}:
                facts = facts | {"empty"}
            if t[0] == "eq" and tr and {fz(fields(lin(x))) for x in t[1:3]} == {fz({1: N}), fz({"_backed_up_bytes": 1})}:
                facts = facts | {"empty"}
            if t[0] == "lt" and tr and fields(ladd(lin(t[1]), lin(t[2]), -1)) == {1: N - 1, "_backed_up_bytes": -1}:
                facts = facts | {"empty"}
            return (alloc, buf, n, out, done, facts)
        if k == "call":
            x, args, nid = short(ev[1]), ev[3], ev[4]
            if x == "MaxCompressedLength":
                return (fz(fields(lin(args[0]))), buf, n, out, done, facts)
            if x == "RawCompress":
                l = fields(lin(args[1]))
                if not is_ld(args[0], "_input_buffer"):
                    ex.report(st, fr, nid, "other bytes are compressed than those of the block")
                if l != {1: N, "_backed_up_bytes": -1} and not (l == {1: N} and "full" in facts):
                    ex.report(st, fr, nid, "another number of bytes is compressed than was written into the block")
                if buf is not None and unwrap(args[2]) != buf[0]:
                    ex.report(st, fr, nid, "the compressed bytes go to another buffer than was allocated")
                if buf is not None and (alloc is None or dict(alloc) != l or not buf[1]):
                    ex.report(st, fr, nid, "the buffer for the compressed bytes is not allocated for the bytes that are compressed")
                if "compressed" in done:
                    ex.report(st, fr, nid, "a block is compressed twice")
                return (alloc, buf, n, ev[5] if len(ev) > 5 else None, done | {"compressed"}, facts)
            if x in ("WriteVarint32", "WriteVarint64") and out is not None:
                if unwrap(args[0]) != unwrap(out) or "length" in done:
                    ex.report(st, fr, nid, "the length before a block is not its compressed length")
                return (alloc, buf, n, out, done | {"length"}, facts)
            if x == "WriteRaw" and out is not None:
                if unwrap(args[1]) != unwrap(out):
                    ex.report(st, fr, nid, "another number of bytes is written than was compressed")
                if buf is not None and unwrap(args[0]) != buf[0]:
                    ex.report(st, fr, nid, "other bytes are written than were compressed")
                if "length" not in done or "data" in done:
                    ex.report(st, fr, nid, "a block is written without its length before it")
                return (alloc, buf, n, out, done | {"data"}, facts)
        if byte_array(ev):
            m = unwrap(ev[2][0])
            return (alloc, (ev[3], is_call(m, "MaxCompressedLength")), n, out, done, facts)
        if k == "del":
            if buf and unwrap(ev[1]) == buf[0]:
                if not fr.fn.nodes[ev[3]].get("arr"):
                    ex.report(st, fr, ev[3], "an array is deleted as a single object")
                if "freed buffer" in done:
                    ex.report(st, fr, ev[3], "a buffer is freed twice")
                if "compressed" in done and "data" not in done:
                    ex.report(st, fr, ev[3], "a buffer is freed before it is written")
                return (alloc, buf, n, out, done | {"freed buffer"}, facts)
            if has_field(ev[1], "_input_buffer"):
                if "data" not in done and "empty" not in facts:
                    ex.report(st, fr, ev[3], "a block is dropped that was not written")
                return (alloc, buf, n, out, done | {"freed block"}, facts)
        if k == "write" and ev[1]:
            key = handed(ev[1], f)
            if key == "_input_buffer":
                return (alloc, buf, n, out, done | {"no block"}, facts)
            if key == "_backed_up_bytes":
                if const(ev[2]) != 0:
                    ex.report(st, fr, ev[4], "a new block begins with bytes given back")
                return (alloc, buf, n, out, done | {"none back"}, facts)
        return s

    def fin(ex, st, fr, s):
        alloc, buf, n, out, done, facts = s
        if not done:
            if "empty" not in facts:
                ex.report(st, fr, None, "a block is not written")
            return
        if "compressed" in done:
            if not {"length", "data"} <= done:
                ex.report(st, fr, None, "a block is not written")
            if buf and "freed buffer" not in done:
                ex.report(st, fr, None, "a buffer is never freed")
            if not {"freed block", "no block"} <= done:
                ex.report(st, fr, None, "a block is written twice: it stays in the stream")
            if "none back" not in done:
                ex.report(st, fr, None, "a new block begins with bytes given back")
        elif ("freed block" in done) != ("no block" in done):
            ex.report(st, fr, None, "a block is used after it was freed")
    automaton(R, P, f, "W04.block", f.name, (None, None, None, None, frozenset(), frozenset()), step,
              calls_named("RawCompress", "WriteRaw", "WriteVarint32"), fin, this_cls=BOUT,
              boundary=[BOUT + "::RawCompress", BOUT + "::MaxCompressedLength"], ident=f.key)
    return N


def backup(R, P, f):
    def step(ex, st, fr, ev, s):
        w, some = s
        if ev[0] == "write" and ev[1]:
            key = handed(ev[1], f)
            if key:
                return (note(w, key, ev[2], f), some)
        if ev[0] == "branch":
            t, tr = unneg(ev[1], ev[2])
            if t[0] == "lt" and t[1] == p(f, 0) and const(t[2]) == 1:
                return (w, not tr)
            if t[0] == "eq" and t[1] == p(f, 0) and const(t[2]) == 0 and tr:
                return (w, False)
        return s

    def fin(ex, st, fr, s):
        g = final_forms(s[0])
        if s[1] is False and not g:
            return
        if g.get("_backed_up_bytes") != {"_backed_up_bytes": 1, "p0": 1}:
            ex.report(st, fr, None, "another number of bytes is given back than asked for")
        if g.get("_byte_count") != {"_byte_count": 1, "p0": -1}:
            ex.report(st, fr, None, "bytes given back are counted as used")
    automaton(R, P, f, "W04.block", f.name, ((), None), step, writes_field("_backed_up_bytes", "_byte_count"), fin, this_cls=f.cls, ident=f.key)


def block_input(R, P, size):
    f = P.fn(BIN + "::Next")
    LIMIT = 64 << 20

    # the length varies: out location of ReadVarint32
    def step(ex, st, fr, ev, s):
        w, bk, loc, facts, buf, freed = s
        k = ev[0]
        def length(t):
            t = unwrap(t)
            return loc is not None and (t == loc[1] or t == st.store.get(loc[0]))
        if k == "branch":
            b = backed(ev)
            if b is not None:
                return (w, b, loc, facts, buf, freed)
            u, utr = test_of(ev)
            t, tr = unneg(ev[1], ev[2])
            if is_call(u, "ReadVarint32"):
                return (w, bk, loc, facts | {"length"} if utr else facts | {"end"}, buf, freed)
            if is_call(u, "ReadRaw"):
                return (w, bk, loc, facts | {"data"} if utr else facts | {"end"}, buf, freed)
            if is_call(u, "RawUncompress"):
                return (w, bk, loc, facts | {"good"} if utr else facts | {"bad"}, buf, freed)
            if t[0] == "lt" and length(t[1]) and const(t[2]) is not None and tr:
                return (w, bk, loc, facts | {("limit", const(t[2]) - 1)}, buf, freed)
            if t[0] == "lt" and length(t[2]) and const(t[1]) is not None and not tr:
                return (w, bk, loc, facts | {("limit", const(t[1]))}, buf, freed)
            return s
        if k == "call":
            x, args, nid = short(ev[1]), ev[3], ev[4]
            if x == "ReadVarint32":
                return (w, bk, (args[0], st.store.get(args[0])), facts, buf, freed)
            if x == "ReadRaw":
                if buf and unwrap(args[0]) == buf[0] and unwrap(args[1]) != buf[1] and lin(args[1]) != lin(buf[1]):
                    ex.report(st, fr, nid, "more bytes may be read than the buffer has room for")
                if not length(args[1]):
                    ex.report(st, fr, nid, "another number of bytes is read than the length of the block")
                bounded(ex, st, fr, nid, facts)
                return s
            if x == "RawUncompress":
                if "data" not in facts:
                    ex.report(st, fr, nid, "a block is decompressed although it may not be complete")
                if not length(args[1]):
                    ex.report(st, fr, nid, "another number of bytes is decompressed than was read")
                if buf and unwrap(args[0]) != buf[0]:
                    ex.report(st, fr, nid, "other bytes are decompressed than were read")
                if buf and freed:
                    ex.report(st, fr, nid, "a buffer is used after it was freed")
                return s
        if byte_array(ev):
            if length(ev[2][0]) or loc is not None and mentions(ev[2][0], loc[1] or ("x",)):
                bounded(ex, st, fr, ev[4], facts)
            return (w, bk, loc, facts, (ev[3], unwrap(ev[2][0])), 0)
        if k == "del" and buf and unwrap(ev[1]) == buf[0]:
            if freed:
                ex.report(st, fr, ev[3], "a buffer is freed twice")
            if not fr.fn.nodes[ev[3]].get("arr"):
                ex.report(st, fr, ev[3], "an array is deleted as a single object")
            return (w, bk, loc, facts, buf, 1)
        if k == "write" and ev[1]:
            key = handed(ev[1], f)
            if key:
                return (note(w, key, ev[2], f), bk, loc, facts, buf, freed)
        if k == "ret" and fr.depth == 0:
            if buf and not freed:
                ex.report(st, fr, ev[2], "a buffer is never freed")
            b = retbool(ex, st, ev[1])
            g = final_forms(w)
            cnt = {x: g.get(x) for x in ("p0", "p1", "_byte_count", "_backed_up_bytes")}
            if b is False:
                if cnt["_byte_count"] is not None:
                    ex.report(st, fr, ev[2], "bytes are counted that were not handed out")
                if bk or "good" in facts:
                    ex.report(st, fr, ev[2], "bytes of a block are lost")
                if facts & {"bad"} and g.get("_output_buffer_size") not in ({}, None):
                    ex.report(st, fr, ev[2], "a block that is broken is handed out")
                return s
            if bk:
                if cnt["p0"] != {"_output_buffer": 1, "_output_buffer_size": 1, "_backed_up_bytes": -1}:
                    ex.report(st, fr, ev[2], "other bytes are handed out than the ones given back")
                if cnt["p1"] != {"_backed_up_bytes": 1}:
                    ex.report(st, fr, ev[2], "another number of bytes is handed out than was given back")
                if cnt["_backed_up_bytes"] != {}:
                    ex.report(st, fr, ev[2], "bytes given back are handed out twice")
            else:
                if "good" not in facts:
                    ex.report(st, fr, ev[2], "a block is handed out although it could not be decompressed")
                if cnt["p0"] != {"_output_buffer": 1} or cnt["p1"] != {"_output_buffer_size": 1}:
                    ex.report(st, fr, ev[2], "other bytes are handed out than were decompressed")
            if cnt["p1"] is not None and cnt["_byte_count"] != ladd(cnt["p1"], {"_byte_count": 1}):
                ex.report(st, fr, ev[2], "another number of bytes is counted than was handed out")
        return s

    def bounded(ex, st, fr, nid, facts):
        ls = [x[1] for x in facts if isinstance(x, tuple)]
        if "length" not in facts:
            ex.report(st, fr, nid, "a length is used that was not read")
        if not ls or min(ls) > LIMIT:
            ex.report(st, fr, nid, "memory is allocated for any length the data names")
        elif min(ls) < size + size // 6 + 32:
            ex.report(st, fr, nid, "a block that does not compress is refused")
    automaton(R, P, f, "W04.block", f.name, ((), None, None, frozenset(), None, 0), step,
              any_of(calls_named("ReadVarint32", "ReadRaw", "RawUncompress"), writes_field("_backed_up_bytes", "_byte_count")), this_cls=BIN,
              boundary=[BIN + "::RawUncompress"], ident=f.key)
    backup(R, P, P.fn(BIN + "::BackUp"))
    for c, fld in ((BIN, ("_sub_stream", "_output_buffer")), (BOUT, ("_sub_stream",))):
        g = P.fn(c + "::{dtor}")
        def step(ex, st, fr, ev, s):
            if ev[0] == "del":
                n = last(ev[1])
                if n in s:
                    ex.report(st, fr, ev[3], "%s is freed twice" % n)
                return s | {n}
            return s
        def fin(ex, st, fr, s, fld=fld):
            for x in fld:
                if x not in s:
                    ex.report(st, fr, None, "%s is never freed%s" % (x, ": the last bytes are never written" if x == "_sub_stream" and c == BOUT else ""))
        automaton(R, P, g, "W04.block", g.name, frozenset(), step, lambda a, b, d: False, fin, this_cls=c)


def raw_uncompress(R, P, f, size):
    CAP = any(n["k"] == "mem" and short(n.get("fld") or "") == "_output_buffer_capacity" for g in P.fns.values() if g.cls == f.cls for n in g.nodes)
    DEC = ("uncompress", "decompress")
    allocs = set()
    for n in f.nodes:
        pass

    def step(ex, st, fr, ev, s):
        room, facts, ln, ok, old = s
        k = ev[0]
        def outlen(t):
            t = unwrap(t)
            return ln is not None and (t == ln[1] or t == st.store.get(ln[0]))
        if k == "branch":
            t, tr = unneg(ev[1], ev[2])
            u, utr = test_of(ev)
            if t[0] == "eq" and t[2] == NULL and is_ld(t[1], "_output_buffer"):
                return (("none",) if tr else ("some",), facts, ln, ok, old)
            if is_call(u, "GetUncompressedLength"):
                return (room, facts | {"length"} if utr else facts | {"bad"}, ln, ok, old)
            if t[0] == "lt" and is_ld(t[1], "_output_buffer_capacity") and not tr:
                return (("fits", unwrap(t[2])), facts, ln, ok, old)
            if t[0] == "lt" and is_ld(t[2], "_output_buffer_capacity") and tr:
                return (("fits", unwrap(t[1])), facts, ln, ok, old)
            if t[0] == "lt":
                for a, b in ((t[1], t[2]), (t[2], t[1])):
                    if contains(a, lambda y: outlen(y)) and (const(b) is not None and const(b) <= 64 << 20 or mentions(b, p(f, 1))):
                        facts = facts | {"limited"}
                if ok and unwrap(t[1]) == ok[0] and const(t[2]) in (0, 1):
                    return (room, facts, ln, (ok[0], not tr), old)
                if ok and unwrap(t[2]) == ok[0] and const(t[1]) == -1:
                    return (room, facts, ln, (ok[0], tr), old)
            if ok and u == ok[0]:
                return (room, facts, ln, (ok[0], utr), old)
            return (room, facts, ln, ok, old)
        if byte_array(ev):
            n = unwrap(ev[2][0])
            if outlen(n) and "limited" not in facts:
                ex.report(st, fr, ev[4], "memory is allocated for any length the data names")
            if outlen(n) and "length" not in facts:
                ex.report(st, fr, ev[4], "a length is used that was not read")
            return (room, facts, ln, ok, ("new", ev[3], n, old and old[0] == "freed" or room == ("none",)))
        if k == "del" and has_field(ev[1], "_output_buffer"):
            return (room, facts, ln, ok, ("freed",))
        if k == "write" and ev[1]:
            if locis(ev[1], "_output_buffer"):
                if old and old[0] == "new" and unwrap(ev[2]) == old[1]:
                    if not old[3]:
                        ex.report(st, fr, ev[4], "a buffer is replaced without freeing it")
                    return (("new", old[2]), facts | {"made"}, ln, ok, None)
                return (("none",), facts, ln, ok, None)
            if locis(ev[1], "_output_buffer_capacity"):
                n = room[1] if room and room[0] == "new" else old[2] if old and old[0] == "new" else None
                if n is None or lin(ev[2]) != lin(n):
                    ex.report(st, fr, ev[4], "another capacity is remembered than was allocated")
                return (room, facts | {"capacity"}, ln, ok, old)
            if locis(ev[1], "_output_buffer_size"):
                v = unwrap(ev[2])
                if const(v) == 0:
                    return (room, facts - {"size"}, ln, ok, old)
                if not outlen(v) and not (ok and v == ok[0]):
                    ex.report(st, fr, ev[4], "another number of bytes is handed out than was decompressed")
                return (room, facts | {"size"}, ln, ok, old)
        if k == "call":
            x, args, nid = short(ev[1]), ev[3], ev[4]
            if x == "GetUncompressedLength":
                if args[0] != p(f, 0) or unwrap(args[1]) != p(f, 1):
                    ex.report(st, fr, nid, "the length is read from other bytes than are decompressed")
                return (room, facts, (args[2], st.store.get(args[2])), ok, old)
            if any(d in x.lower() for d in DEC) and family(ev[1]) and x != "GetUncompressedLength":
                if family(ev[1]) != family(f.cls):
                    ex.report(st, fr, nid, "bytes are decompressed in another format than they were compressed")
                lz = family(ev[1]) == "lz4"
                src, n, dst = (args[0], args[2], args[1]) if lz else (args[0], args[1], args[2])
                if unwrap(src) != p(f, 0) or unwrap(n) != p(f, 1):
                    ex.report(st, fr, nid, "other bytes are decompressed than were read")
                if not (is_ld(dst, "_output_buffer") or unwrap(dst)[0] == "new"):
                    ex.report(st, fr, nid, "the bytes are decompressed into another buffer than is handed out")
                cap = unwrap(args[3]) if lz else (ln[1] if ln else None)
                if lz and const(cap) is not None and const(cap) < size:
                    ex.report(st, fr, nid, "a whole block has no room")
                if not lz and "length" not in facts:
                    ex.report(st, fr, nid, "the bytes are decompressed without knowing how many they become")
                if room is None or room == ("none",) or old and old[0] == "new":
                    ex.report(st, fr, nid, "bytes may be decompressed into less memory than they need")
                elif room[0] == "some":
                    # what other calls allocated
                    if const(cap) is None or not is_ld(cap, "_output_buffer_capacity") and (("all", const(cap)) not in ALL):
                        ALLREQ.append((const(cap), nid))
                elif cap is not None and unwrap(room[1]) != cap and lin(room[1]) != lin(cap) and not outlen(room[1]):
                    if not (const(room[1]) is not None and const(cap) is not None and const(room[1]) >= const(cap)):
                        ex.report(st, fr, nid, "bytes may be decompressed into less memory than they need")
                if room and room[0] == "new" and const(room[1]) is not None:
                    allocs.add(const(room[1]))
                return (room, facts, ln, (ev[5] if len(ev) > 5 else None, None), old)
        if k == "ret" and fr.depth == 0:
            if "made" in facts and "capacity" not in facts and CAP:
                ex.report(st, fr, ev[2], "another capacity is remembered than was allocated")
            b = retbool(ex, st, ev[1])
            if b is False:
                return s
            rv, tr = unneg(ev[1], True)
            direct = ok and (unwrap(rv) == ok[0] or rv[0] == "eq" and unwrap(rv[1]) == ok[0])
            cmp_ = ok and rv[0] == "lt" and (unwrap(rv[1]) == ok[0] and const(rv[2]) in (0, 1) and not tr)
            if not ok or not (ok[1] or direct or cmp_):
                ex.report(st, fr, ev[2], "a broken block is taken as decompressed")
            if "size" not in facts:
                ex.report(st, fr, ev[2], "another number of bytes is handed out than was decompressed")
            if "bad" in facts:
                ex.report(st, fr, ev[2], "a broken block is taken as decompressed")
        return s
    ALL, ALLREQ = set(), []
    outs, ex = automaton(R, P, f, "W04.block", f.name, (None, frozenset(), None, None, None), step,
              any_of(calls_named("GetUncompressedLength"), writes_field("_output_buffer", "_output_buffer_size", "_output_buffer_capacity")), this_cls=f.cls, ident=f.key)
    for c, nid in ALLREQ:
        R.decide("W04.block", "%s: room" % f.name, c is not None and allocs and min(allocs) >= c, where(f), "bytes may be decompressed into less memory than they need")


def raw_compress(R, P, f, ins, outs):
    fam = family(f.cls)
    calls = []

    def step(ex, st, fr, ev, s):
        if ev[0] == "call" and family(ev[1]) and "compress" in short(ev[1]).lower():
            x, args, nid = short(ev[1]), ev[3], ev[4]
            if family(ev[1]) != fam:
                ex.report(st, fr, nid, "bytes are compressed in another format than they are decompressed")
            lz = fam == "lz4"
            src, n, dst = (args[0], args[2], args[1]) if lz else (args[0], args[1], args[2])
            if unwrap(src) != p(f, 0) or unwrap(n) != p(f, 1) or unwrap(dst) != p(f, 2):
                ex.report(st, fr, nid, "other bytes are compressed than those of the block")
            return ("call", ev[5] if len(ev) > 5 else None, args[3] if len(args) > 3 and not lz else None)
        if ev[0] == "ret" and fr.depth == 0:
            if not s:
                ex.report(st, fr, ev[2], "a block is not compressed")
                return s
            v = unwrap(ev[1])
            good = v == s[1] if s[2] is None else v == st.store.get(s[2]) or v[0] == "clob" and v[1] == s[2]
            if not good:
                ex.report(st, fr, ev[2], "another length is reported than the compressed one")
        return s
    automaton(R, P, f, "W04.block", f.name, None, step, lambda g, i, n: False, this_cls=f.cls, ident=f.key)
    g = [x for x in overriders(P, BOUT, "MaxCompressedLength") if x.cls == f.cls]
    if not g:
        raise Broken("%s does not bound the compressed length" % f.cls)
    g = g[0]

    def step(ex, st, fr, ev, s):
        if ev[0] == "ret" and fr.depth == 0:
            v = unwrap(ev[1])
            ok = v[0] == "call" and family(v[1]) == fam and any(b in short(v[1]).lower() for b in ("maxcompressedlength", "compressbound")) and unwrap(v[3][0]) == p(g, 0)
            l = {q: c for q, c in lin(v).items() if q != 1}
            if not ok and l.get(p(g, 0), 0) >= 1 and fam == "lz4" and any(q != p(g, 0) for q in l):
                ok = True     # the bound written out
            if not ok:
                ex.report(st, fr, ev[2], "the room for compressed bytes is not the bound of their format")
        return s
    automaton(R, P, g, "W04.block", g.name, None, step, lambda a, b, d: False, this_cls=f.cls, ident=g.key)


# ------------------------------------------------------------------ zlib
ZF = ("avail_in", "avail_out", "next_in", "next_out")
WORK = ("inflate", "deflate", "inflateInit2_", "deflateInit2_")


def below():
    """calls of the streams a compressing stream works on"""
    return sorted({n["n"] for f in PROG.fns.values() if "Gzip" in (f.cls or "") for n in f.nodes if n["k"] in ("call", "mcall") and short(n.get("n") or "") in ("Next", "BackUp", "Skip", "ByteCount")})


def gzip(R, P):
    global PROG
    PROG = P
    for c in ("GzipInputStream", "GzipOutputStream"):
        inp = c == "GzipInputStream"
        own = [f for f in P.fns.values() if f.cls == c]
        if not own:
            raise Broken("%s not found" % c)
        used = {f.key for f in own if any(
            n["k"] == "mem" and short(n.get("fld") or "") in ZF or n["k"] == "call" and short(n.get("n") or "") in ("operator new", "operator delete") for n in f.nodes)}
        work = {f.key for f in own if any(n["k"] == "call" and (n.get("n") or "") in WORK for n in f.nodes)}
        units = {f.key for f in roots(P, used)} | work
        units = {k for k in units if P.fns[k].cls == c}
        for k in sorted(units):
            zlib(R, P, P.fns[k], inp, [P.fns[x].name for x in units if x != k])
    close(R, P)


def zlib(R, P, f, inp, others):
    OK = {"output_buffer_": "output_buffer_length_", "input_buffer_": "input_buffer_length_", "sub_data_": "sub_data_size_"}

    def step(ex, st, fr, ev, s):
        pend, facts, sub = s
        k = ev[0]
        if k == "write" and ev[1] and ev[1][0] == "F" and isinstance(ev[1][2], str):
            n = ev[1][2].split("::")[-1]
            if n in ("next_in", "next_out", "avail_in", "avail_out"):
                d = n.split("_")[1]
                v = unwrap(ev[2])
                if n.startswith("next"):
                    what = "null" if v == NULL else last(v) if last(v) in OK else ("call", v[1][1] if v[0] == "operator new" else v) if is_call(v, "operator new") else ("data", v)
                else:
                    l = fields(lin(v), f)
                    if n == "avail_in" and l == {"avail_in": 1, "p0": -1}:
                        return s          # given back
                    if const(v) == 0 and ("left", n) in facts and not dict(pend).get(d):
                        return (pend, facts - {("left", n)}, sub)     # what was left is returned
                    what = "null" if const(v) == 0 else ("size", v)
                a = dict(pend)
                x = dict(a.get(d, ()))
                x[n[0]] = what
                # the pair is complete?
                if "n" in x and "a" in x:
                    pair(ex, st, fr, ev[4], x["n"], x["a"], st, sub)
                    x = {}
                a[d] = tuple(sorted(x.items(), key=str))
                return (tuple(sorted(((q, y) for q, y in a.items() if y), key=str)), facts, sub)
            if n in ("sub_data_", "sub_data_size_"):
                return (pend, facts - {"returned"} if const(ev[2]) == 0 and n == "sub_data_" else facts, sub)
            if n in ("output_buffer_length_", "input_buffer_length_", "output_buffer_", "input_buffer_"):
                return (pend, facts | {(n, unwrap(ev[2]))}, sub)
        if k == "call":
            x, args, nid = short(ev[1]), ev[3], ev[4]
            if ev[1] in ("inflate", "deflate") or ev[1] in ("::inflate", "::deflate"):
                for d, y in pend:
                    ex.report(st, fr, nid, "zlib gets a buffer without its size")
                return s
            if x == "Next" and is_ld(ev[2] or ("x",), "sub_stream_"):
                return (pend, facts - {"got"}, (args[0], args[1], ev[5] if len(ev) > 5 else None))
            if x == "BackUp" and is_ld(ev[2] or ("x",), "sub_stream_"):
                if last(args[0]) not in ("avail_in", "avail_out") or (last(args[0]) == "avail_in") != inp:
                    ex.report(st, fr, nid, "another number of bytes is returned than zlib left")
                return (pend, facts | (set() if not inp and st.store.get(("F", ("this",), "GzipOutputStream::sub_data_")) == NULL else {"returned"} if not inp else {("left", last(args[0]))}), sub)
            if x == "operator delete" or x == "operator delete[]":
                n = last(args[0])
                if ("del", n) in facts:
                    ex.report(st, fr, nid, "a buffer is freed twice")
                return (pend, facts | {("del", n)}, sub)
        if k == "branch":
            u, utr = test_of(ev)
            if sub and u == sub[2]:
                return (pend, facts | {"got"} if utr else facts - {"got"}, sub)
            t, tr = unneg(ev[1], ev[2])
            if t[0] == "eq" and t[2] == NULL and last(t[1]) in ("output_buffer_", "input_buffer_") and tr:
                return (pend, facts | {("del", last(t[1]))}, sub)
        return s

    def pair(ex, st, fr, nid, n, a, st_, sub):
        if n == "null" or a == "null":
            if n != a:
                ex.report(st, fr, nid, "zlib gets a buffer with the size of another one")
            return
        v = a[1]
        if isinstance(n, str):
            if last(v) != OK[n] and not (number(v) is None and False):
                # a size that was just stored in the field
                if not any(unwrap(st.store.get(("F", ("this",), q), ("x",))) == v for q in [x for x in FIELDS if x.endswith(OK[n])]):
                    ex.report(st, fr, nid, "zlib gets a buffer with the size of another one")
            return
        w = n[1]
        # bytes of the stream below
        if sub:
            if w != st.store.get(sub[0]) and not mentions(w, sub[0]) and not is_call(w, "operator new"):
                return
            if not (v == st.store.get(sub[1]) or mentions(v, sub[1])):
                if is_call(w, "operator new"):
                    return
                ex.report(st, fr, nid, "zlib gets a buffer with the size of another one")
    FIELDS = ["%s::%s" % (f.cls, x) for x in OK.values()]

    def fin(ex, st, fr, s):
        pend, facts, sub = s
        for d, y in pend:
            ex.report(st, fr, None, "zlib gets a buffer without its size")
        if "returned" in facts:
            ex.report(st, fr, None, "memory is used after it was returned to the stream below")
        new = {x[0]: x[1] for x in facts if isinstance(x, tuple) and x[0] not in ("del", "left")}
        for b in ("output_buffer_", "input_buffer_"):
            v = new.get(b)
            if v is not None and is_call(v, "operator new"):
                n = new.get(OK[b])
                if n is None or lin(v[3][0]) != lin(n):
                    ex.report(st, fr, None, "a buffer is allocated with another size than it is used with")
        if f.name.endswith("{dtor}"):
            b = "output_buffer_" if inp else "input_buffer_"
            if ("del", b) not in facts:
                ex.report(st, fr, None, "a buffer is never freed")
    automaton(R, P, f, "W04.zlib", f.key.split("(")[0] + ("" if not f.params else "/%d" % len(f.params)), ((), frozenset(), None), step, any_of(calls_named("inflate", "deflate", "operator delete"), writes_field("next_in", "next_out", "avail_in", "avail_out")), fin,
              this_cls=f.cls, boundary=below() + sorted(others), ident=f.key)


def close(R, P):
    d = P.fn("GzipOutputStream::Deflate")
    FINISH = 4

    def step(ex, st, fr, ev, s):
        flush, done = s
        if ev[0] == "branch":
            t, tr = unneg(ev[1], ev[2])
            c = const(t[2]) if t[0] == "eq" and t[1] == p(d, 0) else None
            if c is not None:
                if tr:
                    return (c, done)
                if c == FINISH:
                    return ("other", done)
            u, utr = test_of(ev)
            if is_call(u, "Next") and not utr:
                return (flush, "no room")
            return s
        if ev[0] == "call" and short(ev[1]) == "BackUp":
            return (flush, "returned")
        if ev[0] == "call" and ev[1] == "deflate":
            if unwrap(ev[3][1]) != p(d, 0) and const(ev[3][1]) != flush:
                ex.report(st, fr, ev[4], "zlib is asked for another flush than the stream")
            return (flush, "deflated")
        return s

    def fin(ex, st, fr, s):
        if s[1] == "deflated" and s[0] in (FINISH, None):
            ex.report(st, fr, None, "the room zlib did not use at the end becomes part of the message")
    automaton(R, P, d, "W04.zlib", "%s: end" % d.name, (None, None), step, calls_named("deflate"), fin, this_cls=d.cls,
              boundary=below(), ident=d.key)
    c = P.fn("GzipOutputStream::Close")

    def step(ex, st, fr, ev, s):
        if ev[0] == "call" and short(ev[1]) == "Deflate":
            if const(ev[3][0]) == 4:
                return s | {"finished"}
        if ev[0] == "call" and ev[1] == "deflateEnd":
            if "ended" in s:
                ex.report(st, fr, ev[4], "zlib is ended twice")
            if "finished" not in s:
                ex.report(st, fr, ev[4], "zlib is ended before the message is finished")
            return s | {"ended"}
        if ev[0] == "branch":
            t, tr = unneg(ev[1], ev[2])
            if t[0] == "eq" and is_ld(t[1], "zerror_") and not s:
                return s | {"state"} if tr is False else s
        return s

    def fin(ex, st, fr, s):
        if "finished" in s and "ended" not in s:
            ex.report(st, fr, None, "zlib is never ended")
        if not s & {"finished", "state"}:
            ex.report(st, fr, None, "a message is never finished")
    automaton(R, P, c, "W04.zlib", "%s: end" % c.name, frozenset(), step, calls_named("Deflate", "deflateEnd"), fin, this_cls=c.cls, boundary=["GzipOutputStream::Deflate"], ident=c.key)
    for f, names in ((P.fn("GzipOutputStream::{dtor}"), ("Close", "deflateEnd")), (P.fn("GzipInputStream::{dtor}"), ("inflateEnd",))):
        def step(ex, st, fr, ev, s):
            if ev[0] == "call" and short(ev[1]) in names:
                return True
            return s
        def fin(ex, st, fr, s):
            if not s:
                ex.report(st, fr, None, "zlib is never ended")
        automaton(R, P, f, "W04.zlib", "%s: end" % f.name, False, step, lambda a, b, n: False, fin, this_cls=f.cls, boundary=["GzipOutputStream::Close", "GzipInputStream::ExpectAtEnd"], ident=f.key)


# ------------------------------------------------------------------ users
def users(R, P):
    OUTS, INS = "get_compressed_output_stream", "get_compressed_input_stream"

    def calling(name):
        ks = {f.key for f in P.fns.values() if any(n["k"] == "call" and short(n.get("n") or "") == name for n in f.nodes)}
        if not ks:
            raise Broken("nothing calls %s" % name)
        return roots(P, ks)

    def content(st, t):
        t = unwrap(t)
        v = st.store.get(t)
        return unwrap(v) if v is not None else t

    def typed(ev):
        """a branch that compares a compression type with none"""
        t, tr = unneg(ev[1], ev[2])
        if t[0] == "eq" and const(t[2]) == 0 and contains(t[1], lambda y: "compress" in str(y[1] if len(y) > 1 else "").lower() or "compress" in str(y[-1]).lower() if y and y[0] in ("call", "ld", "F") else False):
            return unwrap(t[1]), tr
        return None

    for f in calling(OUTS):
        # type known to be none / some, stream, its state, buffer below, serialising call
        def step(ex, st, fr, ev, s):
            typ, os, state, buf, ser = s
            k = ev[0]
            if k == "branch":
                x = typed(ev)
                if x:
                    return (x, os, state, buf, ser)
                u, utr = test_of(ev)
                if ser is not None and u == ser:
                    return (typ, os, state, buf, None if utr else "failed")
                return s
            if k == "call":
                x, args, nid = short(ev[1]), ev[3], ev[4]
                if x == OUTS:
                    if typ is None or typ[1] or not same(typ[0], args[1]):
                        ex.report(st, fr, nid, "a message is compressed with another type than is announced")
                    return (typ, ev[5], "made", args[0], ser)
                if x.startswith("Serialize") and args and ev[2] is not None and contains(unwrap(ev[2]), lambda y: y[0] == "p" or y[0] == "ld"):
                    if os is not None and content(st, args[0]) == os:
                        return (typ, os, "filled", buf, ev[5])
                    if typ is not None and not typ[1]:
                        ex.report(st, fr, nid, "a message is sent uncompressed although a compression type is announced")
                    return (typ, os, state, buf, ev[5])
                if os is not None and x in ("Flush", "Close") and content(st, ev[2] or ("x",)) == os:
                    return (typ, os, "flushed", buf, ser)
                if x in ("ByteCount", "SwapOut"):
                    if os is not None and state != "done" and ev[2] is not None and unwrap(ev[2]) == unwrap(buf):
                        ex.report(st, fr, nid, "the size of a message is taken before its compressed bytes are complete")
                    if ser == "failed" and x == "SwapOut":
                        ex.report(st, fr, nid, "a message is sent that could not be written")
            if k == "del" and os is not None and unwrap(ev[1]) == os:
                return end(ex, st, fr, ev[3], s)
            if k == "dtor" and os is not None and "Compressed" in str(ev[1]):
                return end(ex, st, fr, None, s)
            if k == "write" and os is not None and ev[3] == "reset" and st.store.get(ev[1]) != os and ex_held(s, ev):
                return end(ex, st, fr, ev[4], s)
            return s

        def ex_held(s, ev):
            return ev[2] is not None and const(ev[2]) == 0

        def same(a, b):
            return unsite(unwrap(a)) == unsite(unwrap(b))

        def end(ex, st, fr, nid, s):
            typ, os, state, buf, ser = s
            if state == "filled":
                ex.report(st, fr, nid, "a compressing stream ends without writing the rest of the message")
            return (typ, os, "done", buf, ser)

        def fin(ex, st, fr, s):
            if s[1] is not None and s[2] != "done":
                ex.report(st, fr, None, "a compressing stream is never freed")
        automaton(R, P, f, "W04.use", f.key.split("(")[0], (None, None, None, None, None), step, calls_named(OUTS, "Flush", "ByteCount", "SwapOut", "SerializeToZeroCopyStream"), fin,
                  this_cls=f.cls, boundary=[OUTS], ident=f.key)
    for f in calling(INS):
        def step(ex, st, fr, ev, s):
            typ, is_, state = s
            k = ev[0]
            if k == "branch":
                x = typed(ev)
                return (x, is_, state) if x else s
            if k == "call":
                x, args, nid = short(ev[1]), ev[3], ev[4]
                if x == INS:
                    if typ is None or typ[1] or unsite(unwrap(typ[0])) != unsite(unwrap(args[1])):
                        ex.report(st, fr, nid, "a message is decompressed with another type than was announced")
                    return (typ, ev[5], "made")
                if x.startswith("ParseFrom") and args and contains(ev[3], lambda y: y == is_ or y[0] == "ld" or y[0] == "F"):
                    if typ is None:
                        return s      # the meta data is not compressed
                    if is_ is not None and content(st, args[0]) == is_:
                        return s
                    if not typ[1]:
                        ex.report(st, fr, nid, "a compressed message is parsed without being decompressed")
            if k == "dtor" and is_ is not None and "Compressed" in str(ev[1]) or k == "del" and is_ is not None and unwrap(ev[1]) == is_:
                return (typ, is_, "done")
            return s

        def fin(ex, st, fr, s):
            if s[2] == "made":
                ex.report(st, fr, None, "a decompressing stream is never freed")
        automaton(R, P, f, "W04.use", f.key.split("(")[0], (None, None, None), step, calls_named(INS, "ParseFromZeroCopyStream"), fin, this_cls=f.cls, boundary=[INS], ident=f.key)
