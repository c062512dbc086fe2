"""What goes on the wire: layout of messages, identity of responses."""
from lib import *
import core
from rules.calls import where, const, at, bound_target
from rules.server import p, RR, SB, overriders, mentions

HDR = "RpcMessageHeader"
SERIAL = ("SerializeToZeroCopyStream", "SerializeToString", "SerializeToCodedStream", "SerializeToArray", "SerializeWithCachedSizes",
          "SerializePartialToZeroCopyStream", "SerializePartialToString")


def linear(t, sym):
    """t as {symbol: coefficient, 1: constant}, or None"""
    t = unwrap(t)
    s = sym(t)
    if s is not None:
        return s
    if t[0] == "c" and isinstance(t[1], int):
        return {1: t[1]} if t[1] else {}
    if t[0] == "op" and t[1] in ("+", "-"):
        a, b = linear(t[2], sym), linear(t[3], sym)
        if a is None or b is None:
            return None
        r = dict(a)
        for k, v in b.items():
            r[k] = r.get(k, 0) + (v if t[1] == "+" else -v)
            if not r[k]:
                del r[k]
        return r
    return None


def narrow(t, bits):
    """the value passes through an integer type of fewer bits"""
    return contains(t, lambda y: len(y) == 4 and y[0] == "trunc" and isinstance(y[2], int) and y[2] < bits)


def frame_functions(P):
    """functions that fill in a message header for sending"""
    out = set()
    for f in P.fns.values():
        if f.cls == HDR:
            continue
        if any(n["k"] == "asg" and f.nodes[n["x"]]["k"] == "mem" and f.nodes[n["x"]].get("fld", "").startswith(HDR + "::") for n in f.nodes):
            out.add(f.key)
    return roots(P, out)


# ------------------------------------------------------------------ W02
def frame_rules(R, P):
    R.rule("W02.frame", "a message consists of its header, its meta data and its body; the sizes in the header are those of what follows, and it is sent only if every part was written")
    BC = "WriteBuffer::ByteCount"
    fs = frame_functions(P)
    R.decide("W02.frame", "functions that build messages", len(fs) >= 3, "src/sofa/pbrpc/rpc_message_header.h", "only %d functions build messages" % len(fs))
    for f in fs:
        # state: buffer, base, epoch (0 nothing,1 header reserved,2 meta,3 body), site->epoch of byte counts, fields set, header written, unchecked parts
        S0 = (None, None, 0, frozenset(), frozenset(), False, frozenset(), False, frozenset())
        def step(ex, st, fr, ev, s):
            buf, base, ep, bc, flds, hdr, unchecked, out, os = s
            k = ev[0]
            if k == "call":
                x, recv, args, nid = short(ev[1]), ev[2], ev[3], ev[4]
                val = ev[5] if len(ev) > 5 else None
                if ev[1] == "WriteBuffer::Reserve":
                    if ep:
                        ex.report(st, fr, nid, "room for the header is reserved twice or after the content")
                    if const(args[0]) != 24:
                        ex.report(st, fr, nid, "the room reserved for the header is not its size")
                    return (recv, val, 1, bc, flds, hdr, unchecked | {val}, out, os)
                if ev[1] == BC and recv == buf:
                    if any(o[0] == "live" for o in os):
                        ex.report(st, fr, nid, "the bytes written are counted while the compressor still holds some of them")
                    return (buf, base, ep, bc | {(val, ep)}, flds, hdr, unchecked, out, os)
                if x in SERIAL:
                    dest = args[0]
                    if x != "SerializeToZeroCopyStream" and x != "SerializeToCodedStream":
                        return s
                    if ep == 0 and (dest == buf or buf is None):
                        ex.report(st, fr, nid, "content is written before the room for the header is reserved")
                    if dest != buf and not mentions(dest, buf):
                        return s
                    if hdr:
                        ex.report(st, fr, nid, "content is written after the header was filled in")
                    comp = dest != buf
                    if ep == 1 and comp:
                        ex.report(st, fr, nid, "the meta data is compressed")
                    if ep == 1 and not contains(recv, lambda y: y == recv):
                        pass
                    if ep >= 3:
                        ex.report(st, fr, nid, "more than a meta and a body is written")
                    return (buf, base, ep + 1, bc, flds, hdr, unchecked | {val}, out, (os | {("unflushed", dest)}) if comp else os)
                if x == "get_compressed_output_stream" and buf is not None and any(mentions(a, buf) for a in args):
                    return (buf, base, ep, bc, flds, hdr, unchecked, out, os | {("live", val)})
                if x == "Flush" and ("unflushed", recv) in os:
                    return (buf, base, ep, bc, flds, hdr, unchecked, out, os - {("unflushed", recv)})
                if x == "SetData" and recv == buf:
                    if args[0] != base:
                        ex.report(st, fr, nid, "the header is not put where it belongs")
                    if const(args[2]) != 24:
                        ex.report(st, fr, nid, "another number of bytes than the header is written")
                    if not mentions(args[1], "RpcMessageHeader") and args[1][0] not in ("L", "addr", "p"):
                        pass
                    for q in ("meta_size", "data_size", "message_size"):
                        if q not in [a for a, _ in flds]:
                            ex.report(st, fr, nid, "the header is written before its field %s is set" % q)
                    return (buf, base, ep, bc, flds, True, unchecked, out, os)
                if x == "SwapOut" and recv == buf:
                    if not hdr:
                        ex.report(st, fr, nid, "the message is taken before its header is filled in")
                    if unchecked:
                        ex.report(st, fr, nid, "a message is sent although a part of it could not be written")
                    if any(o[0] == "live" for o in os):
                        ex.report(st, fr, nid, "the message is taken while the compressor still holds some of its bytes")
                    elif any(o[0] == "unflushed" for o in os):
                        ex.report(st, fr, nid, "the compressed body is not flushed")
                    want = {"meta_size": {"M": 1, 1: -24} if ep >= 2 else None,
                            "data_size": {"D": 1, "M": -1} if ep == 3 else {},
                            "message_size": {"D" if ep == 3 else "M": 1, 1: -24}}
                    for a, v in sorted(flds, key=str):
                        if v == "?":
                            continue
                        if dict(v) != want[a]:
                            ex.report(st, fr, nid, "the header field %s is not the size of what was written" % a)
                    return (buf, base, ep, bc, flds, hdr, unchecked, True, os)
            if k == "del":
                return (buf, base, ep, bc, flds, hdr, unchecked, out, frozenset(o for o in os if o != ("live", ev[1])))
            if k == "dtor" and "_ptr" in ev[1] and "shared_ptr" not in ev[1]:
                gone = st.store.get(ev[2])
                return (buf, base, ep, bc, flds, hdr, unchecked, out, frozenset(o for o in os if o != ("live", gone)))
            if k == "write" and ev[1] and ev[1][0] == "L" and os:
                if ("live", ev[2]) in os:
                    os = os | {("own", ev[1], ev[2])}
                elif len(ev) > 3 and ev[3] == "reset":
                    freed = {o[2] for o in os if o[0] == "own" and o[1] == ev[1]}
                    os = frozenset(o for o in os if o[-1] not in freed)
                s = (buf, base, ep, bc, flds, hdr, unchecked, out, os)
            if k == "branch":
                t, tr = unneg(ev[1], ev[2])
                u, utr = test_of(ev)
                if u in unchecked and utr and is_call(u, *SERIAL):
                    return (buf, base, ep, bc, flds, hdr, unchecked - {u}, out, os)
                if t[0] == "lt" and unwrap(t[1]) == base and const(t[2]) == 0 and not tr:
                    return (buf, base, ep, bc, flds, hdr, unchecked - {base}, out, os)
            if k == "write" and ev[1] and ev[1][0] == "F" and ev[1][2].startswith(HDR + "::") and ev[1][2] != HDR + "::magic_str_value" and ev[1][1][0] == "L":
                name = short(ev[1][2])
                if name not in ("meta_size", "data_size", "message_size"):
                    return s
                if hdr:
                    ex.report(st, fr, ev[4] if len(ev) > 4 else None, "the header is changed after it was written")
                m = dict(bc)
                def sym(t):
                    if t == base:
                        return {}
                    if t in m:
                        e = m[t]
                        return {1: 24} if e == 1 else {"M" if e == 2 else "D": 1} if e else {}
                    return None
                v = linear(ev[2], sym)
                flds = frozenset((a, b) for a, b in flds if a != name)
                if v is None:
                    if contains(ev[2], lambda y: len(y) >= 2 and y[0] == "ld" and isinstance(y[1], tuple) and y[1] and y[1][0] == "F" and y[1][2].startswith(HDR)):
                        ex.report(st, fr, ev[4] if len(ev) > 4 else None, "the header field %s is computed from a field that is not set yet" % name)
                        return s
                    ex.report(st, fr, ev[4] if len(ev) > 4 else None, "the header field %s is not computed from the bytes written" % name)
                    return (buf, base, ep, bc, flds | {(name, "?")}, hdr, unchecked, out, os)
                return (buf, base, ep, bc, flds | {(name, tuple(sorted(v.items(), key=str)))}, hdr, unchecked, out, os)
            return s
        def fin(ex, st, fr, s):
            return None
        automaton(R, P, f, "W02.frame", f.name, S0, step,
                  any_of(calls_named("Reserve", "ByteCount", "SetData", "SwapOut", "Flush", "SerializeToZeroCopyStream", "get_compressed_output_stream"),
                         lambda g, nid, n: n["k"] == "del",
                         writes_field(HDR + "::meta_size", HDR + "::data_size", HDR + "::message_size")), fin,
                  this_cls=f.cls, boundary=[BC, "WriteBuffer::Reserve", "WriteBuffer::SetData", "WriteBuffer::SwapOut"] + SB +
                  ["RpcClientImpl::FindOrCreateStream", "RpcControllerImpl::Done", "get_compressed_output_stream"], ident=f.key)
    # the header itself
    c = [g for g in P.fns.values() if g.cls == HDR and g.d.get("ctor") and not g.params]
    if not c:
        raise Broken("no constructor of the message header")
    def step(ex, st, fr, ev, s):
        if ev[0] == "write" and ev[1] and ev[1][0] == "F" and short(ev[1][2]) == "magic_str_value":
            return const(ev[2])
        return s
    outs, ex = automaton(R, P, c[0], "W02.frame", "message header", None, step, writes_field("magic_str_value"))
    R.decide("W02.frame", "magic of the header", all(st.mon == int.from_bytes(b"SOFA", "little") for st in outs), where(c[0]),
             "a header does not start with the magic of the protocol")


# ------------------------------------------------------------------ S04
def identity_rules(R, P):
    R.rule("S04.identity", "a response carries the type and sequence number of its request, success or the code and text of the failure, and the compression its body was written with")
    R.rule("S04.http", "an HTTP response announces the length and type of the body that follows it and consists of exactly that body")
    f = P.fn("BinaryRpcRequest::AssembleSucceedResponse")
    g = P.fn("BinaryRpcRequest::AssembleFailedResponse")
    rtype = P.enum_value("RpcMeta_Type_RESPONSE") if hasattr(P, "enum_value") else 1
    for h in (f, g):
        def step(ex, st, fr, ev, s):
            k = ev[0]
            d = dict(s)
            if k == "branch":
                t, tr = unneg(ev[1], ev[2])
                u, utr = test_of(ev)
                if is_call(u, "compress_type", "ResponseCompressType") or has_ld(u, "_response_compress_type"):
                    d["none"] = not utr
                    return tuple(sorted(d.items(), key=str))
            if k == "call":
                x, recv, args, nid = short(ev[1]), ev[2], ev[3], ev[4]
                if ev[1].startswith("RpcMeta::set_"):
                    if d.get("meta done"):
                        ex.report(st, fr, nid, "the meta data is changed after it was written")
                    d[x[4:]] = args[0]
                    return tuple(sorted(d.items(), key=str))
                if x == "SerializeToZeroCopyStream":
                    if not d.get("meta done"):
                        d["meta done"] = True
                        if d.get("type") is None or const(d["type"]) != rtype:
                            ex.report(st, fr, nid, "the message is not marked as a response")
                        sid = d.get("sequence_id")
                        if sid is not None and narrow(sid, 64):
                            ex.report(st, fr, nid, "the sequence number is shortened: the response of another request is named")
                        if h is f:
                            if sid is None or not mentions(sid, at(f, 0)) or not (has_field(sid, "_sequence_id") or has_call(sid, "SequenceId")):
                                ex.report(st, fr, nid, "the response does not carry the sequence number of its request")
                            if d.get("failed") is None or const(d["failed"]) != 0:
                                ex.report(st, fr, nid, "a success is not marked as such")
                            ct = d.get("compress_type")
                            if ct is None or not mentions(ct, at(f, 0)) or not (has_field(ct, "_response_compress_type") or has_call(ct, "ResponseCompressType")):
                                ex.report(st, fr, nid, "the response does not name the compression the client expects")
                            if "error_code" in d and const(d["error_code"]) != 0:
                                ex.report(st, fr, nid, "a success carries an error code")
                        else:
                            if sid is None or not has_field(sid, "_req_meta") and not has_call(sid, "sequence_id", "SequenceId"):
                                ex.report(st, fr, nid, "the response does not carry the sequence number of its request")
                            if d.get("failed") is None or const(d["failed"]) != 1:
                                ex.report(st, fr, nid, "a failure is not marked as such")
                            if d.get("error_code") != p(g, 0):
                                ex.report(st, fr, nid, "the failure does not carry its error code")
                            if d.get("reason") is None or not mentions(d["reason"], p(g, 1)):
                                ex.report(st, fr, nid, "the failure does not carry its text")
                            if "compress_type" in d and const(d["compress_type"]) != 0:
                                ex.report(st, fr, nid, "a failure names a compression although it has no body")
                        return tuple(sorted(d.items(), key=str))
                    if h is g:
                        ex.report(st, fr, nid, "a failure carries a body")
                    if recv != p(f, 1):
                        ex.report(st, fr, nid, "another message than the response of the method is sent")
                    comp = has_call(args[0], "get_compressed_output_stream")
                    if comp:
                        q = [y for y in subterms(args[0]) if y and y[0] == "call" and short(y[1]) == "get_compressed_output_stream"][0]
                        a = q[3][1]
                        if d.get("none") is True:
                            ex.report(st, fr, nid, "the body is compressed although the response names no compression")
                        if not (is_call(unwrap(a), "compress_type", "ResponseCompressType") or has_field(a, "_response_compress_type")):
                            ex.report(st, fr, nid, "the body is compressed otherwise than the response names")
                    elif d.get("none") is not True:
                        ex.report(st, fr, nid, "the body is not compressed although the response names a compression")
                    d["body"] = True
                    return tuple(sorted(d.items(), key=str))
            if k == "ret" and fr.depth == 0:
                null = ev[1] == NULL or const(ev[1]) == 0
                if not null and not (d.get("meta done") and (h is g or d.get("body"))):
                    ex.report(st, fr, ev[2], "a response without meta data or body is returned")
            return s
        automaton(R, P, h, "S04.identity", h.name, (), step,
                  calls_named("set_type", "set_sequence_id", "set_failed", "set_compress_type", "set_error_code", "set_reason", "compress_type", "ResponseCompressType",
                              "SerializeToZeroCopyStream", "get_compressed_output_stream"), this_cls=h.cls, ident=h.key)
    # ---- HTTP
    PB = ["pb2json"]
    INT = calls_named("Print", "PrintRaw", "failed", "SwapOut", "operator<<", "pb2json", "SerializeAsString", "str", "size", "ByteCount", "SendSucceedResponse", "SendFailedResponse")
    def http(h, body_ok, instance, boundary, page=False):
        # state: printed header lines?, length term of each stream object, announced length, blank line, body printed, swaps, type
        def step(ex, st, fr, ev, s):
            lens, phase, ann, body, typ, failed, swaps, pb = s
            k = ev[0]
            if k == "branch":
                u, utr = test_of(ev)
                if is_call(u, "failed"):
                    return (lens, phase, ann, body, typ, utr, swaps, pb)
                t, tr = unneg(ev[1], ev[2])
                if t[0] == "eq" and is_ld(t[1], "_type") and const(t[2]) == P.enum_value("POST_PB"):
                    return (lens, phase, ann, body, typ, failed, swaps, tr)
            if k == "call":
                x, recv, args, nid = short(ev[1]), ev[2], ev[3], ev[4]
                if x in ("operator=", "assign") and recv and recv[0] == "L" and len(args) == 1:
                    return (frozenset(y for y in lens if y[0] != recv) | {(recv, args[0])}, phase, ann, body, typ, failed, swaps, pb)
                if x == "operator<<":
                    tgt = recv if recv else args[0]
                    v = args[0] if recv else args[1]
                    while tgt and tgt[0] == "call":
                        tgt = tgt[2] if tgt[2] else tgt[3][0]
                    return (lens | {(tgt, v)}, phase, ann, body, typ, failed, swaps, pb)
                if x == "Print":
                    txt = args[0][1] if args[0][0] == "str" else None
                    if txt is None:
                        ex.report(st, fr, nid, "text that is not a constant is interpreted as a template of the header")
                        return s
                    if phase == "body":
                        ex.report(st, fr, nid, "header lines follow the end of the header")
                        return s
                    if phase is None and not (txt.startswith("HTTP/1.1 ") or txt.startswith("$STATUS_LINE$")):
                        ex.report(st, fr, nid, "the response does not start with a status line")
                    if not txt.endswith("\r\n"):
                        ex.report(st, fr, nid, "a header line is not ended")
                    if "Content-Length:" in txt:
                        if ann is not None:
                            ex.report(st, fr, nid, "the length is announced twice")
                        src = args[2] if len(args) > 2 else None
                        if src is None or not is_call(src, "str"):
                            ex.report(st, fr, nid, "the announced length is not the length of the body")
                            ann = ("?",)
                        else:
                            vs = [v for t, v in lens if t == src[2]]
                            ann = vs[0] if len(vs) == 1 else ("?",)
                    if "Content-Type:" in txt:
                        typ = txt + " ".join(y[1] for a in args[1:] for y in subterms(a) if y and y[0] == "str")
                    ph = "body" if txt == "\r\n" or txt.endswith("\r\n\r\n") else "head"
                    return (lens, ph, ann, body, typ, failed, swaps, pb)
                if x == "PrintRaw":
                    if phase != "body":
                        ex.report(st, fr, nid, "the body is written before the end of the header")
                    if body is not None:
                        ex.report(st, fr, nid, "more than one body is written")
                    return (lens, phase, ann, args[0], typ, failed, swaps, pb)
                if x == "SwapOut":
                    return (lens, phase, ann, body, typ, failed, swaps + (recv,), pb)
                if x == "SendSucceedResponse" and page:
                    done(ex, st, fr, nid, s)
            if k == "ret" and fr.depth == 0 and not page:
                null = ev[1] == NULL or const(ev[1]) == 0
                if not null:
                    done(ex, st, fr, ev[2], s)
            return s
        def done(ex, st, fr, nid, s):
            lens, phase, ann, body, typ, failed, swaps, pb = s
            if failed is not False:
                ex.report(st, fr, nid, "a response that could not be written is sent")
            if phase != "body":
                ex.report(st, fr, nid, "a response without the end of its header is sent")
            if ann is None:
                ex.report(st, fr, nid, "a response without its length is sent")
            elif page:
                if not (has_ld(ann, "_write_bytes") or has_call(ann, "ByteCount")) or not has_field(ann, "HTTPResponse::content"):
                    ex.report(st, fr, nid, "the announced length is not the length of the page")
                if len(swaps) != 2 or has_field(swaps[0], "content") or not has_field(swaps[1], "content"):
                    ex.report(st, fr, nid, "the page does not consist of its header followed by its content")
            else:
                if not is_call(unwrap(ann), "size", "length") or body is None or unwrap(ann)[2] != body:
                    ex.report(st, fr, nid, "the announced length is not the length of the body that is sent")
                if body is not None:
                    body_ok(ex, st, fr, nid, s)
        automaton(R, P, h, "S04.http", instance, (frozenset(), None, None, None, None, None, (), None), step, INT, this_cls=h.cls, boundary=boundary, ident=h.key)
    f = P.fn("HTTPRpcRequest::AssembleSucceedResponse")
    wrote = {}
    def succ(ex, st, fr, nid, s):
        lens, phase, ann, body, typ, failed, swaps, pb = s
        if pb is None:
            ex.report(st, fr, nid, "the format of the response does not follow the format of the request")
        elif pb:
            for t, v in lens:
                if t == body and is_call(v, "SerializeAsString"):
                    body = v
            if not is_call(body, "SerializeAsString") or body[2] != p(f, 1):
                ex.report(st, fr, nid, "the body is not the response in the format of the request")
            if not typ or "application/protobuf" not in typ:
                ex.report(st, fr, nid, "the announced type is not the type of the body")
        else:
            if body[0] != "L":
                ex.report(st, fr, nid, "the body is not the response in the format of the request")
            if not typ or "application/json" not in typ:
                ex.report(st, fr, nid, "the announced type is not the type of the body")
    http(f, succ, f.name, ["pb2json"])
    # the JSON text is that of the response
    def step(ex, st, fr, ev, s):
        if ev[0] == "call" and short(ev[1]) == "pb2json":
            if ev[3][0] != p(f, 1):
                ex.report(st, fr, ev[4], "another message than the response of the method is sent")
            return ev[3][1]
        if ev[0] == "call" and short(ev[1]) in ("operator=", "assign") and ev[2] and ev[2][0] == "L" and any(is_call(a, "SerializeAsString") for a in ev[3]):
            return ev[2]
        if ev[0] == "call" and short(ev[1]) == "PrintRaw" and not is_call(ev[3][0], "SerializeAsString"):
            if s is None or ev[3][0] != s:
                ex.report(st, fr, ev[4], "the body is not the text of the response")
        return s
    automaton(R, P, f, "S04.http", f.name + " (text)", None, step, calls_named("pb2json", "PrintRaw", "SerializeAsString"), this_cls=f.cls, boundary=["pb2json"])
    g = P.fn("HTTPRpcRequest::AssembleFailedResponse")
    def fail(ex, st, fr, nid, s):
        lens, phase, ann, body, typ, failed, swaps, pb = s
        vs = [v for t, v in lens if is_call(body, "str") and t == body[2]]
        if not any(v == p(g, 0) or mentions(v, p(g, 0)) for v in vs):
            ex.report(st, fr, nid, "the error answer does not carry the error code")
        if not any(mentions(v, p(g, 1)) for v in vs):
            ex.report(st, fr, nid, "the error answer does not carry the text of the failure")
        if not typ or "application/json" not in typ:
            ex.report(st, fr, nid, "the announced type is not the type of the body")
    http(g, fail, g.name, [])
    h = P.fn("HTTPRpcRequest::SendResponse")
    http(h, None, h.name, [RR + "::SendSucceedResponse", RR + "::SendFailedResponse"], page=True)
