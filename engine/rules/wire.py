"""What comes from the wire: framing of received bytes, JSON documents,
compression, buffers, exceptions."""
from lib import *
import core
from rules.calls import where, const, at, subj
from rules.server import p, mentions, SB
from rules.frames import narrow

HDR = "RpcMessageHeader"


def lin(t, defs=()):
    """linear form of an integer term: {symbol: coefficient, 1: constant}"""
    t = unwrap(t)
    for a, l in defs:
        if a == t:
            return dict(l)
    if t[0] == "c" and isinstance(t[1], int):
        return {1: t[1]} if t[1] else {}
    if t[0] == "op" and t[1] in ("+", "-"):
        return ladd(lin(t[2], defs), lin(t[3], defs), 1 if t[1] == "+" else -1)
    return {t: 1}


def ladd(a, b, k=1):
    r = dict(a)
    for s, c in b.items():
        r[s] = r.get(s, 0) + k * c
        if not r[s]:
            del r[s]
    return r


def fz(l):
    return tuple(sorted(l.items(), key=str))


def hdr(t, f):
    """the content of header field f"""
    t = unwrap(t)
    return t[0] == "ld" and t[1][0] == "F" and t[1][2] == HDR + "::" + f


def hsub(l):
    """linear form with the header fields named"""
    r = {}
    for s, c in l.items():
        k = s
        if s != 1:
            for f in ("message_size", "meta_size", "data_size"):
                if hdr(s, f):
                    k = f
        r[k] = r.get(k, 0) + c
    return {k: v for k, v in r.items() if v}


def sizes(ev, s, defs=()):
    """facts about header sizes that a branch establishes"""
    t, tr = unneg(ev[1], ev[2])
    if t[0] not in ("lt", "eq"):
        return s
    d = hsub(ladd(lin(t[1], defs), lin(t[2], defs), -1))
    for f in ("message_size", "meta_size", "data_size"):
        for k in (1, -1):
            if set(d) <= {f, 1} and d.get(f) == k:
                c = d.get(1, 0)
                # k*f + c < 0   or == 0
                if t[0] == "lt":
                    lo = None
                    if k == 1 and not tr:
                        lo = -c           # f >= -c
                    if k == -1 and tr:
                        lo = c + 1        # f > c
                    if lo is not None and lo >= 0:
                        s = s | {(f, ">=0")}
                elif k * -c >= 0 and tr:
                    s = s | {(f, ">=0")}
    if t[0] == "eq" and tr and d in ({"message_size": 1, "meta_size": -1, "data_size": -1}, {"message_size": -1, "meta_size": 1, "data_size": 1}):
        s = s | {"sum"}
    return s


VALID = frozenset({"whole header", ("message_size", ">=0"), ("meta_size", ">=0"), ("data_size", ">=0"), "sum", "magic"})
HN = {"meta_size": "the size of the meta data", "data_size": "the size of the body", "message_size": "the size of the message"}


def missing(s):
    if "whole header" not in s:
        return "before it is complete"
    for f in ("message_size", "meta_size", "data_size"):
        if (f, ">=0") not in s:
            return "although %s may be negative" % HN[f]
    if "sum" not in s:
        return "although its sizes may contradict each other"
    if "magic" not in s:
        return "without looking at its magic"
    return None


def magic_test(ev):
    t, tr = unneg(ev[1], ev[2])
    u, utr = test_of(ev)
    if is_call(u, "CheckMagicString"):
        return utr
    if t[0] == "eq":
        for a, b in ((t[1], t[2]), (t[2], t[1])):
            if is_ld(unwrap(a), "magic_str_value") and (const(b) == int.from_bytes(b"SOFA", "little") or is_ld(unwrap(b), "magic_str_value")):
                return tr
    return None


def minof(t, want, defs=(), facts=frozenset()):
    """t is at most the linear form `want`: the minimum of that and something
    else, or a value that was compared with it"""
    t = unwrap(t)
    if is_call(t, "min"):
        return any(lin(a, defs) == want for a in t[3])
    d = ladd(lin(t, defs), want, -1)
    return not d or ("le", fz(d)) in facts


def compared(ev, defs=(), least=2):
    """a - b <= 0 for the two sides of a comparison, as a fact"""
    t, tr = unneg(ev[1], ev[2])
    if t[0] != "lt":
        return frozenset()
    a, b = lin(t[1], defs), lin(t[2], defs)
    d = ladd(a, b, -1) if tr else ladd(b, a, -1)
    if len([q for q in d if q != 1]) < least:
        return frozenset()
    out = {("le", fz(d))}
    if tr and d:
        # a < b for integers: a + 1 <= b, the constant is dropped when positive
        e = dict(d)
        out.add(("le", fz(ladd(e, {1: 1}))))
    return frozenset(out)


# ------------------------------------------------------------------ W01
def framing_rules(R, P):
    R.rule("W01.header", "the sizes in a received header are used only after the header is complete and its magic and sizes were found valid")
    R.rule("W01.cut", "a received message ends exactly where its header says: every byte belongs to one message, in order")
    client_framing(R, P)
    binary_parser(R, P)
    http_parser(R, P)
    server_framing(R, P)


def client_framing(R, P):
    keys = {f.key for f in P.fns.values() if f.cls == "RpcMessageStream" and any(n["k"] in ("call", "mcall") and short(n.get("n") or "") == "Append" for n in f.nodes)}
    fs = [f for f in P.fns.values() if f.key in keys]
    if not fs:
        raise Broken("the client streams do not collect received bytes")
    for f in fs:
        posl = ("L", f.key, 0)
        # facts, defs, base, used, complete?, count delta pending, hdr count pending, appended
        S0 = (frozenset(), (), None, (), "?", None, None, None)

        def value(st, f=f):
            return st.store.get(("L", f.key, f.params[0] if isinstance(f.params[0], int) else 0), p(f, 0))

        def step(ex, st, fr, ev, s):
            facts, defs, base, used, ident, cnt, hcnt, app = s
            k = ev[0]
            if k == "branch":
                t, tr = unneg(ev[1], ev[2])
                u, utr = test_of(ev)
                if is_ld(u, "_receiving_header_identified") and ident == "?":
                    return (VALID if utr else facts, defs, base, used, utr, cnt, hcnt, app)
                m = magic_test(ev)
                if m is not None:
                    return (facts | {"magic"} if m else facts, defs, base, used, ident, cnt, hcnt, app)
                n = sizes(ev, facts) | frozenset(x for x in compared(ev, (), 1) if any(q == 1 and -24 <= c <= -23 or q != 1 and is_ld(q, "_received_header_size") for q, c in x[1]))
                if t[0] == "lt" and any(q != 1 and (q in defs or is_ld(q, "_received_header_size")) for q in lin(t[1])) and const(t[2]) == 24 and not tr:
                    n = n | {"whole header"}
                if t[0] == "eq" and (t[1] in defs or is_ld(t[1], "_received_header_size")) and const(t[2]) == 24 and tr:
                    n = n | {"whole header"}
                if t[0] == "lt":
                    d = hsub(ladd(lin(t[1]), lin(t[2]), -1))
                    # received + size < message_size ?
                    if abs(d.get("message_size", 0)) == 1 and any(q not in (1, "message_size") and not has_field(q, "_received_message_size") for q in d) and not any(x in d for x in ("meta_size", "data_size")) \
                            and (any(q != 1 and has_field(q, "_received_message_size") for q in d) or "no bytes" in facts):
                        c = d.get(1, 0)
                        if d["message_size"] == -1:
                            fact = ("short" if c >= 0 else None) if tr else ("whole" if c <= 0 else None)
                        else:
                            fact = ("whole" if c >= -1 else None) if tr else ("short" if c <= -1 else None)
                        n = (n - {"short", "whole"}) | ({fact} if fact else frozenset())
                return (n, defs, base, used, ident, cnt, hcnt, app)
            if k == "write" and ev[1]:
                loc, v, nid = ev[1], ev[2], ev[4] if len(ev) > 4 else None
                if locis(loc, "_receiving_header_identified"):
                    if const(v) == 1:
                        m = missing(facts)
                        if m:
                            ex.report(st, fr, nid, "a received header is taken as valid %s" % m)
                        return (VALID | (facts & {"no bytes"}), defs, base, used, True, cnt, hcnt, app)
                    return (facts, defs, base, used, False, cnt, hcnt, app)
                if locis(loc, "_received_message_size"):
                    l = lin(v)
                    if const(v) == 0:
                        return (facts | {"no bytes"}, defs, base, used, ident, None, hcnt, None)
                    if cnt is None:
                        ex.report(st, fr, nid, "bytes are counted as received that were not taken")
                    elif not any(l == ladd({q: 1}, dict(cnt)) for q in l if q != 1 and has_field(q, "_received_message_size")) and not (l == dict(cnt) and "no bytes" in facts):
                        ex.report(st, fr, nid, "another number of bytes is counted as received than was taken")
                    return (facts - {"no bytes"}, defs, base, used, ident, None, hcnt, app)
                if locis(loc, "_received_header_size"):
                    l = lin(v)
                    if const(v) == 0:
                        return (facts, (), base, used, ident, cnt, None, app)
                    rest = ladd(l, dict(hcnt or ()), -1)
                    if hcnt is None or not (not rest or list(rest.values()) == [1] and all(q != 1 and has_field(q, "_received_header_size") for q in rest)):
                        ex.report(st, fr, nid, "another number of header bytes is counted than was copied")
                    now = st.store.get(loc)
                    if now is not None:
                        defs = (now,)
                    return (facts, defs, base, used, ident, cnt, None, app)
                if loc == ("L", f.key, f.params[0] if isinstance(f.params[0], int) else 0) and fr.depth == 0:
                    if base is not None:
                        want = ladd(dict(base), dict(used))
                        if lin(v, ()) != want:
                            ex.report(st, fr, nid, "the position in the received data moves by another amount than was used")
                    return (facts, defs, None, (), ident, cnt, hcnt, app)
                return (facts, defs, base, used, ident, cnt, hcnt, app)
            if k == "call":
                x, args, nid = short(ev[1]), ev[3], ev[4]
                if x in ("memcpy", "memmove") and has_field(args[0], "_receiving_header"):
                    src, n = args[1], args[2]
                    b, u = (base, used) if base is not None else (fz(lin(value(st), ())), ())
                    if lin(src, ()) != ladd(dict(b), dict(u)):
                        ex.report(st, fr, nid, "the header is taken from another position than the first unused byte")
                    off = ladd(lin(args[0], ()), lin(("F", ("this",), "RpcMessageStream::_receiving_header"), ()), -1)
                    rest = ladd({1: 24}, off, -1)
                    if not minof(n, rest, (), facts):
                        ex.report(st, fr, nid, "more bytes than the rest of the header may be copied into it")
                    if off and not any(q != 1 and has_field(q, "_received_header_size") for q in off):
                        ex.report(st, fr, nid, "the header is not continued where it was interrupted")
                    return (facts & {"no bytes"}, defs, b, fz(ladd(dict(u), lin(n, ()))), ident, cnt, fz(lin(n, ())), app)
                if x == "Append" and len(args) == 1:
                    return s
                if ev[1].endswith("BufHandle::{ctor}") or (x == "{ctor}" and "BufHandle" in ev[1]):
                    n, off = args[1], args[2]
                    m = missing(facts)
                    if m:
                        ex.report(st, fr, nid, "bytes are added to a message %s" % m)
                    b, u = (base, used) if base is not None else (fz(lin(value(st), ())), ())
                    want = ladd(ladd(dict(b), dict(u)), lin(args[0], ()), -1)
                    if lin(off, ()) != want:
                        ex.report(st, fr, nid, "a message is continued with other bytes than the first unused ones")
                    l = lin(n, ())
                    h = hsub(l)
                    rest = h.get("message_size") == 1 and len(h) <= 2 and all(q == "message_size" or has_field(q, "_received_message_size") and h[q] == -1 for q in h if q != 1) and 1 not in h
                    if rest and "whole" not in facts:
                        ex.report(st, fr, nid, "the rest of a message is taken although it may not have arrived")
                    if not rest and "short" not in facts:
                        ex.report(st, fr, nid, "more bytes than belong to a message may be added to it")
                    return (facts, defs, b, fz(ladd(dict(u), l)), ident, fz(l), hcnt, "rest" if rest else "part")
                if x in ("push_back", "emplace_back") and args and (ev[2] == p(f, 2) or mentions(ev[2] or ("x",), p(f, 2))):
                    m = missing(facts)
                    if m:
                        ex.report(st, fr, nid, "a message is delivered %s" % m)
                    if "whole" not in facts:
                        ex.report(st, fr, nid, "a message is delivered before all of it arrived")
                    if app == "part":
                        ex.report(st, fr, nid, "a message is delivered without its last bytes")
                    if app is None:
                        # nothing was missing any more: known from the sizes
                        pass
                    return (facts | {"delivered"}, defs, base, used, ident, None, hcnt, app)
                if x == "{ctor}" and "ReceivedItem" in ev[1]:
                    for a in args[1:3]:
                        pass
                    if len(args) >= 3 and (not hdr(args[1], "meta_size") or not hdr(args[2], "data_size")):
                        ex.report(st, fr, nid, "a message is delivered with other sizes than its header names")
                    if len(args) >= 3 and (narrow(args[1], 32) or narrow(args[2], 64)):
                        ex.report(st, fr, nid, "the sizes of a message are shortened")
                return s
            return s

        def fin(ex, st, fr, s):
            if s[5] is not None and "delivered" not in s[0]:
                ex.report(st, fr, None, "bytes are added to a message without being counted")
        automaton(R, P, f, "W01.cut", f.name, S0, step,
                  any_of(calls_named("Append", "memcpy", "memmove", "push_back", "emplace_back", "CheckMagicString"), writes_field("_receiving_header_identified", "_received_message_size", "_received_header_size")),
                  fin, this_cls="RpcClientStream", boundary=["ReadBuffer::Append"], ident=f.key)


def binary_parser(R, P):
    f = P.fn("BinaryRpcRequestParser::Parse")
    CB = ("_bytes_recved",)

    # facts, defs, taken (not yet reported), counted?, last taken, reported
    def step(ex, st, fr, ev, s):
        facts, defs, taken, last, rep = s
        k = ev[0]
        if k == "branch":
            t, tr = unneg(ev[1], ev[2])
            n = facts | compared(ev, defs, 1)
            if t[0] in ("eq", "lt"):
                d = hsub(ladd(lin(t[1], defs), lin(t[2], defs), -1))
                if t[0] == "eq" and d == {"message_size": 1} and tr:
                    n = n | {"empty"}
                if t[0] == "eq" and set(d) == {"message_size", "done"} and d["message_size"] == -d["done"] and tr:
                    n = n | {"body"}
                def rem(c):
                    e = hsub(c)
                    return e.get("message_size") == 1 and all(q in ("message_size", 1) or has_field(q, "_bytes_recved") or q == "done" for q in e) and e.get(1, 0) <= 0
                # lower and upper bound of the remaining bytes
                l1, l2 = lin(t[1], defs), lin(t[2], defs)
                if t[0] == "lt":
                    if rem(l1) and set(l2) <= {1} and l2.get(1, 0) <= 1 and not tr:
                        n = n | {"positive"} if l2.get(1, 0) == 1 else n
                    if rem(l2) and set(l1) <= {1} and l1.get(1, 0) >= 0 and tr:
                        n = n | {"positive"}
                    if rem(l2) and bound(l1) and not tr:
                        n = n | {"bounded"}
                    if rem(l1) and bound(l2) and tr:
                        n = n | {"bounded"}
                if t[0] == "lt" and not tr and d == {"done": 1, "message_size": -1}:
                    n = n | {"body"}
                if t[0] == "lt" and tr and d == {"message_size": 1, "done": -1, 1: -1}:
                    n = n | {"body"}
                # what was taken last completed the header
                full = ladd(lin(t[1], defs), lin(t[2], defs), -1)
                for x in facts:
                    if isinstance(x, tuple) and x[0] == "recv":
                        e = ladd(full, dict(x[1]), -1)
                        if e == {1: -24} and (t[0] == "lt" and not tr or t[0] == "eq" and tr):
                            n = n | {"header", "whole header"}
                        e = ladd(full, dict(x[1]), 1)
                        if e == {1: 24} and t[0] == "eq" and tr:
                            n = n | {"header", "whole header"}
                if t[0] == "lt" and set(d) == {"done", 1} and d["done"] == 1 and not tr and -d[1] == 24:
                    n = n | {"header", "whole header"}
                if t[0] == "eq" and set(d) == {"done", 1} and abs(d[1]) == 24 and tr:
                    n = n | {"header", "whole header"}
            u, utr = test_of(ev)
            if is_call(u, "ParseFromBoundedZeroCopyStream") and utr:
                n = n | {"meta"}
            return (n, defs, taken, last, rep)
        if k == "call":
            x, args, nid = short(ev[1]), ev[3], ev[4]
            if x in ("memcpy", "memmove"):
                off = ladd(lin(args[0], defs), {}, 1)
                c = [q for q in off if q != 1 and has_field(q, "_bytes_recved") and not has_field(q, "_req_header")]
                rest = ladd({1: 24}, {q: 1 for q in c}, -1)
                if "header" in facts or not minof(args[2], rest, defs, facts):
                    ex.report(st, fr, nid, "more bytes than the rest of the header may be copied into it")
                avail(ex, st, fr, nid, args[2], defs, taken, facts)
                if len(c) != 1:
                    ex.report(st, fr, nid, "the header is not continued where it was interrupted")
                src(ex, st, fr, nid, args[1], None, taken, rep)
                l = fz(lin(args[2], defs))
                return (facts, defs, fz(ladd(dict(taken), dict(l))), l, rep)
            if ev[1].endswith("BufHandle::{ctor}") or (x == "{ctor}" and "BufHandle" in ev[1]):
                n = args[1]
                if "header" in facts:
                    ex.report(st, fr, nid, "the bytes of the header are counted as part of the request")
                if "positive" not in facts or "bounded" not in facts:
                    ex.report(st, fr, nid, "bytes are added to a request without comparing its size with %s" % ("the limit" if "positive" in facts else "0"))
                def own(l):
                    h = hsub(l)
                    return h.get("message_size") == 1 and all(q == "message_size" or q == "done" or q != 1 and has_field(q, "_bytes_recved") for q in h)
                un = unwrap(n)
                if is_call(un, "min"):
                    within = any(own(lin(a, defs)) for a in un[3])
                else:
                    ln = lin(un, defs)
                    within = own(ln) or any(x[0] == "le" and own(ladd(ln, dict(x[1]), -1)) for x in facts if isinstance(x, tuple))
                if not within:
                    ex.report(st, fr, nid, "more bytes than belong to a request may be added to it")
                src(ex, st, fr, nid, args[0], args[2], taken, rep)
                avail(ex, st, fr, nid, n, defs, taken, facts)
                l = fz(lin(n, defs))
                return (facts, defs, fz(ladd(dict(taken), dict(l))), l, rep)
            if x == "ParseFromBoundedZeroCopyStream":
                if "body" not in facts:
                    ex.report(st, fr, nid, "the meta data of a request is parsed before the request is complete")
                if not has_field(args[0], "_req_body") or not hdr(args[1], "meta_size"):
                    ex.report(st, fr, nid, "the meta data is not the part of the request its header names")
            return s
        if k == "write" and ev[1]:
            loc, v, nid = ev[1], ev[2], ev[4] if len(ev) > 4 else None
            now = st.store.get(loc)
            if locis(loc, "_bytes_recved"):
                if const(v) == 0:
                    if "header" not in facts:
                        ex.report(st, fr, nid, "the bytes of the header are forgotten before it is complete")
                    return (frozenset(x for x in facts if x != "header" and not isinstance(x, tuple)), tuple(x for x in defs if dict(x[1]) != {"done": 1}), taken, None, rep)
                l = lin(v, defs)
                rest = ladd(l, dict(last or ()), -1)
                if last is None or rest and not (len(rest) == 1 and list(rest.values()) == [1] and all(q == "done" or q != 1 and has_field(q, "_bytes_recved") for q in rest)):
                    ex.report(st, fr, nid, "another number of bytes is counted as received than was taken")
                defs = tuple(x for x in defs if x[0] != now) + (((now, (("done", 1),)),) if now is not None else ())
                facts = frozenset(x for x in facts if not (isinstance(x, tuple) and x[0] == "recv"))
                if "header" not in facts:
                    facts = facts | ({"header", "whole header"} if l == {1: 24} else {("recv", fz(l))})
                return (facts, defs[-8:], taken, None, rep)
            if loc == p(f, 3):
                l = lin(v, defs)
                if now is not None and now[0] == "upd":
                    defs = (tuple(x for x in defs if x[0] != now) + ((now, fz(l)),))[-8:]
                return (facts, defs, taken, last, fz(l))
            if locis(loc, "_state") and const(v) == P.enum_value("PS_MSG_BODY") and "whole header" not in facts:
                ex.report(st, fr, nid, "the body of a request is expected before its header is complete")
            if locis(loc, "_state"):
                facts = facts | {"to body"} if const(v) == P.enum_value("PS_MSG_BODY") else facts - {"to body"}
            if now is not None and now[0] == "upd":
                defs = (tuple(x for x in defs if x[0] != now) + ((now, fz(lin(v, defs))),))[-8:]
            return (facts, defs, taken, last, rep)
        if k == "ret" and fr.depth == 0:
            c = const(ev[1])
            if c is None or c < 0:
                return s
            if rep is not None and dict(rep) != dict(taken):
                ex.report(st, fr, ev[2], "another number of bytes is reported as used than was used: the next request starts at the wrong byte")
            if {"header", "to body"} <= facts:
                ex.report(st, fr, ev[2], "the bytes of the header are counted as part of the request")
            if last is not None:
                ex.report(st, fr, ev[2], "bytes are taken without being counted as received")
            if c > 0 and not ("empty" in facts or ("body" in facts and "meta" in facts)):
                ex.report(st, fr, ev[2], "a request is complete before all of it arrived and its meta data was parsed")
        return s

    def avail(ex, st, fr, nid, n, defs, taken, facts):
        if not minof(n, ladd({p(f, 1): 1}, dict(taken), -1), defs, facts):
            ex.report(st, fr, nid, "more bytes may be used than were received")

    def bound(l):
        if set(l) <= {1}:
            return 0 < l.get(1, 0) <= (64 << 20) + 4096
        return len(l) == 1 and list(l.values()) == [1] and contains(list(l)[0], lambda y: "MAX" in str(y[-1]) if y and y[0] in ("G", "F", "g") else False)

    def src(ex, st, fr, nid, base, off, taken, rep):
        l = lin(base, ())
        if off is not None:
            l = ladd(l, lin(off, ()))
        want = ladd({p(f, 0): 1, p(f, 2): 1}, dict(taken))
        cur = {}
        for q, c in l.items():
            cur[q] = c
        if cur == want:
            return
        # the offset was advanced through an update
        got = {}
        for q, c in l.items():
            d = dict(DEFS.get(q, ((q, 1),)))
            got = ladd(got, d, c)
        if got != want and not any(q != 1 and q[0] in ("upd", "old", "stale") for q in l):
            ex.report(st, fr, nid, "other bytes are taken than the first unused ones")
    DEFS = {}
    automaton(R, P, f, "W01.cut", f.name, (frozenset(), (), (), None, None), step,
              any_of(calls_named("Append", "memcpy", "memmove", "ParseFromBoundedZeroCopyStream"), writes_field("_bytes_recved")),
              this_cls=f.cls, boundary=["ReadBuffer::Append"], ident=f.key)
    c = P.fn("BinaryRpcRequestParser::CheckMagicString")
    def step(ex, st, fr, ev, s):
        if ev[0] == "branch":
            t, tr = unneg(ev[1], ev[2])
            if t[0] == "eq" and contains(t, lambda y: y == p(c, 0)) and tr:
                return s | {"magic"}
        if ev[0] == "write" and ev[1]:
            if locis(ev[1], "_state") and const(ev[2]) == P.enum_value("PS_MSG_HEADER") and "magic" not in s:
                ex.report(st, fr, ev[4], "a request is recognised without the magic of the protocol")
            if locis(ev[1], "_bytes_recved") and const(ev[2]) != 4:
                ex.report(st, fr, ev[4], "the bytes of the magic are not counted as received")
            if locis(ev[1], "_bytes_recved"):
                return s | {"count"}
        if ev[0] == "ret" and fr.depth == 0:
            b = retbool(ex, st, ev[1])
            if b is not False and not {"magic", "count"} <= s:
                ex.report(st, fr, ev[2], "a request is recognised without the magic of the protocol")
        return s
    automaton(R, P, c, "W01.header", c.name, frozenset(), step, any_of(writes_field("_state", "_bytes_recved")), this_cls=c.cls)


def http_parser(R, P):
    f = P.fn("HTTPRpcRequestParser::Parse")
    g = P.fn("HTTPRpcRequestParser::ParseInternal")

    def remain(l):
        return len(l) == 2 and any(q != 1 and has_field(q, "_content_length") and c == 1 for q, c in l.items()) and any(q != 1 and is_call(q, "TotalCount") and c == -1 for q, c in l.items())

    def young(t):
        if isinstance(t, tuple):
            if len(t) == 2 and t[0] == "upd" and isinstance(t[1], tuple) and t[1][:1] == ("old",):
                return young(("upd", t[1][1]))
            return tuple(young(x) for x in t)
        return t

    def step(ex, st, fr, ev, s):
        facts, rep, taken, pos, defs = s
        k = ev[0]
        if k == "branch":
            t, tr = unneg(ev[1], ev[2])
            facts = facts | compared(ev, defs) | compared(ev)
            if pos is not None and pos[0] in ("past", "went") and not has_call(t, "ParseInternal"):
                pos = None
            if t[0] in ("eq", "lt"):
                d = ladd(lin(t[1]), lin(t[2]), -1)
                e = {q: -c for q, c in d.items()}
                if t[0] == "eq" and (remain(d) or remain(e)) and tr:
                    return (facts | {"complete"}, rep, taken, pos, defs)
                # remain < 1
                m = ladd(d, {1: d.get(1, 0)}, -1)
                if t[0] == "lt" and remain(m) and d.get(1, 0) == -1 and tr:
                    return (facts | {"complete"}, rep, taken, pos, defs)
                if t[0] == "eq" and is_ld(t[1], "_state") and const(t[2]) == P.enum_value("PS_BODY"):
                    return (facts | {"in body"} if tr else facts - {"in body"}, rep, taken, pos, defs)
            return (facts, rep, taken, pos, defs)
        if k == "call":
            x, args, nid = short(ev[1]), ev[3], ev[4]
            if x == "ParseInternal":
                a = unwrap(args[0])
                if a[0] != "ld":
                    return (facts | {"looked"}, rep, taken, None, defs)
                if pos is not None and pos[0] not in ("past", "went"):
                    ex.report(st, fr, nid, "a byte of the header is used twice")
                # moved on in the argument, before the byte is used
                went = pos is not None and pos[0] == "went" and ladd(dict(pos[1]), lin(young(a[1]), ()), -1) == {1: 1}
                return (facts | {"looked"}, rep, taken, ("past", pos[2]) if went else a[1], defs)
            if ev[1].endswith("BufHandle::{ctor}") or (x == "{ctor}" and "BufHandle" in ev[1]):
                if "in body" not in facts:
                    ex.report(st, fr, nid, "bytes are added to the body of a request before its header ended")
                n = unwrap(args[1])
                if is_call(n, "min"):
                    within = any(remain(lin(a)) for a in n[3])
                else:
                    ln = lin(n)
                    within = remain(ln) or any(x[0] == "le" and remain(ladd(ln, dict(x[1]), -1)) for x in facts if isinstance(x, tuple))
                if not within:
                    ex.report(st, fr, nid, "more bytes than its length says are added to the body of a request")
                head = dict(rep or ())
                if not minof(n, ladd({p(f, 1): 1}, head, -1), defs, facts):
                    ex.report(st, fr, nid, "more bytes may be used than were received")
                if ladd(lin(args[0], defs), lin(args[2], defs)) != ladd({p(f, 0): 1, p(f, 2): 1}, head):
                    ex.report(st, fr, nid, "other bytes are taken than the first unused ones")
                return (facts - {"complete"}, rep, fz(ladd(dict(taken), lin(n, defs))), pos, defs)
        if k in ("write", "advance") and ev[1]:
            now = st.store.get(ev[1])
            if ev[1] == p(f, 3) and k == "write":
                l = lin(ev[2], defs)
                old = dict(rep or ())
                if not taken and set(l) - {1} and not l == old:
                    # the end of what was looked at
                    at = None if pos is None or pos[0] == "went" else ladd(dict(pos[1]), {1: -1}) if pos[0] == "past" else lin(pos, ())
                    if at is not None and ladd(ladd(l, {p(f, 0): 1, p(f, 2): 1}), at, -1) != {1: 1}:
                        ex.report(st, fr, ev[4], "the end of the header is not counted as used")
                if taken and l != ladd(dict(rep or ()), dict(taken)):
                    ex.report(st, fr, ev[4], "another number of bytes is reported as used than was used: the next request starts at the wrong byte")
                if now is not None and now[0] == "upd":
                    defs = (tuple(x for x in defs if x[0] != now) + ((now, fz(l)),))[-6:]
                return (facts, fz(l), (), None, defs)
            v = ev[2]
            if v and (pos is None or pos[0] in ("past", "went")) and ev[1][0] == "L" and contains(v, lambda y: y[0] == "upd" or y == p(f, 0)):
                if pos is None or pos[0] == "went":
                    pos = ("went", fz(lin(young(v), ())), fz(lin(now if now is not None else v, ())))
            elif pos is not None and pos[0] not in ("past", "went") and v and ladd(lin(v, ()), lin(pos, ()), -1) == {1: 1}:
                pos = None
            if now is not None and now[0] == "upd" and k == "write":
                if unwrap(v) != now:
                    l = fz(lin(v, defs))
                    defs = tuple(x for x in defs if x[0] != now)
                    if contains(v, lambda y: y[0] == "p"):
                        defs = (defs + ((now, l),))[-6:]
            return (facts, rep, taken, pos, defs)
        if k == "ret" and fr.depth == 0:
            c = const(ev[1])
            if c is None or c < 0:
                return s
            if taken:
                ex.report(st, fr, ev[2], "another number of bytes is reported as used than was used: the next request starts at the wrong byte")
            if c > 0 and "complete" not in facts:
                ex.report(st, fr, ev[2], "a request is complete before its body arrived")
        return s
    automaton(R, P, f, "W01.cut", f.name, (frozenset(), None, (), None, ()), step, calls_named("Append", "ParseInternal", "TotalCount"), this_cls=f.cls,
              boundary=[g.name, "ReadBuffer::Append", "ReadBuffer::TotalCount"], ident=f.key)
    NUM = ("strtoll", "strtol", "strtoull", "strtoul", "atoi", "atol", "atoll", "stoll", "lexical_cast", "sscanf")

    def step(ex, st, fr, ev, s):
        facts, val = s
        k = ev[0]
        if k == "call" and short(ev[1]) in NUM:
            if short(ev[1]) not in ("strtoll", "strtoull", "strtol", "strtoul"):
                ex.report(st, fr, ev[4], "the length of a body is read without noticing text that is not a number")
            return (frozenset(), ev[5] if len(ev) > 5 else None)
        if k == "write" and ev[1] and locis(ev[1], "_content_length"):
            if narrow(ev[2], 64):
                ex.report(st, fr, ev[4], "the length of a body is shortened")
            return s
        if k == "branch" and val is not None:
            t, tr = unneg(ev[1], ev[2])
            def isval(x):
                x = unwrap(x)
                return x == val or mentions(x, val) or is_ld(x, "_content_length")
            if t[0] == "lt" and isval(t[1]) and const(t[2]) is not None and const(t[2]) <= 0 and not tr:
                return (facts | {"positive"}, val)
            if t[0] == "lt" and isval(t[2]) and const(t[1]) is not None and const(t[1]) >= -1 and tr:
                return (facts | {"positive"}, val)
            u, utr = test_of(ev)
            if t[0] == "eq" and const(t[2]) == 0 and t[1][0] == "ld" and t[1][1][0] != "F" and not isval(t[1]):
                return (facts | {"end"} if tr else facts, val)
            if t[0] == "eq" and tr and unwrap(t[1])[0] in ("ld",) and const(t[2]) == 0:
                return (facts | {"end"}, val)
        if k == "ret" and fr.depth == 0 and val is not None:
            c = const(ev[1])
            if c is None or c >= 0:
                if "positive" not in facts:
                    ex.report(st, fr, ev[2], "a request with a negative length is accepted")
                if "end" not in facts:
                    ex.report(st, fr, ev[2], "a length that is not a number is accepted")
        return s
    automaton(R, P, g, "W01.header", g.name, (frozenset(), None), step, any_of(calls_named(*NUM), writes_field("_content_length")), this_cls=g.cls, boundary=["HTTPRpcRequest::ParsePath"], ident=g.key)


def server_framing(R, P):
    for f in P.all("RpcServerMessageStream::split_and_process_message"):
        def value(st):
            return st.store.get(("L", f.key, f.params[0] if isinstance(f.params[0], int) else 0), p(f, 0))
        DL, SL = (("L", f.key, f.params[i] if isinstance(f.params[i], int) else i) for i in (0, 1))
        def now(st):
            return (fz(lin(value(st))), fz(lin(st.store.get(SL, p(f, 1)))))
        def step(ex, st, fr, ev, s):
            ret, base, used, fresh, got, chosen = s
            k = ev[0]
            if k == "branch":
                t, tr = unneg(ev[1], ev[2])
                if t[0] in ("lt", "eq"):
                    a, b = unwrap(t[1]), unwrap(t[2])
                    if is_call(a, "Parse"):
                        c = const(b)
                        if t[0] == "eq" and c == 0:
                            return ("more" if tr else "no more", base, used, fresh, got, chosen)
                        if t[0] == "lt" and c == 0:
                            return ("bad" if tr else ("done" if ret == "no more" else "good"), base, used, fresh, got, chosen)
                        if t[0] == "lt" and c == 1:
                            return (("bad" if ret == "no more" else "stop") if tr else "done", base, used, fresh, got, chosen)
                    if is_call(b, "Parse") and t[0] == "lt" and const(a) == 0:
                        return ("done" if tr else "stop", base, used, fresh, got, chosen)
                u, utr = test_of(ev)
                if is_call(u, "choose_rpc_request_parser"):
                    return (ret, base, used, fresh, got, utr)
                return s
            if k == "call":
                x, args, nid = short(ev[1]), ev[3], ev[4]
                if x in ("memcpy", "memmove") and has_field(args[0], "_magic_string"):
                    l = lin(args[1])
                    if used:
                        ex.report(st, fr, nid, "bytes are used twice")
                    if l != lin(value(st)):
                        ex.report(st, fr, nid, "the start of a request is taken from another position than the first unused byte")
                    off = {q: c for q, c in lin(args[0]).items() if q != 1 and has_field(q, "_magic_string_recved_bytes")}
                    if not minof(args[2], ladd({1: 4}, off, -1)) and lin(args[2]) != ladd({1: 4}, off, -1):
                        ex.report(st, fr, nid, "more bytes than the start of a request may be copied into it")
                    return (ret, now(st), fz(lin(args[2])), fresh, got, None)
                if x == "Parse" and "Parser" in ev[1]:
                    if used:
                        ex.report(st, fr, nid, "a request is parsed from bytes that were used before")
                    want = ladd(lin(value(st)), lin(args[0]), -1)
                    if lin(args[2]) != want:
                        ex.report(st, fr, nid, "a request is continued with other bytes than the first unused ones")
                    return (None, now(st), (("parsed", args[3]),), fresh, got, chosen)
                if x == "GetRequest":
                    if ret != "done":
                        ex.report(st, fr, nid, "a request is taken before it is complete")
                    return (ret, base, used, fresh, ev[5] if len(ev) > 5 else True, chosen)
                if x in ("push_back", "emplace_back") and mentions(ev[2] or ("x",), p(f, 2)):
                    if not got or not any(mentions(a, got) for a in args):
                        ex.report(st, fr, nid, "another request is delivered than was received")
                    if got and ret == "delivered":
                        ex.report(st, fr, nid, "a request is delivered twice")
                    return ("delivered", base, used, True, got, chosen)
                if x in ("Reset", "reset_receiving_env"):
                    return (ret, base, used, False, got, chosen)
            if k == "write" and fr.depth == 0 and ev[1] in (DL, SL):
                d = ev[1] == DL
                if not base or (base[0] if d else base[1]) is None:
                    ex.report(st, fr, ev[4], "bytes are skipped" if d else "the number of bytes left is wrong")
                    return s
                amount = dict(used)
                if "parsed" in amount:
                    amount = lin(st.store.get(amount["parsed"], amount["parsed"]))
                if lin(ev[2]) != ladd(dict(base[0] if d else base[1]), amount, 1 if d else -1):
                    ex.report(st, fr, ev[4], "the position in the received data moves by another amount than was used" if d else "the number of bytes left is wrong")
                base = (None, base[1]) if d else (base[0], None)
                if base == (None, None):
                    base, used = None, ()
                return (ret, base, used, fresh, got, chosen)
            if k == "ret" and fr.depth == 0:
                b = retbool(ex, st, ev[1])
                rt, rtr = unneg(ev[1], True)
                rt = unwrap(rt)
                if ret == "stop" and rt[0] == "eq" and rtr and is_call(unwrap(rt[1]), "Parse") and const(rt[2]) == 0:
                    # the answer is whether more bytes are needed
                    return s
                if b is not False and ret in ("bad", "stop"):
                    ex.report(st, fr, ev[2], "a request that is not well formed does not end its connection")
                if b is not False and chosen is False:
                    ex.report(st, fr, ev[2], "a request of no known protocol does not end its connection")
                if b is False and chosen is not False and ret in ("more", "delivered"):
                    ex.report(st, fr, ev[2], "a valid request ends its connection")
                if fresh and ret == "delivered":
                    ex.report(st, fr, ev[2], "the next request is not expected after a complete one")
            return s
        automaton(R, P, f, "W01.cut", f.name, (None, None, (), False, None, None), step,
                  calls_named("Parse", "GetRequest", "push_back", "emplace_back", "memcpy", "Reset", "reset_receiving_env", "choose_rpc_request_parser"),
                  this_cls="RpcServerStream", boundary=["RpcServerMessageStream::choose_rpc_request_parser", "BinaryRpcRequestParser::Parse", "HTTPRpcRequestParser::Parse", "RpcRequestParser::Parse"], ident=f.key)
