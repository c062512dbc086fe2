"""Server side: answering, dispatch, ownership of request objects, identity of
responses, overdue requests, connections, registries, builtin services."""
from lib import *
import core
from rules.calls import where, const, at, subj, bound_target, loop_test

RR = "RpcRequest"
SEND = ("SendFailedResponse", "SendSucceedResponse", "SendResponse")
SB = [RR + "::SendFailedResponse", RR + "::SendSucceedResponse", RR + "::CallMethod", RR + "::OnCallMethodDone",
      "HTTPRpcRequest::SendResponse", "WebService::RoutePage", RR + "::AssembleFailedResponse", RR + "::AssembleSucceedResponse",
      "BinaryRpcRequest::AssembleFailedResponse", "BinaryRpcRequest::AssembleSucceedResponse",
      "HTTPRpcRequest::AssembleFailedResponse", "HTTPRpcRequest::AssembleSucceedResponse",
      "RpcServerStream::send_response", "RpcServerMessageStream::async_send_message", RR + "::FindMethodBoard",
      RR + "::ParseMethodFullName", "HTTPRpcRequest::RenderResponse", "jsonobject2pb", "pb2json",
      "RpcRequest::ProcessRequest", "BinaryRpcRequest::ProcessRequest", "HTTPRpcRequest::ProcessRequest"]
PARSE_ALL = ("ParseFromZeroCopyStream", "ParseFromString", "ParseFromArray", "ParseFromCodedStream", "ParseFromBoundedZeroCopyStream")
PARSE_BAD = ("ParsePartialFromZeroCopyStream", "ParsePartialFromString", "ParsePartialFromArray", "MergeFromString",
             "MergePartialFromCodedStream", "ParsePartialFromCodedStream", "MergeFromCodedStream")


def minus(name):
    return [b for b in SB if b != name]


def overriders(P, name, base=RR):
    return sorted((f for f in P.fns.values() if short(f.name) == name and f.cls and (P.is_a(f.cls, base)) and f.cls != base), key=lambda f: f.key)


def p(f, i):
    return ("p", f.key, i)


def ptype(f, i):
    x = f.params[i]
    return x.get("t", "") if isinstance(x, dict) else str(x)


def overload(P, name, n, has=None):
    """the overload with n parameters (and a parameter type containing `has`)"""
    c = [f for f in P.all(name) if len(f.params) == n and (has is None or has in f.key)]
    if not c:
        raise Broken("no overload %s/%d %s" % (name, n, has or ""))
    return c[0]


def mentions(t, x):
    return contains(t, lambda y: y == x)


def limit_of(x):
    """the time limit of a request, in whatever unit"""
    x = unwrap(x)
    if x[0] == "op" and x[1] == "*":
        for a, b in ((x[2], x[3]), (x[3], x[2])):
            if isinstance(const(a), int) and const(a) > 0 and limit_of(b):
                return True
    return is_ld(x, "_server_timeout") or is_call(x, "ServerTimeout")


def overdue_test(t, tr):
    """(truth of 'the time limit has passed', ok?) or None: ok says whether limit and elapsed time are comparable"""
    t, tr = unneg(t, tr)
    if t[0] != "lt":
        return None
    def limit(x):
        return has_field(x, "_server_timeout") or has_call(x, "ServerTimeout")
    def span(x):
        return has_call(x, "total_microseconds", "total_milliseconds", "ticks", "total_seconds", "total_nanoseconds")
    if limit(t[1]) and span(t[2]):
        lim, el, res = t[1], t[2], tr
    elif limit(t[2]) and span(t[1]):
        lim, el, res = t[2], t[1], not tr
    else:
        return None
    us = has_call(el, "total_microseconds")
    ms = has_call(el, "total_milliseconds")
    factor = contains(lim, lambda y: y == ("c", 1000)) or contains(lim, lambda y: y == 1000)
    div = contains(el, lambda y: y == ("c", 1000) or y == 1000)
    ok = (us and factor and not div) or (ms and not factor and not div) or (us and div and not factor)
    return res, ok, has_field(el, "_request_received_time") or has_call(el, "RequestReceivedTime"), el


# ------------------------------------------------------------------ S01
def answer_rules(R, P):
    R.rule("S01.answer", "every path of the processing of a request gives exactly one answer: a response, a failed response or the call of the method; only a lost connection or an expired time limit ends without one")
    procs = overriders(P, "ProcessRequest")
    for f in procs:
        def step(ex, st, fr, ev, s):
            got, pend = s
            if ev[0] == "branch" and pend is not None:
                t, tr = test_of(ev)
                if is_call(t, "RoutePage"):
                    return ("a page", None) if tr else (got, None)
            if ev[0] == "call":
                x = short(ev[1])
                if x == "RoutePage":
                    if got:
                        ex.report(st, fr, ev[4], "a request is routed to a page after it was answered (%s)" % got)
                    return (got, True)
                if (x in SEND or ev[1] == RR + "::CallMethod") and ev[2] == ("this",):
                    if got:
                        ex.report(st, fr, ev[4], "a request is answered twice: %s after %s" % (x, got))
                    if x == "SendSucceedResponse":
                        ex.report(st, fr, ev[4], "a request is answered as successful without running its method")
                    if x == "SendFailedResponse" and ev[3][1] == ("c", 0):
                        ex.report(st, fr, ev[4], "a request that cannot be processed is answered with the success code")
                    return (x, None)
            return s
        def fin(ex, st, fr, s):
            if s[1]:
                ex.report(st, fr, None, "the request is routed to a page without looking whether there is one")
            elif not s[0]:
                ex.report(st, fr, None, "a request is neither answered nor processed: its client waits until its own time limit")
        automaton(R, P, f, "S01.answer", f.name, (None, None), step,
                  calls_named("SendFailedResponse", "SendSucceedResponse", "SendResponse", "CallMethod", "RoutePage"), fin,
                  this_cls=f.cls, boundary=minus(f.name))
    R.decide("S01.answer", "kinds of requests", len(procs) >= 2, "src/sofa/pbrpc/rpc_request.h", "the request classes are gone")
    # calling the method
    f = P.fn(RR + "::CallMethod")
    def gone(t):
        return is_call(t, "lock") and (has_field(t, "_server_stream") or has_call(t, "RpcServerStream"))
    def step(ex, st, fr, ev, s):
        ran, why, closure = s
        if ev[0] == "branch":
            t, tr = test_of(ev)
            if gone(t):
                return (ran, why if tr else "gone", closure)
            o = overdue_test(ev[1], ev[2])
            if o and o[0]:
                return (ran, "late", closure)
        if ev[0] == "call":
            x = short(ev[1])
            if x in ("NewClosure", "NewPermanentClosure") and (RR + "::OnCallMethodDone") in bound_target(("x",) + tuple(ev[3])):
                if x == "NewPermanentClosure":
                    ex.report(st, fr, ev[4], "the closure that answers the request is never released")
                if [a for a in ev[3] if a and a[0] == "p" and a[1] == f.key] != [p(f, i) for i in range(4)]:
                    ex.report(st, fr, ev[4], "the answer is bound to other objects than those of the request")
                return (ran, why, True)
            if ev[1].endswith("Service::CallMethod"):
                if ran:
                    ex.report(st, fr, ev[4], "the method of one request runs twice")
                if why:
                    ex.report(st, fr, ev[4], "the method runs although %s" % ("the connection is gone" if why == "gone" else "the time limit has passed"))
                a = ev[3]
                if len(a) < 5 or (p(f, 1), p(f, 2), p(f, 3)) != tuple(a[1:4]):
                    ex.report(st, fr, ev[4], "the method runs on other objects than those of the request")
                elif (RR + "::OnCallMethodDone") not in bound_target(a[4]):
                    ex.report(st, fr, ev[4], "the method runs without the closure that answers the request")
                if not mentions(ev[2], p(f, 0)) or not mentions(a[0], p(f, 0)):
                    ex.report(st, fr, ev[4], "another method than the requested one runs")
                return (True, why, closure)
        return s
    def fin(ex, st, fr, s):
        if not s[0] and not s[1]:
            ex.report(st, fr, None, "a request is dropped although its connection is there and its time limit has not passed")
    automaton(R, P, f, "S01.answer", f.name, (False, None, False), step,
              any_of(calls_named("NewClosure", "lock", "total_microseconds", "total_milliseconds"), lambda g, nid, n: n["k"] in ("mcall", "call") and str(n.get("n", "")).endswith("Service::CallMethod")), fin, boundary=minus(f.name))
    # the answer
    f = P.fn(RR + "::OnCallMethodDone")
    def step(ex, st, fr, ev, s):
        got, why, failed = s
        if ev[0] == "branch":
            t, tr = test_of(ev)
            if gone(t):
                return (got, why if tr else "gone", failed)
            if has_field(t, "_error_code") or is_call(t, "Failed"):
                u, utr = unneg(ev[1], ev[2])
                if t[0] in ("ld", "call"):
                    return (got, why, tr)
            o = overdue_test(ev[1], ev[2])
            if o and o[0]:
                return (got, "late", failed)
        if ev[0] == "call" and ev[2] == ("this",):
            x = short(ev[1])
            if x in ("SendFailedResponse", "SendSucceedResponse"):
                if got:
                    ex.report(st, fr, ev[4], "one request is answered twice")
                if why == "late":
                    ex.report(st, fr, ev[4], "a request is answered after its time limit")
                if x == "SendSucceedResponse":
                    if failed is not False:
                        ex.report(st, fr, ev[4], "a failed method is answered as successful")
                    if not mentions(("x",) + tuple(ev[3]), p(f, 3)):
                        ex.report(st, fr, ev[4], "another message than the response of the method is sent")
                else:
                    if failed is not True:
                        ex.report(st, fr, ev[4], "a successful method is answered as failed")
                    a = ev[3]
                    if not (has_field(a[1], "_error_code") or has_call(a[1], "ErrorCode")) or not (has_field(a[2], "_reason") or has_call(a[2], "Reason")):
                        ex.report(st, fr, ev[4], "the failure is not reported with the code and the text the method gave")
                return (x, why, failed)
        return s
    def fin(ex, st, fr, s):
        if not s[0] and not s[1]:
            ex.report(st, fr, None, "a finished method is not answered although its connection is there and its time limit has not passed")
    automaton(R, P, f, "S01.answer", f.name, (None, None, None), step,
              any_of(calls_named("SendFailedResponse", "SendSucceedResponse", "lock", "total_microseconds", "total_milliseconds"), mentions_field("_error_code")), fin, boundary=minus(f.name))
    # sending
    f = overload(P, RR + "::SendSucceedResponse", 2, "Message")
    def step(ex, st, fr, ev, s):
        got, buf = s
        if ev[0] == "branch":
            t, tr = test_of(ev)
            if is_call(t, "AssembleSucceedResponse"):
                return (got, tr)
        if ev[0] == "call" and ev[2] == ("this",):
            x = short(ev[1])
            if x == "AssembleSucceedResponse" and (ev[3][1] != p(f, 1)):
                ex.report(st, fr, ev[4], "another message than the response is assembled")
            if x in ("SendFailedResponse", "SendSucceedResponse"):
                if got:
                    ex.report(st, fr, ev[4], "one request is answered twice")
                if x == "SendSucceedResponse":
                    if buf is not True:
                        ex.report(st, fr, ev[4], "a response that could not be assembled is sent")
                    if not has_call(("x",) + tuple(ev[3]), "AssembleSucceedResponse"):
                        ex.report(st, fr, ev[4], "another buffer than the assembled response is sent")
                return (x, buf)
        if ev[0] == "call" and short(ev[1]) in ("send_response", "async_send_message"):
            if got:
                ex.report(st, fr, ev[4], "one request is answered twice")
            return (short(ev[1]), buf)
        if ev[0] == "branch":
            t, tr = test_of(ev)
            if is_call(t, "lock") and not tr:
                return ("gone", buf)
        return s
    def fin(ex, st, fr, s):
        if not s[0]:
            ex.report(st, fr, None, "a response that %s is not sent" % ("was assembled" if s[1] else "cannot be assembled leaves its request unanswered: an error"))
    automaton(R, P, f, "S01.answer", f.key, (None, None), step, calls_named("AssembleSucceedResponse", "SendFailedResponse", "SendSucceedResponse", "send_response", "lock"), fin,
              boundary=minus(""), ident="ssr")
    def sends(f, subject, instance, null_ok, cls=None, names=("send_response", "async_send_message"), code0=None):
        def step(ex, st, fr, ev, s):
            got, why = s
            if ev[0] == "branch":
                t, tr = test_of(ev)
                if is_call(t, "lock") and mentions(t, p(f, 0)) and not tr:
                    return (got, "gone")
                if is_call(t, "AssembleFailedResponse") and not tr:
                    return (got, "null")
            if ev[0] == "call" and short(ev[1]) in names:
                if got:
                    ex.report(st, fr, ev[4], "one response is sent twice")
                if why:
                    ex.report(st, fr, ev[4], "a response is sent although %s" % ("the connection is gone" if why == "gone" else "it could not be assembled"))
                if not subject(ev):
                    ex.report(st, fr, ev[4], "another buffer than the response is sent")
                return (True, why)
            if ev[0] == "call" and short(ev[1]) == "AssembleFailedResponse" and tuple(ev[3][:2]) != (p(f, 1), p(f, 2)):
                ex.report(st, fr, ev[4], "the failure is sent with another code or text")
            return s
        def fin(ex, st, fr, s):
            if not s[0] and not s[1]:
                ex.report(st, fr, None, "the response is not sent")
        automaton(R, P, f, "S01.answer", instance, (None, None), step, calls_named("lock", "AssembleFailedResponse", *names), fin, this_cls=cls,
                  boundary=[b for b in SB if not b.startswith(RR + "::Send")], ident=f.key)
    f = overload(P, RR + "::SendSucceedResponse", 2, "ReadBuffer")
    sends(f, lambda ev: mentions(("x",) + tuple(ev[3]), p(f, 1)), f.key, False)
    g = P.fn(RR + "::SendFailedResponse")
    sends(g, lambda ev: has_call(("x",) + tuple(ev[3]), "AssembleFailedResponse"), g.name, True)
    f = P.fn("HTTPRpcRequest::SendResponse")
    def step(ex, st, fr, ev, s):
        if ev[0] == "call" and short(ev[1]) in ("SendFailedResponse", "SendSucceedResponse", "send_response", "async_send_message"):
            if s:
                ex.report(st, fr, ev[4], "one page is sent twice")
            return True
        if ev[0] == "branch":
            t, tr = test_of(ev)
            if is_call(t, "lock") and not tr:
                return True
        return s
    def fin(ex, st, fr, s):
        if not s:
            ex.report(st, fr, None, "a page that was produced is not answered")
    automaton(R, P, f, "S01.answer", f.name, False, step, calls_named("SendFailedResponse", "SendSucceedResponse", "send_response", "lock"), fin, boundary=minus(f.name))
    f = P.fn("WebService::RoutePage")
    def step(ex, st, fr, ev, s):
        if ev[0] == "call" and short(ev[1]) in SEND:
            if s:
                ex.report(st, fr, ev[4], "one page is sent twice")
            return True
        if ev[0] == "ret" and fr.depth == 0:
            c = retbool(ex, st, ev[1])
            if c is not False and not s:
                ex.report(st, fr, ev[2], "a page is reported as answered although nothing was sent")
            if c is not True and s:
                ex.report(st, fr, ev[2], "a page that was sent is reported as missing: the request is answered again")
        return s
    automaton(R, P, f, "S01.answer", f.name, False, step, any_of(calls_named(*SEND), calls_named("Run")), boundary=minus(f.name))
    # the stream
    R.rule("S01.stream", "a response given to a connection is handed to its queue once, its sender learns the result once, and a received request is given to the server once")
    f = P.fn("RpcServerStream::send_response")
    def step(ex, st, fr, ev, s):
        if ev[0] == "call" and short(ev[1]) == "async_send_message":
            if s:
                ex.report(st, fr, ev[4], "a response is queued twice")
            if not subj(ev[3][0], f, 0) or not mentions(ev[3][1], p(f, 1)):
                ex.report(st, fr, ev[4], "another response is queued")
            return True
        return s
    def fin(ex, st, fr, s):
        if not s:
            ex.report(st, fr, None, "a response is not queued")
    automaton(R, P, f, "S01.stream", f.name, False, step, calls_named("async_send_message"), fin, boundary=SB)
    for fn, want in (("on_sent", lambda f, a: const(a) == 0), ("on_send_failed", lambda f, a: a == p(f, 0)), ("on_received", None), ("on_closed", None)):
        f = P.fn("RpcServerStream::" + fn)
        fld = {"on_received": "_received_request_callback", "on_closed": "_closed_stream_callback"}.get(fn)
        def step(ex, st, fr, ev, s):
            def cb(t):
                return has_field(t, fld) if fld else mentions(t, p(f, len(f.params) - 1))
            if ev[0] == "branch" and cb(ev[1]):
                t, tr = test_of(ev)
                return s if tr or s else "none"
            if ev[0] == "call" and short(ev[1]) == "operator()" and ev[2] and cb(ev[2]):
                if s:
                    ex.report(st, fr, ev[4], "the owner is told twice")
                if want and not want(f, ev[3][0]):
                    ex.report(st, fr, ev[4], "the owner is told another result")
                if fn == "on_received" and not any(subj(a, f, 0) or mentions(a, p(f, 0)) for a in ev[3]):
                    ex.report(st, fr, ev[4], "another request is given to the server")
                return True
            return s
        def fin(ex, st, fr, s):
            if not s:
                ex.report(st, fr, None, "the owner is not told")
        automaton(R, P, f, "S01.stream", f.name, False, step, calls_named("operator()"), fin, ident=f.key)
    f = P.fn("RpcServerImpl::OnReceived")
    def step(ex, st, fr, ev, s):
        if ev[0] == "branch" and has_field(ev[1], "_is_running"):
            t, tr = test_of(ev)
            return (s[0], tr)
        if ev[0] == "call" and short(ev[1]) == "ProcessRequest":
            if s[0]:
                ex.report(st, fr, ev[4], "a request is processed twice")
            if not subj(ev[2], f, 1):
                ex.report(st, fr, ev[4], "another request is processed")
            return (True, s[1])
        return s
    def fin(ex, st, fr, s):
        if not s[0] and s[1] is not False:
            ex.report(st, fr, None, "a running server does not process a request")
    automaton(R, P, f, "S01.stream", f.name, (False, None), step, any_of(calls_named("ProcessRequest"), mentions_field("_is_running")), fin, boundary=SB)
    f = P.fn("RpcServerImpl::OnCreated")
    def step(ex, st, fr, ev, s):
        if ev[0] == "call":
            x = short(ev[1])
            b = bound_target(("x",) + tuple(ev[3]))
            if x == "set_received_request_callback" and "RpcServerImpl::OnReceived" in b:
                return s | {"received"}
            if x == "set_closed_stream_callback" and "RpcServerImpl::OnClosed" in b:
                return s | {"closed"}
            if x == "set_flow_controller":
                return s | {"flow"}
        return s
    def fin(ex, st, fr, s):
        for k, m in (("received", "requests"), ("closed", "its end"), ("flow", "the throughput limits")):
            if k not in s:
                ex.report(st, fr, None, "a new connection is not wired to the server: %s" % m)
    automaton(R, P, f, "S01.stream", f.name, frozenset(), step, calls_named("set_received_request_callback", "set_closed_stream_callback", "set_flow_controller"), fin)


# ------------------------------------------------------------------ S02
def dispatch_rules(R, P):
    R.rule("S02.dispatch", "a method runs only for the name the request carries, on a request message that was parsed completely with the compression the request names, and with a controller that knows the request")
    for f in overriders(P, "ProcessRequest"):
        binary = f.cls == "BinaryRpcRequest"
        # state: facts frozenset
        def step(ex, st, fr, ev, s):
            k = ev[0]
            if k == "branch":
                t, tr = test_of(ev)
                u, utr = unneg(ev[1], ev[2])
                if is_call(t, "ParseMethodFullName"):
                    return s | {("name", tr)}
                if is_call(t, "FindMethodBoard"):
                    return s | {("board", tr)}
                if is_call(t, *PARSE_ALL):
                    return s | {("parsed", t[2], tr)}
                if u[0] == "lt" and is_call(unwrap(u[1]), "jsonobject2pb") and u[2] == ("c", 0):
                    return s | {("json", unwrap(u[1])[3][1], not utr)}
                if u[0] == "lt" and is_call(unwrap(u[2]), "jsonobject2pb"):
                    c = const(u[1])
                    if c is not None and c < 0:
                        return s | {("json", unwrap(u[2])[3][1], utr)}
                if u[0] == "eq" and is_call(unwrap(u[1]), "jsonobject2pb"):
                    c = const(u[2])
                    if c is not None and (c >= 0 and utr or c < 0 and not utr):
                        return s | {("json", unwrap(u[1])[3][1], True)}
                if is_call(t, "IsInitialized"):
                    return s | {("init", t[2], tr)}
                if has_call(t, "compress_type") and not has_call(t, "get_compressed_input_stream"):
                    if t[0] == "call" or t[0] in ("trunc",):
                        return s | {("plain", not tr)}
                if is_call(t, "has_compress_type"):
                    return s if tr else s | {("plain", True)}
            if k == "call":
                x = short(ev[1])
                if x in PARSE_BAD:
                    return s | {("partial", ev[2])}
                if x in PARSE_ALL and binary:
                    a = ev[3][0] if ev[3] else ("c", 0)
                    comp = has_call(a, "get_compressed_input_stream")
                    if comp and ("plain", True) in s:
                        ex.report(st, fr, ev[4], "a request without compression is decompressed")
                    if not comp and ("plain", True) not in s:
                        ex.report(st, fr, ev[4], "a compressed request is parsed without decompressing it")
                    if not has_field(a, "_req_body"):
                        ex.report(st, fr, ev[4], "the request is parsed from other bytes than its body")
                if x == "get_compressed_input_stream":
                    if not has_call(ev[3][1], "compress_type") and not is_ld(ev[3][1]):
                        ex.report(st, fr, ev[4], "the request is decompressed with another codec than it names")
                    if has_call(ev[3][1], "expected_response_compress_type"):
                        ex.report(st, fr, ev[4], "the request is decompressed with the codec of its response")
                if x == "FindMethodBoard":
                    if ("name", True) not in s:
                        ex.report(st, fr, ev[4], "a method is looked up by a name that was not recognised")
                    return s
                m = {"SetSequenceId": lambda a: not binary or has_call(a, "sequence_id", "SequenceId"),
                     "SetMethodId": lambda a: has_call(a, "method", "Method") or has_field(a, "_method"),
                     "SetRemoteEndpoint": lambda a: has_field(a, "_remote_endpoint"),
                     "SetLocalEndpoint": lambda a: has_field(a, "_local_endpoint"),
                     "SetRpcServerStream": lambda a: subj(a, f, 0),
                     "SetRequestReceivedTime": lambda a: has_field(a, "_received_time"),
                     "SetServerTimeout": lambda a: has_call(a, "server_timeout"),
                     "SetResponseCompressType": lambda a: (has_call(a, "expected_response_compress_type") or const(a) == 0)}.get(x)
                if m and ev[1].startswith("RpcControllerImpl::"):
                    if not m(ev[3][0]):
                        ex.report(st, fr, ev[4], "the controller of the request is given the wrong value (%s)" % x)
                    return s | {x}
                if ev[1] == RR + "::CallMethod" and ev[2] == ("this",):
                    board, cntl, req, resp = ev[3][:4]
                    if not is_call(board, "FindMethodBoard") or ("board", True) not in s:
                        ex.report(st, fr, ev[4], "a method runs that was not found by the name of the request")
                    if not has_call(req, "GetRequestPrototype") or not has_call(resp, "GetResponsePrototype"):
                        ex.report(st, fr, ev[4], "the method runs on messages that are not its own")
                    good = ("parsed", req, True) in s or (("json", req, True) in s and ("init", req, True) in s)
                    if not good or ("partial", req) in s:
                        ex.report(st, fr, ev[4], "the method runs on a request that was not parsed completely")
                    for q in ("SetSequenceId", "SetMethodId", "SetRemoteEndpoint", "SetLocalEndpoint", "SetRpcServerStream", "SetRequestReceivedTime", "SetResponseCompressType"):
                        if q not in s:
                            ex.report(st, fr, ev[4], "the controller of the request lacks a value (%s)" % q)
                    return s
            return s
        automaton(R, P, f, "S02.dispatch", f.name, frozenset(), step,
                  calls_named("CallMethod", "ParseMethodFullName", "FindMethodBoard", "jsonobject2pb", "IsInitialized", "compress_type", "get_compressed_input_stream",
                              "SetSequenceId", "SetMethodId", "SetRemoteEndpoint", "SetLocalEndpoint", "SetRpcServerStream", "SetRequestReceivedTime",
                              "SetResponseCompressType", "SetServerTimeout", *(PARSE_ALL + PARSE_BAD)),
                  this_cls=f.cls, boundary=minus(f.name))
    # the compression of the response is the expected one, the time limit is taken over whenever the request has one
    f = P.fn("BinaryRpcRequest::ProcessRequest")
    def step(ex, st, fr, ev, s):
        has, tmo, pos, hast, ct = s
        if ev[0] == "branch":
            t, tr = test_of(ev)
            u, utr = unneg(ev[1], ev[2])
            if is_call(t, "has_expected_response_compress_type"):
                return (tr, tmo, pos, hast, ct)
            if is_call(t, "has_server_timeout"):
                return (has, tmo, pos, tr, ct)
            if u[0] == "lt" and is_call(unwrap(u[1]), "server_timeout"):
                return (has, tmo, not utr, hast, ct)
            if u[0] == "lt" and is_call(unwrap(u[2]), "server_timeout"):
                return (has, tmo, utr, hast, ct)
        if ev[0] == "call":
            x = short(ev[1])
            if x == "SetServerTimeout":
                return (has, True, pos, hast, ct)
            if x == "SetResponseCompressType":
                if const(ev[3][0]) == 0 and has is not False:
                    ex.report(st, fr, ev[4], "the compression the client expects is not used")
                if const(ev[3][0]) is None and has is False:
                    pass
            if ev[1] == RR + "::CallMethod":
                if not tmo and hast is not False and pos is not False:
                    ex.report(st, fr, ev[4], "the time limit of the request is not taken over")
        return s
    automaton(R, P, f, "S02.dispatch", f.name + " (limits)", (None, False, None, None, None), step,
              calls_named("has_expected_response_compress_type", "has_server_timeout", "server_timeout", "SetServerTimeout", "SetResponseCompressType", "CallMethod"),
              this_cls="BinaryRpcRequest", boundary=minus(f.name))
    f = P.fn(RR + "::FindMethodBoard")
    def step(ex, st, fr, ev, s):
        svc, m = s
        if ev[0] == "branch":
            t, tr = test_of(ev)
            if is_call(t, "FindService"):
                return (tr, m)
            if is_call(t, "FindMethodByName"):
                return (svc, tr)
        if ev[0] == "call":
            x = short(ev[1])
            if x == "FindService" and not mentions(ev[3][0], p(f, 1)):
                ex.report(st, fr, ev[4], "another service is looked up")
            if x == "FindMethodByName":
                if not mentions(ev[3][0], p(f, 2)):
                    ex.report(st, fr, ev[4], "another method is looked up")
                if svc is not True:
                    ex.report(st, fr, ev[4], "a service that does not exist is used")
            if x == "Method" and m is not True:
                ex.report(st, fr, ev[4], "a method that does not exist is used")
        if ev[0] == "ret" and fr.depth == 0:
            null = ev[1] == NULL or const(ev[1]) == 0
            if null and svc is True and m is True:
                ex.report(st, fr, ev[2], "a registered method is reported as missing")
            if not null:
                if svc is not True or m is not True:
                    ex.report(st, fr, ev[2], "a method that was not found is returned")
                if not has_call(ev[1], "index") or not has_call(ev[1], "FindMethodByName"):
                    ex.report(st, fr, ev[2], "another method than the one found by name is returned")
        return s
    automaton(R, P, f, "S02.dispatch", f.name, (None, None), step, calls_named("FindService", "FindMethodByName", "Method"),
              boundary=["ServicePool::FindService", "ServiceBoard::Method"])


# ------------------------------------------------------------------ S03
def release_rules(R, P):
    R.rule("S03.release", "the request message, the response message and the controller of a request are released exactly once on every path and not used afterwards")
    def run(f, objs, names, handover, instance, cls=None, boundary=(), fresh=None):
        """objs: terms owned from the start; fresh(ev) -> term that becomes owned"""
        def step(ex, st, fr, ev, s):
            own, dead, copied = s
            k = ev[0]
            if fresh:
                o = fresh(ev)
                if o is not None:
                    return (own | {o}, dead, copied)
            if k == "write" and len(ev) > 3 and ev[2] and ev[1] and ev[1][0] == "L":
                for o in own:
                    if ev[2] != o and mentions(ev[2], o):
                        copied = copied | {ev[2]}      # a value taken out of the object, e.g. a copy of the shared pointer
                s = (own, dead, copied)
            if k == "del":
                o = ev[1]
                if o in dead:
                    ex.report(st, fr, ev[3], "an object of the request is released twice")
                if o in own:
                    return (own - {o}, dead | {o}, copied)
                return s
            if k == "call":
                h = handover(ev)
                if h:
                    for o in h:
                        if o in dead:
                            ex.report(st, fr, ev[4], "an object of the request is given away after it was released")
                        elif o not in own:
                            ex.report(st, fr, ev[4], "an object of the request is given away twice")
                    return (own - set(h), dead | set(h), copied)
                for o in dead:
                    if ev[2] == o or any(a == o for a in ev[3]):
                        ex.report(st, fr, ev[4], "an object of the request is used after it was released")
                    elif (ev[2] and mentions_now(ev[2], o, copied)) or any(mentions_now(a, o, copied) for a in ev[3]):
                        ex.report(st, fr, ev[4], "a part of the controller is used after it was released")
            return s
        def mentions_now(t, o, copied):
            """the term reaches into the object itself (a field of it), not a value computed from it earlier"""
            while t and t[0] in ("ld", "F", "trunc"):
                if t in copied:
                    return False
                if t == o:
                    return True
                t = t[1]
            return t == o
        def fin(ex, st, fr, s):
            for o in sorted(s[0], key=str):
                ex.report(st, fr, None, "an object of the request is not released (%s)" % show(o)[:60])
        automaton(R, P, f, "S03.release", instance, (frozenset(objs), frozenset(), frozenset()), step, names, fin, this_cls=cls, boundary=boundary, ident=f.key)
    f = P.fn(RR + "::CallMethod")
    dels = lambda g, nid, n: n["k"] == "del"
    objs = [p(f, 1), p(f, 2), p(f, 3)]
    def hand(ev):
        if short(ev[1]) in ("NewClosure", "NewPermanentClosure") and (RR + "::OnCallMethodDone") in bound_target(("x",) + tuple(ev[3])):
            return None
        if ev[1].endswith("Service::CallMethod") and any((RR + "::OnCallMethodDone") in bound_target(a) for a in ev[3]):
            return objs
        return None
    run(f, objs, any_of(dels, calls_named("NewClosure", "lock")), hand, f.name, boundary=minus(f.name))
    f = P.fn(RR + "::OnCallMethodDone")
    run(f, [p(f, 1), p(f, 2), p(f, 3)], any_of(dels, calls_named("SendFailedResponse", "SendSucceedResponse")), lambda ev: None, f.name, boundary=minus(f.name))
    for f in overriders(P, "ProcessRequest"):
        def fresh(ev):
            if ev[0] == "call" and short(ev[1]) == "New" and ev[2] and has_call(ev[2], "GetRequestPrototype", "GetResponsePrototype"):
                return ev[5] if len(ev) > 5 else None
            if ev[0] == "new" and ev[1] in ("RpcController",):
                return ev[3]
            return None
        def hand(ev):
            if ev[1] == RR + "::CallMethod" and ev[2] == ("this",):
                return list(ev[3][1:4])
            return None
        run(f, [], any_of(dels, calls_named("CallMethod", "New"), lambda g, nid, n: n["k"] == "new"), hand, f.name, cls=f.cls, boundary=minus(f.name), fresh=fresh)
    # JSON document of an HTTP request
    f = [g for g in P.fns.values() if g.cls == "HTTPRpcRequest" and g.d.get("dtor")][0]
    def step(ex, st, fr, ev, s):
        if ev[0] == "del" and has_field(ev[1], "_req_json"):
            if s:
                ex.report(st, fr, ev[3], "the JSON document is released twice")
            return True
        if ev[0] == "branch" and has_field(ev[1], "_req_json"):
            t, tr = test_of(ev)
            return s or not tr
        return s
    def fin(ex, st, fr, s):
        if not s:
            ex.report(st, fr, None, "the JSON document of a request is not released")
    automaton(R, P, f, "S03.release", f.name, False, step, dels, fin)


# ------------------------------------------------------------------ S05
def overdue_rules(R, P):
    R.rule("S05.overdue", "a request whose time limit passed before it could run does not run, one that finished after it is not answered; the time is counted from the receipt of the request")
    R.rule("S05.count", "a request is counted as being processed exactly while its method runs")
    f = P.fn(RR + "::CallMethod")
    g = P.fn(RR + "::OnCallMethodDone")
    for h, act in ((f, "runs"), (g, "is answered")):
        def step(ex, st, fr, ev, s):
            has, late, act_, cnt, gone = s
            if ev[0] == "branch":
                t, tr = unneg(ev[1], ev[2])
                o = overdue_test(ev[1], ev[2])
                if o:
                    if not o[1]:
                        ex.report(st, fr, ev[3], "the time limit is compared in another unit than it is given in")
                    if not o[2]:
                        ex.report(st, fr, ev[3], "the time is not counted from the receipt of the request")
                    return (has, o[0], act_, cnt, gone)
                if t[0] == "lt" and limit_of(t[1]):
                    return (not tr, late, act_, cnt, gone)
                if t[0] == "lt" and limit_of(t[2]):
                    return (tr, late, act_, cnt, gone)
                t, tr = test_of(ev)
                if is_call(t, "lock") and (has_field(t, "_server_stream") or has_call(t, "RpcServerStream")):
                    return (has, late, act_, cnt, not tr)
            if ev[0] == "rmw" and has_field(ev[1], "_pending_process_count"):
                d = const(ev[2])
                if h is f and act_:
                    ex.report(st, fr, ev[3], "the request is counted as being processed after its method started")
                if d != (1 if h is f else -1):
                    ex.report(st, fr, ev[3], "the number of requests being processed moves the wrong way")
                return (has, late, act_, cnt + 1, gone)
            if ev[0] == "call":
                x = short(ev[1])
                hit = ev[1].endswith("Service::CallMethod") if h is f else (x in ("SendFailedResponse", "SendSucceedResponse") and ev[2] == ("this",))
                if hit:
                    if has is not False and late is not False:
                        ex.report(st, fr, ev[4], "a request %s without comparing the time since its receipt with its limit" % act if late is None else "a request %s after its time limit" % act)
                    return (has, late, True, cnt, gone)
            return s
        def fin(ex, st, fr, s):
            has, late, act_, cnt, gone = s
            if h is f:
                if act_ and cnt != 1:
                    ex.report(st, fr, None, "a method runs without being counted" if not cnt else "a method is counted twice")
                if not act_ and cnt:
                    ex.report(st, fr, None, "a request that does not run stays counted as being processed")
            elif gone is not True and cnt != 1:
                ex.report(st, fr, None, "a finished request stays counted as being processed: the connection is never idle" if not cnt else "a finished request is taken off the count twice")
        automaton(R, P, h, "S05.overdue", h.name, (None, None, False, 0, None), step,
                  any_of(calls_named("lock", "total_microseconds", "total_milliseconds", "SendFailedResponse", "SendSucceedResponse", "NewClosure"), mentions_field("_pending_process_count")), fin,
                  boundary=minus(h.name), ident=h.key)
    # the moment of receipt: taken by the connection that received the request, handed on to the controller
    for h in overriders(P, "ProcessRequest"):
        def step(ex, st, fr, ev, s):
            if ev[0] == "call" and short(ev[1]) == "SetRequestReceivedTime" and ev[2]:
                a = unwrap(ev[3][0])
                if not (is_call(a, "ReceivedTime") and a[2] == ("this",) or is_ld(a, "_received_time", ("this",)) or locis(a, "_received_time", ("this",))):
                    ex.report(st, fr, ev[4], "the time the request was received is not the one its connection noted")
                return True
            if ev[0] == "call" and ev[1] == RR + "::CallMethod" and not s:
                ex.report(st, fr, ev[4], "a request runs without the time it was received")
            return s
        automaton(R, P, h, "S05.overdue", h.name + " (receipt)", False, step, calls_named("SetRequestReceivedTime", "CallMethod"), this_cls=h.cls, boundary=minus(h.name))
    sites = 0
    for k in P.fns.values():
        if not any(n["k"] in ("mcall", "call") and short(n.get("n") or "") == "SetReceivedTime" for n in k.nodes):
            continue
        sites += 1
        if k.cls and "ServerMessageStream" not in k.cls:
            R.bad("S05.overdue", k.name, where(k), "%s changes the time a request was received" % k.name)
    R.decide("S05.overdue", "receipt of a request", sites >= 1, "src/sofa/pbrpc/rpc_server_message_stream.h", "no connection notes when it received a request")
    for k in P.all("RpcServerMessageStream::split_and_process_message") or []:
        def step(ex, st, fr, ev, s):
            if ev[0] == "call":
                x = short(ev[1])
                if x == "GetRequest":
                    return (ev[5] if len(ev) > 5 else None, False)
                if x == "SetReceivedTime":
                    if not has_call(ev[3][0], "ptime_now", "universal_time", "local_time"):
                        ex.report(st, fr, ev[4], "the time a request was received is not the current time")
                    return (s[0], True)
                if x in ("push_back", "emplace_back", "on_received") and s[0] is not None and not s[1]:
                    ex.report(st, fr, ev[4], "a received request is passed on without noting when it was received")
            return s
        automaton(R, P, k, "S05.overdue", k.name, (None, False), step, calls_named("GetRequest", "SetReceivedTime", "push_back", "emplace_back"), this_cls=k.cls)
    for k in P.fns.values():
        if k.key in (f.key, g.key) or k.cls == "AtomicCounter":
            continue
        for nid, n in enumerate(k.nodes):
            if n["k"] in ("call", "mcall") and short(n.get("n") or "") in ("increase_pending_process_count", "decrease_pending_process_count"):
                rs = roots(P, [k.key])
                if all(r.key in (f.key, g.key) for r in rs):
                    continue
                R.bad("S05.count", k.name, k.loc(nid), "%s changes the number of requests being processed" % k.name)
    R.ok("S05.count", "only the start and the end of a method change the count")
