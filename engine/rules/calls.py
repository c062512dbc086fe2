"""Client side calls: completion, matching, delivery, deadlines."""
from lib import *
import core
from rules.streams import CLIENT, BOUND, SIDES

CNTL = "RpcControllerImpl"
DONE = CNTL + "::Done"
CB = [DONE, CNTL + "::SetFailed", CNTL + "::PushDoneCallback", CNTL + "::FillFromMethodDescriptor",
      "RpcClientStream::call_method", "RpcClientImpl::CallMethod", "RpcClientImpl::FindOrCreateStream",
      "RpcTimeoutManager::add", "RpcTimeoutManager::erase", "RpcMessageStream::async_send_message",
      "RpcClientStream::erase_request", "RpcEndpointToString", "RpcTimeoutManager::notify_timeout"]


def where(f):
    return "%s:%s" % (f.file, f.line)


def is_done(ev):
    return ev[0] == "call" and ev[1] == DONE


def at(f, i):
    """content of a smart pointer parameter"""
    return ("ld", ("p", f.key, i))


def subj(t, f, i):
    return t == at(f, i) or t == ("p", f.key, i)


def bound_target(t):
    """functions bound into a closure term"""
    return [x[2] for x in subterms(t) if x and x[0] == "fn" and len(x) >= 3]


def const(t):
    t = unwrap(t)
    return t[1] if t[0] == "c" else None


def loop_test(t, tr, box):
    """True/False: the branch establishes that the container has (not) a further element"""
    t, tr = unneg(t, tr)
    def over(x):
        return contains(x, lambda y: len(y) >= 3 and y[0] == "call" and short(y[1]) in ("end", "rend", "cend") and y[2] == box)
    if t[0] == "eq" and (over(t[1]) or over(t[2])):
        return not tr
    if t[0] == "eq" and t[2] == NULL and is_call(t[1], "empty") and t[1][2] == box:
        return tr
    if is_call(t, "empty") and t[2] == box:
        return not tr
    return None


# ------------------------------------------------------------------ C01
def gate_rules(R, P):
    R.rule("C01.gate", "a call completes through one atomic not-done to done exchange; only its winner records the outcome and then runs every registered callback, last registered first, removing each")
    f = P.fn(DONE)
    q = "_done_callbacks"
    left = {"from": set(), "steps": set()}

    # state: (cas term, won, recorded, current element taken?, emptied)
    def step(ex, st, fr, ev, s):
        cas, won, rec, cur, empty = s
        k = ev[0]
        if k in ("cas", "xchg") and locis(ev[1], "_is_done"):
            if const(ev[2]) != 1 or (k == "cas" and const(ev[3]) != 0):
                ex.report(st, fr, ev[-2], "the completion flag is not exchanged from not-done to done")
            return (ev[-1], won, rec, cur, empty)
        if k == "write" and locis(ev[1], "_is_done"):
            ex.report(st, fr, ev[4], "the completion flag is written without the atomic exchange")
        if k == "branch":
            t, tr = unneg(ev[1], ev[2])
            if cas and t[0] == "eq" and t[1] == cas and t[2][0] == "c":
                return (None, (t[2][1] == 0) == tr, rec, cur, empty)
            t, tr = test_of(ev)
            if is_call(t, "empty", "size") and has_field(t, q):
                e = tr if is_call(t, "empty") else not tr
                if cur:
                    ex.report(st, fr, ev[3], "a callback that was run stays registered")
                return (cas, won, rec, cur, e)
            lt = loop_test(ev[1], ev[2], ("F", ("this",), CNTL + "::" + q))
            if lt is not None:
                return (cas, won, rec, None, not lt)
            # a local counted down from the number there are
            u, utr = unneg(ev[1], ev[2])
            if utr and u[0] == "lt" and u[2] == ("c", 1) and is_call(u[1], "size") and has_field(u[1], q):
                return (cas, won, rec, cur, True)
            if won is True and utr and u[0] in ("lt", "eq") and const(u[2]) == (1 if u[0] == "lt" else 0) and u[1][0] == "upd" and u[1][1] in left["steps"]:
                if cur:
                    ex.report(st, fr, ev[3], "a callback that was run stays registered")
                return (cas, won, rec, cur, True)
        if k == "write" and ev[1][0] == "L":
            v = unwrap(ev[2])
            if is_call(v, "size") and has_field(v, q):
                left["from"].add(ev[1])
            elif ev[1] in left["from"]:
                if v[0] == "op" and v[1] in ("-", "+") and const(v[3]) == (1 if v[1] == "-" else -1):
                    left["steps"].add((ev[1][1], ev[4]))
                else:
                    left["from"].discard(ev[1])
        if k == "call":
            x = short(ev[1])
            if x == "SetFailed" and ev[2] == ("this",):
                if won is not True:
                    ex.report(st, fr, ev[4], "the outcome is recorded by a party that did not win the completion")
                if len(ev[3]) < 2 or ev[3][0] != ("p", f.key, 0) or ev[3][1] != ("p", f.key, 1):
                    ex.report(st, fr, ev[4], "the recorded outcome is not the one reported")
                return (cas, won, True, cur, empty)
            if x == "operator()" and ev[2] and has_field(ev[2], q):
                if won is not True:
                    ex.report(st, fr, ev[4], "callbacks are run by a party that did not win the completion")
                if not rec:
                    ex.report(st, fr, ev[4], "callbacks are run before the outcome is recorded")
                if has_call(ev[2], "front", "begin"):
                    ex.report(st, fr, ev[4], "callbacks are run in the order of registration: the caller is woken before its response is filled in")
                return (cas, won, rec, True, empty)
            if x in ("pop_back", "pop_front", "erase", "clear") and locis(ev[2], q):
                return (cas, won, rec, None, empty)
        return s
    def fin(ex, st, fr, s):
        cas, won, rec, cur, empty = s
        if won is True:
            if not rec:
                ex.report(st, fr, None, "the winner of the completion does not record the outcome")
            if empty is not True:
                ex.report(st, fr, None, "a completed call leaves registered callbacks without running them")
    outs, _ = automaton(R, P, f, "C01.gate", f.name, (None, None, False, None, None), step, mentions_field("_is_done", q), fin,
                        boundary=[CNTL + "::SetFailed"])
    if not any(s.mon[1] is True for s in outs):
        R.bad("C01.gate", f.name, where(f), "no path wins the completion")
    # nobody else touches the flag or runs the callbacks
    for g in P.fns.values():
        if g.key == f.key or g.d.get("ctor"):
            continue
        for nid, n in enumerate(g.nodes):
            if any(fieldis(m, "RpcControllerImpl::_is_done") for m in core.written_fields(g, n)):
                if g.key in P.reachable([f.key]) and is_helper(P, g):
                    continue
                R.bad("C01.gate", g.name, g.loc(nid), "%s changes the completion flag outside the completion gate" % g.name)
    R.ok("C01.gate", "only the gate changes the completion flag")
    f = P.fn(CNTL + "::IsDone")
    def step(ex, st, fr, ev, s):
        if ev[0] == "ret" and fr.depth == 0:
            t, tr = unneg(ev[1], True)
            if not (t[0] == "eq" and is_ld(t[1], "_is_done") and (const(t[2]) == 1) == tr):
                ex.report(st, fr, ev[2], "a call is reported as done although its flag says otherwise")
        return s
    automaton(R, P, f, "C01.gate", f.name, 0, step, mentions_field("_is_done"))


def once(R, P, fn, inst, rule, subject, hands=(), success=(), boundary=(), pre=None, ident=None, need=None, interesting=("Done",)):
    """every path settles the call exactly once: Done on the subject, or handed to one of `hands`"""
    f = P.fn(fn) if isinstance(fn, str) else fn
    def step(ex, st, fr, ev, s):
        got, extra = s
        if pre:
            e = pre(ex, st, fr, ev, got, extra)
            if e is not None:
                extra = e
        if ev[0] == "call":
            x = short(ev[1])
            hit = None
            if ev[1] == DONE and subject(ev[2]):
                hit = "Done"
                c = const(ev[3][0])
                if c == 0 and not success:
                    ex.report(st, fr, ev[4], "a call that cannot go on is reported as successful")
            elif x in hands and (any(subject(a) or any(subject(b) for b in subterms(a)) for a in ev[3])):
                hit = x
            elif x in hands and ev[2] and subject(ev[2]):
                hit = x
            if hit:
                if got:
                    ex.report(st, fr, ev[4], "the call goes on (%s) after %s" % (hit, "it was completed" if got == "Done" else "it was handed over (%s)" % got))
                return (hit, extra)
        return (got, extra)
    def fin(ex, st, fr, s):
        if need and not need(ex, st, fr, s[1]):
            return
        if s[0] is None:
            ex.report(st, fr, None, "the call is neither completed nor handed on: its caller waits for ever")
    return automaton(R, P, f, rule, inst, (None, None), step, calls_named(*(tuple(interesting) + tuple(hands))), fin, boundary=CB + list(boundary), ident=ident)


def seqno(t):
    return has_ld(t, "_sequence_id") or has_call(t, "SequenceId")


def has_p(t, f, i):
    return contains(t, lambda y: y == ("p", f.key, i))


def settle_rules(R, P):
    R.rule("C01.settle", "every step of a client call either completes the call with an error or hands it to exactly one next step, on every path")
    # client
    f = P.fn("RpcClientImpl::CallMethod")
    i = [k for k, p in enumerate(f.params)][-1]
    def pre(ex, st, fr, ev, got, extra):
        extra = extra or frozenset()
        if ev[0] == "call":
            x = short(ev[1])
            if x == "PushDoneCallback" and any(t.endswith("DoneCallback") for t in bound_target(("x",) + tuple(ev[3]))):
                if got or "add" in extra:
                    ex.report(st, fr, ev[4], "the completion callback is registered after the call may already be complete")
                return extra | {"cb"}
            if x == "add" and ev[3] and subj(ev[3][0], f, i):
                if "cb" not in extra:
                    ex.report(st, fr, ev[4], "the deadline is armed before the completion callback is registered")
                return extra | {"add"}
            if x == "call_method" and "cb" not in extra:
                ex.report(st, fr, ev[4], "the call is sent without the callback that fills in its response")
        return None
    once(R, P, f, f.name, "C01.settle", lambda t: subj(t, f, i), hands=("call_method",), pre=pre)
    # stream
    f = P.fn("RpcClientStream::call_method")
    def pre(ex, st, fr, ev, got, extra):
        if ev[0] == "call" and short(ev[1]) == "async_send_message" and extra != "mapped":
            ex.report(st, fr, ev[4], "the request is sent before the call is registered: its response or the loss of the connection would not complete it")
        if ev[0] == "call" and ev[2] and locis(ev[2], "_controller_map") and short(ev[1]) in ("insert", "emplace", "operator[]"):
            k = ev[3][0] if ev[3] else None
            if k is not None and not (has_ld(k, "_sequence_id") or has_call(k, "SequenceId")):
                ex.report(st, fr, ev[4], "the call is registered under something else than its sequence number")
            return "mapped"
        if ev[0] == "write" and has_field(ev[1], "_controller_map"):
            return "mapped"
        return None
    once(R, P, f, f.name, "C01.settle", lambda t: subj(t, f, 0), hands=("async_send_message",), pre=pre, interesting=("Done", "operator[]", "insert", "emplace"))
    f = P.fn("RpcClientStream::on_send_failed")
    i = len(f.params) - 1
    def pre(ex, st, fr, ev, got, extra):
        if is_done(ev) and subj(ev[2], f, i) and ev[3][0] != ("p", f.key, 0):
            ex.report(st, fr, ev[4], "the reported error is not the one that occurred")
        if ev[0] == "call" and ev[2] and locis(ev[2], "_controller_map") and short(ev[1]) == "erase":
            return "erased"
        if ev[0] == "call" and short(ev[1]) == "erase_request" and ev[3] and seqno(ev[3][0]):
            return "erased"
        return None
    def need(ex, st, fr, extra):
        if extra != "erased":
            ex.report(st, fr, None, "a call that failed stays registered in the connection")
        return True
    once(R, P, f, f.name, "C01.settle", lambda t: subj(t, f, i), pre=pre, need=need, interesting=("Done", "erase", "erase_request"))
    for g in P.all("RpcClientStream::erase_request"):
        def step(ex, st, fr, ev, s):
            if ev[0] == "call" and ev[2] and locis(ev[2], "_controller_map") and short(ev[1]) == "erase" and has_p(ev[3][0], g, 0):
                return True
            if ev[0] == "branch" and has_call(ev[1], "find") and has_p(ev[1], g, 0):
                u, tr = unneg(ev[1], ev[2])
                if u[0] == "eq" and tr:
                    return True
            return s
        def fin(ex, st, fr, s):
            if not s:
                ex.report(st, fr, None, "a call that is given up stays registered in the connection")
        automaton(R, P, g, "C01.settle", g.name, False, step, calls_named("erase", "find"), fin)
    # closing a connection completes everything registered
    for f in [P.fn("RpcClientStream::on_closed")] + [g for g in P.fns.values() if g.cls == "RpcClientStream" and g.d.get("dtor")]:
        def step(ex, st, fr, ev, s):
            boxes, owed = s
            k = ev[0]
            if k == "call" and short(ev[1]) == "swap" and (locis(ev[2], "_controller_map") or any(locis(a, "_controller_map") for a in ev[3])):
                o = ev[3][0] if locis(ev[2], "_controller_map") else ev[2]
                return (boxes | {o}, owed)
            if k == "branch":
                for b in boxes | {("F", ("this",), "RpcClientStream::_controller_map")}:
                    r = loop_test(ev[1], ev[2], b)
                    if r is not None:
                        if owed:
                            ex.report(st, fr, ev[3], "a call registered in the closed connection is passed over")
                        return (boxes | {"seen"} if not r else boxes, r)
            if is_done(ev):
                if const(ev[3][0]) == 0:
                    ex.report(st, fr, ev[4], "a call lost with its connection is reported as successful")
                return (boxes, False)
            return s
        def fin(ex, st, fr, s):
            if s[1]:
                ex.report(st, fr, None, "a call registered in the closed connection is passed over")
            elif "seen" not in s[0]:
                ex.report(st, fr, None, "the calls registered in the closed connection are not completed")
        automaton(R, P, f, "C01.settle", f.name, (frozenset(), False), step, any_of(calls_named("Done"), mentions_field("_controller_map")), fin, boundary=CB)
    # response
    f = P.fn("RpcClientStream::on_received")
    def step(ex, st, fr, ev, s):
        taken, key, nul, done, got = s
        k = ev[0]
        if k == "call" and ev[2] and locis(ev[2], "_controller_map") and short(ev[1]) in ("find",):
            if not has_call(ev[3][0], "sequence_id"):
                ex.report(st, fr, ev[4], "the call is looked up by something else than the sequence number of the response")
        if k == "call" and ev[2] and locis(ev[2], "_controller_map") and short(ev[1]) == "erase":
            return (True, key, nul, done, got)
        if k == "branch":
            t, tr = test_of(ev)
            if has_field(t, "_is_done"):
                u, utr = unneg(ev[1], ev[2])
                if u[0] == "eq" and u[2][0] == "c":
                    return (taken, key, nul, (u[2][1] == 1) == utr, got)
                return (taken, key, nul, tr, got)
            if has_call(t, "find") and not has_call(t, "end"):
                return (taken, key, not tr, done, got)
        if is_done(ev):
            if got:
                ex.report(st, fr, ev[4], "one response completes the call twice")
            if not has_call(ev[2], "find"):
                ex.report(st, fr, ev[4], "the completed call was not looked up by the sequence number of the response")
            if not taken:
                ex.report(st, fr, ev[4], "the call stays registered after its response: a duplicate response would be processed again")
            return (taken, key, nul, done, True)
        return s
    def fin(ex, st, fr, s):
        taken, key, nul, done, got = s
        if taken and done is not True and not got and nul is not True:
            ex.report(st, fr, None, "the call was removed on receipt of its response but is never completed")
    automaton(R, P, f, "C01.settle", f.name, (False, None, None, None, False), step, any_of(calls_named("Done"), mentions_field("_controller_map", "_is_done")), fin,
              boundary=CB)
    # deadline
    f = P.fn("RpcTimeoutManager::notify_timeout")
    def step(ex, st, fr, ev, s):
        if ev[0] == "branch":
            t, tr = test_of(ev)
            if is_call(t, "lock") and contains(t, lambda y: y == ("p", f.key, 0)):
                return (tr, s[1])
        if is_done(ev):
            if s[1]:
                ex.report(st, fr, ev[4], "one deadline completes the call twice")
            if const(ev[3][0]) == 0:
                ex.report(st, fr, ev[4], "an expired call is reported as successful")
            return (s[0], True)
        return s
    def fin(ex, st, fr, s):
        if s[0] is not False and not s[1]:
            ex.report(st, fr, None, "an expired call is not completed")
    automaton(R, P, f, "C01.settle", f.name, (None, False), step, calls_named("Done"), fin, boundary=[b for b in CB if "notify" not in b])
    # the channel
    f = P.fn("SimpleRpcChannelImpl::CallMethod")
    def cntl(t):
        return t[0] == "ld" and t[1][0] == "F" and fieldis(t[1][2], "RpcController::_impl")
    def pre(ex, st, fr, ev, got, extra):
        if ev[0] == "call" and short(ev[1]) == "PushDoneCallback" and any(t == "SimpleRpcChannelImpl::DoneCallback" for t in bound_target(("x",) + tuple(ev[3]))):
            if got:
                ex.report(st, fr, ev[4], "the completion callback is registered after the call may already be complete")
            return (extra or frozenset()) | {"cb"}
        if ev[0] == "call" and short(ev[1]) in ("NewClosure", "NewPermanentClosure") and "SimpleRpcChannelImpl::MockDoneCallback" in bound_target(("x",) + tuple(ev[3])):
            if not any(cntl(a) for a in ev[3]):
                ex.report(st, fr, ev[4], "the mock completion is not bound to the call")
            return (extra or frozenset()) | {("mock", ev[5] if len(ev) > 5 else None)}
        return None
    def step(ex, st, fr, ev, s):
        got, cb, mock, sync = s
        k = ev[0]
        if k == "branch":
            t, tr = test_of(ev)
            if t == ("p", f.key, 4):
                return (got, cb, mock, not tr)
        if k == "call":
            x = short(ev[1])
            e = pre(ex, st, fr, ev, got, None)
            if e:
                if "cb" in e:
                    return (got, True, mock, sync)
                return (got, cb, True, sync)
            hit = None
            if ev[1] == DONE and cntl(ev[2]):
                hit = "Done"
                if const(ev[3][0]) == 0:
                    ex.report(st, fr, ev[4], "a call that cannot go on is reported as successful")
            elif ev[1] == "RpcClientImpl::CallMethod" and any(cntl(a) for a in ev[3]):
                hit = "the client's CallMethod"
            elif x == "Run" and mock and len(ev[3]) >= 4:
                hit = "the mock's Run"
            if hit:
                if got:
                    ex.report(st, fr, ev[4], "the call goes on (%s) after %s" % (hit, got))
                if not cb:
                    ex.report(st, fr, ev[4], "the call is started without its completion callback")
                return (hit, cb, mock, sync)
        return s
    def fin(ex, st, fr, s):
        if not s[0]:
            ex.report(st, fr, None, "the call is neither completed nor handed on: its caller waits for ever")
    automaton(R, P, f, "C01.settle", f.name, (None, False, False, None), step,
              calls_named("Done", "CallMethod", "Run", "PushDoneCallback", "NewClosure"), fin, boundary=CB)
    f = P.fn("SimpleRpcChannelImpl::MockDoneCallback")
    once(R, P, f, f.name, "C01.settle", lambda t: t == ("p", f.key, 0) or t == at(f, 0) or is_ld(t) or contains(t, lambda y: y == ("p", f.key, 0)), success=True)


# ------------------------------------------------------------------ C02
REQ_FIELDS = {
    "set_type": lambda t: const(t) == 0,
    "set_sequence_id": lambda t: (has_ld(t, "_sequence_id") or has_call(t, "SequenceId") or contains(t, lambda y: y[0] == "rmw")),
    "set_method": lambda t: has_field(t, "_method_id") or has_call(t, "MethodId"),
    "set_compress_type": lambda t: has_field(t, "request_compress_type") or has_call(t, "RequestCompressType"),
    "set_expected_response_compress_type": lambda t: has_field(t, "response_compress_type") or has_call(t, "ResponseCompressType"),
    "set_server_timeout": lambda t: has_field(t, "timeout") or has_call(t, "Timeout"),
}
SERIAL = ("SerializeToZeroCopyStream", "SerializePartialToZeroCopyStream", "SerializeToCodedStream")
PARSE = ("ParseFromZeroCopyStream", "ParsePartialFromZeroCopyStream", "MergeFromZeroCopyStream", "ParseFromBoundedZeroCopyStream",
         "ParsePartialFromBoundedZeroCopyStream", "MergePartialFromCodedStream", "ParseFromString", "ParseFromArray")


def narrowed(t):
    """an integer conversion to less than 64 bits somewhere in the term"""
    return contains(t, lambda y: len(y) >= 3 and y[0] == "trunc" and isinstance(y[2], int) and y[2] < 64)


def request_rules(R, P):
    R.rule("C02.request", "a request carries a sequence number no other call of the client has, its method, its compression and its time limit, and the body is the caller's request")
    f = P.fn("RpcClientImpl::CallMethod")
    cn = len(f.params) - 1
    rq = 0
    def step(ex, st, fr, ev, s):
        seq, fields, meta, body, comp, tl = s
        k = ev[0]
        if k == "branch":
            t, tr = unneg(ev[1], ev[2])
            if t[0] == "lt" and (has_call(t, "Timeout") or has_field(t, "timeout")):
                if t[2] == ("c", 1):
                    return (seq, fields, meta, body, comp, not tr)
                if t[1] == ("c", 0):
                    return (seq, fields, meta, body, comp, tr)
        if k == "write" and locis(ev[1], "_sequence_id", at(f, cn)):
            if not contains(ev[2], lambda y: y[0] in ("rmw", "xchg") and contains(y, lambda z: z == ("F", ("this",), "RpcClientImpl::_next_request_id") or z == ("this",))):
                ex.report(st, fr, ev[4], "the sequence number does not come from an atomic step of the client's counter")
            wide = {(P.field_type(y[1][2]) or {}).get("n", "").replace("volatile ", "") for y in subterms(ev[2]) if y[0] in ("rmw", "xchg") and y[1][0] == "F"}
            if narrowed(ev[2]) or wide & {"int", "unsigned int", "short", "unsigned short"}:
                ex.report(st, fr, ev[4], "the sequence number is narrowed and comes round again")
            if "set_sequence_id" in fields:
                ex.report(st, fr, ev[4], "the call changes its sequence number after it was written into the request")
            return (True, fields, meta, body, comp, tl)
        if k == "call":
            x = short(ev[1])
            if ev[1].startswith("RpcMeta::set_"):
                ok = REQ_FIELDS.get(x)
                if ok and not ok(ev[3][0]):
                    ex.report(st, fr, ev[4], "the request is described by a wrong value (%s)" % x[4:])
                if x == "set_sequence_id" and not seq:
                    ex.report(st, fr, ev[4], "the request is described before the call has its sequence number")
                if x == "set_sequence_id" and narrowed(ev[3][0]):
                    ex.report(st, fr, ev[4], "the sequence number is narrowed")
                return (seq, fields | {x}, ev[2], body, comp, tl)
            if x in SERIAL and meta and ev[2] == meta:
                for n in ("set_type", "set_sequence_id", "set_method", "set_compress_type", "set_expected_response_compress_type"):
                    if n not in fields:
                        ex.report(st, fr, ev[4], "the request is sent without its %s" % n[4:].replace("_", " "))
                if tl and "set_server_timeout" not in fields:
                    ex.report(st, fr, ev[4], "the time limit is not sent with the request")
                return (seq, fields | {"meta"}, meta, body, comp, tl)
            if x in SERIAL and ev[2] == ("p", f.key, rq):
                if "Partial" in x:
                    ex.report(st, fr, ev[4], "an incomplete request is sent")
                if "meta" not in fields:
                    ex.report(st, fr, ev[4], "the body is written before its description")
                if body:
                    ex.report(st, fr, ev[4], "the request body is written twice")
                return (seq, fields, meta, True, comp, tl)
            if x == "SetRequestBuffer":
                if not body:
                    ex.report(st, fr, ev[4], "the request is queued without its body")
                return (seq, fields | {"buf"}, meta, body, comp, tl)
            if x == "call_method":
                if "buf" not in fields:
                    ex.report(st, fr, ev[4], "the call is sent without its request")
                if not subj(ev[3][0], f, cn):
                    ex.report(st, fr, ev[4], "another call is sent")
        return s
    automaton(R, P, f, "C02.request", f.name, (False, frozenset(), None, False, None, None), step,
              any_of(calls_named(*(tuple(REQ_FIELDS) + SERIAL + ("SetRequestBuffer", "SetSequenceId", "call_method"))), writes_field("_sequence_id"), mentions_field("_next_request_id")),
              boundary=CB)
    # the message that is sent is the one that was prepared
    f = P.fn("RpcClientStream::call_method")
    def step(ex, st, fr, ev, s):
        if ev[0] == "call" and short(ev[1]) == "async_send_message":
            if not (has_field(ev[3][0], "_request_buffer") or has_call(ev[3][0], "RequestBuffer")) or not subj(ev[3][1], f, 0):
                ex.report(st, fr, ev[4], "what is sent is not the request of the call")
        return s
    automaton(R, P, f, "C02.request", f.name, 0, step, calls_named("async_send_message"), boundary=CB)
    # the counter only moves by atomic steps
    n = 0
    for g in P.fns.values():
        for nid, nd in enumerate(g.nodes):
            if any(fieldis(m, "AtomicCounter64::_counter") for m in core.written_fields(g, nd)):
                n += 1
                if nd["k"] not in ("call", "mcall", "ocall") and not g.d.get("ctor"):
                    R.bad("C02.request", g.name, g.loc(nid), "%s changes the request counter without an atomic operation" % g.name)
    R.decide("C02.request", "steps of the request counter", n > 0, where(f), "the request counter never moves")


def response_rules(R, P):
    R.rule("C02.response", "a response completes the call with its sequence number, taken out under the lock it was found, and reports exactly what the server sent")
    f = P.fn("RpcClientStream::on_received")
    GET = ("has_failed", "failed", "has_error_code", "has_reason", "error_code", "type", "has_compress_type", "sequence_id")
    def fact(s, n):
        return dict(s[0]).get(n)
    def put(s, n, v):
        d = dict(s[0])
        d[n] = v
        return (tuple(sorted(d.items())), s[1])
    def step(ex, st, fr, ev, s):
        k = ev[0]
        if k == "branch":
            t, tr = unneg(ev[1], ev[2])
            if t[0] == "eq" and is_call(unwrap(t[1]), "type") and const(t[2]) is not None:
                return put(s, "type", (const(t[2]) == 1) == tr if const(t[2]) == 1 else (False if tr else None))
            if t[0] == "eq" and is_call(unwrap(t[1]), "error_code") and const(t[2]) == 0:
                return put(s, "nonzero", not tr)
            t, tr = test_of(ev)
            if is_call(unwrap(t), "error_code"):
                return put(s, "nonzero", tr)
            for n in ("has_failed", "failed", "has_error_code", "has_reason"):
                if is_call(unwrap(t), n):
                    return put(s, n, tr)
            if is_call(unwrap(t), *PARSE):
                return put(s, "parsed", tr)
        if k == "lock" and locis(ev[1], "_controller_map_lock"):
            return put(put(s, "held", True), "found", None)
        if k == "unlock" and locis(ev[1], "_controller_map_lock"):
            return put(put(s, "held", False), "found", None)
        if k == "call":
            x = short(ev[1])
            if ev[2] and locis(ev[2], "_controller_map"):
                if x == "find":
                    if not has_call(ev[3][0], "sequence_id") or narrowed(ev[3][0]):
                        ex.report(st, fr, ev[4], "the call is looked up by something else than the sequence number of the response")
                    return put(s, "found", True)
                if x == "erase":
                    if not fact(s, "found"):
                        ex.report(st, fr, ev[4], "the call is taken out after the lock it was found under was released: two responses can both find it")
                    return put(s, "taken", True)
                if x in ("operator[]", "insert"):
                    ex.report(st, fr, ev[4], "a response inserts into the calls of the connection")
            if x == "SetResponseBuffer":
                if not (ev[3] and subj(ev[3][0], f, 0)):
                    ex.report(st, fr, ev[4], "the call is given another message than the one received")
                return put(s, "buffer", True)
            if x == "SetResponseCompressType":
                t = unwrap(ev[3][0])
                if not (const(t) == 0 or is_call(t, "compress_type")):
                    ex.report(st, fr, ev[4], "the call is given another compression than the response says")
                return put(s, "comp", True)
            if is_done(ev):
                if not fact(s, "type"):
                    ex.report(st, fr, ev[4], "a message that is not a response completes a call")
                if fact(s, "parsed") is not True:
                    ex.report(st, fr, ev[4], "a call is completed from a description that could not be parsed")
                c = const(ev[3][0])
                if c == 0:
                    if fact(s, "failed") is not False or fact(s, "has_failed") is not True:
                        ex.report(st, fr, ev[4], "a call is reported as successful although the server did not say so")
                    if not fact(s, "buffer") or not fact(s, "comp"):
                        ex.report(st, fr, ev[4], "a call is reported as successful before it has its response")
                elif c is not None:
                    if fact(s, "has_failed") is True and fact(s, "failed") is False:
                        ex.report(st, fr, ev[4], "a successful response is reported as an error")
                    if fact(s, "failed") is True and fact(s, "has_error_code") is True and fact(s, "has_reason") is True and fact(s, "nonzero") is not False:
                        ex.report(st, fr, ev[4], "the error the server sent is replaced")
                else:
                    if not is_call(unwrap(ev[3][0]), "error_code") or not is_call(unwrap(ev[3][1]), "reason"):
                        ex.report(st, fr, ev[4], "the reported outcome is not the one the server sent")
                    if fact(s, "failed") is not True:
                        ex.report(st, fr, ev[4], "a response that did not fail is reported with its error code")
                    if fact(s, "has_error_code") is not True or fact(s, "has_reason") is not True:
                        ex.report(st, fr, ev[4], "an error the server did not send is reported")
                    if fact(s, "nonzero") is not True:
                        ex.report(st, fr, ev[4], "a failed response whose error code is 0 completes the call as successful")
        return s
    outs, _ = automaton(R, P, f, "C02.response", f.name, ((), 0), step,
                        any_of(calls_named("Done", "SetResponseBuffer", "SetResponseCompressType", *(GET + PARSE)), mentions_field("_controller_map")), boundary=CB)
    if not any(dict(s.mon[0]).get("taken") for s in outs):
        R.bad("C02.response", f.name, where(f), "no path takes the call out of the connection")


def outcome_rules(R, P):
    R.rule("C02.outcome", "the response message is filled from the response exactly when the call succeeded, and a response that cannot be parsed fails the call")
    f = P.fn("RpcClientImpl::DoneCallback")
    def step(ex, st, fr, ev, s):
        failed, none, parsed, res, setf = s
        k = ev[0]
        if k == "branch":
            t, tr = test_of(ev)
            if has_field(t, "_error_code") or is_call(t, "Failed"):
                u, utr = unneg(ev[1], ev[2])
                return (tr, none, parsed, res, setf)
            if is_call(unwrap(t), *PARSE):
                return (failed, none, parsed, tr, setf)
            if has_call(t, "ResponseCompressType") or has_field(t, "response_compress_type"):
                u, utr = unneg(ev[1], ev[2])
                if u[0] == "eq" and const(u[2]) == 0:
                    return (failed, utr, parsed, res, setf)
        if k == "call":
            x = short(ev[1])
            if x in PARSE and ev[2] == ("p", f.key, 0):
                if failed is not False:
                    ex.report(st, fr, ev[4], "a failed call changes the response message")
                if parsed:
                    ex.report(st, fr, ev[4], "the response is parsed twice")
                if "Partial" in x:
                    ex.report(st, fr, ev[4], "an incomplete response is accepted as complete")
                src = ev[3][0]
                if not (has_field(src, "_response_buffer") or has_call(src, "ResponseBuffer")):
                    ex.report(st, fr, ev[4], "the response message is filled from something else than the response")
                c = [y for y in subterms(src) if y and y[0] == "call" and len(y) > 3 and short(y[1]) == "get_compressed_input_stream"]
                if none is True and c:
                    ex.report(st, fr, ev[4], "an uncompressed response is decompressed")
                if none is False and not c:
                    ex.report(st, fr, ev[4], "a compressed response is parsed as it is")
                for y in c:
                    if not (has_call(y[3][1], "ResponseCompressType") or has_field(y[3][1], "response_compress_type")):
                        ex.report(st, fr, ev[4], "the response is decompressed with another method than it was compressed with")
                return (failed, none, True, None, setf)
            if x == "SetFailed" and ev[2] == at(f, 1):
                c = const(ev[3][0])
                if len(ev[3]) > 1 and (c == 0 or c is None):
                    ex.report(st, fr, ev[4], "a response that cannot be parsed is reported as successful")
                if failed is not False or res is not False:
                    ex.report(st, fr, ev[4], "the outcome of the call is replaced")
                return (failed, none, parsed, res, True)
        return s
    def fin(ex, st, fr, s):
        failed, none, parsed, res, setf = s
        if failed is None:
            ex.report(st, fr, None, "the response is handled without looking at the outcome of the call")
        if failed is False and not parsed:
            ex.report(st, fr, None, "a successful call does not fill in the response message")
        if parsed and res is not True and not setf:
            ex.report(st, fr, None, "a response that could not be parsed leaves the call successful")
    automaton(R, P, f, "C02.outcome", f.name, (None, None, False, None, False), step, calls_named("SetFailed", "Failed", "ResponseCompressType", *PARSE), fin, boundary=CB)
    # the recorded outcome
    f = P.fn(CNTL + "::SetFailed(int,const std::string &)") if (CNTL + "::SetFailed(int,const std::string &)") in P.fns else \
        [g for g in P.all(CNTL + "::SetFailed") if len(g.params) == 2][0]
    def step(ex, st, fr, ev, s):
        if ev[0] == "write" and locis(ev[1], "_error_code"):
            if unwrap(ev[2]) != ("p", f.key, 0):
                ex.report(st, fr, ev[4], "the recorded error code is not the reported one")
            return (True, s[1])
        if ev[0] == "call" and short(ev[1]) in ("operator=", "assign") and ev[2] and locis(ev[2], "_reason"):
            if not contains(ev[3][0], lambda y: y == ("p", f.key, 1)):
                ex.report(st, fr, ev[4], "the recorded reason is not the reported one")
            return (s[0], True)
        return s
    def fin(ex, st, fr, s):
        if not s[0] or not s[1]:
            ex.report(st, fr, None, "a reported outcome is not recorded")
    automaton(R, P, f, "C02.outcome", f.name, (False, False), step, writes_field("_error_code", "_reason"), fin)
    for name, want in (("Failed", lambda t, tr: t[0] == "eq" and is_ld(t[1], "_error_code") and const(t[2]) == 0 and not tr),
                       ("ErrorCode", lambda t, tr: is_ld(unwrap(t), "_error_code"))):
        g = P.fn(CNTL + "::" + name)
        def step(ex, st, fr, ev, s):
            if ev[0] == "ret" and fr.depth == 0:
                t, tr = unneg(ev[1], True)
                if not want(t, tr):
                    ex.report(st, fr, ev[2], "the outcome shown to the user is not the recorded one")
            return s
        automaton(R, P, g, "C02.outcome", g.name, 0, step, mentions_field("_error_code"), ident=name)
    n = 0
    for g in P.fns.values():
        for nid, nd in enumerate(g.nodes):
            if any(fieldis(m, "RpcControllerImpl::_error_code") for m in core.written_fields(g, nd)):
                n += 1
                if g.key != f.key and not g.d.get("ctor") and not is_helper(P, g):
                    R.bad("C02.outcome", g.name, g.loc(nid), "%s changes the outcome of a call" % g.name)
    R.decide("C02.outcome", "writers of the outcome", n > 0, where(f), "the outcome is never recorded")
    # the public controller shows the same outcome
    for name in ("Failed", "ErrorCode"):
        g = P.fn("RpcController::" + name)
        def step(ex, st, fr, ev, s):
            if ev[0] == "ret" and fr.depth == 0:
                if not (has_field(ev[1], "_error_code") or has_field(ev[1], "_reason") or has_call(ev[1], CNTL + "::" + name)):
                    ex.report(st, fr, ev[2], "the outcome shown to the user is not that of the call")
            return s
        automaton(R, P, g, "C02.outcome", g.name, 0, step, mentions_field("_error_code", "_reason"), ident=name)


# ------------------------------------------------------------------ C03
def posters(P):
    """the functions through which callbacks of the user reach the callback threads"""
    return sorted({g.name for g in P.fns.values() if g.cls == "RpcClientImpl" and g.params and any(
        n["k"] == "mem" and fieldis(n.get("fld"), "_callback_thread_group") for n in g.nodes)})


def deliver(R, P, f, rule, done, counted):
    """a completion is delivered once: its blocking caller is woken, or its callback runs on a callback thread, or at once when there are none left"""
    def step(ex, st, fr, ev, s):
        sync, act, cnt, gone = s
        k = ev[0]
        if k == "branch":
            t, tr = test_of(ev)
            if has_field(t, "_is_sync"):
                return (tr, act, cnt, gone)
            if is_ld(t, "_callback_thread_group"):
                return (sync, act, cnt, not tr)
        if k == "rmw" and has_field(ev[1], "_wait_count"):
            if const(ev[2]) != -1:
                ex.report(st, fr, ev[3], "a completed call is not taken off the number of waiting calls")
            return (sync, act, cnt + 1 if cnt < 2 else cnt, gone)
        if k == "call":
            x = short(ev[1])
            a = None
            if x == "Signal":
                if not has_field(ev[2], "_wait_event"):
                    ex.report(st, fr, ev[4], "another caller is woken")
                if sync is False:
                    ex.report(st, fr, ev[4], "an asynchronous call wakes a waiting caller instead of running its callback")
                a = "signal"
            elif x == "post" and ev[3] and ev[3][0] == done:
                if not has_field(ev[2], "_callback_thread_group"):
                    ex.report(st, fr, ev[4], "the callback does not run on a callback thread")
                if gone is not False:
                    ex.report(st, fr, ev[4], "the callback is given to callback threads that may have ended")
                a = "post"
            elif (x == "Run" and ev[2] == done) or (x == "dispatch" and ev[3] and ev[3][0] == done):
                if gone is not True:
                    ex.report(st, fr, ev[4], "the callback of the user runs inside the thread that completes the call")
                a = "post"
            if a:
                if act:
                    ex.report(st, fr, ev[4], "one completion is delivered twice")
                if a == "post" and sync is True:
                    ex.report(st, fr, ev[4], "a blocking call runs a callback instead of waking its caller")
                return (sync, a, cnt, gone)
        return s
    def fin(ex, st, fr, s):
        if not s[1]:
            ex.report(st, fr, None, "a completion is not delivered")
        if counted and s[2] != 1:
            ex.report(st, fr, None, "a completed call is taken off the number of waiting calls %d times" % s[2])
    automaton(R, P, f, rule, f.name, (None, None, 0, None), step,
              any_of(calls_named("Signal", "post", "dispatch", "Run"), mentions_field("_is_sync", "_wait_count", "_wait_event", "_callback_thread_group")), fin,
              enter=posters(P), boundary=CB + ["WaitEvent::Signal", "ThreadGroupImpl::post", "ThreadGroupImpl::dispatch"])


def delivery_rules(R, P):
    R.rule("C03.delivery", "a blocking call returns only after its completion and is woken once; an asynchronous call runs its callback once, on a callback thread, and never blocks its caller")
    f = P.fn("SimpleRpcChannelImpl::DoneCallback")
    deliver(R, P, f, "C03.delivery", ("p", f.key, 0), True)
    # the call itself
    f = P.fn("SimpleRpcChannelImpl::CallMethod")
    start = ("RpcClientImpl::CallMethod", DONE)
    def step(ex, st, fr, ev, s):
        if s == "dead":
            return s
        null, sync, event, begun, waited, cnt = s
        k = ev[0]
        if k == "branch":
            t, tr = test_of(ev)
            if t == ("p", f.key, 4):
                return (not tr, sync, event, begun, waited, cnt)
            if is_ld(t, "_is_sync") and tr != sync and sync is not None:
                return "dead"    # a fresh call is asynchronous until it is marked: not a path
        if k == "write" and locis(ev[1], "_is_sync"):
            return (null, const(ev[2]) == 1 or (None if const(ev[2]) is None else False), event, begun, waited, cnt)
        if k == "rmw" and has_field(ev[1], "_wait_count"):
            if const(ev[2]) != 1 or begun:
                ex.report(st, fr, ev[3], "the call is not counted as waiting before it can complete")
            return (null, sync, event, begun, waited, min(cnt + 1, 2))
        if k == "call":
            x = short(ev[1])
            if x == "SetWaitEvent":
                if begun:
                    ex.report(st, fr, ev[4], "the event to wait for is created after the call may already have completed")
                if not contains(ev[3][0], lambda y: y[0] == "new" and y[1] == "WaitEvent"):
                    ex.report(st, fr, ev[4], "the call does not wait for an event of its own")
                return (null, sync, True, begun, waited, cnt)
            if ev[1] in start or (x == "Run" and len(ev[3]) >= 4):
                if null is None:
                    ex.report(st, fr, ev[4], "the call begins before it is known whether its caller waits")
                if null is True and not (sync is True and event):
                    ex.report(st, fr, ev[4], "a blocking call begins without the event its caller waits for")
                if null is False and sync is True:
                    ex.report(st, fr, ev[4], "a call with a callback is treated as blocking")
                return (null, sync, event, True, waited, cnt)
            if x == "Wait":
                if not begun:
                    ex.report(st, fr, ev[4], "the caller waits before the call begins")
                if null is not True:
                    ex.report(st, fr, ev[4], "the caller of an asynchronous call is blocked")
                return (null, sync, event, begun, True, cnt)
        return s
    def fin(ex, st, fr, s):
        if s == "dead":
            return
        null, sync, event, begun, waited, cnt = s
        if null is True and not waited:
            ex.report(st, fr, None, "a blocking call returns before it is complete")
        if cnt != 1:
            ex.report(st, fr, None, "the call is counted as waiting %d times" % cnt)
    automaton(R, P, f, "C03.delivery", f.name, (None, False, False, False, False, 0), step,
              any_of(calls_named("CallMethod", "Done", "Run", "Wait", "SetWaitEvent", "SetSync"), writes_field("_is_sync"), mentions_field("_wait_count")), fin,
              boundary=CB + ["WaitEvent::Wait"])
    # event
    R.rule("C03.event", "waiting ends only when the event was signalled, and a signal is never lost")
    f = P.fn("WaitEvent::Wait")
    def step(ex, st, fr, ev, s):
        held, sig = s
        k = ev[0]
        if k == "lock":
            return (True, None)
        if k == "unlock":
            return (False, sig)
        if k == "call" and short(ev[1]) in ("pthread_cond_wait", "pthread_cond_timedwait"):
            if not held:
                ex.report(st, fr, ev[4], "the event is waited for without its lock")
            if sig is not False:
                ex.report(st, fr, ev[4], "the caller waits although the event was signalled")
            return (held, None)
        if k == "branch" and has_field(ev[1], "_signaled"):
            t, tr = test_of(ev)
            if not held:
                return s
            return (held, tr)
        return s
    def fin(ex, st, fr, s):
        if s[1] is not True:
            ex.report(st, fr, None, "the wait ends although the event was not signalled")
        if s[0]:
            ex.report(st, fr, None, "the lock of the event is kept")
    automaton(R, P, f, "C03.event", f.name, (False, None), step, any_of(mentions_field("_signaled"), calls_named("pthread_cond_wait")), fin)
    f = P.fn("WaitEvent::Signal")
    def step(ex, st, fr, ev, s):
        held, sig, woke = s
        k = ev[0]
        if k == "lock":
            return (True, sig, woke)
        if k == "unlock":
            return (False, sig, woke)
        if k == "write" and locis(ev[1], "_signaled"):
            if not held:
                ex.report(st, fr, ev[4], "the event is signalled without its lock: a waiter between its test and its sleep misses it")
            return (held, const(ev[2]) == 1, woke)
        if k == "call" and short(ev[1]) in ("pthread_cond_signal", "pthread_cond_broadcast"):
            return (held, sig, True)
        return s
    def fin(ex, st, fr, s):
        if not s[1] or not s[2]:
            ex.report(st, fr, None, "the event is signalled without %s" % ("waking the waiter" if s[1] else "recording it"))
        if s[0]:
            ex.report(st, fr, None, "the lock of the event is kept")
    automaton(R, P, f, "C03.event", f.name, (False, False, False), step, any_of(mentions_field("_signaled"), calls_named("pthread_cond_signal")), fin)
    # a closure given to a thread group runs once
    R.rule("C03.post", "a closure given to a thread group is queued there once and run once")
    for g in P.all("ThreadGroupImpl::post"):
        def step(ex, st, fr, ev, s):
            if ev[0] == "call" and ev[1].startswith("boost::asio") and short(ev[1]) in ("post", "dispatch"):
                if short(ev[1]) == "dispatch":
                    ex.report(st, fr, ev[4], "a posted closure may run inside the call that posts it")
                if not contains(("x",) + tuple(ev[3]), lambda y: y == ("p", g.key, 0)):
                    ex.report(st, fr, ev[4], "another closure is queued")
                return s + 1 if s < 2 else s
            return s
        def fin(ex, st, fr, s):
            if s != 1:
                ex.report(st, fr, None, "a posted closure is queued %d times" % s)
        automaton(R, P, g, "C03.post", "%s(%s)" % (g.name, g.params[0].get("t", "") if isinstance(g.params[0], dict) else ""), 0, step, calls_named("post", "dispatch"), fin, ident=g.key)
    for g in P.all("ThreadGroupImpl::closure_run_helper") + P.all("ThreadGroupImpl::ext_closure_run_helper"):
        def step(ex, st, fr, ev, s):
            if ev[0] == "call" and short(ev[1]) == "Run" and ev[2] == ("p", g.key, 0):
                return s + 1 if s < 2 else s
            return s
        def fin(ex, st, fr, s):
            if s != 1:
                ex.report(st, fr, None, "a posted closure is run %d times" % s)
        automaton(R, P, g, "C03.post", g.name, 0, step, calls_named("Run"), fin, ident=g.key)


# ------------------------------------------------------------------ C04
def limit_rules(R, P):
    R.rule("C04.limit", "the time limit and the compression of a call are the ones set by the user, else by the method, else by the service, and the limit is always positive")
    f = P.fn(CNTL + "::FillFromMethodDescriptor")
    OPT = ("timeout", "request_compress_type", "response_compress_type")
    EXT = {"timeout": "method_timeout", "request_compress_type": "request_compress_type", "response_compress_type": "response_compress_type"}
    def isg(t, n):
        return contains(t, lambda y: len(y) >= 2 and y[0] == "G" and short(str(y[1])) == n)
    def user(t, o):
        return contains(t, lambda y: y[0] == "F" and len(y) == 3 and fieldis(y[2], "RequestOptions::" + o) and y[1][0] == "F" and fieldis(y[1][2], "_user_options"))
    def step(ex, st, fr, ev, s):
        d = dict(s)
        k = ev[0]
        if k == "branch":
            t, tr = unneg(ev[1], ev[2])
            for o in OPT:
                if t[0] in ("eq", "lt") and user(t, o):
                    if t[0] == "lt":
                        d["user", o] = (not tr) if t[2] in (("c", 1), ("c", 0)) else tr
                    elif const(t[2]) == -1 or const(t[1]) == -1:
                        d["user", o] = not tr
                    return tuple(sorted(d.items(), key=str))
                t2, tr2 = test_of(ev)
                if is_call(t2, "HasExtension") and isg(t2, EXT[o]):
                    d["ext", o] = tr2
                    return tuple(sorted(d.items(), key=str))
            if t[0] == "lt" and is_call(unwrap(t[1]), "GetExtension"):
                d["pos"] = not tr if t[2] in (("c", 1), ("c", 0)) else None
            elif t[0] == "lt" and is_call(unwrap(t[2]), "GetExtension"):
                d["pos"] = tr if t[1] == ("c", 0) else None
            return tuple(sorted(d.items(), key=str))
        if k == "write" and ev[1] and ev[1][0] == "F" and ev[1][1][0] == "F":
            o = short(ev[1][2])
            if o in OPT and fieldis(ev[1][1][2], "_user_options"):
                ex.report(st, fr, ev[4], "an option set by the user is replaced")
            if o in OPT and fieldis(ev[1][1][2], "_auto_options"):
                v = unwrap(ev[2])
                e = d.get(("ext", o))
                if o == "timeout":
                    if const(v) is not None:
                        if const(v) < 1:
                            ex.report(st, fr, ev[4], "a call gets no positive time limit")
                        if d.get("pos") is not False:
                            ex.report(st, fr, ev[4], "the configured time limit is replaced")
                    elif isg(v, "method_timeout"):
                        if d.get("pos") is not True:
                            ex.report(st, fr, ev[4], "a call gets a time limit that may not be positive")
                        if e is not True:
                            ex.report(st, fr, ev[4], "the method's time limit is used although the method has none")
                    elif isg(v, "service_timeout"):
                        if d.get("pos") is not True:
                            ex.report(st, fr, ev[4], "a call gets a time limit that may not be positive")
                        if e is not False:
                            ex.report(st, fr, ev[4], "the service's time limit overrides the method's")
                    else:
                        ex.report(st, fr, ev[4], "the time limit is not the configured one")
                else:
                    if const(v) is not None:
                        if const(v) != 0 or e is not False:
                            ex.report(st, fr, ev[4], "the configured compression is replaced")
                    elif not (is_call(v, "GetExtension") and isg(v, EXT[o])) or e is not True:
                        ex.report(st, fr, ev[4], "the compression is not the configured one")
                d["set", o] = True
                return tuple(sorted(d.items(), key=str))
        return s
    def fin(ex, st, fr, s):
        d = dict(s)
        for o in OPT:
            if d.get(("user", o)) is not True and not d.get(("set", o)):
                ex.report(st, fr, None, "%s of the call is not taken from the description of the method" % ("the time limit" if o == "timeout" else "the compression"))
    automaton(R, P, f, "C04.limit", f.name, (), step, any_of(calls_named("HasExtension", "GetExtension"), mentions_field("_user_options", "_auto_options")), fin)
    for fn, o in (("Timeout", "timeout"), ("RequestCompressType", "request_compress_type"), ("ResponseCompressType", "response_compress_type")):
        g = P.fn(CNTL + "::" + fn)
        def step(ex, st, fr, ev, s):
            if ev[0] == "branch":
                t, tr = unneg(ev[1], ev[2])
                if t[0] == "lt" and user(t[1], o) and t[2] in (("c", 1), ("c", 0)):
                    return not tr
                if t[0] == "lt" and user(t[2], o):
                    return tr
                if t[0] == "eq" and user(t, o):
                    return not tr
            if ev[0] == "ret" and fr.depth == 0:
                u = user(ev[1], o)
                a = contains(ev[1], lambda y: y[0] == "F" and len(y) == 3 and fieldis(y[2], "RequestOptions::" + o) and y[1][0] == "F" and fieldis(y[1][2], "_auto_options"))
                if not (u or a) or (u and s is not True) or (a and s is not False):
                    ex.report(st, fr, ev[2], "the option set by the user does not take precedence")
            return s
        automaton(R, P, g, "C04.limit", g.name, None, step, mentions_field("_user_options", "_auto_options"), ident=fn)
    # expiration
    R.rule("C04.arm", "every call with a time limit is given its expiration and registered with the timeout manager before it is sent; a call that cannot be registered fails at once")
    f = P.fn(CNTL + "::StartTimer")
    def step(ex, st, fr, ev, s):
        k = ev[0]
        if k == "branch":
            t, tr = unneg(ev[1], ev[2])
            if t[0] == "lt" and (has_call(t, "Timeout") or has_field(t, "timeout")):
                if t[2] in (("c", 1), ("c", 0)):
                    return (not tr, s[1])
                if t[1] in (("c", 0),):
                    return (tr, s[1])
        v = None
        if k == "call" and ev[2] and locis(ev[2], "_expiration") and short(ev[1]) == "operator=":
            v, nid = ev[3][0], ev[4]
        if k == "write" and locis(ev[1], "_expiration"):
            v, nid = ev[2], ev[4]
        if v is not None:
            now = has_call(v, "ptime_now") or has_call(v, "microsec_clock::local_time", "local_time", "universal_time")
            lim = has_call(v, "Timeout") or has_field(v, "timeout")
            if now:
                if not lim:
                    ex.report(st, fr, nid, "the expiration does not follow from the time limit")
                if s[0] is not True and s[0] is not None:
                    ex.report(st, fr, nid, "a call without a time limit expires")
                if contains(v, lambda y: len(y) > 1 and y[0] == "call" and any(short(y[1]) == w for w in ("time_duration_seconds", "time_duration_microseconds", "time_duration_minutes", "seconds", "microseconds", "minutes", "hours"))):
                    ex.report(st, fr, nid, "the time limit is taken in another unit than milliseconds")
                if not contains(v, lambda y: len(y) > 3 and y[0] == "call" and short(y[1]) in ("operator+", "operator+=")) :
                    ex.report(st, fr, nid, "the expiration is not the time limit from now")
            elif s[0] is not False:
                ex.report(st, fr, nid, "a call with a time limit never expires")
            return (s[0], True)
        return s
    def fin(ex, st, fr, s):
        if not s[1]:
            ex.report(st, fr, None, "a call is not given its expiration")
    automaton(R, P, f, "C04.arm", f.name, (None, False), step, calls_named("Timeout", "ptime_now", "ptime_infin", "operator="), fin)
    f = P.fn("SimpleRpcChannelImpl::CallMethod")
    def step(ex, st, fr, ev, s):
        if ev[0] == "call":
            x = short(ev[1])
            if x in ("FillFromMethodDescriptor",):
                return s | {"fill"}
            if x == "StartTimer":
                if "fill" not in s:
                    ex.report(st, fr, ev[4], "the time limit starts before it is known")
                return s | {"timer"}
            if x == "SetRemoteEndpoint":
                return s | {"remote"}
            if ev[1] == "RpcClientImpl::CallMethod":
                if "timer" not in s:
                    ex.report(st, fr, ev[4], "the call is sent without its time limit")
                if "fill" not in s:
                    ex.report(st, fr, ev[4], "the call is sent without its options")
                if "remote" not in s:
                    ex.report(st, fr, ev[4], "the call is sent without its destination")
        return s
    automaton(R, P, f, "C04.arm", f.name, frozenset(), step, calls_named("FillFromMethodDescriptor", "StartTimer", "CallMethod", "SetRemoteEndpoint"), boundary=CB + [CNTL + "::StartTimer", CNTL + "::SetRemoteEndpoint"])
    f = P.fn("RpcClientImpl::CallMethod")
    cn = len(f.params) - 1
    def step(ex, st, fr, ev, s):
        pos, added, ok = s
        if ev[0] == "branch":
            t, tr = unneg(ev[1], ev[2])
            if t[0] == "lt" and (has_call(t, "Timeout") or has_field(t, "timeout")):
                if t[2] in (("c", 1),):
                    return (not tr, added, ok)
                if t[1] in (("c", 0),):
                    return (tr, added, ok)
            t, tr = test_of(ev)
            if is_call(t, "add") and added:
                return (pos, added, tr)
        if ev[0] == "call":
            x = short(ev[1])
            if ev[1] == "RpcTimeoutManager::add":
                if pos is False:
                    ex.report(st, fr, ev[4], "a call without a time limit is given a deadline")
                if added:
                    ex.report(st, fr, ev[4], "the deadline is registered twice")
                if not subj(ev[3][0], f, cn):
                    ex.report(st, fr, ev[4], "the deadline of another call is registered")
                return (pos, True, None)
            if x == "call_method":
                if pos is not False and not added:
                    ex.report(st, fr, ev[4], "a call with a time limit is sent without its deadline")
                if added and ok is not True:
                    ex.report(st, fr, ev[4], "a call whose deadline could not be registered is sent")
        return s
    automaton(R, P, f, "C04.arm", f.name, (None, False, None), step, calls_named("add", "call_method", "Timeout"), boundary=CB)


def expire_rules(R, P):
    R.rule("C04.register", "a deadline is registered under a fresh identifier in one step, and reported as registered exactly when it is")
    f = P.fn("RpcTimeoutManager::add")
    def step(ex, st, fr, ev, s):
        held, ids, idset, pushed = s
        k = ev[0]
        if k == "lock" and locis(ev[1], "_add_list_lock"):
            return (True, None, idset, pushed)
        if k == "unlock" and locis(ev[1], "_add_list_lock"):
            return (False, None, idset, pushed)
        if k == "write" and locis(ev[1], "_next_id"):
            if not held:
                ex.report(st, fr, ev[4], "two deadlines may get the same identifier")
            return (held, True, idset, pushed)
        if k == "write" and locis(ev[1], "_timeout_id"):
            c = const(ev[2])
            if c is None and not has_field(ev[2], "_next_id"):
                ex.report(st, fr, ev[4], "the call remembers another identifier than its deadline")
            return (held, ids, "zero" if c == 0 else "id", pushed)
        if k == "call" and ev[1].endswith("Event::{ctor}") and len(ev[3]) >= 3:
            a = ev[3]
            if not has_field(a[0], "_next_id"):
                ex.report(st, fr, ev[4], "the deadline is registered under another identifier than the call remembers")
            if not has_field(a[1], "_expiration") and not has_call(a[1], "Expiration"):
                ex.report(st, fr, ev[4], "the deadline is not the expiration of the call")
            if not subj(a[2], f, 0):
                ex.report(st, fr, ev[4], "the deadline belongs to another call")
            return s
        if k == "call" and ev[2] and locis(ev[2], "_add_list") and short(ev[1]).startswith(("push", "emplace", "insert")):
            if not held:
                ex.report(st, fr, ev[4], "a deadline is registered without the lock")
            if not ids:
                ex.report(st, fr, ev[4], "a deadline is registered in another step than the one that numbers it: deadlines are no longer in the order of their identifiers")
            if idset != "id":
                ex.report(st, fr, ev[4], "a deadline is registered before the call knows its identifier")
            if short(ev[1]) not in ("push_back", "emplace_back"):
                ex.report(st, fr, ev[4], "deadlines are not kept in the order of their identifiers")
            return (held, ids, idset, True)
        if k == "ret" and fr.depth == 0:
            c = const(ev[1])
            if (c == 1) != bool(pushed) or c not in (0, 1):
                ex.report(st, fr, ev[2], "a deadline is reported as registered although it is not" if not pushed else "a registered deadline is reported as not registered")
        return s
    automaton(R, P, f, "C04.register", f.name, (False, None, None, False), step, any_of(mentions_field("_add_list", "_add_list_lock", "_next_id", "_timeout_id")))

    R.rule("C04.expire", "on every tick each registered deadline is kept until it expires, then reported once and dropped, unless the call was answered")
    f = P.fn("RpcTimeoutManager::timer_run")
    EV = "RpcTimeoutManager::_events"
    def iters_of(t):
        """the iterator an event term belongs to"""
        for x in subterms(t):
            if x and x[0] == "F" and len(x) == 3 and x[2] == "*":
                return x[1]
        return None
    def expired(t, tr):
        """truth of 'the deadline has passed' and the iterator tested"""
        t, tr = unneg(t, tr)
        if t[0] != "lt" or not has_field(t, "expiration"):
            return None
        if has_field(t[1], "expiration"):
            return iters_of(t[1]), tr            # expiration < now
        return iters_of(t[2]), not tr            # now < expiration
    # state: boxes (add box, erase box), current add iterator, what happened to it,
    #        current stored iterator, done?, owed erase, erase iterator
    def step(ex, st, fr, ev, s):
        boxes, cur, did, facts_, sit, sdid, owed, eit, edid = s
        k = ev[0]
        def adds(loc):
            return ("add", loc) in boxes
        if k == "call" and short(ev[1]) == "swap" and ev[2]:
            for fld, role in (("_add_list", "add"), ("_erase_set", "erase")):
                a = ev[3][0]
                if locis(ev[2], fld) or locis(a, fld):
                    o = a if locis(ev[2], fld) else ev[2]
                    return (boxes | {(role, o)}, cur, did, facts_, sit, sdid, owed, eit, edid)
        if k == "write" and ev[1] and ev[2]:
            v = ev[2]
            if is_call(v, "begin") and v[2]:
                if ("add", v[2]) in boxes:
                    return (boxes, v, None, (), sit, sdid, owed, eit, edid)
                if ("erase", v[2]) in boxes:
                    return (boxes, cur, did, facts_, sit, sdid, owed, v, None)
                if has_field(v[2], "_events"):
                    return (boxes, cur, did, facts_, v, None, owed, eit, edid)
        if k == "advance":
            if ev[3] == cur:
                if not did:
                    ex.report(st, fr, ev[4], "a registered deadline is passed over")
                return (boxes, ev[2], None, (), sit, sdid, owed, eit, edid)
            if ev[3] == sit:
                if sdid != "told":
                    ex.report(st, fr, ev[4], "an expired deadline is passed over")
                return (boxes, cur, did, facts_, ev[2], None, owed, eit, edid)
            if ev[3] == eit:
                if not edid:
                    ex.report(st, fr, ev[4], "an answered call keeps its deadline")
                return (boxes, cur, did, facts_, sit, sdid, owed, ev[2], None)
            return s
        if k == "branch":
            e = expired(ev[1], ev[2])
            if e and e[0] == cur and cur is not None:
                return (boxes, cur, did, tuple(sorted(set(facts_) | {("exp", e[1])}, key=str)), sit, sdid, owed, eit, edid)
            if e and e[0] == sit and sit is not None:
                return (boxes, cur, did, facts_, sit, ("exp", e[1]) if sdid is None else sdid, owed, eit, edid)
            t, tr = unneg(ev[1], ev[2])
            if t[0] in ("lt", "eq") and has_field(t, "id") and iters_of(t) is not None:
                fs = set(facts_)
                if t[0] == "eq":
                    fs.add("same" if tr else "differ")
                elif tr:
                    fs.add("less" if has_field(t[1], "id") else "greater")
                else:
                    fs.add("notless" if has_field(t[1], "id") else "notgreater")
                if {"notless", "notgreater"} <= fs:
                    fs.add("same")
                d2, e2 = did, edid
                if "same" in fs:
                    d2, e2 = did or "cancelled", True
                return (boxes, cur, d2, tuple(sorted(fs, key=str)), sit, sdid, owed, eit, e2)
        if k == "call":
            x = short(ev[1])
            if x == "notify_timeout":
                it = iters_of(ev[3][0])
                if it == cur and it is not None:
                    if ("exp", True) not in facts_:
                        ex.report(st, fr, ev[4], "a deadline is reported before it expires")
                    if "same" in facts_:
                        ex.report(st, fr, ev[4], "the deadline of an answered call is reported")
                    if did:
                        ex.report(st, fr, ev[4], "one deadline is reported twice")
                    return (boxes, cur, "told", facts_, sit, sdid, owed, eit, edid)
                if it == sit and it is not None:
                    if sdid == "told":
                        ex.report(st, fr, ev[4], "one deadline is reported twice")
                    if sdid == ("exp", False):
                        ex.report(st, fr, ev[4], "a deadline is reported before it expires")
                    return (boxes, cur, did, facts_, sit, "told", True, eit, edid)
            if x in ("insert", "emplace") and ev[2] and has_field(ev[2], "_events"):
                if iters_of(ev[3][0]) == cur and cur is not None:
                    if ("exp", True) in facts_:
                        ex.report(st, fr, ev[4], "an expired deadline is kept instead of being reported")
                    if "same" in facts_:
                        ex.report(st, fr, ev[4], "the deadline of an answered call is kept")
                    if did:
                        ex.report(st, fr, ev[4], "a deadline that was reported is kept and reported again")
                    return (boxes, cur, "kept", facts_, sit, sdid, owed, eit, edid)
            if x == "erase" and ev[2] and has_field(ev[2], "_events"):
                if ev[3] and iters_of(ev[3][0]) == eit and eit is not None and not has_field(ev[3][0], "_events"):
                    return (boxes, cur, did, facts_, sit, sdid, owed, eit, True)
                return (boxes, cur, did, facts_, sit, None, False, eit, edid)
        return s
    def fin(ex, st, fr, s):
        if s[6]:
            ex.report(st, fr, None, "a reported deadline stays registered and is reported again")
        return None
    interesting = any_of(calls_named("notify_timeout", "insert", "erase", "swap", "emplace"), mentions_field("_events", "_add_list", "_erase_set"))
    outs, ex_ = automaton(R, P, f, "C04.expire", f.name, (frozenset(), None, None, (), None, None, False, None, None), step, interesting, fin,
                          boundary=CB)
    seen = set(r for o in outs for (r, _) in o.mon[0])
    for role, what in (("add", "registered deadlines"), ("erase", "answered calls")):
        R.decide("C04.expire", "the %s are taken over" % what, role in seen, where(f), "the %s are never taken over by the timer" % what)
    # the stored deadlines that are looked at are those that have expired
    def lab(ex, st, fr, ev):
        if ev[0] == "call" and short(ev[1]) in ("upper_bound", "lower_bound") and ev[2] and has_field(ev[2], "_events"):
            return "bound" if has_call(ev[3][0], "ticks") or contains(ev[3][0], lambda y: y == ("p", f.key, 0)) else "other"
        if ev[0] == "call" and short(ev[1]) == "notify_timeout" and ev[3] and has_field(ev[3][0], "_events"):
            return "told"
        if ev[0] == "branch" and expired(ev[1], ev[2]) and has_field(ev[1], "_events"):
            return "bound"
    ts, _ = traces(R, P, f, lab, interesting, "C04.expire", "stored deadlines", boundary=CB, cap=1)
    ok = any("told" in t for t, _ in ts)
    R.decide("C04.expire", "stored deadlines are reported", ok, where(f), "deadlines that were stored never expire")
    bad = [t for t, _ in ts if "other" in t or ("told" in t and "bound" not in t[:t.index("told")])]
    R.decide("C04.expire", "stored deadlines are reported when they expire", not bad, where(f), "stored deadlines are reported without comparing them with the clock")
    f = P.fn("RpcTimeoutManager::notify_timeout")
    def step(ex, st, fr, ev, s):
        if ev[0] == "branch":
            t, tr = test_of(ev)
            if is_call(t, "lock") and has_field(t, "_client_stream"):
                return (tr, s[1])
        if is_done(ev) and const(ev[3][0]) != 11:
            ex.report(st, fr, ev[4], "an expired call is not reported as timed out")
        if ev[0] == "call" and short(ev[1]) == "erase_request":
            if not (has_field(ev[3][0], "_sequence_id") or has_call(ev[3][0], "SequenceId")):
                ex.report(st, fr, ev[4], "another call than the expired one is taken off the connection")
            return (s[0], True)
        return s
    def fin(ex, st, fr, s):
        if s[0] is True and not s[1]:
            ex.report(st, fr, None, "an expired call stays registered in its connection")
    automaton(R, P, f, "C04.expire", f.name, (None, False), step, calls_named("Done", "erase_request", "lock"), fin, boundary=[b for b in CB if "notify" not in b])
    f = P.fn("RpcTimeoutManager::erase")
    def step(ex, st, fr, ev, s):
        if ev[0] == "call" and ev[2] and locis(ev[2], "_erase_set") and short(ev[1]) in ("insert", "emplace"):
            if not contains(ev[3][0], lambda y: y == ("p", f.key, 0)):
                ex.report(st, fr, ev[4], "another deadline is dropped")
            return (s[0], True)
        if ev[0] == "branch":
            t, tr = test_of(ev)
            if t == ("p", f.key, 0):
                return (tr, s[1])
        return s
    def fin(ex, st, fr, s):
        if s[0] is not False and not s[1]:
            ex.report(st, fr, None, "an answered call keeps its deadline")
    automaton(R, P, f, "C04.expire", f.name, (None, False), step, mentions_field("_erase_set"), fin, boundary=[])
