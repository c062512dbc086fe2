"""Flow control and back-pressure."""
from lib import *
import core
from rules.streams import CLIENT, SERVER, SIDES, BOUND, Token, entries, statuses

NEVER = lambda f, nid, n: False


def was(t, q):
    """a value the quota had: read, or found by an exchange"""
    return is_ld(t, q) or t[0] == "cas" and locis(t[1], q)


def aged(t):
    """a value whatever was stored since it was read"""
    if isinstance(t, tuple):
        return aged(t[1]) if len(t) == 2 and t[0] == "old" else tuple(aged(x) for x in t)
    return t


def same(a, b):
    return a == b or a[0] == "cas" and a[:2] == b[:2]


def controller_rules(R, P):
    R.rule("T05.atomic", "a quota request succeeds or fails on the quota value it atomically replaced: it reports exactly that value, charges it by the amount requested, and an unlimited direction is neither charged nor refused")
    R.rule("T05.recharge", "a recharge replaces the quota atomically, never discards a debt and never accumulates unused quota")
    for d in ("read", "write"):
        q, nl = "_%s_quota" % d, "_%s_no_limit" % d
        # ---- acquire
        f = P.fn("FlowController::acquire_%s_quota" % d)
        amount = ("p", f.key, 0)
        def step(ex, st, fr, ev, s):
            unlimited, cas, won, pos = s
            k = ev[0]
            if k == "branch":
                t, tr = test_of(ev)
                if is_ld(t, nl):
                    return (tr, cas, won, pos)
                if t[0] == "eq" and cas and t[1] == cas[0] or t[0] == "eq" and cas and t[2] == cas[0]:
                    other = t[2] if t[1] == cas[0] else t[1]
                    if aged(other) != aged(cas[1]):
                        ex.report(st, fr, ev[3], "the outcome of the exchange is compared with something else than the expected quota")
                    return (unlimited, cas, cas[1] if tr else None, pos)
                if t[0] == "lt" and was(t[1], q):
                    if t[2] != ("c", 1):
                        ex.report(st, fr, ev[3], "the quota is compared with %s instead of with zero" % show(t[2]))
                    return (unlimited, cas, won, (t[1], not tr))
                return s
            if k in ("write", "xchg") and locis(ev[1], q) and ev[3] != "init":
                ex.report(st, fr, ev[4] if k == "write" else ev[3], "the quota is changed without compare-and-swap")
            if k == "cas" and locis(ev[1], q):
                if unlimited:
                    ex.report(st, fr, ev[4], "an unlimited direction is charged")
                new, old = ev[2], ev[3]
                if not was(old, q):
                    ex.report(st, fr, ev[4], "the exchange does not expect a quota value that was read before")
                okv = new[0] == "op" and new[1] == "-" and new[2] == old and (unwrap(new[3]) == amount or (new[3][0] == "c" and new[3][1] >= 0)) \
                    or new[0] == "op" and new[1] == "+" and new[2] == old and new[3][0] == "c" and new[3][1] <= 0
                if not okv:
                    ex.report(st, fr, ev[4], "the new quota %s is not the old one less the charge" % show(new))
                if pos and same(pos[0], old) and pos[1] and not (new[0] == "op" and new[1] == "-" and unwrap(new[3]) == amount):
                    ex.report(st, fr, ev[4], "a granted request is not charged with the amount requested")
                return (unlimited, (ev[-1], old), None, pos)
            if k == "ret" and fr.depth == 0:
                v = unwrap(ev[1])
                if unlimited:
                    if not (v[0] == "c" and v[1] > 0):
                        ex.report(st, fr, ev[2], "an unlimited direction is refused (returns %s)" % show(v))
                elif won is None:
                    ex.report(st, fr, ev[2], "a quota is reported although it was not exchanged atomically")
                elif aged(v) != aged(won):
                    ex.report(st, fr, ev[2], "the value reported (%s) is not the quota that was atomically replaced" % show(v))
            return s
        automaton(R, P, f, "T05.atomic", f.name, (None, None, None, None), step, any_of(mentions_field(q), calls_named("atomic_comp_swap", "atomic_cmpxchg")))
        # ---- recharge
        f = P.fn("FlowController::recharge_%s_quota" % d)
        amount2 = ("p", f.key, 0)
        def step2(ex, st, fr, ev, s):
            unlimited, cas, won, pos = s
            k = ev[0]
            if k == "branch":
                t, tr = test_of(ev)
                if is_ld(t, nl):
                    return (tr, cas, won, pos)
                if t[0] == "eq" and cas and cas[0] in (t[1], t[2]):
                    other = t[2] if t[1] == cas[0] else t[1]
                    if aged(other) != aged(cas[1]):
                        ex.report(st, fr, ev[3], "the outcome of the exchange is compared with something else than the expected quota")
                    return (unlimited, cas, cas[1] if tr else None, pos)
                if t[0] == "lt" and was(t[1], q):
                    return (unlimited, cas, won, (t[1], not tr))
                return s
            if k in ("write", "xchg") and locis(ev[1], q) and ev[3] != "init":
                ex.report(st, fr, ev[4] if k == "write" else ev[3], "the quota is changed without compare-and-swap")
            if k == "cas" and locis(ev[1], q):
                new, old = unwrap(ev[2]), ev[3]
                if not was(old, q):
                    ex.report(st, fr, ev[4], "the exchange does not expect a quota value that was read before")
                full = new == amount2
                add = new[0] == "op" and new[1] == "+" and set((unwrap(new[2]), unwrap(new[3]))) == set((old, amount2))
                # the debt there is, if any, and the new quota
                debt = new[0] == "op" and new[1] == "+" and [x for x, y in ((new[2], new[3]), (new[3], new[2])) if unwrap(y) == amount2 and is_call(unwrap(x), "min")
                                                             and sorted(0 if a == ("c", 0) else 1 if unwrap(a) == old or same(unwrap(a), old) else 2 for a in unwrap(x)[3]) == [0, 1]]
                if debt:
                    return (unlimited, (ev[-1], old), None, pos)
                if not full and not add:
                    ex.report(st, fr, ev[4], "the recharged quota is %s" % show(new))
                elif pos is None or not same(pos[0], old):
                    ex.report(st, fr, ev[4], "the quota is recharged without looking whether it is used up")
                elif pos[1] and not full:
                    ex.report(st, fr, ev[4], "unused quota is carried over into the next period")
                elif not pos[1] and not add:
                    ex.report(st, fr, ev[4], "quota used in advance is forgiven")
                return (unlimited, (ev[-1], old), None, pos)
            return s
        def fin2(ex, st, fr, s):
            if s[0] is not True and s[2] is None:
                ex.report(st, fr, None, "the quota of a limited direction is not recharged")
        automaton(R, P, f, "T05.recharge", f.name, (None, None, None, None), step2, any_of(mentions_field(q), calls_named("atomic_comp_swap", "atomic_cmpxchg")), fin2)
        # ---- reset and observers
        f = P.fn("FlowController::reset_%s_quota" % d)
        def step3(ex, st, fr, ev, s):
            if ev[0] == "write" and ev[3] != "init":
                if locis(ev[1], nl):
                    return (unwrap(ev[2]) == ("p", f.key, 0), s[1])
                if locis(ev[1], q):
                    return (s[0], unwrap(ev[2]) == ("p", f.key, 1))
            if ev[0] == "xchg" and locis(ev[1], q):
                return (s[0], unwrap(ev[2]) == ("p", f.key, 1))
            return s
        def fin3(ex, st, fr, s):
            if s != (True, True):
                ex.report(st, fr, None, "a reset does not set both the limit flag and the quota to the values given")
        automaton(R, P, f, "T05.recharge", f.name, (False, False), step3, mentions_field(q), fin3)
        f = P.fn("FlowController::has_%s_quota" % d, must=False)
        # constructor: flag and quota from the right parameters
        for f in P.all("FlowController::{ctor}") or [g for g in P.fns.values() if g.cls == "FlowController" and g.d.get("ctor")]:
            i = 0 if d == "read" else 2
            if len(f.params) != 4:
                continue
            def step4(ex, st, fr, ev, s):
                if ev[0] == "write":
                    if locis(ev[1], nl):
                        return (unwrap(ev[2]) == ("p", f.key, i), s[1])
                    if locis(ev[1], q):
                        return (s[0], unwrap(ev[2]) == ("p", f.key, i + 1))
                return s
            def fin4(ex, st, fr, s):
                if s != (True, True):
                    ex.report(st, fr, None, "the controller does not start with the %s limit it was given" % d)
            automaton(R, P, f, "T05.recharge", "%s (%s)" % (f.name, d), (False, False), step4, NEVER, fin4)


def quota_rules(R, P):
    R.rule("T05.grant", "no read or write is started without a granted quota; an exhausted quota is recorded in the stream and the message goes back to the head of the queue")
    n = 0
    for leaf, tmpl in SIDES:
        for which, owner in (("send", "on_write_some"), ("receive", "on_read_some")):
            for f in entries(P, tmpl):
                nm = short(f.name)
                if nm not in ("async_send_message", "trigger_send", "trigger_receive", "on_read_some", "on_write_some"):
                    continue
                mon = Token(P, which, nm == owner, mode="quota")
                mon.leaf = leaf
                if f.key not in P.relevance(mon.ident(), mon.interesting):
                    continue
                ex = Explorer(P, mon, leaf)
                ex.run(f)
                R.absorb(ex, "T05.grant", "%s quota in %s::%s" % (which, leaf, nm))
                n += 1
    R.rule("T05.wake", "an external trigger clears the recorded exhaustion before it tries to start, and the amount asked for is the amount about to be transferred")
    for leaf, tmpl in SIDES:
        for which in ("receive", "send"):
            f = P.fn("%s::trigger_%s" % (tmpl, which))
            qt = "_read_quota_token" if which == "receive" else "_write_quota_token"
            tok = "_%s_token" % which
            acq = "acquire_read_quota" if which == "receive" else "acquire_write_quota"
            def step(ex, st, fr, ev, s):
                if ev[0] == "write" and locis(ev[1], qt, ("this",)) and not s[0]:
                    if unwrap(ev[2])[0] == "c" and unwrap(ev[2])[1] > 0:
                        return (True, s[1])
                if ev[0] == "mem" and locis(ev[1], tok) and not s[0]:
                    ex.report(st, fr, ev[2], "the trigger looks for work before clearing the recorded exhaustion: the stream stays asleep")
                if ev[0] == "mem" and locis(ev[1], tok):
                    return (s[0], True)
                if ev[0] == "call" and short(ev[1]) == acq:
                    a = unwrap(ev[3][0])
                    okv = is_ld(a, "_receiving_size") if which == "receive" else has_call(a, "TotalCount", "ByteCount")
                    if not okv:
                        ex.report(st, fr, ev[4], "the quota is charged with %s" % show(a))
                return s
            def fin(ex, st, fr, s):
                if not s[0] or not s[1]:
                    ex.report(st, fr, None, "the trigger does not restart the stream")
            automaton(R, P, f, "T05.wake", "%s::trigger_%s" % (leaf, which), (False, False), step, mentions_field(qt, tok), fin,
                      this_cls=leaf, boundary=BOUND + ["ReadBuffer::TotalCount", "WriteBuffer::TotalCount"], reads=True)
            n += 1
    if n < 10:
        raise Broken("quota rules matched only %d entries" % n)


def timer_rules(R, P):
    R.rule("T05.timer", "each maintenance tick recharges a limited direction with its own slice and then restarts every open stream whose quota was exhausted")
    for cls in ("RpcClientImpl", "RpcServerImpl"):
        f = P.fn(cls + "::TimerMaintain")
        for d, what, sl in (("read", "receive", "_slice_quota_in"), ("write", "send", "_slice_quota_out")):
            seen = {"recharge": 0, "trigger": 0, "test": 0}
            rc, tq, trg = "recharge_%s_quota" % d, "%s_quota_token" % d, "trigger_" + what
            # state: limited?, recharged, need (stream exhausted but neither listed nor restarted), armed loop test
            def step(ex, st, fr, ev, s):
                lim, rech, need, loop = s
                k = ev[0]
                if k == "branch":
                    t, tr = unneg(ev[1], ev[2])
                    u, utr = t, tr
                    if t[0] == "eq" and is_ld(t[1], sl) and t[2] == ("c", -1):
                        if loop:
                            ex.report(st, fr, ev[3], "only the first of the exhausted streams is restarted")
                        # the first test may only be the common guard; a false answer decides
                        return (not tr, rech, need, False)
                    if t[0] == "lt" and is_call(t[1], tq):
                        seen["test"] += 1
                        if t[2] != ("c", 1):
                            ex.report(st, fr, ev[3], "streams are selected by quota < %s instead of an exhausted quota (<= 0)" % show(t[2]))
                        return (lim, rech, tr, False)
                    return (lim, rech, need, False)
                if k == "call":
                    s_ = short(ev[1])
                    if s_ == rc:
                        seen["recharge"] += 1
                        if not is_ld(unwrap(ev[3][0]), sl):
                            ex.report(st, fr, ev[4], "the %s quota is recharged with %s" % (d, show(ev[3][0])))
                        return (lim, True, need, loop)
                    if s_ == tq:
                        if need:
                            ex.report(st, fr, ev[4], "a stream with exhausted quota is passed over")
                        return (lim, rech, False, loop)
                    if s_ in ("push_back", "emplace_back", "insert", "push") and need:
                        return (lim, rech, False, loop)
                    if s_ == trg:
                        seen["trigger"] += 1
                        if not rech:
                            ex.report(st, fr, ev[4], "streams are restarted before their quota is recharged")
                        return (lim, rech, False, True)
                return s
            def fin(ex, st, fr, s):
                lim, rech, need, loop = s
                if lim and not rech:
                    ex.report(st, fr, None, "a limited %s direction is not recharged" % d)
                if need:
                    ex.report(st, fr, None, "a stream with exhausted quota is passed over")
                if loop:
                    ex.report(st, fr, None, "only the first of the exhausted streams is restarted")
            inst = "%s %s" % (f.name, d)
            automaton(R, P, f, "T05.timer", inst, (None, False, False, False), step,
                      calls_named(rc, tq, trg), fin, boundary=BOUND + [cls + "::RestartListen", "RpcByteStream::close"] +
                      [c + "::trigger_" + w for c in ("RpcByteStream", "RpcMessageStream", "RpcServerMessageStream") for w in ("send", "receive")] +
                      [c + "::%s_quota_token" % x for c in ("RpcMessageStream", "RpcServerMessageStream") for x in ("read", "write")] +
                      ["FlowController::recharge_%s_quota" % x for x in ("read", "write")])
            for k, v in seen.items():
                R.decide("T05.timer", "%s: %s" % (inst, k), v > 0, "%s:%s" % (f.file, f.line),
                         {"recharge": "the %s quota is never recharged" % d, "trigger": "streams waiting for %s quota are never restarted" % d,
                          "test": "no stream is ever examined for an exhausted %s quota" % d}[k])


STREAM_B = BOUND + [c + "::trigger_" + w for c in ("RpcByteStream", "RpcMessageStream", "RpcServerMessageStream") for w in ("send", "receive")] + \
    [c + "::" + m for c in ("RpcMessageStream", "RpcServerMessageStream")
     for m in ("set_max_pending_buffer_size", "set_flow_controller", "pending_buffer_size", "max_pending_buffer_size")] + \
    ["FlowController::" + m for m in ("reset_read_quota", "reset_write_quota", "recharge_read_quota", "recharge_write_quota")]
DIRS = (("read", "in", "receive"), ("write", "out", "send"))


def slice_rule(R, P):
    R.rule("T05.options", "the configured limits reach the flow controller: -1 means unlimited on both sides, a changed limit is applied to the running controller, and removing a limit wakes the waiting streams")
    for cls in ("RpcClientImpl", "RpcServerImpl"):
        ctors = [g for g in P.fns.values() if g.cls == cls and g.d.get("ctor")]
        for f in ctors + [P.fn(cls + "::ResetOptions")]:
            for d, io, what in DIRS:
                sl, opt = "_slice_quota_" + io, "max_throughput_" + io
                # state: option is -1 on this path, last value class written to the slice
                def step(ex, st, fr, ev, s):
                    unl, w = s
                    if ev[0] == "branch":
                        t, tr = unneg(ev[1], ev[2])
                        if t[0] == "eq" and t[2] == ("c", -1) and is_ld(unwrap(t[1]), opt):
                            return (tr, w)
                    if ev[0] == "write" and locis(ev[1], sl) and ev[3] != "init":
                        v = unwrap(ev[2])
                        if v == ("c", -1):
                            return (unl, "unlimited")
                        return (unl, "limit" if has_field(v, opt) else "other")
                    if ev[0] == "write" and locis(ev[1], sl):
                        return (unl, "other")
                    return s
                def fin(ex, st, fr, s):
                    unl, w = s
                    if w == "other":
                        ex.report(st, fr, None, "the %s limit is not computed from the option %s" % (d, opt))
                    elif w is None:
                        ex.report(st, fr, None, "the %s limit is not computed" % d)
                    elif unl is not None and (w == "unlimited") != unl:
                        ex.report(st, fr, None, "the %s limit is %s although the option says otherwise" % (d, w))
                    elif unl is None:
                        ex.report(st, fr, None, "the %s limit does not distinguish the unlimited setting" % d)
                automaton(R, P, f, "T05.options", "%s %s limit" % (f.name, d), (None, None), step, mentions_field(sl), fin, boundary=STREAM_B)
        # the controller starts with the limits
        f = P.fn(cls + "::Start")
        def step2(ex, st, fr, ev, s):
            if ev[0] == "new" and short(ev[1]) == "FlowController":
                a = [unwrap(x) for x in ev[2]]
                ok = len(a) == 4
                for (d, io, what), i in zip(DIRS, (0, 2)):
                    sl = "_slice_quota_" + io
                    ok = ok and a[i][0] == "eq" and is_ld(a[i][1], sl) and a[i][2] == ("c", -1) and is_ld(a[i + 1], sl)
                if not ok:
                    ex.report(st, fr, ev[4], "the flow controller is not created from the configured limits")
                return 1
            if ev[0] == "write" and locis(ev[1], "_flow_controller") and ev[3] in ("reset", "=") and s == 1 and ev[2] != NULL:
                return 2
            return s
        seen = {"n": 0}
        def fin2(ex, st, fr, s):
            if s == 2:
                seen["n"] += 1
        automaton(R, P, f, "T05.options", f.name + " creates the controller", 0, step2, lambda f, i, n: n["k"] == "new" and n.get("cls") == "FlowController", fin2, boundary=STREAM_B)
        R.decide("T05.options", f.name + " installs the controller", seen["n"] > 0, "%s:%s" % (f.file, f.line), "no flow controller is installed when starting")
        # changed limits
        f = P.fn(cls + "::ResetOptions")
        for d, io, what in DIRS:
            sl = "_slice_quota_" + io
            rs, tg = "reset_%s_quota" % d, "trigger_" + what
            old = ("ld", ("F", ("this",), "%s::%s" % (cls, sl)))
            hits = {"trigger": 0, "reset": 0}
            # state: changed?, controller present?, reset done, option unlimited, was unlimited, loop entered
            def step3(ex, st, fr, ev, s):
                if s == "impossible":
                    return s
                ch, fc, done, unl, was, trig = s
                if ev[0] == "branch":
                    t, tr = unneg(ev[1], ev[2])
                    if t[0] == "eq" and t[2] == ("c", -1) and not is_ld(unwrap(t[1]), "max_throughput_" + io) and has_field(t[1], "max_throughput_" + io):
                        # a computed limit is never negative
                        return "impossible" if tr else s
                    if t[0] == "eq" and t[2] == ("c", -1) and has_field(t[1], "max_throughput_" + io):
                        return (ch, fc, done, tr, was, trig)
                    if t[0] == "eq" and old in (t[1], t[2]):
                        o = t[2] if t[1] == old else t[1]
                        if o == ("c", -1):
                            return (ch, fc, done, unl, tr, trig)
                        if has_field(o, "max_throughput_" + io) or o == ("c", -1):
                            return (not tr, fc, done, unl, was, trig)
                    if t[0] == "eq" and t[2] == NULL and is_ld(t[1], "_flow_controller"):
                        return (ch, not tr, done, unl, was, trig)
                if ev[0] == "call":
                    s_ = short(ev[1])
                    if s_ == rs:
                        hits["reset"] += 1
                        cur = st.store.get(("F", ("this",), "%s::%s" % (cls, sl)))
                        a = [unwrap(x) for x in ev[3]]
                        want = mk_eq(unwrap(cur), ("c", -1)) if cur is not None else None
                        if cur is None or a[1] != unwrap(cur) or (a[0] != want and a[0] != ("c", 1 if unl else 0)):
                            ex.report(st, fr, ev[4], "the %s limit of the controller is reset to something else than the new limit" % d)
                        return (ch, fc, True, unl, was, trig)
                    if s_ == tg:
                        hits["trigger"] += 1
                        if not done and fc is not False:
                            ex.report(st, fr, ev[4], "streams are woken before the limit is removed")
                return s
            def fin3(ex, st, fr, s):
                if s == "impossible":
                    return
                ch, fc, done, unl, was, trig = s
                differs = ch is True or (ch is None and unl is not None and was is not None and unl != was)
                if differs and fc is not False and not done:
                    ex.report(st, fr, None, "a changed %s limit is not applied to the running flow controller" % d)
            inst = "%s %s" % (f.name, d)
            automaton(R, P, f, "T05.options", inst, (None, None, False, None, None, False), step3, calls_named(rs, tg), fin3, boundary=STREAM_B)
            R.decide("T05.options", inst + ": wake", hits["trigger"] > 0, "%s:%s" % (f.file, f.line),
                     "removing the %s limit does not wake the streams waiting for quota: they stall for ever" % d)
            R.decide("T05.options", inst + ": reset", hits["reset"] > 0, "%s:%s" % (f.file, f.line),
                     "a changed %s limit never reaches the flow controller" % d)
    # every new stream shares the controller
    R.rule("T05.share", "every stream gets the flow controller and its pending limit before it can carry data")
    f = P.fn("RpcClientImpl::FindOrCreateStream")
    def lab(ex, st, fr, ev):
        if ev[0] == "new" and short(ev[1]) == "RpcClientStream":
            return ("new", ev[3])
        if ev[0] == "call" and ev[2] is not None:
            s_ = short(ev[1])
            if s_ in ("set_flow_controller", "set_max_pending_buffer_size"):
                want = "_flow_controller" if s_ == "set_flow_controller" else "_max_pending_buffer_size"
                return (s_, ev[2]) if has_field(ev[3][0], want) else ("wrong", s_)
            if s_ == "async_connect":
                return (s_, ev[2])
            if short(ev[1]) == "insert":
                return ("publish", None)
        if ev[0] == "write" and ev[2] is not None and ev[2][0] == "new" and has_field(ev[1] or NULL, "_stream_map"):
            return ("publish", ev[2])
        return None
    outs, ex = traces(R, P, f, lab, calls_named("set_flow_controller", "set_max_pending_buffer_size", "async_connect"), "T05.share", f.name,
                      boundary=STREAM_B)
    made = 0
    for tr, st in outs:
        new = [x[1] for x in tr if x[0] == "new"]
        if not new:
            continue
        made += 1
        names = [x[0] for x in tr]
        for need in ("set_flow_controller", "set_max_pending_buffer_size"):
            if need not in names:
                R.bad("T05.share", f.name, "%s:%s" % (f.file, f.line), "a new stream is used without %s" % need, st.path())
            elif "async_connect" in names and names.index(need) > names.index("async_connect"):
                R.bad("T05.share", f.name, "%s:%s" % (f.file, f.line), "%s after the stream may already be connected" % need, st.path())
    R.decide("T05.share", f.name, made > 0, "%s:%s" % (f.file, f.line), "no stream is created")
    f = P.fn("RpcServerImpl::OnCreated")
    def lab2(ex, st, fr, ev):
        if ev[0] == "call" and short(ev[1]) == "set_flow_controller":
            return "fc" if is_ld(ev[3][0], "_flow_controller") or has_field(ev[3][0], "_flow_controller") else "wrong"
        return None
    outs, ex = traces(R, P, f, lab2, calls_named("set_flow_controller"), "T05.share", f.name, boundary=STREAM_B)
    for tr, st in outs:
        R.decide("T05.share", f.name, tr == ("fc",), "%s:%s" % (f.file, f.line), "a new server stream does not get the flow controller", st.path())


# ------------------------------------------------------------------ T06
def backpressure_rules(R, P):
    R.rule("T06.client", "a request is queued only after the pending data of the connection was compared with its limit and found within it; otherwise the call completes with SEND_BUFFER_FULL")
    R.rule("T06.server", "a server stream starts reading only while its pending data is within the limit, and looks again after every response it finished sending")
    R.rule("T06.wiring", "the configured limit reaches every stream: when it is created and when the option changes")
    full = P.enum_value("RPC_ERROR_SEND_BUFFER_FULL")
    f = P.fn("RpcClientImpl::CallMethod")
    hits = {"gate": 0}
    def over(t, tr):
        """(True/False: over the limit) for a branch comparing pending data with the limit"""
        def is_pend(x):
            return has_call(x, "pending_buffer_size") or has_ld(x, "_pending_buffer_size")
        def is_max(x):
            return has_call(x, "max_pending_buffer_size") or has_ld(x, "_max_pending_buffer_size")
        if t[0] != "lt":
            return None
        a, b = t[1], t[2]
        if is_max(a) and is_pend(b) and not is_max(b):
            return tr
        if is_pend(a) and not is_max(a) and is_max(b):
            return not tr
        return None
    def step(ex, st, fr, ev, s):
        gate, refused = s
        if ev[0] == "branch":
            t, tr = unneg(ev[1], ev[2])
            o = over(t, tr)
            if o is not None:
                hits["gate"] += 1
                return (o, refused)
        if ev[0] == "call":
            s_ = short(ev[1])
            if s_ == "Done" and ev[3] and unwrap(ev[3][0]) == ("c", full):
                if gate is not True:
                    ex.report(st, fr, ev[4], "the call is refused with SEND_BUFFER_FULL although the pending data is not over the limit")
                return (gate, True)
            if s_ == "call_method":
                if gate is None:
                    ex.report(st, fr, ev[4], "the request is queued without comparing the pending data with its limit")
                elif gate:
                    ex.report(st, fr, ev[4], "the request is queued although the pending data is over the limit")
        return s
    def fin(ex, st, fr, s):
        if s[0] is True and not s[1]:
            ex.report(st, fr, None, "a call over the limit is not completed with SEND_BUFFER_FULL")
    automaton(R, P, f, "T06.client", f.name, (None, False), step, calls_named("call_method", "pending_buffer_size", "Done"), fin,
              boundary=STREAM_B + ["RpcControllerImpl::Done", "RpcClientStream::call_method"])
    R.decide("T06.client", f.name + " gate", hits["gate"] > 0, "%s:%s" % (f.file, f.line), "the pending data is never compared with its limit")

    leaf, tmpl = SERVER
    role = ("ld", ("F", ("this",), tmpl + "::_role_type"))
    server = P.enum_value("ROLE_TYPE_SERVER")
    reads = []
    for g in P.fns.values():
        if g.cls == tmpl and any(n["k"] == "mcall" and short(n.get("n")) == "async_read_some" for n in g.nodes):
            reads.append(g.key)
    for g in roots(P, reads):
        def step2(ex, st, fr, ev, s):
            if ev[0] == "branch":
                t, tr = unneg(ev[1], ev[2])
                o = over(t, tr)
                if o is not None:
                    return o
            if ev[0] == "call" and short(ev[1]) == "async_read_some" and ev[2] == ("this",):
                if s is not False:
                    ex.report(st, fr, ev[4], "reading starts %s" % ("although the pending data is over the limit" if s else "without looking at the pending data"))
                return None if s is None else s
            return s
        b = [x for x in STREAM_B if not x.endswith("pending_buffer_size") and "trigger_" not in x]
        automaton(R, P, g, "T06.server", "reads started by " + g.name, None, step2, calls_named("async_read_some"), this_cls=leaf,
                  boundary=b, assume=[(mk_eq(role, ("c", server)), True)])
    f = P.fn(tmpl + "::on_write_some")
    def step3(ex, st, fr, ev, s):
        if ev[0] == "call" and short(ev[1]) == "on_sent":
            return "sent"
        if s == "sent" and ev[0] == "mem" and locis(ev[1], "_receive_token"):
            return "looked"
        return s
    def fin3(ex, st, fr, s):
        if s == "sent":
            ex.report(st, fr, None, "after sending a response the server does not look whether reading can go on: a connection stopped by its pending data never resumes")
    b = [x for x in STREAM_B if not x.endswith("pending_buffer_size") and "trigger_" not in x]
    automaton(R, P, f, "T06.server", "reading resumes after " + f.name, None, step3, any_of(mentions_field("_receive_token"), calls_named("on_sent")), fin3,
              this_cls=leaf, boundary=b, reads=True, assume=[(mk_eq(role, ("c", server)), True)])
    # wiring
    for cls in ("RpcClientImpl", "RpcServerImpl"):
        mp = "_max_pending_buffer_size"
        f = P.fn(cls + "::ResetOptions")
        hits = {"set": 0}
        old = ("ld", ("F", ("this",), "%s::%s" % (cls, mp)))
        def step4(ex, st, fr, ev, s):
            if ev[0] == "write" and locis(ev[1], mp) and ev[3] != "init":
                if not has_field(ev[2], "max_pending_buffer_size"):
                    ex.report(st, fr, ev[4], "the limit is not computed from the option")
                return (True, s[1])
            if ev[0] == "call" and short(ev[1]) == "set_max_pending_buffer_size":
                hits["set"] += 1
                cur = st.store.get(("F", ("this",), "%s::%s" % (cls, mp)))
                if cur is None or unwrap(ev[3][0]) != unwrap(cur):
                    ex.report(st, fr, ev[4], "streams get something else than the new limit")
                if not s[0]:
                    ex.report(st, fr, ev[4], "streams get the limit before it is recomputed")
            return s
        def fin4(ex, st, fr, s):
            if not s[0]:
                ex.report(st, fr, None, "the pending limit is not recomputed")
        automaton(R, P, f, "T06.wiring", f.name, (False, False), step4, calls_named("set_max_pending_buffer_size"), fin4, boundary=STREAM_B)
        R.decide("T06.wiring", f.name + " propagates", hits["set"] > 0, "%s:%s" % (f.file, f.line), "a changed limit does not reach the existing streams")
    f = P.fn("RpcServerImpl::OnAccepted")
    def step5(ex, st, fr, ev, s):
        if ev[0] == "call":
            s_ = short(ev[1])
            if s_ == "set_max_pending_buffer_size" and has_field(ev[3][0], "_max_pending_buffer_size"):
                return True
            if s_ == "insert" and ev[2] is not None and has_field(ev[2], "_stream_set") and not s:
                ex.report(st, fr, ev[4], "an accepted stream is admitted without its pending limit: it would never read")
        return s
    automaton(R, P, f, "T06.wiring", f.name, False, step5, calls_named("set_max_pending_buffer_size"), boundary=STREAM_B + ["RpcServerImpl::ConnectionCount"])
