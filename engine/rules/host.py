"""Server side: listening and connections, registries, builtin services, text from requests."""
from lib import *
import core
from rules.calls import where, const, at, subj, bound_target, loop_test
from rules.server import p, mentions
from rules.streams import SIDES, BOUND, status_fact, statuses

SI = "RpcServerImpl"


def running(t, tr):
    """truth of 'the server is running' established by a branch, else None"""
    t, tr = unneg(t, tr)
    if t[0] == "eq" and is_ld(t[1], "_is_running"):
        return (not tr) if t[2] == ("c", 0) else tr
    if is_ld(t, "_is_running"):
        return tr
    return None


def closed_test(t, tr, who):
    """truth of 'the stream is closed'"""
    u, utr = unneg(t, tr)
    if u[0] == "eq" and is_ld(u[1], "_status") and u[2] == ("c", 3) and mentions(u[1], who):
        return utr
    u, utr = (u[1], not utr) if u[0] == "eq" and u[2] == NULL else (u, utr)
    if is_call(u, "is_closed") and u[2] and mentions(u[2], who):
        return utr
    return None


# ------------------------------------------------------------------ S06
def listen_rules(R, P):
    R.rule("S06.accept", "a listener goes on accepting until it is closed or accepting fails, whatever becomes of a single connection; a failure is reported and ends in the closed state, from which the server listens again")
    R.rule("S06.limit", "the server keeps a connection only while it runs and is below its limit, and forgets exactly the closed ones")
    R.rule("S06.idle", "a connection is closed as idle only after the configured time without a transfer and while no method runs; every transfer counts")
    f = P.fn("RpcListener::on_accept")
    ec = p(f, 1)
    who = at(f, 0)
    def lclosed(t, tr):
        u, utr = test_of(("branch", t, tr))
        return utr if is_ld(u, "RpcListener::_is_closed") and u[1][1] == ("this",) or (is_call(u, "RpcListener::is_closed") and u[2] == ("this",)) else None
    # state: listener closed?, error?, stream closed?, armed, accepted callback, connected, closed listener, told, has callbacks
    def step(ex, st, fr, ev, s):
        lc, err, sc, armed, acc, conn, lclose, told, cb, fcb = s
        if ev[0] == "branch":
            c = lclosed(ev[1], ev[2])
            if c is not None:
                return (c, err, sc, armed, acc, conn, lclose, told, cb, fcb)
            t, tr = test_of(ev)
            if t == ec or (is_call(t, "{conv}_Bool", "value", "failed") or (t[0] == "call" and "{conv}" in t[1])) and t[2] == ec:
                return (lc, tr, sc, armed, acc, conn, lclose, told, cb, fcb)
            if t[0] == "call" and t[2] and has_field(t[2], "_accept_fail_callback") or is_ld(t, "_accept_fail_callback"):
                return (lc, err, sc, armed, acc, conn, lclose, told, cb, tr)
            if t[0] == "call" and t[2] and has_field(t[2], "_accept_callback") or is_ld(t, "_accept_callback"):
                return (lc, err, sc, armed, acc, conn, lclose, told, tr, fcb)
            c = closed_test(ev[1], ev[2], who)
            if c is not None:       # closed is final
                return (lc, err, c or sc is True, armed, acc, conn, lclose, told, cb, fcb)
        if ev[0] == "call":
            x, recv, nid = short(ev[1]), ev[2], ev[4]
            if ev[1].endswith("function1::operator()") or (x == "operator()" and recv and has_field(recv, "_accept_callback")):
                if recv and has_field(recv, "_accept_callback"):
                    if err is not False or lc is not False:
                        ex.report(st, fr, nid, "a connection is handed to the server although accepting failed or the listener is closed")
                    if acc:
                        ex.report(st, fr, nid, "one connection is handed to the server twice")
                    if conn:
                        ex.report(st, fr, nid, "a connection is handed to the server after it was started")
                    if not any(mentions(a, p(f, 0)) for a in ev[3]):
                        ex.report(st, fr, nid, "another connection is handed to the server")
                    return (lc, err, sc or None, armed, True, conn, lclose, told, cb, fcb)
            if x == "operator()" and recv and has_field(recv, "_accept_fail_callback"):
                if err is not True:
                    ex.report(st, fr, nid, "a failure is reported although accepting succeeded")
                if not lclose:
                    ex.report(st, fr, nid, "a failure is reported before the listener is closed")
                return (lc, err, sc, armed, acc, conn, lclose, told + 1, cb, fcb)
            if ev[1] == "RpcListener::close":
                if err is not True:
                    ex.report(st, fr, nid, "the listener is closed although accepting succeeded: the server accepts no more")
                return (lc, err, sc, armed, acc, conn, True, told, cb, fcb)
            if x == "set_socket_connected":
                if err is not False or lc is not False:
                    ex.report(st, fr, nid, "a connection is started although accepting failed or the listener is closed")
                if sc is None:
                    ex.report(st, fr, nid, "a connection is started without looking whether the server closed it")
                if not acc and cb is not False and sc is not True:
                    ex.report(st, fr, nid, "a connection is started that the server does not know")
                return (lc, err, None, armed, acc, True, lclose, told, cb, fcb)
            if ev[1] == "RpcListener::async_accept":
                if err is not False or lc is not False:
                    ex.report(st, fr, nid, "accepting goes on although it failed or the listener is closed")
                return (lc, err, sc, armed + 1, acc, conn, lclose, told, cb, fcb)
        return s
    def fin(ex, st, fr, s):
        lc, err, sc, armed, acc, conn, lclose, told, cb, fcb = s
        if lc is True:
            return
        if err is True:
            if not lclose:
                ex.report(st, fr, None, "accepting failed but the listener is not closed: the server never listens again")
            if told != 1 and fcb is not False:
                ex.report(st, fr, None, "accepting failed but is %s" % ("reported twice" if told else "not reported"))
        elif err is None:
            ex.report(st, fr, None, "the outcome of accepting is not examined")
        else:
            if armed != 1:
                ex.report(st, fr, None, "no further connection is accepted after this one" if not armed else "accepting is started twice")
            if sc is False and not conn:
                ex.report(st, fr, None, "an accepted connection is never started")
    automaton(R, P, f, "S06.accept", f.name, (None, None, None, 0, False, False, False, 0, None, None), step,
              calls_named("async_accept", "close", "set_socket_connected", "operator()", "is_closed", "update_remote_endpoint"), fin, this_cls="RpcListener",
              boundary=["RpcListener::close", "RpcListener::async_accept", "RpcByteStream::set_socket_connected", "RpcByteStream::update_remote_endpoint"])
    # accept
    f = P.fn("RpcListener::async_accept")
    def step(ex, st, fr, ev, s):
        made, told, armed, cb = s
        if ev[0] == "new" and ev[1] == "RpcServerStream":
            return (ev[3], told, armed, cb)
        if ev[0] == "branch":
            t, tr = test_of(ev)
            if (t[0] == "call" and t[2] and has_field(t[2], "_create_callback")) or is_ld(t, "_create_callback"):
                return (made, told, armed, tr)
        if ev[0] == "call":
            x, recv = short(ev[1]), ev[2]
            if x == "operator()" and recv and has_field(recv, "_create_callback"):
                if armed:
                    ex.report(st, fr, ev[4], "the connection is set up after accepting was started")
                if made is None or not any(mentions(a, made) for a in ev[3]):
                    ex.report(st, fr, ev[4], "another connection is set up than the one accepted next")
                return (made, True, armed, cb)
            if x == "async_accept" and recv and has_field(recv, "_acceptor"):
                if made is None or not mentions(ev[3][0], made):
                    ex.report(st, fr, ev[4], "a connection is accepted into a stream that is not new")
                h = ev[3][1]
                if "RpcListener::on_accept" not in bound_target(h) or (made is not None and not mentions(h, made)):
                    ex.report(st, fr, ev[4], "the accepted connection is not given to the accept handler")
                return (made, told, armed + 1, cb)
        return s
    def fin(ex, st, fr, s):
        if s[2] != 1:
            ex.report(st, fr, None, "accepting is started %d times" % s[2])
        if not s[1] and s[3] is not False:
            ex.report(st, fr, None, "a connection is accepted that was not set up")
    automaton(R, P, f, "S06.accept", f.name, (None, False, 0, None), step, any_of(calls_named("async_accept", "operator()"), lambda g, nid, n: n["k"] == "new"), fin, this_cls="RpcListener")
    # listen
    f = P.fn("RpcListener::start_listen")
    ops = ("open", "bind", "listen")
    def step(ex, st, fr, ev, s):
        pend, done, opened, armed = s
        if ev[0] == "branch":
            t, tr = test_of(ev)
            if t[0] == "call" and ("{conv}" in t[1] or short(t[1]) in ("value", "failed")):
                return (None if not tr else "failed", done, opened, armed)
        if ev[0] == "call":
            x, recv = short(ev[1]), ev[2]
            if recv and has_field(recv, "_acceptor") and x in ops + ("set_option",):
                if pend:
                    ex.report(st, fr, ev[4], "%s goes on although the step before it failed or was not examined" % x)
                return (x, done + ((x,) if x in ops else ()), opened, armed)
            if ev[1] == "RpcListener::async_accept":
                if done != ops or pend:
                    ex.report(st, fr, ev[4], "accepting starts although listening failed")
                if not opened:
                    ex.report(st, fr, ev[4], "accepting starts while the listener still counts as closed: a connection that arrives at once ends accepting")
                return (pend, done, opened, armed + 1)
        if ev[0] == "write" and locis(ev[1], "_is_closed"):
            if const(ev[2]) == 0 and (done != ops or pend):
                ex.report(st, fr, ev[4], "the listener counts as open although listening failed")
            return (pend, done, const(ev[2]) == 0, armed)
        if ev[0] == "ret" and fr.depth == 0:
            v = retbool(ex, st, ev[1])
            if v is not False and not (opened and armed == 1):
                ex.report(st, fr, ev[2], "success is reported although the server does not listen")
            if v is not True and (opened or armed):
                ex.report(st, fr, ev[2], "failure is reported although the server listens")
        return s
    automaton(R, P, f, "S06.accept", f.name, (None, (), False, 0), step, any_of(calls_named("open", "bind", "listen", "set_option", "async_accept"), writes_field("_is_closed")), this_cls="RpcListener",
              boundary=["RpcListener::async_accept"])
    f = P.fn("RpcListener::close")
    def step(ex, st, fr, ev, s):
        was, mark, cl, lk = s
        if ev[0] in ("lock", "unlock"):
            return (was, mark, cl, ev[0] == "lock")
        if ev[0] == "branch":
            u, utr = test_of(ev)
            if is_ld(u, "_is_closed"):
                if not lk:
                    ex.report(st, fr, ev[3], "the listener is closed without its lock")
                return (utr, mark, cl, lk)
        if ev[0] == "write" and locis(ev[1], "_is_closed"):
            return (was, const(ev[2]) == 1, cl, lk)
        if ev[0] == "call" and short(ev[1]) in ("close", "cancel") and ev[2] and has_field(ev[2], "_acceptor"):
            if short(ev[1]) == "close":
                if not mark:
                    ex.report(st, fr, ev[4], "the acceptor is closed before the listener counts as closed: its last completion is taken for a failure")
                if len(ev[3]) < 1:
                    ex.report(st, fr, ev[4], "closing the acceptor may throw")
                return (was, mark, cl + 1, lk)
        return s
    def fin(ex, st, fr, s):
        if s[0] is not True and (s[2] != 1 or not s[1]):
            ex.report(st, fr, None, "closing the listener does not close the acceptor")
    automaton(R, P, f, "S06.accept", f.name, (None, False, 0, False), step, any_of(calls_named("close", "cancel"), writes_field("_is_closed")), fin, this_cls="RpcListener")
    # ---- limit
    f = P.fn(SI + "::OnAccepted")
    who = at(f, 0)
    def step(ex, st, fr, ev, s):
        run, limited, room, kept, closed = s
        if ev[0] == "branch":
            r = running(ev[1], ev[2])
            if r is not None:
                return (r, limited, room, kept, closed)
            t, tr = unneg(ev[1], ev[2])
            if t[0] == "eq" and is_ld(t[1], "max_connection_count") and const(t[2]) == -1:
                return (run, not tr, room, kept, closed)
            if t[0] == "lt" and is_ld(unwrap(t[1]), "max_connection_count") and const(t[2]) == 0:
                return (run, not tr, room, kept, closed)
            cnt = lambda y: has_call(y, "ConnectionCount") or (has_call(y, "size") and has_field(y, "_stream_set"))
            if t[0] == "lt" and cnt(t[1]) and is_ld(unwrap(t[2]), "max_connection_count"):
                return (run, limited, tr, kept, closed)
            if t[0] in ("lt", "eq") and (cnt(t[1]) or cnt(t[2])) and (has_field(t[1], "max_connection_count") or has_field(t[2], "max_connection_count")):
                # count > limit, count == limit and the like: decides only one side
                if t[0] == "lt" and is_ld(unwrap(t[1]), "max_connection_count") and cnt(t[2]):
                    return (run, limited, False if tr else "over", kept, closed)
                if t[0] == "eq" and tr:
                    return (run, limited, False, kept, closed)
                return (run, limited, "near", kept, closed)
        if ev[0] == "call":
            x = short(ev[1])
            if x == "insert" and ev[2] and has_field(ev[2], "_stream_set"):
                if run is not True:
                    ex.report(st, fr, ev[4], "a connection is kept although the server does not run")
                if limited is not False and room is not True:
                    ex.report(st, fr, ev[4], "a connection is kept %s" % ("although the limit is reached" if room in (False, "over", "near") else "without looking at the limit"))
                if closed:
                    ex.report(st, fr, ev[4], "a connection is kept that was closed")
                if not mentions(ev[3][0], p(f, 0)):
                    ex.report(st, fr, ev[4], "another connection is kept")
                return (run, limited, room, True, closed)
            if x == "close" and ev[2] and mentions(ev[2], p(f, 0)):
                if run is True and not (limited is True and room is False):
                    ex.report(st, fr, ev[4], "a connection is refused although the server runs and is below its limit")
                return (run, limited, room, kept, True)
        return s
    def fin(ex, st, fr, s):
        if not s[3] and not s[4]:
            ex.report(st, fr, None, "a connection is neither kept nor closed")
    automaton(R, P, f, "S06.limit", f.name, (None, None, None, False, False), step, calls_named("insert", "close", "ConnectionCount", "size"), fin, this_cls=SI,
              boundary=["RpcByteStream::close", SI + "::ConnectionCount"])
    g = P.fn(SI + "::ConnectionCount")
    def step(ex, st, fr, ev, s):
        if ev[0] == "ret" and fr.depth == 0 and not (has_call(ev[1], "size") and has_field(ev[1], "_stream_set")):
            ex.report(st, fr, ev[2], "the number of connections is not that of the kept ones")
        return s
    automaton(R, P, g, "S06.limit", g.name, 0, step, calls_named("size"), this_cls=SI)
    f = P.fn(SI + "::OnClosed")
    def step(ex, st, fr, ev, s):
        run, gone = s
        if ev[0] == "branch":
            r = running(ev[1], ev[2])
            if r is not None:
                return (r, gone)
            t, tr = unneg(ev[1], ev[2])
            u, utr = test_of(ev)
            if t[0] == "eq" and any(is_call(y, "find") and has_field(y[2], "_stream_set") and mentions(y[3][0], p(f, 0)) for y in t[1:3]) and any(is_call(y, "end") for y in t[1:3]):
                return (run, gone or tr)       # it is not counted
            if is_call(u, "count") and has_field(u[2], "_stream_set") and mentions(u[3][0], p(f, 0)):
                return (run, gone or not utr)
        if ev[0] == "call" and short(ev[1]) in ("erase", "clear") and ev[2] and has_field(ev[2], "_stream_set"):
            if short(ev[1]) == "clear" or not mentions(ev[3][0], p(f, 0)):
                ex.report(st, fr, ev[4], "another connection than the closed one is forgotten")
            return (run, True)
        return s
    def fin(ex, st, fr, s):
        if not s[1] and s[0] is not False:
            ex.report(st, fr, None, "a closed connection stays counted: the limit is reached without connections")
    automaton(R, P, f, "S06.limit", f.name, (None, False), step, calls_named("erase", "clear"), fin, this_cls=SI)
    # the closed event reaches the server: set up before accepting
    f = P.fn(SI + "::OnCreated")
    need = {"set_received_request_callback": SI + "::OnReceived", "set_closed_stream_callback": SI + "::OnClosed"}
    def step(ex, st, fr, ev, s):
        if ev[0] == "call" and short(ev[1]) in need and ev[2] and mentions(ev[2], p(f, 0)):
            if need[short(ev[1])] not in bound_target(("x",) + tuple(ev[3])):
                ex.report(st, fr, ev[4], "a connection reports to something else than its server")
            return s | {short(ev[1])}
        if ev[0] == "call" and short(ev[1]) == "set_flow_controller" and not has_field(ev[3][0], "_flow_controller"):
            ex.report(st, fr, ev[4], "a connection is governed by another flow controller")
        return s
    def fin(ex, st, fr, s):
        for q in sorted(set(need) - s):
            ex.report(st, fr, None, "a connection is not set up completely (%s)" % q)
    automaton(R, P, f, "S06.limit", f.name, frozenset(), step, calls_named("set_flow_controller", *need), fin, this_cls=SI)
    # ---- idle
    f = P.fn(SI + "::TimerMaintain")
    def who_of(recv):
        return recv
    def step(ex, st, fr, ev, s):
        idle, busy, lc, due, on, cl = s
        if ev[0] == "branch":
            t, tr = unneg(ev[1], ev[2])
            if t[0] == "eq" and is_ld(t[1], "_keep_alive_ticks") and const(t[2]) == -1:
                return (idle, busy, lc, due, not tr, cl)
            if t[0] == "lt" and (has_ld(t[1], "_last_rw_ticks") or has_call(t[1], "last_rw_ticks")) and has_ld(t[2], "_keep_alive_ticks"):
                return (not tr, busy, lc, due, on, cl)
            if t[0] == "lt" and (has_ld(t[2], "_last_rw_ticks") or has_call(t[2], "last_rw_ticks")) and has_ld(t[1], "_keep_alive_ticks"):
                return (tr, busy, lc, due, on, cl)
            u, utr = test_of(ev)
            if has_ld(u, "_pending_process_count") or has_call(u, "pending_process_count"):
                if t[0] == "lt":       # 0 < count, count < 1
                    utr = tr if const(t[1]) == 0 else (not tr if const(t[2]) == 1 else None)
                return (idle, utr, lc, due, on, cl)
            if has_field(u, "_listener") and (has_ld(u, "_is_closed") or has_call(u, "is_closed")):
                return (idle, busy, utr, due, on, cl)
            if is_ld(u, "_is_running") and utr is False and lc is None:
                return (idle, busy, "stopped", due, on, cl)
            if t[0] == "lt" and has_ld(t[2], "_restart_listen_interval_ticks"):
                return (idle, busy, lc, not tr, on, cl)
            if t[0] == "lt" and has_ld(t[1], "_restart_listen_interval_ticks"):
                return (idle, busy, lc, tr, on, cl)
            c = loop_test(ev[1], ev[2], None)
        if ev[0] == "advance":
            return (None, None, lc, due, on, cl)
        if ev[0] == "call":
            x = short(ev[1])
            if x == "close" and ev[1].startswith("RpcByteStream"):
                if on is not True:
                    ex.report(st, fr, ev[4], "a connection is closed as idle although no time is configured")
                if idle is not True:
                    ex.report(st, fr, ev[4], "a connection is closed as idle before the configured time without a transfer")
                if busy is not False:
                    ex.report(st, fr, ev[4], "a connection is closed as idle while a method runs")
                return (None, None, lc, due, on, cl)
            if x == "reset_ticks":
                if const(ev[3][1]) != 0:
                    ex.report(st, fr, ev[4], "the clock tick counts as a transfer: a connection is never idle")
                if idle is True and busy is False:
                    ex.report(st, fr, ev[4], "an idle connection is not closed")
            if ev[1] == SI + "::RestartListen":
                if lc is not True:
                    ex.report(st, fr, ev[4], "the listener is replaced although it is open")
                return (idle, busy, lc, due, on, True)
        return s
    def fin(ex, st, fr, s):
        if s[2] is True and s[3] is not False and not s[5]:
            ex.report(st, fr, None, "the listener is closed but the server does not listen again")
        if s[2] is None:
            ex.report(st, fr, None, "the state of the listener is not looked at")
    automaton(R, P, f, "S06.idle", f.name, (None, None, None, None, None, False), step,
              calls_named("close", "reset_ticks", "last_rw_ticks", "pending_process_count", "RestartListen", "is_closed"), fin, this_cls=SI,
              boundary=["RpcByteStream::close", "RpcByteStream::reset_ticks", SI + "::RestartListen", "RpcServerMessageStream::trigger_send", "RpcServerMessageStream::trigger_receive",
                        "RpcListener::is_closed", "RpcServerStream::pending_process_count", "RpcByteStream::last_rw_ticks"])
    # the ticks are those of the transfers
    S = statuses(P)
    for leaf, tmpl in SIDES:
        for hn in ("on_read_some", "on_write_some"):
            h = P.fn(tmpl + "::" + hn)
            ec = p(h, 0)
            def step(ex, st, fr, ev, s):
                ok, upd, live = s
                if ev[0] == "branch":
                    t, tr = test_of(ev)
                    if t == ec or (t[0] == "call" and t[2] == ec and ("{conv}" in t[1] or short(t[1]) in ("value", "failed"))):
                        return (not tr, upd, live)
                    sf = status_fact(P, ev[1], ev[2])
                    if sf and sf[0] == S["CONNECTED"]:
                        return (ok, upd, sf[1])
                if ev[0] == "write" and locis(ev[1], "_last_rw_ticks"):
                    return (ok, is_ld(ev[2], "_ticks"), live)
                return s
            def fin(ex, st, fr, s):
                if s[2] is not False and s[0] is True and not s[1]:
                    ex.report(st, fr, None, "a transfer is not counted as activity: the connection is closed as idle while it is used")
            automaton(R, P, h, "S06.idle", leaf + "::" + hn, (None, False, None), step, any_of(writes_field("_last_rw_ticks"), mentions_field("_status")), fin, this_cls=leaf,
                      boundary=BOUND + [tmpl + x for x in ("::try_start_send", "::try_start_receive", "::split_and_process_message", "::reset_tran_buf")], ident=h.key + leaf)
    f = P.fn("RpcByteStream::reset_ticks")
    def step(ex, st, fr, ev, s):
        ticks, rw, flag = s
        if ev[0] == "branch":
            t, tr = test_of(ev)
            if t == p(f, 1):
                return (ticks, rw, tr)
        if ev[0] == "write" and locis(ev[1], "_ticks"):
            return (ev[2] == p(f, 0), rw, flag)
        if ev[0] == "write" and locis(ev[1], "_last_rw_ticks"):
            if flag is not True:
                ex.report(st, fr, ev[4], "a clock tick counts as a transfer")
            return (ticks, True, flag)
        return s
    def fin(ex, st, fr, s):
        if not s[0]:
            ex.report(st, fr, None, "the clock of the connection does not advance")
    automaton(R, P, f, "S06.idle", f.name, (False, False, None), step, writes_field("_ticks", "_last_rw_ticks"), fin)


# ------------------------------------------------------------------ S07
def registry_rules(R, P):
    R.rule("S07.service", "a service name is bound to the first service registered under it; a second registration changes nothing and says so; a lookup returns the service of exactly that name or none")
    R.rule("S07.servlet", "a page path is bound to the first servlet registered under it until it is unregistered; requests being routed keep the set of servlets they looked up")
    f = P.fn("ServicePool::RegisterService")
    def step(ex, st, fr, ev, s):
        lk, dup, board, ins, head, cnt, look = s
        k = ev[0]
        if k in ("lock", "unlock"):
            return (k == "lock", dup, board, ins, head, cnt, look)
        if k == "branch":
            t, tr = unneg(ev[1], ev[2])
            if t[0] == "eq" and any(is_call(y, "find") and has_field(y[2], "_service_map") for y in t[1:3]) and any(is_call(y, "end") for y in t[1:3]):
                if not lk:
                    ex.report(st, fr, ev[3], "the services are looked at without their lock")
                return (lk, not tr, board, ins, head, cnt, lk)
            u, utr = test_of(ev)
            if is_call(u, "count") and has_field(u[2], "_service_map"):
                return (lk, utr, board, ins, head, cnt, lk)
            if contains(u, lambda y: is_call(y, "insert") and has_field(y[2], "_service_map")):
                return (lk, not utr, board, True, head, cnt, lk)
        if k == "new" and ev[1] == "ServiceBoard":
            return (lk, dup, ev[3], ins, head, cnt, look)
        if k == "call" and short(ev[1]) in ("insert", "emplace") and ev[2] and has_field(ev[2], "_service_map") and dup is not None:
            if not lk or not look:
                ex.report(st, fr, ev[4], "a service is registered without its name being looked up under the lock")
            if board is None or not any(mentions(a, board) for a in ev[3]):
                ex.report(st, fr, ev[4], "another service is registered")
            return (lk, dup, board, True if dup is False else ins, head, cnt, look)
        if k == "write" and ev[1]:
            if has_field(ev[1], "_service_map") or (ev[1][0] in ("F", "ix", "call") and contains(ev[1], lambda y: y[0] == "call" and short(y[1]) == "operator[]" and y[2] and has_field(y[2], "_service_map"))):
                if not lk or not look:
                    ex.report(st, fr, ev[4], "a service is registered without its name being looked up under the lock")
                if dup is not False:
                    ex.report(st, fr, ev[4], "a registered service is replaced")
                if board is None or not mentions(ev[2], board):
                    ex.report(st, fr, ev[4], "another service is registered")
                return (lk, dup, board, True, head, cnt, look)
            if locis(ev[1], "_head"):
                if dup is not False:
                    ex.report(st, fr, ev[4], "a refused service is listed")
                return (lk, dup, board, ins, board is not None and mentions(ev[2], board), cnt, look)
            if locis(ev[1], "_count"):
                return (lk, dup, board, ins, head, cnt + 1, look)
            if has_field(ev[1], "_cache"):
                if dup is not False:
                    ex.report(st, fr, ev[4], "a refused service is put into the cache")
                if board is None or not mentions(ev[2], board):
                    ex.report(st, fr, ev[4], "the cache gets another service")
        if k == "ret" and fr.depth == 0:
            v = retbool(ex, st, ev[1])
            if v is True and not ins:
                ex.report(st, fr, ev[2], "success is reported although the service was not registered")
            if v is False and (ins and dup is False or head or cnt):
                ex.report(st, fr, ev[2], "failure is reported although the service was registered")
            if v is True and (not head or cnt != 1):
                ex.report(st, fr, ev[2], "a registered service is not listed or counted")
            if v is False and dup is False:
                ex.report(st, fr, ev[2], "a service is refused although its name is free")
        return s
    automaton(R, P, f, "S07.service", f.name, (False, None, None, False, False, 0, False), step,
              any_of(calls_named("find", "count", "insert", "emplace", "operator[]"), writes_field("_head", "_count", "_cache"), lambda g, nid, n: n["k"] == "new"), this_cls="ServicePool")
    f = P.fn("ServicePool::FindService")
    def step(ex, st, fr, ev, s):
        same, found, lk = s
        k = ev[0]
        if k in ("lock", "unlock"):
            return (same, found, k == "lock")
        if k == "branch":
            t, tr = unneg(ev[1], ev[2])
            if t[0] == "eq" and any(is_call(y, "find") and has_field(y[2], "_service_map") for y in t[1:3]) and any(is_call(y, "end") for y in t[1:3]):
                if not lk:
                    ex.report(st, fr, ev[3], "the services are looked up without their lock")
                for y in t[1:3]:
                    if is_call(y, "find") and y[3][0] != p(f, 0):
                        ex.report(st, fr, ev[3], "another name is looked up")
                return (same, not tr, lk)
            if t[0] == "eq" and (p(f, 0) in t[1:3] or ("ld", p(f, 0)) in t[1:3]) and (has_field(t, "_cache")):
                return (tr, found, lk)
            u, utr = test_of(ev)
            if is_call(u, "operator==") and mentions(u, p(f, 0)) and has_field(u, "_cache"):
                return (utr, found, lk)
            if is_call(u, "compare") and mentions(u, p(f, 0)) and has_field(u, "_cache"):
                return (not utr, found, lk)
        if k == "ret" and fr.depth == 0:
            v = ev[1]
            if v == NULL or const(v) == 0:
                if found is True:
                    ex.report(st, fr, ev[2], "a registered service is reported as missing")
                if found is None:
                    ex.report(st, fr, ev[2], "a service is reported as missing without looking it up")
            elif has_field(v, "_cache"):
                if same is not True:
                    ex.report(st, fr, ev[2], "a cached service is returned for another name")
            elif found is not True:
                ex.report(st, fr, ev[2], "a service is returned that was not found")
            elif not has_call(v, "find"):
                ex.report(st, fr, ev[2], "another service than the one found is returned")
        return s
    automaton(R, P, f, "S07.service", f.name, (None, None, False), step, calls_named("find", "ServiceName", "operator==", "compare"), this_cls="ServicePool",
              boundary=["ServiceBoard::ServiceName"])
    # ---- servlets
    W = "WebService"
    for name, act in (("RegisterServlet", "insert"), ("UnregisterServlet", "erase")):
        f = P.fn(W + "::" + name)
        def step(ex, st, fr, ev, s):
            lk, own, did, ok, found = s
            k = ev[0]
            if k in ("lock", "unlock"):
                return (k == "lock", own if k == "lock" else None, did, ok, found)
            if k == "branch":
                t, tr = unneg(ev[1], ev[2])
                u, utr = test_of(ev)
                if is_call(u, "unique") and has_field(u, "_servlet_map"):
                    return (lk, utr or own is True, did, ok, found)
                if t[0] == "eq" and any(is_call(y, "find") for y in t[1:3]) and any(is_call(y, "end") for y in t[1:3]):
                    return (lk, own, did, ok, not tr)
                if contains(u, lambda y: is_call(y, "insert")):
                    return (lk, own, did, utr, found)
            if k == "call":
                x = short(ev[1])
                if x in ("swap", "reset", "operator=") and ((ev[2] and has_field(ev[2], "_servlet_map") and ev[2][0] == "F") or any(a == ("F", ("this",), W + "::_servlet_map") for a in ev[3])):
                    if not lk:
                        ex.report(st, fr, ev[4], "the set of servlets is replaced without its lock")
                    return (lk, True, did, ok, found)
                if x in ("insert", "erase", "clear", "operator[]", "insert_or_assign", "emplace") and (ev[1].startswith("std::map") or ev[1].startswith("std::unordered_map")):
                    if not lk:
                        ex.report(st, fr, ev[4], "the servlets are changed without their lock")
                    if own is not True and not (ev[2] and ev[2][0] in ("L", "new")):
                        ex.report(st, fr, ev[4], "the servlets are changed while a request may be looking at them")
                    if x != act:
                        ex.report(st, fr, ev[4], "a registered servlet may be replaced" if act == "insert" else "more than the servlet of the path is removed")
                    return (lk, own, True, ok, found)
            if k == "write" and ev[1] and locis(ev[1], "_servlet_map") and ev[3] != "init":
                return (lk, True, did, ok, found)
            if k == "ret" and fr.depth == 0:
                v = ev[1]
                if name == "RegisterServlet":
                    if not did:
                        ex.report(st, fr, ev[2], "a servlet is not registered")
                    r = retbool(ex, st, v)
                    if ok is not None and r is not None and r != ok:
                        ex.report(st, fr, ev[2], "the outcome of the registration is misreported")
                    if r is not None and ok is None and not has_call(v, "insert"):
                        ex.report(st, fr, ev[2], "the outcome of the registration is not that of the insertion")
                else:
                    null = v == NULL or const(v) == 0
                    if null and (did or found is not False):
                        ex.report(st, fr, ev[2], "a servlet that was registered is reported as missing")
                    if not null and not (did and found is True and has_call(v, "find")):
                        ex.report(st, fr, ev[2], "a servlet is returned that was not found and removed")
            return s
        automaton(R, P, f, "S07.servlet", f.name, (False, None, False, None, None), step,
                  any_of(calls_named("insert", "erase", "swap", "reset", "unique", "find", "clear", "operator[]"), writes_field("_servlet_map")), this_cls=W, boundary=["FormatPath"])
    # who else touches the map
    allowed = {P.fn(W + "::RegisterServlet").key, P.fn(W + "::UnregisterServlet").key}
    n = 0
    for g in sorted(P.fns.values(), key=lambda g: g.key):
        if g.d.get("ctor") or g.d.get("dtor"):
            continue
        if not any(x["k"] == "mem" and fieldis(x["fld"], "WebService::_servlet_map") for x in g.nodes):
            continue
        rs = roots(P, [g.key])
        if all(r.key in allowed for r in rs):
            continue
        n += 1
        def step(ex, st, fr, ev, s):
            if ev[0] in ("lock", "unlock"):
                return ev[0] == "lock"
            if ev[0] == "mem" and fieldis(ev[1][2] if ev[1][0] == "F" else "", "_servlet_map") and not s:
                ex.report(st, fr, ev[2], "the set of servlets is taken without its lock")
            return s
        automaton(R, P, g, "S07.servlet", g.name, False, step, mentions_field("_servlet_map"), this_cls=W, reads=True)
    R.decide("S07.servlet", "readers of the servlets", n >= 1, "src/sofa/pbrpc/web_service.cc", "nobody looks at the servlets")


# ------------------------------------------------------------------ S08
def builtin_rules(R, P):
    R.rule("S08.done", "every builtin method ends each of its paths by completing the request exactly once, after the response or the failure was filled in")
    R.rule("S08.respect", "builtin services are present unless disabled, and the list of services is kept back when the options say so")
    R.rule("S08.options", "an option changes at run time only to the value given for it, and the given ones take effect")
    cls = [c for c in (P.subclasses("BuiltinService") | P.subclasses("google::protobuf::Service")) if "BuiltinServiceImpl" in c]
    fs = sorted((f for f in P.fns.values() if f.cls and short(f.cls) == "BuiltinServiceImpl" and f.virt and len(f.params) == 4), key=lambda f: f.key)
    R.decide("S08.done", "builtin methods", len(fs) >= 6, "src/sofa/pbrpc/builtin_service_impl.h", "builtin methods are missing")
    for f in fs:
        def step(ex, st, fr, ev, s):
            ran, failed, filled = s
            if ev[0] == "call":
                x = short(ev[1])
                if x == "Run" and ev[2] == p(f, 3):
                    if ran:
                        ex.report(st, fr, ev[4], "a builtin request is completed twice")
                    return (True, failed, filled)
                if ev[2] and ev[2] in (p(f, 0), p(f, 2)) or any(a in (p(f, 0), p(f, 2), p(f, 1)) for a in ev[3]) or ev[2] == p(f, 1):
                    if ran:
                        ex.report(st, fr, ev[4], "a builtin request is used after it was completed: it may be released already")
                    if x == "SetFailed":
                        return (ran, True, filled)
            if ev[0] == "branch" and ran is False:
                u, utr = test_of(ev)
                if is_call(u, "lock") and not utr:
                    return (ran, "must" if failed is None else failed, filled)
            return s
        def fin(ex, st, fr, s):
            if not s[0]:
                ex.report(st, fr, None, "a builtin request is never completed")
        automaton(R, P, f, "S08.done", f.name, (False, None, False), step, any_of(calls_named("Run", "SetFailed", "lock"), lambda g, nid, n: n["k"] == "mcall" and g.cls == f.cls), fin,
                  this_cls=f.cls)
        # a server that is gone is not used
        def step(ex, st, fr, ev, s):
            got, null, ok = s
            if ev[0] == "call" and short(ev[1]) == "lock" and ev[2] and (has_field(ev[2], "_rpc_server") or has_field(ev[2], "_service_pool")):
                return (got | {ev[5]}, null, ok) if len(ev) > 5 else s
            if ev[0] == "branch":
                u, utr = test_of(ev)
                if u in got:
                    return (got, null if utr else null | {u}, ok | {u} if utr else ok)
            if ev[0] == "call" and ev[2] and ev[2] in got and short(ev[1]) != "lock":
                if ev[2] in null or ev[2] not in ok:
                    ex.report(st, fr, ev[4], "a server that may be gone is used")
            return s
        automaton(R, P, f, "S08.done", f.name + " (server gone)", (frozenset(), frozenset(), frozenset()), step, lambda g, nid, n: n["k"] == "mcall" and g.cls == f.cls, this_cls=f.cls)
    # list service
    f = [g for g in fs if short(g.name) == "ListService"][0]
    def step(ex, st, fr, ev, s):
        off, failed = s
        if ev[0] == "branch":
            u, utr = test_of(ev)
            if is_ld(u, "_disable_list_service"):
                return (utr, failed)
        if ev[0] == "call":
            x = short(ev[1])
            if x == "SetFailed":
                return (off, True)
            if (ev[2] == p(f, 2) or p(f, 2) in ev[3]) and off is not False and x not in ("Clear",):
                ex.report(st, fr, ev[4], "the services are listed although that is disabled")
            if x == "Run" and off is True and not failed:
                ex.report(st, fr, ev[4], "a disabled listing is answered as successful")
        return s
    automaton(R, P, f, "S08.respect", f.name, (None, None), step, any_of(calls_named("SetFailed", "CopyFrom", "Run", "ListService"), mentions_field("_disable_list_service")), this_cls=f.cls)
    c = [g for g in P.fns.values() if g.cls == f.cls and g.d.get("ctor") and g.params]
    for g in c:
        def step(ex, st, fr, ev, s):
            if ev[0] == "write" and locis(ev[1], "_disable_list_service"):
                return ev[2]
            return s
        outs, ex = automaton(R, P, g, "S08.respect", "BuiltinServiceImpl (constructor)", None, step, writes_field("_disable_list_service"))
        R.decide("S08.respect", "option of the listing", all(o.mon is not None and mentions(o.mon, ("p", g.key, 2)) for o in outs), where(g), "the option that keeps back the list of services is not taken over")
    f = P.fn(SI + "::Start")
    def step(ex, st, fr, ev, s):
        off, reg = s
        if ev[0] == "branch":
            u, utr = test_of(ev)
            if is_ld(u, "disable_builtin_services"):
                return (utr, reg)
        if ev[0] == "new" and short(ev[1]) == "BuiltinServiceImpl":
            if off is not False:
                ex.report(st, fr, ev[4], "builtin services are registered although they are disabled")
            if len(ev[2]) < 3 or not is_ld(unwrap(ev[2][2]), "disable_list_service"):
                ex.report(st, fr, ev[4], "the option that keeps back the list of services is not handed on")
            return (off, ev[3])
        if ev[0] == "call" and short(ev[1]) == "RegisterService" and reg and mentions(ev[3][0], reg):
            return (off, "registered")
        if ev[0] == "write" and locis(ev[1], "_is_running") and const(ev[2]) == 1:
            if off is not True and reg != "registered":
                ex.report(st, fr, ev[4], "the server runs without the builtin services")
        return s
    automaton(R, P, f, "S08.respect", f.name, (None, None), step, any_of(calls_named("RegisterService"), writes_field("_is_running"), mentions_field("disable_builtin_services"), lambda g, nid, n: n["k"] == "new" and short(n.get("cls") or n.get("t") or "") == "BuiltinServiceImpl"),
              this_cls=SI, boundary=["RpcListener::start_listen", "ThreadGroupImpl::start", "IOServicePool::Run", "ResolveAddress", "ServicePool::RegisterService", "TimerWorker::start"])
    # options
    names = ("max_connection_count", "keep_alive_time", "max_pending_buffer_size", "max_throughput_in", "max_throughput_out")
    f = [g for g in fs if short(g.name) == "UpdateOptions"][0]
    def step(ex, st, fr, ev, s):
        has, given, reset, failed = s
        if ev[0] == "branch":
            u, utr = test_of(ev)
            for q in names:
                if is_call(u, "has_" + q):
                    return (tuple(sorted(dict(has, **{q: utr}).items())) if isinstance(has, dict) else tuple(sorted(dict(dict(has), **{q: utr}).items())), given, reset, failed)
        if ev[0] == "write" and ev[1] and ev[1][0] == "F" and ev[1][2].startswith("RpcServerOptions::") and ev[1][1][0] == "L":
            q = short(ev[1][2])
            if q in names and unwrap(ev[2]) != ("ld", ev[1]):
                if not is_call(unwrap(ev[2]), q):
                    ex.report(st, fr, ev[4], "an option is set to another value than the given one (%s)" % q)
                if dict(has).get(q) is not True:
                    ex.report(st, fr, ev[4], "an option changes although no value was given for it (%s)" % q)
                return (has, given | {q}, reset, failed)
        if ev[0] == "call" and short(ev[1]) == "ResetOptions":
            for q in names:
                if dict(has).get(q) is not False and q not in given:
                    ex.report(st, fr, ev[4], "a given option is ignored (%s)" % q)
            return (has, given, True, failed)
        if ev[0] == "call" and short(ev[1]) == "SetFailed":
            return (has, given, reset, True)
        if ev[0] == "call" and short(ev[1]) == "Run" and ev[2] == p(f, 3):
            if not reset and not failed:
                ex.report(st, fr, ev[4], "success is reported although no option was changed")
            if reset and failed:
                ex.report(st, fr, ev[4], "failure is reported although options were changed")
        return s
    automaton(R, P, f, "S08.options", f.name, ((), frozenset(), False, False), step,
              any_of(calls_named("ResetOptions", "SetFailed", "Run", *["has_" + q for q in names]), writes_field(*["RpcServerOptions::" + q for q in names])), this_cls=f.cls,
              boundary=[SI + "::ResetOptions"])
    g = P.fn(SI + "::ResetOptions")
    eff = {"max_throughput_in": "_slice_quota_in", "max_throughput_out": "_slice_quota_out", "max_pending_buffer_size": "_max_pending_buffer_size", "keep_alive_time": "_keep_alive_ticks"}
    def step(ex, st, fr, ev, s):
        if ev[0] == "write" and ev[1] and ev[1][0] == "F":
            q = short(ev[1][2])
            if q in names and has_field(ev[1], "_options"):
                if not (is_ld(unwrap(ev[2]), q) and mentions(ev[2], p(g, 0))):
                    ex.report(st, fr, ev[4], "an option is set to another value than the given one (%s)" % q)
                return s | {q}
            for a, b in eff.items():
                if fieldis(ev[1][2], b):
                    if a not in s and not mentions(ev[2], p(g, 0)) and const(ev[2]) != -1:
                        ex.report(st, fr, ev[4], "%s is computed from the old option" % b)
                    return s | {b}
        return s
    def fin(ex, st, fr, s):
        for q in sorted((set(names) | set(eff.values())) - s):
            ex.report(st, fr, None, "a changed option does not take effect (%s)" % q)
    automaton(R, P, g, "S08.options", g.name, frozenset(), step, writes_field(*(list(names) + list(eff.values()))), fin, this_cls=SI)


# ------------------------------------------------------------------ S09
SAFE = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789._-+=@%")
SINKS = ("popen", "system", "execl", "execlp", "execle", "execv", "execvp", "execve", "posix_spawn", "dlopen")
FILES = ("fopen", "open", "creat", "remove", "unlink", "rename", "rmdir", "mkdir", "opendir", "chmod", "link", "symlink", "truncate", "fopen64", "open64")


def param_types(f):
    """the types of the parameters of a function, as spelled in its key"""
    out, d, cur = [], 0, ""
    k = f.key
    i, depth = k.find("("), 0
    for c in k[i + 1:]:
        if c in "(<[":
            depth += 1
        elif c in ")>]":
            if depth == 0:
                break
            depth -= 1
        if c == "," and depth == 0:
            out.append(cur)
            cur = ""
        else:
            cur += c
    return out + [cur] if cur else out


def text_rules(R, P):
    R.rule("S09.text", "text taken from a request becomes part of a shell command or a file name only after it was found to consist of harmless characters")
    sites = []
    for f in P.fns.values():
        for nid, n in enumerate(f.nodes):
            if n["k"] == "call" and n.get("n") in SINKS + FILES + tuple("std::" + x for x in FILES):
                sites.append((f, nid, n["n"]))
            if n["k"] == "ctor" and ("ifstream" in (n.get("n") or "") or "ofstream" in (n.get("n") or "") or "fstream" in (n.get("n") or "")) and n.get("args", True):
                sites.append((f, nid, n["n"]))
    R.sites += len(sites)
    R.decide("S09.text", "sites that run commands or open files", len(sites) >= 1, "src/sofa/pbrpc/profiling.cc", "no site found")
    fs = sorted({f.key for f, _, _ in sites})
    rs = roots(P, fs)
    seen = 0
    for f in rs:
        srcs = [i for i, x in enumerate(param_types(f)) if any(y in x for y in ("string", "HTTPRequest", "Message", "char *"))]
        if not srcs:
            R.ok("S09.text", f.name, "takes no text")
            continue
        if f.cls is None and not callers_of(P).get(f.key) and f.key not in P._refd:
            R.ok("S09.text", f.name, "not reachable from a request")
            continue
        seen += 1
        ps = [p(f, i) for i in srcs]
        # state: validated parameters, tainted locations
        def dirty(t, s):
            good, bad = s
            return any(mentions(t, q) and q not in good for q in ps) or any(mentions(t, l) and src not in good for l, src in bad)
        def origin(t, s):
            good, bad = s
            return [q for q in ps if q not in good and mentions(t, q)] + [src for l, src in bad if mentions(t, l) and src not in good]
        def step(ex, st, fr, ev, s):
            good, bad = s
            k = ev[0]
            if k == "branch":
                t, tr = unneg(ev[1], ev[2])
                if t[0] == "eq":
                    for a, b in ((t[1], t[2]), (t[2], t[1])):
                        a = unwrap(a)
                        if is_call(a, "find_first_not_of") and const(b) in (-1, 2 ** 64 - 1, 2 ** 63 - 1) or (is_call(a, "find_first_not_of") and has_field(b, "npos")):
                            lit = [y[1] for x in a[3] for y in subterms(x) if y and y[0] == "str"]
                            if tr and lit and set(lit[0]) <= SAFE:
                                return (good | {q for q in ps if a[2] == q or a[2] == ("ld", q)} | {src for l, src in bad if a[2] == l}, bad)
                return s
            if k == "write" and ev[1] and ev[2] and dirty(ev[2], s) and ev[1][0] in ("L", "F"):
                return (good, bad | {(ev[1], o) for o in origin(ev[2], s)})
            if k == "object" and ev[2] and dirty(("x",) + tuple(ev[3]), s):
                name = ev[1]
                if "fstream" in name:
                    ex.report(st, fr, ev[4] if len(ev) > 4 else None, "text of a request becomes part of a file name unchecked")
                return (good, bad | {(ev[2], o) for o in origin(("x",) + tuple(ev[3]), s)})
            if k == "call":
                if ev[1] in SINKS:
                    if any(dirty(a, s) for a in ev[3]):
                        ex.report(st, fr, ev[4], "text of a request becomes part of a shell command unchecked")
                elif ev[1] in FILES or (ev[1].startswith("std::") and short(ev[1]) in ("remove", "rename")):
                    if any(dirty(a, s) for a in ev[3]):
                        ex.report(st, fr, ev[4], "text of a request becomes part of a file name unchecked")
                elif ev[2] and ev[2][0] == "L" and any(dirty(a, s) for a in ev[3]):
                    o = {x for a in ev[3] for x in origin(a, s)}
                    return (good, bad | {(ev[2], x) for x in o})
                elif short(ev[1]) == "operator<<" and len(ev[3]) > 1 and ev[3][0][0] in ("L", "call") and dirty(ev[3][1], s):
                    tgt = ev[3][0]
                    while tgt and tgt[0] == "call":
                        tgt = tgt[2] if tgt[2] else tgt[3][0]
                    if tgt and tgt[0] == "L":
                        return (good, bad | {(tgt, x) for x in origin(ev[3][1], s)})
            return s
        automaton(R, P, f, "S09.text", f.name, (frozenset(), frozenset()), step, calls_named("find_first_not_of", "append", "operator+=", "operator+", *(SINKS + FILES)), this_cls=f.cls, ident="S09" + f.key)
    R.decide("S09.text", "functions that take text to such a site", seen >= 1, "src/sofa/pbrpc/profiling.cc", "no entry found")
