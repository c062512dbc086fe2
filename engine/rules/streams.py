"""Connection-level rules: token ownership, I/O handlers, message conservation,
flow control, back-pressure, close."""
from lib import *
import core

CLIENT = ("RpcClientStream", "RpcMessageStream")
SERVER = ("RpcServerStream", "RpcServerMessageStream")
SIDES = (CLIENT, SERVER)

STATUS = {"INIT": 0, "CONNECTING": 1, "CONNECTED": 2, "CLOSED": 3}

VIRT = ("on_sending", "on_sent", "on_send_failed", "on_received", "on_closed")
BOUND = ["RpcByteStream::close", "RpcByteStream::async_read_some", "RpcByteStream::async_write_some",
         "RpcByteStream::async_connect", "RpcEndpointToString"] + \
        ["%s::%s" % (c, v) for c in ("RpcMessageStream", "RpcServerMessageStream", "RpcClientStream",
                                     "RpcServerStream", "RpcByteStream") for v in VIRT]

SENDENV = ("_sending_message", "_sending_cookie", "_sent_size", "_sending_data", "_sending_size", "_swapped_calls")
SENDW = ("_swapped_message_count", "_swapped_data_size", "_swapped_buffer_size")
RECVENV = ("_receiving_data", "_receiving_size", "_tran_buf", "_received_message_size", "_received_header_size",
           "_receiving_header_identified", "_receiving_message", "_receiving_header",
           "_magic_string", "_magic_string_recved_bytes", "_cur_recved_bytes", "_current_rpc_request_parser")


def statuses(P):
    for n, v in P.enums.items():
        if "STATUS_CONNECTING" in v and "STATUS_CLOSED" in v:
            return {k.replace("STATUS_", ""): x for k, x in v.items()}
    raise Broken("stream status enumeration not found")


def status_fact(P, t, truth):
    """(value, bool): the branch establishes that the stream status is (not) value"""
    t, truth = unneg(t, truth)
    if t[0] == "eq" and t[2][0] == "c" and is_ld(t[1], "_status"):
        return t[2][1], truth
    return None


FRESH = frozenset()


def seen(rel, field):
    """a look for more work counts only when it reads the field after the release"""
    return False if rel is False or field in rel else rel


class Token(Monitor):
    """typestate of one transmission token along every path of an I/O entry"""
    reads = True
    boundary = frozenset(BOUND)

    def __init__(self, P, which, owns, mode="token"):
        self.P = P
        self.mode = mode
        self.which = which
        self.owns = owns
        self.tok = "_%s_token" % which
        self.quota = "_write_quota_token" if which == "send" else "_read_quota_token"
        self.env = SENDENV if which == "send" else RECVENV
        self.envw = SENDW if which == "send" else ()
        self.io = "async_write_some" if which == "send" else "async_read_some"
        self.acq = "acquire_write_quota" if which == "send" else "acquire_read_quota"
        self.S = statuses(P)

    def owner(self, ex):
        for c in [self.leaf] + sorted(self.P.bases(self.leaf)):
            if self.P.field_type("%s::%s" % (c, self.quota)):
                return c
        raise Broken("field %s not found" % self.quota)

    def ident(self):
        return ("token", self.which)

    def interesting(self, f, nid, n):
        if n["k"] == "mem" and any(fieldis(n["fld"], x) for x in self.env + self.envw + (self.tok, self.quota)):
            return True
        return n["k"] == "mcall" and short(n.get("n")) in (self.io, "close")

    # state: (own, casterm, unobserved release, closed, connected, quota-out, quota-ok)
    def init(self, ex):
        return ("own" if self.owns else "none", None, False, False, False, False, self.owns and self.which == "send")

    def rep(self, kind, ex, st, fr, nid, msg):
        if kind == self.mode:
            ex.report(st, fr, nid, msg)

    def event(self, ex, st, fr, ev):
        own, cas, rel, closed, conn, qout, qok = st.mon
        k = ev[0]
        if k in ("cas", "xchg") and locis(ev[1], self.tok):
            new = ev[2]
            nid = ev[-2]
            if new == ("c", 1):
                if own == "own":
                    self.rep("token", ex, st, fr, nid, "%s token taken again by its holder" % self.which)
                return (own, ev[-1], rel, closed, conn, qout, qok)
            if new == ("c", 0):
                if own != "own" and not closed:
                    self.rep("token", ex, st, fr, nid, "%s token released on a path that does not hold it" % self.which)
                return ("none", None, FRESH, closed, conn, qout, False)
            self.rep("token", ex, st, fr, nid, "%s token set to an unexpected value %s" % (self.which, show(new)))
        elif k == "write" and locis(ev[1], self.tok):
            if ev[3] == "init":
                return st.mon
            if ev[2] == ("c", 0) and own == "own":
                return ("none", None, FRESH, closed, conn, qout, False)
            self.rep("token", ex, st, fr, ev[4], "%s token written without the atomic exchange" % self.which)
        elif k == "branch":
            t, truth = unneg(ev[1], ev[2])
            if cas is not None and t[0] == "eq" and t[1] == cas and t[2][0] == "c":
                free = (t[2][1] == 0) == truth
                if free:
                    return ("own", None, False, closed, conn, False, False)
                return (own, None, False, closed, conn, qout, qok)
            s = status_fact(self.P, t, truth)
            if s:
                v, is_ = s
                if v == self.S["CONNECTED"]:
                    conn = is_
                    if not is_:
                        rel = False
                elif v == self.S["CLOSED"] and is_:
                    rel, closed = False, True
                return (own, cas, rel, closed, conn, qout, qok)
            if t[0] == "eq" and is_ld(t[1], self.tok) and t[2][0] == "c":
                if (t[2][1] == 1) == truth:
                    rel = seen(rel, self.tok)
                return (own, cas, rel, closed, conn, qout, qok)
            if t[0] in ("lt", "eq") and t[2][0] == "c":
                a, c = t[1], t[2][1]
                exhausted = (t[0] == "lt" and c == 1 and truth) or (t[0] == "eq" and c == 0 and truth)
                granted = (t[0] == "lt" and c == 1 and not truth)
                cur = st.store.get(("F", ("this",), "%s::%s" % (self.owner(ex), self.quota)))
                if is_ld(a, self.quota) and cur is not None and is_call(cur, self.acq):
                    a = cur
                if is_call(a, self.acq):
                    if exhausted and cur != a:
                        self.rep("quota", ex, st, fr, ev[3], "an exhausted quota is not recorded in the stream: the maintenance timer will not wake it")
                    return (own, cas, rel, closed, conn, exhausted, granted)
                if is_ld(a, self.quota):
                    if exhausted:
                        rel = seen(rel, self.quota)
                    return (own, cas, rel, closed, conn, qout, qok)
                if self.which == "send" and has_ld(a, "_pending_message_count"):
                    if exhausted:
                        rel = seen(rel, "_pending_message_count")
                    return (own, cas, rel, closed, conn, qout, qok)
            if self.which == "receive" and has_ld(t, "_pending_buffer_size") and has_ld(t, "_max_pending_buffer_size"):
                return (own, cas, seen(rel, "_pending_buffer_size"), closed, conn, qout, qok)
        elif k == "mem":
            loc = ev[1]
            if rel is not False and loc[0] == "F":
                for x in (self.tok, self.quota, "_pending_message_count", "_pending_buffer_size"):
                    if fieldis(loc[2], x):
                        rel = rel | {x}
                st.mon = (own, cas, rel, closed, conn, qout, qok)
            if loc[0] == "F" and loc[1] == ("this",) and own != "own" and not closed:
                if any(fieldis(loc[2], x) for x in self.env):
                    self.rep("token", ex, st, fr, ev[2], "%s is touched without holding the %s token" % (short(loc[2]), self.which))
        elif k == "write":
            loc = ev[1]
            if loc and loc[0] == "F" and loc[1] == ("this",) and own != "own" and ev[3] != "init" and not closed:
                if any(fieldis(loc[2], x) for x in self.envw):
                    self.rep("token", ex, st, fr, ev[4], "%s is written without holding the %s token" % (short(loc[2]), self.which))
        elif k == "call":
            s = short(ev[1])
            if s == self.io:
                if own != "own":
                    self.rep("token", ex, st, fr, ev[4], "%s() started without holding the %s token" % (s, self.which))
                if closed:
                    self.rep("token", ex, st, fr, ev[4], "%s() started after the stream was closed" % s)
                if not qok:
                    self.rep("quota", ex, st, fr, ev[4], "%s() is started without a granted quota from the flow controller" % s)
                if not conn:
                    self.rep("token", ex, st, fr, ev[4], "%s() started without the stream being known to be connected" % s)
                return ("none", None, False, closed, conn, qout, False)
            if s == "close" and ev[2] == ("this",):
                return (own, cas, rel, True, conn, qout, qok)
        return st.mon

    def at_exit(self, ex, st, fr):
        own, cas, rel, closed, conn, qout, qok = st.mon
        if closed:
            return
        if not self.owns_matters(st):
            return
        if own == "own":
            self.rep("token", ex, st, fr, None, "the %s token is still held when the entry returns: the connection stalls" % self.which)
        elif rel is not False and not qout:
            self.rep("token", ex, st, fr, None, "the %s token is released without looking for more work afterwards: a queued wake-up is lost" % self.which)

    def owns_matters(self, st):
        # an entry that starts as the holder but finds the stream no longer
        # connected returns early: the closed stream needs no token any more
        own, cas, rel, closed, conn, qout, qok = st.mon
        return not (self.owns and not conn and own == "own")


def entries(P, tmpl):
    """entry points of the stream template: everything public, plus the
    completion handlers"""
    out = []
    for f in P.fns.values():
        if f.cls == tmpl and not f.d.get("ctor") and not f.d.get("dtor"):
            out.append(f)
    return out


def token_rules(R, P):
    R.rule("T03.token", "a read or write is started, and the sender/receiver state is touched, only by the holder of the atomic token; "
           "the token is released or handed to the started operation on every path, and a release is followed by looking for more work")
    n = 0
    for leaf, tmpl in SIDES:
        for which, owner in (("send", "on_write_some"), ("receive", "on_read_some")):
            covered = set()
            for f in entries(P, tmpl):
                nm = short(f.name)
                if nm in ("on_connected",):
                    continue
                mon = Token(P, which, nm == owner)
                mon.leaf = leaf
                if f.access != 0 and nm not in ("on_write_some", "on_read_some"):
                    # private helpers are judged inside their callers; one without callers is an entry itself
                    if any(t == f.key for g in P.fns.values() if g.cls in (tmpl, leaf, "RpcByteStream") for _, t, _ in P.edges(g)):
                        continue
                if f.key not in P.relevance(mon.ident(), mon.interesting):
                    continue
                ex = Explorer(P, mon, leaf)
                ex.run(f)
                covered.add(f.key)
                covered |= ex.inlined
                R.absorb(ex, "T03.token", "%s token in %s::%s" % (which, leaf, nm))
                n += 1
            # nothing else in the class touches the protected state
            mon = Token(P, which, False)
            mon.leaf = leaf
            for f in P.fns.values():
                if f.cls in (tmpl, leaf) and f.key not in covered and not f.d.get("ctor") and not f.d.get("dtor") \
                        and short(f.name) not in ("on_connected",):
                    if any(nn["k"] == "mem" and any(fieldis(nn["fld"], x) for x in mon.env) for nn in f.nodes):
                        callers = [g for g in P.fns.values() if any(t == f.key for _, t, _ in P.edges(g))]
                        if callers and all(short(g.name) == "on_connected" for g in callers):
                            continue
                        if callers and all(g.key in covered or short(g.name) == "on_connected" for g in callers):
                            continue
                        ex = Explorer(P, mon, leaf)
                        ex.run(f)
                        R.absorb(ex, "T03.token", "%s token in %s" % (which, f.name))
    if n < 8:
        raise Broken("token rule matched only %d entries" % n)


# ------------------------------------------------------------------ T01
def close_rules(R, P):
    R.rule("T01.once", "the CLOSED state is entered only by an atomic exchange whose winner, and nobody else, runs the close notification exactly once")
    R.rule("T01.final", "every other state change is a compare-and-swap from a state that is not CLOSED, and nothing is started when it loses")
    R.rule("T01.notify", "the close notification of each stream kind reports the closure to the owner exactly once; the socket is shut down first")
    S = statuses(P)
    sites = 0
    # which functions change the status
    direct = []
    for f in P.fns.values():
        if not f.cls or not (P.is_a(f.cls, "RpcByteStream")) or f.d.get("ctor"):
            continue
        touches = [nid for nid, n in enumerate(f.nodes)
                   if any(fieldis(m, "_status") for m in core.written_fields(f, n))
                   or (n["k"] == "un" and n["op"] == "&" and f.nodes[n["x"]]["k"] == "mem" and fieldis(f.nodes[n["x"]]["fld"], "_status"))
                   or (n["k"] == "mcall" and short(n.get("n")) == "on_closed")]
        if touches:
            sites += len(touches)
            direct.append(f.key)
    for f in roots(P, direct):
        def lab(ex, st, fr, ev):
            k = ev[0]
            if k in ("cas", "xchg") and locis(ev[1], "_status"):
                return (k, ev[2], ev[3] if k == "cas" else None, ev[-1])
            if k == "write" and locis(ev[1], "_status") and ev[3] != "init":
                return ("write", ev[2], fr.fn.loc(ev[4]))
            if k == "branch":
                t, tr = unneg(ev[1], ev[2])
                if t[0] == "eq" and t[1][0] in ("cas", "xchg") and locis(t[1][1], "_status"):
                    return ("test", t[1], t[2], tr)
            if k == "call":
                s = short(ev[1])
                if s in ("on_closed", "trigger_receive", "trigger_send", "shutdown", "async_connect", "async_read_some", "async_write_some"):
                    return ("call", s)
                if s == "close" and ev[2] == ("this",):
                    return ("call", "close")
            return None
        leafs = [c for c in ("RpcClientStream", "RpcServerStream")] if f.cls == "RpcByteStream" else [f.cls]
        for leaf in leafs:
            outs, ex = traces(R, P, f, lab, mentions_field("_status"), "T01.once", f.name, this_cls=leaf,
                              boundary=BOUND + [c + t for c in ("RpcByteStream", "RpcMessageStream", "RpcServerMessageStream") for t in ("::trigger_receive", "::trigger_send")],
                              ident=("T01", f.name))
            for tr, st in outs:
                path = st.path()
                where = "%s:%s" % (f.file, f.line)
                won = None
                for i, x in enumerate(tr):
                    if x[0] == "write":
                        what = "CLOSED without running the close notification" if x[1] == ("c", S["CLOSED"]) else \
                            "a state value that may overwrite CLOSED"
                        R.bad("T01.final", f.name, x[2], "%s stores %s" % (f.name, what), path)
                    elif x[0] == "xchg":
                        if x[1] != ("c", S["CLOSED"]):
                            R.bad("T01.final", f.name, where, "%s unconditionally exchanges the state to %s" % (f.name, show(x[1])), path)
                    elif x[0] == "cas":
                        if x[1] == ("c", S["CLOSED"]):
                            if x[2] == ("c", S["CLOSED"]):
                                R.bad("T01.once", f.name, where, "compare-and-swap to CLOSED from CLOSED", path)
                        elif x[2] == ("c", S["CLOSED"]) or x[2][0] != "c":
                            R.bad("T01.final", f.name, where, "state leaves CLOSED", path)
                # winner runs the notification exactly once, loser never
                toc = [x for x in tr if x[0] in ("xchg", "cas") and x[1] == ("c", S["CLOSED"])]
                nclosed = sum(1 for x in tr if x == ("call", "on_closed"))
                if toc:
                    test = [x for x in tr if x[0] == "test" and x[1] == toc[0][3]]
                    if not test:
                        R.bad("T01.once", f.name, where, "the outcome of closing is not tested before the notification", path)
                    else:
                        t = test[0]
                        if toc[0][0] == "xchg":
                            win = not t[3] if t[2] == ("c", S["CLOSED"]) else None
                        else:
                            win = t[3] if t[2] == toc[0][2] else None
                        if win is None:
                            R.bad("T01.once", f.name, where, "the outcome of closing is compared with the wrong state", path)
                        elif win and nclosed != 1:
                            R.bad("T01.once", f.name, where, "the closing path runs the close notification %d times" % nclosed, path)
                        elif not win and nclosed != 0:
                            R.bad("T01.once", f.name, where, "the close notification runs again on a stream that is already closed", path)
                        elif win:
                            names = [x[1] for x in tr if x[0] == "call"]
                            if "shutdown" not in names or names.index("shutdown") > names.index("on_closed"):
                                R.bad("T01.notify", f.name, where, "the socket is not shut down before the close notification", path)
                elif nclosed:
                    R.bad("T01.once", f.name, where, "close notification without closing the stream", path)
                # a lost transition starts nothing
                for i, x in enumerate(tr):
                    if x[0] == "cas" and x[1] != ("c", S["CLOSED"]):
                        test = [y for y in tr[i:] if y[0] == "test" and y[1] == x[3]]
                        lost = test and ((test[0][3] is False and test[0][2] == x[2]) or (test[0][3] and test[0][2] != x[2]))
                        after = [y[1] for y in tr[i:] if y[0] == "call" and y[1] in ("trigger_receive", "trigger_send", "async_connect")]
                        if (lost or not test) and after:
                            R.bad("T01.final", f.name, where, "%s runs although the state change may have lost against close()" % after[0], path)
            R.ok("T01.once", "%s on %s" % (f.name, leaf), "%d paths" % len(outs))
    if sites < 5:
        raise Broken("stream status is changed at only %d sites" % sites)
    # on_closed implementations: owner callback exactly once when set
    for leaf, fld in (("RpcClientStream", "_closed_stream_callback"), ("RpcServerStream", "_closed_stream_callback")):
        f = P.fn(leaf + "::on_closed")
        def lab2(ex, st, fr, ev):
            if ev[0] == "call" and ev[2] is not None and locis(ev[2], fld) and short(ev[1]) in ("operator()",):
                return "cb"
            if ev[0] == "branch" and contains(ev[1], lambda x: x[0] == "F" and len(x) == 3 and fieldis(str(x[2]), fld)):
                t, tr = unneg(ev[1], ev[2])
                return ("set", tr if t[0] != "eq" else not tr)
            return None
        outs, ex = traces(R, P, f, lab2, mentions_field(fld), "T01.notify", leaf, this_cls=leaf)
        for tr, st in outs:
            has = ("set", True) in tr
            unset = ("set", False) in tr
            n = tr.count("cb")
            if n > 1 or (n == 0 and not unset) or (unset and not has and n):
                R.bad("T01.notify", leaf, "%s:%s" % (f.file, f.line), "the owner is told %d times that the stream closed" % n, st.path())
        R.ok("T01.notify", leaf + " tells its owner")


# ------------------------------------------------------------------ handler traces
def handler_lab(P, env_extra=()):
    S = statuses(P)
    def lab(ex, st, fr, ev):
        k = ev[0]
        if k == "branch":
            t, tr = unneg(ev[1], ev[2])
            s = status_fact(P, t, tr)
            if s:
                for n, v in S.items():
                    if v == s[0]:
                        return ("is" + n, s[1])
            if contains(t, lambda x: len(x) == 3 and x[0] == "p" and x[1] == ex.root.fn.key and x[2] == 0) and not has_call(t, "operator==", "operator!="):
                if t[0] == "eq" and t[2] == NULL:
                    return ("error", not tr)
                return ("error", tr) if t[0] in ("call", "ld", "p", "F", "opq") else None
            for nm in ("split_and_process_message", "reset_tran_buf", "on_sending", "Next", "on_connected"):
                if is_call(t, nm):
                    return (nm, tr)
                if t[0] == "eq" and is_call(t[1], nm) and t[2] == NULL:
                    return (nm, not tr)
            return None
        if k == "call":
            s = short(ev[1])
            if s in ("on_received", "on_sent", "on_send_failed", "on_sending", "async_read_some", "async_write_some",
                     "split_and_process_message", "async_connect", "trigger_receive", "trigger_send"):
                return s
            if s == "close" and ev[2] == ("this",):
                return "close"
            if s in ("push_back", "push_front", "pop_front", "pop_back", "front", "back", "swap", "clear") and ev[2] is not None:
                for q in ("_pending_calls", "_swapped_calls"):
                    if locis(ev[2], q):
                        return (s, q)
                if ev[2][0] == "L" or ev[2][0] == "p":
                    return (s, "local")
            return None
        if k in ("cas", "xchg"):
            for tok in ("_send_token", "_receive_token"):
                if locis(ev[1], tok):
                    return ("tok" if ev[2] == ("c", 1) else "untok", tok)
        if k == "write" and ev[3] != "init":
            for q in ("_total_received_count", "_total_sent_count", "_sent_size", "_sending_message", "_receiving_data", "_receiving_size"):
                if locis(ev[1], q, ("this",)):
                    return ("w", q, ev[3])
        return None
    return lab


HANDLER_INT = any_of(calls_named("on_received", "on_sent", "on_send_failed", "on_sending", "async_read_some", "async_write_some",
                                 "close", "push_back", "push_front", "pop_front", "swap"),
                     mentions_field("_status", "_send_token", "_receive_token", "_total_received_count", "_total_sent_count"))


def io_rules(R, P):
    R.rule("T02.error", "an I/O completion that reports an error, or whose bytes cannot be accepted, closes the connection and processes nothing; a completion on a stream that is not connected does nothing")
    R.rule("T02.stop", "after closing the connection a handler starts no further I/O and delivers no message; messages are delivered only after looking at the closed state")
    for leaf, tmpl in SIDES:
        for hn in ("on_read_some", "on_write_some"):
            f = P.fn(tmpl + "::" + hn)
            inst = leaf + "::" + hn
            where = "%s:%s" % (f.file, f.line)
            outs, ex = traces(R, P, f, handler_lab(P), HANDLER_INT, "T02.error", inst, this_cls=leaf, boundary=BOUND,
                              ident=("T02",), maxlen=24, cap=2)
            seen_err = seen_fail = False
            for tr, st in outs:
                path = st.path()
                acts = [x for x in tr if x in ("on_received", "on_sent", "on_sending", "on_send_failed", "async_read_some", "async_write_some", "close")]
                if ("isCONNECTED", False) in tr[:1] or (tr and tr[0] == ("isCONNECTED", False)):
                    if acts or any(isinstance(x, tuple) and x[0] in ("w", "untok", "tok") for x in tr):
                        R.bad("T02.error", inst, where, "acts on a stream that is not connected: %s" % (acts or tr[1:3]), path)
                    continue
                i = next((j for j, x in enumerate(tr) if isinstance(x, tuple) and x[0] == "isCONNECTED"), None)
                first = next((j for j, x in enumerate(tr) if x in acts or (isinstance(x, tuple) and x[0] in ("w", "untok"))), None)
                if first is not None and (i is None or i > first):
                    R.bad("T02.error", inst, where, "does not look at the connection state before acting", path)
                err = [x for x in tr if isinstance(x, tuple) and x[0] == "error"]
                if not err:
                    R.bad("T02.error", inst, where, "the completion status is not examined on a path that %s" % (acts or "does nothing"), path)
                elif err[0][1]:
                    seen_err = True
                    if acts.count("close") != 1:
                        R.bad("T02.error", inst, where, "an I/O error does not close the connection", path)
                    bad = [x for x in acts if x in ("on_received", "on_sent", "on_sending", "async_read_some", "async_write_some")]
                    if bad or ("w", "_total_received_count", "++") in tr or "split_and_process_message" in tr:
                        R.bad("T02.error", inst, where, "data is processed although the operation failed: %s" % bad, path)
                    if hn == "on_write_some":
                        if acts.count("on_send_failed") != 1 or acts.index("on_send_failed") > acts.index("close") if "close" in acts else False:
                            R.bad("T02.error", inst, where, "a failed write does not report the message as failed exactly once", path)
                else:
                    if "on_send_failed" in acts and hn == "on_write_some" and ("on_sending", False) not in tr:
                        R.bad("T02.error", inst, where, "a successful write reports the message as failed", path)
                failed = ("split_and_process_message", False) in tr or ("reset_tran_buf", False) in tr
                if failed:
                    seen_fail = True
                    if "close" not in acts:
                        R.bad("T02.error", inst, where, "bytes that cannot be accepted do not close the connection", path)
                if "close" in acts:
                    rest = tr[tr.index("close") + 1:]
                    bad = [x for x in rest if x in ("on_received", "async_read_some", "async_write_some", "on_sent", "on_sending", "on_send_failed")]
                    if bad:
                        R.bad("T02.stop", inst, where, "%s after the connection was closed" % bad[0], path)
                last = None
                for x in tr:
                    if isinstance(x, tuple) and x[0] == "isCLOSED":
                        last = x[1]
                    if x == "on_received":
                        if last is not False:
                            R.bad("T02.stop", inst, where, "a message is delivered without checking that the stream is still open", path)
                        last = None
                # delivery and re-arming: receive restarted before delivering
                if hn == "on_read_some" and err and not err[0][1] and not failed and "close" not in acts:
                    if ("untok", "_receive_token") not in tr:
                        R.bad("T02.error", inst, where, "the receive token is not returned after a successful read", path)
            R.ok("T02.error", inst, "%d paths" % len(outs))
            if not seen_err or (hn == "on_read_some" and not seen_fail):
                raise Broken("%s: no error path recognised" % inst)
    # connect handlers
    f = P.fn("RpcByteStream::on_connect")
    for leaf, tmpl in SIDES:
        outs, ex = traces(R, P, f, handler_lab(P), HANDLER_INT, "T02.error", f.name, this_cls=leaf, ident=("T02c",),
                          boundary=BOUND + [c + t for c in ("RpcByteStream", tmpl) for t in ("::trigger_receive", "::trigger_send")])
        for tr, st in outs:
            err = [x for x in tr if isinstance(x, tuple) and x[0] == "error"]
            if tr and tr[0] == ("isCONNECTING", False):
                if any(x in tr for x in ("close", "trigger_receive", "trigger_send")):
                    R.bad("T02.error", f.name, "%s:%s" % (f.file, f.line), "a connect completion acts on a stream that is no longer connecting", st.path())
                continue
            if not err:
                R.bad("T02.error", f.name, "%s:%s" % (f.file, f.line), "the connect status is not examined", st.path())
            elif err[0][1] or ("on_connected", False) in tr:
                if "close" not in tr:
                    R.bad("T02.error", f.name, "%s:%s" % (f.file, f.line), "a failed connect does not close the stream", st.path())
                if "trigger_receive" in tr or "trigger_send" in tr:
                    R.bad("T02.error", f.name, "%s:%s" % (f.file, f.line), "I/O is started although the connect failed", st.path())
            elif "close" not in tr and ("trigger_receive" not in tr or "trigger_send" not in tr):
                # a lost race against close() is fine
                if not any(isinstance(x, tuple) and x[0] == "isCONNECTING" for x in tr[1:]):
                    pass
        R.ok("T02.error", "RpcByteStream::on_connect on " + leaf, "%d paths" % len(outs))


def connect_rules(R, P):
    R.rule("T02.connect", "a connection that is established starts receiving and sending; the connect timer is armed when a limit is configured and closes exactly a connection that is still being established")
    S = statuses(P)
    trig = [c + x for c in ("RpcByteStream", "RpcMessageStream", "RpcServerMessageStream") for x in ("::trigger_receive", "::trigger_send")]
    for nm in ("on_connect", "set_socket_connected"):
        f = P.fn("RpcByteStream::" + nm)
        for leaf, tmpl in SIDES:
            # state: (cas term, won, receive, send, hook result)
            def step(ex, st, fr, ev, s):
                cas, won, rcv, snd, hook = s
                k = ev[0]
                if k == "cas" and locis(ev[1], "_status") and ev[2] == ("c", S["CONNECTED"]):
                    if hook is not True:
                        ex.report(st, fr, ev[4], "the connection is opened before its buffers are ready")
                    return (ev[-1], won, rcv, snd, hook)
                if k == "branch":
                    t, tr = unneg(ev[1], ev[2])
                    if cas and t[0] == "eq" and t[1] == cas and t[2][0] == "c":
                        return (None, (t[2][1] != S["CONNECTED"]) == tr, rcv, snd, hook)
                    t, tr = test_of(ev)
                    if is_call(t, "on_connected"):
                        return (cas, won, rcv, snd, tr)
                if k == "call":
                    x = short(ev[1])
                    if x in ("trigger_receive", "trigger_send"):
                        if won is not True:
                            ex.report(st, fr, ev[4], "I/O is started on a connection that is not established")
                        return (cas, won, rcv or x == "trigger_receive", snd or x == "trigger_send", hook)
                return s
            def fin(ex, st, fr, s):
                if s[1] is True and not (s[2] and s[3]):
                    ex.report(st, fr, None, "an established connection does not start %s" % ("sending" if s[2] else "receiving"))
            outs, _ = automaton(R, P, f, "T02.connect", "%s on %s" % (f.name, leaf), (None, None, False, False, None), step,
                                any_of(mentions_field("_status"), calls_named("trigger_receive", "trigger_send")), fin,
                                this_cls=leaf, boundary=BOUND + trig + [c + "::on_connected" for c in (leaf, tmpl, "RpcByteStream")])
            if not any(s.mon[1] is True for s in outs):
                R.bad("T02.connect", f.name, "%s:%s" % (f.file, f.line), "no path establishes the connection by a compare-and-swap")
    f = P.fn("RpcByteStream::on_connect_timeout")
    def step(ex, st, fr, ev, s):
        connecting, aborted, closed = s
        if ev[0] == "branch":
            x = status_fact(P, ev[1], ev[2])
            if x:
                v, is_ = x
                if v == S["CONNECTING"]:
                    return (is_, aborted, closed)
                return s
            t, tr = unneg(ev[1], ev[2])
            if contains(t, lambda y: y == ("p", f.key, 0)):
                # error compared with operation_aborted (a comparison with success leaves it open)
                if has_aborted(t):
                    return (connecting, tr, closed)
        if ev[0] == "call" and short(ev[1]) == "close" and ev[2] == ("this",):
            if connecting is not True:
                ex.report(st, fr, ev[4], "the connect timer closes a connection that is not being established")
            if aborted is not False:
                ex.report(st, fr, ev[4], "a cancelled connect timer closes the connection")
            return (connecting, aborted, True)
        return s
    def fin(ex, st, fr, s):
        if not s[2] and s[0] is not False and s[1] is not True:
            ex.report(st, fr, None, "an expired connect timer does not close the connection")
    automaton(R, P, f, "T02.connect", f.name, (None, None, False), step, any_of(mentions_field("_status"), calls_named("close")), fin, boundary=BOUND)
    f = P.fn("RpcByteStream::async_connect")
    def step(ex, st, fr, ev, s):
        cas, won, conn, limit, armed = s
        k = ev[0]
        if k == "cas" and locis(ev[1], "_status"):
            return (ev[-1], won, conn, limit, armed)
        if k == "branch":
            t, tr = unneg(ev[1], ev[2])
            if cas and t[0] == "eq" and t[1] == cas and t[2][0] == "c":
                return (None, (t[2][1] != S["CONNECTING"]) == tr, conn, limit, armed)
            if t[0] == "lt" and has_ld(t, "_connect_timeout"):
                pos = is_ld(unwrap(t[1]), "_connect_timeout")
                if (pos and t[2] == ("c", 1)) or (not pos and t[1] == ("c", 0)):
                    return (cas, won, conn, (not tr) if pos else tr, armed)
        if k == "call":
            x = short(ev[1])
            if x == "async_connect":
                return (cas, won, True, limit, armed)
            if x == "async_wait":
                return (cas, won, conn, limit, True)
        return s
    def fin(ex, st, fr, s):
        cas, won, conn, limit, armed = s
        if won is True and not conn:
            ex.report(st, fr, None, "a connection in state CONNECTING is not being connected")
        if won is True and limit is not False and not armed:
            ex.report(st, fr, None, "the connect timer is not armed although a limit is configured")
    automaton(R, P, f, "T02.connect", f.name, (None, None, False, None, False), step,
              any_of(mentions_field("_status", "_connect_timeout"), calls_named("async_connect", "async_wait")), fin,
              boundary=[b for b in BOUND if b != "RpcByteStream::async_connect"])


def has_aborted(t):
    # boost::asio::error::operation_aborted is ECANCELED
    return "aborted" in show(t) or contains(t, lambda y: y == ("c", 125))


# ------------------------------------------------------------------ T04
class Message(Monitor):
    """what happens to the message currently taken from the queue"""
    boundary = frozenset(BOUND)

    def __init__(self, P, inflight):
        self.P = P
        self.inflight = inflight
        self.S = statuses(P)

    def ident(self):
        return ("message",)

    def interesting(self, f, nid, n):
        if n["k"] == "mem" and any(fieldis(n["fld"], x) for x in ("_pending_calls", "_swapped_calls", "_sending_message")):
            return True
        return n["k"] == "mcall" and short(n.get("n")) in ("async_write_some", "on_sent", "on_send_failed", "on_sending", "close")

    # state: (held, verdict of on_sending, empty-observed, closed/not connected, full, next)
    def init(self, ex):
        return ("inflight" if self.inflight else "idle", None, None, False, None, None)

    def event(self, ex, st, fr, ev):
        held, ok, emp, dead, full, nxt = st.mon
        k = ev[0]
        R = lambda nid, msg: ex.report(st, fr, nid, msg)
        if k == "branch":
            t, tr = unneg(ev[1], ev[2])
            s = status_fact(self.P, t, tr)
            if s:
                if s[0] == self.S["CONNECTED"]:
                    dead = not s[1]
                elif s[0] == self.S["CLOSED"]:
                    dead = s[1]
                return (held, ok, emp, dead, full, nxt)
            neg = False
            if t[0] == "eq" and t[2] == NULL:
                t, tr = t[1], not tr
            if is_call(t, "empty") and t[2] is not None and locis(t[2], "_swapped_calls"):
                return (held, ok, tr, dead, full, nxt)
            if is_call(t, "on_sending"):
                return (held, tr, emp, dead, full, nxt)
            if is_call(t, "Next"):
                return (held, ok, emp, dead, full, tr)
            if t[0] == "eq" and contains(t, lambda x: x[0] == "p" and len(x) == 3 and x[2] == 1) and has_field(t, "_sending_size"):
                return (held, ok, emp, dead, tr, nxt)
            return st.mon
        if k == "call":
            s = short(ev[1])
            q = None
            if ev[2] is not None:
                for x in ("_pending_calls", "_swapped_calls"):
                    if locis(ev[2], x):
                        q = x
            if q and s in ("pop_front", "pop_back", "erase", "clear", "resize"):
                if s != "pop_front" or q != "_swapped_calls":
                    R(ev[4], "%s() on %s drops or reorders queued messages" % (s, q))
                    return st.mon
                if emp is not False:
                    R(ev[4], "a message is taken from a queue that may be empty")
                if held not in ("idle", "queued", "failed"):
                    R(ev[4], "another message is taken although the current one is not settled")
                return ("got", None, None, dead, full, None)
            if q and s == "swap":
                if q == "_swapped_calls" or q == "_pending_calls":
                    if emp is not True:
                        R(ev[4], "the queues are swapped although messages are still waiting: order or messages are lost")
                    if not any(fieldis(l[0][2], "_pending_lock") for l in st.locks if l[0][0] == "F"):
                        R(ev[4], "the queues are swapped without the queue lock")
                return (held, ok, None, dead, full, nxt)
            if q and s in ("push_front", "push_back", "insert", "emplace_back", "emplace_front"):
                if q == "_pending_calls":
                    if s != "push_back" and s != "emplace_back":
                        R(ev[4], "a new message is not appended at the end of the queue")
                    if not any(fieldis(l[0][2], "_pending_lock") for l in st.locks if l[0][0] == "F"):
                        R(ev[4], "the queue is extended without the queue lock")
                    if held in ("got", "inflight"):
                        R(ev[4], "a message already taken is put behind newer ones")
                    if held in ("failed", "queued"):
                        R(ev[4], "a message is queued after it was already settled")
                    return ("queued", ok, emp, dead, full, nxt)
                if s not in ("push_front", "emplace_front"):
                    R(ev[4], "a message is put back behind newer ones")
                if held != "got":
                    R(ev[4], "a message is put back that is not the one just taken")
                return ("idle", None, None, dead, full, nxt)
            if ev[2] == ("this",):
                if s == "on_send_failed":
                    if held == "inflight" and full is not None:
                        R(ev[4], "a successfully written message is reported as failed")
                    if held in ("queued", "failed"):
                        R(ev[4], "the message is reported as failed although it is %s" % ("queued for sending" if held == "queued" else "already reported"))
                    if held == "idle" and fr.fn.cls and not self.entering(ex):
                        R(ev[4], "a failure is reported without a message")
                    return ("failed" if held == "idle" else "settled", ok, emp, dead, full, nxt)
                if s == "on_sent":
                    if held != "inflight" or full is not True or nxt is not False:
                        R(ev[4], "a message is reported as sent although it was not written completely")
                    return ("settled", ok, emp, dead, full, nxt)
                if s == "on_sending":
                    if held != "got":
                        R(ev[4], "send permission is asked for a message that was not taken from the queue")
                    return (held, None, emp, dead, full, nxt)
                if s == "async_write_some":
                    if held == "got":
                        if ok is not True:
                            R(ev[4], "a message is written although it was not allowed to be sent")
                    elif held != "inflight":
                        R(ev[4], "a write is started without a message")
                    elif full is None or (full and nxt is not True):
                        R(ev[4], "the message is written again although it was written completely")
                    return ("writing", ok, emp, dead, full, nxt)
                if s == "close":
                    return (held, ok, emp, True, full, nxt)
            return st.mon
        if k == "write" and locis(ev[1], "_sending_message", ("this",)) and ev[3] in ("reset", "="):
            if held in ("got", "inflight"):
                R(ev[4], "the current message is dropped without being reported as sent or failed")
            if held == "writing":
                R(ev[4], "the message being written is dropped")
            if held == "settled":
                return ("idle", None, emp, dead, full, nxt)
        return st.mon

    def entering(self, ex):
        # async_send_message reports the message it was given
        return short(ex.root.fn.name) == "async_send_message"

    def at_exit(self, ex, st, fr):
        held, ok, emp, dead, full, nxt = st.mon
        if held in ("got", "settled") :
            ex.report(st, fr, None, "the entry returns with a message that is neither queued, being written nor reported" if held == "got"
                      else "a settled message stays behind as the current one: it would be sent again")
        if held == "inflight" and not dead:
            ex.report(st, fr, None, "the entry returns with a message that is neither being written nor reported")
        if self.entering(ex) and held == "idle" and False:
            pass


def message_rules(R, P):
    R.rule("T04.settle", "every message taken from the send queue is, on every path, written, put back at the front, or reported exactly once as sent or failed; it is reported as sent only after its last byte was accepted")
    R.rule("T04.queue", "a message handed to the stream is either appended to the queue, followed by an attempt to send, or reported as failed - exactly one of them")
    R.rule("T04.bytes", "after a partial transfer the next operation starts exactly behind the bytes transferred and is shortened by the same amount")
    n = 0
    for leaf, tmpl in SIDES:
        for nm, inflight in (("on_write_some", True), ("trigger_send", False), ("async_send_message", False), ("on_read_some", False)):
            f = P.fn(tmpl + "::" + nm)
            mon = Message(P, inflight)
            ex = Explorer(P, mon, leaf)
            outs = ex.run(f)
            R.absorb(ex, "T04.settle", "%s::%s" % (leaf, nm))
            n += 1
        # async_send_message: queued xor failed, and an attempt to start sending
        f = P.fn(tmpl + "::async_send_message")
        where = "%s:%s" % (f.file, f.line)
        def lab(ex, st, fr, ev):
            if ev[0] == "call":
                s = short(ev[1])
                if s == "on_send_failed" and fr.depth == 0:
                    return "failed"
                if s in ("push_back", "emplace_back") and ev[2] is not None and locis(ev[2], "_pending_calls"):
                    return "queued"
            if ev[0] == "mem" and locis(ev[1], "_send_token"):
                return "try"
            if ev[0] == "branch":
                s = status_fact(P, *unneg(ev[1], ev[2]))
                if s and fr.depth <= 1 and s[0] == statuses(P)["CLOSED"]:
                    return ("closed", s[1])
            return None
        outs, ex = traces(R, P, f, lab, mentions_field("_pending_calls", "_send_token"), "T04.queue", leaf, this_cls=leaf,
                          boundary=BOUND, reads=True, ident=("T04q",), cap=1)
        for tr, st in outs:
            own = [x for x in tr if x in ("failed", "queued")]
            if len(own) != 1:
                R.bad("T04.queue", leaf, where, "a message handed to the stream is settled %d times (%s)" % (len(own), own or "dropped"), st.path())
            elif own[0] == "queued" and ("try" not in tr or tr.index("try") < tr.index("queued")):
                R.bad("T04.queue", leaf, where, "a queued message is not followed by an attempt to send it", st.path())
            if ("closed", True) in tr and "failed" not in own:
                R.bad("T04.queue", leaf, where, "a message for a closed stream is not reported as failed", st.path())
            if own == ["failed"] and ("closed", True) not in tr:
                R.bad("T04.queue", leaf, where, "a message is refused although the stream is not known to be closed", st.path())
        R.ok("T04.queue", leaf, "%d paths" % len(outs))
        n += byte_rules(R, P, leaf, tmpl)
    if n < 12:
        raise Broken("message rules matched only %d entries" % n)


def byte_rules(R, P, leaf, tmpl):
    S = statuses(P)
    n = 0
    for hn, dfld, sfld, io in (("on_write_some", "_sending_data", "_sending_size", "async_write_some"),
                               ("on_read_some", "_receiving_data", "_receiving_size", "async_read_some")):
        f = P.fn(tmpl + "::" + hn)
        where = "%s:%s" % (f.file, f.line)
        bytes_ = ("p", f.key, 1)
        def isbytes(t):
            while t[0] == "trunc":
                t = t[1]
            return t == bytes_
        def lab(ex, st, fr, ev):
            k = ev[0]
            if k == "write" and ev[3] != "init":
                for nm, fld, op in (("data", dfld, "+"), ("size", sfld, "-")):
                    if locis(ev[1], fld, ("this",)):
                        v = ev[2]
                        if v[0] == "op" and v[1] == op and ((isbytes(v[3]) and has_field(v[2], fld)) or (op == "+" and isbytes(v[2]) and has_field(v[3], fld))):
                            return ("adv", nm)
                        return ("set", nm, "zero" if v == NULL else ("call" if contains(v, lambda x: x[0] == "call") else "other"))
                if locis(ev[1], "_sent_size", ("this",)):
                    v = ev[2]
                    return ("sent", "adv" if v[0] == "op" and v[1] == "+" and (isbytes(v[3]) or isbytes(v[2])) else "zero" if v == NULL else "other")
            if k == "branch":
                t, tr = unneg(ev[1], ev[2])
                if t[0] == "eq" and contains(t, lambda x: x == bytes_) and has_field(t, sfld):
                    return ("full", tr)
                if t[0] == "eq" and t[2] == NULL and is_call(t[1], "Next"):
                    return ("next", not tr)
                if is_call(t, "Next"):
                    return ("next", tr)
            if k == "call":
                s = short(ev[1])
                if s == io and ev[2] == ("this",):
                    a = ev[3]
                    cd = st.store.get(("F", ("this",), "%s::%s" % (tmpl, dfld)))
                    cs = st.store.get(("F", ("this",), "%s::%s" % (tmpl, sfld)))
                    okd = is_ld(a[0], dfld) or (cd is not None and a[0] == cd)
                    oks = is_ld(a[1], sfld) or (cs is not None and unwrap(a[1]) == unwrap(cs))
                    return ("io", okd and oks)
                if s == "Next" and len(ev[3]) == 2:
                    a = ev[3]
                    return ("Next", locis(a[0], dfld) and locis(a[1], sfld))
                if s in ("on_sent", "split_and_process_message", "on_sending"):
                    return s
                if s == "split_and_process_message":
                    return s
            return None
        def unwrap(t):
            while t and t[0] == "trunc":
                t = t[1]
            return t
        pred = any_of(mentions_field(dfld, sfld), calls_named(io))
        outs, ex = traces(R, P, f, lab, pred, "T04.bytes", "%s::%s" % (leaf, hn), this_cls=leaf, boundary=BOUND, ident=("T04b", hn), cap=2, maxlen=24)
        inst = "%s::%s" % (leaf, hn)
        seen = 0
        for tr, st in outs:
            # only the part that concerns this completion
            i = next((j for j, x in enumerate(tr) if isinstance(x, tuple) and x[0] == "io"), None)
            if i is None:
                continue
            if tr[i][1] is False:
                R.bad("T04.bytes", inst, where, "%s() is started with something else than the current position and remaining size" % io, st.path())
            head = tr[:i]
            if hn == "on_write_some":
                if "on_sent" in head:
                    continue           # next message
                if ("sent", "adv") not in head:
                    R.bad("T04.bytes", inst, where, "the bytes transferred are not added to the amount sent", st.path())
                if ("full", False) in head:
                    seen += 1
                    if head.count(("adv", "data")) != 1 or head.count(("adv", "size")) != 1 or any(x[0] == "set" for x in head if isinstance(x, tuple)):
                        R.bad("T04.bytes", inst, where, "a partial write is not continued exactly behind the bytes already written", st.path())
                elif ("full", True) in head:
                    seen += 1
                    if ("next", True) not in head or ("Next", True) not in head:
                        R.bad("T04.bytes", inst, where, "after a completely written block the next block of the message is not fetched", st.path())
                    if ("adv", "data") in head or ("adv", "size") in head:
                        R.bad("T04.bytes", inst, where, "position moved although a new block was fetched", st.path())
                else:
                    R.bad("T04.bytes", inst, where, "a write is continued without comparing the bytes transferred with the bytes requested", st.path())
            else:
                seen += 1
                if head.count(("adv", "data")) != 1 or head.count(("adv", "size")) != 1:
                    R.bad("T04.bytes", inst, where, "the read position is not moved exactly behind the bytes received", st.path())
                elif any(isinstance(x, tuple) and x[0] == "set" for x in head[:max(head.index(("adv", "data")), head.index(("adv", "size")))]):
                    R.bad("T04.bytes", inst, where, "the read buffer is replaced before the received bytes are accounted for", st.path())
        R.decide("T04.bytes", inst, seen > 0, where, "no continued transfer found")
        n += 1
    return n


# ------------------------------------------------------------------ T07
def stat_rules(R, P):
    R.rule("T07.pair", "every queue operation changes message count, data size and buffer size together, by the amounts of the message concerned, in the same section of its lock, and moving the queue moves all three counters")
    n = 0
    for leaf, tmpl in SIDES:
        fns = [f for f in P.fns.values() if f.cls == tmpl and any(
            nd["k"] == "mcall" and short(nd.get("n")) in ("push_back", "push_front", "pop_front", "swap") and
            any(c >= 0 and f.nodes[c]["k"] == "mem" and (fieldis(f.nodes[c]["fld"], "_pending_calls") or fieldis(f.nodes[c]["fld"], "_swapped_calls"))
                for c in [nd.get("o", -1)]) for nd in f.nodes)]
        for f in fns:
            where = "%s:%s" % (f.file, f.line)
            SUF = (("_message_count", None), ("_data_size", "TotalCount"), ("_buffer_size", "TotalBlockSize"))
            def lab(ex, st, fr, ev):
                k = ev[0]
                if k in ("lock", "unlock"):
                    return (k, "", "")
                if k == "call" and ev[2] is not None:
                    for q in ("_pending_calls", "_swapped_calls"):
                        if locis(ev[2], q) and short(ev[1]) in ("push_back", "push_front", "pop_front", "swap"):
                            return ("q", short(ev[1]), q)
                if k == "write" and ev[3] != "init" and ev[1] is not None:
                    for pre in ("_pending", "_swapped"):
                        for suf, call in SUF:
                            if locis(ev[1], pre + suf, ("this",)):
                                v = ev[2]
                                if v == NULL:
                                    return ("zero", pre, suf)
                                if v[0] == "ld" and has_field(v, "_pending" + suf):
                                    return ("move", pre, suf)
                                if v[0] == "op" and has_field(v, pre + suf) and (v[3] == ("c", 1) if call is None else has_call(v, call)):
                                    return (v[1], pre, suf)
                                if v[0] == "op" and v[1] in ("+", "-") and call is None and v[3] == ("c", 1):
                                    return (v[1], pre, suf)
                                if v[0] == "op" and call and has_call(v, call):
                                    return (v[1], pre, suf)
                                return ("?", pre, suf)
                return None
            outs, ex = traces(R, P, f, lab, lambda *a: False, "T07.pair", f.name, this_cls=leaf,
                              boundary=BOUND + [x + y for x in ("ReadBuffer", "WriteBuffer") for y in ("::TotalCount", "::TotalBlockSize")], ident=("T07",),
                              inline=lambda *a: None)
            for tr, st in outs:
                c = {}
                depth, section, used = 0, 0, set()
                for x in tr:
                    c[x] = c.get(x, 0) + 1
                    if x[0] == "lock":
                        depth, section = depth + 1, section + 1
                    elif x[0] == "unlock":
                        depth -= 1
                    elif x[0] == "q" and (x[1] == "swap" or x[2] == "_pending_calls") or x[1] == "_pending" or x[0] == "move":
                        used.add(section if depth else None)
                        if not depth:
                            R.bad("T07.pair", f.name, where, "the waiting messages or their counters change outside the lock: another thread sees a queue its counters do not describe", st.path())
                if len(used) > 1 and None not in used:
                    R.bad("T07.pair", f.name, where, "the lock is released between a change of the queue and that of its counters", st.path())
                for pre, q in (("_pending", "_pending_calls"), ("_swapped", "_swapped_calls")):
                    push = sum(v for k, v in c.items() if k[0] == "q" and k[1].startswith("push") and k[2] == q)
                    pop = sum(v for k, v in c.items() if k[0] == "q" and k[1] == "pop_front" and k[2] == q)
                    for suf, call in SUF:
                        plus, minus = c.get(("+", pre, suf), 0), c.get(("-", pre, suf), 0)
                        if plus != push or minus != pop:
                            R.bad("T07.pair", f.name, where, "%s%s changes by +%d/-%d messages where the queue changes by +%d/-%d" % (pre, suf, plus, minus, push, pop), st.path())
                        if c.get(("?", pre, suf)):
                            R.bad("T07.pair", f.name, where, "%s%s is set to something unrelated to the message" % (pre, suf), st.path())
                swaps = sum(v for k, v in c.items() if k[0] == "q" and k[1] == "swap")
                for suf, call in SUF:
                    if c.get(("move", "_swapped", suf), 0) != (1 if swaps else 0) or c.get(("zero", "_pending", suf), 0) != (1 if swaps else 0):
                        R.bad("T07.pair", f.name, where, "moving the queue does not move %s" % suf, st.path())
                    elif swaps and tr.index(("zero", "_pending", suf)) < tr.index(("move", "_swapped", suf)):
                        R.bad("T07.pair", f.name, where, "%s is cleared before it is moved" % suf, st.path())
            R.ok("T07.pair", f.name, "%d paths" % len(outs))
            n += 1
        # the reported values are the sums of both parts
        for suf in ("_message_count", "_data_size", "_buffer_size"):
            f = P.fn(tmpl + "::pending" + suf, must=suf == "_buffer_size")
            if f is None:
                continue      # member template never instantiated
            def lab(ex, st, fr, ev):
                return ("ret", ev[1]) if ev[0] == "ret" and ev[3] == 0 else None
            outs, ex = traces(R, P, f, lab, lambda *a: False, "T07.pair", f.name, this_cls=leaf)
            for tr, st in outs:
                v = tr[-1][1] if tr else NULL
                ok = v[0] == "op" and v[1] == "+" and has_ld(v, "_pending" + suf) and has_ld(v, "_swapped" + suf)
                R.decide("T07.pair", f.name, ok, "%s:%s" % (f.file, f.line), "the reported value is not the sum of queued and swapped messages", st.path())
            n += 1
    if n < 9:
        raise Broken("statistics rules matched only %d functions" % n)
