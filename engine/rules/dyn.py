"""Channels to several servers (DynamicRpcChannelImpl)."""
from lib import *
from rules.calls import where, const, at, loop_test, bound_target, posters
from rules.server import p
from rules.life import fld_of, held

D, SC, SIMPLE = "DynamicRpcChannelImpl", "DynamicRpcChannelImpl::ServerContext", "SimpleRpcChannelImpl"
MAPS = ("_live_map", "_unlive_map")
UMAX = (4294967295, 18446744073709551615, 9223372036854775807, -1)


def dyn_rules(R, P):
    R.rule("D01.call", "a call over several servers is made on at most one of them and completes once: without a server it fails and its callback still runs")
    R.rule("D01.choose", "the server chosen is a live one with the fewest calls outstanding, the longest unused of these; others are considered when none is live; a full channel says so")
    R.rule("D01.move", "a server changes between live and not live in one locked section, and is never lost or in both")
    R.rule("D01.address", "the addresses added are exactly those servers are kept for, and a removed server is taken from whichever side it is on")
    R.rule("D01.stop", "stopping ends the detection before it forgets the servers, and stops the channel of every server")
    R.rule("D01.detect", "only servers that are neither removed nor live are probed, each with messages of its own that are freed once; a server becomes live again only when its probe succeeded")
    R.rule("D01.init", "the channel to a server is set up once, under its lock, and only used when that succeeded")
    calls(R, P)
    choose(R, P)
    moves(R, P)
    adds(R, P)
    removes(R, P)
    stops(R, P)
    detects(R, P)
    inits(R, P)
    handlers(R, P)


def box_of(t):
    """which of the containers of the channel a term denotes"""
    n = fld_of(t, D)
    return n if n in MAPS or n == "_added_set" else None


def found(t):
    """(container, key) of a find in one of the containers"""
    for x in subterms(t):
        if len(x) >= 4 and x[0] == "call" and short(x[1]) == "find" and box_of(x[2]):
            return box_of(x[2]), x[3][0]
    return None


def same(a, b):
    return a == b


# ------------------------------------------------------------------ one call
def calls(R, P):
    f = P.fn(D + "::CallMethod")
    post = posters(P)
    STOP = [D + "::ChooseServer", D + "::CallDone", D + "::MoveToUnlive", SIMPLE + "::CallMethod", SC + "::InitChannel", "RpcControllerImpl::SetFailed", "RpcClientImpl::PostCallback"] + post

    # state: counted, phase ("none", "chosen", "ready", "broken", "failed", "called", "done"), rounds begun, stepped, tested, null done, callback bound, delivered, dead
    def step(ex, st, fr, ev, s):
        if s == "dead":
            return s
        cnt, ph, rounds, stepped, tested, null, bound, fin, code = s
        k = ev[0]
        if k == "rmw" and has_field(ev[1], "_wait_count"):
            if const(ev[2]) != 1 or rounds:
                ex.report(st, fr, ev[4] if len(ev) > 4 else -1, "the call is not counted as waiting before a server is chosen for it")
            return (min(cnt + 1, 2), ph, rounds, stepped, tested, null, bound, fin, code)
        if k == "advance" or (k == "write" and ev[3] in ("++", "+=")):
            return (cnt, ph, rounds, True, tested, null, bound, fin, code)
        if k == "write" and ev[1][0] == "L" and contains(ev[2], lambda x: x[0] == "op" and x[1] in ("+", "-")) and contains(ev[2], lambda x: x[0] == "upd"):
            stepped = True
            return (cnt, ph, rounds, True, tested, null, bound, fin, code)
        if k == "branch":
            t, tr = test_of(ev)
            if t == p(f, 4):
                return (cnt, ph, rounds, stepped, tested, not tr, bound, fin, code)
            if is_call(t, "ChooseServer"):
                return (cnt, "none" if tr else "chosen", rounds, stepped, tested, null, bound, fin, code)
            if is_call(t, "InitChannel"):
                return (cnt, "ready" if tr else "broken", rounds, stepped, tested, null, bound, fin, code)
            if t[0] == "clob" and ph == "ready" and not tr:
                return "dead"        # a server whose channel was just initialised is not null
            if t[0] == "clob" and ph in ("none", "failed") and tr:
                return "dead"        # no server was chosen: ChooseServer left none
            u, ur = unneg(ev[1], ev[2])
            if u[0] in ("lt", "eq") and contains(u, lambda x: x[0] == "upd") and not has_call(u, "ChooseServer"):
                below = ur if u[0] == "lt" and contains(u[1], lambda x: x[0] == "upd") else not ur
                return (cnt, ph, rounds, stepped, tested or below, null, bound, fin, code)
            return s
        if k != "call":
            if k == "ret" and ev[3] == 0 or k == "ret" and fr.depth == 0 and False:
                pass
            return s
        nid, n = ev[4], short(ev[1])
        if ev[1] == D + "::ChooseServer":
            if not cnt:
                ex.report(st, fr, nid, "a server is chosen before the call counts as waiting")
            if ph == "chosen" or ph == "ready":
                ex.report(st, fr, nid, "another server is chosen although one was")
            if ph == "broken":
                ex.report(st, fr, nid, "another server is chosen before the one that cannot be reached is taken out of the live ones")
            if rounds and not stepped:
                ex.report(st, fr, nid, "the call may try for a server for ever: attempts are not counted")
            if rounds >= 2 and not tested:
                ex.report(st, fr, nid, "the call may try for a server for ever: attempts are not limited")
            return (cnt, "asked", min(rounds + 1, 3), False, False, null, bound, fin, code)
        if ev[1] == SC + "::InitChannel":
            if ph != "chosen":
                ex.report(st, fr, nid, "the channel of a server is set up that was not chosen")
            return s
        if ev[1] == D + "::MoveToUnlive":
            if ph != "broken":
                ex.report(st, fr, nid, "a server is taken out of the live ones that did not fail")
            return (cnt, "failed", rounds, stepped, tested, null, bound, fin, code)
        if ev[1] == "RpcControllerImpl::SetFailed":
            if ph in ("ready", "called"):
                ex.report(st, fr, nid, "a call is failed although its server is there")
            if const(ev[3][0]) == 0:
                ex.report(st, fr, nid, "a call without a server fails with the code of success")
            return (cnt, ph, rounds, stepped, tested, null, bound, fin, True)
        if ev[1] == SIMPLE + "::CallMethod":
            if ph != "ready":
                ex.report(st, fr, nid, "the call is made on a server that was not chosen or is not set up" if ph != "called" else "the call is made twice")
            a = [unwrap(x) for x in ev[3]]
            if a[:4] != [p(f, i) for i in range(4)]:
                ex.report(st, fr, nid, "the call is made with other arguments")
            if null is not True and bound is not True:
                ex.report(st, fr, nid, "the call is made without the callback that completes it")
            if null is True and a[4] != NULL and a[4] != p(f, 4):
                ex.report(st, fr, nid, "a blocking call is made with a callback")
            if bound is True:
                if not any(x.endswith("::AsyncCallback") for x in bound_target(a[4])) or not contains(a[4], lambda x: x == p(f, 4)):
                    ex.report(st, fr, nid, "the call is made with another callback than the one that completes it")
            return (cnt, "called", rounds, stepped, tested, null, bound, fin, code)
        if n in ("NewClosure", "NewExtClosure"):
            return (cnt, ph, rounds, stepped, tested, null, True, fin, code)
        if ev[1] == D + "::CallDone":
            if ph == "called":
                if null is not True:
                    ex.report(st, fr, nid, "a call with a callback is completed while it runs")
                if unwrap(ev[3][0]) == NULL:
                    ex.report(st, fr, nid, "a call is completed without its server")
            elif not code:
                ex.report(st, fr, nid, "a call without a server completes without failing")
            elif unwrap(ev[3][0]) != NULL and not contains(ev[3][0], lambda x: x[0] == "clob"):
                ex.report(st, fr, nid, "a call without a server is charged to a server")
            if "done" in fin:
                ex.report(st, fr, nid, "a call is completed twice")
            return (cnt, ph, rounds, stepped, tested, null, bound, fin | {"done"}, code)
        if ev[1] in post or ev[1] == "RpcClientImpl::PostCallback":
            if unwrap(ev[3][0]) != p(f, 4):
                ex.report(st, fr, nid, "another callback is run")
            if null is not False:
                ex.report(st, fr, nid, "a callback is run that may not exist")
            if ph == "called":
                ex.report(st, fr, nid, "the callback of a call is run while the call goes on")
            if "done" not in fin:
                ex.report(st, fr, nid, "the callback of a call is run before the call is complete")
            if "post" in fin:
                ex.report(st, fr, nid, "the callback of a call is run twice")
            return (cnt, ph, rounds, stepped, tested, null, bound, fin | {"post"}, code)
        if n == "Run" and unwrap(ev[2]) == p(f, 4):
            ex.report(st, fr, nid, "the callback of a call is run in the thread that makes it")
        return s

    def end(ex, st, fr, s):
        if s == "dead":
            return
        cnt, ph, rounds, stepped, tested, null, bound, fin, code = s
        if cnt != 1:
            ex.report(st, fr, -1, "a call is counted as waiting %d times" % cnt)
        if ph == "called":
            if null is True and "done" not in fin:
                ex.report(st, fr, -1, "a blocking call is not taken off the calls that wait")
            return
        if "done" not in fin:
            ex.report(st, fr, -1, "a call without a server does not complete")
        if null is None:
            ex.report(st, fr, -1, "whether a call without a server has a callback is not asked")
        if null is False and "post" not in fin:
            ex.report(st, fr, -1, "the callback of a call without a server never runs")
    automaton(R, P, f, "D01.call", f.name, (0, "none", 0, False, False, None, None, frozenset(), False), step,
              any_of(calls_named("ChooseServer", "InitChannel", "CallMethod", "CallDone", "PostCallback", "MoveToUnlive", "SetFailed", "Run"), mentions_wait), end, this_cls=D, boundary=STOP)
    # its end
    f = P.fn(D + "::AsyncCallback")

    def astep(ex, st, fr, ev, s):
        if ev[0] != "call":
            return s
        if ev[1] == D + "::CallDone":
            if [unwrap(x) for x in ev[3]] != [at(f, 0), at(f, 1)] and not (contains(ev[3][0], lambda x: x == p(f, 0)) and contains(ev[3][1], lambda x: x == p(f, 1))):
                ex.report(st, fr, ev[4], "another call is completed")
            if s[1]:
                ex.report(st, fr, ev[4], "the callback runs before the call is complete")
            return (min(s[0] + 1, 2), s[1])
        if short(ev[1]) == "Run":
            if unwrap(ev[2]) != p(f, 2):
                ex.report(st, fr, ev[4], "another callback is run")
            return (s[0], min(s[1] + 1, 2))
        return s

    def afin(ex, st, fr, s):
        if s != (1, 1):
            ex.report(st, fr, -1, "a call ends %d times and its callback runs %d times" % s)
    automaton(R, P, f, "D01.call", f.name, (0, 0), astep, calls_named("CallDone", "Run"), afin, this_cls=D, boundary=[D + "::CallDone"])
    f = P.fn(D + "::CallDone")

    # state: taken off, server there, failed, live, marked, moved
    def dstep(ex, st, fr, ev, s):
        cnt, srv, bad, live, mark, moved = s
        if ev[0] == "rmw" and has_field(ev[1], "_wait_count"):
            if const(ev[2]) != -1:
                ex.report(st, fr, -1, "a completed call is not taken off the calls that wait")
            return (min(cnt + 1, 2), srv, bad, live, mark, moved)
        if ev[0] == "branch":
            t, tr = test_of(ev)
            if t == at(f, 0) or t == p(f, 0):
                return (cnt, tr, bad, live, mark, moved)
            if has_field(t, "_error_code") or is_call(t, "Failed"):
                return (cnt, srv, tr, live, mark, moved)
            if is_ld(t, "is_in_live_map"):
                return (cnt, srv, bad, tr, mark, moved)
        if ev[0] == "write" and locis(ev[1], "is_last_request_succeed"):
            if srv is not True:
                ex.report(st, fr, ev[4], "the outcome is noted for a server that may not be there")
            v = const(ev[2])
            if v is None:
                if not (has_field(ev[2], "_error_code")):
                    ex.report(st, fr, ev[4], "what is noted for a server is not the outcome of its call")
                return (cnt, srv, bad, live, "value", moved)
            if bad is None or bool(v) == bad:
                ex.report(st, fr, ev[4], "a %s call is noted as %s" % ("failed" if bad else "successful", "successful" if v else "failed"))
            return (cnt, srv, bad, live, bool(v), moved)
        if ev[0] == "call" and ev[1] == D + "::MoveToUnlive":
            if bad is not True:
                ex.report(st, fr, ev[4], "a server is taken out of the live ones although its call did not fail")
            if not contains(ev[3][0], lambda x: len(x) > 2 and x[0] == "F" and fieldis(x[2], "server_address")) or not contains(ev[3][0], lambda x: x == p(f, 0)):
                ex.report(st, fr, ev[4], "another server is taken out of the live ones")
            return (cnt, srv, bad, live, mark, True)
        return s

    def dfin(ex, st, fr, s):
        cnt, srv, bad, live, mark, moved = s
        if cnt != 1:
            ex.report(st, fr, -1, "a completed call is taken off the calls that wait %d times" % cnt)
        if srv is None:
            ex.report(st, fr, -1, "a completed call is charged to a server without asking whether there is one")
        if srv:
            if bad is None and mark != "value":
                ex.report(st, fr, -1, "whether the call failed is not asked")
            if mark is None:
                ex.report(st, fr, -1, "the outcome of a call is not noted for its server")
            if bad and live is not False and not moved:
                ex.report(st, fr, -1, "a server whose call failed stays among the live ones")
    automaton(R, P, f, "D01.call", f.name, (0, None, None, None, None, False), dstep, any_of(calls_named("MoveToUnlive", "Failed"), mentions_wait), dfin, this_cls=D, boundary=[D + "::MoveToUnlive"])


def mentions_wait(f, nid, n):
    return n["k"] == "mem" and fieldis(n.get("fld"), "_wait_count")


# ------------------------------------------------------------------ choosing
def wait_of(t):
    """the server a number of outstanding calls is asked of"""
    t = unwrap(t)
    return t[2] if t[0] == "call" and short(t[1]) == "WaitCount" else None


def seq_of(t):
    t = unwrap(t)
    return t[1][1] if t[0] == "ld" and locis(t[1], "last_request_seq") else None


def position(ev, box):
    """the iterator a loop test asks about"""
    t, tr = unneg(ev[1], ev[2])
    if t[0] == "eq":
        for a, b in ((t[1], t[2]), (t[2], t[1])):
            if is_call(a, "end", "cend") and a[2] == box:
                return b
    return None


def counted(ev, box):
    """what a test of the number of equal members says: True there is one, False there is none"""
    t, tr = unneg(ev[1], ev[2])
    one = lambda x: is_call(x, "count") and box_of(x[2]) == box
    if one(t):
        return tr
    if t[0] not in ("lt", "eq"):
        return None
    can = set()
    for n in (0, 1):
        a, b = (n if one(x) else const(x) for x in (t[1], t[2]))
        if a is None or b is None or not (one(t[1]) or one(t[2])):
            return None
        if ((a < b) if t[0] == "lt" else a == b) == tr:
            can.add(n)
    return bool(can.pop()) if len(can) == 1 else None


def choose(R, P):
    f = P.fn(D + "::ChooseServer")
    out = p(f, 0)
    live, unlive = (("F", ("this",), D + "::" + m) for m in MAPS)

    # state: (current side, iterator, inited, order of outstanding, order of sequence, chosen this round, best so far ("none", "zero", "call"), location of the best,
    #         parameter ("?", None, "live", "unlive"), capacity positive, below capacity, sides done)
    ALL = frozenset("<=>")

    def judge(ex, st, fr, nid, s):
        side, it, init, w, q, got, best, loc, par, cap, below, done = s
        if it is None or side != "live":
            return
        if got:
            if best == "none":
                return
            if ">" in w:
                ex.report(st, fr, nid, "a server is chosen that may have more calls outstanding than the one chosen before")
            elif "=" in w and ">" in q:
                ex.report(st, fr, nid, "a server is chosen among equals that may have been used later than the one chosen before")
        else:
            if "<" in w:
                ex.report(st, fr, nid, "a server is passed over that may have fewer calls outstanding than the one chosen")
            elif "=" in w and "<" in q:
                ex.report(st, fr, nid, "a server is passed over among equals that may not have been used for longer")

    def rel(a, b, best, ours, zero):
        """order of (the value of this element) to (the best so far) a comparison a < b or a == b speaks of: +1, -1 for swapped, None"""
        pass

    def step(ex, st, fr, ev, s):
        if s == "dead":
            return s
        side, it, init, w, q, got, best, loc, par, cap, below, done = s
        k = ev[0]
        mine = lambda t: it is not None and contains(t, lambda x: x == it)
        if k == "call":
            b = box_of(ev[2]) if ev[2] else None
            if b in MAPS and not held(st, "_map_lock"):
                ex.report(st, fr, ev[4], "the servers are read without their lock")
            return s
        if k == "branch":
            for name, box in (("live", live), ("unlive", unlive)):
                m = loop_test(ev[1], ev[2], box)
                if m is None:
                    continue
                pos = position(ev, box)
                if pos is None:     # emptiness
                    if m is False:
                        done = done | {name}
                    return (side, it, init, w, q, got, best, loc, par, cap, below, done)
                judge(ex, st, fr, ev[3], s)
                nb = best
                if got and side == "live":
                    nb = "zero" if init is False else "call"
                if name == "unlive" and side != "unlive":
                    if "live" not in done:
                        ex.report(st, fr, ev[3], "servers that are not live are considered before all live ones were")
                    if par == "live":
                        ex.report(st, fr, ev[3], "servers that are not live are considered although a live one was chosen")
                if m is False:
                    return (side if name == side else name, None, None, ALL, ALL, False, nb, loc, par, cap, below, done | {name})
                # orders an element may have to the best so far, before any comparison
                return (name, pos, None, frozenset("<=") if nb == "none" else ALL, frozenset("<=") if nb == "none" else ALL, False, nb, loc, par, cap, below, done)
            t, tr = unneg(ev[1], ev[2])
            x, xr = test_of(ev)
            if is_ld(x, "is_channel_inited") and mine(x):
                if xr is False and best == "zero":
                    w = w - {"<", ">"}
                elif xr is False and best == "call":
                    w = w - {">"}
                elif xr and best == "zero":
                    w = w - {"<"}
                return (side, it, xr, w, q, got, best, loc, par, cap, below, done)
            if x[0] not in ("lt", "eq") and par in ("live", "unlive", None) and (x == ("ld", loc) or x == ("ld", out) or (contains(x, lambda y: len(y) > 2 and y[0] == "F" and fieldis(y[2], "second")) and x[0] == "ld" and locis(x[1], "second"))):
                # whether a server was chosen
                if (par is not None) != xr:
                    return "dead"
                return s
            if t[0] in ("lt", "eq"):
                a, b = t[1], t[2]
                if t[0] == "eq" and b == NULL and not wait_of(a) and not seq_of(a):
                    return s
                # capacity
                ca, cb = has_ld(a, "server_load_capacity"), has_ld(b, "server_load_capacity")
                if ca or cb:
                    o = b if ca else a
                    if const(o) is not None and best != "zero" or const(o) in (0, 1) and t[0] in ("lt", "eq") and cap is None:
                        if t[0] == "lt" and ca and const(o) == 1:
                            return (side, it, init, w, q, got, best, loc, par, not tr, below, done)
                        if t[0] == "eq" and const(o) == 0:
                            return (side, it, init, w, q, got, best, loc, par, not tr, below, done)
                        return s
                    if cap is not True and False:
                        return s
                    if cb and t[0] == "lt":
                        if it is not None:
                            ex.report(st, fr, ev[3], "the capacity is compared before the least loaded server is known")
                        return (side, it, init, w, q, got, best, loc, par, cap, tr, done)
                    return s
                if it is None or side != "live":
                    return s

                def cls(v):
                    """("w"/"q", this element?)"""
                    z = wait_of(v)
                    if z is not None:
                        return ("w", mine(z))
                    z = seq_of(v)
                    if z is not None:
                        return ("q", mine(z))
                    c = const(v)
                    if c is None:
                        return None
                    return ("c", c)
                x, y = cls(a), cls(b)
                if x is None or y is None:
                    return s
                swap = False
                if x[0] == "c" and y[0] == "c":
                    return s
                kind = x[0] if x[0] != "c" else y[0]
                # which side is the element
                if x[0] == kind and y[0] == kind:
                    if x[1] == y[1]:
                        return s
                    swap = not x[1]
                else:
                    v, c, left = (x, y[1], True) if y[0] == "c" else (y, x[1], False)
                    strict = t[0] == "lt"
                    if v[1]:      # this element against a constant: the best so far is that constant
                        if kind == "w" and best == "zero" and c in (0, 1):
                            pass
                        elif best == "none" and c in UMAX:
                            pass
                        elif best == "none" and strict and left and c - 1 in UMAX:     # x <= the greatest number there is
                            return s if tr else "dead"
                        else:
                            return s
                        swap = not left
                        if kind == "w" and best == "zero" and c == 1 and strict and left:     # x < 1: x is 0
                            return upd_w(s, w & ({"="} if tr else {">"}))
                        if kind == "w" and best == "zero" and c == 1:
                            return s
                    else:         # the best so far against a constant: this element counts 0
                        if not (kind == "w" and init is False and c in (0, 1)):
                            return s
                        if strict and left and c == 1:      # best < 1: equal
                            return upd_w(s, w & ({"="} if tr else {"<"}))
                        if c == 1:
                            return s
                        swap = left
                if t[0] == "eq":
                    keep = {"="} if tr else {"<", ">"}
                elif not swap:
                    keep = {"<"} if tr else {"=", ">"}
                else:
                    keep = {">"} if tr else {"=", "<"}
                if kind == "w":
                    return upd_w(s, w & keep)
                r = q & keep
                if not r:
                    return "dead"
                return (side, it, init, w, r, got, best, loc, par, cap, below, done)
            return s
        if k == "write" and ev[3] != "decl":
            v = unwrap(ev[2])
            elem = v[0] == "ld" and locis(v[1], "second") and mine(v)
            if elem and (ev[1] == out or ev[1][0] in ("L", "p")):
                np = side if ev[1] == out else par
                return (side, it, init, w, q, True, best, ev[1], np, cap, below, done)
            if ev[1] == out:
                if v == NULL:
                    return (side, it, init, w, q, got, best, loc, None, cap, below, done)
                if v[0] == "ld" and locis(v[1], "second") and best != "none" or has_ld(v, "second"):
                    return (side, it, init, w, q, got, best, loc, "live" if "unlive" not in done else "unlive", cap, below, done)
                ex.report(st, fr, ev[4], "what is chosen is not one of the servers")
        if k == "ret" and ev[3] == 0:
            if par == "?":
                ex.report(st, fr, ev[2], "what was in the result before the choice may be taken for the choice")
            c = const(ev[1])
            if c is None:
                return s
            if c == 0:
                if par is None:
                    ex.report(st, fr, ev[2], "a choice succeeds without a server")
                if par == "live" and "live" not in done or par == "unlive" and "unlive" not in done:
                    ex.report(st, fr, ev[2], "a server is chosen before all were considered")
                if par == "live" and best != "zero" and cap is not False and below is not True and not (best == "zero" and cap):
                    ex.report(st, fr, ev[2], "a server is chosen that may have as many calls outstanding as it may take")
            elif c == P.enum_value("RPC_ERROR_SERVER_BUSY"):
                if par is not None:
                    ex.report(st, fr, ev[2], "a full channel still leaves a server chosen")
                if cap is not True or (below is not False):
                    ex.report(st, fr, ev[2], "a channel says it is full although the least loaded server may take more calls")
            else:
                if par is not None:
                    ex.report(st, fr, ev[2], "a choice fails although there is a server")
                if "live" not in done or "unlive" not in done:
                    ex.report(st, fr, ev[2], "a choice fails before all servers were considered")
        return s

    def upd_w(s, w):
        if not w:
            return "dead"
        return s[:3] + (w,) + s[4:]
    automaton(R, P, f, "D01.choose", f.name, (None, None, None, ALL, ALL, False, "none", None, "?", None, None, frozenset()), step,
              calls_named("WaitCount"), None, this_cls=D, boundary=[SIMPLE + "::WaitCount"])


# ------------------------------------------------------------------ live or not
def moves(R, P):
    for name, src, dst, flag in (("MoveToUnlive", "_live_map", "_unlive_map", 0), ("MoveToLive", "_unlive_map", "_live_map", 1)):
        f = P.fn(D + "::" + name)

        # state: section, there, steps taken
        def step(ex, st, fr, ev, s):
            there, done = s
            if ev[0] == "unlock" and locis(ev[1], "_map_lock"):
                if done and done != {"erase", "flag", "put"}:
                    ex.report(st, fr, -1, "the lock is given up with a server half moved: %s" % ", ".join(sorted(done)))
                return s
            if ev[0] == "branch":
                m = position(ev, ("F", ("this",), D + "::" + src))
                if m is not None and found(m):
                    return (loop_test(ev[1], ev[2], ("F", ("this",), D + "::" + src)), done)
                return s
            what = None
            nid = ev[4] if ev[0] in ("call", "write") else -1
            if ev[0] == "call" and ev[2] and box_of(ev[2]):
                n, b = short(ev[1]), box_of(ev[2])
                if not held(st, "_map_lock"):
                    ex.report(st, fr, nid, "the servers are changed or read without their lock")
                if n in ("find", "count") and ev[3][0] != p(f, 0):
                    ex.report(st, fr, nid, "another server is looked up")
                if n == "erase":
                    if b != src or not (found(ev[3][0]) == (src, p(f, 0)) or ev[3][0] == p(f, 0)):
                        ex.report(st, fr, nid, "another server is taken out")
                    what = "erase"
                elif n in ("insert", "emplace"):
                    if b != dst or not any(contains(a, lambda x: x == p(f, 0)) for a in ev[3]):
                        ex.report(st, fr, nid, "another server is put in")
                    what = "put"
                elif n in ("clear", "swap"):
                    ex.report(st, fr, nid, "servers are lost")
            if ev[0] == "write":
                if ev[1][0] == "call" or (ev[1][0] == "F" and is_call(ev[1][1], "operator[]")):
                    pass
                if is_call(ev[1], "operator[]") and box_of(ev[1][2]):
                    if not held(st, "_map_lock"):
                        ex.report(st, fr, nid, "the servers are changed without their lock")
                    if box_of(ev[1][2]) != dst or ev[1][3][0] != p(f, 0) and not found(ev[1][3][0]):
                        ex.report(st, fr, nid, "another server is put in")
                    if found(ev[2]) != (src, p(f, 0)):
                        ex.report(st, fr, nid, "what is put in is not the server taken out")
                    what = "put"
                elif locis(ev[1], "is_in_live_map"):
                    if const(ev[2]) != flag:
                        ex.report(st, fr, nid, "the server is marked as %s" % ("not live although it is" if flag else "live although it is not"))
                    if found(ev[1]) != (src, p(f, 0)):
                        ex.report(st, fr, nid, "another server is marked")
                    what = "flag"
            if what:
                if there is not True:
                    ex.report(st, fr, nid, "a server is moved that may not be there")
                if what in done and what != "flag":
                    ex.report(st, fr, nid, "a server is moved twice")
                return (there, done | {what})
            return s

        def fin(ex, st, fr, s):
            there, done = s
            if there is None:
                ex.report(st, fr, -1, "whether the server is there is not asked")
            if there and done != {"erase", "flag", "put"}:
                ex.report(st, fr, -1, "a server is not moved completely: %s" % (", ".join(sorted(done)) or "nothing done"))
        automaton(R, P, f, "D01.move", f.name, (None, frozenset()), step, calls_named("find", "erase", "insert"), fin, this_cls=D)


# ------------------------------------------------------------------ addresses
def adds(R, P):
    f = P.fn(D + "::OnAddressAdded")

    # state: looked up (None unknown, True: already there), result said to fail, made; of the second pass: fails, put in map, put in set
    def step(ex, st, fr, ev, s):
        if s == "dead":
            return s
        known, said, made, fails, put, ins = s
        nid = ev[4] if ev[0] in ("call", "write") else ev[3] if ev[0] == "branch" else -1
        if ev[0] == "branch":
            box = ("F", ("this",), D + "::_added_set")
            m = loop_test(ev[1], ev[2], box)
            if m is not None:
                return (m, said, made, fails, put, ins)
            x, xr = test_of(ev)
            if is_ld(x, "add_failed"):
                return (known, said, made, xr, put, ins)
            n = counted(ev, "_added_set")
            if n is not None:
                return (n, said, made, fails, put, ins)
            pos, tr = unneg(ev[1], ev[2])
            if pos[0] == "eq" and any(is_call(z, "end", "cend") for z in (pos[1], pos[2])) and not any(is_call(z, "find") for z in (pos[1], pos[2])):
                # a new round, or the end of one
                chk(ex, st, fr, nid, s)
                return (None, None, False, None, False, False)
            return s
        if ev[0] == "write":
            if locis(ev[1], "add_failed"):
                return (known, bool(const(ev[2])), made, fails, put, ins)
            if locis(ev[1], "server_context"):
                if ev[2][0] != "new":
                    ex.report(st, fr, nid, "an address is added with a server that is not new")
                if known is not False:
                    ex.report(st, fr, nid, "an address is added that may be there already")
                return (known, said, True, fails, put, ins)
            if is_call(ev[1], "operator[]") and box_of(ev[1][2]):
                if box_of(ev[1][2]) != "_live_map":
                    ex.report(st, fr, nid, "a new server is not live")
                if not held(st, "_map_lock") or not held(st, "_add_remove_lock"):
                    ex.report(st, fr, nid, "a server is added without the locks of the servers")
                if fails is not False:
                    ex.report(st, fr, nid, "a server is added although its address may be there already")
                return (known, said, made, fails, True, ins)
        if ev[0] == "call" and ev[2] and box_of(ev[2]):
            n, b = short(ev[1]), box_of(ev[2])
            if b == "_added_set" and not held(st, "_add_remove_lock") or b in MAPS and not held(st, "_map_lock"):
                ex.report(st, fr, nid, "the addresses are read or changed without their lock")
            if n in ("insert", "emplace"):
                if b == "_added_set":
                    if fails is not False:
                        ex.report(st, fr, nid, "an address is entered that may be there already")
                    return (known, said, made, fails, put, True)
                if b == "_live_map":
                    return (known, said, made, fails, True, ins)
                ex.report(st, fr, nid, "a new server is not live")
            if n in ("erase", "clear", "swap"):
                ex.report(st, fr, nid, "adding addresses loses servers")
        return s

    def chk(ex, st, fr, nid, s):
        known, said, made, fails, put, ins = s
        if known is True and said is not True:
            ex.report(st, fr, nid, "an address that is there already is added again")
        if known is False and (not made or said is True):
            ex.report(st, fr, nid, "a new address is not added")
        if put != ins:
            ex.report(st, fr, nid, "an address is %s" % ("kept a server for without being entered" if put else "entered without a server"))
        if fails is False and not put and (said is None and known is None) and held(st, "_map_lock"):
            ex.report(st, fr, nid, "a new address is not added")

    def fin(ex, st, fr, s):
        if s != "dead":
            chk(ex, st, fr, -1, s)
    automaton(R, P, f, "D01.address", f.name, (None, None, False, None, False, False), step, calls_named("find", "insert"), fin, this_cls=D)


def removes(R, P):
    f = P.fn(D + "::OnAddressRemoved")

    # state: known (first pass), said to fail; second pass: fails, where found, marked, erased from, erased from the set
    START = (None, None, None, None, False, None, False)

    def step(ex, st, fr, ev, s):
        if s == "dead":
            return s
        known, said, fails, place, mark, gone, unset = s
        nid = ev[4] if ev[0] in ("call", "write") else ev[3] if ev[0] == "branch" else -1
        if ev[0] == "abort":
            return "dead"
        if ev[0] == "branch":
            m = loop_test(ev[1], ev[2], ("F", ("this",), D + "::_added_set"))
            if m is not None:
                return (m,) + s[1:]
            for b in MAPS:
                m = loop_test(ev[1], ev[2], ("F", ("this",), D + "::" + b))
                if m is not None:
                    return (known, said, fails, b if m else place, mark, gone, unset)
            x, xr = test_of(ev)
            if is_ld(x, "remove_failed"):
                return (known, said, xr, place, mark, gone, unset)
            n = counted(ev, "_added_set")
            if n is not None:
                return (n,) + s[1:]
            t, tr = unneg(ev[1], ev[2])
            if t[0] == "eq" and any(is_call(z, "end", "cend") for z in (t[1], t[2])) and not any(is_call(z, "find") for z in (t[1], t[2])):
                chk(ex, st, fr, nid, s)
                return START
            return s
        if ev[0] == "write":
            if locis(ev[1], "remove_failed"):
                return (known, bool(const(ev[2])), fails, place, mark, gone, unset)
            if locis(ev[1], "is_removed"):
                g = found(ev[1])
                if not const(ev[2]) or g is None or g[0] != place:
                    ex.report(st, fr, nid, "what is marked as removed is not the server removed")
                return (known, said, fails, place, True, gone, unset)
        if ev[0] == "call" and ev[2] and box_of(ev[2]):
            n, b = short(ev[1]), box_of(ev[2])
            if b == "_added_set" and not held(st, "_add_remove_lock") or b in MAPS and not held(st, "_map_lock"):
                ex.report(st, fr, nid, "the addresses are read or changed without their lock")
            if n == "erase":
                if fails is not False:
                    ex.report(st, fr, nid, "an address is removed that may not be there")
                if b == "_added_set":
                    return (known, said, fails, place, mark, gone, True)
                g = found(ev[3][0])
                if g and g[0] != b or b != place:
                    ex.report(st, fr, nid, "a server is removed from where it was not found")
                if not mark and False:
                    pass
                return (known, said, fails, place, mark, b, unset)
            if n in ("insert", "emplace", "clear", "swap", "operator[]"):
                ex.report(st, fr, nid, "removing addresses changes other servers")
        return s

    def chk(ex, st, fr, nid, s):
        known, said, fails, place, mark, gone, unset = s
        if known is False and said is not True:
            ex.report(st, fr, nid, "an address that is not there is removed")
        if known is True and said is True:
            ex.report(st, fr, nid, "an address that is there is not removed")
        if fails is False and held(st, "_map_lock"):
            if gone is None:
                ex.report(st, fr, nid, "the server of a removed address stays among the servers")
            if not mark:
                ex.report(st, fr, nid, "a removed server is not marked as removed")
            if not unset:
                ex.report(st, fr, nid, "a removed address stays entered")
        elif unset and gone is None or gone and not unset:
            ex.report(st, fr, nid, "a server is removed but not its address, or the other way round")

    def fin(ex, st, fr, s):
        if s != "dead":
            chk(ex, st, fr, -1, s)
    automaton(R, P, f, "D01.address", f.name, START, step, calls_named("find", "erase"), fin, this_cls=D)


# ------------------------------------------------------------------ stopping
def stops(R, P):
    f = P.fn(D + "::Stop")
    boxes = {m: ("F", ("this",), D + "::" + m) for m in MAPS}

    # state: manager there, timer erased, disabled, manager gone, current element: None, "new", "skip", "stopped"; sides done; cleared
    def step(ex, st, fr, ev, s):
        mgr, erased, off, gone, cur, seen, cleared = s
        nid = ev[4] if ev[0] in ("call", "write") else ev[3] if ev[0] == "branch" else -1
        if ev[0] == "branch":
            x, xr = test_of(ev)
            if fld_of(x, D) == "_timeout_manager":
                return (xr, erased, off, gone, cur, seen, cleared)
            if is_ld(x, "is_channel_inited") and cur == "new" and not xr:
                return (mgr, erased, off, gone, "skip", seen, cleared)
            if has_field(x, "channel") and x[0] == "ld" and locis(x[1], "channel") and cur == "new" and not xr:
                return (mgr, erased, off, gone, "skip", seen, cleared)
            for m, b in boxes.items():
                t = loop_test(ev[1], ev[2], b)
                if t is not None:
                    if cur == "new":
                        ex.report(st, fr, nid, "the channel of a server is passed over without being stopped")
                    pos = position(ev, b)
                    if t:
                        return (mgr, erased, off, gone, "new" if pos is not None else cur, seen, cleared)
                    return (mgr, erased, off, gone, None, seen | {m}, cleared)
            return s
        if ev[0] == "write":
            n = fld_of(ev[1], D)
            if n == "_is_detect_disabled":
                if not held(st, "_detect_lock"):
                    ex.report(st, fr, nid, "detection is ended without its lock: a round may go on")
                if const(ev[2]) != 1:
                    ex.report(st, fr, nid, "detection is not ended")
                return (mgr, erased, True, gone, cur, seen, cleared)
            if n == "_timeout_manager":
                if ev[2] != NULL:
                    ex.report(st, fr, nid, "a new timer is made")
                if any(True for _ in st.locks):
                    ex.report(st, fr, nid, "the end of the timer is waited for with a lock its callback takes")
                if not off:
                    ex.report(st, fr, nid, "the timer ends before detection does")
                return (mgr, erased, off, True, cur, seen, cleared)
        if ev[0] == "call" and ev[2]:
            n = short(ev[1])
            if n == "erase" and fld_of(ev[2], D) == "_timeout_manager":
                if mgr is not True:
                    ex.report(st, fr, nid, "the timer of a channel is used that may never have been made")
                if fld_of(ev[3][0], D) != "_timer_id":
                    ex.report(st, fr, nid, "another timer is ended")
                return (mgr, True, off, gone, cur, seen, cleared)
            if ev[1] == SIMPLE + "::Stop":
                if cur is None:
                    ex.report(st, fr, nid, "the channel of no server is stopped")
                return (mgr, erased, off, gone, "stopped", seen, cleared)
            b = box_of(ev[2])
            if b:
                if not held(st, "_map_lock") and b in MAPS or not held(st, "_add_remove_lock") and n in ("clear", "swap"):
                    ex.report(st, fr, nid, "the servers are read or forgotten without their locks")
                if n == "clear":
                    if b in MAPS and b not in seen:
                        ex.report(st, fr, nid, "servers are forgotten before their channels are stopped")
                    if not (gone or mgr is False) or not off:
                        ex.report(st, fr, nid, "servers are forgotten while they may still be probed")
                    return (mgr, erased, off, gone, cur, seen, cleared | {b})
        return s

    def fin(ex, st, fr, s):
        mgr, erased, off, gone, cur, seen, cleared = s
        if mgr is None:
            ex.report(st, fr, -1, "whether there is a timer is not asked")
        if mgr and not (gone or erased):
            ex.report(st, fr, -1, "the timer is not ended")
        if not off:
            ex.report(st, fr, -1, "detection is not ended")
        miss = set(MAPS) - seen
        if miss:
            ex.report(st, fr, -1, "the channels of %s are not stopped" % ", ".join(sorted(miss)))
        miss = set(MAPS + ("_added_set",)) - cleared
        if miss:
            ex.report(st, fr, -1, "%s is kept" % ", ".join(sorted(miss)))
    automaton(R, P, f, "D01.stop", f.name, (None, False, False, False, None, frozenset(), frozenset()), step, any_of(calls_named("Stop", "clear"), writes_field("_is_detect_disabled", "_timeout_manager")), fin, this_cls=D,
              boundary=[SIMPLE + "::Stop", "TimeoutManager::erase"])


# ------------------------------------------------------------------ detection
def detects(R, P):
    f = P.fn(D + "::TimerDetect")
    HEALTH = "builtin::BuiltinService_Stub::Health"

    # state: due, disabled known, snapshot, round: (removed, live, inited, timeout set, bound, sent), boxes
    ROUND = (None, None, None, False, None, False)

    def step(ex, st, fr, ev, s):
        due, off, snap, box, rnd = s
        nid = ev[4] if ev[0] in ("call", "write") else ev[3] if ev[0] == "branch" else -1
        if ev[0] == "branch":
            t, tr = unneg(ev[1], ev[2])
            x, xr = test_of(ev)
            if contains(t, lambda y: y == p(f, 1)):
                # the roles are 0 due, 1 erased, 2 cleared
                vals = due
                c = next((const(z) for z in t[1:] if isinstance(z, tuple) and const(z) is not None), None)
                if t[0] == "eq" and c is not None:
                    vals = vals & {c} if tr else vals - {c}
                elif t[0] == "lt" and const(t[2]) is not None:
                    vals = frozenset(v for v in vals if (v < const(t[2])) == tr)
                elif t[0] == "lt" and const(t[1]) is not None:
                    vals = frozenset(v for v in vals if (const(t[1]) < v) == tr)
                elif x == p(f, 1):
                    vals = frozenset(v for v in vals if bool(v) == xr)
                return (vals, off, snap, box, rnd)
            if fld_of(x, D) == "_is_detect_disabled":
                if not held(st, "_detect_lock"):
                    ex.report(st, fr, nid, "whether detection has ended is asked without its lock")
                return (due, xr, snap, box, rnd)
            if rnd is not None:
                for i, n in ((0, "is_removed"), (1, "is_in_live_map")):
                    if is_ld(x, n):
                        return (due, off, snap, box, rnd[:i] + (xr,) + rnd[i + 1:])
                if is_call(x, "InitBuiltinService"):
                    return (due, off, snap, box, rnd[:2] + (xr,) + rnd[3:])
                if is_call(x, "InitChannel") and not xr:
                    return (due, off, snap, box, rnd[:2] + (False,) + rnd[3:])
            if box is not None:
                m = loop_test(ev[1], ev[2], box)
                if m is not None:
                    if rnd is not None:
                        over(ex, st, fr, nid, rnd)
                    if off is not False or due != {0}:
                        ex.report(st, fr, nid, "servers are probed although detection may have ended")
                    if not held(st, "_detect_lock"):
                        ex.report(st, fr, nid, "servers are probed without the lock of the detection")
                    return (due, off, snap, box, ROUND if m and position(ev, box) is not None else None)
            return s
        if ev[0] == "write" and rnd is not None and ev[1][0] == "F" and fieldis(ev[1][2], "timeout"):
            c = const(ev[2])
            return (due, off, snap, box, rnd[:3] + (c is None or c > 0,) + rnd[4:])
        if ev[0] == "call":
            n = short(ev[1])
            b = box_of(ev[2]) if ev[2] else None
            src = [box_of(a) for a in ev[3] if isinstance(a, tuple) and box_of(a) in MAPS]
            if n in ("operator=", "{ctor}", "swap", "insert") and src:
                if not held(st, "_map_lock"):
                    ex.report(st, fr, nid, "the servers are copied without their lock")
                if src != ["_unlive_map"]:
                    ex.report(st, fr, nid, "other servers are probed than those that are not live")
                if n == "swap":
                    ex.report(st, fr, nid, "probing loses the servers")
                return (due, off, True, ev[2] if ev[2] else box, rnd)
            if b in MAPS:
                if not held(st, "_map_lock"):
                    ex.report(st, fr, nid, "the servers are read without their lock")
                if n in ("erase", "clear", "swap"):
                    ex.report(st, fr, nid, "probing loses the servers")
                return s
            if rnd is None:
                return s
            if n == "SetTimeout":
                c = const(ev[3][0])
                return (due, off, snap, box, rnd[:3] + (c is None or c > 0,) + rnd[4:])
            if n == "InitBuiltinService" or n == "InitChannel":
                return s
            if ev[1] == HEALTH:
                rem, liv, ini, tmo, bound, sent = rnd
                if rem is not False or liv is not False:
                    ex.report(st, fr, nid, "a server is probed that may be %s" % ("live" if rem is False else "removed"))
                if ini is not True:
                    ex.report(st, fr, nid, "a server is probed whose channel may not be set up")
                if held(st, "_map_lock"):
                    ex.report(st, fr, nid, "a server is probed with the lock of the servers held")
                if not tmo:
                    ex.report(st, fr, nid, "a probe may wait for ever")
                if sent:
                    ex.report(st, fr, nid, "a server is probed twice")
                a = [unwrap(z) for z in ev[3]]
                news = [z for z in a[:3] if z[0] == "new"]
                if len(news) != 3 or len(set(news)) != 3:
                    ex.report(st, fr, nid, "a probe does not have messages of its own")
                if not any(z.endswith("::DetectCallback") for z in bound_target(a[3])):
                    ex.report(st, fr, nid, "a probe ends in another callback")
                elif not all(contains(a[3], lambda y, z=z: y == z) for z in news):
                    ex.report(st, fr, nid, "the callback of a probe is given other messages than the probe")
                elif not contains(a[3], lambda y: y[0] == "ld" and locis(y[1], "second") or len(y) > 2 and y[0] == "F" and fieldis(y[2], "second")):
                    ex.report(st, fr, nid, "the callback of a probe is not given its server")
                return (due, off, snap, box, rnd[:5] + (True,))
        return s

    def over(ex, st, fr, nid, rnd):
        rem, liv, ini, tmo, bound, sent = rnd
        if rem is False and liv is False and ini is not False and not sent:
            ex.report(st, fr, nid, "a server that is not live is not probed")

    def fin(ex, st, fr, s):
        due, off, snap, box, rnd = s
        if due == {0} and off is False and not snap:
            ex.report(st, fr, -1, "the servers are not probed")
        if rnd is not None:
            ex.report(st, fr, -1, "probing ends before every server was considered")
        if 0 in due and len(due) > 1 and off is None:
            ex.report(st, fr, -1, "what happened to the timer is not asked")
    automaton(R, P, f, "D01.detect", f.name, (frozenset((0, 1, 2)), None, False, None, None), step, calls_named("Health", "InitBuiltinService", "InitChannel", "SetTimeout"), fin, this_cls=D,
              boundary=[HEALTH, SC + "::InitBuiltinService", SC + "::InitChannel", "RpcController::SetTimeout"])
    # a server whose first attempt to connect failed is probed, too
    inits_tried(R, P, f)
    f = P.fn(D + "::DetectCallback")
    good = ("is_removed", "is_in_live_map")

    def dstep(ex, st, fr, ev, s):
        facts, moved, dels = s
        if ev[0] == "branch":
            x, xr = test_of(ev)
            for n in good:
                if is_ld(x, n):
                    return (facts | {(n, xr)}, moved, dels)
            if has_field(x, "_error_code") or is_call(x, "Failed"):
                return (facts | {("failed", xr)}, moved, dels)
            t, tr = unneg(ev[1], ev[2])
            if has_call(t, "health"):
                ok = t[0] == "eq" and ("str", "OK") in t[1:]
                return (facts | {("ok", tr if ok else None)}, moved, dels)
        if ev[0] == "call" and ev[1] == D + "::MoveToLive":
            need = {("is_removed", False): "may have been removed", ("is_in_live_map", False): "may be live", ("failed", False): "may have failed its probe", ("ok", True): "may not have said that it is well"}
            for k, why in need.items():
                if k not in facts:
                    ex.report(st, fr, ev[4], "a server becomes live that %s" % why)
            if not contains(ev[3][0], lambda x: x == p(f, 0)) or not has_field(ev[3][0], "server_address"):
                ex.report(st, fr, ev[4], "another server becomes live")
            if any(d in ("used",) for d in dels):
                pass
            return (facts, min(moved + 1, 2), dels)
        if ev[0] == "call" and len(dels) and ev[2] and ev[2] in [p(f, i) for i in dels]:
            ex.report(st, fr, ev[4], "a message of a probe is used after it was deleted")
        if ev[0] == "del":
            i = next((i for i in (1, 2, 3) if ev[1] == p(f, i)), None)
            if i is None or i in dels:
                ex.report(st, fr, ev[3], "something else is deleted, or a message twice")
                return s
            return (facts, moved, dels | {i})
        return s

    def dfin(ex, st, fr, s):
        facts, moved, dels = s
        if {("is_removed", False), ("is_in_live_map", False), ("failed", False), ("ok", True)} <= facts and moved != 1:
            ex.report(st, fr, -1, "a server that is well again does not become live")
        if dels != {1, 2, 3}:
            ex.report(st, fr, -1, "the messages of a probe are not freed")
    automaton(R, P, f, "D01.detect", f.name, (frozenset(), 0, frozenset()), dstep, calls_named("MoveToLive", "Failed", "health"), dfin, this_cls=D, boundary=[D + "::MoveToLive"])


def inits_tried(R, P, f):
    """every way to a probe tries to set up the channel first"""
    reach = any(n["k"] in ("call", "mcall") and n.get("n") and n["n"].endswith("InitChannel") for n in f.nodes) or any(
        n["k"] in ("call", "mcall") and n.get("n") and n["n"].endswith("InitChannel") for k in P.edges(f) if k in P.fns and P.fns[k].name.startswith(D) for n in P.fns[k].nodes)
    R.decide("D01.detect", "channel of a probed server", reach, where(f), "a server whose channel could not be set up is never probed: nothing sets it up again")


# ------------------------------------------------------------------ set-up
def inits(R, P):
    for name, flag, lock, obj in (("InitChannel", "is_channel_inited", "channel_init_lock", "channel"), ("InitBuiltinService", "is_builtin_service_inited", "builtin_service_init_lock", "builtin_service")):
        f = P.fn(SC + "::" + name)

        # state: flag known (with the lock), made, initialised, flag set
        def step(ex, st, fr, ev, s):
            known, made, ok, flagged = s
            nid = ev[4] if ev[0] in ("call", "write") else ev[3] if ev[0] == "branch" else -1
            if ev[0] == "branch":
                x, xr = test_of(ev)
                if is_ld(x, flag):
                    return (("locked" if held(st, lock) else "open") if not xr else "set", made, ok, flagged)
                if is_call(x, "Init"):
                    return (known, made, xr, flagged)
            if ev[0] == "write":
                if locis(ev[1], obj, ("this",)):
                    if ev[2] == NULL:
                        if flagged:
                            ex.report(st, fr, nid, "what was set up is dropped")
                        return (known, False, ok, flagged)
                    if known != "locked":
                        ex.report(st, fr, nid, "two threads may both set it up")
                    return (known, True, ok, flagged)
                if locis(ev[1], flag, ("this",)):
                    if not made or obj == "channel" and ok is not True:
                        ex.report(st, fr, nid, "it counts as set up before it is")
                    if not held(st, lock):
                        ex.report(st, fr, nid, "it is marked as set up without its lock")
                    return (known, made, ok, bool(const(ev[2])))
            if ev[0] == "ret" and ev[3] == 0:
                c = const(ev[1])
                if c is None:
                    return s
                if c and not (flagged or known == "set"):
                    ex.report(st, fr, ev[2], "success is reported although it is not set up")
                if not c and (flagged or known == "set"):
                    ex.report(st, fr, ev[2], "failure is reported although it is set up")
                if not c and made:
                    ex.report(st, fr, ev[2], "a channel that cannot be used is kept")
            return s
        automaton(R, P, f, "D01.init", f.name, (None, False, None, False), step, any_of(calls_named("Init"), writes_field(flag, obj)), None, this_cls=SC, boundary=[SIMPLE + "::Init"])


def handlers(R, P):
    for name in ("OnAddressAdded", "OnAddressRemoved"):
        f = P.fn("EventHandlerImp::" + name)

        def step(ex, st, fr, ev, s):
            alive, told = s
            if ev[0] == "branch":
                x, xr = test_of(ev)
                if is_call(x, "lock"):
                    return (xr, told)
            if ev[0] == "call" and ev[1].startswith(D + "::"):
                if ev[1] != D + "::" + name or unwrap(ev[3][0]) != p(f, 0):
                    ex.report(st, fr, ev[4], "the channel is told something else")
                if alive is not True:
                    ex.report(st, fr, ev[4], "a channel is told that may no longer exist")
                return (alive, min(told + 1, 2))
            return s

        def fin(ex, st, fr, s):
            if s[0] is not False and s[1] != 1:
                ex.report(st, fr, -1, "the channel is told %d times" % s[1])
        automaton(R, P, f, "D01.address", f.name, (None, 0), step, calls_named(name), fin, this_cls="EventHandlerImp", boundary=[D + "::" + name])
