"""Lifecycle: starting and stopping clients and servers, thread groups."""
from lib import *
from rules.calls import where, const, at, loop_test
from rules.server import p, mentions
from rules.wire import lin

C, S, TG = "RpcClientImpl", "RpcServerImpl", "ThreadGroupImpl"


def fld_of(loc, cls):
    """name of the member of this object a location or value denotes"""
    while loc and loc[0] in ("ld", "ref"):
        loc = loc[1]
    if loc and loc[0] == "F" and loc[1] == ("this",) and loc[2].startswith(cls + "::"):
        return loc[2].split("::")[-1]
    return None


def running_test(ev, cls):
    t, tr = test_of(ev)
    if t[0] == "ld" and fld_of(t, cls) == "_is_running":
        return tr
    return None


def held(st, lock):
    return any(locis(l, lock) for l, _ in st.locks)


STOPS = ("ThreadGroupImpl::stop", "RpcTimeoutManager::stop", "TimerWorker::stop", "RpcByteStream::close", "RpcListener::close", "IOServicePool::Stop")


def stop_automaton(R, P, cls, rule, box, what, pre, need, off_lock):
    """what: event fact by (callee, field); pre: fact -> facts that come first; need: facts at the end"""
    f = P.fn(cls + "::Stop")

    # state: (running, facts, boxes, element waiting to be closed)
    def step(ex, st, fr, ev, s):
        run, facts, boxes, cur = s
        nid = ev[4] if ev[0] in ("branch", "call", "write") and len(ev) > 4 else -1

        def fact(x, why):
            miss = [y for y in pre.get(x, ()) if y not in facts]
            if run is not True and x != "off":
                ex.report(st, fr, nid, "%s although it is not known that the %s runs" % (why, what["name"]))
            if miss:
                ex.report(st, fr, nid, "%s before %s" % (why, " and ".join(what["text"][y] for y in miss)))
            return (run, facts | {x}, boxes, cur)
        if ev[0] == "branch":
            r = running_test(ev, cls)
            if r is not None and run is None:
                if not held(st, "_start_stop_lock"):
                    ex.report(st, fr, nid, "whether the %s runs is asked without the lock that serialises starting and stopping" % what["name"])
                return (r, facts, boxes, cur)
            for b in boxes:
                m = loop_test(ev[1], ev[2], b)
                if m is True:
                    if cur:
                        ex.report(st, fr, nid, "a stream is passed over without being closed")
                    return (run, facts, boxes, True)
                if m is False:
                    if cur:
                        ex.report(st, fr, nid, "a stream is passed over without being closed")
                    return fact("streams", "the streams are closed")[:3] + (False,)
            return s
        if ev[0] == "write":
            q = fld_of(ev[1], cls)
            if q == "_is_running":
                if const(ev[2]) == 0:
                    if off_lock and not held(st, off_lock):
                        ex.report(st, fr, nid, "the %s stops running without %s" % (what["name"], off_lock))
                    if not held(st, "_start_stop_lock"):
                        ex.report(st, fr, nid, "the %s stops running without the lock that serialises starting and stopping" % what["name"])
                    return (run, facts | {"off"}, boxes, cur)
                ex.report(st, fr, nid, "stopping leaves the %s running" % what["name"])
            if q and ev[2] == NULL and ("gone " + q) in what["text"]:
                return fact("gone " + q, what["text"]["gone " + q])
            return s
        if ev[0] == "advance":
            if cur and any(mentions(ev[3], b) or mentions(ev[2], b) for b in boxes) or cur and ev[1][0] == "L":
                ex.report(st, fr, nid, "a stream is passed over without being closed")
            return s
        if ev[0] == "call":
            x, recv = ev[1], ev[2]
            if x == "RpcByteStream::close" and recv:
                return (run, facts, boxes, False)
            if recv is not None and short(x) in ("operator=", "swap", "insert") and ev[3] and any(mentions(a, b) for a in ev[3] for b in boxes) and recv not in boxes:
                return (run, facts, boxes | {recv}, cur)
            if recv in boxes and short(x) in ("clear", "erase") and recv == box(P):
                return fact("clear", "the streams are forgotten") if "clear" in what["text"] else s
            q = fld_of(recv, cls) if recv else None
            y = what["calls"].get((x, q))
            if y:
                return fact(y, what["text"][y])
        if ev[0] == "object" and any(mentions(a, b) for a in ev[3] for b in boxes):
            return (run, facts, boxes | {ev[2]}, cur)
        return s

    def fin(ex, st, fr, s):
        run, facts, boxes, cur = s
        if run is None:
            ex.report(st, fr, -1, "stopping does not ask whether the %s runs" % what["name"])
        if run is True:
            for y in need:
                alt = y if isinstance(y, tuple) else (y,)
                if not any(z in facts for z in alt):
                    ex.report(st, fr, -1, "stopping ends without this: %s" % what["text"][alt[0]])
    automaton(R, P, f, rule, f.name, (None, frozenset(), frozenset([box(P)]), False), step,
              calls_named("stop", "Stop", "close", "reset", "clear", "begin"), fin, this_cls=cls, boundary=list(STOPS))


def client_rules(R, P):
    R.rule("F01.client", "a client runs only once every part of it has been started, and stopping it stops accepting calls, timeouts and maintenance, closes every stream, and then the threads in the order their work depends on each other, before anything is destroyed")
    text = {"off": "calls are refused", "timeouts": "timeouts are stopped", "timer": "maintenance is stopped", "streams": "every stream is closed", "work": "the work threads are stopped",
            "callback": "the callback threads are stopped", "maintain": "the maintenance threads are stopped", "clear": "the streams are forgotten",
            "gone _timeout_manager": "the timeout manager is destroyed", "gone _timer_worker": "the maintenance timer is destroyed",
            "gone _flow_controller": "the flow controller is destroyed", "gone _work_thread_group": "the work threads are destroyed",
            "gone _callback_thread_group": "the callback threads are destroyed", "gone _maintain_thread_group": "the maintenance threads are destroyed"}
    calls = {("RpcTimeoutManager::stop", "_timeout_manager"): "timeouts", ("TimerWorker::stop", "_timer_worker"): "timer", ("ThreadGroupImpl::stop", "_work_thread_group"): "work",
             ("ThreadGroupImpl::stop", "_callback_thread_group"): "callback", ("ThreadGroupImpl::stop", "_maintain_thread_group"): "maintain"}
    pre = {"timeouts": ("off",), "timer": ("off",), "streams": ("off",), "clear": ("streams",), "work": ("streams",), "callback": ("work",), "maintain": ("timeouts", "timer"),
           "gone _timeout_manager": ("timeouts", "work"), "gone _timer_worker": ("timer",), "gone _flow_controller": ("maintain",),
           "gone _work_thread_group": ("streams",), "gone _callback_thread_group": ("streams", "work", "maintain"), "gone _maintain_thread_group": ("timeouts", "timer")}
    need = ("off", "timeouts", "timer", "streams", ("work", "gone _work_thread_group"), ("callback", "gone _callback_thread_group"), ("maintain", "gone _maintain_thread_group"))
    what = {"name": "client", "text": text, "calls": calls}
    stop_automaton(R, P, C, "F01.client", lambda P: ("F", ("this",), C + "::_stream_map"), what, pre, need, None)
    start_automaton(R, P, C, "F01.client", "client",
                    {"_work_thread_group": "ThreadGroupImpl::start", "_callback_thread_group": "ThreadGroupImpl::start", "_maintain_thread_group": "ThreadGroupImpl::start",
                     "_timer_worker": "TimerWorker::start", "_timeout_manager": "RpcTimeoutManager::start"}, {}, ("_flow_controller",), None, False)


def server_rules(R, P):
    R.rule("F01.server", "Start() of a server succeeds only when its threads run and it listens, and otherwise leaves nothing running; Stop() stops accepting, closes listener and streams and then ends the threads")
    text = {"off": "requests are refused", "timer": "maintenance is stopped", "listener": "the listener is closed", "streams": "every stream is closed", "clear": "the streams are forgotten",
            "pool": "the work threads are stopped", "maintain": "the maintenance thread is stopped", "gone _listener": "the listener is destroyed", "gone _timer_worker": "the maintenance timer is destroyed",
            "gone _io_service_pool": "the work threads are destroyed", "gone _maintain_thread_group": "the maintenance thread is destroyed", "gone _flow_controller": "the flow controller is destroyed"}
    calls = {("TimerWorker::stop", "_timer_worker"): "timer", ("RpcListener::close", "_listener"): "listener", ("IOServicePool::Stop", "_io_service_pool"): "pool",
             ("ThreadGroupImpl::stop", "_maintain_thread_group"): "maintain"}
    pre = {"timer": ("off",), "listener": ("off", "timer"), "streams": ("off", "listener"), "clear": ("streams",), "pool": ("streams",), "maintain": ("timer",), "gone _listener": ("listener",),
           "gone _timer_worker": ("timer",), "gone _io_service_pool": ("streams",), "gone _maintain_thread_group": ("timer",), "gone _flow_controller": ("maintain",)}
    need = ("off", "timer", "listener", "streams", ("pool", "gone _io_service_pool"), ("maintain", "gone _maintain_thread_group"))
    what = {"name": "server", "text": text, "calls": calls}
    stop_automaton(R, P, S, "F01.server", lambda P: ("F", ("this",), S + "::_stream_set"), what, pre, need, "_listener_lock")
    start_automaton(R, P, S, "F01.server", "server", {"_timer_worker": "TimerWorker::start"},
                    {"_maintain_thread_group": "ThreadGroupImpl::start", "_io_service_pool": "IOServicePool::Run", "_listener": "RpcListener::start_listen", "": "ResolveAddress"},
                    ("_flow_controller",), "_listener_lock", True)


def use_rules(R, P):
    """what stopping takes away is used elsewhere only where it is known to be there"""
    R.rule("F01.use", "what stopping a client or server takes away is used, by calls and queries that may race it, only under a lock that stopping takes too and after asking for it there, or on threads that have ended by then")
    for cls, threads in ((C, {"ThreadGroupImpl::stop": {"_maintain_thread_group": ("TimerMaintain",), "_work_thread_group": ()}}),
                         (S, {"ThreadGroupImpl::stop": {"_maintain_thread_group": ("TimerMaintain",)}, "IOServicePool::Stop": {"_io_service_pool": ("OnCreated", "OnAccepted", "OnAcceptFailed", "OnReceived")}})):
        stop = P.fn(cls + "::Stop")
        gone, off = {}, {}

        # state: threads that have ended, flags cleared and the locks held then
        def step(ex, st, fr, ev, s):
            if ev[0] == "call" and ev[1] in threads and ev[2] is not None and fld_of(ev[2], cls) in threads[ev[1]]:
                return s | frozenset(threads[ev[1]][fld_of(ev[2], cls)])
            if ev[0] == "write" and fld_of(ev[1], cls):
                q = fld_of(ev[1], cls)
                locks = frozenset(fld_of(l, cls) for l, _ in st.locks)
                if q == "_is_running" and const(ev[2]) == 0:
                    return s | {("off", l) for l in locks}
                if P_is_ptr(P, cls, q) and const(ev[2]) == 0:
                    a, b = gone.get(q, (None, None))
                    here = s
                    gone[q] = (locks if a is None else a & locks, here if b is None else b & here)
            return s
        RR = Result("x", "x")
        RR.rule("x", "x")
        automaton(RR, P, stop, "x", "x", frozenset(), step, any_of(calls_named("stop", "Stop", "close", "reset", "swap"), mentions_field("_is_running")), this_cls=cls, boundary=list(STOPS))
        if not gone:
            R.ok("F01.use", "%s: nothing is taken away" % cls)
            continue
        inside = {cls + "::Start", cls + "::Stop"}
        callers = callers_of(P)

        def only_inside(g, seen=()):
            if g.name in inside or special(g):
                return True
            cs = callers.get(g.key) or ()
            return bool(cs) and g.key not in P._refd and g.key not in seen and all(only_inside(P.fns[c], seen + (g.key,)) for c in cs)
        for g in sorted(P.fns.values(), key=lambda g: g.key):
            if g.cls != cls or only_inside(g):
                continue
            used = {short(n["fld"]) for n in g.nodes if n["k"] == "mem" and n["fld"].startswith(cls + "::") and short(n["fld"]) in gone}
            if not used or (is_helper(P, g) and all(P.fns[c].cls == cls for c in callers.get(g.key, ()))):
                continue
            check_use(R, P, cls, g, gone)


def late_rules(R, P):
    R.rule("F01.late", "a connection is entered among those that stopping closes only in a locked section that finds the client or server running, so none is left open by a stop")
    for cls, box, lock in ((C, "_stream_map", "_stream_map_lock"), (S, "_stream_set", "_stream_set_lock")):
        n = 0
        for g in sorted(P.fns.values(), key=lambda g: g.key):
            if g.cls != cls or special(g) or not any(x["k"] == "mem" and x["fld"] == cls + "::" + box for x in g.nodes):
                continue
            entered = []

            # state: found running in this section
            def step(ex, st, fr, ev, s):
                if ev[0] in ("lock", "unlock") and locis(ev[1], lock):
                    return False
                if ev[0] == "branch":
                    t, tr = test_of(ev)
                    if t[0] == "ld" and fld_of(t, cls) == "_is_running":
                        return tr and held(st, lock)
                if ev[0] == "call" and short(ev[1]) in ("insert", "emplace", "operator[]") and ev[2] is not None and fld_of(ev[2], cls) == box:
                    entered.append(1)
                    if not s:
                        ex.report(st, fr, ev[4], "a connection may be entered after stopping has closed those there were")
                return None
            RR = Result("F01", "x")
            RR.rule("F01.late", "x")
            _, ex = automaton(RR, P, g, "F01.late", g.name, False, step, any_of(calls_named("insert", "emplace", "operator[]"), mentions_field("_is_running", lock)), this_cls=cls)
            if entered:
                n += 1
                R.absorb(ex, "F01.late", g.name)
        if not n:
            R.bad("F01.late", cls, "src/sofa/pbrpc", "no connection is entered among those that stopping closes")


def special(g):
    return g.name.endswith("{ctor}") or g.name.endswith("{dtor}")


def P_is_ptr(P, cls, q):
    t = P.field_type(cls + "::" + q)
    t = t if isinstance(t, str) else (t or {}).get("n", "")
    return "Ptr" in t or "_ptr<" in t or t.endswith("*")


def check_use(R, P, cls, g, gone):
    name = short(g.name)

    # state: (member or flag, lock) pairs known to hold
    def step(ex, st, fr, ev, s):
        if ev[0] == "unlock":
            return frozenset(x for x in s if x[1] != fld_of(ev[1], cls))
        if ev[0] == "branch":
            t, tr = test_of(ev)
            q = fld_of(t, cls) if t[0] == "ld" else None
            if q and tr and (q in gone or q == "_is_running"):
                return s | {(q, fld_of(l, cls)) for l, _ in st.locks}
        if ev[0] == "write" and fld_of(ev[1], cls) in gone and ev[2] != NULL:
            return s | {(fld_of(ev[1], cls), fld_of(l, cls)) for l, _ in st.locks}
        if ev[0] == "call" and ev[2] is not None and fr.fn.nodes[ev[4]]["k"] == "mcall":
            q = fld_of(ev[2], cls)
            if q in gone and short(ev[1]) not in ("reset", "swap", "get", "operator=", "{conv}"):
                locks, known = gone[q]
                if name in known:
                    return None
                held_now = {fld_of(l, cls) for l, _ in st.locks}
                if not any(((q, l) in s and l in locks) or (("_is_running", l) in s and ("off", l) in known) or (l in locks and l == "_start_stop_lock" and ("_is_running", l) in s)
                           for l in held_now):
                    ex.report(st, fr, ev[4], "%s is used although stopping may have taken it away" % q)
        return None
    automaton(R, P, g, "F01.use", g.name, frozenset(), step, lambda f, nid, n: f.cls == cls and n["k"] == "mem" and short(n["fld"]) in tuple(gone) + ("_is_running",), this_cls=cls,
              boundary=sorted({f.name for f in P.fns.values() if f.cls and f.cls != cls and "Lock" not in f.cls}))


def start_automaton(R, P, cls, rule, name, started, succeeded, created, on_lock, returns):
    """started: member -> call made on it; succeeded: member -> call that must have returned true"""
    f = P.fn(cls + "::Start")
    parts = {v: k for k, v in succeeded.items()}
    begun = set(started.values())

    # state: (running, facts, members set)
    def step(ex, st, fr, ev, s):
        run, facts, have = s
        nid = ev[4] if ev[0] in ("branch", "call", "write") and len(ev) > 4 else -1
        if ev[0] == "branch":
            r = running_test(ev, cls)
            if r is not None and run is None:
                if not held(st, "_start_stop_lock"):
                    ex.report(st, fr, nid, "whether the %s runs is asked without the lock that serialises starting and stopping" % name)
                return (r, facts, have)
            t, tr = test_of(ev)
            if t[0] == "call" and t[1] in parts:
                q = parts[t[1]]
                x = (t[1], t[2] if q else None)
                return (run, (facts | {x}) if tr else facts - {x}, have)
            return s
        if ev[0] == "write":
            q = fld_of(ev[1], cls)
            if q == "_is_running":
                if const(ev[2]) == 0:
                    return (run, facts - {"on"}, have)
                if run is not False:
                    ex.report(st, fr, nid, "the %s is started although it may run already" % name)
                if on_lock and not held(st, on_lock) or not held(st, "_start_stop_lock"):
                    ex.report(st, fr, nid, "the %s starts to run without its lock" % name)
                own = dict(have)
                for m, c in sorted(started.items()):
                    if (c, own.get(m)) not in facts:
                        ex.report(st, fr, nid, "the %s runs before %s has been started" % (name, m))
                for m, c in sorted(succeeded.items(), key=str):
                    if (c, own.get(m)) not in facts:
                        ex.report(st, fr, nid, "the %s runs although %s has not succeeded" % (name, c))
                for m in created:
                    if m not in own:
                        ex.report(st, fr, nid, "the %s runs without %s" % (name, m))
                return (run, facts | {"on"}, have)
            if q and (q in started or q in succeeded or q in created):
                have = frozenset(x for x in have if x[0] != q)
                return (run, facts, have if ev[2] == NULL else have | {(q, ev[2])})
            return s
        if ev[0] == "call" and ev[2] is not None:
            if ev[1] in begun:
                return (run, facts | {(ev[1], ev[2])}, have)
            # stopped by hand
            if short(ev[1]) in ("stop", "Stop", "close"):
                return (run, facts, frozenset(x for x in have if x[1] != ev[2]))
        return s

    def fin(ex, st, fr, s):
        run, facts, have = s
        if run is None:
            ex.report(st, fr, -1, "starting does not ask whether the %s runs" % name)
        if run is True and "on" in facts:
            ex.report(st, fr, -1, "a running %s is started again" % name)
        if run is False and not returns and "on" not in facts:
            ex.report(st, fr, -1, "starting ends without the %s running" % name)

    def step2(ex, st, fr, ev, s):
        if ev[0] == "ret" and ev[3] == 0 and returns:
            run, facts, have = s
            r = retbool(ex, st, ev[1])
            nid = ev[2]
            if run is False:
                if r is not False and "on" not in facts:
                    ex.report(st, fr, nid, "Start() reports success although the %s does not run" % name)
                if r is not True:
                    if "on" in facts:
                        ex.report(st, fr, nid, "Start() reports failure although the %s runs" % name)
                    for m in sorted(x for x, _ in have if x in succeeded or x in started):
                        ex.report(st, fr, nid, "Start() fails but leaves %s behind" % m)
            if run is True and r is not True:
                ex.report(st, fr, nid, "starting a running %s reports failure" % name)
        return step(ex, st, fr, ev, s)
    automaton(R, P, f, rule, f.name, (None, frozenset(), frozenset()), step2,
              calls_named("start", "Run", "start_listen", "ResolveAddress", "reset"), fin, this_cls=cls,
              boundary=["ThreadGroupImpl::start", "ThreadGroupImpl::stop", "IOServicePool::Run", "IOServicePool::Stop", "RpcListener::start_listen", "RpcListener::close", "ResolveAddress", "TimerWorker::start", "RpcTimeoutManager::start"])


ENDS = (
    ("RpcClient::{dtor}", "RpcClientImpl::Stop"), ("RpcClient::Shutdown", "RpcClientImpl::Stop"), ("RpcClientImpl::{dtor}", "RpcClientImpl::Stop"), ("RpcClient::{ctor}", "RpcClientImpl::Start"),
    ("RpcServer::{dtor}", "RpcServerImpl::Stop"), ("RpcServer::Stop", "RpcServerImpl::Stop"), ("RpcServerImpl::{dtor}", "RpcServerImpl::Stop"), ("RpcServer::Start", "RpcServerImpl::Start"),
    ("ThreadGroup::{ctor}", "ThreadGroupImpl::start"), ("ThreadGroup::{dtor}", "ThreadGroupImpl::stop"), ("ThreadGroupImpl::{dtor}", "ThreadGroupImpl::stop"),
    ("TimeoutManager::{ctor}", "TimeoutManagerImpl::start"), ("TimeoutManager::{dtor}", "TimeoutManagerImpl::stop"), ("TimeoutManagerImpl::{dtor}", "TimeoutManagerImpl::stop"),
    ("RpcTimeoutManager::{dtor}", "RpcTimeoutManager::stop"), ("RpcChannel::{dtor}", "RpcChannelImpl::Stop"), ("RpcListener::{dtor}", "RpcListener::close"))




def end_rules(R, P):
    R.rule("F01.end", "the public objects start what they stand for when made, and stop it when destroyed or told to")
    for a, b in ENDS:
        for f in sorted((g for g in P.fns.values() if g.name == a), key=lambda g: g.key):
            if a.endswith("{ctor}") and len(f.params) == 1 and f.cls and short(f.cls) in (f.types[f.vars[f.params[0]]["t"]]["n"]):
                continue        # a copy

            # state: called, what the call was found to return
            def step(ex, st, fr, ev, s):
                if ev[0] == "call" and ev[1] == b:
                    return (True, None)
                if ev[0] == "branch":
                    t, tr = test_of(ev)
                    if is_call(t, b):
                        return (True, tr)
                if ev[0] == "ret" and ev[3] == 0 and a == "RpcServer::Start":
                    if not any(is_call(x, b) for x in subterms(ev[1])) and (s[1] is None or retbool(ex, st, ev[1]) is not s[1]):
                        ex.report(st, fr, ev[2], "Start() does not report what came of it")
                return s

            def fin(ex, st, fr, s):
                if not s[0]:
                    ex.report(st, fr, -1, "%s can end without %s" % (f.name, b))
            automaton(R, P, f, "F01.end", "%s: %s" % (f.key, b), (False, None), step, calls_named(short(b)), fin, this_cls=f.cls, boundary=[b])


# ------------------------------------------------------------------ F02
def more(t, tr, bound):
    """a loop test: True/False whether an index below the bound is left; bound(term)"""
    t, tr = unneg(t, tr)
    if t[0] == "lt":
        if bound(unwrap(t[2])):
            return tr
        if bound(unwrap(t[1])):     # bound < c
            return not tr
    if t[0] == "eq" and (bound(unwrap(t[1])) or bound(unwrap(t[2]))):
        return not tr
    return None


def thread_num(t):
    return is_ld(t, "ThreadGroupImpl::_thread_num")


def base(t):
    while t and t[0] in ("F", "E", "ld", "ref"):
        t = t[1]
    return t


def group_rules(R, P):
    R.rule("F02.start", "every thread of a group gets its own parameters, complete before it runs; starting succeeds only when every thread was created and initialised, and otherwise ends the threads there are and fails")
    R.rule("F02.thread", "a thread runs its init function once and first, tells how that went, takes work only if it went well, and runs its end function once, last")
    R.rule("F02.stop", "stopping lets the threads run out of work, and returns only after every one has ended")
    R.rule("F02.pool", "a pool runs only when each of its groups does, hands every group its functions, stops them all, and gives out only services it has")
    R.rule("F02.post", "work posted to a group runs once")
    start_threads(R, P)
    run_thread(R, P)
    join_threads(R, P)
    pools(R, P)
    posts(R, P)


def start_threads(R, P):
    f = P.fn("ThreadGroupImpl::start")
    PAR = "ThreadGroupImpl::ThreadParam::"
    loc_of, counted, scans, equal = {}, {}, [], []
    index = set()       # locals that elements are taken by

    def local(n):
        n = f.nodes[n]
        return local(n["x"]) if n["k"] == "cast" else ("L", f.key, n["i"]) if n["k"] == "var" else None
    for n in f.nodes:
        if n["k"] == "sub":
            index.add(local(n["y"]))

    # state: running, facts about the parameters of the next thread, work, outcome, index that failed, last readiness, locals that are 0, a thread was seen that is not ready
    def step(ex, st, fr, ev, s):
        run, par, work, out, bad, ready, zero, wait = s
        if ev[0] == "branch":
            t, tr = test_of(ev)
            if t[0] == "ld" and fld_of(t, TG) == "_is_running":
                return (tr if run is None else run, par, work, out, bad, ready, zero, wait)
            if is_call(t, "pthread_create"):
                if tr:
                    return (run, par, work, "uncreated", t[3][3][2] if t[3][3][0] == "E" else None, ready, zero, wait)
                return s
            u, utr = unneg(ev[1], ev[2])
            if u[0] == "eq":
                a, c = (u[1], const(u[2])) if const(u[2]) is not None else (u[2], const(u[1]))
                a = unwrap(a)
                if has_field(a, PAR + "init_done") and c in (0, 1):
                    r = utr == (c == 1)
                    e = [x for x in subterms(a) if x[0] == "E"]
                    first = bool(e) and const(e[0][2]) == 0
                    if first:
                        scans.append(zero)
                    return (run, par, work, out, bad, r, zero, (wait and not first) or not r)
                if has_field(a, PAR + "init_fail") and c in (0, 1):
                    if utr == (c == 1):
                        return (run, par, work, out or "unfit", bad, ready, zero, wait)
                    return (run, par, work, out, bad, "fit" if ready is True else ready, zero, wait)
                for x, y in ((u[1], u[2]), (u[2], u[1])):
                    if thread_num(unwrap(x)) and y[0] == "upd" and utr:
                        equal.append(y[1])
                    if thread_num(unwrap(x)) and utr:
                        wait = False
            elif u[0] == "lt" and not utr and thread_num(unwrap(u[2])) and u[1][0] == "upd" and loc_of.get(u[1][1]) in counted and loc_of[u[1][1]] not in index:
                equal.append(u[1][1])
                wait = False
            return (run, par, work, out, bad, ready, zero, wait)
        if ev[0] == "write":
            q = fld_of(ev[1], TG)
            if q == "_is_running":
                return (True if run is None and const(ev[2]) else run, par, work, out, bad, ready, zero, wait)
            if q == "_thread_num" and out == "uncreated":
                if unwrap(ev[2]) != bad:
                    ex.report(st, fr, ev[4], "the threads there are get counted wrong")
                return (run, par, work, "counted", bad, ready, zero, wait)
            if q == "_io_service_work":
                return (run, par, ev[2] != NULL, out, bad, ready, zero, wait)
            if ev[1][0] == "F" and ev[1][2].startswith(PAR):
                want = {"io_service": lambda v: has_field(v, "ThreadGroupImpl::_io_service"), "init_func": lambda v: is_ld(v, "ThreadGroupImpl::_init_func"), "dest_func": lambda v: is_ld(v, "ThreadGroupImpl::_dest_func")}
                x = ev[1][2][len(PAR):]
                if x in want:
                    return (run, (par | {(ev[1][1], x)}) if want[x](ev[2]) else par - {(ev[1][1], x)}, work, out, bad, ready, zero, wait)
            if ev[1][0] == "L" and fr.fn.key == f.key:
                if ev[3] in ("++", "+="):
                    loc_of[(f.key, ev[4])] = ev[1]
                    counted.setdefault(ev[1], []).append(ready == "fit")
                    return (run, par, work, out, bad, ready, zero - {ev[1]}, wait)
                return (run, par, work, out, bad, ready, zero | {ev[1]} if const(ev[2]) == 0 else zero - {ev[1]}, wait)
            return s
        if ev[0] == "call":
            x = short(ev[1])
            if x == "pthread_create":
                a = ev[3]
                if not any(y[0] == "fn" and TG + "::thread_run" in str(y) for y in subterms(a[2])):
                    ex.report(st, fr, ev[4], "a thread of the group runs something else")
                for y, text in (("io_service", "work"), ("init_func", "init function"), ("dest_func", "end function")):
                    if (a[3], y) not in par:
                        ex.report(st, fr, ev[4], "a thread is created before it has been given its %s" % text)
                if a[0][0] != "E" or a[3][0] != "E" or a[0][2] != a[3][2]:
                    ex.report(st, fr, ev[4], "threads do not have parameters of their own")
                if not work:
                    ex.report(st, fr, ev[4], "threads are created while there is no work to keep them")
                return (run, frozenset(), work, out, bad, ready, zero, wait)
            if ev[1] == TG + "::stop" and ev[2] == ("this",):
                if out == "uncreated":
                    ex.report(st, fr, ev[4], "threads that were not created are waited for")
                return (run, par, False, "stopped", bad, ready, zero, wait)
        if ev[0] == "ret" and ev[3] == 0:
            r = retbool(ex, st, ev[1])
            if out in ("uncreated", "counted", "unfit"):
                ex.report(st, fr, ev[2], "a group that could not be started is left half running")
            if out == "stopped" and r is not False:
                ex.report(st, fr, ev[2], "starting reports success although a thread could not be created or initialised")
            if out is None and r is not False and wait:
                ex.report(st, fr, ev[2], "starting reports success although a thread may not be initialised")
            if out is None and r is not True:
                ex.report(st, fr, ev[2], "starting fails although nothing went wrong")
        return s
    ex0 = automaton(R, P, f, "F02.start", f.name, (None, frozenset(), False, None, None, None, frozenset(), False), step,
                    calls_named("pthread_create", "stop"), this_cls=TG, boundary=[TG + "::stop"])[1]
    # the count of finished threads that ends the waiting
    for u in sorted(set(equal), key=str):
        l = loc_of.get(u)
        if l is None:
            continue
        R.decide("F02.start", "count of initialised threads: only those that are ready", all(counted.get(l, [False])), where(f), "a thread counts as initialised before its init function has ended well")
        R.decide("F02.start", "count of initialised threads: starts again with every pass", all(l in z for z in scans), where(f), "the count of initialised threads is carried over from one pass to the next")
    R.decide("F02.start", "waits for the init functions", bool(scans), where(f), "starting does not ask whether the threads are initialised")


def run_thread(R, P):
    f = P.fn("ThreadGroupImpl::thread_run")
    PAR = "ThreadGroupImpl::ThreadParam::"

    # state: init (None untested, "none", "run", "ok", "bad"), told failed, told done, ran, end ("", "none", "run"), impossible
    def step(ex, st, fr, ev, s):
        init, failed, done, ran, end, dead = s
        if dead:
            return s
        if ev[0] == "branch":
            t, tr = test_of(ev)
            if is_call(t, "Run") and t[2] and has_field(t[2], PAR + "init_func"):
                return ("ok" if tr else "bad", failed, done, ran, end, dead)
            if t[0] == "ld" and locis(t[1], PAR + "init_func") and not tr:
                return ("none", failed, done, ran, end, dead)
            if t[0] == "ld" and locis(t[1], PAR + "dest_func") and not tr:
                return (init, failed, done, ran, "none", dead)
            if has_field(t, PAR + "init_fail") and t[0] != "call":
                return (init, failed, done, ran, end, tr != failed)
            return s
        if ev[0] == "rmw" and ev[1][0] == "F":
            if has_field(ev[1], PAR + "init_fail"):
                if init != "bad":
                    ex.report(st, fr, ev[3], "a thread reports a failed init function that did not fail")
                if done:
                    ex.report(st, fr, ev[3], "a thread reports that its init function failed after reporting that it is done")
                return (init, True, done, ran, end, dead)
            if has_field(ev[1], PAR + "init_done"):
                if init not in ("none", "ok", "bad"):
                    ex.report(st, fr, ev[3], "a thread reports that it is initialised before its init function has run")
                if init == "bad" and not failed:
                    ex.report(st, fr, ev[3], "a failed init function is not reported")
                if done:
                    ex.report(st, fr, ev[3], "a thread reports twice that it is initialised")
                return (init, failed, True, ran, end, dead)
        if ev[0] == "call":
            x = short(ev[1])
            if x == "Run" and ev[2] and has_field(ev[2], PAR + "init_func"):
                if init is not None or ran:
                    ex.report(st, fr, ev[4], "the init function runs twice, or after work")
                return ("run", failed, done, ran, end, dead)
            if x == "Run" and ev[2] and has_field(ev[2], PAR + "dest_func"):
                if end == "run":
                    ex.report(st, fr, ev[4], "the end function runs twice")
                if init not in ("bad",) and not ran:
                    ex.report(st, fr, ev[4], "the end function runs before the work")
                return (init, failed, done, ran, "run", dead)
            if x in ("run", "poll", "run_one") and ev[2] and has_field(ev[2], PAR + "io_service"):
                if init == "bad":
                    ex.report(st, fr, ev[4], "a thread whose init function failed takes work")
                if not done:
                    ex.report(st, fr, ev[4], "a thread takes work before reporting that it is initialised")
                if end == "run":
                    ex.report(st, fr, ev[4], "a thread takes work after its end function")
                if x != "run":
                    ex.report(st, fr, ev[4], "a thread does not stay for work")
                return (init, failed, done, True, end, dead)
        return s

    def fin(ex, st, fr, s):
        init, failed, done, ran, end, dead = s
        if dead:
            return
        if not done:
            ex.report(st, fr, -1, "a thread ends without having reported whether it was initialised")
        if init in ("none", "ok") and not ran:
            ex.report(st, fr, -1, "an initialised thread takes no work")
        if end == "":
            ex.report(st, fr, -1, "a thread ends without its end function")
    automaton(R, P, f, "F02.thread", f.name, (None, False, False, False, "", False), step, calls_named("Run", "run", "operator++", "fetch_add"), fin, boundary=["ExtClosure::Run"])


def join_threads(R, P):
    f = P.fn("ThreadGroupImpl::stop")

    starts = {}

    def last(t):
        """the index of the last thread, less so many"""
        l = lin(t)
        if [q for q, c in l.items() if q != 1] and all(thread_num(q) and c == 1 for q, c in l.items() if q != 1):
            return -1 - l.get(1, 0)
        return None

    # state: running, off, work deleted, thread waited for is due (1: the first), all waited for
    def step(ex, st, fr, ev, s):
        run, off, work, due, done = s
        if ev[0] == "write" and ev[1][0] == "L":
            starts.setdefault((ev[1][1], ev[4]), lin(ev[2]))
        if ev[0] == "branch":
            t, tr = test_of(ev)
            if t[0] == "ld" and fld_of(t, TG) == "_is_running":
                return (tr if run is None else run, off, work, due, done)
            m = more(ev[1], ev[2], thread_num)
            u, utr = unneg(ev[1], ev[2])
            if m is None and u[0] == "lt" and const(u[2]) == 0 and (unwrap(u[1])[0] == "upd" or last(u[1]) is not None):
                m = not utr
            if m is not None:
                if due:
                    ex.report(st, fr, ev[3], "a thread is not waited for")
                return (run, off, work, (1 if due is None else 2) if m else 0, done or not m)
        if ev[0] == "del":
            if has_field(ev[1], TG + "::_io_service_work"):
                return (run, off, True, due, done)
            if (has_field(ev[1], TG + "::_threads") or has_field(ev[1], TG + "::_thread_params")) and not done:
                ex.report(st, fr, ev[3], "what the threads use is destroyed before they have ended")
        if ev[0] == "write" and fld_of(ev[1], TG) == "_is_running":
            return (run, const(ev[2]) == 0, work, due, done)
        if ev[0] == "write" and ev[3] == "reset" and ev[2] == NULL and fld_of(ev[1], TG) == "_io_service_work":
            return (run, off, True, due, done)
        if ev[0] == "call" and short(ev[1]) == "pthread_join":
            if not work:
                ex.report(st, fr, ev[4], "a thread that is kept by work is waited for")
            if not has_field(ev[3][0], TG + "::_threads"):
                ex.report(st, fr, ev[4], "another thread is waited for")
            # an index counted up in the test of the loop shows what it was counted up to first
            e = [x for x in subterms(ev[3][0]) if x[0] == "E"]
            if due in (None, 1) and e and const(e[0][2]) != 0 and (e[0][2][0] != "upd" or starts.get(e[0][2][1]) != {}) and last(e[0][2]) != 0:
                ex.report(st, fr, ev[4], "the first thread is not waited for")
            return (run, off, work, 0, done)
        if ev[0] == "call" and short(ev[1]) == "stop" and ev[2] and has_field(ev[2], TG + "::_io_service"):
            ex.report(st, fr, ev[4], "stopping throws away posted work")
        return s

    def fin(ex, st, fr, s):
        run, off, work, due, done = s
        if run is not False:
            if not off:
                ex.report(st, fr, -1, "a stopped group still counts as running")
            if not done or not work:
                ex.report(st, fr, -1, "stopping ends before the threads have")
    automaton(R, P, f, "F02.stop", f.name, (None, False, False, None, False), step, calls_named("pthread_join", "stop"), fin, this_cls=TG)


def pools(R, P):
    IP = "IOServicePool"

    def size(t):
        return is_call(t, "size") and t[2] is not None and has_field(t[2], IP + "::_pool")

    def over(ev):
        m = more(ev[1], ev[2], size)
        return loop_test(ev[1], ev[2], ("F", ("this",), IP + "::_pool")) if m is None else m
    f = P.fn(IP + "::Run")

    # state: functions given to the next group, a group is due, failed, all done
    def step(ex, st, fr, ev, s):
        have, due, failed, done = s
        if ev[0] == "branch":
            t, tr = test_of(ev)
            if is_call(t, "start"):
                return (have, False, failed or not tr, done)
            m = over(ev)
            if m is not None:
                if due:
                    ex.report(st, fr, ev[3], "a group of the pool is not started, or its failure goes unnoticed")
                return (frozenset(), m, failed, done or not m)
        if ev[0] == "call" and ev[2] is not None:
            if ev[1] in (TG + "::set_init_func", TG + "::set_dest_func"):
                x = ev[1].split("_")[-2]
                return (have | {(x, unsite(ev[2]))}, due, failed, done) if is_ld(ev[3][0], "%s::_%s_func" % (IP, x)) else s
            if ev[1] == TG + "::start":
                for x, text in (("init", "init"), ("dest", "end")):
                    if (x, unsite(ev[2])) not in have:
                        ex.report(st, fr, ev[4], "a group is started without the %s function of the pool" % text)
        if ev[0] == "ret" and ev[3] == 0:
            r = retbool(ex, st, ev[1])
            if r is not False and failed:
                ex.report(st, fr, ev[2], "the pool reports success although one of its groups could not be started")
            if r is not False and (due or not done) and not failed:
                ex.report(st, fr, ev[2], "the pool reports success before all groups are started")
            if r is not True and not failed:
                ex.report(st, fr, ev[2], "the pool fails although its groups run")
        return s
    automaton(R, P, f, "F02.pool", f.name, (frozenset(), False, False, False), step, calls_named("start", "set_init_func", "set_dest_func"), this_cls=IP,
              boundary=[TG + "::start", TG + "::stop", TG + "::set_init_func", TG + "::set_dest_func"])
    f = P.fn(IP + "::Stop")

    def step(ex, st, fr, ev, s):
        due, done = s
        if ev[0] == "branch":
            m = over(ev)
            if m is not None:
                if due:
                    ex.report(st, fr, ev[3], "a group of the pool is not stopped")
                return (m, done or not m)
        if ev[0] == "call" and ev[1] == TG + "::stop" or ev[0] == "write" and ev[3] == "reset" and ev[2] == NULL:
            return (False, done)
        return s

    def fin(ex, st, fr, s):
        if s[0] or not s[1]:
            ex.report(st, fr, -1, "stopping the pool leaves groups running")
    automaton(R, P, f, "F02.pool", f.name, (False, False), step, calls_named("stop", "reset"), fin, this_cls=IP, boundary=[TG + "::stop"])
    f = P.fn(IP + "::GetIOService")

    # state: index may have reached the size?, looked up
    def step(ex, st, fr, ev, s):
        over_, used = s
        if ev[0] == "write" and fld_of(ev[1], IP) == "_next_service":
            v = unwrap(ev[2])
            safe = const(v) == 0 or any("%" in x[:2] and size(unwrap(x[-1])) for x in subterms(v))
            return (not safe, used)
        if ev[0] == "branch":
            t, tr = unneg(ev[1], ev[2])
            if t[0] == "eq" and (size(unwrap(t[1])) or size(unwrap(t[2]))) and not tr:
                return (False, used)
            if t[0] == "lt" and size(unwrap(t[2])) and tr or t[0] == "lt" and size(unwrap(t[1])) and not tr and False:
                return (False, used)
        if ev[0] == "call" and short(ev[1]) in ("operator[]", "at") and ev[2] and has_field(ev[2], IP + "::_pool"):
            if over_:
                ex.report(st, fr, ev[4], "a service beyond the end of the pool is given out")
            return (over_, True)
        return s

    def fin(ex, st, fr, s):
        if s[0]:
            ex.report(st, fr, -1, "the next service given out can be one beyond the end of the pool")
        if not s[1]:
            ex.report(st, fr, -1, "no service of the pool is given out")
    automaton(R, P, f, "F02.pool", f.name, (False, False), step, any_of(calls_named("io_service"), writes_field("_next_service")), fin, this_cls=IP, boundary=[TG + "::io_service"])


def posts(R, P):
    for nm in ("post", "dispatch"):
        for f in sorted((g for g in P.fns.values() if g.name == "ThreadGroup::" + nm), key=lambda g: g.key):
            def step(ex, st, fr, ev, s):
                if ev[0] == "call" and ev[1] in (TG + "::post", TG + "::dispatch"):
                    if not any(contains(a, lambda x: x == p(f, 0)) for a in ev[3]):
                        ex.report(st, fr, ev[4], "something else is posted")
                    return min(s + 1, 2)
                return s

            def fin(ex, st, fr, s):
                if s != 1:
                    ex.report(st, fr, -1, "the work is posted %s" % ("twice" if s else "nowhere"))
            automaton(R, P, f, "F02.post", f.key, 0, step, calls_named("post", "dispatch"), fin, this_cls="ThreadGroup", boundary=[TG + "::post", TG + "::dispatch"])
        for f in sorted((g for g in P.fns.values() if g.name == TG + "::" + nm), key=lambda g: g.key):
            def step(ex, st, fr, ev, s):
                if ev[0] == "call" and short(ev[1]) == nm and ev[2] and has_field(ev[2], TG + "::_io_service"):
                    if not any(contains(a, lambda x: x == p(f, 0)) for a in ev[3]):
                        ex.report(st, fr, ev[4], "something else is posted")
                    return min(s + 1, 2)
                return s

            def fin(ex, st, fr, s):
                if s != 1:
                    ex.report(st, fr, -1, "the work is posted %s" % ("twice" if s else "nowhere"))
            automaton(R, P, f, "F02.post", f.key, 0, step, calls_named(nm), fin, this_cls=TG)
    for f in sorted((g for g in P.fns.values() if g.name in (TG + "::closure_run_helper", TG + "::ext_closure_run_helper")), key=lambda g: g.key):
        def step(ex, st, fr, ev, s):
            if ev[0] == "call" and short(ev[1]) == "Run" and ev[2] == p(f, 0):
                return min(s + 1, 2)
            return s

        def fin(ex, st, fr, s):
            if s != 1:
                ex.report(st, fr, -1, "posted work runs %s" % ("twice" if s else "never"))
        automaton(R, P, f, "F02.post", f.key, 0, step, calls_named("Run"), fin, boundary=["ExtClosure::Run"])
