"""General timeouts (TimeoutManager) and the timer that drives them."""
from lib import *
from rules.calls import where, const, at, loop_test, bound_target
from rules.server import p
from rules.life import fld_of, held, more

M, EV, TW = "TimeoutManagerImpl", "TimeoutManagerImpl::Event", "TimerWorker"
ROLE = {"TIMEOUTED": 0, "ERASED": 1, "CLEARED": 2}
STOP = ["ExtClosure::Run", "ExtClosureBase::IsSelfDelete"]


def timeout_rules(R, P):
    R.rule("M01.add", "a timeout gets an identifier of its own and expires its interval after the last tick, and is entered under the lock with its callback; repeating ones own their callback")
    R.rule("M01.take", "timeouts are copied before they are removed, in one locked section with their removal, and each one taken is run once, without the lock, with its identifier and what happened to it")
    R.rule("M01.erase", "erasing tells whether the timeout existed and runs its callback exactly then")
    R.rule("M01.tick", "a tick takes all timeouts that are due and no others, puts repeating ones back with their next expiration in the same locked section, and runs those that have not been erased since")
    R.rule("M01.stop", "stopping ends the ticks before it clears what is left, and clears everything")
    R.rule("M01.timer", "the timer ticks until it is stopped, one wait at a time, and not after")
    adds(R, P)
    takes(R, P)
    life(R, P)
    timer(R, P)


def is_set(t):
    return t is not None and contains(t, lambda x: x[0] == "F" and x[1] == ("this",) and x[2] == M + "::_timeouts") and not contains(t, lambda x: x[0] == "call" and short(x[1]) in ("begin", "end", "find", "upper_bound", "lower_bound"))


def adds(R, P):
    for name, repeating in (("add", False), ("add_repeating", True)):
        f = P.fn(M + "::" + name)

        # state: id drawn, event made, inserted
        def step(ex, st, fr, ev, s):
            drawn, made, put = s
            if ev[0] == "object" and ev[1] == EV and len(ev[3]) == 4:
                return (drawn, tuple(unwrap(a) for a in ev[3]), put)
            if ev[0] == "write" and fld_of(ev[1], M) == "_next_id":
                if not held(st, "_timeouts_lock"):
                    ex.report(st, fr, ev[4], "an identifier is drawn without the lock")
                if ev[3] != "++" and unsite(ev[2]) != ("op", "+", ("ld", ev[1]), ("c", 1)) and unsite(ev[2]) != ("op", "+", ("c", 1), ("ld", ev[1])):
                    ex.report(st, fr, ev[4], "the next identifier may be one that was handed out")
                return (min(drawn + 1, 2), made, put)
            if ev[0] == "call":
                if ev[1] == EV + "::{ctor}" and len(ev[3]) == 4:
                    return (drawn, tuple(unwrap(a) for a in ev[3]), put)
                if short(ev[1]) in ("insert", "emplace") and is_set(ev[2]):
                    if made is None and short(ev[1]) == "emplace" and len(ev[3]) == 4:
                        made = tuple(unwrap(a) for a in ev[3])
                    if not held(st, "_timeouts_lock"):
                        ex.report(st, fr, ev[4], "a timeout is entered without the lock")
                    if made is None:
                        ex.report(st, fr, ev[4], "what is entered is not a new timeout")
                        return s
                    i, e, r, c = made
                    if not is_ld(i, M + "::_next_id"):
                        ex.report(st, fr, ev[4], "a timeout is entered with another identifier than the next")
                    if not (contains(e, lambda x: x == p(f, 0)) and has_field(e, M + "::_last_ticks") and has_field(e, M + "::_rectify_ticks") and not contains(e, lambda x: x[0] == "op" and x[1] not in ("+",))):
                        ex.report(st, fr, ev[4], "a timeout does not expire its interval after the last tick")
                    if repeating and r != p(f, 0) or not repeating and (const(r) is None or const(r) >= 0):
                        ex.report(st, fr, ev[4], "a timeout is entered that %s" % ("does not repeat" if repeating else "repeats"))
                    if c != p(f, 1):
                        ex.report(st, fr, ev[4], "a timeout is entered with another callback")
                    return (drawn, made, min(put + 1, 2))
            if ev[0] == "ret" and ev[3] == 0:
                if put != 1 or drawn != 1:
                    ex.report(st, fr, ev[2], "a timeout is %s" % ("entered more than once" if put > 1 else "not entered" if not put else "entered without drawing an identifier"))
                v = unwrap(ev[1])
                if made and v != made[0] and not is_ld(v, M + "::_next_id"):
                    ex.report(st, fr, ev[2], "the identifier returned is not that of the timeout")
            return s
        automaton(R, P, f, "M01.add", f.name, (0, None, 0), step, any_of(calls_named("insert", "emplace"), writes_field("_next_id")), this_cls=M, boundary=STOP)
    # the owner of the callback
    f = next(g for g in P.fns.values() if g.name == EV + "::{ctor}" and len(g.params) == 4)

    def step(ex, st, fr, ev, s):
        selfdel, owner = s
        if ev[0] == "branch":
            t, tr = test_of(ev)
            if is_call(t, "IsSelfDelete"):
                return (tr, owner)
        if ev[0] == "write" and ev[1][0] == "F" and ev[1][2] == EV + "::owner":
            return (selfdel, ev[2] == p(f, 3) if ev[2] != NULL else False)
        if ev[0] == "write" and ev[1][0] == "F" and ev[1][2].startswith(EV + "::") and ev[1][1] == ("this",):
            q = ev[1][2].split("::")[-1]
            want = {"id": 0, "expiration": 1, "repeat_interval": 2, "callback": 3}.get(q)
            if want is not None and unwrap(ev[2]) != p(f, want):
                ex.report(st, fr, ev[4], "a timeout is made with another %s" % q)
        return s

    def fin(ex, st, fr, s):
        if s[0] is None:
            ex.report(st, fr, -1, "whether the callback deletes itself is not asked")
        elif s[1] == s[0]:
            ex.report(st, fr, -1, "the manager %s" % ("deletes a callback that deletes itself" if s[1] else "does not own a callback that does not delete itself"))
    automaton(R, P, f, "M01.add", "owner of the callback", (None, False), step, calls_named("IsSelfDelete"), fin, this_cls=EV, boundary=STOP)


def elem(t):
    """the timeout a member is read from"""
    while t and t[0] in ("ld", "ref", "trunc", "bool"):
        t = t[1]
    return t[1] if t and t[0] == "F" and t[2].startswith(EV + "::") else None


def takes(R, P):
    for name, role in (("clear", "CLEARED"), ("erase", "ERASED"), ("timer_run", "TIMEOUTED")):
        f = P.fn(M + "::" + name)
        tick, erase = name == "timer_run", name == "erase"

        def now(t):
            return (contains(t, lambda x: x == p(f, 0)) and has_field(t, M + "::_epoch_time") and
                    not contains(t, lambda x: x[0] == "op" and x[1] != "-") and not has_field(t, M + "::_rectify_ticks"))

        def due_range(b, e):
            """first and one past the last of the timeouts that are due"""
            return is_call(b, "begin") and is_call(e, "upper_bound", "lower_bound") and bool(e[3]) and now(e[3][0])

        def all_range(b, e):
            return is_call(b, "begin") and is_call(e, "end")

        # state: copies in this section, lists taken, element in hand (None, "due", "pass", "run"), found (None unknown), repeating (None unknown),
        #        put back: "", "due", "done"; repeated expiration set; removed; emptiness/run facts
        def step(ex, st, fr, ev, s):
            copied, lists, cur, found, rep, back, exp, gone, run, ended = s
            lock = held(st, "_timeouts_lock")
            nid = ev[4] if ev[0] in ("call", "write") and len(ev) > 4 else ev[3] if ev[0] == "branch" else -1
            if ev[0] in ("lock", "unlock") and locis(ev[1], "_timeouts_lock"):
                return (frozenset(), lists, cur, found if ev[0] == "unlock" else found, rep, back, exp, gone, run, ended)
            if ev[0] == "branch":
                t, tr = unneg(ev[1], ev[2])
                if tick and fld_of(unwrap(t[1]), M) == "_is_running" and t[0] == "eq" and t[2] == NULL:
                    return (copied, lists, cur, found, rep, back, exp, gone, not tr, ended)
                if is_call(test_of(ev)[0], "empty") and is_set(test_of(ev)[0][2]):
                    x, xr = test_of(ev)
                    return (copied, lists, cur, found, rep, back, exp, gone or xr, run, ended | {"empty"} if xr else ended)
                for l in lists:
                    m = loop_test(ev[1], ev[2], l)
                    if m is None:
                        m = more(ev[1], ev[2], lambda x: is_call(x, "size") and x[2] == l)
                    if m is not None:
                        what = "back" if lock else "run"
                        passed(ex, st, fr, nid, lock, cur, rep, back, found)
                        if m:
                            return (copied, lists, cur if lock else "due", None if not lock else found, None, "due" if lock else back, False, gone, run, ended)
                        return (copied, lists, cur if lock else None, found, None, "" if lock else back, False, gone, run, ended | {what})
                if t[0] == "eq":
                    a, b = t[1], t[2]
                    for x, y in ((a, b), (b, a)):
                        if is_call(x, "find") and is_set(x[2]) and is_call(y, "end"):
                            if erase and x[3][0] != p(f, 0):
                                ex.report(st, fr, nid, "another timeout is looked up")
                            if tick and not (x[3][0][0] == "ld" and has_field(x[3][0], EV + "::id")):
                                ex.report(st, fr, nid, "another timeout is looked up")
                            return (copied, lists, cur, not tr, rep, back, exp, gone, run, ended)
                if t[0] == "lt" and has_field(t[1], EV + "::repeat_interval") and const(t[2]) == 0:
                    return (copied, lists, cur, found, not tr, back, exp, gone, run, ended)
                return s
            if ev[0] == "object" and ev[2][0] == "L" and ev[3] and contains(ev[3][0], lambda x: is_call(x, "find")) and short(ev[1]) == "Event":
                return (copied | {unsite(ev[3][0])}, lists, cur, found, rep, back, exp, gone, run, ended)
            if ev[0] == "advance" and ev[1][0] == "L":
                passed(ex, st, fr, nid, lock, cur, rep, back, found)
                return (copied, lists, cur if lock else None, found, None, "" if lock else back, False, gone, run, ended)
            if ev[0] == "write" and ev[1][0] == "F" and ev[1][2] == EV + "::expiration" and tick:
                v = ev[2]
                good = has_field(v, M + "::_last_ticks") and has_field(v, EV + "::repeat_interval") and not contains(v, lambda x: x[0] == "op" and x[1] != "+")
                return (copied, lists, cur, found, rep, back, good, gone, run, ended)
            if ev[0] == "write" and ev[1][0] == "F" and ev[1][2].startswith(EV + "::") and ev[3] == "=":
                ex.report(st, fr, nid, "a timeout that was entered is changed")
            if ev[0] == "call":
                x, recv, a = short(ev[1]), ev[2], ev[3]
                if x in ("insert", "assign", "push_back", "operator=") and recv is not None and recv[0] == "L":
                    src = a[-2:] if x in ("insert", "assign") else a[:1]
                    key = tuple(unsite(unwrap(y)) for y in src)
                    if any(contains(y, lambda z: z[0] == "F" and z[2] == M + "::_timeouts") for y in src):
                        if not lock:
                            ex.report(st, fr, nid, "timeouts are copied without the lock")
                        if recv in lists:
                            ex.report(st, fr, nid, "timeouts are taken twice")
                        ok = all_range(*src) if name == "clear" else due_range(*src) if tick else (len(src) == 1 and contains(src[0], lambda z: is_call(z, "find")))
                        if not ok:
                            ex.report(st, fr, nid, {"clear": "not all timeouts are taken", "timer_run": "what is taken is not what is due", "erase": "another timeout is taken"}[name])
                        return (copied | {key}, lists | {recv}, cur, found, rep, back, exp, gone, run, ended)
                if is_set(recv):
                    if x == "find" and not lock:
                        ex.report(st, fr, nid, "a timeout is looked up without the lock")
                    if x == "clear" or x == "erase":
                        if not lock:
                            ex.report(st, fr, nid, "timeouts are removed without the lock")
                        key = tuple(unsite(unwrap(y)) for y in a)
                        if x == "clear" and not any(len(k) == 2 and is_call(k[0], "begin") and is_call(k[1], "end") for k in copied):
                            ex.report(st, fr, nid, "timeouts are removed that have not been taken")
                        if x == "erase" and key not in copied and not (len(key) == 1 and any(key[0] in list(subterms(k)) for k in copied)):
                            ex.report(st, fr, nid, "timeouts are removed that have not been taken")
                        return (copied, lists, cur, found, rep, back, exp, True, run, ended)
                    if x in ("insert", "emplace"):
                        if not tick:
                            ex.report(st, fr, nid, "a timeout is entered while others are taken")
                        if not lock or not gone or not copied:
                            ex.report(st, fr, nid, "a repeating timeout is not put back in the section that took it")
                        if rep is not True:
                            ex.report(st, fr, nid, "a timeout is put back although it does not repeat")
                        if not exp:
                            ex.report(st, fr, nid, "a timeout is put back without its next expiration")
                        if back != "due":
                            ex.report(st, fr, nid, "a timeout is put back twice")
                        return (copied, lists, cur, found, rep, "done", exp, gone, run, ended)
                if ev[1] == "ExtClosure::Run" and recv is not None and has_field(recv, EV + "::callback") and not ("empty" in ended and not lists):
                    e = elem(recv)
                    if lock:
                        ex.report(st, fr, nid, "a callback runs with the lock held")
                    if not gone:
                        ex.report(st, fr, nid, "a callback runs before its timeout has been taken out")
                    if contains(recv, lambda z: z[0] == "F" and z[2] == M + "::_timeouts"):
                        ex.report(st, fr, nid, "a timeout is used after it was removed")
                    if not (elem(a[0]) is not None and unsite(elem(a[0])) == unsite(e) and has_field(a[0], EV + "::id") or erase and a[0] == p(f, 0)):
                        ex.report(st, fr, nid, "a callback is told another identifier")
                    if const(a[1]) != ROLE[role]:
                        ex.report(st, fr, nid, "a callback is not told that its timeout was %s" % role.lower())
                    if tick and rep is not False and not (rep is True and found):
                        ex.report(st, fr, nid, "a timeout that may have been erased is run")
                    if cur == "run" or not erase and cur != "due":
                        ex.report(st, fr, nid, "a callback runs twice")
                    return (copied, lists, "run", found, rep, back, exp, gone, run, ended)
            if ev[0] == "ret" and ev[3] == 0 and erase:
                r = retbool(ex, st, ev[1])
                if r is not (cur == "run"):
                    ex.report(st, fr, ev[2], "erase() tells the wrong outcome")
            return s

        def passed(ex, st, fr, nid, lock, cur, rep, back, found):
            if lock:
                if back == "due" and rep is not False:
                    ex.report(st, fr, nid, "a repeating timeout is not put back")
            elif cur == "due":
                # only a repeating one that is gone is left out
                if not (tick and rep is True and found is False):
                    ex.report(st, fr, nid, "a timeout is taken but its callback does not run")

        def fin(ex, st, fr, s):
            copied, lists, cur, found, rep, back, exp, gone, run, ended = s
            if tick and run is not True:
                if gone or lists:
                    ex.report(st, fr, -1, "timeouts are taken although the manager does not run")
                return
            if erase:
                if found is None:
                    ex.report(st, fr, -1, "whether the timeout exists is not asked")
                if found and cur != "run":
                    ex.report(st, fr, -1, "a timeout is erased but its callback does not run")
                if found and not gone:
                    ex.report(st, fr, -1, "a timeout is not erased")
                return
            if "empty" in ended:
                return
            if not gone or not lists:
                ex.report(st, fr, -1, "timeouts are not removed")
            if "run" not in ended:
                ex.report(st, fr, -1, "timeouts are taken but their callbacks do not run")
            if tick and "back" not in ended:
                ex.report(st, fr, -1, "repeating timeouts are not put back")
        rule = "M01.erase" if erase else "M01.tick" if tick else "M01.take"
        automaton(R, P, f, rule, f.name, (frozenset(), frozenset(), None, None, None, "", False, False, None, frozenset()), step,
                  calls_named("Run", "insert", "erase", "clear", "find", "push_back", "empty", "get"), fin, this_cls=M, boundary=STOP)


def life(R, P):
    f = P.fn(M + "::stop")
    order = {"TimerWorker::stop": "tick", "ThreadGroupImpl::stop": "thread", M + "::clear": "clear"}
    text = {"off": "it counts as stopped", "tick": "the timer is stopped", "thread": "the thread has ended", "clear": "what is left is cleared"}
    pre = {"tick": ("off",), "thread": ("tick",), "clear": ("thread",)}

    def step(ex, st, fr, ev, s):
        run, facts = s
        if ev[0] == "branch":
            t, tr = test_of(ev)
            if t[0] == "ld" and fld_of(t, M) == "_is_running" and run is None:
                return (tr, facts)
        if ev[0] == "write":
            q = fld_of(ev[1], M)
            if q == "_is_running":
                return (run, facts | {"off"} if const(ev[2]) == 0 else facts - {"off"})
            if q in ("_thread_group", "_timer_worker") and ev[2] == NULL and "thread" not in facts:
                ex.report(st, fr, ev[4], "%s is destroyed before the thread has ended" % q)
        if ev[0] == "call" and ev[1] in order:
            y = order[ev[1]]
            for z in pre[y]:
                if z not in facts:
                    ex.report(st, fr, ev[4], "%s before %s" % (text[y], text[z]))
            return (run, facts | {y})
        return s

    def fin(ex, st, fr, s):
        run, facts = s
        if run is None:
            ex.report(st, fr, -1, "stopping does not ask whether the manager runs")
        if run:
            for y in ("off", "tick", "thread", "clear"):
                if y not in facts:
                    ex.report(st, fr, -1, "stopping ends without this: %s" % text[y])
    automaton(R, P, f, "M01.stop", f.name, (None, frozenset()), step, calls_named("stop", "clear", "reset"), fin, this_cls=M, boundary=list(order))
    f = P.fn(M + "::start")

    def step(ex, st, fr, ev, s):
        run, facts = s
        if ev[0] == "branch":
            t, tr = test_of(ev)
            if t[0] == "ld" and fld_of(t, M) == "_is_running" and run is None:
                return (tr, facts)
        if ev[0] == "write" and fld_of(ev[1], M) == "_is_running":
            return (run, facts | {"on"} if const(ev[2]) else facts - {"on"})
        if ev[0] == "call":
            if ev[1] == TW + "::start":
                for z, why in (("routine", "what it does"), ("period", "its period"), ("on", "the manager running: its first ticks do nothing")):
                    if z not in facts and z != "on":
                        ex.report(st, fr, ev[4], "the timer is started without %s" % why)
            if ev[1] == TW + "::set_work_routine":
                if bound_target(ev[3][0]) == [M + "::timer_run"]:
                    return (run, facts | {"routine"})
                ex.report(st, fr, ev[4], "the timer does something else")
                return s
            y = {"ThreadGroupImpl::start": "thread", TW + "::start": "tick", TW + "::set_time_duration": "period"}.get(ev[1])
            if y:
                return (run, facts | {y})
        return s

    def fin(ex, st, fr, s):
        run, facts = s
        if run is None:
            ex.report(st, fr, -1, "starting does not ask whether the manager runs")
        if run is False and not {"on", "thread", "tick"} <= facts:
            ex.report(st, fr, -1, "starting ends without the %s" % ("ticks" if "tick" not in facts else "thread" if "thread" not in facts else "manager running"))
        if run is True and facts:
            ex.report(st, fr, -1, "a running manager is started again")
    automaton(R, P, f, "M01.stop", f.name, (None, frozenset()), step, calls_named("start", "set_work_routine", "set_time_duration"), fin, this_cls=M,
              boundary=["ThreadGroupImpl::start", TW + "::start", TW + "::set_work_routine", TW + "::set_time_duration"])
    for name in ("add", "add_repeating", "erase", "clear"):
        f = P.fn("TimeoutManager::" + name)

        def step(ex, st, fr, ev, s):
            if ev[0] == "call" and ev[1] == M + "::" + name:
                if tuple(unwrap(a) for a in ev[3]) != tuple(p(f, i) for i in range(len(f.params))):
                    ex.report(st, fr, ev[4], "%s() is passed on with other arguments" % name)
                return min(s + 1, 2)
            if ev[0] == "ret" and ev[3] == 0 and name != "clear":
                if not any(is_call(x, name) for x in subterms(ev[1])):
                    ex.report(st, fr, ev[2], "%s() does not report its outcome" % name)
            return s

        def fin(ex, st, fr, s):
            if s != 1:
                ex.report(st, fr, -1, "%s() is passed on %s" % (name, "twice" if s else "to nothing"))
        automaton(R, P, f, "M01.take" if name == "clear" else "M01.erase" if name == "erase" else "M01.add", f.name, 0, step, calls_named(name), fin, this_cls="TimeoutManager", boundary=[M + "::" + name])


def timer(R, P):
    f = P.fn(TW + "::on_timeout")

    def wait_on(a):
        return any(x[0] == "fn" and x[2] == TW + "::on_timeout" for x in subterms(a))

    moments = set()

    def common(ex, st, fr, ev, expiry):
        """('arm'|'expiry', ok)"""
        if ev[0] == "object" and any(has_field(a, TW + "::_time_duration") for a in ev[3]):
            moments.add(ev[2])
        if ev[0] == "write" and ev[1][0] == "L" and has_field(ev[2], TW + "::_time_duration"):
            moments.add(ev[1])
        if ev[0] == "call" and ev[2] is not None and fld_of(ev[2], TW) == "_timer":
            x = short(ev[1])
            if x in ("expires_from_now", "expires_at"):
                if not has_field(ev[3][0], TW + "::_time_duration") and not contains(ev[3][0], lambda y: y in moments):
                    ex.report(st, fr, ev[4], "the timer is not set to its period")
                return "expiry"
            if x == "async_wait":
                if not wait_on(ev[3][0]):
                    ex.report(st, fr, ev[4], "the timer waits for something else")
                if not expiry:
                    ex.report(st, fr, ev[4], "the timer is armed without a new expiry")
                if not held(st, "_timer_lock"):
                    ex.report(st, fr, ev[4], "the timer is armed without its lock")
                return "arm"
            if x == "cancel":
                if not held(st, "_timer_lock"):
                    ex.report(st, fr, ev[4], "the timer is cancelled without its lock")
                return "cancel"
        return None

    # state: running, aborted, routine set, routine run, expiry set, armed
    def step(ex, st, fr, ev, s):
        run, aborted, has, ran, expiry, armed = s
        c = common(ex, st, fr, ev, expiry)
        if c == "expiry":
            return (run, aborted, has, ran, True, armed)
        if c == "arm":
            if run is not True:
                ex.report(st, fr, ev[4], "a stopped timer is armed again")
            return (run, aborted, has, ran, False, min(armed + 1, 2))
        if ev[0] == "branch":
            t, tr = test_of(ev)
            if t[0] == "ld" and fld_of(t, TW) == "_is_running":
                return (tr, aborted, has, ran, expiry, armed)
            u, utr = unneg(ev[1], ev[2])
            if u[0] == "eq" and any(contains(x, lambda y: y == ("c", 125)) for x in u[1:3]):
                return (run, utr, has, ran, expiry, armed)
            if contains(t, lambda x: x[0] == "F" and x[2] == TW + "::_work_routine"):
                return (run, aborted, tr, ran, expiry, armed)
        if ev[0] == "call" and short(ev[1]) == "operator()" and ev[2] is not None and fld_of(ev[2], TW) == "_work_routine":
            if run is not True:
                ex.report(st, fr, ev[4], "a stopped timer does its work")
            if aborted is not False:
                ex.report(st, fr, ev[4], "a cancelled wait does its work")
            if ran:
                ex.report(st, fr, ev[4], "the work is done twice for one tick")
            if held(st, "_timer_lock"):
                ex.report(st, fr, ev[4], "the work is done with the lock of the timer held")
            return (run, aborted, has, True, expiry, armed)
        return s

    def fin(ex, st, fr, s):
        run, aborted, has, ran, expiry, armed = s
        if run is None:
            ex.report(st, fr, -1, "whether the timer runs is not asked")
        if run and armed != 1:
            ex.report(st, fr, -1, "a running timer is armed %s" % ("twice" if armed else "no more"))
        if run and aborted is False and has is not False and not ran:
            ex.report(st, fr, -1, "a tick does no work")
    automaton(R, P, f, "M01.timer", f.name, (None, None, None, False, False, 0), step, calls_named("operator()", "async_wait", "expires_at", "expires_from_now", "cancel"), fin, this_cls=TW)
    for name in ("start", "stop"):
        f = P.fn(TW + "::" + name)

        def step(ex, st, fr, ev, s):
            run, val, expiry, armed, cancelled = s
            c = common(ex, st, fr, ev, expiry)
            if c == "expiry":
                return (run, val, True, armed, cancelled)
            if c == "arm":
                if val is not True:
                    ex.report(st, fr, ev[4], "the timer is armed while it counts as stopped: its first tick would be its last")
                return (run, val, False, min(armed + 1, 2), cancelled)
            if c == "cancel":
                if val is not False:
                    ex.report(st, fr, ev[4], "the timer is cancelled while it counts as running: it is armed again")
                return (run, val, expiry, armed, True)
            if ev[0] == "branch":
                t, tr = test_of(ev)
                if t[0] == "ld" and fld_of(t, TW) == "_is_running" and run is None:
                    return (tr, val, expiry, armed, cancelled)
            if ev[0] == "write" and fld_of(ev[1], TW) == "_is_running":
                return (run, bool(const(ev[2])), expiry, armed, cancelled)
            return s

        def fin(ex, st, fr, s):
            run, val, expiry, armed, cancelled = s
            if run is None:
                ex.report(st, fr, -1, "whether the timer runs is not asked")
            if name == "start":
                if run is False and (armed != 1 or val is not True):
                    ex.report(st, fr, -1, "starting leaves the timer without a wait")
                if run is True and armed:
                    ex.report(st, fr, -1, "starting a running timer arms it twice")
            else:
                if run is not False and (not cancelled or val is not False):
                    ex.report(st, fr, -1, "stopping leaves the timer waiting")
        automaton(R, P, f, "M01.timer", f.name, (None, None, False, 0, False), step, calls_named("async_wait", "expires_at", "expires_from_now", "cancel"), fin, this_cls=TW)
