"""L01-L04: locks, guarded state, order of locks, what happens under a lock."""
from lib import *
import core
from core import LOCKCLS
from rules.calls import where, const, at, subj

CALLS = ("call", "mcall", "ocall", "ctor")


def strip_casts(f, i):
    n = f.nodes[i]
    while n["k"] in ("cast", "paren") or n["k"] == "un" and n.get("op") in ("&", "*"):
        i = n["x"]
        n = f.nodes[i]
    return i


def lock_name(f, i):
    """the lock a node names: the member, or a local"""
    n = f.nodes[strip_casts(f, i)]
    if n["k"] == "mem":
        return n["fld"]
    if n["k"] == "var":
        return "%s#%d" % (f.key, n["i"])
    return None


def lock_ops(f):
    """(locker variables: var -> lock, node -> (acquire, lock))"""
    held, ops = {}, {}
    for i, n in enumerate(f.nodes):
        if n["k"] == "decl":
            for d in n["d"]:
                x = d.get("x")
                if x is None:
                    continue
                c = f.nodes[strip_casts(f, x)]
                if c["k"] == "ctor" and c.get("cls") in LOCKCLS and c["a"]:
                    l = lock_name(f, c["a"][0])
                    if l:
                        held[d["i"]] = (l, LOCKCLS[c["cls"]])
                        ops[i] = ("acquire", l)
        elif n["k"] == "mcall" and short(n.get("n") or "") in ("lock", "unlock", "lock_shared", "unlock_shared", "try_lock") and n.get("o") is not None and not n["a"]:
            cls = n.get("cls") or ""
            if "Lock" in cls or "utex" in cls:
                l = lock_name(f, n["o"])
                if l:
                    ops[i] = ("release" if short(n["n"]).startswith("unlock") else "acquire", l)
        elif n["k"] == "call" and n.get("n") in ("pthread_mutex_lock", "pthread_mutex_unlock") and n["a"]:
            l = lock_name(f, n["a"][0])
            if l:
                ops[i] = ("release" if n["n"].endswith("unlock") else "acquire", l)
    return held, ops


def succs(f, b):
    return [t for t in f.blocks[b]["s"] if t is not None and t >= 0]


class Locksets:
    """which locks are held at every node: surely (must) and possibly (may)"""

    def __init__(self, P):
        self.P = P
        self.info = {}
        for f in P.fns.values():
            self.info[f.key] = lock_ops(f)
        self.must_in, self.may_in = {}, {}
        self.compute()

    def transfer(self, f, entry, meet):
        held, ops = self.info[f.key]
        if not ops:
            return None
        out = {}
        state = {f.entry: entry}
        work = [f.entry]
        n = 0
        while work:
            b = work.pop()
            n += 1
            if n > 20000:
                raise Broken("locks of %s not understood" % f.name)
            s = state[b]
            for e in f.blocks[b]["e"]:
                if isinstance(e, dict):
                    d = e.get("dtor")
                    if d and d.get("i") in held:
                        s = s - {held[d["i"]][0]}
                    continue
                old = out.get(e)
                out[e] = s if old is None else meet(old, s)
                o = ops.get(e)
                if o:
                    s = s | {o[1]} if o[0] == "acquire" else s - {o[1]}
            for t in succs(f, b):
                old = state.get(t)
                new = s if old is None else meet(old, s)
                if new != old:
                    state[t] = new
                    work.append(t)
        return out

    def at(self, f, nid, may=False):
        """locks at a node: what the function holds itself plus what it is entered with"""
        m = self.nodes(f, may)
        own = frozenset() if m is None else m.get(nid)
        if own is None:
            own = self.nearest(f, nid, m)
        e = self.may_in if may else self.must_in
        return own | e.get(f.key, frozenset())

    def nearest(self, f, nid, m):
        # a node that is part of another element: the element that contains it
        par = self.__dict__.setdefault("_par", {}).get(f.key)
        if par is None:
            par = {}
            for i, n in enumerate(f.nodes):
                for k in ("x", "o", "b", "l2", "r", "a", "c", "y", "z", "d"):
                    v = n.get(k)
                    for q in (v if isinstance(v, list) else [v]):
                        if isinstance(q, dict):
                            q = q.get("x")
                        if isinstance(q, int) and 0 <= q < len(f.nodes):
                            par.setdefault(q, []).append(i)
            self._par[f.key] = par
        seen, todo = set(), [nid]
        while todo:
            x = todo.pop(0)
            if x in seen:
                continue
            seen.add(x)
            if x in m:
                return m[x]
            todo.extend(par.get(x, ()))
        return frozenset()

    def nodes(self, f, may=False):
        c = self.__dict__.setdefault("_c", {})
        k = (f.key, may)
        if k not in c:
            c[k] = self.transfer(f, frozenset(), (lambda a, b: a | b) if may else (lambda a, b: a & b))
        return c[k]

    def compute(self):
        P = self.P
        sites = {}
        for f in P.fns.values():
            for kind, k, nid in P.edges(f):
                if kind == "call":
                    sites.setdefault(k, []).append((f, nid))
        self.sites = sites
        helpers = {f.key for f in P.fns.values() if is_helper(P, f) and f.key in sites}
        TOP = None
        must = {k: TOP for k in helpers}
        changed = True
        while changed:
            changed = False
            for k in helpers:
                v = TOP
                for f, nid in sites[k]:
                    e = must.get(f.key, frozenset()) if f.key in helpers else frozenset()
                    if e is TOP:
                        continue
                    m = self.nodes(f)
                    own = frozenset() if m is None or nid < 0 else m.get(nid)
                    if own is None:
                        own = self.nearest(f, nid, m)
                    s = own | e
                    v = s if v is TOP else v & s
                if v is not TOP and v != must[k]:
                    must[k] = v
                    changed = True
        self.must_in = {k: v or frozenset() for k, v in must.items()}


def locksets(P):
    if not hasattr(P, "_locksets"):
        P._locksets = Locksets(P)
    return P._locksets


# ---- who runs what, with which locks -------------------------------------------------

PRIMITIVE = {"MutexLock", "ReadLocker", "WriteLocker", "ScopedLocker", "RWLock", "ConditionVariable"}


def sig(f, i):
    t = f.types[i]["n"] if isinstance(i, int) else i
    return t.replace("sofa::pbrpc::", "")


def base_of(t):
    """the class a (smart) pointer, reference or value of this type leads to"""
    t = t.replace("sofa::pbrpc::", "").replace("const ", "").strip()
    while True:
        u = t.rstrip("&* ").strip()
        for w in ("shared_ptr<", "scoped_ptr<", "boost::shared_ptr<", "std::shared_ptr<", "std::unique_ptr<"):
            if u.startswith(w) and u.endswith(">"):
                u = u[len(w):-1]
                break
        if u == t:
            return t
        t = u


def user_call(f, n):
    """a call that runs code of the user of the library"""
    nm = n.get("n") or ""
    return n["k"] == "mcall" and short(nm) == "Run" and ("Closure" in (n.get("cls") or "")) or \
        n["k"] == "mcall" and "EventHandler::" in nm


class CallGraph:
    """direct and virtual calls, and calls of stored functors; every function once per class its object may have"""

    def __init__(self, P):
        self.P = P
        self.L = locksets(P)
        callers_of(P)
        self.bound = [P.fns[k] for k in sorted(P._refd) if k in P.fns]
        self.stored = self.functor_fields()
        self.out, self.may = {}, {}
        self.raw = {}
        work = []

        def node(k, c):
            x = (k, c)
            if x not in self.may:
                self.may[x] = {}
                work.append(x)
            return x
        for f in P.fns.values():
            if not self.primitive(f):
                node(f.key, None)
        # may[x]: lock -> (caller, node) through which it is entered with the lock held
        while work:
            x = work.pop()
            f = P.fns[x[0]]
            if x not in self.out:
                self.out[x] = list(self.calls(f, x[1]))
            for g, c, nid, how in self.out[x]:
                if self.primitive(P.fns[g]):
                    continue
                y = node(g, c)
                new = False
                for l in self.own(f, nid) | frozenset(self.may[x]):
                    if l not in self.may[y]:
                        self.may[y][l] = (x, nid)
                        new = True
                if new and y not in work:
                    work.append(y)

    def primitive(self, f):
        return f.cls is not None and f.cls.split("::")[-1] in PRIMITIVE

    def refs_below(self, f, i, depth=0):
        out = []
        if not 0 <= i < len(f.nodes) or depth > 40:
            return out
        n = f.nodes[i]
        if n["k"] == "fnref" and n.get("f") in self.P.fns:
            out.append(n["f"])
        if n["k"] == "lambda":
            out.extend(self.P.targets(n))
        if n["k"] == "var":
            for m in f.nodes:
                if m["k"] == "decl":
                    for d in m["d"]:
                        if d["i"] == n["i"] and isinstance(d.get("x"), int) and depth < 30:
                            out.extend(self.refs_below(f, d["x"], depth + 1))
        kids = [n.get("x")] + list(n.get("a") or ())
        for q in kids:
            if isinstance(q, int):
                out.extend(self.refs_below(f, q, depth + 1))
        return out

    def functor_fields(self):
        """functor member -> the functions stored in it, through setters or directly"""
        P, out = self.P, {}
        setters = {}
        for f in P.fns.values():
            for n in f.nodes:
                if n["k"] == "ocall" and n.get("op") == "=" and len(n.get("a") or ()) == 2:
                    l = f.nodes[strip_casts(f, n["a"][0])]
                    r = f.nodes[strip_casts(f, n["a"][1])]
                    while r["k"] == "ctor" and len(r.get("a") or ()) == 1:
                        r = f.nodes[strip_casts(f, r["a"][0])]
                    if l["k"] == "mem" and "function" in (f.ty(n["a"][0])["n"]):
                        if r["k"] == "var" and r["i"] in f.params:
                            setters.setdefault((f.key, f.params.index(r["i"])), set()).add(l["fld"])
                        else:
                            for t in self.refs_below(f, n["a"][1]):
                                out.setdefault(l["fld"], set()).add(t)
        for f in P.fns.values():
            for n in f.nodes:
                if n["k"] in CALLS and n.get("f"):
                    for j, a in enumerate(n.get("a") or ()):
                        for fld in setters.get((n["f"], j), ()):
                            r = self.refs_below(f, a)
                            x = f.nodes[strip_casts(f, a)]
                            out.setdefault(fld, set()).update(r)
        return out

    def tail(self, g):
        return [sig(g, g.vars[v]["t"]) for v in g.params]

    def calls(self, f, ctx):
        P = self.P
        for i, n in enumerate(f.nodes):
            if n["k"] == "ocall" and n.get("op") == "()" and "boost::function" in (n.get("cls") or ""):
                o = f.nodes[strip_casts(f, n["a"][0])]
                if o["k"] == "mem" and self.stored.get(o["fld"]):
                    for g in sorted(self.stored[o["fld"]]):
                        yield g, None, i, "functor"
                    continue
                pt = [sig(f, x) for x in n.get("pt") or ()]
                if pt:
                    for g in self.bound:
                        if self.tail(g)[-len(pt):] == pt:
                            yield g.key, None, i, "functor"
                continue
            if n["k"] not in CALLS or not n.get("f"):
                continue
            cls, this = None, False
            if n["k"] == "mcall" and n.get("o") is not None:
                o = strip_casts(f, n["o"])
                this = f.nodes[o]["k"] == "this"
                if this:
                    cls = ctx
                else:
                    c = base_of(f.ty(o)["n"])
                    if short(n.get("n") or "") == "reset" and "_ptr" in (n.get("cls") or "") and not n["a"]:
                        # giving up a reference may destroy the object
                        for q in [c] + sorted(P.subclasses(c)) if c in P.classes else ():
                            d = P.dtor_of(q)
                            if d:
                                yield d, q, i, "call"
                    if c in P.classes:
                        cls = c
            if cls is None:
                for t in P.targets(n):
                    yield t, None, i, "call"
                continue
            key = n["f"]
            if n.get("virt") and not n.get("nonvirt"):
                cands = list(P.overriders.get(key, ())) + ([key] if key in P.fns else [])
                pick = [c for c in cands if P.is_a(P.fns[c].cls, cls)]
                best = None
                for c in cands:
                    cc = P.fns[c].cls
                    if P.is_a(cls, cc) and (best is None or P.is_a(cc, P.fns[best].cls)):
                        best = c
                for c in sorted(set(pick + ([best] if best else []))):
                    cc = P.fns[c].cls
                    yield c, (cls if P.is_a(cls, cc) else cc), i, "call"
            elif key in P.fns:
                cc = P.fns[key].cls
                yield key, (cls if cc and P.is_a(cls, cc) else None), i, "call"
        for kind, k, nid in P.edges(f):
            if kind == "call" and k.endswith("{dtor}()"):
                yield k, None, nid, "call"

    def own(self, f, nid):
        m = self.L.nodes(f, True)
        if m is None or nid is None or nid < 0:
            return frozenset()
        s = m.get(nid)
        return self.L.nearest(f, nid, m) if s is None else s

    def contexts(self, f):
        return [x for x in self.may if x[0] == f.key]

    def held(self, f, nid):
        """lock -> (context, held by the function itself)"""
        out = {l: (None, True) for l in self.own(f, nid)}
        for x in self.contexts(f):
            for l in self.may[x]:
                out.setdefault(l, (x, False))
        return out

    def holders(self, x, lock):
        """every function that takes the lock and enters this one with it"""
        if not hasattr(self, "pred"):
            self.pred = {}
            for c, outs in self.out.items():
                for g, k, nid, _ in outs:
                    self.pred.setdefault((g, k), []).append((c, nid))
        out, seen, todo = set(), set(), [x]
        while todo:
            y = todo.pop()
            if y in seen:
                continue
            seen.add(y)
            for c, nid in self.pred.get(y, ()):
                g = self.P.fns[c[0]]
                if lock in self.own(g, nid):
                    out.add(g.name)
                elif lock in self.may.get(c, ()):
                    todo.append(c)
        return out

    def chain(self, x, lock):
        """how the function is entered with the lock held, and who took it"""
        out, holder = [], None
        seen = set()
        while x in self.may and lock in self.may[x] and x not in seen:
            seen.add(x)
            c, nid = self.may[x][lock]
            g = self.P.fns[c[0]]
            out.append("%s (%s)" % (g.name, g.loc(nid) if nid >= 0 else g.file))
            if lock in self.own(g, nid):
                holder = g
                break
            x = c
        return " <- ".join(out), holder


def callgraph(P):
    if not hasattr(P, "_callgraph"):
        P._callgraph = CallGraph(P)
    return P._callgraph


# ---- L01: shared state under its lock ------------------------------------------------

GUARDED = (
    "RpcClientImpl::_stream_map", "RpcServerImpl::_stream_set", "RpcServerImpl::_timer_worker",
    "RpcServerImpl::_maintain_thread_group", "RpcClientImpl::_timer_worker", "RpcClientImpl::_maintain_thread_group",
    "RpcClientStream::_controller_map", "RpcMessageStream::_pending_calls", "RpcServerMessageStream::_pending_calls",
    "RpcTimeoutManager::_add_list", "RpcTimeoutManager::_erase_set", "RpcTimeoutManager::_events", "RpcTimeoutManager::_next_id",
    "RpcTimeoutManager::_timer_worker", "TimeoutManagerImpl::_timeouts", "TimeoutManagerImpl::_next_id", "TimeoutManagerImpl::_thread_group",
    "TimeoutManagerImpl::_timer_worker", "TimerWorker::_timer", "WaitEvent::_signaled", "WebService::_servlet_map", "ServicePool::_service_map",
    "MockTestHelperImpl::_methods", "BuiltinServiceImpl::_list_service_last_response",
    "DynamicRpcChannelImpl::_live_map", "DynamicRpcChannelImpl::_unlive_map", "DynamicRpcChannelImpl::_is_detect_disabled")


def special(f):
    return f.name.endswith("{ctor}") or f.name.endswith("{dtor}")


def lname(l):
    return l.split("::")[-1].split("#")[0]


def guarded(fld):
    return any(fld == g or fld.endswith("::" + g) for g in GUARDED)


PRINTS = {}


def printing(f):
    """nodes that only feed a log statement"""
    c = PRINTS.get(id(f))
    if c is None:
        c = set()
        todo = []
        for i, n in enumerate(f.nodes):
            if n["k"] in CALLS and (n.get("n") or "").endswith(("log_handler", "internal::log_handler", "LogMessage::operator<<")):
                todo.extend(n.get("a") or ())
        while todo:
            i = todo.pop()
            if i in c or not 0 <= i < len(f.nodes):
                continue
            c.add(i)
            n = f.nodes[i]
            for k in ("x", "o", "b", "a", "l2", "r"):
                v = n.get(k)
                for q in (v if isinstance(v, list) else [v]):
                    if isinstance(q, int):
                        todo.append(q)
        PRINTS[id(f)] = c
    return c


def guard_rules(R, P):
    L = locksets(P)
    R.rule("L01.guard", "every use of shared state happens under the lock that guards it")
    R.rule("L01.alias", "an iterator or reference into shared state is used only under that lock")
    R.rule("L01.section", "what is decided from shared state is carried out in the same locked section")
    R.rule("L01.lock", "a lock object locks its mutex when made and unlocks it when it goes")
    uses, guards = {}, {}
    for f in P.fns.values():
        if special(f):
            continue
        for i, n in enumerate(f.nodes):
            if n["k"] == "mem" and guarded(n["fld"]):
                uses.setdefault(n["fld"], []).append((f, i))
                R.functions.add(f.key)
                R.sites += 1
    for fld in sorted(uses):
        common, votes = None, {}
        sets = []
        for f, i in uses[fld]:
            s = L.at(f, i)
            sets.append((f, i, s))
            common = s if common is None else common & s
            for l in s:
                votes[l] = votes.get(l, 0) + 1
        if common:
            guards[fld] = common
            R.ok("L01.guard", "%s: %d uses under %s" % (fld, len(sets), ", ".join(sorted(lname(l) for l in common))))
            continue
        best = max(sorted(votes), key=lambda l: votes[l]) if votes else None
        if best:
            guards[fld] = frozenset([best])
        for f, i, s in sets:
            if best is None or best not in s:
                if i in printing(f):
                    continue
                R.bad("L01.guard", "%s in %s" % (fld, f.name), f.loc(i),
                      "%s is used without %s, which guards its other uses" % (lname(fld), lname(best) if best else "a lock"), [])
                break
        else:
            R.ok("L01.guard", "%s: %d uses" % (fld, len(sets)))
    alias_rule(R, P, L, guards)
    section_rule(R, P, L, guards)
    primitive_rule(R, P)


def root_field(f, i, hops=0):
    """the guarded member an expression reaches into through calls on it, subscripts and members"""
    while hops < 20:
        hops += 1
        n = f.nodes[strip_casts(f, i)]
        if n["k"] == "mem":
            if guarded(n["fld"]):
                return n["fld"]
            i = n.get("b")
        elif n["k"] == "mcall":
            i = n.get("o")
        elif n["k"] in ("ocall", "ctor") and n.get("a"):
            i = n["a"][0]
        elif n["k"] == "idx":
            i = n.get("b", n.get("x"))
        else:
            return None
        if not isinstance(i, int):
            return None
    return None


def alias_rule(R, P, L, guards):
    for f in P.fns.values():
        if special(f):
            continue
        al = {}
        for i, n in enumerate(f.nodes):
            if n["k"] != "decl":
                continue
            for d in n["d"]:
                if not isinstance(d.get("x"), int):
                    continue
                t = f.types[f.vars[d["i"]]["t"]]["n"]
                ref = t.rstrip().endswith("&")
                if not ref and "iterator" not in t.lower():
                    continue
                fld = root_field(f, d["x"])
                if fld is None and ref:
                    # a reference to what another such local leads to
                    x = f.nodes[strip_casts(f, d["x"])]
                    while x["k"] in ("mem", "mcall", "ocall", "ctor"):
                        j = x.get("b") if x["k"] == "mem" else x.get("o") if x["k"] == "mcall" else (x.get("a") or [None])[0]
                        if not isinstance(j, int):
                            break
                        x = f.nodes[strip_casts(f, j)]
                    if x["k"] == "var" and x["i"] in al:
                        fld = al[x["i"]]
                if fld in guards:
                    al[d["i"]] = fld
        if not al:
            continue
        bad = False
        for i, n in enumerate(f.nodes):
            if n["k"] == "var" and n["i"] in al and i not in printing(f):
                g = guards[al[n["i"]]]
                s = L.at(f, i)
                m = L.nodes(f)
                if not (g & s):
                    bad = True
                    R.bad("L01.alias", "%s in %s" % ((f.vars[n["i"]].get("name") or "a local"), f.name), f.loc(i),
                          "'%s' leads into %s and is used after %s was released" % ((f.vars[n["i"]].get("name") or "a local"), lname(al[n["i"]]), "/".join(sorted(lname(x) for x in g))), [])
                    break
        if not bad:
            R.ok("L01.alias", "%s: %d locals" % (f.name, len(al)))


ALTERS = ("insert", "erase", "push_back", "push_front", "pop_front", "pop_back", "emplace", "emplace_back")


def section_rule(R, P, L, guards):
    """a lookup that leads to a change is in the same locked section as the change"""
    for f in P.fns.values():
        if special(f):
            continue
        held, ops = L.info[f.key]
        asks, alters = {}, {}
        for i, n in enumerate(f.nodes):
            fld = None
            if n["k"] == "mcall" and n.get("o") is not None:
                o = f.nodes[strip_casts(f, n["o"])]
                if o["k"] == "mem" and o["fld"] in guards:
                    fld = o["fld"]
                    s = short(n.get("n") or "")
                    if s == "find" or s == "count":
                        asks[i] = fld
                    elif s in ALTERS:
                        alters[i] = fld
            elif n["k"] == "ocall" and n.get("op") == "[]" and n.get("a"):
                o = f.nodes[strip_casts(f, n["a"][0])]
                if o["k"] == "mem" and o["fld"] in guards:
                    alters[i] = o["fld"]
        for fld in sorted(set(asks.values()) & set(alters.values())):
            g = guards[fld]
            if not any(o[1] in g for o in ops.values()):
                continue        # held by the caller: one section
            # state: 0 nothing asked, 1 asked in this section, 2 asked in an earlier section only
            start = 0
            state = {f.entry: {0}}
            work = [f.entry]
            bad = None
            while work:
                b = work.pop()
                s = set(state[b])
                for e in f.blocks[b]["e"]:
                    if isinstance(e, dict):
                        d = e.get("dtor")
                        if d and d.get("i") in held and held[d["i"]][0] in g:
                            s = {2 if x else 0 for x in s}
                        continue
                    o = ops.get(e)
                    if o and o[0] == "release" and o[1] in g:
                        s = {2 if x else 0 for x in s}
                    if asks.get(e) == fld:
                        s = {1}
                    if alters.get(e) == fld and 2 in s:
                        bad = e
                for t in succs(f, b):
                    old = state.get(t, set())
                    if not s <= old:
                        state[t] = old | s
                        work.append(t)
            R.decide("L01.section", "%s in %s" % (lname(fld), f.name), bad is None, f.loc(bad) if bad is not None else where(f),
                     "%s is changed on the strength of a lookup made before the lock was released" % lname(fld))


def primitive_rule(R, P):
    def effect(f):
        """the mutex operations of a function, on every path in order"""
        out = []
        for i, n in enumerate(f.nodes):
            if n["k"] == "call" and (n.get("n") or "").startswith(("pthread_mutex_", "pthread_rwlock_")):
                out.append((n["n"], lock_name(f, n["a"][0]) if n["a"] else None, i))
            elif n["k"] == "mcall" and short(n.get("n") or "") in ("lock", "unlock", "lock_shared", "try_lock"):
                out.append((n["n"], lock_name(f, n["o"]), i))
        return out

    def surely(f, nid):
        """the node is run on every path through the function"""
        seen, todo = set(), [f.entry]
        while todo:
            b = todo.pop()
            if b in seen or nid in f.blocks[b]["e"]:
                continue
            seen.add(b)
            if b == f.d["exit"]:
                return False
            todo.extend(succs(f, b))
        return True
    want = {"MutexLock::lock": ("pthread_mutex_lock",), "MutexLock::unlock": ("pthread_mutex_unlock",),
            "ScopedLocker::{ctor}": ("MutexLock::lock",), "ScopedLocker::{dtor}": ("MutexLock::unlock",),
            "RWLock::lock": ("pthread_rwlock_wrlock",), "RWLock::lock_shared": ("pthread_rwlock_rdlock",), "RWLock::unlock": ("pthread_rwlock_unlock",),
            "ReadLocker::{ctor}": ("RWLock::lock_shared", "RWLock::lock"), "ReadLocker::{dtor}": ("RWLock::unlock",),
            "WriteLocker::{ctor}": ("RWLock::lock",), "WriteLocker::{dtor}": ("RWLock::unlock",)}
    for f in sorted(P.fns.values(), key=lambda f: f.key):
        w = want.get(f.name)
        if not w:
            continue
        e = effect(f)
        good = len(e) == 1 and e[0][0] in w and surely(f, e[0][2])
        R.decide("L01.lock", f.key, good, where(f), "%s does not do exactly %s" % (f.name, " or ".join(w)))
    counter_rules(R, P)


def counter_rules(R, P):
    """the counters that threads change without a lock"""
    from rules.wire import lin
    R.rule("L01.count", "a step of a shared counter is one atomic operation, and tells the value that very step led to")
    n = 0
    for f in sorted(P.fns.values(), key=lambda f: f.key):
        c = f.cls or ""
        if not (c.startswith("Atomic") and short(f.name) in ("operator++", "operator--")):
            continue
        n += 1
        by = 1 if short(f.name) == "operator++" else -1

        # state: the one step so far
        def step(ex, st, fr, ev, s, by=by, c=c):
            if ev[0] == "rmw":
                if s is not None:
                    ex.report(st, fr, ev[3], "one step changes the counter more than once")
                if not (ev[1][0] == "F" and ev[1][1] == ("this",)) or ev[2] != ("c", by):
                    ex.report(st, fr, ev[3], "a step changes the counter by another amount than one")
                return ev[4]
            if ev[0] in ("write", "advance") and ev[1] and ev[1][0] == "F" and ev[1][1] == ("this",):
                ex.report(st, fr, ev[4] if len(ev) > 4 else -1, "the counter is changed without an atomic operation: a step of another thread is lost")
            if ev[0] == "ret" and fr.depth == 0:
                if s is None:
                    ex.report(st, fr, ev[2], "the counter is not changed by one atomic operation")
                elif lin(ev[1]) != {s: 1, 1: by}:
                    ex.report(st, fr, ev[2], "a step tells another value than it led to: two threads may see the same one, or none the last")
            return s
        automaton(R, P, f, "L01.count", f.key, None, step, lambda f, i, n: f.cls == c, this_cls=c)
    R.decide("L01.count", "counters of several threads", n > 0, "", "there are no counters to look at")


# ---- L02: no deadlock ----------------------------------------------------------------

SLEEPS = {"usleep", "sleep", "nanosleep", "pthread_join", "pthread_cond_wait", "pthread_cond_timedwait", "select", "poll", "epoll_wait"}


def own_virtual(P, n):
    """a virtual function only the user of the library implements"""
    nm = n.get("n") or ""
    if n["k"] != "mcall" or not n.get("virt") or n.get("nonvirt"):
        return False
    if "{dtor}" in nm:
        return False
    return not P.targets(n) and not nm.startswith(("std::", "boost::", "google::protobuf::", "builtin::"))


def runs_user(P, f, n):
    if user_call(f, n) or own_virtual(P, n):
        return True
    nm = n.get("n") or ""
    return n["k"] == "mcall" and nm in ("google::protobuf::Service::CallMethod", "google::protobuf::RpcChannel::CallMethod") and not P.targets(n)


def deadlock_rules(R, P):
    R.rule("L02.order", "locks are never taken in opposite orders, nor twice by one thread")
    R.rule("L02.join", "no thread is waited for while a lock its tasks take is held")
    R.rule("L02.user", "no code of the user runs while the library holds a lock that code could come back to")
    R.rule("L02.wait", "no thread sleeps with a lock held, and a wait tests its condition again after waking")
    R.rule("L02.balance", "no function returns with a lock it took")
    L, G = locksets(P), callgraph(P)
    life = order_rule(R, P, L, G)
    user_rule(R, P, L, G, life)
    wait_rule(R, P, L, G, life)
    balance_rule(R, P, L)


def acquisitions(P, L, G):
    for f in sorted(P.fns.values(), key=lambda f: f.key):
        if not G.primitive(f):
            for i, (k, l) in sorted(L.info[f.key][1].items()):
                if k == "acquire":
                    yield f, i, l


def order_rule(R, P, L, G):
    E = {}
    R.functions |= {x[0] for x in G.out}
    for f, i, l in acquisitions(P, L, G):
        R.sites += 1
        for a, (x, own) in G.held(f, i).items():
            E.setdefault(a, {}).setdefault(l, []).append((f, i, x))
    # locks held where threads are waited for
    life = {}
    for f in P.fns.values():
        for i, n in enumerate(f.nodes):
            if n["k"] == "call" and n.get("n") == "pthread_join":
                for l, (x, own) in G.held(f, i).items():
                    life.setdefault(l, (f, i, x))
    def path(f, i, x, a):
        t = ["%s takes the lock (%s)" % (f.name, f.loc(i))]
        if x is not None:
            t.append("entered with %s held: %s" % (lname(a), G.chain(x, a)[0]))
        return t
    for a in sorted(E):
        for b in sorted(E[a]):
            f, i, x = E[a][b][0]
            inst = "%s before %s" % (a.split("#")[0], b.split("#")[0])
            if a == b:
                bad = None
                for f, i, x in E[a][b]:
                    if x is None or not flagged(P, L, G, f, i, a, x):
                        bad = (f, i, x)
                        break
                if bad:
                    f, i, x = bad
                    R.bad("L02.order", inst, f.loc(i), "%s takes %s, which its thread may hold already" % (f.name, lname(a)), path(f, i, x, a))
                else:
                    R.ok("L02.order", inst + " (excluded by a flag)")
                continue
            # is a reachable from b?
            seen, todo, back = set(), [b], {}
            while todo:
                q = todo.pop()
                if q in seen:
                    continue
                seen.add(q)
                for r in E.get(q, ()):
                    if r != q:
                        back.setdefault(r, q)
                        todo.append(r)
            if a in seen:
                q = a
                steps = []
                while q != b and len(steps) < 10:
                    o = back[q]
                    f2, i2, x2 = E[o][q][0]
                    steps.append("%s taken while %s is held, in %s (%s)" % (lname(q), lname(o), f2.name, f2.loc(i2)))
                    q = o
                R.bad("L02.order", inst, f.loc(i), "%s is taken while %s is held, and the other way round elsewhere" % (lname(b), lname(a)),
                      path(f, i, x, a) + steps)
            else:
                R.ok("L02.order", inst)
    # ---- waiting for threads
    entries = {}
    for f in P.fns.values():
        if f.key in P._refd or any(o.startswith(("google::protobuf::", "builtin::BuiltinService::")) for o in f.d.get("ov") or ()):
            if not special(f):
                entries[f.key] = f
    for l in sorted(life):
        f0, i0, x0 = life[l]
        bad = None
        for e in sorted(entries):
            seen, todo, how = set(), [x for x in G.may if x[0] == e], {}
            while todo and not bad:
                x = todo.pop()
                if x in seen:
                    continue
                seen.add(x)
                f = P.fns[x[0]]
                for i, (k, m) in L.info[f.key][1].items():
                    if k == "acquire" and m == l:
                        bad = (f, i, e, x, how)
                        break
                for g, c, nid, w in G.out.get(x, ()):
                    y = (g, c)
                    if y not in seen and not G.primitive(P.fns[g]):
                        how.setdefault(y, (x, nid))
                        todo.append(y)
            if bad:
                break
        if bad:
            f, i, e, x, how = bad
            t = []
            while x in how and len(t) < 12:
                x, nid = how[x]
                t.append("called by %s (%s)" % (P.fns[x[0]].name, P.fns[x[0]].loc(nid)))
            R.bad("L02.join", l, f.loc(i), "%s takes %s, but threads running it are waited for while that lock is held (%s)" %
                  (f.name, lname(l), f0.loc(i0) if x0 is None else G.chain(x0, l)[0]), t)
        else:
            R.ok("L02.join", "%s: %d entries of tasks" % (l, len(entries)))
    return life


def flagged(P, L, G, f, i, lock, x):
    """the acquisition happens only while a flag is set, which the holder's callers clear first"""
    text, h = G.chain(x, lock)
    if h is None:
        return False
    cls = lock.rsplit("::", 1)[0]
    seen = []

    def step(ex, st, fr, ev, s):
        if ev[0] == "branch":
            t, tr = test_of(ev)
            if t[0] == "ld" and tr:
                return s | {t[1][2] if len(t[1]) > 2 else str(t[1])}
        if ev[0] == "lock" and locis(ev[1], lname(lock)):
            seen.append(s)
        return s
    RR = Result("x", "x")
    RR.rule("x", "x")
    automaton(RR, P, f, "x", "x", frozenset(), step, lambda f, nid, n: lock_name(f, nid) is not None or n["k"] == "mem", this_cls=f.cls)
    if not seen:
        return False
    flags = frozenset.intersection(*seen)
    if not flags:
        return False
    # every caller of the holder has cleared one of them
    callers = sorted({c[0] for c in G.out for g, _, _, _ in G.out[c] if g == h.key})
    if not callers:
        return False
    for c in callers:
        calls = []

        def step2(ex, st, fr, ev, s):
            if ev[0] == "write":
                for q in flags:
                    if locis(ev[1], lname(q)):
                        return (s | {q}) if const(ev[2]) == 0 else s - {q}
            if ev[0] == "call" and ev[1] == h.name:
                calls.append(s)
            return s
        RR = Result("x", "x")
        RR.rule("x", "x")
        automaton(RR, P, P.fns[c], "x", "x", frozenset(), step2, lambda f, nid, n: True, this_cls=cls, boundary=[h.name])
        if not calls or not frozenset.intersection(*calls):
            return False
    return True


# what has ended when a client has no callback threads any more (F01.client: closing its streams and its timer threads come first)
ENDED = {"RpcClientImpl::StopStreams", "RpcClientImpl::Stop", "RpcTimeoutManager::timer_run"}


def after_threads(P, f, i):
    """the call runs only when the client has been stopped and has no callback threads left"""
    if f.cls != "RpcClientImpl":
        return False
    seen = []

    def step(ex, st, fr, ev, s):
        if ev[0] == "branch":
            t, tr = test_of(ev)
            if is_ld(t, "_callback_thread_group"):
                return not tr
        if ev[0] == "call" and ev[4] == i and fr.fn.key == f.key:
            seen.append(s)
        return s
    RR = Result("x", "x")
    RR.rule("x", "x")
    automaton(RR, P, f, "x", "x", None, step, lambda f, nid, n: n["k"] in CALLS or n["k"] == "mem", this_cls=f.cls, boundary=["ThreadGroupImpl::post"])
    return bool(seen) and all(x is True for x in seen)


def user_rule(R, P, L, G, life):
    for f in sorted(P.fns.values(), key=lambda f: f.key):
        for i, n in enumerate(f.nodes):
            if n["k"] not in CALLS or not runs_user(P, f, n):
                continue
            # the completion a service method was given is the library's own
            if n.get("o") is not None:
                o = f.nodes[strip_casts(f, n["o"])]
                if o["k"] == "var" and o["i"] in f.params and any(x.startswith("builtin::BuiltinService::") for x in f.d.get("ov") or ()):
                    R.ok("L02.user", "%s: the server's completion" % f.name)
                    continue
            late = None
            for l, (x, own) in sorted(G.held(f, i).items()):
                if l in life:
                    continue
                if not own:
                    late = after_threads(P, f, i) if late is None else late
                    if late and all(G.holders(c, l) <= ENDED for c in G.contexts(f) if l in G.may[c]):
                        continue
                R.bad("L02.user", "%s in %s" % (short(n["n"]), f.name), f.loc(i), "code of the user runs while %s is held" % lname(l),
                      [] if x is None else ["entered with the lock held: " + G.chain(x, l)[0]])
                break
            else:
                R.ok("L02.user", "%s in %s" % (short(n["n"]), f.name))


def wait_rule(R, P, L, G, life):
    for f in sorted(P.fns.values(), key=lambda f: f.key):
        if G.primitive(f):
            continue
        for i, n in enumerate(f.nodes):
            if n["k"] not in ("call", "mcall"):
                continue
            nm = n.get("n") or ""
            sleeps = nm in SLEEPS or nm == "WaitEvent::Wait" or nm.startswith("boost::asio::") and short(nm) in ("run", "run_one")
            if not sleeps:
                continue
            mutex = lock_name(f, n["a"][1]) if nm.startswith("pthread_cond") else None
            held = G.held(f, i)
            bad = [l for l in sorted(held) if l not in life and l != mutex]
            if nm.startswith("pthread_cond") and mutex not in L.at(f, i):
                R.bad("L02.wait", "%s in %s" % (nm, f.name), f.loc(i), "the mutex of the wait is not held", [])
            elif bad:
                x = held[bad[0]][0]
                R.bad("L02.wait", "%s in %s" % (short(nm), f.name), f.loc(i), "%s waits while %s is held" % (f.name, lname(bad[0])),
                      [] if x is None else ["entered with the lock held: " + G.chain(x, bad[0])[0]])
            else:
                R.ok("L02.wait", "%s in %s" % (short(nm), f.name))
            if nm == "pthread_cond_wait":
                def step(ex, st, fr, ev, s):
                    if ev[0] == "call" and ev[1] == nm:
                        return "woken"
                    if ev[0] == "branch" and s == "woken":
                        t, tr = test_of(ev)
                        if t[0] == "ld":
                            return "tested"
                    return s
                def fin(ex, st, fr, s):
                    if s == "woken":
                        ex.report(st, fr, i, "after waking the condition is not tested again")
                automaton(R, P, f, "L02.wait", f.name + ": condition", "", step, calls_named(nm), fin, this_cls=f.cls)


def balance_rule(R, P, L):
    for f in sorted(P.fns.values(), key=lambda f: f.key):
        held, ops = L.info[f.key]
        if not ops or f.cls and f.cls.split("::")[-1] in PRIMITIVE:
            continue
        state = {f.entry: frozenset()}
        work = [f.entry]
        while work:
            b = work.pop()
            s = state[b]
            for e in f.blocks[b]["e"]:
                if isinstance(e, dict):
                    d = e.get("dtor")
                    if d and d.get("i") in held:
                        s = s - {held[d["i"]][0]}
                    continue
                o = ops.get(e)
                if o:
                    s = s | {o[1]} if o[0] == "acquire" else s - {o[1]}
            for t in succs(f, b):
                if not s <= state.get(t, frozenset([None])):
                    state[t] = state.get(t, frozenset()) | s
                    work.append(t)
        left = state.get(f.d["exit"], frozenset()) - {None}
        R.decide("L02.balance", f.name, not left, where(f), "%s can return with %s still locked" % (f.name, ", ".join(sorted(lname(x) for x in left))))
