"""W05: exceptions and failing network operations."""
from lib import *
import core
from rules.calls import where, const, at, subj
from rules.server import p, mentions

CALLS = ("call", "mcall", "ocall", "ctor")
ASIO = {"open", "bind", "listen", "accept", "close", "cancel", "set_option", "get_option", "connect", "shutdown", "local_endpoint", "remote_endpoint",
        "resolve", "from_string", "make_address", "assign", "io_control", "available", "read_some", "write_some", "send", "receive", "release"}
NUMBERS = {"std::stoi", "std::stol", "std::stoll", "std::stoul", "std::stoull", "std::stod", "std::stof", "std::stold"}
# closing ignores errors: there is nothing left to do
CLOSING = {"close", "cancel", "shutdown", "release"}


def types_of(f, n):
    return [f.types[x]["n"] for x in n.get("pt", [])]


def network(f, n):
    """an operation of the network library: None, or whether it reports by error code"""
    nm = n.get("n") or ""
    if n["k"] not in CALLS or not nm.startswith("boost::asio::") or short(nm) not in ASIO or "timer" in nm or "detail" in nm or "io_context" in nm:
        return None
    return any("error_code" in t for t in types_of(f, n))


def throwing(f, n):
    if n["k"] not in CALLS:
        return False
    nm = n.get("n") or ""
    if network(f, n) is False:
        return True
    if nm in NUMBERS:
        return True
    if short(nm) == "lexical_cast" and any("char" in t or "string" in t for t in types_of(f, n)):
        return True
    return False


def exception_rules(R, P):
    R.rule("W05.contain", "no exception leaves the library, whatever text or failure causes it")
    R.rule("W05.checked", "the result of a network operation is looked at before it is relied on")
    contain(R, P)
    checked(R, P)
    depth(R, P)


def contain(R, P):
    # what can leave a function: function -> (node, description)
    leak = {}
    tries = {f.key: set(f.d.get("intry") or ()) for f in P.fns.values()}
    sites = []
    for f in P.fns.values():
        for i, n in enumerate(f.nodes):
            if n["k"] == "throw":
                sites.append((f, i, "throw"))
                if i not in tries[f.key]:
                    leak.setdefault(f.key, (i, None))
            elif throwing(f, n):
                sites.append((f, i, short(n["n"])))
                if i not in tries[f.key]:
                    leak.setdefault(f.key, (i, None))
            elif network(f, n):
                R.ok("W05.contain", "%s in %s" % (short(n["n"]), f.name))
    if not sites:
        R.ok("W05.contain", "operations that throw")
    callers = callers_of(P)
    calls = {}
    for f in P.fns.values():
        for kind, k, nid in P.edges(f):
            if kind == "call":
                calls.setdefault(k, []).append((f.key, nid))
    work = list(leak)
    while work:
        k = work.pop()
        for c, nid in calls.get(k, ()):
            if nid in tries[c] or c in leak:
                continue
            leak[c] = (nid, k)
            work.append(c)

    def chain(k):
        out = []
        while k is not None and len(out) < 12:
            nid, nxt = leak[k]
            f = P.fns[k]
            out.append("%s in %s" % (f.loc(nid) if nid >= 0 else where(f), f.name))
            k = nxt
        return out

    def origin(k):
        while leak[k][1] is not None:
            k = leak[k][1]
        return k
    bad = {}
    for k in leak:
        f = P.fns[k]
        outer = k not in calls or k in P._refd or f.virt or f.ov
        if not outer:
            continue
        # a conversion of the library's own helpers that nothing uses
        if k not in calls and P.fns[origin(k)].file == f.file and not f.virt and not f.ov and k not in P._refd and leak[origin(k)][0] >= 0 and \
                P.fns[origin(k)].nodes[leak[origin(k)][0]]["k"] == "throw":
            continue
        bad.setdefault(origin(k), []).append(k)
    for f, i, what in sites:
        inst = "%s in %s" % (what, f.name)
        b = bad.get(f.key)
        if b and i not in tries[f.key]:
            k = min(b, key=lambda x: len(chain(x)))
            R.bad("W05.contain", inst, f.loc(i), "an exception thrown here leaves %s" % P.fns[k].name, chain(k))
        else:
            R.ok("W05.contain", inst)


def checked(R, P):
    keys = set()
    for f in P.fns.values():
        if any(network(f, n) and short(n["n"]) not in CLOSING for n in f.nodes):
            keys.add(f.key)
    if not keys:
        raise Broken("no network operation found")
    for f in roots(P, keys):
        def step(ex, st, fr, ev, s):
            pend = s
            k = ev[0]
            if k == "branch" and pend:
                t = ev[1]
                if contains(t, lambda y: any(y == l or y[0] == "clob" and y[1] == l for l, _, _ in pend) or is_call(y, "{conv}_Bool", "operator bool", "value", "operator!")):
                    return ()
                if contains(t, lambda y: y[0] == "call" and "endpoint" not in y[1] and any(y[1].startswith(x) for x in ("boost::asio::ip::operator", "boost::system::operator"))):
                    return ()
                return s
            if k == "call":
                n = fr.fn.nodes[ev[4]]
                w = network(fr.fn, n)
                if w and short(ev[1]) not in CLOSING:
                    for l, x, nid in pend:
                        ex.report(st, fr, nid, "the result of %s is not looked at" % x)
                    ec = [a for a, t in zip(ev[3], types_of(fr.fn, n)[-len(ev[3]):]) if "error_code" in t] if ev[3] else []
                    return ((ec[-1] if ec else ("x",), short(ev[1]), ev[4]),)
            return s

        def fin(ex, st, fr, s):
            for l, x, nid in s:
                ex.report(st, fr, None, "the result of %s is not looked at" % x)
        names = sorted({n["n"] for n in f.nodes if n["k"] in CALLS and network(f, n)}) or list(ASIO)
        automaton(R, P, f, "W05.checked", f.key.split("(")[0], (), step, lambda g, i, n: bool(network(g, n)), fin,
                  this_cls=f.cls, ident=f.key)


def depth(R, P):
    R.rule("W05.depth", "a JSON document is parsed only after its nesting was found bounded: every level takes stack")
    isparse = lambda n: n["k"] in CALLS and (n.get("n") or "").startswith("rapidjson::") and "Document" in n["n"] and short(n["n"]) in ("Parse", "ParseInsitu", "ParseStream", "ParseStream") and n.get("a") is not None
    # functions that bound the nesting: they count both kinds of brackets and compare with a limit
    bounds = {}
    for f in P.fns.values():
        if any(isparse(n) for n in f.nodes) or f.file.startswith("src/rapidjson"):
            continue
        lits = {n.get("v") for n in f.nodes if n["k"] == "lit"}
        if not {91, 123} <= lits:
            continue

        def step(ex, st, fr, ev, s):
            if ev[0] == "branch":
                t, tr = unneg(ev[1], ev[2])
                if t[0] == "lt" and (const(t[1]) is not None and 16 <= const(t[1]) <= 5000 and tr or const(t[2]) is not None and 16 <= const(t[2]) <= 5000 and not tr):
                    return "deep"
            return s
        rets = {"deep": set(), None: set()}

        def fin(ex, st, fr, s):
            pass

        def step2(ex, st, fr, ev, s):
            s = step(ex, st, fr, ev, s)
            if ev[0] == "ret" and fr.depth == 0:
                b = retbool(ex, st, ev[1])
                rets[s].add(b)
            return s
        automaton(R, P, f, "W05.depth", f.name, None, step2, lambda g, i, n: False, this_cls=f.cls, ident=f.key)
        if len(rets["deep"]) == 1 and None not in rets["deep"] and (rets["deep"] ^ {True, False}) & rets[None]:
            bounds[f.name] = list(rets["deep"])[0]
    fs = [f for f in P.fns.values() if any(isparse(n) for n in f.nodes) and not f.file.startswith("src/rapidjson")]
    if not fs:
        raise Broken("no JSON document is parsed")
    for f in roots(P, {f.key for f in fs}):
        def step(ex, st, fr, ev, s):
            if ev[0] == "branch":
                u, tr = test_of(ev)
                if is_call(u, *bounds) if bounds else False:
                    name = [b for b in bounds if u[1] == b or u[1].endswith("::" + b) or b.endswith("::" + u[1])]
                    if name:
                        txt = unsite(unwrap(u[3][0]))
                        return s | {txt} if tr != bounds[name[0]] else s - {txt}
                return s
            if ev[0] == "call" and isparse(fr.fn.nodes[ev[4]]):
                a = [unsite(unwrap(x)) for x in ev[3]]
                if not any(same(x, y) for x in a for y in s):
                    ex.report(st, fr, ev[4], "a document may be parsed that is nested too deep for the stack")
            return s

        def same(x, y):
            return x == y or x[0] not in ('c', 'str') and (mentions(x, y) or mentions(y, x)) and y[0] not in ('c', 'str')
        automaton(R, P, f, "W05.depth", f.name, frozenset(), step, lambda g, i, n: isparse(n), this_cls=f.cls, ident=f.key)
