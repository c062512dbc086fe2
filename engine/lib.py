"""Shared pieces of the rules: matchers over terms, the label monitor, result
collection, evidence and verdict output."""
import json, os, sys, time, traceback
import facts as factsmod
from facts import Broken
import core
from core import Program, Explorer, Monitor, show, contains, subterms, mk_eq, mk_lt, mk_not, NULL

VERIF = factsmod.VERIF
_prog = None
_keep = []        # predicates stay alive: their identity keys the relevance caches
DEEP = 0          # 1: thorough tier, longer label traces (one more unrolling)


def program(repo="/repo"):
    global _prog
    if _prog is None:
        _prog = Program(factsmod.load(repo))
    return _prog


# ------------------------------------------------------------ matchers
def short(n):
    return n.rsplit("::", 1)[-1] if n else n


def is_ld(t, field=None, base=None):
    """t is the content of a field (suffix match on the qualified name)"""
    if t[0] != "ld" or t[1][0] != "F":
        return False
    if field is not None and not fieldis(t[1][2], field):
        return False
    return base is None or t[1][1] == base


def fieldis(q, name):
    return q == name or q.endswith("::" + name)


def locis(loc, name, base=None):
    return bool(loc) and loc[0] == "F" and fieldis(loc[2], name) and (base is None or loc[1] == base)


def has_ld(t, field):
    return contains(t, lambda x: x[0] == "ld" and len(x) > 1 and isinstance(x[1], tuple) and x[1] and x[1][0] == "F" and fieldis(x[1][2], field))


def has_field(t, field):
    return contains(t, lambda x: x[0] == "F" and len(x) == 3 and isinstance(x[2], str) and fieldis(x[2], field))


def is_call(t, *names):
    return t[0] == "call" and (t[1] in names or short(t[1]) in names)


def has_call(t, *names):
    return contains(t, lambda x: len(x) >= 4 and x[0] == "call" and (x[1] in names or short(x[1]) in names))


def unneg(t, truth):
    while t[0] == "not":
        t, truth = t[1], not truth
    return t, truth


def unsite(t):
    """drop creation sites so that terms can be compared across paths"""
    if not isinstance(t, tuple):
        return t
    if t and t[0] == "call":
        return ("call", t[1], unsite(t[2]), tuple(unsite(a) for a in t[3]))
    if t and t[0] == "ld":
        return ("ld", unsite(t[1]))
    return tuple(unsite(x) for x in t)


# ------------------------------------------------------------ results
class Result:
    def __init__(self, pid, title):
        self.pid = pid
        self.title = title
        self.obligations = []      # (rule, instance, ok, detail)
        self.violations = []       # dict(rule, instance, where, msg, path)
        self.functions = set()
        self.states = 0
        self.paths = 0
        self.events = 0
        self.sites = 0
        self.notes = []
        self.rules = {}

    def rule(self, rid, text):
        self.rules[rid] = text

    def ok(self, rule, instance, detail=""):
        self.obligations.append((rule, instance, True, detail))

    def bad(self, rule, instance, where, msg, path=()):
        self.obligations.append((rule, instance, False, msg))
        self.violations.append({"rule": rule, "instance": instance, "where": where, "msg": msg,
                                "path": list(path)})

    def decide(self, rule, instance, cond, where, msg, path=()):
        assert isinstance(where, str)
        if cond:
            self.ok(rule, instance)
        else:
            self.bad(rule, instance, where, msg, path)
        return cond

    def absorb(self, ex, rule, instance):
        """take over the outcome of one exploration as one obligation"""
        self.states += ex.states
        self.paths += ex.exits
        self.events += ex.events
        self.functions.add(ex.root.fn.key)
        self.functions |= ex.inlined
        if ex.reports:
            for r in ex.reports:
                self.violations.append({"rule": rule, "instance": instance, "where": r["where"],
                                        "msg": "%s (in %s, entry %s)" % (r["msg"], r["fn"], ex.root.fn.name),
                                        "path": r["path"]})
            self.obligations.append((rule, instance, False, ex.reports[0]["msg"]))
        else:
            self.obligations.append((rule, instance, True, "%d states, %d paths" % (ex.states, ex.exits)))


class Labels(Monitor):
    """Records an ordered, loop-bounded trace of labels per path.

    lab(ex, st, fr, ev) -> hashable label, a list of labels, or None."""
    def __init__(self, lab, interesting, cap=2, maxlen=40, boundary=(), enter=(), depth=7, reads=False,
                 ident=None, inline=None):
        self.lab = lab
        _keep.append(interesting)
        self._int = interesting
        self.cap = cap + DEEP
        self.maxlen = maxlen + 16 * DEEP
        self.boundary = frozenset(boundary)
        self.enter = frozenset(enter)
        self.max_depth = depth
        self.reads = reads
        self._ident = ident
        self._inl = inline
    def ident(self):
        return ("labels", self._ident or id(self._int))
    def init(self, ex):
        return ()
    def interesting(self, f, nid, n):
        return self._int(f, nid, n)
    def inline(self, ex, fr, n, targets, recv, args):
        if self._inl:
            return self._inl(ex, fr, n, targets, recv, args)
        return None
    def event(self, ex, st, fr, ev):
        l = self.lab(ex, st, fr, ev)
        if l is None:
            return st.mon
        m = st.mon
        for x in (l if isinstance(l, list) else [l]):
            if m.count(x) < self.cap and len(m) < self.maxlen:
                m = m + (x,)
        return m


class Auto(Monitor):
    """a small automaton: step(ex, st, fr, ev, state) -> state,
    final(ex, st, fr, state) judges a completed path"""
    def __init__(self, start, step, interesting, final=None, boundary=(), enter=(), depth=7, reads=False, ident=None, inline=None):
        self.start = start
        self.step = step
        _keep.append(interesting)
        self.final = final
        self._int = interesting
        self.boundary = frozenset(boundary)
        self.enter = frozenset(enter)
        self.max_depth = depth
        self.reads = reads
        self._ident = ident
        self._inl = inline
    def ident(self):
        return ("auto", self._ident or id(self._int))
    def init(self, ex):
        return self.start
    def interesting(self, f, nid, n):
        return self._int(f, nid, n)
    def inline(self, ex, fr, n, targets, recv, args):
        return self._inl(ex, fr, n, targets, recv, args) if self._inl else None
    def event(self, ex, st, fr, ev):
        r = self.step(ex, st, fr, ev, st.mon)
        return st.mon if r is None else r
    def at_exit(self, ex, st, fr):
        if self.final:
            self.final(ex, st, fr, st.mon)


def automaton(R, P, fn, rule, instance, start, step, interesting, final=None, this_cls=None, **kw):
    """run one automaton from one entry and record the outcome as one obligation"""
    f = fn if not isinstance(fn, str) else P.fn(fn)
    ek = {k: kw.pop(k) for k in ("assume", "init", "prep") if k in kw}
    ex = Explorer(P, Auto(start, step, interesting, final, **kw), this_cls)
    outs = ex.run(f, **ek)
    if not outs:
        raise Broken("no complete path through %s (%s)" % (f.name, rule))
    R.absorb(ex, rule, instance)
    return outs, ex


def unwrap(t):
    """value without integer conversions"""
    while t and t[0] in ("trunc", "bool"):
        t = t[1]
    return t


def retbool(ex, st, v):
    """truth of a returned value on this path, if it is determined"""
    c = unwrap(v)
    if c[0] == "c":
        return bool(c[1])
    t, tr = unneg(c, True)
    if t[0] in ("eq", "lt"):
        r = ex.truth(st, t)
    else:
        r = ex.truth(st, mk_eq(t, NULL))
        r = None if r is None else not r
    return None if r is None else r == tr


def test_of(ev):
    """(term, truth) of a branch with negations and comparisons with 0 removed"""
    t, tr = unneg(ev[1], ev[2])
    if t[0] == "eq" and t[2] == NULL:
        t, tr = unneg(t[1], not tr)
    return t, tr


def traces(R, P, fn, lab, interesting, rule, instance, this_cls=None, cap=2, **kw):
    """-> list of (labels, state, explorer)"""
    f = fn if not isinstance(fn, str) else P.fn(fn)
    ek = {k: kw.pop(k) for k in ("assume", "init", "prep") if k in kw}
    capn = kw.pop("budget", 400000)
    mon = Labels(lab, interesting, cap=cap, **kw)
    ex = Explorer(P, mon, this_cls, cap=capn)
    outs = ex.run(f, **ek)
    R.states += ex.states
    R.paths += len(outs)
    R.events += ex.events
    R.functions.add(f.key)
    R.functions |= ex.inlined
    if not outs:
        raise Broken("no complete path through %s (%s)" % (f.name, rule))
    return [(s.mon, s) for s in outs], ex


def calls_named(*names):
    ns = set(names)
    def pred(f, nid, n):
        return n["k"] in ("call", "mcall", "ocall", "ctor") and n.get("n") is not None and (n["n"] in ns or short(n["n"]) in ns)
    return pred


def any_of(*preds):
    return lambda f, nid, n: any(p(f, nid, n) for p in preds)


def writes_field(*names):
    def pred(f, nid, n):
        return any(any(fieldis(m, x) for x in names) for m in core.written_fields(f, n))
    return pred


def mentions_field(*names):
    def pred(f, nid, n):
        return n["k"] == "mem" and any(fieldis(n["fld"], x) for x in names)
    return pred


def callers_of(P):
    c = getattr(P, "_callers", None)
    if c is None:
        c, refd = {}, set()
        for f in P.fns.values():
            for kind, t, _ in P.edges(f):
                if kind == "call":
                    c.setdefault(t, set()).add(f.key)
                else:
                    refd.add(t)
        P._callers, P._refd = c, refd
    return P._callers


def is_helper(P, f):
    """reached only through direct calls from inside the repository"""
    c = callers_of(P)
    if f.key not in c or f.key in P._refd or f.virt or f.ov:
        return False
    if f.d.get("ctor") or f.d.get("dtor"):
        return False
    return f.access in (1, 2) or f.cls is None


def roots(P, keys):
    """entry functions through which the given functions are reached"""
    c = callers_of(P)
    out, seen, st = set(), set(), list(keys)
    while st:
        k = st.pop()
        if k in seen:
            continue
        seen.add(k)
        f = P.fns[k]
        if is_helper(P, f):
            st.extend(c[k])
        else:
            out.add(k)
    return [P.fns[k] for k in sorted(out)]


# ------------------------------------------------------------ output
def load_known():
    p = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]


def finish(R, tier, t0, expect_min):
    """write evidence, print the verdict, return the exit status"""
    pid = R.pid
    n = len(R.obligations)
    if n < expect_min:
        print("ANALYSIS-BROKEN property=%s only %d rule instances (expected at least %d)" % (pid, n, expect_min))
        return 2
    known = [k for k in load_known() if k["property"] == pid and k.get("status", "open") == "open"]
    new, old = [], []
    for v in R.violations:
        hit = None
        for k in known:
            if k["rule"] == v["rule"] and k["instance"] == v["instance"] and k.get("function", "") in v["msg"]:
                hit = k
                break
        (old if hit else new).append((v, hit))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    discharged = sum(1 for o in R.obligations if o[2])
    P = _prog
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other",
        "coverage": {
            "explanation": "Static analysis of the resolved program (clang AST and control-flow graphs of every library unit). "
                           "Rules: " + "; ".join("%s: %s" % kv for kv in sorted(R.rules.items())),
            "units_parsed": len(P.facts["units"]) if P else 0,
            "functions_in_program": len(P.fns) if P else 0,
            "functions_analysed": len(R.functions),
            "function_names": sorted(set(P.fns[k].name for k in R.functions if k in P.fns))[:200] if P else [],
            "obligations": n, "discharged": discharged,
            "states_explored": R.states, "paths": R.paths, "events": R.events, "sites": R.sites,
            "instances": [{"rule": a, "instance": b, "ok": c, "detail": d} for a, b, c, d in R.obligations][:400],
            "known_findings": [dict(v, id=h.get("id")) for v, h in old],
            "violations": [v for v, h in new],
        },
        "wall_s": round(time.time() - t0, 3),
    }
    ep = os.path.join(VERIF, "evidence", pid + ".json")
    with open(ep + ".tmp", "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.rename(ep + ".tmp", ep)
    print("property %s: %s" % (pid, R.title))
    print("  analysed %d functions, %d states, %d rule instances (%d hold), %.1fs" % (
        len(R.functions), R.states, n, discharged, time.time() - t0))
    done = set()
    for v, h in old:
        if h["id"] not in done:
            done.add(h["id"])
            print("KNOWN-FINDING: property=%s %s" % (pid, h["what"]))
    if new:
        for i, (v, _) in enumerate(new[:20]):
            print("  [%s] %s at %s: %s" % (v["rule"], v["instance"], v["where"], v["msg"]))
            for p in v["path"]:
                print("        %s" % p)
        print("VIOLATION property=%s replay=%s" % (pid, ep))
        return 1
    return 0
