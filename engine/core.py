"""Path-sensitive dataflow over the extracted control-flow graphs.

A rule runs a *monitor* (a finite automaton over events) along every path of an
entry function.  The explorer keeps, per path, value numbers for locals and
fields, the branch outcomes that still matter, and the set of held locks;
states are joined when they agree, loops therefore reach a fixpoint.  Calls to
repository functions are resolved (virtual calls by class hierarchy) and
entered whenever they can produce an event the monitor is interested in, so a
rule does not depend on how the code is cut into helper functions.

Terms (value numbers) are tuples:
  ('c',n) constant            ('this',)            ('p',fn,i) root parameter
  ('L',fn,i) local variable   ('F',base,field)     location of a field
  ('ld',loc[,tag]) content of a location at function entry / after a clobber
  ('call',name,recv,args,site) result of an opaque call
  ('cas'|'xchg',loc,...,site)  result of an atomic operation
  ('eq',a,b) ('lt',a,b) ('not',x) ('op',o,a,b)
"""
import sys
from collections import defaultdict, deque
from facts import Broken

sys.setrecursionlimit(20000)

PTRCLS = ("shared_ptr", "scoped_ptr", "weak_ptr", "intrusive_ptr", "scoped_array",
          "std::shared_ptr", "std::unique_ptr", "std::weak_ptr", "boost::shared_ptr",
          "boost::scoped_ptr", "boost::weak_ptr", "std::auto_ptr")
OWNING = ("scoped_ptr", "scoped_array", "boost::scoped_ptr", "std::unique_ptr", "std::auto_ptr")   # delete what they hold when they go
# functions of the library that leave their arguments alone although they take them by reference
LEAVING = ("std::make_pair", "std::forward", "std::move", "std::min", "std::max", "std::pair::pair", "std::make_tuple", "std::addressof")
NULL = ("c", 0)


def base_type(n):
    return n.split("<", 1)[0].strip()


class Fn:
    __slots__ = ("d", "key", "name", "cls", "nodes", "vars", "types", "blocks", "entry", "exit",
                 "params", "file", "line", "cross", "ov", "virt", "ret", "order", "live",
                 "retref", "objinit", "_calls", "static", "access", "addrtaken", "_edges", "_looped")

    def __init__(self, d):
        self.d = d
        self.key = d["key"]
        self.name = d["name"]
        self.cls = d.get("cls")
        self.nodes = d["nodes"]
        self.vars = d["vars"]
        self.types = d["types"]
        self.file = d["file"]
        self.line = d["line"]
        self.params = d["params"]
        self.ov = d.get("ov", [])
        self.virt = bool(d.get("virt"))
        self.static = bool(d.get("static"))
        self.access = d.get("acc")
        self.blocks = {b["id"]: b for b in d.get("blocks", [])}
        self.entry = d.get("entry")
        self.exit = d.get("exit")
        self.ret = self.types[d["ret"]]
        self.retref = bool(self.ret.get("ref"))
        self._calls = None
        self._edges = None
        self._looped = None
        # nodes used in another block than the one computing them
        home = {}
        for b in self.blocks.values():
            for e in b["e"]:
                if isinstance(e, int):
                    home[e] = b["id"]
        cross = set()
        for b in self.blocks.values():
            for e in b["e"]:
                if isinstance(e, int):
                    todo = list(children(self.nodes[e]))
                    while todo:
                        c = todo.pop()
                        if c is None or c < 0:
                            continue
                        if c not in home:       # evaluated in place (nested && and ||)
                            todo.extend(children(self.nodes[c]))
                        elif home[c] != b["id"]:
                            cross.add(c)
                elif "init" in e and home.get(e["init"]["x"], b["id"]) != b["id"]:
                    cross.add(e["init"]["x"])
            if "c" in b and home.get(b["c"], b["id"]) != b["id"]:
                cross.add(b["c"])
        self.cross = cross
        self.objinit = set()      # constructor nodes that initialise a named object / new / member
        for n in self.nodes:
            if n["k"] == "decl":
                for dd in n["d"]:
                    if "x" in dd:
                        self.objinit.add(dd["x"])
            elif n["k"] == "new" and "x" in n:
                self.objinit.add(n["x"])
        for b in self.blocks.values():
            for e in b["e"]:
                if isinstance(e, dict) and "init" in e:
                    self.objinit.add(e["init"]["x"])
        self.addrtaken = None
        self.live = None

    def ty(self, nid):
        t = self.nodes[nid].get("t")
        return self.types[t] if t is not None else {"n": ""}

    def vty(self, vid):
        return self.types[self.vars[vid]["t"]]

    def looped(self):
        """the nodes evaluated in blocks that lie on a cycle"""
        if self._looped is None:
            res = set()
            for b in self.blocks.values():
                seen, todo = set(), list(b["s"])
                while todo:
                    x = todo.pop()
                    if x is None or x in seen or x not in self.blocks:
                        continue
                    seen.add(x)
                    todo.extend(self.blocks[x]["s"])
                if b["id"] in seen:
                    res |= {e for e in b["e"] if isinstance(e, int)}
            self._looped = res
        return self._looped

    def loc(self, nid):
        return "%s:%s" % (self.file, self.nodes[nid].get("l", self.line))

    def compute_live(self):
        """live-in variable sets per block; class-type / address-taken locals
        are always considered live."""
        if self.live is not None:
            return
        gen, kill = {}, {}
        always = set()
        for nid, n in enumerate(self.nodes):
            if n["k"] == "un" and n["op"] == "&":
                x = self.nodes[n["x"]]
                if x["k"] == "var":
                    always.add(x["i"])
        for i, v in enumerate(self.vars):
            t = self.types[v["t"]]
            if t.get("ref") or not scalar_type(t):
                always.add(i)
        def uses(nid, out, seen):
            if nid is None or nid < 0 or nid in seen:
                return
            seen.add(nid)
            n = self.nodes[nid]
            if n["k"] == "var":
                out.add(n["i"])
            for c in children(n):
                uses(c, out, seen)
        for b in self.blocks.values():
            u, k = set(), set()
            for e in b["e"]:
                if isinstance(e, int):
                    n = self.nodes[e]
                    if n["k"] == "decl":
                        for dd in n["d"]:
                            s = set()
                            if "x" in dd:
                                uses(dd["x"], s, set())
                            u |= s - k
                            k.add(dd["i"])
                    elif n["k"] == "asg" and n["op"] == "=" and self.nodes[n["x"]]["k"] == "var":
                        s = set()
                        uses(n["y"], s, set())
                        u |= s - k
                        # the LHS var node itself is an element too; harmless
                        k.add(self.nodes[n["x"]]["i"])
                    else:
                        s = set()
                        uses(e, s, set())
                        u |= s - k
                elif "init" in e:
                    s = set()
                    uses(e["init"]["x"], s, set())
                    u |= s - k
                elif "dtor" in e:
                    u.add(e["dtor"]["i"])
            if "c" in b:
                s = set()
                uses(b["c"], s, set())
                u |= s - k
            gen[b["id"]], kill[b["id"]] = u, k
        live = {i: set() for i in self.blocks}
        ch = True
        while ch:
            ch = False
            for i, b in self.blocks.items():
                o = set()
                for s in b["s"]:
                    if s >= 0:
                        o |= live[s]
                ni = gen[i] | (o - kill[i])
                if ni != live[i]:
                    live[i] = ni
                    ch = True
        self.live = {i: frozenset(s | always) for i, s in live.items()}


def scalar_type(t):
    if t.get("b") or "w" in t or t.get("p") or t.get("f"):
        return True
    n = t.get("n", "")
    bt = base_type(n.replace("const ", ""))
    if bt in PTRCLS:
        return True
    if "iterator" in n or n.startswith("std::_") or n.startswith("__gnu_cxx::__normal_iterator"):
        return True
    return False


def children(n):
    r = []
    for k in ("b", "x", "y", "c", "o", "fx", "n_"):
        v = n.get(k)
        if isinstance(v, int) and v >= 0 and not (k == "b" and n["k"] not in ("mem", "fnref")):
            r.append(v)
    for v in n.get("a", ()):
        if v >= 0:
            r.append(v)
    if n["k"] == "decl":
        for d in n["d"]:
            if "x" in d:
                r.append(d["x"])
    return r


class Program:
    def __init__(self, facts):
        self.facts = facts
        self.fns = {k: Fn(d) for k, d in facts["functions"].items()}
        self.classes = facts["classes"]
        self.enums = facts["enums"]
        self.byname = defaultdict(list)
        for f in self.fns.values():
            self.byname[f.name].append(f)
        self.overriders = defaultdict(list)   # base key -> fn keys overriding it
        for f in self.fns.values():
            for o in f.ov:
                self.overriders[o].append(f.key)
        self.derived = defaultdict(set)
        for c in self.classes.values():
            for b in c["bases"]:
                self.derived[b].add(c["name"])
        self._reach = {}
        self._mod = None
        self._dtor = {}
        self._mods = {}
        self._mcache = {}
        self._ofields = {}
        self._ctg = {}

    def own_fields(self, key):
        r = self._ofields.get(key)
        if r is None:
            f = self.fns[key]
            r = frozenset(n["fld"] for n in f.nodes if n["k"] == "mem")
            self._ofields[key] = r
        return r

    def call_targets(self, f, nid):
        m = self._ctg.get(f.key)
        if m is None:
            m = defaultdict(list)
            for kind, t, x in self.edges(f):
                if kind == "call":
                    m[x].append(t)
            self._ctg[f.key] = m
        return m.get(nid, ())

    # ---- lookup
    def fn(self, name, nparams=None, must=True):
        l = [f for f in self.byname.get(name, []) if nparams is None or len(f.params) == nparams]
        if not l:
            if must:
                raise Broken("anchor function %s not found" % name)
            return None
        if len(l) > 1:
            # prefer the one with most blocks
            l.sort(key=lambda f: -len(f.blocks))
        return l[0]

    def all(self, name):
        return self.byname.get(name, [])

    def enum_value(self, name):
        for e in self.enums.values():
            for k, v in e.items():
                if k == name or k.endswith("::" + name):
                    return v
        raise Broken("enumerator %s not found" % name)

    def subclasses(self, c):
        out, st = set(), [c]
        while st:
            x = st.pop()
            for d in self.derived.get(x, ()):
                if d not in out:
                    out.add(d)
                    st.append(d)
        return out

    def bases(self, c):
        out, st = set(), [c]
        while st:
            x = st.pop()
            for b in self.classes.get(x, {}).get("bases", ()):
                if b not in out:
                    out.add(b)
                    st.append(b)
        return out

    def is_a(self, c, base):
        return c == base or base in self.bases(c)

    def field_type(self, q):
        c = q.rsplit("::", 1)[0]
        for x in self.classes.get(c, {}).get("fields", ()):
            if x["n"] == q:
                return x["t"]
        return None

    # ---- resolution
    def targets(self, n, this_cls=None, recv_is_this=False):
        """repository functions a call node may invoke"""
        key = n.get("f")
        if key is None:
            return []
        if n.get("virt") and not n.get("nonvirt"):
            cands = list(self.overriders.get(key, ()))
            if key in self.fns:
                cands.append(key)
            if this_cls and recv_is_this:
                # most derived definition for the given dynamic class
                best = None
                for c in cands:
                    cc = self.fns[c].cls
                    if self.is_a(this_cls, cc):
                        if best is None or self.is_a(cc, self.fns[best].cls):
                            best = c
                return [best] if best else []
            return cands
        return [key] if key in self.fns else []

    def edges(self, f):
        """(kind, callee key, node id): direct calls, bound functions, dtors."""
        if f._edges is not None:
            return f._edges
        out = []
        called = set()
        for nid, n in enumerate(f.nodes):
            if n["k"] in ("call", "mcall", "ocall", "ctor") and n.get("f"):
                for t in self.targets(n):
                    out.append(("call", t, nid))
            if n["k"] == "lambda":
                for t in self.targets(n):
                    out.append(("ref", t, nid))
        # function references that are not callees: address taken (bind, callbacks)
        for nid, n in enumerate(f.nodes):
            if n["k"] == "un" and n["op"] == "&" and f.nodes[n["x"]]["k"] == "fnref":
                for t in self.targets(f.nodes[n["x"]]):
                    out.append(("ref", t, nid))
        for b in f.blocks.values():
            for e in b["e"]:
                if isinstance(e, dict) and "dtor" in e:
                    t = base_type(f.types[e["dtor"]["t"]]["n"].replace("const ", ""))
                    d = self.dtor_of(t)
                    if d:
                        out.append(("call", d, -1))
        for nid, n in enumerate(f.nodes):
            if n["k"] == "del":
                t = f.ty(n["x"])["n"].replace("const ", "").rstrip("* ").strip()
                for c in [t] + sorted(self.subclasses(t)):
                    d = self.dtor_of(c)
                    if d:
                        out.append(("call", d, nid))
        f._edges = out
        return out

    def dtor_of(self, cls):
        if cls not in self._dtor:
            k = cls + "::{dtor}()"
            self._dtor[cls] = k if k in self.fns else None
        return self._dtor[cls]

    def reachable(self, keys, kinds=("call",)):
        seen, st = set(keys), list(keys)
        while st:
            k = st.pop()
            f = self.fns.get(k)
            if not f:
                continue
            for kind, t, _ in self.edges(f):
                if kind in kinds and t not in seen:
                    seen.add(t)
                    st.append(t)
        return seen

    def relevance(self, ident, pred):
        """set of function keys that may (transitively) contain a node for
        which pred(fn, nid, node) holds"""
        if ident in self._reach:
            return self._reach[ident]
        direct = set()
        rev = defaultdict(set)
        for f in self.fns.values():
            for nid, n in enumerate(f.nodes):
                if pred(f, nid, n):
                    direct.add(f.key)
                    break
            for kind, t, _ in self.edges(f):
                if kind == "call":
                    rev[t].add(f.key)
        seen, st = set(direct), list(direct)
        while st:
            k = st.pop()
            for p in rev.get(k, ()):
                if p not in seen:
                    seen.add(p)
                    st.append(p)
        self._reach[ident] = seen
        return seen

    def mods(self, key):
        """fields a function may write, transitively (by resolved field)"""
        if self._mod is None:
            direct = {}
            for f in self.fns.values():
                s = set()
                for nid, n in enumerate(f.nodes):
                    for m in written_fields(f, n):
                        s.add(m)
                direct[f.key] = s
            rev = defaultdict(set)
            for f in self.fns.values():
                for kind, t, _ in self.edges(f):
                    if kind == "call":
                        rev[t].add(f.key)
            mod = {k: set(v) for k, v in direct.items()}
            st = deque(mod)
            inq = set(st)
            while st:
                k = st.popleft()
                inq.discard(k)
                for p in rev.get(k, ()):
                    if not mod[k] <= mod[p]:
                        mod[p] |= mod[k]
                        if p not in inq:
                            inq.add(p)
                            st.append(p)
            self._mod = {k: frozenset(v) for k, v in mod.items()}
        return self._mod.get(key, frozenset())


def written_fields(f, n):
    """fields directly written by node n of f"""
    k = n["k"]
    out = []
    def fld(nid):
        x = f.nodes[nid]
        if x["k"] == "mem":
            return x["fld"]
        if x["k"] == "sub":
            return fld(x["x"])
        if x["k"] == "cast":
            return fld(x["x"])
        return None
    if k == "asg":
        m = fld(n["x"])
        if m:
            out.append(m)
    elif k == "un" and n["op"] in ("++", "--", "p++", "p--"):
        m = fld(n["x"])
        if m:
            out.append(m)
    elif k == "ocall" and n.get("meth") and not n.get("const") and n["a"]:
        m = fld(n["a"][0])
        if m and n.get("op") in ("=", "+=", "-=", "[]", "++", "--"):
            out.append(m)
        for a in n["a"][1:]:
            pass
    elif k == "mcall" and not n.get("const"):
        m = fld(n["o"])
        if m:
            out.append(m)
    if k in ("call", "mcall", "ctor"):
        for a, pt in zip(n.get("a", ()), n.get("pt", ())):
            t = f.types[pt]
            x = f.nodes[a]
            if t.get("ref") and not t.get("cst"):
                m = fld(a)
                if m:
                    out.append(m)
            elif t.get("p") and x["k"] == "un" and x["op"] == "&":
                if not t["n"].startswith("const "):
                    m = fld(x["x"])
                    if m:
                        out.append(m)
    return out


# ---------------------------------------------------------------- terms
def show(t, d=0):
    if not isinstance(t, tuple) or not t:
        return str(t)
    k = t[0]
    if d > 6:
        return "..."
    if k == "c":
        return str(t[1])
    if k == "str":
        return repr(t[1])
    if k == "this":
        return "this"
    if k in ("p", "L"):
        return "%s#%s" % (k, t[2])
    if k == "F":
        b = show(t[1], d + 1)
        return (b + "." if b != "this" else "") + t[2].rsplit("::", 1)[-1]
    if k == "ld":
        return "*" + show(t[1], d + 1) if t[1][0] != "F" else show(t[1], d + 1)
    if k == "call":
        return "%s%s(%s)" % (show(t[2], d + 1) + "." if t[2] else "", t[1].rsplit("::", 1)[-1],
                              ",".join(show(a, d + 1) for a in t[3]))
    if k == "not":
        return "!(" + show(t[1], d + 1) + ")"
    if k == "eq":
        return "%s==%s" % (show(t[1], d + 1), show(t[2], d + 1))
    if k == "lt":
        return "%s<%s" % (show(t[1], d + 1), show(t[2], d + 1))
    if k == "op":
        return "(%s%s%s)" % (show(t[2], d + 1), t[1], show(t[3], d + 1))
    return "%s(%s)" % (k, ",".join(show(x, d + 1) if isinstance(x, tuple) else str(x) for x in t[1:]
                                    if not (isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], str) and "(" in x[0])))


def depth(t):
    if not isinstance(t, tuple):
        return 0
    return 1 + max([depth(x) for x in t], default=0)


def subterms(t):
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple) and x:
            yield x
            st.extend(x)


def contains(t, pred):
    for s in subterms(t):
        if pred(s):
            return True
    return False


def mk_not(t):
    if t[0] == "not":
        return t[1]
    if t[0] == "c":
        return ("c", 0 if t[1] else 1)
    return ("not", t)


def mk_eq(a, b):
    if a == b and a[0] == "c":
        return ("c", 1)
    if a[0] == "c" and b[0] == "c":
        return ("c", 1 if a[1] == b[1] else 0)
    if a == b:
        return ("c", 1)
    # canonical: constant on the right
    if a[0] == "c" or (b[0] != "c" and repr(b) < repr(a)):
        a, b = b, a
    if b[0] == "c":
        if a[0] in ("new", "this", "L", "F", "str", "bind", "fn", "lambda") and b[1] == 0:
            return ("c", 0)
        if a[0] in BOOLK:
            # comparison of a truth value with a constant
            return a if b[1] == 1 else (mk_not(a) if b[1] == 0 else ("c", 0))
        if a[0] == "bool":
            return a[1] if b[1] == 1 else (mk_not(a[1]) if b[1] == 0 else ("c", 0))
    return ("eq", a, b)


BOOLK = ("eq", "lt", "not")


def mk_lt(a, b):
    if a[0] == "c" and b[0] == "c":
        return ("c", 1 if a[1] < b[1] else 0)
    if a == b:
        return ("c", 0)
    # x < c+1  <->  x <= c: canonicalise "c < x" as not (x < c+1)
    if a[0] == "c" and isinstance(a[1], int):
        return mk_not(mk_lt(b, ("c", a[1] + 1)))
    return ("lt", a, b)


# ---------------------------------------------------------------- state
class St:
    __slots__ = ("store", "vals", "facts", "ep", "locks", "mon", "trace", "ret")

    def __init__(self):
        self.store = {}
        self.vals = {}
        self.facts = {}
        self.ep = {}
        self.locks = ()
        self.mon = None
        self.trace = None
        self.ret = None

    def copy(self):
        s = St.__new__(St)
        s.store = dict(self.store)
        s.vals = dict(self.vals)
        s.facts = dict(self.facts)
        s.ep = dict(self.ep)
        s.locks = self.locks
        s.mon = self.mon
        s.trace = self.trace
        s.ret = self.ret
        return s

    def key(self):
        return (frozenset(self.store.items()), frozenset(self.vals.items()),
                frozenset(self.facts.items()), frozenset(self.ep.items()),
                self.locks, self.mon, self.ret)

    def note(self, what):
        self.trace = (what, self.trace)

    def path(self, n=14):
        out, t = [], self.trace
        while t and len(out) < n:
            out.append(t[0])
            t = t[1]
        return list(reversed(out))


class Frame:
    __slots__ = ("fn", "this", "depth", "stack", "this_cls", "cont", "bid")

    def __init__(self, fn, this, depth, stack, this_cls, cont=frozenset()):
        self.fn, self.this, self.depth, self.stack, self.this_cls = fn, this, depth, stack, this_cls
        self.cont = cont      # fields the callers may still look at
        self.bid = None


class Monitor:
    """Base class.  State must be hashable.  event() returns the next state
    (or a list of states)."""
    name = "monitor"
    max_depth = 7
    reads = False            # emit ("mem", loc, node) for every member access
    boundary = frozenset()   # callee names never entered
    enter = frozenset()      # callee names entered when relevant, whatever their class
    def init(self, ex):
        return ()
    def interesting(self, f, nid, n):
        """does node n produce an event this monitor needs (forces inlining)?"""
        return False
    def ident(self):
        return type(self).__name__
    def event(self, ex, st, fr, ev):
        return st.mon
    def inline(self, ex, fr, n, target, recv, args):
        return None     # None: default policy
    def at_exit(self, ex, st, fr):
        pass


LOCKCLS = {"ScopedLocker": "x", "WriteLocker": "x", "ReadLocker": "s",
           "std::lock_guard": "x", "std::unique_lock": "x", "boost::lock_guard": "x"}
LOCKM = {"lock": "x", "lock_shared": "s", "unlock": None}
LOCKTYPES = ("MutexLock", "SpinLock", "RWLock", "std::mutex")

NOISE = {"internal::get_log_level", "internal::log_handler"}

FATAL = 0


def is_noise(t):
    return t[0] == "call" and t[1] in NOISE


class Explorer:
    """runs one monitor from one entry function"""

    def __init__(self, prog, mon, this_cls=None, cap=400000):
        self.P = prog
        self.mon = mon
        self.this_cls = this_cls
        self.cap = cap
        self.states = 0
        self.reports = []           # (msg, file:line, path)
        self._rep = set()
        self.inlined = set()
        self.opaque = set()
        self.events = 0
        self.relevant = prog.relevance(mon.ident(), mon.interesting) if mon.interesting.__func__ is not Monitor.interesting else set()
        self.exits = 0
        self.capped = False
        self._memo = {}
        c = prog._mcache.setdefault((mon.ident(), mon.interesting.__func__), ({}, {}))
        self._ment, self._ffields = c

    def report(self, st, fr, nid, msg, extra=None):
        where = fr.fn.loc(nid) if nid is not None and nid >= 0 else "%s:%s" % (fr.fn.file, fr.fn.line)
        k = (msg, where)
        if k in self._rep:
            return
        self._rep.add(k)
        self.reports.append({"msg": msg, "where": where, "fn": fr.fn.name,
                             "root": fr.stack[0] if fr.stack else fr.fn.key,
                             "path": st.path(), "extra": extra})

    # ---- entry
    def run(self, fnkey, args=None, init=None, assume=(), this=("this",), prep=None):
        f = self.P.fns[fnkey] if isinstance(fnkey, str) else fnkey
        st = St()
        st.mon = self.mon.init(self) if init is None else init
        fr = Frame(f, this, 0, (f.key,), self.this_cls or f.cls)
        for i, v in enumerate(f.params):
            t = f.vty(v)
            a = args[i] if args and i < len(args) and args[i] is not None else ("p", f.key, i)
            if t.get("ref") :
                st.store[("ref", ("L", f.key, v))] = a
            elif scalar_type(t):
                st.store[("L", f.key, v)] = a
            else:
                st.store[("ref", ("L", f.key, v))] = a
        if prep:
            prep(st, fr)
        for t, v in assume:
            if not self.assume(st, t, v):
                raise Broken("contradictory assumption for " + f.name)
        self.root = fr
        outs = self.body(fr, st)
        for s in outs:
            self.exits += 1
            self.mon.at_exit(self, s, fr)
        return outs

    # ---- function body
    def body(self, fr, st):
        f = fr.fn
        if not f.blocks:
            return [st]
        f.compute_live()
        saved = st.vals
        st.vals = {}
        st.ret = None
        work = [(f.entry, st)]
        seen = set()
        outs = {}
        while work:
            bid, s = work.pop()
            if bid == f.exit:
                k = s.key()
                if k not in outs:
                    outs[k] = s
                continue
            self.prune(fr, bid, s)
            k = (bid, s.key())
            if k in seen:
                continue
            seen.add(k)
            self.states += 1
            if self.states > self.cap:
                raise Broken("state budget exceeded in %s (%d)" % (f.name, self.cap))
            fr.bid = bid
            for nb, ns in self.block(fr, f.blocks[bid], s):
                work.append((nb, ns))
        res = []
        for s in outs.values():
            s.vals = dict(saved)
            # drop this frame's locals
            for l in [l for l in s.store if is_local_of(l, f.key)]:
                # keep by-reference results: values only
                del s.store[l]
            res.append(s)
        # merge states equal after dropping locals
        m = {}
        for s in res:
            self.gc_facts(s)
            m.setdefault(s.key(), s)
        return list(m.values())

    def prune(self, fr, bid, st):
        f = fr.fn
        cross = f.cross
        if st.vals:
            st.vals = {k: v for k, v in st.vals.items() if k in cross}
        live = f.live.get(bid, ())
        fk = f.key
        ment = self.mention(f).get(bid, frozenset())
        cont = fr.cont
        dead = [l for l in st.store if (l[0] == "L" and l[1] == fk and l[2] not in live and l[2] not in ("arg",))
                or (l[0] == "F" and l[2] not in ment and l[2] not in cont)]
        for l in dead:
            del st.store[l]
        if st.ep:
            for q in [q for q in st.ep if q not in ment and q not in cont]:
                del st.ep[q]
        self.gc_facts(st, ment, cont)

    def mention(self, f):
        """block -> fields the code from that block on may still evaluate"""
        r = self._ment.get(f.key)
        if r is not None:
            return r
        own = {}
        for b in f.blocks.values():
            s = set()
            for e in list(b["e"]) + ([b["c"]] if "c" in b else []):
                if isinstance(e, dict):
                    if "init" in e:
                        s |= self.node_fields(f, e["init"]["x"])
                    elif "dtor" in e:
                        d = self.P.dtor_of(base_type(f.types[e["dtor"]["t"]]["n"].replace("const ", "")))
                        if d:
                            s |= self.fn_fields(d)
                else:
                    s |= self.node_fields(f, e)
            own[b["id"]] = s
        ch = True
        out = {k: set(v) for k, v in own.items()}
        while ch:
            ch = False
            for b in f.blocks.values():
                o = out[b["id"]]
                n = len(o)
                for x in b["s"]:
                    if x >= 0:
                        o |= out[x]
                if len(o) != n:
                    ch = True
        out = {k: frozenset(v) for k, v in out.items()}
        self._ment[f.key] = out
        return out

    def node_fields(self, f, nid, seen=None):
        if seen is None:
            seen = set()
        out = set()
        st = [nid]
        while st:
            x = st.pop()
            if x in seen or x is None or x < 0:
                continue
            seen.add(x)
            n = f.nodes[x]
            if n["k"] == "mem":
                out.add(n["fld"])
            if n["k"] in ("call", "mcall", "ocall", "ctor", "new", "del"):
                for t in self.P.call_targets(f, x):
                    out |= self.fn_fields(t)
            st.extend(children(n))
        return out

    def fn_fields(self, key):
        """fields mentioned by a function and what it may call, as far as the
        exploration would enter it"""
        if key in self._ffields:
            return self._ffields[key]
        # transitive closure over enterable callees
        seen, st, out = set(), [key], set()
        while st:
            k = st.pop()
            if k in seen:
                continue
            g = self.P.fns.get(k)
            if g is None or not (k in self.relevant or self.small(g) or k == key):
                continue
            seen.add(k)
            out |= self.P.own_fields(k)
            for kind, t, _ in self.P.edges(g):
                if kind == "call":
                    st.append(t)
        out = frozenset(out)
        self._ffields[key] = out
        return out

    def gc_facts(self, st, ment=None, cont=None):
        if not st.facts:
            return
        liveset = None
        drop = []
        for t in st.facts:
            sf = stable_fields(t, st.ep)
            if sf is not None and (ment is None or all((q in ment or q in cont) for q in sf)):
                continue
            if liveset is None:
                liveset = set()
                for v in st.store.values():
                    liveset.update(subterms(v))
                for v in st.vals.values():
                    liveset.update(subterms(v))
                if st.ret is not None:
                    liveset.update(subterms(st.ret))
                for l in st.store:
                    liveset.update(subterms(l))
            ok = t in liveset
            if not ok and t[0] in ("eq", "lt"):
                ok = all((x in liveset or x[0] in ("c", "str", "this", "p") or self.still(x, st, ment, cont)) for x in t[1:]) \
                    and (t[1] in liveset or t[2] in liveset)
            if not ok:
                drop.append(t)
        for t in drop:
            del st.facts[t]

    def still(self, x, st, ment, cont):
        sf = stable_fields(x, st.ep)
        return sf is not None and (ment is None or all((q in ment or q in cont) for q in sf))

    # ---- one block
    def block(self, fr, b, st):
        f = fr.fn
        states = [st]
        for e in b["e"]:
            nxt = []
            for s in states:
                nxt.extend(self.elem(fr, s, e))
            states = nxt
            if not states:
                return
        succ = b["s"]
        for s in states:
            if b.get("tk") == "SwitchStmt":
                v = self.val(fr, s, b["c"])
                yield from self.switch(fr, b, s, v)
                continue
            if len(succ) == 2 and "c" in b:
                c = b["c"]
                t = self.cond_term(fr, s, c)
                tv = self.truth(s, t)
                noise = contains(t, lambda x: x[0] == "call" and x[1] in NOISE)
                if noise and tv is None:
                    # a log statement: skipped, unless it is the fatal one
                    u, flip = (t[1], True) if t[0] == "not" else (t, False)
                    if u[0] == "lt" and u[2][0] == "c" and is_noise(u[1]):
                        tv = (u[2][1] > FATAL) != flip
                for truth, nb in ((True, succ[0]), (False, succ[1])):
                    if nb < 0:
                        continue
                    if tv is not None and tv != truth:
                        continue
                    n = s.copy()
                    if tv is None and not noise:
                        if not self.assume(n, t, truth):
                            continue
                        n.note("%s:%s %s is %s" % (f.file.rsplit("/", 1)[-1], b.get("tl", "?"), show(t)[:110], "true" if truth else "false"))
                    if not noise:
                        nn = self.emit(fr, n, ("branch", t, truth, c, tv is None))
                        for x in nn:
                            yield nb, x
                    else:
                        yield nb, n
                continue
            for nb in succ:
                if nb >= 0:
                    yield nb, (s.copy() if len(succ) > 1 else s)

    def switch(self, fr, b, s, v):
        f = fr.fn
        cases, default = [], None
        for nb in b["s"]:
            if nb < 0:
                continue
            lb = f.blocks[nb]
            if "case" in lb:
                cases.append((lb["case"], nb))
            else:
                default = nb
        for c, nb in cases:
            t = mk_eq(v, ("c", c))
            n = s.copy()
            if self.assume(n, t, True):
                n.note("%s:%s switch %s = %s" % (f.file.rsplit("/", 1)[-1], b.get("tl", "?"), show(v)[:60], c))
                for x in self.emit(fr, n, ("branch", t, True, b["c"], True)):
                    yield nb, x
        if default is not None:
            n = s.copy()
            ok = True
            for c, nb in cases:
                t = mk_eq(v, ("c", c))
                if not self.assume(n, t, False):
                    ok = False
                    break
            if ok:
                outs = [n]
                for c, nb in cases:
                    o2 = []
                    for x in outs:
                        o2.extend(self.emit(fr, x, ("branch", mk_eq(v, ("c", c)), False, b["c"], True)))
                    outs = o2
                for x in outs:
                    x.note("%s:%s switch default" % (f.file.rsplit("/", 1)[-1], b.get("tl", "?")))
                    yield default, x

    def emit(self, fr, st, ev):
        self.events += 1
        r = self.mon.event(self, st, fr, ev)
        if isinstance(r, list):
            out = []
            for m in r:
                s = st.copy()
                s.mon = m
                out.append(s)
            return out
        st.mon = r
        return [st]

    # ---- truth
    def cond_term(self, fr, st, nid):
        return self.as_bool(fr, st, nid, self.val(fr, st, nid))

    def as_bool(self, fr, st, nid, v):
        if v[0] in BOOLK or v[0] == "c":
            return ("c", 1 if v[1] else 0) if v[0] == "c" else v
        if v[0] == "bool":
            return v[1]
        t = fr.fn.ty(nid)
        if t.get("b"):
            return mk_not(mk_eq(v, NULL))
        return mk_not(mk_eq(v, NULL))

    def truth(self, st, t):
        if t[0] == "c":
            return bool(t[1])
        if t[0] == "not":
            r = self.truth(st, t[1])
            return None if r is None else not r
        r = st.facts.get(t)
        if r is not None:
            return r
        if t[0] == "eq" and t[2][0] == "c":
            a, c = t[1], t[2][1]
            for k, v in st.facts.items():
                if k[0] == "eq" and k[1] == a and k[2][0] == "c" and v and k[2][1] != c:
                    return False
                if k[0] == "lt" and k[1] == a and k[2][0] == "c" and isinstance(k[2][1], int):
                    if v and c >= k[2][1]:
                        return False
                    if not v and c < k[2][1]:
                        return False
        if t[0] == "lt" and t[2][0] == "c":
            a, c = t[1], t[2][1]
            for k, v in st.facts.items():
                if k[1] == a and k[2][0] == "c":
                    kc = k[2][1]
                    if k[0] == "eq" and v:
                        return kc < c
                    if k[0] == "lt":
                        if v and kc <= c:
                            return True
                        if not v and kc >= c:
                            return False
        return None

    def assume(self, st, t, v):
        while t[0] == "not":
            t, v = t[1], not v
        r = self.truth(st, t)
        if r is not None:
            return r == v
        st.facts[t] = v
        return True

    # ---- values
    def fresh(self, st, site):
        """a term with this site is about to be created again: forget what was
        known about the previous instance"""
        def has(t):
            return contains(t, lambda x: x == site)
        for t in [t for t in st.facts if has(t)]:
            del st.facts[t]
        old = ("old", site)
        for l, v in list(st.store.items()):
            if has(v):
                st.store[l] = ("stale", site) if not isinstance(v, tuple) else rewrite(v, site, old)

    def load(self, fr, st, loc, nid=None, vol=False):
        if vol and nid is not None:
            if loc in st.store and st.store[loc][0] == "c" and False:
                return st.store[loc]
            site = (fr.fn.key, nid)
            t = ("ld", loc, site)
            self.fresh(st, site)
            return t
        v = st.store.get(loc)
        if v is not None:
            return v
        if loc[0] == "F":
            e = st.ep.get(loc[2])
            if e is not None:
                return ("ld", loc, e)
        return ("ld", loc)

    def lvalue(self, fr, st, nid):
        """location denoted by node, or None"""
        n = fr.fn.nodes[nid]
        k = n["k"]
        if k == "var":
            v = fr.fn.vars[n["i"]]
            if v["kind"] == "global":
                return ("G", v["q"])
            l = ("L", fr.fn.key, n["i"])
            r = st.store.get(("ref", l))
            return r if r is not None else l
        if k == "mem":
            b = self.base(fr, st, n)
            return ("F", b, n["fld"])
        if k == "un" and n["op"] == "*":
            return self.val(fr, st, n["x"])
        if k == "un" and n["op"] in ("++", "--"):
            return self.lvalue(fr, st, n["x"])
        if k == "sub":
            return ("E", self.val(fr, st, n["x"]), trim(self.val(fr, st, n["y"]), fr, nid))
        if k == "asg":
            return self.lvalue(fr, st, n["x"])
        if k == "cast" and n.get("lv"):
            return self.lvalue(fr, st, n["x"])
        if k == "this":
            return None
        if k == "cond" and n.get("lv"):
            return None
        if k in ("call", "mcall", "ocall"):
            v = st.vals.get(nid)
            if v is not None and v[0] == "ref":
                return v[1]
            if v is not None and n.get("lv"):
                return v
            return None
        if k == "str":
            return ("str", n.get("s", ""))
        return None

    def base(self, fr, st, n):
        b = n["b"]
        bn = fr.fn.nodes[b]
        if n.get("arrow"):
            return self.val(fr, st, b)
        l = self.lvalue(fr, st, b)
        if l is None:
            l = self.val(fr, st, b)
        return l

    def val(self, fr, st, nid):
        v = st.vals.get(nid)
        if v is not None:
            if v[0] == "ref":
                return self.deref_val(fr, st, nid, v[1])
            return v
        return self.calc(fr, st, nid)

    def deref_val(self, fr, st, nid, loc):
        t = fr.fn.ty(nid)
        if scalar_type(t):
            return self.load(fr, st, loc)
        return loc

    def calc(self, fr, st, nid):
        """value of a node that has not been computed as an element"""
        f = fr.fn
        n = f.nodes[nid]
        if "v" in n and n["k"] not in ("asg",):
            return ("c", n["v"])
        k = n["k"]
        if k == "this":
            return fr.this
        if k == "str":
            return ("str", n.get("s", ""))
        if k == "var":
            v = f.vars[n["i"]]
            if v["kind"] == "global":
                if "v" in v:
                    return ("c", v["v"])
                loc = ("G", v["q"])
            else:
                loc = self.lvalue(fr, st, nid)
            t = f.ty(nid)
            if scalar_type(t) and "[" not in t["n"]:
                return self.load(fr, st, loc)
            return loc
        if k == "mem":
            loc = self.lvalue(fr, st, nid)
            t = f.ty(nid)
            if scalar_type(t):
                return self.load(fr, st, loc, nid, bool(t.get("vol")))
            return loc
        if k == "cast":
            if n["ck"] in ("IntegralCast", "IntegralToBoolean", "NoOp", "BitCast", "BaseToDerived",
                           "DerivedToBase", "UncheckedDerivedToBase", "ConstructorConversion",
                           "UserDefinedConversion", "PointerToBoolean", "ToVoid", "Dynamic",
                           "FloatingToIntegral", "IntegralToFloating", "FloatingCast", "LValueToRValue",
                           "ReinterpretMemberPointer", "IntegralToPointer", "PointerToIntegral", "LValueBitCast"):
                v = self.val(fr, st, n["x"])
                if n["ck"] in ("IntegralToBoolean", "PointerToBoolean"):
                    return self.wrapb(self.as_bool(fr, st, n["x"], v))
                if n["ck"] == "Dynamic":
                    return ("dyn", v, f.ty(nid)["n"])
                t, s = f.ty(nid), f.ty(n["x"])
                if n["ck"] == "IntegralCast" and narrowing(s, t) and v[0] != "c":
                    return ("trunc", trim(v, fr, nid), t.get("w"), t.get("s"))
                return v
            return self.val(fr, st, n["x"])
        if k == "un":
            op = n["op"]
            if op == "&":
                x = f.nodes[n["x"]]
                if x["k"] == "fnref":
                    return ("fn", x["f"], x["n"])
                l = self.lvalue(fr, st, n["x"])
                return l if l is not None else self.val(fr, st, n["x"])
            if op == "*":
                l = self.val(fr, st, n["x"])
                return self.load(fr, st, l) if scalar_type(f.ty(nid)) else l
            if op == "!":
                return self.wrapb(mk_not(self.as_bool(fr, st, n["x"], self.val(fr, st, n["x"]))))
            if op == "-":
                v = self.val(fr, st, n["x"])
                return ("c", -v[1]) if v[0] == "c" else ("op", "neg", trim(v, fr, nid), NULL)
            if op == "~":
                return ("op", "~", trim(self.val(fr, st, n["x"]), fr, nid), NULL)
            return self.val(fr, st, n["x"])
        if k == "bin":
            return self.binop(fr, st, nid, n["op"], self.val(fr, st, n["x"]), self.val(fr, st, n["y"]))
        if k == "log":
            a = self.as_bool(fr, st, n["x"], self.val(fr, st, n["x"]))
            ta = self.truth(st, a)
            if n["op"] == "&&":
                if ta is False:
                    return ("c", 0)
                if ta is True:
                    return self.wrapb(self.as_bool(fr, st, n["y"], self.val(fr, st, n["y"])))
            else:
                if ta is True:
                    return ("c", 1)
                if ta is False:
                    return self.wrapb(self.as_bool(fr, st, n["y"], self.val(fr, st, n["y"])))
            return ("phi", (f.key, nid))
        if k == "cond":
            a = self.as_bool(fr, st, n["c"], self.val(fr, st, n["c"]))
            ta = self.truth(st, a)
            if ta is True:
                return self.val(fr, st, n["x"])
            if ta is False:
                return self.val(fr, st, n["y"])
            return ("phi", (f.key, nid))
        if k == "sub":
            loc = self.lvalue(fr, st, nid)
            return self.load(fr, st, loc) if scalar_type(f.ty(nid)) else loc
        if k == "fnref":
            return ("fn", n["f"], n["n"])
        if k == "lambda":
            return ("fn", n["f"], n["n"])
        if k == "ret" or k == "decl":
            return NULL
        if k == "silist":
            return self.val(fr, st, n["x"])
        if k == "zinit":
            return ("zinit", f.ty(nid)["n"])
        return ("opq", (f.key, nid))

    def wrapb(self, t):
        return t

    def binop(self, fr, st, nid, op, a, b):
        site = (fr.fn.key, nid)
        if op == "==":
            return mk_eq(a, b)
        if op == "!=":
            return mk_not(mk_eq(a, b))
        if op == "<":
            return mk_lt(a, b)
        if op == ">":
            return mk_lt(b, a)
        if op == ">=":
            return mk_not(mk_lt(a, b))
        if op == "<=":
            return mk_not(mk_lt(b, a))
        if op == ",":
            return b
        if a[0] == "c" and b[0] == "c":
            try:
                if op == "+":
                    return ("c", a[1] + b[1])
                if op == "-":
                    return ("c", a[1] - b[1])
                if op == "*":
                    return ("c", a[1] * b[1])
            except Exception:
                pass
        if op in ("+", "*", "&", "|") and repr(b) < repr(a):
            a, b = b, a
        t = ("op", op, a, b)
        if depth(t) > 14:
            return ("opq", site)
        return t

    # ---- elements
    def elem(self, fr, st, e):
        if isinstance(e, dict):
            if "dtor" in e:
                return self.auto_dtor(fr, st, e["dtor"])
            if "init" in e:
                i = e["init"]
                if "fld" in i:
                    loc = ("F", fr.this, i["fld"])
                    ft = self.P.field_type(i["fld"])
                    v = self.val(fr, st, i["x"])
                    if ft is None or scalar_type(ft):
                        if v[0] == "zinit":
                            v = NULL
                        st.store[loc] = v
                    return self.emit(fr, st, ("write", loc, v, "init", i["x"]))
                return [st]
            return [st]
        f = fr.fn
        n = f.nodes[e]
        k = n["k"]
        if k in ("call", "mcall", "ocall", "ctor"):
            return self.call(fr, st, e, n)
        if "v" in n and k not in ("asg",):
            st.vals[e] = ("c", n["v"])
            return [st]
        if k == "asg":
            loc = self.lvalue(fr, st, n["x"])
            rhs = self.val(fr, st, n["y"])
            if n["op"] != "=":
                cur = self.load(fr, st, loc) if loc else ("opq", (f.key, e))
                op = n["op"][:-1]
                site = (f.key, e)
                self.fresh(st, site)
                new = ("upd", site)
                ev = ("write", loc, ("op", op, trim(cur, fr, e), trim(rhs, fr, e)), n["op"], e)
                if loc is not None and loc[0] == "L" and op in ("+", "-", "*") and e not in f.looped():
                    new = self.binop(fr, st, e, op, trim(cur, fr, e), trim(rhs, fr, e))
            else:
                new = rhs
                ev = ("write", loc, rhs, "=", e)
                if f.ty(n["x"]).get("b") and new[0] not in ("c",) and new[0] not in BOOLK:
                    pass
            if loc is not None:
                self.set(st, loc, new)
            st.vals[e] = new
            return self.emit(fr, st, ev)
        if k == "un" and n["op"] in ("++", "--", "p++", "p--"):
            loc = self.lvalue(fr, st, n["x"])
            cur = self.load(fr, st, loc) if loc else ("opq", (f.key, e))
            site = (f.key, e)
            self.fresh(st, site)
            new = ("upd", site)
            if loc is not None:
                self.set(st, loc, new)
            st.vals[e] = new if not n["op"].startswith("p") else rewrite(cur, site, ("old", site))
            return self.emit(fr, st, ("write", loc, ("op", n["op"][-1], cur, ("c", 1)), n["op"].lstrip("p"), e))
        if k == "decl":
            for d in n["d"]:
                states = self.declare(fr, st, d, e)
                if len(states) != 1:
                    return states
                st = states[0]
            return [st]
        if k == "ret":
            if "x" in n:
                if f.retref:
                    l = self.lvalue(fr, st, n["x"])
                    st.ret = ("ref", l) if l is not None else self.val(fr, st, n["x"])
                else:
                    v = self.val(fr, st, n["x"])
                    if f.ret.get("b"):
                        v = self.as_bool(fr, st, n["x"], v)
                    st.ret = v
            else:
                st.ret = None
            return self.emit(fr, st, ("ret", st.ret, e, fr.depth))
        if k == "new":
            site = (f.key, e)
            self.fresh(st, site)
            v = ("new", n["cls"], site)
            st.vals[e] = v
            args = ()
            if "x" in n:
                x = f.nodes[n["x"]]
                if x["k"] == "ctor":
                    args = tuple(self.argval(fr, st, a) for a in x["a"])
            if n.get("arr") and "n_" in n:
                args = (self.argval(fr, st, n["n_"]),)
            outs = self.emit(fr, st, ("new", n["cls"], args, v, e))
            if "x" in n:
                x = f.nodes[n["x"]]
                g = self.P.fns.get(x.get("f")) if x["k"] == "ctor" else None
                if g and g.key in self.relevant and g.key not in fr.stack and self.near(fr, g):
                    res = []
                    for s in outs:
                        res.extend(self.enter(fr, s, None, g, v, x["a"], None))
                    return res
            return outs
        if k == "del":
            v = self.val(fr, st, n["x"])
            outs = []
            for s in self.emit(fr, st, ("del", v, f.ty(n["x"])["n"], e)):
                t = f.ty(n["x"])["n"].replace("const ", "").rstrip("* ").strip()
                dts = [self.P.dtor_of(c) for c in [t] + sorted(self.P.subclasses(t))]
                dts = [d for d in dts if d]
                if len(dts) == 1 and dts[0] in self.relevant and dts[0] not in fr.stack:
                    outs.extend(self.enter(fr, s, e, self.P.fns[dts[0]], v, [], None))
                else:
                    outs.append(s)
            return outs
        if k == "throw":
            self.emit(fr, st, ("throw", e))
            return []
        st.vals[e] = self.calc(fr, st, e)
        if k == "mem" and self.mon.reads:
            return self.emit(fr, st, ("mem", self.lvalue(fr, st, e), e))
        return [st]

    def set(self, st, loc, v):
        st.store[loc] = v

    def declare(self, fr, st, d, nid):
        f = fr.fn
        loc = ("L", f.key, d["i"])
        t = f.vty(d["i"])
        bt = base_type(t["n"].replace("const ", ""))
        if t.get("ref"):
            if "x" in d:
                l = self.lvalue(fr, st, d["x"])
                if l is None:
                    l = loc
                    st.store[loc] = self.val(fr, st, d["x"])
                    return [st]
                st.store[("ref", loc)] = l
            return [st]
        if bt in LOCKCLS and "x" in d:
            x = f.nodes[d["x"]]
            if x["k"] == "ctor" and x["a"]:
                a = x["a"][0]
                l = self.lvalue(fr, st, a)
                if l is None or f.ty(a).get("p"):
                    l = self.val(fr, st, a)
                st.store[loc] = ("lockof", l)
                return self.lock(fr, st, l, LOCKCLS[bt], d["x"])
        if "x" in d:
            v = self.val(fr, st, d["x"])
            if t.get("b"):
                v = self.as_bool(fr, st, d["x"], v)
            if scalar_type(t):
                if v[0] == "zinit":
                    v = NULL
                st.store[loc] = v
                return self.emit(fr, st, ("write", loc, v, "decl", d["x"]))
            x = f.nodes[d["x"]]
            if x["k"] == "ctor":
                args = [self.argval(fr, st, a) for a in x["a"]]
                for key in [k for k in st.store if k != loc and loc_in(k, loc)]:
                    del st.store[key]
                st.store[loc] = ("obj", x["n"], tuple(trim(a, fr, d["x"]) for a in args))
                outs = self.emit(fr, st, ("object", t["n"], loc, tuple(args), nid))
                if x.get("f") in self.relevant and x["f"] in self.P.fns and x["f"] not in fr.stack:
                    res = []
                    for s in outs:
                        res.extend(self.enter(fr, s, d["x"], self.P.fns[x["f"]], loc, x["a"], None))
                    return res
                return outs
            if v[0] != "ref":
                st.store[loc] = v if v != loc else ("opq", loc)
                return self.emit(fr, st, ("write", loc, v, "decl", d["x"]))
        return [st]

    def argval(self, fr, st, a):
        return self.val(fr, st, a)

    def auto_dtor(self, fr, st, d):
        f = fr.fn
        loc = ("L", f.key, d["i"])
        t = f.types[d["t"]]
        bt = base_type(t["n"].replace("const ", ""))
        if bt in LOCKCLS:
            v = st.store.get(loc)
            if v and v[0] == "lockof":
                return self.unlock(fr, st, v[1], -1, d.get("l"))
            return [st]
        outs = self.emit(fr, st, ("dtor", t["n"], loc, d.get("l")))
        if bt.split("sofa::pbrpc::")[-1] in OWNING:
            res = []
            for s in outs:
                v = s.store.get(loc)
                if v is None or v == NULL or v[0] == "c":
                    res.append(s)
                else:
                    s.store[loc] = NULL
                    res.extend(self.emit(fr, s, ("del", v, bt, -1)))
            return res
        k = self.P.dtor_of(bt)
        if k and k in self.relevant and k not in fr.stack:
            res = []
            for s in outs:
                res.extend(self.enter(fr, s, None, self.P.fns[k], loc, [], None))
            return res
        return outs

    def lock(self, fr, st, l, mode, nid):
        outs = self.emit(fr, st, ("lock", l, mode, nid))
        for s in outs:
            s.locks = s.locks + ((l, mode),)
        return outs

    def unlock(self, fr, st, l, nid, line=None):
        ls = list(st.locks)
        for i in range(len(ls) - 1, -1, -1):
            if ls[i][0] == l:
                del ls[i]
                break
        st.locks = tuple(ls)
        return self.emit(fr, st, ("unlock", l, nid, line))

    # ---- calls
    def call(self, fr, st, e, n):
        f = fr.fn
        k = n["k"]
        name = n.get("n")
        site = (f.key, e)
        cls = n.get("cls") or ""
        # receiver
        recv = None
        argn = list(n.get("a", ()))
        if k == "mcall":
            o = n["o"]
            if n.get("arrow"):
                recv = self.val(fr, st, o)
            else:
                recv = self.lvalue(fr, st, o)
                if recv is None:
                    recv = self.val(fr, st, o)
        elif k == "ocall" and n.get("meth") and argn:
            o = argn[0]
            recv = self.lvalue(fr, st, o)
            if recv is None:
                recv = self.val(fr, st, o)
            argn = argn[1:]
        if name is None:
            # call through a function pointer / object
            fx = self.val(fr, st, n["fx"]) if n.get("fx", -1) >= 0 else None
            args = tuple(self.val(fr, st, a) for a in argn)
            return self.opaque_call(fr, st, e, n, "{indirect}", fx, args, argn)
        short = name.rsplit("::", 1)[-1]
        # smart pointers are plain pointers
        if cls in PTRCLS:
            r = self.smart(fr, st, e, n, short, recv, argn)
            if r is not None:
                return r
        # atomics
        if short.startswith("atomic_") or name.startswith("__sync_") or cls.startswith("std::atomic"):
            r = self.atomic(fr, st, e, n, short, recv, argn)
            if r is not None:
                return r
        # whether there is something: of an error code or a functor
        if recv is not None and not argn and n.get("f") not in self.P.fns and (
                short == "operator!" or short == "empty" and (cls.startswith("boost::function") or cls.startswith("std::function"))):
            out = self.opaque_call(fr, st, e, n, cls + "::{conv}_Bool", recv, (), argn)
            for s in out:
                s.vals[e] = mk_not(s.vals[e])
            return out
        # locks
        if cls in LOCKTYPES and short in LOCKM:
            if short == "unlock":
                st.vals[e] = NULL
                return self.unlock(fr, st, recv, e)
            st.vals[e] = NULL
            return self.lock(fr, st, recv, LOCKM[short], e)
        if name in ("pthread_mutex_lock", "pthread_mutex_unlock"):
            l = self.val(fr, st, argn[0])
            st.vals[e] = NULL
            return self.lock(fr, st, l, "x", e) if name.endswith("_lock") and not name.endswith("unlock") else self.unlock(fr, st, l, e)
        if name == "internal::log_handler":
            a = f.nodes[argn[0]]
            st.vals[e] = NULL
            if a.get("v") == FATAL:
                self.emit(fr, st, ("abort", e))
                return []
            return [st]
        if name == "internal::get_log_level":
            st.vals[e] = ("call", name, None, (), site)
            return [st]
        if short in ("abort", "exit", "_exit", "__assert_fail", "terminate") and not cls or n.get("noret"):
            self.emit(fr, st, ("abort", e))
            return []
        # iterators and scalar class copies
        if k == "ctor" and scalar_type(f.ty(e)):
            if n["a"]:
                st.vals[e] = self.val(fr, st, n["a"][0])
            else:
                st.vals[e] = NULL
            return [st]
        if k == "ctor" and cls in LOCKCLS:
            st.vals[e] = NULL          # a named guard locks at its declaration; a temporary guards nothing
            return [st]
        if k == "ctor" and e in f.objinit:
            st.vals[e] = ("obj", name, tuple(trim(self.val(fr, st, a), fr, e) for a in n["a"]))
            return [st]
        if k == "ocall" and n["op"] in ("==", "!="):
            vs = [self.val(fr, st, a) for a in n["a"]]
            if len(vs) == 2:
                t = mk_eq(trim(vs[0], fr, e), trim(vs[1], fr, e))
                st.vals[e] = t if n["op"] == "==" else mk_not(t)
                return [st]
        if k == "ocall" and n["op"] in ("<", ">", "<=", ">="):
            vs = [self.val(fr, st, a) for a in n["a"]]
            if len(vs) == 2:
                st.vals[e] = self.binop(fr, st, e, n["op"], trim(vs[0], fr, e), trim(vs[1], fr, e))
                return [st]
        if k == "ocall" and n["op"] in ("->", "*") and len(n["a"]) == 1 and scalar_type(f.ty(n["a"][0])):
            v = self.val(fr, st, n["a"][0])
            st.vals[e] = ("ref", ("F", v, "*")) if n["op"] == "*" else ("F", v, "*")
            return [st]
        if k == "ocall" and n["op"] == "=" and scalar_type(f.ty(n["a"][0])):
            loc = self.lvalue(fr, st, n["a"][0])
            v = self.val(fr, st, n["a"][1])
            if loc is not None:
                st.store[loc] = v
            st.vals[e] = ("ref", loc) if loc is not None else v
            return self.emit(fr, st, ("write", loc, v, "=", e))
        if k == "ocall" and n["op"] in ("++", "--") and scalar_type(f.ty(n["a"][0])):
            loc = self.lvalue(fr, st, n["a"][0])
            cur = self.val(fr, st, n["a"][0])
            self.fresh(st, site)
            new = ("upd", site)
            if loc is not None:
                st.store[loc] = new
            st.vals[e] = rewrite(cur, site, ("old", site)) if len(n["a"]) > 1 else new
            return self.emit(fr, st, ("advance", loc, new, cur, e))
        if name in ("boost::bind", "boost::_bi::bind", "std::bind") or name.endswith("::NewClosure") or \
           name in ("NewClosure", "NewPermanentClosure", "NewPermanentExtClosure", "NewExtClosure",
                    "google::protobuf::NewCallback"):
            args = tuple(self.val(fr, st, a) for a in argn)
            v = ("bind", name, tuple(trim(a, fr, e) for a in args))
            st.vals[e] = v
            return self.emit(fr, st, ("call", name, None, args, e, v))
        if short in ("move", "forward") and name.startswith("std::"):
            l = self.lvalue(fr, st, argn[0])
            st.vals[e] = ("ref", l) if l is not None else self.val(fr, st, argn[0])
            return [st]
        if name == "std::min" or name == "std::max":
            vs = tuple(sorted((trim(self.val(fr, st, a), fr, e) for a in argn), key=repr))
            if all(v[0] == "c" for v in vs):
                st.vals[e] = ("c", (min if name == "std::min" else max)(v[1] for v in vs))
            else:
                st.vals[e] = ("call", name, None, vs, site)
            return [st]
        if name in ("boost::dynamic_pointer_cast", "dynamic_pointer_cast", "std::dynamic_pointer_cast"):
            st.vals[e] = ("dyn", self.val(fr, st, argn[0]), f.ty(e)["n"])
            return [st]
        args = tuple(self.val(fr, st, a) for a in argn)
        return self.do_call(fr, st, e, n, name, recv, args, argn)

    def smart(self, fr, st, e, n, short, recv, argn):
        f = fr.fn
        k = n["k"]
        if k == "ctor":
            if not n["a"]:
                st.vals[e] = NULL
            else:
                v = self.val(fr, st, n["a"][0])
                if v[0] == "zinit":
                    v = NULL
                # construction of shared_ptr from weak_ptr etc. keeps identity
                st.vals[e] = v
            return [st]
        rl = recv
        if short in ("operator->", "get"):
            o = n["a"][0] if k == "ocall" else n["o"]
            st.vals[e] = self.val(fr, st, o)
            return [st]
        if short == "operator*":
            o = n["a"][0] if k == "ocall" else n["o"]
            st.vals[e] = ("ref", self.val(fr, st, o))
            return [st]
        if "{conv}" in n["n"] or short in ("operator bool", "operator!"):
            o = n["a"][0] if k == "ocall" else n["o"]
            v = self.val(fr, st, o)
            t = mk_not(mk_eq(v, NULL))
            st.vals[e] = mk_not(t) if short == "operator!" else t
            return [st]
        if short == "reset":
            v = self.val(fr, st, argn[0]) if argn else NULL
            if rl is not None:
                st.store[rl] = v
            st.vals[e] = NULL
            return self.emit(fr, st, ("write", rl, v, "reset", e))
        if short == "release" and cls_owning(n.get("cls")) and not argn:
            v = self.load(fr, st, rl) if rl is not None else self.val(fr, st, n["o"])
            if rl is not None:
                st.store[rl] = NULL
            st.vals[e] = v
            return self.emit(fr, st, ("write", rl, NULL, "release", e)) if rl is not None else [st]
        if short == "operator=":
            v = self.val(fr, st, argn[0])
            if rl is not None:
                st.store[rl] = v
            st.vals[e] = ("ref", rl)
            return self.emit(fr, st, ("write", rl, v, "=", e))
        if short == "swap" and argn:
            b = self.lvalue(fr, st, argn[0])
            if b is not None and rl is not None:
                x, y = self.load(fr, st, rl), self.load(fr, st, b)
                st.store[rl], st.store[b] = y, x
                st.vals[e] = NULL
                return [s3 for s2 in self.emit(fr, st, ("write", rl, y, "swap", e)) for s3 in self.emit(fr, s2, ("write", b, x, "swap", e))]
            st.vals[e] = NULL
            return [st]
        if short in ("lock",):
            site = (f.key, e)
            self.fresh(st, site)
            o = n["o"]
            st.vals[e] = ("call", n["n"], self.val(fr, st, o), (), site)
            return self.emit(fr, st, ("call", n["n"], self.val(fr, st, o), (), e, st.vals[e]))
        return None

    def atomic(self, fr, st, e, n, short, recv, argn):
        f = fr.fn
        site = (f.key, e)
        nm = n["n"]
        args = [self.val(fr, st, a) for a in argn]
        def locof(v):
            return v
        op = None
        if short in ("atomic_comp_swap",):
            op, loc, new, old = "cas", args[0], args[1], args[2]
        elif short == "atomic_cmpxchg":
            op, loc, new, old = "cas", args[0], args[2], args[1]
        elif nm == "__sync_val_compare_and_swap":
            op, loc, new, old = "cas", args[0], args[2], args[1]
        elif nm == "__sync_bool_compare_and_swap":
            op, loc, new, old = "casb", args[0], args[2], args[1]
        elif short in ("atomic_swap",) or nm == "__sync_lock_test_and_set":
            op, loc, new, old = "xchg", args[0], args[1], None
        elif short.startswith("atomic_inc") or short.startswith("atomic_dec") or short.startswith("atomic_add") \
                or short.startswith("atomic_sub") or nm.startswith("__sync_fetch_and_") or nm.startswith("__sync_add_and") \
                or nm.startswith("__sync_sub_and"):
            loc = args[0]
            self.fresh(st, site)
            if len(args) > 1:
                d = args[1]
            else:
                d = ("c", 1)
            if "dec" in short or "sub" in short or "sub" in nm:
                d = ("c", -d[1]) if d[0] == "c" else ("op", "neg", d, NULL)
            if d[0] == "c":
                # an unsigned step down
                for w in (1 << 32, 1 << 64):
                    if w >> 1 < d[1] < w:
                        d = ("c", d[1] - w)
                        break
            st.store.pop(loc, None)
            if loc[0] == "F":
                st.ep[loc[2]] = site
            old = ("rmw", loc, site)
            st.vals[e] = ("op", "+", old, d) if nm.startswith("__sync_") and "_and_fetch" in nm else old
            return self.emit(fr, st, ("rmw", loc, d, e, old))
        else:
            return None
        # an earlier result of this exchange does not carry its own operands along
        new, old = earlier(new, site), earlier(old, site)
        for l, v in list(st.store.items()):
            st.store[l] = earlier(v, site)
        self.fresh(st, site)
        st.store.pop(loc, None)
        if loc[0] == "F":
            st.ep[loc[2]] = site
        base = ("cas", loc, new, old, site) if op in ("cas", "casb") else ("xchg", loc, new, site)
        st.vals[e] = base if op != "casb" else mk_eq(base, old)
        return self.emit(fr, st, (("cas", loc, new, old, e, base) if op != "xchg" else ("xchg", loc, new, e, base)))

    def small(self, f):
        """accessor: no loops, few nodes"""
        return len(f.blocks) <= 4 and len(f.nodes) <= 24

    def near(self, fr, g):
        """callee belongs to the code under analysis: same class family as the
        entry or the current function, or a free helper of the same file"""
        if g.name in self.mon.enter:
            return True
        if not g.cls:
            return g.file == fr.fn.file or g.file == self.root.fn.file
        for c in (self.root.fn.cls, fr.fn.cls, self.this_cls):
            if c and (self.P.is_a(c, g.cls) or self.P.is_a(g.cls, c)):
                return True
        # nested / local helper classes declared in the same file as the entry
        if g.file == self.root.fn.file and g.cls.split("::")[0] == (self.root.fn.cls or "").split("::")[0]:
            return True
        return False

    def do_call(self, fr, st, e, n, name, recv, args, argn):
        P = self.P
        f = fr.fn
        is_this = recv is not None and recv == ("this",)
        targets = P.targets(n, fr.this_cls if recv == fr.this else None, recv == fr.this) if n.get("repo") or n.get("virt") else []
        targets = [t for t in targets if t]
        policy = self.mon.inline(self, fr, n, targets, recv, args)
        outs = []
        for s in self.emit(fr, st, ("call", name, recv, args, e, ("call", name, recv, tuple(trim(a, fr, e) for a in args), (f.key, e)))):
            if s is None:
                continue
            if policy is False or not targets:
                outs.extend(self.opaque_call(fr, s, e, n, name, recv, args, argn, emit=False))
                continue
            if name in self.mon.boundary:
                for t in targets:
                    self.opaque.add(t)
                outs.extend(self.opaque_call(fr, s, e, n, name, recv, args, argn, emit=False))
                continue
            rel = [t for t in targets if t in self.relevant and (policy is True or self.near(fr, P.fns[t]))]
            if policy is True or (len(targets) == 1 and (rel or self.small(P.fns[targets[0]]))) or (rel and len(targets) <= 3):
                go = [t for t in targets if t not in fr.stack]
                if go and fr.depth < self.mon.max_depth and all(P.fns[t].blocks for t in go):
                    cp = len(go) > 1
                    for t in go:
                        self.inlined.add(t)
                        outs.extend(self.enter(fr, s.copy() if cp else s, e, P.fns[t], recv, argn, n))
                    continue
            for t in targets:
                self.opaque.add(t)
            outs.extend(self.opaque_call(fr, s, e, n, name, recv, args, argn, emit=False))
        return outs

    def enter(self, fr, st, e, g, this, argn, n):
        f = fr.fn
        nfr = Frame(g, this if this is not None else ("none",), fr.depth + 1, fr.stack + (g.key,),
                    fr.this_cls if this == fr.this else g.cls,
                    fr.cont | self.mention(f).get(fr.bid, frozenset()))
        vals = [(self.lvalue(fr, st, a), self.val(fr, st, a)) for a in argn]
        for i, pv in enumerate(g.params):
            t = g.vty(pv)
            l = ("L", g.key, pv)
            if i >= len(vals):
                continue
            lv, v = vals[i]
            if t.get("ref") or not scalar_type(t):
                tgt = lv
                if tgt is None:
                    if scalar_type(t):
                        tgt = ("T", f.key, argn[i])
                        st.store[tgt] = v
                    else:
                        tgt = v
                st.store[("ref", l)] = tgt
            else:
                if t.get("b") and v[0] not in BOOLK and v[0] != "c":
                    pass
                st.store[l] = v
        saved_ret = st.ret
        outs = []
        callvals = st.vals
        st.vals = {}
        st.ret = None
        mk = (g.key, nfr.this, nfr.this_cls, nfr.stack, nfr.cont, st.key())
        got = self._memo.get(mk)
        if got is None:
            tr0 = st.trace
            got = self.body(nfr, st)
            self._memo[mk] = [s.copy() for s in got]
        else:
            got = [s.copy() for s in got]
            for s in got:
                s.trace = st.trace
        for s in got:
            s.vals = dict(callvals)
            r = s.ret
            s.ret = saved_ret
            for l in [l for l in s.store if l[0] == "T" and l[1] == f.key]:
                del s.store[l]
            if e is not None:
                if r is None:
                    r = ("void", (f.key, e)) if g.ret["n"] == "void" else ("opq", (f.key, e))
                s.vals[e] = r
            outs.append(s)
        return outs

    def opaque_call(self, fr, st, e, n, name, recv, args, argn, emit=True):
        f = fr.fn
        site = (f.key, e)
        self.fresh(st, site)
        v = ("call", name, trim(recv, fr, e) if recv else None, tuple(trim(a, fr, e) for a in args), site)
        # effects
        if n.get("f") in self.P.fns or n.get("virt"):
            mods = set()
            for t in self.P.targets(n):
                mods |= self.P.mods(t)
            if mods:
                for l in [l for l in st.store if l[0] == "F" and l[2] in mods]:
                    del st.store[l]
                for m in mods:
                    st.ep[m] = site
        for a, pt in zip(argn, n.get("pt", ()) if name not in LEAVING else ()):
            t = f.types[pt]
            x = f.nodes[a]
            l = None
            if t.get("ref") and not t.get("cst"):
                l = self.lvalue(fr, st, a)
            elif t.get("p") and not t["n"].startswith("const "):
                l = self.val(fr, st, a)
            if l is not None:
                for q in [q for q in st.store if q[0] != "ref" and (q == l or loc_in(q, l))]:
                    if q[0] == "F" and not is_field_of_local(q):
                        del st.store[q]
                        continue
                    st.store[q] = ("clob", q, site)
                if l[0] in ("L", "T") and l not in st.store:
                    st.store[l] = ("clob", l, site)
                if l[0] == "F":
                    st.store.pop(l, None)
                    st.ep[l[2]] = site
        if recv is not None and not n.get("const") and recv[0] in ("L",) and not n.get("repo"):
            for q in [q for q in st.store if q != recv and loc_in(q, recv) and q[0] != "ref"]:
                del st.store[q]
        st.vals[e] = ("ref", v) if n.get("lv") else v
        if emit:
            return self.emit(fr, st, ("call", name, recv, args, e, v))
        return [st]


def cls_owning(c):
    return c in OWNING


def is_field_of_local(q):
    while q and q[0] in ("F", "E"):
        q = q[1]
    return q and q[0] in ("L", "T")


def loc_in(q, l):
    while isinstance(q, tuple) and q and q[0] in ("F", "E"):
        q = q[1]
        if q == l:
            return True
    return False


def is_local_of(l, fk):
    if l[0] == "ref":
        return l[1][0] == "L" and l[1][1] == fk
    while l[0] in ("F", "E"):
        l = l[1]
        if not isinstance(l, tuple) or not l:
            return False
    return l[0] == "L" and l[1] == fk


def stable_fields(t, ep):
    """fields a re-creatable term depends on; None when the term cannot be
    created again"""
    out = []
    for s in subterms(t):
        k = s[0] if s else None
        if k in ("call", "cas", "xchg", "rmw", "upd", "opq", "phi", "clob", "old", "L", "T", "new", "stale"):
            return None
        if k == "ld" and isinstance(s[1], tuple) and s[1] and s[1][0] == "F":
            tag = s[2] if len(s) == 3 else None
            if ep.get(s[1][2]) != tag:
                return None
            out.append(s[1][2])
    return out


def is_stable(t):
    """term that can be re-created later with the same meaning"""
    for s in subterms(t):
        k = s[0] if s else None
        if k in ("call", "cas", "xchg", "rmw", "upd", "opq", "phi", "clob", "old", "L", "T", "new", "stale"):
            return False
        if k == "ld" and len(s) == 3 and isinstance(s[2], tuple):
            # epoch loads are re-creatable, volatile loads are not; both carry a
            # site, keep them (bounded by the number of sites)
            return True
    return True


def rewrite(t, site, new):
    if t == site:
        return new
    if isinstance(t, tuple):
        if t and t[0] == "old" and t[1:] == (site,):
            return t
        return tuple(rewrite(x, site, new) for x in t)
    return t


def earlier(t, site):
    """t with the results of earlier rounds of the exchange at this site cut short"""
    if isinstance(t, tuple):
        if t and t[0] in ("cas", "xchg") and len(t) > 3 and t[-1] in (site, ("old", site)):
            return (t[0], t[1]) + (NULL,) * (len(t) - 3) + (("old", site),)
        if t and not isinstance(t[0], tuple) and len(t) == 1:
            return t
        r = tuple(earlier(x, site) for x in t)
        return t if r == t else r
    return t


def trim(t, fr, nid):
    if t is None:
        return None
    return t if depth(t) <= 12 else ("opq", (fr.fn.key, nid))


def narrowing(s, t):
    if "w" not in s or "w" not in t:
        return False
    if t["w"] < s["w"]:
        return True
    return False
