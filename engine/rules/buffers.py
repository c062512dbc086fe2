"""W06: buffers and their blocks; W04: compression streams."""
from lib import *
import core
from rules.calls import where, const, at, subj
from rules.server import p, mentions
from rules.wire import lin, ladd, fz

SIZES = ("size", "capacity", "offset", "data")


def last(t):
    """the field a term reads"""
    t = unwrap(t)
    if t[0] == "ld" and t[1][0] == "F" and isinstance(t[1][2], str):
        return t[1][2].split("::")[-1]
    return None


def fields(l, f=None):
    """linear form over field names and parameters"""
    r = {}
    for s, c in l.items():
        k = s
        if s != 1:
            k = last(s) or s
            if f is not None and s[0] == "p":
                k = "p%d" % s[2]
        r[k] = r.get(k, 0) + c
    return {k: v for k, v in r.items() if v}


def aged(l):
    """a linear form without the age of its loop values"""
    def go(t):
        if isinstance(t, tuple):
            if len(t) == 2 and t[0] == "upd" and isinstance(t[1], tuple) and t[1] and t[1][0] == "old":
                return ("upd", t[1][1])
            return tuple(go(x) for x in t)
        return t
    r = {}
    for q, c in l.items():
        r[go(q)] = r.get(go(q), 0) + c
    return r


def block_rules(R, P):
    R.rule("W06.block", "a block of memory is counted once for every buffer that refers to it, and given back exactly once by each")
    R.rule("W06.bytes", "a buffer hands out every byte once and in order, and counts exactly the bytes it hands out")
    R.rule("W06.empty", "a message without bytes can be written")
    o = pool(R, P)
    for f in P.all("ReadBuffer::Append"):
        appended(R, P, f)
    for c in ("ReadBuffer", "WriteBuffer"):
        released(R, P, P.fn("%s::{dtor}" % c), "end")
    released(R, P, P.fn("WriteBuffer::SwapOut"), "swap")
    extended(R, P, o)
    positions(R, P)
    empties(R, P)
    reserve(R, P)
    stored(R, P)
    receive_block(R, P)


def pool(R, P):
    hdr = []

    def at_(l, base):
        d = ladd(lin(l), {base: 1}, -1)
        return d.get(1, 0) if set(d) <= {1} else None

    f = P.fn("TranBufPool::malloc")
    def step(ex, st, fr, ev, s):
        got, wr = s
        if ev[0] == "call" and short(ev[1]) in ("malloc", "calloc") and "TranBufPool" not in ev[1]:
            return ((ev[5] if len(ev) > 5 else None, ev[3]), wr)
        if ev[0] == "write" and got and ev[1]:
            b = ev[1][1] if ev[1][0] == "*" else ev[1]
            o = at_(b, got[0])
            if ev[1][0] == "E":
                o = at_(ev[1][1], got[0])
                o = None if o is None or const(ev[1][2]) is None else o + const(ev[1][2])
            if o is not None:
                return (got, wr | {(o, ev[2])})
        if ev[0] == "ret" and fr.depth == 0 and got:
            o = at_(ev[1], got[0])
            null = ex.truth(st, mk_eq(got[0], NULL)) is True or const(ev[1]) == 0
            if null:
                return s
            if not o or o < 2:
                ex.report(st, fr, ev[2], "a block is handed out without its size and its count before it")
                return s
            w = dict(wr)
            if const(w.get(o - 1, ("x",))) != 1:
                ex.report(st, fr, ev[2], "a new block does not count one user")
            if unwrap(w.get(o - 2, ("x",))) != unwrap(got[1][0]):
                ex.report(st, fr, ev[2], "a block remembers another size than was allocated")
            hdr.append(o)
        return s
    automaton(R, P, f, "W06.block", f.name, (None, frozenset()), step, lambda g, i, n: False)
    o = hdr[0] if hdr else 2
    for name, d in (("TranBufPool::add_ref", 1), ("TranBufPool::free", -1)):
        f = P.fn(name)
        def step(ex, st, fr, ev, s, d=d):
            n, freed = s
            if ev[0] == "rmw" and ev[1]:
                b = ev[1][1] if ev[1][0] == "*" else ev[1]
                k = at_(b, p(f, 0))
                if k != -1:
                    ex.report(st, fr, ev[3], "something else than the count of users is changed")
                v = ev[2] if not isinstance(ev[2], tuple) else const(ev[2])
                if v != d:
                    ex.report(st, fr, ev[3], "the count of users changes by %s" % v)
                return (n + 1, freed)
            if ev[0] == "write" and ev[1] and mentions(ev[1], p(f, 0)):
                ex.report(st, fr, ev[4], "the count of users is changed without atomic operation")
            if ev[0] == "call" and ev[1] in ("free", "::free"):
                if d > 0:
                    ex.report(st, fr, ev[4], "memory that is in use is freed")
                if at_(ev[3][0], p(f, 0)) != -o:
                    ex.report(st, fr, ev[4], "another address is freed than was allocated")
                if freed is not True:
                    ex.report(st, fr, ev[4], "a block is freed although others may use it")
                return (n, "freed")
            if ev[0] == "branch" and n:
                t, tr = unneg(ev[1], ev[2])
                if t[0] == "eq" and has_rmw(t):
                    c = const(t[2]) if const(t[2]) is not None else const(t[1])
                    # old count 1 (or new count 0)
                    return (n, c == 1 if tr else "no" if c == 1 else freed)
                if t[0] == "lt" and has_rmw(t[1]) and const(t[2]) is not None:
                    return (n, (const(t[2]) == 2) if tr else "no" if const(t[2]) == 2 else freed)
            return s
        def fin(ex, st, fr, s, d=d):
            n, freed = s
            if n != 1:
                ex.report(st, fr, None, "the count of users changes %s times" % n)
            if d < 0 and freed is True:
                ex.report(st, fr, None, "a block without users is not freed")
            if d < 0 and freed is None:
                ex.report(st, fr, None, "a block is never freed")
        automaton(R, P, f, "W06.block", f.name, (0, None), step, lambda g, i, n: False, fin)
    f = P.fn("TranBufPool::capacity")
    def step(ex, st, fr, ev, s):
        if ev[0] == "ret" and fr.depth == 0:
            l = lin(ev[1])
            k = [q for q in l if q != 1]
            ok = len(k) == 1 and l[k[0]] == 1 and l.get(1, 0) == -4 * o and k[0][0] == "ld" and at_(k[0][1][1] if k[0][1][0] == "*" else k[0][1], p(f, 0)) == -o
            if not ok:
                ex.report(st, fr, ev[2], "the capacity of a block is not its size without the size and the count before it")
        return s
    automaton(R, P, f, "W06.block", f.name, None, step, lambda g, i, n: True)
    return o


def has_rmw(t):
    return contains(t, lambda y: bool(y) and y[0] in ("rmw", "xchg"))


def holder(t):
    """X of X.data / a handle X"""
    t = unwrap(t)
    if t[0] == "ld":
        t = t[1]
    if t[0] == "F" and isinstance(t[2], str) and t[2].split("::")[-1] == "data":
        t = t[1]
    return t


def appended(R, P, f):
    """a handle put into the list of a read buffer holds a reference"""
    many = "ReadBuffer" in f.key.split("(", 1)[1]

    def step(ex, st, fr, ev, s):
        due, cnt, tot, blk = s
        k = ev[0]
        if k == "call":
            x, args, nid = short(ev[1]), ev[3], ev[4]
            if x in ("push_back", "emplace_back") and has_field(ev[2] or ("x",), "_buf_list"):
                h = holder(args[0])
                return (tuple(sorted([d for d in due if d[0] != h] + [(h, dict(due).get(h, 0) + 1)], key=str)), cnt + 1 if cnt < 2 else 2, tot, blk)
            if x in ("push_front", "emplace_front", "insert") and has_field(ev[2] or ("x",), "_buf_list"):
                ex.report(st, fr, nid, "bytes are not appended at the end")
            if x == "add_ref":
                h = holder(args[0])
                return (tuple(sorted([d for d in due if d[0] != h] + [(h, dict(due).get(h, 0) - 1)], key=str)), cnt, tot, blk)
            if x == "free":
                ex.report(st, fr, nid, "a block is given back that was not counted")
            return s
        if k == "advance":
            check(ex, st, fr, due, ev[4])
            return ((), cnt, tot, blk)
        if k == "write" and ev[1]:
            l = fields(lin(ev[2]))
            if locis(ev[1], "_total_bytes"):
                if tot or l not in ({"_total_bytes": 2}, {"_total_bytes": 1, "size": 1}):
                    ex.report(st, fr, ev[4], "the total of a buffer grows by another number than its bytes")
                if not ex_owned(ev, p(f, 0)):
                    ex.report(st, fr, ev[4], "the total of a buffer grows by another number than its bytes")
                return (due, cnt, True, blk)
            if locis(ev[1], "_total_block_size"):
                return (due, cnt, tot, True)
        return s

    def ex_owned(ev, par):
        return contains(ev[2], lambda y: y == par)

    def check(ex, st, fr, due, nid):
        for h, n in due:
            if n > 0:
                ex.report(st, fr, nid, "a buffer refers to a block it is not counted for: the block is freed while in use")
            if n < 0:
                ex.report(st, fr, nid, "a buffer is counted for a block it does not refer to: the block is never freed")

    def fin(ex, st, fr, s):
        check(ex, st, fr, s[0], None)
        if not s[1] and not many:
            ex.report(st, fr, None, "bytes are not added to the buffer")
        if not s[2]:
            ex.report(st, fr, None, "the total of a buffer does not grow with its bytes")
        if not s[3]:
            ex.report(st, fr, None, "the memory held by a buffer is not counted")
    automaton(R, P, f, "W06.block", f.key.split("(")[0] + ("(buffer)" if many else "(bytes)"), ((), 0, False, False), step,
              calls_named("push_back", "emplace_back", "push_front", "insert"), fin, this_cls="ReadBuffer",
              boundary=["TranBufPool::add_ref", "TranBufPool::free", "TranBufPool::block_size"], ident=f.key)


def released(R, P, f, kind):
    """every element of the list is given back once"""
    ZERO = ("_total_block_size", "_total_capacity", "_last_bytes", "_write_bytes")

    def elem(t):
        return contains(t, lambda y: y[0] == "upd" or (y[0] == "call" and short(y[1]) in ("begin", "front", "back", "operator[]", "at")) or (y[0] == "F" and fieldis(y[2], "_buf_list")))

    def step(ex, st, fr, ev, s):
        due, ended, app, size, zero = s
        k = ev[0]
        if k == "branch":
            t, tr = unneg(ev[1], ev[2])
            u, utr = test_of(ev)
            if t[0] == "eq" and any(is_call(a, "end", "rend") for a in t[1:3]):
                if due == "due":
                    ex.report(st, fr, ev[3], "a block is not given back: it is never freed")
                return (None if tr else "due", tr, None, None, zero)
            if is_call(u, "empty"):
                if due == "due":
                    ex.report(st, fr, ev[3], "a block is not given back: it is never freed")
                return (None if utr else "due", utr, None, None, zero)
            if t[0] == "lt" and last(t[1]) == "size" and const(t[2]) == 1:
                return (due, ended, app, "none" if tr else "some", zero)
            if t[0] == "eq" and (last(t[1]) == "size" and const(t[2]) == 0 or last(t[2]) == "size" and const(t[1]) == 0):
                return (due, ended, app, "none" if tr else "some", zero)
        if k == "call":
            x, args, nid = short(ev[1]), ev[3], ev[4]
            if x == "free" and "TranBufPool" in ev[1]:
                if not elem(args[0]) or due != "due":
                    ex.report(st, fr, nid, "a block is given back twice")
                if kind == "swap" and size != "none" and app != "done":
                    ex.report(st, fr, nid, "bytes are given back before they are handed on")
                return ("freed", ended, app, size, zero)
            if x in ("pop_front", "pop_back", "erase") and has_field(ev[2] or ("x",), "_buf_list"):
                if due == "due":
                    ex.report(st, fr, nid, "a block is not given back: it is never freed")
                if kind == "swap" and x != "pop_front":
                    ex.report(st, fr, nid, "the blocks of a buffer are handed on in another order")
                return (None, ended, None, None, zero)
            if x == "clear" and has_field(ev[2] or ("x",), "_buf_list"):
                if not ended or due == "due":
                    ex.report(st, fr, nid, "a block is not given back: it is never freed")
                return s
            if x == "Append" and kind == "swap":
                if due == "freed":
                    ex.report(st, fr, nid, "a block is used after it was given back")
                if app == "done":
                    ex.report(st, fr, nid, "bytes are handed on twice")
                if size != "some":
                    ex.report(st, fr, nid, "an empty block is handed on")
                if app != "start":
                    ex.report(st, fr, nid, "a block is handed on from another position than its start")
                return (due, ended, "done", size, zero)
        if k == "write" and ev[1] and kind == "swap":
            if ev[1][0] == "F" and fieldis(ev[1][2], "offset"):
                return (due, ended, "start" if const(ev[2]) == 0 else app, size, zero)
            for z in ZERO:
                if locis(ev[1], z):
                    return (due, ended, app, size, zero | {z} if const(ev[2]) == 0 else zero - {z})
        return s

    def fin(ex, st, fr, s):
        due, ended, app, size, zero = s
        if due == "due" or not ended:
            ex.report(st, fr, None, "a block is not given back: it is never freed")
        if kind == "swap" and zero != frozenset(ZERO):
            ex.report(st, fr, None, "a buffer that was emptied still counts bytes or memory")
    automaton(R, P, f, "W06.block", f.name, (None, False, None, None, frozenset()), step, calls_named("free", "pop_front", "Append", "clear"), fin,
              this_cls=f.cls, boundary=["TranBufPool::free", "ReadBuffer::Append"], ident=f.key)


def extended(R, P, o):
    """a block that is allocated goes into the list of the buffer"""
    def room(ex, st, fr, nid, n, own):
        l = lin(n)
        k = [q for q in l if q != 1]
        if not (len(k) == 1 and l[k[0]] == 1 and mentions(k[0], own) and l.get(1, 0) == (0 if is_call(k[0], "capacity") else -4 * o)):
            ex.report(st, fr, nid, "the room in a block is not its capacity")

    for f in P.fns.values():
        if f.cls != "WriteBuffer" or not any(n["k"] in ("call", "mcall") and (n.get("n") or "").endswith("TranBufPool::malloc") for n in f.nodes):
            continue

        def step(ex, st, fr, ev, s):
            own, obj, stt = s
            k = ev[0]
            if k == "branch" and own:
                u, utr = test_of(ev)
                if u == own:
                    return (own if utr else None, obj, stt | {"there"} if utr else stt)
            if k == "call":
                x, args, nid = short(ev[1]), ev[3], ev[4]
                if ev[1].endswith("TranBufPool::malloc"):
                    return (ev[5] if len(ev) > 5 else None, None, frozenset())
                if "BufHandle" in ev[1] and x == "{ctor}" and own and mentions(args[0], own):
                    room(ex, st, fr, nid, args[1], own)
                    return (own, True, stt)
                if x == "free" and own and mentions(args[0], own):
                    return (None, None, stt)
                if x in ("push_back", "emplace_back") and has_field(ev[2] or ("x",), "_buf_list") and own:
                    if "there" not in stt:
                        ex.report(st, fr, nid, "a block is used although there is no memory")
                    if obj or any(mentions(a, own) for a in args):
                        return (None, None, stt | {"stored"})
            if k == "object" and "BufHandle" in ev[1] and own and ev[3] and mentions(ev[3][0], own):
                room(ex, st, fr, None, ev[3][1], own)
                return (own, True, stt)
            if k == "write" and ev[1]:
                for w in ("_total_block_size", "_total_capacity"):
                    if locis(ev[1], w):
                        return (own, obj, stt | {w})
            if k == "ret" and fr.depth == 0:
                b = retbool(ex, st, ev[1])
                stt = stt - {"there"}
                if own:
                    ex.report(st, fr, ev[2], "a block is never freed")
                if b is not False and stt != {"stored", "_total_block_size", "_total_capacity"}:
                    ex.report(st, fr, ev[2], "there is no new room although a buffer says so" if "stored" not in stt else "the memory held by a buffer is not counted")
                if b is False and "stored" in stt:
                    ex.report(st, fr, ev[2], "a buffer denies the room it has")
            return s
        automaton(R, P, f, "W06.block", f.name, (None, None, frozenset()), step, calls_named("malloc", "push_back", "free", "{ctor}"), this_cls="WriteBuffer",
                  boundary=["TranBufPool::malloc", "TranBufPool::free", "TranBufPool::capacity", "TranBufPool::block_size"], ident=f.key)


def positions(R, P):
    """Next and BackUp"""
    def go(f, want, guard):
        def step(ex, st, fr, ev, s):
            k = ev[0]
            w, moved, facts = s
            if k == "write" and ev[1]:
                loc = ev[1]
                key = "p%d" % loc[2] if loc[0] == "p" else loc[2].split("::")[-1] if loc[0] == "F" and isinstance(loc[2], str) else None
                if key == "size" and loc[0] == "F" and f.cls == "WriteBuffer" and contains(loc[1], lambda y: y[0] == "call" and short(y[1]) in ("front", "begin")):
                    ex.report(st, fr, ev[4], "bytes of another block than the last are counted")
                if key:
                    return (tuple(sorted([x for x in w if x[0] != key] + [(key, fz(fields(lin(ev[2]), f)))], key=str)), moved, facts)
            if k == "advance":
                return (w, (moved or "") + fr.fn.nodes[ev[4]]["op"], facts)
            if k == "branch":
                u, utr = test_of(ev)
                t, tr = unneg(ev[1], ev[2])
                if is_call(u, "Extend"):
                    facts = facts | {"room"} if utr else facts | {"none"}
                if t[0] == "eq" and {last(a) for a in t[1:3]} == {"size", "capacity"}:
                    facts = facts | {"full"} if tr else facts | {"room"}
                if t[0] == "lt" and last(t[1]) == "size" and last(t[2]) == "capacity":
                    facts = facts | {"room"} if tr else facts | {"full"}
                if t[0] == "eq" and any(is_call(a, "end") for a in t[1:3]):
                    facts = facts | {"none"} if tr else facts | {"room"}
                if t[0] == "lt" and t[1] == p(f, 0) and const(t[2]) == 1:
                    facts = facts | {"nothing"} if tr else facts | {"some"}
                return (w, moved, facts)
            if k == "ret" and fr.depth == 0 and f.name.endswith("Next"):
                b = retbool(ex, st, ev[1])
                done(ex, st, fr, ev[2], s, b)
            return s

        def done(ex, st, fr, nid, s, b):
            w, moved, facts = s
            w = {k: dict(v) for k, v in w}
            if b is False:
                for key in ("p0", "p1"):
                    if key in w:
                        ex.report(st, fr, nid, "bytes are handed out although there are none")
                if any(key in w for key in ("_read_bytes", "_write_bytes")):
                    ex.report(st, fr, nid, "bytes are counted that were not handed out")
                return
            if guard and "room" not in facts:
                ex.report(st, fr, nid, "bytes are handed out that are not in the buffer")
            wm = want[0]
            if "nothing" in facts:
                wm = {k: v for k, v in wm.items() if k not in ("_cur_pos", "size") and not (k in ("_read_bytes", "_write_bytes") and k not in w)}
            elif want[1] and moved != want[1]:
                ex.report(st, fr, nid, "the position in the buffer does not move by one block")
            for key, l in wm.items():
                if w.get(key) != l:
                    ex.report(st, fr, nid, MSG.get(key, "the bytes handed out are counted wrongly"))

        def fin(ex, st, fr, s):
            if not f.name.endswith("Next"):
                done(ex, st, fr, None, s, None)
        automaton(R, P, f, "W06.bytes", f.name, ((), None, frozenset()), step, lambda g, i, n: False, fin, this_cls=f.cls, boundary=["WriteBuffer::Extend"], ident=f.key)
    MSG = {"p0": "other bytes are handed out than the next ones", "p1": "another number of bytes is handed out than there is", "_cur_pos": "the next bytes handed out are not those that follow",
           "size": "bytes of a block are handed out twice or never"}
    n = {"size": 1, "_cur_pos": -1}
    go(P.fn("ReadBuffer::Next"), ({"p0": {"data": 1, "offset": 1, "_cur_pos": 1}, "p1": n, "_last_bytes": n, "_cur_pos": {}, "_read_bytes": dict(n, _read_bytes=1)}, "++"), True)
    go(P.fn("ReadBuffer::BackUp"), ({"_cur_pos": {"size": 1, "p0": -1}, "_read_bytes": {"_read_bytes": 1, "p0": -1}, "_last_bytes": {}}, "--"), False)
    n = {"capacity": 1, "size": -1}
    go(P.fn("WriteBuffer::Next"), ({"p0": {"data": 1, "size": 1}, "p1": n, "_last_bytes": n, "size": {"capacity": 1}, "_write_bytes": dict(n, _write_bytes=1)}, None), True)
    go(P.fn("WriteBuffer::BackUp"), ({"size": {"size": 1, "p0": -1}, "_write_bytes": {"_write_bytes": 1, "p0": -1}, "_last_bytes": {}}, None), False)


def empties(R, P):
    """protobuf backs up nothing, without having been given a block, when it writes a message without bytes"""
    for name in ("WriteBuffer::BackUp", "BlockCompressionOutputStream::BackUp"):
        f = P.fn(name)

        def value(t):
            t = unwrap(t)
            if t == p(f, 0) or t[0] == "ld" and has_field(t, "_last_bytes"):
                return 0
            return const(t)

        def step(ex, st, fr, ev, s):
            if s == "dead":
                return s
            if ev[0] == "branch":
                t, tr = unneg(ev[1], ev[2])
                if t[0] in ("lt", "eq"):
                    a, b = value(t[1]), value(t[2])
                    if a is not None and b is not None and ((a < b) if t[0] == "lt" else (a == b)) != tr:
                        return "dead"
            if ev[0] == "abort":
                ex.report(st, fr, ev[1] if isinstance(ev[1], int) else None, "backing up nothing ends the process: a message without bytes cannot be written")
            return s
        automaton(R, P, f, "W06.empty", f.name, "live", step, lambda g, i, n: False, this_cls=f.cls)


def reserve(R, P):
    """Reserve and Skip use exactly the number of bytes asked for"""
    for f in (P.fn("WriteBuffer::Reserve"), P.fn("ReadBuffer::Skip")):
        skip = f.name.endswith("Skip")
        cl = ("L", f.key, f.params[0] if isinstance(f.params[0], int) else 0)

        def val(st):
            return st.store.get(cl, p(f, 0))

        def step(ex, st, fr, ev, s):
            got, facts, head = s
            k = ev[0]
            if k == "call":
                x, nid = short(ev[1]), ev[4]
                if x == "Next" and ev[1].split("::")[0] == f.cls:
                    if got is not None:
                        ex.report(st, fr, nid, "bytes are taken that were not asked for")
                    d = ev[3][1]
                    return (("asked", d), frozenset(), head)
                if x == "BackUp" and ev[1].split("::")[0] == f.cls:
                    if got is None or got[0] != "got":
                        ex.report(st, fr, nid, "bytes are given back that were not taken")
                        return s
                    n = st.store.get(got[1], got[2])
                    if lin(ev[3][0]) != ladd(lin(got[2]), lin(got[3]), -1):
                                                ex.report(st, fr, nid, "another number of bytes is given back than was taken too many")
                    return (("exact",) + got[1:], facts, head)
                if x == "ByteCount":
                    return s
            if k == "branch":
                t, tr = unneg(ev[1], ev[2])
                u, utr = test_of(ev)
                if is_call(u, "Next") and got and got[0] == "asked":
                    if not utr:
                        return (None, facts | {"short"}, head)
                    return (("got", got[1], st.store.get(got[1]), val(st)), facts, head)
                if got and got[0] == "got" and t[0] == "lt":
                    d = ladd(lin(t[1]), lin(t[2]), -1)
                    c = d.pop(1, 0)
                    want = ladd(lin(got[2]), lin(got[3]), -1)
                    if d == want and c in (0, -1):
                        # taken < asked, taken <= asked
                        return (got, facts | {"fits" if tr else "more or equal" if c == 0 else "more"}, head)
                    if d == {q: -k for q, k in want.items()} and c in (0, -1):
                        return (got, facts | {("more" if c == 0 else "more or equal") if tr else "fits"}, head)
                if t[0] == "lt" and t[1] == val(st) and const(t[2]) == 1:
                    return (got, facts | {"all"} if tr else facts - {"all"}, head)
                if t[0] == "eq" and val(st) in t[1:3] and const(t[2]) == 0:
                    return (got, facts | {"all"} if tr else facts - {"all"}, head)
            if k == "write" and ev[1] == cl and fr.depth == 0:
                if got is None:
                    ex.report(st, fr, ev[4], "bytes are counted that were not taken")
                    return s
                v = lin(ev[2])
                if got[0] == "exact" and (const(ev[2]) == 0 or not (set(v) - {1})):
                    return (None, facts | {"all"}, head)
                if got[0] == "got" and "fits" not in facts:
                    ex.report(st, fr, ev[4], "more bytes are taken than were asked for")
                # what was taken is subtracted
                taken = [q for q in v if q != 1 and v[q] < 0]
                if got[0] == "got" and (len(taken) != 1 or taken[0] != got[2]):
                    ex.report(st, fr, ev[4], "another number of bytes is counted than was taken")
                return (None, facts, head)
            if k == "write" and got and ev[1] == got[1] and got[0] == "exact":
                # size = count: all that was asked for
                return s
            if k == "ret" and fr.depth == 0:
                if got is not None and got[0] == "got":
                    ex.report(st, fr, ev[2], "bytes are taken without being counted")
                if skip:
                    return s
                c = const(ev[1])
                if c is not None and c < 0:
                    return s
                if "short" in facts:
                    ex.report(st, fr, ev[2], "bytes are reserved that are not there")
                if not (last(ev[1]) == "_write_bytes" or is_call(ev[1], "ByteCount")):
                    ex.report(st, fr, ev[2], "the position of the reserved bytes is not the end of the bytes before")
            return s
        automaton(R, P, f, "W06.bytes", f.name, (None, frozenset(), None), step, calls_named("Next", "BackUp"), this_cls=f.cls,
                  boundary=["WriteBuffer::Next", "WriteBuffer::BackUp", "ReadBuffer::Next", "ReadBuffer::BackUp"], ident=f.key)


def stored(R, P):
    """SetData writes inside the blocks, in order"""
    f = P.fn("WriteBuffer::SetData")

    def cur(st, i):
        return st.store.get(("L", f.key, f.params[i] if isinstance(f.params[i], int) else i), p(f, i))

    def step(ex, st, fr, ev, s):
        facts, due, moved, hop = s
        k = ev[0]
        pos = ("L", f.key, f.params[0] if isinstance(f.params[0], int) else 0)
        if hop and k == "write" and ev[1] and fr.depth == 0:
            kind, amount, done = hop
            if ev[1] == pos:
                if kind == "in" and const(ev[2]) != 0:
                    ex.report(st, fr, ev[4], "bytes are stored at another position than asked for")
                if kind == "over" and len(ladd(lin(ev[2]), dict(amount))) != 1:
                    ex.report(st, fr, ev[4], "bytes are stored at another position than asked for")
                hop = (kind, amount, done | {"pos"})
            elif kind == "in" and amount and any(lin(ev[2]).get(q) == c for q, c in amount if q != 1):
                hop = (kind, amount, done | {"off"})
            elif kind == "over" and const(ev[2]) == 0:
                hop = (kind, amount, done | {"off"})
        if hop and k == "advance":
            hop = (hop[0], hop[1], hop[2] | {"block"})
        if hop and hop[2] == ({"pos", "off"} if hop[0] == "in" else {"pos", "off", "block"}):
            hop = None
        if k == "branch" and hop is None or k == "branch" and hop and hop[2]:
            t, tr = unneg(ev[1], ev[2])
            pv = lin(st.store.get(pos, p(f, 0)))
            if t[0] == "lt":
                for x, y, less in ((t[1], t[2], tr), (t[2], t[1], not tr)):
                    sz = [q for q in lin(y) if q != 1 and last(q) == "size"]
                    if lin(x) == pv and len(sz) == 1:
                        if hop:
                            ex.report(st, fr, ev[3], "bytes are stored at another position than asked for")
                        hop = ("in", fz(pv), frozenset()) if less else ("over", fz(lin(y)), frozenset())
        if k == "branch":
            t, tr = unneg(ev[1], ev[2])
            if t[0] == "lt":
                d = fz(ladd(lin(t[1]), lin(t[2]), -1))
                return (facts | {(d, tr)}, due, moved, hop)
            if t[0] == "eq" and any(is_call(a, "end") for a in t[1:3]):
                return (facts, due, moved, hop)
        if k == "advance" and moved == "part":
            moved = "on"
        if k == "call" and short(ev[1]) in ("memcpy", "memmove"):
            args, nid = ev[3], ev[4]
            if hop:
                ex.report(st, fr, nid, "bytes are stored at another position than asked for")
            if due:
                ex.report(st, fr, nid, "the same bytes are stored twice")
            l = lin(args[0])
            dat = [q for q in l if q != 1 and last(q) == "data"]
            if len(dat) != 1:
                raise Broken("the destination of the bytes is unknown")
            off = ladd(l, {dat[0]: 1}, -1)
            if args[1] != cur(st, 1):
                                ex.report(st, fr, nid, "other bytes are stored than the next ones")
            n, rem = lin(args[2]), lin(cur(st, 2))
            h = dat[0][1][1]
            if moved is not None:
                if moved != "on":
                    ex.report(st, fr, nid, "the rest of the bytes is not stored in the next block")
                if off:
                    ex.report(st, fr, nid, "the rest of the bytes is not stored at the start of the next block")
            rest = None
            mn = unwrap(args[2])
            parts = [q for a in (mn[3] if is_call(mn, "min") else ()) for q in lin(a) if q != 1]
            for q in [q for d, _ in facts for q, c in d if q != 1] + [q for q in n if q != 1] + parts:
                if last(q) == "size" and q[1][1] == h:
                    rest = ladd({q: 1}, off, -1)
            if rest is None:
                ex.report(st, fr, nid, "bytes are stored without looking at the size of the block")
                return (facts, due, moved, hop)
            more = fz(ladd(rem, rest, -1))          # rem - rest < 0 : fits
            less = fz(ladd(rest, rem, -1))
            fits = (more, True) in facts or (less, False) in facts or (fz(ladd(ladd(rem, rest, -1), {1: 1}, -1)), True) in facts
            over = (more, False) in facts or (less, True) in facts
            mn = unwrap(args[2])
            if is_call(mn, "min") and {fz(lin(a)) for a in mn[3]} == {fz(rest), fz(rem)}:
                return (facts, ("min", fz(n)), "part", hop)
            if n == rem and fits:
                return (facts, ("last", fz(n)), "last", hop)
            if n == rest and over:
                return (facts, ("part", fz(n)), "part", hop)
            ex.report(st, fr, nid, "bytes are stored outside the block" if n in (rem, rest) else "another number of bytes is stored than there is room or data for")
            return (facts, ("part", fz(n)), "part", hop)
        if k in ("write", "advance") and due and ev[1]:
            if ev[1] == ("L", f.key, f.params[2] if isinstance(f.params[2], int) else 2):
                # remaining size
                l = lin(ev[2])
                neg = {q: -c for q, c in l.items() if q in dict(due[1]) or c < 0}
                if due[0] == "last":
                    if l and l != {} and set(l) != set():
                        if const(ev[2]) not in (0, None):
                            ex.report(st, fr, ev[4], "the number of bytes left is wrong")
                    return (facts, None, moved, hop)
                base = ladd(l, dict(due[1]))
                if len(base) != 1:
                    ex.report(st, fr, ev[4], "the number of bytes left is wrong")
                return (facts, (due[0] + "-size", due[1]) if not due[0].endswith("-data") else None, moved, hop)
            if ev[1] == ("L", f.key, f.params[1] if isinstance(f.params[1], int) else 1):
                base = ladd(aged(lin(ev[2])), aged(dict(due[1])), -1)
                if len(base) != 1:
                    ex.report(st, fr, ev[4], "other bytes are stored than the next ones")
                return (facts, (due[0] + "-data", due[1]) if not due[0].endswith("-size") else None, moved, hop)
        return (facts, due, moved, hop)
    automaton(R, P, f, "W06.bytes", f.name, (frozenset(), None, None, None), step, calls_named("memcpy"), this_cls=f.cls, ident=f.key)


def receive_block(R, P):
    """the block a stream receives into is given back before it is replaced, and at the end"""
    for c in ("RpcMessageStream", "RpcServerMessageStream"):
        fs = [f for f in P.fns.values() if f.cls == c and any(n["k"] in ("call", "mcall") and (n.get("n") or "").startswith("TranBufPool::") and short(n["n"]) in ("malloc", "free") for n in f.nodes)]
        if not fs:
            raise Broken("%s does not manage a receive block" % c)
        for f in {x.name: x for x in fs}.values():
            end = f.name.endswith("{dtor}")

            def step(ex, st, fr, ev, s):
                k = ev[0]
                if k == "branch":
                    t, tr = unneg(ev[1], ev[2])
                    if t[0] == "eq" and t[2] == NULL and is_ld(t[1], "_tran_buf") and s == "?":
                        return "none" if tr else "some"
                if k == "call":
                    x = short(ev[1])
                    if x == "free" and has_field(ev[3][0], "_tran_buf"):
                        if s == "freed":
                            ex.report(st, fr, ev[4], "the receive block is given back twice")
                        return "freed"
                if k == "write" and ev[1] and locis(ev[1], "_tran_buf"):
                    if const(ev[2]) == 0:
                        if s in ("?", "some", "new"):
                            ex.report(st, fr, ev[4], "the receive block is forgotten without giving it back")
                        return "none"
                    if s in ("?", "some", "new"):
                        ex.report(st, fr, ev[4], "the receive block is replaced without giving it back")
                    return "new"
                return s

            def fin(ex, st, fr, s):
                if end and s not in ("none", "freed"):
                    ex.report(st, fr, None, "the receive block is not given back at the end")
                if not end and s == "freed":
                    ex.report(st, fr, None, "a stream keeps a receive block it gave back")
            automaton(R, P, f, "W06.block", f.name, "?", step, any_of(calls_named("malloc", "free"), writes_field("_tran_buf")), fin, this_cls=c,
                      boundary=["TranBufPool::malloc", "TranBufPool::free"], ident=f.key)
