"""W03: the mapping between JSON documents and messages."""
from lib import *
import core
from rules.calls import where, const, at, subj
from rules.server import p, mentions

CPP = {1: "Int32", 2: "Int64", 3: "UInt32", 4: "UInt64", 5: "Double", 6: "Float", 7: "Bool", 8: "Enum", 9: "String", 10: "Message"}
WORD = {"Int32": "an int32", "Int64": "an int64", "UInt32": "a uint32", "UInt64": "a uint64", "Double": "a double", "Float": "a float",
        "Bool": "a bool", "Enum": "an enum", "String": "a string", "Message": "a message"}
# what must be known of a JSON value before it is read through an accessor
NEED = {"GetInt": {"int"}, "GetUint": {"uint"}, "GetInt64": {"int64", "int", "uint"}, "GetUint64": {"uint64", "uint"},
        "GetDouble": {"number", "int", "uint", "int64", "uint64", "double"}, "GetBool": {"bool"}, "GetString": {"string"}, "GetStringLength": {"string"},
        "Begin": {"array"}, "End": {"array"}, "Size": {"array"}, "MemberBegin": {"object"}, "MemberEnd": {"object"},
        "FindMember": {"object"}, "HasMember": {"object"}}
ISX = {"IsInt": "int", "IsUint": "uint", "IsInt64": "int64", "IsUint64": "uint64", "IsDouble": "double", "IsNumber": "number",
       "IsBool": "bool", "IsTrue": "bool", "IsFalse": "bool", "IsString": "string", "IsArray": "array", "IsObject": "object", "IsNull": "null"}
TYPE = {0: "null", 1: "bool", 2: "bool", 3: "object", 4: "array", 5: "string", 6: "number"}
FIT = {"Int32": {"GetInt"}, "UInt32": {"GetUint"}, "Int64": {"GetInt64", "GetInt", "GetUint"}, "UInt64": {"GetUint64", "GetUint"},
       "Double": {"GetDouble"}, "Float": {"GetDouble"}, "Bool": {"GetBool"}}
BITS = {"Int32": 32, "UInt32": 32, "Int64": 64, "UInt64": 64}
READ = {"Int32": 32, "UInt32": 32, "Int64": 64, "UInt64": 64, "Bool": 1, "Enum": 32}
GV = "rapidjson::GenericValue"


def iscall(t):
    return bool(t) and t[0] == "call"


def outer(v):
    """the parts of a value that are computed from, without those only used to find it"""
    yield v
    if v and v[0] in ("trunc", "bool", "op", "not", "neg", "cond", "eq", "lt"):
        for y in v[1:]:
            if isinstance(y, tuple):
                yield from outer(y)


def shortened(v, bits):
    return any(y[0] == "trunc" and y[2] < bits for y in outer(v))


def recursive_entry(P, root):
    """the recursive functions called from `root` (not from inside their recursion)"""
    out, seen, st = [], set(), [root.key]
    while st:
        k = st.pop()
        if k in seen or k not in P.fns:
            continue
        seen.add(k)
        succ = [t for kind, t, _ in P.edges(P.fns[k]) if kind == "call"]
        if k in P.reachable(succ):
            out.append(P.fns[k])
            continue
        st += succ
    return out


def refl(name):
    """(verb, repeated?, type) of a method of Reflection"""
    n = short(name)
    if "Reflection::" not in name:
        return None
    for verb in ("GetRepeated", "SetRepeated", "MutableRepeated", "Set", "Add", "Get", "Mutable"):
        if n.startswith(verb) and n[len(verb):] in WORD:
            return verb, verb in ("Add",) or "Repeated" in verb, n[len(verb):]
    return None


def json_rules(R, P):
    R.rule("W03.read", "a JSON value is read as a type only after it was found to be a value of that type, and into a field of that type")
    R.rule("W03.all", "every member of a JSON document becomes the field of its name or fails the conversion; no error is lost")
    R.rule("W03.write", "every field that is set is written to the JSON document, read through the accessor of its type")
    reading(R, P)
    writing(R, P)
    parsing(R, P)


def reading(R, P):
    roots = P.all("jsonobject2pb")
    fs = []
    for r in roots:
        fs += [x for x in recursive_entry(P, r) if x not in fs]
    if not fs:
        raise Broken("no function that turns JSON values into fields")
    for f in fs:
        reading_from(R, P, f)


def reading_from(R, P, f):
    done = set()
    jp = [i for i in range(len(f.params)) if GV in f.key.split("(", 1)[1].split(",")[i]]
    mp = [i for i in range(len(f.params)) if "Message" in f.key.split("(", 1)[1].split(",")[i]]
    if not jp or not mp:
        raise Broken("the parameters of %s are unknown" % f.name)
    msg = p(f, mp[0])
    # facts about values, facts about fields, what is due, the nested result, string objects
    S0 = (frozenset(), frozenset(), None, None, frozenset())

    def want(x):
        return {"field": "a known member is ignored", "element": "an element of an array is ignored", "unknown": "an unknown member is ignored",
                "value": "the value of a field is ignored", "array": "a value that is not an array is ignored for a repeated field"}[x]

    def step(ex, st, fr, ev, s):
        vf, ff, due, nest, strs = s
        k = ev[0]
        if k == "branch":
            t, tr = unneg(ev[1], ev[2])
            u, utr = test_of(ev)
            if iscall(u) and short(u[1]) in ISX and GV in u[1]:
                if utr:
                    vf = vf | {(u[2], ISX[short(u[1])])}
                if due == "array" and short(u[1]) == "IsArray" and utr:
                    due = None
                return (vf, ff, due, nest, strs)
            if t[0] == "eq":
                for a, b in ((t[1], t[2]), (t[2], t[1])):
                    a = unwrap(a)
                    if is_call(a, "GetType") and GV in a[1] and const(b) is not None:
                        if tr:
                            vf = vf | {(a[2], TYPE.get(const(b)))}
                            if due == "array" and const(b) == 4:
                                due = None
                        return (vf, ff, due, nest, strs)
                    if is_call(a, "cpp_type") and const(b) is not None:
                        if tr:
                            ff = frozenset(x for x in ff if x[0] not in ("T", "bytes")) | {("T", CPP.get(const(b)))}
                        return (vf, ff, due, nest, strs)
                    if is_call(a, "type") and "FieldDescriptor" in a[1] and const(b) == 12:
                        ff = frozenset(x for x in ff if x[0] != "bytes") | {("bytes", tr)}
                        return (vf, ff, due, nest, strs)
                    if is_call(a, "End") and GV in a[1]:
                        if not tr:
                            if due == "element":
                                ex.report(st, fr, ev[3], want(due))
                            return (vf, frozenset(x for x in ff if x[0] == "rep"), "element", nest, strs)
                        return s
                    if is_call(a, "MemberEnd") and GV in a[1]:
                        if due:
                            ex.report(st, fr, ev[3], want(due))
                        return (frozenset(x for x in vf if x[0] == p(f, jp[0])), frozenset(), None, nest, frozenset())
                    if nest is not None and nest[0] == "open" and mentions(a, nest[1]) and b == ("c", 0):
                        return (vf, ff, due, None if tr else ("failed",), strs)
            if iscall(u) and short(u[1]) in ("FindFieldByName", "FindKnownExtensionByName", "FindFieldByCamelcaseName", "FindFieldByLowercaseName"):
                if utr:
                    return (vf, frozenset(x for x in ff if x[0] not in ("T", "bytes", "rep")), "field", nest, strs)
                return (vf, ff, "unknown", nest, strs)
            if is_call(u, "is_repeated") or is_call(u, "label"):
                ff = frozenset(x for x in ff if x[0] != "rep") | {("rep", utr)}
                if due == "field":
                    due = "array" if utr else "value"
                return (vf, ff, due, nest, strs)
            if nest is not None and nest[0] == "open" and mentions(u, nest[1]):
                return (vf, ff, due, ("failed",) if utr else None, strs)
            return s
        if k == "call":
            name, x, recv, args, nid = ev[1], short(ev[1]), ev[2], ev[3], ev[4]
            if GV in name and x in NEED and not (recv and (fieldis(recv[2], "name") if recv[0] == "F" else False)):
                if not any(a == recv and b in NEED[x] for a, b in vf):
                    ex.report(st, fr, nid, "a JSON value is read by %s() although it may be of another type" % x)
            if GV in name and x == "operator[]" and not any(a == recv and b in ("array", "object") for a, b in vf):
                ex.report(st, fr, nid, "a JSON value is indexed although it may be no array")
            r = refl(name)
            if r:
                verb, rep, T = r
                have = [b for a, b in ff if a == "T"]
                if T not in have:
                    ex.report(st, fr, nid, "a field is accessed as %s although it may be of another type" % WORD[T])
                if ("rep", rep) not in ff:
                    ex.report(st, fr, nid, "a field is accessed as %s although it may %s" % ("repeated" if rep else "single", "hold one value" if rep else "be repeated"))
                if verb.startswith("Get") or verb.startswith("SetRepeated") or verb.startswith("MutableRepeated"):
                    return s
                if args and args[0] != msg and not mentions(args[0], msg):
                    ex.report(st, fr, nid, "a field of another message is set")
                if T == "Message":
                    return (vf, ff, due, ("want", ev[5] if len(ev) > 5 else None), strs)
                v = args[2]
                u = unwrap(v)
                if T in BITS and shortened(v, BITS[T]):
                    ex.report(st, fr, nid, "the value of a field is shortened")
                if T in FIT:
                    acc = [short(y[1]) for y in outer(v) if iscall(y) and GV in y[1] and short(y[1]) in NEED]
                    if acc and not all(a in FIT[T] for a in acc):
                        ex.report(st, fr, nid, "%s is set from a JSON value read by %s()" % (WORD[T], acc[0]))
                if T == "String":
                    cl = strs_of(v, strs, st)
                    if ("bytes", True) in ff and "decoded" not in cl:
                        ex.report(st, fr, nid, "the bytes of a field are set without decoding them")
                    if ("bytes", False) in ff and "decoded" in cl:
                        ex.report(st, fr, nid, "text is decoded that was not encoded")
                    if "cut" in cl:
                        ex.report(st, fr, nid, "a string ends at its first zero byte")
                    if not any(a == "bytes" for a, b in ff) and not ({"bytes"} <= cl):
                        ex.report(st, fr, nid, "the bytes of a field are set without looking whether they are encoded")
                done.add((T, rep))
                return (vf, ff, None, nest, strs)
            if name == f.name:
                tgt = args[mp[0]]
                if nest is not None and nest[0] == "open":
                    ex.report(st, fr, nid, "an error inside a message is ignored")
                if tgt == msg:
                    ex.report(st, fr, nid, "a message inside a message is read into the outer one")
                if nest is not None and nest[0] == "want":
                    for a, b in ff:
                        if a == "rep":
                            done.add(("Message", b))
                return (vf, ff, None, ("open", ev[5] if len(ev) > 5 else None), strs)
            if x == "operator=" and "basic_string" in name and recv:
                c = strs_of(args[0], strs, st)
                return (vf, ff, due, nest, frozenset(y for y in strs if y[0] != recv) | {(recv, y) for y in c})
            if x in ("assign", "append", "swap") and "basic_string" in name and recv:
                c = set()
                for a in args:
                    c |= strs_of(a, strs, st)
                if x == "assign" and len(args) == 1 and is_call(unwrap(args[0]), "GetString"):
                    c |= {"cut"}
                return (vf, ff, due, nest, frozenset(y for y in strs if y[0] != recv or x == "append") | {(recv, y) for y in c})
            return s
        if k == "object" and "basic_string" in str(ev[1]):
            loc, args = ev[2], ev[3]
            c = set()
            for a in args:
                c |= strs_of(a, strs, st)
            n = [a for a in args if a and a[0] != "opq"]
            if len(n) == 1 and is_call(unwrap(n[0]), "GetString"):
                c |= {"cut"}
            return (vf, ff, due, nest, frozenset(y for y in strs if y[0] != loc) | {(loc, y) for y in c})
        if k in ("write", "advance"):
            now = st.store.get(ev[1])
            if now is not None and now[0] in ("upd", "new") and any(mentions(a, now) or a == now for a, b in vf):
                vf = frozenset((a, b) for a, b in vf if not mentions(a, now))
                return (vf, ff, due, nest, strs)
            return s
        if k == "ret" and fr.depth == 0:
            c = const(ev[1])
            okay = c == 0 or (c is None and retbool(ex, st, ev[1]) is not True)
            if nest is not None and nest[0] == "open" and mentions(ev[1], nest[1]):
                return s
            if not okay:
                return s
            if nest is not None and nest[0] in ("open", "failed"):
                ex.report(st, fr, ev[2], "an error inside a message is ignored")
            if nest is not None and nest[0] == "want":
                ex.report(st, fr, ev[2], "the members of a message inside a message are ignored")
            if due:
                ex.report(st, fr, ev[2], want(due))
            if not any(a == p(f, jp[0]) and b == "object" for a, b in vf):
                ex.report(st, fr, ev[2], "a document that is not an object is accepted as a message")
        return s

    def strs_of(v, strs, st):
        out = set()
        for y in subterms(v):
            if iscall(y) and "b64_decode" in y[1]:
                out.add("decoded")
            for a, b in strs:
                if a == y:
                    out.add(b)
        u = unwrap(v)
        if is_call(u, "{ctor}") and "basic_string" in u[1]:
            n = [a for a in u[3] if a and a[0] != "opq"]
            if len(n) == 1 and is_call(unwrap(n[0]), "GetString"):
                out.add("cut")
        return out
    names = list(NEED) + list(ISX) + ["GetType", "cpp_type", "is_repeated", "FindFieldByName", "b64_decode"]
    names += [v + t for v in ("Set", "Add", "Mutable", "Get") for t in WORD]
    automaton(R, P, f, "W03.read", f.name, S0, step, calls_named(*names), boundary=[f.name, "b64_decode"], ident=f.key)
    miss = [T for T in WORD if not {(T, True), (T, False)} <= done]
    R.decide("W03.all", "%s: all types" % f.name, not miss, where(f), "a field of type %s is never set" % ", ".join(miss))


def writing(R, P):
    roots = [f for f in P.fns.values() if f.name.split("::")[-1] in ("pb2json", "pb2jsonobject")]
    fs = []
    for r in roots:
        fs += [x for x in recursive_entry(P, r) if x not in fs]
    if not fs:
        raise Broken("no function that turns fields into JSON values")
    for f in fs:
        writing_from(R, P, f)


def writing_from(R, P, f):
    done = set()
    # field facts, field due, element due, walked, string objects, value due
    S0 = (frozenset(), None, None, False, frozenset())

    def step(ex, st, fr, ev, s):
        ff, due, elem, walked, strs = s
        k = ev[0]
        T = ([b for a, b in ff if a == "T"] + [None])[0]
        if k == "branch":
            t, tr = unneg(ev[1], ev[2])
            u, utr = test_of(ev)
            for a, b in ((t[1], t[2]), (t[2], t[1])) if t[0] in ("eq", "lt") else ():
                a = unwrap(a)
                if t[0] == "eq" and is_call(a, "cpp_type") and const(b) is not None:
                    if tr:
                        ff = frozenset(x for x in ff if x[0] not in ("T", "bytes")) | {("T", CPP.get(const(b)))}
                    return (ff, due, elem, walked, strs)
                if t[0] == "eq" and is_call(a, "type") and "FieldDescriptor" in a[1] and const(b) == 12:
                    return (frozenset(x for x in ff if x[0] != "bytes") | {("bytes", tr)}, due, elem, walked, strs)
                if is_call(a, "FieldSize"):
                    if elem and elem[0] == "due":
                        ex.report(st, fr, ev[3], "an element of a field is not written")
                    ended = tr if t[0] == "eq" else ((not tr) if a == unwrap(t[2]) else tr)
                    return (ff, due, None if ended else ("due", None), True, strs)
            if is_call(u, "is_repeated"):
                return (frozenset(x for x in ff if x[0] != "rep") | {("rep", utr)}, due, elem, walked, strs)
            if is_call(u, "is_optional"):
                return (frozenset(x for x in ff if x[0] != "opt") | {("opt", utr)}, due, elem, walked, strs)
            if is_call(u, "is_required"):
                return (frozenset(x for x in ff if x[0] != "opt") | ({("opt", False), ("rep", False)} if utr else set()), due, elem, walked, strs)
            if is_call(u, "HasField"):
                if not utr:
                    return (frozenset(x for x in ff if x[0] != "has") | {("has", False)}, "unset" if due else due, elem, walked, strs)
                return (ff | {("has", True)}, due, elem, walked, strs)
            if iscall(u) and short(u[1]) == "field" and "Descriptor" in u[1]:
                if not utr:
                    return (ff, None, elem, walked, strs)
                return s
            return s
        if k == "call":
            name, x, recv, args, nid = ev[1], short(ev[1]), ev[2], ev[3], ev[4]
            if name.endswith("Descriptor::field"):
                if due == "field":
                    ex.report(st, fr, nid, "a field is not written")
                return (frozenset(), "field", None, False, strs)
            if x == "HasField" and ("opt", True) not in ff and ("rep", False) not in ff:
                ex.report(st, fr, nid, "a repeated field is asked whether it is set: the library aborts")
            if x == "FieldSize" and ("rep", True) not in ff:
                ex.report(st, fr, nid, "a single field is asked for its number of elements: the library aborts")
            r = refl(name)
            if r:
                verb, rep, rt = r
                if rt != T:
                    ex.report(st, fr, nid, "a field is accessed as %s although it may be of another type" % WORD[rt])
                if ("rep", rep) not in ff:
                    ex.report(st, fr, nid, "a field is accessed as %s although it may %s" % ("repeated" if rep else "single", "hold one value" if rep else "be repeated"))
                if verb not in ("Get", "GetRepeated"):
                    ex.report(st, fr, nid, "writing a message as JSON changes it")
                done.add((rt, rep))
                return (ff, due if rep else ("got" if due else due), elem, walked, strs)
            if x == "PushBack" and GV in name:
                if elem and elem[0] == "due":
                    elem = None
                return (ff, due, elem, walked, strs)
            if x == "AddMember" and GV in name:
                if T and ("rep", True) in ff and not walked:
                    ex.report(st, fr, nid, "the elements of a field are not written")
                if ("rep", False) in ff and T and due != "got":
                    ex.report(st, fr, nid, "a field is written without its value")
                return (ff, None, elem, walked, strs)
            if "GenericValue" in name and x == "{ctor}":
                value(ex, st, fr, nid, args, ff, T, strs)
                return s
            if x == "operator=" and "basic_string" in name and recv:
                c = enc(args[0], strs)
                return (ff, due, elem, walked, frozenset(y for y in strs if y[0] != recv) | {(recv, y) for y in c})
            if x in ("SetInt", "SetUint", "SetInt64", "SetUint64", "SetDouble", "SetBool", "SetString") and GV in name:
                b = {"SetInt": "Int32", "SetUint": "UInt32", "SetInt64": "Int64", "SetUint64": "UInt64", "SetDouble": "Double", "SetBool": "Bool", "SetString": "String"}[x]
                if T and b != T and not (b == "Double" and T == "Float") and not (b == "Int32" and T == "Enum") and not (b == "String" and T == "Enum"):
                    ex.report(st, fr, nid, "%s is written as %s" % (WORD[T], WORD[b]))
                value(ex, st, fr, nid, args, ff, T, strs)
            return s
        if k in ("object", "new"):
            cls, loc, args = (ev[1], ev[2], ev[3]) if k == "object" else (ev[1], ev[3], ev[2])
            if "GenericValue" in str(cls):
                value(ex, st, fr, ev[4] if len(ev) > 4 and isinstance(ev[4], int) else None, args, ff, T, strs)
            elif "basic_string" in str(cls):
                c = set()
                for a in args:
                    c |= enc(a, strs)
                return (ff, due, elem, walked, frozenset(y for y in strs if y[0] != loc) | {(loc, y) for y in c})
            return s
        if k == "write" and ev[2] and any("b64_encode" in str(y[1]) for y in subterms(ev[2]) if iscall(y)):
            return (ff, due, elem, walked, strs | {(ev[1], "encoded")})
        if k == "write" and any(y[0] == ev[1] for y in strs):
            return (ff, due, elem, walked, frozenset(y for y in strs if y[0] != ev[1]))
        if k == "ret" and fr.depth == 0:
            if const(ev[1]) != 0 and due in ("field", "got"):
                ex.report(st, fr, ev[2], "a field is not written")
        return s

    def enc(v, strs):
        out = set()
        for y in subterms(v):
            if iscall(y) and "b64_encode" in y[1]:
                out.add("encoded")
            for a, b in strs:
                if a == y:
                    out.add(b)
        return out

    def value(ex, st, fr, nid, args, ff, T, strs):
        for a in args:
            for y in outer(a):
                r = refl(y[1]) if iscall(y) else None
                if r and r[2] in BITS and shortened(a, BITS[r[2]]):
                    ex.report(st, fr, nid, "the value of a field is shortened")
        if T == "String":
            used = [a for a in args if any(iscall(y) and short(y[1]) in ("c_str", "data") for y in subterms(a))]
            if used:
                c = enc(used[0], strs)
                if ("bytes", True) in ff and "encoded" not in c:
                    ex.report(st, fr, nid, "the bytes of a field are written without encoding them")
                if ("bytes", False) in ff and "encoded" in c:
                    ex.report(st, fr, nid, "text is encoded that will not be decoded")
                if not any(a == "bytes" for a, b in ff):
                    ex.report(st, fr, nid, "the bytes of a field are written without looking whether they need encoding")
                if not any(iscall(y) and short(y[1]) in ("size", "length") for a in args for y in subterms(a)):
                    ex.report(st, fr, nid, "a string ends at its first zero byte")

    names = ["cpp_type", "is_repeated", "is_optional", "HasField", "FieldSize", "PushBack", "AddMember", "b64_encode"]
    names += [v + t for v in ("Get", "GetRepeated") for t in WORD]
    automaton(R, P, f, "W03.write", f.name, S0, step, calls_named(*names), boundary=[f.name, "b64_encode"], ident=f.key)
    miss = [T for T in WORD if not {(T, True), (T, False)} <= done]
    R.decide("W03.write", "%s: all types" % f.name, not miss, where(f), "a field of type %s is never written" % ", ".join(miss))


def parsing(R, P):
    """a document with a syntax error is not used"""
    for f in P.fns.values():
        if not any(n["k"] in ("call", "mcall") and short(n.get("n") or "") == "Parse" and "rapidjson" in (n.get("n") or "") for n in f.nodes):
            continue

        def step(ex, st, fr, ev, s):
            k = ev[0]
            if k == "call" and short(ev[1]) in ("Parse", "ParseInsitu", "ParseStream") and "rapidjson" in ev[1]:
                return "open"
            u, utr = test_of(ev) if k == "branch" else (None, None)
            if k == "branch" and is_call(u, "HasParseError"):
                return "bad" if utr else "good"
            if k == "call" and ("jsonobject2pb" in ev[1] or "parse_json" in ev[1] or (GV in ev[1] and short(ev[1]) in NEED)) and s in ("open", "bad"):
                ex.report(st, fr, ev[4], "a document is used although it may not be valid JSON")
            if k == "ret" and fr.depth == 0 and s in ("bad", "open") and (const(ev[1]) == 0) != bool(f.ret.get("p")):
                ex.report(st, fr, ev[2], "a document that is not valid JSON is accepted")
            return s
        automaton(R, P, f, "W03.all", f.name, None, step, calls_named("Parse", "HasParseError", "jsonobject2pb"), boundary=["jsonobject2pb"], ident=f.key)
