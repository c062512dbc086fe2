#!/usr/bin/env python3
"""mut.py FILE [name...]: analysis-only mutation runs (nothing is built).
FILE holds MUTANTS = [dict(n=name, p=property or None for a refactoring, e=[(file, old, new)], x=regex expected in a violation)].
Mutants with the same "b" (batch, default 0) share one scratch tree.  Refactorings (p None) form one tree: every check must stay quiet."""
import importlib, os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, V + "/engine"]
import lib
from rules.registry import PROPS
import signal
os.environ.setdefault("VERIF_UNIT_CACHE", "/tmp/ucache")
os.makedirs(os.environ["VERIF_UNIT_CACHE"], exist_ok=True)


GAP = r"(?:\s|//[^\n]*\n|/\*(?:(?!\*/).)*\*/|#if defined\( LOG \)(?:(?!#if).)*?#endif[^\n]*\n)+"


def place(t, old):
    """Where the text stands; blank lines, comments and log blocks between its words do not matter."""
    if t.count(old) == 1:
        i = t.index(old)
        return [(i, i + len(old))]
    words = old.split()
    lead = re.match(r"\s*", old).group(0)
    tail = re.search(r"\s*$", old).group(0)
    pat = (r"(?<=\n)[ \t]*" if lead else "") + GAP.join(re.escape(w) for w in words) + (r"[ \t]*\n" if "\n" in tail else "")
    return [m.span() for m in re.finditer(pat, t, re.S)] if not t.count(old) else [0] * t.count(old)


def tree(ms, d):
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.check_call(["cp", "-a", "/repo/src", d + "/src"])
    for m in ms:
        for f, old, new in m["e"]:
            p = os.path.join(d, "src/sofa/pbrpc", f)
            t = open(p).read()
            at = place(t, old)
            if len(at) != 1:
                print("BAD MUTANT %s: %d matches in %s: %r" % (m["n"], len(at), f, old[:80]))
                m["skip"] = 1
                continue
            open(p, "w").write(t[:at[0][0]] + new + t[at[0][1]:])


def analyse(d, props):
    lib._prog = None
    P = lib.program(d)
    out, broken = [], []
    for pid in [x for x in props if not os.environ.get("ONLY") or x in os.environ["ONLY"].split(",")]:
        R = lib.Result(pid, "")
        for mod, fn in PROPS[pid][1]:
            try:
                getattr(importlib.import_module("rules." + mod), fn)(R, P)
            except Exception as e:
                broken.append("%s %s: %r" % (pid, fn, e))
        if len(R.obligations) < PROPS[pid][2]:
            broken.append("%s: only %d instances" % (pid, len(R.obligations)))
        known = [k for k in lib.load_known() if k["property"] == pid]
        for v in R.violations:
            if any(k["rule"] == v["rule"] and k["instance"] == v["instance"] and k.get("function", "") in v["msg"] for k in known):
                continue
            out.append((pid, "%s [%s] %s %s" % (v["rule"], v["instance"], v["where"], v["msg"])))
    return out, broken


def one(m):
    d = "/tmp/mut/one-%s" % m["n"]
    tree([m], d)
    try:
        if m.get("skip"):
            return "  BAD     %s" % m["n"]
        vs, broken = analyse(d, sorted(PROPS))
    except lib.Broken as e:
        return "  NOPARSE %s %s" % (m["n"], str(e)[-300:])
    finally:
        shutil.rmtree(d, ignore_errors=True)
    hit = [v for pid, v in vs if pid == m["p"]]
    other = [v for pid, v in vs if pid != m["p"]]
    own = [b for b in broken if b.startswith(m["p"])]
    return "  %-7s %s %s %s%s%s" % ("caught" if hit else "MISSED", m["p"], m["n"], hit[0][:150] if hit else "", "  BROKEN " + own[0] if own else "",
                                  "  (also %s)" % other[0][:90] if other and not hit else "")


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    ms = [m for m in ns["MUTANTS"] if len(sys.argv) < 3 or m["n"] in sys.argv[2:]]
    groups = {}
    single = [m for m in ms if m["p"] is not None and "x" not in m]
    ms = [m for m in ms if m not in single]
    if single:
        import multiprocessing
        with multiprocessing.Pool(4) as pool:
            for line in pool.imap(one, single):
                print(line, flush=True)
    for m in ms:
        groups.setdefault(("same", m.get("b", 0)) if m["p"] is None else ("bug", m.get("b", 0)), []).append(m)
    for (kind, b), g in sorted(groups.items(), key=str):
        d = "/tmp/mut/%s%s" % (kind, b)
        tree(g, d)
        props = sorted(PROPS) if kind == "same" else sorted(set(m["p"] for m in g if m["p"] in PROPS))
        try:
            vs, broken = analyse(d, props)
        except lib.Broken as e:
            print("TREE DOES NOT PARSE", e)
            continue
        print("== batch %s %s" % (kind, b))
        used = set()
        for x in broken:
            print("  BROKEN", x)
        if kind == "bug":
            for m in g:
                hit = [i for i, (pid, v) in enumerate(vs) if pid == m["p"] and re.search(m["x"], v)]
                used |= set(hit)
                print("  %-7s %s %s %s" % ("caught" if hit else "MISSED", m["p"], m["n"], vs[hit[0]][1][:150] if hit else ""))
            for i, (pid, v) in enumerate(vs):
                if i not in used:
                    print("  other  ", pid, v[:200])
        else:
            for pid, v in vs:
                print("  ALARM  ", pid, v[:260])
            print("  %d refactorings, %d alarms" % (len(g), len(vs)))
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    main()
