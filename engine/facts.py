"""Build the fact base: compile the extractor, run it over every library unit
of /repo's current working tree and merge the per-unit results.

Everything is produced below /verif/build (ignored by git) and is keyed by the
content of the sources, so a changed tree is always re-extracted."""
import hashlib, json, os, pickle, shutil, subprocess, sys, tempfile, fcntl
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
BUILD = os.path.join(VERIF, "build")
PROTOC = "/opt/vp/prefix/bin/protoc"
PROTOS = ["rpc_meta", "rpc_option", "builtin_service"]


class Broken(Exception):
    """The analysis itself could not be carried out (never a violation)."""


def _sha(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()[:24]


def _extractor():
    src = os.path.join(HERE, "extract.cc")
    out = os.path.join(BUILD, "extract-" + _sha([src]))
    if os.path.exists(out):
        return out
    cmd = ["clang++-18" if shutil.which("clang++-18") else "clang++", "-O0", "-fno-rtti",
           "-I/usr/lib/llvm-18/include", "-std=c++17", "-D_GNU_SOURCE",
           "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS",
           src, "-o", out + ".tmp%d" % os.getpid(),
           "/usr/lib/llvm-18/lib/libclang-cpp.so.18.1",
           "/usr/lib/llvm-18/lib/libLLVM-18.so"]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        raise Broken("extractor does not build:\n" + r.stdout.decode("utf8", "replace")[-3000:])
    os.rename(out + ".tmp%d" % os.getpid(), out)
    return out


def source_files(repo):
    base = os.path.join(repo, "src")
    res = []
    for d, dirs, files in os.walk(base):
        for f in files:
            if f.endswith((".h", ".cc", ".hpp", ".proto", ".c")) and ".pb." not in f:
                res.append(os.path.join(d, f))
    return res


def units(repo):
    d = os.path.join(repo, "src", "sofa", "pbrpc")
    return sorted(os.path.join(d, f) for f in os.listdir(d)
                  if f.endswith(".cc") and not f.endswith(".pb.cc")
                  and f != "boost_system_error_code.cc")


def _extract(exe, repo, gen, unit, out):
    flags = ["-DSOFA_PBRPC_ENABLE_DETAILED_LOGGING", "-include", "/opt/vp/compat.h", "-w",
             "-O2", "-fPIC", "-D_GNU_SOURCE", "-D__STDC_LIMIT_MACROS", "-DHAVE_SNAPPY",
             "-std=gnu++17", "-Wno-register", "-I" + gen, "-I" + os.path.join(repo, "src"),
             "-I/usr/include", "-I/opt/vp/prefix/include",
             "-resource-dir", "/usr/lib/llvm-18/lib/clang/18", "-ferror-limit=5"]
    # mutation runs (tools/mut.py) keep the results of units they do not touch
    cache = os.environ.get("VERIF_UNIT_CACHE")
    if cache:
        h = hashlib.sha256(exe.encode())
        dep = unit[:-3] + ".d"
        deps = None
        if os.path.exists(dep):
            with open(dep) as f:
                deps = set(os.path.basename(w) for w in f.read().replace("\\", " ").split() if "sofa/pbrpc/" in w)
        for p in sorted([x for x in source_files(repo) if not x.endswith(".cc")
                         and (deps is None or os.path.basename(x) in deps or x.endswith(".proto"))] + [unit]):
            h.update(os.path.relpath(p, repo).encode() + b"\0")
            with open(p, "rb") as f:
                h.update(f.read())
        cache = os.path.join(cache, h.hexdigest()[:32] + ".json")
        if os.path.exists(cache):
            with open(cache) as f:
                return unit, json.load(f)
    r = subprocess.run([exe, repo, out, unit, "--"] + flags,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0 or not os.path.exists(out):
        return unit, r.stdout.decode("utf8", "replace")[-2000:]
    if cache:
        shutil.copy(out, cache + ".tmp%d" % os.getpid())
        os.rename(cache + ".tmp%d" % os.getpid(), cache)
    with open(out) as f:
        return unit, json.load(f)


def load(repo="/repo"):
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        exe = _extractor()
        srcs = source_files(repo)
        if not srcs:
            raise Broken("no sources below " + repo)
        key = _sha(srcs + [os.path.join(HERE, "extract.cc"), os.path.join(HERE, "facts.py")])
        pk = os.path.join(BUILD, "facts-%s.pickle" % key)
        if os.path.exists(pk):
            with open(pk, "rb") as f:
                return pickle.load(f)
        gen = tempfile.mkdtemp(prefix="gen-", dir=BUILD)
        try:
            od = os.path.join(gen, "sofa", "pbrpc")
            os.makedirs(od)
            for p in PROTOS:
                r = subprocess.run([PROTOC, "--cpp_out=" + gen,
                                    "-I" + os.path.join(repo, "src"),
                                    "-I/opt/vp/prefix/include", "-I/usr/include",
                                    os.path.join(repo, "src", "sofa", "pbrpc", p + ".proto")],
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                if r.returncode != 0:
                    raise Broken("protoc failed on %s: %s" % (p, r.stdout.decode()))
            us = units(repo)
            jobs = []
            with ThreadPoolExecutor(8) as ex:
                for i, u in enumerate(us):
                    jobs.append(ex.submit(_extract, exe, repo, gen, u,
                                          os.path.join(gen, "u%d.json" % i)))
                res = [j.result() for j in jobs]
        finally:
            shutil.rmtree(gen, ignore_errors=True)
        fns, classes, enums = {}, {}, {}
        for u, d in res:
            if isinstance(d, str):
                raise Broken("unit %s does not parse:\n%s" % (u, d))
            ty = d["types"]
            for f in d["functions"]:
                if f["key"] in fns:
                    continue
                f["types"] = ty
                f["unit"] = os.path.relpath(u, repo)
                fns[f["key"]] = f
            for c in d["classes"]:
                if c["name"] not in classes:
                    for x in c["fields"]:
                        x["t"] = ty[x["t"]]
                    classes[c["name"]] = c
            for e in d["enums"]:
                enums.setdefault(e["name"], e["v"])
        facts = {"functions": fns, "classes": classes, "enums": enums,
                 "units": [os.path.relpath(u, repo) for u in us], "key": key, "repo": repo}
        for old in os.listdir(BUILD):
            if old.startswith("facts-") and old.endswith(".pickle"):
                try:
                    if len([x for x in os.listdir(BUILD) if x.startswith("facts-")]) > 6:
                        os.unlink(os.path.join(BUILD, old))
                except OSError:
                    pass
        tmp = pk + ".tmp%d" % os.getpid()
        with open(tmp, "wb") as f:
            pickle.dump(facts, f, protocol=4)
        os.rename(tmp, pk)
        return facts
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)


if __name__ == "__main__":
    import time
    t = time.time()
    try:
        F = load(sys.argv[1] if len(sys.argv) > 1 else "/repo")
    except Broken as e:
        print(e)
        sys.exit(2)
    print("units %d functions %d classes %d enums %d  %.1fs" % (
        len(F["units"]), len(F["functions"]), len(F["classes"]), len(F["enums"]), time.time() - t))
