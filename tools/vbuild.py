"""Builds a harness binary from /repo's current working tree (and /verif/harness), without touching /repo.

Every object is cached by the content of everything it includes, so repeated local runs are fast, while a cold
copy builds everything from scratch in well under a minute.
"""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
DCG = "/opt/vp/dcg-venv/bin/dcg.py"

SAN = ["-fsanitize=address,undefined", "-fno-sanitize=vptr,alignment,nonnull-attribute,null,builtin", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
CXX = "g++"
BASE_FLAGS = ["-std=gnu++20", "-g0", "-fno-pie", "-w", "-pipe"] + [
    "-DNDEBUG", "-DBOOST_ASIO_SEPARATE_COMPILATION", "-DHAS_UNCAUGHT_EXCEPTIONS", "-DBOOST_ERROR_CODE_HEADER_ONLY",
    "-DBOOST_SYSTEM_NO_DEPRECATED", "-DHAS_STRING_VIEW=1", "-DONLY_C_LOCALE=1", "-DUSE_OS_TZDB=1"]


class BuildError(Exception):
    pass


def sh(cmd, cwd=None, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
    return p.returncode, p.stdout


def fhash(path, memo={}):
    try:
        st = os.stat(path)
    except OSError:
        return "missing"
    k = (path, st.st_mtime_ns, st.st_size)
    if k not in memo:
        with open(path, "rb") as f:
            memo[k] = hashlib.sha1(f.read()).hexdigest()
    return memo[k]


def gen_models(outdir, models):
    """Runs the repository's code generator on the models (each into outdir)."""
    os.makedirs(outdir, exist_ok=True)
    tmpl = os.path.join(REPO, "dots-cg-cpp/src")
    key = hashlib.sha1(json.dumps([[m, fhash(m)] for m in models] + [[f, fhash(f)] for f in sorted(glob.glob(tmpl + "/*")) if os.path.isfile(f)]).encode()).hexdigest()
    stamp = os.path.join(outdir, ".stamp")
    if os.path.exists(stamp) and open(stamp).read() == key:
        return
    for f in glob.glob(outdir + "/*.dots.h"):
        os.unlink(f)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")

    def one(m):
        p = subprocess.run([DCG, "--config=" + tmpl + "/config_cpp.py", "--templatePath=" + tmpl, m], cwd=outdir, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise BuildError("code generator failed on %s:\n%s" % (m, p.stdout[-2000:]))
    with cf.ThreadPoolExecutor(8) as ex:
        list(ex.map(one, models))
    with open(stamp, "w") as f:
        f.write(key)


def compile_obj(src, obj, flags):
    """Compiles src to obj unless the cached object is up to date by content."""
    key = hashlib.sha1(json.dumps([flags, src, fhash(src)]).encode()).hexdigest()
    info = obj + ".json"
    if os.path.exists(obj) and os.path.exists(info):
        try:
            d = json.load(open(info))
            if d["key"] == key and all(fhash(p) == h for p, h in d["deps"]):
                return
        except Exception:
            pass
    dep = obj + ".d"
    rc, out = sh([CXX] + flags + ["-MMD", "-MF", dep, "-c", src, "-o", obj])
    if rc != 0:
        raise BuildError("compilation of %s failed:\n%s" % (src, "\n".join([l for l in out.splitlines() if "error" in l or "Error" in l][:30]) or out[-3000:]))
    with open(dep) as f:
        words = f.read().replace("\\\n", " ").split(":", 1)[1].split()
    deps = [[w, fhash(w)] for w in words if not w.startswith("/usr/")]
    with open(info, "w") as f:
        json.dump({"key": key, "deps": deps}, f)


HEAVY = ["Chrono.cpp", "Registry.cpp", "StructDescriptor.cpp", "HostTransceiver.cpp", "GuestTransceiver.cpp", "Connection.cpp"]


def lib_sources(parts):
    src = os.path.join(REPO, "lib/src")
    all_ = sorted(glob.glob(src + "/**/*.cpp", recursive=True))
    rel = [os.path.relpath(p, src) for p in all_]
    out = []
    for r in rel:
        d = r.split("/")[0] if "/" in r else ""
        chan = any(r.startswith("io/channels/" + c) for c in ("Tcp", "Uds", "WebSocket"))
        if r == "Application.cpp":
            part = "app"
        elif chan:
            part = "ws" if "WebSocket" in r else "net"
        elif d in ("type", "tools", "serialization"):
            part = "type"
        else:
            part = "core"
        if part in parts or ("Uds" in r and "uds" in parts):
            out.append(r)
    return out


def chunks_of(rels):
    """Unity chunks, balanced by hand: the heavy files apart, the rest grouped."""
    weights = {"Chrono.cpp": 9, "Registry.cpp": 8, "StructDescriptor.cpp": 4, "HostTransceiver.cpp": 9, "GuestTransceiver.cpp": 9,
               "Connection.cpp": 7, "Channel.cpp": 6, "DescriptorConverter.cpp": 5, "Timer.cpp": 5, "dots.cpp": 5, "LegacyAuthManager.cpp": 5,
               "FdObserver.cpp": 5, "IpNetwork.cpp": 4, "Transceiver.cpp": 4, "Dispatcher.cpp": 4, "Container.cpp": 4}
    special = [r for r in rels if os.path.basename(r).startswith(("WebSocket", "Tcp", "Uds", "Application", "Timer"))]
    groups = {}
    for r in special:
        groups.setdefault(os.path.basename(r).split("Channel")[0].split("Listener")[0], []).append(r)
    out = list(groups.values())
    rest = [r for r in rels if r not in special]
    n = 3 if all(lib.split("/")[0] in ("type", "tools", "serialization") for lib in rest) else 6
    bins = [[0, []] for _ in range(n)]
    for r in sorted(rest, key=lambda r: (-weights.get(os.path.basename(r), 1.5), r)):
        b = min(bins, key=lambda b: (b[0] + (0 if not b[1] else 0)))
        b[0] += weights.get(os.path.basename(r), 1.5)
        b[1].append(r)
    out += [b[1] for b in bins if b[1]]
    return out


def build(name, harness_sources, parts=("type", "core"), models=(), defines=(), opt="-O1", san=True, extra_sources=(), global_transceiver=False, extra_includes=(), harness_parts=1):
    """Builds BUILD/<name>/<name>; returns its path."""
    out = os.path.join(BUILD, name)
    os.makedirs(out, exist_ok=True)
    gen = os.path.join(out, "gen")
    lm = sorted(glob.glob(os.path.join(REPO, "external/dots/model/*.dots"))) + sorted(glob.glob(os.path.join(REPO, "lib/src/model/*.dots")))
    gen_models(gen, lm)
    gen2 = os.path.join(out, "gen2")
    mm = [m if m.startswith("/") else os.path.join(VERIF, "models", m) for m in models]
    os.makedirs(gen2, exist_ok=True)
    if mm:
        gen_models(gen2, mm)
    flags = list(BASE_FLAGS) + [opt] + (SAN if san else []) + ["-I" + os.path.join(REPO, "lib/include"), "-I" + gen, "-I" + os.path.join(VERIF, "shim"),
                                                                "-isystem", "/opt/vp/cmake/include", "-isystem", REPO + "/external"]
    libflags = flags + ["-DDOTS_NO_GLOBAL_TRANSCEIVER"]
    hflags = flags + ([] if global_transceiver else ["-DDOTS_NO_GLOBAL_TRANSCEIVER"]) + ["-I" + gen2, "-I" + os.path.join(VERIF, "harness")] + ["-I" + (i if i.startswith("/") else os.path.join(REPO, i)) for i in extra_includes] + list(defines)
    jobs = []  # (src, obj, flags, fallback)
    for hs in list(harness_sources):
        src = hs if hs.startswith("/") else os.path.join(VERIF, "harness", hs)
        for k in range(harness_parts):  # a big harness is compiled in parts, each with some of its scenarios
            jobs.append((src, os.path.join(out, "h_%s.%d.o" % (os.path.basename(src), k)), hflags + (["-DPART=%d" % k] if harness_parts > 1 else []), None))
    for es in extra_sources:
        es = es if es.startswith("/") else os.path.join(REPO, es)
        jobs.append((es, os.path.join(out, "x_" + os.path.basename(es) + ".o"), hflags, None))
    for p in parts:
        if p == "core":
            asrc = os.path.join(VERIF, "harness", "asio_impl.cpp")
            jobs.append((asrc, os.path.join(out, "asio_impl.o"), libflags, None))
    rels = lib_sources(parts)
    for i, ch in enumerate(chunks_of(rels)):
        u = os.path.join(out, "u%d_%s.cpp" % (i, hashlib.sha1("|".join(ch).encode()).hexdigest()[:8]))
        text = "".join('#include "%s"\n' % os.path.join(REPO, "lib/src", r) for r in ch)
        if not os.path.exists(u) or open(u).read() != text:
            with open(u, "w") as f:
                f.write(text)
        jobs.append((u, u + ".o", libflags, ch))

    objs = []

    def one(job):
        src, obj, fl, fallback = job
        try:
            compile_obj(src, obj, fl)
            return [obj]
        except BuildError:
            if not fallback or len(fallback) == 1:
                raise
        res = []
        for r in fallback:  # the chunk does not compile as one unit: compile its files apart
            o = os.path.join(out, "s_" + r.replace("/", "_") + ".o")
            compile_obj(os.path.join(REPO, "lib/src", r), o, fl)
            res.append(o)
        return res
    with cf.ThreadPoolExecutor(10) as ex:
        for r in ex.map(one, jobs):
            objs += r
    exe = os.path.join(out, name)
    lk = hashlib.sha1(json.dumps([[o, fhash(o)] for o in objs]).encode()).hexdigest()
    if os.path.exists(exe) and os.path.exists(exe + ".key") and open(exe + ".key").read() == lk:
        return exe
    libs = ["-ldate-tz", "-lfmt", "-lpthread"] + (["-lboost_program_options"] if "app" in parts else [])
    # the host's convenience functions name every listener; a harness that has none of them never calls those functions
    partial = ["-no-pie"] if "net" in parts and "ws" in parts else ["-no-pie", "-Wl,-z,lazy", "-Wl,--unresolved-symbols=ignore-all"]
    rc, o = sh([CXX] + (SAN if san else []) + partial + objs + ["-o", exe] + libs)
    if rc != 0:
        raise BuildError("link failed:\n" + o[-3000:])
    with open(exe + ".key", "w") as f:
        f.write(lk)
    return exe
