"""builds the real library and the replay harnesses from /repo's current tree (g++-12), outside /repo"""
import glob, hashlib, os, subprocess, sys, concurrent.futures as cf, shutil, time
import build
REPLAY = os.path.join(build.ROOT, "replay")
FLAGS = ["-std=c++20", "-w", "-include", "numeric", "-I" + build.LIB, "-I/usr/include/eigen3", "-I" + REPLAY, "-DNDEBUG",
         f'-DEIGEN_SPARSEMATRIX_PLUGIN="{REPLAY}/eigen_shim.h"', "-D_GLIBCXX_ASSERTIONS"]
MODES = {"lib": ["-O1"], "asan": ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-sanitize=vptr"]}


class BuildError(Exception):
    pass


def sources():
    out = []
    for d, _, fs in sorted(os.walk(build.LIB)):
        out += [os.path.join(d, f) for f in sorted(fs) if f.endswith(".cpp")]
    return out


def dep_hash(path):
    """hash of a file's dependencies as listed in its .d file"""
    h = hashlib.sha256()
    for p in path:
        try: h.update(open(p, "rb").read())
        except OSError: h.update(b"?")
    return h.hexdigest()


def compile_one(src, obj, flags, extra=()):
    d = obj + ".d"; stamp = obj + ".h"
    base = " ".join(flags) + " ".join(extra)
    if os.path.exists(obj) and os.path.exists(stamp) and os.path.exists(d):
        deps = open(d).read().replace("\\\n", " ").split(":", 1)[1].split()
        deps = [x for x in deps if not x.startswith("/usr")]
        if open(stamp).read() == base + dep_hash(deps): return None
    p = subprocess.run(["g++-12"] + flags + list(extra) + ["-MMD", "-MF", d, "-c", src, "-o", obj], capture_output=True, text=True)
    if p.returncode:
        return f"{src}: {p.stderr[:1500]}"
    deps = open(d).read().replace("\\\n", " ").split(":", 1)[1].split()
    deps = [x for x in deps if not x.startswith("/usr")]
    open(stamp, "w").write(base + dep_hash(deps))
    return None


def harness(prop, mode="lib", jobs=8):
    """build replay/<prop>.cpp with the library (or the listed part of it); returns path of the executable"""
    try: return _harness(prop, mode, jobs, False)
    except BuildError as e:
        if not getattr(e, "partial", False): raise
        return _harness(prop, mode, jobs, True)


def _harness(prop, mode, jobs, everything):
    out = os.path.join(build.BUILD, mode + hashlib.sha256(build.REPO.encode()).hexdigest()[:6]); os.makedirs(out, exist_ok=True)
    flags = FLAGS + MODES[mode]
    src = os.path.join(REPLAY, prop.lower() + ".cpp")
    first = open(src).read().split("\n", 3)[:3]
    only = None
    for l in first:
        if l.startswith("// SOURCES:"): only = sorted({y for x in l[len("// SOURCES:"):].split() for y in glob.glob(os.path.join(build.LIB, x))})
    if everything: only = None
    todo = [(s, os.path.join(out, hashlib.sha256(s.encode()).hexdigest()[:10] + "-" + os.path.basename(s) + ".o")) for s in (sources() if only is None else only)]
    hobj = os.path.join(out, prop.lower() + ".o")
    errs = []
    with cf.ThreadPoolExecutor(jobs) as ex:
        fs = [ex.submit(compile_one, src, hobj, flags, ("-fno-access-control",))] + [ex.submit(compile_one, s, o, flags) for s, o in todo]
        for f in fs:
            e = f.result()
            if e: errs.append(e)
    if errs: raise BuildError("\n".join(errs))
    if not todo:
        objs = [hobj]
    else:
        ar = os.path.join(out, f"lib-{prop.lower()}.a")
        if os.path.exists(ar): os.unlink(ar)
        subprocess.run(["ar", "rcs", ar] + [o for _, o in todo], check=True)
        objs = [hobj, ar]
    exe = os.path.join(out, prop.lower())
    p = subprocess.run(["g++-12"] + MODES[mode] + objs + ["-lpthread", "-o", exe], capture_output=True, text=True)
    if p.returncode:
        e = BuildError("link: " + p.stderr[:2000]); e.partial = only is not None
        raise e
    return exe


if __name__ == "__main__":
    t = time.time()
    mode = next((a[5:] for a in sys.argv if a.startswith("mode=")), "lib")
    try: exe = harness(sys.argv[1], mode)
    except BuildError as e: print(e); sys.exit(2)
    print("built", exe, round(time.time() - t, 1), "s", flush=True)
    if "build" not in sys.argv: sys.exit(subprocess.run([exe] + [a for a in sys.argv[2:] if not a.startswith("mode=")]).returncode)
