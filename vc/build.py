"""Mechanical extraction: real source -> LLVM IR.  Nothing is dropped from the functions; the translation units in vc/tu include
the repository's own headers and .cpp files and only add extern "C" entry points that call them."""
import hashlib, os, re, subprocess, sys, glob

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get("VP_REPO", "/repo")
LIB = os.path.join(REPO, "cpp", "lib_moment")
BUILD = os.path.join(ROOT, "build")
CXX = ["clang++-18", "-std=c++20", "-include", "numeric", "-I" + LIB, "-I/usr/include/eigen3", "-fno-access-control", "-DNDEBUG",
       "-O1", "-Xclang", "-disable-llvm-passes", "-g0", "-w", "-fno-strict-aliasing", "-DVP_NO_VIRTUAL"]


class ExtractError(Exception):
    pass


def repo_hash():
    h = hashlib.sha256()
    for d, _, fs in sorted(os.walk(LIB)):
        for f in sorted(fs):
            if f.endswith((".h", ".cpp", ".hpp", ".txt", ".in")):
                p = os.path.join(d, f); h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:16]


def compile_tu(tu, noinline=(), defines=(), inline=True):
    """returns LLVM IR text of vc/tu/<tu>.cpp"""
    os.makedirs(os.path.join(BUILD, "ir"), exist_ok=True)
    src = os.path.join(HERE, "tu", tu + ".cpp")
    key = hashlib.sha256((repo_hash() + open(src).read() + repr(sorted(noinline)) + repr(defines) + repr(inline) + open(__file__).read()
                          + "".join(open(x).read() for x in sorted(glob.glob(os.path.join(HERE, "tu", "*.h"))))).encode()).hexdigest()[:20]
    out = os.path.join(BUILD, "ir", f"{tu}-{key}.ll")
    if os.path.exists(out): return open(out).read()
    raw = out + f".raw.{os.getpid()}"
    p = subprocess.run(CXX + ["-I" + os.path.join(HERE, "tu")] + list(defines) + ["-S", "-emit-llvm", "-o", raw, src], capture_output=True, text=True)
    if p.returncode: raise ExtractError("clang: " + p.stderr[:3000])
    txt = open(raw).read()
    if noinline:
        names = re.findall(r'^define [^@]*@("?[\w.$]+"?)\(', txt, re.M)
        names = [n.strip('"') for n in names]
        dem = demangle(names)
        rx = [re.compile(r) for r in noinline]
        sel = {n for n in names if any(r.search(dem[n]) for r in rx)}
        def mark(m):
            n = m.group(2).strip('"')
            if n not in sel: return m.group(0)
            rest = m.group(4); ua = re.match(r" (local_)?unnamed_addr", rest); ua = ua.group(0) if ua else ""
            return m.group(1) + "@" + m.group(2) + m.group(3) + ua + " noinline" + rest[len(ua):]
        txt = re.sub(r'^(define [^@]*)@("?[\w.$]+"?)(\(.*\))((?: [^()]*)? \{)$', mark, txt, flags=re.M)
        # 'alwaysinline'/'inlinehint' conflicts
        open(raw, "w").write(txt)
    passes = "function(sroa,early-cse,simplifycfg)" + (",cgscc(inline,function(sroa,early-cse,simplifycfg))" if inline else "") + \
             ",function(sroa,early-cse,instsimplify,simplifycfg,tailcallelim,simplifycfg)"
    tmp = out + f".{os.getpid()}"
    p = subprocess.run(["opt-18", "-S", "-passes=" + passes, "-inline-threshold=400", "-o", tmp, raw], capture_output=True, text=True)
    os.unlink(raw)
    if p.returncode: raise ExtractError("opt: " + p.stderr[:3000])
    os.replace(tmp, out)
    return open(out).read()


def demangle(names):
    if not names: return {}
    p = subprocess.run(["llvm-cxxfilt-18"], input="\n".join(names), capture_output=True, text=True)
    return dict(zip(names, p.stdout.split("\n")))
