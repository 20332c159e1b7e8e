#!/usr/bin/env python3
"""python3 tools/seed.py ID            validate /verif/seeded/ID against /repo (applies, builds, tests pass, demo 0 -> nonzero), then undo
   python3 tools/seed.py ID check       run the check of its property against it
   python3 tools/seed.py new SPEC.py    make seeds from a spec: SEEDS = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo=c++ body)]"""
import json, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); REPO = "/repo"
DEMO_SH = '''#!/bin/bash
# exit 0: behaves as stated; nonzero: the property is broken.  cwd: the repository, built
here="$(cd "$(dirname "$0")" && pwd)"; tmp="$(mktemp -d)"; trap 'rm -rf "$tmp"' EXIT
g++-12 -std=c++20 -w -O1 -include numeric -I cpp/lib_moment -I /usr/include/eigen3 "$here/demo.cpp" _build/lib_moment.a -Wl,--unresolved-symbols=ignore-all -lpthread -o "$tmp/demo" || exit 2
timeout 60 "$tmp/demo"
'''
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def clean():
    return sh(f"git -C {REPO} status --porcelain").stdout.strip() == ""
def validate(i):
    d = os.path.join(ROOT, "seeded", i); assert clean(), "/repo is dirty"
    stable = set(json.load(open("/opt/vp/BASELINE.json")).get("passed", [])) or None
    sh("bash /opt/vp/build.sh")
    r = sh(f"bash {d}/demo.sh", cwd=REPO)
    if r.returncode: return f"demo fails on the unchanged tree: {r.stdout[-500:]} {r.stderr[-800:]}"
    try:
        a = sh(f"git -C {REPO} apply {d}/patch.diff")
        if a.returncode: return "patch does not apply: " + a.stderr
        b = sh("bash /opt/vp/test.sh /tmp/seed_out.json")
        res = json.load(open("/tmp/seed_out.json"))
        if res["failed"] or len(res["passed"]) < 683: return f"tests: {len(res['passed'])} passed, failed {res['failed'][:5]} {b.stdout[-1500:] if not res['passed'] else ''}"
        r = sh(f"bash {d}/demo.sh", cwd=REPO)
        if r.returncode == 0: return "demo passes with the patch"
        if r.returncode == 2: return "demo does not compile with the patch"
        return f"ok (demo exit {r.returncode}: {r.stdout.strip()[-200:]})"
    finally:
        sh(f"git -C {REPO} checkout -- ."); sh("bash /opt/vp/build.sh")
def check(i, tier="quick"):
    d = os.path.join(ROOT, "seeded", i); assert clean(), "/repo is dirty"
    prop = json.load(open(d + "/meta.json"))["property"]
    try:
        a = sh(f"git -C {REPO} apply {d}/patch.diff"); assert a.returncode == 0, a.stderr
        r = sh(f"python3-vt vc/check.py {prop} {tier}", cwd=ROOT, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER=tier))
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        return f"exit {r.returncode} {v} " + ("" if v else r.stdout[-600:] + r.stderr[-600:])
    finally: sh(f"git -C {REPO} checkout -- .")
def new(spec):
    ns = {}; exec(open(spec).read(), ns)
    for s in ns["SEEDS"]:
        d = os.path.join(ROOT, "seeded", s["id"]); os.makedirs(d, exist_ok=True); assert clean(), "/repo is dirty"
        try:
            for f, old, neu in s["edits"]:
                p = f"{REPO}/cpp/lib_moment/{f}"; t = open(p).read(); assert t.count(old) == 1, (s["id"], f, t.count(old)); open(p, "w").write(t.replace(old, neu))
            open(d + "/patch.diff", "w").write(sh(f"git -C {REPO} diff").stdout)
        finally: sh(f"git -C {REPO} checkout -- .")
        open(d + "/demo.cpp", "w").write(s["demo"]); open(d + "/demo.sh", "w").write(DEMO_SH); os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        r = validate(s["id"]); print(s["id"], r, flush=True)
        if r.startswith("ok"): print("   check:", check(s["id"]), flush=True)
def isolate():
    """re-run inside a private mount namespace, where /repo and /verif/build are copies: the real ones are never touched"""
    if os.environ.get("SEED_ISOLATED"): return
    tmp = subprocess.run(["mktemp", "-d", "/tmp/seedXXXXXX"], capture_output=True, text=True).stdout.strip()
    cmd = (f"cp -a /repo {tmp}/repo && mkdir -p {tmp}/build {tmp}/ev && cp -a {ROOT}/build/. {tmp}/build/ && mount --bind {tmp}/repo /repo && "
           f"mount --bind {tmp}/build {ROOT}/build && mount --bind {tmp}/ev {ROOT}/evidence && SEED_ISOLATED=1 python3 {' '.join(os.path.abspath(x) if x.endswith('.py') else x for x in sys.argv)}")
    rc = subprocess.run(["unshare", "-Urm", "bash", "-c", cmd], cwd=ROOT).returncode
    subprocess.run(["rm", "-rf", tmp]); sys.exit(rc)
if __name__ == "__main__":
    isolate()
    if sys.argv[1] == "new": new(sys.argv[2])
    elif sys.argv[-1] == "check": print(check(sys.argv[1]))
    else: print(validate(sys.argv[1]))
