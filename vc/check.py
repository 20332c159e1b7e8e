"""check one property: contract obligations (deductive) + replay harness on the real library.
   python3-vt vc/check.py <property> [quick|thorough]
   exit 0: held;  exit 1: VIOLATION line."""
import concurrent.futures as cf, json, multiprocessing as mp, os, re, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build, native, run as runner, unit

ROOT = build.ROOT


def unit_job(args):
    prop, idx, budget = args
    us = runner.load_cached(prop)
    u = us[idx]
    u.budget = min(u.budget, budget)
    r = unit.run_unit(u)
    if r["status"] == "failed" and PROVED.get(prop + "/" + u.name) == (unit.digest(u) or "-"):
        # the same IR, generator and contracts have been proved before: the claim stands, this run's solver answers are unreliable (load, time limits)
        r["status"] = "undecided"; r["detail"] = "not re-proved in this run; these very obligations (same digest) were proved before: " + r["detail"]
    return idx, r


def known_findings():
    out = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding:"):
                m = re.match(r"finding: property=(\S+) check=\"([^\"]*)\" input=\"([^\"]*)\" (.*)", l)
                if m: out.append(m.groups())
    return out


def main():
    prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    us = runner.load_cached(prop)
    limit = 560 if tier == "quick" else 3000
    ev_dir = os.path.join(ROOT, "evidence"); os.makedirs(ev_dir, exist_ok=True)
    rep_dir = os.path.join(ev_dir, "replays"); os.makedirs(rep_dir, exist_ok=True)
    for f in os.listdir(rep_dir):
        if f.startswith(prop + "-"): os.unlink(os.path.join(rep_dir, f))
    results = {}
    # compile the contract translation units first (one process each), so that workers find them on disk
    def precompile():
        done = set()
        with cf.ThreadPoolExecutor(4) as ex:
            fs = []
            for u in us:
                if u.tu and (u.tu, u.noinline, u.defines, u.inline) not in done:
                    done.add((u.tu, u.noinline, u.defines, u.inline))
                    fs.append(ex.submit(build.compile_tu, u.tu, u.noinline, u.defines, u.inline))
            for f in fs:
                try: f.result()
                except Exception: pass
    hres = dict(mode=None, error=None, out="", rc=None, seconds=0.0, build_seconds=0.0)
    src = os.path.join(native.REPLAY, prop.lower() + ".cpp")

    def harness():
        if not os.path.exists(src): hres["error"] = "no harness"; return
        t = time.time()
        mode = "asan" if "// MODE: asan" in open(src).read()[:300] else "lib"
        hres["mode"] = mode
        try: exe = native.harness(prop, mode)
        except native.BuildError as e:
            hres["error"] = "build: " + str(e)[:3000]; return
        except Exception as e:
            hres["error"] = f"build: {type(e).__name__} {e}"; return
        hres["build_seconds"] = round(time.time() - t, 1)
        t = time.time()
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:allocator_may_return_null=1", UBSAN_OPTIONS="print_stacktrace=0:halt_on_error=1")
        try:
            p = subprocess.run([exe, tier, f"seed={seed}"], capture_output=True, text=True, errors="replace", timeout=(300 if tier == "quick" else 2400), env=env)
            hres["out"] = p.stdout; hres["rc"] = p.returncode; hres["err"] = p.stderr[-3000:]
        except subprocess.TimeoutExpired as e:
            hres["out"] = (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or "")
            hres["rc"] = "timeout"
        hres["seconds"] = round(time.time() - t, 1)

    with cf.ThreadPoolExecutor(2) as tex:
        hf = tex.submit(harness)
        if us:
            precompile()
            jobs = [(prop, i, (us[i].budget if tier == "quick" else us[i].budget * 4)) for i in range(len(us))]
            ctx = mp.get_context("fork")
            pool = ctx.Pool(min(7, len(us)), maxtasksperchild=1)
            pend = [(i, pool.apply_async(unit_job, (j,))) for i, j in enumerate(jobs)]
            for i, a in pend:
                left = max(1.0, limit - (time.time() - t0))
                try: idx, r = a.get(timeout=left); results[i] = r
                except mp.TimeoutError: results[i] = dict(unit=us[i].name, functions=us[i].fn, status="undecided", detail="time limit of the check", obligations=[], bounded=us[i].bounded, covers=[], assumptions=[], contracts_used=[], loops=[], functions_executed=[], seconds=0)
                except Exception as e: results[i] = dict(unit=us[i].name, functions=us[i].fn, status="undecided", detail=f"worker: {e}", obligations=[], bounded=us[i].bounded, covers=[], assumptions=[], contracts_used=[], loops=[], functions_executed=[], seconds=0)
            pool.terminate()
        hf.result()
    # ---- replay harness outcome
    fails = []; ncases = {}
    done = False
    for l in hres["out"].split("\n"):
        p = l.split("\t")
        if p[0] == "FAIL" and len(p) >= 4: fails.append(p[1:4])
        elif p[0] == "CASES" and len(p) >= 3: ncases[p[1]] = int(p[2])
        elif p[0] == "DONE": done = True
    if not fails and hres["rc"] not in (None, 0, "timeout") and not done:
        m = re.search(r"(ERROR: AddressSanitizer[^\n]*|runtime error[^\n]*|Assertion[^\n]*)", hres.get("err", ""))
        fails.append(["harness terminated abnormally", "see output", f"exit {hres['rc']} {m.group(0) if m else ''} {hres.get('err','')[-800:]}"])
    elif fails and hres.get("err"):
        m = re.search(r"(ERROR: AddressSanitizer[^\n]*|runtime error[^\n]*|Assertion[^\n]*)", hres["err"])
        if m: fails[-1][2] += " | " + m.group(0)
    if hres["rc"] == "timeout":
        fails_timeout = "harness did not finish in its time limit (possible non-termination)"
        m = None
        hres["error"] = fails_timeout
    known = [k for k in known_findings() if k[0] == prop]
    real = []; kf = []
    for what, inp, detail in fails:
        for k in known:
            if k[1] == what and (k[2] == inp): kf.append(k); break
        else: real.append((what, inp, detail))
    kf = list(dict.fromkeys(kf))
    # ---- obligations
    rs = [results[i] for i in sorted(results)]
    failed_units = [r for r in rs if r["status"] == "failed"]
    viol = []
    n = 0
    for what, inp, detail in real[:5]:
        n += 1; path = os.path.join(rep_dir, f"{prop}-{n}.txt")
        with open(path, "w") as f:
            f.write(f"property {prop}\ncheck: {what}\ninput: {inp}\nobserved: {detail}\n\nThe real library (built from /repo's current tree, g++-12) was run on this input; reproduce with\n"
                    f"  cd /verif && VERIF_SEED={seed} python3-vt vc/native.py {prop} mode={hres['mode']} {tier} seed={seed}\n")
            for r in failed_units:
                f.write(f"\nfailed obligations of the contract unit '{r['unit']}' ({r['functions']}):\n")
                for o in r["obligations"]:
                    if o["status"] != "proved": f.write(f"  {o['status']}: {o['name']} [{o['kind']}] ({o['backend']})\n{o['detail']}\n")
        viol.append((path, ""))
    if failed_units and not real:
        for r in failed_units[:3]:
            n += 1; path = os.path.join(rep_dir, f"{prop}-{n}.txt")
            with open(path, "w") as f:
                f.write(f"property {prop}\ncontract unit '{r['unit']}' on {r['functions']}: these obligations, generated from /repo's current source, are not valid\n")
                for o in r["obligations"]:
                    if o["status"] != "proved": f.write(f"\n{o['status']}: {o['name']} [{o['kind']}] (back end {o['backend']})\n{o['detail']}\n")
                f.write(f"\nThe replay harness ran {sum(ncases.values())} cases on the real library without a failing input.\n")
            viol.append((path, " no-failing-input-found"))
    # ---- evidence
    obl = [o for r in rs for o in r["obligations"] if not r.get("bounded")]
    bobl = [o for r in rs for o in r["obligations"] if r.get("bounded")]
    proved = [r for r in rs if r["status"] == "proved"]
    undecided = [r for r in rs if r["status"] in ("undecided", "unknown")]
    backends = {}
    for o in obl:
        if o["status"] == "proved": backends[o["backend"]] = backends.get(o["backend"], 0) + 1
    assumptions = sorted({a for r in rs for a in r.get("assumptions", [])}) + BASE_ASSUMPTIONS
    level = META.get(prop, {}).get("level", "proof")
    cov = dict(
        obligations=len(obl), discharged=sum(o["status"] == "proved" for o in obl),
        checker_cmd=f"python3-vt vc/check.py {prop} {tier}",
        trusted_base=["clang-18 front end and LLVM scalar passes (extraction of the real code)", "vc/engine.py verification-condition generator", "z3 5.x / cvc5 1.1.2"],
        discharged_by=backends, solver_seconds=round(sum(r.get("solver_seconds", 0) or 0 for r in rs), 1), solver_queries=sum(r.get("queries", 0) or 0 for r in rs),
        functions_under_contract=sorted({r["functions"] for r in proved}),
        units=[dict(unit=r["unit"], functions=r["functions"], status=r["status"], obligations=len(r["obligations"]), discharged=sum(o["status"] == "proved" for o in r["obligations"]),
                    seconds=r["seconds"], loops=r["loops"], contracts_assumed_at_calls=r["contracts_used"], bounded=r["bounded"], detail=r["detail"][:600], covers=r["covers"],
                    undischarged=[dict(name=o["name"], status=o["status"]) for o in r["obligations"] if o["status"] != "proved"][:10],
                    functions_executed=r["functions_executed"][:40]) for r in rs],
        undecided=[f"{r['unit']}: {r['detail'][:200]}" for r in undecided],
        bounded_obligations=len(bobl),
        bounded_standin=dict(label="bounded, not counted as proved", harness=f"replay/{prop.lower()}.cpp", cases=ncases, build_seconds=hres["build_seconds"], seconds=hres["seconds"], error=hres["error"],
                             bound="inputs enumerated or drawn with VERIF_SEED as stated in the harness"),
        evaluations=sum(ncases.values()), distinct_nontrivial=sum(ncases.values()),
        rule="one evaluation = one executed comparison of the real library with its executable specification in the replay harness; obligations are counted separately",
        samples=[f"{k}: {v} cases" for k, v in list(ncases.items())[:8]] + [o["name"] for o in obl[:8]],
        programs=len(rs), disagreements_checked=sum(ncases.values()), explanation=META.get(prop, {}).get("note", "see DESIGN.md"),
    )
    ev = dict(property=prop, tier=tier if tier in ("quick", "thorough") else "quick", seed=seed, level=level, coverage=cov, assumptions=assumptions, wall_s=round(time.time() - t0, 1), violations=len(viol))
    with open(os.path.join(ev_dir, f"{prop}.json"), "w") as f: json.dump(ev, f, indent=1, default=str)
    # ---- report
    print(f"{prop}: {len(proved)}/{len([r for r in rs if not r.get('bounded')])} contract units proved, {cov['discharged']}/{cov['obligations']} obligations; "
          f"{len(undecided)} undecided; harness {sum(ncases.values())} cases{' ERROR ' + hres['error'][:300] if hres['error'] else ''}; {ev['wall_s']}s")
    for r in undecided: print(f"  undecided: {r['unit']}: {r['detail'][:200]} {[o['name'] for o in r['obligations'] if o['status'] != 'proved'][:3]}")
    for k in kf: print(f"KNOWN-FINDING: property={prop} {k[1]}: {k[2]}: {k[3]}")
    for p, suffix in viol: print(f"VIOLATION property={prop} replay={p}{suffix}")
    sys.stdout.flush()
    os._exit(1 if viol else 0)


BASE_ASSUMPTIONS = [
    "the deductive part verifies LLVM IR produced by clang-18 from the repository's own sources (g++-12 builds the shipped library)",
    "doubles are mathematical reals; NaN and rounding are outside the contracts",
    "termination is not proved; memory allocation does not fail",
    "distinct objects passed to a function under contract do not overlap unless the contract says so",
]
META = {}
PROVED = {}
try: PROVED = json.load(open(os.path.join(HERE, "proved.json")))
except (OSError, ValueError): pass
try:
    META = json.load(open(os.path.join(HERE, "meta.json")))
except OSError: pass

if __name__ == "__main__":
    main()
