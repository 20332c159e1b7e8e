"""development: run the contract units of the given properties (default: all) in a pool; prints those not proved.
   --record: note in vc/proved.json the digest of the verification input (IR of the unit, generator, contracts) of each unit proved here.
   vc/check.py only reads that file, and only to call a failure on *identical* input a solver flake."""
import multiprocessing as mp, os, sys, json, re, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "vc"))
import run, unit

def job(a):
    p, i = a
    u = run.load_cached(p)[i]
    r = unit.run_unit(u)
    return p, u.name, u.bounded, unit.digest(u), r

if __name__ == "__main__":
    ps = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted({m[:3].upper() for m in os.listdir(os.path.join(ROOT, "vc/contracts")) if re.match(r"c\d\d\.py", m)})
    jobs = [(p, i) for p in ps for i in range(len(run.load_cached(p)))]
    path = os.path.join(ROOT, "vc", "proved.json")
    rec = json.load(open(path)) if os.path.exists(path) else {}
    n = {p: 0 for p in ps}; t0 = time.time()
    with mp.get_context("fork").Pool(8, maxtasksperchild=1) as pool:
        for p, name, b, d, r in pool.imap_unordered(job, jobs):
            if r["status"] in ("proved", "bounded"): n[p] += 1; rec[p + "/" + name] = d
            else: rec.pop(p + "/" + name, None)
            if r["status"] != "proved" or "-v" in sys.argv:
                ob = r["obligations"]
                print(r["status"], p, name, f"{sum(o['status'] == 'proved' for o in ob)}/{len(ob)}", r["seconds"], r["detail"][:300], [(o["name"], o["status"]) for o in ob if o["status"] != "proved"][:4], flush=True)
            elif r["seconds"] > 150: print("slow", p, name, r["seconds"], flush=True)
    print({p: f"{n[p]}/{len([j for j in jobs if j[0] == p])}" for p in ps}, round(time.time() - t0))
    if "--record" in sys.argv:
        with open(path, "w") as f: json.dump(rec, f, indent=0, sort_keys=True)
