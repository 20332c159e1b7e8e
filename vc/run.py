"""run the contract units of one property: python3-vt vc/run.py C02 [name-regex] [-v] [-d]"""
import sys, os, re, importlib, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import unit

def load(prop):
    unit.REG.clear()
    sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "contracts"))
    for f in sorted(os.listdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), "contracts"))):
        if f.endswith(".py") and (f.startswith(prop.lower()) or prop == "all"): importlib.import_module(f[:-3])
    return [u for u in unit.REG if u.prop == prop or prop == "all"]

_cache = {}


def load_cached(prop):
    if prop not in _cache: _cache[prop] = load(prop)
    return _cache[prop]


if __name__ == "__main__":
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    v = "-v" in sys.argv; d = "-d" in sys.argv
    for u in load(args[0]):
        if len(args) > 1 and not re.search(args[1], u.name): continue
        r = unit.run_unit(u, v, d)
        ob = r["obligations"]
        print(f"{r['status']:10s} {u.prop} {u.name}  obligations {sum(o['status']=='proved' for o in ob)}/{len(ob)}  {r['seconds']}s  q={r.get('queries')} covers={r['covers']} {r['detail'][:1500]}")
        for o in ob:
            if o["status"] != "proved": print("     ", o["status"], o["name"], o["detail"][:1500 if v else 300])
