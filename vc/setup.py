"""setup: build the library objects for the harnesses once (later runs reuse the objects of unchanged sources)"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, native, glob, concurrent.futures as cf, hashlib
def main():
    for mode in ("lib",):
        out = os.path.join(build.BUILD, mode + hashlib.sha256(build.REPO.encode()).hexdigest()[:6]); os.makedirs(out, exist_ok=True)
        flags = native.FLAGS + native.MODES[mode]
        with cf.ThreadPoolExecutor(8) as ex:
            for e in ex.map(lambda s: native.compile_one(s, os.path.join(out, hashlib.sha256(s.encode()).hexdigest()[:10] + "-" + os.path.basename(s) + ".o"), flags), native.sources()):
                if e: print(e)
try: main()
except Exception as e: print("setup:", e)
