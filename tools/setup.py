#!/usr/bin/env python3
"""setup_cmd: warms the build cache (each check also builds whatever it needs by itself)."""
import sys, pathlib, time, concurrent.futures as cf
HERE = pathlib.Path(__file__).resolve().parent
sys.path.insert(0, str(HERE)); sys.path.insert(0, str(HERE.parent/"checks"))
import build as B
from registry import REG
t0 = time.time()
seen, specs = set(), []
for pid, e in REG.items():
    for r in e["runs"]:
        key = (r["driver"], r.get("variant", "asan"), str(r.get("srcs", "all")), str(r.get("build", {})))
        if key not in seen: seen.add(key); specs.append(r)
# whole-library builds first: they keep all cores busy and fill the object cache for the others
specs.sort(key=lambda r: r.get("srcs", "all") != "all")
def one(r):
    if time.time() - t0 > 1400: return f"time is up; {r['driver']} {r.get('variant', 'asan')} is built by its checks"
    t = time.time()
    try: B.build(r["driver"], r.get("variant", "asan"), r.get("srcs", "all"), **r.get("build", {}))
    except B.BuildError as err: return f"not built: {r['driver']} {str(err)[:300]}"
    return f"{r['driver']} {r.get('variant', 'asan')}: {time.time() - t:.0f} s"
# the first build of each variant fills the object cache; the others mostly compile one driver each, so several run at once
first, rest = [], []
for r in specs: (rest if r.get("variant", "asan") in [f.get("variant", "asan") for f in first] or r.get("build") else first).append(r)
for r in first: print(one(r), flush=True)
with cf.ProcessPoolExecutor(6) as ex:
    for line in ex.map(one, rest): print(line, flush=True)
(B.CACHE/"setup-marker").write_text("x")
print(f"ready after {time.time() - t0:.0f} s")
