#!/usr/bin/env python3
"""Decides one property by running instrumented executions of /repo's current tree.

usage: check.py <property id>      (VERIF_SEED, VERIF_TIER in the environment)
Exit 0: held on everything explored.  Exit 1 + VIOLATION line: violated.  Exit 2: no verdict (harness problem).
"""
import sys, os, json, time, subprocess, tempfile, re, pathlib, shutil, signal, concurrent.futures as cf
HERE = pathlib.Path(__file__).resolve().parent
sys.path.insert(0, str(HERE/"tools")); sys.path.insert(0, str(HERE/"checks"))
import build as B
from registry import REG

T0 = time.time()
SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=99:detect_leaks=0:detect_stack_use_after_return=0:allocator_may_return_null=1:max_allocation_size_mb=8000:symbolize=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1",
    "TSAN_OPTIONS": "halt_on_error=0:exitcode=0:report_thread_leaks=0:history_size=4:second_deadlock_stack=1",
}

def parse_crash(text, rc):
    """a stable key for an abnormal end: kind of report + the innermost frame inside /repo (without line numbers)"""
    kind = None
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", text)
    if m: kind = "asan:" + m.group(1)
    m = m or re.search(r"runtime error: (.*)", text)
    if m and not kind: kind = "ubsan:" + re.sub(r"-?\d[\d.e+-]*", "N", m.group(1))[:80]
    if not kind:
        m = re.search(r"Assertion `(.*)' failed", text) or re.search(r"Assertion '(.*)' failed", text)
        if m: kind = "assertion:" + m.group(1)[:80]
    if not kind:
        m = re.search(r"terminate called after throwing an instance of '([^']*)'(?:\s*what\(\):\s*(.*))?", text)
        if m: kind = f"terminate:{m.group(1)}:{(m.group(2) or '')[:100]}"
    if not kind:
        m = re.search(r"==\d+== (Invalid (?:read|write|free)|Conditional jump|Use of uninit|Jump to the invalid|Mismatched free|Syscall param|Source and dest)", text)
        if m: kind = "valgrind:" + m.group(1).replace(" ", "-")
    if not kind: kind = f"signal:{-rc}" if rc < 0 else f"exit:{rc}"
    where = "?"
    for m in re.finditer(r"#\d+ 0x[0-9a-f]+ in (.*?) (/\S+?):(\d+)", text):
        if m.group(2).startswith(str(B.REPO) + "/"):
            fn = re.sub(r"\(.*", "", m.group(1)); fn = re.sub(r"<.*", "", fn)
            where = fn.split()[-1] if fn.split() else fn
            break
    return f"{kind}@{where}"

def run_shard(exe, spec, seed, first, n, workdir, deadline, env, results):
    """run cases [first, first+n); on an abnormal end log it, then continue after the case that ended"""
    end = first + n
    cur = first
    n_crash = 0
    while cur < end and time.time() < deadline:
        out = workdir/f"out-{first}-{cur}.json"; prog = workdir/f"prog-{first}"; cwd = workdir/f"cwd-{first}"
        cwd.mkdir(exist_ok=True)
        k = len(spec.get("wrap", []))
        cmd = spec.get("wrap", []) + [str(exe), "--seed", str(seed), "--first", str(cur), "--cases", str(end - cur), "--out", str(out), "--progress", str(prog),
               "--deadline", str(int(deadline - 20)), "--scratch", str(cwd)] + list(spec.get("args", []))
        alone = lambda case: cmd[:k + 3] + ["--case", str(case)] + cmd[k + 7:]
        tmo = min(spec.get("timeout", 300), max(5, deadline - time.time() + spec.get("grace", 60)))
        status, rc, err = run_once(cmd, cwd, env, tmo)
        if status == "ok" and rc == 0 and out.exists():
            results.append(dict(json=json.loads(out.read_text()), log=err))
            return
        case, phase = read_prog(prog, cur)
        if status == "timeout":
            # is it a hang? re-run the case alone before reporting
            st2, rc2, err2 = run_once(alone(case), cwd, env, spec.get("case_timeout", tmo))
            if st2 == "timeout":
                results.append(dict(crash=dict(key=f"hang@{phase}", msg=f"case {case} did not end within {spec.get('case_timeout', tmo)} s twice (during: {phase})", case=case, cmd=cmd)))
            elif rc2 == 0 and out.exists(): results.append(dict(json=json.loads(out.read_text()), log=err2))
        elif rc == 2 and not re.search("Sanitizer|runtime error", err):
            results.append(dict(harness=f"driver error exit: {err[-500:]}")); return
        else:
            if rc == -9: # killed from outside (memory): inconclusive, re-run once alone
                st2, rc2, err2 = run_once(alone(case), cwd, env, tmo)
                if st2 == "ok" and rc2 == 0: results.append(dict(json=json.loads(out.read_text()), log=err2)); cur = case + 1; continue
                if rc2 == -9: results.append(dict(harness="killed twice")); return
                rc, err = rc2, err2
            key = parse_crash(err, rc)
            results.append(dict(crash=dict(key=key, msg=f"case {case} ended abnormally during [{phase}]: {tail(err)}", case=case, cmd=cmd)))
            n_crash += 1
            if n_crash > 12: return
        cur = case + 1

def tail(err):
    lines = [l for l in err.splitlines() if re.search(r"ERROR|runtime error|ssertion|what\(\)|terminate|    #[0-6] |SUMMARY", l)]
    return " | ".join(l.strip()[:220] for l in lines[:9])[:1500] or err[-500:]

def read_prog(prog, default):
    try:
        l = prog.read_text().splitlines()
        return max(int(l[0]), default), (l[1] if len(l) > 1 else "")
    except Exception: return default, "?"

def run_once(cmd, cwd, env, tmo):
    errf = cwd/"stderr.txt"
    with open(errf, "wb") as ef:
        p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.DEVNULL, stderr=ef, stdin=subprocess.DEVNULL, start_new_session=True)
        try:
            rc = p.wait(tmo); st = "ok"
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL); p.wait(); rc = -9; st = "timeout"
    data = errf.read_bytes()
    if len(data) > 3_000_000: data = data[:1_500_000] + data[-1_500_000:]
    return st, rc, data.decode(errors="replace")

def main():
    pid = sys.argv[1]
    entry = REG[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    total = entry.get("budget", {}).get(tier, 700 if tier == "quick" else 3000)
    deadline = T0 + total
    evidence = HERE/"evidence"/f"{pid}.json"; evidence.parent.mkdir(exist_ok=True)
    known = [k for k in json.loads((HERE/"known_findings.json").read_text())["findings"] if k["property"] == pid]
    hashes = set()
    agg = dict(evaluations=0, distinct=0, counts={}, maxima={}, samples=[])
    viols, notes, build_s = [], [], 0
    work = pathlib.Path(tempfile.mkdtemp(prefix=f"hexed-{pid}-"))
    try:
        exes = []
        tb = time.time()
        for spec in entry["runs"]:
            try: exes.append(B.build(spec["driver"], spec.get("variant", "asan"), spec.get("srcs", "all"), **spec.get("build", {})))
            except B.BuildError as e:
                print(f"cannot build: {e}"); sys.exit(2)
        build_s = time.time() - tb
        for i_run, (spec, exe) in enumerate(zip(entry["runs"], exes)):
            n = spec.get(tier, spec.get("quick", 10))
            shards = min(spec.get("shards", 8), n)
            env = dict(os.environ, **SAN_ENV, OMP_NUM_THREADS=str(spec.get("omp", 1)), OMP_WAIT_POLICY="passive", **spec.get("env", {}))
            results = []
            wd = work/f"run{i_run}"; wd.mkdir()
            bounds = [n*i//shards for i in range(shards + 1)]
            # split in more pieces than processes so uneven cases balance
            pieces = min(n, shards*spec.get("split", 3))
            bounds = [n*i//pieces for i in range(pieces + 1)]
            with cf.ThreadPoolExecutor(shards) as ex:
                fs = [ex.submit(run_shard, exe, spec, seed, a, b - a, wd, deadline, env, results) for a, b in zip(bounds, bounds[1:]) if b > a]
                for f in fs: f.result()
            hook = spec.get("postprocess")
            for r in results:
                if "harness" in r: notes.append(r["harness"]); continue
                if "crash" in r: viols.append(dict(r["crash"], run=i_run)); agg["evaluations"] += 1; continue
                j = r["json"]
                if hook: hook(r, viols, agg)
                agg["evaluations"] += j["evaluations"]; hashes.update((i_run, h) for h in j["hashes"].split())
                for k, v in j["counts"].items(): agg["counts"][k] = agg["counts"].get(k, 0) + v
                for k, v in j["maxima"].items(): agg["maxima"][k] = max(agg["maxima"].get(k, 0), v)
                agg["samples"] += j["samples"][:2]
                for v in j["violations"]: viols.append(dict(v, run=i_run))
        agg["distinct"] = len(hashes)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    if "only" in entry: # a property about one kind of event leaves the others to the properties that are about those
        agg["counts"]["events-of-other-properties"] = sum(not re.match(entry["only"], v["key"]) for v in viols)
        viols = [v for v in viols if re.match(entry["only"], v["key"])]
    fresh, matched = [], []
    for v in viols:
        hit = next((k for k in known if re.fullmatch(k["key"], v["key"]) and re.search(k.get("match", ""), v["msg"])), None)
        (matched if hit else fresh).append(v)
    ev = dict(property=pid, tier=tier, seed=seed, level="exploration",
              coverage=dict(evaluations=agg["evaluations"], distinct_nontrivial=agg["distinct"], rule=entry["rule"],
                            samples=agg["samples"][:8], observed=agg["counts"], worst_error_over_tolerance=agg["maxima"],
                            builds=[e.name for e in exes], build_s=round(build_s, 1), known_findings_seen=len(matched), notes=notes[:5]),
              assumptions=entry.get("assumptions", []), wall_s=round(time.time() - T0, 1), violations=len(fresh))
    evidence.write_text(json.dumps(ev, indent=1) + "\n")
    for k in known: print(f"KNOWN-FINDING: property={pid} {k['what']}")
    if fresh:
        rp = HERE/"evidence"/f"replay-{pid}.json"
        rp.write_text(json.dumps(dict(property=pid, seed=seed, tier=tier, violations=[
            dict(key=v["key"], case=v["case"], message=v["msg"], driver=entry["runs"][v["run"]]["driver"], variant=entry["runs"][v["run"]].get("variant", "asan"),
                 replay=f"VERIF_SEED={seed}; {exes[v['run']]} --seed {seed} --case {v['case']} {' '.join(entry['runs'][v['run']].get('args', []))}") for v in fresh[:40]]), indent=1) + "\n")
        seen = set()
        for v in fresh:
            if v["key"] not in seen and len(seen) < 10: print(f"  [{v['key']}] {v['msg'][:600]}")
            seen.add(v["key"])
        print(f"VIOLATION property={pid} replay={rp}")
        sys.exit(1)
    missing = [c for c in entry.get("require", []) if not agg["counts"].get(c)]
    if agg["evaluations"] == 0 or agg["distinct"] == 0 or missing or (notes and not agg["evaluations"]):
        print(f"INCONCLUSIVE property={pid}: nothing observed, or not what had to be: {missing} {notes}")
        sys.exit(2)
    print(f"OK property={pid} tier={tier} seed={seed} evaluations={agg['evaluations']} distinct={agg['distinct']} warm={(B.CACHE/"setup-marker").exists()} build={build_s:.0f}s wall={time.time()-T0:.0f}s")
    sys.exit(0)

if __name__ == "__main__":
    main()
