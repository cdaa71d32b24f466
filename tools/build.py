#!/usr/bin/env python3
"""Offline builder: compiles /repo's current working tree (plus drivers from /verif/drivers)
with chosen instrumentation, into the ignored directory /verif/.cache.

Objects are cached by the hash of (compiler flags, the translation unit, every header of /repo and
/verif/drivers, the generated configuration), so a check always judges the current tree whether or
not an earlier run left a cache behind.
"""
import hashlib, os, subprocess, sys, shutil, time, concurrent.futures as cf, pathlib, fcntl

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get("HEXED_REPO", "/repo"))
CACHE = VERIF / ".cache"

BASE = """-DHAVE_FREEIMAGE -DHAVE_FREETYPE -DHAVE_OPENGL_EXT -DHAVE_RAPIDJSON -DHAVE_TBB -DHAVE_TK -DHAVE_XLIB
-DOCC_CONVERT_SIGNALS -I/usr/include/libxml2 -w -isystem /usr/include/eigen3
-isystem /usr/include/hdf5/serial -isystem /usr/include/opencascade -std=c++20 -fPIC -fopenmp""".split()
LIBS = """-L/usr/lib/x86_64-linux-gnu/hdf5/serial -L/usr/lib/x86_64-linux-gnu/xdmf/serial
-Wl,-rpath,/usr/lib/x86_64-linux-gnu/hdf5/serial -Wl,-rpath,/usr/lib/x86_64-linux-gnu/xdmf/serial
-lhdf5_cpp -lhdf5 -lnlopt -lXdmf -lXdmfCore -lTKBRep -lTKOpenGl -lTKV3d -lTKIGES -lTKSTEP -lTKSTL
-lTKXSBase -lTKService -lTKHLR -lTKGeomAlgo -lTKTopAlgo -lTKShHealing -lTKGeomBase -lTKG3d -lTKG2d -lTKMesh -lTKMath -lTKernel -lTKPrim -lTKSTEPBase""".split()

# instrumentation variants
VARIANTS = {
    # address + undefined sanitizers, Eigen and libstdc++ assertions live (no NDEBUG)
    "asan": dict(cc="g++", flags="-O1 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize=vptr -fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS".split(), row=3,
                 # UBSan multiplies the compile time of the kernel templates (200 s for one file); ASan and Eigen's assertions stay on
                 per_src={k: ["-fno-sanitize=undefined"] for k in ("kernels_convective.cpp", "kernels_diffusive.cpp", "kernels_max_dt.cpp")}),
    # plain optimised build: the numerics the user gets (at reduced maximum row size)
    "plain": dict(cc="g++", flags="-O2 -g1 -DNDEBUG".split(), row=4),
    # thread sanitizer with the instrumented OpenMP runtime in drivers/gomp_shim.cpp
    "tsan": dict(cc="g++", flags="-O1 -g1 -fno-omit-frame-pointer -fsanitize=thread -DNDEBUG".split(), row=3),
}

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

class BuildError(Exception): pass

def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, (pathlib.Path,)):
            h.update(p.read_bytes())
        elif isinstance(p, bytes): h.update(p)
        else: h.update(str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]

def write_if_changed(path, text):
    path.parent.mkdir(parents=True, exist_ok=True)
    if not path.exists() or path.read_text() != text:
        tmp = path.with_suffix(path.suffix + f".{os.getpid()}")
        tmp.write_text(text); os.replace(tmp, path)

def generate(row):
    """reproduce what the project's cmake configure step generates"""
    gen = CACHE / f"gen{row}"
    scripts = [REPO/"script/auto_generate.py", REPO/"script/Basis.py", REPO/"script/translate.py", REPO/"include/constants.hpp", REPO/"hexed_config.hpp.in", REPO/"config.cpp.in"]
    key = digest(row, "v3", *[s for s in scripts])
    gen = CACHE / f"gen{row}-{key}"
    with lock(f"gen{row}"):
        if not (gen / "done").exists():
            gen.mkdir(parents=True, exist_ok=True)
            conf = (REPO/"hexed_config.hpp.in").read_text()
            vars = {"CMAKE_SOURCE_DIR": str(REPO), "CMAKE_BINARY_DIR": str(gen), "CMAKE_PROJECT_VERSION_MAJOR": "0",
                    "CMAKE_PROJECT_VERSION_MINOR": "2", "CMAKE_PROJECT_VERSION_PATCH": "0", "MAX_BASIS_ROW_SIZE": str(row),
                    "threaded": "ON", "n_threads": "8", "use_xdmf": "ON", "use_tecplot": "OFF", "use_nlopt": "ON", "use_occt": "ON",
                    "obsessive_timing": "OFF", "COMMIT": "0"*40}
            for k, v in vars.items(): conf = conf.replace("@" + k + "@", v)
            (gen/"include").mkdir(exist_ok=True)
            (gen/"include/hexed_config.hpp").write_text(conf)
            cpp = (REPO/"config.cpp.in").read_text()
            for k, v in vars.items(): cpp = cpp.replace("@" + k + "@", v)
            (gen/"config.cpp").write_text(cpp)
            r = sh([sys.executable if False else "python3", str(REPO/"script/auto_generate.py"), str(gen), str(row)], cwd=gen)
            if r.returncode: raise BuildError(r.stdout)
            r = sh(["python3", str(REPO/"script/translate.py"), str(REPO/"include/constants.hpp")], cwd=gen)
            if r.returncode: raise BuildError(r.stdout)
            (gen/"done").write_text("")
    return gen

class lock:
    def __init__(self, name):
        CACHE.mkdir(exist_ok=True); self.f = open(CACHE/f"{name}.lock", "w")
    def __enter__(self): fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a): fcntl.flock(self.f, fcntl.LOCK_UN); self.f.close()

def sources():
    txt = (REPO/"src/CMakeLists.txt").read_text()
    import re
    body = re.search(r"target_sources\(hexed PRIVATE(.*?)\)", txt, re.S).group(1)
    return [l.strip() for l in body.splitlines() if l.strip().endswith(".cpp")]

_file_hash = {}
def file_hash(path):
    path = str(path)
    if path not in _file_hash:
        try: _file_hash[path] = hashlib.sha256(open(path, "rb").read()).hexdigest()[:24]
        except OSError: _file_hash[path] = "missing"
    return _file_hash[path]

def cached_object(src, flags_key, objdir):
    """the object compiled from these exact contents of the unit and of every project header it includes, if any"""
    man = objdir/f"{src.stem}-{flags_key}.man"
    if not man.exists(): return None
    try:
        for line in man.read_text().splitlines():
            obj, *deps = line.split("\t")
            if all(file_hash(d.split("=")[0]) == d.split("=")[1] for d in deps) and (objdir/obj).exists(): return objdir/obj
    except Exception: return None
    return None

def compile_one(src, cmd, flags_key, objdir, timings):
    t = time.time()
    man = objdir/f"{src.stem}-{flags_key}.man"
    base = objdir/f"{src.stem}-{flags_key}.{os.getpid()}"
    # second level: same text after preprocessing (e.g. only comments changed) means the same object
    r = sh(cmd + ["-E", "-P", str(src), "-o", f"{base}.ii", "-MD", "-MF", f"{base}.d"])
    if r.returncode: raise BuildError(f"compiling {src} failed:\n{chr(10).join([l for l in r.stdout.splitlines() if "error" in l][:12])}\n{r.stdout[-2500:]}")
    pre = hashlib.sha256(open(f"{base}.ii", "rb").read()).hexdigest()[:16]
    os.unlink(f"{base}.ii")
    deps = open(f"{base}.d").read().replace("\\\n", " ").split(":", 1)[1].split()
    os.unlink(f"{base}.d")
    deps = sorted(set(str(pathlib.Path(d).resolve()) for d in deps if not d.startswith("/usr/")))
    out = objdir/f"{src.stem}-{flags_key}-{pre}.o"
    if not out.exists():
        tmp = f"{base}.tmp.o"
        r = sh(cmd + ["-c", str(src), "-o", tmp])
        if r.returncode: raise BuildError(f"compiling {src} failed:\n{chr(10).join([l for l in r.stdout.splitlines() if "error" in l][:12])}\n{r.stdout[-2500:]}")
        os.replace(tmp, out)
    with open(man, "a") as f: f.write(out.name + "\t" + "\t".join(f"{d}={file_hash(d)}" for d in deps) + "\n")
    timings[src.name] = time.time() - t
    return out

# source subsets for drivers that do not need the whole library; if one no longer links
# (code moved between files), the build falls back to all sources
GROUPS = {}
GROUPS["math"] = ["math.cpp", "global_hacks.cpp", "Lock.cpp"]
GROUPS["tree"] = GROUPS["math"] + ["Tree.cpp", "Element.cpp", "Deformed_element.cpp", "Vertex.cpp", "Storage_params.cpp", "Basis.cpp", "Equidistant.cpp", "Stopwatch.cpp", "Stopwatch_tree.cpp"]
GROUPS["mesh"] = GROUPS["tree"] + ["Accessible_mesh.cpp", "connection.cpp", "Hanging_vertex_matcher.cpp", "Boundary_condition.cpp", "Surface_geom.cpp", "Simplex_geom.cpp"]
GROUPS["interp"] = GROUPS["math"] + ["Interpreter.cpp", "Struct_expr.cpp", "read_csv.cpp"]
GROUPS["basis"] = GROUPS["math"] + ["Basis.cpp", "Equidistant.cpp", "Physical_basis.cpp", "filter_limit.cpp", "Storage_params.cpp", "Stopwatch.cpp", "Stopwatch_tree.cpp"]
GROUPS["geom"] = GROUPS["tree"] + ["Surface_geom.cpp", "Simplex_geom.cpp"]
GROUPS["small"] = sorted(set(GROUPS["interp"] + GROUPS["basis"])) + ["History_monitor.cpp", "Layer_sequence.cpp", "standard_atmosphere.cpp", "Linear_equation.cpp", "iterative.cpp"]
GROUPS["cad"] = GROUPS["geom"] + ["Occt.cpp"]

# slow translation units first, so the parallel build is balanced
SLOW = ["kernels_convective.cpp", "kernels_diffusive.cpp", "kernels_max_dt.cpp", "Solver.cpp", "Accessible_mesh.cpp", "Case.cpp", "Occt.cpp", "Interpreter.cpp"]

def build(driver, variant="asan", srcs="all", **kw):
    if isinstance(srcs, str) and srcs != "all":
        try: return build_(driver, variant, GROUPS[srcs], **kw)
        except BuildError as e:
            if "linking failed" not in str(e) and "No such file" not in str(e): raise
            if os.environ.get("VERIF_BUILD_DEBUG"): print(e)
    return build_(driver, variant, "all" if isinstance(srcs, str) else srcs, **kw)

def build_(driver, variant="asan", srcs="all", extra_flags=(), extra_libs=(), name=None, row=None, jobs=8, verbose=False, extra_drivers=(), per_src_flags=None):
    """returns the path of an executable made of drivers/<driver> and the library's sources"""
    v = VARIANTS[variant]
    row = row or v["row"]
    gen = generate(row)
    flags = BASE + v["flags"] + [f"-I{gen}/include", f"-I{REPO}/include", f"-I{VERIF}/drivers", f"-I{REPO}/src"] + list(extra_flags)
    cc = [v["cc"]] + flags
    lst = sources() if srcs == "all" else list(srcs)
    for l in lst:
        if not (REPO/"src"/l).exists(): raise BuildError(f"No such file {l}")
    units = [(REPO/"src"/l) for l in lst] + [gen/"config.cpp", gen/"Gauss_legendre.cpp", gen/"Gauss_lobatto.cpp"]
    drivers = [VERIF/"drivers"/d for d in [driver, *extra_drivers]]
    objdir = CACHE/"obj"; objdir.mkdir(parents=True, exist_ok=True)
    timings = {}
    t0 = time.time()
    def get(u):
        f = cc + list((per_src_flags or v.get("per_src", {})).get(u.name, []))
        if u in drivers and variant == "asan": f = f + ["-fno-sanitize=undefined", "-g0"] # the harness is not the code under test
        k = digest(" ".join(f), str(u.parent))[:12]
        return cached_object(u, k, objdir) or compile_one(u, f, k, objdir, timings)
    order = sorted(units + drivers, key=lambda u: SLOW.index(u.name) if u.name in SLOW else 3.5 if u in drivers else 99)
    with cf.ThreadPoolExecutor(jobs) as ex:
        futs = {u: ex.submit(get, u) for u in order}
        done = {u: f.result() for u, f in futs.items()}
    fl = [x for x in flags if not (x == "-fopenmp" and variant == "tsan")]
    bindir = CACHE/"bin"; bindir.mkdir(exist_ok=True)
    def link(target, args):
        if target.exists(): return
        tmp = f"{target}.{os.getpid()}"
        r = sh([v["cc"]] + fl + ["-o", tmp] + args)
        if r.returncode: raise BuildError(f"linking failed:\n{chr(10).join([l for l in r.stdout.splitlines() if "error" in l][:12])}\n{r.stdout[-2500:]}")
        os.replace(tmp, target)
    lib_objs = [str(done[u]) for u in units]
    lib = bindir/f"libhx-{variant}-{digest(*lib_objs)[:14]}.so"
    link(lib, ["-shared"] + lib_objs + list(extra_libs) + LIBS)
    drv_objs = [str(done[u]) for u in drivers]
    exe = bindir/f"{name or pathlib.Path(driver).stem}-{variant}-{digest(lib.name, *drv_objs, *extra_libs)[:14]}"
    link(exe, drv_objs + [str(lib), f"-Wl,-rpath,{bindir}"] + list(extra_libs) + LIBS)
    if verbose:
        for k, t in sorted(timings.items(), key=lambda x: -x[1])[:15]: print(f"  {t:6.1f}s {k}")
        print(f"built {exe.name} in {time.time()-t0:.1f}s ({len(timings)} units compiled)")
    return exe

if __name__ == "__main__":
    print(build(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else "asan", verbose=True))
