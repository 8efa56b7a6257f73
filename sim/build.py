"""Builds the world from /repo's working tree. Variants differ in instrumentation."""
import fcntl, glob, hashlib, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE); REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(ROOT, "build")
WRAP = """malloc calloc realloc free strdup reallocarray fopen fopen64 fileno fsync fdatasync rename remove unlink access
time clock_gettime gettimeofday clock getpid exit rand srand random srandom drand48 lrand48 srand48 rand_r arc4random getrandom getentropy""".split()
MEM = ["memcpy", "memmove", "memset"]
INC = ["-I/opt/vp/cmake/include", "-I" + REPO + "/xcsf"]
BASE = ["-std=gnu11", "-g", "-DDSFMT_MEXP=19937", "-DPARALLEL", "-DPARALLEL_MATCH", "-DPARALLEL_PRED", "-DPARALLEL_UPDATE", "-fopenmp", "-w"]
VARIANTS = {
    "plain": ["-O2"],
    "tsan": ["-O1", "-fsanitize=thread", "-fno-builtin-memcpy", "-fno-builtin-memmove", "-fno-builtin-memset"],
    "asan": ["-O1", "-fsanitize=address", "-fsanitize=bounds,null,object-size,integer-divide-by-zero", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"],
    # other contents of uninitialised variables (gcc 13 clears live bytes when it initialises padding, so clang, and one worker)
    "zero": ["-O1", "-ftrivial-auto-var-init=zero"],
    "pattern": ["-O1", "-ftrivial-auto-var-init=pattern"],
}
def run(cmd, **k):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
    if r.returncode:
        sys.stderr.write("BUILD FAILED: " + " ".join(cmd) + "\n" + r.stdout[-4000:] + "\n"); raise SystemExit(3)
    return r.stdout
def sources():
    return sorted(glob.glob(REPO + "/xcsf/*.c"))
def key(variant):
    h = hashlib.sha256(); h.update(repr((VARIANTS[variant], BASE, WRAP)).encode())
    for f in sorted(glob.glob(REPO + "/xcsf/*.[ch]") + glob.glob(HERE + "/*.[ch]pp") + glob.glob(HERE + "/rt/*") + [os.path.abspath(__file__)]):
        h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()[:20]
PYTHON = "/opt/vp/venv/bin/python"
def build_py():
    """The extension module from the working tree, with its heap behind a seam, and the file seam to preload. Returns their directory."""
    h = hashlib.sha256()
    for f in sorted(glob.glob(REPO + "/xcsf/*.[ch]") + glob.glob(REPO + "/xcsf/*.cpp") + glob.glob(HERE + "/py/*") + [os.path.abspath(__file__)]):
        if os.path.isfile(f): h.update(f.encode()); h.update(open(f, "rb").read())
    k = h.hexdigest()[:20]
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".py.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        d = os.path.join(BUILD, "py"); kf = os.path.join(d, "key")
        if os.path.exists(kf) and open(kf).read() == k: return d
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        inc = run([PYTHON, "-c", "import sysconfig; print(sysconfig.get_paths()['include'])"]).strip()
        par = ["-DPARALLEL", "-DPARALLEL_MATCH", "-DPARALLEL_PRED", "-DPARALLEL_UPDATE", "-fopenmp"] # one worker: schedules are C01's and C02's
        jobs = [["gcc", "-c", "-std=gnu11", "-O1", "-g", "-w", "-fPIC", "-fvisibility=hidden", "-DDSFMT_MEXP=19937"] + par + INC + [s, "-o", d + "/" + os.path.basename(s)[:-2] + ".o"] for s in sources() if os.path.basename(s) != "main.c"]
        jobs.insert(0, ["g++", "-c", "-std=c++11", "-O1", "-g0", "-w", "-fPIC", "-fvisibility=hidden", "-DDSFMT_MEXP=19937", "-I" + inc] + INC + [REPO + "/xcsf/pybind_wrapper.cpp", "-o", d + "/pybind_wrapper.o"])
        objs = [j[-1] for j in jobs]
        jobs += [["g++", "-c", "-std=c++11", "-O2", "-fPIC", "-fvisibility=hidden", HERE + "/py/pyheap.cpp", "-o", d + "/pyheap.ro"], ["gcc", "-shared", "-fPIC", "-O1", "-w", HERE + "/py/shim.c", "-o", d + "/shim.so", "-ldl"]]
        with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex: list(ex.map(run, jobs))
        run(["ld", "-r", "-o", d + "/sut0.ro"] + objs)
        args = []
        for n in ("malloc", "calloc", "realloc", "free", "strdup"): args += ["--redefine-sym", f"{n}=simpy_{n}"]
        run(["objcopy"] + args + [d + "/sut0.ro", d + "/sut.ro"])
        run(["g++", "-shared", "-o", d + "/xcsf.so", d + "/sut.ro", d + "/pyheap.ro", "-fopenmp", "-ldSFMT-19937", "-lcjson", "-lm"])
        for o in objs + [d + "/sut0.ro", d + "/sut.ro"]: os.unlink(o)
        open(kf, "w").write(k)
        return d
def build(variant, force=False):
    """Returns the path of the world binary, rebuilt when anything it depends on changed."""
    if variant == "py": return build_py()
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "." + variant + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        d = os.path.join(BUILD, variant); exe = os.path.join(d, "world"); kf = os.path.join(d, "key"); k = key(variant)
        if not force and os.path.exists(exe) and os.path.exists(kf) and open(kf).read() == k: return exe
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        fl = VARIANTS[variant]; jobs = []; clang = variant in ("zero", "pattern"); base = [b for b in BASE if not clang or not (b.startswith("-DPARALLEL") or b == "-fopenmp")]
        san = [f for f in fl if f.startswith("-fsanitize=address")]
        for s in sources():
            b = os.path.basename(s); o = os.path.join(d, b[:-2] + ".o")
            jobs.append((["clang" if clang else "gcc", "-c"] + base + INC + fl + (["-Dmain=xcsf_main"] if b == "main.c" else []) + [s, "-o", o], o, b))
        rt = ["gcc", "-c", "-O2", "-g", "-Wall"] + (["-DSIM_TSAN"] if variant == "tsan" else [])
        for f in ("simheap.c", "simio.c", "simomp.c"): jobs.append((rt + [HERE + "/rt/" + f, "-o", d + "/" + f[:-2] + ".ro"], None, f))
        for f in ("world.cpp", "ref.cpp", "bounds.cpp"): jobs.append((["g++", "-c", "-std=c++17", "-O1", "-g", "-w", "-DDSFMT_MEXP=19937"] + INC + [HERE + "/" + f, "-o", d + "/" + f[:-4] + ".ro"], None, f))
        def one(j):
            run(j[0])
            if j[2] == "main.c": # the program's environment goes through the spy
                run(["objcopy", "--redefine-sym", "env_init=spy_env_init", j[1]])
        with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex: list(ex.map(one, jobs))
        objs = [j[1] for j in jobs if j[1]]
        run(["ld", "-r", "-o", d + "/sut0.ro"] + objs)
        names = WRAP + (MEM if variant == "tsan" else [])
        args = []
        for n in names: args += ["--redefine-sym", f"{n}=__wrap_{n}"]
        args += ["--redefine-sym", "env_init=real_env_init"]
        run(["objcopy"] + args + [d + "/sut0.ro", d + "/sut.ro"])
        run(["g++", "-no-pie", "-rdynamic", "-o", exe, d + "/world.ro", d + "/ref.ro", d + "/bounds.ro", d + "/sut.ro", d + "/simheap.ro", d + "/simio.ro", d + "/simomp.ro"] + (["-fsanitize=address,undefined"] if san else []) + ["-ldSFMT-19937", "-lcjson", "-lm", "-lpthread"])
        for o in objs: os.unlink(o)
        os.unlink(d + "/sut0.ro")
        open(kf, "w").write(k)
        return exe
if __name__ == "__main__":
    for v in sys.argv[1:] or list(VARIANTS) + ["py"]: print(build(v))
