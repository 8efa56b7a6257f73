"""Talks to world binaries (fork servers)."""
import json, os, subprocess, sys, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
class Died(Exception): pass
class World:
    def __init__(self, variant, cpu=60):
        self.exe = build.build(variant); self.variant = variant; self.cpu = cpu; self.p = None
    def start(self):
        env = dict(os.environ, WORLD_CPU=str(self.cpu), ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=0:exitcode=66", UBSAN_OPTIONS="print_stacktrace=0:halt_on_error=1:exitcode=66")
        env.pop("WORLD_REEXEC", None)
        self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=env)
    def run(self, case):
        for attempt in (0, 1):
            if self.p is None or self.p.poll() is not None: self.start()
            try:
                self.p.stdin.write(json.dumps(case) + "\n"); self.p.stdin.flush()
                line = self.p.stdout.readline()
                if line: return json.loads(line)
            except (BrokenPipeError, json.JSONDecodeError) as e:
                if attempt: raise Died(repr(e))
            self.close()
        raise Died("world server ended")
    def close(self):
        if self.p:
            try: self.p.kill(); self.p.wait()
            except Exception: pass
        self.p = None
class PyWorld(World):
    """The real interpreter with the extension module, its files and its heap behind seams."""
    def start(self):
        env = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "LC_ALL": "C.UTF-8", "PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1", "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1", "OMP_THREAD_LIMIT": "1", "MALLOC_ARENA_MAX": "1",
               "PYWORLD_MODULE": self.exe, "PYWORLD_TMP": os.environ.get("TMPDIR", "/tmp"), "LD_PRELOAD": self.exe + "/shim.so"}
        self.p = subprocess.Popen([build.PYTHON, os.path.join(build.HERE, "py", "pyworld.py")], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=env)
    def run(self, case):
        o = super().run(case)
        if "procs" not in o: raise Died(str(o))
        for p in o["procs"]:
            last = max([q["i"] for q in p if "i" in q], default=-1)
            for q in p:
                if "exit" in q: q.setdefault("at", last + 1); q.setdefault("said", "")
                if "died" in q: q.setdefault("code", 0); q.setdefault("stderr", "")
                if "killed" in q: q["crash"] = 1
                if "stuck" in q: q.update({"died": 9, "code": 0, "stderr": ""})
        sw = sum(a != b for a, b in zip(o["choices"], o["choices"][1:]))
        return o["procs"] + [[{"pw": o, "agg": dict({"fault_" + k: v for k, v in o["fired"].items()}, switches=sw, disk_ops=len(o["trace"]), **({"interleavings": 1} if sw else {}))}]]
_worlds = {}
def world(variant, cpu=60):
    k = (os.getpid(), variant, cpu)
    if k not in _worlds: _worlds[k] = (PyWorld if variant == "py" else World)(variant, cpu)
    return _worlds[k]
def run(variant, case, cpu=60): return world(variant, cpu).run(case)
def close_all():
    for w in list(_worlds.values()): w.close()
    _worlds.clear()
