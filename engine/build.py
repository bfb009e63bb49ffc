"""Builds the real sources of /repo (current working tree) with a replay harness, in a scratch directory."""
import glob, os, subprocess, threading
from concurrent.futures import ThreadPoolExecutor
from astdb import REPO, ExtractError

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LIBS = ["-lprotobuf", "-lgflags", "-lglog", "-lfmt", "-lpthread"]


class Build:
    """Compiles every src/**/*.cc (without tests, main and python) plus one harness file."""

    def __init__(self, scratch, inc, harness, name, san="address,undefined", extra=(), only=None, opt="-O1", python=False,
                 workers=8, exclude=()):
        self.dir = os.path.join(scratch, "build-" + name)
        os.makedirs(self.dir, exist_ok=True)
        self.exe = os.path.join(self.dir, "harness")
        self.error = None
        srcs = []
        for root, _, fs in os.walk(os.path.join(REPO, "src")):
            for f in sorted(fs):
                p = os.path.join(root, f)
                rel = os.path.relpath(p, os.path.join(REPO, "src"))
                if not f.endswith(".cc") or f.endswith("_test.cc") or rel == "main.cc":
                    continue
                if rel.startswith("python/") and not python:
                    continue
                if only is not None and not any(rel.startswith(o) for o in only):
                    continue
                if any(rel.startswith(o) for o in exclude):
                    continue
                srcs.append((p, rel))
        gen = sorted(glob.glob(os.path.join(inc, "gen", "src", "proto", "*.pb.cc")))
        flags = ["-std=gnu++14", opt, "-w", "-fno-omit-frame-pointer", "-pthread", "-I" + inc + "/compat",
                 "-I/opt/vp/cmake/include", "-I" + REPO, "-I" + inc + "/gen", "-I" + os.path.join(HERE, "harness")]
        if python:
            flags += subprocess.run(["/usr/bin/python3-config", "--includes"], capture_output=True, text=True).stdout.split()
        if san:
            flags += ["-fsanitize=" + san]
            if "undefined" in san:
                flags += ["-fno-sanitize-recover=undefined", "-fno-sanitize=vptr"]
        flags += list(extra)
        self.flags, self.san = flags, san
        jobs = [(p, rel.replace("/", "_") + ".o", flags) for p, rel in srcs]
        jobs += [(p, "gen_" + os.path.basename(p) + ".o", flags) for p in gen]
        jobs += [("/opt/vp/cmake/protobuf_status_ok.cc", "status_ok.o", flags)]
        jobs += [(os.path.join(HERE, "harness", harness), "harness.o", flags)]
        # big files first
        jobs.sort(key=lambda j: -(os.path.getsize(j[0])))
        self.jobs, self.workers = jobs, workers
        self.thread = threading.Thread(target=self.run)
        self.thread.start()

    def run(self):
        def comp(j):
            r = subprocess.run(["g++"] + j[2] + ["-c", j[0], "-o", os.path.join(self.dir, j[1])], capture_output=True, text=True)
            return j, r
        with ThreadPoolExecutor(self.workers) as ex:
            for j, r in ex.map(comp, self.jobs):
                if r.returncode and self.error is None:
                    self.error = "compiling %s: %s" % (j[0], r.stderr[:1500])
        if self.error:
            return
        objs = [os.path.join(self.dir, j[1]) for j in self.jobs]
        ld = [f for f in self.flags if f.startswith("-fsanitize") or f == "-pthread"]
        r = subprocess.run(["g++"] + ld + objs + LIBS + ["-o", self.exe], capture_output=True, text=True)
        if r.returncode:
            self.error = "linking: " + r.stderr[:1500]

    def wait(self):
        self.thread.join()
        return self.error is None


def run_harness(build, args, timeout, env=None, cwd=None):
    """(returncode or None on timeout, stdout+stderr)"""
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:exitcode=77"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=77"
    e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=77"
    e.update(env or {})
    try:
        r = subprocess.run([build.exe] + [str(a) for a in args], capture_output=True, timeout=timeout, env=e,
                           cwd=cwd or build.dir)
        return r.returncode, r.stdout.decode("utf8", "replace") + r.stderr.decode("utf8", "replace")
    except subprocess.TimeoutExpired as x:
        return None, ((x.stdout or b"") + (x.stderr or b"")).decode("utf8", "replace")
