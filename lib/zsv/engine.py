"""Compiles schemas and drives the generated code in Python (pure / C++ binding), Java and C++."""
import os, sys, json, shutil, subprocess, tempfile, time, select, signal
from . import build
from . import langs
from .model import render, Renderer

PYDRV = os.path.join(os.path.dirname(build.LIBDIR), "py", "pydrv.py")
TIMEOUT = 240


class HarnessError(Exception):
    pass


class Crash(Exception):
    """the tested process died or hung"""
    def __init__(self, what, out=""):
        super().__init__(what); self.out = out


class Died(Crash):
    pass


class JavaServer:
    def __init__(self, xmx="1200m", opts=()):
        self.cp = build.java_server()
        self.p = None
        self.xmx = xmx
        self.opts = list(opts)

    def start(self):
        self.p = subprocess.Popen(["java", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1", "-Xshare:auto", "-Xmx" + self.xmx, *self.opts,
                                   "-cp", self.cp, "Server"], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, env=build.env())

    def req(self, *parts, timeout=TIMEOUT):
        try:
            return self._req(*parts, timeout=timeout)
        except (Died, BrokenPipeError):
            if self.p is not None:
                self.close()
            if parts[0] not in ("ZS", "JC"):        # stateless requests get one more try with a fresh server
                raise
            self.cp = build.java_server()
            return self._req(*parts, timeout=timeout)

    def _req(self, *parts, timeout=TIMEOUT):
        if self.p is None or self.p.poll() is not None:
            self.start()
        line = "\t".join(str(x) for x in parts) + "\n"
        self.p.stdin.write(line.encode("utf-8")); self.p.stdin.flush()
        r, _, _ = select.select([self.p.stdout], [], [], timeout)
        if not r:
            self.close()
            raise Crash("java server timeout: " + line[:300])
        out = self.p.stdout.readline().decode("utf-8")
        if not out.endswith("\n"):
            rc = self.p.wait()
            self.p = None
            raise Died("java server died rc=%s: %s" % (rc, line[:300]))
        return out.rstrip("\n").split("\t")

    def close(self):
        if self.p is not None:
            self.p.kill(); self.p.wait(); self.p = None


def run_lines(args, lines, cwd=None, env=None, timeout=TIMEOUT):
    """one-shot driver: returns list of split replies, and a crash description (or None) after the last reply"""
    p = subprocess.Popen(args, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd,
                         env=build.env(env))
    crash = None
    try:
        out, err = p.communicate(("\n".join(lines) + "\n").encode("utf-8"), timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        out, err = p.communicate()
        crash = "timeout"
    replies = [l.split("\t") for l in out.decode("utf-8", "replace").split("\n")[:-1]]
    err = err.decode("utf-8", "replace")
    if len(err) > 3000:
        err = err[:1500] + "\n...\n" + err[-1500:]
    if crash is None and (p.returncode != 0 or len(replies) != len(lines)):
        crash = "exit %s, %d of %d replies: %s" % (p.returncode, len(replies), len(lines),
                                                  err)
    return replies, crash


class Worker:
    """one per process: owns a Java server and a scratch directory"""
    def __init__(self, tag="w"):
        self.dir = tempfile.mkdtemp(prefix="zsv-%s-" % tag)
        self.java = JavaServer()
        self.n = 0
        self.times = {}

    def close(self):
        self.java.close()
        shutil.rmtree(self.dir, ignore_errors=True)

    def tick(self, what, t0):
        self.times[what] = self.times.get(what, 0) + time.time() - t0

    def project(self):
        self.n += 1
        d = os.path.join(self.dir, "p%d" % self.n)
        os.makedirs(d)
        return Project(self, d)


class Project:
    def __init__(self, worker, d):
        self.w = worker; self.dir = d
        self.built = {}

    def write(self, files, sub="zs"):
        for name, text in files.items():
            p = os.path.join(self.dir, sub, name)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(text if isinstance(text, bytes) else text.encode("utf-8"))

    def compile(self, main, langs_=("python", "cpp", "java"), opts=(), sub="zs", prefix="", timeout=TIMEOUT):
        """(ok, output)"""
        t0 = time.time()
        args = ["-src", os.path.join(self.dir, sub)]
        for l in langs_:
            args += ["-" + l, os.path.join(self.dir, prefix + {"python": "py"}.get(l, l))]
        r = self.w.java.req("ZS", *args, *opts, main, timeout=timeout)
        self.w.tick("zs", t0)
        if r[0] not in ("ok", "bad"):
            raise HarnessError("compiler request: %r" % r)
        return r[0] == "ok", r[1].replace("\\n", "\n")

    def javac(self, prefix=""):
        t0 = time.time()
        r = self.w.java.req("JC", self.dir + "/%sjava" % prefix, self.dir + "/%sjclasses" % prefix)
        self.w.tick("javac", t0)
        if r[0] not in ("ok", "bad"):
            raise HarnessError("javac request: %r" % r)
        return r[0] == "ok", r[1].replace("\\n", "\n")

    def load_java(self, schema, prefix=""):
        p = self.dir + "/%sjava.desc" % prefix
        with open(p, "w") as f:
            f.write(langs.java_desc(schema))
        r = self.w.java.req("LOAD", self.dir + "/%sjclasses" % prefix, p)
        if r[0] != "ok":
            raise HarnessError("java load: %r" % (r,))

    def java(self, lines):
        t0 = time.time()
        out = [self.w.java.req(*l.split("\t")) for l in lines]
        self.w.tick("java", t0)
        return out, None

    def python(self, schema, lines, impl="python", prefix="", extra_env=None):
        t0 = time.time()
        p = self.dir + "/%spy.desc" % prefix
        with open(p, "w") as f:
            f.write(langs.py_desc(schema))
        path = build.PYRT + (":" + build.py_binding() if impl == "cpp" else "")
        env = {"PYTHONPATH": path, "ZSERIO_PYTHON_IMPLEMENTATION": impl}
        if extra_env:
            env.update(extra_env)
        r = run_lines([build.VENV_PY, PYDRV, self.dir + "/%spy" % prefix, p, impl], lines, env=env)
        self.w.tick("py", t0)
        return r

    def build_cpp(self, schema, roots, variant="fast", prefix="", extra_src=None, flags=(), pch=True):
        """(ok, output)"""
        t0 = time.time()
        src = extra_src if extra_src is not None else langs.cpp_driver(schema, roots)
        cdir = self.dir + "/%scpp" % prefix
        cpps = []
        for root, ds, names in os.walk(cdir):
            ds.sort()
            cpps += [os.path.relpath(os.path.join(root, n), cdir) for n in sorted(names) if n.endswith(".cpp")]
        body = "".join('#include "%s"\n' % c for c in cpps) + src
        main = self.dir + "/%sdriver.cpp" % prefix
        with open(main, "w") as f:
            f.write(body)
        exe = self.dir + "/%sdriver-%s" % (prefix, variant)
        args = [build.CXX, *build.CXX_STD, *build.CXX_FLAGS[variant], "-w", *flags]
        if pch:
            args += ["-fpch-validate-input-files-content", "-include-pch", build.cpp_pch(variant)]
        args += ["-I", cdir, "-I", build.CPPRT, "-I", build.CPP_DIR, main, build.cpp_runtime(variant) + "/libzs.a", "-o", exe]
        p = subprocess.run(args, env=build.env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=900)
        self.w.tick("cxx", t0)
        self.exe = exe
        return p.returncode == 0, p.stdout.decode("utf-8", "replace")[:6000]

    def cpp(self, lines, variant="fast", prefix="", timeout=TIMEOUT):
        t0 = time.time()
        r = run_lines([self.dir + "/%sdriver-%s" % (prefix, variant)], lines, timeout=timeout,
                      env={"ASAN_OPTIONS": "detect_leaks=1:allocator_may_return_null=0:max_allocation_size_mb=2000",
                           "UBSAN_OPTIONS": "print_stacktrace=1"})
        self.w.tick("cpp", t0)
        return r

    def clean(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def main_file(schema):
    return schema.main.replace(".", "/") + ".zs"
