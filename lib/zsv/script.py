"""Schema texts plus small programs in the target languages (probes of known findings, hand-written drivers)."""
import os, subprocess
from . import build, engine


class Script:
    def __init__(self, worker, files, main="main.zs", langs=("python", "cpp", "java"), opts=()):
        self.pr = worker.project()
        self.pr.write(files if isinstance(files, dict) else {main: files})
        self.ok, self.out = self.pr.compile(main, langs_=langs, opts=opts)
        self.dir = self.pr.dir

    def python(self, code, impl="python", timeout=120):
        f = self.dir + "/main_script.py"
        with open(f, "w") as o:
            o.write(code)
        path = ":".join([self.dir + "/py", build.PYRT] + ([build.py_binding()] if impl == "cpp" else []))
        p = subprocess.run([build.VENV_PY, f], env=build.env({"PYTHONPATH": path, "ZSERIO_PYTHON_IMPLEMENTATION": impl}), cwd=self.dir,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode("utf-8", "replace")

    def java(self, code, cls="Main", timeout=120, extra_cp=""):
        os.makedirs(self.dir + "/java", exist_ok=True)
        with open(self.dir + "/java/%s.java" % cls, "w") as o:
            o.write(code)
        ok, out = self.pr.javac()
        if not ok:
            return 99, out
        p = subprocess.run(["java", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1", "-cp",
                            self.dir + "/jclasses:" + build.java_server() + (":" + extra_cp if extra_cp else ""), cls],
                           env=build.env(), cwd=self.dir, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode("utf-8", "replace")

    def cpp(self, code, variant="fast", flags=(), timeout=300):
        """code is compiled together with all generated sources"""
        ok, out = self.pr.build_cpp(None, None, variant=variant, extra_src=code, pch=False, flags=flags)
        if not ok:
            return 99, out
        p = subprocess.run([self.pr.exe], env=build.env(), cwd=self.dir, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode("utf-8", "replace")

    def close(self):
        self.pr.clean()
