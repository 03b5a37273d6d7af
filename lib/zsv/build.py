"""Builds what the checks need from /repo's current working tree (never from /repo/build).

Everything goes to a cache directory keyed by the content of the inputs, so that checks that run one after the
other on the same tree share the work and a changed tree is always rebuilt.
"""
import os, sys, hashlib, subprocess, shutil, glob, fcntl, time, tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("ZSV_REPO", "/repo")
CACHE = os.environ.get("ZSV_CACHE", "/var/tmp/zsv-cache")
EXT = REPO + "/compiler/extensions"
LIBDIR = os.path.dirname(os.path.abspath(__file__))
JAVA_DIR = os.path.join(os.path.dirname(LIBDIR), "java")
CPP_DIR = os.path.join(os.path.dirname(LIBDIR), "cpp")
PYRT = EXT + "/python/runtime/src"
CPPRT = EXT + "/cpp/runtime/src"
VENV_PY = "/opt/venv/bin/python"
NPROC = os.cpu_count() or 4
EXTS = ["cpp", "java", "python", "doc", "xml"]
JARS = REPO + "/3rdparty/java"


class BuildError(Exception):
    pass


def env(extra=None):
    e = {"PATH": "/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", "HOME": "/root",
         "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8", "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0",
         "JAVA_HOME": "/usr/lib/jvm/java-17-openjdk-amd64", "TZ": "UTC"}
    if extra:
        e.update(extra)
    return e


def sh(args, cwd=None, timeout=600, **kw):
    p = subprocess.run(args, cwd=cwd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                       **kw)
    if p.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(args)[:400], p.stdout.decode("utf-8", "replace")[-4000:]))
    return p.stdout


def hash_tree(*paths):
    h = hashlib.sha256()
    for path in paths:
        files = []
        if os.path.isfile(path):
            files = [path]
        else:
            for root, dirs, names in os.walk(path):
                dirs.sort()
                if "__pycache__" in root:
                    continue
                files += [os.path.join(root, n) for n in sorted(names) if not n.endswith(".pyc")]
        for f in sorted(files):
            h.update(f.encode())
            with open(f, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:24]


def _cached(kind, key, builder):
    os.makedirs(CACHE, exist_ok=True)
    out = os.path.join(CACHE, kind + "-" + key)
    ok = os.path.join(out, ".ok")
    if os.path.exists(ok):
        try:
            os.utime(ok)
        except OSError:
            pass
        return out
    with open(os.path.join(CACHE, kind + "-" + key + ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(ok):
            return out
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        builder(out)
        with open(ok, "w") as f:
            f.write("ok\n")
    _prune(kind)
    return out


def _prune(kind, keep=6, young=3 * 3600):
    dirs = [d for d in glob.glob(os.path.join(CACHE, kind + "-*")) if os.path.isdir(d)]
    def t(d):
        try:
            return os.path.getmtime(d + "/.ok")
        except OSError:
            return time.time()
    dirs.sort(key=t, reverse=True)
    for d in dirs[keep:]:
        if time.time() - t(d) < young:
            continue            # may be in use by another check
        shutil.rmtree(d, ignore_errors=True)


def _javas(*dirs):
    r = []
    for d in dirs:
        for root, ds, names in os.walk(d):
            r += [os.path.join(root, n) for n in names if n.endswith(".java")]
    return sorted(r)


def jarpath():
    return ":".join(sorted(glob.glob(JARS + "/*.jar")))


def _antlr(out):
    gen = out + "/zserio/antlr"
    os.makedirs(gen)
    antlr = glob.glob(JARS + "/antlr-*-complete.jar")[0]
    core = REPO + "/compiler/core/antlr"
    def run(g):
        sh(["java", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1", "-cp", antlr, "org.antlr.v4.Tool", g, "-no-listener", "-visitor",
            "-package", "zserio.antlr", "-Xexact-output-dir", "-lib", gen, "-o", gen], cwd=core)
    with ThreadPoolExecutor(2) as ex:
        doc = ex.submit(run, "DocComment.g4")
        run("ZserioLexer.g4")
        run("ZserioParser.g4")
        doc.result()


def _jar(out):
    antlr = _cached("antlr", hash_tree(REPO + "/compiler/core/antlr"), _antlr)
    classes = out + "/classes"
    os.makedirs(classes)
    srcs = _javas(antlr, REPO + "/compiler/core/src", *[EXT + "/%s/src" % e for e in EXTS])
    lst = out + "/srcs.txt"
    with open(lst, "w") as f:
        f.write("\n".join(srcs))
    sh(["javac", "-nowarn", "-encoding", "utf8", "-proc:none", "-d", classes, "-cp", jarpath(), "@" + lst])
    services = []
    for e in EXTS:
        d = classes + "/freemarker/" + e
        if os.path.isdir(EXT + "/%s/freemarker" % e):
            shutil.copytree(EXT + "/%s/freemarker" % e, d)
        sfile = EXT + "/%s/metainf/services/zserio.tools.Extension" % e
        services.append(open(sfile).read().strip())
    shutil.copytree(EXT + "/doc/runtime", classes + "/zserio/extension/doc/runtime", dirs_exist_ok=True)
    os.makedirs(classes + "/META-INF/services")
    with open(classes + "/META-INF/services/zserio.tools.Extension", "w") as f:
        f.write("\n".join(services) + "\n")
    sh(["jar", "cf0", out + "/zserio.jar", "-C", classes, "."])
    shutil.rmtree(classes)


def jar():
    """path of the compiler jar (core + all generators)"""
    key = hash_tree(REPO + "/compiler/core/antlr", REPO + "/compiler/core/src", JARS,
                    *[EXT + "/%s/%s" % (e, d) for e in EXTS for d in ("src", "freemarker", "metainf")
                      if os.path.isdir(EXT + "/%s/%s" % (e, d))], EXT + "/doc/runtime")
    return _cached("jar", key, _jar) + "/zserio.jar"


def _jrt(out):
    classes = out + "/classes"
    os.makedirs(classes)
    src = EXT + "/java/runtime/src"
    lst = out + "/srcs.txt"
    with open(lst, "w") as f:
        f.write("\n".join(_javas(src)))
    sh(["javac", "-nowarn", "-encoding", "utf8", "-proc:none", "-d", classes, "@" + lst])
    sh(["jar", "cf0", out + "/zserio_runtime.jar", "-C", classes, "."])


def java_runtime():
    return _cached("jrt", hash_tree(EXT + "/java/runtime/src"), _jrt) + "/zserio_runtime.jar"


JDBC = "/opt/veriftools/tlapm/lib/tlapm/backends/Isabelle/contrib/sqlite-3.48.0.0/lib/sqlite-jdbc-3.48.0.0.jar"


def java_server():
    """class path of the persistent Java helper (compiler runner, javac, object driver)"""
    j = jar(); r = java_runtime()
    def b(out):
        sh(["javac", "-nowarn", "-encoding", "utf8", "-proc:none", "-d", out, "-cp", j + ":" + jarpath() + ":" + r]
           + _javas(JAVA_DIR))
    key = hashlib.sha256((hash_tree(JAVA_DIR) + j + r).encode()).hexdigest()[:24]
    d = _cached("jsrv", key, b)
    return d + ":" + j + ":" + jarpath() + ":" + r + (":" + JDBC if os.path.exists(JDBC) else "")


CXX_FLAGS = {
    "fast": ["-O0"],
    "san": ["-O0", "-g1", "-fsanitize=address,undefined", "-fno-sanitize=signed-integer-overflow,vptr,function", "-fno-sanitize-recover=all"],
}
CXX = "clang++"
CXX_STD = ["-std=c++11"]


def cpp_runtime(variant="fast"):
    """directory holding libzs.a for the variant"""
    flags = CXX_FLAGS[variant]
    def b(out):
        srcs = sorted(glob.glob(CPPRT + "/zserio/*.cpp") + glob.glob(CPPRT + "/zserio/pmr/*.cpp"))
        def cc(s):
            o = out + "/" + os.path.relpath(s, CPPRT).replace("/", "_") + ".o"
            sh([CXX, *CXX_STD, *flags, "-fPIC", "-I", CPPRT, "-c", s, "-o", o])
            return o
        with ThreadPoolExecutor(NPROC) as ex:
            objs = list(ex.map(cc, srcs))
        sh(["ar", "rcs", out + "/libzs.a", *objs])
    key = hashlib.sha256((hash_tree(CPPRT) + variant + repr(flags) + CXX).encode()).hexdigest()[:24]
    return _cached("cpprt", key, b)


def cpp_pch(variant="fast"):
    """precompiled driver header (returns the .pch path); includes the whole runtime"""
    flags = CXX_FLAGS[variant]
    def b(out):
        sh([CXX, *CXX_STD, *flags, "-fpch-validate-input-files-content", "-I", CPPRT, "-I", CPP_DIR, "-x", "c++-header", CPP_DIR + "/drv.h", "-o", out + "/drv.pch"])
    key = hashlib.sha256((hash_tree(CPPRT, CPP_DIR) + variant + repr(flags) + CXX + "content").encode()).hexdigest()[:24]
    return _cached("pch", key, b) + "/drv.pch"


def py_binding():
    """directory to put on sys.path that holds the zserio_cpp binding"""
    import sysconfig
    def b(out):
        import json
        info = subprocess.check_output([VENV_PY, "-c", "import pybind11,sysconfig,json;print(json.dumps([pybind11.get_include(),sysconfig.get_paths()['include'],sysconfig.get_config_var('EXT_SUFFIX')]))"], env=env())
        pb, inc, suf = json.loads(info)
        srcs = sorted(glob.glob(PYRT + "/zserio_cpp/*.cpp")) + sorted(glob.glob(CPPRT + "/zserio/*.cpp") + glob.glob(CPPRT + "/zserio/pmr/*.cpp"))
        def cc(s):
            o = out + "/" + s.replace("/", "_") + ".o"
            sh(["g++", "-std=c++17", "-O1", "-fPIC", "-fvisibility=hidden", "-I", CPPRT, "-I", PYRT + "/zserio_cpp", "-I", pb, "-I", inc, "-c", s, "-o", o])
            return o
        with ThreadPoolExecutor(NPROC) as ex:
            objs = list(ex.map(cc, srcs))
        sh(["g++", "-shared", "-o", out + "/zserio_cpp" + suf, *objs])
        for o in objs:
            os.unlink(o)
    key = hash_tree(CPPRT, PYRT + "/zserio_cpp")
    return _cached("pyb", key, b)


RT_DIR = os.path.join(os.path.dirname(LIBDIR), "rt")


def rt_java():
    """class path of the Java runtime driver"""
    r = java_runtime()
    def b(out):
        sh(["javac", "-nowarn", "-encoding", "utf8", "-proc:none", "-d", out, "-cp", r] + _javas(RT_DIR))
    d = _cached("rtj", hashlib.sha256((hash_tree(RT_DIR) + r).encode()).hexdigest()[:24], b)
    return d + ":" + r


def rt_cpp(variant="fast"):
    """C++ runtime driver"""
    flags = CXX_FLAGS[variant] if variant != "fast" else ["-O2"]
    lib = cpp_runtime(variant)
    def b(out):
        sh([CXX, *CXX_STD, *flags, "-w", "-I", CPPRT, RT_DIR + "/rtdrv.cpp", lib + "/libzs.a", "-o", out + "/rtdrv"])
    return _cached("rtc", hashlib.sha256((hash_tree(RT_DIR) + lib + repr(flags)).encode()).hexdigest()[:24], b) + "/rtdrv"


def rt_containers():
    """driver of the containers of the C++ runtime (address and undefined behaviour sanitizers)"""
    srcs = [CPPRT + "/zserio/CppRuntimeException.cpp"] + sorted(glob.glob(CPPRT + "/zserio/pmr/*.cpp"))
    flags = ["-std=c++17", "-g1", "-O0", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-w"]
    def b(out):
        sh([CXX, *flags, "-I", CPPRT, RT_DIR + "/containers.cpp", *srcs, "-o", out + "/containers"])
    return _cached("cont", hashlib.sha256((hash_tree(RT_DIR) + hash_tree(CPPRT) + repr(flags)).encode()).hexdigest()[:24], b) + "/containers"


def prepare(*what):
    """build several components concurrently; what: names of functions above"""
    fns = {"jar": jar, "jrt": java_runtime, "cpp": cpp_runtime, "san": lambda: cpp_runtime("san"),
           "pyb": py_binding, "pch": cpp_pch, "pchsan": lambda: cpp_pch("san")}
    with ThreadPoolExecutor(6) as ex:
        fs = {w: ex.submit(fns[w]) for w in what if w in fns}
        r = {w: f.result() for w, f in fs.items()}
    for w, fn in (("rtj", rt_java), ("rtc", rt_cpp), ("rtsan", lambda: rt_cpp("san"))):
        if w in what:
            r[w] = fn()
    if "cont" in what:
        r["cont"] = rt_containers()
    if "jsrv" in what:
        r["jsrv"] = java_server()
    return r


if __name__ == "__main__":
    t = time.time()
    print(prepare("jar", "jrt", "cpp", "san", "pyb", "pch", "pchsan", "jsrv"))
    print(time.time() - t)
