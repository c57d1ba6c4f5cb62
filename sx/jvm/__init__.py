"""Symbolic execution of the Java code under test: bytecode compiled from its current source."""
import os
import shutil
import subprocess
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
DRIVER = "drive.Drive"
JDK = "/usr/lib/jvm/java-17-openjdk-amd64"


def source_root():
    py = os.environ.get("SX_REPO_PY", "/repo/py")
    d = os.path.join(os.path.dirname(os.path.abspath(py)), "java")
    return d if os.path.isdir(d) else "/repo/java"


def classes_dir():
    return os.environ["SX_JAVA_DIR"]


def prepare():
    """Compiles the sources and unpacks the class library. -> directory (removed by clean())"""
    d = os.environ.get("SX_JAVA_DIR")
    if d:
        return d
    d = tempfile.mkdtemp(prefix="sxjava")
    os.environ["SX_JAVA_DIR"] = d
    p = subprocess.Popen(["jimage", "extract", "--dir", d + "/jdk", "--include",
                          "regex:/java.base/java/(util|lang|io)/[A-Z].*class,regex:/java.base/java/util/(stream|function)/.*,"
                          "regex:/java.base/java/lang/reflect/Array.class,regex:/java.base/java/nio/charset/[A-Z].*Charset.*,"
                          "regex:/java.base/java/lang/invoke/(MethodHandle|SerializedLambda).*,"
                          "regex:/java.base/java/util/zip/(De|In)flater.class,regex:/java.base/java/util/zip/DataFormat.*,"
                          "regex:/java.base/jdk/internal/util/[A-Z].*class", JDK + "/lib/modules"],
                         stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
    src = []
    for base in (os.path.join(source_root(), "core/src/main/java"), os.path.join(ROOT, "java")):
        for r, ds, fs in os.walk(base):
            src += [os.path.join(r, f) for f in fs if f.endswith(".java")]
    os.makedirs(d + "/classes")
    c = subprocess.run(["javac", "-source", "8", "-target", "8", "-nowarn", "-Xlint:none", "-encoding", "UTF-8", "-g:none", "-d", d + "/classes"] + sorted(src),
                       capture_output=True, text=True)
    err = p.communicate()[1]
    if c.returncode or p.returncode:
        clean(d)
        raise RuntimeError("the Java sources do not compile\n%s%s" % (c.stderr[-3000:], err if p.returncode else ""))
    return d


def clean(d=None):
    d = d or os.environ.get("SX_JAVA_DIR")
    os.environ.pop("SX_JAVA_DIR", None)
    if d and os.path.basename(d).startswith("sxjava"):
        shutil.rmtree(d, ignore_errors=True)
