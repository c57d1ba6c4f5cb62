"""Calls into the Java code under test: symbolic on the machine of vm.py, concrete on a real one."""
import os
import subprocess
from .. import core
from ..seq import SymStr, SxByteArray, SymBytes, to_bytes
from . import classes_dir, DRIVER

_VM = None


class JavaError(Exception):
    """an exception that the Java code ended with"""
    def __init__(self, name):
        Exception.__init__(self, name)
        self.name = name

    def isa(self, *names):
        return self.name.split(".")[-1] in names


def vm():
    global _VM
    if _VM is None:
        from . import vm as V
        d = classes_dir()
        _VM = V.VM([d + "/classes", d + "/jdk/java.base"])
    return _VM


def signature(cf, name):
    keys = [k for k in cf.methods if k.startswith(name + "(")]
    if len(keys) != 1:
        raise core.EngineError("no driver method " + name)
    return keys[0]


class SymJava:
    def __init__(self):
        self.vm = vm()
        self.vm.reset()

    def __call__(self, name, *args):
        from . import vm as V
        from .classfile import split_desc
        m = self.vm
        cls = DRIVER.replace(".", "/")
        key = signature(m.cls(cls).cf, name)
        ds, ret = split_desc(key[len(name):])
        if len(ds) != len(args):
            raise core.EngineError("arguments of " + name)
        try:
            r = m.invoke(cls, key, *[self.to_java(d, a) for d, a in zip(ds, args)])
        except m.JX as e:
            if os.environ.get("SX_TRACE"):
                import traceback
                traceback.print_exc()
            raise JavaError(m.java_exception(e).jc.name.replace("/", ".")) from None
        finally:
            core.CTX.functions.update("java:" + s for s in m.sinks if not s.startswith("drive."))
        return self.from_java(ret, r)

    def to_java(self, d, a):
        from . import vm as V
        if d == "[B":
            return self.vm.bytes_array(a if isinstance(a, (bytes, SymBytes)) else to_bytes(a))
        if d == "[Ljava/lang/String;":
            return V.JArr(d, [self.copy(x) for x in a])
        if d.startswith("["):
            return V.JArr(d, list(a))
        if d == "Z":
            return 1 if a else 0
        return self.copy(a)

    @staticmethod
    def copy(x):
        # a string of its own: == on strings must not pass for equals
        return x[:1] + x[1:] if isinstance(x, str) and len(x) > 1 else x

    def from_java(self, d, r):
        if r is None or d == "V":
            return None
        if d == "[B":
            return self.vm.content(r)
        if d.startswith("["):
            return list(r.a)
        return r


def close_server(p):
    try:
        p.kill()
        p.wait()
    except Exception:
        pass


class RealJava:
    _server = None

    def server(self):
        s = RealJava._server
        if s is None or s[0] != os.getpid() or s[1].poll() is not None:
            p = subprocess.Popen(["java", "-Xshare:auto", "-XX:TieredStopAtLevel=1", "-XX:+UseSerialGC", "-Xmx1g", "-Xss4m", "-cp",
                                  classes_dir() + "/classes", "drive.Srv", DRIVER],
                                 stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
            s = RealJava._server = (os.getpid(), p)
        return s[1]

    def __call__(self, name, *args):
        from .classfile import ClassFile, split_desc
        with open(os.path.join(classes_dir(), "classes", DRIVER.replace(".", "/") + ".class"), "rb") as f:
            cf = ClassFile(f.read())
        ds, _ = split_desc(signature(cf, name)[len(name):])
        line = " ".join([name] + [self.arg(d, a) for d, a in zip(ds, args)]) + "\n"
        p = self.server()
        try:
            p.stdin.write(line.encode("ascii"))
            p.stdin.flush()
            r = p.stdout.readline().decode("ascii").rstrip("\n")
        except BaseException:
            # interrupted in the middle of an answer
            close_server(p)
            raise
        if not r:
            close_server(p)
            raise core.EngineError("no answer from Java")
        return self.result(r)

    @staticmethod
    def text(s):
        return "null" if s is None else s.encode("utf-16-be", "surrogatepass").hex()

    def arg(self, d, a):
        if d == "[B":
            return "b:" + bytes(a).hex()
        if d == "[Ljava/lang/String;":
            return "S:" + ",".join("_" + self.text(x) for x in a)
        if d == "[Z":
            raise core.EngineError("boolean arrays")
        if d.startswith("["):
            return d[1] + ":" + ",".join(repr(x) for x in a)
        if d == "Z":
            return "z:%d" % (1 if a else 0)
        if d in "IJD":
            return d.lower() + ":" + repr(a)
        return "s:" + self.text(a)

    @staticmethod
    def result(r):
        k, v = r[0], r[2:]
        parts = v.split(",")[:-1]
        if k == "n":
            return None
        if k == "i":
            return int(v)
        if k == "d":
            return float(v.replace("Infinity", "inf"))
        if k == "s":
            return bytes.fromhex(v).decode("utf-16-be", "surrogatepass")
        if k == "b":
            return bytes.fromhex(v)
        if k == "I":
            return [int(x) for x in parts]
        if k == "D":
            return [float(x.replace("Infinity", "inf")) for x in parts]
        if k == "S":
            return [None if x == "_null" else bytes.fromhex(x[1:]).decode("utf-16-be", "surrogatepass") for x in parts]
        raise JavaError(v)
