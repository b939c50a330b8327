"""Builds the library from /repo's working tree plus a driver in one of several
instrumented flavours. Objects and programs are cached by the hash of everything
that goes into them (sources, all headers, flags), so nothing stale can be used."""
import zlib, hashlib, os, re, subprocess, sys, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VH_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")

QT_INC = ["-I/usr/include/x86_64-linux-gnu/qt5", "-I/usr/include/x86_64-linux-gnu/qt5/QtCore", "-DQT_CORE_LIB"]

COV = ["-fsanitize-coverage=trace-pc-guard"]
FLAVOURS = {
    # memory errors and undefined behaviour, delays injected at every edge
    "asan": dict(cxx="clang++",
                 inst=["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=function,vptr"],
                 lib=["-O1", "-fno-inline", "-fno-omit-frame-pointer"] + COV,
                 drv=["-O1", "-fno-inline", "-fno-omit-frame-pointer"] + COV,
                 link=["-fsanitize=address,undefined"], chaos=False),
    # data races, delays injected at every edge
    "tsan": dict(cxx="clang++",
                 inst=["-fsanitize=thread"],
                 lib=["-O1", "-fno-inline", "-fno-omit-frame-pointer"] + COV,
                 drv=["-O1", "-fno-inline", "-fno-omit-frame-pointer"] + COV,
                 link=["-fsanitize=thread"], chaos=False),
    # preemption at every shared access, spurious failures, fast
    "chaos": dict(cxx="g++", inst=[],
                  lib=["-O1", "-fsanitize=thread", "-Wno-tsan"],
                  drv=["-O1", "-fsanitize=thread", "-Wno-tsan"],
                  link=[], chaos=True),
    # as shipped
    "plain": dict(cxx="g++", inst=[], lib=["-O2"], drv=["-O2"], link=[], chaos=False),
}
COMMON = ["-g1", "-pthread", "-fvisibility=hidden", "-DXDISPATCH_MAKEDLL", "-w"]

FEATURES = ("BUILD_XDISPATCH2_BACKEND_NAIVE BUILD_XDISPATCH2_BACKEND_QT5 XDISPATCH2_HAVE_PRCTL "
            "XDISPATCH2_HAVE_SETPRIORITY XDISPATCH2_HAVE_SYSCONF XDISPATCH2_HAVE_SYSCONF_SC_NPROCESSORS_ONLN "
            "XDISPATCH2_HAVE_SOCKETPAIR XDISPATCH2_HAVE_DLSYM XDISPATCH2_HAVE_IMMINTRIN_H "
            "XDISPATCH2_BUILD_SHARED").split()


class BuildError(RuntimeError):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def sources(sub):
    d = os.path.join(REPO, sub)
    return sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith(".cpp"))


def headers():
    out = []
    for root in ("include", "src"):
        for d, _, files in os.walk(os.path.join(REPO, root)):
            if "libdispatch" in d:
                continue
            for f in files:
                if not f.endswith(".cpp"):
                    out.append(os.path.join(d, f))
    return sorted(out)


class Builder:
    def __init__(self, jobs=8):
        self.lock = threading.Lock()
        self.pool = ThreadPoolExecutor(jobs)
        os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
        os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
        self.rhash = sha(*[os.path.relpath(h, REPO).encode() + b":" + read(h) for h in headers()],
                         read(os.path.join(REPO, "config.h.in")))
        self.vhash = sha(*[read(os.path.join(VERIF, "drv", f)) for f in sorted(os.listdir(os.path.join(VERIF, "drv"))) if f.endswith(".h")])
        self.config()
        self.compiled = 0
        self.futures = {}

    def config(self):
        text = read(os.path.join(REPO, "config.h.in")).decode()

        def sub(m):
            name, rest = m.group(1), m.group(2)
            return f"#define {name}{rest}" if name in FEATURES else f"/* #undef {name} */"

        text = re.sub(r"^#\s*cmakedefine\s+(\w+)(.*)$", sub, text, flags=re.M)
        self.inc = os.path.join(BUILD, "inc-" + sha(text))
        path = os.path.join(self.inc, "xdispatch", "config.h")
        if not os.path.exists(path):
            os.makedirs(os.path.dirname(path), exist_ok=True)
            tmp = path + ".%d" % os.getpid()
            with open(tmp, "w") as f:
                f.write(text)
            os.replace(tmp, path)

    def run(self, cmd):
        p = subprocess.run(cmd, capture_output=True, text=True)
        if p.returncode != 0:
            raise BuildError(" ".join(cmd) + "\n" + p.stdout[-3000:] + p.stderr[-6000:])

    def obj(self, src, cxx, flags, extra=""):
        key = sha(read(src), os.path.relpath(src, REPO) if src.startswith(REPO) else os.path.basename(src),
                  cxx, flags, self.rhash, extra)
        out = os.path.join(BUILD, "obj", key + ".o")
        with self.lock:
            if key not in self.futures:
                if os.path.exists(out):
                    self.futures[key] = None
                else:
                    def go():
                        tmp = out + ".%d" % os.getpid()
                        self.run([cxx, *flags, "-c", src, "-o", tmp])
                        os.replace(tmp, out)
                        self.compiled += 1
                    self.futures[key] = self.pool.submit(go)
            return key, out, self.futures[key]

    def program(self, driver, flavour, qt=False):
        """returns (path, wait) of the linked driver"""
        fl = FLAVOURS[flavour]
        cxx = fl["cxx"]
        inc = ["-I" + self.inc, "-I" + os.path.join(REPO, "include")]
        base = [*COMMON, "-fPIC" if qt else "-fno-pie", *fl["inst"], *inc]
        objs = []
        for s in sources("src") + sources("src/naive"):
            objs.append(self.obj(s, cxx, ["-std=c++14", *base, *fl["lib"]]))
        if qt:
            for s in sources("src/qt5"):
                if os.path.basename(s).startswith("qt5_"):
                    objs.append(self.obj(s, cxx, ["-std=c++14", *base, *QT_INC, *fl["lib"]]))
            for f in sorted(os.listdir(os.path.join(REPO, "src/qt5"))):
                if f.endswith(".h") and b"Q_OBJECT" in read(os.path.join(REPO, "src/qt5", f)):
                    moc = os.path.join(BUILD, "moc_%s_%s_%08x.cpp" % (f[:-2], self.rhash, zlib.crc32(REPO.encode())))
                    if not os.path.exists(moc):
                        self.run(["moc", "-I" + os.path.join(REPO, "include"), "-I" + self.inc, "-p", os.path.join(REPO, "src/qt5"),
                                  os.path.join(REPO, "src/qt5", f), "-o", moc + ".tmp"])
                        os.replace(moc + ".tmp", moc)
                    objs.append(self.obj(moc, cxx, ["-std=c++14", *base, *QT_INC, "-I" + os.path.join(REPO, "src/qt5"), *fl["lib"]]))
        drv = os.path.join(VERIF, "drv")
        dinc = ["-I" + drv, "-include", "stdexcept", "-include", "memory"] + ([*QT_INC, "-DVH_QT"] if qt else [])
        objs.append(self.obj(os.path.join(drv, driver + ".cpp"), cxx, ["-std=c++17", *base, *dinc, *fl["drv"]], self.vhash))
        objs.append(self.obj(os.path.join(drv, "vh.cpp"), cxx, ["-std=c++17", *base, *dinc, "-O1"] + (["-DVH_NO_ALLOC_HOOK"] if flavour == "tsan" else []), self.vhash))
        rt = os.path.join(VERIF, "rt")
        objs.append(self.obj(os.path.join(rt, "delay.cpp"), cxx, ["-std=c++17", "-O2", "-g1", "-fno-pie"]))
        if fl["chaos"]:
            objs.append(self.obj(os.path.join(rt, "chaos.cpp"), cxx, ["-std=c++17", "-O2", "-g1", "-fno-pie", "-w"]))
        link = [cxx, "-no-pie", "-rdynamic", "-pthread", "-Wl,--no-as-needed", *fl["link"]]
        libs = ["-ldl", "-latomic"] + (["-lQt5Core"] if qt else [])
        key = sha(*[o[0] for o in objs], link, libs)
        exe = os.path.join(BUILD, "bin", f"{driver}-{flavour}{'-qt' if qt else ''}-{key}")

        def wait():
            if os.path.exists(exe):
                return exe
            for _, _, fut in objs:
                if fut is not None:
                    fut.result()
            tmp = exe + ".%d" % os.getpid()
            self.run([*link, *[o[1] for o in objs], *libs, "-o", tmp])
            os.replace(tmp, exe)
            return exe

        return wait

    def prune(self, keep_s=86400):
        import time
        now = time.time()
        for d in ("obj", "bin"):
            for f in os.scandir(os.path.join(BUILD, d)):
                if now - f.stat().st_mtime > keep_s:
                    os.unlink(f.path)
