"""Compile the current /repo sources to LLVM IR (one module per source file)."""
import os, subprocess, tempfile, shutil, hashlib, atexit
REPO = os.environ.get("PVC_REPO", "/repo")
Q = "/usr/include/x86_64-linux-gnu/qt5"
DEFS = ["-D_REENTRANT", "-DPILLOW_ZLIB", "-DPILLOWCORE_BUILD", "-DQT_NO_DEBUG",
        "-DQT_NETWORK_LIB", "-DQT_SCRIPT_LIB", "-DQT_CORE_LIB"]
INCS = ["-I%s/pillowcore" % REPO, "-I" + Q, "-I%s/QtNetwork" % Q, "-I%s/QtScript" % Q, "-I%s/QtCore" % Q]
COMMON = ["-fPIC", "-O0", "-Xclang", "-disable-O0-optnone", "-gline-tables-only", "-w",
          "-fno-exceptions", "-fno-rtti", "-fno-threadsafe-statics"]
_work = None

class BuildError(Exception):
    pass

def workdir():
    global _work
    if _work is None:
        _work = tempfile.mkdtemp(prefix="pvc-")
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(_work, ignore_errors=True))
    return _work

def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
    if p.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), p.stderr[-3000:]))
    return p

def cxxflags(src):
    if src.endswith(".c"):
        lang = ["-x", "c++", "-std=c++11"]   # pillow.pro builds the C parsers with g++ too
    else:
        lang = ["-x", "c++", "-std=c++11"]
    return lang + DEFS + INCS + ["-include", REPO + "/pillowcore/pch.h"]

_cache = {}
def build_ir(src, passes="sroa,simplifycfg", extra=()):
    """src relative to pillowcore/ or absolute; returns (ll text, layout text)."""
    key = (src, passes, tuple(extra))
    if key in _cache:
        return _cache[key]
    w = workdir()
    path = src if os.path.isabs(src) else os.path.join(REPO, "pillowcore", src)
    base = os.path.basename(src).replace(".", "_") + hashlib.md5(repr(key).encode()).hexdigest()[:6]
    inc = ["-I" + w]
    txt = open(path, errors="replace").read()
    for line in txt.splitlines():
        line = line.strip()
        if line.startswith("#include") and line.endswith('.moc"'):
            moc = line.split('"')[1]
            run(["moc", "-DPILLOW_ZLIB", "-DPILLOWCORE_BUILD", "-o", os.path.join(w, moc), path])
    raw, opt = os.path.join(w, base + ".raw.ll"), os.path.join(w, base + ".ll")
    p = run(["clang-18"] + cxxflags(src) + inc + COMMON + list(extra) +
            ["-Xclang", "-fdump-record-layouts", "-S", "-emit-llvm", path, "-o", raw])
    layout = p.stdout
    run(["opt-18", "-S", "-passes=" + passes, raw, "-o", opt])
    out = (open(opt).read(), layout)
    os.unlink(raw); os.unlink(opt)
    _cache[key] = out
    return out
