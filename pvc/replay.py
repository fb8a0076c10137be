"""Replay of failed obligations on the real code: builds /repo's current pillowcore with ASan/UBSan and runs the
property's executable oracle (replay/<id>.cpp) over generated inputs. Only runs after an obligation failed."""
import os, subprocess, time, shutil
from concurrent.futures import ThreadPoolExecutor
from . import irbuild
from .irbuild import REPO, DEFS, INCS, workdir
HERE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "replay")
SAN = ["-fsanitize=address,undefined", "-fno-sanitize=vptr,alignment,null", "-fno-sanitize-recover=all", "-O1", "-g1", "-fno-omit-frame-pointer"]
LIB = ["HttpServer.cpp", "HttpsServer.cpp", "HttpHandler.cpp", "HttpConnection.cpp", "HttpHandlerSimpleRouter.cpp", "HttpHelpers.cpp",
       "HttpHandlerProxy.cpp", "HttpHeader.cpp", "HttpClient.cpp", "parser/parser.c", "parser/http_parser.c"]
HDR = ["HttpServer.h", "HttpsServer.h", "HttpHandler.h", "HttpConnection.h", "HttpHandlerSimpleRouter.h", "HttpHandlerProxy.h", "HttpClient.h"]
LINK = ["-lQt5Network", "-lQt5Core", "-lz", "-lpthread"]

def sh(cmd, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def build(prop):
    w = os.path.join(workdir(), "replay"); os.makedirs(w, exist_ok=True)
    errs = []
    flags = ["-std=c++11", "-w", "-fPIC"] + DEFS + INCS + ["-I" + w, "-I" + HERE]
    def cc(src, out, extra=()):
        p = sh(["g++", "-x", "c++", "-c"] + flags + list(extra) + SAN + ["-o", out, src])
        if p.returncode: errs.append(p.stdout[-2000:])
    jobs = []
    objs = []
    for h in HDR:
        m = os.path.join(w, "moc_" + h.replace(".h", ".cpp"))
        p = sh(["moc", "-DPILLOW_ZLIB", "-DPILLOWCORE_BUILD", "-DQT_NETWORK_LIB", "-o", m, os.path.join(REPO, "pillowcore", h)])
        if p.returncode: errs.append(p.stdout[-800:])
        # moc includes the header by relative path; make it absolute
        t = open(m).read().replace('#include "', '#include "') ; open(m, "w").write(t)
        o = m[:-4] + ".o"; objs.append(o); jobs.append((m, o, ["-I%s/pillowcore" % REPO]))
    for s in LIB:
        path = os.path.join(REPO, "pillowcore", s)
        for line in open(path, errors="replace"):
            line = line.strip()
            if line.startswith("#include") and line.endswith('.moc"'):
                moc = line.split('"')[1]; sh(["moc", "-DPILLOW_ZLIB", "-DPILLOWCORE_BUILD", "-o", os.path.join(w, moc), path])
        o = os.path.join(w, s.replace("/", "_") + ".o"); objs.append(o)
        jobs.append((path, o, ["-include", REPO + "/pillowcore/pch.h"]))
    d = os.path.join(w, prop.lower() + ".o"); jobs.insert(0, (os.path.join(HERE, prop.lower() + ".cpp"), d, ["-include", REPO + "/pillowcore/pch.h"]))
    src = open(os.path.join(HERE, prop.lower() + ".cpp")).read()
    if "Q_OBJECT" in src:
        sh(["moc", "-o", os.path.join(w, prop.lower() + ".moc"), os.path.join(HERE, prop.lower() + ".cpp")])
    with ThreadPoolExecutor(8) as tp: list(tp.map(lambda j: cc(*j), jobs))
    if errs: return None, "\n".join(errs)
    exe = os.path.join(w, prop.lower())
    p = sh(["g++"] + SAN + ["-o", exe, d] + objs + LINK)
    if p.returncode: return None, p.stdout[-2000:]
    return exe, None

def run(prop, seconds, seed="1"):
    """(status, text): status 'fail' with the failing input, 'pass', or 'error'"""
    if not os.path.exists(os.path.join(HERE, prop.lower() + ".cpp")): return "none", "no replay harness"
    t0 = time.time()
    exe, err = build(prop)
    if exe is None: return "error", err
    scratch = os.path.join(workdir(), "scratch"); os.makedirs(scratch, exist_ok=True)
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77:detect_stack_use_after_return=0", UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=77",
               QT_LOGGING_RULES="*=false", REPLAY_SECONDS=str(int(seconds)), REPLAY_SEED=seed, REPLAY_SCRATCH=scratch, HOME=scratch)
    try:
        p = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, cwd=scratch, timeout=seconds + 60)
    except subprocess.TimeoutExpired as e:
        out = (e.stdout or b"").decode("latin-1")
        return "fail", "the harness did not finish (hang)\n" + out[-3000:]
    out = p.stdout.decode("latin-1")
    if p.returncode == 0: return "pass", out[-1500:]
    return "fail", out[-12000:]
