#!/usr/bin/env python3
"""build.py <harness> : compile /verif/h/<harness>.cpp with the library from /repo into /verif/build/<harness>/check"""
import os, re, subprocess, sys
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("RPP_REPO", "/repo")
class Rejected(str): pass
def wraps():
    names = set(re.findall(r"^WRAP\([^,]*?, (\w+),", open(V + "/mc/ilv.cpp").read(), re.M)) | {"syscall"}
    return ["-Wl,--wrap=" + n for n in sorted(names)]
# instrument every access but link no sanitizer runtime: mc/ilv.cpp provides the entry points
TSAN = ["-O1", "-fsanitize=thread", "-mllvm", "-tsan-instrument-func-entry-exit=0"]
def build(h, flags, lib_flags=None, link=None, srcs=None, engine="mc"):
    out = os.path.join(os.environ.get("MC_OUT") or V, "build", h)
    os.makedirs(out, exist_ok=True)
    cxx = "clang++-18"
    base = ["-std=c++20", "-fno-exceptions", "-fno-rtti", "-g1", "-Wno-everything", "-I" + REPO, "-I" + V + "/mc"]
    jobs = []
    units = [(V + "/h/%s.cpp" % h, flags), (REPO + "/rpp/impl/unify.cpp", lib_flags or flags),
             (REPO + "/rpp/pos/unify.cpp", lib_flags or flags)]
    ilv = engine == "ilv"
    units.append((V + "/mc/mc.cpp", ["-O1"]))
    if ilv: units.append((V + "/mc/ilv.cpp", ["-O1"]))
    for s in srcs or []: units.append(s)
    objs = []
    for i, (src, fl) in enumerate(units):
        o = os.path.join(out, "%d.o" % i)
        objs.append(o)
        if os.path.exists(o): os.remove(o)
        log = open(o[:-2] + ".log", "w+b")
        jobs.append((i, src, log, subprocess.Popen([cxx] + base + fl + ["-c", src, "-o", o], stdout=log, stderr=log)))
    bad = []
    for i, src, log, p in jobs:
        p.wait()
        log.seek(0)
        text = log.read().decode(errors="replace")
        log.close()
        if p.returncode != 0:
            print("build of %s failed\n%s" % (src, text[:4000]), file=sys.stderr)
            bad.append((i, p.returncode, text))
    # the library compiles on its own, but a use of its interface that the property is about is rejected (a compiler that was
    # killed or ran out of memory says no "error:" about a source line)
    if len(bad) == 1 and bad[0][0] == 0 and bad[0][1] == 1 and re.search(r"^\S+:\d+:\d+: error:", bad[0][2], re.M): return Rejected(bad[0][2])
    if bad: return None
    exe = os.path.join(out, "check")
    if os.path.exists(exe): os.remove(exe)
    if ilv: flags, link = [], wraps() + ["-ldl"] + (link or [])
    r = subprocess.run([cxx] + flags + objs + ["-o", exe, "-lpthread"] + (link or []))
    return exe if r.returncode == 0 else None
