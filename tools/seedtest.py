#!/usr/bin/env python3
"""seedtest.py ID... : confirm planted changes in a scratch copy (compiles, tests pass, demo passes without / fails with)
and run the property's check against that copy. Not part of any registered check."""
import json, os, shutil, subprocess, sys, time
V = "/verif"
def sh(cmd, cwd=None, env=None, timeout=900):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
def build(d):
    return sh("cmake -S . -B _build -G Ninja -DCMAKE_CXX_COMPILER=/usr/bin/clang++-18 -DCMAKE_BUILD_TYPE=RelWithDebInfo -DRPP_TEST=ON >/dev/null && ninja -C _build -j8", cwd=d)
def tests(d):
    return sh("ctest --test-dir _build -j1 --timeout 40", cwd=d)
def main():
    ids = sys.argv[1:]
    nocheck = "--nocheck" in ids
    ids = [i for i in ids if not i.startswith("--")] or sorted(os.listdir(V + "/seeded"))
    for i in ids:
        sd = V + "/seeded/" + i
        meta = json.load(open(sd + "/meta.json"))
        d = "/tmp/seed-" + i
        shutil.rmtree(d, ignore_errors=True)
        sh("git -C /repo worktree prune; cp -a /repo " + d)
        sh("git checkout -q -- . && git clean -fdq && rm -rf _build", cwd=d)
        demo = "/tmp/seeddemo-" + i
        shutil.rmtree(demo, ignore_errors=True)
        shutil.copytree(sd, demo, ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
        res = []
        try:
            r = build(d); assert r.returncode == 0, "base build: " + r.stdout[-2000:]
            r = sh("bash %s/demo.sh" % demo, cwd=d, timeout=300)
            res.append("demo-clean=%d" % r.returncode)
            if r.returncode: print(r.stdout[-3000:])
            r = sh("git apply %s/patch.diff" % sd, cwd=d); assert r.returncode == 0, "apply: " + r.stdout
            r = build(d); assert r.returncode == 0, "patched build: " + r.stdout[-2000:]
            r = tests(d); res.append("tests=%d" % r.returncode)
            if r.returncode: print(r.stdout[-1500:])
            sh("git checkout -q test; git clean -fdq test", cwd=d)
            t = time.time()
            r = sh("bash %s/demo.sh" % demo, cwd=d, timeout=300)
            res.append("demo-patched=%d (%.0fs)" % (r.returncode, time.time() - t))
            if not nocheck:
                env = dict(os.environ, RPP_REPO=d, VERIF_TIER="quick", VERIF_SEED="1", MC_OUT="/tmp/seedout-" + i)
                t = time.time()
                r = sh("python3 %s/check.py %s" % (V, meta["property"]), cwd=V, env=env)
                hit = "VIOLATION property=%s" % meta["property"] in r.stdout
                res.append("check=%d %s (%.0fs)" % (r.returncode, "CAUGHT" if hit and r.returncode == 1 else "MISSED", time.time() - t))
                if not hit: print(r.stdout[-1500:])
                else: res.append(r.stdout.split("VIOLATION")[0].strip().splitlines()[-1][:160] if r.stdout.split("VIOLATION")[0].strip() else "")
        except AssertionError as e:
            res.append(str(e))
        finally:
            for x in (d, demo, "/tmp/seedout-" + i): shutil.rmtree(x, ignore_errors=True)
        print(i, meta["property"], *res, flush=True)
main()
