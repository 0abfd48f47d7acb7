#!/usr/bin/env python3
"""check.py <property> [--replay FILE | --only SCENARIO ...]: build from /repo and run one check."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
import build, checks
def main():
    pid = sys.argv[1]
    spec = checks.CHECKS[pid]
    rc, parts = 0, []
    for part in spec:
        exe = build.build(part["h"], part["flags"], part.get("lib_flags"), part.get("link"), part.get("srcs"), part.get("engine", "mc"))
        if not exe: return 2
        if isinstance(exe, build.Rejected):
            root = os.environ.get("MC_OUT") or V
            os.makedirs(root + "/out", exist_ok=True)
            path = "%s/out/%s-interface.txt" % (root, pid)
            open(path, "w").write(exe)
            print("the library compiles, but uses of its interface that the property is stated over no longer do:\n" + exe[:1500])
            print("VIOLATION property=%s replay=%s" % (pid, path), flush=True)
            return 1
        env = dict(os.environ)
        env.setdefault("VERIF_TIER", "quick")
        env["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=87:quarantine_size_mb=8:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_sigtrap=0:malloc_context_size=4"
        env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=88"
        alt = os.environ.get("MC_OUT")  # development only: where to build and report when checking a scratch copy
        scratch = os.path.join(alt or os.path.join(V, "build", part["h"]), "cwd")
        shutil.rmtree(scratch, ignore_errors=True)
        os.makedirs(scratch)
        root = alt or V
        ev = os.path.join(root, "build", part["h"], "evidence")
        r = subprocess.run([exe, "--out", root + "/out", "--evidence", ev, "--known", V + "/KNOWN_FINDINGS"] + sys.argv[2:], cwd=scratch, env=env)
        rc = rc or r.returncode
        try: parts.append(json.load(open("%s/%s.json" % (ev, pid))))
        except OSError: pass
        if rc: break
    if parts:
        e = parts[0]
        for p in parts[1:]:
            c, d = e["coverage"], p["coverage"]
            for k in ("states", "transitions", "traces_validated_against_impl", "oracle_checks"): c[k] += d[k]
            c["exhaustive"] = c["exhaustive"] and d["exhaustive"]
            if d["bounds"] not in c["bounds"]: c["bounds"] += "; " + d["bounds"]
            c["scenarios"] += d["scenarios"]
            c["samples"] += d["samples"]
            e["assumptions"] += [a for a in p["assumptions"] if a not in e["assumptions"]]
            e["known_findings"] += p["known_findings"]
            e["wall_s"] += p["wall_s"]
            e["violations"] += p["violations"]
        os.makedirs(root + "/evidence", exist_ok=True)
        tmp = "%s/evidence/.%s.tmp" % (root, pid)
        json.dump(e, open(tmp, "w"), indent=1)
        os.replace(tmp, "%s/evidence/%s.json" % (root, pid))
    return rc
sys.exit(main())
