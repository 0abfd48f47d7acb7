#!/usr/bin/env python3
"""mkpatch.py ID PROPERTY FILE NEEDS WHAT  <<< 'OLD\n====\nNEW' : write seeded/ID/patch.diff and meta.json from a text replacement"""
import json, os, subprocess, sys, shutil
i, prop, f, needs, what = sys.argv[1:6]
t = sys.stdin.read()
old, new = t.split("\n====\n")
new = new.rstrip("\n"); old = old.rstrip("\n")
subprocess.run("rm -rf /tmp/mkrepo; git clone -q /repo /tmp/mkrepo", shell=True, check=True)
p = "/tmp/mkrepo/" + f
s = open(p).read()
assert s.count(old) == 1, "%d matches in %s" % (s.count(old), f)
open(p, "w").write(s.replace(old, new))
d = subprocess.run(["git", "-C", "/tmp/mkrepo", "diff"], capture_output=True, text=True).stdout
open(p, "w").write(s)
sd = "/verif/seeded/" + i
os.makedirs(sd, exist_ok=True)
if os.path.exists(sd + "/patch.diff") and "--append" in sys.argv:
    d = open(sd + "/patch.diff").read() + d
open(sd + "/patch.diff", "w").write(d)
json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(sd + "/meta.json", "w"), indent=1)
if not os.path.exists(sd + "/demo.sh"): shutil.copy("/verif/tools/demo.sh", sd + "/demo.sh")
