#!/usr/bin/env python3
"""mkseed.py ID [variant]: put the framework copy and demo.sh into seeded/ID
(demo.cpp, patch.diff and meta.json are written by hand)."""
import os, shutil, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = os.path.join(V, "seeded", sys.argv[1])
variant = sys.argv[2] if len(sys.argv) > 2 else "plain"
fw = os.path.join(d, "fw")
if os.path.isdir(fw):
    shutil.rmtree(fw)
os.makedirs(os.path.join(fw, "tools"))
os.makedirs(os.path.join(fw, "checks"))
shutil.copytree(os.path.join(V, "shim"), os.path.join(fw, "shim"))
shutil.copytree(os.path.join(V, "rt"), os.path.join(fw, "rt"))
shutil.copy(os.path.join(V, "tools", "build.py"), os.path.join(fw, "tools"))
for f in os.listdir(os.path.join(V, "checks")):
    if f.endswith(".h"):
        shutil.copy(os.path.join(V, "checks", f), os.path.join(fw, "checks"))
shutil.copy(os.path.join(d, "demo.cpp"), os.path.join(fw, "checks", "demo.cpp"))
t = open(os.path.join(V, "tools", "seedlib", "demo.sh")).read().replace("@VARIANT@", variant).replace("@ARGS@", "")
open(os.path.join(d, "demo.sh"), "w").write(t)
os.chmod(os.path.join(d, "demo.sh"), 0o755)
