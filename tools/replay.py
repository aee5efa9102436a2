#!/usr/bin/env python3
"""Re-runs a .replay file natively (ASan+UBSan) against /repo's current headers."""
import os, subprocess, sys, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check, plan
f = sys.argv[1]
kv = dict(l.split(None, 1) for l in open(f) if l.startswith(("tu ", "entry ", "prop ")))
tu, entry = kv["tu"].strip(), kv["entry"].strip()
d = tempfile.mkdtemp(prefix="vpreplay-")
try:
    exe = os.path.join(d, "r")
    kind = "plain" if plan.TUS[tu].get("new_hook") else "san"
    subprocess.check_call(check.compile_cmd(tu, kind) + [os.path.join(check.VERIF, "harness", plan.TUS[tu]["src"]), os.path.join(check.VERIF, "rt", "vprt.cc"), "-o", exe, "-ldl", "-lpthread"])
    rc = subprocess.call([exe, f, entry])
finally:
    shutil.rmtree(d, ignore_errors=True)
print("exit", rc)
sys.exit(rc != 0)
