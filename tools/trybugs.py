#!/usr/bin/env python3
"""trybugs.py [ID...]: runs each planted bug's check against a patched scratch copy of /repo."""
import json, os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(V + "/seeded"))
extra = [a[2:].split(",") for a in sys.argv[1:] if a.startswith("-p")]
for i in ids:
    d = "%s/seeded/%s" % (V, i)
    for prop in (extra[0] if extra else [json.load(open(d + "/meta.json"))["property"]]):
        w = "/tmp/trybugs"
        if os.path.exists(w + "/repo"): shutil.rmtree(w + "/repo")
        os.makedirs(w, exist_ok=True)
        subprocess.check_call(["git", "clone", "-q", "/repo", w + "/repo"])
        subprocess.check_call(["git", "-C", w + "/repo", "apply", d + "/patch.diff"])
        e = dict(os.environ, VC_REPO=w + "/repo", VC_TARGET=w + "/target", VC_OUT=w + "/out", VC_EVIDENCE=w + "/evidence")
        t = time.time()
        r = subprocess.run(["python3", V + "/tools/check.py", prop, "quick"], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        lines = r.stdout.strip().splitlines()
        ok = r.returncode == 1 and any(l.startswith("VIOLATION property=" + prop) for l in lines)
        print("%s %s %s exit=%d %.0fs %s" % (i, prop, "CAUGHT" if ok else "MISSED", r.returncode, time.time() - t, [l for l in lines if "engine:" in l][:1] if ok else "\n".join(lines[-6:])), flush=True)
