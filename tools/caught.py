#!/usr/bin/env python3
"""caught.py [ID...]: run the check of each planted bug's property against it (in /repo, undone straight afterwards)."""
import json, os, subprocess, sys, time
V = "/verif"
ids = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
for i in ids:
    d = "%s/seeded/%s" % (V, i)
    prop = json.load(open(d + "/meta.json"))["property"]
    subprocess.run(["git", "-C", "/repo", "apply", d + "/patch.diff"], check=True)
    t = time.time()
    try:
        p = subprocess.run(["python3", "check.py", prop, "--tier", "quick"], cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)
        v = [l for l in p.stdout.splitlines() if l.startswith("VIOLATION")]
        print("%-18s %s rc=%d %-6s %4.0fs %s" % (i, prop, p.returncode, "caught" if p.returncode == 1 and v else "MISSED", time.time() - t, "" if v else p.stdout[-300:]), flush=True)
    except subprocess.TimeoutExpired:
        print(i, "TIMEOUT")
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."], check=True)
