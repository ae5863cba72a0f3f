#!/usr/bin/env python3
"""plant.py ID: try the change left in the scratch copy /tmp/wt (git diff) as planted bug ID.
Needs /verif/seeded/ID/{demo.sh,meta.json,...}; writes patch.diff once tests and demo behave."""
import json, os, shutil, subprocess, sys
W = "/tmp/wt"
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="1.90.0", RUSTC_WRAPPER="", CARGO_INCREMENTAL="1",
           CARGO_PROFILE_DEV_DEBUG="line-tables-only")
def run(c, **k): return subprocess.run(c, cwd=W, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def build():
    p = run("cargo test --workspace --no-run --offline", shell=True)
    if p.returncode: print(p.stdout[-3000:]); sys.exit("does not build")
def demo(d):
    p = run(["bash", d + "/demo.sh"], timeout=300)
    return p.returncode, p.stdout[-1500:]
i = sys.argv[1]; d = "/verif/seeded/" + i
diff = run("git diff -- src", shell=True).stdout
if not diff.strip(): diff = open(d + "/patch.diff").read(); subprocess.run(["git", "-C", W, "apply", d + "/patch.diff"], check=True)
build()
t = run("cargo test --workspace --no-fail-fast --offline 2>&1 | grep '^test ' ", shell=True).stdout.splitlines()
base = json.load(open("/opt/vp/BASELINE.json"))
bad = [l for l in t if not l.endswith("ok") and "ignored" not in l]
print("tests: %d ok; not ok: %s" % (sum(l.endswith("ok") for l in t), bad))
rc, out = demo(d); print("demo on patched:", rc, out[-700:])
run("git checkout -- src", shell=True); build()
rc2, out2 = demo(d); print("demo on clean:", rc2, out2[-300:] if rc2 else "")
if rc and not rc2 and not bad:
    open(d + "/patch.diff", "w").write(diff); print("KEPT", i)
else: print("REJECTED", i); open("/tmp/%s.diff" % i, "w").write(diff)
