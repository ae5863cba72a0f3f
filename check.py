#!/usr/bin/env python3
"""Run one check: check.py <PROPERTY> [--tier quick|thorough] [--only GROUP] [--keep-going]
or reproduce a violation: check.py --replay <replay.json>"""
import hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
TARGET = os.path.join(VERIF, "target")

def profile(prop):
    return "plain" if prop == "C35" else "release"
NOBODY = 65534
WORKERS = 8

def repo_hash():
    h = hashlib.sha256()
    for dp, dn, fn in sorted(os.walk("/repo")):
        dn[:] = sorted(d for d in dn if d not in ("target", ".git"))
        for n in sorted(fn):
            if n.endswith(".rs") or n.startswith("Cargo."):
                f = os.path.join(dp, n)
                h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
    return h.hexdigest()

def build(prof):
    env = dict(os.environ, CARGO_NET_OFFLINE="true")
    env.pop("RUSTFLAGS", None)
    chains = subprocess.run(["rustup", "toolchain", "list"], capture_output=True, text=True).stdout
    if "1.90.0" in chains:
        env["RUSTUP_TOOLCHAIN"] = "1.90.0"
    cmd = ["cargo", "build", "--profile", prof, "--offline", "--quiet", "--target-dir", TARGET]
    # do not rely on file times to notice that /repo changed since the last build
    stamp, now = os.path.join(TARGET, "repo-hash" if prof == "release" else "repo-hash-" + prof), repo_hash()
    if os.path.exists(os.path.join(TARGET, prof)) and (open(stamp).read() if os.path.exists(stamp) else "") != now:
        subprocess.run(["cargo", "clean", "--profile", prof, "--offline", "--quiet", "-p", "multipart", "--target-dir", TARGET],
                       cwd=os.path.join(VERIF, "mc"), env=env, capture_output=True)
    p = subprocess.run(cmd, cwd=os.path.join(VERIF, "mc"), env=env, capture_output=True, text=True)
    if p.returncode != 0:
        blocks = p.stderr.split("\n\n")
        sys.stderr.write("\n\n".join(b for b in blocks if b.lstrip().startswith("error"))[:4000] + "\n")
        print("ERROR: the harness does not build against /repo")
        sys.exit(2)
    with open(stamp, "w") as f:
        f.write(now)

def scratch_dir():
    # deep, so that a path escaping by a few levels stays inside
    name = "mpverif-%d-%d" % (os.getpid(), int(time.time() * 1000))
    base = "/tmp/" + name
    try:
        shm = os.statvfs("/dev/shm")
        if shm.f_bavail * shm.f_frsize > 4 << 30:
            os.mkdir("/dev/shm/" + name)
            base = "/dev/shm/" + name
    except OSError:
        pass
    d = os.path.join(base, "a", "b", "c", "d")
    os.makedirs(d)
    return base, d

def as_nobody():
    if os.geteuid() == 0:
        os.setgroups([])
        os.setgid(NOBODY)
        os.setuid(NOBODY)

def own(base):
    if os.geteuid() != 0:
        return
    for dp, dn, fn in os.walk(base):
        for n in [dp] + [os.path.join(dp, f) for f in fn]:
            os.chown(n, NOBODY, NOBODY)

def known_findings():
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l.strip())
            if m:
                out.append(m.groups())
    return out

def bin_copy(base, prop):
    # the scratch directory may be on a file system which does not allow execution
    d = "/tmp/" + os.path.basename(base) + "-bin"
    os.mkdir(d)
    b = os.path.join(d, "mc")
    shutil.copy2(os.path.join(TARGET, profile(prop), "mc"), b)
    os.chmod(b, 0o755)
    return b

def cleanup(base):
    if not base.startswith(("/tmp/mpverif-", "/dev/shm/mpverif-")):
        return
    for dp, dn, fn in os.walk(base):
        try:
            os.chmod(dp, 0o755)
        except OSError:
            pass
    shutil.rmtree(base, ignore_errors=True)
    shutil.rmtree("/tmp/" + os.path.basename(base) + "-bin", ignore_errors=True)

def worker_env(d):
    return {"PATH": "/usr/bin:/bin", "HOME": d, "TMPDIR": os.path.join(d, "tmp"), "MC_SCRATCH": d, "RUST_BACKTRACE": "0"}

def run(prop, tier, only, keep_going):
    t0 = time.time()
    build(profile(prop))
    t_build = time.time() - t0
    base, d = scratch_dir()
    try:
        return run_in(prop, tier, only, keep_going, base, d, t0, t_build)
    finally:
        cleanup(base)

def run_in(prop, tier, only, keep_going, base, d, t0, t_build):
    b = bin_copy(base, prop)
    shared = os.path.join(base, "shared")
    with open(shared, "wb") as f:
        f.write(b"\0" * 64)
    known = known_findings()
    args = [b, "--prop", prop, "--tier", tier, "--shared", shared]
    args += ["--soft", "420" if tier == "quick" else "7200"]
    args += ["--hang", "20" if tier == "quick" else "60"]
    for p, k, _ in known:
        args += ["--known", p + " " + k]
    if only:
        args += ["--only", only]
    if keep_going:
        args += ["--keep-going"]
    wds = []
    for i in range(WORKERS):
        wd = os.path.join(d, "w%d" % i, "x", "y", "z")
        os.makedirs(os.path.join(wd, "tmp"))
        wds.append(wd)
    own(base)
    procs = []
    for i, wd in enumerate(wds):
        procs.append(subprocess.Popen(args + ["--worker", str(i), "--out", os.path.join(wd, "out.jsonl")],
            cwd=wd, env=worker_env(wd), preexec_fn=as_nobody, start_new_session=True,
            stdin=subprocess.DEVNULL, stdout=open(os.path.join(wd, "stdout"), "wb"), stderr=open(os.path.join(wd, "stderr"), "wb")))
    rcs = [p.wait() for p in procs]
    viols, groups, samples = [], {}, []
    tot = dict(transitions=0, states=0)
    complete = True
    died = []
    planned = 0
    for i, (wd, rc) in enumerate(zip(wds, rcs)):
        fn = os.path.join(wd, "out.jsonl")
        summ = False
        for l in open(fn, errors="replace") if os.path.exists(fn) else []:
            r = json.loads(l)
            t = r.pop("type")
            if t == "violation":
                viols.append(r)
            elif t == "sample":
                samples.append(r)
            elif t == "group":
                g = groups.setdefault(r["group"], dict(executions=0, scenarios=0, planned=r["planned"], cpu_s=0.0))
                g["executions"] += r["executions"]; g["scenarios"] += r["scenarios"]; g["cpu_s"] = round(g["cpu_s"] + r["secs"], 2)
            elif t == "summary":
                summ = True
                complete &= r["complete"]
                tot["transitions"] += r["transitions"]; tot["states"] += r["states"]
                planned = r["total_scenarios"]
        if not summ:
            complete = False
            if rc != 3:
                died.append((i, rc, open(os.path.join(wd, "stderr"), errors="replace").read()[-2000:]))
    if died:
        # a worker killed by a signal (abort, stack overflow, out of memory) is a violation of
        # whatever it was executing, unless it ended by a harness error
        for i, rc, err in died:
            sys.stderr.write("worker %d ended with %s: %s\n" % (i, rc, err))
        if any(rc < 0 for _, rc, _ in died) and not viols:
            i, rc, err = died[0]
            viols.append(dict(property=prop, known=False, group="?", outer=0, choices=[], key="killed",
                              msg="the process was killed by signal %d: %s" % (-rc, err[-500:]), log=[]))
        elif not viols:
            print("ERROR: worker failed")
            return 2
    executions = sum(g["executions"] for g in groups.values())
    known_set = {(p, k) for p, k, _ in known}
    unknown = [v for v in viols if (prop, v["group"] + "/" + v["key"]) not in known_set]
    seen_known = {(v["group"] + "/" + v["key"]) for v in viols} & {k for p, k in known_set if p == prop}
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    samples.sort(key=lambda s: (s["group"], s["outer"]))
    wall = time.time() - t0
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="model_checking",
        coverage=dict(states=tot["states"], transitions=tot["transitions"], traces_validated_against_impl=executions,
            exhaustive=bool(complete and not unknown),
            scenarios=sum(g["scenarios"] for g in groups.values()), scenarios_planned=planned,
            groups=groups, samples=samples[:24],
            explanation="every execution runs the real code of /repo under one explored choice sequence and is compared, "
                        "operation by operation, with the reference model; states are distinct (scenario, model position) pairs, "
                        "transitions are operations performed"),
        assumptions=["single-threaded application code; the transport and output streams obey the contracts of Read and Write",
                     "bounds: see the groups and DESIGN.md"],
        wall_s=round(wall, 2), violations=len(unknown))
    with open(os.path.join(evdir, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for p, k, what in known:
        if p == prop:
            print("KNOWN-FINDING: property=%s %s%s" % (prop, what, "" if k in seen_known else " (not reached in this run)"))
    for n, g in sorted(groups.items()):
        print("  %-14s %9d executions, %7d/%d scenarios, %8.1f cpu s" % (n, g["executions"], g["scenarios"], g["planned"], g["cpu_s"]))
    print("%s %s: %d executions, %d transitions, %d states, complete=%s, build %.1f s, total %.1f s"
          % (prop, tier, executions, tot["transitions"], tot["states"], complete, t_build, wall))
    if not unknown:
        return 0
    done = set()
    n = 0
    for v in unknown:
        k = (v["group"], v["key"])
        if k in done:
            continue
        done.add(k)
        rp = os.path.join(evdir, "replay-%s-%d.json" % (prop, n))
        n += 1
        v["property"] = prop
        v["tier"] = tier
        v["how"] = "python3 check.py --replay " + rp
        with open(rp, "w") as f:
            json.dump(v, f, indent=1)
        print("  [%s/%s] outer %d choices %s: %s" % (v["group"], v["key"], v["outer"], v["choices"], v["msg"]))
        for l in v["log"][-12:]:
            print("      " + l)
        print("VIOLATION property=%s replay=%s" % (prop, rp))
    return 1

def replay(path):
    v = json.load(open(path))
    build(profile(v["property"]))
    base, d = scratch_dir()
    try:
        b = bin_copy(base, v["property"])
        os.makedirs(os.path.join(d, "tmp"))
        own(base)
        p = subprocess.run([b, "--prop", v["property"], "--tier", v["tier"], "--replay",
            "%s %d %s" % (v["group"], v["outer"], ",".join(map(str, v["choices"])))],
            cwd=d, env=worker_env(d), preexec_fn=as_nobody)
        return p.returncode
    finally:
        cleanup(base)

def main():
    a = sys.argv[1:]
    os.umask(0o022)
    if a and a[0] == "--replay":
        return replay(a[1])
    if a and a[0] == "--build":
        build("release")
        build("plain")
        return 0
    tier = os.environ.get("VERIF_TIER", "quick")
    only, keep = None, False
    prop = a.pop(0)
    while a:
        k = a.pop(0)
        if k == "--tier":
            tier = a.pop(0)
        elif k == "--only":
            only = a.pop(0)
        elif k == "--keep-going":
            keep = True
    return run(prop, "thorough" if tier == "thorough" else "quick", only, keep)

if __name__ == "__main__":
    sys.exit(main())
