#!/usr/bin/env python3
"""Run one recorded violation again: replay.py <replay file>"""
import json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
d = json.load(open(sys.argv[1]))
print("property %s: %s" % (d["property"], d.get("what", "")))
if "builds" in d:
    import builds
    paths = builds.build()
    r = [builds.show(paths[k], d["seed"], d["tier"], d["phase"], d["idx"]) for k in d["builds"]]
    for k, x in zip(d["builds"], r):
        print("%s: digest %s input %s" % (builds.BUILDS[k][0], *x))
    sys.exit(1 if r[0][0] != r[1][0] else 0)
if "miri" in d:
    import sanitize
    t, b, phase, n, flags, seed = d["miri"]
    a = ["--seed", str(seed), "--tier", d["tier"], "--phase", phase] + (["--idx", d["case"][1]] if d.get("case") else ["--cap", str(n)])
    cmd = sanitize.miri_cmd(t, b, a)
    print(" ".join(cmd))
    sys.exit(subprocess.run(cmd, cwd=check.HARNESS, env=check.env({"MIRIFLAGS": "-Zmiri-disable-isolation -Zmiri-seed=%d %s" % (seed % 65536, flags)})).returncode)
if "derive-other" in d:
    import derive, gendrv, sanitize, shutil
    prop = d["property"].lower()
    seed, ntypes, t = d["derive-other"][:3]
    path = os.path.join(derive.DIR, prop + "-other")
    gendrv.crate(path, "drv_" + prop, check.HARNESS, prop, seed, ntypes, {"c16": 0.25, "c17": 0.75}.get(prop, 0.5), False)
    shutil.copy(os.path.join(check.HARNESS, "Cargo.lock"), path)
    a = ["--cap", "0"]
    if "idx" in d or d.get("case"):
        phase, seed = d["derive-other"][3], d["derive-other"][5]
        a = ["--seed", str(seed), "--tier", "quick", "--phase", phase, "--idx", str(d["idx"] if "idx" in d else d["case"][1])]
    cmd = sanitize.miri_cmd(t, "drv_" + prop, a, "miri-drv")
    print(" ".join(cmd))
    sys.exit(subprocess.run(cmd, cwd=path, env=check.env({"MIRIFLAGS": "-Zmiri-disable-isolation"})).returncode)
if "attack" in d:
    import attacks
    path = os.path.join(check.OUT, "attacks")
    os.makedirs(path, exist_ok=True)
    attacks.generate(path)
    cmd = ["cargo", "+nightly", "miri", "run", "--offline", "--target-dir", os.path.join(check.TARGET, "attacks"), "--bin", d["attack"]]
    print(d["source"], " ".join(cmd), sep="\n")
    sys.exit(subprocess.run(cmd, cwd=path, env=check.env({"MIRIFLAGS": "-Zmiri-disable-isolation -Zmiri-ignore-leaks"})).returncode)
if "sanitizer" in d:
    import sanitize
    kind, b, a = d["sanitizer"]
    cmd = [sanitize.instrumented(kind, b)] + a
    print(" ".join(cmd))
    sys.exit(subprocess.run(cmd, env=check.env()).returncode)
if d.get("monitor") == "c25" and "idx" in d:
    import builds
    paths = dict(zip([b[0] for b in builds.BUILDS], builds.build()))
    cmd = [paths[d["profile"]], "--seed", str(d["seed"]), "--tier", d["tier"], "--phase", str(d["phase"]), "--idx", str(d["idx"])]
    print(" ".join(cmd))
    sys.exit(subprocess.run(cmd).returncode)
if "monitor" not in d or "idx" not in d:
    print("this one is replayed by running the check again: python3 tools/check.py %s --seed %s" % (d["property"], d.get("seed", 1)))
    sys.exit(2)
run = check.Run(d["property"], d["tier"], d["seed"])
if d.get("derive"):
    import derive
    name, path, _ = derive.generate(d["property"].lower(), *d["derive"])
    bins, bad = derive.build(run, name, path)
    if bad:
        sys.exit("the types do not compile: %s" % bad)
else:
    bins = check.build_bin(run, d["monitor"], *([d["package"]] if d.get("package") else []))
cmd = [bins[d["profile"]], "--seed", str(d["seed"]), "--tier", d["tier"], "--phase", str(d["phase"]), "--idx", str(d["idx"])] + [a for a in d.get("args", []) if a not in ("--scale", "1.0")]
print(" ".join(cmd))
sys.exit(subprocess.run(cmd).returncode)
