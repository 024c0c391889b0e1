#!/usr/bin/env python3
"""Decide one property by monitoring executions: check.py <ID> [--tier quick|thorough] [--seed N]

Builds the monitor of the property from /repo's working tree, runs it in two builds of the
crate, writes evidence/<ID>.json, and prints VIOLATION / KNOWN-FINDING lines.
Exit: 0 held on what was observed, 1 violated, 2 could not decide."""
import json, os, re, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
HARNESS = os.path.join(VERIF, "harness")
OUT = os.path.join(VERIF, "out")
TARGET = os.path.join(VERIF, "target")


class Inconclusive(Exception):
    pass


class Run:
    """what a check has observed so far"""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.evaluations = 0
        self.distinct = 0
        self.samples = []
        self.details = {}
        self.violations = []  # (signature, message, replay dict)

    def violation(self, sig, msg, replay):
        self.violations.append((sig, msg, replay))

    def log(self, s):
        print("[%s %6.1fs] %s" % (self.prop, time.time() - self.t0, s), flush=True)


def env(extra=None):
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUST_BACKTRACE"] = "0"
    e.update(extra or {})
    return e


def sh(cmd, cwd=HARNESS, extra=None, timeout=None):
    p = subprocess.run(cmd, cwd=cwd, env=env(extra), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode("utf-8", "replace")


def cargo_build(args, target, cwd=HARNESS, extra=None, toolchain=None):
    cmd = ["cargo"] + (["+" + toolchain] if toolchain else []) + ["build", "--offline", "--target-dir", os.path.join(TARGET, target)] + args
    return sh(cmd, cwd=cwd, extra=extra)


def parallel(fs):
    res = [None] * len(fs)

    def go(i, f):
        try:
            res[i] = f()
        except Exception as e:  # noqa
            res[i] = e

    ts = [threading.Thread(target=go, args=(i, f)) for i, f in enumerate(fs)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    for r in res:
        if isinstance(r, Exception):
            raise r
    return res


PROFILES = [("checked", [], "dev", "debug"), ("plain", ["--release"], "rel", "release")]


def build_bin(run, name, package_dir=HARNESS, extra_args=()):
    """build a monitor in both profiles; returns {profile: path}"""
    rs = parallel([lambda a=a, t=t: cargo_build(["--bin", name] + a + list(extra_args), t, cwd=package_dir) for (_, a, t, _) in PROFILES])
    for (code, out), (p, _, _, _) in zip(rs, PROFILES):
        if code != 0:
            print(out[-6000:])
            raise Inconclusive("the %s build of monitor %s failed" % (p, name))
    run.log("built %s in both profiles" % name)
    return {p: os.path.join(TARGET, t, d, name) for (p, _, t, d) in PROFILES}


def run_monitor(run, name, path, profile, seed, args=(), timeout=None, extra=None, more=None):
    os.makedirs(OUT, exist_ok=True)
    out = os.path.join(OUT, "%s-%s-%s.json" % (run.prop, name, profile))
    if os.path.exists(out):
        os.remove(out)
    cmd = [path, "--seed", str(seed), "--tier", run.tier, "--out", out] + list(args)
    try:
        code, txt = sh(cmd, cwd=VERIF, timeout=timeout, extra=extra)
    except subprocess.TimeoutExpired:
        raise Inconclusive("monitor %s (%s) did not finish within %s s" % (name, profile, timeout))
    base = {"monitor": name, "profile": profile, "seed": seed, "tier": run.tier, "args": list(args)}
    base.update(more or {})
    m = re.search(r"^FATAL (\S+) value=(\d+) phase=(\d+) idx=(\d+)", txt, re.M)
    if m:
        what, val, phase, idx = m.group(1), m.group(2), int(m.group(3)), int(m.group(4))
        if phase == 0xFFFFFFFF:
            print(txt[-3000:])
            raise Inconclusive("fatal event %s outside of any case" % what)
        run.violation("%s:fatal:%s" % (name, what), "%s (%s) in phase %d case %d of the %s build" % (what, val, phase, idx, profile),
                      dict(base, phase=phase, idx=idx, message=what))
        return None
    if code not in (0, 1) or not os.path.exists(out):
        print(txt[-3000:])
        raise Inconclusive("monitor %s (%s) ended with %s" % (name, profile, code))
    d = json.load(open(out))
    for f in d["failures"]:
        run.violation("%s:%s:%s" % (name, f["phase"], f["input"]), "%s [%s case %s, %s build] input %s" % (f["msg"], f["phase"], f["idx"], profile, f["input"]),
                      dict(base, phase=f["phase"], idx=f["idx"], message=f["msg"], input=f["input"]))
    run.evaluations += d["evaluations"]
    run.distinct = max(run.distinct, d["distinct"])
    for s in d["samples"]:
        if len(run.samples) < 14 and s not in run.samples:
            run.samples.append(s)
    k, n = "%s/%s" % (name, profile), 1
    while k in run.details.setdefault("monitors", {}):
        n += 1
        k = "%s/%s/%d" % (name, profile, n)
    run.details["monitors"][k] = {"seed": seed, "phases": d["phases"], "observed": d["counters"]}
    run.log("%s/%s: %d evaluations, %d distinct non-trivial, %d failures" % (name, profile, d["evaluations"], d["distinct"], len(d["failures"])))
    return d


def plain_stage(name, plain_scale=1.0):
    """the standard stage: the monitor in both builds"""

    def stage(run):
        bins = build_bin(run, name)
        for i, (p, _, _, _) in enumerate(PROFILES):
            args = [] if i == 0 else ["--scale", str(plain_scale)]
            run_monitor(run, name, bins[p], p, run.seed + 7919 * i, args)

    return stage


def load_known():
    """lines 'known: property=<id> <signature> | <what fails>' ; 'fixed:' lines suppress nothing"""
    res = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) (\S+) \| (.*)", l.strip())
            if m:
                res.append(m.groups())
    return res


def finish(run, cfg):
    known = [k for k in load_known() if k[0] == run.prop]
    fresh, seen = [], []
    for sig, msg, rep in run.violations:
        hit = [k for k in known if k[1] == sig]
        if hit:
            if hit[0] not in seen:
                seen.append(hit[0])
        else:
            fresh.append((sig, msg, rep))
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (run.prop, k[2]))
    ev = {
        "property": run.prop,
        "tier": run.tier,
        "seed": run.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": run.evaluations,
            "distinct_nontrivial": run.distinct,
            "rule": cfg["rule"],
            "samples": run.samples,
            "observed": run.details,
        },
        "assumptions": cfg.get("assumptions", ["holds on the executions observed; the reference model in harness/src/refc.rs is right"]),
        "wall_s": round(time.time() - run.t0, 2),
        "violations": len(fresh),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", run.prop + ".json"), "w"), indent=1)
    if fresh:
        os.makedirs(os.path.join(OUT, "replay"), exist_ok=True)
        shown = set()
        n = 0
        for sig, msg, rep in fresh:
            if n >= 5:
                break
            n += 1
            path = os.path.join(OUT, "replay", "%s-%d.json" % (run.prop, n))
            json.dump(dict(rep, property=run.prop, what=msg), open(path, "w"), indent=1)
            print("  %s" % msg[:1500])
            print("VIOLATION property=%s replay=%s" % (run.prop, path))
        return 1
    if run.distinct < cfg.get("min_distinct", 100):
        print("inconclusive: only %d distinct non-trivial observations" % run.distinct)
        return 2
    print("held: property=%s evaluations=%d distinct=%d wall=%.1fs" % (run.prop, run.evaluations, run.distinct, time.time() - run.t0))
    return 0


def main():
    from props import PROPS

    a = sys.argv[1:]
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    i = 1
    while i < len(a):
        if a[i] == "--tier":
            tier = a[i + 1]
        elif a[i] == "--seed":
            seed = int(a[i + 1])
        i += 2
    cfg = PROPS[prop]
    run = Run(prop, tier, seed)
    try:
        for st in cfg["stages"]:
            st(run)
            if run.violations:
                break
        code = finish(run, cfg)
    except Inconclusive as e:
        if run.violations:
            code = finish(run, cfg)
        else:
            print("inconclusive: %s" % e)
            code = 2
    sys.exit(code)


if __name__ == "__main__":
    main()
