"""C25: the monitor in several builds and orders; the digests of the cases compared between them."""
import os, re, subprocess, sys
m = sys.modules.get("__main__")
if not hasattr(m, "plain_stage"):
    import check as m

# name, cargo arguments, target directory, directory in it, monitor arguments
BUILDS = [
    ("optimised with assertions", [], "dev", "debug", []),
    ("release, cases in reverse", ["--release"], "rel", "release", ["--reverse"]),
    ("release without the derive feature, 3 threads", ["--release", "--no-default-features"], "rel-nd", "release", ["--threads", "3", "--scale", "0.5"]),
    ("not optimised", ["--profile", "o0"], "o0", "o0", ["--scale", "0.12"]),
    ("not optimised without the derive feature, cases in reverse", ["--profile", "o0", "--no-default-features"], "o0-nd", "o0", ["--scale", "0.08", "--reverse"]),
]
PHASES = ["place", "shared", "typed", "written", "events", "large"]


def build():
    rs = m.parallel([lambda b=b: m.cargo_build(["--bin", "c25"] + b[1], b[2]) for b in BUILDS])
    for (code, out), b in zip(rs, BUILDS):
        if code != 0:
            print(out[-6000:])
            raise m.Inconclusive("the build '%s' of the monitor failed" % b[0])
    return [os.path.join(m.TARGET, b[2], b[3], "c25") for b in BUILDS]


def show(path, seed, tier, phase, idx):
    e = {"C25_SHOW": "1"}
    _, txt = m.sh([path, "--seed", str(seed), "--tier", tier, "--phase", phase, "--idx", str(idx)], extra=e)
    r = re.findall(r"digest (\w+) input (\S*)", txt)
    return r[-1] if r else ("none", "")


def builds_stage(run):
    paths = build()
    run.log("built the monitor %d ways" % len(BUILDS))
    os.makedirs(m.OUT, exist_ok=True)
    data = []
    for b, p in zip(BUILDS, paths):
        f = os.path.join(m.OUT, "c25-digests-%s" % b[2])
        m.run_monitor(run, "c25", p, b[0], run.seed, b[4] + ["--skip", "platform"], extra={"C25_DIGESTS": f})
        if run.violations:
            return
        d = {}
        for ph in PHASES:
            d[ph] = open(f + "." + ph, "rb").read()
            os.remove(f + "." + ph)
        data.append(d)
    compared = {}
    for k in range(1, len(BUILDS)):
        n = 0
        for ph in PHASES:
            a, c = data[0][ph], data[k][ph]
            l = min(len(a), len(c)) & ~7
            n += l // 8
            if a[:l] == c[:l]:
                continue
            bad = [i for i in range(0, l, 8) if a[i:i + 8] != c[i:i + 8]]
            for i in bad[:2]:
                x = show(paths[0], run.seed, run.tier, ph, i // 8)
                y = show(paths[k], run.seed, run.tier, ph, i // 8)
                run.violation("c25:builds:%s:%s" % (ph, x[1]), "%d outcomes differ between '%s' and '%s', as for input %s [%s case %d]%s" %
                              (len(bad), BUILDS[0][0], BUILDS[k][0], x[1], ph, i // 8, "" if x[0] != y[0] else " (only when run after other cases)"),
                              {"builds": [0, k], "seed": run.seed, "tier": run.tier, "phase": ph, "idx": i // 8})
        compared["%s / %s" % (BUILDS[0][0], BUILDS[k][0])] = n
        if run.violations:
            return
    run.details["outcomes compared between builds"] = compared
