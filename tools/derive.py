"""Monitors of derived types: generate types, build them with the derive of /repo, run the monitor on them."""
import json, os, re, shutil, sys
m = sys.modules.get("__main__")
if not hasattr(m, "plain_stage"):
    import check as m
import gendrv

DIR = os.path.join(m.OUT, "derive")


def generate(prop, seed, nrandom, fixed=True):
    name = "drv_" + prop
    d = os.path.join(DIR, prop)
    enums = {"c16": 0.25, "c17": 0.75}.get(prop, 0.5)
    types = gendrv.crate(d, name, m.HARNESS, prop, seed, nrandom, enums, fixed)
    shutil.copy(os.path.join(m.HARNESS, "Cargo.lock"), d)
    return name, d, types


def build(run, name, d):
    """{profile: path}, or the errors {module: message}"""
    rs = m.parallel([lambda a=a, t=t: m.cargo_build(["--bin", name, "--message-format=json"] + a, t, cwd=d) for (_, a, t, _) in m.PROFILES])
    bad, other = {}, []
    for code, out in rs:
        if code == 0:
            continue
        for l in out.splitlines():
            try:
                j = json.loads(l)
            except ValueError:
                continue
            e = j.get("message") or {}
            if j.get("reason") != "compiler-message" or e.get("level") != "error":
                continue
            mods = []

            def spans(x):
                for s in x.get("spans", []):
                    while s:
                        k = re.search(r"src/(t\d+)\.rs$", s.get("file_name", ""))
                        if k and j.get("target", {}).get("name") == name:
                            mods.append(k.group(1))
                        s = (s.get("expansion") or {}).get("span")
            spans(e)
            if mods:
                bad.setdefault(mods[0], e.get("message", "?"))
            elif e.get("spans"):
                other.append(e.get("rendered", "?"))
    if any(code != 0 for code, _ in rs) and not bad:
        print("\n".join(other)[-6000:] or rs[0][1][-3000:])
        raise m.Inconclusive("the build of %s failed" % name)
    return {p: os.path.join(m.TARGET, t, x, name) for (p, _, t, x) in m.PROFILES}, bad


def derive_stage(prop, quick=(1, 60), thorough=(10, 160)):
    def stage(run):
        crates, n = quick if run.tier == "quick" else thorough
        total = 0
        for c in range(crates):
            seed = run.seed * 1000 + c
            name, d, types = generate(prop, seed, n, fixed=c == 0)
            bins, bad = build(run, name, d)
            mine = [t for t in types if t.mod in bad and (prop not in ("c16", "c17") or t.record == (prop == "c16"))]
            if bad:
                if prop in ("c16", "c17") and mine:
                    for t in mine[:3]:
                        run.violation("%s:does-not-compile" % prop, "a supported %s does not compile: %s\n%s" % (t.what, bad[t.mod], t.src.split("pub use")[0]),
                                      {"derive": [seed, n, c == 0], "seed": run.seed, "module": t.mod})
                    return
                raise m.Inconclusive("generated types do not compile: %s" % bad)
            total += len(types)
            run.log("built %d derived types (seed %d) in both profiles" % (len(types), seed))
            for i, (p, _, _, _) in enumerate(m.PROFILES):
                m.run_monitor(run, name, bins[p], p, run.seed + 7919 * i + 31 * c, more={"derive": [seed, n, c == 0]})
            kinds = run.details.setdefault("types", {})
            for t in types:
                k = t.what.split(",")[0]
                kinds[k] = kinds.get(k, 0) + 1
            if run.violations:
                return
        run.details["derived types compiled"] = total
    return stage


def other_stage(prop, jobs, thorough_only=False, ntypes=30):
    """random types on a 32-bit machine (thorough: and on a big-endian one), interpreted"""
    import sanitize as sz

    def stage(run):
        if thorough_only and run.tier != "thorough":
            return
        quick = run.tier == "quick"
        seed = run.seed * 1000 + 500
        name = "drv_" + prop
        d = os.path.join(DIR, prop + "-other")
        types = gendrv.crate(d, name, m.HARNESS, prop, seed, ntypes, {"c16": 0.25, "c17": 0.75}.get(prop, 0.5), False)
        shutil.copy(os.path.join(m.HARNESS, "Cargo.lock"), d)
        targets = [sz.I686] if quick else [sz.I686, sz.S390X]
        flags = {"MIRIFLAGS": "-Zmiri-disable-isolation"}

        def cmd(t, args):
            return sz.miri_cmd(t, name, args, "miri-drv")

        for t in targets:
            code, out = m.sh(cmd(t, ["--cap", "0"]), cwd=d, extra=flags)
            if code == 0 and "RESULT" in out:
                continue
            mine = [x for x in types if re.search(r"src/%s\.rs:" % x.mod, out)]
            if mine and re.search(r"^error", out, re.M):
                msg = re.search(r"^error.*", out, re.M).group(0)
                run.violation("%s:does-not-compile:%s" % (prop, t), "a supported %s does not compile for %s: %s\n%s" % (mine[0].what, t, msg, mine[0].src.split("pub use")[0]),
                              {"derive-other": [seed, ntypes, t], "seed": run.seed, "module": mine[0].mod})
                return
            print(out[-4000:])
            raise m.Inconclusive("building %s for Miri (%s) failed" % (name, t))
        todo = [(t, p, n, run.seed + 13 * i + 1009 * r) for t in targets for i, (p, n) in enumerate(jobs) for r in range(1 if quick else 6)]
        import concurrent.futures as cf
        with cf.ThreadPoolExecutor(8) as ex:
            rs = list(ex.map(lambda j: m.sh(cmd(j[0], ["--seed", str(j[3]), "--tier", "quick", "--phase", j[1], "--cap", str(j[2]), "--threads", "1", "--trace"]), cwd=d, extra=flags), todo))
        ds = {}
        for j, (code, out) in zip(todo, rs):
            x = sz.result(run, "%s:%s" % (name, j[0]), "interpreted (%s)" % j[0], code, out, {"derive-other": [seed, ntypes] + list(j), "seed": run.seed, "tier": run.tier})
            if x is None:
                return
            ds.setdefault(j[0], []).append(x)
        for t in ds:
            sz.note(run, "Miri %s" % t, ds[t])
    return stage
