"""Monitors run by checkers of undefined behaviour: Miri, AddressSanitizer, ThreadSanitizer, memcheck."""
import os, re, shutil, subprocess, sys
m = sys.modules.get("__main__")
if not hasattr(m, "plain_stage"):
    import check as m

HOST = "x86_64-unknown-linux-gnu"
I686, S390X = "i686-unknown-linux-gnu", "s390x-unknown-linux-gnu"
# what each checker prints for what it found
BAD = re.compile(r"error: Undefined Behavior[^\n]*|error: memory leaked[^\n]*|error: the evaluated program (?:leaked|aborted|deadlocked)[^\n]*"
                 r"|ERROR: AddressSanitizer[^\n]*|ERROR: LeakSanitizer[^\n]*|WARNING: ThreadSanitizer[^\n]*|ThreadSanitizer: [A-Z][^\n]*"
                 r"|==\d+== (?:Invalid (?:read|write|free)|Conditional jump|Use of uninit|Syscall param|Mismatched free|Source and destination)[^\n]*|definitely lost: [1-9][^\n]*"
                 r"|unsafe precondition\(s\) violated[^\n]*")


def miri_cmd(target, bin_, args, cwd_target="miri"):
    return ["cargo", "+nightly", "miri", "run", "--offline", "--quiet", "--target", target, "--target-dir", os.path.join(m.TARGET, cwd_target), "--bin", bin_, "--"] + args


def miri_build(run, bin_, targets):
    for t in targets:
        code, out = m.sh(miri_cmd(t, bin_, ["--cap", "0"]), extra={"MIRIFLAGS": "-Zmiri-disable-isolation"})
        if code != 0 or "RESULT" not in out:
            hit = BAD.search(out)
            if hit:
                run.violation("miri:start", hit.group(0), {"seed": run.seed, "tier": run.tier})
                return
            print(out[-4000:])
            raise m.Inconclusive("building %s for Miri (%s) failed" % (bin_, t))
    run.log("built %s for Miri: %s" % (bin_, ", ".join(targets)))


def result(run, name, what, code, out, replay, expect_json=None):
    """read what a run printed; add the violations; the counters"""
    import json
    hit = BAD.search(out)
    case = re.findall(r"^case (\d+) (\d+)$", out, re.M)
    if hit:
        at = out[hit.start():hit.start() + 1500]
        where = re.search(r"(?:-->|at|in) [^\n]*(/repo/\S+|src/\S+\.rs:\d+)[^\n]*", at)
        run.violation("%s:%s" % (name, hit.group(0)[:80]), "%s: %s%s%s" % (what, hit.group(0), " " + where.group(0) if where else "", " in phase %s case %s" % case[-1] if case else ""),
                      dict(replay, case=list(case[-1]) if case else None, report=at))
        return None
    r = re.search(r"^RESULT (\{.*\})$", out, re.M)
    d = json.loads(r.group(1)) if r else (json.load(open(expect_json)) if expect_json and os.path.exists(expect_json) else None)
    if d and d["failures"]:
        for f in d["failures"][:3]:
            run.violation("%s:%s:%s" % (name, f["phase"], f["input"]), "%s: %s [%s case %s] input %s" % (what, f["msg"], f["phase"], f["idx"], f["input"]), dict(replay, phase=f["phase"], idx=f["idx"]))
        return None
    f = re.search(r"^FATAL (\S+) value=(\d+) phase=(\d+) idx=(\d+)", out, re.M)
    if f:
        run.violation("%s:fatal:%s" % (name, f.group(1)), "%s: fatal event %s in phase %s case %s" % (what, f.group(1), f.group(3), f.group(4)), dict(replay, phase=int(f.group(3)), idx=int(f.group(4))))
        return None
    if code != 0 or d is None:
        print(out[-3000:])
        raise m.Inconclusive("%s ended with %s" % (what, code))
    run.evaluations += d["evaluations"]
    run.distinct = max(run.distinct, d["distinct"])
    return d


def note(run, key, ds):
    """what was observed by several processes, added up"""
    tot = {}
    for d in ds:
        for k, v in d["counters"].items():
            tot[k] = max(tot.get(k, 0), v) if k.startswith("max ") else tot.get(k, 0) + v
    run.details.setdefault("checkers", {})[key] = {"processes": len(ds), "evaluations": sum(d["evaluations"] for d in ds), "observed": tot}
    for d in ds[:1]:
        run.samples.extend(s for s in d["samples"][:4] if len(run.samples) < 14)
    run.log("%s: %d evaluations in %d processes" % (key, sum(d["evaluations"] for d in ds), len(ds)))


def miri_stage(bin_, jobs, targets=(HOST,), thorough=12):
    """jobs: (phase, cases, miri flags); each a process"""

    def stage(run):
        miri_build(run, bin_, targets)
        if run.violations:
            return
        todo = []
        for t in targets:
            for i, (phase, n, flags) in enumerate(jobs):
                reps = 1 if run.tier == "quick" else thorough
                for r in range(reps):
                    todo.append((t, phase, n, flags, run.seed + 101 * i + 10007 * r))
        outs = {}

        def one(j):
            t, phase, n, flags, seed = j
            args = ["--seed", str(seed), "--tier", run.tier, "--phase", phase, "--cap", str(n), "--threads", "1", "--trace"]
            return m.sh(miri_cmd(t, bin_, args), extra={"MIRIFLAGS": "-Zmiri-disable-isolation -Zmiri-seed=%d %s" % (seed % 65536, flags)})

        import concurrent.futures as cf
        with cf.ThreadPoolExecutor(8) as ex:
            for j, (code, out) in zip(todo, ex.map(one, todo)):
                t, phase, n, flags, seed = j
                d = result(run, "%s:miri" % bin_, "Miri (%s)" % t, code, out, {"miri": [t, bin_, phase, n, flags, seed], "seed": run.seed, "tier": run.tier})
                if d is None:
                    return
                outs.setdefault(t, []).append(d)
        for t, ds in outs.items():
            note(run, "Miri %s" % t, ds)
    return stage


def instrumented(kind, bin_):
    """cargo arguments and environment of a build with a sanitizer"""
    flags = {"asan": "-Zsanitizer=address", "tsan": "-Zsanitizer=thread"}[kind]
    args = (["-Zbuild-std"] if kind == "tsan" else []) + ["--target", HOST, "--bin", bin_]
    code, out = m.cargo_build(args, kind, extra={"RUSTFLAGS": flags + " -Cdebuginfo=1"}, toolchain="nightly")
    if code:
        print(out[-4000:])
        raise m.Inconclusive("the %s build of %s failed" % (kind, bin_))
    return os.path.join(m.TARGET, kind, HOST, "debug", bin_)


def sanitizer_stage(kind, bin_, args, name):
    def stage(run):
        path = instrumented(kind, bin_)
        e = {"ASAN_OPTIONS": "detect_leaks=1:detect_stack_use_after_return=1:halt_on_error=1:allow_user_segv_handler=0:handle_segv=1:handle_abort=1", "TSAN_OPTIONS": "halt_on_error=1:exitcode=66"}
        seed = run.seed + (17 if kind == "asan" else 29)
        cmd = [path, "--seed", str(seed), "--tier", run.tier, "--no-signals"] + args
        code, out = m.sh(cmd, cwd=m.VERIF, extra=e)
        d = result(run, "%s:%s" % (bin_, kind), name, code, out, {"sanitizer": [kind, bin_, cmd[1:]], "seed": run.seed, "tier": run.tier})
        if d:
            note(run, name, [d])
    return stage


def memcheck_stage(bin_, jobs):
    """the release build of the monitor in valgrind's memcheck"""

    def stage(run):
        path = os.path.join(m.TARGET, "rel", "release", bin_)
        if not os.path.exists(path):
            code, out = m.cargo_build(["--release", "--bin", bin_], "rel")
            if code:
                raise m.Inconclusive("build of %s failed" % bin_)

        def one(j):
            phase, cap, skip = j
            n = cap * (1 if run.tier == "quick" else 10)
            args = ["--seed", str(run.seed + 41), "--tier", run.tier, "--threads", "1", "--cap", str(n), "--phase", phase, "--no-signals", "--trace"]
            return args, m.sh(["valgrind", "--error-exitcode=99", "--leak-check=full", "--errors-for-leak-kinds=definite", "--fair-sched=yes", path] + args, cwd=m.VERIF)

        ds = []
        for j, (args, (code, out)) in zip(jobs, m.parallel([lambda j=j: one(j) for j in jobs])):
            d = result(run, "%s:memcheck" % bin_, "memcheck", 0 if code == 99 and not BAD.search(out) else code, out, {"memcheck": [bin_, args], "seed": run.seed, "tier": run.tier})
            if d is None:
                return
            ds.append(d)
        note(run, "memcheck", ds)
    return stage


def platform_stage(bin_="c25", quick=90, thorough=1200):
    """the same cases natively and interpreted as 32-bit and as big-endian: the digests compared"""

    def stage(run):
        miri_build(run, bin_, (I686, S390X))
        if run.violations:
            return
        path = os.path.join(m.TARGET, "rel", "release", bin_)
        n = quick if run.tier == "quick" else thorough
        jobs = [(t, run.seed + 50 + k) for k in range(4) for t in (I686, S390X)]

        def args(seed, idx=None):
            a = ["--seed", str(seed), "--tier", "quick", "--phase", "platform", "--threads", "1", "--cap", str(n)]
            return a + (["--idx", str(idx)] if idx is not None else [])

        def digests(out):
            return {int(a): (b, c) for a, b, c in re.findall(r"^digest (\d+) (\w+) (\w*)$", out, re.M)}

        def one(j):
            t, seed = j
            a = m.sh([path] + args(seed), extra={"C25_PRINT": "1"})
            b = m.sh(miri_cmd(t, bin_, args(seed)), extra={"C25_PRINT": "1", "MIRIFLAGS": "-Zmiri-disable-isolation"})
            return a, b

        compared = {}
        for (t, seed), (a, b) in zip(jobs, m.parallel([lambda j=j: one(j) for j in jobs])):
            rep = {"platform": [t, seed, n], "seed": run.seed, "tier": run.tier}
            for what, (code, out) in (("native", a), ("interpreted (%s)" % t, b)):
                if result(run, "c25:platform", what, code, out, rep) is None:
                    return
            x, y = digests(a[1]), digests(b[1])
            if not x or x.keys() != y.keys():
                raise m.Inconclusive("the cases run on %s are not those run natively" % t)
            bad = [i for i in sorted(x) if x[i] != y[i]]
            for i in bad[:2]:
                run.violation("c25:platform:%s:%s" % (t, x[i][1]), "%d of %d outcomes differ between the host and %s, as for input %s [platform case %d]" % (len(bad), len(x), t, x[i][1], i), dict(rep, idx=i))
            compared[t] = compared.get(t, 0) + len(x)
            if run.violations:
                return
        run.details["outcomes compared with other platforms (interpreted)"] = compared
        run.log("compared with other platforms: %s" % compared)
    return stage


# cases of each monitor that are small enough to be interpreted: phase, number
OTHERS = {
    "c01": [("random", 20)], "c02": [("hostile", 60), ("concat", 20), ("damage", 40)], "c03": [("good", 12), ("damage", 30), ("hostile", 40)],
    "c04": [("hostile", 40), ("types", 25), ("scripts", 25), ("lengths", 30)], "c05": [("claims", 20), ("near", 25)],
    "c07": [("leads", 40), ("items", 30), ("natives", 40)], "c08": [("items", 12), ("follow", 60), ("parts", 25)],
    "c09": [("trees", 2), ("strings", 15), ("huge", 40)], "c10": [("random", 80)], "c11": [("halves", 60), ("integers", 60), ("singles", 60), ("doubles", 60)],
    "c12": [("limits", 80), ("natives", 50), ("near", 60), ("fixed", 30)], "c13": [("scripts", 25), ("vectors", 6)], "c14": [("near", 30), ("odd", 30)],
    "c15": [("structured", 30), ("near", 40), ("made", 20)], "c19": [("random", 100)], "c20": [("near", 30), ("odd", 40)],
    "c21": [("split", 5), ("long", 15)], "c22": [("built", 12), ("trees", 6)], "c23": [("trees", 8), ("strings", 10)],
}


def others_stage(bin_):
    """thorough: the monitor on a 32-bit and on a big-endian machine, interpreted"""
    st = miri_stage(bin_, [(p, n, "") for p, n in OTHERS[bin_]], (I686, S390X), 4)
    return lambda run: st(run) if run.tier == "thorough" else None
