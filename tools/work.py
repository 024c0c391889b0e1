"""C05: instructions executed by each operation, as a function of the size of the input, counted by callgrind."""
import os, re, shutil, subprocess, tempfile, threading
import sys
m = sys.modules.get("__main__")
if not hasattr(m, "plain_stage"):
    import check as m

SHAPES = 42
BASES = {"quick": [512, 2048], "thorough": [256, 1024, 4096, 16384]}


def measure(path, k, n, tmp):
    d = os.path.join(tmp, "%d-%d" % (k, n))
    os.makedirs(d)
    p = subprocess.run(["valgrind", "--tool=callgrind", "--callgrind-out-file=%s/o.%%p" % d, path, str(k), str(n)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=m.env(), timeout=800)
    if p.returncode != 0:
        raise m.Inconclusive("callgrind of shape %d size %d ended with %d: %s" % (k, n, p.returncode, p.stderr.decode()[-500:]))
    nbytes = int(re.search(r"^bytes (\d+)", p.stdout.decode(), re.M).group(1))
    res = {}
    for f in os.listdir(d):
        t = open(os.path.join(d, f)).read()
        a = re.search(r"^desc: Trigger: Client Request: op=(.*)$", t, re.M)
        b = re.search(r"^(?:totals|summary): (\d+)", t, re.M)
        if a and b:
            res[a.group(1)] = int(b.group(1))
    shutil.rmtree(d)
    return nbytes, res


def work_stage(run):
    code, out = m.cargo_build(["--release", "--bin", "c05w"], "rel")
    if code:
        print(out[-4000:])
        raise m.Inconclusive("build of c05w failed")
    path = os.path.join(m.TARGET, "rel", "release", "c05w")
    names = re.findall(r'"([^"]*)"', re.search(r"NAMES[^=]*= \[(.*?)\];", open(os.path.join(m.HARNESS, "src/shapes.rs")).read(), re.S).group(1))
    bases = BASES[run.tier]
    jobs = [(k, n * f) for n in bases for k in range(SHAPES) for f in (1, 4, 16)]
    jobs.sort(key=lambda j: -j[1])
    jobs = list(dict.fromkeys(jobs))
    res, err = {}, []
    lock = threading.Lock()
    with tempfile.TemporaryDirectory(prefix="cboredwork") as tmp:
        def go():
            while True:
                with lock:
                    if not jobs or err:
                        return
                    k, n = jobs.pop(0)
                try:
                    r = measure(path, k, n, tmp)
                except Exception as e:  # noqa
                    err.append(e)
                    return
                with lock:
                    res[(k, n)] = r
        ts = [threading.Thread(target=go) for _ in range(8)]
        [t.start() for t in ts]
        [t.join() for t in ts]
    if err:
        raise err[0] if isinstance(err[0], m.Inconclusive) else m.Inconclusive("callgrind: %r" % err[0])
    worst, table = 0.0, {}
    for n in bases:
        for k in range(SHAPES):
            r = [res[(k, n * f)] for f in (1, 4, 16)]
            for op in r[0][1]:
                if not all(op in x[1] for x in r):
                    raise m.Inconclusive("no count for %s of %s" % (op, names[k]))
                i = [x[1][op] for x in r]
                run.evaluations += 3
                if i[2] > 20 * r[2][0]:
                    run.distinct += 1
                # instructions per additional byte, in the two steps: equal when linear, 4 times when quadratic.
                # Slack for memcpy and allocator thresholds: 25 instructions per byte
                m1 = max(i[1] - i[0], 0) / max(r[1][0] - r[0][0], 1)
                m2 = (i[2] - i[1]) / max(r[2][0] - r[1][0], 1)
                if m1 > 25:
                    worst = max(worst, m2 / m1)
                if m2 > 2.5 * m1 + 25:
                    run.violation("c05w:%s:%s" % (names[k].replace(" ", "-"), op.replace(" ", "-")),
                                  "operation '%s' on shape '%s' executes %s instructions for %s bytes: more than linear" % (op, names[k], i, [x[0] for x in r]),
                                  {"monitor": "c05w", "shape": k, "sizes": [n, 4 * n, 16 * n], "seed": run.seed})
                if n == bases[-1]:
                    table.setdefault(names[k], {})[op] = round(i[2] / r[2][0], 1)
    run.details["work"] = {"instructions per byte at the largest size": table, "worst growth of the instructions per byte when the size is multiplied by 4 (1 is linear, 4 quadratic)": round(worst, 3), "sizes": bases}
    run.samples.append("work: nested arrays, validate: %s instructions for n=%d,%d,%d" % ([res[(4, bases[-1] * f)][1].get("validate") for f in (1, 4, 16)], bases[-1], 4 * bases[-1], 16 * bases[-1]))
    run.log("work of %d operations counted, worst growth %.3f" % (run.evaluations, worst))
