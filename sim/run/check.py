#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: runs the simulations that decide a property.   check.py --replay FILE: repeats one."""
import collections, json, os, queue, re, shutil, subprocess, sys, tempfile, threading, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, plan
VERIF = build.VERIF
NP = max(1, os.cpu_count() or 1)
HANG = 90.0  # seconds without any progress of a worker


def parse(text):
    """reports of a worker's output file: list of dicts (complete runs), the seed it was in when it ended"""
    runs, cur, last, done = [], None, None, False
    for line in text.split("\n"):
        if line.startswith("START "):
            last = int(line[6:])
        elif line == "RUN":
            cur = {"faults": {}, "probes": {}, "viol": []}
        elif line.startswith("ENDRUN"):
            if cur is not None:
                cur["fatal"] = line != "ENDRUN"
                runs.append(cur)
                cur, last = None, None
        elif line == "DONE":
            done = True
        elif cur is not None:
            k, _, v = line.partition(" ")
            if k in ("fault", "probe"):
                n, _, c = v.rpartition(" ")
                cur[k + "s"][n] = int(c)
            elif k == "viol":
                o, _, m = v.partition(" ")
                cur["viol"].append((o, m))
            elif k == "clock":
                cur[k] = float(v)
            elif k:
                cur[k] = int(v) if v.lstrip("-").isdigit() else v
    return runs, last, done


def read(p):
    try:
        with open(p, errors="replace") as f:
            return f.read()
    except OSError:
        return ""


def worker(cmd, args, out, err, deadline=None):
    """runs a worker to its end; returns (returncode or 'hang' or 'time')"""
    env = dict(os.environ, LC_ALL="C", PYTHONHASHSEED="0")
    with open(err, "ab") as e:
        p = subprocess.Popen(cmd + args, stdout=e, stderr=e, stdin=subprocess.DEVNULL, env=env)
    size, t = -1, time.time()
    while True:
        try:
            return p.wait(timeout=0.5)
        except subprocess.TimeoutExpired:
            pass
        n = os.path.getsize(out) if os.path.exists(out) else 0
        if n != size:
            size, t = n, time.time()
        if time.time() - t > HANG:
            p.kill(); p.wait()
            return "hang"
        if deadline and time.time() > deadline:
            p.kill(); p.wait()
            return "time"


def crash_key(rc, err):
    if rc == "hang":
        return "progress:hang"
    m = re.findall(r"SIM-CRASH (\S+)", err)
    return "crash:" + (m[-1] if m else ("signal%d" % -rc if isinstance(rc, int) and rc < 0 else "exit%s" % rc))


def single(cmd, prop, cfg, what, value, d, verbose=False, hang=None):
    """one run in a fresh process: what='seed' or 'replay'. returns dict(report, key, hash, saved)"""
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    out, err = d + "/out", d + "/err"
    a = ["--prop", prop[1:].lstrip("0"), "--out", out, "--dir", d, "--cfg", cfg] + (["--verbose"] if verbose else [])
    a += ["--seeds", str(value), str(value + 1), "--always"] if what == "seed" else ["--replay", value]
    rc = worker(cmd, a, out, err)
    runs, last, done = parse(read(out))
    saved = d + ("/seed%d.replay" % value if what == "seed" else "/replayed.replay")
    r = {"saved": saved if os.path.exists(saved) else None, "err": read(err)}
    if runs:
        r.update(key=runs[0]["viol"][0][0] if runs[0]["viol"] else None, hash=runs[0].get("hash"), report=runs[0])
    else:
        r.update(key=crash_key(rc, r["err"]), hash=None, report={"viol": [(crash_key(rc, r["err"]), "the run ended with " + str(rc) + ": " + r["err"][-600:].replace("\n", " "))]})
    return r


class Replay:
    def __init__(self, path):
        self.head, self.streams = [], {}
        for line in read(path).split("\n"):
            w = line.split()
            if not w or w[0] == "#":
                continue
            if w[0] == "stream":
                self.streams[int(w[1])] = [int(x) for x in w[3:]]
            else:
                self.head.append(line)

    def write(self, path, streams):
        with open(path, "w") as f:
            f.write("\n".join(self.head) + "\n")
            for k in sorted(streams):
                s = streams[k]
                f.write("stream %d %d %s\n" % (k, len(s), " ".join(map(str, s))))


def minimise(cmd, prop, cfg, path, key, tmp, budget):
    """delta debugging on the choice streams; a run still counts when the same oracle is violated"""
    end = time.time() + budget
    r = Replay(path)
    best = {k: list(v) for k, v in r.streams.items()}
    tries = 0
    idx = [0]

    def attempt(cands):
        nonlocal best, tries
        res = [None] * len(cands)

        def go(i):
            d = tmp + "/m%d" % i
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            r.write(d + "/in", cands[i])
            x = single(cmd, prop, cfg, "replay", d + "/in", d + "/run")
            if x["key"] == key:
                res[i] = Replay(x["saved"]).streams if x["saved"] else cands[i]
        th = [threading.Thread(target=go, args=(i,)) for i in range(len(cands))]
        for t in th:
            t.start()
        for t in th:
            t.join()
        tries += len(cands)
        for i, x in enumerate(res):
            if x is not None:
                y = {k: list(v) for k, v in x.items()}
                for k in y:
                    while y[k] and y[k][-1] == 0:
                        y[k].pop()
                if cost(y) < cost(best):
                    best = y
                    return True
        return False

    def cost(s):
        return sum(len(v) for v in s.values()) * 4 + sum(1 for v in s.values() for x in v if x)

    order = [2, 1, 3, 0]
    while time.time() < end:
        before = cost(best)
        for k in order:
            n = len(best.get(k, []))
            size = n
            while size >= 1 and time.time() < end:
                pos, changed = 0, False
                while pos < len(best.get(k, [])) and time.time() < end:
                    cands = []
                    for j in range(NP // 2):
                        p = pos + j * size
                        if p >= len(best[k]):
                            break
                        z = {q: list(v) for q, v in best.items()}
                        if any(z[k][p:p + size]):
                            z[k][p:p + size] = [0] * len(z[k][p:p + size])
                            cands.append(z)
                        if size > 0:
                            z = {q: list(v) for q, v in best.items()}
                            del z[k][p:p + size]
                            cands.append(z)
                    if cands and attempt(cands):
                        changed = True
                        continue
                    pos += size * max(1, NP // 2)
                size //= 2
        if cost(best) >= before:
            break
    return best, r, tries


def known_findings():
    res = []
    for line in read(VERIF + "/known_findings.txt").split("\n"):
        m = re.match(r"known: property=(\S+) driver=(\S+) oracle=(\S+) match=(.*?) :: (.*)", line)
        if m:
            res.append(m.groups())
    return res


def is_known(prop, driver, oracle, msg):
    for p, d, o, rx, text in known_findings():
        if d == driver and o == oracle and re.search(rx, msg):
            return text
    return None


def main():
    t0 = time.time()
    if sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    base = int(os.environ.get("VERIF_SEED", "1"))
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    outdir = VERIF + "/out/" + prop
    shutil.rmtree(outdir, ignore_errors=True)
    os.makedirs(outdir)
    try:
        jobs = []
        for driver, nq, nt, chunk, cfg in plan.PLAN[prop]:
            jobs.append((driver, build.command(driver), nq if tier == "quick" else nt, chunk, cfg))
    except build.BuildError as e:
        print("BUILD-ERROR", e)
        return 2
    tb = time.time() - t0
    cap = time.time() + float(os.environ.get("SIM_CAP", plan.CAP[tier]))
    pn = prop[1:].lstrip("0")
    first = 1 + (base - 1) * 100000000
    agg = {j[0]: {"runs": 0, "steps": 0, "calls": 0, "switches": 0, "clock": 0.0, "tasks": 0, "faults": collections.Counter(), "probes": collections.Counter(), "sh": set(), "h": set(), "nontrivial": set(), "faulted": 0, "multi": 0, "wall": 0.0} for j in jobs}
    fails, knowns, errors = [], collections.OrderedDict(), []
    lock = threading.Lock()
    work = []
    for j in jobs:
        n = max(1, (j[2] + j[3] - 1) // j[3])
        for i in range(n):
            work.append((i / n, j, first + i * j[3], first + min((i + 1) * j[3], j[2])))
    work.sort(key=lambda x: (x[0], x[1][0]))
    q = queue.Queue()
    for i, w in enumerate(work):
        q.put((i,) + w[1:])
    stop = threading.Event()
    sample, mode = {}, []

    def note(driver, cmd, cfg, x):
        a = agg[driver]
        a["runs"] += 1
        for k in ("steps", "calls", "switches", "clock"):
            a[k] += x.get(k, 0)
        a["tasks"] += x.get("tasks", 1)
        a["multi"] += x.get("tasks", 1) > 1
        a["faults"].update(x["faults"])
        a["probes"].update({k: v for k, v in x["probes"].items()})
        a["sh"].add(x.get("shash"))
        if x["seed"] in (first, first + 7, first + 33) and not mode:
            sample[driver, x["seed"]] = x.get("hash")
        a["h"].add(x.get("hash"))
        if x.get("calls", 0) >= 10:
            a["nontrivial"].add(x.get("hash"))
        a["faulted"] += bool(x["faults"])
        new = []
        for o, m in x["viol"]:
            k = is_known(prop, driver, o, m)
            if k:
                knowns.setdefault((driver, k), x["seed"])
            else:
                new.append((o, m))
        if new:
            fails.append((x["seed"], driver, cmd, cfg, new[0][0], new[0][1]))
            stop.set()

    def thread(n):
        while not stop.is_set():
            try:
                i, (driver, cmd, _, _, cfg), a, b = q.get_nowait()
            except queue.Empty:
                return
            if time.time() > cap:
                return
            d = tempfile.mkdtemp(prefix="w", dir=outdir)
            while a < b and not stop.is_set():
                out, err = d + "/out", d + "/err"
                for p in (out, err):
                    if os.path.exists(p):
                        os.unlink(p)
                t = time.time()
                rc = worker(cmd, ["--prop", pn, "--seeds", str(a), str(b), "--out", out, "--dir", d, "--cfg", cfg] + mode, out, err, cap + 5)
                runs, last, done = parse(read(out))
                with lock:
                    agg[driver]["wall"] += time.time() - t
                    for x in runs:
                        note(driver, cmd, cfg, x)
                    if done or rc == "time":
                        break
                    if runs and runs[-1]["fatal"]:
                        a = runs[-1]["seed"] + 1
                        continue
                    if last is None:
                        errors.append("worker of %s ended with %s: %s" % (driver, rc, read(err)[-1500:]))
                        stop.set()
                        break
                    key = crash_key(rc, read(err))
                    msg = "the process ended with %s in this run: %s" % (rc, read(err)[-800:].replace("\n", " "))
                    k = is_known(prop, driver, key, msg)
                    if k:
                        knowns.setdefault((driver, k), last)
                    else:
                        fails.append((last, driver, cmd, cfg, key, msg))
                        stop.set()
                    a = last + 1
            shutil.rmtree(d, ignore_errors=True)

    t1 = time.time()

    def seek():
        th = [threading.Thread(target=thread, args=(i,)) for i in range(NP)]
        for t in th:
            t.start()
        for t in th:
            t.join()

    seek()
    search = time.time() - t1
    tmp = tempfile.mkdtemp(prefix="c", dir=outdir)
    # determinism of what was just run: some seeds again in fresh processes must give the same history
    det = same = 0
    if not fails and not errors:
        for j in jobs:
            for s in (first, first + 7, first + 33):
                x, y = (single(j[1], prop, j[4], "seed", s, tmp + "/d%d" % k) for k in (0, 1))
                if x["hash"] != y["hash"]:
                    errors.append("seed %d of %s is not deterministic" % (s, j[0]))
                if x["saved"]:
                    z = single(j[1], prop, j[4], "replay", x["saved"], tmp + "/d2")
                    if z["hash"] != x["hash"]:
                        errors.append("replaying seed %d of %s differs" % (s, j[0]))
                det += 1
                same += sample.get((j[0], s)) == x["hash"] # the run in a process that did others before
    rc, violation = 0, None
    while fails:
        fails.sort(key=lambda x: (x[1], x[0]))
        for seed, driver, cmd, cfg, key, msg in fails[:4]:
            a = single(cmd, prop, cfg, "seed", seed, tmp + "/a")
            b = single(cmd, prop, cfg, "seed", seed, tmp + "/b")
            keep = VERIF + "/out/%s-%s-seed%d.replay" % (prop, driver, seed)
            if a["key"] is None or a["key"] != b["key"] or a["hash"] != b["hash"] or not a["saved"]:
                errors.append("seed %d of %s reported %s (%s) but does not repeat: %s/%s" % (seed, driver, key, msg[:600], a["key"], b["key"]))
                continue
            key = a["key"]
            c = single(cmd, prop, cfg, "replay", a["saved"], tmp + "/c")
            if c["key"] != key or c["hash"] != a["hash"]:
                errors.append("seed %d of %s reported %s (%s) but its replay gives %s" % (seed, driver, key, msg[:600], c["key"]))
                continue
            best, r, tries = minimise(cmd, prop, cfg, a["saved"], key, tmp, 45 if tier == "quick" else 120)
            r.write(tmp + "/min", best)
            v = single(cmd, prop, cfg, "replay", tmp + "/min", tmp + "/v", verbose=True)
            w = single(cmd, prop, cfg, "replay", tmp + "/min", tmp + "/v2")
            src = tmp + "/min"
            if v["key"] != key or w["key"] != key or v["hash"] != w["hash"]:
                src, v = a["saved"], a
            text = read(src)
            trace = [l for l in read(v["saved"]).split("\n") if l.startswith("#")] if v["saved"] else []
            with open(keep, "w") as f:
                f.write("# simulation replay: property %s driver %s\nmeta %s %s %s\n" % (prop, driver, prop, driver, cfg))
                f.write(text if text.endswith("\n") else text + "\n")
                f.write("# violated: %s\n# choices left after minimisation: %s (%d runs)\n" % (key, {k: len(x) for k, x in best.items()}, tries))
                f.write("\n".join(trace) + "\n")
            print("violated oracle %s (driver %s, seed %d): %s" % (key, driver, seed, v["report"]["viol"][0][1][:1200]))
            print("VIOLATION property=%s replay=%s" % (prop, keep))
            violation = key
            rc = 1
            break
        if rc == 1 or mode:
            break
        # what failed depends on earlier runs of the worker's process: search again with a process for each run
        print("note: not repeated in fresh processes: " + "; ".join(errors)[:2000])
        mode.append("--fork")
        bad = {x[1] for x in fails}
        fails.clear()
        stop.clear()
        while not q.empty():
            q.get_nowait()
        for i, w in enumerate(work):
            if w[1][0] in bad:
                q.put((i,) + w[1:])
        cap = max(cap, time.time() + (150 if tier == "quick" else 900))
        seek()
    if errors and rc == 0:
        for e in errors:
            print("CHECK-ERROR", e)
        rc = 2
    for (driver, k), seed in knowns.items():
        print("KNOWN-FINDING: property=%s %s (driver %s, seed %s)" % (prop, k, driver, seed))
    write_evidence(prop, tier, base, agg, jobs, t0, tb, search, (det, same), len(fails), knowns)
    shutil.rmtree(tmp, ignore_errors=True)
    tot = sum(a["runs"] for a in agg.values())
    print("%s %s: %d runs (%s), build %.0fs, search %.0fs, %s" % (prop, tier, tot, ", ".join("%s %d" % (d, a["runs"]) for d, a in agg.items()), tb, search, "ok" if rc == 0 else "exit %d" % rc))
    return rc


def write_evidence(prop, tier, base, agg, jobs, t0, tb, search, det, nfail, knowns):
    runs = sum(a["runs"] for a in agg.values())
    per = {}
    for j in jobs:
        a = agg[j[0]]
        per[j[0]] = {
            "runs": a["runs"], "runs_per_hour": int(a["runs"] / max(search, 0.1) * 3600), "simulated_seconds": round(a["clock"], 1), "engine_calls": a["calls"], "scheduling_steps": a["steps"], "task_switches": a["switches"],
            "runs_with_more_than_one_task": a["multi"], "distinct_interleavings": len(a["sh"]), "distinct_histories": len(a["h"]), "runs_with_injected_faults": a["faulted"],
            "faults_injected": dict(sorted(a["faults"].items())), "rare_conditions_reached": dict(sorted(a["probes"].items())),
            "real_code": plan.REAL[j[0]], "stubs": plan.STUB[j[0]], "configuration": j[4]}
    first = 1 + (base - 1) * 100000000
    ev = {"property": prop, "tier": tier, "seed": base, "level": "exploration", "wall_s": round(time.time() - t0, 1), "violations": nfail,
          "coverage": {
              "evaluations": runs, "distinct_nontrivial": sum(len(a["nontrivial"]) for a in agg.values()),
              "rule": "one evaluation is one simulated execution of the binding against the simulated engine, made from one seed (workload, engine data, schedule, faults); non-trivial: at least 10 engine calls; distinct by the hash over the complete history of engine calls, callbacks, effects, results, task switches and faults. distinct_interleavings hashes only the order of engine calls, callbacks and task switches",
              "samples": [{"driver": j[0], "seed": first + k, "config": j[4], "reproduce": "python3 sim/run/check.py --seed %s %s %d" % (prop, j[0], first + k)} for j in jobs for k in (0, 1, 2)],
              "runs_per_hour": int(runs / max(search, 0.1) * 3600), "seeds_rerun_for_determinism": det[0], "of_these_equal_to_their_run_in_a_used_process": det[1], "build_s": round(tb, 1), "search_s": round(search, 1), "drivers": per,
              "known_findings_seen": [k for (_, k) in knowns]},
          "assumptions": plan.ASSUME if hasattr(plan, "ASSUME") else []}
    with open(VERIF + "/evidence/%s.json" % prop, "w") as f:
        json.dump(ev, f, indent=1)


def replay(path):
    m = re.search(r"^meta (\S+) (\S+) (.*)$", read(path), re.M)
    if not m:
        print("not a replay file of this framework:", path)
        return 2
    prop, driver, cfg = m.groups()
    cmd = build.command(driver)
    d = tempfile.mkdtemp(prefix="replay")
    try:
        x = single(cmd, prop, cfg, "replay", os.path.abspath(path), d + "/r", verbose=True)
        for o, t in x["report"]["viol"]:
            print("violated", o, t)
        if x["saved"] and "-v" in sys.argv:
            print(read(x["saved"]))
        print("history hash", x["hash"])
        if x["key"]:
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        return 0
    finally:
        shutil.rmtree(d, ignore_errors=True)


def one():
    prop, driver, seed = sys.argv[2], sys.argv[3], int(sys.argv[4])
    cfg = [x[4] for x in plan.PLAN[prop] if x[0] == driver][0]
    d = tempfile.mkdtemp(prefix="seed")
    try:
        x = single(build.command(driver), prop, cfg, "seed", seed, d + "/r", verbose=True)
        print(read(x["saved"]) if x["saved"] else x["err"])
        print(json.dumps(x["report"], indent=1))
        return 1 if x["key"] else 0
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(one() if sys.argv[1] == "--seed" else main())
