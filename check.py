#!/usr/bin/env python3
"""Decides one property by seeded search over simulated runs.

  check.py P01              quick or thorough, from VERIF_TIER; seed from VERIF_SEED
  check.py replay FILE      rebuilds from /repo and replays a recorded violation
  check.py calibrate        measures runs per second of every world (rates.json)
"""
import concurrent.futures, json, os, re, shutil, struct, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
import simbuild
import plan

ALL = ("nlohmann", "rapid", "jsoncpp")
RATES = os.path.join(VERIF, "rates.json")
FINDINGS = os.path.join(VERIF, "known_findings.json")


def cpus():
    try:
        return sorted(os.sched_getaffinity(0))
    except AttributeError:
        return list(range(os.cpu_count() or 1))


def symbolise(exe, text):
    addrs = sorted(set(re.findall(r"simrun[\w-]*@0x([0-9a-f]+)", text)))
    if not addrs:
        return text
    try:
        r = subprocess.run(["llvm-symbolizer-18" if shutil.which("llvm-symbolizer-18") else "addr2line", "-Cfe", exe] + ["0x" + a for a in addrs],
                           capture_output=True, text=True, timeout=60)
        lines = r.stdout.splitlines()
        m = {}
        if shutil.which("llvm-symbolizer-18"):
            blocks = r.stdout.split("\n\n")
            for a, b in zip(addrs, blocks):
                ls = [x for x in b.splitlines() if x]
                if len(ls) >= 2:
                    m[a] = "%s (%s)" % (ls[0][:120], os.path.relpath(ls[1].split(" ")[0], "/") if False else ls[1])
        else:
            for i, a in enumerate(addrs):
                if 2 * i + 1 < len(lines):
                    m[a] = "%s (%s)" % (lines[2 * i][:120], lines[2 * i + 1])
        return re.sub(r"simrun[\w-]*@0x([0-9a-f]+)", lambda x: m.get(x.group(1), x.group(0)), text)
    except (OSError, subprocess.SubprocessError):
        return text


def known_match(prop, job, v):
    try:
        entries = json.load(open(FINDINGS)).get("known", [])
    except (OSError, ValueError):
        return None
    for e in entries:
        if e["property"] == prop and e["world"] == job["world"] and e["class"] == v["class"] and re.search(e["match"], v["message"]):
            return e
    return None


class Merge:
    def __init__(self):
        self.tot = {}
        self.worlds = {}
        self.faults = {}
        self.probes = {}
        self.samples = []
        self.il = set()

    def add(self, j, hashes):
        for k in ("runs", "steps", "switches", "accesses", "allocs", "sim_seconds", "race_runs", "audited", "nontrivial", "seconds"):
            self.tot[k] = self.tot.get(k, 0) + j[k]
        self.tot["max_threads"] = max(self.tot.get("max_threads", 0), j["max_threads"])
        w = self.worlds.setdefault(j["world"], {"runs": 0, "backends": {}, "sim_seconds": 0.0})
        w["runs"] += j["runs"]
        w["sim_seconds"] += j["sim_seconds"]
        w["backends"][j["backend"]] = w["backends"].get(j["backend"], 0) + j["runs"]
        for k, (n, r) in j["faults"].items():
            f = self.faults.setdefault(k, [0, 0])
            f[0] += n
            f[1] += r
        for k, (n, r) in j["probes"].items():
            f = self.probes.setdefault(k, [0, 0])
            f[0] += n
            f[1] += r
        if len([s for s in self.samples if s.startswith(j["world"])]) < 3:
            for s in j["samples"][:2]:
                self.samples.append("%s/%s %s" % (j["world"], j["backend"], s.strip()))
        try:
            d = open(hashes, "rb").read()
            wid = hash(j["world"]) & 0xffff
            for (h,) in struct.iter_unpack("<Q", d):
                self.il.add((wid, h))
        except OSError:
            pass


def run_check(prop):
    t_begin = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    spec = plan.PLAN[prop]
    worlds = [w for w, _, _ in spec["worlds"]]
    backends = [b for b in ALL if any(b in bs for _, bs, _ in spec["worlds"])]
    exes = simbuild.build(tuple(backends), worlds=worlds)
    t_build = time.time() - t_begin
    rates = json.load(open(RATES)) if os.path.exists(RATES) else {}
    total = plan.QUICK_CORE_SECONDS if tier == "quick" else plan.THOROUGH_CORE_SECONDS
    total *= spec.get("scale", 1)
    wsum = float(sum(wt for _, _, wt in spec["worlds"]))
    jobs = []
    for w, bs, wt in spec["worlds"]:
        for b in bs:
            n = int(total * wt / wsum / len(bs) * rates.get(w, 300))
            n = max(n, 200 if rates.get(w, 300) >= 20 else 4)
            chunk = max(50 if rates.get(w, 300) >= 20 else 1, min(2000 if tier == "thorough" else 400, n // 8 + 1))
            k = 0
            while k < n:
                c = min(chunk, n - k)
                jobs.append({"world": w, "backend": b, "start": k, "count": c, "prio": k / float(n)})
                k += c
    jobs.sort(key=lambda j: j["prio"])
    cap = (plan.QUICK_WALL_CAP if tier == "quick" else plan.THOROUGH_WALL_CAP)
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="simcheck.")
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    cpulist = cpus()
    free = list(cpulist)
    lock = threading.Lock()
    stop = threading.Event()
    merge = Merge()
    violations, errors, known = [], [], {}
    procs = set()

    def run(cmd):
        """As subprocess.run, but ended as soon as another job has found a violation."""
        with lock:
            if stop.is_set():
                return None
            p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True)
            procs.add(p)
        try:
            o, e = p.communicate()
        finally:
            with lock:
                procs.discard(p)
        return subprocess.CompletedProcess(cmd, p.returncode, o, e)

    def found(j, v):
        with lock:
            if not stop.is_set():
                violations.append((j, v))
            stop.set()
            for p in procs:
                try:
                    os.killpg(p.pid, 9)
                except OSError:
                    pass

    def one(i):
        if stop.is_set() or time.time() - t0 > cap:
            return
        j = jobs[i]
        with lock:
            cpu = free.pop()
        try:
            out, hs = "%s/%d.json" % (tmp, i), "%s/%d.hash" % (tmp, i)
            # three different seed ranges for the three back ends
            s = seed * 1000003 + ALL.index(j["backend"])
            start, left = j["start"], j["count"]
            tries = 0
            while left > 0 and tries < 4:
                cmd = [exes[j["backend"]], "run", "--world", j["world"], "--seed", str(s), "--start", str(start), "--count", str(left), "--cpu", str(cpu),
                       "--out", out, "--hashes", hs, "--replay-dir", rdir, "--audit", "200", "--minsec", "15" if tier == "quick" else "60",
                       "--maxsec", str(max(1, cap - (time.time() - t0))), "--timeout", "20"]
                if os.path.exists(out):
                    os.unlink(out)
                r = run(cmd)
                if r is None or stop.is_set():
                    return
                if r.returncode in (0, 1) and os.path.exists(out):
                    d = json.load(open(out))
                    with lock:
                        merge.add(d, hs)
                if r.returncode == 0:
                    return
                if r.returncode == 1:
                    v = d["violation"]
                    # gate: the minimised replay fails the same way in a fresh process, twice
                    ok = True
                    for _ in range(1 if v["class"] == "hang" else 2):
                        rr = run([exes[j["backend"]], "replay", v["replay"]])
                        if rr is None or (rr.returncode == -9 and stop.is_set()):
                            return
                        if rr.returncode != 1 or "match=1" not in rr.stdout:
                            if not (rr.returncode == 1 and v["class"] in ("hang", "crash") and ("class=" + v["class"]) in rr.stdout):
                                ok = False
                    if ok:
                        e = known_match(prop, j, v)
                        if e is None:
                            found(j, v)
                            return
                        with lock:
                            known[e["what"]] = known.get(e["what"], 0) + 1
                    elif v["class"] != "hang":
                        with lock:
                            errors.append("violation of %s in %s not reproduced by its replay: %s" % (j["world"], j["backend"], rr.stdout[:500]))
                    left -= v["run"] - start + 1
                    start = v["run"] + 1
                    tries += 1
                    continue
                if r.returncode == -9 and tries < 3:   # ended for lack of memory: the same runs again
                    tries += 1
                    time.sleep(2)
                    continue
                with lock:
                    errors.append("%s/%s: exit %d: %s" % (j["world"], j["backend"], r.returncode, (r.stderr or r.stdout)[-800:]))
                m = re.search(r"run=(\d+)", r.stderr or "")
                tries += 1
                if not m:
                    return
                left -= int(m.group(1)) - start + 1
                start = int(m.group(1)) + 1
        except Exception as ex:  # an error of the machinery, never a verdict
            with lock:
                errors.append("%s/%s: %r" % (j["world"], j["backend"], ex))
        finally:
            with lock:
                free.append(cpu)

    with concurrent.futures.ThreadPoolExecutor(len(cpulist)) as ex:
        list(ex.map(one, range(len(jobs))))
    shutil.rmtree(tmp, ignore_errors=True)
    wall = time.time() - t0
    tot = merge.tot
    runs = tot.get("runs", 0)
    info = plan.PLAN[prop]
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": len(merge.il),
            "rule": "One evaluation is one simulated run of the real library: workload, every scheduling decision and every fault drawn from one seed. "
                    "A run is non-trivial if it had more than two context switches or an injected fault; distinct ones are counted by a hash over the sequence "
                    "of (thread, operation, object) at all scheduling points.",
            "samples": merge.samples[:24],
            "worlds": merge.worlds,
            "runs_per_hour": int(runs / max(wall, 0.001) * 3600),
            "seeds": runs,
            "seed_rule": "run i of a world uses mix(mix(VERIF_SEED*1000003+backend, world), i)",
            "simulated_seconds": round(tot.get("sim_seconds", 0), 3),
            "scheduling_points": tot.get("steps", 0),
            "context_switches": tot.get("switches", 0),
            "memory_accesses_checked": tot.get("accesses", 0),
            "runs_with_race_detection": tot.get("race_runs", 0),
            "determinism_audits": tot.get("audited", 0),
            "max_threads_in_a_run": tot.get("max_threads", 0),
            "faults_injected": {k: {"times": v[0], "runs": v[1]} for k, v in sorted(merge.faults.items())},
            "probes": {k: {"times": v[0], "runs": v[1]} for k, v in sorted(merge.probes.items())},
            "real_components": info.get("real", plan.REAL),
            "stubbed_components": info.get("stub", plan.STUB),
            "exhaustive": False,
        },
        "assumptions": plan.ASSUMPTIONS + info.get("assumptions", []),
        "wall_s": round(time.time() - t_begin, 2),
        "violations": len(violations),
        "build_s": round(t_build, 2),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print("%s %s: %d runs in %.1fs (build %.1fs), %d distinct interleavings, %.1f simulated s, %d faults injected" %
          (prop, tier, runs, wall, t_build, len(merge.il), tot.get("sim_seconds", 0), sum(v[0] for v in merge.faults.values())))
    for w in sorted(known):
        print("KNOWN-FINDING: property=%s %s" % (prop, w))
    for e in errors[:10]:
        print("note: " + e)
    if violations:
        j, v = violations[0]
        msg = symbolise(exes[j["backend"]], v["message"])
        with open(v["replay"], "a") as f:
            f.write("# property %s\n# world %s, back end %s, run %d, seed %d\n" % (prop, j["world"], j["backend"], v["run"], v["seed"]))
            f.write("".join("# " + l + "\n" for l in msg.splitlines()))
            f.write("# replay: python3 /verif/check.py replay %s\n" % v["replay"])
        print("%s in world %s (%s back end), run %d:\n%s" % (v["class"], j["world"], j["backend"], v["run"], msg))
        print("VIOLATION property=%s replay=%s" % (prop, v["replay"]))
        return 1
    if errors:
        print("ERROR: the search was not reliable")
        return 2
    if runs == 0:
        print("ERROR: nothing was explored")
        return 2
    return 0


def run_replay(path):
    txt = open(path).read()
    world = re.search(r"^world (\S+)", txt, re.M).group(1)
    backend = re.search(r"^backend (\S+)", txt, re.M).group(1)
    exe = simbuild.build((backend,), worlds=[world])[backend]
    r = subprocess.run([exe, "replay", path] + sys.argv[3:], capture_output=True, text=True)
    print(symbolise(exe, r.stderr + r.stdout))
    return r.returncode


def calibrate():
    exes = simbuild.build(("nlohmann",))
    rates = {}
    for w in sorted(simbuild.world_files()):
        out = tempfile.mktemp()
        for sec in ("3", "40"):
            subprocess.run([exes["nlohmann"], "run", "--world", w, "--count", "100000", "--maxsec", sec, "--cpu", "1", "--out", out, "--replay-dir", "/tmp"], capture_output=True)
            d = json.load(open(out))
            os.unlink(out)
            if d["runs"] >= 60:
                break
        rate = d["runs"] / d["seconds"]
        rates[w] = int(rate) if rate >= 20 else round(rate, 2)
        print(w, rates[w], "VIOLATION" if d["violation"] else "")
    json.dump(rates, open(RATES, "w"), indent=1, sort_keys=True)


if __name__ == "__main__":
    try:
        if sys.argv[1] == "replay":
            sys.exit(run_replay(sys.argv[2]))
        if sys.argv[1] == "calibrate":
            calibrate()
            sys.exit(0)
        sys.exit(run_check(sys.argv[1]))
    except simbuild.BuildError as e:
        print(e)
        sys.exit(2)
