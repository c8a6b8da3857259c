#!/usr/bin/env python3
"""Driver of the simulation checks.

  check.py setup                     build everything once
  check.py C07 quick|thorough        check one property
  check.py replay FILE [-trace]      re-execute a replay file
"""
import glob, hashlib, json, os, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))
GO = "/opt/veriftools/go1.27.3/bin"
PKG = "github.com/rom1mouret/ml-essentials/zzverif/harness"

QUICK_SECS, THOROUGH_SECS = 35.0, 420.0
QUICK_RUNS, THOROUGH_RUNS = 400000, 40000000
HANG_SECS = 120.0

def env(**more):
    e = dict(os.environ)
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off")
    e.setdefault("HOME", "/root")
    if os.path.isdir(GO):
        e["PATH"] = GO + ":" + e.get("PATH", "/usr/bin:/bin")
    e.update(more)
    return e

def run_env(proc):
    return env(GOMAXPROCS="1", ZZ_PROC=proc, GOMEMLIMIT="2500MiB", GOTRACEBACK="single",
               GORACE="exitcode=0 halt_on_error=0 suppress_equal_stacks=0 suppress_equal_addresses=0 history_size=3")

class Trouble(Exception):
    pass

def sh(args, cwd, what, timeout=600):
    p = subprocess.run(args, cwd=cwd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if p.returncode != 0:
        raise Trouble("%s failed:\n%s" % (what, p.stdout.decode("utf8", "replace")[-4000:]))
    return p.stdout

def build(dest):
    """Instruments the working tree of /repo and builds the harness."""
    os.makedirs(dest, exist_ok=True)
    instr = os.path.join(dest, "instr")
    sh(["go", "build", "-o", instr, "."], os.path.join(HERE, "sim", "instr"), "building the instrumenter")
    mod = open(os.path.join(REPO, "go.mod")).read().splitlines()
    mod = ["go 1.21" if l.startswith("go ") else l for l in mod if not l.startswith("toolchain")]
    with open(os.path.join(dest, "go.mod"), "w") as f:
        f.write("\n".join(mod) + "\n")
    if os.path.exists(os.path.join(REPO, "go.sum")):
        shutil.copy(os.path.join(REPO, "go.sum"), os.path.join(dest, "go.sum"))
    modfile = os.path.join(dest, "go.mod")
    sh([instr, "-repo", REPO, "-modfile", modfile, "-out", dest, "-simrt", os.path.join(HERE, "sim", "simrt"),
        "-harness", os.path.join(HERE, "sim", "harness")], REPO, "instrumenting")
    exe = os.path.join(dest, "harness")
    sh(["go", "build", "-race", "-modfile=" + modfile, "-overlay=" + os.path.join(dest, "overlay.json"), "-o", exe, "./zzverif/harness"],
       REPO, "building the harness")
    return exe

def stats(dest):
    try:
        return json.load(open(os.path.join(dest, "instr_stats.json")))
    except Exception:
        return {}

def spawn(exe, args, proc, out=None, err=None):
    return subprocess.Popen([exe] + args, env=run_env(proc), stdout=out or subprocess.DEVNULL, stderr=err or subprocess.DEVNULL,
                            start_new_session=True)

def end(p):
    if p.poll() is None:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()

def read(path, n=20000):
    try:
        with open(path, errors="replace") as f:
            return f.read(n)
    except OSError:
        return ""

def race_report(text):
    i = text.find("WARNING: DATA RACE")
    if i < 0:
        return None
    j = text.find("\n==================", i)
    return text[i:j if j > 0 else i + 4000][:6000]

def replay_once(exe, path, proc, tmp, timeout):
    """Returns (status, stdout, stderr); status: int, 'hang'."""
    fo, fe = os.path.join(tmp, "r.out"), os.path.join(tmp, "r.err")
    with open(fo, "w") as o, open(fe, "w") as e:
        p = spawn(exe, ["-replay", path], proc, o, e)
        try:
            st = p.wait(timeout)
        except subprocess.TimeoutExpired:
            end(p)
            st = "hang"
    return st, read(fo), read(fe, 2000000)

def fatal_line(text):
    for l in text.splitlines():
        if l.startswith("fatal error:") or l.startswith("runtime:") or l.startswith("panic:") or "ThreadSanitizer" in l:
            return l
    return text[-300:]

def save(path, rp):
    with open(path, "w") as f:
        json.dump(rp, f, indent=1)

def verify_replay(exe, prop, path, tmp, log):
    """Re-executes a violation in a fresh process, if needed with the history of its worker."""
    rp = json.load(open(path))
    st, out, err = replay_once(exe, path, rp.get("Proc", ""), tmp, 300)
    exact = "REPLAY reproduces" in out and "DIFFERENT" not in out
    if st == 1 and not exact:
        st, out2, err2 = replay_once(exe, path, rp.get("Proc", ""), tmp, 300)
    if st == 1:
        rp["VerifiedInFreshProcess"] = "exact" if exact else "same class of violation"
    else:
        # the state left by earlier runs of the process matters: replay them too
        rp["History"] = True
        rp["FromSeed"] = True
        save(path, rp)
        st, out, err = replay_once(exe, path, rp.get("Proc", ""), tmp, 600)
        rp["VerifiedInFreshProcess"] = "with the earlier runs of the process" if st == 1 else "no (status %s)" % st
    r = race_report(err)
    if r:
        rp["RaceReport"] = r
    save(path, rp)
    log("replay in a fresh process: " + rp["VerifiedInFreshProcess"])
    return st == 1

def known_findings(prop):
    try:
        l = json.load(open(os.path.join(HERE, "known-findings.json")))["findings"]
    except FileNotFoundError:
        return []
    return [k for k in l if k["property"] == prop and k["status"] == "known"]

class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.start = time.time()
        self.tmp = tempfile.mkdtemp(prefix="zz-%s-" % prop, dir=self.workdir())
        self.violation = None

    @staticmethod
    def workdir():
        d = os.path.join(HERE, "work")
        os.makedirs(d, exist_ok=True)
        return d

    def log(self, msg):
        print("[%6.1fs] %s" % (time.time() - self.start, msg), flush=True)

    def go(self):
        quick = self.tier == "quick"
        secs = float(os.environ.get("VERIF_SECS", QUICK_SECS if quick else THOROUGH_SECS))
        runs = int(os.environ.get("VERIF_RUNS", QUICK_RUNS if quick else THOROUGH_RUNS))
        exe = build(os.path.join(self.tmp, "b"))
        self.log("built")
        self.stats = stats(os.path.join(self.tmp, "b"))
        # the simulator itself
        p = subprocess.run([exe, "-prop", "selftest"], env=run_env("self"), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=300)
        if p.returncode != 0:
            raise Trouble("self test: " + p.stdout.decode())
        self.selftest = p.stdout.decode().strip()
        self.log(self.selftest)
        replays = os.path.join(HERE, "replay")
        os.makedirs(replays, exist_ok=True)
        for f in glob.glob(os.path.join(replays, self.prop + "-*.json")):
            os.unlink(f)
        base = ["-prop", self.prop, "-seed", str(self.seed), "-known", os.path.join(HERE, "known-findings.json"), "-replaydir", replays]
        procs, died, hung = [], [], []
        for i in range(WORKERS):
            f = lambda s: os.path.join(self.tmp, "w%d.%s" % (i, s))
            e = open(f("err"), "w")
            p = spawn(exe, base + ["-worker", str(i), "-workers", str(WORKERS), "-runs", str(runs), "-secs", str(secs),
                                   "-out", f("json"), "-status", f("status"), "-hashes", f("hash")], "w%d" % i, None, e)
            p.i = i
            procs.append(p)
        # determinism: the same runs in two more processes, with the same entropy, must be identical
        det = []
        alive = list(procs)
        deadline = time.time() + secs + 240
        try:
            while alive:
                time.sleep(0.1)
                for p in list(alive):
                    if p.poll() is not None:
                        alive.remove(p)
                        if p.returncode != 0:
                            died.append(p)
                        elif not self.found:
                            try:
                                r = json.load(open(self.wf(p.i, "json")))
                                if r["Violation"]:
                                    self.found = True
                            except (OSError, ValueError):
                                died.append(p)
                        continue
                    try:
                        age = time.time() - os.stat(self.wf(p.i, "status")).st_mtime
                    except OSError:
                        age = 0
                    if age > HANG_SECS or time.time() > deadline:
                        end(p)
                        alive.remove(p)
                        hung.append(p)
                if (self.found or died or hung) and alive:
                    # give the others a moment, then stop: one violation is enough
                    t = time.time()
                    while alive and time.time() - t < 1.0:
                        alive = [p for p in alive if p.poll() is None]
                        time.sleep(0.05)
                    for p in alive:
                        if not os.path.exists(self.wf(p.i, "json")):
                            end(p)
                    alive = []
        finally:
            for p in procs:
                end(p)
        results = []
        for p in procs:
            try:
                results.append(json.load(open(self.wf(p.i, "json"))))
            except (OSError, ValueError):
                pass
        harness = [r["Harness"] for r in results if r["Harness"]]
        viol = [(r["Violation"], r) for r in results if r["Violation"]]
        viol.sort(key=lambda v: v[0]["Run"])
        if not viol:
            for p in died + hung:
                v = self.crash(exe, p, p in hung, replays)
                if v:
                    viol.append((v, None))
                    break
            else:
                if died or hung:
                    raise Trouble("worker %s ended with %s and this does not repeat: %s" % (
                        (died + hung)[0].i, (died + hung)[0].returncode, fatal_line(read(self.wf((died + hung)[0].i, "err"), 1000000))))
        if not viol:
            v = self.digests(results, replays)
            if v:
                viol.append((v, None))
        if not viol and harness:
            raise Trouble("harness: " + harness[0])
        det_note = None
        if not viol:
            det_note = self.determinism(exe, base, results)
        self.evidence(results, viol, det_note)
        for k in known_findings(self.prop):
            n = sum(r["Known"].get(k["what"], 0) for r in results)
            print("KNOWN-FINDING: property=%s %s (met in %d runs)" % (self.prop, k["what"], n))
        if viol:
            v, r = viol[0]
            if r is not None:
                verify_replay(exe, self.prop, v["Replay"], self.tmp, self.log)
            self.log("%s: %s" % (v["Class"], v["Message"][:1500]))
            print("VIOLATION property=%s replay=%s" % (self.prop, v["Replay"]), flush=True)
            return 1
        total = sum(r["Runs"] for r in results)
        if total == 0 or sum(r["NonTrivial"] for r in results) == 0:
            raise Trouble("nothing was explored")
        self.log("%s held in %d simulated runs" % (self.prop, total))
        return 0

    found = False

    def wf(self, i, s):
        return os.path.join(self.tmp, "w%d.%s" % (i, s))

    def crash(self, exe, p, hung, replays):
        """A run that the process did not survive."""
        try:
            idx, seed = read(self.wf(p.i, "status")).split()
        except ValueError:
            return None
        what = "the process hangs" if hung else "the process dies: " + fatal_line(read(self.wf(p.i, "err"), 1000000))
        path = os.path.join(replays, "%s-%d-%s.json" % (self.prop, self.seed, idx))
        rp = {"Property": self.prop, "Seed": int(seed), "RunIndex": int(idx), "BaseSeed": self.seed, "Class": "process-hangs" if hung else "process-dies",
              "Message": what, "FromSeed": True, "Proc": "w%d" % p.i, "Worker": p.i, "Workers": WORKERS}
        for hist in (False, True):
            rp["History"] = hist
            save(path, rp)
            st, out, err = replay_once(exe, path, rp["Proc"], self.tmp, HANG_SECS if not hist else 2 * HANG_SECS)
            if (st == "hang") == hung and st not in (0, 3, -9):
                rp["VerifiedInFreshProcess"] = "with the earlier runs of the process" if hist else "same"
                rp["Stderr"] = err[:6000]
                save(path, rp)
                return {"Class": rp["Class"], "Message": what, "Replay": path, "Run": int(idx), "Seed": int(seed), "MinimiseRuns": 0}
        os.unlink(path)
        return None

    def digests(self, results, replays):
        first = {}
        for r in results:
            for k, v in r["Digests"].items():
                if k in first and first[k][0] != v:
                    path = os.path.join(replays, "%s-digest.json" % self.prop)
                    msg = "%s is %s in process %d and %s in process %d" % (k, first[k][0], first[k][1], v, r["Worker"])
                    save(path, {"Property": self.prop, "Class": "differs-between-processes", "Message": msg, "Digest": k,
                                "Procs": ["w%d" % first[k][1], "w%d" % r["Worker"]], "Workers": [first[k][1], r["Worker"]]})
                    return {"Class": "differs-between-processes", "Message": msg, "Replay": path, "Run": -1, "Seed": self.seed, "MinimiseRuns": 0}
                first.setdefault(k, (v, r["Worker"]))
        self.ndigests = len(first)
        return None

    def determinism(self, exe, base, results):
        """Repeats the first runs of some workers in other processes and compares the execution hashes."""
        ps = []
        n = 0
        for r in results:
            k = min(r["Runs"], max(20, r["Runs"] // 10)) if self.tier == "quick" else min(r["Runs"], 2000)
            if r["Worker"] >= 8:
                continue
            i = r["Worker"]
            out = os.path.join(self.tmp, "d%d" % i)
            p = spawn(exe, base + ["-worker", str(i), "-workers", str(WORKERS), "-runs", str(k * WORKERS), "-secs", "120",
                                   "-out", out + ".json", "-hashes", out + ".hash"], "w%d" % i)
            ps.append((p, i, out))
        for p, i, out in ps:
            try:
                if p.wait(240) != 0:
                    raise Trouble("determinism check: worker %d ended with %d" % (i, p.returncode))
            except subprocess.TimeoutExpired:
                end(p)
                raise Trouble("determinism check: worker %d does not end" % i)
            a = open(self.wf(i, "hash"), "rb").read()
            b = open(out + ".hash", "rb").read()
            if a[:len(b)] != b:
                raise Trouble("determinism check: the runs of worker %d differ when they are repeated" % i)
            n += len(b) // 16
        return "%d runs were repeated in other processes: identical executions" % n

    def evidence(self, results, viol, det):
        seen, scheds = set(), set()
        for r in results:
            try:
                data = open(self.wf(r["Worker"], "hash"), "rb").read()
            except OSError:
                continue
            for j in range(0, len(data) - 15, 16):
                seen.add(data[j:j + 16])
                scheds.add(data[j + 8:j + 16])
        def add(key):
            m = {}
            for r in results:
                for k, v in (r[key] or {}).items():
                    m[k] = m.get(k, 0) + v
            return dict(sorted(m.items()))
        runs = sum(r["Runs"] for r in results)
        wall = max([r["WallS"] for r in results] + [0.001])
        samples = []
        for r in results:
            samples += r["Samples"] or []
        faults = add("Faults")
        simt = sum(r["SimTimeNs"] for r in results) / 1e9
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "exploration",
            "wall_s": round(time.time() - self.start, 2), "violations": len(viol),
            "coverage": {
                "evaluations": runs,
                "distinct_nontrivial": len(seen),
                "rule": "One evaluation is one simulated run: seed -> workload, configuration (processors, CPU limits, scheduling policy, map order), every "
                        "scheduling decision and every fault. Non-trivial: the oracle completed a comparison and there was a task switch or an injected fault. "
                        "Distinct: by hash of the whole execution (every scheduler quantum, choice and file operation) and of the task switches.",
                "distinct_interleavings": len(scheds),
                "interleaving_measure": "hash of the sequence of task switches with the step counts of the tasks",
                "runs_per_hour": int(runs / wall * 3600), "seeds_per_hour": int(runs / wall * 3600),
                "simulated_seconds": round(simt, 3),
                "scheduler_steps": sum(r["Steps"] for r in results),
                "task_switches": sum(r["Switches"] for r in results),
                "tasks_started": sum(r["Tasks"] for r in results),
                "max_tasks_alive": max([r["MaxTasks"] for r in results] + [0]),
                "runs_with_faults": sum(r["FaultRuns"] for r in results),
                "faults_injected": faults,
                "probes": add("Probes"),
                "runs_by_policy": add("PolicyRuns"), "runs_by_processor_count": add("CPURuns"),
                "determinism": det, "selftest": getattr(self, "selftest", ""),
                "processes": WORKERS,
                "cross_process_digests": getattr(self, "ndigests", 0),
                "real_code": "all packages of /repo (instrumented text, race build), gonum, encoding/csv, encoding/json, x/text, fmt, strconv",
                "stubs": "goroutine scheduler, channels/sync, clock and timers, file system, math/rand global source, map iteration order, NumCPU",
                "instrumentation": self.stats,
                "samples": samples[:6],
            },
            "assumptions": [
                "tasks are preempted at statement boundaries of /repo's code; calls into other modules are atomic between preemptions (data races in /repo's code are still seen by the race detector)",
                "the file system model: writes are visible at once, a crash loses nothing that was written (process kill, not power loss) and may tear the last write",
            ],
        }
        if viol:
            ev["coverage"]["violation"] = {k: viol[0][0][k] for k in ("Class", "Run", "Seed", "MinimiseRuns")}
        d = os.path.join(HERE, "evidence")
        os.makedirs(d, exist_ok=True)
        text = json.dumps(ev, indent=1)
        while len(text) > 60000 and ev["coverage"]["samples"]:
            ev["coverage"]["samples"].pop()
            text = json.dumps(ev, indent=1)
        with open(os.path.join(d, self.prop + ".json"), "w") as f:
            f.write(text + "\n")

    def clean(self):
        shutil.rmtree(self.tmp, ignore_errors=True)

def do_replay(path, extra):
    rp = json.load(open(path))
    c = Check("replay", "quick", 0)
    try:
        exe = build(os.path.join(c.tmp, "b"))
        if rp.get("Digest"):
            outs = []
            for proc, wk in zip(rp["Procs"], rp["Workers"]):
                o = os.path.join(c.tmp, proc + ".json")
                spawn(exe, ["-prop", rp["Property"], "-worker", str(wk), "-runs", "0", "-out", o], proc).wait()
                outs.append(json.load(open(o))["Digests"].get(rp["Digest"]))
            print("REPLAY %s: %s" % ("reproduces" if outs[0] != outs[1] else "passes", outs))
            return 1 if outs[0] != outs[1] else 0
        try:
            st = subprocess.run([exe, "-replay", path] + extra, env=run_env(rp.get("Proc", "")), timeout=2 * HANG_SECS).returncode
        except subprocess.TimeoutExpired:
            print("REPLAY hangs")
            return 1
        if st not in (0, 1):
            print("REPLAY ends with status", st)
        return st
    finally:
        c.clean()

def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    if sys.argv[1] == "setup":
        c = Check("setup", "quick", 1)
        try:
            build(os.path.join(c.tmp, "b"))
            print("setup ok")
            return 0
        except Trouble as t:
            print("TROUBLE", t)
            return 2
        finally:
            c.clean()
    if sys.argv[1] == "replay":
        return do_replay(os.path.abspath(sys.argv[2]), sys.argv[3:])
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    c = Check(prop, tier, seed)
    c.log("seed %d, tier %s, %d workers" % (seed, tier, WORKERS))
    try:
        return c.go()
    except Trouble as t:
        print("TROUBLE: %s" % t, flush=True)
        return 2
    finally:
        c.clean()

if __name__ == "__main__":
    sys.exit(main())
