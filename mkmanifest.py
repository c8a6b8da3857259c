#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of built scenarios."""
import json, re, glob
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
built = set()
for f in glob.glob("/verif/sim/harness/*.go"):
    built |= set(re.findall(r'ID: "(C\d\d)"', open(f).read()))
NA = {"C21": "pure, single-threaded functions of their input (metrics, label numbering, set algebra, printing): no schedule, clock, I/O, fault or multi-party history for a simulator to decide; generating inputs for them would be property testing under another name"}
NOTE = {
 "C01": "adversarial delivery of the bytes (short, empty, interrupted and delayed reads) and every schedule of the conversion workers",
 "C02": "read, open, stat and descriptor faults at every point, files vanishing or torn while matched",
 "C03": "schedules of the file workers, descriptor accounting by the simulated file system",
 "C04": "slow, interrupted writers, stalled workers; outputs are parsed back with an independent reader",
 "C05": "create, write, short-write, close, full-disk, descriptor-limit and writer faults at every point",
 "C06": "process kills at every step, in the middle of writes too, of the dump, and a restart over the surviving files",
 "C20": "extreme CPU limits, processor counts and names, failing and stalled files and writers, unfair schedules; scheduler steps metered per call, live goroutines and files counted after it",
 "C24": "stalled, quitting, surplus and missing workers under every schedule; the race detector checks the visibility of their writes",
 "C23": "process kills of the training and of the serving program, transient I/O errors, concurrent clients of the restored models; each output row is compared with the prediction of that row alone",
 "C22": "the simulator counts the goroutines at work at each scheduling decision",
}
checks = []
na = []
for p in props:
    i = p["id"]
    if i in built and i not in NA:
        checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
            "technique": "deterministic simulation with fault injection: seeded search over schedules, faults and histories of the instrumented code, against a reference model",
            "level": "exploration",
            "level_note": "Sampled, not exhaustive: tens of thousands of seeded simulated runs of the real code under a simulator that owns scheduling, time, files, randomness and map order; "
              + NOTE.get(i, "every run is compared with an executable reference model") + ". Trusts the simulator (self-tested on each run, determinism re-checked across processes), the Go toolchain and race detector; preemption at statement boundaries."})
    else:
        na.append({"property": i, "reason": NA.get(i, "its check is not built yet")})
json.dump({"version": 1, "setup_cmd": "python3 check.py setup", "checks": checks, "not_applicable": na,
  "hooks": {"guard": "none", "enable": "no hook is needed in /repo: check.py instruments a copy of its working tree (go build -overlay), which puts a yield point before every statement and redirects goroutines, channels, sync, os, time, math/rand, runtime and map iteration to the simulator", "source_commits": []},
  "notes": "check.py replay FILE re-executes a replay file in a fresh build"}, open("/verif/MANIFEST.json", "w"), indent=1)
