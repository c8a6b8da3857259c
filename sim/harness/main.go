//go:build go1.22

// Command harness explores simulated runs of ml-essentials.
package main

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"time"

	zzrt "github.com/rom1mouret/ml-essentials/zzverif/simrt"
)

// Scenario is the client code and the oracle of a property.
type Scenario struct {
	ID       string
	Run      func(s *zzrt.Sim)
	Tune     func(r *zzrt.PRNG, cfg *zzrt.Config) // optional: adapts the drawn configuration
	MaxSteps int64
	// Digest, if any, is computed once per process and must be the same in all processes.
	Digest func(s *zzrt.Sim, put func(key, val string))
}

var scenarios = map[string]*Scenario{}

func register(sc *Scenario) { scenarios[sc.ID] = sc }

// Replay is the content of a replay file.
type Replay struct {
	Property string
	Seed     uint64 // seed of the run, from which the original choices were drawn
	RunIndex int
	BaseSeed uint64
	Class    string
	Message  string
	Config   zzrt.Config
	FromSeed bool                // regenerate the choices from Seed (the process did not survive the run)
	Streams  map[string][]uint32 // the minimised choices: schedule, faults, workload...
	Sizes    map[string][2]int   // length of each stream before and after the minimisation
	Hash     string              // of the execution trace, to verify that a replay is exact
	Races    int
	Faults   map[string]int
	Trace    []string
	Proc     string // entropy of the process (package initialisation)
	History  bool   // repeat the earlier runs of the worker first
	Worker   int
	Workers  int
}

type known struct {
	Property string `json:"property"`
	Match    string `json:"match"`
	What     string `json:"what"`
	Status   string `json:"status"`
	re       *regexp.Regexp
}

type result struct {
	Property   string
	Worker     int
	Runs       int
	NonTrivial int
	Steps      int64
	Traps      int64
	Switches   int64
	Tasks      int64
	MaxTasks   int
	SimTimeNs  int64
	Faults     map[string]int
	Probes     map[string]int
	FaultRuns  int
	Known      map[string]int
	Samples    []sample
	Digests    map[string]string
	Violation  *violation
	Harness    string
	WallS      float64
	PolicyRuns map[string]int
	CPURuns    map[string]int
}

type sample struct {
	Run      int
	Seed     uint64
	Config   zzrt.Config
	Steps    int64
	Switches int64
	Tasks    int
	Faults   map[string]int
	Probes   map[string]int
	Hash     string
	Trace    []string `json:",omitempty"`
}

type violation struct {
	Class, Message, Replay string
	Run                    int
	Seed                   uint64
	MinimiseRuns           int
}

func runSeed(base uint64, prop string, i int) uint64 {
	h := fnv.New64a()
	h.Write([]byte(prop))
	return zzrt.Mix(base, h.Sum64(), uint64(i))
}

var policyNames = []string{"run-to-block", "uniform", "priorities", "starvation", "round-robin"}

func pick(r *zzrt.PRNG, l ...int) int { return l[r.Intn(len(l))] }

func drawConfig(sc *Scenario, seed uint64) zzrt.Config {
	r := zzrt.PRNG(zzrt.Mix(seed, 4242))
	cfg := zzrt.Config{MaxSteps: sc.MaxSteps}
	cfg.NumCPU = pick(&r, 1, 2, 3, 4, 4, 4, 6, 8, 8, 16, 64, 128)
	cfg.MapOrder = r.Intn(5) > 0
	cfg.Policy.Kind = pick(&r, 0, 1, 1, 1, 2, 2, 3, 3, 4)
	cfg.Policy.Mean = pick(&r, 1, 2, 4, 8, 15, 30, 60, 120, 300, 1000)
	cfg.Policy.Stick = pick(&r, 0, 0, 50, 90)
	if sc.Tune != nil {
		sc.Tune(&r, &cfg)
	}
	return cfg
}

// digestScenario is the digest run of a scenario, as a scenario; run index -1.
func digestScenario(sc *Scenario, put func(k, v string)) *Scenario {
	return &Scenario{ID: sc.ID, Run: func(s *zzrt.Sim) { sc.Digest(s, put) }}
}

func digestConfig(worker int) zzrt.Config {
	return zzrt.Config{NumCPU: 1 + worker, MapOrder: true, Policy: zzrt.Policy{Kind: 1, Mean: 20}}
}

func exec(sc *Scenario, cfg zzrt.Config, src *zzrt.Source) *zzrt.Outcome {
	return zzrt.Exec(cfg, src, sc.Run)
}

func main() {
	prop := flag.String("prop", "", "property")
	seed := flag.Uint64("seed", 1, "base seed")
	worker := flag.Int("worker", 0, "index of this worker")
	workers := flag.Int("workers", 1, "number of workers")
	runs := flag.Int("runs", 1000, "number of runs of all workers")
	first := flag.Int("first", 0, "first run")
	secs := flag.Float64("secs", 60, "time limit")
	out := flag.String("out", "", "result file")
	status := flag.String("status", "", "status file")
	knownFile := flag.String("known", "", "known findings")
	replayDir := flag.String("replaydir", ".", "where to write replay files")
	replay := flag.String("replay", "", "replay file")
	trace := flag.Bool("trace", false, "print the trace")
	hashes := flag.String("hashes", "", "file for the trace hashes of all runs")
	minSecs := flag.Float64("minsecs", 25, "time limit of the minimisation")
	one := flag.Int("one", -1, "print the outcome of one run")
	flag.Parse()
	touch = func() {
		if *status != "" {
			now := time.Now()
			os.Chtimes(*status, now, now)
		}
	}
	theWorker, theWorkers = *worker, *workers
	log.SetOutput(io.Discard)
	stdout := os.Stdout
	if devnull, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = devnull // the library prints
	}
	if *prop == "selftest" {
		if msg := selfTest(); msg != "" {
			fmt.Fprintln(stdout, "SELFTEST FAILED", msg)
			os.Exit(2)
		}
		fmt.Fprintf(stdout, "selftest ok: %d programs\n", len(selfCases))
		return
	}
	if *replay != "" {
		os.Exit(doReplay(stdout, *replay, *trace))
	}
	sc := scenarios[*prop]
	if sc == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(2)
	}
	if *one >= 0 {
		s := runSeed(*seed, *prop, *one)
		cfg := drawConfig(sc, s)
		cfg.Trace = *trace
		o := exec(sc, cfg, zzrt.NewSource(s))
		for _, e := range o.Events {
			fmt.Fprintln(stdout, e)
		}
		fmt.Fprintf(stdout, "cfg %+v\nfail %+v\nharness %s\nsteps %d traps %d switches %d tasks %d faults %v probes %v hash %x\n", cfg, o.Fail, o.Harness, o.Steps, o.Traps, o.Switches, o.Tasks, o.Faults, o.Probes, o.TraceHash)
		return
	}
	var knowns []*known
	if *knownFile != "" {
		if data, err := os.ReadFile(*knownFile); err == nil {
			var l struct{ Findings []*known }
			if err := json.Unmarshal(data, &l); err != nil {
				fmt.Fprintln(os.Stderr, "known findings:", err)
				os.Exit(2)
			}
			for _, k := range l.Findings {
				if k.Property == *prop && k.Status == "known" {
					k.re = regexp.MustCompile(k.Match)
					knowns = append(knowns, k)
				}
			}
		}
	}
	res := &result{Property: *prop, Worker: *worker, Faults: map[string]int{}, Probes: map[string]int{}, Known: map[string]int{},
		Digests: map[string]string{}, PolicyRuns: map[string]int{}, CPURuns: map[string]int{}}
	start := time.Now()
	var hashF *os.File
	if *hashes != "" {
		hashF, _ = os.Create(*hashes)
	}
	var hbuf []byte
	if sc.Digest != nil {
		dsc := digestScenario(sc, func(k, v string) { res.Digests[k] = v })
		cfg := digestConfig(*worker)
		src := zzrt.NewSource(uint64(*worker) + 5)
		o := exec(dsc, cfg, src)
		if o.Harness != "" {
			res.Harness = "digest run: " + o.Harness
		}
		if o.Fail != nil {
			// reported with run index -1
			res.Violation = minimise(digestScenario(sc, func(k, v string) {}), cfg, src, o, *prop, *seed, -1, uint64(*worker)+5, *replayDir, *minSecs)
		}
	}
	for i := *first + *worker; i < *first+*runs && res.Violation == nil; i += *workers {
		if time.Since(start).Seconds() > *secs {
			break
		}
		s := runSeed(*seed, *prop, i)
		if *status != "" {
			os.WriteFile(*status, []byte(fmt.Sprintf("%d %d", i, s)), 0644)
		}
		cfg := drawConfig(sc, s)
		src := zzrt.NewSource(s)
		o := exec(sc, cfg, src)
		res.Runs++
		res.Steps += o.Steps
		res.Traps += o.Traps
		res.Switches += o.Switches
		res.Tasks += int64(o.Tasks)
		res.SimTimeNs += o.SimTime
		res.PolicyRuns[policyNames[cfg.Policy.Kind]]++
		res.CPURuns[fmt.Sprint(cfg.NumCPU)]++
		if o.MaxTasks > res.MaxTasks {
			res.MaxTasks = o.MaxTasks
		}
		nf := 0
		for k, v := range o.Faults {
			res.Faults[k] += v
			nf += v
		}
		for k, v := range o.Probes {
			res.Probes[k] += v
		}
		if nf > 0 {
			res.FaultRuns++
		}
		nontrivial := o.Probes["checked"] > 0 && (o.Switches > 1 || nf > 0)
		if nontrivial {
			res.NonTrivial++
			hbuf = binary.LittleEndian.AppendUint64(hbuf, o.TraceHash)
			hbuf = binary.LittleEndian.AppendUint64(hbuf, o.SchedHash)
		}
		if len(res.Samples) < 2 && nontrivial && o.Steps < 60000 && *worker < 2 {
			sm := sample{Run: i, Seed: s, Config: cfg, Steps: o.Steps, Switches: o.Switches, Tasks: o.Tasks, Faults: o.Faults, Probes: o.Probes, Hash: fmt.Sprintf("%x", o.TraceHash)}
			if len(res.Samples) == 0 {
				cfg2 := cfg
				cfg2.Trace = true
				o2 := exec(sc, cfg2, zzrt.NewSource(s))
				ev := o2.Events
				if len(ev) > 24 {
					ev = append(append([]string{}, ev[:16]...), append([]string{fmt.Sprintf("... %d events ...", len(ev)-24)}, ev[len(ev)-8:]...)...)
				}
				sm.Trace = ev
			}
			res.Samples = append(res.Samples, sm)
		}
		if o.Harness != "" {
			res.Harness = fmt.Sprintf("run %d (seed %d): %s", i, s, o.Harness)
			break
		}
		if o.Fail != nil {
			full := o.Fail.Class + ": " + o.Fail.Msg
			isKnown := false
			for _, k := range knowns {
				if k.re.MatchString(full) {
					res.Known[k.What]++
					isKnown = true
					break
				}
			}
			if isKnown {
				continue
			}
			res.Violation = minimise(sc, cfg, src, o, *prop, *seed, i, s, *replayDir, *minSecs)
		}
	}
	if hashF != nil {
		hashF.Write(hbuf)
		hashF.Close()
	}
	res.WallS = time.Since(start).Seconds()
	data, _ := json.Marshal(res)
	if *out != "" {
		if err := os.WriteFile(*out, data, 0644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	} else {
		stdout.Write(append(data, '\n'))
	}
}

var (
	touch                 = func() {}
	theWorker, theWorkers int
)

func totalLen(rec [zzrt.NumStreams][]uint32) int {
	n := 0
	for _, s := range rec {
		n += len(s)
	}
	return n
}

// minimise shrinks the recorded choices of a failing run while it keeps
// failing in the same way, and writes the replay file.
func minimise(sc *Scenario, cfg zzrt.Config, src *zzrt.Source, o *zzrt.Outcome, prop string, base uint64, idx int, seed uint64, dir string, secs float64) *violation {
	start := time.Now()
	class := o.Fail.Class
	best := src.Recording()
	orig := best
	bestO := o
	n := 0
	try := func(rec [zzrt.NumStreams][]uint32, c zzrt.Config) bool {
		if time.Since(start).Seconds() > secs {
			return false
		}
		n++
		if n%20 == 1 {
			touch()
		}
		s2 := zzrt.ReplaySource(rec)
		o2 := exec(sc, c, s2)
		if o2.Fail == nil || o2.Fail.Class != class || o2.Harness != "" {
			return false
		}
		best = s2.Recording()
		// recordings may end with choices that are all 0
		for i := range best {
			for len(best[i]) > 0 && best[i][len(best[i])-1] == 0 {
				best[i] = best[i][:len(best[i])-1]
			}
		}
		bestO = o2
		cfg = c
		return true
	}
	// the recording must reproduce the run
	if !try(best, cfg) {
		return writeReplay(cfg, orig, orig, o, prop, base, idx, seed, dir, n, true)
	}
	c := cfg
	c.MapOrder = false
	try(best, c)
	improved := true
	for round := 0; improved && round < 6 && time.Since(start).Seconds() < secs; round++ {
		improved = false
		before := totalLen(best)
		for _, st := range []int{zzrt.StreamSchedule, zzrt.StreamFault, zzrt.StreamMap, zzrt.StreamRand, zzrt.StreamWorkload} {
			// drop everything
			if len(best[st]) > 0 {
				r := best
				r[st] = nil
				try(r, cfg)
			}
			// cut tails, then drop or zero chunks
			for l := len(best[st]) / 2; l > 0 && time.Since(start).Seconds() < secs; l /= 2 {
				for l <= len(best[st]) {
					r := best
					r[st] = best[st][:len(best[st])-l]
					if !try(r, cfg) {
						break
					}
				}
			}
			for sz := len(best[st]) / 2; sz >= 1; sz /= 2 {
				for at := 0; at+sz <= len(best[st]); {
					if time.Since(start).Seconds() > secs {
						break
					}
					r := best
					cp := append([]uint32(nil), best[st]...)
					r[st] = append(append([]uint32(nil), cp[:at]...), cp[at+sz:]...)
					if try(r, cfg) {
						improved = true
						continue
					}
					zero := false
					for _, v := range cp[at : at+sz] {
						if v != 0 {
							zero = true
						}
					}
					if zero {
						for j := at; j < at+sz; j++ {
							cp[j] = 0
						}
						r[st] = cp
						if try(r, cfg) {
							improved = true
						}
					}
					at += sz
				}
				if len(best[st]) > 3000 && sz < len(best[st])/64 {
					break
				}
			}
			// lower single values
			for at := 0; at < len(best[st]) && at < 400; at++ {
				for at < len(best[st]) && best[st][at] > 0 && time.Since(start).Seconds() < secs {
					v := best[st][at] / 2
					r := best
					cp := append([]uint32(nil), best[st]...)
					cp[at] = v
					r[st] = cp
					if !try(r, cfg) {
						if at < len(best[st]) && best[st][at] > 1 && v != best[st][at]-1 {
							cp = append([]uint32(nil), best[st]...)
							cp[at]--
							r[st] = cp
							if try(r, cfg) {
								continue
							}
						}
						break
					}
				}
			}
		}
		if totalLen(best) < before {
			improved = true
		}
	}
	// the final execution, with a trace
	c = cfg
	c.Trace = true
	o2 := exec(sc, c, zzrt.ReplaySource(best))
	if o2.Fail != nil {
		bestO = o2
	}
	return writeReplay(cfg, best, orig, bestO, prop, base, idx, seed, dir, n, false)
}

func writeReplay(cfg zzrt.Config, rec, orig [zzrt.NumStreams][]uint32, o *zzrt.Outcome, prop string, base uint64, idx int, seed uint64, dir string, n int, fromSeed bool) *violation {
	rp := &Replay{Property: prop, Seed: seed, RunIndex: idx, BaseSeed: base, Class: o.Fail.Class, Message: o.Fail.Msg, Config: cfg,
		FromSeed: fromSeed, Streams: map[string][]uint32{}, Sizes: map[string][2]int{}, Hash: fmt.Sprintf("%016x", o.TraceHash), Races: o.Races, Faults: o.Faults,
		Proc: os.Getenv("ZZ_PROC"), Worker: theWorker, Workers: theWorkers}
	for i, name := range zzrt.StreamNames {
		rp.Streams[name] = rec[i]
		rp.Sizes[name] = [2]int{len(orig[i]), len(rec[i])}
	}
	ev := o.Events
	if len(ev) > 400 {
		ev = append(append([]string{}, ev[:100]...), append([]string{fmt.Sprintf("... %d events ...", len(ev)-400)}, ev[len(ev)-300:]...)...)
	}
	rp.Trace = ev
	os.MkdirAll(dir, 0755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%d-%d.json", prop, base, idx))
	if idx < 0 {
		path = filepath.Join(dir, fmt.Sprintf("%s-%d-first%d.json", prop, base, theWorker))
	}
	data, _ := json.MarshalIndent(rp, "", " ")
	if err := os.WriteFile(path, data, 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
	return &violation{Class: o.Fail.Class, Message: o.Fail.Msg, Replay: path, Run: idx, Seed: seed, MinimiseRuns: n}
}

// doReplay re-executes a replay file; its exit status is 1 if the violation is
// reproduced, 0 if the run passes.
func doReplay(stdout *os.File, path string, trace bool) int {
	data, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var rp Replay
	if err := json.Unmarshal(data, &rp); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	sc := scenarios[rp.Property]
	if sc == nil {
		fmt.Fprintln(os.Stderr, "unknown property", rp.Property)
		return 2
	}
	var rec [zzrt.NumStreams][]uint32
	for i, name := range zzrt.StreamNames {
		rec[i] = rp.Streams[name]
	}
	src := zzrt.ReplaySource(rec)
	cfg := rp.Config
	if rp.FromSeed {
		src = zzrt.NewSource(rp.Seed)
		if rp.RunIndex >= 0 {
			cfg = drawConfig(sc, rp.Seed)
		}
	}
	if rp.RunIndex < 0 {
		sc = digestScenario(sc, func(k, v string) {})
	} else if rp.History {
		if sc.Digest != nil {
			exec(digestScenario(sc, func(k, v string) {}), digestConfig(rp.Worker), zzrt.NewSource(uint64(rp.Worker)+5))
		}
		for i := rp.Worker; i < rp.RunIndex; i += rp.Workers {
			sd := runSeed(rp.BaseSeed, rp.Property, i)
			exec(sc, drawConfig(sc, sd), zzrt.NewSource(sd))
		}
	}
	cfg.Trace = trace || !rp.FromSeed && len(rp.Trace) > 0
	o := exec(sc, cfg, src)
	if trace {
		for _, e := range o.Events {
			fmt.Fprintln(stdout, e)
		}
	}
	var faults []string
	for k, v := range o.Faults {
		faults = append(faults, fmt.Sprintf("%s=%d", k, v))
	}
	sort.Strings(faults)
	if o.Harness != "" {
		fmt.Fprintln(stdout, "HARNESS ERROR", o.Harness)
		return 2
	}
	if o.Fail == nil {
		fmt.Fprintf(stdout, "REPLAY passes: property=%s hash=%016x steps=%d faults=%v\n", rp.Property, o.TraceHash, o.Steps, faults)
		return 0
	}
	exact := "exact"
	if h := fmt.Sprintf("%016x", o.TraceHash); h != rp.Hash && !rp.FromSeed || o.Fail.Class != rp.Class {
		exact = "DIFFERENT execution (recorded " + rp.Class + " " + rp.Hash + ")"
	}
	fmt.Fprintf(stdout, "REPLAY reproduces: property=%s class=%s hash=%016x %s steps=%d faults=%v\n%s\n", rp.Property, o.Fail.Class, o.TraceHash, exact, o.Steps, faults, o.Fail.Msg)
	return 1
}
