// Package zzrt is the simulator runtime.  The packages under test are rewritten
// so that goroutines, channels, locks, map iteration, random numbers, clocks
// and files all go through it.
//
// One goroutine, the kernel, owns all the simulator state.  The goroutines of
// the program are tasks: exactly one of them runs at a time, and it runs until
// its step budget is used up, it blocks, or it asks the kernel for something.
// The hand-over is hidden from the race detector, so that it does not order
// the memory accesses of different tasks: only the synchronisation that the
// program itself does creates happens-before edges.
package zzrt

import (
	"fmt"
	"hash/fnv"
	"math"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"
	"unsafe"
)

type opKind int

const (
	opNone opKind = iota
	opYield
	opBlock
	opWake
	opSpawn
	opExit
	opChoose
	opRand
	opSeedRand
	opNow
	opMeter
	opSleep
	opFS
	opLog
	opFail
	opSelect
	opTimer
	opStopTimer
	opArmKill
	opJoinGroup
	opCount
	opQuiesce
)

type selEntry struct {
	key  unsafe.Pointer
	send bool
	val  interface{}
}

type taskState int

const (
	stRunnable taskState = iota
	stBlocked
	stDone
)

// Task is a simulated goroutine.
type Task struct {
	id     int
	name   string
	resume chan struct{}

	// request to the kernel and its answer
	op     opKind
	a, b   int64
	key    unsafe.Pointer
	keys   []unsafe.Pointer
	ents   []selEntry
	nb     bool
	str    string
	why    string
	ret    int64
	retU   uint64
	retVal interface{}
	retOK  bool
	fs     *fsReq
	pc     uintptr
	killed bool

	// kernel only
	state    taskState
	started  bool
	launched bool // its goroutine exists
	wakeAt   int64
	joining  int
	quiesce  bool
	group    int
	steps    int64
	waits    []int64 // steps when it had to wait
	prio     int
	panicked bool
	panicVal interface{}
	stack    string
}

var (
	cur      *Task // the task that holds the processor
	kern     *kernel
	budget   int64 = math.MaxInt64
	nblocked int   // number of blocked tasks
	endSync  [8]byte
	baseTime = time.Date(2021, 3, 1, 12, 0, 0, 0, time.UTC)
)

// Config tunes a run.
type Config struct {
	MaxSteps  int64 // 0: default
	NumCPU    int   // simulated number of processors; 0: 4
	Policy    Policy
	MapOrder  bool // whether map iteration order varies
	Trace     bool // keep an event log
	FS        FSConfig
	Sanitized bool
}

// Policy is the distribution of the scheduler's decisions.  It only matters
// when decisions are generated: a replay follows the recorded decisions.
type Policy struct {
	Kind  int // 0 run to block, 1 uniform, 2 priorities with change points, 3 starvation, 4 round robin
	Mean  int // mean number of steps between preemptions (kinds 1, 3, 4)
	Stick int // percentage of decisions that keep the current task
}

// Failure is a violated expectation.
type Failure struct {
	Class string
	Msg   string
}

// Outcome is what happened in a run.
type Outcome struct {
	Fail      *Failure
	Harness   string // non-empty: the harness itself is broken
	Steps     int64
	Traps     int64
	Switches  int64
	SimTime   int64 // ns
	Tasks     int
	MaxTasks  int
	SchedHash uint64
	TraceHash uint64
	Faults    map[string]int
	Probes    map[string]int
	Events    []string
	Races     int
	MaxOpen   int
	Blocked   int64
}

type timer struct {
	at   int64
	seq  int64
	id   int64
	fire func()
}

type kernel struct {
	metering bool           // an opMeter was served
	atWork   [][]workSample // tasks at work at the same time since the last opMeter
	cfg      Config
	src      *Source
	trap     chan *Task
	tasks    []*Task
	live     int
	polledAt int64
	now      int64
	seq      int64
	out      *Outcome
	rnd      rand.Source64
	fs       *FS
	timers   []timer
	schedH   uint64
	traceH   uint64
	rootEnd  bool
	last     *Task
	abort    bool
	killAt   map[int]int64 // group -> kernel step count at which it is killed
	gsteps   map[int]int64
	changes  int // remaining priority change points
	victim   int
	rr       int
	given    int64
	groups   int
	races    int
}

// DefaultMaxSteps bounds the number of statements of a run.
const DefaultMaxSteps = 3_000_000

const maxQuantum = 200_000

// Sim is the handle that scenarios use.
type Sim struct{ k *kernel }

//go:norace
func sys(op opKind) *Task {
	t := cur
	if t.killed {
		runtime.Goexit()
	}
	t.op = op
	raceDisable()
	kern.trap <- t
	<-t.resume
	raceEnable()
	if t.killed {
		runtime.Goexit()
	}
	return t
}

// alive ends the task if it is being killed: deferred calls do nothing then.
//
//go:norace
func alive() {
	if t := cur; t != nil && t.killed {
		runtime.Goexit()
	}
}

// Y is a yield point; the instrumenter puts one in front of every statement.
//
//go:norace
func Y() {
	budget--
	if budget < 0 {
		ySlow()
	}
}

//go:norace
func ySlow() {
	if cur == nil {
		budget = math.MaxInt64
		return
	}
	if kern.cfg.Trace {
		var pcs [1]uintptr
		runtime.Callers(3, pcs[:])
		cur.pc = pcs[0]
	}
	sys(opYield)
}

// ------------------------------------------------------------------ tasks

//go:norace
func taskMain(t *Task, fn func()) {
	raceDisable()
	<-t.resume
	raceEnable()
	defer taskEnd(t)
	if t.killed {
		return
	}
	fn()
}

//go:norace
func taskEnd(t *Task) {
	if r := recover(); r != nil {
		t.panicked = true
		t.panicVal = r
		t.stack = string(debug.Stack())
	}
	raceReleaseMerge(unsafe.Pointer(&endSync))
	t.op = opExit
	raceDisable()
	kern.trap <- t
	raceEnable()
}

//go:norace
func spawn(name string, newGroup bool) *Task {
	t := cur
	t.str = name
	t.nb = newGroup
	sys(opSpawn)
	return t.retVal.(*Task)
}

// GoFn starts a task.
//
//go:norace
func GoFn(fn func()) { goNamed("go", fn) }

//go:norace
func goNamed(name string, fn func()) {
	if cur == nil {
		go fn()
		return
	}
	nt := spawn(name, false)
	nt.launched = true
	go taskMain(nt, fn)
	sys(opYield)
}

// Exec performs one simulated run of fn.
func Exec(cfg Config, src *Source, fn func(s *Sim)) *Outcome {
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = DefaultMaxSteps
	}
	if cfg.NumCPU == 0 {
		cfg.NumCPU = 4
	}
	k := &kernel{cfg: cfg, src: src, trap: make(chan *Task), killAt: map[int]int64{}, gsteps: map[int]int64{}}
	k.out = &Outcome{Faults: map[string]int{}, Probes: map[string]int{}}
	k.fs = newFS(k)
	k.schedH, k.traceH = 14695981039346656037, 14695981039346656037
	k.changes = 3
	k.rnd = rand.NewSource(int64(src.S[StreamRand].next(1<<31-1, nil))).(rand.Source64)
	k.races = RaceErrors()
	kern = k
	nblocked = 0
	root := k.newTask("main", 0)
	root.launched = true
	s := &Sim{k}
	go taskMain(root, func() { fn(s) })
	k.loop()
	cur = nil
	kern = nil
	budget = math.MaxInt64
	raceAcquire(unsafe.Pointer(&endSync))
	k.out.SimTime = k.now
	k.out.SchedHash = k.schedH
	k.out.TraceHash = k.traceH
	k.out.Races = RaceErrors() - k.races
	k.out.MaxOpen = k.fs.maxOpen
	if k.out.Races > 0 && k.out.Fail == nil {
		k.out.Fail = &Failure{"data-race", fmt.Sprintf("%d data race(s) reported by the race detector", k.out.Races)}
	}
	return k.out
}

//go:norace
func (k *kernel) newTask(name string, group int) *Task {
	t := &Task{id: len(k.tasks), name: name, resume: make(chan struct{}, 1), group: group}
	t.prio = int(Mix(k.src.Seed, uint64(t.id), 991) % 1000)
	k.tasks = append(k.tasks, t)
	k.live++
	k.out.Tasks++
	if k.live > k.out.MaxTasks {
		k.out.MaxTasks = k.live
	}
	if k.live > 4000 {
		k.fail("too-many-tasks", "more than 4000 live goroutines")
	}
	return t
}

//go:norace
func mixHash(h, v uint64) uint64 {
	for i := 0; i < 8; i++ {
		h ^= v & 0xff
		h *= 1099511628211
		v >>= 8
	}
	return h
}

//go:norace
func (k *kernel) event(format string, args ...interface{}) {
	if k.cfg.Trace && len(k.out.Events) < 20000 {
		k.out.Events = append(k.out.Events, fmt.Sprintf("[step %d t=%dus] ", k.out.Steps, k.now/1000)+fmt.Sprintf(format, args...))
	}
}

//go:norace
func (k *kernel) fail(class, msg string) {
	if k.out.Fail == nil {
		k.out.Fail = &Failure{class, msg}
		k.event("VIOLATION %s: %s", class, msg)
	}
	k.abort = true
}

//go:norace
func (k *kernel) where(pc uintptr) string {
	if pc == 0 {
		return ""
	}
	fr, _ := runtime.CallersFrames([]uintptr{pc}).Next()
	file := fr.File
	for i, n := len(file)-1, 0; i >= 0; i-- {
		if file[i] == '/' {
			if n++; n == 2 {
				file = file[i+1:]
				break
			}
		}
	}
	return fmt.Sprintf("%s:%d", file, fr.Line)
}

// pick chooses the next task to run, or nil if none can.
//
//go:norace
func (k *kernel) pick() (*Task, int) {
	for {
		var run []*Task
		start := 0
		if k.last != nil {
			start = k.last.id
		}
		n := len(k.tasks)
		for i := 0; i < n; i++ {
			t := k.tasks[(start+i)%n]
			if t.state == stRunnable {
				run = append(run, t)
			}
		}
		if len(run) == 0 {
			if !k.advance() && !k.endQuiesce() {
				return nil, 0
			}
			continue
		}
		if len(run) == 1 {
			return run[0], 1
		}
		if k.metering && len(run) > 1 {
			var l []workSample
			for _, t := range run {
				if t.steps > beginning {
					l = append(l, workSample{t, t.steps})
				}
			}
			if len(l) > 1 {
				k.atWork = append(k.atWork, l)
			}
		}
		idx := k.src.S[StreamSchedule].next(uint32(len(run)), func(r *PRNG) uint32 { return uint32(k.decide(r, run)) })
		return run[idx], len(run)
	}
}

// decide is the scheduling policy.
//
//go:norace
func (k *kernel) decide(r *PRNG, run []*Task) int {
	p := k.cfg.Policy
	curRuns := run[0] == k.last
	switch p.Kind {
	case 0:
		return 0
	case 1:
		if curRuns && r.Intn(100) < p.Stick {
			return 0
		}
		return r.Intn(len(run))
	case 2:
		if k.changes > 0 && curRuns && r.Intn(12) == 0 {
			k.changes--
			run[0].prio = -r.Intn(1000) // lowered for good
		}
		best := 0
		for i, t := range run {
			if t.prio > run[best].prio {
				best = i
			}
		}
		return best
	case 3:
		// one task only runs when nothing else can
		if k.victim == 0 || r.Intn(40) == 0 {
			k.victim = 1 + r.Intn(len(k.tasks))
		}
		i := r.Intn(len(run))
		if run[i].id == k.victim-1 {
			i = (i + 1) % len(run)
			k.out.Faults["sched.stalled-task"]++
		}
		return i
	default:
		return 1 % len(run)
	}
}

// quantum chooses for how many steps the chosen task runs at most.
// The recorded value 0 stands for "until it blocks".
//
//go:norace
func (k *kernel) quantum(nrun int) int64 {
	if nrun < 2 {
		// nobody else can run: a new task or a wake-up comes with a trap anyway
		return maxQuantum
	}
	v := k.src.S[StreamSchedule].next(maxQuantum, func(r *PRNG) uint32 {
		p := k.cfg.Policy
		if p.Kind == 0 || p.Mean <= 0 {
			return 0
		}
		if p.Kind == 4 {
			return uint32(p.Mean)
		}
		// geometric
		u := r.Float()
		q := int64(-math.Log(1-u) * float64(p.Mean))
		if q < 0 {
			q = 0
		}
		if q > maxQuantum-2 {
			q = maxQuantum - 2
		}
		return uint32(1 + q)
	})
	if v == 0 {
		return maxQuantum
	}
	return int64(v)
}

// endQuiesce lets a task continue that waits for the others to come to rest.
//
//go:norace
func (k *kernel) endQuiesce() bool {
	for _, t := range k.tasks {
		if t.state == stBlocked && t.quiesce {
			t.quiesce = false
			t.ret = int64(k.live - 1)
			k.ready(t)
			return true
		}
	}
	return false
}

// advance moves the clock to the next timer or sleeper.
//
//go:norace
func (k *kernel) advance() bool {
	next := int64(-1)
	for _, t := range k.tasks {
		if t.state == stBlocked && t.wakeAt > 0 && (next < 0 || t.wakeAt < next) {
			next = t.wakeAt
		}
	}
	for _, tm := range k.timers {
		if next < 0 || tm.at < next {
			next = tm.at
		}
	}
	if next < 0 {
		return false
	}
	if next > k.now {
		k.now = next
	}
	k.fireTimers()
	return true
}

//go:norace
func (k *kernel) fireTimers() {
	for _, t := range k.tasks {
		if t.state == stBlocked && t.wakeAt > 0 && t.wakeAt <= k.now {
			t.wakeAt = 0
			k.ready(t)
		}
	}
	for {
		best := -1
		for i, tm := range k.timers {
			if tm.at <= k.now && (best < 0 || tm.at < k.timers[best].at || tm.at == k.timers[best].at && tm.seq < k.timers[best].seq) {
				best = i
			}
		}
		if best < 0 {
			return
		}
		tm := k.timers[best]
		k.timers = append(k.timers[:best], k.timers[best+1:]...)
		tm.fire()
	}
}

//go:norace
func (k *kernel) ready(t *Task) {
	if t.state == stBlocked {
		t.state = stRunnable
		nblocked--
		t.keys = nil
		t.ents = nil
		t.wakeAt = 0
	}
}

// beginning is the number of steps before which a task is not regarded as
// being at work, because it may only find out that there is nothing to do; and
// ending the number of last steps before it waits or ends, in which it may
// already have given its place to another one.
const beginning, ending = 12, 12

// workSample is a task that can run after a number of its steps.
type workSample struct {
	t  *Task
	at int64
}

// busy returns the largest number of tasks besides the caller that were at work
// at the same time.
//
//go:norace
func (k *kernel) busy(caller *Task) int {
	best := 0
	for _, l := range k.atWork {
		n := 0
		for _, s := range l {
			end := s.t.steps
			if i := sort.Search(len(s.t.waits), func(i int) bool { return s.t.waits[i] >= s.at }); i < len(s.t.waits) {
				end = s.t.waits[i]
			}
			if s.t != caller && end-s.at >= ending {
				n++
			}
		}
		if n > best {
			best = n
		}
	}
	return best
}

//go:norace
func (k *kernel) block(t *Task) {
	if k.metering {
		t.waits = append(t.waits, t.steps)
	}
	t.state = stBlocked
	nblocked++
	k.out.Blocked++
}

// switchTo lets t run and waits for its next request.
//
//go:norace
func (k *kernel) switchTo(t *Task, q int64) {
	cur = t
	k.given = q
	budget = q
	t.started = true
	raceDisable()
	t.resume <- struct{}{}
	<-k.trap
	raceEnable()
	used := k.given
	if budget < 0 {
		budget = 0
	}
	used -= budget
	t.steps += used
	k.out.Steps += used
	k.out.Traps++
	k.gsteps[t.group] += used + 1
	k.now += 50*used + 200
	k.traceH = mixHash(k.traceH, uint64(t.id)<<40^uint64(used)<<8^uint64(t.op))
}

//go:norace
func (k *kernel) loop() {
	var keep *Task
	for {
		if k.abort {
			k.unwind(func(t *Task) bool { return true })
			return
		}
		if len(k.timers) > 0 || nblocked > 0 {
			k.fireTimers()
		}
		t := keep
		keep = nil
		var q int64
		if t == nil {
			var n int
			t, n = k.pick()
			if t == nil {
				if k.stuck() || k.abort {
					continue
				}
				return
			}
			q = k.quantum(n)
			if t != k.last {
				k.out.Switches++
				from := -1
				if k.last != nil {
					from = k.last.id
				}
				k.schedH = mixHash(k.schedH, uint64(from+1)<<20^uint64(t.id))
				if k.last != nil {
					k.schedH = mixHash(k.schedH, uint64(k.last.steps))
				}
				if k.cfg.Trace {
					k.event("run T%d(%s)", t.id, t.name)
				}
			}
			k.last = t
		} else {
			q = budget // rest of its quantum
		}
		if at, ok := k.killAt[t.group]; ok {
			left := at - k.gsteps[t.group]
			if left <= 0 {
				k.killGroup(t.group)
				continue
			}
			if q > left {
				q = left
			}
		}
		k.switchTo(t, q)
		if k.out.Steps+k.out.Traps > k.cfg.MaxSteps {
			k.fail("no-progress", fmt.Sprintf("no end after %d scheduler steps (limit): %s", k.cfg.MaxSteps, k.describe()))
			continue
		}
		if k.handle(t) {
			keep = t
		}
	}
}

// handle serves the request of t; it returns true if t goes on at once.
//
//go:norace
func (k *kernel) handle(t *Task) bool {
	switch t.op {
	case opYield:
		if k.cfg.Trace && t.pc != 0 {
			k.event("preempt T%d at %s", t.id, k.where(t.pc))
			t.pc = 0
		}
		return false
	case opBlock:
		t.keys = append(t.keys[:0:0], t.key)
		k.block(t)
		if k.cfg.Trace {
			k.event("T%d(%s) waits: %s", t.id, t.name, t.why)
		}
		return false
	case opWake:
		if t.key == nil {
			k.poll()
			return false
		}
		for _, o := range k.tasks {
			if o.state == stBlocked {
				for _, key := range o.keys {
					if key == t.key {
						o.ret = -2
						k.ready(o)
						break
					}
				}
			}
		}
		return false
	case opSpawn:
		g := t.group
		if t.nb {
			k.groups++
			g = k.groups
		}
		nt := k.newTask(t.str, g)
		if k.cfg.Trace {
			k.event("T%d(%s) starts T%d(%s)", t.id, t.name, nt.id, nt.name)
		}
		t.retVal = nt
		return true
	case opExit:
		k.exit(t)
		return false
	case opChoose:
		t.ret = int64(k.src.S[t.a].next(uint32(t.b), nil))
		k.traceH = mixHash(k.traceH, uint64(t.ret))
		return true
	case opRand:
		t.retU = k.rnd.Uint64()
		if k.cfg.Trace {
			k.event("T%d draws a random number", t.id)
		}
		return true
	case opSeedRand:
		k.rnd = rand.NewSource(t.a).(rand.Source64)
		if k.cfg.Trace {
			k.event("T%d seeds the random generator with %d", t.id, t.a)
		}
		return true
	case opMeter:
		t.ret, t.retU = k.out.Steps+k.out.Traps, uint64(k.busy(t))
		k.metering, k.atWork = true, nil
		return true
	case opNow:
		t.ret = k.now
		return true
	case opSleep:
		if t.a > 0 {
			t.wakeAt = k.now + t.a
			k.block(t)
		}
		return false
	case opFS:
		// a process may be killed in the middle of a write
		dies := false
		if at, ok := k.killAt[t.group]; ok && at < math.MaxInt64 && t.fs.op == fsWrite && len(t.fs.buf) > 1 {
			if n := k.src.S[StreamFault].next(uint32(len(t.fs.buf)), func(p *PRNG) uint32 {
				if p.Intn(6) > 0 {
					return 0
				}
				return uint32(p.Intn(len(t.fs.buf)))
			}); n > 0 {
				t.fs.buf = t.fs.buf[:n]
				dies = true
			}
		}
		lat := k.fs.serve(t.fs)
		if dies {
			k.out.Faults["fs.torn-write-at-crash"]++
			k.killAt[t.group] = 0
		}
		k.traceH = mixHash(k.traceH, uint64(t.fs.n)<<16^uint64(t.fs.errno))
		if k.cfg.Trace {
			k.event("T%d(%s) %s", t.id, t.name, t.fs.describe())
		}
		if lat > 0 {
			t.wakeAt = k.now + lat
			k.block(t)
			return false
		}
		return true
	case opLog:
		k.event("T%d(%s) %s", t.id, t.name, t.str)
		return true
	case opCount:
		m := k.out.Probes
		if t.a == 1 {
			m = k.out.Faults
		} else if t.a == 2 {
			k.cfg.MaxSteps += t.b
			return true
		}
		m[t.str] += int(t.b)
		return true
	case opFail:
		k.fail(t.str, t.why)
		return false
	case opSelect:
		return k.selectOp(t)
	case opTimer:
		k.seq++
		id := k.seq
		k.timers = append(k.timers, timer{at: k.now + t.a, seq: k.seq, id: id, fire: t.retVal.(func())})
		t.ret = id
		return true
	case opStopTimer:
		t.ret = 0
		for i, tm := range k.timers {
			if tm.id == t.a {
				k.timers = append(k.timers[:i], k.timers[i+1:]...)
				t.ret = 1
				break
			}
		}
		return true
	case opArmKill:
		k.killAt[int(t.a)] = t.b
		return true
	case opQuiesce:
		if k.live == 1 {
			t.ret = 0
			return true
		}
		t.quiesce = true
		t.why = "all others to come to rest"
		k.block(t)
		return false
	case opJoinGroup:
		// blocks until no task of the group is left
		if k.groupAlive(int(t.a)) {
			t.joining = int(t.a)
			k.block(t)
			return false
		}
		return true
	}
	panic(fmt.Sprintf("unknown request %d", t.op))
}

//go:norace
func (k *kernel) groupAlive(g int) bool {
	for _, o := range k.tasks {
		if o.state != stDone && o.group == g {
			return true
		}
	}
	return false
}

// wakeJoiners lets the tasks continue that waited for a group that has ended.
//
//go:norace
func (k *kernel) wakeJoiners() {
	for _, o := range k.tasks {
		if o.state == stBlocked && o.joining != 0 && !k.groupAlive(o.joining) {
			o.joining = 0
			k.ready(o)
		}
	}
}

//go:norace
func (k *kernel) exit(t *Task) {
	raceAcquire(unsafe.Pointer(&endSync))
	t.state = stDone
	k.live--
	k.wakeJoiners()
	if t.id == 0 {
		k.rootEnd = true
	}
	if k.cfg.Trace {
		k.event("T%d(%s) ends", t.id, t.name)
	}
	if t.panicked && !k.abort {
		who := "goroutine"
		if t.id == 0 {
			who = "caller"
		}
		msg := fmt.Sprint(t.panicVal)
		if h, ok := t.panicVal.(HarnessError); ok {
			k.out.Harness = string(h) + "\n" + t.stack
			k.abort = true
			return
		}
		k.fail("panic-in-"+who, msg+"\n"+trimStack(t.stack))
	}
}

// HarnessError is the panic value for errors of the harness itself.
type HarnessError string

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	var out []string
	seen := false
	for _, l := range lines {
		if strings.HasPrefix(l, "panic(") {
			seen = true
			continue
		}
		if seen && len(out) < 16 && !strings.Contains(l, "simrt/") && !strings.HasPrefix(l, "github.com/rom1mouret/ml-essentials/zzverif/simrt") {
			out = append(out, l)
		}
	}
	return strings.Join(out, "\n")
}

//go:norace
func (k *kernel) describe() string {
	var parts []string
	for _, t := range k.tasks {
		if t.state == stDone {
			continue
		}
		st := "runnable"
		if t.state == stBlocked {
			st = "waits: " + t.why
		}
		parts = append(parts, fmt.Sprintf("T%d(%s) %s", t.id, t.name, st))
		if len(parts) == 12 {
			parts = append(parts, "...")
			break
		}
	}
	return strings.Join(parts, "; ")
}

// poll lets the tasks that wait for channels look at them again.
//
//go:norace
func (k *kernel) poll() bool {
	found := false
	for _, o := range k.tasks {
		if o.state == stBlocked && o.op == opSelect {
			o.ret = -2
			k.ready(o)
			found = true
		}
	}
	return found
}

// stuck is called when nothing can run any more.
//
//go:norace
func (k *kernel) stuck() bool {
	if k.live == 0 {
		return false
	}
	if k.polledAt != k.out.Steps+1 {
		// channels may have been closed by code that is not instrumented
		k.polledAt = k.out.Steps + 1
		if k.poll() {
			return true
		}
	}
	if k.rootEnd {
		k.fail("goroutine-left-behind", "the calls returned but goroutines are blocked for ever: "+k.describe())
	} else {
		k.fail("deadlock", "all goroutines are blocked: "+k.describe())
	}
	return false
}

//go:norace
func (k *kernel) killGroup(g int) {
	delete(k.killAt, g)
	k.event("CRASH of process group %d", g)
	k.out.Faults["process.crash"]++
	k.unwind(func(t *Task) bool { return t.group == g })
	k.fs.closeGroup(g)
}

// unwind ends tasks, one after the other, without letting them do anything.
//
//go:norace
func (k *kernel) unwind(which func(t *Task) bool) {
	races := RaceErrors()
	// what the deferred calls of killed tasks access does not count
	defer func() { k.races += RaceErrors() - races }()
	for _, t := range k.tasks {
		if t.state == stDone || !which(t) {
			continue
		}
		t.killed = true
		if t.op == opExit {
			continue
		}
		k.ready(t)
		if !t.launched {
			// its creator was stopped before the go statement was completed
			t.state = stDone
			k.live--
			k.wakeJoiners()
			continue
		}
		for t.state != stDone {
			cur = t
			budget = math.MaxInt64
			raceDisable()
			t.resume <- struct{}{}
			<-k.trap
			raceEnable()
			if t.op == opExit {
				t.panicked = false
				k.exit(t)
			}
		}
	}
}

// selectOp serves a select on unbuffered channels.
//
//go:norace
func (k *kernel) selectOp(t *Task) bool {
	for i, e := range t.ents {
		for _, o := range k.tasks {
			if o == t || o.state != stBlocked {
				continue
			}
			for j, oe := range o.ents {
				if oe.key == e.key && oe.send != e.send {
					if e.send {
						o.retVal = e.val
					} else {
						t.retVal = oe.val
					}
					o.ret = int64(j)
					t.ret = int64(i)
					k.ready(o)
					t.ents = nil
					return false
				}
			}
		}
	}
	if t.nb {
		t.ret = -1
		t.ents = nil
		return true
	}
	k.block(t)
	if k.cfg.Trace {
		k.event("T%d(%s) waits: %s", t.id, t.name, t.why)
	}
	return false
}

// ----------------------------------------------------- services to scenarios

//go:norace
func choose(stream int, n int) int {
	if n <= 1 {
		return 0
	}
	t := cur
	t.a, t.b = int64(stream), int64(n)
	sys(opChoose)
	return int(t.ret)
}

// W draws a workload choice in [0, n).
func W(n int) int { return choose(StreamWorkload, n) }

// F draws a fault choice in [0, n).
func F(n int) int { return choose(StreamFault, n) }

// AllowSteps raises the number of steps that the run may take.
func AllowSteps(n int) { count(2, "", n) }

// Yield is an explicit scheduling point.
func Yield() { sys(opYield) }

// Go starts a client task.
func Go(name string, fn func()) { goNamed(name, fn) }

//go:norace
func cloneString(s string) string {
	b := make([]byte, len(s))
	for i := 0; i < len(s); i++ {
		b[i] = s[i]
	}
	return unsafe.String(unsafe.SliceData(b), len(b))
}

// Fail reports a violation and ends the run.
func Fail(class string, format string, args ...interface{}) {
	failMsg(class, fmt.Sprintf(format, args...))
	panic("unreachable")
}

//go:norace
func failMsg(class, msg string) {
	t := cur
	t.str, t.why = cloneString(class), cloneString(msg)
	sys(opFail)
}

// Broken reports that the harness itself is wrong.
func Broken(format string, args ...interface{}) {
	panic(HarnessError(fmt.Sprintf(format, args...)))
}

//go:norace
func count(which int, name string, n int) {
	t := cur
	t.a, t.b, t.str = int64(which), int64(n), name
	sys(opCount)
}

// Probe counts an event of interest; name must be a constant.
func Probe(name string) { count(0, name, 1) }

// ProbeIf counts an event of interest if cond holds.
func ProbeIf(cond bool, name string) {
	if cond {
		count(0, name, 1)
	}
}

// Fault counts an injected fault.
//
//go:norace
func Fault(name string) { count(1, name, 1) }

// Tracing tells whether events are kept.
//
//go:norace
func Tracing() bool { return kern != nil && kern.cfg.Trace }

// Log adds an event to the trace.
func Log(format string, args ...interface{}) {
	if Tracing() {
		logMsg(fmt.Sprintf(format, args...))
	}
}

//go:norace
func logMsg(msg string) {
	t := cur
	t.str = cloneString(msg)
	sys(opLog)
}

// NumBlockedOrRunnable returns the number of live tasks other than the caller.
//
//go:norace
func Others() int { return kern.live - 1 }

// Quiesce waits until all other tasks have ended or are blocked for ever, and
// returns the number of the latter.
//
//go:norace
func Quiesce() int {
	n := int(sys(opQuiesce).ret)
	raceAcquire(unsafe.Pointer(&endSync))
	return n
}

// Describe lists the live tasks.
//
//go:norace
func Describe() string { return kern.describe() }

// Meter returns the number of scheduler steps so far, and the largest number
// of tasks that were at work at the same time since the last call.
//
//go:norace
func Meter() (steps int64, busy int) {
	t := sys(opMeter)
	return t.ret, int(t.retU)
}

// Now returns the simulated time in ns.
//
//go:norace
func Now() int64 { return sys(opNow).ret }

// Process runs fn in a new process group: a task that, together with the
// tasks it starts, is killed after the given number of steps (0: never).
// It returns true if fn returned, false if the process was killed.
func Process(name string, killAfter int, fn func()) bool {
	st := &procState{}
	nt := spawn(name, true)
	g := groupOf(nt)
	if killAfter > 0 {
		armKill(g, killAfter)
	}
	startProc(nt, func() {
		fn()
		disarm(g)
		st.setDone()
	})
	joinGroup(g)
	raceAcquire(unsafe.Pointer(&endSync))
	return st.done()
}

//go:norace
func startProc(nt *Task, fn func()) {
	nt.launched = true
	go taskMain(nt, fn)
}

//go:norace
func groupOf(t *Task) int { return t.group }

type procState struct{ ok bool }

//go:norace
func (p *procState) setDone() { p.ok = true }

//go:norace
func (p *procState) done() bool { return p.ok }

//go:norace
func armKill(g, after int) {
	t := cur
	t.a, t.b = int64(g), int64(after)
	sys(opArmKill)
}

//go:norace
func disarm(g int) {
	t := cur
	t.a, t.b = int64(g), math.MaxInt64
	sys(opArmKill)
}

//go:norace
func joinGroup(g int) {
	t := cur
	t.a = int64(g)
	t.why = "end of process"
	sys(opJoinGroup)
}

// procSalt is what a process would get from real entropy before the simulation
// starts (package initialisation): it differs between worker processes.
//
//go:norace
func procSalt() int64 {
	h := fnv.New64a()
	h.Write([]byte(os.Getenv("ZZ_PROC")))
	return int64(h.Sum64() >> 1)
}

//go:norace
func sortedKeys(m map[string]int) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}
