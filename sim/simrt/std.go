package zzrt

import (
	"context"
	crand "crypto/rand"
	"io"
	"math/big"
	"math/rand"
	"runtime"
	"time"
	"unsafe"
)

// ------------------------------------------------------------------- rand

// simSource is the global generator: its state lives in the kernel, so that
// concurrent uses do not synchronise with each other.
type simSource struct{}

var initSource rand.Source64

//go:norace
func (simSource) Uint64() uint64 {
	if cur == nil {
		if initSource == nil {
			initSource = rand.NewSource(procSalt()).(rand.Source64)
		}
		return initSource.Uint64()
	}
	return sys(opRand).retU
}

func (s simSource) Int63() int64 { return int64(s.Uint64() >> 1) }
func (s simSource) Seed(v int64) { RandSeed(v) }

func gr() *rand.Rand { return rand.New(simSource{}) }

//go:norace
func RandSeed(seed int64) {
	if cur == nil {
		initSource = rand.NewSource(seed).(rand.Source64)
		return
	}
	cur.a = seed
	sys(opSeedRand)
}

func RandInt() int                             { return gr().Int() }
func RandIntn(n int) int                       { return gr().Intn(n) }
func RandInt31() int32                         { return gr().Int31() }
func RandInt31n(n int32) int32                 { return gr().Int31n(n) }
func RandInt63() int64                         { return gr().Int63() }
func RandInt63n(n int64) int64                 { return gr().Int63n(n) }
func RandUint32() uint32                       { return gr().Uint32() }
func RandUint64() uint64                       { return gr().Uint64() }
func RandFloat32() float32                     { return gr().Float32() }
func RandFloat64() float64                     { return gr().Float64() }
func RandNormFloat64() float64                 { return gr().NormFloat64() }
func RandExpFloat64() float64                  { return gr().ExpFloat64() }
func RandPerm(n int) []int                     { return gr().Perm(n) }
func RandShuffle(n int, swap func(i, j int))   { gr().Shuffle(n, swap) }
func RandRead(p []byte) (int, error)           { return gr().Read(p) }
func RandV2IntN(n int) int                     { return gr().Intn(n) }
func RandV2Int() int                           { return gr().Int() }
func RandV2Int64() int64                       { return gr().Int63() }
func RandV2Int64N(n int64) int64               { return gr().Int63n(n) }
func RandV2Uint32() uint32                     { return gr().Uint32() }
func RandV2Uint64() uint64                     { return gr().Uint64() }
func RandV2Float64() float64                   { return gr().Float64() }
func RandV2NormFloat64() float64               { return gr().NormFloat64() }
func RandV2Perm(n int) []int                   { return gr().Perm(n) }
func RandV2Shuffle(n int, swap func(i, j int)) { gr().Shuffle(n, swap) }

func RandV2Int32() int32            { return gr().Int31() }
func RandV2Int32N(n int32) int32    { return gr().Int31n(n) }
func RandV2UintN(n uint) uint       { return uint(gr().Int63n(int64(n))) }
func RandV2Uint32N(n uint32) uint32 { return uint32(gr().Int63n(int64(n))) }
func RandV2Uint64N(n uint64) uint64 { return uint64(gr().Int63n(int64(n))) }
func RandV2Float32() float32        { return gr().Float32() }
func RandV2ExpFloat64() float64     { return gr().ExpFloat64() }

// RandV2N replaces rand.N of math/rand/v2.
func RandV2N[T ~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr](n T) T {
	return T(gr().Int63n(int64(n)))
}

// CryptorandRead replaces crypto/rand.Read: entropy comes from the simulator too.
func CryptorandRead(p []byte) (int, error) { return gr().Read(p) }

// CryptorandReader replaces crypto/rand.Reader.
var CryptorandReader io.Reader = readerFunc(CryptorandRead)

type readerFunc func(p []byte) (int, error)

func (f readerFunc) Read(p []byte) (int, error) { return f(p) }

// CryptorandInt replaces crypto/rand.Int.
func CryptorandInt(r io.Reader, max *big.Int) (*big.Int, error) { return crand.Int(r, max) }

// ------------------------------------------------------------------- time

// TimeNow returns the simulated wall-clock time.
func TimeNow() time.Time {
	if !inSim() {
		return baseTime
	}
	return baseTime.Add(time.Duration(Now()))
}

func TimeSince(t time.Time) time.Duration { return TimeNow().Sub(t) }
func TimeUntil(t time.Time) time.Duration { return t.Sub(TimeNow()) }

//go:norace
func TimeSleep(d time.Duration) {
	t := cur
	t.a, t.why = int64(d), "sleep"
	sys(opSleep)
}

// Timer replaces time.Timer.
type Timer struct {
	C  <-chan time.Time
	c  chan time.Time
	f  func()
	fc chan bool
	id int64
}

//go:norace
func startTimer(d time.Duration, fire func()) int64 {
	t := cur
	if d < 0 {
		d = 0
	}
	t.a, t.retVal = int64(d), fire
	return sys(opTimer).ret
}

//go:norace
func kernWake(key unsafe.Pointer) {
	for _, o := range kern.tasks {
		if o.state == stBlocked {
			for _, k := range o.keys {
				if k == key {
					o.ret = -2
					kern.ready(o)
					break
				}
			}
		}
	}
}

func (tm *Timer) start(d time.Duration) {
	if tm.f != nil {
		f := tm.f
		ch := make(chan bool, 1)
		tm.fc = ch
		// AfterFunc: a task that waits for the timer
		tm.id = startTimer(d, fireFunc(ch))
		goNamed("timer", func() {
			if Recv((<-chan bool)(ch)) {
				f()
			}
		})
		return
	}
	tm.id = startTimer(d, fireTime(tm.c))
}

//go:norace
func fireTime(c chan time.Time) func() {
	return func() {
		select {
		case c <- baseTime.Add(time.Duration(kern.now)):
		default:
		}
		kernWake(*(*unsafe.Pointer)(unsafe.Pointer(&c)))
	}
}

//go:norace
func fireFunc(c chan bool) func() {
	return func() {
		c <- true
		kernWake(*(*unsafe.Pointer)(unsafe.Pointer(&c)))
	}
}

//go:norace
func (tm *Timer) Stop() bool {
	t := cur
	t.a = tm.id
	if sys(opStopTimer).ret != 1 {
		return false
	}
	if tm.fc != nil {
		SendTo((chan<- bool)(tm.fc))(false) // its task has nothing to do any more
	}
	return true
}

// Reset replaces time.Timer.Reset.
func (tm *Timer) Reset(d time.Duration) bool {
	was := tm.Stop()
	tm.start(d)
	return was
}

// TimeNewTimer replaces time.NewTimer.
func TimeNewTimer(d time.Duration) *Timer {
	c := make(chan time.Time, 1)
	tm := &Timer{C: c, c: c}
	tm.start(d)
	return tm
}

// TimeAfter replaces time.After.
func TimeAfter(d time.Duration) <-chan time.Time { return TimeNewTimer(d).C }

// TimeAfterFunc replaces time.AfterFunc.
func TimeAfterFunc(d time.Duration, f func()) *Timer {
	tm := &Timer{f: f}
	tm.start(d)
	return tm
}

// Ticker replaces time.Ticker.
type Ticker struct {
	C  <-chan time.Time
	c  chan time.Time
	d  time.Duration
	id int64
	on bool
}

// TimeNewTicker replaces time.NewTicker.
func TimeNewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan time.Time, 1)
	tk := &Ticker{C: c, c: c}
	tk.Reset(d)
	return tk
}

// TimeTick replaces time.Tick.
func TimeTick(d time.Duration) <-chan time.Time {
	if d <= 0 {
		return nil
	}
	return TimeNewTicker(d).C
}

//go:norace
func (tk *Ticker) Stop() {
	if tk.on {
		tk.on = false
		cur.a = tk.id
		sys(opStopTimer)
	}
}

// Reset replaces time.Ticker.Reset.
//
//go:norace
func (tk *Ticker) Reset(d time.Duration) {
	tk.Stop()
	tk.d, tk.on = d, true
	tk.id = startTimer(d, tk.fire())
}

func (tk *Ticker) fire() func() { return func() { tickFire(tk) } }

//go:norace
func tickFire(tk *Ticker) {
	select {
	case tk.c <- baseTime.Add(time.Duration(kern.now)):
	default:
	}
	kernWake(*(*unsafe.Pointer)(unsafe.Pointer(&tk.c)))
	if tk.on {
		kern.timers = append(kern.timers, timer{at: kern.now + int64(tk.d), seq: kern.seq, id: tk.id, fire: tk.fire()})
	}
}

// ---------------------------------------------------------------- context

// Contexts are real, except that the simulator learns of their cancellation,
// and that deadlines are those of the simulated clock.

type simCtx struct {
	context.Context
	deadline time.Time
	late     *bool
	mu       *Mutex
}

func (c *simCtx) Deadline() (time.Time, bool) {
	if d, ok := c.Context.Deadline(); ok && d.Before(c.deadline) {
		return d, true
	}
	return c.deadline, true
}

func (c *simCtx) Err() error {
	err := c.Context.Err()
	if err != nil {
		c.mu.Lock()
		defer c.mu.Unlock()
		if *c.late {
			return context.DeadlineExceeded
		}
	}
	return err
}

// wakeAll lets every task look again at the channels it waits for.
//
//go:norace
func wakeAll() {
	if cur == nil {
		return
	}
	cur.key = nil
	sys(opWake)
}

// ContextWithCancel replaces context.WithCancel.
func ContextWithCancel(parent context.Context) (context.Context, context.CancelFunc) {
	ctx, cancel := context.WithCancel(parent)
	return ctx, func() { Yield(); cancel(); wakeAll() }
}

// ContextWithCancelCause replaces context.WithCancelCause.
func ContextWithCancelCause(parent context.Context) (context.Context, context.CancelCauseFunc) {
	ctx, cancel := context.WithCancelCause(parent)
	return ctx, func(err error) { Yield(); cancel(err); wakeAll() }
}

// ContextWithTimeout replaces context.WithTimeout.
func ContextWithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	ctx, cancel := context.WithCancelCause(parent)
	c := &simCtx{ctx, TimeNow().Add(d), new(bool), new(Mutex)}
	tm := TimeAfterFunc(d, func() {
		c.mu.Lock()
		if ctx.Err() == nil {
			*c.late = true
			cancel(context.DeadlineExceeded)
		}
		c.mu.Unlock()
		wakeAll()
	})
	return c, func() { tm.Stop(); cancel(nil); wakeAll() }
}

// ContextWithDeadline replaces context.WithDeadline.
func ContextWithDeadline(parent context.Context, t time.Time) (context.Context, context.CancelFunc) {
	return ContextWithTimeout(parent, TimeUntil(t))
}

// ---------------------------------------------------------------- runtime

// RuntimeNumCPU returns the simulated number of processors.
//
//go:norace
func RuntimeNumCPU() int {
	if cur == nil {
		return 4
	}
	return kern.cfg.NumCPU
}

// RuntimeGOMAXPROCS replaces runtime.GOMAXPROCS.
func RuntimeGOMAXPROCS(n int) int { return RuntimeNumCPU() }

// RuntimeGosched is a scheduling point.
func RuntimeGosched() { Yield() }

// RuntimeNumGoroutine returns the number of simulated goroutines.
//
//go:norace
func RuntimeNumGoroutine() int {
	if cur == nil {
		return 1
	}
	return kern.live
}

var _ = runtime.NumCPU
