//go:build go1.22

package main

import (
	"context"
	"fmt"
	"time"

	zzrt "github.com/rom1mouret/ml-essentials/zzverif/simrt"
)

// The self-test runs small programs with known defects: it fails if the
// simulator misses one or finds one that is not there.
type selfCase struct {
	name   string
	want   string // class of the failure, "" for none
	within int    // number of runs within which the failure must be found
	run    func(s *zzrt.Sim)
}

type counter struct{ v int }

func ys(n int) {
	for i := 0; i < n; i++ {
		zzrt.Y()
	}
}

var selfCases = []selfCase{
	{"unsynchronised counter", "data-race", 3, func(s *zzrt.Sim) {
		c := &counter{}
		var wg zzrt.WaitGroup
		wg.Add(2)
		for i := 0; i < 2; i++ {
			zzrt.Go("c", func() { defer wg.Done(); zzrt.Y(); c.v++; zzrt.Y() })
		}
		wg.Wait()
	}},
	{"mutex", "", 200, func(s *zzrt.Sim) {
		c := &counter{}
		var wg zzrt.WaitGroup
		var mu zzrt.Mutex
		wg.Add(3)
		for i := 0; i < 3; i++ {
			zzrt.Go("c", func() {
				defer wg.Done()
				for j := 0; j < 5; j++ {
					zzrt.Y()
					mu.Lock()
					x := c.v
					zzrt.Y()
					c.v = x + 1
					mu.Unlock()
				}
			})
		}
		wg.Wait()
		if c.v != 15 {
			zzrt.Fail("lost-update", "%d", c.v)
		}
	}},
	{"lost update without a race", "lost-update", 60, func(s *zzrt.Sim) {
		c := &counter{}
		var wg zzrt.WaitGroup
		var mu zzrt.Mutex
		wg.Add(2)
		for i := 0; i < 2; i++ {
			zzrt.Go("c", func() {
				defer wg.Done()
				mu.Lock()
				x := c.v
				mu.Unlock()
				ys(6)
				mu.Lock()
				c.v = x + 1
				mu.Unlock()
			})
		}
		wg.Wait()
		if c.v != 2 {
			zzrt.Fail("lost-update", "%d", c.v)
		}
	}},
	{"lock order", "deadlock", 100, func(s *zzrt.Sim) {
		var a, b zzrt.Mutex
		var wg zzrt.WaitGroup
		wg.Add(2)
		zzrt.Go("ab", func() {
			a.Lock()
			ys(6)
			b.Lock()
			b.Unlock()
			a.Unlock()
			wg.Done()
		})
		zzrt.Go("ba", func() {
			b.Lock()
			ys(6)
			a.Lock()
			a.Unlock()
			b.Unlock()
			wg.Done()
		})
		wg.Wait()
	}},
	{"unbuffered channel", "", 200, func(s *zzrt.Sim) {
		ch := make(chan int)
		done := make(chan *counter)
		zzrt.Go("recv", func() {
			c := &counter{}
			for it, v := zzrt.ChanIter(ch); it.Next(&v); {
				c.v += v
			}
			zzrt.SendTo(done)(c)
		})
		for i := 1; i <= 10; i++ {
			zzrt.SendTo(ch)(i)
		}
		zzrt.Close(ch)
		if c := zzrt.Recv(done); c.v != 55 {
			zzrt.Fail("sum", "%d", c.v)
		}
	}},
	{"buffered channel as a semaphore", "", 100, func(s *zzrt.Sim) {
		ch := make(chan int, 2)
		c := &counter{}
		zzrt.Go("w", func() { c.v = 7; zzrt.SendTo(ch)(1) })
		zzrt.Recv(ch)
		if c.v != 7 {
			zzrt.Fail("order", "")
		}
	}},
	{"receiver forgotten", "goroutine-left-behind", 2, func(s *zzrt.Sim) {
		ch := make(chan int)
		zzrt.Go("w", func() { zzrt.SendTo(ch)(1) })
	}},
	{"select with time-out", "", 60, func(s *zzrt.Sim) {
		ch := make(chan int)
		zzrt.Go("w", func() { zzrt.TimeSleep(time.Second); zzrt.SendTo(ch)(1) })
		tm := zzrt.TimeAfter(10 * time.Millisecond)
		a, b := zzrt.RecvCase(ch), zzrt.RecvCase(tm)
		if zzrt.Select(false, a, b) != 1 {
			zzrt.Fail("timeout", "")
		}
		if zzrt.Recv(ch) != 1 {
			zzrt.Fail("value", "")
		}
	}},
	{"livelock", "no-progress", 2, func(s *zzrt.Sim) {
		for {
			zzrt.Y()
		}
	}},
	{"crash loses the process only", "", 60, func(s *zzrt.Sim) {
		n := 0
		ok := zzrt.Process("p", 1+zzrt.F(60), func() {
			f, err := zzrt.OsCreate("/sim/x")
			if err != nil {
				zzrt.Fail("create", "%v", err)
			}
			for i := 0; i < 30; i++ {
				zzrt.Y()
				f.Write([]byte("ab"))
				n++
			}
			f.Close()
		})
		data, _ := zzrt.GetFile("/sim/x")
		if ok && len(data) != 60 || zzrt.OpenFiles() != 0 {
			zzrt.Fail("crash", "%v %d open %d", ok, len(data), zzrt.OpenFiles())
		}
	}},
	{"crash of a process with blocked goroutines", "", 60, func(s *zzrt.Sim) {
		zzrt.Process("p", 1+zzrt.F(40), func() {
			ch := make(chan int)
			var wg zzrt.WaitGroup
			for i := 0; i < 3; i++ {
				wg.Add(1)
				zzrt.Go("w", func() { defer wg.Done(); zzrt.Y(); zzrt.Recv(ch) })
			}
			for i := 0; i < 3; i++ {
				zzrt.Y()
				zzrt.SendTo(ch)(i)
			}
			wg.Wait()
		})
	}},
	{"panic in a goroutine", "panic-in-goroutine", 1, func(s *zzrt.Sim) {
		var wg zzrt.WaitGroup
		wg.Add(1)
		zzrt.Go("w", func() { defer wg.Done(); var m map[string]int; m["a"] = 1 })
		wg.Wait()
	}},
	{"condition variable", "", 100, func(s *zzrt.Sim) {
		var mu zzrt.Mutex
		c := zzrt.SyncNewCond(&mu)
		ready := false
		zzrt.Go("w", func() { mu.Lock(); ready = true; c.Broadcast(); mu.Unlock() })
		mu.Lock()
		for !ready {
			c.Wait()
		}
		mu.Unlock()
	}},
	{"map race", "data-race", 3, func(s *zzrt.Sim) {
		m := map[string]int{"a": 1}
		var wg zzrt.WaitGroup
		wg.Add(2)
		zzrt.Go("r", func() { defer wg.Done(); zzrt.Y(); _ = m["a"] })
		zzrt.Go("w", func() { defer wg.Done(); zzrt.Y(); m["b"] = 2 })
		wg.Wait()
	}},
	{"condition variable with two kinds of waiters", "", 200, func(s *zzrt.Sim) {
		var mu zzrt.Mutex
		c := zzrt.SyncNewCond(&mu)
		items, taken := 0, 0
		var wg zzrt.WaitGroup
		wg.Add(4)
		for i := 0; i < 3; i++ {
			zzrt.Go("take", func() {
				defer wg.Done()
				mu.Lock()
				for items == 0 {
					c.Wait()
				}
				items--
				taken++
				mu.Unlock()
			})
		}
		zzrt.Go("put", func() {
			defer wg.Done()
			for i := 0; i < 3; i++ {
				zzrt.Y()
				mu.Lock()
				items++
				c.Signal()
				mu.Unlock()
			}
		})
		wg.Wait()
		if taken != 3 {
			zzrt.Fail("taken", "%d", taken)
		}
	}},
	{"context", "", 200, func(s *zzrt.Sim) {
		ctx, cancel := zzrt.ContextWithCancel(context.Background())
		sub, cancel2 := zzrt.ContextWithTimeout(ctx, time.Hour)
		var wg zzrt.WaitGroup
		wg.Add(2)
		for i := 0; i < 2; i++ {
			zzrt.Go("wait", func() {
				defer wg.Done()
				zzrt.Select(false, zzrt.RecvCase(sub.Done()))
			})
		}
		zzrt.Y()
		cancel()
		wg.Wait()
		cancel2()
		if sub.Err() != context.Canceled {
			zzrt.Fail("context", "%v", sub.Err())
		}
		late, cancel3 := zzrt.ContextWithTimeout(context.Background(), time.Second)
		zzrt.Recv(late.Done())
		if late.Err() != context.DeadlineExceeded {
			zzrt.Fail("context", "%v", late.Err())
		}
		cancel3()
	}},
	{"ticker", "", 50, func(s *zzrt.Sim) {
		tk := zzrt.TimeNewTicker(time.Second)
		t0 := zzrt.TimeNow()
		for i := 0; i < 3; i++ {
			zzrt.Recv(tk.C)
		}
		tk.Stop()
		if d := zzrt.TimeSince(t0); d < 3*time.Second || d > 4*time.Second {
			zzrt.Fail("ticker", "%v", d)
		}
	}},
	{"files are not shared memory", "", 50, func(s *zzrt.Sim) {
		var wg zzrt.WaitGroup
		wg.Add(3)
		for i := 0; i < 3; i++ {
			zzrt.Go("w", func() {
				defer wg.Done()
				name := fmt.Sprint("/sim/f", i)
				zzrt.OsWriteFile(name, []byte(name), 0644)
				if d, _ := zzrt.OsReadFile(name); string(d) != name {
					zzrt.Fail("file", "%q", d)
				}
			})
		}
		wg.Wait()
	}},
}

// selfTest returns a description of what does not work.
func selfTest() string {
	for _, c := range selfCases {
		if c.want == "data-race" && !zzrt.RaceEnabled {
			continue
		}
		sc := &Scenario{ID: "self", Run: c.run, MaxSteps: 20000}
		found := false
		for i := 0; i < c.within; i++ {
			seed := zzrt.Mix(99, uint64(i))
			cfg := drawConfig(sc, seed)
			if cfg.Policy.Kind == 0 {
				cfg.Policy.Kind = 1
			}
			cfg.Policy.Mean = 1 + i%4
			src := zzrt.NewSource(seed)
			o := exec(sc, cfg, src)
			if o.Harness != "" {
				return c.name + ": " + o.Harness
			}
			if o.Fail != nil && o.Fail.Class != c.want {
				return fmt.Sprintf("%s: run %d: unexpected %s: %s", c.name, i, o.Fail.Class, o.Fail.Msg)
			}
			o2 := exec(sc, cfg, zzrt.ReplaySource(src.Recording()))
			if (o2.Fail == nil) != (o.Fail == nil) || o2.TraceHash != o.TraceHash {
				return fmt.Sprintf("%s: run %d: the replay differs", c.name, i)
			}
			if o.Fail != nil {
				found = true
			}
		}
		if found != (c.want != "") {
			return fmt.Sprintf("%s: %q not found in %d runs", c.name, c.want, c.within)
		}
	}
	return ""
}
