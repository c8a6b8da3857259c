//go:build go1.22

package main

import (
	"fmt"
	"strings"

	"github.com/rom1mouret/ml-essentials/utils"
	zzrt "github.com/rom1mouret/ml-essentials/zzverif/simrt"
)

// The work queue behind every multi-threaded call, with workers that behave
// in all the ways they may.

// queueJob is what a worker does for a key; every key has its own.
type queueJob struct {
	key    string
	taken  int // written without synchronisation, like the columns of a frame
	err    error
	result interface{}
}

func genKeys() []string {
	n := oneOf(0, 1, 2, 3, 4, 5, 8, 13, 40, 129)
	keys := manyNames(n)
	if n > 1 && chance(25) { // equal keys are jobs of their own
		for k := 1 + w(3); k > 0; k-- {
			keys[w(n)] = keys[w(n)]
		}
	}
	return keys
}

func runQueue(id int) {
	keys := genKeys()
	limit := oneOf(1, 1, 2, 3, 4, 7, 16, 200)
	what := fmt.Sprintf("queue %d of %d keys and at most %d workers", id, len(keys), limit)
	given := append([]string{}, keys...)
	var q utils.StringQ
	guard("CreateStringQueue", func() { q = utils.CreateStringQueue(keys, limit) })
	if q.Workers < 1 || q.Workers > limit || len(keys) > 0 && q.Workers > len(keys) {
		zzrt.Fail("wrong-workers", "%s: %d workers", what, q.Workers)
	}
	jobs := map[string][]*queueJob{}
	pending := map[string]int{} // occurrences handed out
	for i, k := range keys {
		j := &queueJob{key: k}
		if chance(10) {
			j.err = fmt.Errorf("job %d failed", i)
		}
		if w(2) == 0 {
			j.result = i
		}
		jobs[k] = append(jobs[k], j)
	}
	var mu zzrt.Mutex // only for the occurrences of equal keys
	take := func(k string) *queueJob {
		l := jobs[k]
		if len(l) == 1 {
			return l[0]
		}
		mu.Lock()
		defer mu.Unlock()
		if pending[k] >= len(l) {
			zzrt.Fail("repeated-key", "%s: %q is handed out more than %d times", what, k, len(l))
		}
		pending[k]++
		return l[pending[k]-1]
	}
	n := q.Workers
	switch w(5) {
	case 3: // more workers than proposed
		n += 1 + w(3)
	case 4:
		n = 1 + w(n)
	}
	style := make([]int, n)
	for i := range style {
		style[i] = w(5)
	}
	worker := func(i int) func() {
		return func() {
			done := 0
			for {
				key, more := q.Next()
				if !more {
					break
				}
				j := take(key)
				j.taken++
				if j.taken > 1 || jobs[key] == nil {
					zzrt.Fail("repeated-key", "%s: %q is handed out twice", what, key)
				}
				if zzrt.F(6) == 5 {
					zzrt.Fault("worker.stall")
					zzrt.TimeSleep(1000000)
				}
				n := utils.ProcessedJob{Key: key, Error: j.err, Result: j.result}
				switch style[i] {
				case 1: // all at the end
					defer q.Notify(n)
				case 2: // by somebody else
					zzrt.Go("notifier", func() { q.Notify(n) })
				default:
					q.Notify(n)
				}
				done++
				if style[i] == 3 && i > 0 && done >= 2 { // gives up; the others go on
					zzrt.Fault("worker.quits")
					return
				}
			}
			if key, more := q.Next(); more || key != "" {
				zzrt.Fail("no-end", "%s: the key %q follows the end", what, key)
			}
		}
	}
	for i := 0; i < n; i++ {
		fn := worker(i)
		zzrt.Go(fmt.Sprint("worker", i), func() { guard(what, fn) })
	}
	verify := func() {
		for _, l := range jobs {
			for _, j := range l {
				if j.taken != 1 {
					zzrt.Fail("lost-key", "%s: %q is processed %d times when the queue is finished", what, j.key, j.taken)
				}
			}
		}
	}
	if w(2) == 0 {
		guard("Wait", q.Wait)
		verify()
		zzrt.Probe("waited")
	} else {
		var l []utils.ProcessedJob
		guard("Results", func() { l = q.Results() })
		verify()
		var got, want []string
		for _, r := range l {
			got = append(got, fmt.Sprintf("%q %v %v", r.Key, r.Error, r.Result))
		}
		for _, js := range jobs {
			for _, j := range js {
				want = append(want, fmt.Sprintf("%q %v %v", j.key, j.err, j.result))
			}
		}
		if !sameSet(got, want) {
			zzrt.Fail("wrong-results", "%s: the results are %s instead of %s", what, strings.Join(sorted(got), ", "), strings.Join(sorted(want), ", "))
		}
		zzrt.Probe("results")
	}
	for i := range keys {
		if keys[i] != given[i] {
			zzrt.Fail("keys-changed", "%s: the list of keys becomes %q", what, keys)
		}
	}
	checked()
}

func c24(s *zzrt.Sim) {
	k := 1 + w(3)
	if k == 1 || w(2) == 0 {
		for i := 0; i < k; i++ {
			runQueue(i)
			rest("the queue")
		}
		return
	}
	var fns []func()
	for i := 0; i < k; i++ {
		i := i
		fns = append(fns, func() { runQueue(i) })
	}
	together(fns...)
	rest("the queues")
}

func init() {
	register(&Scenario{ID: "C24", Run: c24})
}
