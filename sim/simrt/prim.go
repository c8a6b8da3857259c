package zzrt

import (
	"fmt"
	"reflect"
	"runtime"
	"sort"
	"sync"
	"unsafe"
)

// ----------------------------------------------------------------- helpers

//go:norace
func inSim() bool { return cur != nil }

//go:norace
func block(key unsafe.Pointer, why string) {
	t := cur
	t.key, t.why = key, why
	sys(opBlock)
}

//go:norace
func wake(key unsafe.Pointer) {
	if nblocked == 0 || cur == nil {
		return
	}
	cur.key = key
	sys(opWake)
}

// GoAny returns a function that runs f as a new task.
// The arguments are evaluated by the caller, as a go statement does.
func GoAny[F any](f F) F {
	if !inSim() {
		Broken("go statement outside of a simulation")
	}
	v := reflect.ValueOf(f)
	if v.IsNil() {
		panic("go of nil func value")
	}
	typ := v.Type()
	name := "go"
	if fn := runtime.FuncForPC(v.Pointer()); fn != nil {
		name = fn.Name()
		for i := len(name) - 1; i >= 0; i-- {
			if name[i] == '/' {
				name = name[i+1:]
				break
			}
		}
	}
	if g, ok := any(f).(func()); ok {
		return any(func() { goNamed(name, g) }).(F)
	}
	w := reflect.MakeFunc(typ, func(args []reflect.Value) []reflect.Value {
		goNamed(name, func() {
			if typ.IsVariadic() {
				v.CallSlice(args)
			} else {
				v.Call(args)
			}
		})
		res := make([]reflect.Value, typ.NumOut())
		for i := range res {
			res[i] = reflect.Zero(typ.Out(i))
		}
		return res
	})
	return w.Interface().(F)
}

// ---------------------------------------------------------------- channels

// Buffered channels keep their data in the real channel, which is only ever
// used with non-blocking operations; unbuffered channels are rendezvous in the
// kernel.  Closed channels are really closed.

//go:norace
func chanPtr[T any](ch <-chan T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }

//go:norace
func sendPtr[T any](ch chan<- T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }

// Case is a case of a select statement.
type Case interface {
	try() bool // non-blocking attempt on the real channel
	entry() selEntry
	buffered() bool
	done(v interface{}) // completed by the kernel
}

type recvCase[T any] struct {
	ch <-chan T
	v  T
	ok bool
}

func (c *recvCase[T]) try() bool {
	select {
	case c.v, c.ok = <-c.ch:
		return true
	default:
		return false
	}
}
func (c *recvCase[T]) entry() selEntry { return selEntry{key: chanPtr(c.ch)} }
func (c *recvCase[T]) buffered() bool  { return c.ch == nil || cap(c.ch) > 0 }
func (c *recvCase[T]) done(v interface{}) {
	c.v, c.ok = v.(*box[T]).v, true
}

// Get returns the received value.
func (c *recvCase[T]) Get() T { return c.v }

// Get2 returns the received value and whether it came from a send.
func (c *recvCase[T]) Get2() (T, bool) { return c.v, c.ok }

type box[T any] struct{ v T }

type sendCase[T any] struct {
	ch chan<- T
	v  T
}

func (c *sendCase[T]) try() bool {
	select {
	case c.ch <- c.v:
		return true
	default:
		return false
	}
}
func (c *sendCase[T]) entry() selEntry {
	return selEntry{key: sendPtr(c.ch), send: true, val: &box[T]{c.v}}
}
func (c *sendCase[T]) buffered() bool     { return c.ch == nil || cap(c.ch) > 0 }
func (c *sendCase[T]) done(v interface{}) {}

// RecvCase makes a receive case.
func RecvCase[T any](ch <-chan T) *recvCase[T] { return &recvCase[T]{ch: ch} }

// SendCase makes a send case.
func SendCase[T any](ch chan<- T) func(T) *sendCase[T] {
	return func(v T) *sendCase[T] { return &sendCase[T]{ch: ch, v: v} }
}

//go:norace
func selectBlocked(ents []selEntry, keys []unsafe.Pointer, nb bool, why string) (int, interface{}) {
	t := cur
	t.ents, t.keys, t.nb, t.why = ents, keys, nb, why
	sys(opSelect)
	return int(t.ret), t.retVal
}

// Select performs a select statement and returns the index of its case, or -1.
//
//go:norace
func Select(hasDefault bool, cases ...Case) int {
	alive()
	why := "select"
	if !inSim() {
		Broken("select outside of a simulation")
	}
	n := len(cases)
	for {
		start := 0
		if n > 1 {
			start = choose(StreamSchedule, n)
		}
		var ents []selEntry
		var keys []unsafe.Pointer
		var idx []int
		for j := 0; j < n; j++ {
			i := (start + j) % n
			c := cases[i]
			e := c.entry()
			if e.key == nil {
				continue
			}
			if c.try() {
				wake(e.key)
				return i
			}
			keys = append(keys, e.key)
			if !c.buffered() {
				raceReleaseMerge(e.key)
				ents = append(ents, e)
				idx = append(idx, i)
			}
		}
		if hasDefault && len(ents) == 0 {
			return -1
		}
		if n == 1 {
			why = "channel " + map[bool]string{true: "send", false: "receive"}[cases[0].entry().send]
		}
		r, v := selectBlocked(ents, keys, hasDefault, why)
		if r >= 0 {
			c := cases[idx[r]]
			raceAcquire(ents[r].key)
			c.done(v)
			return idx[r]
		}
		if r == -1 {
			return -1
		}
	}
}

// SendTo returns a function that sends its argument to ch.
func SendTo[T any](ch chan<- T) func(T) {
	return func(v T) { Select(false, &sendCase[T]{ch: ch, v: v}) }
}

// Recv receives from ch.
func Recv[T any](ch <-chan T) T {
	c := recvCase[T]{ch: ch}
	Select(false, &c)
	return c.v
}

// Recv2 receives from ch.
func Recv2[T any](ch <-chan T) (T, bool) {
	c := recvCase[T]{ch: ch}
	Select(false, &c)
	return c.v, c.ok
}

// Close closes ch.
func Close[T any](ch chan<- T) {
	alive()
	close(ch)
	wake(sendPtr(ch))
}

// ChanIt iterates over a channel.
type ChanIt[T any] struct {
	ch <-chan T
	v  T
}

// ChanIter starts the iteration over ch.
func ChanIter[T any](ch <-chan T) (*ChanIt[T], T) {
	var zero T
	return &ChanIt[T]{ch: ch}, zero
}

// ChanIter1 starts the iteration over ch.
func ChanIter1[T any](ch <-chan T) *ChanIt[T] { return &ChanIt[T]{ch: ch} }

// Next receives the next value.
func (it *ChanIt[T]) Next(p *T) bool {
	v, ok := Recv2(it.ch)
	if !ok {
		return false
	}
	it.v = v
	if p != nil {
		*p = v
	}
	return true
}

// K returns the current value.
func (it *ChanIt[T]) K() T { return it.v }

// -------------------------------------------------------------------- maps

// MapIt iterates over a map in an order chosen by the simulator.
type MapIt[K comparable, V any] struct {
	m    map[K]V
	keys []K
	i    int
	k    K
	v    V
}

//go:norace
func mapOrder() bool { return cur != nil && kern.cfg.MapOrder }

// MapIter1 starts the iteration over m.
func MapIter1[M ~map[K]V, K comparable, V any](m M) *MapIt[K, V] {
	it := &MapIt[K, V]{m: m}
	if len(m) == 0 {
		return it
	}
	it.keys = make([]K, 0, len(m))
	for k := range m {
		it.keys = append(it.keys, k)
	}
	if len(it.keys) < 2 {
		return it
	}
	switch ks := any(it.keys).(type) {
	case []string:
		sort.Strings(ks)
	case []int:
		sort.Ints(ks)
	default:
		ss := make([]string, len(it.keys))
		for i, k := range it.keys {
			ss[i] = fmt.Sprintf("%T %020v", k, k)
		}
		sort.Sort(&byName[K]{ss, it.keys})
	}
	if mapOrder() {
		n := len(it.keys)
		o := choose(StreamMap, 1<<20)
		switch {
		case o == 0:
		case o == 1 || n == 2 && o%2 == 1:
			for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
				it.keys[i], it.keys[j] = it.keys[j], it.keys[i]
			}
		case n > 2:
			p := PRNG(o)
			for i := n - 1; i > 0; i-- {
				j := p.Intn(i + 1)
				it.keys[i], it.keys[j] = it.keys[j], it.keys[i]
			}
		}
	}
	return it
}

// MapIter starts the iteration over m.
func MapIter[M ~map[K]V, K comparable, V any](m M) (*MapIt[K, V], K, V) {
	it := MapIter1[M, K, V](m)
	return it, it.k, it.v
}

type byName[K any] struct {
	s []string
	k []K
}

func (b *byName[K]) Len() int           { return len(b.s) }
func (b *byName[K]) Less(i, j int) bool { return b.s[i] < b.s[j] }
func (b *byName[K]) Swap(i, j int) {
	b.s[i], b.s[j] = b.s[j], b.s[i]
	b.k[i], b.k[j] = b.k[j], b.k[i]
}

// Next goes to the next entry that is still in the map.
func (it *MapIt[K, V]) Next(pk *K, pv *V) bool {
	for it.i < len(it.keys) {
		k := it.keys[it.i]
		it.i++
		v, ok := it.m[k]
		if !ok {
			continue
		}
		it.k, it.v = k, v
		if pk != nil {
			*pk = k
		}
		if pv != nil {
			*pv = v
		}
		return true
	}
	return false
}

// K returns the current key.
func (it *MapIt[K, V]) K() K { return it.k }

// V returns the current value.
func (it *MapIt[K, V]) V() V { return it.v }

// -------------------------------------------------------------------- sync

// Mutex replaces sync.Mutex.
type Mutex struct {
	locked bool
	_      [7]byte
}

//go:norace
func (m *Mutex) Lock() {
	alive()
	for m.locked {
		block(unsafe.Pointer(m), "mutex")
	}
	m.locked = true
	raceAcquire(unsafe.Pointer(m))
}

//go:norace
func (m *Mutex) TryLock() bool {
	alive()
	if m.locked {
		return false
	}
	m.locked = true
	raceAcquire(unsafe.Pointer(m))
	return true
}

//go:norace
func (m *Mutex) Unlock() {
	alive()
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	raceRelease(unsafe.Pointer(m))
	m.locked = false
	wake(unsafe.Pointer(m))
}

// RWMutex replaces sync.RWMutex.
type RWMutex struct {
	w       bool
	_       [7]byte
	r       int
	waiting int
	s1, s2  [8]byte
}

//go:norace
func (m *RWMutex) Lock() {
	alive()
	m.waiting++
	for m.w || m.r > 0 {
		block(unsafe.Pointer(m), "rwmutex (write)")
	}
	m.waiting--
	m.w = true
	raceAcquire(unsafe.Pointer(&m.s1))
	raceAcquire(unsafe.Pointer(&m.s2))
}

//go:norace
func (m *RWMutex) TryLock() bool {
	alive()
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	raceAcquire(unsafe.Pointer(&m.s1))
	raceAcquire(unsafe.Pointer(&m.s2))
	return true
}

//go:norace
func (m *RWMutex) Unlock() {
	alive()
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	raceRelease(unsafe.Pointer(&m.s1))
	m.w = false
	wake(unsafe.Pointer(m))
}

//go:norace
func (m *RWMutex) RLock() {
	alive()
	for m.w || m.waiting > 0 {
		block(unsafe.Pointer(m), "rwmutex (read)")
	}
	m.r++
	raceAcquire(unsafe.Pointer(&m.s1))
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	alive()
	if m.w || m.waiting > 0 {
		return false
	}
	m.r++
	raceAcquire(unsafe.Pointer(&m.s1))
	return true
}

//go:norace
func (m *RWMutex) RUnlock() {
	alive()
	if m.r <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	raceReleaseMerge(unsafe.Pointer(&m.s2))
	m.r--
	if m.r == 0 {
		wake(unsafe.Pointer(m))
	}
}

// RLocker returns a Locker for reading.
func (m *RWMutex) RLocker() sync.Locker { return rlocker{m} }

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

// WaitGroup replaces sync.WaitGroup.
type WaitGroup struct {
	n int
}

//go:norace
func (wg *WaitGroup) Add(delta int) {
	alive()
	if delta < 0 {
		raceReleaseMerge(unsafe.Pointer(wg))
	}
	wg.n += delta
	if wg.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if wg.n == 0 {
		wake(unsafe.Pointer(wg))
	}
}

// Done replaces sync.WaitGroup.Done.
func (wg *WaitGroup) Done() { wg.Add(-1) }

//go:norace
func (wg *WaitGroup) Wait() {
	alive()
	for wg.n > 0 {
		block(unsafe.Pointer(wg), "waitgroup")
	}
	raceAcquire(unsafe.Pointer(wg))
}

// Go replaces sync.WaitGroup.Go.
func (wg *WaitGroup) Go(f func()) {
	wg.Add(1)
	GoFn(func() {
		defer wg.Done()
		f()
	})
}

// Once replaces sync.Once.
type Once struct {
	done bool
	_    [7]byte
	m    Mutex
}

//go:norace
func (o *Once) isDone() bool {
	if o.done {
		raceAcquire(unsafe.Pointer(o))
	}
	return o.done
}

//go:norace
func (o *Once) setDone() {
	raceRelease(unsafe.Pointer(o))
	o.done = true
}

// Do replaces sync.Once.Do.
func (o *Once) Do(f func()) {
	alive()
	if o.isDone() {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.isDone() {
		defer o.setDone()
		f()
	}
}

// Cond replaces sync.Cond: the waiters are woken in the order they came, as
// the real one does.
type Cond struct {
	L            sync.Locker
	next, notify int // tickets
}

// SyncNewCond replaces sync.NewCond.
func SyncNewCond(l sync.Locker) *Cond { return &Cond{L: l} }

//go:norace
func (c *Cond) Wait() {
	alive()
	my := c.next
	c.next++
	c.L.Unlock()
	for c.notify <= my {
		block(unsafe.Pointer(c), "cond")
	}
	raceAcquire(unsafe.Pointer(c))
	c.L.Lock()
}

//go:norace
func (c *Cond) Signal() {
	alive()
	raceReleaseMerge(unsafe.Pointer(c))
	if c.notify < c.next {
		c.notify++
	}
	wake(unsafe.Pointer(c))
}

//go:norace
func (c *Cond) Broadcast() {
	alive()
	raceReleaseMerge(unsafe.Pointer(c))
	c.notify = c.next
	wake(unsafe.Pointer(c))
}

// Map replaces sync.Map.
type Map struct {
	m  sync.Map
	mu Mutex
}

func (m *Map) Load(k interface{}) (interface{}, bool) { return m.m.Load(k) }
func (m *Map) Store(k, v interface{})                 { m.m.Store(k, v) }
func (m *Map) Delete(k interface{})                   { m.m.Delete(k) }
func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	return m.m.LoadOrStore(k, v)
}
func (m *Map) LoadAndDelete(k interface{}) (interface{}, bool) { return m.m.LoadAndDelete(k) }

func (m *Map) Swap(k, v interface{}) (interface{}, bool) {
	p, ok := m.m.Load(k)
	m.m.Store(k, v)
	return p, ok
}
func (m *Map) CompareAndSwap(k, old, v interface{}) bool {
	if p, ok := m.m.Load(k); !ok || p != old {
		return false
	}
	m.m.Store(k, v)
	return true
}
func (m *Map) CompareAndDelete(k, old interface{}) bool {
	if p, ok := m.m.Load(k); !ok || p != old {
		return false
	}
	m.m.Delete(k)
	return true
}

// Clear deletes all the entries.
func (m *Map) Clear() {
	m.m.Range(func(k, v interface{}) bool { m.m.Delete(k); return true })
}

// Range visits the entries in an order chosen by the simulator.
func (m *Map) Range(f func(k, v interface{}) bool) {
	all := map[interface{}]interface{}{}
	m.m.Range(func(k, v interface{}) bool { all[k] = v; return true })
	it := MapIter1(all)
	for it.Next(nil, nil) {
		if !f(it.K(), it.V()) {
			return
		}
	}
}

// Pool replaces sync.Pool: it hands out the oldest free object, if any.
type Pool struct {
	New  func() interface{}
	free []interface{}
	mu   Mutex
}

func (p *Pool) Get() interface{} {
	p.mu.Lock()
	if n := len(p.free); n > 0 {
		x := p.free[0]
		p.free = p.free[1:]
		p.mu.Unlock()
		return x
	}
	p.mu.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x interface{}) {
	if x == nil {
		return
	}
	p.mu.Lock()
	p.free = append(p.free, x)
	p.mu.Unlock()
}

// SyncOnceFunc replaces sync.OnceFunc.
func SyncOnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// SyncOnceValue replaces sync.OnceValue.
func SyncOnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

// SyncOnceValues replaces sync.OnceValues.
func SyncOnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}
