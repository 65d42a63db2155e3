// Package simsync stands in for package sync (and for channel operations) inside
// instrumented code so that a simulated task that is blocked gives way to the others
// deterministically. Outside a simulation it behaves like what it replaces.
package simsync

import (
	"mksim/simhook"
	"reflect"
	"sync"
	"sync/atomic"
)

type (
	Map    = sync.Map
	Locker = sync.Locker
)

func wait(cond func() bool) bool {
	if w := simhook.WaitUntil; w != nil {
		return w(cond)
	}
	return false
}

// held and free keep count of locks: no simulated crash strikes between, since in reality locks do not outlive a process.
func held(ok bool) bool {
	if ok {
		simhook.Held++
	}
	return ok
}

func free() { simhook.Held-- }

type Mutex struct{ m sync.Mutex }

func (x *Mutex) Lock() {
	for !x.m.TryLock() {
		if !wait(func() bool {
			if x.m.TryLock() {
				x.m.Unlock()
				return true
			}
			return false
		}) {
			x.m.Lock()
			break
		}
	}
	held(true)
}
func (x *Mutex) TryLock() bool { return held(x.m.TryLock()) }
func (x *Mutex) Unlock()       { free(); x.m.Unlock() }

type RWMutex struct{ m sync.RWMutex }

func (x *RWMutex) Lock() {
	for !x.m.TryLock() {
		if !wait(func() bool {
			if x.m.TryLock() {
				x.m.Unlock()
				return true
			}
			return false
		}) {
			x.m.Lock()
			break
		}
	}
	held(true)
}
func (x *RWMutex) RLock() {
	for !x.m.TryRLock() {
		if !wait(func() bool {
			if x.m.TryRLock() {
				x.m.RUnlock()
				return true
			}
			return false
		}) {
			x.m.RLock()
			break
		}
	}
	held(true)
}
func (x *RWMutex) TryLock() bool  { return held(x.m.TryLock()) }
func (x *RWMutex) TryRLock() bool { return held(x.m.TryRLock()) }
func (x *RWMutex) Unlock()        { free(); x.m.Unlock() }
func (x *RWMutex) RUnlock()       { free(); x.m.RUnlock() }
func (x *RWMutex) RLocker() Locker {
	return (*rlocker)(x)
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// WaitGroup counts beside the real one, so that waiting can be simulated.
type WaitGroup struct {
	m sync.WaitGroup
	n atomic.Int64
}

func (g *WaitGroup) Add(d int) { g.n.Add(int64(d)); g.m.Add(d) }
func (g *WaitGroup) Done()     { g.Add(-1) }
func (g *WaitGroup) Wait() {
	for g.n.Load() > 0 {
		if !wait(func() bool { return g.n.Load() <= 0 }) {
			break
		}
	}
	g.m.Wait()
}
func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	simhook.Go(func() {
		defer g.Done()
		f()
	})
}

// Cond is a condition variable whose waiters are woken in the order they came.
type Cond struct {
	L Locker
	m sync.Mutex
	w []*waiter
}

type waiter struct {
	on atomic.Bool
	c  chan struct{}
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	w := &waiter{c: make(chan struct{})}
	c.m.Lock()
	c.w = append(c.w, w)
	c.m.Unlock()
	c.L.Unlock()
	for !w.on.Load() {
		if !wait(w.on.Load) {
			break
		}
	}
	<-w.c
	c.L.Lock()
}

func (c *Cond) wake(n int) {
	c.m.Lock()
	for ; n != 0 && len(c.w) > 0; n-- {
		w := c.w[0]
		c.w = c.w[1:]
		w.on.Store(true)
		close(w.c)
	}
	c.m.Unlock()
}
func (c *Cond) Signal()    { c.wake(1) }
func (c *Cond) Broadcast() { c.wake(-1) }

type Once struct {
	done atomic.Bool
	m    Mutex
}

func (o *Once) Do(f func()) {
	if o.done.Load() {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done.Load() {
		defer o.done.Store(true)
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}

// Pool is a deterministic last-in first-out pool.
type Pool struct {
	New func() any
	m   sync.Mutex
	s   []any
}

func (p *Pool) Get() any {
	p.m.Lock()
	if n := len(p.s); n > 0 {
		x := p.s[n-1]
		p.s = p.s[:n-1]
		p.m.Unlock()
		return x
	}
	p.m.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	p.m.Lock()
	p.s = append(p.s, x)
	p.m.Unlock()
}

// Values that simulated tasks offer on unbuffered channels.
var (
	offMu sync.Mutex
	offer = map[uintptr][]*item{}
)

type item struct {
	v     any
	taken atomic.Bool
	done  chan struct{}
}

func drop(p uintptr, it *item) {
	q := offer[p]
	for i := range q {
		if q[i] == it {
			offer[p] = append(q[:i:i], q[i+1:]...)
			break
		}
	}
	if len(offer[p]) == 0 {
		delete(offer, p)
	}
}

// order stands for the ordering that channel operations establish. Since a simulated operation may be carried out
// by the scheduler on a task's behalf, all of them are taken to be ordered: a race may be missed, none is invented.
var order int32

func before() { simhook.Release(&order) }
func after()  { simhook.Acquire(&order); simhook.Release(&order) }

// Reset forgets what tasks that are gone have offered.
func Reset() {
	offMu.Lock()
	clear(offer)
	offMu.Unlock()
}

// Close is close(ch).
func Close[T any](ch chan<- T) {
	before()
	close(ch)
}

// Send is ch <- v.
func Send[T any](ch chan<- T, v T) {
	before()
	defer after()
	try := func() bool {
		select {
		case ch <- v:
			return true
		default:
			return false
		}
	}
	if simhook.WaitUntil == nil || ch == nil {
		ch <- v
		return
	}
	if try() {
		return
	}
	sent := false
	if cap(ch) > 0 {
		if !wait(func() bool { sent = sent || try(); return sent }) {
			ch <- v
		}
		return
	}
	p := reflect.ValueOf(ch).Pointer()
	it := &item{v: v, done: make(chan struct{})}
	offMu.Lock()
	offer[p] = append(offer[p], it)
	offMu.Unlock()
	ok := wait(func() bool {
		if it.taken.Load() || sent {
			return true
		}
		offMu.Lock()
		defer offMu.Unlock()
		if sent = try(); sent {
			drop(p, it)
		}
		return sent
	})
	if !ok {
		// not a simulated task
		offMu.Lock()
		taken := it.taken.Load()
		if !taken {
			drop(p, it)
		}
		offMu.Unlock()
		if !taken {
			ch <- v
		}
		return
	}
	if it.taken.Load() {
		<-it.done
	}
}

// Recv2 is v, ok = <-ch.
func Recv2[T any](ch <-chan T) (v T, ok bool) {
	before()
	defer after()
	if simhook.WaitUntil == nil || ch == nil {
		v, ok = <-ch
		return
	}
	got := false
	p := reflect.ValueOf(ch).Pointer()
	try := func() bool {
		if got {
			return true
		}
		offMu.Lock()
		if q := offer[p]; len(q) > 0 {
			it := q[0]
			v, _ = it.v.(T)
			ok, got = true, true
			drop(p, it)
			it.taken.Store(true)
			close(it.done)
		}
		offMu.Unlock()
		if !got {
			select {
			case v, ok = <-ch:
				got = true
			default:
			}
		}
		return got
	}
	if try() {
		return
	}
	if !wait(try) && !got {
		v, ok = <-ch
	}
	return
}

// Recv is <-ch.
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}
