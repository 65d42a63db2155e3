package main

import (
	"bytes"
	"fmt"
	"math"
	"mksim/simhook"
	"runtime"
	"strconv"
	"strings"
	"time"
)

// simCrash is what a simulated crash or cancellation throws through the library.
type simCrash struct{ where string }

func goid() uint64 {
	var buf [64]byte
	b := buf[:runtime.Stack(buf[:], false)]
	b = bytes.TrimPrefix(b, []byte("goroutine "))
	if i := bytes.IndexByte(b, ' '); i > 0 {
		n, _ := strconv.ParseUint(string(b[:i]), 10, 64)
		return n
	}
	return 0
}

// where returns the innermost frame of the code under test.
func where() string {
	pc := make([]uintptr, 24)
	fr := runtime.CallersFrames(pc[:runtime.Callers(2, pc)])
	for {
		f, more := fr.Next()
		if strings.HasPrefix(f.Function, "mk-lattigo/") {
			file := f.File
			if i := strings.LastIndexByte(file, '/'); i >= 0 {
				if j := strings.LastIndexByte(file[:i], '/'); j >= 0 {
					file = file[j+1:]
				}
			}
			return fmt.Sprintf("%s:%d", file, f.Line)
		}
		if !more {
			return "?"
		}
	}
}

// outcome of one guarded library call.
type outcome struct {
	crashed string // where a simulated crash hit, if it did
	refused string // message of a panic raised by the library
	where   string // where that was
}

func (o outcome) ok() bool { return o.crashed == "" && o.refused == "" }

// maxYields bounds the steps of one library call, far beyond what the largest legitimate ones need.
var maxYields = int64(1) << 30

// guard runs f; crashAt>=0 arms a simulated crash after that many yield points.
func guard(crashAt int64, f func()) (o outcome) {
	if activeSched == nil {
		gang.out()
	}
	if crashAt >= 0 {
		gid := goid()
		simhook.N = crashAt
		simhook.Slow = func() {
			if goid() != gid {
				simhook.N = 0
				return
			}
			if simhook.Held > 0 {
				simhook.N = 0
				return
			}
			simhook.N = math.MaxInt64
			simhook.Slow = nil
			panic(simCrash{where()})
		}
		defer func() { simhook.N = math.MaxInt64; simhook.Slow = nil }()
	} else if simhook.Slow == nil {
		// progress within a bounded number of steps
		gid := goid()
		simhook.N = maxYields
		simhook.Slow = func() {
			if goid() != gid {
				simhook.N = 1 << 20
				return
			}
			simhook.N = math.MaxInt64
			simhook.Slow = nil
			panic(fmt.Sprintf("no progress: not finished after %d steps", maxYields))
		}
		defer func() {
			n := maxYields - min(simhook.N, maxYields)
			stats.Yields += n
			stats.rat("yields", float64(n)/float64(maxYields))
			simhook.N = math.MaxInt64
			simhook.Slow = nil
		}()
	}
	if simhook.WaitUntil == nil {
		// outside a scheduled run nobody else holds a lock for long
		simhook.WaitUntil = func(c func() bool) bool {
			for i := 0; i < 2000; i++ {
				if c() {
					return true
				}
				time.Sleep(time.Millisecond)
			}
			panic("no progress: waits for a lock that is never released")
		}
		defer func() { simhook.WaitUntil = nil }()
	}
	if activeSched == nil {
		gang.begin()
	}
	defer func() {
		e := recover()
		if activeSched == nil {
			if x := settled(); e == nil {
				e = x
			}
		}
		if e != nil {
			if c, ok := e.(simCrash); ok {
				o.crashed = c.where
				return
			}
			o.where = where()
			o.refused = fmt.Sprint(e)
			if o.refused == "" {
				o.refused = "panic"
			}
			o.refused = panicWhere(o.refused)
		}
	}()
	f()
	return
}

// settled ends a call for the goroutines it started; it returns what one of them panicked with.
func settled() (e any) {
	defer func() { e = recover() }()
	gang.end()
	return nil
}

func panicWhere(m string) string {
	pc := make([]uintptr, 40)
	fr := runtime.CallersFrames(pc[:runtime.Callers(2, pc)])
	for {
		f, more := fr.Next()
		if strings.HasPrefix(f.Function, "mk-lattigo/") {
			return m + " @" + f.Function[strings.LastIndexByte(f.Function, '/')+1:]
		}
		if strings.HasPrefix(f.Function, "main.") && !strings.Contains(f.Function, "guard") && !strings.Contains(f.Function, "panicWhere") {
			return m + " @harness:" + f.Function
		}
		if !more {
			return m
		}
	}
}

// ---- scheduler of simulated threads -------------------------------------------------

type task struct {
	id   int
	run  func()
	go_  chan struct{}
	done bool
	pan  any
	cond func() bool
	gid  uint64
	ent  *Entropy
	perm *R

	last bool // it runs to its end

	child bool // a goroutine that the code under test started
}

// activeSched is the one that is running tasks.
var activeSched *Sched

// Sched runs tasks one at a time and decides at yield points who goes on.
type Sched struct {
	r        *R
	tasks    []*task
	cur      *task
	back     chan struct{}
	end      bool
	mode     int
	hash     uint64
	switches int
	sites    []string
	preempts []preempt // recorded: task, countdown and successor
	replay   []preempt
	ri       int
	limit    int
	onSwitch func()
	join     int32
}

type preempt struct {
	T int   `json:"t"` // task that runs
	N int64 `json:"n"` // for how many yield points (-1: to its end)
}

func (s *Sched) add(f func()) *task {
	t := &task{id: len(s.tasks), run: f, go_: make(chan struct{}), ent: curEnt}
	s.tasks = append(s.tasks, t)
	return t
}

func (s *Sched) quantum() int64 {
	switch s.mode {
	case 0: // fine-grained
		return int64(s.r.N(40))
	case 1: // bursts over all scales
		return int64(s.r.LogU(0, 13))
	case 2: // mostly long with a few very short
		if s.r.P(0.2) {
			return int64(s.r.N(4))
		}
		return int64(s.r.LogU(4, 15))
	}
	return int64(s.r.LogU(2, 10))
}

// Run executes all tasks; it returns when every task is finished, or says why it cannot.
func (s *Sched) Run() string {
	s.back = make(chan struct{})
	simhook.WaitUntil = func(c func() bool) bool {
		t := s.cur
		if t == nil || goid() != t.gid {
			return false
		}
		t.cond = c
		s.yield(t)
		return true
	}
	simhook.Slow = func() {
		t := s.cur
		if t == nil || goid() != t.gid {
			simhook.N = 16
			return
		}
		if t.last {
			// nothing but this thread's own steps can have taken so many
			simhook.N = maxYields
			panic(fmt.Sprintf("no progress: not finished after %d steps", maxYields))
		}
		if len(s.sites) < 400 {
			s.sites = append(s.sites, where())
		}
		s.yield(t)
	}
	saved := curEnt
	simhook.Threads = true
	defer func() {
		simhook.Threads = false
		simhook.WaitUntil = nil
		simhook.Slow = nil
		simhook.N = math.MaxInt64
		curEnt = saved
	}()
	gang.out()
	activeSched = s
	defer func() { activeSched = nil }()
	for _, t := range s.tasks {
		s.start(t)
	}
	for {
		run, live := s.ready()
		for i := 0; live > 0 && len(run) == 0 && i < 1000; i++ {
			// somebody outside the simulation may still act
			time.Sleep(time.Millisecond)
			run, live = s.ready()
		}
		if live == 0 && len(run) == 0 {
			s.kill()
			simhook.Acquire(&s.join)
			return ""
		}
		if len(run) == 0 {
			s.kill()
			return "every thread waits for another one"
		}
		if s.onSwitch != nil {
			n := simhook.N
			s.onSwitch()
			simhook.N = n
		}
		var t *task
		var q int64
		if s.replay != nil {
			t, q = nil, -1
			for s.ri < len(s.replay) && t == nil {
				p := s.replay[s.ri]
				s.ri++
				for _, c := range run {
					if c.id == p.T {
						t, q = c, p.N
					}
				}
			}
			if t == nil {
				t, q = run[0], -1
			}
		} else {
			t = run[s.r.N(len(run))]
			q = s.quantum()
			if s.switches > s.limit {
				q = -1
			}
		}
		s.switches++
		s.hash = mixs(s.hash, uint64(t.id), uint64(q))
		s.preempts = append(s.preempts, preempt{t.id, q})
		t.cond = nil
		s.cur = t
		curEnt, curPerm = t.ent, t.perm
		if t.last = q < 0; t.last {
			simhook.N = maxYields
		} else {
			simhook.N = q
		}
		simhook.Off()
		t.go_ <- struct{}{}
		select {
		case <-s.back:
			t.ent, t.perm = curEnt, curPerm
		case <-time.After(60 * time.Second):
			panic("simulated thread did not give control back")
		}
		simhook.On()
	}
}

// ready gives the tasks that can go on and how many are not finished.
func (s *Sched) ready() (run []*task, live int) {
	for _, t := range s.tasks {
		if !t.done {
			if !t.child {
				live++
			}
			if t.cond == nil || t.cond() {
				run = append(run, t)
			}
		}
	}
	return
}

func (s *Sched) start(t *task) {
	go func() {
		simhook.Off()
		<-t.go_
		simhook.On()
		t.gid = goid()
		defer func() {
			if t.pan = recover(); t.pan == (simKill{}) {
				t.pan = nil
			}
			t.done = true
			simhook.Release(&s.join)
			simhook.Off()
			s.back <- struct{}{}
			simhook.On()
		}()
		if s.end {
			panic(simKill{})
		}
		t.run()
	}()
}

// kill ends goroutines of the code under test that nobody waits for.
func (s *Sched) kill() {
	s.end = true
	for _, t := range s.tasks {
		for t.child && !t.done {
			s.cur, curEnt, curPerm = t, t.ent, t.perm
			t.cond = nil
			simhook.Off()
			t.go_ <- struct{}{}
			<-s.back
			simhook.On()
		}
	}
}

func (s *Sched) yield(t *task) {
	if s.end && t.child {
		panic(simKill{})
	}
	simhook.Off()
	s.back <- struct{}{}
	<-t.go_
	simhook.On()
	if s.end && t.child {
		panic(simKill{})
	}
}
