package main

import (
	"fmt"
	"math"
	"time"

	"mksim/simhook"
	"mksim/simsync"
)

// crew schedules goroutines that the code under test starts on its own, together with the goroutine that called it
// (member 0). One member runs at a time; at yield points and when a member has to wait another one may go on.
// Threads of the simulator itself are tasks of a Sched, which takes goroutines over in the same way.
type crew struct {
	r     *R
	all   []*member
	cur   *member
	died  string
	stuck bool
	last  int64 // countdown given to the running member
	on    bool
}

type member struct {
	wake chan struct{}
	gid  uint64
	done bool
	kill bool
	cond func() bool
	ent  *Entropy
	// what the caller had armed: countdown to, and action of, a crash or a lack of progress
	left int64
	slow func()
}

type simKill struct{}

const simDeath = "the process ends, a goroutine panics: "

var gang crew

func init() { simhook.Spawn = gang.spawn }

// fork derives a stream that does not depend on who else draws.
func (e *Entropy) fork() *Entropy { return &Entropy{r: NewR(e.r.U64()), short: e.short} }

func (c *crew) spawn(f func()) bool {
	if s := activeSched; s != nil && s.cur != nil {
		if goid() != s.cur.gid {
			return false
		}
		stats.fault("goroutine-started")
		t := s.add(f)
		t.child = true
		t.ent = curEnt.fork()
		if s.cur.perm != nil {
			t.perm = NewR(s.cur.perm.U64())
		}
		s.start(t)
		return true
	}
	if c.r == nil {
		return false
	}
	gid := goid()
	if !c.on {
		if len(c.all) == 0 {
			c.all = []*member{{wake: make(chan struct{})}}
		}
		c.enter(gid)
	} else if c.cur.gid != gid {
		return false
	}
	stats.fault("goroutine-started")
	m := &member{wake: make(chan struct{}), ent: curEnt.fork()}
	c.all = append(c.all, m)
	go func() {
		simhook.Off()
		<-m.wake
		simhook.On()
		m.gid = goid()
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(simKill); !ok && c.died == "" {
					c.died = panicWhere(fmt.Sprint(e))
				}
			}
			m.done = true
			simhook.Off()
			c.next(m)
		}()
		if m.kill {
			panic(simKill{})
		}
		f()
	}()
	return true
}

// enter makes the calling goroutine member 0 while other members are alive.
func (c *crew) enter(gid uint64) {
	m := c.all[0]
	m.gid, m.left, m.slow = gid, simhook.N, simhook.Slow
	c.on, c.cur = true, m
	c.arm(m)
	simhook.WaitUntil = c.wait
}

// begin and end bracket one call of the code under test; out comes before anything is armed for it.
func (c *crew) out() {
	if c.on {
		c.on = false
		simhook.Slow, simhook.WaitUntil, simhook.N = nil, nil, math.MaxInt64
	}
}

func (c *crew) begin() {
	if c.others() > 0 {
		c.enter(goid())
	}
}

func (c *crew) end() {
	if !c.on {
		return
	}
	m := c.all[0]
	m.left, m.slow = math.MaxInt64, nil
	if c.others() > 0 && c.r.P(0.5) {
		// let the rest come to its end, or as far as it gets without the caller
		c.settle()
	}
	c.on = false
	if c.others() == 0 {
		c.all = c.all[:1]
	}
}

func (c *crew) others() (n int) {
	for i, m := range c.all {
		if i > 0 && !m.done {
			n++
		}
	}
	return
}

func (c *crew) settle() {
	me := c.all[0]
	me.cond = func() bool { return !c.movable() }
	c.yield(me)
}

func (c *crew) movable() bool {
	for i, m := range c.all {
		if i > 0 && !m.done && (m.cond == nil || m.cond()) {
			return true
		}
	}
	return false
}

// reset ends what is left over from the run before.
func (c *crew) reset(seed uint64) {
	if c.on || c.others() > 0 {
		for i, m := range c.all {
			if i > 0 && !m.done {
				m.kill = true
				m.cond = nil
			}
		}
		c.on = true
		c.all[0].left, c.all[0].slow = math.MaxInt64, nil
		c.all[0].gid = goid()
		c.cur = c.all[0]
		simhook.WaitUntil = c.wait
		c.settle()
	}
	simhook.Held = 0
	*c = crew{r: NewR(mixs(seed, 0x60))}
	simhook.Slow, simhook.WaitUntil, simhook.N = nil, nil, math.MaxInt64
	simsync.Reset()
}

func (c *crew) quantum() int64 {
	if c.r.P(0.3) {
		return int64(c.r.N(6))
	}
	return int64(c.r.LogU(1, 13))
}

// arm gives m its countdown.
func (c *crew) arm(m *member) {
	q := c.quantum()
	if m == c.all[0] && q > m.left {
		q = m.left
	}
	c.last = q
	simhook.N = q
	simhook.Slow = c.expired
}

func (c *crew) used(m *member) {
	if m == c.all[0] && m.left != math.MaxInt64 {
		m.left -= c.last - simhook.N
	}
}

func (c *crew) expired() {
	m := c.cur
	if !c.on {
		simhook.N = math.MaxInt64
		return
	}
	if goid() != m.gid {
		simhook.N = 16
		return
	}
	c.used(m)
	if m == c.all[0] && m.left < 0 && m.slow != nil {
		f := m.slow
		m.left, m.slow = math.MaxInt64, nil
		f()
		m.left, m.slow = 0, f // put off
	}
	stats.Switch++
	c.yield(m)
}

func (c *crew) wait(cond func() bool) bool {
	m := c.cur
	if !c.on || m == nil || goid() != m.gid {
		return false
	}
	c.used(m)
	m.cond = cond
	c.yield(m)
	return true
}

func (c *crew) yield(m *member) {
	if m.kill {
		panic(simKill{})
	}
	if c.next(m) {
		simhook.Off()
		<-m.wake
		simhook.On()
	}
	if m.kill {
		panic(simKill{})
	}
	if c.died != "" && m == c.all[0] {
		d := c.died
		c.died = ""
		panic(simDeath + d)
	}
	if c.stuck && m == c.all[0] {
		c.stuck = false
		panic("no progress: every goroutine waits for another one")
	}
}

// next hands over from m; it reports whether m has to wait for its turn.
func (c *crew) next(m *member) bool {
	m.ent = curEnt
	var run []*member
	pick := func() {
		run = run[:0]
		for _, x := range c.all {
			if !x.done && (x.cond == nil || x.cond()) {
				run = append(run, x)
			}
		}
	}
	pick()
	for i := 0; len(run) == 0 && i < 2000; i++ {
		// somebody outside the simulation may still act
		time.Sleep(time.Millisecond)
		pick()
	}
	to := c.all[0]
	if len(run) > 0 {
		to = run[c.r.N(len(run))]
	} else {
		c.stuck = true
	}
	if c.died != "" {
		to = c.all[0]
	}
	to.cond = nil
	c.cur = to
	curEnt = to.ent
	c.arm(to)
	if to == m {
		return false
	}
	simhook.Off()
	to.wake <- struct{}{}
	simhook.On()
	return !m.done
}
