package main

import (
	"fmt"
	"math"
	"sort"

	"mksim/simhook"

	"github.com/ldsec/lattigo/v2/bfv"
	"github.com/ldsec/lattigo/v2/ckks"
	"mk-lattigo/mkbfv"
	"mk-lattigo/mkckks"

	"mk-lattigo/mkrlwe"
)

// ThrPlan is a run with several threads. Scenario.Steps make the shared world; every thread then
// runs its own program with its own evaluator, encryptor, decryptor and key generator.
type ThrPlan struct {
	Progs    [][]Step  `json:"programs"`
	Mode     int       `json:"mode"`
	Seed     uint64    `json:"seed"`
	SoloLast bool      `json:"soloLast,omitempty"`
	Share    bool      `json:"share,omitempty"`    // messages and plaintexts are shared, too
	Preempts []preempt `json:"schedule,omitempty"` // recorded: which thread runs for how many steps
}

func init() {
	runners["thr"] = runThr
	kindsOf["C06"] = []kindGen{{1, genThr, false}}
	parts = append(parts,
		part{func(s *Scenario) int {
			n := 0
			if s.Thr != nil {
				for _, p := range s.Thr.Progs {
					n += len(p)
				}
			}
			return n
		}, func(s *Scenario, a, b int) *Scenario {
			c := s.clone()
			at := 0
			for i, p := range c.Thr.Progs {
				lo, hi := max(a-at, 0), min(b-at, len(p))
				at += len(p)
				if lo < hi {
					c.Thr.Progs[i] = without(p, lo, hi)
				}
			}
			return c
		}},
		part{func(s *Scenario) int {
			if s.Thr == nil {
				return 0
			}
			return len(s.Thr.Preempts)
		}, func(s *Scenario, a, b int) *Scenario {
			c := s.clone()
			c.Thr.Preempts = without(c.Thr.Preempts, a, b)
			if len(c.Thr.Preempts) == 0 {
				c.Thr.Preempts = []preempt{{0, -1}}
			}
			return c
		}},
	)
}

func (m *Model) clone() *Model {
	c := newModel(m.c)
	for k, o := range m.obj {
		c.obj[k] = o.copy()
	}
	for k, v := range m.keys {
		c.keys[k] = v
	}
	for k, v := range m.vers {
		c.vers[k] = v
	}
	for k, v := range m.minv {
		c.minv[k] = v
	}
	return c
}

var thrOps = []W{{"enc", 6}, {"add", 6}, {"sub", 5}, {"mul", 10}, {"mulh", 6}, {"mulk", 2}, {"mulc", 4}, {"mulci", 1}, {"mulp", 4}, {"resc", 2}, {"resco", 1}, {"resci", 1}, {"drop", 2}, {"rot", 9}, {"roth", 5}, {"conj", 5}, {"hoist", 5}, {"copy", 1}, {"dec", 7}, {"pdec", 5}, {"genkey", 2}, {"newev", 1}}
var thrOpsB = []W{{"enc", 6}, {"add", 6}, {"sub", 5}, {"mul", 14}, {"mulk", 3}, {"rot", 9}, {"conj", 6}, {"copy", 1}, {"dec", 7}, {"pdec", 5}, {"genkey", 2}, {"newev", 1}}

func genThr(prop string, seed uint64) *Scenario {
	r := NewR(mixs(strh(prop), seed, 2))
	sc := &Scenario{Prop: prop, Kind: "thr", Seed: seed}
	scheme := pick(r, []string{"ckks", "ckks", "bfv"})
	sc.Cfg = genCfg(r, scheme, cfgOpt{maxLogN: 8, minLevels: 1, maxLevels: 4, minParty: 1, maxParty: 3})
	if sc.Cfg.LogN > 6 && !r.P(0.2) {
		sc.Cfg.LogN -= 2
		sc.Cfg.LogSlots = min(sc.Cfg.LogSlots, sc.Cfg.LogN-1)
		if sc.Cfg.LogSlots == 0 {
			sc.Cfg.LogSlots = 1
		}
		if scheme == "bfv" {
			sc.Cfg.LogSlots = 0
		}
	}
	g := &Gen{r: r, sc: sc, m: newModel(sc.Cfg), ckks: scheme == "ckks"}
	for _, id := range sc.Cfg.IDs {
		mask := 7
		if r.P(0.1) {
			mask = r.N(8)
		}
		g.try(Step{Op: "join", P: id, I: mask, G: float64(r.N(2))})
	}
	for i, n := 0, r.Range(2, 5); i < n; i++ {
		g.one("enc")
	}
	if g.m.cts() == nil {
		g.one("enc")
	}
	for i, n := 0, r.N(5); i < n; i++ {
		if g.ckks {
			g.one(pick(r, []string{"add", "hoist", "hoist", "drop", "mulc"}))
		} else {
			g.one("add")
		}
	}
	base := g.m
	th := &ThrPlan{Mode: r.N(4), Seed: r.Seed(), SoloLast: r.P(0.5), Share: r.P(0.6)}
	sc.Thr = th
	ops := thrOps
	if scheme == "bfv" {
		ops = thrOpsB
	}
	// swarm over operations, the same mix for all threads: they meet in the same code
	var mix []W
	for _, w := range ops {
		if r.P(0.35) {
			continue
		}
		if r.P(0.2) {
			w.w *= 5
		}
		mix = append(mix, w)
	}
	if len(mix) == 0 {
		mix = ops
	}
	shared := g.id
	pool := map[string][]Step{}
	n := r.Range(2, 4)
	setup := sc.Steps
	for t := 0; t < n; t++ {
		tsc := &Scenario{}
		tg := &Gen{r: r, sc: tsc, m: base.clone(), ckks: g.ckks, id: 1000 * (t + 1)}
		k := r.Range(1, 6)
		for i := 0; len(tsc.Steps) < k && i < 60; i++ {
			before := len(tsc.Steps)
			op := wpick(r, mix)
			keep := tg.m.clone()
			id := tg.id
			if !tg.one(op) {
				continue
			}
			s := tsc.Steps[before]
			if th.Share && len(pool[op]) > 0 && r.P(0.7) {
				// with what an earlier thread uses
				tsc.Steps, tg.m, tg.id = tsc.Steps[:before], keep.clone(), id
				x := pick(r, pool[op])
				s.V, s.S, s.L, s.I, s.F, s.G, s.U = x.V, x.S, x.L, x.I, x.F, x.G, false
				if !tg.try(s) {
					continue
				}
				s = tsc.Steps[before]
			}
			if op == "enc" || op == "mulp" {
				pool[op] = append(pool[op], s)
			}
			if (s.Op == "mulci" || s.Op == "resci" || s.Op == "dropi" || s.Op == "pdeci") && s.A <= shared {
				tsc.Steps, tg.m, tg.id = tsc.Steps[:before], keep, id
			}
		}
		th.Progs = append(th.Progs, tsc.Steps)
	}
	sc.Steps = setup
	return sc
}

// curPerm decides the order of map iteration of the running simulated thread.
var curPerm *R

// threadResult is what one thread saw: one entry per step.
type threadResult struct {
	out []string
	ct  []*Ct
}

// view is a thread's access to the shared world: own workers, shared everything else.
func (r *Run) view() *Run {
	l := r.l
	t := &Lib{c: l.c, md: l.md, ck: l.ck, bf: l.bf, mk: l.mk, sets: l.sets, store: l.store, prist: l.prist, common: l.common, rs: map[string]*mkrlwe.SecretKey{}, readonly: true}
	// the harness's own encoders are not shared between threads
	t.newEncoders()
	v := &Run{sc: r.sc, c: r.c, m: r.m.clone(), l: t, ct: map[int]*Ct{}, h: map[int]*mkrlwe.HoistedCiphertext{}, hash: map[int]uint64{}, keyH: map[string]uint64{}, errH: map[uint64]string{}}
	for k, c := range r.ct {
		v.ct[k] = c
	}
	for k, h := range r.h {
		v.h[k] = h
	}
	return v
}

func (v *Run) thread(id int, prog []Step, res *threadResult) {
	l := v.l
	seed := mixs(v.sc.Thr.Seed, uint64(id))
	curEnt = &Entropy{r: NewR(mixs(seed, 1))}
	curPerm = NewR(mixs(seed, 2))
	made := guard(-1, func() {
		l.ev, l.enc, l.dec, l.kg = []*Eval{l.newEv()}, []*Enc{l.newEnc()}, []*Dec{l.newDec()}, []*KG{l.newKG()}
	})
	if !made.ok() {
		res.out = append(res.out, "constructors refused: "+made.refused)
		return
	}
	for i := range prog {
		s := &prog[i]
		p, ok := v.m.predict(s)
		if !ok {
			res.out = append(res.out, "skipped")
			res.ct = append(res.ct, nil)
			continue
		}
		curEnt = &Entropy{r: NewR(mixs(seed, uint64(s.ID), 3))}
		curPerm = NewR(mixs(seed, uint64(s.ID), 4))
		var o opRes
		oc := guard(-1, func() { o = l.do(v, s) })
		stats.op(s.Op + variant(s))
		var c *Ct
		txt := ""
		switch {
		case oc.refused != "":
			txt = "refused"
			stats.fault("refused-" + s.Op)
		case o.err != nil:
			txt = "error"
		case o.h != nil:
			v.h[s.ID] = o.h
			txt = fmt.Sprintf("hoisted %016x", hHoisted(o.h))
		case o.mc != nil:
			h := uint64(1)
			for _, x := range o.mc {
				h = mixs(h, math.Float64bits(real(x)), math.Float64bits(imag(x)))
			}
			txt = fmt.Sprintf("message %016x", h)
		case o.mi != nil:
			h := uint64(1)
			for _, x := range o.mi {
				h = mixs(h, uint64(x))
			}
			txt = fmt.Sprintf("message %016x", h)
		case o.pt != nil:
			txt = fmt.Sprintf("plaintext %016x", hPoly(1, reduced(l.md.ringQ, o.pt)))
		case o.key != nil:
			txt = fmt.Sprintf("key %016x", hashKey(o.key))
		default:
			c = o.ct
			if p.target != 0 {
				c = v.ct[p.target]
			}
			if c != nil {
				if p.out != nil && p.target == 0 {
					v.ct[p.out.ID] = c
				}
				txt = fmt.Sprintf("ciphertext %q level %d %016x", idsOf(c.raw()), c.raw().Level(), canonHash(l, c))
				c = c.deep()
			}
		}
		good := oc.refused == "" && o.err == nil
		v.m.apply(s, p, good && p.expect != "refuse" && !p.err)
		if good && p.out != nil && v.m.obj[s.ID] == nil && p.target == 0 {
			delete(v.ct, s.ID)
			delete(v.h, s.ID)
		}
		res.out = append(res.out, txt)
		res.ct = append(res.ct, c)
	}
}

// share makes the messages and plaintexts of the threads' programs, for all of them to use.
func (l *Lib) share(progs [][]Step) {
	l.common = map[string]any{}
	for _, p := range progs {
		for i := range p {
			s := &p[i]
			if s.V == nil || s.U {
				continue
			}
			e := at(l.enc, 0)
			switch {
			case l.isB():
				v := s.V.ints(l.c.N(), l.md.T)
				if s.V.Len > 0 {
					v = v[:min(s.V.Len, len(v))]
				}
				if s.S == "ptx" {
					ours(l, s, "pt", func() *bfv.Plaintext { return l.preparedI(e, s, v) })
				} else {
					ours(l, s, "msg", func() *mkbfv.Message { return e.msgI(v, false) })
				}
			case s.Op == "mulp":
				v := s.V.complex(l.c.Slots())
				ours(l, s, "mask", func() *ckks.Plaintext { return l.maskC(e, s, v) })
			default:
				v := s.V.complex(l.c.Slots())
				if s.V.Len > 0 {
					v = v[:min(s.V.Len, len(v))]
				}
				if s.S == "ptx" {
					ours(l, s, "pt", func() *ckks.Plaintext { return l.preparedC(e, s, v) })
				} else {
					ours(l, s, "msg", func() *mkckks.Message { return e.msgC(v, false) })
				}
			}
		}
	}
}

// canonHash is a hash of a ciphertext as a ring element.
func canonHash(l *Lib, c *Ct) uint64 {
	h := uint64(11)
	raw := c.raw()
	for _, id := range sortedKeys(raw.Value) {
		p := reduced(l.md.ringQ, raw.Value[id])
		h = mixs(h, strh(id), b2u(p.IsNTT), hPoly(1, p))
	}
	if c.k != nil {
		h = mixs(h, math.Float64bits(c.k.Scale))
	}
	return h
}

func (r *Run) sharedHashes() map[string]uint64 {
	out := map[string]uint64{}
	for id, c := range r.ct {
		out[fmt.Sprintf("ciphertext %d", id)] = c.hash()
	}
	for k, x := range r.l.common {
		h := uint64(0)
		switch x := x.(type) {
		case *ckks.Plaintext:
			h = mixs(hPoly(1, x.Value), b2u(x.Value.IsNTT), math.Float64bits(x.Scale))
		case *bfv.Plaintext:
			h = mixs(hPoly(1, x.Value), b2u(x.Value.IsNTT))
		default:
			h = strh(fmt.Sprint(x))
		}
		out["shared "+k] = h
	}
	for id, h := range r.h {
		out[fmt.Sprintf("hoisted form %d", id)] = hHoisted(h)
	}
	for _, k := range sortedKeys(r.m.keys) {
		if v := r.m.keys[k]; len(k) > 3 && k[:4] != "crs/" && v > 0 && v <= len(r.l.prist[k]) {
			guard(-1, func() { out["key "+k] = hashKey(r.l.get(r.l.sets, k)) })
		}
	}
	for k, v := range r.l.mk.CRS {
		out[fmt.Sprintf("reference string %d", k)] = hSwk(0, v)
	}
	return out
}

func diffHashes(a, b map[string]uint64) string {
	for _, k := range sortedKeys(a) {
		if v, ok := b[k]; !ok {
			return k + " has disappeared"
		} else if v != a[k] {
			return k + " has changed"
		}
	}
	for _, k := range sortedKeys(b) {
		if _, ok := a[k]; !ok {
			return k + " has appeared"
		}
	}
	return ""
}

func runThr(sc *Scenario) *Result {
	res := &Result{Trace: 1}
	th := sc.Thr
	world := func() *Run {
		r := newRun(sc, Opts{})
		curEnt = &Entropy{r: NewR(mixs(sc.Seed, 0xe0))}
		r.run()
		if th.Share && len(r.viol) == 0 && len(r.other) == 0 {
			r.l.share(th.Progs)
		}
		return r
	}
	perm := func(n int) []int {
		if curPerm == nil {
			curPerm = NewR(1)
		}
		return curPerm.Perm(n)
	}
	n := len(th.Progs)
	solo := make([]*threadResult, n)
	conc := make([]*threadResult, n)
	runSolo := func() {
		w := world()
		simhook.Permute = perm
		for i := range th.Progs {
			solo[i] = &threadResult{}
			w.view().thread(i, th.Progs[i], solo[i])
		}
		simhook.Permute = nil
	}
	if !th.SoloLast {
		runSolo()
	}
	w := world()
	if len(w.viol) > 0 || len(w.other) > 0 {
		res.Other = append(w.viol, w.other...)
		return res
	}
	before := w.sharedHashes()
	s := &Sched{r: NewR(mixs(th.Seed, 3)), mode: th.Mode, limit: 4000}
	if len(th.Preempts) > 0 {
		s.replay = th.Preempts
	}
	step := make([]int, n)
	changed := ""
	s.onSwitch = func() {
		if simhook.Race {
			return // an observer has no place among the threads here
		}
		if s.switches%29 == 3 && changed == "" {
			changed = diffHashes(before, w.sharedHashes())
		}
	}
	views := make([]*Run, n)
	for i := range th.Progs {
		i := i
		conc[i] = &threadResult{}
		views[i] = w.view()
		s.add(func() { views[i].thread(i, th.Progs[i], conc[i]) })
	}
	_ = step
	simhook.Permute = perm
	dead := s.Run()
	simhook.Permute = nil
	stats.Switch += int64(s.switches)
	stats.fault("preempted-threads")
	for _, x := range s.sites {
		stats.Sites[x]++
	}
	res.Trace = mixs(res.Trace, s.hash)
	bad := func(class string, op string, id int, f string, a ...any) {
		res.Viol = append(res.Viol, Viol{class, id, op, fmt.Sprintf(f, a...)})
	}
	if dead != "" {
		bad("deadlock", "threads", 0, "%s", dead)
	}
	if simhook.Race {
		stats.check("watched-for-races")
	}
	for _, v := range newRaces() {
		res.Viol = append(res.Viol, v)
	}
	for i, t := range s.tasks {
		if t.pan != nil {
			if t.child {
				bad("interfere", "panic", 0, "%s%v", simDeath, t.pan)
				continue
			}
			bad("interfere", "panic", 0, "thread %d: %v", i, t.pan)
		}
	}
	if th.SoloLast {
		runSolo()
	}
	done := 0
	for i := range th.Progs {
		for k := range th.Progs[i] {
			if k >= len(solo[i].out) || k >= len(conc[i].out) {
				if dead == "" && len(solo[i].out) != len(conc[i].out) {
					bad("interfere", "end", 0, "thread %d ended early", i)
				}
				break
			}
			stats.check("alone-vs-interleaved")
			a, b := solo[i].out[k], conc[i].out[k]
			res.Trace = mixs(res.Trace, strh(a))
			st := th.Progs[i][k]
			if a != b {
				bad("interfere", st.Op, st.ID, "thread %d, step %d (%s): alone %s, among %d threads %s", i, st.ID, st.Op, a, n, b)
				break
			}
			if a != "skipped" {
				done++
			}
		}
	}
	stats.check("shared-objects-unchanged")
	if changed == "" {
		changed = diffHashes(before, w.sharedHashes())
	}
	if changed != "" {
		bad("shared", "threads", 0, "a shared object was modified: %s", changed)
	}
	res.Nontriv = done >= 2 && s.switches > n
	if len(res.Viol) > 0 {
		sort.SliceStable(res.Viol, func(i, j int) bool { return res.Viol[i].Class < res.Viol[j].Class })
		if s.replay == nil {
			th.Preempts = s.preempts
		}
	}
	return res
}
