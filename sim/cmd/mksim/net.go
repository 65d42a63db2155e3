package main

import (
	"container/heap"
	"fmt"
	"math"

	"mksim/simhook"

	"mk-lattigo/mkrlwe"
)

// NetPlan is a run over a simulated network: parties that own keys, servers that evaluate, and a
// coordinator that gets the program of Scenario.Steps done by them. Every step is a remote call
// with acknowledgement and retry. Time is virtual. Which faults strike is decided per message
// key by the seed; the recorded list replays them.
type NetPlan struct {
	Servers int     `json:"servers"`
	Seed    uint64  `json:"seed"`
	Drop    float64 `json:"drop"`
	Dup     float64 `json:"dup"`
	Slow    float64 `json:"slow"`
	Crash   float64 `json:"crash"`   // on delivery
	OpCrash float64 `json:"opCrash"` // inside a library call
	Cancel  float64 `json:"cancel"`  // a request arrives damaged, the attempt breaks off, the process lives on
	Evict   float64 `json:"evict"`   // a server forgets a key
	Rekey   float64 `json:"rekey"`   // a party replaces a key
	Parts   int     `json:"partitions"`
	Rots    []int   `json:"extraRotations,omitempty"`
	StopAt  int64   `json:"faultsStopAtMs"`
	Fixed   bool    `json:"fixed,omitempty"`
	Faults  []Fault `json:"faults,omitempty"`
}

// Fault is one injected fault: kind F at the event named K.
type Fault struct {
	K string `json:"k"`
	F string `json:"f"`
	N int64  `json:"n,omitempty"`
}

func init() {
	runners["net"] = runNet
	for prop, p := range map[string]float64{"C01": 0.2, "C02": 0.2, "C03": 0.25, "C04": 0.12, "C05": 0.1, "C07": 0.2} {
		kindsOf[prop] = append(kindsOf[prop], kindGen{p, genNet, false})
	}
	parts = append(parts, part{func(s *Scenario) int {
		if s.Net == nil {
			return 0
		}
		return len(s.Net.Faults)
	}, func(s *Scenario, a, b int) *Scenario {
		c := s.clone()
		c.Net.Faults = without(c.Net.Faults, a, b)
		return c
	}})
}

var netOps = []W{{"enc", 9}, {"add", 6}, {"sub", 5}, {"mul", 9}, {"mulh", 4}, {"mulk", 1}, {"mulc", 3}, {"mulp", 3}, {"resc", 2}, {"resco", 1}, {"drop", 2}, {"rot", 6}, {"roth", 3}, {"conj", 4}, {"hoist", 4}, {"copy", 1}, {"dec", 4}, {"pdec", 3}}
var netOpsB = []W{{"enc", 9}, {"add", 6}, {"sub", 5}, {"mul", 12}, {"mulk", 3}, {"rot", 8}, {"conj", 5}, {"copy", 1}, {"dec", 4}, {"pdec", 3}}

func genNet(prop string, seed uint64) *Scenario {
	r := NewR(mixs(strh(prop), seed, 3))
	p := profiles[prop]
	sc := &Scenario{Prop: prop, Kind: "net", Seed: seed}
	scheme := pick(r, p.schemes)
	lv := p.lv
	if lv[1] == 0 {
		lv = [2]int{1, 4}
	}
	sc.Cfg = genCfg(r, scheme, cfgOpt{maxLogN: min(8, p.maxLogN), minLevels: lv[0], maxLevels: min(4, lv[1]), minParty: 1, maxParty: min(4, p.parties)})
	g := &Gen{r: r, sc: sc, m: newModel(sc.Cfg), ckks: scheme == "ckks", big: p.big}
	for _, id := range sc.Cfg.IDs {
		j := Step{Op: "join", P: id, I: 7}
		g.m.apply(&j, pred{}, true)
	}
	ops := netOps
	if scheme == "bfv" {
		ops = netOpsB
	}
	var mix []W
	for _, w := range ops {
		if w.n != "enc" && r.P(0.25) {
			continue
		}
		if r.P(0.15) {
			w.w *= 4
		}
		if prop == "C03" && (w.n == "dec" || w.n == "pdec") {
			w.w *= 4
		}
		mix = append(mix, w)
	}
	for i := 0; i < 20 && len(g.m.cts()) < 2; i++ {
		g.one("enc")
	}
	n := r.Range(4, 14)
	for t := 0; len(sc.Steps) < n && t < 10*n; t++ {
		g.one(wpick(r, mix))
	}
	// everything still open is decrypted in the end, jointly or party by party
	var last *MObj
	for _, o := range g.m.cts() {
		last = o
	}
	if last != nil {
		if r.P(0.5) {
			g.try(Step{Op: "dec", A: last.ID, E: r.N(2)})
		} else {
			ids := last.IDs
			at := last.ID
			for _, i := range r.Perm(len(ids)) {
				if !g.try(Step{Op: "pdec", A: at, P: ids[i], E: r.N(2)}) {
					break
				}
				at = g.id
			}
		}
	}
	sc.Net = netPlan(r)
	return sc
}

// netPlan draws the faults of a run.
func netPlan(r *R) *NetPlan {
	pl := &NetPlan{Servers: r.Range(1, 3), Seed: r.Seed(), StopAt: int64(r.Range(2, 20)) * 1000}
	rate := func(hi float64) float64 {
		if r.P(0.35) {
			return 0
		}
		return hi * r.F()
	}
	pl.Drop, pl.Dup, pl.Slow = rate(0.4), rate(0.4), rate(0.4)
	pl.Crash, pl.OpCrash, pl.Cancel = rate(0.15), rate(0.25), rate(0.25)
	pl.Evict, pl.Rekey = rate(0.3), rate(0.4)
	if r.P(0.5) {
		pl.Parts = r.Range(1, 3)
	}
	return pl
}

type netMsg struct {
	key      string
	kind     string // do, obj, need, refused, key, keys
	from, to int
	step     int
	want     []int          // object numbers
	sum      map[int]uint64 // content of operands
	ct       map[int]*Ct
	h        map[int]*mkrlwe.HoistedCiphertext
	keyKind  string
	srv      int
	names    []string
	keys     []any
	big      bool // deployment size: keys are not copied
}

func (m *netMsg) deep() *netMsg {
	c := *m
	c.ct, c.h, c.keys = map[int]*Ct{}, map[int]*mkrlwe.HoistedCiphertext{}, nil
	for k, v := range m.ct {
		c.ct[k] = v.deep()
	}
	for k, v := range m.h {
		c.h[k] = cpHoisted(v)
	}
	for _, k := range m.keys {
		if m.big {
			c.keys = append(c.keys, k)
			continue
		}
		c.keys = append(c.keys, cpKey(k))
	}
	return &c
}

type netEv struct {
	at  int64
	seq int
	f   func()
}
type evHeap []netEv

func (h evHeap) Len() int { return len(h) }
func (h evHeap) Less(i, j int) bool {
	return h[i].at < h[j].at || h[i].at == h[j].at && h[i].seq < h[j].seq
}
func (h evHeap) Swap(i, j int) { h[i], h[j] = h[j], h[i] }
func (h *evHeap) Push(x any)   { *h = append(*h, x.(netEv)) }
func (h *evHeap) Pop() any {
	o := *h
	x := o[len(o)-1]
	*h = o[:len(o)-1]
	return x
}

// netNode is a process. Party: durable keys. Server: everything volatile.
type netNode struct {
	id    int
	name  string
	party string
	isP   bool
	up    bool
	epoch int
	run   *Run
	names []string // durable key names, in order of creation
	disk  map[string]any
	runs  []*Run
}

type netSim struct {
	sc    *Scenario
	pl    *NetPlan
	o     Opts
	scope map[string]bool
	base  *Run
	now   int64
	seq   int
	q     evHeap
	node  []*netNode
	coord int
	cup   bool
	cep   int
	steps map[int]*Step
	order []int
	obj   map[int]*Ct
	hob   map[int]*mkrlwe.HoistedCiphertext
	sum   map[int]uint64
	done  map[int]bool
	tries map[int]int
	shipd map[int]bool
	cnt   map[string]int
	fix   map[string]int64
	rec   []Fault
	part  [][3]int64
	trace uint64
	viol  []Viol
	other []Viol
	aux   int
	ops   int
	big   bool
	idx   []int // indices of the reference string
}

func (n *netSim) at(dt int64, f func()) {
	n.seq++
	heap.Push(&n.q, netEv{n.now + dt, n.seq, f})
}

func (n *netSim) tr(xs ...uint64) { n.trace = mixs(append([]uint64{n.trace}, xs...)...) }

// draw is a stable choice bound to a name.
func (n *netSim) draw(key string) *R { return NewR(mixs(n.pl.Seed, strh(key))) }

// hit decides whether fault kind strikes at key.
func (n *netSim) hit(key, kind string, p float64, arg func(*R) int64) (int64, bool) {
	if n.now >= n.pl.StopAt {
		return 0, false
	}
	if n.pl.Fixed {
		v, ok := n.fix[key+"|"+kind]
		if ok {
			stats.fault("net-" + kind)
		}
		return v, ok
	}
	r := n.draw(key + "|" + kind)
	if !r.P(p) {
		return 0, false
	}
	v := arg(r)
	n.rec = append(n.rec, Fault{key, kind, v})
	stats.fault("net-" + kind)
	return v, true
}

func (n *netSim) cut(a, b int) bool {
	for _, p := range n.part {
		if n.now >= p[0] && n.now < p[0]+p[1] && (p[2]>>uint(a))&1 != (p[2]>>uint(b))&1 {
			return true
		}
	}
	return false
}

func (n *netSim) send(m *netMsg) {
	k := fmt.Sprintf("%s/%d/%s%d>%d", m.kind, m.step, m.keyKind, m.from, m.to)
	n.cnt[k]++
	m.key = fmt.Sprintf("%s#%d", k, n.cnt[k])
	m.big = n.big
	m = m.deep()
	if n.cut(m.from, m.to) {
		n.tr(strh(m.key), 1)
		stats.fault("net-lost-to-partition")
		return
	}
	if _, ok := n.hit(m.key, "drop", n.pl.Drop, func(*R) int64 { return 0 }); ok {
		n.tr(strh(m.key), 2)
		return
	}
	lat := int64(1 + n.draw(m.key).N(20))
	if d, ok := n.hit(m.key, "slow", n.pl.Slow, func(r *R) int64 { return int64(r.LogU(4, 12)) }); ok {
		lat += d
	}
	n.at(lat, func() { n.deliver(m) })
	if d, ok := n.hit(m.key, "dup", n.pl.Dup, func(r *R) int64 { return int64(r.LogU(0, 12)) }); ok {
		c := m.deep()
		c.key += "+"
		n.at(lat+d, func() { n.deliver(c) })
	}
}

func (n *netSim) deliver(m *netMsg) {
	if m.to == n.coord {
		if !n.cup {
			return
		}
		if d, ok := n.hit(m.key, "crash", n.pl.Crash/3, func(r *R) int64 { return int64(r.LogU(3, 12)) }); ok {
			n.cup = false
			n.cep++
			n.tr(strh(m.key), 3)
			n.at(d, func() { n.cup = true; n.pump() })
			return
		}
		n.tr(strh(m.key), uint64(n.now))
		n.coordinator(m)
		return
	}
	x := n.node[m.to]
	if !x.up {
		return
	}
	if d, ok := n.hit(m.key, "crash", n.pl.Crash, func(r *R) int64 { return int64(r.LogU(3, 12)) }); ok {
		n.tr(strh(m.key), 4)
		n.down(x, d)
		return
	}
	n.tr(strh(m.key), uint64(n.now))
	if x.isP {
		n.atParty(x, m)
	} else {
		n.atServer(x, m)
	}
}

func (n *netSim) down(x *netNode, d int64) {
	x.up = false
	x.run = nil
	n.at(d, func() { n.boot(x) })
}

// boot starts a process with nothing but its durable state.
func (n *netSim) boot(x *netNode) {
	x.up = true
	x.epoch++
	b := n.base.l
	l := &Lib{c: b.c, md: b.md, ck: b.ck, bf: b.bf, store: map[string][]any{}, prist: map[string][]any{}, rs: map[string]*mkrlwe.SecretKey{}, truth: b, encoder: b.encoder, bencode: b.bencode}
	if l.isB() {
		l.mk = &l.bf.Parameters
	} else {
		l.mk = &l.ck.Parameters
	}
	r := newRun(n.sc, n.o)
	r.scope = n.scope
	r.l, r.m = l, newModel(n.sc.Cfg)
	for _, i := range n.idx {
		r.m.keys[crsKey(i)] = 1
	}
	r.salt = mixs(n.pl.Seed, uint64(x.id), uint64(x.epoch))
	pr := NewR(r.salt)
	simhook.Permute = func(k int) []int { return pr.Perm(k) }
	withEntropy(r.salt, func() {
		l.sets = l.newSets()
		for i := 0; i < max(1, n.sc.Cfg.NEv); i++ {
			l.ev = append(l.ev, l.newEv())
			l.enc = append(l.enc, l.newEnc())
			l.dec = append(l.dec, l.newDec())
			l.kg = append(l.kg, l.newKG())
		}
	})
	x.run = r
	x.runs = append(x.runs, r)
	for _, k := range x.names {
		n.learn(x, k, n.cp(x.disk[k]))
	}
}

// learn puts a key that arrived into a process's collections.
func (n *netSim) learn(x *netNode, name string, k any) {
	r := x.run
	r.l.remember(name, k)
	r.m.vers[name] = len(r.l.store[name])
	kind, id, idx := keyParts(name)
	n.aux++
	n.perform(x, &Step{ID: 100000 + n.aux, Op: "addkey", S: kind, P: id, I: idx, L: r.m.vers[name], G: 1})
}

// perform lets a process execute a step and collects what it showed.
func (n *netSim) perform(x *netNode, s *Step) string {
	r := x.run
	t := r.trace
	r.step(s)
	n.ops++
	if r.trace != t {
		n.tr(r.trace)
	}
	n.viol = append(n.viol, r.viol...)
	n.other = append(n.other, r.other...)
	r.viol, r.other = nil, nil
	return r.last
}

func (n *netSim) dead() bool { return len(n.viol)+len(n.other) > 0 }

// call performs a step that a fault may hit; "gone" means there will be no answer.
func (n *netSim) call(x *netNode, m *netMsg, s *Step, tag string) string {
	k := m.key + tag
	c := *s
	yields := func(r *R) int64 { return 1 + int64(r.LogU(0, 13)) }
	if v, ok := n.hit(k, "crash-in-call", n.pl.OpCrash, yields); ok {
		c.X = v
		n.perform(x, &c)
		n.down(x, int64(n.draw(k+"down").LogU(3, 12)))
		return "gone"
	}
	if v, ok := n.hit(k, "damaged-request", n.pl.Cancel, func(r *R) int64 { return int64(r.Seed()) }); ok {
		c.Z = uint64(v)
		n.perform(x, &c)
		return "gone"
	}
	return n.perform(x, &c)
}

// ---- party ------------------------------------------------------------------------------------

func (x *netNode) keep(name string, k any) {
	if x.disk[name] == nil {
		x.names = append(x.names, name)
	}
	x.disk[name] = k
}

func (n *netSim) cp(k any) any {
	if n.big {
		return k
	}
	return cpKey(k)
}

// keysReady makes sure the party has its key pair; false: it went away trying.
func (n *netSim) keysReady(x *netNode, m *netMsg) bool {
	if x.disk["sk/"+x.party] != nil {
		return true
	}
	n.aux++
	s := &Step{ID: 100000 + n.aux, Op: "join", P: x.party, I: n.draw("mask" + x.name).N(8), G: float64(n.draw("pair" + x.name).N(2)), E: n.aux}
	if n.call(x, m, s, "!join") != "ok" {
		return false
	}
	for _, k := range sortedKeys(x.run.m.keys) {
		if v := x.run.m.keys[k]; v > 0 && k[:3] != "crs" {
			x.keep(k, n.cp(x.run.l.prist[k][v-1]))
		}
	}
	n.base.l.prist["sk/"+x.party] = []any{n.cp(x.disk["sk/"+x.party])}
	return true
}

func (n *netSim) atParty(x *netNode, m *netMsg) {
	if !n.keysReady(x, m) {
		return
	}
	switch m.kind {
	case "do":
		n.atServer(x, m)
	case "key":
		var names []string
		switch m.keyKind {
		case "rot":
			for _, i := range n.idx {
				names = append(names, rotKey(x.party, i))
			}
		default:
			names = []string{m.keyKind + "/" + x.party}
		}
		_, re := n.hit(m.key, "rekey", n.pl.Rekey, func(*R) int64 { return 0 })
		out := &netMsg{kind: "keys", from: x.id, to: m.srv, keyKind: m.keyKind}
		for _, k := range names {
			kind, id, idx := keyParts(k)
			if x.disk[k] == nil || re && kind != "sk" && (kind != "rot" || idx == 2) {
				n.aux++
				if n.call(x, m, &Step{ID: 100000 + n.aux, Op: "genkey", S: kind, P: id, I: idx, E: n.aux}, "!"+k) != "ok" || n.dead() {
					return
				}
				v := x.run.m.keys[k]
				x.keep(k, n.cp(x.run.l.prist[k][v-1]))
			}
			out.names = append(out.names, k)
			out.keys = append(out.keys, x.disk[k])
		}
		n.send(out)
	}
}

// ---- server -----------------------------------------------------------------------------------

func (s *Step) operands() []int {
	var out []int
	seen := map[int]bool{0: true}
	for _, l := range [][]int{{s.A, s.B, s.HA, s.HB}, s.As, s.Hs} {
		for _, i := range l {
			if !seen[i] {
				seen[i] = true
				out = append(out, i)
			}
		}
	}
	return out
}

func (n *netSim) atServer(x *netNode, m *netMsg) {
	switch m.kind {
	case "keys":
		for i, k := range m.names {
			n.learn(x, k, m.keys[i])
			if n.dead() {
				return
			}
		}
	case "do":
		s := n.steps[m.step]
		r := x.run
		if v, ok := n.hit(m.key, "evict", n.pl.Evict, func(r *R) int64 { return int64(r.N(1000)) }); ok && !x.isP {
			var ks []string
			for _, k := range sortedKeys(r.m.keys) {
				if r.m.keys[k] > 0 && k[:3] != "crs" {
					ks = append(ks, k)
				}
			}
			if len(ks) > 0 {
				kind, id, idx := keyParts(ks[int(v)%len(ks)])
				n.aux++
				n.perform(x, &Step{ID: 100000 + n.aux, Op: "delkey", S: kind, P: id, I: idx})
			}
		}
		var miss []int
		for _, i := range s.operands() {
			have := uint64(0)
			if c := r.ct[i]; c != nil {
				have = r.hash[i]
			} else if h := r.h[i]; h != nil {
				have = r.hash[i]
			}
			if have == m.sum[i] {
				continue
			}
			if c := m.ct[i]; c != nil {
				r.ct[i] = c
				r.hash[i] = c.hash()
			} else if h := m.h[i]; h != nil {
				r.h[i] = h
				r.hash[i] = hHoisted(h)
			} else {
				miss = append(miss, i)
				continue
			}
			r.m.obj[i] = n.base.m.obj[i].copy()
		}
		if len(miss) > 0 {
			n.send(&netMsg{kind: "need", from: x.id, to: n.coord, step: m.step, want: miss})
			return
		}
		out := &netMsg{kind: "obj", from: x.id, to: n.coord, step: m.step, ct: map[int]*Ct{}, h: map[int]*mkrlwe.HoistedCiphertext{}}
		switch n.call(x, m, s, "!") {
		case "ok", "err":
			if c := r.ct[s.ID]; c != nil {
				out.ct[s.ID] = c
			}
			if h := r.h[s.ID]; h != nil {
				out.h[s.ID] = h
			}
			n.send(out)
		case "refuse":
			out.kind = "refused"
			n.send(out)
		}
	}
}

// ---- coordinator ------------------------------------------------------------------------------

func (n *netSim) ready(i int) bool {
	for _, o := range n.steps[i].operands() {
		if !n.done[o] {
			return false
		}
	}
	return true
}

// pump asks for everything that can be done now.
func (n *netSim) pump() {
	for _, i := range n.order {
		if !n.done[i] && n.ready(i) {
			n.request(i, false)
		}
	}
}

func (n *netSim) partyOf(id string) int {
	for _, x := range n.node {
		if x.isP && x.party == id {
			return x.id
		}
	}
	return -1
}

func (n *netSim) request(i int, ship bool) {
	s := n.steps[i]
	n.tries[i]++
	t := n.tries[i]
	to := -1
	switch s.Op {
	case "enc", "pdec":
		to = n.partyOf(s.P)
	default:
		np := len(n.sc.Cfg.IDs)
		to = np + n.draw(fmt.Sprintf("home%d/%d", i, t/4)).N(n.pl.Servers)
	}
	m := &netMsg{kind: "do", from: n.coord, to: to, step: i, sum: map[int]uint64{}, ct: map[int]*Ct{}, h: map[int]*mkrlwe.HoistedCiphertext{}}
	ship = ship || n.draw(fmt.Sprintf("ship%d", i)).P(0.5)
	for _, o := range s.operands() {
		m.sum[o] = n.sum[o]
		if ship {
			if c := n.obj[o]; c != nil {
				m.ct[o] = c
			} else if h := n.hob[o]; h != nil {
				m.h[o] = h
			}
		}
	}
	n.send(m)
	ep := n.cep
	n.at(int64(150)<<uint(min(t, 4)), func() {
		if n.cup && n.cep == ep && n.tries[i] == t && !n.done[i] {
			n.request(i, n.shipd[i])
		}
	})
}

func (n *netSim) coordinator(m *netMsg) {
	i := m.step
	s := n.steps[i]
	if n.done[i] {
		return
	}
	finish := func() {
		n.done[i] = true
		for _, j := range n.order {
			if !n.done[j] && n.tries[j] == 0 && n.ready(j) {
				n.request(j, false)
			}
		}
	}
	switch m.kind {
	case "need":
		n.shipd[i] = true
		n.request(i, true)
	case "refused":
		if s.Op == "dec" && s.S == "miss" {
			finish()
			return
		}
		kind := map[string]string{"mul": "rlk", "mulk": "rlk", "mulh": "rlk", "rot": "rot", "roth": "rot", "conj": "cjk", "dec": "sk"}[s.Op]
		kinds := []string{kind}
		if kind == "" {
			kinds = []string{"rlk", "rot"}
		}
		ids := map[string]bool{}
		for _, o := range s.operands() {
			for _, id := range n.base.m.obj[o].IDs {
				ids[id] = true
			}
		}
		for _, id := range sortedKeys(ids) {
			for _, kind := range kinds {
				n.send(&netMsg{kind: "key", from: n.coord, to: n.partyOf(id), step: i, keyKind: kind, srv: m.from})
			}
		}
		ep, t := n.cep, n.tries[i]
		n.at(90, func() {
			if n.cup && n.cep == ep && n.tries[i] == t && !n.done[i] {
				n.request(i, n.shipd[i])
			}
		})
	case "obj":
		if c := m.ct[i]; c != nil {
			n.obj[i] = c
			n.sum[i] = c.hash()
		}
		if h := m.h[i]; h != nil {
			n.hob[i] = h
			n.sum[i] = hHoisted(h)
		}
		finish()
	}
}

// ---- run --------------------------------------------------------------------------------------

func runNet(sc *Scenario) *Result {
	n := &netSim{sc: sc, pl: sc.Net, steps: map[int]*Step{}, obj: map[int]*Ct{}, hob: map[int]*mkrlwe.HoistedCiphertext{}, sum: map[int]uint64{}, done: map[int]bool{}, tries: map[int]int{}, shipd: map[int]bool{}, cnt: map[string]int{}, fix: map[string]int64{}, trace: 1, cup: true}
	for _, f := range sc.Net.Faults {
		n.fix[f.K+"|"+f.F] = f.N
	}
	n.o, n.scope = runOpts(sc.Prop)
	n.base = newRun(sc, Opts{})
	n.base.setup()
	n.big = sc.Cfg.LogN >= bigLogN
	if n.big {
		n.o = Opts{value: true}
	}
	for i := 1; i < sc.Cfg.Half(); i *= 2 {
		n.idx = append(n.idx, i)
	}
	for _, i := range sc.Net.Rots {
		i = n.base.m.norm(i)
		if i == 0 || n.base.m.keys[crsKey(i)] != 0 {
			continue
		}
		withEntropy(mixs(sc.Cfg.Seed, uint64(i), 0xc25), func() { n.base.l.mk.AddCRS(i) })
		n.base.m.keys[crsKey(i)] = 1
		n.idx = append(n.idx, i)
	}
	for _, id := range sc.Cfg.IDs {
		j := Step{Op: "join", P: id, I: 7}
		n.base.m.apply(&j, pred{}, true)
		for _, i := range n.idx {
			n.base.m.keys[rotKey(id, i)] = 1
		}
	}
	for i := range sc.Steps {
		s := &sc.Steps[i]
		p, ok := n.base.m.predict(s)
		if !ok || p.target != 0 || p.expect == "any" {
			continue
		}
		n.base.m.apply(s, p, p.expect == "ok" && !p.err)
		n.steps[s.ID] = s
		n.order = append(n.order, s.ID)
	}
	for i, id := range sc.Cfg.IDs {
		n.node = append(n.node, &netNode{id: i, name: fmt.Sprintf("P%d", i), party: id, isP: true, disk: map[string]any{}})
	}
	for i := 0; i < n.pl.Servers; i++ {
		k := len(n.node)
		n.node = append(n.node, &netNode{id: k, name: fmt.Sprintf("S%d", i), disk: map[string]any{}})
	}
	n.coord = len(n.node)
	for i := 0; i < n.pl.Parts; i++ {
		k := fmt.Sprintf("partition%d", i)
		if _, ok := n.hit(k, "partition", 1, func(*R) int64 { return 0 }); ok {
			r := n.draw(k)
			n.part = append(n.part, [3]int64{int64(r.N(int(n.pl.StopAt))), int64(r.LogU(5, 13)), int64(r.N(1 << uint(n.coord+1)))})
		}
	}
	for i := range n.part {
		// partitions heal when faults stop
		n.part[i][1] = int64(math.Min(float64(n.part[i][1]), float64(n.pl.StopAt-n.part[i][0])))
	}
	for _, x := range n.node {
		n.boot(x)
	}
	n.pump()
	limit := n.pl.StopAt + int64(30000)*int64(len(n.order)+len(n.node)+3)
	late := false
	open := func() int {
		k := 0
		for _, i := range n.order {
			if !n.done[i] {
				k++
			}
		}
		return k
	}
	for n.q.Len() > 0 && !n.dead() && open() > 0 {
		e := heap.Pop(&n.q).(netEv)
		if e.at > limit {
			late = true
			break
		}
		n.now = e.at
		e.f()
	}
	if k := open(); k > 0 && !n.dead() {
		what := "stopped making progress"
		if late {
			what = fmt.Sprintf("are still open %d s after the last fault", (limit-n.pl.StopAt)/1000)
		}
		var s *Step
		for _, i := range n.order {
			if !n.done[i] {
				s = n.steps[i]
				break
			}
		}
		n.base.scope = n.scope
		n.base.fail("liveness", s, "%d of %d requested steps %s", k, len(n.order), what)
		n.viol = append(n.viol, n.base.viol...)
		n.other = append(n.other, n.base.other...)
	}
	stats.check("completed-after-faults")
	stats.SimMs += float64(n.now)
	simhook.Permute = nil
	n.tr(uint64(n.now))
	if len(n.viol) > 0 && !n.pl.Fixed {
		n.pl.Fixed, n.pl.Faults = true, n.rec
	}
	return &Result{Viol: n.viol, Other: n.other, Trace: n.trace, Nontriv: n.ops >= 4}
}
