package main

import (
	"math"
	"strings"
)

// Scenario is one fully determined execution: the file that replays it.
type Scenario struct {
	Prop  string `json:"property"`
	Kind  string `json:"kind"` // prog, thr, net, cnn
	Seed  uint64 `json:"seed"`
	Cfg   *Cfg   `json:"cfg"`
	Steps []Step `json:"steps,omitempty"`
	Short int    `json:"entropyShortReads,omitempty"`
	// Prior are runs performed before this one in the same process, when a violation needs them:
	// state the library keeps for the whole process.
	Prior []*Scenario `json:"prior,omitempty"`
	Thr   *ThrPlan    `json:"threads,omitempty"`
	Net   *NetPlan    `json:"net,omitempty"`
	Cnn   *CnnPlan    `json:"cnn,omitempty"`
	Viol  *Viol       `json:"violation,omitempty"`
	Trace string      `json:"trace,omitempty"`
	Mini  *MiniInfo   `json:"minimised,omitempty"`
}

type MiniInfo struct {
	StepsBefore int `json:"stepsBefore"`
	StepsAfter  int `json:"stepsAfter"`
	Tried       int `json:"tried"`
}

// Gen draws a program using the model only; the code under test is not run.
type Gen struct {
	r     *R
	sc    *Scenario
	m     *Model
	id    int
	crash float64 // chance of an attempt that comes to nothing
	kill  float64 // chance that this is the end of the process
	ckks  bool
	big   bool
	again float64 // chance that a step is performed many times
	reuse float64 // chance that a step works in storage used before (0: not chosen yet)
	redo  float64 // chance that a step is performed again after something it uses has changed
	last  *Vec
}

// push appends a step and commits its expected effect. ok=false: it does not apply.
func (g *Gen) push(s Step) (pred, bool) {
	s.ID = g.id + 1
	p, ok := g.m.predict(&s)
	if !ok {
		return p, false
	}
	g.id++
	done := p.expect == "ok" && !p.err && s.X == 0 && s.Z == 0
	g.m.apply(&s, p, done)
	g.sc.Steps = append(g.sc.Steps, s)
	return p, true
}

var noCrash = map[string]bool{"free": true, "newev": true, "newenc": true, "newdec": true, "newkg": true, "look": true, "kcopy": true, "addkey": true, "delkey": true, "addcrs": true, "synth": true}

// try pushes a step, sometimes preceded by an attempt that breaks off part-way.
func (g *Gen) try(s Step) bool {
	if g.crash > 0 && !noCrash[s.Op] && g.r.P(g.crash) {
		c := s
		c.R = 0
		if usesKeys[c.Op] == "" && c.A == 0 || g.r.P(g.kill) {
			c.X = 1 + int64(g.r.LogU(0, 13))
		} else {
			c.Z = g.r.Seed()
		}
		if _, ok := g.push(c); !ok {
			return false
		}
		if g.r.P(0.3) {
			return true // never retried
		}
	}
	_, ok := g.push(s)
	return ok
}

func (g *Gen) vec() *Vec {
	v := &Vec{K: pick(g.r, vecKinds), Seed: g.r.Seed(), Mag: pick(g.r, []float64{1, 1, 1, 0.5, 2, 4, 1e-3})}
	if !g.ckks && g.r.P(0.1) {
		v.K = "wrap"
	}
	if g.big && g.r.P(0.2) {
		// no powers of two: lattigo's encoder loses a coefficient of exactly 2^64
		v.Mag = math.Exp2(float64(g.r.Range(3, 10))) * 1.001
	}
	if g.r.P(0.12) {
		v.Len = 1 + g.r.N(g.m.c.Half())
	}
	if g.last != nil && g.r.P(0.1) {
		// the message before, but for its end
		*v = *g.last
		v.T = g.r.Seed()
	}
	g.last = v
	return v
}

func (g *Gen) party() string { return pick(g.r, g.m.c.IDs) }

func (g *Gen) anyCt() *MObj {
	cs := g.m.cts()
	if len(cs) == 0 {
		return nil
	}
	// recent objects are used more, so that programs get deep
	if g.r.P(0.5) {
		return cs[len(cs)-1-g.r.N(min(3, len(cs)))]
	}
	return pick(g.r, cs)
}

// stranger is the ciphertext that shares the fewest parties with a, and of these one with the most.
func (g *Gen) stranger(a *MObj) *MObj {
	best := a
	rank := func(o *MObj) int {
		in := len(a.IDs) + len(o.IDs) - len(unionIDs(a.IDs, o.IDs))
		return len(o.IDs) - 100*in
	}
	for _, o := range g.m.cts() {
		if rank(o) > rank(best) {
			best = o
		}
	}
	return best
}

func (g *Gen) hoistOf(o *MObj) int {
	var c []int
	for _, h := range g.m.hoists() {
		if g.m.hoistFor(h.ID, o) != nil {
			c = append(c, h.ID)
		}
	}
	if len(c) == 0 {
		return 0
	}
	return pick(g.r, c)
}

func (g *Gen) rotIdx() int {
	h := g.m.c.Half()
	r := g.r
	if r.P(0.03) {
		// far beyond the number of slots
		k := h << uint(r.N(14)) // the library counts down to the range
		return pick(r, []int{k, -k, k + r.N(h), -k - r.N(h), k - 1, 1 - k})
	}
	switch r.N(8) {
	case 0:
		return 1 << uint(r.N(g.m.c.LogN-1))
	case 1:
		return -(1 << uint(r.N(g.m.c.LogN-1)))
	case 2:
		return r.N(h)
	case 3:
		return -r.N(h)
	case 4:
		return h + r.N(3*h)
	case 5:
		return -h - r.N(3*h)
	case 6:
		return pick(r, []int{0, 1, -1, h - 1, 1 - h, h, -h, h / 2, -h / 2, h + 1, 7*h + 3, -9*h - 1})
	}
	// an index with a reference string of its own, if there is one
	var c []int
	for k := 0; k < h; k++ {
		if g.m.keys[crsKey(k)] != 0 {
			c = append(c, k)
		}
	}
	k := pick(r, c)
	if r.P(0.4) {
		k -= h
	}
	return k
}

func (g *Gen) konst(s *Step) {
	r := g.r
	s.S = pick(r, []string{"int", "int64", "uint64", "float64", "float64", "complex128", "complex128"})
	iv := func() float64 {
		switch r.N(5) {
		case 0:
			return float64(r.Range(-3, 3))
		case 1:
			return float64(r.Range(-100, 100))
		case 2:
			if g.big {
				return math.Exp2(float64(r.Range(8, 66))) * pick(r, []float64{1, 1, -1, 1.5, -0.75})
			}
			return 2
		}
		return float64(r.Range(-9, 9))
	}
	fv := func() float64 {
		switch r.N(5) {
		case 0:
			return r.Sym() * 4
		case 1:
			return iv()
		case 2:
			return pick(r, []float64{0.5, -0.5, 1e-3, -1.25, 1.0 / 3, 1e-6, -3e-8, 2e-10, 99999.5, 1 + 1.0/4096, 1 + 1.0/(1<<20), 123.0000001, -0.999999})
		}
		return r.Sym()
	}
	switch s.S {
	case "int", "int64":
		s.F = iv()
		if math.Abs(s.F) > 9e18 {
			s.F = pick(r, []float64{1 << 40, -(1 << 50), -(1 << 63)})
		}
	case "uint64":
		s.F = math.Abs(iv())
		if s.F > 1.8e19 {
			s.F = pick(r, []float64{1 << 63, 1<<63 + 1<<62})
		}
	case "float64":
		s.F = fv()
		if r.P(0.1) {
			s.F = -s.F
		}
	default:
		s.F, s.G = fv(), fv()
		if r.P(0.2) {
			s.F = 0
		}
		if r.P(0.2) {
			s.G = 0
		}
	}
}

// one draws a step of the named operation.
func (g *Gen) one(op string) bool {
	r := g.r
	c := g.m.c
	s := Step{Op: op, E: r.N(4)}
	needCt := func() *MObj {
		o := g.anyCt()
		if o != nil {
			s.A = o.ID
		}
		return o
	}
	switch op {
	case "enc", "synth":
		s.P = g.party()
		s.V = g.vec()
		if g.ckks {
			switch r.N(6) {
			case 0:
				s.S, s.L = "lvl", r.N(c.Max()+1)
			case 1:
				s.S, s.L = "over", r.N(c.Max()+1)
			case 2:
				s.S, s.L, s.I = "ptx", r.N(c.Max()+1), r.N(c.Max()+1)
				s.F = c.Scale
				if r.P(0.5) {
					s.F = pick(r, []float64{c.Scale * 2, c.Scale / 2, c.Scale * 8, math.Exp2(30), c.Scale * 1024, c.Scale * 3})
				}
				s.G = float64(r.N(2))
			}
		} else {
			s.S = pick(r, []string{"", "", "over", "ptx"})
			if s.S != "" {
				s.G = float64(r.N(2))
			}
		}
		if r.P(0.1) && (s.S == "ptx" || s.S == "over" && !g.ckks) {
			s.G += 2 // the ciphertext is in the NTT domain
		}
		if op == "enc" && g.m.keys["pk/"+s.P] == 0 && !r.P(0.2) {
			return false
		}
	case "add", "sub", "mul", "mulk":
		if needCt() == nil {
			return false
		}
		b := g.anyCt()
		if r.P(0.12) {
			b = g.m.obj[s.A]
		} else if r.P(0.12) {
			b = g.stranger(g.m.obj[s.A])
		}
		s.B = b.ID
		if op == "mulk" && !g.ckks {
			s.S = pick(r, []string{"", "h", "ha", "hb"})
		}
	case "mulh":
		a := needCt()
		if a == nil {
			return false
		}
		b := g.anyCt()
		if r.P(0.25) {
			b = a
		} else if r.P(0.12) {
			b = g.stranger(a)
		}
		s.B = b.ID
		if r.P(0.75) {
			s.HA = g.hoistOf(a)
		}
		if r.P(0.75) {
			s.HB = g.hoistOf(b)
		}
	case "mulc", "mulci":
		a := needCt()
		if a == nil {
			return false
		}
		g.konst(&s)
		s.L = r.N(a.Level + 1)
		if r.P(0.6) {
			s.L = a.Level
		}
	case "mulp":
		if needCt() == nil {
			return false
		}
		s.V = g.vec()
		s.V.Len = 0
		if r.P(0.4) {
			s.S, s.L, s.F = "ptx", r.N(c.Max()+1), pick(r, []float64{c.Scale, c.Scale, c.Scale * 2, math.Exp2(28)})
		}
	case "resc", "resci", "resco":
		a := needCt()
		if a == nil {
			return false
		}
		s.F = pick(r, []float64{c.Scale, c.Scale, c.Scale, a.Scale, a.Scale / float64(g.m.md.Q[a.Level]), a.Scale / float64(g.m.md.Q[a.Level]) * 1.99, c.Scale * 4, c.Scale / 4, 1 << 20, 1, 0, -1, math.Exp2(90)})
		if s.Op == "resco" && r.P(0.15) {
			// a receiver of another level
			s.I = r.N(min(c.Max(), a.Level+2)+1) - a.Level
		}
		if r.P(0.04) {
			s.S = "zero" // the operand carries no scale
		}
	case "drop", "dropi":
		a := needCt()
		if a == nil {
			return false
		}
		s.I = r.N(min(a.Level, 2) + 1)
		switch {
		case r.P(0.06):
			s.I = a.Level // down to the last level at once
		case r.P(0.06):
			s.I = r.N(a.Level + 1)
		}
	case "rot":
		if needCt() == nil {
			return false
		}
		s.I = g.rotIdx()
	case "roth":
		// prefer an operand that has a hoisted form
		hs := g.m.hoists()
		if len(hs) == 0 {
			return false
		}
		h := pick(r, hs)
		s.A, s.HA = h.Of, h.ID
		s.I = g.rotIdx()
	case "conj", "copy", "hoist":
		if needCt() == nil {
			return false
		}
		if op == "copy" {
			s.S = pick(r, []string{"", "pad", "into"})
			if s.S == "pad" {
				s.P = g.party()
			}
		}
	case "dec":
		a := needCt()
		if a == nil {
			return false
		}
		switch r.N(6) {
		case 0:
			if len(a.IDs) > 0 {
				s.S, s.P = "miss", pick(r, a.IDs)
			}
		case 1:
			s.S = "only"
		case 2:
			if g.ckks {
				s.S, s.L = "raw", r.N(c.Max()+1)
				s.G = float64(r.N(2))
			}
		}
	case "pdec", "pdeci":
		a := needCt()
		if a == nil || len(a.IDs) == 0 {
			return false
		}
		s.P = pick(r, a.IDs)
	case "free":
		var ids []int
		for _, o := range g.m.cts() {
			ids = append(ids, o.ID)
		}
		for _, o := range g.m.hoists() {
			ids = append(ids, o.ID)
		}
		if len(ids) == 0 {
			return false
		}
		s.A = pick(r, ids)
	case "join":
		s.P, s.I = g.party(), 7
		s.G = float64(r.N(2))
	case "genkey":
		s.P = g.party()
		s.S = pick(r, []string{"rlk", "rot", "rot", "cjk"})
		if s.S == "rot" {
			s.I = g.rotIdx()
		}
	case "kcopy":
		s.P = g.party()
		s.S = pick(r, []string{"sk", "pk"})
	case "addkey", "delkey", "look":
		s.P = g.party()
		s.S = pick(r, []string{"rlk", "rot", "rot", "cjk", "rlk"})
		if op != "delkey" && r.P(0.2) {
			s.S = pick(r, []string{"sk", "pk"})
		}
		if op == "delkey" && r.P(0.15) {
			s.S = pick(r, []string{"sk", "pk"})
		}
		if s.S == "rot" {
			s.I = 1 << uint(r.N(c.LogN-1))
			if r.P(0.4) {
				s.I = g.m.norm(g.rotIdx())
			}
		}
		if op == "addkey" {
			v := g.m.vers[s.keyName(g.m)]
			if v == 0 {
				return false
			}
			s.L = 1 + r.N(v)
			if r.P(0.4) {
				s.L = v
			}
			s.G = float64(r.N(2))
		}
	case "addcrs":
		s.I = g.rotIdx()
		if r.P(0.25) {
			s.I = pick(r, []int{-1, -2, -3, -4, 1, 2, 3, 5, -5})
		}
	}
	if g.reuse == 0 {
		g.reuse = pick(r, []float64{-1, -1, 0.3, 0.7, 1})
	}
	s.U = reusing[op] && r.P(g.reuse)
	if g.again > 0 && repeatable[op] && s.S != "raw" && r.P(g.again) {
		s.R = min(r.LogU(2, 11), 24000/(c.N()*len(c.BitsQ))/(1+len(c.IDs)/3))
	}
	return g.try(s)
}

var redoable = map[string]string{"add": "", "sub": "", "mul": "rlk", "mulh": "rlk", "mulk": "rlk", "rot": "rot", "roth": "rot", "conj": "cjk", "dec": "", "hoist": "", "pdec": "", "copy": "", "mulp": "", "resc": "", "conv": "rlk", "fc1": "rlk", "fc2": "rlk"}

// change alters the content of a ciphertext but not the object that holds it. It gives the number it has afterwards.
func (g *Gen) change(id, e int) int {
	r := g.r
	a := g.m.obj[id]
	if g.ckks && r.P(0.5) {
		s := Step{Op: pick(r, []string{"mulci", "mulci", "dropi", "resci"}), A: id, E: e, I: 1, L: a.Level}
		switch s.Op {
		case "mulci":
			s.S, s.F = "int", pick(r, []float64{-1, 2, 3, -2})
		case "resci":
			s.F = pick(r, []float64{g.m.c.Scale, a.Scale / float64(g.m.md.Q[a.Level])})
		}
		if _, ok := g.push(s); ok {
			return id
		}
		return 0
	}
	// given up; its storage receives another one
	s := Step{Op: "enc", S: "over", L: a.Level, V: g.vec(), E: e, U: true}
	if len(a.IDs) == 1 {
		s.P = a.IDs[0]
	}
	if len(a.IDs) != 1 || a.Part || r.P(0.3) {
		s = Step{Op: "copy", S: "into", E: e, U: true}
		for _, o := range g.m.cts() {
			if o.ID != id && eqIDs(o.IDs, a.IDs) && o.Level == a.Level {
				s.A = o.ID
			}
		}
		if s.A == 0 {
			return 0
		}
	} else if g.m.keys["pk/"+s.P] == 0 {
		return 0
	}
	if _, ok := g.push(Step{Op: "free", A: id}); !ok {
		return 0
	}
	if _, ok := g.push(s); !ok {
		return 0
	}
	return g.id
}

// again performs a recent step once more, by the same object, with an operand or a key that has changed meanwhile.
func (g *Gen) redoOne() bool {
	r := g.r
	var c []Step
	for i := len(g.sc.Steps) - 1; i >= 0 && i > len(g.sc.Steps)-12; i-- {
		s := g.sc.Steps[i]
		if _, ok := redoable[s.Op]; ok && s.X == 0 && s.Z == 0 && g.m.obj[s.A] != nil {
			c = append(c, s)
		}
	}
	if len(c) == 0 {
		return false
	}
	s := pick(r, c)
	if r.P(0.15) {
		kind := redoable[s.Op]
		a := g.m.obj[s.A]
		if kind == "" || len(a.IDs) == 0 {
			return false
		}
		k := Step{Op: "genkey", S: kind, P: pick(r, a.IDs), E: r.N(4)}
		if kind == "rot" {
			k.I = s.I
		}
		if _, ok := g.push(k); !ok {
			return false
		}
		return g.try(s)
	}
	was := s.A
	if s.B != 0 && s.B != s.A && r.P(0.4) && g.m.obj[s.B] != nil {
		was = s.B
	}
	now := g.change(was, s.E)
	if now == 0 {
		return false
	}
	hoisted := map[int]int{}
	re := func(id, h int) int {
		if h == 0 || id != now {
			return h
		}
		if hoisted[h] == 0 {
			if _, ok := g.push(Step{Op: "hoist", A: now, E: s.E}); ok {
				hoisted[h] = g.id
			}
		}
		return hoisted[h]
	}
	if s.A == was {
		s.A = now
	}
	if s.B == was {
		s.B = now
	}
	s.HA, s.HB = re(s.A, s.HA), re(s.B, s.HB)
	s.As, s.Hs = append([]int(nil), s.As...), append([]int(nil), s.Hs...)
	for i := range s.As {
		if s.As[i] == was {
			s.As[i] = now
		}
		if i < len(s.Hs) {
			s.Hs[i] = re(s.As[i], s.Hs[i])
		}
	}
	return g.try(s)
}

// drawRedo chooses how often steps are performed again, and how often fresh objects come between.
func (g *Gen) drawRedo() {
	if g.r.P(0.35) {
		g.redo = pick(g.r, []float64{0.1, 0.3})
	}
	if g.r.P(0.35) {
		g.sc.Cfg.Twin = pick(g.r, []float64{0.15, 0.5})
	}
}

// profile is the workload mix of one property.
type profile struct {
	schemes []string
	ops     []W
	opsB    []W
	opt     Opts
	scope   string
	crash   float64 // share of runs with crashes
	steps   [2]int
	lv      [2]int
	parties int
	maxLogN int
	partial float64 // chance that a party joins without some of its keys
	noJoin  bool
	big     bool
}

func runOpts(prop string) (Opts, map[string]bool) {
	p := profiles[prop]
	sc := map[string]bool{}
	w := ""
	for _, ch := range p.scope + " " {
		if ch == ' ' {
			if w != "" {
				sc[w] = true
			}
			w = ""
			continue
		}
		w += string(ch)
	}
	return p.opt, sc
}

var ckksMix = []W{{"enc", 10}, {"add", 8}, {"sub", 8}, {"mul", 10}, {"mulh", 4}, {"mulk", 2}, {"mulc", 6}, {"mulci", 3}, {"mulp", 5}, {"resc", 3}, {"resci", 3}, {"resco", 2}, {"drop", 3}, {"dropi", 2}, {"rot", 7}, {"roth", 3}, {"conj", 5}, {"hoist", 5}, {"copy", 2}, {"dec", 5}, {"free", 2}}
var bfvMix = []W{{"enc", 10}, {"add", 8}, {"sub", 8}, {"mul", 12}, {"mulk", 5}, {"rot", 8}, {"conj", 5}, {"copy", 2}, {"dec", 6}, {"free", 2}}

func with(a []W, b ...W) []W { return append(append([]W{}, a...), b...) }

var keyOps = []W{{"genkey", 4}, {"addkey", 4}, {"delkey", 4}, {"look", 4}}
var renew = []W{{"newev", 1}, {"newenc", 1}, {"newdec", 1}, {"newkg", 1}}

var profiles = map[string]profile{
	"C01": {schemes: []string{"ckks"}, ops: with(ckksMix, renew...), opt: Opts{value: true}, scope: "value ids form panic decrypt liveness level scale err", crash: 0.25, steps: [2]int{8, 26}, lv: [2]int{1, 6}, parties: 5, maxLogN: 10, big: true},
	"C02": {schemes: []string{"bfv"}, opsB: with(bfvMix, renew...), opt: Opts{value: true}, scope: "value noise ids form panic decrypt liveness level", crash: 0.25, steps: [2]int{8, 26}, parties: 5, maxLogN: 9, big: true},
	"C03": {schemes: []string{"ckks", "ckks", "bfv"}, ops: []W{{"enc", 8}, {"add", 8}, {"mul", 5}, {"sub", 2}, {"drop", 3}, {"mulc", 2}, {"dec", 14}, {"pdec", 12}, {"pdeci", 5}, {"newdec", 1}, {"delkey", 1}, {"addkey", 2}, {"free", 1}},
		opsB: []W{{"enc", 8}, {"add", 8}, {"mul", 5}, {"sub", 2}, {"dec", 14}, {"pdec", 12}, {"pdeci", 5}, {"newdec", 1}, {"delkey", 1}, {"addkey", 2}, {"free", 1}},
		opt:  Opts{value: true, frozen: true, twin: true}, scope: "decrypt value silent operand ids panic form keys history liveness", crash: 0.3, steps: [2]int{8, 26}, lv: [2]int{1, 4}, parties: 6, maxLogN: 9},
	"C04": {schemes: []string{"ckks", "ckks", "bfv"}, ops: with(ckksMix, W{"genkey", 2}, W{"delkey", 1}, W{"addkey", 1}, W{"addcrs", 1}, W{"pdec", 2}, W{"newev", 1}), opsB: with(bfvMix, W{"genkey", 2}, W{"delkey", 1}, W{"addkey", 1}, W{"addcrs", 1}, W{"pdec", 2}, W{"newev", 1}),
		opt: Opts{twin: true}, scope: "history", crash: 0.6, steps: [2]int{10, 30}, lv: [2]int{1, 5}, parties: 4, maxLogN: 8, partial: 0.15},
	"C05": {schemes: []string{"ckks", "ckks", "bfv"}, ops: with(ckksMix, W{"pdec", 2}, W{"genkey", 2}, W{"addcrs", 1}, W{"delkey", 1}, W{"kcopy", 1}), opsB: with(bfvMix, W{"pdec", 2}, W{"genkey", 2}, W{"addcrs", 1}, W{"delkey", 1}, W{"kcopy", 1}),
		opt: Opts{frozen: true, alias: true}, scope: "operand alias keys", crash: 0.3, steps: [2]int{8, 28}, lv: [2]int{1, 5}, parties: 4, maxLogN: 8, partial: 0.1},
	"C07": {schemes: []string{"ckks", "ckks", "bfv"}, ops: with([]W{{"enc", 6}, {"mul", 12}, {"mulk", 2}, {"mulh", 3}, {"hoist", 3}, {"rot", 10}, {"roth", 3}, {"conj", 7}, {"dec", 8}, {"add", 3}, {"free", 2}, {"join", 2}, {"addcrs", 2}}, W{"genkey", 8}, W{"addkey", 8}, W{"delkey", 10}, W{"look", 8}),
		opsB: with([]W{{"enc", 6}, {"mul", 12}, {"mulk", 2}, {"rot", 10}, {"conj", 7}, {"dec", 8}, {"add", 3}, {"free", 2}, {"join", 2}, {"addcrs", 2}}, W{"genkey", 8}, W{"addkey", 8}, W{"delkey", 10}, W{"look", 8}),
		opt:  Opts{value: true, frozen: true, twin: true}, scope: "lookup silent operand value keys panic history decrypt liveness", crash: 0.3, steps: [2]int{12, 36}, lv: [2]int{1, 4}, parties: 4, maxLogN: 7, partial: 0.35},
	"C08": {schemes: []string{"ckks", "ckks", "ckks", "ckks", "ckks", "bfv"}, opsB: []W{{"enc", 6}, {"add", 4}, {"sub", 2}, {"mulk", 14}, {"mul", 4}, {"rot", 2}, {"copy", 2}, {"newev", 2}, {"genkey", 1}, {"free", 1}}, ops: []W{{"enc", 7}, {"add", 4}, {"sub", 2}, {"mulh", 14}, {"mul", 4}, {"mulk", 3}, {"roth", 12}, {"hoist", 12}, {"drop", 5}, {"dropi", 3}, {"resc", 2}, {"mulc", 2}, {"conj", 1}, {"rot", 1}, {"genkey", 3}, {"addcrs", 3}, {"copy", 2}, {"newev", 2}, {"free", 1}},
		opt: Opts{value: true, frozen: true, hoist: true, twin: true}, scope: "hoist operand value noise panic ids level scale form history", crash: 0.25, steps: [2]int{10, 28}, lv: [2]int{1, 6}, parties: 4, maxLogN: 9},
	"C09": {schemes: []string{"ckks", "bfv"}, ops: []W{{"enc", 6}, {"add", 4}, {"drop", 3}, {"mul", 2}, {"mulc", 2}, {"rot", 26}, {"conj", 9}, {"addcrs", 7}, {"genkey", 10}, {"hoist", 3}, {"roth", 5}, {"delkey", 3}, {"addkey", 1}, {"free", 1}},
		opsB: []W{{"enc", 6}, {"add", 4}, {"mul", 2}, {"rot", 26}, {"conj", 9}, {"addcrs", 7}, {"genkey", 10}, {"delkey", 3}, {"addkey", 1}, {"free", 1}},
		opt:  Opts{value: true, frozen: true}, scope: "value silent panic form ids level scale keys noise operand", crash: 0.25, steps: [2]int{10, 28}, lv: [2]int{1, 4}, parties: 3, maxLogN: 10, partial: 0.25},
	"C10": {schemes: []string{"ckks", "bfv"}, ops: []W{{"join", 8}, {"genkey", 12}, {"addcrs", 4}, {"newkg", 2}, {"enc", 1}, {"rot", 1}},
		opsB: []W{{"join", 8}, {"genkey", 12}, {"addcrs", 4}, {"newkg", 2}, {"enc", 1}, {"rot", 1}},
		opt:  Opts{keyeq: true, frozen: true}, scope: "keyeq keys panic silent", crash: 0.5, steps: [2]int{6, 16}, lv: [2]int{1, 4}, parties: 4, maxLogN: 8, partial: 0.3},
	"C11": {schemes: []string{"ckks"}, ops: []W{{"enc", 10}, {"add", 9}, {"sub", 9}, {"mul", 7}, {"mulc", 8}, {"mulci", 4}, {"mulp", 6}, {"resc", 9}, {"resci", 7}, {"resco", 7}, {"drop", 7}, {"dropi", 4}, {"rot", 1}, {"conj", 1}, {"mulh", 1}, {"hoist", 1}, {"dec", 4}, {"free", 1}},
		opt: Opts{value: true}, scope: "scale level value err panic form decrypt", crash: 0.2, steps: [2]int{10, 28}, lv: [2]int{1, 7}, parties: 3, maxLogN: 9, big: true},
	"C12": {schemes: []string{"ckks"}, opt: Opts{value: true, frozen: true, twin: true}, scope: "value ids form panic decrypt liveness level scale cnn operand keys silent history", lv: [2]int{2, 6}, parties: 2, maxLogN: 9},
	"C13": {schemes: []string{"ckks", "bfv"}, ops: []W{{"enc", 14}, {"synth", 14}, {"newenc", 2}, {"drop", 1}, {"dec", 4}, {"free", 2}, {"add", 1}},
		opsB: []W{{"enc", 14}, {"synth", 14}, {"newenc", 2}, {"dec", 4}, {"free", 2}, {"add", 1}},
		opt:  Opts{value: true, fresh: true}, scope: "enc value noise operand panic decrypt ids level scale form", crash: 0.4, steps: [2]int{8, 24}, lv: [2]int{1, 5}, parties: 3, maxLogN: 10, big: true},
}

// genProg draws one program scenario.
func genProg(prop string, seed uint64) *Scenario {
	p := profiles[prop]
	r := NewR(mixs(strh(prop), seed, 1))
	sc := &Scenario{Prop: prop, Kind: "prog", Seed: seed}
	scheme := pick(r, p.schemes)
	o := cfgOpt{maxLogN: p.maxLogN, minLevels: p.lv[0], maxLevels: p.lv[1], minParty: 1, maxParty: p.parties}
	switch {
	case r.P(0.012):
		o.long = true
	case r.P(0.025) && p.parties > 2:
		o.crowd = true
	case r.P(0.003):
		o.wide = true
	}
	sc.Cfg = genCfg(r, scheme, o)
	g := &Gen{r: r, sc: sc, m: newModel(sc.Cfg), ckks: scheme == "ckks", big: p.big}
	if r.P(p.crash) {
		g.crash, g.kill = pick(r, []float64{0.04, 0.12, 0.3}), pick(r, []float64{0.1, 0.3, 0.6})
	}
	if r.P(0.15) {
		sc.Short = r.Range(1, 40)
	}
	ops := p.ops
	if scheme == "bfv" {
		ops = p.opsB
	}
	// swarm: some operations are left out of a run, some weigh more; some runs have very few, for long
	few := r.P(0.12)
	var mix []W
	for _, w := range ops {
		if w.n != "enc" && r.P(0.25) {
			continue
		}
		if o.long && strings.HasPrefix(w.n, "new") && r.P(0.7) {
			continue
		}
		if r.P(0.15) {
			w.w *= 4
		}
		mix = append(mix, w)
	}
	n := r.Range(p.steps[0], p.steps[1])
	if few {
		q := r.Perm(len(mix))
		var m2 []W
		for _, i := range q[:min(len(mix), 2+r.N(4))] {
			m2 = append(m2, mix[i])
		}
		mix = m2
		n *= 2
	}
	if sc.Cfg.LogN >= 9 {
		n = min(n, 10)
	}
	if o.wide {
		n = r.Range(3, 7)
	}
	if o.long {
		n = r.Range(150, 500)
	}
	// parties join at the start or later
	late := r.P(0.3)
	var todo []Step
	for _, id := range sc.Cfg.IDs {
		mask := 7
		if r.P(p.partial) {
			mask = r.N(8)
		}
		if sc.Cfg.LogN >= 10 && !p.opt.keyeq {
			mask &= 5
			if r.P(0.3) {
				mask |= 2
			}
		}
		s := Step{Op: "join", P: id, I: mask, E: r.N(4), G: float64(r.N(2))}
		if late && len(todo)+len(sc.Steps) > 0 && r.P(0.5) {
			todo = append(todo, s)
			continue
		}
		g.try(s)
	}
	for i := 0; i < 2 && g.m.cts() == nil; i++ {
		g.one("enc")
	}
	gather := 0.0
	if o.crowd && r.P(0.85) {
		gather = 0.5
	} else if len(sc.Cfg.IDs) > 2 && r.P(0.15) {
		gather = 0.1
	}
	if !o.long && !o.crowd && sc.Cfg.LogN <= 7 && r.P(0.03) {
		g.again = pick(r, []float64{0.1, 0.3})
	}
	g.drawRedo()
	for _, w := range mix {
		if w.n == "genkey" && sc.Cfg.LogN <= 8 && !o.long && r.P(0.03) {
			g.hoard()
		}
	}
	made := 0
	for t := 0; made < n && t < 12*n; t++ {
		if r.P(g.redo) && g.redoOne() {
			made++
		}
		if len(todo) > 0 && r.P(0.15) {
			g.try(todo[0])
			todo = todo[1:]
		}
		if len(g.m.cts()) > 14 && !g.one("free") {
			continue
		}
		if r.P(gather) {
			g.gather()
			gather = 0.04
		}
		if g.one(wpick(r, mix)) {
			made++
		}
	}
	return sc
}

// hoard gives one party, or two, rotation keys for many indices, before or between the operations that use them.
func (g *Gen) hoard() {
	r := g.r
	h := g.m.c.Half()
	p := g.party()
	for n := r.Range(min(10, h-1), min(h-1, 70)); n > 0; n-- {
		k := 1 + r.N(h-1)
		if g.m.keys[crsKey(k)] == 0 {
			g.push(Step{Op: "addcrs", I: k})
		}
		if r.P(0.3) {
			k -= h
		}
		g.push(Step{Op: "genkey", S: "rot", P: p, I: k, E: r.N(4)})
		if r.P(0.02) {
			p = g.party()
		}
	}
}

// gather adds up ciphertexts of most parties.
func (g *Gen) gather() {
	acc := 0
	for _, i := range g.r.Perm(len(g.m.c.IDs)) {
		s := Step{Op: "enc", P: g.m.c.IDs[i], V: g.vec(), E: g.r.N(4)}
		if g.m.keys["pk/"+s.P] == 0 || g.r.P(0.1) {
			continue
		}
		if _, ok := g.push(s); !ok {
			continue
		}
		if acc != 0 {
			a, b := acc, g.id
			if g.r.P(0.5) {
				a, b = b, a
			}
			if _, ok := g.push(Step{Op: pick(g.r, []string{"add", "add", "add", "sub"}), A: a, B: b, E: g.r.N(4)}); ok {
				sum := g.id
				if g.m.obj[sum] == nil {
					return
				}
				if g.r.P(0.8) {
					g.push(Step{Op: "free", A: acc})
					g.push(Step{Op: "free", A: sum - 1})
				}
				acc = sum
			}
			continue
		}
		acc = g.id
	}
}
