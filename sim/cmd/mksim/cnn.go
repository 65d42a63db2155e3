package main

import (
	"math"
	"os"
	"strconv"
	"strings"

	"mk-lattigo/cnn"
	"mk-lattigo/mkckks"
	"mk-lattigo/mkrlwe"
)

// bigLogN: from this ring degree on, keys are shared instead of copied between processes.
const bigLogN = 12

// CnnPlan ties the slot vectors of a run to whole networks: what the outputs must be.
type CnnPlan struct {
	Model uint64         `json:"model"`           // seed of the weights (0: the repository's)
	Image map[int]uint64 `json:"image,omitempty"` // last layer's step -> seed of the image
}

// ---- the network in the clear -----------------------------------------------------------------

type weights struct {
	k   [5][4][4]float64
	fc1 [845][64]float64
	fc2 [64][10]float64
	b1  [64]float64
	b2  [10]float64
}

var weightCache = map[uint64]*weights{}
var imageCache = map[uint64]*[28][28]float64{}

func readNums(f string) []float64 {
	b, err := os.ReadFile("/repo/cnn/data/" + f)
	if err != nil {
		return nil
	}
	var out []float64
	for _, t := range strings.Fields(string(b)) {
		x, err := strconv.ParseFloat(t, 64)
		if err != nil {
			return nil
		}
		out = append(out, x)
	}
	return out
}

func cnnWeights(seed uint64) *weights {
	if w := weightCache[seed]; w != nil {
		return w
	}
	if len(weightCache) > 8 {
		weightCache = map[uint64]*weights{}
	}
	w := &weights{}
	r := NewR(mixs(seed, 0xc22))
	var k, f1, f2, b1, b2 []float64
	if seed == 0 {
		k, f1, f2, b1, b2 = readNums("k1.txt"), readNums("FC1.txt"), readNums("FC2.txt"), readNums("B1.txt"), readNums("B2.txt")
	}
	fill := func(xs []float64, n int, mag float64) []float64 {
		if len(xs) == n {
			return xs
		}
		xs = make([]float64, n)
		kind := r.N(6)
		for i := range xs {
			switch kind {
			case 0:
				if r.P(0.2) {
					xs[i] = mag * r.Sym() * 2
				}
			case 1:
				xs[i] = pick(r, []float64{mag, -mag, 0})
			default:
				xs[i] = mag * r.Sym()
			}
		}
		return xs
	}
	k, f1, f2 = fill(k, 80, 0.5), fill(f1, 845*64, 0.07), fill(f2, 640, 0.3)
	b1, b2 = fill(b1, 64, 0.5), fill(b2, 10, 1)
	for i, x := range k {
		w.k[i/16][i%16/4][i%4] = x
	}
	for i, x := range f1 {
		w.fc1[i/64][i%64] = x
	}
	for i, x := range f2 {
		w.fc2[i/10][i%10] = x
	}
	copy(w.b1[:], b1)
	copy(w.b2[:], b2)
	weightCache[seed] = w
	return w
}

func cnnImage(seed uint64) *[28][28]float64 {
	if m := imageCache[seed]; m != nil {
		return m
	}
	if len(imageCache) > 32 {
		imageCache = map[uint64]*[28][28]float64{}
	}
	r := NewR(mixs(seed, 0x1336e))
	m := new([28][28]float64)
	switch r.N(4) {
	case 0: // noise
		for i := range m {
			for j := range m[i] {
				m[i][j] = r.F()
			}
		}
	case 1: // a few strokes
		for s := 0; s < 4; s++ {
			x, y, dx, dy := r.F()*28, r.F()*28, r.Sym(), r.Sym()
			for t := 0; t < 20; t++ {
				if i, j := int(x), int(y); i >= 0 && i < 28 && j >= 0 && j < 28 {
					m[i][j] = 1
				}
				x, y = x+dx, y+dy
			}
		}
	case 2: // single pixels, corners included
		for _, p := range [][2]int{{0, 0}, {0, 27}, {27, 0}, {27, 27}, {r.N(28), r.N(28)}, {r.N(28), r.N(28)}} {
			if r.P(0.6) {
				m[p[0]][p[1]] = 1
			}
		}
	default:
		for i := range m {
			for j := range m[i] {
				m[i][j] = float64(r.N(256)) / 255
			}
		}
	}
	imageCache[seed] = m
	return m
}

// infer is the network in the clear, written from its definition: convolution 4x4 with stride 2,
// square, fully connected, square, fully connected.
func infer(img *[28][28]float64, w *weights) [10]float64 {
	var h [64]float64
	for u := range h {
		h[u] = w.b1[u]
	}
	for k := 0; k < 5; k++ {
		for i := 0; i < 13; i++ {
			for j := 0; j < 13; j++ {
				c := 0.0
				for a := 0; a < 4; a++ {
					for b := 0; b < 4; b++ {
						c += img[2*i+a][2*j+b] * w.k[k][a][b]
					}
				}
				c *= c
				for u := range h {
					h[u] += c * w.fc1[k+5*(13*i+j)][u]
				}
			}
		}
	}
	out := w.b2
	for u := range h {
		for y := range out {
			out[y] += h[u] * h[u] * w.fc2[u][y]
		}
	}
	return out
}

// cnnVec gives the slot vectors of the packing the layers are defined for.
func cnnVec(v *Vec, out []complex128) bool {
	if !strings.HasPrefix(v.K, "cnn") || len(out) < 8192 {
		return strings.HasPrefix(v.K, "cnn")
	}
	set := func(i int, x float64) { out[i] = complex(x, 0) }
	if v.K == "cnnImg" {
		m := cnnImage(v.Seed)
		for k := 0; k < 5; k++ {
			for i := 0; i < 14; i++ {
				for j := 0; j < 14; j++ {
					for q := 0; q < 4; q++ {
						x := m[2*i+q/2][2*j+q%2]
						at := 196*k + 14*i + j + 1024*q
						set(at, x)
						set(at+4096, x)
					}
				}
			}
		}
		return true
	}
	w := cnnWeights(v.Seed)
	switch v.K {
	case "cnnKer":
		a, b := v.I/2*2, v.I%2*2
		for k := 0; k < 5; k++ {
			for i := 0; i < 13; i++ {
				for j := 0; j < 13; j++ {
					for q := 0; q < 4; q++ {
						at := 196*k + 14*i + j + 1024*q
						set(at, w.k[k][a+q/2][b+q%2])
						set(at+4096, w.k[k][a+q/2][b+q%2])
					}
				}
			}
		}
	case "cnnFC1":
		for u := 0; u < 64; u++ {
			var row [1024]float64
			for k := 0; k < 5; k++ {
				for i := 0; i < 13; i++ {
					for j := 0; j < 13; j++ {
						row[196*k+14*i+j] = w.fc1[k+5*(13*i+j)][u]
					}
				}
			}
			for k := 0; k < 128; k++ {
				set(128*u+k, row[128*((v.I+u)%8)+k])
			}
		}
	case "cnnFC2":
		for u := 0; u < 64; u++ {
			for y := 0; y < 10; y++ {
				set(128*u+y, w.fc2[u][y])
			}
		}
	case "cnnB1":
		for u := 0; u < 64; u++ {
			set(128*u, w.b1[u])
		}
	case "cnnB2":
		for y := 0; y < 10; y++ {
			set(y, w.b2[y])
		}
	}
	return true
}

// checkClass compares a decrypted last layer with the network in the clear.
func (r *Run) checkClass(s *Step, o *MObj, got []complex128) {
	c := r.sc.Cnn
	if c == nil || o == nil {
		return
	}
	seed, ok := c.Image[s.A]
	if !ok {
		return
	}
	stats.check("inference")
	want := infer(cnnImage(seed), cnnWeights(c.Model))
	best, gap, big := 0, math.Inf(1), 1.0
	for _, x := range want {
		big = math.Max(big, math.Abs(x))
	}
	// the model's bound adds all deviations up; a thousandth of the outputs is what users rely on
	lim := math.Min(o.E, 1e-3*big)
	for y := range want {
		d := math.Hypot(real(got[y])-want[y], imag(got[y]))
		tol := lim + 1e-9*big
		stats.rat("cnn-inference", d/tol)
		if !(d <= tol) {
			r.fail("cnn", s, "inference gives %v for class %d, the plaintext network %.6g (bound %.3g)", got[y], y, want[y], tol)
			return
		}
		if want[y] > want[best] {
			best = y
		}
	}
	mine := 0
	for y := range want {
		if y != best {
			gap = math.Min(gap, want[best]-want[y])
		}
		if real(got[y]) > real(got[mine]) {
			mine = y
		}
	}
	if gap > 4*lim && mine != best {
		r.fail("cnn", s, "inference predicts class %d, the plaintext network %d", mine, best)
	}
}

// ---- layers -----------------------------------------------------------------------------------

// layerSteps spells a layer out in elementary operations, following its definition; the last
// step's result is the layer's.
func layerSteps(s *Step, id func() int) []Step {
	var out []Step
	put := func(t Step) int {
		t.ID = id()
		t.E = s.E
		out = append(out, t)
		return t.ID
	}
	turnSum := func(x, k int) int { return put(Step{Op: "add", A: x, B: put(Step{Op: "rot", A: x, I: k})}) }
	at := func(xs []int, i int) int {
		if i < len(xs) {
			return xs[i]
		}
		return 0
	}
	// sum of rotated images times operands
	inner := func(rots []int) int {
		sum := 0
		for i, k := range rots {
			p := put(Step{Op: "mulh", A: put(Step{Op: "roth", A: s.A, I: k, HA: s.HA}), B: s.As[i], HB: at(s.Hs, i)})
			if i == 0 {
				sum = p
			} else {
				sum = put(Step{Op: "add", A: sum, B: p})
			}
		}
		return sum
	}
	switch s.Op {
	case "conv":
		x := inner([]int{0, 1, 14, 15})
		x = turnSum(x, 2048)
		turnSum(x, 1024)
	case "fc1":
		var rots []int
		for i := range s.As {
			rots = append(rots, 128*i)
		}
		x := inner(rots)
		for i := 0; i < 7; i++ {
			x = turnSum(x, 1<<uint(i))
		}
		put(Step{Op: "add", A: x, B: s.B})
	case "fc2":
		x := put(Step{Op: "mulp", A: s.A, V: s.V})
		for i := 0; i < 4; i++ {
			x = turnSum(x, -(1 << uint(i)))
		}
		x = put(Step{Op: "mul", A: x, B: s.B})
		for i := 0; i < 6; i++ {
			x = turnSum(x, 128<<uint(i))
		}
		put(Step{Op: "add", A: x, B: s.As[0]})
	}
	return out
}

// predictLayer works a layer out through its elementary operations.
func (m *Model) predictLayer(s *Step) (p pred, ok bool) {
	p.expect = "ok"
	for _, o := range s.operands() {
		if m.obj[o] == nil {
			return p, false
		}
	}
	if s.Op == "conv" && len(s.As) != 4 || s.Op == "fc1" && (len(s.As) == 0 || len(s.As) > 8) || s.Op == "fc2" && len(s.As) != 1 {
		return p, false
	}
	if s.Op != "fc2" && (m.ct(s.A) == nil || m.hoistFor(s.HA, m.ct(s.A)) == nil) {
		return p, false
	}
	t := *m
	t.obj = map[int]*MObj{}
	for k, v := range m.obj {
		t.obj[k] = v
	}
	n := 0
	st := layerSteps(s, func() int { n--; return n - 1000 })
	var last *MObj
	for i := range st {
		q, ok := t.predict(&st[i])
		if !ok || q.out == nil {
			return p, false
		}
		if q.expect == "any" && p.expect == "ok" {
			p.expect = "any"
		}
		if q.expect == "refuse" {
			p.expect = "refuse"
		}
		t.apply(&st[i], q, true)
		last = q.out
	}
	o := last.copy()
	o.ID, o.Ver = s.ID, 0
	p.out = o
	return p, true
}

func (l *Lib) doLayer(r *Run, s *Step, res *opRes) *Ct {
	ev := at(l.ev, s.E).k
	var as []*mkckks.Ciphertext
	var hs []*mkrlwe.HoistedCiphertext
	for i, a := range s.As {
		as = append(as, r.ct[a].k)
		var h *mkrlwe.HoistedCiphertext
		if i < len(s.Hs) && s.Hs[i] != 0 {
			h = r.h[s.Hs[i]]
		}
		hs = append(hs, h)
	}
	a := r.ct[s.A].k
	switch s.Op {
	case "conv":
		return &Ct{k: cnn.Convolution(ev, l.sets.rlk, l.sets.rot, a, r.h[s.HA], as, hs)}
	case "fc1":
		return &Ct{k: cnn.FC1Layer(ev, l.sets.rlk, l.sets.rot, a, r.h[s.HA], as, hs, r.ct[s.B].k)}
	}
	e := at(l.enc, s.E)
	pt := e.k.EncodeMsgNew(e.msgC(s.V.complex(l.c.Slots()), s.U))
	h := hPoly(0, pt.Value)
	out := cnn.FC2Layer(ev, l.sets.rlk, l.sets.rot, a, r.ct[s.B].k, as[0], pt)
	if hPoly(0, pt.Value) != h {
		r.fail("operand", s, "the mask plaintext was changed")
	}
	return &Ct{k: out}
}

// ---- scenarios --------------------------------------------------------------------------------

var cnnRots = []int{14, 15, 128, 256, 384, 512, 640, 768, 896, -1, -2, -4, -8}

func init() {
	kindsOf["C12"] = []kindGen{{0.1, genCnnFull, true}, {0.06, genCnnMid, false}, {0.35, genCnnNet, false}, {1, genCnnProg, false}}
}

func (g *Gen) hoistedOf(o *MObj) int {
	if h := g.hoistOf(o); h != 0 {
		return h
	}
	if !g.try(Step{Op: "hoist", A: o.ID, E: g.r.N(3)}) {
		return 0
	}
	return g.hoistOf(o)
}

// layer draws a layer over what is there.
func (g *Gen) layer(op string) bool {
	r := g.r
	cs := g.m.cts()
	if len(cs) == 0 {
		return false
	}
	s := Step{Op: op, E: r.N(4), A: pick(r, cs).ID}
	// companions at one scale and level, as a model owner would have them
	var like []*MObj
	ref := pick(r, cs)
	for _, o := range cs {
		if math.Abs(o.Scale/ref.Scale-1) < 1e-6 && o.Level == ref.Level {
			like = append(like, o)
		}
	}
	n := map[string]int{"conv": 4, "fc1": r.Range(1, 8), "fc2": 1}[op]
	for i := 0; i < n; i++ {
		o := pick(r, like)
		h := 0
		if r.P(0.8) {
			if h = g.hoistOf(o); h == 0 && r.P(0.6) {
				h = g.hoistedOf(o)
			}
		}
		s.As = append(s.As, o.ID)
		s.Hs = append(s.Hs, h)
	}
	switch op {
	case "fc2":
		s.B = pick(r, cs).ID
		s.Hs = nil
		s.V = &Vec{K: pick(r, []string{"mask", "mask", "uni", "hot"}), Seed: r.Seed(), Mag: 1}
	default:
		s.HA = g.hoistedOf(g.m.obj[s.A])
		s.B = 0
		if op == "fc1" {
			s.B = pick(r, cs).ID
		}
	}
	return g.try(s)
}

func (g *Gen) cnnCfg(r *R, scheme string, maxLogN int) {
	c := genCfg(r, "ckks", cfgOpt{maxLogN: maxLogN, minLevels: 2, maxLevels: 6, minParty: 2, maxParty: 2})
	c.LogSlots = c.LogN - 1
	if r.P(0.7) {
		c.IDs = []string{"dataOwner", "modelOwner"}
	}
	g.sc.Cfg = c
}

func (g *Gen) smallVec() *Vec {
	return &Vec{K: pick(g.r, []string{"uni", "uni", "real", "hot", "mask", "edge", "zero"}), Seed: g.r.Seed(), Mag: pick(g.r, []float64{0.1, 0.3, 1})}
}

func (g *Gen) encs() {
	r := g.r
	for i, n := 0, r.Range(3, 7); i < n; i++ {
		id := g.m.c.IDs[1]
		if i == 0 || r.P(0.2) {
			id = g.m.c.IDs[0]
		}
		g.try(Step{Op: "enc", P: id, V: g.smallVec(), E: r.N(3)})
	}
}

// genCnnProg: layers in one process on small rings, with key histories, refusals and crashes.
func genCnnProg(prop string, seed uint64) *Scenario {
	r := NewR(mixs(strh(prop), seed, 4))
	sc := &Scenario{Prop: prop, Kind: "prog", Seed: seed}
	g := &Gen{r: r, sc: sc, ckks: true}
	g.cnnCfg(r, "ckks", 9)
	g.m = newModel(sc.Cfg)
	if r.P(0.35) {
		g.crash, g.kill = pick(r, []float64{0.04, 0.12, 0.3}), 0.3
	}
	var extra []int
	for _, k := range cnnRots {
		if k = g.m.norm(k); k != 0 && g.m.keys[crsKey(k)] == 0 && !(k < 0) && r.P(0.95) {
			// powers of two below zero may also go through several keys
			if k > g.m.c.Half()/2 && k != g.m.norm(14) && k != g.m.norm(15) && r.P(0.5) {
				continue
			}
			g.try(Step{Op: "addcrs", I: k})
			extra = append(extra, k)
		}
	}
	for _, id := range sc.Cfg.IDs {
		mask := 3
		if r.P(0.05) {
			mask = r.N(8)
		}
		g.try(Step{Op: "join", P: id, I: mask, E: r.N(3), G: float64(r.N(2))})
		for _, k := range extra {
			if r.P(0.98) {
				g.try(Step{Op: "genkey", S: "rot", P: id, I: k, E: r.N(3)})
			}
		}
	}
	g.encs()
	ops := []W{{"conv", 10}, {"fc1", 10}, {"fc2", 8}, {"sq", 5}, {"enc", 3}, {"hoist", 2}, {"newev", 2}, {"dec", 3}, {"drop", 2}, {"add", 1}, {"delkey", 1}, {"genkey", 1}, {"free", 1}, {"newenc", 1}, {"pdec", 1}}
	n := r.Range(4, 12)
	g.drawRedo()
	for made, t := 0, 0; made < n && t < 12*n; t++ {
		if r.P(g.redo) && g.redoOne() {
			made++
		}
		if g.cnnOp(wpick(r, ops)) {
			made++
		}
	}
	return sc
}

func (g *Gen) cnnOp(op string) bool {
	switch op {
	case "conv", "fc1", "fc2":
		return g.layer(op)
	case "enc":
		return g.try(Step{Op: "enc", P: g.party(), V: g.smallVec(), E: g.r.N(3)})
	case "sq":
		o := g.anyCt()
		if o == nil {
			return false
		}
		h := 0
		if g.r.P(0.7) {
			h = g.hoistedOf(o)
		}
		return g.try(Step{Op: "mulh", A: o.ID, B: o.ID, HA: h, HB: h, E: g.r.N(3)})
	}
	return g.one(op)
}

func (g *Gen) allKeys(rots []int) {
	for _, i := range rots {
		if i = g.m.norm(i); i != 0 {
			g.m.keys[crsKey(i)] = 1
		}
	}
	for _, id := range g.m.c.IDs {
		j := Step{Op: "join", P: id, I: 7}
		g.m.apply(&j, pred{}, true)
		for i := 1; i < g.m.c.Half(); i++ {
			if g.m.keys[crsKey(i)] != 0 {
				g.m.keys[rotKey(id, i)] = 1
			}
		}
	}
}

// genCnnNet: layers spread over the servers of a faulty network, small rings.
func genCnnNet(prop string, seed uint64) *Scenario {
	r := NewR(mixs(strh(prop), seed, 5))
	sc := &Scenario{Prop: prop, Kind: "net", Seed: seed}
	g := &Gen{r: r, sc: sc, ckks: true}
	g.cnnCfg(r, "ckks", 8)
	g.m = newModel(sc.Cfg)
	pl := netPlan(r)
	pl.Rots = cnnRots
	sc.Net = pl
	g.allKeys(pl.Rots)
	g.encs()
	ops := []W{{"conv", 10}, {"fc1", 10}, {"fc2", 8}, {"sq", 5}, {"enc", 3}, {"hoist", 2}, {"dec", 3}, {"pdec", 1}}
	n := r.Range(3, 8)
	for made, t := 0, 0; made < n && t < 12*n; t++ {
		if g.cnnOp(wpick(r, ops)) {
			made++
		}
	}
	return sc
}

// genCnnMid: single layers at ring degrees where all of their rotations differ.
func genCnnMid(prop string, seed uint64) *Scenario {
	r := NewR(mixs(strh(prop), seed, 6))
	sc := &Scenario{Prop: prop, Kind: "net", Seed: seed}
	g := &Gen{r: r, sc: sc, ckks: true}
	g.cnnCfg(r, "ckks", 9)
	c := sc.Cfg
	op := pick(r, []string{"conv", "fc1", "fc2"})
	c.LogN = map[string]int{"conv": 13, "fc1": 12, "fc2": 14}[op]
	c.LogSlots = c.LogN - 1
	lv := 1
	if op == "fc2" {
		lv = 2
	}
	c.BitsQ, c.BitsP = []int{57}, []int{57, 57}
	for i := 0; i < lv; i++ {
		c.BitsQ = append(c.BitsQ, 47)
	}
	c.Scale = 1 << 47
	c.NEv = 1
	g.m = newModel(c)
	pl := netPlan(r)
	pl.Servers = 1
	pl.Rots = map[string][]int{"conv": {14, 15}, "fc1": {384, 640, 768, 896}, "fc2": {-1, -2, -4, -8}}[op]
	sc.Net = pl
	g.allKeys(pl.Rots)
	g.encs()
	for t := 0; t < 12 && !g.layer(op); t++ {
	}
	return sc
}

// genCnnFull: the whole network at deployment size, one or two images.
func genCnnFull(prop string, seed uint64) *Scenario {
	r := NewR(mixs(strh(prop), seed, 7))
	sc := &Scenario{Prop: prop, Kind: "net", Seed: seed}
	c := genCfg(r, "ckks", cfgOpt{maxLogN: 9, minLevels: 2, maxLevels: 6, minParty: 2, maxParty: 2})
	c.IDs = []string{"dataOwner", "modelOwner"}
	c.LogN, c.LogSlots = 14, 13
	c.BitsQ, c.BitsP = []int{57, 47, 47, 47, 47, 47, 47}, []int{47, 47}
	c.Scale = 1 << 47
	c.NEv = 1
	c.Sk = []int{0, 0}
	sc.Cfg = c
	g := &Gen{r: r, sc: sc, ckks: true}
	g.m = newModel(c)
	pl := netPlan(r)
	pl.Servers = r.Range(1, 2)
	pl.Rots = []int{14, 15, 384, 640, 768, 896, 8191, 8190, 8188, 8184}
	// messages are large here: fewer faults
	pl.OpCrash, pl.Cancel, pl.Crash, pl.Rekey = pl.OpCrash*0.3, pl.Cancel*0.3, pl.Crash*0.2, 0
	sc.Net = pl
	g.allKeys(pl.Rots)
	plan := &CnnPlan{Image: map[int]uint64{}}
	if r.P(0.5) {
		plan.Model = r.Seed()
	}
	sc.Cnn = plan
	enc := func(id int, k string, i int, seed uint64) int {
		if !g.try(Step{Op: "enc", P: c.IDs[id], V: &Vec{K: k, I: i, Seed: seed}}) {
			return 0
		}
		return g.id
	}
	hoist := func(a int) int {
		if !g.try(Step{Op: "hoist", A: a}) {
			return 0
		}
		return g.id
	}
	var ker, kerH, fc1, fc1H []int
	for i := 0; i < 4; i++ {
		ker = append(ker, enc(1, "cnnKer", i, plan.Model))
		kerH = append(kerH, hoist(g.id))
	}
	for i := 0; i < 8; i++ {
		fc1 = append(fc1, enc(1, "cnnFC1", i, plan.Model))
		fc1H = append(fc1H, hoist(g.id))
	}
	fc2, b1, b2 := enc(1, "cnnFC2", 0, plan.Model), enc(1, "cnnB1", 0, plan.Model), enc(1, "cnnB2", 0, plan.Model)
	for n := 1 + r.N(2); n > 0; n-- {
		img := r.Seed()
		x := enc(0, "cnnImg", 0, img)
		sq := func(x int) int {
			h := hoist(x)
			g.try(Step{Op: "mulh", A: x, B: x, HA: h, HB: h})
			return g.id
		}
		step := func(s Step) int {
			g.try(s)
			return g.id
		}
		x = step(Step{Op: "conv", A: x, HA: hoist(x), As: ker, Hs: kerH})
		x = sq(x)
		x = step(Step{Op: "fc1", A: x, HA: hoist(x), As: fc1, Hs: fc1H, B: b1})
		x = sq(x)
		x = step(Step{Op: "fc2", A: x, B: fc2, As: []int{b2}, V: &Vec{K: "mask", Mag: 1}})
		plan.Image[x] = img
		step(Step{Op: "dec", A: x})
	}
	return sc
}
