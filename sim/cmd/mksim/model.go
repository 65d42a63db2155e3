package main

import (
	"math"
	"math/cmplx"
	"sort"
)

// Step is one recorded action of a run. Everything a step does is fixed by its fields.
type Step struct {
	ID int     `json:"id"`
	Op string  `json:"op"`
	A  int     `json:"a,omitempty"` // object operands
	B  int     `json:"b,omitempty"`
	HA int     `json:"ha,omitempty"` // hoisted operands
	HB int     `json:"hb,omitempty"`
	E  int     `json:"e,omitempty"` // which evaluator/encryptor/decryptor
	I  int     `json:"i,omitempty"`
	L  int     `json:"l,omitempty"`
	P  string  `json:"p,omitempty"` // party
	S  string  `json:"s,omitempty"` // variant
	F  float64 `json:"f,omitempty"`
	G  float64 `json:"g,omitempty"`
	V  *Vec    `json:"v,omitempty"`
	As []int   `json:"as,omitempty"` // further operands of a network layer
	Hs []int   `json:"hs,omitempty"` // their hoisted forms
	R  int     `json:"r,omitempty"`  // performed R more times
	U  bool    `json:"u,omitempty"`  // in storage that was used before: message buffers, plaintexts, receivers
	X  int64   `json:"x,omitempty"`  // >0: the process crashes after X-1 yield points and begins again
	Z  uint64  `json:"z,omitempty"`  // >0: one of its operands or keys arrives damaged, for this attempt
}

// Vec describes a message.
type Vec struct {
	K    string  `json:"k"`
	Seed uint64  `json:"s,omitempty"`
	Mag  float64 `json:"m,omitempty"`
	Len  int     `json:"n,omitempty"` // number of values given (0: all)
	T    uint64  `json:"t,omitempty"` // another seed for the values from some point on
	I    int     `json:"i,omitempty"` // which part of a neural network's weights
}

var vecKinds = []string{"uni", "uni", "uni", "zero", "hot", "const", "real", "imag", "edge", "ramp"}

func (v *Vec) complex(slots int) []complex128 {
	out := make([]complex128, slots)
	n := slots
	if v.Len > 0 && v.Len < slots {
		n = v.Len
	}
	if cnnVec(v, out) {
		return out
	}
	if v.T > 0 && n > 1 {
		a, b := *v, *v
		a.T, b.T, b.Seed = 0, 0, v.T
		j := int(1 + v.T%uint64(n-1))
		copy(out, a.complex(slots)[:j])
		copy(out[j:], b.complex(slots)[j:])
		return out
	}
	r := NewR(v.Seed)
	m := v.Mag
	for i := 0; i < n; i++ {
		switch v.K {
		case "mask":
			if i%128 == 0 {
				out[i] = complex(m, 0)
			}
		case "uni":
			out[i] = complex(m*r.Sym(), m*r.Sym())
		case "real":
			out[i] = complex(m*r.Sym(), 0)
		case "imag":
			out[i] = complex(0, m*r.Sym())
		case "const":
			out[i] = complex(m, 0)
		case "edge":
			out[i] = pick(r, []complex128{complex(m, 0), complex(-m, 0), complex(0, m), complex(0, -m), 0, complex(m, -m) / 2})
		case "ramp":
			out[i] = complex(m*float64(i+1)/float64(slots), -m*float64(i)/float64(slots))
		}
	}
	if v.K == "hot" {
		out[r.N(n)] = complex(m, -m) / 2
	}
	return out
}

func (v *Vec) ints(n int, t uint64) []int64 {
	out := make([]int64, n)
	k := n
	if v.Len > 0 && v.Len < n {
		k = v.Len
	}
	if v.T > 0 && k > 1 {
		a, b := *v, *v
		a.T, b.T, b.Seed = 0, 0, v.T
		j := int(1 + v.T%uint64(k-1))
		copy(out, a.ints(n, t)[:j])
		copy(out[j:], b.ints(n, t)[j:])
		return out
	}
	r := NewR(v.Seed)
	h := int64(t / 2)
	for i := 0; i < k; i++ {
		switch v.K {
		case "uni", "real":
			out[i] = int64(r.N(int(t))) - h
		case "imag":
			out[i] = int64(r.N(3)) - 1
		case "const":
			out[i] = h
		case "edge":
			out[i] = pick(r, []int64{0, 1, -1, h, -h, h - 1, 2})
		case "ramp":
			out[i] = (int64(i) % h)
		case "wrap":
			out[i] = int64(r.N(int(2*t-1))) - int64(t-1)
		}
	}
	if v.K == "hot" {
		out[r.N(k)] = -h
	}
	return out
}

// MObj is the model of one ciphertext or hoisted form.
type MObj struct {
	ID    int
	Kind  string // "ct" or "h"
	IDs   []string
	V     []complex128
	E     float64 // bound on the error of a slot
	Level int
	Scale float64
	M     []int64 // integers mod t, centred
	W     float64 // standard deviation of the relative noise (integers)
	Of    int     // hoisted forms: which ciphertext, and which version of it
	Ver   int
	Part  bool    // partially decrypted
	NTT   bool    // in the NTT domain: only decryption, copies and level drops take those
	C     float64 // the part of W that is not white
	Dep   int
}

func (o *MObj) copy() *MObj {
	c := *o
	c.V = append([]complex128(nil), o.V...)
	c.M = append([]int64(nil), o.M...)
	c.IDs = append([]string(nil), o.IDs...)
	return &c
}

func (o *MObj) mag() float64 {
	m := 0.0
	for _, x := range o.V {
		if a := cmplx.Abs(x); a > m {
			m = a
		}
	}
	return m
}

// Model is the executable reference: plaintext values, parties, levels, scales, noise bounds
// and which keys are where. It never touches the code under test.
type Model struct {
	c    *Cfg
	md   *moduli
	obj  map[int]*MObj
	keys map[string]int // "rlk/id", "rot/id/k", "cjk/id", "sk/id", "pk/id" -> version in the sets; "crs/k"
	vers map[string]int // newest version generated
	minv map[string]int // oldest version that fits the current secret key
	vs   float64        // worst variance of a secret coefficient
}

const kTail = 14.0 // bound = kTail standard deviations

func newModel(c *Cfg) *Model {
	m := &Model{c: c, md: c.mods(), obj: map[int]*MObj{}, keys: map[string]int{}, vers: map[string]int{}, minv: map[string]int{}}
	for _, k := range c.Sk {
		v := 0.5
		if k == 1 {
			v = c.Sigma * c.Sigma
		}
		if p, ok := distP[k]; ok {
			v = 1 - p
		}
		if hw := sparseHW(c, k); hw > 0 {
			v = float64(hw) / float64(c.N())
		}
		if v > m.vs {
			m.vs = v
		}
	}
	for i := 0; i < c.LogN-1; i++ {
		m.keys[crsKey(1<<uint(i))] = 1
	}
	return m
}

func (m *Model) cts() []*MObj {
	var out []*MObj
	for _, o := range m.obj {
		if o.Kind == "ct" {
			out = append(out, o)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	return out
}

func (m *Model) hoists() []*MObj {
	var out []*MObj
	for _, o := range m.obj {
		if o.Kind == "h" {
			out = append(out, o)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	return out
}

func (m *Model) ct(id int) *MObj {
	o := m.obj[id]
	if o == nil || o.Kind != "ct" {
		return nil
	}
	return o
}

// hoistFor returns the hoisted form h if it is a valid one of o.
func (m *Model) hoistFor(h int, o *MObj) *MObj {
	x := m.obj[h]
	if x == nil || x.Kind != "h" || x.Of != o.ID || x.Ver != o.Ver || x.Level < o.Level {
		return nil
	}
	return x
}

// ---- noise -----------------------------------------------------------------------------

// slotErr converts a coefficient deviation into a bound on slot errors at a scale.
func (m *Model) slotErr(dev, scale float64) float64 {
	return kTail * dev * math.Sqrt(float64(m.c.N())) / scale
}

func (m *Model) freshDev() float64 {
	n := float64(m.c.N())
	return math.Sqrt(m.c.Sigma*m.c.Sigma*(1+n*(0.5+m.vs)) + 0.1)
}

// modDownDev is the rounding noise of dividing by the special modulus, for k components.
func (m *Model) roundDev(k int) float64 {
	n := float64(m.c.N())
	return math.Sqrt((1 + n*m.vs*float64(k)) / 3)
}

func (m *Model) beta(level int) float64 {
	a := m.c.alpha()
	return float64((level + a) / a)
}

// rotDev is the noise of one automorphism with key switching, k parties.
func (m *Model) rotDev(level, k int) float64 {
	n := float64(m.c.N())
	ks := m.md.dig * m.c.Sigma * math.Sqrt(n*m.beta(level)*float64(k)/12) / m.md.p
	return math.Sqrt(ks*ks + m.roundDev(k)*m.roundDev(k))
}

// mulDev is the noise of multiplying with relinearisation. d is the digit modulus.
func (m *Model) mulDev(level, k0, k1 int, d, b float64) float64 {
	n := float64(m.c.N())
	sk := math.Sqrt(1 + n*m.vs*float64(max(k0, k1)))
	k := float64(k0 * k1)
	// product of digits with keys, then digits again
	// The digits are not centred: their means alone make (d/2)^2 * (1+X+X^2+...)^2, whose
	// coefficients grow with n where those of random digits grow with its square root.
	nested := m.c.Sigma * d * d / m.md.p * math.Max(n*b/12, math.Sqrt(b*n)*n*0.15)
	lin := d * m.c.Sigma * math.Sqrt(n*b*float64(k0+k1)/12) / m.md.p
	// rounding of the inner product multiplied by secrets
	inner := math.Sqrt(n*m.vs*float64(k0)/3) * math.Sqrt(1+n*m.vs*float64(k1))
	tot := nested*sk*math.Sqrt(k+1) + lin*sk + inner + m.roundDev(k0+k1)*2
	return tot
}

// Divisions by the special modulus round down and digits are not centred: both have a mean, and
// a polynomial whose coefficients share a mean is N/pi times that mean in the slots next to 1.

// rotCoh is the smooth part of an automorphism's noise in a slot, before dividing by the scale.
func (m *Model) rotCoh(k int) float64 {
	n := float64(m.c.N())
	return n / math.Pi * (1 + 4*math.Sqrt(n*m.vs)*float64(k)) / 2
}

// mulCoh is the smooth part of a multiplication's noise.
func (m *Model) mulCoh(level, k0, k1 int, d, b float64) float64 {
	n := float64(m.c.N())
	s := 1 + 4*math.Sqrt(n*m.vs)
	dig := d * n / math.Pi
	k := float64(k0*k1 + k0 + k1)
	nested := dig * dig / m.md.p * 4 * m.c.Sigma * math.Sqrt(n*b) * s * k
	return nested + n/math.Pi*s*s*k
}

func (m *Model) fits(o *MObj) bool {
	if o.Scale <= 0 || math.IsInf(o.Scale, 0) || math.IsNaN(o.Scale) {
		return false
	}
	mg := (o.mag()*1.5 + o.E) * 4
	if mg == 0 {
		mg = 1
	}
	return math.Log2(mg)+math.Log2(o.Scale) < m.md.logQ[o.Level]-0.5
}

// rescale is the documented rule: divide by the top modulus as long as the scale does not go
// below half of the wanted one and a level is left.
func (m *Model) rescale(level int, scale, thr float64) (int, float64) {
	for level > 0 && scale/float64(m.md.Q[level]) >= thr/2 {
		scale /= float64(m.md.Q[level])
		level--
	}
	return level, scale
}

func (m *Model) floatErr(o *MObj) float64 { return o.mag() * math.Exp2(-40) }

// ---- key bookkeeping -------------------------------------------------------------------

func crsKey(k int) string { return "crs/" + itoa(k) }
func rotKey(id string, k int) string {
	return "rot/" + id + "/" + itoa(k)
}

func itoa(k int) string {
	if k < 0 {
		return "-" + itoa(-k)
	}
	if k < 10 {
		return string(rune('0' + k))
	}
	return itoa(k/10) + itoa(k%10)
}

func (m *Model) norm(k int) int {
	h := m.c.Half()
	k %= h
	if k < 0 {
		k += h
	}
	return k
}

// rotNeeds tells what a rotation by k needs: "no", "yes" (all needed keys present), "miss"
// (none of the ways can work) or "mixed" (the direct keys are missing although a reference
// string for the index exists, but powers of two are there).
func (m *Model) rotNeeds(ids []string, k int) (string, int) {
	k = m.norm(k)
	if k == 0 {
		return "no", 0
	}
	direct, pows := true, true
	n := 0
	for _, id := range ids {
		if m.keys[rotKey(id, k)] == 0 {
			direct = false
		}
	}
	for b := 1; b < m.c.Half(); b *= 2 {
		if k&b != 0 {
			n++
			for _, id := range ids {
				if m.keys[rotKey(id, b)] == 0 {
					pows = false
				}
			}
		}
	}
	if m.keys[crsKey(k)] != 0 {
		switch {
		case direct:
			return "yes", 1
		case pows:
			return "mixed", n
		}
		return "miss", 0
	}
	if pows {
		return "yes", n
	}
	return "miss", 0
}

func (m *Model) haveAll(kind string, ids []string) bool {
	for _, id := range ids {
		if m.keys[kind+"/"+id] == 0 {
			return false
		}
	}
	return true
}

// pred is what the model expects of a step.
type pred struct {
	out    *MObj // new object (or nil)
	target int   // object changed in place (0: none); out is then its new state
	expect string
	err    bool // the call must report an error value
}

// predict works out a step without changing the model. ok=false: the step does not apply here.
func (m *Model) predict(s *Step) (p pred, ok bool) {
	p.expect = "ok"
	for _, i := range []int{s.A, s.B} {
		if o := m.obj[i]; i != 0 && o != nil && o.NTT {
			switch s.Op {
			case "dec", "pdec", "pdeci", "copy", "drop", "dropi", "free":
			default:
				return p, false
			}
		}
	}
	if m.c.Scheme == "bfv" {
		return m.predictB(s)
	}
	if s.A != 0 && m.obj[s.A] == nil || s.B != 0 && m.obj[s.B] == nil {
		return p, false
	}
	switch s.Op {
	case "conv", "fc1", "fc2":
		return m.predictLayer(s)
	case "enc":
		if m.vers["pk/"+s.P] == 0 {
			return p, false
		}
		if m.keys["pk/"+s.P] == 0 {
			p.expect = "refuse"
		}
		o := &MObj{ID: s.ID, Kind: "ct", IDs: []string{s.P}, NTT: s.S == "ptx" && int(s.G)&2 != 0}
		o.V = s.V.complex(m.c.Slots())
		o.Level, o.Scale = m.c.Max(), m.c.Scale
		switch s.S {
		case "lvl", "over": // into an existing ciphertext of a level
			o.Level = s.L
		case "ptx": // prepared plaintext of level L and scale F into ciphertext of level I
			o.Level, o.Scale = min(s.L, s.I), s.F
		}
		o.E = m.slotErr(m.freshDev(), o.Scale) + m.floatErr(o)
		p.out = o
		return p, m.fits(o) && encodable(o.V, o.Scale)
	case "copy":
		o := m.ct(s.A).copy()
		o.ID, o.Ver = s.ID, 0
		if s.S == "pad" {
			o.IDs = unionIDs(o.IDs, []string{s.P})
		}
		p.out = o
		return p, true
	case "add", "sub":
		a, b := m.ct(s.A), m.ct(s.B)
		if a == nil || b == nil {
			return p, false
		}
		o := &MObj{ID: s.ID, Kind: "ct", IDs: unionIDs(a.IDs, b.IDs), Level: min(a.Level, b.Level), Scale: math.Max(a.Scale, b.Scale)}
		al := func(x *MObj) (ratio, err float64) {
			r := math.Floor(o.Scale / x.Scale)
			ratio = x.Scale * r / o.Scale
			return ratio, 1.05 * x.mag() * math.Abs(1-ratio)
		}
		ra, ea := al(a)
		rb, eb := al(b)
		if math.Abs(1-ra) > 1e-3 || math.Abs(1-rb) > 1e-3 {
			return p, false
		}
		o.V = make([]complex128, len(a.V))
		sg := complex(1, 0)
		if s.Op == "sub" {
			sg = -1
		}
		for i := range o.V {
			o.V[i] = a.V[i] + sg*b.V[i]
		}
		o.E = a.E + b.E + ea + eb + (a.mag()+b.mag())*math.Exp2(-40)
		p.out = o
		return p, m.fits(o)
	case "mul", "mulh", "mulk":
		a, b := m.ct(s.A), m.ct(s.B)
		if a == nil || b == nil {
			return p, false
		}
		if s.Op == "mulh" {
			if s.HA != 0 && m.hoistFor(s.HA, a) == nil || s.HB != 0 && m.hoistFor(s.HB, b) == nil {
				return p, false
			}
		}
		o := &MObj{ID: s.ID, Kind: "ct", IDs: unionIDs(a.IDs, b.IDs), Level: min(a.Level, b.Level), Scale: a.Scale * b.Scale}
		o.V = make([]complex128, len(a.V))
		for i := range o.V {
			o.V[i] = a.V[i] * b.V[i]
		}
		lv := o.Level
		o.E = a.mag()*b.E + b.mag()*a.E + a.E*b.E
		o.E += m.slotErr(m.mulDev(lv, len(a.IDs), len(b.IDs), m.md.dig, m.beta(lv)), o.Scale)
		o.E += m.mulCoh(lv, len(a.IDs), len(b.IDs), m.md.dig, m.beta(lv)) / o.Scale
		o.E += m.floatErr(o)
		if !m.fits(o) {
			return p, false
		}
		if s.Op != "mulk" {
			m.rescaled(o, m.c.Scale)
		}
		p.out = o
		if !m.haveAll("rlk", o.IDs) {
			p.expect = "refuse"
		}
		return p, m.fits(o)
	case "mulc", "mulci":
		a := m.ct(s.A)
		if a == nil {
			return p, false
		}
		o := a.copy()
		if s.Op == "mulc" {
			o.ID, o.Ver = s.ID, 0
			o.Level = min(a.Level, s.L)
		} else {
			p.target = a.ID
			o.Ver++
		}
		re, im, frac := constOf(s.S, s.F, s.G)
		c := complex(re, im)
		for i := range o.V {
			o.V[i] *= c
		}
		o.E = a.E*(math.Abs(re)+math.Abs(im)) + m.floatErr(o)
		if frac {
			q := float64(m.md.Q[o.Level])
			o.Scale *= q
			o.E += a.mag() * 1.5 / q
		}
		p.out = o
		return p, m.fits(o)
	case "mulp":
		a := m.ct(s.A)
		if a == nil {
			return p, false
		}
		lv, sc := m.c.Max(), m.c.Scale
		if s.S == "ptx" {
			lv, sc = s.L, s.F
		}
		if lv < a.Level {
			return p, false
		}
		v := s.V.complex(m.c.Slots())
		if !encodable(v, sc) {
			return p, false
		}
		o := a.copy()
		o.ID, o.Ver = s.ID, 0
		mg := 0.0
		for i := range o.V {
			o.V[i] *= v[i]
			mg = math.Max(mg, cmplx.Abs(v[i]))
		}
		o.Scale = a.Scale * sc
		ep := m.slotErr(0.3, sc) + mg*math.Exp2(-40)
		o.E = a.mag()*ep + mg*a.E + ep*a.E + m.floatErr(o)
		if !m.fits(o) {
			return p, false
		}
		m.rescaled(o, m.c.Scale)
		p.out = o
		return p, m.fits(o)
	case "resc", "resci", "resco": // new, in place, into a given receiver
		a := m.ct(s.A)
		if a == nil {
			return p, false
		}
		if s.Op == "resco" && (a.Level+s.I < 0 || a.Level+s.I > m.c.Max()) {
			return p, false
		}
		if s.F <= 0 || a.Level == 0 || s.S == "zero" || s.Op == "resco" && s.I != 0 {
			p.err = true
			return p, true
		}
		o := a.copy()
		m.rescaled(o, s.F)
		if s.Op == "resci" {
			p.target = a.ID
			if o.Level != a.Level {
				o.Ver++
			}
		} else {
			o.ID, o.Ver = s.ID, 0
		}
		p.out = o
		return p, m.fits(o)
	case "drop", "dropi":
		a := m.ct(s.A)
		if a == nil || s.I > a.Level || s.I < 0 {
			return p, false
		}
		o := a.copy()
		o.Level -= s.I
		if s.Op == "dropi" {
			p.target = a.ID
		} else {
			o.ID, o.Ver = s.ID, 0
		}
		p.out = o
		return p, m.fits(o)
	case "rot", "roth":
		a := m.ct(s.A)
		if a == nil {
			return p, false
		}
		o := a.copy()
		o.ID, o.Ver = s.ID, 0
		k := m.norm(s.I)
		for i := range o.V {
			o.V[i] = a.V[(i+k)%len(a.V)]
		}
		need, n := m.rotNeeds(a.IDs, s.I)
		if s.Op == "roth" {
			if m.hoistFor(s.HA, a) == nil {
				return p, false
			}
			if need != "no" {
				n = 1
				if m.keys[crsKey(k)] == 0 {
					need = "mixed" // hoisted rotation is documented for direct keys only
				}
			}
		}
		switch need {
		case "miss":
			if len(a.IDs) > 0 {
				p.expect = "refuse"
			} else {
				p.expect = "any"
			}
		case "mixed":
			p.expect = "any"
		}
		o.E += m.slotErr(m.rotDev(a.Level, len(a.IDs)), a.Scale) * float64(n)
		o.E += m.rotCoh(len(a.IDs)) / a.Scale * float64(n)
		p.out = o
		return p, m.fits(o)
	case "conj":
		a := m.ct(s.A)
		if a == nil {
			return p, false
		}
		o := a.copy()
		o.ID, o.Ver = s.ID, 0
		for i := range o.V {
			o.V[i] = cmplx.Conj(o.V[i])
		}
		if !m.haveAll("cjk", a.IDs) {
			p.expect = "refuse"
		}
		o.E += m.slotErr(m.rotDev(a.Level, len(a.IDs)), a.Scale)
		o.E += m.rotCoh(len(a.IDs)) / a.Scale
		p.out = o
		return p, m.fits(o)
	case "hoist":
		a := m.ct(s.A)
		if a == nil {
			return p, false
		}
		p.out = &MObj{ID: s.ID, Kind: "h", IDs: a.IDs, Level: a.Level, Of: a.ID, Ver: a.Ver}
		return p, true
	}
	return m.predictCommon(s)
}

// predictCommon covers the steps both schemes share.
func (m *Model) predictCommon(s *Step) (p pred, ok bool) {
	p.expect = "ok"
	switch s.Op {
	case "dec": // S: "", "extra", "miss" (P is left out), "raw" (into a plaintext of level L)
		a := m.ct(s.A)
		if a == nil {
			return p, false
		}
		if !m.haveAll("sk", a.IDs) {
			p.expect = "refuse"
		}
		if s.S == "miss" {
			if !hasID(a.IDs, s.P) {
				return p, false
			}
			p.expect = "refuse"
		}
		if s.S == "raw" && m.c.Scheme == "ckks" {
			o := a.copy()
			o.Level = min(o.Level, s.L)
			return p, m.fits(o)
		}
		return p, true
	case "pdec", "pdeci":
		a := m.ct(s.A)
		if a == nil || !hasID(a.IDs, s.P) || m.vers["sk/"+s.P] == 0 {
			return p, false
		}
		o := a.copy()
		o.IDs = nil
		for _, id := range a.IDs {
			if id != s.P {
				o.IDs = append(o.IDs, id)
			}
		}
		o.Part = true
		o.Ver++
		if s.Op == "pdeci" {
			p.target = a.ID
		} else {
			o.ID, o.Ver = s.ID, 0
		}
		p.out = o
		return p, true
	case "synth": // an encryption under a transparent public key, to see its randomness
		return p, true
	case "free":
		return p, m.obj[s.A] != nil
	case "newev", "newenc", "newdec", "newkg":
		return p, true
	case "addcrs":
		return p, true
	case "join": // a party creates (or replaces) its keys; I: 1 rlk, 2 power-of-two rotations, 4 conjugation
		return p, true
	case "genkey": // S kind, P party, I index: generate a further key and upload it
		if s.S == "rot" && m.norm(s.I) != 0 && m.keys[crsKey(m.norm(s.I))] == 0 {
			p.expect = "refuse"
		}
		return p, m.vers["sk/"+s.P] != 0 && !(s.S == "rot" && m.norm(s.I) == 0)
	case "addkey": // upload of version L: a duplicate, a delayed or a reordered message
		k := s.keyName(m)
		return p, s.L >= 1 && s.L <= m.vers[k] && s.L >= m.minv[k]
	case "delkey":
		return p, true
	case "kcopy":
		return p, (s.S == "sk" || s.S == "pk") && m.keys[s.keyName(m)] != 0
	case "look":
		if m.keys[s.keyName(m)] == 0 {
			p.expect = "refuse"
		}
		return p, true
	}
	return p, false
}

func (s *Step) keyName(m *Model) string {
	if s.S == "rot" {
		return rotKey(s.P, m.norm(s.I))
	}
	return s.S + "/" + s.P
}

func (m *Model) rescaled(o *MObj, thr float64) {
	l0 := o.Level
	o.Level, o.Scale = m.rescale(o.Level, o.Scale, thr)
	if o.Level != l0 {
		o.E += m.slotErr(m.roundDev(len(o.IDs))*1.2, o.Scale)
	}
}

// apply commits a step's effect on the model; done=false when the call was refused or crashed.
func (m *Model) apply(s *Step, p pred, done bool) {
	switch {
	case p.out != nil && done:
		if p.target != 0 {
			m.obj[p.target] = p.out
		} else {
			m.obj[p.out.ID] = p.out
		}
	case p.target != 0 && !done && s.X > 0:
		delete(m.obj, p.target) // an interrupted in-place operation leaves its target undefined
	}
	if !done {
		return
	}
	switch s.Op {
	case "free":
		delete(m.obj, s.A)
	case "addcrs":
		m.keys[crsKey(m.norm(s.I))]++
	case "genkey":
		k := s.keyName(m)
		m.vers[k]++
		m.keys[k] = m.vers[k]
	case "join":
		for id, o := range m.obj {
			if hasID(o.IDs, s.P) {
				delete(m.obj, id)
			}
		}
		old := m.vers["sk/"+s.P] != 0
		up := func(k string) {
			m.vers[k]++
			m.minv[k] = m.vers[k]
			m.keys[k] = m.vers[k]
		}
		up("sk/" + s.P)
		up("pk/" + s.P)
		if old {
			// keys for the previous secret are withdrawn
			for _, k := range sortedKeys(m.vers) {
				for _, kind := range []string{"rlk/", "cjk/"} {
					if k == kind+s.P {
						delete(m.keys, k)
						m.minv[k] = m.vers[k] + 1
					}
				}
				if kind, id, _ := safeParts(k); kind == "rot" && id == s.P {
					delete(m.keys, k)
					m.minv[k] = m.vers[k] + 1
				}
			}
		}
		if s.I&1 != 0 {
			up("rlk/" + s.P)
		}
		if s.I&2 != 0 {
			for i := 1; i < m.c.Half(); i *= 2 {
				up(rotKey(s.P, i))
			}
		}
		if s.I&4 != 0 {
			up("cjk/" + s.P)
		}
	case "addkey":
		m.keys[s.keyName(m)] = s.L
	case "delkey":
		delete(m.keys, s.keyName(m))
	}
}

// constOf gives the value of a constant and whether it has a fractional part.
func constOf(kind string, f, g float64) (re, im float64, frac bool) {
	isInt := func(x float64) bool { return x == math.Trunc(x) }
	switch kind {
	case "int":
		return float64(int(f)), 0, false
	case "int64":
		return float64(int64(f)), 0, false
	case "uint64":
		return float64(uint64(f)), 0, false
	case "float64":
		return f, 0, !isInt(f)
	}
	return f, g, !isInt(f) || !isInt(g)
}

func constVal(kind string, f, g float64) interface{} {
	switch kind {
	case "int":
		return int(f)
	case "int64":
		return int64(f)
	case "uint64":
		return uint64(f)
	case "float64":
		return f
	}
	return complex(f, g)
}

// ---- integers ----------------------------------------------------------------------------

func (m *Model) modT(x int64) int64 {
	t := int64(m.md.T)
	x %= t
	if x < 0 {
		x += t
	}
	if x > t/2 {
		x -= t
	}
	return x
}

func (m *Model) fitsB(o *MObj) bool { return kTail*o.W < 0.25 }

func (m *Model) predictB(s *Step) (p pred, ok bool) {
	p.expect = "ok"
	if s.A != 0 && m.obj[s.A] == nil || s.B != 0 && m.obj[s.B] == nil {
		return p, false
	}
	t := float64(m.md.T)
	n := float64(m.c.N())
	q := math.Exp2(m.md.logQ[m.c.Max()])
	switch s.Op {
	case "enc":
		if m.vers["pk/"+s.P] == 0 {
			return p, false
		}
		if m.keys["pk/"+s.P] == 0 {
			p.expect = "refuse"
		}
		o := &MObj{ID: s.ID, Kind: "ct", IDs: []string{s.P}, Level: m.c.Max(), NTT: s.S != "" && int(s.G)&2 != 0}
		o.M = s.V.ints(m.c.N(), m.md.T)
		for i := range o.M {
			o.M[i] = m.modT(o.M[i])
		}
		o.W = (m.freshDev() + 0.5) * t / q
		p.out = o
		return p, m.fitsB(o)
	case "copy":
		o := m.ct(s.A).copy()
		o.ID, o.Ver = s.ID, 0
		if s.S == "pad" {
			o.IDs = unionIDs(o.IDs, []string{s.P})
		}
		p.out = o
		return p, true
	case "add", "sub", "mul", "mulk":
		a, b := m.ct(s.A), m.ct(s.B)
		if a == nil || b == nil {
			return p, false
		}
		o := &MObj{ID: s.ID, Kind: "ct", IDs: unionIDs(a.IDs, b.IDs), Level: a.Level, M: make([]int64, len(a.M))}
		for i := range o.M {
			switch s.Op {
			case "add":
				o.M[i] = m.modT(a.M[i] + b.M[i])
			case "sub":
				o.M[i] = m.modT(a.M[i] - b.M[i])
			default:
				o.M[i] = m.modT(a.M[i] * b.M[i])
			}
		}
		o.W, o.C = a.W+b.W, a.C+b.C
		o.Dep = max(a.Dep, b.Dep)
		if s.Op == "mul" || s.Op == "mulk" {
			o.Dep++
			if !m.haveAll("rlk", o.IDs) {
				p.expect = "refuse"
			}
			k0, k1 := len(a.IDs), len(b.IDs)
			i0 := t * math.Sqrt(0.25+(1+n*m.vs*float64(k0))/3)
			i1 := t * math.Sqrt(0.25+(1+n*m.vs*float64(k1))/3)
			// white noise multiplies like a random walk; the part that comes from floors, from
			// products and from their secrets is concentrated in few directions and adds up
			co := math.Max(1, 0.7*math.Sqrt(n))
			w := 3 * math.Sqrt(n) * (a.W*i1 + b.W*i0 + a.W*b.W)
			w += 3 * math.Sqrt(n) * co * (a.C*i1 + b.C*i0)
			// rescaling one operand to the auxiliary modulus, quantising the result
			qm := math.Exp2(logProd(m.md.QMul))
			w += co * t / qm * math.Sqrt(n*(1+n*m.vs*float64(k1))/3) * i0
			w += t / q * math.Sqrt((1+n*m.vs*float64(k0+k1))/3) * math.Sqrt(1+n*m.vs)
			d := math.Max(m.md.dig, m.md.digMul)
			w += t / q * m.mulDev(m.c.Max(), k0, k1, d, 2*m.beta(m.c.Max())) * 2
			o.W, o.C = w, w
		}
		p.out = o
		return p, m.fitsB(o)
	case "rot", "conj":
		a := m.ct(s.A)
		if a == nil {
			return p, false
		}
		o := a.copy()
		o.ID, o.Ver = s.ID, 0
		h := len(a.M) / 2
		nk := 1
		if s.Op == "conj" {
			for i := range o.M {
				o.M[i] = a.M[(i+h)%len(a.M)]
			}
			if !m.haveAll("cjk", a.IDs) {
				p.expect = "refuse"
			}
		} else {
			k := m.norm(s.I)
			for i := 0; i < h; i++ {
				o.M[i] = a.M[(i+k)%h]
				o.M[h+i] = a.M[h+(i+k)%h]
			}
			need, c := m.rotNeeds(a.IDs, s.I)
			nk = c
			switch need {
			case "miss":
				p.expect = "refuse"
				if len(a.IDs) == 0 {
					p.expect = "any"
				}
			case "mixed":
				p.expect = "any"
			}
		}
		o.W += t / q * m.rotDev(m.c.Max(), len(a.IDs)) * float64(nk)
		o.C += t / q * m.roundDev(len(a.IDs)) * float64(nk)
		p.out = o
		return p, m.fitsB(o)
	}
	return m.predictCommon(s)
}

func logProd(qs []uint64) float64 {
	s := 0.0
	for _, q := range qs {
		s += math.Log2(float64(q))
	}
	return s
}

func sortedKeys[V any](m map[string]V) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// encodable: the encoder of the library underneath (lattigo, not part of this repository) gets a
// coefficient of exactly 2^64 wrong; encodings stay below.
func encodable(v []complex128, scale float64) bool {
	for _, x := range v {
		if cmplx.Abs(x)*scale >= 1<<63 {
			return false
		}
	}
	return true
}
