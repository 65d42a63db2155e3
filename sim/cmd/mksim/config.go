package main

import (
	"fmt"
	"math"
	"strconv"

	"github.com/ldsec/lattigo/v2/bfv"
	"github.com/ldsec/lattigo/v2/ckks"
	"github.com/ldsec/lattigo/v2/ring"
	"github.com/ldsec/lattigo/v2/rlwe"
)

// Cfg is one deployment: a parameter set and the parties.
type Cfg struct {
	Scheme   string   `json:"scheme"`
	LogN     int      `json:"logN"`
	LogSlots int      `json:"logSlots,omitempty"`
	BitsQ    []int    `json:"bitsQ"`
	BitsP    []int    `json:"bitsP"`
	BitsM    []int    `json:"bitsM,omitempty"` // auxiliary moduli, like BitsQ if absent
	BitsT    int      `json:"bitsT,omitempty"`
	Scale    float64  `json:"scale,omitempty"`
	Sigma    float64  `json:"sigma"`
	IDs      []string `json:"ids"`
	Sk       []int    `json:"sk"` // kind of secret per party: 0 default, 1 gaussian, 2 sparse, 3 other ternary, 4 sparse pair, 5.. see distP and sparseHW
	Seed     uint64   `json:"seed"`
	Prof     string   `json:"profile"`
	NEv      int      `json:"evaluators"`
	Srv      int      `json:"servers,omitempty"`
	Twin     float64  `json:"twin,omitempty"` // share of the steps that are compared with fresh objects; 0: all
}

func (c *Cfg) N() int     { return 1 << c.LogN }
func (c *Cfg) Half() int  { return 1 << (c.LogN - 1) }
func (c *Cfg) Slots() int { return 1 << c.LogSlots }
func (c *Cfg) Max() int   { return len(c.BitsQ) - 1 }
func (c *Cfg) alpha() int { return len(c.BitsP) / 2 }
func (c *Cfg) beta() int  { return (len(c.BitsQ) + c.alpha() - 1) / c.alpha() }

// moduli are the cached immutable tables of one parameter set.
type moduli struct {
	Q, P, QMul []uint64
	T          uint64
	ckksP      ckks.Parameters
	bfvP       bfv.Parameters
	ringQ      *ring.Ring
	ringP      *ring.Ring
	logQ       []float64 // logQ[l]: log2 of the product of the first l+1 moduli
	dig        float64   // largest digit modulus
	digMul     float64
	p          float64 // product of the special moduli
	pLog       float64
	sumD2      float64
}

var modCache = map[string]*moduli{}

func (c *Cfg) key() string {
	return fmt.Sprint(c.Scheme, c.LogN, c.LogSlots, c.BitsQ, c.BitsM, c.BitsP, c.BitsT, c.Scale, c.Sigma)
}

func primes(used map[uint64]bool, bits, logN, n int) []uint64 {
	var out []uint64
	k := len(used) + n
	for _, q := range ring.GenerateNTTPrimes(bits, 2<<uint(logN), k) {
		if !used[q] && len(out) < n {
			used[q] = true
			out = append(out, q)
		}
	}
	if len(out) < n {
		panic("not enough primes")
	}
	return out
}

func (c *Cfg) mods() *moduli {
	k := c.key()
	if m := modCache[k]; m != nil {
		return m
	}
	if len(modCache) > 60 {
		modCache = map[string]*moduli{}
	}
	m := &moduli{}
	used := map[uint64]bool{}
	if c.Scheme == "bfv" {
		m.T = primes(used, c.BitsT, c.LogN, 1)[0]
	}
	for _, b := range c.BitsQ {
		m.Q = append(m.Q, primes(used, b, c.LogN, 1)...)
	}
	for _, b := range c.BitsP {
		m.P = append(m.P, primes(used, b, c.LogN, 1)...)
	}
	if c.Scheme == "bfv" {
		// the auxiliary modulus must not be smaller than Q
		bits := c.BitsM
		if bits == nil {
			bits = c.BitsQ
		}
		for _, b := range bits {
			m.QMul = append(m.QMul, primes(used, b, c.LogN, 1)...)
		}
	}
	rp, err := rlwe.NewParameters(c.LogN, m.Q, m.P, c.Sigma)
	if err != nil {
		panic(err)
	}
	m.ringQ, m.ringP = rp.RingQ(), rp.RingP()
	if c.Scheme == "bfv" {
		m.bfvP, err = bfv.NewParameters(rp, m.T)
	} else {
		m.ckksP, err = ckks.NewParameters(rp, c.LogSlots, c.Scale)
	}
	if err != nil {
		panic(err)
	}
	s := 0.0
	for _, q := range m.Q {
		s += math.Log2(float64(q))
		m.logQ = append(m.logQ, s)
	}
	dig := func(qs []uint64) float64 {
		best := 0.0
		for i := 0; i < len(qs); i += c.alpha() {
			d := 1.0
			for j := i; j < i+c.alpha() && j < len(qs); j++ {
				d *= float64(qs[j])
			}
			if d > best {
				best = d
			}
		}
		return best
	}
	m.dig = dig(m.Q)
	if c.Scheme == "bfv" {
		m.digMul = dig(m.QMul)
	}
	m.p = 1
	for _, p := range m.P {
		m.p *= float64(p)
	}
	m.pLog = math.Log2(m.p)
	modCache[k] = m
	return m
}

var namePool = []string{"alice", "bob", "carol", "1", "2", "a", "user-17", "", "Ω", "dataOwner", "modelOwner", "00", "x y", "p\x00q", "a very long party name that goes on and on", "zz", "-1",
	"Alice", "alice ", "ALICE", " bob", "Bob", "0x1", "01", "1.0", "1\n", "é", "e\u0301", "a/b", "a/", "0 ", "00 "}

// lookalikes are names that are different although someone might take them for the same.
var lookalikes = [][]string{{"alice", "Alice", "ALICE", "alice ", " alice"}, {"1", "01", "1.0", "1\n", " 1", "١"}, {"é", "e\u0301", "e"}, {"a", "a/", "a/b", "a/b/c"}, {"", " ", "\x00", "\t"}, {"00", "0 ", " 0", "-0", "+0"}, {"user-1", "user-10", "user-11", "user"},
	// sets of names that read the same when their members are joined
	{"a", "b", "ab", "a,b", "a b"}, {"a", "b", "a-b", "a_b", "a:b", "a|b", "a;b", "a+b"}, {"a", "bc", "ab", "c", "abc"}, {"1", "2", "12", "1,2", "21"}, {"x", "xx", "xxx", "xxxx"},
	// equal under common short hashes (FNV-1 and -1a, CRC-32, the sum of the bytes, 31-polynomial)
	{"costarring", "liquid"}, {"creamwove", "quists"}, {"plumless", "buckeroo"}, {"ab", "ba", "`c"}, {"Aa", "BB"},
	// equal for long
	{longName + "1", longName + "2", longName, longName[:32], longName[:64]}, {"1" + longName, "2" + longName, longName}}

const longName = "organisation.example/department-of-statistics/site-0001/owner-of-data/device"

func genIDs(r *R, n int) []string {
	if r.P(0.15) {
		l := pick(r, lookalikes)
		if len(l) >= n {
			var out []string
			for _, i := range r.Perm(len(l))[:n] {
				out = append(out, l[i])
			}
			return out
		}
	}
	p := r.Perm(len(namePool))
	var out []string
	for i := 0; i < n; i++ {
		if i >= len(p) {
			out = append(out, "party-"+strconv.Itoa(i))
			continue
		}
		out = append(out, namePool[p[i]])
	}
	return out
}

type cfgOpt struct {
	maxLogN   int
	minLevels int
	maxLevels int
	maxParty  int
	minParty  int
	long      bool // a deployment for a very long program
	crowd     bool // many parties
	wide      bool // a ring as large as deployments have
}

// genCfg draws a deployment.
func genCfg(r *R, scheme string, o cfgOpt) *Cfg {
	c := &Cfg{Scheme: scheme, Sigma: rlwe.DefaultSigma}
	// small rings reach more histories, larger ones closer to deployments
	c.LogN = 4 + r.N(4)
	if r.P(0.12) {
		c.LogN = 8 + r.N(3)
	}
	if c.LogN > o.maxLogN {
		c.LogN = o.maxLogN
	}
	if o.wide {
		c.LogN = pick(r, []int{11, 12, 12, 13, 13, 14})
		o.maxParty = min(o.maxParty, 3)
	}
	if o.long || o.crowd {
		c.LogN = 4 + r.N(2)
		o.maxLevels = min(o.maxLevels, max(3, o.minLevels))
	}
	np := 2
	if r.P(0.3) {
		np = 4
	}
	if r.P(0.05) {
		np = 6
	}
	lv := r.Range(o.minLevels, o.maxLevels)
	deep := false
	if r.P(0.07) && !o.long && !o.crowd && !o.wide {
		// as many moduli as deployments have, on a small ring
		deep = true
		np = pick(r, []int{2, 2, 3, 4, 8})
		c.LogN = min(c.LogN, 4+r.N(3))
		lv = r.Range(7, 16)
		if r.P(0.25) {
			lv = r.Range(16, 30)
		}
	}
	if scheme == "bfv" {
		a := np / 2
		nq := a * (1 + r.N(3))
		if deep {
			nq = a * ((4 + r.N(11) + a - 1) / a)
			if lv > 16 {
				nq = a * (16 / a)
			}
		}
		if nq < 2 {
			nq = 2 * a
		}
		if nq > 6 && !deep {
			nq = a * (6 / a)
		}
		lo, hi := 36, 58
		base := r.Range(lo, hi)
		if o.crowd && r.P(0.5) {
			base = 60 // sums of many values come close to the word size
		}
		for i := 0; i < nq; i++ {
			b := base
			if r.P(0.3) {
				b = r.Range(lo, base)
			}
			c.BitsQ = append(c.BitsQ, b)
		}
		mx := 0
		for _, b := range c.BitsQ {
			if b > mx {
				mx = b
			}
		}
		if r.P(0.3) {
			for _, b := range c.BitsQ {
				c.BitsM = append(c.BitsM, min(b+r.N(6), 60))
			}
		}
		for i := 0; i < np; i++ {
			c.BitsP = append(c.BitsP, min(mx+r.N(3), 60))
		}
		c.BitsT = r.Range(c.LogN+3, 20)
		if r.P(0.15) {
			c.BitsT = r.Range(20, 31)
		}
		if c.BitsT < c.LogN+3 {
			c.BitsT = c.LogN + 3
		}
		if o.wide {
			c.BitsT = max(c.BitsT, c.LogN+5)
		}
	} else {
		c.LogSlots = c.LogN - 1
		if r.P(0.3) {
			c.LogSlots = r.Range(0, c.LogN-1)
		}
		sb := r.Range(35, 47)
		if r.P(0.2) {
			sb = r.Range(48, 55)
		} else if r.P(0.08) {
			sb = r.Range(27, 34)
		}
		q0 := min(60, sb+r.Range(4, 14))
		if o.crowd && r.P(0.5) {
			q0 = 60
		}
		c.BitsQ = append(c.BitsQ, q0)
		for i := 0; i < lv; i++ {
			b := sb
			if r.P(0.1) {
				b = sb + r.N(3) - 1
			}
			c.BitsQ = append(c.BitsQ, b)
		}
		mx := q0
		for i := 0; i < np; i++ {
			c.BitsP = append(c.BitsP, min(60, mx+r.N(2)))
		}
		c.Scale = math.Exp2(float64(sb))
		if r.P(0.2) {
			c.Scale = math.Floor(c.Scale * (0.8 + 0.4*r.F()))
		}
	}
	if r.P(0.25) {
		c.Sigma = pick(r, []float64{2, 2.5, 4, 5.5, 8})
	}
	n := o.minParty
	if o.maxParty > n {
		n += r.N(o.maxParty - n + 1)
		if n > 4 && !r.P(0.3) {
			n = 1 + n%3
			if n < o.minParty {
				n = o.minParty
			}
		}
	}
	if o.long {
		n = min(n, 2)
	}
	if o.crowd {
		n = r.Range(7, 14)
		if r.P(0.3) {
			n = r.Range(14, 22)
		} else if r.P(0.2) {
			n = r.Range(24, 44)
			if r.P(0.3) {
				n = r.Range(65, 72)
			}
			c.LogN, c.LogSlots = 4, min(c.LogSlots, 3)
		}
	}
	c.IDs = genIDs(r, n)
	for range c.IDs {
		k := 0
		if r.P(0.12) {
			k = 1
		} else if r.P(0.15) {
			k = 2 + r.N(8)
		}
		c.Sk = append(c.Sk, k)
	}
	c.Seed = r.Seed()
	c.NEv = 1 + r.N(2)
	if o.long && r.P(0.7) {
		c.NEv = 1
	}
	return c
}
