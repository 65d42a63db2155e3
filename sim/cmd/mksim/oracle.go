package main

import (
	"fmt"
	"math"
	"math/big"

	"github.com/ldsec/lattigo/v2/ring"
	"github.com/ldsec/lattigo/v2/rlwe"

	"mk-lattigo/mkbfv"
	"mk-lattigo/mkrlwe"
)

// samples collects small integers that should follow a known distribution.
type samples struct {
	n        float64
	sum, sq  float64
	zero     float64
	maxA     int64
	expectSq float64 // expected variance summed over the samples
	far      float64 // beyond three deviations
	p0       float64 // for ternary values: how many of them should be zero
}

func (a *samples) ternary(v []int64, p0 float64) {
	a.p0 = p0
	a.add(v, 1-p0)
}

func (a *samples) add(v []int64, variance float64) {
	for _, x := range v {
		f := float64(x)
		a.n++
		a.sum += f
		a.sq += f * f
		a.expectSq += variance
		if x == 0 {
			a.zero++
		}
		if f*f > 9*variance {
			a.far++
		}
		if x < 0 {
			x = -x
		}
		if x > a.maxA {
			a.maxA = x
		}
	}
}

// odd tells whether the samples contradict the expected deviation.
func (a *samples) odd(slack float64) string {
	if a.p0 > 0 {
		if d := math.Abs(a.zero - a.n*a.p0); d > 6.8*math.Sqrt(a.n*a.p0*(1-a.p0))+4 {
			return fmt.Sprintf("%d of %d coefficients are zero, expected are %.0f", int(a.zero), int(a.n), a.n*a.p0)
		}
	}
	if a.n < 150 {
		return ""
	}
	if a.expectSq >= 4*a.n && a.n > 40000 && a.far == 0 {
		return fmt.Sprintf("not one of %d coefficients is beyond three times the deviation", int(a.n))
	}
	tol := 7/math.Sqrt(2*a.n) + slack
	ratio := math.Sqrt(a.sq / a.expectSq)
	if ratio < 1-tol || ratio > 1+tol {
		return fmt.Sprintf("deviation is %.3f times the configured one over %d coefficients", ratio, int(a.n))
	}
	if m := math.Abs(a.sum / a.n); m > 7*math.Sqrt(a.expectSq/a.n)/math.Sqrt(a.n) {
		return fmt.Sprintf("mean is %.3f over %d coefficients", a.sum/a.n, int(a.n))
	}
	return ""
}

func hashInts(v []int64) uint64 {
	h := uint64(3)
	for _, x := range v {
		h = mix(h ^ uint64(x))
	}
	return h
}

// fresh reports whether a random vector (or its negative) was seen before.
func (r *Run) seenBefore(v []int64, name string) string {
	zero := true
	for _, x := range v {
		if x != 0 {
			zero = false
		}
	}
	if zero {
		return name + " is all zero"
	}
	n := make([]int64, len(v))
	for i := range v {
		n[i] = -v[i]
	}
	for _, w := range [][]int64{v, n} {
		h := hashInts(w)
		if o, ok := r.errH[h]; ok {
			return name + " repeats " + o
		}
	}
	r.errH[hashInts(v)] = name
	return ""
}

// smallQP reads a small integer polynomial out of all residues of a polynomial over Q (and P);
// it must be in coefficient representation.
func smallQP(rq, rp *ring.Ring, q, p *ring.Poly, bound int64) ([]int64, string) {
	n := rq.N
	out := make([]int64, n)
	q0 := rq.Modulus[0]
	for j := 0; j < n; j++ {
		c := q.Coeffs[0][j] % q0
		if c > q0/2 {
			out[j] = -int64(q0 - c)
		} else {
			out[j] = int64(c)
		}
		if out[j] > bound || out[j] < -bound {
			return nil, fmt.Sprintf("coefficient %d is 2^%.1f, allowed %d", j, math.Log2(math.Abs(float64(out[j]))), bound)
		}
	}
	chk := func(r *ring.Ring, x *ring.Poly, what string) string {
		for i := range x.Coeffs {
			m := r.Modulus[i]
			for j := 0; j < n; j++ {
				v := out[j] % int64(m)
				if v < 0 {
					v += int64(m)
				}
				if x.Coeffs[i][j]%m != uint64(v) {
					return fmt.Sprintf("residue %d modulo %s does not belong to the same small integer", i, what)
				}
			}
		}
		return ""
	}
	if w := chk(rq, q, "Q"); w != "" {
		return nil, w
	}
	if p != nil {
		if w := chk(rp, p, "P"); w != "" {
			return nil, w
		}
	}
	return out, ""
}

// automorph applies X -> X^g to an integer polynomial.
func automorph(v []int64, g uint64) []int64 {
	n := uint64(len(v))
	out := make([]int64, n)
	for i := uint64(0); i < n; i++ {
		k := (i * g) & (2*n - 1)
		if k < n {
			out[k] += v[i]
		} else {
			out[k-n] -= v[i]
		}
	}
	return out
}

// liftQP turns small integers into the representation of a secret key (NTT, Montgomery).
func (l *Lib) liftQP(v []int64) rlwe.PolyQP {
	rqp := l.mk.RingQP()
	p := rqp.NewPoly()
	put := func(r *ring.Ring, x *ring.Poly) {
		for i, m := range r.Modulus {
			for j, c := range v {
				w := c % int64(m)
				if w < 0 {
					w += int64(m)
				}
				x.Coeffs[i][j] = uint64(w)
			}
		}
	}
	put(rqp.RingQ, p.Q)
	put(rqp.RingP, p.P)
	lq, lp := len(p.Q.Coeffs)-1, len(p.P.Coeffs)-1
	rqp.NTTLvl(lq, lp, p, p)
	rqp.MFormLvl(lq, lp, p, p)
	return p
}

// reads the small integer polynomial of a QP element in NTT (and Montgomery if mf) form.
func (l *Lib) readQP(x rlwe.PolyQP, mf bool, bound int64) ([]int64, string) {
	rqp := l.mk.RingQP()
	y := cpQP(x)
	lq, lp := len(y.Q.Coeffs)-1, len(y.P.Coeffs)-1
	if lq+1 != len(rqp.RingQ.Modulus) || lp+1 != len(rqp.RingP.Modulus) {
		return nil, "wrong number of residues"
	}
	y.Q, y.P = reduced(rqp.RingQ, y.Q), reduced(rqp.RingP, y.P)
	if mf {
		rqp.InvMFormLvl(lq, lp, y, y)
	}
	rqp.InvNTTLvl(lq, lp, y, y)
	return smallQP(rqp.RingQ, rqp.RingP, y.Q, y.P, bound)
}

// ext computes x + sign*a*s in the representation of x, where a*s is the Montgomery product.
func (l *Lib) ext(x, a, s rlwe.PolyQP, add bool) rlwe.PolyQP {
	rqp := l.mk.RingQP()
	y := cpQP(x)
	lq, lp := len(y.Q.Coeffs)-1, len(y.P.Coeffs)-1
	if add {
		rqp.MulCoeffsMontgomeryAndAddLvl(lq, lp, a, s, y)
	} else {
		rqp.MulCoeffsMontgomeryAndSubLvl(lq, lp, a, s, y)
	}
	return y
}

// subScaled computes x - G*s (s in Montgomery NTT form, G an integer; in all residues).
func (l *Lib) subScaled(x, s rlwe.PolyQP, gq func(q uint64, i int) uint64, gp func(p uint64, i int) uint64) rlwe.PolyQP {
	rqp := l.mk.RingQP()
	y := cpQP(x)
	sub := func(r *ring.Ring, y, s *ring.Poly, g func(uint64, int) uint64) {
		for i, m := range r.Modulus {
			gg := g(m, i) % m
			bm := r.BredParams[i]
			for j := range y.Coeffs[i] {
				t := ring.BRed(s.Coeffs[i][j]%m, gg, m, bm)
				y.Coeffs[i][j] = ring.CRed(y.Coeffs[i][j]%m+m-t, m)
			}
		}
	}
	sub(rqp.RingQ, y.Q, s.Q, gq)
	sub(rqp.RingP, y.P, s.P, gp)
	return y
}

// gadget gives P (times 1 in the digit's own moduli, 0 elsewhere).
func (l *Lib) gadget(i int) (func(uint64, int) uint64, func(uint64, int) uint64) {
	a := l.c.alpha()
	P := l.mk.RingP().ModulusBigint
	return func(q uint64, k int) uint64 {
			if k/a != i {
				return 0
			}
			return new(big.Int).Mod(P, new(big.Int).SetUint64(q)).Uint64()
		}, func(uint64, int) uint64 {
			return 0
		}
}

// bgadget gives round(T*P/QMul * ((Q*QMul/D) * ((Q*QMul/D)^-1 mod D))) for digit D of Q (part 0)
// or QMul (part 1).
func (l *Lib) bgadget(part, i int) (func(uint64, int) uint64, func(uint64, int) uint64) {
	a := l.c.alpha()
	src := l.md.Q
	if part == 1 {
		src = l.md.QMul
	}
	D := big.NewInt(1)
	for j := i * a; j < (i+1)*a && j < len(src); j++ {
		D.Mul(D, new(big.Int).SetUint64(src[j]))
	}
	mul := func(qs []uint64) *big.Int {
		x := big.NewInt(1)
		for _, q := range qs {
			x.Mul(x, new(big.Int).SetUint64(q))
		}
		return x
	}
	QM := mul(l.md.QMul)
	R := new(big.Int).Mul(mul(l.md.Q), QM)
	G := new(big.Int).Div(R, D)
	inv := new(big.Int).ModInverse(new(big.Int).Mod(G, D), D)
	G.Mul(G, inv)
	G.Mul(G, new(big.Int).SetUint64(l.md.T))
	G.Mul(G, mul(l.md.P))
	G.Div(G, QM)
	f := func(q uint64, _ int) uint64 { return new(big.Int).Mod(G, new(big.Int).SetUint64(q)).Uint64() }
	return f, f
}

// keyChecks judges all key material a step produced.
func (r *Run) keyChecks(s *Step, res opRes) {
	l := r.l
	bound := int64(6*l.c.Sigma) + 1
	switch s.Op {
	case "join":
		l.noteKeys(r, s, bound, true)
	case "genkey":
		r.checkOneKey(s, s.S+"/"+s.P, res.key, l.curSk(r.m, s.P), l.rs[s.P], bound)
	}
	r.checkCRS(s)
}

// noteKeys checks the keys the join step made.
func (l *Lib) noteKeys(r *Run, s *Step, bound int64, all bool) {
	sk := l.curSk(r.m, s.P)
	r.checkSk(s, sk, l.skKind(s.P), bound)
	if rr := l.rs[s.P]; rr != nil && s.I&1 != 0 {
		r.checkSk(s, rr, 0, bound)
	}
	last := func(k string) any { return l.store[k][len(l.store[k])-1] }
	r.checkOneKey(s, "pk/"+s.P, last("pk/"+s.P), sk, nil, bound)
	if s.I&1 != 0 {
		r.checkOneKey(s, "rlk/"+s.P, last("rlk/"+s.P), sk, l.rs[s.P], bound)
	}
	if s.I&2 != 0 {
		for i := 1; i < l.c.Half(); i *= 2 {
			r.checkOneKey(s, "rot/"+s.P, last(rotKey(s.P, i)), sk, nil, bound)
		}
	}
	if s.I&4 != 0 {
		r.checkOneKey(s, "cjk/"+s.P, last("cjk/"+s.P), sk, nil, bound)
	}
}

func (l *Lib) skKind(id string) int {
	for i, x := range l.c.IDs {
		if x == id && i < len(l.c.Sk) {
			return l.c.Sk[i]
		}
	}
	return 0
}

func (r *Run) checkSk(s *Step, sk *mkrlwe.SecretKey, kind int, bound int64) {
	stats.check("secret-key")
	if sk == nil {
		r.fail("keyeq", s, "no secret key")
		return
	}
	if sk.ID != s.P {
		r.fail("keyeq", s, "secret key carries identifier %q, asked for %q", sk.ID, s.P)
		return
	}
	v, w := r.l.readQP(sk.Value, true, bound)
	if w != "" {
		r.fail("keyeq", s, "secret key of %q is malformed: %s", s.P, w)
		return
	}
	mx, nz := int64(0), 0
	for _, x := range v {
		if x < 0 {
			x = -x
		}
		if x > mx {
			mx = x
		}
		if x != 0 {
			nz++
		}
	}
	n := len(v)
	p, ternary := distP[kind]
	hw := sparseHW(r.c, kind)
	if hw == 0 || n >= 64 && hw >= 16 {
		if n >= 64 || n >= 32 && !(ternary && (p > 0.6 || p < 0.2)) {
			if w := r.seenBefore(v, "secret key of "+s.P); w != "" {
				r.fail("keyeq", s, "%s", w)
			}
		}
	}
	switch {
	case kind == 1:
		r.smpl("skg").add(v, sampledVar(r.c.Sigma))
	case hw > 0:
		if nz != hw || mx > 1 {
			r.fail("keyeq", s, "sparse secret key has %d non-zero coefficients up to %d, asked for %d", nz, mx, hw)
		}
	case ternary:
		if mx > 1 {
			r.fail("keyeq", s, "ternary secret key has coefficient %d", mx)
		}
		r.smpl(fmt.Sprintf("sk/%d", kind)).ternary(v, p)
	default:
		if mx > 1 {
			r.fail("keyeq", s, "ternary secret key has coefficient %d", mx)
		}
		r.smpl("skt").ternary(v, 0.5)
	}
}

// distP is the probability of zero asked for.
var distP = map[int]float64{3: 1.0 / 3, 5: 0.1, 6: 0.8, 7: 0.5}

// sparseHW is the number of non-zero coefficients asked for, 0 for other kinds of secrets.
func sparseHW(c *Cfg, kind int) int {
	switch kind {
	case 2, 4:
		return max(4, c.N()/4)
	case 8:
		return c.N()
	case 9:
		return max(2, c.N()/16)
	}
	return 0
}

func (r *Run) smpl(k string) *samples {
	if r.smp == nil {
		r.smp = map[string]*samples{}
	}
	if r.smp[k] == nil {
		r.smp[k] = &samples{}
	}
	return r.smp[k]
}

// sampledVar is the variance of a rounded Gaussian.
func sampledVar(sigma float64) float64 { return sigma*sigma + 1.0/12 }

// noise notes one error vector taken out of a key.
func (r *Run) noise(s *Step, what string, x rlwe.PolyQP, mf bool, bound int64) {
	e, w := r.l.readQP(x, mf, bound)
	stats.check("key-equation")
	if w != "" {
		r.fail("keyeq", s, "%s does not satisfy its key equation: %s", what, w)
		return
	}
	if w := r.seenBefore(e, "error of "+what); w != "" {
		r.fail("keyeq", s, "%s", w)
		return
	}
	r.smpl("err").add(e, sampledVar(r.c.Sigma))
}

func (r *Run) checkOneKey(s *Step, name string, k any, sk, rr *mkrlwe.SecretKey, bound int64) {
	l := r.l
	crs := l.mk.CRS
	if len(r.viol) > 4 {
		return
	}
	idOK := func(id string) bool {
		if id != s.P {
			r.fail("keyeq", s, "key %s carries identifier %q", name, id)
			return false
		}
		return true
	}
	sw := func(what string, v, a *mkrlwe.SwitchingKey, mask rlwe.PolyQP, target *rlwe.PolyQP, gad func(i int) (func(uint64, int) uint64, func(uint64, int) uint64), neg bool, slack int64) {
		if len(v.Value) != len(a.Value) {
			r.fail("keyeq", s, "%s has %d digits, expected %d", what, len(v.Value), len(a.Value))
			return
		}
		for i := range v.Value {
			y := l.ext(v.Value[i], a.Value[i], mask, true)
			if target != nil {
				gq, gp := gad(i)
				if neg {
					// v = -mask*a - G*target + e
					n := cpQP(y)
					rqp := l.mk.RingQP()
					rqp.RingQ.Neg(reduced(rqp.RingQ, n.Q), n.Q)
					rqp.RingP.Neg(reduced(rqp.RingP, n.P), n.P)
					y = l.subScaled(n, *target, gq, gp)
				} else {
					y = l.subScaled(y, *target, gq, gp)
				}
			}
			r.noise(s, fmt.Sprintf("%s[%d]", what, i), y, true, bound+slack)
		}
	}
	switch x := k.(type) {
	case *mkrlwe.PublicKey:
		if !idOK(x.ID) {
			return
		}
		if hQP(1, x.Value[1]) != hQP(1, crs[0].Value[0]) {
			r.fail("keyeq", s, "public key of %q does not use the common reference string", x.ID)
			return
		}
		r.noise(s, name, l.ext(x.Value[0], x.Value[1], sk.Value, true), false, bound)
	case *mkrlwe.RelinearizationKey:
		if !idOK(x.ID) {
			return
		}
		sw(name+".b", x.Value[0], crs[0], sk.Value, nil, nil, false, 0)
		sw(name+".d", x.Value[1], crs[0], rr.Value, &sk.Value, l.gadget, false, 0)
		sw(name+".v", x.Value[2], crs[-1], sk.Value, &rr.Value, l.gadget, true, 0)
	case *mkbfv.RelinearizationKey:
		if !idOK(x.ID) {
			return
		}
		sw(name+".b1", x.Value[0].Value[0], crs[0], sk.Value, nil, nil, false, 0)
		sw(name+".b2", x.Value[1].Value[0], crs[-3], sk.Value, nil, nil, false, 0)
		g := func(part int) func(int) (func(uint64, int) uint64, func(uint64, int) uint64) {
			return func(i int) (func(uint64, int) uint64, func(uint64, int) uint64) { return l.bgadget(part, i) }
		}
		sw(name+".d1", x.Value[0].Value[1], crs[0], rr.Value, &sk.Value, g(0), false, 2)
		sw(name+".d2", x.Value[1].Value[1], crs[-3], rr.Value, &sk.Value, g(1), false, 2)
		sw(name+".v", x.Value[0].Value[2], crs[-1], sk.Value, &rr.Value, l.gadget, true, 0)
	case *mkrlwe.RotationKey:
		if !idOK(x.ID) {
			return
		}
		want := -1
		if s.Op == "genkey" {
			want = r.m.norm(s.I)
			if int(x.RotIdx) != want {
				r.fail("keyeq", s, "rotation key asked for index %d is labelled %d", s.I, x.RotIdx)
				return
			}
		}
		a := crs[int(x.RotIdx)]
		if a == nil {
			r.fail("keyeq", s, "rotation key labelled %d has no reference string", x.RotIdx)
			return
		}
		v, w := l.readQP(sk.Value, true, bound)
		if w != "" {
			return
		}
		twoN := uint64(2 * l.c.N())
		g := uint64(1)
		for i := uint(0); i < x.RotIdx; i++ {
			g = g * 5 & (twoN - 1)
		}
		inv := uint64(1)
		for i := 0; i < l.c.Half()-int(x.RotIdx); i++ {
			inv = inv * 5 & (twoN - 1)
		}
		sp := l.liftQP(automorph(v, inv))
		sw(fmt.Sprintf("%s/%d", name, x.RotIdx), x.Value, a, sp, &sk.Value, l.gadget, false, 0)
	case *mkrlwe.ConjugationKey:
		if !idOK(x.ID) {
			return
		}
		v, w := l.readQP(sk.Value, true, bound)
		if w != "" {
			return
		}
		sc := l.liftQP(automorph(v, uint64(2*l.c.N()-1)))
		sw(name, x.Value, crs[-2], sk.Value, &sc, l.gadget, false, 0)
	default:
		r.fail("keyeq", s, "no key")
	}
}

// checkCRS: reference strings are pairwise different.
func (r *Run) checkCRS(s *Step) {
	stats.check("reference-string")
	if r.crsN == len(r.l.mk.CRS) {
		return
	}
	r.crsN = len(r.l.mk.CRS)
	seen := map[uint64]string{}
	for k, v := range r.l.mk.CRS {
		for i, x := range v.Value {
			h := hPoly(1, x.Q)
			n := fmt.Sprintf("%d[%d]", k, i)
			if o, ok := seen[h]; ok {
				r.fail("keyeq", s, "reference strings %s and %s are equal", o, n)
				return
			}
			seen[h] = n
		}
	}
}

func what(k string) string {
	switch k {
	case "err":
		return "errors"
	case "skg":
		return "gaussian secrets"
	case "skt":
		return "ternary secrets"
	}
	return fmt.Sprintf("ternary secrets (%g)", distP[int(k[3]-'0')])
}

func (r *Run) keyStats() {
	if len(r.sc.Steps) == 0 {
		return
	}
	s := &r.sc.Steps[len(r.sc.Steps)-1]
	for _, k := range sortedKeys(r.smp) {
		if k == "e0" || k == "e1" || k == "u" {
			continue
		}
		a := r.smp[k]
		if a == nil {
			continue
		}
		sl := 0.05
		if w := a.odd(sl); w != "" {
			r.fail("keyeq", s, "%s of generated keys: %s", what(k), w)
		}
	}
}

// ---- encryption ------------------------------------------------------------------------------

const synthBits = 16

// synthPk is a public key (D, D): encryptions under it show the randomness used.
func (l *Lib) synthPk(id string) *mkrlwe.PublicKey {
	v := make([]int64, l.c.N())
	v[0] = 1 << synthBits
	rqp := l.mk.RingQP()
	p := l.liftQP(v)
	lq, lp := len(p.Q.Coeffs)-1, len(p.P.Coeffs)-1
	rqp.InvMFormLvl(lq, lp, p, p)
	pk := &mkrlwe.PublicKey{ID: id}
	pk.Value[0], pk.Value[1] = p, cpQP(p)
	return pk
}

// coefPoly gives a ciphertext component in coefficient representation.
func coefPoly(rq *ring.Ring, p *ring.Poly) *ring.Poly {
	q := reduced(rq, p)
	if q.IsNTT {
		rq.InvNTTLvl(len(q.Coeffs)-1, q, q)
		q.IsNTT = false
	}
	return q
}

// expectedPt is the encoding an encryption step must carry, in coefficient representation.
func (r *Run) expectedPt(s *Step, level int, scale float64) *ring.Poly {
	l := r.l
	if l.isB() {
		v := s.V.ints(l.c.N(), l.md.T)
		return l.encodeI(nil, false, v).Value
	}
	return l.encodeC(nil, false, s.V.complex(l.c.Slots()), level, scale).Value
}

// noteEnc judges the noise of a real encryption (the value itself is checked elsewhere).
func (r *Run) noteEnc(s *Step, o *MObj, res opRes) {
	l := r.l
	rq := l.md.ringQ
	ct := res.ct.raw()
	stats.check("encryption-noise")
	if res.inP != nil && hPoly(0, res.inP) != res.inH {
		r.fail("operand", s, "encryption changed the plaintext it was given")
	}
	ph, w := phase(rq, ct, l.trueSks())
	if w != "" {
		r.fail("enc", s, "%s", w)
		return
	}
	lv := len(ph.Coeffs) - 1
	pt := r.expectedPt(s, lv, o.Scale)
	rq.SubLvl(lv, ph, reduced(rq, trim(pt, lv)), ph)
	e := bigCoeffs(rq, ph)
	m := maxAbsBig(e)
	bound := kTail * r.m.freshDev()
	f, _ := new(big.Float).SetInt(m).Float64()
	stats.rat("enc-noise", f/bound)
	if f > bound+4 {
		r.fail("enc", s, "encryption error is 2^%.1f, bound 2^%.1f", log2Big(m), math.Log2(bound))
		return
	}
	v := make([]int64, len(e))
	for i := range e {
		v[i] = e[i].Int64()
	}
	if w := r.seenBefore(v, fmt.Sprintf("noise of encryption %d", s.ID)); w != "" {
		r.fail("enc", s, "%s", w)
	}
	// the randomising component must never repeat, and c1-c1' must not be small
	for _, id := range idsOf(ct) {
		c := coefPoly(rq, ct.Value[id])
		h := mixs(hPoly(2, trim(c, 0)), 9)
		if o, ok := r.errH[h]; ok {
			r.fail("enc", s, "encryption %d repeats the randomness of %s", s.ID, o)
		}
		r.errH[h] = fmt.Sprintf("encryption %d", s.ID)
		// against every earlier one under this or any other key
		row := c.Coeffs[0]
		q := rq.Modulus[0]
		// two independent ternary polynomials of 16 coefficients do coincide now and then: in the
		// smallest rings one pair is no evidence
		limit := 0
		if len(row) < 32 {
			limit = 12
		}
		for _, p := range r.c1s {
			small := 0
			for j := range row {
				d := (row[j]%q + q - p.row[j]%q) % q
				if d > q/2 {
					d = q - d
				}
				if d < 256 {
					small++
				}
			}
			if small > 3*len(row)/4 {
				if r.c1same++; r.c1same <= limit {
					continue
				}
				r.fail("enc", s, "encryptions %d and %d share their randomising polynomial", p.id, s.ID)
				return
			}
		}
		r.c1s = append(r.c1s, c1rec{s.ID, append([]uint64(nil), row...)})
	}
}

type c1rec struct {
	id  int
	row []uint64
}

func trim(p *ring.Poly, lv int) *ring.Poly {
	return &ring.Poly{IsNTT: p.IsNTT, Coeffs: p.Coeffs[:lv+1]}
}

// checkSynth splits an encryption under the transparent key into u, e0 and e1.
func (r *Run) checkSynth(s *Step, res opRes) {
	l := r.l
	rq := l.md.ringQ
	ct := res.ct.raw()
	stats.check("encryption-randomness")
	if w := wellFormed(rq, ct); w != "" {
		r.fail("enc", s, "malformed encryption: %s", w)
		return
	}
	if got := idsOf(ct); !eqIDs(got, []string{s.P}) {
		r.fail("enc", s, "encryption involves %q, expected %q", got, s.P)
		return
	}
	lv, scale := r.c.Max(), r.c.Scale
	switch s.S {
	case "lvl", "over":
		if !l.isB() {
			lv = s.L
		}
	case "ptx":
		if !l.isB() {
			lv, scale = min(s.L, s.I), s.F
		}
	}
	if ct.Level() != lv {
		r.fail("enc", s, "encryption is at level %d, asked for %d", ct.Level(), lv)
		return
	}
	if res.ct.k != nil && math.Abs(res.ct.k.Scale/scale-1) > 1e-12 {
		r.fail("enc", s, "encryption records scale %g, asked for %g", res.ct.k.Scale, scale)
		return
	}
	pt := r.expectedPt(s, lv, scale)
	split := func(p *ring.Poly, what string) (u, e []int64, ok bool) {
		lim := int64(1)<<synthBits + int64(6*r.c.Sigma) + 8
		x, w := smallQP(rq, nil, p, nil, lim)
		if w != "" {
			r.fail("enc", s, "%s is not u*pk + e (+ message): %s", what, w)
			return nil, nil, false
		}
		D := int64(1) << synthBits
		for _, c := range x {
			k := int64(math.Round(float64(c) / float64(D)))
			u = append(u, k)
			e = append(e, c-k*D)
		}
		return u, e, true
	}
	c0 := coefPoly(rq, ct.Value["0"])
	rq.SubLvl(lv, c0, reduced(rq, trim(pt, lv)), c0)
	u0, e0, ok := split(c0, "the common component")
	if !ok {
		return
	}
	u1, e1, ok := split(coefPoly(rq, ct.Value[s.P]), "the party's component")
	if !ok {
		return
	}
	if hashInts(u0) != hashInts(u1) {
		r.fail("enc", s, "the two components use different randomising polynomials")
		return
	}
	b := int64(6*r.c.Sigma) + 2
	for i := range e0 {
		if e0[i] > b || e0[i] < -b || e1[i] > b || e1[i] < -b {
			r.fail("enc", s, "encryption error %d/%d exceeds %d", e0[i], e1[i], b)
			return
		}
		if u0[i] > 1 || u0[i] < -1 {
			r.fail("enc", s, "the randomising polynomial has coefficient %d", u0[i])
			return
		}
	}
	if w := r.seenBefore(e0, fmt.Sprintf("error e0 of encryption %d", s.ID)); w != "" {
		r.fail("enc", s, "%s", w)
		return
	}
	if w := r.seenBefore(e1, fmt.Sprintf("error e1 of encryption %d", s.ID)); w != "" {
		r.fail("enc", s, "%s", w)
		return
	}
	if len(u0) >= 64 {
		if w := r.seenBefore(u0, fmt.Sprintf("randomising polynomial of encryption %d", s.ID)); w != "" {
			r.fail("enc", s, "%s", w)
			return
		}
	}
	v := sampledVar(r.c.Sigma)
	r.smpl("e0").add(e0, v)
	r.smpl("e1").add(e1, v)
	r.smpl("u").ternary(u0, 0.5)
}

func (r *Run) encStats() {
	if len(r.sc.Steps) == 0 {
		return
	}
	s := &r.sc.Steps[len(r.sc.Steps)-1]
	for _, k := range []string{"e0", "e1", "u"} {
		if a := r.smp[k]; a != nil {
			if w := a.odd(0.06); w != "" {
				r.fail("enc", s, "%s of encryptions: %s", k, w)
			}
		}
	}
}

// freshCRS: the reference strings of an index have nothing in common with those of another.
func (r *Run) freshCRS(s *Step, k int) {
	stats.check("reference-string")
	for i, x := range r.l.mk.CRS[k].Value {
		for w, p := range []*ring.Poly{x.Q, x.P} {
			for j, row := range p.Coeffs {
				v := make([]int64, len(row))
				for n := range row {
					v[n] = int64(row[n])
				}
				if w := r.seenBefore(v, fmt.Sprintf("modulus %d/%d of digit %d of reference string %d", w, j, i, k)); w != "" {
					r.fail("keyeq", s, "%s", w)
					return
				}
			}
		}
	}
}
