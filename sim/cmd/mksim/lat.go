package main

import (
	"math"
	"math/big"
	"sort"
	"unsafe"

	"github.com/ldsec/lattigo/v2/ckks"
	"github.com/ldsec/lattigo/v2/ring"
	"github.com/ldsec/lattigo/v2/rlwe"

	"mk-lattigo/mkbfv"
	"mk-lattigo/mkckks"
	"mk-lattigo/mkrlwe"
)

// ---- hashing and copying of library objects by the harness ---------------------------

func hPoly(h uint64, p *ring.Poly) uint64 {
	if p == nil {
		return mixs(h, 0xdead)
	}
	fl := uint64(len(p.Coeffs))
	if p.IsNTT {
		fl |= 1 << 32
	}
	if p.IsMForm {
		fl |= 1 << 33
	}
	h = mix(h ^ fl)
	for _, row := range p.Coeffs {
		for _, c := range row {
			h = (h ^ c) * 0x9e3779b97f4a7c15
			h ^= h >> 29
		}
		h = mix(h)
	}
	return h
}

func hQP(h uint64, p rlwe.PolyQP) uint64 { return hPoly(hPoly(h, p.Q), p.P) }

func hSwk(h uint64, k *mkrlwe.SwitchingKey) uint64 {
	if k == nil {
		return mixs(h, 0xdead)
	}
	for _, v := range k.Value {
		h = hQP(h, v)
	}
	return h
}

func hRlk(h uint64, k *mkrlwe.RelinearizationKey) uint64 {
	if k == nil {
		return mixs(h, 0xdead)
	}
	h = mixs(h, strh(k.ID))
	for _, v := range k.Value {
		h = hSwk(h, v)
	}
	return h
}

func hRawCt(ct *mkrlwe.Ciphertext) uint64 {
	ids := make([]string, 0, len(ct.Value))
	for id := range ct.Value {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	h := uint64(1)
	for _, id := range ids {
		h = hPoly(mixs(h, strh(id)), ct.Value[id])
	}
	return h
}

func hHoisted(hc *mkrlwe.HoistedCiphertext) uint64 {
	ids := make([]string, 0, len(hc.Value))
	for id := range hc.Value {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	h := uint64(2)
	for _, id := range ids {
		h = hSwk(mixs(h, strh(id)), hc.Value[id])
	}
	return h
}

func cpPoly(p *ring.Poly) *ring.Poly {
	q := &ring.Poly{IsNTT: p.IsNTT, IsMForm: p.IsMForm, Coeffs: make([][]uint64, len(p.Coeffs))}
	for i, r := range p.Coeffs {
		q.Coeffs[i] = append([]uint64(nil), r...)
	}
	return q
}

func cpRaw(ct *mkrlwe.Ciphertext) *mkrlwe.Ciphertext {
	o := &mkrlwe.Ciphertext{Value: map[string]*ring.Poly{}}
	for id, p := range ct.Value {
		o.Value[id] = cpPoly(p)
	}
	return o
}

func cpQP(p rlwe.PolyQP) rlwe.PolyQP { return rlwe.PolyQP{Q: cpPoly(p.Q), P: cpPoly(p.P)} }

func cpSwk(k *mkrlwe.SwitchingKey) *mkrlwe.SwitchingKey {
	o := &mkrlwe.SwitchingKey{Value: make([]rlwe.PolyQP, len(k.Value))}
	for i, v := range k.Value {
		o.Value[i] = cpQP(v)
	}
	return o
}

func cpHoisted(hc *mkrlwe.HoistedCiphertext) *mkrlwe.HoistedCiphertext {
	if hc == nil {
		return nil
	}
	o := mkrlwe.NewHoistedCiphertext()
	for id, k := range hc.Value {
		o.Value[id] = cpSwk(k)
	}
	return o
}

func cpRlk(k *mkrlwe.RelinearizationKey) *mkrlwe.RelinearizationKey {
	o := &mkrlwe.RelinearizationKey{ID: k.ID}
	for i, v := range k.Value {
		o.Value[i] = cpSwk(v)
	}
	return o
}

func cpBrlk(k *mkbfv.RelinearizationKey) *mkbfv.RelinearizationKey {
	return &mkbfv.RelinearizationKey{ID: k.ID, Value: [2]*mkrlwe.RelinearizationKey{cpRlk(k.Value[0]), cpRlk(k.Value[1])}}
}

func cpRot(k *mkrlwe.RotationKey) *mkrlwe.RotationKey {
	return &mkrlwe.RotationKey{ID: k.ID, RotIdx: k.RotIdx, Value: cpSwk(k.Value)}
}

func cpCjk(k *mkrlwe.ConjugationKey) *mkrlwe.ConjugationKey {
	return &mkrlwe.ConjugationKey{ID: k.ID, Value: cpSwk(k.Value)}
}

func cpPk(k *mkrlwe.PublicKey) *mkrlwe.PublicKey {
	o := &mkrlwe.PublicKey{ID: k.ID}
	o.Value[0], o.Value[1] = cpQP(k.Value[0]), cpQP(k.Value[1])
	return o
}

func cpSk(k *mkrlwe.SecretKey) *mkrlwe.SecretKey {
	o := &mkrlwe.SecretKey{ID: k.ID}
	o.Value = cpQP(k.Value)
	return o
}

// ---- storage intervals ----------------------------------------------------------------

type span struct{ lo, hi uintptr }

func polySpans(p *ring.Poly, out []span) []span {
	if p == nil {
		return out
	}
	for _, r := range p.Coeffs {
		if len(r) > 0 {
			b := uintptr(unsafe.Pointer(unsafe.SliceData(r)))
			out = append(out, span{b, b + uintptr(len(r))*8})
		}
	}
	return out
}

func swkSpans(k *mkrlwe.SwitchingKey, out []span) []span {
	if k == nil {
		return out
	}
	for _, v := range k.Value {
		out = polySpans(v.P, polySpans(v.Q, out))
	}
	return out
}

func overlap(a, b []span) bool {
	if len(a) == 0 || len(b) == 0 {
		return false
	}
	all := make([]span, 0, len(a))
	all = append(all, a...)
	sort.Slice(all, func(i, j int) bool { return all[i].lo < all[j].lo })
	for _, x := range b {
		i := sort.Search(len(all), func(i int) bool { return all[i].hi > x.lo })
		if i < len(all) && all[i].lo < x.hi {
			return true
		}
	}
	return false
}

// ---- independent decryption ------------------------------------------------------------

func idsOf(ct *mkrlwe.Ciphertext) []string {
	var out []string
	for id := range ct.Value {
		if id != "0" {
			out = append(out, id)
		}
	}
	sort.Strings(out)
	return out
}

func eqIDs(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func unionIDs(a, b []string) []string {
	m := map[string]bool{}
	for _, x := range a {
		m[x] = true
	}
	for _, x := range b {
		m[x] = true
	}
	out := make([]string, 0, len(m))
	for x := range m {
		out = append(out, x)
	}
	sort.Strings(out)
	return out
}

func hasID(a []string, x string) bool {
	for _, y := range a {
		if x == y {
			return true
		}
	}
	return false
}

// wellFormed checks the shape of a ciphertext: every component has the same number of
// moduli and N coefficients, all reduced (a residue equal to its modulus stands for zero).
func wellFormed(ringQ *ring.Ring, ct *mkrlwe.Ciphertext) string {
	c0, ok := ct.Value["0"]
	if !ok || c0 == nil {
		return "no common component"
	}
	l := len(c0.Coeffs)
	if l == 0 || l > len(ringQ.Modulus) {
		return "common component has no or too many moduli"
	}
	for id, p := range ct.Value {
		if p == nil {
			return "nil component for " + id
		}
		if len(p.Coeffs) != l {
			return "components have different levels"
		}
		for i, r := range p.Coeffs {
			if len(r) != ringQ.N {
				return "component has wrong length"
			}
			for _, c := range r {
				if c > ringQ.Modulus[i] {
					return "unreduced coefficient"
				}
			}
		}
	}
	return ""
}

func reduced(ringQ *ring.Ring, p *ring.Poly) *ring.Poly {
	q := cpPoly(p)
	for i, r := range q.Coeffs {
		m := ringQ.Modulus[i]
		for j, c := range r {
			r[j] = c % m
		}
	}
	return q
}

func allZero(p *ring.Poly) bool {
	for _, row := range p.Coeffs {
		for _, x := range row {
			if x != 0 {
				return false
			}
		}
	}
	return true
}

// phase computes c_0 + sum c_id*s_id without using the code under test. The result is in
// coefficient representation.
func phase(ringQ *ring.Ring, ct *mkrlwe.Ciphertext, sks map[string]*mkrlwe.SecretKey) (*ring.Poly, string) {
	level := len(ct.Value["0"].Coeffs) - 1
	acc := reduced(ringQ, ct.Value["0"])
	if acc.IsNTT {
		ringQ.InvNTTLvl(level, acc, acc)
	}
	acc.IsNTT = false
	for _, id := range idsOf(ct) {
		sk, ok := sks[id]
		if !ok && allZero(reduced(ringQ, ct.Value[id])) {
			continue
		}
		if !ok {
			return nil, "no secret key for " + id
		}
		t := reduced(ringQ, ct.Value[id])
		if !t.IsNTT {
			ringQ.NTTLvl(level, t, t)
		}
		ringQ.MulCoeffsMontgomeryLvl(level, t, sk.Value.Q, t)
		ringQ.InvNTTLvl(level, t, t)
		ringQ.AddLvl(level, acc, t, acc)
	}
	ringQ.ReduceLvl(level, acc, acc)
	return acc, ""
}

// bigCoeffs gives the centred integer coefficients of p.
func bigCoeffs(ringQ *ring.Ring, p *ring.Poly) []*big.Int {
	level := len(p.Coeffs) - 1
	Q := new(big.Int).SetUint64(1)
	for i := 0; i <= level; i++ {
		Q.Mul(Q, new(big.Int).SetUint64(ringQ.Modulus[i]))
	}
	half := new(big.Int).Rsh(Q, 1)
	crt := make([]*big.Int, level+1)
	for i := range crt {
		qi := new(big.Int).SetUint64(ringQ.Modulus[i])
		m := new(big.Int).Div(Q, qi)
		inv := new(big.Int).ModInverse(m, qi)
		crt[i] = m.Mul(m, inv)
	}
	out := make([]*big.Int, ringQ.N)
	t := new(big.Int)
	for j := range out {
		x := new(big.Int)
		for i := range crt {
			x.Add(x, t.Mul(crt[i], new(big.Int).SetUint64(p.Coeffs[i][j]%ringQ.Modulus[i])))
		}
		x.Mod(x, Q)
		if x.Cmp(half) > 0 {
			x.Sub(x, Q)
		}
		out[j] = x
	}
	return out
}

func modQ(ringQ *ring.Ring, level int) *big.Int {
	Q := big.NewInt(1)
	for i := 0; i <= level; i++ {
		Q.Mul(Q, new(big.Int).SetUint64(ringQ.Modulus[i]))
	}
	return Q
}

func log2Big(x *big.Int) float64 {
	if x.Sign() == 0 {
		return math.Inf(-1)
	}
	f := new(big.Float).SetInt(new(big.Int).Abs(x))
	m := new(big.Float)
	e := f.MantExp(m)
	mf, _ := m.Float64()
	return math.Log2(mf) + float64(e)
}

func maxAbsBig(xs []*big.Int) *big.Int {
	m := new(big.Int)
	for _, x := range xs {
		if x.CmpAbs(m) > 0 {
			m.Abs(x)
		}
	}
	return m
}

// equalCt compares two ciphertexts as ring elements.
func equalCt(ringQ *ring.Ring, a, b *mkrlwe.Ciphertext) string {
	ia, ib := idsOf(a), idsOf(b)
	if !eqIDs(ia, ib) {
		return "different parties"
	}
	for id, p := range a.Value {
		q := b.Value[id]
		if q == nil || len(p.Coeffs) != len(q.Coeffs) {
			return "different levels"
		}
		if p.IsNTT != q.IsNTT {
			return "different domains"
		}
		for i := range p.Coeffs {
			m := ringQ.Modulus[i]
			for j := range p.Coeffs[i] {
				if p.Coeffs[i][j]%m != q.Coeffs[i][j]%m {
					return "different coefficients in component " + id
				}
			}
		}
	}
	return ""
}

func equalHoisted(a, b *mkrlwe.HoistedCiphertext, ringQ, ringP *ring.Ring, beta, level int) string {
	if len(a.Value) != len(b.Value) {
		return "different parties"
	}
	for id, x := range a.Value {
		y := b.Value[id]
		if y == nil {
			return "different parties"
		}
		for i := 0; i < beta && i < len(x.Value) && i < len(y.Value); i++ {
			for j := 0; j <= level; j++ {
				for k := range x.Value[i].Q.Coeffs[j] {
					if x.Value[i].Q.Coeffs[j][k]%ringQ.Modulus[j] != y.Value[i].Q.Coeffs[j][k]%ringQ.Modulus[j] {
						return "different digits"
					}
				}
			}
			for j := range x.Value[i].P.Coeffs {
				for k := range x.Value[i].P.Coeffs[j] {
					if x.Value[i].P.Coeffs[j][k]%ringP.Modulus[j] != y.Value[i].P.Coeffs[j][k]%ringP.Modulus[j] {
						return "different digits"
					}
				}
			}
		}
	}
	return ""
}

// decodeSlots interprets a coefficient polynomial at a scale.
func decodeSlots(w *Lib, p *ring.Poly, scale float64) []complex128 {
	pt := ckks.NewPlaintext(w.md.ckksP, len(p.Coeffs)-1, scale)
	pt.Value = cpPoly(p)
	pt.Value.IsNTT = false
	return w.encoder.Decode(pt, w.c.LogSlots)
}

var _ = mkckks.NewMessage
