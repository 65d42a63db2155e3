package main

import (
	"strings"

	"mk-lattigo/mkbfv"
	"mk-lattigo/mkrlwe"

	"github.com/ldsec/lattigo/v2/ring"
	"github.com/ldsec/lattigo/v2/rlwe"
)

// Damaged operands: what arrives over a wire or from a disk may be cut short. An operation on it breaks off with a
// panic of the library's own, at whatever point it meets the gap; the objects that were used live on.

// spoil damages a polynomial: it is missing, or rows of it are.
func spoil(r *R, p *ring.Poly) *ring.Poly {
	if p == nil || len(p.Coeffs) == 0 || r.P(0.2) {
		return nil
	}
	switch r.N(3) {
	case 0: // cut short
		p.Coeffs = p.Coeffs[:r.N(len(p.Coeffs))]
	case 1: // a gap
		p.Coeffs[r.N(len(p.Coeffs))] = nil
	default: // cut within the last row
		i := len(p.Coeffs) - 1
		p.Coeffs[i] = p.Coeffs[i][:0]
	}
	return p
}

func spoilQP(r *R, p *rlwe.PolyQP) {
	if r.P(0.5) {
		p.Q = spoil(r, p.Q)
	} else {
		p.P = spoil(r, p.P)
	}
}

func spoilSwk(r *R, k *mkrlwe.SwitchingKey) {
	if len(k.Value) == 0 || r.P(0.25) {
		k.Value = k.Value[:r.N(len(k.Value)+1)]
		return
	}
	spoilQP(r, &k.Value[r.N(len(k.Value))])
}

func spoilKey(r *R, k any) {
	switch x := k.(type) {
	case *mkrlwe.SecretKey:
		spoilQP(r, &x.Value)
	case *mkrlwe.PublicKey:
		spoilQP(r, &x.Value[r.N(2)])
	case *mkrlwe.RelinearizationKey:
		spoilSwk(r, x.Value[r.N(len(x.Value))])
	case *mkbfv.RelinearizationKey:
		y := x.Value[r.N(2)]
		spoilSwk(r, y.Value[r.N(len(y.Value))])
	case *mkrlwe.RotationKey:
		spoilSwk(r, x.Value)
	case *mkrlwe.ConjugationKey:
		spoilSwk(r, x.Value)
	}
}

var usesKeys = map[string]string{"mul": "rlk", "mulk": "rlk", "mulh": "rlk", "rot": "rot", "roth": "rot", "conj": "cjk", "dec": "sk", "pdec": "sk", "pdeci": "sk", "enc": "pk", "genkey": "sk", "conv": "rlk rot", "fc1": "rlk rot", "fc2": "rlk rot"}

// copies gives the step operands of its own.
func (r *Run) copies(s *Step) (undo func()) {
	ct, h := map[int]*Ct{}, map[int]*mkrlwe.HoistedCiphertext{}
	for _, i := range s.operands() {
		if c := r.ct[i]; c != nil {
			ct[i], r.ct[i] = c, c.deep()
		}
		if x := r.h[i]; x != nil {
			h[i], r.h[i] = x, cpHoisted(x)
		}
	}
	return func() {
		for i, c := range ct {
			r.ct[i] = c
		}
		for i, x := range h {
			r.h[i] = x
		}
	}
}

// tear damages one operand or key of a step, until undo; nil: there is nothing to damage.
func (r *Run) tear(s *Step) (undo func()) {
	z := NewR(mixs(s.Z, 0x7ea2))
	l := r.l
	ids := map[string]bool{}
	ops := s.operands()
	for _, i := range ops {
		if o := r.m.obj[i]; o != nil {
			for _, id := range o.IDs {
				ids[id] = true
			}
		}
	}
	if s.P != "" {
		ids[s.P] = true
	}
	var keys []string
	if l.c.LogN < bigLogN {
		for _, k := range sortedKeys(r.m.keys) {
			if v := r.m.keys[k]; v < 1 || strings.HasPrefix(k, "crs/") || v > len(l.store[k]) {
				continue
			}
			kind, id, _ := keyParts(k)
			if ids[id] && hasID(strings.Fields(usesKeys[s.Op]), kind) {
				keys = append(keys, k)
			}
		}
	}
	var live []int
	for _, i := range ops {
		if r.ct[i] != nil || r.h[i] != nil {
			live = append(live, i)
		}
	}
	if len(keys)+len(live) == 0 {
		return nil
	}
	back := r.copies(s)
	if len(live) == 0 || len(keys) > 0 && z.P(0.6) {
		stats.fault("damaged-key")
		k := pick(z, keys)
		v := r.m.keys[k]
		was := l.store[k][v-1]
		bad := cpKey(was)
		spoilKey(z, bad)
		l.store[k][v-1] = bad
		guard(-1, func() { l.put(l.sets, k, bad) })
		return func() {
			back()
			l.store[k][v-1] = was
			guard(-1, func() { l.put(l.sets, k, was) })
		}
	}
	i := pick(z, live)
	if h := r.h[i]; h != nil {
		stats.fault("damaged-hoisted-form")
		if hs := sortedKeys(h.Value); len(hs) > 0 {
			spoilSwk(z, h.Value[pick(z, hs)])
		}
		return back
	}
	stats.fault("damaged-ciphertext")
	c := r.ct[i].raw()
	id := pick(z, sortedKeys(c.Value))
	if p := spoil(z, c.Value[id]); p != nil || z.P(0.5) {
		c.Value[id] = p
	} else {
		delete(c.Value, id)
	}
	return back
}

// restart is what follows a crash: the process begins again with what was stored, and nothing else.
func (r *Run) restart(s *Step) {
	l := r.l
	gang.reset(mixs(r.c.Seed, uint64(s.ID), r.salt, 0x4e57))
	withEntropy(mixs(r.c.Seed, uint64(s.ID), r.salt, 0xb007), func() {
		for i := range l.ev {
			l.ev[i], l.enc[i], l.dec[i], l.kg[i] = l.newEv(), l.newEnc(), l.newDec(), l.newKG()
		}
		if l.c.LogN >= bigLogN {
			return
		}
		l.sets = l.newSets()
		for _, k := range sortedKeys(r.m.keys) {
			v := r.m.keys[k]
			if strings.HasPrefix(k, "crs/") || v < 1 || v > len(l.store[k]) {
				continue
			}
			l.store[k][v-1] = cpKey(l.prist[k][v-1])
			l.put(l.sets, k, l.store[k][v-1])
		}
	})
}
