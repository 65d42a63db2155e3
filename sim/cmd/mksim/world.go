package main

import (
	"fmt"
	"math"
	"math/big"
	"math/cmplx"
	"reflect"
	"sort"
	"strings"

	"mksim/simhook"

	"github.com/ldsec/lattigo/v2/bfv"
	"github.com/ldsec/lattigo/v2/ckks"
	"github.com/ldsec/lattigo/v2/ring"
	"github.com/ldsec/lattigo/v2/rlwe"

	"mk-lattigo/mkbfv"
	"mk-lattigo/mkckks"
	"mk-lattigo/mkrlwe"
)

// Ct is a ciphertext of either scheme.
type Ct struct {
	k *mkckks.Ciphertext
	b *mkbfv.Ciphertext
}

func (c *Ct) raw() *mkrlwe.Ciphertext {
	if c.k != nil {
		return c.k.Ciphertext
	}
	return c.b.Ciphertext
}

func (c *Ct) hash() uint64 {
	h := hRawCt(c.raw())
	if c.k != nil {
		h = mixs(h, math.Float64bits(c.k.Scale))
	}
	return h
}

func (c *Ct) deep() *Ct {
	if c.k != nil {
		return &Ct{k: &mkckks.Ciphertext{Ciphertext: cpRaw(c.k.Ciphertext), Scale: c.k.Scale}}
	}
	return &Ct{b: &mkbfv.Ciphertext{Ciphertext: cpRaw(c.b.Ciphertext)}}
}

func (c *Ct) spans() []span {
	var out []span
	for _, id := range sortedKeys(c.raw().Value) {
		out = polySpans(c.raw().Value[id], out)
	}
	return out
}

// Sets are the key collections a server works with.
type Sets struct {
	sk  *mkrlwe.SecretKeySet
	pk  *mkrlwe.PublicKeySet
	rlk *mkrlwe.RelinearizationKeySet
	blk *mkbfv.RelinearizationKeySet
	rot *mkrlwe.RotationKeySet
	cjk *mkrlwe.ConjugationKeySet
}

// Lib is one deployment of the code under test.
type Lib struct {
	c    *Cfg
	md   *moduli
	ck   mkckks.Parameters
	bf   mkbfv.Parameters
	mk   *mkrlwe.Parameters
	sets *Sets
	// key material as it was generated: name -> versions
	store    map[string][]any
	prist    map[string][]any // deep copies nobody hands to the code under test
	rs       map[string]*mkrlwe.SecretKey
	ev       []*Eval
	enc      []*Enc
	dec      []*Dec
	kg       []*KG
	truth    *Lib // whose secret keys the oracle uses (nil: its own)
	readonly bool // a thread's view: nothing shared is written
	// messages and plaintexts several threads use (nil: everyone has their own)
	common map[string]any
	// harness-side encoders
	encoder ckks.Encoder
	bencode bfv.Encoder
}

type Eval struct {
	k *mkckks.Evaluator
	b *mkbfv.Evaluator
	// made when first needed
	ks *mkrlwe.KeySwitcher
	bs *mkbfv.KeySwitcher
	bc *mkbfv.FastBasisExtender
}
type Enc struct {
	k *mkckks.Encryptor
	b *mkbfv.Encryptor
	// what a caller keeps and overwrites with the next message
	mk *mkckks.Message
	mb *mkbfv.Message
	pk map[int]*ckks.Plaintext
	pb *bfv.Plaintext
}
type Dec struct {
	k *mkckks.Decryptor
	b *mkbfv.Decryptor
}
type KG struct {
	k *mkrlwe.KeyGenerator
	b *mkbfv.KeyGenerator
}

func (l *Lib) isB() bool { return l.c.Scheme == "bfv" }

func (l *Lib) newEv() *Eval {
	if l.isB() {
		return &Eval{b: mkbfv.NewEvaluator(l.bf)}
	}
	return &Eval{k: mkckks.NewEvaluator(l.ck)}
}
func (l *Lib) newEnc() *Enc {
	if l.isB() {
		return &Enc{b: mkbfv.NewEncryptor(l.bf)}
	}
	return &Enc{k: mkckks.NewEncryptor(l.ck)}
}
func (l *Lib) newDec() *Dec {
	if l.isB() {
		return &Dec{b: mkbfv.NewDecryptor(l.bf)}
	}
	return &Dec{k: mkckks.NewDecryptor(l.ck)}
}
func (l *Lib) newKG() *KG {
	if l.isB() {
		g := mkbfv.NewKeyGenerator(l.bf)
		return &KG{b: g, k: g.KeyGenerator}
	}
	return &KG{k: mkrlwe.NewKeyGenerator(l.ck.Parameters)}
}

func (l *Lib) newSets() *Sets {
	s := &Sets{sk: mkrlwe.NewSecretKeySet(), pk: mkrlwe.NewPublicKeyKeySet(), rot: mkrlwe.NewRotationKeySet(), cjk: mkrlwe.NewConjugationKeySet()}
	if l.isB() {
		s.blk = mkbfv.NewRelinearizationKeyKeySet(l.bf)
	} else {
		s.rlk = mkrlwe.NewRelinearizationKeyKeySet(l.ck.Parameters)
	}
	return s
}

func (l *Lib) newEncoders() {
	if l.c.Scheme == "bfv" {
		l.bencode = bfv.NewEncoder(l.md.bfvP)
	} else {
		l.encoder = ckks.NewEncoder(l.md.ckksP)
	}
}

func newLib(c *Cfg) *Lib {
	l := &Lib{c: c, md: c.mods(), store: map[string][]any{}, prist: map[string][]any{}, rs: map[string]*mkrlwe.SecretKey{}}
	if c.Scheme == "bfv" {
		l.bf = mkbfv.NewParametersFromLiteral(mkbfv.ParametersLiteral{LogN: c.LogN, Q: l.md.Q, QMul: l.md.QMul, P: l.md.P, T: l.md.T, Sigma: c.Sigma})
		l.mk = &l.bf.Parameters
	} else {
		l.ck = mkckks.NewParameters(l.md.ckksP)
		l.mk = &l.ck.Parameters
	}
	l.newEncoders()
	l.sets = l.newSets()
	n := max(1, c.NEv)
	for i := 0; i < n; i++ {
		l.ev = append(l.ev, l.newEv())
		l.enc = append(l.enc, l.newEnc())
		l.dec = append(l.dec, l.newDec())
		l.kg = append(l.kg, l.newKG())
	}
	return l
}

func at[T any](xs []T, i int) T {
	i %= len(xs)
	if i < 0 {
		i += len(xs)
	}
	return xs[i]
}

func cpKey(k any) any {
	switch x := k.(type) {
	case *mkrlwe.SecretKey:
		return cpSk(x)
	case *mkrlwe.PublicKey:
		return cpPk(x)
	case *mkrlwe.RelinearizationKey:
		return cpRlk(x)
	case *mkbfv.RelinearizationKey:
		return cpBrlk(x)
	case *mkrlwe.RotationKey:
		return cpRot(x)
	case *mkrlwe.ConjugationKey:
		return cpCjk(x)
	}
	panic("unknown key")
}

func hashKey(k any) uint64 {
	switch x := k.(type) {
	case *mkrlwe.SecretKey:
		return hQP(strh(x.ID), x.Value)
	case *mkrlwe.PublicKey:
		return hQP(hQP(strh(x.ID), x.Value[0]), x.Value[1])
	case *mkrlwe.RelinearizationKey:
		return hRlk(1, x)
	case *mkbfv.RelinearizationKey:
		return hRlk(hRlk(strh(x.ID), x.Value[0]), x.Value[1])
	case *mkrlwe.RotationKey:
		return hSwk(mixs(strh(x.ID), uint64(x.RotIdx)), x.Value)
	case *mkrlwe.ConjugationKey:
		return hSwk(strh(x.ID), x.Value)
	}
	panic("unknown key")
}

func keySpans(k any) []span {
	var out []span
	rl := func(x *mkrlwe.RelinearizationKey) {
		for _, v := range x.Value {
			out = swkSpans(v, out)
		}
	}
	switch x := k.(type) {
	case *mkrlwe.SecretKey:
		out = polySpans(x.Value.P, polySpans(x.Value.Q, out))
	case *mkrlwe.PublicKey:
		for _, v := range x.Value {
			out = polySpans(v.P, polySpans(v.Q, out))
		}
	case *mkrlwe.RelinearizationKey:
		rl(x)
	case *mkbfv.RelinearizationKey:
		rl(x.Value[0])
		rl(x.Value[1])
	case *mkrlwe.RotationKey:
		out = swkSpans(x.Value, out)
	case *mkrlwe.ConjugationKey:
		out = swkSpans(x.Value, out)
	}
	return out
}

// put hands a key to the collections.
func (l *Lib) put(s *Sets, name string, k any) {
	switch x := k.(type) {
	case *mkrlwe.SecretKey:
		s.sk.AddSecretKey(x)
	case *mkrlwe.PublicKey:
		s.pk.AddPublicKey(x)
	case *mkrlwe.RelinearizationKey:
		s.rlk.AddRelinearizationKey(x)
	case *mkbfv.RelinearizationKey:
		s.blk.AddRelinearizationKey(x)
	case *mkrlwe.RotationKey:
		s.rot.AddRotationKey(x)
	case *mkrlwe.ConjugationKey:
		s.cjk.AddConjugationKey(x)
	default:
		panic("unknown key")
	}
}

func keyParts(name string) (kind, id string, idx int) {
	i := strings.IndexByte(name, '/')
	kind = name[:i]
	id = name[i+1:]
	if kind == "rot" {
		j := strings.LastIndexByte(id, '/')
		fmt.Sscan(id[j+1:], &idx)
		id = id[:j]
	}
	return
}

func (l *Lib) del(s *Sets, name string) {
	kind, id, idx := keyParts(name)
	switch kind {
	case "sk":
		s.sk.DelSecretKey(id)
	case "pk":
		s.pk.DelPublicKey(id)
	case "rlk":
		if l.isB() {
			s.blk.DelRelinearizationKey(id)
		} else {
			s.rlk.DelRelinearizationKey(id)
		}
	case "rot":
		s.rot.DelRotationKey(id, uint(idx))
	case "cjk":
		s.cjk.DelConjugationKey(id)
	}
}

func (l *Lib) get(s *Sets, name string) any {
	kind, id, idx := keyParts(name)
	switch kind {
	case "sk":
		return s.sk.GetSecretKey(id)
	case "pk":
		return s.pk.GetPublicKey(id)
	case "rlk":
		if l.isB() {
			return s.blk.GetRelinearizationKey(id)
		}
		return s.rlk.GetRelinearizationKey(id)
	case "rot":
		return s.rot.GetRotationKey(id, uint(idx))
	case "cjk":
		return s.cjk.GetConjugationKey(id)
	}
	panic("unknown key kind")
}

func (l *Lib) remember(name string, k any) {
	l.store[name] = append(l.store[name], k)
	if l.c.LogN >= bigLogN {
		l.prist[name] = append(l.prist[name], k)
		return
	}
	l.prist[name] = append(l.prist[name], cpKey(k))
}

func (l *Lib) genSk(g *KG, id string, kind int) *mkrlwe.SecretKey {
	switch kind {
	case 1:
		return g.k.GenSecretKeyGaussian(id)
	case 0:
		return g.k.GenSecretKey(id)
	}
	if p, ok := distP[kind]; ok {
		return g.k.GenSecretKeyWithDistrib(p, id)
	}
	if hw := sparseHW(l.c, kind); hw > 0 {
		return g.k.GenSecretKeySparse(hw, id)
	}
	return g.k.GenSecretKey(id)
}

func (l *Lib) genRlk(g *KG, sk, r *mkrlwe.SecretKey) any {
	if l.isB() {
		return g.b.GenRelinearizationKey(sk, r)
	}
	return g.k.GenRelinearizationKey(sk, r)
}

func (l *Lib) curSk(m *Model, id string) *mkrlwe.SecretKey {
	n := m.vers["sk/"+id]
	if n == 0 {
		return nil
	}
	return l.store["sk/"+id][n-1].(*mkrlwe.SecretKey)
}

// pristine secret keys of everybody, for the harness's own decryption.
func (l *Lib) trueSks() map[string]*mkrlwe.SecretKey {
	out := map[string]*mkrlwe.SecretKey{}
	if l.truth != nil {
		l = l.truth
	}
	for name, vs := range l.prist {
		if strings.HasPrefix(name, "sk/") {
			out[name[3:]] = vs[len(vs)-1].(*mkrlwe.SecretKey)
		}
	}
	return out
}

// ---- violations ---------------------------------------------------------------------------

// Viol is one observed breach.
type Viol struct {
	Class string `json:"class"`
	Step  int    `json:"step"`
	Op    string `json:"op"`
	Msg   string `json:"msg"`
}

func (v Viol) key() string { return v.Class + ":" + v.Op }

// Opts tells which oracles a run needs.
type Opts struct {
	value  bool // compare every new object with the model
	twin   bool // repeat deterministic operations on fresh objects
	frozen bool // hash everything that must not change
	alias  bool
	hoist  bool // compare hoisted with ordinary
	fresh  bool // encryption freshness and noise
	lookup bool
	keyeq  bool
}

// Run executes one scenario.
type Run struct {
	sc     *Scenario
	o      Opts
	c      *Cfg
	m      *Model
	l      *Lib
	ct     map[int]*Ct
	h      map[int]*mkrlwe.HoistedCiphertext
	hash   map[int]uint64 // frozen content of live objects
	keyH   map[string]uint64
	viol   []Viol
	trace  uint64
	stop   bool
	nval   int
	errH   map[uint64]string
	smp    map[string]*samples
	crsN   int
	c1s    []c1rec
	c1same int             // pairs of encryptions with the same randomising polynomial
	scope  map[string]bool // violation classes that matter; nil: all
	other  []Viol          // breaches of other properties seen on the way
	dbg    bool
	done   int // completed operations
	salt   uint64
	freed  []*Ct  // ciphertexts no longer used, whose storage may be written again
	last   string // what became of the last step
}

func newRun(sc *Scenario, o Opts) *Run {
	r := &Run{sc: sc, o: o, c: sc.Cfg, ct: map[int]*Ct{}, h: map[int]*mkrlwe.HoistedCiphertext{}, hash: map[int]uint64{}, keyH: map[string]uint64{}, errH: map[uint64]string{}, trace: 1}
	return r
}

func (r *Run) setup() {
	pr := NewR(mixs(r.c.Seed, 77))
	simhook.Permute = func(n int) []int { return pr.Perm(n) }
	withEntropy(r.c.Seed, func() { r.l = newLib(r.c) })
	r.m = newModel(r.c)
}

func (r *Run) fail(class string, s *Step, f string, a ...any) {
	if r.scope != nil && !r.scope[class] {
		r.other = append(r.other, Viol{class, s.ID, s.Op, fmt.Sprintf(f, a...)})
		return
	}
	r.viol = append(r.viol, Viol{class, s.ID, s.Op, fmt.Sprintf(f, a...)})
}

func (r *Run) tr(xs ...uint64) { r.trace = mixs(append([]uint64{r.trace}, xs...)...) }

// run executes all steps.
func (r *Run) run() {
	r.setup()
	for i := range r.sc.Steps {
		if r.stop || len(r.viol) > 8 {
			break
		}
		r.step(&r.sc.Steps[i])
	}
	r.finish()
	simhook.Permute = nil
}

func (r *Run) crashAt(s *Step) int64 {
	if s.X > 0 {
		return s.X - 1
	}
	return -1
}

// step executes one step against model and library.
func (r *Run) step(s *Step) {
	r.last = "skip"
	p, ok := r.m.predict(s)
	if !ok {
		stats.skip(s.Op)
		return
	}
	pr := NewR(mixs(r.c.Seed, uint64(s.ID), 5, r.salt))
	simhook.Permute = func(n int) []int { return pr.Perm(n) }
	entWas := curEnt
	curEnt = &Entropy{r: NewR(mixs(r.c.Seed, uint64(s.ID), 0xe17, r.salt)), short: entWas.short}
	defer func() { curEnt = entWas }()
	stats.op(s.Op + variant(s))

	var pre *Ct
	// in some runs fresh objects are consulted rarely: what the library keeps for the whole process stays as it is
	twin := r.o.twin && (r.c.Twin == 0 || NewR(mixs(r.c.Seed, uint64(s.ID), 0x7717)).P(r.c.Twin))
	if twin && p.target != 0 && s.X == 0 && s.Z == 0 && r.ct[p.target] != nil {
		pre = r.ct[p.target].deep()
	}
	var undo func()
	if s.Z > 0 {
		if undo = r.tear(s); undo == nil {
			r.m.apply(s, p, false)
			return
		}
	} else if s.X > 0 && r.c.LogN < bigLogN {
		undo = r.copies(s)
	}
	var res opRes
	oc := guard(r.crashAt(s), func() { res = r.l.do(r, s) })
	if undo != nil {
		undo()
	}
	if oc.crashed != "" {
		stats.fault("crash-in-" + s.Op)
		stats.Sites[oc.crashed]++
	}
	r.tr(strh(s.Op), uint64(s.ID), strh(oc.crashed), b2u(oc.refused != ""))
	if s.X > 0 {
		r.last = "crash"
		// whoever asked is gone; nothing of the attempt counts
		if p.target != 0 {
			delete(r.ct, p.target)
			delete(r.hash, p.target)
		}
		r.m.apply(s, p, false)
		r.restart(s)
		r.afterStep(s, 0, "crash")
		return
	}
	if s.Z > 0 {
		r.last = "garbled"
		r.m.apply(s, p, false)
		switch {
		case strings.HasPrefix(oc.refused, simDeath):
			r.restart(s)
		case oc.refused != "":
			stats.fault("broke-off-" + s.Op)
			stats.Sites[oc.where]++
		}
		r.afterStep(s, 0, "damaged operand")
		return
	}
	if twin {
		r.twin(s, p, oc.refused, res, pre)
		if r.stop {
			return
		}
	}
	if strings.HasPrefix(oc.refused, simDeath) {
		r.fail("panic", s, "%s: %s", s.Op, oc.refused)
		r.stop = true
		return
	}
	if oc.refused != "" {
		stats.check("refusal-seen")
		r.last = "refuse"
		if p.expect == "ok" && !p.err {
			r.fail("panic", s, "%s was refused although everything it needs is there: %s", s.Op, oc.refused)
			r.stop = true
			return
		}
		if p.expect == "refuse" {
			stats.fault("refused-" + s.Op)
		}
		r.m.apply(s, p, false)
		r.afterStep(s, 0, "refusal")
		return
	}
	if p.expect == "refuse" {
		r.fail("silent", s, "%s returned a result although it needs something that is absent", s.Op)
		r.stop = true
		return
	}
	if p.err {
		r.last = "err"
		stats.check("error-reported")
		if res.err == nil {
			r.fail("err", s, "%s reported no error for an impossible request", s.Op)
		}
		r.m.apply(s, p, false)
		r.afterStep(s, 0, "error")
		return
	}
	if res.err != nil {
		r.fail("err", s, "%s reported an error for a possible request: %v", s.Op, res.err)
		r.stop = true
		return
	}
	r.last = "ok"
	if p.expect == "any" {
		if p.out != nil && res.ct != nil {
			r.checkCt(s, p.out, res.ct, "value")
		}
		r.afterStep(s, 0, "any")
		return
	}
	if p.out != nil {
		if p.out.Kind == "h" {
			r.h[p.out.ID] = res.h
			r.hash[p.out.ID] = hHoisted(res.h)
		} else {
			c := res.ct
			if p.target != 0 {
				c = r.ct[p.target]
			}
			r.checkCt(s, p.out, c, "value")
			if r.stop {
				return
			}
			id := p.out.ID
			if p.target != 0 {
				id = p.target
			}
			r.ct[id] = c
			r.hash[id] = c.hash()
			r.tr(r.hash[id])
		}
	}
	if s.Op == "free" {
		if c := r.ct[s.A]; c != nil && len(r.freed) < 24 {
			r.freed = append(r.freed, c)
		}
		delete(r.ct, s.A)
		delete(r.h, s.A)
		delete(r.hash, s.A)
	}
	switch s.Op {
	case "dec":
		r.checkDec(s, res)
	case "look":
		r.checkLook(s, res)
	case "synth":
		r.checkSynth(s, res)
	case "kcopy":
		r.checkKeyCopy(s, res)
	}
	if r.o.hoist && (s.Op == "mulh" || s.Op == "roth") {
		r.vsOrdinary(s, p, res)
	}
	r.done++
	if s.R > 0 && repeatable[s.Op] && p.target == 0 && s.S != "raw" {
		r.again(s, p, res)
	}
	r.m.apply(s, p, true)
	if r.o.fresh && s.Op == "enc" {
		r.noteEnc(s, p.out, res)
	}
	if r.o.keyeq {
		r.keyChecks(s, res)
	}
	id := 0
	if p.out != nil {
		id = p.out.ID
		if p.target != 0 {
			id = p.target
		}
	}
	r.afterStep(s, id, "")
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func variant(s *Step) string {
	switch s.Op {
	case "mulh":
		v := ""
		if s.HA != 0 {
			v += "A"
		}
		if s.HB != 0 {
			v += "B"
		}
		if s.A == s.B {
			v += "sq"
		}
		return "-" + v
	case "enc", "synth", "dec", "mulc", "mulci", "genkey", "addkey", "delkey", "look", "mulp", "kcopy":
		return "-" + s.S
	case "mul":
		if s.A == s.B {
			return "-sq"
		}
	case "mulk", "copy":
		return "-" + s.S
	}
	return ""
}

// opRes is what a library call gave back.
type opRes struct {
	ct  *Ct
	h   *mkrlwe.HoistedCiphertext
	err error
	mc  []complex128
	mi  []int64
	pt  *ring.Poly
	key any
	rr  *mkrlwe.SecretKey // the auxiliary secret of a relinearisation key
	// inputs handed over by the harness, to be compared afterwards
	inC []complex128
	inI []int64
	inP *ring.Poly
	inH uint64
	spn []span
}

// reusing are the operations that can be given storage used before.
var reusing = map[string]bool{"enc": true, "synth": true, "mulp": true, "mulc": true, "resco": true, "copy": true, "fc2": true}

// msgC puts the values into a message: a new one, or the one the caller always uses.
func (e *Enc) msgC(v []complex128, reuse bool) *mkckks.Message {
	if !reuse {
		return &mkckks.Message{Value: v}
	}
	if e.mk == nil {
		e.mk = &mkckks.Message{Value: make([]complex128, 0, max(1<<12, len(v)))}
	}
	e.mk.Value = append(e.mk.Value[:0], v...)
	return e.mk
}

func (e *Enc) msgI(v []int64, reuse bool) *mkbfv.Message {
	if !reuse {
		return &mkbfv.Message{Value: v}
	}
	if e.mb == nil {
		e.mb = &mkbfv.Message{Value: make([]int64, 0, max(1<<12, len(v)))}
	}
	e.mb.Value = append(e.mb.Value[:0], v...)
	return e.mb
}

// ours returns the message or plaintext of a step: one that all threads use, or one made for it.
func ours[T any](l *Lib, s *Step, what string, build func() T) T {
	if l.common != nil && !s.U {
		k := fmt.Sprint(what, *s.V, s.S, s.L, s.F, int(s.G)&1)
		if x, in := l.common[k]; in {
			return x.(T)
		}
		if !l.readonly {
			x := build()
			l.common[k] = x
			return x
		}
	}
	return build()
}

// preparedC and preparedI make the plaintext of an encryption step, maskC the one of a product.
func (l *Lib) preparedC(e *Enc, s *Step, v []complex128) *ckks.Plaintext {
	pt := l.encodeC(e, s.U, v, s.L, s.F)
	if int(s.G)&1 != 0 {
		l.md.ringQ.NTTLvl(s.L, pt.Value, pt.Value)
		pt.Value.IsNTT = true
	}
	return pt
}

func (l *Lib) preparedI(e *Enc, s *Step, v []int64) *bfv.Plaintext {
	pt := l.encodeI(e, s.U, v)
	if int(s.G)&1 != 0 {
		l.md.ringQ.NTT(pt.Value, pt.Value)
		pt.Value.IsNTT = true
	}
	return pt
}

func (l *Lib) maskC(e *Enc, s *Step, v []complex128) *ckks.Plaintext {
	if s.S == "ptx" {
		return l.encodeC(e, s.U, v, s.L, s.F)
	}
	return e.k.EncodeMsgNew(e.msgC(v, s.U))
}

func (l *Lib) encodeC(e *Enc, reuse bool, v []complex128, level int, scale float64) *ckks.Plaintext {
	pt := ckks.NewPlaintext(l.md.ckksP, level, scale)
	if reuse {
		if e.pk == nil {
			e.pk = map[int]*ckks.Plaintext{}
		}
		if old := e.pk[level]; old != nil {
			old.Value.Zero()
			old.Value.IsNTT, old.Scale = pt.Value.IsNTT, scale
			pt = old
		}
		e.pk[level] = pt
	}
	l.encoder.Encode(pt, v, l.c.LogSlots)
	return pt
}

func (l *Lib) encodeI(e *Enc, reuse bool, v []int64) *bfv.Plaintext {
	pt := bfv.NewPlaintext(l.md.bfvP)
	if reuse {
		if e.pb != nil {
			e.pb.Value.Zero()
			e.pb.Value.IsNTT = pt.Value.IsNTT
			pt = e.pb
		}
		e.pb = pt
	}
	l.bencode.EncodeInt(v, pt)
	return pt
}

// receiver hands out a ciphertext to write to: c, or one of its shape that is no longer used.
func (r *Run) receiver(s *Step, c *Ct) *Ct {
	if !s.U {
		return c
	}
	w := c.raw()
	for i := len(r.freed) - 1; i >= 0; i-- {
		o := r.freed[i]
		x := o.raw()
		if !eqIDs(idsOf(x), idsOf(w)) || x.Level() != w.Level() {
			continue
		}
		r.freed = append(r.freed[:i:i], r.freed[i+1:]...)
		stats.fault("freed-ciphertext-reused")
		for id, p := range x.Value {
			p.IsNTT = w.Value[id].IsNTT
		}
		if c.k != nil {
			o.k.Scale = c.k.Scale
		}
		return o
	}
	return c
}

// mulKsw multiplies with the key switcher itself, without an evaluator.
func (l *Lib) mulKsw(ev *Eval, a, b *Ct, how string) *Ct {
	ids := mkrlwe.NewIDSet()
	for _, c := range []*Ct{a, b} {
		for _, id := range idsOf(c.raw()) {
			ids.Add(id)
		}
	}
	if !l.isB() {
		if ev.ks == nil {
			ev.ks = mkrlwe.NewKeySwitcher(l.ck.Parameters)
		}
		out := mkckks.NewCiphertext(l.ck, ids, min(a.raw().Level(), b.raw().Level()), a.k.Scale*b.k.Scale)
		ev.ks.MulAndRelin(a.raw(), b.raw(), l.sets.rlk, out.Ciphertext)
		return &Ct{k: out}
	}
	if ev.bs == nil {
		ks := mkbfv.NewKeySwitcher(l.bf)
		ev.bc = mkbfv.NewFastBasisExtender(l.bf.RingP(), l.bf.RingQ(), l.bf.RingQMul(), l.bf.RingR())
		ev.bs = ks
	}
	lift := func(c *Ct, f func(x, y *ring.Poly)) *mkrlwe.Ciphertext {
		o := &mkrlwe.Ciphertext{Value: map[string]*ring.Poly{}}
		for _, id := range sortedKeys(c.raw().Value) {
			o.Value[id] = l.bf.RingR().NewPoly()
			f(c.raw().Value[id], o.Value[id])
		}
		return o
	}
	ra, rb := lift(a, ev.bc.ModUpQtoR), lift(b, ev.bc.Rescale)
	out := mkbfv.NewCiphertext(l.bf, ids)
	if how == "" {
		ev.bs.MulAndRelinBFV(ra, rb, l.sets.blk, out.Ciphertext)
		return &Ct{b: out}
	}
	hoist := func(c *mkrlwe.Ciphertext, level int) (x, y *mkrlwe.HoistedCiphertext) {
		x, y = mkrlwe.NewHoistedCiphertext(), mkrlwe.NewHoistedCiphertext()
		for _, id := range idsOf(c) {
			x.Value[id], y.Value[id] = mkrlwe.NewSwitchingKey(l.bf.Parameters), mkrlwe.NewSwitchingKey(l.bf.Parameters)
			ev.bs.DecomposeBFV(level, c.Value[id], x.Value[id], y.Value[id])
		}
		return
	}
	var a1, a2, b1, b2 *mkrlwe.HoistedCiphertext
	if how != "hb" {
		a1, a2 = hoist(ra, a.raw().Level())
	}
	if how != "ha" {
		b1, b2 = hoist(rb, b.raw().Level())
	}
	ev.bs.MulAndRelinBFVHoisted(ra, rb, a1, a2, b1, b2, l.sets.blk, out.Ciphertext)
	return &Ct{b: out}
}

// do performs the step on the code under test.
func (l *Lib) do(r *Run, s *Step) (res opRes) {
	m := r.m
	obj := func(i int) *Ct { return r.ct[i] }
	ev := at(l.ev, s.E)
	switch s.Op {
	case "join":
		g := at(l.kg, s.E)
		kind := l.skKind(s.P)
		var sk *mkrlwe.SecretKey
		var pk *mkrlwe.PublicKey
		if s.G == 1 && kind == 0 {
			sk, pk = g.k.GenKeyPair(s.P)
		} else if kind == 4 {
			sk, pk = g.k.GenKeyPairSparse(sparseHW(l.c, kind), s.P)
		} else {
			sk = l.genSk(g, s.P, kind)
			pk = g.k.GenPublicKey(sk)
		}
		keys := map[string]any{"sk/" + s.P: sk, "pk/" + s.P: pk}
		var rr *mkrlwe.SecretKey
		if s.I&1 != 0 {
			rr = g.k.GenSecretKey(s.P)
			keys["rlk/"+s.P] = l.genRlk(g, sk, rr)
		}
		if s.I&2 != 0 {
			tmp := mkrlwe.NewRotationKeySet()
			g.k.GenDefaultRotationKeys(sk, tmp)
			for i := 1; i < l.c.Half(); i *= 2 {
				keys[rotKey(s.P, i)] = tmp.GetRotationKey(s.P, uint(i))
			}
		}
		if s.I&4 != 0 {
			keys["cjk/"+s.P] = g.k.GenConjugationKey(sk)
		}
		if s.X > 0 {
			return
		}
		for _, k := range sortedKeys(m.keys) {
			if kd, id, _ := safeParts(k); id == s.P && (kd == "rlk" || kd == "rot" || kd == "cjk") {
				l.del(l.sets, k)
			}
		}
		l.rs[s.P] = rr
		for _, k := range sortedKeys(keys) {
			l.remember(k, keys[k])
			l.put(l.sets, k, keys[k])
		}
		for id, o := range m.obj {
			if hasID(o.IDs, s.P) {
				delete(r.ct, id)
				delete(r.h, id)
				delete(r.hash, id)
			}
		}
	case "genkey":
		g := at(l.kg, s.E)
		sk := l.curSk(m, s.P)
		var k any
		switch s.S {
		case "rlk":
			rr := g.k.GenSecretKey(s.P)
			k = l.genRlk(g, sk, rr)
			res.rr = rr
			if s.X == 0 && s.Z == 0 && !l.readonly {
				l.rs[s.P] = rr
			}
		case "rot":
			k = g.k.GenRotationKey(s.I, sk)
		case "cjk":
			k = g.k.GenConjugationKey(sk)
		default:
			panic("harness: genkey")
		}
		res.key = k
		if s.X == 0 && s.Z == 0 && !l.readonly {
			l.remember(s.keyName(m), k)
			l.put(l.sets, s.keyName(m), k)
		}
	case "addkey":
		k := s.keyName(m)
		x := l.prist[k][s.L-1]
		if s.G == 0 {
			x = cpKey(x) // arrives over the wire
			l.store[k][s.L-1] = x
		} else {
			x = l.store[k][s.L-1]
		}
		l.put(l.sets, k, x)
	case "delkey":
		l.del(l.sets, s.keyName(m))
	case "look":
		res.key = l.get(l.sets, s.keyName(m))
	case "kcopy":
		switch k := l.get(l.sets, s.keyName(m)).(type) {
		case *mkrlwe.SecretKey:
			res.key = k.CopyNew()
		case *mkrlwe.PublicKey:
			res.key = k.CopyNew()
		}
	case "addcrs":
		l.mk.AddCRS(s.I)
	case "newev":
		l.ev[s.E%len(l.ev)] = l.newEv()
	case "newenc":
		l.enc[s.E%len(l.enc)] = l.newEnc()
	case "newdec":
		l.dec[s.E%len(l.dec)] = l.newDec()
	case "newkg":
		l.kg[s.E%len(l.kg)] = l.newKG()
	case "free":
	case "enc", "synth":
		e := at(l.enc, s.E)
		var pk *mkrlwe.PublicKey
		if s.Op == "synth" {
			pk = l.synthPk(s.P)
		} else {
			pk = l.sets.pk.GetPublicKey(s.P)
		}
		ids := mkrlwe.NewIDSet()
		ids.Add(s.P)
		if l.isB() {
			v := s.V.ints(l.c.N(), l.md.T)
			if s.V.Len > 0 {
				v = v[:min(s.V.Len, len(v))]
			}
			res.inI = append([]int64(nil), v...)
			msg := ours(l, s, "msg", func() *mkbfv.Message { return e.msgI(v, s.U) })
			switch s.S {
			case "over":
				ct := mkbfv.NewCiphertext(l.bf, ids)
				if s.G > 0 {
					ct = mkbfv.NewCiphertextNTT(l.bf, ids)
					for _, id := range sortedKeys(ct.Value) {
						ct.Value[id].IsNTT = s.G > 1
					}
				}
				dirty(ct.Ciphertext, l.md.ringQ, uint64(s.ID))
				ct = r.receiver(s, &Ct{b: ct}).b
				e.b.EncryptMsg(msg, pk, ct)
				res.ct = &Ct{b: ct}
			case "ptx":
				pt := ours(l, s, "pt", func() *bfv.Plaintext { return l.preparedI(e, s, v) })
				res.inP, res.inH = pt.Value, hPoly(0, pt.Value)
				ct := mkbfv.NewCiphertext(l.bf, ids)
				if s.G > 1 {
					ct = mkbfv.NewCiphertextNTT(l.bf, ids)
				}
				ct = r.receiver(s, &Ct{b: ct}).b
				e.b.EncryptPtxt(pt, pk, ct)
				res.ct = &Ct{b: ct}
			default:
				res.ct = &Ct{b: e.b.EncryptMsgNew(msg, pk)}
			}
			if !reflect.DeepEqual(res.inI, msg.Value) {
				r.fail("operand", s, "encryption changed the message it was given")
			}
			return
		}
		v := s.V.complex(l.c.Slots())
		if s.V.Len > 0 {
			v = v[:min(s.V.Len, len(v))]
		}
		in := append([]complex128(nil), v...)
		msg := ours(l, s, "msg", func() *mkckks.Message { return e.msgC(v, s.U) })
		res.inC = v
		switch s.S {
		case "lvl", "over":
			ct := mkckks.NewCiphertext(l.ck, ids, s.L, 1)
			if s.S == "over" {
				dirty(ct.Ciphertext, l.md.ringQ, uint64(s.ID))
			}
			ct = r.receiver(s, &Ct{k: ct}).k
			e.k.EncryptMsg(msg, pk, ct)
			res.ct = &Ct{k: ct}
		case "ptx":
			pt := ours(l, s, "pt", func() *ckks.Plaintext { return l.preparedC(e, s, v) })
			res.inP, res.inH = pt.Value, hPoly(0, pt.Value)
			ct := mkckks.NewCiphertext(l.ck, ids, s.I, 1)
			if s.G > 1 {
				ct.Ciphertext = mkrlwe.NewCiphertextNTT(l.ck.Parameters, ids, s.I)
			}
			ct = r.receiver(s, &Ct{k: ct}).k
			e.k.EncryptPtxt(pt, pk, ct)
			res.ct = &Ct{k: ct}
		default:
			res.ct = &Ct{k: e.k.EncryptMsgNew(msg, pk)}
		}
		for i := range in {
			if in[i] != msg.Value[i] {
				r.fail("operand", s, "encryption changed the message it was given")
				break
			}
		}
	case "copy":
		a := obj(s.A)
		if l.isB() {
			res.ct = &Ct{b: a.b.CopyNew()}
		} else {
			res.ct = &Ct{k: a.k.CopyNew()}
		}
		switch s.S {
		case "pad":
			ids := mkrlwe.NewIDSet()
			ids.Add(s.P)
			res.ct.raw().PadCiphertext(ids)
		case "into":
			res.ct = r.receiver(s, res.ct)
			res.ct.raw().Copy(a.raw())
		}
	case "add":
		if l.isB() {
			res.ct = &Ct{b: ev.b.AddNew(obj(s.A).b, obj(s.B).b)}
		} else {
			res.ct = &Ct{k: ev.k.AddNew(obj(s.A).k, obj(s.B).k)}
		}
	case "sub":
		if l.isB() {
			res.ct = &Ct{b: ev.b.SubNew(obj(s.A).b, obj(s.B).b)}
		} else {
			res.ct = &Ct{k: ev.k.SubNew(obj(s.A).k, obj(s.B).k)}
		}
	case "mul":
		if l.isB() {
			res.ct = &Ct{b: ev.b.MulRelinNew(obj(s.A).b, obj(s.B).b, l.sets.blk)}
		} else {
			res.ct = &Ct{k: ev.k.MulRelinNew(obj(s.A).k, obj(s.B).k, l.sets.rlk)}
		}
	case "mulk":
		res.ct = l.mulKsw(ev, obj(s.A), obj(s.B), s.S)
	case "mulh":
		var ha, hb *mkrlwe.HoistedCiphertext
		if s.HA != 0 {
			ha = r.h[s.HA]
		}
		if s.HB != 0 {
			hb = r.h[s.HB]
		}
		res.ct = &Ct{k: ev.k.MulRelinHoistedNew(obj(s.A).k, obj(s.B).k, ha, hb, l.sets.rlk)}
	case "mulc":
		a := obj(s.A).k
		ids := mkrlwe.NewIDSet()
		for _, id := range idsOf(a.Ciphertext) {
			ids.Add(id)
		}
		out := mkckks.NewCiphertext(l.ck, ids, min(s.L, a.Level()), 1)
		out = r.receiver(s, &Ct{k: out}).k
		ev.k.MultByConst(a, constVal(s.S, s.F, s.G), out)
		res.ct = &Ct{k: out}
	case "mulci":
		ev.k.MultByConst(obj(s.A).k, constVal(s.S, s.F, s.G), obj(s.A).k)
	case "mulp":
		v := s.V.complex(l.c.Slots())
		e := at(l.enc, s.E)
		pt := ours(l, s, "mask", func() *ckks.Plaintext { return l.maskC(e, s, v) })
		res.inP, res.inH = pt.Value, hPoly(0, pt.Value)
		sc := pt.Scale
		res.ct = &Ct{k: ev.k.MulPtxtNew(obj(s.A).k, pt)}
		if pt.Scale != sc {
			r.fail("operand", s, "plaintext scale changed")
		}
	case "resc":
		o, err := ev.k.RescaleNew(scaled(s, obj(s.A).k), s.F)
		res.err = err
		if o != nil {
			res.ct = &Ct{k: o}
		}
	case "resci":
		a := scaled(s, obj(s.A).k)
		res.err = ev.k.Rescale(a, s.F, a)
	case "resco":
		a := scaled(s, obj(s.A).k)
		ids := mkrlwe.NewIDSet()
		for _, id := range idsOf(a.Ciphertext) {
			ids.Add(id)
		}
		out := mkckks.NewCiphertext(l.ck, ids, a.Level()+s.I, 3)
		dirty(out.Ciphertext, l.md.ringQ, uint64(s.ID))
		out = r.receiver(s, &Ct{k: out}).k
		res.err = ev.k.Rescale(a, s.F, out)
		res.ct = &Ct{k: out}
	case "drop":
		res.ct = &Ct{k: ev.k.DropLevelNew(obj(s.A).k, s.I)}
	case "dropi":
		ev.k.DropLevel(obj(s.A).k, s.I)
	case "rot":
		if l.isB() {
			res.ct = &Ct{b: ev.b.RotateNew(obj(s.A).b, s.I, l.sets.rot)}
		} else {
			res.ct = &Ct{k: ev.k.RotateNew(obj(s.A).k, s.I, l.sets.rot)}
		}
	case "roth":
		res.ct = &Ct{k: ev.k.RotateHoistedNew(obj(s.A).k, s.I, r.h[s.HA], l.sets.rot)}
	case "conj":
		if l.isB() {
			res.ct = &Ct{b: ev.b.ConjugateNew(obj(s.A).b, l.sets.cjk)}
		} else {
			res.ct = &Ct{k: ev.k.ConjugateNew(obj(s.A).k, l.sets.cjk)}
		}
	case "conv", "fc1", "fc2":
		res.ct = l.doLayer(r, s, &res)
	case "hoist":
		res.h = ev.k.HoistedForm(obj(s.A).k)
	case "dec":
		set := l.sets.sk
		if s.S == "miss" || s.S == "only" {
			set = mkrlwe.NewSecretKeySet()
			for _, id := range sortedKeys(l.sets.sk.Value) {
				if s.S == "miss" && id == s.P || s.S == "only" && !hasID(idsOf(obj(s.A).raw()), id) {
					continue
				}
				set.AddSecretKey(l.sets.sk.Value[id])
			}
		}
		d := at(l.dec, s.E)
		if l.isB() {
			res.mi = d.b.Decrypt(obj(s.A).b, set).Value
		} else if s.S == "raw" {
			pt := rlwe.NewPlaintext(l.ck.Parameters.Parameters, s.L)
			pt.Value.IsNTT = s.G == 1
			d.k.Decryptor.Decrypt(obj(s.A).k.Ciphertext, set, pt)
			res.pt = pt.Value
		} else {
			res.mc = d.k.Decrypt(obj(s.A).k, set).Value
		}
	case "pdec", "pdeci":
		sk := l.curSk(m, s.P)
		d := at(l.dec, s.E)
		c := obj(s.A)
		if s.Op == "pdec" {
			if l.isB() {
				c = &Ct{b: c.b.CopyNew()}
			} else {
				c = &Ct{k: c.k.CopyNew()}
			}
		}
		if l.isB() {
			d.b.PartialDecrypt(c.b, sk)
		} else {
			d.k.PartialDecrypt(c.k, sk)
		}
		res.ct = c
	default:
		panic("harness: unknown step " + s.Op)
	}
	return
}

func safeParts(name string) (string, string, int) {
	if strings.HasPrefix(name, "crs/") {
		return "crs", "", 0
	}
	return keyParts(name)
}

// dirty fills a ciphertext with reduced rubbish: a receiver that has been used before.
func dirty(ct *mkrlwe.Ciphertext, rq *ring.Ring, seed uint64) {
	r := NewR(mixs(seed, 0xd1e7))
	for _, id := range sortedKeys(ct.Value) {
		for i, row := range ct.Value[id].Coeffs {
			for j := range row {
				row[j] = r.U64() % rq.Modulus[i]
			}
		}
	}
}

// ---- judging an object against the model ----------------------------------------------------

func (r *Run) checkCt(s *Step, o *MObj, c *Ct, class string) {
	if c == nil || c.raw() == nil {
		r.fail("form", s, "no result")
		r.stop = true
		return
	}
	if w := wellFormed(r.l.md.ringQ, c.raw()); w != "" {
		r.fail("form", s, "malformed result: %s", w)
		r.stop = true
		return
	}
	if got := idsOf(c.raw()); !eqIDs(got, o.IDs) {
		r.fail("ids", s, "result involves %q, expected %q", got, o.IDs)
		r.stop = true
		return
	}
	lv := len(c.raw().Value["0"].Coeffs) - 1
	if lv != o.Level {
		r.fail("level", s, "result is at level %d, expected %d", lv, o.Level)
		r.stop = true
	}
	if c.k != nil && !(math.Abs(c.k.Scale/o.Scale-1) < 1e-9) {
		r.fail("scale", s, "recorded scale is %g, expected %g", c.k.Scale, o.Scale)
		r.stop = true
	}
	if r.o.value {
		r.checkValue(s, o, c, class)
	}
}

func cmax(a, b []complex128) (float64, int) {
	m, k := 0.0, 0
	for i := range a {
		d := cmplx.Abs(a[i] - b[i])
		if d > m || math.IsNaN(d) {
			m, k = d, i
			if math.IsNaN(d) {
				return math.Inf(1), i
			}
		}
	}
	return m, k
}

func (r *Run) checkValue(s *Step, o *MObj, c *Ct, class string) {
	stats.check("value")
	r.nval++
	ph, w := phase(r.l.md.ringQ, c.raw(), r.l.trueSks())
	if w != "" {
		r.fail("ids", s, "%s", w)
		r.stop = true
		return
	}
	if c.k != nil {
		got := decodeSlots(r.l, ph, c.k.Scale)
		d, i := cmax(got, o.V)
		if o.E > 0 {
			stats.rat("ckks-"+s.Op, d/o.E)
		}
		if r.dbg {
			fmt.Printf("  step %d %s: level %d scale %g values up to %.3g, error %.3g, bound %.3g (%.3f)\n", s.ID, s.Op, o.Level, o.Scale, o.mag(), d, o.E, d/o.E)
		}
		if !(d <= o.E) {
			r.fail(class, s, "slot %d holds %v, expected %v (error %.3g, bound %.3g, level %d, parties %d)", i, got[i], o.V[i], d, o.E, o.Level, len(o.IDs))
			r.stop = true
		}
		return
	}
	// relative noise of every coefficient
	worst := r.bfvNoise(ph, o.M)
	bound := kTail * o.W
	stats.rat("bfv-"+s.Op, worst/bound)
	if worst > bound {
		cl := "noise"
		if worst > 0.45 {
			cl = class
		}
		r.fail(cl, s, "noise is 2^%.1f of the decryption threshold's double, predicted at most 2^%.1f (parties %d)", math.Log2(worst), math.Log2(bound), len(o.IDs))
		r.stop = true
	}
}

// bfvNoise returns max |t*phase - Q*m| / (t*Q) * t = the relative noise whose limit is 1/2.
func (r *Run) bfvNoise(ph *ring.Poly, msg []int64) float64 {
	l := r.l
	rt := bfv.NewPlaintextRingT(l.md.bfvP)
	v := make([]int64, len(msg))
	copy(v, msg)
	l.bencode.EncodeIntRingT(v, rt)
	Q := modQ(l.md.ringQ, len(ph.Coeffs)-1)
	T := new(big.Int).SetUint64(l.md.T)
	TQ := new(big.Int).Mul(Q, T)
	half := new(big.Int).Rsh(TQ, 1)
	worst := 0.0
	qf, _ := new(big.Float).SetInt(Q).Float64()
	for i, x := range bigCoeffs(l.md.ringQ, ph) {
		y := new(big.Int).Mul(x, T)
		y.Sub(y, new(big.Int).Mul(Q, new(big.Int).SetUint64(rt.Value.Coeffs[0][i]%l.md.T)))
		y.Mod(y, TQ)
		if y.Cmp(half) > 0 {
			y.Sub(y, TQ)
		}
		f, _ := new(big.Float).SetInt(y).Float64()
		f = math.Abs(f) / qf
		if f > worst {
			worst = f
		}
	}
	return worst
}

func (r *Run) checkDec(s *Step, res opRes) {
	o := r.m.obj[s.A]
	stats.check("decrypt")
	switch {
	case res.mi != nil:
		for i := range o.M {
			if i >= len(res.mi) || r.m.modT(res.mi[i]) != o.M[i] {
				r.fail("decrypt", s, "joint decryption gives a wrong integer at position %d", i)
				r.stop = true
				break
			}
		}
		h := uint64(7)
		for _, x := range res.mi {
			h = mixs(h, uint64(x))
		}
		r.tr(h)
	case res.pt != nil:
		if res.pt.IsNTT != (s.G == 1) {
			r.fail("decrypt", s, "the plaintext's domain is not the one asked for")
		}
		if res.pt.IsNTT {
			r.l.md.ringQ.InvNTTLvl(len(res.pt.Coeffs)-1, res.pt, res.pt)
		}
		if len(res.pt.Coeffs)-1 != min(s.L, o.Level) {
			r.fail("decrypt", s, "plaintext is at level %d, expected %d", len(res.pt.Coeffs)-1, min(s.L, o.Level))
			return
		}
		got := decodeSlots(r.l, res.pt, o.Scale)
		if d, i := cmax(got, o.V); !(d <= o.E) {
			r.fail("decrypt", s, "joint decryption gives %v in slot %d, expected %v (bound %.3g)", got[i], i, o.V[i], o.E)
			r.stop = true
		}
	default:
		if len(res.mc) != len(o.V) {
			r.fail("decrypt", s, "joint decryption returns %d values, expected %d", len(res.mc), len(o.V))
			r.stop = true
			return
		}
		h := uint64(7)
		for _, x := range res.mc {
			h = mixs(h, math.Float64bits(real(x)), math.Float64bits(imag(x)))
		}
		r.tr(h)
		if d, i := cmax(res.mc, o.V); !(d <= o.E) {
			r.fail("decrypt", s, "joint decryption gives %v in slot %d, expected %v (error %.3g, bound %.3g)", res.mc[i], i, o.V[i], d, o.E)
			r.stop = true
		}
		r.checkClass(s, o, res.mc)
	}
}

func (r *Run) checkLook(s *Step, res opRes) {
	k := s.keyName(r.m)
	v := r.m.keys[k]
	stats.check("lookup")
	if hashKey(res.key) != hashKey(r.l.prist[k][v-1]) {
		r.fail("lookup", s, "lookup of %s does not give the key added last", k)
	}
}

// afterStep checks that nothing changed that must not have, and shared storage.
func (r *Run) afterStep(s *Step, made int, how string) {
	if r.o.frozen {
		stats.check("frozen")
		ids := make([]int, 0, len(r.hash))
		for id := range r.hash {
			ids = append(ids, id)
		}
		sort.Ints(ids)
		for _, id := range ids {
			var h uint64
			if c := r.ct[id]; c != nil {
				h = c.hash()
			} else if x := r.h[id]; x != nil {
				h = hHoisted(x)
			} else {
				continue
			}
			if h != r.hash[id] {
				r.fail("operand", s, "%s%s changed object %d it must leave alone", s.Op, brack(how), id)
				r.hash[id] = h
				r.stop = true
			}
		}
		r.checkKeys(s, how)
	}
	if r.o.alias && made != 0 {
		r.checkAlias(s, made)
	}
}

func brack(h string) string {
	if h == "" {
		return ""
	}
	return " (" + h + ")"
}

// checkKeyCopy looks at the copy of a key: equal to it and with storage of its own. The holder of the
// copy then erases it; the checks that follow see whether the original is still what it was.
func (r *Run) checkKeyCopy(s *Step, res opRes) {
	stats.check("key-copy")
	k := s.keyName(r.m)
	v := r.m.keys[k]
	if v < 1 || v > len(r.l.prist[k]) {
		return
	}
	if hashKey(res.key) != hashKey(r.l.prist[k][v-1]) {
		r.fail("keys", s, "the copy of key %s differs from it", k)
		return
	}
	if r.o.alias && overlap(keySpans(res.key), r.internals()) {
		r.fail("alias", s, "the copy of key %s shares storage with a library object or key", k)
		return
	}
	wipe := func(q rlwe.PolyQP) {
		for _, p := range []*ring.Poly{q.Q, q.P} {
			if p != nil {
				for _, row := range p.Coeffs {
					clear(row)
				}
			}
		}
	}
	switch x := res.key.(type) {
	case *mkrlwe.SecretKey:
		wipe(x.Value)
		x.ID = "erased"
	case *mkrlwe.PublicKey:
		wipe(x.Value[0])
		wipe(x.Value[1])
		x.ID = "erased"
	}
}

// checkKeys compares every key in the collections and the reference string with what was put there.
func (r *Run) checkKeys(s *Step, how string) {
	l := r.l
	for _, k := range sortedKeys(r.m.keys) {
		if strings.HasPrefix(k, "crs/") {
			continue
		}
		v := r.m.keys[k]
		if v < 1 || v > len(l.prist[k]) {
			continue
		}
		hk := k + "#" + itoa(v)
		want, ok := r.keyH[hk]
		if !ok {
			want = hashKey(l.prist[k][v-1])
			r.keyH[hk] = want
		}
		var got uint64
		oc := guard(-1, func() { got = hashKey(l.get(l.sets, k)) })
		if !oc.ok() {
			r.fail("lookup", s, "key %s has disappeared: %s", k, oc.refused)
			r.stop = true
			return
		}
		if got != want {
			r.fail("keys", s, "%s%s changed key %s", s.Op, brack(how), k)
			r.stop = true
			return
		}
	}
	idx := make([]int, 0, len(l.mk.CRS))
	for k := range l.mk.CRS {
		idx = append(idx, k)
	}
	sort.Ints(idx)
	for _, k := range idx {
		h := hSwk(0, l.mk.CRS[k])
		hk := "crs" + itoa(k)
		want, ok := r.keyH[hk]
		if !ok {
			r.keyH[hk] = h
			if r.o.keyeq {
				r.freshCRS(s, k)
			}
		} else if want != h {
			r.fail("keys", s, "%s%s changed the common reference string of index %d", s.Op, brack(how), k)
			r.keyH[hk] = h
			r.stop = true
		}
	}
}

// ---- shared storage --------------------------------------------------------------------------

var skipTypes = map[reflect.Type]bool{
	reflect.TypeOf(ring.Ring{}): true,
	reflect.TypeOf(big.Int{}):   true,
}

// walkSpans collects the storage of every coefficient slice reachable from v.
func walkSpans(v reflect.Value, seen map[uintptr]bool, out *[]span, depth int) {
	if depth > 12 {
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() || seen[v.Pointer()] || skipTypes[v.Type().Elem()] {
			return
		}
		seen[v.Pointer()] = true
		walkSpans(v.Elem(), seen, out, depth+1)
	case reflect.Interface:
		if !v.IsNil() {
			walkSpans(v.Elem(), seen, out, depth+1)
		}
	case reflect.Struct:
		if skipTypes[v.Type()] {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			walkSpans(v.Field(i), seen, out, depth+1)
		}
	case reflect.Map:
		it := v.MapRange()
		for it.Next() {
			walkSpans(it.Value(), seen, out, depth+1)
		}
	case reflect.Array:
		if k := v.Type().Elem().Kind(); k == reflect.Uint64 || k == reflect.Uint8 {
			return
		}
		for i := 0; i < v.Len(); i++ {
			walkSpans(v.Index(i), seen, out, depth+1)
		}
	case reflect.Slice:
		if v.Len() == 0 {
			return
		}
		switch v.Type().Elem().Kind() {
		case reflect.Uint64, reflect.Float64, reflect.Int64, reflect.Complex128:
			b := v.Pointer()
			*out = append(*out, span{b, b + uintptr(v.Len())*v.Type().Elem().Size()})
		case reflect.Slice, reflect.Ptr, reflect.Struct, reflect.Interface, reflect.Array:
			for i := 0; i < v.Len(); i++ {
				walkSpans(v.Index(i), seen, out, depth+1)
			}
		}
	}
}

func (r *Run) internals() []span {
	var out []span
	seen := map[uintptr]bool{}
	l := r.l
	w := func(x any) { walkSpans(reflect.ValueOf(x), seen, &out, 0) }
	for _, e := range l.ev {
		w(e)
	}
	for _, e := range l.enc {
		w(e)
	}
	for _, e := range l.dec {
		w(e)
	}
	for _, e := range l.kg {
		w(e)
	}
	w(l.sets)
	w(l.mk)
	return out
}

func (r *Run) checkAlias(s *Step, made int) {
	stats.check("alias")
	var mine []span
	if c := r.ct[made]; c != nil {
		mine = c.spans()
		// components of one ciphertext must not share storage either
		for i := range mine {
			for j := i + 1; j < len(mine) && j < i+64; j++ {
				if mine[i].lo < mine[j].hi && mine[j].lo < mine[i].hi {
					r.fail("alias", s, "two rows of the result of %s share storage", s.Op)
					return
				}
			}
		}
	} else if h := r.h[made]; h != nil {
		for _, id := range sortedKeys(h.Value) {
			mine = swkSpans(h.Value[id], mine)
		}
	}
	if len(mine) == 0 {
		return
	}
	for id, c := range r.ct {
		if id != made && overlap(mine, c.spans()) {
			r.fail("alias", s, "result of %s shares storage with object %d", s.Op, id)
			return
		}
	}
	for id, h := range r.h {
		if id == made {
			continue
		}
		var hs []span
		for _, k := range h.Value {
			hs = swkSpans(k, hs)
		}
		if overlap(mine, hs) {
			r.fail("alias", s, "result of %s shares storage with hoisted form %d", s.Op, id)
			return
		}
	}
	if overlap(mine, r.internals()) {
		r.fail("alias", s, "result of %s shares storage with a library object or key", s.Op)
	}
}

// ---- fresh twin --------------------------------------------------------------------------------

// fresh builds a deployment twin that shares nothing mutable with l: new evaluators, new
// collections holding pristine copies of the current keys, the same reference string.
func (r *Run) freshLib() *Lib {
	l := r.l
	t := &Lib{c: l.c, md: l.md, ck: l.ck, bf: l.bf, store: l.prist, prist: l.prist, encoder: l.encoder, bencode: l.bencode}
	if l.isB() {
		t.mk = &t.bf.Parameters
	} else {
		t.mk = &t.ck.Parameters
	}
	t.sets = t.newSets()
	for _, k := range sortedKeys(r.m.keys) {
		if strings.HasPrefix(k, "crs/") {
			continue
		}
		if v := r.m.keys[k]; v > 0 && v <= len(l.prist[k]) {
			t.put(t.sets, k, l.prist[k][v-1])
		}
	}
	return t
}

var twinOps = map[string]bool{"add": true, "sub": true, "mul": true, "mulh": true, "mulk": true, "mulc": true, "mulp": true, "resc": true, "resco": true,
	"drop": true, "rot": true, "roth": true, "conj": true, "hoist": true, "copy": true, "conv": true, "fc1": true, "fc2": true, "dec": true, "pdec": true,
	"mulci": true, "resci": true, "dropi": true, "pdeci": true, "enc": true, "genkey": true}

// twin repeats an operation on newly created objects, on copies of its operands, under
// another iteration order. The outcome must be the same: refused or not, reported as an error
// or not, and equal as ring elements. Randomised operations must be right on both or on neither.
// pre is the target of an in-place operation as it was before.
func (r *Run) twin(s *Step, p pred, refused string, res opRes, pre *Ct) {
	if !twinOps[s.Op] || p.target != 0 && pre == nil {
		return
	}
	random := s.Op == "enc" || s.Op == "genkey"
	if random && refused == "" && r.sound(s, p, res) {
		return
	}
	t := r.freshLib()
	t.readonly = true
	tr := &Run{sc: r.sc, o: Opts{}, c: r.c, m: r.m, l: t, ct: map[int]*Ct{}, h: map[int]*mkrlwe.HoistedCiphertext{}, hash: map[int]uint64{}}
	for _, id := range s.operands() {
		if c := r.ct[id]; c != nil {
			tr.ct[id] = c.deep()
		}
		if h := r.h[id]; h != nil {
			tr.h[id] = cpHoisted(h)
		}
	}
	if pre != nil {
		tr.ct[p.target] = pre
	}
	pr := NewR(mixs(r.c.Seed, uint64(s.ID), 6))
	simhook.Permute = func(n int) []int { return pr.Perm(n) }
	var tres opRes
	oc := guard(-1, func() {
		t.ev = []*Eval{t.newEv()}
		switch s.Op {
		case "dec", "pdec", "pdeci":
			t.dec = []*Dec{t.newDec()}
		case "mulp", "fc2", "enc":
			t.enc = []*Enc{t.newEnc()}
		case "genkey":
			t.kg = []*KG{t.newKG()}
		}
		s2 := *s
		s2.E = 0
		tres = t.do(tr, &s2)
	})
	stats.check("twin")
	bad := ""
	switch {
	case refused == "" && oc.refused != "":
		bad = fmt.Sprintf("a new object refuses %s (%s), the used one performed it", s.Op, oc.refused)
	case refused != "" && oc.refused == "":
		bad = fmt.Sprintf("the used object refuses %s (%s), a new one performs it", s.Op, refused)
	case refused == "" && (res.err == nil) != (tres.err == nil):
		bad = fmt.Sprintf("%s on used objects reports %v, on new ones %v", s.Op, res.err, tres.err)
	case refused == "" && random:
		if r.sound(s, p, tres) {
			bad = fmt.Sprintf("the outcome of %s is wrong on the used object and right on a new one", s.Op)
		}
	}
	if bad != "" {
		r.fail("history", s, "%s", bad)
		r.stop = true
		return
	}
	if refused != "" || random || res.err != nil || p.out == nil && s.Op != "dec" {
		return
	}
	if p.target != 0 {
		res.ct, tres.ct = r.ct[p.target], tr.ct[p.target]
	}
	diff := r.differ(p, res, tres)
	if diff != "" {
		r.fail("history", s, "%s on used objects and on new ones disagree: %s", s.Op, diff)
		r.stop = true
	}
}

// differ compares two results of one deterministic operation.
func (r *Run) differ(p pred, res, tres opRes) string {
	rq := r.l.md.ringQ
	diff := ""
	switch {
	case res.ct != nil:
		diff = equalCt(rq, res.ct.raw(), tres.ct.raw())
		if diff == "" && res.ct.k != nil && res.ct.k.Scale != tres.ct.k.Scale {
			diff = "different scales"
		}
	case res.h != nil:
		diff = equalHoisted(res.h, tres.h, rq, r.l.md.ringP, int(r.m.beta(p.out.Level)), p.out.Level)
	case res.mi != nil:
		if !reflect.DeepEqual(res.mi, tres.mi) {
			diff = "different messages"
		}
	case res.mc != nil:
		if len(res.mc) != len(tres.mc) {
			diff = "different message lengths"
		}
		for i := range res.mc {
			if diff == "" && res.mc[i] != tres.mc[i] {
				diff = "different messages"
			}
		}
	}
	return diff
}

// repeated operations: everything the library computes from its arguments alone comes out the same every time, and what is
// drawn is drawn afresh every time.
var repeatable = map[string]bool{"synth": true, "genkey": true, "add": true, "sub": true, "mul": true, "mulk": true, "mulh": true, "mulc": true, "mulp": true,
	"resc": true, "drop": true, "rot": true, "roth": true, "conj": true, "hoist": true, "copy": true, "dec": true}

// again performs a step that succeeded s.R more times.
func (r *Run) again(s *Step, p pred, res opRes) {
	class := "value"
	if r.o.twin {
		class = "history"
	}
	was := r.l.readonly
	r.l.readonly = true
	defer func() { r.l.readonly = was }()
	for i := 0; i < s.R && len(r.viol) == 0; i++ {
		var x opRes
		oc := guard(-1, func() { x = r.l.do(r, s) })
		stats.check("repeated")
		switch {
		case strings.HasPrefix(oc.refused, simDeath):
			r.fail("panic", s, "%s: %s", s.Op, oc.refused)
		case oc.refused != "":
			if class == "value" {
				class = "panic"
			}
			r.fail(class, s, "%s is refused (%s) the %dth time it is asked for", s.Op, oc.refused, i+2)
		case s.Op == "synth":
			r.checkSynth(s, x)
		case s.Op == "genkey":
			if r.o.keyeq {
				r.checkOneKey(s, s.S+"/"+s.P, x.key, r.l.curSk(r.m, s.P), x.rr, int64(6*r.l.c.Sigma)+1)
			}
		default:
			d := ""
			if (x.err == nil) != (res.err == nil) {
				d = "different errors"
			} else if res.err == nil {
				d = r.differ(p, res, x)
			}
			if d != "" {
				r.fail(class, s, "%s gives another result the %dth time it is asked for: %s", s.Op, i+2, d)
			}
		}
	}
	r.stop = r.stop || len(r.viol) > 0
}

// sound tells whether a randomised operation gave what it should.
func (r *Run) sound(s *Step, p pred, res opRes) bool {
	q := &Run{sc: r.sc, o: Opts{value: true}, c: r.c, m: r.m, l: r.l, errH: map[uint64]string{}}
	switch s.Op {
	case "enc":
		if p.out != nil {
			q.checkCt(s, p.out, res.ct, "value")
		}
	case "genkey":
		if res.key == nil {
			return true
		}
		rr := r.l.rs[s.P]
		if res.rr != nil {
			rr = res.rr
		}
		q.checkOneKey(s, s.S+"/"+s.P, res.key, r.l.curSk(r.m, s.P), rr, int64(6*r.c.Sigma)+1)
	}
	return len(q.viol) == 0
}

// vsOrdinary compares a hoisted operation with the ordinary one.
func (r *Run) vsOrdinary(s *Step, p pred, res opRes) {
	s2 := *s
	s2.HA, s2.HB = 0, 0
	s2.Op = map[string]string{"mulh": "mul", "roth": "rot"}[s.Op]
	var ores opRes
	oc := guard(-1, func() { ores = r.l.do(r, &s2) })
	stats.check("hoisted-vs-ordinary")
	if !oc.ok() {
		r.fail("hoist", s, "the ordinary form of %s was refused (%s), the hoisted one was not", s.Op, oc.refused)
		return
	}
	a, b := res.ct, ores.ct
	if !eqIDs(idsOf(a.raw()), idsOf(b.raw())) {
		r.fail("hoist", s, "hoisted and ordinary %s involve different parties", s2.Op)
		return
	}
	if a.raw().Level() != b.raw().Level() || math.Abs(a.k.Scale/b.k.Scale-1) > 1e-9 {
		r.fail("hoist", s, "hoisted %s gives level %d scale %g, ordinary level %d scale %g", s2.Op, a.raw().Level(), a.k.Scale, b.raw().Level(), b.k.Scale)
		return
	}
	pa, _ := phase(r.l.md.ringQ, a.raw(), r.l.trueSks())
	pb, _ := phase(r.l.md.ringQ, b.raw(), r.l.trueSks())
	d, i := cmax(decodeSlots(r.l, pa, a.k.Scale), decodeSlots(r.l, pb, b.k.Scale))
	if !(d <= 2*p.out.E) {
		r.fail("hoist", s, "hoisted and ordinary %s differ by %.3g in slot %d (bound %.3g)", s2.Op, d, i, 2*p.out.E)
		r.stop = true
	}
}

func (r *Run) finish() {
	if r.o.fresh && !r.stop {
		r.encStats()
	}
	if r.o.keyeq && !r.stop {
		r.keyStats()
	}
}

// scaled is the operand of a rescaling: the ciphertext itself, or one that carries no scale.
func scaled(s *Step, a *mkckks.Ciphertext) *mkckks.Ciphertext {
	if s.S != "zero" {
		return a
	}
	b := *a
	b.Scale = 0
	return &b
}
