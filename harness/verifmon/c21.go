package main

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"hash"
	"math/big"
	"reflect"

	"github.com/sp301415/ringo-snark/buckler"
	"github.com/sp301415/ringo-snark/jindo"
	"github.com/sp301415/ringo-snark/math/bignum"
	"github.com/sp301415/ringo-snark/math/bigpoly"
)

func init() { registry["C21"] = casesC21 }

// snap returns a digest of everything reachable from the arguments; slices are followed up to their capacity
// when full is set, so that writes behind the end of a caller's slice are seen.
func snap(full bool, xs ...any) string {
	h := sha256.New()
	for _, x := range xs {
		snapVal(h, reflect.ValueOf(x), full, 0)
	}
	return hex.EncodeToString(h.Sum(nil)[:12])
}

func snapVal(h hash.Hash, v reflect.Value, full bool, depth int) {
	var b [9]byte
	put := func(tag byte, x uint64) {
		b[0] = tag
		binary.LittleEndian.PutUint64(b[1:], x)
		h.Write(b[:])
	}
	if depth > 40 {
		panic("snap: too deep")
	}
	switch v.Kind() {
	case reflect.Invalid:
		put('0', 0)
	case reflect.Bool:
		if v.Bool() {
			put('b', 1)
		} else {
			put('b', 0)
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		put('i', uint64(v.Int()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		put('u', v.Uint())
	case reflect.String:
		put('s', uint64(v.Len()))
		h.Write([]byte(v.String()))
	case reflect.Pointer, reflect.Interface:
		if v.IsNil() {
			put('n', 0)
			return
		}
		snapVal(h, v.Elem(), full, depth+1)
	case reflect.Struct:
		put('t', uint64(v.NumField()))
		for i := 0; i < v.NumField(); i++ {
			snapVal(h, v.Field(i), full, depth+1)
		}
	case reflect.Slice:
		if v.IsNil() {
			put('N', 0)
			return
		}
		put('l', uint64(v.Len()))
		if full {
			v = v.Slice(0, v.Cap())
			put('c', uint64(v.Len()))
		}
		fallthrough
	case reflect.Array:
		if v.Kind() == reflect.Array {
			put('a', uint64(v.Len()))
		}
		if v.Len() > 0 && v.Type().Elem().Kind() == reflect.Uint64 {
			buf := make([]byte, 0, 8*v.Len())
			for i := 0; i < v.Len(); i++ {
				buf = binary.LittleEndian.AppendUint64(buf, v.Index(i).Uint())
			}
			h.Write(buf)
			return
		}
		for i := 0; i < v.Len(); i++ {
			snapVal(h, v.Index(i), full, depth+1)
		}
	case reflect.Func:
		put('f', 0)
	default:
		panic("snap: " + v.Kind().String())
	}
}

// watch remembers digests of values that must never change.
type watch struct {
	t    *T
	what string
	list []watched
}

type watched struct {
	name, d string
	full    bool
	xs      []any
}

func (w *watch) keep(name string, full bool, xs ...any) {
	w.list = append(w.list, watched{name, snap(full, xs...), full, xs})
}

func (w *watch) check(when string) {
	for i := range w.list {
		k := &w.list[i]
		w.t.N("values_compared", 1)
		if d := snap(k.full, k.xs...); d != k.d {
			w.t.Viol("disturbed", "%s: %s changed during %s", w.what, k.name, when)
			k.d = d
		}
	}
}

// during demands that f leaves the arguments as they are.
func (w *watch) during(name string, full bool, f func(), xs ...any) {
	d := snap(full, xs...)
	f()
	w.t.N("values_compared", 1)
	if snap(full, xs...) != d {
		w.t.Viol("disturbed", "%s: %s changed its arguments", w.what, name)
	}
}

// ---- commitment scheme

type openRec[E bignum.Uint[E]] struct {
	cs []committed[E]
	x  E
	y  []E
	pf *jindo.Proof
}

// pcsHist runs a random history of calls on one prover and one verifier.
func (s *suite[E]) pcsHist(t *T, n, b, k int) {
	crs := []byte("history")
	p := s.newPCS(n, b, crs)
	w := &watch{t: t, what: cfgStr(s.name, n, b)}
	for i := range crs { // the reference string belongs to the caller
		crs[i] ^= 0x55
	}
	freshP := func() *jindo.Prover[E] { return jindo.NewProver[E](p.params, []byte("history")) }
	freshV := func() *jindo.Verifier[E] { return jindo.NewVerifier[E](p.params, []byte("history")) }
	prv, vrf := p.prv, p.vrf
	vOther := freshV()
	var pool []committed[E]
	var recs []openRec[E]
	ls := lengths(p.params, t.R)
	hist := ""
	commit := func() {
		l := ls[t.R.Intn(len(ls))]
		// the polynomial is part of a larger array
		big := s.rndv(t.R, l+5)
		copy(big[2:], s.polyPattern(t.R, l, polyPatterns[t.R.Intn(len(polyPatterns))], p.params.Base(), p.params.Exp()))
		v := big[2 : 2+l]
		var c committed[E]
		w.during("Commit", true, func() {
			com, op := prv.Commit(v)
			c = committed[E]{v, com, op}
		}, v, big)
		pool = append(pool, c)
		w.keep(fmt.Sprintf("polynomial %d", len(pool)), true, big)
		w.keep(fmt.Sprintf("commitment %d", len(pool)), false, c.com)
		w.keep(fmt.Sprintf("opening %d", len(pool)), false, c.open)
	}
	open := func() {
		cs := make([]committed[E], b)
		for i := range cs {
			cs[i] = pool[t.R.Intn(len(pool))]
		}
		r := openRec[E]{cs: cs, x: s.point(t.R, t.R.Intn(16))}
		w.during("Evaluate", true, func() { r.y, r.pf = evalWith(prv, r.x, cs) }, r.x)
		for i, e := range s.expEvals(cs, r.x) {
			if bi(r.y[i]).Cmp(e) != 0 {
				t.Viol("history", "%s: evaluation %d is wrong after %s", w.what, i, hist)
			}
		}
		if t.R.Intn(2) == 0 { // a new prover gives the same
			y, pf := evalWith(freshP(), r.x, cs)
			if !eqv(y, r.y) || snap(false, pf) != snap(false, r.pf) {
				t.Viol("history", "%s: an opening differs from that of a new prover after %s", w.what, hist)
			}
			t.N("compared_with_new_instance", 1)
		}
		recs = append(recs, r)
		w.keep(fmt.Sprintf("proof %d", len(recs)), false, r.pf, r.y)
		w.keep(fmt.Sprintf("point %d", len(recs)), false, r.x)
	}
	verify := func(r openRec[E], alter int) {
		x, cm, y, pf := r.x, coms(r.cs), r.y, r.pf
		want := alter == 0
		switch alter {
		case 1:
			y = cpv(y)
			y[t.R.Intn(b)] = s.rnd(t.R)
		case 2:
			x = s.rnd(t.R)
			// constant polynomials have the same value everywhere; the proof is bound to the point all the same
		case 3:
			pf = cpProof(pf)
			pf.Partial[t.R.Intn(len(pf.Partial))].Coeffs[0][t.R.Intn(4)] ^= 1
		case 4:
			pf = cpProof(pf)
			pf.Encode = pf.Encode[:len(pf.Encode)-1]
		case 5:
			pf = &jindo.Proof{}
		}
		var o1, o2, o3, o4 bool
		w.during("Verify", false, func() { o1 = vrf.Verify(x, cm, y, pf) }, x, cm, y, pf)
		o2 = vrf.Verify(x, cm, y, pf)
		o3 = vOther.Verify(x, cm, y, pf)
		o4 = o1
		if t.R.Intn(3) == 0 {
			o4 = freshV().Verify(x, cm, y, pf)
			t.N("compared_with_new_instance", 1)
		}
		if o1 != o2 || o1 != o3 || o1 != o4 {
			t.Viol("history", "%s: the verifier says %v, then %v; others say %v and %v after %s", w.what, o1, o2, o3, o4, hist)
		}
		if o1 != want {
			t.Viol("history", "%s: the verifier says %v to alteration %d after %s", w.what, o1, alter, hist)
		}
		t.N("decisions", 3)
	}
	commit()
	open()
	for i := 0; i < t.cfg.pick(20, 60); i++ {
		op := t.R.Intn(12)
		if i%10 == 0 && i > 0 {
			op = 11
		}
		switch {
		case op < 2:
			commit()
			hist += "C"
		case op < 5:
			open()
			hist += "E"
		case op < 8:
			verify(recs[t.R.Intn(len(recs))], 0)
			hist += "V"
		case op < 10:
			a := 1 + t.R.Intn(5)
			verify(recs[t.R.Intn(len(recs))], a)
			hist += fmt.Sprint("v", a)
		case op < 11:
			// refused calls
			v := s.rndv(t.R, p.params.Rank()+1)
			if try(func() { prv.Commit(v) }) == nil {
				t.Viol("history", "%s: a polynomial that is too long is committed", w.what)
			}
			if b > 1 && try(func() { evalWith(prv, s.rnd(t.R), recs[0].cs[:b-1]) }) == nil {
				t.Viol("history", "%s: too few polynomials are opened", w.what)
			}
			hist += "R"
		default:
			prv = prv.SafeCopy()
			hist += "S"
		}
	}
	w.check("the history " + hist)
	for _, i := range t.R.Perm(len(recs)) {
		verify(recs[i], 0)
	}
	w.check("the final verifications")
	// outputs share no memory: destroying one leaves the others
	d := recs[0]
	for _, ps := range [][]int{{0}} {
		_ = ps
		for i := range d.pf.Encode {
			for j := range d.pf.Encode[i].Coeffs {
				clear(d.pf.Encode[i].Coeffs[j])
			}
		}
		for i := range d.pf.InCommit {
			for j := range d.pf.InCommit[i].Coeffs {
				clear(d.pf.InCommit[i].Coeffs[j])
			}
		}
		for i := range d.pf.MLWE {
			for j := range d.pf.MLWE[i].Coeffs {
				clear(d.pf.MLWE[i].Coeffs[j])
			}
		}
		for i := range d.pf.Partial {
			for j := range d.pf.Partial[i].Coeffs {
				clear(d.pf.Partial[i].Coeffs[j])
			}
		}
		for i := range d.y {
			d.y[i].SetInt64(7)
		}
	}
	var rest []watched
	for _, x := range w.list {
		if x.name != "proof 1" {
			rest = append(rest, x)
		}
	}
	w.list = rest
	w.check("overwriting an earlier proof")
	for i := 1; i < len(recs); i++ {
		verify(recs[i], 0)
	}
	verify(openRec[E]{recs[0].cs, recs[0].x, s.expE(recs[0].cs, recs[0].x), mustProof(freshP(), recs[0])}, 0)
	t.Eval(w.what + hist)
	t.Sample("%s: history %s: %d commitments, %d openings", w.what, hist, len(pool), len(recs))
}

func mustProof[E bignum.Uint[E]](prv *jindo.Prover[E], r openRec[E]) *jindo.Proof {
	_, pf := evalWith(prv, r.x, r.cs)
	return pf
}

func (s *suite[E]) expE(cs []committed[E], x E) []E { return fev[E](s.expEvals(cs, x)) }

// ---- proofs

type proofRec[E bignum.Uint[E]] struct {
	in  int
	v   vals
	pf  *buckler.Proof[E]
	pub *circ[E]
}

// bkHist runs a random history on two compiled circuits.
func (s *suite[E]) bkHist(t *T, rank, k int) {
	w := &watch{t: t, what: fmt.Sprintf("%s rank %d", s.name, rank)}
	var bs []*bld[E]
	var prv []*buckler.Prover[E]
	var vrf []*buckler.Verifier[E]
	hist := ""
	shared := map[string]buckler.LinearChecker[E]{}
	circuitOf := func(sp *spec) *circ[E] {
		c := s.circuit(sp)
		return c
	}
	_ = shared
	for i := 0; i < 2; i++ {
		b := s.bkStmt(t, rank, k)
		if k >= 0 && i == 1 {
			b = s.builder(t.R, rank)
			b.mixed(mixes[t.R.Intn(len(mixes))])
			if t.R.Intn(3) == 0 {
				b = bs[0] // the same circuit under another reference string
			}
		}
		bs = append(bs, b)
		p, v, err := buckler.Compile[E](rank, circuitOf(b.sp), []byte(fmt.Sprint("history ", i)))
		if err != nil {
			t.Viol("compile", "%s: %v", w.what, err)
			return
		}
		prv, vrf = append(prv, p), append(vrf, v)
	}
	fresh := func(i int) (*buckler.Prover[E], *buckler.Verifier[E]) {
		p, v, _ := buckler.Compile[E](rank, circuitOf(bs[i].sp), []byte(fmt.Sprint("history ", i)))
		return p, v
	}
	var recs []proofRec[E]
	prove := func(i int) {
		b := bs[i]
		c := s.assigned(b.sp, b.v, true)
		// the vectors are parts of larger arrays
		for j := range c.Sec {
			c.Sec[j] = append(s.rndv(t.R, 1), append(c.Sec[j], s.rndv(t.R, 2)...)...)[1 : 1+rank]
		}
		for j := range c.Pub {
			c.Pub[j] = append(c.Pub[j], s.rndv(t.R, 2)...)[:rank]
		}
		// equal vectors may be the same slice
		if t.R.Intn(2) == 0 {
			for j := range c.Sec {
				for l := range c.Pub {
					if eqv(c.Pub[l], c.Sec[j]) {
						c.Sec[j] = buckler.Witness[E](c.Pub[l])
						t.N("shared_slices", 1)
					}
				}
				for l := 0; l < j; l++ {
					if eqv(c.Sec[l], c.Sec[j]) {
						c.Sec[j] = c.Sec[l]
						t.N("shared_slices", 1)
					}
				}
			}
		}
		var pf *buckler.Proof[E]
		var err error
		w.during("Prove", true, func() { pf, err = prv[i].Prove(c) }, c.Pub, c.Sec)
		if err != nil {
			t.Viol("history", "%s: a true statement is refused after %s: %v (%s)", w.what, hist, err, b.sp.detail())
			return
		}
		// the caller uses its arrays for something else afterwards
		for j := range c.Sec {
			for l := range c.Sec[j] {
				c.Sec[j][l].SetInt64(-5)
			}
		}
		for j := range c.Pub {
			for l := range c.Pub[j] {
				c.Pub[j][l].SetInt64(3)
			}
		}
		pub := s.assigned(b.sp, b.v, false)
		recs = append(recs, proofRec[E]{i, b.v, pf, pub})
		w.keep(fmt.Sprintf("proof %d", len(recs)), false, pf)
		w.keep(fmt.Sprintf("public vectors %d", len(recs)), true, pub.Pub)
	}
	bad := func(i int) {
		b := bs[i]
		v := b.v.clone()
		x := v.sec[t.R.Intn(len(v.sec))][t.R.Intn(rank)]
		x.Add(x, rndBig(t.R, s.q)).Mod(x, s.q)
		viol := s.violated(b.sp, v)
		c := s.assigned(b.sp, v, true)
		var pf *buckler.Proof[E]
		var err error
		p := try(func() { w.during("Prove", true, func() { pf, err = prv[i].Prove(c) }, c.Pub, c.Sec) })
		if p != nil || err != nil {
			return
		}
		ok := vrf[i].Verify(s.assigned(b.sp, v, false), pf)
		if len(viol) == 0 && !ok {
			t.Viol("history", "%s: a true statement is rejected after %s", w.what, hist)
		}
		hard := false
		for _, m := range viol {
			hard = hard || m[0] != 'a' || m[1] != 'p'
		}
		if hard && ok {
			t.Viol("history", "%s: a false statement is accepted after %s (%v)", w.what, hist, viol[0])
		}
	}
	malformed := func(i int) {
		b := bs[i]
		c := s.assigned(b.sp, b.v, true)
		switch t.R.Intn(3) {
		case 0:
			c.Sec = c.Sec[:len(c.Sec)-1]
		case 1:
			j := t.R.Intn(len(c.Sec))
			c.Sec[j] = c.Sec[j][:rank-1]
		case 2:
			c.Pub = append(c.Pub, s.rndv(t.R, rank))
		}
		var err error
		w.during("Prove", true, func() { _, err = prv[i].Prove(c) }, c.Pub, c.Sec)
		if err == nil {
			t.Viol("history", "%s: a malformed assignment is proved after %s", w.what, hist)
		}
	}
	verify := func(r proofRec[E], alter int) {
		pub, pf, i := r.pub, r.pf, r.in
		want := alter == 0
		switch alter {
		case 1:
			v := r.v.clone()
			x := v.pub[t.R.Intn(len(v.pub))][t.R.Intn(rank)]
			x.Add(x, bigN(1)).Mod(x, s.q)
			pub = s.assigned(bs[i].sp, v, false)
		case 2:
			pf = cpBProof(pf)
			e := pf.Evals[t.R.Intn(len(pf.Evals))]
			e.Add(e, fi[E](1))
		case 3:
			pf = cpBProof(pf)
			pf.Witness = pf.Witness[1:]
		case 4:
			i = 1 - i // the verifier of the other circuit
		case 5:
			pf = nil
		}
		var o1, o2, o3 bool
		w.during("Verify", true, func() { o1 = vrf[i].Verify(pub, pf) }, pub.Pub, pub.Sec)
		w.during("Verify", false, func() { o2 = vrf[i].Verify(pub, pf) }, pf)
		o3 = o1
		if t.R.Intn(3) == 0 {
			_, v := fresh(i)
			o3 = v.Verify(pub, pf)
			t.N("compared_with_new_instance", 1)
		}
		if o1 != o2 || o1 != o3 {
			t.Viol("history", "%s: the verifier says %v, then %v; a new one says %v after %s", w.what, o1, o2, o3, hist)
		}
		if o1 != want {
			t.Viol("history", "%s: the verifier says %v to alteration %d after %s (%s)", w.what, o1, alter, hist, bs[i].sp.detail())
		}
		t.N("decisions", 2)
	}
	prove(0)
	prove(1)
	if len(recs) < 2 {
		return
	}
	m := t.cfg.pick(14, 40)
	if k < 0 {
		m = t.cfg.pick(5, 10)
	}
	for n := 0; n < m; n++ {
		i := t.R.Intn(2)
		switch op := t.R.Intn(10); {
		case op < 3:
			prove(i)
			hist += fmt.Sprint("P", i)
		case op < 5:
			bad(i)
			hist += fmt.Sprint("F", i)
		case op < 6:
			malformed(i)
			hist += fmt.Sprint("M", i)
		case op < 8:
			verify(recs[t.R.Intn(len(recs))], 0)
			hist += "V"
		default:
			a := 1 + t.R.Intn(5)
			verify(recs[t.R.Intn(len(recs))], a)
			hist += fmt.Sprint("v", a)
		}
	}
	w.check("the history " + hist)
	for _, i := range t.R.Perm(len(recs)) {
		verify(recs[i], 0)
	}
	w.check("the final verifications")
	t.Eval(w.what + bs[0].sp.detail() + hist)
	t.Sample("%s: history %s: %d proofs", w.what, hist, len(recs))
}

// ---- what callers do with their values

// callerCirc builds constraints from values that the caller changes afterwards.
type callerCirc[E bignum.Uint[E]] struct {
	P buckler.PublicWitness[E]
	W [4]buckler.Witness[E]
	f func(ctx *buckler.Context[E], c *callerCirc[E])
}

func (c *callerCirc[E]) Define(ctx *buckler.Context[E]) { c.f(ctx, c) }

// bkCaller changes everything handed to the compiler after compilation, and extends copies of constraints.
func (s *suite[E]) bkCaller(t *T, rank int) {
	what := fmt.Sprintf("%s rank %d", s.name, rank)
	type stmt struct {
		name string
		def  func(ctx *buckler.Context[E], c *callerCirc[E]) (spoil func())
		// assign fills secret vectors given the public one
		ok, bad func(p []*big.Int) [4][]*big.Int
	}
	z4 := func() (o [4][]*big.Int) {
		for i := range o {
			o[i] = make([]*big.Int, rank)
			for j := range o[i] {
				o[i][j] = new(big.Int)
			}
		}
		return
	}
	mod := func(x *big.Int) *big.Int { return x.Mod(x, s.q) }
	cst := func(x int64) []*big.Int {
		o := make([]*big.Int, rank)
		for i := range o {
			o[i] = mod(big.NewInt(x))
		}
		return o
	}
	one := func() E { return fi[E](1) }
	noop := func() {}
	stmts := []stmt{
		{"coefficient", func(ctx *buckler.Context[E], c *callerCirc[E]) func() {
			k := fi[E](3)
			var a buckler.ArithmeticConstraint[E]
			a.AddTermWithConst(k, nil, c.W[0])
			a.SubTerm(nil, c.W[1])
			ctx.AddArithmeticConstraint(a)
			return func() { k.SetInt64(2) }
		}, func(p []*big.Int) [4][]*big.Int { o := z4(); o[0], o[1] = cst(5), cst(15); return o },
			func(p []*big.Int) [4][]*big.Int { o := z4(); o[0], o[1] = cst(5), cst(10); return o }},
		{"declared sum", func(ctx *buckler.Context[E], c *callerCirc[E]) func() {
			k := big.NewInt(int64(7 * rank))
			var a buckler.ArithmeticConstraint[E]
			a.AddTerm(nil, c.W[0])
			ctx.AddSumCheckConstraintBig(a, k)
			return func() { k.SetInt64(int64(8 * rank)) }
		}, func(p []*big.Int) [4][]*big.Int { o := z4(); o[0] = cst(7); return o },
			func(p []*big.Int) [4][]*big.Int { o := z4(); o[0] = cst(8); return o }},
		{"infinity bound", func(ctx *buckler.Context[E], c *callerCirc[E]) func() {
			k := big.NewInt(9)
			ctx.AddInfNormConstraintBig(c.W[0], k)
			return func() { k.SetInt64(12) }
		}, func(p []*big.Int) [4][]*big.Int { o := z4(); o[0] = cst(-9); return o },
			func(p []*big.Int) [4][]*big.Int { o := z4(); o[0] = cst(11); return o }},
		{"two-norm bound", func(ctx *buckler.Context[E], c *callerCirc[E]) func() {
			k := big.NewInt(9)
			ctx.AddSqNormConstraintBig(c.W[0], k)
			return func() { k.SetInt64(12) }
		}, func(p []*big.Int) [4][]*big.Int { o := z4(); o[0][0].SetInt64(3); return o },
			func(p []*big.Int) [4][]*big.Int { o := z4(); o[0][0].SetInt64(3); o[0][1].SetInt64(1); return o }},
		{"constraint extended after being added", func(ctx *buckler.Context[E], c *callerCirc[E]) func() {
			var a buckler.ArithmeticConstraint[E]
			a.AddTerm(nil, c.W[0])
			a.SubTerm(nil, c.W[1])
			ctx.AddArithmeticConstraint(a) // w0 = w1
			a.AddTerm(nil, c.W[2])
			ctx.AddArithmeticConstraint(a) // w2 = 0
			a.AddTerm(nil, c.W[3])
			return noop
		}, func(p []*big.Int) [4][]*big.Int { o := z4(); o[0], o[1], o[3] = cst(5), cst(5), cst(1); return o },
			func(p []*big.Int) [4][]*big.Int { o := z4(); o[0], o[1], o[2] = cst(5), cst(6), cst(1); return o }},
		{"list of factors", func(ctx *buckler.Context[E], c *callerCirc[E]) func() {
			ws := []buckler.Witness[E]{c.W[0], c.W[1]}
			var a buckler.ArithmeticConstraint[E]
			a.AddTerm(nil, ws...)
			ws[1] = c.W[2]
			a.SubTerm(nil, ws...) // w0*w1 = w0*w2
			ctx.AddArithmeticConstraint(a)
			ws[0], ws[1] = c.W[3], c.W[3]
			return noop
		}, func(p []*big.Int) [4][]*big.Int {
			o := z4()
			o[0], o[1], o[2], o[3] = cst(5), cst(6), cst(6), cst(1)
			return o
		},
			func(p []*big.Int) [4][]*big.Int {
				o := z4()
				o[0], o[1], o[2], o[3] = cst(5), cst(6), cst(7), cst(1)
				return o
			}},
	}
	for m := 1; m <= 7; m++ {
		for late := 0; late < 2; late++ {
			stmts = append(stmts, stmt{fmt.Sprintf("two continuations of one constraint of %d terms, order %d", m, late), func(ctx *buckler.Context[E], c *callerCirc[E]) func() {
				var base buckler.ArithmeticConstraint[E]
				for i := 0; i < m; i++ {
					base.AddTermWithConst(one(), nil, c.W[0])
				}
				a, b := base, base
				a.SubTerm(nil, c.W[1]) // m*w0 = w1
				if late == 0 {
					ctx.AddArithmeticConstraint(a)
				}
				b.SubTerm(nil, c.W[2]) // m*w0 = w2
				if late == 1 {
					ctx.AddArithmeticConstraint(a)
				}
				ctx.AddArithmeticConstraint(b)
				return noop
			}, func(p []*big.Int) [4][]*big.Int {
				o := z4()
				o[0], o[1], o[2] = cst(5), cst(int64(5*m)), cst(int64(5*m))
				return o
			}, func(p []*big.Int) [4][]*big.Int {
				o := z4()
				o[0], o[1], o[2] = cst(5), cst(int64(5*m+1)), cst(int64(5*m))
				return o
			}})
		}
	}
	for _, st := range stmts {
		if st.name == "two-norm bound" && rank < 4 || rank < 2 {
			continue
		}
		for _, w := range []string{"after compilation", "before compilation of the verifier"} {
			crs := []byte("caller's reference string")
			mk := func() (*callerCirc[E], *func()) {
				sp := noop
				c := &callerCirc[E]{}
				c.f = func(ctx *buckler.Context[E], c *callerCirc[E]) { sp = st.def(ctx, c) }
				return c, &sp
			}
			c1, sp1 := mk()
			prv, v1, err := buckler.Compile[E](rank, c1, crs)
			if err != nil {
				t.Viol("compile", "%s %s: %v", what, st.name, err)
				return
			}
			(*sp1)()
			// the circuit that was compiled is the caller's, too
			c1.P, c1.W = nil, [4]buckler.Witness[E]{}
			if w == "after compilation" {
				clear(crs)
				crs = []byte("caller's reference string")
			}
			c2, sp2 := mk()
			_, v2, err := buckler.Compile[E](rank, c2, crs)
			if err != nil {
				t.Viol("compile", "%s %s: %v", what, st.name, err)
				return
			}
			(*sp2)()
			clear(crs)
			p := make([]*big.Int, rank)
			for i := range p {
				p[i] = rndBig(t.R, s.q)
			}
			for kind, f := range []func([]*big.Int) [4][]*big.Int{st.ok, st.bad} {
				a := &callerCirc[E]{P: fev[E](p)}
				if kind == 0 {
					a = c1 // the compiled circuit itself is filled in
					a.P = fev[E](p)
				}
				for i, x := range f(p) {
					a.W[i] = fev[E](x)
				}
				t.Eval(what + st.name + w + fmt.Sprint(kind))
				pf, err := prv.Prove(a)
				if err != nil {
					if kind == 0 {
						t.Viol("history", "%s: %s changed %s: prover error %v", what, st.name, w, err)
					}
					continue
				}
				pub := &callerCirc[E]{P: fev[E](p)}
				for i, v := range []*buckler.Verifier[E]{v1, v2} {
					if ok := v.Verify(pub, pf); ok != (kind == 0) {
						t.Viol("history", "%s: %s changed %s: statement %d (0 is true) gets %v from verifier %d", what, st.name, w, kind, ok, i)
					}
				}
			}
		}
	}
	t.Sample("%s: %d kinds of caller's values changed after use", what, len(stmts))
}

// ---- shared objects of the polynomial layer

// mapHist uses linear maps and evaluators over and over, also across circuits, and watches their inputs.
func (s *suite[E]) mapHist(t *T, rank int) {
	w := &watch{t: t, what: fmt.Sprintf("%s rank %d", s.name, rank)}
	ev := bigpoly.NewCyclotomicEvaluator[E](rank)
	mk := func(i int, e *bigpoly.CyclotomicEvaluator[E]) buckler.LinearChecker[E] {
		switch i {
		case 0:
			return buckler.NewNTTChecker[E](rank)
		default:
			return buckler.NewAutChecker(e, 2*i+1, i%2 == 0)
		}
	}
	n := 4
	chks := make([]buckler.LinearChecker[E], n)
	for i := range chks {
		chks[i] = mk(i, ev)
	}
	for k := 0; k < t.cfg.pick(40, 200); k++ {
		i := t.R.Intn(n)
		v := append(s.rndv(t.R, rank), s.rndv(t.R, 2)...)[:rank]
		o1, o2 := s.rndv(t.R, rank), s.rndv(t.R, rank) // outputs hold old values
		tr := t.R.Intn(2) == 0
		f := func(c buckler.LinearChecker[E], o []E) {
			if tr {
				c.TransposeTo(o, v)
			} else {
				c.TransformTo(o, v)
			}
		}
		w.during("a linear map", true, func() { f(chks[i], o1) }, v)
		f(mk(i, bigpoly.NewCyclotomicEvaluator[E](rank)), o2)
		if !eqv(o1, o2) {
			t.Viol("history", "%s: map %d (transposed: %v) differs from a new one after %d uses", w.what, i, tr, k)
		}
		t.Eval(fmt.Sprint(w.what, i, tr, k))
		// in between, an instance that uses the same maps
		if k%8 == 3 && rank >= 2 {
			c := func() *callerCirc[E] {
				return &callerCirc[E]{f: func(ctx *buckler.Context[E], c *callerCirc[E]) {
					for l := range chks[:3] {
						ctx.AddLinearConstraint(c.W[l+1], c.W[0], chks[l])
					}
				}}
			}
			prv, _, err := buckler.Compile[E](rank, c(), []byte("maps"))
			_, vrf, err2 := buckler.Compile[E](rank, c(), []byte("maps"))
			if err != nil || err2 != nil {
				t.Viol("compile", "%s: %v %v", w.what, err, err2)
				return
			}
			for _, kind := range []bool{true, false, true} {
				a := &callerCirc[E]{P: s.rndv(t.R, rank)}
				a.W[0] = s.rndv(t.R, rank)
				for l := 0; l < 3; l++ {
					a.W[l+1] = zerov[E](rank)
					mk(l, bigpoly.NewCyclotomicEvaluator[E](rank)).TransformTo(a.W[l+1], a.W[0])
				}
				if !kind {
					x := a.W[1+t.R.Intn(3)][t.R.Intn(rank)]
					x.Add(x, fi[E](1))
				}
				pf, err := prv.Prove(a)
				ok := err == nil && vrf.Verify(&callerCirc[E]{P: a.P}, pf)
				if ok != kind {
					t.Viol("history", "%s: circuits that share linear maps: statement %v gets %v (%v)", w.what, kind, ok, err)
				}
				t.N("decisions", 1)
			}
		}
	}
	t.Sample("%s: linear maps shared by instances", w.what)
}

func casesC21(cfg Cfg) []Case {
	var cs []Case
	add := func(name string, f func(t *T)) { cs = append(cs, Case{Name: name, Run: f}) }
	for i, f := range []string{"zp220", "zp110"} {
		if i < cfg.pick(1, 2) {
			add("snark-apx/"+f, func(t *T) { field(f).S.bkHist(t, 2048, -1) })
		}
	}
	for k := 0; k < cfg.pick(1, 6); k++ {
		for _, c := range []pcsCfg{{"zp255", 256, 2}, {"zp110", 200, 3}, {"zp440", 100, 1}, {"zp220", 500, 1}, {"zp880", 64, 2}, {"zp128", 1000, 2}, {"zp240", 300, 4}} {
			add(fmt.Sprintf("pcs/%s/%d", c, k), func(t *T) { field(c.f).S.pcsHist(t, c.n, c.b, k) })
		}
	}
	cs = append(cs, bindCases(cfg, "snark", 21, 140, Suite.bkHist)...)
	for i, f := range bkFields {
		rank := []int{4, 8, 2, 16}[i%4]
		add(fmt.Sprintf("caller/%s/r%d", f, rank), func(t *T) { field(f).S.bkCaller(t, rank) })
		r2 := []int{8, 64, 4, 16}[i%4]
		add(fmt.Sprintf("maps/%s/r%d", f, r2), func(t *T) { field(f).S.mapHist(t, r2) })
	}
	for i, f := range bkFields {
		add(fmt.Sprintf("in-place/snark/%s", f), func(t *T) { field(f).S.bkInPlace(t, []int{4, 16, 2, 8}[i%4], i) })
		add(fmt.Sprintf("in-place/pcs/%s", f), func(t *T) { field(f).S.pcsInPlace(t, []int{200, 64, 300}[i%3], 1+i%3) })
	}
	cs = append(cs, romCases(cfg)...)
	return cs
}
