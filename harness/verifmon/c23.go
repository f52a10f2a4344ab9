package main

import (
	"fmt"
	"math/big"
	"math/bits"
	"math/rand"

	"github.com/sp301415/ringo-snark/math/bignum"
	"github.com/sp301415/ringo-snark/math/bigpoly"
)

func init() { registry["C23"] = casesC23 }

// fwdinv is what the cyclic and the negacyclic transformer have in common.
type fwdinv[E any] interface {
	FwdNTTTo(vOut, v []E)
	InvNTTTo(vOut, v []E)
	Rank() int
}

func newNTT[E bignum.Uint[E]](cyc bool, rank int) fwdinv[E] {
	if cyc {
		return bigpoly.NewCyclicTransformer[E](rank)
	}
	return bigpoly.NewCyclotomicTransformer[E](rank)
}

// ringEval is what the cyclic and the negacyclic evaluator have in common.
type ringEval[E bignum.Uint[E]] interface {
	Rank() int
	NewPoly(isNTT bool) *bigpoly.Poly[E]
	Add(p0, p1 *bigpoly.Poly[E]) *bigpoly.Poly[E]
	AddTo(pOut, p0, p1 *bigpoly.Poly[E])
	Sub(p0, p1 *bigpoly.Poly[E]) *bigpoly.Poly[E]
	SubTo(pOut, p0, p1 *bigpoly.Poly[E])
	Neg(p *bigpoly.Poly[E]) *bigpoly.Poly[E]
	NegTo(pOut, p *bigpoly.Poly[E])
	ScalarMul(p *bigpoly.Poly[E], c E) *bigpoly.Poly[E]
	ScalarMulTo(pOut, p *bigpoly.Poly[E], c E)
	ScalarMulAddTo(pOut, p *bigpoly.Poly[E], c E)
	ScalarMulSubTo(pOut, p *bigpoly.Poly[E], c E)
	Mul(p0, p1 *bigpoly.Poly[E]) *bigpoly.Poly[E]
	MulTo(pOut, p0, p1 *bigpoly.Poly[E])
	MulAddTo(pOut, p0, p1 *bigpoly.Poly[E])
	MulSubTo(pOut, p0, p1 *bigpoly.Poly[E])
	NTT(p *bigpoly.Poly[E]) *bigpoly.Poly[E]
	NTTTo(pOut, p *bigpoly.Poly[E])
	InvNTT(p *bigpoly.Poly[E]) *bigpoly.Poly[E]
	InvNTTTo(pOut, p *bigpoly.Poly[E])
}

func newEval[E bignum.Uint[E]](cyc bool, rank int) ringEval[E] {
	if cyc {
		return bigpoly.NewCyclicEvaluator[E](rank)
	}
	return bigpoly.NewCyclotomicEvaluator[E](rank)
}

func brv(i, n int) int {
	l := bits.Len(uint(n)) - 1
	if l == 0 {
		return 0
	}
	return int(bits.Reverse64(uint64(i)) >> (64 - l))
}

// roots returns the table of powers of the transform's root and the exponent of each output position.
// The root itself is read off the transform of X; everything else follows from the definition.
func (s *suite[E]) roots(t *T, n fwdinv[E], cyc bool) (pw []*big.Int, exp []int, ok bool) {
	N := n.Rank()
	ord := 2 * N
	if cyc {
		ord = N
	}
	exp = make([]int, N)
	for i := range exp {
		if cyc {
			exp[i] = brv(i, N)
		} else {
			exp[i] = 2*brv(i, N) + 1
		}
	}
	w := big.NewInt(1)
	if N > 1 {
		x := zerov[E](N)
		x[1].SetUint64(1)
		y := zerov[E](N)
		n.FwdNTTTo(y, x)
		if cyc {
			w = bi(y[N/2])
		} else {
			w = bi(y[0])
		}
	} else if !cyc {
		w = new(big.Int).Sub(s.q, bigN(1))
	}
	// w must be a primitive root of the right order
	h := new(big.Int).Exp(w, big.NewInt(int64(ord/2)), s.q)
	h.Add(h, bigN(1))
	if ord > 1 && h.Cmp(s.q) != 0 {
		t.Viol("root", "%s rank %d cyclic=%v: transform of X is not a value at a primitive root of order %d", s.name, N, cyc, ord)
		return nil, nil, false
	}
	pw = make([]*big.Int, ord)
	pw[0] = big.NewInt(1)
	for i := 1; i < ord; i++ {
		pw[i] = new(big.Int).Mul(pw[i-1], w)
		pw[i].Mod(pw[i], s.q)
	}
	return pw, exp, true
}

// patVec returns coefficient vectors of several shapes.
func (s *suite[E]) patVec(r *rand.Rand, n int, pat string) []E {
	v := zerov[E](n)
	switch pat {
	case "zero":
	case "max":
		for i := range v {
			v[i].SetInt64(-1)
		}
	case "one":
		v[r.Intn(n)].SetUint64(1)
	case "alt":
		for i := range v {
			v[i].SetInt64(int64(1 - 2*(i&1)))
		}
	case "edge":
		for i := range v {
			v[i].SetBigInt(edgeBig(r, s.q))
		}
	case "sparse":
		for k := 0; k < 3; k++ {
			v[r.Intn(n)].SetBigInt(rndFull(r, s.q))
		}
	case "last":
		v[n-1].SetBigInt(rndFull(r, s.q))
	default:
		for i := range v {
			v[i].SetBigInt(rndFull(r, s.q))
		}
	}
	return v
}

var vecPats = []string{"zero", "max", "one", "alt", "edge", "sparse", "last", "rand"}

// valueAt evaluates the coefficients at the root of exponent e.
func (s *suite[E]) valueAt(v []*big.Int, pw []*big.Int, e int) *big.Int {
	o, m := new(big.Int), new(big.Int)
	for j := range v {
		if v[j].Sign() != 0 {
			o.Add(o, m.Mul(v[j], pw[e*j%len(pw)]))
		}
	}
	return o.Mod(o, s.q)
}

func nz(v []*big.Int) int {
	c := 0
	for _, x := range v {
		if x.Sign() != 0 {
			c++
		}
	}
	return c
}

// allValues returns the polynomial's values at all the powers with exponents 2k+1 (or k, in the cyclic case).
func (s *suite[E]) allValues(v []*big.Int, pw []*big.Int) []*big.Int {
	N := len(v)
	cyc := len(pw) == N
	w := make([]*big.Int, N)
	for j := range w {
		w[j] = v[j]
		if !cyc {
			w[j] = new(big.Int).Mul(v[j], pw[j])
			w[j].Mod(w[j], s.q)
		}
	}
	var rec func(a []*big.Int, step int) []*big.Int
	rec = func(a []*big.Int, step int) []*big.Int {
		n := len(a)
		if n == 1 {
			return []*big.Int{new(big.Int).Set(a[0])}
		}
		h := n / 2
		ev, od := make([]*big.Int, h), make([]*big.Int, h)
		for i := range ev {
			ev[i], od[i] = a[2*i], a[2*i+1]
		}
		ev, od = rec(ev, 2*step), rec(od, 2*step)
		o := make([]*big.Int, n)
		for k := 0; k < h; k++ {
			m := od[k].Mul(od[k], pw[k*step])
			m.Mod(m, s.q)
			o[k+h] = new(big.Int).Sub(ev[k], m)
			if o[k+h].Sign() < 0 {
				o[k+h].Add(o[k+h], s.q)
			}
			o[k] = ev[k].Add(ev[k], m)
			if o[k].Cmp(s.q) >= 0 {
				o[k].Sub(o[k], s.q)
			}
		}
		return o
	}
	return rec(w, len(pw)/N)
}

// checkNTT compares vOut with the definition.
func (s *suite[E]) checkNTT(t *T, what string, v, vOut []E, pw []*big.Int, exp []int) {
	b := biv(v)
	N := len(v)
	bad := func(i int, x *big.Int) bool {
		if bi(vOut[i]).Cmp(x) != 0 {
			t.Viol("value", "%s: position %d is %s, the polynomial's value there is %s", what, i, fstr(bi(vOut[i])), fstr(x))
			return true
		}
		return false
	}
	if N <= 128 || nz(b) <= 4 {
		for i := 0; i < N; i++ {
			if bad(i, s.valueAt(b, pw, exp[i])) {
				return
			}
		}
	} else {
		all := s.allValues(b, pw)
		for _, i := range []int{0, N - 1, t.R.Intn(N)} {
			if s.valueAt(b, pw, exp[i]).Cmp(all[brv(i, N)]) != 0 {
				panic("harness: reference transform")
			}
		}
		for i := 0; i < N; i++ {
			if bad(i, all[brv(i, N)]) {
				return
			}
		}
	}
	t.N("positions_compared", N)
}

func (s *suite[E]) ntt(t *T, cyc bool, rank int) {
	what := fmt.Sprintf("%s rank %d cyclic=%v", s.name, rank, cyc)
	n := newNTT[E](cyc, rank)
	if n.Rank() != rank {
		t.Viol("rank", "%s: Rank() = %d", what, n.Rank())
	}
	pw, exp, ok := s.roots(t, n, cyc)
	if !ok {
		return
	}
	n2 := newNTT[E](cyc, rank)
	ev := newEval[E](cyc, rank)
	for rep := 0; rep < t.cfg.pick(1, 4); rep++ {
		pats := vecPats
		if rank > 1<<13 && !t.cfg.Thorough {
			pats = []string{"rand", "last"}
		}
		for _, pat := range pats {
			v := s.patVec(t.R, rank, pat)
			v0 := cpv(v)
			out := s.rndv(t.R, rank)
			n.FwdNTTTo(out, v)
			if !eqv(v, v0) {
				t.Viol("input", "%s %s: forward transform changed its input", what, pat)
			}
			s.checkNTT(t, what+" "+pat, v0, out, pw, exp)
			in := cpv(v)
			n.FwdNTTTo(in, in)
			if !eqv(in, out) {
				t.Viol("inplace", "%s %s: forward transform in place differs from out of place", what, pat)
			}
			o2 := zerov[E](rank)
			n2.FwdNTTTo(o2, v)
			p := &bigpoly.Poly[E]{Coeffs: cpv(v)}
			if !eqv(o2, out) || !eqv(ev.NTT(p).Coeffs, out) {
				t.Viol("order", "%s %s: transformer and evaluator disagree", what, pat)
			}
			// the inverse on arbitrary values, then forward again by definition
			val := out
			if rep%2 == 0 || pat == "rand" || pat == "edge" {
				val = s.patVec(t.R, rank, pat)
			}
			val0 := cpv(val)
			back := s.rndv(t.R, rank)
			n.InvNTTTo(back, val)
			if !eqv(val, val0) {
				t.Viol("input", "%s %s: inverse transform changed its input", what, pat)
			}
			s.checkNTT(t, what+" inverse "+pat, back, val0, pw, exp)
			in = cpv(val0)
			n.InvNTTTo(in, in)
			if !eqv(in, back) {
				t.Viol("inplace", "%s %s: inverse transform in place differs from out of place", what, pat)
			}
			pn := &bigpoly.Poly[E]{Coeffs: cpv(val0), IsNTT: true}
			if !eqv(ev.InvNTT(pn).Coeffs, back) {
				t.Viol("order", "%s %s: inverse of transformer and evaluator disagree", what, pat)
			}
			n.InvNTTTo(out, out)
			if !eqv(out, v0) {
				t.Viol("undo", "%s %s: inverse of the forward transform is not the input", what, pat)
			}
			n.FwdNTTTo(back, back)
			if !eqv(back, val0) {
				t.Viol("undo", "%s %s: forward of the inverse transform is not the input", what, pat)
			}
			t.Eval(what + pat + fmt.Sprint(rep))
		}
	}
	// the order is the one the automorphisms assume
	if !cyc {
		ce := bigpoly.NewCyclotomicEvaluator[E](rank)
		for k := 0; k < t.cfg.pick(3, 12); k++ {
			idx := 2*t.R.Intn(2*rank) + 1
			p := &bigpoly.Poly[E]{Coeffs: s.patVec(t.R, rank, "rand")}
			a := ce.NTT(ce.Aut(p, idx))
			b := ce.Aut(ce.NTT(p), idx)
			if !eqv(a.Coeffs, b.Coeffs) {
				t.Viol("order", "%s: automorphism %d of the transform is not the transform of the automorphism", what, idx)
			}
			t.Eval(what + "aut" + fmt.Sprint(idx))
		}
	}
	// refusals
	for _, l := range []int{rank - 1, rank + 1, 2 * rank} {
		for _, f := range []func(a, b []E){n.FwdNTTTo, n.InvNTTTo} {
			if try(func() { f(zerov[E](rank), zerov[E](l)) }) == nil {
				t.Viol("length", "%s: input of length %d is not refused", what, l)
			}
			if try(func() { f(zerov[E](l), zerov[E](rank)) }) == nil {
				t.Viol("length", "%s: output of length %d is not refused", what, l)
			}
			t.N("refusals", 2)
		}
	}
	t.Sample("%s: root %s, %d output positions, patterns %v", what, fstr(pw[len(pw)-1]), rank, vecPats)
}

// twoAdic returns the largest supported rank of the field (as an exponent of two).
func twoAdic(q *big.Int) int {
	return int(new(big.Int).Sub(q, bigN(1)).TrailingZeroBits()) - 1
}

func (s *suite[E]) nttRefuse(t *T) {
	for _, cyc := range []bool{true, false} {
		for _, r := range []int{0, -1, -4, 3, 5, 6, 12, 100, 1023, 1025} {
			if try(func() { newNTT[E](cyc, r) }) == nil {
				t.Viol("rank", "%s cyclic=%v: rank %d is not refused", s.name, cyc, r)
			}
			t.Eval(fmt.Sprint(s.name, cyc, r))
		}
		if m := twoAdic(s.q); m < 20 {
			if try(func() { newNTT[E](cyc, 4<<m) }) == nil {
				t.Viol("rank", "%s cyclic=%v: unsupported rank 2^%d is not refused", s.name, cyc, m+2)
			}
			t.Eval(fmt.Sprint(s.name, cyc, "big"))
		}
	}
}

func casesC23(cfg Cfg) []Case {
	var cs []Case
	for lg := 16; lg >= 0; lg-- {
		for _, f := range allFields {
			if lg > twoAdic(f.Q) || (lg > 13 && f.Q.BitLen() > 300 && !cfg.Thorough) {
				continue
			}
			for _, cyc := range []bool{true, false} {
				f, lg, cyc := f, lg, cyc
				cs = append(cs, Case{Name: fmt.Sprintf("ntt/%s/%v/%d", f.Name, cyc, 1<<lg), Run: func(t *T) { f.S.ntt(t, cyc, 1<<lg) }})
			}
		}
	}
	for _, f := range allFields {
		f := f
		cs = append(cs, Case{Name: "refuse/" + f.Name, Run: func(t *T) { f.S.nttRefuse(t) }})
	}
	return cs
}
