package main

import (
	"bytes"
	"fmt"
	"math/big"

	"github.com/sp301415/ringo-snark/buckler"
	"github.com/sp301415/ringo-snark/math/bignum"
	"github.com/sp301415/ringo-snark/math/bigpoly"
)

func init() {
	registry["C24"] = casesC24
	registry["C26"] = casesC26
}

// modv reduces every entry.
func (s *suite[E]) modv(v []*big.Int) []*big.Int {
	for i := range v {
		v[i].Mod(v[i], s.q)
	}
	return v
}

func zip(a, b []*big.Int, f func(o, x, y *big.Int)) []*big.Int {
	o := make([]*big.Int, len(a))
	for i := range a {
		o[i] = new(big.Int)
		f(o[i], a[i], b[i])
	}
	return o
}

func eqb(a, b []*big.Int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].Cmp(b[i]) != 0 {
			return false
		}
	}
	return true
}

// ringMul multiplies modulo X^N-1 or X^N+1; b should be sparse when N is large.
func (s *suite[E]) ringMul(a, b []*big.Int, cyc bool) []*big.Int {
	N := len(a)
	o := make([]*big.Int, N)
	for i := range o {
		o[i] = new(big.Int)
	}
	m := new(big.Int)
	for j := range b {
		if b[j].Sign() == 0 {
			continue
		}
		for i := range a {
			m.Mul(a[i], b[j])
			if k := i + j; k < N {
				o[k].Add(o[k], m)
			} else if cyc {
				o[k-N].Add(o[k-N], m)
			} else {
				o[k-N].Sub(o[k-N], m)
			}
		}
	}
	return s.modv(o)
}

func (s *suite[E]) poly(v []E, ntt bool) *bigpoly.Poly[E] {
	return &bigpoly.Poly[E]{Coeffs: v, IsNTT: ntt}
}

func cpBP[E bignum.Uint[E]](p *bigpoly.Poly[E]) *bigpoly.Poly[E] {
	return &bigpoly.Poly[E]{Coeffs: cpv(p.Coeffs), IsNTT: p.IsNTT}
}

func (s *suite[E]) ringOps(t *T, cyc bool, rank int) {
	what := fmt.Sprintf("%s rank %d cyclic=%v", s.name, rank, cyc)
	ev := newEval[E](cyc, rank)
	if ev.Rank() != rank {
		t.Viol("rank", "%s: Rank() = %d", what, ev.Rank())
	}
	r := t.R
	pat := func() string { return vecPats[r.Intn(len(vecPats))] }
	add := func(o, x, y *big.Int) { o.Add(x, y).Mod(o, s.q) }
	sub := func(o, x, y *big.Int) { o.Sub(x, y).Mod(o, s.q) }
	mul := func(o, x, y *big.Int) { o.Mul(x, y).Mod(o, s.q) }

	type op struct {
		name string
		bin  bool // two polynomial operands
		acc  bool // accumulates into the output
		rep  int  // 0 any representation, 1 transformed only
		run  func(o, a, b *bigpoly.Poly[E], c E)
		ret  func(a, b *bigpoly.Poly[E], c E) *bigpoly.Poly[E]
		def  func(o, a, b []*big.Int, c *big.Int) []*big.Int
	}
	cc := func(a []*big.Int, c *big.Int) []*big.Int {
		o := make([]*big.Int, len(a))
		for i := range a {
			o[i] = new(big.Int)
			mul(o[i], a[i], c)
		}
		return o
	}
	P := func(p *bigpoly.Poly[E]) *bigpoly.Poly[E] { return p }
	ops := []op{
		{"Add", true, false, 0, func(o, a, b *bigpoly.Poly[E], c E) { ev.AddTo(o, a, b) }, func(a, b *bigpoly.Poly[E], c E) *bigpoly.Poly[E] { return P(ev.Add(a, b)) },
			func(o, a, b []*big.Int, c *big.Int) []*big.Int { return zip(a, b, add) }},
		{"Sub", true, false, 0, func(o, a, b *bigpoly.Poly[E], c E) { ev.SubTo(o, a, b) }, func(a, b *bigpoly.Poly[E], c E) *bigpoly.Poly[E] { return ev.Sub(a, b) },
			func(o, a, b []*big.Int, c *big.Int) []*big.Int { return zip(a, b, sub) }},
		{"Neg", false, false, 0, func(o, a, b *bigpoly.Poly[E], c E) { ev.NegTo(o, a) }, func(a, b *bigpoly.Poly[E], c E) *bigpoly.Poly[E] { return ev.Neg(a) },
			func(o, a, b []*big.Int, c *big.Int) []*big.Int {
				return zip(a, a, func(o, x, y *big.Int) { o.Neg(x).Mod(o, s.q) })
			}},
		{"ScalarMul", false, false, 0, func(o, a, b *bigpoly.Poly[E], c E) { ev.ScalarMulTo(o, a, c) }, func(a, b *bigpoly.Poly[E], c E) *bigpoly.Poly[E] { return ev.ScalarMul(a, c) },
			func(o, a, b []*big.Int, c *big.Int) []*big.Int { return cc(a, c) }},
		{"ScalarMulAdd", false, true, 0, func(o, a, b *bigpoly.Poly[E], c E) { ev.ScalarMulAddTo(o, a, c) }, nil,
			func(o, a, b []*big.Int, c *big.Int) []*big.Int { return zip(o, cc(a, c), add) }},
		{"ScalarMulSub", false, true, 0, func(o, a, b *bigpoly.Poly[E], c E) { ev.ScalarMulSubTo(o, a, c) }, nil,
			func(o, a, b []*big.Int, c *big.Int) []*big.Int { return zip(o, cc(a, c), sub) }},
		{"Mul", true, false, 1, func(o, a, b *bigpoly.Poly[E], c E) { ev.MulTo(o, a, b) }, func(a, b *bigpoly.Poly[E], c E) *bigpoly.Poly[E] { return ev.Mul(a, b) },
			func(o, a, b []*big.Int, c *big.Int) []*big.Int { return zip(a, b, mul) }},
		{"MulAdd", true, true, 1, func(o, a, b *bigpoly.Poly[E], c E) { ev.MulAddTo(o, a, b) }, nil,
			func(o, a, b []*big.Int, c *big.Int) []*big.Int { return zip(o, zip(a, b, mul), add) }},
		{"MulSub", true, true, 1, func(o, a, b *bigpoly.Poly[E], c E) { ev.MulSubTo(o, a, b) }, nil,
			func(o, a, b []*big.Int, c *big.Int) []*big.Int { return zip(o, zip(a, b, mul), sub) }},
	}
	for rep := 0; rep < t.cfg.pick(2, 8); rep++ {
		for _, o := range ops {
			for _, ntt := range []bool{false, true} {
				if o.rep == 1 && !ntt {
					continue
				}
				// which of output, first and second operand are the same object
				for alias := 0; alias < 8; alias++ {
					a := s.poly(s.patVec(r, rank, pat()), ntt)
					b := s.poly(s.patVec(r, rank, pat()), ntt)
					po := s.poly(s.patVec(r, rank, "rand"), o.acc && ntt || !o.acc && r.Intn(2) == 0)
					c := fe[E](rndBig(r, s.q))
					switch alias {
					case 1:
						po = a
					case 2:
						po = b
					case 3:
						b = a
					case 4:
						b, po = a, a
					case 5: // the scalar is an entry of the operand
						c = a.Coeffs[r.Intn(rank)]
					case 6: // the scalar is an entry of the output
						c = po.Coeffs[r.Intn(rank)]
					case 7: // output, operand and scalar share their entries
						po = s.poly(a.Coeffs, a.IsNTT)
						c = po.Coeffs[r.Intn(rank)]
					}
					if !o.bin && alias >= 2 && alias < 5 || o.bin && alias >= 5 {
						continue
					}
					a0, b0, o0, c0 := biv(a.Coeffs), biv(b.Coeffs), biv(po.Coeffs), bi(c)
					want := o.def(o0, a0, b0, c0)
					if alias == 0 && o.ret != nil {
						x := o.ret(a, b, c)
						if !eqb(biv(x.Coeffs), want) || x.IsNTT != ntt {
							t.Viol("value", "%s: %s gives a wrong result (transformed=%v, flag %v)", what, o.name, ntt, x.IsNTT)
						}
						if x == a || x == b {
							t.Viol("value", "%s: %s returns its operand", what, o.name)
						}
					}
					o.run(po, a, b, c)
					if !eqb(biv(po.Coeffs), want) || po.IsNTT != ntt {
						t.Viol("value", "%s: %sTo gives a wrong result (transformed=%v, flag %v, aliasing %d)", what, o.name, ntt, po.IsNTT, alias)
					}
					if po != a && alias != 7 && (!eqb(biv(a.Coeffs), a0) || a.IsNTT != ntt) || po != b && (!eqb(biv(b.Coeffs), b0) || b.IsNTT != ntt) || alias < 6 && bi(c).Cmp(c0) != 0 {
						t.Viol("input", "%s: %s changes an operand (aliasing %d)", what, o.name, alias)
					}
					t.Eval(fmt.Sprint(what, o.name, ntt, alias, rep))
				}
			}
			// refusals: ranks and representations
			mk := func(n int, ntt bool) *bigpoly.Poly[E] { return s.poly(zerov[E](n), ntt) }
			nt := true
			for _, l := range []int{rank - 1, rank + 1, 2 * rank} {
				c := fi[E](3)
				if try(func() { o.run(mk(l, nt), mk(rank, nt), mk(rank, nt), c) }) == nil ||
					try(func() { o.run(mk(rank, nt), mk(l, nt), mk(rank, nt), c) }) == nil ||
					o.bin && try(func() { o.run(mk(rank, nt), mk(rank, nt), mk(l, nt), c) }) == nil ||
					try(func() { o.run(mk(rank, nt), mk(l, nt), mk(l, nt), c) }) == nil ||
					try(func() { o.run(mk(l, nt), mk(l, nt), mk(l, nt), c) }) == nil {
					t.Viol("refuse", "%s: %s accepts an operand of rank %d", what, o.name, l)
				}
				t.N("refusals", 4)
			}
			if o.bin {
				for k := 0; k < 2; k++ {
					if try(func() { o.run(mk(rank, true), mk(rank, k == 0), mk(rank, k == 1), fi[E](1)) }) == nil {
						t.Viol("refuse", "%s: %s accepts operands of different representations", what, o.name)
					}
				}
				t.N("refusals", 2)
			}
			if o.rep == 1 && try(func() { o.run(mk(rank, false), mk(rank, false), mk(rank, false), fi[E](1)) }) == nil {
				t.Viol("refuse", "%s: %s accepts coefficients", what, o.name)
			}
		}
		// transforms: flags, aliasing and refusals
		for _, alias := range []bool{false, true} {
			a := s.poly(s.patVec(r, rank, pat()), false)
			a0 := cpBP(a)
			o := a
			if !alias {
				o = s.poly(s.patVec(r, rank, "rand"), r.Intn(2) == 0)
			}
			ev.NTTTo(o, a)
			if !o.IsNTT || !alias && (a.IsNTT || !eqv(a.Coeffs, a0.Coeffs)) {
				t.Viol("flag", "%s: NTTTo leaves a wrong flag or changes its input", what)
			}
			if try(func() { ev.NTTTo(o, o) }) == nil {
				t.Viol("refuse", "%s: NTTTo accepts a transformed polynomial", what)
			}
			b := o
			if !alias {
				b = s.poly(s.patVec(r, rank, "rand"), r.Intn(2) == 0)
			}
			ev.InvNTTTo(b, o)
			if b.IsNTT || !eqv(b.Coeffs, a0.Coeffs) {
				t.Viol("value", "%s: InvNTTTo does not undo NTTTo", what)
			}
			if try(func() { ev.InvNTTTo(b, b) }) == nil {
				t.Viol("refuse", "%s: InvNTTTo accepts coefficients", what)
			}
			for _, l := range []int{rank - 1, rank + 1, 2 * rank} {
				if try(func() { ev.NTTTo(s.poly(zerov[E](l), false), s.poly(zerov[E](rank), false)) }) == nil ||
					try(func() { ev.NTTTo(s.poly(zerov[E](rank), false), s.poly(zerov[E](l), false)) }) == nil ||
					try(func() { ev.InvNTTTo(s.poly(zerov[E](l), false), s.poly(zerov[E](rank), true)) }) == nil ||
					try(func() { ev.InvNTTTo(s.poly(zerov[E](rank), false), s.poly(zerov[E](l), true)) }) == nil {
					t.Viol("refuse", "%s: a transform accepts rank %d", what, l)
				}
			}
			t.Eval(fmt.Sprint(what, "ntt", alias, rep))
		}
		// ring multiplication in full
		for k := 0; k < 3; k++ {
			a := s.patVec(r, rank, pat())
			pb := pat()
			if rank > 256 {
				pb = []string{"sparse", "one", "last"}[k]
			}
			b := s.patVec(r, rank, pb)
			want := s.ringMul(biv(a), biv(b), cyc)
			x := ev.InvNTT(ev.Mul(ev.NTT(s.poly(a, false)), ev.NTT(s.poly(b, false))))
			if x.IsNTT || !eqb(biv(x.Coeffs), want) {
				t.Viol("ringmul", "%s: product through the transform is not the ring product", what)
			}
			t.Eval(fmt.Sprint(what, "ringmul", k, rep))
		}
		p := ev.NewPoly(rep%2 == 0)
		if p.IsNTT != (rep%2 == 0) || p.Rank() != rank || nz(biv(p.Coeffs)) != 0 {
			t.Viol("value", "%s: NewPoly is not a zero polynomial of the rank and flag asked for", what)
		}
		// a pooled buffer must not leak into new polynomials
		p.Coeffs[0].SetInt64(5)
		if nz(biv(ev.NewPoly(true).Coeffs)) != 0 {
			t.Viol("value", "%s: NewPoly shares elements", what)
		}
	}
	if cyc {
		s.quoRem(t, rank)
	} else {
		s.autos(t, rank)
		s.modSwitch(t, rank)
	}
	t.Sample("%s: %d operations x representations x aliasing patterns", what, len(ops))
}

func (s *suite[E]) quoRem(t *T, rank int) {
	ev := bigpoly.NewCyclicEvaluator[E](rank)
	var ns []int
	for n := 1; n <= rank; n++ {
		if rank <= 32 || n&(n-1) == 0 || n == rank-1 || n == 3 || n == rank/2+1 {
			ns = append(ns, n)
		}
	}
	ns = append(ns, rank+1, 2*rank)
	for _, n := range ns {
		v := s.patVec(t.R, rank, []string{"rand", "edge", "max", "last"}[t.R.Intn(4)])
		p := s.poly(cpv(v), false)
		quo, rem := ev.QuoRemByVanishing(p, n)
		if !eqv(p.Coeffs, v) || p.IsNTT {
			t.Viol("input", "%s rank %d: QuoRemByVanishing changes its input", s.name, rank)
		}
		q, r := biv(quo.Coeffs), biv(rem.Coeffs)
		// quo * (X^n - 1) + rem = p, over the integers of the field, without wrapping
		o := make([]*big.Int, len(q)+n)
		for i := range o {
			o[i] = new(big.Int)
		}
		for i := range q {
			o[i+n].Add(o[i+n], q[i])
			o[i].Sub(o[i], q[i])
		}
		for i := range r {
			o[i].Add(o[i], r[i])
			if i >= n && r[i].Sign() != 0 {
				t.Viol("value", "%s rank %d: remainder by X^%d-1 has degree %d", s.name, rank, n, i)
			}
		}
		s.modv(o)
		for i := range o {
			var want *big.Int = new(big.Int)
			if i < rank {
				want = bi(v[i])
			}
			if o[i].Cmp(want) != 0 {
				t.Viol("value", "%s rank %d: quotient and remainder by X^%d-1 do not give back the polynomial at %d", s.name, rank, n, i)
				break
			}
		}
		if quo.IsNTT || rem.IsNTT || quo.Rank() != rank || rem.Rank() != rank {
			t.Viol("flag", "%s rank %d: quotient or remainder with a wrong flag or rank", s.name, rank)
		}
		t.Eval(fmt.Sprint(s.name, rank, "quorem", n))
	}
	if try(func() { ev.QuoRemByVanishing(ev.NewPoly(true), 1) }) == nil || try(func() { ev.QuoRemByVanishing(s.poly(zerov[E](2*rank), false), 1) }) == nil {
		t.Viol("refuse", "%s rank %d: QuoRemByVanishing accepts a transformed polynomial or another rank", s.name, rank)
	}
}

// autDef is p(X^idx) modulo X^N+1.
func (s *suite[E]) autDef(v []*big.Int, idx int) []*big.Int {
	N := len(v)
	o := make([]*big.Int, N)
	for i := range o {
		o[i] = new(big.Int)
	}
	for i := range v {
		k := ((i*idx)%(2*N) + 2*N) % (2 * N)
		if k < N {
			o[k].Add(o[k], v[i])
		} else {
			o[k-N].Sub(o[k-N], v[i])
		}
	}
	return s.modv(o)
}

func autIdx(t *T, rank int) []int {
	var is []int
	if rank <= 16 {
		for i := -2*rank - 1; i <= 4*rank+1; i += 2 {
			is = append(is, i)
		}
		return is
	}
	is = append(is, 1, 3, 5, -1, -3, 2*rank-1, 2*rank+1, rank-1, rank+1, 25, -2*rank-1, 6*rank+5)
	for k := 0; k < t.cfg.pick(4, 16); k++ {
		is = append(is, 2*t.R.Intn(4*rank)+1-4*rank)
	}
	return is
}

func (s *suite[E]) autos(t *T, rank int) {
	ev := bigpoly.NewCyclotomicEvaluator[E](rank)
	for _, idx := range autIdx(t, rank) {
		v := s.patVec(t.R, rank, []string{"rand", "edge", "max", "last", "one"}[t.R.Intn(5)])
		want := s.autDef(biv(v), idx)
		for _, ntt := range []bool{false, true} {
			for _, alias := range []bool{false, true} {
				p := s.poly(cpv(v), false)
				if ntt {
					p = ev.NTT(p)
				}
				p0 := cpBP(p)
				o := p
				if !alias {
					x := ev.Aut(p, idx)
					o = s.poly(s.patVec(t.R, rank, "rand"), t.R.Intn(2) == 0)
					ev.AutTo(o, p, idx)
					if !eqv(x.Coeffs, o.Coeffs) || x.IsNTT != ntt {
						t.Viol("value", "%s rank %d: Aut and AutTo %d differ", s.name, rank, idx)
					}
					if !eqv(p.Coeffs, p0.Coeffs) || p.IsNTT != ntt {
						t.Viol("input", "%s rank %d: AutTo %d changes its input", s.name, rank, idx)
					}
				} else {
					ev.AutTo(o, o, idx)
				}
				if o.IsNTT != ntt {
					t.Viol("flag", "%s rank %d: AutTo %d leaves a wrong flag", s.name, rank, idx)
					continue
				}
				c := o
				if ntt {
					c = ev.InvNTT(o)
				}
				if !eqb(biv(c.Coeffs), want) {
					t.Viol("value", "%s rank %d: automorphism %d (transformed=%v, in place=%v) is not p(X^%d)", s.name, rank, idx, ntt, alias, idx)
				}
				t.Eval(fmt.Sprint(s.name, rank, "aut", idx, ntt, alias))
			}
		}
	}
	for _, idx := range []int{0, 2, -2, 2 * rank} {
		if try(func() { ev.Aut(ev.NewPoly(false), idx) }) == nil {
			t.Viol("refuse", "%s rank %d: even automorphism %d is not refused", s.name, rank, idx)
		}
	}
	for _, l := range []int{rank - 1, rank + 1, 2 * rank} {
		for _, ntt := range []bool{false, true} {
			if try(func() { ev.AutTo(s.poly(zerov[E](l), ntt), ev.NewPoly(ntt), 3) }) == nil || try(func() { ev.AutTo(ev.NewPoly(ntt), s.poly(zerov[E](l), ntt), 3) }) == nil {
				t.Viol("refuse", "%s rank %d: automorphism accepts rank %d", s.name, rank, l)
			}
		}
	}
}

func (s *suite[E]) modSwitch(t *T, rank int) {
	ev := bigpoly.NewCyclotomicEvaluator[E](rank)
	r := t.R
	qs := []*big.Int{bigN(2), bigN(3), bigN(97), new(big.Int).Lsh(bigN(1), 61), new(big.Int).Sub(new(big.Int).Lsh(bigN(1), 89), bigN(1)), s.q,
		new(big.Int).Add(s.q, bigN(2)), new(big.Int).Mul(s.q, bigN(2)), new(big.Int).Lsh(s.q, 70), rndFull(r, new(big.Int).Mul(s.q, s.q))}
	for _, q := range qs {
		if q.Sign() == 0 {
			continue
		}
		in := make([]*big.Int, rank)
		for i := range in {
			in[i] = rndFull(r, q)
			switch r.Intn(8) {
			case 0:
				in[i].Sub(q, bigN(1))
			case 1:
				in[i].SetInt64(int64(r.Intn(3)))
				in[i].Mod(in[i], q)
			case 2: // near a rounding boundary
				k := rndFull(r, s.q)
				in[i].Mul(k, q).Mul(in[i], bigN(2)).Add(in[i], q)
				in[i].Div(in[i], new(big.Int).Mul(s.q, bigN(2)))
				in[i].Mod(in[i], q)
			case 3:
				in[i].Neg(in[i])
			}
		}
		in0 := zip(in, in, func(o, x, y *big.Int) { o.Set(x) })
		o := ev.ModSwitch(in, q)
		o2 := s.poly(s.rndv(r, rank), true)
		ev.ModSwitchTo(o2, in, q)
		if !eqb(in, in0) {
			t.Viol("input", "%s rank %d: ModSwitch changes its input", s.name, rank)
		}
		if !eqv(o.Coeffs, o2.Coeffs) || o.IsNTT || o2.IsNTT {
			t.Viol("value", "%s rank %d: ModSwitch and ModSwitchTo differ or leave a wrong flag", s.name, rank)
		}
		for i := range in {
			// |out - in*p/q| <= 1/2 for some representative of out
			n := new(big.Int).Mul(in[i], s.q)
			d := new(big.Int).Mul(bi(o.Coeffs[i]), q)
			d.Sub(d, n)
			m := new(big.Int).Mul(s.q, q)
			d.Mod(d, m)
			if new(big.Int).Lsh(d, 1).Cmp(m) > 0 {
				d.Sub(d, m)
			}
			if d.Abs(d).Lsh(d, 1).Cmp(q) > 0 {
				t.Viol("value", "%s rank %d: ModSwitch of %s from modulus %s is not correctly rounded", s.name, rank, fstr(in0[i]), fstr(q))
				break
			}
		}
		t.Eval(fmt.Sprint(s.name, rank, "modswitch", q))
	}
	for _, l := range []int{rank - 1, rank + 1, 2 * rank} {
		in := make([]*big.Int, max(l, 0))
		for i := range in {
			in[i] = bigN(1)
		}
		if try(func() { ev.ModSwitch(in, bigN(97)) }) == nil {
			t.Viol("refuse", "%s rank %d: ModSwitch accepts %d values", s.name, rank, l)
		}
	}
}

// polyOps covers the operations of polynomials of any length.
func (s *suite[E]) polyOps(t *T) {
	r := t.R
	var ns []int
	for n := 0; n <= t.cfg.pick(70, 300); n++ {
		ns = append(ns, n)
	}
	for k := 7; k <= t.cfg.pick(14, 17); k++ { // around every power of two, and between
		ns = append(ns, 1<<k-1, 1<<k, 1<<k+1, 1<<k+r.Intn(1<<k))
	}
	for _, n := range ns {
		p := bigpoly.NewPoly[E](n, n%2 == 0)
		if p.Rank() != n || p.IsNTT != (n%2 == 0) || nz(biv(p.Coeffs)) != 0 {
			t.Viol("value", "%s: NewPoly(%d) is not zero of that rank and flag", s.name, n)
		}
		v := s.patVec(r, max(n, 1), vecPats[r.Intn(len(vecPats))])[:n]
		src := s.poly(cpv(v), n%3 == 0)
		p.CopyFrom(src)
		if !eqv(p.Coeffs, v) || p.IsNTT != src.IsNTT || !eqv(src.Coeffs, v) {
			t.Viol("value", "%s: CopyFrom of rank %d is not a copy", s.name, n)
		}
		if n > 0 {
			src.Coeffs[n-1].Add(src.Coeffs[n-1], fi[E](1))
			if !eqv(p.Coeffs, v) {
				t.Viol("value", "%s: CopyFrom of rank %d shares elements", s.name, n)
			}
		}
		for _, l := range []int{n - 1, n + 1, 2*n + 8} {
			if l >= 0 && try(func() { bigpoly.NewPoly[E](l, false).CopyFrom(p) }) == nil {
				t.Viol("refuse", "%s: CopyFrom accepts rank %d into %d", s.name, n, l)
			}
		}
		// serialisation
		var cat []byte
		for i := range v {
			cat = append(cat, v[i].Marshal()...)
		}
		m := p.Marshal()
		if !bytes.Equal(m, cat) {
			t.Viol("value", "%s: Marshal of rank %d is not the sequence of its coefficients", s.name, n)
		}
		if n > 0 {
			sz := len(m) / n
			for i := range v {
				x := newE[E]()
				x.Unmarshal(m[i*sz : (i+1)*sz])
				if x.Cmp(v[i]) != 0 {
					t.Viol("value", "%s: coefficient %d does not survive serialisation", s.name, i)
				}
			}
		}
		// evaluation
		for k := 0; k < 3; k++ {
			x := fe[E](rndBig(r, s.q))
			if k == 0 {
				x = fi[E](int64(n % 3))
			}
			x0 := bi(x)
			c := s.poly(cpv(v), false)
			y := c.Evaluate(x)
			if bi(y).Cmp(hornerBig(biv(v), x0, s.q)) != 0 || bi(x).Cmp(x0) != 0 || !eqv(c.Coeffs, v) {
				t.Viol("value", "%s: Evaluate of rank %d is wrong or changes its operands", s.name, n)
			}
		}
		if try(func() { s.poly(cpv(v), true).Evaluate(fi[E](2)) }) == nil {
			t.Viol("refuse", "%s: Evaluate accepts a transformed polynomial", s.name)
		}
		p.Clear()
		if nz(biv(p.Coeffs)) != 0 || p.Rank() != n {
			t.Viol("value", "%s: Clear of rank %d leaves coefficients", s.name, n)
		}
		t.Eval(fmt.Sprint(s.name, "poly", n))
	}
}

func casesC24(cfg Cfg) []Case {
	var cs []Case
	for lg := 15; lg >= 0; lg-- {
		for i, f := range allFields {
			if lg > twoAdic(f.Q) || lg > cfg.pick(11, 13) && (i+lg)%4 != 0 {
				continue
			}
			for _, cyc := range []bool{true, false} {
				f, lg, cyc := f, lg, cyc
				cs = append(cs, Case{Name: fmt.Sprintf("ring/%s/%v/%d", f.Name, cyc, 1<<lg), Run: func(t *T) { f.S.ringOps(t, cyc, 1<<lg) }})
			}
		}
	}
	for i, f := range allFields {
		f := f
		for _, rank := range []int{1, 2, 8, 32 << (i % 4)} {
			cs = append(cs, Case{Name: fmt.Sprintf("read-only/%s/%d", f.Name, rank), Run: func(t *T) { f.S.romPoly(t, rank) }})
		}
		cs = append(cs, Case{Name: "poly/" + f.Name, Run: func(t *T) { f.S.polyOps(t) }})
	}
	return cs
}

func dot(a, b []*big.Int, q *big.Int) *big.Int {
	o, m := new(big.Int), new(big.Int)
	for i := range a {
		o.Add(o, m.Mul(a[i], b[i]))
	}
	return o.Mod(o, q)
}

// linMap checks one built-in linear map; def, when not nil, computes its definition.
func (s *suite[E]) linMap(t *T, what string, c buckler.LinearChecker[E], rank int, def func(x []*big.Int) []*big.Int) {
	one := func(x, y []E) {
		x0, y0 := cpv(x), cpv(y)
		mx, my := s.rndv(t.R, rank), s.rndv(t.R, rank)
		c.TransformTo(mx, x)
		c.TransposeTo(my, y)
		if !eqv(x, x0) || !eqv(y, y0) {
			t.Viol("input", "%s changes its input", what)
		}
		if dot(biv(mx), biv(y), s.q).Cmp(dot(biv(x), biv(my), s.q)) != 0 {
			t.Viol("transpose", "%s: <Mx,y> differs from <x,M^T y>", what)
		}
		if def != nil && !eqb(biv(mx), def(biv(x))) {
			t.Viol("value", "%s: TransformTo does not compute the transform it is named after", what)
		}
		mx2, my2 := zerov[E](rank), zerov[E](rank)
		c.TransposeTo(my2, y)
		c.TransformTo(mx2, x)
		if !eqv(mx, mx2) || !eqv(my, my2) {
			t.Viol("repeat", "%s: a second use gives another result", what)
		}
		t.Eval(fmt.Sprint(what, t.ctr["evaluations"]))
	}
	if rank <= t.cfg.pick(8, 16) {
		for i := 0; i < rank; i++ {
			for j := 0; j < rank; j++ {
				x, y := zerov[E](rank), zerov[E](rank)
				x[i].SetUint64(1)
				y[j].SetUint64(1)
				one(x, y)
			}
		}
	}
	for _, p := range vecPats {
		one(s.patVec(t.R, rank, p), s.patVec(t.R, rank, "rand"))
		one(s.patVec(t.R, rank, "rand"), s.patVec(t.R, rank, p))
	}
}

func (s *suite[E]) linMaps(t *T, rank int) {
	n := bigpoly.NewCyclotomicTransformer[E](rank)
	pw, exp, ok := s.roots(t, n, false)
	if !ok {
		return
	}
	var def func(x []*big.Int) []*big.Int
	if rank <= 128 {
		def = func(x []*big.Int) []*big.Int {
			o := make([]*big.Int, rank)
			for i := range o {
				o[i] = s.valueAt(x, pw, exp[i])
			}
			return o
		}
	} else {
		def = func(x []*big.Int) []*big.Int { // checked by C23
			o := zerov[E](rank)
			n.FwdNTTTo(o, fev[E](x))
			return biv(o)
		}
	}
	s.linMap(t, fmt.Sprintf("%s rank %d negacyclic transform", s.name, rank), buckler.NewNTTChecker[E](rank), rank, def)
	ev := bigpoly.NewCyclotomicEvaluator[E](rank)
	for _, idx := range autIdx(t, rank) {
		for _, ntt := range []bool{false, true} {
			d := func(x []*big.Int) []*big.Int { return s.autDef(x, idx) }
			if ntt {
				at := make(map[int]int, rank)
				for i, e := range exp {
					at[e] = i
				}
				d = func(x []*big.Int) []*big.Int { // values at w^e become values at w^(e*idx)
					o := make([]*big.Int, rank)
					for i, e := range exp {
						o[i] = x[at[((e*idx)%(2*rank)+2*rank)%(2*rank)]]
					}
					return o
				}
			}
			s.linMap(t, fmt.Sprintf("%s rank %d automorphism %d transformed=%v", s.name, rank, idx, ntt), buckler.NewAutChecker[E](ev, idx, ntt), rank, d)
		}
	}
	for _, idx := range []int{0, 2, -2, 2 * rank} {
		if try(func() {
			c := buckler.NewAutChecker[E](ev, idx, false)
			c.TransformTo(zerov[E](rank), zerov[E](rank))
		}) == nil {
			t.Viol("refuse", "%s rank %d: even automorphism %d is not refused", s.name, rank, idx)
		}
	}
	t.Sample("%s rank %d: negacyclic transform and automorphisms %v", s.name, rank, autIdx(t, rank)[:3])
}

// linLong checks the built-in maps at ranks of more than sixteen bits.
func (s *suite[E]) linLong(t *T, rank int) {
	ev := bigpoly.NewCyclotomicEvaluator[E](rank)
	for _, m := range []struct {
		name string
		c    buckler.LinearChecker[E]
	}{{"negacyclic transform", buckler.NewNTTChecker[E](rank)}, {"automorphism 5", buckler.NewAutChecker[E](ev, 5, false)}, {"automorphism -1", buckler.NewAutChecker[E](ev, 2*rank-1, false)}} {
		x, y := s.rndv(t.R, rank), s.rndv(t.R, rank)
		mx, my := zerov[E](rank), zerov[E](rank)
		m.c.TransformTo(mx, x)
		m.c.TransposeTo(my, y)
		if dot(biv(mx), biv(y), s.q).Cmp(dot(biv(x), biv(my), s.q)) != 0 {
			t.Viol("transpose", "%s rank %d, %s: <Mx,y> differs from <x,M^T y>", s.name, rank, m.name)
		}
		t.Eval(fmt.Sprint("long", rank, m.name))
		t.N("long_maps", 1)
	}
}

func casesC26(cfg Cfg) []Case {
	var cs []Case
	for lg := 15; lg >= 0; lg-- {
		for i, f := range allFields {
			f, lg := f, lg
			if lg > twoAdic(f.Q) || lg > cfg.pick(11, 13) && (i+lg)%4 != 0 {
				continue
			}
			if lg > 10 && f.Q.BitLen() > 500 {
				continue
			}
			cs = append(cs, Case{Name: fmt.Sprintf("maps/%s/%d", f.Name, 1<<lg), Run: func(t *T) { f.S.linMaps(t, 1<<lg) }})
		}
	}
	for lg, fs := range map[int][]string{16: {"zp110", "zp255"}, 17: {"zp220", "zp440"}} {
		for i, f := range fs {
			if lg == 16 && i == 0 || cfg.Thorough {
				cs = append([]Case{{Name: fmt.Sprintf("long/%s/%d", f, 1<<lg), Run: func(t *T) { field(f).S.linLong(t, 1<<lg) }}}, cs...)
			}
		}
	}
	return append(cs, casesC26Derived(cfg)...)
}
