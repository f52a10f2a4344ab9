package main

import (
	"fmt"
	"math/big"

	"github.com/sp301415/ringo-snark/buckler"
	"github.com/sp301415/ringo-snark/jindo"
)

// Statements, proofs and polynomials that live at the same addresses throughout and change
// in place between calls: nothing an instance remembers about an address may matter.

func (s *suite[E]) bkInPlace(t *T, rank, k int) {
	what := fmt.Sprintf("%s rank %d", s.name, rank)
	b := s.builder(t.R, rank)
	zero := func() []*big.Int { return zerovBig(rank) }
	p0, p1 := b.pub(zero()), b.pub(zero())
	w0, w1, w3 := b.sec(zero()), b.sec(zero()), b.sec(zero())
	m1 := new(big.Int).Sub(s.q, bigN(1))
	b.sp.arith = append(b.sp.arith, []term{{bigN(1), -1, []int{w0, w1}}, {m1, p0, nil}})
	b.sp.sums = append(b.sp.sums, sumC{ts: []term{{bigN(1), p1, []int{w0}}}, sum: bigN(0)})
	w2 := b.lin(w0, b.randChk())
	b.sp.norms = append(b.sp.norms, normC{w3, bigN(6), "inf"})
	in, err := s.compile(b.sp, "in place")
	if err != nil {
		t.Viol("compile", "%s: %v", what, err)
		return
	}
	// a random satisfying assignment
	draw := func() vals {
		v := b.v.clone()
		sum := new(big.Int)
		for i := 0; i < rank; i++ {
			v.sec[w0][i] = rndFull(t.R, s.q)
			v.sec[w1][i] = rndFull(t.R, s.q)
			v.sec[w3][i] = new(big.Int).Mod(bigN(int64(t.R.Intn(13)-6)), s.q)
			v.pub[p1][i] = rndFull(t.R, s.q)
			x := new(big.Int).Mul(v.sec[w0][i], v.sec[w1][i])
			v.pub[p0][i] = x.Mod(x, s.q)
			if i+1 < rank {
				sum.Add(sum, new(big.Int).Mul(v.sec[w0][i], v.pub[p1][i]))
			}
		}
		l := rank - 1
		if inv := new(big.Int).ModInverse(v.sec[w0][l], s.q); inv != nil {
			v.pub[p1][l] = inv.Mul(inv, sum.Neg(sum))
			v.pub[p1][l].Mod(v.pub[p1][l], s.q)
		}
		o := zerov[E](rank)
		s.makeChk(b.sp.chks[b.sp.lins[0].chk], rank).TransformTo(o, fev[E](v.sec[w0]))
		v.sec[w2] = biv(o)
		return v
	}
	full := s.assigned(b.sp, b.v, true)
	pub := s.assigned(b.sp, b.v, false)
	set := func(to []E, x []*big.Int) {
		for i := range to {
			to[i].Set(fe[E](x[i]))
		}
	}
	type rec struct {
		v  vals
		pf *buckler.Proof[E]
	}
	var old []rec
	for n := 0; n < t.cfg.pick(5, 20); n++ {
		v := draw()
		if viol := s.violated(b.sp, v); len(viol) > 0 {
			t.N("assignment_not_found", 1)
			continue
		}
		what := fmt.Sprintf("%s, statement %d in the same memory", what, n)
		for j := range v.pub {
			set(full.Pub[j], v.pub[j])
			set(pub.Pub[j], v.pub[j])
		}
		for j := range v.sec {
			set(full.Sec[j], v.sec[j])
		}
		pf, err := in.prv.Prove(full)
		if err != nil {
			t.Viol("in-place", "%s: %v", what, err)
			return
		}
		t.Eval(what)
		if !in.vrf.Verify(pub, pf) {
			t.Viol("in-place", "%s: honest proof rejected", what)
			return
		}
		for i, r := range old {
			if in.vrf.Verify(pub, r.pf) {
				t.Viol("in-place", "%s: accepted with the proof of statement %d", what, i)
			}
		}
		// values change in place and back again
		e := pub.Pub[t.R.Intn(2)][t.R.Intn(rank)]
		for _, x := range []E{e, pf.Evals[t.R.Intn(len(pf.Evals))], pf.SumCheckMaskSum, pf.LinCheckMaskSum} {
			sav := cp(x)
			x.Add(x, fi[E](1))
			if in.vrf.Verify(pub, pf) {
				t.Viol("in-place", "%s: accepted after a value changed in place", what)
			}
			x.Set(sav)
			if !in.vrf.Verify(pub, pf) {
				t.Viol("in-place", "%s: rejected after a value was restored", what)
				return
			}
			t.N("decisions", 2)
		}
		c := pf.Witness[t.R.Intn(len(pf.Witness))].Value[0].Coeffs[0]
		c[0] ^= 1
		if in.vrf.Verify(pub, pf) {
			t.Viol("in-place", "%s: accepted after a commitment changed in place", what)
		}
		c[0] ^= 1
		if !in.vrf.Verify(pub, pf) {
			t.Viol("in-place", "%s: rejected after a commitment was restored", what)
			return
		}
		// a false statement in the same memory
		x := full.Sec[[]int{w0, w1, w2}[t.R.Intn(3)]][t.R.Intn(rank)]
		x.Add(x, fi[E](1))
		f := v.clone()
		for j := range f.sec {
			f.sec[j] = biv(full.Sec[j])
		}
		if len(s.violated(b.sp, f)) > 0 {
			if pf, err := in.prv.Prove(full); err == nil && in.vrf.Verify(pub, pf) {
				t.Viol("in-place", "%s: accepted after a secret entry changed in place", what)
			}
			t.N("decisions", 1)
		}
		old = append(old, rec{v, pf})
		// the vectors of the next statement change places
		if n%2 == 1 {
			full.Pub[0], full.Pub[1] = full.Pub[1], full.Pub[0]
			full.Sec[0], full.Sec[1] = full.Sec[1], full.Sec[0]
			pub.Pub[0], pub.Pub[1] = pub.Pub[1], pub.Pub[0]
		}
	}
	// old statements return
	for i, r := range old {
		for j := range r.v.pub {
			set(pub.Pub[j], r.v.pub[j])
		}
		if !in.vrf.Verify(pub, r.pf) {
			t.Viol("in-place", "%s: statement %d rejected when it returns", what, i)
		}
	}
}

func (s *suite[E]) pcsInPlace(t *T, n, b int) {
	what := cfgStr(s.name, n, b)
	p := s.newPCS(n, b, []byte("in place"))
	polys := make([][]E, b)
	coms := make([]*jindo.Commitment, b)
	opens := make([]*jindo.Opening, b)
	for i := range polys {
		polys[i] = zerov[E](min(n, p.params.Rank()))
	}
	x := newE[E]()
	for it := 0; it < t.cfg.pick(4, 16); it++ {
		cs := make([]committed[E], b)
		for i := range polys {
			if it > 0 && t.R.Intn(4) == 0 {
				// unchanged, and still committed to
			} else {
				for j := range polys[i] {
					polys[i][j].Set(fe[E](rndBig(t.R, s.q)))
				}
				coms[i], opens[i] = p.prv.Commit(polys[i])
			}
			cs[i] = committed[E]{polys[i], coms[i], opens[i]}
		}
		x.Set(s.point(t.R, it))
		ys, pf := p.prv.Evaluate(x, polys, coms, opens)
		t.Eval(fmt.Sprint(what, it))
		for i, e := range s.expEvals(cs, x) {
			if bi(ys[i]).Cmp(e) != 0 {
				t.Viol("in-place", "%s: evaluation %d of polynomials that changed in place is wrong", what, i)
				return
			}
		}
		if !p.vrf.Verify(x, coms, ys, pf) {
			t.Viol("in-place", "%s: honest opening %d in the same memory rejected", what, it)
			return
		}
		for _, e := range []E{x, ys[t.R.Intn(b)]} {
			sav := cp(e)
			e.Add(e, fi[E](1))
			if p.vrf.Verify(x, coms, ys, pf) {
				t.Viol("in-place", "%s: accepted after a value changed in place", what)
			}
			e.Set(sav)
			if !p.vrf.Verify(x, coms, ys, pf) {
				t.Viol("in-place", "%s: rejected after a value was restored", what)
				return
			}
			t.N("decisions", 2)
		}
		for _, l := range [][]uint64{coms[0].Value[0].Coeffs[0], pf.PartialMask.Coeffs[0], pf.InCommit[0].Coeffs[0]} {
			l[0] ^= 1
			if p.vrf.Verify(x, coms, ys, pf) {
				t.Viol("in-place", "%s: accepted after a component changed in place", what)
			}
			l[0] ^= 1
			if !p.vrf.Verify(x, coms, ys, pf) {
				t.Viol("in-place", "%s: rejected after a component was restored", what)
				return
			}
			t.N("decisions", 2)
		}
	}
}
