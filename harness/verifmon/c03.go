package main

import (
	"fmt"
	"math/big"

	"github.com/sp301415/ringo-snark/jindo"
	"github.com/tuneinsight/lattigo/v6/ring"
)

func casesC03(cfg Cfg) []Case {
	var cs []Case
	cfgs := []pcsCfg{
		{"zp255", 600, 1}, {"zp255", 300, 2}, {"zp255", 2100, 3}, {"zp110", 800, 2}, {"zp110", 100, 1}, {"zp220", 256, 4}, {"zp220", 2048, 1},
		{"zp440", 300, 2}, {"zp440", 900, 1}, {"zp880", 300, 2}, {"zp128", 700, 1}, {"zp240", 500, 2},
	}
	if cfg.Thorough {
		cfgs = append(cfgs, pcsCfg{"zp255", 8192, 2}, pcsCfg{"zp220", 5000, 5}, pcsCfg{"zp110", 4096, 1}, pcsCfg{"zp440", 3000, 3}, pcsCfg{"zp880", 2500, 1}, pcsCfg{"zp220", 40, 70}, pcsCfg{"zp255", 40000, 1}, pcsCfg{"zp110", 20, 140})
	}
	for _, c := range cfgs {
		for k := 0; k < cfg.pick(2, 10); k++ {
			c, k := c, k
			cs = append(cs, Case{Name: fmt.Sprintf("mutate/%s/%d", c, k), Run: func(t *T) { field(c.f).S.mutate(t, c.n, c.b, k) }})
		}
	}
	if !cfg.Thorough {
		for _, c := range []pcsCfg{{"zp110", 4096, 1}, {"zp220", 40, 18}, {"zp255", 20000, 1}} {
			cs = append([]Case{{Name: fmt.Sprintf("mutate/%s/0", c), Run: func(t *T) { field(c.f).S.mutate(t, c.n, c.b, 0) }}}, cs...)
		}
	}
	return cs
}

// bump changes one residue of a polynomial to another canonical residue.
func bump(r *ring.Ring, p ring.Poly, l, i int, d uint64) {
	m := r.SubRings[l].Modulus
	d %= m
	if d == 0 {
		d = 1
	}
	p.Coeffs[l][i] = (p.Coeffs[l][i]%m + d) % m
}

func (s *suite[E]) mutate(t *T, n, b, k int) {
	crs := crsBase(t.R, k)
	p := s.newPCS(n, b, crs)
	pr := p.params
	var A, B []committed[E]
	for i := 0; i < b; i++ {
		A = append(A, p.commit(s.rndv(t.R, pr.Rank()-t.R.Intn(pr.Slots()))))
		B = append(B, p.commit(s.rndv(t.R, pr.Rank())))
	}
	x := s.point(t.R, k)
	y, pf := p.evaluate(x, A)
	what := cfgStr(s.name, n, b)
	if !p.accept(t, x, coms(A), y, pf) {
		t.Viol("reject", "%s: honest proof rejected", what)
		return
	}
	x2 := s.rnd(t.R)
	yB, pfB := p.evaluate(x, B)  // another statement, same point
	y2, pf2 := p.evaluate(x2, A) // same commitments, other point
	y3, pf3 := p.evaluate(x, A)  // the same statement again: equal by determinism of the opening
	_ = y3
	rej := func(kind string, x E, cs []*jindo.Commitment, y []E, pf *jindo.Proof) {
		t.Eval(what + "/" + kind + "/" + fmt.Sprint(k))
		t.N("alterations_judged", 1)
		if p.accept(t, x, cs, y, pf) {
			t.Viol("altered-accepted", "%s: still accepted after: %s", what, kind)
		}
	}
	comsA := coms(A)
	rQ, rO := pr.RingQ(), pr.RingQOut()
	N := rQ.N()
	dd := func() uint64 { return []uint64{1, 2, ^uint64(0) >> 1, t.R.Uint64()}[t.R.Intn(4)] }

	// statement
	for _, d := range []*big.Int{big.NewInt(1), big.NewInt(-1), rndFull(t.R, s.q)} {
		z := cp(x)
		z.Add(z, fe[E](new(big.Int).Mod(d, s.q)))
		if z.Cmp(x) != 0 {
			rej("point changed", z, comsA, y, pf)
		}
	}
	rej("point exchanged", x2, comsA, y, pf)
	for i := range y {
		z := cpv(y)
		z[i].Add(z[i], s.rndNZ(t.R))
		rej(fmt.Sprint("value ", i), x, comsA, z, pf)
		z = cpv(y)
		z[i].Sub(z[i], fi[E](1))
		rej(fmt.Sprint("value-1 ", i), x, comsA, z, pf)
	}
	for i := range comsA {
		for c := range comsA[i].Value {
			for _, l := range uniq(0, rO.Level(), t.R.Intn(rO.Level()+1)) {
				for _, idx := range uniq(0, N-1, t.R.Intn(N)) {
					z := cpComs(comsA)
					bump(rO, z[i].Value[c], l, idx, dd())
					rej(fmt.Sprintf("commitment %d[%d] limb %d", i, c, l), x, z, y, pf)
				}
			}
		}
		z := cpComs(comsA)
		z[i] = B[i].com
		rej("commitment exchanged", x, z, y, pf)
		if len(comsA[i].Value) > 1 {
			z := cpComs(comsA)
			z[i].Value[0], z[i].Value[1] = z[i].Value[1], z[i].Value[0]
			rej("commitment components swapped", x, z, y, pf)
		}
		// the same data committed afresh
		c2, _ := p.prv.Commit(A[i].v)
		z = cpComs(comsA)
		z[i] = c2
		rej("commitment remade", x, z, y, pf)
	}
	if b > 1 {
		i, j := 0, 1+t.R.Intn(b-1)
		z := append([]*jindo.Commitment(nil), comsA...)
		z[i], z[j] = z[j], z[i]
		rej("commitments reordered", x, z, y, pf)
		w := cpv(y)
		w[i], w[j] = w[j], w[i]
		rej("commitments and values reordered", x, z, w, pf)
	}
	for _, c := range crsVariants(t.R, crs) {
		v2 := jindo.NewVerifier[E](pr, c)
		t.Eval(what + "/crs")
		t.N("alterations_judged", 1)
		ok := false
		try(func() { ok = v2.Verify(x, comsA, y, pf) })
		if ok {
			t.Viol("altered-accepted", "%s: still accepted under another reference string", what)
		}
	}
	// proof
	type part struct {
		name string
		r    *ring.Ring
		get  func(f *jindo.Proof) []ring.Poly
	}
	parts := []part{
		{"inner commitments", rO, func(f *jindo.Proof) []ring.Poly { return f.InCommit }},
		{"partial evaluations", rQ, func(f *jindo.Proof) []ring.Poly { return f.Partial }},
		{"partial mask", rQ, func(f *jindo.Proof) []ring.Poly { return []ring.Poly{f.PartialMask} }},
		{"encoding responses", rQ, func(f *jindo.Proof) []ring.Poly { return f.Encode }},
		{"randomness responses", rQ, func(f *jindo.Proof) []ring.Poly { return f.MLWE }},
	}
	same := func(a, b *jindo.Proof) bool {
		for _, pt := range parts {
			x, y := pt.get(a), pt.get(b)
			for i := range x {
				for l := range pt.r.SubRings {
					for k := range x[i].Coeffs[l] {
						if x[i].Coeffs[l][k] != y[i].Coeffs[l][k] {
							return false
						}
					}
				}
			}
		}
		return true
	}
	for _, pt := range parts {
		m := len(pt.get(pf))
		var is []int
		for i := 0; i < m; i++ {
			is = append(is, i)
		}
		if m > 12 && !t.cfg.Thorough {
			is = uniq(0, 1, m-1, m-2, pr.MLWERank()%m, (pr.MLWERank()+1)%m, t.R.Intn(m), t.R.Intn(m), t.R.Intn(m))
		}
		for _, i := range is {
			for _, l := range uniq(0, pt.r.Level()) {
				z := cpProof(pf)
				bump(pt.r, pt.get(z)[i], l, t.R.Intn(N), dd())
				rej(fmt.Sprintf("%s %d limb %d", pt.name, i, l), x, comsA, y, z)
			}
			for _, how := range []string{"zero", "neg", "double"} {
				z := cpProof(pf)
				q := pt.get(z)[i]
				for l := range pt.r.SubRings {
					m := pt.r.SubRings[l].Modulus
					for c := range q.Coeffs[l] {
						v := q.Coeffs[l][c] % m
						switch how {
						case "zero":
							v = 0
						case "neg":
							v = (m - v) % m
						case "double":
							v = (v + v) % m
						}
						q.Coeffs[l][c] = v
					}
				}
				if !same(z, pf) && !(pt.name == "randomness responses" && i >= pr.MLWERank()) {
					rej(fmt.Sprintf("%s %d %s", pt.name, i, how), x, comsA, y, z)
				}
			}
			// spliced from other proofs
			for oi, o := range []*jindo.Proof{pfB, pf2, pf3} {
				z := cpProof(pf)
				pt.get(z)[i].Copy(pt.get(o)[i])
				if !same(z, pf) && !(pt.name == "randomness responses" && i >= pr.MLWERank()) {
					rej(fmt.Sprintf("%s %d from proof %d", pt.name, i, oi), x, comsA, y, z)
				}
			}
			if i+1 < m && !(pt.name == "randomness responses" && i >= pr.MLWERank()) {
				z := cpProof(pf)
				q := pt.get(z)
				for l := range q[i].Coeffs {
					for c := range q[i].Coeffs[l] {
						q[i].Coeffs[l][c], q[i+1].Coeffs[l][c] = q[i+1].Coeffs[l][c], q[i].Coeffs[l][c]
					}
				}
				if !same(z, pf) {
					rej(fmt.Sprintf("%s %d and %d swapped", pt.name, i, i+1), x, comsA, y, z)
				}
			}
		}
		// the whole part from another proof
		for oi, o := range []*jindo.Proof{pfB, pf2} {
			z := cpProof(pf)
			for i := range pt.get(z) {
				pt.get(z)[i].Copy(pt.get(o)[i])
			}
			if !same(z, pf) {
				rej(fmt.Sprintf("all %s from proof %d", pt.name, oi), x, comsA, y, z)
			}
		}
	}
	// alterations made before the later messages are computed: the rest of the proof follows the altered message.
	for _, l := range uniq(0, rQ.Level()) {
		for i := -1; i < pr.Cols(); i++ {
			if i > 1 && i != pr.Cols()-1 && !t.cfg.Thorough {
				continue
			}
			for _, idx := range uniq(0, N-1, t.R.Intn(N)) {
				d := dd()
				setHooks(nil, func(stage string, args ...any) {
					if stage != "partial" {
						return
					}
					f := args[0].(*jindo.Proof)
					if i < 0 {
						bump(rQ, f.PartialMask, l, idx, d)
					} else {
						bump(rQ, f.Partial[i], l, idx, d)
					}
				})
				y4, z := p.evaluate(x, A)
				setHooks(nil, nil)
				rej(fmt.Sprintf("partial evaluation %d (-1 is the mask) limb %d, before the rest", i, l), x, comsA, y4, z)
			}
		}
	}
	rej("proof of other commitments", x, comsA, y, pfB)
	rej("proof of other commitments and values", x, comsA, yB, pfB)
	rej("proof at other point", x, comsA, y, pf2)
	rej("proof and values of other point", x, comsA, y2, pf2)
	if !p.accept(t, x, comsA, y, pf) {
		t.Viol("reject", "%s: unaltered proof rejected after the alterations", what)
	}
	t.Sample("%s: %d alterations rejected", what, t.ctr["alterations_judged"])
}
