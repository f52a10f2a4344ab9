package main

import (
	"fmt"
	"math/big"

	"github.com/sp301415/ringo-snark/jindo"
	"github.com/tuneinsight/lattigo/v6/ring"
)

func casesC02(cfg Cfg) []Case {
	var cs []Case
	cfgs := []pcsCfg{
		{"zp255", 256, 2}, {"zp255", 2000, 3}, {"zp255", 700, 1}, {"zp110", 1000, 1}, {"zp110", 500, 2}, {"zp220", 1000, 4}, {"zp220", 2100, 1}, {"zp220", 150, 2},
		{"zp440", 400, 2}, {"zp440", 700, 1}, {"zp880", 300, 1}, {"zp880", 500, 2}, {"zp128", 900, 2}, {"zp240", 600, 2}, {"zp240", 300, 1},
	}
	if cfg.Thorough {
		cfgs = append(cfgs, pcsCfg{"zp255", 8192, 2}, pcsCfg{"zp220", 6000, 5}, pcsCfg{"zp110", 4096, 8}, pcsCfg{"zp440", 3000, 3}, pcsCfg{"zp880", 2500, 3}, pcsCfg{"zp128", 3000, 1})
	}
	for _, c := range cfgs {
		for k := 0; k < cfg.pick(2, 8); k++ {
			c, k := c, k
			cs = append(cs, Case{Name: fmt.Sprintf("false/%s/%d", c, k), Run: func(t *T) { field(c.f).S.falseClaims(t, c.n, c.b, k) }})
		}
	}
	if !cfg.Thorough {
		for _, c := range []pcsCfg{{"zp255", 8192, 2}, {"zp110", 4096, 8}, {"zp255", 20000, 1}, {"zp220", 40, 36}} {
			cs = append([]Case{{Name: fmt.Sprintf("false/%s/0", c), Run: func(t *T) { field(c.f).S.falseClaims(t, c.n, c.b, 0) }}}, cs...)
		}
	}
	cs = append(append(cs, overDegreeCases(cfg)...), keyCases(cfg)...)
	pairs := []pcsCfg{{"zp255", 64, 36}, {"zp220", 40, 20}, {"zp880", 20, 18}, {"zp255", 32768, 1}, {"zp110", 4096, 2}}
	if cfg.Thorough {
		pairs = append(pairs, pcsCfg{"zp255", 100, 140}, pcsCfg{"zp110", 64, 70}, pcsCfg{"zp440", 64, 33}, pcsCfg{"zp220", 131072, 1}, pcsCfg{"zp255", 131072, 1}, pcsCfg{"zp255", 8192, 20})
	}
	lies := []pcsCfg{{"zp255", 300, 1}, {"zp110", 300, 1}, {"zp220", 100, 1}, {"zp440", 100, 1}, {"zp880", 60, 1}, {"zp128", 200, 1}, {"zp240", 100, 1}, {"zp255", 100, 2}}
	if cfg.Thorough {
		lies = append(lies, pcsCfg{"zp255", 4096, 1}, pcsCfg{"zp880", 1000, 1}, pcsCfg{"zp440", 300, 3}, pcsCfg{"zp110", 2000, 1}, pcsCfg{"zp880", 100, 2})
	}
	for _, c := range lies {
		c := c
		cs = append([]Case{{Name: fmt.Sprintf("lies/%s", c), Run: func(t *T) { field(c.f).S.lies(t, c.n, c.b, cfg.pick(64, 8)) }}}, cs...)
	}
	for _, c := range pairs {
		c := c
		cs = append([]Case{{Name: fmt.Sprintf("pairs/%s", c), Run: func(t *T) { field(c.f).S.falsePairs(t, c.n, c.b) }}}, cs...)
	}
	return cs
}

// accept runs the verifier; a panic is a refusal for the purposes of the soundness monitors.
func (p *pcs[E]) accept(t *T, x E, cs []*jindo.Commitment, y []E, pf *jindo.Proof) bool {
	ok := false
	if pn := try(func() { ok = p.vrf.Verify(x, cs, y, pf) }); pn != nil {
		t.N("refused_by_panic", 1)
		return false
	}
	return ok
}

func (s *suite[E]) falseClaims(t *T, n, b, k int) {
	p := s.newPCS(n, b, []byte(fmt.Sprint("false", k)))
	q := s.q
	var A, B []committed[E]
	for i := 0; i < b; i++ {
		A = append(A, p.commit(s.polyPattern(t.R, p.params.Rank()-t.R.Intn(p.params.Slots()+1), []string{"rand", "mixed", "sparse"}[t.R.Intn(3)], p.params.Base(), p.params.Exp())))
		B = append(B, p.commit(s.rndv(t.R, p.params.Rank())))
	}
	x := s.rnd(t.R)
	truth := s.expEvals(A, x)
	what := cfgStr(s.name, n, b)
	// claim checks that a false claim is rejected; a claim that happens to be true is not counted.
	claim := func(kind string, y []E, cs []*jindo.Commitment, truth []*big.Int, pf *jindo.Proof) {
		false_ := false
		for i := range y {
			if bi(y[i]).Cmp(truth[i]) != 0 {
				false_ = true
			}
		}
		if !false_ {
			t.N("claims_true_by_chance", 1)
			return
		}
		t.Eval(what + "/" + kind + "/" + fmt.Sprint(k))
		t.N("false_claims_judged", 1)
		if p.accept(t, x, cs, y, pf) {
			t.Viol("false-claim", "%s: false claim accepted (%s); claimed y[0]=%s, true %s", what, kind, fstr(bi(y[0])), fstr(truth[0]))
		}
	}
	startInstr()
	y, pf := p.evaluate(x, A)
	if !p.accept(t, x, coms(A), y, pf) {
		resetInstr()
		t.Viol("reject", "%s: honest proof rejected", what)
		return
	}
	resetInstr()
	ycp := func() []E { return cpv(y) }

	// 1. the claimed values alone are changed.
	for i := 0; i < b; i++ {
		for _, d := range []*big.Int{big.NewInt(1), new(big.Int).Sub(q, big.NewInt(1)), rndFull(t.R, q), new(big.Int).SetUint64(p.params.Base()), new(big.Int).Rsh(q, 1)} {
			z := ycp()
			z[i].Add(z[i], fe[E](d))
			claim("value+d", z, coms(A), truth, pf)
		}
	}
	if b > 1 {
		z := ycp()
		z[0], z[1] = z[1], z[0]
		claim("values swapped", z, coms(A), truth, pf)
		d := s.rndNZ(t.R)
		z = ycp()
		z[0].Add(z[0], d)
		z[1].Sub(z[1], d)
		claim("cancelling values", z, coms(A), truth, pf)
	}
	// 2. the claimed values are chosen after the batching challenges are known.
	if b > 1 {
		for _, who := range []string{"verifier", "prover"} {
			startInstr()
			if who == "verifier" {
				p.accept(t, x, coms(A), y, pf)
			} else {
				y, pf = p.evaluate(x, A)
			}
			reads := xofReads()
			resetInstr()
			if len(reads) < 16*b {
				t.N("no_transcript", 1)
				continue
			}
			for _, m := range chalMods(p.params) {
				for _, pr := range [][2]int{{0, 1}, {b - 1, 0}, {b / 2, b - 1}} {
					i, j := pr[0], pr[1]
					if i == j {
						continue
					}
					bi_ := chalField(p.params, q, chalDigits(reads[16*i:16*i+16], m, p.params.Exp()))
					bj_ := chalField(p.params, q, chalDigits(reads[16*j:16*j+16], m, p.params.Exp()))
					z := ycp()
					d := s.rndNZ(t.R)
					z[i].Add(z[i], newE[E]().Mul(d, fe[E](bj_)))
					z[j].Sub(z[j], newE[E]().Mul(d, fe[E](bi_)))
					claim("adaptive values", z, coms(A), truth, pf)
				}
			}
		}
	}
	// 3. openings of other polynomials, in whole or in part.
	mix := func(kind string, f func(a, b *jindo.Opening, i int)) {
		for _, i := range uniq(0, b-1, t.R.Intn(b)) {
			op := cpOpeningShallow(A[i].open)
			f(op, B[i].open, i)
			for _, vv := range [][]E{B[i].v, A[i].v} {
				cs := append([]committed[E](nil), A...)
				cs[i] = committed[E]{vv, A[i].com, op}
				// The claim that the replaced opening itself supports, in the transcript and outside of it.
				w := s.supported(p, x, cs, i, truth)
				ls := append([]committed[E](nil), cs...)
				ls[i].v = s.lying(A[i].v, truth[i], bi(w[i]))
				lz, lpf := p.evaluate(x, ls)
				claim("mix "+kind+" (supported)", lz, coms(A), truth, lpf)
				z, pf := p.evaluate(x, cs)
				claim("mix "+kind+" (supported, afterwards)", w, coms(A), truth, pf)
				claim("mix "+kind, z, coms(A), truth, pf)
			}
		}
	}
	mix("whole", func(a, b *jindo.Opening, i int) { *a = *cpOpeningShallow(b) })
	mix("encode", func(a, b *jindo.Opening, i int) { a.Encode = b.Encode })
	mix("encode+mlwe", func(a, b *jindo.Opening, i int) { a.Encode, a.MLWE = b.Encode, b.MLWE })
	mix("incommit", func(a, b *jindo.Opening, i int) { a.InCommit = b.InCommit })
	for _, r := range uniq(0, 1, p.params.Rows()-1, t.R.Intn(p.params.Rows())) {
		mix(fmt.Sprint("row ", r), func(a, b *jindo.Opening, i int) {
			for c := range a.Encode {
				a.Encode[c][r] = b.Encode[c][r]
			}
		})
	}
	for _, c := range uniq(0, p.params.Cols()-1, t.R.Intn(p.params.Cols())) {
		mix(fmt.Sprint("column ", c), func(a, b *jindo.Opening, i int) {
			a.Encode[c] = b.Encode[c]
			a.MLWE[c] = b.MLWE[c]
		})
	}
	// 4. a whole proof about other polynomials, for these commitments.
	zb, pfb := p.evaluate(x, B)
	claim("foreign proof", zb, coms(A), truth, pfb)
	claim("own values, foreign proof", zb, coms(A), truth, pf)

	// 5. partial evaluations made up to support a false value.
	for _, c := range uniq(0, p.params.Cols()-1, t.R.Intn(p.params.Cols())) {
		for _, sl := range uniq(0, p.params.Slots()-1, t.R.Intn(p.params.Slots())) {
			for _, how := range []string{"plain", "mask before", "mask after", "pair before", "pair after"} {
				if (how == "pair after" || how == "pair before") && p.params.Cols() < 2 {
					continue
				}
				s.forgePartial(t, p, x, A, truth, c, sl, how, claim)
			}
		}
	}
	t.Sample("%s rank %d: %d false claims rejected", what, p.params.Rank(), t.ctr["false_claims_judged"])
}

// falsePairs makes false claims about two polynomials, or two columns of one, at every distance, that compensate
// each other if the two share a challenge.
func (s *suite[E]) falsePairs(t *T, n, b int) {
	p := s.newPCS(n, b, []byte("pairs"))
	pr := p.params
	var A []committed[E]
	for i := 0; i < b; i++ {
		A = append(A, p.commit(s.rndv(t.R, pr.Rank()-t.R.Intn(3))))
	}
	x := s.rnd(t.R)
	truth := s.expEvals(A, x)
	what := cfgStr(s.name, n, b)
	if y, pf := p.evaluate(x, A); !p.accept(t, x, coms(A), y, pf) {
		t.Viol("reject", "%s: honest proof rejected", what)
		return
	}
	claim := func(kind string, y []E, pf *jindo.Proof) {
		wrong := 0
		for i := range y {
			if bi(y[i]).Cmp(truth[i]) != 0 {
				wrong++
			}
		}
		if wrong == 0 {
			t.N("claims_true_by_chance", 1)
			return
		}
		t.Eval(what + "/" + kind)
		t.N("false_claims_judged", 1)
		if p.accept(t, x, coms(A), y, pf) {
			t.Viol("false-claim", "%s: false claim accepted (%s)", what, kind)
		}
	}
	for d := 1; d < b; d++ {
		i := t.R.Intn(b - d)
		j := i + d
		// The values move by opposite amounts, in the transcript.
		cs := append([]committed[E](nil), A...)
		e := s.rndNZ(t.R)
		cs[i].v = s.lying(A[i].v, truth[i], new(big.Int).Add(truth[i], bi(e)))
		cs[j].v = s.lying(A[j].v, truth[j], new(big.Int).Sub(truth[j], bi(e)))
		y, pf := p.evaluate(x, cs)
		claim(fmt.Sprintf("opposite errors at distance %d", d), y, pf)
		// The openings, with their values, are exchanged.
		cs = append([]committed[E](nil), A...)
		cs[i] = committed[E]{A[j].v, A[i].com, A[j].open}
		cs[j] = committed[E]{A[i].v, A[j].com, A[i].open}
		y, pf = p.evaluate(x, cs)
		claim(fmt.Sprintf("openings at distance %d exchanged", d), y, pf)
		t.N("polynomial_pairs", 1)
	}
	for d := 1; d < pr.Cols(); d++ {
		c := t.R.Intn(pr.Cols() - d)
		c2 := c + d
		i := t.R.Intn(b)
		op := cpOpeningShallow(A[i].open)
		op.Encode[c], op.Encode[c2] = op.Encode[c2], op.Encode[c]
		op.MLWE[c], op.MLWE[c2] = op.MLWE[c2], op.MLWE[c]
		cs := append([]committed[E](nil), A...)
		cs[i] = committed[E]{A[i].v, A[i].com, op}
		w := s.supported(p, x, cs, i, truth)
		cs[i].v = s.lying(A[i].v, truth[i], bi(w[i]))
		y, pf := p.evaluate(x, cs)
		claim(fmt.Sprintf("columns at distance %d exchanged", d), y, pf)
		t.N("column_pairs", 1)
	}
	t.Sample("%s: %d pairs of polynomials, %d pairs of columns, %d false claims rejected", what, t.ctr["polynomial_pairs"], t.ctr["column_pairs"], t.ctr["false_claims_judged"])
}

// lies makes honest proofs about polynomials whose values differ from the committed ones by errors with structure:
// in single limbs, bytes or bits, of the value or of its Montgomery form, multiples of the base, and so on.
func (s *suite[E]) lies(t *T, n, b, step int) {
	p := s.newPCS(n, b, []byte("lies"))
	pr := p.params
	var A []committed[E]
	for i := 0; i < b; i++ {
		A = append(A, p.commit(s.rndv(t.R, pr.Rank())))
	}
	what := cfgStr(s.name, n, b)
	type err struct {
		kind string
		d    *big.Int
	}
	var errs []err
	add := func(kind string, d *big.Int) { errs = append(errs, err{kind, new(big.Int).Mod(d, s.q)}) }
	limbs := (s.q.BitLen() + 63) / 64
	mont := new(big.Int).ModInverse(p2(64*limbs, 0), s.q)
	for l := 0; l < limbs; l++ {
		for k := 0; k < 3; k++ {
			d := new(big.Int).Lsh(new(big.Int).SetUint64(t.R.Uint64()|1), uint(64*l))
			if k == 0 {
				d = p2(64*l, 0)
			}
			if d.Cmp(s.q) >= 0 {
				d = p2(64*l, 0)
			}
			add(fmt.Sprint("limb ", l), d)
			add(fmt.Sprint("minus limb ", l), new(big.Int).Neg(d))
			add(fmt.Sprint("stored limb ", l), d.Mul(d, mont))
			add(fmt.Sprint("minus stored limb ", l), new(big.Int).Neg(d))
		}
		// All limbs but one.
		d := new(big.Int).Sub(p2(64*limbs, 0), big.NewInt(1))
		d.Sub(d, new(big.Int).Lsh(new(big.Int).Sub(p2(64, 0), big.NewInt(1)), uint(64*l)))
		add(fmt.Sprint("all limbs but ", l), d)
	}
	for k := t.R.Intn(step); k < s.q.BitLen(); k += step {
		add(fmt.Sprint("bit ", k), p2(k, 0))
		add(fmt.Sprint("stored bit ", k), new(big.Int).Mul(p2(k, 0), mont))
	}
	add("top bit", p2(s.q.BitLen()-1, 0))
	bp := big.NewInt(1)
	for k := 0; k < pr.Exp(); k++ {
		add(fmt.Sprint("digit ", k), bp)
		bp = new(big.Int).Mul(bp, new(big.Int).SetUint64(pr.Base()))
	}
	add("whole base", bp)
	add("half", new(big.Int).Rsh(s.q, 1))
	for _, m := range pr.RingQ().ModuliChain() {
		add("modulus", new(big.Int).SetUint64(m))
	}
	add("all moduli", pr.RingQ().ModulusAtLevel[pr.RingQ().MaxLevel()])
	for ei, e := range errs {
		if e.d.Sign() == 0 {
			continue
		}
		x := s.rnd(t.R)
		if ei%4 == 3 {
			x = fi[E](int64(t.R.Intn(3) - 1))
		}
		truth := s.expEvals(A, x)
		i := t.R.Intn(b)
		cs := append([]committed[E](nil), A...)
		cs[i].v = s.lying(A[i].v, truth[i], new(big.Int).Add(truth[i], e.d))
		y, pf := p.evaluate(x, cs)
		if bi(y[i]).Cmp(truth[i]) == 0 {
			t.N("claims_true_by_chance", 1)
			continue
		}
		t.Eval(what + "/lie/" + e.kind)
		t.N("false_claims_judged", 1)
		if p.accept(t, x, coms(A), y, pf) {
			t.Viol("false-claim", "%s: value off by %s accepted (%s)", what, fstr(e.d), e.kind)
		}
		// Outside of the transcript.
		cs[i].v = A[i].v
		y, pf = p.evaluate(x, cs)
		if !p.accept(t, x, coms(A), y, pf) {
			t.Viol("reject", "%s: honest proof rejected", what)
			return
		}
		y[i].Add(y[i], fe[E](e.d))
		t.Eval(what + "/lie after/" + e.kind)
		t.N("false_claims_judged", 1)
		if p.accept(t, x, coms(A), y, pf) {
			t.Viol("false-claim", "%s: value changed by %s accepted (%s)", what, fstr(e.d), e.kind)
		}
	}
	t.Sample("%s: %d structured false claims rejected", what, t.ctr["false_claims_judged"])
}

// nearby returns elements that differ from v in one bit of every byte and limb, of the value and of its Montgomery
// form, with the names of the places.
func (s *suite[E]) nearby(t *T, v *big.Int, step int) (names []string, vs []*big.Int) {
	limbs := (s.q.BitLen() + 63) / 64
	R := p2(64*limbs, 0)
	inv := new(big.Int).ModInverse(R, s.q)
	v = new(big.Int).Mod(v, s.q)
	m := new(big.Int).Mul(v, R)
	m.Mod(m, s.q)
	flip := func(x *big.Int, lo, hi int) *big.Int {
		for k := 0; k < 16; k++ {
			i := lo + t.R.Intn(hi-lo)
			z := new(big.Int).SetBit(x, i, 1-x.Bit(i))
			if z.Cmp(s.q) < 0 {
				return z
			}
		}
		return nil
	}
	for lo := 0; lo < s.q.BitLen(); lo += step {
		hi := min(lo+step, s.q.BitLen())
		if z := flip(v, lo, hi); z != nil {
			names = append(names, fmt.Sprintf("bits %d..%d", lo, hi-1))
			vs = append(vs, z)
		}
		if z := flip(m, lo, hi); z != nil {
			names = append(names, fmt.Sprintf("stored bits %d..%d", lo, hi-1))
			vs = append(vs, z.Mul(z, inv).Mod(z, s.q))
		}
	}
	return
}

func uniq(xs ...int) []int {
	var o []int
	m := map[int]bool{}
	for _, x := range xs {
		if x >= 0 && !m[x] {
			m[x] = true
			o = append(o, x)
		}
	}
	return o
}

// lying returns the polynomial v changed so that its value at the point is claim instead of truth.
func (s *suite[E]) lying(v []E, truth, claim *big.Int) []E {
	o := cpv(v)
	d := new(big.Int).Sub(claim, truth)
	d.Mod(d, s.q)
	o[0].Add(o[0], fe[E](d))
	return o
}

// supported computes the values a proof with replaced opening i supports: the value of the rows as encoded.
func (s *suite[E]) supported(p *pcs[E], x E, cs []committed[E], i int, truth []*big.Int) []E {
	pr := p.params
	// value of the encoded matrix: sum left[r] * right[c*slots+k] * decode(Encode[c][r])[k]
	w := pr.Cols() * pr.Slots()
	xb := bi(x)
	acc, t := new(big.Int), new(big.Int)
	skip := new(big.Int).Exp(xb, big.NewInt(int64(w)), s.q)
	left := make([]*big.Int, pr.Rows())
	left[0] = big.NewInt(1)
	for r := 1; r < pr.Rows(); r++ {
		left[r] = new(big.Int).Mul(left[r-1], skip)
		left[r].Mod(left[r], s.q)
	}
	left[pr.Rows()-1] = new(big.Int).Set(xb)
	for c := 0; c < pr.Cols(); c++ {
		for r := 0; r < pr.Rows(); r++ {
			d := decField(pr, s.q, cs[i].open.Encode[c][r])
			xp := new(big.Int).Exp(xb, big.NewInt(int64(c*pr.Slots())), s.q)
			for k := range d {
				t.Mul(d[k], xp)
				t.Mul(t, left[r])
				acc.Add(acc, t)
				xp.Mul(xp, xb)
				xp.Mod(xp, s.q)
			}
			acc.Mod(acc, s.q)
		}
	}
	o := make([]E, len(truth))
	for j := range truth {
		o[j] = fe[E](truth[j])
	}
	o[i] = fe[E](acc)
	return o
}

// forgePartial makes a proof of a false value of one of the polynomials, which enters the transcript as claimed,
// with partial evaluations shifted in column c, slot sl to support it.
func (s *suite[E]) forgePartial(t *T, p *pcs[E], x E, A []committed[E], truth []*big.Int, c, sl int, how string, claim func(string, []E, []*jindo.Commitment, []*big.Int, *jindo.Proof)) {
	pr := p.params
	r := pr.RingQ()
	q := s.q
	c2 := (c + 1) % pr.Cols()
	w1 := new(big.Int).Exp(bi(x), big.NewInt(int64(c*pr.Slots()+sl)), q)
	w2 := new(big.Int).Exp(bi(x), big.NewInt(int64(c2*pr.Slots()+sl)), q)
	who := t.R.Intn(len(A))
	for _, m := range p.chalMod(s, t, x, A) {
		lie := s.rndNZ(t.R)
		cs := append([]committed[E](nil), A...)
		cs[who].v = s.lying(A[who].v, truth[who], new(big.Int).Add(truth[who], bi(lie)))
		startInstr()
		// The weight the shift of a partial evaluation has in the batched value.
		need := func(w *big.Int) *big.Int {
			d := new(big.Int).Set(bi(lie))
			if pr.Batch() > 1 {
				reads := xofReads()
				if len(reads) < 16*pr.Batch() {
					return nil
				}
				d.Mul(d, chalField(pr, q, chalDigits(reads[16*who:16*who+16], m, pr.Exp())))
			}
			inv := new(big.Int).ModInverse(new(big.Int).Mod(w, q), q)
			if inv == nil {
				return nil
			}
			d.Mul(d, inv)
			return d.Mod(d, q)
		}
		var enc ring.Poly
		ok := true
		setHooks(nil, func(stage string, args ...any) {
			if stage != "partial" {
				return
			}
			pf := args[0].(*jindo.Proof)
			w := w1
			if how == "pair before" {
				w = new(big.Int).Sub(w1, w2)
			}
			if how == "pair after" {
				return
			}
			d := need(w)
			if d == nil {
				ok = false
				return
			}
			enc = encField(pr, d, sl)
			r.Add(pf.Partial[c], enc, pf.Partial[c])
			switch how {
			case "mask before":
				r.Sub(pf.PartialMask, enc, pf.PartialMask)
			case "pair before":
				r.Sub(pf.Partial[c2], enc, pf.Partial[c2])
			}
		})
		y, pf := p.evaluate(x, cs)
		setHooks(nil, nil)
		reads := xofReads()
		if !ok {
			t.N("no_shift", 1)
			resetInstr()
			continue
		}
		if how == "mask after" || how == "pair after" {
			ops := make([]*jindo.Opening, len(A))
			for i := range A {
				ops[i] = A[i].open
			}
			rec, rok := recoverChallenges(pr, reads, ops, pf)
			if !rok {
				t.N("challenges_not_recovered", 1)
				resetInstr()
				return
			}
			t.N("challenges_recovered", 1)
			if how == "mask after" {
				z := r.NewPoly()
				r.MulCoeffsMontgomery(chalPoly(pr, rec.cols[c]), enc, z)
				r.Sub(pf.PartialMask, z, pf.PartialMask)
			} else {
				w := new(big.Int).Mul(chalField(pr, q, rec.cols[c2]), w1)
				w.Sub(w, new(big.Int).Mul(chalField(pr, q, rec.cols[c]), w2))
				d := need(w)
				if d == nil {
					resetInstr()
					continue
				}
				enc = encField(pr, d, sl)
				z := r.NewPoly()
				r.MulCoeffsMontgomery(chalPoly(pr, rec.cols[c2]), enc, z)
				r.Add(pf.Partial[c], z, pf.Partial[c])
				r.MulCoeffsMontgomery(chalPoly(pr, rec.cols[c]), enc, z)
				r.Sub(pf.Partial[c2], z, pf.Partial[c2])
			}
		}
		resetInstr()
		// The forged partial evaluations must support the claim, or the forgery tests nothing.
		if s.supports(p, x, pf, y, reads, m) {
			t.N("forgeries_supporting_their_claim", 1)
		} else {
			t.N("forgeries_without_support", 1)
		}
		claim("partial "+how, y, coms(A), truth, pf)
	}
}

// chalMod returns the moduli of challenge digits that fit an honest opening, or all candidates if none does.
func (p *pcs[E]) chalMod(_ *suite[E], t *T, x E, A []committed[E]) []uint64 {
	if p.mods != nil {
		return p.mods
	}
	startInstr()
	_, pf := p.evaluate(x, A)
	reads := xofReads()
	resetInstr()
	ops := make([]*jindo.Opening, len(A))
	for i := range A {
		ops[i] = A[i].open
	}
	if rec, ok := recoverChallenges(p.params, reads, ops, pf); ok {
		p.mods = []uint64{rec.mod}
	} else {
		t.N("challenges_not_recovered", 1)
		p.mods = chalMods(p.params)
	}
	return p.mods
}

// supports says whether the partial evaluations of a proof decode to the batched claim.
func (s *suite[E]) supports(p *pcs[E], x E, pf *jindo.Proof, y []E, reads []byte, m uint64) bool {
	pr := p.params
	acc, w := new(big.Int), big.NewInt(1)
	for c := 0; c < pr.Cols(); c++ {
		for _, d := range decField(pr, s.q, pf.Partial[c]) {
			acc.Add(acc, new(big.Int).Mul(w, d))
			w.Mul(w, bi(x))
			w.Mod(w, s.q)
		}
	}
	for i := range y {
		if pr.Batch() == 1 {
			acc.Sub(acc, bi(y[i]))
			break
		}
		if len(reads) < 16*pr.Batch() {
			return false
		}
		acc.Sub(acc, new(big.Int).Mul(bi(y[i]), chalField(pr, s.q, chalDigits(reads[16*i:16*i+16], m, pr.Exp()))))
	}
	return acc.Mod(acc, s.q).Sign() == 0
}

var _ = ring.Poly{}
