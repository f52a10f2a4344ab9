package main

import (
	"fmt"
	"math"
	"math/big"
	"strings"

	"github.com/sp301415/ringo-snark/jindo"
	"github.com/tuneinsight/lattigo/v6/ring"
)

func init() { registry["C04"] = casesC04 }

func casesC04(cfg Cfg) []Case {
	var cs []Case
	cfgs := []pcsCfg{
		{"zp255", 600, 1}, {"zp255", 300, 2}, {"zp255", 2100, 1}, {"zp110", 800, 1}, {"zp110", 500, 3}, {"zp220", 256, 1}, {"zp220", 2048, 2},
		{"zp440", 300, 1}, {"zp440", 700, 2}, {"zp880", 300, 1}, {"zp880", 300, 2}, {"zp128", 700, 1}, {"zp240", 500, 2},
	}
	if cfg.Thorough {
		cfgs = append(cfgs, pcsCfg{"zp255", 8192, 1}, pcsCfg{"zp220", 5000, 2}, pcsCfg{"zp110", 4096, 1}, pcsCfg{"zp440", 3000, 2}, pcsCfg{"zp880", 2500, 1}, pcsCfg{"zp220", 40, 36}, pcsCfg{"zp255", 40000, 1}, pcsCfg{"zp110", 20, 70})
	}
	for _, c := range cfgs {
		for k := 0; k < cfg.pick(2, 8); k++ {
			c, k := c, k
			cs = append(cs, Case{Name: fmt.Sprintf("norm/%s/%d", c, k), Run: func(t *T) { field(c.f).S.oversized(t, c.n, c.b, k) }})
		}
	}
	if !cfg.Thorough {
		for _, c := range []pcsCfg{{"zp110", 4096, 1}} {
			cs = append([]Case{{Name: fmt.Sprintf("norm/%s/0", c), Run: func(t *T) { field(c.f).S.oversized(t, c.n, c.b, 0) }}}, cs...)
		}
	}
	return cs
}

// measured norms of a proof, including the rounding remainders when the challenges are known.
type norms struct {
	res, in  float64 // log2 of the norms over bound
	complete bool
}

func (s *suite[E]) measure(p *pcs[E], ck *jindo.CommitKey, cs []*jindo.Commitment, pf *jindo.Proof, rec recovered, ok bool) norms {
	pr := p.params
	q, o := pr.RingQ(), pr.RingQOut()
	res := normSq(q, pf.Encode...)
	res.Add(res, normSq(q, pf.MLWE...))
	in := normSq(o, pf.InCommit...)
	if ok {
		cut := new(big.Int).Lsh(big.NewInt(1), uint(pr.LogInCutOff()))
		for i := 0; i < pr.InMSISRank(); i++ {
			acc := q.NewPoly()
			for j := 0; j <= pr.Cols(); j++ {
				c := polyBig(o, pf.InCommit[j*pr.InMSISRank()+i])
				for k := range c {
					c[k].Mul(c[k], cut)
				}
				cp := polyOf(q, c)
				if j == pr.Cols() {
					q.Add(acc, cp, acc)
				} else {
					q.MulCoeffsMontgomeryThenAdd(cp, chalPoly(pr, rec.cols[j]), acc)
				}
			}
			for j := 0; j < pr.Rows(); j++ {
				q.MulCoeffsMontgomeryThenSub(ck.In[i][j], pf.Encode[j], acc)
			}
			for j := 0; j < pr.MLWERank(); j++ {
				q.MulCoeffsMontgomeryThenSub(ck.MLWE[i][j], pf.MLWE[j], acc)
			}
			q.Sub(acc, pf.MLWE[pr.MLWERank()+i], acc)
			res.Add(res, normSq(q, acc))
		}
		ocut := new(big.Int).Lsh(big.NewInt(1), uint(pr.OutCutOff()))
		for i := 0; i < pr.OutMSISRank(); i++ {
			acc := o.NewPoly()
			for k := range cs {
				c := polyBig(o, cs[k].Value[i])
				for x := range c {
					c[x].Mul(c[x], ocut)
				}
				cp := polyOf(o, c)
				if pr.Batch() > 1 {
					d := make([]*big.Int, o.N())
					for x := range d {
						d[x] = new(big.Int)
					}
					for x, v := range rec.batch[k] {
						d[x*pr.Slots()].SetInt64(v)
					}
					o.MulCoeffsMontgomeryThenAdd(cp, polyOf(o, d), acc)
				} else {
					o.Add(acc, cp, acc)
				}
			}
			for j := range pf.InCommit {
				o.MulCoeffsMontgomeryThenSub(ck.Out[i][j], pf.InCommit[j], acc)
			}
			in.Add(in, normSq(o, acc))
		}
	}
	l := func(x *big.Int, b float64) float64 {
		if x.Sign() == 0 {
			return math.Inf(-1)
		}
		return log2Big(x)/2 - math.Log2(b)
	}
	return norms{l(res, pr.ResTwoNm()), l(in, pr.InComDcmpTwoNm()), ok}
}

func (s *suite[E]) oversized(t *T, n, b, k int) {
	crs := []byte(fmt.Sprint("norm", k))
	p := s.newPCS(n, b, crs)
	pr := p.params
	ck := jindo.NewCommitKey(pr, crs)
	what := cfgStr(s.name, n, b)
	rQ, rO := pr.RingQ(), pr.RingQOut()
	N := rQ.N()
	var A []committed[E]
	for i := 0; i < b; i++ {
		A = append(A, p.commit(s.rndv(t.R, pr.Rank())))
	}
	x := s.rnd(t.R)
	over, under := 0, 0
	known := uint64(0) // how challenges are read, learnt from openings that are not zero
	// judge opens the crafted openings and compares the decision of the verifier with the measured norms.
	judge := func(kind string, cs []committed[E], post func(pf *jindo.Proof)) norms {
		startInstr()
		y, pf := p.evaluate(x, cs)
		reads := xofReads()
		resetInstr()
		ops := make([]*jindo.Opening, len(cs))
		for i := range cs {
			ops[i] = cs[i].open
		}
		rec, ok := recoverChallenges(pr, reads, ops, pf)
		if ok && !rec.blank {
			known = rec.mod
		}
		if ok && rec.blank && known != rec.mod {
			rec, ok = readChallenges(pr, reads, known), known != 0
		}
		if post != nil {
			post(pf)
		}
		nm := s.measure(p, ck, coms(cs), pf, rec, ok)
		acc := p.accept(t, x, coms(cs), y, pf)
		t.Eval(fmt.Sprint(what, "/", kind, "/", k))
		big_ := nm.res > 1e-9 || nm.in > 1e-9
		t.N("openings_judged", 1)
		if ok {
			t.N("with_remainders_measured", 1)
		}
		if big_ {
			over++
			t.N("beyond_bound", 1)
		} else {
			under++
			t.N("within_bound", 1)
		}
		if acc && big_ {
			t.Viol("norm-accepted", "%s: accepted opening beyond the bounds (%s): response 2^%.3f times, inner commitment 2^%.3f times the bound", what, kind, nm.res, nm.in)
		}
		if acc {
			t.N("accepted", 1)
		}
		return nm
	}
	h := judge("honest", A, nil)
	t.Sample("%s: honest opening at 2^%.2f of the response bound and 2^%.2f of the inner bound", what, h.res, h.in)

	// spread adds a polynomial of the given two-norm.
	spread := func(shape string, nm float64) []*big.Int {
		o := make([]*big.Int, N)
		for i := range o {
			o[i] = new(big.Int)
		}
		toBig := func(f float64) *big.Int {
			z, _ := big.NewFloat(f).Int(nil)
			return z
		}
		switch shape {
		case "single":
			o[t.R.Intn(N)] = toBig(nm)
		case "first":
			o[0] = toBig(nm)
		case "last":
			o[N-1] = toBig(-nm)
		case "limb0", "limb1":
			// invisible modulo one prime
			m := new(big.Int).SetUint64(rQ.SubRings[min(int(shape[4]-'0'), len(rQ.SubRings)-1)].Modulus)
			x := toBig(nm)
			x.Add(x, m).Div(x, m).Mul(x, m)
			o[t.R.Intn(N)] = x
		case "but0", "but1", "but2":
			// invisible modulo all primes but one
			m := big.NewInt(1)
			for i := range rQ.SubRings {
				if i != int(shape[3]-'0') {
					m.Mul(m, new(big.Int).SetUint64(rQ.SubRings[i].Modulus))
				}
			}
			x := toBig(nm)
			x.Add(x, m).Div(x, m).Mul(x, m)
			o[t.R.Intn(N)] = x
		case "even":
			for i := range o {
				o[i] = toBig(nm / math.Sqrt(float64(N)) * float64(1-2*t.R.Intn(2)))
			}
		}
		return o
	}
	shapes := []string{"single", "first", "last", "even"}
	factors := []float64{1.02, 1.3, 2, 16, 1 << 12, 1 << 24}
	if t.cfg.Thorough {
		factors = append(factors, 1.005, 1.08, 4, 1<<8, 1<<18, 1<<30, 1<<40)
	}
	type facShape struct {
		f     float64
		shape string
	}
	plan := []facShape{{1.3, "limb0"}, {64, "limb1"}}
	if len(rQ.SubRings) > 2 {
		plan = append(plan, facShape{2, "but2"}, facShape{2, "but0"}, facShape{2, "but1"})
	}
	for i, f := range factors {
		plan = append(plan, facShape{f, shapes[(i+k)%len(shapes)]})
	}
	// In the batched case the opening is multiplied by a challenge before it is measured.
	cp := func() *jindo.Opening { return cpOpeningShallow(A[0].open) }
	put := func(kind string, op *jindo.Opening, com *jindo.Commitment) {
		cs := append([]committed[E](nil), A...)
		cs[0] = committed[E]{A[0].v, com, op}
		judge(kind, cs, nil)
	}
	resB, inB := pr.ResTwoNm(), pr.InComDcmpTwoNm()
	maxQ, _ := new(big.Float).SetInt(rQ.Modulus()).Float64()
	maxO, _ := new(big.Float).SetInt(rO.Modulus()).Float64()
	fit := func(f, max float64) bool { return f < max/2.5 }
	// multiple of X^slots - base, which encodes zero.
	zeroEnc := func(c []*big.Int) []*big.Int {
		o := make([]*big.Int, N)
		B := new(big.Int).SetUint64(pr.Base())
		sl := pr.Slots()
		for i := range o {
			o[i] = new(big.Int).Mul(c[i], B)
			o[i].Neg(o[i])
			if i >= sl {
				o[i].Add(o[i], c[i-sl])
			} else {
				o[i].Sub(o[i], c[N-sl+i])
			}
		}
		return o
	}
	C := pr.Cols()
	for _, fs := range plan {
		f, shape := fs.f, fs.shape
		if !fit(f*resB, maxQ) {
			continue
		}
		cOne := 1.0
		if b > 1 {
			cOne = float64(pr.ChallengeBound()) // lower bound is not needed: the oracle measures
		}
		// encodings
		for _, r := range uniq(0, 1, pr.Rows()-1, t.R.Intn(pr.Rows())) {
			op := cp()
			addPoly(rQ, &op.Encode[C][r], polyOf(rQ, spread(shape, f*resB/cOne)))
			recommit(pr, ck, op, C)
			put(fmt.Sprintf("mask row %d x%g %s", r, f, shape), op, outer(pr, ck, op))
			for _, c := range uniq(0, C-1) {
				op := cp()
				addPoly(rQ, &op.Encode[c][r], polyOf(rQ, zeroEnc(spread(shape, f*resB/cOne/float64(pr.Base())))))
				recommit(pr, ck, op, c)
				put(fmt.Sprintf("row %d column %d x%g %s", r, c, f, shape), op, outer(pr, ck, op))
			}
		}
		// lattice randomness
		for _, r := range uniq(0, pr.MLWERank()-1, pr.MLWERank(), pr.MLWERank()+pr.InMSISRank()-1, t.R.Intn(pr.MLWERank())) {
			for _, c := range uniq(C, 0) {
				op := cp()
				addPoly(rQ, &op.MLWE[c][r], polyOf(rQ, spread(shape, f*resB/cOne)))
				recommit(pr, ck, op, c)
				put(fmt.Sprintf("randomness %d column %d x%g %s", r, c, f, shape), op, outer(pr, ck, op))
			}
		}
		// rounding remainder of the inner commitment
		for _, c := range uniq(C, 0) {
			for _, j := range uniq(0, pr.InMSISRank()-1) {
				op := cp()
				d := spread(shape, f*resB/cOne)
				for i := range d {
					d[i].Rsh(d[i], uint(pr.LogInCutOff()))
				}
				addPoly(rO, &op.InCommit[c*pr.InMSISRank()+j], polyOf(rO, d))
				put(fmt.Sprintf("inner remainder %d column %d x%g %s", j, c, f, shape), op, outer(pr, ck, op))
			}
		}
	}
	for _, fs := range plan {
		f, shape := fs.f, fs.shape
		if !fit(f*inB, maxO) {
			continue
		}
		cOne := 1.0
		if b > 1 {
			cOne = float64(pr.ChallengeBound())
		}
		// inner commitments moved by multiples of the inner modulus
		for _, j := range uniq(0, len(A[0].open.InCommit)-1, t.R.Intn(len(A[0].open.InCommit))) {
			op := cp()
			d := spread(shape, f*inB/cOne)
			for i := range d {
				d[i].Div(d[i], rQ.Modulus())
				d[i].Mul(d[i], rQ.Modulus())
			}
			addPoly(rO, &op.InCommit[j], polyOf(rO, d))
			put(fmt.Sprintf("inner commitment %d x%g %s", j, f, shape), op, outer(pr, ck, op))
			// and by anything, which the inner remainder has to reveal
			op = cp()
			addPoly(rO, &op.InCommit[j], polyOf(rO, spread(shape, f*inB/cOne)))
			put(fmt.Sprintf("inner commitment any %d x%g %s", j, f, shape), op, outer(pr, ck, op))
		}
		// rounding remainder of the outer commitment
		for _, j := range uniq(0, pr.OutMSISRank()-1) {
			com := cpCom(A[0].com)
			d := spread(shape, f*inB/cOne)
			for i := range d {
				d[i].Rsh(d[i], uint(pr.OutCutOff()))
			}
			r := polyOf(rO, d)
			for l := range rO.SubRings {
				m := rO.SubRings[l].Modulus
				for i := range r.Coeffs[l] {
					com.Value[j].Coeffs[l][i] = (com.Value[j].Coeffs[l][i]%m + r.Coeffs[l][i]) % m
				}
			}
			put(fmt.Sprintf("outer remainder %d x%g %s", j, f, shape), cp(), com)
		}
	}
	// norms spread over several polynomials, each of them within the bounds on its own
	type part struct {
		kind string // encode, mlwe, inner remainder
		j    int
	}
	var enc, mlwe, rem, all []part
	for r := 0; r < pr.Rows(); r++ {
		enc = append(enc, part{"encode", r})
	}
	for r := 0; r < pr.MLWERank()+pr.InMSISRank(); r++ {
		mlwe = append(mlwe, part{"mlwe", r})
	}
	for r := 0; r < pr.InMSISRank(); r++ {
		rem = append(rem, part{"rem", r})
	}
	all = append(append(append(all, enc...), mlwe...), rem...)
	cOne := 1.0
	if b > 1 {
		cOne = float64(pr.ChallengeBound())
	}
	lg := func(l []part) part { return l[t.R.Intn(len(l))] }
	groups := [][]part{enc, mlwe, rem, all, {lg(enc), lg(mlwe)}, {lg(enc), lg(rem)}, {lg(mlwe), lg(rem)}, {enc[0], enc[len(enc)-1]}, {mlwe[0], mlwe[len(mlwe)-1]}, {mlwe[0], mlwe[pr.MLWERank()]}, {enc[0], enc[1]}}
	for gi, g := range groups {
		for _, f := range []float64{1.05, 1.25} {
			if len(g) < 2 || !fit(f*resB, maxQ) {
				continue
			}
			op := cp()
			shape := shapes[(gi+k)%len(shapes)]
			nm := f * resB / cOne / math.Sqrt(float64(len(g)))
			for _, x := range g {
				switch x.kind {
				case "encode":
					addPoly(rQ, &op.Encode[C][x.j], polyOf(rQ, spread(shape, nm)))
				case "mlwe":
					addPoly(rQ, &op.MLWE[C][x.j], polyOf(rQ, spread(shape, nm)))
				}
			}
			recommit(pr, ck, op, C)
			for _, x := range g {
				if x.kind == "rem" {
					d := spread(shape, nm)
					for i := range d {
						d[i].Rsh(d[i], uint(pr.LogInCutOff()))
					}
					addPoly(rO, &op.InCommit[C*pr.InMSISRank()+x.j], polyOf(rO, d))
				}
			}
			put(fmt.Sprintf("%d parts together x%g %s, group %d", len(g), f, shape, gi), op, outer(pr, ck, op))
			t.N("spread_over_several", 1)
		}
	}
	for gi, cnt := range []int{2, 3, len(A[0].open.InCommit)} {
		for _, f := range []float64{1.05, 1.25} {
			for _, withOut := range []bool{false, true} {
				if cnt > len(A[0].open.InCommit) || !fit(f*inB, maxO) {
					continue
				}
				op := cp()
				shape := shapes[(gi+k)%len(shapes)]
				n := cnt
				if withOut {
					n += pr.OutMSISRank()
				}
				nm := f * inB / cOne / math.Sqrt(float64(n))
				for _, j := range t.R.Perm(len(op.InCommit))[:cnt] {
					d := spread(shape, nm)
					for i := range d {
						d[i].Div(d[i], rQ.Modulus())
						d[i].Mul(d[i], rQ.Modulus())
					}
					addPoly(rO, &op.InCommit[j], polyOf(rO, d))
				}
				com := outer(pr, ck, op)
				if withOut {
					for j := range com.Value {
						d := spread(shape, nm)
						for i := range d {
							d[i].Rsh(d[i], uint(pr.OutCutOff()))
						}
						addPoly(rO, &com.Value[j], polyOf(rO, d))
					}
				}
				put(fmt.Sprintf("%d inner commitments together x%g %s, outer remainders %v", cnt, f, shape, withOut), op, com)
				t.N("spread_over_several", 1)
			}
		}
	}
	// Openings of zero without any randomness: the responses are exactly the mask, coefficient by coefficient.
	bare := func() *jindo.Opening {
		op := cp()
		for _, cs := range [][][]ring.Poly{op.Encode, op.MLWE} {
			for _, c := range cs {
				for i := range c {
					c[i] = rQ.NewPoly()
				}
			}
		}
		for c := 0; c <= C; c++ {
			recommit(pr, ck, op, c)
		}
		return op
	}
	zv := zerov[E](pr.Rank())
	zc := bare()
	zcom := outer(pr, ck, zc)
	putBare := func(kind string, op *jindo.Opening, com *jindo.Commitment) norms {
		cs := make([]committed[E], b)
		for i := range cs {
			cs[i] = committed[E]{zv, zcom, zc}
		}
		cs[0] = committed[E]{zv, com, op}
		t.N("exact_responses", 1)
		return judge(kind, cs, nil)
	}
	putBare("nothing", bare(), outer(pr, ck, bare()))
	exact := func(r *ring.Ring, shape string, nm float64) []*big.Int {
		o := zerovBig(N)
		x, _ := big.NewFloat(nm).Int(nil)
		half := new(big.Int).Rsh(r.Modulus(), 1)
		if x.Cmp(half) > 0 {
			x.Set(half)
		}
		switch {
		case shape == "single", shape == "minus single":
			o[t.R.Intn(N)] = x
		case shape == "even":
			for i := range o {
				o[i], _ = big.NewFloat(nm / math.Sqrt(float64(N))).Int(nil)
				o[i].Add(o[i], big.NewInt(1))
			}
		default:
			// a multiple of one modulus, plus a little
			l := min(int(shape[4]-'0'), len(r.SubRings)-1)
			m := new(big.Int).SetUint64(r.SubRings[l].Modulus)
			x.Add(x, m).Div(x, m).Mul(x, m)
			if x.Cmp(half) > 0 {
				x.Sub(x, m)
			}
			if strings.HasSuffix(shape, "+") {
				x.Add(x, big.NewInt(int64(t.R.Intn(25)-12)))
			}
			n := 1
			if strings.HasSuffix(shape, "all") {
				n = N
			}
			for i := 0; i < n; i++ {
				o[(i+t.R.Intn(N))%N].Set(x)
			}
		}
		if strings.HasPrefix(shape, "minus") || t.R.Intn(2) == 0 {
			for i := range o {
				o[i].Neg(o[i])
			}
		}
		return o
	}
	k0 := k
	for _, f := range []float64{0.97, 1.0000001, 1.03, 1 << 10, 1 << 20, 1 << 32, math.Inf(1)} {
		for si, shape := range []string{"single", "limb0", "limb1", "even", "minus single", "limb0+", "limb1+", "limb0all"} {
			if !t.cfg.Thorough && (si+k0)%2 == 0 {
				continue
			}
			if nm := math.Min(f*resB, maxQ); f < 1 || nm >= resB {
				var op *jindo.Opening
				for _, r := range uniq([]int{t.R.Intn(pr.Rows()), 0, pr.Rows() - 1}[:t.cfg.pick(1, 3)]...) {
					op = bare()
					addPoly(rQ, &op.Encode[C][r], polyOf(rQ, exact(rQ, shape, nm)))
					recommit(pr, ck, op, C)
					putBare(fmt.Sprintf("exact mask row %d x%g %s", r, f, shape), op, outer(pr, ck, op))
				}
				for _, r := range uniq([]int{t.R.Intn(pr.MLWERank()), pr.MLWERank() + t.R.Intn(pr.InMSISRank())}...) {
					op = bare()
					addPoly(rQ, &op.MLWE[C][r], polyOf(rQ, exact(rQ, shape, nm)))
					recommit(pr, ck, op, C)
					putBare(fmt.Sprintf("exact randomness %d x%g %s", r, f, shape), op, outer(pr, ck, op))
				}
				op = bare()
				d := exact(rQ, shape, nm)
				for i := range d {
					d[i].Quo(d[i], new(big.Int).Lsh(big.NewInt(1), uint(pr.LogInCutOff())))
				}
				j := t.R.Intn(pr.InMSISRank())
				addPoly(rO, &op.InCommit[C*pr.InMSISRank()+j], polyOf(rO, d))
				putBare(fmt.Sprintf("exact inner remainder %d x%g %s", j, f, shape), op, outer(pr, ck, op))
			}
			if nm := math.Min(f*inB, maxO); f < 1 || nm >= inB {
				op := bare()
				d := exact(rO, shape, nm)
				for i := range d {
					d[i].Quo(d[i], rQ.Modulus())
					d[i].Mul(d[i], rQ.Modulus())
				}
				j := t.R.Intn(len(op.InCommit))
				addPoly(rO, &op.InCommit[j], polyOf(rO, d))
				putBare(fmt.Sprintf("exact inner commitment %d x%g %s", j, f, shape), op, outer(pr, ck, op))
				op = bare()
				com := outer(pr, ck, op)
				d = exact(rO, shape, nm)
				for i := range d {
					d[i].Quo(d[i], new(big.Int).Lsh(big.NewInt(1), uint(pr.OutCutOff())))
				}
				j = t.R.Intn(pr.OutMSISRank())
				addPoly(rO, &com.Value[j], polyOf(rO, d))
				putBare(fmt.Sprintf("exact outer remainder %d x%g %s", j, f, shape), op, com)
			}
		}
	}
	t.Sample("%s: %d openings beyond the bounds rejected, %d within", what, over, under)
}

var _ = ring.Poly{}
