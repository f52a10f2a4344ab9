package main

import (
	"fmt"
	"math"
	"math/big"
	"time"

	"github.com/sp301415/ringo-snark/jindo"
)

func init() { registry["C06"] = casesC06 }

func log2Big(x *big.Int) float64 {
	f, _ := new(big.Float).SetInt(x).Float64()
	if math.IsInf(f, 1) {
		sh := uint(x.BitLen() - 60)
		g, _ := new(big.Float).SetInt(new(big.Int).Rsh(x, sh)).Float64()
		return math.Log2(g) + float64(sh)
	}
	return math.Log2(f)
}

// casesC06 sweeps parameter configurations.
func casesC06(cfg Cfg) []Case {
	var cs []Case
	sizes := []int{1, 2, 3, 7, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 3000, 4096, 4097, 6144, 8192, 8193, 12289, 16384, 16385, 24576, 32768, 40000, 65536, 100003, 131072, 262144, 524288, 1 << 20}
	batches := []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 14, 16, 20, 24, 32, 33, 48, 64, 100, 128, 200, 256}
	if cfg.Thorough {
		batches = nil
		for b := 1; b <= 40; b++ {
			batches = append(batches, b)
		}
		batches = append(batches, 48, 56, 64, 65, 80, 100, 127, 128, 129, 160, 200, 256, 300, 512, 1000)
		for n := 5; n < 300; n += 7 {
			sizes = append(sizes, n)
		}
		for n := 301; n < 5000; n += 97 {
			sizes = append(sizes, n)
		}
		sizes = append(sizes, 1<<21, 1<<22, 3000000)
	}
	for _, f := range allFields {
		f := f
		for _, b := range batches {
			b := b
			cs = append(cs, Case{Name: fmt.Sprintf("formula/%s/b%d", f.Name, b), Run: func(t *T) {
				for _, n := range sizes {
					f.S.paramFormula(t, n, b)
				}
				for i := 0; i < cfg.pick(4, 40); i++ {
					f.S.paramFormula(t, 1+t.R.Intn(20000), b)
				}
			}})
		}
		ns := []int{1, 17, 129, 700, 1025, 2049}
		bs := []int{1, 2, 3, 6, 10, 17}
		if cfg.Thorough {
			ns = append(ns, 5000, 16385)
			bs = append(bs, 4, 33, 64)
		}
		for _, n := range ns {
			for _, b := range bs {
				n, b := n, b
				cs = append(cs, Case{Name: "run/" + cfgStr(f.Name, n, b), Run: func(t *T) { f.S.paramRun(t, n, b) }})
			}
		}
	}
	return cs
}

// paramsFor runs parameter selection with a termination monitor; ok is false if it refused by panicking.
func paramsFor(t *T, mk func() jindo.Parameters, what string) (p jindo.Parameters, ok bool) {
	type res struct {
		p     jindo.Parameters
		panic any
	}
	ch := make(chan res, 1)
	go func() {
		var r res
		r.panic = try(func() { r.p = mk() })
		ch <- r
	}()
	select {
	case r := <-ch:
		if r.panic != nil {
			t.N("refused", 1)
			return p, false
		}
		return r.p, true
	case <-time.After(90 * time.Second):
		t.Viol("params-hang", "parameter selection did not terminate within 90s for %s", what)
		return p, false
	}
}

func (s *suite[E]) paramFormula(t *T, n, b int) {
	if t.nviol > 0 {
		return
	}
	what := cfgStr(s.name, n, b)
	t.Eval(what)
	p, ok := paramsFor(t, func() jindo.Parameters { return jindo.NewParameters[E](n, b) }, what)
	if !ok {
		return
	}
	if p.Batch() == 0 || p.Rank() == 0 || p.RingQ() == nil || p.RingQOut() == nil {
		t.Viol("params-unusable", "%s: no error, but unusable parameters batch=%d rank=%d", what, p.Batch(), p.Rank())
		return
	}
	bad := func(key, f string, a ...any) { t.Viol(key, "%s: %s", what, fmt.Sprintf(f, a...)) }
	t.N("accepted", 1)
	if p.Batch() != b || p.Rank() < n {
		bad("capacity", "batch %d rank %d", p.Batch(), p.Rank())
	}
	if p.Rank() != (p.Rows()-1)*p.Cols()*p.Slots() {
		bad("layout", "rank %d rows %d cols %d slots %d", p.Rank(), p.Rows(), p.Cols(), p.Slots())
	}
	d, k, bs := float64(p.RingQ().N()), float64(p.Exp()), float64(p.Base())
	mod := new(big.Int).Exp(new(big.Int).SetUint64(p.Base()), big.NewInt(int64(p.Exp())), nil)
	if mod.Add(mod, big.NewInt(1)).Cmp(s.q) != 0 {
		bad("encoding", "base^exp+1 is not the modulus")
	}
	if p.Slots()*p.Exp() != p.RingQ().N() || p.RingQOut().N() != p.RingQ().N() {
		bad("layout", "slots*exp = %d, ring degrees %d %d", p.Slots()*p.Exp(), p.RingQ().N(), p.RingQOut().N())
	}
	lq, lqq := log2Big(p.RingQ().Modulus()), log2Big(p.RingQOut().Modulus())
	if lq > 240.01 || lqq > 240.01 {
		bad("modulus-limit", "log q = %f, log q' = %f", lq, lqq)
	}
	if lq*float64(p.MLWERank())*d <= 0 || float64(p.MLWERank())*d < 8192 {
		bad("mlwe-rank", "MLWE dimension %f too small for the 240-bit limit", float64(p.MLWERank())*d)
	}
	// The challenge set must be large enough for the interactive argument to be sound.
	if cInf := float64(p.ChallengeBound()); cInf < 1 || k*math.Log2(2*cInf+1) < math.Min(64, log2Big(s.q)-1) {
		bad("challenge-bound", "challenge bound %v with %v coefficients", cInf, k)
	}
	cOne := math.Sqrt(k) * math.Min(bs, math.Exp2(120/k)) / 2
	xOne := math.Sqrt(k) * bs
	cExt, dExt, extra := 2*cOne, 1.0, 1.0
	if b > 1 {
		cExt, dExt, extra = (2*cOne)*(2*cOne), 2*cOne, 2*cOne
	}
	inBeta := 2 * dExt * cExt * 2 * extra * p.ResTwoNm()
	outBeta := 2 * dExt * 2 * p.InComDcmpTwoNm()
	need := func(beta, lq float64) float64 {
		lb := math.Log2(beta)
		return lb * lb / (4 * d * lq * math.Log2(1.005))
	}
	if math.Log2(inBeta) > lq || math.Log2(outBeta) > lqq {
		bad("binding", "norm bounds exceed the moduli: %f > %f or %f > %f", math.Log2(inBeta), lq, math.Log2(outBeta), lqq)
	}
	if need(inBeta, lq) > float64(p.InMSISRank())*1.001 {
		bad("binding", "inner rank %d < required %f", p.InMSISRank(), need(inBeta, lq))
	}
	if need(outBeta, lqq) > float64(p.OutMSISRank())*1.001 {
		bad("binding", "outer rank %d < required %f", p.OutMSISRank(), need(outBeta, lqq))
	}
	if p.InCommitDecomposeLen() != (p.Cols()+1)*p.InMSISRank() {
		bad("layout", "decomposition length %d", p.InCommitDecomposeLen())
	}
	// Noise widths: smoothing parameter eta = 6, masks wider by the challenge norm.
	rt := math.Sqrt(2 * math.Pi)
	e := 2 * 6 * (bs + 1) / (bs - 1) / rt
	chk := func(name string, got, want float64) {
		if got < want*0.999 {
			bad("noise-width", "%s %g < required %g", name, got, want)
		}
	}
	chk("encoding", p.EcdStdDev(), e)
	chk("encoding blinding", p.EcdBlindStdDev(), e*xOne)
	chk("mask", p.MaskStdDev(), e*cOne)
	chk("mask blinding", p.MaskBlindStdDev(), e*cOne*xOne)
	chk("lattice randomness", p.MLWEStdDev(), 2*math.Sqrt2*6/rt)
	// Noise is sampled as 64-bit integers.
	for _, sd := range []float64{p.EcdStdDev(), p.EcdBlindStdDev(), p.MaskStdDev(), p.MaskBlindStdDev(), p.MLWEStdDev(), p.MaskMLWEStdDev()} {
		if 9*sd >= math.Exp2(63) {
			bad("noise-range", "standard deviation 2^%f", math.Log2(sd))
		}
	}
	chk("mask lattice randomness", p.MaskMLWEStdDev(), 2*math.Sqrt2*6*cOne/rt)
	t.Sample("%s -> rank %d rows %d cols %d log q %.1f/%.1f ranks %d/%d", what, p.Rank(), p.Rows(), p.Cols(), lq, lqq, p.InMSISRank(), p.OutMSISRank())
}

// probe panics if there are no parameters.
func (s *suite[E]) probe(n int) { jindo.NewParameters[E](n, 1) }

func (s *suite[E]) paramRun(t *T, n, b int) {
	what := cfgStr(s.name, n, b)
	t.Eval("run/" + what)
	p, ok := paramsFor(t, func() jindo.Parameters { return jindo.NewParameters[E](n, b) }, what)
	if !ok {
		return
	}
	if p.Rank() == 0 {
		t.Viol("params-unusable", "%s: no error, but unusable parameters", what)
		return
	}
	crs := []byte("params " + what)
	c := s.pcsFrom(p, crs)
	var cm []committed[E]
	for i := 0; i < b; i++ {
		cm = append(cm, c.commit(s.rndv(t.R, 1+t.R.Intn(n))))
	}
	x := s.rnd(t.R)
	y, pf := c.evaluate(x, cm)
	if !c.vrf.Verify(x, coms(cm), y, pf) {
		t.Viol("params-reject", "%s: honest proof rejected", what)
	}
	t.N("end_to_end", 1)
}

func log2f(x float64) float64 { return math.Log2(x) }
