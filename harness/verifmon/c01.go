package main

import (
	"fmt"
	"math/big"
)

func init() {
	registry["C01"] = casesC01
	registry["C02"] = casesC02
	registry["C03"] = casesC03
}

type pcsCfg struct {
	f    string
	n, b int
}

func (c pcsCfg) String() string { return cfgStr(c.f, c.n, c.b) }

var pcsQuick = []pcsCfg{
	{"zp255", 1, 1}, {"zp255", 255, 2}, {"zp255", 1024, 4}, {"zp255", 2100, 1}, {"zp255", 513, 3},
	{"zp110", 1024, 1}, {"zp110", 300, 5}, {"zp110", 1, 2}, {"zp110", 2500, 2},
	{"zp220", 64, 1}, {"zp220", 1000, 2}, {"zp220", 2048, 6}, {"zp220", 257, 3},
	{"zp440", 256, 1}, {"zp440", 700, 3}, {"zp440", 2049, 2},
	{"zp880", 200, 1}, {"zp880", 500, 2}, {"zp880", 1025, 4},
	{"zp128", 33, 2}, {"zp128", 1500, 1}, {"zp240", 129, 1}, {"zp240", 1025, 7},
}

var pcsDeep = []pcsCfg{
	{"zp255", 8192, 8}, {"zp255", 4097, 17}, {"zp255", 16384, 1}, {"zp255", 100, 33}, {"zp110", 8192, 3}, {"zp110", 1025, 12},
	{"zp220", 16384, 10}, {"zp220", 4000, 2}, {"zp440", 5000, 9}, {"zp880", 4097, 5}, {"zp880", 3000, 1}, {"zp128", 4096, 10}, {"zp240", 6144, 2}, {"zp240", 2047, 40},
}

func pcsCfgs(cfg Cfg) []pcsCfg {
	if cfg.Thorough {
		return append(append([]pcsCfg{}, pcsQuick...), pcsDeep...)
	}
	return pcsQuick
}

// casesC01 opens honest polynomials and compares with integer evaluation.
func casesC01(cfg Cfg) []Case {
	var cs []Case
	for _, c := range pcsCfgs(cfg) {
		for k := 0; k < cfg.pick(3, 12); k++ {
			c, k := c, k
			cs = append(cs, Case{Name: fmt.Sprintf("open/%s/%d", c, k), Run: func(t *T) { field(c.f).S.honest(t, c.n, c.b, k, cfg.pick(4, 10)) }})
		}
	}
	// at sizes where the matrix of the scheme has many rows and columns
	for _, c := range []pcsCfg{{"zp220", 16384, 3}, {"zp255", 65536, 1}, {"zp110", 20000, 2}, {"zp440", 5000, 2}, {"zp240", 33000, 1}, {"zp220", 131072, 1}} {
		cs = append(cs, Case{Name: fmt.Sprintf("large/%s", c), Run: func(t *T) { field(c.f).S.honest(t, c.n, c.b, 0, cfg.pick(1, 4)) }})
	}
	return cs
}

// expEvals evaluates the polynomials with big integers.
func (s *suite[E]) expEvals(cs []committed[E], x E) []*big.Int {
	o := make([]*big.Int, len(cs))
	for i := range cs {
		o[i] = hornerBig(biv(cs[i].v), bi(x), s.q)
	}
	return o
}

func (s *suite[E]) honest(t *T, n, b, k, rounds int) {
	p := s.newPCS(n, b, []byte(fmt.Sprint("crs", k)))
	if p.params.Rank() < n {
		t.Viol("capacity", "rank %d for requested %d", p.params.Rank(), n)
		return
	}
	prv := p.prv
	for round := 0; round < rounds; round++ {
		if round%3 == 2 {
			prv = p.prv.SafeCopy()
		}
		ls := lengths(p.params, t.R)
		var cs []committed[E]
		desc := ""
		for i := 0; i < b; i++ {
			l := ls[(i*7+round*5+k*3)%len(ls)]
			pat := polyPatterns[t.R.Intn(len(polyPatterns))]
			v := s.polyPattern(t.R, l, pat, p.params.Base(), p.params.Exp())
			com, open := prv.Commit(v)
			cs = append(cs, committed[E]{v, com, open})
			desc += fmt.Sprintf(" %s(%d)", pat, l)
			t.Eval(fmt.Sprint(s.name, n, b, l, pat, round, k))
			if i >= 12 {
				desc = desc[:min(len(desc), 200)]
			}
		}
		x := s.point(t.R, round+k*rounds)
		y, pf := evalWith(prv, x, cs)
		exp := s.expEvals(cs, x)
		if len(y) != b {
			t.Viol("evals", "%d evaluations for batch %d", len(y), b)
			return
		}
		for i := range y {
			if bi(y[i]).Cmp(exp[i]) != 0 {
				t.Viol("evals", "%s rank %d:%s at x=%s: evaluation %d is %s, expected %s", cfgStr(s.name, n, b), p.params.Rank(), desc, fstr(bi(x)), i, fstr(bi(y[i])), fstr(exp[i]))
			}
		}
		if !p.vrf.Verify(x, coms(cs), y, pf) {
			t.Viol("reject", "%s rank %d:%s at x=%s: honest proof rejected", cfgStr(s.name, n, b), p.params.Rank(), desc, fstr(bi(x)))
		}
		t.N("openings_verified", 1)
		t.N("polynomials_opened", b)
		t.Sample("%s rank %d:%s at x=%s accepted with the expected values", cfgStr(s.name, n, b), p.params.Rank(), desc, fstr(bi(x)))
	}
}
