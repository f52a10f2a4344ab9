package main

import (
	"fmt"
	"math/big"
)

// manyCases are circuits with many constraints of a kind, long and deep constraints, and long vectors.
func manyCases(cfg Cfg, kind string) []Case {
	var cs []Case
	add := func(f, shape string, rank, n int) {
		cs = append(cs, Case{Name: fmt.Sprintf("many/%s/%s/%s/r%d/n%d", kind, shape, f, rank, n), Run: func(t *T) { field(f).S.bkMany(t, kind, shape, rank, n) }})
	}
	switch kind {
	case "arith":
		add("zp110", "constraints", 4, 72)
		add("zp220", "constraints", 8, 36)
		add("zp440", "constraints", 2, 20)
		add("zp110", "terms", 4, 70)
		add("zp240", "terms", 2, 40)
		add("zp220", "degree", 4, 18)
		add("zp110", "degree", 16, 9)
		add("zp110", "rank", 1024, 2)
		add("zp880", "rank", 256, 3)
		add("zp128", "rank", 4096, 1)
	case "sum":
		add("zp110", "constraints", 4, 40)
		add("zp240", "constraints", 2, 24)
		add("zp128", "terms", 4, 40)
		add("zp110", "degree", 4, 14)
		add("zp110", "rank", 1024, 2)
		add("zp440", "rank", 512, 1)
	case "lin":
		add("zp110", "constraints", 4, 20)
		add("zp220", "checkers", 4, 18)
		add("zp110", "rank", 64, 2)
		add("zp240", "rank", 256, 1)
		add("zp110", "rank", 2048, 1)
		add("zp440", "rank", 128, 2)
	}
	if cfg.Thorough {
		switch kind {
		case "arith":
			add("zp110", "constraints", 4, 300)
			add("zp880", "constraints", 2, 70)
			add("zp110", "terms", 4, 300)
			add("zp110", "degree", 4, 40)
			add("zp110", "rank", 16384, 2)
		case "sum":
			add("zp110", "constraints", 4, 200)
			add("zp880", "constraints", 2, 70)
			add("zp110", "terms", 4, 300)
			add("zp110", "degree", 4, 40)
			add("zp110", "rank", 16384, 2)
		case "lin":
			add("zp110", "constraints", 4, 70)
			add("zp110", "checkers", 4, 70)
			add("zp110", "rank", 16384, 1)
			add("zp880", "rank", 2048, 2)
		}
	}
	return cs
}

func (s *suite[E]) bkMany(t *T, kind, shape string, rank, n int) {
	b := s.builder(t.R, rank)
	one := big.NewInt(1)
	b.pub(b.vec(0))
	b.sec(b.vec(0))
	b.sec(b.vec(1))
	// at gives the vector with which constraint k is controlled; each entry counts with weight one or minus one.
	var ctl [][2]int // {0: public, 1: secret}, index
	add := func(ts []term) {
		if kind == "arith" {
			ctl = append(ctl, [2]int{0, b.arith(ts, true)})
		} else {
			k := b.pub(b.vec(0))
			b.sum(append(ts, term{one, k, nil}))
			ctl = append(ctl, [2]int{0, k})
		}
	}
	var others [][2]int
	switch {
	case kind == "lin" && shape == "checkers":
		for i := 0; i < n; i++ {
			ctl = append(ctl, [2]int{1, b.lin(i%2, b.chk(fmt.Sprintf("mat:%d", i)))})
		}
	case kind == "lin" && shape == "rank":
		names := []string{fmt.Sprintf("autc:%d", 2*t.R.Intn(rank)+1), "ntt", fmt.Sprintf("autn:%d", 2*t.R.Intn(rank)+1)}
		for i := 0; i < n; i++ {
			ctl = append(ctl, [2]int{1, b.lin(i%2, b.chk(names[(i+n)%3]))})
		}
	case kind == "lin":
		c := b.chk("mat:1")
		for i := 0; i < n; i++ {
			ctl = append(ctl, [2]int{1, b.lin(i%2, c)})
		}
	case shape == "terms":
		var ts []term
		for i := 0; i < n; i++ {
			k := b.pub(b.vec(0))
			ts = append(ts, term{b.coef(), k, []int{i % 2}})
			others = append(others, [2]int{0, k})
		}
		add(ts)
	case shape == "degree":
		var w []int
		for i := 0; i < n; i++ {
			k := b.sec(b.vec(0))
			w = append(w, k)
			others = append(others, [2]int{1, k})
		}
		add([]term{{one, -1, w}})
	default:
		for i := 0; i < n; i++ {
			add(b.terms(1+t.R.Intn(2), 2))
		}
	}
	in, err := s.compile(b.sp, "many")
	if err != nil {
		t.Viol("compile", "%v", err)
		return
	}
	what := fmt.Sprintf("%s %s with many %s: rank %d, %d", s.name, kind, shape, rank, n)
	if in.accepted(t, b.v, what) == nil {
		return
	}
	vec := func(v vals, c [2]int) []*big.Int {
		if c[0] == 0 {
			return v.pub[c[1]]
		}
		return v.sec[c[1]]
	}
	heavy := rank >= 64 // the oracle is slower than the check; errors in controls are violations by construction
	at := func(v vals) func(int) []*big.Int { return func(k int) []*big.Int { return vec(v, ctl[k]) } }
	judge := func(v vals, how string, sure bool) {
		if !sure || !heavy {
			if len(s.violated(b.sp, v)) == 0 {
				t.N("statements_still_true", 1)
				return
			}
		}
		in.rejected(t, v, what+" | "+how)
	}
	bad := func(how string, e ...slip) {
		v := b.v.clone()
		v.slip(s.q, at(v), e)
		judge(v, how+slipStr(e), true)
	}
	nz := func() *big.Int {
		for {
			d := []*big.Int{one, rndFull(t.R, s.q), big.NewInt(-1)}[t.R.Intn(3)]
			if new(big.Int).Mod(d, s.q).Sign() != 0 {
				return d
			}
		}
	}
	neg := func(d *big.Int) *big.Int { return new(big.Int).Neg(d) }
	for k := range ctl {
		bad("single", slip{k, t.R.Intn(rank), nz()})
	}
	for d := 1; d < len(ctl); d++ {
		k := t.R.Intn(len(ctl) - d)
		e, row := nz(), t.R.Intn(rank)
		bad(fmt.Sprintf("opposite at distance %d", d), slip{k, row, e}, slip{k + d, row, neg(e)})
		t.N("constraint_pairs", 1)
	}
	for _, c := range others {
		v := b.v.clone()
		x := vec(v, c)[t.R.Intn(rank)]
		x.Mod(x.Add(x, nz()), s.q)
		judge(v, fmt.Sprint("vector ", c, " changed"), false)
		t.N("operands_changed", 1)
	}
	if shape == "rank" {
		rows := uniq(0, 1, 2, rank-1, rank-2, rank/2, rank/2-1, rank/4, t.R.Intn(rank), t.R.Intn(rank))
		for _, row := range rows {
			bad("row", slip{t.R.Intn(n), row, nz()})
			t.N("rows_tried", 1)
		}
		if kind != "sum" {
			for d := 1; d < rank; d *= 2 {
				k, row, e := t.R.Intn(n), t.R.Intn(rank-d), nz()
				bad(fmt.Sprintf("rows at distance %d", d), slip{k, row, e}, slip{k, row + d, neg(e)})
				t.N("row_pairs", 1)
			}
		}
	}
	t.Sample("%s: %d false statements rejected", what, t.ctr["false_statements"])
}

// manyNormCases are circuits with many norm constraints, and norm constraints on long vectors.
func manyNormCases(cfg Cfg, kind string) []Case {
	var cs []Case
	add := func(f string, rank, n int) {
		cs = append(cs, Case{Name: fmt.Sprintf("many/%s/%s/r%d/n%d", kind, f, rank, n), Run: func(t *T) { field(f).S.bkManyNorms(t, kind, rank, n) }})
	}
	add("zp110", 8, 24)
	add("zp440", 4, 14)
	add("zp220", 1024, 2)
	add("zp128", 4096, 1)
	if cfg.Thorough {
		add("zp110", 4, 80)
		add("zp880", 2, 40)
		add("zp255", 8, 40)
		add("zp110", 16384, 2)
	}
	return cs
}

func (s *suite[E]) bkManyNorms(t *T, kind string, rank, n int) {
	b := s.builder(t.R, rank)
	var bounds []*big.Int
	var ws []int
	two := func() *big.Int { // the bounds of a two-norm need as many digits as there are entries
		return new(big.Int).Rand(t.R, p2(min(rank, 60), 0))
	}
	for i := 0; i < n; i++ {
		bd := new(big.Int).Rand(t.R, p2(1+t.R.Intn(5), 0))
		if kind == "two" {
			bd = two()
		}
		bounds = append(bounds, bd)
		v := make([]*big.Int, rank)
		for r := range v {
			v[r] = new(big.Int)
		}
		ws = append(ws, b.sec(v))
		b.sp.norms = append(b.sp.norms, normC{ws[i], bd, kind})
		if n > 8 && i%5 == 0 { // other constraints in between
			if kind == "two" {
				b.norm("inf", bigN(int64(t.R.Intn(9))))
			} else if rank >= 4 {
				b.norm("two", bigN(int64(t.R.Intn(9))))
			}
		}
	}
	b.orderShuffle(n)
	in, err := s.compile(b.sp, "many norms")
	if err != nil {
		t.Viol("compile", "%v", err)
		return
	}
	what := fmt.Sprintf("%s: %d %s norms, rank %d", s.name, n, kind, rank)
	// fill makes the norm of witness i equal to the given number.
	fill := func(v vals, i int, x *big.Int) bool {
		if kind == "two" {
			o := b.withNorm(x, 2)
			if o == nil {
				return false
			}
			v.sec[ws[i]] = o
			return true
		}
		for r := range v.sec[ws[i]] {
			y := new(big.Int).Rand(t.R, new(big.Int).Add(bounds[i], bigN(1)))
			if t.R.Intn(2) == 0 {
				y.Neg(y)
			}
			v.sec[ws[i]][r] = y.Mod(y, s.q)
		}
		y := new(big.Int).Set(x)
		if t.R.Intn(2) == 0 {
			y.Neg(y)
		}
		v.sec[ws[i]][t.R.Intn(rank)] = y.Mod(y, s.q)
		return true
	}
	v := b.v.clone()
	for i := range ws {
		fill(v, i, bounds[i])
	}
	if len(s.violated(b.sp, v)) > 0 || in.accepted(t, v, what+" | at their bounds") == nil {
		return
	}
	in.accepted(t, b.v, what+" | zero")
	for i := range ws {
		for j := 0; j < max(1, 6/n); j++ {
			u := v.clone()
			x := new(big.Int).Add(bounds[i], bigN(1))
			if j > 0 {
				x.Add(x, new(big.Int).Rand(t.R, p2(1+t.R.Intn(40), 0)))
			}
			if !fill(u, i, x) || len(s.violated(b.sp, u)) == 0 {
				t.N("norm_not_reached", 1)
				continue
			}
			in.rejected(t, u, fmt.Sprintf("%s | norm %d is %v, bound %v", what, i, x, bounds[i]))
			t.N("norms_exceeded", 1)
		}
	}
	t.Sample("%s: %d false statements rejected", what, t.ctr["false_statements"])
}
