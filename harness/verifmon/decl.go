package main

import (
	"fmt"
	"math/big"
)

// declared monitors sums that are given as numbers, through both entry points and over their whole range.
func (s *suite[E]) declared(t *T, rank int) {
	r := t.R
	l := []*big.Int{bigN(0), bigN(1), bigN(2), p2(31, 0), p2(32, -1), p2(32, 0), p2(53, 1), p2(62, 0), p2(63, -1), p2(63, 0), p2(63, 1), p2(64, -2), p2(64, -1), new(big.Int).SetUint64(r.Uint64() | 1<<63),
		p2(64, 0), p2(64, 1), p2(100, 0), new(big.Int).Sub(s.q, bigN(1)), new(big.Int).Rsh(s.q, 1), s.q, new(big.Int).Add(s.q, bigN(5)), bigN(-1), new(big.Int).Neg(p2(63, 0)), new(big.Int).Neg(s.q), new(big.Int).Lsh(s.q, 3)}
	run := func(apis []string, sums []*big.Int) {
		b := s.builder(r, rank)
		for i := range sums {
			w := b.sec(b.vec(i))
			ts := []term{{bigN(1), -1, []int{w}}}
			if i%3 == 2 && rank > 1 {
				ts = append(ts, term{b.neg1(), b.pub(b.vec(1)), []int{w}})
			}
			b.sp.sums = append(b.sp.sums, sumC{ts, new(big.Int).Set(sums[i]), apis[i]})
		}
		what := fmt.Sprintf("%s rank %d, sums declared through %v:", s.name, rank, apis)
		for i := range sums {
			what += " " + fstr(sums[i])
		}
		// the first entry is solved for
		fit := func(i int, want *big.Int) bool {
			a := func(x int64) *big.Int {
				b.v.sec[i][0] = bigN(x)
				o := new(big.Int)
				for row := 0; row < rank; row++ {
					o.Add(o, evalTerms(b.sp.sums[i].ts, b.v, row, s.q))
				}
				return o.Mod(o, s.q)
			}
			c0, c1 := a(0), a(1)
			c1.Sub(c1, c0).Mod(c1, s.q)
			inv := new(big.Int).ModInverse(c1, s.q)
			if inv == nil {
				return false
			}
			x := new(big.Int).Sub(want, c0)
			b.v.sec[i][0] = x.Mul(x, inv).Mod(x, s.q)
			return true
		}
		for i := range sums {
			if !fit(i, sums[i]) {
				return
			}
		}
		in, err := s.compile(b.sp, "declared")
		if err != nil {
			t.Viol("compile", "%v", err)
			return
		}
		if in.accepted(t, b.v, what) == nil {
			return
		}
		for i := range sums {
			off := []*big.Int{bigN(1), bigN(-1), p2(64, 0), new(big.Int).Neg(p2(64, 0)), p2(63, 0), p2(32, 0)}
			for _, d := range append(off[:2:2], off[2+r.Intn(4)], off[2+r.Intn(4)]) {
				if fit(i, new(big.Int).Add(sums[i], d)) && len(s.violated(b.sp, b.v)) > 0 {
					in.rejected(t, b.v, fmt.Sprintf("%s | constraint %d off by %s", what, i, fstr(d)))
				}
			}
			fit(i, sums[i])
		}
	}
	for _, x := range l {
		if x.IsUint64() {
			run([]string{"u64"}, []*big.Int{x})
		}
		run([]string{"big"}, []*big.Int{x})
	}
	top := new(big.Int).SetUint64(r.Uint64() | 1<<63)
	run([]string{"u64", "big", "u64"}, []*big.Int{top, top, p2(63, 0)})
	run([]string{"big", "u64", "u64"}, []*big.Int{bigN(-1), p2(64, -1), p2(64, -2)})
}

func declaredCases(cfg Cfg) []Case {
	var cs []Case
	for i, f := range bkFields {
		for j := 0; j < cfg.pick(1, 4); j++ {
			rank := []int{2, 4, 1, 8, 16}[(i+j)%5]
			cs = append(cs, Case{Name: fmt.Sprintf("declared/%s/%d", f, j), Run: func(t *T) { field(f).S.declared(t, rank) }})
		}
	}
	return cs
}
