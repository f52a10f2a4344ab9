package main

import (
	"fmt"
	"math"
	"math/big"
	"math/bits"

	"github.com/sp301415/ringo-snark/buckler"
)

func init() {
	registry["C13"] = func(cfg Cfg) []Case { return append(manyNormCases(cfg, "inf"), normCases(cfg, "inf", Suite.bkInf)...) }
	registry["C14"] = func(cfg Cfg) []Case { return append(manyNormCases(cfg, "two"), normCases(cfg, "two", Suite.bkTwo)...) }
	registry["C15"] = casesC15
}

func normCases(cfg Cfg, kind string, run func(s Suite, t *T, rank, k int)) []Case {
	var cs []Case
	ranks := []int{8, 16, 4, 32, 2, 64, 1}
	for k := 0; k < cfg.pick(40, 300); k++ {
		f := bkFields[(k+k/7)%len(bkFields)]
		rank := ranks[(k/3)%len(ranks)]
		cs = append(cs, Case{Name: fmt.Sprintf("%s/%s/r%d/%d", kind, f, rank, k), Run: func(t *T) { run(field(f).S, t, rank, k) }})
	}
	return cs
}

func bigs(s string) *big.Int {
	x, ok := new(big.Int).SetString(s, 0)
	if !ok {
		panic(s)
	}
	return x
}

func p2(k int, d int64) *big.Int {
	x := new(big.Int).Lsh(big.NewInt(1), uint(k))
	return x.Add(x, big.NewInt(d))
}

func (s *suite[E]) infBound(t *T, k int) *big.Int {
	l := []*big.Int{bigN(2), bigN(3), bigN(1), bigN(0), bigN(4), bigN(5), bigN(6), bigN(7), bigN(8), bigN(9), bigN(15), bigN(16), bigN(17), bigN(31), bigN(32), bigN(33), bigN(100),
		p2(20, -1), p2(20, 0), p2(20, 1), p2(63, 0), p2(64, -1), p2(64, 0), p2(64, 1), p2(100, 0), new(big.Int).Rsh(s.q, 1), new(big.Int).Sub(new(big.Int).Rsh(s.q, 1), bigN(1))}
	if k < len(l) {
		b := l[k]
		if b.BitLen() < s.q.BitLen()-1 || s.q.BitLen() < 300 {
			return b
		}
	}
	return new(big.Int).Rand(t.R, p2(1+t.R.Intn(90), 0))
}

type abort struct{}

// peek proves up to the hook of the given stage and returns the vectors the prover holds there.
func (b *binst[E]) peek(v vals, stage string) (pw []buckler.PublicWitness[E], w []buckler.Witness[E]) {
	setHooks(func(st string, args ...any) {
		if st == stage {
			pw, _ = args[0].([]buckler.PublicWitness[E])
			w, _ = args[1].([]buckler.Witness[E])
			panic(abort{})
		}
	}, nil)
	try(func() { b.prove(v) })
	setHooks(nil, nil)
	return
}

// rejectedWith demands rejection of v when the prover's vectors are changed at the given stage.
func (b *binst[E]) rejectedWith(t *T, v vals, stage, what string, f func(pw []buckler.PublicWitness[E], w []buckler.Witness[E])) {
	setHooks(func(st string, args ...any) {
		if st == stage {
			pw, ok0 := args[0].([]buckler.PublicWitness[E])
			w, ok1 := args[1].([]buckler.Witness[E])
			if ok0 && ok1 {
				f(pw, w)
				t.N("dishonest_provers", 1)
			}
		}
	}, nil)
	b.rejected(t, v, what)
	setHooks(nil, nil)
}

// learn solves for the base of the digits; digits never seen nonzero are guessed to have base one.
func learn(rows [][]*big.Int, rhs []*big.Int, q *big.Int) []*big.Int {
	if len(rows) == 0 {
		return nil
	}
	var cols []int
	for c := range rows[0] {
		for i := range rows {
			if rows[i][c].Sign() != 0 {
				cols = append(cols, c)
				break
			}
		}
	}
	sub := make([][]*big.Int, len(rows))
	for i := range rows {
		for _, c := range cols {
			sub[i] = append(sub[i], rows[i][c])
		}
	}
	x := solveMod(sub, rhs, q)
	if x == nil {
		return nil
	}
	o := make([]*big.Int, len(rows[0]))
	for i := range o {
		o[i] = big.NewInt(1)
	}
	for i, c := range cols {
		o[c] = x[i]
	}
	return o
}

// solveMod returns the unique x with rows*x = rhs modulo q, if there is one.
func solveMod(rows [][]*big.Int, rhs []*big.Int, q *big.Int) []*big.Int {
	if len(rows) == 0 {
		return nil
	}
	n := len(rows[0])
	a := make([][]*big.Int, len(rows))
	for i := range rows {
		a[i] = append(cpBig([][]*big.Int{rows[i]})[0], new(big.Int).Set(rhs[i]))
	}
	r := 0
	tmp := new(big.Int)
	for c := 0; c < n; c++ {
		p := -1
		for i := r; i < len(a); i++ {
			if a[i][c].Sign() != 0 {
				p = i
				break
			}
		}
		if p < 0 {
			return nil
		}
		a[r], a[p] = a[p], a[r]
		inv := new(big.Int).ModInverse(a[r][c], q)
		for j := c; j <= n; j++ {
			a[r][j].Mul(a[r][j], inv).Mod(a[r][j], q)
		}
		for i := range a {
			if i != r && a[i][c].Sign() != 0 {
				f := new(big.Int).Set(a[i][c])
				for j := c; j <= n; j++ {
					tmp.Mul(f, a[r][j])
					a[i][j].Sub(a[i][j], tmp).Mod(a[i][j], q)
				}
			}
		}
		r++
	}
	for i := r; i < len(a); i++ {
		if a[i][n].Sign() != 0 {
			return nil
		}
	}
	o := make([]*big.Int, n)
	for i := range o {
		o[i] = a[i][n]
	}
	return o
}

// bkInf monitors infinity-norm constraints at and beyond their bounds.
func (s *suite[E]) bkInf(t *T, rank, k int) {
	b := s.builder(t.R, rank)
	bounds := []*big.Int{s.infBound(t, k)}
	for i := t.R.Intn(3); i > 0; i-- {
		if bounds[0].BitLen() > 40 && s.q.BitLen() > 100 && !t.cfg.Thorough {
			break
		}
		bounds = append(bounds, s.infBound(t, t.R.Intn(20)))
	}
	var ws []int
	for _, bd := range bounds {
		ws = append(ws, b.norm("inf", bd))
	}
	if k%4 == 3 { // a second bound on the same witness
		b.sp.norms = append(b.sp.norms, normC{ws[0], new(big.Int).Add(bounds[0], bigN(int64(t.R.Intn(3)))), "inf"})
	}
	if k%5 == 1 {
		b.distract([]int{1, 2, 4, 7}[k/5%4])
	}
	if k%5 == 2 {
		b.norm("two", bigN(int64(t.R.Intn(2))))
	}
	b.orderShuffle(k)
	in, err := s.compile(b.sp, "inf")
	if err != nil {
		t.Viol("compile", "%v", err)
		return
	}
	what := s.name + " " + b.sp.detail()
	set := func(v vals, w, row int, x *big.Int) { v.sec[w][row] = new(big.Int).Mod(x, s.q) }
	neg := func(x *big.Int) *big.Int { return new(big.Int).Neg(x) }
	// boundary values
	v := b.v.clone()
	for i, w := range ws {
		for r := 0; r < rank; r++ {
			x := bounds[i]
			switch (r + k) % 4 {
			case 1:
				x = neg(x)
			case 2:
				x = new(big.Int).Sub(x, bigN(1))
				if x.Sign() < 0 {
					x = bounds[i]
				}
			}
			set(v, w, r, x)
		}
	}
	if in.accepted(t, v, what+" | boundary") == nil {
		return
	}
	in.accepted(t, b.v, what+" | interior")
	// every small value
	if bounds[0].BitLen() < 8 {
		B := bounds[0].Int64()
		for c := -B; c <= B; c += int64(rank) {
			v := b.v.clone()
			for r := 0; r < rank; r++ {
				if c+int64(r) <= B {
					set(v, ws[0], r, bigN(c+int64(r)))
				}
			}
			in.accepted(t, v, fmt.Sprintf("%s | values from %d", what, c))
			if c-B > 40 {
				break
			}
		}
	}
	outside := func(B *big.Int) []*big.Int {
		l := []*big.Int{new(big.Int).Add(B, bigN(1)), new(big.Int).Sub(neg(B), bigN(1)), new(big.Int).Lsh(B, 1), new(big.Int).Add(new(big.Int).Lsh(B, 1), bigN(1)), p2(B.BitLen(), -1), p2(B.BitLen(), 0),
			neg(p2(B.BitLen(), 0)), new(big.Int).Add(B, bigN(2)), new(big.Int).Rsh(s.q, 1), neg(new(big.Int).Rsh(s.q, 1)), rndFull(t.R, s.q), p2(64*(1+t.R.Intn(3)), t.R.Int63n(5)-2), neg(new(big.Int).Add(B, bigN(3)))}
		var o []*big.Int
		for _, x := range l {
			if centre(x, s.q).CmpAbs(B) > 0 {
				o = append(o, x)
			}
		}
		return o
	}
	for i, w := range ws {
		for j, x := range outside(bounds[i]) {
			if j > 2 && ((j+k)%3 != 0 || bounds[0].BitLen() > 40 && j%2 == 0) && !t.cfg.Thorough {
				continue
			}
			v := b.v.clone()
			row := []int{0, rank - 1, t.R.Intn(rank)}[j%3]
			if j%4 == 3 {
				for r := 0; r < rank; r++ {
					set(v, w, r, x)
				}
			} else {
				set(v, w, row, x)
			}
			if len(s.violated(b.sp, v)) > 0 {
				in.rejected(t, v, fmt.Sprintf("%s | witness %d row %d is %s", what, w, row, fstr(x)))
			}
		}
	}
	// dishonest digits: learn how the digits recompose from honest runs
	nSec := b.sp.nSec
	var rows [][]*big.Int
	rhs := make([][]*big.Int, len(ws))
	D := 0
	for it := 0; it < 60; it++ {
		v := b.v.clone()
		for i, w := range ws {
			v.sec[w] = b.small(bounds[i])
			if it%2 == 1 { // sparse digits
				for r := range v.sec[w] {
					x := new(big.Int).Rsh(bounds[i], uint(t.R.Intn(bounds[i].BitLen()+1)))
					set(v, w, r, x.Add(x, bigN(int64(t.R.Intn(2)))))
					if centre(v.sec[w][r], s.q).CmpAbs(bounds[i]) > 0 {
						v.sec[w][r].SetInt64(0)
					}
				}
			}
		}
		_, w := in.peek(v, "witness")
		if len(w) <= nSec {
			break
		}
		D = len(w) - nSec
		for r := 0; r < rank; r++ {
			var row []*big.Int
			for d := 0; d < D; d++ {
				row = append(row, bi(w[nSec+d][r]))
			}
			rows = append(rows, row)
			for i := range ws {
				rhs[i] = append(rhs[i], v.sec[ws[i]][r])
			}
		}
		if len(rows) > 3*D+20 {
			break
		}
	}
	if D == 0 || D > 140 {
		return
	}
	for i := range ws {
		base := learn(rows, rhs[i], s.q)
		if base == nil {
			if bounds[i].Cmp(bigN(1)) > 0 {
				t.N("layout_unknown", 1)
			}
			continue
		}
		t.N("layout_learned", 1)
		max := new(big.Int)
		var used []int
		for d := range base {
			if base[d].Sign() != 0 {
				max.Add(max, centre(base[d], s.q))
				used = append(used, d)
			}
		}
		if len(used) == 0 {
			continue
		}
		if max.Cmp(bounds[i]) > 0 { // all digits one
			row := t.R.Intn(rank)
			v := b.v.clone()
			set(v, ws[i], row, max)
			if len(s.violated(b.sp, v)) > 0 {
				in.rejectedWith(t, v, "witness", what+" | all digits one", func(_ []buckler.PublicWitness[E], w []buckler.Witness[E]) {
					for _, d := range used {
						w[nSec+d][row] = fi[E](1)
					}
				})
			}
		}
		outs := outside(bounds[i])
		for n, d := range used {
			if len(used) > 8 && n > 1 && n < len(used)-2 && t.R.Intn(len(used)) > 2 && !t.cfg.Thorough {
				continue
			}
			x := outs[t.R.Intn(len(outs))]
			if n%2 == 0 {
				x = outs[n/2%2]
			}
			row := []int{0, rank - 1, t.R.Intn(rank)}[n%3]
			v := b.v.clone()
			set(v, ws[i], row, x)
			if len(s.violated(b.sp, v)) == 0 {
				continue
			}
			in.rejectedWith(t, v, "witness", fmt.Sprintf("%s | witness %d row %d is %s with digit %d dishonest", what, ws[i], row, fstr(x), d), func(_ []buckler.PublicWitness[E], w []buckler.Witness[E]) {
				e := new(big.Int).Set(v.sec[ws[i]][row])
				for _, d := range used {
					e.Sub(e, new(big.Int).Mul(base[d], bi(w[nSec+d][row])))
				}
				e.Mul(e, new(big.Int).ModInverse(base[d], s.q)).Mod(e, s.q)
				w[nSec+d][row] = newE[E]().Add(w[nSec+d][row], fe[E](e))
			})
			// the digit and the value are wrong in a way that two constraints would have to cancel
			if n+1 < len(used) {
				d2 := used[n+1]
				in.rejectedWith(t, v, "witness", fmt.Sprintf("%s | witness %d row %d is %s with digits %d, %d dishonest", what, ws[i], row, fstr(x), d, d2), func(_ []buckler.PublicWitness[E], w []buckler.Witness[E]) {
					e := new(big.Int).Set(v.sec[ws[i]][row])
					for _, d := range used {
						e.Sub(e, new(big.Int).Mul(base[d], bi(w[nSec+d][row])))
					}
					h := new(big.Int).Mul(e, new(big.Int).ModInverse(new(big.Int).Add(base[d], base[d2]), s.q))
					h.Mod(h, s.q)
					for _, y := range []int{d, d2} {
						w[nSec+y][row] = newE[E]().Add(w[nSec+y][row], fe[E](h))
					}
				})
			}
		}
	}
	t.Sample("%s: %d false statements rejected, %d dishonest provers", b.sp, t.ctr["false_statements"], t.ctr["dishonest_provers"])
}

// withNorm returns a vector whose squared two-norm in the field is n.
func (b *bld[E]) withNorm(n *big.Int, kind int) []*big.Int {
	q := b.s.q
	for try := 0; try < 200; try++ {
		o := make([]*big.Int, b.sp.rank)
		sum := new(big.Int)
		k := b.r.Intn(len(o))
		for i := range o {
			o[i] = new(big.Int)
			if i != k && (kind != 2 || b.r.Intn(3) == 0) {
				if kind == 0 {
					o[i] = rndFull(b.r, q)
				} else {
					o[i] = centre(bigN(int64(b.r.Intn(7)-3)), q)
					o[i].Mod(o[i], q)
				}
				sum.Add(sum, new(big.Int).Mul(o[i], o[i]))
			}
		}
		rest := new(big.Int).Sub(n, sum)
		rest.Mod(rest, q)
		if rest.Sign() == 0 {
			return o
		}
		if x := new(big.Int).ModSqrt(rest, q); x != nil {
			o[k] = x
			return o
		}
		if len(o) == 1 {
			return nil
		}
	}
	return nil
}

// bkTwo monitors two-norm constraints at and beyond their bounds.
func (s *suite[E]) bkTwo(t *T, rank, k int) {
	b := s.builder(t.R, rank)
	bound := func(k int) *big.Int {
		m := min(rank, s.q.BitLen()-1)
		l := []*big.Int{p2(m-1, 0), p2(m, -1), bigN(0), bigN(1), p2(m/2, 0), p2(m/2, 1), p2(m/2, -1), p2(m-1, 1), bigN(2), bigN(3), bigN(5), p2(m, -2)}
		x := new(big.Int).Rand(t.R, p2(1+t.R.Intn(m), 0))
		if k < len(l) {
			x = l[k]
		}
		if x.BitLen() > m {
			x = bigN(1)
		}
		return x
	}
	bounds := []*big.Int{bound(k % 16)}
	for i := (k + 1) % 3; i > 0; i-- {
		bounds = append(bounds, bound(t.R.Intn(16)))
	}
	if k%3 == 1 {
		bounds[1].Set(bounds[0])
	}
	var ws []int
	for _, bd := range bounds {
		w := b.sec(zerovBig(rank))
		ws = append(ws, w)
		b.sp.norms = append(b.sp.norms, normC{w, new(big.Int).Set(bd), "two"})
		b.v.sec[w] = b.withNorm(new(big.Int).Mod(bigN(0), s.q), 2)
	}
	plain := true
	if k%5 == 1 {
		b.distract([]int{1, 2, 4, 7, 8}[k/5%5])
		plain = k/5%5 != 4
		b.orderShuffle(k)
	}
	if k%7 == 2 && rank >= 8 {
		b.sp.norms = append(b.sp.norms, normC{ws[0], new(big.Int).Set(bounds[0]), "two"})
	}
	in, err := s.compile(b.sp, "two")
	if err != nil {
		t.Viol("compile", "%v", err)
		return
	}
	what := s.name + " " + b.sp.detail()
	randInside := func() vals {
		v := b.v.clone()
		for i, w := range ws {
			n := new(big.Int).Rand(t.R, new(big.Int).Add(bounds[i], bigN(1)))
			if x := b.withNorm(n, t.R.Intn(3)); x != nil {
				v.sec[w] = x
			}
		}
		return v
	}
	// every constraint at its bound, just below it, and random
	for _, kind := range []int{0, 1, 2, 3} {
		v := randInside()
		if kind < 2 {
			for i, w := range ws {
				n := new(big.Int).Sub(bounds[i], bigN(int64(kind)))
				if n.Sign() < 0 {
					n.SetInt64(0)
				}
				if x := b.withNorm(n, t.R.Intn(3)); x != nil {
					v.sec[w] = x
				}
			}
		}
		if x := s.violated(b.sp, v); len(x) > 0 {
			panic(fmt.Sprint("harness ", x))
		}
		if in.accepted(t, v, fmt.Sprintf("%s | norms within, kind %d", what, kind)) == nil {
			return
		}
	}
	outside := func(B *big.Int) []*big.Int {
		l := []*big.Int{new(big.Int).Add(B, bigN(1)), new(big.Int).Add(B, bigN(2)), p2(B.BitLen(), -1), p2(B.BitLen(), 0), p2(B.BitLen(), 1), new(big.Int).Lsh(B, 1), bigN(-1), new(big.Int).Neg(B), new(big.Int).Rsh(s.q, 1),
			new(big.Int).Add(new(big.Int).Rsh(s.q, 1), bigN(1)), rndFull(t.R, s.q), p2(64, 0)}
		var o []*big.Int
		for _, x := range l {
			x = new(big.Int).Mod(x, s.q)
			if x.Cmp(B) > 0 {
				o = append(o, x)
			}
		}
		return o
	}
	for i, w := range ws {
		for j, n := range outside(bounds[i]) {
			v := randInside()
			x := b.withNorm(n, j%3)
			if x == nil {
				continue
			}
			v.sec[w] = x
			in.rejected(t, v, fmt.Sprintf("%s | squared norm of witness %d is %s", what, w, fstr(n)))
		}
	}
	// dishonest digits
	if !plain || len(b.sp.norms) != len(ws) || b.sp.shuffle != 0 {
		return
	}
	nSec, nPub := b.sp.nSec, b.sp.nPub
	learn := func(i int) (pb int, ok bool) {
		for it := 0; it < 3; it++ {
			v := randInside()
			pw, w := in.peek(v, "witness")
			if len(pw) < nPub+2*len(ws) || len(w) < nSec+len(ws) {
				return 0, false
			}
			n := new(big.Int)
			for _, x := range v.sec[ws[i]] {
				n.Add(n, new(big.Int).Mul(x, x))
			}
			n.Mod(n, s.q)
			good := false
			for _, c := range []int{nPub + 2*i, nPub + 2*i + 1} {
				m := new(big.Int)
				all := true
				for r := 0; r < rank; r++ {
					m.Add(m, new(big.Int).Mul(bi(pw[c][r]), bi(w[nSec+i][r])))
					if bi(pw[c][r]).Cmp(bi(pw[2*nPub+4*i+1-c][r])) < 0 {
						all = false
					}
				}
				if m.Mod(m, s.q).Cmp(n) == 0 && all {
					pb, good = c, true
				}
			}
			if !good {
				return 0, false
			}
		}
		return pb, true
	}
	for i, w0 := range ws {
		pb, ok := learn(i)
		if !ok {
			t.N("layout_unknown", 1)
			continue
		}
		t.N("layout_learned", 1)
		pm := 2*nPub + 4*i + 1 - pb
		outs := outside(bounds[i])
		adjust := func(pw []buckler.PublicWitness[E], w []buckler.Witness[E], n *big.Int, j int) {
			e := new(big.Int).Set(n)
			for r := 0; r < rank; r++ {
				e.Sub(e, new(big.Int).Mul(bi(pw[pb][r]), bi(w[nSec+i][r])))
			}
			e.Mul(e, new(big.Int).ModInverse(bi(pw[pb][j]), s.q)).Mod(e, s.q)
			w[nSec+i][j] = newE[E]().Add(w[nSec+i][j], fe[E](e))
		}
		for j := 0; j < rank; j++ {
			if rank > 16 && j > 3 && t.R.Intn(rank) > 8 && !t.cfg.Thorough {
				continue
			}
			n := outs[t.R.Intn(len(outs))]
			x := b.withNorm(n, j%3)
			if x == nil {
				continue
			}
			v := randInside()
			v.sec[w0] = x
			in.rejectedWith(t, v, "witness", fmt.Sprintf("%s | squared norm of witness %d is %s, digit %d dishonest", what, w0, fstr(n), j), func(pw []buckler.PublicWitness[E], w []buckler.Witness[E]) {
				if bi(pw[pb][j]).Sign() != 0 {
					adjust(pw, w, n, j)
					return
				}
				// a digit beyond the mask, with the prover's own base and mask
				pw[pb][j] = fi[E](1)
				adjust(pw, w, n, j)
				if (j+k)%2 == 0 {
					pw[pm][j] = cp(w[nSec+i][j])
				} else {
					pw[pb][j] = fi[E](0)
				}
			})
		}
		// a digit -1 makes a small negative norm
		for j := 0; j < rank; j++ {
			pw, _ := in.peek(b.v, "witness")
			if bi(pw[pb][j]).Sign() == 0 || (j > 2 && t.R.Intn(rank) > 3) {
				continue
			}
			n := new(big.Int).Neg(bi(pw[pb][j]))
			n.Mod(n, s.q)
			x := b.withNorm(n, 2)
			if x == nil || n.Cmp(bounds[i]) <= 0 {
				continue
			}
			v := randInside()
			v.sec[w0] = x
			in.rejectedWith(t, v, "witness", fmt.Sprintf("%s | negative squared norm of witness %d, digit %d is -1", what, w0, j), func(pw []buckler.PublicWitness[E], w []buckler.Witness[E]) {
				for r := 0; r < rank; r++ {
					w[nSec+i][r] = fi[E](0)
				}
				w[nSec+i][j] = fi[E](-1)
			})
		}
		// excess in one constraint, want in another
		if j := (i + 1) % len(ws); j != i && bounds[j].Sign() > 0 {
			d := new(big.Int).Rand(t.R, bounds[j])
			d.Add(d, bigN(1))
			v := randInside()
			x := b.withNorm(new(big.Int).Add(bounds[i], d), 0)
			y := b.withNorm(new(big.Int).Sub(bounds[j], d), 0)
			if x == nil || y == nil {
				continue
			}
			h := randInside()
			hx, hy := b.withNorm(bounds[i], 0), b.withNorm(bounds[j], 0)
			if hx == nil || hy == nil {
				continue
			}
			h.sec[w0], h.sec[ws[j]] = hx, hy
			_, dig := in.peek(h, "witness")
			v.sec[w0], v.sec[ws[j]] = x, y
			if len(s.violated(b.sp, v)) == 0 {
				continue
			}
			in.rejectedWith(t, v, "witness", fmt.Sprintf("%s | excess of witness %d balanced by witness %d", what, w0, ws[j]), func(pw []buckler.PublicWitness[E], w []buckler.Witness[E]) {
				copy(w[nSec+i], cpv(dig[nSec+i]))
				copy(w[nSec+j], cpv(dig[nSec+j]))
			})
		}
	}
	t.Sample("%s: %d false statements rejected, %d dishonest provers", b.sp, t.ctr["false_statements"], t.ctr["dishonest_provers"])
}

func zerovBig(n int) []*big.Int {
	o := make([]*big.Int, n)
	for i := range o {
		o[i] = new(big.Int)
	}
	return o
}

func casesC15(cfg Cfg) []Case {
	var cs []Case
	fs := []string{"zp220", "zp255", "zp110", "zp440", "zp240"}
	for k := 0; k < cfg.pick(10, 60); k++ {
		f := fs[k%len(fs)]
		rank := []int{2048, 2048, 4096}[k/2%3]
		cs = append(cs, Case{Name: fmt.Sprintf("apx/%s/r%d/%d", f, rank, k), Run: func(t *T) { field(f).S.bkApx(t, rank, k) }})
	}
	for i, f := range []string{"zp880", "zp440"} {
		if i < cfg.pick(1, 2) {
			cs = append(cs, Case{Name: "matrix/" + f, Run: func(t *T) { field(f).S.bkProjMatrix(t, 2048) }})
		}
	}
	cs = append(cs, Case{Name: "bits/apx", Run: func(t *T) { field([]string{"zp220", "zp110"}[t.R.Intn(2)]).S.bkBits(t, 2048, -1) }})
	cs = append(cs, Case{Name: "apx/zero", Run: func(t *T) { field("zp220").S.bkApxZero(t) }})
	// Bounds whose slack does not fit in a machine word.
	for i, x := range []struct {
		f    string
		rank int
		b    *big.Int
	}{{"zp220", 16384, p2(50, 1)}, {"zp255", 16384, p2(64, 3)}, {"zp110", 16384, p2(63, -1)}, {"zp440", 16384, p2(100, 0)}, {"zp220", 32768, p2(49, 0)}, {"zp880", 16384, p2(113, 5)}} {
		if i < cfg.pick(2, 6) {
			cs = append(cs, Case{Name: fmt.Sprintf("wide/%s/r%d/%d", x.f, x.rank, x.b.BitLen()), Run: func(t *T) { field(x.f).S.bkApxWide(t, x.rank, x.b) }})
		}
	}
	return cs
}

// bkApxWide monitors approximate constraints with large bounds.
func (s *suite[E]) bkApxWide(t *T, rank int, B *big.Int) {
	b := s.builder(t.R, rank)
	w := b.norm("apx", B)
	in, err := s.compile(b.sp, "apx")
	if err != nil {
		t.Viol("compile", "%v", err)
		return
	}
	what := fmt.Sprintf("%s rank %d bound %s", s.name, rank, fstr(B))
	in.accepted(t, b.v, what)
	v := b.v.clone()
	for i := range v.sec[w] {
		v.sec[w][i] = new(big.Int).Mod(new(big.Int).Mul(B, bigN(int64(1-2*(i/7%2)))), s.q)
	}
	in.accepted(t, v, what+" | all entries at the bound")
	lim := new(big.Int).Mul(B, bigN(int64(2*rank)))
	big1 := new(big.Int).Add(lim, bigN(1))
	for i, x := range []*big.Int{new(big.Int).Rsh(s.q, 1), big1, new(big.Int).Neg(big1)}[:t.cfg.pick(2, 3)] {
		v := b.v.clone()
		row := []int{rank - 1, t.R.Intn(rank), 0}[i]
		v.sec[w][row] = new(big.Int).Mod(x, s.q)
		in.rejected(t, v, fmt.Sprintf("%s | row %d is %s", what, row, fstr(x)))
	}
}

// bkApxZero: bound zero is exact.
func (s *suite[E]) bkApxZero(t *T) {
	for _, rank := range []int{1, 16, 256} {
		b := s.builder(t.R, rank)
		b.norm("apx", bigN(0))
		in, err := s.compile(b.sp, "apx")
		if err != nil {
			t.Viol("compile", "%v", err)
			return
		}
		in.accepted(t, b.v, fmt.Sprint("bound zero, rank ", rank))
		v := b.v.clone()
		v.sec[0][t.R.Intn(rank)] = bigN(1)
		in.rejected(t, v, fmt.Sprint("bound zero, rank ", rank, ", one entry 1"))
	}
}

// bkApx monitors approximate norm constraints.
func (s *suite[E]) bkApx(t *T, rank, k int) {
	b := s.builder(t.R, rank)
	maxDigits := rank / 128
	B := bigN([]int64{1, 2, 7, 4, 3, 15, 1, 31}[k%8])
	for new(big.Int).Mul(B, bigN(int64(rank))).BitLen() > maxDigits {
		B.Rsh(B, 1)
	}
	pre := k % 2
	for i := 0; i < pre; i++ {
		b.sec(b.vec(0))
	}
	w0 := b.norm("apx", B)
	two := k%3 == 2
	w1 := -1
	if two {
		w1 = b.norm("apx", B)
	}
	if k%4 == 3 {
		b.arith([]term{{bigN(1), -1, []int{w0, w0}}}, false)
	}
	in, err := s.compile(b.sp, "apx")
	if err != nil {
		t.Viol("compile", "%v", err)
		return
	}
	what := s.name + " " + b.sp.detail()
	refit := func(v vals) vals { // keeps the arithmetic constraint true
		if k%4 == 3 {
			sq := v.sec[len(v.sec)-1]
			for i := range sq {
				sq[i].Mul(v.sec[w0][i], v.sec[w0][i])
				sq[i].Mod(sq[i], s.q)
			}
		}
		return v
	}
	fill := func(v vals, w int, f func(i int) *big.Int) vals {
		for i := range v.sec[w] {
			v.sec[w][i] = new(big.Int).Mod(f(i), s.q)
		}
		return refit(v)
	}
	seed := fmt.Sprint(t.Name, "/fixed")
	if in.accepted(t, b.v, what) == nil {
		return
	}
	in.accepted(t, fill(b.v.clone(), w0, func(int) *big.Int { return B }), what+" | all entries at the bound")
	in.accepted(t, fill(b.v.clone(), w0, func(int) *big.Int { return new(big.Int).Neg(B) }), what+" | all entries at minus the bound")
	// too large entries
	lim := new(big.Int).Mul(B, bigN(int64(2*rank)))
	big1 := new(big.Int).Add(lim, bigN(1))
	ws := []int{w0}
	if two {
		ws = append(ws, w1)
	}
	nSec := b.sp.nSec
	large := []*big.Int{big1, new(big.Int).Neg(big1), new(big.Int).Lsh(lim, 7), new(big.Int).Rsh(s.q, 1), rndFull(t.R, s.q)}
	for i, x := range large {
		w := ws[i%len(ws)]
		row := []int{0, rank - 1, t.R.Intn(rank)}[(i+k)%3]
		v := b.v.clone()
		v.sec[w][row] = new(big.Int).Mod(x, s.q)
		refit(v)
		in.rejected(t, v, fmt.Sprintf("%s | witness %d row %d is %s", what, w, row, fstr(x)))
	}
	// the layout of the derived vectors
	_, hw := in.peek(b.v, "project")
	if len(hw) != nSec+2*len(ws) {
		t.N("layout_unknown", 1)
		return
	}
	tern := func(v []E) bool {
		for _, e := range v {
			if s.centred(e).CmpAbs(bigN(1)) > 0 {
				return false
			}
		}
		return true
	}
	for i := range ws {
		if tern(hw[nSec+2*i]) || !tern(hw[nSec+2*i+1]) {
			t.N("layout_unknown", 1)
			return
		}
	}
	t.N("layout_learned", 1)
	nd := new(big.Int).Mul(B, bigN(int64(rank))).BitLen()
	// base of the digits: from the honest projection
	var rows [][]*big.Int
	var rhs []*big.Int
	for i := 0; i < 128; i++ {
		var r []*big.Int
		for j := 0; j < nd; j++ {
			r = append(r, bi(hw[nSec+1][i*nd+j]))
		}
		rows, rhs = append(rows, r), append(rhs, bi(hw[nSec][i]))
	}
	// large witnesses give more varied digits
	for it := 0; it < 10; it++ {
		m := 1 + it*7/2%17
		v := fill(b.v.clone(), w0, func(int) *big.Int {
			if it < 2 {
				return new(big.Int).Mul(B, bigN(int64(1-2*it)))
			}
			if t.R.Intn(17) < m {
				return new(big.Int).Mul(B, bigN(int64(1-it%2*2)))
			}
			x := new(big.Int).Rand(t.R, B)
			x.Sub(B, x)
			if it%2 == 1 {
				x.Neg(x)
			}
			return x
		})
		_, x := in.peek(v, "project")
		if len(x) != nSec+2*len(ws) {
			break
		}
		for i := 0; i < 128; i++ {
			var r []*big.Int
			for j := 0; j < nd; j++ {
				r = append(r, bi(x[nSec+1][i*nd+j]))
			}
			rows, rhs = append(rows, r), append(rhs, bi(x[nSec][i]))
		}
	}
	base := learn(rows, rhs, s.q)
	if base == nil {
		t.N("digit_base_unknown", 1)
	} else {
		for n := 0; n < t.cfg.pick(3, 12); n++ {
			i := n % len(ws)
			j := t.R.Intn(nd)
			v := b.v.clone()
			row := t.R.Intn(rank)
			v.sec[ws[i]][row] = new(big.Int).Mod(large[n%len(large)], s.q)
			refit(v)
			in.rejectedWith(t, v, "project", fmt.Sprintf("%s | witness %d row %d is %s, digits %d dishonest", what, ws[i], row, fstr(large[n%len(large)]), j), func(_ []buckler.PublicWitness[E], w []buckler.Witness[E]) {
				for r := 0; r < 128; r++ {
					e := bi(w[nSec+2*i][r])
					for d := range base {
						e.Sub(e, new(big.Int).Mul(base[d], bi(w[nSec+2*i+1][r*nd+d])))
					}
					e.Mul(e, new(big.Int).ModInverse(base[j], s.q)).Mod(e, s.q)
					w[nSec+2*i+1][r*nd+j] = newE[E]().Add(w[nSec+2*i+1][r*nd+j], fe[E](e))
				}
			})
		}
	}
	// a made-up projection that fits
	for n := 0; n < 2; n++ {
		i := n % len(ws)
		v := b.v.clone()
		v.sec[ws[i]][t.R.Intn(rank)] = new(big.Int).Mod(large[2+n], s.q)
		refit(v)
		in.rejectedWith(t, v, "project", fmt.Sprintf("%s | made-up projection %d of witness %d", what, n, ws[i]), func(_ []buckler.PublicWitness[E], w []buckler.Witness[E]) {
			for r := 0; r < 128; r++ {
				if n == 0 || s.centred(w[nSec+2*i][r]).CmpAbs(lim) > 0 {
					w[nSec+2*i][r] = fi[E](0)
					for d := 0; d < nd; d++ {
						w[nSec+2*i+1][r*nd+d] = fi[E](0)
					}
				}
			}
		})
	}
	// a projection known in advance: powers of two reveal its columns
	cols := s.q.BitLen() - 1
	for target := range ws {
		w := ws[target]
		off := t.R.Intn(rank - cols)
		v := b.v.clone()
		for i := range v.sec[w] {
			v.sec[w][i].SetInt64(0)
		}
		for c := 0; c < cols; c++ {
			v.sec[w][off+c] = p2(c, 0)
		}
		refit(v)
		reseed(seed)
		_, x := in.peek(v, "project")
		if len(x) != nSec+2*len(ws) {
			t.N("layout_unknown", 1)
			return
		}
		P := make([][]uint, 128)
		for i := range P {
			y := bi(x[nSec+2*target][i])
			for c := 0; c < cols; c++ {
				P[i] = append(P[i], y.Bit(c))
			}
		}
		s.projStats(t, P, what)
		if cols < 130 { // too few columns for a kernel: use zero rows at least
			continue
		}
		ker := kernelMod(P, s.q)
		if ker == nil {
			t.N("no_kernel", 1)
			continue
		}
		a := b.v.clone()
		for i := range a.sec[w] {
			a.sec[w][i].SetInt64(0)
		}
		for c := 0; c < cols; c++ {
			a.sec[w][off+c] = ker[c]
		}
		refit(a)
		reseed(seed)
		in.rejected(t, a, fmt.Sprintf("%s | witness %d in the kernel of the projection of another witness", what, w))
		t.N("predicted_challenge_attacks", 1)
	}
	t.Sample("%s: %d false statements rejected, %d dishonest provers", b.sp, t.ctr["false_statements"], t.ctr["dishonest_provers"])
}

// bkProjMatrix recovers whole projections: powers of two in several witnesses show the columns.
func (s *suite[E]) bkProjMatrix(t *T, rank int) {
	cols := s.q.BitLen() - 1
	nw := (rank + cols - 1) / cols
	b := s.builder(t.R, rank)
	for i := 0; i < nw; i++ {
		b.norm("apx", bigN(1))
	}
	in, err := s.compile(b.sp, "matrix")
	if err != nil {
		t.Viol("compile", "%v", err)
		return
	}
	v := b.v.clone()
	for i := 0; i < nw; i++ {
		for j := range v.sec[i] {
			v.sec[i][j] = new(big.Int)
			if j/cols == i {
				v.sec[i][j] = p2(j%cols, 0)
			}
		}
	}
	cross := map[string]string{}
	for n := 0; n < t.cfg.pick(2, 6); n++ {
		_, x := in.peek(v, "project")
		if len(x) != nw+2*nw {
			t.N("layout_unknown", 1)
			return
		}
		for i := range x[nw:] {
			large := false
			for _, e := range x[nw+i] {
				large = large || s.centred(e).CmpAbs(bigN(1)) > 0
			}
			if large != (i%2 == 0) {
				t.N("layout_unknown", 1)
				return
			}
		}
		col := make([][2]uint64, rank)
		row := make([][]uint64, 128)
		for r := range row {
			row[r] = make([]uint64, (rank+63)/64)
			for j := 0; j < rank; j++ {
				if bi(x[nw+2*(j/cols)][r]).Bit(j%cols) == 1 {
					col[j][r/64] |= 1 << (r % 64)
					row[r][j/64] |= 1 << (j % 64)
				}
			}
		}
		what := fmt.Sprintf("%s rank %d proof %d", s.name, rank, n)
		for j := range col {
			k := fmt.Sprint(col[j])
			if o, ok := cross[k]; ok {
				t.Viol("projection", "%s: column %d of the projection equals column %s", what, j, o)
				return
			}
			cross[k] = fmt.Sprint(j, " of ", what)
			for i := 0; i < j; i++ {
				d := bits.OnesCount64(col[i][0]^col[j][0]) + bits.OnesCount64(col[i][1]^col[j][1])
				if d < 18 || d > 110 {
					t.Viol("projection", "%s: columns %d and %d of the projection differ in %d of 128 entries", what, i, j, d)
					return
				}
			}
		}
		lim := 7.5 * math.Sqrt(float64(rank)) / 2
		for r := range row {
			one := 0
			for _, w := range row[r] {
				one += bits.OnesCount64(w)
			}
			if math.Abs(float64(one)-float64(rank)/2) > lim {
				t.Viol("projection", "%s: row %d has %d of %d entries set", what, r, one, rank)
				return
			}
			for i := 0; i < r; i++ {
				d := 0
				for k, w := range row[r] {
					d += bits.OnesCount64(w ^ row[i][k])
				}
				if math.Abs(float64(d)-float64(rank)/2) > lim {
					t.Viol("projection", "%s: rows %d and %d of the projection differ in %d of %d entries", what, i, r, d, rank)
					return
				}
			}
		}
		// what is left of the projected vectors is zero
		for i := 0; i < nw; i++ {
			for r := 128; r < rank; r++ {
				if bi(x[nw+2*i][r]).Sign() != 0 {
					t.Viol("projection", "%s: entry %d of projection %d is not zero", what, r, i)
					return
				}
			}
		}
		t.Eval(what + "/matrix")
		t.N("projection_entries", 128*rank)
		t.N("column_pairs_compared", rank*(rank-1)/2)
	}
}

// projStats checks that a projection looks random: distinct rows and columns, half of the entries set.
func (s *suite[E]) projStats(t *T, P [][]uint, what string) {
	ones, n := 0, 0
	seen := map[string]int{}
	for i := range P {
		k := fmt.Sprint(P[i])
		if j, ok := seen[k]; ok {
			t.Viol("projection", "%s: rows %d and %d of the projection are equal", what, j, i)
			return
		}
		seen[k] = i
		c := 0
		for _, b := range P[i] {
			c += int(b)
		}
		if m := len(P[i]); (2*c-m)*(2*c-m) > 49*m {
			t.Viol("projection", "%s: row %d of the projection has %d of %d entries set", what, i, c, m)
		}
		ones += c
		n += len(P[i])
	}
	for c := range P[0] {
		m := 0
		for i := range P {
			m += int(P[i][c])
		}
		if (2*m-128)*(2*m-128) > 49*128 {
			t.Viol("projection", "%s: column %d of the projection has %d of 128 entries set", what, c, m)
		}
	}
	t.Eval(what + "/projection")
	t.N("projection_entries", n)
	if (2*ones-n)*(2*ones-n) > 49*n {
		t.Viol("projection", "%s: %d of %d entries of the projection are set", what, ones, n)
	}
}

// kernelMod returns a random nonzero x with P*x = 0 modulo q and large entries.
func kernelMod(P [][]uint, q *big.Int) []*big.Int {
	n := len(P[0])
	a := make([][]*big.Int, len(P))
	for i := range P {
		for _, b := range P[i] {
			a[i] = append(a[i], bigN(int64(b)))
		}
	}
	var piv []int
	r := 0
	tmp := new(big.Int)
	for c := 0; c < n && r < len(a); c++ {
		p := -1
		for i := r; i < len(a); i++ {
			if a[i][c].Sign() != 0 {
				p = i
				break
			}
		}
		if p < 0 {
			continue
		}
		a[r], a[p] = a[p], a[r]
		inv := new(big.Int).ModInverse(a[r][c], q)
		for j := c; j < n; j++ {
			a[r][j].Mul(a[r][j], inv).Mod(a[r][j], q)
		}
		for i := range a {
			if i != r && a[i][c].Sign() != 0 {
				f := new(big.Int).Set(a[i][c])
				for j := c; j < n; j++ {
					tmp.Mul(f, a[r][j])
					a[i][j].Sub(a[i][j], tmp).Mod(a[i][j], q)
				}
			}
		}
		piv = append(piv, c)
		r++
	}
	free := -1
	isP := map[int]bool{}
	for _, c := range piv {
		isP[c] = true
	}
	for c := 0; c < n; c++ {
		if !isP[c] {
			free = c
		}
	}
	if free < 0 {
		return nil
	}
	x := zerovBig(n)
	x[free].Rsh(q, 1)
	for i, c := range piv {
		x[c].Mul(a[i][free], x[free]).Neg(x[c]).Mod(x[c], q)
	}
	return x
}
