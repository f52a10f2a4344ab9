package main

import (
	"fmt"
	"math/big"
)

// systemCases are systems of similar constraints on few vectors: a witness related to itself, several maps or
// several constraints on the same vectors, constraints that differ in a single coefficient, public vector,
// declared sum or order. For every constraint, assignments that violate it alone are computed by linear algebra.
func systemCases(cfg Cfg, kind string) []Case {
	var cs []Case
	ranks := []int{4, 8, 2, 4, 1, 16}
	for k := 0; k < cfg.pick(24, 240); k++ {
		f := bkFields[k%len(bkFields)]
		rank := ranks[(k/2)%len(ranks)]
		cs = append(cs, Case{Name: fmt.Sprintf("system/%s/%s/r%d/%d", kind, f, rank, k), Run: func(t *T) { field(f).S.bkSystem(t, kind, rank, k) }})
	}
	return cs
}

// nullspace returns a basis of the solutions of the equations.
func nullspace(rows [][]*big.Int, n int, q *big.Int) [][]*big.Int {
	var m [][]*big.Int
	for _, r := range rows {
		m = append(m, cpBig([][]*big.Int{r})[0])
	}
	var piv []int
	at := 0
	for c := 0; c < n && at < len(m); c++ {
		p := -1
		for i := at; i < len(m); i++ {
			if m[i][c].Sign() != 0 {
				p = i
				break
			}
		}
		if p < 0 {
			continue
		}
		m[at], m[p] = m[p], m[at]
		inv := new(big.Int).ModInverse(m[at][c], q)
		for j := c; j < n; j++ {
			m[at][j].Mod(m[at][j].Mul(m[at][j], inv), q)
		}
		for i := range m {
			if i == at || m[i][c].Sign() == 0 {
				continue
			}
			f := new(big.Int).Set(m[i][c])
			for j := c; j < n; j++ {
				if m[at][j].Sign() != 0 {
					x := new(big.Int).Mul(f, m[at][j])
					m[i][j].Mod(m[i][j].Sub(m[i][j], x), q)
				}
			}
		}
		piv = append(piv, c)
		at++
	}
	isPiv := make([]bool, n)
	for _, c := range piv {
		isPiv[c] = true
	}
	var o [][]*big.Int
	for c := 0; c < n; c++ {
		if isPiv[c] {
			continue
		}
		v := make([]*big.Int, n)
		for i := range v {
			v[i] = new(big.Int)
		}
		v[c].SetInt64(1)
		for i, p := range piv {
			v[p].Mod(new(big.Int).Neg(m[i][c]), q)
		}
		o = append(o, v)
	}
	return o
}

func (s *suite[E]) bkSystem(t *T, kind string, rank, k int) {
	for try := 0; !s.systemOnce(t, kind, rank, k, try == 30); try++ {
	}
}

// systemOnce draws a system; if most of its constraints follow from the others it gives up, unless told to go on.
func (s *suite[E]) systemOnce(t *T, kind string, rank, k int, goOn bool) bool {
	r, q := t.R, s.q
	b := s.builder(r, rank)
	nSec := []int{2, 1, 3, 5, 2, 4}[k%6]
	one := big.NewInt(1)
	pubs := 3
	for i := 0; i < pubs; i++ {
		b.pub(b.vec(0))
	}
	for i := 0; i < nSec; i++ {
		b.sec(nil)
	}
	n := nSec * rank
	eq := func() []*big.Int {
		o := make([]*big.Int, n)
		for i := range o {
			o[i] = new(big.Int)
		}
		return o
	}
	// linear constraints
	maps := map[int][][]*big.Int{}
	var eqs [][][]*big.Int // per constraint
	if kind == "lin" || r.Intn(6) == 0 {
		for i := 0; i < 2+r.Intn(2); i++ {
			c := b.randChk()
			ck := s.makeChk(b.sp.chks[c], rank)
			for j := 0; j < rank; j++ {
				u, w := zerov[E](rank), zerov[E](rank)
				u[j].SetInt64(1)
				ck.TransformTo(w, u)
				maps[c] = append(maps[c], biv(w))
			}
		}
		cons := 1 + r.Intn(2)
		if kind == "lin" {
			cons = 2 + r.Intn(3)
		}
		var last linC
		for i := 0; i < cons; i++ {
			l := linC{r.Intn(nSec), r.Intn(nSec), r.Intn(len(maps))}
			if i > 0 {
				switch r.Intn(4) {
				case 0: // another map on the same pair
					l = linC{last.out, last.in, (last.chk + 1) % len(maps)}
				case 1: // the pair exchanged
					l = linC{last.in, last.out, last.chk}
				case 2: // same map, same input
					l = linC{r.Intn(nSec), last.in, last.chk}
				}
			} else if k%3 == 0 {
				l.in = l.out
			}
			last = l
			b.sp.lins = append(b.sp.lins, l)
			var es [][]*big.Int
			for i := 0; i < rank; i++ {
				e := eq()
				e[l.out*rank+i].Add(e[l.out*rank+i], one)
				for j := 0; j < rank; j++ {
					x := e[l.in*rank+j]
					x.Mod(x.Sub(x, maps[l.chk][j][i]), q)
				}
				es = append(es, e)
			}
			eqs = append(eqs, es)
		}
	}
	comb := func(basis [][]*big.Int) []*big.Int {
		o := eq()
		for _, v := range basis {
			c := rndFull(r, q)
			for i := range o {
				o[i].Add(o[i], new(big.Int).Mul(c, v[i]))
			}
		}
		for i := range o {
			o[i].Mod(o[i], q)
		}
		return o
	}
	var flat [][]*big.Int
	for _, e := range eqs {
		flat = append(flat, e...)
	}
	x := comb(nullspace(flat, n, q))
	put := func(v vals, x []*big.Int) {
		for i := 0; i < nSec; i++ {
			v.sec[i] = cpBig([][]*big.Int{x[i*rank : (i+1)*rank]})[0]
		}
	}
	put(b.v, x)
	// arithmetic and sum constraints, each similar to the one before
	similar := func(ts []term) []term {
		if ts == nil {
			for i := 0; i < 1+r.Intn(3); i++ {
				ts = append(ts, term{b.coef(), r.Intn(pubs+1) - 1, []int{r.Intn(nSec)}})
			}
			return ts
		}
		o := append([]term(nil), ts...)
		j := r.Intn(len(o))
		switch r.Intn(6) {
		case 0:
			o[j].c = b.coef()
		case 1:
			o[j].c = new(big.Int).Add(o[j].c, one)
		case 2:
			o[j].pub = (o[j].pub+2)%(pubs+1) - 1
		case 3:
			o[j].wit = []int{(o[j].wit[0] + 1) % nSec}
		case 4:
			o = append(o, o[j])
		case 5:
			o = append([]term{{b.coef(), -1, []int{r.Intn(nSec)}}}, o...)
		}
		for i := range o {
			o[i].c = new(big.Int).Mod(o[i].c, q)
		}
		return o
	}
	coefs := func(ts []term, e []*big.Int, i int) {
		for _, u := range ts {
			c := new(big.Int).Set(u.c)
			if u.pub >= 0 {
				c.Mul(c, b.v.pub[u.pub][i])
			}
			z := e[u.wit[0]*rank+i]
			z.Mod(z.Add(z, c), q)
		}
	}
	if kind == "arith" || r.Intn(5) == 0 {
		var ts []term
		cons := 1 + r.Intn(2)
		if kind == "arith" {
			cons = 2 + r.Intn(3)
		}
		for i := 0; i < cons; i++ {
			ts = similar(ts)
			var es [][]*big.Int
			for i := 0; i < rank; i++ {
				e := eq()
				coefs(ts, e, i)
				es = append(es, e)
			}
			eqs = append(eqs, es)
			b.arith(append([]term(nil), ts...), true)
		}
	}
	if kind == "sum" || r.Intn(3) == 0 {
		var ts []term
		cons := 1 + r.Intn(2)
		if kind == "sum" {
			cons = 2 + r.Intn(4)
		}
		for i := 0; i < cons; i++ {
			ts = similar(ts)
			e := eq()
			for i := 0; i < rank; i++ {
				coefs(ts, e, i)
			}
			eqs = append(eqs, [][]*big.Int{e})
			b.sum(append([]term(nil), ts...))
		}
	}
	others := func(c int) [][]*big.Int {
		var rows [][]*big.Int
		for d := range eqs {
			if d != c {
				rows = append(rows, eqs[d]...)
			}
		}
		return rows
	}
	indep := 0
	for c := range eqs {
		if len(nullspace(others(c), n, q)) > len(nullspace(others(-1), n, q)) {
			indep++
		}
	}
	if !goOn && (indep < 2 || 2*indep < len(eqs)) {
		return false
	}
	b.orderShuffle(k)
	what := s.name + " " + b.sp.detail()
	in, err := s.compile(b.sp, fmt.Sprint("system", kind, k))
	if err != nil {
		t.Viol("compile", "%s: %v", what, err)
		return true
	}
	if bad := s.violated(b.sp, b.v); len(bad) > 0 {
		panic(fmt.Sprint("system: ", what, bad))
	}
	if in.accepted(t, b.v, what) == nil {
		return true
	}
	for c := range eqs {
		for rep := 0; rep < t.cfg.pick(2, 4); rep++ {
			// all equations of the others, and all but one of the constraint's own when rep is odd
			rows := others(c)
			if rep%2 == 1 {
				j := r.Intn(len(eqs[c]))
				for i := range eqs[c] {
					if i != j {
						rows = append(rows, eqs[c][i])
					}
				}
			}
			d := comb(nullspace(rows, n, q))
			for i := range d {
				d[i].Mod(d[i].Add(d[i], x[i]), q)
			}
			v := b.v.clone()
			put(v, d)
			bad := s.violated(b.sp, v)
			if len(bad) == 0 {
				t.N("constraint_implied_by_the_others", 1)
				continue
			}
			t.N("single_constraint_violated", 1)
			in.rejected(t, v, what+fmt.Sprint(" | violated ", bad))
		}
	}
	// sums declared twice with different values can never hold
	if len(b.sp.sums) > 0 {
		sp := *b.sp
		c := sp.sums[r.Intn(len(sp.sums))]
		sp.sums = append(append([]sumC(nil), sp.sums...), sumC{ts: c.ts, sum: new(big.Int).Mod(new(big.Int).Add(c.sum, one), q)})
		if w, err := s.compile(&sp, "twice"); err == nil {
			w.rejected(t, b.v, s.name+" "+sp.detail()+" | a sum declared with two values")
		}
	}
	t.Sample("%s: %d single violations rejected", b.sp, t.ctr["single_constraint_violated"])
	return true
}
