package main

import (
	"fmt"
	"math/big"
	"strings"
)

func init() { registry["C29"] = casesC29 }

// genField is a field whose package was generated for this run; b and k are zero when only a range of bit lengths was asked for.
type genField struct {
	name, req string
	f         F
	z         zpField
	lo, hi    int // bit lengths asked for
	b, k      uint64
}

var genFields []genField

func (g genField) modulus(t *T) {
	q := g.f.Q
	t.Eval(g.req + " modulus")
	if !q.ProbablyPrime(40) {
		t.Viol("modulus", "%s: %s is not a prime", g.req, q)
	}
	// a single length is exact; the end of a range is taken as part of it or not
	if n := q.BitLen(); g.lo > 0 && (n < g.lo || n > g.hi || g.hi == g.lo+1 && !strings.Contains(g.req, fmt.Sprint(g.lo, "-")) && n > g.lo) {
		t.Viol("modulus", "%s: %d bits", g.req, n)
	}
	// the largest power-of-two exponent of which q-1 is a power
	b, k := new(big.Int).Sub(q, bigN(1)), 1
	for {
		r := new(big.Int).Sqrt(b)
		if new(big.Int).Mul(r, r).Cmp(b) != 0 || r.Cmp(bigN(1)) <= 0 {
			break
		}
		b, k = r, 2*k
	}
	if g.b > 0 {
		w := new(big.Int).Exp(new(big.Int).SetUint64(g.b), new(big.Int).SetUint64(g.k), nil)
		if w.Add(w, bigN(1)).Cmp(q) != 0 {
			t.Viol("modulus", "%s: the modulus is %s", g.req, q)
		}
	} else {
		if k < 2 || b.BitLen() > 26 {
			t.Viol("modulus", "%s: the modulus is %s^%d + 1", g.req, b, k)
		}
		if a := twoAdic(q); a < 31 {
			t.Viol("modulus", "%s: roots of unity of order 2^%d only", g.req, a)
		}
	}
	t.N("generated_bits", q.BitLen())
	t.Sample("%s gives %s = %s^%d + 1", g.req, fstr(q), b, k)
}

func casesC29(cfg Cfg) []Case {
	var cs []Case
	add := func(name string, f func(t *T)) { cs = append(cs, Case{Name: name, Run: f}) }
	for _, g := range genFields {
		add("modulus/"+g.name, g.modulus)
		add("read-only/"+g.name, func(t *T) { g.z.rom(t) })
		for k := 0; k < cfg.pick(1, 5); k++ {
			add(fmt.Sprintf("scalar/%s/%d", g.name, k), func(t *T) { g.z.scal(t, k) })
			add(fmt.Sprintf("vector/%s/%d", g.name, k), func(t *T) { g.z.vec(t, k) })
			add(fmt.Sprintf("encode/%s/%d", g.name, k), func(t *T) { g.z.enc(t, k) })
		}
		for _, r := range []int{8, 256} {
			if twoAdic(g.f.Q) < 12 {
				continue // an explicit request for a field with few roots of unity
			}
			add(fmt.Sprintf("ntt/%s/%d", g.name, r), func(t *T) { g.f.S.ntt(t, false, r); g.f.S.ntt(t, true, r) })
		}
		add("limits/"+g.name, func(t *T) {
			for _, n := range []int{1, 300, 1 << 20, 1 << 30} {
				for _, b := range []int{1, 2, 64, 100000, 1 << 30} {
					g.f.S.paramFormula(t, n, b)
				}
			}
		})
		if g.b > 1<<25 && try(func() { g.f.S.probe(300) }) != nil {
			continue // larger than any base the search allows, and refused by the parameter selection
		}
		if g.b > 1<<25 {
			add("pcs/"+g.name, func(t *T) { g.f.S.honest(t, 300, 1, 0, 2) })
			continue
		}
		for i := 0; i < cfg.pick(1, 4); i++ {
			n, b := []int{200, 1000, 64, 3000}[i], []int{2, 1, 3, 5}[i]
			add(fmt.Sprintf("params/%s/%d", g.name, i), func(t *T) { g.f.S.paramFormula(t, n, b) })
			add(fmt.Sprintf("pcs/%s/%d", g.name, i), func(t *T) { g.f.S.honest(t, n, b, i, 2) })
			add(fmt.Sprintf("false/%s/%d", g.name, i), func(t *T) { g.f.S.falseClaims(t, n, b, i) })
			if twoAdic(g.f.Q) < 12 {
				continue
			}
			add(fmt.Sprintf("snark/%s/%d", g.name, i), func(t *T) { g.f.S.bkRandom(t, []int{8, 16, 32, 4}[i], 7+i) })
		}
	}
	return cs
}
