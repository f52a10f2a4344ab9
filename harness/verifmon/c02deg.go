package main

import (
	"fmt"
	"math/big"

	"github.com/sp301415/ringo-snark/jindo"
)

// overDegreeCases open crafted matrices whose polynomial may have more coefficients than the rank.
func overDegreeCases(cfg Cfg) []Case {
	var cs []Case
	sizes := []int{1, 3, 5, 9, 16, 17, 33, 65}
	if cfg.Thorough {
		sizes = append(sizes, 2, 4, 7, 8, 15, 31, 32, 64, 66, 128, 129, 255, 511)
	}
	for _, f := range allFields {
		f := f
		for _, n := range sizes {
			n := n
			cs = append(cs, Case{Name: fmt.Sprintf("degree/%s/%d", f.Name, n), Run: func(t *T) { f.S.overDegree(t, n) }})
		}
	}
	return cs
}

// overDegree fills every row of the committed matrix, the last slot of the blinding row included, and opens the result.
// The polynomial such a matrix stands for must have at most as many coefficients as the advertised rank,
// or the verifier must refuse to open it.
func (s *suite[E]) overDegree(t *T, n int) {
	p := s.newPCS(n, 1, []byte(fmt.Sprint("degree", n)))
	pr := p.params
	what := cfgStr(s.name, n, 1)
	a := p.commit(s.rndv(t.R, pr.Rank()))
	for _, row := range uniq(pr.Rows()-1, pr.Rows()-2, 0) {
		c := committed[E]{nil, nil, cpOpeningShallow(a.open)}
		lead := rndFull(t.R, s.q)
		if lead.Sign() == 0 {
			lead.SetInt64(1)
		}
		addPoly(pr.RingQ(), &c.open.Encode[pr.Cols()-1][row], encField(pr, lead, pr.Slots()-1))
		ck := jindo.NewCommitKey(pr, p.crs)
		recommit(pr, ck, c.open, pr.Cols()-1)
		c.com = outer(pr, ck, c.open)
		// Rank()+1 accepted evaluations determine whether a polynomial of at most Rank() coefficients fits.
		pts := pr.Rank() + 1
		var xs, ys []*big.Int
		for i := 0; i < pts; i++ {
			x := s.rnd(t.R)
			cs := []committed[E]{{s.rndv(t.R, 1), c.com, c.open}}
			// The claimed value enters the transcript: learn it first, then claim it.
			y := s.supported(p, x, cs, 0, []*big.Int{new(big.Int)})
			z := bi(y[0])
			cs[0].v = []E{y[0]}
			_, pf := p.evaluate(x, cs)
			if !p.accept(t, x, coms(cs), y, pf) {
				break
			}
			xs, ys = append(xs, bi(x)), append(ys, z)
		}
		t.Eval(fmt.Sprintf("%s/row %d", what, row))
		t.N("crafted_openings", pts)
		if len(xs) < pts {
			t.N("crafted_rejected", 1)
			continue
		}
		if top := leadingBig(xs, ys, s.q); top.Sign() != 0 {
			t.Viol("over-degree", "%s: rank %d, but accepted evaluations at %d points fit no polynomial of at most %d coefficients (rows %d cols %d, row %d)", what, pr.Rank(), pts, pr.Rank(), pr.Rows(), pr.Cols(), row)
		}
		t.N("crafted_within_rank", 1)
	}
	t.Sample("%s rank %d rows %d cols %d", what, pr.Rank(), pr.Rows(), pr.Cols())
}

// leadingBig is the leading coefficient of the interpolation through all the points.
func leadingBig(xs, ys []*big.Int, q *big.Int) *big.Int {
	z := new(big.Int)
	for i := range xs {
		d := big.NewInt(1)
		for j := range xs {
			if j != i {
				d.Mul(d, new(big.Int).Sub(xs[i], xs[j]))
				d.Mod(d, q)
			}
		}
		inv := d.ModInverse(d, q)
		if inv == nil {
			return new(big.Int) // repeated point
		}
		z.Add(z, new(big.Int).Mul(inv, ys[i]))
	}
	return z.Mod(z, q)
}
