package main

import (
	"fmt"
	"math/big"
	"math/rand"

	"github.com/sp301415/ringo-snark/jindo"
	"github.com/sp301415/ringo-snark/math/bignum"
	"github.com/tuneinsight/lattigo/v6/ring"
)

// pcs is an instance of the commitment scheme.
type pcs[E bignum.Uint[E]] struct {
	s      *suite[E]
	params jindo.Parameters
	crs    []byte
	prv    *jindo.Prover[E]
	vrf    *jindo.Verifier[E]
	batch  int
	mods   []uint64 // see chalMod
}

func (s *suite[E]) newPCS(targetN, batch int, crs []byte) *pcs[E] {
	p := jindo.NewParameters[E](targetN, batch)
	return s.pcsFrom(p, crs)
}

func (s *suite[E]) pcsFrom(p jindo.Parameters, crs []byte) *pcs[E] {
	return &pcs[E]{s, p, crs, jindo.NewProver[E](p, crs), jindo.NewVerifier[E](p, crs), p.Batch(), nil}
}

// hornerBig evaluates v at x with big integers.
func hornerBig(v []*big.Int, x, q *big.Int) *big.Int {
	z := new(big.Int)
	for i := len(v) - 1; i >= 0; i-- {
		z.Mul(z, x)
		z.Add(z, v[i])
		z.Mod(z, q)
	}
	return z
}

// polyPattern returns a polynomial of length n following the pattern.
func (s *suite[E]) polyPattern(r *rand.Rand, n int, pat string, base uint64, exp int) []E {
	o := make([]*big.Int, n)
	B := new(big.Int).SetUint64(base)
	for i := range o {
		x := new(big.Int)
		switch pat {
		case "zero":
		case "one":
			x.SetInt64(1)
		case "max":
			x.Sub(s.q, big.NewInt(1))
		case "edge":
			x = edgeBig(r, s.q)
		case "pow":
			x.Exp(B, big.NewInt(int64(r.Intn(exp+1))), nil)
			x.Sub(x, big.NewInt(int64(r.Intn(3)-1)))
			x.Mod(x, s.q)
		case "digits":
			// all digits maximal: base^exp - 1
			x.Exp(B, big.NewInt(int64(exp)), nil)
			x.Sub(x, big.NewInt(1))
			x.Mod(x, s.q)
		case "last":
			if i == n-1 {
				x = rndFull(r, s.q)
			}
		case "sparse":
			if r.Intn(16) == 0 {
				x = rndFull(r, s.q)
			}
		case "mixed":
			x = rndBig(r, s.q)
		default:
			x = rndFull(r, s.q)
		}
		o[i] = x
	}
	return fev[E](o)
}

var polyPatterns = []string{"rand", "zero", "one", "max", "edge", "pow", "digits", "last", "sparse", "mixed"}

// point returns an evaluation point.
func (s *suite[E]) point(r *rand.Rand, kind int) E {
	switch kind % 8 {
	case 1:
		return fi[E](0)
	case 2:
		return fi[E](1)
	case 3:
		return fi[E](-1)
	case 4:
		return fi[E](2)
	case 5:
		return fe[E](edgeBig(r, s.q))
	}
	return s.rnd(r)
}

// lengths returns interesting polynomial lengths for the parameters.
func lengths(p jindo.Parameters, r *rand.Rand) []int {
	w := p.Cols() * p.Slots()
	l := []int{p.Rank(), p.Rank() - 1, p.Rank() - w, p.Rank() - w + 1, p.Rank() - w - 1, 1, 2, p.Slots(), p.Slots() - 1, p.Slots() + 1, w, w - 1, w + 1, 2 * w, 2*w + 1, 0}
	var o []int
	for _, x := range l {
		if x >= 0 && x <= p.Rank() {
			o = append(o, x)
		}
	}
	for i := 0; i < 4; i++ {
		o = append(o, r.Intn(p.Rank()+1))
	}
	return o
}

type committed[E bignum.Uint[E]] struct {
	v    []E
	com  *jindo.Commitment
	open *jindo.Opening
}

func (p *pcs[E]) commit(v []E) committed[E] {
	c, o := p.prv.Commit(v)
	return committed[E]{v, c, o}
}

func (p *pcs[E]) evaluate(x E, cs []committed[E]) ([]E, *jindo.Proof) {
	return evalWith(p.prv, x, cs)
}

func evalWith[E bignum.Uint[E]](prv *jindo.Prover[E], x E, cs []committed[E]) ([]E, *jindo.Proof) {
	v := make([][]E, len(cs))
	com := make([]*jindo.Commitment, len(cs))
	open := make([]*jindo.Opening, len(cs))
	for i := range cs {
		v[i], com[i], open[i] = cs[i].v, cs[i].com, cs[i].open
	}
	return prv.Evaluate(x, v, com, open)
}

func coms[E bignum.Uint[E]](cs []committed[E]) []*jindo.Commitment {
	o := make([]*jindo.Commitment, len(cs))
	for i := range cs {
		o[i] = cs[i].com
	}
	return o
}

// ---- deep copies

func cpPoly(p ring.Poly) ring.Poly { return *p.CopyNew() }

func cpPolys(p []ring.Poly) []ring.Poly {
	o := make([]ring.Poly, len(p))
	for i := range p {
		o[i] = *p[i].CopyNew()
	}
	return o
}

func cpCom(c *jindo.Commitment) *jindo.Commitment { return &jindo.Commitment{Value: cpPolys(c.Value)} }

func cpComs(c []*jindo.Commitment) []*jindo.Commitment {
	o := make([]*jindo.Commitment, len(c))
	for i := range c {
		o[i] = cpCom(c[i])
	}
	return o
}

func cpOpening(op *jindo.Opening) *jindo.Opening {
	o := &jindo.Opening{InCommit: cpPolys(op.InCommit)}
	for i := range op.Encode {
		o.Encode = append(o.Encode, cpPolys(op.Encode[i]))
	}
	for i := range op.MLWE {
		o.MLWE = append(o.MLWE, cpPolys(op.MLWE[i]))
	}
	return o
}

func cpProof(pf *jindo.Proof) *jindo.Proof {
	return &jindo.Proof{InCommit: cpPolys(pf.InCommit), Partial: cpPolys(pf.Partial), PartialMask: cpPoly(pf.PartialMask), Encode: cpPolys(pf.Encode), MLWE: cpPolys(pf.MLWE)}
}

// polyBig reconstructs the balanced coefficients of p given in Montgomery NTT form.
func polyBig(r *ring.Ring, p ring.Poly) []*big.Int {
	t := r.NewPoly()
	r.IMForm(p, t)
	r.INTT(t, t)
	return coeffsBig(r, t)
}

// coeffsBig reconstructs the balanced coefficients of p given in coefficient form.
func coeffsBig(r *ring.Ring, p ring.Poly) []*big.Int {
	n := len(r.SubRings)
	Q := r.Modulus()
	gad := make([]*big.Int, n)
	for i := range gad {
		qi := new(big.Int).SetUint64(r.SubRings[i].Modulus)
		d := new(big.Int).Div(Q, qi)
		gad[i] = d.Mul(d, new(big.Int).ModInverse(d, qi))
	}
	half := new(big.Int).Rsh(Q, 1)
	o := make([]*big.Int, r.N())
	t := new(big.Int)
	for i := range o {
		a := new(big.Int)
		for j := 0; j < n; j++ {
			t.SetUint64(p.Coeffs[j][i])
			a.Add(a, t.Mul(t, gad[j]))
		}
		a.Mod(a, Q)
		if a.Cmp(half) > 0 {
			a.Sub(a, Q)
		}
		o[i] = a
	}
	return o
}

// setPolyBig sets p to the given integer coefficients, in Montgomery NTT form.
func setPolyBig(r *ring.Ring, p ring.Poly, c []*big.Int) {
	t := new(big.Int)
	for j := range r.SubRings {
		qi := new(big.Int).SetUint64(r.SubRings[j].Modulus)
		for i := range c {
			p.Coeffs[j][i] = t.Mod(c[i], qi).Uint64()
		}
	}
	r.MForm(p, p)
	r.NTT(p, p)
}

func cfgStr(f string, n, b int) string { return fmt.Sprintf("%s/n%d/b%d", f, n, b) }
