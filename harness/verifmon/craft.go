package main

import (
	"encoding/binary"
	"math/big"

	"github.com/sp301415/ringo-snark/jindo"
	"github.com/tuneinsight/lattigo/v6/ring"
)

// polyOf returns a polynomial in Montgomery NTT form with the given integer coefficients.
func polyOf(r *ring.Ring, c []*big.Int) ring.Poly {
	p := r.NewPoly()
	setPolyBig(r, p, c)
	return p
}

// sparseBig returns N zeros with value v at the given index; v may exceed a word.
func sparseBig(n, idx int, v *big.Int) []*big.Int {
	o := make([]*big.Int, n)
	for i := range o {
		o[i] = new(big.Int)
	}
	o[idx].Set(v)
	return o
}

func cpOpeningShallow(op *jindo.Opening) *jindo.Opening {
	o := &jindo.Opening{InCommit: append([]ring.Poly(nil), op.InCommit...)}
	for i := range op.Encode {
		o.Encode = append(o.Encode, append([]ring.Poly(nil), op.Encode[i]...))
	}
	for i := range op.MLWE {
		o.MLWE = append(o.MLWE, append([]ring.Poly(nil), op.MLWE[i]...))
	}
	return o
}

// addTo replaces p by p + q without touching the shared backing array.
func addPoly(r *ring.Ring, p *ring.Poly, q ring.Poly) {
	z := r.NewPoly()
	r.Add(*p, q, z)
	*p = z
}

// innerRaw computes the inner commitment of column i before rounding, in coefficient form.
func innerRaw(p jindo.Parameters, ck *jindo.CommitKey, op *jindo.Opening, i int) [][]*big.Int {
	q := p.RingQ()
	o := make([][]*big.Int, p.InMSISRank())
	for j := range o {
		c := q.NewPoly()
		for k := 0; k < p.Rows(); k++ {
			q.MulCoeffsMontgomeryThenAdd(ck.In[j][k], op.Encode[i][k], c)
		}
		for k := 0; k < p.MLWERank(); k++ {
			q.MulCoeffsMontgomeryThenAdd(ck.MLWE[j][k], op.MLWE[i][k], c)
		}
		q.Add(op.MLWE[i][p.MLWERank()+j], c, c)
		o[j] = polyBig(q, c)
	}
	return o
}

// recommit recomputes the inner commitments of column i.
func recommit(p jindo.Parameters, ck *jindo.CommitKey, op *jindo.Opening, i int) {
	raw := innerRaw(p, ck, op, i)
	for j := range raw {
		for k := range raw[j] {
			raw[j][k].Rsh(raw[j][k], uint(p.LogInCutOff()))
		}
		op.InCommit[i*p.InMSISRank()+j] = polyOf(p.RingQOut(), raw[j])
	}
}

// outer computes the commitment belonging to the inner commitments.
func outer(p jindo.Parameters, ck *jindo.CommitKey, op *jindo.Opening) *jindo.Commitment {
	com := jindo.NewCommitment(p)
	r := p.RingQOut()
	for i := 0; i < p.OutMSISRank(); i++ {
		c := r.NewPoly()
		for j := range op.InCommit {
			r.MulCoeffsMontgomeryThenAdd(ck.Out[i][j], op.InCommit[j], c)
		}
		b := polyBig(r, c)
		for k := range b {
			b[k].Rsh(b[k], uint(p.OutCutOff()))
		}
		v := polyOf(r, b)
		for l := range v.Coeffs {
			copy(com.Value[i].Coeffs[l], v.Coeffs[l])
		}
	}
	return com
}

// encField returns a polynomial encoding x in slot k of a row.
func encField(p jindo.Parameters, x *big.Int, k int) ring.Poly {
	n := p.RingQ().N()
	c := make([]*big.Int, n)
	for i := range c {
		c[i] = new(big.Int)
	}
	b := new(big.Int).SetUint64(p.Base())
	t := new(big.Int).Set(x)
	for j := 0; j < p.Exp(); j++ {
		r := new(big.Int)
		if j == p.Exp()-1 {
			r.Set(t)
		} else {
			t.DivMod(t, b, r)
		}
		c[j*p.Slots()+k] = r
	}
	return polyOf(p.RingQ(), c)
}

// decField decodes all slots of a polynomial in Montgomery NTT form.
func decField(p jindo.Parameters, q *big.Int, a ring.Poly) []*big.Int {
	c := polyBig(p.RingQ(), a)
	o := make([]*big.Int, p.Slots())
	b := new(big.Int).SetUint64(p.Base())
	for i := range o {
		z := new(big.Int)
		for j := p.Exp() - 1; j >= 0; j-- {
			z.Mul(z, b)
			z.Add(z, c[j*p.Slots()+i])
		}
		o[i] = z.Mod(z, q)
	}
	return o
}

// chalDigits expands a 16-byte challenge block with digits modulo m, balanced.
func chalDigits(block []byte, m uint64, n int) []int64 {
	c := new(big.Int).SetUint64(binary.BigEndian.Uint64(block[8:]))
	c.Lsh(c, 64)
	c.Add(c, new(big.Int).SetUint64(binary.BigEndian.Uint64(block[:8])))
	o := make([]int64, n)
	M, r := new(big.Int).SetUint64(m), new(big.Int)
	for i := range o {
		c.DivMod(c, M, r)
		d := r.Int64()
		if d > int64(m/2) {
			d -= int64(m)
		}
		o[i] = d
	}
	return o
}

func chalPoly(p jindo.Parameters, d []int64) ring.Poly {
	n := p.RingQ().N()
	c := make([]*big.Int, n)
	for i := range c {
		c[i] = new(big.Int)
	}
	for i := range d {
		c[i*p.Slots()].SetInt64(d[i])
	}
	return polyOf(p.RingQ(), c)
}

// chalField is the field element a challenge stands for.
func chalField(p jindo.Parameters, q *big.Int, d []int64) *big.Int {
	z := new(big.Int)
	b := new(big.Int).SetUint64(p.Base())
	for j := len(d) - 1; j >= 0; j-- {
		z.Mul(z, b)
		z.Add(z, big.NewInt(d[j]))
	}
	return z.Mod(z, q)
}

// chalMods are the digit ranges tried when challenges are recovered from the recorded transcript.
func chalMods(p jindo.Parameters) []uint64 {
	c := p.ChallengeBound()
	if c == 0 {
		return nil
	}
	return []uint64{2 * c, c, 2*c + 1}
}

type recovered struct {
	batch, cols [][]int64
	mod         uint64
	blank       bool // the responses are zero under any interpretation
}

// recoverChallenges interprets the recorded XOF output of an opening proof made from op (the batched openings)
// and validates the interpretation with the responses; ok is false if none fits.
func recoverChallenges(p jindo.Parameters, reads []byte, ops []*jindo.Opening, pf *jindo.Proof) (recovered, bool) {
	nb := 0
	if p.Batch() > 1 {
		nb = p.Batch()
	}
	if len(reads) != 16*(nb+p.Cols()) {
		return recovered{}, false
	}
	r := p.RingQ()
	row := p.Rows() - 1
	for _, m := range chalMods(p) {
		rec := readChallenges(p, reads, m)
		acc := r.NewPoly()
		for c := 0; c <= p.Cols(); c++ {
			col := r.NewPoly()
			if nb == 0 {
				col.Copy(ops[0].Encode[c][row])
			} else {
				for i := range ops {
					r.MulCoeffsMontgomeryThenAdd(chalPoly(p, rec.batch[i]), ops[i].Encode[c][row], col)
				}
			}
			if c == p.Cols() {
				r.Add(acc, col, acc)
			} else {
				r.MulCoeffsMontgomeryThenAdd(chalPoly(p, rec.cols[c]), col, acc)
			}
		}
		if acc.Equal(&pf.Encode[row]) {
			rec.blank = isZeroPoly(acc)
			return rec, true
		}
	}
	return recovered{}, false
}

// readChallenges interprets the recorded XOF output with the digits taken modulo m.
func readChallenges(p jindo.Parameters, reads []byte, m uint64) recovered {
	nb := len(reads)/16 - p.Cols()
	rec := recovered{mod: m}
	for i := 0; i < nb; i++ {
		rec.batch = append(rec.batch, chalDigits(reads[16*i:16*i+16], m, p.Exp()))
	}
	for i := 0; i < p.Cols(); i++ {
		k := 16 * (nb + i)
		rec.cols = append(rec.cols, chalDigits(reads[k:k+16], m, p.Exp()))
	}
	return rec
}

// normSq returns the squared two-norm of polynomials in Montgomery NTT form.
func normSq(r *ring.Ring, ps ...ring.Poly) *big.Int {
	z, t := new(big.Int), new(big.Int)
	for _, p := range ps {
		for _, c := range polyBig(r, p) {
			z.Add(z, t.Mul(c, c))
		}
	}
	return z
}
