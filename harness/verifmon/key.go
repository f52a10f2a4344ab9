package main

import (
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"slices"

	"github.com/sp301415/ringo-snark/jindo"
	"github.com/tuneinsight/lattigo/v6/ring"
)

// keyCases examine the commitment key itself: an opening is binding only if the polynomials
// of the key are unrelated and spread over the whole ring.
func keyCases(cfg Cfg) []Case {
	var cs []Case
	cfgs := []pcsCfg{{"zp255", 300, 1}, {"zp255", 4096, 8}, {"zp110", 1000, 2}, {"zp220", 700, 1}, {"zp220", 2000, 3}, {"zp440", 500, 1}, {"zp880", 300, 2}, {"zp240", 1500, 1}}
	if cfg.Thorough {
		cfgs = append(cfgs, pcsCfg{"zp255", 65536, 1}, pcsCfg{"zp110", 8192, 8}, pcsCfg{"zp880", 5000, 1}, pcsCfg{"zp128", 3000, 2})
	}
	for i, c := range cfgs {
		cs = append(cs, Case{Name: fmt.Sprintf("key/%s", c), Run: func(t *T) { field(c.f).S.keySpread(t, c.n, c.b, i) }})
	}
	return cs
}

// polyClass identifies a polynomial up to sign, rotation and automorphism.
func polyClass(r *ring.Ring, p ring.Poly) [32]byte {
	m := r.SubRings[0].Modulus
	v := make([]uint64, r.N())
	for i, c := range p.Coeffs[0] {
		v[i] = min(c%m, m-c%m)
	}
	slices.Sort(v)
	h := sha256.New()
	var b [8]byte
	for _, x := range v {
		binary.LittleEndian.PutUint64(b[:], x)
		h.Write(b[:])
	}
	var o [32]byte
	h.Sum(o[:0])
	return o
}

func (s *suite[E]) keySpread(t *T, n, b, k int) {
	pr := jindo.NewParameters[E](n, b)
	crs := crsBase(t.R, k)
	what := cfgStr(s.name, n, b)
	seen := map[[32]byte]string{}
	vars := crsVariants(t.R, crs)
	list := [][]byte{crs}
	for _, i := range t.R.Perm(len(vars))[:2] {
		list = append(list, vars[i])
	}
	for ki, crs := range list {
		ck, again := jindo.NewCommitKey(pr, crs), jindo.NewCommitKey(pr, crs)
		for mi, m := range []struct {
			name string
			r    *ring.Ring
			p, q [][]ring.Poly
		}{{"inner key", pr.RingQ(), ck.In, again.In}, {"randomness key", pr.RingQ(), ck.MLWE, again.MLWE}, {"outer key", pr.RingQOut(), ck.Out, again.Out}} {
			rows := []int{pr.InMSISRank(), pr.InMSISRank(), pr.OutMSISRank()}[mi]
			cols := []int{pr.Rows(), pr.MLWERank(), pr.InCommitDecomposeLen()}[mi]
			if len(m.p) != rows {
				t.Viol("key-shape", "%s: %s has %d rows instead of %d", what, m.name, len(m.p), rows)
				return
			}
			bins := 64
			pb := make([]float64, bins)
			for i := range pb {
				pb[i] = 1 / float64(bins)
			}
			hi, lo := make([][]int, m.r.Level()+1), make([][]int, m.r.Level()+1)
			for l := range hi {
				hi[l], lo[l] = make([]int, bins), make([]int, bins)
			}
			for i := range m.p {
				if len(m.p[i]) != cols {
					t.Viol("key-shape", "%s: row %d of the %s has %d entries instead of %d", what, i, m.name, len(m.p[i]), cols)
					return
				}
				for j, p := range m.p[i] {
					id := fmt.Sprintf("key %d, %s [%d][%d]", ki, m.name, i, j)
					c := polyClass(m.r, p)
					if o, ok := seen[c]; ok {
						t.Viol("key-related", "%s: %s has the coefficients of %s", what, id, o)
						return
					}
					seen[c] = id
					if !p.Equal(&m.q[i][j]) {
						t.Viol("key-repeat", "%s: %s differs when it is derived again", what, id)
					}
					for l := range hi {
						q := m.r.SubRings[l].Modulus
						for _, c := range p.Coeffs[l] {
							if c >= q {
								t.Viol("key-range", "%s: %s has the residue %d modulo %d", what, id, c, q)
								return
							}
							hi[l][int(float64(c)/float64(q)*float64(bins))%bins]++
							lo[l][int(c)%bins]++
						}
					}
					t.N("key_polynomials", 1)
				}
			}
			for l := range hi {
				for d, c := range [][]int{hi[l], lo[l]} {
					if p, chi, df := chiTest(c, pb); p < alpha {
						t.Viol("key-spread", "%s: %s modulo prime %d, %s digits: chi-square %.1f with %d degrees of freedom", what, m.name, l, []string{"high", "low"}[d], chi, df)
					}
				}
			}
			t.Eval(fmt.Sprint(what, ki, mi))
		}
	}
	t.Sample("%s: %d key polynomials of %d keys, unrelated and evenly spread", what, len(seen), len(list))
}
