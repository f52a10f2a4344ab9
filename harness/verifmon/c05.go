package main

import (
	"fmt"
	"math"
	"math/big"

	"github.com/sp301415/ringo-snark/jindo"
	"github.com/tuneinsight/lattigo/v6/ring"
)

func init() { registry["C05"] = casesC05 }

func casesC05(cfg Cfg) []Case {
	var cs []Case
	cfgs := []pcsCfg{{"zp255", 700, 2}, {"zp255", 1500, 1}, {"zp110", 700, 1}, {"zp110", 200, 3}, {"zp220", 1000, 2}, {"zp220", 200, 1}, {"zp440", 400, 2}, {"zp440", 300, 1}, {"zp880", 300, 1}, {"zp880", 300, 2}, {"zp128", 600, 1}, {"zp240", 500, 2}}
	for _, c := range cfgs {
		for k, pat := range []string{"rand", "zero", "digits", "one", "mixed"} {
			if k > 2 && !cfg.Thorough {
				continue
			}
			c, pat := c, pat
			cs = append(cs, Case{Name: fmt.Sprintf("noise/%s/%s", c, pat), Run: func(t *T) { field(c.f).S.commitNoise(t, c.n, c.b, pat) }})
		}
	}
	// Many rows and columns.
	for i, c := range []pcsCfg{{"zp255", 16384, 1}, {"zp220", 12000, 2}, {"zp110", 20000, 1}, {"zp880", 6000, 1}, {"zp255", 70000, 1}} {
		if i < cfg.pick(2, 5) {
			cs = append(cs, Case{Name: fmt.Sprintf("rows/%s", c), Run: func(t *T) { field(c.f).S.commitNoise(t, c.n, c.b, "rand") }})
		}
	}
	return cs
}

// divZero divides p by X^slots - base over the reals: the Gaussian that was added to zero encodings.
func divZero(p jindo.Parameters, c []*big.Int) []float64 {
	N := len(c)
	f := make([]float64, N)
	for i := range f {
		f[i], _ = new(big.Float).SetInt(c[i]).Float64()
	}
	o := make([]float64, N)
	B := float64(p.Base())
	w := -1 / B
	for i := 0; i < p.Exp() && math.Abs(w)*B > 1e-18; i++ {
		sh := i * p.Slots()
		for j := range f {
			if j+sh < N {
				o[j+sh] += w * f[j]
			} else {
				o[j+sh-N] -= w * f[j]
			}
		}
		w /= B
	}
	return o
}

func (s *suite[E]) commitNoise(t *T, n, b int, pat string) {
	p := s.newPCS(n, b, []byte("noise"))
	pr := p.params
	q := pr.RingQ()
	what := fmt.Sprint(cfgStr(s.name, n, b), "/", pat)
	R, C, S := pr.Rows(), pr.Cols(), pr.Slots()
	roles := map[string]float64{"data row": pr.EcdStdDev(), "last row": pr.EcdStdDev(), "blinding row": pr.EcdBlindStdDev(), "mask row": pr.MaskStdDev(), "last mask row": pr.MaskStdDev(), "mask blinding row": pr.MaskBlindStdDev()}
	gs := map[string][]float64{}
	uni := map[string][]float64{}
	var mlwe []int64
	var maskMLWE []float64
	seen := map[string]string{}
	fresh := func(id string, a ring.Poly) {
		k := fmt.Sprint(a.Coeffs[0][:8])
		if prev, ok := seen[k]; ok {
			t.Viol("reused-randomness", "%s: %s equals %s", what, id, prev)
		}
		seen[k] = id
		t.N("components_checked_for_reuse", 1)
	}
	v := s.polyPattern(t.R, pr.Rank(), pat, pr.Base(), pr.Exp())
	drawn := map[string]string{}
	qf, _ := new(big.Float).SetInt(s.q).Float64()
	unif := func(role string, vals []*big.Int) {
		for _, x := range vals {
			for _, z := range []*big.Int{x, new(big.Int).Sub(s.q, x)} {
				if prev, ok := drawn[z.String()]; ok {
					t.Viol("reused-randomness", "%s: a value of %s was already drawn (or its negative) for %s", what, role, prev)
				}
			}
			drawn[x.String()] = role
			f, _ := new(big.Float).SetInt(x).Float64()
			uni[role] = append(uni[role], math.Min(f/qf, 1-1e-16))
		}
	}
	prvs := []*jindo.Prover[E]{p.prv, p.prv.SafeCopy(), jindo.NewProver[E](pr, p.crs)}
	reps := max(t.cfg.pick(6, 40), t.cfg.pick(5000, 20000)/q.N()+1)
	if n > 4000 {
		reps = t.cfg.pick(2, 6)
	}
	for rep := 0; rep < reps; rep++ {
		l := len(v)
		switch {
		case rep%3 == 1:
			l -= t.R.Intn(S)
		case rep%3 == 2: // shorter by rows, so that the end is at, or one off, the end of a row or column
			ends := []int{C * S, S}
			l = max(1, min(l, ends[t.R.Intn(2)]*(1+t.R.Intn(R*C))+[]int{0, 0, 0, 1, -1}[t.R.Intn(5)]))
		}
		vv := v[:l]
		com, op := prvs[rep%3].Commit(vv)
		t.Eval(fmt.Sprint(what, rep))
		t.N("commitments", 1)
		for i := range com.Value {
			fresh(fmt.Sprintf("commitment %d of commit %d", i, rep), com.Value[i])
		}
		for i := range op.InCommit {
			fresh(fmt.Sprintf("inner commitment %d of commit %d", i, rep), op.InCommit[i])
		}
		first, last := make([]*big.Int, 0, C*S), make([]*big.Int, 0, C*S)
		at := func(i int) *big.Int {
			if i < len(vv) {
				return bi(vv[i])
			}
			return new(big.Int)
		}
		filled := make([]bool, R)
		for r := range filled {
			for c := 0; c < C; c++ {
				filled[r] = filled[r] || !isZeroPoly(op.Encode[c][r])
			}
		}
		for c := 0; c <= C; c++ {
			for r := 0; r < R; r++ {
				if isZeroPoly(op.Encode[c][r]) {
					// rows behind the end of the polynomial are left out, along with their mask
					switch {
					case r == 0 || r == R-1 || c < C && r*C*S+c*S < len(vv):
						t.Viol("encoding", "%s: row %d column %d is empty, for a polynomial of length %d", what, r, c, len(vv))
						return
					case c == C && filled[r]:
						t.Viol("unmasked-row", "%s: row %d has encodings but no mask, for a polynomial of length %d", what, r, len(vv))
						return
					}
					t.N("rows_left_out", 1)
					continue
				}
				fresh(fmt.Sprintf("encoding row %d column %d of commit %d", r, c, rep), op.Encode[c][r])
				co := polyBig(q, op.Encode[c][r])
				dec := decField(pr, s.q, op.Encode[c][r])
				role := ""
				switch {
				case c == C && r == 0:
					role = "mask blinding row"
					unif(role, dec)
				case c == C && r == R-1:
					role = "last mask row"
					unif(role, dec)
				case c == C:
					role = "mask row"
					unif(role, dec)
				case r == 0:
					role = "blinding row"
					first = append(first, dec...)
				case r == R-1:
					role = "last row"
					last = append(last, dec...)
				default:
					role = "data row"
					for k := range dec {
						if dec[k].Cmp(at(r*C*S+c*S+k)) != 0 {
							t.Viol("encoding", "%s: row %d column %d slot %d encodes %s instead of %s", what, r, c, k, fstr(dec[k]), fstr(at(r*C*S+c*S+k)))
							return
						}
					}
				}
				gs[role] = append(gs[role], divZero(pr, co)...)
				t.N("encodings", 1)
			}
			for j := range op.MLWE[c] {
				fresh(fmt.Sprintf("randomness %d column %d of commit %d", j, c, rep), op.MLWE[c][j])
				for _, x := range polyBig(q, op.MLWE[c][j]) {
					if c == C {
						f, _ := new(big.Float).SetInt(x).Float64()
						maskMLWE = append(maskMLWE, f)
					} else {
						if !x.IsInt64() {
							t.Viol("distribution", "%s: huge lattice randomness %s", what, x)
							return
						}
						mlwe = append(mlwe, x.Int64())
					}
				}
			}
		}
		// v[k] = first[k] + last[k-1], and the top of the last row is zero.
		for k := range first {
			z := new(big.Int).Set(first[k])
			if k > 0 {
				z.Add(z, last[k-1])
			}
			z.Mod(z, s.q)
			if z.Cmp(at(k)) != 0 {
				t.Viol("encoding", "%s: blinded coefficient %d is %s instead of %s", what, k, fstr(z), fstr(at(k)))
				return
			}
		}
		if last[C*S-1].Sign() != 0 {
			t.Viol("encoding", "%s: the last blinding value is not zero", what)
		}
		unif("blinding values", last[:C*S-1])
	}
	judge := func(role string, err error, n int) {
		t.N("samples_"+role, n)
		if err != nil {
			t.Viol("distribution", "%s: %s: %v", what, role, err)
		}
	}
	for role, xs := range gs {
		sd := roles[role]
		if sd < 500 {
			// a discrete Gaussian on a coset of the integers: smooth it by triangular noise of variance 1/6
			judge(role, gaussTest(dither(t, dither(t, xs)), math.Sqrt(sd*sd+1.0/6)), len(xs))
		} else {
			judge(role, gaussTest(xs, sd), len(xs))
		}
		N := q.N()
		// the same position in successive polynomials, and neighbours, are independent
		judge(role+" successive", corrTest(xs[N:], xs[:len(xs)-N]), 0)
		judge(role+" neighbours", corrTest(xs[1:], xs[:len(xs)-1]), 0)
		judge(role+" slots", corrTest(xs[S:], xs[:len(xs)-S]), 0)
	}
	sd := pr.MLWEStdDev()
	judge("lattice randomness", intTest(mlwe, -int64(10*sd)-2, int64(10*sd)+2, func(k int64) float64 { return math.Exp(-float64(k) * float64(k) / (2 * sd * sd)) }), len(mlwe))
	judge("mask lattice randomness", gaussTest(dither(t, maskMLWE), math.Sqrt(pr.MaskMLWEStdDev()*pr.MaskMLWEStdDev()+1.0/6)), len(maskMLWE))
	judge("mask lattice randomness neighbours", corrTest(maskMLWE[1:], maskMLWE[:len(maskMLWE)-1]), 0)
	ml := make([]float64, len(mlwe))
	for i := range mlwe {
		ml[i] = float64(mlwe[i])
	}
	judge("lattice randomness neighbours", corrTest(ml[1:], ml[:len(ml)-1]), 0)
	for role, xs := range uni {
		judge(role+" (uniform)", uniformTest(xs), len(xs))
	}
	t.Sample("%s: %d encodings, %d lattice randomness coefficients fit; declared deviations %.3g %.3g %.3g %.3g", what, t.ctr["encodings"], len(mlwe)+len(maskMLWE), pr.EcdStdDev(), pr.EcdBlindStdDev(), pr.MaskStdDev(), pr.MaskBlindStdDev())
}

func isZeroPoly(a ring.Poly) bool {
	for _, l := range a.Coeffs {
		for _, x := range l {
			if x != 0 {
				return false
			}
		}
	}
	return true
}

// dither adds uniform noise in [-1/2, 1/2) to integers.
func dither(t *T, xs []float64) []float64 {
	o := make([]float64, len(xs))
	for i := range xs {
		o[i] = xs[i] + t.R.Float64() - 0.5
	}
	return o
}
