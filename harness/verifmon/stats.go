package main

import (
	"fmt"
	"math"
	"math/big"
)

// alpha is the false-positive probability of a single statistical test.
const alpha = 1e-9

// gammaQ is the regularised upper incomplete gamma function.
func gammaQ(a, x float64) float64 {
	if x <= 0 {
		return 1
	}
	lg, _ := math.Lgamma(a)
	if x < a+1 {
		sum, term := 1/a, 1/a
		for n := 1; n < 10000; n++ {
			term *= x / (a + float64(n))
			sum += term
			if term < sum*1e-16 {
				break
			}
		}
		return 1 - sum*math.Exp(-x+a*math.Log(x)-lg)
	}
	b := x + 1 - a
	c := 1e300
	d := 1 / b
	h := d
	for i := 1; i < 10000; i++ {
		an := -float64(i) * (float64(i) - a)
		b += 2
		d = an*d + b
		if math.Abs(d) < 1e-300 {
			d = 1e-300
		}
		c = b + an/c
		if math.Abs(c) < 1e-300 {
			c = 1e-300
		}
		d = 1 / d
		del := d * c
		h *= del
		if math.Abs(del-1) < 1e-15 {
			break
		}
	}
	return math.Exp(-x+a*math.Log(x)-lg) * h
}

func chi2p(x float64, df int) float64 { return gammaQ(float64(df)/2, x/2) }

func ncdf(x float64) float64 { return 0.5 * math.Erfc(-x/math.Sqrt2) }

// nq is the normal quantile function, by bisection.
func nq(p float64) float64 {
	lo, hi := -40.0, 40.0
	for i := 0; i < 200; i++ {
		m := (lo + hi) / 2
		if ncdf(m) < p {
			lo = m
		} else {
			hi = m
		}
	}
	return (lo + hi) / 2
}

// chiTest compares counts with probabilities; cells with small expectation are pooled.
func chiTest(counts []int, prob []float64) (p float64, chi float64, df int) {
	n := 0
	for _, c := range counts {
		n += c
	}
	var po, pe float64
	cells := 0
	tp := 0.0
	for i := range counts {
		e := prob[i] * float64(n)
		tp += prob[i]
		if e < 12 {
			po += float64(counts[i])
			pe += e
			continue
		}
		d := float64(counts[i]) - e
		chi += d * d / e
		cells++
	}
	if tp < 1-1e-12 {
		pe += (1 - tp) * float64(n)
	}
	if pe >= 3 {
		chi += (po - pe) * (po - pe) / pe
		cells++
	} else if po > 40+4*pe {
		return 0, math.Inf(1), cells
	}
	df = cells - 1
	if df < 1 {
		return 1, 0, 0
	}
	return chi2p(chi, df), chi, df
}

// gaussTest checks samples of a continuous (or finely grained) Gaussian with mean 0 and the given deviation.
func gaussTest(xs []float64, sd float64) error {
	n := float64(len(xs))
	if n < 1000 {
		return nil
	}
	const bins = 32
	cut := make([]float64, bins-1)
	for i := range cut {
		cut[i] = nq(float64(i+1) / bins)
	}
	cnt := make([]int, bins+2)
	var m1, m2, mx float64
	for _, x := range xs {
		z := x / sd
		m1 += z
		m2 += z * z
		mx = math.Max(mx, math.Abs(z))
		switch {
		case z < -3.2:
			cnt[bins]++
		case z > 3.2:
			cnt[bins+1]++
		default:
			lo, hi := 0, bins-1
			for lo < hi {
				m := (lo + hi) / 2
				if z > cut[m] {
					lo = m + 1
				} else {
					hi = m
				}
			}
			cnt[lo]++
		}
	}
	t := ncdf(-3.2)
	pr := make([]float64, bins+2)
	for i := 0; i < bins; i++ {
		pr[i] = 1.0 / bins
	}
	pr[0] -= t
	pr[bins-1] -= t
	pr[bins], pr[bins+1] = t, t
	m1 /= n
	m2 /= n
	zmean := m1 * math.Sqrt(n)
	zvar := (m2 - 1) * math.Sqrt(n/2)
	p, chi, df := chiTest(cnt, pr)
	if math.Abs(zmean) > 6.5 {
		return fmt.Errorf("mean is %.5g deviations off zero (%.1f sigma, n=%d)", m1, zmean, len(xs))
	}
	if math.Abs(zvar) > 7 {
		return fmt.Errorf("variance is %.5f times the declared one (%.1f sigma, n=%d)", m2, zvar, len(xs))
	}
	if p < alpha {
		return fmt.Errorf("chi-square %.1f with %d degrees of freedom, p=%.2g (n=%d)", chi, df, p, len(xs))
	}
	if mx > 8.5 {
		return fmt.Errorf("sample %.2f deviations away", mx)
	}
	return nil
}

// intTest checks integer samples against unnormalised weights w over lo..hi.
func intTest(xs []int64, lo, hi int64, w func(k int64) float64) error {
	if len(xs) == 0 {
		return nil
	}
	cnt := make([]int, hi-lo+1)
	for _, x := range xs {
		if x < lo || x > hi {
			return fmt.Errorf("sample %d outside [%d,%d]", x, lo, hi)
		}
		cnt[x-lo]++
	}
	return cntTest(cnt, lo, w)
}

// cntTest checks how often each value from lo on was seen against unnormalised weights.
func cntTest(cnt []int, lo int64, w func(k int64) float64) error {
	pr := make([]float64, len(cnt))
	tot := 0.0
	for i := range pr {
		pr[i] = w(lo + int64(i))
		tot += pr[i]
	}
	var mean, vari float64
	for i := range pr {
		pr[i] /= tot
		mean += pr[i] * float64(lo+int64(i))
	}
	for i := range pr {
		d := float64(lo+int64(i)) - mean
		vari += pr[i] * d * d
	}
	var s1, s2, n float64
	for i, c := range cnt {
		d := float64(lo+int64(i)) - mean
		s1 += float64(c) * d
		s2 += float64(c) * d * d
		n += float64(c)
	}
	if sd := math.Sqrt(vari); sd > 1e-6 {
		if z := s1 / math.Sqrt(n) / sd; math.Abs(z) > 6.5 {
			return fmt.Errorf("mean off by %.5g (%.1f sigma, n=%.0f)", s1/n, z, n)
		}
		var k4 float64
		for i := range pr {
			d := float64(lo+int64(i)) - mean
			k4 += pr[i] * d * d * d * d
		}
		if vv := k4 - vari*vari; vv > 0 {
			if z := (s2/n - vari) * math.Sqrt(n) / math.Sqrt(vv); math.Abs(z) > 7 && n*vari > 1000 {
				return fmt.Errorf("variance %.5g instead of %.5g (%.1f sigma, n=%.0f)", s2/n, vari, z, n)
			}
		}
	}
	p, chi, df := chiTest(cnt, pr)
	if p < alpha {
		worst, wz := 0, 0.0
		for i := range cnt {
			e := pr[i] * n
			if e > 12 {
				if z := math.Abs(float64(cnt[i])-e) / math.Sqrt(e); z > wz {
					worst, wz = i, z
				}
			}
		}
		return fmt.Errorf("chi-square %.1f with %d degrees of freedom, p=%.2g; value %d seen %d times, expected %.1f (n=%.0f)", chi, df, p, lo+int64(worst), cnt[worst], pr[worst]*n, n)
	}
	return nil
}

// uniformTest checks values in [0,1).
func uniformTest(xs []float64) error {
	const bins = 64
	cnt := make([]int, bins)
	pr := make([]float64, bins)
	for _, x := range xs {
		i := int(x * bins)
		if i < 0 || i >= bins {
			return fmt.Errorf("value %v outside [0,1)", x)
		}
		cnt[i]++
	}
	for i := range pr {
		pr[i] = 1.0 / bins
	}
	p, chi, df := chiTest(cnt, pr)
	if p < alpha {
		return fmt.Errorf("chi-square %.1f with %d degrees of freedom, p=%.2g (n=%d)", chi, df, p, len(xs))
	}
	return nil
}

// corrTest checks that two equally long standardised sequences are uncorrelated.
func corrTest(a, b []float64) error {
	n := float64(len(a))
	if n < 1000 {
		return nil
	}
	var s, sa, sb float64
	for i := range a {
		s += a[i] * b[i]
		sa += a[i] * a[i]
		sb += b[i] * b[i]
	}
	if sa == 0 || sb == 0 {
		return fmt.Errorf("constant sequence")
	}
	if r := s / math.Sqrt(sa*sb); math.Abs(r)*math.Sqrt(n) > 6.8 {
		return fmt.Errorf("correlation %.4f over %d pairs", r, len(a))
	}
	return nil
}

// uniformMod judges values that should be uniform below q, and their Montgomery
// representatives, which is what a generator actually draws: the leading part, every
// byte, and the rank over GF(2) of the bits (no bit may be an affine function of others).
func uniformMod(vs []*big.Int, q *big.Int, limbs int) error {
	R := new(big.Int).Lsh(big.NewInt(1), uint(64*limbs))
	for kind, name := range []string{"value", "representative"} {
		bits := q.BitLen()
		full := bits - 16 // lower bits, practically independent and uniform
		cols := bits      // bits whose dependence is judged: not a leading bit that is hardly ever set
		if rest := new(big.Int).SetBit(q, bits-1, 0); rest.BitLen() < bits-2 {
			cols--
		}
		lead := make([]float64, len(vs))
		w := 8 // width of the digits that are counted
		if len(vs) < 4000 {
			w = 4
		}
		counts := make([][]int, full/8*(8/w))
		for i := range counts {
			counts[i] = make([]int, 1<<w)
		}
		qf := new(big.Float).SetInt(q)
		rows := make([]*big.Int, 0, len(vs))
		buf := make([]byte, (bits+7)/8)
		for i, v := range vs {
			if kind == 1 {
				v = new(big.Int).Mul(v, R)
				v.Mod(v, q)
			}
			lead[i], _ = new(big.Float).Quo(new(big.Float).SetInt(v), qf).Float64()
			v.FillBytes(buf)
			for j := range counts {
				counts[j][int(buf[len(buf)-1-j*w/8])>>(j*w%8)&(1<<w-1)]++
			}
			if len(rows) < cols+100 {
				x := new(big.Int).SetBit(v, bits, 0)
				if cols < bits {
					x.SetBit(x, cols, 0)
				}
				rows = append(rows, x.SetBit(x, cols, 1))
			}
		}
		if err := uniformTest(lead); err != nil {
			return fmt.Errorf("%s: %v", name, err)
		}
		pr := make([]float64, 1<<w)
		for i := range pr {
			pr[i] = 1 / float64(len(pr))
		}
		for j := range counts {
			if p, chi, _ := chiTest(counts[j], pr); p < alpha {
				return fmt.Errorf("%s: bits from %d have chi-square %.1f", name, j*w, chi)
			}
		}
		if len(rows) >= cols+100 {
			if r := rankGF2(rows, cols+1); r != cols+1 {
				return fmt.Errorf("%s: %d of %d bits depend on others", name, cols+1-r, cols)
			}
		}
	}
	return nil
}

// rankGF2 returns the rank of a bit matrix, destroying it.
func rankGF2(rows []*big.Int, cols int) int {
	rank := 0
	for c := 0; c < cols; c++ {
		p := -1
		for i := rank; i < len(rows); i++ {
			if rows[i].Bit(c) == 1 {
				p = i
				break
			}
		}
		if p < 0 {
			continue
		}
		rows[rank], rows[p] = rows[p], rows[rank]
		for i := rank + 1; i < len(rows); i++ {
			if rows[i].Bit(c) == 1 {
				rows[i].Xor(rows[i], rows[rank])
			}
		}
		rank++
	}
	return rank
}
