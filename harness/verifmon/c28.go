package main

import (
	"fmt"
	"math"

	"github.com/sp301415/ringo-snark/jindo"
	"github.com/sp301415/ringo-snark/math/csprng"
)

func init() { registry["C28"] = casesC28 }

var gaussCentres = []float64{0, 0.5, -0.5, 0.25, -0.25, 1.0 / 128, 0.999 / 128, 63.5 / 128, 64.99 / 128, 126.9 / 128, 127.0 / 128, 127.01 / 128, 127.5 / 128, 127.99 / 128, 1 - 1e-9, -1e-9, -1e-15, -1e-17, -1e-18, 1e-18, -1e-300, 1e-9,
	1, -1, 3, -7, 12.34, -12.34, 1000.5, -1000.75, 1 << 40, -(1 << 40) + 0.5, 0.4999999, 0.5000001, -0.4999999, 2.5, -2.5, 0.1, 0.9, -0.9}

func casesC28(cfg Cfg) []Case {
	var cs []Case
	n := cfg.pick(400000, 6000000)
	add := func(name string, f func(t *T)) { cs = append(cs, Case{Name: name, Run: f}) }
	dg := func(c, s float64) (int64, int64, func(k int64) float64) {
		lo, hi := int64(math.Floor(c-11*s))-2, int64(math.Ceil(c+11*s))+2
		return lo, hi, func(k int64) float64 { d := float64(k) - c; return math.Exp(-d * d / (2 * s * s)) }
	}
	// The rounded Gaussian assigns to k the mass of [k-1/2, k+1/2].
	rg := func(c, s float64) (int64, int64, func(k int64) float64) {
		lo, hi := int64(math.Floor(c-11*s))-2, int64(math.Ceil(c+11*s))+2
		return lo, hi, func(k int64) float64 {
			a, b := (float64(k)-0.5-c)/s, (float64(k)+0.5-c)/s
			if a > 0 {
				a, b = -b, -a
			}
			return ncdf(b) - ncdf(a)
		}
	}
	for _, sd := range []float64{1, 1.3, 2, 4.787, 6.77, 20, 100} {
		for ci, c := range gaussCentres {
			sd, c := sd, c
			if math.Abs(c) > 1<<20 && sd > 50 {
				continue
			}
			m := n
			if sd >= 20 {
				m = n / 2
			}
			if sd <= 2 {
				add(fmt.Sprintf("twincdt/%g/%d:%g", sd, ci, c), func(t *T) {
					s := csprng.NewTwinCDTGaussianSampler(sd)
					if t.R.Intn(2) == 0 {
						s = s.SafeCopy()
					}
					gaussSamples(t, "TwinCDT", c, sd, m*2, func() int64 { return s.Sample(c) }, dg)
				})
			} else {
				add(fmt.Sprintf("twincdt/%g/%d:%g", sd, ci, c), func(t *T) {
					s := csprng.NewTwinCDTGaussianSampler(sd)
					gaussSamples(t, "TwinCDT", c, sd, m, func() int64 { return s.Sample(c) }, dg)
				})
			}
			add(fmt.Sprintf("cosac/%g/%d:%g", sd, ci, c), func(t *T) {
				s := csprng.NewCOSACSampler()
				gaussSamples(t, "COSAC", c, sd, m, func() int64 { return s.Sample(c, sd) }, dg)
			})
			if ci%3 == 0 || cfg.Thorough {
				add(fmt.Sprintf("rounded/%g/%d:%g", sd, ci, c), func(t *T) {
					s := csprng.NewRoundedGaussianSampler()
					gaussSamples(t, "Rounded", c, sd, m, func() int64 { return s.Sample(c, sd) }, rg)
				})
			}
		}
	}
	// Samplers of neighbouring deviations live side by side.
	for k, sds := range [][]float64{{4.787, 4.5, 4.95, 4.2}, {1.5, 1.45, 1.54, 1.6}, {2, 2.2, 2.1, 2.05}, {6.77, 6.5, 6.9, 6.7}} {
		add(fmt.Sprintf("side-by-side/%d", k), func(t *T) {
			var ss []*csprng.TwinCDTGaussianSampler
			for _, sd := range sds {
				ss = append(ss, csprng.NewTwinCDTGaussianSampler(sd))
			}
			for i, sd := range sds {
				s := ss[i]
				if i%2 == 1 {
					s = s.SafeCopy()
				}
				c := []float64{0, 0.37, -0.5, 3.25}[(i+k)%4]
				gaussSamples(t, "TwinCDT", c, sd, n, func() int64 { return s.Sample(c) }, dg)
			}
		})
	}
	// Many samples at few centres: tails, and biases that are a fraction of the table spacing.
	for _, sd := range []float64{4.787, 1.5, 6.77} {
		for ci, c := range []float64{127.9 / 128, 0.9 / 128, 63.95 / 128, 0.5 / 128, 0, -0.3} {
			if sd != 4.787 && ci > 1 && !cfg.Thorough {
				continue
			}
			sd, c := sd, c
			for _, nm := range []string{"TwinCDT", "COSAC", "Rounded"} {
				if nm != "TwinCDT" && ci > 0 && !cfg.Thorough {
					continue
				}
				nm := nm
				add(fmt.Sprintf("deep/%s/%g/%d", nm, sd, ci), func(t *T) {
					tw, co, ro := csprng.NewTwinCDTGaussianSampler(sd), csprng.NewCOSACSampler(), csprng.NewRoundedGaussianSampler()
					m := cfg.pick(25000000, 300000000)
					tg := dg
					if nm == "Rounded" {
						tg = rg
					}
					lo, hi, w := tg(c, sd)
					cnt := make([]int, hi-lo+1)
					for i := 0; i < m; i++ {
						var x int64
						switch nm {
						case "TwinCDT":
							x = tw.Sample(c)
						case "COSAC":
							x = co.Sample(c, sd)
						default:
							x = ro.Sample(c, sd)
						}
						if x < lo || x > hi {
							t.Viol("distribution", "%s centre %g deviation %g: sample %d outside [%d,%d]", nm, c, sd, x, lo, hi)
							return
						}
						cnt[x-lo]++
					}
					t.Eval(fmt.Sprint("deep", nm, sd, c))
					t.N("samples", m)
					if err := cntTest(cnt, lo, w); err != nil {
						t.Viol("distribution", "%s centre %g deviation %g: %v", nm, c, sd, err)
					}
					a, b := lo, hi
					for cnt[a-lo] == 0 {
						a++
					}
					for cnt[b-lo] == 0 {
						b--
					}
					t.Sample("%s centre %g deviation %g: %d samples in [%d,%d] fit", nm, c, sd, m, a, b)
				})
			}
		}
	}
	// Very wide samplers: the shape of the continuous Gaussian.
	for _, sd := range []float64{1 << 12, 1e7, 1 << 36} {
		for k := 0; k < cfg.pick(2, 8); k++ {
			sd := sd
			add(fmt.Sprintf("wide/%g/%d", sd, k), func(t *T) {
				rs, co := csprng.NewRoundedGaussianSamplerWithSeed([]byte(fmt.Sprint("wide", k, t.cfg.Seed))), csprng.NewCOSACSampler()
				c := t.R.Float64()*10 - 5
				m := 4 * n
				a := make([]float64, m)
				for _, nm := range []string{"Rounded", "COSAC"} {
					for i := range a {
						if nm == "Rounded" {
							a[i] = float64(rs.Sample(c, sd)) - c
						} else {
							a[i] = float64(co.Sample(c, sd)) - c
						}
					}
					t.Eval(fmt.Sprint(nm, sd, c))
					t.N("samples", m)
					if err := gaussTest(a, sd); err != nil {
						t.Viol("distribution", "%s centre %g deviation %g: %v", nm, c, sd, err)
					}
					if err := corrTest(a[1:], a[:m-1]); err != nil {
						t.Viol("distribution", "%s centre %g deviation %g: successive samples: %v", nm, c, sd, err)
					}
					// fine shape around the top and the layer edges
					if err := fineShape(a, sd); err != nil {
						t.Viol("distribution", "%s centre %g deviation %g: %v", nm, c, sd, err)
					}
				}
			})
		}
	}
	// Cosets.
	for _, c := range []float64{0, 0.25, -0.25, 0.999, -0.001, 0.5, -1e-17, 7.125} {
		c := c
		add(fmt.Sprintf("coset/%g", c), func(t *T) {
			sd := 2.0
			s := csprng.NewTwinCDTGaussianSampler(sd)
			xs := make([]int64, n)
			for i := range xs {
				x := s.SampleCoset(c)
				k := math.Round(x - c)
				if x != c+k {
					t.Viol("coset", "sample %v is not in %v + Z", x, c)
					return
				}
				xs[i] = int64(k)
			}
			t.Eval(fmt.Sprint("coset", c))
			t.N("samples", n)
			lo, hi, w := dg(-c, sd)
			if err := intTest(xs, lo, hi, w); err != nil {
				t.Viol("distribution", "coset of %g: %v", c, err)
			}
		})
	}
	// The deviations of the parameter sets.
	for _, f := range allFields {
		f := f
		add("parameters/"+f.Name, func(t *T) { f.S.gaussParams(t, n) })
	}
	return cs
}

func gaussSamples(t *T, name string, c, sd float64, n int, f func() int64, target func(c, s float64) (int64, int64, func(int64) float64)) {
	xs := make([]int64, n)
	for i := range xs {
		xs[i] = f()
	}
	t.Eval(fmt.Sprint(name, c, sd))
	t.N("samples", n)
	lo, hi, w := target(c, sd)
	if err := intTest(xs, lo, hi, w); err != nil {
		t.Viol("distribution", "%s centre %g deviation %g: %v", name, c, sd, err)
		return
	}
	t.Sample("%s centre %g deviation %g: %d samples fit", name, c, sd, n)
}

// fineShape compares a fine histogram of |x| with the Gaussian.
func fineShape(xs []float64, sd float64) error {
	const bins = 400
	cnt := make([]int, bins+1)
	pr := make([]float64, bins+1)
	for _, x := range xs {
		z := math.Abs(x) / sd
		i := int(z * 100)
		if i > bins {
			i = bins
		}
		cnt[i]++
	}
	for i := 0; i < bins; i++ {
		pr[i] = 2 * (ncdf(-float64(i)/100) - ncdf(-float64(i+1)/100))
	}
	pr[bins] = 2 * ncdf(-bins/100.0)
	p, chi, df := chiTest(cnt, pr)
	if p < alpha {
		return fmt.Errorf("fine histogram: chi-square %.1f with %d degrees of freedom, p=%.2g", chi, df, p)
	}
	return nil
}

func (s *suite[E]) gaussParams(t *T, n int) {
	p := jindo.NewParameters[E](600, 2)
	lo := func(c, s float64) (int64, int64, func(k int64) float64) {
		return int64(math.Floor(c - 11*s)), int64(math.Ceil(c + 11*s)), func(k int64) float64 { d := float64(k) - c; return math.Exp(-d * d / (2 * s * s)) }
	}
	for _, sd := range []float64{p.EcdStdDev(), p.MLWEStdDev()} {
		tw := csprng.NewTwinCDTGaussianSampler(sd)
		if tw.StdDev() != sd {
			t.Viol("distribution", "sampler reports deviation %g instead of %g", tw.StdDev(), sd)
		}
		for k := 0; k < 3; k++ {
			c := t.R.Float64()*2 - 1
			gaussSamples(t, "TwinCDT", c, sd, n, func() int64 { return tw.Sample(c) }, lo)
		}
	}
}
