package main

import (
	"bytes"
	crand "crypto/rand"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"runtime"
	"sort"
	"sync"
	"time"

	"github.com/sp301415/ringo-snark/buckler"
	"github.com/sp301415/ringo-snark/jindo"
	"github.com/sp301415/ringo-snark/math/bigpoly"
	"github.com/sp301415/ringo-snark/math/csprng"
	"golang.org/x/sys/unix"
)

func init() { registry["C08"] = casesC08 }

// osRand reads from the kernel without any synchronisation that could order the goroutines under test.
type osRand struct{}

func (osRand) Read(p []byte) (int, error) {
	for n := 0; n < len(p); {
		k, err := unix.Getrandom(p[n:], 0)
		if err != nil {
			return n, err
		}
		n += k
	}
	return len(p), nil
}

// span is one operation of a goroutine.
type span struct {
	g    int
	name string
	a, b int64
}

// worker is the view of one goroutine: private random numbers, private log, no shared state.
type worker struct {
	g     int
	r     *rand.Rand
	spans []span
	bad   []string
	t0    time.Time
	delay bool
}

// op runs one operation, with a random pause before it.
func (w *worker) op(name string, f func()) {
	if w.delay {
		switch w.r.Intn(4) {
		case 0:
			runtime.Gosched()
		case 1:
			time.Sleep(time.Duration(w.r.Intn(300)) * time.Microsecond)
		}
	}
	a := time.Since(w.t0).Nanoseconds()
	f()
	w.spans = append(w.spans, span{w.g, name, a, time.Since(w.t0).Nanoseconds()})
}

func (w *worker) fail(format string, args ...any) {
	if len(w.bad) < 3 {
		w.bad = append(w.bad, fmt.Sprintf(format, args...))
	}
}

// together runs the functions at the same time, each on its own goroutine.
func together(t *T, what string, fs []func(w *worker)) {
	crand.Reader = osRand{}
	// a pause inside provers and verifiers shifts the schedules against each other
	pause := func(stage string, args ...any) {
		if n := time.Now().Nanosecond() / 64; n%3 == 0 {
			time.Sleep(time.Duration(n%200) * time.Microsecond)
		} else if n%3 == 1 {
			runtime.Gosched()
		}
	}
	setHooks(pause, pause)
	ws := make([]*worker, len(fs))
	start := make(chan struct{})
	var wg sync.WaitGroup
	t0 := time.Now()
	for i := range fs {
		ws[i] = &worker{g: i, r: rand.New(rand.NewSource(t.R.Int63())), t0: t0, delay: true}
		wg.Add(1)
		go func(w *worker, f func(*worker)) {
			defer wg.Done()
			<-start
			if p := try(func() { f(w) }); p != nil {
				w.fail("panic: %v", p)
			}
		}(ws[i], fs[i])
	}
	close(start)
	wg.Wait()
	setHooks(nil, nil)
	var all []span
	for _, w := range ws {
		all = append(all, w.spans...)
		for _, b := range w.bad {
			t.Viol("result", "%s, goroutine %d of %d: %s", what, w.g, len(ws), b)
		}
	}
	// what the schedule looked like
	sort.Slice(all, func(i, j int) bool { return all[i].a < all[j].a })
	over, depth := 0, 0
	var order bytes.Buffer
	for i, x := range all {
		fmt.Fprintf(&order, "%d%s,", x.g, x.name)
		d := 0
		for _, y := range all[max(0, i-40):i] {
			if y.b > x.a && y.g != x.g {
				d++
			}
		}
		over += d
		depth = max(depth, d+1)
	}
	t.N("operations", len(all))
	t.N("overlapping_pairs", over)
	t.N("goroutines", len(ws))
	t.Eval(what + order.String())
	t.Sample("%s: %d operations of %d goroutines, %d overlapping pairs, up to %d at once", what, len(all), len(ws), over, depth)
}

// concPCS uses provers, safe copies and verifiers of one parameter set at the same time.
func (s *suite[E]) concPCS(t *T, n, b, k int) {
	p := s.newPCS(n, b, []byte("crs"))
	mk := func(r *rand.Rand) [][]E {
		ls := lengths(p.params, r)
		v := make([][]E, b)
		for i := range v {
			v[i] = s.polyPattern(r, ls[r.Intn(len(ls))], polyPatterns[r.Intn(len(polyPatterns))], p.params.Base(), p.params.Exp())
		}
		return v
	}
	// an opening that everybody reads
	var shared []committed[E]
	for _, v := range mk(t.R) {
		shared = append(shared, p.commit(v))
	}
	sx := s.rnd(t.R)
	sy, spf := p.evaluate(sx, shared)
	G := 4
	prvs := []*jindo.Prover[E]{p.prv}
	for i := 1; i < G; i++ {
		switch i % 3 {
		case 0:
			prvs = append(prvs, prvs[i-1].SafeCopy())
		default:
			prvs = append(prvs, p.prv.SafeCopy())
		}
	}
	out := make([][]committed[E], G+2)
	rounds := t.cfg.pick(2, 4)
	var fs []func(w *worker)
	for g := 0; g < G; g++ {
		prv := prvs[g]
		fs = append(fs, func(w *worker) {
			vrf := jindo.NewVerifier[E](p.params, []byte("crs"))
			for i := 0; i < rounds; i++ {
				var cs []committed[E]
				for _, v := range mk(w.r) {
					w.op("commit", func() {
						c, o := prv.Commit(v)
						cs = append(cs, committed[E]{v, c, o})
					})
				}
				out[w.g] = append(out[w.g], cs...)
				for _, c := range [][]committed[E]{cs, shared} {
					x := s.rnd(w.r)
					var y []E
					var pf *jindo.Proof
					w.op("open", func() { y, pf = evalWith(prv, x, c) })
					for j, e := range s.expEvals(c, x) {
						if bi(y[j]).Cmp(e) != 0 {
							w.fail("evaluation %d is wrong", j)
						}
					}
					ok := false
					w.op("verify", func() { ok = vrf.Verify(x, coms(c), y, pf) })
					if !ok {
						w.fail("an honest opening is rejected")
					}
				}
			}
		})
	}
	for g := 0; g < 2; g++ {
		fs = append(fs, func(w *worker) {
			var vrf *jindo.Verifier[E]
			w.op("setup", func() { vrf = jindo.NewVerifier[E](p.params, []byte("crs")) })
			bad := cpv(sy)
			bad[w.r.Intn(b)].Add(bad[w.r.Intn(b)], fi[E](1))
			for i := 0; i < 3*rounds; i++ {
				ok := false
				y, want := sy, true
				if i%3 == 2 {
					y, want = bad, eqv(bad, sy)
				}
				w.op("verify", func() { ok = vrf.Verify(sx, coms(shared), y, spf) })
				if ok != want {
					w.fail("verification of a shared opening gives %v", ok)
				}
			}
		})
	}
	together(t, fmt.Sprintf("commitments %s", cfgStr(s.name, n, b)), fs)
	s.unrelated(t, p, out)
}

// unrelated demands that the commitments of the copies share no component.
func (s *suite[E]) unrelated(t *T, p *pcs[E], out [][]committed[E]) {
	seen := map[string]string{}
	for g := range out {
		for i, c := range out[g] {
			for k := range c.com.Value {
				key := fmt.Sprint(c.com.Value[k].Coeffs[0])
				id := fmt.Sprintf("goroutine %d commitment %d component %d", g, i, k)
				if o, ok := seen[key]; ok {
					t.Viol("repeat", "%s: %s equals %s", s.name, id, o)
				}
				seen[key] = id
				t.N("components_compared", 1)
			}
			for k := range c.open.Encode {
				for j := range c.open.Encode[k] {
					if len(c.open.Encode[k][j].Coeffs) == 0 {
						continue
					}
					zero := true // rows behind the data are not encoded
					for _, x := range c.open.Encode[k][j].Coeffs[0] {
						zero = zero && x == 0
					}
					if zero {
						continue
					}
					key := fmt.Sprint("e", c.open.Encode[k][j].Coeffs[0])
					id := fmt.Sprintf("goroutine %d opening %d encoding %d,%d", g, i, k, j)
					if o, ok := seen[key]; ok {
						t.Viol("repeat", "%s: %s equals %s", s.name, id, o)
					}
					seen[key] = id
				}
			}
		}
	}
}

// concEval uses one evaluator and one transformer from many goroutines.
func (s *suite[E]) concEval(t *T, rank, k int) {
	cy, nc := bigpoly.NewCyclicEvaluator[E](rank), bigpoly.NewCyclotomicEvaluator[E](rank)
	tr := bigpoly.NewCyclotomicTransformer[E](rank)
	ref1, ref2 := bigpoly.NewCyclicEvaluator[E](rank), bigpoly.NewCyclotomicEvaluator[E](rank)
	chk, chkRef := buckler.NewAutChecker[E](nc, 5, k%2 == 0), buckler.NewAutChecker[E](ref2, 5, k%2 == 0)
	ntc, ntcRef := buckler.NewNTTChecker[E](rank), buckler.NewNTTChecker[E](rank)
	sa, sb := s.poly(s.rndv(t.R, rank), true), s.poly(s.rndv(t.R, rank), true) // read by everybody
	var fs []func(w *worker)
	// results are computed first and compared afterwards, outside the concurrent part, on other evaluators
	type res struct {
		what      string
		got, want func() []E
	}
	G := 6
	all := make([][]res, G)
	for g := 0; g < G; g++ {
		fs = append(fs, func(w *worker) {
			add := func(what string, got []E, want func() []E) {
				c := cpv(got)
				all[w.g] = append(all[w.g], res{what, func() []E { return c }, want})
			}
			for i := 0; i < t.cfg.pick(12, 60); i++ {
				a, b, o := s.poly(s.rndv(w.r, rank), true), s.poly(s.rndv(w.r, rank), true), s.poly(s.rndv(w.r, rank), true)
				if w.r.Intn(2) == 0 {
					a, b = sa, sb
				}
				o0, a0, b0 := cpBP(o), a, b
				c := s.rnd(w.r)
				idx := 2*w.r.Intn(rank) + 1
				ev, ref := ringEval[E](cy), ringEval[E](ref1)
				if w.r.Intn(2) == 0 {
					ev, ref = nc, ref2
				}
				switch w.r.Intn(9) {
				case 0:
					w.op("muladd", func() { ev.MulAddTo(o, a, b) })
					add("MulAddTo", o.Coeffs, func() []E { x := cpBP(o0); ref.MulAddTo(x, a0, b0); return x.Coeffs })
				case 1:
					w.op("mulsub", func() { ev.MulSubTo(o, a, b) })
					add("MulSubTo", o.Coeffs, func() []E { x := cpBP(o0); ref.MulSubTo(x, a0, b0); return x.Coeffs })
				case 2:
					w.op("scaladd", func() { ev.ScalarMulAddTo(o, a, c) })
					add("ScalarMulAddTo", o.Coeffs, func() []E { x := cpBP(o0); ref.ScalarMulAddTo(x, a0, c); return x.Coeffs })
				case 3:
					w.op("scalsub", func() { ev.ScalarMulSubTo(o, a, c) })
					add("ScalarMulSubTo", o.Coeffs, func() []E { x := cpBP(o0); ref.ScalarMulSubTo(x, a0, c); return x.Coeffs })
				case 4:
					w.op("aut", func() { nc.AutTo(o, a, idx) })
					add("AutTo", o.Coeffs, func() []E { return ref2.Aut(a0, idx).Coeffs })
				case 5:
					ac := s.poly(a.Coeffs, false)
					w.op("autc", func() { nc.AutTo(o, ac, idx) })
					add("AutTo of coefficients", o.Coeffs, func() []E { return ref2.Aut(ac, idx).Coeffs })
				case 6:
					w.op("ntt", func() { tr.FwdNTTTo(o.Coeffs, a.Coeffs); tr.InvNTTTo(o.Coeffs, o.Coeffs) })
					add("transform and back", o.Coeffs, func() []E { return a0.Coeffs })
				case 7:
					w.op("intt", func() { o = ev.InvNTT(a) })
					add("InvNTT", o.Coeffs, func() []E { return ref.InvNTT(a0).Coeffs })
				case 8:
					x := zerov[E](rank)
					w.op("maps", func() { chk.TransformTo(o.Coeffs, a.Coeffs); ntc.TransposeTo(x, o.Coeffs) })
					add("linear maps", x, func() []E {
						y, z := zerov[E](rank), zerov[E](rank)
						chkRef.TransformTo(y, a0.Coeffs)
						ntcRef.TransposeTo(z, y)
						return z
					})
				}
			}
		})
	}
	together(t, fmt.Sprintf("shared evaluators %s rank %d", s.name, rank), fs)
	for g := range all {
		for _, r := range all[g] {
			if !eqv(r.got(), r.want()) {
				t.Viol("result", "%s rank %d: %s on a shared evaluator differs from the sequential result", s.name, rank, r.what)
			}
			t.N("results_compared", 1)
		}
	}
}

// concSamplers uses samplers and safe copies at the same time; no two may produce related streams.
func concSamplers(t *T, k int) {
	base := csprng.NewTwinCDTGaussianSampler(3 + float64(k))
	const G = 8
	cops := []*csprng.TwinCDTGaussianSampler{base}
	for i := 1; i < G; i++ {
		cops = append(cops, cops[t.R.Intn(len(cops))].SafeCopy())
	}
	n := t.cfg.pick(3000, 30000)
	xs := make([][]int64, 3*G)
	us := make([][]byte, G)
	var fs []func(w *worker)
	for g := 0; g < G; g++ {
		fs = append(fs, func(w *worker) {
			r, c, u := csprng.NewRoundedGaussianSampler(), csprng.NewCOSACSampler(), csprng.NewUniformSampler()
			xs[w.g], xs[G+w.g], xs[2*G+w.g] = make([]int64, n), make([]int64, n), make([]int64, n)
			us[w.g] = make([]byte, n)
			for lo := 0; lo < n; lo += 200 {
				w.op("samples", func() {
					for i := lo; i < min(lo+200, n); i++ {
						xs[w.g][i] = cops[w.g].Sample(0.25)
						xs[G+w.g][i] = r.Sample(0, 40)
						xs[2*G+w.g][i] = c.Sample(0.5, 5)
					}
					u.Read(us[w.g][lo:min(lo+200, n)])
				})
			}
		})
	}
	together(t, "samplers and safe copies", fs)
	for a := range xs {
		var m, v float64
		for i := range xs[a] {
			m += float64(xs[a][i])
			v += float64(xs[a][i]) * float64(xs[a][i])
		}
		m /= float64(n)
		v = v/float64(n) - m*m
		sd := []float64{base.StdDev(), 40, 5}[a/G]
		c := []float64{0.25, 0, 0.5}[a/G]
		// 7 standard errors; the fine shape is judged by C28
		if math.Abs(m-c) > 7*sd/math.Sqrt(float64(n)) || math.Abs(math.Sqrt(v+0.0)/sd-1) > 0.15+7/math.Sqrt(2*float64(n)) {
			t.Viol("result", "sampler %d in concurrent use: mean %.3f deviation %.3f instead of %.2f and %.2f", a, m, math.Sqrt(v), c, sd)
		}
		for b := 0; b < a; b++ {
			if a/G != b/G {
				continue
			}
			eq := 0
			var cr float64
			for i := range xs[a] {
				if xs[a][i] == xs[b][i] {
					eq++
				}
				cr += (float64(xs[a][i]) - c) * (float64(xs[b][i]) - c)
			}
			cr /= float64(n) * sd * sd
			if math.Abs(cr) > 7/math.Sqrt(float64(n)) {
				t.Viol("repeat", "samplers %d and %d in concurrent use are correlated (%.3f, %d of %d samples equal)", a%G, b%G, cr, eq, n)
			}
			t.N("stream_pairs_compared", 1)
		}
	}
	for a := range us {
		for b := 0; b < a; b++ {
			eq := 0
			for i := range us[a] {
				if us[a][i] == us[b][i] {
					eq++
				}
			}
			if eq > n/16 {
				t.Viol("repeat", "uniform samplers %d and %d give related bytes", a, b)
			}
		}
	}
}

// concSNARK compiles, proves and verifies at the same time; apx adds an approximate norm constraint.
func (s *suite[E]) concSNARK(t *T, rank, k int, apx bool) {
	mk := func(r *rand.Rand) (*spec, vals, vals) {
		b := s.builder(r, rank)
		if apx {
			b.norm("apx", big.NewInt(2))
			b.sp.shuffle = 1
		} else {
			b.pub(b.vec(0))
			b.sec(b.vec(0))
			b.arith(b.terms(2, 2), true)
			b.lin(0, b.randChk())
			b.norm("inf", big.NewInt(5))
			if rank >= 8 {
				b.norm("two", big.NewInt(100))
			}
			b.sum(b.terms(2, 2))
			b.sp.shuffle = r.Int63() | 1
		}
		// a false statement of the same circuit
		w := b.v.clone()
		x := w.sec[len(w.sec)-1][r.Intn(rank)]
		if apx {
			x.SetInt64(int64(2*rank*2 + 1 + r.Intn(1000)))
		} else {
			for _, l := range b.sp.lins {
				x = w.sec[l.out][r.Intn(rank)]
			}
			x.Add(x, bigN(1)).Mod(x, s.q)
		}
		return b.sp, b.v, w
	}
	var fs []func(w *worker)
	// pairs: prover and verifier of one compilation, on two goroutines
	pairs := 2
	if apx {
		pairs = 1
	}
	rounds := t.cfg.pick(2, 5)
	for g := 0; g < pairs; g++ {
		sp, v, bad := mk(t.R)
		prv, vrf, err := buckler.Compile[E](rank, s.circuit(sp), []byte("crs"))
		if err != nil {
			t.Viol("compile", "%s: %v", s.name, err)
			return
		}
		pf0, err := prv.Prove(s.assigned(sp, v, true))
		pf1, err1 := prv.Prove(s.assigned(sp, bad, true))
		if err != nil {
			t.Viol("compile", "%s: %v", s.name, err)
			return
		}
		pub, full, pubBad := s.assigned(sp, v, false), s.assigned(sp, v, true), s.assigned(sp, bad, false)
		got := make([]*buckler.Proof[E], rounds)
		fs = append(fs, func(w *worker) {
			for i := range got {
				w.op("prove", func() { got[i], err = prv.Prove(full) })
				if err != nil {
					w.fail("proving a true statement: %v", err)
				}
			}
			// an independent verifier judges the proofs
			_, v2, _ := buckler.Compile[E](rank, s.circuit(sp), []byte("crs"))
			for i := range got {
				ok := false
				w.op("verify", func() { ok = v2.Verify(pub, got[i]) })
				if !ok {
					w.fail("a true statement proved during verifications is rejected (%s)", sp)
				}
			}
		})
		fs = append(fs, func(w *worker) {
			for i := 0; i < 2*rounds; i++ {
				var ok, ok1 bool
				w.op("verify", func() { ok = vrf.Verify(pub, pf0) })
				if !ok {
					w.fail("a valid proof is rejected while the prover of the same compilation works (%s)", sp)
				}
				if err1 == nil && i%2 == 1 {
					w.op("verify", func() { ok1 = vrf.Verify(pubBad, pf1) })
					if ok1 {
						w.fail("a false statement is accepted while the prover of the same compilation works (%s)", sp)
					}
				}
			}
		})
		// another verifier reads the same proof and assignment
		if !apx {
			fs = append(fs, func(w *worker) {
				_, v2, _ := buckler.Compile[E](rank, s.circuit(sp), []byte("crs"))
				for i := 0; i < rounds; i++ {
					ok := false
					w.op("verify", func() { ok = v2.Verify(pub, pf0) })
					if !ok {
						w.fail("a valid proof is rejected by an independent verifier")
					}
				}
			})
		}
	}
	// independent compilations
	fs = append(fs, func(w *worker) {
		sp, v, bad := mk(w.r)
		var in *binst[E]
		var err error
		w.op("compile", func() { in, err = s.compile(sp, "other") })
		if err != nil {
			w.fail("compile: %v", err)
			return
		}
		var pf *buckler.Proof[E]
		w.op("prove", func() { pf, err = in.prove(v) })
		ok := false
		w.op("verify", func() { ok = in.verify(v, pf) })
		if !ok {
			w.fail("an independent instance rejects a true statement (%s)", sp)
		}
		w.op("prove", func() { pf, err = in.prove(bad) })
		if err == nil {
			w.op("verify", func() { ok = in.verify(bad, pf) })
			if ok {
				w.fail("an independent instance accepts a false statement (%s)", sp)
			}
		}
	})
	together(t, fmt.Sprintf("proofs %s rank %d", s.name, rank), fs)
}

// concCold builds everything anew on every goroutine, with parameters that nobody used before: compilations,
// commitment parameters, evaluators and linear maps of different sizes, bounds and kinds.
func (s *suite[E]) concCold(t *T, k int) {
	var fs []func(w *worker)
	rounds := t.cfg.pick(2, 5)
	for g := 0; g < 4; g++ {
		fs = append(fs, func(w *worker) {
			for i := 0; i < rounds; i++ {
				rank := []int{4, 8, 16, 32, 64}[w.r.Intn(5)]
				b := s.builder(w.r, rank)
				b.pub(b.vec(0))
				b.sec(b.vec(0))
				b.arith(b.terms(2, 2), true)
				for j := 0; j < 3; j++ {
					b.lin(0, b.randChk())
					b.norm("inf", big.NewInt(1+w.r.Int63n(1<<uint(1+w.r.Intn(40)))))
				}
				b.norm("two", new(big.Int).Rand(w.r, p2(min(rank, 60), 0)))
				b.sum(b.terms(2, 2))
				b.sp.shuffle = w.r.Int63() | 1
				var in *binst[E]
				var err error
				w.op("compile", func() { in, err = s.compile(b.sp, fmt.Sprint("cold", w.g, i)) })
				if err != nil {
					w.fail("compile: %v", err)
					continue
				}
				var pf *buckler.Proof[E]
				w.op("prove", func() { pf, err = in.prove(b.v) })
				ok := false
				w.op("verify", func() { ok = err == nil && in.verify(b.v, pf) })
				if !ok {
					w.fail("a true statement is rejected (%v, %s)", err, b.sp)
				}
			}
		})
	}
	for g := 0; g < 2; g++ {
		fs = append(fs, func(w *worker) {
			for i := 0; i < rounds; i++ {
				n, b := 30+w.r.Intn(400), 1+w.r.Intn(3)
				var p *pcs[E]
				w.op("setup", func() { p = s.newPCS(n, b, []byte{byte(w.g), byte(i)}) })
				var cs []committed[E]
				w.op("commit", func() {
					for j := 0; j < b; j++ {
						cs = append(cs, p.commit(s.rndv(w.r, 1+w.r.Intn(p.params.Rank()))))
					}
				})
				x := s.rnd(w.r)
				var y []E
				var pf *jindo.Proof
				w.op("open", func() { y, pf = p.evaluate(x, cs) })
				for j, e := range s.expEvals(cs, x) {
					if bi(y[j]).Cmp(e) != 0 {
						w.fail("evaluation %d is wrong", j)
					}
				}
				ok := false
				w.op("verify", func() { ok = p.vrf.Verify(x, coms(cs), y, pf) })
				if !ok {
					w.fail("an honest opening is rejected")
				}
			}
		})
		fs = append(fs, func(w *worker) {
			for i := 0; i < 4*rounds; i++ {
				rank := 1 << (1 + w.r.Intn(9))
				a := s.poly(s.rndv(w.r, rank), false)
				c := cpv(a.Coeffs)
				x := s.rnd(w.r)
				w.op("evaluator", func() {
					for _, ev := range []ringEval[E]{newEval[E](true, rank), newEval[E](false, rank)} {
						o := ev.NTT(a)
						ev.ScalarMulTo(o, o, x)
						o = ev.InvNTT(o)
						for j := range o.Coeffs {
							if o.Coeffs[j].Cmp(newE[E]().Mul(c[j], x)) != 0 {
								w.fail("rank %d: coefficient %d of a fresh evaluator's result is wrong", rank, j)
								return
							}
						}
					}
				})
				idx := 2*w.r.Intn(rank) + 1
				w.op("automorphism", func() {
					ev := bigpoly.NewCyclotomicEvaluator[E](rank)
					y, z := ev.InvNTT(ev.Aut(ev.NTT(a), idx)), ev.Aut(a, idx)
					if !eqv(y.Coeffs, z.Coeffs) {
						w.fail("rank %d: automorphism %d of a fresh evaluator is wrong", rank, idx)
					}
				})
			}
		})
	}
	together(t, fmt.Sprintf("fresh instances %s %d", s.name, k), fs)
}

func casesC08(cfg Cfg) []Case {
	var cs []Case
	add := func(name string, f func(t *T)) { cs = append(cs, Case{Name: name, Run: f}) }
	for k := 0; k < cfg.pick(1, 4); k++ {
		add(fmt.Sprint("snark-apx/", k), func(t *T) { field("zp110").S.concSNARK(t, 2048, k, true) })
		for i, c := range []pcsCfg{{"zp255", 256, 2}, {"zp110", 200, 3}, {"zp440", 100, 1}, {"zp220", 500, 1}, {"zp880", 64, 1}} {
			if i < cfg.pick(3, 5) {
				add(fmt.Sprintf("pcs/%s/%d", c, k), func(t *T) { field(c.f).S.concPCS(t, c.n, c.b, k) })
			}
		}
		for i, f := range []string{"zp255", "zp110", "zp220", "zp128", "zp440", "zp880", "zp240"} {
			for _, rank := range []int{8, 64, 512} {
				if i < cfg.pick(3, 7) {
					add(fmt.Sprintf("eval/%s/%d/%d", f, rank, k), func(t *T) { field(f).S.concEval(t, rank, k) })
				}
			}
			if i < cfg.pick(4, 7) {
				rank := []int{8, 16, 64, 32}[(i+k)%4]
				add(fmt.Sprintf("snark/%s/%d/%d", f, rank, k), func(t *T) { field(f).S.concSNARK(t, rank, k, false) })
			}
		}
		for i, f := range []string{"zp255", "zp110", "zp220", "zp128", "zp440", "zp880", "zp240"} {
			if i < cfg.pick(3, 7) {
				add(fmt.Sprintf("cold/%s/%d", f, k), func(t *T) { field(f).S.concCold(t, k) })
			}
		}
		add(fmt.Sprint("samplers/", k), func(t *T) { concSamplers(t, k) })
	}
	cs = append(cs, romCases(cfg)...)
	return cs
}
