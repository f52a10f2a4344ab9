package main

import (
	"bytes"
	"cmp"
	crand "crypto/rand"
	"encoding/binary"
	"fmt"
	"math"
	"math/bits"
	"math/rand"
	"slices"

	"github.com/sp301415/ringo-snark/math/csprng"
)

func init() { registry["C27"] = casesC27 }

// samplerOps runs a random sequence of calls and returns everything the sampler produced.
// fill sets the previous contents of the buffers given to Read.
func samplerOps(s *csprng.UniformSampler, r *rand.Rand, n int, fill func(p []byte)) []byte {
	var o []byte
	var w [8]byte
	for i := 0; i < n; i++ {
		switch r.Intn(5) {
		case 0:
			k := []int{0, 1, 3, 7, 8, 15, 16, 17, 64, 1000, 8191, 8192, 8193, 20000}[r.Intn(14)]
			p := make([]byte, k)
			fill(p)
			m, err := s.Read(p)
			if m != k || err != nil {
				o = append(o, []byte(fmt.Sprint("short read ", m, err))...)
			}
			o = append(o, p...)
		case 1:
			for j := r.Intn(1200); j >= 0; j-- {
				binary.LittleEndian.PutUint64(w[:], s.Sample())
				o = append(o, w[:]...)
			}
		case 2:
			n := r.Uint64() >> uint(r.Intn(63))
			if n == 0 {
				n = 1
			}
			for j := r.Intn(200); j >= 0; j-- {
				binary.LittleEndian.PutUint64(w[:], s.SampleN(n))
				o = append(o, w[:]...)
			}
		case 3:
			for j := r.Intn(200); j >= 0; j-- {
				binary.LittleEndian.PutUint64(w[:], math.Float64bits(s.SampleFloat()))
				o = append(o, w[:]...)
			}
		default:
			binary.LittleEndian.PutUint64(w[:], s.Sample())
			o = append(o, w[:]...)
		}
	}
	return o
}

// repeated16 finds a 16-byte window that occurs twice.
func repeated16(p []byte) (int, int, bool) {
	seen := make(map[[16]byte]int, len(p))
	for i := 0; i+16 <= len(p); i++ {
		var k [16]byte
		copy(k[:], p[i:])
		if j, ok := seen[k]; ok {
			return j, i, true
		}
		seen[k] = i
	}
	return 0, 0, false
}

func casesC27(cfg Cfg) []Case {
	var cs []Case
	add := func(name string, f func(t *T)) { cs = append(cs, Case{Name: name, Run: f}) }
	seeds := func(r *rand.Rand) [][]byte {
		s := [][]byte{nil, {0}, {0, 0}, {1}, {0, 1}, {1, 0}, bytes.Repeat([]byte{0}, 32), bytes.Repeat([]byte{0}, 33), bytes.Repeat([]byte{255}, 32), []byte("crs"), []byte("crs\x00"), []byte("crt")}
		for _, k := range []int{16, 31, 32, 33, 47, 48, 49, 64, 127, 128, 129, 1000} {
			b := make([]byte, k)
			r.Read(b)
			s = append(s, b)
			// one bit of difference, at the start, in the middle, at the end
			for _, i := range uniq(0, k/2, k-1) {
				c := append([]byte(nil), b...)
				c[i] ^= 1 << r.Intn(8)
				s = append(s, c)
			}
			s = append(s, b[:k-1])
		}
		return s
	}
	for k := 0; k < cfg.pick(6, 60); k++ {
		k := k
		add(fmt.Sprintf("determinism/%d", k), func(t *T) {
			for i, sd := range seeds(t.R) {
				key := t.R.Int63()
				run := func(fill func(p []byte)) []byte {
					// The generator may not depend on the caller's copy of the seed either.
					c := append([]byte(nil), sd...)
					s := csprng.NewUniformSamplerWithSeed(c)
					clear(c)
					return samplerOps(s, rand.New(rand.NewSource(key)), 30, fill)
				}
				z := run(func(p []byte) {})
				t.Eval(fmt.Sprint("seed", i, k))
				t.N("bytes_compared", len(z))
				for _, f := range []func(p []byte){
					func(p []byte) {},
					func(p []byte) {
						for i := range p {
							p[i] = 0xff
						}
					},
					func(p []byte) { t.R.Read(p) },
				} {
					if !bytes.Equal(z, run(f)) {
						t.Viol("determinism", "equal seeds (%d bytes) and equal call sequences gave different outputs", len(sd))
						return
					}
				}
			}
			t.Sample("%d seeds replayed with three buffer contents", len(seeds(t.R)))
		})
		add(fmt.Sprintf("unrelated/%d", k), func(t *T) {
			var all []byte
			ss := seeds(t.R)
			have := map[string]bool{}
			for i, sd := range ss {
				if have[string(sd)] {
					continue
				}
				have[string(sd)] = true
				s := csprng.NewUniformSamplerWithSeed(sd)
				p := make([]byte, 600)
				s.Read(p[:300])
				for j := 300; j < 600-8; j += 8 {
					binary.LittleEndian.PutUint64(p[j:], s.Sample())
				}
				all = append(all, p[:592]...)
				t.Eval(fmt.Sprint("unrelated", i, k))
			}
			for i := 0; i < 40; i++ {
				s := csprng.NewUniformSampler()
				for j := 0; j < 40; j++ {
					all = binary.LittleEndian.AppendUint64(all, s.Sample())
				}
				t.Eval(fmt.Sprint("unseeded", i, k))
			}
			if i, j, bad := repeated16(all); bad {
				t.Viol("related", "streams of different seeds share 16 bytes (offsets %d and %d)", i, j)
			}
			t.N("bytes_compared", len(all))
		})
	}
	// Samplers without a seed never repeat one another, however many a process makes and whatever makes them.
	add("unseeded-many", func(t *T) {
		m := cfg.pick(3000, 70000)
		seen := make(map[[16]byte]int, m)
		for i := 0; i < m; i++ {
			switch i % 97 {
			case 5:
				csprng.NewCOSACSampler()
			case 9:
				csprng.NewRoundedGaussianSampler()
			}
			s := csprng.NewUniformSampler()
			var k [16]byte
			if i%2 == 0 {
				binary.LittleEndian.PutUint64(k[:], s.Sample())
				binary.LittleEndian.PutUint64(k[8:], s.Sample())
			} else {
				s.Read(k[:])
			}
			if j, ok := seen[k]; ok {
				t.Viol("related", "sampler %d, made without a seed, repeats sampler %d", i, j)
				return
			}
			seen[k] = i
		}
		gs := map[string]int{}
		for i := 0; i < 600; i++ {
			co, ro := csprng.NewCOSACSampler(), csprng.NewRoundedGaussianSampler()
			var k [4]int64
			for j := range k {
				k[j] = co.Sample(0.3, 1e9)
			}
			a := fmt.Sprint("cosac", k)
			for j := range k {
				k[j] = ro.Sample(0.3, 1e9)
			}
			for _, a := range []string{a, fmt.Sprint("rounded", k)} {
				if j, ok := gs[a]; ok {
					t.Viol("related", "Gaussian sampler %d repeats Gaussian sampler %d", i, j)
					return
				}
				gs[a] = i
			}
		}
		t.Eval("unseeded-many")
		t.N("unseeded_samplers", m)
	})
	// Streams never repeat, whatever functions are mixed.
	for k := 0; k < cfg.pick(4, 20); k++ {
		k := k
		add(fmt.Sprintf("repeat/%d", k), func(t *T) {
			s := csprng.NewUniformSamplerWithSeed([]byte(fmt.Sprint("repeat", k, t.cfg.Seed)))
			var all []byte
			for len(all) < cfg.pick(1<<20, 1<<23) {
				if k%4 != 1 && (k%4 == 0 || t.R.Intn(2) == 0) {
					for j := t.R.Intn(3000); j >= 0; j-- {
						all = binary.LittleEndian.AppendUint64(all, s.Sample())
					}
				} else {
					p := make([]byte, t.R.Intn(20000))
					s.Read(p)
					all = append(all, p...)
				}
			}
			t.Eval(fmt.Sprint("repeat", k))
			t.N("bytes_compared", len(all))
			if i, j, bad := repeated16(all); bad {
				t.Viol("repeat", "16 bytes of the stream occur at offsets %d and %d", i, j)
			}
			// bytes, byte pairs and bits
			byteStats(t, all)
		})
	}
	// Long streams.
	for k := 0; k < cfg.pick(2, 6); k++ {
		add(fmt.Sprintf("long/%d", k), func(t *T) {
			s := csprng.NewUniformSamplerWithSeed([]byte(fmt.Sprint("long", k, t.cfg.Seed)))
			if k == 1 {
				s = csprng.NewUniformSampler()
			}
			n := cfg.pick(1<<22, 1<<25) // 64-bit words; pairs of neighbours, so that chance repeats are out of reach
			ws := make([][2]uint64, n)
			switch k % 2 {
			case 0:
				for i := range ws {
					ws[i] = [2]uint64{s.Sample(), s.Sample()}
				}
			default:
				p := make([]byte, 16*n)
				for o := 0; o < len(p); {
					m := min(len(p)-o, []int{len(p) / 2, 1 << 20, 48000, 8192, 100, 16}[t.R.Intn(6)])
					s.Read(p[o : o+m])
					o += m
				}
				for i := range ws {
					ws[i] = [2]uint64{binary.LittleEndian.Uint64(p[16*i:]), binary.LittleEndian.Uint64(p[16*i+8:])}
				}
			}
			t.Eval(fmt.Sprint("long", k))
			t.N("bytes_compared", 16*n)
			slices.SortFunc(ws, func(a, b [2]uint64) int { return cmp.Or(cmp.Compare(a[0], b[0]), cmp.Compare(a[1], b[1])) })
			for i := 1; i < n; i++ {
				if ws[i] == ws[i-1] {
					t.Viol("repeat", "16 bytes of the stream occur twice within %d bytes", 16*n)
					break
				}
			}
		})
	}
	// Bounded samples.
	bounds := []uint64{1, 2, 3, 5, 7, 10, 64, 100, 255, 256, 257, 1000, 4095, 1 << 16, 1<<16 + 1, 65537 * 3, 1<<31 - 1, 1 << 32, 1<<32 + 15, 1 << 60, 1<<60 - 93, 1152921504606584833, 1 << 61, 1<<61 + 3, 1 << 62, 1<<62 + 1, 3 << 61, 3 << 62, 1 << 63, 1<<63 - 1, 1<<63 + 1, 5 << 61, 7 << 61, math.MaxUint64, math.MaxUint64 - 1, math.MaxUint64 / 3, math.MaxUint64/3 + 1, math.MaxUint64/3*2 + 1}
	if cfg.Thorough {
		for i := uint64(2); i < 400; i++ {
			bounds = append(bounds, i)
		}
	}
	for _, n := range bounds {
		n := n
		add(fmt.Sprintf("bounded/%d", n), func(t *T) { boundedStats(t, n, cfg.pick(200000, 4000000), false) })
		add(fmt.Sprintf("mixed/%d", n), func(t *T) { boundedStats(t, n, cfg.pick(100000, 2000000), true) })
	}
	for k := 0; k < cfg.pick(2, 10); k++ {
		k := k
		add(fmt.Sprintf("float/%d", k), func(t *T) {
			s := csprng.NewUniformSamplerWithSeed([]byte(fmt.Sprint("float", k, t.cfg.Seed)))
			n := cfg.pick(400000, 4000000)
			xs := make([]float64, n)
			for i := range xs {
				xs[i] = s.SampleFloat()
				if !(xs[i] >= 0 && xs[i] < 1) {
					t.Viol("range", "SampleFloat returned %v", xs[i])
					return
				}
			}
			t.Eval(fmt.Sprint("float", k))
			t.N("samples", n)
			if err := uniformTest(xs); err != nil {
				t.Viol("bias", "SampleFloat: %v", err)
			}
			// finer digits: the value scaled by 2^k, modulo one
			for _, sc := range []float64{1 << 6, 1 << 20, 1 << 32, 1 << 44} {
				ys := make([]float64, n)
				for i := range ys {
					ys[i] = xs[i]*sc - math.Floor(xs[i]*sc)
				}
				if err := uniformTest(ys); err != nil {
					t.Viol("bias", "SampleFloat scaled by %g: %v", sc, err)
				}
			}
			for i := range xs {
				xs[i] -= 0.5
			}
			if err := corrTest(xs[1:], xs[:n-1]); err != nil {
				t.Viol("bias", "SampleFloat: successive values: %v", err)
			}
			t.Sample("%d values in [0,1), uniform at five scales", n)
		})
	}
	// Unseeded samplers take all their entropy from the system.
	add("entropy", func(t *T) {
		old := crand.Reader
		defer func() { crand.Reader = old }()
		cnt := &countReader{r: old}
		crand.Reader = cnt
		for i := 0; i < 20; i++ {
			cnt.n = 0
			csprng.NewUniformSampler()
			t.Eval(fmt.Sprint("entropy", i))
			t.N("entropy_bytes", cnt.n)
			if cnt.n > 0 && cnt.n < 16 {
				t.Viol("entropy", "an unseeded sampler takes only %d bytes of system entropy", cnt.n)
			}
			if cnt.n == 0 {
				// The build may reach the system generator by another way; unrelatedness is judged elsewhere.
				t.N("entropy_not_observed", 1)
			}
		}
		// Each byte of the entropy must matter.
		stream := func(flip int) string {
			cr := &fixedReader{flip: flip}
			crand.Reader = cr
			s := csprng.NewUniformSampler()
			p := make([]byte, 64)
			s.Read(p)
			if flip >= cr.n {
				return ""
			}
			return string(p)
		}
		base := stream(-1)
		seen := map[string]bool{base: true}
		inf, i := 0, 0
		for ; i < 4096; i++ {
			z := stream(i)
			if z == "" {
				break
			}
			t.Eval(fmt.Sprint("influence", i))
			if !seen[z] {
				inf++
			}
			seen[z] = true
		}
		t.N("influential_entropy_bytes", inf)
		if i > 0 && inf < 16 {
			t.Viol("entropy", "only %d of the %d bytes of system entropy influence an unseeded sampler", inf, i)
		}
	})
	add("seeded-gaussian", func(t *T) {
		for i := 0; i < 20; i++ {
			sd := []byte(fmt.Sprint("gauss", i))
			a, b, c := csprng.NewRoundedGaussianSamplerWithSeed(sd), csprng.NewRoundedGaussianSamplerWithSeed(sd), csprng.NewRoundedGaussianSamplerWithSeed(append(sd, 0))
			same := 0
			for j := 0; j < 2000; j++ {
				x, y, z := a.Sample(0.25, 1e9), b.Sample(0.25, 1e9), c.Sample(0.25, 1e9)
				if x != y {
					t.Viol("determinism", "rounded Gaussian samplers of equal seed differ at sample %d", j)
					return
				}
				if x == z {
					same++
				}
			}
			t.Eval(fmt.Sprint("gauss", i))
			if same > 20 {
				t.Viol("related", "rounded Gaussian samplers of different seeds agree in %d of 2000 wide samples", same)
			}
		}
	})
	return cs
}

// fixedReader yields a fixed stream with one byte altered.
type fixedReader struct{ n, flip int }

func (f *fixedReader) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte((f.n + i) * 7)
		if f.n+i == f.flip {
			p[i] ^= 0x40
		}
	}
	f.n += len(p)
	return len(p), nil
}

type countReader struct {
	r interface{ Read([]byte) (int, error) }
	n int
}

func (c *countReader) Read(p []byte) (int, error) { c.n += len(p); return c.r.Read(p) }

func byteStats(t *T, all []byte) {
	n := len(all)
	cnt := make([]int, 256)
	var pos [8][]int
	for i := range pos {
		pos[i] = make([]int, 256)
	}
	par := make([]float64, n)
	for i, b := range all {
		cnt[b]++
		pos[i%8][b]++
		par[i] = float64(b) - 127.5
	}
	pr := make([]float64, 256)
	for i := range pr {
		pr[i] = 1.0 / 256
	}
	if p, chi, _ := chiTest(cnt, pr); p < alpha {
		t.Viol("bias", "bytes: chi-square %.1f, p=%.2g", chi, p)
	}
	for i := range pos {
		if p, chi, _ := chiTest(pos[i], pr); p < alpha {
			t.Viol("bias", "bytes at position %d mod 8: chi-square %.1f, p=%.2g", i, chi, p)
		}
	}
	for _, lag := range []int{1, 2, 8, 16, 8192, 8184} {
		if n > 2*lag {
			if err := corrTest(par[lag:], par[:n-lag]); err != nil {
				t.Viol("bias", "bytes %d apart: %v", lag, err)
			}
		}
	}
}

// boundedStats tests the values below n of one sampler; mixed draws other bounds and kinds in between.
func boundedStats(t *T, n uint64, m int, mixed bool) {
	s := csprng.NewUniformSamplerWithSeed([]byte(fmt.Sprint("bounded", n, t.cfg.Seed)))
	bins := uint64(64)
	if n < bins {
		bins = n
	}
	// Bucket i holds the values with floor(v*bins/n) = i; residues catch biases of the low part.
	cnt := make([]int, bins)
	low := make([]int, 16)
	prev := 0.0
	var xs, ys []float64
	l := uint(bits.Len64(n))
	others := []uint64{1, 2, 3, 1<<63 + 1, 3 << 62, math.MaxUint64, 1 << (l - 1), 1<<(l-1) + 1, 1<<(l-1) + 1<<(l-1)/2, 1<<(l-1) - 1 + 1<<(l-1), n, n - n/3}
	for i := 0; i < m; i++ {
		if mixed {
			for k := t.R.Intn(3); k > 0; k-- {
				switch o := others[t.R.Intn(len(others))]; t.R.Intn(10) {
				case 0:
					s.Sample()
				case 1:
					s.SampleFloat()
				case 2:
					s.Read(make([]byte, t.R.Intn(20)))
				default:
					if v := s.SampleN(o); v >= o {
						t.Viol("range", "SampleN(%d) returned %d", o, v)
						return
					}
				}
			}
		}
		v := s.SampleN(n)
		if v >= n {
			t.Viol("range", "SampleN(%d) returned %d", n, v)
			return
		}
		f := float64(v) / float64(n)
		b := uint64(f * float64(bins))
		if b >= bins {
			b = bins - 1
		}
		if n <= bins {
			b = v
		}
		cnt[b]++
		low[v%16]++
		if i > 0 {
			xs, ys = append(xs, prev), append(ys, f-0.5)
		}
		prev = f - 0.5
	}
	t.Eval(fmt.Sprint("bounded", n, mixed))
	t.N("samples", m)
	pr := make([]float64, bins)
	for i := range pr {
		// number of values in the bucket over n
		if n <= bins {
			pr[i] = 1 / float64(n)
		} else if n < 1<<40 {
			lo := (uint64(i)*n + bins - 1) / bins
			hi := (uint64(i+1)*n + bins - 1) / bins
			pr[i] = float64(hi-lo) / float64(n)
		} else {
			pr[i] = 1 / float64(bins)
		}
	}
	if p, chi, df := chiTest(cnt, pr); p < alpha {
		t.Viol("bias", "SampleN(%d): chi-square %.1f with %d degrees of freedom, p=%.2g", n, chi, df, p)
	}
	if n >= 16 {
		for i := range low {
			if i == 0 {
				pr = make([]float64, 16)
			}
			c := n / 16
			if uint64(i) < n%16 {
				c++
			}
			pr[i] = float64(c) / float64(n)
		}
		if p, chi, df := chiTest(low, pr); p < alpha {
			t.Viol("bias", "SampleN(%d) modulo 16: chi-square %.1f with %d degrees of freedom, p=%.2g", n, chi, df, p)
		}
	}
	if n > 1 {
		// centre before correlating
		mean := 0.0
		for _, x := range xs {
			mean += x
		}
		mean /= float64(len(xs))
		for i := range xs {
			xs[i] -= mean
			ys[i] -= mean
		}
		if err := corrTest(xs, ys); err != nil {
			t.Viol("bias", "SampleN(%d): successive values: %v", n, err)
		}
	}
	t.Sample("SampleN(%d): %d samples uniform", n, m)
}
