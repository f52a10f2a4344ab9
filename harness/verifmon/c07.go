package main

import (
	"bytes"
	"crypto/sha256"
	"crypto/sha3"
	"encoding/binary"
	"fmt"
	"math"
	"math/big"
	"math/bits"

	"github.com/sp301415/ringo-snark/jindo"
	"github.com/tuneinsight/lattigo/v6/ring"
)

func init() { registry["C07"] = casesC07 }

func casesC07(cfg Cfg) []Case {
	var cs []Case
	cfgs := []pcsCfg{
		{"zp255", 600, 1}, {"zp255", 300, 2}, {"zp255", 2100, 3}, {"zp110", 800, 2}, {"zp110", 100, 1}, {"zp220", 256, 4}, {"zp220", 2048, 1}, {"zp220", 3000, 9},
		{"zp440", 300, 2}, {"zp440", 900, 1}, {"zp880", 300, 2}, {"zp880", 60, 1}, {"zp128", 700, 1}, {"zp240", 500, 2},
	}
	if cfg.Thorough {
		cfgs = append(cfgs, pcsCfg{"zp255", 8192, 2}, pcsCfg{"zp220", 5000, 16}, pcsCfg{"zp110", 4096, 1}, pcsCfg{"zp440", 3000, 3}, pcsCfg{"zp880", 2500, 2}, pcsCfg{"zp220", 40, 70}, pcsCfg{"zp255", 40000, 1}, pcsCfg{"zp110", 20, 140})
	}
	for _, c := range cfgs {
		for k := 0; k < cfg.pick(2, 6); k++ {
			c, k := c, k
			cs = append(cs, Case{Name: fmt.Sprintf("transcript/%s/%d", c, k), Run: func(t *T) { field(c.f).S.transcript(t, c.n, c.b, k) }})
		}
	}
	for _, c := range []pcsCfg{{"zp255", 300, 1}, {"zp255", 1500, 2}, {"zp110", 700, 1}, {"zp110", 100, 3}, {"zp220", 256, 4}, {"zp220", 2048, 1}, {"zp440", 300, 2}, {"zp880", 300, 1}, {"zp128", 700, 1}, {"zp240", 500, 2}} {
		c := c
		cs = append(cs, Case{Name: fmt.Sprintf("influence/%s", c), Run: func(t *T) { field(c.f).S.influence(t, c.n, c.b) }})
	}
	if !cfg.Thorough {
		for _, c := range []pcsCfg{{"zp255", 8192, 2}, {"zp220", 40, 18}, {"zp255", 20000, 1}} {
			cs = append([]Case{{Name: fmt.Sprintf("transcript/%s/0", c), Run: func(t *T) { field(c.f).S.transcript(t, c.n, c.b, 0) }}}, cs...)
		}
	}
	for _, f := range allFields {
		f := f
		cs = append(cs, Case{Name: "range/" + f.Name, Run: func(t *T) { f.S.chalRange(t) }})
	}
	return cs
}

func blocks(r []byte) [][]byte {
	var o [][]byte
	for i := 0; i+16 <= len(r); i += 16 {
		o = append(o, r[i:i+16])
	}
	return o
}

func (s *suite[E]) transcript(t *T, n, b, k int) {
	crs := crsBase(t.R, t.R.Intn(14))
	p := s.newPCS(n, b, crs)
	pr := p.params
	what := cfgStr(s.name, n, b)
	var A []committed[E]
	for i := 0; i < b; i++ {
		A = append(A, p.commit(s.rndv(t.R, pr.Rank())))
	}
	x := s.rnd(t.R)
	startInstr()
	y, pf := p.evaluate(x, A)
	prvReads := xofReads()
	startInstr()
	acc := p.accept(t, x, coms(A), y, pf)
	ref := xofReads()
	resetInstr()
	if !acc {
		t.Viol("reject", "%s: honest proof rejected", what)
		return
	}
	if len(ref) == 0 {
		t.N("transcript_not_observed", 1)
		return
	}
	t.Eval(what + "/agree")
	if !bytes.Equal(prvReads, ref) {
		t.Viol("disagree", "%s: prover and verifier derived different challenges from the same transcript", what)
	}
	rb := blocks(ref)
	seen := map[string]bool{}
	for _, x := range rb {
		seen[string(x)] = true
	}
	t.N("challenge_blocks", len(rb))
	if len(seen) != len(rb) {
		t.Viol("repeated", "%s: %d challenges, only %d different", what, len(rb), len(seen))
	}
	tail := pr.Cols()
	probe := func(kind string, onlyTail bool, f func() (E, []*jindo.Commitment, []E, *jindo.Proof, *jindo.Verifier[E])) {
		x, cs, y, pf, v := f()
		startInstr()
		try(func() { v.Verify(x, cs, y, pf) })
		got := blocks(xofReads())
		resetInstr()
		t.Eval(what + "/" + kind)
		t.N("transcripts_compared", 1)
		if len(got) != len(rb) {
			t.N("transcript_incomplete", 1)
			return
		}
		from := 0
		if onlyTail {
			from = len(rb) - tail
		}
		for i := from; i < len(rb); i++ {
			if bytes.Equal(got[i], rb[i]) {
				t.Viol("insensitive", "%s: challenge %d of %d does not depend on: %s", what, i, len(rb), kind)
				return
			}
		}
	}
	N := pr.RingQ().N()
	same := func() (E, []*jindo.Commitment, []E, *jindo.Proof, *jindo.Verifier[E]) {
		return cp(x), cpComs(coms(A)), cpv(y), cpProof(pf), p.vrf
	}
	for i := range A {
		for c := range A[i].com.Value {
			for l := 0; l <= pr.RingQOut().Level(); l++ {
				for _, idx := range uniq(0, N-1, t.R.Intn(N)) {
					probe(fmt.Sprintf("commitment %d component %d limb %d", i, c, l), false, func() (E, []*jindo.Commitment, []E, *jindo.Proof, *jindo.Verifier[E]) {
						a, cs, d, e, g := same()
						bump(pr.RingQOut(), cs[i].Value[c], l, idx, 1)
						return a, cs, d, e, g
					})
				}
			}
		}
		for j := 0; j < i; j++ {
			if j > 2 {
				break
			}
			probe("commitment order", false, func() (E, []*jindo.Commitment, []E, *jindo.Proof, *jindo.Verifier[E]) {
				a, cs, d, e, g := same()
				cs[i], cs[j] = cs[j], cs[i]
				return a, cs, d, e, g
			})
		}
		probe(fmt.Sprintf("claimed value %d", i), false, func() (E, []*jindo.Commitment, []E, *jindo.Proof, *jindo.Verifier[E]) {
			a, b, z, e, g := same()
			z[i].Add(z[i], fi[E](1))
			return a, b, z, e, g
		})
		ns, vs := s.nearby(t, bi(y[i]), t.cfg.pick(8<<min(i, 3), 8))
		for k := range vs {
			probe(fmt.Sprintf("claimed value %d %s", i, ns[k]), false, func() (E, []*jindo.Commitment, []E, *jindo.Proof, *jindo.Verifier[E]) {
				a, b, z, e, g := same()
				z[i] = fe[E](vs[k])
				return a, b, z, e, g
			})
		}
		if i == 0 || t.cfg.Thorough {
			for c := range A[i].com.Value {
				for l := 0; l <= pr.RingQOut().Level(); l++ {
					idx, m := t.R.Intn(N), pr.RingQOut().SubRings[l].Modulus
					for lo := 0; lo < bits.Len64(m); lo += 8 {
						w := A[i].com.Value[c].Coeffs[l][idx] ^ 1<<min(lo+t.R.Intn(8), bits.Len64(m)-1)
						if w >= m {
							continue
						}
						probe(fmt.Sprintf("commitment %d component %d limb %d bits %d up", i, c, l, lo), false, func() (E, []*jindo.Commitment, []E, *jindo.Proof, *jindo.Verifier[E]) {
							a, cs, d, e, g := same()
							cs[i].Value[c].Coeffs[l][idx] = w
							return a, cs, d, e, g
						})
					}
				}
			}
		}
	}
	{
		ns, vs := s.nearby(t, bi(x), t.cfg.pick(8, 4))
		for k := range vs {
			probe("point "+ns[k], false, func() (E, []*jindo.Commitment, []E, *jindo.Proof, *jindo.Verifier[E]) {
				_, b, c, e, g := same()
				return fe[E](vs[k]), b, c, e, g
			})
		}
	}
	for bit := 0; bit < s.q.BitLen()-1; bit += 1 + t.R.Intn(24) {
		probe("point", false, func() (E, []*jindo.Commitment, []E, *jindo.Proof, *jindo.Verifier[E]) {
			z, b, c, e, g := same()
			z.Add(z, fe[E](new(big.Int).Lsh(big.NewInt(1), uint(bit))))
			return z, b, c, e, g
		})
	}
	for _, c := range crsVariants(t.R, crs) {
		probe("reference string", false, func() (E, []*jindo.Commitment, []E, *jindo.Proof, *jindo.Verifier[E]) {
			a, b, d, e, _ := same()
			return a, b, d, e, jindo.NewVerifier[E](pr, c)
		})
	}
	for i := range pf.Partial {
		for l := 0; l <= pr.RingQ().Level(); l++ {
			for _, idx := range uniq(0, N-1, t.R.Intn(N)) {
				if idx > 0 && idx < N-1 {
					m := pr.RingQ().SubRings[l].Modulus
					for lo := 0; lo < bits.Len64(m); lo += 8 {
						w := pf.Partial[i].Coeffs[l][idx] ^ 1<<min(lo+t.R.Intn(8), bits.Len64(m)-1)
						if w >= m || i > 1 && !t.cfg.Thorough {
							continue
						}
						probe(fmt.Sprintf("partial evaluation %d limb %d bits %d up", i, l, lo), true, func() (E, []*jindo.Commitment, []E, *jindo.Proof, *jindo.Verifier[E]) {
							a, b, c, z, g := same()
							z.Partial[i].Coeffs[l][idx] = w
							return a, b, c, z, g
						})
					}
				}
				probe(fmt.Sprintf("partial evaluation %d limb %d", i, l), true, func() (E, []*jindo.Commitment, []E, *jindo.Proof, *jindo.Verifier[E]) {
					a, b, c, z, g := same()
					bump(pr.RingQ(), z.Partial[i], l, idx, 1)
					return a, b, c, z, g
				})
			}
		}
	}
	for l := 0; l <= pr.RingQ().Level(); l++ {
		for _, idx := range uniq(0, N-1, t.R.Intn(N)) {
			probe(fmt.Sprintf("partial mask limb %d", l), true, func() (E, []*jindo.Commitment, []E, *jindo.Proof, *jindo.Verifier[E]) {
				a, b, c, z, g := same()
				bump(pr.RingQ(), z.PartialMask, l, idx, 1)
				return a, b, c, z, g
			})
		}
	}
	// changes of two parts at once that keep their sum, or exchange them
	type arg = struct {
		x  E
		cs []*jindo.Commitment
		y  []E
		f  *jindo.Proof
	}
	two := func(kind string, onlyTail bool, f func(a arg)) {
		probe(kind, onlyTail, func() (E, []*jindo.Commitment, []E, *jindo.Proof, *jindo.Verifier[E]) {
			x, cs, y, pf, v := same()
			f(arg{x, cs, y, pf})
			return x, cs, y, pf, v
		})
	}
	swapAt := func(r *ring.Ring, a, b ring.Poly, i, j int) bool {
		d := false
		for l := 0; l <= r.Level(); l++ {
			d = d || a.Coeffs[l][i] != b.Coeffs[l][j]
			a.Coeffs[l][i], b.Coeffs[l][j] = b.Coeffs[l][j], a.Coeffs[l][i]
		}
		return d
	}
	pairs := func(kind string, onlyTail bool, r *ring.Ring, n int, get func(f arg, i int) ring.Poly) {
		self := arg{x, coms(A), y, pf}
		for k := 0; k < t.cfg.pick(3, 12) && n > 0; k++ {
			i, j := t.R.Intn(n), t.R.Intn(n)
			a, b := t.R.Intn(N), t.R.Intn(N)
			l := t.R.Intn(r.Level() + 1)
			if i != j {
				two(fmt.Sprintf("%s %d and %d shifted against each other", kind, i, j), onlyTail, func(f arg) {
					bump(r, get(f, i), l, a, 1)
					bump(r, get(f, j), l, a, r.SubRings[l].Modulus-1)
				})
				if !r.Equal(get(self, i), get(self, j)) {
					two(fmt.Sprintf("%s %d and %d exchanged", kind, i, j), onlyTail, func(f arg) {
						for a := 0; a < N; a++ {
							swapAt(r, get(f, i), get(f, j), a, a)
						}
					})
				}
			}
			if i != j || a != b {
				two(fmt.Sprintf("%s %d and %d: coefficients shifted against each other", kind, i, j), onlyTail, func(f arg) {
					bump(r, get(f, i), l, a, 1)
					bump(r, get(f, j), l, b, r.SubRings[l].Modulus-1)
				})
				if get(self, i).Coeffs[l][a] != get(self, j).Coeffs[l][b] {
					two(fmt.Sprintf("%s %d and %d: coefficients exchanged", kind, i, j), onlyTail, func(f arg) { swapAt(r, get(f, i), get(f, j), a, b) })
				}
			}
		}
	}
	pairs("partial evaluations and mask", true, pr.RingQ(), len(pf.Partial)+1, func(f arg, i int) ring.Poly {
		if i == len(f.f.Partial) {
			return f.f.PartialMask
		}
		return f.f.Partial[i]
	})
	if nc := len(A[0].com.Value); nc > 0 {
		pairs("commitment components", false, pr.RingQOut(), nc*b, func(f arg, i int) ring.Poly { return f.cs[i/nc].Value[i%nc] })
	}
	for i := 0; i < b; i++ {
		j := t.R.Intn(b)
		two("claimed value and point shifted against each other", false, func(f arg) {
			f.y[i].Add(f.y[i], fi[E](1))
			f.x.Sub(f.x, fi[E](1))
		})
		two("claimed value and point exchanged", false, func(f arg) {
			z := cp(f.x)
			f.x.Set(f.y[i])
			f.y[i].Set(z)
		})
		if i != j {
			two("claimed values shifted against each other", false, func(f arg) {
				f.y[i].Add(f.y[i], fi[E](1))
				f.y[j].Sub(f.y[j], fi[E](1))
			})
			two("claimed values exchanged", false, func(f arg) { f.y[i], f.y[j] = f.y[j], f.y[i] })
		}
	}
	// sparse statements and messages: any two of them must give different challenges
	sparse := func(from, n int, f func(k int, a arg) string) {
		seen, done := map[string]string{}, map[string]bool{}
		for k := 0; k < n; k++ {
			x, cs, y, pf, v := same()
			a := arg{x, cs, y, pf}
			name := f(k, a)
			if name == "" || done[name] {
				continue
			}
			done[name] = true
			startInstr()
			try(func() { v.Verify(x, cs, y, pf) })
			got := blocks(xofReads())
			resetInstr()
			if len(got) != len(rb) {
				t.N("transcript_incomplete", 1)
				continue
			}
			t.Eval(what + "/sparse/" + name)
			t.N("sparse_transcripts", 1)
			for i := from; i < len(got); i++ {
				if o, ok := seen[string(got[i])]; ok {
					t.Viol("insensitive", "%s: challenge %d of %d is the same for %s and for %s", what, i, len(rb), o, name)
				}
				seen[string(got[i])] = name
			}
		}
	}
	val := func(k int) *big.Int {
		if k%2 == 0 {
			return big.NewInt(1)
		}
		return new(big.Int).Lsh(big.NewInt(1), uint(t.R.Intn((s.q.BitLen()-1)/8))*8)
	}
	sparse(0, 12+4*min(b, 4), func(k int, a arg) string {
		a.x.Sub(a.x, a.x)
		for i := range a.y {
			a.y[i].Sub(a.y[i], a.y[i])
		}
		if k == 0 {
			return "point and claimed values zero"
		}
		i, v := []int{-1, 0, b - 1, t.R.Intn(b)}[k%4], val(k/4)
		if i < 0 {
			a.x.Set(fe[E](v))
		} else {
			a.y[i].Set(fe[E](v))
		}
		return fmt.Sprintf("only value %d (-1: the point) nonzero, %s", i, v)
	})
	only := func(from, n, tot int, kind string, r *ring.Ring, get func(f arg, i int) ring.Poly) {
		sparse(from, n, func(k int, f arg) string {
			for i := 0; i < tot; i++ {
				get(f, i).Zero()
			}
			if k == 0 || tot == 0 {
				return kind + " zero"
			}
			i, l, x := []int{0, tot - 1, t.R.Intn(tot)}[t.R.Intn(3)], t.R.Intn(r.Level()+1), []int{0, 1, N - 1, t.R.Intn(N)}[t.R.Intn(4)]
			v := uint64(1) << uint(8*t.R.Intn(6))
			get(f, i).Coeffs[l][x] = v
			return fmt.Sprintf("only %s %d, limb %d, entry %d nonzero, %d", kind, i, l, x, v)
		})
	}
	only(len(rb)-tail, t.cfg.pick(12, 40), len(pf.Partial)+1, "partial evaluation", pr.RingQ(), func(f arg, i int) ring.Poly {
		if i == len(f.f.Partial) {
			return f.f.PartialMask
		}
		return f.f.Partial[i]
	})
	if nc := len(A[0].com.Value); nc > 0 {
		only(0, t.cfg.pick(12, 40), nc*b, "commitment component", pr.RingQOut(), func(f arg, i int) ring.Poly { return f.cs[i/nc].Value[i%nc] })
	}
	t.Sample("%s: %d challenge blocks compared under %d changes", what, len(rb), t.ctr["transcripts_compared"])
}

// influence alters the output of the transcript's XOF byte by byte and observes which alterations reach the proof:
// the challenges cannot carry more entropy than those bytes.
func (s *suite[E]) influence(t *T, n, b int) {
	p := s.newPCS(n, b, []byte("influence"))
	pr := p.params
	what := cfgStr(s.name, n, b)
	var A []committed[E]
	for i := 0; i < b; i++ {
		A = append(A, p.commit(s.rndv(t.R, pr.Rank())))
	}
	x := s.rnd(t.R)
	defer resetInstr()
	// run makes the proof with the bytes at the given positions of the XOF output altered, and counts the output.
	run := func(at map[int]byte) (*jindo.Proof, int) {
		off := 0
		sha3.VerifTrace = func(op string, _ uintptr, d []byte) {
			if op != "read" {
				return
			}
			for i := range d {
				if v, ok := at[off+i]; ok {
					d[i] ^= v
				}
			}
			off += len(d)
		}
		_, pf := p.evaluate(x, A)
		sha3.VerifTrace = nil
		return pf, off
	}
	print := func(f *jindo.Proof) string {
		h := sha256.New()
		for _, ps := range [][]ring.Poly{f.InCommit, f.Encode, f.MLWE} {
			for _, q := range ps {
				for l := range q.Coeffs {
					for _, c := range q.Coeffs[l] {
						binary.Write(h, binary.LittleEndian, c)
					}
				}
			}
		}
		return string(h.Sum(nil))
	}
	pf, tot := run(nil)
	pf2, _ := run(nil)
	base := print(pf)
	if base != print(pf2) || tot == 0 {
		t.N("opening_not_repeatable", 1)
		return
	}
	per := float64(pr.Exp()) * math.Log2(float64(2*pr.ChallengeBound()+1))
	nch := pr.Cols()
	if b > 1 {
		nch += b
	}
	if minSet := math.Min(100, float64(s.q.BitLen()-8)); per < minSet {
		t.Viol("challenge-entropy", "%s: the challenge set has only 2^%.1f elements", what, per)
	}
	seen := map[string]bool{base: true}
	inf := 0
	for i := 0; i < tot; i++ {
		f, _ := run(map[int]byte{i: byte(1 + t.R.Intn(255))})
		t.Eval(fmt.Sprint(what, "/influence", i))
		k := print(f)
		if !seen[k] {
			inf++
		}
		seen[k] = true
	}
	t.N("xof_bytes", tot)
	t.N("influential_bytes", inf)
	if float64(8*inf) < float64(nch)*(per-8) {
		t.Viol("challenge-entropy", "%s: %d challenges from a set of 2^%.1f elements depend on only %d bytes of the transcript hash", what, nch, per, inf)
	}
	// Alterations of two halves of a block together.
	for i := 0; i+16 <= tot; i += 16 {
		for r := 0; r < 2; r++ {
			at := map[int]byte{}
			for j := 0; j < 8; j++ {
				v := byte(1 + t.R.Intn(255))
				at[i+j] = v
				at[i+8+j] = v
			}
			f, _ := run(at)
			t.Eval(fmt.Sprint(what, "/halves", i, r))
			k := print(f)
			if seen[k] {
				t.Viol("challenge-entropy", "%s: altering both halves of hash block %d alike leaves the proof unchanged", what, i/16)
			}
			seen[k] = true
		}
	}
	t.Sample("%s: %d of %d hash bytes influence %d challenges from a set of 2^%.1f", what, inf, tot, nch, per)
}

// chalRange solves for the challenge of single-column openings and checks its range and variety.
func (s *suite[E]) chalRange(t *T) {
	n := 1
	var p *pcs[E]
	for ; n < 400; n += 13 {
		q := s.newPCS(n, 1, []byte("range"))
		if q.params.Cols() == 1 {
			p = q
			if n > 100 {
				break
			}
		}
	}
	if p == nil {
		t.N("no_single_column_parameters", 1)
		return
	}
	pr := p.params
	r := pr.RingQ()
	row := pr.Rows() - 1
	bound := new(big.Int).SetUint64(pr.ChallengeBound())
	hist := map[int64]int{}
	all := map[string]bool{}
	bits := make([]int, 4) // high/low, sign
	cnt := 0
	reps := t.cfg.pick(24, 200)
	for it := 0; it < reps; it++ {
		c := p.commit(s.rndv(t.R, 1+t.R.Intn(pr.Rank())))
		for e := 0; e < 2; e++ {
			x := s.rnd(t.R)
			_, pf := p.evaluate(x, []committed[E]{c})
			// pf.Encode = mask + chal * data, slotwise in NTT form
			num := r.NewPoly()
			r.Sub(pf.Encode[row], c.open.Encode[1][row], num)
			ch := r.NewPoly()
			okAll := true
			for l := range r.SubRings {
				m := new(big.Int).SetUint64(r.SubRings[l].Modulus)
				for i := range num.Coeffs[l] {
					d := new(big.Int).ModInverse(new(big.Int).SetUint64(c.open.Encode[0][row].Coeffs[l][i]), m)
					if d == nil {
						okAll = false
						break
					}
					d.Mul(d, new(big.Int).SetUint64(num.Coeffs[l][i]))
					ch.Coeffs[l][i] = d.Mod(d, m).Uint64()
				}
			}
			if !okAll {
				t.N("not_invertible", 1)
				continue
			}
			// the quotient of Montgomery forms is the plain value
			r.MForm(ch, ch)
			co := polyBig(r, ch)
			t.Eval(fmt.Sprint("chal", it, e))
			t.N("challenges_solved", 1)
			key := ""
			for i, v := range co {
				if i%pr.Slots() != 0 {
					if v.Sign() != 0 {
						t.Viol("challenge-form", "challenge has a coefficient at %d outside the multiples of %d", i, pr.Slots())
						return
					}
					continue
				}
				if new(big.Int).Abs(v).Cmp(bound) > 0 {
					t.Viol("challenge-bound", "challenge coefficient %s exceeds the advertised bound %s", v, bound)
					return
				}
				hist[v.Int64()]++
				key += v.String() + ","
				cnt++
				if v.Sign() > 0 {
					bits[0]++
				} else if v.Sign() < 0 {
					bits[1]++
				}
				if new(big.Int).Abs(v).Cmp(new(big.Int).Rsh(bound, 1)) > 0 {
					bits[2]++
				}
			}
			all[key] = true
		}
	}
	if cnt == 0 {
		return
	}
	if len(all) < reps*2-t.ctr["not_invertible"] {
		t.Viol("challenge-entropy", "only %d different challenges in %d proofs", len(all), reps*2)
	}
	// Collision entropy per coefficient: the whole challenge must have at least 60 bits.
	var coll float64
	for _, h := range hist {
		coll += float64(h) * float64(h-1)
	}
	coll /= float64(cnt) * float64(cnt-1)
	t.N("challenge_coefficients", cnt)
	if k := float64(pr.Exp()); coll > 0 && k*-log2f(coll) < 60 {
		t.Viol("challenge-entropy", "estimated challenge entropy %.1f bits", k*-log2f(coll))
	}
	t.Sample("rank %d: %d coefficients within %s, %d values, %d positive %d negative", pr.Rank(), cnt, bound, len(hist), bits[0], bits[1])
}
