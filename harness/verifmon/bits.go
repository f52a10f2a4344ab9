package main

import (
	"bytes"
	"fmt"

	"github.com/sp301415/ringo-snark/buckler"
	"github.com/sp301415/ringo-snark/math/bignum"
)

// chkSpy records the vectors that a linear map is given to transpose.
type chkSpy[E bignum.Uint[E]] struct {
	buckler.LinearChecker[E]
	seen *[][]E
}

func (c chkSpy[E]) TransposeTo(o, v []E) {
	*c.seen = append(*c.seen, cpv(v))
	c.LinearChecker.TransposeTo(o, v)
}

// bkBits demands that every bit of every challenge counts: the verifier is shown an honest proof and its own
// challenges, of which one has one bit changed. A challenge of which only a part is used leaves it accepting.
func (s *suite[E]) bkBits(t *T, rank, mix int) {
	b := s.bkStmt(t, rank, -1)
	if mix >= 0 {
		b = s.builder(t.R, rank)
		b.mixed(mix)
	}
	in, err := s.compile(b.sp, fmt.Sprint("bits", mix))
	if err != nil {
		t.Viol("compile", "%v", err)
		return
	}
	what := s.name + " " + b.sp.detail()
	pf, names, ch, err := in.proveTraced(b.v)
	if err != nil {
		t.Viol("reject", "%s: prover error %v", what, err)
		return
	}
	run := func(name string, val []byte) bool {
		startInstr()
		fsForced = map[string][]byte{}
		for n, c := range ch {
			fsForced[n] = c
		}
		fsForced[name] = val
		ok := false
		try(func() { ok = in.verify(b.v, pf) })
		resetInstr()
		return ok
	}
	if !in.verify(b.v, pf) {
		t.Viol("reject", "%s: honest proof rejected", what)
		return
	}
	if len(names) == 0 {
		t.N("transcript_not_observed", 1)
		return
	}
	for _, n := range names {
		if !run(n, ch[n]) {
			t.N("replay_of_challenges_not_accepted", 1)
			return
		}
		val := make([]byte, len(ch[n]))
		t.R.Read(val)
		if run(n, val) {
			t.N("challenge_without_effect", 1)
			continue
		}
		t.N("challenges_with_effect", 1)
		for i := range val {
			for bit := 0; bit < 8; bit++ {
				if bit != int(val[i])%8 && !(t.cfg.Thorough && mix >= 0) {
					continue
				}
				x := bytes.Clone(ch[n])
				x[i] ^= 1 << bit
				t.Eval(fmt.Sprint(what, n, i, bit))
				t.N("challenge_bits_changed", 1)
				if run(n, x) {
					t.Viol("bit", "%s: byte %d bit %d of challenge %s has no effect on the verifier", what, i, bit, n)
					return
				}
			}
		}
	}
	t.Sample("%s: every changed bit of %v made the verifier reject", b.sp, names)
}

func bitCases(cfg Cfg, mixes ...int) []Case {
	var cs []Case
	for k := 0; k < cfg.pick(3, 12); k++ {
		for _, mix := range mixes {
			f := bkFields[(k+mix)%len(bkFields)]
			rank := []int{4, 2, 8, 16}[k%4]
			cs = append(cs, Case{Name: fmt.Sprintf("bits/%s/mix%d/%d", f, mix, k), Run: func(t *T) { field(f).S.bkBits(t, rank, mix) }})
		}
	}
	return cs
}

// linSpread observes the vector with which linear constraints are combined: in several proofs of one statement
// no entry may stay in a small set.
func (s *suite[E]) linSpread(t *T, rank int) {
	b := s.builder(t.R, rank)
	b.lin(b.sec(b.vec(0)), b.chk("id"))
	seen := &[][]E{}
	mk := func(sec bool) *circ[E] {
		c := s.assigned(b.sp, b.v, sec)
		c.Def = func(ctx *buckler.Context[E], c *circ[E]) {
			ctx.AddLinearConstraint(c.Sec[1], c.Sec[0], &chkSpy[E]{s.makeChk("id", rank), seen})
		}
		return c
	}
	prv, vrf, err := buckler.Compile[E](rank, mk(false), []byte("spread"))
	if err != nil {
		t.Viol("compile", "%v", err)
		return
	}
	n := t.cfg.pick(6, 12)
	var vs [][]E
	for i := 0; i < n; i++ {
		pf, err := prv.Prove(mk(true))
		*seen = nil
		if err != nil || !vrf.Verify(mk(false), pf) {
			t.Viol("reject", "%s: honest proof rejected", s.name)
			return
		}
		t.Eval(fmt.Sprint(s.name, rank, "proof", i))
		vs = append(vs, (*seen)...)
	}
	t.N("combining_vectors_seen", len(vs))
	if len(vs) != n {
		t.N("combining_vectors_not_one_per_proof", 1)
		return
	}
	lim := min(256, s.q.BitLen()) - 24
	for j := range vs[0] {
		top, same, rep := 0, 0, map[string]bool{}
		for i := range vs {
			x := bi(vs[i][j])
			top = max(top, min(x.BitLen(), x.Sub(s.q, x).BitLen()))
			if eqv(vs[i][j:j+1], vs[0][j:j+1]) {
				same++
			}
			rep[string(vs[i][j].Marshal())] = true
		}
		if same == n {
			t.N("constant_entries", 1)
			if j > 1 {
				t.Viol("constant", "%s rank %d: entry %d of the vector combining linear constraints is the same in all proofs", s.name, rank, j)
			}
			continue
		}
		if top < lim || len(rep) < n {
			t.Viol("spread", "%s rank %d: entry %d of the vector combining linear constraints has at most %d bits and %d values in %d proofs", s.name, rank, j, top, len(rep), n)
		}
	}
}

func spreadCases(cfg Cfg) []Case {
	var cs []Case
	for _, f := range bkFields {
		for _, rank := range []int{8, 2, 32} {
			cs = append(cs, Case{Name: fmt.Sprintf("spread/%s/r%d", f, rank), Run: func(t *T) { field(f).S.linSpread(t, rank) }})
		}
	}
	return cs
}
