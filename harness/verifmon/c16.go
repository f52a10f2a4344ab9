package main

import (
	"bytes"
	"fmt"
	"math/big"

	"github.com/sp301415/ringo-snark/buckler"
	"github.com/sp301415/ringo-snark/jindo"
	"github.com/tuneinsight/lattigo/v6/ring"
)

func init() {
	registry["C16"] = func(cfg Cfg) []Case {
		return append(wideCases(cfg, "bind"), bindCases(cfg, "bind", 21, 210, Suite.bkBind)...)
	}
	registry["C17"] = func(cfg Cfg) []Case {
		cs := append(wideCases(cfg, "chal"), append(bindCases(cfg, "chal", 21, 210, Suite.bkChal), bitCases(cfg, 31, 7)...)...)
		for i, f := range []string{"zp220", "zp110"} {
			if i < cfg.pick(1, 2) {
				cs = append(cs, Case{Name: "chal/apx/" + f, Run: func(t *T) { field(f).S.bkChal(t, 2048, -1) }})
			}
		}
		return cs
	}
	registry["C18"] = func(cfg Cfg) []Case {
		cs := append(wideCases(cfg, "tamper"), bindCases(cfg, "tamper", 21, 210, Suite.bkTamper)...)
		for i, f := range []string{"zp220", "zp110"} {
			if i < cfg.pick(1, 2) {
				cs = append(cs, Case{Name: "tamper/apx/" + f, Run: func(t *T) { field(f).S.bkTamper(t, 2048, -1) }})
			}
		}
		return cs
	}
}

func bindCases(cfg Cfg, kind string, q, th int, run func(s Suite, t *T, rank, k int)) []Case {
	var cs []Case
	ranks := []int{8, 4, 16, 2, 32, 1, 64}
	for k := 0; k < cfg.pick(q, th); k++ {
		f := bkFields[k%len(bkFields)]
		rank := ranks[(k+k/7)%len(ranks)]
		cs = append(cs, Case{Name: fmt.Sprintf("%s/%s/r%d/%d", kind, f, rank, k), Run: func(t *T) { run(field(f).S, t, rank, k) }})
	}
	return cs
}

// mixed builds a circuit with the kinds of constraints given by the bits of mix, using public vectors in all of them.
func (b *bld[E]) mixed(mix int) {
	one := big.NewInt(1)
	r := b.r
	for i := 0; i < 3; i++ {
		b.pub(b.vec(r.Intn(3)))
		b.sec(b.vec(r.Intn(3)))
	}
	if mix&1 != 0 {
		// a public vector equal to a secret one: both can change together
		p := b.pub(b.vec(0))
		b.arith([]term{{one, p, nil}}, false)
		b.arith([]term{{one, 0, []int{0}}, {one, 1, []int{1}}, {b.coef(), 2, nil}}, false)
		b.arith([]term{{one, 0, nil}, {one, 1, nil}, {one, 2, nil}, {b.coef(), -1, []int{2, 1}}}, r.Intn(2) == 0)
		b.arith(b.terms(2, 2), false)
	}
	if mix&2 != 0 {
		c := b.randChk()
		b.lin(0, c)
		b.lin(1, c)
		b.lin(2, b.randChk())
	}
	if mix&4 != 0 {
		b.sum([]term{{one, 0, []int{1}}, {one, 1, []int{0}}})
		b.sum([]term{{b.coef(), 2, nil}, {one, 1, nil}, {one, -1, []int{0, 1}}})
	}
	if mix&8 != 0 {
		b.norm("inf", big.NewInt([]int64{1, 2, 5, 12}[r.Intn(4)]))
	}
	if mix&16 != 0 {
		m := min(b.sp.rank, 12)
		b.norm("two", big.NewInt(r.Int63n(1<<m)))
	}
	if r.Intn(2) == 0 {
		b.sp.shuffle = r.Int63() | 1
	}
}

var mixes = []int{31, 1, 4, 7, 3, 6, 2, 5, 8, 16, 9, 18, 28}

func (s *suite[E]) bkStmt(t *T, rank, k int) *bld[E] {
	b := s.builder(t.R, rank)
	if k < 0 {
		b.pub(b.vec(0))
		b.sec(b.vec(0))
		b.arith([]term{{big.NewInt(1), 0, []int{0}}}, false)
		b.sum([]term{{big.NewInt(1), 0, []int{0}}})
		b.norm("apx", big.NewInt(1))
		return b
	}
	b.mixed(mixes[k%len(mixes)])
	return b
}

// proveTraced proves and returns the challenges.
func (b *binst[E]) proveTraced(v vals) (*buckler.Proof[E], []string, map[string][]byte, error) {
	startInstr()
	pf, err := b.prove(v)
	n, c := challenges()
	resetInstr()
	return pf, n, c, err
}

// ---- C16

func (s *suite[E]) bkBind(t *T, rank, k int) {
	b := s.bkStmt(t, rank, k)
	crs := string(crsBase(t.R, max(k, 0)))
	in, err := s.compile(b.sp, crs)
	if err != nil {
		t.Viol("compile", "%v", err)
		return
	}
	what := s.name + " " + b.sp.detail()
	pf, _, ch, err := in.proveTraced(b.v)
	if err != nil || !in.verify(b.v, pf) {
		t.Viol("reject", "%s: honest proof rejected (%v)", what, err)
		return
	}
	q := s.q
	rej := func(kind string, f func(v *vals)) {
		v := b.v.clone()
		f(&v)
		same := true
		for i := range v.pub {
			for j := range v.pub[i] {
				v.pub[i][j].Mod(v.pub[i][j], q)
				same = same && v.pub[i][j].Cmp(b.v.pub[i][j]) == 0
			}
		}
		if same {
			t.N("ineffective_changes", 1)
			return
		}
		t.Eval(what + "/" + kind)
		t.N("public_inputs_changed", 1)
		ok := false
		if p := try(func() { ok = in.verify(v, pf) }); p != nil {
			t.Viol("panic", "%s: %s: verifier panicked: %v", what, kind, p)
		} else if ok {
			t.Viol("accepted", "%s: accepted with other public inputs: %s", what, kind)
		}
	}
	nz := func() *big.Int { return bi(s.rndNZ(t.R)) }
	nPub := len(b.v.pub)
	for i := 0; i < nPub; i++ {
		rows := uniq(0, rank-1, t.R.Intn(rank), t.R.Intn(rank))
		if t.cfg.Thorough || rank <= 8 {
			rows = rows[:0]
			for j := 0; j < rank; j++ {
				rows = append(rows, j)
			}
		}
		for _, j := range rows {
			d := []*big.Int{big.NewInt(1), big.NewInt(-1), nz(), new(big.Int).Lsh(big.NewInt(1), uint(t.R.Intn(q.BitLen())))}[t.R.Intn(4)]
			rej(fmt.Sprintf("vector %d row %d plus %s", i, j, d), func(v *vals) { v.pub[i][j].Add(v.pub[i][j], d) })
		}
		rej(fmt.Sprintf("vector %d zero", i), func(v *vals) {
			for j := range v.pub[i] {
				v.pub[i][j].SetInt64(0)
			}
		})
		rej(fmt.Sprintf("vector %d negated", i), func(v *vals) {
			for j := range v.pub[i] {
				v.pub[i][j].Neg(v.pub[i][j])
			}
		})
		if rank > 1 {
			a, c := t.R.Intn(rank), t.R.Intn(rank)
			rej(fmt.Sprintf("vector %d rows %d and %d exchanged", i, a, c), func(v *vals) { v.pub[i][a], v.pub[i][c] = v.pub[i][c], v.pub[i][a] })
			rej(fmt.Sprintf("vector %d rotated", i), func(v *vals) { v.pub[i] = append(v.pub[i][1:], v.pub[i][0]) })
		}
		for j := 0; j < i; j++ {
			rej(fmt.Sprintf("vectors %d and %d exchanged", i, j), func(v *vals) { v.pub[i], v.pub[j] = v.pub[j], v.pub[i] })
			row := t.R.Intn(rank)
			for _, row := range uniq(0, rank-1, row) {
				// the sum of the vectors stays as it is
				rej(fmt.Sprintf("row %d moved from vector %d to %d", row, i, j), func(v *vals) {
					d := nz()
					v.pub[i][row].Add(v.pub[i][row], d)
					v.pub[j][row].Sub(v.pub[j][row], d)
				})
			}
			rej(fmt.Sprintf("vectors %d and %d joined and split elsewhere", i, j), func(v *vals) {
				all := append(append([]*big.Int{}, v.pub[j]...), v.pub[i]...)
				all = append(all[1:], all[0])
				v.pub[j], v.pub[i] = all[:rank], all[rank:]
			})
		}
	}
	// changes chosen after the evaluation point is known: the changed vectors take the same values there
	if zb, ok := ch["evalPoint"]; ok && rank > 1 {
		z := new(big.Int).Mod(bi(newE[E]().SetBytes(zb)), q)
		L := s.lagrange(rank, z)
		for i := 0; i < nPub; i++ {
			for _, pr := range [][2]int{{0, rank - 1}, {0, 1}, {t.R.Intn(rank), t.R.Intn(rank)}, {rank - 2, rank - 1}, {t.R.Intn(rank), rank - 1}} {
				a, c := pr[0], pr[1]
				if a == c {
					continue
				}
				x := nz()
				y := new(big.Int).ModInverse(L[c], q)
				if y == nil {
					continue
				}
				y.Mul(y, L[a]).Mul(y, x).Neg(y)
				rej(fmt.Sprintf("vector %d rows %d and %d, value at the evaluation point kept", i, a, c), func(v *vals) {
					v.pub[i][a].Add(v.pub[i][a], x)
					v.pub[i][c].Add(v.pub[i][c], y)
				})
				t.N("changes_fitted_to_the_challenges", 1)
			}
			// every row changes
			rej(fmt.Sprintf("vector %d, value at the evaluation point kept", i), func(v *vals) {
				acc := new(big.Int)
				for j := 0; j < rank-1; j++ {
					x := nz()
					acc.Add(acc, new(big.Int).Mul(x, L[j]))
					v.pub[i][j].Add(v.pub[i][j], x)
				}
				y := new(big.Int).ModInverse(L[rank-1], q)
				if y == nil {
					y = new(big.Int)
				}
				v.pub[i][rank-1].Sub(v.pub[i][rank-1], y.Mul(y, acc))
			})
			t.N("changes_fitted_to_the_challenges", 1)
		}
	} else if !ok {
		t.N("transcript_not_observed", 1)
	}
	// other reference strings
	for _, d := range crsVariants(t.R, in.crs) {
		_, vrf, err := buckler.Compile[E](b.sp.rank, s.circuit(b.sp), d)
		t.Eval(fmt.Sprintf("%s/crs %x", what, d))
		t.N("reference_strings_changed", 1)
		if err == nil && vrf.Verify(s.assigned(b.sp, b.v, false), pf) {
			t.Viol("accepted", "%s: accepted under another reference string %q", what, d)
		}
	}
	// other circuits of the same shape, fixed in advance
	for _, o := range b.variants() {
		w, err := s.compile(o.sp, crs)
		if err != nil {
			t.N("variants_refused", 1)
			continue
		}
		t.Eval(what + "/" + o.how)
		t.N("other_circuits", 1)
		ok := false
		if p := try(func() { ok = w.verify(b.v, pf) }); p != nil {
			t.N("other_circuit_shapes", 1)
		} else if ok {
			t.Viol("accepted", "%s: accepted for another circuit: %s", what, o.how)
		}
	}
	if !in.verify(b.v, pf) {
		t.Viol("reject", "%s: proof rejected after the attacks", what)
	}
	t.Sample("%s: %d changes of public inputs, %d other circuits, all rejected", b.sp, t.ctr["public_inputs_changed"], t.ctr["other_circuits"])
}

// lagrange returns the values at z of the polynomials that encode the unit vectors.
func (s *suite[E]) lagrange(rank int, z *big.Int) []*big.Int {
	ev := newNTT[E](true, rank)
	o := make([]*big.Int, rank)
	for i := range o {
		u := zerov[E](rank)
		u[i].SetInt64(1)
		ev.InvNTTTo(u, u)
		o[i] = hornerBig(biv(u), z, s.q)
	}
	return o
}

type variant struct {
	how string
	sp  *spec
}

// variants returns circuits that differ in one place and are violated by the assignment or not equivalent.
func (b *bld[E]) variants() []variant {
	var o []variant
	r := b.r
	q := b.s.q
	cl := func() *spec {
		c := *b.sp
		c.arith = nil
		for _, a := range b.sp.arith {
			c.arith = append(c.arith, append([]term(nil), a...))
		}
		c.sums = nil
		for _, a := range b.sp.sums {
			c.sums = append(c.sums, sumC{append([]term(nil), a.ts...), new(big.Int).Set(a.sum), a.api})
		}
		c.chks = append([]string(nil), b.sp.chks...)
		c.lins = append([]linC(nil), b.sp.lins...)
		c.norms = append([]normC(nil), b.sp.norms...)
		return &c
	}
	add := func(how string, c *spec) { o = append(o, variant{how, c}) }
	terms := func(kind string, n int, get func(c *spec, i int) []term) {
		for i := 0; i < n; i++ {
			if len(get(b.sp, i)) == 0 {
				continue
			}
			j := r.Intn(len(get(b.sp, i)))
			c := cl()
			t := &get(c, i)[j]
			t.c = new(big.Int).Mod(new(big.Int).Add(t.c, big.NewInt(1)), q)
			add(fmt.Sprintf("coefficient of term %d of %s %d", j, kind, i), c)
			if t := get(b.sp, i)[j]; t.pub >= 0 {
				c := cl()
				get(c, i)[j].pub = (t.pub + 1) % b.sp.nPub
				if b.sp.nPub > 1 {
					add(fmt.Sprintf("public vector of term %d of %s %d", j, kind, i), c)
				}
			}
			if t := get(b.sp, i)[j]; len(t.wit) > 0 && b.sp.nSec > 1 {
				c := cl()
				w := append([]int(nil), t.wit...)
				w[0] = (w[0] + 1) % b.sp.nSec
				get(c, i)[j].wit = w
				add(fmt.Sprintf("witness of term %d of %s %d", j, kind, i), c)
			}
		}
	}
	terms("arithmetic constraint", len(b.sp.arith), func(c *spec, i int) []term { return c.arith[i] })
	terms("sum constraint", len(b.sp.sums), func(c *spec, i int) []term { return c.sums[i].ts })
	for i := range b.sp.sums {
		c := cl()
		c.sums[i].sum.Add(c.sums[i].sum, big.NewInt(1))
		add(fmt.Sprintf("declared sum %d", i), c)
	}
	for i, l := range b.sp.lins {
		c := cl()
		c.lins[i].in = (l.in + 1) % b.sp.nSec
		add(fmt.Sprintf("input of linear constraint %d", i), c)
	}
	for i := range b.sp.chks {
		c := cl()
		c.chks[i] = "mat:777"
		if len(b.sp.lins) > 0 && len(b.violatedBy(c)) > 0 {
			add(fmt.Sprintf("map %d", i), c)
		}
	}
	for i, n := range b.sp.norms {
		d := new(big.Int).Add(n.b, big.NewInt(1))
		if n.kind != "apx" && n.b.Sign() > 0 && d.BitLen() == n.b.BitLen() {
			c := cl()
			c.norms[i].b = d
			if n.b.BitLen() > 1 {
				add(fmt.Sprintf("bound %d", i), c)
			}
		}
	}
	// only circuits that mean something else
	var keep []variant
	for _, v := range o {
		if len(b.violatedBy(v.sp)) > 0 || v.how[:5] == "bound" {
			keep = append(keep, v)
		}
	}
	return keep
}

func (b *bld[E]) violatedBy(sp *spec) []string { return b.s.violated(sp, b.v) }

// ---- C17

func (s *suite[E]) bkChal(t *T, rank, k int) {
	b := s.bkStmt(t, rank, k)
	in, err := s.compile(b.sp, fmt.Sprint("chal", k))
	if err != nil {
		t.Viol("compile", "%v", err)
		return
	}
	what := s.name + " " + b.sp.detail()
	pf, names, pch, err := in.proveTraced(b.v)
	if err != nil {
		t.Viol("reject", "%s: prover error %v", what, err)
		return
	}
	run := func(v vals, pf *buckler.Proof[E]) (map[string][]byte, bool) {
		startInstr()
		ok := false
		try(func() { ok = in.verify(v, pf) })
		_, c := challenges()
		resetInstr()
		return c, ok
	}
	ref, ok := run(b.v, pf)
	if !ok {
		t.Viol("reject", "%s: honest proof rejected", what)
		return
	}
	if len(names) == 0 || len(ref) == 0 {
		t.N("transcript_not_observed", 1)
		return
	}
	t.Eval(what + "/agree")
	t.N("transcripts_compared", 1)
	seen := map[string]string{}
	for _, n := range names {
		if !bytes.Equal(ref[n], pch[n]) {
			t.Viol("disagree", "%s: prover and verifier derive different %s", what, n)
		}
		if o := seen[string(pch[n])]; o != "" {
			t.Viol("repeated", "%s: %s equals %s", what, n, o)
		}
		seen[string(pch[n])] = n
	}
	// the order in which the protocol uses the challenges
	idx := map[string]int{}
	order := []string{}
	for _, n := range []string{"projConst", "arithBatchConst", "linCheckBatchConst", "linCheckConst", "sumCheckBatchConst", "evalPoint"} {
		if _, ok := ref[n]; ok {
			idx[n] = len(order)
			order = append(order, n)
		}
	}
	if len(order) < len(ref) {
		t.N("unknown_challenges", len(ref)-len(order))
	}
	probe := func(name, from string, f func(v *vals, pf *buckler.Proof[E])) {
		i, ok := idx[from]
		if !ok {
			t.N("challenge_absent", 1)
			return
		}
		v, p := b.v.clone(), cpBProof(pf)
		f(&v, p)
		got, ok := run(v, p)
		t.Eval(what + "/" + name)
		t.N("transcripts_compared", 1)
		if ok {
			t.Viol("accepted", "%s: accepted after a change of %s", what, name)
		}
		for _, c := range order[i:] {
			if g, ok := got[c]; !ok {
				t.N("challenges_not_reached", 1)
			} else if bytes.Equal(g, ref[c]) {
				t.Viol("insensitive", "%s: %s does not depend on %s", what, c, name)
			} else {
				t.N("challenges_changed", 1)
			}
		}
		for _, c := range order[:i] {
			if g, ok := got[c]; ok && !bytes.Equal(g, ref[c]) {
				t.N("changed_early", 1)
			}
		}
	}
	for i := range b.v.pub {
		rows := uniq(0, rank-1, t.R.Intn(rank), t.R.Intn(rank))
		for _, j := range rows {
			probe(fmt.Sprintf("public vector %d row %d", i, j), order[0], func(v *vals, _ *buckler.Proof[E]) {
				d := new(big.Int).Lsh(big.NewInt(1), uint(t.R.Intn(s.q.BitLen()-1)))
				v.pub[i][j].Add(v.pub[i][j], d).Mod(v.pub[i][j], s.q)
			})
		}
		if rank > 1 && b.v.pub[i][0].Cmp(b.v.pub[i][rank-1]) != 0 {
			probe(fmt.Sprintf("order of public vector %d", i), order[0], func(v *vals, _ *buckler.Proof[E]) {
				v.pub[i][0], v.pub[i][rank-1] = v.pub[i][rank-1], v.pub[i][0]
			})
		}
	}
	// commitments: the round of each is learned from the hooks and counts of an honest run
	nW := len(pf.Witness)
	rnd := s.rounds(t, in, b.v, pf)
	r := in.prv.JindoParams.RingQOut()
	N := r.N()
	for i := 0; i < nW; i++ {
		for c := range pf.Witness[i].Value {
			ls := uniq(0, r.Level(), t.R.Intn(r.Level()+1))
			for _, l := range ls {
				for _, x := range uniq(0, N-1, t.R.Intn(N)) {
					if p := t.R.Intn(12); !t.cfg.Thorough && !(c == 0 && x == 0) && p > 3 || k < 0 && p > 0 {
						continue
					}
					probe(fmt.Sprintf("commitment %d component %d limb %d (%s)", i, c, l, rnd[i]), rnd[i], func(_ *vals, p *buckler.Proof[E]) {
						bump(r, p.Witness[i].Value[c], l, x, 1+t.R.Uint64()>>1)
					})
				}
			}
		}
		if i > 0 && rnd[i] == rnd[i-1] {
			probe(fmt.Sprintf("order of commitments %d and %d", i-1, i), rnd[i], func(_ *vals, p *buckler.Proof[E]) {
				p.Witness[i-1], p.Witness[i] = p.Witness[i], p.Witness[i-1]
			})
		}
	}
	one := fi[E](1)
	if !isNil(pf.LinCheckMaskSum) {
		probe("linear mask sum", "arithBatchConst", func(_ *vals, p *buckler.Proof[E]) { p.LinCheckMaskSum.Add(p.LinCheckMaskSum, one) })
		probe("linear mask sum", "arithBatchConst", func(_ *vals, p *buckler.Proof[E]) {
			p.LinCheckMaskSum.Add(p.LinCheckMaskSum, s.rndNZ(t.R))
		})
	}
	for _, m := range []struct {
		name string
		get  func(*buckler.Proof[E]) E
	}{{"linear mask sum", func(p *buckler.Proof[E]) E { return p.LinCheckMaskSum }}, {"sum mask sum", func(p *buckler.Proof[E]) E { return p.SumCheckMaskSum }}} {
		if isNil(m.get(pf)) {
			continue
		}
		ns, vs := s.nearby(t, bi(m.get(pf)), max(8, t.cfg.pick(s.q.BitLen()/24&^7, 8)))
		for j := range vs {
			probe(m.name+" "+ns[j], "arithBatchConst", func(_ *vals, p *buckler.Proof[E]) { m.get(p).Set(fe[E](vs[j])) })
		}
		top := bi(m.get(pf))
		for k := s.q.BitLen() - 1; k >= s.q.BitLen()-8; k-- {
			if z := new(big.Int).SetBit(top, k, 1-top.Bit(k)); z.Cmp(s.q) < 0 {
				probe(m.name+" top bits", "arithBatchConst", func(_ *vals, p *buckler.Proof[E]) { m.get(p).Set(fe[E](z)) })
				break
			}
		}
	}
	if len(b.v.pub) > 0 {
		i, j := t.R.Intn(len(b.v.pub)), t.R.Intn(rank)
		ns, vs := s.nearby(t, b.v.pub[i][j], max(8, t.cfg.pick(s.q.BitLen()/16&^7, 8)))
		for l := range vs {
			probe(fmt.Sprintf("public vector %d row %d %s", i, j, ns[l]), order[0], func(v *vals, _ *buckler.Proof[E]) { v.pub[i][j].Set(vs[l]) })
		}
	}
	if !isNil(pf.SumCheckMaskSum) {
		probe("sum mask sum", "arithBatchConst", func(_ *vals, p *buckler.Proof[E]) { p.SumCheckMaskSum.Add(p.SumCheckMaskSum, one) })
		probe("sum mask sum", "arithBatchConst", func(_ *vals, p *buckler.Proof[E]) {
			p.SumCheckMaskSum.Add(p.SumCheckMaskSum, s.rndNZ(t.R))
		})
		if !isNil(pf.LinCheckMaskSum) {
			probe("mask sums exchanged", "arithBatchConst", func(_ *vals, p *buckler.Proof[E]) {
				p.SumCheckMaskSum, p.LinCheckMaskSum = p.LinCheckMaskSum, p.SumCheckMaskSum
			})
			probe("mask sums shifted", "arithBatchConst", func(_ *vals, p *buckler.Proof[E]) {
				p.SumCheckMaskSum.Add(p.SumCheckMaskSum, one)
				p.LinCheckMaskSum.Sub(p.LinCheckMaskSum, one)
			})
		}
	}
	// sparse statements and messages: any two of them must give different challenges
	family := func(from string, n int, f func(k int, v *vals, pf *buckler.Proof[E]) string) {
		i, ok := idx[from]
		if !ok {
			return
		}
		seen := map[string]map[string]string{}
		done := map[string]bool{}
		for k := 0; k < n; k++ {
			v, p := b.v.clone(), cpBProof(pf)
			name := f(k, &v, p)
			if name == "" || done[name] {
				continue
			}
			done[name] = true
			got, _ := run(v, p)
			t.Eval(what + "/sparse/" + name)
			t.N("sparse_transcripts", 1)
			for _, c := range order[i:] {
				g, ok := got[c]
				if !ok {
					continue
				}
				if seen[c] == nil {
					seen[c] = map[string]string{}
				}
				if o, ok := seen[c][string(g)]; ok {
					t.Viol("insensitive", "%s: %s is the same for %s and for %s", what, c, o, name)
				}
				seen[c][string(g)] = name
			}
		}
	}
	val := func(k int) *big.Int {
		if k == 0 {
			return big.NewInt(1)
		}
		return new(big.Int).Lsh(big.NewInt(1), uint(t.R.Intn((s.q.BitLen()-1)/8))*8)
	}
	if nPub := len(b.v.pub); nPub > 0 {
		ps := []int{0, 1, rank - 1, rank, nPub*rank - 1, t.R.Intn(nPub * rank), t.R.Intn(nPub * rank), t.R.Intn(nPub * rank)}
		family(order[0], 4*len(ps), func(k int, v *vals, _ *buckler.Proof[E]) string {
			for _, w := range v.pub {
				for j := range w {
					w[j] = new(big.Int)
				}
			}
			if k == 1 {
				return "all public entries zero"
			}
			pos := ps[k/4] % (nPub * rank)
			x := val(k % 2)
			v.pub[pos/rank][pos%rank] = x
			if k%4 == 3 && pos%rank < rank-1 {
				for j := pos % rank; j < rank; j++ {
					v.pub[pos/rank][j] = x
				}
				return fmt.Sprintf("public entries %d to the end of the vector %s", pos, x)
			}
			return fmt.Sprintf("only public entry %d nonzero, %s", pos, x)
		})
	}
	family("arithBatchConst", 12, func(k int, _ *vals, p *buckler.Proof[E]) string {
		if isNil(p.LinCheckMaskSum) || isNil(p.SumCheckMaskSum) {
			return ""
		}
		x, y := new(big.Int), new(big.Int)
		switch {
		case k == 0:
			x = val(0)
		case k == 1:
			y = val(0)
		case k == 2:
			x, y = val(0), val(0)
		case k < 8:
			x = val(1)
		default:
			y = val(1)
		}
		p.LinCheckMaskSum.Set(fe[E](x))
		p.SumCheckMaskSum.Set(fe[E](y))
		return fmt.Sprintf("mask sums %s and %s", x, y)
	})
	for lo := 0; lo < nW; {
		hi := lo
		for hi < nW && rnd[hi] == rnd[lo] {
			hi++
		}
		family(rnd[lo], t.cfg.pick(6, 20), func(k int, _ *vals, p *buckler.Proof[E]) string {
			for i := lo; i < hi; i++ {
				for c := range p.Witness[i].Value {
					p.Witness[i].Value[c].Zero()
				}
			}
			if k == 0 {
				return fmt.Sprintf("commitments %d to %d zero", lo, hi-1)
			}
			i := lo + t.R.Intn(hi-lo)
			if len(p.Witness[i].Value) == 0 {
				return ""
			}
			c, l, x := t.R.Intn(len(p.Witness[i].Value)), t.R.Intn(r.Level()+1), []int{0, 1, N - 1, t.R.Intn(N)}[t.R.Intn(4)]
			p.Witness[i].Value[c].Coeffs[l][x] = 1
			return fmt.Sprintf("only entry %d of limb %d of component %d of commitment %d one", x, l, c, i)
		})
		lo = hi
	}
	t.Sample("%s: %d challenges, %d changes, every later challenge changed", b.sp, len(order), t.ctr["transcripts_compared"])
}

// rounds returns, for every commitment of the proof, the first challenge the prover may compute after sending it:
// the trace of the prover's own bindings tells it.
func (s *suite[E]) rounds(t *T, in *binst[E], v vals, pf *buckler.Proof[E]) []string {
	o := make([]string, len(pf.Witness))
	sp := in.sp
	nArith, nLin, nSum := len(sp.arith), len(sp.lins), len(sp.sums)
	tail := 0
	for _, n := range sp.norms {
		switch n.kind {
		case "two":
			nArith++
			nSum++
		case "apx":
			nArith++
			nLin++
		default:
			nArith++
		}
	}
	masks := 0
	if nArith > 0 {
		tail++
	}
	if nLin > 0 {
		tail += 3
		masks++
	}
	if nSum > 0 {
		tail += 3
		masks++
	}
	second := map[int]bool{}
	// second-round witnesses are those that are still zero before the projection
	stage := map[string][]bool{}
	setHooks(func(st string, args ...any) {
		if st != "witness" && st != "project" || len(args) < 2 {
			return
		}
		w, ok := args[1].([]buckler.Witness[E])
		if !ok {
			return
		}
		var z []bool
		for i := range w {
			nz := false
			for j := range w[i] {
				nz = nz || bi(w[i][j]).Sign() != 0
			}
			z = append(z, nz)
		}
		stage[st] = z
	}, nil)
	in.prove(v)
	setHooks(nil, nil)
	for i, z := range stage["project"] {
		if a := stage["witness"]; i < len(a) && !a[i] && z {
			second[i] = true
		}
	}
	for i := range o {
		switch {
		case i >= len(o)-tail:
			o[i] = "evalPoint"
		case i >= len(o)-tail-masks || second[i]:
			o[i] = "arithBatchConst"
		default:
			o[i] = "projConst"
		}
	}
	t.N("second_round_commitments", len(second))
	return o
}

// ---- C18

func (s *suite[E]) bkTamper(t *T, rank, k int) {
	b := s.bkStmt(t, rank, k)
	in, err := s.compile(b.sp, fmt.Sprint("tamper", k))
	if err != nil {
		t.Viol("compile", "%v", err)
		return
	}
	what := s.name + " " + b.sp.detail()
	pf, _, ch, err := in.proveTraced(b.v)
	if err != nil || !in.verify(b.v, pf) {
		t.Viol("reject", "%s: honest proof rejected (%v)", what, err)
		return
	}
	pf2, err := in.prove(b.v) // same statement, other run
	// other statement: other slack through a changed witness, when there is one
	v3 := b.v.clone()
	var pf3 *buckler.Proof[E]
	if b.restate(&v3) {
		pf3, err = in.prove(v3)
	}
	if err != nil {
		t.Viol("reject", "%s: prover error %v", what, err)
		return
	}
	pr := in.prv.JindoParams
	rQ, rO := pr.RingQ(), pr.RingQOut()
	N := rQ.N()
	rej := func(kind string, v vals, p *buckler.Proof[E]) {
		t.Eval(what + "/" + kind)
		t.N("alterations_judged", 1)
		ok := false
		if e := try(func() { ok = in.verify(v, p) }); e != nil {
			t.Viol("panic", "%s: %s: verifier panicked: %v", what, kind, e)
		} else if ok {
			t.Viol("accepted", "%s: accepted after: %s", what, kind)
		}
	}
	alt := func(kind string, f func(p *buckler.Proof[E])) {
		p := cpBProof(pf)
		f(p)
		rej(kind, b.v, p)
	}
	nz := func() E { return s.rndNZ(t.R) }
	nW := len(pf.Witness)
	dd := func() uint64 { return []uint64{1, 2, ^uint64(0) >> 1, t.R.Uint64()}[t.R.Intn(4)] }
	for i := 0; i < nW; i++ {
		for c := range pf.Witness[i].Value {
			if c > 1 && k < 0 {
				break
			}
			for _, l := range uniq(0, rO.Level()) {
				alt(fmt.Sprintf("commitment %d component %d limb %d", i, c, l), func(p *buckler.Proof[E]) { bump(rO, p.Witness[i].Value[c], l, t.R.Intn(N), dd()) })
			}
		}
		j := (i + 1 + t.R.Intn(nW)) % nW
		if j != i {
			alt(fmt.Sprintf("commitments %d and %d exchanged", i, j), func(p *buckler.Proof[E]) { p.Witness[i], p.Witness[j] = p.Witness[j], p.Witness[i] })
			alt(fmt.Sprintf("commitments and evaluations %d and %d exchanged", i, j), func(p *buckler.Proof[E]) {
				p.Witness[i], p.Witness[j] = p.Witness[j], p.Witness[i]
				p.Evals[i], p.Evals[j] = p.Evals[j], p.Evals[i]
			})
			alt(fmt.Sprintf("commitment %d copied to %d", i, j), func(p *buckler.Proof[E]) { p.Witness[j] = cpCom(p.Witness[i]) })
			if pf.Evals[i].Cmp(pf.Evals[j]) != 0 {
				alt(fmt.Sprintf("evaluations %d and %d exchanged", i, j), func(p *buckler.Proof[E]) { p.Evals[i], p.Evals[j] = p.Evals[j], p.Evals[i] })
			}
			alt(fmt.Sprintf("evaluations %d and %d shifted", i, j), func(p *buckler.Proof[E]) {
				d := nz()
				p.Evals[i].Add(p.Evals[i], d)
				p.Evals[j].Sub(p.Evals[j], d)
			})
		}
		alt(fmt.Sprintf("evaluation %d plus one", i), func(p *buckler.Proof[E]) { p.Evals[i].Add(p.Evals[i], fi[E](1)) })
		alt(fmt.Sprintf("evaluation %d random", i), func(p *buckler.Proof[E]) { p.Evals[i].Add(p.Evals[i], nz()) })
		if bi(pf.Evals[i]).Sign() != 0 {
			alt(fmt.Sprintf("evaluation %d zero", i), func(p *buckler.Proof[E]) { p.Evals[i].SetInt64(0) })
			alt(fmt.Sprintf("evaluation %d negated", i), func(p *buckler.Proof[E]) { p.Evals[i].Neg(p.Evals[i]) })
		}
	}
	hasL, hasS := !isNil(pf.LinCheckMaskSum), !isNil(pf.SumCheckMaskSum)
	if hasL {
		alt("linear mask sum plus one", func(p *buckler.Proof[E]) { p.LinCheckMaskSum.Add(p.LinCheckMaskSum, fi[E](1)) })
		alt("linear mask sum random", func(p *buckler.Proof[E]) { p.LinCheckMaskSum.Add(p.LinCheckMaskSum, nz()) })
		alt("linear mask sum zero", func(p *buckler.Proof[E]) { p.LinCheckMaskSum.SetInt64(0) })
	}
	if hasS {
		alt("sum mask sum plus one", func(p *buckler.Proof[E]) { p.SumCheckMaskSum.Add(p.SumCheckMaskSum, fi[E](1)) })
		alt("sum mask sum random", func(p *buckler.Proof[E]) { p.SumCheckMaskSum.Add(p.SumCheckMaskSum, nz()) })
		alt("sum mask sum zero", func(p *buckler.Proof[E]) { p.SumCheckMaskSum.SetInt64(0) })
	}
	if hasL && hasS {
		alt("mask sums exchanged", func(p *buckler.Proof[E]) {
			p.LinCheckMaskSum, p.SumCheckMaskSum = p.SumCheckMaskSum, p.LinCheckMaskSum
		})
	}
	// alterations that keep the equations of the proof system at the known evaluation point
	if zb, ok := ch["evalPoint"]; ok {
		z := newE[E]().SetBytes(zb)
		van := fe[E](new(big.Int).Exp(bi(z), big.NewInt(int64(rank)), s.q))
		van.Sub(van, fi[E](1))
		vinv := newE[E]()
		vinv.Inverse(van)
		zinv := newE[E]()
		zinv.Inverse(z)
		hs := fe[E](new(big.Int).Exp(bi(z), big.NewInt(int64(pr.Rank()-(rank-1))), s.q))
		add := func(e E, d E) { e.Add(e, d) }
		mul := func(a, b E) E { return newE[E]().Mul(a, b) }
		// positions counted from the end
		grp := []struct {
			name string
			on   bool
			mask int
			quo  int
			sum  func(p *buckler.Proof[E]) E
		}{
			{"linear", hasL, -1, -1, func(p *buckler.Proof[E]) E { return p.LinCheckMaskSum }},
			{"sum", hasS, -1, -1, func(p *buckler.Proof[E]) E { return p.SumCheckMaskSum }},
		}
		end := nW
		nArithQuo := 0
		if s.hasArith(b.sp) {
			nArithQuo = 1
		}
		if hasS {
			grp[1].quo = end - 3
			end -= 3
		}
		if hasL {
			grp[0].quo = end - 3
			end -= 3
		}
		end -= nArithQuo
		if hasS {
			end--
			grp[1].mask = end
		}
		if hasL {
			end--
			grp[0].mask = end
		}
		for _, g := range grp {
			if !g.on || g.mask < 0 || g.quo < 0 {
				continue
			}
			for rep := 0; rep < 3; rep++ {
				d := nz()
				alt(g.name+" mask evaluation and mask sum shifted together", func(p *buckler.Proof[E]) { add(p.Evals[g.mask], d); add(g.sum(p), d) })
				alt(g.name+" mask and quotient evaluations shifted together", func(p *buckler.Proof[E]) { add(p.Evals[g.mask], d); add(p.Evals[g.quo], mul(d, vinv)) })
				alt(g.name+" mask and remainder evaluations shifted together", func(p *buckler.Proof[E]) {
					add(p.Evals[g.mask], d)
					add(p.Evals[g.quo+1], mul(d, zinv))
					add(p.Evals[g.quo+2], mul(mul(d, zinv), hs))
				})
				alt(g.name+" mask sum and quotient shifted together", func(p *buckler.Proof[E]) {
					add(g.sum(p), d)
					p.Evals[g.quo].Sub(p.Evals[g.quo], mul(d, vinv))
				})
				alt(g.name+" mask sum and remainder shifted together", func(p *buckler.Proof[E]) {
					add(g.sum(p), d)
					e := newE[E]().Neg(mul(d, zinv))
					add(p.Evals[g.quo+1], e)
					add(p.Evals[g.quo+2], mul(e, hs))
				})
				alt(g.name+" quotient and remainder shifted together", func(p *buckler.Proof[E]) {
					add(p.Evals[g.quo+1], d)
					add(p.Evals[g.quo+2], mul(d, hs))
					p.Evals[g.quo].Sub(p.Evals[g.quo], mul(mul(d, z), vinv))
				})
				t.N("equations_kept", 6)
			}
		}
	} else {
		t.N("transcript_not_observed", 1)
	}
	// evaluation proof
	type part struct {
		name string
		r    *ring.Ring
		get  func(f *jindo.Proof) []ring.Poly
	}
	parts := []part{
		{"inner commitments", rO, func(f *jindo.Proof) []ring.Poly { return f.InCommit }},
		{"partial evaluations", rQ, func(f *jindo.Proof) []ring.Poly { return f.Partial }},
		{"partial mask", rQ, func(f *jindo.Proof) []ring.Poly { return []ring.Poly{f.PartialMask} }},
		{"encoding responses", rQ, func(f *jindo.Proof) []ring.Poly { return f.Encode }},
		{"randomness responses", rQ, func(f *jindo.Proof) []ring.Poly { return f.MLWE }},
	}
	for _, pt := range parts {
		m := len(pt.get(pf.EvalProof))
		lim := m
		if pt.name == "randomness responses" {
			lim = pr.MLWERank()
		}
		for _, i := range uniq(0, lim-1, t.R.Intn(lim), t.R.Intn(lim)) {
			for _, l := range uniq(0, pt.r.Level()) {
				alt(fmt.Sprintf("%s %d of the evaluation proof", pt.name, i), func(p *buckler.Proof[E]) { bump(pt.r, pt.get(p.EvalProof)[i], l, t.R.Intn(N), dd()) })
			}
		}
	}
	// splices
	for oi, o := range []*buckler.Proof[E]{pf2, pf3} {
		if o == nil {
			t.N("no_other_statement", 1)
			continue
		}
		name := []string{"another run", "another statement"}[oi]
		spl := func(kind string, f func(p, o *buckler.Proof[E])) {
			p, q := cpBProof(pf), cpBProof(o)
			f(p, q)
			rej(kind+" from "+name, b.v, p)
		}
		for i := 0; i < nW; i++ {
			spl(fmt.Sprintf("commitment %d", i), func(p, o *buckler.Proof[E]) { p.Witness[i] = o.Witness[i] })
			spl(fmt.Sprintf("commitment and evaluation %d", i), func(p, o *buckler.Proof[E]) { p.Witness[i], p.Evals[i] = o.Witness[i], o.Evals[i] })
			if pf.Evals[i].Cmp(o.Evals[i]) != 0 {
				spl(fmt.Sprintf("evaluation %d", i), func(p, o *buckler.Proof[E]) { p.Evals[i] = o.Evals[i] })
			}
		}
		spl("all commitments", func(p, o *buckler.Proof[E]) { p.Witness = o.Witness })
		spl("all evaluations", func(p, o *buckler.Proof[E]) { p.Evals = o.Evals })
		spl("evaluation proof", func(p, o *buckler.Proof[E]) { p.EvalProof = o.EvalProof })
		spl("evaluations and evaluation proof", func(p, o *buckler.Proof[E]) { p.Evals, p.EvalProof = o.Evals, o.EvalProof })
		spl("commitments and evaluations", func(p, o *buckler.Proof[E]) { p.Witness, p.Evals = o.Witness, o.Evals })
		spl("commitments and evaluation proof", func(p, o *buckler.Proof[E]) { p.Witness, p.EvalProof = o.Witness, o.EvalProof })
		if hasL || hasS {
			spl("everything but the mask sums", func(p, o *buckler.Proof[E]) { p.Witness, p.Evals, p.EvalProof = o.Witness, o.Evals, o.EvalProof })
			spl("mask sums", func(p, o *buckler.Proof[E]) {
				p.LinCheckMaskSum, p.SumCheckMaskSum = o.LinCheckMaskSum, o.SumCheckMaskSum
			})
		}
		for _, pt := range parts {
			spl(pt.name, func(p, o *buckler.Proof[E]) {
				a, b := pt.get(p.EvalProof), pt.get(o.EvalProof)
				for i := range a {
					a[i].Copy(b[i])
				}
			})
		}
		// the proof as a whole belongs to its statement
		if oi == 1 && !sameBig(v3.pub, b.v.pub) {
			rej("whole proof from another statement", b.v, o)
		}
	}
	if !in.verify(b.v, pf) {
		t.Viol("reject", "%s: unaltered proof rejected after the alterations", what)
	}
	t.Sample("%s: %d alterations rejected", b.sp, t.ctr["alterations_judged"])
}

func sameBig(a, b [][]*big.Int) bool {
	for i := range a {
		for j := range a[i] {
			if a[i][j].Cmp(b[i][j]) != 0 {
				return false
			}
		}
	}
	return true
}

// hasArith tells whether the circuit has arithmetic constraints, also those made by norms.
func (s *suite[E]) hasArith(sp *spec) bool { return len(sp.arith)+len(sp.norms) > 0 }

// restate turns the assignment into another one that satisfies the circuit: an unused or a free vector changes.
func (b *bld[E]) restate(v *vals) bool {
	q := b.s.q
	for _, a := range b.sp.arith {
		if len(a) != 2 || a[0].pub < 0 && a[1].pub < 0 {
			continue
		}
		w := v.clone()
		for _, t := range a {
			if t.pub >= 0 {
				w.pub[t.pub][0].Add(w.pub[t.pub][0], big.NewInt(1)).Mod(w.pub[t.pub][0], q)
			}
			for _, x := range t.wit {
				w.sec[x][0].Add(w.sec[x][0], big.NewInt(1)).Mod(w.sec[x][0], q)
			}
		}
		if len(b.s.violated(b.sp, w)) == 0 {
			*v = w
			return true
		}
	}
	for i := range v.pub {
		for j := range v.pub[i] {
			w := vals{cpBig(v.pub), v.sec}
			w.pub[i][j].Add(w.pub[i][j], big.NewInt(1)).Mod(w.pub[i][j], q)
			if len(b.s.violated(b.sp, w)) == 0 {
				v.pub = w.pub
				return true
			}
		}
	}
	for i := range v.sec {
		w := vals{v.pub, cpBig(v.sec)}
		w.sec[i][0].Add(w.sec[i][0], big.NewInt(1)).Mod(w.sec[i][0], q)
		if len(b.s.violated(b.sp, w)) == 0 {
			v.sec = w.sec
			return true
		}
	}
	return false
}
