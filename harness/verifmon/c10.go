package main

import (
	"fmt"
	"math/big"
	"strings"

	"github.com/sp301415/ringo-snark/math/bigpoly"
)

func init() {
	registry["C10"] = func(cfg Cfg) []Case {
		return append(append(manyCases(cfg, "arith"), systemCases(cfg, "arith")...), append(bkCases(cfg, "arith", Suite.bkArith), bitCases(cfg, 1, 9)...)...)
	}
	registry["C11"] = func(cfg Cfg) []Case {
		return append(append(manyCases(cfg, "lin"), bkCases(cfg, "lin", Suite.bkLin)...), append(append(bitCases(cfg, 2, 3), systemCases(cfg, "lin")...), spreadCases(cfg)...)...)
	}
	registry["C12"] = func(cfg Cfg) []Case {
		return append(append(manyCases(cfg, "sum"), bkCases(cfg, "sum", Suite.bkSum)...), append(append(bitCases(cfg, 4, 5), systemCases(cfg, "sum")...), declaredCases(cfg)...)...)
	}
}

func bkCases(cfg Cfg, kind string, run func(s Suite, t *T, rank, k int)) []Case {
	var cs []Case
	ranks := []int{8, 4, 16, 2, 32, 1, 64}
	for k := 0; k < cfg.pick(28, 280); k++ {
		f := bkFields[k%len(bkFields)]
		rank := ranks[(k/2)%len(ranks)]
		cs = append(cs, Case{Name: fmt.Sprintf("%s/%s/r%d/%d", kind, f, rank, k), Run: func(t *T) { run(field(f).S, t, rank, k) }})
	}
	return cs
}

// slip is an error added to one entry of the vector with which a constraint is controlled.
type slip struct {
	con, row int
	d        *big.Int
}

func slipStr(e []slip) string {
	s := ""
	for _, x := range e {
		s += fmt.Sprintf(" constraint %d row %d error %s;", x.con, x.row, fstr(x.d))
	}
	return s
}

// pattern returns error patterns for nCon constraints over rank rows.
func (s *suite[E]) patterns(t *T, nCon, rank, limit int) [][]slip {
	r := t.R
	var o [][]slip
	ds := func() *big.Int {
		return []*big.Int{big.NewInt(1), big.NewInt(-1), rndFull(r, s.q), new(big.Int).Rsh(s.q, 1), big.NewInt(int64(rank)), big.NewInt(1 << 40)}[r.Intn(6)]
	}
	nz := func() *big.Int {
		for {
			if d := ds(); new(big.Int).Mod(d, s.q).Sign() != 0 {
				return d
			}
		}
	}
	neg := func(d *big.Int) *big.Int { return new(big.Int).Neg(d) }
	for k := 0; k < nCon; k++ {
		for _, row := range uniq(0, rank-1, r.Intn(rank)) {
			o = append(o, []slip{{k, row, nz()}})
		}
	}
	var pr [][]slip
	for k := 0; k < nCon; k++ {
		if rank > 1 { // zero sum within a constraint
			d := nz()
			a := r.Intn(rank)
			pr = append(pr, []slip{{k, a, d}, {k, (a + 1 + r.Intn(rank-1)) % rank, neg(d)}})
			pr = append(pr, []slip{{k, 0, d}, {k, rank - 1, neg(d)}})
		}
		for j := k + 1; j < nCon; j++ {
			d := nz()
			a := r.Intn(rank)
			pr = append(pr, []slip{{k, a, d}, {j, a, neg(d)}})
			pr = append(pr, []slip{{k, a, d}, {j, a, d}})
			pr = append(pr, []slip{{k, a, d}, {j, r.Intn(rank), neg(d)}})
			// powers of one challenge meet on diagonals
			for _, sh := range []int{j - k, k - j} {
				if a+sh >= 0 && a+sh < rank {
					pr = append(pr, []slip{{k, a, d}, {j, a + sh, neg(d)}})
				}
			}
			var all []slip
			for i := 0; i < rank; i++ {
				x := nz()
				all = append(all, slip{k, i, x}, slip{j, i, neg(x)})
			}
			pr = append(pr, all)
		}
	}
	if nCon > 2 {
		d := nz()
		a := r.Intn(rank)
		pr = append(pr, []slip{{0, a, d}, {1, a, d}, {2, a, new(big.Int).Mul(d, big.NewInt(-2))}})
		pr = append(pr, []slip{{0, a, d}, {1, a, new(big.Int).Mul(d, big.NewInt(-2))}, {2, a, d}})
	}
	var all []slip
	d := nz()
	for i := 0; i < rank; i++ {
		all = append(all, slip{r.Intn(nCon), i, d})
	}
	pr = append(pr, all)
	r.Shuffle(len(pr), func(i, j int) { pr[i], pr[j] = pr[j], pr[i] })
	if len(pr) > limit {
		pr = pr[:limit]
	}
	return append(o, pr...)
}

func (v vals) slip(q *big.Int, at func(con int) []*big.Int, e []slip) {
	for _, x := range e {
		p := at(x.con)[x.row]
		p.Add(p, x.d)
		p.Mod(p, q)
	}
}

// orderShuffle decides about the declaration order.
func (b *bld[E]) orderShuffle(k int) {
	if k%2 == 1 {
		b.sp.shuffle = b.r.Int63() | 1
	}
}

// distract adds other kinds of constraints, so that the accounting of rounds is exercised.
func (b *bld[E]) distract(kinds int) {
	one := big.NewInt(1)
	if kinds&1 != 0 {
		w := b.sec(b.vec(0))
		b.arith([]term{{one, -1, []int{w, w}}}, false)
	}
	if kinds&2 != 0 {
		b.lin(b.sec(b.vec(0)), b.randChk())
	}
	if kinds&4 != 0 {
		b.sum([]term{{one, -1, []int{b.sec(b.vec(0))}}})
	}
	if kinds&8 != 0 {
		b.norm("inf", big.NewInt(6))
	}
}

func (s *suite[E]) bkArith(t *T, rank, k int) {
	b := s.builder(t.R, rank)
	for i := 0; i < 1+t.R.Intn(2); i++ {
		b.pub(b.vec(t.R.Intn(3)))
		b.sec(b.vec(t.R.Intn(3)))
	}
	nCon := []int{3, 1, 2, 4, 6}[k%5]
	var tss [][]term
	for i := 0; i < nCon; i++ {
		tss = append(tss, b.terms(1+t.R.Intn(3), 3))
	}
	type slot struct {
		pub bool
		k   int
	}
	var sl []slot
	for i := range tss {
		pub := t.R.Intn(3) == 0
		sl = append(sl, slot{pub, b.arith(tss[i], pub)})
	}
	if k%3 == 1 {
		b.distract([]int{2, 4, 8, 14}[k/3%4])
	}
	b.orderShuffle(k)
	in, err := s.compile(b.sp, fmt.Sprint("arith", k))
	if err != nil {
		t.Viol("compile", "%v", err)
		return
	}
	what := s.name + " " + b.sp.detail()
	seed := fmt.Sprint(t.Name, "/fixed")
	reseed(seed)
	if in.accepted(t, b.v, what) == nil {
		return
	}
	at := func(v vals) func(int) []*big.Int {
		return func(c int) []*big.Int {
			if sl[c].pub {
				return v.pub[sl[c].k]
			}
			return v.sec[sl[c].k]
		}
	}
	try := func(e []slip, how string) {
		v := b.v.clone()
		v.slip(s.q, at(v), e)
		if len(s.violated(b.sp, v)) == 0 {
			return
		}
		in.rejected(t, v, what+" |"+how+slipStr(e))
	}
	for _, e := range s.patterns(t, nCon, rank, t.cfg.pick(10, 40)) {
		try(e, "")
	}
	// the vectors themselves changed
	for i := 0; i < 2; i++ {
		v := b.v.clone()
		p := v.sec[t.R.Intn(len(v.sec))][t.R.Intn(rank)]
		p.Mod(p.Add(p, big.NewInt(1)), s.q)
		if len(s.violated(b.sp, v)) > 0 {
			in.rejected(t, v, what+" | entry changed")
		}
	}
	s.predict(t, in, b.v, at, nCon, rank, what, []int{1}, func() { reseed(seed) })
	e := []slip{{t.R.Intn(nCon), t.R.Intn(rank), big.NewInt(1)}}
	v := b.v.clone()
	v.slip(s.q, at(v), e)
	s.lateQuotient(t, in, v, "arith", what+" | quotient chosen late", func() { reseed(seed) })
	t.Sample("%s: %d false statements rejected", b.sp, t.ctr["false_statements"])
}

// predict mounts the attack of a prover who knows a batch challenge in advance: the first run tells it,
// the second run, with the same randomness, uses errors that cancel under it.
func (s *suite[E]) predict(t *T, in *binst[E], v0 vals, at func(vals) func(int) []*big.Int, nCon, rank int, what string, chals []int, fix func()) {
	fix()
	startInstr()
	_, err := in.prove(v0)
	names, ch := challenges()
	resetInstr()
	if err != nil || len(names) < 6 {
		t.N("transcript_not_observed", 1)
		return
	}
	for _, ci := range chals {
		beta := bi(newE[E]().SetBytes(ch[names[ci]]))
		nb := new(big.Int).Neg(beta)
		inv := new(big.Int).ModInverse(beta, s.q)
		if inv == nil {
			continue
		}
		var es [][]slip
		row := t.R.Intn(rank)
		if nCon > 1 {
			i := t.R.Intn(nCon - 1)
			es = append(es, []slip{{i, row, big.NewInt(1)}, {i + 1, row, nb}}, []slip{{i, row, nb}, {i + 1, row, big.NewInt(1)}})
		} else if rank > 1 {
			row = t.R.Intn(rank - 1)
			es = append(es, []slip{{0, row, big.NewInt(1)}, {0, row + 1, nb}}, []slip{{0, row, nb}, {0, row + 1, big.NewInt(1)}})
		}
		for _, e := range es {
			v := v0.clone()
			v.slip(s.q, at(v), e)
			if len(s.violated(in.sp, v)) == 0 {
				continue
			}
			fix()
			in.rejected(t, v, what+" | "+names[ci]+" predicted;"+slipStr(e))
			t.N("predicted_challenge_attacks", 1)
		}
	}
}

// lateQuotient mounts the attack of a prover who chooses the quotient after learning the evaluation point.
func (s *suite[E]) lateQuotient(t *T, in *binst[E], v vals, kind, what string, fix func()) {
	if len(s.violated(in.sp, v)) == 0 {
		return
	}
	var remZ func(z E) E
	var maskSum E
	obs := func(stage string, args ...any) {
		switch stage {
		case kind + "Mask":
			maskSum, _ = args[1].(E)
		case kind + "Rem":
			rem, ok := args[1].(*bigpoly.Poly[E])
			if !ok {
				return
			}
			co := cpv(rem.Coeffs)
			remZ = func(z E) E {
				if kind == "arith" {
					return (&bigpoly.Poly[E]{Coeffs: co}).Evaluate(z)
				}
				return newE[E]().Sub(co[0], maskSum)
			}
		}
	}
	fix()
	startInstr()
	setHooks(obs, nil)
	_, err := in.prove(v)
	names, ch := challenges()
	resetInstr()
	if err != nil || len(names) == 0 || remZ == nil {
		t.N("transcript_not_observed", 1)
		return
	}
	z := newE[E]().SetBytes(ch[names[len(names)-1]])
	van := fe[E](new(big.Int).Exp(bi(z), big.NewInt(int64(in.sp.rank)), s.q))
	van.Sub(van, fi[E](1))
	van.Inverse(van)
	d := newE[E]().Mul(remZ(z), van)
	fix()
	setHooks(func(stage string, args ...any) {
		if stage == kind {
			if quo, ok := args[0].(*[]E); ok && len(*quo) > 0 {
				q := cpv(*quo)
				q[0].Add(q[0], d)
				*quo = q
			}
		}
	}, nil)
	in.rejected(t, v, what)
	t.N("late_message_attacks", 1)
}

// remainders mounts the attacks on the univariate sum-check: remainders of excessive degree and mask sums
// or masks chosen after the challenges. v violates a constraint of the given kind ("lin" or "sum").
func (s *suite[E]) remainders(t *T, in *binst[E], v vals, kind, what string, fix func()) {
	if len(s.violated(in.sp, v)) == 0 {
		return
	}
	N := in.sp.rank
	var maskSum, gap E
	obs := func(stage string, args ...any) {
		switch stage {
		case kind + "Mask":
			maskSum, _ = args[1].(E)
		case kind + "Rem":
			if rem, ok := args[1].(*bigpoly.Poly[E]); ok && !isNil(maskSum) {
				gap = newE[E]().Sub(rem.Coeffs[0], maskSum)
			}
		}
	}
	R := in.prv.JindoParams.Rank()
	for _, how := range []string{"shift R-N", "truncated", "kept", "zero", "low"} {
		fix()
		hooked := false
		setHooks(func(stage string, args ...any) {
			obs(stage, args...)
			if stage != kind || len(args) < 3 || isNil(gap) {
				return
			}
			quo, ok0 := args[0].(*[]E)
			lo, ok1 := args[1].(*[]E)
			hi, ok2 := args[2].(*[]E)
			if !ok0 || !ok1 || !ok2 || len(*quo) == 0 {
				return
			}
			hooked = true
			q := cpv(*quo)
			q[0].Sub(q[0], gap)
			*quo = q
			l := cpv(*lo)
			for len(l) < N {
				l = append(l, newE[E]())
			}
			l[N-1].Add(l[N-1], gap)
			*lo = l
			h := cpv(*hi)
			switch how {
			case "shift R-N":
				h = append(zerov[E](R-N), cpv(l)...)
			case "truncated":
				h = append(zerov[E](R-(N-1)), cpv(l[:N-1])...)
			case "zero":
				h = zerov[E](1)
			case "low":
				h = cpv(l)
			}
			*hi = h
		}, nil)
		in.rejected(t, v, what+" | remainder of excessive degree, "+how)
		if hooked {
			t.N("excessive_remainders", 1)
		}
	}
	// mask sum, or mask, chosen after the challenges are known
	fix()
	setHooks(obs, nil)
	if _, err := in.prove(v); err != nil || isNil(gap) {
		setHooks(nil, nil)
		t.N("transcript_not_observed", 1)
		return
	}
	d := cp(gap)
	for _, how := range []string{"mask sum", "mask"} {
		fix()
		setHooks(func(stage string, args ...any) {
			if stage != kind+"Mask" {
				return
			}
			mask, ok0 := args[0].(*bigpoly.Poly[E])
			sum, ok1 := args[1].(E)
			if !ok0 || !ok1 {
				return
			}
			if how == "mask" {
				mask.Coeffs[0].Sub(mask.Coeffs[0], d)
			} else {
				sum.Add(sum, d)
			}
		}, nil)
		in.rejected(t, v, what+" | "+how+" chosen late")
		t.N("late_message_attacks", 1)
	}
	s.lateQuotient(t, in, v, kind, what+" | quotient chosen late", fix)
}

func (s *suite[E]) bkLin(t *T, rank, k int) {
	b := s.builder(t.R, rank)
	b.sec(b.vec(0))
	b.sec(b.vec(t.R.Intn(4)))
	var outs []int
	nChk := 1 + k%3
	for i := 0; i < nChk; i++ {
		name := chkKinds[(k+i)%len(chkKinds)]
		if strings.HasPrefix(name, "aut") {
			name = fmt.Sprintf("%s:%d", name[:4], 2*t.R.Intn(rank)+1)
		}
		c := b.chk(name)
		for j := 0; j < 1+(k/3+i)%3; j++ {
			outs = append(outs, b.lin(t.R.Intn(2), c))
		}
	}
	if k%4 == 1 {
		b.distract([]int{1, 4, 8, 13}[k/4%4])
	}
	b.orderShuffle(k)
	in, err := s.compile(b.sp, fmt.Sprint("lin", k))
	if err != nil {
		t.Viol("compile", "%v", err)
		return
	}
	what := s.name + " " + b.sp.detail()
	seed := fmt.Sprint(t.Name, "/fixed")
	fix := func() { reseed(seed) }
	fix()
	if in.accepted(t, b.v, what) == nil {
		return
	}
	at := func(v vals) func(int) []*big.Int { return func(c int) []*big.Int { return v.sec[outs[c]] } }
	for _, e := range s.patterns(t, len(outs), rank, t.cfg.pick(8, 40)) {
		v := b.v.clone()
		v.slip(s.q, at(v), e)
		if len(s.violated(b.sp, v)) > 0 {
			in.rejected(t, v, what+" |"+slipStr(e))
		}
	}
	// outputs exchanged, outputs replaced by another map of the input, input changed
	for i := 0; i < 3; i++ {
		v := b.v.clone()
		switch i {
		case 0:
			l := b.sp.lins[t.R.Intn(len(b.sp.lins))]
			w := zerov[E](rank)
			s.makeChk(b.sp.chks[l.chk], rank).TransposeTo(w, fev[E](v.sec[l.in]))
			v.sec[l.out] = biv(w)
		case 1:
			l := b.sp.lins[t.R.Intn(len(b.sp.lins))]
			v.sec[l.out] = cpBig(v.sec)[l.in]
		case 2:
			p := v.sec[t.R.Intn(2)][t.R.Intn(rank)]
			p.Mod(p.Add(p, big.NewInt(1)), s.q)
		}
		if len(s.violated(b.sp, v)) > 0 {
			in.rejected(t, v, what+fmt.Sprint(" | vectors exchanged ", i))
		}
	}
	s.predict(t, in, b.v, at, len(outs), rank, what, []int{2}, fix)
	s.predict(t, in, b.v, at, 1, rank, what, []int{3}, fix)
	v := b.v.clone()
	v.slip(s.q, at(v), []slip{{t.R.Intn(len(outs)), t.R.Intn(rank), rndFull(t.R, s.q)}})
	s.remainders(t, in, v, "lin", what, fix)
	t.Sample("%s: %d false statements rejected", b.sp, t.ctr["false_statements"])
}

func (s *suite[E]) bkSum(t *T, rank, k int) {
	b := s.builder(t.R, rank)
	for i := 0; i < 1+t.R.Intn(2); i++ {
		b.pub(b.vec(t.R.Intn(3)))
		b.sec(b.vec(t.R.Intn(3)))
	}
	nCon := []int{2, 1, 3, 5}[k%4]
	one := big.NewInt(1)
	var tss [][]term
	for i := 0; i < nCon; i++ {
		tss = append(tss, b.terms(t.R.Intn(3), 3))
	}
	var free []int
	for i := 0; i < nCon; i++ {
		free = append(free, b.sec(b.vec(0)))
		tss[i] = append(tss[i], term{one, -1, []int{free[i]}})
	}
	for i := range tss {
		b.sum(tss[i])
	}
	setSum := func(i int, x *big.Int) { // makes the true sum of constraint i equal x, and declares it
		d := new(big.Int).Sub(x, b.sp.sums[i].sum)
		p := b.v.sec[free[i]][t.R.Intn(rank)]
		p.Mod(p.Add(p, d), s.q)
		b.sp.sums[i].sum = new(big.Int).Set(x)
	}
	switch k % 3 { // zero, small and full-size declared sums, also outside [0, q)
	case 1:
		for i := range tss {
			setSum(i, new(big.Int))
		}
	case 2:
		setSum(t.R.Intn(nCon), big.NewInt(int64(t.R.Intn(1000))))
		setSum(t.R.Intn(nCon), new(big.Int).Add(s.q, rndFull(t.R, s.q)))
		setSum(t.R.Intn(nCon), new(big.Int).Neg(rndFull(t.R, s.q)))
	}
	if k%4 == 2 {
		b.distract([]int{1, 2, 8, 11}[k/4%4])
	}
	b.orderShuffle(k)
	in, err := s.compile(b.sp, fmt.Sprint("sum", k))
	if err != nil {
		t.Viol("compile", "%v", err)
		return
	}
	what := s.name + " " + b.sp.detail()
	seed := fmt.Sprint(t.Name, "/fixed")
	fix := func() { reseed(seed) }
	fix()
	if in.accepted(t, b.v, what) == nil {
		return
	}
	at := func(v vals) func(int) []*big.Int { return func(c int) []*big.Int { return v.sec[free[c]] } }
	for _, e := range s.patterns(t, nCon, rank, t.cfg.pick(8, 40)) {
		v := b.v.clone()
		v.slip(s.q, at(v), e)
		if len(s.violated(b.sp, v)) > 0 {
			in.rejected(t, v, what+" |"+slipStr(e))
		} else {
			in.accepted(t, v, what+" | sum kept by"+slipStr(e))
		}
	}
	s.predict(t, in, b.v, at, nCon, rank, what, []int{4}, fix)
	// other declared sums than the true ones
	wrong := func(i int, x *big.Int, j int, y *big.Int, how string) {
		sp := *b.sp
		sp.sums = append([]sumC(nil), b.sp.sums...)
		sp.sums[i].sum = x
		if j >= 0 {
			sp.sums[j].sum = y
		}
		if len(s.violated(&sp, b.v)) == 0 {
			return
		}
		w, err := s.compile(&sp, fmt.Sprint("sum", k))
		if err != nil {
			t.Viol("compile", "%v", err)
			return
		}
		w.rejected(t, b.v, what+" | declared sum "+how)
	}
	i := t.R.Intn(nCon)
	tr := b.sp.sums[i].sum
	rk := big.NewInt(int64(rank))
	alts := []struct {
		how string
		x   *big.Int
	}{
		{"plus one", new(big.Int).Add(tr, one)}, {"minus one", new(big.Int).Sub(tr, one)}, {"times rank", new(big.Int).Mul(tr, rk)},
		{"divided by rank", new(big.Int).Mul(tr, new(big.Int).ModInverse(rk, s.q))}, {"negated", new(big.Int).Neg(tr)}, {"zero", new(big.Int)},
		{"plus 2^64", new(big.Int).Add(tr, new(big.Int).Lsh(one, 64))}, {"random", rndFull(t.R, s.q)},
	}
	for j, a := range alts {
		if j%4 == k%4 || t.cfg.Thorough {
			wrong(i, a.x, -1, nil, a.how)
		}
	}
	if nCon > 1 {
		d := rndFull(t.R, s.q)
		j := (i + 1) % nCon
		wrong(i, new(big.Int).Add(tr, d), j, new(big.Int).Sub(b.sp.sums[j].sum, d), "cancelling")
		wrong(i, b.sp.sums[j].sum, j, tr, "exchanged")
	}
	// attacks on the messages; the declared sums are zero, so that only the mask sum enters the constant term
	z := *b
	zsp := *b.sp
	z.sp = &zsp
	zsp.sums = append([]sumC(nil), b.sp.sums...)
	z.v = b.v.clone()
	for i := range zsp.sums {
		p := z.v.sec[free[i]][0]
		p.Mod(p.Sub(p, zsp.sums[i].sum), s.q)
		zsp.sums[i].sum = new(big.Int)
	}
	zin, err := s.compile(&zsp, fmt.Sprint("sum", k))
	if err != nil {
		t.Viol("compile", "%v", err)
		return
	}
	if zin.accepted(t, z.v, what+" | zero sums") == nil {
		return
	}
	v := z.v.clone()
	v.slip(s.q, at(v), []slip{{t.R.Intn(nCon), t.R.Intn(rank), rndFull(t.R, s.q)}})
	s.remainders(t, zin, v, "sum", what, fix)
	t.Sample("%s: %d false statements rejected", b.sp, t.ctr["false_statements"])
}
