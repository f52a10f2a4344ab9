package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"strings"

	"github.com/sp301415/ringo-snark/buckler"
	"github.com/sp301415/ringo-snark/math/bignum"
	"github.com/sp301415/ringo-snark/math/bigpoly"
)

// term is coefficient * public[pub] * product of secret[wit].
type term struct {
	c   *big.Int
	pub int
	wit []int
}

type sumC struct {
	ts  []term
	sum *big.Int
	api string // the entry point, when it matters
}

type linC struct{ out, in, chk int }

type normC struct {
	w    int
	b    *big.Int
	kind string // inf, two, apx
}

// spec is a circuit in a form the oracle can evaluate.
type spec struct {
	rank, nPub, nSec int
	arith            [][]term
	sums             []sumC
	chks             []string
	lins             []linC
	norms            []normC
	shuffle          int64
}

// vals is an assignment.
type vals struct{ pub, sec [][]*big.Int }

func cpBig(v [][]*big.Int) [][]*big.Int {
	o := make([][]*big.Int, len(v))
	for i := range v {
		o[i] = make([]*big.Int, len(v[i]))
		for j := range v[i] {
			o[i][j] = new(big.Int).Set(v[i][j])
		}
	}
	return o
}

func (v vals) clone() vals { return vals{cpBig(v.pub), cpBig(v.sec)} }

// circ is the circuit given to the compiler.
type circ[E bignum.Uint[E]] struct {
	Pub []buckler.PublicWitness[E]
	Sec []buckler.Witness[E]
	Def func(ctx *buckler.Context[E], c *circ[E])
}

func (c *circ[E]) Define(ctx *buckler.Context[E]) { c.Def(ctx, c) }

// matChk is a dense linear map.
type matChk[E bignum.Uint[E]] struct{ m [][]E }

func (c *matChk[E]) TransformTo(o, v []E) {
	t := newE[E]()
	for i := range c.m {
		a := newE[E]()
		for j := range c.m[i] {
			a.Add(a, t.Mul(c.m[i][j], v[j]))
		}
		o[i].Set(a)
	}
}

func (c *matChk[E]) TransposeTo(o, v []E) {
	t := newE[E]()
	for j := range c.m {
		a := newE[E]()
		for i := range c.m {
			a.Add(a, t.Mul(c.m[i][j], v[i]))
		}
		o[j].Set(a)
	}
}

// valChk and funcChk are maps whose values are not comparable.
type valChk[E bignum.Uint[E]] struct{ matChk[E] }

func (c valChk[E]) TransformTo(o, v []E) { c.matChk.TransformTo(o, v) }
func (c valChk[E]) TransposeTo(o, v []E) { c.matChk.TransposeTo(o, v) }

type funcChk[E bignum.Uint[E]] struct{ f, g func(o, v []E) }

func (c funcChk[E]) TransformTo(o, v []E) { c.f(o, v) }
func (c funcChk[E]) TransposeTo(o, v []E) { c.g(o, v) }

// makeChk builds the linear map of the given name.
func (s *suite[E]) makeChk(name string, rank int) buckler.LinearChecker[E] {
	p := strings.Split(name, ":")
	arg := int64(0)
	if len(p) > 1 {
		fmt.Sscan(p[1], &arg)
	}
	switch p[0] {
	case "ntt":
		return buckler.NewNTTChecker[E](rank)
	case "autc":
		return buckler.NewAutChecker(bigpoly.NewCyclotomicEvaluator[E](rank), int(arg), false)
	case "autn":
		return buckler.NewAutChecker(bigpoly.NewCyclotomicEvaluator[E](rank), int(arg), true)
	}
	r := rand.New(rand.NewSource(arg))
	m := make([][]E, rank)
	for i := range m {
		m[i] = zerov[E](rank)
	}
	switch p[0] {
	case "mat", "vmat", "fmat":
		for i := range m {
			m[i] = s.rndv(r, rank)
		}
	case "id":
		for i := range m {
			m[i][i].SetInt64(1)
		}
	case "perm":
		for i, j := range r.Perm(rank) {
			m[i][j].SetInt64(1)
		}
	case "shift":
		for i := 0; i+1 < rank; i++ {
			m[i][i+1].SetInt64(1)
		}
	case "zero":
	default:
		panic("checker " + name)
	}
	c := &matChk[E]{m}
	switch p[0] {
	case "vmat":
		return valChk[E]{*c}
	case "fmat":
		return funcChk[E]{c.TransformTo, c.TransposeTo}
	}
	return c
}

// circuit returns an unassigned circuit for the compiler.
func (s *suite[E]) circuit(sp *spec) *circ[E] {
	return &circ[E]{
		Pub: make([]buckler.PublicWitness[E], sp.nPub),
		Sec: make([]buckler.Witness[E], sp.nSec),
		Def: func(ctx *buckler.Context[E], c *circ[E]) { s.define(sp, ctx, c.Pub, c.Sec) },
	}
}

func (s *suite[E]) define(sp *spec, ctx *buckler.Context[E], pub []buckler.PublicWitness[E], sec []buckler.Witness[E]) {
	mk := func(ts []term) (c buckler.ArithmeticConstraint[E]) {
		for _, t := range ts {
			var p buckler.PublicWitness[E]
			if t.pub >= 0 {
				p = pub[t.pub]
			}
			var w []buckler.Witness[E]
			for _, i := range t.wit {
				w = append(w, sec[i])
			}
			m1 := new(big.Int).Sub(s.q, big.NewInt(1))
			switch {
			case t.c.Cmp(big.NewInt(1)) == 0:
				c.AddTerm(p, w...)
			case t.c.Cmp(m1) == 0:
				c.SubTerm(p, w...)
			default:
				c.AddTermWithConst(fe[E](t.c), p, w...)
			}
		}
		return
	}
	var ops []func()
	for _, a := range sp.arith {
		ops = append(ops, func() { ctx.AddArithmeticConstraint(mk(a)) })
	}
	for _, a := range sp.sums {
		ops = append(ops, func() {
			if a.api == "u64" || a.api == "" && a.sum.IsUint64() && a.sum.Bit(0) == 0 {
				ctx.AddSumCheckConstraint(mk(a.ts), a.sum.Uint64())
			} else {
				ctx.AddSumCheckConstraintBig(mk(a.ts), new(big.Int).Set(a.sum))
			}
		})
	}
	chks := map[int]buckler.LinearChecker[E]{}
	for _, l := range sp.lins {
		ops = append(ops, func() {
			if chks[l.chk] == nil {
				chks[l.chk] = s.makeChk(sp.chks[l.chk], sp.rank)
			}
			ctx.AddLinearConstraint(sec[l.out], sec[l.in], chks[l.chk])
		})
	}
	for _, n := range sp.norms {
		ops = append(ops, func() {
			b := new(big.Int).Set(n.b)
			u := b.IsUint64() && b.BitLen()%2 == 0
			switch {
			case n.kind == "inf" && u:
				ctx.AddInfNormConstraint(sec[n.w], b.Uint64())
			case n.kind == "inf":
				ctx.AddInfNormConstraintBig(sec[n.w], b)
			case n.kind == "two" && u:
				ctx.AddSqTwoNormConstraint(sec[n.w], b.Uint64())
			case n.kind == "two":
				ctx.AddSqNormConstraintBig(sec[n.w], b)
			case n.kind == "apx" && u:
				ctx.AddApproxInfNormConstraint(sec[n.w], b.Uint64())
			default:
				ctx.AddApproxInfNormConstraintBig(sec[n.w], b)
			}
		})
	}
	if sp.shuffle != 0 {
		rand.New(rand.NewSource(sp.shuffle)).Shuffle(len(ops), func(i, j int) { ops[i], ops[j] = ops[j], ops[i] })
	}
	for _, f := range ops {
		f()
	}
}

// assigned returns the circuit with public, and perhaps secret, vectors.
func (s *suite[E]) assigned(sp *spec, v vals, sec bool) *circ[E] {
	c := &circ[E]{Def: func(ctx *buckler.Context[E], c *circ[E]) {}}
	for i := range v.pub {
		c.Pub = append(c.Pub, fev[E](v.pub[i]))
	}
	if sec {
		for i := range v.sec {
			c.Sec = append(c.Sec, fev[E](v.sec[i]))
		}
	} else {
		c.Sec = make([]buckler.Witness[E], sp.nSec)
	}
	return c
}

// evalTerms evaluates a constraint at one vector position.
func evalTerms(ts []term, v vals, i int, q *big.Int) *big.Int {
	o := new(big.Int)
	for _, t := range ts {
		x := new(big.Int).Set(t.c)
		if t.pub >= 0 {
			x.Mul(x, v.pub[t.pub][i])
		}
		for _, w := range t.wit {
			x.Mul(x, v.sec[w][i])
			x.Mod(x, q)
		}
		o.Add(o, x)
	}
	return o.Mod(o, q)
}

func centre(x, q *big.Int) *big.Int {
	y := new(big.Int).Mod(x, q)
	if y.Cmp(new(big.Int).Rsh(q, 1)) > 0 {
		y.Sub(y, q)
	}
	return y
}

// violated lists the constraints that the assignment violates; approximate constraints are listed as "apx".
func (s *suite[E]) violated(sp *spec, v vals) []string {
	var o []string
	for k, c := range sp.arith {
		for i := 0; i < sp.rank; i++ {
			if evalTerms(c, v, i, s.q).Sign() != 0 {
				o = append(o, fmt.Sprintf("arith %d row %d", k, i))
			}
		}
	}
	for k, c := range sp.sums {
		t := new(big.Int)
		for i := 0; i < sp.rank; i++ {
			t.Add(t, evalTerms(c.ts, v, i, s.q))
		}
		t.Sub(t, c.sum)
		if t.Mod(t, s.q).Sign() != 0 {
			o = append(o, fmt.Sprintf("sum %d", k))
		}
	}
	for k, l := range sp.lins {
		w := zerov[E](sp.rank)
		s.makeChk(sp.chks[l.chk], sp.rank).TransformTo(w, fev[E](v.sec[l.in]))
		for i := range w {
			if bi(w[i]).Cmp(v.sec[l.out][i]) != 0 {
				o = append(o, fmt.Sprintf("lin %d row %d", k, i))
			}
		}
	}
	for k, n := range sp.norms {
		sq := new(big.Int)
		bad := false
		for _, x := range v.sec[n.w] {
			c := centre(x, s.q)
			if c.CmpAbs(n.b) > 0 {
				bad = true
			}
			sq.Add(sq, c.Mul(c, c))
		}
		if n.kind == "two" {
			bad = sq.Mod(sq, s.q).Cmp(n.b) > 0
		}
		if bad {
			o = append(o, fmt.Sprintf("%s %d", n.kind, k))
		}
	}
	return o
}

// ---- running

type binst[E bignum.Uint[E]] struct {
	s   *suite[E]
	sp  *spec
	crs []byte
	prv *buckler.Prover[E]
	vrf *buckler.Verifier[E] // from a separate compilation
}

func (s *suite[E]) compile(sp *spec, crs string) (*binst[E], error) {
	prv, _, err := buckler.Compile[E](sp.rank, s.circuit(sp), []byte(crs))
	if err != nil {
		return nil, err
	}
	_, vrf, err := buckler.Compile[E](sp.rank, s.circuit(sp), []byte(crs))
	if err != nil {
		return nil, err
	}
	return &binst[E]{s, sp, []byte(crs), prv, vrf}, nil
}

func (b *binst[E]) prove(v vals) (*buckler.Proof[E], error) {
	return b.prv.Prove(b.s.assigned(b.sp, v, true))
}

func (b *binst[E]) verify(v vals, pf *buckler.Proof[E]) bool {
	return b.vrf.Verify(b.s.assigned(b.sp, v, false), pf)
}

// rejected demands that proving v fails or that the proof does not verify; hooks may have been set.
func (b *binst[E]) rejected(t *T, v vals, what string) {
	t.Eval(what)
	t.N("false_statements", 1)
	var pf *buckler.Proof[E]
	var err error
	if p := try(func() { pf, err = b.prove(v) }); p != nil {
		t.N("prover_panicked_on_false_statement", 1)
		return
	}
	setHooks(nil, nil)
	if err != nil {
		t.N("prover_refused_false_statement", 1)
		return
	}
	b.rejectProof(t, v, pf, what)
}

func (b *binst[E]) rejectProof(t *T, v vals, pf *buckler.Proof[E], what string) {
	ok := false
	if p := try(func() { ok = b.verify(v, pf) }); p != nil {
		t.Viol("panic", "%s: verifier panicked: %v", what, p)
		return
	}
	if ok {
		t.Viol("false-accepted", "%s: the verifier accepted", what)
	} else {
		t.N("verifier_rejected", 1)
	}
}

// accepted demands that proving succeeds and that the proof verifies.
func (b *binst[E]) accepted(t *T, v vals, what string) *buckler.Proof[E] {
	t.Eval(what)
	t.N("true_statements", 1)
	pf, err := b.prove(v)
	setHooks(nil, nil)
	if err != nil {
		t.Viol("reject", "%s: prover error %v", what, err)
		return nil
	}
	if !b.verify(v, pf) {
		t.Viol("reject", "%s: true statement rejected", what)
		return nil
	}
	return pf
}

// ---- random circuits

type bld[E bignum.Uint[E]] struct {
	s  *suite[E]
	r  *rand.Rand
	sp *spec
	v  vals
}

func (s *suite[E]) builder(r *rand.Rand, rank int) *bld[E] {
	return &bld[E]{s, r, &spec{rank: rank}, vals{}}
}

func (b *bld[E]) vec(kind int) []*big.Int {
	o := make([]*big.Int, b.sp.rank)
	for i := range o {
		switch kind % 5 {
		case 0, 1:
			o[i] = rndFull(b.r, b.s.q)
		case 2:
			o[i] = rndBig(b.r, b.s.q)
		case 3:
			o[i] = big.NewInt(int64(b.r.Intn(2)))
		case 4:
			o[i] = edgeBig(b.r, b.s.q)
		}
	}
	return o
}

func (b *bld[E]) small(bound *big.Int) []*big.Int {
	o := make([]*big.Int, b.sp.rank)
	w := new(big.Int).Lsh(bound, 1)
	w.Add(w, big.NewInt(1))
	for i := range o {
		x := new(big.Int).Rand(b.r, w)
		switch b.r.Intn(6) {
		case 0:
			x.SetInt64(0)
		case 1:
			x.Lsh(bound, 1)
		}
		x.Sub(x, bound)
		o[i] = x.Mod(x, b.s.q)
	}
	return o
}

func (b *bld[E]) sec(v []*big.Int) int {
	b.v.sec = append(b.v.sec, v)
	b.sp.nSec++
	return b.sp.nSec - 1
}

func (b *bld[E]) pub(v []*big.Int) int {
	b.v.pub = append(b.v.pub, v)
	b.sp.nPub++
	return b.sp.nPub - 1
}

func (b *bld[E]) coef() *big.Int {
	switch b.r.Intn(4) {
	case 0:
		return big.NewInt(1)
	case 1:
		return new(big.Int).Sub(b.s.q, big.NewInt(1))
	case 2:
		return edgeBig(b.r, b.s.q)
	}
	return rndFull(b.r, b.s.q)
}

func (b *bld[E]) terms(n, deg int) []term {
	var ts []term
	for i := 0; i < n; i++ {
		t := term{c: b.coef(), pub: -1}
		if b.sp.nPub > 0 && b.r.Intn(2) == 0 {
			t.pub = b.r.Intn(b.sp.nPub)
		}
		if b.sp.nSec > 0 {
			for d := b.r.Intn(deg + 1); d > 0; d-- {
				t.wit = append(t.wit, b.r.Intn(b.sp.nSec))
			}
		}
		ts = append(ts, t)
	}
	return ts
}

func (b *bld[E]) neg1() *big.Int { return new(big.Int).Sub(b.s.q, big.NewInt(1)) }

// arith adds terms made zero by a fresh secret or public slack vector; it returns the slack's index.
func (b *bld[E]) arith(ts []term, pubSlack bool) int {
	o := make([]*big.Int, b.sp.rank)
	for i := range o {
		o[i] = evalTerms(ts, b.v, i, b.s.q)
	}
	var k int
	if pubSlack {
		k = b.pub(o)
		ts = append(ts, term{b.neg1(), k, nil})
	} else {
		k = b.sec(o)
		ts = append(ts, term{b.neg1(), -1, []int{k}})
	}
	b.r.Shuffle(len(ts), func(i, j int) { ts[i], ts[j] = ts[j], ts[i] })
	b.sp.arith = append(b.sp.arith, ts)
	return k
}

// sum adds a sum constraint with the true sum as declared sum.
func (b *bld[E]) sum(ts []term) int {
	t := new(big.Int)
	for i := 0; i < b.sp.rank; i++ {
		t.Add(t, evalTerms(ts, b.v, i, b.s.q))
	}
	b.sp.sums = append(b.sp.sums, sumC{ts: ts, sum: t.Mod(t, b.s.q)})
	return len(b.sp.sums) - 1
}

// lin adds a linear constraint with a fresh output.
func (b *bld[E]) lin(in int, chk int) int {
	w := zerov[E](b.sp.rank)
	b.s.makeChk(b.sp.chks[chk], b.sp.rank).TransformTo(w, fev[E](b.v.sec[in]))
	k := b.sec(biv(w))
	b.sp.lins = append(b.sp.lins, linC{k, in, chk})
	return k
}

func (b *bld[E]) chk(name string) int {
	b.sp.chks = append(b.sp.chks, name)
	return len(b.sp.chks) - 1
}

var chkKinds = []string{"ntt", "autc:5", "autn:5", "autc:-1", "autn:3", "mat:7", "id", "perm:3", "shift", "zero", "autn:-1", "mat:9", "vmat:3", "fmat:4"}

func (b *bld[E]) randChk() int {
	n := chkKinds[b.r.Intn(len(chkKinds))]
	if strings.HasPrefix(n, "aut") {
		n = fmt.Sprintf("%s:%d", n[:4], 2*b.r.Intn(b.sp.rank)+1)
	}
	return b.chk(n)
}

// norm adds a norm constraint on a fresh witness that satisfies it.
func (b *bld[E]) norm(kind string, bound *big.Int) int {
	var v []*big.Int
	if kind == "two" {
		v = make([]*big.Int, b.sp.rank)
		rest := new(big.Int).Set(bound)
		for i := range v {
			m := new(big.Int).Sqrt(rest)
			if m.Sign() > 0 && b.r.Intn(3) > 0 {
				m.Rand(b.r, new(big.Int).Add(m, big.NewInt(1)))
			}
			rest.Sub(rest, new(big.Int).Mul(m, m))
			if b.r.Intn(2) == 0 {
				m.Neg(m)
			}
			v[i] = m.Mod(m, b.s.q)
		}
		b.r.Shuffle(len(v), func(i, j int) { v[i], v[j] = v[j], v[i] })
	} else {
		v = b.small(bound)
	}
	k := b.sec(v)
	b.sp.norms = append(b.sp.norms, normC{k, bound, kind})
	return k
}

// random adds a random mix of constraints.
func (b *bld[E]) random(maxDeg int, apx bool) {
	r := b.r
	for i := r.Intn(3); i > 0; i-- {
		b.pub(b.vec(r.Intn(5)))
	}
	for i := r.Intn(3); i > 0; i-- {
		b.sec(b.vec(r.Intn(5)))
	}
	if b.sp.nPub+b.sp.nSec == 0 {
		b.sec(b.vec(0))
	}
	mix := 1 + r.Intn(31)
	if mix&1 != 0 {
		for i := 1 + r.Intn(3); i > 0; i-- {
			b.arith(b.terms(1+r.Intn(3), maxDeg), r.Intn(2) == 0)
		}
	}
	if mix&2 != 0 && b.sp.nSec > 0 {
		for i := 1 + r.Intn(2); i > 0; i-- {
			c := b.randChk()
			for j := 1 + r.Intn(2); j > 0; j-- {
				b.lin(r.Intn(b.sp.nSec), c)
			}
		}
	}
	if mix&4 != 0 {
		for i := 1 + r.Intn(2); i > 0; i-- {
			bd := big.NewInt(int64([]int{0, 1, 2, 3, 4, 5, 7, 8, 100, 1 << 20}[r.Intn(10)]))
			k := b.norm("inf", bd)
			if r.Intn(4) == 0 { // a second, looser bound on the same witness
				b.sp.norms = append(b.sp.norms, normC{k, new(big.Int).Add(bd, big.NewInt(int64(r.Intn(5)))), "inf"})
			}
		}
	}
	if mix&8 != 0 {
		for i := 1 + r.Intn(2); i > 0; i-- {
			m := min(b.sp.rank, 20)
			bd := big.NewInt(r.Int63n(1 << m))
			k := b.norm("two", bd)
			if r.Intn(4) == 0 && bd.BitLen() < b.sp.rank {
				b.sp.norms = append(b.sp.norms, normC{k, new(big.Int).Add(bd, big.NewInt(int64(r.Intn(2)))), "two"})
			}
		}
		// bounds with more binary digits than vector entries are out of scope
		for i := range b.sp.norms {
			if n := b.sp.norms[i]; n.kind == "two" && n.b.BitLen() > b.sp.rank {
				b.sp.norms[i].b.Sub(n.b, big.NewInt(1))
			}
		}
	}
	if apx {
		bd := big.NewInt(int64(1 + r.Intn(2)))
		for bd.BitLen()+bigLog(b.sp.rank) > b.sp.rank/128 && bd.Sign() > 0 {
			bd.Rsh(bd, 1)
		}
		if bd.Sign() > 0 {
			b.norm("apx", bd)
		}
	}
	if mix&16 != 0 {
		for i := 1 + r.Intn(2); i > 0; i-- {
			b.sum(b.terms(1+r.Intn(3), maxDeg))
		}
	}
	if b.sp.nSec+len(b.sp.arith)+len(b.sp.sums) == 0 {
		b.sec(b.vec(0)) // a circuit with public vectors only states nothing
	}
	b.sp.shuffle = r.Int63() | 1
}

func bigLog(n int) int { return new(big.Int).SetInt64(int64(n)).BitLen() }

func (sp *spec) String() string {
	return fmt.Sprintf("rank %d: %d public, %d secret vectors; %d arithmetic, %d linear, %d sum, %d norm constraints", sp.rank, sp.nPub, sp.nSec, len(sp.arith), len(sp.lins), len(sp.sums), len(sp.norms))
}

// detail describes the circuit for a violation report.
func (sp *spec) detail() string {
	var o []string
	for _, a := range sp.arith {
		o = append(o, "arith "+termsStr(a))
	}
	for _, a := range sp.sums {
		o = append(o, "sum "+termsStr(a.ts)+" = "+fstr(a.sum))
	}
	for _, l := range sp.lins {
		o = append(o, fmt.Sprintf("lin w%d = %s(w%d)", l.out, sp.chks[l.chk], l.in))
	}
	for _, n := range sp.norms {
		o = append(o, fmt.Sprintf("%s(w%d) <= %s", n.kind, n.w, fstr(n.b)))
	}
	return sp.String() + ": " + strings.Join(o, "; ")
}

func termsStr(ts []term) string {
	var o []string
	for _, t := range ts {
		x := fstr(t.c)
		if t.pub >= 0 {
			x += fmt.Sprint(" p", t.pub)
		}
		for _, w := range t.wit {
			x += fmt.Sprint(" w", w)
		}
		o = append(o, x)
	}
	return strings.Join(o, " + ")
}

func cpBProof[E bignum.Uint[E]](p *buckler.Proof[E]) *buckler.Proof[E] {
	o := &buckler.Proof[E]{Witness: cpComs(p.Witness), Evals: cpv(p.Evals), EvalProof: cpProof(p.EvalProof), LinCheckMaskSum: p.LinCheckMaskSum, SumCheckMaskSum: p.SumCheckMaskSum}
	if !isNil(p.LinCheckMaskSum) {
		o.LinCheckMaskSum = cp(p.LinCheckMaskSum)
	}
	if !isNil(p.SumCheckMaskSum) {
		o.SumCheckMaskSum = cp(p.SumCheckMaskSum)
	}
	return o
}

func isNil[E bignum.Uint[E]](e E) bool { var z E; return any(e) == any(z) }
