package main

import (
	"fmt"
	"math/rand"
	"reflect"

	"github.com/sp301415/ringo-snark/buckler"
	"github.com/sp301415/ringo-snark/jindo"
	"github.com/sp301415/ringo-snark/math/bignum"
	"github.com/tuneinsight/lattigo/v6/ring"
)

func init() {
	registry["C19"] = casesC19
	registry["C30"] = casesC30
}

func casesC19(cfg Cfg) []Case {
	var cs []Case
	for i, kind := range nestKinds {
		for j, rank := range []int{16, 1, 64, 2} {
			if j >= cfg.pick(2, 4) {
				break
			}
			f := bkFields[(i+3*j)%len(bkFields)]
			cs = append(cs, Case{Name: fmt.Sprintf("assign/%s/%s/r%d", f, kind, rank), Run: func(t *T) { field(f).S.malformedAssign(t, kind, rank) }})
		}
	}
	for i, f := range bkFields {
		if i < cfg.pick(3, len(bkFields)) {
			cs = append(cs, Case{Name: "compile/" + f, Run: func(t *T) { field(f).S.malformedCircuit(t) }})
		}
	}
	return cs
}

// ---- assignments

// other is a circuit type with the same fields as shape.
type other[E bignum.Uint[E]] shape[E]

func (c *other[E]) Define(ctx *buckler.Context[E]) { (*shape[E])(c).Define(ctx) }

// wrapper embeds a shape.
type wrapper[E bignum.Uint[E]] struct{ shape[E] }

func (s *suite[E]) malformedAssign(t *T, kind string, rank int) {
	mk := func() *shape[E] {
		c := newShape[E](kind)
		c.visited = func(sec []buckler.Witness[E], pub []buckler.PublicWitness[E], ctx *buckler.Context[E]) {
			for k := range sec {
				var a buckler.ArithmeticConstraint[E]
				a.AddTerm(pub[k%len(pub)], sec[k])
				a.SubTerm(pub[k%len(pub)], sec[k])
				ctx.AddArithmeticConstraint(a)
			}
			ctx.AddInfNormConstraint(sec[0], 3)
			ctx.AddSqTwoNormConstraint(sec[len(sec)-1], 1)
		}
		return c
	}
	// fill assigns every vector; nw and np count them
	fill := func(c *shape[E], sec bool) (nw, np int) {
		c.each(func(x *buckler.Witness[E]) {
			if sec {
				*x = zerov[E](rank)
			}
			nw++
		}, func(x *buckler.PublicWitness[E]) {
			*x = zerov[E](rank)
			for i := range *x {
				(*x)[i].SetInt64(int64(np + i))
			}
			np++
		})
		return
	}
	prv, vrf, err := buckler.Compile[E](rank, mk(), []byte("malformed"))
	if err != nil {
		t.Viol("compile", "%s: %v", kind, err)
		return
	}
	a := mk()
	nw, np := fill(a, true)
	pf, err := prv.Prove(a)
	if err != nil || !vrf.Verify(a, pf) {
		t.Viol("reject", "%s: well-formed assignment rejected: %v", kind, err)
		return
	}
	refuse := func(what string, c buckler.Circuit[E]) {
		t.Eval(fmt.Sprint(s.name, kind, rank, "prove", what))
		t.N("malformed_assignments_proved", 1)
		var pf *buckler.Proof[E]
		var err error
		if p := try(func() { pf, err = prv.Prove(c) }); p != nil {
			t.Viol("panic", "%s rank %d: %s: the prover panicked instead of reporting an error: %v", kind, rank, what, p)
		} else if err == nil {
			t.Viol("proved", "%s rank %d: %s: the prover made a proof", kind, rank, what)
		} else if pf != nil {
			t.Viol("proved", "%s rank %d: %s: the prover returned a proof with an error", kind, rank, what)
		}
	}
	reject := func(what string, c buckler.Circuit[E]) {
		t.Eval(fmt.Sprint(s.name, kind, rank, "verify", what))
		t.N("malformed_assignments_verified", 1)
		ok := false
		if p := try(func() { ok = vrf.Verify(c, pf) }); p != nil {
			t.Viol("panic", "%s rank %d: %s: the verifier panicked: %v", kind, rank, what, p)
		} else if ok {
			t.Viol("accepted", "%s rank %d: %s: the verifier accepted", kind, rank, what)
		}
	}
	lens := []int{-1, 0, rank - 1, rank + 1, 2 * rank, 1, rank / 2}
	mkv := func(n int) []E {
		if n < 0 {
			return nil
		}
		return zerov[E](n)
	}
	// some are the places to alter: all, or enough to cover long declarations
	some := func(n int) []int {
		if n > 20 {
			return uniq(0, 1, min(n-1, 63), min(n-1, 64), t.R.Intn(n), t.R.Intn(n), n-2, n-1)
		}
		o := make([]int, n)
		for i := range o {
			o[i] = i
		}
		return o
	}
	for _, n := range lens {
		if n == rank {
			continue
		}
		for j, i := range some(nw) {
			c := mk()
			fill(c, true)
			k := 0
			c.each(func(x *buckler.Witness[E]) {
				if k == i {
					*x = mkv(n)
				}
				k++
			}, func(*buckler.PublicWitness[E]) {})
			refuse(fmt.Sprintf("secret vector %d of length %d", i, n), c)
			if n < 0 || nw > 20 && (n != 1 || j > 2) {
				continue
			}
			// the verifier does not look at secret vectors
			t.N("secret_vectors_ignored", 1)
			if !vrf.Verify(c, pf) {
				t.Viol("reject", "%s rank %d: proof rejected because of secret vector %d of length %d", kind, rank, i, n)
			}
		}
		for _, i := range some(np) {
			c := mk()
			fill(c, true)
			k := 0
			c.each(func(*buckler.Witness[E]) {}, func(x *buckler.PublicWitness[E]) {
				if k == i {
					v := mkv(n)
					for j := range v {
						v[j].SetInt64(int64(i + j))
					}
					*x = v
				}
				k++
			})
			refuse(fmt.Sprintf("public vector %d of length %d", i, n), c)
			reject(fmt.Sprintf("public vector %d of length %d", i, n), c)
		}
		c := mk()
		fill(c, true)
		c.each(func(x *buckler.Witness[E]) { *x = mkv(n) }, func(x *buckler.PublicWitness[E]) { *x = mkv(n) })
		refuse(fmt.Sprintf("all vectors of length %d", n), c)
		reject(fmt.Sprintf("all vectors of length %d", n), c)
	}
	// numbers of vectors
	for _, e := range []struct {
		what string
		pub  bool
		f    func(c *shape[E]) bool
	}{
		{"pointer set to nil", true, func(c *shape[E]) bool { ok := c.Ptr != nil; c.Ptr = nil; return ok }},
		{"pointer to a pointer set to nil", true, func(c *shape[E]) bool { ok := c.PtrPtr != nil; c.PtrPtr = nil; return ok }},
		{"inner pointer set to nil", true, func(c *shape[E]) bool {
			if c.PtrPtr != nil {
				var l *leaf[E]
				c.PtrPtr = &l
			}
			return c.PtrPtr != nil
		}},
		{"pointer to a secret vector set to nil", false, func(c *shape[E]) bool { ok := c.WPtr != nil; c.WPtr = nil; return ok }},
		{"pointer to a public vector set to nil", true, func(c *shape[E]) bool { ok := c.PPtr != nil; c.PPtr = nil; return ok }},
		{"additional pointer", true, func(c *shape[E]) bool { c.NilPtr = &leaf[E]{}; return true }},
		{"additional vector in an interface", false, func(c *shape[E]) bool { c.NilIf = &buckler.Witness[E]{}; return true }},
		{"additional public vector in an interface", true, func(c *shape[E]) bool { c.NilIf = &buckler.PublicWitness[E]{}; return true }},
		{"longer slice", true, func(c *shape[E]) bool { c.Slice = append(c.Slice, leaf[E]{}); return true }},
		{"shorter slice", true, func(c *shape[E]) bool {
			ok := len(c.Slice) > 0
			if ok {
				c.Slice = c.Slice[:len(c.Slice)-1]
			}
			return ok
		}},
		{"slice set to nil", true, func(c *shape[E]) bool { ok := len(c.Slice) > 0; c.Slice = nil; return ok }},
		{"longer inner slice", false, func(c *shape[E]) bool {
			c.Slices = append(c.Slices, make([]buckler.Witness[E], 1))
			return true
		}},
		{"shorter inner slice", false, func(c *shape[E]) bool {
			ok := len(c.Slices) > 0 && len(c.Slices[0]) > 1
			if ok {
				c.Slices[0] = c.Slices[0][:1]
			}
			return ok
		}},
		{"pointer in a slice set to nil", true, func(c *shape[E]) bool {
			ok := len(c.Ptrs) > 0 && c.Ptrs[0] != nil
			if ok {
				c.Ptrs[0] = nil
			}
			return ok
		}},
		{"nil pointer in a slice set", true, func(c *shape[E]) bool {
			ok := len(c.Ptrs) > 1 && c.Ptrs[1] == nil
			if ok {
				c.Ptrs[1] = &leaf[E]{}
			}
			return ok
		}},
		{"interface set to nil", true, func(c *shape[E]) bool { ok := c.Iface != nil; c.Iface = nil; return ok }},
		{"interface holds something else", true, func(c *shape[E]) bool { ok := c.Iface != nil; c.Iface = 5; return ok }},
	} {
		c := mk()
		if !e.f(c) {
			continue
		}
		fill(c, true)
		if x, ok := c.NilIf.(*buckler.Witness[E]); ok {
			*x = zerov[E](rank)
		}
		if x, ok := c.NilIf.(*buckler.PublicWitness[E]); ok {
			*x = zerov[E](rank)
		}
		if c.NilPtr != nil {
			c.NilPtr.A, c.NilPtr.P = zerov[E](rank), zerov[E](rank)
		}
		refuse(e.what, c)
		if e.pub {
			reject(e.what, c)
		}
	}
	// types
	c := mk()
	fill(c, true)
	o := other[E](*c)
	w := &wrapper[E]{*c}
	for _, x := range []struct {
		what string
		c    buckler.Circuit[E]
	}{{"another type with the same fields", &o}, {"a type that embeds the circuit", w}, {"no circuit", nil}, {"generic circuit", &circ[E]{Pub: make([]buckler.PublicWitness[E], np), Sec: make([]buckler.Witness[E], nw)}}} {
		refuse(x.what, x.c)
		reject(x.what, x.c)
	}
	var np0 *shape[E]
	refuse("nil pointer", np0)
	reject("nil pointer", np0)
	// the instances still work
	c = mk()
	fill(c, true)
	pf2, err := prv.Prove(c)
	if err != nil || !vrf.Verify(c, pf2) || !vrf.Verify(c, pf) {
		t.Viol("reject", "%s: well-formed assignment rejected after malformed ones: %v", kind, err)
	}
	t.Sample("%s rank %d: %d secret, %d public vectors; %d malformed assignments refused", kind, rank, nw, np, t.ctr["malformed_assignments_proved"])
}

// ---- circuits

type valCirc[E bignum.Uint[E]] struct {
	W buckler.Witness[E]
	P buckler.PublicWitness[E]
}

func (c valCirc[E]) Define(ctx *buckler.Context[E]) {}

// fnCirc is a circuit with a payload of any type.
type payload[E bignum.Uint[E], X any] struct {
	W buckler.Witness[E]
	X X
}

func (c *payload[E, X]) Define(ctx *buckler.Context[E]) {
	var a buckler.ArithmeticConstraint[E]
	a.AddTerm(nil, c.W)
	ctx.AddArithmeticConstraint(a)
}

type hiddenW[E bignum.Uint[E]] struct{ w buckler.Witness[E] }
type hiddenP[E bignum.Uint[E]] struct{ p buckler.PublicWitness[E] }
type hiddenIn[E bignum.Uint[E]] struct{ l leaf[E] }
type hiddenPtr[E bignum.Uint[E]] struct{ l *leaf[E] }
type hiddenSl[E bignum.Uint[E]] struct{ l []buckler.Witness[E] }
type hiddenArr[E bignum.Uint[E]] struct{ l [2]buckler.PublicWitness[E] }
type hiddenIf[E bignum.Uint[E]] struct{ l any }

type mapCirc[E bignum.Uint[E]] map[string]buckler.Witness[E]

func (c mapCirc[E]) Define(ctx *buckler.Context[E]) {}

type sliceCirc[E bignum.Uint[E]] []buckler.Witness[E]

func (c sliceCirc[E]) Define(ctx *buckler.Context[E]) {}

func (s *suite[E]) malformedCircuit(t *T) {
	for _, rank := range []int{16, 1} {
		refuse := func(what string, c buckler.Circuit[E]) {
			t.Eval(fmt.Sprint(s.name, rank, what))
			t.N("malformed_circuits", 1)
			var p *buckler.Prover[E]
			var v *buckler.Verifier[E]
			var err error
			if e := try(func() { p, v, err = buckler.Compile[E](rank, c, []byte("x")) }); e != nil {
				t.Viol("panic", "%s rank %d: compilation panicked instead of reporting an error: %v", what, rank, e)
			} else if err == nil || p != nil || v != nil {
				t.Viol("compiled", "%s rank %d: compiled without an error", what, rank)
			}
		}
		refuse("nil circuit", nil)
		refuse("circuit that is not a pointer", valCirc[E]{})
		refuse("slice circuit that is not a pointer", sliceCirc[E]{nil, nil})
		refuse("map circuit", mapCirc[E]{})
		refuse("unexported secret vector", &payload[E, hiddenW[E]]{})
		refuse("unexported public vector", &payload[E, hiddenP[E]]{})
		refuse("vectors in an unexported struct", &payload[E, hiddenIn[E]]{})
		refuse("vectors behind an unexported pointer", &payload[E, hiddenPtr[E]]{X: hiddenPtr[E]{&leaf[E]{}}})
		refuse("vectors in an unexported slice", &payload[E, hiddenSl[E]]{X: hiddenSl[E]{make([]buckler.Witness[E], 2)}})
		refuse("vectors in an unexported array", &payload[E, hiddenArr[E]]{})
		refuse("vectors behind an unexported interface", &payload[E, hiddenIf[E]]{X: hiddenIf[E]{&leaf[E]{}}})
		refuse("struct held by an interface", &payload[E, any]{X: leaf[E]{}})
		refuse("secret vector held by an interface", &payload[E, any]{X: buckler.Witness[E](nil)})
		refuse("public vector held by an interface", &payload[E, any]{X: buckler.PublicWitness[E](nil)})
		refuse("array held by an interface", &payload[E, any]{X: [1]buckler.Witness[E]{}})
		refuse("unexported vector in a slice of structs", &payload[E, []hiddenW[E]]{X: make([]hiddenW[E], 2)})
		refuse("unexported vector behind a pointer", &payload[E, *hiddenW[E]]{X: &hiddenW[E]{}})
		refuse("unexported vector behind pointers and an interface", &payload[E, any]{X: []any{&[]*hiddenP[E]{{}}}})
		// unexported fields without vectors, and settable vectors anywhere, are fine
		for i, c := range []buckler.Circuit[E]{
			&payload[E, hiddenPtr[E]]{}, &payload[E, hiddenSl[E]]{}, &payload[E, hiddenIf[E]]{X: hiddenIf[E]{5}}, &payload[E, func()]{},
			&payload[E, any]{X: []buckler.Witness[E]{nil}}, &payload[E, any]{X: &[1]buckler.Witness[E]{}}, &payload[E, chan int]{}, &payload[E, map[string]int]{X: map[string]int{"a": 1}},
		} {
			t.Eval(fmt.Sprint(s.name, rank, "ok", i))
			t.N("well_formed_circuits", 1)
			p, v, err := buckler.Compile[E](rank, c, []byte("x"))
			if err != nil || p == nil || v == nil {
				t.Viol("reject", "well-formed circuit %d (%T) refused: %v", i, c, err)
			}
		}
	}
	t.Sample("%s: %d malformed circuits refused, %d well-formed ones compiled", s.name, t.ctr["malformed_circuits"], t.ctr["well_formed_circuits"])
}

// ---- C30: proofs

func casesC30(cfg Cfg) []Case {
	cs := bindCases(cfg, "proof", 14, 140, Suite.malformedProof)
	for i, c := range []pcsCfg{{"zp255", 600, 1}, {"zp110", 300, 3}, {"zp220", 2048, 1}, {"zp440", 200, 2}, {"zp220", 20, 36}, {"zp880", 150, 1}, {"zp128", 1000, 2}, {"zp240", 64, 4}, {"zp255", 20000, 1}, {"zp110", 20, 140}} {
		if i < cfg.pick(5, 10) {
			cs = append(cs, Case{Name: fmt.Sprint("opening/", c), Run: func(t *T) { field(c.f).S.malformedOpening(t, c.n, c.b) }})
		}
	}
	return cs
}

type malform[E bignum.Uint[E]] struct {
	what string
	f    func(p *buckler.Proof[E])
}

// polyForms lists ways to spoil a list of polynomials.
func polyForms(r *rand.Rand, n, lvl int, p *[]ring.Poly) []struct {
	what string
	f    func()
} {
	type m = struct {
		what string
		f    func()
	}
	i := r.Intn(max(1, len(*p)))
	return []m{
		{"nil list", func() { *p = nil }},
		{"empty list", func() { *p = []ring.Poly{} }},
		{"list without its last entry", func() { *p = (*p)[:len(*p)-1] }},
		{"list without its first entry", func() { *p = (*p)[1:] }},
		{"list with one more entry", func() { *p = append(*p, (*p)[0]) }},
		{"list doubled", func() { *p = append(*p, *p...) }},
		{"list with one more empty entry", func() { *p = append(*p, ring.Poly{}) }},
		{"empty polynomial", func() { (*p)[i] = ring.Poly{} }},
		{"polynomial without limbs", func() { (*p)[i].Coeffs = (*p)[i].Coeffs[:0] }},
		{"polynomial with too few limbs", func() { (*p)[i].Coeffs = (*p)[i].Coeffs[:lvl] }},
		{"polynomial with a nil limb", func() { (*p)[i].Coeffs[r.Intn(lvl+1)] = nil }},
		{"polynomial with a short limb", func() { (*p)[i].Coeffs[lvl] = (*p)[i].Coeffs[lvl][:n-1] }},
		{"polynomial with a short first limb", func() { (*p)[i].Coeffs[0] = (*p)[i].Coeffs[0][:n/2] }},
		{"first polynomial with a short limb", func() { (*p)[0].Coeffs[0] = (*p)[0].Coeffs[0][:1] }},
		{"last polynomial with a short limb", func() { q := &(*p)[len(*p)-1]; q.Coeffs[0] = q.Coeffs[0][:0] }},
	}
}

func (s *suite[E]) malforms(t *T, p jindo.Parameters, pf *buckler.Proof[E]) []malform[E] {
	var o []malform[E]
	add := func(what string, f func(p *buckler.Proof[E])) { o = append(o, malform[E]{what, f}) }
	n := len(pf.Witness)
	i := t.R.Intn(n)
	add("nil commitments", func(p *buckler.Proof[E]) { p.Witness = nil })
	add("no commitments", func(p *buckler.Proof[E]) { p.Witness = p.Witness[:0] })
	add("first commitment only", func(p *buckler.Proof[E]) { p.Witness = p.Witness[:1] })
	add("last commitment missing", func(p *buckler.Proof[E]) { p.Witness = p.Witness[:n-1] })
	add("first commitment missing", func(p *buckler.Proof[E]) { p.Witness = p.Witness[1:] })
	add("one commitment more", func(p *buckler.Proof[E]) { p.Witness = append(p.Witness, p.Witness[0]) })
	add("commitments doubled", func(p *buckler.Proof[E]) { p.Witness = append(p.Witness, p.Witness...) })
	add("commitment nil", func(p *buckler.Proof[E]) { p.Witness[i] = nil })
	add("last commitment nil", func(p *buckler.Proof[E]) { p.Witness[n-1] = nil })
	add("first commitment nil", func(p *buckler.Proof[E]) { p.Witness[0] = nil })
	add("commitment empty", func(p *buckler.Proof[E]) { p.Witness[i] = &jindo.Commitment{} })
	add("nil evaluations", func(p *buckler.Proof[E]) { p.Evals = nil })
	add("no evaluations", func(p *buckler.Proof[E]) { p.Evals = p.Evals[:0] })
	add("last evaluation missing", func(p *buckler.Proof[E]) { p.Evals = p.Evals[:n-1] })
	add("first evaluation only", func(p *buckler.Proof[E]) { p.Evals = p.Evals[:1] })
	add("one evaluation more", func(p *buckler.Proof[E]) { p.Evals = append(p.Evals, fi[E](0)) })
	add("one nil evaluation more", func(p *buckler.Proof[E]) { var z E; p.Evals = append(p.Evals, z) })
	add("evaluation nil", func(p *buckler.Proof[E]) { var z E; p.Evals[i] = z })
	add("last evaluation nil", func(p *buckler.Proof[E]) { var z E; p.Evals[n-1] = z })
	add("commitments and evaluations shortened", func(p *buckler.Proof[E]) { p.Witness, p.Evals = p.Witness[:n-1], p.Evals[:n-1] })
	add("commitments and evaluations extended", func(p *buckler.Proof[E]) {
		p.Witness, p.Evals = append(p.Witness, cpCom(p.Witness[0])), append(p.Evals, cp(p.Evals[0]))
	})
	if !isNil(pf.LinCheckMaskSum) {
		add("linear mask sum nil", func(p *buckler.Proof[E]) { var z E; p.LinCheckMaskSum = z })
	}
	if !isNil(pf.SumCheckMaskSum) {
		add("sum mask sum nil", func(p *buckler.Proof[E]) { var z E; p.SumCheckMaskSum = z })
	}
	add("nil evaluation proof", func(p *buckler.Proof[E]) { p.EvalProof = nil })
	add("empty evaluation proof", func(p *buckler.Proof[E]) { p.EvalProof = &jindo.Proof{} })
	add("evaluation proof of zeros", func(p *buckler.Proof[E]) { p.EvalProof = zeroProof(p.EvalProof) })
	add("empty proof", func(p *buckler.Proof[E]) { *p = buckler.Proof[E]{} })
	N := p.RingQ().N()
	for k := range polyForms(t.R, N, p.RingQOut().Level(), &[]ring.Poly{{}}) {
		k := k
		seed := t.R.Int63()
		pick := func(lvl int, l *[]ring.Poly) string {
			m := polyForms(rand.New(rand.NewSource(seed)), N, lvl, l)[k]
			try(m.f)
			return m.what
		}
		q := cpBProof(pf)
		w := pick(p.RingQOut().Level(), &q.Witness[i].Value)
		add(fmt.Sprintf("commitment %d: %s", i, w), func(p1 *buckler.Proof[E]) { pick(p.RingQOut().Level(), &p1.Witness[i].Value) })
		add(w+" of the inner commitments", func(p1 *buckler.Proof[E]) { pick(p.RingQOut().Level(), &p1.EvalProof.InCommit) })
		add(w+" of the partial evaluations", func(p1 *buckler.Proof[E]) { pick(p.RingQ().Level(), &p1.EvalProof.Partial) })
		add(w+" of the encoding responses", func(p1 *buckler.Proof[E]) { pick(p.RingQ().Level(), &p1.EvalProof.Encode) })
		add(w+" of the randomness responses", func(p1 *buckler.Proof[E]) { pick(p.RingQ().Level(), &p1.EvalProof.MLWE) })
		add(w+" of the partial mask", func(p1 *buckler.Proof[E]) {
			l := []ring.Poly{p1.EvalProof.PartialMask}
			pick(p.RingQ().Level(), &l)
			if len(l) == 1 {
				p1.EvalProof.PartialMask = l[0]
			} else {
				p1.EvalProof.PartialMask = ring.Poly{}
			}
		})
	}
	// well-formed parts full of arbitrary residues
	for k, name := range []string{"inner commitments", "partial evaluations", "partial mask", "encoding responses", "randomness responses"} {
		for _, how := range []string{"ones", "random"} {
			add(name+" overwritten with "+how, func(p *buckler.Proof[E]) {
				e := p.EvalProof
				for _, q := range [][]ring.Poly{e.InCommit, e.Partial, {e.PartialMask}, e.Encode, e.MLWE}[k] {
					for l := range q.Coeffs {
						for c := range q.Coeffs[l] {
							q.Coeffs[l][c] = ^uint64(0)
							if how == "random" {
								q.Coeffs[l][c] = t.R.Uint64()
							}
						}
					}
				}
			})
		}
	}
	return o
}

func zeroProof(p *jindo.Proof) *jindo.Proof {
	o := cpProof(p)
	for _, l := range [][]ring.Poly{o.InCommit, o.Partial, {o.PartialMask}, o.Encode, o.MLWE} {
		for i := range l {
			l[i].Zero()
		}
	}
	return o
}

func (s *suite[E]) malformedProof(t *T, rank, k int) {
	b := s.bkStmt(t, rank, k)
	in, err := s.compile(b.sp, fmt.Sprint("malformed", k))
	if err != nil {
		t.Viol("compile", "%v", err)
		return
	}
	what := s.name + " " + b.sp.detail()
	pf, err := in.prove(b.v)
	if err != nil || !in.verify(b.v, pf) {
		t.Viol("reject", "%s: honest proof rejected (%v)", what, err)
		return
	}
	judge := func(kind string, p *buckler.Proof[E]) {
		if reflect.DeepEqual(p, pf) {
			t.N("changes_cancelled", 1)
			return
		}
		t.Eval(what + "/" + kind)
		t.N("malformed_proofs", 1)
		ok := false
		if e := try(func() { ok = in.verify(b.v, p) }); e != nil {
			t.Viol("panic", "%s: %s: the verifier panicked: %v", what, kind, e)
		} else if ok {
			t.Viol("accepted", "%s: %s: the verifier accepted", what, kind)
		}
	}
	judge("no proof", nil)
	ms := s.malforms(t, in.prv.JindoParams, pf)
	for _, m := range ms {
		p := cpBProof(pf)
		m.f(p)
		judge(m.what, p)
	}
	for i := 0; i < t.cfg.pick(20, 100); i++ {
		p := cpBProof(pf)
		w := ""
		for j := 0; j < 2+t.R.Intn(2); j++ {
			m := ms[t.R.Intn(len(ms))]
			try(func() { m.f(p) })
			w += m.what + "; "
		}
		judge(w, p)
	}
	if !in.verify(b.v, pf) {
		t.Viol("reject", "%s: honest proof rejected after malformed ones", what)
	}
	t.Sample("%s: %d malformed proofs rejected without a crash", b.sp, t.ctr["malformed_proofs"])
}

func (s *suite[E]) malformedOpening(t *T, n, b int) {
	p := s.newPCS(n, b, []byte("malformed"))
	var A []committed[E]
	for i := 0; i < b; i++ {
		A = append(A, p.commit(s.rndv(t.R, p.params.Rank())))
	}
	x := s.rnd(t.R)
	y, pf := p.evaluate(x, A)
	what := cfgStr(s.name, n, b)
	wrap := &buckler.Proof[E]{Witness: coms(A), Evals: y, EvalProof: pf}
	judge := func(kind string, q *buckler.Proof[E]) {
		if reflect.DeepEqual(q, wrap) {
			t.N("changes_cancelled", 1)
			return
		}
		t.Eval(what + "/" + kind)
		t.N("malformed_openings", 1)
		ok := false
		nilY := false
		for i := range q.Evals {
			nilY = nilY || isNil(q.Evals[i])
		}
		if e := try(func() { ok = p.vrf.Verify(x, q.Witness, q.Evals, q.EvalProof) }); e != nil {
			// a wrong number of commitments or values is refused by a panic
			if len(q.Witness) != b || len(q.Evals) != b || nilY {
				t.N("refused_by_panic", 1)
				return
			}
			t.Viol("panic", "%s: %s: the verifier panicked: %v", what, kind, e)
		} else if ok {
			t.Viol("accepted", "%s: %s: the verifier accepted", what, kind)
		}
	}
	if !p.vrf.Verify(x, wrap.Witness, y, pf) {
		t.Viol("reject", "%s: honest opening rejected", what)
		return
	}
	ms := s.malforms(t, p.params, wrap)
	for _, m := range ms {
		q := cpBProof(wrap)
		m.f(q)
		judge(m.what, q)
	}
	for i := 0; i < t.cfg.pick(20, 100); i++ {
		q := cpBProof(wrap)
		w := ""
		for j := 0; j < 2; j++ {
			m := ms[t.R.Intn(len(ms))]
			try(func() { m.f(q) })
			w += m.what + "; "
		}
		judge(w, q)
	}
	if !p.vrf.Verify(x, wrap.Witness, y, pf) {
		t.Viol("reject", "%s: honest opening rejected after malformed ones", what)
	}
	t.Sample("%s: %d malformed openings rejected without a crash", what, t.ctr["malformed_openings"])
}
