package main

import (
	"fmt"
	"math/big"

	"github.com/sp301415/ringo-snark/buckler"
	"github.com/sp301415/ringo-snark/math/bignum"
)

func init() { registry["C09"] = casesC09 }

var bkFields = []string{"zp220", "zp110", "zp440", "zp255", "zp240", "zp880", "zp128"}

func casesC09(cfg Cfg) []Case {
	var cs []Case
	ranks := []int{16, 8, 32, 4, 64, 2, 128, 1, 256}
	for k := 0; k < cfg.pick(60, 1200); k++ {
		f := bkFields[k%len(bkFields)]
		rank := ranks[(k/2)%len(ranks)]
		cs = append(cs, Case{Name: fmt.Sprintf("random/%s/r%d/%d", f, rank, k), Run: func(t *T) { field(f).S.bkRandom(t, rank, k) }})
	}
	for i := range nestKinds {
		f := bkFields[i%len(bkFields)]
		cs = append(cs, Case{Name: fmt.Sprintf("nest/%s/%s", f, nestKinds[i]), Run: func(t *T) { field(f).S.bkNest(t, nestKinds[i]) }})
	}
	for i, n := range edgeKinds {
		for _, rank := range []int{1, 2, 16} {
			f := bkFields[(i+rank)%len(bkFields)]
			cs = append(cs, Case{Name: fmt.Sprintf("edge/%s/%s/r%d", f, n, rank), Run: func(t *T) { field(f).S.bkEdge(t, n, rank) }})
		}
	}
	for k, rank := range []int{2048, 4096} {
		f := bkFields[k]
		cs = append(cs, Case{Name: fmt.Sprintf("apx/%s/r%d", f, rank), Run: func(t *T) { field(f).S.bkApxHonest(t, rank) }})
	}
	return cs
}

// bkRandom proves a random satisfiable circuit.
func (s *suite[E]) bkRandom(t *T, rank, k int) {
	b := s.builder(t.R, rank)
	deg := 3
	if rank >= 128 {
		deg = 2
	}
	b.random(deg, false)
	s.bkHonest(t, b.sp, b.v, fmt.Sprint("random", k), 2)
}

// bkHonest demands that a satisfiable circuit can be proved and verified, several times.
func (s *suite[E]) bkHonest(t *T, sp *spec, v vals, crs string, reps int) {
	if x := s.violated(sp, v); len(x) > 0 {
		panic(fmt.Sprint("harness: assignment violates ", x))
	}
	what := s.name + " " + sp.detail()
	in, err := s.compile(sp, crs)
	if err != nil {
		t.Viol("compile", "%s: %v", what, err)
		return
	}
	for i := 0; i < reps; i++ {
		in.accepted(t, v, what+fmt.Sprint(i))
	}
	t.N("constraints", len(sp.arith)+len(sp.sums)+len(sp.lins)+len(sp.norms))
	t.Sample("%s", what)
}

// ---- circuit shapes

type leaf[E bignum.Uint[E]] struct {
	A buckler.Witness[E]
	P buckler.PublicWitness[E]
}

// shape is a circuit made of all kinds of nesting; its vectors satisfy A*P = C everywhere.
type shape[E bignum.Uint[E]] struct {
	N       int
	Label   string
	Direct  buckler.Witness[E]
	Pub     buckler.PublicWitness[E]
	Struct  leaf[E]
	Ptr     *leaf[E]
	PtrPtr  **leaf[E]
	Arr     [2]leaf[E]
	Slice   []leaf[E]
	Slices  [][]buckler.Witness[E]
	Ptrs    []*leaf[E]
	WPtr    *buckler.Witness[E]
	PPtr    *buckler.PublicWitness[E]
	Iface   any
	Ifaces  []any
	NilPtr  *leaf[E]
	NilIf   any
	Arr2    [2][2]buckler.PublicWitness[E]
	Big     *big.Int
	visited func(sec []buckler.Witness[E], pub []buckler.PublicWitness[E], ctx *buckler.Context[E])
}

// each calls f on every witness and public vector in declaration order.
func (c *shape[E]) each(w func(*buckler.Witness[E]), p func(*buckler.PublicWitness[E])) {
	lf := func(l *leaf[E]) {
		if l != nil {
			w(&l.A)
			p(&l.P)
		}
	}
	w(&c.Direct)
	p(&c.Pub)
	lf(&c.Struct)
	lf(c.Ptr)
	if c.PtrPtr != nil {
		lf(*c.PtrPtr)
	}
	for i := range c.Arr {
		lf(&c.Arr[i])
	}
	for i := range c.Slice {
		lf(&c.Slice[i])
	}
	for i := range c.Slices {
		for j := range c.Slices[i] {
			w(&c.Slices[i][j])
		}
	}
	for i := range c.Ptrs {
		lf(c.Ptrs[i])
	}
	if c.WPtr != nil {
		w(c.WPtr)
	}
	if c.PPtr != nil {
		p(c.PPtr)
	}
	ifc := func(x any) {
		switch x := x.(type) {
		case *leaf[E]:
			lf(x)
		case *buckler.Witness[E]:
			w(x)
		case *buckler.PublicWitness[E]:
			p(x)
		case []buckler.Witness[E]:
			for i := range x {
				w(&x[i])
			}
		}
	}
	ifc(c.Iface)
	for _, x := range c.Ifaces {
		ifc(x)
	}
	for i := range c.Arr2 {
		for j := range c.Arr2[i] {
			p(&c.Arr2[i][j])
		}
	}
}

func (c *shape[E]) Define(ctx *buckler.Context[E]) {
	var sec []buckler.Witness[E]
	var pub []buckler.PublicWitness[E]
	c.each(func(w *buckler.Witness[E]) { sec = append(sec, *w) }, func(p *buckler.PublicWitness[E]) { pub = append(pub, *p) })
	c.visited(sec, pub, ctx)
}

var nestKinds = []string{"plain", "pointers", "slices", "interfaces", "all", "deep", "many", "more"}

func newShape[E bignum.Uint[E]](kind string) *shape[E] {
	c := &shape[E]{N: 3, Label: "x", Big: big.NewInt(5)}
	ptr := func() {
		c.Ptr = &leaf[E]{}
		l := &leaf[E]{}
		c.PtrPtr = &l
		c.WPtr = &buckler.Witness[E]{}
		c.PPtr = &buckler.PublicWitness[E]{}
		c.Ptrs = []*leaf[E]{{}, nil, {}}
	}
	sl := func() {
		c.Slice = make([]leaf[E], 3)
		c.Slices = [][]buckler.Witness[E]{make([]buckler.Witness[E], 2), nil, make([]buckler.Witness[E], 1)}
	}
	ifc := func() {
		c.Iface = &leaf[E]{}
		c.Ifaces = []any{&leaf[E]{}, nil, 7, "s", &buckler.Witness[E]{}, &buckler.PublicWitness[E]{}, make([]buckler.Witness[E], 2)}
	}
	switch kind {
	case "many", "more":
		n := map[string]int{"many": 70, "more": 300}[kind]
		c.Slice = make([]leaf[E], n)
		c.Slices = append(make([][]buckler.Witness[E], n), make([]buckler.Witness[E], n))
		for range n {
			c.Ptrs = append(c.Ptrs, &leaf[E]{})
			c.Ifaces = append(c.Ifaces, &buckler.PublicWitness[E]{})
		}
	case "pointers":
		ptr()
	case "slices":
		sl()
	case "interfaces":
		ifc()
	case "all", "deep":
		ptr()
		sl()
		ifc()
	}
	return c
}

// bkNest gives every vector of a nested circuit its own tag, so that a vector assigned to a wrong place shows.
func (s *suite[E]) bkNest(t *T, kind string) {
	rank := 16
	if kind == "many" || kind == "more" {
		rank = 2
	}
	nw, np := 0, 0
	val := func(k, i int) *big.Int { return big.NewInt(int64(1000*k + i + 7)) }
	mk := func() *shape[E] {
		c := newShape[E](kind)
		nw, np = 0, 0
		c.each(func(*buckler.Witness[E]) { nw++ }, func(*buckler.PublicWitness[E]) { np++ })
		c.visited = func(sec []buckler.Witness[E], pub []buckler.PublicWitness[E], ctx *buckler.Context[E]) {
			// witness k minus witness 0 is 1000k everywhere; public vector k minus witness 0 is 1000k + 500
			for k := 1; k < len(sec); k++ {
				var a buckler.ArithmeticConstraint[E]
				a.AddTerm(nil, sec[k])
				a.SubTerm(nil, sec[0])
				a.AddTermWithConst(fi[E](int64(-1000*k)), nil)
				ctx.AddArithmeticConstraint(a)
			}
			for k := range pub {
				var a buckler.ArithmeticConstraint[E]
				a.AddTerm(pub[k])
				a.SubTerm(nil, sec[0])
				a.AddTermWithConst(fi[E](int64(-1000*k-500)), nil)
				ctx.AddArithmeticConstraint(a)
			}
		}
		return c
	}
	fill := func(c *shape[E], sec bool) {
		w, p := 0, 0
		c.each(func(x *buckler.Witness[E]) {
			if sec {
				*x = zerov[E](rank)
				for i := range *x {
					(*x)[i].SetBigInt(val(w, i))
				}
			}
			w++
		}, func(x *buckler.PublicWitness[E]) {
			*x = zerov[E](rank)
			for i := range *x {
				(*x)[i].SetBigInt(new(big.Int).Add(val(p, i), big.NewInt(500)))
			}
			p++
		})
	}
	prv, _, err := buckler.Compile[E](rank, mk(), []byte("nest"))
	if err != nil {
		t.Viol("compile", "%s: %v", kind, err)
		return
	}
	_, vrf, err := buckler.Compile[E](rank, mk(), []byte("nest"))
	if err != nil {
		t.Viol("compile", "%s: %v", kind, err)
		return
	}
	t.Eval(kind)
	t.N("true_statements", 1)
	t.N("nested_vectors", nw+np)
	a := mk()
	fill(a, true)
	pf, err := prv.Prove(a)
	if err != nil {
		t.Viol("reject", "%s: prover error %v", kind, err)
		return
	}
	a = mk()
	fill(a, false)
	if !vrf.Verify(a, pf) {
		t.Viol("reject", "%s: nested circuit rejected", kind)
	}
	// the same proof must not verify with two public vectors exchanged
	a = mk()
	fill(a, false)
	a.Pub, a.Struct.P = a.Struct.P, a.Pub
	if vrf.Verify(a, pf) {
		t.Viol("false-accepted", "%s: public vectors exchanged", kind)
	}
	t.Sample("%s: %d secret and %d public vectors", kind, nw, np)
}

var edgeKinds = []string{"no-constraints", "public-only-arith", "constant-arith", "constant-sum", "public-sum", "one-lin", "degree-1", "degree-6", "norm-only-inf", "norm-only-two", "norm-zero", "norm-one", "norm-pow2", "norm-twice", "many", "self-lin", "empty-constraint", "public-and-sum-only"}

// bkEdge proves circuits at the edges of the shape space.
func (s *suite[E]) bkEdge(t *T, kind string, rank int) {
	b := s.builder(t.R, rank)
	one := big.NewInt(1)
	switch kind {
	case "no-constraints":
		b.sec(b.vec(0))
	case "public-only-arith":
		b.pub(b.vec(0))
		b.arith([]term{{one, 0, nil}}, true)
	case "public-and-sum-only":
		b.pub(b.vec(0))
		b.sum([]term{{one, 0, nil}})
		b.arith([]term{{one, 0, nil}}, true)
	case "constant-arith":
		b.sec(b.vec(0))
		b.sp.arith = append(b.sp.arith, []term{{one, -1, nil}, {b.neg1(), -1, nil}})
	case "constant-sum":
		b.sec(b.vec(0))
		b.sum([]term{{big.NewInt(3), -1, nil}})
	case "public-sum":
		b.sec(b.vec(0))
		b.pub(b.vec(0))
		b.sum([]term{{big.NewInt(3), 0, nil}})
	case "one-lin":
		b.sec(b.vec(0))
		b.lin(0, b.chk("ntt"))
	case "self-lin":
		b.sec(b.vec(0))
		b.sp.lins = append(b.sp.lins, linC{0, 0, b.chk("id")})
	case "degree-1":
		b.sec(b.vec(0))
		b.arith([]term{{one, -1, []int{0}}}, false)
	case "degree-6":
		b.sec(b.vec(0))
		b.pub(b.vec(0))
		b.arith([]term{{one, 0, []int{0, 0, 0, 0, 0, 0}}}, false)
	case "norm-only-inf":
		b.norm("inf", big.NewInt(5))
	case "norm-only-two":
		b.norm("two", big.NewInt(1))
	case "norm-zero":
		b.norm("inf", big.NewInt(0))
		b.norm("two", big.NewInt(0))
	case "norm-one":
		b.norm("inf", big.NewInt(1))
		b.norm("two", big.NewInt(1))
	case "norm-pow2":
		b.norm("inf", big.NewInt(2))
		b.norm("inf", big.NewInt(64))
		if rank >= 8 {
			b.norm("two", big.NewInt(64))
		}
	case "norm-twice":
		k := b.norm("inf", big.NewInt(5))
		b.sp.norms = append(b.sp.norms, normC{k, big.NewInt(9), "inf"})
		if rank >= 8 {
			k = b.norm("two", big.NewInt(50))
			b.sp.norms = append(b.sp.norms, normC{k, big.NewInt(99), "two"}, normC{k, big.NewInt(99), "inf"})
		}
	case "many":
		for i := 0; i < 12; i++ {
			b.pub(b.vec(0))
			b.sec(b.vec(0))
		}
		for i := 0; i < 12; i++ {
			b.arith(b.terms(3, 2), i%2 == 0)
			b.sum(b.terms(2, 2))
			b.lin(i, b.randChk())
		}
	case "empty-constraint":
		b.sec(b.vec(0))
		b.sp.arith = append(b.sp.arith, nil)
		b.sp.sums = append(b.sp.sums, sumC{sum: new(big.Int)})
	}
	s.bkHonest(t, b.sp, b.v, kind, 1)
}

func (s *suite[E]) bkApxHonest(t *T, rank int) {
	b := s.builder(t.R, rank)
	b.norm("apx", big.NewInt(2))
	b.norm("inf", big.NewInt(2))
	s.bkHonest(t, b.sp, b.v, "apx", 1)
}
