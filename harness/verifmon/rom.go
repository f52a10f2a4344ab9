package main

import (
	"fmt"
	"math/big"
	"reflect"
	"runtime/debug"
	"syscall"
	"unsafe"

	"github.com/sp301415/ringo-snark/buckler"
	"github.com/sp301415/ringo-snark/jindo"
	"github.com/sp301415/ringo-snark/math/bigpoly"
)

// rom is memory that becomes read-only, in which copies of operands are laid out:
// any write to them, however short-lived and in whatever language, faults.
type rom struct {
	all  []byte
	off  int
	seen map[romKey]unsafe.Pointer
	keep []any
	n    int
}

type romKey struct {
	p uintptr
	t reflect.Type
	n int
}

func newRom(n int) *rom {
	pg := syscall.Getpagesize()
	m, err := syscall.Mmap(-1, 0, (n+pg-1)/pg*pg, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE|syscall.MAP_NORESERVE)
	if err != nil {
		panic(err)
	}
	return &rom{all: m, seen: map[romKey]unsafe.Pointer{}}
}

func (r *rom) seal() {
	if syscall.Mprotect(r.all, syscall.PROT_READ) != nil {
		panic("mprotect")
	}
}

func (r *rom) free() { syscall.Munmap(r.all) }

func (r *rom) alloc(n uintptr) unsafe.Pointer {
	r.off = (r.off + 63) &^ 63
	if r.off+int(n) > len(r.all) {
		panic("rom: full")
	}
	p := unsafe.Pointer(&r.all[r.off])
	r.off += max(int(n), 1)
	return p
}

// into writes a deep copy of v to dst.
func (r *rom) into(dst, v reflect.Value, depth int) {
	if depth > 60 {
		panic("rom: too deep")
	}
	if dst.CanAddr() && !dst.CanSet() {
		dst = reflect.NewAt(dst.Type(), unsafe.Pointer(dst.UnsafeAddr())).Elem()
	}
	if v.CanAddr() && !v.CanInterface() {
		v = reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
	}
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			dst.SetZero()
			return
		}
		k := romKey{v.Pointer(), v.Type(), 0}
		p, ok := r.seen[k]
		if !ok {
			r.n++
			p = r.alloc(v.Type().Elem().Size())
			r.seen[k] = p
			r.into(reflect.NewAt(v.Type().Elem(), p).Elem(), v.Elem(), depth+1)
		}
		dst.Set(reflect.NewAt(v.Type().Elem(), p).Convert(v.Type()))
	case reflect.Slice:
		if v.IsNil() {
			dst.SetZero()
			return
		}
		k := romKey{v.Pointer(), v.Type(), v.Len()}
		p, ok := r.seen[k]
		if !ok || v.Len() == 0 {
			r.n++
			p = r.alloc(v.Type().Elem().Size() * uintptr(v.Len()))
			r.seen[k] = p
			a := reflect.NewAt(reflect.ArrayOf(v.Len(), v.Type().Elem()), p).Elem()
			switch v.Type().Elem().Kind() {
			case reflect.Uint64, reflect.Uint8, reflect.Int64:
				reflect.Copy(a, v)
			default:
				for i := 0; i < v.Len(); i++ {
					r.into(a.Index(i), v.Index(i), depth+1)
				}
			}
		}
		h := (*[3]uintptr)(unsafe.Pointer(dst.UnsafeAddr()))
		h[0], h[1], h[2] = uintptr(p), uintptr(v.Len()), uintptr(v.Len())
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			r.into(dst.Field(i), v.Field(i), depth+1)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			r.into(dst.Index(i), v.Index(i), depth+1)
		}
	default: // numbers, strings and functions
		if v.CanInterface() {
			r.keep = append(r.keep, v.Interface())
		}
		dst.Set(v)
	}
}

// frozen returns a deep copy of x in the memory of r, to be used once r is sealed.
func frozen[X any](r *rom, x X) X {
	r.keep = append(r.keep, x)
	var o X
	v := reflect.New(reflect.TypeOf(&x).Elem()).Elem()
	v.Set(reflect.ValueOf(&x).Elem())
	r.into(reflect.ValueOf(&o).Elem(), v, 0)
	return o
}

// readOnly runs f and reports writes to frozen operands.
func (r *rom) readOnly(t *T, what string, f func()) {
	defer debug.SetPanicOnFault(debug.SetPanicOnFault(true))
	if p := try(f); p != nil {
		if memFault(p) {
			if a, ok := p.(interface{ Addr() uintptr }); ok {
				if o := a.Addr() - uintptr(unsafe.Pointer(&r.all[0])); o < uintptr(len(r.all)) {
					t.Viol("written", "%s writes to an operand (offset %d of the read-only memory)", what, o)
					return
				}
			}
		}
		t.Viol("written", "%s fails on operands in read-only memory: %v", what, p)
	}
	t.Eval("read-only " + what)
	t.N("calls_on_read_only_operands", 1)
}

// romZp runs the element and vector operations on operands in read-only memory.
func romZp[U any, P elem[U], V ~[]U, PV vecOf[U, V]](t *T, name string, q *big.Int, f fns[U], exp func(*U, uint64) *U) {
	for rep := 0; rep < t.cfg.pick(12, 100); rep++ {
		m := newRom(1 << 22)
		x, y := frozen(m, (*U)(edgeOperand[U, P](t.R, q))), frozen(m, (*U)(edgeOperand[U, P](t.R, q)))
		if rep == 0 {
			x = frozen(m, (*U)(P(new(U)).SetInt64(0)))
		}
		n := []int{1, 2, 16, 33, 200}[rep%5]
		var vs [2]V
		for i := range vs {
			v := make(V, n)
			for j := range v {
				v[j] = *edgeOperand[U, P](t.R, q)
			}
			vs[i] = frozen(m, v)
		}
		e := frozen(m, big.NewInt(t.R.Int63()-1<<62))
		w := frozen(m, new(big.Int).Neg(rndFull(t.R, new(big.Int).Lsh(q, 64))))
		enc := frozen(m, P(x).Marshal())
		m.seal()
		px, py := P(x), P(y)
		do := func(op string, g func(z P)) { m.readOnly(t, name+": "+op, func() { g(P(new(U))) }) }
		do("Add", func(z P) { z.Add(px, py) })
		do("Sub", func(z P) { z.Sub(px, py) })
		do("Mul", func(z P) { z.Mul(px, py) })
		do("Mul", func(z P) { z.Mul(px, px) })
		do("Div", func(z P) { z.Div(px, py) })
		do("Neg", func(z P) { z.Neg(px) })
		do("Double", func(z P) { z.Double(px) })
		do("Square", func(z P) { z.Square(px) })
		do("Inverse", func(z P) { z.Inverse(px) })
		do("Set", func(z P) { z.Set(px) })
		do("Select", func(z P) { z.Select(rep&1, px, py) })
		do("Exp", func(z P) { z.Exp(*x, e) })
		do("Sqrt", func(z P) { z.Sqrt(px) })
		do("SetBigInt", func(z P) { z.SetBigInt(w) })
		do("SetBytes", func(z P) { z.SetBytes(enc) })
		do("Unmarshal", func(z P) { z.Unmarshal(enc) })
		do("SetBytesCanonical", func(z P) { z.SetBytesCanonical(enc) })
		do("SetInterface", func(z P) { z.SetInterface(w); z.SetInterface(x); z.SetInterface(enc) })
		do("Butterfly", func(z P) { a, b := *x, *y; f.Butterfly(&a, &b) })
		do("bignum.Exp", func(z P) { exp(x, uint64(t.R.Intn(1000))) })
		do("comparisons", func(z P) {
			px.Cmp(py)
			px.Equal(y)
			px.NotEqual(y)
			px.IsZero()
			px.IsOne()
			px.IsUint64()
			px.Uint64()
			px.LexicographicallyLargest()
			px.Legendre()
		})
		do("Slice", func(z P) { px.Slice(make([]uint64, px.Limb())) })
		do("BigInt", func(z P) { px.BigInt(new(big.Int)) })
		do("encodings", func(z P) { px.Marshal(); _ = px.String(); px.Text(16); px.MarshalJSON(); f.LEPut(*x) })
		do("New", func(z P) { px.New() })
		do("BatchInvert", func(z P) { f.BatchInvert(vs[0]) })
		out := make(V, n)
		do("vector Add", func(z P) { PV(&out).Add(vs[0], vs[1]) })
		do("vector Sub", func(z P) { PV(&out).Sub(vs[0], vs[1]) })
		do("vector Mul", func(z P) { PV(&out).Mul(vs[0], vs[1]) })
		do("vector ScalarMul", func(z P) { PV(&out).ScalarMul(vs[0], y) })
		do("vector Sum", func(z P) { PV(&vs[0]).Sum() })
		do("vector InnerProduct", func(z P) { PV(&vs[0]).InnerProduct(vs[1]) })
		do("vector MarshalBinary", func(z P) { PV(&vs[0]).MarshalBinary() })
		do("vector String and Equal", func(z P) { _ = PV(&vs[0]).String(); PV(&vs[0]).Equal(vs[1]) })
		m.free()
	}
	t.Sample("%s: operands in read-only memory", name)
}

// romPoly runs the polynomial operations on operands in read-only memory.
func (s *suite[E]) romPoly(t *T, rank int) {
	m := newRom(64 << 20)
	defer m.free()
	r := t.R
	fz := func(ntt bool) *bigpoly.Poly[E] { return frozen(m, s.poly(s.rndv(r, rank), ntt)) }
	a, b, an, bn := fz(false), fz(false), fz(true), fz(true)
	c := frozen(m, s.rnd(r))
	v := frozen(m, s.rndv(r, rank))
	in := make([]*big.Int, rank)
	for i := range in {
		in[i] = new(big.Int).Sub(rndBig(r, s.q), new(big.Int).Rsh(s.q, 1))
	}
	inf, qq := frozen(m, in), frozen(m, big.NewInt(12289))
	cyc, cyl := bigpoly.NewCyclotomicEvaluator[E](rank), bigpoly.NewCyclicEvaluator[E](rank)
	m.seal()
	do := func(op string, f func()) { m.readOnly(t, fmt.Sprintf("%s rank %d: %s", s.name, rank, op), f) }
	for _, cy := range []bool{false, true} {
		ev := newEval[E](cy, rank)
		tr := newNTT[E](cy, rank)
		for _, p := range [][2]*bigpoly.Poly[E]{{a, b}, {an, bn}} {
			x, y := p[0], p[1]
			o := ev.NewPoly(x.IsNTT)
			do("AddTo", func() { ev.AddTo(o, x, y) })
			do("SubTo", func() { ev.SubTo(o, x, y) })
			do("NegTo", func() { ev.NegTo(o, x) })
			do("ScalarMulTo", func() { ev.ScalarMulTo(o, x, c) })
			do("ScalarMulAddTo", func() { ev.ScalarMulAddTo(o, x, c) })
			do("ScalarMulSubTo", func() { ev.ScalarMulSubTo(o, x, c) })
			do("CopyFrom", func() { o.CopyFrom(x) })
			if !x.IsNTT {
				do("Evaluate", func() { x.Evaluate(c) })
			}
			do("Marshal", func() { x.Marshal() })
		}
		o := ev.NewPoly(true)
		do("MulTo", func() { ev.MulTo(o, an, bn) })
		do("MulAddTo", func() { ev.MulAddTo(o, an, bn) })
		do("MulSubTo", func() { ev.MulSubTo(o, an, bn) })
		do("NTTTo", func() { ev.NTTTo(ev.NewPoly(true), a) })
		do("InvNTTTo", func() { ev.InvNTTTo(ev.NewPoly(true), an) })
		do("FwdNTTTo", func() { tr.FwdNTTTo(zerov[E](rank), v) })
		do("InvNTTTo", func() { tr.InvNTTTo(zerov[E](rank), v) })
	}
	do("QuoRemByVanishing", func() { cyl.QuoRemByVanishing(a, max(rank/2, 1)) })
	for _, i := range []int{1, 3, -1, 2*rank - 1} {
		do("Aut", func() { cyc.Aut(a, i); cyc.Aut(an, i) })
		for _, ntt := range []bool{false, true} {
			k := buckler.NewAutChecker[E](cyc, i, ntt)
			do("automorphism map", func() { k.TransformTo(zerov[E](rank), v); k.TransposeTo(zerov[E](rank), v) })
		}
	}
	k := buckler.NewNTTChecker[E](rank)
	do("transform map", func() { k.TransformTo(zerov[E](rank), v); k.TransposeTo(zerov[E](rank), v) })
	do("ModSwitch", func() { cyc.ModSwitchTo(cyc.NewPoly(false), inf, qq) })
	t.Sample("%s rank %d: polynomials in read-only memory (%d objects)", s.name, rank, m.n)
}

// romPCS commits, opens and verifies with operands in read-only memory.
func (s *suite[E]) romPCS(t *T, n, b int) {
	p := s.newPCS(n, b, []byte("read-only"))
	what := cfgStr(s.name, n, b)
	for rep := 0; rep < t.cfg.pick(2, 6); rep++ {
		m := newRom(256 << 20)
		ls := lengths(p.params, t.R)
		vs := make([][]E, b)
		for i := range vs {
			vs[i] = frozen(m, s.rndv(t.R, ls[t.R.Intn(len(ls))]))
		}
		crs := frozen(m, []byte("read-only"))
		m.seal()
		cs := make([]committed[E], b)
		var vrf *jindo.Verifier[E]
		m.readOnly(t, what+": NewProver and NewVerifier", func() {
			p.prv = jindo.NewProver[E](p.params, crs)
			vrf = jindo.NewVerifier[E](p.params, crs)
		})
		for i, v := range vs {
			m.readOnly(t, what+": Commit", func() { com, op := p.prv.Commit(v); cs[i] = committed[E]{v, com, op} })
			if cs[i].com == nil {
				m.free()
				return
			}
		}
		m2 := newRom(256 << 20)
		fs := frozen(m2, cs)
		x := frozen(m2, s.rnd(t.R))
		m2.seal()
		var y []E
		var pf *jindo.Proof
		m2.readOnly(t, what+": Evaluate", func() { y, pf = p.evaluate(x, fs) })
		if pf != nil {
			m3 := newRom(256 << 20)
			x, cm, y, pf := frozen(m3, x), frozen(m3, coms(cs)), frozen(m3, y), frozen(m3, pf)
			m3.seal()
			for i := 0; i < 2; i++ {
				m3.readOnly(t, what+": Verify", func() {
					if !vrf.Verify(x, cm, y, pf) {
						t.N("rejected", 1) // judged by C01
					} else {
						t.N("verified", 1)
					}
				})
			}
			m3.free()
		}
		m2.free()
		m.free()
	}
	t.Sample("%s: polynomials, commitments, openings and proofs in read-only memory", what)
}

// romSNARK proves and verifies with assignments and proofs in read-only memory.
func (s *suite[E]) romSNARK(t *T, rank, k int) {
	b := s.bkStmt(t, rank, k)
	what := fmt.Sprintf("%s rank %d (%s)", s.name, rank, b.sp)
	prv, vrf, err := buckler.Compile[E](rank, s.circuit(b.sp), []byte("crs"))
	if err != nil {
		t.Viol("compile", "%s: %v", what, err)
		return
	}
	m := newRom(128 << 20)
	defer m.free()
	c, pub := frozen(m, s.assigned(b.sp, b.v, true)), frozen(m, s.assigned(b.sp, b.v, false))
	m.seal()
	var pf *buckler.Proof[E]
	m.readOnly(t, what+": Prove", func() { pf, err = prv.Prove(c) })
	if pf == nil || err != nil {
		return
	}
	m2 := newRom(256 << 20)
	defer m2.free()
	fp := frozen(m2, pf)
	m2.seal()
	for i := 0; i < 2; i++ {
		run := func() {
			if !vrf.Verify(pub, fp) {
				t.N("rejected", 1) // judged by C09
			} else {
				t.N("verified", 1)
			}
		}
		m.readOnly(t, what+": Verify (assignment)", func() { m2.readOnly(t, what+": Verify (proof)", run) })
	}
	t.Sample("%s: assignment and proof in read-only memory (%d and %d objects)", what, m.n, m2.n)
}

// romCases are the cases with operands in read-only memory.
func romCases(cfg Cfg) []Case {
	var cs []Case
	for i, c := range []pcsCfg{{"zp255", 256, 2}, {"zp110", 200, 3}, {"zp440", 100, 1}, {"zp220", 500, 1}, {"zp880", 64, 1}, {"zp128", 1000, 2}, {"zp240", 33, 2}} {
		if i < cfg.pick(4, 7) {
			cs = append(cs, Case{Name: "read-only/pcs/" + c.String(), Run: func(t *T) { field(c.f).S.romPCS(t, c.n, c.b) }})
		}
	}
	for k := 0; k < cfg.pick(10, 60); k++ {
		f, rank := bkFields[k%len(bkFields)], []int{8, 4, 32, 16}[k%4]
		cs = append(cs, Case{Name: fmt.Sprintf("read-only/snark/%s/r%d/%d", f, rank, k), Run: func(t *T) { field(f).S.romSNARK(t, rank, k) }})
	}
	return cs
}
