package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"runtime"
	"runtime/debug"
	"strings"
	"syscall"
	"unsafe"

	"github.com/sp301415/ringo-snark/buckler"
	bvz "github.com/sp301415/ringo-snark/buckler/verifzp"
	bfvzp "github.com/sp301415/ringo-snark/examples/bfv/zp"
	multzp "github.com/sp301415/ringo-snark/examples/mult/zp"
	jvz "github.com/sp301415/ringo-snark/jindo/verifzp"
	"github.com/sp301415/ringo-snark/math/bigpoly"
	"github.com/sp301415/ringo-snark/math/csprng"
)

func init() { registry["C25"] = casesC25 }

// memFault tells whether a panic comes from an access outside the operands
// (a fault of the memory management unit or a nil guard that was followed).
func memFault(p any) bool {
	e, ok := p.(runtime.Error)
	if !ok {
		return false
	}
	m := e.Error()
	return strings.Contains(m, "invalid memory address") || strings.Contains(m, "unexpected fault address")
}

// arena is memory between two inaccessible pages.
type arena struct {
	all  []byte
	data []byte
}

func newArena(n int) *arena {
	pg := syscall.Getpagesize()
	sz := (n + pg - 1) / pg * pg
	if sz == 0 {
		sz = pg
	}
	m, err := syscall.Mmap(-1, 0, sz+2*pg, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		panic(err)
	}
	if syscall.Mprotect(m[:pg], syscall.PROT_NONE) != nil || syscall.Mprotect(m[pg+sz:], syscall.PROT_NONE) != nil {
		panic("mprotect")
	}
	return &arena{m, m[pg : pg+sz : pg+sz]}
}

func (a *arena) free() { syscall.Munmap(a.all) }

// at returns n bytes that end (or begin) at an inaccessible page.
func (a *arena) at(n int, end bool) []byte {
	if end {
		return a.data[len(a.data)-n:]
	}
	return a.data[:n:n]
}

// inGuard runs f and reports accesses outside its operands.
func inGuard(t *T, what string, f func()) {
	inGuardKey(t, what, func(uintptr) string { return "fault" }, f)
}

// inGuardKey names the violation by the faulting address.
func inGuardKey(t *T, what string, key func(addr uintptr) string, f func()) {
	defer debug.SetPanicOnFault(debug.SetPanicOnFault(true))
	if p := try(f); p != nil {
		if memFault(p) {
			var addr uintptr
			if a, ok := p.(interface{ Addr() uintptr }); ok {
				addr = a.Addr()
			}
			t.Viol(key(addr), "%s accesses memory outside its operands: %v", what, p)
		} else {
			t.N("refused_by_panic", 1)
		}
	}
	t.Eval(what)
}

// zpGuard runs the vector and element operations of a field on operands next to inaccessible pages.
func zpGuard[U any, P elem[U], V ~[]U, PV vecOf[U, V]](t *T, name string, q *big.Int) {
	var z U
	sz := int(unsafe.Sizeof(z))
	maxN := t.cfg.pick(300, 2100)
	as := []*arena{newArena(maxN * sz), newArena(maxN * sz), newArena(maxN * sz), newArena(maxN * sz)}
	defer func() {
		for _, a := range as {
			a.free()
		}
	}()
	r := t.R
	vec := func(k, n int, end bool) V {
		v := V(unsafe.Slice((*U)(unsafe.Pointer(unsafe.SliceData(as[k].at(n*sz, end)))), n))
		for i := range v {
			P(&v[i]).SetBigInt(rndBig(r, q))
		}
		return v
	}
	var ns []int
	for n := 1; n <= 70; n++ {
		ns = append(ns, n)
	}
	ns = append(ns, 100, 111, 112, 113, 127, 128, 129, 143, 144, 145, 191, 192, 193, 255, 256, 257, maxN)
	for i := 0; i < t.cfg.pick(10, 120); i++ {
		ns = append(ns, 1+r.Intn(maxN))
	}
	for _, n := range ns {
		for _, end := range []bool{true, false} {
			x, y, o, s := vec(0, n, end), vec(1, n, end), vec(2, n, end), vec(3, 1, end)
			w := fmt.Sprintf("%s: vector operation on %d entries (operands end at the guard page: %v): ", name, n, end)
			inGuard(t, w+"Add", func() { PV(&o).Add(x, y) })
			inGuard(t, w+"Sub", func() { PV(&o).Sub(x, y) })
			inGuard(t, w+"Mul", func() { PV(&o).Mul(x, y) })
			inGuard(t, w+"ScalarMul", func() { PV(&o).ScalarMul(x, &s[0]) })
			inGuard(t, w+"Sum", func() { PV(&x).Sum() })
			// once with room for one more word behind the operands, then without
			if end && n < maxN {
				sub := func(k int) V {
					d := as[k].at((n+1)*sz, true)
					return V(unsafe.Slice((*U)(unsafe.Pointer(unsafe.SliceData(d[sz-8:]))), n))
				}
				inGuard(t, w+"InnerProduct one word before the guard page", func() { u := sub(0); PV(&u).InnerProduct(sub(1)) })
			}
			inGuardKey(t, w+"InnerProduct", func(addr uintptr) string {
				if addr == uintptr(unsafe.Pointer(unsafe.SliceData(x)))+uintptr(n*sz) {
					return "tail-read"
				}
				return "fault"
			}, func() { PV(&x).InnerProduct(y) })
			inGuard(t, w+"Add in place", func() { PV(&x).Add(x, x) })
			var enc []byte
			inGuard(t, w+"MarshalBinary", func() { enc, _ = PV(&x).MarshalBinary() })
			if enc != nil {
				b := newArena(len(enc))
				c := b.at(len(enc), end)
				copy(c, enc)
				inGuard(t, w+"UnmarshalBinary", func() {
					var v V
					if PV(&v).UnmarshalBinary(c) == nil && len(v) != n {
						t.Viol("length", "%s: decoding %d entries gives %d", name, n, len(v))
					}
				})
				for _, cut := range []int{0, 1, 3, 4, 5, len(enc) / 2, len(enc) - 1} {
					inGuard(t, w+fmt.Sprint("UnmarshalBinary of a prefix of ", cut), func() {
						d := b.at(cut, true)
						copy(d, enc)
						var v V
						if PV(&v).UnmarshalBinary(d) == nil {
							t.Viol("length", "%s: decoding accepts %d of %d bytes", name, cut, len(enc))
						}
					})
				}
				b.free()
			}
		}
	}
	for rep := 0; rep < t.cfg.pick(20, 200); rep++ {
		end := rep%2 == 0
		x, y, o := vec(0, 1, end), vec(1, 1, end), vec(2, 1, end)
		px, py, po := P(&x[0]), P(&y[0]), P(&o[0])
		w := fmt.Sprintf("%s: element operation (at the end of the page: %v): ", name, end)
		inGuard(t, w+"Add", func() { po.Add(px, py) })
		inGuard(t, w+"Sub", func() { po.Sub(px, py) })
		inGuard(t, w+"Mul", func() { po.Mul(px, py) })
		inGuard(t, w+"Mul in place", func() { px.Mul(px, px) })
		inGuard(t, w+"Neg", func() { po.Neg(px) })
		inGuard(t, w+"Double", func() { po.Double(px) })
		inGuard(t, w+"Square", func() { po.Square(px) })
		inGuard(t, w+"Halve", func() { po.Halve() })
		inGuard(t, w+"Inverse", func() { po.Inverse(px) })
		inGuard(t, w+"Set", func() { po.Set(px) })
		inGuard(t, w+"Cmp", func() { po.Cmp(px) })
		inGuard(t, w+"Select", func() { po.Select(rep%2, px, py) })
		inGuard(t, w+"SetBigInt", func() { po.SetBigInt(rndBig(r, q)) })
		inGuard(t, w+"BigInt", func() { px.BigInt(new(big.Int)) })
		inGuard(t, w+"MustSetRandom", func() { po.MustSetRandom() })
		inGuard(t, w+"Sqrt", func() { po.Sqrt(px) })
		inGuard(t, w+"String", func() { _ = px.String() })
		m := px.Marshal()
		b := newArena(4096)
		inGuard(t, w+"Unmarshal", func() { d := b.at(len(m), end); copy(d, m); po.Unmarshal(d) })
		inGuard(t, w+"SetBytes", func() { d := b.at(rep, end); copy(d, m); po.SetBytes(d) })
		inGuard(t, w+"SetBytesCanonical", func() { d := b.at(len(m), end); copy(d, m); po.SetBytesCanonical(d) })
		inGuard(t, w+"Slice", func() {
			d := b.at(8*px.Limb(), end)
			px.Slice(unsafe.Slice((*uint64)(unsafe.Pointer(unsafe.SliceData(d))), px.Limb()))
		})
		b.free()
	}
	t.Sample("%s: %d vector lengths at both ends of a guarded page", name, len(ns))
}

// boxed puts the entries into a larger array whose other entries are guards: nil (reading one faults) or
// sentinel elements (writing one is noticed).
type boxed[E any] struct {
	back []E
	off  int
	n    int
	seen []E
}

const boxPad = 17

func (s *suite[E]) box(v []E, nilGuard bool) *boxed[E] {
	b := &boxed[E]{make([]E, len(v)+2*boxPad), boxPad, len(v), nil}
	copy(b.back[boxPad:], v)
	if !nilGuard {
		for i := range b.back {
			if i < b.off || i >= b.off+b.n {
				b.back[i] = fi[E](int64(1000 + i))
			}
		}
	}
	b.seen = append([]E(nil), b.back...)
	return b
}

func (b *boxed[E]) v() []E { return b.back[b.off : b.off+b.n] }

func (s *suite[E]) intact(t *T, what string, nilGuard bool, bs ...*boxed[E]) {
	for _, b := range bs {
		for i := range b.back {
			if i >= b.off && i < b.off+b.n {
				continue
			}
			if any(b.back[i]) != any(b.seen[i]) || !nilGuard && bi(b.back[i]).Int64() != int64(1000+i) {
				t.Viol("guard", "%s: writes outside its operands (%d entries before or after them)", what, i-b.off)
				return
			}
		}
	}
	t.N("guards_inspected", len(bs)*2*boxPad)
}

// polyGuard runs the polynomial code on guarded operands.
func (s *suite[E]) polyGuard(t *T, lo, hi int) {
	r := t.R
	mk := func(n int, ng bool) *boxed[E] { return s.box(s.rndv(r, n), ng) }
	for _, ng := range []bool{true, false} {
		do := func(what string, f func(), bs ...*boxed[E]) {
			what = fmt.Sprintf("%s %s (nil guards %v)", s.name, what, ng)
			inGuard(t, what, f)
			s.intact(t, what, ng, bs...)
		}
		for n := lo; n <= hi; n++ {
			a, b := mk(n, ng), mk(n, ng)
			pa, pb := s.poly(a.v(), false), s.poly(b.v(), true)
			do(fmt.Sprint("CopyFrom of rank ", n), func() { pb.CopyFrom(pa) }, a, b)
			do(fmt.Sprint("Evaluate of rank ", n), func() { pa.Evaluate(fi[E](3)) }, a)
			do(fmt.Sprint("Marshal of rank ", n), func() { pa.Marshal() }, a)
			do(fmt.Sprint("Clear of rank ", n), func() { pb.Clear() }, b)
			for _, m := range []int{n + 1, n + 8, n - 1} {
				if m >= 0 {
					c := mk(m, ng)
					do(fmt.Sprint("CopyFrom of rank ", n, " to ", m), func() { s.poly(c.v(), false).CopyFrom(pa) }, a, c)
				}
			}
			if n == 0 || n&(n-1) != 0 {
				continue
			}
			for _, cyc := range []bool{true, false} {
				w := fmt.Sprintf("(cyclic %v) of rank %d", cyc, n)
				tr := newNTT[E](cyc, n)
				ev := newEval[E](cyc, n)
				x, y, z := mk(n, ng), mk(n, ng), mk(n, ng)
				do("FwdNTTTo "+w, func() { tr.FwdNTTTo(z.v(), x.v()) }, x, z)
				do("FwdNTTTo in place "+w, func() { tr.FwdNTTTo(x.v(), x.v()) }, x)
				do("InvNTTTo "+w, func() { tr.InvNTTTo(z.v(), x.v()) }, x, z)
				do("InvNTTTo in place "+w, func() { tr.InvNTTTo(x.v(), x.v()) }, x)
				for _, m := range []int{n - 1, n + 1, 2 * n, n + 8} {
					u := mk(m, ng)
					do(fmt.Sprint("transforms from length ", m, " ", w), func() { tr.FwdNTTTo(z.v(), u.v()) }, u, z)
					do(fmt.Sprint("transforms from length ", m, " ", w), func() { tr.InvNTTTo(z.v(), u.v()) }, u, z)
					do(fmt.Sprint("transforms to length ", m, " ", w), func() { tr.FwdNTTTo(u.v(), z.v()) }, u, z)
					do(fmt.Sprint("transforms to length ", m, " ", w), func() { tr.InvNTTTo(u.v(), z.v()) }, u, z)
					do(fmt.Sprint("AddTo with an operand of rank ", m, " ", w), func() { ev.AddTo(s.poly(z.v(), true), s.poly(x.v(), true), s.poly(u.v(), true)) }, u, x, z)
					do(fmt.Sprint("MulTo with an operand of rank ", m, " ", w), func() { ev.MulTo(s.poly(z.v(), true), s.poly(u.v(), true), s.poly(x.v(), true)) }, u, x, z)
					do(fmt.Sprint("MulAddTo with an output of rank ", m, " ", w), func() { ev.MulAddTo(s.poly(u.v(), true), s.poly(z.v(), true), s.poly(x.v(), true)) }, u, x, z)
					do(fmt.Sprint("NegTo with an output of rank ", m, " ", w), func() { ev.NegTo(s.poly(u.v(), true), s.poly(z.v(), true)) }, u, z)
					do(fmt.Sprint("ScalarMulTo with an operand of rank ", m, " ", w), func() { ev.ScalarMulTo(s.poly(z.v(), true), s.poly(u.v(), true), fi[E](5)) }, u, z)
				}
				c := fi[E](7)
				px, py, pz := s.poly(x.v(), true), s.poly(y.v(), true), s.poly(z.v(), true)
				do("AddTo "+w, func() { ev.AddTo(pz, px, py) }, x, y, z)
				do("SubTo "+w, func() { ev.SubTo(pz, px, py) }, x, y, z)
				do("NegTo "+w, func() { ev.NegTo(pz, px) }, x, z)
				do("ScalarMulTo "+w, func() { ev.ScalarMulTo(pz, px, c) }, x, z)
				do("ScalarMulAddTo "+w, func() { ev.ScalarMulAddTo(pz, px, c) }, x, z)
				do("ScalarMulSubTo "+w, func() { ev.ScalarMulSubTo(pz, px, c) }, x, z)
				do("MulTo "+w, func() { ev.MulTo(pz, px, py) }, x, y, z)
				do("MulAddTo "+w, func() { ev.MulAddTo(pz, px, py) }, x, y, z)
				do("MulSubTo "+w, func() { ev.MulSubTo(pz, px, py) }, x, y, z)
				do("InvNTTTo "+w, func() { ev.InvNTTTo(pz, px) }, x, z)
				do("NTTTo "+w, func() { ev.NTTTo(px, pz) }, x, z)
			}
			x, z := mk(n, ng), mk(n, ng)
			ce := bigpoly.NewCyclicEvaluator[E](n)
			for _, m := range []int{1, n / 2, n, n - 1, 2 * n} {
				if m > 0 {
					do(fmt.Sprintf("QuoRemByVanishing %d of rank %d", m, n), func() { ce.QuoRemByVanishing(s.poly(x.v(), false), m) }, x)
				}
			}
			ne := bigpoly.NewCyclotomicEvaluator[E](n)
			nc := buckler.NewNTTChecker[E](n)
			do(fmt.Sprint("TransformTo of rank ", n), func() { nc.TransformTo(z.v(), x.v()) }, x, z)
			do(fmt.Sprint("TransposeTo of rank ", n), func() { nc.TransposeTo(z.v(), x.v()) }, x, z)
			for _, idx := range []int{1, 3, -1, 2*n + 1, 5} {
				for _, ntt := range []bool{false, true} {
					do(fmt.Sprintf("AutTo %d of rank %d", idx, n), func() { ne.AutTo(s.poly(z.v(), false), s.poly(x.v(), ntt), idx) }, x, z)
					do(fmt.Sprintf("AutTo %d in place of rank %d", idx, n), func() { ne.AutTo(s.poly(z.v(), ntt), s.poly(z.v(), ntt), idx) }, z)
					ac := buckler.NewAutChecker[E](ne, idx, ntt)
					do(fmt.Sprintf("automorphism map %d of rank %d", idx, n), func() { ac.TransformTo(z.v(), x.v()); ac.TransposeTo(z.v(), x.v()) }, x, z)
				}
			}
			in := make([]*big.Int, n+4)
			for i := 0; i < n; i++ {
				in[i] = bigN(int64(i))
			}
			do(fmt.Sprint("ModSwitchTo of rank ", n), func() { ne.ModSwitchTo(s.poly(z.v(), false), in[:n], bigN(97)) }, z)
		}
	}
	t.Sample("%s: ranks and lengths %d to %d inside guarded arrays", s.name, lo, hi)
}

// pcsGuard commits to and opens polynomials given in guarded slices.
func (s *suite[E]) pcsGuard(t *T, n, b int) {
	p := s.newPCS(n, b, []byte("guard"))
	for _, ng := range []bool{true, false} {
		ls := lengths(p.params, t.R)
		for i := 0; i < 3; i++ {
			var cs []committed[E]
			var bs []*boxed[E]
			for k := 0; k < b; k++ {
				x := s.box(s.rndv(t.R, ls[t.R.Intn(len(ls))]), ng)
				bs = append(bs, x)
				inGuard(t, fmt.Sprintf("%s Commit of %d entries", s.name, x.n), func() {
					com, op := p.prv.Commit(x.v())
					cs = append(cs, committed[E]{x.v(), com, op})
				})
			}
			if len(cs) == b {
				inGuard(t, fmt.Sprint(s.name, " Evaluate and Verify"), func() {
					x := s.rnd(t.R)
					y, pf := p.evaluate(x, cs)
					if !p.vrf.Verify(x, coms(cs), y, pf) {
						t.N("rejected", 1) // judged by C01
					}
				})
			}
			s.intact(t, "committing and opening", ng, bs...)
		}
	}
}

// samplerGuard reads random bytes into buffers next to inaccessible pages.
func samplerGuard(t *T) {
	a := newArena(1 << 16)
	defer a.free()
	s := csprng.NewUniformSamplerWithSeed([]byte("guard"))
	for n := 0; n <= t.cfg.pick(1100, 5000); n++ {
		for _, end := range []bool{true, false} {
			inGuard(t, fmt.Sprint("Read of ", n, " bytes"), func() { s.Read(a.at(n, end)) })
			if n%16 == 0 {
				s.SampleN(uint64(n + 1))
			}
			for _, c := range []int{1, 7, 64} {
				if n+c < 1<<12 && n%13 == c%13 {
					p := a.data[4096 : 4096+n+2*c]
					for i := range p {
						p[i] = 0xA5
					}
					s.Read(p[c : c+n])
					for i := 0; i < c; i++ {
						if p[i] != 0xA5 || p[n+c+i] != 0xA5 {
							t.Viol("guard", "Read of %d bytes writes outside the buffer", n)
						}
					}
				}
			}
		}
	}
}

// within returns cases of another property, of which only memory errors are reported here.
func within(cfg Cfg, prop string, keep func(i int, name string) bool) []Case {
	var cs []Case
	for i, c := range registry[prop](cfg) {
		if !keep(i, c.Name) {
			continue
		}
		c := c
		cs = append(cs, Case{Name: prop + "/" + c.Name, Run: func(t *T) {
			t.only = "memory"
			if p := try(func() { c.Run(t) }); p != nil {
				t.only = ""
				if memFault(p) {
					t.Viol("fault", "access outside the operands: %v", p)
				} else {
					t.N("ended_by_panic", 1)
				}
			}
		}})
	}
	return cs
}

func every(n int) func(int, string) bool { return func(i int, _ string) bool { return i%n == 0 } }

func casesC25(cfg Cfg) []Case {
	var cs []Case
	// ranks close to each other are spread over cases, the large ones first
	for _, f := range allFields {
		f := f
		for _, n := range []int{4096, 2048, 1024, 512, 256, 128} {
			if n > 1024 && !cfg.Thorough {
				continue
			}
			n := n
			cs = append(cs, Case{Name: fmt.Sprintf("poly/%s/%d", f.Name, n), Run: func(t *T) { f.S.polyGuard(t, n-1, n+1) }})
		}
		cs = append(cs, Case{Name: fmt.Sprintf("poly/%s/small", f.Name), Run: func(t *T) { f.S.polyGuard(t, 0, cfg.pick(70, 100)) }})
	}
	add := func(name string, f func(t *T)) { cs = append(cs, Case{Name: name, Run: f}) }
	add("zp/zp255", func(t *T) { zpGuard[jvz.Z255, *jvz.Z255, jvz.V255](t, "zp255", jvz.M255()) })
	add("zp/zp110", func(t *T) { zpGuard[bvz.Z110, *bvz.Z110, bvz.V110](t, "zp110", bvz.M110()) })
	add("zp/zp220", func(t *T) { zpGuard[bvz.Z220, *bvz.Z220, bvz.V220](t, "zp220", bvz.M220()) })
	add("zp/zp440", func(t *T) { zpGuard[bvz.Z440, *bvz.Z440, bvz.V440](t, "zp440", bvz.M440()) })
	add("zp/zp880", func(t *T) { zpGuard[bvz.Z880, *bvz.Z880, bvz.V880](t, "zp880", bvz.M880()) })
	add("zp/zp128", func(t *T) { zpGuard[multzp.Uint, *multzp.Uint, multzp.Vector](t, "zp128", multzp.Modulus()) })
	add("zp/zp240", func(t *T) { zpGuard[bfvzp.Uint, *bfvzp.Uint, bfvzp.Vector](t, "zp240", bfvzp.Modulus()) })
	add("sampler", samplerGuard)
	for i, c := range []pcsCfg{{"zp255", 300, 2}, {"zp110", 100, 1}, {"zp220", 1000, 2}, {"zp440", 256, 1}, {"zp880", 200, 1}, {"zp128", 33, 2}, {"zp240", 129, 1}} {
		if i > 2 && !cfg.Thorough {
			continue
		}
		c := c
		add("pcs/"+c.String(), func(t *T) { field(c.f).S.pcsGuard(t, c.n, c.b) })
	}
	if cfg.Variant != "plain" {
		one := Cfg{Seed: cfg.Seed, Variant: cfg.Variant}
		cs = append(cs, within(one, "C01", every(cfg.pick(9, 2)))...)
		cs = append(cs, within(one, "C09", func(i int, n string) bool { return strings.HasPrefix(n, "apx") && i%2 == 0 || i%cfg.pick(6, 1) == 0 })...)
		cs = append(cs, within(one, "C24", func(i int, n string) bool { return cfg.Thorough || !strings.HasSuffix(n, "2048") && i%2 == 0 })...)
		cs = append(cs, within(one, "C27", func(i int, n string) bool { return !strings.HasPrefix(n, "stat") && i%3 == 0 })...)
		cs = append(cs, within(one, "C28", every(cfg.pick(12, 4)))...)
		cs = append(cs, within(one, "C22", every(cfg.pick(11, 3)))...)
	}
	return cs
}

var _ = rand.Int
