package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"math/big"
	"math/rand"
	"sort"
	"strings"
	"unsafe"

	bvz "github.com/sp301415/ringo-snark/buckler/verifzp"
	bfvzp "github.com/sp301415/ringo-snark/examples/bfv/zp"
	multzp "github.com/sp301415/ringo-snark/examples/mult/zp"
	jvz "github.com/sp301415/ringo-snark/jindo/verifzp"
	"github.com/sp301415/ringo-snark/math/bignum"
)

func init() { registry["C22"] = casesC22 }

// elem is the full set of operations of a generated field element.
type elem[U any] interface {
	*U
	bignum.Uint[*U]
	Double(*U) *U
	Square(*U) *U
	Div(x, y *U) *U
	Halve()
	Select(c int, a, b *U) *U
	Exp(x U, k *big.Int) *U
	SetString(string) (*U, error)
	SetInterface(any) (*U, error)
	String() string
	Text(int) string
	Equal(*U) bool
	NotEqual(*U) uint64
	IsZero() bool
	IsOne() bool
	SetOne() *U
	SetZero() *U
	IsUint64() bool
	ToBigIntRegular(*big.Int) *big.Int
	Uint64() uint64
	Legendre() int
	Sqrt(*U) *U
	SetBytesCanonical([]byte) error
	LexicographicallyLargest() bool
	MarshalJSON() ([]byte, error)
	UnmarshalJSON([]byte) error
}

type vecOf[U any, V any] interface {
	*V
	Add(a, b V)
	Sub(a, b V)
	ScalarMul(a V, b *U)
	Sum() U
	InnerProduct(V) U
	Mul(a, b V)
	MarshalBinary() ([]byte, error)
	UnmarshalBinary([]byte) error
	WriteTo(io.Writer) (int64, error)
	ReadFrom(io.Reader) (int64, error)
	AsyncReadFrom(io.Reader) (int64, error, chan error)
	sort.Interface
	String() string
	SetRandom() error
	MustSetRandom()
	Equal(V) bool
}

type fns[U any] struct {
	MulBy3, MulBy5, MulBy13 func(*U)
	Butterfly               func(a, b *U)
	BatchInvert             func([]U) []U
	LEPut                   func(U) []byte
	LEGet                   func([]byte) (U, error)
	NewUint                 func(uint64) U
	One                     func() U
}

type zpField struct {
	name string
	scal func(t *T, k int)
	vec  func(t *T, k int)
	enc  func(t *T, k int)
	rom  func(t *T)
}

func mkZp[U any, P elem[U], V ~[]U, PV vecOf[U, V]](name string, q *big.Int, f fns[U], exp func(*U, uint64) *U) zpField {
	return zpField{name,
		func(t *T, k int) { zpScalar[U, P](t, name, q, f, exp, k) },
		func(t *T, k int) { zpVector[U, P, V, PV](t, name, q, f, k) },
		func(t *T, k int) { zpEncode[U, P](t, name, q, f, k) },
		func(t *T) { romZp[U, P, V, PV](t, name, q, f, exp) },
	}
}

var zpFields = []zpField{
	mkZp[jvz.Z255, *jvz.Z255, jvz.V255]("zp255", jvz.M255(), fns[jvz.Z255](jvz.F255), bignum.Exp[*jvz.Z255]),
	mkZp[bvz.Z110, *bvz.Z110, bvz.V110]("zp110", bvz.M110(), fns[bvz.Z110](bvz.F110), bignum.Exp[*bvz.Z110]),
	mkZp[bvz.Z220, *bvz.Z220, bvz.V220]("zp220", bvz.M220(), fns[bvz.Z220](bvz.F220), bignum.Exp[*bvz.Z220]),
	mkZp[bvz.Z440, *bvz.Z440, bvz.V440]("zp440", bvz.M440(), fns[bvz.Z440](bvz.F440), bignum.Exp[*bvz.Z440]),
	mkZp[bvz.Z880, *bvz.Z880, bvz.V880]("zp880", bvz.M880(), fns[bvz.Z880](bvz.F880), bignum.Exp[*bvz.Z880]),
	mkZp[multzp.Uint, *multzp.Uint, multzp.Vector]("zp128", multzp.Modulus(), fns[multzp.Uint](F128), bignum.Exp[*multzp.Uint]),
	mkZp[bfvzp.Uint, *bfvzp.Uint, bfvzp.Vector]("zp240", bfvzp.Modulus(), fns[bfvzp.Uint](F240), bignum.Exp[*bfvzp.Uint]),
}

func casesC22(cfg Cfg) []Case {
	var cs []Case
	for _, f := range zpFields {
		f := f
		cs = append(cs, Case{Name: "read-only/" + f.name, Run: f.rom})
		for k := 0; k < cfg.pick(4, 40); k++ {
			k := k
			cs = append(cs, Case{Name: fmt.Sprintf("scalar/%s/%d", f.name, k), Run: func(t *T) { f.scal(t, k) }})
			cs = append(cs, Case{Name: fmt.Sprintf("vector/%s/%d", f.name, k), Run: func(t *T) { f.vec(t, k) }})
			cs = append(cs, Case{Name: fmt.Sprintf("encode/%s/%d", f.name, k), Run: func(t *T) { f.enc(t, k) }})
		}
	}
	return cs
}

// limbs is the internal representation of an element.
func limbs[U any, P elem[U]](p P) []uint64 {
	return unsafe.Slice((*uint64)(unsafe.Pointer(p)), p.Limb())
}

// edgeOperand returns an element whose value or whose representation lies at a boundary.
func edgeOperand[U any, P elem[U]](r *rand.Rand, q *big.Int) P {
	z := P(new(U))
	n := z.Limb()
	switch r.Intn(7) {
	case 0:
		z.SetBigInt(rndFull(r, q))
	case 1:
		z.SetBigInt(edgeBig(r, q))
	case 2:
		// powers of two and neighbours
		x := new(big.Int).Lsh(big.NewInt(1), uint(r.Intn(q.BitLen()+2)))
		x.Add(x, big.NewInt(int64(r.Intn(5)-2)))
		z.SetBigInt(x)
	case 3:
		z.SetInt64(int64(r.Intn(9) - 4))
	default:
		// the representation, limb by limb, below the modulus
		ql := make([]uint64, n)
		x := new(big.Int)
		for i, w := range q.Bits() {
			ql[i] = uint64(w)
		}
		for i := n - 1; i >= 0; i-- {
			var w uint64
			switch r.Intn(9) {
			case 0:
				w = 0
			case 1:
				w = 1
			case 2:
				w = ^uint64(0)
			case 3:
				w = 1 << 63
			case 4:
				w = ql[i]
			case 5:
				w = ql[i] - 1
			case 6:
				w = ql[i] + 1
			case 7:
				w = ^uint64(0) - uint64(r.Intn(3))
			default:
				w = r.Uint64()
			}
			x.Lsh(x, 64)
			x.Or(x, new(big.Int).SetUint64(w))
		}
		if x.Cmp(q) >= 0 {
			x.Sub(q, big.NewInt(int64(1+r.Intn(3))))
		}
		l := limbs[U, P](z)
		for i := range l {
			l[i] = 0
		}
		for i, w := range x.Bits() {
			l[i] = uint64(w)
		}
	}
	return z
}

func zpScalar[U any, P elem[U]](t *T, name string, q *big.Int, f fns[U], exp func(*U, uint64) *U, k int) {
	r := t.R
	rounds := t.cfg.pick(1500, 6000)
	if q.BitLen() > 400 {
		rounds /= 2
	}
	var pool []P
	for i := 0; i < 40; i++ {
		pool = append(pool, edgeOperand[U, P](r, q))
	}
	val := func(p P) *big.Int { return p.BigInt(new(big.Int)) }
	half := new(big.Int).Rsh(q, 1)
	two := new(big.Int).ModInverse(big.NewInt(2), q)
	op := ""
	// got compares an element with the expected integer, and looks at its canonicity.
	got := func(z P, want *big.Int) {
		want.Mod(want, q)
		v := val(z)
		t.N("results_compared", 1)
		if v.Cmp(want) != 0 {
			t.Viol("arith", "%s: %s gives %s instead of %s", name, op, v, want)
			return
		}
		if c := P(new(U)).SetBigInt(want); !P(c).Equal(z) || !z.Equal(c) || z.Cmp(c) != 0 || z.NotEqual(c) != 0 {
			t.Viol("arith", "%s: %s gives a non-canonical representation of %s", name, op, want)
		}
	}
	for i := 0; i < rounds && t.nviol == 0; i++ {
		pick := func() P {
			if r.Intn(2) == 0 {
				return pool[r.Intn(len(pool))]
			}
			return edgeOperand[U, P](r, q)
		}
		// Operands are copied so that every aliasing pattern can be produced.
		x0, y0 := *pick(), *pick()
		if r.Intn(12) == 0 {
			y0 = x0
		}
		if r.Intn(12) == 0 {
			P(&y0).Neg(&x0)
		}
		vx, vy := val(P(&x0)), val(P(&y0))
		n := func() *big.Int { return new(big.Int) }
		bin := func(nm string, f func(z, x, y P), want func(a, b *big.Int) *big.Int) {
			for al := 0; al < 5; al++ {
				x, y, z := x0, y0, U(*pool[0])
				var zp, xp, yp P = &z, &x, &y
				a, b := vx, vy
				switch al {
				case 1:
					zp = &x
				case 2:
					zp = &y
				case 3:
					yp, b = &x, vx
				case 4:
					yp, zp, b = &x, &x, vx
				}
				f(zp, xp, yp)
				op = fmt.Sprintf("%s(%s,%s) aliasing %d", nm, a, b, al)
				got(zp, want(a, b))
				if zp != xp && val(xp).Cmp(a) != 0 || zp != yp && val(yp).Cmp(b) != 0 {
					t.Viol("operand", "%s: %s changed its operand", name, op)
				}
				if r.Intn(40) == 0 {
					c := *zp
					pool[r.Intn(len(pool))] = &c
				}
			}
		}
		un := func(nm string, f func(z, x P), want func(a *big.Int) *big.Int) {
			for al := 0; al < 2; al++ {
				x, z := x0, U(*pool[0])
				var zp, xp P = &z, &x
				if al == 1 {
					zp = xp
				}
				f(zp, xp)
				op = fmt.Sprintf("%s(%s) aliasing %d", nm, vx, al)
				got(zp, want(vx))
				if zp != xp && val(xp).Cmp(vx) != 0 {
					t.Viol("operand", "%s: %s changed its operand", name, op)
				}
			}
		}
		inv := func(a *big.Int) *big.Int {
			if a.Sign() == 0 {
				return n()
			}
			return n().ModInverse(a, q)
		}
		bin("Add", func(z, x, y P) { z.Add(x, y) }, func(a, b *big.Int) *big.Int { return n().Add(a, b) })
		bin("Sub", func(z, x, y P) { z.Sub(x, y) }, func(a, b *big.Int) *big.Int { return n().Sub(a, b) })
		bin("Mul", func(z, x, y P) { z.Mul(x, y) }, func(a, b *big.Int) *big.Int { return n().Mul(a, b) })
		for _, c := range []int{0, 1, -1, 2, 1 << 40} {
			bin(fmt.Sprint("Select", c), func(z, x, y P) { z.Select(c, x, y) }, func(a, b *big.Int) *big.Int {
				if c == 0 {
					return n().Set(a)
				}
				return n().Set(b)
			})
			if i%8 != 0 {
				break
			}
		}
		un("Neg", func(z, x P) { z.Neg(x) }, func(a *big.Int) *big.Int { return n().Neg(a) })
		un("Double", func(z, x P) { z.Double(x) }, func(a *big.Int) *big.Int { return n().Lsh(a, 1) })
		un("Square", func(z, x P) { z.Square(x) }, func(a *big.Int) *big.Int { return n().Mul(a, a) })
		un("Set", func(z, x P) { z.Set(x) }, func(a *big.Int) *big.Int { return n().Set(a) })
		un("Halve", func(z, x P) { z.Set(x); z.Halve() }, func(a *big.Int) *big.Int { return n().Mul(a, two) })
		un("MulBy3", func(z, x P) { z.Set(x); f.MulBy3(z) }, func(a *big.Int) *big.Int { return n().Mul(a, big.NewInt(3)) })
		un("MulBy5", func(z, x P) { z.Set(x); f.MulBy5(z) }, func(a *big.Int) *big.Int { return n().Mul(a, big.NewInt(5)) })
		un("MulBy13", func(z, x P) { z.Set(x); f.MulBy13(z) }, func(a *big.Int) *big.Int { return n().Mul(a, big.NewInt(13)) })
		if i%4 == 0 {
			un("Inverse", func(z, x P) { z.Inverse(x) }, inv)
			bin("Div", func(z, x, y P) { z.Div(x, y) }, func(a, b *big.Int) *big.Int { return n().Mul(a, inv(b)) })
		}
		{
			a, b := x0, y0
			f.Butterfly(P(&a), P(&b))
			op = fmt.Sprintf("Butterfly(%s,%s)", vx, vy)
			got(P(&a), n().Add(vx, vy))
			got(P(&b), n().Sub(vx, vy))
		}
		// New gives an independent zero.
		op = "New"
		got(P(&x0).New(), n())
		// comparison
		if c := P(&x0).Cmp(&y0); c != vx.Cmp(vy) {
			t.Viol("compare", "%s: Cmp(%s,%s) = %d", name, vx, vy, c)
		}
		if P(&x0).Equal(&y0) != (vx.Cmp(vy) == 0) || (P(&x0).NotEqual(&y0) == 0) != (vx.Cmp(vy) == 0) {
			t.Viol("compare", "%s: Equal(%s,%s) wrong", name, vx, vy)
		}
		if P(&x0).IsZero() != (vx.Sign() == 0) || P(&x0).IsOne() != (vx.Cmp(big.NewInt(1)) == 0) {
			t.Viol("compare", "%s: IsZero or IsOne of %s wrong", name, vx)
		}
		if P(&x0).LexicographicallyLargest() != (vx.Cmp(half) > 0) {
			t.Viol("compare", "%s: LexicographicallyLargest of %s wrong", name, vx)
		}
		if g := P(&x0).ToBigIntRegular(new(big.Int)); g.Cmp(vx) != 0 {
			t.Viol("conversion", "%s: ToBigIntRegular gives %s instead of %s", name, g, vx)
		}
		if P(&x0).IsUint64() != vx.IsUint64() || vx.IsUint64() && P(&x0).Uint64() != vx.Uint64() {
			t.Viol("compare", "%s: Uint64 of %s wrong", name, vx)
		}
		t.N("comparisons", 6)
		// exponentiation
		if i%8 == 0 {
			es := []uint64{0, 1, 2, 3, 1 << 32, 1<<32 - 1, 1 << 63, 1<<63 - 1, 1<<63 + 1, ^uint64(0), r.Uint64(), uint64(r.Intn(100)), r.Uint64() >> uint(r.Intn(64))}
			for _, e := range es {
				x := x0
				z := P(exp(&x, e))
				op = fmt.Sprintf("bignum.Exp(%s,%d)", vx, e)
				got(z, n().Exp(vx, n().SetUint64(e), q))
				if val(P(&x)).Cmp(vx) != 0 || z == P(&x) {
					t.Viol("operand", "%s: %s changed its operand", name, op)
				}
			}
			e := n().Rand(r, n().Lsh(q, 3))
			if r.Intn(3) == 0 {
				e.Neg(e)
			}
			var z U
			op = fmt.Sprintf("Exp(%s,%s)", vx, e)
			ec := n().Set(e)
			P(&z).Exp(x0, e)
			if e.Sign() < 0 {
				got(P(&z), n().Exp(inv(vx), n().Neg(e), q))
			} else {
				got(P(&z), n().Exp(vx, e, q))
			}
			if e.Cmp(ec) != 0 {
				t.Viol("operand", "%s: %s changed its exponent", name, op)
			}
		}
		if i%60 == 0 {
			if l := P(&x0).Legendre(); l != big.Jacobi(vx, q) {
				t.Viol("arith", "%s: Legendre(%s) = %d", name, vx, l)
			}
			var s, z U
			P(&s).Square(&x0)
			if P(&z).Sqrt(&s) == nil {
				t.Viol("arith", "%s: no square root of %s squared", name, vx)
			} else {
				P(&z).Square(&z)
				op = "square of square root"
				got(P(&z), n().Mul(vx, vx))
			}
			if big.Jacobi(vx, q) == -1 && P(&z).Sqrt(&x0) != nil {
				t.Viol("arith", "%s: square root of the non-square %s", name, vx)
			}
		}
		// batched inversion
		if i%50 == 0 {
			m := r.Intn(20)
			a := make([]U, m)
			for j := range a {
				a[j] = *edgeOperand[U, P](r, q)
				if r.Intn(4) == 0 {
					P(&a[j]).SetZero()
				}
			}
			b := f.BatchInvert(a)
			for j := range a {
				op = "BatchInvert"
				got(P(&b[j]), inv(val(P(&a[j]))))
			}
		}
		t.Eval(fmt.Sprint(name, vx, vy))
	}
	t.Sample("%s: operands at value and limb boundaries, five aliasing patterns", name)
}

func zpVector[U any, P elem[U], V ~[]U, PV vecOf[U, V]](t *T, name string, q *big.Int, f fns[U], k int) {
	r := t.R
	val := func(p P) *big.Int { return p.BigInt(new(big.Int)) }
	lens := []int{0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 47, 48, 63, 64, 65, 111, 112, 113, 127, 128, 129, 200, 255, 256, 257}
	if t.cfg.Thorough {
		for i := 0; i < 20; i++ {
			lens = append(lens, 1+r.Intn(3000))
		}
		lens = append(lens, 8191, 16384+1+r.Intn(100), 65537+r.Intn(100))
	} else if k == 0 {
		lens = append(lens, 1023, 4096+1+r.Intn(100))
	}
	for _, n := range lens {
		if t.nviol > 0 {
			return
		}
		mk := func() V {
			v := make(V, n)
			mode := r.Intn(3)
			for i := range v {
				switch mode {
				case 0:
					v[i] = *edgeOperand[U, P](r, q)
				case 1:
					P(&v[i]).SetBigInt(new(big.Int).Sub(q, big.NewInt(int64(1+r.Intn(2)))))
				default:
					P(&v[i]).SetBigInt(rndFull(r, q))
				}
			}
			return v
		}
		a, b := mk(), mk()
		A, B := make([]*big.Int, n), make([]*big.Int, n)
		for i := range a {
			A[i], B[i] = val(P(&a[i])), val(P(&b[i]))
		}
		same := func(op string, v V, want func(i int) *big.Int) {
			for i := range v {
				w := want(i)
				w.Mod(w, q)
				t.N("results_compared", 1)
				if val(P(&v[i])).Cmp(w) != 0 || !P(&v[i]).Equal(P(new(U)).SetBigInt(w)) {
					t.Viol("vector", "%s: vector %s of length %d: entry %d is %s instead of %s", name, op, n, i, val(P(&v[i])), w)
					return
				}
			}
		}
		cpV := func(v V) V { return append(V(nil), v...) }
		for al := 0; al < 3; al++ {
			bin := func(op string, f func(z *V, x, y V), want func(i int) *big.Int) {
				x, y := cpV(a), cpV(b)
				// guard entries around the destination catch stray writes
				buf := make(V, n+2)
				g := *edgeOperand[U, P](r, q)
				buf[0], buf[n+1] = g, g
				z := buf[1 : n+1 : n+1]
				switch al {
				case 1:
					z = x
				case 2:
					z = y
				}
				if p := try(func() { f(&z, x, y) }); p != nil {
					k := "vector-panic"
					if n == 0 {
						k = "empty-vector"
					}
					t.Viol(k, "%s: vector %s of length %d panics: %v", name, op, n, p)
					t.nviol = 0
					return
				}
				same(op, z, want)
				if !P(&buf[0]).Equal(&g) || !P(&buf[n+1]).Equal(&g) {
					t.Viol("vector", "%s: vector %s of length %d writes outside its destination", name, op, n)
				}
				if al != 1 {
					same(op+" (operand)", x, func(i int) *big.Int { return new(big.Int).Set(A[i]) })
				}
				if al != 2 {
					same(op+" (operand)", y, func(i int) *big.Int { return new(big.Int).Set(B[i]) })
				}
			}
			bin("Add", func(z *V, x, y V) { PV(z).Add(x, y) }, func(i int) *big.Int { return new(big.Int).Add(A[i], B[i]) })
			bin("Sub", func(z *V, x, y V) { PV(z).Sub(x, y) }, func(i int) *big.Int { return new(big.Int).Sub(A[i], B[i]) })
			bin("Mul", func(z *V, x, y V) { PV(z).Mul(x, y) }, func(i int) *big.Int { return new(big.Int).Mul(A[i], B[i]) })
			s := *edgeOperand[U, P](r, q)
			vs := val(P(&s))
			bin("ScalarMul", func(z *V, x, y V) { PV(z).ScalarMul(x, &s) }, func(i int) *big.Int { return new(big.Int).Mul(A[i], vs) })
		}
		if n > 0 {
			// the scalar may be an entry of the operand or of the destination
			j := r.Intn(n)
			z := make(V, n)
			x := cpV(a)
			PV(&z).ScalarMul(x, &x[j])
			same("ScalarMul by an entry of its operand", z, func(i int) *big.Int { return new(big.Int).Mul(A[i], A[j]) })
			PV(&x).ScalarMul(x, &x[j])
			t.N("results_compared", n)
			for i := range x {
				if w := new(big.Int).Mul(A[i], A[j]); val(P(&x[i])).Cmp(w.Mod(w, q)) != 0 {
					nv := t.nviol
					t.Viol("vector-scalar-alias", "%s: vector ScalarMul by an entry of its destination: length %d, scalar at %d, entry %d is wrong", name, n, j, i)
					t.nviol = nv
					break
				}
			}
		}
		sum, ip := new(big.Int), new(big.Int)
		for i := range A {
			sum.Add(sum, A[i])
			ip.Add(ip, new(big.Int).Mul(A[i], B[i]))
		}
		z := PV(&a).Sum()
		same("Sum", V{z}, func(int) *big.Int { return new(big.Int).Set(sum) })
		z = PV(&a).InnerProduct(b)
		same("InnerProduct", V{z}, func(int) *big.Int { return new(big.Int).Set(ip) })
		raw, err := PV(&a).MarshalBinary()
		var c V
		if err == nil {
			err = PV(&c).UnmarshalBinary(raw)
		}
		if err != nil || len(c) != n {
			t.Viol("encoding", "%s: vector of length %d does not survive serialisation: %v", name, n, err)
		} else {
			same("serialisation", c, func(i int) *big.Int { return new(big.Int).Set(A[i]) })
		}
		zpVectorIO[U, P, V, PV](t, name, q, a, A)
		// batched inversion
		for i := 0; i < n/3; i++ {
			P(&a[r.Intn(n)]).SetZero()
		}
		for i := range a {
			A[i] = val(P(&a[i]))
		}
		bi := V(f.BatchInvert(a))
		if len(bi) != n {
			t.Viol("vector", "%s: BatchInvert of %d entries gives %d", name, n, len(bi))
		} else {
			same("BatchInvert", bi, func(i int) *big.Int {
				if A[i].Sign() == 0 {
					return new(big.Int)
				}
				return new(big.Int).ModInverse(A[i], q)
			})
		}
		same("BatchInvert (operand)", a, func(i int) *big.Int { return new(big.Int).Set(A[i]) })
		t.Eval(fmt.Sprint(name, "vec", n, k))
	}
	t.Sample("%s: vectors of %d lengths up to %d", name, len(lens), lens[len(lens)-1])
}

// pieces returns data in reads of random sizes.
type pieces struct {
	p []byte
	r *rand.Rand
}

func (p *pieces) Read(b []byte) (int, error) {
	if len(p.p) == 0 {
		return 0, io.EOF
	}
	n := 1 + p.r.Intn(100)
	n = copy(b[:min(n, len(b))], p.p)
	p.p = p.p[n:]
	return n, nil
}

// zpVectorIO checks the encodings, the order and the comparison of vectors.
func zpVectorIO[U any, P elem[U], V ~[]U, PV vecOf[U, V]](t *T, name string, q *big.Int, a V, A []*big.Int) {
	r, n := t.R, len(a)
	val := func(p P) *big.Int { return p.BigInt(new(big.Int)) }
	bad := func(format string, x ...any) {
		t.Viol("vector-io", "%s: vector of length %d: %s", name, n, fmt.Sprintf(format, x...))
	}
	nb := len(P(new(U)).Marshal())
	raw := make([]byte, 4+n*nb)
	binary.BigEndian.PutUint32(raw, uint32(n))
	for i := range A {
		A[i].FillBytes(raw[4+i*nb : 4+(i+1)*nb])
	}
	var w bytes.Buffer
	if k, err := PV(&a).WriteTo(&w); err != nil || k != int64(len(raw)) || !bytes.Equal(w.Bytes(), raw) {
		bad("WriteTo writes %d bytes (%v), which are not the encoding", k, err)
	}
	type reader struct {
		name string
		read func(v *V, p io.Reader) (int64, error)
	}
	rs := []reader{
		{"ReadFrom", func(v *V, p io.Reader) (int64, error) { return PV(v).ReadFrom(p) }},
		{"AsyncReadFrom", func(v *V, p io.Reader) (int64, error) {
			k, err, c := PV(v).AsyncReadFrom(p)
			if err == nil {
				err = <-c
			}
			return k, err
		}},
	}
	for _, f := range rs {
		for rep := 0; rep < 3; rep++ {
			var v V
			switch rep {
			case 1:
				v = make(V, r.Intn(2*n+2))
				PV(&v).MustSetRandom()
			case 2:
				v = make(V, 1, 2*n+3)
			}
			// more data than the vector needs
			d := append(append([]byte(nil), raw...), make([]byte, r.Intn(3)*nb)...)
			rd := &pieces{d, r}
			k, err := f.read(&v, rd)
			if err != nil || k != int64(len(raw)) || len(v) != n || len(rd.p) != len(d)-len(raw) {
				bad("%s gives %d entries from %d bytes: %v", f.name, len(v), k, err)
				continue
			}
			for i := range v {
				if val(P(&v[i])).Cmp(A[i]) != 0 || !P(&v[i]).Equal(&a[i]) {
					bad("%s gives another entry %d", f.name, i)
					break
				}
			}
			t.N("vectors_decoded", 1)
		}
		// entries which are not canonical, wherever they are
		if n > 0 {
			for rep := 0; rep < 6; rep++ {
				d := append([]byte(nil), raw...)
				i := []int{0, n - 1, r.Intn(n), r.Intn(n), r.Intn(n), n / 2}[rep]
				x := new(big.Int).Add(q, big.NewInt(int64(r.Intn(3))))
				if rep%2 == 1 {
					x.Lsh(big.NewInt(1), uint(8*nb))
					x.Sub(x, big.NewInt(1))
				}
				x.FillBytes(d[4+i*nb : 4+(i+1)*nb])
				var v V
				if _, err := f.read(&v, &pieces{d, r}); err == nil {
					bad("%s accepts an entry %d beyond the modulus", f.name, i)
				}
				t.N("encodings_refused", 1)
			}
			for rep := 0; rep < 4; rep++ {
				var v V
				if _, err := f.read(&v, &pieces{raw[:r.Intn(len(raw))], r}); err == nil {
					bad("%s accepts a truncated encoding", f.name)
				}
			}
		}
	}
	// comparison, order and text
	b := append(V(nil), a...)
	if !PV(&a).Equal(b) {
		bad("not equal to its copy")
	}
	if PV(&a).Equal(append(b, *P(new(U)).SetOne())) || n > 0 && PV(&a).Equal(b[:n-1]) {
		bad("equal to a vector of another length")
	}
	if n > 0 {
		i := r.Intn(n)
		P(&b[i]).Add(P(&b[i]), P(new(U)).SetOne())
		if PV(&a).Equal(b) {
			bad("equal to a vector with another entry %d", i)
		}
		copy(b, a)
	}
	sort.Sort(PV(&b))
	B := append([]*big.Int(nil), A...)
	sort.Slice(B, func(i, j int) bool { return B[i].Cmp(B[j]) < 0 })
	for i := range b {
		if val(P(&b[i])).Cmp(B[i]) != 0 {
			bad("sorting gives another entry %d", i)
			break
		}
	}
	s := PV(&a).String()
	if len(s) < 2 || s[0] != '[' || s[len(s)-1] != ']' {
		bad("printed as %q", s)
	} else if n > 0 {
		for i, e := range strings.Split(s[1:len(s)-1], ",") {
			z, ok := new(big.Int).SetString(e, 10)
			if i >= n || !ok || z.Mod(z, q).Cmp(A[i]) != 0 {
				bad("printed with another entry %d", i)
				break
			}
		}
	}
	// random vectors
	seen := map[string]bool{}
	if err := PV(&b).SetRandom(); err != nil {
		bad("SetRandom: %v", err)
	}
	c := append(V(nil), b...)
	PV(&c).MustSetRandom()
	for _, v := range []V{b, c} {
		for i := range v {
			x := val(P(&v[i]))
			if x.Cmp(q) >= 0 || !P(&v[i]).Equal(P(new(U)).SetBigInt(x)) {
				bad("random entry out of range")
				return
			}
			if seen[x.String()] {
				bad("random entries repeat")
				return
			}
			seen[x.String()] = true
		}
	}
}

func zpEncode[U any, P elem[U]](t *T, name string, q *big.Int, f fns[U], k int) {
	r := t.R
	val := func(p P) *big.Int { return p.BigInt(new(big.Int)) }
	nb := len(P(new(U)).Marshal())
	bad := func(format string, a ...any) { t.Viol("encoding", "%s: %s", name, fmt.Sprintf(format, a...)) }
	mod := func(x *big.Int) *big.Int { return new(big.Int).Mod(x, q) }
	for i := 0; i < t.cfg.pick(400, 2500) && t.nviol == 0; i++ {
		x := edgeOperand[U, P](r, q)
		v := val(x)
		if v.Sign() < 0 || v.Cmp(q) >= 0 {
			bad("BigInt out of range: %s", v)
			return
		}
		t.Eval(fmt.Sprint(name, "enc", v))
		t.N("roundtrips", 12)
		eq := func(what string, y P, want *big.Int) {
			if val(y).Cmp(want) != 0 || !y.Equal(P(new(U)).SetBigInt(want)) {
				bad("%s of %s gives %s", what, want, val(y))
			}
		}
		// integers, any sign and size
		for _, w := range []*big.Int{v, new(big.Int).Add(v, q), new(big.Int).Sub(v, q), new(big.Int).Neg(v), new(big.Int).Mul(v, q), new(big.Int).Lsh(v, uint(r.Intn(700))), new(big.Int).Neg(new(big.Int).Lsh(v, 333)), q, new(big.Int).Neg(q), new(big.Int).Lsh(q, 64)} {
			c := new(big.Int).Set(w)
			y := edgeOperand[U, P](r, q)
			eq("SetBigInt", y.SetBigInt(w), mod(w))
			if c.Cmp(w) != 0 {
				bad("SetBigInt changes its argument")
			}
			y2, err := P(new(U)).SetInterface(c)
			if err != nil {
				bad("SetInterface(%s): %v", c, err)
			} else {
				eq("SetInterface", y2, mod(w))
			}
		}
		for _, w := range []int64{0, 1, -1, 2, -2, 1<<63 - 1, -1 << 63, -1<<63 + 1, r.Int63(), -r.Int63()} {
			eq("SetInt64", edgeOperand[U, P](r, q).SetInt64(w), mod(big.NewInt(w)))
			y, err := P(new(U)).SetInterface(w)
			if err != nil {
				bad("SetInterface(%d): %v", w, err)
			} else {
				eq("SetInterface", y, mod(big.NewInt(w)))
			}
		}
		for _, w := range []uint64{0, 1, ^uint64(0), 1 << 63, r.Uint64()} {
			b := mod(new(big.Int).SetUint64(w))
			eq("SetUint64", edgeOperand[U, P](r, q).SetUint64(w), b)
			z := f.NewUint(w)
			eq("NewUint", P(&z), b)
		}
		one := f.One()
		eq("One", P(&one), big.NewInt(1))
		eq("SetOne", edgeOperand[U, P](r, q).SetOne(), big.NewInt(1))
		eq("SetZero", edgeOperand[U, P](r, q).SetZero(), new(big.Int))
		// bytes
		m := x.Marshal()
		w := make([]byte, nb)
		v.FillBytes(w)
		if !bytes.Equal(m, w) {
			bad("Marshal of %s gives %x", v, m)
		}
		m[0] ^= 0xff
		eq("value after changing the marshalled bytes", x, v)
		m[0] ^= 0xff
		y := edgeOperand[U, P](r, q)
		y.Unmarshal(m)
		eq("Unmarshal", y, v)
		if err := edgeOperand[U, P](r, q).SetBytesCanonical(m); err != nil {
			bad("SetBytesCanonical refuses %s", v)
		}
		for _, l := range []int{0, 1, nb - 1, nb, nb + 1, 2 * nb, r.Intn(3 * nb)} {
			p := make([]byte, l)
			if r.Intn(3) == 0 {
				for j := range p {
					p[j] = 0xff
				}
			} else {
				r.Read(p)
			}
			c := append([]byte(nil), p...)
			eq(fmt.Sprintf("SetBytes (%d bytes)", l), edgeOperand[U, P](r, q).SetBytes(p), mod(new(big.Int).SetBytes(p)))
			y := edgeOperand[U, P](r, q)
			y.Unmarshal(p)
			eq(fmt.Sprintf("Unmarshal (%d bytes)", l), y, mod(new(big.Int).SetBytes(p)))
			if !bytes.Equal(c, p) {
				bad("SetBytes changes its argument")
			}
			y = edgeOperand[U, P](r, q)
			err := y.SetBytesCanonical(p)
			canon := l == nb && new(big.Int).SetBytes(p).Cmp(q) < 0
			if (err == nil) != canon {
				bad("SetBytesCanonical of %x: %v", p, err)
			} else if canon {
				eq("SetBytesCanonical", y, new(big.Int).SetBytes(p))
			}
		}
		// little-endian bytes
		le := f.LEPut(*x)
		rev := make([]byte, nb)
		for j := range rev {
			rev[j] = w[nb-1-j]
		}
		if !bytes.Equal(le, rev) {
			bad("little-endian bytes of %s are %x", v, le)
		}
		if z, err := f.LEGet(le); err != nil {
			bad("little-endian bytes of %s refused", v)
		} else {
			eq("little-endian bytes", P(&z), v)
		}
		// the modulus and beyond are not canonical
		for _, d := range []int64{0, 1, 5} {
			z := new(big.Int).Add(q, big.NewInt(d))
			if (z.BitLen()+7)/8 > nb {
				continue
			}
			z.FillBytes(w)
			if P(new(U)).SetBytesCanonical(w) == nil {
				bad("SetBytesCanonical accepts q+%d", d)
			}
			for j := range rev {
				rev[j] = w[nb-1-j]
			}
			if _, err := f.LEGet(rev); err == nil {
				bad("little-endian decoding accepts q+%d", d)
			}
		}
		// limbs
		res := make([]uint64, x.Limb()+2)
		res[x.Limb()], res[x.Limb()+1] = 0xdeadbeef, 0xfeedface
		x.Slice(res)
		sl := new(big.Int)
		for j := x.Limb() - 1; j >= 0; j-- {
			sl.Lsh(sl, 64)
			sl.Or(sl, new(big.Int).SetUint64(res[j]))
		}
		if sl.Cmp(v) != 0 || res[x.Limb()] != 0xdeadbeef || res[x.Limb()+1] != 0xfeedface {
			bad("Slice of %s gives %s", v, sl)
		}
		res[0] ^= 1
		eq("value after changing the exported limbs", x, v)
		if x.Limb() != (q.BitLen()+63)/64 {
			bad("Limb() = %d", x.Limb())
		}
		// text
		for _, base := range []int{2, 8, 10, 16, 36} {
			s := x.Text(base)
			z, ok := new(big.Int).SetString(s, base)
			if !ok || mod(z).Cmp(v) != 0 {
				bad("Text(%d) of %s gives %q", base, v, s)
			}
		}
		for _, s := range []string{x.String(), v.String(), "0x" + v.Text(16), "-" + v.String(), new(big.Int).Add(v, q).String()} {
			z, _ := new(big.Int).SetString(s, 0)
			y, err := edgeOperand[U, P](r, q).SetString(s)
			if err != nil {
				bad("SetString(%q): %v", s, err)
			} else {
				eq(fmt.Sprintf("SetString(%q)", s), y, mod(z))
			}
		}
		for _, s := range []string{"", "zz", "1 2", "--1", "0xg"} {
			if _, err := P(new(U)).SetString(s); err == nil {
				bad("SetString(%q) succeeds", s)
			}
		}
		js, err := json.Marshal(x)
		if err != nil {
			bad("JSON of %s: %v", v, err)
		} else {
			y := edgeOperand[U, P](r, q)
			if err := json.Unmarshal(js, y); err != nil {
				bad("JSON %s: %v", js, err)
			} else {
				eq("JSON", y, v)
			}
		}
		// BigInt overwrites whatever was in the result
		if z := x.BigInt(new(big.Int).Lsh(big.NewInt(-5), 999)); z.Cmp(v) != 0 {
			bad("BigInt into a used integer gives %s instead of %s", z, v)
		}
		// random elements
		y = edgeOperand[U, P](r, q)
		if z := P(y.MustSetRandom()); val(z).Cmp(q) >= 0 || !z.Equal(P(new(U)).SetBigInt(val(z))) {
			bad("MustSetRandom out of range: %s", val(z))
		}
	}
	// Uniformity of random elements: top and bottom bits, and leading part.
	n := t.cfg.pick(20000, 200000)
	vs := make([]*big.Int, n)
	for i := range vs {
		vs[i] = val(P(new(U)).MustSetRandom())
	}
	if err := uniformMod(vs, q, (q.BitLen()+63)/64); err != nil {
		bad("MustSetRandom: %v", err)
	}
	t.Sample("%s: encodings of %d-byte elements", name, nb)
}
