package main

import (
	"fmt"
	"math/big"
	"math/rand"

	bvz "github.com/sp301415/ringo-snark/buckler/verifzp"
	bfvzp "github.com/sp301415/ringo-snark/examples/bfv/zp"
	multzp "github.com/sp301415/ringo-snark/examples/mult/zp"
	jvz "github.com/sp301415/ringo-snark/jindo/verifzp"
	"github.com/sp301415/ringo-snark/math/bignum"
)

// F is a field under test, given as a set of generic workloads bound to its element type.
type F struct {
	Name string
	Q    *big.Int
	S    Suite
}

// suite binds the generic workloads to the element type E.
type suite[E bignum.Uint[E]] struct {
	name string
	q    *big.Int
}

func mkField[E bignum.Uint[E]](name string, q *big.Int) F {
	return F{name, q, &suite[E]{name, q}}
}

var allFields = []F{
	mkField[*jvz.Z255]("zp255", jvz.M255()),
	mkField[*bvz.Z110]("zp110", bvz.M110()),
	mkField[*bvz.Z220]("zp220", bvz.M220()),
	mkField[*bvz.Z440]("zp440", bvz.M440()),
	mkField[*bvz.Z880]("zp880", bvz.M880()),
	mkField[*multzp.Uint]("zp128", multzp.Modulus()),
	mkField[*bfvzp.Uint]("zp240", bfvzp.Modulus()),
}

func field(name string) F {
	for _, f := range allFields {
		if f.Name == name {
			return f
		}
	}
	panic("no field " + name)
}

func newE[E bignum.Uint[E]]() E { var z E; return z.New() }

func fe[E bignum.Uint[E]](b *big.Int) E { return newE[E]().SetBigInt(b) }

func fi[E bignum.Uint[E]](x int64) E { return newE[E]().SetInt64(x) }

func bi[E bignum.Uint[E]](e E) *big.Int { return e.BigInt(new(big.Int)) }

func cp[E bignum.Uint[E]](e E) E { return newE[E]().Set(e) }

func cpv[E bignum.Uint[E]](v []E) []E {
	if v == nil {
		return nil
	}
	o := make([]E, len(v))
	for i := range v {
		o[i] = cp(v[i])
	}
	return o
}

func biv[E bignum.Uint[E]](v []E) []*big.Int {
	o := make([]*big.Int, len(v))
	for i := range v {
		o[i] = bi(v[i])
	}
	return o
}

func fev[E bignum.Uint[E]](v []*big.Int) []E {
	o := make([]E, len(v))
	for i := range v {
		o[i] = fe[E](v[i])
	}
	return o
}

func zerov[E bignum.Uint[E]](n int) []E {
	o := make([]E, n)
	for i := range o {
		o[i] = newE[E]()
	}
	return o
}

func eqv[E bignum.Uint[E]](a, b []E) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].Cmp(b[i]) != 0 {
			return false
		}
	}
	return true
}

// rndBig returns a random value below q; a share of the values are boundary values.
func rndBig(r *rand.Rand, q *big.Int) *big.Int {
	switch r.Intn(12) {
	case 0:
		return edgeBig(r, q)
	}
	return new(big.Int).Rand(r, q)
}

func rndFull(r *rand.Rand, q *big.Int) *big.Int { return new(big.Int).Rand(r, q) }

// edgeBig returns a boundary value of the field.
func edgeBig(r *rand.Rand, q *big.Int) *big.Int {
	one := big.NewInt(1)
	x := new(big.Int)
	switch r.Intn(9) {
	case 0:
		x.SetInt64(0)
	case 1:
		x.SetInt64(1)
	case 2:
		x.Sub(q, one)
	case 3:
		x.Sub(q, big.NewInt(2))
	case 4:
		x.Rsh(q, 1)
	case 5:
		x.Rsh(q, 1)
		x.Add(x, one)
	case 6:
		x.Lsh(one, uint(r.Intn(q.BitLen())))
	case 7:
		x.Lsh(one, uint(r.Intn(q.BitLen())))
		x.Sub(x, one)
	case 8:
		x.Lsh(one, uint(64*(1+r.Intn((q.BitLen()+63)/64))))
		x.Sub(x, one)
	}
	return x.Mod(x, q)
}

func (s *suite[E]) rnd(r *rand.Rand) E { return fe[E](rndFull(r, s.q)) }

func (s *suite[E]) rndNZ(r *rand.Rand) E {
	for {
		if x := rndFull(r, s.q); x.Sign() != 0 {
			return fe[E](x)
		}
	}
}

func (s *suite[E]) rndv(r *rand.Rand, n int) []E {
	o := make([]E, n)
	for i := range o {
		o[i] = fe[E](rndFull(r, s.q))
	}
	return o
}

// centred returns the balanced representative.
func (s *suite[E]) centred(e E) *big.Int {
	x := bi(e)
	if x.Cmp(new(big.Int).Rsh(s.q, 1)) > 0 {
		x.Sub(x, s.q)
	}
	return x
}

func fstr(x *big.Int) string {
	t := x.String()
	if len(t) > 24 {
		return t[:10] + ".." + t[len(t)-8:]
	}
	return t
}

var _ = fmt.Sprint
