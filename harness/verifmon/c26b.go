package main

import (
	"fmt"
	"math/big"
	"reflect"
	"unsafe"

	"github.com/sp301415/ringo-snark/buckler"
	"github.com/sp301415/ringo-snark/math/bignum"
)

// checkersOf collects the linear maps reachable from v: those a compiled circuit
// made for itself have no exported constructor. It goes by type, not by name.
func checkersOf[E bignum.Uint[E]](v any) []buckler.LinearChecker[E] {
	want := reflect.TypeFor[buckler.LinearChecker[E]]()
	elem := reflect.TypeFor[E]()
	seen := map[unsafe.Pointer]bool{}
	var out []buckler.LinearChecker[E]
	var walk func(x reflect.Value, depth int)
	walk = func(x reflect.Value, depth int) {
		if depth > 8 || !x.IsValid() || x.Type() == elem {
			return
		}
		switch x.Kind() {
		case reflect.Interface:
			walk(x.Elem(), depth)
			return
		case reflect.Pointer:
			if x.IsNil() || seen[x.UnsafePointer()] {
				return
			}
			seen[x.UnsafePointer()] = true
			if x.Type().Implements(want) {
				out = append(out, reflect.NewAt(x.Type().Elem(), x.UnsafePointer()).Interface().(buckler.LinearChecker[E]))
				return
			}
			walk(x.Elem(), depth+1)
		case reflect.Struct:
			for i := 0; i < x.NumField(); i++ {
				walk(x.Field(i), depth+1)
			}
		case reflect.Slice, reflect.Array:
			switch k := x.Type().Elem().Kind(); {
			case x.Type().Elem() == elem, k <= reflect.Complex128, k == reflect.String:
				return
			}
			for i := 0; i < x.Len(); i++ {
				walk(x.Index(i), depth+1)
			}
		case reflect.Map:
			for it := x.MapRange(); it.Next(); {
				walk(it.Key(), depth+1)
				walk(it.Value(), depth+1)
			}
		}
	}
	walk(reflect.ValueOf(v), 0)
	return out
}

// derivedMaps demands the transposition identity of the maps that the compiler makes for approximate norms.
func (s *suite[E]) derivedMaps(t *T, rank int, bounds []*big.Int) {
	b := s.builder(t.R, rank)
	for _, bd := range bounds {
		w := b.sec(zeros(rank))
		b.sp.norms = append(b.sp.norms, normC{w, bd, "apx"})
	}
	bi, err := s.compile(b.sp, "maps")
	if err != nil {
		t.N("refused_to_compile", 1)
		return
	}
	var pf *buckler.Proof[E]
	if p := try(func() { pf, err = bi.prove(b.v) }); p == nil && err == nil {
		try(func() { bi.verify(b.v, pf) })
	}
	for who, x := range map[string]any{"prover": bi.prv, "verifier": bi.vrf} {
		cs := checkersOf[E](x)
		t.N("maps_found_in_"+who, len(cs))
		for i, c := range cs {
			s.linMap(t, fmt.Sprintf("%s rank %d bounds %v: map %d (%T) of the %s", s.name, rank, bounds, i, c, who), c, rank, nil)
		}
	}
}

func zeros(n int) []*big.Int {
	o := make([]*big.Int, n)
	for i := range o {
		o[i] = new(big.Int)
	}
	return o
}

func casesC26Derived(cfg Cfg) []Case {
	var cs []Case
	for _, f := range allFields {
		ranks := []int{256, 1024}
		if cfg.Thorough {
			ranks = []int{128, 256, 512, 1024, 2048}
		}
		if f.Q.BitLen() > 500 {
			ranks = []int{256}
		}
		for _, rank := range ranks {
			cs = append(cs, Case{Name: fmt.Sprintf("derived/%s/%d", f.Name, rank), Run: func(t *T) {
				for k := 0; k < cfg.pick(3, 12); k++ {
					bs := []*big.Int{big.NewInt(1), big.NewInt(int64(2 + t.R.Intn(6)))}
					if k > 0 {
						bs = []*big.Int{new(big.Int).Add(big.NewInt(1), new(big.Int).Rand(t.R, new(big.Int).Lsh(big.NewInt(1), uint(1+t.R.Intn(min(40, f.Q.BitLen()/4))))))}
					}
					f.S.derivedMaps(t, rank, bs)
				}
			}})
		}
	}
	return cs
}
