// Package verifzp re-exports the internal field of jindo to the harness.
package verifzp

import "github.com/sp301415/ringo-snark/jindo/internal/zp"

type (
	Z255 = zp.Uint
	V255 = zp.Vector
)

var M255 = zp.Modulus

func le255Put(e zp.Uint) []byte {
	var b [zp.Bytes]byte
	zp.LittleEndian.PutElement(&b, e)
	return b[:]
}

func le255Get(p []byte) (zp.Uint, error) {
	var b [zp.Bytes]byte
	copy(b[:], p)
	return zp.LittleEndian.Element(&b)
}

// F255 are the package-level operations.
var F255 = struct {
	MulBy3, MulBy5, MulBy13 func(*zp.Uint)
	Butterfly               func(a, b *zp.Uint)
	BatchInvert             func([]zp.Uint) []zp.Uint
	LEPut                   func(zp.Uint) []byte
	LEGet                   func([]byte) (zp.Uint, error)
	NewUint                 func(uint64) zp.Uint
	One                     func() zp.Uint
}{zp.MulBy3, zp.MulBy5, zp.MulBy13, zp.Butterfly, zp.BatchInvert, le255Put, le255Get, zp.NewUint, zp.One}
