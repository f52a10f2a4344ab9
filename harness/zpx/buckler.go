// Package verifzp re-exports the internal fields of buckler to the harness.
package verifzp

import (
	"github.com/sp301415/ringo-snark/buckler/internal/zp110"
	"github.com/sp301415/ringo-snark/buckler/internal/zp220"
	"github.com/sp301415/ringo-snark/buckler/internal/zp440"
	"github.com/sp301415/ringo-snark/buckler/internal/zp880"
)

type (
	Z110 = zp110.Uint
	Z220 = zp220.Uint
	Z440 = zp440.Uint
	Z880 = zp880.Uint
	V110 = zp110.Vector
	V220 = zp220.Vector
	V440 = zp440.Vector
	V880 = zp880.Vector
)

var (
	M110 = zp110.Modulus
	M220 = zp220.Modulus
	M440 = zp440.Modulus
	M880 = zp880.Modulus
)

func le110Put(e zp110.Uint) []byte {
	var b [zp110.Bytes]byte
	zp110.LittleEndian.PutElement(&b, e)
	return b[:]
}

func le110Get(p []byte) (zp110.Uint, error) {
	var b [zp110.Bytes]byte
	copy(b[:], p)
	return zp110.LittleEndian.Element(&b)
}

// F110 are the package-level operations.
var F110 = struct {
	MulBy3, MulBy5, MulBy13 func(*zp110.Uint)
	Butterfly               func(a, b *zp110.Uint)
	BatchInvert             func([]zp110.Uint) []zp110.Uint
	LEPut                   func(zp110.Uint) []byte
	LEGet                   func([]byte) (zp110.Uint, error)
	NewUint                 func(uint64) zp110.Uint
	One                     func() zp110.Uint
}{zp110.MulBy3, zp110.MulBy5, zp110.MulBy13, zp110.Butterfly, zp110.BatchInvert, le110Put, le110Get, zp110.NewUint, zp110.One}

func le220Put(e zp220.Uint) []byte {
	var b [zp220.Bytes]byte
	zp220.LittleEndian.PutElement(&b, e)
	return b[:]
}

func le220Get(p []byte) (zp220.Uint, error) {
	var b [zp220.Bytes]byte
	copy(b[:], p)
	return zp220.LittleEndian.Element(&b)
}

// F220 are the package-level operations.
var F220 = struct {
	MulBy3, MulBy5, MulBy13 func(*zp220.Uint)
	Butterfly               func(a, b *zp220.Uint)
	BatchInvert             func([]zp220.Uint) []zp220.Uint
	LEPut                   func(zp220.Uint) []byte
	LEGet                   func([]byte) (zp220.Uint, error)
	NewUint                 func(uint64) zp220.Uint
	One                     func() zp220.Uint
}{zp220.MulBy3, zp220.MulBy5, zp220.MulBy13, zp220.Butterfly, zp220.BatchInvert, le220Put, le220Get, zp220.NewUint, zp220.One}

func le440Put(e zp440.Uint) []byte {
	var b [zp440.Bytes]byte
	zp440.LittleEndian.PutElement(&b, e)
	return b[:]
}

func le440Get(p []byte) (zp440.Uint, error) {
	var b [zp440.Bytes]byte
	copy(b[:], p)
	return zp440.LittleEndian.Element(&b)
}

// F440 are the package-level operations.
var F440 = struct {
	MulBy3, MulBy5, MulBy13 func(*zp440.Uint)
	Butterfly               func(a, b *zp440.Uint)
	BatchInvert             func([]zp440.Uint) []zp440.Uint
	LEPut                   func(zp440.Uint) []byte
	LEGet                   func([]byte) (zp440.Uint, error)
	NewUint                 func(uint64) zp440.Uint
	One                     func() zp440.Uint
}{zp440.MulBy3, zp440.MulBy5, zp440.MulBy13, zp440.Butterfly, zp440.BatchInvert, le440Put, le440Get, zp440.NewUint, zp440.One}

func le880Put(e zp880.Uint) []byte {
	var b [zp880.Bytes]byte
	zp880.LittleEndian.PutElement(&b, e)
	return b[:]
}

func le880Get(p []byte) (zp880.Uint, error) {
	var b [zp880.Bytes]byte
	copy(b[:], p)
	return zp880.LittleEndian.Element(&b)
}

// F880 are the package-level operations.
var F880 = struct {
	MulBy3, MulBy5, MulBy13 func(*zp880.Uint)
	Butterfly               func(a, b *zp880.Uint)
	BatchInvert             func([]zp880.Uint) []zp880.Uint
	LEPut                   func(zp880.Uint) []byte
	LEGet                   func([]byte) (zp880.Uint, error)
	NewUint                 func(uint64) zp880.Uint
	One                     func() zp880.Uint
}{zp880.MulBy3, zp880.MulBy5, zp880.MulBy13, zp880.Butterfly, zp880.BatchInvert, le880Put, le880Get, zp880.NewUint, zp880.One}
