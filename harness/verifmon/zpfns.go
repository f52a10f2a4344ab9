package main

import (
	bfvzp "github.com/sp301415/ringo-snark/examples/bfv/zp"
	multzp "github.com/sp301415/ringo-snark/examples/mult/zp"
)

func le128Put(e multzp.Uint) []byte {
	var b [multzp.Bytes]byte
	multzp.LittleEndian.PutElement(&b, e)
	return b[:]
}

func le128Get(p []byte) (multzp.Uint, error) {
	var b [multzp.Bytes]byte
	copy(b[:], p)
	return multzp.LittleEndian.Element(&b)
}

// F128 are the package-level operations.
var F128 = struct {
	MulBy3, MulBy5, MulBy13 func(*multzp.Uint)
	Butterfly               func(a, b *multzp.Uint)
	BatchInvert             func([]multzp.Uint) []multzp.Uint
	LEPut                   func(multzp.Uint) []byte
	LEGet                   func([]byte) (multzp.Uint, error)
	NewUint                 func(uint64) multzp.Uint
	One                     func() multzp.Uint
}{multzp.MulBy3, multzp.MulBy5, multzp.MulBy13, multzp.Butterfly, multzp.BatchInvert, le128Put, le128Get, multzp.NewUint, multzp.One}

func le240Put(e bfvzp.Uint) []byte {
	var b [bfvzp.Bytes]byte
	bfvzp.LittleEndian.PutElement(&b, e)
	return b[:]
}

func le240Get(p []byte) (bfvzp.Uint, error) {
	var b [bfvzp.Bytes]byte
	copy(b[:], p)
	return bfvzp.LittleEndian.Element(&b)
}

// F240 are the package-level operations.
var F240 = struct {
	MulBy3, MulBy5, MulBy13 func(*bfvzp.Uint)
	Butterfly               func(a, b *bfvzp.Uint)
	BatchInvert             func([]bfvzp.Uint) []bfvzp.Uint
	LEPut                   func(bfvzp.Uint) []byte
	LEGet                   func([]byte) (bfvzp.Uint, error)
	NewUint                 func(uint64) bfvzp.Uint
	One                     func() bfvzp.Uint
}{bfvzp.MulBy3, bfvzp.MulBy5, bfvzp.MulBy13, bfvzp.Butterfly, bfvzp.BatchInvert, le240Put, le240Get, bfvzp.NewUint, bfvzp.One}
