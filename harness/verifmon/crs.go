package main

import (
	"bytes"
	"fmt"
	"math/rand"
)

// crsBase is a reference string of one of several shapes: lengths around the block sizes of hash functions,
// embedded and final zero bytes, text and binary, none at all.
func crsBase(r *rand.Rand, k int) []byte {
	l := []int{210, 5, 32, 0, 136, 16, 64, 1, 31, 168, 33, 300, 8, 135}[k%14]
	c := make([]byte, l)
	r.Read(c)
	switch {
	case k%4 == 1:
		for i := range c {
			c[i] = "reference String 0"[i%18]
		}
	case k%4 == 2 && l > 0:
		c[l/2], c[l-1] = 0, 0
	}
	return c
}

// crsVariants are other reference strings, close to the given one.
func crsVariants(r *rand.Rand, c []byte) [][]byte {
	cat := func(a ...[]byte) []byte { return bytes.Join(a, nil) }
	z := func(n int) []byte { return make([]byte, n) }
	o := [][]byte{cat(c, z(1)), cat(z(1), c), cat(c, []byte{1}), cat(c, []byte{0x80}), cat(c, []byte(" ")), cat(c, []byte("\n")), {}, z(1), cat(c, c), bytes.ToUpper(c), bytes.ToLower(c), bytes.TrimSpace(c), bytes.TrimRight(c, "\x00")}
	for _, n := range []int{8, 16, 32, 64, 128, 136, 168} {
		p := cat(c, z((n-len(c)%n)%n))
		o = append(o, p, cat(p, z(n)))
	}
	if len(c) > 0 {
		flip := func(i int) []byte {
			d := cat(c)
			d[i] ^= 1 << r.Intn(8)
			return d
		}
		o = append(o, c[:len(c)-1], c[1:], c[:len(c)/2], c[len(c)/2:], flip(0), flip(len(c)-1), flip(r.Intn(len(c))), []byte(fmt.Sprintf("%x", c)))
		rev := cat(c)
		for i := range rev {
			rev[i] = c[len(c)-1-i]
		}
		o = append(o, rev)
	}
	seen := map[string]bool{string(c): true}
	var u [][]byte
	for _, d := range o {
		if !seen[string(d)] {
			seen[string(d)] = true
			u = append(u, d)
		}
	}
	return u
}
