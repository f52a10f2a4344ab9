package main

import (
	"crypto/sha3"

	fiatshamir "github.com/consensys/gnark-crypto/fiat-shamir"
)

// xofEvent is a write to, read from, or reset of a SHAKE instance.
type xofEvent struct {
	op   string
	id   uintptr
	data []byte
}

// fsEvent is a binding or a computed challenge of a Fiat-Shamir transcript.
type fsEvent struct {
	op   string // "bind" or "chal"
	name string
	data []byte
}

var (
	xofLog   []xofEvent
	fsLog    []fsEvent
	xofOn    bool
	fsOn     bool
	fsForced map[string][]byte
)

func resetInstr() {
	xofLog, fsLog = nil, nil
	xofOn, fsOn = false, false
	fsForced = nil
	sha3.VerifTrace = nil
	fiatshamir.VerifTrace = nil
	setHooks(nil, nil)
}

func startInstr() {
	xofLog, fsLog = nil, nil
	xofOn, fsOn = true, true
	sha3.VerifTrace = func(op string, id uintptr, p []byte) {
		if xofOn {
			xofLog = append(xofLog, xofEvent{op, id, append([]byte(nil), p...)})
		}
	}
	fiatshamir.VerifTrace = func(op, name string, p []byte) []byte {
		if fsOn {
			fsLog = append(fsLog, fsEvent{op, name, append([]byte(nil), p...)})
		}
		if op == "chal" && fsForced != nil {
			if v, ok := fsForced[name]; ok {
				return append([]byte(nil), v...)
			}
		}
		return p
	}
}

// challenges returns the challenges computed so far, by name, in order.
func challenges() (names []string, vals map[string][]byte) {
	vals = map[string][]byte{}
	for _, e := range fsLog {
		if e.op == "chal" {
			if _, ok := vals[e.name]; !ok {
				names = append(names, e.name)
			}
			vals[e.name] = e.data
		}
	}
	return
}

// xofReads returns the bytes read from all SHAKE instances, in order.
func xofReads() []byte {
	var o []byte
	for _, e := range xofLog {
		if e.op == "read" {
			o = append(o, e.data...)
		}
	}
	return o
}
