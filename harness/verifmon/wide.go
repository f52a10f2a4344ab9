package main

import (
	"bytes"
	"fmt"
	"math/big"

	"github.com/sp301415/ringo-snark/buckler"
)

// wideCases are circuits with many vectors, or long ones: every single public vector and message is altered.
func wideCases(cfg Cfg, kind string) []Case {
	var cs []Case
	add := func(f, shape string, rank, n int) {
		cs = append(cs, Case{Name: fmt.Sprintf("wide/%s/%s/%s/r%d/n%d", kind, shape, f, rank, n), Run: func(t *T) { field(f).S.bkWide(t, kind, shape, rank, n) }})
	}
	add("zp110", "many", 2, 40)
	add("zp110", "long", 2048, 8)
	if kind != "bind" {
		add("zp220", "long", 512, 3)
	} else {
		add("zp220", "many", 1, 70)
	}
	if cfg.Thorough {
		add("zp110", "many", 1, 140)
		add("zp440", "many", 4, 66)
		add("zp880", "long", 1024, 12)
		add("zp110", "long", 8192, 20)
		add("zp110", "many", 2, 260)
	}
	return cs
}

func (s *suite[E]) bkWide(t *T, kind, shape string, rank, n int) {
	r, q := t.R, s.q
	b := s.builder(r, rank)
	one := big.NewInt(1)
	for i := 0; i < n; i++ {
		b.pub(b.vec(0))
		if shape == "many" && kind != "bind" || i < 2 {
			b.sec(b.vec(0))
		}
	}
	if shape == "many" && kind != "bind" {
		b.norm("inf", big.NewInt(9)) // vectors made by the compiler
	}
	b.arith([]term{{one, 0, []int{0}}, {one, n - 1, []int{1}}}, false)
	b.lin(0, b.chk("id"))
	if shape == "long" || kind != "bind" {
		b.sum([]term{{one, n / 2, []int{1}}})
	}
	in, err := s.compile(b.sp, fmt.Sprint("wide", n))
	if err != nil {
		t.Viol("compile", "%v", err)
		return
	}
	what := fmt.Sprintf("%s rank %d with %d public and %d secret vectors", s.name, rank, b.sp.nPub, b.sp.nSec)
	pf, names, ref, err := in.proveTraced(b.v)
	if err != nil || !in.verify(b.v, pf) {
		t.Viol("reject", "%s: honest proof rejected (%v)", what, err)
		return
	}
	// judge checks the decision and, under C17, the challenges from the given one on.
	judge := func(how string, v vals, p *buckler.Proof[E], from int) {
		t.Eval(what + "/" + how)
		t.N("single_changes", 1)
		startInstr()
		ok := false
		pn := try(func() { ok = in.verify(v, p) })
		_, ch := challenges()
		resetInstr()
		if pn != nil {
			t.Viol("panic", "%s: %s: %v", what, how, pn)
			return
		}
		if ok {
			t.Viol("accepted", "%s: accepted although changed: %s", what, how)
		}
		if kind == "chal" && len(names) == 6 {
			for _, m := range names[from:] {
				if len(ch[m]) == 0 {
					t.N("transcript_not_observed", 1)
				} else if bytes.Equal(ch[m], ref[m]) {
					t.Viol("insensitive", "%s: %s does not depend on: %s", what, m, how)
				} else {
					t.N("challenges_compared", 1)
				}
			}
		}
	}
	if kind != "tamper" {
		for i := range b.v.pub {
			for _, j := range uniq(0, rank-1, r.Intn(rank), r.Intn(rank)) {
				v := b.v.clone()
				v.pub[i][j].Mod(v.pub[i][j].Add(v.pub[i][j], []*big.Int{one, rndFull(r, q), new(big.Int).Lsh(one, uint(q.BitLen()-2))}[r.Intn(3)]), q)
				if v.pub[i][j].Cmp(b.v.pub[i][j]) != 0 {
					judge(fmt.Sprintf("public vector %d entry %d", i, j), v, pf, 0)
				}
			}
			if i > 0 {
				v := b.v.clone()
				v.pub[i], v.pub[i-1] = v.pub[i-1], v.pub[i]
				judge(fmt.Sprintf("public vectors %d and %d exchanged", i-1, i), v, pf, 0)
			}
		}
	}
	if kind == "bind" {
		t.Sample("%s: %d changes rejected", what, t.ctr["single_changes"])
		return
	}
	pf2, _, _, err := in.proveTraced(b.v)
	if err != nil {
		t.Viol("reject", "%s: %v", what, err)
		return
	}
	quo := in.prv.JindoParams.Batch() // commitments from here on follow the batching challenges
	if len(b.sp.arith) > 0 {
		quo--
	}
	if len(b.sp.lins) > 0 {
		quo -= 3
	}
	if len(b.sp.sums) > 0 {
		quo -= 3
	}
	for i := range pf.Witness {
		from := 1
		if i >= quo {
			from = 5
		}
		p := cpBProof(pf)
		p.Witness[i] = pf2.Witness[i]
		judge(fmt.Sprintf("commitment %d of another proof", i), b.v, p, from)
		if i > 0 {
			p := cpBProof(pf)
			p.Witness[i], p.Witness[i-1] = p.Witness[i-1], p.Witness[i]
			judge(fmt.Sprintf("commitments %d and %d exchanged", i-1, i), b.v, p, from)
		}
		if kind == "tamper" && i < len(pf.Evals) {
			p := cpBProof(pf)
			p.Evals[i].Add(p.Evals[i], fi[E](1))
			judge(fmt.Sprintf("evaluation %d", i), b.v, p, 6)
			if i > 0 {
				p := cpBProof(pf)
				p.Evals[i], p.Evals[i-1] = p.Evals[i-1], p.Evals[i]
				judge(fmt.Sprintf("evaluations %d and %d exchanged", i-1, i), b.v, p, 6)
			}
			p = cpBProof(pf)
			p.Evals[i], p.Witness[i] = pf2.Evals[i], pf2.Witness[i]
			judge(fmt.Sprintf("commitment and evaluation %d of another proof", i), b.v, p, 6)
		}
	}
	t.Sample("%s: %d changes rejected", what, t.ctr["single_changes"])
}
