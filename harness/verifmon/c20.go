package main

import (
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"math/big"
	"sort"

	"github.com/sp301415/ringo-snark/math/bigpoly"
	"github.com/tuneinsight/lattigo/v6/ring"
)

func init() { registry["C20"] = casesC20 }

func casesC20(cfg Cfg) []Case {
	var cs []Case
	ranks := []int{4, 2, 8, 1}
	for k := 0; k < cfg.pick(9, 40); k++ {
		f := bkFields[k%len(bkFields)]
		rank := ranks[(k+k/7)%len(ranks)]
		cs = append(cs, Case{Name: fmt.Sprintf("zk/%s/r%d/%d", f, rank, k), Run: func(t *T) { field(f).S.bkZK(t, rank, k) }})
	}
	for i, f := range []string{"zp220", "zp110"} {
		if i < cfg.pick(1, 2) {
			cs = append(cs, Case{Name: "zk/apx/" + f, Run: func(t *T) { field(f).S.bkZK(t, 2048, -1) }})
		}
	}
	for i, f := range bkFields {
		if i < cfg.pick(4, 99) || f == "zp880" {
			cs = append(cs, Case{Name: "zk/bits/" + f, Run: func(t *T) { field(f).S.bkBlindBits(t) }})
		}
	}
	return cs
}

// hashPoly identifies a polynomial by its residues.
func hashPoly(p ring.Poly, lvl int) [32]byte {
	h := sha256.New()
	var b [8]byte
	any := uint64(0)
	for l := 0; l <= lvl && l < len(p.Coeffs); l++ {
		for _, c := range p.Coeffs[l] {
			any |= c
			binary.LittleEndian.PutUint64(b[:], c)
			h.Write(b[:])
		}
	}
	if any == 0 {
		return [32]byte{}
	}
	var o [32]byte
	h.Sum(o[:0])
	return o
}

// spread tests whether values are spread evenly over the field: high digits and low digits.
func spread(xs []*big.Int, q *big.Int) error {
	n := len(xs)
	bins := 32
	for bins > 2 && n < 8*bins {
		bins /= 2
	}
	hi, lo := make([]int, bins), make([]int, bins)
	pr := make([]float64, bins)
	for i := range pr {
		pr[i] = 1 / float64(bins)
	}
	d := new(big.Int)
	for _, x := range xs {
		d.Mul(x, big.NewInt(int64(bins)))
		d.Div(d, q)
		hi[d.Int64()]++
		lo[int(x.Bit(0)+2*x.Bit(1)+4*x.Bit(2)+8*x.Bit(3)+16*x.Bit(4))%bins]++
	}
	for i, c := range [][]int{hi, lo} {
		if p, chi, df := chiTest(c, pr); p < alpha {
			return fmt.Errorf("%s digits: chi-square %.1f with %d degrees of freedom, p=%.2g (n=%d)", []string{"high", "low"}[i], chi, df, p, n)
		}
	}
	return nil
}

// bkZK makes many proofs of one statement under the same challenges and examines what they reveal.
func (s *suite[E]) bkZK(t *T, rank, k int) {
	b := s.builder(t.R, rank)
	one := big.NewInt(1)
	kind := 0
	if k >= 0 {
		kind = []int{15, 1, 2, 4, 6, 7, 8, 3}[k%8]
	} else {
		kind = 16
	}
	// the witness: zero, extreme or random
	wit := [][]*big.Int{}
	for i := 0; i < 3; i++ {
		v := make([]*big.Int, rank)
		for j := range v {
			switch i {
			case 0:
				v[j] = new(big.Int)
			case 1:
				v[j] = new(big.Int).Sub(s.q, one)
			default:
				v[j] = rndFull(t.R, s.q)
			}
		}
		wit = append(wit, v)
	}
	b.pub(b.vec(0))
	for i := range wit {
		b.sec(wit[i])
	}
	if kind&1 != 0 {
		b.arith([]term{{one, 0, []int{0}}, {one, -1, []int{1, 2}}}, false)
	}
	if kind&2 != 0 {
		c := b.randChk()
		b.lin(2, c)
		b.lin(0, c)
	}
	if kind&4 != 0 {
		if k%16 < 8 {
			b.sum([]term{{one, 0, []int{0}}, {one, 0, []int{2}}}) // as high a degree as linear constraints
		} else {
			b.sum([]term{{one, 0, []int{0}}, {one, -1, []int{2, 1}}})
		}
	}
	if kind&8 != 0 {
		b.norm("inf", big.NewInt(3))
		b.norm("two", big.NewInt(1))
	}
	if kind&16 != 0 {
		b.norm("apx", one)
	}
	crs := fmt.Sprint("zk", k)
	in, err := s.compile(b.sp, crs)
	if err != nil {
		t.Viol("compile", "%v", err)
		return
	}
	in2, err := s.compile(b.sp, crs)
	if err != nil {
		t.Viol("compile", "%v", err)
		return
	}
	what := s.name + " " + b.sp.detail()
	// the challenges of a first proof are imposed on all later ones
	_, names, ch, err := in.proveTraced(b.v)
	if err != nil {
		t.Viol("reject", "%s: prover error %v", what, err)
		return
	}
	if len(names) == 0 {
		t.N("transcript_not_observed", 1)
		return
	}
	zb := ch[names[len(names)-1]]
	z := new(big.Int).Mod(new(big.Int).SetBytes(zb), s.q)
	van := new(big.Int).Exp(z, big.NewInt(int64(rank)), s.q)
	van.Sub(van, one)
	vinv := new(big.Int).ModInverse(van, s.q)
	if vinv == nil {
		return
	}
	reps := t.cfg.pick(160, 1500)
	if k < 0 {
		reps = t.cfg.pick(5, 40)
	}
	lag := s.lagrange(min(rank, 64), z)
	series := map[string][]*big.Int{}
	push := func(n string, x *big.Int) { series[n] = append(series[n], new(big.Int).Mod(x, s.q)) }
	polys := map[[32]byte]string{}
	seenPoly := func(p ring.Poly, lvl int, name string) {
		h := hashPoly(p, lvl)
		if h == [32]byte{} && name[:8] == "encoding" {
			return // rows behind the data, which are empty by design
		}
		if o, ok := polys[h]; ok {
			t.Viol("repeat", "%s: %s equals %s", what, name, o)
		}
		polys[h] = name
		t.N("components_compared", 1)
	}
	pr := in.prv.JindoParams
	hooked := false
	maskTop, maskSeen := map[string]int{}, map[string]string{}
	for a := 0; a < reps; a++ {
		p := in
		if a%3 == 2 {
			p = in2
		}
		startInstr()
		fsForced = ch
		setHooks(func(stage string, args ...any) {
			if mk := stage + "Mask"; stage == "lin" || stage == "sum" {
				// The committed quotient is masked up to its degree.
				quo, ok := args[0].(*[]E)
				top, ok2 := maskTop[mk]
				if !ok || !ok2 {
					return
				}
				for i := len(*quo) - 1; i >= 0; i-- {
					if bi((*quo)[i]).Sign() != 0 {
						if i+rank > top {
							t.Viol("unmasked", "%s: the %s quotient has degree %d, its mask only %d", what, stage, i, top-rank)
						}
						t.N("masked_degrees_compared", 1)
						break
					}
				}
				return
			}
			if stage != "linMask" && stage != "sumMask" {
				return
			}
			m, ok := args[0].(*bigpoly.Poly[E])
			if !ok {
				return
			}
			hooked = true
			// Every coefficient of a mask up to its degree is drawn afresh.
			top := 0
			for i := range m.Coeffs {
				if bi(m.Coeffs[i]).Sign() != 0 {
					top = i
				}
			}
			maskTop[stage] = top
			for i := 0; i <= top; i++ {
				x := new(big.Int).Mod(bi(m.Coeffs[i]), s.q).String()
				if o, ok := maskSeen[x]; ok || (x == "0" && rank > 1) {
					t.Viol("repeated-value", "%s: coefficient %d of %s of proof %d is %s, seen in %s before", what, i, stage, a, x, o)
				}
				maskSeen[x] = fmt.Sprintf("coefficient %d of %s of proof %d", i, stage, a)
				t.N("mask_coefficients", 1)
			}
			// mask = quotient * (X^rank - 1) + remainder
			c := biv(m.Coeffs)
			quo := make([]*big.Int, len(c))
			for i := len(c) - 1; i >= rank; i-- {
				c[i].Mod(c[i], s.q)
				quo[i-rank] = new(big.Int).Set(c[i])
				c[i-rank].Add(c[i-rank], c[i])
			}
			n := max(0, len(c)-rank)
			rem := c[1:min(rank, len(c))]
			push(stage+" quotient value", hornerBig(quo[:n], z, s.q))
			push(stage+" mean", c[0])
			if rank > 1 {
				push(stage+" remainder value", hornerBig(rem, z, s.q))
			}
		}, nil)
		pf, err := p.prove(b.v)
		setHooks(nil, nil)
		ok := err == nil
		if ok && a < 3 {
			ok = p.verify(b.v, pf)
		}
		resetInstr()
		if !ok {
			t.Viol("reject", "%s: proof under repeated challenges rejected (%v)", what, err)
			return
		}
		t.Eval(fmt.Sprint(what, a))
		t.N("proofs_examined", 1)
		for i, e := range pf.Evals {
			push(fmt.Sprintf("evaluation %d", i), bi(e))
		}
		if rank <= 64 {
			// the blinding value of every witness, from its known content
			for i := range b.v.sec {
				x := bi(pf.Evals[i])
				for j := range lag {
					x.Sub(x, new(big.Int).Mul(lag[j], b.v.sec[i][j]))
				}
				x.Mul(x, vinv)
				push(fmt.Sprintf("blinding value %d", i), x)
			}
		}
		if !isNil(pf.LinCheckMaskSum) {
			push("linear mask sum", bi(pf.LinCheckMaskSum))
		}
		if !isNil(pf.SumCheckMaskSum) {
			push("sum mask sum", bi(pf.SumCheckMaskSum))
		}
		for i := range pf.Witness {
			for c := range pf.Witness[i].Value {
				seenPoly(pf.Witness[i].Value[c], pr.RingQOut().Level(), fmt.Sprintf("component %d of commitment %d in proof %d", c, i, a))
			}
		}
		ep := pf.EvalProof
		for n, l := range map[string][]ring.Poly{"inner commitment": ep.InCommit, "partial evaluation": ep.Partial, "partial mask": {ep.PartialMask}, "encoding response": ep.Encode, "randomness response": ep.MLWE} {
			lvl := pr.RingQ().Level()
			if n == "inner commitment" {
				lvl = pr.RingQOut().Level()
			}
			for i := range l {
				seenPoly(l[i], lvl, fmt.Sprintf("%s %d in proof %d", n, i, a))
			}
		}
	}
	if hooked {
		t.N("masks_observed", 1)
	}
	// remainders of rank one are empty
	fixed := map[string]bool{}
	for n, xs := range series {
		fixed[n] = rank == 1
		for _, x := range xs {
			fixed[n] = fixed[n] && x.Sign() == 0
		}
	}
	var ns []string
	for n := range series {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	for _, n := range ns {
		xs := series[n]
		if fixed[n] {
			t.N("determined_values", 1)
			continue
		}
		t.N("series_tested", 1)
		t.N("values_tested", len(xs))
		seen := map[string]int{}
		dif := map[string]int{}
		for i, x := range xs {
			if j, ok := seen[x.String()]; ok {
				t.Viol("repeated-value", "%s: %s is the same in proofs %d and %d", what, n, j, i)
				break
			}
			seen[x.String()] = i
			if neg := new(big.Int).Sub(s.q, x).String(); x.Sign() != 0 {
				if j, ok := seen[neg]; ok && j != i {
					t.Viol("repeated-value", "%s: %s of proof %d is the negation of that of proof %d", what, n, j, i)
					break
				}
			}
			if i > 0 {
				d := new(big.Int).Sub(x, xs[i-1])
				key := d.Mod(d, s.q).String()
				if j, ok := dif[key]; ok {
					t.Viol("related-values", "%s: %s grows equally in proofs %d and %d", what, n, j, i)
					break
				}
				dif[key] = i
			}
		}
		if err := spread(xs, s.q); err != nil {
			t.Viol("not-uniform", "%s: %s: %v", what, n, err)
		}
	}
	// different revealed values are unrelated
	for i, a := range ns {
		for _, c := range ns[:i] {
			if fixed[a] || fixed[c] || len(series[a]) != len(series[c]) {
				continue
			}
			if dependent(a, c) {
				continue
			}
			t.N("pairs_tested", 1)
			for _, op := range []string{"difference", "sum", "quotient"} {
				seen := map[string]int{}
				for j := range series[a] {
					x := new(big.Int)
					switch op {
					case "difference":
						x.Sub(series[a][j], series[c][j])
					case "sum":
						x.Add(series[a][j], series[c][j])
					default:
						if series[c][j].Sign() == 0 {
							continue
						}
						x.Mul(series[a][j], new(big.Int).ModInverse(series[c][j], s.q))
					}
					key := x.Mod(x, s.q).String()
					if o, ok := seen[key]; ok {
						t.Viol("related-values", "%s: the %s of %s and %s is the same in proofs %d and %d", what, op, a, c, o, j)
						break
					}
					seen[key] = j
				}
			}
		}
	}
	t.Sample("%s: %d proofs under the same challenges, %d series of %d values uniform and unrelated", b.sp, reps, t.ctr["series_tested"], reps)
}

// dependent tells which pairs of values are related by definition.
func dependent(a, b string) bool {
	isEval := func(x string) bool { return len(x) > 10 && x[:10] == "evaluation" }
	// evaluations are related to blinding values, masks and remainders by the equations of the protocol
	if isEval(a) != isEval(b) {
		return true
	}
	if isEval(a) {
		return true // judged through the blinding values and the parts of the masks
	}
	// the mean of a mask is its sum
	if (a[len(a)-4:] == "mean") != (b[len(b)-4:] == "mean") {
		m, o := a, b
		if b[len(b)-4:] == "mean" {
			m, o = b, a
		}
		return m == "linMask mean" && o == "linear mask sum" || m == "sumMask mean" && o == "sum mask sum"
	}
	return false
}

// bkBlindBits examines every bit of the blinding values and masks of honest proofs.
func (s *suite[E]) bkBlindBits(t *T) {
	one := big.NewInt(1)
	var blind, mask []*big.Int
	judge := func(what string, xs []*big.Int) {
		t.N("values_examined_bitwise", len(xs))
		if err := uniformMod(xs, s.q, newE[E]().Limb()); err != nil {
			t.Viol("blinding-bits", "%s: %s (n=%d): %v", s.name, what, len(xs), err)
		}
	}
	// blinding values of witnesses, recovered from their evaluations
	b := s.builder(t.R, 4)
	for i := 0; i < 20; i++ {
		b.sec(b.vec(i % 3))
	}
	b.arith([]term{{one, -1, []int{0}}}, true)
	in, err := s.compile(b.sp, "bits")
	if err != nil {
		t.Viol("compile", "%v", err)
		return
	}
	for a := 0; a < t.cfg.pick(60, 300); a++ {
		pf, names, ch, err := in.proveTraced(b.v)
		if err != nil || len(names) == 0 {
			break
		}
		z := new(big.Int).Mod(new(big.Int).SetBytes(ch[names[len(names)-1]]), s.q)
		van := new(big.Int).Exp(z, big.NewInt(4), s.q)
		vinv := van.ModInverse(van.Sub(van, one), s.q)
		if vinv == nil {
			continue
		}
		lag := s.lagrange(4, z)
		for i := range b.v.sec {
			x := bi(pf.Evals[i])
			for j := range lag {
				x.Sub(x, new(big.Int).Mul(lag[j], b.v.sec[i][j]))
			}
			x.Mul(x, vinv)
			blind = append(blind, x.Mod(x, s.q))
		}
		t.Eval(fmt.Sprint("bits", a))
	}
	if len(blind) > 500 {
		judge("blinding values of witnesses", blind)
	}
	// masks: what lies above the rank is drawn directly
	rank := 256
	b = s.builder(t.R, rank)
	b.sec(b.vec(2))
	b.sec(b.vec(2))
	b.lin(0, b.randChk())
	b.sum([]term{{one, -1, []int{0, 1}}})
	if in, err = s.compile(b.sp, "bits"); err != nil {
		t.Viol("compile", "%v", err)
		return
	}
	defer setHooks(nil, nil)
	setHooks(func(stage string, args ...any) {
		if stage != "linMask" && stage != "sumMask" {
			return
		}
		m, ok := args[0].(*bigpoly.Poly[E])
		if !ok {
			return
		}
		xs := biv(m.Coeffs)
		for i := rank; i < len(xs); i++ {
			x := xs[i].Mod(xs[i], s.q)
			if x.Sign() != 0 {
				mask = append(mask, x)
			}
		}
	}, nil)
	for a := 0; a < t.cfg.pick(3, 20); a++ {
		if _, err := in.prove(b.v); err != nil {
			t.Viol("reject", "%s: %v", s.name, err)
			return
		}
	}
	if len(mask) > 500 {
		judge("mask coefficients", mask)
	}
}
