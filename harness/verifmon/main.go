// Command verifmon runs one shard of the monitors of one property against the
// real code of the repository. It prints one JSON event per line.
package main

import (
	"bufio"
	"crypto/aes"
	"crypto/cipher"
	crand "crypto/rand"
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"
)

var (
	flagProp  = flag.String("prop", "", "property id")
	flagSeed  = flag.Int64("seed", 1, "seed")
	flagTier  = flag.String("tier", "quick", "quick or thorough")
	flagShard = flag.String("shard", "0/1", "shard i/n")
	flagCase  = flag.String("case", "", "run only this case")
	flagClaim = flag.String("claim", "", "directory in which shards claim cases")
	flagList  = flag.Bool("list", false, "list cases")
	flagBuild = flag.String("variant", "plain", "build variant this binary was made with")
)

// Cfg is the configuration of a run.
type Cfg struct {
	Seed     int64
	Thorough bool
	Variant  string
}

// pick returns q in the quick tier and t in the thorough tier.
func (c Cfg) pick(q, t int) int {
	if c.Thorough {
		return t
	}
	return q
}

// Case is one monitored workload.
type Case struct {
	Name string
	Run  func(t *T)
	// PanicOK is set when a panic of the code under test is an explicit refusal.
	PanicOK bool
}

// T is the context of one running case.
type T struct {
	Prop, Name string
	R          *rand.Rand
	ctr        map[string]int
	distinct   map[uint64]struct{}
	samples    []string
	nviol      int
	// only, when set, drops violations reported by a workload borrowed from another property.
	only string
	cfg  Cfg
}

var (
	outMu sync.Mutex
	out   = bufio.NewWriterSize(os.Stdout, 1<<16)
)

func emit(v map[string]any) {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	outMu.Lock()
	defer outMu.Unlock()
	out.Write(b)
	out.WriteByte('\n')
	out.Flush()
}

// Viol reports a violation of the property; key identifies the kind of failure.
func (t *T) Viol(key, format string, args ...any) {
	if t.only != "" {
		t.ctr["other_reports"]++
		return
	}
	t.nviol++
	if t.ctr["viol_"+key]++; t.ctr["viol_"+key] > 5 {
		return
	}
	msg := fmt.Sprintf(format, args...)
	if len(msg) > 2000 {
		msg = msg[:2000]
	}
	emit(map[string]any{"t": "viol", "case": t.Name, "key": key, "msg": msg})
}

// Eval counts one evaluation of the oracle; id describes it for the count of distinct cases.
func (t *T) Eval(id string) {
	t.ctr["evaluations"]++
	h := sha256.Sum256([]byte(id))
	t.distinct[binary.LittleEndian.Uint64(h[:8])] = struct{}{}
}

// N counts events observed by a monitor.
func (t *T) N(name string, n int) { t.ctr[name] += n }

// Sample records a case for the evidence file.
func (t *T) Sample(format string, args ...any) {
	if len(t.samples) < 2 {
		t.samples = append(t.samples, fmt.Sprintf(format, args...))
	}
}

// drbg is the deterministic replacement of crypto/rand.Reader.
type drbg struct {
	mu sync.Mutex
	s  cipher.Stream
}

func newDRBG(key string) *drbg {
	h := sha256.Sum256([]byte("verifmon/" + key))
	b, err := aes.NewCipher(h[:16])
	if err != nil {
		panic(err)
	}
	return &drbg{s: cipher.NewCTR(b, h[16:])}
}

func (d *drbg) Read(p []byte) (int, error) {
	d.mu.Lock()
	defer d.mu.Unlock()
	clear(p)
	d.s.XORKeyStream(p, p)
	return len(p), nil
}

func seedFor(parts ...any) int64 {
	h := sha256.Sum256([]byte(fmt.Sprint(parts...)))
	return int64(binary.LittleEndian.Uint64(h[:8]) >> 1)
}

// reseed makes the randomness of the program a function of key.
func reseed(key string) { crand.Reader = newDRBG(key) }

var registry = map[string]func(cfg Cfg) []Case{}

// mixIns lists workloads of other properties that are run under an instrumented build.
func runCase(cfg Cfg, prop string, c Case) {
	t := &T{Prop: prop, Name: c.Name, cfg: cfg, ctr: map[string]int{}, distinct: map[uint64]struct{}{}}
	t.R = rand.New(rand.NewSource(seedFor(cfg.Seed, prop, c.Name)))
	reseed(fmt.Sprint(cfg.Seed, "/", prop, "/", c.Name))
	resetInstr()
	emit(map[string]any{"t": "start", "case": c.Name})
	t0 := time.Now()
	func() {
		defer func() {
			if r := recover(); r != nil {
				if c.PanicOK {
					t.N("refused_by_panic", 1)
					return
				}
				t.Viol("panic", "panic: %v\n%s", r, trimStack(debug.Stack()))
			}
		}()
		c.Run(t)
	}()
	ds := make([]string, 0, len(t.distinct))
	for h := range t.distinct {
		var b [8]byte
		binary.LittleEndian.PutUint64(b[:], h)
		ds = append(ds, hex.EncodeToString(b[:6]))
	}
	sort.Strings(ds)
	emit(map[string]any{"t": "end", "case": c.Name, "ctr": t.ctr, "distinct": ds, "samples": t.samples, "viol": t.nviol, "s": time.Since(t0).Seconds()})
}

func trimStack(b []byte) string {
	var keep []string
	for _, l := range strings.Split(string(b), "\n") {
		if strings.Contains(l, "/repo/") {
			keep = append(keep, strings.TrimSpace(l))
		}
		if len(keep) >= 8 {
			break
		}
	}
	return strings.Join(keep, "\n")
}

// try runs f and returns the panic value, if any.
func try(f func()) (p any) {
	defer func() {
		if r := recover(); r != nil {
			p = r
		}
	}()
	f()
	return nil
}

func main() {
	flag.Parse()
	cfg := Cfg{Seed: *flagSeed, Thorough: *flagTier == "thorough", Variant: *flagBuild}
	mk, ok := registry[*flagProp]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown property", *flagProp)
		os.Exit(3)
	}
	cases := mk(cfg)
	if *flagList {
		for _, c := range cases {
			fmt.Println(c.Name)
		}
		return
	}
	var i, n int
	fmt.Sscanf(*flagShard, "%d/%d", &i, &n)
	ran := 0
	for k, c := range cases {
		if *flagCase != "" {
			if c.Name != *flagCase {
				continue
			}
		} else if *flagClaim != "" {
			f, err := os.OpenFile(fmt.Sprint(*flagClaim, "/", k), os.O_CREATE|os.O_EXCL, 0o600)
			if err != nil {
				continue
			}
			f.Close()
		} else if k%n != i {
			continue
		}
		ran++
		runCase(cfg, *flagProp, c)
	}
	if *flagCase != "" && ran == 0 {
		fmt.Fprintln(os.Stderr, "no such case")
		os.Exit(3)
	}
	emit(map[string]any{"t": "done", "ran": ran, "total": len(cases)})
	out.Flush()
}

func bigN(x int64) *big.Int { return big.NewInt(x) }
