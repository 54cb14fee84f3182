// Package verifkit is a small property-based testing engine.
//
// A case is a function of a *G.  Every random choice goes through G, which
// records the (bounded) choices on a tape.  A case is therefore a pure function
// of its tape: failures are shrunk by editing the tape and are replayed from it.
package verifkit

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"testing"
	"time"
)

// ---------------------------------------------------------------- generator

type draw struct{ v, n uint64 } // n==0: full 64-bit range

type failure struct{ msg string }
type discard struct{}

// G is the source of choices of one case.
type G struct {
	s        uint64 // splitmix state (fresh cases)
	replay   []uint64
	isReplay bool
	tape     []draw
	desc     strings.Builder
	nontriv  bool
	classes  map[string]int
	quiet    bool
}

func mix(z uint64) uint64 {
	z += 0x9e3779b97f4a7c15
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (g *G) next() uint64 {
	g.s += 0x9e3779b97f4a7c15
	z := g.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Un draws uniformly from [0,n); n==0 draws 64 bits.
func (g *G) Un(n uint64) uint64 {
	var v uint64
	if g.isReplay {
		if len(g.tape) < len(g.replay) {
			v = g.replay[len(g.tape)]
		}
	} else {
		v = g.next()
	}
	if n != 0 {
		v %= n
	}
	g.tape = append(g.tape, draw{v, n})
	return v
}

// Int draws uniformly from [lo,hi].
func (g *G) Int(lo, hi int) int {
	if hi < lo {
		panic(fmt.Sprintf("verifkit: empty range %d..%d", lo, hi))
	}
	return lo + int(g.Un(uint64(hi-lo)+1))
}

// Bool draws a fair bit; false is the simplest.
func (g *G) Bool() bool { return g.Un(2) == 1 }

// Chance is true with probability num/den.
func (g *G) Chance(num, den int) bool { return g.Un(uint64(den)) >= uint64(den-num) }

// Bits draws an n-bit value, biased to small, all-ones and sparse patterns.
func (g *G) Bits(n int) uint64 {
	if n == 0 {
		return 0
	}
	mask := ^uint64(0)
	if n < 64 {
		mask = 1<<uint(n) - 1
	}
	switch g.Un(8) {
	case 0:
		return g.Un(4) & mask
	case 1:
		return (mask - g.Un(4)) & mask
	case 2:
		return (uint64(1) << g.Un(uint64(n))) & mask
	case 3:
		return g.Un(0) & mask & (uint64(1)<<g.Un(uint64(n)) - 1)
	}
	return g.Un(0) & mask
}

// Sized draws from [lo,hi] with bias to both ends.
func (g *G) Sized(lo, hi int) int {
	switch g.Un(8) {
	case 0:
		return lo
	case 1:
		return hi
	case 2:
		if hi-lo > 4 {
			return lo + int(g.Un(4))
		}
	case 3:
		if hi-lo > 4 {
			return hi - int(g.Un(4))
		}
	}
	return g.Int(lo, hi)
}

// Pick draws one of the given ints.
func (g *G) Pick(xs ...int) int { return xs[g.Un(uint64(len(xs)))] }

// Bytes draws n bytes.
func (g *G) Bytes(n int) []byte {
	out := make([]byte, n)
	for i := 0; i < n; i += 7 {
		v := g.Un(1 << 56)
		for j := i; j < n && j < i+7; j++ {
			out[j] = byte(v)
			v >>= 8
		}
	}
	return out
}

// Descf appends to the human-readable description of the case.
func (g *G) Descf(f string, a ...interface{}) {
	if g.desc.Len() < 4000 {
		fmt.Fprintf(&g.desc, f, a...)
		g.desc.WriteByte(' ')
	}
}

// NonTrivial marks the case as non-trivial by the rule of the check.
func (g *G) NonTrivial() { g.nontriv = true }

// Class counts the case under a label.
func (g *G) Class(name string) {
	if g.classes == nil {
		g.classes = map[string]int{}
	}
	g.classes[name] = 1
}

// Discard abandons the case (counted).
func (g *G) Discard() { panic(discard{}) }

// Failf reports that the property does not hold.
func (g *G) Failf(f string, a ...interface{}) { panic(failure{fmt.Sprintf(f, a...)}) }

// Eq fails unless got == want (compared by their printed values).
func (g *G) Eq(what string, got, want interface{}) {
	a, b := fmt.Sprint(got), fmt.Sprint(want)
	if a != b {
		if len(a) > 600 {
			a = a[:600] + "..."
		}
		if len(b) > 600 {
			b = b[:600] + "..."
		}
		g.Failf("%s: got %s, want %s", what, a, b)
	}
}

// EqInt fails unless got == want.
func (g *G) EqInt(what string, got, want int) {
	if got != want {
		g.Failf("%s: got %d, want %d", what, got, want)
	}
}

// EqInts fails unless the slices agree.
func (g *G) EqInts(what string, got, want []int) {
	if len(got) != len(want) {
		g.Failf("%s: got length %d, want %d", what, len(got), len(want))
	}
	for i := range got {
		if got[i] != want[i] {
			g.Failf("%s[%d]: got %d, want %d", what, i, got[i], want[i])
		}
	}
}

// Guard runs code under test: a panic there is a failure of the property.
func (g *G) Guard(what string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case failure, discard:
				panic(r)
			}
			st := string(debug.Stack())
			panic(failure{fmt.Sprintf("%s: panic: %v at %s", what, r, where(st))})
		}
	}()
	f()
}

// Panics reports whether f panics (used for inputs that must be rejected).
func (g *G) Panics(f func()) (p bool) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case failure, discard:
				panic(r)
			}
			p = true
		}
	}()
	f()
	return false
}

func where(st string) string {
	i := strings.Index(st, "panic(")
	if i < 0 {
		i = 0
	}
	var out []string
	for _, l := range strings.Split(st[i:], "\n") {
		l = strings.TrimSpace(l)
		if strings.Contains(l, ".go:") && !strings.Contains(l, "/runtime/") && !strings.Contains(l, "verifkit") {
			if j := strings.Index(l, " +0x"); j > 0 {
				l = l[:j]
			}
			out = append(out, l)
			if len(out) == 3 {
				break
			}
		}
	}
	return strings.Join(out, " < ")
}

// ---------------------------------------------------------------- running

// Sub is one generated sub-check of a property.
type Sub struct {
	Name     string
	Quick    int // cases in the quick tier
	Thorough int // cases in the thorough tier (default 20x quick)
	Case     func(g *G)
}

// Known is a genuine defect that is recorded, not repaired: Probe returns true
// while the code still fails on the specific input.
type Known struct {
	Key   string
	Probe func(g *G) bool
}

// Check is the executable form of one property.
type Check struct {
	ID      string
	Rule    string
	Assume  []string
	Subs    []Sub
	Known   []Known
	Exhaust []string // names of finite spaces enumerated completely
}

type replayFile struct {
	Property string   `json:"property"`
	Sub      string   `json:"sub"`
	Seed     int64    `json:"seed"`
	Index    int      `json:"index"`
	Tape     []uint64 `json:"tape"`
	Case     string   `json:"case"`
	Failure  string   `json:"failure"`
	How      string   `json:"how_to_replay"`
}

type outcome struct {
	fail    string
	discard bool
	g       *G
}

var curStart int64 // CPU ns at the start of the current case, 0 when idle
var curG atomic.Value
var curSub atomic.Value
var curIdx int64

func cpuNs() int64 {
	var ru syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &ru) != nil {
		return 0
	}
	return ru.Utime.Nano() + ru.Stime.Nano()
}

func runCase(s *Sub, g *G) (o outcome) {
	o.g = g
	atomic.StoreInt64(&curStart, 1)
	curG.Store(g)
	defer func() {
		atomic.StoreInt64(&curStart, 0)
		if r := recover(); r != nil {
			switch x := r.(type) {
			case failure:
				o.fail = x.msg
				if o.fail == "" {
					o.fail = "failed"
				}
			case discard:
				o.discard = true
			default:
				st := string(debug.Stack())
				if _, ok := r.(runtime.Error); ok || ours(st) {
					o.fail = fmt.Sprintf("unexpected panic: %v\n%s", r, st)
					return
				}
				panic(fmt.Sprintf("harness error in %s: %v\n%s", s.Name, r, st))
			}
		}
	}()
	s.Case(g)
	return
}

// ours tells whether a panic came out of the code under test.
func ours(stack string) bool {
	l := strings.Split(stack, "\n")
	from := 0
	for i := range l {
		if strings.HasPrefix(l[i], "panic(") {
			from = i
		}
	}
	for _, x := range l[from:] {
		const mod = "github.com/m4tthewde/gov1/internal/"
		if strings.HasPrefix(x, mod) {
			return !strings.HasPrefix(x, mod+"verif") && !strings.HasPrefix(x, mod+"vpc")
		}
	}
	return false
}

func replayG(tape []uint64) *G { return &G{replay: tape, isReplay: true} }

func values(t []draw) []uint64 {
	out := make([]uint64, len(t))
	for i := range t {
		out[i] = t[i].v
	}
	return out
}

func shrink(s *Sub, tape []uint64, o outcome, budget int) ([]uint64, outcome) {
	deadline := time.Now().Add(60 * time.Second)
	try := func(c []uint64) bool {
		if budget <= 0 || time.Now().After(deadline) {
			return false
		}
		budget--
		r := runCase(s, replayG(c))
		if r.fail == "" {
			return false
		}
		t := values(r.g.tape)
		if len(t) > len(c) {
			return false
		}
		tape, o = t, r
		return true
	}
	for changed := true; changed && budget > 0; {
		changed = false
		for size := len(tape) / 2; size >= 1; size /= 2 {
			for i := 0; i+size <= len(tape); {
				c := append(append([]uint64{}, tape[:i]...), tape[i+size:]...)
				if try(c) {
					changed = true
				} else {
					i += size
				}
			}
		}
		for size := len(tape); size >= 1; size /= 2 {
			for i := 0; i+size <= len(tape); i += size {
				z := true
				for _, v := range tape[i : i+size] {
					z = z && v == 0
				}
				if z {
					continue
				}
				c := append([]uint64{}, tape...)
				for j := i; j < i+size; j++ {
					c[j] = 0
				}
				if try(c) {
					changed = true
				}
			}
		}
		for i := 0; i < len(tape); i++ {
			for i < len(tape) && tape[i] > 0 {
				// smallest value by binary descent
				c := append([]uint64{}, tape...)
				c[i] = tape[i] / 2
				if try(c) {
					changed = true
					continue
				}
				c = append([]uint64{}, tape...)
				c[i]--
				if try(c) {
					changed = true
					continue
				}
				break
			}
		}
	}
	return tape, o
}

func envInt(k string, d int) int {
	if v, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return v
	}
	return d
}

func hash(parts ...interface{}) uint64 {
	h := fnv.New64a()
	for _, p := range parts {
		fmt.Fprint(h, p, "|")
	}
	return mix(h.Sum64())
}

// Run executes the check, writes its evidence, and reports through the files
// named in the environment (see /verif/check).
func Run(t *testing.T, c Check) {
	debug.SetMaxStack(256 << 20)
	start := time.Now()
	outDir := os.Getenv("VERIF_OUT")
	if outDir == "" {
		outDir = t.TempDir()
	}
	seed := int64(envInt("VERIF_SEED", 1))
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	shard, shards := envInt("VERIF_SHARD", 0), envInt("VERIF_SHARDS", 1)
	scale := envInt("VERIF_SCALE_PCT", 100)
	only := os.Getenv("VERIF_SUB")

	report := func(s, fail string, tape []uint64, idx int, desc string) {
		rf := replayFile{Property: c.ID, Sub: s, Seed: seed, Index: idx, Tape: tape, Case: desc, Failure: fail,
			How: "cd /verif && ./check " + c.ID + " --replay <this file>"}
		if len(rf.Tape) == 0 {
			rf.Tape = []uint64{}
		}
		b, _ := json.MarshalIndent(rf, "", " ")
		name := fmt.Sprintf("replay-%s-%s-%d.json", c.ID, s, idx)
		os.WriteFile(filepath.Join(outDir, name), b, 0o644)
		os.WriteFile(filepath.Join(outDir, fmt.Sprintf("violation.%d", shard)), []byte(name+"\n"+fail+"\n"+desc+"\n"), 0o644)
		fmt.Printf("FAIL %s/%s case %d: %s\n  case: %s\n", c.ID, s, idx, fail, desc)
	}

	// Watchdog: a case that burns a minute of CPU, or whose heap explodes, does not terminate.
	go func() {
		var seen *G
		var since int64
		for {
			time.Sleep(200 * time.Millisecond)
			if atomic.LoadInt64(&curStart) == 0 {
				seen = nil
				continue
			}
			g, _ := curG.Load().(*G)
			now := cpuNs()
			if g != seen {
				seen, since = g, now
				continue
			}
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			why := ""
			if now-since > 60e9 {
				why = "does not terminate: one case used more than 60 s of CPU"
			} else if ms.HeapAlloc > 3<<30 {
				why = "unbounded memory: one case grew the heap beyond 3 GB"
			}
			if why != "" {
				s, _ := curSub.Load().(string)
				buf := make([]byte, 1<<16)
				buf = buf[:runtime.Stack(buf, true)]
				report(s, why, values(g.tape), int(atomic.LoadInt64(&curIdx)), g.desc.String())
				fmt.Printf("%s\n", buf)
				os.Exit(1)
			}
		}
	}()

	if rp := os.Getenv("VERIF_REPLAY"); rp != "" {
		b, err := os.ReadFile(rp)
		if err != nil {
			t.Fatal(err)
		}
		var rf replayFile
		if err := json.Unmarshal(b, &rf); err != nil {
			t.Fatal(err)
		}
		for i := range c.Subs {
			if c.Subs[i].Name == rf.Sub {
				curSub.Store(rf.Sub)
				g := replayG(rf.Tape)
				if rf.Tape == nil || rf.Index >= 0 && len(rf.Tape) == 0 {
					g = &G{s: hash(rf.Seed, c.ID, rf.Sub, rf.Index)}
				}
				o := runCase(&c.Subs[i], g)
				if o.fail != "" {
					report(rf.Sub, o.fail, rf.Tape, rf.Index, o.g.desc.String())
				} else {
					fmt.Println("replay: the case passes")
				}
				return
			}
		}
		t.Fatalf("unknown sub-check %q", rf.Sub)
	}

	prog, _ := os.Create(filepath.Join(outDir, fmt.Sprintf("progress.%d", shard)))
	evals, discards := 0, 0
	distinct := map[uint64]bool{}
	classes := map[string]int{}
	perSub := map[string]int{}
	var samples []string
	failed := false

	if shard == 0 {
		for _, k := range c.Known {
			g := &G{s: hash(seed, c.ID, k.Key)}
			if k.Probe(g) {
				f, _ := os.OpenFile(filepath.Join(outDir, "known"), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
				fmt.Fprintln(f, k.Key)
				f.Close()
			}
		}
	}

	for i := range c.Subs {
		s := &c.Subs[i]
		if only != "" && only != s.Name {
			continue
		}
		curSub.Store(s.Name)
		n := s.Quick
		if tier == "thorough" {
			n = s.Thorough
			if n == 0 {
				n = 20 * s.Quick
			}
		}
		if s.Quick > 1 {
			n = n * scale / 100
		}
		if n < 1 {
			n = 1
		}
		subSamples := 0
		for idx := shard; idx < n; idx += shards {
			atomic.StoreInt64(&curIdx, int64(idx))
			if prog != nil {
				prog.WriteAt([]byte(fmt.Sprintf("%-60s %12d\n", s.Name, idx)), 0)
			}
			g := &G{s: hash(seed, c.ID, s.Name, idx)}
			o := runCase(s, g)
			evals++
			perSub[s.Name]++
			for k := range g.classes {
				classes[s.Name+":"+k]++
			}
			if o.discard {
				discards++
				continue
			}
			if g.nontriv {
				h := fnv.New64a()
				fmt.Fprint(h, s.Name)
				var buf [8]byte
				for _, d := range g.tape {
					for b := 0; b < 8; b++ {
						buf[b] = byte(d.v >> uint(8*b))
					}
					h.Write(buf[:])
				}
				distinct[h.Sum64()] = true
				if subSamples < 2 {
					subSamples++
					d := g.desc.String()
					if len(d) > 500 {
						d = d[:500] + "..."
					}
					samples = append(samples, fmt.Sprintf("%s#%d: %s", s.Name, idx, d))
				}
			}
			if o.fail != "" {
				failed = true
				tape, so := shrink(s, values(g.tape), o, envInt("VERIF_SHRINK", 4000))
				fmt.Printf("unshrunk: %s\n", o.fail)
				report(s.Name, so.fail, tape, idx, so.g.desc.String())
				break
			}
		}
		if failed {
			break
		}
	}

	keys := make([]string, 0, len(classes))
	for k := range classes {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	sort.Strings(samples)
	ev := map[string]interface{}{
		"property": c.ID, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": map[string]interface{}{
			"evaluations": evals, "distinct_nontrivial": len(distinct), "rule": c.Rule,
			"samples": samples, "discarded": discards, "cases_per_subcheck": perSub, "classes": classes,
			"shards": shards,
		},
		"assumptions": c.Assume,
		"wall_s":      time.Since(start).Seconds(),
		"violations":  map[bool]int{true: 1, false: 0}[failed],
	}
	if c.Assume == nil {
		ev["assumptions"] = []string{}
	}
	hs := make([]string, 0, len(distinct))
	for h := range distinct {
		hs = append(hs, fmt.Sprintf("%016x", h))
	}
	os.WriteFile(filepath.Join(outDir, fmt.Sprintf("hashes.%d", shard)), []byte(strings.Join(hs, "\n")), 0o644)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(outDir, fmt.Sprintf("evidence.%d.json", shard)), b, 0o644)
	os.WriteFile(filepath.Join(outDir, fmt.Sprintf("done.%d", shard)), []byte("done\n"), 0o644)
}

// ---------------------------------------------------------------- bit writer

// W writes bits most significant first.
type W struct {
	B []byte
	N int // number of bits written
}

// Put writes the low n bits of v.
func (w *W) Put(n int, v int) {
	for i := n - 1; i >= 0; i-- {
		if w.N%8 == 0 {
			w.B = append(w.B, 0)
		}
		if uint64(v)>>uint(i)&1 == 1 {
			w.B[w.N/8] |= 1 << uint(7-w.N%8)
		}
		w.N++
	}
}

// Bool writes one flag.
func (w *W) Bool(b bool) {
	if b {
		w.Put(1, 1)
	} else {
		w.Put(1, 0)
	}
}
