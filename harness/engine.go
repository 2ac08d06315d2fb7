package main

import (
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
)

// ---------------------------------------------------------------- randomness

// Rng is a splitmix64 generator: everything random in a case derives from
// (seed, property, family, case index), so a case can be replayed exactly.
type Rng struct{ s uint64 }

func mix64(z uint64) uint64 {
	z += 0x9E3779B97F4A7C15
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

func (r *Rng) U64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// N returns a value in [0,n).
func (r *Rng) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// Range returns a value in [a,b].
func (r *Rng) Range(a, b int) int { return a + r.N(b-a+1) }

func (r *Rng) Bool() bool { return r.U64()&1 == 1 }

// P is true with probability num/den.
func (r *Rng) P(num, den int) bool { return r.N(den) < num }

func (r *Rng) Bytes(n int) []byte {
	b := make([]byte, n)
	r.Fill(b)
	return b
}

func (r *Rng) Fill(b []byte) {
	for i := 0; i < len(b); {
		v := r.U64()
		for k := 0; k < 8 && i < len(b); k++ {
			b[i] = byte(v)
			v >>= 8
			i++
		}
	}
}

func pick[T any](r *Rng, xs []T) T { return xs[r.N(len(xs))] }

// SizeSkewed returns a size in [0,max], mostly small, sometimes at the edges.
func (r *Rng) SizeSkewed(max int) int {
	switch r.N(8) {
	case 0:
		return 0
	case 1:
		return max
	case 2, 3:
		return r.N(max + 1)
	default:
		m := max / 8
		if m < 4 {
			m = 4
		}
		if m > max {
			m = max
		}
		return r.N(m + 1)
	}
}

func hashStr(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

func hashBytes(b []byte) uint64 {
	h := fnv.New64a()
	h.Write(b)
	return h.Sum64()
}

func hashInts(v ...int) uint64 {
	h := uint64(14695981039346656037)
	for _, x := range v {
		h = mix64(h ^ uint64(x))
	}
	return h
}

// ------------------------------------------------------------------- cases

type violation struct {
	key string
	msg string
}

// C is one case: an execution of the real code under the property's monitor.
type C struct {
	*Rng
	prop, fam string
	idx       int
	tier      string
	race      bool
	st        *Stats
	tracing   bool
	mu        sync.Mutex
	trace     []string
}

// cutMsg keeps messages about megabytes of data readable.
func cutMsg(s string) string {
	if len(s) > 6000 {
		return s[:3000] + " ... " + s[len(s)-3000:]
	}
	return s
}

// Failf reports that the property does not hold on this execution.
func (c *C) Failf(format string, a ...any) {
	panic(violation{"", cutMsg(fmt.Sprintf(format, a...))})
}

// FailKey is Failf with a key a known finding can be listed under.
func (c *C) FailKey(key, format string, a ...any) {
	panic(violation{key, cutMsg(fmt.Sprintf(format, a...))})
}

func (c *C) Check(ok bool, format string, a ...any) {
	if !ok {
		c.Failf(format, a...)
	}
}

// T appends to the trace of the case; it costs nothing unless replaying.
func (c *C) T(format string, a ...any) {
	if c.tracing {
		c.mu.Lock()
		if len(c.trace) < 4000 {
			c.trace = append(c.trace, fmt.Sprintf(format, a...))
		}
		c.mu.Unlock()
	}
}

// Ev counts observed events of a kind.
func (c *C) Ev(name string, n int) { c.st.ev(name, int64(n)) }

// Eval counts evaluations beyond the case itself (inner inputs of a chunk).
func (c *C) Eval(n int) { c.st.Evals += int64(n) }

// Distinct records a non-trivial behaviour signature.
func (c *C) Distinct(h uint64) { c.st.distinct(h) }

func (c *C) Sample(f func() string) {
	if len(c.st.Samples) < 3 && c.idx%7 == 0 {
		s := f()
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		c.st.Samples = append(c.st.Samples, fmt.Sprintf("%s/%d: %s", c.fam, c.idx, s))
	}
}

// Tick tells the supervisor that the case is making progress.
func (c *C) Tick() { progressTick() }

// Try runs f and returns the recovered panic value with its stack, or nil.
// Violations raised inside pass through.
func (c *C) Try(f func()) (p any, stack string) {
	defer func() {
		if r := recover(); r != nil {
			if v, ok := r.(violation); ok {
				panic(v)
			}
			p = r
			stack = repoFrames(string(debug.Stack()))
		}
	}()
	f()
	return nil, ""
}

// Panics runs f and tells whether it panicked; cheaper than Try.
func (c *C) Panics(f func()) (yes bool) {
	defer func() {
		if r := recover(); r != nil {
			if v, ok := r.(violation); ok {
				panic(v)
			}
			yes = true
		}
	}()
	f()
	return false
}

// repoFrames keeps the frames of the code under test.
func repoFrames(s string) string {
	var out []string
	lines := strings.Split(s, "\n")
	for i, l := range lines {
		if strings.HasPrefix(l, "github.com/lkmio/avformat") {
			loc := ""
			if i+1 < len(lines) {
				loc = strings.TrimSpace(lines[i+1])
			}
			out = append(out, l+" @ "+loc)
			if len(out) >= 6 {
				break
			}
		}
	}
	return strings.Join(out, " <- ")
}

// ------------------------------------------------------------------- stats

type VRec struct {
	Family string
	Index  int
	Key    string
	Msg    string
	Trace  []string
	Race   bool
}

type Stats struct {
	Cases     int64
	Evals     int64
	Events    map[string]int64
	Set       map[uint64]struct{}
	SetCapped bool
	Samples   []string
	Viol      []VRec
	PerFamily map[string]int64
}

func newStats() *Stats {
	return &Stats{Events: map[string]int64{}, Set: map[uint64]struct{}{}, PerFamily: map[string]int64{}}
}

func (s *Stats) ev(name string, n int64) { s.Events[name] += n }

const setCap = 400000

func (s *Stats) distinct(h uint64) {
	if len(s.Set) >= setCap {
		s.SetCapped = true
		return
	}
	s.Set[h] = struct{}{}
}

// ---------------------------------------------------------------- registry

type Family struct {
	Name            string
	Quick, Thorough int  // cases in the plain build
	RaceQ, RaceT    int  // cases in the race-detector build
	Solo            bool // one worker process only (measures memory or needs all cores)
	Run             func(c *C)
}

type Prop struct {
	ID          string
	Rule        string
	Need        []string // event kinds without which the run observed nothing (inconclusive)
	Assumptions []string
	Families    []*Family
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

func propIDs() []string {
	var ids []string
	for id := range props {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	return ids
}

func caseRng(seed int64, prop, fam string, idx int) *Rng {
	return &Rng{s: mix64(mix64(uint64(seed)^hashStr(prop+"/"+fam)) + uint64(idx)*0x9E3779B97F4A7C15)}
}

// runCase executes one case and returns its violation, if any.
func runCase(p *Prop, f *Family, idx int, seed int64, tier string, race bool, st *Stats, tracing bool) (rec *VRec) {
	c := &C{Rng: caseRng(seed, p.ID, f.Name, idx), prop: p.ID, fam: f.Name, idx: idx, tier: tier, race: race, st: st, tracing: tracing}
	defer func() {
		if r := recover(); r != nil {
			rec = &VRec{Family: f.Name, Index: idx, Race: race, Trace: c.trace}
			if v, ok := r.(violation); ok {
				rec.Key, rec.Msg = v.key, v.msg
				return
			}
			stack := string(debug.Stack())
			fr := repoFrames(stack)
			if fr == "" {
				// a panic that never went through the code under test is a harness error
				fmt.Fprintf(realStderr, "HARNESS PANIC in %s/%s/%d: %v\n%s\n", p.ID, f.Name, idx, r, stack)
				os.Exit(3)
			}
			rec.Key = "panic"
			rec.Msg = fmt.Sprintf("unexpected panic: %v; %s", r, fr)
		}
	}()
	f.Run(c)
	return nil
}

var _ = runtime.NumCPU
