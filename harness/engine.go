package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// ---------------------------------------------------------------- choices
//
// Every random decision of a case goes through T.Draw. The drawn values are
// recorded, so a case is completely described by its choice sequence: replay
// feeds the sequence back, and shrinking edits it (deletes and lowers
// choices) and re-runs the property. A value of 0 is always the simplest one.

type T struct {
	rng     uint64
	replay  []uint64
	playing bool
	pos     int
	rec     []uint64

	labels     []string
	nontrivial bool
	key        uint64
	haveKey    bool
	sample     func() string
	fatal      bool // schedule-dependent case: do not shrink
	mem        *atomic.Uint64
}

type failure struct{ msg string }

func splitmix(x *uint64) uint64 {
	*x += 0x9e3779b97f4a7c15
	z := *x
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Draw returns a value in [0,n) (any 64-bit value if n == 0).
func (t *T) Draw(n uint64) uint64 {
	var v uint64
	if t.playing {
		if t.pos < len(t.replay) {
			v = t.replay[t.pos]
		}
		t.pos++
		if n != 0 && v >= n {
			v %= n
		}
	} else {
		v = splitmix(&t.rng)
		if n != 0 {
			v %= n
		}
	}
	t.rec = append(t.rec, v)
	return v
}

func (t *T) Int(lo, hi int) int { return lo + int(t.Draw(uint64(hi-lo+1))) }
func (t *T) Bool() bool         { return t.Draw(2) == 1 }

// Chance is true with probability num/den.
func (t *T) Chance(num, den int) bool { return t.Draw(uint64(den)) >= uint64(den-num) }

func (t *T) Failf(format string, args ...interface{}) {
	panic(failure{fmt.Sprintf(format, args...)})
}
func (t *T) Label(s string) { t.labels = append(t.labels, s) }
func (t *T) NonTrivial()    { t.nontrivial = true }
func (t *T) KeyBytes(b ...[]byte) {
	h := fnv.New64a()
	for _, x := range b {
		h.Write(x)
		h.Write([]byte{0xfe})
	}
	t.key, t.haveKey = h.Sum64(), true
}
func (t *T) KeyString(s string)     { t.KeyBytes([]byte(s)) }
func (t *T) Sample(f func() string) { t.sample = f }
func (t *T) Sub(key string) (u uint64) { // position-independent constant stream seed
	h := fnv.New64a()
	h.Write([]byte(key))
	return h.Sum64()
}

// ---------------------------------------------------------------- property

type Prop struct {
	ID          string
	Rule        string // how cases are made and what makes one non-trivial
	Quick       int
	Thorough    int
	Sys         int               // number of systematically enumerated cases
	SysRun      func(t *T, i int) // runs enumerated case i
	SysThorough int               // the same for the thorough tier (0: as Sys)
	Run         func(t *T)        // runs one generated case
	Workers     int               // 0: one per CPU
	Race        bool              // build with the race detector
	Schedule    bool              // outcome depends on scheduling: no shrinking
	Assume      []string
	Finish      func() string // checked once after all cases, "" if fine
	Exhaustive  bool          // the enumerated cases are the whole domain
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

// runCase runs one case and returns the failure message ("" if it held).
// A panic that comes out of the code under test is a failure of the
// property; a panic of the harness itself is an error and is re-raised.
func runCase(p *Prop, t *T, sys int) (msg string) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		if f, ok := r.(failure); ok {
			msg = f.msg
			return
		}
		st := string(debug.Stack())
		if panicInRepo(st) {
			msg = fmt.Sprintf("unexpected panic in the code under test: %v\n%s", r, trimStack(st))
			return
		}
		fmt.Fprintf(os.Stderr, "HARNESS ERROR: %v\n%s\n", r, st)
		os.Exit(exitHarness)
	}()
	if sys >= 0 {
		p.SysRun(t, sys)
	} else {
		p.Run(t)
	}
	return ""
}

// keeps checks that a text that was returned stays as it is while again is
// called, which asks for other texts.
func keeps(t *T, what string, make func() string, again func()) {
	s := make()
	c := string(append([]byte(nil), s...))
	again()
	if s != c {
		t.Failf("the text of %s changes when another one is made:\nwas %q\nis  %q", what, cut(c, 700), cut(s, 700))
	}
	if d := make(); d != c {
		t.Failf("the text of %s is another one the second time:\nfirst %q\nthen  %q", what, cut(c, 700), cut(d, 700))
	}
}

// panicInRepo tells whether the innermost non-runtime frame below the panic
// belongs to the repository.
func panicInRepo(st string) bool {
	lines := strings.Split(st, "\n")
	i := -1
	for k, l := range lines {
		if strings.HasPrefix(l, "panic(") {
			i = k // the last one is the original panic
		}
	}
	if i < 0 {
		return false
	}
	for _, l := range lines[i+1:] {
		if strings.HasPrefix(l, "\t") || l == "" {
			continue
		}
		if strings.HasPrefix(l, repoModule+"/") {
			return true
		}
		if strings.HasPrefix(l, "main.") {
			return false
		}
	}
	return false
}

func trimStack(st string) string {
	lines := strings.Split(st, "\n")
	if len(lines) > 60 {
		lines = lines[:60]
	}
	return strings.Join(lines, "\n")
}

const repoModule = "github.com/alexispb/mygosnmp"

func caseSeed(seed uint64, id string, i int) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%d/%d", id, seed, i)
	return h.Sum64()
}

// ---------------------------------------------------------------- shrinking

func shrink(p *Prop, choices []uint64, budget int, maxTime time.Duration, try func([]uint64) (string, []uint64)) ([]uint64, string) {
	best := choices
	msg, rec := try(best)
	if msg == "" {
		return best, ""
	}
	best = rec
	start := time.Now()
	n := 0
	attempt := func(c []uint64) bool {
		if n >= budget || time.Since(start) > maxTime {
			return false
		}
		n++
		m, r := try(c)
		if m == "" {
			return false
		}
		if len(r) > len(c) {
			r = r[:len(c)]
		}
		if less(r, best) {
			best, msg = r, m
			return true
		}
		return false
	}
	for improved := true; improved && n < budget; {
		improved = false
		for size := len(best) / 2; size >= 1; size /= 2 {
			for i := 0; i+size <= len(best); {
				c := append(append([]uint64{}, best[:i]...), best[i+size:]...)
				if attempt(c) {
					improved = true
				} else {
					i += size
				}
			}
		}
		for i := 0; i < len(best); i++ {
			if best[i] == 0 {
				continue
			}
			c := append([]uint64{}, best...)
			c[i] = 0
			if attempt(c) {
				improved = true
				continue
			}
			lo, hi := uint64(0), best[i]
			for lo+1 < hi && i < len(best) {
				mid := lo + (hi-lo)/2
				c := append([]uint64{}, best...)
				c[i] = mid
				if attempt(c) {
					improved = true
					hi = mid
				} else {
					lo = mid
				}
			}
			if i < len(best) && best[i] > 0 {
				c := append([]uint64{}, best...)
				c[i]--
				if attempt(c) {
					improved = true
				}
			}
		}
	}
	return best, msg
}

func less(a, b []uint64) bool {
	if len(a) != len(b) {
		return len(a) < len(b)
	}
	for i := range a {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return false
}

// ---------------------------------------------------------------- runner

type Failure struct {
	Property string   `json:"property"`
	Tier     string   `json:"tier"`
	Seed     uint64   `json:"seed"`
	Index    int      `json:"index"` // generated case number, -1 if enumerated
	Sys      int      `json:"sys"`   // enumerated case number, -1 if generated
	Kind     string   `json:"kind"`  // violation, hang, crash, race
	Choices  []uint64 `json:"choices,omitempty"`
	Original []uint64 `json:"original_choices,omitempty"`
	Case     string   `json:"case,omitempty"`
	Message  string   `json:"message"`
	Dict     *dictT   `json:"dictionary,omitempty"`
}

type dictT struct {
	Ints         []uint64    `json:"ints"`
	Strings      []string    `json:"strings"`
	FreshInts    []uint64    `json:"fresh_ints"`
	FreshStrings []string    `json:"fresh_strings"`
	FreshSeqs    [][]uint64  `json:"fresh_seqs"`
	FreshAt      [][2]uint64 `json:"fresh_at"`
}

type stats struct {
	evaluations int
	nontrivial  int
	labels      map[string]int
	keys        map[uint64]struct{}
	samples     []sampleT
	anySample   []sampleT
}
type sampleT struct {
	idx  int
	text string
}

type runner struct {
	p       *Prop
	tier    string
	seed    uint64
	journal []uint64 // shared memory: per worker, case number + 1
	cur     []atomic.Int64
	started []atomic.Int64

	mu   sync.Mutex
	best *Failure // lowest-numbered failure
	st   stats
}

func (r *runner) total() (sys, gen int) {
	sys, gen = r.p.Sys, r.p.Quick
	if r.tier == "thorough" {
		gen = r.p.Thorough
		if r.p.SysThorough > 0 {
			sys = r.p.SysThorough
		}
	}
	if r.p.Run == nil {
		gen = 0
	}
	return
}

// caseNo: 0..sys-1 enumerated, then generated.
func (r *runner) mkT(no, sys int) (*T, int) {
	if no < sys {
		return &T{playing: true}, no
	}
	return &T{rng: caseSeed(r.seed, r.p.ID, no-sys)}, -1
}

func (r *runner) fail(no, sys int, t *T, msg string) {
	f := &Failure{Property: r.p.ID, Tier: r.tier, Seed: r.seed, Index: no - sys, Sys: -1, Kind: "violation", Message: msg, Choices: t.rec}
	if no < sys {
		f.Index, f.Sys, f.Choices = -1, no, nil
	} else {
		f.Dict = &dictT{dictInts, dictStrings, freshInts, freshStrings, freshSeqs, freshAt}
	}
	if t.sample != nil {
		f.Case = safeSample(t.sample)
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.best == nil || noOf(f, sys) < noOf(r.best, sys) {
		r.best = f
	}
}

func noOf(f *Failure, sys int) int {
	if f.Sys >= 0 {
		return f.Sys
	}
	return sys + f.Index
}

func safeSample(f func() string) (s string) {
	defer func() {
		if recover() != nil {
			s = "(sample not printable)"
		}
	}()
	s = f()
	if len(s) > 4000 {
		s = s[:4000] + fmt.Sprintf("... (%d characters)", len(s))
	}
	return
}

func (r *runner) run() {
	sys, gen := r.total()
	total := sys + gen
	w := r.p.Workers
	if w == 0 {
		w = runtime.NumCPU()
	}
	var next, limit atomic.Int64
	limit.Store(int64(total))
	r.cur = make([]atomic.Int64, w)
	r.started = make([]atomic.Int64, w)
	r.st = stats{labels: map[string]int{}, keys: map[uint64]struct{}{}}
	go r.watchdog()
	var wg sync.WaitGroup
	const chunk = 16
	for k := 0; k < w; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			st := stats{labels: map[string]int{}, keys: map[uint64]struct{}{}}
			for {
				lo := next.Add(chunk) - chunk
				if lo >= limit.Load() {
					break
				}
				for no := lo; no < lo+chunk && no < limit.Load(); no++ {
					t, s := r.mkT(int(no), sys)
					if k < len(r.journal) {
						r.journal[k] = uint64(no) + 1
					}
					r.cur[k].Store(no + 1)
					r.started[k].Store(time.Now().UnixNano())
					msg := runCase(r.p, t, s)
					if d := time.Now().UnixNano() - r.started[k].Load(); slowCases && d > 5e8 {
						if f, err := os.OpenFile(os.Getenv("VERIF_SLOW"), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644); err == nil {
							fmt.Fprintf(f, "%s case %d took %.1f s\n", r.p.ID, no, float64(d)/1e9)
							f.Close()
						}
					}
					r.cur[k].Store(0)
					st.add(int(no), t)
					if msg != "" {
						r.fail(int(no), sys, t, msg)
						for l := limit.Load(); no < l && !limit.CompareAndSwap(l, no); l = limit.Load() {
						}
						break
					}
				}
			}
			if k < len(r.journal) {
				r.journal[k] = 0
			}
			r.mu.Lock()
			r.st.merge(&st)
			r.mu.Unlock()
		}(k)
	}
	wg.Wait()
	if r.best == nil && r.p.Finish != nil {
		if msg := r.p.Finish(); msg != "" {
			r.best = &Failure{Property: r.p.ID, Tier: r.tier, Seed: r.seed, Index: -1, Sys: -1, Kind: "violation", Message: msg}
		}
	}
}

func (s *stats) add(no int, t *T) {
	s.evaluations++
	for _, l := range t.labels {
		s.labels[l]++
	}
	if !t.nontrivial {
		if t.sample != nil && len(s.anySample) < 1 {
			s.anySample = append(s.anySample, sampleT{no, safeSample(t.sample)})
		}
		return
	}
	s.nontrivial++
	key := t.key
	if !t.haveKey {
		h := fnv.New64a()
		var b [8]byte
		for _, c := range t.rec {
			for i := range b {
				b[i] = byte(c >> (8 * i))
			}
			h.Write(b[:])
		}
		key = h.Sum64() ^ uint64(no*boolInt(len(t.rec) == 0))
	}
	if _, dup := s.keys[key]; !dup && len(s.keys) < maxKeys {
		s.keys[key] = struct{}{}
		if len(s.samples) < 4 && t.sample != nil {
			s.samples = append(s.samples, sampleT{no, safeSample(t.sample)})
		}
	}
}

// maxKeys bounds the memory for counting distinct cases: beyond that many per
// worker, further ones are not counted (the count is then a lower bound).
const maxKeys = 4000000

func boolInt(b bool) int {
	if b {
		return 1
	}
	return 0
}

func (s *stats) merge(o *stats) {
	s.evaluations += o.evaluations
	s.nontrivial += o.nontrivial
	for k, v := range o.labels {
		s.labels[k] += v
	}
	for k := range o.keys {
		s.keys[k] = struct{}{}
	}
	s.samples = append(s.samples, o.samples...)
	s.anySample = append(s.anySample, o.anySample...)
	sort.Slice(s.samples, func(i, j int) bool { return s.samples[i].idx < s.samples[j].idx })
	if len(s.samples) > 6 {
		s.samples = s.samples[:6]
	}
}

// watchdog ends the process when one case runs for hangLimit, or the process
// grows beyond memLimit: the parent then re-runs the case alone.
const (
	memLimit    = 12 << 30
	exitHang    = 3
	exitHarness = 4
	exitRace    = 66
)

var slowCases = os.Getenv("VERIF_SLOW") != ""

var hangLimit = 60 * time.Second

func rss() int64 {
	b, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	var a, c int64
	fmt.Sscan(string(b), &a, &c)
	return c * int64(os.Getpagesize())
}

func (r *runner) watchdog() {
	for {
		time.Sleep(50 * time.Millisecond)
		big := rss() > memLimit
		for k := range r.cur {
			no := r.cur[k].Load()
			if no == 0 {
				continue
			}
			if big || time.Since(time.Unix(0, r.started[k].Load())) > hangLimit {
				what := "ran for more than " + hangLimit.String()
				if big {
					what = "the process grew beyond 12 GB"
				}
				hangExit(what)
			}
		}
	}
}

func hangExit(what string) {
	buf := make([]byte, 1<<18)
	buf = buf[:runtime.Stack(buf, true)]
	fmt.Fprintf(os.Stderr, "WATCHDOG: %s\n%s\n", what, buf)
	os.Exit(exitHang)
}

// ---------------------------------------------------------------- single case

// tryChoices runs one generated case from a choice sequence.
func tryChoices(p *Prop, c []uint64) (string, []uint64, *T) {
	t := &T{playing: true, replay: c}
	msg := runCase(p, t, -1)
	return msg, t.rec, t
}

func (r *runner) minimise() {
	f := r.best
	if f == nil || f.Sys >= 0 || f.Index < 0 || r.p.Schedule {
		return
	}
	f.Original = f.Choices
	// a hang while shrinking must not lose the original failure
	var cur atomic.Int64
	done := make(chan struct{})
	go func() {
		best, msg := shrink(r.p, f.Choices, 4000, 30*time.Second, func(c []uint64) (string, []uint64) {
			cur.Store(time.Now().UnixNano())
			m, rec, _ := tryChoices(r.p, c)
			return m, rec
		})
		if msg != "" {
			_, _, t := tryChoices(r.p, best)
			r.mu.Lock()
			f.Choices, f.Message = best, msg
			if t.sample != nil {
				f.Case = safeSample(t.sample)
			}
			r.mu.Unlock()
		}
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(90 * time.Second):
	}
}

func writeJSON(path string, v interface{}) error {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		return err
	}
	tmp := path + ".tmp"
	if err := os.WriteFile(tmp, append(b, '\n'), 0o644); err != nil {
		return err
	}
	return os.Rename(tmp, path)
}
