package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"
	"unsafe"
)

var (
	fProp    = flag.String("prop", "", "property id")
	fTier    = flag.String("tier", "quick", "quick or thorough")
	fSeed    = flag.Uint64("seed", 1, "seed")
	fVerif   = flag.String("verif", "/verif", "verif directory")
	fRepo    = flag.String("repo", "/repo", "repository")
	fReplay  = flag.String("replay", "", "replay a failure file")
	fScale   = flag.Float64("scale", 1, "scales the number of generated cases")
	fIsRace  = flag.Bool("israce", false, "print whether the property needs the race detector")
	fList    = flag.Bool("list", false, "list properties")
	fNoEvid  = flag.Bool("noevidence", false, "do not write the evidence file")
	fChild   = flag.String("child", "", "(internal) directory shared with the parent")
	fDict    = flag.Bool("literals", false, "print the literals of the repository (dict_base.json)")
	fOnly    = flag.Int("only", -1, "(internal) run only this case number")
	fWorkers = flag.Int("workers", 0, "(internal) number of workers instead of the property's own")
	fChoices = flag.String("choices", "", "(internal) run the choice sequence in this file")
)

func main() {
	flag.Parse()
	if *fList {
		var ids []string
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, "\n"))
		return
	}
	if *fDict {
		b, _ := json.MarshalIndent(findLiterals(*fRepo), "", " ")
		fmt.Println(string(b))
		return
	}
	if *fReplay != "" {
		os.Exit(replay(*fReplay))
	}
	p := props[*fProp]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *fProp)
		os.Exit(2)
	}
	if *fIsRace {
		fmt.Println(p.Race)
		return
	}
	if *fWorkers > 0 {
		p.Workers = *fWorkers
	}
	p.Quick = int(float64(p.Quick) * *fScale)
	p.Thorough = int(float64(p.Thorough) * *fScale)
	loadDict(*fRepo)
	if *fChild != "" {
		child(p)
		return
	}
	os.Exit(parent(p))
}

const journalSlots = 64

func mapJournal(path string) []uint64 {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0o600)
	if err != nil {
		die(err)
	}
	defer f.Close()
	if err := f.Truncate(8 * journalSlots); err != nil {
		die(err)
	}
	b, err := syscall.Mmap(int(f.Fd()), 0, 8*journalSlots, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		die(err)
	}
	return unsafe.Slice((*uint64)(unsafe.Pointer(&b[0])), journalSlots)
}

func die(err error) {
	fmt.Fprintln(os.Stderr, "error:", err)
	os.Exit(2)
}

// ---------------------------------------------------------------- child

func child(p *Prop) {
	r := &runner{p: p, tier: *fTier, seed: *fSeed}
	if *fOnly >= 0 || *fChoices != "" {
		sys, _ := r.total()
		hangLimit = 30 * time.Second
		go func() {
			start := time.Now()
			for {
				time.Sleep(50 * time.Millisecond)
				if rss() > memLimit {
					hangExit("the process grew beyond 12 GB")
				}
				if time.Since(start) > hangLimit {
					hangExit("ran for more than " + hangLimit.String())
				}
			}
		}()
		t, s := r.mkT(*fOnly, sys)
		if *fChoices != "" {
			var c []uint64
			b, err := os.ReadFile(*fChoices)
			if err == nil {
				err = json.Unmarshal(b, &c)
			}
			if err != nil {
				die(err)
			}
			t, s = &T{playing: true, replay: c}, -1
		}
		if msg := runCase(p, t, s); msg != "" {
			fmt.Fprintln(os.Stderr, msg)
			os.Exit(1)
		}
		os.Exit(0)
	}
	r.journal = mapJournal(filepath.Join(*fChild, "journal"))
	start := time.Now()
	r.run()
	report := func() {
		if r.best != nil {
			r.mu.Lock()
			f := *r.best
			r.mu.Unlock()
			if err := writeJSON(filepath.Join(*fChild, "failure.json"), &f); err != nil {
				die(err)
			}
		}
		if err := writeJSON(filepath.Join(*fChild, "evidence.json"), evidence(r, time.Since(start))); err != nil {
			die(err)
		}
	}
	report()
	if r.best != nil {
		r.minimise() // may end the process
		report()
		os.Exit(1)
	}
}

func evidence(r *runner, d time.Duration) map[string]interface{} {
	samples := []interface{}{}
	for _, s := range r.st.samples {
		samples = append(samples, s.text)
	}
	for i, s := range r.st.anySample {
		if len(samples) < 3 && i < 3 {
			samples = append(samples, s.text)
		}
	}
	sys, gen := r.total()
	viol := 0
	if r.best != nil {
		viol = 1
	}
	cov := map[string]interface{}{
		"evaluations":         r.st.evaluations,
		"distinct_nontrivial": len(r.st.keys),
		"nontrivial":          r.st.nontrivial,
		"rule":                r.p.Rule,
		"samples":             samples,
		"classes":             r.st.labels,
		"planned_enumerated":  sys,
		"planned_generated":   gen,
		"dictionary_size":     len(dictInts),
		"fresh_literals":      len(freshInts) + len(freshStrings) + len(freshSeqs) + len(freshAt),
	}
	if r.p.Exhaustive && gen == 0 && r.best == nil {
		cov["exhaustive"] = true
	}
	ev := map[string]interface{}{
		"property": r.p.ID, "tier": r.tier, "seed": r.seed, "level": "exploration",
		"coverage": cov, "wall_s": d.Seconds(), "violations": viol,
	}
	if len(r.p.Assume) > 0 {
		ev["assumptions"] = r.p.Assume
	}
	return ev
}

// ---------------------------------------------------------------- parent

func childCmd(p *Prop, dir string, extra ...string) *exec.Cmd {
	args := []string{"-prop", p.ID, "-tier", *fTier, "-seed", fmt.Sprint(*fSeed), "-repo", *fRepo, "-child", dir}
	if *fScale != 1 {
		args = append(args, "-scale", fmt.Sprint(*fScale))
	}
	cmd := exec.Command(os.Args[0], append(args, extra...)...)
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0", "GOTRACEBACK=all")
	return cmd
}

func runChild(cmd *exec.Cmd) (code int, errOut string) {
	var eb tailBuffer
	cmd.Stdout = os.Stdout
	cmd.Stderr = &eb
	err := cmd.Run()
	if err == nil {
		return 0, eb.String()
	}
	if ee, ok := err.(*exec.ExitError); ok {
		if ee.ExitCode() < 0 {
			return -1, eb.String() + "\n" + ee.Error()
		}
		return ee.ExitCode(), eb.String()
	}
	return -2, err.Error()
}

// tailBuffer keeps the first and the last bytes written.
type tailBuffer struct{ head, tail []byte }

func (b *tailBuffer) Write(p []byte) (int, error) {
	n := len(p)
	if room := 1<<16 - len(b.head); room > 0 {
		k := min(room, len(p))
		b.head = append(b.head, p[:k]...)
		p = p[k:]
	}
	b.tail = append(b.tail, p...)
	if len(b.tail) > 1<<16 {
		b.tail = append([]byte{}, b.tail[len(b.tail)-1<<15:]...)
	}
	return n, nil
}
func (b *tailBuffer) String() string { return string(b.head) + string(b.tail) }

func parent(p *Prop) int {
	dir, err := os.MkdirTemp("", "vh")
	if err != nil {
		die(err)
	}
	defer os.RemoveAll(dir)
	journal := mapJournal(filepath.Join(dir, "journal"))
	start := time.Now()
	code, errOut := runChild(childCmd(p, dir))
	var f *Failure
	found := func() bool { // before shrinking ended the process
		_, err := os.Stat(filepath.Join(dir, "failure.json"))
		return err == nil
	}
	if code != 0 && code != exitHarness && found() {
		code = 1
	}
	if !p.Race && code != 0 && code != 1 && code != exitHarness {
		// The worker process died. If no case alone does that, it may be
		// the workers that are in each other's way through state of the code
		// under test, which is not for this property to judge (C12 and C31
		// are about that): decide with one worker.
		if f = confirmCrash(p, dir, journal, code, errOut); f == nil {
			fmt.Fprintf(os.Stderr, "%s\nnote: the worker process ended with code %d and no case alone does; using one worker\n", cut(errOut, 3000), code)
			for i := range journal {
				journal[i] = 0
			}
			code, errOut = runChild(childCmd(p, dir, "-workers", "1"))
			if code != 0 && code != exitHarness && found() {
				code = 1
			}
		}
	}
	switch code {
	case 0, 1:
		b, err := os.ReadFile(filepath.Join(dir, "evidence.json"))
		if err != nil {
			fmt.Fprintln(os.Stderr, errOut)
			die(err)
		}
		if !*fNoEvid {
			os.MkdirAll(filepath.Join(*fVerif, "evidence"), 0o755)
			if err := os.WriteFile(filepath.Join(*fVerif, "evidence", p.ID+".json"), b, 0o644); err != nil {
				die(err)
			}
		}
		if code == 0 {
			var ev struct {
				Coverage struct {
					Evaluations        int
					DistinctNontrivial int `json:"distinct_nontrivial"`
				}
				WallS float64 `json:"wall_s"`
			}
			json.Unmarshal(b, &ev)
			fmt.Printf("OK property=%s tier=%s seed=%d evaluations=%d distinct_nontrivial=%d wall=%.1fs\n", p.ID, *fTier, *fSeed,
				ev.Coverage.Evaluations, ev.Coverage.DistinctNontrivial, ev.WallS)
			return 0
		}
		f = new(Failure)
		b, err = os.ReadFile(filepath.Join(dir, "failure.json"))
		if err == nil {
			err = json.Unmarshal(b, f)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, errOut)
			die(err)
		}
	case exitRace:
		// the race detector does not report false races; make sure it is
		// about the code under test
		if !strings.Contains(errOut, repoModule+"/") {
			fmt.Fprintln(os.Stderr, errOut)
			fmt.Fprintln(os.Stderr, "error: data race outside the code under test")
			return 2
		}
		f = &Failure{Property: p.ID, Tier: *fTier, Seed: *fSeed, Index: -1, Sys: -1, Kind: "race", Message: "data race\n" + errOut}
		crashCase(p, journal, f)
	case exitHarness:
		fmt.Fprintln(os.Stderr, errOut)
		return 2
	default: // hang, fatal error, killed
		if f == nil {
			f = confirmCrash(p, dir, journal, code, errOut)
			if f == nil && !p.Race && (code == 2 && strings.Contains(errOut, "fatal error:") && strings.Contains(firstStack(errOut), repoModule+"/") ||
				code == exitHang && strings.Contains(errOut, repoModule+"/")) {
				// one worker: the calls of one goroutine end the process, or
				// do not end, after what it called before
				kind := "crash"
				if code == exitHang {
					kind = "hang"
				}
				f = &Failure{Property: p.ID, Tier: *fTier, Seed: *fSeed, Index: -1, Sys: -1, Kind: kind, Message: cut(errOut, 20000)}
				crashCase(p, journal, f)
			}
		}
		if f == nil {
			fmt.Fprintln(os.Stderr, errOut)
			fmt.Fprintf(os.Stderr, "error: worker ended with code %d and no case reproduces it\n", code)
			return 2
		}
	}
	if code > 1 || code < 0 {
		if !*fNoEvid {
			ev := map[string]interface{}{
				"property": p.ID, "tier": *fTier, "seed": *fSeed, "level": "exploration", "wall_s": time.Since(start).Seconds(), "violations": 1,
				"coverage": map[string]interface{}{"evaluations": max(1, f.Index+1), "distinct_nontrivial": 0, "rule": p.Rule,
					"samples": []string{"worker process ended: " + firstLine(f.Message)}},
			}
			writeJSON(filepath.Join(*fVerif, "evidence", p.ID+".json"), ev)
		}
	}
	rd := filepath.Join(*fVerif, "replays")
	os.MkdirAll(rd, 0o755)
	path := filepath.Join(rd, fmt.Sprintf("%s-%s-%d.json", p.ID, *fTier, *fSeed))
	if err := writeJSON(path, f); err != nil {
		die(err)
	}
	fmt.Printf("%s: %s\n", f.Kind, cut(f.Message, 3000))
	if f.Case != "" {
		fmt.Printf("case: %s\n", cut(f.Case, 3000))
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
	return 1
}

// firstStack is the first goroutine of a crash report.
func firstStack(s string) string {
	i := strings.Index(s, "\ngoroutine ")
	if i < 0 {
		return ""
	}
	s = s[i+1:]
	if j := strings.Index(s, "\n\n"); j >= 0 {
		s = s[:j]
	}
	return s
}

func firstLine(s string) string { return strings.SplitN(s, "\n", 2)[0] }
func cut(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func crashCase(p *Prop, journal []uint64, f *Failure) {
	r := &runner{p: p, tier: *fTier, seed: *fSeed}
	sys, _ := r.total()
	for _, v := range journal {
		if v != 0 {
			if no := int(v - 1); no < sys {
				f.Sys = no
			} else {
				f.Index = no - sys
			}
			return
		}
	}
}

// confirmCrash re-runs the cases that were running when the worker died, each
// alone in a fresh process; a case that dies again is a violation.
func confirmCrash(p *Prop, dir string, journal []uint64, code int, errOut string) *Failure {
	if code == -2 {
		return nil
	}
	r := &runner{p: p, tier: *fTier, seed: *fSeed}
	sys, _ := r.total()
	cands := []uint64{}
	for _, v := range journal {
		if v != 0 {
			cands = append(cands, v)
		}
	}
	sort.Slice(cands, func(i, j int) bool { return cands[i] < cands[j] })
	inRepo := func(s string) bool { return strings.Contains(s, repoModule+"/") }
	kind := func(c int) string {
		if c == exitHang {
			return "hang"
		}
		return "crash"
	}
	for _, v := range cands {
		no := int(v - 1)
		c, out := runChild(childCmd(p, dir, "-only", fmt.Sprint(no)))
		if c == 0 || c == exitHarness || (c > 1 || c < 0) && !inRepo(out) {
			continue
		}
		f := &Failure{Property: p.ID, Tier: *fTier, Seed: *fSeed, Index: no - sys, Sys: -1, Kind: kind(c), Message: cut(out, 20000)}
		if no < sys {
			f.Index, f.Sys = -1, no
			return f
		}
		t := &T{rng: caseSeed(*fSeed, p.ID, no-sys)}
		_ = t
		return f
	}
	if p.Schedule && inRepo(errOut) && code != -1 {
		f := &Failure{Property: p.ID, Tier: *fTier, Seed: *fSeed, Index: -1, Sys: -1, Kind: kind(code), Message: cut(errOut, 20000)}
		crashCase(p, journal, f)
		return f
	}
	return nil
}

// ---------------------------------------------------------------- replay

func replay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		die(err)
	}
	var f Failure
	if err := json.NewDecoder(bytes.NewReader(b)).Decode(&f); err != nil {
		die(err)
	}
	p := props[f.Property]
	if p == nil {
		die(fmt.Errorf("unknown property %q", f.Property))
	}
	loadDict(*fRepo)
	if f.Dict != nil { // the choices refer to this dictionary
		dictInts, dictStrings, freshInts, freshStrings = f.Dict.Ints, f.Dict.Strings, f.Dict.FreshInts, f.Dict.FreshStrings
		freshSeqs, freshAt = f.Dict.FreshSeqs, f.Dict.FreshAt
	}
	r := &runner{p: p, tier: f.Tier, seed: f.Seed}
	sys, _ := r.total()
	n := 1
	if p.Schedule {
		n = 200
	}
	for i := 0; i < n; i++ {
		var t *T
		s := -1
		switch {
		case f.Sys >= 0:
			t, s = &T{playing: true}, f.Sys
		case len(f.Choices) > 0:
			t = &T{playing: true, replay: f.Choices}
		case f.Index >= 0:
			t, s = r.mkT(sys+f.Index, sys)
		default:
			die(fmt.Errorf("the failure file names no case"))
		}
		if msg := runCase(p, t, s); msg != "" {
			if t.sample != nil {
				fmt.Println("case:", safeSample(t.sample))
			}
			fmt.Println(msg)
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
			return 1
		}
	}
	fmt.Printf("OK property=%s: the case holds\n", p.ID)
	return 0
}
