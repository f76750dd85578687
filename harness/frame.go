// Framework shared by all checks: parallel exhaustive enumeration, counting of
// visited states / executed transitions / model comparisons, violation and
// replay handling, known findings, evidence.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/maphash"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unicode/utf8"

	"verifharness/lib"
)

// A Sub is one kind of case of a check. It runs the real code on the given
// arguments, compares it with the reference and returns "" or what differs.
// Every failure of an enumeration is confirmed and can be replayed through it.
type Sub func(args []string) string

type Check struct {
	ID    string
	Run   func(c *Ctx)
	Subs  map[string]Sub
	Level string
	Big   bool     // needs address space beyond the limit
	Notes []string // assumptions written to the evidence
}

var checks = map[string]*Check{}

func register(ch *Check) { checks[ch.ID] = ch }

type Violation struct {
	Property string   `json:"property"`
	Sub      string   `json:"sub"`
	Args     []string `json:"args"`
	What     string   `json:"what"`
}

type Ctx struct {
	check    *Check
	thorough bool
	seed     int
	start    time.Time
	deadline time.Time

	trans   lib.Counter // steps besides the calls that package lib counts
	words   atomic.Int64
	cmps    atomic.Int64 // comparisons of implementation and reference
	stopped atomic.Bool
	cut     atomic.Bool // deadline reached: not exhaustive

	seed64 maphash.Seed
	shards [64]struct {
		sync.Mutex
		m map[uint64]struct{}
	}

	mu         sync.Mutex
	samples    []string
	violations []Violation
	known      map[string]string // case key -> what, listed for this property
	knownHit   map[string]bool
	extra      map[string]int64
	skips      int64

	watch [256]struct {
		start atomic.Int64
		what  atomic.Pointer[Violation]
	}
}

// State counts a distinct state (document, document+path, registry contents, ...).
func (c *Ctx) State(parts ...string) bool {
	var h maphash.Hash
	h.SetSeed(c.seed64)
	for _, p := range parts {
		h.WriteString(p)
		h.WriteByte(0xff)
	}
	k := h.Sum64()
	s := &c.shards[k%64]
	s.Lock()
	_, seen := s.m[k]
	if !seen {
		s.m[k] = struct{}{}
	}
	s.Unlock()
	return !seen
}

// States counts states that an enumeration visits once each by construction.
func (c *Ctx) States(n int) { c.words.Add(int64(n)) }

func (c *Ctx) states() int64 {
	n := c.words.Load()
	for i := range c.shards {
		n += int64(len(c.shards[i].m))
	}
	return n
}

// judged counts the cases whose outcome was compared with the reference, where
// the comparison is made. Calls of the library are counted by package lib.
var judged lib.Counter

// Trans counts further steps: path segments after the first, scheduling steps.
func (c *Ctx) Trans(n int) { c.trans.Add(n) }
func (c *Ctx) Cmp(n int)   { c.cmps.Add(int64(n)) }

func (c *Ctx) transitions() int64 { return c.trans.Load() + lib.Calls.Load() }
func (c *Ctx) compared() int64    { return c.cmps.Load() + judged.Load() }

func (c *Ctx) Count(key string, n int64) {
	c.mu.Lock()
	c.extra[key] += n
	c.mu.Unlock()
}

// Sample keeps some actual cases for the evidence.
func (c *Ctx) Sample(format string, a ...any) {
	c.mu.Lock()
	if len(c.samples) < 12 {
		s := fmt.Sprintf(format, a...)
		if len(s) > 400 {
			s = s[:400] + "..."
		}
		c.samples = append(c.samples, s)
	}
	c.mu.Unlock()
}

func (c *Ctx) Stopped() bool {
	if c.stopped.Load() {
		return true
	}
	if time.Now().After(c.deadline) {
		c.cut.Store(true)
		c.stopped.Store(true)
		return true
	}
	return false
}

func caseKey(sub string, args []string) string {
	b, _ := json.Marshal(append([]string{sub}, encArgs(args)...))
	return string(b)
}

// encArgs makes arguments that are not valid UTF-8 safe for JSON.
func encArgs(args []string) []string {
	out := make([]string, len(args))
	for i, a := range args {
		if !utf8.ValidString(a) || strings.HasPrefix(a, "go:") {
			a = "go:" + strconv.QuoteToASCII(a)
		}
		out[i] = a
	}
	return out
}

func decArgs(args []string) []string {
	out := make([]string, len(args))
	for i, a := range args {
		if q, ok := strings.CutPrefix(a, "go:"); ok {
			a, _ = strconv.Unquote(q)
		}
		out[i] = a
	}
	return out
}

// Fail reports a failing case. It is confirmed by running its Sub again.
func (c *Ctx) Fail(sub, what string, args ...string) {
	key := caseKey(sub, args)
	c.mu.Lock()
	if _, ok := c.known[key]; ok {
		c.knownHit[key] = true
		c.mu.Unlock()
		return
	}
	full := len(c.violations) >= 5
	c.mu.Unlock()
	if full {
		return
	}
	if f := c.check.Subs[sub]; f != nil {
		for i := 0; i < 3; i++ {
			if w := guard(f, args); w == "" {
				what += fmt.Sprintf(" (not reproduced in confirmation run %d)", i+1)
			} else {
				what = w
			}
		}
	}
	c.mu.Lock()
	c.violations = append(c.violations, Violation{c.check.ID, sub, args, what})
	if len(c.violations) >= 5 {
		c.stopped.Store(true)
	}
	c.mu.Unlock()
}

// guard turns a panic into a failure text.
func guard(f Sub, args []string) (what string) {
	defer func() {
		if r := recover(); r != nil {
			what = fmt.Sprintf("panic: %v\n%s", r, shortStack())
		}
	}()
	return f(args)
}

func shortStack() string { return repoFrames(string(debug.Stack())) }

// repoFrames picks the lines of a stack trace that are in the repository.
func repoFrames(trace string) string {
	lines := strings.Split(trace, "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, "/repo/") {
			out = append(out, strings.TrimSpace(l))
		}
	}
	if len(out) > 8 {
		out = out[:8]
	}
	return strings.Join(out, "\n")
}

// Do runs one case of a sub and reports its failure.
func (c *Ctx) Do(sub string, args ...string) {
	judged.Add(1)
	if w := guard(c.check.Subs[sub], args); w != "" {
		c.Fail(sub, w, args...)
	}
}

// Each runs f for every item in parallel. Items are handed out in order, so
// that small cases come first.
func Each[T any](c *Ctx, items []T, f func(w int, item T)) {
	var next atomic.Int64
	var wg sync.WaitGroup
	n := runtime.GOMAXPROCS(0)
	for w := 0; w < n; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for {
				i := int(next.Add(1)) - 1
				if i >= len(items) || c.Stopped() {
					return
				}
				f(w, items[i])
			}
		}(w)
	}
	wg.Wait()
}

// EachN runs f for 0..n-1 in parallel in chunks.
func EachN(c *Ctx, n int, f func(w, i int)) {
	const chunk = 64
	var next atomic.Int64
	var wg sync.WaitGroup
	for w := 0; w < runtime.GOMAXPROCS(0); w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for {
				lo := int(next.Add(chunk)) - chunk
				if lo >= n || c.Stopped() {
					return
				}
				for i := lo; i < lo+chunk && i < n; i++ {
					f(w, i)
				}
			}
		}(w)
	}
	wg.Wait()
}

// Begin/End mark a case for the hang watchdog.
func (c *Ctx) Begin(w int, sub string, args ...string) {
	c.watch[w].what.Store(&Violation{c.check.ID, sub, args, ""})
	c.watch[w].start.Store(time.Now().UnixNano())
}
func (c *Ctx) End(w int) { c.watch[w].start.Store(0) }

func (c *Ctx) watchdog() {
	last, since := int64(-1), time.Now().UnixNano()
	for {
		time.Sleep(500 * time.Millisecond)
		now := time.Now().UnixNano()
		for i := range c.watch {
			s := c.watch[i].start.Load()
			if s != 0 && now-s > int64(60*time.Second) {
				v := *c.watch[i].what.Load()
				v.What = "call did not return within 60 s"
				c.mu.Lock()
				c.violations = append(c.violations, v)
				c.mu.Unlock()
				c.finish()
			}
		}
		// any other call that never returns keeps the counters from moving
		if n := c.transitions() + c.compared() + c.words.Load(); n != last {
			last, since = n, now
		} else if now-since > int64(150*time.Second) {
			buf := make([]byte, 1<<20)
			buf = buf[:runtime.Stack(buf, true)]
			c.mu.Lock()
			c.violations = append(c.violations, Violation{c.check.ID, "hang", nil, "no progress for 150 s, a call does not return\n" + repoFrames(string(buf))})
			c.mu.Unlock()
			c.finish()
		}
	}
}

var (
	flagCheck  = flag.String("check", "", "property id")
	flagTier   = flag.String("tier", "quick", "quick or thorough")
	flagReplay = flag.String("replay", "", "replay file")
	flagDir    = flag.String("dir", "/verif", "directory with known-findings.txt and evidence/")
	flagLimit  = flag.Int("limit", 0, "time limit in seconds (0: by tier)")
	flagProf   = flag.String("prof", "", "write a CPU profile")
	flagSeed   = flag.Int("seed", 1, "seed, recorded only: nothing is sampled")
)

func loadKnown(id string) map[string]string {
	known := map[string]string{}
	data, err := os.ReadFile(filepath.Join(*flagDir, "known-findings.txt"))
	if err != nil {
		return known
	}
	for _, line := range strings.Split(string(data), "\n") {
		// known: property=C21 case=["sub","arg",...] text
		rest, ok := strings.CutPrefix(line, "known: property="+id+" case=")
		if !ok {
			continue
		}
		dec := json.NewDecoder(strings.NewReader(rest))
		var c []string
		if err := dec.Decode(&c); err != nil || len(c) == 0 {
			fmt.Fprintf(os.Stderr, "bad known-findings line: %s\n", line)
			os.Exit(3)
		}
		known[caseKey(c[0], decArgs(c[1:]))] = strings.TrimSpace(rest[dec.InputOffset():])
	}
	return known
}

func main() {
	flag.Parse()
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(12 << 30)
	if *flagReplay != "" {
		replay(*flagReplay)
		return
	}
	ch := checks[*flagCheck]
	if ch == nil {
		fmt.Fprintf(os.Stderr, "unknown check %q\n", *flagCheck)
		os.Exit(3)
	}
	limit := *flagLimit
	if limit == 0 {
		limit = 300
		if *flagTier == "thorough" {
			limit = 780
		}
	}
	if os.Getenv("VERIF_CHILD") == "" && *flagProf == "" {
		supervise(ch)
	}
	c := &Ctx{
		check: ch, thorough: *flagTier == "thorough", seed: *flagSeed,
		start: time.Now(), deadline: time.Now().Add(time.Duration(limit) * time.Second),
		seed64: maphash.MakeSeed(), known: loadKnown(ch.ID), knownHit: map[string]bool{}, extra: map[string]int64{},
	}
	for i := range c.shards {
		c.shards[i].m = map[uint64]struct{}{}
	}
	if *flagProf != "" {
		if f, err := os.Create(*flagProf); err == nil {
			_ = pprof.StartCPUProfile(f)
		}
	}
	// a defect that allocates without end must not take the machine with it
	lim := syscall.Rlimit{Cur: 24 << 30, Max: 24 << 30}
	if !ch.Big {
		_ = syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	}
	go c.watchdog()
	// Known findings are probed first: each listed case is run as it is.
	keys := make([]string, 0, len(c.known))
	for k := range c.known {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		var parts []string
		json.Unmarshal([]byte(k), &parts)
		f := ch.Subs[parts[0]]
		if f == nil {
			fmt.Fprintf(os.Stderr, "known finding with unknown sub: %s\n", k)
			os.Exit(3)
		}
		if guard(f, decArgs(parts[1:])) != "" {
			c.knownHit[k] = true
		}
	}
	ch.Run(c)
	c.finish()
}

// supervise runs the check in a child process, so that a crash that cannot be
// recovered from (stack overflow, concurrent map access, memory exhaustion) is
// reported as a violation.
func supervise(ch *Check) {
	start := time.Now()
	cmd := exec.Command(os.Args[0], os.Args[1:]...)
	cmd.Env = append(os.Environ(), "VERIF_CHILD=1")
	cmd.Stdout = os.Stdout
	var stderr strings.Builder
	cmd.Stderr = &stderr
	err := cmd.Run()
	text := stderr.String()
	code := cmd.ProcessState.ExitCode()
	if err == nil || code == 1 || code == 3 {
		os.Stderr.WriteString(text)
		os.Exit(code)
	}
	first := text
	for _, l := range strings.Split(text, "\n") {
		if strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "runtime: goroutine stack exceeds") || strings.HasPrefix(l, "unexpected fault address") || strings.HasPrefix(l, "panic:") {
			first = l
			break
		}
	}
	frames := repoFrames(text)
	if code != 2 || frames == "" {
		os.Stderr.WriteString(text)
		os.Exit(3) // killed from outside or broken by itself
	}
	c := &Ctx{check: ch, seed: *flagSeed, start: start}
	c.cut.Store(true)
	c.violations = []Violation{{ch.ID, "crash", nil, first + "\n" + frames}}
	c.finish()
}

func (c *Ctx) finish() {
	pprof.StopCPUProfile()
	c.mu.Lock()
	level := c.check.Level
	if level == "" {
		level = "model_checking"
	}
	cov := map[string]any{
		"states":                        c.states(),
		"transitions":                   c.transitions(),
		"traces_validated_against_impl": c.compared(),
		"samples":                       c.samples,
		"exhaustive":                    !c.cut.Load() && len(c.violations) == 0,
	}
	for k, v := range c.extra {
		cov[k] = v
	}
	notes := append([]string{}, c.check.Notes...)
	if n := c.words.Load(); n > 0 {
		notes = append(notes, fmt.Sprintf("%d of the states are enumerated words of tokens; a text that several words spell is counted once for each", n))
	}
	ev := map[string]any{
		"property": c.check.ID, "tier": *flagTier, "seed": c.seed, "level": level,
		"coverage": cov, "wall_s": time.Since(c.start).Seconds(),
		"assumptions": notes, "violations": len(c.violations),
	}
	if c.samples == nil {
		cov["samples"] = []string{}
	}
	dir := filepath.Join(*flagDir, "evidence")
	os.MkdirAll(dir, 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(dir, c.check.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	for k := range c.knownHit {
		fmt.Printf("KNOWN-FINDING: property=%s %s case=%s\n", c.check.ID, c.known[k], k)
	}
	fmt.Printf("%s %s: states=%d transitions=%d comparisons=%d exhaustive=%v wall=%.1fs\n",
		c.check.ID, *flagTier, c.states(), c.transitions(), c.compared(), !c.cut.Load() && len(c.violations) == 0, time.Since(c.start).Seconds())
	if len(c.violations) == 0 {
		os.Exit(0)
	}
	rdir := filepath.Join(dir, "replay")
	os.MkdirAll(rdir, 0o755)
	for i, v := range c.violations {
		path := filepath.Join(rdir, fmt.Sprintf("%s-%d.json", v.Property, i+1))
		enc := v
		enc.Args = encArgs(v.Args)
		b, _ := json.MarshalIndent(enc, "", " ")
		os.WriteFile(path, append(b, '\n'), 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", v.Property, path)
		args := make([]string, len(v.Args))
		for j, a := range v.Args {
			if len(a) > 300 {
				a = a[:300] + "..."
			}
			args[j] = a
		}
		w := v.What
		if len(w) > 1500 {
			w = w[:1500] + "..."
		}
		fmt.Printf("  %s %q\n  %s\n", v.Sub, args, strings.ReplaceAll(w, "\n", "\n  "))
	}
	os.Exit(1)
}

func replay(path string) {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	var v Violation
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	v.Args = decArgs(v.Args)
	ch := checks[v.Property]
	if ch != nil && (v.Sub == "crash" || v.Sub == "hang") {
		fmt.Println("the case is the whole check: run it again")
		os.Args = []string{os.Args[0], "-check", v.Property, "-dir", *flagDir}
		*flagCheck = v.Property
		supervise(ch)
	}
	if ch == nil || ch.Subs[v.Sub] == nil {
		fmt.Fprintln(os.Stderr, "no such case")
		os.Exit(3)
	}
	if w := guard(ch.Subs[v.Sub], v.Args); w != "" {
		fmt.Printf("VIOLATION property=%s replay=%s\n%s\n", v.Property, path, w)
		os.Exit(1)
	}
	fmt.Println("not reproduced")
}
