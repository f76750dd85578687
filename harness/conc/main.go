// The explorer runs scenarios of concurrent calls under every schedule within a
// preemption bound. It is started by the harness, several processes at a time,
// and reads the numbers of the scenarios to run from its input.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"

	x "github.com/netascode/xmldot"
	"verifharness/conc/sched"
)

var (
	thorough = flag.Bool("thorough", false, "")
	count    = flag.Bool("count", false, "print the number of scenarios")
	scenario = flag.String("scenario", "", "run one scenario")
	choices  = flag.String("choices", "", "run one schedule of it")
	mark     = flag.String("mark", "", "file for the schedule being run")
	maxExec  = flag.Int("max", 40000, "executions per scenario")
)

// Report is the outcome of a scenario.
type Report struct {
	Index, Execs, Points, Steps, Outcomes int
	Cut                                   bool   // not all schedules were run
	What                                  string // violation
	Scenario, Choices                     string
}

type call struct {
	op         *Op
	thread     int
	start, end int
	got        string
}

var expected = map[string]string{}

// alone returns what a call returns in a fresh state with nothing else running.
func alone(o *Op) string {
	if v, ok := expected[o.Name]; ok {
		return v
	}
	reset()
	expected[o.Name] = o.Run(newEnv())
	return expected[o.Name]
}

var emit = func(r *Report) {
	b, _ := json.Marshal(r)
	fmt.Printf("R %s\n", b)
}

func choiceText(c []int8) string {
	var b strings.Builder
	for i, v := range c {
		if i > 0 {
			b.WriteByte(',')
		}
		b.WriteString(strconv.Itoa(int(v)))
	}
	return b.String()
}

// execution runs a scenario under one schedule and returns the calls.
func execution(s *Scenario, choice, width []int8, r *Report) ([]*call, []sched.Point, map[string]string) {
	defer func() {
		if p := recover(); p != nil {
			r.What = fmt.Sprintf("panic before or after the goroutines: %v\n%s", p, debug.Stack())
		}
	}()
	reset()
	env := newEnv()
	st := map[string]string{}
	for i := 0; i < s.Filled; i++ {
		x.Get("<z/>", "z.f"+strconv.Itoa(i))
	}
	for i := range s.Setup {
		o := &s.Setup[i]
		got, want := o.Run(env), ""
		if o.Spec == nil {
			want = alone2(o)
		} else {
			for _, f := range o.Spec {
				want = f(st, want)
			}
		}
		if got != want {
			r.What = fmt.Sprintf("%s before the goroutines returned %s, not %s", o.Name, got, want)
			return nil, nil, nil
		}
	}
	var calls []*call
	var bodies []func()
	panicked := make([]string, len(s.Threads))
	for t, ops := range s.Threads {
		var mine []*call
		for i := range ops {
			c := &call{op: &ops[i], thread: t}
			mine = append(mine, c)
			calls = append(calls, c)
		}
		bodies = append(bodies, func() {
			defer func() {
				if p := recover(); p != nil {
					panicked[t] = fmt.Sprintf("panic in goroutine %d: %v\n%s", t, p, debug.Stack())
				}
			}()
			for _, c := range mine {
				sched.Yield()
				c.start = sched.Tick()
				c.got = c.op.Run(env)
				c.end = sched.Tick()
			}
		})
	}
	var pts []sched.Point
	sched.Fine = s.Fine
	if free {
		var wg sync.WaitGroup
		for _, b := range bodies {
			wg.Add(1)
			go func() { defer wg.Done(); b() }()
		}
		wg.Wait()
	} else {
		pts = sched.Run(bodies, choice, width, func() {
			r.What = "deadlock: no goroutine can continue"
			r.Choices = choiceText(sched.Current())
			emit(r)
			os.Exit(0)
		})
	}
	for _, p := range panicked {
		if p != "" {
			r.What = p
		}
	}
	// what is registered afterwards
	final := map[string]string{}
	for _, n := range []string{"m", "n"} {
		if m := x.GetModifier(n); m != nil {
			final[n] = m.Name()
		}
	}
	for n := range builtins {
		if m := x.GetModifier(n); m == nil || m.Name() != n {
			r.What = "built-in modifier " + n + " is gone or replaced"
		}
	}
	return calls, pts, func() map[string]string {
		st["final"] = fmt.Sprint(final)
		return st
	}()
}

// alone2 does not disturb the running setup: the value is known already.
func alone2(o *Op) string { return expected[o.Name] }

// explain looks for a sequential order of the calls that gives what they returned.
func explain(calls []*call, st map[string]string) string {
	final := st["final"]
	delete(st, "final")
	for _, c := range calls {
		if c.op.Spec == nil && c.got != expected[c.op.Name] {
			return fmt.Sprintf("%s returned %s instead of %s", c.op.Name, c.got, expected[c.op.Name])
		}
	}
	pos := make([]int, len(calls))
	acc := make([]string, len(calls))
	var search func(st map[string]string) bool
	search = func(st map[string]string) bool {
		finished := true
		for i, c := range calls {
			if pos[i] == len(c.op.Spec) {
				continue
			}
			finished = false
			// all calls that returned before this one began come first
			ok := true
			for j, d := range calls {
				if d.end < c.start && pos[j] < len(d.op.Spec) {
					ok = false
				}
			}
			if !ok {
				continue
			}
			next := map[string]string{}
			for k, v := range st {
				next[k] = v
			}
			old := acc[i]
			acc[i] = c.op.Spec[pos[i]](next, acc[i])
			pos[i]++
			good := pos[i] < len(c.op.Spec) || acc[i] == c.got
			if good && search(next) {
				return true
			}
			pos[i]--
			acc[i] = old
		}
		return finished && fmt.Sprint(st) == final
	}
	if search(st) {
		return ""
	}
	var b strings.Builder
	b.WriteString("no sequential order of the calls explains the results:")
	for _, c := range calls {
		fmt.Fprintf(&b, "\n goroutine %d, time %d to %d: %s returned %s", c.thread, c.start, c.end, c.op.Name, c.got)
	}
	b.WriteString("\n registered afterwards: " + final)
	return b.String()
}

var markFile *os.File

func runOne(s *Scenario, choice, width []int8, r *Report, outcomes map[string]bool) []sched.Point {
	if markFile != nil {
		_, _ = markFile.WriteAt([]byte(fmt.Sprintf("%-20d%s\n", r.Index, choiceText(choice))), 0)
	}
	races := raceErrors()
	calls, pts, st := execution(s, choice, width, r)
	r.Execs++
	r.Steps += sched.Steps()
	if r.What == "" {
		var o strings.Builder
		for _, c := range calls {
			o.WriteString(c.got)
			o.WriteByte(0)
		}
		outcomes[o.String()] = true
		r.What = explain(calls, st)
	}
	if r.What == "" && raceErrors() > races {
		r.What = "data race (see the detector's report)"
	}
	if r.What != "" {
		c := make([]int8, len(pts))
		for i, p := range pts {
			c[i] = p.Choice
		}
		for len(c) > 0 && c[len(c)-1] == 0 {
			c = c[:len(c)-1]
		}
		r.Choices = choiceText(c)
	}
	return pts
}

func explore(s *Scenario, r *Report) {
	outcomes := map[string]bool{}
	defer func() { r.Outcomes = len(outcomes) }()
	for _, ops := range append([][]Op{s.Setup}, s.Threads...) {
		for i := range ops {
			if ops[i].Spec == nil {
				alone(&ops[i])
			}
		}
	}
	if free {
		r.Cut = true
		for i := 0; i < 30 && r.What == ""; i++ {
			for _, n := range []string{"m", "n"} {
				_ = x.UnregisterModifier(n)
			}
			runOne(s, nil, nil, r, outcomes)
		}
		return
	}
	type item struct{ choice, width []int8 }
	// all schedules without preemption first, then with one, and so on
	level := []item{{}}
	for bound := 0; bound <= s.Bound && len(level) > 0; bound++ {
		var later []item
		stack := level
		for len(stack) > 0 {
			it := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			if r.Execs >= *maxExec {
				r.Cut = true
				return
			}
			pts := runOne(s, it.choice, it.width, r, outcomes)
			if r.What != "" {
				return
			}
			if sched.Diverged || sched.Horizon {
				r.Cut = true
				if sched.Diverged {
					continue
				}
			}
			r.Points += len(pts) - len(it.choice)
			choice, width := make([]int8, len(pts)), make([]int8, len(pts))
			for i, p := range pts {
				choice[i], width[i] = p.Choice, p.N
			}
			for i := len(it.choice); i < len(pts); i++ {
				for alt := int8(1); alt < pts[i].N; alt++ {
					n := item{append(append([]int8(nil), choice[:i]...), alt), width[:i+1]}
					if pts[i].Preempt {
						if bound < s.Bound {
							later = append(later, n)
						}
					} else {
						stack = append(stack, n)
					}
				}
			}
		}
		level = later
	}
}

func main() {
	flag.Parse()
	if !free {
		runtime.GOMAXPROCS(1)
	}
	debug.SetGCPercent(400)
	list := scenarios(*thorough)
	if *count {
		fmt.Println(len(list))
		return
	}
	if *mark != "" {
		markFile, _ = os.OpenFile(*mark, os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0o644)
	}
	if *scenario != "" {
		for _, s := range append(list, scenarios(true)...) {
			if s.Name != *scenario {
				continue
			}
			r := &Report{Scenario: s.Name}
			for _, ops := range append([][]Op{s.Setup}, s.Threads...) {
				for i := range ops {
					if ops[i].Spec == nil {
						alone(&ops[i])
					}
				}
			}
			if *choices == "all" {
				explore(s, r)
			} else {
				var c, w []int8
				for _, f := range strings.Split(*choices, ",") {
					if f != "" {
						n, _ := strconv.Atoi(f)
						c, w = append(c, int8(n)), append(w, -1)
					}
				}
				runOne(s, c, w, r, map[string]bool{})
			}
			emit(r)
			return
		}
		fmt.Fprintln(os.Stderr, "no such scenario")
		os.Exit(3)
	}
	in := bufio.NewScanner(os.Stdin)
	for in.Scan() {
		i, err := strconv.Atoi(in.Text())
		if err != nil || i >= len(list) {
			os.Exit(3)
		}
		r := &Report{Index: i, Scenario: list[i].Name}
		explore(list[i], r)
		emit(r)
		if r.What != "" {
			return
		}
	}
}
