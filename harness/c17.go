package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

func init() {
	register(&Check{ID: "C17", Run: runC17, Big: true, Subs: map[string]Sub{"schedule": scheduleSub, "scenario": scenarioSub}, Notes: []string{
		"scheduling points: every lock operation, every statement that touches a package-level variable that can change, every atomic operation; schedules within the preemption bound of the scenario",
		"data races are reported by the race detector, which does not see the scheduler's hand-overs; memory orderings weaker than the Go memory model are not explored",
		"a batch counts as its single calls, and each modifier of a chain is looked up on its own",
	}})
}

type concReport struct {
	Index, Execs, Points, Steps, Outcomes int
	Cut                                   bool
	What, Scenario, Choices               string
}

var (
	concOnce sync.Once
	concBin  string
	concErr  error
	concInfo *Instrumented
)

// buildExplorer compiles the explorer against the working tree of the library.
func buildExplorer() (string, error) {
	concOnce.Do(func() {
		dir := filepath.Join(*flagDir, ".build", "conc")
		if concErr = os.MkdirAll(dir, 0o755); concErr != nil {
			return
		}
		concBin = filepath.Join(dir, fmt.Sprintf("explorer-%d", os.Getpid()))
		build := func(args ...string) error {
			cmd := exec.Command("go", append(append([]string{"build", "-race", "-o", concBin}, args...), "./conc")...)
			cmd.Dir = filepath.Join(*flagDir, "harness")
			out, err := cmd.CombinedOutput()
			if err != nil {
				return fmt.Errorf("%v: %s", err, out)
			}
			return nil
		}
		concInfo, concErr = instrument("/repo", dir)
		if concErr == nil && len(concInfo.Free) == 0 {
			concErr = build("-overlay", concInfo.Overlay)
			if concErr == nil {
				return
			}
		}
		// the scheduler cannot control the library: let the goroutines run freely
		if concErr != nil {
			fmt.Fprintln(os.Stderr, "not instrumented:", concErr)
		}
		concErr = build("-tags", "free")
	})
	return concBin, concErr
}

func explorer(args ...string) *exec.Cmd {
	cmd := exec.Command(concBin, args...)
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0 atexit_sleep_ms=0")
	return cmd
}

// runSchedule runs one scenario in a new process.
func runSchedule(scenario, choices string) string {
	if _, err := buildExplorer(); err != nil {
		return ""
	}
	cmd := explorer("-thorough", "-scenario", scenario, "-choices", choices)
	var stdout, stderr strings.Builder
	cmd.Stdout, cmd.Stderr = &stdout, &stderr
	if err := cmd.Start(); err != nil {
		return ""
	}
	timer := time.AfterFunc(120*time.Second, func() { cmd.Process.Kill() })
	err := cmd.Wait()
	if !timer.Stop() {
		return "the calls do not return within 120 s"
	}
	for _, l := range strings.Split(stdout.String(), "\n") {
		if t, ok := strings.CutPrefix(l, "R "); ok {
			var r concReport
			if json.Unmarshal([]byte(t), &r) == nil && r.What != "" {
				return r.What + "\n" + raceText(stderr.String())
			}
		}
	}
	if err != nil && cmd.ProcessState.ExitCode() != 3 {
		return "crash: " + crashText(stderr.String())
	}
	return ""
}

func scheduleSub(args []string) string { return runSchedule(args[0], args[1]) }
func scenarioSub(args []string) string { return runSchedule(args[0], "all") }

func raceText(s string) string {
	i := strings.Index(s, "WARNING: DATA RACE")
	if i < 0 {
		return ""
	}
	s = s[i:]
	if j := strings.Index(s, "\n=="); j >= 0 {
		s = s[:j]
	}
	return s
}

func crashText(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "panic:") {
			return l + "\n" + repoFrames(s)
		}
	}
	if len(s) > 1000 {
		s = s[:1000]
	}
	return s
}

func runC17(c *Ctx) {
	if _, err := buildExplorer(); err != nil {
		fmt.Fprintln(os.Stderr, "building the explorer:", err)
		os.Exit(3)
	}
	defer os.Remove(concBin)
	var flags []string
	if c.thorough {
		flags = append(flags, "-thorough")
	}
	out, err := explorer(append(flags, "-count")...).Output()
	var total int
	if _, e := fmt.Sscan(string(out), &total); err != nil || e != nil {
		fmt.Fprintln(os.Stderr, "starting the explorer:", err, e)
		os.Exit(3)
	}
	if concInfo == nil || len(concInfo.Free) > 0 {
		c.cut.Store(true)
		c.Count("scenarios run freely", int64(total))
	} else {
		c.Count("inserted scheduling points", int64(concInfo.Points))
	}
	var next, outcomes, cut atomic.Int64
	var wg sync.WaitGroup
	for w := 0; w < runtime.GOMAXPROCS(0); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for !c.Stopped() && next.Load() < int64(total) {
				mark := filepath.Join(filepath.Dir(concBin), fmt.Sprintf("mark-%d-%d", os.Getpid(), w))
				explorerWorker(c, flags, mark, &next, total, &outcomes, &cut)
				os.Remove(mark)
			}
		}()
	}
	wg.Wait()
	c.Count("scenarios", min(next.Load(), int64(total)))
	c.Count("distinct results of scenarios", outcomes.Load())
	c.Count("scenarios not explored completely", cut.Load())
	if cut.Load() > 0 {
		c.cut.Store(true)
	}
}

// explorerWorker feeds scenarios to one explorer process until it ends.
func explorerWorker(c *Ctx, flags []string, mark string, next *atomic.Int64, total int, outcomes, cut *atomic.Int64) {
	cmd := explorer(append(flags, "-mark", mark)...)
	in, _ := cmd.StdinPipe()
	outp, _ := cmd.StdoutPipe()
	var stderr strings.Builder
	cmd.Stderr = &stderr
	if err := cmd.Start(); err != nil {
		return
	}
	sc := bufio.NewScanner(outp)
	sc.Buffer(make([]byte, 1<<20), 1<<24)
	idle := time.AfterFunc(140*time.Second, func() { cmd.Process.Kill() })
	name := ""
	bad := false
	for !c.Stopped() {
		i := int(next.Add(1)) - 1
		if i >= total {
			break
		}
		idle.Reset(140 * time.Second)
		fmt.Fprintln(in, i)
		if !sc.Scan() {
			bad = true
			break
		}
		var r concReport
		if json.Unmarshal([]byte(strings.TrimPrefix(sc.Text(), "R ")), &r) != nil {
			bad = true
			break
		}
		name = r.Scenario
		c.States(r.Points)
		c.Trans(r.Steps)
		c.Cmp(r.Execs)
		outcomes.Add(int64(r.Outcomes))
		if r.Cut {
			cut.Add(1)
		}
		if i%97 == 0 {
			c.Sample("%s: %d schedules, %d distinct results", r.Scenario, r.Execs, r.Outcomes)
		}
		if r.What != "" {
			c.Fail("schedule", r.What+"\n"+raceText(stderr.String()), r.Scenario, r.Choices)
			break
		}
	}
	killed := !idle.Stop()
	in.Close()
	io.Copy(io.Discard, outp)
	cmd.Wait()
	if bad {
		var idx int
		var choices string
		b, _ := os.ReadFile(mark)
		fmt.Sscan(string(b), &idx, &choices)
		what := "crash: " + crashText(stderr.String())
		if killed {
			what = "the calls do not return within 140 s"
		}
		c.Fail("crash", what+fmt.Sprintf("\nscenario after %q, number %d, schedule %s", name, idx, choices))
	}
}
