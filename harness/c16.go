package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"sort"
	"strings"

	x "verifharness/lib"
)

func init() {
	register(&Check{ID: "C16", Run: runC16, Subs: map[string]Sub{"history": historySub, "alike": alikeSub, "names": namesSub, "repeat": repeatSub}, Notes: []string{
		"the answer to compare with is the one of a fresh process that makes only this call",
		"the iteration order of Go maps cannot be enumerated from outside; every call is repeated many times instead",
	}})
	if os.Getenv("VERIF_EVAL") != "" {
		evalMain()
	}
}

// A call is kind, document, path and more, joined by opSep.
func call(parts ...string) string { return strings.Join(parts, opSep) }

// answer makes the call and gives everything observable about it as text.
func answer(cl string) string {
	p := strings.Split(cl, opSep)
	switch p[0] {
	case "get":
		r := x.Get(p[1], p[2])
		s := full(r)
		spoil(&r)
		return s
	case "bytes":
		r := x.GetBytes([]byte(p[1]), p[2])
		s := full(r)
		spoil(&r)
		return s
	case "fold":
		o := foldOpts()
		r := x.GetWithOptions(p[1], p[2], o)
		o.CaseSensitive = true
		return full(r)
	case "opts":
		o := &x.Options{CaseSensitive: true, Indent: "  "}
		r := x.GetWithOptions(p[1], p[2], o)
		o.CaseSensitive = false
		return full(r)
	case "many":
		rs := x.GetMany(p[1], p[2], "a.b", p[2])
		s := ""
		for i := range rs {
			s += full(rs[i]) + ";"
			spoil(&rs[i])
		}
		return s
	case "fluent":
		r := x.Get(p[1], "a")
		m := x.RMap(r)
		keys := make([]string, 0, len(m))
		for k := range m {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		s := full(x.RGet(r, p[2])) + full(x.RGetWithOptions(r, p[2], foldOpts()))
		for _, k := range keys {
			s += k + full(m[k])
			delete(m, k)
		}
		return s
	case "set":
		s, err := x.Set(p[1], p[2], "v<")
		return fmt.Sprint(s, classOf(err), err)
	case "raw":
		s, err := x.SetRaw(p[1], p[2], "<k q='1' p='2'/>")
		return fmt.Sprint(s, classOf(err), err)
	case "foldset":
		s, err := x.SetWithOptions(p[1], p[2], 7, &x.Options{Indent: " "})
		return fmt.Sprint(s, classOf(err), err)
	case "delete":
		s, err := x.Delete(p[1], p[2])
		return fmt.Sprint(s, classOf(err), err)
	case "folddelete":
		s, err := x.DeleteBytesWithOptions([]byte(p[1]), p[2], foldOpts())
		return fmt.Sprint(string(s), classOf(err), err)
	case "valid":
		return fmt.Sprint(x.Valid(p[1]), x.ValidateWithError(p[1]))
	case "custom": // a modifier that exists during this call only
		if err := x.RegisterModifier(p[3], &regMod{"+" + p[3]}); err != nil {
			return err.Error()
		}
		s := full(x.Get(p[1], p[2]))
		if err := x.UnregisterModifier(p[3]); err != nil {
			s += err.Error()
		}
		return s
	case "flood": // many distinct paths
		var n int
		fmt.Sscan(p[2], &n)
		for i := 0; i < n; i++ {
			_ = x.Get("<a><b/></a>", fmt.Sprint(p[1], i))
		}
		return ""
	}
	panic("call " + p[0])
}

// spoil changes everything reachable from a result, as a caller may.
func spoil(r *x.Result) {
	for i := range r.Results {
		spoil(&r.Results[i])
	}
	if len(r.Results) > 0 {
		r.Results[0] = x.Result{Type: x.String, Str: "spoilt"}
		r.Results = append(r.Results[:1], x.Result{})
	}
}

// evalMain answers the calls read from standard input, in a fresh process.
func evalMain() {
	var calls []string
	if err := json.NewDecoder(os.Stdin).Decode(&calls); err != nil {
		os.Exit(3)
	}
	out := make([]string, len(calls))
	for i, c := range decArgs(calls) {
		out[i] = guardedText(func() string { return answer(c) })
	}
	_ = json.NewEncoder(os.Stdout).Encode(encArgs(out))
	os.Exit(0)
}

func guardedText(f func() string) (s string) {
	defer func() {
		if r := recover(); r != nil {
			s = fmt.Sprintf("panic: %v", r)
		}
	}()
	return f()
}

// fresh gives the answers of a new process to a sequence of calls.
func fresh(calls []string) []string {
	b, _ := json.Marshal(encArgs(calls))
	cmd := exec.Command("/proc/self/exe")
	cmd.Env = append(os.Environ(), "VERIF_EVAL=1")
	cmd.Stdin = bytes.NewReader(b)
	out, err := cmd.Output()
	var res []string
	if err != nil || json.Unmarshal(out, &res) != nil || len(res) != len(calls) {
		return nil
	}
	return decArgs(res)
}

// historySub: calls; the last one must answer as it does alone.
func historySub(args []string) string {
	alone := fresh(args[len(args)-1:])
	after := fresh(args)
	if alone == nil || after == nil {
		return "the calls end the process"
	}
	if got := after[len(after)-1]; got != alone[0] {
		return fmt.Sprintf("after %d other calls %q answers %q, alone %q", len(args)-1, args[len(args)-1], clip(got), clip(alone[0]))
	}
	return ""
}

// repeatSub: call; repeated answers are equal, and equal in other processes.
func repeatSub(args []string) string {
	first := answer(args[0])
	for i := 0; i < 60; i++ {
		if got := answer(args[0]); got != first {
			return fmt.Sprintf("repetition %d answers %q, before %q", i+1, clip(got), clip(first))
		}
	}
	return ""
}

// alikeSub: number of segments, length of each, the segment that differs, where in it:
// two paths that differ in one place, asked in turn.
func alikeSub(args []string) string {
	k, n, i, at := num(args[0]), num(args[1]), num(args[2]), num(args[3])
	segs := make([]string, k)
	for j := range segs {
		segs[j] = strings.Repeat("n", n)
	}
	other := append([]string{}, segs...)
	other[i] = segs[i][:at] + "m" + segs[i][at+1:]
	build := func(s []string, v string) string {
		for j := k - 1; j >= i; j-- {
			v = "<" + s[j] + ">" + v + "</" + s[j] + ">"
		}
		return v
	}
	doc := build(segs, "1") + build(other, "2")
	for j := i - 1; j >= 0; j-- {
		doc = "<" + segs[j] + ">" + doc + "</" + segs[j] + ">"
	}
	p, q := strings.Join(segs, "."), strings.Join(other, ".")
	for round := 0; round < 2; round++ {
		for j, path := range []string{p, q} {
			want := fmt.Sprint(j + 1)
			if r := x.Get(doc, path); r.String() != want {
				return fmt.Sprintf("%q answers %s, want %s", path, clip(full(r)), want)
			}
			if r := x.GetWithOptions(doc, path, foldOpts()); r.String() != want {
				return fmt.Sprintf("%q with options answers %s, want %s", path, clip(full(r)), want)
			}
			if d, err := x.Set(doc, path, "9"); err != nil || x.Get(d, path).String() != "9" {
				return fmt.Sprintf("setting %q gives %q, %v", path, clip(d), err)
			}
		}
	}
	return ""
}

// nameSet is all names of up to three letters.
func nameSet() []string {
	var names []string
	letters := "abcdAB_z"
	for l := 1; l <= 3; l++ {
		product(len(letters), l, func(ix []int) {
			s := ""
			for _, k := range ix {
				s += letters[k : k+1]
			}
			names = append(names, s)
		})
	}
	return names
}

// namesSub: two blocks of names: all paths to their elements, in turn.
func namesSub(args []string) string {
	names := nameSet()
	block := func(k int) []string { return names[min(100*k, len(names)):min(100*k+100, len(names))] }
	all := append(append([]string{}, block(num(args[0]))...), block(num(args[1]))...)
	var b strings.Builder
	b.WriteString("<r>")
	for _, n := range all {
		fmt.Fprintf(&b, "<%s>v%s</%s>", n, n, n)
	}
	b.WriteString("</r>")
	doc := b.String()
	for round := 0; round < 2; round++ {
		for _, n := range all {
			if r := x.Get(doc, "r."+n); r.String() != "v"+n {
				return fmt.Sprintf("r.%s answers %s", n, clip(full(r)))
			}
		}
	}
	return ""
}

func runC16(c *Ctx) {
	docs := []string{
		`<a x="1" y="2" X="3"><b k="v" j="w" i="u">2</b><B>t</B><b>1<c z="1" y="2" x="3" w="4" v="5"/></b></a><A>q</A>`,
		`<a><a.b>1</a.b><b/></a>`,
	}
	paths := []string{"a", "a.b", "A.B", "a.b.1", "a.@x", "a.@X", "a.b.#", "a.*", "**.b", "a.b.#(@k=='v')#", "a.b.#.@k", "a.#(B=='t').b", "a.b|@sort", "a.*|@last", "a.b.-1", "a|@zz", "a\\.b", "a.%", "b.c.d"}
	var calls []string
	add := func(parts ...string) { calls = append(calls, call(parts...)) }
	for _, p := range paths {
		for _, k := range []string{"get", "fold", "set", "delete"} {
			add(k, docs[0], p)
		}
	}
	for _, p := range []string{"a.b", "A.B", "a.b|@sort", "a.#(B=='t').b"} {
		for _, k := range []string{"bytes", "opts", "many", "fluent", "raw", "foldset", "folddelete"} {
			add(k, docs[0], p)
		}
		add("get", docs[1], p)
	}
	add("get", docs[1], "a.a\\.b")
	add("get", docs[0], "a.b|@sort|@first")
	add("get", docs[0], "a.b|@zz|@first")
	add("custom", docs[0], "a.b|@zz", "zz")
	add("custom", docs[0], "a|@zz", "zz")
	add("custom", docs[0], "a.b|@sort|@yy", "yy")
	add("valid", docs[0])
	add("valid", "<a><b></a>")
	add("get", "<a><b>", "a.b")
	add("set", "", "a.b")
	add("fold", docs[0], "a.b.#(@K=='v')#")
	add("get", docs[0], "a.b.#(@K=='v')#")
	add("fold", docs[0], "A.#(b)#")
	add("get", docs[0], "A.#(b)#")
	// answers of fresh processes, twice each
	base := map[string]string{}
	type pair struct{ a, b []string }
	res := make([]pair, len(calls))
	idx := make([]int, len(calls))
	for i := range idx {
		idx[i] = i
	}
	Each(c, idx, func(w int, i int) {
		res[i] = pair{fresh(calls[i : i+1]), fresh(calls[i : i+1])}
	})
	for i, cl := range calls {
		if res[i].a == nil || res[i].b == nil || res[i].a[0] != res[i].b[0] {
			c.Fail("history", "two fresh processes answer differently", cl)
			return
		}
		base[cl] = res[i].a[0]
	}
	c.Count("fresh processes", int64(2*len(calls)))
	var log []string
	failed := func(cl, got string) {
		what := fmt.Sprintf("after other calls %q answers %q, alone %q", cl, clip(got), clip(base[cl]))
		// the shortest history that shows it in a fresh process
		for n := 2; n <= len(log); n *= 2 {
			h := log[len(log)-n:]
			if historySub(h) != "" {
				for len(h) > 2 && historySub(h[1:]) != "" {
					h = h[1:]
				}
				c.Fail("history", what, h...)
				return
			}
		}
		if len(log) > 400 {
			log = log[len(log)-400:]
		}
		c.Fail("history", what, log...)
	}
	one := func(cl string) {
		if len(log) > 4096 {
			log = append(log[:0], log[len(log)-2048:]...)
		}
		log = append(log, cl)
		judged.Add(1)
		if got := guardedText(func() string { return answer(cl) }); got != base[cl] {
			failed(cl, got)
		}
	}
	// every call repeated
	for _, cl := range calls {
		c.Do("repeat", cl)
		c.State("repeat", cl)
	}
	// all ordered pairs and triples of calls
	for _, a := range calls {
		for _, b := range calls {
			one(a)
			one(b)
			c.States(1)
			if c.Stopped() {
				return
			}
		}
	}
	c.Sample("history %q, %q, then %q", calls[3], calls[50], calls[1])
	some := calls
	if !c.thorough {
		some = nil
		for i, cl := range calls {
			if i%2 == 0 || strings.HasPrefix(cl, "custom") {
				some = append(some, cl)
			}
		}
	}
	for _, a := range some {
		for _, b := range some {
			for _, d := range some {
				one(a)
				one(b)
				one(d)
				c.States(1)
			}
			if c.Stopped() {
				return
			}
		}
	}
	// any number of distinct paths in between
	floods := []string{"a.b", "zz", "a.#(b=='", "a|@m", "A.", "b.@"}
	for k, pre := range floods {
		for _, n := range sizes(300, 4200) {
			if k > 0 && n > 40 && n < 250 && !c.thorough {
				continue
			}
			f := call("flood", pre+fmt.Sprint(n)+"x", fmt.Sprint(n))
			base[f] = ""
			one(f)
			for _, cl := range calls {
				one(cl)
			}
			c.State("flood", pre, fmt.Sprint(n))
			if c.Stopped() {
				return
			}
		}
	}
	// paths that differ in one place only, of many lengths
	for _, k := range []int{1, 2, 3, 5, 8, 20} {
		for _, n := range sizes(40, 600) {
			if k*n > 1200 && !c.thorough {
				continue
			}
			for i := 0; i < k; i++ {
				for _, at := range distinctInts(0, n/2, n-1) {
					a := []string{fmt.Sprint(k), fmt.Sprint(n), fmt.Sprint(i), fmt.Sprint(at)}
					if n > 0 {
						c.State(append([]string{"alike"}, a...)...)
						c.Do("alike", a...)
					}
				}
			}
		}
	}
	// all pairs of short names
	blocks := (len(nameSet()) + 99) / 100
	for i := 0; i < blocks; i++ {
		for j := i; j < blocks; j++ {
			c.State("names", fmt.Sprint(i), fmt.Sprint(j))
			c.Do("names", fmt.Sprint(i), fmt.Sprint(j))
		}
	}
	// stable order of attributes, for every number of them
	for n := 0; n <= 40; n++ {
		var b strings.Builder
		b.WriteString("<r><e")
		for i := 0; i < n; i++ {
			fmt.Fprintf(&b, ` k%d="%d"`, (i*7)%41, i)
		}
		b.WriteString("><c q='1'/></e></r>")
		for _, p := range []string{"r", "r.*", "**.e", "r|@pretty", "r.#(e)#"} {
			for _, k := range []string{"get", "fold"} {
				cl := call(k, b.String(), p)
				c.State(cl)
				c.Do("repeat", cl)
			}
		}
		for _, p := range []string{"r.e.@k3", "r.e.@new", "r.e.c.@z", "r.e"} {
			for _, k := range []string{"set", "delete", "raw", "foldset", "folddelete"} {
				cl := call(k, b.String(), p)
				c.State(cl)
				c.Do("repeat", cl)
			}
		}
	}
	c.Sample("%d calls in all pairs, %d in all triples, floods of up to 4200 distinct paths", len(calls), len(some))
}

func distinctInts(vs ...int) []int {
	var out []int
	for i, v := range vs {
		if i == 0 || v != vs[i-1] {
			out = append(out, v)
		}
	}
	return out
}
