package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
	"sync"

	x "verifharness/lib"
)

func init() {
	register(&Check{ID: "C21", Run: runC21, Subs: map[string]Sub{"chain": chainSub, "registry": registrySub, "length": lengthSub, "format": formatSub, "list": listSub}, Notes: []string{
		"sort is free in the order of members with equal keys and of lists with NaN",
		"white space is compared in the unescaped character data of the formatted markup; numeric character references are equal to their characters",
	}})
}

// lineEnds are one character to an XML reader.
var lineEnds = strings.NewReplacer("\r\n", "\n", "\r", "\n")

// squash is the content of raw markup without the white space of its text.
func squash(raw string) string {
	text := func(s string) string {
		s = unescape(s)
		for {
			i := strings.Index(s, "&#")
			if i < 0 {
				break
			}
			j := strings.IndexByte(s[i:], ';')
			if j < 0 {
				break
			}
			num, base := s[i+2:i+j], 10
			if strings.HasPrefix(num, "x") {
				num, base = num[1:], 16
			}
			v, err := strconv.ParseUint(num, base, 21)
			if err != nil {
				break
			}
			s = s[:i] + string(rune(v)) + s[i+j+1:]
		}
		return s
	}
	tight := func(s string) string {
		return strings.Map(func(r rune) rune {
			if r < 128 && isWS(byte(r)) {
				return -1
			}
			return r
		}, s)
	}
	nodes, err := ParseContent(raw)
	if err != nil {
		return "text " + tight(text(raw))
	}
	var b strings.Builder
	var walk func(ns []*Node)
	walk = func(ns []*Node) {
		for _, n := range ns {
			switch n.Kind {
			case KText:
				b.WriteString(tight(text(n.Text)))
			case KOpaque:
				if strings.HasPrefix(n.Text, "<![CDATA[") {
					b.WriteString(n.Text)
				} else {
					b.WriteString(tight(n.Text))
				}
			default:
				b.WriteString("<" + n.Name)
				for _, a := range n.Attrs {
					v := lineEnds.Replace(text(a.Raw))
					fmt.Fprintf(&b, " %s=%q", a.Name, v)
				}
				b.WriteString(">")
				walk(n.Kids)
				b.WriteString("</" + n.Name + ">")
			}
		}
	}
	walk(nodes)
	return b.String()
}

var customOnce sync.Once

// custom registers modifiers that mark what they were applied to.
func custom() {
	customOnce.Do(func() {
		reg := func(n string, f func(r x.Result) x.Result) {
			if err := x.RegisterModifier(n, x.NewModifierFunc(n, f)); err != nil {
				panic(err)
			}
		}
		reg("mark", markOf)
		reg("nest", nestOf)
		reg("nums", numsOf)
		reg("null", func(r x.Result) x.Result { return x.Result{} })
		reg("empty", func(r x.Result) x.Result { return x.Result{Type: x.Array} })
	})
}

// numsOf makes numbers of every second member that reads as one.
func numsOf(r x.Result) x.Result {
	out := x.Result{Type: r.Type, Raw: r.Raw, Str: r.Str, Num: r.Num}
	for i, m := range r.Results {
		if f, err := strconv.ParseFloat(m.Str, 64); err == nil && i%2 == 0 {
			m = x.Result{Type: x.Number, Num: f}
		}
		out.Results = append(out.Results, m)
	}
	return out
}

func markOf(r x.Result) x.Result {
	if r.Type == x.Array {
		out := x.Result{Type: x.Array, Raw: r.Raw, Str: r.Str + "!"}
		out.Results = append(append(out.Results, r.Results...), x.Result{Type: x.String, Str: fmt.Sprint("m", len(r.Results))})
		return out
	}
	r.Str += "!"
	return r
}

func nestOf(r x.Result) x.Result {
	return x.Result{Type: x.Array, Results: []x.Result{r, {Type: x.Array, Results: []x.Result{r, {Type: x.Array, Results: []x.Result{{Type: x.String, Str: "z"}}}}}, {Type: x.Array}}}
}

func sortKeys(rs []x.Result) (num []float64, ok bool) {
	for _, r := range rs {
		if r.Type == x.Number {
			num = append(num, r.Num)
			continue
		}
		f, err := strconv.ParseFloat(r.Str, 64)
		if err != nil || r.Type != x.String && r.Type != x.Element && r.Type != x.Attribute {
			return nil, false
		}
		num = append(num, f)
	}
	return num, true
}

// step checks that out is the modifier applied to in.
func step(m string, in, out x.Result) string {
	var want x.Result
	list := in.Type == x.Array
	switch m {
	case "reverse":
		want = in
		if list {
			want = x.Result{Type: x.Array}
			for i := len(in.Results) - 1; i >= 0; i-- {
				want.Results = append(want.Results, in.Results[i])
			}
		}
	case "first", "last":
		want = in
		if list && len(in.Results) > 0 {
			want = in.Results[0]
			if m == "last" {
				want = in.Results[len(in.Results)-1]
			}
		}
	case "flatten":
		want = in
		if list {
			want = x.Result{Type: x.Array}
			for _, r := range in.Results {
				if r.Type == x.Array {
					want.Results = append(want.Results, r.Results...)
				} else {
					want.Results = append(want.Results, r)
				}
			}
			if len(want.Results) == 0 {
				want = x.Result{}
			}
		}
	case "sort":
		if !list {
			want = in
			break
		}
		if out.Type != x.Array || len(out.Results) != len(in.Results) {
			return fmt.Sprintf("sort of %s gives %s", clip(full(in)), clip(full(out)))
		}
		a, b := make([]string, len(in.Results)), make([]string, len(in.Results))
		for i := range a {
			a[i], b[i] = full(in.Results[i]), full(out.Results[i])
		}
		sort.Strings(a)
		sort.Strings(b)
		for i := range a {
			if a[i] != b[i] {
				return fmt.Sprintf("sort of %s gives other members: %s", clip(full(in)), clip(full(out)))
			}
		}
		num, ok := sortKeys(out.Results)
		for _, v := range num {
			if v != v {
				return ""
			}
		}
		for i := 1; i < len(out.Results); i++ {
			if ok && num[i-1] > num[i] || !ok && out.Results[i-1].String() > out.Results[i].String() {
				return fmt.Sprintf("sort gives %s: members %d and %d are out of order", clip(full(out)), i-1, i)
			}
		}
		return ""
	case "mark":
		want = markOf(in)
	case "nest":
		want = nestOf(in)
	case "nums":
		want = numsOf(in)
	case "empty":
		want = x.Result{Type: x.Array}
	case "pretty", "ugly":
		if list || in.Raw == "" {
			if list {
				if out.Type != x.Array || len(out.Results) != len(in.Results) {
					return fmt.Sprintf("%s of a list gives %s", m, clip(full(out)))
				}
			}
			want = in
			break
		}
		if out.Type != in.Type || out.Str != in.Str || out.Num != in.Num || len(out.Results) != 0 {
			return fmt.Sprintf("%s changes %s to %s", m, clip(full(in)), clip(full(out)))
		}
		if a, b := squash(in.Raw), squash(out.Raw); a != b {
			return fmt.Sprintf("%s turns %q into %q: contents %q and %q", m, clip(in.Raw), clip(out.Raw), clip(a), clip(b))
		}
		return layout(m, in, out)
	default: // unknown, null
		want = x.Result{}
	}
	if list && want.Type == x.Array && m != "mark" {
		// Str and Raw of lists carry nothing
		want.Str, want.Raw, out.Str, out.Raw = "", "", "", ""
	}
	if !same(out, want) {
		return fmt.Sprintf("%s of %s gives %s, want %s", m, clip(full(in)), clip(full(out)), clip(full(want)))
	}
	return ""
}

// applied compares a modifier's own Apply with the chain's answer and looks at its input.
func applied(m string, in, out x.Result) string {
	mod := x.GetModifier(m)
	if mod == nil {
		return ""
	}
	before := full(in)
	r := mod.Apply(in)
	if after := full(in); after != before {
		return fmt.Sprintf("Apply of %s changes its input from %s to %s", m, clip(before), clip(after))
	}
	if !same(r, out) && m != "sort" {
		return fmt.Sprintf("Apply of %s gives %s, the path %s", m, clip(full(r)), clip(full(out)))
	}
	return step(m, in, r)
}

// ask runs the query in one of the ways to ask it.
func ask(way, doc, path string) x.Result {
	switch way {
	case "fold":
		return x.GetWithOptions(doc, path, foldOpts())
	case "bytes":
		return x.GetBytes([]byte(doc), path)
	case "fluent":
		i := strings.IndexByte(path, '.')
		if i < 0 {
			return x.Get(doc, path)
		}
		return x.Get(doc, path[:i]).Get(path[i+1:])
	case "many":
		rs := x.GetMany(doc, path, path)
		if !same(rs[0], rs[1]) {
			panic("GetMany answers differently")
		}
		return rs[1]
	}
	return x.Get(doc, path)
}

// chainSub: way, doc, path, chain of modifier names separated by blanks.
func chainSub(args []string) string {
	custom()
	return chainOne(args[0], args[1], args[2], strings.Fields(args[3]))
}

func chainOne(way, doc, path string, chain []string) string {
	cur := ask(way, doc, path)
	p := path
	for i, m := range chain {
		p += "|@" + m
		next := ask(way, doc, p)
		if cur.Type == x.Null {
			if next.Type != x.Null {
				return fmt.Sprintf("%q finds nothing, %q gives %s", path, p, clip(full(next)))
			}
		} else if i >= 20 {
			if next.Type != x.Null {
				return fmt.Sprintf("%d modifiers give %s", i+1, clip(full(next)))
			}
		} else if d := step(m, cur, next); d != "" {
			return fmt.Sprintf("%q: %s", p, d)
		} else if i == 0 {
			if d := applied(m, cur, next); d != "" {
				return fmt.Sprintf("%q: %s", p, d)
			}
		}
		cur = next
	}
	return ""
}

func lengthSub(args []string) string {
	custom()
	n, _ := strconv.Atoi(args[0])
	chain := make([]string, n)
	for i := range chain {
		chain[i] = args[1]
		if args[1] == "mix" {
			chain[i] = []string{"mark", "reverse", "sort", "ugly"}[i%4]
		}
	}
	return chainOne(args[2], "<r><a>3</a><a>1</a><a>2</a></r>", args[3], chain)
}

// formatSub: content, modifier: pretty and ugly of an element with that content.
func formatSub(args []string) string {
	doc := "<r>" + args[0] + "</r>"
	if _, err := ParseDoc(doc); err != nil {
		return ""
	}
	return formatOne(doc)
}

func formatOne(doc string) string {
	plain := x.Get(doc, "r")
	p, u := x.Get(doc, "r|@pretty"), x.Get(doc, "r|@ugly")
	if d := step("pretty", plain, p); d != "" {
		return d
	}
	if d := step("ugly", plain, u); d != "" {
		return d
	}
	// content as the caller wrote it, given to the modifier by hand
	in := x.Result{Type: x.Element, Raw: doc[len("<r>") : len(doc)-len("</r>")], Str: "s"}
	for _, m := range []string{"pretty", "ugly"} {
		if d := step(m, in, x.GetModifier(m).Apply(in)); d != "" {
			return d
		}
	}
	// both ways: formatting again changes nothing but white space
	pu, up := x.Get(doc, "r|@pretty|@ugly"), x.Get(doc, "r|@ugly|@pretty")
	if d := step("ugly", p, pu); d != "" {
		return d
	}
	if d := step("pretty", u, up); d != "" {
		return d
	}
	return ""
}

// laidOut is the first thing in markup that is not on lines of its own: elements that hold
// elements have each of them on a line, with two blanks for each level.
func laidOut(ns []*Node, level int) string {
	blank := "\n" + strings.Repeat("  ", level)
	var elems int
	for _, n := range ns {
		if n.Kind == KElem {
			elems++
		}
	}
	if elems == 0 {
		return ""
	}
	for i, n := range ns {
		if n.Kind == KElem {
			if first := i == 0 && level == 0; !first && (i == 0 || ns[i-1].Text != blank) {
				return fmt.Sprintf("<%s> is not on a line with %d blanks", n.Name, 2*level)
			}
			if d := laidOut(n.Kids, level+1); d != "" {
				return d
			}
		}
	}
	if last := ns[len(ns)-1]; level > 0 && (last.Kind == KElem || last.Text != blank[:len(blank)-2]) {
		return fmt.Sprintf("an end tag is not on a line with %d blanks", 2*(level-1))
	}
	return ""
}

// elementsOnly tells whether elements hold either elements or one text.
func elementsOnly(ns []*Node, depth int) bool {
	if depth > 100 {
		return false
	}
	for _, n := range ns {
		if n.Kind != KElem && len(ns) > 1 || n.Kind == KOpaque || !elementsOnly(n.Kids, depth+1) {
			return false
		}
	}
	return true
}

// layout checks the layout of a formatted result.
func layout(m string, in, out x.Result) string {
	ns, err := ParseContent(in.Raw)
	if err != nil {
		return ""
	}
	after, err := ParseContent(out.Raw)
	if err != nil {
		return ""
	}
	if m == "ugly" {
		var blank func(ns []*Node) bool
		blank = func(ns []*Node) bool {
			for _, n := range ns {
				if n.Kind == KText && strings.Trim(n.Text, " \t\r\n") == "" || blank(n.Kids) {
					return true
				}
			}
			return false
		}
		if blank(after) {
			return fmt.Sprintf("ugly leaves white space between tags: %q", clip(out.Raw))
		}
		return ""
	}
	if !elementsOnly(ns, 0) {
		return ""
	}
	if d := laidOut(after, 0); d != "" {
		return fmt.Sprintf("pretty turns %q into %q: %s", clip(in.Raw), clip(out.Raw), d)
	}
	return ""
}

// listSub: the texts of the members and a chain as last argument.
func listSub(args []string) string {
	n := len(args) - 1
	return listOne(args[:n], strings.Fields(args[n]))
}

func listOne(vals, chain []string) string {
	var b strings.Builder
	b.WriteString("<r>")
	for i, v := range vals {
		fmt.Fprintf(&b, `<i k="%s" n="%d">%s</i>`, xmlEsc(v), i, xmlEsc(v))
	}
	b.WriteString("</r>")
	doc := b.String()
	for _, p := range []string{"r.*", "r.i.#.@k", "r.i.#(@n>=0)#"} {
		if d := chainOne("plain", doc, p, chain); d != "" {
			return d
		}
	}
	return ""
}

// Registry: every sequence of calls from the initial registry.

type regMod struct{ id string }

func (m *regMod) Name() string { return m.id }
func (m *regMod) Apply(r x.Result) x.Result {
	return x.Result{Type: x.String, Str: m.id + "(" + r.Str + ")"}
}

var builtins = []string{"reverse", "sort", "first", "last", "flatten", "pretty", "ugly"}

func registryOps() []string {
	var ops []string
	for _, n := range []string{"u", "v", "U", "sort"} {
		ops = append(ops, "+1 "+n, "-"+n)
	}
	return append(ops, "+2 u", "+1 ", "-", "-none")
}

// spelledNames differ from registered and built-in names by little.
var spelledNames = []string{"u", "u ", " u", "\tu", "U", "@u", "u.v", "u|v", "uu", "u\x00", "sort ", " sort", "SORT", "@sort", "sor", "sorted", "é"}

// registrySub: operations.
func registrySub(args []string) string {
	names := distinct(append([]string{"u", "v", "U", "none", "", "sort", "first"}, spelledNames...))
	model := map[string]string{}
	orig := map[string]x.Modifier{}
	isBuiltin := func(n string) bool {
		for _, b := range builtins {
			if b == n {
				return true
			}
		}
		return false
	}
	for _, b := range builtins {
		orig[b] = x.GetModifier(b)
	}
	defer func() {
		for _, n := range append([]string{"v"}, spelledNames...) {
			_ = x.UnregisterModifier(n)
		}
	}()
	shared := map[string]*regMod{}
	for k, op := range args {
		if op[0] != '-' {
			id, n := op[:2], op[3:]
			m := &regMod{id + n}
			if op[0] == '=' { // one modifier for all calls
				if shared[n] == nil {
					shared[n] = m
				}
				m = shared[n]
			}
			err := x.RegisterModifier(n, m)
			_, have := model[n]
			refuse := n == "" || have || isBuiltin(n)
			if (err != nil) != refuse {
				return fmt.Sprintf("call %d RegisterModifier(%q) gives %v", k, n, err)
			}
			if !refuse {
				model[n] = id + n
			}
		} else {
			n := op[1:]
			err := x.UnregisterModifier(n)
			if isBuiltin(n) != (err != nil) {
				return fmt.Sprintf("call %d UnregisterModifier(%q) gives %v", k, n, err)
			}
			delete(model, n)
		}
		for _, n := range names {
			m := x.GetModifier(n)
			want, have := model[n]
			switch {
			case isBuiltin(n):
				if m != orig[n] {
					return fmt.Sprintf("after call %d built-in %q is %v", k, n, m)
				}
			case have:
				if m == nil || m.Name() != want {
					return fmt.Sprintf("after call %d GetModifier(%q) is %v, want %s", k, n, m, want)
				}
			case m != nil:
				return fmt.Sprintf("after call %d GetModifier(%q) is %v, want nil", k, n, m)
			}
			if strings.Trim(n, " \t") != n || strings.ContainsAny(n, "@.|\x00") || n == "" || isBuiltin(n) {
				continue
			}
			r := x.Get("<a>t</a>", "a|@"+n)
			if have && (r.Type != x.String || r.Str != want+"(t)") || !have && r.Type != x.Null {
				return fmt.Sprintf("after call %d a|@%s gives %s", k, n, full(r))
			}
		}
	}
	if r := x.Get("<r><a>2</a><a>1</a></r>", "r.*|@sort|@first"); r.Str != "1" {
		return "sort and first do not work: " + full(r)
	}
	return ""
}

func runC21(c *Ctx) {
	custom()
	// registry sequences, one after the other
	ops := registryOps()
	depth := 4
	if c.thorough {
		depth = 5
	}
	for l := 1; l <= depth && !c.Stopped(); l++ {
		product(len(ops), l, func(ix []int) {
			q := make([]string, l)
			for i, k := range ix {
				q[i] = ops[k]
			}
			c.States(1)
			if what := guarded(func() string { return registrySub(q) }); what != "" {
				c.Fail("registry", what, q...)
			}
		})
	}
	// registrations and removals of names that are spelled alike
	var spelled []string
	for _, n := range append([]string{"sort"}, spelledNames...) {
		spelled = append(spelled, "+1 "+n, "=1 "+n, "-"+n)
	}
	for l := 1; l <= depth-2 && !c.Stopped(); l++ {
		product(len(spelled), l, func(ix []int) {
			q := make([]string, l, l+1)
			for i, k := range ix {
				q[i] = spelled[k]
			}
			for _, last := range []string{"+2 u", "=1 u", "-u"} {
				r := append(q, last)
				c.States(1)
				if what := guarded(func() string { return registrySub(r) }); what != "" {
					c.Fail("registry", what, append([]string{}, r...)...)
				}
			}
		})
	}
	c.Sample("registry call sequence %q", []string{ops[0], ops[1], ops[8], ops[0]})
	// all chains for every kind of result
	mods := append(append([]string{}, builtins...), "mark", "nest", "null", "empty", "nope")
	n := 3
	if c.thorough {
		n = 4
	}
	var chains [][]string
	for l := 1; l <= n; l++ {
		product(len(mods), l, func(ix []int) {
			q := make([]string, l)
			for i, k := range ix {
				q[i] = mods[k]
			}
			chains = append(chains, q)
		})
	}
	docs := []string{
		`<r><a k="2">b</a><a k="10"><b>2</b><b j=" q ">10</b> t </a><a k="1"/><c>a<d>x  y</d></c></r>`,
		`<r k="1">t</r>`,
	}
	paths := []string{"r", "r.a", "r.a.1", "r.a.@k", "r.a.%", "r.a.#", "r.*", "r.a.#.@k", "r.a.#.b", "r.a.#(b)#", "r.a.#(@k>1)", "r.a.#(@k>1)#.@k", "r.**", "r.**.b", "r.zz", "r.a.9", "r.zz.#", "r.zz.*", "r.zz.#(b)#", "r.zz.#.b", "r.*.@k", "**.b", "*", "r.a.#(@k=='|@sort')#", "r.c.d", "**.#", "zz", "r.a.#.%", "r.@k", "r.*.%", "r.**.@j"}
	Each(c, chains, func(w int, q []string) {
		for _, p := range paths {
			for _, d := range docs {
				for _, way := range []string{"plain", "fold", "fluent"} {
					if way != "plain" && (len(q) > 2 || d == docs[1]) {
						continue
					}
					if what := guarded(func() string { return chainOne(way, d, p, q) }); what != "" {
						c.Fail("chain", what, way, d, p, strings.Join(q, " "))
					}
				}
			}
			c.States(1)
		}
	})
	for _, q := range chains[:len(mods)] {
		for _, way := range []string{"bytes", "many"} {
			for _, p := range paths {
				c.Do("chain", way, docs[0], p, strings.Join(q, " "))
			}
		}
	}
	c.Sample("Get(%q, %q)", docs[0], paths[7]+"|@"+strings.Join(chains[len(chains)/2], "|@"))
	// names next to those of modifiers name nothing
	for _, m := range append(append([]string{}, builtins...), "mark") {
		for _, name := range []string{m + ":x", m + ":", m + "()", m + "=1", m + "@", "@" + m, m + m, m + "1", m + "-", m[:len(m)-1], m[1:], strings.ToUpper(m), strings.ToUpper(m[:1]) + m[1:], m + "\u00a0x", m + "/", m + ",", m + "#"} {
			for _, way := range []string{"plain", "fold", "fluent", "bytes", "many"} {
				for _, q := range []string{name, m + " " + name, name + " " + m} {
					for _, p := range []string{"r", "r.a.@k", "r.a.#", "r.*", "r.a.#.@k", "r.zz"} {
						c.State("near", way, p, q)
						c.Do("chain", way, docs[0], p, q)
					}
				}
			}
		}
	}
	// every chain length
	for k := 0; k <= 45; k++ {
		for _, m := range append(mods, "mix") {
			for _, way := range []string{"plain", "fold", "fluent"} {
				for _, p := range []string{"r.a", "r.*", "r.a.#", "r.zz"} {
					if m == "nest" && k > 12 {
						continue // doubles in size with each step
					}
					c.State("len", strconv.Itoa(k), m, way, p)
					c.Do("length", strconv.Itoa(k), m, way, p)
				}
			}
		}
	}
	// all lists of members
	vals := []string{"2", "10", "-1", "b", "a", "", "1e1", "B", "0x8", "é", "0.5", " 3"}
	m := 4
	if c.thorough {
		m = 5
	}
	lchains := []string{"sort", "reverse", "first", "last", "flatten", "sort first", "sort reverse", "reverse sort", "sort sort", "reverse last", "mark sort", "sort last", "nums sort", "nums sort last"}
	for l := 0; l <= m; l++ {
		var lists [][]string
		product(len(vals), l, func(ix []int) {
			q := make([]string, l)
			for i, k := range ix {
				q[i] = vals[k]
			}
			lists = append(lists, q)
		})
		Each(c, lists, func(w int, q []string) {
			for _, ch := range lchains {
				f := strings.Fields(ch)
				if what := guarded(func() string { return listOne(q, f) }); what != "" {
					c.Fail("list", what, append(append([]string{}, q...), ch)...)
				}
			}
			c.States(1)
		})
	}
	// long lists: numbers and texts, in each of some orders
	max := 1100
	var lists [][]string
	for _, k := range sizes(70, max) {
		for _, pat := range []func(i int) string{
			func(i int) string { return strconv.Itoa(k - i) },
			func(i int) string { return strconv.Itoa(i) },
			func(i int) string { return strconv.Itoa((i * 7919) % 1009) },
			func(i int) string { return fmt.Sprint("s", (i*7919)%1009) },
			func(i int) string { return fmt.Sprint(float64(i%5) / 4) },
			func(i int) string {
				if i == k-1 {
					return "x"
				}
				return strconv.Itoa((i * 31) % 101)
			},
		} {
			q := make([]string, k)
			for i := range q {
				q[i] = pat(i)
			}
			lists = append(lists, q)
		}
	}
	Each(c, lists, func(w int, q []string) {
		c.State(append([]string{"long"}, q...)...)
		for _, ch := range append([]string{"nums sort"}, lchains[:8]...) {
			f := strings.Fields(ch)
			if what := guarded(func() string { return listOne(q, f) }); what != "" {
				c.Fail("list", what, append(append([]string{}, q...), ch)...)
			}
		}
	})
	// formatting of all small contents
	toks := []string{"<a>", "</a>", "<b/>", "<p:b k='1'>", "</p:b>", "<b k=\"x  y\" l='&lt;&quot;'/>", " ", "\n", "\t", "t", "u  v", "&lt;", "&amp;", "&quot;", "&gt;", "<!-- c  d -->", "<?p i?>", "é", "<b k='\t\n'/>", "&#65;", "<![CDATA[a &#34; <]]>", "<a x='1' xmlns='u' xmlns:p='v'>", "<b k='> &gt; \" '/>", "<!-- '> <![CDATA[ -->", "<b p:k='1' k='2' q:k='3'/>"}
	fl := 4
	if c.thorough {
		fl = 5
	}
	for l := 0; l <= fl; l++ {
		words(c, toks, l, func(w int, b []byte) {
			doc := "<r>" + string(b) + "</r>"
			if _, err := ParseDoc(doc); err != nil {
				return
			}
			if what := guarded(func() string { return formatOne(doc) }); what != "" {
				c.Fail("format", what, string(b))
			}
			c.States(1)
		})
	}
	// formatting of wide and deep contents
	for _, k := range sizes(130, 3000) {
		for _, e := range []string{"<a/>", "<p:a>t</p:a>", "<a><b>t</b><b k='1'/></a>", "<a>t</a> "} {
			c.State("wide", strconv.Itoa(k), e)
			c.Do("format", strings.Repeat(e, k))
		}
	}
	Each(c, lattice(reachExp(c)), func(w int, n int) {
		for _, t := range longTexts(n, []string{"<b> </b>", "<a> <b/> </a>", " ", "&lt;", "<!-- -->", "<![CDATA[ ]]>"}) {
			c.State("long", t)
			c.Do("format", t)
			c.Do("format", "<a>"+t+"</a><b x='"+strings.ReplaceAll(t, "'", "")+"'/>")
		}
		c.Do("format", strings.Repeat("<a> <b/></a>", n/12+1))
	})
	// every byte, and white space of other kinds, in texts, values and between tags
	var odd []string
	for b := 1; b < 256; b++ {
		if b != '<' && b != '&' {
			odd = append(odd, string([]byte{byte(b)}))
		}
	}
	odd = append(odd, "\u00a0", "\u0085", "\u1680", "\u2003", "\u2028", "\u2029", "\u3000", "\ufeff", "\u200b", "\ufffd")
	for _, o := range odd {
		for _, e := range []string{"%s", "<a>%s</a>", "<a/>%s<b/>", "t%su", " %s ", "<a> %s</a>", "<a><b/>%s</a>", "<a x='%s'/>", "<!--%s-->", "<![CDATA[%s]]>"} {
			if o == "'" || o == "-" {
				continue
			}
			c.State("odd", o, e)
			c.Do("format", fmt.Sprintf(e, o))
		}
	}
	for k := 1; k <= 130; k++ {
		for _, e := range []string{"", "t", "<b/><b/>", " <b>t</b> "} {
			c.State("deep", strconv.Itoa(k), e)
			c.Do("format", strings.Repeat("<a>", k)+e+strings.Repeat("</a>", k))
		}
	}
	c.Do("format", "<![CDATA[a b]]>")
	for _, s := range []docStyle{{names: ab, text: 0, attrs: 2}, {names: ab, text: 2, attrs: 1, ws: true}} {
		Each(c, forestDocs(allForests(fl+1, 2), s), func(w int, d string) {
			c.State("f", d)
			c.Do("format", d)
		})
	}
}
