package main

import (
	"fmt"
	"os"
	"runtime"
	"strings"
	"sync/atomic"

	x "verifharness/lib"
)

// querySub compares one query with the reference.
func querySub(args []string) string {
	doc, path := args[0], args[1]
	nodes, err := ParseDoc(doc)
	if err != nil {
		return ""
	}
	segs, _, ok := readPath(path)
	want := null
	if ok {
		want = Env{}.query(nodes, segs)
	}
	return diffResult(x.Get(doc, path), want)
}

type parsedDoc struct {
	text  string
	nodes []*Node
}

func parseAll(c *Ctx, docs []string) []parsedDoc {
	out := make([]parsedDoc, len(docs))
	EachN(c, len(docs), func(w, i int) {
		nodes, err := ParseDoc(docs[i])
		if err != nil {
			panic("generator produced an invalid document (" + err.msg + "): " + docs[i])
		}
		out[i] = parsedDoc{docs[i], nodes}
		c.State(docs[i])
	})
	return out
}

// runQueries compares every path on every document. Paths are the outer loop:
// the implementation remembers recent paths, so this order is much faster.
func runQueries(c *Ctx, docs []string, paths []PathCase) {
	parsed := parseAll(c, docs)
	if c.Stopped() {
		return
	}
	var idle atomic.Int64
	Each(c, paths, func(w int, p PathCase) {
		c.Begin(w, "query", docs[0], p.Text)
		found := 0
		for i := range parsed {
			if queryOne(c, parsed[i].nodes, parsed[i].text, p) {
				found++
			}
		}
		c.End(w)
		c.Count("answers that are not null", int64(found))
		if found == 0 {
			idle.Add(1)
			if os.Getenv("VERIF_VACUOUS") == "2" {
				fmt.Println("only null:", p.Text)
			}
		}
	})
	if os.Getenv("VERIF_VACUOUS") != "" {
		_, _, line, _ := runtime.Caller(1)
		fmt.Printf("%s:%d: %d docs, %d of %d paths only give null\n", c.check.ID, line, len(docs), idle.Load(), len(paths))
	}
	if len(docs) > 0 && len(paths) > 0 {
		d, p := docs[len(docs)-1], paths[len(paths)-1].Text
		if len(d) < 300 {
			c.Sample("Get(%q, %q) = %q", d, p, x.Get(d, p).String())
		}
	}
}

// queryOne compares one answer and reports whether there is one.
func queryOne(c *Ctx, nodes []*Node, doc string, p PathCase) bool {
	defer func() {
		if r := recover(); r != nil {
			c.Fail("query", fmt.Sprint("panic: ", r), doc, p.Text)
		}
	}()
	judged.Add(1)
	c.Trans(len(p.Segs) - 1)
	want := Env{}.query(nodes, p.Segs)
	if d := diffResult(x.Get(doc, p.Text), want); d != "" {
		c.Fail("query", d, doc, p.Text)
	}
	return want.T != x.Null
}

func allForests(max, labels int) [][]shape {
	var out [][]shape
	for n := 1; n <= max; n++ {
		out = append(out, forests(n, labels)...)
	}
	return out
}

func forestDocs(fs [][]shape, styles ...docStyle) []string {
	var out []string
	for _, st := range styles {
		for _, f := range fs {
			out = append(out, writeForest(f, st))
		}
	}
	return out
}

var ab = []string{"a", "b"}

func basicSteps(names []string, idx []int) [][]Seg {
	var out [][]Seg
	for _, n := range names {
		out = append(out, sq(nm(n)))
		for _, i := range idx {
			out = append(out, sq(nm(n), ix(i)))
		}
	}
	return out
}

var basicTails = [][]Seg{nil, {cnt}, {at("x")}, {at("y")}, {txt}, {fld("a")}, {fld("@x")}, {fld("%")}}

func basicPaths(names []string, idx []int, depth int) []PathCase {
	var keep [][]Seg
	for _, p := range withTails(steps(basicSteps(names, idx), depth), basicTails...) {
		// an index is not followed by a count or a field extraction
		bad := false
		for i := 1; i < len(p); i++ {
			if p[i-1].K == SIndex && (p[i].K == SCount || p[i].K == SField) {
				bad = true
			}
		}
		if !bad {
			keep = append(keep, p)
		}
	}
	return pathCases(keep)
}

func init() {
	register(&Check{ID: "C01", Run: runC01, Subs: map[string]Sub{"query": querySub}, Notes: []string{
		"documents: every ordered forest of up to 6 (thorough 7) elements over two names, in three styles up to 5 (6), confusable names, and one-dimensional sweeps of siblings, depth, attributes, name and text length",
	}})
}

func runC01(c *Ctx) {
	n, depth := 4, 3
	if c.thorough {
		n, depth = 5, 3
	}
	styles := []docStyle{
		{names: ab, text: 1, attrs: 1},
		{names: ab, text: 0, attrs: 2},
		{names: ab, text: 2, attrs: 2, ws: true},
	}
	// every small document with deep paths
	runQueries(c, forestDocs(allForests(n, 2), styles...), basicPaths([]string{"a", "b"}, []int{0, 1, 2}, depth))
	// every larger document with shorter paths
	runQueries(c, forestDocs(forests(n+1, 2), styles...), basicPaths([]string{"a", "b", "c"}, []int{0, 1, 2, 3, -1}, depth-1))
	runQueries(c, forestDocs(forests(n+2, 2), styles[1]), basicPaths([]string{"a", "b"}, []int{0, 1}, depth-1))
	// chains deeper than the path depth above
	runQueries(c, forestDocs(allForests(n, 1), docStyle{names: ab, text: 1, attrs: 1}), basicPaths([]string{"a"}, []int{0, 1}, n+1))
	runConfusable(c)
	runSweeps(c)
	runValues(c)
	nearQueries(c, nearPaths())
	runFarQueries(c)
	runLongNames(c, true, false, false)
	runLongTexts(c)
	runBelowLeaves(c)
}

// runBelowLeaves: paths that go on after an attribute, a text, a count or a field.
func runBelowLeaves(c *Ctx) {
	conds := []Seg{{K: SFilter, Cond: &Cond{sq(nm("b")), "", "", ""}}, {K: SFilter, Cond: &Cond{sq(nm("b")), "", "", ""}, All: true}}
	ends := append([]Seg{nm("b"), nm("zz"), ix(0), ix(1), ix(-1), cnt, at("x"), at("z"), txt, fld("b"), fld("@x"), fld("%"), star, deep}, conds...)
	var paths [][]Seg
	for _, pre := range [][]Seg{{}, {nm("a")}, {nm("a"), ix(0)}, {nm("a"), ix(1)}, {nm("a"), nm("a")}, {nm("a"), nm("a"), ix(0)}, {nm("a"), nm("a"), ix(1)}, {star}, {nm("a"), star}, {deep, nm("a")}, {nm("a"), deep, nm("a")}, {nm("a"), conds[0]}, {nm("a"), conds[1]}, {nm("a"), nm("a"), conds[0]}, {nm("a"), nm("a"), conds[1]}} {
		for _, leaf := range []Seg{at("x"), at("z"), txt, cnt, fld("b"), fld("@x"), fld("%")} {
			for _, end := range ends {
				p := cat(pre, sq(leaf, end))
				if got, _, _ := readPath(render(p)); len(got) != len(p) {
					continue // a count and a name are written as a field is
				}
				paths = append(paths, p, cat(p, sq(nm("b"))), cat(p, sq(at("x"))))
			}
		}
	}
	docs := forestDocs(allForests(3, 2), docStyle{names: ab, text: 1, attrs: 2})
	docs = append(docs, "<a x='1'>t<a x='2'>u<b x='3'>v</b></a><a><b>w</b><b/></a></a>", "<a x='1'>t<b>u</b></a><a x='2'>v<b>w</b></a>")
	runQueries(c, docs, pathCases(paths))
}

// runConfusable: siblings whose names are prefixes, extensions or case variants
// of each other, in every order of three, queried by every name.
func runConfusable(c *Ctx) {
	names := []string{"a", "aa", "ab", "A", "a-b", "a.b", "a_b", "a1", "a1-", "_a", "aaa", "b", "ba"}
	var docs []string
	product(len(names), 3, func(i []int) {
		docs = append(docs, fmt.Sprintf(`<r><%[1]s %[1]s="1" %[2]s="2">p</%[1]s><%[2]s %[2]s="3" %[3]s="4"><%[3]s>q</%[3]s></%[2]s><%[3]s %[1]s="5">s</%[3]s></r>`, names[i[0]], names[i[1]], names[i[2]]))
	})
	var paths [][]Seg
	for _, n := range names {
		for _, t := range [][]Seg{nil, {cnt}, {txt}, {ix(0)}, {ix(1)}, {ix(2)}} {
			paths = append(paths, cat(sq(nm("r"), nm(n)), t))
		}
		for _, m := range names {
			paths = append(paths, sq(nm("r"), nm(n), nm(m)), sq(nm("r"), nm(n), at(m)))
			if fieldName(m) {
				paths = append(paths, sq(nm("r"), nm(n), fld(m)), sq(nm("r"), nm(n), fld("@"+m)))
			}
		}
	}
	runQueries(c, docs, pathCases(paths))
}

// runValues: every byte and every pair of interesting pieces as text and as
// attribute value, read back as text, attribute, direct text and raw.
func runValues(c *Ctx) {
	var vals []string
	for b := 0; b < 256; b++ {
		if b != '<' && b != '&' && b != '"' && b != '\'' {
			vals = append(vals, string([]byte{byte(b)}), "k"+string([]byte{byte(b)})+"m")
		}
	}
	pieces := []string{"&lt;", "&gt;", "&amp;", "&quot;", "&apos;", "&#65;", "&x;", "&", ";", "lt;", "a", " ", "\n", "\t", ">", "/", "=", "]]", "é", " ", " ", "\u0085", "日", "\x80", "--", "?", "!", "#", "0", "-1", "amp;"}
	vals = append(vals, strs(pieces, 2)...)
	if c.thorough {
		vals = append(vals, strs(pieces, 3)...)
	}
	var docs []string
	for _, v := range vals {
		docs = append(docs, `<r><a x="`+v+`" y='`+v+`'>`+v+`<b>`+v+`</b>`+v+`</a><a>`+v+`</a></r>`)
	}
	a := sq(nm("r"), nm("a"))
	runQueries(c, docs, pathCases(append(withTails([][]Seg{a}, nil, sq(at("x")), sq(at("y")), sq(txt), sq(nm("b")), sq(nm("b"), txt), sq(ix(1)), sq(ix(1), txt), sq(fld("%")), sq(fld("@x")), sq(fld("b")), sq(cnt)), sq(nm("r")), sq(nm("r"), txt))))
}

// A Sweep is a document family along one dimension with the paths that matter.
type Sweep struct {
	Name  string
	Doc   string
	Paths [][]Seg
}

func rep(n int, f func(i int) string) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteString(f(i))
	}
	return b.String()
}

// sweeps varies one dimension at a time over every small value and the
// neighbourhoods of larger ones.
func sweeps(thorough bool) []Sweep {
	var out []Sweep
	add := func(name, doc string, paths ...[]Seg) { out = append(out, Sweep{name, doc, paths}) }
	dense := 70
	if thorough {
		dense = 300
	}
	// siblings of one name, with another name in front, between and behind
	for _, n := range sizes(dense, 1100) {
		if n == 0 {
			continue
		}
		item := func(i int) string { return fmt.Sprintf(`<i x="%d"><v>%d</v></i>`, i, i*7) }
		doc := "<r>" + rep(n, item) + "</r>"
		mixed := "<r><o>z</o>" + rep(n, func(i int) string { return item(i) + "<o>y</o>" }) + "</r>"
		for _, d := range []string{doc, mixed} {
			p := [][]Seg{{nm("r"), nm("i"), cnt}, {nm("r"), nm("i"), fld("v")}, {nm("r"), nm("i"), fld("@x")}, {nm("r"), nm("o"), cnt}, {nm("r")}}
			for _, k := range []int{0, 1, 2, n / 2, n - 2, n - 1, n, n + 1} {
				if k >= 0 {
					p = append(p, sq(nm("r"), nm("i"), ix(k)), sq(nm("r"), nm("i"), ix(k), at("x")), sq(nm("r"), nm("i"), ix(k), nm("v")), sq(nm("r"), nm("i"), ix(k), nm("v"), txt))
				}
			}
			add("siblings", d, p...)
		}
		// each sibling has its own name: the last one is wanted
		if n <= dense {
			d := "<r>" + rep(n, func(i int) string { return fmt.Sprintf("<n%d y='%d'>w%d</n%d>", i, i, i, i) }) + "</r>"
			var p [][]Seg
			for k := 0; k < n; k++ {
				p = append(p, sq(nm("r"), nm(fmt.Sprint("n", k))), sq(nm("r"), nm(fmt.Sprint("n", k)), at("y")))
			}
			add("names", d, p...)
			// many roots
			d = rep(n, func(i int) string { return fmt.Sprintf("<q x='%d'>w%d</q>", i, i) })
			p = [][]Seg{{nm("q"), cnt}, {nm("q"), fld("@x")}}
			for k := 0; k <= n; k++ {
				p = append(p, sq(nm("q"), ix(k)), sq(nm("q"), ix(k), at("x")))
			}
			add("roots", d, p...)
		}
	}
	// depth 1..100, same name and alternating names
	for n := 1; n <= 100; n++ {
		for _, alt := range []bool{false, true} {
			name := func(i int) string {
				if alt {
					return fmt.Sprint("d", i%3)
				}
				return "d"
			}
			open := rep(n, func(i int) string { return fmt.Sprintf("<%s x='%d'>s%d", name(i), i, i) })
			cl := rep(n, func(i int) string { return fmt.Sprintf("e%d</%s>", i, name(n-1-i)) })
			var full []Seg
			for i := 0; i < n; i++ {
				full = append(full, nm(name(i)))
			}
			var p [][]Seg
			for _, k := range []int{1, 2, n / 2, n - 1, n} {
				if k >= 1 && k <= n {
					p = append(p, withTails([][]Seg{full[:k]}, nil, sq(txt), sq(at("x")), sq(cnt))...)
				}
			}
			keep := p[:0]
			for _, s := range p {
				if len(s) <= maxSegments {
					keep = append(keep, s)
				}
			}
			add("depth", open+cl, keep...)
		}
	}
	// deep content in front of the target
	for n := 1; n <= 97; n++ {
		in := strings.Repeat("<d>", n) + "q" + strings.Repeat("</d>", n)
		add("deepsibling", "<r><a>"+in+"</a><b y='1'>after</b></r>", sq(nm("r"), nm("b")), sq(nm("r"), nm("b"), at("y")), sq(nm("r"), nm("a"), nm("d")), sq(nm("r"), nm("a")))
	}
	// attributes 0..100
	for n := 0; n <= 100; n++ {
		d := "<r><a" + rep(n, func(i int) string { return fmt.Sprintf(` k%d="v%d"`, i, i) }) + ">t</a><a z='9'>u</a></r>"
		p := [][]Seg{{nm("r"), nm("a")}, {nm("r"), nm("a"), ix(1), at("z")}, {nm("r"), nm("a"), cnt}, {nm("r")}}
		for k := 0; k <= n; k++ {
			p = append(p, sq(nm("r"), nm("a"), at(fmt.Sprint("k", k))))
		}
		add("attrs", d, p...)
	}
	// lengths of names, attribute names, values and texts
	for _, n := range sizes(dense, 70000) {
		if n == 0 {
			continue
		}
		nmL := strings.Repeat("n", n)
		v := strings.Repeat("v", n-1) + "w"
		add("namelen", "<r><"+nmL+"m>no</"+nmL+"m><"+nmL+" q='1'>yes</"+nmL+"><z>end</z></r>", sq(nm("r"), nm(nmL)), sq(nm("r"), nm(nmL), at("q")), sq(nm("r"), nm(nmL+"m")), sq(nm("r"), nm(nmL), cnt), sq(nm("r"), nm("z")))
		add("attrlen", "<r><a "+nmL+"m='0' "+nmL+"='1' z='2'>t</a></r>", sq(nm("r"), nm("a"), at(nmL)), sq(nm("r"), nm("a"), at(nmL+"m")), sq(nm("r"), nm("a"), at("z")))
		add("vallen", "<r><a x='"+v+"' y=\""+v+"\">"+v+"</a><b>"+v+"<c>"+v+"</c></b></r>", sq(nm("r"), nm("a")), sq(nm("r"), nm("a"), at("x")), sq(nm("r"), nm("a"), at("y")), sq(nm("r"), nm("b")), sq(nm("r"), nm("b"), txt), sq(nm("r"), nm("b"), nm("c")))
		ws := strings.Repeat(" \n", n)
		add("wslen", ws+"<r "+ws+">"+ws+"<a "+ws+"x"+ws+"="+ws+"'1'"+ws+">"+ws+"t"+ws+"</a"+ws+">"+ws+"<b"+ws+"/>"+ws+"<c>u</c>"+ws+"</r>"+ws, sq(nm("r"), nm("a")), sq(nm("r"), nm("a"), at("x")), sq(nm("r"), nm("b")), sq(nm("r"), nm("c")), sq(nm("r"), nm("c"), cnt))
		op := strings.Repeat("<a>", n)
		add("opaquelen", "<?p "+strings.Repeat("<a", n)+"?><r><!--"+op+"--><![CDATA["+op+"]]><a>t</a><!--"+strings.Repeat("</r>", n)+"--><a>u</a></r>", sq(nm("r"), nm("a")), sq(nm("r"), nm("a"), ix(1)), sq(nm("r"), nm("a"), cnt))
		var ents = strings.Repeat("&amp;", n)
		add("entities", "<r><a x='"+ents+"'>"+ents+"</a></r>", sq(nm("r"), nm("a")), sq(nm("r"), nm("a"), at("x")))
		if n <= 400 {
			cc := rep(n, func(i int) string { return fmt.Sprintf("<!--c%d--><?p%d?>", i, i) })
			add("manyopaque", cc+"<r>"+cc+"<a>t"+cc+"u</a>"+cc+"</r>"+cc, sq(nm("r"), nm("a")), sq(nm("r"), nm("a"), txt), sq(nm("r")))
		}
	}
	return out
}

func runSweeps(c *Ctx) {
	runSweepList(c, sweeps(c.thorough))
	runSweepList(c, nameSweeps(c.thorough))
}
