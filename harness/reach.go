package main

import (
	"fmt"
	"strings"

	x "verifharness/lib"
)

// Scale: the same decisions far from the start of names, values, fragments,
// documents and batches. What happens at one place must not depend on how much
// stands before it.

// lattice lists the lengths around every power of two up to the given one, and powers of ten.
func lattice(exp int) []int {
	var out []int
	for e := 3; e <= exp; e++ {
		out = append(out, 1<<e-1, 1<<e, 1<<e+1)
	}
	for n := 100; n < 1<<exp; n *= 10 {
		out = append(out, n, n+1)
	}
	return out
}

func reachExp(c *Ctx) int {
	if c.thorough {
		return 19
	}
	return 17
}

func xs(n int) string { return strings.Repeat("x", n) }

// longNames are pairs of names of n characters that differ in one place, in case, or in length.
func longNames(n int) [][2]string {
	v := strings.Repeat("n", n)
	return [][2]string{{v, v}, {v, v[:n-1] + "m"}, {v, v[:n/2] + "m" + v[n/2+1:]}, {v, "m" + v[1:]}, {v, v[:n-1] + "N"}, {v, v + "n"}, {v + "n", v}, {"p:" + v, "q:" + v}, {v[:n-1] + "1", v[:n-1] + "2"}}
}

// longNameJobs calls f for documents with elements and attributes with long names and paths to them.
func longNameJobs(c *Ctx, queries bool, f func(a, b, doc string, nodes []*Node, paths []PathCase)) {
	var lens []int
	for n := 2; n <= 70; n++ {
		lens = append(lens, n)
	}
	exp := 10
	if c.thorough {
		exp = 13
	}
	for _, n := range lattice(exp) {
		if n > 70 {
			lens = append(lens, n)
		}
	}
	type job struct{ a, b string }
	var jobs []job
	for _, n := range lens {
		for _, p := range longNames(n) {
			jobs = append(jobs, job{p[0], p[1]})
		}
	}
	Each(c, jobs, func(w int, j job) {
		docs := []string{
			fmt.Sprintf("<r><%[1]s>1</%[1]s><%[2]s>2</%[2]s></r>", j.a, j.b),
			fmt.Sprintf("<r><%[1]s><%[2]s>2</%[2]s>3</%[1]s><i/></r>", j.a, j.b),
			fmt.Sprintf("<r %[1]s='1'><i %[1]s='3'/></r>", j.a),
			fmt.Sprintf("<%[1]s>1</%[1]s>", j.a),
		}
		if j.a != j.b {
			docs = append(docs, fmt.Sprintf("<r %[1]s='1' %[2]s='2'><i %[2]s='3'/></r>", j.a, j.b))
		}
		paths := pathCases([][]Seg{{nm("r"), nm(j.b)}, {nm("r"), nm(j.a), nm(j.b)}, {nm("r"), at(j.b)}, {nm("r"), nm("i"), at(j.b)}, {nm(j.b)}, {nm(j.b), nm("k")}, {nm("r"), nm(j.b), ix(1)}, {nm("r"), nm(j.b), ix(-1)}, {nm("r"), nm(j.b), at("x")}})
		if queries {
			paths = append(paths, pathCases([][]Seg{{nm("r"), nm(j.b), cnt}, {nm("r"), nm(j.a), nm(j.b), cnt}})...)
			if len(j.b) < 250 {
				paths = append(paths, pathCases([][]Seg{{nm("r"), nm(j.a), fld(j.b)}, {nm("r"), nm("i"), fld("@" + j.b)}})...)
			}
		}
		for _, d := range docs {
			nodes, err := ParseDoc(d)
			if err != nil {
				panic("long names")
			}
			c.State("names", d, j.b)
			f(j.a, j.b, d, nodes, paths)
		}
	})
}

// runLongNames asks for and edits elements and attributes with long names.
func runLongNames(c *Ctx, queries, sets, deletes bool) {
	longNameJobs(c, queries, func(a, b, d string, nodes []*Node, paths []PathCase) {
		for _, p := range paths {
			query := p.Segs[len(p.Segs)-1].K == SCount || p.Segs[len(p.Segs)-1].K == SField
			if queries && !strings.Contains(p.Text, "-1") {
				queryOne(c, nodes, d, p)
			}
			if sets && !query {
				if what := guarded(func() string { return setOne(d, p.Text, p.Segs, "s:v") }); what != "" {
					c.Fail("set", what, d, p.Text, "s:v")
				}
			}
			if deletes && !query {
				if what := guarded(func() string { return deleteOne(d, p.Text, p.Segs) }); what != "" {
					c.Fail("delete", what, d, p.Text)
				}
			}
		}
	})
}

// runLongFolded asks for and edits elements and attributes with long names, letter case ignored.
func runLongFolded(c *Ctx) {
	longNameJobs(c, true, func(a, b, d string, nodes []*Node, paths []PathCase) {
		if a != b && strings.EqualFold(a, b) && strings.HasPrefix(d, "<r "+a+"='1' "+b) {
			return // repeated when folded
		}
		fail := func(sub, what string, args ...string) {
			if what != "" {
				c.Fail(sub, what, args...)
			}
		}
		for _, p := range paths {
			segs := p.Segs
			query := segs[len(segs)-1].K == SCount || segs[len(segs)-1].K == SField
			variants := []PathCase{p}
			for _, f := range []func(string) string{strings.ToUpper, func(s string) string { return strings.ToUpper(s[:1]) + s[1:] }, func(s string) string { return s[:len(s)-1] + strings.ToUpper(s[len(s)-1:]) }, func(s string) string { return s[:len(s)/2] + strings.ToUpper(s[len(s)/2:]) }} {
				variants = append(variants, recased(p, f))
			}
			for _, v := range variants {
				judged.Add(1)
				if !strings.Contains(v.Text, "-1") {
					fail("fold", guarded(func() string { return foldOne(nodes, d, v.Text, v.Segs) }), d, v.Text)
				}
				if !query {
					fail("foldset", guarded(func() string { return foldSetOne(d, v.Text, v.Segs) }), d, v.Text)
					fail("folddelete", guarded(func() string { return foldDeleteOne(d, v.Text, v.Segs) }), d, v.Text)
				}
			}
		}
		c.Do("foldfluent", d, "r", strings.ToUpper(b))
		c.Do("foldfluent", strings.ToUpper(d), "r", b)
	})
}

// recased is a path with the letters of its names changed.
func recased(p PathCase, f func(string) string) PathCase {
	segs := append([]Seg(nil), p.Segs...)
	for i := range segs {
		if segs[i].Name != "" {
			segs[i].Name = f(segs[i].Name)
		}
	}
	return PathCase{segs, render(segs)}
}

// runLongPrefixes asks for and edits elements whose prefixes have every length up to the limit.
func runLongPrefixes(c *Ctx) {
	var lens []int
	for n := 1; n <= 255; n++ {
		if n <= 70 || n >= 120 && n <= 136 || n >= 248 || c.thorough {
			lens = append(lens, n)
		}
	}
	Each(c, lens, func(w int, n int) {
		v := strings.Repeat("p", n)
		names := []string{v + ":a", v[:n-1] + "q:a", "q" + v[1:] + ":a", "a", v + ":b", "p:a"}
		var b strings.Builder
		for i, a := range names {
			fmt.Fprintf(&b, "<%s x='%d'>t%d<%s/></%s>", a, i, i, names[(i+1)%len(names)], a)
		}
		for _, doc := range []string{"<r>" + b.String() + "</r>", "<" + names[0] + ">" + b.String() + "</" + names[0] + ">"} {
			nodes, err := ParseDoc(doc)
			if err != nil {
				panic("long prefixes")
			}
			c.State(doc)
			root := nodes[0].Name
			for _, a := range names {
				for _, p := range pathCases([][]Seg{{nm(root), nm(a)}, {nm(root), nm(a), ix(1)}, {nm(root), nm(a), at("x")}, {nm(root), nm(a), nm(names[1])}, {nm(root), nm(a), nm("n")}}) {
					queryOne(c, nodes, doc, p)
					if what := guarded(func() string { return setOne(doc, p.Text, p.Segs, "s:v") }); what != "" {
						c.Fail("set", what, doc, p.Text, "s:v")
					}
					if what := guarded(func() string { return deleteOne(doc, p.Text, p.Segs) }); what != "" {
						c.Fail("delete", what, doc, p.Text)
					}
				}
				for _, p := range pathCases([][]Seg{{nm(root), nm(a), cnt}, {nm(root), deep, nm(a)}, {star, nm(a)}}) {
					queryOne(c, nodes, doc, p)
				}
			}
		}
	})
}

// longNumbers are numbers spelled with n zeros.
func longNumbers(n int) []string {
	z := strings.Repeat("0", n)
	return []string{z + "5", z, "-" + z + "5", "+" + z + "5", "5." + z, "5." + z + "1", "0." + z + "5", "5" + z, "-5" + z, "5e" + z + "1", "5e-" + z + "1", z + "5e1", z + "x", "5" + z + "x", "5." + z + ".", "5." + z + "10", "5" + z + "5", "5" + z + "50"}
}

// runLongNumbers compares numbers spelled at every length.
func runLongNumbers(c *Ctx) {
	var lens []int
	for n := 1; n <= 245; n++ {
		lens = append(lens, n)
	}
	Each(c, lens, func(w int, n int) {
		few := []string{"5", "4", "6", "0", "-5", "50", "1e300"}
		ask := func(items, vals []string) {
			var b strings.Builder
			for _, a := range items {
				b.WriteString(`<i x="` + a + `"><k>` + a + `</k></i>`)
			}
			doc := "<r>" + b.String() + "</r>"
			nodes, err := ParseDoc(doc)
			if err != nil {
				panic("long numbers")
			}
			c.State(doc)
			for _, v := range vals {
				for _, op := range []string{"<", ">", "<=", ">=", "==", "!="} {
					for _, o := range []Seg{at("x"), nm("k")} {
						s := sq(nm("r"), nm("i"), Seg{K: SFilter, Cond: &Cond{sq(o), op, v, "'"}, All: true})
						queryOne(c, nodes, doc, PathCase{s, render(s)})
					}
				}
			}
		}
		l := longNumbers(n)
		ask(l, few)
		if n <= 235 {
			ask(append(few, l...), l)
		}
	})
}

// longTexts have one special piece at the start, in the middle or at the end of long filling.
func longTexts(n int, pieces []string) []string {
	var out []string
	for _, p := range pieces {
		out = append(out, p+xs(n), xs(n/2)+p+xs(n-n/2), xs(n)+p, xs(n)+p+"y")
	}
	return out
}

// runLongTexts asks for texts and attribute values with references far inside.
func runLongTexts(c *Ctx) {
	paths := pathCases([][]Seg{{nm("r"), nm("a")}, {nm("r"), nm("a"), txt}, {nm("r"), nm("a"), at("x")}, {nm("r"), nm("a"), nm("b")}, {nm("r"), nm("a"), ix(1)}, {nm("r"), nm("a"), fld("%")}, {nm("r"), nm("a"), fld("@x")}, {nm("r"), nm("a"), cnt}, {nm("r")}})
	Each(c, lattice(reachExp(c)), func(w int, n int) {
		for _, t := range longTexts(n, []string{"&lt;", "&amp;lt;", "&quot;&apos;&gt;", "<!--c-->", "<![CDATA[<b>&amp;]]>", "<?p ?>", " ", "é", "<b/>", "<b>2</b>"}) {
			av := strings.ReplaceAll(t, "<!", "&gt;")
			doc := `<r><a x="` + av + `">` + t + `</a><a x='2'>3</a></r>`
			nodes, err := ParseDoc(doc)
			if err != nil {
				panic("long texts " + err.msg)
			}
			c.State(doc)
			for _, p := range paths {
				queryOne(c, nodes, doc, p)
			}
		}
	})
}

// runLongValues sets values with a special piece far inside.
func runLongValues(c *Ctx, one func(doc, path string, segs []Seg, value string) string) {
	type target struct {
		doc string
		p   PathCase
	}
	var targets []target
	for _, d := range []struct {
		doc  string
		segs []Seg
	}{{"<r><a x='1'>t</a><b/></r>", sq(nm("r"), nm("a"))}, {"<r><a x='1'>t</a><b/></r>", sq(nm("r"), nm("a"), at("x"))}, {"<r/>", sq(nm("r"), nm("n"))}, {"<r><a/></r>", sq(nm("r"), nm("a"), ix(-1))}} {
		targets = append(targets, target{d.doc, pathCases([][]Seg{d.segs})[0]})
	}
	Each(c, lattice(reachExp(c)), func(w int, n int) {
		for _, v := range longTexts(n, []string{"<", "&", "\"", "'", ">", "&amp;", "</r>", "<!--", "]]>", "é", "\n", "\""}) {
			for _, t := range targets {
				c.State(t.doc, t.p.Text, v)
				if what := guarded(func() string { return one(t.doc, t.p.Text, t.p.Segs, "s:"+v) }); what != "" {
					c.Fail("set", what, t.doc, t.p.Text, "s:"+v)
				}
			}
		}
	})
}

// runLongOpaques puts tag-like payload far inside opaque constructs, before and after elements.
func runLongOpaques(c *Ctx, paths []PathCase) {
	Each(c, lattice(reachExp(c)), func(w int, n int) {
		for _, o := range []struct{ open, close string }{{"<!--", "-->"}, {"<![CDATA[", "]]>"}, {"<?p ", "?>"}, {"<!DOCTYPE r [<!ENTITY e '", "'>]>"}, {"<!DOCTYPE r [<!--", "-->]>"}} {
			for _, p := range []string{"<b>n</b>", "</a>", "<a>", "</r>", "<", ">", "'x"} {
				if p == "'x" && strings.Contains(o.open, "'") {
					continue
				}
				for _, t := range []string{p + xs(n), xs(n) + p, xs(n/2) + p + xs(n-n/2)} {
					k := o.open + t + o.close
					for _, doc := range []string{"<r><a>1" + k + "<b>2</b></a><a x='3'/><b/></r>", "<r>" + k + "<a>1</a><b x='1'>2</b></r>"} {
						nodes, err := ParseDoc(doc)
						if err != nil {
							panic("long constructs " + err.msg)
						}
						c.State(doc)
						for _, q := range paths {
							queryOne(c, nodes, doc, q)
						}
					}
				}
			}
		}
	})
}

// farFaults are texts whose fault lies far from their start, and long names.
func farFaults(c *Ctx) []string {
	var out []string
	faults := []string{"</b>", "<1/>", "<b x/>", "<b x=1/>", "<b", "<b></c>", "<!--", "<!-- -- -->", "<![CDATA[", "<?p", "<b x='", "</r>t", "</r></r>", "", "<b/>", "<c></c >"}
	for _, n := range lattice(reachExp(c)) {
		pads := []string{xs(n), strings.Repeat("\n", n), "<!--" + xs(n) + "-->", "<e x='" + xs(n) + "'/>", strings.Repeat("é", n/2), "<![CDATA[" + xs(n) + "]]>", "<?p " + xs(n) + "?>", strings.Repeat("<e/>", n/4), strings.Repeat("y\n", n/2)}
		for i, p := range pads {
			for _, f := range faults {
				if i > 1 && n > 1<<12 && n&(n-1) != 0 && !c.thorough {
					continue // quick: only the powers of two themselves
				}
				out = append(out, "<r>"+p+f+"</r>", "<r>"+p+f)
			}
		}
	}
	var lens []int
	for n := 2; n <= 300; n++ {
		lens = append(lens, n)
	}
	for _, n := range lattice(reachExp(c)) {
		if n > 300 {
			lens = append(lens, n)
		}
	}
	for _, n := range lens {
		for _, p := range longNames(n) {
			out = append(out, "<"+p[0]+"></"+p[1]+">", "<r><"+p[0]+">\n</"+p[1]+" ></r>")
		}
		for _, bad := range []string{"/", "!", "<", "é", "=", "\x00"} {
			out = append(out, "<"+xs(n)+bad+"/>", "<a "+xs(n)+bad+"='1'/>", "<a></a"+xs(n)+bad+">")
		}
	}
	return out
}

// farRaws are fragments with an offence far inside, or without one.
func farRaws(c *Ctx) []string {
	var out []string
	offences := []string{"", "</r>", "</a><a>", "<b>", "<b x=1/>", "<!DOCTYPE r>", "<!entity e 'v'>", "<![CDATA[a<![CDATA[b]]>", "<![CDATA[", "<!--", "<!-- -- -->", "<", "<b></c>", "<b/>", "<b>t</b>", "<?p", "<!--k-->", "&lt;"}
	for _, n := range lattice(reachExp(c)) {
		for _, p := range []string{xs(n), "<!--" + xs(n) + "-->", "<![CDATA[" + xs(n) + "]]>", "<e x='" + xs(n) + "'/>", strings.Repeat("<e/>", n/4)} {
			for _, o := range offences {
				out = append(out, p+o, o+p, p+o+p)
			}
		}
		out = append(out, "<![CDATA["+xs(n)+"<![CDATA["+"]]>", "<![CDATA["+xs(n)+"<![CDATA["+xs(n)+"]]>", "<!--"+xs(n)+"--"+xs(n)+"-->", "<a x='"+xs(n)+"<' y=\""+xs(n)+">\"/>")
		for _, q := range longNames(n) {
			out = append(out, "<"+q[0]+">t</"+q[1]+">")
		}
	}
	return out
}

// longBatchSub: kind, number of steps, position of the failing step (or -1).
func longBatchSub(args []string) string {
	n, f := num(args[1]), num(args[2])
	switch args[0] {
	case "set":
		a := []string{"<r><p0/></r>"}
		for i := 0; i < n; i++ {
			p, v := fmt.Sprintf("r.p%d", i), fmt.Sprintf("i:%d", i)
			switch {
			case i == f:
				p = "r.1x"
			case i%7 == 3:
				p = fmt.Sprintf("r.p%d.@k", i-1)
			case i%7 == 5:
				p = "r.q.-1"
			case i%7 == 6:
				p, v = fmt.Sprintf("r.p%d", i-2), "n:"
			}
			a = append(a, p, v)
		}
		return batchSub(a)
	case "delete":
		var b strings.Builder
		a := []string{""}
		for i := 0; i < n; i++ {
			fmt.Fprintf(&b, "<p%d k='1'>t</p%d>", i, i)
			p := fmt.Sprintf("r.p%d", i)
			switch {
			case i == f:
				p = "r.#"
			case i%7 == 3:
				p += ".@k"
			}
			a = append(a, p)
		}
		a[0] = "<r>" + b.String() + "<z/></r>"
		return deletesSub(a)
	}
	// get: one answer per path, in order, from the document and from its root
	var b strings.Builder
	var full, rest []string
	for i := 0; i < n; i++ {
		fmt.Fprintf(&b, "<p%d>%d</p%d>", i, i, i)
		full, rest = append(full, fmt.Sprintf("r.p%d", i)), append(rest, fmt.Sprintf("p%d", i))
	}
	doc := "<r>" + b.String() + "<z/></r>"
	rs, fs := x.GetMany(doc, full...), x.RGetMany(x.Get(doc, "r"), rest...)
	if len(rs) != n || len(fs) != n {
		return fmt.Sprintf("%d paths give %d and %d answers", n, len(rs), len(fs))
	}
	for i := range rs {
		if want := fmt.Sprint(i); rs[i].String() != want || fs[i].String() != want {
			return fmt.Sprintf("answer %d of %d is %q and %q, want %q", i, n, rs[i].String(), fs[i].String(), want)
		}
	}
	return ""
}

// runLongBatches runs batches of every length up to 150 and around powers of two.
func runLongBatches(c *Ctx, kinds ...string) {
	max := 300
	if c.thorough {
		max = 1100
	}
	type job struct {
		kind string
		n, f int
	}
	var jobs []job
	for _, n := range sizes(150, max) {
		for _, k := range kinds {
			jobs = append(jobs, job{k, n, -1})
			if k != "get" && n > 0 {
				jobs = append(jobs, job{k, n, 0}, job{k, n, n / 2}, job{k, n, n - 1})
			}
		}
	}
	Each(c, jobs, func(w int, j job) {
		c.State("batch", j.kind, fmt.Sprint(j.n, j.f))
		c.Do("longbatch", j.kind, fmt.Sprint(j.n), fmt.Sprint(j.f))
	})
}
