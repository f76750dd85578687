package main

import (
	"fmt"
	"strings"

	x "verifharness/lib"
)

func init() {
	subs := map[string]Sub{"set": setSub, "delete": deleteSub}
	register(&Check{ID: "C06", Run: runC06, Subs: subs})
	register(&Check{ID: "C07", Run: runC07, Subs: subs})
	register(&Check{ID: "C08", Run: runC08, Subs: subs})
	register(&Check{ID: "C09", Run: runC09, Subs: map[string]Sub{"set": setSub, "appends": appendsSub}})
	register(&Check{ID: "C10", Run: runC10, Subs: subs})
}

// runSets sets every value at every path of every document.
func runSets(c *Ctx, docs []string, paths []PathCase, values []string) {
	Each(c, paths, func(w int, p PathCase) {
		for _, d := range docs {
			for _, v := range values {
				c.Begin(w, "set", d, p.Text, v)
				if what := guarded(func() string { return setOne(d, p.Text, p.Segs, v) }); what != "" {
					c.Fail("set", what, d, p.Text, v)
				}
			}
			if c.Stopped() {
				break
			}
		}
		c.End(w)
	})
	for _, d := range docs {
		c.State(d)
	}
	if len(docs) > 0 {
		d, p := docs[len(docs)/2], paths[len(paths)/2]
		if len(d) < 200 {
			got, err := x.Set(d, p.Text, decodeValue(values[0]))
			c.Sample("Set(%q, %q, %q) = %q, %v", d, p.Text, values[0], clip(got), err)
		}
	}
}

func runDeletes(c *Ctx, docs []string, paths []PathCase) {
	Each(c, paths, func(w int, p PathCase) {
		for _, d := range docs {
			c.Begin(w, "delete", d, p.Text)
			if what := guarded(func() string { return deleteOne(d, p.Text, p.Segs) }); what != "" {
				c.Fail("delete", what, d, p.Text)
			}
			if c.Stopped() {
				break
			}
		}
		c.End(w)
	})
	for _, d := range docs {
		c.State(d)
	}
	if len(docs) > 0 {
		d, p := docs[len(docs)/2], paths[len(paths)/2]
		if len(d) < 200 {
			got, err := x.Delete(d, p.Text)
			c.Sample("Delete(%q, %q) = %q, %v", d, p.Text, clip(got), err)
		}
	}
}

// setPaths are paths of names and indices with optional attribute.
func setPaths(names []string, idx []int, depth int, tails ...[]Seg) []PathCase {
	return pathCases(withTails(steps(basicSteps(names, idx), depth), tails...))
}

// spelled are documents in every legal spelling of tags, quotes, white space
// and opaque constructs around the targets a and b.
func spelledDocs() []string {
	open := []string{"<a>", "<a >", "<a\n>", `<a x="1">`, `<a x='1'>`, `<a x = "1" y='2'>`, `<a x="p>q" y="</a>">`, `<a y='say "hi"' x="it's">`, `<a x="&lt;&amp;&quot;&apos;&#65;">`, `<a x="1"y="2">`, "<a\tx=\"1\"\n  y=\"2\"\r\n>", `<a x="" y=''>`, `<a x="1" x="2">`}
	inner := []string{"", "t", " t ", "<b/>", "<b>u</b>", "t<b>u</b>v", "<!--<b>no</b>--><b>u</b>", "<![CDATA[<b>no</b></a>]]><b>u</b>", "<?pi <b> ?><b >u</b >", "&lt;b&gt;<b>&amp;</b>", "<b/><b>2</b>", "<a><b>deep</b></a><b>u</b>", "<c><b>other</b></c>", "x > y<b>u</b>", "<b x='9' />\n<b\n/>"}
	cl := []string{"</a>", "</a >", "</a\n>"}
	wrap := [][2]string{{"", ""}, {"<?xml version=\"1.0\"?>\n<!DOCTYPE r [<!ENTITY e \"<a>\">]>\n<r>", "\n</r>\n"}, {"<r z='0'> <a/>", "<!--e--></r>"}, {"<q/>", "<q>w</q><!-- end -->"}}
	var out []string
	for _, w := range wrap {
		for _, o := range open {
			for _, i := range inner {
				for _, k := range cl {
					out = append(out, w[0]+o+i+k+w[1])
				}
			}
		}
		for _, o := range open {
			out = append(out, w[0]+strings.TrimSuffix(o, ">")+"/>"+w[1])
		}
	}
	return out
}

func runC06(c *Ctx) {
	// values: every byte, every pair and triple of special pieces
	var vals []string
	for b := 0; b < 256; b++ {
		vals = append(vals, "s:"+string([]byte{byte(b)}), "s:k"+string([]byte{byte(b)})+"m")
	}
	pieces := []string{"<", ">", "&", `"`, "'", "a", " ", "/", "]]>", "<!--", "-->", "&lt;", "&#60;", ";", "=", "\n", "é", "</a>", "<b>", "<?", "?>", "<![CDATA[", "\x00", "%", "\\", "amp;"}
	for _, s := range strs(pieces, 2) {
		vals = append(vals, "s:"+s)
	}
	deepVals := strs([]string{"<", ">", "&", `"`, "'", "a", " ", ";", "/"}, 4)
	if c.thorough {
		deepVals = strs([]string{"<", ">", "&", `"`, "'", "a", " ", ";", "/", "!", "-"}, 5)
	}
	nums := []string{"b:true", "b:false", "i:0", "i:-1", "i:9223372036854775807", "i:-9223372036854775808", "l:12", "l:-9223372036854775808", "f:0", "f:1.5", "f:-0.1", "f:1e21", "f:1e-7", "f:123456789.125", "f:1.7976931348623157e308", "f:5e-324", "f:NaN", "f:Inf", "g:0.1", "g:3.4e38"}
	for i := -300; i <= 300; i++ {
		nums = append(nums, fmt.Sprint("i:", i), fmt.Sprint("f:", float64(i)/8))
	}
	for e := 0; e < 63; e++ {
		nums = append(nums, fmt.Sprint("l:", int64(1)<<e), fmt.Sprint("l:", -(int64(1)<<e)), fmt.Sprint("i:", (int64(1)<<e)-1), fmt.Sprint("i:", -(int64(1)<<e)-1), fmt.Sprint("l:", (int64(1)<<e)-1), fmt.Sprint("l:", (int64(1)<<e)+1), fmt.Sprint("l:", 1-(int64(1)<<e)), fmt.Sprint("f:", float64(int64(1)<<e)+0.5))
	}
	targets := []string{`<r><a x="1">t<b>u</b></a><a/></r>`, `<r><a x='q"' y="2"/><a>p</a></r>`, `<r/>`, `<r>` + "\n <c/>\n</r>", ``}
	paths := pathCases([][]Seg{{nm("r"), nm("a")}, {nm("r"), nm("a"), at("x")}, {nm("r"), nm("a"), ix(1)}, {nm("r"), nm("a"), ix(1), at("z")}, {nm("r"), nm("a"), nm("b")}, {nm("r"), nm("a"), nm("b"), at("y")}, {nm("r"), nm("n"), nm("m")}, {nm("r"), nm("n"), at("w")}, {nm("r")}, {nm("r"), at("x")}, {nm("s"), nm("t")}, {nm("r"), nm("a"), ix(-1)}, {nm("s"), ix(-1)}})
	runSets(c, targets, paths, vals)
	runSets(c, targets, paths, nums)
	var dv []string
	for _, s := range deepVals {
		dv = append(dv, "s:"+s)
	}
	runSets(c, targets[:1], pathCases([][]Seg{{nm("r"), nm("a")}, {nm("r"), nm("a"), at("x")}, {nm("r"), nm("n")}}), dv)
	// every small document, every target, existing or not
	n := 3
	if c.thorough {
		n = 4
	}
	docs := forestDocs(allForests(n, 2), docStyle{names: ab, text: 0, attrs: 2}, docStyle{names: ab, text: 2, attrs: 1, ws: true})
	runSets(c, docs, setPaths([]string{"a", "b"}, []int{0, 1}, 3, nil, sq(at("x")), sq(at("y"))), []string{"s:<&>\"'v", "s:"})
	runSets(c, forestDocs(forests(n+1, 2), docStyle{names: ab, text: 0, attrs: 2}), setPaths([]string{"a", "b"}, []int{0, 1}, 2, nil, sq(at("y"))), []string{"s: v "})
	runSets(c, spelledDocs(), setPaths([]string{"a", "b", "r"}, []int{0, 1}, 2, nil, sq(at("x")), sq(at("n"))), []string{"s:v<"})
	runEditSweeps(c, true, false)
	runNameEdits(c, true, false)
	runFarIndices(c, true, false)
	runFar(c, true, false)
	runLongValues(c, setOne)
}

// runC07: what Set, append and Delete leave alone, in every spelling.
func runC07(c *Ctx) {
	sp := spelledDocs()
	p := setPaths([]string{"a", "b", "r", "q"}, []int{0, 1}, 2, nil, sq(at("x")), sq(at("y")))
	p = append(p, pathCases([][]Seg{{nm("a"), ix(-1)}, {nm("b"), ix(-1)}, {nm("q"), ix(-1)}, {nm("a"), nm("b"), ix(-1)}, {nm("r"), nm("a"), ix(-1)}, {nm("r"), nm("a"), nm("b"), ix(-1)}, {nm("r"), nm("a"), nm("n"), nm("m")}, {nm("r"), nm("a"), nm("b"), at("x")}, {nm("r"), nm("a"), nm("b")}, {nm("r"), nm("a"), ix(1), nm("b")}, {nm("r"), nm("a"), ix(1), nm("b"), at("x")}})...)
	runSets(c, sp, p, []string{"s:new"})
	runDeletes(c, sp, p)
	n := 4
	if c.thorough {
		n = 5
	}
	docs := forestDocs(allForests(n, 2), docStyle{names: ab, text: 2, attrs: 2, ws: true})
	p = setPaths([]string{"a", "b"}, []int{0, 1}, 2, nil, sq(at("x")), sq(at("n")), sq(nm("a"), nm("c")), sq(nm("b"), ix(-1)))
	runSets(c, docs, p, []string{"s:v"})
	runDeletes(c, docs, p)
	runAttrOrders(c)
	runOpaqueEdits(c)
	runEditSweeps(c, true, true)
	runNameEdits(c, true, true)
	runNeighbours(c, true, true)
	runAlike(c, true, true)
	runFar(c, true, true)
	runLongNames(c, false, true, true)
}

// runAttrOrders: every order of up to four attributes with every kind of value;
// one is set, added or deleted.
func runAttrOrders(c *Ctx) {
	names := []string{"x", "y", "z", "x1"}
	vals := []string{`"1"`, `'2'`, `"a&lt;b&amp;&quot;"`, `'q"r'`, `"it's"`, `"&#x41;&apos;>"`, `""`, `"&amp;amp;"`, `" s  p "`, `"é&gt;"`}
	var docs []string
	var rec func(used []int)
	rec = func(used []int) {
		if len(used) > 0 {
			for v := range vals {
				var b strings.Builder
				b.WriteString("<r><a")
				for i, n := range used {
					b.WriteString(" " + names[n] + "=" + vals[(v+i*3)%len(vals)])
				}
				docs = append(docs, b.String()+"/></r>", b.String()+" >t</a ><a x='other'/></r>")
			}
		}
		if len(used) == 4 {
			return
		}
	next:
		for n := range names {
			for _, u := range used {
				if u == n {
					continue next
				}
			}
			rec(append(append([]int(nil), used...), n))
		}
	}
	rec(nil)
	var p [][]Seg
	for _, n := range append(names, "new", "aa") {
		p = append(p, sq(nm("r"), nm("a"), at(n)))
	}
	runSets(c, docs, pathCases(append(p, sq(nm("r"), nm("a")), sq(nm("r"), nm("a"), nm("k")))), []string{`s:v"'<`})
	runDeletes(c, docs, pathCases(append(p, sq(nm("r"), nm("a")))))
}

// runOpaqueEdits: opaque constructs with tag-like payload at every place around the targets.
func runOpaqueEdits(c *Ctx) {
	var docs []string
	for _, o := range opaques() {
		for _, d := range []string{"%s<r><a>t</a><b x='1'>u</b></r>", "<r>%s<a>t</a><b x='1'>u</b></r>", "<r><a>%st</a><b x='1'/></r>", "<r><a>t%s</a><b x='1'>u</b></r>", "<r><a>t</a>%s<b x='1'>u</b></r>", "<r><a>t</a><b x='1'>%su<c/></b></r>", "<r><a>t</a><b x='1'>u</b>%s</r>", "<r><a>t</a><b x='1'>u</b></r>%s", "<r><a><b>%s</b></a>%s<b x='1'/></r>"} {
			docs = append(docs, strings.ReplaceAll(d, "%s", o))
		}
	}
	p := pathCases([][]Seg{{nm("r")}, {nm("r"), nm("a")}, {nm("r"), nm("b")}, {nm("r"), nm("b"), at("x")}, {nm("r"), nm("a"), at("n")}, {nm("r"), nm("n")}, {nm("r"), nm("a"), nm("b")}, {nm("r"), nm("b"), ix(1)}, {nm("r"), nm("b"), ix(-1)}, {nm("r"), nm("a"), ix(-1)}, {nm("a")}, {nm("s"), nm("t")}, {nm("r"), ix(1)}, {nm("r"), nm("b"), nm("c")}})
	runSets(c, docs, p, []string{"s:v"})
	runDeletes(c, docs, p)
}

// opaques are comments, CDATA sections, PIs and declarations with tag-like payloads.
func opaques() []string {
	pay := []string{"", "x", "<a>", "</a>", "<b>n</b>", "</r>", "<r>", "<b x='9'/>", "]]", `"`, "'", "<!-", "<![CDATA[", "<", "&", "a>b", "<?", "/>", "<a", "</", "]>", "[", "<!DOCTYPE", "<b/><a>no</a>", "><r><a>no", "]]><a>no</a>", "--><b>no</b>", "?><a/>"}
	var out []string
	for _, p := range pay {
		// a construct must not contain its own end
		if !strings.Contains(p, "--") {
			out = append(out, "<!--"+p+"-->", "<!DOCTYPE r [<!--"+p+"-->]>")
		}
		if !strings.Contains(p, "]]>") {
			out = append(out, "<![CDATA["+p+"]]>")
		}
		if !strings.Contains(p, "?>") {
			out = append(out, "<?pi "+p+"?>", "<!DOCTYPE r [<?p "+p+"?>]>")
		}
		// any text may stand in a literal that does not contain its own quote
		q := "'"
		if strings.Contains(p, q) {
			q = `"`
		}
		out = append(out, "<!doctype r [ <!ENTITY e "+q+p+q+"> ]>", "<!DOCTYPE r SYSTEM "+q+p+q+">")
		if !strings.ContainsAny(p, "[]\"'") && !strings.Contains(p, "<?") {
			out = append(out, "<!DOCTYPE r ["+p+"]>")
			if !strings.Contains(p, ">") {
				out = append(out, "<!DOCTYPE "+p+">", "<!ELEMENT "+p+">")
			}
		}
	}
	out = append(out, "<!-->a-->", "<!---->", "<!---a-->", "<![CDATA[]]]]>", "<![CDATA[]]]>", "<??>", "<?a?b?>", "<?>?>", "<?a>?b??>", "<?a '>?>", "<!>", "<!DOCTYPE>", "<!DOCTYPE r SYSTEM \"a'b\">", "<!DOCTYPE r [<!ENTITY e \"]><a>no</a>'\"><!ENTITY f ']>\"'>]>", "<!DOCTYPE r [<!-- ]><a>no</a> ' \" --><?p ]><a/> ' ?>]>", "<!DocType r>", "<!ENTITY e SYSTEM 'file:///x'>")
	for _, p := range []string{"<a>no</a>", "</a>", "<r><a>", "</r>", "<b/>", "<!--<a>-->", "<?p?>"} {
		out = append(out, "<!DOCTYPE r [<!ELEMENT r ANY>"+p+"]>", "<!DOCTYPE r [<!ELEMENT r ANY> <!ENTITY e 'v'> "+p+" ] >", "<!doctype r SYSTEM 'u' [<!ATTLIST a x CDATA 'd'>"+p+"<!ENTITY f '"+p+"'>]>", "<!DOCTYPE r [<![x["+p+"]]> "+p+" ]>")
	}
	var good []string
	for _, o := range out {
		if _, err := ParseDoc(o + "<r>t</r>"); err == nil {
			good = append(good, o)
		}
	}
	return good
}

func runC08(c *Ctx) {
	n := 3
	if c.thorough {
		n = 4
	}
	// every document; every path of up to 4 names that need not exist
	docs := forestDocs(allForests(n, 2), docStyle{names: ab, text: 0, attrs: 2}, docStyle{names: ab, text: 2, attrs: 0, ws: true})
	docs = append(docs, "")
	runSets(c, docs, setPaths([]string{"a", "b", "c"}, nil, 4, nil, sq(at("x"))), []string{"s:v"})
	runSets(c, docs, setPaths([]string{"a", "b", "c"}, []int{0, 1, 2}, 3, nil, sq(at("x"))), []string{"s:v"})
	runSets(c, forestDocs(forests(n+1, 2), docStyle{names: ab, text: 0, attrs: 2}), setPaths([]string{"a", "b", "c"}, []int{1}, 3, nil, sq(at("n"))), []string{"s:v"})
	// names that can and cannot be written, at every position of the path
	names := []string{"a", "_", ":", "a:b", "a.b", "a-1", "A", "1a", "-a", ".a", "a b", "a<b", "a>b", `a"b`, "a/b", "a=b", "é", "aé", "a\x00", "<", "a&b", "a'b", "a\tb", "a!b", "a?b", "/a", "a;", "(a)", "a@b", "a#", "a%", "a*", "$", "a,b", "a+b", "a~", "a^b", "a`b", "a{", "a]", "µ"}
	var p [][]Seg
	for _, m := range names {
		p = append(p, sq(nm("r"), nm(m)), sq(nm(m)), sq(nm("r"), nm("x"), nm(m)), sq(nm("r"), nm(m), nm("x")), sq(nm(m), nm("x")), sq(nm("r"), at(m)), sq(nm("r"), nm("n"), at(m)), sq(nm("r"), nm(m), at("k")), sq(nm("r"), nm(m), ix(-1)), sq(nm(m), ix(-1)), sq(nm("r"), nm(m), nm("q"), ix(-1)), sq(nm(m), at("x")))
	}
	docs = []string{"<r/>", "<r><x/></r>", "<r a='1'>t</r>", "<q/>", "", "<!--c--><r></r><!--d-->", " <r></r > "}
	runSets(c, docs, pathCases(p), []string{"s:v"})
	// segment kinds that cannot be created or set
	var bad []string
	for _, b := range []string{"%", "#", "#.a", "#(a)", "#(a==1)#", "0", "1", "5", "-1", "-2", "@x", "-1.a", "0.0", "@x.a", "%.a", "#(a)#.b"} {
		bad = append(bad, b, "r."+b, "r.x."+b, "r."+b+".x", "r.n."+b, "q."+b, "r.x.0."+b)
	}
	bad = append(bad, "r.%", "r..x", ".r.n", "r.n.", "..", ".", "r.@", "@", "r.@.x")
	Each(c, bad, func(w int, b string) {
		for _, d := range docs {
			c.State(d, b)
			c.Do("set", d, b, "s:v")
		}
	})
	// chains of every length
	var ss []string
	for k := 1; k <= 100; k++ {
		ss = append(ss, strings.TrimSuffix(strings.Repeat("n.", k), "."))
	}
	Each(c, ss, func(w int, p string) {
		for _, d := range []string{"", "<m/>", "<n/>", "<n>t<n/></n>", "<n><m/></n><n><n><n>k</n></n></n>"} {
			for _, tail := range []string{"", ".@x", ".-1"} {
				if strings.Count(p+tail, ".") < 100 {
					c.State(d, p+tail)
					c.Do("set", d, p+tail, "s:v")
				}
			}
		}
	})
	runOpaqueEdits(c)
	runEditSweeps(c, true, false)
	runNeighbours(c, true, false)
	runAlike(c, true, false)
	runFarIndices(c, true, false)
	runFar(c, true, false)
	runLongNames(c, false, true, false)
}

// appendsSub: doc, array path, values... appended one after the other.
func appendsSub(args []string) string {
	doc, path := args[0], args[1]
	segs, _, ok := readPath(path + ".-1")
	if !ok {
		return "path"
	}
	for i, v := range args[2:] {
		val := decodeValue(v)
		got, err := x.Set(doc, path+".-1", val)
		if d := setCompare(Env{}, doc, got, err, segs, path+".-1", val); d != "" {
			return fmt.Sprintf("append %d: %s", i, d)
		}
		if err != nil {
			return ""
		}
		raw, err := x.SetRaw(doc, path+".-1", xmlEsc(valueText(val)))
		if err != nil || !sameTree(raw, got) {
			return fmt.Sprintf("append %d: SetRaw gives %q %v, Set %q", i, clip(raw), err, clip(got))
		}
		// count and all previous elements
		before, after := x.Get(doc, path+".#"), x.Get(got, path+".#")
		// (the count is of the first parent that has such an element)
		if before.Exists() && after.Int() != before.Int()+1 && before.Int() < maxResults {
			return fmt.Sprintf("append %d: count %d -> %d", i, before.Int(), after.Int())
		}
		for k := int64(0); k < before.Int() && k < 30; k++ {
			ip := fmt.Sprintf("%s.%d", path, k)
			if a, b := x.Get(doc, ip), x.Get(got, ip); a.Raw != b.Raw || a.Str != b.Str || a.Type != b.Type {
				return fmt.Sprintf("append %d: element %d changed from %q to %q", i, k, a.Raw, b.Raw)
			}
		}
		doc = got
	}
	return ""
}

func sameTree(a, b string) bool {
	na, ea := ParseDoc(a)
	nb, eb := ParseDoc(b)
	return ea == nil && eb == nil && canon(na) == canon(nb)
}

func runC09(c *Ctx) {
	n := 4
	if c.thorough {
		n = 5
	}
	var paths []PathCase
	for _, p := range setPaths([]string{"a", "b"}, []int{0, 1}, 3, nil) {
		if p.Segs[len(p.Segs)-1].K == SIndex {
			continue
		}
		s := cat(p.Segs, sq(ix(-1)))
		paths = append(paths, PathCase{s, render(s)})
	}
	docs := append(forestDocs(allForests(n, 2), docStyle{names: ab, text: 0, attrs: 2}, docStyle{names: ab, text: 2, attrs: 0, ws: true}), "")
	runSets(c, docs, paths, []string{"s:v<"})
	runSets(c, forestDocs(forests(n+1, 2), docStyle{names: ab, text: 1, attrs: 1}), paths[:min(len(paths), 14)], []string{"s:v"})
	runSets(c, spelledDocs(), pathCases([][]Seg{{nm("a"), ix(-1)}, {nm("b"), ix(-1)}, {nm("q"), ix(-1)}, {nm("a"), nm("b"), ix(-1)}, {nm("a"), nm("c"), ix(-1)}, {nm("r"), nm("a"), ix(-1)}, {nm("r"), nm("a"), nm("b"), ix(-1)}, {nm("r"), nm("a"), ix(1), nm("b"), ix(-1)}, {nm("r"), nm("n"), nm("m"), ix(-1)}}), []string{"s:v", "i:5", "s:"})
	// rejected indices
	var bad []PathCase
	for _, k := range []int{-2, -3, -10, -100} {
		bad = append(bad, pathCases([][]Seg{{nm("a"), ix(k)}, {nm("a"), nm("b"), ix(k)}, {nm("a"), ix(k), nm("b")}, {nm("a"), ix(k), at("x")}, {nm("a"), ix(k), ix(-1)}})...)
	}
	bad = append(bad, pathCases([][]Seg{{nm("a"), ix(-1), nm("b")}, {nm("a"), ix(-1), at("x")}, {nm("a"), ix(-1), ix(0)}, {nm("a"), ix(-1), ix(-1)}, {nm("a"), nm("b"), ix(-1), nm("c")}, {ix(-1)}, {at("x"), ix(-1)}, {nm("a"), at("x"), ix(-1)}, {nm("a"), txt, ix(-1)}, {nm("a"), cnt, ix(-1)}, {nm("a"), nm("c"), ix(-1), nm("d"), ix(-1)}, {nm("a"), ix(0), ix(-1)}, {nm("a"), ix(9), nm("b"), ix(-1)}})...)
	runSets(c, docs[:min(len(docs), 200)], bad, []string{"s:v"})
	// sequences of appends, checked step by step
	var seqs [][]string
	for _, d := range []string{"", "<r/>", "<r></r>", "<r>t</r>", "<r><i>0</i></r>", "<r><o/><i>0</i><o/></r>", "<r><i/><j>1</j><i/></r>\n", "<!--x--><r><i>0</i><!--<i>--></r>", "<i/>", "<i>0</i><j/><i>1</i><!--e-->", "<r><p/><p><i>0</i></p></r>", "<s:r xmlns:s='u'><s:i>0</s:i></s:r>"} {
		for _, p := range []string{"r.i", "i", "r.p.i", "r.p.1.i", "r.n.m.i", "r.j"} {
			for l := 1; l <= 3; l++ {
				product(3, l, func(ix []int) {
					a := []string{d, p}
					for _, k := range ix {
						a = append(a, []string{"s:<v>", "i:7", "s:"}[k])
					}
					seqs = append(seqs, a)
				})
			}
			long := []string{d, p}
			for k := 0; k < 40; k++ {
				long = append(long, fmt.Sprint("i:", k))
			}
			seqs = append(seqs, long)
		}
	}
	Each(c, seqs, func(w int, a []string) {
		c.State(a...)
		c.Do("appends", a...)
	})
	// arrays of every size
	var big [][]string
	for _, k := range sizes(80, 1100) {
		item := func(i int) string { return fmt.Sprintf("<i x='%d'>%d</i>", i, i) }
		big = append(big, []string{"<r>" + rep(k, item) + "<z/></r>", "r.i", "s:v"}, []string{"<r><o/>" + rep(k, func(i int) string { return item(i) + "<o/>" }) + "</r>", "r.i", "s:v"})
		if k > 0 {
			big = append(big, []string{rep(k, item), "i", "s:v"}, []string{rep(k, item) + "<z/>", "i", "i:3"})
		}
	}
	Each(c, big, func(w int, a []string) {
		c.State(a...)
		c.Do("appends", a...)
	})
	runOpaqueEdits(c)
	runNeighbours(c, true, false)
	runAlike(c, true, false)
	runFar(c, true, false)
}

func runC10(c *Ctx) {
	n := 4
	if c.thorough {
		n = 5
	}
	st := []docStyle{{names: ab, text: 0, attrs: 2}, {names: ab, text: 2, attrs: 1, ws: true}}
	tails := [][]Seg{nil, {at("x")}, {at("y")}}
	runDeletes(c, forestDocs(allForests(n, 2), st...), setPaths([]string{"a", "b"}, []int{0, 1, 2}, 3, tails...))
	runDeletes(c, forestDocs(forests(n+1, 2), st...), setPaths([]string{"a", "b", "c"}, []int{0, 1, 3, -1}, 2, tails...))
	runDeletes(c, forestDocs(forests(n+2, 2), st[:1]...), setPaths([]string{"a", "b"}, []int{1}, 2, nil, sq(at("x"))))
	runDeletes(c, forestDocs(allForests(n+1, 1), st...), setPaths([]string{"a"}, []int{0, 1}, 5, nil))
	runDeletes(c, spelledDocs(), setPaths([]string{"a", "b", "r", "q"}, []int{0, 1}, 2, nil, sq(at("x")), sq(at("y")), sq(nm("b"))))
	runAttrOrders(c)
	runOpaqueEdits(c)
	// paths that address no single node leave the document alone
	var texts []string
	for _, b := range []string{"%", "#", "#.a", "0", "-1", "7", "@x.a", "%.a", "@zz", "zz", "@", "0.0", "@x"} {
		texts = append(texts, b, "r."+b, "r.a."+b, "r."+b+".a", "r.a.0."+b, "zz."+b)
	}
	docs := []string{"<r x='1'><a x='2'>t</a><a/></r>", "<r/>", "<r/><r>2</r>", " <r></r> "}
	Each(c, texts, func(w int, p string) {
		for _, d := range docs {
			c.State(d, p)
			c.Do("delete", d, p)
		}
	})
	runEditSweeps(c, false, true)
	runNameEdits(c, false, true)
	runNeighbours(c, false, true)
	runAlike(c, false, true)
	runFarIndices(c, false, true)
	runFar(c, false, true)
	runLongNames(c, false, false, true)
}

// runEditSweeps modifies the documents of the one-dimensional sweeps.
func runEditSweeps(c *Ctx, sets, deletes bool) {
	Each(c, sweeps(c.thorough), func(w int, s Sweep) {
		c.State(s.Doc)
		for _, segs := range s.Paths {
			last := segs[len(segs)-1]
			if last.K == SCount || last.K == SField || last.K == SText {
				continue
			}
			p := render(segs)
			if sets {
				for _, t := range []struct {
					segs []Seg
					path string
				}{{segs, p}, {cat(segs, sq(nm("new"))), p + ".new"}, {cat(segs, sq(at("new"))), p + ".@new"}} {
					if last.K == SAttr && len(t.segs) > len(segs) || len(t.segs) > maxSegments {
						continue
					}
					if what := guarded(func() string { return setOne(s.Doc, t.path, t.segs, "s:v<") }); what != "" {
						c.Fail("set", what, s.Doc, t.path, "s:v<")
					}
				}
			}
			if deletes {
				if what := guarded(func() string { return deleteOne(s.Doc, p, segs) }); what != "" {
					c.Fail("delete", what, s.Doc, p)
				}
			}
		}
	})
	if !sets {
		return
	}
	// values of every length
	var vals []string
	for _, k := range sizes(300, 70000) {
		vals = append(vals, "s:"+strings.Repeat("v", k), "s:"+strings.Repeat("<", k), "s:a"+strings.Repeat("é", k)+"&")
	}
	runSets(c, []string{`<r><a x="1">t</a><b/></r>`}, pathCases([][]Seg{{nm("r"), nm("a")}, {nm("r"), nm("a"), at("x")}, {nm("r"), nm("b")}, {nm("r"), nm("n")}, {nm("r"), nm("a"), ix(-1)}}), vals)
}
