package main

import (
	"fmt"
	"strings"

	x "verifharness/lib"
)

func init() {
	register(&Check{ID: "C18", Run: runC18, Subs: map[string]Sub{"fold": foldSub, "other": otherSub, "foldset": foldSetSub, "folddelete": foldDeleteSub, "editopts": editOptsSub, "foldfluent": foldFluentSub}, Notes: []string{
		"documents in which one element has attributes that differ only in letter case are left to C16 (stable answer), as folding would make them repeated",
	}})
}

func foldOpts() *x.Options { return &x.Options{CaseSensitive: false} }

// otherOpts are settings that must not change query answers.
func otherOpts() []*x.Options {
	var out []*x.Options
	for _, ind := range []string{"", "  ", "\t"} {
		for _, pw := range []bool{false, true} {
			for _, ns := range []map[string]string{nil, {}, {"p": "urn:p"}} {
				out = append(out, &x.Options{CaseSensitive: true, Indent: ind, PreserveWhitespace: pw, Namespaces: ns})
			}
		}
	}
	return out
}

func foldSub(args []string) string {
	nodes, err := ParseDoc(args[0])
	if err != nil {
		return ""
	}
	segs, _, ok := readPath(args[1])
	if !ok {
		segs = nil
	}
	return foldOne(nodes, args[0], args[1], segs)
}

func foldOne(nodes []*Node, doc, path string, segs []Seg) string {
	want := Env{Fold: true}.query(nodes, segs)
	for _, o := range []*x.Options{foldOpts(), {CaseSensitive: false, Indent: "  ", PreserveWhitespace: true}} {
		if d := diffResult(x.GetWithOptions(doc, path, o), want); d != "" {
			return d
		}
	}
	return ""
}

func full(r x.Result) string {
	var b strings.Builder
	var walk func(r x.Result)
	walk = func(r x.Result) {
		fmt.Fprintf(&b, "%s %q %q %v [", typeName(r.Type), r.Str, r.Raw, r.Num)
		for _, it := range r.Results {
			walk(it)
			b.WriteString(",")
		}
		b.WriteString("]")
	}
	walk(r)
	return b.String()
}

// same compares two results completely.
func same(a, b x.Result) bool {
	if a.Type != b.Type || a.Str != b.Str || a.Raw != b.Raw || a.Num != b.Num || len(a.Results) != len(b.Results) {
		return false
	}
	for i := range a.Results {
		if !same(a.Results[i], b.Results[i]) {
			return false
		}
	}
	return true
}

// otherSub: doc, path: every other option setting answers as the plain call.
func otherSub(args []string) string { return otherOne(args[0], args[1], otherOpts()) }

func otherOne(doc, path string, list []*x.Options) string {
	plain := x.Get(doc, path)
	for _, o := range list {
		if got := x.GetWithOptions(doc, path, o); !same(got, plain) {
			return fmt.Sprintf("with %+v: %s, plain %s", *o, clip(full(got)), clip(full(plain)))
		}
	}
	if got := x.GetWithOptions(doc, path, nil); !same(got, plain) {
		return fmt.Sprintf("with nil options: %s, plain %s", clip(full(got)), clip(full(plain)))
	}
	return ""
}

func foldSetSub(args []string) string {
	segs, _, ok := readPath(args[1])
	if !ok {
		segs = nil
	}
	return foldSetOne(args[0], args[1], segs)
}

func foldSetOne(doc, path string, segs []Seg) string {
	got, err := x.SetWithOptions(doc, path, "v", foldOpts())
	return setCompare(Env{Fold: true}, doc, got, err, segs, path, "v")
}

func foldDeleteSub(args []string) string {
	segs, _, ok := readPath(args[1])
	if !ok {
		segs = nil
	}
	return foldDeleteOne(args[0], args[1], segs)
}

func foldDeleteOne(doc, path string, segs []Seg) string {
	got, err := x.SetWithOptions(doc, path, nil, foldOpts())
	if d := diffEdit(doc, got, err, Env{Fold: true}.modelDelete(doc, segs)); d != "" {
		return d
	}
	b, err2 := x.DeleteBytesWithOptions([]byte(doc), path, foldOpts())
	if string(b) != got || classOf(err) != classOf(err2) {
		return fmt.Sprintf("DeleteBytesWithOptions gives %q %v, SetWithOptions(nil) %q %v", clip(string(b)), err2, clip(got), err)
	}
	return ""
}

// loose is the canonical form without white space next to elements.
func loose(nodes []*Node) string {
	var strip func(ns []*Node, leaf bool) []*Node
	strip = func(ns []*Node, leaf bool) []*Node {
		var out []*Node
		for _, n := range ns {
			m := *n
			switch n.Kind {
			case KText:
				if !leaf {
					if m.Text = strings.TrimSpace(m.Text); m.Text == "" {
						continue
					}
				}
			case KElem:
				m.Kids = strip(n.Kids, len(elems(n.Kids)) == 0)
			}
			out = append(out, &m)
		}
		return out
	}
	return canon(strip(nodes, false))
}

// editOptsSub: doc, path, value: default and nil options are identical to the
// plain call, indent adds white space only, others change nothing.
func editOptsSub(args []string) string {
	doc, path := args[0], args[1]
	var v any
	if args[2] != "n:" {
		v = decodeValue(args[2])
	}
	plain, perr := x.Set(doc, path, v)
	for i, o := range append(otherOpts(), nil, x.DefaultOptions()) {
		var before string
		if o != nil {
			before = fmt.Sprintf("%+v", *o)
		}
		got, err := x.SetWithOptions(doc, path, v, o)
		if o != nil && fmt.Sprintf("%+v", *o) != before {
			return "the options were changed"
		}
		if classOf(err) != classOf(perr) {
			return fmt.Sprintf("options %d: error %v, plain %v", i, err, perr)
		}
		if o == nil || o.Indent == "" || err != nil || v == nil {
			if got != plain {
				return fmt.Sprintf("options %d: %q, plain %q", i, clip(got), clip(plain))
			}
			continue
		}
		a, e1 := ParseDoc(got)
		b, e2 := ParseDoc(plain)
		if e1 != nil || e2 != nil {
			return fmt.Sprintf("options %d: result is not valid: %q, plain %q", i, clip(got), clip(plain))
		}
		if loose(a) != loose(b) {
			return fmt.Sprintf("indent %q changes more than white space: %q, plain %q", o.Indent, clip(got), clip(plain))
		}
		// the bytes around the change are those of the plain result
		if !keepsAround(doc, plain, got) {
			return fmt.Sprintf("indent %q changes other parts: %q, plain %q", o.Indent, clip(got), clip(plain))
		}
	}
	return ""
}

// keepsAround: got keeps what plain keeps of doc at both ends.
func keepsAround(doc, plain, got string) bool {
	p := 0
	for p < len(doc) && p < len(plain) && doc[p] == plain[p] {
		p++
	}
	s := 0
	for s < len(doc)-p && s < len(plain)-p && doc[len(doc)-1-s] == plain[len(plain)-1-s] {
		s++
	}
	// white space or markup common to both sides of the change may be attributed to either
	for p > 0 && doc[p-1] != '>' {
		p--
	}
	for s > 0 && doc[len(doc)-s] != '<' {
		s--
	}
	for k := 0; k < 3; k++ {
		if len(got) >= p+s && got[:p] == doc[:p] && got[len(got)-s:] == doc[len(doc)-s:] {
			return true
		}
		// step back over one tag on each side
		if p > 0 {
			p = strings.LastIndexByte(doc[:p-1], '>') + 1
		}
		if s > 0 {
			if i := strings.IndexByte(doc[len(doc)-s+1:], '<'); i >= 0 {
				s -= i + 1
			} else {
				s = 0
			}
		}
	}
	return false
}

func foldFluentSub(args []string) string {
	doc, pre, rest := args[0], args[1], args[2]
	nodes, err := ParseDoc(doc)
	if err != nil {
		return ""
	}
	ps, _, _ := readPath(pre)
	rs, _, _ := readPath(rest)
	base := Env{Fold: true}.query(nodes, ps)
	r := x.GetWithOptions(doc, pre, foldOpts())
	if d := diffResult(r, base); d != "" {
		return d
	}
	if base.T == x.Array && len(base.Items) > 0 {
		base = base.Items[0]
	}
	want, wm := null, map[string]R{}
	if base.T == x.Element {
		want = Env{Fold: true}.childQuery(base.Node, rs)
		wm = modelMap(base.Node, true)
	}
	if d := diffResult(x.RGetWithOptions(r, rest, foldOpts()), want); d != "" {
		return "GetWithOptions: " + d
	}
	if d := diffMap(x.RMapWithOptions(r, foldOpts()), wm); d != "" {
		return "MapWithOptions: " + d
	}
	plain := x.RGet(r, rest)
	for _, o := range otherOpts() {
		if got := x.RGetWithOptions(r, rest, o); !same(got, plain) {
			return fmt.Sprintf("GetWithOptions with %+v: %s, plain %s", *o, clip(full(got)), clip(full(plain)))
		}
		if base.T == x.Element {
			if d := diffMap(x.RMapWithOptions(r, o), modelMap(base.Node, false)); d != "" {
				return fmt.Sprintf("MapWithOptions with %+v: %s", *o, d)
			}
		}
	}
	return ""
}

func runC18(c *Ctx) {
	runLongFolded(c)
	names := []string{"a", "A", "bB", "Bb"}
	n := 3
	if c.thorough {
		n = 4
	}
	docs := forestDocs(allForests(n, 3), docStyle{names: names[:3], text: 1, attrs: 1}, docStyle{names: []string{"A", "a", "P:a"}, text: 0, attrs: 2, ws: true})
	docs = append(docs, forestDocs(forests(n+1, 2), docStyle{names: names[:2], text: 2, attrs: 1}, docStyle{names: names[2:], text: 0, attrs: 2})...)
	docs = append(docs, forestDocs(allForests(3, 4), docStyle{names: names, text: 0, attrs: 1})...)
	for i, d := range docs {
		if i%2 == 1 {
			docs[i] = strings.ReplaceAll(strings.ReplaceAll(d, " x=", " X="), " y=", " yY=")
		}
	}
	var paths [][]Seg
	pn := []string{"a", "A", "bb", "BB", "p:A"}
	for _, p := range steps(basicSteps(pn, []int{0, 1}), 2) {
		paths = append(paths, p, cat(p, sq(at("x"))), cat(p, sq(at("X"))), cat(p, sq(txt)))
		if p[len(p)-1].K == SName {
			paths = append(paths, cat(p, sq(cnt)), cat(p, sq(fld("a"))), cat(p, sq(fld("@X"))), cat(p, sq(fld("%"))), cat(p, sq(at("Yy"))), cat(p, sq(fld("BB"))))
		}
	}
	flt := func(o Seg, op, v string, all bool) Seg {
		return Seg{K: SFilter, Cond: &Cond{sq(o), op, v, "'"}, All: all}
	}
	has := func(o Seg, all bool) Seg { return Seg{K: SFilter, Cond: &Cond{sq(o), "", "", ""}, All: all} }
	for _, a := range pn {
		paths = append(paths, sq(star), sq(star, nm(a)), sq(deep, nm(a)), sq(deep, nm(a), at("X")), sq(star, star), sq(nm(a), star), sq(star, at("x")), sq(star, fld(a)), sq(star, cnt))
		for _, b := range pn {
			paths = append(paths, sq(nm(a), has(nm(b), true)), sq(nm(a), has(nm(b), false)), sq(nm(a), flt(nm(b), "!=", "t3", true), nm(b)), sq(nm(a), flt(nm(b), "==", "t2", false), at("X")), sq(nm(a), star, nm(b)), sq(nm(a), deep, nm(b)), sq(deep, nm(a), nm(b)), sq(star, nm(a), nm(b)), sq(nm(a), nm(b), has(at("X"), true), at("x")), sq(nm(a), has(at("yy"), true), nm(b)), sq(nm(a), flt(at("X"), "%", "x*", true)), sq(nm(a), nm(b), has(nm("A"), false)), sq(nm(a), nm(b), nm("a")), sq(nm(a), nm(b), nm("BB"), at("x")), sq(nm(a), has(nm(b), true), fld("a")), sq(deep, has(nm(b), true)), sq(deep, has(at("X"), false), nm(a)), sq(nm(a), deep, flt(nm(b), "!=", "t3", true)))
		}
	}
	var keep [][]Seg
	for _, p := range paths {
		ok := true
		for i := range p {
			if i > 0 && (p[i].K == SCount || p[i].K == SField) && p[i-1].K == SStar {
				ok = false
			}
		}
		if ok {
			keep = append(keep, p)
		}
	}
	cases := pathCases(keep)
	parsed := parseAll(c, docs)
	ref := otherOpts()
	some := []*x.Options{ref[1], ref[2], ref[3], ref[6], ref[11]}
	Each(c, cases, func(w int, p PathCase) {
		c.Begin(w, "fold", docs[0], p.Text)
		for i := range parsed {
			d := parsed[i]
			if what := guarded(func() string { return foldOne(d.nodes, d.text, p.Text, p.Segs) }); what != "" {
				c.Fail("fold", what, d.text, p.Text)
			}
			if what := guarded(func() string { return otherOne(d.text, p.Text, some) }); what != "" {
				c.Fail("other", what, d.text, p.Text)
			}
		}
		c.End(w)
	})
	c.Sample("GetWithOptions(%q, %q, insensitive)", docs[len(docs)/2], cases[len(cases)/2].Text)
	// all option settings, all kinds of paths incl. modifiers and unusual orders of segments
	toks := []string{"a", "A", "*", "**", "#", "%", "@x", "@X", "0", "1", "-1", "#(b)", "#(@x=='1')#", "#(B>1)#", "b", "b|@reverse", "a|@first", "*|@sort", "z", "a|@zz", "#(b)#|@last"}
	odocs := []string{`<a x="1">t<b>2</b><b X="3">u</b><A><b>1</b></A></a><a x="5"><b>7</b></a><A X="2"><B>3</B></A>`, `<a>` + "\n " + `<a x=" 1 "> k </a><b/><!--c--><p:b>9</p:b></a>`}
	var op []string
	for l := 1; l <= 3; l++ {
		product(len(toks), l, func(ix []int) {
			q := make([]string, len(ix))
			for i, k := range ix {
				q[i] = toks[k]
			}
			op = append(op, strings.Join(q, "."))
		})
	}
	Each(c, op, func(w int, p string) {
		for _, d := range odocs {
			c.State(d, p)
			if what := guarded(func() string { return otherOne(d, p, ref) }); what != "" {
				c.Fail("other", what, d, p)
			}
		}
	})
	// modifications with folded names
	ep := setPaths([]string{"a", "A", "bb", "p:A"}, []int{0, 1}, 2, nil, sq(at("x")), sq(at("X")), sq(ix(-1)))
	var ek []PathCase
	for _, p := range ep {
		ok := true
		for i := 1; i < len(p.Segs); i++ {
			ok = ok && !(p.Segs[i].K == SIndex && p.Segs[i-1].K == SIndex)
		}
		if ok {
			ek = append(ek, p)
		}
	}
	edocs := append(forestDocs(allForests(n, 3), docStyle{names: names[:3], text: 0, attrs: 2}), forestDocs(allForests(3, 2), docStyle{names: []string{"A", "P:a"}, text: 2, attrs: 1, ws: true})...)
	Each(c, ek, func(w int, p PathCase) {
		for _, d := range edocs {
			c.Begin(w, "foldset", d, p.Text)
			if what := guarded(func() string { return foldSetOne(d, p.Text, p.Segs) }); what != "" {
				c.Fail("foldset", what, d, p.Text)
			}
			if what := guarded(func() string { return foldDeleteOne(d, p.Text, p.Segs) }); what != "" {
				c.Fail("folddelete", what, d, p.Text)
			}
		}
		c.End(w)
	})
	runFoldAttrs(c)
	// default, nil, indent and reserved options on every kind of modification
	idocs := append(forestDocs(allForests(3, 2), docStyle{names: ab, text: 0, attrs: 2}, docStyle{names: ab, text: 2, attrs: 1}, docStyle{names: ab, text: 0, attrs: 1, ws: true}), "", "<a", "<r>\n  <a>\n  </a>\n</r>\n", "<a> k </a>", "<a><!--c--></a>")
	ip := setPaths([]string{"a", "b", "n"}, []int{0, 1}, 2, nil, sq(at("x")), sq(ix(-1)), sq(nm("m"), nm("k")))
	Each(c, ip, func(w int, p PathCase) {
		for _, d := range idocs {
			for _, v := range []string{"s:v", "n:", "r:<k/>", "s:"} {
				c.Do("editopts", d, p.Text, v)
			}
			if c.Stopped() {
				return
			}
		}
	})
	for _, d := range idocs {
		c.State("i", d)
	}
	// fluent queries and maps
	pre := pathCases([][]Seg{{nm("a")}, {nm("A"), ix(1)}, {nm("a"), nm("a")}, {nm("BB")}, {star}, {deep, nm("A")}, {nm("A"), at("X")}, {nm("p:a")}})
	rest := pathCases([][]Seg{{nm("a")}, {nm("A"), at("x")}, {nm("bb"), ix(1)}, {nm("A"), cnt}, {nm("BB"), fld("A")}, {star}, {deep, nm("a")}, {nm("a"), has(nm("A"), true)}, {nm("a"), nm("A")}, {nm("zz")}})
	fdocs := forestDocs(allForests(n+1, 2), docStyle{names: []string{"a", "A"}, text: 2, attrs: 1}, docStyle{names: []string{"A", "bB"}, text: 0, attrs: 1})
	fdocs = append(fdocs, forestDocs(allForests(3, 3), docStyle{names: []string{"a", "A", "Bb"}, text: 1, attrs: 0})...)
	Each(c, pre, func(w int, p PathCase) {
		for _, r := range rest {
			for _, d := range fdocs {
				c.Do("foldfluent", d, p.Text, r.Text)
			}
			if c.Stopped() {
				return
			}
		}
	})
	// sweeps: many siblings, depth and long names with folded names
	var ss []Sweep
	for _, k := range sizes(60, 1002) {
		if k == 0 {
			continue
		}
		d := "<R>" + rep(k, func(i int) string { return fmt.Sprintf("<%s X='%d'>%d</%[1]s>", []string{"i", "I"}[i%2], i, i) }) + "</R>"
		ss = append(ss, Sweep{"siblings", d, [][]Seg{{nm("r"), nm("i"), cnt}, {nm("r"), nm("I"), ix(k - 1)}, {nm("r"), nm("i"), ix(k - 1), at("x")}, {nm("r"), nm("i"), ix(k)}, {nm("r"), nm("i"), fld("@x")}, {nm("r"), star}, {deep, nm("I")}, {nm("r"), nm("i"), flt(at("x"), ">", fmt.Sprint(k/2), true)}}},
			Sweep{"roots", rep(k, func(i int) string { return fmt.Sprintf("<%s X='%d'>%d</%[1]s>", []string{"i", "I"}[i%2], i, i) }), [][]Seg{{nm("i"), cnt}, {nm("I"), ix(k - 1)}, {nm("i"), ix(k - 1), at("x")}, {nm("i"), ix(k)}, {nm("I"), fld("@x")}, {nm("i"), has(at("x"), true)}, {star}}})
		nmL := strings.Repeat("nN", k)
		ss = append(ss, Sweep{"namelen", "<r><" + nmL + "m>no</" + nmL + "m><" + nmL + " Q='1'>yes</" + nmL + "></r>", [][]Seg{{nm("R"), nm(strings.ToLower(nmL))}, {nm("R"), nm(strings.ToUpper(nmL)), at("q")}}})
	}
	for k := 1; k <= 97; k++ {
		doc := rep(k, func(i int) string { return []string{"<d X='1'>", "<D X='1'>"}[i%2] }) + "q" + rep(k, func(i int) string { return []string{"</d>", "</D>"}[(k-1-i)%2] })
		var segs []Seg
		for i := 0; i < k; i++ {
			segs = append(segs, nm("d"))
		}
		ss = append(ss, Sweep{"depth", doc, [][]Seg{segs, cat(segs, sq(at("x"))), cat(segs, sq(cnt)), {deep, nm("d"), at("x")}}})
	}
	Each(c, ss, func(w int, s Sweep) {
		nodes, err := ParseDoc(s.Doc)
		if err != nil {
			panic("sweep")
		}
		c.State(s.Doc)
		for _, p := range pathCases(s.Paths) {
			if len(p.Segs) > maxSegments {
				continue
			}
			if what := guarded(func() string { return foldOne(nodes, s.Doc, p.Text, p.Segs) }); what != "" {
				c.Fail("fold", what, s.Doc, p.Text)
			}
			if what := guarded(func() string { return otherOne(s.Doc, p.Text, some[:1]) }); what != "" {
				c.Fail("other", what, s.Doc, p.Text)
			}
		}
	})
	runNameFold(c)
	// every spelling and neighbourhood of tags
	ndocs := parseAll(c, append(neighbourDocs(), spelledDocs()...))
	Each(c, pathCases([][]Seg{{nm("R")}, {nm("R"), nm("A")}, {nm("r"), nm("A"), ix(1)}, {nm("A"), at("X")}, {nm("R"), nm("A"), at("X")}, {nm("A"), txt}, {nm("A"), nm("B")}, {nm("A"), fld("B")}, {nm("R"), nm("A"), fld("@X")}, {nm("R"), nm("A"), cnt}, {star, nm("A")}, {deep, nm("B")}, {deep, nm("A"), at("Y")}, {nm("A"), has(nm("B"), true)}, {nm("R"), nm("A"), has(at("X"), true)}}), func(w int, p PathCase) {
		c.Begin(w, "fold", ndocs[0].text, p.Text)
		for _, d := range ndocs {
			if what := guarded(func() string { return foldOne(d.nodes, d.text, p.Text, p.Segs) }); what != "" {
				c.Fail("fold", what, d.text, p.Text)
			}
		}
		c.End(w)
	})
}

// runFoldAttrs names each of several attributes in another letter case.
func runFoldAttrs(c *Ctx) {
	var ks []int
	for _, k := range sizes(12, 99) {
		if k > 0 {
			ks = append(ks, k)
		}
	}
	cased := func(i, style int) string {
		s := fmt.Sprintf("nm%dq", i)
		switch (i + style) % 3 {
		case 1:
			return strings.ToUpper(s)
		case 2:
			return "N" + s[1:]
		}
		return s
	}
	Each(c, ks, func(w int, k int) {
		for _, form := range []string{"<r%s/>", "<r%s>t<i/></r>", "<r><i/><i%s>u</i></r>"} {
			for style := 0; style < 3; style++ {
				d := fmt.Sprintf(form, rep(k, func(i int) string { return fmt.Sprintf(" %s='%d&amp;'", cased(i, style), i) }))
				nodes, err := ParseDoc(d)
				if err != nil {
					panic("fold attributes")
				}
				c.State(d)
				for i := 0; i <= k; i++ {
					if k > 12 && i > 1 && i < k-2 && i != k/2 {
						continue
					}
					for other := 0; other < 3; other++ {
						el := sq(nm("R"))
						if strings.Contains(form, "<i%s") {
							el = sq(nm("R"), nm("I"), ix(1))
						}
						segs := cat(el, sq(at(cased(i, other))))
						path := render(segs)
						c.Begin(w, "foldset", d, path)
						if what := guarded(func() string { return foldOne(nodes, d, path, segs) }); what != "" {
							c.Fail("fold", what, d, path)
						}
						if what := guarded(func() string { return foldSetOne(d, path, segs) }); what != "" {
							c.Fail("foldset", what, d, path)
						}
						if what := guarded(func() string { return foldDeleteOne(d, path, segs) }); what != "" {
							c.Fail("folddelete", what, d, path)
						}
						c.End(w)
					}
				}
			}
		}
	})
}
