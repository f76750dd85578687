package main

import (
	"fmt"
	"sort"
	"strings"

	x "verifharness/lib"
)

func init() {
	register(&Check{ID: "C05", Run: runC05, Subs: map[string]Sub{"query": querySub, "set": setSub, "delete": deleteSub, "same": sameSub, "map": mapSub}, Notes: []string{
		"CDATA text is not part of an element's text in this library (documented), so adding a CDATA section does not change answers",
	}})
}

// places are the positions of a document where an opaque construct may stand.
func places(nodes []*Node, docLen int) []int {
	set := map[int]bool{0: true, docLen: true}
	var walk func(kids []*Node)
	walk = func(kids []*Node) {
		for _, k := range kids {
			set[k.Start], set[k.End] = true, true
			if k.Kind == KText && k.End-k.Start > 1 && !strings.Contains(k.Text, "&") {
				set[(k.Start+k.End)/2] = true
			}
			if k.Kind == KElem && !k.Self {
				set[k.OpenEnd], set[k.CloseStart] = true, true
				walk(k.Kids)
			}
		}
	}
	walk(nodes)
	var out []int
	for p := range set {
		out = append(out, p)
	}
	sort.Ints(out)
	return out
}

// shapeText describes a result without raw text.
func shapeText(r x.Result) string {
	switch r.Type {
	case x.Array:
		var b strings.Builder
		b.WriteString("[")
		for _, it := range r.Results {
			b.WriteString(shapeText(it) + ",")
		}
		return b.String() + "]"
	}
	return fmt.Sprintf("%s:%q:%v", typeName(r.Type), r.Str, r.Num)
}

// sameSub: two documents that differ only in opaque constructs answer alike.
func sameSub(args []string) string {
	a, b := shapeText(x.Get(args[0], args[2])), shapeText(x.Get(args[1], args[2]))
	if a != b {
		return fmt.Sprintf("without the construct %s, with it %s", clip(a), clip(b))
	}
	return ""
}

func runC05(c *Ctx) {
	bases := []string{
		`<a x="1">t<b>u</b>v<a><b y="2"/></a></a>`,
		`<r><a>1</a><b><a>2</a></b><a x="3"/></r>`,
		`<a/><b>k</b>`,
		"<r>\n <i x='1'><k>5</k></i>\n <i x='2'><k>7</k></i>\n</r>",
		`<r>a &lt;b&gt; c<b/></r>`,
	}
	if c.thorough {
		bases = append(bases, forestDocs(allForests(4, 2), docStyle{names: ab, text: 2, attrs: 1})...)
	} else {
		bases = append(bases, forestDocs(allForests(3, 2), docStyle{names: ab, text: 2, attrs: 1})...)
	}
	eqA := func(o Seg, v string) Seg {
		return Seg{K: SFilter, Cond: &Cond{sq(o), "==", v, "'"}, All: true}
	}
	paths := pathCases([][]Seg{{nm("a")}, {nm("b")}, {nm("r")}, {nm("a"), nm("b")}, {nm("r"), nm("a")}, {nm("r"), nm("a"), cnt}, {nm("a"), cnt}, {nm("a"), ix(1)}, {nm("r"), nm("a"), ix(1)}, {nm("a"), at("x")}, {nm("r"), nm("a"), ix(1), at("x")}, {nm("a"), txt}, {nm("r"), txt}, {star}, {nm("r"), star}, {nm("a"), star}, {deep, nm("a")}, {deep, nm("b")}, {deep, nm("b"), at("y")}, {star, nm("a")}, {nm("r"), nm("i"), fld("k")}, {nm("r"), nm("i"), eqA(nm("k"), "7")}, {nm("r"), nm("i"), eqA(at("x"), "1"), nm("k")}, {nm("a"), eqA(nm("b"), "u")}, {nm("a"), fld("b")}, {nm("r"), nm("b"), nm("a")}, {nm("a"), nm("a"), nm("b"), at("y")}, {nm("c")}, {nm("r"), nm("c")}})
	ops := opaques()
	type job struct {
		base string
		o    string
	}
	var jobs []job
	for _, b := range bases {
		for _, o := range ops {
			jobs = append(jobs, job{b, o})
		}
	}
	// pairs of constructs
	few := []string{"<!--<a>-->", "<!--</a>-->", "<![CDATA[<a>]]>", "<![CDATA[</a>]]>", "<?p <a ?>", "<!DOCTYPE a [<!ENTITY b '<a>'>]>", "<!ELEMENT a>", "<!---->", "<![CDATA[]]>"}
	for _, b := range bases[:5] {
		for _, o1 := range few {
			for _, o2 := range few {
				jobs = append(jobs, job{b, o1 + o2})
			}
		}
	}
	Each(c, jobs, func(w int, j job) {
		base, err := ParseDoc(j.base)
		if err != nil {
			panic("base invalid")
		}
		for _, pos := range places(base, len(j.base)) {
			doc := j.base[:pos] + j.o + j.base[pos:]
			nodes, err := ParseDoc(doc)
			if err != nil {
				panic("decorated document invalid: " + err.msg + ": " + doc)
			}
			c.State(doc)
			for _, p := range paths {
				queryOne(c, nodes, doc, p)
				if d := guarded(func() string { return sameSub([]string{j.base, doc, p.Text}) }); d != "" {
					c.Fail("same", d, j.base, doc, p.Text)
				}
			}
			for _, p := range []string{"a", "r", "b", "r.a", "r.b", "r.i"} {
				c.Do("map", doc, p)
			}
			for _, p := range []PathCase{paths[0], paths[1], paths[3], paths[4], paths[8], paths[9]} {
				if d := guarded(func() string { return setOne(doc, p.Text, p.Segs, "s:v") }); d != "" {
					c.Fail("set", d, doc, p.Text, "s:v")
				}
				if d := guarded(func() string { return deleteOne(doc, p.Text, p.Segs) }); d != "" {
					c.Fail("delete", d, doc, p.Text)
				}
			}
			if c.Stopped() {
				return
			}
		}
	})
	c.Sample("construct %q at every place of %q", ops[3], bases[0])
	// one construct at two places at once
	var two []string
	for _, b := range bases[:2] {
		nodes, _ := ParseDoc(b)
		ps := places(nodes, len(b))
		for i, p := range ps {
			for _, q := range ps[i:] {
				for _, o := range few {
					for _, o2 := range few {
						two = append(two, b[:p]+o+b[p:q]+o2+b[q:])
					}
				}
			}
		}
	}
	runQueries(c, two, paths)
	// tag-like text in attribute values
	pay := []string{"<a>", "</a>", "<b>n</b>", "/>", ">", "<!--", "-->", "<![CDATA[", "]]>", "<?", "?>", "'", "=", "<", "</r>", "a='9'", "x=", " ", "<a/>", "--", "&lt;a&gt;", "&lt;/a&gt;", "\n", "<!DOCTYPE a [", "]>"}
	var av []string
	for _, p := range pay {
		for _, q := range pay {
			v := p + q
			av = append(av, `<r><a x="`+v+`" y='2'>t<b>u</b></a><b x="`+q+`"/><a>w</a></r>`)
			if !strings.Contains(v, "'") {
				av = append(av, `<r z='`+v+`'><a y="2" x='`+v+`'/><b x='`+p+`'>k</b></r>`)
			}
		}
	}
	ap := append(paths, pathCases([][]Seg{{nm("r"), nm("a"), at("x")}, {nm("r"), nm("a"), at("y")}, {nm("r"), nm("b"), at("x")}, {nm("r"), at("z")}, {nm("r"), nm("a"), nm("b")}, {nm("r"), nm("b")}, {nm("r"), nm("b"), cnt}, {nm("r"), star, at("x")}, {deep, nm("a"), at("x")}})...)
	runQueries(c, av, ap)
	ep := setPaths([]string{"r"}, nil, 1, nil, sq(at("z")), sq(nm("a")), sq(nm("a"), at("x")), sq(nm("a"), at("y")), sq(nm("b")), sq(nm("b"), at("x")), sq(nm("a"), ix(1)), sq(nm("n")), sq(nm("a"), ix(-1)))
	runSets(c, av, ep, []string{"s:v"})
	runDeletes(c, av, ep)
	// entity declarations are never expanded
	var ents []string
	for _, d := range []string{`<!DOCTYPE r [<!ENTITY e "EXPANDED">]>`, `<!DOCTYPE r [<!ENTITY e SYSTEM "file:///etc/hostname">]>`, `<!DOCTYPE r [<!ENTITY % p "x"> <!ENTITY e "&#60;a>no</a>">]>`, `<!doctype r [<!ENTITY lt "EXPANDED"><!ENTITY e "a">]>`, `<!ENTITY e "EXPANDED">`, `<!DOCTYPE e SYSTEM "x.dtd">`} {
		for _, t := range []string{"&e;", "&e;&lt;", "&amp;e;", "%p;", "&e", "&#101;"} {
			ents = append(ents, d+`<r><a x="`+t+`">`+t+`</a><b>k</b></r>`, d+`<r>`+t+`<a/><b>`+t+`</b></r>`)
		}
	}
	runQueries(c, ents, ap)
	runLongOpaques(c, pathCases([][]Seg{{nm("r"), nm("a")}, {nm("r"), nm("b")}, {nm("r"), nm("a"), nm("b")}, {nm("r"), nm("a"), cnt}, {nm("r"), nm("a"), ix(1), at("x")}, {nm("r"), nm("b"), at("x")}, {nm("r"), nm("a"), txt}, {nm("r"), star}, {deep, nm("b")}}))
	runOpaqueEdits(c)
}
