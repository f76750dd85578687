package main

import (
	"fmt"
	"sort"
	"strings"

	x "verifharness/lib"
)

func init() {
	register(&Check{ID: "C19", Run: runC19, Subs: map[string]Sub{"longbatch": longBatchSub, "fluent": fluentSub, "map": mapSub}})
}

// childQuery is what a path means on an element result: it is evaluated on the
// element's children and starts with a name, wildcard or filter.
func (e Env) childQuery(n *Node, segs []Seg) R {
	if len(segs) == 0 {
		return null
	}
	switch segs[0].K {
	case SName, SStar, SDeep, SFilter:
		return e.query(n.Kids, segs)
	}
	return null
}

// fluentSub: doc, prefix path, remaining path.
func fluentSub(args []string) string {
	doc, pre, rest := args[0], args[1], args[2]
	nodes, err := ParseDoc(doc)
	if err != nil {
		return ""
	}
	ps, _, ok := readPath(pre)
	rs, _, ok2 := readPath(rest)
	if !ok {
		ps = nil
	}
	if !ok2 {
		rs = nil
	}
	return fluentOne(x.Get(doc, pre), Env{}.query(nodes, ps), rest, rs)
}

func fluentWant(base R, segs []Seg) R {
	if base.T == x.Array {
		if len(base.Items) == 0 {
			return null
		}
		base = base.Items[0]
	}
	if base.T != x.Element {
		return null
	}
	return Env{}.childQuery(base.Node, segs)
}

func fluentOne(got x.Result, base R, rest string, segs []Seg) string {
	want := fluentWant(base, segs)
	if d := diffResult(x.RGet(got, rest), want); d != "" {
		return "Get: " + d
	}
	if d := diffResult(x.RGetWithOptions(got, rest, x.DefaultOptions()), want); d != "" {
		return "GetWithOptions(default): " + d
	}
	if d := diffResult(x.RGetWithOptions(got, rest, nil), want); d != "" {
		return "GetWithOptions(nil): " + d
	}
	many := x.RGetMany(got, rest, "zz", rest)
	if len(many) != 3 {
		return fmt.Sprintf("GetMany returned %d results for 3 paths", len(many))
	}
	if d := diffResult(many[0], want); d != "" {
		return "GetMany[0]: " + d
	}
	if d := diffResult(many[2], want); d != "" {
		return "GetMany[2]: " + d
	}
	if d := diffResult(many[1], fluentWant(base, sq(nm("zz")))); d != "" {
		return "GetMany[1]: " + d
	}
	return ""
}

// modelMap is what Map lists for an element: keys with text and number of items.
func modelMap(n *Node, fold bool) map[string]R {
	m := map[string]R{}
	var order []string
	lists := map[string][]R{}
	for _, k := range elems(n.Kids) {
		key := k.Name
		if fold {
			key = strings.ToLower(key)
		}
		if _, ok := lists[key]; !ok {
			order = append(order, key)
		}
		lists[key] = append(lists[key], elemR(k))
	}
	for _, k := range order {
		l := lists[k]
		if len(l) == 1 {
			m[k] = l[0]
		} else {
			m[k] = R{T: x.Array, Items: l}
		}
	}
	if t := textR(n); t.Str != "" {
		m["%"] = t
	}
	return m
}

func diffMap(got map[string]x.Result, want map[string]R) string {
	var keys []string
	for k := range want {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		g, ok := got[k]
		if !ok {
			return fmt.Sprintf("key %q missing", k)
		}
		if d := diffResult(g, want[k]); d != "" {
			return fmt.Sprintf("key %q: %s", k, d)
		}
	}
	for k, v := range got {
		if _, ok := want[k]; !ok {
			return fmt.Sprintf("unexpected key %q = %q", k, v.String())
		}
	}
	return ""
}

// mapSub: doc, path of the element.
func mapSub(args []string) string {
	doc, path := args[0], args[1]
	nodes, err := ParseDoc(doc)
	if err != nil {
		return ""
	}
	segs, _, ok := readPath(path)
	if !ok {
		segs = nil
	}
	base := Env{}.query(nodes, segs)
	got := x.Get(doc, path)
	return mapOne(got, base)
}

func mapOne(got x.Result, base R) string {
	if base.T == x.Array && len(base.Items) > 0 {
		base = base.Items[0]
	}
	if base.T != x.Element {
		if m := x.RMap(got); len(m) != 0 {
			return fmt.Sprintf("Map of a %s has %d keys", typeName(base.T), len(m))
		}
		return ""
	}
	if d := diffMap(x.RMap(got), modelMap(base.Node, false)); d != "" {
		return "Map: " + d
	}
	if d := diffMap(x.RMapWithOptions(got, x.DefaultOptions()), modelMap(base.Node, false)); d != "" {
		return "MapWithOptions(default): " + d
	}
	if d := diffMap(x.RMapWithOptions(got, nil), modelMap(base.Node, false)); d != "" {
		return "MapWithOptions(nil): " + d
	}
	return ""
}

func runC19(c *Ctx) {
	runLongBatches(c, "get")
	longNameJobs(c, true, func(a, b, d string, nodes []*Node, paths []PathCase) {
		c.Do("map", d, "r")
		c.Do("map", d, a)
		for _, rest := range []string{a, b, a + "." + b, b + ".1", b + ".#", "i.@" + b} {
			c.Do("fluent", d, "r", rest)
		}
		c.Do("fluent", d, "r."+a, b)
	})
	n := 4
	if c.thorough {
		n = 5
	}
	eqA := func(o Seg, v string, all bool) Seg {
		return Seg{K: SFilter, Cond: &Cond{sq(o), "==", v, "'"}, All: all}
	}
	pre := pathCases([][]Seg{{nm("a")}, {nm("b")}, {nm("a"), nm("a")}, {nm("a"), nm("b")}, {nm("a"), ix(0)}, {nm("a"), ix(1)}, {nm("a"), nm("b"), ix(1)}, {star}, {nm("a"), star}, {deep, nm("a")}, {deep, nm("b")}, {nm("a"), fld("a")}, {nm("a"), at("x")}, {nm("a"), txt}, {nm("a"), cnt}, {nm("zz")}, {nm("a"), eqA(at("x"), "x1", false)}, {nm("a"), eqA(at("x"), "x1", true)}, {nm("a"), fld("@x")}})
	var rest [][]Seg
	st := append(basicSteps(ab, []int{0, 1}), sq(star), sq(deep, nm("a")), sq(deep, nm("b")))
	for _, p := range withTails(steps(st, 2), nil, sq(at("x")), sq(at("y")), sq(txt), sq(cnt), sq(fld("a")), sq(fld("@x")), sq(fld("%"))) {
		bad := false
		for i := 1; i < len(p); i++ {
			if p[i].K == SCount || p[i].K == SField {
				if k := p[i-1].K; k == SIndex || k == SStar || p[i].K == SCount && i > 1 && p[i-2].K == SDeep {
					bad = true
				}
			}
		}
		if !bad {
			rest = append(rest, p)
		}
	}
	rest = append(rest, sq(ix(0)), sq(cnt), sq(txt), sq(at("x")), sq(eqA(at("x"), "x2", false)), sq(eqA(at("x"), "x2", true)), sq(nm("a"), eqA(at("x"), "x2", true)), sq(nm("a"), eqA(at("x"), "x3", false), at("x")), sq(nm("b"), eqA(nm("a"), "t3", true)))
	restC := pathCases(rest)
	docs := forestDocs(allForests(n, 2), docStyle{names: ab, text: 2, attrs: 1}, docStyle{names: ab, text: 0, attrs: 2, ws: true})
	parsed := parseAll(c, docs)
	type pair struct{ p, r PathCase }
	var pairs []pair
	for _, p := range pre {
		for _, r := range restC {
			pairs = append(pairs, pair{p, r})
		}
	}
	// results of the prefixes are computed once per document
	type basis struct {
		got  x.Result
		want R
	}
	bases := make([][]basis, len(pre))
	for i, p := range pre {
		bases[i] = make([]basis, len(parsed))
		for j := range parsed {
			bases[i][j] = basis{x.Get(parsed[j].text, p.Text), Env{}.query(parsed[j].nodes, p.Segs)}
		}
	}
	Each(c, pairs, func(w int, pr pair) {
		var bs []basis
		for i := range pre {
			if pre[i].Text == pr.p.Text {
				bs = bases[i]
			}
		}
		c.Begin(w, "fluent", parsed[0].text, pr.p.Text, pr.r.Text)
		for j := range parsed {
			if d := guarded(func() string { return fluentOne(bs[j].got, bs[j].want, pr.r.Text, pr.r.Segs) }); d != "" {
				c.Fail("fluent", d, parsed[j].text, pr.p.Text, pr.r.Text)
			}
		}
		c.End(w)
	})
	c.Sample("Get(%q, %q).Get(%q)", docs[len(docs)/2], pre[3].Text, restC[len(restC)/2].Text)
	// Map of every element
	mapDocs := append(forestDocs(forests(n+1, 2), docStyle{names: ab, text: 2, attrs: 1}, docStyle{names: ab, text: 0, attrs: 2, ws: true}), docs...)
	mapDocs = append(mapDocs, spelledDocs()...)
	mapDocs = append(mapDocs, forestDocs(allForests(n, 3), docStyle{names: []string{"a", "A", "p:a"}, text: 0, attrs: 0}, docStyle{names: []string{"a", "aa", "a.b"}, text: 1, attrs: 1})...)
	for _, o := range opaques() {
		mapDocs = append(mapDocs, "<a>t"+o+"<b>u</b>"+o+"<b/>v</a>", "<a>"+o+"</a>", "<r><a><b>"+o+"</b></a></r>")
	}
	mapPaths := append(pre, pathCases([][]Seg{{nm("r")}, {nm("r"), nm("a")}, {nm("A")}, {nm("a"), nm("aa")}, {nm("p:a")}})...)
	Each(c, mapDocs, func(w int, d string) {
		nodes, err := ParseDoc(d)
		if err != nil {
			panic("map document invalid: " + d)
		}
		c.State(d, "map")
		for _, p := range mapPaths {
			if what := guarded(func() string { return mapOne(x.Get(d, p.Text), Env{}.query(nodes, p.Segs)) }); what != "" {
				c.Fail("map", what, d, p.Text)
			}
		}
	})
	// sweeps: every number of children, names and depths
	var ss []Sweep
	for _, k := range sizes(130, 1000) {
		if k == 0 {
			continue
		}
		same := "<r><e>" + rep(k, func(i int) string { return fmt.Sprintf("<i x='%d'>v%d</i>", i, i) }) + "</e></r>"
		diff := "<r><e>tx" + rep(k, func(i int) string { return fmt.Sprintf("<i%d>v%d</i%d>", i, i, i) }) + "</e></r>"
		mixd := "<r><e>" + rep(k, func(i int) string { return fmt.Sprintf("s<i%d>v%d</i%d>", i%7, i, i%7) }) + "</e></r>"
		for _, d := range []string{same, diff, mixd} {
			ss = append(ss, Sweep{"children", d, [][]Seg{{nm("i")}, {nm("i"), ix(k - 1)}, {nm("i"), cnt}, {nm("i0")}, {nm(fmt.Sprint("i", k-1))}, {nm("i"), fld("@x")}, {nm("i3"), ix(1)}, {star}}})
		}
	}
	for k := 1; k <= 97; k++ {
		var d []Seg
		for i := 0; i < k; i++ {
			d = append(d, nm("d"))
		}
		doc := "<r><e>" + strings.Repeat("<d x='1'>", k) + "q" + strings.Repeat("</d>", k) + "</e></r>"
		ss = append(ss, Sweep{"depth", doc, [][]Seg{d, cat(d, sq(at("x"))), cat(d, sq(txt)), cat(d, sq(nm("d"))), {deep, nm("d")}}})
	}
	Each(c, ss, func(w int, s Sweep) {
		nodes, err := ParseDoc(s.Doc)
		if err != nil {
			panic("sweep")
		}
		c.State(s.Doc)
		c.Do("map", s.Doc, "r.e")
		got, base := x.Get(s.Doc, "r.e"), Env{}.query(nodes, sq(nm("r"), nm("e")))
		for _, p := range pathCases(s.Paths) {
			if len(p.Segs) > maxSegments-1 {
				continue
			}
			if what := guarded(func() string { return fluentOne(got, base, p.Text, p.Segs) }); what != "" {
				c.Fail("fluent", what, s.Doc, "r.e", p.Text)
			}
		}
	})
	runNameMaps(c)
	// every spelling and neighbourhood of tags
	near := pathCases([][]Seg{{nm("a")}, {nm("b")}, {nm("a"), ix(1)}, {nm("a"), cnt}, {nm("a"), at("x")}, {nm("b"), at("x")}, {nm("a"), txt}, {txt}, {star}, {deep, nm("b")}, {nm("a"), fld("@x")}, {nm("a"), nm("b")}})
	Each(c, append(neighbourDocs(), spelledDocs()...), func(w int, d string) {
		nodes, err := ParseDoc(d)
		if err != nil {
			panic("neighbours")
		}
		c.State(d)
		for _, p := range pathCases([][]Seg{{nm("r")}, {nm("a")}, {nm("r"), nm("a")}, {nm("r"), nm("a"), ix(1)}}) {
			c.Do("map", d, p.Text)
			got, base := x.Get(d, p.Text), Env{}.query(nodes, p.Segs)
			for _, r := range near {
				if what := guarded(func() string { return fluentOne(got, base, r.Text, r.Segs) }); what != "" {
					c.Fail("fluent", what, d, p.Text, r.Text)
				}
			}
		}
	})
}
