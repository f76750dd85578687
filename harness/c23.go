package main

import (
	"fmt"
	"strings"
)

func init() {
	register(&Check{ID: "C23", Run: runC23, Subs: map[string]Sub{"query": querySub, "set": setSub, "delete": deleteSub}, Notes: []string{
		"prefixes up to 256 characters; a longer one makes the whole name unprefixed (documented limit)",
	}})
}

func runC23(c *Ctx) {
	names := []string{"a", "p:a", "q:a", "b", "p:b"}
	path := []string{"a", "p:a", "q:a", "z:a", "b", "p:b", "q:b"}
	n := 3
	if c.thorough {
		n = 4
	}
	st := docStyle{names: names, text: 1, attrs: 1}
	small := forestDocs(allForests(n, 5), st)
	var segs [][]Seg
	for _, p := range steps(basicSteps(path, []int{0, 1}), 2) {
		segs = append(segs, p)
		if p[len(p)-1].K == SName {
			segs = append(segs, cat(p, sq(cnt)), cat(p, sq(at("x"))), cat(p, sq(txt)))
			for _, f := range path {
				segs = append(segs, cat(p, sq(fld(f))))
			}
		}
	}
	for _, a := range path {
		cond := func(p string, all bool) Seg {
			return Seg{K: SFilter, Cond: &Cond{sq(nm(p)), "", "", ""}, All: all}
		}
		segs = append(segs, sq(star, nm(a)), sq(deep, nm(a)), sq(deep, nm(a), at("x")), sq(star, star, nm(a)))
		for _, b := range path {
			segs = append(segs, sq(nm(a), cond(b, true)), sq(nm(a), cond(b, false)), sq(nm(a), cond(b, true), nm(b)), sq(nm(a), star, nm(b)), sq(nm(a), deep, nm(b)), sq(deep, nm(a), nm(b)), sq(star, nm(a), nm(b)), sq(star, nm(a), ix(0), nm(b)), sq(nm(a), Seg{K: SFilter, Cond: &Cond{sq(nm(b)), "!=", "q", "'"}, All: true}, at("x")))
			for _, d := range path {
				segs = append(segs, sq(nm(a), nm(b), nm(d)), sq(nm(a), nm(b), Seg{K: SFilter, Cond: &Cond{sq(nm(d)), "", "", ""}, All: true}))
			}
		}
	}
	cases := pathCases(segs)
	runQueries(c, small, cases)
	runQueries(c, forestDocs(forests(n+1, 4), docStyle{names: []string{"a", "p:a", "q:a", "b"}, text: 0, attrs: 2}), cases)
	runQueries(c, forestDocs(forests(n+1, 3), docStyle{names: names[:3], text: 1, attrs: 1}), pathCases(withTails(steps(basicSteps([]string{"a", "p:a", "z:a"}, []int{1, 2}), 2), nil, sq(at("x")))))
	// modifications: every target name with every document
	ep := setPaths([]string{"a", "p:a", "q:a", "z:a", "b", "p:b"}, []int{0, 1}, 2, nil, sq(at("x")), sq(ix(-1)))
	var keep []PathCase
	for _, p := range ep {
		ok := true
		for i := 1; i < len(p.Segs); i++ {
			ok = ok && !(p.Segs[i].K == SIndex && p.Segs[i-1].K == SIndex)
		}
		if ok {
			keep = append(keep, p)
		}
	}
	edocs := forestDocs(allForests(2, 5), docStyle{names: names, text: 0, attrs: 1})
	edocs = append(edocs, forestDocs(forests(3, 3), docStyle{names: names[:3], text: 0, attrs: 2})...)
	if c.thorough {
		edocs = append(edocs, small...)
	}
	runSets(c, edocs, keep, []string{"s:v"})
	runDeletes(c, edocs, keep)
	// attribute names are compared as written
	attrs := []string{"x", "p:x", "q:x", "xmlns", "xmlns:p", "y"}
	var ad []string
	product(len(attrs), 2, func(i []int) {
		ad = append(ad, fmt.Sprintf(`<r><p:a %s="1" %s="2">t</p:a><a %[2]s="3"/></r>`, attrs[i[0]], attrs[i[1]]))
	})
	var ap [][]Seg
	for _, a := range append(attrs, "z:x") {
		for _, e := range []string{"a", "p:a", "q:a"} {
			ap = append(ap, sq(nm("r"), nm(e), at(a)))
		}
	}
	runQueries(c, ad, pathCases(ap))
	runLongNames(c, true, true, true)
	runLongPrefixes(c)
	runSets(c, ad, pathCases(ap), []string{"s:v"})
	runDeletes(c, ad, pathCases(ap))
	// unusual names: several colons, empty prefix or local name, prefixes of each other
	odd := []string{"a", "p:a", "p:a:b", ":a", "a:", "p", "pp:a", "p:aa", "p:p", "a:p", "_:a", "p-1:a", "p.q:a", "P:a", "p:A"}
	var od []string
	product(len(odd), 2, func(i []int) {
		od = append(od, fmt.Sprintf(`<r><%[1]s x="1">s<%[2]s>t</%[2]s></%[1]s><%[2]s>u</%[2]s></r>`, odd[i[0]], odd[i[1]]))
	})
	var op, oe [][]Seg
	for _, a := range append(odd, "b", "q:b", "a:b") {
		for _, t := range [][]Seg{nil, {cnt}, {ix(1)}, {at("x")}} {
			op = append(op, cat(sq(nm("r"), nm(a)), t))
		}
		oe = append(oe, sq(nm("r"), nm(a)), sq(nm("r"), nm(a), at("x")))
		op = append(op, sq(deep, nm(a)), sq(nm("r"), star, nm(a)))
	}
	op2 := pathCases(op)
	runQueries(c, od, op2)
	runDeletes(c, od, pathCases(oe))
	// every prefix and local name length
	var ss []Sweep
	for _, k := range sizes(260, 300) {
		if k == 0 || k > 255 {
			continue
		}
		p, l := strings.Repeat("p", k), strings.Repeat("l", k)
		ss = append(ss, Sweep{"prefix", "<r><" + p + "x:a>0</" + p + "x:a><" + p + ":a>1</" + p + ":a><a>2</a><" + p[:k-1] + "q:a>3</" + p[:k-1] + "q:a></r>", [][]Seg{{nm("r"), nm("a"), cnt}, {nm("r"), nm(p + ":a"), cnt}, {nm("r"), nm(p + ":a")}, {nm("r"), nm(p[:k-1] + "q:a")}, {nm("r"), nm("a"), ix(3)}, {deep, nm(p + ":a")}}},
			Sweep{"local", "<r><p:" + l + "m>0</p:" + l + "m><p:" + l + ">1</p:" + l + "><q:" + l + ">2</q:" + l + "></r>", [][]Seg{{nm("r"), nm(l), cnt}, {nm("r"), nm("p:" + l)}, {nm("r"), nm("q:" + l)}, {nm("r"), nm(l), ix(1)}, {deep, nm("q:" + l)}}})
	}
	for i := range ss {
		var keep [][]Seg
		for _, p := range ss[i].Paths {
			if len(render(p)) > 0 {
				keep = append(keep, p)
			}
		}
		ss[i].Paths = keep
	}
	runSweepList(c, ss)
	runSweepList(c, nameSweeps(c.thorough))
	runNameEdits(c, true, true)
}
