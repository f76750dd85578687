package main

import (
	"fmt"
	"strings"
)

func init() {
	register(&Check{ID: "C02", Run: runC02, Subs: map[string]Sub{"query": querySub}, Notes: []string{
		"** directly followed by ** and # or #.field directly after * are outside the modelled language",
	}})
}

// wildPaths enumerates paths of the given number of steps that contain a wildcard.
func wildPaths(names []string, idx []int, depth int, tails ...[]Seg) []PathCase {
	alpha := basicSteps(names, idx)
	alpha = append(alpha, sq(star))
	for _, n := range names {
		alpha = append(alpha, sq(deep, nm(n)))
	}
	alpha = append(alpha, sq(deep, star))
	var keep [][]Seg
	for _, p := range withTails(steps(alpha, depth), tails...) {
		wild, bad := false, false
		for i, s := range p {
			if s.K == SStar || s.K == SDeep {
				wild = true
			}
			if i > 0 && (s.K == SField || s.K == SCount) {
				switch p[i-1].K {
				case SIndex, SStar:
					bad = true
				case SName:
					// #.field after **.name is supported, # is not
					if s.K == SCount && i > 1 && p[i-2].K == SDeep {
						bad = true
					}
				}
			}
		}
		if wild && !bad {
			keep = append(keep, p)
		}
	}
	return pathCases(keep)
}

func runC02(c *Ctx) {
	tails := [][]Seg{nil, {at("x")}, {at("y")}, {txt}, {fld("a")}, {fld("@y")}, {fld("%")}, {cnt}}
	styles := []docStyle{
		{names: ab, text: 1, attrs: 1},
		{names: ab, text: 0, attrs: 2},
		{names: ab, text: 2, attrs: 2, ws: true},
	}
	n := 4
	if c.thorough {
		n = 5
	}
	runQueries(c, forestDocs(allForests(n, 2), styles...), wildPaths([]string{"a", "b"}, []int{0, 1}, 3, tails...))
	runQueries(c, forestDocs(forests(n+1, 2), styles...), wildPaths([]string{"a", "b", "c"}, []int{0, 1, 2}, 2, tails...))
	runQueries(c, forestDocs(forests(n+2, 2), styles[1:2]...), wildPaths([]string{"a", "b"}, []int{0}, 2, nil, sq(at("x"))))
	runQueries(c, forestDocs(forests(n+1, 1), styles...), wildPaths([]string{"a"}, []int{0, 1}, 4, nil, sq(at("y"))))
	// filters behind wildcards
	f := func(all bool, p Seg) Seg { return Seg{K: SFilter, Cond: &Cond{Path: sq(p)}, All: all} }
	var paths [][]Seg
	for _, pre := range [][]Seg{{star}, {star, star}, {nm("a"), star}, {deep, nm("a")}, {deep, nm("b")}, {nm("a"), deep, nm("b")}} {
		for _, all := range []bool{false, true} {
			for _, p := range []Seg{at("x"), at("y"), nm("a"), nm("b")} {
				paths = append(paths, withTails([][]Seg{pre}, sq(f(all, p)), sq(f(all, p), at("x")), sq(f(all, p), nm("a")), sq(f(all, p), star), sq(f(all, p), deep, nm("b")), sq(f(all, p), txt))...)
			}
		}
	}
	for _, pre := range [][]Seg{{deep}, {nm("a"), deep}, {star, deep}, {nm("b"), ix(0), deep}} {
		for _, all := range []bool{false, true} {
			for _, p := range []Seg{at("x"), at("y"), nm("a"), nm("b")} {
				paths = append(paths, withTails([][]Seg{pre}, sq(f(all, p)), sq(f(all, p), at("x")), sq(f(all, p), nm("a")), sq(f(all, p), nm("a"), ix(1)), sq(f(all, p), star), sq(f(all, p), deep, nm("b")), sq(f(all, p), txt), sq(f(all, p), fld("b")), sq(f(all, p), deep, f(all, at("x"))))...)
			}
		}
	}
	for _, all := range []bool{false, true} {
		for _, p := range []Seg{at("x"), nm("a")} {
			paths = append(paths, sq(nm("a"), f(all, p), star), sq(nm("a"), f(all, p), deep, nm("a")), sq(nm("a"), f(all, p), deep, star, at("x")))
		}
	}
	runQueries(c, forestDocs(allForests(n+1, 2), styles[1], styles[2]), pathCases(paths))
	runWildSweeps(c)
	nearQueries(c, [][]Seg{{star}, {star, star}, {nm("r"), star}, {nm("a"), star}, {deep, nm("a")}, {deep, nm("b")}, {deep, star}, {nm("r"), deep, nm("b")}, {star, at("x")}, {deep, nm("a"), at("x")}, {deep, nm("a"), txt}, {star, nm("a")}, {star, star, at("x")}, {nm("r"), star, nm("b")}, {nm("r"), star, txt}})
}

func runWildSweeps(c *Ctx) {
	var ss []Sweep
	add := func(doc string, paths ...[]Seg) { ss = append(ss, Sweep{"wild", doc, paths}) }
	dense := 120
	if c.thorough {
		dense = 400
	}
	for _, n := range sizes(dense, 1100) {
		if n == 0 {
			continue
		}
		item := func(i int) string {
			return fmt.Sprintf(`<i%d x="%d"><v>%d</v>%s</i%d>`, i%3, i, i*7, map[bool]string{true: "<w y='1'/>", false: ""}[i%5 == 4], i%3)
		}
		paths := [][]Seg{
			{nm("r"), star}, {nm("r"), star, at("x")}, {nm("r"), star, nm("v")}, {nm("r"), star, nm("w"), at("y")}, {nm("r"), star, txt}, {star, star, nm("v")}, {star, nm("i1")}, {nm("r"), star, star},
			{nm("r"), deep, nm("v")}, {deep, nm("v")}, {deep, nm("i2")}, {deep, nm("i0"), at("x")}, {deep, nm("i0"), nm("v")}, {deep, nm("w"), at("y")}, {nm("r"), deep, nm("i1"), txt}, {deep, star}, {deep, nm("r"), nm("i1")},
		}
		add("<r>"+rep(n, item)+"</r>", paths...)
	}
	for n := 1; n <= 100; n++ {
		name := func(i int) string { return fmt.Sprint("d", i%3) }
		d := rep(n, func(i int) string { return fmt.Sprintf("<%s x='%d'>s%d", name(i), i, i) }) + rep(n, func(i int) string { return fmt.Sprintf("</%s>", name(n-1-i)) })
		add(d, sq(deep, nm("d0")), sq(deep, nm("d1"), at("x")), sq(nm("d0"), deep, nm("d2")), sq(deep, star), sq(deep, nm("d2"), nm("d0")), sq(deep, nm("d1"), txt), sq(star, star, star, star))
		// stars as deep as the document
		if n <= 60 {
			st := make([]Seg, n)
			for i := range st {
				st[i] = star
			}
			add(d, st, cat(st, sq(at("x"))), cat(st, sq(star)))
			add("<r><q>"+d+"</q><q>"+d+"</q></r>", cat(sq(nm("r"), star), st), cat(sq(nm("r"), star), st, sq(at("x"))))
		}
	}
	// a grid of k x m children
	for _, k := range []int{1, 2, 3, 10, 31, 32, 33} {
		for _, m := range []int{0, 1, 2, 31, 32, 33, 40} {
			d := "<r>" + rep(k, func(i int) string {
				return "<p>" + rep(m, func(j int) string { return fmt.Sprintf("<q z='%d'>%d.%d</q>", i*j, i, j) }) + "</p>"
			}) + "</r>"
			add(d, sq(nm("r"), star, star), sq(nm("r"), star, nm("q")), sq(nm("r"), star, nm("q"), ix(1)), sq(nm("r"), star, nm("q"), cnt), sq(deep, nm("q")), sq(deep, nm("q"), at("z")), sq(star, star, star, at("z")))
		}
	}
	// empty and attribute-rich documents
	for n := 0; n <= 100; n++ {
		d := "<r><a" + rep(n, func(i int) string { return fmt.Sprintf(` k%d="v%d"`, i, i) }) + "/><b>" + strings.Repeat("<a k0='q'/>", 3) + "</b></r>"
		p := [][]Seg{{nm("r"), star}, {deep, nm("a")}, {deep, nm("a"), at("k0")}}
		if n > 0 {
			p = append(p, sq(nm("r"), star, at(fmt.Sprint("k", n-1))), sq(deep, nm("a"), at(fmt.Sprint("k", n-1))))
		}
		add(d, p...)
	}
	runSweepList(c, ss)
}
