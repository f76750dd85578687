package main

import (
	"fmt"
	"strings"
)

// Surroundings of the target: what stands directly next to the place that an
// edit changes, names that differ little, indices far beyond the end and
// targets far into the document.

// both runs the sets or deletes of all paths on all documents.
func both(c *Ctx, docs []string, paths []PathCase, sets, deletes bool) {
	if sets {
		runSets(c, docs, paths, []string{"s:v"})
	}
	if deletes {
		runDeletes(c, docs, paths)
	}
}

// neighbourDocs have every byte, and runs of white space, next to every place.
func neighbourDocs() []string {
	var near []string
	for b := 1; b < 256; b++ {
		if b != '<' && b != '&' {
			near = append(near, string([]byte{byte(b)}))
		}
	}
	space := []string{" ", "\t", "\n", "\r"}
	near = append(near, strs(space, 3)[1:]...)
	near = append(near, "\u00a0", "\u0085", "\u2028", "\ufeff", "é", "&amp;", "&#10;", "/>", "]]>", "-->", "t \n", "\n t")
	var out []string
	fill := func(parts []string, near []string) {
		for _, n := range near {
			for i := 1; i < len(parts); i++ {
				out = append(out, strings.Join(parts[:i], "")+n+strings.Join(parts[i:], ""))
			}
			out = append(out, strings.Join(parts, n))
		}
	}
	fill([]string{"<r>", "<a>", "t</a>", "<b/>", "<a x='1'>", "</a>", "</r>"}, near)
	// outside the roots only white space is allowed
	fill([]string{"", "<a>t</a>", "<b/>", "<a x='1'></a>", ""}, strs(space, 3)[1:])
	// inside tags
	fill([]string{"<r><a ", "x", "=", "'1' ", "y", "=", "\"2\"", "><b", "/></a", "></r", ">"}, strs(space, 2)[1:])
	return distinct(out)
}

func runNeighbours(c *Ctx, sets, deletes bool) {
	paths := pathCases([][]Seg{{nm("r")}, {nm("r"), at("k")}, {nm("r"), nm("a")}, {nm("r"), nm("a"), ix(1)}, {nm("r"), nm("b")}, {nm("r"), nm("a"), at("x")}, {nm("r"), nm("a"), ix(1), at("x")}, {nm("r"), nm("b"), at("k")}, {nm("r"), nm("n")}, {nm("r"), nm("n"), nm("m")}, {nm("r"), nm("b"), nm("n")}, {nm("r"), nm("a"), nm("n")}, {nm("r"), nm("a"), ix(-1)}, {nm("r"), nm("b"), ix(-1)}, {nm("r"), nm("n"), ix(-1)}, {nm("r"), nm("a"), nm("n"), ix(-1)}, {nm("r"), nm("a"), nm("b")}, {nm("a")}, {nm("a"), ix(1)}, {nm("b")}, {nm("a"), at("x")}, {nm("a"), ix(1), at("x")}, {nm("s")}, {nm("s"), nm("t")}, {nm("a"), ix(-1)}, {nm("b"), ix(-1)}, {nm("s"), ix(-1)}})
	both(c, neighbourDocs(), paths, sets, deletes)
}

// runAlike: documents and paths of names that are equal up to case, prefix or end.
func runAlike(c *Ctx, sets, deletes bool) {
	names := []string{"a", "A", "ab", "p:a", "a-", "a."}
	if c.thorough {
		names = append(names, "q:a", "aa", "p:A", "_a")
	}
	var docs []string
	for _, m := range names {
		docs = append(docs, "<"+m+"/>", "<"+m+">t</"+m+">")
		for _, n := range names {
			docs = append(docs, fmt.Sprintf("<%s>t</%s><%s/>", m, m, n), fmt.Sprintf("<%s><%s/></%s>", m, n, m), fmt.Sprintf("<r><%s/><%s>u</%s></r>", m, n, n), fmt.Sprintf("<r %s='1' %s='2'/>", m, n))
		}
	}
	var valid []string
	for _, d := range docs {
		if _, err := ParseDoc(d); err == nil {
			valid = append(valid, d)
		}
	}
	var segs [][]Seg
	for _, m := range names {
		segs = append(segs, sq(nm(m)), sq(nm("r"), nm(m)), sq(nm("r"), at(m)), sq(nm(m), at("x")), sq(nm(m), ix(1)), sq(nm(m), ix(-1)), sq(nm("r"), nm(m), ix(-1)), sq(nm("r"), nm(m), at("x")), sq(nm("r"), nm(m), ix(1)))
		for _, n := range names {
			segs = append(segs, sq(nm(m), nm(n)), sq(nm(m), nm(n), ix(-1)), sq(nm(m), nm(n), at("x")), sq(nm("r"), nm(m), nm(n)))
		}
	}
	both(c, valid, pathCases(segs), sets, deletes)
}

// runFarIndices: indices around every power of two, and of ten.
func runFarIndices(c *Ctx, sets, deletes bool) {
	var ns []int
	for e := 2; e < 63; e++ {
		ns = append(ns, 1<<e-1, 1<<e, 1<<e+1, 1<<e+2)
	}
	for n := 10; n < 1e18; n *= 10 {
		ns = append(ns, n, n+1)
	}
	var segs [][]Seg
	for _, n := range ns {
		segs = append(segs, sq(nm("r"), nm("i"), ix(n)), sq(nm("r"), nm("i"), ix(n), nm("k")), sq(nm("r"), nm("i"), ix(n), at("x")), sq(nm("r"), ix(n), nm("i")), sq(nm("r"), nm("i"), nm("k"), ix(n)), sq(nm("r"), nm("i"), ix(n), nm("k"), ix(-1)))
	}
	both(c, []string{"<r><i x='0'><k/><k/></i><i x='1'>t<k/></i><i x='2'><k>u</k></i></r>", "<r/><r><i/></r>"}, pathCases(segs), sets, deletes)
}

// farDocs have their targets behind up to 8 MB of text, comments or elements.
func farDocs(thorough bool) []string {
	var out []string
	for e := 17; e <= 23; e++ {
		if !thorough && e != 17 && e != 20 && e != 23 {
			continue
		}
		n := 1 << e
		for _, f := range []string{strings.Repeat("x", n), "<!--" + strings.Repeat("<k/>", n/4) + "-->", strings.Repeat("<j>y</j>", n/8)} {
			out = append(out, "<r><i/><i>"+f+"<k x='1'>t</k><k/></i><j/></r>", "<r><i><k/></i>"+f+"<i><k x='1'>t</k></i></r>", "<q>"+f+"</q><r><i/><i><k x='1'>t</k></i></r>")
		}
	}
	return out
}

func runFar(c *Ctx, sets, deletes bool) {
	both(c, farDocs(c.thorough), pathCases(farPaths()), sets, deletes)
}

func farPaths() [][]Seg {
	return [][]Seg{{nm("r"), nm("i"), ix(1), nm("k")}, {nm("r"), nm("i"), ix(1), nm("k"), ix(1)}, {nm("r"), nm("i"), ix(1), nm("k"), at("x")}, {nm("r"), nm("i"), nm("k")}, {nm("r"), nm("i"), ix(1)}, {nm("r"), nm("i"), ix(1), nm("n")}, {nm("r"), nm("j")}, {nm("r"), nm("i"), ix(1), nm("k"), ix(-1)}, {nm("r"), nm("i"), ix(-1)}, {nm("r"), nm("n")}, {nm("r"), at("x")}, {nm("s")}}
}

// nearQueries asks the paths of documents in every spelling, with every byte
// next to every place.
func nearQueries(c *Ctx, paths [][]Seg) {
	docs := append(neighbourDocs(), spelledDocs()...)
	runQueries(c, docs, pathCases(paths))
}

// nearPaths reach every node of the documents of neighbourDocs and spelledDocs.
func nearPaths() [][]Seg {
	var out [][]Seg
	for _, pre := range [][]Seg{nil, {nm("r")}, {nm("r"), nm("a")}, {nm("r"), nm("a"), ix(1)}, {nm("a")}} {
		if len(pre) > 0 {
			out = append(out, pre, cat(pre, sq(at("x"))), cat(pre, sq(at("y"))), cat(pre, sq(txt)))
		}
		for _, n := range ab {
			p := cat(pre, sq(nm(n)))
			out = append(out, p, cat(p, sq(ix(1))), cat(p, sq(cnt)), cat(p, sq(at("x"))), cat(p, sq(txt)), cat(p, sq(fld("b"))), cat(p, sq(fld("@x"))), cat(p, sq(fld("%"))))
		}
	}
	return out
}

func runFarQueries(c *Ctx) {
	paths := append(farPaths(), sq(nm("r"), nm("i"), cnt), sq(nm("r"), nm("i"), ix(1), nm("k"), cnt), sq(nm("r"), nm("i"), fld("k")), sq(nm("r"), nm("i"), fld("@x")), sq(nm("r"), nm("j"), ix(999)), sq(nm("r"), nm("i"), nm("k"), txt))
	runQueries(c, farDocs(c.thorough), pathCases(paths))
}

// longCompared: texts of every length that differ in one character or their length.
func longCompared(c *Ctx) {
	var lens []int
	for n := 1; n <= 245; n++ {
		lens = append(lens, n)
	}
	Each(c, lens, func(w int, n int) {
		v := strings.Repeat("v", n)
		alts := []string{v, v[1:], v + "v", "w" + v[1:], v[:n/2] + "w" + v[n/2+1:], v[:n-1] + "w", "V" + v[1:], v[:n-1] + "V"}
		var b strings.Builder
		for _, a := range alts {
			b.WriteString(`<i x="` + a + `"><k>` + a + `</k></i>`)
		}
		doc := "<r>" + b.String() + "</r>"
		nodes, err := ParseDoc(doc)
		if err != nil {
			panic("long texts")
		}
		c.State(doc)
		for _, val := range alts {
			for _, op := range []string{"==", "!=", "%", "!%"} {
				for _, o := range []Seg{at("x"), nm("k")} {
					s := sq(nm("r"), nm("i"), Seg{K: SFilter, Cond: &Cond{sq(o), op, val, "'"}, All: true})
					queryOne(c, nodes, doc, PathCase{s, render(s)})
				}
			}
		}
	})
}
