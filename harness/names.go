// Sweeps over names: every pair of related names, every pair of name characters.
package main

import (
	"fmt"
	"regexp"
	"strings"

	x "verifharness/lib"
)

var plainName = regexp.MustCompile(`^[A-Za-z_][A-Za-z0-9_:-]*$`)

const nameBytes = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_:."

// related are names that contain, extend or resemble each other.
var related = []string{"a", "A", "b", "aa", "ab", "ba", "aB", "a0", "a1", "a9", "_a", "a_", "a-", "a-b", "a_b", "a.b", "a.", "p:a", "p:A", "P:a", "q:a", "p:b", "pp:a", "p:aa", "a:p", "a:a", "p:a:b", "z", "Z", "Zz", "zZ", "xmlns", "xmlns:a", "xml:a", "true", "null", "first", "sort"}

func namePairDocs(m, n string) []Sweep {
	var attrs string
	if !strings.EqualFold(m, n) {
		attrs = fmt.Sprintf(` %s="1" %s='2'`, m, n)
	} else {
		attrs = fmt.Sprintf(` %s="1"`, m)
	}
	doc := fmt.Sprintf(`<r%[3]s><%[1]s x="3">u</%[1]s><%[2]s x="4">v<%[1]s%[3]s>w</%[1]s></%[2]s></r>`, m, n, attrs)
	var p [][]Seg
	for _, k := range []string{m, n} {
		p = append(p, sq(nm("r"), at(k)), sq(nm("r"), nm(k)), sq(nm("r"), nm(k), ix(1)), sq(nm("r"), nm(k), cnt), sq(nm("r"), nm(k), at("x")), sq(deep, nm(k)), sq(deep, nm(m), at(k)), sq(nm("r"), star, nm(k)), sq(nm("r"), nm(n), nm(k)), sq(nm("r"), nm(n), nm(m), at(k)), sq(star, at(k)))
		if plainName.MatchString(k) {
			p = append(p, sq(nm("r"), fld(k)), sq(nm("r"), fld("@"+k)), sq(Seg{K: SFilter, Cond: &Cond{Path: sq(at(k))}, All: true}), sq(nm("r"), Seg{K: SFilter, Cond: &Cond{Path: sq(nm(k))}, All: true}), sq(nm("r"), nm(n), Seg{K: SFilter, Cond: &Cond{sq(nm(k)), "==", "w", "'"}}))
		}
	}
	return []Sweep{{"names", doc, p}}
}

// nameSweeps: all pairs of related names and all pairs of single name characters.
func nameSweeps(thorough bool) []Sweep {
	var out []Sweep
	for _, m := range related {
		for _, n := range related {
			out = append(out, namePairDocs(m, n)...)
		}
	}
	for i := range nameBytes {
		for j := range nameBytes {
			a, b := string(nameBytes[i]), string(nameBytes[j])
			out = append(out, namePairDocs("k"+a, "k"+b)...)
			if a+b != "::" && thorough {
				out = append(out, namePairDocs("k"+a+b, "k"+b+a)...)
			}
		}
	}
	return out
}

// runNameEdits sets, creates and deletes at every path of the name sweeps.
func runNameEdits(c *Ctx, sets, deletes bool) {
	Each(c, nameSweeps(c.thorough), func(w int, s Sweep) {
		c.State(s.Doc)
		for _, p := range pathCases(s.Paths) {
			if !addressesOne(p.Segs) {
				continue
			}
			if sets {
				if what := guarded(func() string { return setOne(s.Doc, p.Text, p.Segs, "s:v") }); what != "" {
					c.Fail("set", what, s.Doc, p.Text, "s:v")
				}
			}
			if deletes {
				if what := guarded(func() string { return deleteOne(s.Doc, p.Text, p.Segs) }); what != "" {
					c.Fail("delete", what, s.Doc, p.Text)
				}
			}
		}
	})
}

// addressesOne: names and indices with an optional attribute.
func addressesOne(segs []Seg) bool {
	for i, s := range segs {
		if s.K != SName && s.K != SIndex && !(s.K == SAttr && i == len(segs)-1 && i > 0) {
			return false
		}
	}
	return true
}

// runNameFold does the same with case folded names.
func runNameFold(c *Ctx) {
	Each(c, nameSweeps(c.thorough), func(w int, s Sweep) {
		nodes, err := ParseDoc(s.Doc)
		if err != nil {
			panic("sweep")
		}
		c.State(s.Doc)
		for _, p := range pathCases(s.Paths) {
			for _, t := range []string{p.Text, strings.ToUpper(p.Text), strings.ToLower(p.Text)} {
				segs, _, ok := readPath(t)
				if !ok {
					continue
				}
				if what := guarded(func() string { return foldOne(nodes, s.Doc, t, segs) }); what != "" {
					c.Fail("fold", what, s.Doc, t)
				}
				if !addressesOne(segs) {
					continue
				}
				if what := guarded(func() string { return foldSetOne(s.Doc, t, segs) }); what != "" {
					c.Fail("foldset", what, s.Doc, t)
				}
				if what := guarded(func() string { return foldDeleteOne(s.Doc, t, segs) }); what != "" {
					c.Fail("folddelete", what, s.Doc, t)
				}
			}
		}
		if what := guarded(func() string { return foldFluentSub([]string{s.Doc, "R", render(s.Paths[1][1:])}) }); what != "" {
			c.Fail("foldfluent", what, s.Doc, "R", render(s.Paths[1][1:]))
		}
	})
}

// runNameMaps lists and walks the children fluently.
func runNameMaps(c *Ctx) {
	Each(c, nameSweeps(c.thorough), func(w int, s Sweep) {
		nodes, err := ParseDoc(s.Doc)
		if err != nil {
			panic("sweep")
		}
		c.State(s.Doc)
		c.Do("map", s.Doc, "r")
		got, base := x.Get(s.Doc, "r"), Env{}.query(nodes, sq(nm("r")))
		for _, p := range s.Paths {
			if p[0].K != SName || len(p) < 2 || p[1].K == SField {
				continue
			}
			rest := p[1:]
			if what := guarded(func() string { return fluentOne(got, base, render(rest), rest) }); what != "" {
				c.Fail("fluent", what, s.Doc, "r", render(rest))
			}
		}
	})
}
