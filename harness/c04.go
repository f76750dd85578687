package main

import (
	"fmt"
	"strings"

	x "verifharness/lib"
)

func init() {
	register(&Check{ID: "C04", Run: runC04, Subs: map[string]Sub{"glob": globSub}, Notes: []string{
		"beyond len(text)*len(pattern) = 10000 neither operator holds (documented complexity bound)",
	}})
}

// globCost is the number of steps the documented complexity bound counts.
func globStopped(text, pat string) bool {
	if !strings.ContainsAny(pat, `*?\`) {
		return false
	}
	n := 0
	p := []rune(pat)
	for i := 0; i < len(p); i++ {
		if p[i] == '\\' && i+1 < len(p) {
			i++
		}
		n++
	}
	return len([]rune(text))*n > 10000
}

func globHolds(text, pat string, neg bool) bool {
	if globStopped(text, pat) {
		return false
	}
	return glob(text, pat) != neg
}

func globPath(pat, op, q, operand string) string {
	return "r.i.#(" + operand + op + q + strings.ReplaceAll(pat, `\`, `\\`) + q + ")"
}

// globSub: text, pattern; both operators, attribute and child operand, both quotes.
func globSub(args []string) string {
	text, pat := args[0], args[1]
	e := xmlEsc(text)
	doc := "<r><i x=\"" + e + "\"><k>" + e + "</k></i></r>"
	for _, q := range []string{"'", `"`} {
		if strings.Contains(pat, q) {
			continue
		}
		for _, operand := range []string{"@x", "k"} {
			t := text
			if operand == "k" {
				t = strings.TrimSpace(t)
			}
			for _, op := range []string{"%", "!%"} {
				want := globHolds(t, pat, op == "!%")
				for _, tail := range []string{"", "#"} {
					got := x.Get(doc, globPath(pat, op, q, operand)+tail).Exists()
					if got != want {
						return fmt.Sprintf("%q %s %q (%s): %v, want %v", t, op, pat, operand, got, want)
					}
				}
			}
		}
	}
	return ""
}

func runC04(c *Ctx) {
	alpha := []string{"a", "b", "*", "?", `\`, "é"}
	nt, np := 4, 5
	if c.thorough {
		nt, np = 5, 6
	}
	texts := strs(alpha, nt)
	pats := strs(alpha, np)
	// all texts in a few documents; one query answers a pattern for all of them
	type batch struct {
		doc   string
		texts []string
	}
	var batches []batch
	for i := 0; i < len(texts); i += 900 {
		t := texts[i:min(i+900, len(texts))]
		var b strings.Builder
		for _, s := range t {
			b.WriteString(`<i x="` + s + `"/>`)
		}
		batches = append(batches, batch{"<r>" + b.String() + "</r>", t})
	}
	Each(c, pats, func(w int, p string) {
		c.State(p)
		c.Begin(w, "glob", "", p)
		for _, b := range batches {
			for _, op := range []string{"%", "!%"} {
				got := x.Get(b.doc, globPath(p, op, "'", "@x")+"#.@x").Array()
				k := 0
				for _, t := range b.texts {
					judged.Add(1)
					want := glob(t, p) == (op == "%")
					has := k < len(got) && got[k].Str == t
					if has {
						k++
					}
					if has != want {
						c.Do("glob", t, p)
						if !c.Stopped() {
							c.Fail("glob", fmt.Sprintf("in a list of texts: %q %s %q is %v, want %v", t, op, p, has, want), t, p)
						}
						break
					}
				}
			}
		}
		c.End(w)
	})
	c.Sample("%d texts x %d patterns, e.g. text %q pattern %q", len(texts), len(pats), texts[len(texts)/2], pats[len(pats)/3])
	// operands as children, both quotes, more special characters
	sp := []string{"a", "*", "?", `\`, " ", ".", "日", "(", ")", "|", "=", "<", ">", "!", "%", "#", "@", "&", `"`, "'", "[", "]", "-", "+", "^", "$", "{", "}"}
	t2 := strs(sp, 2)
	p2 := strs(sp, 2)
	var balanced []string
	for _, p := range p2 {
		balanced = append(balanced, p)
	}
	Each(c, balanced, func(w int, p string) {
		c.State(p)
		c.Begin(w, "glob", "", p)
		for _, t := range t2 {
			c.Do("glob", t, p)
		}
		c.End(w)
	})
	// every single character below 0x250 as text against ?, itself, its neighbour
	var chars []string
	for r := rune(1); r < 0x250; r++ {
		chars = append(chars, string(r))
	}
	for _, r := range []rune{0x7ff, 0x800, 0x20ac, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x1f600, 0x10ffff} {
		chars = append(chars, string(r))
	}
	Each(c, chars, func(w int, t string) {
		if strings.ContainsAny(t, "\n\r\t\x00") {
			return
		}
		for _, p := range []string{"?", "??", t, `\` + t, "*", "a" + t, "?" + t, t + "*", "*" + t, "*" + t + "*", "a*" + t} {
			for _, s := range []string{t, t + t, "a" + t, t + "b", "a" + t + "b"} {
				c.State(s, p)
				c.Do("glob", s, p)
			}
		}
	})
	// sweeps of lengths, up to and beyond the complexity bound
	type tp struct{ t, p string }
	var cases []tp
	for _, n := range sizes(130, 5100) {
		a := strings.Repeat("a", n)
		for _, p := range []string{"*", "a*", "*a", "a*a", "*a*", "**", "?*", "*?", "*b", "b*", a[:min(n, 120)] + "*", strings.Repeat("?", min(n, 200)), strings.Repeat("*a", min(n, 60)), strings.Repeat("a*", min(n, 60)) + "b", strings.Repeat(`\a`, min(n, 60)), "*" + a[:min(n, 100)] + "b*"} {
			cases = append(cases, tp{a, p}, tp{a + "b", p}, tp{"b" + a, p})
		}
	}
	for _, lp := range []int{2, 3, 4, 5, 7, 8, 10, 16, 20, 25, 40, 50, 64, 80, 99, 100, 101, 125, 128, 199, 200, 201} {
		for _, d := range []int{-1, 0, 1} {
			lt := 10000/lp + d
			if lt < 1 {
				continue
			}
			for _, p := range []string{strings.Repeat("a", lp-1) + "*", "*" + strings.Repeat("?", lp-1), strings.Repeat("*", lp), "*" + strings.Repeat("b", lp-1)} {
				cases = append(cases, tp{strings.Repeat("a", lt), p}, tp{strings.Repeat("é", lt), p}, tp{strings.Repeat("b", lt), p})
			}
		}
	}
	Each(c, cases, func(w int, k tp) {
		if len(k.p) > 250 {
			return
		}
		c.State(k.t, k.p)
		c.Begin(w, "glob", k.t, k.p)
		c.Do("glob", k.t, k.p)
		c.End(w)
	})
}
