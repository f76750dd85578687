package main

import (
	"fmt"
	"strings"

	x "verifharness/lib"
)

func init() {
	register(&Check{ID: "C24", Run: runC24, Subs: map[string]Sub{"path": pathSub, "edit": pathEditSub}, Notes: []string{
		"every path is compared with its canonical spelling; paths whose segments stand in a meaningful order are also compared with the reference answer",
	}})
}

// modelled says whether the segments stand in an order whose meaning the
// documentation gives.
func modelled(segs []Seg) bool {
	if len(segs) > 0 && belowLeaf(segs) {
		return true // nothing is there, whatever the rest says
	}
	for i, s := range segs {
		last := i == len(segs)-1
		var prev SegKind = -1
		if i > 0 {
			prev = segs[i-1].K
		}
		switch s.K {
		case SText, SAttr, SCount, SField:
			if s.K == SCount && (prev != SName && prev != -1 || i > 1 && segs[i-2].K == SDeep) {
				return false
			}
			if s.K == SField && prev != SName && prev != SFilter && prev != -1 || s.K == SField && i > 1 && segs[i-2].K == SDeep {
				return false
			}
			if prev == SDeep {
				return false
			}
		case SIndex:
			if prev != SName && prev != -1 || i > 1 && segs[i-2].K == SDeep {
				return false
			}
		case SFilter:
			if prev != SName && prev != -1 {
				return false
			}
			if t := render(s.Cond.Path); s.Src != t || strings.TrimSpace(t) != t {
				return false // operand in an unusual spelling
			}
			for _, k := range s.Cond.Path {
				if k.K != SName && !(len(s.Cond.Path) == 1 && k.K == SAttr) {
					return false
				}
			}
		case SDeep:
			if last || segs[i+1].K != SName && segs[i+1].K != SStar {
				return false
			}
		}
	}
	return true
}

// respell writes segments and modifiers canonically; ok is false when the
// canonical form is not at hand.
func respell(segs []Seg, mods []string) (string, bool) {
	out := make([]Seg, len(segs))
	copy(out, segs)
	for i, s := range out {
		if s.K == SName && s.Name == "" || s.Mods && i < len(segs)-1 {
			return "", false
		}
		if s.K != SFilter {
			continue
		}
		if !modelled(sq(s)) || len(s.Cond.Path) == 0 {
			return "", false
		}
		c := *s.Cond
		if c.Op != "" {
			c.Quote = "'"
			if strings.Contains(c.Value, "'") {
				c.Quote = `"`
			}
			if strings.Contains(c.Value, c.Quote) || strings.HasSuffix(c.Value, `\`) {
				return "", false
			}
		}
		out[i].Cond = &c
	}
	t := render(out)
	for _, m := range mods {
		t += "|@" + nameEsc.Replace(m)
	}
	return t, true
}

func pathSub(args []string) string {
	nodes, err := ParseDoc(args[0])
	if err != nil {
		return ""
	}
	segs, mods, ok := readPath(args[1])
	return pathOne(nodes, args[0], args[1], segs, mods, ok)
}

func pathOne(nodes []*Node, doc, path string, segs []Seg, mods []string, ok bool) string {
	got := x.Get(doc, path)
	if !ok || len(segs) == 0 {
		if got.Type != x.Null {
			return fmt.Sprintf("a path that addresses nothing gives %s %q", typeName(got.Type), got.String())
		}
		return ""
	}
	if canonical, ok := respell(segs, mods); ok && canonical != path {
		if a, b := shapeText(got), shapeText(x.Get(doc, canonical)); a != b {
			return fmt.Sprintf("gives %s, but its canonical spelling %q gives %s", clip(a), canonical, clip(b))
		}
	}
	if len(mods) == 0 && modelled(segs) {
		return diffResult(got, Env{}.query(nodes, segs))
	}
	return ""
}

// pathEditSub: Set, append and Delete read the path alike.
func pathEditSub(args []string) string {
	doc, path := args[0], args[1]
	segs, mods, ok := readPath(path)
	if len(mods) > 0 {
		return ""
	}
	return pathEditOne(doc, path, segs, ok)
}

func pathEditOne(doc, path string, segs []Seg, ok bool) string {
	if !ok {
		segs = nil
	}
	for i, s := range segs {
		// wildcards and segments after an attribute are outside the modelled language of Set
		if s.K == SStar || s.K == SDeep || s.K == SAttr && i < len(segs)-1 || s.K == SName && strings.Contains(s.Name, "[") {
			return ""
		}
	}
	if d := setOne(doc, path, segs, "s:v"); d != "" {
		return "Set: " + d
	}
	return deleteOne(doc, path, segs)
}

func runC24(c *Ctx) {
	docs := []string{
		`<a x="1" a="q">t<b x="2">1</b><a.b>w<a>z</a></a.b><b>0</b><a>n</a></a><b>k<a>1</a><a>2</a></b><a.b a="r">d<b>e</b></a.b><a x="3"/>`,
		`<a><b><a>1</a></b><b.a>5</b.a><a-1>6</a-1><_>7</_></a><p:a><p:b>8</p:b></p:a><a.a.a>9</a.a.a>`,
		`<b.>1</b.><a>0<b>0</b></a><a x="0" b="9"><b x="a">a</b></a><a0>x</a0><b-><a->2</a-></b->`,
	}
	parsed := parseAll(c, docs)
	chars := strings.Split(`ab.\#()@%*|0-='`, "")
	n, m := 5, 3
	if c.thorough {
		n, m = 6, 4
	}
	one := func(w int, path string) {
		segs, mods, ok := readPath(path)
		for _, d := range parsed {
			if what := guarded(func() string { return pathOne(d.nodes, d.text, path, segs, mods, ok) }); what != "" {
				c.Fail("path", what, d.text, path)
			}
		}
		c.States(1)
	}
	edit := func(w int, path string) {
		segs, mods, ok := readPath(path)
		if len(mods) > 0 {
			return
		}
		for _, d := range docs[:2] {
			if what := guarded(func() string { return pathEditOne(d, path, segs, ok) }); what != "" {
				c.Fail("edit", what, d, path)
			}
		}
		c.States(1)
	}
	for l := 0; l <= n; l++ {
		words(c, chars, l, func(w int, word []byte) { one(w, string(word)) })
		if l < n {
			words(c, chars, l, func(w int, word []byte) { edit(w, string(word)) })
		}
	}
	for l := 0; l <= n+2; l++ {
		words(c, strings.Split(`ab.\`, ""), l, func(w int, word []byte) { one(w, string(word)) })
	}
	for l := 0; l <= n; l++ {
		words(c, strings.Split(`ab.\@-01`, ""), l, func(w int, word []byte) { edit(w, string(word)) })
		words(c, strings.Split(`ab=!<>%'1\.@ `, ""), l, func(w int, word []byte) {
			if l <= n-1 || c.thorough {
				one(w, "a.#("+string(word)+")")
				one(w, "b.a.#("+string(word)+")#.@x")
			}
		})
		words(c, strings.Split(`()'"\a.#`, ""), l, func(w int, word []byte) { one(w, "a.#(b=="+string(word)+").b") })
	}
	c.Sample("all path strings of up to %d of %q", n, strings.Join(chars, ""))
	toks := []string{"a", "b", `a\.b`, `\.`, `\\`, `\`, ".", "..", "#", "#.", "0", "1", "-1", "00", "01", "-0", "+1", "1a", "@x", "@a", "@", "%", "*", "**", "#(b)", "#(b==1)", "#(b=='0')#", "#(@x=='1')#", "#(@x>0)", "#(", "#()", "#()#", ")", "|", "|@first", "|@reverse", "|x", "|@", "| @last ", "é", " ", "a b", "p:a", ":a", `\#`, `\@x`, `\0`, `\*`, "#(b%0*)#", "#(b.a)", "99999999999999999999", "-99999999999999999999", "#a", "%a", "a%"}
	for l := 1; l <= m; l++ {
		words(c, toks, l, func(w int, word []byte) { one(w, string(word)) })
		words(c, toks, l, func(w int, word []byte) { one(w, "a."+string(word)) })
	}
	// tokens joined by dots
	var dotted []string
	for l := 2; l <= m; l++ {
		product(len(toks), l, func(ix []int) {
			p := make([]string, len(ix))
			for i, k := range ix {
				p[i] = toks[k]
			}
			dotted = append(dotted, strings.Join(p, "."))
		})
	}
	Each(c, dotted, func(w int, p string) { one(w, p); edit(w, p) })
	// every byte in every role
	var bytes []string
	for i := 0; i < 256; i++ {
		b := string([]byte{byte(i)})
		bytes = append(bytes, b, "a"+b, b+"a", "a."+b, "a"+b+"b", "a.@"+b, `a\`+b+"b", `\`+b, "a.#(b=="+b+")", "a.#(b=='"+b+"')#", "a.#("+b+"==1)", "a.#(b"+b+"1)", "a|"+b, "a|@"+b, "a.#."+b, "a.0"+b, "#(a"+b+")")
	}
	Each(c, bytes, func(w int, p string) { one(w, p); edit(w, p) })
	// every number of segments, of empty segments and of characters
	var long []string
	for k := 1; k <= 130; k++ {
		long = append(long, strings.TrimSuffix(strings.Repeat("a.", k), "."), strings.Repeat(".", k)+"a.b", "a"+strings.Repeat(".", k)+"b", strings.Repeat("a.", k), "a."+strings.Repeat("0.", k)+"b", "a."+strings.Repeat("**.", k)+"b", "a.#("+strings.Repeat("b.", k)+"b)", "a"+strings.Repeat("|@first", k), "a."+strings.Repeat("#().", k)+"b")
	}
	for _, k := range sizes(300, 1100) {
		v := strings.Repeat("v", k)
		long = append(long, v, "a."+v, "a.@"+v, "a.#("+v+")", "a.#(b=="+v+")", "a.#(b=='"+v+"')#", "a.#."+v, "a|@"+v, strings.Repeat(`\`, k)+"a", strings.Repeat("0", k), "a."+strings.Repeat("0", k), "a."+strings.Repeat("9", k), "a.-"+strings.Repeat("9", k), "a.#"+strings.Repeat("(", k)+"b"+strings.Repeat(")", k), strings.Repeat("é", k))
	}
	Each(c, long, func(w int, p string) { one(w, p); edit(w, p) })
	// documents whose depth and names make long paths meaningful
	var deepDocs []Sweep
	for k := 1; k <= 100; k++ {
		doc := strings.Repeat("<a.a>", k) + "q" + strings.Repeat("</a.a>", k)
		var segs []Seg
		for i := 0; i < k; i++ {
			segs = append(segs, nm("a.a"))
		}
		deepDocs = append(deepDocs, Sweep{"depth", doc, [][]Seg{segs}})
	}
	Each(c, deepDocs, func(w int, s Sweep) {
		p := render(s.Paths[0])
		for _, q := range []string{p, strings.ReplaceAll(p, "a", `\a`), p + strings.Repeat(".a", 100-len(s.Paths[0])), p + strings.Repeat(".a", 101-len(s.Paths[0])), strings.Replace(p, "a", "a.", 1)} {
			c.Do("path", s.Doc, q)
			c.State(s.Doc, q)
		}
	})
}
