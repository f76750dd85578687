package main

import (
	"fmt"
	"strings"

	x "verifharness/lib"
)

func init() {
	register(&Check{ID: "C14", Run: runC14, Subs: map[string]Sub{"raw": rawSub}, Notes: []string{
		"declarations other than DOCTYPE and ENTITY, and comments that begin with '>' or '->', may be accepted or rejected",
	}})
}

// rawGate says what the gate must do with a fragment: reject, accept or either.
func rawGate(raw string) (kids []*Node, must string) {
	kids, err := ParseContent(raw)
	if err != nil {
		return nil, "reject"
	}
	must = "accept"
	var walk func(ns []*Node)
	walk = func(ns []*Node) {
		for _, n := range ns {
			if n.Kind == KElem {
				walk(n.Kids)
			}
			if n.Kind != KOpaque || must == "reject" {
				continue
			}
			up := strings.ToUpper(n.Text)
			switch {
			case strings.HasPrefix(n.Text, "<!--"):
				if strings.HasPrefix(n.Text[4:], ">") || strings.HasPrefix(n.Text[4:], "->") && n.Text != "<!---->" {
					must = "either"
				}
			case strings.HasPrefix(n.Text, "<![CDATA["):
				if strings.Contains(n.Text[9:], "<![CDATA[") {
					must = "reject"
				}
			case strings.HasPrefix(up, "<!DOCTYPE"), strings.HasPrefix(up, "<!ENTITY"):
				must = "reject"
			case strings.HasPrefix(n.Text, "<!"):
				must = "either"
			}
		}
	}
	walk(kids)
	return kids, must
}

func depthOf(ns []*Node) int {
	d := 0
	for _, n := range ns {
		if n.Kind == KElem {
			if k := depthOf(n.Kids) + 1; k > d {
				d = k
			}
		}
	}
	return d
}

// rawSub: doc, path, fragment.
func rawSub(args []string) string {
	segs, _, ok := readPath(args[1])
	if !ok {
		segs = nil
	}
	return rawOne(args[0], args[1], segs, args[2])
}

func rawOne(doc, path string, segs []Seg, raw string) string {
	kids, must := rawGate(raw)
	got, err := x.SetRaw(doc, path, raw)
	cls := classOf(err)
	ed := Env{}.modelSet(doc, segs, kids, unescape(raw))
	if must == "accept" && (ed.Class == "" && depthOf(ed.Want) > maxDepth || len(raw) > maxValue) {
		must = "reject"
	}
	if err != nil {
		if got != doc {
			return fmt.Sprintf("error %v, but the document became %q", err, clip(got))
		}
		if cls != "value" && cls != ed.Class {
			return fmt.Sprintf("error %v for fragment to be handled as %q", err, must)
		}
		if must == "accept" && ed.Class == "" {
			return fmt.Sprintf("balanced fragment rejected: %v", err)
		}
		return ""
	}
	if must == "reject" {
		return fmt.Sprintf("fragment accepted, result %q", clip(got))
	}
	if ed.Class != "" {
		return fmt.Sprintf("accepted, want error class %q", ed.Class)
	}
	if d := diffEdit(doc, got, err, ed); d != "" {
		return d
	}
	if !x.Valid(got) {
		return "result is not valid: " + clip(got)
	}
	// the fragment stands in the result byte for byte
	if len(segs) > 0 && segs[len(segs)-1].K != SAttr && raw != "" {
		mid := got[ed.P : len(got)-(len(doc)-ed.Q)]
		if !strings.Contains(mid, raw) {
			return fmt.Sprintf("fragment is not in the result as given: %q", clip(mid))
		}
	}
	return ""
}

func runC14(c *Ctx) {
	type target struct{ doc, path string }
	all := []target{{"<r><a>o</a><b/></r>", "r.a"}, {"<r><a/><b/></r>", "r.a"}, {"<r><a x='1'><c/>t</a>u</r>", "r.a"}, {"<r></r>", "r.n"}, {"<r/>", "r.n.m"}, {"<r><a/><a>2</a><b/></r>", "r.a.-1"}, {"<r><a/><a>2</a><b/></r>", "r.a.1"}, {"<r>t</r>", "r"}, {"<r>t</r>", "s"}, {"", "r"}, {"<r/><r/>", "r.-1"}, {"<r><a x='1' y=\"2\">t</a></r>", "r.a.@x"}, {"<r><a/></r>", "r.a.@n"}, {"<r/>", "r.q.@n"}, {"<r><b/></r>", "r.a.-1"}, {"<!--c--><p:r><a></a></p:r>", "r.a"}}
	paths := map[string][]Seg{}
	for _, t := range all {
		paths[t.path], _, _ = readPath(t.path)
	}
	run := func(t target, w int, frag string) {
		if d := guarded(func() string { return rawOne(t.doc, t.path, paths[t.path], frag) }); d != "" {
			c.Fail("raw", d, t.doc, t.path, frag)
		}
	}
	toks := []string{"<a>", "</a>", "<b>", "</b>", "<a/>", "<b x='1'>", "<a x=\">\" y='/>'>", "</r>", "<r>", "<a x='</r>'/>", "</a >", "</ a>", "<a", "<", ">", "/>", "</", "</a", " x='1'", "\"", "'", "t", " ", "\n", "&lt;", "&", "<!--", "-->", "--", "<![CDATA[", "]]>", "<?p", "?>", "<!DOCTYPE r>", "<!doctype r [", "<!ENTITY e 'v'>", "<!EnTiTy e>", "<!ELEMENT a>", "]>", "<!", "<1>", "<a x>", "<a\tx='1'\n/>", "<!DOCTYPE"}
	n, k := 3, 6
	if c.thorough {
		n, k = 4, 7
	}
	var frags []string
	product(len(toks), 2, func(ix []int) {
		f := ""
		for _, i := range ix {
			f += toks[i]
		}
		frags = append(frags, f)
	})
	frags = append(frags, toks...)
	frags = append(frags, "")
	// every target with every pair of tokens
	Each(c, frags, func(w int, f string) {
		for _, t := range all {
			c.State(t.doc, t.path, f)
			run(t, w, f)
		}
	})
	// longer token sequences and all character strings on representative targets
	for i, t := range []target{all[0], all[1], all[4], all[5], all[11]} {
		l := n
		if i == 0 {
			l = n + 1
		}
		for m := 3; m <= l; m++ {
			words(c, toks, m, func(w int, word []byte) { c.States(1); run(t, w, string(word)) })
		}
	}
	for _, t := range []target{all[0], all[3], all[11]} {
		for m := 1; m <= k; m++ {
			words(c, strings.Split(`<>/a="' !-`, ""), m, func(w int, word []byte) { c.States(1); run(t, w, string(word)) })
		}
		for m := 0; m <= k; m++ {
			words(c, strings.Split(`]>[<a`, ""), m, func(w int, word []byte) { c.States(1); run(t, w, "<![CDATA["+string(word)+"]]>") })
			words(c, strings.Split(`->!<a`, ""), m, func(w int, word []byte) { c.States(1); run(t, w, "<!--"+string(word)+"-->") })
			words(c, strings.Split(`a"'/> =`, ""), m, func(w int, word []byte) { c.States(1); run(t, w, "<a "+string(word)+"></a>") })
			words(c, strings.Split(`a/> <`, ""), m, func(w int, word []byte) { c.States(1); run(t, w, "<a><b></"+string(word)+"></a>") })
		}
	}
	c.Sample("all sequences of up to %d of %d tokens, e.g. %q", n+1, len(toks), toks[2]+toks[25]+toks[1])
	// every spelling of the declarations, at every place
	var decl []string
	for _, d := range []string{"doctype", "entity"} {
		for m := 0; m < 1<<len(d); m++ {
			b := []byte(d)
			for i := range b {
				if m>>i&1 == 1 {
					b[i] -= 32
				}
			}
			for _, f := range []string{"<!%s>", "<!%s r>", "<a><!%s r></a>", "t<!%s r [<!ENTITY e 'v'>]>u", "<a/><!%s\te 'v'><b/>", "<![CDATA[<!%s r>]]>", "<!--<!%s r>-->", "<a x='<!%s r>'/>", "<a><b/><!--c--><b><!%s r></b></a>", "<!%s"} {
				decl = append(decl, fmt.Sprintf(f, b))
			}
		}
	}
	// nested and repeated sections at depth, long fragments, every byte
	for i := 0; i < 256; i++ {
		b := string([]byte{byte(i)})
		decl = append(decl, b, "<a"+b+"/>", "<a "+b+"='1'/>", "<a x='"+b+"'/>", "<a>"+b+"</a>", "<a></a"+b+">", "<"+b+"></"+b+">", "<!--"+b+"-->", "<![CDATA["+b+"]]>", "<?"+b+"?>", "<a x="+b+"1"+b+"/>")
	}
	for _, k := range sizes(40, 400) {
		r := func(s string) string { return strings.Repeat(s, k) }
		decl = append(decl, r("<a>")+r("</a>"), r("<a>")+"t"+r("</a>"), r("<a/>"), r("<a></a>"), r("<!--c-->"), r("<![CDATA[c]]>"), r("<a x='>'/>"), r("t"), r("<a>"), r("</a>"), r("<a>")+r("</a>")+"</a>", r("<a>")+"<a>"+r("</a>"), r("<![CDATA[")+r("]]>"), "<a "+r("x='1' ")+"/>", "<a x='"+r(">")+"'/>", r("&amp;"))
	}
	Each(c, decl, func(w int, f string) {
		for _, t := range []target{all[0], all[1], all[4], all[5], all[10], all[11]} {
			c.State(t.doc, t.path, f)
			run(t, w, f)
		}
	})
	Each(c, farRaws(c), func(w int, f string) {
		for _, t := range []target{all[0], all[11]} {
			c.State(t.doc, t.path, f)
			run(t, w, f)
		}
	})
	// depth of the target and depth of the fragment together
	type dd struct{ t, f int }
	var dds []dd
	for t := 1; t <= 101; t++ {
		for f := 0; f <= 101; f++ {
			if c.thorough || t+f >= 97 && t+f <= 104 || t%10 == 0 && f%7 == 0 {
				dds = append(dds, dd{t, f})
			}
		}
	}
	Each(c, dds, func(w int, d dd) {
		doc := strings.Repeat("<a>", d.t) + strings.Repeat("</a>", d.t)
		path := strings.TrimSuffix(strings.Repeat("a.", d.t), ".")
		if d.t > maxSegments {
			return
		}
		frag := strings.Repeat("<b>", d.f) + strings.Repeat("</b>", d.f)
		c.State("depth", doc, frag)
		c.Do("raw", doc, path, frag)
	})
}
