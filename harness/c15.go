package main

import (
	"fmt"
	"reflect"
	"strings"
	"time"

	x "verifharness/lib"
)

func init() {
	register(&Check{ID: "C15", Run: runC15, Subs: map[string]Sub{"query": pokeQuerySub, "edit": pokeEditSub, "valid": pokeValidSub, "scale": scaleSub, "nil": nilSub, "methods": methodsSub}, Notes: []string{
		"a call that takes more than 60 s on an input within the size limits counts as not returning",
		"a batch without paths and a failing call may return the input slice itself",
	}})
}

// touched compares the argument after the call with what it was.
func touched(name string, buf []byte, doc string) string {
	if string(buf) != doc {
		return fmt.Sprintf("%s changed its argument to %q", name, clip(string(buf)))
	}
	for i, b := range buf[len(buf):cap(buf)] {
		if b != beyond {
			return fmt.Sprintf("%s wrote %q into the caller's memory %d bytes behind its argument", name, b, i)
		}
	}
	return ""
}

// buffer gives the text in memory with some room behind it, which belongs to the caller.
func buffer(s string) []byte {
	b := make([]byte, len(s)+96)
	copy(b, s)
	for i := len(s); i < len(b); i++ {
		b[i] = beyond
	}
	return b[:len(s)]
}

const beyond = '~'

func scramble(b []byte) {
	for i := range b {
		b[i] = 'Z'
	}
}

// methods calls everything a result offers.
func methods(r x.Result, path string) {
	_ = x.RString(r)
	_ = x.RInt(r)
	_ = x.RFloat(r)
	_ = x.RBool(r)
	_ = x.RValue(r)
	_ = x.RExists(r)
	_ = x.RIsArray(r)
	_ = x.RArray(r)
	n := 0
	x.RForEach(r, func(i int, v x.Result) bool { n++; return n < 5 })
	_ = x.RGet(r, path)
	_ = x.RGetMany(r, path, "a")
	_ = x.RGetWithOptions(r, path, foldOpts())
	_ = x.RMap(r)
	_ = x.RMapWithOptions(r, foldOpts())
}

// pokeQuerySub: doc, path.
func pokeQuerySub(args []string) string { return pokeQuery(args[0], args[1]) }

func pokeQuery(doc, path string) string {
	doc, path = strings.Clone(doc), strings.Clone(path)
	buf := buffer(doc)
	saved := strings.Clone(path)
	r := x.GetBytes(buf, path)
	if d := touched("GetBytes", buf, doc); d != "" {
		return d
	}
	opts := &x.Options{CaseSensitive: false, Indent: " ", PreserveWhitespace: true, Namespaces: map[string]string{"p": "u"}}
	f := x.GetBytesWithOptions(buf, path, opts)
	if d := touched("GetBytesWithOptions", buf, doc); d != "" {
		return d
	}
	if opts.CaseSensitive || opts.Indent != " " || !opts.PreserveWhitespace || len(opts.Namespaces) != 1 || opts.Namespaces["p"] != "u" {
		return fmt.Sprintf("GetBytesWithOptions changed its options to %+v", *opts)
	}
	before, beforeF := r, f
	wantR, wantF := full(before), full(beforeF)
	m := x.RMap(r)
	g := x.RGet(r, "*")
	wantG, wantM := full(g), mapText(m)
	scramble(buf)
	if full(r) != wantR {
		return fmt.Sprintf("result of GetBytes changes with the buffer: %s, before %s", clip(full(r)), clip(wantR))
	}
	if full(f) != wantF {
		return fmt.Sprintf("result of GetBytesWithOptions changes with the buffer: %s, before %s", clip(full(f)), clip(wantF))
	}
	if full(g) != wantG || mapText(m) != wantM {
		return "result of a fluent call changes with the buffer"
	}
	str := []byte(doc)
	s := string(str)
	_ = x.GetString(s, path)
	_ = x.GetStringWithOptions(s, path, opts)
	if s != doc {
		return fmt.Sprintf("GetString changed its argument to %q", clip(s))
	}
	if path != saved {
		return fmt.Sprintf("the path was changed to %q", path)
	}
	paths := []string{path, "a", path}
	keep := append([]string{}, paths...)
	_ = x.GetMany(s, paths...)
	if !reflect.DeepEqual(paths, keep) {
		return fmt.Sprintf("GetMany changed its paths to %q", paths)
	}
	methods(r, path)
	methods(f, path)
	if full(r) != wantR || full(f) != wantF {
		return "a method changed its result"
	}
	return ""
}

func mapText(m map[string]x.Result) string {
	n := 0
	for k, v := range m {
		h := 0
		for _, b := range []byte(k + full(v)) {
			h = h*31 + int(b)
		}
		n += h
	}
	return fmt.Sprint(len(m), n)
}

// pokeEditSub: doc, path, raw value.
func pokeEditSub(args []string) string {
	if len(args) < 3 {
		args = append(args, "<k/>")
	}
	return pokeEdit(args[0], args[1], args[2])
}

func pokeEdit(doc, path, raw string) string {
	doc = strings.Clone(doc)
	buf := buffer(doc)
	opts := &x.Options{CaseSensitive: false, Indent: "\t", PreserveWhitespace: true, Namespaces: map[string]string{"p": "u"}}
	rawb := buffer(raw)
	paths := []string{path, "a.b", path}
	values := []any{rawb, "v", nil}
	calls := []struct {
		name string
		f    func() ([]byte, error)
	}{
		{"SetBytes", func() ([]byte, error) { return x.SetBytes(buf, path, "v<") }},
		{"SetBytes of bytes", func() ([]byte, error) { return x.SetBytes(buf, path, rawb) }},
		{"SetBytesWithOptions", func() ([]byte, error) { return x.SetBytesWithOptions(buf, path, 12, opts) }},
		{"DeleteBytes", func() ([]byte, error) { return x.DeleteBytes(buf, path) }},
		{"DeleteBytesWithOptions", func() ([]byte, error) { return x.DeleteBytesWithOptions(buf, path, opts) }},
		{"SetManyBytes", func() ([]byte, error) { return x.SetManyBytes(buf, paths, values) }},
		{"DeleteManyBytes", func() ([]byte, error) { return x.DeleteManyBytes(buf, paths...) }},
	}
	for _, c := range calls {
		out, err := c.f()
		if d := touched(c.name, buf, doc); d != "" {
			return d
		}
		if d := touched(c.name+" (value)", rawb, raw); d != "" {
			return d
		}
		if paths[0] != path || paths[1] != "a.b" || paths[2] != path || values[1] != "v" || values[2] != nil {
			return fmt.Sprintf("%s changed its lists to %q %v", c.name, paths, values)
		}
		if opts.CaseSensitive || opts.Indent != "\t" || !opts.PreserveWhitespace || len(opts.Namespaces) != 1 || opts.Namespaces["p"] != "u" {
			return fmt.Sprintf("%s changed its options to %+v", c.name, *opts)
		}
		if err != nil || len(out) == 0 {
			continue
		}
		want := string(out)
		scramble(buf)
		scramble(rawb)
		if string(out) != want {
			return fmt.Sprintf("document returned by %s changes with the buffer: %q, before %q", c.name, clip(string(out)), clip(want))
		}
		copy(buf, doc)
		copy(rawb, raw)
		scramble(out)
		if d := touched(c.name+" (through its result)", buf, doc); d != "" {
			return d
		}
	}
	_, _ = x.SetRaw(doc, path, raw)
	_, _ = x.SetRaw("<a><b/></a>", path, doc)
	_, _ = x.Set("<a><b/></a>", path, doc)
	_, _ = x.Set("<a><b/></a>", path, []byte(doc))
	if string(buf) != doc {
		return "the document was changed"
	}
	return ""
}

func pokeValidSub(args []string) string {
	doc := args[0]
	buf := buffer(doc)
	_ = x.ValidBytes(buf)
	e := x.ValidateBytesWithError(buf)
	if d := touched("ValidateBytesWithError", buf, doc); d != "" {
		return d
	}
	if e != nil {
		w := e.Error()
		scramble(buf)
		if e.Error() != w {
			return "the error changes with the buffer"
		}
	}
	return ""
}

// nilSub: missing arguments.
func nilSub([]string) string {
	for _, b := range [][]byte{nil, {}} {
		_ = x.GetBytes(b, "a")
		_ = x.GetBytesWithOptions(b, "a", nil)
		_ = x.ValidBytes(b)
		_ = x.ValidateBytesWithError(b)
		_, _ = x.SetBytes(b, "a", "v")
		_, _ = x.SetBytes(b, "a", nil)
		_, _ = x.SetBytesWithOptions(b, "a", "v", nil)
		_, _ = x.SetManyBytes(b, nil, nil)
		_, _ = x.SetManyBytes(b, []string{"a"}, nil)
		_, _ = x.SetManyBytes(b, nil, []any{1})
		_, _ = x.DeleteBytes(b, "a")
		_, _ = x.DeleteBytesWithOptions(b, "a", nil)
		_, _ = x.DeleteManyBytes(b)
		_, _ = x.DeleteManyBytes(b, "a", "")
		_, _ = x.SetBytes([]byte("<a/>"), "a", b)
		_, _ = x.SetBytes([]byte("<a/>"), "a.@x", b)
	}
	_ = x.GetMany("<a/>")
	_ = x.GetMany("<a/>", []string(nil)...)
	_ = x.GetWithOptions("<a/>", "a", nil)
	_ = x.GetWithOptions("<a/>", "a", &x.Options{})
	for _, r := range []x.Result{{}, {Type: x.Array}, {Type: x.Array, Results: []x.Result{{}}}, {Type: x.Element}, {Type: x.Element, Raw: "<"}, {Type: 99, Str: "x"}, {Type: x.Number}, {Type: x.Attribute, Raw: "<a>"}, {Type: -1}} {
		for _, p := range []string{"", "a", "*", "a.b", "#", "%", "@x", "0", "**.a", "a|@sort|@pretty|@ugly|@flatten", "#(a)#"} {
			methods(r, p)
			_ = x.RGetWithOptions(r, p, nil)
			_ = x.RMapWithOptions(r, nil)
			_ = x.RGetMany(r)
		}
		for _, b := range builtins {
			_ = x.Apply(x.GetModifier(b), r)
		}
	}
	var e *x.ValidateError
	if e = x.ValidateWithError(""); e != nil {
		_ = e.Error()
	}
	return ""
}

// methodsSub: raw text of a result, path: results made by the caller.
func methodsSub(args []string) string {
	raw, path := args[0], args[1]
	for _, r := range []x.Result{{Type: x.Element, Raw: raw, Str: raw}, {Type: x.Array, Results: []x.Result{{Type: x.Element, Raw: raw}, {Type: x.String, Raw: raw, Str: raw}}}} {
		w := full(r)
		methods(r, path)
		for _, b := range builtins {
			_ = x.Apply(x.GetModifier(b), r)
		}
		if full(r) != w {
			return fmt.Sprintf("a method changed its result to %s", clip(full(r)))
		}
	}
	return ""
}

func nested(k int, inner string) string {
	return strings.Repeat("<a>", k) + inner + strings.Repeat("</a>", k)
}

func binary(k int) string {
	if k == 0 {
		return "<a>t</a>"
	}
	s := binary(k - 1)
	return "<a>" + s + s + "</a>"
}

// scaleSub: family, size: inputs built to make careless code slow. Each call must
// return within a minute.
func scaleSub(args []string) string {
	var k int
	fmt.Sscan(args[1], &k)
	slow := ""
	run := func(name string, f func()) {
		t := time.Now()
		f()
		if d := time.Since(t); d > 60*time.Second && slow == "" {
			slow = fmt.Sprintf("%s takes %v", name, d)
		}
	}
	get := func(doc, path string) {
		run("Get "+clip(path), func() { _ = x.Get(doc, path) })
		run("GetWithOptions "+clip(path), func() { _ = x.GetWithOptions(doc, path, foldOpts()) })
	}
	edit := func(doc, path string) {
		run("Set "+clip(path), func() { _, _ = x.Set(doc, path, "v") })
		run("Delete "+clip(path), func() { _, _ = x.Delete(doc, path) })
		run("SetRaw "+clip(path), func() { _, _ = x.SetRaw(doc, path, "<k/>") })
	}
	switch args[0] {
	case "deep": // recursive wildcards in a row on nested and branching documents
		for _, p := range []string{strings.Repeat("**.", k) + "a", strings.Repeat("**.a.", k) + "zz", strings.Repeat("**.*.", k) + "zz", "a.#(" + strings.Repeat("**.a.", k) + "zz)#", strings.Repeat("*.", 3*k) + "zz", strings.Repeat("a.", 3*k) + "zz", strings.Repeat("a.#(a)#.", k) + "zz", strings.Repeat("*.#(a)#.", k) + "zz", strings.Repeat("**.#.a.", k) + "zz", "**." + strings.Repeat("#(a)#.", k) + "zz", "**.a." + strings.Repeat("#(**.a.", k) + "zz" + strings.Repeat(")", k), "**." + strings.Repeat("#(**.", k) + "zz" + strings.Repeat(")", k), strings.Repeat("**.#(a)#.", k) + "zz"} {
			switch args[2] {
			case "nested":
				get(nested(90, "t"), p)
			case "binary":
				get(binary(11), p)
			case "flat":
				get("<r>"+strings.Repeat("<a><a/></a>", 4000)+"</r>", p)
			}
		}
	case "wide": // many siblings
		doc := "<r>" + strings.Repeat("<a x='1'>t<b/></a>", k) + "</r>"
		for _, p := range []string{"r.a", "r.zz", "r.a.#", "r.*", "**.zz", "r.a.#(b)#", "r.a.#(@x>1)#", "r.a.#.b", "r.*.*", "r.a|@sort", "r|@pretty", "r|@ugly", "r.a." + fmt.Sprint(k-1), "**.b"} {
			get(doc, p)
		}
		for _, p := range []string{"r.zz", "r.a." + fmt.Sprint(k-1), "r.a.-1", "r.a." + fmt.Sprint(k-1) + ".@x", "r.a.zz.y"} {
			edit(doc, p)
		}
		run("Valid", func() { _ = x.Valid(doc) })
		run("Map", func() { _ = x.Get(doc, "r").Map() })
	case "open": // many unfinished constructs
		get("<r>"+nested(k, "t")+"</r>", "r|@pretty")
		get("<r>"+nested(k, "t")+"</r>", "**.zz")
		get("<r>"+nested(k, "t")+"</r>", "r.a.%")
		for _, s := range []string{"<!--", "<![CDATA[", "<?", "<!DOCTYPE [", "<a x='", "<a ", "<a><!--", "</", "&", "<a>", "<a/>", "<", ">", "'", "<a x=\"", "]]>", "-->", "</a>", "<b></a>", "<a></b>"} {
			d := "<r>" + strings.Repeat(s, k)
			for _, p := range []string{"r.a", "r.**.b", "r.a.#", "r.*", "r.a.#(b)#", "r.%", "r.@x"} {
				get(d, p)
			}
			run("Valid "+s, func() { _ = x.Valid(d); _ = x.ValidateWithError(d) })
			edit(d, "r.b")
			run("SetRaw of "+s, func() { _, _ = x.SetRaw("<r/>", "r.a", d) })
			run("Map", func() { _ = x.Result{Type: x.Element, Raw: d}.Map() })
			for _, b := range builtins {
				run(b, func() { _ = x.Apply(x.GetModifier(b), x.Result{Type: x.Element, Raw: d, Str: d}) })
			}
		}
	case "path": // long paths
		for _, s := range []string{"a.", "#(", "\\", "|@x", "#(a=", "*", "(", "@", ".", ")#(", "#(a)#.", "**.", "a|", "'", "#(a=='", "[", "a", "1", "-"} {
			p := strings.Repeat(s, k)
			get("<a><a/></a>", p)
			get("<a><a/></a>", "a."+p)
			edit("<a><a/></a>", p)
			edit("<a><a/></a>", "a."+p)
		}
	case "glob": // patterns with many stars
		v := strings.Repeat("a", k)
		doc := "<r><a x='" + v + "'>" + v + "</a></r>"
		for _, pat := range []string{strings.Repeat("a*", 60) + "b", strings.Repeat("*a", 60) + "*?b", strings.Repeat("*", 100) + "b", strings.Repeat("?", 100), strings.Repeat("*?", 60) + "b", "*" + strings.Repeat("a", 100) + "b"} {
			get(doc, "r.a.#(@x%'"+pat+"')#")
			get(doc, "r.#(a%'"+pat+"')#")
			get(doc, "r.a.#(@x!%'"+pat+"')#")
		}
	}
	return slow
}

func runC15(c *Ctx) {
	c.Do("nil")
	c.State("nil")
	// large and hard inputs
	var sc [][]string
	for k := 1; k <= 8; k++ {
		for _, d := range []string{"nested", "binary", "flat"} {
			sc = append(sc, []string{"deep", fmt.Sprint(k), d})
		}
	}
	for _, k := range []int{500000, 100000, 3000, 100, 1} {
		if k > 50000 && !c.thorough {
			k = 50000
		}
		sc = append(sc, []string{"wide", fmt.Sprint(k)})
	}
	for _, k := range []int{100000, 1000, 50, 1} {
		if k > 20000 && !c.thorough {
			k = 20000
		}
		sc = append(sc, []string{"open", fmt.Sprint(k)})
		sc = append(sc, []string{"path", fmt.Sprint(k)}, []string{"glob", fmt.Sprint(k)})
	}
	Each(c, sc, func(w int, a []string) {
		c.State(a...)
		c.Do("scale", a...)
	})
	// all small documents
	chars := strings.Split(`<>/a"'=!-[?& `, "")
	n := 4
	if c.thorough {
		n = 5
	}
	paths := []string{"a", "a.a", "a.@a", "a.%", "*", "**.a", "a.#", "a.#(a)#"}
	for l := 0; l <= n; l++ {
		ps := paths
		if l == n && !c.thorough {
			ps = []string{"**.a", "a.#(a)#"} // the longest documents of the quick tier: two paths
		}
		words(c, chars, l, func(w int, b []byte) {
			d := string(b)
			for _, e := range []string{d, "<a>" + d + "</a>", "<a>" + d} {
				c.State(e)
				for _, p := range ps {
					if what := guarded(func() string { return pokeQuery(e, p) }); what != "" {
						c.Fail("query", what, e, p)
					}
				}
				if what := guarded(func() string { return pokeEdit(e, "a.a", "<k/>") }); what != "" {
					c.Fail("edit", what, e, "a.a")
				}
				if what := guarded(func() string { return pokeValidSub([]string{e}) }); what != "" {
					c.Fail("valid", what, e)
				}
			}
		})
	}
	// documents of markup tokens
	tn := 2
	if c.thorough {
		tn = 3
	}
	for l := 1; l <= tn; l++ {
		words(c, markupTokens, l, func(w int, b []byte) {
			for _, e := range []string{string(b), "<a>" + string(b)} {
				c.State(e)
				for _, p := range paths {
					if what := guarded(func() string { return pokeQuery(e, p) }); what != "" {
						c.Fail("query", what, e, p)
					}
					if what := guarded(func() string { return pokeEdit(e, p, "<k/>") }); what != "" {
						c.Fail("edit", what, e, p)
					}
				}
			}
		})
	}
	// every truncation and single-byte change of rich documents
	rich := []string{
		"<?xml version='1.0'?><!DOCTYPE a [<!ELEMENT a ANY>]><a x='1' y=\"2\">t<!-- c --><b/><![CDATA[<b>]]><p:b k='&lt;'>u&amp;</p:b>é</a>",
		"<a><b x=\"it's\"><a>1</a></b>\n<b/><a>2</a> </a><a/>",
	}
	var variants []string
	for _, r := range rich {
		for i := 0; i <= len(r); i++ {
			variants = append(variants, r[:i], r[i:])
			if i == len(r) {
				break
			}
			variants = append(variants, r[:i]+r[i+1:], r[:i]+r[i:i+1]+r[i:])
			for _, ch := range "<>/\"'=!- \x00\xffa]&?" {
				variants = append(variants, r[:i]+string(ch)+r[i+1:], r[:i]+string(ch)+r[i:])
			}
		}
	}
	variants = distinct(variants)
	rp := []string{"a", "a.b", "a.b.1", "a.@x", "a.%", "a.*", "a.**.b", "a.#", "a.b.#.@x", "a.#(b)#", "a.b.#(@x)#.a", "**.@x", "a|@pretty|@ugly", "a.*|@sort", "b", "p:b"}
	Each(c, rp, func(w int, p string) {
		for _, d := range variants {
			c.State(d, p)
			if what := guarded(func() string { return pokeQuery(d, p) }); what != "" {
				c.Fail("query", what, d, p)
			}
			if what := guarded(func() string { return pokeEdit(d, p, "<k/>") }); what != "" {
				c.Fail("edit", what, d, p)
			}
		}
	})
	c.Sample("query and edit %q at %q", variants[len(variants)/3], rp[5])
	// every length of texts, values, names and comments
	var lens [][]string
	for _, n := range sizes(300, 70000) {
		v := strings.Repeat("v", n)
		for _, d := range []string{"<a>" + v + "</a>", "<a><b>" + v + "</b></a>", "<a x='" + v + "'/>", "<a><b x='" + v + "'>t</b></a>", "<a>" + v + "<b/>" + v + "</a>", "<a><!--" + v + "--><b>&lt;" + v + "</b></a>", "<a><![CDATA[" + v + "]]></a>", "<a><" + v + "n>t</" + v + "n></a>"} {
			lens = append(lens, []string{d, v})
		}
	}
	Each(c, lens, func(w int, a []string) {
		c.State(a...)
		for _, p := range []string{"a", "a.b", "a.@x", "a.b.@x", "a.%", "*.*", "**.b", "a.*", "a.#(b)#", "a.b|@ugly"} {
			c.Do("query", a[0], p)
		}
		for _, p := range []string{"a", "a.b", "a.@x", "a.c.d"} {
			if what := guarded(func() string { return pokeEdit(a[0], p, a[1]) }); what != "" {
				c.Fail("edit", what, a[0], p, a[1])
			}
		}
		c.Do("valid", a[0])
	})
	// all small paths
	pchars := strings.Split(`a.#@%*()|=<>'"\0-[]! `, "")
	pn := 4
	docs := []string{`<a x="1"><a>2</a><b/></a><a/>`, `<a>t</a>`}
	for l := 0; l <= pn; l++ {
		words(c, pchars, l, func(w int, b []byte) {
			p := string(b)
			for i, d := range docs {
				if l == pn && i > 0 && !c.thorough {
					break
				}
				for j, q := range []string{p, "a." + p, "a.#(" + p + ")#", "a|@" + p} {
					if l == pn && j == 3 && !c.thorough {
						continue
					}
					c.State(d, q)
					if what := guarded(func() string { return pokeQuery(d, q) }); what != "" {
						c.Fail("query", what, d, q)
					}
					if j > 1 && !c.thorough {
						continue
					}
					if what := guarded(func() string { return pokeEdit(d, q, "<k/>") }); what != "" {
						c.Fail("edit", what, d, q)
					}
				}
			}
		})
	}
	ptoks := []string{"a", "b", "*", "**", "#", "%", "@x", "0", "-1", "#(a)", "#(a)#", "#(@x=='1')#", "a|@first", "*|@sort", "", "#(a|@x)", "#(**.a)", "#(#(a))", "9999999999999999999999", "-", "a\\", "p:a", "#(%)", "#(a.b>1)#"}
	pl := 3
	tp := joinPaths(ptoks, pl)
	Each(c, tp, func(w int, p string) {
		c.Begin(w, "query", docs[0], p)
		for _, d := range []string{docs[0], "<a", "<a><a><a x='1'>1</a></a><b>2</b></a>"} {
			c.State(d, p)
			if what := guarded(func() string { return pokeQuery(d, p) }); what != "" {
				c.Fail("query", what, d, p)
			}
			if what := guarded(func() string { return pokeEdit(d, p, "<k/>") }); what != "" {
				c.Fail("edit", what, d, p)
			}
		}
		c.End(w)
	})
	c.Sample("query and edit %q with %q", docs[0], tp[len(tp)/2])
	// results made by the caller
	var raws []string
	for l := 0; l <= 2; l++ {
		product(len(markupTokens), l, func(ix []int) {
			s := ""
			for _, k := range ix {
				s += markupTokens[k]
			}
			raws = append(raws, s)
		})
	}
	Each(c, raws, func(w int, r string) {
		for _, p := range append(paths, "a|@pretty", "*|@sort|@ugly", "0", "@a") {
			c.State("result", r, p)
			c.Do("methods", r, p)
		}
	})
}
