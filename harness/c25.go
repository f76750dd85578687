package main

import (
	"fmt"
	"strings"

	x "verifharness/lib"
)

func init() {
	register(&Check{ID: "C25", Run: runC25, Subs: map[string]Sub{"get": sameGetSub, "set": sameSetSub, "delete": sameDeleteSub, "raw": sameRawSub, "valid": sameValidSub, "many": manySub, "longbatch": longBatchSub, "fluent": func(a []string) string { return fluentDoc(a[0], a[1], a[2]) }}, Notes: []string{
		"a nil byte slice is no document and has no string counterpart",
	}})
}

func plainOpts() []*x.Options {
	return []*x.Options{nil, x.DefaultOptions(), {CaseSensitive: true}}
}

// sameGetSub: doc, path.
func sameGetSub(args []string) string { return sameGet(args[0], args[1]) }

func sameGet(doc, path string) string {
	base := x.Get(doc, path)
	check := func(name string, r x.Result) string {
		if !same(r, base) {
			return fmt.Sprintf("%s gives %s, Get %s", name, clip(full(r)), clip(full(base)))
		}
		return ""
	}
	if d := check("GetString", x.GetString(doc, path)); d != "" {
		return d
	}
	if d := check("GetBytes", x.GetBytes([]byte(doc), path)); d != "" {
		return d
	}
	m := x.GetMany(doc, "zz.zz", path, path)
	if len(m) != 3 {
		return fmt.Sprintf("GetMany of 3 paths gives %d results", len(m))
	}
	if d := check("GetMany[1]", m[1]); d != "" {
		return d
	}
	if d := check("GetMany[2]", m[2]); d != "" {
		return d
	}
	for _, o := range plainOpts() {
		if d := check("GetWithOptions", x.GetWithOptions(doc, path, o)); d != "" {
			return d
		}
		if d := check("GetStringWithOptions", x.GetStringWithOptions(doc, path, o)); d != "" {
			return d
		}
		if d := check("GetBytesWithOptions", x.GetBytesWithOptions([]byte(doc), path, o)); d != "" {
			return d
		}
	}
	f := foldOpts()
	fold := x.GetWithOptions(doc, path, f)
	if r := x.GetStringWithOptions(doc, path, f); !same(r, fold) {
		return fmt.Sprintf("GetStringWithOptions gives %s, GetWithOptions %s", clip(full(r)), clip(full(fold)))
	}
	if r := x.GetBytesWithOptions([]byte(doc), path, f); !same(r, fold) {
		return fmt.Sprintf("GetBytesWithOptions gives %s, GetWithOptions %s", clip(full(r)), clip(full(fold)))
	}
	return ""
}

// fluentSame compares the fluent variants on the result of a query.
func fluentSame(r x.Result, path string) string {
	base := x.RGet(r, path)
	m := x.RGetMany(r, "zz", path)
	if len(m) != 2 || !same(m[1], base) {
		return fmt.Sprintf("Result.GetMany gives %d results, Result.Get %s", len(m), clip(full(base)))
	}
	for _, o := range plainOpts() {
		if g := x.RGetWithOptions(r, path, o); !same(g, base) {
			return fmt.Sprintf("Result.GetWithOptions gives %s, Result.Get %s", clip(full(g)), clip(full(base)))
		}
	}
	return ""
}

func sameMaps(a, b map[string]x.Result) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		w, ok := b[k]
		if !ok || !same(v, w) {
			return false
		}
	}
	return true
}

type outcome struct {
	doc string
	err error
}

func agree(names []string, got []outcome) string {
	for i := 1; i < len(got); i++ {
		if got[i].doc != got[0].doc || classOf(got[i].err) != classOf(got[0].err) {
			return fmt.Sprintf("%s gives %q, %v; %s gives %q, %v", names[i], clip(got[i].doc), got[i].err, names[0], clip(got[0].doc), got[0].err)
		}
	}
	return ""
}

// sameSetSub: doc, path, value.
func sameSetSub(args []string) string {
	doc, path, v := args[0], args[1], decodeValue(args[2])
	var names []string
	var outs []outcome
	add := func(n, d string, err error) {
		names = append(names, n)
		outs = append(outs, outcome{d, err})
	}
	s, err := x.Set(doc, path, v)
	add("Set", s, err)
	b, err := x.SetBytes([]byte(doc), path, v)
	add("SetBytes", string(b), err)
	s, err = x.SetMany(doc, []string{path}, []any{v})
	add("SetMany", s, err)
	b, err = x.SetManyBytes([]byte(doc), []string{path}, []any{v})
	add("SetManyBytes", string(b), err)
	for _, o := range plainOpts() {
		s, err = x.SetWithOptions(doc, path, v, o)
		add("SetWithOptions", s, err)
		b, err = x.SetBytesWithOptions([]byte(doc), path, v, o)
		add("SetBytesWithOptions", string(b), err)
	}
	if d := agree(names, outs); d != "" {
		return d
	}
	for _, o := range []*x.Options{foldOpts(), {CaseSensitive: true, Indent: "\t"}} {
		s, err = x.SetWithOptions(doc, path, v, o)
		b, err2 := x.SetBytesWithOptions([]byte(doc), path, v, o)
		if d := agree([]string{"SetWithOptions", "SetBytesWithOptions"}, []outcome{{s, err}, {string(b), err2}}); d != "" {
			return fmt.Sprintf("%+v: %s", *o, d)
		}
	}
	return ""
}

// sameDeleteSub: doc, path.
func sameDeleteSub(args []string) string {
	doc, path := args[0], args[1]
	var names []string
	var outs []outcome
	add := func(n, d string, err error) {
		names = append(names, n)
		outs = append(outs, outcome{d, err})
	}
	s, err := x.Delete(doc, path)
	add("Delete", s, err)
	b, err := x.DeleteBytes([]byte(doc), path)
	add("DeleteBytes", string(b), err)
	s, err = x.DeleteMany(doc, path)
	add("DeleteMany", s, err)
	b, err = x.DeleteManyBytes([]byte(doc), path)
	add("DeleteManyBytes", string(b), err)
	s, err = x.Set(doc, path, nil)
	add("Set(nil)", s, err)
	for _, o := range plainOpts() {
		b, err = x.DeleteBytesWithOptions([]byte(doc), path, o)
		add("DeleteBytesWithOptions", string(b), err)
		s, err = x.SetWithOptions(doc, path, nil, o)
		add("SetWithOptions(nil)", s, err)
	}
	return agree(names, outs)
}

// sameRawSub: doc, path, raw: what SetRaw accepts is what Set with bytes does.
func sameRawSub(args []string) string {
	doc, path, raw := args[0], args[1], args[2]
	s, err := x.SetRaw(doc, path, raw)
	if err != nil {
		if s != doc {
			return fmt.Sprintf("SetRaw gives %v and changes the document to %q", err, clip(s))
		}
		return ""
	}
	t, err := x.Set(doc, path, []byte(raw))
	if err != nil || s != t {
		return fmt.Sprintf("SetRaw gives %q, Set of the bytes %q, %v", clip(s), clip(t), err)
	}
	return ""
}

// sameValidSub: doc.
func sameValidSub(args []string) string {
	d := args[0]
	v := x.Valid(d)
	if x.ValidBytes([]byte(d)) != v {
		return fmt.Sprintf("Valid is %v, ValidBytes is not", v)
	}
	e, f := x.ValidateWithError(d), x.ValidateBytesWithError([]byte(d))
	if (e == nil) != v || (f == nil) != v {
		return fmt.Sprintf("Valid is %v, ValidateWithError %v, ValidateBytesWithError %v", v, e, f)
	}
	if e != nil && (*e != *f || e.Error() != f.Error()) {
		return fmt.Sprintf("ValidateWithError gives %v, ValidateBytesWithError %v", e, f)
	}
	return ""
}

// manySub: doc, paths: GetMany answers each path in order.
func manySub(args []string) string {
	doc, paths := args[0], args[1:]
	rs := x.GetMany(doc, paths...)
	if len(rs) != len(paths) {
		return fmt.Sprintf("GetMany of %d paths gives %d results", len(paths), len(rs))
	}
	for i, p := range paths {
		if w := x.Get(doc, p); !same(rs[i], w) {
			return fmt.Sprintf("GetMany[%d] (%q) is %s, Get gives %s", i, p, clip(full(rs[i])), clip(full(w)))
		}
	}
	r := x.Get(doc, "*")
	fs := x.RGetMany(r, paths...)
	if len(fs) != len(paths) {
		return fmt.Sprintf("Result.GetMany of %d paths gives %d results", len(paths), len(fs))
	}
	for i, p := range paths {
		if w := x.RGet(r, p); !same(fs[i], w) {
			return fmt.Sprintf("Result.GetMany[%d] (%q) is %s, Result.Get gives %s", i, p, clip(full(fs[i])), clip(full(w)))
		}
	}
	return ""
}

func runC25(c *Ctx) {
	docs := forestDocs(allForests(3, 2), docStyle{names: ab, text: 1, attrs: 1}, docStyle{names: []string{"A", "p:b"}, text: 2, attrs: 2, ws: true})
	docs = append(docs, "", " ", "t", "<a", "<a>", "<a></b>", "<a/>t", "<a x=1/>", "<a><b></a>", "<a>\x00</a>", "<a>&x;<!-- c --><![CDATA[d]]></a>", "<!DOCTYPE a><a/>", "\ufeff<a/>", "<a>\xff</a>", "<a/><a/><a/>")
	var ws []string
	for l := 1; l <= 2; l++ {
		product(len(markupTokens), l, func(ix []int) {
			s := ""
			for _, k := range ix {
				s += markupTokens[k]
			}
			ws = append(ws, s)
		})
	}
	toks := []string{"a", "b", "A", "p:b", "*", "**", "#", "%", "@x", "@X", "0", "1", "-1", "#(b)", "#(@x=='1')#", "#(a>1)#", "a|@sort", "*|@first", "zz", "", "<", "a\\.b", "#(", "b|@zz", "-2"}
	pl := 2
	if c.thorough {
		pl = 3
	}
	paths := joinPaths(toks, pl)
	Each(c, paths, func(w int, p string) {
		c.Begin(w, "get", "", p)
		for _, d := range docs {
			if what := guarded(func() string { return sameGet(d, p) }); what != "" {
				c.Fail("get", what, d, p)
			}
			if what := guarded(func() string { return sameDeleteSub([]string{d, p}) }); what != "" {
				c.Fail("delete", what, d, p)
			}
			for _, v := range []string{"s:v", "r:<k/>", "n:"} {
				if what := guarded(func() string { return sameSetSub([]string{d, p, v}) }); what != "" {
					c.Fail("set", what, d, p, v)
				}
			}
		}
		c.End(w)
		c.States(5 * len(docs))
	})
	c.Sample("all variants of Get, Set and Delete on %q with %q", docs[len(docs)/2], paths[len(paths)/2])
	// unusual documents
	Each(c, ws, func(w int, d string) {
		c.State(d)
		c.Do("valid", d)
		for _, p := range []string{"a", "a.b", "a.@x", "*", "**", "a.%"} {
			c.Do("get", d, p)
			c.Do("set", d, p, "s:v")
			c.Do("delete", d, p)
		}
	})
	vl := 5
	if c.thorough {
		vl = 6
	}
	c.allWords("valid", strings.Split(`<>/!-a="' ?[`, ""), vl, func(s string) string { return sameValidSub([]string{s}) }, "", "")
	// every value and raw text
	var vs [][]string
	for _, d := range []string{"<a><b>1</b><b/></a>", "", "<a x='1'/>", "<a", "<A/>"} {
		for _, p := range []string{"a", "a.b", "a.@x", "a.b.-1", "a.c.d", "b", "", "a.1x", "a.b.5", "a.b.1.@k", "*.b", "a.%"} {
			for _, v := range append(append([]string{}, hostile...), "u:struct", "u:uint", "u:slice", "u:ptr", "l:9007199254740993", "g:1.25", "f:NaN") {
				vs = append(vs, []string{"set", d, p, v})
			}
			for _, r := range append(markupTokens, "<k/>", "<k>1</k>", "<!DOCTYPE a>", "<k><l/></k>t", "", "<k", "&", "a>b") {
				vs = append(vs, []string{"raw", d, p, r})
			}
		}
	}
	Each(c, vs, func(w int, a []string) {
		c.State(a...)
		c.Do(a[0], a[1:]...)
	})
	// batches: every list of paths in every order
	bp := []string{"a", "a.b", "a.@x", "zz", "*", "", "a.b|@first", "a.#(b)#", "**.b", "A"}
	for l := 0; l <= 4; l++ {
		var lists [][]string
		product(len(bp), l, func(ix []int) {
			q := []string{}
			for _, k := range ix {
				q = append(q, bp[k])
			}
			lists = append(lists, q)
		})
		Each(c, lists, func(w int, q []string) {
			for _, d := range []string{"<a x='1'><b>2</b><b>3<a/></b></a>", "<a", "", "<a/><b/>"} {
				c.Do("many", append([]string{d}, q...)...)
			}
			c.States(4)
		})
	}
	// all pairs of paths
	pp := joinPaths(append(toks, "#(b)#", "a|@first", "a|@last|@first", "#(b)|@first", "00"), 2)
	pairDocs := []string{"<a x='1' X='2'><b>2</b><b>3<a/></b><A/></a><b/>"}
	if c.thorough {
		pairDocs = append(pairDocs, "<a><b x='1'><b/><a>5</a></b><p:b/><a><b>1</b></a></a>")
	}
	Each(c, pp, func(w int, p string) {
		for _, d := range pairDocs {
			for _, q := range pp {
				c.Do("many", d, p, q)
			}
			c.States(len(pp))
		}
	})
	c.Sample("GetMany(%q, %q, %q)", pairDocs[0], pp[len(pp)/3], pp[len(pp)/2])
	for _, k := range sizes(40, 1100) {
		args := []string{"<a x='1'><b>2</b><b>3<a/></b></a>"}
		for i := 0; i < k; i++ {
			args = append(args, fmt.Sprintf("a.%s|@%s", []string{"b", "*", "@x", "b.1", "#"}[i%5], []string{"first", "last", "q" + fmt.Sprint(i)}[i%3]))
		}
		c.State(args...)
		c.Do("many", args...)
	}
	runLongBatches(c, "get", "set", "delete")
	longNameJobs(c, true, func(a, b, d string, nodes []*Node, paths []PathCase) {
		for _, p := range paths {
			c.Do("get", d, p.Text)
			c.Do("set", d, p.Text, "s:v")
			c.Do("delete", d, p.Text)
		}
		c.Do("fluent", d, "r", b)
		c.Do("fluent", d, a, b)
	})
	// fluent variants
	fp := joinPaths(toks[:18], 1)
	Each(c, fp, func(w int, p string) {
		for _, pre := range []string{"a", "*", "**", "a.b", "a.@x", "a.#", "zz", "a.*"} {
			for _, d := range docs {
				if what := guarded(func() string { return fluentDoc(d, pre, p) }); what != "" {
					c.Fail("fluent", what, d, pre, p)
				}
			}
			c.States(len(docs))
		}
	})
}

func fluentDoc(doc, pre, p string) string {
	r := x.Get(doc, pre)
	if d := fluentSame(r, p); d != "" {
		return d
	}
	m := x.RMap(r)
	for _, o := range plainOpts() {
		if !sameMaps(m, x.RMapWithOptions(r, o)) {
			return "Map and MapWithOptions differ"
		}
	}
	return ""
}
