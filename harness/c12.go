package main

import (
	"fmt"
	"strings"

	x "verifharness/lib"
)

func init() {
	register(&Check{ID: "C12", Run: runC12, Subs: map[string]Sub{"fail": failSub, "batch": batchSub, "deletes": deletesSub, "mismatch": mismatchSub, "longbatch": longBatchSub}, Notes: []string{
		"when several causes of failure are present any of their classes is accepted",
		"DeleteMany works on its distinct paths, as documented",
	}})
}

// named inputs keep the cases of large values small
func bigInput(s string) string {
	switch s {
	case "@big-doc":
		return "<r><a>" + strings.Repeat("x", maxDoc-13) + "</a></r>" // one byte beyond the limit
	case "@big-value":
		return "s:" + strings.Repeat("v", maxValue+1)
	case "@big-raw":
		return "r:" + strings.Repeat("v", maxValue+1)
	case "@big-path":
		return strings.Repeat("a.", maxSegments) + "a"
	case "@big-elem":
		return "r." + strings.Repeat("n", maxToken+1)
	}
	return s
}

// causes lists the classes of error that apply to a call; no class means it must succeed.
func causes(doc, path, value string) (map[string]bool, bool) {
	out := map[string]bool{}
	segs, _, ok := readPath(path)
	if !ok || len(segs) > maxSegments {
		segs = nil
	}
	if !settable(segs) {
		return nil, false
	}
	var docErr bool
	if doc != "" || value == "n:" {
		_, err := ParseDoc(doc)
		docErr = err != nil || len(doc) > maxDoc
	}
	if docErr {
		out["xml"] = true
	}
	base := doc
	if docErr {
		base = "<r><a>1</a></r>"
	}
	if value == "n:" {
		if ed := (Env{}).modelDelete(base, segs); ed.Class != "" {
			out[ed.Class] = true
		}
		return out, true
	}
	attr := len(segs) > 0 && segs[len(segs)-1].K == SAttr
	if ed := (Env{}).modelSet(base, segs, nil, "v"); ed.Class != "" {
		out[ed.Class] = true
	}
	switch k := value[0]; {
	case k == 'u':
		out["value"] = true
	case len(value)-2 > maxValue:
		out["value"] = true
	case k == 'r' && !attr:
		if _, err := ParseContent(value[2:]); err != nil {
			out["value"] = true
		}
	}
	return out, true
}

// failSub: doc, path, value.
func failSub(args []string) string {
	doc, path, value := bigInput(args[0]), bigInput(args[1]), bigInput(args[2])
	want, ok := causes(doc, path, value)
	if !ok {
		return ""
	}
	judge := func(name, got string, err error) string {
		cl := classOf(err)
		if err == nil && len(want) > 0 {
			return fmt.Sprintf("%s succeeds, want an error of class %v; result %q", name, want, clip(got))
		}
		if err != nil && !want[cl] {
			return fmt.Sprintf("%s gives error %v (class %q), want class %v", name, err, cl, want)
		}
		if err != nil && got != doc {
			return fmt.Sprintf("%s gives error %v and changes the document to %q", name, err, clip(got))
		}
		return ""
	}
	v := decodeValue(value)
	got, err := x.Set(doc, path, v)
	if d := judge("Set", got, err); d != "" {
		return d
	}
	b, err := x.SetBytes([]byte(doc), path, v)
	if d := judge("SetBytes", string(b), err); d != "" {
		return d
	}
	got, err = x.SetMany(doc, []string{path}, []any{v})
	if d := judge("SetMany", got, err); d != "" {
		return d
	}
	got, err = x.SetWithOptions(doc, path, v, nil)
	if d := judge("SetWithOptions", got, err); d != "" {
		return d
	}
	if value == "n:" {
		got, err = x.Delete(doc, path)
		if d := judge("Delete", got, err); d != "" {
			return d
		}
		b, err = x.DeleteBytes([]byte(doc), path)
		if d := judge("DeleteBytes", string(b), err); d != "" {
			return d
		}
		got, err = x.DeleteMany(doc, path)
		if d := judge("DeleteMany", got, err); d != "" {
			return d
		}
	}
	return ""
}

// batchSub: doc, then path and value pairs.
func batchSub(args []string) string {
	doc := args[0]
	var ps []string
	var vs []any
	for i := 1; i < len(args); i += 2 {
		ps = append(ps, args[i])
		vs = append(vs, decodeValue(args[i+1]))
	}
	want, class := doc, ""
	for i := range ps {
		var err error
		want, err = x.Set(want, ps[i], vs[i])
		if err != nil {
			want, class = doc, classOf(err)
			break
		}
	}
	got, err := x.SetMany(doc, ps, vs)
	if got != want || classOf(err) != class {
		return fmt.Sprintf("SetMany gives %q, %v; single calls %q, class %q", clip(got), err, clip(want), class)
	}
	b, err := x.SetManyBytes([]byte(doc), ps, vs)
	if string(b) != want || classOf(err) != class {
		return fmt.Sprintf("SetManyBytes gives %q, %v; single calls %q, class %q", clip(string(b)), err, clip(want), class)
	}
	return ""
}

// deletesSub: doc, paths.
func deletesSub(args []string) string {
	doc, ps := args[0], args[1:]
	want, class := doc, ""
	seen := map[string]bool{}
	for i, p := range ps {
		if seen[p] {
			continue
		}
		seen[p] = true
		if i > 0 && rootless(want) {
			if segs, _, ok := readPath(p); ok && len(segs) > 0 {
				continue // nothing is left to delete
			}
		}
		var err error
		want, err = x.Delete(want, p)
		if err != nil {
			want, class = doc, classOf(err)
			if i > 0 && class == "xml" {
				class = "path"
			}
			break
		}
	}
	got, err := x.DeleteMany(doc, ps...)
	ok := func(s string, err error) bool {
		c := classOf(err)
		return s == want && (c == class || class == "path" && c == "xml" && len(ps) > 1)
	}
	if !ok(got, err) {
		return fmt.Sprintf("DeleteMany gives %q, %v; single calls %q, class %q", clip(got), err, clip(want), class)
	}
	b, err := x.DeleteManyBytes([]byte(doc), ps...)
	if !ok(string(b), err) {
		return fmt.Sprintf("DeleteManyBytes gives %q, %v; single calls %q, class %q", clip(string(b)), err, clip(want), class)
	}
	return ""
}

// mismatchSub: doc, number of paths, number of values (as lengths of the arguments).
func mismatchSub(args []string) string {
	doc, n, m := args[0], len(args[1]), len(args[2])
	ps := make([]string, n)
	for i := range ps {
		ps[i] = "a.b"
	}
	vs := make([]any, m)
	for i := range vs {
		vs[i] = "v"
	}
	_, perr := ParseDoc(doc)
	for _, f := range []func() (string, error){
		func() (string, error) { return x.SetMany(doc, ps, vs) },
		func() (string, error) { b, err := x.SetManyBytes([]byte(doc), ps, vs); return string(b), err },
	} {
		got, err := f()
		if n != m {
			if c := classOf(err); got != doc || c != "path" && !(c == "xml" && perr != nil && doc != "") {
				return fmt.Sprintf("%d paths and %d values give %q, %v", n, m, clip(got), err)
			}
		} else if n == 0 && (got != doc || err != nil) {
			return fmt.Sprintf("an empty batch gives %q, %v", clip(got), err)
		}
	}
	return ""
}

func runC12(c *Ctx) {
	bad := []string{"<a", "<a>", "</a>", "<a></b>", "text", "<a/>text", "text<a/>", "<a x></a>", "<a x=1/>", "<1/>", "<a><!-- </a>", "<a><![CDATA[</a>", "<a>&<b></a>", "< a/>", "<a x='1' y=\"2/>", "<?p", "<!DOCTYPE a [<a/>", "<a/><", " ", "<!--c-->", strings.Repeat("<a>", maxDepth+1) + strings.Repeat("</a>", maxDepth+1), "<a>" + "</a></a>", "<a></a b>", "<a//>", "<a ='1'/>"}
	good := []string{"", "<r><a>1</a></r>", "<r x='1'/>", "<a><a k='2'/></a><r/>"}
	docs := append(good, bad...)
	dl, n := 3, 4
	if c.thorough {
		dl, n = 4, 5
	}
	for l := 1; l <= dl; l++ {
		product(7, l, func(ix []int) {
			s := ""
			for _, k := range ix {
				s += []string{"<", ">", "/", "a", " ", "<a>", "</a>"}[k]
			}
			docs = append(docs, s)
		})
	}
	docs = distinct(docs)
	paths := []string{"r.a", "r.b", "r.b.c.d", "r.@x", "r.b.@x", "r.a.-1", "n", "a.0", "a.a.@k", "a.a.k", "r.a.0",
		"", ".", "..", "0", "-1", "@", "@x", "#", "%", "r.-2", "r.a.-2", "r.a.5", "r.b.0", "r.b.1.c", "r.-1.a", "r.a.-1.b", "a.-1.@x", "r.#", "r.%", "r.b.#", "r.b.%", "r.1x", "r.a b", "r.<", "r.a/", "r.@1", "r.@a b", "r.b.@<", "r.#(a", "r.#(a)", "r.b.#(c)#", "r.é", "r.\x00", "r. ", "r.a\\.b", "@x.a", "r.@x.b", "@big-path"}
	vals := append([]string{}, hostile...)
	vals = append(vals, "u:struct", "u:uint", "u:slice", "u:map", "u:ptr", "u:int32", "u:rune", "r:<a x='1' x='2'/>", "r:<a><b></a></b>", "r:<1/>", "r:<a x=1/>", "r:< a/>", "r:<a/ >")
	type cs struct{ p, v string }
	var list []cs
	for _, p := range paths {
		for _, v := range vals {
			list = append(list, cs{p, v})
		}
	}
	Each(c, list, func(w int, it cs) {
		c.Begin(w, "fail", "", it.p, it.v)
		for _, d := range docs {
			c.States(1)
			c.Do("fail", d, it.p, it.v)
			if c.Stopped() {
				break
			}
		}
		c.End(w)
	})
	c.Sample("Set(%q, %q, %s)", docs[6], paths[20], vals[13])
	var bigs [][]string
	for _, p := range []string{"r.a", "r.@x", "", "r.1x", "@big-elem"} {
		for _, v := range []string{"s:v", "u:", "r:<a", "n:"} {
			bigs = append(bigs, []string{"@big-doc", p, v})
		}
	}
	for _, d := range []string{"<r/>", "<r", ""} {
		for _, p := range []string{"r.a", "r.@x", "", "r.a.-1", "r.-2"} {
			for _, v := range []string{"@big-value", "@big-raw"} {
				bigs = append(bigs, []string{d, p, v})
			}
		}
	}
	Each(c, bigs, func(w int, a []string) {
		c.State(a...)
		c.Do("fail", a...)
	})
	// batches: every sequence of steps, failing ones at every position
	type step struct{ p, v string }
	steps := []step{{"r.a", "s:1"}, {"r.b.-1", "s:<"}, {"r.@x", "b:true"}, {"r.a", "r:<k/>"}, {"r.a", "n:"}, {"r", "n:"}, {"r.a.k", "i:2"}, {"", "s:x"}, {"r.1x", "s:x"}, {"r.a", "u:"}, {"r.a", "r:<k"}, {"r.a.-2", "s:x"}, {"", "n:"}, {"r.b", "s:2"}}
	for l := 0; l <= n; l++ {
		var seqs [][]step
		product(len(steps), l, func(ix []int) {
			q := make([]step, l)
			for i, k := range ix {
				q[i] = steps[k]
			}
			seqs = append(seqs, q)
		})
		Each(c, seqs, func(w int, q []step) {
			for _, d := range []string{"<r><a>0</a><b/></r>", "", "<r", "<q/><r/>"} {
				args := []string{d}
				for _, s := range q {
					args = append(args, s.p, s.v)
				}
				c.Do("batch", args...)
			}
			c.States(4)
		})
	}
	// long batches with one failing step at every position
	for _, k := range []int{5, 17, 40} {
		for f := 0; f <= k; f++ {
			for _, bad := range steps[7:12] {
				args := []string{"<r/>"}
				for i := 0; i < k; i++ {
					s := steps[i%3]
					if i == f {
						s = bad
					}
					args = append(args, s.p, s.v)
				}
				c.State(args...)
				c.Do("batch", args...)
			}
		}
	}
	dp := []string{"r.a", "r.a.0", "r.a.1", "r.b", "r", "q", "r.@x", "", "zz", "r.a.k", "@x", "q|@first"}
	ddocs := []string{"<r x='1'><a>1</a><a>2</a><a/><b/></r>", "<r><a><k/></a></r><q/>", "<r", "", "<!--c--><r/>"}
	for l := 0; l <= n; l++ {
		var seqs [][]string
		product(len(dp), l, func(ix []int) {
			q := make([]string, l)
			for i, k := range ix {
				q[i] = dp[k]
			}
			seqs = append(seqs, q)
		})
		Each(c, seqs, func(w int, q []string) {
			for _, d := range ddocs {
				c.Do("deletes", append([]string{d}, q...)...)
			}
			c.States(len(ddocs))
		})
	}
	c.Sample("DeleteMany(%q, %q)", ddocs[0], dp[:3])
	// all pairs and triples over paths that look alike
	alike := []string{"r.a", "r.A", "R.a", "r.p:a", "r.q:a", "r.a.0", "r.A.0", "r.a.1", "r.a.00", "r..a", ".r.a", "r.a.", "r.a.@x", "r.a.@X", "r.a.@p:x", "r.@a", "r.a|@first", "r.a.k", "r.k", "r.b", "r.b.0", "r.a.0.k", "r.aa", "a", "r"}
	rich := "<r a='0' x='1'><a x='1' X='2' p:x='3'><k/><k/></a><A>2</A><p:a>3</p:a><a><k>4</k></a><q:a/><aa/><b>5</b><b/><k/></r><R><a/></R><a/>"
	var lists [][]string
	for l := 2; l <= 3; l++ {
		product(len(alike), l, func(ix []int) {
			q := make([]string, l)
			for i, k := range ix {
				q[i] = alike[k]
			}
			lists = append(lists, q)
		})
	}
	Each(c, lists, func(w int, q []string) {
		c.Do("deletes", append([]string{rich}, q...)...)
		for _, vs := range [][]string{{"s:1", "s:2", "s:3"}, {"n:", "s:2", "n:"}, {"s:1", "n:", "i:3"}, {"r:<k>7</k>", "s:", "r:<a/>"}} {
			args := []string{rich}
			for i, p := range q {
				args = append(args, p, vs[i])
			}
			c.Do("batch", args...)
		}
		for _, p := range [][]string{{"r.b.-1", q[0], "r.b.-1"}, {"r.n.-1", "r.n.-1", q[0]}} {
			c.Do("batch", rich, p[0], "s:1", p[1], "s:2", p[2], "s:3")
		}
		c.States(7)
	})
	runLongBatches(c, "set", "delete")
	for i := 0; i <= 6; i++ {
		for j := 0; j <= 6; j++ {
			for _, d := range []string{"<a/>", "", "<a", "<a><b/></a>"} {
				c.State("mismatch", d, fmt.Sprint(i, j))
				c.Do("mismatch", d, strings.Repeat("p", i), strings.Repeat("v", j))
			}
		}
	}
}
