package main

import (
	"fmt"
	"strings"
	"sync"

	x "verifharness/lib"
)

func init() {
	register(&Check{ID: "C11", Run: runC11, Subs: map[string]Sub{"step": stepSub, "seq": seqSub}, Notes: []string{
		"the states are documents, the transitions modifying calls; validity is judged by the reference recogniser and by Valid",
	}})
}

// Op is one modifying call.
type Op struct{ Kind, Path, Val string }

const opSep = "\x1f"

func (o Op) String() string { return o.Kind + opSep + o.Path + opSep + o.Val }

func readOp(s string) Op {
	p := strings.SplitN(s, opSep, 3)
	for len(p) < 3 {
		p = append(p, "")
	}
	return Op{p[0], p[1], p[2]}
}

// apply runs the call on a document.
func (o Op) apply(doc string) (string, error) {
	switch o.Kind {
	case "set":
		return x.Set(doc, o.Path, decodeValue(o.Val))
	case "setbytes":
		b, err := x.SetBytes([]byte(doc), o.Path, decodeValue(o.Val))
		return string(b), err
	case "fold":
		return x.SetWithOptions(doc, o.Path, decodeValue(o.Val), foldOpts())
	case "indent":
		return x.SetWithOptions(doc, o.Path, decodeValue(o.Val), &x.Options{CaseSensitive: true, Indent: "  "})
	case "raw":
		return x.SetRaw(doc, o.Path, o.Val)
	case "delete":
		return x.Delete(doc, o.Path)
	case "folddelete":
		b, err := x.DeleteBytesWithOptions([]byte(doc), o.Path, foldOpts())
		return string(b), err
	case "many": // path=value pairs
		var ps []string
		var vs []any
		for i, p := range strings.Split(o.Path, "\x1e") {
			ps = append(ps, p)
			vs = append(vs, decodeValue(strings.Split(o.Val, "\x1e")[i]))
		}
		return x.SetMany(doc, ps, vs)
	case "deletemany":
		return x.DeleteMany(doc, strings.Split(o.Path, "\x1e")...)
	}
	panic("op " + o.Kind)
}

func (o Op) deletes() bool {
	return strings.Contains(o.Kind, "delete") || strings.Contains(o.Val, "n:")
}

func rootless(doc string) bool {
	nodes, err := ParseContent(doc)
	return err == nil && len(elems(nodes)) == 0
}

// stepOne applies the call to a valid (or empty) document and checks what it returns.
func stepOne(doc string, o Op) (string, string) {
	got, err := o.apply(doc)
	if err != nil {
		if got != doc {
			return got, fmt.Sprintf("error %v, but the document changed to %q", err, clip(got))
		}
		if classOf(err) == "xml" && !(doc == "" && o.deletes()) {
			return got, fmt.Sprintf("a valid document is refused: %v", err)
		}
		return got, ""
	}
	if got == doc {
		return got, "" // an empty batch or nothing to delete
	}
	if _, perr := ParseDoc(got); perr != nil {
		if o.deletes() && rootless(got) {
			return got, ""
		}
		return got, fmt.Sprintf("returned document is not valid (%s at %d): %q", perr.msg, perr.pos, clip(got))
	}
	if !x.Valid(got) {
		return got, fmt.Sprintf("returned document is refused by Valid: %q", clip(got))
	}
	return got, ""
}

// stepSub: doc, op.
func stepSub(args []string) string {
	if _, err := ParseDoc(args[0]); err != nil && args[0] != "" {
		return ""
	}
	_, what := stepOne(args[0], readOp(args[1]))
	return what
}

// seqSub: doc, ops...
func seqSub(args []string) string {
	doc := args[0]
	for i, a := range args[1:] {
		got, what := stepOne(doc, readOp(a))
		if what != "" {
			return fmt.Sprintf("call %d on %q: %s", i, clip(doc), what)
		}
		if _, err := ParseDoc(got); err != nil {
			return ""
		}
		doc = got
	}
	return ""
}

// bfs explores all documents reachable from the seeds.
func bfs(c *Ctx, seeds []string, ops []Op, depth, maxLen int) {
	seen := map[string]bool{}
	var mu sync.Mutex
	frontier := []string{}
	for _, s := range seeds {
		if !seen[s] {
			seen[s] = true
			c.State(s)
			frontier = append(frontier, s)
		}
	}
	for d := 0; d < depth && len(frontier) > 0 && !c.Stopped(); d++ {
		last := d == depth-1
		next := make([][]string, 64)
		Each(c, frontier, func(w int, doc string) {
			c.Begin(w, "step", doc, "")
			changed := 0
			for _, o := range ops {
				var got, what string
				if p := guarded(func() string { got, what = stepOne(doc, o); return "" }); p != "" {
					what = p
				}
				if what != "" {
					c.Fail("step", what, doc, o.String())
					continue
				}
				if got != doc {
					changed++
				}
				if last || got == doc || len(got) > maxLen {
					continue
				}
				if _, err := ParseDoc(got); err != nil && got != "" {
					continue
				}
				mu.Lock()
				if !seen[got] {
					seen[got] = true
					next[w] = append(next[w], got)
				}
				mu.Unlock()
			}
			c.End(w)
		})
		frontier = frontier[:0]
		for _, n := range next {
			for _, s := range n {
				c.State(s)
				frontier = append(frontier, s)
			}
		}
		c.Count(fmt.Sprintf("reached at depth %d", d+1), int64(len(frontier)))
	}
}

func opList(kinds []string, paths []string, vals []string) []Op {
	var out []Op
	for _, p := range paths {
		for _, k := range kinds {
			switch k {
			case "delete", "folddelete", "deletemany":
				out = append(out, Op{k, p, ""})
			case "raw":
				for _, v := range []string{"<k/>", "t<!--c--><b x='1'>u</b>", "", "<![CDATA[<]]>", "</a>", "<a", "a>b", "&", `<b y=">"/>`, "<a></a ><p:q\n/>", "<?p?>", "x]]>"} {
					out = append(out, Op{k, p, v})
				}
			default:
				for _, v := range vals {
					out = append(out, Op{k, p, v})
				}
			}
		}
	}
	return out
}

func joinPaths(toks []string, n int) []string {
	var out []string
	for l := 1; l <= n; l++ {
		product(len(toks), l, func(ix []int) {
			q := make([]string, l)
			for i, k := range ix {
				q[i] = toks[k]
			}
			out = append(out, strings.Join(q, "."))
		})
	}
	return out
}

var hostile = []string{"s:t", "s:", "s:<a>&\"'>", "s:]]>", "s:<!--", "s:\x00\x1f\x7f", "s:\xff\xfe", "s: \n\t", "s:&amp;", "i:-12", "f:1.5e300", "b:true", "r:<k/>", "r:</a>", "r:<a", "r:<a></b>", "r:\"", "r:'>", "r:&", "r:<!--", "r:]]>", "n:", "u:", "s:é\u2028"}

func runC11(c *Ctx) {
	seeds := append([]string{""}, forestDocs(allForests(3, 2), docStyle{names: ab, text: 0, attrs: 2}, docStyle{names: []string{"a", "p:b"}, text: 2, attrs: 1})...)
	odd := []string{
		"<?xml version='1.0'?>\n<!DOCTYPE a [<!ELEMENT a ANY>]>\n<a x='1'>t<!-- </a> --><b/><![CDATA[<b>]]></a>\n<!-- end -->",
		"<a\n x = '>' y=\"<b>\" ><b\t/><b ></b >\n</a >", "<a/>", "<a></a><b/>", "<a><?p <b>?><b>1</b></a>", "<a x='&lt;' x='2'>&unknown;</a>", "<p:a xmlns:p='u' p:x='1'><p:b/></p:a>", "<a>é\xff</a>", "\ufeff<a/>", " <a/> ", "<a><a><a><b>1</b></a></a></a>", "<A><b/><B x='1'/></A>", "<a x=\"it's\" y='\"q\"'/>",
	}
	var os []string
	for _, s := range odd {
		if _, err := ParseDoc(s); err == nil {
			os = append(os, s)
		}
	}
	seeds = append(seeds, os...)
	// one call with every path of the token alphabet and every value
	toks := []string{"a", "b", "p:b", "n", "0", "1", "-1", "@x", "@p:z", "*", "**", "#", "%", "#(b)", "#(@x=='1')#", "a|@first", "a b", "1a", "<", "", "@", "a/b", "é", "\x00", "-2", "a>b", "@1", "@a b", "a=", "#(", "a\\.b", "01", "+1"}
	big := opList([]string{"set", "raw", "delete", "fold", "indent"}, joinPaths(toks, 1), hostile)
	big = append(big, opList([]string{"set", "raw", "delete"}, joinPaths(toks, 2)[len(toks):], []string{"s:v", "s:<&>\"'", "r:<k/>", "n:"})...)
	if c.thorough {
		big = append(big, opList([]string{"set", "delete", "fold", "folddelete"}, joinPaths(toks, 3)[len(toks)*(len(toks)+1):], []string{"s:<&>\"'", "r:<k/>"})...)
	}
	one := os
	one = append(one, "", "<a><b>1</b><b x='1'/></a>", "<a x='1'/><a><b/></a>")
	bfs(c, one, big, 1, 1<<20)
	c.Sample("%d calls from each of %d documents, e.g. %q", len(big), len(one), big[len(big)/2])
	// one call with every longer path, from every small document
	long := opList([]string{"set", "raw", "delete"}, joinPaths([]string{"a", "b", "0", "-1", "@x"}, 4), []string{"s:v", "r:<k/>"})
	bfs(c, seeds, long, 1, 1<<20)
	c.Sample("%d calls from each of %d documents, e.g. %q", len(long), len(seeds), long[len(long)/2])
	// every pair of calls
	mid := opList([]string{"set", "delete", "raw"}, joinPaths([]string{"a", "b", "0", "-1", "@x"}, 2), []string{"s:v", "s:<&>\"'", "r:<k y='1'/>t", "n:"})
	bfs(c, seeds[:len(seeds)/3], mid, 2, 200)
	bfs(c, append([]string{""}, os...), mid, 2, 400)
	// long sequences over few calls
	small := []Op{{"set", "a.b", "s:v"}, {"set", "a.b.-1", "s:<"}, {"set", "a.b.1", "s:w"}, {"set", "a.@x", "s:\"'&"}, {"raw", "a.b", "<a x='1'/>t"}, {"raw", "a.b.-1", "<b/>"}, {"delete", "a.b", ""}, {"delete", "a.@x", ""}, {"delete", "a", ""}, {"set", "a.a.b", "s:"}, {"set", "b", "i:1"}, {"raw", "a", "<!--c--><a/>"}, {"indent", "a.b.@y", "s:1"}, {"fold", "A.c", "s:2"}, {"many", "a.b\x1ea.b.-1\x1ea.@z", "s:1\x1er:<a/>\x1en:"}, {"deletemany", "a.b.1\x1ea.@x\x1eb", ""}}
	depth := 4
	if c.thorough {
		depth = 6
	}
	bfs(c, []string{"", "<a/>", "<a><b/></a>", "<a x='1'><b>1</b>t<!--c--><b/></a><a/>", os[0], os[1]}, small, depth, 160)
	c.Sample("sequence %q", []string{small[0].String(), small[4].String(), small[1].String(), small[6].String()})
	// filter text in brackets, which Set has always accepted
	c.Do("step", "<root><user/></root>", Op{"set", "root.user[age>25].status", "s:x"}.String())
	// batches at every position of a longer list
	for n := 0; n <= 12; n++ {
		for k := 0; k <= n; k++ {
			var ps, vs []string
			for i := 0; i < n; i++ {
				ps = append(ps, []string{"a.b.-1", "a.c.@x", "a.d.e", "a.b.0"}[i%4])
				vs = append(vs, []string{"s:<", "s:\"", "r:<k/>", "n:"}[(i+k)%4])
			}
			if n > 0 {
				o := Op{"many", strings.Join(ps, "\x1e"), strings.Join(vs, "\x1e")}
				c.State("batch", o.String())
				c.Do("step", "<a><b/></a>", o.String())
				c.Do("seq", "", o.String(), o.String(), Op{"deletemany", strings.Join(ps[:(n+1)/2], "\x1e"), ""}.String(), o.String())
			}
		}
	}
	// many calls after each other: growth
	for _, o := range small {
		args := []string{"<a><b/></a>"}
		for i := 0; i < 150; i++ {
			args = append(args, o.String())
		}
		c.State(args...)
		c.Do("seq", args...)
	}
	// long values and fragments
	Each(c, lattice(reachExp(c)), func(w int, n int) {
		for _, v := range longTexts(n, []string{"<", "&", "\"", "'", "</a>", "]]>", "<!--", "é"}) {
			for _, p := range []string{"a", "a.b", "a.@x", "a.n", "a.b.-1"} {
				c.State("long", p, v)
				c.Do("step", "<a x='1'><b/></a>", Op{"set", p, "s:" + v}.String())
			}
		}
	})
	Each(c, farRaws(c), func(w int, f string) {
		c.State("fragment", f)
		c.Do("step", "<a x='1'><b/></a>", Op{"raw", "a.b", f}.String())
		c.Do("step", "<a x='1'><b/></a>", Op{"set", "a.n", "r:" + f}.String())
	})
	// nesting grows to the limit and is refused beyond it
	grow := []string{""}
	for i := 1; i <= 104; i++ {
		grow = append(grow, Op{"set", strings.Repeat("a.", i-1) + "a", "s:v"}.String())
	}
	c.Do("seq", grow...)
	for _, raw := range []string{"<a/>", "<a><b/></a>", strings.Repeat("<k>", 50) + strings.Repeat("</k>", 50)} {
		g := []string{"<a/>"}
		p := "a"
		for i := 0; i < 104; i++ {
			g = append(g, Op{"raw", p, raw}.String())
			p += "." + []string{"a", "a", "k"}[i%3]
		}
		c.Do("seq", g...)
	}
	attrs := []string{"<a/>"}
	for i := 0; i < 104; i++ {
		attrs = append(attrs, Op{"set", fmt.Sprint("a.@k", i), "s:v"}.String())
	}
	c.Do("seq", attrs...)
}
