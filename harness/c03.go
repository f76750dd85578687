package main

import (
	"fmt"
	"strings"

	x "verifharness/lib"
)

func init() {
	register(&Check{ID: "C03", Run: runC03, Subs: map[string]Sub{"query": querySub}, Notes: []string{
		"a filter directly followed by an index, # or by nothing after ** is outside the modelled language",
	}})
}

var ops = []string{"==", "!=", "<", ">", "<=", ">=", "%", "!%"}

var filterVals = []string{
	"5", "05", "5.0", "5.", ".5", "0.5", "-5", "+5", "10", "9", "1e1", "1E1", "1e", "e1", "1e400", "-1e400", "1e-400", "0", "-0", "00", "5a", "a5", "0x5", "5_0",
	"abc", "ab", "Abc", "abc d", "NaN", "nan", "Inf", "inf", "-Inf", "infinity", "true", "false", "é", "日本", "a.b", "a|b", "it's", `say "x"`, "a)b", "(a", "a=b", "a==b", "a<b", "a!=b", "a%b", "!", "=", "#", "@x", "*", "?", "**", "a*", "x&y", "--", "-", "+", ".", "1.2.3", "1,5", "5 ", "9007199254740993", "9007199254740992", "0.1", "0.10000000000000001", "1e308", "2e308",
	"[", "]", "{}", "$", "|", "|@x", `\`, `\\`, `a\b`, "/", ":", "a:b", ";", ",", "~", "^", "`",
}

func xmlEsc(s string) string {
	return strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;", `"`, "&quot;", "'", "&apos;").Replace(s)
}

// pathQueries compares text paths using the reference reading of the path.
func textQueries(c *Ctx, docs []string, paths []string) {
	parsed := parseAll(c, docs)
	Each(c, paths, func(w int, p string) {
		segs, _, ok := readPath(p)
		c.Begin(w, "query", docs[0], p)
		for i := range parsed {
			want := null
			if ok {
				want = Env{}.query(parsed[i].nodes, segs)
			}
			judged.Add(1)
			if d := safeDiff(parsed[i].text, p, want); d != "" {
				c.Fail("query", d, parsed[i].text, p)
			}
		}
		c.End(w)
	})
}

func safeDiff(doc, path string, want R) (d string) {
	defer func() {
		if r := recover(); r != nil {
			d = fmt.Sprint("panic: ", r)
		}
	}()
	return diffResult(x.Get(doc, path), want)
}

func runC03(c *Ctx) {
	runLongNumbers(c)
	// 1. every operator on every pair of actual and compared value, operand as
	// attribute, child, nested child and nested attribute, in every quoting
	var docs []string
	for _, v := range filterVals {
		e := xmlEsc(v)
		docs = append(docs, fmt.Sprintf(`<r><i x="%s"><k>%s</k><n><k x="%s">%s</k></n></i><i/></r>`, e, e, e, e))
	}
	var paths []PathCase
	var texts []string
	operands := [][]Seg{{at("x")}, {nm("k")}, {nm("n"), nm("k")}, {nm("n"), nm("k"), at("x")}}
	for _, v := range filterVals {
		for _, op := range ops {
			for i, o := range operands {
				for _, q := range []string{"'", `"`} {
					if strings.ContainsAny(v, `'"`) {
						continue
					}
					for _, all := range []bool{false, true} {
						if i > 1 && (q == `"` || all) {
							continue
						}
						s := sq(nm("r"), nm("i"), Seg{K: SFilter, Cond: &Cond{o, op, v, q}, All: all})
						paths = append(paths, PathCase{s, render(s)})
					}
				}
				if i < 2 {
					for _, sp := range []string{"", " "} {
						cond := strings.ReplaceAll(render(o)+sp+op+sp+v, `\`, `\\`)
						texts = append(texts, "r.i.#("+cond+")#")
					}
					// quotes of the other kind inside quotes
					texts = append(texts, "r.i.#("+strings.ReplaceAll(render(o)+op+`"`+v+`"`, `\`, `\\`)+")#", "r.i.#("+strings.ReplaceAll(render(o)+op+`'`+v+`'`, `\`, `\\`)+")#")
				}
			}
		}
	}
	runQueries(c, docs, paths)
	textQueries(c, docs, texts)
	// 2. all short actual/compared numbers over a numeric alphabet
	nums := strs([]string{"1", "0", ".", "-", "e", "+"}, 3)[1:]
	if c.thorough {
		nums = strs([]string{"1", "0", ".", "-", "e", "+"}, 4)[1:]
	}
	docs, paths = nil, nil
	for _, v := range nums {
		docs = append(docs, `<r><i x="`+v+`"/></r>`)
		for _, op := range []string{"<", ">", "<=", ">=", "=="} {
			if c.thorough && op != "<" && op != ">=" {
				continue
			}
			s := sq(nm("r"), nm("i"), Seg{K: SFilter, Cond: &Cond{sq(at("x")), op, v, "'"}})
			paths = append(paths, PathCase{s, render(s)})
		}
	}
	runQueries(c, docs, paths)
	// longer numbers against a few others, both ways
	long := strs([]string{"1", "0", ".", "-", "e", "+"}, 4)[1:]
	if c.thorough {
		long = strs([]string{"1", "0", ".", "-", "e", "+"}, 6)[1:]
	}
	few := []string{"0", "1", "-1", ".5", "-.5", "1.5", "+1.5", "1e1", "-1e-1", "10", "x", ""}
	docs, paths = nil, nil
	for _, v := range long {
		docs = append(docs, `<r><i x="`+v+`"/></r>`)
	}
	numPaths := func(vals []string) []PathCase {
		var out []PathCase
		for _, v := range vals {
			for _, op := range []string{"<", ">", "<=", ">="} {
				s := sq(nm("r"), nm("i"), Seg{K: SFilter, Cond: &Cond{sq(at("x")), op, v, "'"}})
				out = append(out, PathCase{s, render(s)})
			}
		}
		return out
	}
	runQueries(c, docs, numPaths(few))
	docs = nil
	for _, v := range few {
		docs = append(docs, `<r><i x="`+v+`"/></r>`)
	}
	runQueries(c, docs, numPaths(long))
	// 3. every sequence of up to 5 (6) items of different kinds
	kinds := []string{
		`<i x="1"><k>5</k><v y="p">A</v></i>`,
		`<i x="2"><k>7</k><v y="q">B</v><v>C</v></i>`,
		`<i x="1"><k>9</k><k>5</k></i>`,
		`<i><v y="r">D</v></i>`,
		`<j x="1"><k>5</k><v y="s">E</v></j>`,
		`<i x="1"><m><k>5</k></m>F<i x="1"><k>5</k><v>G</v></i></i>`,
	}
	n := 4
	if c.thorough {
		n = 5
	}
	docs = nil
	for l := 0; l <= n; l++ {
		product(len(kinds), l, func(ix []int) {
			var b strings.Builder
			for _, k := range ix {
				b.WriteString(kinds[k])
			}
			docs = append(docs, "<r>"+b.String()+"</r>")
		})
	}
	// the same below an element that can itself match, with deeper items
	kinds = append(kinds, `<i x="2"><i x="2"><k>7</k><v y="q">H</v><v>I</v></i><k>5</k><v><k>5</k>J<v y="q"/></v></i>`, `<v y="1" x="1"><k>5</k><y/></v>`)
	for l := 0; l < n; l++ {
		product(len(kinds), l, func(ix []int) {
			var b strings.Builder
			for _, k := range ix {
				b.WriteString(kinds[k])
			}
			docs = append(docs, `<r x="1"><k>5</k>`+b.String()+`<v y="q" x="1">K</v></r>`)
		})
	}
	conds := []*Cond{
		{sq(at("x")), "==", "1", "'"}, {sq(at("x")), "", "", ""}, {sq(at("x")), ">=", "2", ""}, {sq(nm("k")), "==", "5", ""}, {sq(nm("k")), "!=", "5", "'"}, {sq(nm("k")), ">", "5", ""}, {sq(nm("k")), "", "", ""},
		{sq(nm("m"), nm("k")), "==", "5", ""}, {sq(nm("v"), at("y")), "==", "q", "'"}, {sq(nm("v"), at("y")), "", "", ""}, {sq(nm("v")), "%", "?", "'"}, {sq(nm("v")), "!%", "A", "'"}, {sq(nm("k"), ix(1)), "==", "5", ""}, {sq(nm("k"), cnt), ">", "1", ""}, {sq(nm("zz")), "!=", "1", "'"}, {sq(nm("i"), nm("k")), "==", "5", ""}, {sq(at("zz")), "!%", "*", "'"},
	}
	var segp [][]Seg
	conts := [][]Seg{nil, {at("x")}, {nm("k")}, {nm("v")}, {nm("v"), at("y")}, {txt}, {fld("v")}, {fld("@x")}, {fld("%")}, {nm("v"), ix(1)}, {nm("k"), cnt}, {nm("v"), ix(0), at("y")}}
	for _, cd := range conds {
		for _, all := range []bool{false, true} {
			f := Seg{K: SFilter, Cond: cd, All: all}
			segp = append(segp, withTails([][]Seg{{nm("r"), nm("i"), f}}, conts...)...)
			segp = append(segp, withTails([][]Seg{{nm("r"), f}}, nil, sq(at("x")), sq(nm("v")), sq(txt))...)
			segp = append(segp, sq(nm("r"), nm("zz"), f), sq(nm("r"), nm("j"), f, nm("v")), sq(nm("zz"), f), sq(f), sq(nm("r"), star, f), sq(nm("r"), deep, nm("i"), f))
			for _, cd2 := range []*Cond{{sq(nm("k")), "==", "5", ""}, {sq(at("y")), "", "", ""}, {sq(at("x")), "==", "1", "'"}} {
				for _, all2 := range []bool{false, true} {
					f2 := Seg{K: SFilter, Cond: cd2, All: all2}
					segp = append(segp, sq(nm("r"), f, f2), sq(nm("r"), nm("i"), f, nm("v"), f2), sq(nm("r"), nm("i"), f, nm("i"), f2, nm("v")))
				}
			}
		}
	}
	runQueries(c, docs, pathCases(segp))
	runFilterSweeps(c)
	longCompared(c)
	var near [][]Seg
	for _, cd := range []*Cond{{sq(at("x")), "==", "1", "'"}, {sq(at("x")), "", "", ""}, {sq(at("y")), "!=", "2", "'"}, {sq(nm("b")), "", "", ""}, {sq(nm("b")), "==", "u", "'"}, {sq(nm("b")), "!=", "u", "'"}, {sq(nm("b"), at("x")), ">", "1", ""}} {
		for _, all := range []bool{false, true} {
			f := Seg{K: SFilter, Cond: cd, All: all}
			near = append(near, sq(nm("r"), nm("a"), f), sq(nm("a"), f), sq(nm("r"), f), sq(nm("a"), f, nm("b")), sq(nm("r"), nm("a"), f, at("x")), sq(nm("a"), f, txt))
		}
	}
	nearQueries(c, near)
}

func runFilterSweeps(c *Ctx) {
	var ss []Sweep
	eq := func(o []Seg, op, v string, all bool) Seg {
		return Seg{K: SFilter, Cond: &Cond{o, op, v, "'"}, All: all}
	}
	dense := 60
	if c.thorough {
		dense = 200
	}
	// which of n siblings matches
	for _, n := range sizes(dense, 1100) {
		if n == 0 {
			continue
		}
		d := "<r>" + rep(n, func(i int) string { return fmt.Sprintf("<i x='%d'><k>%d</k><p><q>w%d</q></p></i>", i, i%7, i) }) + "</r>"
		var p [][]Seg
		for _, k := range []int{0, 1, n / 2, n - 1, n} {
			v := fmt.Sprint(k)
			for _, all := range []bool{false, true} {
				p = append(p, sq(nm("r"), nm("i"), eq(sq(at("x")), "==", v, all)), sq(nm("r"), nm("i"), eq(sq(at("x")), ">=", v, all), nm("k")), sq(nm("r"), nm("i"), eq(sq(at("x")), "<", v, all), at("x")), sq(nm("r"), nm("i"), eq(sq(nm("p"), nm("q")), "==", "w"+v, all)), sq(nm("r"), nm("i"), eq(sq(nm("k")), "!=", fmt.Sprint(k%7), all), nm("p"), nm("q")))
			}
		}
		ss = append(ss, Sweep{"position", d, p})
	}
	// depth of the operand path and of the filtered element
	for n := 1; n <= 60; n++ {
		var o []Seg
		for i := 0; i < n; i++ {
			o = append(o, nm("d"))
		}
		d := "<r><i>" + strings.Repeat("<d>", n) + "5" + strings.Repeat("</d>", n) + "</i><i><d>5</d></i></r>"
		p := [][]Seg{{nm("r"), nm("i"), eq(o, "==", "5", true)}, {nm("r"), nm("i"), eq(o, ">", "4", false)}, {nm("r"), nm("i"), Seg{K: SFilter, Cond: &Cond{Path: o}, All: true}}}
		ss = append(ss, Sweep{"operand", d, p})
		d = strings.Repeat("<d>", n) + "<i x='1'>u</i><i x='2'>v</i>" + strings.Repeat("</d>", n)
		ss = append(ss, Sweep{"place", d, [][]Seg{cat(o, sq(nm("i"), eq(sq(at("x")), "==", "2", false))), cat(o, sq(eq(sq(at("x")), "<=", "2", true), txt))}})
	}
	// chained filters
	for n := 1; n <= 40; n++ {
		d := "<r>" + strings.Repeat("<i x='1'><k>5</k>", n) + "end" + strings.Repeat("</i>", n) + "</r>"
		for _, all := range []bool{false, true} {
			s := sq(nm("r"))
			for i := 0; i < n; i++ {
				s = append(s, eq(sq(at("x")), "==", "1", all))
			}
			ss = append(ss, Sweep{"chain", d, [][]Seg{s, cat(s, sq(nm("k"))), cat(s, sq(at("x")))}})
			s = sq(nm("r"))
			for i := 0; i < n; i++ {
				s = append(s, nm("i"), eq(sq(nm("k")), "==", "5", all))
			}
			if len(s) <= 99 {
				ss = append(ss, Sweep{"chain", d, [][]Seg{s, cat(s, sq(nm("k")))}})
			}
		}
	}
	// lengths of compared values up to the expression limit of 256
	for n := 1; n <= 300; n++ {
		v := strings.Repeat("v", n)
		d := "<r><i x='" + v + "'><k>" + v + "</k></i><i x='" + v + "w'/></r>"
		var p [][]Seg
		for _, op := range []string{"==", "!=", "%", "!%"} {
			if len("@x"+op+"''")+n > 256 {
				continue
			}
			p = append(p, sq(nm("r"), nm("i"), eq(sq(at("x")), op, v, true)))
			if len("k"+op+"''")+n <= 256 {
				p = append(p, sq(nm("r"), nm("i"), eq(sq(nm("k")), op, v, true)))
			}
		}
		p = append(p, sq(nm("r"), nm("i"), eq(sq(at("x")), "==", v[1:], true)))
		if n > 250 {
			p = p[:0]
		}
		ss = append(ss, Sweep{"length", d, p})
	}
	// numbers of every magnitude
	for e := -330; e <= 330; e++ {
		for _, m := range []string{"1", "-9.99"} {
			v := fmt.Sprintf("%se%d", m, e)
			d := "<r><i x='" + v + "'/><i x='0'/><i x='1'/><i x='-1e10'/></r>"
			var p [][]Seg
			for _, op := range []string{"<", ">", "<=", ">="} {
				p = append(p, sq(nm("r"), nm("i"), eq(sq(at("x")), op, v, true)), sq(nm("r"), nm("i"), eq(sq(at("x")), op, "0", true)), sq(nm("r"), nm("i"), eq(sq(at("x")), op, "1", true)))
			}
			ss = append(ss, Sweep{"magnitude", d, p})
		}
	}
	// integers 0..1200 compared with their neighbours
	for v := 0; v <= 1200; v++ {
		d := fmt.Sprintf("<r><i><k>%d</k></i><i><k>%d</k></i><i><k>%d</k></i><i><k>-%d</k></i></r>", v-1, v, v+1, v)
		var p [][]Seg
		for _, op := range ops[:6] {
			p = append(p, sq(nm("r"), nm("i"), Seg{K: SFilter, Cond: &Cond{sq(nm("k")), op, fmt.Sprint(v), ""}, All: true}))
		}
		ss = append(ss, Sweep{"ints", d, p})
	}
	runSweepList(c, ss)
}

func runSweepList(c *Ctx, ss []Sweep) {
	Each(c, ss, func(w int, s Sweep) {
		nodes, err := ParseDoc(s.Doc)
		if err != nil {
			panic("sweep document invalid: " + s.Name + " " + err.msg)
		}
		c.State(s.Doc)
		for _, p := range pathCases(s.Paths) {
			c.Begin(w, "query", s.Doc, p.Text)
			queryOne(c, nodes, s.Doc, p)
		}
		c.End(w)
	})
}
