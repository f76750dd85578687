package main

import (
	"fmt"
	"strconv"
	"strings"

	x "verifharness/lib"
)

func init() {
	register(&Check{ID: "C22", Run: runC22, Subs: map[string]Sub{
		"size": sizeSub, "value": valueSub, "token": tokenSub, "depth": depthSub, "attrs": attrsSub, "segments": segmentsSub,
		"filter": filterLenSub, "field": fieldLenSub, "results": resultsSub, "chain": chainLenSub, "search": searchSub, "grow": growSub, "pair": pairSub,
	}, Notes: []string{
		"an operation of a recursive search is not defined by the documentation, so its limit is probed with a slack of 10 operations",
		"on documents beyond a limit queries only have to stay within it; validation and modifications have to reject them",
	}})
}

func num(s string) int { n, _ := strconv.Atoi(s); return n }

// sized gives a document of exactly n bytes with the filling of the given kind.
func sized(kind string, n int) string {
	pre, post, fill := "<r><k>1</k>", "</r>", "x"
	switch kind {
	case "comment":
		fill = "<!--" + strings.Repeat("x", 90000) + "-->"
	case "cdata":
		fill = "<![CDATA[" + strings.Repeat("<", 90000) + "]]>"
	case "pi":
		fill = "<?p " + strings.Repeat("x", 90000) + "?>"
	case "space":
		pre, post, fill = pre+"</r>", "", "\n"
	case "before":
		pre, post, fill = "", "<r><k>1</k></r>", " "
	case "element":
		pre, post = pre+"<t>", "</t></r>"
	case "elements":
		fill = "<e>x</e>"
	case "escaped":
		fill = "&amp;"
	}
	var b strings.Builder
	b.Grow(n)
	b.WriteString(pre)
	room := n - len(pre) - len(post)
	b.WriteString(strings.Repeat(fill, room/len(fill)))
	if rest := room % len(fill); rest > 0 {
		b.WriteString(strings.Repeat("y", rest))
	}
	b.WriteString(post)
	return b.String()
}

// sizeSub: kind of filling, size relative to the limit, group of calls.
func sizeSub(args []string) string {
	n := maxDoc + num(args[1])
	doc, small := sized(args[0], n), sized(args[0], 400)
	ok := n <= maxDoc
	if args[2] == "query" {
		for _, q := range []struct {
			name string
			r    x.Result
		}{
			{"Get r.k", x.Get(doc, "r.k")}, {"GetBytes r.k", x.GetBytes([]byte(doc), "r.k")}, {"GetMany r.k", x.GetMany(doc, "r.k")[0]},
			{"GetWithOptions R.K", x.GetWithOptions(doc, "R.K", foldOpts())}, {"GetBytesWithOptions R.K", x.GetBytesWithOptions([]byte(doc), "R.K", foldOpts())},
			{"GetWithOptions r.k", x.GetWithOptions(doc, "r.k", nil)}, {"Get *.k", x.Get(doc, "*.k")}, {"Get r.k.%", x.Get(doc, "r.k.%")}, {"Get r.k.0", x.Get(doc, "r.k.0")},
		} {
			if got := q.r.String(); got != map[bool]string{true: "1"}[ok] || q.r.Exists() != ok {
				return fmt.Sprintf("%s on a document of %d bytes gives %q", q.name, n, clip(got))
			}
		}
		return ""
	}
	if args[2] == "valid" {
		if x.Valid(doc) != ok || x.ValidBytes([]byte(doc)) != ok || (x.ValidateWithError(doc) == nil) != ok || (x.ValidateBytesWithError([]byte(doc)) == nil) != ok {
			return fmt.Sprintf("a document of %d bytes: Valid %v, ValidateWithError %v", n, x.Valid(doc), x.ValidateWithError(doc))
		}
		return ""
	}
	op := readOp(args[2])
	want, err := op.apply(small)
	if err != nil {
		return fmt.Sprintf("%q fails on a small document: %v", args[2], err)
	}
	size := n + len(want) - len(small)
	got, err := op.apply(doc)
	class := ""
	if size > maxDoc {
		class = "value"
	}
	if !ok {
		class = "xml"
	}
	if classOf(err) != class {
		return fmt.Sprintf("%q on a document of %d bytes, result of %d bytes: error %v, want class %q", args[2], n, size, err, class)
	}
	if err != nil && got != doc {
		return fmt.Sprintf("%q on a document of %d bytes fails and returns another document (%d bytes)", args[2], n, len(got))
	}
	if err == nil && len(got) != size {
		return fmt.Sprintf("%q on a document of %d bytes gives %d bytes, want %d", args[2], n, len(got), size)
	}
	if err == nil && !x.Valid(got) {
		return fmt.Sprintf("%q on a document of %d bytes gives an invalid document of %d bytes", args[2], n, len(got))
	}
	return ""
}

// valueSub: kind of call, length relative to the limit.
func valueSub(args []string) string {
	n := maxValue + num(args[1])
	text := strings.Repeat("v", n)
	if len(args) > 2 { // characters of several bytes
		text = strings.Repeat(args[2], n/len(args[2])) + text[:n%len(args[2])]
	}
	doc, path, want := "<r><k/><k>2</k></r>", "r.k", text
	ok := n <= maxValue
	var got string
	var err error
	switch args[0] {
	case "string":
		got, err = x.Set(doc, path, text)
	case "bytes":
		got, err = x.Set(doc, path, []byte(text))
	case "setbytes":
		var b []byte
		b, err = x.SetBytes([]byte(doc), path, text)
		got = string(b)
	case "options":
		got, err = x.SetWithOptions(doc, "R.K", text, foldOpts())
	case "indent":
		got, err = x.SetWithOptions(doc, path, text, &x.Options{CaseSensitive: true, Indent: " "})
	case "many":
		got, err = x.SetMany(doc, []string{"r.x", path}, []any{1, text})
		if err == nil {
			got = strings.Replace(got, "<x>1</x>", "", 1)
		}
	case "raw":
		got, err = x.SetRaw(doc, path, text)
	case "rawelem":
		got, err = x.SetRaw(doc, path, "<e>"+text[7:]+"</e>")
		want = text[7:]
	case "manybytes":
		var b []byte
		b, err = x.SetManyBytes([]byte(doc), []string{path}, []any{text})
		got = string(b)
	case "append":
		got, err = x.Set(doc, "r.k.-1", text)
		path = "r.k.2"
	case "new":
		got, err = x.Set(doc, "r.n.m", text)
		path = "r.n.m"
	case "root":
		got, err = x.Set("", "r.k", text)
		doc = ""
	case "index":
		got, err = x.Set(doc, "r.k.1", text)
		path = "r.k.1"
	}
	if ok && err != nil || !ok && classOf(err) != "value" {
		return fmt.Sprintf("%s with a value of %d bytes: error %v", args[0], n, err)
	}
	if !ok && got != doc {
		return fmt.Sprintf("%s with a value of %d bytes fails and returns another document", args[0], n)
	}
	if ok {
		if back := x.Get(got, path).String(); back != want {
			return fmt.Sprintf("%s with a value of %d bytes: read back %d bytes", args[0], n, len(back))
		}
		if !x.Valid(got) {
			return fmt.Sprintf("%s with a value of %d bytes gives an invalid document", args[0], n)
		}
	}
	return ""
}

// tokenSub: what is long, length relative to the limit.
func tokenSub(args []string) string {
	n := maxToken + num(args[1])
	t := strings.Repeat("n", n)
	ok := n <= maxToken
	doc, path, want, edit := "", "", "v", "set"
	switch args[0] {
	case "name":
		doc, path = "<r><z/><"+t+">v</"+t+"></r>", "r."+t
	case "empty":
		doc, path, want = "<r><z/><"+t+"/></r>", "r."+t, ""
	case "root":
		doc, path = "<"+t+"><z/>v</"+t+">", t
	case "attrname":
		doc, path = "<r><z/><e "+t+"='v'/></r>", "r.e.@"+t
	case "attrvalue":
		doc, path, want = "<r><z/><e a='1' b='"+t+"' c='3'/></r>", "r.e.@b", t
	case "rootattr":
		doc, path, want = `<r b="`+t+`"><z/></r>`, "r.@b", t
	case "newname":
		doc, path, edit = "<r><z/></r>", "r."+t, "create"
	case "newattr":
		doc, path, edit = "<r><z/><e/></r>", "r.e.@"+t, "create"
	case "newvalue":
		doc, path, want, edit = "<r><z/><e/></r>", "r.e.@b", t, "create"
	case "changed":
		doc, path, want, edit = "<r><z/><e b='1'/></r>", "r.e.@b", t, "create"
	}
	if edit == "create" {
		got, err := x.Set(doc, path, want)
		if ok != (err == nil) {
			return fmt.Sprintf("Set of a %s of %d bytes: error %v", args[0], n, err)
		}
		if !ok {
			if got != doc {
				return fmt.Sprintf("Set of a %s of %d bytes fails and returns another document", args[0], n)
			}
			return ""
		}
		if back := x.Get(got, path).String(); back != want || !x.Valid(got) {
			return fmt.Sprintf("Set of a %s of %d bytes: read back %d bytes, Valid %v", args[0], n, len(back), x.Valid(got))
		}
		return ""
	}
	if x.Valid(doc) != ok || (x.ValidateBytesWithError([]byte(doc)) == nil) != ok {
		return fmt.Sprintf("%s of %d bytes: Valid %v, ValidateBytesWithError %v", args[0], n, x.Valid(doc), x.ValidateBytesWithError([]byte(doc)))
	}
	for _, r := range []x.Result{x.Get(doc, path), x.GetWithOptions(doc, path, foldOpts()), x.GetBytes([]byte(doc), path)} {
		if ok && (r.String() != want || !r.Exists()) {
			return fmt.Sprintf("%s of %d bytes: queries give %d bytes, exists %v", args[0], n, len(r.String()), r.Exists())
		}
		if !ok && r.Type == x.Attribute && len(r.String()) > maxToken {
			return fmt.Sprintf("%s of %d bytes: a query gives %d bytes", args[0], n, len(r.String()))
		}
	}
	class := map[bool]string{false: "xml"}[ok]
	firstSeg := strings.SplitN(path, ".", 2)[0]
	for _, o := range []Op{{"set", firstSeg + ".z", "s:5"}, {"set", firstSeg + ".q", "r:<e/>"}, {"delete", firstSeg + ".z", ""}} {
		got, err := o.apply(doc)
		if classOf(err) != class {
			return fmt.Sprintf("%s of %d bytes: %s gives error %v", args[0], n, o.Kind, err)
		}
		if err != nil && got != doc || err == nil && !x.Valid(got) {
			return fmt.Sprintf("%s of %d bytes: %s returns a wrong document", args[0], n, o.Kind)
		}
		if err == nil && x.Get(got, path).String() != want && args[0] != "root" {
			return fmt.Sprintf("%s of %d bytes: lost after %s", args[0], n, o.Kind)
		}
	}
	return ""
}

func ladder(d int, leaf string) string {
	return strings.Repeat("<d>", d) + leaf + strings.Repeat("</d>", d)
}

// depthSub: depth of the document, variant.
func depthSub(args []string) string {
	d := num(args[0])
	before, after := "", ""
	switch args[1] {
	case "siblings":
		before, after = "<s/>", "<s>t</s>"
	case "self":
		before = "<!-- c -->"
	}
	doc := before + ladder(d-1, "<l x='1'>v</l>") + after
	ok := d <= maxDepth
	if x.Valid(doc) != ok || x.ValidBytes([]byte(doc)) != ok {
		return fmt.Sprintf("depth %d: Valid %v", d, x.Valid(doc))
	}
	down := func(n int) string { return strings.Repeat("d.", n) }
	if d <= maxDepth {
		for _, r := range []x.Result{x.Get(doc, down(d-1)+"l"), x.Get(doc, "**.l"), x.GetWithOptions(doc, "**.L", foldOpts()), x.Get(doc, strings.Repeat("*.", d-1)+"l"), x.GetWithOptions(doc, down(d-1)+"L", foldOpts()), x.GetBytes([]byte(doc), down(d-1)+"l"), x.Get(doc, "**.#(@x=='1')")} {
			if r.String() != "v" || !r.Exists() {
				return fmt.Sprintf("depth %d: a query finds %s", d, clip(full(r)))
			}
		}
		if d > 1 {
			for k := 1; k < d; k++ {
				if r := x.Get(doc, down(k-1)+"d").Get(down(d-1-k) + "l"); r.String() != "v" {
					return fmt.Sprintf("depth %d: Result.Get after %d levels finds %s", d, k, clip(full(r)))
				}
			}
		}
	}
	if d > maxDepth+1 {
		if r := x.Get(doc, "**.l"); r.Exists() {
			return fmt.Sprintf("depth %d: ** finds %s", d, clip(full(r)))
		}
		if r := x.GetWithOptions(doc, "**.l", foldOpts()); r.Exists() {
			return fmt.Sprintf("depth %d: ** with options finds %s", d, clip(full(r)))
		}
	}
	// changes near the leaf and near the root
	for _, o := range []Op{{"set", down(min(d-1, 50)) + "q", "s:1"}, {"delete", down(min(d-1, 50)) + map[bool]string{true: "l", false: "d"}[d <= 51], ""}, {"set", "d.@y", "s:1"}, {"set", "zz", "r:<z/>"}} {
		if d == 1 && strings.HasPrefix(o.Path, "d.") {
			continue
		}
		got, err := o.apply(doc)
		if classOf(err) != map[bool]string{false: "xml"}[ok] {
			return fmt.Sprintf("depth %d: %s %s gives error %v", d, o.Kind, o.Path, err)
		}
		if err != nil && got != doc {
			return fmt.Sprintf("depth %d: failing %s changes the document", d, o.Kind)
		}
		if err == nil && !x.Valid(got) && strings.TrimSpace(got) != "" && !(o.Kind == "delete" && d <= 51 && d == 1) {
			return fmt.Sprintf("depth %d: %s %s gives an invalid document", d, o.Kind, o.Path)
		}
	}
	if !ok {
		return ""
	}
	// m more levels, by path and by raw value
	for m := 0; m <= 12; m++ {
		total := d - 1 + m + 1
		if total > maxSegments {
			break
		}
		got, err := x.Set(doc, down(d-1)+strings.Repeat("n.", m)+"n", "w")
		if err != nil || !x.Valid(got) || x.Get(got, down(d-1)+strings.Repeat("n.", m)+"n").String() != "w" {
			return fmt.Sprintf("depth %d: creating %d more levels gives error %v, Valid %v", d, m, err, x.Valid(got))
		}
	}
	for m := 0; m <= 12; m++ {
		raw := ladder(m, "t")
		for _, p := range []string{down(d-1) + "l", down(d-1) + "n"} {
			got, err := x.SetRaw(doc, p, raw)
			fits := d+m <= maxDepth
			if fits != (err == nil) || err == nil && !x.Valid(got) || err != nil && (got != doc || classOf(err) == "") {
				return fmt.Sprintf("depth %d: raw value of %d levels at %s gives error %v, Valid %v", d, m, p[len(p)-1:], err, x.Valid(got))
			}
		}
	}
	return ""
}

func attrDoc(n int, at string) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		fmt.Fprintf(&b, ` a%d="v%d"`, i, i)
	}
	switch at {
	case "root":
		return "<e" + b.String() + "><z/></e>"
	case "self":
		return "<r><e" + b.String() + "/><z/></r>"
	}
	return "<r><z/><e" + b.String() + ">t<c/></e></r>"
}

// attrsSub: number of attributes, place.
func attrsSub(args []string) string {
	n := num(args[0])
	doc := attrDoc(n, args[1])
	el := "r.e"
	if args[1] == "root" {
		el = "e"
	}
	ok := n <= maxAttrs
	if x.Valid(doc) != ok || x.ValidBytes([]byte(doc)) != ok {
		return fmt.Sprintf("%d attributes: Valid %v", n, x.Valid(doc))
	}
	for k := 0; k <= n; k++ {
		exists := k < n && k < maxAttrs
		v := ""
		if exists {
			v = fmt.Sprint("v", k)
		}
		a := fmt.Sprint("a", k)
		for i, r := range []x.Result{x.Get(doc, el+".@"+a), x.GetWithOptions(doc, el+".@A"+a[1:], foldOpts()), x.Get(doc, el).Get("@zz"), x.Get(doc, "**.e.@"+a), x.Get(doc, el+".#(@"+a+")#.@"+a), x.GetWithOptions(doc, el+".#(@A"+a[1:]+")#.@"+a, foldOpts())} {
			if i == 2 {
				continue
			}
			if r.Exists() != exists || r.String() != v && !(r.Type == x.Array && len(r.Results) == 1 && r.Results[0].Str == v) {
				return fmt.Sprintf("%d attributes, query %d for the one with index %d gives %s", n, i, k, clip(full(r)))
			}
		}
		if f := x.Get(doc, el+".#.@"+a); len(f.Results) != map[bool]int{true: 1}[exists] {
			return fmt.Sprintf("%d attributes, #.@%s gives %s", n, a, clip(full(f)))
		}
	}
	judge := func(what, got string, err error, class string) string {
		if classOf(err) != class {
			return fmt.Sprintf("%d attributes: %s gives error %v, want class %q", n, what, err, class)
		}
		if err != nil && got != doc || err == nil && !x.Valid(got) {
			return fmt.Sprintf("%d attributes: %s returns a wrong document", n, what)
		}
		return ""
	}
	xml := map[bool]string{false: "xml"}[ok]
	add := xml
	if n == maxAttrs {
		add = "value"
	}
	got, err := x.Set(doc, el+".@new", "1")
	if d := judge("a new attribute", got, err, add); d != "" {
		return d
	}
	got, err = x.SetWithOptions(doc, el+".@new", "1", foldOpts())
	if d := judge("a new attribute with options", got, err, add); d != "" {
		return d
	}
	got, err = x.SetMany(doc, []string{el + ".@new"}, []any{1})
	if d := judge("SetMany of a new attribute", got, err, add); d != "" {
		return d
	}
	got, err = x.SetMany(doc, []string{el + ".@new", el + ".@new2"}, []any{1, 2})
	two := xml
	if ok && n+2 > maxAttrs {
		two = "value"
	}
	if d := judge("SetMany of two new attributes", got, err, two); d != "" {
		return d
	}
	if n > 0 {
		for _, k := range []int{0, min(n, maxAttrs) - 1} {
			p := fmt.Sprint(el, ".@a", k)
			got, err = x.Set(doc, p, "other")
			if d := judge("changing an attribute", got, err, xml); d != "" {
				return d
			}
			if err == nil && x.Get(got, p).String() != "other" {
				return fmt.Sprintf("%d attributes: changed attribute %d reads back as %s", n, k, full(x.Get(got, p)))
			}
			got, err = x.Delete(doc, p)
			if d := judge("deleting an attribute", got, err, xml); d != "" {
				return d
			}
			if err == nil && x.Get(got, p).Exists() {
				return fmt.Sprintf("%d attributes: deleted attribute %d is still there", n, k)
			}
		}
	}
	var raw strings.Builder
	for i := 0; i < n; i++ {
		fmt.Fprintf(&raw, " b%d='w'", i)
	}
	got, err = x.SetRaw("<r/>", "r.q", "<f"+raw.String()+"/>")
	if ok != (err == nil) || err == nil && !x.Valid(got) || err != nil && (got != "<r/>" || classOf(err) != "value") {
		return fmt.Sprintf("raw value with %d attributes: error %v", n, err)
	}
	return ""
}

// segmentsSub: number of segments, kind of path.
func segmentsSub(args []string) string {
	n := num(args[0])
	unit, last, levels, want := "d.", "d", n, "v"
	switch args[1] {
	case "star":
		unit, last = "*.", "*"
	case "attr":
		last, levels, want = "@x", n-1, "1"
	case "text":
		last, levels = "%", n-1
	case "count":
		last, levels, want = "#", n-1, "1"
	case "index":
		unit, levels = "d.0.", 0
	case "filter":
		unit, levels = "d.#(@x).", 0
	}
	path := strings.Repeat(unit, n-1) + last
	if levels == 0 { // two segments per level
		path = strings.TrimSuffix(strings.Repeat(unit, n/2), ".")
		levels = n / 2
		if n%2 == 1 {
			path = strings.TrimPrefix(path+".d", ".")
			levels++
		}
	}
	depth := min(levels, maxDepth)
	doc := strings.Repeat("<d x='1'>", depth) + "v" + strings.Repeat("</d>", depth)
	ok := n <= maxSegments
	for i, r := range []x.Result{x.Get(doc, path), x.GetBytes([]byte(doc), path), x.GetMany(doc, path)[0], x.GetWithOptions(doc, path, foldOpts()), x.GetWithOptions(doc, path, &x.Options{CaseSensitive: true, Indent: " "}), x.Get("<w>"+doc+"</w>", "w").Get(path)} {
		if i == 5 && (depth >= maxDepth || n == maxSegments) {
			continue
		}
		if ok && r.String() != want && depth == levels || !ok && r.Exists() {
			return fmt.Sprintf("path %q of %d segments (variant %d) gives %s", clip(path), n, i, clip(full(r)))
		}
	}
	if args[1] == "star" || args[1] == "filter" || args[1] == "count" || args[1] == "text" {
		return ""
	}
	class := map[bool]string{false: "path"}[ok]
	if depth < levels {
		return "" // nothing there: creation is limited by the depth as well
	}
	got, err := x.Set(doc, path, "new")
	if classOf(err) != class || err != nil && got != doc || err == nil && x.Get(got, path).String() != "new" {
		return fmt.Sprintf("Set with a path of %d segments: error %v", n, err)
	}
	got, err = x.SetWithOptions(doc, path, "new", foldOpts())
	if classOf(err) != class || err != nil && got != doc {
		return fmt.Sprintf("SetWithOptions with a path of %d segments: error %v", n, err)
	}
	got, err = x.Delete(doc, path)
	if classOf(err) != class || err != nil && got != doc || err == nil && x.Get(got, path).Exists() {
		return fmt.Sprintf("Delete with a path of %d segments: error %v", n, err)
	}
	got, err = x.DeleteMany(doc, "zz", path)
	if classOf(err) != class || err != nil && got != doc {
		return fmt.Sprintf("DeleteMany with a path of %d segments: error %v", n, err)
	}
	return ""
}

// filterLenSub: length of the expression, kind.
func filterLenSub(args []string) string {
	n := num(args[0])
	expr, val, name := "", "", "k"
	switch args[1] {
	case "value":
		val = strings.Repeat("v", n-len("k==''"))
		expr = "k=='" + val + "'"
	case "attr":
		val = strings.Repeat("v", n-len("@k=="))
		expr = "@k==" + val
	case "name":
		name = strings.Repeat("k", n-len("=='1'"))
		val = "1"
		expr = name + "=='1'"
	case "exists":
		name = strings.Repeat("k", n)
		val = "1"
		expr = name
	case "space":
		val = "1"
		expr = "k" + strings.Repeat(" ", n-4) + "==1"
	case "glob":
		val = strings.Repeat("v", n-len("k%''"))
		expr = "k%'" + val + "'"
	}
	if len(expr) != n {
		return fmt.Sprintf("expression of %d bytes instead of %d", len(expr), n)
	}
	doc := "<r><i><" + name + ">no</" + name + "></i><i k='" + val + "'><" + name + ">" + val + "</" + name + "><x>hit</x></i></r>"
	if args[1] == "exists" {
		doc = "<r><i/><i><" + name + ">1</" + name + "><x>hit</x></i></r>"
	}
	ok := n <= 256
	for i, p := range []string{"r.i.#(" + expr + ").x", "r.i.#(" + expr + ")#.x", "r.*.#(" + expr + ")", "**.i.#(x)#", "**.#(" + expr + ").x"} {
		if i == 2 || i == 3 {
			continue
		}
		for j, r := range []x.Result{x.Get(doc, p), x.GetWithOptions(doc, p, foldOpts()), x.Get(doc, "r").Get(strings.TrimPrefix(p, "r."))} {
			if r.Exists() != ok || ok && r.String() != "hit" && !(len(r.Results) == 1 && r.Results[0].Str == "hit") {
				return fmt.Sprintf("filter expression of %d bytes (%s, path %d, variant %d) gives %s", n, args[1], i, j, clip(full(r)))
			}
		}
	}
	return ""
}

// fieldLenSub: length of the field name.
func fieldLenSub(args []string) string {
	n := num(args[0])
	name := strings.Repeat("f", n)
	doc := "<r><i><" + name + ">1</" + name + "></i><i " + name + "='3'><" + name + ">2</" + name + "></i></r>"
	for i, r := range []x.Result{x.Get(doc, "r.i.#."+name), x.GetWithOptions(doc, "r.i.#."+strings.ToUpper(name), foldOpts()), x.Get(doc, "r").Get("i.#." + name)} {
		if n <= 256 != (len(r.Results) == 2) {
			return fmt.Sprintf("field name of %d bytes (variant %d) gives %s", n, i, clip(full(r)))
		}
	}
	if r := x.Get(doc, "r.i."+"#.@"+name); n < 256 != (len(r.Results) == 1) && n != 256 {
		return fmt.Sprintf("attribute field name of %d bytes gives %s", n, clip(full(r)))
	}
	return ""
}

// resultsSub: number of matches, form of the document.
func resultsSub(args []string) string {
	n := num(args[0])
	doc := ""
	switch args[1] {
	case "flat":
		doc = "<r>" + rep(n, func(i int) string { return fmt.Sprintf("<i x='%d'>%d</i>", i, i) }) + "</r>"
	case "roots":
		doc = rep(n, func(i int) string { return fmt.Sprintf("<i x='%d'>%d</i>", i, i) })
	case "groups":
		doc = "<r>" + rep(n/10, func(i int) string { return "<g>" + strings.Repeat("<i x='1'>q</i>", 10) + "</g>" }) + rep(n%10, func(i int) string { return "<i x='2'>w</i>" }) + "</r>"
	case "names":
		doc = "<r>" + rep(n, func(i int) string { return fmt.Sprintf("<i%d/>", i) }) + "</r>"
	case "mixed":
		doc = "<r>" + rep(n, func(i int) string { return []string{"<i/>", "<I x='1'>t</I>", "<j>u</j>"}[i%3] }) + "</r>"
	case "fields":
		doc = "<r>" + rep((n+1)/2, func(i int) string { return "<i><f y='1'>1</f><f>2</f></i>" }) + "</r>"
	}
	nodes, perr := ParseDoc(doc)
	if perr != nil {
		return fmt.Sprint("generator: ", *perr)
	}
	f := Seg{K: SFilter, Cond: &Cond{Path: sq(at("x"))}, All: true}
	for _, segs := range [][]Seg{{nm("r"), star}, {star}, {deep, nm("i")}, {deep, star}, {nm("r"), nm("i"), cnt}, {nm("i"), cnt}, {nm("r"), nm("i"), fld("%")}, {nm("r"), nm("i"), fld("@x")}, {nm("i"), fld("@x")}, {nm("r"), nm("i"), fld("f")}, {nm("r"), nm("i"), f}, {nm("r"), star, at("x")}, {nm("r"), star, star}, {nm("i"), f}, {nm("r"), nm("g"), star}, {nm("r"), star, nm("i")}, {deep, nm("f")}, {deep, nm("i"), at("x")}, {nm("r"), nm("i"), ix(999)}, {nm("r"), nm("i"), ix(1000)}, {nm("i"), ix(999)}, {nm("i"), ix(1000)}, {deep, f}, {nm("r"), deep, nm("i"), fld("f")}} {
		p := render(segs)
		if d := diffResult(x.Get(doc, p), Env{}.query(nodes, segs)); d != "" {
			return fmt.Sprintf("%d matches (%s), path %q: %s", n, args[1], p, d)
		}
		if d := diffResult(x.GetWithOptions(doc, p, foldOpts()), Env{Fold: true}.query(nodes, segs)); d != "" {
			return fmt.Sprintf("%d matches (%s), path %q with options: %s", n, args[1], p, d)
		}
		if r := x.Get(doc, p); len(r.Results) > maxResults || r.Type == x.Number && r.Num > maxResults {
			return fmt.Sprintf("%d matches (%s), path %q: %d results", n, args[1], p, len(r.Results))
		}
	}
	root := x.Get(doc, "r")
	for _, m := range []map[string]x.Result{root.Map(), root.MapWithOptions(nil), root.MapWithOptions(foldOpts()), root.MapWithOptions(&x.Options{CaseSensitive: true, Indent: " "})} {
		if args[1] == "roots" {
			break
		}
		total := 0
		for _, v := range m {
			if v.Type == x.Array {
				total += len(v.Results)
			} else {
				total++
			}
		}
		kids := len(elems(elems(nodes)[0].Kids))
		if total != min(kids, maxResults) {
			return fmt.Sprintf("%d matches (%s): Map holds %d of %d children", n, args[1], total, kids)
		}
	}
	return ""
}

// chainLenSub: number of modifiers, kind.
func chainLenSub(args []string) string {
	n := num(args[0])
	doc := "<r><i>1</i><i>2</i></r>"
	unit := map[string]string{"ugly": "|@ugly", "reverse": "|@reverse"}[args[1]]
	want := map[bool]string{true: "1", false: "2"}[args[1] == "ugly" || n%2 == 0]
	p := "r.*" + strings.Repeat(unit, n-1) + "|@first"
	if args[1] == "reverse" && n > 0 {
		want = map[bool]string{true: "1", false: "2"}[(n-1)%2 == 0]
	}
	if args[1] == "ugly" {
		p, want = "r.i"+strings.Repeat(unit, n), "1"
	}
	ok := n <= 20
	for i, r := range []x.Result{x.Get(doc, p), x.GetWithOptions(doc, p, foldOpts()), x.Get(doc, "r").Get(strings.TrimPrefix(p, "r."))} {
		if r.Exists() != ok || ok && r.String() != want {
			return fmt.Sprintf("%d modifiers (%s, variant %d) give %s, want %q", n, args[1], i, clip(full(r)), want)
		}
	}
	return ""
}

// searchSub: number of elements a recursive search goes through, form.
func searchSub(args []string) string {
	n := num(args[0])
	var doc string
	switch args[1] {
	case "flat":
		doc = "<r>" + strings.Repeat("<e>t</e>", n) + "<l>v</l></r>"
	case "deep":
		doc = "<r>" + strings.Repeat(ladder(50, "t"), n/50) + strings.Repeat("<e>t</e>", n%50) + "<l>v</l></r>"
	case "last":
		doc = "<r>" + strings.Repeat("<e>t</e>", n) + "<m><l>v</l></m></r>"
	}
	for i, r := range []x.Result{x.Get(doc, "**.l"), x.Get(doc, "r.**.l"), x.GetWithOptions(doc, "**.L", foldOpts()), x.Get(doc, "r").Get("**.l")} {
		if n <= 9990 && r.String() != "v" || n > 10010 && r.Exists() {
			return fmt.Sprintf("a recursive search through %d elements (%s, variant %d) gives %s", n, args[1], i, clip(full(r)))
		}
	}
	return ""
}

// growSub: kind; repeats a call until the limit refuses it.
func growSub(args []string) string {
	doc, refused := "<r/>", 0
	step := func(i int) (string, error) { return doc, nil }
	count, limit := 0, 0
	switch args[0] {
	case "attrs":
		count, limit = maxAttrs+5, maxAttrs
		step = func(i int) (string, error) { return x.Set(doc, fmt.Sprint("r.@a", i), i) }
	case "attrsreverse":
		count, limit = maxAttrs+5, maxAttrs
		step = func(i int) (string, error) { return x.SetWithOptions(doc, fmt.Sprint("R.@a", 999-i), i, foldOpts()) }
	case "depth":
		count, limit = maxDepth+5, maxDepth-1
		step = func(i int) (string, error) {
			return x.SetRaw(doc, "r"+strings.Repeat(".d", min(i, maxSegments-1)), "<d/>")
		}
	case "double": // wraps its own content
		count, limit = maxDepth+5, maxDepth-1
		step = func(i int) (string, error) { return x.SetRaw(doc, "r", "<d>"+x.Get(doc, "r").Raw+"</d>") }
	case "size":
		v := strings.Repeat("v", maxValue/2)
		count, limit = 8, 3
		step = func(i int) (string, error) { return x.Set(doc, "r.k.-1", v) }
	case "value":
		count, limit = 9, 5
		step = func(i int) (string, error) {
			return x.Set(doc, "r.k", x.Get(doc, "r.k").String()+strings.Repeat("v", maxValue/5))
		}
	case "attrvalue":
		count, limit = 9, 4
		step = func(i int) (string, error) {
			return x.Set(doc, "r.@k", x.Get(doc, "r.@k").String()+strings.Repeat("v", maxToken/4))
		}
	}
	for i := 0; i < count; i++ {
		got, err := step(i)
		if (err == nil) != (i < limit) {
			return fmt.Sprintf("%s: step %d gives error %v", args[0], i+1, err)
		}
		if err != nil {
			refused++
			if got != doc {
				return fmt.Sprintf("%s: refused step %d changes the document", args[0], i+1)
			}
		}
		if !x.Valid(got) {
			return fmt.Sprintf("%s: step %d gives an invalid document", args[0], i+1)
		}
		doc = got
	}
	if refused == 0 {
		return args[0] + ": nothing was refused"
	}
	return ""
}

// pairSub: depth, attributes, length of an attribute value, size: all relative to their limits.
func pairSub(args []string) string {
	d, a, v := maxDepth+num(args[0]), maxAttrs+num(args[1]), maxToken+num(args[2])
	var b strings.Builder
	b.WriteString(strings.Repeat("<d>", d-1) + "<l")
	for i := 0; i < a-1; i++ {
		fmt.Fprintf(&b, " a%d='%d'", i, i)
	}
	b.WriteString(" v='" + strings.Repeat("v", v) + "'>t</l>" + strings.Repeat("</d>", d-1))
	doc := b.String()
	ok := d <= maxDepth && a <= maxAttrs && v <= maxToken
	if x.Valid(doc) != ok {
		return fmt.Sprintf("depth %d, %d attributes, value of %d bytes: Valid %v", d, a, v, x.Valid(doc))
	}
	if d <= maxDepth {
		p := strings.Repeat("d.", d-1) + "l"
		if d == maxDepth { // one more segment for the attribute is too many
			p = "**.l"
		}
		r := x.Get(doc, p+".@v")
		if ok && (len(r.Str) != v || x.Get(doc, p+".@a0").Str != "0" || x.Get(doc, p).String() != "t") || len(r.Str) > maxToken {
			return fmt.Sprintf("depth %d, %d attributes, value of %d bytes: the value has %d bytes in a query", d, a, v, len(r.Str))
		}
	}
	for _, o := range []Op{{"set", "d.k", "s:1"}, {"delete", "d.zz", ""}} {
		got, err := o.apply(doc)
		if classOf(err) != map[bool]string{false: "xml"}[ok] || err != nil && got != doc || err == nil && !x.Valid(got) {
			return fmt.Sprintf("depth %d, %d attributes, value of %d bytes: %s gives error %v", d, a, v, o.Kind, err)
		}
	}
	return ""
}

func runC22(c *Ctx) {
	var jobs [][]string
	add := func(args ...string) { jobs = append(jobs, args) }
	deltas := []int{-2, -1, 0, 1, 2}
	if c.thorough {
		deltas = nil
		for i := -40; i <= 12; i++ {
			deltas = append(deltas, i)
		}
	}
	kinds := []string{"text", "comment", "cdata", "pi", "space", "before", "element", "elements", "escaped"}
	ops := []Op{{"set", "r.k", "s:2"}, {"set", "r.k", "s:12"}, {"set", "r.k", "s:"}, {"set", "r.k.-1", "s:9"}, {"set", "r.n", "s:9"}, {"set", "r.k.@a", "s:9"}, {"set", "r.k", "r:<q/>"}, {"set", "r.k", "s:<"}, {"delete", "r.k", ""}, {"delete", "r.zz", ""}}
	sizeDeltas := deltas
	if !c.thorough {
		sizeDeltas = []int{-17, -12, -7, -5, -4, -3, -2, -1, 0, 1, 2}
	}
	for _, k := range kinds {
		for _, n := range sizeDeltas {
			if !c.thorough && k != "text" && k != "elements" && k != "before" && (n < -1 || n > 1) {
				continue
			}
			add("size", k, fmt.Sprint(n), "query")
			add("size", k, fmt.Sprint(n), "valid")
			for _, o := range ops {
				add("size", k, fmt.Sprint(n), o.String())
			}
		}
	}
	for _, k := range []string{"string", "bytes", "setbytes", "options", "indent", "many", "raw", "rawelem", "manybytes", "append", "new", "root", "index"} {
		for _, n := range deltas {
			add("value", k, fmt.Sprint(n))
			if n >= -1 && n <= 1 && k != "rawelem" {
				add("value", k, fmt.Sprint(n), "é")
			}
		}
	}
	for _, k := range []string{"name", "empty", "root", "attrname", "attrvalue", "rootattr", "newname", "newattr", "newvalue", "changed"} {
		for _, n := range deltas {
			add("token", k, fmt.Sprint(n))
		}
	}
	for d := 1; d <= 130; d++ {
		for _, v := range []string{"plain", "siblings", "self"} {
			add("depth", fmt.Sprint(d), v)
		}
	}
	for n := 0; n <= 120; n++ {
		for _, p := range []string{"inner", "self", "root"} {
			add("attrs", fmt.Sprint(n), p)
		}
	}
	for n := 1; n <= 130; n++ {
		for _, k := range []string{"name", "star", "attr", "text", "count", "index", "filter"} {
			if n == 1 && k != "name" && k != "star" {
				continue
			}
			add("segments", fmt.Sprint(n), k)
		}
	}
	for n := 10; n <= 270; n++ {
		for _, k := range []string{"value", "attr", "name", "exists", "space", "glob"} {
			add("filter", fmt.Sprint(n), k)
		}
		add("field", fmt.Sprint(n))
	}
	res := []int{1, 2, 500, 997, 998, 999, 1000, 1001, 1002, 1003, 1999, 2000, 2001}
	if c.thorough {
		for n := 3; n < 997; n += 7 {
			res = append(res, n)
		}
		for n := 1004; n < 3000; n += 31 {
			res = append(res, n)
		}
	}
	for _, n := range res {
		for _, k := range []string{"flat", "roots", "groups", "fields", "names", "mixed"} {
			add("results", fmt.Sprint(n), k)
		}
	}
	for n := 1; n <= 45; n++ {
		for _, k := range []string{"ugly", "reverse"} {
			add("chain", fmt.Sprint(n), k)
		}
	}
	srch := []int{1, 100, 1000, 5000, 9900, 9989, 9990, 10011, 10012, 12000, 20000}
	for _, n := range srch {
		for _, k := range []string{"flat", "deep", "last"} {
			add("search", fmt.Sprint(n), k)
		}
	}
	for _, k := range []string{"attrs", "attrsreverse", "depth", "double", "size", "value", "attrvalue"} {
		add("grow", k)
	}
	for _, d := range []int{-1, 0, 1} {
		for _, a := range []int{-1, 0, 1} {
			for _, v := range []int{-1, 0, 1} {
				add("pair", fmt.Sprint(d), fmt.Sprint(a), fmt.Sprint(v))
			}
		}
	}
	Each(c, jobs, func(w int, j []string) {
		doc := j
		if j[0] == "size" {
			doc = j[:3] // one document for several calls
		}
		c.State(doc...)
		c.Begin(w, j[0], j[1:]...)
		c.Do(j[0], j[1:]...)
		c.End(w)
	})
	c.Sample("size: filling %q, %d bytes from the limit, %q", kinds[0], -1, ops[1].String())
	c.Sample("depth %d with siblings; %d attributes on the root", 100, 101)
}
