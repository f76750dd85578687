// Reference semantics of Set, append and Delete: which node is the target, what
// the document tree looks like afterwards and which bytes may change.
package main

import (
	"errors"
	"fmt"
	"strconv"
	"strings"

	x "verifharness/lib"
)

// Edit is the expected outcome of a modification.
type Edit struct {
	Class string  // "" success, else "path", "value" or "xml"
	Want  []*Node // tree afterwards
	P, Q  int     // only bytes in [P,Q) of the input may be replaced
	Bytes bool    // the result is exactly input[:P]+input[Q:] (deletion) or the input (no-op, P==Q)
}

// find returns the element that the segments address, as queries resolve it.
// With wantAttr set the element must have the attribute.
func (e Env) find(kids []*Node, segs []Seg, wantAttr string) *Node {
	if len(segs) == 0 || segs[0].K != SName {
		return nil
	}
	has := func(n *Node) *Node {
		if wantAttr != "" {
			if _, ok := e.attr(n, wantAttr); !ok {
				return nil
			}
		}
		return n
	}
	var m []*Node
	for _, k := range kids {
		if k.Kind == KElem && e.match(segs[0].Name, k.Name) {
			m = append(m, k)
		}
	}
	if len(segs) > 1 && segs[1].K == SIndex {
		i := segs[1].N
		if i < 0 || i >= len(m) {
			return nil
		}
		if len(segs) == 2 {
			return has(m[i])
		}
		return e.find(m[i].Kids, segs[2:], wantAttr)
	}
	if len(segs) == 1 {
		if len(m) == 0 {
			return nil
		}
		return has(m[0])
	}
	for _, n := range m {
		if r := e.find(n.Kids, segs[1:], wantAttr); r != nil {
			return r
		}
	}
	return nil
}

// parentOf returns the parent of n.
func (e Env) parentOf(kids []*Node, n *Node) *Node {
	if n == nil {
		return nil
	}
	for _, k := range kids {
		for _, g := range k.Kids {
			if g == n {
				return k
			}
		}
		if p := e.parentOf(k.Kids, n); p != nil {
			return p
		}
	}
	return nil
}

// content is what a value puts into an element.
func textContent(v string) []*Node {
	if v == "" {
		return nil
	}
	return []*Node{{Kind: KText, Text: xmlEsc(v)}}
}

func chain(names []Seg, content []*Node) *Node {
	n := &Node{Kind: KElem, Name: names[len(names)-1].Name, Kids: content}
	for i := len(names) - 2; i >= 0; i-- {
		n = &Node{Kind: KElem, Name: names[i].Name, Kids: []*Node{n}}
	}
	return n
}

// insertAt adds a node as last content of parent and gives the region.
func insertLast(parent, n *Node) (int, int) {
	parent.Kids = append(parent.Kids, n)
	if parent.Self {
		return parent.Start, parent.End
	}
	return parent.CloseStart, parent.CloseStart
}

func creatable(segs []Seg) bool {
	for _, s := range segs {
		if s.K != SName || !validName(s.Name) {
			return false
		}
	}
	return true
}

// create adds the missing part of a path; it returns the new innermost element.
func (e Env) create(top *[]*Node, docLen int, segs []Seg, content []*Node) (*Node, Edit) {
	for i := len(segs) - 1; i >= 1; i-- {
		if parent := e.find(*top, segs[:i], ""); parent != nil {
			if !creatable(segs[i:]) {
				return nil, Edit{Class: "path"}
			}
			n := chain(segs[i:], content)
			p, q := insertLast(parent, n)
			return innermost(n, len(segs)-i), Edit{P: p, Q: q}
		}
	}
	if len(segs) == 0 || !creatable(segs) {
		return nil, Edit{Class: "path"}
	}
	n := chain(segs, content)
	*top = append(*top, n)
	return innermost(n, len(segs)), Edit{P: docLen, Q: docLen}
}

func innermost(n *Node, depth int) *Node {
	for ; depth > 1; depth-- {
		n = n.Kids[0]
	}
	return n
}

// modelSet is Set with the given content for an element or value for an attribute.
func (e Env) modelSet(doc string, segs []Seg, content []*Node, attrVal string) Edit {
	var top []*Node
	if doc != "" {
		var err *syntaxError
		if top, err = ParseDoc(doc); err != nil {
			return Edit{Class: "xml"}
		}
	}
	if len(segs) == 0 {
		return Edit{Class: "path"}
	}
	for i, s := range segs {
		if s.K == SIndex && s.N < 0 && (s.N != -1 || i != len(segs)-1) {
			return Edit{Class: "path"}
		}
	}
	last := segs[len(segs)-1]
	switch {
	case last.K == SIndex && last.N == -1:
		if len(segs) < 2 || !creatable(segs[len(segs)-2:len(segs)-1]) {
			return Edit{Class: "path"}
		}
		name := segs[len(segs)-2]
		parents := segs[:len(segs)-2]
		n := &Node{Kind: KElem, Name: name.Name, Kids: content}
		if len(parents) == 0 {
			pos, at := len(doc), len(top)
			for i, k := range top {
				if k.Kind == KElem && e.match(name.Name, k.Name) {
					pos, at = k.End, i+1
				}
			}
			top = append(top[:at:at], append([]*Node{n}, top[at:]...)...)
			return Edit{Want: top, P: pos, Q: pos}
		}
		// the parent whose children of that name a query returns, else the first one
		parent := e.parentOf(top, e.find(top, segs[:len(segs)-1], ""))
		if parent == nil {
			parent = e.find(top, parents, "")
		}
		if parent == nil {
			_, ed := e.create(&top, len(doc), segs[:len(segs)-1], content)
			ed.Want = top
			return ed
		}
		at := -1
		for i, k := range parent.Kids {
			if k.Kind == KElem && e.match(name.Name, k.Name) {
				at = i
			}
		}
		if at < 0 {
			p, q := insertLast(parent, n)
			return Edit{Want: top, P: p, Q: q}
		}
		pos := parent.Kids[at].End
		parent.Kids = append(parent.Kids[:at+1:at+1], append([]*Node{n}, parent.Kids[at+1:]...)...)
		return Edit{Want: top, P: pos, Q: pos}
	case last.K == SAttr:
		path := segs[:len(segs)-1]
		n := e.find(top, path, last.Name)
		if n == nil {
			n = e.find(top, path, "")
		}
		if n == nil {
			if !validName(last.Name) {
				return Edit{Class: "path"}
			}
			n, ed := e.create(&top, len(doc), path, nil)
			if ed.Class == "" {
				n.Attrs = []Attr{{last.Name, xmlEsc(attrVal)}}
				ed.Want = top
			}
			return ed
		}
		found := false
		for i := range n.Attrs {
			if n.Attrs[i].Name == last.Name || e.Fold && strings.EqualFold(n.Attrs[i].Name, last.Name) {
				n.Attrs[i].Raw = xmlEsc(attrVal)
				found = true
			}
		}
		if !found {
			if !validName(last.Name) {
				return Edit{Class: "path"}
			}
			if len(n.Attrs) >= maxAttrs {
				return Edit{Class: "value"}
			}
			n.Attrs = append(n.Attrs, Attr{last.Name, xmlEsc(attrVal)})
		}
		return Edit{Want: top, P: n.Start, Q: n.OpenEnd}
	}
	if n := e.find(top, segs, ""); n != nil {
		n.Kids = content
		if n.Self {
			return Edit{Want: top, P: n.Start, Q: n.End}
		}
		return Edit{Want: top, P: n.OpenEnd, Q: n.CloseStart}
	}
	_, ed := e.create(&top, len(doc), segs, content)
	ed.Want = top
	return ed
}

// modelDelete is Delete.
func (e Env) modelDelete(doc string, segs []Seg) Edit {
	top, err := ParseDoc(doc)
	if err != nil {
		return Edit{Class: "xml"}
	}
	if len(segs) == 0 {
		return Edit{Class: "path"}
	}
	last := segs[len(segs)-1]
	if last.K == SAttr {
		if len(segs) < 2 {
			return Edit{Class: "path"}
		}
		n := e.find(top, segs[:len(segs)-1], last.Name)
		if n == nil {
			return Edit{Want: top, Bytes: true}
		}
		var keep []Attr
		for _, a := range n.Attrs {
			if a.Name != last.Name && !(e.Fold && strings.EqualFold(a.Name, last.Name)) {
				keep = append(keep, a)
			}
		}
		n.Attrs = keep
		return Edit{Want: top, P: n.Start, Q: n.OpenEnd}
	}
	n := e.find(top, segs, "")
	if n == nil {
		return Edit{Want: top, Bytes: true}
	}
	removeNode(&top, n)
	return Edit{Want: top, P: n.Start, Q: n.End, Bytes: true}
}

func removeNode(kids *[]*Node, n *Node) bool {
	for i, k := range *kids {
		if k == n {
			*kids = append((*kids)[:i:i], (*kids)[i+1:]...)
			return true
		}
		if removeNode(&k.Kids, n) {
			return true
		}
	}
	return false
}

func classOf(err error) string {
	switch {
	case err == nil:
		return ""
	case errors.Is(err, x.ErrMalformedXML):
		return "xml"
	case errors.Is(err, x.ErrInvalidPath):
		return "path"
	case errors.Is(err, x.ErrInvalidValue):
		return "value"
	}
	return "other"
}

// diffEdit compares the outcome of a modification with the expected one.
func diffEdit(doc, got string, err error, ed Edit) string {
	if c := classOf(err); c != ed.Class {
		return fmt.Sprintf("error %v, want class %q", err, ed.Class)
	}
	if err != nil {
		if got != doc {
			return fmt.Sprintf("error, but the document changed to %q", clip(got))
		}
		return ""
	}
	if ed.Bytes {
		if want := doc[:ed.P] + doc[ed.Q:]; got != want {
			return fmt.Sprintf("got %q, want %q", clip(got), clip(want))
		}
		return ""
	}
	if len(got) < ed.P+len(doc)-ed.Q || got[:ed.P] != doc[:ed.P] {
		return fmt.Sprintf("bytes before the target changed: %q", clip(got))
	}
	if got[len(got)-(len(doc)-ed.Q):] != doc[ed.Q:] {
		return fmt.Sprintf("bytes after the target changed: %q", clip(got))
	}
	nodes, perr := ParseDoc(got)
	if perr != nil {
		return fmt.Sprintf("result is not a valid document (%s at %d): %q", perr.msg, perr.pos, clip(got))
	}
	if a, b := canon(nodes), canon(ed.Want); a != b {
		return fmt.Sprintf("result %q is %s, want %s", clip(got), clip(a), clip(b))
	}
	return ""
}

func clip(s string) string {
	if len(s) > 300 {
		return s[:150] + "…" + s[len(s)-150:]
	}
	return s
}

// ---- values ----

// decodeValue reads "s:text", "i:12", "l:12" (int64), "f:1.5", "g:1.5" (float32),
// "b:true", "r:raw bytes", "n:" (nil), "u:" (unsupported type).
func decodeValue(v string) any {
	k, r, _ := strings.Cut(v, ":")
	switch k {
	case "s":
		return r
	case "i":
		n, _ := strconv.Atoi(r)
		return n
	case "l":
		n, _ := strconv.ParseInt(r, 10, 64)
		return n
	case "f":
		f, _ := strconv.ParseFloat(r, 64)
		return f
	case "g":
		f, _ := strconv.ParseFloat(r, 32)
		return float32(f)
	case "b":
		return r == "true"
	case "r":
		return []byte(r)
	case "u":
		switch r {
		case "struct":
			return struct{ A int }{1}
		case "uint":
			return uint(7)
		case "slice":
			return []string{"a"}
		case "map":
			return map[string]int{}
		case "ptr":
			return new(int)
		case "int32":
			return int32(4)
		case "rune":
			return 'x'
		}
		return make(chan int)
	}
	return nil
}

// valueText is the text a scalar value is stored as.
func valueText(v any) string {
	switch t := v.(type) {
	case string:
		return t
	case int:
		return strconv.Itoa(t)
	case int64:
		return strconv.FormatInt(t, 10)
	case float64:
		return fmt.Sprintf("%g", t)
	case float32:
		return fmt.Sprintf("%g", t)
	case bool:
		return strconv.FormatBool(t)
	}
	panic("value")
}

// settable says whether the path is inside the modelled language of Set.
func settable(segs []Seg) bool {
	for _, s := range segs {
		if s.K == SStar || s.K == SDeep {
			return false
		}
	}
	return true
}

// setSub: doc, path, value; everything Set promises for scalar values.
func setSub(args []string) string {
	doc, path := args[0], args[1]
	segs, _, ok := readPath(path)
	if !ok {
		segs = nil
	}
	return setOne(doc, path, segs, args[2])
}

func setOne(doc, path string, segs []Seg, value string) string {
	v := decodeValue(value)
	got, err := x.Set(doc, path, v)
	return setCompare(Env{}, doc, got, err, segs, path, v)
}

func setCompare(env Env, doc, got string, err error, segs []Seg, path string, v any) string {
	text := valueText(v)
	ed := env.modelSet(doc, segs, textContent(text), text)
	if d := diffEdit(doc, got, err, ed); d != "" {
		return d
	}
	if err != nil {
		return ""
	}
	// what was stored is read back through the same path; an append through its index
	last := segs[len(segs)-1]
	read := path
	if last.K == SIndex && last.N == -1 {
		head := segs[:len(segs)-1]
		nodes, _ := ParseDoc(doc)
		n := env.query(nodes, cat(head, sq(cnt)))
		if doc == "" || n.T == x.Null {
			read = render(head)
		} else {
			read = render(head) + "." + strconv.Itoa(int(n.Num))
		}
		if n.Num >= maxResults {
			return ""
		}
	}
	for _, s := range segs {
		if s.K == SIndex && s.N >= maxResults {
			return "" // beyond what queries return
		}
	}
	opts := x.DefaultOptions()
	opts.CaseSensitive = !env.Fold
	r := x.GetWithOptions(got, read, opts)
	want := text
	if last.K != SAttr {
		want = strings.TrimSpace(text)
	}
	if r.String() != want || !r.Exists() {
		return fmt.Sprintf("set %q, read back %q (%s) from %q", text, r.String(), typeName(r.Type), clip(got))
	}
	switch t := v.(type) {
	case int:
		if r.Int() != int64(t) {
			return fmt.Sprintf("set %d, Int() is %d", t, r.Int())
		}
	case int64:
		if r.Int() != t {
			return fmt.Sprintf("set %d, Int() is %d", t, r.Int())
		}
	case bool:
		if r.Bool() != t {
			return fmt.Sprintf("set %v, Bool() is %v", t, r.Bool())
		}
	case float64:
		if r.Float() != t && t == t {
			return fmt.Sprintf("set %v, Float() is %v", t, r.Float())
		}
	}
	return ""
}

// deleteSub: doc, path.
func deleteSub(args []string) string {
	doc, path := args[0], args[1]
	segs, _, ok := readPath(path)
	if !ok {
		segs = nil
	}
	return deleteOne(doc, path, segs)
}

func deleteOne(doc, path string, segs []Seg) string {
	ed := Env{}.modelDelete(doc, segs)
	got, err := x.Delete(doc, path)
	if d := diffEdit(doc, got, err, ed); d != "" {
		return "Delete: " + d
	}
	got2, err2 := x.Set(doc, path, nil)
	if got2 != got || classOf(err2) != classOf(err) {
		return fmt.Sprintf("Set(nil) gives %q %v, Delete %q %v", clip(got2), err2, clip(got), err)
	}
	return ""
}

func guarded(f func() string) (d string) {
	judged.Add(1)
	defer func() {
		if r := recover(); r != nil {
			d = fmt.Sprint("panic: ", r, "\n", shortStack())
		}
	}()
	return f()
}
