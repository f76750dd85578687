// Reference semantics of path queries over the tree.
package main

import (
	"math"
	"regexp"
	"strconv"
	"strings"

	x "verifharness/lib"
)

type SegKind int

const (
	SName SegKind = iota
	SIndex
	SCount
	SField // #.field (Name holds the field: name, @attr or %)
	SAttr
	SText
	SStar
	SDeep
	SFilter
)

type Seg struct {
	K    SegKind
	Name string
	N    int
	Cond *Cond
	All  bool
	Src  string // filter operand as read from a path text
	Mods bool   // modifiers were written on it in the path text
}

type Cond struct {
	Path  []Seg  // operand
	Op    string // "", ==, !=, <, >, <=, >=, %, !%
	Value string
	Quote string // quote character used when rendering the value
}

// R is a reference result.
type R struct {
	T     x.Type
	Str   string
	Num   float64
	Items []R
	Node  *Node // element the result stands for
}

var null = R{T: x.Null}

type Matcher func(pathName, elemName string) bool

func splitNS(n string) (string, string) {
	if i := strings.IndexByte(n, ':'); i >= 0 {
		return n[:i], n[i+1:]
	}
	return "", n
}

// nameMatch: a prefixed name matches prefix and local name, a bare name
// matches by local name.
func nameMatch(p, e string) bool {
	pp, pl := splitNS(p)
	ep, el := splitNS(e)
	return pl == el && (pp == "" || pp == ep)
}

// Env holds how names are compared (options).
type Env struct {
	Fold bool
}

func (e Env) match(p, n string) bool {
	if e.Fold {
		p, n = strings.ToLower(p), strings.ToLower(n)
	}
	return nameMatch(p, n)
}
func (e Env) attr(n *Node, name string) (string, bool) {
	if e.Fold {
		for _, a := range n.Attrs {
			if strings.EqualFold(a.Name, name) {
				return unescape(a.Raw), true
			}
		}
		return "", false
	}
	return n.attr(name)
}

func elemR(n *Node) R  { return R{T: x.Element, Str: allText(n), Node: n} }
func attrR(v string) R { return R{T: x.Attribute, Str: v} }
func textR(n *Node) R  { return R{T: x.String, Str: directText(n)} }

// query evaluates a path on the children of a context (the roots for a document).
func (e Env) query(kids []*Node, segs []Seg) R {
	if len(segs) == 0 || belowLeaf(segs) {
		return null
	}
	seg, rest := segs[0], segs[1:]
	switch seg.K {
	case SName:
		var m []*Node
		for _, k := range kids {
			if k.Kind == KElem && e.match(seg.Name, k.Name) {
				m = append(m, k)
			}
		}
		if len(rest) == 0 {
			if len(m) == 0 {
				return null
			}
			return elemR(m[0])
		}
		switch rest[0].K {
		case SField:
			return e.fields(limit(m), rest[0].Name)
		case SFilter:
			return e.filtered(limit(m), rest)
		}
		if len(m) == 0 {
			return null
		}
		switch rest[0].K {
		case SIndex:
			m = limit(m)
			if i := rest[0].N; i >= 0 && i < len(m) {
				return e.inside(m[i], rest[1:])
			}
			return null
		case SCount:
			m = limit(m)
			return R{T: x.Number, Num: float64(len(m)), Str: strconv.Itoa(len(m))}
		case SAttr, SText:
			return e.inside(m[0], rest)
		}
		for _, n := range m {
			if r := e.query(n.Kids, rest); r.T != x.Null {
				return r
			}
		}
		return null
	case SStar:
		m := limit(elems(kids))
		if len(m) == 0 {
			return null
		}
		if len(rest) == 0 {
			if len(m) == 1 {
				return elemR(m[0])
			}
			var a []R
			for _, n := range m {
				a = append(a, elemR(n))
			}
			return R{T: x.Array, Items: a}
		}
		var a []R
		emptyArr := false
		for _, n := range m {
			r := e.inside(n, rest)
			if r.T == x.Array {
				emptyArr = emptyArr || len(r.Items) == 0
				a = append(a, r.Items...)
			} else if r.T != x.Null {
				a = append(a, r)
			}
		}
		if len(a) == 0 && emptyArr {
			return R{T: x.Array}
		}
		return pack(a)
	case SDeep:
		if len(rest) == 0 {
			return null
		}
		target, after := rest[0], rest[1:]
		var named *Seg // the filter of a named target
		if target.K == SName && len(after) > 0 && after[0].K == SFilter {
			named, after = &after[0], after[1:]
		}
		var a []R
		done := false
		var walk func(kids []*Node)
		walk = func(kids []*Node) {
			for _, n := range kids {
				if n.Kind != KElem {
					continue
				}
				walk(n.Kids)
				if len(a) >= maxResults {
					return
				}
				switch target.K {
				case SName:
					if !e.match(target.Name, n.Name) {
						continue
					}
					if named != nil {
						if done || !e.holds(n, named.Cond) {
							continue
						}
						done = !named.All
					}
				case SFilter:
					if done || !e.holds(n, target.Cond) {
						continue
					}
					done = !target.All
				case SStar:
				default:
					continue
				}
				var r R
				if len(after) > 0 && after[0].K == SField {
					r = e.fields([]*Node{n}, after[0].Name)
				} else {
					r = e.inside(n, after)
				}
				if r.T == x.Array {
					a = append(a, r.Items...)
				} else if r.T != x.Null {
					a = append(a, r)
				}
			}
		}
		walk(kids)
		return pack(a)
	case SFilter:
		return e.filtered(elems(kids), segs)
	case SField:
		return R{T: x.Array}
	}
	return null
}

// inside continues at an element: end, attribute, own text or its children.
// belowLeaf: the path goes on after an attribute, text, count or field, below which nothing lies.
func belowLeaf(segs []Seg) bool {
	for _, s := range segs[:len(segs)-1] {
		switch s.K {
		case SAttr, SText, SCount, SField:
			return true
		}
	}
	return false
}

func (e Env) inside(n *Node, rest []Seg) R {
	if len(rest) == 0 {
		return elemR(n)
	}
	switch rest[0].K {
	case SAttr:
		if len(rest) > 1 {
			return null
		}
		if v, ok := e.attr(n, rest[0].Name); ok {
			return attrR(v)
		}
		return null
	case SText:
		return textR(n)
	}
	return e.query(n.Kids, rest)
}

func (e Env) fields(m []*Node, field string) R {
	var a []R
	for _, n := range m {
		switch {
		case strings.HasPrefix(field, "@"):
			if v, ok := e.attr(n, field[1:]); ok {
				a = append(a, attrR(v))
			}
		case field == "%":
			if t := textR(n); t.Str != "" {
				a = append(a, t)
			}
		default:
			for _, k := range n.Kids {
				if k.Kind == KElem && e.match(field, k.Name) {
					a = append(a, elemR(k))
				}
			}
		}
	}
	if len(a) > maxResults {
		a = a[:maxResults]
	}
	return R{T: x.Array, Items: a}
}

// filtered applies segs[0] (a filter) to m and continues with the rest.
func (e Env) filtered(m []*Node, segs []Seg) R {
	f, rest := segs[0], segs[1:]
	var keep []*Node
	for _, n := range m {
		if e.holds(n, f.Cond) {
			keep = append(keep, n)
		}
	}
	keep = limit(keep)
	if len(keep) == 0 {
		return null
	}
	if !f.All {
		if len(rest) > 0 && rest[0].K == SField {
			return e.fields(keep[:1], rest[0].Name)
		}
		return e.inside(keep[0], rest)
	}
	if len(rest) == 0 {
		var a []R
		for _, n := range keep {
			a = append(a, elemR(n))
		}
		return R{T: x.Array, Items: a}
	}
	if rest[0].K == SField {
		return e.fields(keep, rest[0].Name)
	}
	var a []R
	for _, n := range keep {
		r := e.inside(n, rest)
		if r.T == x.Array {
			a = append(a, r.Items...)
		} else if r.T != x.Null {
			a = append(a, r)
		}
	}
	return pack(a)
}

func limit(m []*Node) []*Node {
	if len(m) > maxResults {
		return m[:maxResults]
	}
	return m
}

func pack(a []R) R {
	switch len(a) {
	case 0:
		return null
	case 1:
		return a[0]
	}
	if len(a) > maxResults {
		a = a[:maxResults]
	}
	return R{T: x.Array, Items: a}
}

func (r R) String() string {
	switch r.T {
	case x.Null:
		return ""
	case x.Array:
		var b strings.Builder
		b.WriteString("[")
		for i, it := range r.Items {
			if i > 0 {
				b.WriteString(",")
			}
			b.WriteString(`"` + jsonEsc(it.String()) + `"`)
		}
		b.WriteString("]")
		return b.String()
	}
	return r.Str
}

func jsonEsc(s string) string {
	return strings.NewReplacer(`\`, `\\`, `"`, `\"`).Replace(s)
}

var numberRE = regexp.MustCompile(`^[+-]?([0-9]+\.?[0-9]*|\.[0-9]+)([eE][+-]?[0-9]+)?$`)

func finite(s string) (float64, bool) {
	if !numberRE.MatchString(s) {
		return 0, false
	}
	f, err := strconv.ParseFloat(s, 64)
	if err != nil || math.IsInf(f, 0) || math.IsNaN(f) {
		return 0, false
	}
	return f, true
}

func (e Env) holds(n *Node, c *Cond) bool {
	var r R
	if len(c.Path) == 1 && c.Path[0].K == SAttr {
		r = e.inside(n, c.Path)
	} else {
		r = e.query(n.Kids, c.Path)
	}
	if r.T == x.Null {
		return false
	}
	return compare(r.String(), c.Op, c.Value)
}

func compare(actual, op, value string) bool {
	switch op {
	case "":
		return true
	case "==":
		return actual == value
	case "!=":
		return actual != value
	case "%":
		return glob(actual, value)
	case "!%":
		return !glob(actual, value)
	}
	a, ok1 := finite(actual)
	v, ok2 := finite(value)
	if !ok1 || !ok2 {
		return false
	}
	switch op {
	case "<":
		return a < v
	case ">":
		return a > v
	case "<=":
		return a <= v
	case ">=":
		return a >= v
	}
	panic("operator " + op)
}

// glob is the textbook recursive definition over characters.
func glob(text, pat string) bool {
	t, p := []rune(text), []rune(pat)
	if len(t) > 12 {
		return globN(t, p)
	}
	return globR(t, p)
}

// globN is the same by simulating the set of reachable pattern positions.
func globN(t, p []rune) bool {
	type item struct {
		c    rune
		kind byte // 'l' literal, '*', '?'
	}
	var items []item
	for i := 0; i < len(p); i++ {
		switch {
		case p[i] == '\\' && i+1 < len(p):
			i++
			items = append(items, item{p[i], 'l'})
		case p[i] == '*' || p[i] == '?':
			items = append(items, item{p[i], byte(p[i])})
		default:
			items = append(items, item{p[i], 'l'})
		}
	}
	cur := make([]bool, len(items)+1)
	closure := func(s []bool) {
		for i, it := range items {
			if s[i] && it.kind == '*' {
				s[i+1] = true
			}
		}
	}
	cur[0] = true
	closure(cur)
	for _, r := range t {
		next := make([]bool, len(items)+1)
		for i, it := range items {
			if !cur[i] {
				continue
			}
			switch {
			case it.kind == '*':
				next[i] = true
			case it.kind == '?' || it.c == r:
				next[i+1] = true
			}
		}
		closure(next)
		cur = next
	}
	return cur[len(items)]
}

func globR(t, p []rune) bool {
	if len(p) == 0 {
		return len(t) == 0
	}
	switch p[0] {
	case '*':
		for i := 0; i <= len(t); i++ {
			if globR(t[i:], p[1:]) {
				return true
			}
		}
		return false
	case '?':
		return len(t) > 0 && globR(t[1:], p[1:])
	case '\\':
		if len(p) > 1 {
			return len(t) > 0 && t[0] == p[1] && globR(t[1:], p[2:])
		}
	}
	return len(t) > 0 && t[0] == p[0] && globR(t[1:], p[1:])
}

// ---- rendering of structured paths ----

var nameEsc = strings.NewReplacer(`\`, `\\`, `.`, `\.`)

func (s Seg) render() string {
	switch s.K {
	case SName:
		return nameEsc.Replace(s.Name)
	case SIndex:
		return strconv.Itoa(s.N)
	case SCount:
		return "#"
	case SField:
		return "#." + nameEsc.Replace(s.Name)
	case SAttr:
		return "@" + nameEsc.Replace(s.Name)
	case SText:
		return "%"
	case SStar:
		return "*"
	case SDeep:
		return "**"
	case SFilter:
		out := "#(" + s.Cond.render() + ")"
		if s.All {
			out += "#"
		}
		return out
	}
	panic("seg")
}

func (c *Cond) render() string {
	// the path text is unescaped once before the condition is read
	return strings.ReplaceAll(render(c.Path)+c.Op+c.Quote+c.Value+c.Quote, `\`, `\\`)
}

func render(segs []Seg) string {
	parts := make([]string, len(segs))
	for i, s := range segs {
		parts[i] = s.render()
	}
	return strings.Join(parts, ".")
}

func nm(s string) Seg  { return Seg{K: SName, Name: s} }
func ix(i int) Seg     { return Seg{K: SIndex, N: i} }
func at(s string) Seg  { return Seg{K: SAttr, Name: s} }
func fld(s string) Seg { return Seg{K: SField, Name: s} }

var (
	cnt  = Seg{K: SCount}
	txt  = Seg{K: SText}
	star = Seg{K: SStar}
	deep = Seg{K: SDeep}
)

// ---- comparison with results of the implementation ----

// diffResult compares an implementation result with the reference.
func diffResult(got x.Result, want R) string {
	if got.Type != want.T {
		return "type " + typeName(got.Type) + " (" + got.String() + "), want " + typeName(want.T) + " (" + want.String() + ")"
	}
	switch want.T {
	case x.Null:
		if got.Str != "" || got.Raw != "" || got.Num != 0 || len(got.Results) != 0 {
			return "Null result with contents"
		}
	case x.Array:
		if len(got.Results) != len(want.Items) {
			return "array of " + strconv.Itoa(len(got.Results)) + " " + got.String() + ", want " + strconv.Itoa(len(want.Items)) + " " + want.String()
		}
		for i := range want.Items {
			if d := diffResult(got.Results[i], want.Items[i]); d != "" {
				return "item " + strconv.Itoa(i) + ": " + d
			}
		}
	default:
		if got.Str != want.Str {
			return "text " + strconv.Quote(got.Str) + ", want " + strconv.Quote(want.Str)
		}
		if got.Num != want.Num {
			return "number differs"
		}
		if want.T == x.Attribute && unescape(got.Raw) != unescape(want.Str) {
			return "attribute raw " + strconv.Quote(got.Raw) + ", want " + strconv.Quote(want.Str)
		}
		if want.T == x.Element && want.Node != nil {
			if d := diffRaw(got.Raw, want.Node); d != "" {
				return d
			}
		}
	}
	return ""
}

// diffRaw checks that raw text is the content of the element: same nodes in the
// same order with the same attribute values.
func diffRaw(raw string, n *Node) string {
	if len(n.Kids) == 0 {
		if raw != "" {
			return "raw " + strconv.Quote(raw) + " of an empty element"
		}
		return ""
	}
	if len(n.Kids) == 1 && n.Kids[0].Kind == KText {
		if raw != n.Kids[0].Text {
			return "raw " + strconv.Quote(raw) + ", want " + strconv.Quote(n.Kids[0].Text)
		}
		return ""
	}
	kids, err := ParseContent(raw)
	if err != nil {
		return "raw is not well-formed content: " + strconv.Quote(raw)
	}
	if a, b := canon(kids), canon(n.Kids); a != b {
		return "raw " + a + ", want " + b
	}
	return ""
}

func typeName(t x.Type) string {
	names := []string{"Null", "String", "Number", "True", "False", "Element", "Attribute", "Array"}
	if int(t) >= 0 && int(t) < len(names) {
		return names[t]
	}
	return strconv.Itoa(int(t))
}
