// Reference document model: an independent recogniser and tree builder for the
// documents the library documents as valid, with byte positions.
package main

import (
	"fmt"
	"sort"
	"strings"
)

const (
	maxDepth    = 100
	maxAttrs    = 100
	maxDoc      = 10 * 1024 * 1024
	maxToken    = 1024 * 1024
	maxValue    = 5 * 1024 * 1024
	maxSegments = 100
	maxResults  = 1000
)

type Kind int

const (
	KElem Kind = iota
	KText
	KOpaque // comment, CDATA, PI, declaration
)

type Attr struct{ Name, Raw string }

type Node struct {
	Kind  Kind
	Name  string
	Attrs []Attr // duplicates resolved: last one wins, order of first occurrence
	Kids  []*Node
	Self  bool
	Text  string // text or opaque bytes as written

	Start, OpenEnd, CloseStart, End int // byte positions of an element
}

type syntaxError struct {
	pos int
	msg string
	cs  int // start of the construct at fault
}

type domParser struct {
	s   string
	pos int
	cs  int // start of the construct being read
	err *syntaxError
}

func isWS(c byte) bool { return c == ' ' || c == '\t' || c == '\n' || c == '\r' }
func isNameStart(c byte) bool {
	return c == '_' || c == ':' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}
func isNameChar(c byte) bool {
	return isNameStart(c) || c == '.' || c == '-' || c >= '0' && c <= '9'
}
func validName(s string) bool {
	if s == "" || !isNameStart(s[0]) {
		return false
	}
	for i := 0; i < len(s); i++ {
		if !isNameChar(s[i]) {
			return false
		}
	}
	return true
}

// ParseDoc returns the top-level nodes of a document (elements and opaque
// constructs; white space between them is dropped) or why it is not valid.
func ParseDoc(s string) ([]*Node, *syntaxError) {
	if len(s) > maxDoc {
		return nil, &syntaxError{0, "too large", 0}
	}
	p := &domParser{s: s}
	var top []*Node
	roots := 0
	for {
		p.ws()
		if p.err != nil {
			return nil, p.err
		}
		if p.pos >= len(s) {
			break
		}
		if s[p.pos] != '<' {
			return nil, &syntaxError{p.pos, "text outside root", p.pos}
		}
		n := p.node(0)
		if p.err != nil {
			return nil, p.err
		}
		if n.Kind == KElem {
			roots++
		}
		top = append(top, n)
	}
	if roots == 0 {
		return nil, &syntaxError{0, "no root", 0}
	}
	return top, nil
}

// ParseContent parses element content (text allowed at top level).
func ParseContent(s string) ([]*Node, *syntaxError) {
	top, err := ParseDoc("<x>" + s + "</x>")
	if err != nil {
		return nil, err
	}
	if len(top) != 1 {
		return nil, &syntaxError{0, "content leaves its element", 0}
	}
	return top[0].Kids, nil
}

func (p *domParser) fail(pos int, msg string) {
	if p.err == nil {
		p.err = &syntaxError{pos, msg, p.cs}
	}
}
func (p *domParser) ws() {
	for p.pos < len(p.s) && isWS(p.s[p.pos]) {
		p.pos++
	}
}

// upTo consumes up to and including the terminator.
func (p *domParser) upTo(term string, limit bool) {
	i := strings.Index(p.s[p.pos:], term)
	if i < 0 {
		p.fail(p.pos, "unterminated")
		return
	}
	if limit && i > maxToken {
		p.fail(p.pos, "token too large")
		return
	}
	p.pos += i + len(term)
}

// node parses one markup construct starting at '<' with depth open ancestors.
func (p *domParser) node(depth int) *Node {
	s, start := p.s, p.pos
	p.cs = start
	rest := s[start:]
	opaque := func() *Node {
		if p.err != nil {
			return nil
		}
		return &Node{Kind: KOpaque, Text: s[start:p.pos], Start: start, End: p.pos}
	}
	switch {
	case strings.HasPrefix(rest, "<?"):
		p.pos += 2
		if i := strings.Index(s[p.pos:], "?>"); i+1 > maxToken {
			p.fail(p.pos, "token too large")
			return nil
		}
		p.upTo("?>", false)
		return opaque()
	case strings.HasPrefix(rest, "<!--"):
		p.pos += 4
		i := strings.Index(s[p.pos:], "--")
		if i < 0 || !strings.HasPrefix(s[p.pos+i:], "-->") {
			p.fail(start, "bad comment")
			return nil
		}
		p.pos += i + 3
		return opaque()
	case strings.HasPrefix(rest, "<![CDATA["):
		p.pos += 9
		p.upTo("]]>", false)
		return opaque()
	case len(rest) >= 9 && strings.EqualFold(rest[:9], "<!DOCTYPE"):
		depth := 0
		for i := start; i < len(s); i++ {
			// quoted literals, comments and PIs hide what they contain
			skip := ""
			from := i + 1
			switch {
			case s[i] == '"' || s[i] == '\'':
				skip = s[i : i+1]
			case strings.HasPrefix(s[i:], "<!--"):
				skip, from = "-->", i+4
			case strings.HasPrefix(s[i:], "<?"):
				skip, from = "?>", i+2
			}
			if skip != "" {
				j := strings.Index(s[from:], skip)
				if j < 0 {
					i = len(s)
					continue
				}
				i = from + j + len(skip) - 1
				continue
			}
			switch s[i] {
			case '[':
				depth++
			case ']':
				depth--
			case '>':
				if depth == 0 {
					p.pos = i + 1
					return opaque()
				}
			}
		}
		p.fail(start, "unterminated DOCTYPE")
		return nil
	case strings.HasPrefix(rest, "<!"):
		p.pos += 2
		p.upTo(">", true)
		return opaque()
	}
	// element
	if len(rest) == 1 {
		p.fail(start, "eof in tag")
		return nil
	}
	p.pos++
	n := &Node{Kind: KElem, Start: start}
	n.Name = p.name()
	if p.err != nil {
		return nil
	}
	if depth >= maxDepth {
		p.fail(start, "nesting")
		return nil
	}
	count := 0
	for {
		p.ws()
		if p.pos >= len(s) {
			p.fail(p.pos, "eof in tag")
			return nil
		}
		if s[p.pos] == '>' || s[p.pos] == '/' {
			break
		}
		if count >= maxAttrs {
			p.fail(p.pos, "too many attributes")
			return nil
		}
		count++
		an := p.name()
		if p.err != nil {
			return nil
		}
		p.ws()
		if p.pos >= len(s) || s[p.pos] != '=' {
			p.fail(p.pos, "expected =")
			return nil
		}
		p.pos++
		p.ws()
		if p.pos >= len(s) || s[p.pos] != '"' && s[p.pos] != '\'' {
			p.fail(p.pos, "expected quote")
			return nil
		}
		q := s[p.pos : p.pos+1]
		p.pos++
		vs := p.pos
		p.upTo(q, true)
		if p.err != nil {
			return nil
		}
		val := s[vs : p.pos-1]
		dup := false
		for i := range n.Attrs {
			if n.Attrs[i].Name == an {
				n.Attrs[i].Raw = val
				dup = true
			}
		}
		if !dup {
			n.Attrs = append(n.Attrs, Attr{an, val})
		}
	}
	if s[p.pos] == '/' {
		n.Self = true
		p.pos++
	}
	if p.pos >= len(s) || s[p.pos] != '>' {
		p.fail(p.pos, "expected >")
		return nil
	}
	p.pos++
	n.OpenEnd = p.pos
	if n.Self {
		n.CloseStart, n.End = p.pos, p.pos
		return n
	}
	for {
		ts := p.pos
		i := strings.IndexByte(s[p.pos:], '<')
		if i < 0 {
			p.cs = start
			p.fail(start, "unclosed")
			return nil
		}
		p.pos += i
		if p.pos > ts {
			n.Kids = append(n.Kids, &Node{Kind: KText, Text: s[ts:p.pos], Start: ts, End: p.pos})
		}
		if strings.HasPrefix(s[p.pos:], "</") {
			n.CloseStart = p.pos
			p.cs = p.pos
			p.pos += 2
			ns := p.pos
			for p.pos < len(s) && isNameChar(s[p.pos]) {
				p.pos++
			}
			cn := s[ns:p.pos]
			p.ws()
			if cn != n.Name || p.pos >= len(s) || s[p.pos] != '>' {
				p.fail(n.CloseStart, "bad closing tag")
				return nil
			}
			p.pos++
			n.End = p.pos
			return n
		}
		k := p.node(depth + 1)
		if p.err != nil {
			return nil
		}
		n.Kids = append(n.Kids, k)
	}
}

func (p *domParser) name() string {
	start := p.pos
	for p.pos < len(p.s) && isNameChar(p.s[p.pos]) {
		p.pos++
	}
	n := p.s[start:p.pos]
	if !validName(n) || len(n) > maxToken {
		p.fail(start, "bad name")
	}
	return n
}

// elems returns the element children.
func elems(kids []*Node) []*Node {
	var out []*Node
	for _, k := range kids {
		if k.Kind == KElem {
			out = append(out, k)
		}
	}
	return out
}

func unescape(s string) string {
	if strings.IndexByte(s, '&') < 0 {
		return s
	}
	var b strings.Builder
	for i := 0; i < len(s); {
		if s[i] == '&' {
			done := false
			for _, e := range [...][2]string{{"&lt;", "<"}, {"&gt;", ">"}, {"&quot;", "\""}, {"&apos;", "'"}, {"&amp;", "&"}} {
				if strings.HasPrefix(s[i:], e[0]) {
					b.WriteString(e[1])
					i += len(e[0])
					done = true
					break
				}
			}
			if done {
				continue
			}
		}
		b.WriteByte(s[i])
		i++
	}
	return b.String()
}

// allText is the text of an element as queries return it: the text of all
// descendants in document order, without surrounding white space.
func allText(n *Node) string {
	var b strings.Builder
	var walk func(n *Node)
	walk = func(n *Node) {
		for _, k := range n.Kids {
			switch k.Kind {
			case KText:
				b.WriteString(k.Text)
			case KElem:
				walk(k)
			}
		}
	}
	walk(n)
	return unescape(strings.TrimSpace(b.String()))
}

// directText is the element's own text.
func directText(n *Node) string {
	var b strings.Builder
	for _, k := range n.Kids {
		if k.Kind == KText {
			b.WriteString(k.Text)
		}
	}
	return unescape(strings.TrimSpace(b.String()))
}

func (n *Node) attr(name string) (string, bool) {
	for _, a := range n.Attrs {
		if a.Name == name {
			return unescape(a.Raw), true
		}
	}
	return "", false
}

// canon writes a canonical form of nodes: names, attributes sorted with their
// values, text exactly, opaque constructs exactly. Adjacent texts are merged.
func canon(nodes []*Node) string {
	var b strings.Builder
	canonTo(&b, nodes)
	return b.String()
}

func canonTo(b *strings.Builder, nodes []*Node) {
	for i := 0; i < len(nodes); i++ {
		n := nodes[i]
		switch n.Kind {
		case KText:
			t := n.Text
			for i+1 < len(nodes) && nodes[i+1].Kind == KText {
				i++
				t += nodes[i].Text
			}
			if t != "" {
				fmt.Fprintf(b, "T%q", unescape(t))
			}
		case KOpaque:
			fmt.Fprintf(b, "O%q", n.Text)
		default:
			b.WriteString("<")
			b.WriteString(n.Name)
			as := append([]Attr(nil), n.Attrs...)
			sort.Slice(as, func(i, j int) bool { return as[i].Name < as[j].Name })
			for _, a := range as {
				fmt.Fprintf(b, " %s=%q", a.Name, unescape(a.Raw))
			}
			b.WriteString(">")
			canonTo(b, n.Kids)
			b.WriteString("</>")
		}
	}
}

// clone copies a tree.
func clone(nodes []*Node) []*Node {
	out := make([]*Node, len(nodes))
	for i, n := range nodes {
		c := *n
		c.Attrs = append([]Attr(nil), n.Attrs...)
		c.Kids = clone(n.Kids)
		out[i] = &c
	}
	return out
}
