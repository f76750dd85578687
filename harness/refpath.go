// Reference reading of path text.
package main

import (
	"strconv"
	"strings"
)

type pathChar struct {
	c   byte
	esc bool
}

// readPath turns path text into segments and the modifiers of the last segment.
// ok is false when the path addresses nothing as a whole (too many segments or
// an invalid filter condition).
func readPath(path string) (segs []Seg, mods []string, ok bool) {
	if path == "" {
		return nil, nil, false
	}
	var chars []pathChar
	for i := 0; i < len(path); i++ {
		if path[i] == '\\' {
			if i++; i < len(path) {
				chars = append(chars, pathChar{path[i], true})
			}
			continue
		}
		chars = append(chars, pathChar{path[i], false})
	}
	// split at unescaped dots; a complete filter at the start of a part is kept
	// whole, but not after a filter that is never closed
	var parts [][]pathChar
	unclosed := false
	cur := []pathChar{}
	for i := 0; i < len(chars); {
		if len(cur) == 0 && opening(chars[i:]) && !unclosed {
			if end := closing(chars[i:]); end > 0 {
				cur = append(cur, chars[i:i+end]...)
				i += end
				continue
			}
			unclosed = true
		}
		if chars[i].c == '.' && !chars[i].esc {
			parts = append(parts, cur)
			cur = []pathChar{}
		} else {
			cur = append(cur, chars[i])
		}
		i++
	}
	parts = append(parts, cur)
	if len(parts) > maxSegments {
		return nil, nil, false
	}
	for _, p := range parts {
		b := make([]byte, len(p))
		for i, c := range p {
			b[i] = c.c
		}
		text := string(b)
		if text == "" {
			continue
		}
		head, m := readModifiers(text, closing(p))
		seg, keep, valid := readSegment(head)
		if !valid {
			return nil, nil, false
		}
		if !keep {
			continue
		}
		seg.Mods = len(m) > 0
		segs = append(segs, seg)
		mods = m
	}
	// "#" followed by a name, attribute or % is field extraction
	var out []Seg
	for i := 0; i < len(segs); i++ {
		if segs[i].K == SCount && i+1 < len(segs) {
			n := segs[i+1]
			f := ""
			switch {
			case n.K == SText:
				f = "%"
			case n.K == SName && fieldName(n.Name):
				f = n.Name
			case n.K == SAttr && fieldName(n.Name):
				f = "@" + n.Name
			}
			if f != "" && len(f) <= 256 {
				seg := fld(f)
				seg.Mods = segs[i].Mods || n.Mods
				out = append(out, seg)
				i++
				continue
			}
		}
		out = append(out, segs[i])
	}
	return out, mods, true
}

func opening(cs []pathChar) bool {
	return len(cs) >= 2 && cs[0] == pathChar{'#', false} && cs[1] == pathChar{'(', false}
}

// closing returns the length of a complete filter "#(...)" at the start, or 0.
func closing(cs []pathChar) int {
	if !opening(cs) {
		return 0
	}
	depth, quote := 0, byte(0)
	for i := 1; i < len(cs); i++ {
		c := cs[i]
		switch {
		case c.esc:
		case quote != 0:
			if c.c == quote {
				quote = 0
			}
		case c.c == '"' || c.c == '\'':
			quote = c.c
		case c.c == '(':
			depth++
		case c.c == ')':
			if depth--; depth == 0 {
				return i + 1
			}
		}
	}
	return 0
}

// readModifiers splits "head|@mod|@mod"; the first skip bytes are a filter.
func readModifiers(text string, skip int) (string, []string) {
	fields := strings.Split(text[skip:], "|")
	var mods []string
	for _, f := range fields[1:] {
		if f = strings.TrimSpace(f); strings.HasPrefix(f, "@") {
			mods = append(mods, f[1:])
		}
	}
	return text[:skip] + fields[0], mods
}

func fieldName(s string) bool {
	return validName(s) && s[0] != ':' && !strings.Contains(s, ".")
}

func isInteger(s string) bool {
	s = strings.TrimPrefix(s, "-")
	if s == "" {
		return false
	}
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return false
		}
	}
	return true
}

func readSegment(s string) (seg Seg, keep, valid bool) {
	switch {
	case strings.HasPrefix(s, "#("):
		all := strings.HasSuffix(s, ")#")
		if !all && !strings.HasSuffix(s, ")") {
			return seg, false, true
		}
		body := strings.TrimSuffix(strings.TrimSuffix(s[2:], "#"), ")")
		if !all {
			body = strings.TrimSuffix(s[2:], ")")
		}
		if body == "" {
			return seg, false, true
		}
		c, src, ok := readCond(body)
		return Seg{K: SFilter, Cond: c, All: all, Src: src}, true, ok
	case strings.HasPrefix(s, "@"):
		return at(s[1:]), true, true
	case s == "%":
		return txt, true, true
	case s == "#":
		return cnt, true, true
	case s == "*":
		return star, true, true
	case s == "**":
		return deep, true, true
	case isInteger(s):
		n, _ := strconv.Atoi(s)
		return ix(n), true, true
	}
	return nm(s), true, true
}

func readCond(s string) (*Cond, string, bool) {
	if len(s) > 256 || strings.Contains(s, "\x00") {
		return nil, "", false
	}
	s = strings.TrimSpace(s)
	if s == "" {
		return nil, "", false
	}
	operand := func(p string) []Seg {
		if strings.HasPrefix(p, "@") {
			return []Seg{at(p[1:])}
		}
		segs, _, ok := readPath(p)
		if !ok {
			return nil
		}
		return segs
	}
	if !strings.ContainsAny(s, "=!<>%") {
		return &Cond{Path: operand(s)}, s, true
	}
	// the first two-character operator before any quote, else the first of < > %
	pos, op := -1, ""
	for i := 0; i+2 <= len(s) && pos < 0; i++ {
		switch s[i : i+2] {
		case "==", "!=", "<=", ">=", "!%":
			pos, op = i, s[i:i+2]
		}
		if s[i] == '"' || s[i] == '\'' {
			i = len(s)
		}
	}
	if pos < 0 {
		if pos = strings.IndexAny(s, "<>%"); pos >= 0 {
			op = s[pos : pos+1]
		}
	}
	if pos < 0 {
		return nil, "", false
	}
	p, v := s[:pos], s[pos+len(op):]
	if strings.ContainsAny(p, "\x00\n\r\t") {
		return nil, "", false
	}
	p, v = strings.TrimSpace(p), strings.TrimSpace(v)
	if p == "" || v == "" || strings.ContainsAny(p, "=!<>%") {
		return nil, "", false
	}
	if n := len(v); n >= 2 && v[0] == v[n-1] && (v[0] == '"' || v[0] == '\'') {
		v = v[1 : n-1]
	}
	if strings.ContainsAny(v, "\x00\n\r\t") {
		return nil, "", false
	}
	return &Cond{Path: operand(p), Op: op, Value: v}, p, true
}
