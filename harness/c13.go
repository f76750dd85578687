package main

import (
	"fmt"
	"strings"
	"sync/atomic"

	x "verifharness/lib"
)

func init() {
	register(&Check{ID: "C13", Run: runC13, Subs: map[string]Sub{"valid": validSub}, Notes: []string{
		"well-formedness is that of the library: several roots are a valid fragment, repeated attributes are allowed, names are ASCII",
	}})
}

// positions counts the error positions compared with the construct at fault.
var positions atomic.Int64

func validSub(args []string) string { return validOne(args[0]) }

// offsetOf turns a reported position (line from 1, column from 0) into an offset.
func offsetOf(s string, line, col int) (int, bool) {
	if line < 1 || col < 0 {
		return 0, false
	}
	off := 0
	for l := 1; l < line; l++ {
		i := strings.IndexByte(s[off:], '\n')
		if i < 0 {
			return 0, false
		}
		off += i + 1
	}
	end := strings.IndexByte(s[off:], '\n')
	if end < 0 {
		end = len(s) - off
	}
	return off + col, col <= end
}

func validOne(s string) string {
	_, want := ParseDoc(s)
	v := x.Valid(s)
	if v != (want == nil) {
		if want != nil {
			return fmt.Sprintf("Valid = %v, but at offset %d: %s", v, want.pos, want.msg)
		}
		return "Valid = false for a well-formed document"
	}
	b := []byte(s)
	if x.ValidBytes(b) != v {
		return fmt.Sprintf("ValidBytes = %v, Valid = %v", !v, v)
	}
	e, eb := x.ValidateWithError(s), x.ValidateBytesWithError(b)
	if (e == nil) != v || (eb == nil) != v {
		return fmt.Sprintf("Valid = %v, ValidateWithError = %v, ValidateBytesWithError = %v", v, e, eb)
	}
	if string(b) != s {
		return "the argument was changed"
	}
	if v {
		return ""
	}
	if *e != *eb {
		return fmt.Sprintf("errors differ: %v and %v", e, eb)
	}
	positions.Add(1)
	off, ok := offsetOf(s, e.Line, e.Column)
	if !ok {
		return fmt.Sprintf("error position outside the document: %v", e)
	}
	if off < want.cs {
		return fmt.Sprintf("error position %d before the construct at fault (%d: %s): %v", off, want.cs, want.msg, e)
	}
	if e.Message == "" || e.Error() == "" {
		return "empty error message"
	}
	return ""
}

// words enumerates all words of exactly n letters; the first two letters are
// distributed over the workers.
func words(c *Ctx, alphabet []string, n int, f func(w int, word []byte)) {
	k := len(alphabet)
	head := n
	if head > 2 {
		head = 2
	}
	total := 1
	for i := 0; i < head; i++ {
		total *= k
	}
	var heads []int
	for i := 0; i < total; i++ {
		heads = append(heads, i)
	}
	Each(c, heads, func(w int, h int) {
		buf := make([]byte, 0, 64)
		for i, v := 0, h; i < head; i++ {
			buf = append(buf, alphabet[v%k]...)
			v /= k
		}
		var rec func(buf []byte, left int)
		rec = func(buf []byte, left int) {
			if left == 0 {
				f(w, buf)
				return
			}
			for _, a := range alphabet {
				rec(append(buf, a...), left-1)
			}
			if left == 3 && c.Stopped() {
				return
			}
		}
		rec(buf, n-head)
	})
}

// allWords checks all words up to n letters in a context.
func (c *Ctx) allWords(sub string, alphabet []string, n int, f func(string) string, pre, post string) {
	for l := 0; l <= n; l++ {
		words(c, alphabet, l, func(w int, word []byte) {
			s := pre + string(word) + post
			if what := guarded(func() string { return f(s) }); what != "" {
				c.Fail(sub, what, s)
			}
			c.States(1)
		})
	}
}

var markupTokens = []string{"<a>", "</a>", "<b>", "</b>", "<a/>", "<b x='1'>", "<a x=\"<\" y=''>", "</a >", "</ a>", "< a>", "<a x>", "<a x=1>", "<1>", "<a", "<", ">", "/>", "</", " x='1'", " x=\"", "\"", "'", "=", "t", " ", "\n", "<!--", "-->", "--", "<![CDATA[", "]]>", "]", "<?p", "?>", "<!DOCTYPE r", "<!dOcTyPe", "[", "<!", "&lt;", "é", "<a/ >", "a", "/", ":"}

func runC13(c *Ctx) {
	// all character strings
	chars := strings.Split(`<>/!-a="' ?[]`, "")
	n, m := 6, 4
	if c.thorough {
		n, m = 7, 5
	}
	c.allWords("valid", chars, n, validOne, "", "")
	small := strings.Split(`<>/!-a="' `, "")
	c.allWords("valid", small, n, validOne, "<a>", "</a>")
	c.allWords("valid", small, n, validOne, "<a ", "/>")
	c.allWords("valid", small, n-1, validOne, "<a>\n</a", "")
	c.allWords("valid", strings.Split(`->!<a`, ""), n+2, validOne, "<!-", "<a/>")
	c.allWords("valid", strings.Split(`]>[<a`, ""), n+2, validOne, "<a><![CDATA[", "</a>")
	c.allWords("valid", strings.Split(`?><a'`, ""), n+1, validOne, "<?", "<a/>")
	c.allWords("valid", strings.Split(`[]>a'<`, ""), n+1, validOne, "<!DOCTYPE", "<a/>")
	c.allWords("valid", strings.Split(`DdO>[]C`, ""), n-1, validOne, "<!", ">]><a/>")
	c.allWords("valid", strings.Split(`a1.-_:é<`, ""), n-1, validOne, "<", "/>")
	c.allWords("valid", strings.Split(`a1.-_:é=`, ""), n-1, validOne, "<a ", "=''/>")
	c.allWords("valid", strings.Split(" \t\r\n\v\f<a>/", ""), n-1, validOne, "", "")
	c.allWords("valid", strings.Split(" \t\r\n\v\f x", ""), n-2, validOne, "<a", "='1'/>")
	c.Sample("all strings of up to %d of %q", n, strings.Join(chars, ""))
	// all token sequences
	c.allWords("valid", markupTokens, m, validOne, "", "")
	c.allWords("valid", markupTokens, m, validOne, "<r>", "</r>")
	nest := []string{"<a>", "</a>", "<b>", "</b>", "<a/>", "\n", "t"}
	c.allWords("valid", nest, n+1, validOne, "", "")
	c.allWords("valid", nest, n, validOne, "<a>", "</a>")
	// every byte inserted, replaced or deleted at every position
	tmpl := []string{"<a x=\"1\" y='2'>t<b/>\n<!--c--><![CDATA[d]]></a >", "<?xml v='1'?>\n<!DOCTYPE a [<!ENTITY e 'v'>]>\n<a>\n <b-1 n:x = '&lt;'/>\n</a>\n<!ELEMENT a>", "<a><b></b></a>"}
	var edits []string
	for _, t := range tmpl {
		edits = append(edits, t)
		for i := 0; i <= len(t); i++ {
			for b := 0; b < 256; b++ {
				edits = append(edits, t[:i]+string([]byte{byte(b)})+t[i:])
				if i < len(t) {
					edits = append(edits, t[:i]+string([]byte{byte(b)})+t[i+1:])
				}
			}
			for j := i + 1; j <= len(t); j++ {
				edits = append(edits, t[:i]+t[j:])
			}
		}
	}
	marks := strings.Split("<>/!-a=\"' ?[]", "")
	for _, t := range tmpl[2:] {
		for i := 0; i <= len(t); i++ {
			for j := i; j <= len(t); j++ {
				for _, p := range marks {
					for _, q := range marks {
						edits = append(edits, t[:i]+p+t[i:j]+q+t[j:])
					}
				}
			}
		}
	}
	check := func(list []string) {
		Each(c, list, func(w int, s string) {
			c.State(s)
			if what := guarded(func() string { return validOne(s) }); what != "" {
				c.Fail("valid", what, s)
			}
		})
	}
	check(edits)
	// limits and sizes
	var big []string
	for _, k := range sizes(130, 1200) {
		r := func(s string) string { return strings.Repeat(s, k) }
		big = append(big, r("<a>")+r("</a>"), r("<a>")+"<b/>"+r("</a>"), "<r>"+r("<a></a>")+"</r>", r("<a/>"), r("\n")+"<a", "<a "+rep(k, func(i int) string { return fmt.Sprintf("x%d='%d' ", i, i) })+">", "<a "+r("x='1' ")+"/>", "<a "+r("x='1'\n")+"></a>", r("<a>")+r("</a>")+"</a>", r("<a>"), "<a>"+r("x")+"</a>", "<a"+r("x")+"/>", "<a x='"+r("'")+"'/>", "<!--"+r("-")+"-->"+"<a/>", "<!--"+r("x\n")+"--><a/><", r("<!-- -->")+"<a/>", "<![CDATA["+r("]")+"]]><a/>", "<!DOCTYPE "+r("[")+r("]")+"><a/>", "<?"+r("?")+"><a/>", "<a>"+r(" ")+"</a"+r(" ")+">"+r(" "), r("<a/> ")+"t", "<a>"+r("&lt;<b/>")+"</a>")
	}
	const M = 1024 * 1024
	for _, k := range []int{M - 2, M - 1, M, M + 1, M + 2} {
		r := strings.Repeat("n", k)
		big = append(big, "<"+r+"/>", "<"+r+"></"+r+">", "<a "+r+"='1'/>", "<a x='"+r+"'/>", "<a x=\""+r+"\">", "<?"+r+"?><a/>", "<!"+r+"><a/>", "<!--"+r+"--><a/>", "<![CDATA["+r+"]]><a/>", "<!DOCTYPE "+r+"><a/>", "<a>"+r+"</a>", "<a></"+r+">", "<a x='"+r, "<?"+r, "<!"+r, "<a "+r, "<"+r, "<a>\n</"+r+"></a>")
	}
	for _, k := range []int{maxDoc - 1, maxDoc, maxDoc + 1, maxDoc + 2} {
		big = append(big, "<a>"+strings.Repeat("x", k-7)+"</a>", "<a/>"+strings.Repeat(" ", k-4), strings.Repeat("\n", k-4)+"<a/>", "<a/>"+strings.Repeat("<b/>", (k-4)/4)+strings.Repeat(" ", k%4), strings.Repeat(" ", k), "<!--"+strings.Repeat("x", k-11)+"--><a/>")
	}
	check(big)
	check(farFaults(c))
	c.Cmp(int(positions.Load()))
	c.Count("error positions compared", positions.Load())
}
