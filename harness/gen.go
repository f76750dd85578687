// Enumeration of documents and paths.
package main

import (
	"fmt"
	"strings"
)

// shape is an ordered forest with node labels.
type shape struct {
	label int
	kids  []shape
}

// forests enumerates every ordered forest with exactly n nodes and labels 0..k-1.
func forests(n, k int) [][]shape {
	if n == 0 {
		return [][]shape{nil}
	}
	var out [][]shape
	// first tree has 1+i nodes
	for i := 0; i < n; i++ {
		for _, inner := range forests(i, k) {
			for _, rest := range forests(n-1-i, k) {
				for l := 0; l < k; l++ {
					f := make([]shape, 0, len(rest)+1)
					f = append(f, shape{l, inner})
					out = append(out, append(f, rest...))
				}
			}
		}
	}
	return out
}

// docStyle says how a forest is written down.
type docStyle struct {
	names []string
	// text: 0 text in leaves only, empty ones self-closing every third node
	// 1 text before the children, 2 text before, between and after children
	text  int
	attrs int // 0 none, 1 x on every node, 2 x and y by position
	ws    bool
}

func writeForest(f []shape, st docStyle) string {
	var b strings.Builder
	n := 0
	var rec func(f []shape, depth int)
	rec = func(f []shape, depth int) {
		for _, s := range f {
			n++
			id := n
			if st.ws {
				b.WriteString("\n" + strings.Repeat(" ", depth))
			}
			name := st.names[s.label]
			b.WriteString("<" + name)
			switch st.attrs {
			case 1:
				fmt.Fprintf(&b, ` x="x%d"`, id)
			case 2:
				if id%2 == 1 {
					fmt.Fprintf(&b, ` x="x%d"`, id)
				}
				if id%3 != 1 {
					fmt.Fprintf(&b, ` y='y%d'`, id)
				}
			}
			if len(s.kids) == 0 && st.text == 0 && id%3 == 0 {
				b.WriteString("/>")
				continue
			}
			b.WriteString(">")
			if st.text > 0 || len(s.kids) == 0 {
				fmt.Fprintf(&b, "t%d", id)
			}
			for i := range s.kids {
				rec(s.kids[i:i+1], depth+1)
				if st.text == 2 {
					fmt.Fprintf(&b, "u%d", id)
				}
			}
			if st.ws && len(s.kids) > 0 {
				b.WriteString("\n" + strings.Repeat(" ", depth))
			}
			b.WriteString("</" + name + ">")
		}
	}
	rec(f, 0)
	return b.String()
}

// product calls f with every sequence of the given length over alphabet indices.
func product(alpha, length int, f func(ix []int)) {
	ix := make([]int, length)
	for {
		f(ix)
		i := length - 1
		for ; i >= 0; i-- {
			if ix[i]++; ix[i] < alpha {
				break
			}
			ix[i] = 0
		}
		if i < 0 {
			return
		}
	}
}

// strs enumerates all strings over an alphabet of tokens with length 0..n.
func strs(alpha []string, n int) []string {
	out := []string{""}
	prev := out
	for i := 0; i < n; i++ {
		next := make([]string, 0, len(prev)*len(alpha))
		for _, p := range prev {
			for _, a := range alpha {
				next = append(next, p+a)
			}
		}
		out = append(out, next...)
		prev = next
	}
	return out
}

// steps enumerates every concatenation of 1..n steps.
func steps(alpha [][]Seg, n int) [][]Seg {
	var out [][]Seg
	prev := [][]Seg{nil}
	for i := 0; i < n; i++ {
		var next [][]Seg
		for _, p := range prev {
			for _, a := range alpha {
				next = append(next, cat(p, a))
			}
		}
		out = append(out, next...)
		prev = next
	}
	return out
}

func cat(parts ...[]Seg) []Seg {
	n := 0
	for _, p := range parts {
		n += len(p)
	}
	out := make([]Seg, 0, n)
	for _, p := range parts {
		out = append(out, p...)
	}
	return out
}

// withTails appends every tail to every path.
func withTails(paths [][]Seg, tails ...[]Seg) [][]Seg {
	var out [][]Seg
	for _, p := range paths {
		for _, t := range tails {
			out = append(out, cat(p, t))
		}
	}
	return out
}

func sq(s ...Seg) []Seg { return s }

type PathCase struct {
	Segs []Seg
	Text string
}

func pathCases(paths [][]Seg) []PathCase {
	out := make([]PathCase, len(paths))
	for i, p := range paths {
		out[i] = PathCase{p, render(p)}
	}
	return out
}

// sizes is a set of counts that is dense for small values and covers the
// neighbourhoods of powers of two and round limits beyond.
func sizes(dense, max int) []int {
	var out []int
	for i := 0; i <= dense && i <= max; i++ {
		out = append(out, i)
	}
	for _, c := range []int{64, 100, 128, 255, 256, 257, 500, 512, 999, 1000, 1001, 1002, 1024, 2048, 4096, 8192, 16384, 32768, 65536} {
		for _, v := range []int{c - 1, c, c + 1} {
			if v > dense && v <= max && v > out[len(out)-1] {
				out = append(out, v)
			}
		}
	}
	return out
}

// distinct drops repetitions.
func distinct(in []string) []string {
	seen := map[string]bool{}
	var out []string
	for _, s := range in {
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	return out
}
