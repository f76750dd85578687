package main

import (
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"
	"unicode/utf8"

	x "verifharness/lib"
)

func init() {
	register(&Check{ID: "C20", Run: runC20, Subs: map[string]Sub{"scalar": scalarSub, "number": numberSub, "array": arraySub, "doc": docValueSub}, Notes: []string{
		"floating-point text is read as strconv.ParseFloat reads it; integers by an independent reading of the decimal grammar",
	}})
}

// decimal reads an optional sign and digits within the range of int64.
func decimal(s string) int64 {
	t, neg := s, false
	if t != "" && (t[0] == '-' || t[0] == '+') {
		neg = t[0] == '-'
		t = t[1:]
	}
	if t == "" {
		return 0
	}
	var v uint64
	for i := 0; i < len(t); i++ {
		if t[i] < '0' || t[i] > '9' {
			return 0
		}
		d := uint64(t[i] - '0')
		if v > (math.MaxUint64-d)/10 {
			return 0
		}
		v = v*10 + d
	}
	if neg {
		if v > 1<<63 {
			return 0
		}
		return -int64(v-1) - 1
	}
	if v > math.MaxInt64 {
		return 0
	}
	return int64(v)
}

func sameFloat(a, b float64) bool { return a == b || a != a && b != b }

// accessors compares every accessor with the expected conversions.
func accessors(r x.Result, t x.Type, str string, num float64, items []string) string {
	var wantStr string
	var wantInt int64
	var wantFloat float64
	var wantBool bool
	var wantValue any
	switch t {
	case x.Null:
	case x.True:
		wantStr, wantInt, wantFloat, wantBool, wantValue = str, 1, 1, true, true
	case x.False:
		wantStr, wantValue = str, false
	case x.Number:
		wantStr, wantInt, wantFloat, wantBool, wantValue = str, int64(num), num, num != 0, num
	case x.Array:
		q := make([]string, len(items))
		for i, it := range items {
			q[i] = `"` + jsonEsc(it) + `"`
		}
		wantStr = "[" + strings.Join(q, ",") + "]"
		wantValue = r.Results
	default:
		wantStr, wantInt, wantValue = str, decimal(str), str
		if f, err := strconv.ParseFloat(str, 64); err == nil {
			wantFloat = f
		}
		switch str {
		case "true", "1", "yes", "True", "YES", "t", "T":
			wantBool = true
		}
	}
	if x.RString(r) != wantStr {
		return fmt.Sprintf("String() = %q, want %q", x.RString(r), wantStr)
	}
	if fmt.Sprint(r) != wantStr {
		return fmt.Sprintf("as a Stringer %q, want %q", fmt.Sprint(r), wantStr)
	}
	if x.RInt(r) != wantInt {
		return fmt.Sprintf("Int() = %d, want %d", x.RInt(r), wantInt)
	}
	if !sameFloat(x.RFloat(r), wantFloat) {
		return fmt.Sprintf("Float() = %v, want %v", x.RFloat(r), wantFloat)
	}
	if x.RBool(r) != wantBool {
		return fmt.Sprintf("Bool() = %v, want %v", x.RBool(r), wantBool)
	}
	v := x.RValue(r)
	if f, ok := v.(float64); ok && t == x.Number {
		if !sameFloat(f, num) {
			return fmt.Sprintf("Value() = %v, want %v", v, num)
		}
	} else if !reflect.DeepEqual(v, wantValue) {
		return fmt.Sprintf("Value() = %#v, want %#v", v, wantValue)
	}
	if x.RExists(r) != (t != x.Null) {
		return fmt.Sprintf("Exists() = %v for %s", x.RExists(r), typeName(t))
	}
	if x.RIsArray(r) != (t == x.Array) {
		return fmt.Sprintf("IsArray() = %v for %s", x.RIsArray(r), typeName(t))
	}
	// Array and ForEach
	var members []x.Result
	switch t {
	case x.Null:
	case x.Array:
		members = r.Results
	default:
		members = []x.Result{r}
	}
	a := x.RArray(r)
	if len(a) != len(members) {
		return fmt.Sprintf("Array() has %d members, want %d", len(a), len(members))
	}
	for i := range a {
		if !same(a[i], members[i]) {
			return fmt.Sprintf("Array()[%d] = %s, want %s", i, full(a[i]), full(members[i]))
		}
	}
	for stop := 0; stop <= len(members); stop++ {
		var seen []int
		bad := ""
		x.RForEach(r, func(i int, v x.Result) bool {
			if i != len(seen) || i < len(members) && !same(v, members[i]) || i >= len(members) {
				bad = fmt.Sprintf("ForEach: call %d has position %d and %s", len(seen), i, full(v))
			}
			seen = append(seen, i)
			return len(seen) <= stop
		})
		if bad != "" {
			return bad
		}
		want := stop + 1
		if want > len(members) {
			want = len(members)
		}
		if len(seen) != want {
			return fmt.Sprintf("ForEach stopping after call %d of %d made %d calls", stop+1, len(members), len(seen))
		}
		if stop > 6 && stop < len(members)-2 {
			stop = len(members) - 3
		}
	}
	return ""
}

// scalarSub: text.
func scalarSub(args []string) string {
	s := args[0]
	for _, t := range []x.Type{x.String, x.Element, x.Attribute, x.True, x.False} {
		if d := accessors(x.Result{Type: t, Str: s, Raw: s}, t, s, 0, nil); d != "" {
			return typeName(t) + " " + d
		}
	}
	return accessors(x.Result{Type: x.Null, Str: s, Raw: s}, x.Null, "", 0, nil)
}

// numberSub: number.
func numberSub(args []string) string {
	f, err := strconv.ParseFloat(args[0], 64)
	if err != nil {
		return ""
	}
	return accessors(x.Result{Type: x.Number, Str: args[0], Num: f}, x.Number, args[0], f, nil)
}

// arraySub: the texts of the members; "[]" prefix marks a nested array of one.
func arraySub(args []string) string {
	r := x.Result{Type: x.Array}
	var items []string
	types := []x.Type{x.Element, x.Attribute, x.String}
	for i, a := range args {
		if !utf8.ValidString(a) {
			return ""
		}
		if t, ok := strings.CutPrefix(a, "[]"); ok {
			r.Results = append(r.Results, x.Result{Type: x.Array, Results: []x.Result{{Type: x.Element, Str: t}}})
			items = append(items, `["`+jsonEsc(t)+`"]`)
			continue
		}
		if a == "null" {
			r.Results = append(r.Results, x.Result{})
			items = append(items, "")
			continue
		}
		r.Results = append(r.Results, x.Result{Type: types[i%3], Str: a})
		items = append(items, a)
	}
	return accessors(r, x.Array, "", 0, items)
}

// docValueSub: text read from a document as element, direct text and attribute.
func docValueSub(args []string) string {
	s := args[0]
	e := xmlEsc(s)
	doc := "<r><a k=\"" + e + "\">" + e + "</a><a>" + e + "</a></r>"
	trim := strings.TrimSpace(s)
	if d := accessors(x.Get(doc, "r.a"), x.Element, trim, 0, nil); d != "" {
		return "element: " + d
	}
	if d := accessors(x.Get(doc, "r.a.%"), x.String, trim, 0, nil); d != "" {
		return "text: " + d
	}
	if d := accessors(x.Get(doc, "r.a.@k"), x.Attribute, s, 0, nil); d != "" {
		return "attribute: " + d
	}
	if d := accessors(x.Get(doc, "r.a.#"), x.Number, "2", 2, nil); d != "" {
		return "count: " + d
	}
	if d := accessors(x.Get(doc, "r.b"), x.Null, "", 0, nil); d != "" {
		return "missing: " + d
	}
	if !utf8.ValidString(s) {
		return ""
	}
	if d := accessors(x.Get(doc, "r.*"), x.Array, "", 0, []string{trim, trim}); d != "" {
		return "wildcard: " + d
	}
	return accessors(x.Get(doc, "r.a.#.@k"), x.Array, "", 0, []string{s})
}

func runC20(c *Ctx) {
	n := 5
	if c.thorough {
		n = 6
	}
	do := func(sub string, args ...string) {
		c.Do(sub, args...)
	}
	// all texts over digits, signs and exponents
	for l := 0; l <= n; l++ {
		words(c, strings.Split("019-+.eE _x", ""), l, func(w int, b []byte) { c.State("scalar", string(b)); do("scalar", string(b)) })
		words(c, strings.Split("trueTRyYsS10 ", ""), l-1+(l+n)/(2*n), func(w int, b []byte) { c.State("scalar", string(b)); do("scalar", string(b)) })
		if l < n {
			words(c, strings.Split("019-+.eE 'x", ""), l, func(w int, b []byte) { c.State("doc", string(b)); do("doc", string(b)) })
			words(c, []string{`"`, `\`, "a", "é", "<", "&", " ", "1", ","}, l, func(w int, b []byte) { c.State("doc", string(b)); do("doc", string(b)) })
		}
	}
	// words and limits, with every one-character edit
	base := []string{"true", "false", "True", "TRUE", "yes", "YES", "Yes", "y", "Y", "t", "T", "on", "ON", "1", "0", "no", "null", "nil", "NaN", "nan", "Inf", "-Inf", "+inf", "infinity", "0x10", "0b1", "0o7", "1_000", "1,5", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551616", "1.7976931348623157e308", "1.8e308", "-1e999", "4.9e-324", "1e-400", "00012", "+5", "--5", "1e3", "0x1p-2", "1.", ".5", "٣", "１", "true\n", "\ttrue", "1 2"}
	var edits []string
	for _, b := range base {
		edits = append(edits, b)
		for i := 0; i <= len(b); i++ {
			for ch := 0; ch < 256; ch++ {
				edits = append(edits, b[:i]+string([]byte{byte(ch)})+b[i:])
				if i < len(b) {
					edits = append(edits, b[:i]+string([]byte{byte(ch)})+b[i+1:])
				}
			}
			if i < len(b) {
				edits = append(edits, b[:i]+b[i+1:])
			}
		}
	}
	for k := 0; k < 64; k++ {
		v := uint64(1) << k
		for _, o := range []uint64{v - 1, v, v + 1} {
			edits = append(edits, strconv.FormatUint(o, 10), "-"+strconv.FormatUint(o, 10), strconv.FormatUint(o, 10)+".5")
		}
	}
	for k := 1; k < 420; k++ {
		edits = append(edits, strings.Repeat("9", k), "1"+strings.Repeat("0", k), "0."+strings.Repeat("0", k)+"1", fmt.Sprint("1e", k), fmt.Sprint("1e-", k), strings.Repeat("0", k)+"7")
	}
	Each(c, edits, func(w int, s string) {
		c.State("scalar", s)
		c.State("doc", s)
		do("scalar", s)
		do("doc", s)
	})
	c.Sample("all texts of up to %d of %q as String, Element, Attribute", n, "019-+.eE _x")
	// numbers
	nums := []string{"0", "-0", "1", "-1", "0.5", "-0.5", "1e300", "-1e300", "9.3e18", "5e-324", "0.9999999", "1e15", "NaN", "Inf"}
	for i := -1000; i <= 1000; i++ {
		nums = append(nums, strconv.Itoa(i), fmt.Sprint(float64(i)/16))
	}
	Each(c, nums, func(w int, s string) {
		f, _ := strconv.ParseFloat(s, 64)
		if math.Abs(f) > 9e18 || f != f {
			return // conversion outside the range of int64 is up to the platform
		}
		c.State("n", s)
		do("number", s)
	})
	// all arrays
	pieces := []string{"", "a", `"`, `\`, `\"`, `a"b`, "é", ",", "[]x", "null", "1", "]"}
	m := 4
	if c.thorough {
		m = 5
	}
	for l := 0; l <= m; l++ {
		var lists [][]string
		product(len(pieces), l, func(ix []int) {
			q := make([]string, l)
			for i, k := range ix {
				q[i] = pieces[k]
			}
			lists = append(lists, q)
		})
		Each(c, lists, func(w int, q []string) { c.States(1); do("array", q...) })
	}
	var lists [][]string
	for _, k := range append(sizes(130, 1000), lattice(13)...) {
		q := make([]string, k)
		for i := range q {
			q[i] = fmt.Sprint("v", i)
		}
		lists = append(lists, q)
	}
	Each(c, lists, func(w int, q []string) { c.State(q...); do("array", q...) })
}
