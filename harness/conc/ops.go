package main

import (
	"fmt"
	"sort"
	"strings"

	x "github.com/netascode/xmldot"
	"verifharness/conc/sched"
)

// Env is what the goroutines of one execution share besides the library.
type Env struct {
	res, arr, mod x.Result
	bytes         []byte
	fold          *x.Options
	indent        *x.Options
	custom        x.Modifier
	a, b          x.Modifier
}

const doc = `<r k="1"><a x="1">t<b>u</b></a><a x="2"><b>w</b><b>z</b></a><i x="3"><v>30</v></i><i x="1"><v>10</v></i><i x="2"><v>20</v></i><c><d><v>5</v></d></c><e/><p:q xmlns:p="n">ns</p:q><!--c--></r>`
const bad = "<r>\n<a></r>"

func newEnv() *Env {
	e := &Env{bytes: []byte(doc), fold: &x.Options{CaseSensitive: false}, indent: &x.Options{CaseSensitive: true, Indent: "  "}}
	e.res = x.Get(doc, "r")
	e.arr = x.Get(doc, "r.i.#(v)#")
	e.custom = x.NewModifierFunc("c", func(r x.Result) x.Result { return x.Result{Type: x.String, Str: "<" + r.Str + ">"} })
	mk := func(id string) x.Modifier {
		return x.NewModifierFunc(id, func(r x.Result) x.Result {
			sched.Yield()
			return x.Result{Type: x.String, Str: id + "(" + r.Str + ")"}
		})
	}
	e.a, e.b = mk("A"), mk("B")
	e.mod = e.arr
	return e
}

// An Op is one call of the library with what it returns.
type Op struct {
	Name string
	Run  func(e *Env) string
	// Spec gives the steps of the call on the registry (name -> modifier id);
	// nil for a call that returns the same whatever else happens.
	Spec []func(st map[string]string, acc string) string
}

func show(r x.Result) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%d %q %q %v", r.Type, r.Str, r.Raw, r.Num)
	for _, m := range r.Results {
		b.WriteString(" [" + show(m) + "]")
	}
	return b.String()
}

func showAll(rs []x.Result) string {
	var out []string
	for _, r := range rs {
		out = append(out, show(r))
	}
	return strings.Join(out, ";")
}

func showMap(m map[string]x.Result) string {
	var out []string
	for k, v := range m {
		out = append(out, k+"="+show(v))
	}
	sort.Strings(out)
	return strings.Join(out, ";")
}

func res(s string, err error) string { return fmt.Sprintf("%q %v", s, err) }

func get(p string) Op {
	return Op{Name: "Get " + p, Run: func(e *Env) string { return show(x.Get(doc, p)) }}
}

// pure are calls whose result depends on their arguments alone.
func pure() []Op {
	var out []Op
	for _, p := range []string{"r", "r.a", "r.a.b", "r.a.1.b.1", "r.a.@x", "r.i.#", "r.i.#.v", "r.i.#.@x", "r.*", "r.*.b", "r.**.v", "r.**", "r.i.#(@x>1)#.v", "r.i.#(v==10).@x", "r.i.#(v%1*)#", "r.**.#(b)#", "r.i.#(**.v>15)#.@x", "r.#(i.#(**.v).@x==3).@k", "r.a.%", "r.q", "r.p:q", "r.none.x", "", "r.a\\.b", "r.i.#(", "r.i.#.v|@reverse", "r.*.v|@sort", "r.i.#.v|@first", "r.i.#.v|@last", "r.**.v|@flatten|@sort|@last", "r.a|@pretty", "r.c|@ugly", "r.a|@none", strings.Repeat("r.", 101) + "r"} {
		out = append(out, get(p))
	}
	add := func(name string, f func(e *Env) string) { out = append(out, Op{Name: name, Run: f}) }
	add("GetBytes", func(e *Env) string { return show(x.GetBytes(e.bytes, "r.i.2.v")) })
	add("GetMany", func(e *Env) string { return showAll(x.GetMany(doc, "r.a", "r.i.#.v", "r.none", "r.e")) })
	add("GetWithOptions fold", func(e *Env) string { return show(x.GetWithOptions(doc, "R.A.B", e.fold)) })
	add("GetWithOptions filter", func(e *Env) string { return show(x.GetWithOptions(doc, "R.I.#(V>10)#.V", e.fold)) })
	add("GetBytesWithOptions", func(e *Env) string { return show(x.GetBytesWithOptions(e.bytes, "r.**.v", e.indent)) })
	add("DefaultOptions", func(e *Env) string {
		o := x.DefaultOptions()
		before := fmt.Sprintf("%+v", *o)
		o.CaseSensitive = false
		sched.Yield()
		return before + show(x.GetWithOptions(doc, "R.E", o))
	})
	add("nil options", func(e *Env) string { return show(x.GetWithOptions(doc, "R.E", nil)) })
	add("Set", func(e *Env) string { return res(x.Set(doc, "r.a.b", "<new>")) })
	add("Set same path", func(e *Env) string { return res(x.Set(doc, "r.a", 7)) })
	add("Set create", func(e *Env) string { return res(x.Set(doc, "r.n.m.o", 1.5)) })
	add("Set attribute", func(e *Env) string { return res(x.Set(doc, "r.a.1.@x", "\"q\"")) })
	add("Set new attribute", func(e *Env) string { return res(x.Set(doc, "r.e.@y", true)) })
	add("Set append", func(e *Env) string { return res(x.Set(doc, "r.i.-1", "new")) })
	add("Set nil", func(e *Env) string { return res(x.Set(doc, "r.c", nil)) })
	add("Set bad path", func(e *Env) string { return res(x.Set(doc, "r.*", "v")) })
	add("Set bad document", func(e *Env) string { return res(x.Set(bad, "r.a", "v")) })
	add("Set bad value", func(e *Env) string { return res(x.Set(doc, "r.a", struct{}{})) })
	add("Set empty", func(e *Env) string { return res(x.Set("", "n.m", "v")) })
	add("SetBytes", func(e *Env) string {
		b, err := x.SetBytes(e.bytes, "r.i.1.v", 11)
		return res(string(b), err)
	})
	add("SetRaw", func(e *Env) string { return res(x.SetRaw(doc, "r.c", "<d>1</d><d/>")) })
	add("SetRaw bad", func(e *Env) string { return res(x.SetRaw(doc, "r.c", "<d>")) })
	add("SetMany", func(e *Env) string {
		return res(x.SetMany(doc, []string{"r.a", "r.e.@z", "r.i.-1"}, []interface{}{1, "z", "n"}))
	})
	add("SetMany bad", func(e *Env) string {
		return res(x.SetMany(doc, []string{"r.a", "r.#"}, []interface{}{1, "z"}))
	})
	add("SetWithOptions indent", func(e *Env) string { return res(x.SetWithOptions(doc, "r.n.m", "v", e.indent)) })
	add("SetWithOptions fold", func(e *Env) string { return res(x.SetWithOptions(doc, "R.A.B", "v", e.fold)) })
	add("Delete", func(e *Env) string { return res(x.Delete(doc, "r.a.b")) })
	add("Delete attribute", func(e *Env) string { return res(x.Delete(doc, "r.a.@x")) })
	add("DeleteBytes", func(e *Env) string {
		b, err := x.DeleteBytes(e.bytes, "r.i.1")
		return res(string(b), err)
	})
	add("DeleteMany", func(e *Env) string { return res(x.DeleteMany(doc, "r.a.1", "r.i.0", "r.none")) })
	add("DeleteBytesWithOptions", func(e *Env) string {
		b, err := x.DeleteBytesWithOptions(e.bytes, "R.C.D", e.fold)
		return res(string(b), err)
	})
	add("Valid", func(e *Env) string { return fmt.Sprint(x.Valid(doc), x.ValidBytes(e.bytes), x.Valid(bad)) })
	add("ValidateWithError", func(e *Env) string {
		v := x.ValidateWithError(bad)
		return fmt.Sprint(x.ValidateBytesWithError(e.bytes) == nil, v.Line, v.Column, v.Message)
	})
	add("Result values", func(e *Env) string {
		r := e.arr
		return fmt.Sprint(r.Exists(), r.String(), r.Int(), r.Float(), r.Bool(), r.IsArray(), len(r.Array()), r.Value() != nil)
	})
	add("Result.ForEach", func(e *Env) string {
		var b strings.Builder
		e.arr.ForEach(func(i int, v x.Result) bool { fmt.Fprint(&b, i, v.String(), " "); sched.Yield(); return i < 1 })
		return b.String()
	})
	add("Result.Get", func(e *Env) string { return show(e.res.Get("a.1.b")) + show(e.arr.Get("v")) })
	add("Result.GetMany", func(e *Env) string { return showAll(e.res.GetMany("a.b", "i.#.v")) })
	add("Result.GetWithOptions", func(e *Env) string { return show(e.res.GetWithOptions("A.B", e.fold)) })
	add("Result.Map", func(e *Env) string { return showMap(e.res.Map()) })
	add("Result.MapWithOptions", func(e *Env) string { return showMap(e.res.MapWithOptions(e.fold)) })
	add("custom Apply", func(e *Env) string { return show(e.custom.Apply(x.Result{Type: x.String, Str: "v"})) + e.custom.Name() })
	add("built-in Apply", func(e *Env) string {
		return show(x.GetModifier("reverse").Apply(e.mod)) + show(x.GetModifier("sort").Apply(e.mod)) + show(x.GetModifier("flatten").Apply(e.mod))
	})
	return out
}

var builtins = map[string]bool{"reverse": true, "sort": true, "first": true, "last": true, "flatten": true, "pretty": true, "ugly": true}

func status(err error) string {
	if err != nil {
		return "err"
	}
	return "ok"
}

type step = func(st map[string]string, acc string) string

func reg(name, id string) Op {
	return Op{Name: "Register " + name + " " + id, Run: func(e *Env) string {
		m := e.a
		if id == "B" {
			m = e.b
		}
		return status(x.RegisterModifier(name, m))
	}, Spec: []step{func(st map[string]string, _ string) string {
		if name == "" || builtins[name] || st[name] != "" {
			return "err"
		}
		st[name] = id
		return "ok"
	}}}
}

func unreg(name string) Op {
	return Op{Name: "Unregister " + name, Run: func(e *Env) string { return status(x.UnregisterModifier(name)) },
		Spec: []step{func(st map[string]string, _ string) string {
			if builtins[name] {
				return "err"
			}
			delete(st, name)
			return "ok"
		}}}
}

func lookup(name string) Op {
	return Op{Name: "GetModifier " + name, Run: func(e *Env) string {
		m := x.GetModifier(name)
		if m == nil {
			return "nil"
		}
		return m.Name()
	}, Spec: []step{func(st map[string]string, _ string) string {
		if builtins[name] {
			return name
		}
		if st[name] == "" {
			return "nil"
		}
		return st[name]
	}}}
}

// chain queries through registered modifiers; each is looked up on its own.
func chain(names ...string) Op {
	path := "r.a.0.b"
	for _, n := range names {
		path += "|@" + n
	}
	o := Op{Name: "Get " + path, Run: func(e *Env) string {
		r := x.Get(doc, path)
		if !r.Exists() {
			return "null"
		}
		return r.Str
	}}
	for i, n := range names {
		o.Spec = append(o.Spec, func(st map[string]string, acc string) string {
			if i == 0 {
				acc = "u"
			}
			if acc == "null" || builtins[n] {
				return acc
			}
			if st[n] == "" {
				return "null"
			}
			return st[n] + "(" + acc + ")"
		})
	}
	return o
}

// many is a batch of two queries.
func many(p, q Op) Op {
	path := func(o Op) string { return strings.TrimPrefix(o.Name, "Get ") }
	val := func(r x.Result) string {
		if !r.Exists() {
			return "null"
		}
		return r.Str
	}
	return Op{Name: "GetMany " + path(p) + " " + path(q), Run: func(e *Env) string {
		r := x.GetMany(doc, path(p), path(q))
		return val(r[0]) + "," + val(r[1])
	}, Spec: []step{
		func(st map[string]string, acc string) string { return p.Spec[0](st, "") },
		func(st map[string]string, acc string) string { return acc + "," + q.Spec[0](st, "") },
	}}
}

func registryOps() []Op {
	return []Op{reg("m", "A"), reg("m", "B"), unreg("m"), lookup("m"), chain("m"), reg("n", "A"), unreg("n"), chain("m", "n"), chain("reverse", "m"), reg("reverse", "A"), unreg("reverse"), lookup("reverse"), many(chain("m"), chain("m")), many(chain("m"), chain("n")), chain("m", "m")}
}

// A Scenario is a set of goroutines with their calls.
type Scenario struct {
	Name    string
	Setup   []Op // made before, one after the other
	Filled  int  // distinct paths parsed before
	Threads [][]Op
	Bound   int // preemptions
	Fine    bool
}

func (s *Scenario) name() string {
	var t []string
	for _, th := range s.Threads {
		var o []string
		for _, op := range th {
			o = append(o, op.Name)
		}
		t = append(t, strings.Join(o, ", "))
	}
	n := strings.Join(t, " || ")
	var o []string
	for _, op := range s.Setup {
		o = append(o, op.Name)
	}
	if len(o) > 0 {
		n = strings.Join(o, ", ") + "; " + n
	}
	if s.Filled > 0 {
		n = fmt.Sprintf("%d paths; %s", s.Filled, n)
	}
	if s.Fine {
		n += " (fine)"
	}
	return n
}

// scenarios lists all scenarios of a tier, small ones first.
func scenarios(thorough bool) []*Scenario {
	var out []*Scenario
	add := func(s *Scenario) {
		s.Name = s.name()
		out = append(out, s)
	}
	more := 0
	if thorough {
		more = 1
	}
	ro := registryOps()
	for i, a := range ro {
		for _, b := range ro[i:] {
			for _, fine := range []bool{false, true} {
				add(&Scenario{Threads: [][]Op{{a}, {b}}, Bound: 2 + more, Fine: fine})
				add(&Scenario{Setup: []Op{reg("m", "A")}, Threads: [][]Op{{a}, {b}}, Bound: 2 + more, Fine: fine})
			}
		}
	}
	// every pair of calls, with the paths new and known
	po := pure()
	for i, a := range po {
		for _, b := range po[i:] {
			add(&Scenario{Threads: [][]Op{{a}, {b}}, Bound: 2})
			add(&Scenario{Setup: []Op{a, b}, Threads: [][]Op{{a}, {b}}, Bound: 1 + more})
			if thorough {
				add(&Scenario{Threads: [][]Op{{a}, {b}}, Bound: 1, Fine: true})
			}
		}
		for _, b := range []Op{reg("m", "A"), unreg("m"), chain("m")} {
			add(&Scenario{Threads: [][]Op{{a}, {b}}, Bound: 2})
		}
	}
	// three goroutines
	for i, a := range ro {
		for j, b := range ro[i:] {
			for _, c := range ro[i+j:] {
				add(&Scenario{Threads: [][]Op{{a}, {b}, {c}}, Bound: 1 + more})
			}
		}
	}
	// two calls each
	two := ro[:8]
	n := len(two)
	for k := 0; k < n*n; k++ {
		for l := k; l < n*n; l++ {
			add(&Scenario{Threads: [][]Op{{two[k/n], two[k%n]}, {two[l/n], two[l%n]}}, Bound: 1 + more})
		}
	}
	// the cache of parsed paths around its limit
	gp := []Op{get("r.a"), get("r.i.#.v"), get("r.a.b"), get("r.**.v")}
	for _, f := range []int{253, 254, 255, 256, 257} {
		for i, a := range gp {
			for _, b := range gp[i:] {
				add(&Scenario{Filled: f, Threads: [][]Op{{a, b}, {b, a}}, Bound: 1 + more})
				if thorough {
					add(&Scenario{Filled: f, Threads: [][]Op{{a}, {b}, {a, b}}, Bound: 1})
				}
			}
		}
	}
	for _, a := range gp {
		for _, b := range gp {
			for _, c := range gp {
				add(&Scenario{Threads: [][]Op{{a, b}, {c, a}}, Bound: 2, Fine: thorough})
				add(&Scenario{Threads: [][]Op{{a}, {b}, {c}}, Bound: 2, Fine: thorough})
			}
		}
	}
	return out
}
