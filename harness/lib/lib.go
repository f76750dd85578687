// Package lib is the library under test with a counter at its boundary: each
// call that the checks make is counted when it is made.
package lib

import (
	"sync/atomic"
	"unsafe"

	x "github.com/netascode/xmldot"
)

type (
	Result        = x.Result
	Type          = x.Type
	Options       = x.Options
	Modifier      = x.Modifier
	ValidateError = x.ValidateError
)

const (
	Null      = x.Null
	False     = x.False
	Number    = x.Number
	String    = x.String
	True      = x.True
	Element   = x.Element
	Attribute = x.Attribute
	Array     = x.Array
)

var (
	ErrInvalidPath  = x.ErrInvalidPath
	ErrMalformedXML = x.ErrMalformedXML
	ErrInvalidValue = x.ErrInvalidValue
)

// A Counter is spread over cache lines; goroutines are told apart by their stacks.
type Counter [64]struct {
	n atomic.Int64
	_ [56]byte
}

func (c *Counter) Add(n int) {
	var here byte
	c[uintptr(unsafe.Pointer(&here))>>12&63].n.Add(int64(n))
}

func (c *Counter) Load() (n int64) {
	for i := range c {
		n += c[i].n.Load()
	}
	return n
}

// Calls counts calls of functions and methods of the library.
var Calls Counter

func tick() { Calls.Add(1) }

func Get(doc, path string) Result                  { tick(); return x.Get(doc, path) }
func GetString(doc, path string) Result            { tick(); return x.GetString(doc, path) }
func GetBytes(doc []byte, path string) Result      { tick(); return x.GetBytes(doc, path) }
func GetMany(doc string, paths ...string) []Result { tick(); return x.GetMany(doc, paths...) }
func GetWithOptions(doc, path string, o *Options) Result {
	tick()
	return x.GetWithOptions(doc, path, o)
}
func GetStringWithOptions(doc, path string, o *Options) Result {
	tick()
	return x.GetStringWithOptions(doc, path, o)
}
func GetBytesWithOptions(doc []byte, path string, o *Options) Result {
	tick()
	return x.GetBytesWithOptions(doc, path, o)
}
func Set(doc, path string, v any) (string, error) { tick(); return x.Set(doc, path, v) }
func SetBytes(doc []byte, path string, v any) ([]byte, error) {
	tick()
	return x.SetBytes(doc, path, v)
}
func SetRaw(doc, path, raw string) (string, error) { tick(); return x.SetRaw(doc, path, raw) }
func SetMany(doc string, paths []string, vs []any) (string, error) {
	tick()
	return x.SetMany(doc, paths, vs)
}
func SetManyBytes(doc []byte, paths []string, vs []any) ([]byte, error) {
	tick()
	return x.SetManyBytes(doc, paths, vs)
}
func SetWithOptions(doc, path string, v any, o *Options) (string, error) {
	tick()
	return x.SetWithOptions(doc, path, v, o)
}
func SetBytesWithOptions(doc []byte, path string, v any, o *Options) ([]byte, error) {
	tick()
	return x.SetBytesWithOptions(doc, path, v, o)
}
func Delete(doc, path string) (string, error)             { tick(); return x.Delete(doc, path) }
func DeleteBytes(doc []byte, path string) ([]byte, error) { tick(); return x.DeleteBytes(doc, path) }
func DeleteMany(doc string, paths ...string) (string, error) {
	tick()
	return x.DeleteMany(doc, paths...)
}
func DeleteManyBytes(doc []byte, paths ...string) ([]byte, error) {
	tick()
	return x.DeleteManyBytes(doc, paths...)
}
func DeleteBytesWithOptions(doc []byte, path string, o *Options) ([]byte, error) {
	tick()
	return x.DeleteBytesWithOptions(doc, path, o)
}
func Valid(doc string) bool                       { tick(); return x.Valid(doc) }
func ValidBytes(doc []byte) bool                  { tick(); return x.ValidBytes(doc) }
func ValidateWithError(doc string) *ValidateError { tick(); return x.ValidateWithError(doc) }
func ValidateBytesWithError(doc []byte) *ValidateError {
	tick()
	return x.ValidateBytesWithError(doc)
}
func DefaultOptions() *Options                       { tick(); return x.DefaultOptions() }
func GetModifier(name string) Modifier               { tick(); return x.GetModifier(name) }
func RegisterModifier(name string, m Modifier) error { tick(); return x.RegisterModifier(name, m) }
func UnregisterModifier(name string) error           { tick(); return x.UnregisterModifier(name) }
func NewModifierFunc(name string, f func(Result) Result) Modifier {
	tick()
	return x.NewModifierFunc(name, f)
}

// Methods, as functions.

func RGet(r Result, path string) Result           { tick(); return r.Get(path) }
func RGetMany(r Result, paths ...string) []Result { tick(); return r.GetMany(paths...) }
func RGetWithOptions(r Result, path string, o *Options) Result {
	tick()
	return r.GetWithOptions(path, o)
}
func RMap(r Result) map[string]Result { tick(); return r.Map() }
func RMapWithOptions(r Result, o *Options) map[string]Result {
	tick()
	return r.MapWithOptions(o)
}
func RForEach(r Result, f func(i int, v Result) bool) { tick(); r.ForEach(f) }
func RArray(r Result) []Result                        { tick(); return r.Array() }
func RString(r Result) string                         { tick(); return r.String() }
func RInt(r Result) int64                             { tick(); return r.Int() }
func RFloat(r Result) float64                         { tick(); return r.Float() }
func RBool(r Result) bool                             { tick(); return r.Bool() }
func RValue(r Result) any                             { tick(); return r.Value() }
func RExists(r Result) bool                           { tick(); return r.Exists() }
func RIsArray(r Result) bool                          { tick(); return r.IsArray() }
func Apply(m Modifier, r Result) Result               { tick(); return m.Apply(r) }
