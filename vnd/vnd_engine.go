// Package vnd is the interface between the harnesses and the symbolic engine.
// The engine intercepts every function; the bodies are never executed.
package vnd

func U8(label string) uint8                       { panic("vnd") }
func U16(label string) uint16                     { panic("vnd") }
func U32(label string) uint32                     { panic("vnd") }
func U64(label string) uint64                     { panic("vnd") }
func Bool(label string) bool                      { panic("vnd") }
func Bytes(label string, n int) []byte            { panic("vnd") }
func Choose(label string, n int) int              { panic("vnd") }
func Pick64(v uint64, max int) uint64             { panic("vnd") }
func Assume(c bool)                               { panic("vnd") }
func Assert(c bool, label string)                 { panic("vnd") }
func Reach(label string)                          { panic("vnd") }
func Param(name string, def int) int              { panic("vnd") }
func Symbolic() bool                              { panic("vnd") }
func UF(name string, data string, n int) string   { panic("vnd") }
func SetMerge(on bool)                            { panic("vnd") }
func SetSplit(bits int)                           { panic("vnd") }
func SetLazy(on bool)                             { panic("vnd") }
func SetFmt(mode int)                             { panic("vnd") }
func And(c ...bool) bool                          { panic("vnd") }
func Or(c ...bool) bool                           { panic("vnd") }
func Ite64(c bool, a, b uint64) uint64            { panic("vnd") }
func Ite8(c bool, a, b byte) byte                 { panic("vnd") }
func IteInt(c bool, a, b int) int                 { panic("vnd") }
func Same(a, b []byte) bool                       { panic("vnd") }
func SameStr(a, b string) bool                    { panic("vnd") }
func Note(s string)                               { panic("vnd") }
func Dump(s string, v interface{})                { panic("vnd") }
func Preempt(n int)                               { panic("vnd") }
func Yield()                                      { panic("vnd") }
func Races()                                      { panic("vnd") }
func Concrete(v uint64) bool                      { panic("vnd") }
func AsInt(v interface{}) (uint64, bool, bool)    { panic("vnd") }
func AsString(v interface{}) (string, bool)       { panic("vnd") }
func BinSize(v interface{}) int                   { panic("vnd") }
func BinEncode(v interface{}, big bool) []byte    { panic("vnd") }
func BinDecode(v interface{}, big bool, b []byte) { panic("vnd") }
func IsBigEndian(v interface{}) bool              { panic("vnd") }
func SliceLen(v interface{}) int                  { panic("vnd") }
func SliceSwap(v interface{}, i, j int)           { panic("vnd") }
func SetX4(on bool)                               { panic("vnd") }
