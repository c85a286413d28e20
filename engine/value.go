package main

// Values, layouts, heap.

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Value is one of: *Term, Ptr, Slice, *Str, Iface, *Closure, MapRef, ChanRef,
// Agg (flattened struct/array), Tuple, or nil (zero of the static type).
type Value interface{}

type ObjID int32

type Ptr struct {
	Obj ObjID // 0 = nil
	Off int32
	// symbolic element index: address = Off + Idx*Stride, Idx in [0,N)
	Idx    *Term
	Stride int32
	N      int32
}

type Slice struct {
	Obj           ObjID // 0 = nil slice
	Off, Len, Cap int32 // Off in cells; Len, Cap in elements
}

type Str struct {
	conc bool
	s    string
	b    []*Term
}

type Iface struct {
	T types.Type // nil = nil interface
	V Value
}

type Closure struct {
	Fn   *ssa.Function
	Free []Value
}

type MapRef struct{ Obj ObjID }
type ChanRef struct{ Obj ObjID }
type Agg []Value
type Tuple []Value

// iterator for range over map/string
type Iter struct {
	isStr bool
	str   *Str
	keys  []Agg
	pos   int
	obj   ObjID
}

func (s *Str) Len() int {
	if s.conc {
		return len(s.s)
	}
	return len(s.b)
}

func (in *Interp) mkStr(b []*Term) *Str {
	conc := true
	for _, t := range b {
		if t.Op != OConst {
			conc = false
			break
		}
	}
	if conc {
		bs := make([]byte, len(b))
		for i, t := range b {
			bs[i] = byte(t.C)
		}
		return &Str{conc: true, s: string(bs)}
	}
	return &Str{b: b}
}

func (in *Interp) strBytes(s *Str) []*Term {
	if !s.conc {
		return s.b
	}
	out := make([]*Term, len(s.s))
	for i := 0; i < len(s.s); i++ {
		out[i] = in.c.Const(8, uint64(s.s[i]))
	}
	return out
}

var emptyStr = &Str{conc: true}

// ---- layout

type layout struct {
	n      int   // cells
	fields []int // struct field offsets
	elem   *layout
	isAgg  bool
	kinds  []cellKind // one per cell for aggregates of moderate size
	kind   cellKind   // scalar
	zero   Agg
}

type cellKind struct {
	k byte // 'i' int/bool, 's' string, 'p' pointer, 'l' slice, 'f' iface, 'c' func, 'm' map, 'h' chan, 'u' unsafe pointer
	w int  // width for 'i'
}

func (in *Interp) layoutOf(t types.Type) *layout {
	if l, ok := in.layouts[t]; ok {
		return l
	}
	l := &layout{}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		l.isAgg = true
		for i := 0; i < u.NumFields(); i++ {
			fl := in.layoutOf(u.Field(i).Type())
			l.fields = append(l.fields, l.n)
			l.n += fl.n
			l.kinds = append(l.kinds, in.kindsOf(fl)...)
		}
	case *types.Array:
		l.isAgg = true
		el := in.layoutOf(u.Elem())
		l.elem = el
		l.n = int(u.Len()) * el.n
		if l.n <= 1<<22 {
			ks := in.kindsOf(el)
			for i := int64(0); i < u.Len(); i++ {
				l.kinds = append(l.kinds, ks...)
			}
		}
	case *types.Tuple:
		l.isAgg = true
		l.n = u.Len()
	default:
		l.n = 1
		l.kind = in.scalarKind(t)
	}
	in.layouts[t] = l
	return l
}

func (in *Interp) kindsOf(l *layout) []cellKind {
	if l.isAgg {
		return l.kinds
	}
	return []cellKind{l.kind}
}

func (in *Interp) scalarKind(t types.Type) cellKind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return cellKind{'i', 0}
		case types.Int8, types.Uint8:
			return cellKind{'i', 8}
		case types.Int16, types.Uint16:
			return cellKind{'i', 16}
		case types.Int32, types.Uint32, types.UntypedRune:
			return cellKind{'i', 32}
		case types.Int, types.Uint, types.Int64, types.Uint64, types.Uintptr, types.UntypedInt:
			return cellKind{'i', 64}
		case types.String, types.UntypedString:
			return cellKind{'s', 0}
		case types.UnsafePointer:
			return cellKind{'p', 0}
		case types.Float64, types.Float32, types.UntypedFloat:
			return cellKind{'F', 64}
		case types.UntypedNil:
			return cellKind{'p', 0}
		}
		return cellKind{'?', 0}
	case *types.Pointer:
		return cellKind{'p', 0}
	case *types.Slice:
		return cellKind{'l', 0}
	case *types.Interface:
		return cellKind{'f', 0}
	case *types.Signature:
		return cellKind{'c', 0}
	case *types.Map:
		return cellKind{'m', 0}
	case *types.Chan:
		return cellKind{'h', 0}
	case *types.TypeParam:
		panic(unsupported("type parameter"))
	}
	panic(unsupported(fmt.Sprintf("type %v", t)))
}

func (in *Interp) zeroOf(k cellKind) Value {
	switch k.k {
	case 'i':
		if k.w == 0 {
			return in.c.False
		}
		return in.c.Const(k.w, 0)
	case 's':
		return emptyStr
	case 'p':
		return Ptr{}
	case 'l':
		return Slice{}
	case 'f':
		return Iface{}
	case 'c':
		return (*Closure)(nil)
	case 'm':
		return MapRef{}
	case 'h':
		return ChanRef{}
	case 'F':
		return float64(0)
	}
	panic(unsupported("zero of unknown kind"))
}

func (in *Interp) zeroValue(t types.Type) Value {
	if tt, ok := t.(*types.Tuple); ok {
		r := make(Tuple, tt.Len())
		for i := range r {
			r[i] = in.zeroValue(tt.At(i).Type())
		}
		return r
	}
	l := in.layoutOf(t)
	if !l.isAgg {
		return in.zeroOf(l.kind)
	}
	r := make(Agg, l.n)
	for i := range r {
		r[i] = in.zeroOf(l.kinds[i])
	}
	return r
}

// ---- heap

const pageSize = 64
const chunkSize = 128

type page struct {
	owner *htok
	v     [pageSize]Value
}

type object struct {
	owner *htok
	n     int32 // cells
	pages []*page
	// maps
	isMap bool
	ents  []mapEnt
	// channels
	isChan   bool
	chBuf    []Value
	chCap    int
	chClosed bool
	// tag: description for debugging / frozen flag
	tag   string
	align int
}

type mapEnt struct {
	key Agg
	val Agg
}

type chunk struct {
	owner *htok
	objs  [chunkSize]*object
}

type htok struct{ _ int }

type heap struct {
	chunks []*chunk
	tok    *htok
	next   ObjID // next id in current chunk
	end    ObjID
}

func (h *heap) get(id ObjID) *object {
	ci := int(id) / chunkSize
	if ci >= len(h.chunks) {
		return nil
	}
	c := h.chunks[ci]
	if c == nil {
		return nil
	}
	return c.objs[int(id)%chunkSize]
}

func (h *heap) set(id ObjID, o *object) {
	ci := int(id) / chunkSize
	for ci >= len(h.chunks) {
		h.chunks = append(h.chunks, nil)
	}
	c := h.chunks[ci]
	if c == nil {
		c = &chunk{owner: h.tok}
		h.chunks[ci] = c
	} else if c.owner != h.tok {
		n := &chunk{owner: h.tok, objs: c.objs}
		c = n
		h.chunks[ci] = c
	}
	c.objs[int(id)%chunkSize] = o
}

// writable returns a version of the object owned by this state.
func (h *heap) writable(id ObjID) *object {
	o := h.get(id)
	if o == nil {
		panic("writable: no object")
	}
	if o.owner == h.tok {
		return o
	}
	n := *o
	n.owner = h.tok
	n.pages = append([]*page(nil), o.pages...)
	if o.isMap {
		n.ents = append([]mapEnt(nil), o.ents...)
	}
	if o.isChan {
		n.chBuf = append([]Value(nil), o.chBuf...)
	}
	h.set(id, &n)
	return &n
}

func (h *heap) alloc(in *Interp, ncells int) ObjID {
	if h.next == h.end {
		h.next = ObjID(in.nextChunk * chunkSize)
		h.end = h.next + chunkSize
		in.nextChunk++
	}
	id := h.next
	h.next++
	h.set(id, &object{owner: h.tok, n: int32(ncells), pages: make([]*page, (ncells+pageSize-1)/pageSize)})
	return id
}

func (h *heap) clone() heap {
	n := heap{chunks: append([]*chunk(nil), h.chunks...), tok: &htok{}}
	// the original continues with a fresh token as well
	h.tok = &htok{}
	// leave the current chunk to the original; the clone reserves a new one
	n.next, n.end = 0, 0
	return n
}

func (o *object) load(i int32) Value {
	p := o.pages[i/pageSize]
	if p == nil {
		return nil
	}
	return p.v[i%pageSize]
}

func (h *heap) store(o *object, i int32, v Value) {
	pi := i / pageSize
	p := o.pages[pi]
	if p == nil {
		p = &page{owner: h.tok}
		o.pages[pi] = p
	} else if p.owner != h.tok {
		p = &page{owner: h.tok, v: p.v}
		o.pages[pi] = p
	}
	p.v[i%pageSize] = v
}
