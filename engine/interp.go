package main

// The symbolic interpreter: instruction execution.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Options struct {
	QueryTimeout time.Duration
	MaxSteps     int64
	MaxPaths     int
	Deadline     time.Time
	Params       map[string]int64
	X4           bool
	Align        int
	Sponge       bool // SHAKE as a sponge over an uninterpreted permutation
	Concrete     map[string]uint64
	Trace        bool
	Preempt      int
	SortStable   bool
}

// softDeadline ends all jobs of a check: once one of them found a violation
// the others get little more time.
var softDeadline int64 = 1<<63 - 1

func softStop(d time.Duration) {
	t := time.Now().Add(d).UnixNano()
	for {
		old := atomic.LoadInt64(&softDeadline)
		if old <= t || atomic.CompareAndSwapInt64(&softDeadline, old, t) {
			return
		}
	}
}

type Violation struct {
	Kind   string // assert, panic, deadlock, race
	Label  string
	Pos    string
	Values map[string]uint64
	Notes  []string
	Trace  []string
}

type Stats struct {
	Paths       int
	Merges      int
	Steps       int64
	Forks       int
	Asserts     int
	Discharged  int // by the solver or by term rewriting
	Syntactic   int // of those, closed by term rewriting alone
	Unknowns    int
	PathsCut    int
	Funcs       map[string]int
	Reached     map[string]int
	AssertLabel map[string]int
}

type Interp struct {
	c          *TermCtx
	sol        *Solver
	prog       *Program
	opt        Options
	layouts    map[types.Type]*layout
	fns        map[*ssa.Function]*FnInfo
	nextChunk  int
	globals    map[*ssa.Global]ObjID
	inited     map[*ssa.Package]bool
	work       []*State
	viols      []*Violation
	violKey    map[string]bool
	st         Stats
	problems   map[string]int // unsupported constructs, unknown results
	frameSeq   int64
	fmtMode    int
	concHash   bool
	witness    map[string]map[string]uint64 // passing path -> nondet values
	redirects  map[string]*ssa.Function
	methCache  map[methKey]*ssa.Function
	rtErr      types.Type
	stopAll    bool
	depth      int
	maxViol    int
	noted      map[string]bool
	lastFork   string
	instrCount map[string]int64
	prof       bool
	samples    []string
	curPos     token.Pos
	booting    bool
	outOfMem   int32
}

type methKey struct {
	t    types.Type
	name string
}

func NewInterp(p *Program, opt Options) *Interp {
	in := &Interp{prog: p, opt: opt, concHash: opt.Params["conc"] != 0}
	in.c = NewTermCtx()
	in.sol = NewSolver(in.c)
	in.layouts = map[types.Type]*layout{}
	in.fns = map[*ssa.Function]*FnInfo{}
	in.nextChunk = 1
	in.globals = map[*ssa.Global]ObjID{}
	in.inited = map[*ssa.Package]bool{}
	in.violKey = map[string]bool{}
	in.problems = map[string]int{}
	in.witness = map[string]map[string]uint64{}
	in.methCache = map[methKey]*ssa.Function{}
	in.st.Funcs = map[string]int{}
	in.st.Reached = map[string]int{}
	in.st.AssertLabel = map[string]int{}
	in.maxViol = 3
	in.noted = map[string]bool{}
	return in
}

var buildMu sync.Mutex

func (in *Interp) constValue(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		if tp, ok := t.Underlying().(*types.Tuple); ok {
			return in.zeroValue(tp)
		}
		return in.zeroValue(t)
	}
	k := in.scalarKind(t)
	switch k.k {
	case 'i':
		if k.w == 0 {
			return in.c.Bool(constant.BoolVal(c.Value))
		}
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return in.c.Const(k.w, uint64(i))
		}
		u, _ := constant.Uint64Val(v)
		return in.c.Const(k.w, u)
	case 's':
		return &Str{conc: true, s: constant.StringVal(c.Value)}
	case 'F':
		f, _ := constant.Float64Val(c.Value)
		return f
	}
	panic(unsupported("constant " + c.String()))
}

// initialisable lists packages whose init functions are run.
var initPkgs = map[string]bool{
	"errors": true, "io": true, "strings": true, "bytes": true, "strconv": true,
	"encoding/hex": true, "encoding/base64": true, "container/heap": true,
	"github.com/hashicorp/go-multierror": true, "github.com/hashicorp/errwrap": true,
	"github.com/bwesterb/byteswriter": true, "math/bits": true, "unicode/utf8": true,
	"encoding/binary": true, "io/fs": true, "internal/oserror": true, "path/filepath": true, "path": true,
	"bufio": true, "internal/filepathlite": true, "internal/bytealg": true, "slices": true, "encoding": true, "hash": true,
}

func (in *Interp) mayInit(path string) bool {
	return initPkgs[path] || path == modPath || strings.HasPrefix(path, modPath+"/")
}

func (in *Interp) globalObj(st *State, g *ssa.Global) ObjID {
	id, ok := in.globals[g]
	if !ok {
		if g.Pkg != nil && !in.mayInit(g.Pkg.Pkg.Path()) && !okGlobals[g.String()] {
			panic(unsupported("global " + g.String()))
		}
		id = ObjID(in.nextChunk * chunkSize)
		in.nextChunk++
		in.globals[g] = id
	}
	if st.heap.get(id) == nil {
		l := in.layoutOf(g.Type().(*types.Pointer).Elem())
		st.heap.set(id, &object{owner: st.heap.tok, n: int32(l.n), pages: make([]*page, (l.n+pageSize-1)/pageSize), tag: g.String()})
	}
	return id
}

var okGlobals = map[string]bool{
	"golang.org/x/sys/cpu.X86": true,
}

func (in *Interp) val(st *State, f *Frame, o *opnd) Value {
	switch o.kind {
	case 'r':
		return f.regs[o.idx]
	case 'g':
		return Ptr{Obj: in.globalObj(st, o.glob)}
	}
	return o.val
}

func (in *Interp) term(st *State, f *Frame, o *opnd) *Term {
	v := in.val(st, f, o)
	t, ok := v.(*Term)
	if !ok {
		panic(unsupported(fmt.Sprintf("expected integer, got %T", v)))
	}
	return t
}

// ---- memory

func (in *Interp) loadCell(st *State, o *object, i int32, k cellKind) Value {
	if i < 0 || i >= o.n {
		panic(fmt.Sprintf("engine: cell %d out of object of %d (%s)", i, o.n, o.tag))
	}
	v := o.load(i)
	if v == nil {
		return in.zeroOf(k)
	}
	return v
}

func (in *Interp) load(st *State, p Ptr, t types.Type) Value {
	if p.Obj == 0 {
		panic("engine: load through nil")
	}
	o := st.heap.get(p.Obj)
	if o == nil {
		panic(unsupported("load from freed object"))
	}
	l := in.layoutOf(t)
	ks := l.kinds
	if !l.isAgg {
		ks = []cellKind{l.kind}
	}
	n := int32(l.n)
	if p.Idx != nil {
		// symbolic element: build an ite chain for each cell
		r := make(Agg, n)
		for c := int32(0); c < n; c++ {
			var acc Value
			for e := p.N - 1; e >= 0; e-- {
				v := in.loadCell(st, o, p.Off+e*p.Stride+c, ks[c])
				if acc == nil {
					acc = v
					continue
				}
				m, ok := in.iteVal(in.c.Eq(p.Idx, in.c.Const(p.Idx.W, uint64(e))), v, acc)
				if !ok {
					in.concretize(st, p.Idx, 64)
					panic(unsupported("symbolic index over unmergeable values"))
				}
				acc = m
			}
			r[c] = acc
		}
		if !l.isAgg {
			return r[0]
		}
		return r
	}
	if !l.isAgg {
		v := in.loadCell(st, o, p.Off, l.kind)
		if _, ok := v.(poison); ok {
			panic(unsupported("use of a merged string"))
		}
		return v
	}
	r := make(Agg, n)
	for c := int32(0); c < n; c++ {
		r[c] = in.loadCell(st, o, p.Off+c, ks[c])
	}
	return r
}

func (in *Interp) store(st *State, p Ptr, v Value) {
	if p.Obj == 0 {
		panic("engine: store through nil")
	}
	o := st.heap.get(p.Obj)
	if o == nil {
		panic(unsupported("store to freed object"))
	}
	if p.Idx != nil {
		var vals Agg
		if a, ok := v.(Agg); ok {
			vals = a
		} else {
			vals = Agg{v}
		}
		type w struct {
			i int32
			v Value
		}
		var ws []w
		for e := int32(0); e < p.N; e++ {
			cond := in.c.Eq(p.Idx, in.c.Const(p.Idx.W, uint64(e)))
			for c := range vals {
				i := p.Off + e*p.Stride + int32(c)
				old := o.load(i)
				if old == nil {
					old = in.zeroLike(vals[c])
				}
				m, ok := in.iteVal(cond, vals[c], old)
				if !ok {
					in.concretize(st, p.Idx, 64)
					panic(unsupported("symbolic store of unmergeable values"))
				}
				ws = append(ws, w{i, m})
			}
		}
		o = st.heap.writable(p.Obj)
		for _, x := range ws {
			st.heap.store(o, x.i, x.v)
		}
		return
	}
	o = st.heap.writable(p.Obj)
	if a, ok := v.(Agg); ok {
		for i, x := range a {
			st.heap.store(o, p.Off+int32(i), x)
		}
		return
	}
	st.heap.store(o, p.Off, v)
}

func (in *Interp) zeroLike(v Value) Value {
	switch x := v.(type) {
	case *Term:
		if x.W == 0 {
			return in.c.False
		}
		return in.c.Const(x.W, 0)
	case Ptr:
		return Ptr{}
	case Slice:
		return Slice{}
	case *Str, poison:
		return emptyStr
	case Iface:
		return Iface{}
	case *Closure:
		return (*Closure)(nil)
	case MapRef:
		return MapRef{}
	case ChanRef:
		return ChanRef{}
	case float64:
		return float64(0)
	}
	panic(unsupported("zeroLike"))
}

// iteVal merges two values under a condition.
func (in *Interp) iteVal(cond *Term, a, b Value) (Value, bool) {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok || x.W != y.W {
			return nil, false
		}
		return in.c.Ite(cond, x, y), true
	case Agg:
		y, ok := b.(Agg)
		if !ok || len(x) != len(y) {
			return nil, false
		}
		var r Agg
		for i := range x {
			m, ok := in.iteVal(cond, x[i], y[i])
			if !ok {
				return nil, false
			}
			if r == nil {
				r = make(Agg, len(x))
			}
			r[i] = m
		}
		if r == nil {
			r = Agg{}
		}
		return r, true
	case Tuple:
		y, ok := b.(Tuple)
		if !ok || len(x) != len(y) {
			return nil, false
		}
		r := make(Tuple, len(x))
		for i := range x {
			m, ok := in.iteVal(cond, x[i], y[i])
			if !ok {
				return nil, false
			}
			r[i] = m
		}
		return r, true
	case *Str:
		y, ok := b.(*Str)
		if !ok || x.Len() != y.Len() {
			return nil, false
		}
		if x == y || (x.conc && y.conc && x.s == y.s) {
			return x, true
		}
		xb, yb := in.strBytes(x), in.strBytes(y)
		r := make([]*Term, len(xb))
		for i := range xb {
			r[i] = in.c.Ite(cond, xb[i], yb[i])
		}
		return in.mkStr(r), true
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			return nil, false
		}
		if x.T == nil && y.T == nil {
			return x, true
		}
		if x.T == nil || y.T == nil || !types.Identical(x.T, y.T) {
			return nil, false
		}
		m, ok := in.iteVal(cond, x.V, y.V)
		if !ok {
			return nil, false
		}
		return Iface{x.T, m}, true
	case *Closure:
		y, ok := b.(*Closure)
		if !ok {
			return nil, false
		}
		if x == y {
			return x, true
		}
		if x == nil || y == nil || x.Fn != y.Fn || len(x.Free) != len(y.Free) {
			return nil, false
		}
		r := &Closure{Fn: x.Fn}
		for i := range x.Free {
			m, ok := in.iteVal(cond, x.Free[i], y.Free[i])
			if !ok {
				return nil, false
			}
			r.Free = append(r.Free, m)
		}
		return r, true
	case Ptr:
		y, ok := b.(Ptr)
		if ok && x == y {
			return x, true
		}
		return nil, false
	case *Iter:
		return nil, a == b
	case nil:
		return nil, b == nil
	default:
		if a == b {
			return a, true
		}
		return nil, false
	}
}

func (in *Interp) newObj(st *State, t types.Type) Ptr {
	l := in.layoutOf(t)
	return Ptr{Obj: st.heap.alloc(in, l.n)}
}

// newArray allocates n elements of el.
func (in *Interp) newArray(st *State, el types.Type, n int) Slice {
	l := in.layoutOf(el)
	if n*l.n > 1<<24 {
		panic(unsupported("huge allocation"))
	}
	id := st.heap.alloc(in, n*l.n)
	return Slice{Obj: id, Len: int32(n), Cap: int32(n)}
}

func (in *Interp) elemSize(t types.Type) int32 {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return int32(in.layoutOf(u.Elem()).n)
	case *types.Array:
		return int32(in.layoutOf(u.Elem()).n)
	case *types.Pointer:
		return in.elemSize(u.Elem())
	}
	panic("elemSize")
}

// bytesOf returns the byte terms of a []byte slice.
func (in *Interp) bytesOf(st *State, s Slice) []*Term {
	if s.Len == 0 {
		return nil
	}
	o := st.heap.get(s.Obj)
	out := make([]*Term, s.Len)
	z := in.c.Const(8, 0)
	for i := int32(0); i < s.Len; i++ {
		v := o.load(s.Off + i)
		if v == nil {
			out[i] = z
		} else {
			out[i] = v.(*Term)
		}
	}
	return out
}

func (in *Interp) newBytes(st *State, b []*Term) Slice {
	id := st.heap.alloc(in, len(b))
	o := st.heap.get(id)
	for i, t := range b {
		st.heap.store(o, int32(i), t)
	}
	return Slice{Obj: id, Len: int32(len(b)), Cap: int32(len(b))}
}

// ---- stepping

func (in *Interp) set(st *State, f *Frame, ci *cinstr, v Value) {
	if ci.dst >= 0 {
		f.regs[ci.dst] = v
	}
	f.pc++
}

func (in *Interp) tick(st *State) {
	st.steps++
	in.st.Steps++
	if in.st.Steps&4095 == 0 {
		if now := time.Now(); now.After(in.opt.Deadline) || now.UnixNano() > atomic.LoadInt64(&softDeadline) {
			panic(budgetErr{"time"})
		}
		if atomic.LoadInt32(&in.outOfMem) != 0 {
			panic(budgetErr{"memory"})
		}
		if in.opt.MaxSteps > 0 && in.st.Steps > in.opt.MaxSteps {
			panic(budgetErr{"steps"})
		}
	}
}

type budgetErr struct{ what string }

func (in *Interp) step(st *State) {
	f := st.wtop()
	cb := &f.fi.blocks[f.block]
	ci := &cb.ins[f.pc]
	in.tick(st)
	if p := ci.ins.Pos(); p.IsValid() {
		in.curPos = p
	}
	c := in.c
	switch x := ci.ins.(type) {
	case *ssa.BinOp:
		a, b := in.val(st, f, &ci.ops[0]), in.val(st, f, &ci.ops[1])
		v := in.binop(st, x.Op, a, b, x.X.Type(), x.Y.Type())
		if v == nil {
			return // panicked
		}
		in.set(st, f, ci, v)
	case *ssa.UnOp:
		in.unop(st, f, ci, x)
	case *ssa.If:
		cond := in.simp(st, in.term(st, f, &ci.ops[0]))
		if !cond.IsConst() {
			if st.split > 0 && (st.lastSplit == 0 || st.lastSplit+1 != st.steps) {
				if t := in.cut(cond, st.split); t != nil {
					in.splitOn(st, t)
				}
			}
			cond = in.c.Bool(in.branch(st, cond))
		}
		b := x.Block()
		if cond == c.True {
			in.jump(st, f, b.Succs[0].Index)
		} else {
			in.jump(st, f, b.Succs[1].Index)
		}
	case *ssa.Jump:
		in.jump(st, f, x.Block().Succs[0].Index)
	case *ssa.Return:
		var v Value
		switch len(ci.ops) {
		case 0:
		case 1:
			v = in.val(st, f, &ci.ops[0])
		default:
			t := make(Tuple, len(ci.ops))
			for i := range ci.ops {
				t[i] = in.val(st, f, &ci.ops[i])
			}
			v = t
		}
		in.doReturn(st, f, v)
	case *ssa.Call:
		in.call(st, f, ci, &x.Call)
	case *ssa.Alloc:
		t := x.Type().(*types.Pointer).Elem()
		p := in.newObj(st, t)
		if !x.Heap {
			f.locals = append(f.locals, p.Obj)
		}
		in.set(st, f, ci, p)
	case *ssa.Store:
		p := in.val(st, f, &ci.ops[0]).(Ptr)
		if !in.checkNil(st, p) {
			return
		}
		v := in.val(st, f, &ci.ops[1])
		in.raceAccess(st, p, true, x.Val.Type())
		in.store(st, p, v)
		f.pc++
	case *ssa.FieldAddr:
		p := in.val(st, f, &ci.ops[0]).(Ptr)
		if !in.checkNil(st, p) {
			return
		}
		l := in.layoutOf(x.X.Type().Underlying().(*types.Pointer).Elem())
		p.Off += int32(l.fields[x.Field])
		in.set(st, f, ci, p)
	case *ssa.Field:
		a := in.val(st, f, &ci.ops[0]).(Agg)
		l := in.layoutOf(x.X.Type())
		fl := in.layoutOf(x.Type())
		off := l.fields[x.Field]
		if fl.isAgg {
			in.set(st, f, ci, append(Agg(nil), a[off:off+fl.n]...))
		} else {
			in.set(st, f, ci, a[off])
		}
	case *ssa.IndexAddr:
		in.indexAddr(st, f, ci, x)
	case *ssa.Index:
		in.indexVal(st, f, ci, x)
	case *ssa.Slice:
		in.slice(st, f, ci, x)
	case *ssa.Phi:
		panic("engine: phi reached")
	case *ssa.ChangeType:
		in.set(st, f, ci, in.val(st, f, &ci.ops[0]))
	case *ssa.Convert:
		v := in.convert(st, in.val(st, f, &ci.ops[0]), x.X.Type(), x.Type())
		in.set(st, f, ci, v)
	case *ssa.MultiConvert:
		panic(unsupported("multiconvert"))
	case *ssa.ChangeInterface:
		in.set(st, f, ci, in.val(st, f, &ci.ops[0]))
	case *ssa.MakeInterface:
		in.set(st, f, ci, Iface{T: x.X.Type(), V: in.val(st, f, &ci.ops[0])})
	case *ssa.MakeClosure:
		cl := &Closure{Fn: x.Fn.(*ssa.Function)}
		for i := 1; i < len(ci.ops); i++ {
			cl.Free = append(cl.Free, in.val(st, f, &ci.ops[i]))
		}
		in.set(st, f, ci, cl)
	case *ssa.MakeSlice:
		n := in.term(st, f, &ci.ops[0])
		cp := in.term(st, f, &ci.ops[1])
		n = in.toInt64(n, x.Len.Type())
		cp = in.toInt64(cp, x.Cap.Type())
		if !in.branch(st, c.And(c.Sle(c.Const(64, 0), n), c.Sle(n, cp), c.Ule(cp, c.Const(64, 1<<40)))) {
			in.rtPanic(st, "makeslice: len out of range")
			return
		}
		nn := in.concretize(st, n, 256)
		cc := in.concretize(st, cp, 256)
		if cc > 1<<24 {
			panic(unsupported("huge make"))
		}
		s := in.newArray(st, x.Type().Underlying().(*types.Slice).Elem(), int(cc))
		s.Len = int32(nn)
		in.set(st, f, ci, s)
	case *ssa.MakeMap:
		id := st.heap.alloc(in, 0)
		st.heap.get(id).isMap = true
		in.set(st, f, ci, MapRef{id})
	case *ssa.MakeChan:
		n := in.concretize(st, in.term(st, f, &ci.ops[0]), 64)
		id := st.heap.alloc(in, 0)
		o := st.heap.get(id)
		o.isChan = true
		o.chCap = int(n)
		in.set(st, f, ci, ChanRef{id})
	case *ssa.MapUpdate:
		in.mapUpdate(st, f, ci, x)
	case *ssa.Lookup:
		in.lookup(st, f, ci, x)
	case *ssa.Extract:
		in.set(st, f, ci, in.val(st, f, &ci.ops[0]).(Tuple)[x.Index])
	case *ssa.TypeAssert:
		in.typeAssert(st, f, ci, x)
	case *ssa.Range:
		v := in.val(st, f, &ci.ops[0])
		it := &Iter{}
		switch y := v.(type) {
		case *Str:
			it.isStr = true
			it.str = y
		case MapRef:
			it.obj = y.Obj
			if y.Obj != 0 {
				for _, e := range st.heap.get(y.Obj).ents {
					it.keys = append(it.keys, e.key)
				}
			}
		}
		in.set(st, f, ci, it)
	case *ssa.Next:
		in.next(st, f, ci, x)
	case *ssa.Panic:
		v := in.val(st, f, &ci.ops[0])
		in.startPanic(st, v, in.describePanic(v))
	case *ssa.Defer:
		in.deferCall(st, f, ci, x)
	case *ssa.RunDefers:
		if f.defers == nil {
			f.pc++
			return
		}
		d := f.defers
		in.runDeferred(st, d, retDefer)
		f.defers = d.next // popped last: an intrinsic may fork and be re-executed
	case *ssa.Go:
		in.goCall(st, f, ci, x)
	case *ssa.Send:
		panic(unsupported("channel send"))
	case *ssa.Select:
		panic(unsupported("select"))
	case *ssa.SliceToArrayPointer:
		s := in.val(st, f, &ci.ops[0]).(Slice)
		at := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if int64(s.Len) < at.Len() {
			in.rtPanic(st, "slice to array pointer: short")
			return
		}
		in.set(st, f, ci, Ptr{Obj: s.Obj, Off: s.Off})
	case *ssa.DebugRef:
		f.pc++
	default:
		panic(unsupported(fmt.Sprintf("instruction %T", ci.ins)))
	}
}

func (in *Interp) jump(st *State, f *Frame, to int) {
	prev := f.block
	f.prev = prev
	cb := &f.fi.blocks[to]
	if cb.nphi > 0 {
		// predecessor index
		b := f.fi.fn.Blocks[to]
		pi := -1
		for i, p := range b.Preds {
			if p.Index == prev {
				pi = i
				break
			}
		}
		// If both successors of a block lead here, edges are distinguished by
		// order; find the right one.
		var tmp [16]Value
		vals := tmp[:0]
		for k := 0; k < cb.nphi; k++ {
			vals = append(vals, in.val(st, f, &cb.phiSrc[k][pi]))
		}
		for k := 0; k < cb.nphi; k++ {
			f.regs[cb.ins[k].dst] = vals[k]
		}
	}
	f.block = to
	f.pc = cb.nphi
}

func (in *Interp) doReturn(st *State, f *Frame, v Value) {
	g := st.gs[st.cur]
	for _, id := range f.locals {
		st.heap.set(id, nil)
	}
	g.frames = g.frames[:len(g.frames)-1]
	switch f.kind {
	case retNormal:
		if len(g.frames) == 0 {
			in.goExit(st)
			return
		}
		cf := st.wtop()
		ci := &cf.fi.blocks[cf.block].ins[cf.pc]
		in.set(st, cf, ci, v)
	case retDefer:
		// caller is at RunDefers; re-execute it
	case retPanicDefer:
		in.afterPanicDefer(st)
	case retGo:
		in.goExit(st)
	}
}

// ---- panics

func (in *Interp) describePanic(v Value) string {
	i, ok := v.(Iface)
	if !ok {
		return "panic"
	}
	if i.T == nil {
		return "panic(nil)"
	}
	if s, ok := i.V.(*Str); ok && s.conc {
		return "panic: " + s.s
	}
	return "panic: " + i.T.String()
}

func (in *Interp) rtPanic(st *State, msg string) {
	if in.rtErr == nil {
		in.rtErr = types.NewNamed(types.NewTypeName(token.NoPos, nil, "runtimeError", nil), types.Typ[types.String], nil)
	}
	in.startPanic(st, Iface{T: in.rtErr, V: &Str{conc: true, s: msg}}, "runtime error: "+msg)
}

func (in *Interp) startPanic(st *State, v Value, msg string) {
	g := st.gs[st.cur]
	g.panick = &panicInfo{val: v, msg: msg, pos: in.where(st), prev: g.panick}
	st.escaped = true
	in.unwind(st)
}

// unwind continues panicking in the current goroutine.
func (in *Interp) unwind(st *State) {
	g := st.gs[st.cur]
	for {
		if len(g.frames) == 0 {
			in.uncaught(st, g.panick)
			return
		}
		f := st.wtop()
		if f.defers != nil {
			d := f.defers
			f.defers = d.next
			in.runDeferred(st, d, retPanicDefer)
			return
		}
		for _, id := range f.locals {
			st.heap.set(id, nil)
		}
		g.frames = g.frames[:len(g.frames)-1]
		if f.kind == retPanicDefer {
			// a deferred function itself panicked; the older panic is replaced
			if g.panick != nil && g.panick.prev != nil {
				p := *g.panick
				p.prev = g.panick.prev.prev
				g.panick = &p
			}
		}
	}
}

func (in *Interp) afterPanicDefer(st *State) {
	g := st.gs[st.cur]
	if g.panick != nil && g.panick.recovered {
		g.panick = g.panick.prev
		// return normally from the frame that deferred
		f := st.wtop()
		if f.defers != nil {
			// run remaining defers then return
			f.recovering = true
		}
		rec := f.fi.fn.Recover
		if rec == nil {
			// run remaining defers, return zero results
			if f.defers != nil {
				d := f.defers
				f.defers = d.next
				g.panick = &panicInfo{recovered: true, prev: g.panick}
				in.runDeferred(st, d, retPanicDefer)
				return
			}
			in.doReturn(st, f, in.zeroResults(f.fi.fn))
			return
		}
		if f.defers != nil {
			d := f.defers
			f.defers = d.next
			g.panick = &panicInfo{recovered: true, prev: g.panick}
			in.runDeferred(st, d, retPanicDefer)
			return
		}
		f.prev = f.block
		f.block = rec.Index
		f.pc = 0
		return
	}
	in.unwind(st)
}

func (in *Interp) zeroResults(fn *ssa.Function) Value {
	rs := fn.Signature.Results()
	switch rs.Len() {
	case 0:
		return nil
	case 1:
		return in.zeroValue(rs.At(0).Type())
	}
	return in.zeroValue(rs)
}

func (in *Interp) where(st *State) string {
	g := st.gs[st.cur]
	for i := len(g.frames) - 1; i >= 0; i-- {
		f := g.frames[i]
		cb := &f.fi.blocks[f.block]
		if f.pc < len(cb.ins) {
			p := cb.ins[f.pc].ins.Pos()
			for k := f.pc; !p.IsValid() && k >= 0; k-- {
				p = cb.ins[k].ins.Pos()
			}
			if p.IsValid() {
				return f.fi.name + " " + in.posOf(p)
			}
		}
	}
	return "?"
}

func (in *Interp) stack(st *State) []string {
	var out []string
	g := st.gs[st.cur]
	for i := len(g.frames) - 1; i >= 0; i-- {
		f := g.frames[i]
		cb := &f.fi.blocks[f.block]
		pos := "?"
		for k := f.pc; k >= 0 && k < len(cb.ins); k-- {
			if p := cb.ins[k].ins.Pos(); p.IsValid() {
				pos = in.posOf(p)
				break
			}
		}
		out = append(out, f.fi.name+" "+pos)
	}
	return out
}

func (in *Interp) checkNil(st *State, p Ptr) bool {
	if p.Obj == 0 {
		in.rtPanic(st, "nil pointer dereference")
		return false
	}
	return true
}

// ---- operators

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned == 0 && b.Info()&types.IsInteger != 0
}

func (in *Interp) toInt64(t *Term, ty types.Type) *Term {
	if t.W == 64 {
		return t
	}
	if isSigned(ty) {
		return in.c.SExt(t, 64)
	}
	return in.c.ZExt(t, 64)
}

func (in *Interp) binop(st *State, op token.Token, a, b Value, ta, tb types.Type) Value {
	c := in.c
	switch op {
	case token.EQL:
		return in.equal(st, a, b, ta, tb)
	case token.NEQ:
		return c.Not(in.equal(st, a, b, ta, tb))
	}
	switch x := a.(type) {
	case *Str:
		y := b.(*Str)
		switch op {
		case token.ADD:
			if x.Len() == 0 {
				return y
			}
			if y.Len() == 0 {
				return x
			}
			if x.conc && y.conc {
				return &Str{conc: true, s: x.s + y.s}
			}
			return &Str{b: append(append([]*Term(nil), in.strBytes(x)...), in.strBytes(y)...)}
		case token.LSS:
			return in.strLess(x, y)
		case token.GTR:
			return in.strLess(y, x)
		case token.LEQ:
			return c.Not(in.strLess(y, x))
		case token.GEQ:
			return c.Not(in.strLess(x, y))
		}
	case float64:
		y := b.(float64)
		switch op {
		case token.ADD:
			return x + y
		case token.SUB:
			return x - y
		case token.MUL:
			return x * y
		case token.QUO:
			return x / y
		case token.LSS:
			return c.Bool(x < y)
		case token.LEQ:
			return c.Bool(x <= y)
		case token.GTR:
			return c.Bool(x > y)
		case token.GEQ:
			return c.Bool(x >= y)
		}
	case *Term:
		y, ok := b.(*Term)
		if !ok {
			break
		}
		sg := isSigned(ta)
		switch op {
		case token.ADD:
			return c.Add(x, y)
		case token.SUB:
			return c.Sub(x, y)
		case token.MUL:
			return c.Mul(x, y)
		case token.QUO, token.REM:
			if !in.branch(st, c.Not(c.Eq(y, c.Const(y.W, 0)))) {
				in.rtPanic(st, "integer divide by zero")
				return nil
			}
			if sg {
				if op == token.QUO {
					return c.Sdiv(x, y)
				}
				return c.Srem(x, y)
			}
			if op == token.QUO {
				return c.Udiv(x, y)
			}
			return c.Urem(x, y)
		case token.AND:
			if x.W == 0 {
				return c.And(x, y)
			}
			return c.BAnd(x, y)
		case token.OR:
			if x.W == 0 {
				return c.Or(x, y)
			}
			return c.BOr(x, y)
		case token.XOR:
			if x.W == 0 {
				return c.Not(c.Eq(x, y))
			}
			return c.BXor(x, y)
		case token.AND_NOT:
			return c.BAnd(x, c.BNot(y))
		case token.SHL, token.SHR:
			if isSigned(tb) {
				if !in.branch(st, c.Not(c.Slt(y, c.Const(y.W, 0)))) {
					in.rtPanic(st, "negative shift amount")
					return nil
				}
			}
			return in.shift(st, op, x, y, sg)
		case token.LSS:
			if sg {
				return c.Slt(x, y)
			}
			return c.Ult(x, y)
		case token.LEQ:
			if sg {
				return c.Sle(x, y)
			}
			return c.Ule(x, y)
		case token.GTR:
			if sg {
				return c.Slt(y, x)
			}
			return c.Ult(y, x)
		case token.GEQ:
			if sg {
				return c.Sle(y, x)
			}
			return c.Ule(y, x)
		}
	}
	panic(unsupported(fmt.Sprintf("binop %s on %T", op, a)))
}

func (in *Interp) shift(st *State, op token.Token, x, y *Term, sg bool) *Term {
	c := in.c
	w := x.W
	// bring the count to x's width, saturating
	var cnt *Term
	if y.W > w {
		big := c.Not(c.Ult(y, c.Const(y.W, uint64(w))))
		cnt = c.Ite(big, c.Const(w, uint64(w)), c.Extract(y, w-1, 0))
		if uint64(w) > mask(w) {
			cnt = c.Const(w, mask(w))
		}
	} else {
		cnt = c.ZExt(y, w)
	}
	if op == token.SHL {
		return c.Shl(x, cnt)
	}
	if sg {
		return c.Ashr(x, cnt)
	}
	return c.Lshr(x, cnt)
}

func (in *Interp) strLess(a, b *Str) *Term {
	if a.conc && b.conc {
		return in.c.Bool(a.s < b.s)
	}
	x, y := in.strBytes(a), in.strBytes(b)
	n := len(x)
	if len(y) < n {
		n = len(y)
	}
	r := in.c.Bool(len(x) < len(y))
	for i := n - 1; i >= 0; i-- {
		r = in.c.Ite(in.c.Ult(x[i], y[i]), in.c.True, in.c.Ite(in.c.Eq(x[i], y[i]), r, in.c.False))
	}
	return r
}

func (in *Interp) strEq(a, b *Str) *Term {
	if a.Len() != b.Len() {
		return in.c.False
	}
	if a.conc && b.conc {
		return in.c.Bool(a.s == b.s)
	}
	x, y := in.strBytes(a), in.strBytes(b)
	var cs []*Term
	for i := range x {
		e := in.c.Eq(x[i], y[i])
		if e == in.c.False {
			return e
		}
		cs = append(cs, e)
	}
	return in.c.And(cs...)
}

func (in *Interp) equal(st *State, a, b Value, ta, tb types.Type) *Term {
	c := in.c
	switch x := a.(type) {
	case *Term:
		return c.Eq(x, b.(*Term))
	case *Str:
		return in.strEq(x, b.(*Str))
	case Ptr:
		y := b.(Ptr)
		if x.Idx != nil || y.Idx != nil {
			panic(unsupported("comparison of symbolic pointers"))
		}
		return c.Bool(x == y)
	case Slice:
		return c.Bool(x.Obj == b.(Slice).Obj)
	case MapRef:
		return c.Bool(x == b.(MapRef))
	case ChanRef:
		return c.Bool(x == b.(ChanRef))
	case *Closure:
		y := b.(*Closure)
		return c.Bool(x == nil && y == nil || x == y)
	case float64:
		return c.Bool(x == b.(float64))
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			y = Iface{T: tb, V: b}
		}
		if x.T == nil || y.T == nil {
			return c.Bool(x.T == nil && y.T == nil)
		}
		if !types.Identical(x.T, y.T) {
			return c.False
		}
		return in.equal(st, x.V, y.V, x.T, y.T)
	case Agg:
		y, ok := b.(Agg)
		if !ok {
			return in.equal(st, b, a, tb, ta)
		}
		var cs []*Term
		for i := range x {
			e := in.equal(st, x[i], y[i], nil, nil)
			if e == c.False {
				return e
			}
			cs = append(cs, e)
		}
		return c.And(cs...)
	}
	if y, ok := b.(Iface); ok {
		return in.equal(st, Iface{T: ta, V: a}, y, ta, tb)
	}
	panic(unsupported(fmt.Sprintf("comparison of %T", a)))
}

func (in *Interp) unop(st *State, f *Frame, ci *cinstr, x *ssa.UnOp) {
	c := in.c
	v := in.val(st, f, &ci.ops[0])
	switch x.Op {
	case token.MUL:
		p := v.(Ptr)
		if !in.checkNil(st, p) {
			return
		}
		in.raceAccess(st, p, false, x.Type())
		in.set(st, f, ci, in.load(st, p, x.Type()))
	case token.NOT:
		in.set(st, f, ci, c.Not(v.(*Term)))
	case token.SUB:
		if fl, ok := v.(float64); ok {
			in.set(st, f, ci, -fl)
			return
		}
		in.set(st, f, ci, c.Neg(v.(*Term)))
	case token.XOR:
		in.set(st, f, ci, c.BNot(v.(*Term)))
	case token.ARROW:
		panic(unsupported("channel receive"))
	default:
		panic(unsupported("unop " + x.Op.String()))
	}
}

func (in *Interp) convert(st *State, v Value, from, to types.Type) Value {
	c := in.c
	fu, tu := from.Underlying(), to.Underlying()
	switch x := v.(type) {
	case *Term:
		if tb, ok := tu.(*types.Basic); ok {
			if tb.Info()&types.IsInteger != 0 {
				w := in.scalarKind(to).w
				if w <= x.W {
					return c.Extract(x, w-1, 0)
				}
				if isSigned(from) {
					return c.SExt(x, w)
				}
				return c.ZExt(x, w)
			}
			if tb.Info()&types.IsString != 0 {
				// rune to string
				t := in.simp(st, x)
				if t.IsConst() {
					return &Str{conc: true, s: string(rune(int32(t.C)))}
				}
				t32 := t
				if in.branch(st, c.Ult(t32, c.Const(t32.W, 128))) {
					return in.mkStr([]*Term{c.Extract(t32, 7, 0)})
				}
				panic(unsupported("string(rune)"))
			}
			if tb.Info()&types.IsFloat != 0 {
				t := in.simp(st, x)
				if t.IsConst() {
					if isSigned(from) {
						return float64(sext(t.C, t.W))
					}
					return float64(t.C)
				}
			}
			if tb.Kind() == types.UnsafePointer {
				panic(unsupported("uintptr to pointer"))
			}
		}
	case float64:
		if tb, ok := tu.(*types.Basic); ok {
			if tb.Info()&types.IsInteger != 0 {
				if math.IsNaN(x) {
					return c.Const(in.scalarKind(to).w, 0)
				}
				return c.Const(in.scalarKind(to).w, uint64(int64(x)))
			}
			return x
		}
	case *Str:
		if sl, ok := tu.(*types.Slice); ok {
			if in.layoutOf(sl.Elem()).kind.w == 8 {
				return in.newBytes(st, in.strBytes(x))
			}
			if x.conc {
				rs := []rune(x.s)
				s := in.newArray(st, sl.Elem(), len(rs))
				o := st.heap.get(s.Obj)
				for i, r := range rs {
					st.heap.store(o, int32(i), c.Const(32, uint64(uint32(r))))
				}
				return s
			}
			panic(unsupported("[]rune(symbolic)"))
		}
		return x
	case Slice:
		if tb, ok := tu.(*types.Basic); ok && tb.Info()&types.IsString != 0 {
			return in.mkStr(in.bytesOf(st, x))
		}
		return x
	case Ptr:
		if tb, ok := tu.(*types.Basic); ok && tb.Kind() == types.Uintptr {
			return c.Const(64, 0xc000000000+uint64(x.Obj)*0x10000+uint64(x.Off)*8+uint64(in.opt.Align))
		}
		return x
	case Iface, *Closure, MapRef, ChanRef:
		return v
	}
	panic(unsupported(fmt.Sprintf("convert %v to %v", fu, tu)))
}

// boundsOK checks 0 <= idx < n (n concrete).
func (in *Interp) boundsOK(st *State, idx *Term, ty types.Type, n int) bool {
	if idx.IsConst() {
		if isSigned(ty) {
			i := sext(idx.C, idx.W)
			return i >= 0 && i < int64(n)
		}
		return idx.C < uint64(n)
	}
	c := in.c
	t := in.toInt64(idx, ty)
	return in.branch(st, c.Ult(t, c.Const(64, uint64(n))))
}

func (in *Interp) indexAddr(st *State, f *Frame, ci *cinstr, x *ssa.IndexAddr) {
	v := in.val(st, f, &ci.ops[0])
	idx := in.simp(st, in.term(st, f, &ci.ops[1]))
	var base Ptr
	var n int
	es := in.elemSize(x.X.Type())
	switch y := v.(type) {
	case Slice:
		base = Ptr{Obj: y.Obj, Off: y.Off}
		n = int(y.Len)
	case Ptr:
		if !in.checkNil(st, y) {
			return
		}
		base = y
		n = int(x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
	}
	if !in.boundsOK(st, idx, x.Index.Type(), n) {
		in.rtPanic(st, fmt.Sprintf("index out of range [%s] with length %d", idx, n))
		return
	}
	if !idx.IsConst() {
		// keep symbolic only for modest arrays of scalars
		if base.Idx != nil || n > 1024 {
			idx = in.c.Const(idx.W, in.concretize(st, idx, 1024))
		} else {
			lo, hi := idx.lo, idx.hi
			if hi >= uint64(n) {
				hi = uint64(n - 1)
			}
			if lo > 0 && lo <= hi {
				// shift the window
				base.Off += int32(lo) * es
				idx = in.c.Sub(idx, in.c.Const(idx.W, lo))
				hi -= lo
			}
			base.Idx = in.toInt64(idx, types.Typ[types.Uint64])
			base.Stride = es
			base.N = int32(hi) + 1
			in.set(st, f, ci, base)
			return
		}
	}
	base.Off += int32(idx.C) * es
	in.set(st, f, ci, base)
}

func (in *Interp) indexVal(st *State, f *Frame, ci *cinstr, x *ssa.Index) {
	v := in.val(st, f, &ci.ops[0])
	idx := in.simp(st, in.term(st, f, &ci.ops[1]))
	switch y := v.(type) {
	case *Str:
		n := y.Len()
		if !in.boundsOK(st, idx, x.Index.Type(), n) {
			in.rtPanic(st, "index out of range")
			return
		}
		if idx.IsConst() {
			in.set(st, f, ci, in.strAt(y, int(idx.C)))
			return
		}
		bs := in.strBytes(y)
		r := bs[n-1]
		for i := n - 2; i >= 0; i-- {
			r = in.c.Ite(in.c.Eq(idx, in.c.Const(idx.W, uint64(i))), bs[i], r)
		}
		in.set(st, f, ci, r)
	case Agg:
		at := x.X.Type().Underlying().(*types.Array)
		el := in.layoutOf(at.Elem())
		n := int(at.Len())
		if !in.boundsOK(st, idx, x.Index.Type(), n) {
			in.rtPanic(st, "index out of range")
			return
		}
		if !idx.IsConst() {
			if el.isAgg {
				idx = in.c.Const(idx.W, in.concretize(st, idx, 256))
			} else {
				acc := y[n-1]
				for i := n - 2; i >= 0; i-- {
					m, ok := in.iteVal(in.c.Eq(idx, in.c.Const(idx.W, uint64(i))), y[i], acc)
					if !ok {
						in.concretize(st, idx, 256)
					}
					acc = m
				}
				in.set(st, f, ci, acc)
				return
			}
		}
		i := int(idx.C)
		if el.isAgg {
			in.set(st, f, ci, append(Agg(nil), y[i*el.n:(i+1)*el.n]...))
		} else {
			in.set(st, f, ci, y[i])
		}
	default:
		panic(unsupported(fmt.Sprintf("index of %T", v)))
	}
}

func (in *Interp) strAt(s *Str, i int) *Term {
	if s.conc {
		return in.c.Const(8, uint64(s.s[i]))
	}
	return s.b[i]
}

func (in *Interp) slice(st *State, f *Frame, ci *cinstr, x *ssa.Slice) {
	c := in.c
	v := in.val(st, f, &ci.ops[0])
	// operands order: X, Low, High, Max (nil ones appear as nil values)
	var lowT, highT, maxT *Term
	get := func(i int, e ssa.Value) *Term {
		if e == nil {
			return nil
		}
		return in.simp(st, in.toInt64(in.term(st, f, &ci.ops[i]), e.Type()))
	}
	lowT = get(1, x.Low)
	highT = get(2, x.High)
	maxT = get(3, x.Max)
	var ln, cp int64
	var base Ptr
	es := int32(1)
	isStr := false
	var str *Str
	switch y := v.(type) {
	case *Str:
		isStr = true
		str = y
		ln = int64(y.Len())
		cp = ln
	case Slice:
		base = Ptr{Obj: y.Obj, Off: y.Off}
		ln, cp = int64(y.Len), int64(y.Cap)
		es = in.elemSize(x.X.Type())
	case Ptr:
		if !in.checkNil(st, y) {
			return
		}
		if y.Idx != nil {
			in.concretize(st, y.Idx, 256)
			y.Off += int32(in.simp(st, y.Idx).C) * y.Stride
			y.Idx = nil
		}
		base = y
		ln = x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		cp = ln
		es = in.elemSize(x.X.Type())
	}
	k := func(v int64) *Term { return c.Const(64, uint64(v)) }
	if lowT == nil {
		lowT = k(0)
	}
	if highT == nil {
		highT = k(ln)
	}
	lim := k(cp)
	ok := c.True
	if maxT != nil {
		ok = c.And(ok, c.Ule(maxT, lim))
		lim = maxT
	}
	ok = c.And(ok, c.Ule(highT, lim), c.Ule(lowT, highT))
	if !in.branch(st, ok) {
		in.rtPanic(st, fmt.Sprintf("slice bounds out of range [%s:%s] with capacity %d", lowT, highT, cp))
		return
	}
	lo := int64(in.concretize(st, lowT, 512))
	hi := int64(in.concretize(st, highT, 512))
	mx := cp
	if maxT != nil {
		mx = int64(in.concretize(st, maxT, 512))
	}
	if isStr {
		if str.conc {
			in.set(st, f, ci, &Str{conc: true, s: str.s[lo:hi]})
		} else {
			in.set(st, f, ci, in.mkStr(str.b[lo:hi]))
		}
		return
	}
	if base.Obj == 0 {
		in.set(st, f, ci, Slice{})
		return
	}
	in.set(st, f, ci, Slice{Obj: base.Obj, Off: base.Off + int32(lo)*es, Len: int32(hi - lo), Cap: int32(mx - lo)})
}

// ---- maps

func toAgg(v Value) Agg {
	if a, ok := v.(Agg); ok {
		return a
	}
	return Agg{v}
}

// findKey returns the entry index for the key, or -1; forks on symbolic keys.
func (in *Interp) findKey(st *State, m MapRef, key Agg) int {
	if m.Obj == 0 {
		return -1
	}
	o := st.heap.get(m.Obj)
	for i := range o.ents {
		var e *Term
		e = in.equal(st, o.ents[i].key, key, nil, nil)
		if in.branch(st, e) {
			return i
		}
	}
	return -1
}

func (in *Interp) lookup(st *State, f *Frame, ci *cinstr, x *ssa.Lookup) {
	v := in.val(st, f, &ci.ops[0])
	if s, ok := v.(*Str); ok {
		idx := in.simp(st, in.term(st, f, &ci.ops[1]))
		n := s.Len()
		if !in.boundsOK(st, idx, x.Index.Type(), n) {
			in.rtPanic(st, "index out of range")
			return
		}
		if idx.IsConst() {
			in.set(st, f, ci, in.strAt(s, int(idx.C)))
			return
		}
		bs := in.strBytes(s)
		r := bs[n-1]
		for i := n - 2; i >= 0; i-- {
			r = in.c.Ite(in.c.Eq(idx, in.c.Const(idx.W, uint64(i))), bs[i], r)
		}
		in.set(st, f, ci, r)
		return
	}
	m := v.(MapRef)
	mt := x.X.Type().Underlying().(*types.Map)
	key := toAgg(in.val(st, f, &ci.ops[1]))
	in.raceMap(st, m, false)
	i := in.findKey(st, m, key)
	var r Value
	if i < 0 {
		r = in.zeroValue(mt.Elem())
	} else {
		a := st.heap.get(m.Obj).ents[i].val
		if isAggType(mt.Elem()) {
			r = append(Agg(nil), a...)
		} else {
			r = a[0]
		}
	}
	if x.CommaOk {
		in.set(st, f, ci, Tuple{r, in.c.Bool(i >= 0)})
	} else {
		in.set(st, f, ci, r)
	}
}

func (in *Interp) mapUpdate(st *State, f *Frame, ci *cinstr, x *ssa.MapUpdate) {
	m := in.val(st, f, &ci.ops[0]).(MapRef)
	if m.Obj == 0 {
		in.rtPanic(st, "assignment to entry in nil map")
		return
	}
	key := toAgg(in.val(st, f, &ci.ops[1]))
	val := toAgg(in.val(st, f, &ci.ops[2]))
	in.raceMap(st, m, true)
	i := in.findKey(st, m, key)
	o := st.heap.writable(m.Obj)
	if i < 0 {
		o.ents = append(o.ents, mapEnt{key, val})
	} else {
		o.ents[i] = mapEnt{o.ents[i].key, val}
	}
	f.pc++
}

func (in *Interp) next(st *State, f *Frame, ci *cinstr, x *ssa.Next) {
	it := in.val(st, f, &ci.ops[0]).(*Iter)
	c := in.c
	reg := ci.ops[0].idx
	tt := x.Type().(*types.Tuple)
	if it.isStr {
		n := it.str.Len()
		if it.pos >= n {
			in.set(st, f, ci, Tuple{c.False, c.Const(64, 0), c.Const(32, 0)})
			return
		}
		if it.str.conc {
			for _, r := range it.str.s[it.pos:] {
				w := len(string(r))
				if r == 0xfffd && !strings.HasPrefix(it.str.s[it.pos:], "\uFFFD") {
					w = 1
				}
				f.regs[reg] = &Iter{isStr: true, str: it.str, pos: it.pos + w}
				in.set(st, f, ci, Tuple{c.True, c.Const(64, uint64(it.pos)), c.Const(32, uint64(uint32(r)))})
				return
			}
		}
		b := it.str.b[it.pos]
		if !in.branch(st, c.Ult(b, c.Const(8, 0x80))) {
			panic(unsupported("range over symbolic non-ASCII string"))
		}
		f.regs[reg] = &Iter{isStr: true, str: it.str, pos: it.pos + 1}
		in.set(st, f, ci, Tuple{c.True, c.Const(64, uint64(it.pos)), c.ZExt(b, 32)})
		return
	}
	pos := it.pos
	for pos < len(it.keys) {
		k := it.keys[pos]
		i := in.findKey(st, MapRef{it.obj}, k)
		pos++
		if i < 0 {
			continue // deleted meanwhile
		}
		e := st.heap.get(it.obj).ents[i]
		var kv, vv Value
		unwrap := func(a Agg, t types.Type) Value {
			if t == nil {
				return a
			}
			if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
				return nil
			}
			if isAggType(t) {
				return append(Agg(nil), a...)
			}
			return a[0]
		}
		kv = unwrap(e.key, tt.At(1).Type())
		vv = unwrap(e.val, tt.At(2).Type())
		f.regs[reg] = &Iter{obj: it.obj, keys: it.keys, pos: pos}
		in.set(st, f, ci, Tuple{c.True, kv, vv})
		return
	}
	z := func(t types.Type) Value {
		if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
			return nil
		}
		return in.zeroValue(t)
	}
	in.set(st, f, ci, Tuple{c.False, z(tt.At(1).Type()), z(tt.At(2).Type())})
}

func (in *Interp) implements(t types.Type, it *types.Interface) bool {
	if t == in.rtErr && t != nil {
		// runtime errors implement error
		return it.NumMethods() <= 2
	}
	return types.Implements(t, it)
}

func (in *Interp) typeAssert(st *State, f *Frame, ci *cinstr, x *ssa.TypeAssert) {
	i := in.val(st, f, &ci.ops[0]).(Iface)
	ok := false
	var r Value
	if i.T != nil {
		if it, isI := x.AssertedType.Underlying().(*types.Interface); isI {
			ok = in.implements(i.T, it)
			r = i
		} else {
			ok = types.Identical(i.T, x.AssertedType)
			r = i.V
		}
	}
	if !ok {
		r = in.zeroValue(x.AssertedType)
	}
	if x.CommaOk {
		in.set(st, f, ci, Tuple{r, in.c.Bool(ok)})
		return
	}
	if !ok {
		in.rtPanic(st, "interface conversion")
		return
	}
	in.set(st, f, ci, r)
}
