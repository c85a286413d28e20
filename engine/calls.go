package main

// Calls, builtins, defers, goroutines.

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// callee resolves a call to (function, free vars, args).
type target struct {
	fn      *ssa.Function
	free    []Value
	args    []Value
	builtin *ssa.Builtin
}

func (in *Interp) resolve(st *State, f *Frame, ci *cinstr, cc *ssa.CallCommon) (target, bool) {
	var t target
	if cc.IsInvoke() {
		recv := in.val(st, f, &ci.ops[0])
		i, ok := recv.(Iface)
		if !ok {
			panic(unsupported(fmt.Sprintf("invoke on %T", recv)))
		}
		if i.T == nil {
			in.rtPanic(st, "nil interface method call "+cc.Method.Name())
			return t, false
		}
		t.fn = in.method(i.T, cc.Method)
		t.args = append(t.args, i.V)
		for k := 1; k < len(ci.ops); k++ {
			t.args = append(t.args, in.val(st, f, &ci.ops[k]))
		}
		return t, true
	}
	callee := in.val(st, f, &ci.ops[0])
	for k := 1; k < len(ci.ops); k++ {
		t.args = append(t.args, in.val(st, f, &ci.ops[k]))
	}
	switch y := callee.(type) {
	case *ssa.Builtin:
		t.builtin = y
	case *Closure:
		if y == nil {
			in.rtPanic(st, "call of nil function")
			return t, false
		}
		t.fn = y.Fn
		t.free = y.Free
	default:
		panic(unsupported(fmt.Sprintf("call of %T", callee)))
	}
	return t, true
}

func (in *Interp) method(t types.Type, m *types.Func) *ssa.Function {
	if t == in.rtErr {
		panic(unsupported("method of runtime error"))
	}
	k := methKey{t, m.Name()}
	if fn, ok := in.methCache[k]; ok {
		return fn
	}
	buildMu.Lock()
	defer buildMu.Unlock()
	var pk *types.Package
	if !m.Exported() {
		pk = m.Pkg()
	}
	fn := in.prog.Prog.LookupMethod(t, pk, m.Name())
	if fn == nil {
		panic(unsupported(fmt.Sprintf("method %s of %v", m.Name(), t)))
	}
	in.methCache[k] = fn
	return fn
}

func (in *Interp) call(st *State, f *Frame, ci *cinstr, cc *ssa.CallCommon) {
	t, ok := in.resolve(st, f, ci, cc)
	if !ok {
		return
	}
	if t.builtin != nil {
		v, ok := in.builtin(st, f, t.builtin, t.args, cc)
		if !ok {
			return
		}
		in.set(st, st.wtop(), ci, v)
		return
	}
	in.enter(st, t, retNormal, ci)
}

// enter starts a call; ci is the call instruction for intrinsics' results.
func (in *Interp) enter(st *State, t target, kind int, ci *cinstr) {
	fi := in.info(t.fn)
	if fi.redir != nil {
		fi = in.info(fi.redir)
	}
	if fi.intr != nil {
		r := fi.intr(in, st, &callCtx{fn: t.fn, args: t.args, kind: kind})
		if r.jumped {
			return
		}
		switch kind {
		case retNormal:
			in.set(st, st.wtop(), ci, r.v)
		case retDefer:
		case retPanicDefer:
			in.afterPanicDefer(st)
		case retGo:
			in.goExit(st)
		}
		return
	}
	if fi.blocks == nil {
		panic(unsupported("call to " + fi.name))
	}
	if fi.entered == 0 {
		in.noteFunc(fi)
	}
	fi.entered++
	in.frameSeq++
	nf := &Frame{owner: st.ftok, fi: fi, regs: make([]Value, fi.nregs), kind: kind, id: in.frameSeq}
	if len(t.args) != len(fi.params) {
		panic(unsupported(fmt.Sprintf("argument count for %s: %d/%d", fi.name, len(t.args), len(fi.params))))
	}
	for i, a := range t.args {
		nf.regs[fi.params[i]] = a
	}
	for i := range fi.free {
		nf.regs[fi.free[i]] = t.free[i]
	}
	g := st.gs[st.cur]
	if len(g.frames) > 400 {
		panic(unsupported("recursion depth"))
	}
	g.frames = append(g.frames, nf)
}

func (in *Interp) noteFunc(fi *FnInfo) {
	p := ""
	if fi.fn.Pkg != nil {
		p = fi.fn.Pkg.Pkg.Path()
	} else if fi.fn.Parent() != nil && fi.fn.Parent().Pkg != nil {
		p = fi.fn.Parent().Pkg.Pkg.Path()
	}
	if p == modPath || p == modPath+"/internal/f1600x4" {
		in.st.Funcs[fi.name] = len(fi.blocks)
	}
}

func (in *Interp) deferCall(st *State, f *Frame, ci *cinstr, x *ssa.Defer) {
	d := &deferred{next: f.defers}
	cc := x.Common()
	if cc.IsInvoke() {
		recv := in.val(st, f, &ci.ops[0]).(Iface)
		if recv.T == nil {
			in.rtPanic(st, "nil interface method call (defer)")
			return
		}
		d.fn = in.method(recv.T, cc.Method)
		d.args = append(d.args, recv.V)
		for k := 1; k < len(ci.ops); k++ {
			d.args = append(d.args, in.val(st, f, &ci.ops[k]))
		}
	} else {
		switch y := in.val(st, f, &ci.ops[0]).(type) {
		case *ssa.Builtin:
			d.builtin = y.Name()
		case *Closure:
			if y == nil {
				in.rtPanic(st, "defer of nil function")
				return
			}
			d.fn, d.free = y.Fn, y.Free
		}
		n := len(cc.Args)
		for k := 1; k <= n; k++ {
			d.args = append(d.args, in.val(st, f, &ci.ops[k]))
		}
	}
	f.defers = d
	f.pc++
}

func (in *Interp) runDeferred(st *State, d *deferred, kind int) {
	if d.builtin != "" {
		switch d.builtin {
		case "recover", "print", "println":
		default:
			panic(unsupported("deferred builtin " + d.builtin))
		}
		if kind == retPanicDefer {
			in.afterPanicDefer(st)
		}
		return
	}
	in.enter(st, target{fn: d.fn, free: d.free, args: d.args}, kind, nil)
}

func (in *Interp) goCall(st *State, f *Frame, ci *cinstr, x *ssa.Go) {
	cc := x.Common()
	var t target
	if cc.IsInvoke() {
		recv := in.val(st, f, &ci.ops[0]).(Iface)
		t.fn = in.method(recv.T, cc.Method)
		t.args = append(t.args, recv.V)
	} else {
		cl := in.val(st, f, &ci.ops[0]).(*Closure)
		t.fn, t.free = cl.Fn, cl.Free
	}
	for k := 1; k < len(ci.ops); k++ {
		t.args = append(t.args, in.val(st, f, &ci.ops[k]))
	}
	f.pc++
	fi := in.info(t.fn)
	if fi.blocks == nil {
		panic(unsupported("go " + fi.name))
	}
	if fi.entered == 0 {
		in.noteFunc(fi)
	}
	fi.entered++
	in.frameSeq++
	nf := &Frame{owner: st.ftok, fi: fi, regs: make([]Value, fi.nregs), kind: retGo, id: in.frameSeq}
	for i, a := range t.args {
		nf.regs[fi.params[i]] = a
	}
	for i := range fi.free {
		nf.regs[fi.free[i]] = t.free[i]
	}
	g := &G{id: len(st.gs), status: gRun, frames: []*Frame{nf}}
	st.gs = append(st.gs, g)
	in.raceSpawn(st, st.cur, g.id)
	in.reschedule(st, false)
}

// ---- builtins

func (in *Interp) builtin(st *State, f *Frame, b *ssa.Builtin, args []Value, cc *ssa.CallCommon) (Value, bool) {
	c := in.c
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case Slice:
			return c.Const(64, uint64(x.Len)), true
		case *Str:
			return c.Const(64, uint64(x.Len())), true
		case MapRef:
			in.raceMap(st, x, false)
			if x.Obj == 0 {
				return c.Const(64, 0), true
			}
			return c.Const(64, uint64(len(st.heap.get(x.Obj).ents))), true
		case Agg:
			return c.Const(64, uint64(cc.Args[0].Type().Underlying().(*types.Array).Len())), true
		case Ptr:
			return c.Const(64, uint64(cc.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())), true
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return c.Const(64, uint64(x.Cap)), true
		}
	case "append":
		s := args[0].(Slice)
		var elems []Value
		var el types.Type
		if sl, ok := cc.Args[0].Type().Underlying().(*types.Slice); ok {
			el = sl.Elem()
		}
		l := in.layoutOf(el)
		es := int32(l.n)
		ks := in.kindsOf(l)
		var n2 int32
		switch y := args[1].(type) {
		case Slice:
			n2 = y.Len
			if n2 > 0 {
				o := st.heap.get(y.Obj)
				for i := int32(0); i < n2*es; i++ {
					elems = append(elems, in.loadCell(st, o, y.Off+i, ks[i%es]))
				}
			}
		case *Str:
			n2 = int32(y.Len())
			for _, t := range in.strBytes(y) {
				elems = append(elems, t)
			}
		case nil:
		}
		if n2 == 0 {
			return s, true
		}
		if s.Len+n2 <= s.Cap {
			o := st.heap.writable(s.Obj)
			for i, v := range elems {
				st.heap.store(o, s.Off+s.Len*es+int32(i), v)
			}
			s.Len += n2
			return s, true
		}
		ncap := s.Len + n2
		if 2*s.Cap > ncap {
			ncap = 2 * s.Cap
		}
		ns := in.newArray(st, el, int(ncap))
		o := st.heap.get(ns.Obj)
		if s.Len > 0 {
			old := st.heap.get(s.Obj)
			for i := int32(0); i < s.Len*es; i++ {
				if v := old.load(s.Off + i); v != nil {
					st.heap.store(o, i, v)
				}
			}
		}
		for i, v := range elems {
			st.heap.store(o, s.Len*es+int32(i), v)
		}
		ns.Len = s.Len + n2
		return ns, true
	case "copy":
		d := args[0].(Slice)
		el := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
		es := int32(in.layoutOf(el).n)
		switch s := args[1].(type) {
		case Slice:
			n := d.Len
			if s.Len < n {
				n = s.Len
			}
			if n > 0 {
				in.raceRange(st, Ptr{Obj: s.Obj, Off: s.Off}, n*es, false)
				in.raceRange(st, Ptr{Obj: d.Obj, Off: d.Off}, n*es, true)
				so := st.heap.get(s.Obj)
				tmp := make([]Value, n*es)
				for i := range tmp {
					tmp[i] = so.load(s.Off + int32(i))
				}
				do := st.heap.writable(d.Obj)
				for i, v := range tmp {
					st.heap.store(do, d.Off+int32(i), v)
				}
			}
			return c.Const(64, uint64(n)), true
		case *Str:
			n := int(d.Len)
			if s.Len() < n {
				n = s.Len()
			}
			if n > 0 {
				do := st.heap.writable(d.Obj)
				for i := 0; i < n; i++ {
					st.heap.store(do, d.Off+int32(i), in.strAt(s, i))
				}
			}
			return c.Const(64, uint64(n)), true
		}
	case "delete":
		m := args[0].(MapRef)
		in.raceMap(st, m, true)
		i := in.findKey(st, m, toAgg(args[1]))
		if i >= 0 {
			o := st.heap.writable(m.Obj)
			o.ents = append(append([]mapEnt(nil), o.ents[:i]...), o.ents[i+1:]...)
		}
		return nil, true
	case "clear":
		if m, ok := args[0].(MapRef); ok {
			if m.Obj != 0 {
				st.heap.writable(m.Obj).ents = nil
			}
			return nil, true
		}
		if s, ok := args[0].(Slice); ok {
			es := in.elemSize(cc.Args[0].Type())
			if s.Len > 0 {
				o := st.heap.writable(s.Obj)
				for i := int32(0); i < s.Len*es; i++ {
					st.heap.store(o, s.Off+i, nil)
				}
			}
			return nil, true
		}
	case "panic":
		in.startPanic(st, args[0], in.describePanic(args[0]))
		return nil, false
	case "recover":
		g := st.gs[st.cur]
		if f.kind == retPanicDefer && g.panick != nil && !g.panick.recovered {
			p := *g.panick
			p.recovered = true
			g.panick = &p
			return p.val, true
		}
		return Iface{}, true
	case "print", "println":
		return nil, true
	case "min", "max":
		r := args[0].(*Term)
		sg := isSigned(cc.Args[0].Type())
		for _, a := range args[1:] {
			t := a.(*Term)
			var lt *Term
			if sg {
				lt = c.Slt(t, r)
			} else {
				lt = c.Ult(t, r)
			}
			if b.Name() == "max" {
				if sg {
					lt = c.Slt(r, t)
				} else {
					lt = c.Ult(r, t)
				}
			}
			r = c.Ite(lt, t, r)
		}
		return r, true
	case "ssa:wrapnilchk":
		p := args[0].(Ptr)
		if !in.checkNil(st, p) {
			return nil, false
		}
		return p, true
	case "String": // unsafe.String
		p := args[0].(Ptr)
		n := in.concretize(st, args[1].(*Term), 256)
		if n == 0 {
			return emptyStr, true
		}
		return in.mkStr(in.bytesOf(st, Slice{Obj: p.Obj, Off: p.Off, Len: int32(n), Cap: int32(n)})), true
	case "StringData":
		s := args[0].(*Str)
		sl := in.newBytes(st, in.strBytes(s))
		return Ptr{Obj: sl.Obj}, true
	case "SliceData":
		s := args[0].(Slice)
		return Ptr{Obj: s.Obj, Off: s.Off}, true
	case "Slice":
		p := args[0].(Ptr)
		n := in.concretize(st, args[1].(*Term), 256)
		return Slice{Obj: p.Obj, Off: p.Off, Len: int32(n), Cap: int32(n)}, true
	}
	panic(unsupported(fmt.Sprintf("builtin %s(%T)", b.Name(), args[0])))
}
