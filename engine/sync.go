package main

import (
	"go/types"
)

// Synchronisation primitives and the happens-before race detector.

func (in *Interp) cell(st *State, p Ptr, w int) *Term {
	o := st.heap.get(p.Obj)
	v := o.load(p.Off)
	if v == nil {
		return in.c.Const(w, 0)
	}
	return v.(*Term)
}

func (in *Interp) setCell(st *State, p Ptr, t *Term) {
	o := st.heap.writable(p.Obj)
	st.heap.store(o, p.Off, t)
}

func (in *Interp) lockCell(st *State, p Ptr) uint64 { return in.cell(st, p, 32).C }

func (in *Interp) wake(st *State, status int, p Ptr) {
	for _, g := range st.gs {
		if g.status == status && g.wait == p {
			g.status = gRun
		}
	}
}

func (in *Interp) doUnlock(st *State, p Ptr) bool {
	if in.lockCell(st, p) == 0 {
		in.violation(st, in.c.True, "panic", "fatal error: sync: unlock of unlocked mutex", in.where(st), nil)
		st.done = true
		return false
	}
	in.raceRelease(st, p)
	in.setCell(st, p, in.c.Const(32, 0))
	in.wake(st, gMutex, p)
	return true
}

// tryAcquire returns false (and blocks the goroutine) if held.
func (in *Interp) acquire(st *State, p Ptr) bool {
	g := st.gs[st.cur]
	if in.lockCell(st, p) != 0 {
		g.status = gMutex
		g.wait = p
		in.reschedule(st, true)
		return false
	}
	in.setCell(st, p, in.c.Const(32, uint64(st.cur)+1))
	in.raceAcquire(st, p)
	return true
}

func syncIntrinsics(I map[string]intrinsic) {
	nilRecv := func(h intrinsic) intrinsic {
		return func(in *Interp, st *State, cc *callCtx) intrRes {
			if p, ok := cc.args[0].(Ptr); ok && p.Obj == 0 {
				in.rtPanic(st, "nil pointer dereference")
				return intrRes{jumped: true}
			}
			return h(in, st, cc)
		}
	}
	lock := nilRecv(func(in *Interp, st *State, cc *callCtx) intrRes {
		if !in.acquire(st, cc.args[0].(Ptr)) {
			return intrRes{jumped: true}
		}
		return intrRes{}
	})
	unlock := nilRecv(func(in *Interp, st *State, cc *callCtx) intrRes {
		if !in.doUnlock(st, cc.args[0].(Ptr)) {
			return intrRes{jumped: true}
		}
		if len(st.gs) > 1 {
			in.reschedule(st, false)
		}
		return intrRes{}
	})
	I["(*sync.Mutex).Lock"] = lock
	I["(*sync.Mutex).Unlock"] = unlock
	I["(*sync.RWMutex).Lock"] = lock
	I["(*sync.RWMutex).Unlock"] = unlock
	I["(*sync.RWMutex).RLock"] = lock // over-approximates blocking; recorded as a limit
	I["(*sync.RWMutex).RUnlock"] = unlock
	I["(*sync.Mutex).TryLock"] = nilRecv(func(in *Interp, st *State, cc *callCtx) intrRes {
		p := cc.args[0].(Ptr)
		if in.lockCell(st, p) != 0 {
			return intrRes{v: in.c.False}
		}
		in.acquire(st, p)
		return intrRes{v: in.c.True}
	})
	condL := func(in *Interp, st *State, cc *callCtx) (Ptr, bool) {
		p := cc.args[0].(Ptr)
		t := cc.fn.Signature.Recv().Type().Underlying().(*types.Pointer).Elem()
		s := t.Underlying().(*types.Struct)
		l := in.layoutOf(t)
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == "L" {
				v := in.loadCell(st, st.heap.get(p.Obj), p.Off+int32(l.fields[i]), cellKind{'f', 0}).(Iface)
				if v.T == nil {
					return Ptr{}, false
				}
				mp, ok := v.V.(Ptr)
				return mp, ok
			}
		}
		return Ptr{}, false
	}
	I["(*sync.Cond).Wait"] = nilRecv(func(in *Interp, st *State, cc *callCtx) intrRes {
		p := cc.args[0].(Ptr)
		m, ok := condL(in, st, cc)
		if !ok {
			panic(unsupported("cond without locker"))
		}
		g := st.gs[st.cur]
		if g.waitTag == "woken" {
			if !in.acquire(st, m) {
				return intrRes{jumped: true}
			}
			g.waitTag = ""
			return intrRes{}
		}
		if !in.doUnlock(st, m) {
			return intrRes{jumped: true}
		}
		g.waitTag = "wait"
		g.status = gCond
		g.wait = p
		in.reschedule(st, true)
		return intrRes{jumped: true}
	})
	bcast := func(all bool) intrinsic {
		return nilRecv(func(in *Interp, st *State, cc *callCtx) intrRes {
			p := cc.args[0].(Ptr)
			for _, g := range st.gs {
				if g.status == gCond && g.wait == p {
					g.status = gRun
					g.waitTag = "woken"
					if !all {
						break
					}
				}
			}
			return intrRes{}
		})
	}
	I["(*sync.Cond).Broadcast"] = bcast(true)
	I["(*sync.Cond).Signal"] = bcast(false)
	wgAdd := func(in *Interp, st *State, p Ptr, d int64) bool {
		n := int64(in.cell(st, p, 64).C) + d
		if n < 0 {
			in.rtPanic(st, "sync: negative WaitGroup counter")
			return false
		}
		if d < 0 {
			in.raceRelease(st, p)
		}
		in.setCell(st, p, in.c.Const(64, uint64(n)))
		if n == 0 {
			in.wake(st, gWG, p)
		}
		return true
	}
	I["(*sync.WaitGroup).Add"] = nilRecv(func(in *Interp, st *State, cc *callCtx) intrRes {
		d := int64(in.concretize(st, cc.args[1].(*Term), 16))
		if !wgAdd(in, st, cc.args[0].(Ptr), d) {
			return intrRes{jumped: true}
		}
		return intrRes{}
	})
	I["(*sync.WaitGroup).Done"] = nilRecv(func(in *Interp, st *State, cc *callCtx) intrRes {
		if !wgAdd(in, st, cc.args[0].(Ptr), -1) {
			return intrRes{jumped: true}
		}
		if len(st.gs) > 1 {
			in.reschedule(st, false)
		}
		return intrRes{}
	})
	I["(*sync.WaitGroup).Wait"] = nilRecv(func(in *Interp, st *State, cc *callCtx) intrRes {
		p := cc.args[0].(Ptr)
		if in.cell(st, p, 64).C != 0 {
			g := st.gs[st.cur]
			g.status = gWG
			g.wait = p
			in.reschedule(st, true)
			return intrRes{jumped: true}
		}
		in.raceAcquire(st, p)
		return intrRes{}
	})
	I["(*sync.Once).Do"] = nilRecv(func(in *Interp, st *State, cc *callCtx) intrRes {
		p := cc.args[0].(Ptr)
		if in.cell(st, p, 32).C != 0 {
			return intrRes{}
		}
		in.setCell(st, p, in.c.Const(32, 1))
		cl := cc.args[1].(*Closure)
		in.enter(st, target{fn: cl.Fn, free: cl.Free}, cc.kind, nil)
		return intrRes{jumped: true}
	})
	// atomics: sequentially consistent, one scheduling point each
	for _, n := range []struct {
		s string
		w int
	}{{"Int32", 32}, {"Uint32", 32}, {"Int64", 64}, {"Uint64", 64}} {
		w := n.w
		I["sync/atomic.Add"+n.s] = func(in *Interp, st *State, cc *callCtx) intrRes {
			p := cc.args[0].(Ptr)
			in.raceSync(st, p)
			t := in.c.Add(in.cell(st, p, w), cc.args[1].(*Term))
			in.setCell(st, p, t)
			in.reschedule(st, false)
			return intrRes{v: t}
		}
		I["sync/atomic.Load"+n.s] = func(in *Interp, st *State, cc *callCtx) intrRes {
			p := cc.args[0].(Ptr)
			in.raceSync(st, p)
			return intrRes{v: in.cell(st, p, w)}
		}
		I["sync/atomic.Store"+n.s] = func(in *Interp, st *State, cc *callCtx) intrRes {
			p := cc.args[0].(Ptr)
			in.raceSync(st, p)
			in.setCell(st, p, cc.args[1].(*Term))
			in.reschedule(st, false)
			return intrRes{}
		}
		I["sync/atomic.Swap"+n.s] = func(in *Interp, st *State, cc *callCtx) intrRes {
			p := cc.args[0].(Ptr)
			in.raceSync(st, p)
			old := in.cell(st, p, w)
			in.setCell(st, p, cc.args[1].(*Term))
			in.reschedule(st, false)
			return intrRes{v: old}
		}
		I["sync/atomic.CompareAndSwap"+n.s] = func(in *Interp, st *State, cc *callCtx) intrRes {
			p := cc.args[0].(Ptr)
			old := in.cell(st, p, w)
			eq := in.branch(st, in.c.Eq(old, cc.args[1].(*Term)))
			in.raceSync(st, p)
			if eq {
				in.setCell(st, p, cc.args[2].(*Term))
			}
			in.reschedule(st, false)
			return intrRes{v: in.c.Bool(eq)}
		}
	}
}

// ---- race detection (vector clocks over heap cells)

// raceObj keeps the last accesses of each cell of an object.  An epoch is
// goroutine<<32|clock (clocks start at 1).
type raceObj struct {
	tok *int // the state that may change it
	w   []uint64
	r   []uint64           // manyReaders: see rs
	rs  map[int32][]int32 // vectors of clocks
	wp  []racePos
}

type racePos struct {
	fi        *FnInfo
	block, pc int
}

const manyReaders = ^uint64(0)

type raceState struct {
	tok   *int
	objs  map[ObjID]*raceObj
	clk   [][]int32
	sync_ map[Ptr][]int32
}

func (r *raceState) clone() *raceState {
	r.tok = new(int)
	n := &raceState{tok: new(int), objs: make(map[ObjID]*raceObj, len(r.objs)), sync_: make(map[Ptr][]int32, len(r.sync_))}
	for k, v := range r.objs {
		n.objs[k] = v
	}
	for k, v := range r.sync_ {
		n.sync_[k] = append([]int32(nil), v...)
	}
	for _, c := range r.clk {
		n.clk = append(n.clk, append([]int32(nil), c...))
	}
	return n
}

func (r *raceState) obj(id ObjID, size int32) *raceObj {
	o := r.objs[id]
	if o == nil {
		o = &raceObj{tok: r.tok}
		r.objs[id] = o
	} else if o.tok != r.tok {
		n := &raceObj{tok: r.tok, w: append([]uint64(nil), o.w...), r: append([]uint64(nil), o.r...), wp: append([]racePos(nil), o.wp...)}
		if o.rs != nil {
			n.rs = make(map[int32][]int32, len(o.rs))
			for k, v := range o.rs {
				n.rs[k] = append([]int32(nil), v...)
			}
		}
		o = n
		r.objs[id] = o
	}
	if int(size) > len(o.w) {
		k := int(size) + len(o.w)/2
		w, rd, wp := make([]uint64, k), make([]uint64, k), make([]racePos, k)
		copy(w, o.w)
		copy(rd, o.r)
		copy(wp, o.wp)
		o.w, o.r, o.wp = w, rd, wp
	}
	return o
}

func (in *Interp) raceEnable(st *State) {
	st.race = &raceState{tok: new(int), objs: map[ObjID]*raceObj{}, sync_: map[Ptr][]int32{}}
	for range st.gs {
		st.race.clk = append(st.race.clk, nil)
	}
	for i := range st.race.clk {
		st.race.clk[i] = make([]int32, 16)
		st.race.clk[i][i] = 1
	}
}

func (in *Interp) raceSpawn(st *State, parent, child int) {
	if st.race == nil {
		return
	}
	r := st.race
	if child >= 16 {
		panic(unsupported("too many goroutines for race detection"))
	}
	c := append([]int32(nil), r.clk[parent]...)
	c[child] = 1
	r.clk = append(r.clk, c)
	r.clk[parent][parent]++
}

func (in *Interp) raceExit(st *State) {}

func (in *Interp) raceAcquire(st *State, p Ptr) {
	if st.race == nil {
		return
	}
	r := st.race
	if v, ok := r.sync_[p]; ok {
		c := r.clk[st.cur]
		for i := range c {
			if v[i] > c[i] {
				c[i] = v[i]
			}
		}
	}
}

func (in *Interp) raceRelease(st *State, p Ptr) {
	if st.race == nil {
		return
	}
	r := st.race
	c := r.clk[st.cur]
	v, ok := r.sync_[p]
	if !ok {
		v = make([]int32, 16)
		r.sync_[p] = v
	}
	for i := range c {
		if c[i] > v[i] {
			v[i] = c[i]
		}
	}
	c[st.cur]++
}

func (in *Interp) raceSync(st *State, p Ptr) {
	in.raceAcquire(st, p)
	in.raceRelease(st, p)
}

func (in *Interp) raceAccess(st *State, p Ptr, write bool, t types.Type) {
	if st.race == nil {
		return
	}
	n := int32(1)
	if t != nil {
		n = int32(in.layoutOf(t).n)
	}
	if p.Idx != nil {
		n = p.N * p.Stride
	}
	in.raceRange(st, p, n, write)
}

func (in *Interp) raceMap(st *State, m MapRef, write bool) {
	if st.race == nil || m.Obj == 0 {
		return
	}
	in.raceCells(st, m.Obj, 0, 1, write)
}

func (in *Interp) raceRange(st *State, p Ptr, n int32, write bool) {
	if st.race == nil || n <= 0 {
		return
	}
	in.raceCells(st, p.Obj, p.Off+1, n, write)
}

func (in *Interp) raceCells(st *State, id ObjID, from, n int32, write bool) {
	if len(st.gs) == 1 {
		return
	}
	r := st.race
	me := uint64(st.cur)
	c := r.clk[st.cur]
	now := me<<32 | uint64(uint32(c[me]))
	o := r.obj(id, from+n)
	var pos racePos
	if write {
		g := st.gs[st.cur]
		f := g.frames[len(g.frames)-1]
		pos = racePos{f.fi, f.block, f.pc}
	}
	for i := from; i < from+n; i++ {
		report := func(what string) {
			other := ""
			if k := o.wp[i]; k.fi != nil {
				cb := &k.fi.blocks[k.block]
				for pc := k.pc; pc >= 0 && other == ""; pc-- {
					if pc < len(cb.ins) && cb.ins[pc].ins.Pos().IsValid() {
						other = k.fi.name + " " + in.posOf(cb.ins[pc].ins.Pos())
					}
				}
			}
			in.violation(st, in.c.True, "race", "data race ("+what+")", in.where(st)+" / "+other, nil)
		}
		if w := o.w[i]; w != 0 && w>>32 != me && int32(uint32(w)) > c[w>>32] {
			if write {
				report("write/write")
			} else {
				report("write/read")
			}
		}
		if write {
			if rd := o.r[i]; rd == manyReaders {
				for g, k := range o.rs[i] {
					if uint64(g) != me && k > c[g] {
						report("read/write")
						break
					}
				}
				delete(o.rs, i)
			} else if rd != 0 && rd>>32 != me && int32(uint32(rd)) > c[rd>>32] {
				report("read/write")
			}
			o.r[i] = 0
			o.w[i], o.wp[i] = now, pos
			continue
		}
		switch rd := o.r[i]; {
		case rd == manyReaders:
			o.rs[i][me] = c[me]
		case rd == 0 || rd>>32 == me || int32(uint32(rd)) <= c[rd>>32]:
			o.r[i] = now
		default:
			v := make([]int32, 16)
			v[rd>>32] = int32(uint32(rd))
			v[me] = c[me]
			if o.rs == nil {
				o.rs = map[int32][]int32{}
			}
			o.rs[i] = v
			o.r[i] = manyReaders
		}
	}
}
