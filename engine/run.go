package main

// Path exploration, merging and scheduling.

import (
	"fmt"
	"math/big"
	"os"
	"runtime/debug"
	"sort"
	"time"

	"golang.org/x/tools/go/ssa"
)

type stopPt struct {
	frame int64
	depth int
	block int // -1 = return of the frame
}

const (
	whyDone = iota
	whyStop
	whyEscape
	whyFork
	whySched
	whyAbort
)

func (in *Interp) atStop(st *State, s *stopPt) bool {
	g := st.gs[st.cur]
	n := len(g.frames)
	if n > s.depth {
		return false
	}
	if n == s.depth {
		if s.block < 0 {
			return false
		}
		f := g.frames[n-1]
		return f.id == s.frame && f.block == s.block && f.pc == f.fi.blocks[f.block].nphi
	}
	return true
}

func (in *Interp) problem(msg string) {
	in.problems[msg]++
}

func (in *Interp) runSteps(st *State, stop *stopPt) (why int, fr forkReq) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case forkReq:
				why, fr = whyFork, x
			case unsupportedErr:
				in.problem(x.msg + " at " + in.where(st))
				in.st.PathsCut++
				why = whyAbort
			case budgetErr:
				in.stopAll = true
				in.problem("budget: " + x.what)
				why = whyAbort
			default:
				in.problem(fmt.Sprintf("engine: %v at %s", r, in.where(st)))
				if in.opt.Trace {
					fmt.Println(string(debug.Stack()))
					for _, l := range in.stack(st) {
						fmt.Println("   ", l)
					}
				}
				in.st.PathsCut++
				why = whyAbort
			}
		}
	}()
	depth := len(st.gs[st.cur].frames)
	if stop != nil && in.atStop(st, stop) {
		return whyStop, fr
	}
	for {
		in.step(st)
		if st.done {
			return whyDone, fr
		}
		if st.resched != 0 {
			return whySched, fr
		}
		if stop != nil {
			if st.escaped {
				return whyEscape, fr
			}
			g := st.gs[st.cur]
			if len(g.frames) <= stop.depth && in.atStop(st, stop) {
				return whyStop, fr
			}
			_ = depth
		}
	}
}

// runTo runs st until the stop point; the states that arrive are returned.
func (in *Interp) runTo(st *State, stop *stopPt) []*State {
	for {
		if in.stopAll {
			return nil
		}
		why, fr := in.runSteps(st, stop)
		switch why {
		case whyDone:
			in.st.Paths++
			if in.opt.MaxPaths > 0 && in.st.Paths >= in.opt.MaxPaths {
				in.problem("budget: paths")
				in.stopAll = true
			}
			return nil
		case whyAbort:
			in.st.Paths++
			return nil
		case whyStop:
			return []*State{st}
		case whyEscape:
			st.escaped = false
			in.work = append(in.work, st)
			return nil
		case whySched:
			ch := in.doSched(st)
			if len(ch) == 0 {
				in.st.Paths++
				return nil
			}
			for _, s := range ch[1:] {
				in.work = append(in.work, s)
			}
			st = ch[0]
			if stop != nil {
				in.work = append(in.work, st)
				return nil
			}
		case whyFork:
			in.st.Forks++
			if in.prof {
				in.instrCount["fork "+in.where(st)]++
			}
			if st.merge && len(st.gs) == 1 && st.gs[0].panick == nil {
				arr := in.mergeFork(st, fr)
				if len(arr) == 0 {
					return nil
				}
				if len(arr) == 1 {
					st = arr[0]
					continue
				}
				var out []*State
				if stop == nil {
					for _, s := range arr[1:] {
						in.work = append(in.work, s)
					}
					st = arr[0]
					continue
				}
				for _, s := range arr {
					out = append(out, in.runTo(s, stop)...)
				}
				return out
			}
			ch := in.fork(st, fr)
			if len(ch) == 0 {
				return nil // no value is possible: the path is not
			}
			if stop == nil {
				for i := len(ch) - 1; i > 0; i-- {
					in.work = append(in.work, ch[i])
				}
				st = ch[0]
				continue
			}
			var out []*State
			for _, s := range ch {
				out = append(out, in.runTo(s, stop)...)
			}
			return out
		}
	}
}

func (in *Interp) fork(st *State, fr forkReq) []*State {
	out := make([]*State, len(fr.conds))
	for i := range fr.conds {
		if i == len(fr.conds)-1 {
			out[i] = st
		} else {
			out[i] = st.clone()
		}
	}
	for i, c := range fr.conds {
		in.assume(out[i], c)
		if fr.t != nil {
			in.know(out[i], fr.t, fr.vals[i])
		}
		out[i].nforks++
	}
	return out
}

var splitTrace = os.Getenv("VH_SPLIT") != ""

// splitOn forks over all values of a narrow term.
func (in *Interp) splitOn(st *State, t *Term) {
	vals, ok := in.enumerate(st, t, 1<<uint(st.split))
	if !ok {
		return
	}
	if len(vals) == 1 {
		k := in.c.Const(t.W, vals[0])
		in.learn(st, in.c.Eq(t, k))
		in.know(st, t, k)
		return
	}
	if splitTrace {
		fmt.Fprintf(os.Stderr, "split %v: w=%d [%d,%d] %d values at %s\n", t.id, t.W, t.lo, t.hi, len(vals), in.where(st))
	}
	st.lastSplit = st.steps
	fr := forkReq{t: t}
	for _, v := range vals {
		k := in.c.Const(t.W, v)
		fr.conds = append(fr.conds, in.c.Eq(t, k))
		fr.vals = append(fr.vals, k)
	}
	panic(fr)
}

// cut finds the narrowest term of at most maxW bits that determines cond.
func (in *Interp) cut(cond *Term, maxW int) *Term {
	frontier := func(roots []*Term, maxW int) (*Term, bool) {
		var found *Term
		seen := map[*Term]bool{}
		stack := append([]*Term{}, roots...)
		for len(stack) > 0 {
			t := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			if seen[t] || t.Op == OConst {
				continue
			}
			seen[t] = true
			if t.W > 0 && t.W <= maxW {
				if found != nil && found != t {
					return nil, false
				}
				found = t
				continue
			}
			if t.Op == OVar || t.Op == OUF {
				return nil, false
			}
			if len(seen) > 200 {
				return nil, false
			}
			stack = append(stack, t.A...)
		}
		return found, found != nil
	}
	best, ok := frontier([]*Term{cond}, maxW)
	if !ok {
		return nil
	}
	cur := best
	for i := 0; i < 32; i++ {
		if cur.Op == OVar || cur.Op == OUF || len(cur.A) == 0 {
			break
		}
		n, ok := frontier(cur.A, maxW)
		if !ok {
			break
		}
		if n.W < best.W || (n.W == best.W && n.hi-n.lo <= best.hi-best.lo) {
			best = n
		}
		cur = n
	}
	return best
}

// ---- merging

func (in *Interp) mergeFork(st *State, fr forkReq) []*State {
	g := st.gs[st.cur]
	f := g.frames[len(g.frames)-1]
	ip := f.fi.blocks[f.block].ipdom
	stop := &stopPt{frame: f.id, depth: len(g.frames), block: ip}
	if ip < 0 || ip >= len(f.fi.blocks) {
		stop.block = -1
		if len(g.frames) == 1 || f.kind != retNormal {
			// nothing to return to
			ch := in.fork(st, fr)
			return ch
		}
	}
	in.depth++
	defer func() { in.depth-- }()
	if in.depth > 2000 {
		in.problem("forks nested too deeply at " + in.where(st))
		in.stopAll = true
		return nil
	}
	baseLen := len(st.pc)
	st.factSets()
	base := st.clone() // keeps the facts
	children := in.fork(st, fr)
	type arrived struct {
		s *State
		g *Term
	}
	var arr []arrived
	complete := true
	for _, ch := range children {
		before := len(ch.pc)
		rs := in.runTo(ch, stop)
		if in.stopAll {
			return nil
		}
		if len(rs) == 0 {
			complete = false
		}
		for _, r := range rs {
			if len(r.pc) != before || len(rs) > 1 {
				complete = false
			}
			arr = append(arr, arrived{r, in.c.And(r.pc[baseLen:]...)})
		}
	}
	if len(arr) == 0 {
		return nil
	}
	if len(arr) == 1 {
		return []*State{arr[0].s}
	}
	var out []arrived
	var cnt []int
	for k := len(arr) - 1; k >= 0; k-- {
		a := arr[k]
		done := false
		for i := range out {
			if in.merge2(out[i].s, a.s, a.g, stop, cnt[i] == 1, len(base.facts)) {
				out[i].g = in.c.Or(out[i].g, a.g)
				cnt[i]++
				done = true
				break
			}
		}
		if !done {
			out = append(out, a)
			cnt = append(cnt, 1)
		}
	}
	var res []*State
	for i, o := range out {
		if cnt[i] == 1 {
			res = append(res, o.s)
			continue
		}
		in.st.Merges++
		m := o.s
		m.pc = append([]*Term(nil), base.pc...)
		m.facts, m.fsets = base.facts, base.fsets
		if !(complete && len(out) == 1) {
			in.assume(m, o.g)
		}
		res = append(res, m)
	}
	return res
}

func sameDefers(a, b *deferred) bool { return a == b }

// merge2 merges b (under guard gb) into a; a is modified only on success.
func (in *Interp) merge2(a, b *State, gb *Term, stop *stopPt, first bool, facts int) bool {
	fA, fB := a.factsSince(facts), b.factsSince(facts)
	iteVal := func(g *Term, vb, va Value) (Value, bool) {
		if b.split > 0 {
			if t, ok := vb.(*Term); ok {
				vb = in.simpNear(fB, t)
			}
			if t, ok := va.(*Term); ok && first {
				va = in.simpNear(fA, t)
			}
		}
		return in.iteVal(g, vb, va)
	}

	if len(a.gs) != len(b.gs) || a.cur != b.cur || a.nd != b.nd || len(a.ndCnt) != len(b.ndCnt) ||
		a.merge != b.merge || a.split != b.split || a.lazy != b.lazy {
		if in.prof {
			in.instrCount[fmt.Sprintf("nomerge state nd=%v", a.nd != b.nd)]++
		}
		return false
	}
	ga, gB := a.gs[a.cur], b.gs[b.cur]
	if len(ga.frames) != len(gB.frames) || ga.panick != gB.panick {
		if in.prof {
			in.instrCount["nomerge frames"]++
		}
		return false
	}
	type regw struct {
		fi, r int
		v     Value
	}
	var regs []regw
	top := len(ga.frames) - 1
	for i := range ga.frames {
		fa, fb := ga.frames[i], gB.frames[i]
		if fa == fb {
			continue
		}
		if fa.id != fb.id || fa.block != fb.block || fa.pc != fb.pc || !sameDefers(fa.defers, fb.defers) || fa.kind != fb.kind {
			if in.prof {
				in.instrCount["nomerge frame "+fa.fi.name]++
			}
			return false
		}
		if i == top && stop.block >= 0 {
			live := fa.fi.blocks[fa.block].live
			for _, r := range live {
				va, vb := fa.regs[r], fb.regs[r]
				if sameVal(va, vb) {
					continue
				}
				m, ok := iteVal(gb, vb, va)
				if !ok {
					if in.prof {
						in.instrCount[fmt.Sprintf("nomerge reg %s r%d %T", fa.fi.name, r, va)]++
					}
					return false
				}
				regs = append(regs, regw{i, r, m})
			}
			// phi results of this block are live by definition when used
			continue
		}
		for r := range fa.regs {
			va, vb := fa.regs[r], fb.regs[r]
			if sameVal(va, vb) {
				continue
			}
			if va == nil || vb == nil {
				regs = append(regs, regw{i, r, nil})
				continue
			}
			m, ok := iteVal(gb, vb, va)
			if !ok {
				if in.prof {
					in.instrCount["nomerge ret "+fa.fi.name]++
				}
				return false
			}
			regs = append(regs, regw{i, r, m})
		}
	}
	// heap
	type cellw struct {
		id ObjID
		i  int32
		v  Value
	}
	type objw struct {
		id ObjID
		o  *object
	}
	type mapw struct {
		id   ObjID
		ents []mapEnt
	}
	var cells []cellw
	var adopt []objw
	var maps []mapw
	nc := len(a.heap.chunks)
	if len(b.heap.chunks) > nc {
		nc = len(b.heap.chunks)
	}
	for ci := 0; ci < nc; ci++ {
		var ca, cb *chunk
		if ci < len(a.heap.chunks) {
			ca = a.heap.chunks[ci]
		}
		if ci < len(b.heap.chunks) {
			cb = b.heap.chunks[ci]
		}
		if ca == cb || cb == nil {
			continue
		}
		for k := 0; k < chunkSize; k++ {
			ob := cb.objs[k]
			if ob == nil {
				continue
			}
			id := ObjID(ci*chunkSize + k)
			var oa *object
			if ca != nil {
				oa = ca.objs[k]
			}
			if oa == ob {
				continue
			}
			if oa == nil {
				adopt = append(adopt, objw{id, ob})
				continue
			}
			if oa.isMap {
				if len(oa.ents) != len(ob.ents) {
					if in.prof {
						in.instrCount["nomerge map"]++
					}
					return false
				}
				var ne []mapEnt
				ch := false
				for i := range oa.ents {
					ka, kb := oa.ents[i].key, ob.ents[i].key
					for j := range ka {
						if !sameVal(ka[j], kb[j]) {
							return false
						}
					}
					m, ok := iteVal(gb, ob.ents[i].val, oa.ents[i].val)
					if !ok {
						return false
					}
					ne = append(ne, mapEnt{ka, m.(Agg)})
					ch = true
				}
				if ch {
					maps = append(maps, mapw{id, ne})
				}
				continue
			}
			if oa.n != ob.n {
				return false
			}
			for pi := range oa.pages {
				pa, pb := oa.pages[pi], ob.pages[pi]
				if pa == pb {
					continue
				}
				for j := 0; j < pageSize; j++ {
					var va, vb Value
					if pa != nil {
						va = pa.v[j]
					}
					if pb != nil {
						vb = pb.v[j]
					}
					if sameVal(va, vb) {
						continue
					}
					if va == nil {
						va = in.zeroLike(vb)
					}
					if vb == nil {
						vb = in.zeroLike(va)
					}
					m, ok := iteVal(gb, vb, va)
					if !ok && a.split > 0 && strOrPoison(va) && strOrPoison(vb) {
						// left unusable: reading it is reported
						m, ok = poison{}, true
					}
					if !ok {
						if in.prof {
							in.instrCount[fmt.Sprintf("nomerge heap %s %T", oa.tag, va)]++
						}
						return false
					}
					cells = append(cells, cellw{id, int32(pi*pageSize + j), m})
				}
			}
		}
	}
	// commit
	for _, o := range adopt {
		a.heap.set(o.id, o.o)
	}
	for _, m := range maps {
		a.heap.writable(m.id).ents = m.ents
	}
	var last ObjID
	var lo *object
	for _, cw := range cells {
		if cw.id != last || lo == nil {
			lo = a.heap.writable(cw.id)
			last = cw.id
		}
		a.heap.store(lo, cw.i, cw.v)
	}
	for _, r := range regs {
		fa := ga.frames[r.fi]
		if fa.owner != a.ftok {
			nf := *fa
			nf.owner = a.ftok
			nf.regs = append([]Value(nil), fa.regs...)
			nf.locals = append([]ObjID(nil), fa.locals...)
			ga.frames[r.fi] = &nf
			fa = &nf
		}
		fa.regs[r.r] = r.v
	}
	// locals allocated on either side
	ft, fb := ga.frames[top], gB.frames[top]
	if ft != fb && len(fb.locals) > 0 {
		have := map[ObjID]bool{}
		for _, l := range ft.locals {
			have[l] = true
		}
		for _, l := range fb.locals {
			if !have[l] {
				w := a.wtop()
				w.locals = append(w.locals, l)
			}
		}
	}
	return true
}

// poison is the merge of two strings of different lengths (scratch state that
// is normally overwritten before use).
type poison struct{}

func strOrPoison(v Value) bool {
	switch v.(type) {
	case *Str, poison:
		return true
	}
	return false
}

func sameVal(a, b Value) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case *Term:
		y, ok := b.(*Term)
		return ok && x == y
	case Agg:
		y, ok := b.(Agg)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameVal(x[i], y[i]) {
				return false
			}
		}
		return true
	case Tuple:
		y, ok := b.(Tuple)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameVal(x[i], y[i]) {
				return false
			}
		}
		return true
	case *Str:
		y, ok := b.(*Str)
		if !ok {
			return false
		}
		if x == y {
			return true
		}
		return x.conc && y.conc && x.s == y.s
	case Iface:
		y, ok := b.(Iface)
		return ok && x.T == y.T && sameVal(x.V, y.V)
	case *ssa.Builtin:
		return a == b
	default:
		return a == b
	}
}

// ---- scheduling

func (in *Interp) reschedule(st *State, blocking bool) {
	if blocking {
		st.resched = 2
		return
	}
	if st.schedOn && st.gs[st.cur].panick == nil && st.resched == 0 {
		st.resched = 1
	}
}

func (in *Interp) doSched(st *State) []*State {
	mode := st.resched
	st.resched = 0
	var runnable []int
	for i, g := range st.gs {
		if g.status == gRun {
			runnable = append(runnable, i)
		}
	}
	cur := st.gs[st.cur]
	if len(runnable) == 0 {
		// deadlock
		alive := false
		for _, g := range st.gs {
			if g.status != gDone {
				alive = true
			}
		}
		if alive {
			var tr []string
			for i, g := range st.gs {
				if g.status != gDone {
					st.cur = i
					tr = append(tr, fmt.Sprintf("goroutine %d blocked:", i))
					tr = append(tr, in.stack(st)...)
				}
			}
			in.violation(st, in.c.True, "deadlock", "deadlock", in.where(st), tr)
		}
		return nil
	}
	if mode == 1 {
		if cur.status != gRun || len(runnable) == 1 {
			if cur.status == gRun {
				return []*State{st}
			}
			mode = 2
		} else if st.preempted >= st.maxPre {
			return []*State{st}
		}
	}
	if mode == 2 && !st.schedOn {
		// round robin from the current goroutine
		sort.Ints(runnable)
		next := runnable[0]
		for _, r := range runnable {
			if r > st.cur {
				next = r
				break
			}
		}
		st.cur = next
		return []*State{st}
	}
	var out []*State
	for i, r := range runnable {
		s := st
		if i < len(runnable)-1 {
			s = st.clone()
		}
		if mode == 1 && r != st.cur {
			s.preempted++
		}
		out = append(out, s)
	}
	old := st.cur
	for i, r := range runnable {
		out[i].cur = r
		if len(runnable) > 1 {
			out[i].trace = &traceNode{r, out[i].trace, fmt.Sprintf("switch g%d -> g%d", old, r)}
		}
	}
	// keep running the current goroutine first
	for i := range out {
		if runnable[i] == old {
			out[0], out[i] = out[i], out[0]
		}
	}
	return out
}

// addSched adds the scheduling decisions to the values of a path.
func (st *State) addSched(vals map[string]uint64) {
	n := 0
	for t := st.trace; t != nil; t = t.prev {
		n++
	}
	for t := st.trace; t != nil; t = t.prev {
		n--
		vals[fmt.Sprintf("sched#%d", n)] = uint64(t.dec)
	}
}

func (in *Interp) goExit(st *State) {
	g := st.gs[st.cur]
	g.status = gDone
	in.raceExit(st)
	if st.cur == 0 {
		st.done = true
		in.pathDone(st)
		return
	}
	in.reschedule(st, true)
}

func (in *Interp) uncaught(st *State, p *panicInfo) {
	in.violation(st, in.c.True, "panic", p.msg, p.pos, nil)
	st.done = true
}

// pathDone records a witness for a completed path.
func (in *Interp) pathDone(st *State) {
	if in.booting {
		return
	}
	if len(in.witness) < 1 {
		key := fmt.Sprintf("path%d", in.st.Paths)
		if v := in.modelWithin(st, in.c.True, 8*time.Second); v != nil {
			st.addSched(v)
			in.witness[key] = v
		}
	}
}

// modelOf solves the full path condition and q, and returns the nondet values.
func (in *Interp) modelOf(st *State, q *Term) map[string]uint64 {
	return in.modelWithin(st, q, in.opt.QueryTimeout*3)
}

func (in *Interp) modelWithin(st *State, q *Term, limit time.Duration) map[string]uint64 {
	conj := append(append([]*Term{}, st.pc...), q)
	real := 20 * time.Second
	if limit < real {
		real = limit
	}
	r, m := Sat, in.sol.tryReal(conj, real, 40)
	if m == nil {
		r, m = in.sol.Model(conj, limit)
	}
	if r != Sat || m == nil {
		if r == Unknown {
			r2, m2, _ := oneShot([]string{"z3-new", "-memory:6000", "-in", "-smt2"}, conj, limit)
			if r2 != Sat {
				return nil
			}
			m = m2
		} else {
			return nil
		}
	}
	vals := map[string]uint64{}
	ev := &evaluator{c: in.c, m: m, memo: map[*Term]uint64{}, wide: map[*Term]*big.Int{}, stop: time.Now().Add(20 * time.Second)}
	for n := st.nd; n != nil; n = n.prev {
		if n.t.Op == OConst {
			vals[n.name] = n.t.C
			continue
		}
		if v, ok := m[n.t.S]; ok && n.t.Op == OVar {
			vals[n.name] = v
		} else if v, ok := ev.eval(n.t); ok {
			vals[n.name] = v
		} else {
			vals[n.name] = 0
		}
	}
	return vals
}

func (in *Interp) violation(st *State, q *Term, kind, label, pos string, tr []string) bool {
	key := kind + "|" + label + "|" + pos
	if in.violKey[key] {
		return true
	}
	vals := in.modelOf(st, q)
	if vals == nil {
		// no model of the complete path condition
		if r, _ := in.sol.Model(append(append([]*Term{}, st.pc...), q), in.opt.QueryTimeout); r != Unsat {
			in.problem("unknown: " + kind + " " + label)
		} else if kind == "assert" {
			in.st.Discharged++
		}
		return false
	}
	in.violKey[key] = true
	v := &Violation{Kind: kind, Label: label, Pos: pos, Values: vals, Notes: append([]string(nil), st.notes...), Trace: tr}
	if v.Trace == nil {
		v.Trace = in.stack(st)
	}
	for t := st.trace; t != nil; t = t.prev {
		v.Notes = append(v.Notes, t.s)
	}
	st.addSched(v.Values)
	in.viols = append(in.viols, v)
	if d := time.Now().Add(30 * time.Second); d.Before(in.opt.Deadline) {
		in.opt.Deadline = d
	}
	if in.opt.QueryTimeout > 5*time.Second {
		in.opt.QueryTimeout = 5 * time.Second
	}
	if len(in.viols) >= in.maxViol {
		in.stopAll = true
	}
	return true
}

// Explore runs all paths from the root state.
func (in *Interp) Explore(root *State) {
	in.work = []*State{root}
	for len(in.work) > 0 && !in.stopAll {
		n := len(in.work) - 1
		st := in.work[n]
		in.work[n] = nil
		in.work = in.work[:n]
		in.runTo(st, nil)
	}
}
