package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type unsupportedErr struct{ msg string }

func (u unsupportedErr) Error() string { return "unsupported: " + u.msg }
func unsupported(msg string) error     { return unsupportedErr{msg} }

// ---- compiled functions

type opnd struct {
	kind byte // 'r' register, 'v' value, 'g' global
	idx  int
	val  Value
	glob *ssa.Global
}

type cinstr struct {
	ins ssa.Instruction
	ops []opnd
	dst int // -1 none
}

type cblock struct {
	ins    []cinstr
	nphi   int
	live   []int // registers live after the phis
	ipdom  int   // -1: virtual exit
	phiSrc [][]opnd
}

type FnInfo struct {
	fn      *ssa.Function
	name    string
	nregs   int
	params  []int
	free    []int
	blocks  []cblock
	intr    intrinsic
	redir   *ssa.Function
	isInit  bool
	skip    bool
	entered int
}

// ---- frames and goroutines

const (
	retNormal = iota
	retDefer
	retPanicDefer
	retGo
)

type deferred struct {
	fn      *ssa.Function
	free    []Value
	args    []Value
	builtin string
	next    *deferred
}

type Frame struct {
	owner      *token_
	fi         *FnInfo
	regs       []Value
	block      int
	pc         int
	prev       int
	defers     *deferred
	kind       int
	recovering bool
	locals     []ObjID
	id         int64
}

type token_ struct{ _ int }

type panicInfo struct {
	val       Value
	recovered bool
	msg       string
	pos       string
	prev      *panicInfo
}

const (
	gRun = iota
	gMutex
	gCond
	gWG
	gChan
	gDone
	gRW
)

type G struct {
	id      int
	frames  []*Frame
	status  int
	wait    Ptr
	panick  *panicInfo
	chWait  ObjID
	waitTag string
	vc      []int32
}

type ndNode struct {
	prev *ndNode
	name string
	t    *Term
}

type State struct {
	heap         heap
	gs           []*G
	cur          int
	pc           []*Term
	facts        []fact // terms with known values, in the order they were learned
	fsets        []*factSet
	nd           *ndNode
	ndCnt        map[string]int
	ftok         *token_
	steps        int64
	lastSplit    int64
	merge        bool
	split        int
	lazy         bool
	sched        int // remaining preemptions (exploration) ; -1 = none
	nforks       int
	notes        []string
	done         bool
	trace        *traceNode
	resumeForced bool
	locks        map[Ptr]int // mutex owner (goroutine id+1), for diagnostics
	race         *raceState
	schedOn      bool
	escaped      bool
	preempted    int
	syncSeq      int
	resched      int
	maxPre       int
	counters     map[string]*Term
}

type traceNode struct {
	dec  int // the goroutine that was chosen
	prev *traceNode
	s    string
}

func (st *State) top() *Frame {
	g := st.gs[st.cur]
	return g.frames[len(g.frames)-1]
}

// wtop returns the top frame, writable.
func (st *State) wtop() *Frame {
	g := st.gs[st.cur]
	n := len(g.frames) - 1
	f := g.frames[n]
	if f.owner != st.ftok {
		nf := *f
		nf.owner = st.ftok
		nf.regs = append([]Value(nil), f.regs...)
		nf.locals = append([]ObjID(nil), f.locals...)
		g.frames[n] = &nf
		f = &nf
	}
	return f
}

// A fact is a term known to have a constant value on a path.
type fact struct{ t, v *Term }

// A factSet is a stretch of the facts with the memo table of substituting
// them; sets are shared between states, so a term is rewritten only once by
// the facts states have in common.
type factSet struct {
	upto    int // facts below belong to this set or an earlier one
	m, memo map[*Term]*Term
	min     uint32
	limit   int // of the size of memo (0: none)
}

func newFactSet(fs []fact, upto int) *factSet {
	f := &factSet{upto: upto, m: make(map[*Term]*Term, len(fs)), memo: map[*Term]*Term{}}
	for _, x := range fs {
		f.m[x.t] = x.v
		if f.min == 0 || x.t.id < f.min {
			f.min = x.t.id
		}
	}
	return f
}

const maxSets = 24

// sets splits the facts into sets, the new ones in one of their own.
func (st *State) factSets() []*factSet {
	n := 0
	if k := len(st.fsets); k > 0 {
		n = st.fsets[k-1].upto
	}
	if n < len(st.facts) {
		fs := append([]*factSet(nil), st.fsets...)
		if len(fs) >= maxSets {
			fs = fs[:maxSets/2]
			n = fs[len(fs)-1].upto
		}
		st.fsets = append(fs, newFactSet(st.facts[n:], len(st.facts)))
	}
	return st.fsets
}

func (st *State) factsSince(n int) *factSet {
	if n > len(st.facts) {
		n = 0
	}
	return newFactSet(st.facts[n:], len(st.facts))
}

func (in *Interp) simpWith(f *factSet, t *Term) *Term {
	if t.Op == OConst || len(f.m) == 0 || t.id < f.min {
		return t
	}
	return in.c.substMin(t, f)
}

// simpNear is simpWith giving up on deep terms, for values that are usually
// not looked at again.
func (in *Interp) simpNear(f *factSet, t *Term) *Term {
	if t.Op == OConst || len(f.m) == 0 || t.id < f.min {
		return t
	}
	f.limit = len(f.memo) + 4000
	return in.c.substMin(t, f)
}

func (st *State) know(t, v *Term) {
	if !t.IsConst() {
		st.facts = append(st.facts, fact{t, v})
	}
}

func (st *State) clone() *State {
	n := *st
	st.facts = st.facts[:len(st.facts):len(st.facts)]
	n.facts = st.facts
	n.heap = st.heap.clone()
	n.gs = make([]*G, len(st.gs))
	for i, g := range st.gs {
		ng := *g
		ng.frames = append([]*Frame(nil), g.frames...)
		n.gs[i] = &ng
	}
	n.pc = append([]*Term(nil), st.pc...)
	n.ndCnt = make(map[string]int, len(st.ndCnt))
	for k, v := range st.ndCnt {
		n.ndCnt[k] = v
	}
	if st.counters != nil {
		n.counters = make(map[string]*Term, len(st.counters))
		for k, v := range st.counters {
			n.counters[k] = v
		}
	}
	if st.race != nil {
		n.race = st.race.clone()
	}
	st.ftok = &token_{}
	n.ftok = &token_{}
	return &n
}

// learn records that cond holds on this path (already in or implied by pc).
func (in *Interp) learn(st *State, cond *Term) {
	c := in.c
	set := st.know
	var rec func(t *Term, val bool)
	rec = func(t *Term, val bool) {
		switch {
		case t.Op == ONot:
			rec(t.A[0], !val)
			return
		case t.Op == OAnd && val:
			for _, a := range t.A {
				rec(a, true)
			}
		case t.Op == OOr && !val:
			for _, a := range t.A {
				rec(a, false)
			}
		case t.Op == OEq && val && t.A[0].W > 0:
			a, b := t.A[0], t.A[1]
			if b.IsConst() {
				set(a, b)
			} else if a.IsConst() {
				set(b, a)
			}
		}
		set(t, c.Bool(val))
	}
	rec(cond, true)
}

func (in *Interp) know(st *State, t, k *Term) { st.know(t, k) }

func (in *Interp) assume(st *State, cond *Term) {
	if cond == in.c.True {
		return
	}
	st.pc = append(st.pc, cond)
	in.learn(st, cond)
}

func (in *Interp) simp(st *State, t *Term) *Term {
	if t.Op == OConst {
		return t
	}
	for _, f := range st.factSets() {
		t = in.simpWith(f, t)
	}
	return t
}

// substMin is Subst ignoring terms older than the oldest known term.
func (c *TermCtx) substMin(t *Term, f *factSet) *Term {
	if t.Op == OConst || t.id < f.min {
		return t
	}
	if k, ok := f.m[t]; ok {
		return k
	}
	if t.Op == OVar || (f.limit > 0 && len(f.memo) >= f.limit) {
		return t
	}
	if r, ok := f.memo[t]; ok {
		return r
	}
	if t.Op == OIte {
		cond := c.substMin(t.A[0], f)
		var r *Term
		if cond == c.True {
			r = c.substMin(t.A[1], f)
		} else if cond == c.False {
			r = c.substMin(t.A[2], f)
		} else {
			r = c.Ite(cond, c.substMin(t.A[1], f), c.substMin(t.A[2], f))
		}
		f.memo[t] = r
		return r
	}
	var na []*Term
	for i, a := range t.A {
		b := c.substMin(a, f)
		if b != a && na == nil {
			na = make([]*Term, len(t.A))
			copy(na, t.A[:i])
		}
		if na != nil {
			na[i] = b
		}
	}
	r := t
	if na != nil {
		r = c.rebuild(t, na)
		if k, ok := f.m[r]; ok {
			r = k
		}
	}
	f.memo[t] = r
	return r
}

type forkReq struct {
	conds []*Term
	t     *Term // split on the values of this term
	vals  []*Term
}

// branch decides a condition on the current path, forking if both sides are
// possible.
func (in *Interp) branch(st *State, cond *Term) bool {
	cond = in.simp(st, cond)
	if cond == in.c.True {
		return true
	}
	if cond == in.c.False {
		return false
	}
	if !st.lazy {
		if in.feasible(st, cond) == Unsat {
			in.learn(st, in.c.Not(cond))
			return false
		}
		if in.feasible(st, in.c.Not(cond)) == Unsat {
			in.learn(st, cond)
			return true
		}
	}
	panic(forkReq{conds: []*Term{cond, in.c.Not(cond)}})
}

// must reports whether cond holds on all of the current path; if it may fail a
// fork is requested so that the failing side runs separately.
func (in *Interp) feasible(st *State, cond *Term) Result {
	return in.sol.Check(st.pc, cond, in.opt.QueryTimeout)
}

// concretize returns a concrete value for t, forking over all its values.
func (in *Interp) concretize(st *State, t *Term, max int) uint64 {
	t = in.simp(st, t)
	if t.IsConst() {
		return t.C
	}
	vals, ok := in.enumerate(st, t, max)
	if !ok {
		panic(unsupported(fmt.Sprintf("too many values for %s", t)))
	}
	if len(vals) == 1 {
		in.learn(st, in.c.Eq(t, in.c.Const(t.W, vals[0])))
		return vals[0]
	}
	var conds []*Term
	for _, v := range vals {
		conds = append(conds, in.c.Eq(t, in.c.Const(t.W, v)))
	}
	panic(forkReq{conds: conds})
}

// enumerate lists all feasible values of t on the path.
func (in *Interp) enumerate(st *State, t *Term, max int) ([]uint64, bool) {
	var vals []uint64
	if st.lazy && t.hi-t.lo < uint64(max) {
		for v := t.lo; ; v++ {
			if in.c.Eq(t, in.c.Const(t.W, v)) != in.c.False {
				vals = append(vals, v)
			}
			if v == t.hi {
				break
			}
		}
		return vals, true
	}
	if t.hi-t.lo < 16 && t.hi-t.lo < uint64(max) {
		for v := t.lo; ; v++ {
			e := in.c.Eq(t, in.c.Const(t.W, v))
			if e != in.c.False && in.feasible(st, e) != Unsat {
				vals = append(vals, v)
			}
			if v == t.hi {
				break
			}
		}
		return vals, true
	}
	ex := append([]*Term{}, st.pc...)
	for len(vals) <= max {
		probe := in.c.Var(fmt.Sprintf("probe!%d", t.W), t.W)
		q := in.c.mk(OEq, 0, 0, "", []*Term{probe, t})
		sl := append(in.sol.slice(ex, t), q)
		r, m := in.sol.Model(sl, in.opt.QueryTimeout)
		if r == Unsat {
			return vals, true
		}
		if r != Sat || m == nil {
			panic(unsupported("cannot enumerate values"))
		}
		v := m[probe.S]
		vals = append(vals, v)
		ex = append(ex, in.c.Not(in.c.Eq(t, in.c.Const(t.W, v))))
	}
	return vals, false
}

// ---- compilation of functions

func (in *Interp) info(fn *ssa.Function) *FnInfo {
	if fi, ok := in.fns[fn]; ok {
		return fi
	}
	fi := &FnInfo{fn: fn, name: fn.String()}
	in.fns[fn] = fi
	if h, ok := intrinsics[fi.name]; ok {
		fi.intr = h
		return fi
	}
	if o := fn.Origin(); o != nil && o != fn {
		if h, ok := intrinsics[o.String()]; ok {
			fi.intr = h
			return fi
		}
	}
	if r := in.redirect(fi.name); r != nil {
		fi.redir = r
		return fi
	}
	if fn.Synthetic == "package initializer" && !in.mayInit(fn.Pkg.Pkg.Path()) {
		fi.intr = nop
		return fi
	}
	buildMu.Lock()
	built := fn.Blocks != nil
	buildMu.Unlock()
	if !built {
		pkg := fn.Pkg
		if pkg == nil && fn.Origin() != nil {
			pkg = fn.Origin().Pkg
		}
		if pkg == nil && fn.Object() != nil && fn.Object().Pkg() != nil {
			pkg = in.prog.ByPath[fn.Object().Pkg().Path()]
		}
		if pkg != nil {
			in.prog.ensureBuilt(pkg)
		}
	}
	if fn.Blocks == nil {
		return fi
	}
	in.compile(fi)
	return fi
}

func (in *Interp) compile(fi *FnInfo) {
	fn := fi.fn
	regs := map[ssa.Value]int{}
	n := 0
	for _, p := range fn.Params {
		regs[p] = n
		fi.params = append(fi.params, n)
		n++
	}
	for _, p := range fn.FreeVars {
		regs[p] = n
		fi.free = append(fi.free, n)
		n++
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				regs[v] = n
				n++
			}
		}
	}
	fi.nregs = n
	mkop := func(v ssa.Value) opnd {
		if v == nil {
			return opnd{kind: 'v'}
		}
		if r, ok := regs[v]; ok {
			return opnd{kind: 'r', idx: r}
		}
		switch x := v.(type) {
		case *ssa.Const:
			return opnd{kind: 'v', val: in.constValue(x)}
		case *ssa.Global:
			return opnd{kind: 'g', glob: x}
		case *ssa.Function:
			return opnd{kind: 'v', val: &Closure{Fn: x}}
		case *ssa.Builtin:
			return opnd{kind: 'v', val: x}
		}
		panic(unsupported(fmt.Sprintf("operand %T", v)))
	}
	fi.blocks = make([]cblock, len(fn.Blocks))
	for bi, b := range fn.Blocks {
		cb := &fi.blocks[bi]
		for _, i := range b.Instrs {
			ci := cinstr{ins: i, dst: -1}
			if v, ok := i.(ssa.Value); ok {
				ci.dst = regs[v]
			}
			if ph, ok := i.(*ssa.Phi); ok {
				cb.nphi++
				var src []opnd
				for _, e := range ph.Edges {
					src = append(src, mkop(e))
				}
				cb.phiSrc = append(cb.phiSrc, src)
			} else {
				var rands []*ssa.Value
				rands = i.Operands(rands)
				for _, r := range rands {
					if r == nil || *r == nil {
						ci.ops = append(ci.ops, opnd{kind: 'v'})
						continue
					}
					ci.ops = append(ci.ops, mkop(*r))
				}
			}
			cb.ins = append(cb.ins, ci)
		}
	}
	in.computeLive(fi)
	in.computeIpdom(fi)
}

func (in *Interp) computeLive(fi *FnInfo) {
	nb := len(fi.blocks)
	words := (fi.nregs + 63) / 64
	liveIn := make([][]uint64, nb) // before phis' defs but after phi operands accounted on edges
	use := make([][]uint64, nb)
	def := make([][]uint64, nb)
	for i := range fi.blocks {
		liveIn[i] = make([]uint64, words)
		use[i] = make([]uint64, words)
		def[i] = make([]uint64, words)
		cb := &fi.blocks[i]
		for k := range cb.ins {
			ci := &cb.ins[k]
			if k >= cb.nphi {
				for _, o := range ci.ops {
					if o.kind == 'r' && def[i][o.idx/64]>>(uint(o.idx)%64)&1 == 0 {
						use[i][o.idx/64] |= 1 << (uint(o.idx) % 64)
					}
				}
			}
			if ci.dst >= 0 && k >= cb.nphi {
				def[i][ci.dst/64] |= 1 << (uint(ci.dst) % 64)
			}
		}
	}
	fn := fi.fn
	// liveIn (after phis) = use ∪ (liveOut \ def); liveOut = ∪ succ (liveIn(succ) \ phis(succ)) ∪ phi uses on the edge
	// registers used by deferred/recover: results named are allocs, fine
	for changed := true; changed; {
		changed = false
		for i := nb - 1; i >= 0; i-- {
			out := make([]uint64, words)
			for _, s := range fn.Blocks[i].Succs {
				sb := &fi.blocks[s.Index]
				tmp := append([]uint64(nil), liveIn[s.Index]...)
				for k := 0; k < sb.nphi; k++ {
					d := sb.ins[k].dst
					tmp[d/64] &^= 1 << (uint(d) % 64)
				}
				for pi, p := range s.Preds {
					if p.Index == i {
						for k := 0; k < sb.nphi; k++ {
							o := sb.phiSrc[k][pi]
							if o.kind == 'r' {
								tmp[o.idx/64] |= 1 << (uint(o.idx) % 64)
							}
						}
					}
				}
				for w := range out {
					out[w] |= tmp[w]
				}
			}
			for w := range out {
				nv := use[i][w] | (out[w] &^ def[i][w])
				if nv != liveIn[i][w] {
					liveIn[i][w] = nv
					changed = true
				}
			}
		}
	}
	// recover block uses
	if fn.Recover != nil {
		ri := fn.Recover.Index
		for i := range liveIn {
			for w := range liveIn[i] {
				liveIn[i][w] |= liveIn[ri][w]
			}
		}
	}
	for i := range fi.blocks {
		for r := 0; r < fi.nregs; r++ {
			if liveIn[i][r/64]>>(uint(r)%64)&1 == 1 {
				fi.blocks[i].live = append(fi.blocks[i].live, r)
			}
		}
	}
}

func (in *Interp) computeIpdom(fi *FnInfo) {
	fn := fi.fn
	n := len(fn.Blocks)
	exit := n
	// post-dominator sets by iteration (small functions)
	words := (n + 1 + 63) / 64
	full := make([]uint64, words)
	for i := 0; i <= n; i++ {
		full[i/64] |= 1 << (uint(i) % 64)
	}
	pd := make([][]uint64, n+1)
	for i := 0; i < n; i++ {
		pd[i] = append([]uint64(nil), full...)
	}
	pd[exit] = make([]uint64, words)
	pd[exit][exit/64] |= 1 << (uint(exit) % 64)
	for changed := true; changed; {
		changed = false
		for i := n - 1; i >= 0; i-- {
			nv := append([]uint64(nil), full...)
			succs := fn.Blocks[i].Succs
			if len(succs) == 0 {
				copy(nv, pd[exit])
			}
			for _, s := range succs {
				for w := range nv {
					nv[w] &= pd[s.Index][w]
				}
			}
			nv[i/64] |= 1 << (uint(i) % 64)
			for w := range nv {
				if nv[w] != pd[i][w] {
					pd[i] = nv
					changed = true
					break
				}
			}
		}
	}
	cnt := func(s []uint64) int {
		k := 0
		for i := 0; i <= n; i++ {
			if s[i/64]>>(uint(i)%64)&1 == 1 {
				k++
			}
		}
		return k
	}
	for i := 0; i < n; i++ {
		// ipdom = the strict postdominator with the largest pd set
		best, bc := -1, -1
		for j := 0; j < n; j++ {
			if j != i && pd[i][j/64]>>(uint(j)%64)&1 == 1 {
				if k := cnt(pd[j]); k > bc {
					best, bc = j, k
				}
			}
		}
		fi.blocks[i].ipdom = best
	}
}

func (in *Interp) posOf(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	ps := in.prog.Prog.Fset.Position(p)
	fn := ps.Filename
	if i := strings.LastIndex(fn, "/"); i >= 0 {
		fn = fn[i+1:]
	}
	return fmt.Sprintf("%s:%d", fn, ps.Line)
}

func isAggType(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}
