package main

// The four-way permutation is written in assembly.  asmPermute parses the
// assembly source and executes it on the symbolic memory of the caller: every
// 256-bit register is four 64-bit terms.  The terms would grow exponentially
// over the 24 rounds; therefore every result that equals an output of a round
// of Keccak-f (found by evaluation at random points, then shown for all values
// by rewriting or by the solver) is replaced by a fresh variable that stands
// for that output, and the next round is expressed over these variables.

import (
	"fmt"
	"math/bits"
	"math/rand"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

type asmWord struct {
	t    *Term
	v    [2]uint64 // value at two random points
	know bool
}

type asmPtr struct {
	obj ObjID
	off int64 // bytes from the start of the object
}

type asmGP struct {
	isPtr bool
	p     asmPtr
	v     uint64
}

type asmIns struct {
	op   string
	args []string
	line int
}

type asmSym struct {
	in     *Interp
	st     *State
	gp     map[string]asmGP
	y      map[string][4]asmWord
	zf     bool
	args   []asmPtr
	argNm  []string
	cells  map[asmPtr]asmWord // by cell: off is a multiple of 8
	spec   map[[2]uint64]asmSpec
	rnd    *rand.Rand
	dry    bool // only the values at the random points
	terms  int
}

type asmSpec struct {
	def *Term // over the variables of the previous round
	cut asmWord
}

// parse one TEXT block
func asmParse(path, fn string) (ins []asmIns, labels map[string]int, err error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, nil, err
	}
	labels = map[string]int{}
	inside := false
	for i, l := range strings.Split(string(b), "\n") {
		if k := strings.Index(l, "//"); k >= 0 {
			l = l[:k]
		}
		for _, l := range strings.Split(l, ";") {
			l = strings.TrimSpace(l)
			if l == "" || strings.HasPrefix(l, "#") {
				continue
			}
			if strings.HasPrefix(l, "TEXT") {
				inside = strings.Contains(l, "·"+fn+"(SB)")
				continue
			}
			if !inside {
				continue
			}
			if k := strings.Index(l, ":"); k > 0 && !strings.ContainsAny(l[:k], " \t$,(") {
				labels[l[:k]] = len(ins)
				l = strings.TrimSpace(l[k+1:])
				if l == "" {
					continue
				}
			}
			f := strings.Fields(l)
			a := asmIns{op: f[0], line: i + 1}
			rest := strings.TrimSpace(l[len(f[0]):])
			if rest != "" {
				for _, x := range strings.Split(rest, ",") {
					a.args = append(a.args, strings.TrimSpace(x))
				}
			}
			ins = append(ins, a)
		}
	}
	if len(ins) == 0 {
		return nil, nil, fmt.Errorf("no %s in %s", fn, path)
	}
	return
}

func (s *asmSym) fail(line int, format string, a ...interface{}) {
	panic(asmFault{fmt.Sprintf(format, a...), line})
}

type asmFault struct {
	why  string
	line int
}

func asmImm(x string) (uint64, bool) {
	if !strings.HasPrefix(x, "$") {
		return 0, false
	}
	x = x[1:]
	if v, err := strconv.ParseInt(x, 0, 64); err == nil {
		return uint64(v), true
	}
	v, err := strconv.ParseUint(x, 0, 64)
	return v, err == nil
}

func isMem(x string) bool { return strings.Contains(x, "(") && !strings.HasSuffix(x, "(FP)") }

func (s *asmSym) addr(a string, line int) asmPtr {
	k := strings.Index(a, "(")
	disp := int64(0)
	if k > 0 {
		v, err := strconv.ParseInt(a[:k], 0, 64)
		if err != nil {
			panic(unsupported("assembly operand " + a))
		}
		disp = v
	}
	r := strings.TrimSuffix(a[k+1:], ")")
	scale := int64(0)
	if k2 := strings.Index(r, ")("); k2 > 0 { // base(index*scale)
		ix := strings.Split(r[k2+2:], "*")
		r = r[:k2]
		scale = 1
		if len(ix) == 2 {
			scale, _ = strconv.ParseInt(ix[1], 0, 64)
		}
		g, ok := s.gp[ix[0]]
		if !ok || g.isPtr {
			panic(unsupported("assembly operand " + a))
		}
		disp += scale * int64(g.v)
	}
	g, ok := s.gp[r]
	if !ok || !g.isPtr {
		panic(unsupported("assembly operand " + a))
	}
	return asmPtr{g.p.obj, g.p.off + disp}
}

func (s *asmSym) cell(p asmPtr, line int) asmWord {
	if p.off&7 != 0 {
		panic(unsupported("assembly: access to part of a word"))
	}
	if w, ok := s.cells[p]; ok {
		return w
	}
	o := s.st.heap.get(p.obj)
	if p.off < 0 || p.off/8 >= int64(o.n) {
		s.fail(line, "reads outside its buffer")
	}
	t, ok := s.in.loadCell(s.st, o, int32(p.off/8), cellKind{'i', 64}).(*Term)
	if !ok {
		panic(unsupported("assembly: reads a pointer"))
	}
	w := asmWord{t: t}
	for i := range w.v {
		if t.IsConst() {
			w.v[i] = t.C
		} else {
			w.v[i] = s.rnd.Uint64()
		}
	}
	s.cells[p] = w
	return w
}

func (s *asmSym) aligned(p asmPtr, op string, line int) {
	if (uint64(p.off)+uint64(s.in.opt.Align))&31 != 0 {
		s.fail(line, "%s on an address that is not 32-byte aligned", op)
	}
}

func (s *asmSym) load(a string, op string, line int) [4]asmWord {
	if !isMem(a) {
		y, ok := s.y[a]
		if !ok {
			panic(unsupported("assembly: register " + a + " read before written"))
		}
		return y
	}
	p := s.addr(a, line)
	if op == "VMOVDQA" {
		s.aligned(p, op, line)
	}
	var r [4]asmWord
	for i := range r {
		r[i] = s.cell(asmPtr{p.obj, p.off + 8*int64(i)}, line)
	}
	return r
}

func (s *asmSym) op2(a, b asmWord, f func(a, b *Term) *Term, g func(a, b uint64) uint64) asmWord {
	var r asmWord
	if !s.dry {
		r.t = f(a.t, b.t)
	}
	for i := range r.v {
		r.v[i] = g(a.v[i], b.v[i])
	}
	return r
}

// cut replaces outputs of rounds by their variables.
func (s *asmSym) cut(w asmWord) asmWord {
	if s.dry {
		return w
	}
	sp, ok := s.spec[w.v]
	if !ok {
		return w
	}
	if sp.cut.t == w.t {
		return w
	}
	if !s.same(w.t, sp.def) {
		return w
	}
	return sp.cut
}

func (s *asmSym) same(a, b *Term) bool {
	if a == b {
		return true
	}
	in := s.in
	q := in.c.Eq(a, b)
	if q == in.c.True {
		return true
	}
	return in.sol.Check(nil, in.c.Not(q), in.opt.QueryTimeout) == Unsat
}

func rotl(c *TermCtx, a *Term, n int) *Term {
	if n == 0 {
		return a
	}
	return c.BOr(c.ShlC(a, n), c.LshrC(a, 64-n))
}

// round adds the outputs of one round of Keccak-f.
func (s *asmSym) round(a *[25]asmWord, r, lane int) {
	c := s.in.c
	xor := func(a, b asmWord) asmWord {
		return s.op2(a, b, c.BXor, func(a, b uint64) uint64 { return a ^ b })
	}
	rot := func(a asmWord, n int) asmWord {
		var w asmWord
		if !s.dry {
			w.t = rotl(c, a.t, n)
		}
		for i := range w.v {
			w.v[i] = bits.RotateLeft64(a.v[i], n)
		}
		return w
	}
	var p [5]asmWord
	for x := 0; x < 5; x++ {
		p[x] = xor(xor(xor(xor(a[x], a[x+5]), a[x+10]), a[x+15]), a[x+20])
	}
	var b [25]asmWord
	for x := 0; x < 5; x++ {
		d := xor(p[(x+4)%5], rot(p[(x+1)%5], 1))
		for y := 0; y < 25; y += 5 {
			b[x+y] = xor(a[x+y], d)
		}
	}
	x, y := 1, 0
	cur := b[1]
	for t := 0; t < 24; t++ {
		x, y = y, (2*x+3*y)%5
		cur, b[x+5*y] = b[x+5*y], rot(cur, (t+1)*(t+2)/2%64)
	}
	for y := 0; y < 25; y += 5 {
		for x := 0; x < 5; x++ {
			n := s.op2(b[y+(x+1)%5], b[y+(x+2)%5], func(a, b *Term) *Term { return c.BAnd(c.BNot(a), b) },
				func(a, b uint64) uint64 { return ^a & b })
			a[y+x] = xor(b[y+x], n)
		}
	}
	k := keccakRC()[r]
	a[0] = xor(a[0], asmWord{t: c.Const(64, k), v: [2]uint64{k, k}})
	for i := range a {
		v := asmWord{t: c.Var(fmt.Sprintf("keccak!%d.%d.%d", r, lane, i), 64), v: a[i].v}
		s.spec[a[i].v] = asmSpec{a[i].t, v}
		a[i] = v
	}
}

// asmPermute runs the assembly on the state at p; it reports what is wrong
// with it, if anything, and for which contents of the state.
func (in *Interp) asmPermute(st *State, args []Ptr, dir string) (why string, when *Term) {
	path := filepath.Join(dir, "f1600x4_amd64.s")
	ins, labels, err := asmParse(path, "f1600x4")
	if err != nil {
		panic(unsupported("assembly: " + err.Error()))
	}
	// first at two random points, so that the terms of a wrong result, which
	// nothing cuts, are never built
	why, when = in.asmRun(st, args, ins, labels, true)
	if why != "" {
		return
	}
	return in.asmRun(st, args, ins, labels, false)
}

func (in *Interp) asmRun(st *State, args []Ptr, ins []asmIns, labels map[string]int, dry bool) (why string, when *Term) {
	c := in.c
	s := &asmSym{in: in, st: st, gp: map[string]asmGP{}, y: map[string][4]asmWord{}, cells: map[asmPtr]asmWord{},
		spec: map[[2]uint64]asmSpec{}, rnd: rand.New(rand.NewSource(1)), dry: dry, terms: c.Count()}
	for _, a := range args {
		s.args = append(s.args, asmPtr{a.Obj, int64(a.Off) * 8})
	}
	base := s.args[0]
	when = c.True
	defer func() {
		if e := recover(); e != nil {
			f, ok := e.(asmFault)
			if !ok {
				panic(e)
			}
			why = fmt.Sprintf("%s (line %d of the assembly)", f.why, f.line)
		}
	}()
	if base.off/8+100 > int64(st.heap.get(base.obj).n) {
		s.fail(0, "the buffer is too small")
	}
	var want [4][25]asmWord
	var eqs []*Term
	for lane := 0; lane < 4; lane++ {
		a := &want[lane]
		for i := range a {
			a[i] = s.cell(asmPtr{base.obj, base.off + 8*int64(4*i+lane)}, 0)
			eqs = append(eqs, c.Eq(a[i].t, c.Const(64, a[i].v[0])))
		}
		for r := 0; r < 24; r++ {
			s.round(a, r, lane)
		}
	}
	steps := 0
	for pc := 0; ; {
		if pc >= len(ins) {
			panic(unsupported("assembly: no RET"))
		}
		steps++
		if steps > 200000 {
			panic(unsupported("assembly: too many steps"))
		}
		if c.Count()-s.terms > 1000000 {
			panic(unsupported("assembly: terms grow too large"))
		}
		i := ins[pc]
		pc++
		if i.op == "RET" {
			break
		}
		if strings.HasPrefix(i.op, "J") {
			to, ok := labels[i.args[0]]
			if !ok {
				panic(unsupported("assembly: " + i.op + " " + i.args[0]))
			}
			switch i.op {
			case "JMP":
				pc = to
			case "JNZ", "JNE":
				if !s.zf {
					pc = to
				}
			case "JZ", "JE", "JEQ":
				if s.zf {
					pc = to
				}
			default:
				panic(unsupported("assembly: " + i.op))
			}
			continue
		}
		s.exec(i)
	}
	bad, unproved := 0, 0
	for lane := 0; lane < 4; lane++ {
		for w := 0; w < 25; w++ {
			got := s.cell(asmPtr{base.obj, base.off + 8*int64(4*w+lane)}, 0)
			switch {
			case got.v != want[lane][w].v:
				bad++
			case dry:
			case got.t != want[lane][w].t:
				unproved++
			}
		}
	}
	if bad > 0 {
		return fmt.Sprintf("%d of 100 words differ from Keccak-f", bad), c.And(eqs...)
	}
	for p, w := range s.cells {
		if p.obj == base.obj && p.off >= base.off && p.off < base.off+800 {
			continue
		}
		if o, ok := in.loadCell(st, st.heap.get(p.obj), int32(p.off/8), cellKind{'i', 64}).(*Term); !ok || !dry && w.t != o || o.IsConst() && w.v[0] != o.C {
			return "writes outside the state", c.And(eqs...)
		}
	}
	if dry {
		return
	}
	in.st.Steps += int64(steps)
	in.st.Asserts += 100
	in.st.Discharged += 100 - unproved
	if unproved > 0 {
		panic(unsupported("assembly: result not shown equal"))
	}
	return
}

func (s *asmSym) exec(i asmIns) {
	c := s.in.c
	un := func() { panic(unsupported(fmt.Sprintf("assembly: %s %v", i.op, i.args))) }
	need := func(n int) {
		if len(i.args) != n {
			un()
		}
	}
	switch i.op {
	case "MOVQ":
		need(2)
		if strings.HasSuffix(i.args[0], "(FP)") {
			k := strings.Index(i.args[0], "+")
			if k < 0 {
				un()
			}
			off, err := strconv.Atoi(strings.TrimSuffix(i.args[0][k+1:], "(FP)"))
			if err != nil || off%8 != 0 || off/8 >= len(s.args) {
				un()
			}
			s.gp[i.args[1]] = asmGP{isPtr: true, p: s.args[off/8]}
			return
		}
		if v, ok := asmImm(i.args[0]); ok && !isMem(i.args[1]) {
			s.gp[i.args[1]] = asmGP{v: v}
			return
		}
		if g, ok := s.gp[i.args[0]]; ok && !isMem(i.args[1]) {
			s.gp[i.args[1]] = g
			return
		}
		un()
	case "XORQ", "XORL":
		need(2)
		if i.args[0] != i.args[1] {
			un()
		}
		s.gp[i.args[0]] = asmGP{}
		s.zf = true
	case "LEAQ":
		need(2)
		s.gp[i.args[1]] = asmGP{isPtr: true, p: s.addr(i.args[0], i.line)}
	case "ADDQ", "SUBQ", "CMPQ", "INCQ", "DECQ", "TESTQ":
		var v uint64
		dst := i.args[len(i.args)-1]
		switch i.op {
		case "INCQ", "DECQ":
			need(1)
			v = 1
		default:
			need(2)
			src := i.args[0]
			if i.op == "CMPQ" { // CMPQ a, b compares a with b
				src, dst = i.args[1], i.args[0]
			}
			x, ok := asmImm(src)
			if !ok {
				g, ok := s.gp[src]
				if !ok || g.isPtr {
					un()
				}
				x = g.v
			}
			v = x
		}
		g, ok := s.gp[dst]
		if !ok {
			un()
		}
		if i.op == "SUBQ" || i.op == "DECQ" || i.op == "CMPQ" {
			v = -v
		}
		if i.op == "TESTQ" {
			if g.isPtr {
				un()
			}
			s.zf = g.v&v == 0
			return
		}
		if g.isPtr {
			if i.op == "CMPQ" {
				un()
			}
			g.p.off += int64(v)
			s.zf = false
		} else {
			g.v += v
			s.zf = g.v == 0
		}
		if i.op != "CMPQ" {
			s.gp[dst] = g
		}
	case "VZEROUPPER", "NOP", "PCALIGN":
	case "VMOVDQA", "VMOVDQU":
		need(2)
		if isMem(i.args[0]) && isMem(i.args[1]) {
			un()
		}
		v := s.load(i.args[0], i.op, i.line)
		if !isMem(i.args[1]) {
			s.y[i.args[1]] = v
			return
		}
		p := s.addr(i.args[1], i.line)
		if i.op == "VMOVDQA" {
			s.aligned(p, i.op, i.line)
		}
		o := s.st.heap.get(p.obj)
		for k := range v {
			q := asmPtr{p.obj, p.off + 8*int64(k)}
			if q.off < 0 || q.off/8 >= int64(o.n) {
				s.fail(i.line, "writes outside its buffer")
			}
			s.cell(q, i.line)
			s.cells[q] = v[k]
		}
	case "VPBROADCASTQ":
		need(2)
		if !isMem(i.args[0]) {
			un()
		}
		w := s.cell(s.addr(i.args[0], i.line), i.line)
		s.y[i.args[1]] = [4]asmWord{w, w, w, w}
	case "VPXOR", "VPOR", "VPAND", "VPANDN":
		need(3)
		if isMem(i.args[1]) || isMem(i.args[2]) {
			un()
		}
		a, b := s.load(i.args[0], i.op, i.line), s.load(i.args[1], i.op, i.line)
		var r [4]asmWord
		for k := range r {
			var w asmWord
			switch i.op {
			case "VPXOR":
				w = s.op2(a[k], b[k], c.BXor, func(a, b uint64) uint64 { return a ^ b })
			case "VPOR":
				w = s.op2(a[k], b[k], c.BOr, func(a, b uint64) uint64 { return a | b })
			case "VPAND":
				w = s.op2(a[k], b[k], c.BAnd, func(a, b uint64) uint64 { return a & b })
			default:
				w = s.op2(a[k], b[k], func(a, b *Term) *Term { return c.BAnd(c.BNot(b), a) }, func(a, b uint64) uint64 { return a &^ b })
			}
			r[k] = s.cut(w)
		}
		s.y[i.args[2]] = r
	case "VPSLLQ", "VPSRLQ":
		need(3)
		n, ok := asmImm(i.args[0])
		if !ok || isMem(i.args[1]) {
			un()
		}
		a := s.load(i.args[1], i.op, i.line)
		var r [4]asmWord
		for k := range r {
			w := asmWord{t: c.Const(64, 0)}
			if n < 64 {
				for q := range w.v {
					if i.op == "VPSLLQ" {
						w.v[q] = a[k].v[q] << n
					} else {
						w.v[q] = a[k].v[q] >> n
					}
				}
				if s.dry {
				} else if i.op == "VPSLLQ" {
					w.t = c.ShlC(a[k].t, int(n))
				} else {
					w.t = c.LshrC(a[k].t, int(n))
				}
			}
			r[k] = s.cut(w)
		}
		s.y[i.args[2]] = r
	default:
		un()
	}
}
