package main

// Hash-consed bit-vector / boolean terms with simplification.

import (
	"fmt"
	"math/big"
	"math/bits"
	"sort"
	"strings"
	"time"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	OUF
	ONot
	OAnd
	OOr
	OEq
	OUlt
	OSlt
	OIte
	BNot
	BAnd
	BOr
	BXor
	OAdd
	OMul
	OUdiv
	OUrem
	OSdiv
	OSrem
	OShl
	OLshr
	OAshr
	OConcat
	OExtract // C = lo
	OSext
)

// A Term is an immutable node.  W==0 means Bool.
type Term struct {
	Op     Op
	W      int
	C      uint64
	A      []*Term
	S      string
	id     uint32
	lo, hi uint64 // unsigned interval (W<=64)
	next   *Term
	small  int8 // -1 unknown
}

func (t *Term) IsConst() bool { return t.Op == OConst }

type TermCtx struct {
	tab     map[uint64]*Term
	nterms  uint32
	True    *Term
	False   *Term
	cache   [65][]*Term
	extMemo map[extKey]*Term
}

type extKey struct {
	t      *Term
	hi, lo int
}

func NewTermCtx() *TermCtx {
	c := &TermCtx{tab: make(map[uint64]*Term, 1<<16), extMemo: map[extKey]*Term{}}
	c.True = c.mk(OConst, 0, 1, "", nil)
	c.False = c.mk(OConst, 0, 0, "", nil)
	for _, w := range []int{8, 16, 32, 64} {
		c.cache[w] = make([]*Term, 1024)
	}
	return c
}

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func hashMix(h, x uint64) uint64 {
	h ^= x
	h *= 0x9E3779B97F4A7C15
	h ^= h >> 29
	return h
}

func (c *TermCtx) mk(op Op, w int, cv uint64, s string, args []*Term) *Term {
	h := hashMix(uint64(op)<<32|uint64(w), cv)
	for i := 0; i < len(s); i++ {
		h = hashMix(h, uint64(s[i]))
	}
	for _, a := range args {
		h = hashMix(h, uint64(a.id)+1)
	}
	for t := c.tab[h]; t != nil; t = t.next {
		if t.Op == op && t.W == w && t.C == cv && len(t.A) == len(args) && t.S == s {
			ok := true
			for i := range args {
				if t.A[i] != args[i] {
					ok = false
					break
				}
			}
			if ok {
				return t
			}
		}
	}
	c.nterms++
	t := &Term{Op: op, W: w, C: cv, S: s, A: args, id: c.nterms, next: c.tab[h]}
	c.tab[h] = t
	c.interval(t)
	return t
}

func (c *TermCtx) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}

func (c *TermCtx) Const(w int, v uint64) *Term {
	v &= mask(w)
	if w <= 64 && v < 1024 && c.cache[w] != nil {
		if t := c.cache[w][v]; t != nil {
			return t
		}
		t := c.mk(OConst, w, v, "", nil)
		c.cache[w][v] = t
		return t
	}
	return c.mk(OConst, w, v, "", nil)
}

func (c *TermCtx) Var(name string, w int) *Term {
	t := c.mk(OVar, w, 0, name, nil)
	return t
}

// UF applies an uninterpreted function to a byte string; result is outW bits.
func (c *TermCtx) UF(name string, args []*Term, outW int) *Term {
	a := make([]*Term, len(args))
	copy(a, args)
	return c.mk(OUF, outW, 0, name, a)
}

func (c *TermCtx) interval(t *Term) {
	if t.W > 64 {
		return
	}
	if t.W == 0 {
		return
	}
	m := mask(t.W)
	t.lo, t.hi = 0, m
	switch t.Op {
	case OConst:
		t.lo, t.hi = t.C, t.C
	case OIte:
		a, b := t.A[1], t.A[2]
		t.lo, t.hi = minU(a.lo, b.lo), maxU(a.hi, b.hi)
	case OConcat:
		var lo, hi uint64
		for _, a := range t.A {
			if a.W > 64 {
				return
			}
			sh := uint(a.W)
			if sh >= 64 {
				lo, hi = a.lo, a.hi
			} else {
				lo = lo<<sh | a.lo
				hi = hi<<sh | a.hi
			}
		}
		t.lo, t.hi = lo, hi
	case OExtract:
		a := t.A[0]
		if a.W <= 64 {
			l, h := a.lo>>t.C, a.hi>>t.C
			if h <= m {
				t.lo, t.hi = l, h
			}
		}
	case BAnd:
		h := m
		for _, a := range t.A {
			h = minU(h, a.hi)
		}
		t.hi = h
	case BOr, BXor:
		var h uint64
		var l uint64
		for _, a := range t.A {
			h |= a.hi
			l = maxU(l, a.lo)
		}
		if h != 0 {
			t.hi = mask(bits.Len64(h))
		} else {
			t.hi = 0
		}
		if t.Op == BOr {
			t.lo = l
		}
	case OUdiv:
		if t.A[1].IsConst() && t.A[1].C != 0 {
			t.lo, t.hi = t.A[0].lo/t.A[1].C, t.A[0].hi/t.A[1].C
		}
	case OUrem:
		if t.A[1].IsConst() && t.A[1].C != 0 {
			t.hi = minU(t.A[1].C-1, t.A[0].hi)
		}
	case OMul:
		hh, ll := bits.Mul64(t.A[0].hi, t.A[1].hi)
		if hh == 0 && ll <= m {
			t.lo, t.hi = t.A[0].lo*t.A[1].lo, ll
		}
	case OLshr:
		t.hi = t.A[0].hi
	case OAdd:
		// linear sum; signed interpretation of coefficients
		lo, hi := new(big.Int), new(big.Int)
		for _, a := range t.A {
			l, h := linRange(a)
			lo.Add(lo, l)
			hi.Add(hi, h)
		}
		mod := new(big.Int).Lsh(big.NewInt(1), uint(t.W))
		if lo.Sign() < 0 {
			// maybe whole interval is shifted
			return
		}
		if hi.Cmp(mod) < 0 {
			t.lo, t.hi = lo.Uint64(), hi.Uint64()
		}
	}
}

// linRange returns the signed range of a summand (interpreting large constants
// and coefficients as negative).
func linRange(a *Term) (*big.Int, *big.Int) {
	w := a.W
	sgn := func(c uint64) *big.Int {
		if w < 64 {
			if c>>(uint(w)-1)&1 == 1 {
				return big.NewInt(int64(c) - int64(uint64(1)<<uint(w)))
			}
			return new(big.Int).SetUint64(c)
		}
		return big.NewInt(int64(c))
	}
	if a.Op == OConst {
		v := sgn(a.C)
		return v, v
	}
	if a.Op == OMul && a.A[0].IsConst() {
		k := sgn(a.A[0].C)
		l := new(big.Int).Mul(k, new(big.Int).SetUint64(a.A[1].lo))
		h := new(big.Int).Mul(k, new(big.Int).SetUint64(a.A[1].hi))
		if l.Cmp(h) > 0 {
			l, h = h, l
		}
		return l, h
	}
	return new(big.Int).SetUint64(a.lo), new(big.Int).SetUint64(a.hi)
}

func minU(a, b uint64) uint64 {
	if a < b {
		return a
	}
	return b
}
func maxU(a, b uint64) uint64 {
	if a > b {
		return a
	}
	return b
}

// ---- booleans

func (c *TermCtx) Not(a *Term) *Term {
	switch a.Op {
	case OConst:
		return c.Bool(a.C == 0)
	case ONot:
		return a.A[0]
	}
	return c.mk(ONot, 0, 0, "", []*Term{a})
}

func (c *TermCtx) And(xs ...*Term) *Term { return c.andOr(OAnd, xs) }
func (c *TermCtx) Or(xs ...*Term) *Term  { return c.andOr(OOr, xs) }

func (c *TermCtx) andOr(op Op, xs []*Term) *Term {
	neutral, absorb := c.True, c.False
	if op == OOr {
		neutral, absorb = c.False, c.True
	}
	if len(xs) == 2 {
		if xs[0] == neutral || xs[0] == xs[1] {
			return xs[1]
		}
		if xs[1] == neutral {
			return xs[0]
		}
		if xs[0] == absorb || xs[1] == absorb {
			return absorb
		}
	}
	var out []*Term
	var seen map[*Term]bool
	add := func(t *Term) bool {
		if t == neutral {
			return true
		}
		if t == absorb {
			return false
		}
		if len(out) < 8 {
			for _, o := range out {
				if o == t {
					return true
				}
				if (o.Op == ONot && o.A[0] == t) || (t.Op == ONot && t.A[0] == o) {
					return false
				}
			}
		} else {
			if seen == nil {
				seen = make(map[*Term]bool)
				for _, o := range out {
					seen[o] = true
				}
			}
			if seen[t] {
				return true
			}
			if t.Op == ONot && seen[t.A[0]] {
				return false
			}
			if seen[c.Not(t)] {
				return false
			}
			seen[t] = true
		}
		out = append(out, t)
		return true
	}
	for _, x := range xs {
		if x.Op == op {
			for _, y := range x.A {
				if !add(y) {
					return absorb
				}
			}
		} else if !add(x) {
			return absorb
		}
	}
	if len(out) == 0 {
		return neutral
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return c.mk(op, 0, 0, "", out)
}

func (c *TermCtx) Implies(a, b *Term) *Term { return c.Or(c.Not(a), b) }

func (c *TermCtx) Ite(cond, a, b *Term) *Term {
	if cond == c.True {
		return a
	}
	if cond == c.False {
		return b
	}
	if a == b {
		return a
	}
	if cond.Op == ONot {
		return c.Ite(cond.A[0], b, a)
	}
	if a.W == 0 {
		if a.IsConst() {
			if a == c.True {
				return c.Or(cond, b)
			}
			return c.And(c.Not(cond), b)
		}
		if b.IsConst() {
			if b == c.True {
				return c.Or(c.Not(cond), a)
			}
			return c.And(cond, a)
		}
	}
	if a.Op == OIte && a.A[0] == cond {
		a = a.A[1]
	}
	if b.Op == OIte && b.A[0] == cond {
		b = b.A[2]
	}
	if a == b {
		return a
	}
	// ite(c1, x, ite(c2, x, y)) = ite(c1|c2, x, y)
	if b.Op == OIte && b.A[1] == a {
		return c.Ite(c.Or(cond, b.A[0]), a, b.A[2])
	}
	if a.W != b.W {
		panic(fmt.Sprintf("ite width %d %d", a.W, b.W))
	}
	return c.mk(OIte, a.W, 0, "", []*Term{cond, a, b})
}

// ---- comparisons

func (c *TermCtx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.W != b.W {
		panic(fmt.Sprintf("eq width %d %d", a.W, b.W))
	}
	if a.W == 0 {
		if a.IsConst() {
			a, b = b, a
		}
		if b.IsConst() {
			if b == c.True {
				return a
			}
			return c.Not(a)
		}
		if a.Op == ONot && a.A[0] == b || b.Op == ONot && b.A[0] == a {
			return c.False
		}
		if a.id > b.id {
			a, b = b, a
		}
		return c.mk(OEq, 0, 0, "", []*Term{a, b})
	}
	if a.IsConst() && b.IsConst() {
		return c.Bool(a.C == b.C)
	}
	if a.IsConst() {
		a, b = b, a
	}
	if a.W <= 64 {
		if a.hi < b.lo || b.hi < a.lo {
			return c.False
		}
	}
	if b.IsConst() {
		switch a.Op {
		case OIte:
			x, y := a.A[1], a.A[2]
			if x.IsConst() && y.IsConst() {
				if x.C == b.C {
					return a.A[0] // y differs
				}
				if y.C == b.C {
					return c.Not(a.A[0])
				}
				return c.False
			}
			if x.IsConst() || iteAllConst(a, 64) {
				return c.Ite(a.A[0], c.Eq(x, b), c.Eq(y, b))
			}
			if y.IsConst() {
				return c.Ite(a.A[0], c.Eq(x, b), c.Eq(y, b))
			}
		case BNot:
			return c.Eq(a.A[0], c.Const(a.W, ^b.C))
		case BXor:
			if len(a.A) == 2 && a.A[0].IsConst() {
				return c.Eq(a.A[1], c.Const(a.W, b.C^a.A[0].C))
			}
		}
	}
	// concat splitting
	if a.Op == OConcat || b.Op == OConcat {
		x, y := a, b
		if x.Op != OConcat {
			x, y = y, x
		}
		if y.Op == OConcat || y.Op == OConst {
			// split at x's boundaries
			var conj []*Term
			pos := x.W
			ok := true
			for _, p := range x.A {
				pos -= p.W
				q := c.Extract(y, pos+p.W-1, pos)
				e := c.Eq(p, q)
				if e == c.False {
					return c.False
				}
				conj = append(conj, e)
			}
			if ok {
				return c.And(conj...)
			}
		}
	}
	if a.Op == OAdd || b.Op == OAdd || a.Op == OMul || b.Op == OMul {
		d := c.Sub(a, b)
		if d.IsConst() {
			return c.Bool(d.C == 0)
		}
		// k + x == 0  or k - x == 0
		if d.Op == OAdd && len(d.A) == 2 && d.A[0].IsConst() {
			x := d.A[1]
			if x.Op == OMul && x.A[0].IsConst() && x.A[0].C == mask(x.W) {
				nb := d.A[0]
				if !(a == x.A[1] && b == nb || b == x.A[1] && a == nb) {
					return c.Eq(x.A[1], nb)
				}
			} else if !(x.Op == OMul) {
				nb := c.Neg(d.A[0])
				if !(a == x && b == nb || b == x && a == nb) {
					return c.Eq(x, nb)
				}
			}
		} else if d.Op == OAdd && len(d.A) == 2 {
			// x - y == 0
			x, y := d.A[0], d.A[1]
			if x.Op == OMul && x.A[0].IsConst() && x.A[0].C == mask(x.W) {
				x, y = y, x
			}
			if y.Op == OMul && y.A[0].IsConst() && y.A[0].C == mask(y.W) && x.Op != OMul {
				y = y.A[1]
				if !(a == x && b == y || a == y && b == x) {
					return c.Eq(x, y)
				}
			}
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OEq, 0, 0, "", []*Term{a, b})
}

func iteAllConst(t *Term, depth int) bool {
	for i := 0; i < depth; i++ {
		if t.IsConst() {
			return true
		}
		if t.Op != OIte {
			return false
		}
		if t.A[1].IsConst() {
			t = t.A[2]
		} else if t.A[2].IsConst() {
			t = t.A[1]
		} else {
			return false
		}
	}
	return false
}

// leadingZeros of a term by structure (concat with zero const head).
func (c *TermCtx) effWidth(t *Term) int {
	if t.W > 64 {
		return t.W
	}
	return bits.Len64(t.hi)
}

func (c *TermCtx) Ult(a, b *Term) *Term {
	if a == b {
		return c.False
	}
	if a.IsConst() && b.IsConst() {
		return c.Bool(a.C < b.C)
	}
	if a.W <= 64 {
		if a.hi < b.lo {
			return c.True
		}
		if a.lo >= b.hi {
			return c.False
		}
		if b.IsConst() && b.C == 1 {
			return c.Eq(a, c.Const(a.W, 0))
		}
		if a.IsConst() && a.C == 0 {
			return c.Not(c.Eq(b, c.Const(b.W, 0)))
		}
		// a < max  <=> a != max (when a.hi==b const)
		if b.IsConst() && b.C == a.hi && a.hi == mask(bits.Len64(a.hi)) && a.hi > 0 {
			return c.Not(c.Eq(a, b))
		}
		if a.IsConst() && a.C+1 == b.hi && b.hi == mask(bits.Len64(b.hi)) {
			return c.Eq(b, c.Const(b.W, b.hi))
		}
		if b.IsConst() && a.Op == OIte && (a.A[1].IsConst() || a.A[2].IsConst()) {
			return c.Ite(a.A[0], c.Ult(a.A[1], b), c.Ult(a.A[2], b))
		}
		if a.IsConst() && b.Op == OIte && (b.A[1].IsConst() || b.A[2].IsConst()) {
			return c.Ite(b.A[0], c.Ult(a, b.A[1]), c.Ult(a, b.A[2]))
		}
		ew := c.effWidth(a)
		if e := c.effWidth(b); e > ew {
			ew = e
		}
		if ew < a.W && ew > 0 && (a.Op == OConcat || b.Op == OConcat) && (a.Op == OConcat || a.IsConst()) && (b.Op == OConcat || b.IsConst()) {
			return c.Ult(c.Extract(a, ew-1, 0), c.Extract(b, ew-1, 0))
		}
	}
	return c.mk(OUlt, 0, 0, "", []*Term{a, b})
}

func (c *TermCtx) Ule(a, b *Term) *Term { return c.Not(c.Ult(b, a)) }

func (c *TermCtx) Slt(a, b *Term) *Term {
	if a == b {
		return c.False
	}
	if a.IsConst() && b.IsConst() {
		return c.Bool(sext(a.C, a.W) < sext(b.C, b.W))
	}
	half := mask(a.W) >> 1
	if a.hi <= half && b.hi <= half {
		return c.Ult(a, b)
	}
	if a.lo > half && b.lo > half {
		return c.Ult(a, b)
	}
	if a.lo > half && b.hi <= half {
		return c.True
	}
	if a.hi <= half && b.lo > half {
		return c.False
	}
	if a.Op == OIte && b.IsConst() && (a.A[1].IsConst() || a.A[2].IsConst()) {
		return c.Ite(a.A[0], c.Slt(a.A[1], b), c.Slt(a.A[2], b))
	}
	return c.mk(OSlt, 0, 0, "", []*Term{a, b})
}
func (c *TermCtx) Sle(a, b *Term) *Term { return c.Not(c.Slt(b, a)) }

func sext(v uint64, w int) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := uint(64 - w)
	return int64(v<<sh) >> sh
}

// ---- structure

func (c *TermCtx) Concat(xs ...*Term) *Term {
	var out []*Term
	w := 0
	push := func(t *Term) {
		for {
			if len(out) == 0 {
				out = append(out, t)
				return
			}
			p := out[len(out)-1]
			if p.IsConst() && t.IsConst() && p.W+t.W <= 64 {
				out = out[:len(out)-1]
				t = c.Const(p.W+t.W, p.C<<uint(t.W)|t.C)
				continue
			}
			if p.Op == OExtract && t.Op == OExtract && p.A[0] == t.A[0] && p.C == t.C+uint64(t.W) {
				out = out[:len(out)-1]
				t = c.Extract(p.A[0], int(p.C)+p.W-1, int(t.C))
				if t.Op == OConcat {
					for _, y := range t.A {
						out = append(out, y)
					}
					return
				}
				continue
			}
			// extract of whole term's low part next to ... handled by Extract
			out = append(out, t)
			return
		}
	}
	for _, x := range xs {
		w += x.W
		if x.W == 0 {
			panic("concat of bool")
		}
		if x.Op == OConcat {
			for _, y := range x.A {
				push(y)
			}
		} else {
			push(x)
		}
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.mk(OConcat, w, 0, "", out)
}

func (c *TermCtx) Extract(t *Term, hi, lo int) *Term {
	w := hi - lo + 1
	if w == t.W {
		return t
	}
	if w <= 0 || hi >= t.W || lo < 0 {
		panic(fmt.Sprintf("extract %d %d of %d", hi, lo, t.W))
	}
	switch t.Op {
	case OConst:
		if t.W <= 64 {
			return c.Const(w, t.C>>uint(lo))
		}
		if lo >= 64 {
			return c.Const(w, 0)
		}
		if hi < 64 {
			return c.Const(w, t.C>>uint(lo))
		}
		panic("wide const extract")
	case OExtract:
		return c.Extract(t.A[0], hi+int(t.C), lo+int(t.C))
	case OConcat:
		var parts []*Term
		pos := t.W
		for _, p := range t.A {
			pos -= p.W
			// p covers [pos, pos+p.W-1]
			l, h := lo, hi
			if l < pos {
				l = pos
			}
			if h > pos+p.W-1 {
				h = pos + p.W - 1
			}
			if l <= h {
				parts = append(parts, c.Extract(p, h-pos, l-pos))
			}
		}
		return c.Concat(parts...)
	case OIte:
		key := extKey{t, hi, lo}
		if r, ok := c.extMemo[key]; ok {
			return r
		}
		r := c.Ite(t.A[0], c.Extract(t.A[1], hi, lo), c.Extract(t.A[2], hi, lo))
		c.extMemo[key] = r
		return r
	case BNot:
		return c.BNot(c.Extract(t.A[0], hi, lo))
	case BAnd, BOr, BXor:
		as := make([]*Term, len(t.A))
		for i, a := range t.A {
			as[i] = c.Extract(a, hi, lo)
		}
		return c.bitop(t.Op, w, as)
	case OSext:
		a := t.A[0]
		if hi < a.W {
			return c.Extract(a, hi, lo)
		}
	}
	if t.W <= 64 && t.hi>>uint(lo) == 0 {
		return c.Const(w, 0)
	}
	if t.W <= 64 {
		if top := bits.Len64(t.hi) - 1; top < hi {
			return c.Concat(c.Const(hi-top, 0), c.Extract(t, top, lo))
		}
	}
	return c.mk(OExtract, w, uint64(lo), "", []*Term{t})
}

func (c *TermCtx) ZExt(t *Term, w int) *Term {
	if t.W == w {
		return t
	}
	if t.IsConst() && w <= 64 {
		return c.Const(w, t.C)
	}
	return c.Concat(c.Const(w-t.W, 0), t)
}

func (c *TermCtx) SExt(t *Term, w int) *Term {
	if t.W == w {
		return t
	}
	if t.IsConst() {
		return c.Const(w, uint64(sext(t.C, t.W)))
	}
	if t.hi <= mask(t.W)>>1 {
		return c.ZExt(t, w)
	}
	return c.mk(OSext, w, 0, "", []*Term{t})
}

// ---- bitwise

func (c *TermCtx) BNot(a *Term) *Term {
	switch a.Op {
	case OConst:
		return c.Const(a.W, ^a.C)
	case BNot:
		return a.A[0]
	case OConcat:
		as := make([]*Term, len(a.A))
		for i, x := range a.A {
			as[i] = c.BNot(x)
		}
		return c.Concat(as...)
	case OIte:
		if a.A[1].IsConst() || a.A[2].IsConst() {
			return c.Ite(a.A[0], c.BNot(a.A[1]), c.BNot(a.A[2]))
		}
	}
	return c.mk(BNot, a.W, 0, "", []*Term{a})
}

func (c *TermCtx) BAnd(a, b *Term) *Term { return c.bitop(BAnd, a.W, []*Term{a, b}) }
func (c *TermCtx) BOr(a, b *Term) *Term  { return c.bitop(BOr, a.W, []*Term{a, b}) }
func (c *TermCtx) BXor(a, b *Term) *Term { return c.bitop(BXor, a.W, []*Term{a, b}) }

// runs of a constant: boundaries where bits change
func constRuns(v uint64, w int) []int {
	var r []int
	for i := 1; i < w; i++ {
		if (v>>uint(i))&1 != (v>>uint(i-1))&1 {
			r = append(r, i)
		}
	}
	return r
}

func (c *TermCtx) bitop(op Op, w int, xs []*Term) *Term {
	var cst uint64
	if op == BAnd {
		cst = mask(w)
	}
	var out []*Term
	if w <= 64 {
		var add func(t *Term)
		add = func(t *Term) {
			if t.Op == OConst {
				switch op {
				case BAnd:
					cst &= t.C
				case BOr:
					cst |= t.C
				case BXor:
					cst ^= t.C
				}
				return
			}
			if t.Op == op {
				for _, y := range t.A {
					add(y)
				}
				return
			}
			if op == BXor && t.Op == BNot {
				cst ^= mask(w)
				add(t.A[0])
				return
			}
			out = append(out, t)
		}
		for _, x := range xs {
			add(x)
		}
	} else {
		for _, x := range xs {
			if x.Op == op {
				out = append(out, x.A...)
			} else {
				out = append(out, x)
			}
		}
	}
	// dedupe
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	j := 0
	for i := 0; i < len(out); i++ {
		if op == BXor {
			if j > 0 && out[j-1] == out[i] {
				j--
				continue
			}
		} else if j > 0 && out[j-1] == out[i] {
			continue
		}
		out[j] = out[i]
		j++
	}
	out = out[:j]
	m := mask(w)
	if w <= 64 {
		switch op {
		case BAnd:
			if cst == 0 {
				return c.Const(w, 0)
			}
		case BOr:
			if cst == m {
				return c.Const(w, m)
			}
		}
		if len(out) == 0 {
			return c.Const(w, cst)
		}
		neutral := (op == BAnd && cst == m) || (op != BAnd && cst == 0)
		if neutral && len(out) == 1 {
			return out[0]
		}
		if op == BXor && cst == m && len(out) == 1 {
			return c.BNot(out[0])
		}
		// structural split
		var cuts []int
		hasConcat := false
		for _, t := range out {
			if t.Op == OConcat {
				hasConcat = true
			}
		}
		if !neutral && op != BXor {
			r := constRuns(cst, w)
			if len(r) <= 8 && len(r) > 0 {
				cuts = append(cuts, r...)
			}
		}
		if hasConcat {
			for _, t := range out {
				if t.Op == OConcat {
					pos := t.W
					for _, p := range t.A {
						pos -= p.W
						if pos > 0 {
							cuts = append(cuts, pos)
						}
					}
				}
			}
		}
		if len(cuts) > 0 {
			sort.Ints(cuts)
			k := 0
			for i := range cuts {
				if k == 0 || cuts[k-1] != cuts[i] {
					cuts[k] = cuts[i]
					k++
				}
			}
			cuts = cuts[:k]
			var parts []*Term
			hi := w - 1
			for i := len(cuts) - 1; i >= -1; i-- {
				lo := 0
				if i >= 0 {
					lo = cuts[i]
				}
				as := make([]*Term, 0, len(out)+1)
				for _, t := range out {
					as = append(as, c.Extract(t, hi, lo))
				}
				if !neutral {
					as = append(as, c.Const(hi-lo+1, cst>>uint(lo)))
				}
				parts = append(parts, c.bitop(op, hi-lo+1, as))
				hi = lo - 1
			}
			return c.Concat(parts...)
		}
		if !neutral {
			if op == BXor && cst == m {
				// not of xor
				return c.mk(BNot, w, 0, "", []*Term{c.mk(op, w, 0, "", out)})
			}
			out = append([]*Term{c.Const(w, cst)}, out...)
		}
		// x & ~x, x | ~x
		if op != BXor && len(out) == 2 {
			a, b := out[0], out[1]
			if a.Op == BNot && a.A[0] == b || b.Op == BNot && b.A[0] == a {
				if op == BAnd {
					return c.Const(w, 0)
				}
				return c.Const(w, m)
			}
		}
	}
	if len(out) == 0 {
		return c.Const(w, 0)
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.mk(op, w, 0, "", out)
}

// ---- arithmetic (linear normal form)

type lin struct {
	k     uint64
	coef  map[*Term]uint64
	order []*Term
}

func (c *TermCtx) linAdd(l *lin, t *Term, k uint64) {
	switch {
	case t.Op == OConst:
		l.k += k * t.C
	case t.Op == OAdd:
		for _, a := range t.A {
			c.linAdd(l, a, k)
		}
	case t.Op == OMul && t.A[0].IsConst():
		c.linAdd(l, t.A[1], k*t.A[0].C)
	default:
		if _, ok := l.coef[t]; !ok {
			l.order = append(l.order, t)
		}
		l.coef[t] += k
	}
}

func (c *TermCtx) linMk(l *lin, w int) *Term {
	m := mask(w)
	var out []*Term
	for _, t := range l.order {
		k := l.coef[t] & m
		if k == 0 {
			continue
		}
		if k == 1 {
			out = append(out, t)
		} else {
			out = append(out, c.mk(OMul, w, 0, "", []*Term{c.Const(w, k), t}))
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	k := l.k & m
	if k != 0 {
		out = append([]*Term{c.Const(w, k)}, out...)
	}
	if len(out) == 0 {
		return c.Const(w, 0)
	}
	if len(out) == 1 {
		return out[0]
	}
	// narrow: sum of zero-extended disjoint? (concat(x,0)+concat(0,y))
	if len(out) == 2 && (out[0].Op == OConcat || out[1].Op == OConcat) {
		a, b := out[0], out[1]
		if disjoint(a, b) {
			return c.BOr(a, b)
		}
	}
	return c.mk(OAdd, w, 0, "", out)
}

// possible-ones mask
func ones(t *Term) uint64 {
	switch t.Op {
	case OConst:
		return t.C
	case OConcat:
		var v uint64
		for _, p := range t.A {
			if p.W >= 64 {
				return mask(t.W)
			}
			v = v<<uint(p.W) | ones(p)
		}
		return v
	}
	if t.W <= 64 {
		return mask(bits.Len64(t.hi))
	}
	return ^uint64(0)
}

func disjoint(a, b *Term) bool { return a.W <= 64 && ones(a)&ones(b) == 0 }

func (c *TermCtx) Add(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		return c.Const(a.W, a.C+b.C)
	}
	if a.IsConst() && a.C == 0 {
		return b
	}
	if b.IsConst() && b.C == 0 {
		return a
	}
	if t := c.iteConstOp(a, b, c.Add); t != nil {
		return t
	}
	l := &lin{coef: map[*Term]uint64{}}
	c.linAdd(l, a, 1)
	c.linAdd(l, b, 1)
	return c.linMk(l, a.W)
}

// push op through ite with constant leaves when the other operand is constant
func (c *TermCtx) iteConstOp(a, b *Term, f func(a, b *Term) *Term) *Term {
	if a.Op == OIte && b.IsConst() && iteAllConst(a, 20) {
		return c.Ite(a.A[0], f(a.A[1], b), f(a.A[2], b))
	}
	if b.Op == OIte && a.IsConst() && iteAllConst(b, 20) {
		return c.Ite(b.A[0], f(a, b.A[1]), f(a, b.A[2]))
	}
	return nil
}

func (c *TermCtx) Neg(a *Term) *Term {
	return c.Sub(c.Const(a.W, 0), a)
}

func (c *TermCtx) Sub(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		return c.Const(a.W, a.C-b.C)
	}
	if b.IsConst() && b.C == 0 {
		return a
	}
	if t := c.iteConstOp(a, b, c.Sub); t != nil {
		return t
	}
	l := &lin{coef: map[*Term]uint64{}}
	c.linAdd(l, a, 1)
	c.linAdd(l, b, ^uint64(0))
	return c.linMk(l, a.W)
}

func (c *TermCtx) Mul(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		return c.Const(a.W, a.C*b.C)
	}
	if b.IsConst() {
		a, b = b, a
	}
	if a.IsConst() {
		if a.C == 0 {
			return a
		}
		if a.C == 1 {
			return b
		}
		if b.Op == OIte && iteAllConst(b, 20) {
			return c.Ite(b.A[0], c.Mul(a, b.A[1]), c.Mul(a, b.A[2]))
		}
		if a.C&(a.C-1) == 0 && b.Op == OConcat {
			return c.ShlC(b, bits.TrailingZeros64(a.C))
		}
		l := &lin{coef: map[*Term]uint64{}}
		c.linAdd(l, b, a.C)
		return c.linMk(l, a.W)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OMul, a.W, 0, "", []*Term{a, b})
}

func (c *TermCtx) Udiv(a, b *Term) *Term {
	if b.IsConst() && b.C != 0 {
		if a.IsConst() {
			return c.Const(a.W, a.C/b.C)
		}
		if b.C&(b.C-1) == 0 {
			return c.LshrC(a, bits.TrailingZeros64(b.C))
		}
		if a.hi < b.C {
			return c.Const(a.W, 0)
		}
	}
	return c.mk(OUdiv, a.W, 0, "", []*Term{a, b})
}

func (c *TermCtx) Urem(a, b *Term) *Term {
	if b.IsConst() && b.C != 0 {
		if a.IsConst() {
			return c.Const(a.W, a.C%b.C)
		}
		if b.C&(b.C-1) == 0 {
			return c.BAnd(a, c.Const(a.W, b.C-1))
		}
		if a.hi < b.C {
			return a
		}
	}
	return c.mk(OUrem, a.W, 0, "", []*Term{a, b})
}

func (c *TermCtx) Sdiv(a, b *Term) *Term {
	half := mask(a.W) >> 1
	if a.hi <= half && b.hi <= half {
		return c.Udiv(a, b)
	}
	if a.IsConst() && b.IsConst() && b.C != 0 {
		x, y := sext(a.C, a.W), sext(b.C, b.W)
		if y == -1 {
			return c.Const(a.W, uint64(-x))
		}
		return c.Const(a.W, uint64(x/y))
	}
	return c.mk(OSdiv, a.W, 0, "", []*Term{a, b})
}

func (c *TermCtx) Srem(a, b *Term) *Term {
	half := mask(a.W) >> 1
	if a.hi <= half && b.hi <= half {
		return c.Urem(a, b)
	}
	if a.IsConst() && b.IsConst() && b.C != 0 {
		x, y := sext(a.C, a.W), sext(b.C, b.W)
		if y == -1 {
			return c.Const(a.W, 0)
		}
		return c.Const(a.W, uint64(x%y))
	}
	return c.mk(OSrem, a.W, 0, "", []*Term{a, b})
}

func (c *TermCtx) ShlC(a *Term, n int) *Term {
	if n == 0 {
		return a
	}
	if n >= a.W {
		return c.Const(a.W, 0)
	}
	return c.Concat(c.Extract(a, a.W-1-n, 0), c.Const(n, 0))
}

func (c *TermCtx) LshrC(a *Term, n int) *Term {
	if n == 0 {
		return a
	}
	if n >= a.W {
		return c.Const(a.W, 0)
	}
	return c.Concat(c.Const(n, 0), c.Extract(a, a.W-1, n))
}

// shifts: b is converted to a's width first (saturating)
func (c *TermCtx) normShift(a, b *Term) *Term {
	if b.W < a.W {
		return c.ZExt(b, a.W)
	}
	if b.W > a.W {
		if b.IsConst() {
			if b.C >= uint64(a.W) {
				return c.Const(a.W, uint64(a.W)&mask(a.W))
			}
			return c.Const(a.W, b.C)
		}
		return c.Ite(c.Ult(b, c.Const(b.W, uint64(a.W))), c.Extract(b, a.W-1, 0), c.Const(a.W, uint64(a.W)))
	}
	return b
}

func (c *TermCtx) Shl(a, b *Term) *Term {
	if b.IsConst() {
		if b.C >= uint64(a.W) {
			return c.Const(a.W, 0)
		}
		return c.ShlC(a, int(b.C))
	}
	if b.Op == OIte && iteAllConst(b, 20) {
		return c.Ite(b.A[0], c.Shl(a, b.A[1]), c.Shl(a, b.A[2]))
	}
	b = c.normShift(a, b)
	return c.mk(OShl, a.W, 0, "", []*Term{a, b})
}

func (c *TermCtx) Lshr(a, b *Term) *Term {
	if b.IsConst() {
		if b.C >= uint64(a.W) {
			return c.Const(a.W, 0)
		}
		return c.LshrC(a, int(b.C))
	}
	if b.Op == OIte && iteAllConst(b, 20) {
		return c.Ite(b.A[0], c.Lshr(a, b.A[1]), c.Lshr(a, b.A[2]))
	}
	b = c.normShift(a, b)
	return c.mk(OLshr, a.W, 0, "", []*Term{a, b})
}

func (c *TermCtx) Ashr(a, b *Term) *Term {
	if a.hi <= mask(a.W)>>1 {
		return c.Lshr(a, b)
	}
	if b.IsConst() {
		n := b.C
		if n >= uint64(a.W) {
			n = uint64(a.W) - 1
		}
		if a.IsConst() {
			return c.Const(a.W, uint64(sext(a.C, a.W)>>n))
		}
		if n == 0 {
			return a
		}
		return c.SExt(c.Extract(a, a.W-1, int(n)), a.W)
	}
	b = c.normShift(a, b)
	return c.mk(OAshr, a.W, 0, "", []*Term{a, b})
}

// ---- rebuild (substitution)

func (c *TermCtx) rebuild(t *Term, a []*Term) *Term {
	switch t.Op {
	case ONot:
		return c.Not(a[0])
	case OAnd:
		return c.And(a...)
	case OOr:
		return c.Or(a...)
	case OEq:
		return c.Eq(a[0], a[1])
	case OUlt:
		return c.Ult(a[0], a[1])
	case OSlt:
		return c.Slt(a[0], a[1])
	case OIte:
		return c.Ite(a[0], a[1], a[2])
	case BNot:
		return c.BNot(a[0])
	case BAnd, BOr, BXor:
		return c.bitop(t.Op, t.W, a)
	case OAdd:
		l := &lin{coef: map[*Term]uint64{}}
		for _, x := range a {
			c.linAdd(l, x, 1)
		}
		return c.linMk(l, t.W)
	case OMul:
		return c.Mul(a[0], a[1])
	case OUdiv:
		return c.Udiv(a[0], a[1])
	case OUrem:
		return c.Urem(a[0], a[1])
	case OSdiv:
		return c.Sdiv(a[0], a[1])
	case OSrem:
		return c.Srem(a[0], a[1])
	case OShl:
		return c.Shl(a[0], a[1])
	case OLshr:
		return c.Lshr(a[0], a[1])
	case OAshr:
		return c.Ashr(a[0], a[1])
	case OConcat:
		return c.Concat(a...)
	case OExtract:
		return c.Extract(a[0], int(t.C)+t.W-1, int(t.C))
	case OSext:
		return c.SExt(a[0], t.W)
	case OUF:
		return c.UF(t.S, a, t.W)
	}
	panic("rebuild")
}

// Subst replaces terms according to the lookup function, memoised in memo.
func (c *TermCtx) Subst(t *Term, known map[*Term]*Term, memo map[*Term]*Term) *Term {
	if t.Op == OConst {
		return t
	}
	if k, ok := known[t]; ok {
		return k
	}
	if t.Op == OVar {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	if t.Op == OIte {
		cond := c.Subst(t.A[0], known, memo)
		var r *Term
		if cond == c.True {
			r = c.Subst(t.A[1], known, memo)
		} else if cond == c.False {
			r = c.Subst(t.A[2], known, memo)
		} else {
			r = c.Ite(cond, c.Subst(t.A[1], known, memo), c.Subst(t.A[2], known, memo))
		}
		memo[t] = r
		return r
	}
	var na []*Term
	for i, a := range t.A {
		b := c.Subst(a, known, memo)
		if b != a && na == nil {
			na = make([]*Term, len(t.A))
			copy(na, t.A[:i])
		}
		if na != nil {
			na[i] = b
		}
	}
	r := t
	if na != nil {
		r = c.rebuild(t, na)
		if k, ok := known[r]; ok {
			r = k
		}
	}
	memo[t] = r
	return r
}

// ---- printing (debug)

func (t *Term) String() string { return t.str(6) }

var opNames = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OUlt: "bvult", OSlt: "bvslt", OIte: "ite",
	BNot: "bvnot", BAnd: "bvand", BOr: "bvor", BXor: "bvxor", OAdd: "bvadd", OMul: "bvmul", OUdiv: "bvudiv", OUrem: "bvurem",
	OSdiv: "bvsdiv", OSrem: "bvsrem", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr", OConcat: "concat", OExtract: "extract", OSext: "sext", OUF: "uf"}

func (t *Term) str(d int) string {
	switch t.Op {
	case OConst:
		if t.W == 0 {
			return fmt.Sprint(t.C == 1)
		}
		return fmt.Sprintf("%d:%d", t.C, t.W)
	case OVar:
		return t.S
	}
	if d == 0 {
		return fmt.Sprintf("t%d", t.id)
	}
	var b strings.Builder
	b.WriteString("(" + opNames[t.Op])
	if t.Op == OExtract {
		fmt.Fprintf(&b, "[%d:%d]", int(t.C)+t.W-1, t.C)
	}
	if t.Op == OUF {
		b.WriteString(" " + t.S)
	}
	for i, a := range t.A {
		if i > 8 {
			b.WriteString(" ...")
			break
		}
		b.WriteString(" " + a.str(d-1))
	}
	b.WriteString(")")
	return b.String()
}

// Eval evaluates under an assignment of variables; ok=false if a UF or an
// unassigned variable is met (unassigned vars default to 0 when def is set).
func (c *TermCtx) Eval(t *Term, m map[string]uint64, memo map[*Term]uint64) (uint64, bool) {
	e := &evaluator{c: c, m: m, memo: memo}
	return e.eval(t)
}

func (e *evaluator) eval(t *Term) (uint64, bool) {
	c := e
	if t.Op == OConst {
		return t.C, true
	}
	if v, ok := e.memo[t]; ok {
		return v, true
	}
	if t.W > 64 || t.Op == OUF {
		if e.wide == nil {
			return 0, false
		}
		if t.W > 64 {
			return 0, false
		}
		b, ok := e.big(t)
		if !ok {
			return 0, false
		}
		return b.Uint64(), true
	}
	if e.wide != nil {
		e.n++
		if e.n&1023 == 0 && time.Now().After(e.stop) {
			return 0, false
		}
		if (t.Op == OExtract && t.A[0].W > 64) || (t.Op == OEq && t.A[0].W > 64) {
			var v uint64
			if t.Op == OExtract {
				b, ok := e.big(t.A[0])
				if !ok {
					return 0, false
				}
				v = new(big.Int).Rsh(b, uint(t.C)).Uint64()
				if w := new(big.Int).Rsh(b, uint(t.C)); !w.IsUint64() {
					v = new(big.Int).And(w, new(big.Int).SetUint64(^uint64(0))).Uint64()
				}
				v &= mask(t.W)
			} else {
				x, ok := e.big(t.A[0])
				if !ok {
					return 0, false
				}
				y, ok := e.big(t.A[1])
				if !ok {
					return 0, false
				}
				v = b2u(x.Cmp(y) == 0)
			}
			e.memo[t] = v
			return v, true
		}
	}
	var v uint64
	switch t.Op {
	case OVar:
		v = e.m[t.S]
	case OIte:
		cv, ok := c.eval(t.A[0])
		if !ok {
			return 0, false
		}
		if cv == 1 {
			v, ok = c.eval(t.A[1])
		} else {
			v, ok = c.eval(t.A[2])
		}
		if !ok {
			return 0, false
		}
	case OAnd, OOr:
		absorb := uint64(0)
		if t.Op == OOr {
			absorb = 1
		}
		v = 1 - absorb
		bad := false
		for _, a := range t.A {
			x, ok := c.eval(a)
			if !ok {
				bad = true
				continue
			}
			if x == absorb {
				v = absorb
				bad = false
				break
			}
		}
		if bad {
			return 0, false
		}
	default:
		var as [3]uint64
		if len(t.A) <= 2 {
			for i, a := range t.A {
				x, ok := c.eval(a)
				if !ok {
					return 0, false
				}
				as[i] = x
			}
		}
		a0, a1 := as[0], as[1]
		switch t.Op {
		case ONot:
			v = 1 - a0
		case OEq:
			v = b2u(a0 == a1)
		case OUlt:
			v = b2u(a0 < a1)
		case OSlt:
			v = b2u(sext(a0, t.A[0].W) < sext(a1, t.A[1].W))
		case BNot:
			v = ^a0
		case BAnd, BOr, BXor, OAdd:
			for i, a := range t.A {
				x, ok := c.eval(a)
				if !ok {
					return 0, false
				}
				if i == 0 {
					v = x
					continue
				}
				switch t.Op {
				case BAnd:
					v &= x
				case BOr:
					v |= x
				case BXor:
					v ^= x
				case OAdd:
					v += x
				}
			}
		case OMul:
			v = a0 * a1
		case OUdiv:
			if a1 == 0 {
				v = ^uint64(0)
			} else {
				v = a0 / a1
			}
		case OUrem:
			if a1 == 0 {
				v = a0
			} else {
				v = a0 % a1
			}
		case OShl:
			if a1 < 64 {
				v = a0 << a1
			}
		case OLshr:
			if a1 < 64 {
				v = a0 >> a1
			}
		case OAshr:
			s := a1
			if s > 63 {
				s = 63
			}
			v = uint64(sext(a0, t.W) >> s)
		case OConcat:
			for _, a := range t.A {
				x, ok := c.eval(a)
				if !ok {
					return 0, false
				}
				v = v<<uint(a.W) | x
			}
		case OExtract:
			v = a0 >> t.C
		case OSext:
			v = uint64(sext(a0, t.A[0].W))
		default:
			return 0, false
		}
	}
	if t.W > 0 {
		v &= mask(t.W)
	}
	e.memo[t] = v
	return v, true
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// Count is the number of terms made so far.
func (c *TermCtx) Count() int { return int(c.nterms) }
