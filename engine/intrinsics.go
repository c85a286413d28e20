package main

// Intrinsics: the nondeterminism API, model primitives, sync, reflect, etc.

import (
	"fmt"
	"go/types"
	"path/filepath"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type callCtx struct {
	fn   *ssa.Function
	args []Value
	kind int
}

type intrRes struct {
	v      Value
	jumped bool // control was transferred or the instruction must be retried
}

type intrinsic func(in *Interp, st *State, cc *callCtx) intrRes

var intrinsics map[string]intrinsic

const vndPkg = modPath + "/internal/vnd"
const stubPkg = modPath + "/internal/vstubs/"

// redirectTab maps functions to Go stubs.
var redirectTab = map[string][2]string{
	"crypto/sha256.New":                    {"vhash", "New256"},
	"crypto/sha256.Sum256":                 {"vhash", "Sum256"},
	"crypto/sha512.New":                    {"vhash", "New512"},
	"crypto/sha512.Sum512":                 {"vhash", "Sum512"},
	"golang.org/x/crypto/sha3.NewShake128": {"vhash", "NewShake128"},
	"golang.org/x/crypto/sha3.NewShake256": {"vhash", "NewShake256"},
	"golang.org/x/crypto/sha3.ShakeSum128": {"vhash", "ShakeSum128"},
	"golang.org/x/crypto/sha3.ShakeSum256": {"vhash", "ShakeSum256"},
	"encoding/binary.Read":                 {"vgo", "BinaryRead"},
	"encoding/binary.Write":                {"vgo", "BinaryWrite"},
	"encoding/binary.Size":                 {"vgo", "BinarySize"},
	"sort.Slice":                           {"vgo", "SortSlice"},
	"sort.SliceStable":                     {"vgo", "SortSlice"},
	"crypto/subtle.ConstantTimeCompare":    {"vgo", "ConstantTimeCompare"},
	"github.com/templexxx/xorsimd.Bytes":   {"vgo", "XorBytes"},
	"github.com/templexxx/xorsimd.Encode":  {"vgo", "XorEncode"},
	"internal/bytealg.IndexByteString":     {"vgo", "IndexByteString"},
	"internal/bytealg.IndexByte":           {"vgo", "IndexByte"},
	"internal/bytealg.CountString":         {"vgo", "CountString"},
	"internal/bytealg.Count":               {"vgo", "Count"},
	"internal/bytealg.Compare":             {"vgo", "Compare"},
	"bytes.Compare":                        {"vgo", "Compare"},
	"bytes.Equal":                          {"vgo", "BytesEqual"},
	"strings.Index":                        {"vgo", "StringsIndex"},
	"strings.Count":                        {"vgo", "StringsCount"},
	"internal/stringslite.Index":           {"vgo", "StringsIndex"},
	"strings.Contains":                     {"vgo", "StringsContains"},
	"errors.Is":                            {"vgo", "ErrorsIs"},
	"strconv.Atoi":                         {"vgo", "Atoi"},
	"github.com/cespare/xxhash.Sum64":      {"vhash", "XXSum64"},
	"(*crypto/sha256.digest).Write":        {"vhash", "Never"},
}

func (in *Interp) redirect(name string) *ssa.Function {
	if in.redirects == nil {
		in.redirects = map[string]*ssa.Function{}
		for k, v := range redirectTab {
			p := in.prog.ByPath[stubPkg+v[0]]
			if p == nil {
				continue
			}
			if fn := p.Func(v[1]); fn != nil {
				in.redirects[k] = fn
			}
		}
	}
	return in.redirects[name]
}

func nop(in *Interp, st *State, cc *callCtx) intrRes { return intrRes{} }

func concStr(v Value) string {
	s, ok := v.(*Str)
	if !ok || !s.conc {
		panic(unsupported("symbolic label"))
	}
	return s.s
}

// fresh returns the variable for the next use of label, without side effects;
// commit records it.
func (in *Interp) ndName(st *State, label string) string {
	return fmt.Sprintf("%s#%d", label, st.ndCnt[label])
}

func (in *Interp) ndVar(name string, w int) *Term {
	if v, ok := in.opt.Concrete[name]; ok {
		if w == 0 {
			return in.c.Bool(v != 0)
		}
		return in.c.Const(w, v)
	}
	return in.c.Var(name, w)
}

func (in *Interp) ndRecord(st *State, name string, t *Term) {
	st.nd = &ndNode{st.nd, name, t}
}

func ndInt(w int) intrinsic {
	return func(in *Interp, st *State, cc *callCtx) intrRes {
		l := concStr(cc.args[0])
		n := in.ndName(st, l)
		st.ndCnt[l]++
		t := in.ndVar(n, w)
		in.ndRecord(st, n, t)
		return intrRes{v: t}
	}
}

func (in *Interp) goStr(s string) *Str { return &Str{conc: true, s: s} }

// sliceBytes extracts bytes [lo,hi) (big-endian order: byte 0 is most
// significant) of a wide term as byte terms.
func (in *Interp) wideBytes(t *Term, n int) []*Term {
	out := make([]*Term, n)
	for i := 0; i < n; i++ {
		hi := t.W - 1 - 8*i
		out[i] = in.c.Extract(t, hi, hi-7)
	}
	return out
}

func sliceOrVariadic(in *Interp, st *State, v Value) []Value {
	s := v.(Slice)
	if s.Len == 0 {
		return nil
	}
	o := st.heap.get(s.Obj)
	var out []Value
	for i := int32(0); i < s.Len; i++ {
		x := o.load(s.Off + i)
		if x == nil {
			x = in.c.False
		}
		out = append(out, x)
	}
	return out
}

func (in *Interp) assertCond(st *State, cond *Term, label string) bool {
	in.st.Asserts++
	in.st.AssertLabel[label]++
	cond = in.simp(st, cond)
	if cond == in.c.True {
		in.st.Discharged++
		in.st.Syntactic++
		return true
	}
	neg := in.c.Not(cond)
	uf := in.sol.usesUF(neg)
	first := in.opt.QueryTimeout
	if uf && first > 4*time.Second {
		first = 4 * time.Second
	}
	r := in.sol.Check(st.pc, neg, first)
	if r == Unknown && uf {
		if in.sol.tryReal(append(append([]*Term{}, st.pc...), neg), 5*time.Second, 8) != nil {
			// arbitrary values do, with the real hash functions
			r = Sat
		} else if first < in.opt.QueryTimeout {
			r = in.sol.Check(st.pc, neg, in.opt.QueryTimeout)
		}
	}
	if r == Unknown {
		sl := append(in.sol.slice(st.pc, neg), neg)
		var m map[string]uint64
		r, m, _ = oneShot([]string{"cvc5", "--lang=smt2", "--produce-models"}, sl, in.opt.QueryTimeout*2)
		_ = m
		if r == Unknown {
			r, _, _ = oneShot([]string{"z3-new", "-memory:6000", "-in", "-smt2"}, sl, in.opt.QueryTimeout*2)
		}
	}
	switch r {
	case Unsat:
		in.st.Discharged++
		in.learn(st, cond)
		return true
	case Unknown:
		in.st.Unknowns++
		in.problem("unknown: assert " + label)
		in.assume(st, cond)
		return true
	}
	if len(in.samples) < 4 {
		in.samples = append(in.samples, "violable: "+label)
	}
	in.violation(st, neg, "assert", label, in.where(st), nil)
	if in.sol.Check(st.pc, cond, in.opt.QueryTimeout/4) == Unsat {
		return false
	}
	in.assume(st, cond)
	return true
}

func init() {
	intrinsics = map[string]intrinsic{}
	I := intrinsics
	v := func(n string) string { return vndPkg + "." + n }
	I[v("U8")] = ndInt(8)
	I[v("U16")] = ndInt(16)
	I[v("U32")] = ndInt(32)
	I[v("U64")] = ndInt(64)
	I[v("Bool")] = ndInt(0)
	I[v("Bytes")] = func(in *Interp, st *State, cc *callCtx) intrRes {
		l := concStr(cc.args[0])
		n := in.concretize(st, cc.args[1].(*Term), 64)
		name := in.ndName(st, l)
		st.ndCnt[l]++
		bs := make([]*Term, n)
		for i := range bs {
			nm := fmt.Sprintf("%s.%d", name, i)
			bs[i] = in.ndVar(nm, 8)
			in.ndRecord(st, nm, bs[i])
		}
		return intrRes{v: in.newBytes(st, bs)}
	}
	I[v("Choose")] = func(in *Interp, st *State, cc *callCtx) intrRes {
		l := concStr(cc.args[0])
		n := int(in.concretize(st, cc.args[1].(*Term), 64))
		name := in.ndName(st, l)
		var t *Term
		if n <= 1 {
			t = in.c.Const(32, 0)
		} else {
			t = in.ndVar(name, 32)
		}
		if in.simp(st, t).IsConst() {
			x := in.simp(st, t)
			st.ndCnt[l]++
			in.ndRecord(st, name, t)
			return intrRes{v: in.c.ZExt(x, 64)}
		}
		lt := in.c.Ult(t, in.c.Const(32, uint64(n)))
		if in.simp(st, lt) != in.c.True {
			in.assume(st, lt)
		}
		// a value may already be constrained on this path
		x := in.simp(st, t)
		if !x.IsConst() {
			var conds []*Term
			for i := 0; i < n; i++ {
				e := in.c.Eq(t, in.c.Const(32, uint64(i)))
				if in.simp(st, e) != in.c.False {
					conds = append(conds, e)
				}
			}
			panic(forkReq{conds: conds})
		}
		st.ndCnt[l]++
		in.ndRecord(st, name, t)
		return intrRes{v: in.c.ZExt(x, 64)}
	}
	I[v("Pick64")] = func(in *Interp, st *State, cc *callCtx) intrRes {
		// concretizes a value, forking over all of its feasible values
		t := cc.args[0].(*Term)
		m := int(in.concretize(st, cc.args[1].(*Term), 2))
		return intrRes{v: in.c.Const(64, in.concretize(st, t, m))}
	}
	I[v("Assume")] = func(in *Interp, st *State, cc *callCtx) intrRes {
		t := in.simp(st, cc.args[0].(*Term))
		if t == in.c.True {
			return intrRes{}
		}
		if t == in.c.False || (in.feasible(st, t) == Unsat) {
			st.done = true
			return intrRes{jumped: true}
		}
		in.assume(st, t)
		return intrRes{}
	}
	I[v("Assert")] = func(in *Interp, st *State, cc *callCtx) intrRes {
		if !in.assertCond(st, cc.args[0].(*Term), concStr(cc.args[1])) {
			st.done = true
			return intrRes{jumped: true}
		}
		return intrRes{}
	}
	I[v("Reach")] = func(in *Interp, st *State, cc *callCtx) intrRes {
		l := concStr(cc.args[0])
		if in.st.Reached[l] == 0 {
			m := in.modelWithin(st, in.c.True, 8*time.Second)
			if m == nil {
				return intrRes{}
			}
			st.addSched(m)
			in.witness["reach:"+l] = m
		}
		in.st.Reached[l]++
		return intrRes{}
	}
	I[v("Param")] = func(in *Interp, st *State, cc *callCtx) intrRes {
		l := concStr(cc.args[0])
		if x, ok := in.opt.Params[l]; ok {
			return intrRes{v: in.c.Const(64, uint64(x))}
		}
		return intrRes{v: cc.args[1]}
	}
	I[v("Symbolic")] = func(in *Interp, st *State, cc *callCtx) intrRes {
		return intrRes{v: in.c.True}
	}
	I[v("UF")] = func(in *Interp, st *State, cc *callCtx) intrRes {
		name := concStr(cc.args[0])
		data := in.strBytes(cc.args[1].(*Str))
		n := int(in.concretize(st, cc.args[2].(*Term), 64))
		for i := range data {
			data[i] = in.simp(st, data[i])
		}
		if in.concHash {
			if bs, ok := constBytes(data); ok {
				out := realHash(name, bs, n)
				ts := make([]*Term, n)
				for i := range ts {
					ts[i] = in.c.Const(8, uint64(out[i]))
				}
				return intrRes{v: in.mkStr(ts)}
			}
		}
		t := in.c.UF(name, data, 8*n)
		return intrRes{v: in.mkStr(in.wideBytes(t, n))}
	}
	I[v("SetMerge")] = func(in *Interp, st *State, cc *callCtx) intrRes {
		st.merge = in.simp(st, cc.args[0].(*Term)) == in.c.True
		return intrRes{}
	}
	I[v("SetSplit")] = func(in *Interp, st *State, cc *callCtx) intrRes {
		st.split = int(in.concretize(st, cc.args[0].(*Term), 64))
		return intrRes{}
	}
	I[v("SetLazy")] = func(in *Interp, st *State, cc *callCtx) intrRes {
		st.lazy = in.simp(st, cc.args[0].(*Term)) == in.c.True
		return intrRes{}
	}
	I[v("SetFmt")] = func(in *Interp, st *State, cc *callCtx) intrRes {
		in.fmtMode = int(in.concretize(st, cc.args[0].(*Term), 64))
		return intrRes{}
	}
	I[v("And")] = func(in *Interp, st *State, cc *callCtx) intrRes {
		var ts []*Term
		for _, x := range sliceOrVariadic(in, st, cc.args[0]) {
			ts = append(ts, x.(*Term))
		}
		return intrRes{v: in.c.And(ts...)}
	}
	I[v("Or")] = func(in *Interp, st *State, cc *callCtx) intrRes {
		var ts []*Term
		for _, x := range sliceOrVariadic(in, st, cc.args[0]) {
			ts = append(ts, x.(*Term))
		}
		return intrRes{v: in.c.Or(ts...)}
	}
	ite := func(in *Interp, st *State, cc *callCtx) intrRes {
		return intrRes{v: in.c.Ite(cc.args[0].(*Term), cc.args[1].(*Term), cc.args[2].(*Term))}
	}
	I[v("Ite64")] = ite
	I[v("Ite8")] = ite
	I[v("IteInt")] = ite
	I[v("Same")] = func(in *Interp, st *State, cc *callCtx) intrRes {
		a, b := in.bytesOf(st, cc.args[0].(Slice)), in.bytesOf(st, cc.args[1].(Slice))
		if len(a) != len(b) {
			return intrRes{v: in.c.False}
		}
		var ts []*Term
		for i := range a {
			ts = append(ts, in.c.Eq(a[i], b[i]))
		}
		return intrRes{v: in.c.And(ts...)}
	}
	I[v("SameStr")] = func(in *Interp, st *State, cc *callCtx) intrRes {
		return intrRes{v: in.strEq(cc.args[0].(*Str), cc.args[1].(*Str))}
	}
	I[v("Note")] = func(in *Interp, st *State, cc *callCtx) intrRes {
		s := cc.args[0].(*Str)
		if s.conc {
			st.notes = append(append([]string(nil), st.notes...), s.s)
		}
		return intrRes{}
	}
	I[v("Dump")] = func(in *Interp, st *State, cc *callCtx) intrRes {
		s := cc.args[0].(*Str)
		fmt.Printf("DUMP %s: ", s.s)
		switch x := cc.args[1].(type) {
		case Iface:
			switch y := x.V.(type) {
			case Slice:
				for i, b := range in.bytesOf(st, y) {
					if i < 8 {
						fmt.Printf("%s ", b)
					}
				}
			case *Str:
				if y.conc {
					fmt.Printf("%q", y.s)
				} else {
					fmt.Printf("symbolic[%d]", y.Len())
				}
			default:
				fmt.Printf("%v", y)
			}
		}
		fmt.Println()
		return intrRes{}
	}
	I[v("Preempt")] = func(in *Interp, st *State, cc *callCtx) intrRes {
		n := int(int32(in.concretize(st, cc.args[0].(*Term), 64)))
		st.schedOn = n >= 0
		st.maxPre = n
		st.preempted = 0
		return intrRes{}
	}
	I[v("Yield")] = func(in *Interp, st *State, cc *callCtx) intrRes {
		if len(st.gs) > 1 {
			in.reschedule(st, false)
		}
		return intrRes{}
	}
	I[v("Races")] = func(in *Interp, st *State, cc *callCtx) intrRes {
		in.raceEnable(st)
		return intrRes{}
	}
	I[v("Concrete")] = func(in *Interp, st *State, cc *callCtx) intrRes {
		return intrRes{v: in.c.Bool(in.simp(st, cc.args[0].(*Term)).IsConst())}
	}
	// AsInt(x) (value, signed, ok): integer content of an interface
	I[v("AsInt")] = func(in *Interp, st *State, cc *callCtx) intrRes {
		i := cc.args[0].(Iface)
		c := in.c
		if i.T != nil {
			if t, ok := i.V.(*Term); ok && t.W > 0 {
				return intrRes{v: Tuple{in.toInt64(t, i.T), c.Bool(isSigned(i.T)), c.True}}
			}
		}
		return intrRes{v: Tuple{c.Const(64, 0), c.False, c.False}}
	}
	I[v("AsString")] = func(in *Interp, st *State, cc *callCtx) intrRes {
		i := cc.args[0].(Iface)
		if i.T != nil {
			if s, ok := i.V.(*Str); ok {
				return intrRes{v: Tuple{s, in.c.True}}
			}
		}
		return intrRes{v: Tuple{emptyStr, in.c.False}}
	}
	// binary encoding
	I[v("BinSize")] = func(in *Interp, st *State, cc *callCtx) intrRes {
		i := cc.args[0].(Iface)
		n := in.binSize(st, i)
		return intrRes{v: in.c.Const(64, uint64(int64(n)))}
	}
	I[v("BinEncode")] = func(in *Interp, st *State, cc *callCtx) intrRes {
		i := cc.args[0].(Iface)
		big := in.simp(st, cc.args[1].(*Term)) == in.c.True
		return intrRes{v: in.newBytes(st, in.binEncode(st, i, big))}
	}
	I[v("BinDecode")] = func(in *Interp, st *State, cc *callCtx) intrRes {
		i := cc.args[0].(Iface)
		big := in.simp(st, cc.args[1].(*Term)) == in.c.True
		in.binDecode(st, i, big, in.bytesOf(st, cc.args[2].(Slice)))
		return intrRes{}
	}
	I[v("IsBigEndian")] = func(in *Interp, st *State, cc *callCtx) intrRes {
		i := cc.args[0].(Iface)
		return intrRes{v: in.c.Bool(i.T != nil && strings.Contains(i.T.String(), "bigEndian"))}
	}
	I[v("SliceLen")] = func(in *Interp, st *State, cc *callCtx) intrRes {
		i := cc.args[0].(Iface)
		return intrRes{v: in.c.Const(64, uint64(i.V.(Slice).Len))}
	}
	I[v("SliceSwap")] = func(in *Interp, st *State, cc *callCtx) intrRes {
		i := cc.args[0].(Iface)
		s := i.V.(Slice)
		es := in.elemSize(i.T)
		a := int32(in.concretize(st, cc.args[1].(*Term), 256))
		b := int32(in.concretize(st, cc.args[2].(*Term), 256))
		o := st.heap.writable(s.Obj)
		for k := int32(0); k < es; k++ {
			x, y := o.load(s.Off+a*es+k), o.load(s.Off+b*es+k)
			st.heap.store(o, s.Off+a*es+k, y)
			st.heap.store(o, s.Off+b*es+k, x)
		}
		return intrRes{}
	}
	// native helpers that have no meaning in the engine
	// ---- fmt
	opaque := func(in *Interp, st *State, cc *callCtx) intrRes {
		return intrRes{v: in.goStr("<formatted>")}
	}
	I["fmt.Sprintf"] = func(in *Interp, st *State, cc *callCtx) intrRes {
		if in.fmtMode == 0 {
			f := "?"
			if s, ok := cc.args[0].(*Str); ok && s.conc {
				f = s.s
			}
			return intrRes{v: in.goStr("<" + f + ">")}
		}
		p := in.prog.ByPath[stubPkg+"vgo"]
		fn := p.Func("Sprintf")
		in.enter(st, target{fn: fn, args: cc.args}, cc.kind, nil)
		return intrRes{jumped: true}
	}
	I["fmt.Sprint"] = opaque
	I["fmt.Sprintln"] = opaque
	I["fmt.Errorf"] = func(in *Interp, st *State, cc *callCtx) intrRes {
		p := in.prog.ByPath[stubPkg+"vgo"]
		fn := p.Func("Errorf")
		in.enter(st, target{fn: fn, args: cc.args}, cc.kind, nil)
		return intrRes{jumped: true}
	}
	I["fmt.Printf"] = func(in *Interp, st *State, cc *callCtx) intrRes {
		return intrRes{v: Tuple{in.c.Const(64, 0), Iface{}}}
	}
	I["fmt.Println"] = I["fmt.Printf"]
	I["log.Printf"] = nop
	// ---- runtime & misc
	I["runtime.NumCPU"] = func(in *Interp, st *State, cc *callCtx) intrRes {
		n := in.opt.Params["ncpu"]
		if n == 0 {
			n = 1
		}
		return intrRes{v: in.c.Const(64, uint64(n))}
	}
	I["runtime.GOMAXPROCS"] = I["runtime.NumCPU"]
	I["runtime.Gosched"] = nop
	I["runtime.KeepAlive"] = nop
	I["runtime.SetFinalizer"] = nop
	I["runtime.GC"] = nop
	I["internal/reflectlite.TypeOf"] = func(in *Interp, st *State, cc *callCtx) intrRes {
		panic(unsupported("reflectlite.TypeOf"))
	}
	I["crypto/rand.Read"] = func(in *Interp, st *State, cc *callCtx) intrRes {
		s := cc.args[0].(Slice)
		name := in.ndName(st, "rand")
		st.ndCnt["rand"]++
		if s.Len > 0 {
			o := st.heap.writable(s.Obj)
			for i := int32(0); i < s.Len; i++ {
				nm := fmt.Sprintf("%s.%d", name, i)
				t := in.ndVar(nm, 8)
				in.ndRecord(st, nm, t)
				st.heap.store(o, s.Off+i, t)
			}
		}
		return intrRes{v: Tuple{in.c.Const(64, uint64(s.Len)), Iface{}}}
	}
	I["internal/bytealg.MakeNoZero"] = func(in *Interp, st *State, cc *callCtx) intrRes {
		n := in.concretize(st, cc.args[0].(*Term), 64)
		return intrRes{v: in.newArray(st, types.Typ[types.Uint8], int(n))}
	}
	I["internal/bytealg.MaxLen"] = nop
	I["math/bits.Len64"] = nil
	delete(I, "math/bits.Len64")
	// ---- reflect (as used to copy hash states)
	I["reflect.ValueOf"] = func(in *Interp, st *State, cc *callCtx) intrRes {
		return intrRes{v: Agg{Ptr{}, cc.args[0], in.c.Const(64, 0)}}
	}
	I["(reflect.Value).Elem"] = func(in *Interp, st *State, cc *callCtx) intrRes {
		a := cc.args[0].(Agg)
		return intrRes{v: Agg{Ptr{}, a[1], in.c.Const(64, 1)}}
	}
	I["(reflect.Value).Set"] = func(in *Interp, st *State, cc *callCtx) intrRes {
		d, s := cc.args[0].(Agg), cc.args[1].(Agg)
		di, ok1 := d[1].(Iface)
		si, ok2 := s[1].(Iface)
		if !ok1 || !ok2 || di.T == nil || si.T == nil {
			in.rtPanic(st, "reflect: Set on zero Value")
			return intrRes{jumped: true}
		}
		if !types.Identical(di.T, si.T) {
			in.rtPanic(st, "reflect.Set: type mismatch")
			return intrRes{jumped: true}
		}
		pt, ok := di.T.Underlying().(*types.Pointer)
		if !ok {
			panic(unsupported("reflect.Set of non-pointer"))
		}
		v := in.load(st, si.V.(Ptr), pt.Elem())
		in.store(st, di.V.(Ptr), v)
		return intrRes{}
	}
	I["reflect.DeepEqual"] = func(in *Interp, st *State, cc *callCtx) intrRes {
		a, b := cc.args[0].(Iface), cc.args[1].(Iface)
		if a.T == nil || b.T == nil {
			return intrRes{v: in.c.Bool(a.T == nil && b.T == nil)}
		}
		if !types.Identical(a.T, b.T) {
			return intrRes{v: in.c.False}
		}
		if sa, ok := a.V.(Slice); ok {
			sb := b.V.(Slice)
			if sa.Len != sb.Len || (sa.Obj == 0) != (sb.Obj == 0) {
				return intrRes{v: in.c.False}
			}
			if in.layoutOf(a.T.Underlying().(*types.Slice).Elem()).kind != (cellKind{'i', 8}) {
				panic(unsupported("DeepEqual of slices"))
			}
			x, y := in.bytesOf(st, sa), in.bytesOf(st, sb)
			var ts []*Term
			for i := range x {
				ts = append(ts, in.c.Eq(x[i], y[i]))
			}
			return intrRes{v: in.c.And(ts...)}
		}
		for _, k := range in.kindsOf(in.layoutOf(a.T)) {
			if k.k != 'i' && k.k != 's' {
				panic(unsupported("DeepEqual"))
			}
		}
		return intrRes{v: in.equal(st, a.V, b.V, a.T, b.T)}
	}
	// ---- the four-way permutation
	I[modPath+"/internal/f1600x4.f1600x4"] = func(in *Interp, st *State, cc *callCtx) intrRes {
		p := cc.args[0].(Ptr)
		o := st.heap.get(p.Obj)
		c := in.c
		if p.Off+100 > o.n {
			in.violation(st, c.True, "assert", "f1600x4 outside its buffer", in.where(st), nil)
			panic(unsupported("f1600x4 outside its buffer"))
		}
		if in.opt.Params["asm"] != 0 {
			if why, when := in.asmPermute(st, []Ptr{p, cc.args[1].(Ptr)}, filepath.Join(repoDir(), "internal", "f1600x4")); why != "" {
				in.violation(st, when, "assert", "f1600x4: "+why, in.where(st), nil)
			}
		}
		var outs [4]*Term
		for j := int32(0); j < 4; j++ {
			var bs []*Term
			for w := int32(0); w < 25; w++ {
				t := in.loadCell(st, o, p.Off+4*w+j, cellKind{'i', 64}).(*Term)
				for k := 0; k < 8; k++ {
					bs = append(bs, c.Extract(t, 8*k+7, 8*k))
				}
			}
			outs[j] = c.UF("keccakf", bs, 1600)
		}
		o = st.heap.writable(p.Obj)
		for j := int32(0); j < 4; j++ {
			bs := in.wideBytes(outs[j], 200)
			for w := 0; w < 25; w++ {
				var parts []*Term
				for k := 7; k >= 0; k-- {
					parts = append(parts, bs[8*w+k])
				}
				st.heap.store(o, p.Off+int32(4*w)+j, c.Concat(parts...))
			}
		}
		return intrRes{}
	}
	syncIntrinsics(I)
}

// ---- binary encoding by static type

func (in *Interp) binType(i Iface) (types.Type, bool) {
	t := i.T
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem(), true
	}
	return t, false
}

func (in *Interp) binSizeT(t types.Type) int {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		k := in.scalarKind(t)
		if k.k != 'i' {
			return -1
		}
		switch u.Kind() {
		case types.Int, types.Uint, types.Uintptr:
			return -1
		}
		if k.w == 0 {
			return 1
		}
		return k.w / 8
	case *types.Struct:
		n := 0
		for i := 0; i < u.NumFields(); i++ {
			m := in.binSizeT(u.Field(i).Type())
			if m < 0 {
				return -1
			}
			n += m
		}
		return n
	case *types.Array:
		m := in.binSizeT(u.Elem())
		if m < 0 {
			return -1
		}
		return m * int(u.Len())
	}
	return -1
}

func (in *Interp) binSize(st *State, i Iface) int {
	if i.T == nil {
		return -1
	}
	t, _ := in.binType(i)
	if sl, ok := t.Underlying().(*types.Slice); ok {
		s := i.V.(Slice)
		m := in.binSizeT(sl.Elem())
		if m < 0 {
			return -1
		}
		return m * int(s.Len)
	}
	return in.binSizeT(t)
}

// fields flattens a type into scalar widths (in bytes) per cell.
func (in *Interp) binCells(t types.Type) []int {
	var out []int
	for _, k := range in.kindsOf(in.layoutOf(t)) {
		if k.w == 0 {
			out = append(out, 1)
		} else {
			out = append(out, k.w/8)
		}
	}
	return out
}

func (in *Interp) binValue(st *State, i Iface) (Agg, []int) {
	t, ptr := in.binType(i)
	if sl, ok := t.Underlying().(*types.Slice); ok {
		s := i.V.(Slice)
		var a Agg
		var ws []int
		cs := in.binCells(sl.Elem())
		es := int32(len(cs))
		for k := int32(0); k < s.Len*es; k++ {
			a = append(a, in.loadCell(st, st.heap.get(s.Obj), s.Off+k, cellKind{'i', 8 * cs[k%es]}))
			ws = append(ws, cs[k%es])
		}
		return a, ws
	}
	v := i.V
	if ptr {
		v = in.load(st, i.V.(Ptr), t)
	}
	return toAgg(v), in.binCells(t)
}

func (in *Interp) binEncode(st *State, i Iface, big bool) []*Term {
	a, ws := in.binValue(st, i)
	var out []*Term
	for k, v := range a {
		t := v.(*Term)
		if t.W == 0 {
			t = in.c.Ite(t, in.c.Const(8, 1), in.c.Const(8, 0))
		}
		for b := 0; b < ws[k]; b++ {
			sh := 8 * b
			if big {
				sh = 8 * (ws[k] - 1 - b)
			}
			out = append(out, in.c.Extract(t, sh+7, sh))
		}
	}
	return out
}

func (in *Interp) binDecode(st *State, i Iface, big bool, bs []*Term) {
	t, ptr := in.binType(i)
	mk := func(w int, b []*Term, isBool bool) *Term {
		var parts []*Term
		if big {
			parts = append(parts, b[:w]...)
		} else {
			for k := w - 1; k >= 0; k-- {
				parts = append(parts, b[k])
			}
		}
		r := in.c.Concat(parts...)
		if isBool {
			return in.c.Not(in.c.Eq(r, in.c.Const(8, 0)))
		}
		return r
	}
	if sl, ok := t.Underlying().(*types.Slice); ok && !ptr {
		s := i.V.(Slice)
		cs := in.binCells(sl.Elem())
		pos := 0
		if s.Len > 0 {
			o := st.heap.writable(s.Obj)
			for k := 0; k < int(s.Len)*len(cs); k++ {
				w := cs[k%len(cs)]
				st.heap.store(o, s.Off+int32(k), mk(w, bs[pos:], false))
				pos += w
			}
		}
		return
	}
	if !ptr {
		panic(unsupported("binary.Read into non-pointer"))
	}
	ks := in.kindsOf(in.layoutOf(t))
	pos := 0
	var a Agg
	for _, k := range ks {
		w := k.w / 8
		if w == 0 {
			w = 1
		}
		a = append(a, mk(w, bs[pos:], k.w == 0))
		pos += w
	}
	p := i.V.(Ptr)
	if in.layoutOf(t).isAgg {
		in.store(st, p, a)
	} else {
		in.store(st, p, a[0])
	}
}

// constBytes returns the value of ts if all are constants.
func constBytes(ts []*Term) ([]byte, bool) {
	bs := make([]byte, len(ts))
	for i, t := range ts {
		if t.Op != OConst {
			return nil, false
		}
		bs[i] = byte(t.C)
	}
	return bs, true
}
