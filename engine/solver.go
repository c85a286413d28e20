package main

// SMT-LIB emission and solver processes.

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

func (r Result) String() string { return [...]string{"unsat", "sat", "unknown"}[r] }

type SolverStats struct {
	Queries    int
	Sat        int
	Unsat      int
	Unknown    int
	CacheHits  int
	RealModels int
	ModelHits  int
	Time       time.Duration
	MaxTime    time.Duration
}

var totalQueries int64

type Solver struct {
	c       *TermCtx
	cmd     *exec.Cmd
	in      *bufio.Writer
	inPipe  io.WriteCloser
	out     *bufio.Reader
	emitted map[*Term]string
	ufs     map[string]bool
	nemit   int
	Stats   SolverStats
	cache   map[uint64][]cacheEnt
	models  []map[string]uint64
	support map[*Term]*supp
	logw    io.Writer
	bin     []string
}

type cacheEnt struct {
	key []*Term
	res Result
}

// supp is the set of "variables" (vars and UF names) a term depends on.
type supp struct {
	ids map[string]struct{}
}

func NewSolver(c *TermCtx) *Solver {
	s := &Solver{c: c, cache: map[uint64][]cacheEnt{}, support: map[*Term]*supp{}}
	s.bin = []string{"z3-new", "-memory:6000", "-in", "-smt2"}
	return s
}

func (s *Solver) start() error {
	s.emitted = map[*Term]string{}
	s.ufs = map[string]bool{}
	s.nemit = 0
	cmd := exec.Command(s.bin[0], s.bin[1:]...)
	in, err := cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return err
	}
	if err := cmd.Start(); err != nil {
		return err
	}
	s.cmd = cmd
	s.inPipe = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	if d := os.Getenv("VERIF_SMTLOG"); d != "" && s.logw == nil {
		f, _ := os.CreateTemp(d, "smt*.smt2")
		s.logw = f
	}
	s.send("(set-option :print-success false)\n(set-option :global-declarations true)\n")
	return nil
}

func (s *Solver) send(x string) {
	s.in.WriteString(x)
	if s.logw != nil {
		io.WriteString(s.logw, x)
	}
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.inPipe.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func sortStr(w int) string {
	if w == 0 {
		return "Bool"
	}
	return "(_ BitVec " + strconv.Itoa(w) + ")"
}

func ufSym(name string, n, w int) string {
	return fmt.Sprintf("|%s_%d_%d|", name, n, w)
}

func constStr(t *Term) string {
	if t.W == 0 {
		if t.C == 1 {
			return "true"
		}
		return "false"
	}
	if t.W%4 == 0 && t.W <= 64 {
		return fmt.Sprintf("#x%0*x", t.W/4, t.C)
	}
	return fmt.Sprintf("(_ bv%d %d)", t.C, t.W)
}

// emitter writes definitions of all nodes below t; returns the reference.
type emitter struct {
	w       func(string)
	emitted map[*Term]string
	ufs     map[string]bool
	n       int
}

func (e *emitter) ref(t *Term) string {
	if t.Op == OConst {
		return constStr(t)
	}
	if r, ok := e.emitted[t]; ok {
		return r
	}
	// iterative post-order to avoid deep recursion
	type fr struct {
		t *Term
		i int
	}
	stack := []fr{{t, 0}}
	for len(stack) > 0 {
		f := &stack[len(stack)-1]
		if f.i < len(f.t.A) {
			a := f.t.A[f.i]
			f.i++
			if a.Op != OConst {
				if _, ok := e.emitted[a]; !ok {
					stack = append(stack, fr{a, 0})
				}
			}
			continue
		}
		x := f.t
		stack = stack[:len(stack)-1]
		if _, ok := e.emitted[x]; ok {
			continue
		}
		e.def(x)
	}
	return e.emitted[t]
}

func (e *emitter) arg(a *Term) string {
	if a.Op == OConst {
		return constStr(a)
	}
	return e.emitted[a]
}

func (e *emitter) def(t *Term) {
	e.n++
	if t.Op == OVar {
		nm := "|" + t.S + "|"
		e.w("(declare-const " + nm + " " + sortStr(t.W) + ")\n")
		e.emitted[t] = nm
		return
	}
	var b strings.Builder
	nm := "t" + strconv.Itoa(int(t.id))
	b.WriteString("(define-fun " + nm + " () " + sortStr(t.W) + " ")
	switch t.Op {
	case OExtract:
		fmt.Fprintf(&b, "((_ extract %d %d) %s)", int(t.C)+t.W-1, t.C, e.arg(t.A[0]))
	case OSext:
		fmt.Fprintf(&b, "((_ sign_extend %d) %s)", t.W-t.A[0].W, e.arg(t.A[0]))
	case OUF:
		aw := 0
		for _, a := range t.A {
			aw += a.W
		}
		sym := ufSym(t.S, aw, t.W)
		if !e.ufs[sym] {
			e.ufs[sym] = true
			d := ""
			if aw > 0 {
				d = sortStr(aw)
			}
			e.w("(declare-fun " + sym + " (" + d + ") " + sortStr(t.W) + ")\n")
		}
		if aw == 0 {
			b.WriteString(sym)
		} else {
			b.WriteString("(" + sym + " ")
			if len(t.A) == 1 {
				b.WriteString(e.arg(t.A[0]))
			} else {
				b.WriteString("(concat")
				for _, a := range t.A {
					b.WriteString(" " + e.arg(a))
				}
				b.WriteString(")")
			}
			b.WriteString(")")
		}
	default:
		b.WriteString("(" + opNames[t.Op])
		for _, a := range t.A {
			b.WriteString(" " + e.arg(a))
		}
		b.WriteString(")")
	}
	b.WriteString(")\n")
	e.w(b.String())
	e.emitted[t] = nm
}

func (s *Solver) supportOf(t *Term) map[string]struct{} {
	if r, ok := s.support[t]; ok {
		return r.ids
	}
	ids := map[string]struct{}{}
	seen := map[*Term]bool{}
	stack := []*Term{t}
	for len(stack) > 0 {
		x := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if seen[x] {
			continue
		}
		seen[x] = true
		if x.Op == OVar {
			ids[x.S] = struct{}{}
		} else if x.Op == OUF {
			ids["uf:"+x.S] = struct{}{}
		}
		stack = append(stack, x.A...)
	}
	s.support[t] = &supp{ids}
	return ids
}

// slice returns the conjuncts of pc relevant for q.
func (s *Solver) slice(pc []*Term, q *Term) []*Term {
	if len(pc) == 0 {
		return nil
	}
	cur := map[string]struct{}{}
	for k := range s.supportOf(q) {
		cur[k] = struct{}{}
	}
	used := make([]bool, len(pc))
	for changed := true; changed; {
		changed = false
		for i, p := range pc {
			if used[i] {
				continue
			}
			sp := s.supportOf(p)
			hit := false
			for k := range sp {
				if _, ok := cur[k]; ok {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				changed = true
				for k := range sp {
					cur[k] = struct{}{}
				}
			}
		}
	}
	var out []*Term
	for i, p := range pc {
		if used[i] {
			out = append(out, p)
		}
	}
	return out
}

func keyHash(k []*Term) uint64 {
	var h uint64 = 7
	for _, t := range k {
		h = hashMix(h, uint64(t.id))
	}
	return h
}

// Check decides satisfiability of (pc restricted to q's cone) ∧ q.  pc itself
// is assumed satisfiable.
func (s *Solver) Check(pc []*Term, q *Term, timeout time.Duration) Result {
	if q == s.c.True {
		return Sat
	}
	if q == s.c.False {
		return Unsat
	}
	sl := s.slice(pc, q)
	key := append(append([]*Term{}, sl...), q)
	h := keyHash(key)
	for _, e := range s.cache[h] {
		if len(e.key) == len(key) {
			same := true
			for i := range key {
				if e.key[i] != key[i] {
					same = false
					break
				}
			}
			if same {
				s.Stats.CacheHits++
				return e.res
			}
		}
	}
	// try recent models
	for i := len(s.models) - 1; i >= 0 && i >= len(s.models)-6; i-- {
		memo := map[*Term]uint64{}
		good := true
		for j := len(key) - 1; j >= 0; j-- {
			v, ok := s.c.Eval(key[j], s.models[i], memo)
			if !ok || v != 1 {
				good = false
				break
			}
		}
		if good {
			s.Stats.ModelHits++
			s.cache[h] = append(s.cache[h], cacheEnt{key, Sat})
			return Sat
		}
	}
	r, m := s.solve(key, timeout, true)
	if r != Unknown {
		s.cache[h] = append(s.cache[h], cacheEnt{key, r})
	}
	if m != nil {
		s.models = append(s.models, m)
		if len(s.models) > 64 {
			s.models = s.models[32:]
		}
	}
	return r
}

// Model solves the full conjunction and returns values of all variables.
func (s *Solver) Model(conj []*Term, timeout time.Duration) (Result, map[string]uint64) {
	return s.solve(conj, timeout, true)
}

func collectVars(ts []*Term) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	stack := append([]*Term{}, ts...)
	for len(stack) > 0 {
		x := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if seen[x] {
			continue
		}
		seen[x] = true
		if x.Op == OVar {
			out = append(out, x)
		}
		stack = append(stack, x.A...)
	}
	return out
}

func (s *Solver) solve(conj []*Term, timeout time.Duration, wantModel bool) (res Result, model map[string]uint64) {
	t0 := time.Now()
	atomic.AddInt64(&totalQueries, 1)
	s.Stats.Queries++
	defer func() {
		d := time.Since(t0)
		s.Stats.Time += d
		if d > s.Stats.MaxTime {
			s.Stats.MaxTime = d
		}
		switch res {
		case Sat:
			s.Stats.Sat++
		case Unsat:
			s.Stats.Unsat++
		default:
			s.Stats.Unknown++
		}
	}()
	if s.cmd != nil && s.nemit > 400000 {
		s.Close()
	}
	if s.cmd == nil {
		if err := s.start(); err != nil {
			return Unknown, nil
		}
	}
	e := &emitter{w: s.send, emitted: s.emitted, ufs: s.ufs, n: s.nemit}
	var refs []string
	for _, t := range conj {
		refs = append(refs, e.ref(t))
	}
	s.nemit = e.n
	s.send(fmt.Sprintf("(push 1)\n(set-option :timeout %d)\n", timeout.Milliseconds()))
	for _, r := range refs {
		s.send("(assert " + r + ")\n")
	}
	s.send("(check-sat)\n")
	s.in.Flush()
	kill := time.AfterFunc(timeout+timeout/2+5*time.Second, func() {
		if s.cmd != nil {
			s.cmd.Process.Kill()
		}
	})
	defer kill.Stop()
	line, err := s.out.ReadString('\n')
	if err != nil {
		s.Close()
		return Unknown, nil
	}
	line = strings.TrimSpace(line)
	switch line {
	case "sat":
		res = Sat
	case "unsat":
		res = Unsat
	case "unknown", "timeout":
		res = Unknown
	default:
		fmt.Fprintln(os.Stderr, "solver:", line)
		s.Close()
		return Unknown, nil
	}
	if res == Sat && wantModel {
		vars := collectVars(conj)
		if len(vars) > 0 {
			s.send("(get-value (")
			for _, v := range vars {
				s.send(" |" + v.S + "|")
			}
			s.send("))\n")
			s.in.Flush()
			txt, err := readSexp(s.out)
			if err != nil {
				s.Close()
				return res, nil
			}
			model = parseModel(txt)
		} else {
			model = map[string]uint64{}
		}
	}
	s.send("(pop 1)\n")
	return res, model
}

func readSexp(r *bufio.Reader) (string, error) {
	var b strings.Builder
	depth := 0
	inBar := false
	for {
		ch, err := r.ReadByte()
		if err != nil {
			return "", err
		}
		b.WriteByte(ch)
		if ch == '|' {
			inBar = !inBar
		}
		if inBar {
			continue
		}
		if ch == '(' {
			depth++
		} else if ch == ')' {
			depth--
			if depth == 0 {
				r.ReadString('\n')
				return b.String(), nil
			}
		}
	}
}

func parseModel(txt string) map[string]uint64 {
	m := map[string]uint64{}
	// entries of the form (|name| value) or (name value)
	i := 1
	for i < len(txt) {
		if txt[i] != '(' {
			i++
			continue
		}
		i++
		var name string
		if txt[i] == '|' {
			j := strings.IndexByte(txt[i+1:], '|') + i + 1
			name = txt[i+1 : j]
			i = j + 1
		} else {
			j := strings.IndexAny(txt[i:], " \n\t") + i
			name = txt[i:j]
			i = j
		}
		// value up to matching )
		j := i
		depth := 0
		for ; j < len(txt); j++ {
			if txt[j] == '(' {
				depth++
			} else if txt[j] == ')' {
				if depth == 0 {
					break
				}
				depth--
			}
		}
		v := strings.TrimSpace(txt[i:j])
		i = j + 1
		switch {
		case v == "true":
			m[name] = 1
		case v == "false":
			m[name] = 0
		case strings.HasPrefix(v, "#x"):
			x, _ := strconv.ParseUint(v[2:], 16, 64)
			m[name] = x
		case strings.HasPrefix(v, "#b"):
			x, _ := strconv.ParseUint(v[2:], 2, 64)
			m[name] = x
		case strings.HasPrefix(v, "(_ bv"):
			f := strings.Fields(v[5:])
			x, _ := strconv.ParseUint(f[0], 10, 64)
			m[name] = x
		}
	}
	return m
}

// oneShot runs a fresh solver process on the conjunction; used for the final
// obligations so that they do not depend on incremental state.
func oneShot(bin []string, conj []*Term, timeout time.Duration) (Result, map[string]uint64, string) {
	var b strings.Builder
	e := &emitter{w: func(x string) { b.WriteString(x) }, emitted: map[*Term]string{}, ufs: map[string]bool{}}
	b.WriteString("(set-option :produce-models true)\n(set-logic QF_UFBV)\n")
	var refs []string
	for _, t := range conj {
		refs = append(refs, e.ref(t))
	}
	for _, r := range refs {
		b.WriteString("(assert " + r + ")\n")
	}
	b.WriteString("(check-sat)\n")
	vars := collectVars(conj)
	if len(vars) > 0 {
		b.WriteString("(get-value (")
		for _, v := range vars {
			b.WriteString(" |" + v.S + "|")
		}
		b.WriteString("))\n")
	}
	cmd := exec.Command(bin[0], bin[1:]...)
	cmd.Stdin = strings.NewReader(b.String())
	var out strings.Builder
	cmd.Stdout = &out
	if err := cmd.Start(); err != nil {
		return Unknown, nil, "start"
	}
	kill := time.AfterFunc(timeout, func() { cmd.Process.Kill() })
	cmd.Wait()
	kill.Stop()
	o := out.String()
	switch {
	case strings.HasPrefix(o, "unsat"):
		return Unsat, nil, ""
	case strings.HasPrefix(o, "sat"):
		i := strings.Index(o, "(")
		if len(vars) > 0 && i > 0 && !strings.HasPrefix(o[i:], "(error") {
			return Sat, parseModel(o[i:]), ""
		}
		return Sat, map[string]uint64{}, ""
	}
	return Unknown, nil, strings.SplitN(o, "\n", 2)[0]
}

func (s *Solver) usesUF(t *Term) bool {
	for k := range s.supportOf(t) {
		if len(k) > 3 && k[:3] == "uf:" {
			return true
		}
	}
	return false
}
