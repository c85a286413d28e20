package main

// Command line: check a property, run one harness, replay a counterexample.

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Job is one symbolic exploration of one harness.
type Job struct {
	Harness  string             `json:"harness"`
	Tier     string             `json:"tier,omitempty"` // "", "quick" or "thorough"
	Params   map[string]int64   `json:"params,omitempty"`
	Sweep    map[string][]int64 `json:"sweep,omitempty"`
	X4       bool               `json:"x4,omitempty"`
	Model    bool               `json:"model,omitempty"`    // filesystem models
	Align    int                `json:"align,omitempty"`    // pointer alignment of fresh objects
	Timeout  int                `json:"timeout,omitempty"`  // seconds
	QTimeout int                `json:"qtimeout,omitempty"` // seconds per query
	MaxPaths int                `json:"maxpaths,omitempty"`
	Bound    string             `json:"bound,omitempty"`
	Replay   string             `json:"replay,omitempty"` // "", "race", "sched"
	Reach    []string           `json:"reach,omitempty"`  // labels that must be reachable
}

type CheckCfg struct {
	Prop        string   `json:"prop"`
	Technique   string   `json:"technique"`
	LevelNote   string   `json:"level_note"`
	Outside     string   `json:"outside"`
	Assumptions []string `json:"assumptions"`
	Jobs        []Job    `json:"jobs"`
}

type Finding struct {
	Property string           `json:"property"`
	Harness  string           `json:"harness"`
	Label    string           `json:"label"`
	Kind     string           `json:"kind,omitempty"`
	Pos      string           `json:"pos,omitempty"` // substring of the call site
	Params   map[string]int64 `json:"params,omitempty"`
	What     string           `json:"what"`
	Fixed    string           `json:"fixed,omitempty"`
}

type JobResult struct {
	job      Job
	in       *Interp
	viols    []*Violation
	err      string
	wall     time.Duration
	complete bool
}

func (j *Job) key() string {
	var ks []string
	for k, v := range j.Params {
		ks = append(ks, fmt.Sprintf("%s=%d", k, v))
	}
	sort.Strings(ks)
	s := j.Harness
	if len(ks) > 0 {
		s += "[" + strings.Join(ks, ",") + "]"
	}
	return s
}

func expand(jobs []Job, tier string) []Job {
	var out []Job
	for _, j := range jobs {
		if j.Tier != "" && j.Tier != tier {
			continue
		}
		list := []Job{j}
		var ks []string
		for k := range j.Sweep {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			var nl []Job
			for _, x := range list {
				for _, v := range j.Sweep[k] {
					y := x
					y.Params = map[string]int64{}
					for a, b := range x.Params {
						y.Params[a] = b
					}
					y.Params[k] = v
					nl = append(nl, y)
				}
			}
			list = nl
		}
		out = append(out, list...)
	}
	return out
}

func (in *Interp) newState() *State {
	st := &State{ndCnt: map[string]int{}, ftok: &token_{}}
	st.heap.tok = &htok{}
	return st
}

func (in *Interp) start(st *State, fn *ssa.Function) {
	st.gs = []*G{{status: gRun}}
	st.cur = 0
	st.done = false
	st.resched = 0
	st.escaped = false
	in.enter(st, target{fn: fn}, retNormal, nil)
}

// boot runs the package initialisers and returns the state the harness starts
// from.
func (in *Interp) boot() (st *State, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("boot: %v", r)
		}
	}()
	st = in.newState()
	in.booting = true
	var paths []string
	for p := range in.prog.ByPath {
		if in.mayInit(p) {
			paths = append(paths, p)
		}
	}
	sort.Strings(paths)
	// errors first: its initialiser uses reflection and is cut short
	for _, p := range append([]string{"errors"}, paths...) {
		pkg := in.prog.ByPath[p]
		if pkg == nil {
			continue
		}
		in.prog.ensureBuilt(pkg)
		fn := pkg.Func("init")
		if fn == nil {
			continue
		}
		in.start(st, fn)
		if len(st.gs[0].frames) == 0 {
			continue
		}
		why, _ := in.runSteps(st, nil)
		if why != whyDone {
			if strings.HasPrefix(p, modPath) {
				return nil, fmt.Errorf("initialisation of %s did not finish (%d): %v", p, why, in.problems)
			}
		}
	}
	in.booting = false
	in.st.Steps, in.st.Paths, in.st.PathsCut = 0, 0, 0
	in.st.Funcs = map[string]int{}
	for _, fi := range in.fns {
		fi.entered = 0
	}
	if p := in.prog.ByPath[modPath+"/internal/f1600x4"]; p != nil {
		if g, ok := p.Members["Available"].(*ssa.Global); ok {
			id := in.globalObj(st, g)
			st.heap.store(st.heap.writable(id), 0, in.c.Bool(in.opt.X4))
		}
	}
	return st, nil
}

func runJob(p *Program, j Job, seed int64, verbose bool) (res *JobResult) {
	res = &JobResult{job: j}
	t0 := time.Now()
	defer func() { res.wall = time.Since(t0) }()
	fn := p.Main.Func(j.Harness)
	if fn == nil {
		res.err = "harness not available"
		for f, e := range p.Dropped {
			res.err += "; " + f + ": " + e
		}
		return
	}
	to := time.Duration(j.Timeout) * time.Second
	if to == 0 {
		to = 60 * time.Second
	}
	qt := time.Duration(j.QTimeout) * time.Second
	if qt == 0 {
		qt = 20 * time.Second
	}
	opt := Options{QueryTimeout: qt, Deadline: t0.Add(to), Params: j.Params, X4: j.X4, Align: j.Align, MaxPaths: j.MaxPaths}
	if opt.Params == nil {
		opt.Params = map[string]int64{}
	}
	opt.Trace = os.Getenv("VH_TRACE") != ""
	in := NewInterp(p, opt)
	in.prof = os.Getenv("VH_PROF") != ""
	in.instrCount = map[string]int64{}
	memAdd(in)
	defer in.release()
	res.in = in
	st, err := in.boot()
	if err != nil {
		res.err = err.Error()
		return
	}
	in.problems = map[string]int{}
	in.start(st, fn)
	in.Explore(st)
	res.viols = in.viols
	res.complete = len(in.problems) == 0 && !in.stopAll
	if in.prof {
		type kv struct {
			k string
			v int64
		}
		var l []kv
		for k, v := range in.instrCount {
			l = append(l, kv{k, v})
		}
		sort.Slice(l, func(a, b int) bool { return l[a].v > l[b].v })
		for i, x := range l {
			if i < 25 {
				fmt.Printf("  prof %8d %s\n", x.v, x.k)
			}
		}
	}
	return
}

func loadChecks(verif string) ([]CheckCfg, error) {
	b, err := os.ReadFile(filepath.Join(verif, "checks.json"))
	if err != nil {
		return nil, err
	}
	var cs []CheckCfg
	return cs, json.Unmarshal(b, &cs)
}

func loadFindings(verif string) []Finding {
	b, err := os.ReadFile(filepath.Join(verif, "known_findings.json"))
	if err != nil {
		return nil
	}
	var fs []Finding
	if err := json.Unmarshal(b, &fs); err != nil {
		fmt.Fprintln(os.Stderr, "known_findings.json:", err)
	}
	return fs
}

func matchFinding(fs []Finding, prop string, j *Job, v *Violation) *Finding {
	for i := range fs {
		f := &fs[i]
		if f.Fixed != "" || f.Property != prop || f.Harness != j.Harness || f.Label != v.Label {
			continue
		}
		if f.Kind != "" && f.Kind != v.Kind {
			continue
		}
		if f.Pos != "" && !strings.Contains(v.Pos, f.Pos) {
			continue
		}
		ok := true
		for k, x := range f.Params {
			if j.Params[k] != x {
				ok = false
			}
		}
		if ok {
			return f
		}
	}
	return nil
}

type lazyProg struct {
	once sync.Once
	p    *Program
	err  error
	cfg  Config
}

func (l *lazyProg) get() (*Program, error) {
	l.once.Do(func() {
		os.MkdirAll(l.cfg.Work, 0755)
		l.p, l.err = loadProgram(&l.cfg)
	})
	return l.p, l.err
}

func newProgs(work string) map[bool]*lazyProg {
	repo, verif := repoDir(), verifDir()
	return map[bool]*lazyProg{
		false: {cfg: Config{Repo: repo, Verif: verif, Work: filepath.Join(work, "plain")}},
		true:  {cfg: Config{Repo: repo, Verif: verif, Work: filepath.Join(work, "model"), Model: true}},
	}
}

func repoDir() string {
	if r := os.Getenv("VERIF_REPO"); r != "" {
		return r
	}
	return "/repo"
}

func verifDir() string {
	if r := os.Getenv("VERIF_DIR"); r != "" {
		return r
	}
	return "/verif"
}

func main() {
	if f := os.Getenv("VH_CPU"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	memInit()
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: engine check PROP [tier] | run HARNESS [k=v...] | replay FILE | warm")
		os.Exit(2)
	}
	seed := int64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if v, err := strconv.ParseInt(s, 10, 64); err == nil {
			seed = v
		}
	}
	work, err := os.MkdirTemp("", "vh")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	rc := 0
	switch os.Args[1] {
	case "check":
		tier := os.Getenv("VERIF_TIER")
		if len(os.Args) > 3 {
			tier = os.Args[3]
		}
		if tier != "thorough" {
			tier = "quick"
		}
		rc = cmdCheck(os.Args[2], tier, seed, work)
	case "run":
		rc = cmdRun(os.Args[2:], seed, work)
	case "replay":
		rc = cmdReplay(os.Args[2], seed, work)
	case "warm":
		rc = cmdWarm(work)
	default:
		rc = 2
	}
	os.RemoveAll(work)
	pprof.StopCPUProfile()
	os.Exit(rc)
}

// cmdRun explores one harness and prints everything (for development).
func cmdRun(args []string, seed int64, work string) int {
	j := Job{Harness: args[0], Params: map[string]int64{}}
	replay := false
	for _, a := range args[1:] {
		kv := strings.SplitN(a, "=", 2)
		var v int64 = 1
		if len(kv) == 2 {
			v, _ = strconv.ParseInt(kv[1], 10, 64)
		}
		switch kv[0] {
		case "-x4":
			j.X4 = v != 0
		case "-model":
			j.Model = v != 0
		case "-align":
			j.Align = int(v)
		case "-timeout":
			j.Timeout = int(v)
		case "-q":
			j.QTimeout = int(v)
		case "-replay":
			replay = true
		case "-sched":
			j.Replay = "sched"
		case "-race":
			j.Replay = "race"
		case "-maxpaths":
			j.MaxPaths = int(v)
		default:
			j.Params[kv[0]] = v
		}
	}
	t0 := time.Now()
	progs := newProgs(work)
	p, err := progs[j.Model].get()
	if err != nil {
		fmt.Println("load:", err)
		return 2
	}
	for f, e := range p.Dropped {
		fmt.Println("dropped", f, e)
	}
	fmt.Printf("loaded in %v\n", time.Since(t0))
	r := runJob(p, j, seed, true)
	printResult(r)
	if replay && r.in != nil {
		nat := &native{cfg: progs[j.Model].cfg, prog: p}
		for _, v := range r.viols {
			ok, how := nat.confirm(&j, v, seed)
			fmt.Println("  native replay:", ok, how)
		}
		n, bad := nat.witnesses(&j, r.in.witness, seed)
		fmt.Println("  witnesses replayed:", n, "bad:", bad)
	}
	return 0
}

func printResult(r *JobResult) {
	fmt.Printf("%s: %v err=%q complete=%v\n", r.job.key(), r.wall, r.err, r.complete)
	if r.in == nil {
		return
	}
	in := r.in
	s := in.sol.Stats
	fmt.Printf("  paths=%d merges=%d forks=%d steps=%d asserts=%d discharged=%d syntactic=%d unknown=%d cut=%d\n", in.st.Paths, in.st.Merges, in.st.Forks, in.st.Steps, in.st.Asserts, in.st.Discharged, in.st.Syntactic, in.st.Unknowns, in.st.PathsCut)
	fmt.Printf("  solver: q=%d sat=%d unsat=%d unk=%d cache=%d modelhits=%d time=%v max=%v\n", s.Queries, s.Sat, s.Unsat, s.Unknown, s.CacheHits, s.ModelHits, s.Time, s.MaxTime)
	fmt.Printf("  reached: %v\n  asserts: %v\n  funcs: %d\n", in.st.Reached, in.st.AssertLabel, len(in.st.Funcs))
	for k, n := range in.problems {
		fmt.Printf("  PROBLEM x%d %s\n", n, k)
	}
	for _, v := range r.viols {
		fmt.Printf("  VIOL %s %q at %s notes=%v\n", v.Kind, v.Label, v.Pos, v.Notes)
		for _, t := range v.Trace {
			fmt.Println("     ", t)
		}
		var ks []string
		for k := range v.Values {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		n := 0
		for _, k := range ks {
			if n < 60 {
				fmt.Printf("      %s=%d", k, v.Values[k])
			}
			n++
		}
		fmt.Println()
	}
}

func runJobs(progs map[bool]*lazyProg, jobs []Job, seed int64, ok func(*JobResult) bool) []*JobResult {
	res := make([]*JobResult, len(jobs))
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	sem := make(chan bool, n)
	var wg sync.WaitGroup
	for i := range jobs {
		wg.Add(1)
		sem <- true
		go func(i int) {
			defer func() { <-sem; wg.Done() }()
			defer func() {
				if r := recover(); r != nil {
					res[i] = &JobResult{job: jobs[i], err: fmt.Sprintf("engine: %v", r)}
				}
			}()
			memEnter()
			p, err := progs[jobs[i].Model].get()
			if err != nil {
				res[i] = &JobResult{job: jobs[i], err: "load: " + err.Error()}
				return
			}
			res[i] = runJob(p, jobs[i], seed, false)
			if ok != nil && !ok(res[i]) {
				softStop(60 * time.Second)
			}
		}(i)
	}
	wg.Wait()
	return res
}
