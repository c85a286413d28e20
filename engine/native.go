package main

// Native replay: the harness is compiled with the real code and run with the
// values the solver found.

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

type native struct {
	cfg   Config
	prog  *Program
	mu    sync.Mutex
	bins  map[string]string
	errs  map[string]error
	count int
}

const replayTest = `package xmssmt

import (
	"encoding/json"
	"fmt"
	"os"
	"testing"
	"time"

	"github.com/bwesterb/go-xmssmt/internal/f1600x4"
	"github.com/bwesterb/go-xmssmt/internal/vnd"
)

type vhReq struct {
	Harness string
	File    string
	Mode    int
	Tries   int
	Seconds int
	Seed    int64
	X4      bool
	Once    int
}

var vhX4 = f1600x4.Available

func vhOnce(f func(), wait time.Duration) (res string) {
	ch := make(chan string, 1)
	go func() {
		r := "panic: goexit"
		defer func() {
			if e := recover(); e != nil {
				switch x := e.(type) {
				case vnd.Skip:
					r = "skip"
				case vnd.Fail:
					r = "fail: " + x.Label
				default:
					r = fmt.Sprintf("panic: %v", e)
				}
			}
			ch <- r
		}()
		f()
		r = "ok"
	}()
	select {
	case res = <-ch:
	case <-time.After(wait):
		res = "timeout"
	}
	if l := vnd.Failed(); l != "" && res == "ok" {
		res = "fail: " + l
	}
	return res
}

func TestVHReplay(t *testing.T) {
	b, err := os.ReadFile(os.Getenv("VH_REQ"))
	if err != nil {
		t.Fatal(err)
	}
	var reqs []vhReq
	if err := json.Unmarshal(b, &reqs); err != nil {
		t.Fatal(err)
	}
	for i, r := range reqs {
		f := vhRegistry[r.Harness]
		if f == nil {
			fmt.Printf("VHRESULT %d missing\n", i)
			continue
		}
		f1600x4.Available = r.X4 && vhX4
		if err := vnd.Load(r.File); err != nil {
			t.Fatal(err)
		}
		end := time.Now().Add(time.Duration(r.Seconds) * time.Second)
		res := ""
		ok := 0
		for k := 0; k < r.Tries; k++ {
			vnd.Reset(r.Mode, r.Seed+int64(k))
			left := time.Until(end)
			if left < 0 {
				break
			}
			if r.Once > 0 && left > time.Duration(r.Once)*time.Second {
				left = time.Duration(r.Once) * time.Second
			}
			res = vhOnce(f, left)
			if res == "ok" {
				ok++
			}
			if res != "ok" && res != "skip" {
				fmt.Printf("VHTRY %d\n", k)
				break
			}
		}
		if (res == "skip" || res == "timeout") && ok > 0 {
			res = "ok"
		}
		if res == "" {
			res = "timeout"
		}
		fmt.Printf("VHRESULT %d %s\n", i, res)
	}
}
`

func (n *native) build(race, sched bool) (string, error) {
	n.mu.Lock()
	defer n.mu.Unlock()
	key := fmt.Sprint(race)
	if sched {
		key = "sched"
	}
	if n.bins == nil {
		n.bins = map[string]string{}
		n.errs = map[string]error{}
	}
	if b, ok := n.bins[key]; ok {
		return b, n.errs[key]
	}
	n.bins[key] = ""
	skip := map[string]bool{}
	for f := range n.prog.Dropped {
		skip[f] = true
	}
	ov, err := buildOverlay(&n.cfg, true, skip)
	if err != nil {
		n.errs[key] = err
		return "", err
	}
	if sched {
		// under the scheduler of vnd/vsync.go
		if err := addScheduler(&n.cfg, ov); err != nil {
			n.errs[key] = err
			return "", err
		}
	}
	var reg strings.Builder
	reg.WriteString("package xmssmt\n\nvar vhRegistry = map[string]func(){\n")
	var names []string
	for h := range n.prog.HarnessOf {
		names = append(names, h)
	}
	sort.Strings(names)
	for _, h := range names {
		fmt.Fprintf(&reg, "\t%q: %s,\n", h, h)
	}
	reg.WriteString("}\n")
	ov[filepath.Join(n.cfg.Repo, "zz_vh_registry_test.go")] = []byte(reg.String())
	ov[filepath.Join(n.cfg.Repo, "zz_vh_replay_test.go")] = []byte(replayTest)
	dir := filepath.Join(n.cfg.Work, "ov"+key)
	os.MkdirAll(dir, 0755)
	rep := map[string]string{}
	i := 0
	for dst, src := range ov {
		f := filepath.Join(dir, fmt.Sprintf("f%d.go", i))
		i++
		if err := os.WriteFile(f, src, 0644); err != nil {
			n.errs[key] = err
			return "", err
		}
		rep[dst] = f
	}
	oj, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	ovf := filepath.Join(dir, "overlay.json")
	os.WriteFile(ovf, oj, 0644)
	bin := filepath.Join(n.cfg.Work, "replay"+key)
	args := []string{"test", "-c", "-vet=off", "-overlay", ovf, "-modfile=" + filepath.Join(n.cfg.Work, "go.mod"), "-o", bin}
	env := goEnv()
	if race {
		args = append(args, "-race")
		env = append(env, "CGO_ENABLED=1")
	} else {
		env = append(env, "CGO_ENABLED=0")
	}
	args = append(args, ".")
	cmd := exec.Command("go", args...)
	cmd.Dir = n.cfg.Repo
	cmd.Env = env
	out, err := cmd.CombinedOutput()
	if err != nil {
		err = fmt.Errorf("building the replay binary: %v: %s", err, tail(string(out), 2000))
		n.errs[key] = err
		return "", err
	}
	n.bins[key] = bin
	return bin, nil
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

type vhReq struct {
	Harness string
	File    string
	Mode    int
	Tries   int
	Seconds int
	Seed    int64
	X4      bool
	Once    int
}

// run executes requests in one process and returns one result per request.
func (n *native) run(race, sched bool, reqs []vhReq) ([]string, string, error) {
	bin, err := n.build(race, sched)
	if err != nil {
		return nil, "", err
	}
	n.mu.Lock()
	n.count++
	dir := filepath.Join(n.cfg.Work, fmt.Sprintf("run%d", n.count))
	n.mu.Unlock()
	os.MkdirAll(dir, 0755)
	defer os.RemoveAll(dir)
	b, _ := json.Marshal(reqs)
	rf := filepath.Join(dir, "req.json")
	os.WriteFile(rf, b, 0644)
	total := 20
	for _, r := range reqs {
		total += r.Seconds
	}
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(total)*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, "-test.run", "^TestVHReplay$", "-test.timeout", fmt.Sprintf("%ds", total))
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "VH_REQ="+rf, "TMPDIR="+dir, "GORACE=halt_on_error=1 exitcode=66", "GOTRACEBACK=single")
	var buf bytes.Buffer
	cmd.Stdout = &buf
	cmd.Stderr = &buf
	cmd.Run()
	out := buf.String()
	res := make([]string, len(reqs))
	for _, l := range strings.Split(out, "\n") {
		if strings.HasPrefix(l, "VHRESULT ") {
			f := strings.SplitN(l, " ", 3)
			var i int
			fmt.Sscan(f[1], &i)
			if i < len(res) && len(f) == 3 {
				res[i] = f[2]
			}
		}
	}
	for i := range res {
		if res[i] == "" {
			switch {
			case strings.Contains(out, "WARNING: DATA RACE"):
				res[i] = "race"
			case strings.Contains(out, "fatal error: ") || strings.Contains(out, "panic: "):
				k := strings.Index(out, "fatal error: ")
				if k < 0 {
					k = strings.Index(out, "panic: ")
				}
				l := out[k:]
				if e := strings.IndexByte(l, '\n'); e > 0 {
					l = l[:e]
				}
				res[i] = "crash: " + l
			default:
				res[i] = "lost"
			}
			break
		}
	}
	return res, out, nil
}

func (n *native) valuesFile(name string, values map[string]uint64, params map[string]int64) string {
	b, _ := json.Marshal(map[string]interface{}{"values": values, "params": params})
	f := filepath.Join(n.cfg.Work, name)
	os.WriteFile(f, b, 0644)
	return f
}

// confirm replays a counterexample; first exactly, then with other byte
// values (the hash functions are uninterpreted in the encoding, so a
// counterexample may depend on digests the real function does not produce for
// exactly these inputs).
func (n *native) confirm(j *Job, v *Violation, seed int64) (bool, string) {
	n.mu.Lock()
	n.count++
	id := n.count
	n.mu.Unlock()
	f := n.valuesFile(fmt.Sprintf("cex%d.json", id), v.Values, j.Params)
	race := v.Kind == "race" || j.Replay == "race"
	bad := func(r string) bool {
		if strings.HasPrefix(r, "fail:") || strings.HasPrefix(r, "panic:") || strings.HasPrefix(r, "crash:") || r == "race" {
			return true
		}
		return r == "timeout" && v.Kind == "deadlock"
	}
	tries, secs := 1, 30
	sched := j.Replay == "sched" && !race
	if j.Replay != "" && !sched {
		tries, secs = 2000, 40
	}
	last := ""
	for mode := 0; mode <= 2; mode++ {
		if mode > 0 {
			tries, secs = 20000, 25
		}
		once := 0
		if v.Kind == "deadlock" {
			once = 5
		}
		res, _, err := n.run(race, sched, []vhReq{{j.Harness, f, mode, tries, secs, seed + int64(mode)*1000, j.X4, once}})
		if err != nil {
			return false, err.Error()
		}
		last = res[0]
		if bad(res[0]) {
			return true, fmt.Sprintf("%s (%s)", res[0], [...]string{"exact values", "exact choices, other bytes", "other values"}[mode])
		}
		if v.Kind == "deadlock" && !sched {
			break
		}
	}
	return false, "not reproduced natively: " + last
}

// witnesses replays values of passing paths; every one must pass natively.
func (n *native) witnesses(j *Job, w map[string]map[string]uint64, seed int64) (int, []string) {
	var ks []string
	for k := range w {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	if len(ks) > 6 {
		ks = ks[:6]
	}
	if len(ks) == 0 {
		return 0, nil
	}
	var reqs []vhReq
	for _, k := range ks {
		n.mu.Lock()
		n.count++
		id := n.count
		n.mu.Unlock()
		reqs = append(reqs, vhReq{j.Harness, n.valuesFile(fmt.Sprintf("wit%d.json", id), w[k], j.Params), 0, 1, 20, seed, j.X4, 0})
	}
	res, _, err := n.run(false, j.Replay == "sched", reqs)
	if err != nil {
		return 0, []string{"error: " + err.Error()}
	}
	cnt := 0
	var bad []string
	for i, r := range res {
		if r == "ok" {
			cnt++
		} else if strings.HasPrefix(r, "fail:") || strings.HasPrefix(r, "panic:") || strings.HasPrefix(r, "crash:") {
			bad = append(bad, ks[i]+": "+r)
		}
	}
	return cnt, bad
}
