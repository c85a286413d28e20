package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

type replayFile struct {
	Property string            `json:"property"`
	Job      Job               `json:"job"`
	Kind     string            `json:"kind"`
	Label    string            `json:"label"`
	Pos      string            `json:"pos"`
	Notes    []string          `json:"notes"`
	Trace    []string          `json:"trace"`
	Values   map[string]uint64 `json:"values"`
	Native   string            `json:"native"`
	How      string            `json:"how_to_replay"`
}

func cmdCheck(prop, tier string, seed int64, work string) int {
	t0 := time.Now()
	verif := verifDir()
	cs, err := loadChecks(verif)
	if err != nil {
		fmt.Println("checks.json:", err)
		return 2
	}
	var cfg *CheckCfg
	for i := range cs {
		if cs[i].Prop == prop {
			cfg = &cs[i]
		}
	}
	if cfg == nil {
		fmt.Println("no check for", prop)
		return 2
	}
	jobs := expand(cfg.Jobs, tier)
	findings := loadFindings(verif)
	progs := newProgs(work)
	if tier == "quick" {
		softStop(600 * time.Second)
	}
	results := runJobs(progs, jobs, seed, func(r *JobResult) bool {
		for _, v := range r.viols {
			if matchFinding(findings, prop, &r.job, v) == nil {
				return false
			}
		}
		return true
	})
	nats := map[bool]*native{}
	nat := func(m bool) *native {
		if nats[m] == nil {
			p, err := progs[m].get()
			if err != nil {
				return nil
			}
			nats[m] = &native{cfg: progs[m].cfg, prog: p}
		}
		return nats[m]
	}
	outDir := filepath.Join(verif, "replays")
	os.MkdirAll(outDir, 0755)
	old, _ := filepath.Glob(filepath.Join(outDir, prop+"-*.json"))
	for _, f := range old {
		os.Remove(f)
	}

	var jobEv []map[string]interface{}
	funcs := map[string]int{}
	var reduced, unconfirmed, samples []string
	paths, merges, steps, asserts, discharged, syntactic := 0, 0, int64(0), 0, 0, 0
	queries, sat, unsat, unknown, cached := 0, 0, 0, 0, 0
	var solverTime, maxQ time.Duration
	validated := 0
	violations := 0
	known := 0
	vacuous := []string{}
	reached := map[string]int{}

	report := func(j *Job, v *Violation, how string) {
		violations++
		path := filepath.Join(outDir, fmt.Sprintf("%s-%d.json", prop, violations))
		rf := replayFile{prop, *j, v.Kind, v.Label, v.Pos, v.Notes, v.Trace, v.Values, how,
			"/verif/bin/engine replay " + path + "  (rebuilds the harness with the real code and runs it with these values)"}
		b, _ := json.MarshalIndent(rf, "", " ")
		os.WriteFile(path, b, 0644)
		fmt.Printf("property %s: %s %q at %s\n  harness %s\n  native replay: %s\n", prop, v.Kind, v.Label, v.Pos, j.key(), how)
		for _, n := range v.Notes {
			fmt.Println("  note:", n)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
	}

	confirmed := map[string]bool{}
	for _, r := range results {
		j := r.job
		ev := map[string]interface{}{"harness": j.key(), "bound": j.Bound, "wall_s": round(r.wall.Seconds())}
		if j.X4 {
			ev["four_way"] = true
		}
		if r.err != "" {
			ev["error"] = r.err
			reduced = append(reduced, j.key()+": "+r.err)
			jobEv = append(jobEv, ev)
			continue
		}
		in := r.in
		s := in.sol.Stats
		ev["paths"] = in.st.Paths
		ev["merges"] = in.st.Merges
		ev["instructions"] = in.st.Steps
		ev["assertions_checked"] = in.st.Asserts
		ev["assertions_discharged"] = in.st.Discharged
		ev["closed_by_rewriting"] = in.st.Syntactic
		ev["queries"] = s.Queries
		ev["solver_s"] = round(s.Time.Seconds())
		ev["complete_within_bound"] = r.complete
		ev["reached"] = in.st.Reached
		paths += in.st.Paths
		merges += in.st.Merges
		steps += in.st.Steps
		asserts += in.st.Asserts
		discharged += in.st.Discharged
		syntactic += in.st.Syntactic
		queries += s.Queries
		sat += s.Sat
		unsat += s.Unsat
		unknown += s.Unknown
		cached += s.CacheHits + s.ModelHits
		solverTime += s.Time
		if s.MaxTime > maxQ {
			maxQ = s.MaxTime
		}
		for f, n := range in.st.Funcs {
			funcs[f] = n
		}
		for l, n := range in.st.Reached {
			reached[j.Harness+":"+l] += n
		}
		var pr []string
		for k, n := range in.problems {
			pr = append(pr, fmt.Sprintf("%s (x%d)", k, n))
		}
		sort.Strings(pr)
		if len(pr) > 0 {
			ev["reduced_bound"] = pr
			for _, p := range pr {
				reduced = append(reduced, j.key()+": "+p)
			}
		}
		for _, l := range j.Reach {
			if in.st.Reached[l] == 0 {
				vacuous = append(vacuous, j.key()+": "+l)
			}
		}
		if in.st.Asserts == 0 && len(r.viols) == 0 {
			vacuous = append(vacuous, j.key()+": no assertion reached")
		}
		n := nat(j.Model)
		for _, v := range r.viols {
			if f := matchFinding(findings, prop, &j, v); f != nil {
				known++
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, f.What)
				continue
			}
			key := j.Harness + "|" + v.Label + "|" + v.Pos
			if confirmed[key] {
				continue
			}
			if violations >= 3 {
				break
			}
			ok, how := false, "no replay"
			if n != nil {
				ok, how = n.confirm(&j, v, seed)
			}
			if ok {
				confirmed[key] = true
				report(&j, v, how)
			} else {
				unconfirmed = append(unconfirmed, fmt.Sprintf("%s: %s %q at %s: %s", j.key(), v.Kind, v.Label, v.Pos, how))
			}
		}
		if violations == 0 && n != nil && len(in.witness) > 0 {
			c, bad := n.witnesses(&j, in.witness, seed)
			validated += c
			ev["witness_replays_ok"] = c
			for _, b := range bad {
				if strings.HasPrefix(b, "error:") {
					reduced = append(reduced, j.key()+": replay "+b)
					continue
				}
				// the real code fails on values the encoding accepts
				parts := strings.SplitN(b, ": ", 2)
				v := &Violation{Kind: "native", Label: parts[1], Values: in.witness[parts[0]]}
				if f := matchFinding(findings, prop, &j, v); f != nil {
					known++
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, f.What)
					continue
				}
				report(&j, v, "witness of a path the encoding accepts fails natively: "+b)
			}
			if len(samples) < 6 {
				var ks []string
				for k := range in.witness {
					ks = append(ks, k)
				}
				sort.Strings(ks)
				for _, k := range ks {
					if len(samples) < 6 {
						samples = append(samples, j.key()+" "+k+": "+fmtValues(in.witness[k], 12))
						break
					}
				}
			}
		}
		jobEv = append(jobEv, ev)
	}
	if len(samples) == 0 {
		samples = append(samples, "no path completed")
	}
	var fl []string
	for f := range funcs {
		f = strings.ReplaceAll(f, modPath+".", "")
		if strings.HasPrefix(f, "VH_") || strings.HasPrefix(strings.TrimLeft(f, "(*"), "vh") {
			continue
		}
		fl = append(fl, f)
	}
	sort.Strings(fl)
	cov := map[string]interface{}{
		"states":                         paths + merges,
		"transitions":                    steps,
		"traces_validated_against_impl":  validated,
		"samples":                        samples,
		"functions_encoded":              fl,
		"jobs":                           jobEv,
		"assertions":                     asserts,
		"assertions_discharged":          discharged,
		"assertions_closed_by_rewriting": syntactic,
		"queries":                        queries,
		"queries_sat":                    sat,
		"queries_unsat":                  unsat,
		"queries_unknown":                unknown,
		"queries_answered_from_cache":    cached,
		"solver_s":                       round(solverTime.Seconds()),
		"slowest_query_s":                round(maxQ.Seconds()),
		"reachability_witnesses":         reached,
		"outside_the_bounds":             cfg.Outside,
		"states_meaning":                 "states: symbolic paths explored to the end plus merged states; transitions: SSA instructions executed symbolically",
	}
	if len(reduced) > 0 {
		cov["reduced_bound"] = reduced
	}
	if len(unconfirmed) > 0 {
		cov["unconfirmed_counterexamples"] = unconfirmed
	}
	if len(vacuous) > 0 {
		cov["vacuous"] = vacuous
	}
	if known > 0 {
		cov["known_findings"] = known
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": cov, "assumptions": cfg.Assumptions, "wall_s": round(time.Since(t0).Seconds()), "violations": violations,
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), append(b, '\n'), 0644); err != nil {
		fmt.Println("evidence:", err)
		return 2
	}
	fmt.Printf("%s %s: jobs=%d paths=%d instructions=%d assertions=%d/%d queries=%d solver=%.1fs native=%d wall=%.1fs violations=%d known=%d\n",
		prop, tier, len(jobs), paths, steps, discharged, asserts, queries, solverTime.Seconds(), validated, time.Since(t0).Seconds(), violations, known)
	for _, l := range reduced {
		fmt.Println("  reduced bound:", l)
	}
	for _, l := range unconfirmed {
		fmt.Println("  unconfirmed:", l)
	}
	for _, l := range vacuous {
		fmt.Println("  vacuous:", l)
	}
	if violations > 0 {
		return 1
	}
	return 0
}

func round(f float64) float64 { return float64(int64(f*1000+0.5)) / 1000 }

func fmtValues(v map[string]uint64, max int) string {
	var ks []string
	for k := range v {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var out []string
	for i, k := range ks {
		if i >= max {
			out = append(out, fmt.Sprintf("… %d more", len(ks)-max))
			break
		}
		out = append(out, fmt.Sprintf("%s=%d", k, v[k]))
	}
	return strings.Join(out, " ")
}

func cmdReplay(path string, seed int64, work string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Println(err)
		return 2
	}
	progs := newProgs(work)
	p, err := progs[rf.Job.Model].get()
	if err != nil {
		fmt.Println(err)
		return 2
	}
	n := &native{cfg: progs[rf.Job.Model].cfg, prog: p}
	ok, how := n.confirm(&rf.Job, &Violation{Kind: rf.Kind, Label: rf.Label, Values: rf.Values}, seed)
	fmt.Println(how)
	if ok {
		return 1
	}
	return 0
}

// cmdWarm compiles what later checks need, so that the build cache is warm.
func cmdWarm(work string) int {
	progs := newProgs(work)
	for _, m := range []bool{false, true} {
		p, err := progs[m].get()
		if err != nil {
			fmt.Println("warm:", err)
			continue
		}
		for f, e := range p.Dropped {
			fmt.Println("warm: dropped", f, e)
		}
		n := &native{cfg: progs[m].cfg, prog: p}
		if _, err := n.build(false, false); err != nil {
			fmt.Println("warm:", err)
		}
		if _, err := n.build(true, false); err != nil {
			fmt.Println("warm:", err)
		}
	}
	return 0
}
