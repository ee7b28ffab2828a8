package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

type hreport struct {
	Harness      string            `json:"harness"`
	Bounds       string            `json:"bounds"`
	Deviations   int               `json:"schedule_deviations"`
	Paths        int               `json:"paths"`
	Complete     int               `json:"paths_complete"`
	Infeasible   int               `json:"paths_infeasible"`
	Cut          int               `json:"paths_cut"`
	Bound        int               `json:"paths_at_step_bound"`
	Exhausted    bool              `json:"every_path_within_bounds_explored"`
	Asserts      int               `json:"assertions_evaluated"`
	AssertsSMT   int               `json:"assertions_decided_by_solver"`
	AssertUnk    int               `json:"assertions_undecided"`
	Queries      int               `json:"solver_queries"`
	Sat          int               `json:"sat"`
	Unsat        int               `json:"unsat"`
	Unknown      int               `json:"unknown"`
	Cached       int               `json:"queries_answered_from_cache"`
	SolverS      float64           `json:"solver_s"`
	MaxQueryS    float64           `json:"longest_query_s"`
	SchedPoints  int               `json:"scheduling_points"`
	Steps        int64             `json:"instructions_executed"`
	WallS        float64           `json:"wall_s"`
	Reached      map[string]int    `json:"reached"`
	Unreached    []string          `json:"unreached,omitempty"`
	Unsupported  map[string]int    `json:"unsupported,omitempty"`
	Notes        map[string]int    `json:"notes,omitempty"`
	Unconfirmed  map[string]string `json:"counterexamples_not_reproduced,omitempty"`
	Known        []string          `json:"known_findings_seen,omitempty"`
	Violations   []string          `json:"violations,omitempty"`
	ValidatedOK  int               `json:"sample_paths_agreeing_with_native_run"`
	ValidatedBad int               `json:"sample_paths_disagreeing_with_native_run"`
	Disagree     []string          `json:"disagreements,omitempty"`
}

func loadChecks() ([]Check, error) {
	b, err := os.ReadFile(filepath.Join(verifDir(), "checks.json"))
	if err != nil {
		return nil, err
	}
	var cs []Check
	return cs, json.Unmarshal(b, &cs)
}

func cmdCheck(args []string) {
	if len(args) < 1 {
		os.Exit(2)
	}
	prop := args[0]
	tier := os.Getenv("VERIF_TIER")
	if len(args) > 1 {
		tier = args[1]
	}
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	start := time.Now()
	all, err := loadChecks()
	if err != nil {
		fatal(err)
	}
	var cs []Check
	for _, c := range all {
		if c.Prop == prop {
			cs = append(cs, c)
		}
	}
	if len(cs) == 0 {
		fatal(fmt.Errorf("no harness for %s", prop))
	}
	w := mkWork()
	code := runCheck(prop, tier, seed, cs, w, start)
	os.RemoveAll(w)
	os.Exit(code)
}

func runCheck(prop, tier string, seed int, cs []Check, w string, start time.Time) int {
	t, err := BuildTree(w)
	if err != nil {
		fmt.Fprintln(os.Stderr, "error:", err)
		return 3
	}
	var bin string
	var berr error
	nd := make(chan struct{})
	go func() {
		bin, berr = t.Native()
		close(nd)
	}()
	ld, err := Load(t)
	if err != nil {
		<-nd
		fmt.Fprintln(os.Stderr, "error:", err)
		return 3
	}
	kf := knownFindings()
	repDir := filepath.Join(verifDir(), "evidence", "replays")
	os.MkdirAll(repDir, 0o755)
	if old, _ := filepath.Glob(filepath.Join(repDir, prop+"-*.json")); old != nil {
		for _, p := range old {
			os.Remove(p)
		}
	}
	var reps []*hreport
	fns := map[string]int64{}
	var samples []any
	nviol, answered, knownN := 0, 0, 0
	var states, trans, valid int
	overall := 780 * time.Second
	if tier == "thorough" {
		overall = 6 * time.Hour
	}
	for _, c := range cs {
		tr := c.Quick
		if tier == "thorough" {
			if b, _ := json.Marshal(c.Thorough); string(b) != `{"dev":0,"timeout":0,"maxpaths":0,"maxconc":0,"maxsteps":0,"maxadvances":0,"skip":false}` {
				tr = c.Thorough
			}
		}
		if tr.Skip {
			continue
		}
		if nviol > 0 && (time.Since(start) > 150*time.Second || os.Getenv("GOSYM_FIRST") != "") {
			fmt.Printf("%s %s: left out, a violation is confirmed already\n", prop, c.Harness)
			continue
		}
		left := overall - time.Since(start)
		if left < 5*time.Second {
			left = 5 * time.Second
		}
		fn := ld.hpkg.Func(c.Harness)
		if fn == nil {
			fmt.Fprintln(os.Stderr, "error: no harness", c.Harness)
			return 3
		}
		res := Explore(ld.prog, ld.hpkg, fn, engineCfg(tr, tier, left))
		r := &hreport{Harness: c.Harness, Bounds: c.Bounds, Deviations: tr.Dev, Paths: res.Paths, Complete: res.Complete,
			Infeasible: res.Infeasible, Cut: res.Cut, Bound: res.Bound, Exhausted: res.Exhausted, Asserts: res.Asserts,
			AssertsSMT: res.AssertsSMT, AssertUnk: res.AssertUnk, Queries: res.Queries, Sat: res.Sat, Unsat: res.Unsat,
			Unknown: res.Unknown, Cached: res.CachedQ, SolverS: res.SolverTime.Seconds(), MaxQueryS: res.MaxQuery.Seconds(),
			SchedPoints: res.SchedPoints, Steps: res.Steps, WallS: res.Wall.Seconds(), Reached: res.Reached,
			Unsupported: res.Unsupported, Notes: res.Notes}
		reps = append(reps, r)
		for k, n := range res.Fns {
			fns[k] += n
		}
		states += res.Forks + res.Paths
		trans += res.Decisions
		if res.Complete > 0 || len(res.Violations) > 0 {
			answered++
		}
		for _, l := range c.Reach {
			if res.Reached[l] == 0 {
				r.Unreached = append(r.Unreached, l)
			}
		}
		<-nd
		if berr != nil {
			fmt.Fprintln(os.Stderr, "error:", berr)
			return 3
		}
		var labels []string
		for l := range res.Violations {
			labels = append(labels, l)
		}
		sort.Strings(labels)
		confirmed := 0
		for _, l := range labels {
			vs := res.Violations[l]
			known := ""
			for _, f := range kf {
				if f.prop == prop && (f.harness == c.Harness || f.harness == "*") && f.label == l {
					known = f.text
				}
			}
			if known != "" {
				r.Known = append(r.Known, l)
				knownN++
				fmt.Printf("KNOWN-FINDING: property=%s %s: %s (%s)\n", prop, c.Harness, l, known)
				continue
			}
			if confirmed >= 3 {
				r.Violations = append(r.Violations, l+" (not replayed: enough confirmed)")
				continue
			}
			v, p, _ := confirm(t, bin, tier, vs, 48)
			if v == nil {
				if r.Unconfirmed == nil {
					r.Unconfirmed = map[string]string{}
				}
				r.Unconfirmed[l] = fmt.Sprintf("%s sched=%v values=%s", vs[0].Msg, vs[0].Sched, nz(vs[0].Values))
				fmt.Printf("note: %s: counterexample of %q did not reproduce natively\n", c.Harness, l)
				continue
			}
			confirmed++
			nviol++
			b, _ := os.ReadFile(p)
			rp := filepath.Join(repDir, fmt.Sprintf("%s-%s-%d.json", prop, c.Harness, confirmed))
			os.WriteFile(rp, b, 0o644)
			r.Violations = append(r.Violations, l)
			fmt.Printf("violated: %s: %s (%s)\n", c.Harness, l, v.Msg)
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, rp)
		}
		r.ValidatedOK, r.ValidatedBad = validate(t, bin, tier, c.Harness, pick(res.Samples, 6), func(s string) {
			r.Disagree = append(r.Disagree, s)
		})
		valid += r.ValidatedOK
		for i, s := range pick(res.Samples, 2) {
			if len(samples) < 24 {
				samples = append(samples, map[string]any{"harness": c.Harness, "n": i, "schedule": s.Sched, "inputs": nz(s.Values), "observed": s.Observed})
			}
		}
		fmt.Printf("%s %s: paths=%d complete=%d exhausted=%v asserts=%d queries=%d (unsat %d) wall=%.1fs violations=%d unconfirmed=%d native-agree=%d/%d\n",
			prop, c.Harness, r.Paths, r.Complete, r.Exhausted, r.Asserts, r.Queries, r.Unsat, r.WallS, len(r.Violations), len(r.Unconfirmed), r.ValidatedOK, r.ValidatedOK+r.ValidatedBad)
		for k, n := range res.Unsupported {
			fmt.Printf("  unsupported on %d paths: %s\n", n, k)
		}
		for _, l := range r.Unreached {
			fmt.Printf("  not reached: %s\n", l)
		}
	}
	<-nd
	var fl []string
	for k := range fns {
		if strings.Contains(k, "singchia/geminio") && !strings.Contains(k, "zzverif") {
			fl = append(fl, strings.ReplaceAll(k, modPath+"/", ""))
		}
	}
	sort.Strings(fl)
	var q, un, sat int
	var st float64
	for _, r := range reps {
		q += r.Queries
		un += r.Unsat
		sat += r.Sat
		st += r.SolverS
	}
	ev := map[string]any{"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
		"wall_s": time.Since(start).Seconds(), "violations": nviol,
		"coverage": map[string]any{
			"states": states, "transitions": trans, "traces_validated_against_impl": valid, "samples": samples,
			"meaning":           "states: symbolic states at which a path forked or ended; transitions: decisions (branch, value, schedule) taken on all paths; traces_validated: explored paths whose solver model was replayed on the native build and observed the same values",
			"functions_encoded": fl, "functions_encoded_count": len(fl),
			"solver": "z3 over bit-vectors, one process per worker", "solver_queries": q, "solver_unsat": un, "solver_sat": sat, "solver_s": st,
			"harnesses": reps, "known_findings_seen": knownN,
		},
		"assumptions": []string{
			"Bounds are those listed per harness; behaviour outside them (longer payloads, more packets, more goroutines, more schedule deviations) is not covered.",
			"Schedules: goroutines run to blocking in FIFO order; deviations delay a goroutine at an instrumented synchronisation point. Data races between plain memory accesses are not explored.",
			"Time is virtual: it advances only when every goroutine is blocked.",
			"encoding/json, context, net.Pipe-like transports, go-timer and logging are modelled; the mutexes are replaced by FIFO ones.",
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir(), "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verifDir(), "evidence", prop+".json"), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "error:", err)
		return 3
	}
	if nviol > 0 {
		return 1
	}
	if answered == 0 {
		fmt.Fprintln(os.Stderr, "error: no path of any harness could be completed")
		return 3
	}
	return 0
}

func pick(ss []Sample, n int) []Sample {
	if len(ss) > n {
		return ss[:n]
	}
	return ss
}
