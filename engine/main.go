package main

import (
	"runtime/debug"
	"strconv"

	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Tier struct {
	Dev      int   `json:"dev"`      // schedule deviations explored
	Timeout  int   `json:"timeout"`  // seconds of exploration
	MaxPaths int   `json:"maxpaths"` // paths
	MaxConc  int   `json:"maxconc"`
	MaxSteps int64 `json:"maxsteps"`
	MaxAdv   int   `json:"maxadvances"`
	Skip     bool  `json:"skip"`
}

type Check struct {
	Prop     string   `json:"prop"`
	Harness  string   `json:"harness"`
	Bounds   string   `json:"bounds"`
	Reach    []string `json:"reach"`
	Quick    Tier     `json:"quick"`
	Thorough Tier     `json:"thorough"`
}

type Loaded struct {
	prog *ssa.Program
	hpkg *ssa.Package
	took time.Duration
}

func env() []string {
	e := os.Environ()
	e = append(e, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOSUMDB=off", "GOWORK=off")
	return e
}

func Load(t *Tree) (*Loaded, error) {
	t0 := time.Now()
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repoDir, Overlay: t.content, Env: env(),
		BuildFlags: []string{"-modfile=" + t.modfile}}
	ps, err := packages.Load(cfg, modPath+"/zzverif/h")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "\n"))
	}
	prog, pk := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	if len(pk) == 0 || pk[0] == nil {
		return nil, fmt.Errorf("no harness package")
	}
	return &Loaded{prog, pk[0], time.Since(t0)}, nil
}

// Native builds the replay binary.
func (t *Tree) Native() (string, error) {
	bin := filepath.Join(t.work, "replay.test")
	c := exec.Command("go", "test", "-c", "-vet=off", "-o", bin, "-overlay", filepath.Join(t.work, "overlay.json"), "-modfile="+t.modfile, modPath+"/zzverif/run")
	c.Dir = repoDir
	c.Env = env()
	out, err := c.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("native build: %v\n%s", err, out)
	}
	return bin, nil
}

type nativeOut struct {
	fails  []string
	obs    []string
	ended  bool
	assume bool
	panicd bool
	dead   bool
	raw    string
}

func runNative(bin, harness, replay, tier string, perturb int, limit time.Duration, procs int) nativeOut {
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	// an endless run must not eat the memory
	c := exec.CommandContext(ctx, "/bin/bash", "-c", `ulimit -v 3000000; exec "$0" "$@"`, bin, "-test.run=TestReplay", "-test.timeout=0")
	c.Dir = os.TempDir()
	c.Env = append(os.Environ(), "VERIF_H="+harness, "VERIF_REPLAY="+replay, "GODEBUG=asynctimerchan=0", "VERIF_TIER="+tier,
		"VERIF_PERTURB="+strconv.Itoa(perturb), "GOMAXPROCS="+strconv.Itoa(procs), "GOTRACEBACK=all")
	var ob bytes.Buffer
	c.Stdout, c.Stderr = &ob, &ob
	err := c.Run()
	o := nativeOut{raw: ob.String()}
	for _, l := range strings.Split(o.raw, "\n") {
		switch {
		case strings.HasPrefix(l, "VFAIL "):
			o.fails = append(o.fails, l[6:])
		case strings.HasPrefix(l, "VOBS "):
			o.obs = append(o.obs, l[5:])
		case l == "VEND":
			o.ended = true
		case l == "VASSUME":
			o.assume = true
		}
	}
	if !o.ended && !o.assume {
		switch {
		case ctx.Err() != nil:
			o.dead = true
		case strings.Contains(o.raw, "deadlock: "), strings.Contains(o.raw, "all goroutines are asleep"), strings.Contains(o.raw, "all goroutines in bubble are blocked"):
			o.dead = true
		case err != nil && (strings.Contains(o.raw, "panic:") || strings.Contains(o.raw, "fatal error:")):
			o.panicd = true
		}
	}
	return o
}

func reproduces(v *Violation, o nativeOut) bool {
	switch v.Kind {
	case "assert":
		for _, f := range o.fails {
			if f == v.Label {
				return true
			}
		}
	case "panic":
		return o.panicd
	case "deadlock":
		return o.dead
	case "hang":
		return o.dead || o.panicd && (strings.Contains(o.raw, "out of memory") || strings.Contains(o.raw, "stack overflow") || strings.Contains(o.raw, "stack exceeds"))
	}
	return false
}

func engineCfg(t Tier, tier string, budget time.Duration) *Config {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	c := &Config{Seed: seed, MaxSteps: 6000000, MaxPaths: 400000, MaxMake: 1 << 16, MaxConc: 300, MaxAdvances: 4000, MaxViol: 20,
		Timeout: 120 * time.Second, Deviations: t.Dev, Workers: runtime.NumCPU(), Samples: 2, Thorough: tier == "thorough"}
	if t.Timeout > 0 {
		c.Timeout = time.Duration(t.Timeout) * time.Second
	}
	if budget > 0 && budget < c.Timeout {
		c.Timeout = budget
	}
	if t.MaxPaths > 0 {
		c.MaxPaths = t.MaxPaths
	}
	if t.MaxConc > 0 {
		c.MaxConc = t.MaxConc
	}
	if t.MaxSteps > 0 {
		c.MaxSteps = t.MaxSteps
	}
	if t.MaxAdv > 0 {
		c.MaxAdvances = t.MaxAdv
	}
	return c
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "error:", err)
	os.Exit(3)
}

func mkWork() string {
	base := filepath.Join(verifDir(), ".work")
	os.MkdirAll(base, 0o755)
	d, err := os.MkdirTemp(base, "run-")
	if err != nil {
		fatal(err)
	}
	return d
}

type finding struct{ prop, harness, label, text string }

func knownFindings() []finding {
	b, err := os.ReadFile(filepath.Join(verifDir(), "known-findings.txt"))
	if err != nil {
		return nil
	}
	var r []finding
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		head, text, _ := strings.Cut(strings.TrimPrefix(l, "finding: "), " :: ")
		f := finding{text: text}
		head, label, _ := strings.Cut(head, " label=")
		f.label = strings.TrimSpace(label)
		for _, w := range strings.Fields(head) {
			k, v, _ := strings.Cut(w, "=")
			switch k {
			case "property":
				f.prop = v
			case "harness":
				f.harness = v
			}
		}
		r = append(r, f)
	}
	return r
}

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: gosym check|run|list ...")
		os.Exit(2)
	}
	debug.SetMemoryLimit(12 << 30)
	switch os.Args[1] {
	case "check":
		cmdCheck(os.Args[2:])
	case "run":
		cmdRun(os.Args[2:])
	case "prove-load":
		w := mkWork()
		defer os.RemoveAll(w)
		t, err := BuildTree(w)
		if err != nil {
			fatal(err)
		}
		if _, err := Load(t); err != nil {
			fatal(err)
		}
	default:
		os.Exit(2)
	}
}

func printResult(res *Result) {
	fmt.Printf("%s: paths=%d complete=%d infeasible=%d cut=%d bound=%d exhausted=%v forks=%d steps=%d asserts=%d (smt %d) queries=%d (cached %d) sat=%d unsat=%d unk=%d solver=%v max=%v wall=%v schedpts=%d\n",
		res.Harness, res.Paths, res.Complete, res.Infeasible, res.Cut, res.Bound, res.Exhausted, res.Forks, res.Steps, res.Asserts, res.AssertsSMT,
		res.Queries, res.CachedQ, res.Sat, res.Unsat, res.Unknown, res.SolverTime.Round(time.Millisecond), res.MaxQuery.Round(time.Millisecond), res.Wall.Round(time.Millisecond), res.MaxPoints)
	fmt.Println("  reached:", res.Reached)
	for k, n := range res.Unsupported {
		fmt.Println("  unsupported:", n, k)
	}
	for k, n := range res.Notes {
		fmt.Println("  note:", n, k)
	}
	for l, vs := range res.Violations {
		fmt.Printf("  violation %q: %s sched=%v values=%v (%d kept)\n", l, vs[0].Msg, vs[0].Sched, nz(vs[0].Values), len(vs))
	}
}

func nz(m map[string]uint64) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var sb strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&sb, "%s=%d ", k, m[k])
	}
	s := sb.String()
	if len(s) > 600 {
		s = s[:600] + "..."
	}
	return s
}

// confirm replays models of one violation label until one reproduces.
func confirm(t *Tree, bin, tier string, vs []*Violation, tries int) (*Violation, string, nativeOut) {
	for i, v := range vs {
		p := filepath.Join(t.work, fmt.Sprintf("replay-%d.json", i))
		b, _ := json.Marshal(v)
		os.WriteFile(p, b, 0o644)
		n := tries
		if len(vs) > 4 {
			n = tries / 2
		}
		type res struct {
			o  nativeOut
			ok bool
		}
		for k := 0; k < n; k += 8 {
			var wg sync.WaitGroup
			rs := make([]res, 8)
			for j := 0; j < 8 && k+j < n; j++ {
				wg.Add(1)
				go func(j int) {
					defer wg.Done()
					procs := 1
					if (k+j)%4 == 3 {
						procs = 4
					}
					lim := 30 * time.Second
					o := runNative(bin, v.Harness, p, tier, k+j, lim, procs)
					rs[j] = res{o, reproduces(v, o)}
				}(j)
			}
			wg.Wait()
			for j := range rs {
				if rs[j].ok {
					return v, p, rs[j].o
				}
			}
			if v.Kind == "hang" || v.Kind == "deadlock" && k >= 8 {
				break
			}
		}
	}
	return nil, "", nativeOut{}
}

func cmdRun(args []string) {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	h := fs.String("h", "", "harness")
	dev := fs.Int("dev", 0, "deviations")
	to := fs.Int("t", 120, "seconds")
	dbg := fs.Bool("debug", false, "")
	workers := fs.Int("w", runtime.NumCPU(), "")
	rep := fs.Bool("replay", false, "replay natively")
	tier := fs.String("tier", "quick", "")
	maxp := fs.Int("paths", 400000, "")
	fs.Parse(args)
	w := mkWork()
	defer os.RemoveAll(w)
	t, err := BuildTree(w)
	if err != nil {
		fatal(err)
	}
	var bin string
	var berr error
	done := make(chan struct{})
	go func() {
		if *rep {
			bin, berr = t.Native()
		}
		close(done)
	}()
	ld, err := Load(t)
	if err != nil {
		fatal(err)
	}
	fmt.Println("loaded", ld.took, "points", t.points)
	for _, n := range t.hnames {
		if ok, _ := filepath.Match(*h, strings.TrimPrefix(n, "H_")); !ok {
			continue
		}
		cfg := engineCfg(Tier{Dev: *dev, Timeout: *to, MaxPaths: *maxp}, *tier, 0)
		cfg.Workers = *workers
		cfg.Debug = *dbg
		res := Explore(ld.prog, ld.hpkg, ld.hpkg.Func(n), cfg)
		printResult(res)
		if *rep {
			<-done
			if berr != nil {
				fatal(berr)
			}
			for l, vs := range res.Violations {
				v, _, o := confirm(t, bin, *tier, vs, 24)
				fmt.Printf("  replay %q: %v\n", l, v != nil)
				if v == nil {
					b, _ := json.Marshal(vs[0])
					p := filepath.Join(w, "r.json")
					os.WriteFile(p, b, 0o644)
					o = runNative(bin, n, p, *tier, 0, 20*time.Second, 1)
				}
				if *dbg {
					fmt.Println(tail(o.raw, 60000))
				}
			}
			ok, bad := validate(t, bin, *tier, n, res.Samples, func(s string) { fmt.Println("   ", s) })
			fmt.Println("  samples validated", ok, "disagree", bad)
		}
	}
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

// validate replays sampled complete paths natively and compares what the
// harness observed.
func validate(t *Tree, bin, tier, harness string, ss []Sample, say func(string)) (ok, bad int) {
	for i, s := range ss {
		p := filepath.Join(t.work, fmt.Sprintf("sample-%s-%d.json", harness, i))
		b, _ := json.Marshal(s)
		os.WriteFile(p, b, 0o644)
		match := false
		var o nativeOut
		for k := 0; k < 6 && !match; k++ {
			o = runNative(bin, harness, p, tier, k, 30*time.Second, 1)
			match = o.ended && len(o.fails) == 0 && strings.Join(o.obs, "\n") == strings.Join(s.Observed, "\n")
		}
		if match {
			ok++
		} else {
			bad++
			say(fmt.Sprintf("disagreement: ended=%v fails=%v native=%v engine=%v sched=%v values=%s\n%s", o.ended, o.fails, o.obs, s.Observed, s.Sched, nz(s.Values), tail(o.raw, 800)))
		}
	}
	return
}
