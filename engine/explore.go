package main

import (
	"runtime/debug"
	"sync/atomic"

	"fmt"
	"go/types"
	"os"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

var numbers = regexp.MustCompile(`\b[0-9]+\b`)

type Config struct {
	Seed        int
	MaxSteps    int64
	MaxPaths    int
	MaxMake     int
	MaxConc     int
	MaxAdvances int
	MaxViol     int // distinct violation labels kept
	Timeout     time.Duration
	Deviations  int
	Workers     int
	Samples     int
	Debug       bool
	Thorough    bool
}

// Decision is one recorded fork on a path.
type Decision struct {
	K uint8 // 0/1 branch outcome, 2/3 forced branch outcome, 4 scheduling choice, 5 concretised equality taken, 6 not taken, 7/8 forced
	V uint64
}

type work struct {
	base  []Decision // shared with the path it forked from
	last  Decision
	forkd bool
	devs  int
	named map[string]uint64 // model by name (crosses workers)
}

func (w *work) decisions() []Decision {
	if !w.forkd {
		return nil
	}
	dec := make([]Decision, len(w.base)+1)
	copy(dec, w.base)
	dec[len(w.base)] = w.last
	return dec
}

type Violation struct {
	Harness  string            `json:"harness"`
	Label    string            `json:"label"`
	Msg      string            `json:"msg"`
	Kind     string            `json:"kind"`
	Values   map[string]uint64 `json:"values"`
	Sched    []string          `json:"sched,omitempty"`
	SelDev   int               `json:"seldev"`
	Observed []string          `json:"observed,omitempty"`
}

type Sample struct {
	Sched    []string          `json:"sched,omitempty"`
	Values   map[string]uint64 `json:"values"`
	Observed []string          `json:"observed"`
	Steps    int64             `json:"steps"`
	Devs     int               `json:"devs"`
}

type Result struct {
	Harness     string
	Paths       int
	Complete    int
	Infeasible  int
	Cut         int
	Bound       int
	Unsupported map[string]int
	Notes       map[string]int
	Forks       int
	Decisions   int
	Steps       int64
	Asserts     int
	AssertsSMT  int
	AssertUnk   int
	Reached     map[string]int
	Queries     int
	CachedQ     int
	Sat         int
	Unsat       int
	Unknown     int
	SolverTime  time.Duration
	MaxQuery    time.Duration
	Wall        time.Duration
	Exhausted   bool // every path within the bounds explored
	Violations  map[string][]*Violation
	Samples     []Sample
	Fns         map[string]int64
	MaxPoints   int
	SchedPoints int
}

type nondet struct {
	name string
	e    *Expr
}

// Interp executes one path at a time; one per worker.
type Interp struct {
	c            *Ctx
	s            *Solver
	prog         *ssa.Program
	cfg          *Config
	ex           *Explorer
	allow        map[string]bool
	fns          map[*ssa.Function]*FnInfo
	methods      map[methKey]*Closure
	implCache    map[implKey]bool
	typeIDs      map[types.Type]string
	errorStringT types.Type

	// per path
	globals   map[*ssa.Global]*Value
	gs        []*G
	runq      []*G
	cur       *G
	waiters   []*G
	nextG     int
	nextChan  int
	timers    timerHeap
	timerSeq  int
	now       int64
	advances  int
	steps     int64
	pc        []*Expr
	pcSet     map[*Expr]bool
	dec       []Decision
	prefix    []Decision
	pos       int
	nondets   []nondet
	names     map[string]int
	window    bool
	windowMem bool
	devLeft   int
	devs      int
	named     map[string]uint64 // the model by name, as of namedAt
	namedAt   uint32
	selDev    int
	siteN     map[string]int
	sched     []string
	points    int
	observed  []obsv
	curV      []string
	mus       map[*Value]*muState
	syncMaps  map[*Value]*MapV
	wgs       map[*Value]*wgState
	blobs     map[string]*blob
	hostObj   map[*Value]any
	jsonCtr   int
	randSym   bool
	randCtr   int
	yielded   bool
	trackFns  bool
	usedFns   map[*FnInfo]int64
	res       *Result
	dead      bool
}

type obsv struct {
	label string
	v     Value
}

type Explorer struct {
	mu      sync.Mutex
	cond    *sync.Cond
	queue   [][]*work // by the number of schedule deviations
	queued  int
	rnd     uint64
	active  int
	stop    bool
	paths   int
	cfg     *Config
	start   time.Time
	viols   map[string][]*Violation
	mem     int32 // 1: memory is getting short, long paths end; 2: stop
	nviol   int
	sampleN int
}

func (ex *Explorer) push(w *work) {
	ex.mu.Lock()
	for len(ex.queue) <= w.devs {
		ex.queue = append(ex.queue, nil)
	}
	ex.queue[w.devs] = append(ex.queue[w.devs], w)
	ex.queued++
	ex.mu.Unlock()
	ex.cond.Signal()
}

func (ex *Explorer) pop() *work {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	for {
		if ex.stop {
			return nil
		}
		if ex.queued > 0 {
			if ex.paths >= ex.cfg.MaxPaths || time.Since(ex.start) > ex.cfg.Timeout {
				ex.stop = true
				ex.cond.Broadcast()
				return nil
			}
			ex.paths++
			ex.active++
			return ex.next()
		}
		if ex.active == 0 {
			ex.stop = true
			ex.cond.Broadcast()
			return nil
		}
		ex.cond.Wait()
	}
}

// next takes the paths with the fewest deviations first, so that a run that
// ends early has seen all of those; and among paths with deviations any, so
// that it has seen some of everything.
func (ex *Explorer) next() *work {
	l := 0
	for len(ex.queue[l]) == 0 {
		l++
	}
	full := ex.queued > 1500000
	if full {
		// depth first needs the least room
		l = len(ex.queue) - 1
		for len(ex.queue[l]) == 0 {
			l--
		}
	}
	q := ex.queue[l]
	k := len(q) - 1
	if l > 0 && !full {
		ex.rnd ^= ex.rnd << 13
		ex.rnd ^= ex.rnd >> 7
		ex.rnd ^= ex.rnd << 17
		j := int(ex.rnd % uint64(len(q)))
		q[j], q[k] = q[k], q[j]
	}
	w := q[k]
	q[k] = nil
	ex.queue[l] = q[:k]
	ex.queued--
	return w
}

func (ex *Explorer) doneOne() {
	ex.mu.Lock()
	ex.active--
	if ex.active == 0 && ex.queued == 0 {
		ex.cond.Broadcast()
	}
	ex.mu.Unlock()
}

func (it *Interp) initAllowed(p string) bool {
	if strings.HasPrefix(p, "github.com/singchia/") || p == "github.com/jumboframes/armorigo/synchub" {
		return true
	}
	return it.allow[p]
}

var allowInit = map[string]bool{"io": true, "bytes": true, "strings": true, "context": true,
	"container/list": true, "container/heap": true, "encoding/binary": true, "math/bits": true, "strconv": true,
	"sort": true, "slices": true, "unicode/utf8": true, "regexp": true, "regexp/syntax": true, "internal/oserror": true, "bufio": true}

func NewInterp(prog *ssa.Program, cfg *Config, ex *Explorer) *Interp {
	it := &Interp{c: NewCtx(), prog: prog, cfg: cfg, ex: ex, allow: allowInit}
	it.s = NewSolver(it.c)
	it.fns = map[*ssa.Function]*FnInfo{}
	it.methods = map[methKey]*Closure{}
	it.implCache = map[implKey]bool{}
	it.typeIDs = map[types.Type]string{}
	it.trackFns = true
	it.usedFns = map[*FnInfo]int64{}
	ep := prog.ImportedPackage("errors")
	it.errorStringT = types.NewPointer(ep.Type("errorString").Type())
	it.res = &Result{Unsupported: map[string]int{}, Notes: map[string]int{}, Reached: map[string]int{}}
	return it
}

func (it *Interp) reset(w *work) {
	it.globals = map[*ssa.Global]*Value{}
	it.gs, it.runq, it.waiters, it.cur = nil, nil, nil, nil
	it.nextG, it.nextChan = 0, 0
	it.timers, it.timerSeq, it.now, it.advances, it.steps = nil, 0, epoch2000, 0, 0
	it.pc, it.pcSet, it.dec, it.prefix, it.pos = nil, map[*Expr]bool{}, nil, w.decisions(), 0
	it.devs, it.named = 0, nil
	it.nondets, it.names = nil, map[string]int{}
	it.window, it.windowMem, it.devLeft, it.selDev = false, false, it.cfg.Deviations, 0
	it.siteN, it.sched, it.points = map[string]int{}, nil, 0
	it.observed = nil
	it.mus, it.syncMaps, it.wgs = map[*Value]*muState{}, map[*Value]*MapV{}, map[*Value]*wgState{}
	it.blobs, it.hostObj, it.jsonCtr = map[string]*blob{}, map[*Value]any{}, 0
	it.randSym, it.randCtr, it.yielded = false, 0, false
	m := map[*Expr]uint64{}
	for n, v := range w.named {
		// names carry their width
		var wd int
		i := strings.LastIndex(n, "_w")
		fmt.Sscanf(n[i+2:], "%d", &wd)
		m[it.c.Var(n[:i], uint8(wd))] = v
	}
	it.c.SetModel(m)
}

func (it *Interp) namedModel(over map[*Expr]uint64) map[string]uint64 {
	r := map[string]uint64{}
	for e, v := range it.c.model {
		if v != 0 {
			r[e.Name] = v
		}
	}
	for e, v := range over {
		r[e.Name] = v
	}
	return r
}

func (it *Interp) adopt(m map[*Expr]uint64) {
	n := make(map[*Expr]uint64, len(it.c.model)+len(m))
	for k, v := range it.c.model {
		n[k] = v
	}
	for k, v := range m {
		n[k] = v
	}
	it.c.SetModel(n)
}

func (it *Interp) note(f string, a ...any) { it.res.Notes[fmt.Sprintf(f, a...)]++ }

func (it *Interp) addPC(e *Expr) {
	if e.IsTrue() || it.pcSet[e] {
		return
	}
	if e.Op == OpBAnd {
		it.addPC(e.A[0])
		it.addPC(e.A[1])
		it.pcSet[e] = true
		return
	}
	it.pcSet[e] = true
	it.pc = append(it.pc, e)
}

func (it *Interp) fork(d Decision, m map[*Expr]uint64) {
	it.res.Forks++
	devs := it.devs
	if d.K == 4 && d.V > 0 {
		devs++
	}
	named := it.named
	if m != nil || named == nil || it.namedAt != it.c.epoch {
		named = it.namedModel(m)
		if m == nil {
			it.named, it.namedAt = named, it.c.epoch
		}
	}
	n := len(it.dec)
	it.ex.push(&work{base: it.dec[:n:n], last: d, forkd: true, devs: devs, named: named})
}

// branch decides a condition, forking when both outcomes are feasible.
func (it *Interp) branch(cond *Expr, tag string) bool {
	if cond.IsConst() {
		return cond.C == 1
	}
	if it.pcSet[cond] {
		return true
	}
	ncond := it.c.BNot(cond)
	if it.pcSet[ncond] {
		return false
	}
	if it.pos < len(it.prefix) {
		d := it.prefix[it.pos]
		it.pos++
		it.dec = append(it.dec, d)
		b := d.K&1 == 1
		if d.K < 2 {
			if b {
				it.addPC(cond)
			} else {
				it.addPC(ncond)
			}
		} else if d.K > 3 {
			panic(fmt.Sprintf("decision mismatch %v at branch %s in %s", d, tag, it.where(it.cur)))
		}
		return b
	}
	b := it.c.Eval(cond) == 1
	other := cond
	if b {
		other = ncond
	}
	r, m := it.s.Check(it.pc, other)
	switch r {
	case Sat:
		it.fork(Decision{K: uint8(b2u(!b))}, m)
		it.dec = append(it.dec, Decision{K: uint8(b2u(b))})
		if b {
			it.addPC(cond)
		} else {
			it.addPC(ncond)
		}
	case Unsat:
		it.dec = append(it.dec, Decision{K: 2 + uint8(b2u(b))})
	default:
		it.note("solver gave no answer on a branch (%s); that side is unexplored", tag)
		it.dec = append(it.dec, Decision{K: uint8(b2u(b))})
		if b {
			it.addPC(cond)
		} else {
			it.addPC(ncond)
		}
	}
	return b
}

// chooseSched picks one of n schedules; all are feasible.
func (it *Interp) chooseSched(n int, tag string) int {
	it.points++
	if it.pos < len(it.prefix) {
		d := it.prefix[it.pos]
		it.pos++
		it.dec = append(it.dec, d)
		if d.K != 4 {
			panic("decision mismatch at sched " + tag)
		}
		if d.V > 0 {
			it.devs++
		}
		return int(d.V)
	}
	for k := n - 1; k >= 1; k-- {
		it.fork(Decision{K: 4, V: uint64(k)}, nil)
	}
	it.dec = append(it.dec, Decision{K: 4, V: 0})
	return 0
}

// concretize forks over every feasible value of e.
func (it *Interp) concretize(e *Expr, tag string) uint64 {
	if e.IsConst() {
		return e.C
	}
	for n := 0; ; n++ {
		if n > it.cfg.MaxConc {
			it.note("more than %d values of %s: rest unexplored", it.cfg.MaxConc, tag)
			panic(pathEnd{"cut", "concretize " + tag})
		}
		if it.pos < len(it.prefix) {
			d := it.prefix[it.pos]
			it.pos++
			it.dec = append(it.dec, d)
			q := it.c.Eq(e, it.c.Const(e.W, d.V))
			switch d.K {
			case 5:
				it.addPC(q)
				return d.V
			case 7:
				return d.V
			case 6:
				it.addPC(it.c.BNot(q))
				continue
			default:
				panic(fmt.Sprintf("decision mismatch %v at concretize %s in %s", d, tag, it.where(it.cur)))
			}
		}
		v := it.c.Eval(e)
		q := it.c.Eq(e, it.c.Const(e.W, v))
		if q.IsTrue() || it.pcSet[q] {
			it.dec = append(it.dec, Decision{K: 7, V: v})
			return v
		}
		r, m := it.s.Check(it.pc, it.c.BNot(q))
		switch r {
		case Sat:
			it.fork(Decision{K: 6, V: v}, m)
			it.dec = append(it.dec, Decision{K: 5, V: v})
			it.addPC(q)
		case Unsat:
			it.dec = append(it.dec, Decision{K: 7, V: v})
		default:
			it.note("solver gave no answer concretising %s", tag)
			it.dec = append(it.dec, Decision{K: 5, V: v})
			it.addPC(q)
		}
		return v
	}
}

func (it *Interp) assume(cond *Expr) {
	if cond.IsTrue() {
		return
	}
	if cond.IsFalse() {
		panic(pathEnd{"infeasible", ""})
	}
	if it.pos >= len(it.prefix) && it.c.Eval(cond) != 1 {
		r, m := it.s.Check(it.pc, cond)
		if r != Sat {
			if r == Unknown {
				it.note("solver gave no answer on an assumption")
			}
			panic(pathEnd{"infeasible", ""})
		}
		it.adopt(m)
	}
	it.addPC(cond)
}

func (it *Interp) values(over map[*Expr]uint64) map[string]uint64 {
	old := it.c.model
	if over != nil {
		it.adopt(over)
	}
	r := map[string]uint64{}
	for _, n := range it.nondets {
		r[n.name] = it.c.Eval(n.e)
	}
	if over != nil {
		it.c.SetModel(old)
	}
	return r
}

func (it *Interp) report(kind, label, msg string, m map[*Expr]uint64) {
	if it.pos < len(it.prefix) {
		return // reported by the path this one was forked from
	}
	v := &Violation{Label: label, Msg: msg, Kind: kind, Values: it.values(m), SelDev: it.selDev,
		Sched: append([]string(nil), it.sched...)}
	it.ex.mu.Lock()
	defer it.ex.mu.Unlock()
	l := it.ex.viols[label]
	// keep the schedules with fewest deviations
	l = append(l, v)
	sort.SliceStable(l, func(i, j int) bool { return len(l[i].Sched)+2*l[i].SelDev < len(l[j].Sched)+2*l[j].SelDev })
	if len(l) > 12 {
		l = l[:12]
	}
	it.ex.viols[label] = l
	it.ex.nviol++
}

func (it *Interp) violation(kind, msg string) {
	label := kind
	if kind == "panic" {
		// panics are told apart by message and function
		m := msg
		if i := strings.Index(m, "<-"); i > 0 {
			m = m[:i]
		}
		if i := strings.LastIndex(m, ":"); i > 0 && strings.HasSuffix(m, ")") {
			m = m[:i] + ")"
		}
		// the numbers are the input's, not the site's
		label = numbers.ReplaceAllString(m, "N")
	}
	it.report(kind, label, msg, nil)
}

func (it *Interp) assert(cond *Expr, label string) {
	if cond.IsConst() {
		if it.pos >= len(it.prefix) {
			it.res.Asserts++
			if cond.IsFalse() {
				it.report("assert", label, "assertion failed: "+label+" at "+it.where(it.cur), nil)
			}
		}
		return
	}
	// the outcome is recorded so that replayed prefixes carry the same path condition
	if it.pos < len(it.prefix) {
		d := it.prefix[it.pos]
		it.pos++
		it.dec = append(it.dec, d)
		if d.K == 9 {
			it.addPC(cond)
		} else if d.K != 10 {
			panic("decision mismatch at assert " + label)
		}
		return
	}
	it.res.Asserts++
	it.res.AssertsSMT++
	keep := func(add bool) {
		if add {
			it.dec = append(it.dec, Decision{K: 9})
			it.addPC(cond)
		} else {
			it.dec = append(it.dec, Decision{K: 10})
		}
	}
	if it.c.Eval(cond) != 1 {
		it.report("assert", label, "assertion failed: "+label+" at "+it.where(it.cur), nil)
		r, m := it.s.Check(it.pc, cond)
		if r == Sat {
			it.adopt(m)
			keep(true)
		} else {
			keep(false)
		}
		return
	}
	r, m := it.s.Check(it.pc, it.c.BNot(cond))
	switch r {
	case Sat:
		it.report("assert", label, "assertion failed: "+label+" at "+it.where(it.cur), m)
		keep(true)
	case Unknown:
		it.res.AssertUnk++
		it.note("solver gave no answer on assertion %s", label)
		keep(true)
	default:
		keep(false)
	}
}

func (it *Interp) runPath(w *work, initPkg *ssa.Package, harness *ssa.Function) (end pathEnd) {
	it.reset(w)
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case pathEnd:
				end = x
			case unsupportedErr:
				end = pathEnd{"unsupported", string(x)}
				if it.cur != nil {
					end.msg += " in " + it.where(it.cur)
				}
			default:
				if it.cur != nil {
					fmt.Fprintln(os.Stderr, "engine fault in", it.where(it.cur))
				}
				if it.cfg.Debug {
					panic(r)
				}
				end = pathEnd{"unsupported", fmt.Sprintf("engine fault: %v", r)}
			}
		}
	}()
	g := it.newG(&Closure{fn: initPkg.Func("init")}, nil, "init")
	it.schedule(g)
	it.gs = nil
	it.nextG = 0
	m := it.newG(&Closure{fn: harness}, nil, "main")
	it.schedule(m)
	return pathEnd{"done", ""}
}

// watch keeps the memory of the process within limits: an endless path that
// allocates would otherwise take all there is.
func (ex *Explorer) watch(quit chan struct{}) {
	tick := time.NewTicker(100 * time.Millisecond)
	defer tick.Stop()
	var freed time.Time
	for {
		select {
		case <-quit:
			return
		case <-tick.C:
		}
		b, err := os.ReadFile("/proc/self/statm")
		if err != nil {
			continue
		}
		var sz, rss int64
		fmt.Sscan(string(b), &sz, &rss)
		gb := float64(rss) * float64(os.Getpagesize()) / (1 << 30)
		lv := int32(0)
		switch {
		case gb > 18:
			lv = 2
		case gb > 9:
			lv = 1
		}
		if lv > 0 && time.Since(freed) > 3*time.Second {
			// what looks like use may be garbage
			debug.FreeOSMemory()
			freed = time.Now()
			continue
		}
		atomic.StoreInt32(&ex.mem, lv)
		if lv == 2 {
			ex.mu.Lock()
			ex.stop = true
			ex.cond.Broadcast()
			ex.mu.Unlock()
		}
	}
}

// Explore runs a harness to exhaustion or to its limits.
func Explore(prog *ssa.Program, initPkg *ssa.Package, harness *ssa.Function, cfg *Config) *Result {
	ex := &Explorer{cfg: cfg, start: time.Now(), viols: map[string][]*Violation{}}
	ex.cond = sync.NewCond(&ex.mu)
	ex.queue, ex.queued, ex.rnd = [][]*work{{{}}}, 1, 88172645463325252+uint64(cfg.Seed)*7919
	res := &Result{Harness: harness.Name(), Unsupported: map[string]int{}, Notes: map[string]int{}, Reached: map[string]int{}, Fns: map[string]int64{}}
	quit := make(chan struct{})
	defer close(quit)
	go ex.watch(quit)
	var wg sync.WaitGroup
	its := make([]*Interp, cfg.Workers)
	for i := range its {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			it := NewInterp(prog, cfg, ex)
			its[i] = it
			for {
				w := ex.pop()
				if w == nil {
					break
				}
				end := it.runPath(w, initPkg, harness)
				r := it.res
				r.Paths++
				r.Steps += it.steps
				r.Decisions += len(it.dec)
				if it.points > r.MaxPoints {
					r.MaxPoints = it.points
				}
				r.SchedPoints += it.points
				switch end.kind {
				case "done":
					r.Complete++
					it.sample()
				case "infeasible":
					r.Infeasible++
				case "cut":
					r.Cut++
				case "bound":
					r.Bound++
					r.Notes["bound reached: "+end.msg]++
					if strings.HasPrefix(end.msg, "step limit") || end.msg == "time advances" || end.msg == "memory" || end.msg == "call depth" {
						// an endless path, if the native run does not end either
						it.report("hang", "does not come to an end", end.msg, nil)
					}
				case "unsupported":
					r.Unsupported[end.msg]++
				}
				if len(it.c.tab) > 3000000 {
					// start over with a fresh term table
					it2 := NewInterp(prog, cfg, ex)
					it2.res = it.res
					it.s.Close()
					it2.s.Queries, it2.s.Cached, it2.s.Time, it2.s.NSat, it2.s.NUnsat, it2.s.NUnk, it2.s.MaxQ = it.s.Queries, it.s.Cached, it.s.Time, it.s.NSat, it.s.NUnsat, it.s.NUnk, it.s.MaxQ
					for k, v := range it.usedFns {
						res.addFn(ex, k, v)
					}
					it = it2
					its[i] = it
				}
				ex.doneOne()
			}
			it.s.Close()
		}(i)
	}
	wg.Wait()
	for _, it := range its {
		r := it.res
		res.Paths += r.Paths
		res.Complete += r.Complete
		res.Infeasible += r.Infeasible
		res.Cut += r.Cut
		res.Bound += r.Bound
		res.Forks += r.Forks
		res.Decisions += r.Decisions
		res.Steps += r.Steps
		res.Asserts += r.Asserts
		res.AssertsSMT += r.AssertsSMT
		res.AssertUnk += r.AssertUnk
		res.SchedPoints += r.SchedPoints
		if r.MaxPoints > res.MaxPoints {
			res.MaxPoints = r.MaxPoints
		}
		for k, v := range r.Unsupported {
			res.Unsupported[k] += v
		}
		for k, v := range r.Notes {
			res.Notes[k] += v
		}
		for k, v := range r.Reached {
			res.Reached[k] += v
		}
		res.Samples = append(res.Samples, r.Samples...)
		s := it.s
		res.Queries += s.Queries
		res.CachedQ += s.Cached
		res.Sat += s.NSat
		res.Unsat += s.NUnsat
		res.Unknown += s.NUnk
		res.SolverTime += s.Time
		if s.MaxQ > res.MaxQuery {
			res.MaxQuery = s.MaxQ
		}
		for k, v := range it.usedFns {
			res.addFn(ex, k, v)
		}
	}
	res.Violations = ex.viols
	for l, vs := range res.Violations {
		for _, v := range vs {
			v.Harness = res.Harness
		}
		_ = l
	}
	res.Wall = time.Since(ex.start)
	res.Exhausted = ex.queued == 0
	return res
}

func (res *Result) addFn(ex *Explorer, fi *FnInfo, n int64) {
	ex.mu.Lock()
	res.Fns[fi.name] += n
	ex.mu.Unlock()
}

func (it *Interp) sample() {
	if len(it.res.Samples) >= it.cfg.Samples {
		return
	}
	if it.selDev > 0 {
		return
	}
	s := Sample{Sched: append([]string(nil), it.sched...), Values: it.values(nil), Steps: it.steps, Devs: len(it.sched)}
	for _, o := range it.observed {
		s.Observed = append(s.Observed, o.label+"="+it.showVal(o.v))
	}
	it.res.Samples = append(it.res.Samples, s)
}
