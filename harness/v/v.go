// Package v is the harness API. The engine intercepts every function of it;
// this file is the native implementation used to replay a solver assignment
// against the real build.
package v

import (
	"crypto/rand"
	"encoding/json"
	"fmt"
	"github.com/jumboframes/armorigo/log"
	"io"
	mrand "math/rand"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"
)

type replay struct {
	Values map[string]uint64 `json:"values"`
	Sched  []string          `json:"sched"`
	Seed   int64             `json:"seed"`
}

var (
	mu        sync.Mutex
	rp        replay
	names     = map[string]int{}
	sites     = map[int]int{}
	delays    = map[string]bool{}
	window    bool
	windowMem bool
	rng       *mrand.Rand
)

// Begin loads the replay file named by VERIF_REPLAY.
func Begin() {
	if p := os.Getenv("VERIF_REPLAY"); p != "" {
		b, err := os.ReadFile(p)
		if err == nil {
			err = json.Unmarshal(b, &rp)
		}
		if err != nil {
			fmt.Println("VERR", err)
			os.Exit(3)
		}
	}
	if os.Getenv("VERIF_LOG") != "" {
		log.SetLevel(log.LevelTrace)
		log.SetFlags(3 | 1<<2)
		log.SetOutput(os.Stdout)
	}
	if s := os.Getenv("VERIF_PERTURB"); s != "" {
		n, _ := strconv.ParseInt(s, 10, 64)
		if n != 0 {
			rng = mrand.New(mrand.NewSource(n))
		}
	}
	for _, d := range rp.Sched {
		delays[d] = true
	}
}

// End finishes a native run whatever goroutines are left.
func End() {
	fmt.Println("VEND")
	os.Exit(0)
}

// Thorough reports the tier.
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// Active reports whether the engine runs the harness.
func Active() bool { return false }

func next(name string) uint64 {
	mu.Lock()
	defer mu.Unlock()
	k := names[name]
	names[name]++
	return rp.Values[fmt.Sprintf("%s#%d", name, k)]
}

func U8(name string) uint8   { return uint8(next(name)) }
func U16(name string) uint16 { return uint16(next(name)) }
func U32(name string) uint32 { return uint32(next(name)) }
func U64(name string) uint64 { return next(name) }
func Bool(name string) bool  { return next(name) == 1 }

// Choice returns a value in [0,n), one path each.
func Choice(name string, n int) int { return int(next(name)) % n }

// Bytes returns n arbitrary bytes.
func Bytes(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(next(fmt.Sprintf("%s[%d]", name, i)))
	}
	return b
}

// Text returns n arbitrary printable ASCII characters other than " \ < > &.
func Text(name string, n int) string { return string(Bytes(name, n)) }

func Assume(cond bool) {
	if !cond {
		fmt.Println("VASSUME")
		os.Exit(0)
	}
}

func Assert(cond bool, label string) {
	if !cond {
		fmt.Println("VFAIL " + label)
	}
}

// Reach marks a point the check must get to.
func Reach(label string) {}

// Eq and EqS compare without forking.
func Eq(a, b []byte) bool  { return string(a) == string(b) }
func EqS(a, b string) bool { return a == b }
func And(bs ...bool) bool {
	for _, b := range bs {
		if !b {
			return false
		}
	}
	return true
}
func Or(bs ...bool) bool {
	for _, b := range bs {
		if b {
			return true
		}
	}
	return false
}

// Observe records a value; replayed samples must record the same ones.
func Observe(label string, x any) {
	var s string
	switch y := x.(type) {
	case nil:
		s = "<nil>"
	case string:
		s = strconv.Quote(y)
	case []byte:
		s = fmt.Sprintf("%x", y)
	case error:
		s = strconv.Quote(y.Error())
	default:
		s = fmt.Sprint(y)
	}
	fmt.Println("VOBS " + label + "=" + s)
}

// Window opens or closes the region in which schedules are explored.
func Window(on bool) {
	mu.Lock()
	window = on
	mu.Unlock()
}

// WindowMem is Window with the finer points M as well.
func WindowMem(on bool) {
	mu.Lock()
	window, windowMem = on, on
	mu.Unlock()
}

// M is a scheduling point at an access to a field.
func M(site int) {
	mu.Lock()
	on := windowMem
	mu.Unlock()
	if on {
		P(site)
	}
}

// P is a scheduling point put in by the instrumentation.
func P(site int) {
	mu.Lock()
	if !window {
		mu.Unlock()
		return
	}
	k := sites[site]
	sites[site]++
	d := delays[fmt.Sprintf("d:%d#%d", site, k)]
	y := rng != nil && rng.Intn(4) == 0
	mu.Unlock()
	if d {
		time.Sleep(1)
	}
	if y {
		runtime.Gosched()
	}
}

type scripted struct{}

func (scripted) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(next("crand"))
	}
	return len(p), nil
}

// SymRand makes crypto/rand deliver arbitrary bytes.
func SymRand() { rand.Reader = io.Reader(scripted{}) }

// Goroutines counts the goroutines of the system under test other than the caller.
func Goroutines() int {
	n := 0
	for _, g := range strings.Split(Stacks(), "\n\n") {
		head, body, _ := strings.Cut(g, "\n")
		if strings.Contains(head, "synctest bubble") &&
			!strings.HasPrefix(body, "internal/synctest.Run(") &&
			!strings.HasPrefix(body, "testing/synctest.testingSynctestTest(") {
			n++
		}
	}
	return n - 1 // the caller
}

func Stacks() string {
	b := make([]byte, 1<<20)
	return string(b[:runtime.Stack(b, true)])
}
