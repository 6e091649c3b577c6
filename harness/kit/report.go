// Package kit is shared by the monitor programs: case bookkeeping, verdicts,
// the stuck-state detector, scripted transports, a reference implementation of
// the chunk wire format and input generators.
package kit

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/WatchBeam/rtmp/zzverif/zzvy"
)

// R is one run of one property's monitor.
type R struct {
	Prop  string
	Tier  string
	Seed  int64
	Race  bool
	Sites int // statement sites in the instrumented packages

	only   int64
	out    string
	prog   *os.File
	known  map[string]bool
	budget uint64
	start  time.Time

	mu       sync.Mutex
	evals    int64
	distinct map[uint64]struct{}
	counts   map[string]int64
	samples  []any
	found    map[string]string
	rule     string
	done     bool

	quiet sync.Mutex
	beat  atomic.Int64
	cur   atomic.Int64
	scen  atomic.Value // string
	steps atomic.Uint64
}

type result struct {
	Property  string            `json:"property"`
	Tier      string            `json:"tier"`
	Seed      int64             `json:"seed"`
	Evals     int64             `json:"evaluations"`
	Distinct  int64             `json:"distinct_nontrivial"`
	Rule      string            `json:"rule"`
	Samples   []any             `json:"samples"`
	Counts    map[string]int64  `json:"counts"`
	Reached   []int             `json:"reached"`
	Steps     uint64            `json:"steps"`
	Findings  map[string]string `json:"findings"`
	Violation string            `json:"violation,omitempty"`
	Scenario  string            `json:"scenario,omitempty"`
	Case      int64             `json:"case"`
	WallS     float64           `json:"wall_s"`
	Complete  bool              `json:"complete"`
}

// Main runs the property named on the command line.
func Main(props map[string]func(*R)) {
	prop := flag.String("prop", "", "")
	tier := flag.String("tier", "quick", "")
	seed := flag.Int64("seed", 1, "")
	out := flag.String("out", "", "result file")
	only := flag.Int64("only", -1, "run only this case (replay)")
	sites := flag.Int("sites", 0, "")
	race := flag.Bool("race", false, "built with the race detector")
	list := flag.Bool("list", false, "")
	flag.Parse()
	if *list {
		var l []string
		for k := range props {
			l = append(l, k)
		}
		sort.Strings(l)
		fmt.Println(strings.Join(l, "\n"))
		return
	}
	f := props[*prop]
	if f == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(3)
	}
	debug.SetTraceback("all")
	r := &R{
		Prop: *prop, Tier: *tier, Seed: *seed, Race: *race, Sites: *sites, only: *only, out: *out,
		distinct: map[uint64]struct{}{}, counts: map[string]int64{}, found: map[string]string{},
		start: time.Now(), budget: DefaultBudget,
	}
	r.scen.Store("")
	if *out != "" {
		p, err := os.Create(*out + ".progress")
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		r.prog = p
	}
	go r.watch()
	f(r)
	r.mu.Lock()
	defer r.mu.Unlock()
	r.write("", true)
	r.done = true
	os.Exit(0)
}

const DefaultBudget = 400_000_000

// N picks the number of cases for the tier.
func (r *R) N(quick, thorough int) int {
	if r.Tier == "thorough" {
		return thorough
	}
	return quick
}

// Thorough tells whether this is the deep run.
func (r *R) Thorough() bool { return r.Tier == "thorough" }

// Cases yields case numbers base..base+n-1, or just the one being replayed.
func (r *R) Cases(base, n int) func(func(int) bool) {
	return func(yield func(int) bool) {
		for i := base; i < base+n; i++ {
			if r.only >= 0 && int64(i) != r.only {
				continue
			}
			r.Begin(i, "")
			if !yield(i) {
				return
			}
			r.End()
		}
	}
}

// Begin starts a case. The scenario text describes it in reports.
func (r *R) Begin(i int, scenario string) {
	r.cur.Store(int64(i))
	r.beat.Add(1)
	atomic.StoreUint64(&r.budget, DefaultBudget)
	r.steps.Store(zzvy.Steps())
	r.scen.Store(scenario)
	if r.prog != nil {
		s := fmt.Sprintf("%-12d\n", i)
		r.prog.WriteAt([]byte(s), 0)
	}
}

// Beat tells the watchdog that the case progresses.
func (r *R) Beat() { r.beat.Add(1) }

// End ends a case: perturbation off.
func (r *R) End() { zzvy.Disarm() }

// Budget sets the number of statements the code under test may execute in the
// current case before it is declared not to terminate.
func (r *R) Budget(n uint64) { atomic.StoreUint64(&r.budget, n) }

// Scenario describes the current case in reports.
func (r *R) Scenario(format string, a ...any) { r.scen.Store(fmt.Sprintf(format, a...)) }

// Rng is the random source of case i.
func (r *R) Rng(i int) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%d/%d", r.Prop, r.Seed, i)
	return rand.New(rand.NewSource(int64(h.Sum64())))
}

// Arm turns on schedule perturbation for the current case.
func (r *R) Arm(rng *rand.Rand) {
	masks := []uint32{1, 3, 7, 15, 63, 1023}
	m := masks[rng.Intn(len(masks))]
	s1, s2 := -1, -1
	if r.Sites > 0 && rng.Intn(3) > 0 {
		s1, s2 = rng.Intn(r.Sites), rng.Intn(r.Sites)
	}
	zzvy.Arm(rng.Uint64(), m, s1, s2)
}

// Rule states how cases are made and what makes one non-trivial.
func (r *R) Rule(s string) { r.rule = s }

// Eval records one executed case; sig identifies it, and nontrivial tells
// whether it counts as such by the rule.
func (r *R) Eval(nontrivial bool, sig ...any) {
	h := fnv.New64a()
	if nontrivial {
		for _, s := range sig {
			if b, ok := s.([]byte); ok {
				h.Write(b)
			} else {
				fmt.Fprintf(h, "|%v", s)
			}
		}
	}
	r.mu.Lock()
	r.evals++
	if nontrivial {
		r.distinct[h.Sum64()] = struct{}{}
	}
	r.mu.Unlock()
	r.beat.Add(1)
}

// EvalN records n executed cases that are distinct by construction.
func (r *R) EvalN(n int, tag string) {
	r.mu.Lock()
	for i := 0; i < n; i++ {
		r.evals++
		h := fnv.New64a()
		fmt.Fprintf(h, "%s#%d", tag, i)
		r.distinct[h.Sum64()] = struct{}{}
	}
	r.mu.Unlock()
}

func (r *R) Count(key string, n int) {
	r.mu.Lock()
	r.counts[key] += int64(n)
	r.mu.Unlock()
}

// Get returns a counter.
func (r *R) Get(key string) int64 {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.counts[key]
}

func (r *R) Sample(format string, a ...any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.samples) < 24 {
		r.samples = append(r.samples, fmt.Sprintf(format, a...))
	}
}

// Need fails the run as inconclusive when a counter stayed below n: a monitor
// that observed nothing decides nothing.
func (r *R) Need(key string, n int64) {
	if r.only >= 0 {
		return
	}
	if got := r.Get(key); got < n {
		fmt.Fprintf(os.Stderr, "INCONCLUSIVE: %s observed %d, need %d\n", key, got, n)
		os.Exit(4)
	}
}

// Finding reports a deviation that has a name in the known-findings file; the
// driver decides whether it is listed.
func (r *R) Finding(key, format string, a ...any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if _, ok := r.found[key]; !ok {
		r.found[key] = fmt.Sprintf(format, a...)
	}
}

// Fail reports a violation and ends the process.
func (r *R) Fail(format string, a ...any) {
	r.mu.Lock()
	if r.done {
		r.mu.Unlock()
		select {}
	}
	r.done = true
	msg := fmt.Sprintf(format, a...)
	if len(msg) > 6000 {
		msg = msg[:6000] + " ..."
	}
	r.write(msg, true)
	fmt.Fprintf(os.Stderr, "VIOLATED %s case %d: %s\n", r.Prop, r.cur.Load(), msg)
	os.Exit(1)
}

// BeforeWrite, when set, undoes what would keep the results from being written.
var BeforeWrite atomic.Pointer[func()]

func (r *R) write(violation string, complete bool) {
	if f := BeforeWrite.Load(); f != nil {
		(*f)()
	}
	if r.out == "" {
		return
	}
	scen, _ := r.scen.Load().(string)
	res := result{
		Property: r.Prop, Tier: r.Tier, Seed: r.Seed,
		Evals: r.evals, Distinct: int64(len(r.distinct)), Rule: r.rule, Samples: r.samples,
		Counts: r.counts, Reached: zzvy.Reached(), Steps: zzvy.Steps(), Findings: r.found,
		Violation: violation, Scenario: scen, Case: r.cur.Load(),
		WallS: time.Since(r.start).Seconds(), Complete: complete,
	}
	b, _ := json.Marshal(res)
	os.WriteFile(r.out, b, 0o644)
}

// watch declares a case stuck when, with no case progress, every goroutine of
// the process except this one is parked on a channel, lock or wait group in
// several consecutive stop-the-world snapshots: then nothing can ever wake any
// of them. It also enforces the statement budget. Neither verdict depends on
// how fast the machine is.
func (r *R) watch() {
	last, same := int64(-1), 0
	for {
		time.Sleep(20 * time.Millisecond)
		b := r.beat.Load()
		if d := zzvy.Steps() - r.steps.Load(); d > atomic.LoadUint64(&r.budget) && d < 1<<62 {
			if b == r.beat.Load() {
				r.Fail("no termination: the code under test executed over %d statements in one case\n%s",
					atomic.LoadUint64(&r.budget), trim(Stacks(), 4000))
			}
		}
		if b != last {
			last, same = b, 0
			continue
		}
		ok, dump := AllBlocked()
		if !ok || r.beat.Load() != b {
			same = 0
			continue
		}
		same++
		need := 8
		if strings.Contains(dump, "[IO wait") {
			need = 400 // a socket may yet become ready
		}
		if same >= need {
			r.Fail("stuck: every goroutine is blocked for good\n%s", trim(dump, 5000))
		}
	}
}

func trim(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// Stacks is a stop-the-world dump of all goroutines.
func Stacks() string {
	buf := make([]byte, 1<<20)
	for {
		n := runtime.Stack(buf, true)
		if n < len(buf) {
			return string(buf[:n])
		}
		buf = make([]byte, 2*len(buf))
	}
}

var blockedStates = []string{
	"chan receive", "chan send", "select", "sync.Mutex.Lock", "sync.RWMutex", "sync.WaitGroup.Wait",
	"sync.Cond.Wait",
}

// goroutines splits a dump; the first block is the caller's.
func goroutines(dump string) []string { return strings.Split(strings.TrimSpace(dump), "\n\n") }

func state(g string) string {
	i, j := strings.IndexByte(g, '['), strings.IndexByte(g, ']')
	if i < 0 || j < i {
		return "?"
	}
	s := g[i+1 : j]
	if k := strings.IndexByte(s, ','); k >= 0 {
		s = s[:k]
	}
	return s
}

// isBlocked tells whether a goroutine is parked on an object of the program. A
// wait for a semaphore of the runtime itself (a goroutine about to allocate
// waits for the end of a snapshot) looks much the same, and is none.
func isBlocked(g string) bool {
	st := state(g)
	if st == "semacquire" {
		_, top, _ := strings.Cut(g, "\n")
		for _, p := range []string{"sync.runtime_", "internal/sync.runtime_", "internal/poll.runtime_"} {
			if strings.HasPrefix(top, p) {
				return true
			}
		}
		return false
	}
	for _, b := range blockedStates {
		if strings.HasPrefix(st, b) {
			return true
		}
	}
	return false
}

// AllBlocked tells whether every goroutine other than the caller is parked on a
// synchronisation object.
func AllBlocked() (bool, string) {
	dump := Stacks()
	gs := goroutines(dump)
	for _, g := range gs[1:] {
		if !isBlocked(g) && state(g) != "IO wait" {
			return false, ""
		}
	}
	return true, strings.Join(gs[1:], "\n\n")
}

// Quiesce waits until every goroutine other than the caller and the watchdog is
// parked; what has not happened by then never will without outside input.
// Callers take turns, so that a party can be away until the others wait for it.
// It also ends when one of the given channels is closed.
func (r *R) Quiesce(or ...<-chan struct{}) {
	r.quiet.Lock()
	defer r.quiet.Unlock()
	calm := 0
	for calm < 3 {
		for _, c := range or {
			select {
			case <-c:
				return
			default:
			}
		}
		r.beat.Add(1)
		ok := true
		dump := Stacks()
		for _, g := range goroutines(dump)[1:] {
			if strings.Contains(g, "kit.(*R).watch") {
				continue
			}
			if !isBlocked(g) {
				ok = false
				break
			}
		}
		if ok {
			calm++
		} else {
			calm = 0
		}
		runtime.Gosched()
		if !ok {
			time.Sleep(50 * time.Microsecond)
		}
	}
}

// Running lists the goroutines with a frame matching one of the substrings.
func Running(subs ...string) []string {
	var out []string
	for _, g := range goroutines(Stacks())[1:] {
		for _, s := range subs {
			if strings.Contains(g, s) {
				out = append(out, g)
				break
			}
		}
	}
	return out
}

// Protect runs f and turns a panic into a violation.
func (r *R) Protect(what string, f func()) {
	defer func() {
		if e := recover(); e != nil {
			r.Fail("%s panicked: %v\n%s", what, e, trim(string(debug.Stack()), 3000))
		}
	}()
	f()
}
