package main

import (
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
)

// A Family is a fixed list of cases of one property, each determined by the
// seed and its index alone.
type Family struct {
	Name     string
	Quick    int // number of cases in the quick tier
	Thorough int // number of cases in the thorough tier
	Batch    int // cases per worker process
	CPU      int // CPU seconds after which a case counts as not terminating
	Run      func(c *C)
}

// A Prop is a property together with the families of executions its monitors
// watch.
type Prop struct {
	ID       string
	Level    string
	Race     bool
	Rule     string
	Assume   []string
	Families []Family
	// Need names counters that must be non-zero for the run to count.
	Need []string
	// Finish may add derived numbers to the evidence.
	Finish func(ev map[string]int64) map[string]any
}

var props = map[string]*Prop{}

func register(p *Prop) {
	if p.Level == "" {
		p.Level = "exploration"
	}
	props[p.ID] = p
}

// Stats are what the monitors of one worker observed.
type Stats struct {
	Evaluations int64
	Counters    map[string]int64
	Nontrivial  map[uint64]struct{} `json:"-"`
	Hashes      []uint64
	Samples     []string
	Known       map[string]string
	Failure     *Failure
}

// A Failure is a violation with everything needed to replay it.
type Failure struct {
	Property string
	Family   string
	Index    int
	Seed     int64
	Tier     string
	Kind     string
	Detail   string
	From, To int // the batch that was running, when its history is needed
}

// C is the context of one case.
type C struct {
	R     *rand.Rand
	Prop  *Prop
	Fam   *Family
	Idx   int
	Tier  string
	Seed  int64
	st    *Stats
	notes []string
}

type failure struct{ msg string }

// Fail reports that the property is violated by the current case.
func (c *C) Fail(format string, args ...any) {
	panic(failure{fmt.Sprintf(format, args...)})
}

// Note attaches context to a failure or panic later in this case.
func (c *C) Note(format string, args ...any) {
	c.notes = append(c.notes, fmt.Sprintf(format, args...))
	if len(c.notes) > 60 {
		c.notes = append(c.notes[:10:10], c.notes[len(c.notes)-40:]...)
	}
}

// ClearNotes forgets the notes taken so far.
func (c *C) ClearNotes() { c.notes = c.notes[:0] }

// Event counts something the monitors observed.
func (c *C) Event(name string, n int) { c.st.Counters[name] += int64(n) }

// Max keeps the largest value seen under the name.
func (c *C) Max(name string, n int) {
	if int64(n) > c.st.Counters["max:"+name] {
		c.st.Counters["max:"+name] = int64(n)
	}
}

// Eval counts one execution the oracle decided.
func (c *C) Eval() { c.st.Evaluations++ }

// Nontrivial records a distinct non-trivial case.
func (c *C) Nontrivial(parts ...string) {
	h := fnv.New64a()
	for _, p := range parts {
		h.Write([]byte(p))
		h.Write([]byte{0})
	}
	c.st.Nontrivial[h.Sum64()] = struct{}{}
}

// Sample keeps a few written-out cases.
func (c *C) Sample(format string, args ...any) {
	if len(c.st.Samples) < 2 && c.Idx%7 == 3 {
		s := fmt.Sprintf(format, args...)
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		c.st.Samples = append(c.st.Samples, c.Fam.Name+": "+s)
	}
}

// Known records that a listed finding showed itself.
func (c *C) Known(id, what string) { c.st.Known[id] = what }

func (c *C) thorough() bool { return c.Tier == "thorough" }

func newRand(seed int64, prop, fam string, idx int) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%s/%d", seed, prop, fam, idx)
	a := h.Sum64()
	h.Write([]byte("x"))
	return rand.New(rand.NewPCG(a, h.Sum64()))
}

// current case, watched by the monitor goroutine.
var (
	curIdx   atomic.Int64
	curStart atomic.Int64 // CPU time (ns) when the case started
	curWall  atomic.Int64
	curCPU   atomic.Int64 // limit in ns
)

func cpuTime() int64 {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return ru.Utime.Nano() + ru.Stime.Nano()
}

const (
	exitHang = 97
	exitMem  = 98
	memLimit = 3 << 30
)

// watch ends the process when a case uses far more CPU time or memory than any
// correct execution does, or makes no progress at all.
func watch() {
	lastCPU, lastMove := cpuTime(), time.Now()
	sample := []metrics.Sample{{Name: "/memory/classes/total:bytes"}, {Name: "/memory/classes/heap/released:bytes"}}
	lastCase := int64(-1)
	still := 0 // rounds without progress: time that passes while the machine is suspended does not count
	for {
		time.Sleep(100 * time.Millisecond)
		still++
		cpu := cpuTime()
		idx := curIdx.Load()
		if cpu-lastCPU > int64(150*time.Millisecond) || idx != lastCase {
			lastCPU, lastMove, lastCase, still = cpu, time.Now(), idx, 0
		}
		if idx < 0 {
			lastMove, still = time.Now(), 0
			continue
		}
		if cpu-curStart.Load() > curCPU.Load() {
			dumpStacks(fmt.Sprintf("case %d did not finish within %v of CPU time", idx, time.Duration(curCPU.Load())))
			os.Exit(exitHang)
		}
		if time.Since(lastMove) > 40*time.Second && still > 100 {
			why := fmt.Sprintf("case %d is blocked: no CPU time used for 40 s", idx)
			if deadlocked() {
				why += deadlockMark
			}
			dumpStacks(why)
			os.Exit(exitHang)
		}
		metrics.Read(sample)
		if use := sample[0].Value.Uint64() - sample[1].Value.Uint64(); use > memLimit {
			dumpStacks(fmt.Sprintf("case %d uses %d MB of memory", idx, use>>20))
			os.Exit(exitMem)
		}
	}
}

// deadlockMark is evidence by itself, also if it does not happen again.
const deadlockMark = "; deadlock: goroutines wait for a lock in gpeg, and none of those in gpeg can run"

// deadlocked says whether a goroutine waits for a lock inside of gpeg, and no
// goroutine inside of gpeg is able to run.
func deadlocked() bool {
	buf := make([]byte, 1<<20)
	waits := false
	for _, g := range strings.Split(string(buf[:runtime.Stack(buf, true)]), "\n\n") {
		head, _, _ := strings.Cut(g, "\n")
		if !strings.Contains(g, "github.com/zyedidia/gpeg/") {
			continue
		}
		if !strings.Contains(head, "[sync.") && !strings.Contains(head, "[semacquire") {
			if strings.Contains(head, "[run") || strings.Contains(head, "[syscall") || strings.Contains(head, "[sleep") || strings.Contains(head, "[IO wait") {
				return false
			}
			continue
		}
		waits = true
	}
	return waits
}

func dumpStacks(why string) {
	buf := make([]byte, 1<<16)
	n := runtime.Stack(buf, true)
	fmt.Fprintf(os.Stderr, "%s\n%s\n", why, buf[:n])
}

// runCase runs one case and returns the failure, if any.
func runCase(p *Prop, f *Family, idx int, tier string, seed int64, st *Stats) (fail *Failure) {
	c := &C{R: newRand(seed, p.ID, f.Name, idx), Prop: p, Fam: f, Idx: idx, Tier: tier, Seed: seed, st: st}
	defer func() {
		if r := recover(); r != nil {
			fail = &Failure{Property: p.ID, Family: f.Name, Index: idx, Seed: seed, Tier: tier}
			if v, ok := r.(failure); ok {
				fail.Kind = "oracle"
				fail.Detail = v.msg
			} else {
				fail.Kind = "panic"
				fail.Detail = fmt.Sprintf("panic: %v\n%s", r, trimStack(string(debug.Stack())))
			}
			if len(c.notes) > 0 {
				fail.Detail += "\ncontext:\n" + strings.Join(c.notes, "\n")
			}
		}
	}()
	lim := f.CPU
	if lim == 0 {
		lim = 30
	}
	curCPU.Store(int64(lim) * int64(time.Second))
	curStart.Store(cpuTime())
	curWall.Store(time.Now().UnixNano())
	curIdx.Store(int64(idx))
	f.Run(c)
	return nil
}

func trimStack(s string) string {
	if i := strings.Index(s, "panic("); i >= 0 {
		s = s[i:]
	}
	lines := strings.Split(s, "\n")
	if len(lines) > 24 {
		lines = lines[:24]
	}
	return strings.Join(lines, "\n")
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// try runs fn and returns the value it panics with, or nil.
func try(fn func()) (p any) {
	defer func() {
		if p = recover(); p != nil {
			if _, ok := p.(failure); ok {
				panic(p)
			}
		}
	}()
	fn()
	return nil
}
