// Command vrun runs the code of /repo under generated workloads while monitors
// compare everything observable with executable models of its properties.
package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type job struct {
	fam      int
	from, to int
}

func main() {
	var (
		prop   = flag.String("prop", "", "property to check")
		tier   = flag.String("tier", "quick", "quick or thorough")
		seed   = flag.Int64("seed", 1, "seed of all random choices")
		worker = flag.String("worker", "", "internal: FAMILY:FROM:TO")
		out    = flag.String("out", "", "internal: result file")
		verif  = flag.String("verif", "/verif", "directory of the framework")
		replay = flag.String("replay", "", "replay file")
		scale  = flag.Float64("scale", 1, "multiplies the number of cases")
		only   = flag.String("family", "", "only this family")
		list   = flag.Bool("list", false, "list properties and families")
		exe    = flag.String("race-exe", "", "binary built with the race detector")
	)
	childFile := flag.String("child10", "", "internal: programs to load and run")
	flag.Parse()
	if *childFile != "" {
		os.Exit(child(*childFile))
	}
	if *list {
		for _, id := range sortedKeys(props) {
			for _, f := range props[id].Families {
				fmt.Println(id, f.Name, f.Quick, f.Thorough)
			}
		}
		return
	}
	if *replay != "" {
		os.Exit(doReplay(*replay))
	}
	p := props[*prop]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(2)
	}
	if *worker != "" {
		os.Exit(doWorker(p, *worker, *tier, *seed, *out))
	}
	_ = exe
	os.Exit(parent(p, *tier, *seed, *verif, *scale, *only))
}

func doReplay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var f Failure
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	p := props[f.Property]
	if !p.Race {
		installHook()
	}
	for i := range p.Families {
		if p.Families[i].Name == f.Family {
			go watch()
			st := newStats()
			// the case by itself, then with the history of its process
			ks := []int{f.Index}
			for k := f.From; k < f.To; k++ {
				ks = append(ks, k)
			}
			for _, k := range ks {
				if fail := runCase(p, &p.Families[i], k, f.Tier, f.Seed, st); fail != nil {
					fmt.Printf("violated: %s/%s case %d (%s)\n%s\n", fail.Property, fail.Family, fail.Index, fail.Kind, fail.Detail)
					return 1
				}
			}
			fmt.Println("not violated")
			return 0
		}
	}
	return 2
}

func newStats() *Stats {
	return &Stats{Counters: map[string]int64{}, Nontrivial: map[uint64]struct{}{}, Known: map[string]string{}}
}

func parseWorker(p *Prop, s string) (fi, from, to int) {
	parts := strings.Split(s, ":")
	for i := range p.Families {
		if p.Families[i].Name == parts[0] {
			fi = i
		}
	}
	from, _ = strconv.Atoi(parts[1])
	to, _ = strconv.Atoi(parts[2])
	return
}

func doWorker(p *Prop, spec, tier string, seed int64, out string) int {
	fi, from, to := parseWorker(p, spec)
	f := &p.Families[fi]
	debug.SetMaxStack(1 << 30)
	if !p.Race {
		installHook()
	}
	progress, err := os.Create(out + ".pos")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	curIdx.Store(-1)
	go watch()
	st := newStats()
	var pos [8]byte
	for i := from; i < to; i++ {
		binary.LittleEndian.PutUint64(pos[:], uint64(i)+1)
		progress.WriteAt(pos[:], 0)
		if fail := runCase(p, f, i, tier, seed, st); fail != nil {
			fail.From, fail.To = from, i+1
			st.Failure = fail
			break
		}
	}
	curIdx.Store(-1)
	binary.LittleEndian.PutUint64(pos[:], 0)
	progress.WriteAt(pos[:], 0)
	flushOps(st)
	for h := range st.Nontrivial {
		st.Hashes = append(st.Hashes, h)
	}
	b, err := json.Marshal(st)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if err := os.WriteFile(out, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	return 0
}

type outcome struct {
	st    *Stats
	crash *Failure
}

// limited keeps the first and last bytes written to it.
type limited struct {
	head, tail []byte
}

func (l *limited) Write(b []byte) (int, error) {
	n := len(b)
	if room := 20000 - len(l.head); room > 0 {
		if room > len(b) {
			room = len(b)
		}
		l.head = append(l.head, b[:room]...)
		b = b[room:]
	}
	l.tail = append(l.tail, b...)
	if len(l.tail) > 4000 {
		l.tail = append([]byte{}, l.tail[len(l.tail)-4000:]...)
	}
	return n, nil
}

func (l *limited) String() string {
	if len(l.tail) == 0 {
		return string(l.head)
	}
	return string(l.head) + "\n...\n" + string(l.tail)
}

// spawn runs one worker and reports what it observed, or how it ended.
func spawn(p *Prop, j job, tier string, seed int64, dir string, name string, stop <-chan struct{}) outcome {
	f := &p.Families[j.fam]
	out := filepath.Join(dir, name)
	self, _ := os.Executable()
	cmd := exec.Command(self, "-prop", p.ID, "-tier", tier, "-seed", strconv.FormatInt(seed, 10),
		"-worker", fmt.Sprintf("%s:%d:%d", f.Name, j.from, j.to), "-out", out)
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0 history_size=3", "GOMAXPROCS="+strconv.Itoa(workerProcs(p)), "GOTRACEBACK=all", "GOMEMLIMIT=2GiB")
	var errb limited
	cmd.Stderr = &errb
	cmd.Stdout = &errb
	if err := cmd.Start(); err != nil {
		return outcome{crash: &Failure{Kind: "start", Detail: err.Error()}}
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var err error
	select {
	case err = <-done:
	case <-stop:
		cmd.Process.Kill()
		<-done
		return outcome{}
	}
	if err == nil {
		b, rerr := os.ReadFile(out)
		var st Stats
		if rerr == nil {
			rerr = json.Unmarshal(b, &st)
		}
		if rerr == nil {
			return outcome{st: &st}
		}
		err = rerr
	}
	idx := -1
	if b, rerr := os.ReadFile(out + ".pos"); rerr == nil && len(b) == 8 {
		idx = int(binary.LittleEndian.Uint64(b)) - 1
	}
	kind := "crash"
	if ee, ok := err.(*exec.ExitError); ok {
		switch ee.ExitCode() {
		case exitHang:
			kind = "hang"
		case exitMem:
			kind = "memory"
		case 66:
			kind = "race"
		case 2:
			if !bytes.Contains(errb.head, []byte("goroutine ")) && !bytes.Contains(errb.head, []byte("fatal error")) {
				kind = "harness"
			}
		case -1:
			kind = "killed"
		}
	}
	return outcome{crash: &Failure{Property: p.ID, Family: f.Name, Index: idx, Seed: seed, Tier: tier, Kind: kind,
		Detail: err.Error() + "\n" + errb.String(), From: j.from, To: idx + 1}}
}

func workerProcs(p *Prop) int {
	if p.Race {
		return 4
	}
	return 2
}

func parent(p *Prop, tier string, seed int64, verif string, scale float64, only string) int {
	start := time.Now()
	dir, err := os.MkdirTemp("", "vrun")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)

	var jobs []job
	for fi := range p.Families {
		f := &p.Families[fi]
		if only != "" && f.Name != only {
			continue
		}
		n := f.Quick
		if tier == "thorough" {
			n = f.Thorough
		}
		n = int(float64(n) * scale)
		b := f.Batch
		if b == 0 {
			b = 250
		}
		for i := 0; i < n; i += b {
			jobs = append(jobs, job{fi, i, min(i+b, n)})
		}
	}
	// interleave families so that long ones do not end up last
	sort.SliceStable(jobs, func(a, b int) bool {
		return jobs[a].from*1000/max(1, famCount(p, jobs[a].fam, tier)) < jobs[b].from*1000/max(1, famCount(p, jobs[b].fam, tier))
	})

	procs := runtime.NumCPU()
	if p.Race {
		procs = max(1, procs/2)
	}
	total := newStats()
	var mu sync.Mutex
	var first *Failure
	var inconclusive []string
	stop := make(chan struct{})
	next := 0
	var wg sync.WaitGroup
	for w := 0; w < procs; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for {
				mu.Lock()
				if next >= len(jobs) || first != nil {
					mu.Unlock()
					return
				}
				j := jobs[next]
				n := next
				next++
				mu.Unlock()
				o := spawn(p, j, tier, seed, dir, fmt.Sprintf("o%d", n), stop)
				if o.crash != nil {
					o = confirm(p, j, tier, seed, dir, n, o, stop)
				}
				mu.Lock()
				if o.st != nil {
					merge(total, o.st)
					if o.st.Failure != nil && first == nil {
						first = o.st.Failure
						close(stop)
					}
				} else if o.crash != nil {
					if o.crash.Kind == "inconclusive" {
						inconclusive = append(inconclusive, o.crash.Detail)
					} else if first == nil {
						first = o.crash
						close(stop)
					}
				}
				mu.Unlock()
				os.Remove(filepath.Join(dir, fmt.Sprintf("o%d", n)))
				os.Remove(filepath.Join(dir, fmt.Sprintf("o%d.pos", n)))
			}
		}(w)
	}
	wg.Wait()

	violations := 0
	code := 0
	if first != nil {
		if first.Kind == "harness" || first.Kind == "start" {
			fmt.Fprintf(os.Stderr, "harness error: %s\n", first.Detail)
			return 2
		}
		violations = 1
		code = 1
		path := writeReplay(verif, first)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		d := first.Detail
		if len(d) > 4000 {
			d = d[:4000] + "\n..."
		}
		fmt.Printf("%s case %d (%s)\n%s\n", first.Family, first.Index, first.Kind, d)
	}
	for _, id := range sortedKeys(total.Known) {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, total.Known[id])
	}
	for _, s := range inconclusive {
		if len(s) > 1500 {
			s = s[:1500]
		}
		fmt.Printf("INCONCLUSIVE: %s\n", s)
	}
	ev := writeEvidence(p, tier, seed, verif, total, violations, time.Since(start), len(inconclusive))
	if code == 0 {
		for _, n := range p.Need {
			if total.Counters[n] == 0 && scale == 1 && only == "" {
				fmt.Fprintf(os.Stderr, "the monitors observed no %q events: nothing was decided\n", n)
				return 2
			}
		}
		if total.Evaluations == 0 {
			fmt.Fprintln(os.Stderr, "the monitors observed nothing")
			return 2
		}
		fmt.Printf("OK property=%s evaluations=%d distinct_nontrivial=%d wall=%.1fs\n", p.ID, total.Evaluations, len(total.Nontrivial), time.Since(start).Seconds())
	}
	_ = ev
	return code
}

func famCount(p *Prop, fi int, tier string) int {
	if tier == "thorough" {
		return p.Families[fi].Thorough
	}
	return p.Families[fi].Quick
}

// confirm decides whether an abnormal end of a worker is due to the code under
// test: it must happen again in a fresh process, except for reports that are
// evidence by themselves.
func confirm(p *Prop, j job, tier string, seed int64, dir string, n int, o outcome, stop <-chan struct{}) outcome {
	c := o.crash
	if c.Kind == "harness" || c.Kind == "start" {
		return o
	}
	if c.Index < 0 {
		c.Kind = "inconclusive"
		return o
	}
	if c.Kind == "race" && strings.Contains(c.Detail, "github.com/zyedidia/gpeg/") {
		return o
	}
	if c.Kind == "hang" && strings.Contains(c.Detail, deadlockMark) {
		return o
	}
	again := spawn(p, job{j.fam, c.Index, c.Index + 1}, tier, seed, dir, fmt.Sprintf("o%dc", n), stop)
	if again.crash != nil && again.crash.Kind == c.Kind {
		again.crash.From, again.crash.To = 0, 0
		return again
	}
	again = spawn(p, job{j.fam, j.from, c.Index + 1}, tier, seed, dir, fmt.Sprintf("o%dd", n), stop)
	if again.crash != nil && again.crash.Kind == c.Kind {
		return again
	}
	if c.Kind == "crash" && strings.Contains(c.Detail, "github.com/zyedidia/gpeg/") && (strings.Contains(c.Detail, "fatal error:") || strings.Contains(c.Detail, "panic:")) {
		return o
	}
	c.Kind = "inconclusive"
	c.Detail = "ended abnormally but not again: " + c.Detail
	// run the rest of the batch, so that nothing is skipped silently
	return o
}

func merge(t, s *Stats) {
	t.Evaluations += s.Evaluations
	for k, v := range s.Counters {
		if strings.HasPrefix(k, "max:") {
			t.Counters[k] = max(t.Counters[k], v)
		} else {
			t.Counters[k] += v
		}
	}
	for _, h := range s.Hashes {
		t.Nontrivial[h] = struct{}{}
	}
	for k, v := range s.Known {
		t.Known[k] = v
	}
	fams := map[string]int{}
	for _, x := range t.Samples {
		fams[strings.SplitN(x, ":", 2)[0]]++
	}
	for _, x := range s.Samples {
		if f := strings.SplitN(x, ":", 2)[0]; fams[f] < 2 && len(t.Samples) < 24 {
			fams[f]++
			t.Samples = append(t.Samples, x)
		}
	}
}

func writeReplay(verif string, f *Failure) string {
	dir := filepath.Join(verif, "evidence", "replays")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", f.Property, f.Family, f.Index))
	b, _ := json.MarshalIndent(f, "", " ")
	os.WriteFile(path, b, 0o644)
	return path
}

func writeEvidence(p *Prop, tier string, seed int64, verif string, t *Stats, violations int, wall time.Duration, inconclusive int) map[string]any {
	samples := make([]any, 0)
	for _, s := range t.Samples {
		samples = append(samples, s)
	}
	observed := map[string]int64{}
	for k, v := range t.Counters {
		observed[k] = v
	}
	cov := map[string]any{
		"evaluations":         t.Evaluations,
		"distinct_nontrivial": len(t.Nontrivial),
		"rule":                p.Rule,
		"samples":             samples,
		"observed":            observed,
		"inconclusive":        inconclusive,
	}
	if p.Finish != nil {
		for k, v := range p.Finish(t.Counters) {
			cov[k] = v
		}
	}
	ev := map[string]any{
		"property":    p.ID,
		"tier":        tier,
		"seed":        seed,
		"level":       p.Level,
		"coverage":    cov,
		"assumptions": p.Assume,
		"wall_s":      wall.Seconds(),
		"violations":  violations,
	}
	if p.Assume == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(verif, "evidence", p.ID+".json"), append(b, '\n'), 0o644)
	return ev
}
