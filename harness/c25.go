package main

import (
	"bytes"
	"fmt"
	"math/rand/v2"
	"runtime"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"github.com/zyedidia/gpeg/memo"
)

// A tableOp is one operation on a memo table, with what it returned.
type tableOp struct {
	kind                                string // put, get, edit, size, all, pos, cap
	id, start, length, examined, serial int
	edit                                memo.Edit
	caps                                int
	// observed
	res      int
	list     string
	from, to int64 // when it was called and returned
	worker   int
}

func (o *tableOp) String() string {
	w := fmt.Sprintf("g%d [%d,%d] ", o.worker, o.from, o.to)
	switch o.kind {
	case "put":
		return w + fmt.Sprintf("put #%d(id %d, start %d, length %d, examined %d)", o.serial, o.id, o.start, o.length, o.examined)
	case "get":
		return w + fmt.Sprintf("get(id %d, pos %d) -> #%d", o.id, o.start, o.res)
	case "edit":
		return w + fmt.Sprintf("edit [%d,%d)->%d bytes", o.edit.Start, o.edit.End, o.edit.Len)
	case "size":
		return w + fmt.Sprintf("size -> %d", o.res)
	case "all":
		return w + "all -> " + o.list
	case "pos":
		return w + fmt.Sprintf("position of #%d -> %d", o.serial, o.res)
	}
	return w + fmt.Sprintf("start of the capture of #%d -> %d", o.serial, o.res)
}

// A tableState is a table with the entries obtained from it.
type tableState struct {
	tbl  *memo.TreeTable
	held map[int]*memo.Entry // entries by serial; not changed while concurrent
}

func serials(es []*memo.Entry) string {
	var l []int
	for _, e := range es {
		l = append(l, e.Count())
	}
	sort.Ints(l)
	return fmt.Sprint(l)
}

// do performs the operation and returns the observation.
func (o *tableOp) do(t *tableState) (res int, list string) {
	switch o.kind {
	case "put":
		var caps []*memo.Capture
		for i := 0; i < o.caps; i++ {
			caps = append(caps, memo.NewCaptureNode(i, o.start+i, 1, []*memo.Capture{memo.NewCaptureNode(9, o.start+i, 1, nil)}))
		}
		t.tbl.Put(o.id, o.start, o.length, o.examined, o.serial, caps)
	case "get":
		if e, ok := t.tbl.Get(o.id, o.start); ok {
			res = e.Count()
		}
	case "edit":
		t.tbl.ApplyEdit(o.edit)
	case "size":
		res = t.tbl.Size()
	case "all":
		list = serials(t.tbl.AllValues())
	case "pos":
		res = t.held[o.serial].Pos()
	case "cap":
		e := t.held[o.serial]
		res = -1
		if cs := e.Captures(); len(cs) > 0 {
			last := cs[len(cs)-1]
			res = last.Start()
			if ch := last.Child(0); ch != nil {
				// the child is at the same place, read later
				_ = ch.Start()
			}
		}
	}
	return
}

func randomPut(r *rand.Rand, serial, text int) *tableOp {
	o := &tableOp{kind: "put", serial: serial, id: r.IntN(2), start: r.IntN(text)}
	o.length = 1 + r.IntN(6)
	o.examined = o.length + r.IntN(3)
	if r.IntN(5) == 0 {
		o.length = -1
	}
	if o.length > 0 && r.IntN(2) == 0 {
		o.caps = 1 + r.IntN(2)
	}
	return o
}

// c25History records a history of a few concurrent operations and looks for an
// order in which a table used by nobody else gives the same results.
func c25History(c *C) {
	r := c.R
	threshold := []int{0, 0, 0, 3}[r.IntN(4)]
	text := 10 + r.IntN(20)
	var prefix []*tableOp
	serial := 0
	for i := r.IntN(10); i > 0; i-- {
		serial++
		prefix = append(prefix, randomPut(r, serial, text))
	}
	if r.IntN(3) == 0 && text > 12 {
		p := r.IntN(text)
		prefix = append(prefix, &tableOp{kind: "edit", edit: memo.Edit{Start: p, End: min(text, p+r.IntN(3)), Len: r.IntN(4)}})
	}
	fresh := func() *tableState {
		t := &tableState{tbl: memo.NewTreeTable(threshold), held: map[int]*memo.Entry{}}
		for _, o := range prefix {
			o.do(t)
		}
		for _, e := range t.tbl.AllValues() {
			t.held[e.Count()] = e
		}
		return t
	}
	live := fresh()
	var known []int
	for s := range live.held {
		known = append(known, s)
	}
	sort.Ints(known)
	workers := 2 + r.IntN(3)
	per := 2 + r.IntN(4)
	if workers*per > 12 {
		per = 12 / workers
	}
	ops := make([][]*tableOp, workers)
	var all []*tableOp
	total := 0
	for w := range ops {
		for i := 0; i < per; i++ {
			var o *tableOp
			switch k := r.IntN(12); {
			case k < 3:
				serial++
				o = randomPut(r, serial, text)
			case k < 6:
				o = &tableOp{kind: "get", id: r.IntN(2), start: r.IntN(text)}
				if n := len(all); n > 0 && r.IntN(2) == 0 {
					if p := all[r.IntN(n)]; p.kind == "put" {
						o.id, o.start = p.id, p.start
					}
				} else if len(prefix) > 0 && r.IntN(2) == 0 {
					p := prefix[r.IntN(len(prefix))]
					o.id, o.start = p.id, p.start
				}
			case k < 9:
				p := r.IntN(text)
				o = &tableOp{kind: "edit", edit: memo.Edit{Start: p, End: p + r.IntN(3), Len: r.IntN(5)}}
			case k < 10:
				o = &tableOp{kind: "size"}
			case k < 11 || len(known) == 0:
				o = &tableOp{kind: "all"}
			default:
				o = &tableOp{kind: []string{"pos", "cap"}[r.IntN(2)], serial: known[r.IntN(len(known))]}
			}
			o.worker = w
			ops[w] = append(ops[w], o)
			all = append(all, o)
			total++
		}
	}
	base := time.Now()
	spins := make([]int, workers)
	for w := range spins {
		spins[w] = r.IntN(200)
	}
	yields := r.IntN(2) == 0
	msg := together(workers, func(w int) string {
		for i := 0; i < spins[w]; i++ {
			_ = i
		}
		for _, o := range ops[w] {
			from := time.Since(base)
			o.res, o.list = o.do(live)
			o.from, o.to = int64(from), int64(time.Since(base))
			if yields {
				runtime.Gosched()
			}
		}
		return ""
	})
	if msg != "" {
		c.Fail("%s during concurrent operations on a table", msg)
	}
	c.Eval()
	// what the table looks like when all is done
	last := &tableOp{kind: "all", from: 1 << 60, to: 1 << 61, worker: workers}
	_, last.list = last.do(live)
	count := &tableOp{kind: "size", from: 1 << 61, to: 1 << 62, worker: workers}
	count.res, _ = count.do(live)
	var after []*tableOp
	for _, e := range live.tbl.AllValues() {
		live.held[e.Count()] = e
		o := &tableOp{kind: "pos", serial: e.Count(), worker: workers}
		o.res, _ = o.do(live)
		after = append(after, o)
	}
	overlap := 0
	for i, a := range all {
		for _, b := range all[i+1:] {
			if a.worker != b.worker && a.from <= b.to && b.from <= a.to {
				overlap++
			}
		}
	}
	c.Event("pairs of overlapping operations", overlap)
	if overlap > 0 {
		c.Event("histories with overlapping operations", 1)
	}
	// search
	order := make([]*tableOp, 0, total)
	tried := 0
	var search func(next []int) bool
	replay := func() bool {
		tried++
		t := fresh()
		for i, o := range order {
			dead := false
			if o.kind == "pos" || o.kind == "cap" {
				// positions of entries no longer in the table mean nothing
				dead = true
				for _, e := range t.tbl.AllValues() {
					dead = dead && e.Count() != o.serial
				}
			}
			res, list := o.do(t)
			if i == len(order)-1 && !dead && (res != o.res || list != o.list) {
				return false
			}
		}
		if len(order) < total {
			return true
		}
		if _, list := last.do(t); list != last.list {
			return false
		}
		if n, _ := count.do(t); n != count.res {
			return false
		}
		for _, e := range t.tbl.AllValues() {
			t.held[e.Count()] = e
		}
		for _, o := range after {
			if n, _ := o.do(t); n != o.res {
				return false
			}
		}
		return true
	}
	search = func(next []int) bool {
		if len(order) == total {
			return true
		}
		if tried > 30000 {
			return true
		}
		// an operation can be next if none that is left returned before it was called
		first := int64(1 << 62)
		for w, i := range next {
			if i < per {
				first = min(first, ops[w][i].to)
			}
		}
		// by the time of return, the likeliest first
		cand := []int{}
		for w, i := range next {
			if i < per && ops[w][i].from <= first {
				cand = append(cand, w)
			}
		}
		sort.Slice(cand, func(a, b int) bool { return ops[cand[a]][next[cand[a]]].to < ops[cand[b]][next[cand[b]]].to })
		for _, w := range cand {
			order = append(order, ops[w][next[w]])
			if replay() {
				next[w]++
				if search(next) {
					return true
				}
				next[w]--
			}
			order = order[:len(order)-1]
		}
		return false
	}
	ok := search(make([]int, workers))
	if tried > 30000 {
		c.Event("histories given up", 1)
		return
	}
	var b strings.Builder
	inOrder := true
	for i, o := range order {
		fmt.Fprintf(&b, "%d%s ", o.worker, o.kind)
		inOrder = inOrder && (i == 0 || order[i-1].to <= o.to)
	}
	c.Nontrivial(b.String())
	if ok {
		c.Event("histories explained", 1)
	}
	c.Max("candidate orders replayed", tried)
	if !inOrder {
		c.Event("explained in another order than that of returning", 1)
	}
	if !ok {
		sort.Slice(all, func(i, j int) bool { return all[i].from < all[j].from })
		var l []string
		for _, o := range prefix {
			l = append(l, "before: "+o.String())
		}
		for _, o := range append(append(all, last, count), after...) {
			l = append(l, o.String())
		}
		c.Fail("no order of these operations explains what they returned (threshold %d):\n%s", threshold, strings.Join(l, "\n"))
	}
	c.Sample("%d workers, %d operations each on %d entries", workers, per, len(known))
}

// c25Stress works on a large table: several goroutines record, look up, read
// positions, enumerate; one inserts text in front of everything.
func c25Stress(c *C) {
	r := c.R
	tbl := memo.NewTreeTable(0)
	const span = 1000000
	type want struct{ id, serial, start int }
	workers := 3 + r.IntN(3)
	per := 60 + r.IntN(120)
	shifts := r.IntN(40)
	amount := 1 + r.IntN(5)
	pre := r.IntN(300)
	for i := 0; i < pre; i++ {
		tbl.Put(99, 100+i*7, 3, 4, 1000000+i, []*memo.Capture{memo.NewCaptureNode(1, 101+i*7, 1, nil)})
	}
	seeds := make([]uint64, workers+1)
	for i := range seeds {
		seeds[i] = r.Uint64()
	}
	var puts, gets, reads atomic.Int64
	editor := shifts > 0
	early := tbl.AllValues()
	msg := together(workers+1, func(w int) string {
		rr := rand.New(rand.NewPCG(seeds[w], 7))
		if w == workers {
			for i := 0; i < shifts; i++ {
				tbl.ApplyEdit(memo.Edit{Start: 0, End: 0, Len: amount})
				if rr.IntN(3) == 0 {
					runtime.Gosched()
				}
			}
			return ""
		}
		n, g, rd := int64(0), int64(0), int64(0)
		defer func() { puts.Add(n); gets.Add(g); reads.Add(rd) }()
		size := tbl.Size()
		var mine []want
		var held []*memo.Entry
		lastPos := map[*memo.Entry]int{}
		for i := 0; i < per; i++ {
			switch rr.IntN(7) {
			case 0, 1, 2:
				x := want{w, w*100000 + i, span*(w+1) + rr.IntN(1000)*10}
				var caps []*memo.Capture
				if rr.IntN(2) == 0 {
					caps = append(caps, memo.NewCaptureNode(5, x.start+1, 2, nil))
				}
				// the longer it is, the larger: the newest wins
				tbl.Put(x.id, x.start, 5+i, 6+i, x.serial, caps)
				n++
				if !editor {
					e, ok := tbl.Get(x.id, x.start)
					if !ok || e.Count() != x.serial || e.Pos() != x.start {
						return fmt.Sprintf("goroutine %d did not find the entry it had just recorded at %d", w, x.start)
					}
					held = append(held, e)
				}
				mine = append(mine, x)
			case 3:
				s := tbl.Size()
				if s < size {
					return fmt.Sprintf("size fell from %d to %d though nothing was removed", size, s)
				}
				size = s
			case 4:
				all := tbl.AllValues()
				if len(all) < size {
					return fmt.Sprintf("%d entries enumerated after the size was %d and nothing was removed", len(all), size)
				}
				size = len(all)
				held = append(held, all[rr.IntN(max(1, len(all))):min(len(all), 2000)]...)
				if len(held) > 50 {
					held = held[len(held)-50:]
				}
			case 5:
				if len(mine) > 0 && !editor {
					x := mine[rr.IntN(len(mine))]
					if _, ok := tbl.Get(x.id, x.start); !ok {
						return "an entry recorded earlier was not found"
					}
					g++
				} else {
					tbl.Get(rr.IntN(workers), span+rr.IntN(span))
					g++
				}
			default:
				es := held
				if len(es) == 0 {
					es = early
				}
				if len(es) == 0 {
					continue
				}
				e := es[rr.IntN(len(es))]
				a := e.Pos()
				cs := -1
				if len(e.Captures()) > 0 {
					cs = e.Captures()[0].Start()
				}
				b := e.Pos()
				rd++
				if a > b || cs >= 0 && (cs-1 < a || cs-1 > b) {
					return fmt.Sprintf("an entry was at %d, its capture (one byte after its start) at %d, then the entry at %d, while text was only inserted before it", a, cs, b)
				}
				if b < lastPos[e] {
					return fmt.Sprintf("an entry moved back from %d to %d while text was only inserted before it", lastPos[e], b)
				}
				lastPos[e] = b
			}
		}
		return ""
	})
	c.Eval()
	if msg != "" {
		c.Fail("%s", msg)
	}
	if n := tbl.Size(); n != pre+int(puts.Load()) {
		c.Fail("%d entries were recorded and none removed; the table has %d", pre+int(puts.Load()), n)
	}
	if n := len(tbl.AllValues()); n != pre+int(puts.Load()) {
		c.Fail("%d entries were recorded and none removed; %d are enumerated", pre+int(puts.Load()), n)
	}
	for i := 0; i < pre; i++ {
		p := 100 + i*7 + shifts*amount
		e, ok := tbl.Get(99, p)
		if !ok || e.Count() != 1000000+i || e.Pos() != p || e.Captures()[0].Start() != p+1 {
			c.Fail("after %d insertions of %d bytes the entry recorded at %d is not found at %d as it was recorded", shifts, amount, 100+i*7, p)
		}
	}
	c.Event("entries recorded concurrently", int(puts.Load()))
	c.Event("concurrent lookups", int(gets.Load()))
	c.Event("concurrent position reads", int(reads.Load()))
	c.Nontrivial("stress", fmt.Sprint(c.Idx))
}

// c25Parses has several goroutines parse one text with one table.
func c25Parses(c *C) {
	w := memoWeights(c)
	w[KCheck], w[KError] = 0, 0
	g := newGen(c.R, w)
	var base *Spec
	if c.R.IntN(2) == 0 {
		base = g.grammar(1+c.R.IntN(4), 10+c.R.IntN(20))
	} else {
		base = g.pattern(8 + c.R.IntN(16))
	}
	s := memoized(c.R, base, 2+c.R.IntN(3))
	c.Note("pattern: %s", clip(s.String(), 3000))
	code, err := compileSpec((&Builder{R: c.R}).Build(s))
	if err != nil {
		c.Fail("refused: %v", err)
	}
	for i := 0; i < 4; i++ {
		var in []byte
		for k := 0; k < 1+c.R.IntN(6); k++ {
			in = append(in, g.input(base, 60)...)
		}
		if _, _, ok := interpret(base, in, interpLimit); !ok {
			continue
		}
		want := execPlain(code, bytes.NewReader(in), memo.NoneTable{})
		tbl := memo.NewTreeTable([]int{0, 0, 2}[c.R.IntN(3)])
		workers := 2 + c.R.IntN(3)
		msg := together(workers, func(w int) string {
			for k := 0; k < 2; k++ {
				got := execPlain(code, bytes.NewReader(in), tbl)
				if d := diffMemo(&want, &got); d != "" {
					return fmt.Sprintf("%s differs when several goroutines parse with one table\npattern: %s\ninput: %s\nalone: %s\ntogether: %s", d, clip(s.String(), 2000), quote(in), clip(want.String(), 1000), clip(got.String(), 1000))
				}
			}
			return ""
		})
		c.Eval()
		c.Event("parses sharing a table", workers*2)
		if msg != "" {
			c.Fail("%s", msg)
		}
		c.Nontrivial(s.String(), string(in))
	}
}

func init() {
	register(&Prop{
		ID:   "C25",
		Race: true,
		Rule: "an execution is one history of concurrent operations on a table, watched by the race detector and explained by a sequential order of the same operations on a table of its own; distinct non-trivial ones differ in the order that explains them",
		Assume: []string{
			"the table is correct when used by one goroutine (C06, C07 decide that)",
			"positions of entries that an edit has removed mean nothing",
			"the monotonic clock is consistent between cores",
		},
		Families: []Family{
			{Name: "histories", Quick: 28000, Thorough: 840000, Batch: 500, Run: c25History},
			{Name: "stress", Quick: 720, Thorough: 21000, Batch: 20, Run: c25Stress},
			{Name: "parses", Quick: 1800, Thorough: 54000, Batch: 100, Run: c25Parses},
		},
		Need: []string{"histories with overlapping operations", "histories explained", "entries recorded concurrently", "concurrent lookups", "concurrent position reads", "parses sharing a table"},
	})
}
