package main

import (
	"fmt"
	"strings"

	"github.com/zyedidia/gpeg/memo"
	"github.com/zyedidia/gpeg/memo/interval"
	"github.com/zyedidia/gpeg/memo/interval/lazy"
	"github.com/zyedidia/gpeg/memo/interval/lazylog"
)

// What the model knows about a recorded entry or interval.
const (
	sure  = iota // present: every edit stayed clear of it
	maybe        // an edit came so close that it may or may not be present
	dead         // an edit reached it
)

// A tcap is the model of a capture node.
type tcap struct {
	c     *memo.Capture
	off   int // offset from the start of the entry it was made for
	len   int
	kids  []*tcap
	id    int
	dummy bool
}

// A tent is the model of a table entry.
type tent struct {
	serial   int
	id       int
	start    int // moves with edits
	length   int
	examined int
	caps     []tref
	state    int
}

type tref struct {
	t     *tcap
	delta int // offset of the capture's own base from the start of the entry
}

func (e *tent) String() string {
	return fmt.Sprintf("#%d(id %d, start %d, length %d, examined %d, %s)", e.serial, e.id, e.start, e.length, e.examined, [...]string{"present", "near an edit", "edited"}[e.state])
}

// A tableRun drives a TreeTable and its model.
type tableRun struct {
	c          *C
	tbl        *memo.TreeTable
	threshold  int
	ents       []*tent
	bySerial   map[int]*tent
	byPtr      map[*memo.Entry]*tent
	textLen    int
	ids        int
	idSet      int
	invalidate bool // decide C06
	survive    bool // decide C07
	log        []string
	edits      int
	scale      int  // texts and edits are up to this much longer than usual
	window     int  // if positive, edits fall into so many bytes
	corner     int  // where the window begins
	stay       bool // no edit leaves the window
}

// wide makes a length longer, if texts are to be long.
func (t *tableRun) wide(n int) int {
	if t.scale > 1 && t.c.R.IntN(2) == 0 {
		return n*t.scale - t.c.R.IntN(min(t.scale, 1<<20))*min(n, 1)
	}
	return n
}

func (t *tableRun) note(format string, args ...any) {
	t.log = append(t.log, fmt.Sprintf(format, args...))
	if len(t.log) > 4000 {
		t.log = t.log[2000:]
	}
}

func (t *tableRun) fail(format string, args ...any) {
	tail := t.log
	if len(tail) > 120 {
		tail = append([]string{fmt.Sprintf("... %d earlier operations", len(t.log)-120)}, tail[len(t.log)-120:]...)
	}
	t.c.Fail("%s\noperations: %s", fmt.Sprintf(format, args...), strings.Join(tail, "; "))
}

func (t *tableRun) makeCap(start, limit, depth int) *tcap {
	r := t.c.R
	off := r.IntN(limit + 1)
	n := r.IntN(limit - off + 1)
	tc := &tcap{off: off, len: n, id: r.IntN(100)}
	var kids []*memo.Capture
	if depth > 0 {
		for k := r.IntN(3); k > 0; k-- {
			kc := t.makeCap(start+off, n, depth-1)
			kc.off += off
			shift(kc.kids, off)
			tc.kids = append(tc.kids, kc)
			kids = append(kids, kc.c)
		}
	}
	if depth > 0 && len(kids) > 0 && r.IntN(4) == 0 {
		tc.dummy = true
		tc.c = memo.NewCaptureDummy(start+off, n, kids)
	} else {
		tc.c = memo.NewCaptureNode(tc.id, start+off, n, kids)
	}
	return tc
}

// idSets are the ids that the numbers of rules stand for.
var idSets = [][]int{
	{0, 1, 2, 3, 4},
	{0, 1, 2, 3, 4},
	{1, 257, 513, 2, 258},
	{0, 256, 512, 1 << 10, 1 << 14},
	{-1, 255, -256, 32767, -32768},
	{7, 7 + 1<<16, 7 - 1<<16, 7 + 1<<32, -7},
}

func (t *tableRun) real(id int) int { return idSets[t.idSet][id] }

func shift(kids []*tcap, off int) {
	for _, k := range kids {
		k.off += off
		shift(k.kids, off)
	}
}

// put records an entry. Captures of entries inside it are sometimes shared, as
// nested memoized rules do.
func (t *tableRun) put() {
	r := t.c.R
	e := &tent{serial: len(t.bySerial) + 1, id: r.IntN(t.ids)}
	e.start = r.IntN(t.textLen + 1)
	room := t.textLen - e.start
	var inner *tent
	if len(t.ents) > 0 && r.IntN(3) == 0 {
		// around, equal to or next to an existing entry
		in := t.ents[r.IntN(len(t.ents))]
		if in.state != dead {
			switch r.IntN(3) {
			case 0:
				e.start, e.id = in.start, in.id
			case 1:
				e.start = max(0, in.start-r.IntN(4))
				inner = in
			default:
				e.start = min(t.textLen, in.start+in.examined)
			}
			room = t.textLen - e.start
		}
	}
	switch r.IntN(6) {
	case 0:
		e.length = -1
	case 1:
		if room > 0 {
			e.length = 1 + r.IntN(room)
		}
	default:
		if room > 0 {
			e.length = min(room, t.wide(1+r.IntN(min(room, 12))))
		}
	}
	if inner != nil && inner.state == sure && inner.length > 0 && e.start+e.length < inner.start+inner.length {
		e.length = inner.start + inner.length - e.start
	}
	e.examined = max(e.length, 0) + []int{0, 1, 1, 2, r.IntN(10)}[r.IntN(5)]
	if e.examined == 0 {
		e.examined = 1
	}
	if inner != nil && inner.state == sure && len(inner.caps) > 0 && e.length > 0 {
		e.examined = max(e.examined, inner.start+inner.examined-e.start)
		for _, rf := range inner.caps {
			e.caps = append(e.caps, tref{rf.t, rf.delta + inner.start - e.start})
		}
	}
	if e.length > 0 && r.IntN(2) == 0 {
		for k := 1 + r.IntN(3); k > 0; k-- {
			e.caps = append(e.caps, tref{t.makeCap(e.start, e.length, 2), 0})
		}
	}
	var caps []*memo.Capture
	for _, rf := range e.caps {
		caps = append(caps, rf.t.c)
	}
	if e.length == 0 || e.examined < t.threshold {
		// the table may leave these out
		e.state = maybe
	}
	t.note("put %v", e)
	t.c.Event("insertions", 1)
	t.tbl.Put(t.real(e.id), e.start, e.length, e.examined, e.serial, caps)
	t.ents = append(t.ents, e)
	t.bySerial[e.serial] = e
}

// edit applies an edit to the table and to the model.
func (t *tableRun) edit() {
	r := t.c.R
	n := t.textLen
	s := r.IntN(n + 1)
	if len(t.ents) > 0 && r.IntN(2) == 0 {
		e := t.ents[r.IntN(len(t.ents))]
		s = []int{e.start, e.start + e.examined, e.start + max(e.length, 0)}[r.IntN(3)] + r.IntN(9) - 4
		s = max(0, min(n, s))
	}
	if t.window > 0 && (t.stay || r.IntN(40) > 0) {
		s = min(n, t.corner+r.IntN(t.window))
	}
	end := s
	switch r.IntN(4) {
	case 0:
		end = min(n, s+1)
	case 1:
		end = min(n, s+t.wide(1+r.IntN(6)))
	case 2:
		if r.IntN(4) == 0 {
			end = s + r.IntN(n-s+1)
		}
	}
	if t.window > 0 && (t.stay || r.IntN(40) > 0) {
		end = min(end, s+t.window)
	}
	ins := 0
	switch r.IntN(4) {
	case 0:
		ins = end - s
	case 1:
		ins = t.wide(1 + r.IntN(3))
	case 2:
		ins = t.wide(r.IntN(30))
	}
	t.note("edit [%d,%d)->%d bytes", s, end, ins)
	t.c.Event("edits", 1)
	t.edits++
	t.tbl.ApplyEdit(memo.Edit{Start: s, End: end, Len: ins})
	amt := ins - (end - s)
	t.textLen += amt
	for _, e := range t.ents {
		if e.state == dead {
			continue
		}
		a, b := e.start, e.start+e.examined
		reached := false
		if end > s {
			reached = s < b && end > a
		} else if ins > 0 {
			reached = a < s && s < b
		}
		switch {
		case reached:
			e.state = dead
			t.c.Event("entries edited", 1)
		case b+2 <= s || end+2 <= a:
			t.c.Event("entries kept by an edit", 1)
		default:
			if e.state == sure {
				t.c.Event("entries next to an edit", 1)
			}
			e.state = maybe
		}
		if e.state != dead && a >= s {
			e.start += amt
		}
	}
}

// check decides what a lookup returned.
func (t *tableRun) lookup(id, pos int) {
	got, ok := t.tbl.Get(t.real(id), pos)
	t.c.Eval()
	t.c.Event("lookups", 1)
	if ok && got == nil {
		t.fail("lookup of id %d at %d: found, but no entry", id, pos)
	}
	if ok {
		e := t.bySerial[got.Count()]
		t.c.Event("lookups that found an entry", 1)
		if e == nil {
			t.fail("lookup of id %d at %d returned an entry that was never recorded (count %d)", id, pos, got.Count())
		}
		if t.invalidate {
			if e.state == dead {
				t.fail("lookup of id %d at %d returned %v although an edit has reached the text it examined", id, pos, e)
			}
			if e.id != id || e.start != pos {
				t.fail("lookup of id %d at %d returned %v", id, pos, e)
			}
		}
		if t.survive && e.state != dead {
			t.content(got, e, "found by lookup")
		}
	}
	if t.survive {
		// the largest of those present
		var best, bestEx *tent
		for _, e := range t.ents {
			if e.state == sure && e.id == id && e.start == pos {
				if best == nil || e.length > best.length {
					best = e
				}
				if bestEx == nil || e.examined > bestEx.examined {
					bestEx = e
				}
			}
		}
		if best == nil {
			return
		}
		t.c.Event("lookups of surviving entries", 1)
		if !ok {
			t.fail("lookup of id %d at %d found nothing; %v survives there", id, pos, best)
		}
		e := t.bySerial[got.Count()]
		if e.state == sure && e.length < best.length && e.examined < bestEx.examined {
			t.fail("lookup of id %d at %d returned %v, not the largest entry there (%v)", id, pos, e, best)
		}
	}
}

// content compares a returned entry with what was recorded.
func (t *tableRun) content(got *memo.Entry, e *tent, how string) {
	if got.Length() != e.length || got.Count() != e.serial || got.Examined() != e.examined {
		t.fail("entry %s has length %d, examined %d, count %d; recorded was %v", how, got.Length(), got.Examined(), got.Count(), e)
	}
	if e.state != sure {
		return
	}
	if p := got.Pos(); p != e.start {
		t.fail("entry %s reports position %d; it is %v", how, p, e)
	}
	cs := got.Captures()
	if len(cs) != len(e.caps) {
		t.fail("entry %s has %d captures, %d were recorded: %v", how, len(cs), len(e.caps), e)
	}
	for i, rf := range e.caps {
		if cs[i] != rf.t.c {
			t.fail("entry %s: capture %d is not the recorded one: %v", how, i, e)
		}
		t.capture(cs[i], rf.t, e.start+rf.delta, e)
	}
}

func (t *tableRun) capture(c *memo.Capture, m *tcap, base int, e *tent) {
	t.c.Event("captures checked", 1)
	if c.Start() != base+m.off || c.Len() != m.len || c.End() != base+m.off+m.len || (!m.dummy && c.Id() != m.id) || c.Dummy() != m.dummy {
		t.fail("a capture of %v is at [%d,%d), it belongs at [%d,%d)", e, c.Start(), c.End(), base+m.off, base+m.off+m.len)
	}
	var want []*tcap
	var flat func(ks []*tcap)
	flat = func(ks []*tcap) {
		for _, k := range ks {
			if k.dummy {
				flat(k.kids)
			} else {
				want = append(want, k)
			}
		}
	}
	flat(m.kids)
	it := c.ChildIterator(0)
	i := 0
	for ch := it(); ch != nil; ch = it() {
		if i >= len(want) || want[i].c != ch {
			t.fail("a capture of %v lists a child that was not recorded", e)
		}
		t.capture(ch, want[i], base, e)
		i++
	}
	if i != len(want) {
		t.fail("a capture of %v lists %d children, %d were recorded", e, i, len(want))
	}
}

func (t *tableRun) lookups(n int) {
	r := t.c.R
	for ; n > 0; n-- {
		if len(t.ents) > 0 && r.IntN(4) > 0 {
			e := t.ents[r.IntN(len(t.ents))]
			id, pos := e.id, e.start
			switch r.IntN(8) {
			case 0:
				pos += r.IntN(7) - 3
			case 1:
				id = r.IntN(t.ids)
			}
			t.lookup(id, pos)
		} else {
			t.lookup(r.IntN(t.ids), r.IntN(t.textLen+2))
		}
	}
}

func (t *tableRun) enumerate() {
	vals := t.tbl.AllValues()
	t.c.Eval()
	t.c.Event("enumerations", 1)
	seen := map[int]bool{}
	for _, v := range vals {
		e := t.bySerial[v.Count()]
		if e == nil {
			t.fail("the table lists an entry that was never recorded (count %d)", v.Count())
		}
		if t.invalidate && e.state == dead {
			t.fail("the table lists %v although an edit has reached the text it examined", e)
		}
		if t.survive {
			if seen[e.serial] {
				t.fail("the table lists %v twice", e)
			}
			if e.state != dead {
				t.content(v, e, "listed")
			}
		}
		seen[e.serial] = true
	}
	if t.survive {
		lo, hi := 0, 0
		for _, e := range t.ents {
			if e.state == sure {
				if !seen[e.serial] {
					t.fail("the table does not list %v", e)
				}
				lo++
			}
			if e.state != dead {
				hi++
			}
		}
		if len(vals) < lo || len(vals) > hi {
			t.fail("the table lists %d entries; between %d and %d survive", len(vals), lo, hi)
		}
	}
	// the list is the caller's
	if t.c.R.IntN(2) == 0 {
		clear(vals)
	}
}

func (t *tableRun) size() {
	n := t.tbl.Size()
	t.c.Eval()
	lo, hi := 0, 0
	for _, e := range t.ents {
		if e.state == sure {
			lo++
		}
		if e.state != dead {
			hi++
		}
	}
	t.c.Event("size queries", 1)
	if n < lo || n > hi {
		t.fail("the size of the table is %d; between %d and %d entries survive", n, lo, hi)
	}
}

// everything looks up every entry ever recorded, in random order.
func (t *tableRun) everything() {
	for _, i := range t.c.R.Perm(len(t.ents)) {
		t.lookup(t.ents[i].id, t.ents[i].start)
	}
	if t.textLen <= 60 {
		for pos := 0; pos <= t.textLen+1; pos++ {
			for id := 0; id < t.ids; id++ {
				t.lookup(id, pos)
			}
		}
	}
	t.enumerate()
	if t.survive {
		t.size()
	}
}

func tableCase(c *C, invalidate, survive bool, size int) {
	tableRunCase(c, &tableRun{c: c, bySerial: map[int]*tent{}, invalidate: invalidate, survive: survive, scale: 1}, size)
}

// tableWide is a history with long texts and edits, or with many edits in a
// small part of the text.
func tableWide(c *C, invalidate, survive bool) {
	t := &tableRun{c: c, bySerial: map[int]*tent{}, invalidate: invalidate, survive: survive, scale: 1}
	size := 60
	if c.R.IntN(3) > 0 {
		t.scale = []int{100, 3000, 1 << 14, 1 << 16, 1 << 24, 1 << 33}[c.R.IntN(6)]
	}
	if c.R.IntN(3) > 0 {
		size = []int{300, 1500, 4000}[c.R.IntN(3)]
		t.window = 1 + c.R.IntN(12)
		t.corner = c.R.IntN(60)
	}
	tableRunCase(c, t, size)
}

func tableRunCase(c *C, t *tableRun, size int) {
	r := c.R
	survive := t.survive
	if r.IntN(5) == 0 {
		t.threshold = r.IntN(6)
	}
	t.tbl = memo.NewTreeTable(t.threshold)
	t.textLen = []int{5, 20, 50, 200, 2000}[r.IntN(5)] * t.scale
	t.ids = 1 + r.IntN(4)
	t.idSet = r.IntN(len(idSets))
	steps := 5 + r.IntN(size)
	// how much is inserted, edited and observed; observing makes the table
	// apply pending shifts, so that some cases observe only at the end
	wPut, wEdit := 1+r.IntN(8), 1+r.IntN(6)
	wLook := []int{0, 0, 1, 4, 10}[r.IntN(5)]
	wAll := []int{0, 0, 0, 1}[r.IntN(4)]
	c.Sample("%d operations, weights put %d, edit %d, lookup %d, enumerate %d, text of %d bytes, %d ids, threshold %d", steps, wPut, wEdit, wLook, wAll, t.textLen, t.ids, t.threshold)
	burst := r.IntN(3) == 0
	for i := 0; i < steps; i++ {
		switch n := r.IntN(wPut + wEdit + wLook + wAll); {
		case n < wPut:
			t.put()
			if burst {
				for k := r.IntN(20); k > 0; k-- {
					t.put()
				}
			}
		case n < wPut+wEdit:
			t.edit()
		case n < wPut+wEdit+wLook:
			t.lookups(1 + r.IntN(3))
		default:
			if r.IntN(2) == 0 {
				t.enumerate()
			} else if survive {
				t.size()
			}
		}
	}
	if t.window > 0 && r.IntN(6) == 0 {
		// many edits, while nobody looks anywhere else
		t.stay = true
		n := []int{1500, 3500, 6000, 11000}[r.IntN(4)]
		for k := 0; k < n; k++ {
			t.edit()
		}
		t.stay = false
		c.Max("edits in one place", n)
	}
	t.everything()
	if survive && t.edits > 0 {
		// positions do not change by looking
		t.everything()
	}
	c.Max("entries in a table", len(t.ents))
	if t.edits > 0 && len(t.ents) > 2 {
		c.Nontrivial(strings.Join(t.log, ";"))
	}
}

// An ival is the model of an interval in a map.
type ival struct {
	id, low, high int
	val           int
	pos           interval.Pos
	state         int
	past          []int // positions it has moved from
}

func mapCase(c *C, kind string, size int) { mapWide(c, kind, size, 1, 0) }

// mapWide scales the coordinates, and restricts most edits to a few places if
// window is positive.
func mapWide(c *C, kind string, size, scale, window int) {
	r := c.R
	wide := func(n int) int {
		if scale > 1 && r.IntN(2) == 0 {
			return n*scale - r.IntN(min(scale, 1<<20))*min(n, 1)
		}
		return n
	}
	corner := 0
	if window > 0 {
		corner = r.IntN(60)
	}
	var m interval.Map
	var tree *lazylog.Tree
	switch kind {
	case "lazylog.Tree":
		tree = &lazylog.Tree{}
		m = tree
	case "lazy.Tree":
		m = mapOnly{&lazy.Tree{}}
	case "lazy.Array":
		m = mapOnly{&lazy.Array{}}
	}
	var ivs []*ival
	var log []string
	fail := func(format string, args ...any) {
		tail := log
		if len(tail) > 150 {
			tail = tail[len(tail)-150:]
		}
		c.Fail("%s: %s\noperations (%d): %s", kind, fmt.Sprintf(format, args...), len(log), strings.Join(tail, "; "))
	}
	span := []int{6, 12, 40, 200, 5000}[r.IntN(5)] * scale
	maxLen := 1 + r.IntN([]int{3, 10, 100}[r.IntN(3)])
	ids := 1 + r.IntN(5)
	real := idSets[r.IntN(len(idSets))]
	find := func(id, pos int) {
		v := m.FindLargest(real[id], pos)
		c.Eval()
		c.Event("lookups", 1)
		best := -1
		sureThere := false
		okv := false
		for _, iv := range ivs {
			if iv.state == dead || iv.id != id || iv.low != pos {
				continue
			}
			if iv.state == sure {
				sureThere = true
				best = max(best, iv.high)
			}
		}
		if v == nil {
			if sureThere {
				fail("lookup of id %d at %d found nothing, but a live interval starts there", id, pos)
			}
			return
		}
		c.Event("lookups that found an interval", 1)
		for _, iv := range ivs {
			if iv.val == v.(int) {
				okv = true
				if iv.state == dead {
					fail("lookup of id %d at %d returned the value %d of an interval that an edit had reached", id, pos, iv.val)
				}
				if iv.id != id || iv.low != pos {
					fail("lookup of id %d at %d returned the value %d of [%d,%d) with id %d", id, pos, iv.val, iv.low, iv.high, iv.id)
				}
				if iv.high < best {
					fail("lookup of id %d at %d returned [%d,%d); the largest one there ends at %d", id, pos, iv.low, iv.high, best)
				}
				iv.state = sure // it is there
			}
		}
		if !okv {
			fail("lookup of id %d at %d returned the unknown value %v", id, pos, v)
		}
	}
	position := func(iv *ival) {
		if iv.state != sure {
			return
		}
		c.Eval()
		c.Event("positions read", 1)
		if p := iv.pos.Pos(); p != iv.low {
			fail("the interval with value %d reports position %d; it is at %d", iv.val, p, iv.low)
		}
	}
	count := func() {
		lo, hi := 0, 0
		for _, iv := range ivs {
			if iv.state == sure {
				lo++
			}
			if iv.state != dead {
				hi++
			}
		}
		c.Eval()
		if n := m.Size(); n < lo || n > hi {
			fail("size %d; there are between %d and %d intervals", n, lo, hi)
		}
		if tree == nil {
			return
		}
		seen := map[int]bool{}
		vals := tree.AllValues()
		for _, v := range vals {
			if seen[v.(int)] {
				fail("value %v is listed twice", v)
			}
			seen[v.(int)] = true
		}
		// the list is the caller's
		if r.IntN(2) == 0 {
			clear(vals)
		}
		for _, iv := range ivs {
			if iv.state == sure && !seen[iv.val] {
				fail("value %d is not listed", iv.val)
			}
			if iv.state == dead && seen[iv.val] {
				fail("value %d is listed although an edit had reached its interval", iv.val)
			}
		}
		c.Event("enumerations", 1)
		if n := m.Size(); n < lo || n > hi {
			fail("size %d after an enumeration; there are between %d and %d intervals", n, lo, hi)
		}
		if len(vals) > 0 && r.IntN(4) == 0 {
			for i, v := range tree.AllValues() {
				if v == nil {
					fail("value %d of a second enumeration is nil", i)
				}
			}
		}
	}
	steps := 5 + r.IntN(size)
	wAdd, wEdit := 1+r.IntN(8), 1+r.IntN(6)
	wFind := []int{0, 0, 1, 4, 10}[r.IntN(5)]
	wPos := []int{0, 0, 0, 1, 5}[r.IntN(5)]
	wCount := r.IntN(2)
	edits := 0
	total := steps
	if window > 0 && r.IntN(6) == 0 {
		// many edits, while nobody looks anywhere else
		total += []int{1500, 3500, 6000, 11000}[r.IntN(4)]
	}
	for i := 0; i < total; i++ {
		n := r.IntN(wAdd + wEdit + wFind + wPos + wCount)
		stay := i >= steps
		if stay {
			n = wAdd
		}
		switch {
		case n < wAdd:
			low := r.IntN(span)
			high := low + wide(1+r.IntN(maxLen))
			id := r.IntN(ids)
			if len(ivs) > 0 && r.IntN(5) == 0 {
				o := ivs[r.IntN(len(ivs))]
				id, low = o.id, o.low
				high = low + wide(1+r.IntN(maxLen))
			}
			iv := &ival{id: id, low: low, high: high, val: len(ivs) + 1}
			log = append(log, fmt.Sprintf("add %d: id %d [%d,%d)", iv.val, id, low, high))
			iv.pos = m.Add(real[id], low, high, iv.val)
			ivs = append(ivs, iv)
			c.Event("insertions", 1)
		case n < wAdd+wEdit:
			low := r.IntN(span + 2)
			if len(ivs) > 0 && r.IntN(2) == 0 {
				o := ivs[r.IntN(len(ivs))]
				low = max(0, []int{o.low, o.high}[r.IntN(2)]+r.IntN(7)-3)
			}
			if window > 0 && (stay || r.IntN(40) > 0) {
				low = corner + r.IntN(window)
			}
			high := low + wide(1+r.IntN([]int{1, 1, 5, 50}[r.IntN(4)]))
			if window > 0 && (stay || r.IntN(40) > 0) {
				high = min(high, low+window)
			}
			amt := 0
			if r.IntN(3) == 0 {
				high = low // a pure insertion
				c.Event("edits of an empty range", 1)
			}
			switch r.IntN(4) {
			case 0:
				amt = -(high - low)
			case 1:
				amt = -r.IntN(high - low + 1)
			case 2:
				amt = wide(r.IntN(40))
			}
			log = append(log, fmt.Sprintf("edit [%d,%d) shift %d", low, high, amt))
			m.RemoveAndShift(low, high, amt)
			c.Event("edits", 1)
			edits++
			for _, iv := range ivs {
				if iv.state == dead {
					continue
				}
				if iv.low < high && iv.high > low {
					iv.state = dead
					c.Event("intervals reached by an edit", 1)
					continue
				}
				if iv.low == high || iv.high == low {
					c.Event("intervals touched by an edit", 1)
					if tree != nil {
						// whether touching counts is not documented there
						iv.state = maybe
					}
				} else {
					c.Event("intervals kept by an edit", 1)
				}
				if amt != 0 && len(iv.past) < 5000 {
					iv.past = append(iv.past, iv.low)
				}
				if iv.low >= low {
					iv.low += amt
					iv.high += amt
				}
			}
		case n < wAdd+wEdit+wFind:
			if len(ivs) > 0 && r.IntN(3) > 0 {
				iv := ivs[r.IntN(len(ivs))]
				pos := iv.low
				if len(iv.past) > 0 && r.IntN(4) == 0 {
					pos = iv.past[len(iv.past)-1] // where it was
				}
				log = append(log, fmt.Sprintf("find id %d at %d", iv.id, pos))
				find(iv.id, pos)
			} else {
				id, pos := r.IntN(ids), r.IntN(span)
				log = append(log, fmt.Sprintf("find id %d at %d", id, pos))
				find(id, pos)
			}
		case n < wAdd+wEdit+wFind+wPos:
			if len(ivs) > 0 {
				iv := ivs[r.IntN(len(ivs))]
				if iv.state == sure {
					log = append(log, fmt.Sprintf("position of %d", iv.val))
				}
				position(iv)
			}
		default:
			log = append(log, "count")
			count()
		}
	}
	order := r.Perm(len(ivs))
	first := r.IntN(2)
	for k := 0; k < 2; k++ {
		for _, i := range order {
			if k == first {
				position(ivs[i])
			} else {
				find(ivs[i].id, ivs[i].low)
				if p := ivs[i].past; len(p) > 0 {
					find(ivs[i].id, p[len(p)-1])
				}
			}
		}
	}
	count()
	c.Max("intervals in a map", len(ivs))
	if edits > 0 && len(ivs) > 2 {
		c.Nontrivial(kind, strings.Join(log, ";"))
	}
	c.Sample("%s: %s", kind, clip(strings.Join(log, "; "), 400))
}

// The maps of package lazy offer everything but the enumeration.
type mapOnly struct {
	lazyMap
}

type lazyMap interface {
	FindLargest(id, pos int) interval.Value
	Add(id, low, high int, value interval.Value) interval.Pos
	RemoveAndShift(low, high, amt int)
	Size() int
}

func (mapOnly) AllValues() []interval.Value { return nil }

func init() {
	assume := []string{"entries an edit merely comes close to (less than two untouched bytes away) may be kept or dropped", "which of several entries is the largest is judged by matched length or by examined range"}
	register(&Prop{
		ID:     "C06",
		Rule:   "random histories of insertions, edits and lookups on a table, with insertion, edit and observation rates varied per case (observation applies pending shifts, so some cases look only at the end) and edits aimed at the borders of entries. A model knows for every entry where it has moved and whether an edit has reached what it examined; each lookup and enumeration is decided by it. Non-trivial: distinct histories with at least three entries and an edit.",
		Assume: assume,
		Need:   []string{"entries edited", "lookups that found an entry", "enumerations"},
		Families: []Family{
			{Name: "histories", Quick: 100000, Thorough: 3000000, Batch: 250, Run: func(c *C) { tableCase(c, true, false, 60) }},
			{Name: "long", Quick: 7200, Thorough: 210000, Batch: 25, Run: func(c *C) { tableCase(c, true, false, 900) }},
			{Name: "wide", Quick: 3600, Thorough: 100000, Batch: 25, Run: func(c *C) { tableWide(c, true, false) }},
		},
	})
	register(&Prop{
		ID:     "C07",
		Rule:   "as for C06; the model says which entries must survive, where they and their captures (nested, grouped, shared between nested entries) have moved, and how many there are. Non-trivial: distinct histories with at least three entries and an edit.",
		Assume: assume,
		Need:   []string{"entries kept by an edit", "lookups of surviving entries", "captures checked", "size queries"},
		Families: []Family{
			{Name: "histories", Quick: 36000, Thorough: 1000000, Batch: 250, Run: func(c *C) { tableCase(c, false, true, 60) }},
			{Name: "long", Quick: 2400, Thorough: 72000, Batch: 25, Run: func(c *C) { tableCase(c, false, true, 900) }},
			{Name: "wide", Quick: 500, Thorough: 15000, Batch: 10, Run: func(c *C) { tableWide(c, false, true) }},
		},
	})
	maps := []string{"lazylog.Tree", "lazy.Tree", "lazy.Array"}
	register(&Prop{
		ID:     "C27",
		Rule:   "random histories of insertions, lookups, position reads, counts and remove-and-shift edits (shifts never below the removed range, as the precondition demands) on each interval map, compared with a list of intervals; observation rates vary per case. Non-trivial: distinct histories with at least three intervals and an edit.",
		Assume: []string{"whether lazylog.Tree keeps an interval that only touches the removed range is not documented, and not judged; the other maps document overlap with a half-open range", "empty intervals are not inserted"},
		Need:   []string{"intervals reached by an edit", "intervals kept by an edit", "lookups that found an interval", "positions read", "enumerations"},
		Families: []Family{
			{Name: "histories", Quick: 360000, Thorough: 10000000, Batch: 300, Run: func(c *C) { mapCase(c, maps[c.Idx%3], 80) }},
			{Name: "long", Quick: 18000, Thorough: 540000, Batch: 25, Run: func(c *C) { mapCase(c, maps[c.Idx%3], 1200) }},
			{Name: "wide", Quick: 6000, Thorough: 180000, Batch: 25, Run: func(c *C) {
				scale, size, window := 1, 80, 0
				if c.R.IntN(3) > 0 {
					scale = []int{100, 3000, 1 << 14, 1 << 16, 1 << 24, 1 << 33}[c.R.IntN(6)]
				}
				if c.R.IntN(3) > 0 {
					size, window = []int{300, 1500, 4000}[c.R.IntN(3)], 1+c.R.IntN(12)
				}
				mapWide(c, maps[c.Idx%3], size, scale, window)
			}},
		},
	})
}
