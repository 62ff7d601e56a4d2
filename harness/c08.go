package main

import (
	"bytes"
	"fmt"
	"io"
	"math/bits"
	"math/rand/v2"
	"strings"

	"github.com/zyedidia/gpeg/input/linerope"
	"github.com/zyedidia/gpeg/memo"
	"github.com/zyedidia/gpeg/memo/interval/lazylog"
)

// countingReader counts how often and how much a parse reads.
type countingReader struct {
	r     io.ReaderAt
	reads int
}

func (c *countingReader) ReadAt(b []byte, off int64) (int, error) {
	c.reads++
	return c.r.ReadAt(b, off)
}

// onceTable watches for memoized rules that are evaluated again where a result
// has been recorded within the same parse.
type onceTable struct {
	watchTable
	stored map[[2]int]int // (id, start) -> length stored within this parse
	again  string
	checks int
	visits int // of nodes of the interval tree
}

func (t *onceTable) Get(id, pos int) (*memo.Entry, bool) {
	before := treeVisits
	e, ok := t.watchTable.Get(id, pos)
	t.visits += treeVisits - before
	if _, had := t.stored[[2]int{id, pos}]; had {
		t.checks++
		if !ok && t.again == "" {
			t.again = fmt.Sprintf("the result recorded for rule %d at %d is not found again", id, pos)
		}
	}
	return e, ok
}

func (t *onceTable) Put(id, start, length, examined, count int, captures []*memo.Capture) {
	if length != 0 {
		// repetitions record the results of several items together, too
		if old, had := t.stored[[2]int{id, start}]; had && count <= 1 && t.again == "" {
			t.again = fmt.Sprintf("rule %d was evaluated again at %d (first with length %d, then %d)", id, start, old, length)
		}
		t.stored[[2]int{id, start}] = length
	}
	before := treeVisits
	t.watchTable.Put(id, start, length, examined, count, captures)
	t.visits += treeVisits - before
}

// A listDoc is a long repetition of memoized items.
type listDoc struct {
	name   string
	spec   *Spec
	item   func(r *rand.Rand) string
	pre    string
	post   string
	change func(r *rand.Rand, item string) string // an edited item
}

func listDocs(r *rand.Rand) *listDoc {
	lower := class(setRange('a', 'z'))
	digit := class(setRange('0', '9'))
	word := un(KPlus, lower)
	w := func(r *rand.Rand, n int) string {
		b := make([]byte, 1+r.IntN(n))
		for i := range b {
			b[i] = byte('a' + r.IntN(26))
		}
		return string(b)
	}
	change := func(mk func(r *rand.Rand) string) func(r *rand.Rand, it string) string {
		return func(r *rand.Rand, it string) string {
			switch r.IntN(4) {
			case 0:
				return mk(r)
			case 1: // change one letter
				b := []byte(it)
				for try := 0; try < 20; try++ {
					if i := r.IntN(len(b)); b[i] >= 'a' && b[i] <= 'z' {
						b[i] = byte('a' + r.IntN(26))
						break
					}
				}
				return string(b)
			case 2: // lengthen
				for i := 0; i < len(it); i++ {
					if it[i] >= 'a' && it[i] <= 'z' {
						return it[:i] + w(r, 10) + it[i:]
					}
				}
			}
			// split in two
			return it + mk(r)
		}
	}
	d := &listDoc{}
	sz := []int{3, 10, 60, 400}[r.IntN(4)]
	switch r.IntN(5) {
	case 0:
		d.name = "words"
		d.spec = un(KStar, un(KMemo, capt(seq(word, lit(";")), 1)))
		d.item = func(r *rand.Rand) string { return w(r, sz) + ";" }
	case 1:
		d.name = "settings"
		d.spec = seq(un(KStar, un(KMemo, alt(capt(seq(capt(word, 2), lit("="), capt(un(KPlus, digit), 3), lit("\n")), 1), seq(lit("#"), un(KStar, class(setOf('\n').complement())), lit("\n"))))), un(KNot, anyN(1)))
		d.item = func(r *rand.Rand) string {
			if r.IntN(5) == 0 {
				return "# " + w(r, sz) + "\n"
			}
			return fmt.Sprintf("%s=%d\n", w(r, sz), r.IntN(1000))
		}
	case 2:
		d.name = "array"
		d.spec = seq(lit("["), un(KOpt, seq(lit("x"), un(KStar, un(KMemo, seq(lit(","), capt(word, 1)))))), lit("]"))
		d.item = func(r *rand.Rand) string { return "," + w(r, sz) }
		d.pre, d.post = "[x", "]"
	case 3:
		d.name = "rules"
		d.spec = grammar("L", map[string]*Spec{
			"L": un(KStar, un(KMemo, nonterm("I"))),
			"I": capt(seq(un(KMemo, nonterm("W")), un(KStar, seq(lit(" "), un(KMemo, nonterm("W")))), lit("\n")), 1),
			"W": capt(word, 2),
		})
		d.item = func(r *rand.Rand) string {
			s := w(r, sz)
			for k := r.IntN(4); k > 0; k-- {
				s += " " + w(r, sz)
			}
			return s + "\n"
		}
	case 4:
		d.name = "lookahead"
		d.spec = un(KStar, un(KMemo, capt(alt(seq(word, un(KAnd, class(setOf(',')))), lit(","), lit("\n")), 1)))
		d.item = func(r *rand.Rand) string { return w(r, sz) + ",\n" }
	}
	d.change = change(d.item)
	return d
}

type cost struct{ gets, puts, reads, visits int }

// treeVisits counts how many nodes of interval trees have been visited.
var treeVisits int

func log2(n int) int { return bits.Len(uint(n)) }

func c08Case(c *C, maxItems, edits int) {
	r := c.R
	d := listDocs(r)
	code := mustCompile(c, d.spec, &Builder{})
	n := 2 + r.IntN(maxItems)
	items := make([]string, n)
	for i := range items {
		items[i] = d.item(r)
	}
	text := []byte(d.pre + strings.Join(items, "") + d.post)
	var rope *linerope.Node
	if r.IntN(2) == 0 {
		rope = linerope.New(append([]byte{}, text...))
	}
	tbl := &onceTable{watchTable: watchTable{Table: memo.NewTreeTable(0)}}
	parse := func() (Outcome, cost) {
		tbl.reset()
		tbl.stored = map[[2]int]int{}
		tbl.visits = 0
		cr := &countingReader{r: bytes.NewReader(text)}
		if rope != nil {
			cr.r = rope
		}
		o := execCode(code, cr, tbl, int64(len(text))*2000+1<<22)
		c.Eval()
		if tbl.again != "" {
			c.Fail("%s\ndocument %s with %d items, text of %d bytes", tbl.again, d.spec, n, len(text))
		}
		return o, cost{tbl.gets, tbl.puts, cr.reads, tbl.visits}
	}
	c.Nontrivial(d.name, fmt.Sprint(n, len(text)), string(text[:min(100, len(text))]))
	c.Sample("%s: %d items, %d bytes, %d edits", d.name, n, len(text), edits)
	first, full := parse()
	if !first.Match || first.End != len(text) {
		// other properties decide what matches
		c.Event("documents that do not parse", 1)
		return
	}
	c.Max("items", n)
	where := r.IntN(5)
	breaks, broken := r.IntN(3) == 0, -1
	var hist []string
	for k := 0; k < edits; k++ {
		// an edit inside one item
		i := r.IntN(len(items))
		now := ""
		switch where {
		case 0:
			i = 0
		case 1:
			i = len(items) - 1
		case 2:
			i = (k * 7) % len(items)
		}
		if broken >= 0 {
			// repair the item first
			i, broken = broken, -1
			now = d.item(r)
			c.Event("items repaired", 1)
		} else if breaks && r.IntN(3) == 0 {
			p := r.IntN(len(items[i]))
			now = items[i][:p] + "\x00" + items[i][p:]
			broken = i
		} else {
			now = d.change(r, items[i])
		}
		off := len(d.pre)
		for _, it := range items[:i] {
			off += len(it)
		}
		old := items[i]
		p := 0
		for p < len(old) && p < len(now) && old[p] == now[p] {
			p++
		}
		s := 0
		for s < len(old)-p && s < len(now)-p && old[len(old)-1-s] == now[len(now)-1-s] {
			s++
		}
		e := memo.Edit{Start: off + p, End: off + len(old) - s, Len: len(now) - s - p}
		if e.Start == e.End && e.Len == 0 {
			continue
		}
		ins := []byte(now[p : len(now)-s])
		t := append(append(append(make([]byte, 0, len(text)+len(ins)), text[:e.Start]...), ins...), text[e.End:]...)
		text = t
		items[i] = now
		if rope != nil {
			if e.End > e.Start {
				rope.Remove(e.Start, e.End)
			}
			if e.Len > 0 {
				rope.Insert(e.Start, ins)
			}
		}
		stored, visits := tbl.Size(), treeVisits
		tbl.ApplyEdit(e)
		visits = treeVisits - visits
		gone := max(0, stored-tbl.Size())
		if lgs := log2(stored + 2); true {
			c.Max("tree nodes visited by an edit, *10/log2(results)/(results removed+1)", visits*10/lgs/(gone+1))
			if bound := (gone + 1) * (30 + 10*lgs); visits > bound {
				c.Fail("%d nodes of the interval tree visited by an edit that removes %d of %d results; at most %d are expected\ndocument: %s of %d bytes, edit [%d,%d)->%d bytes, history %s", visits, gone, stored, bound, d.spec, len(text), e.Start, e.End, e.Len, clip(strings.Join(hist[max(0, len(hist)-10):], " "), 1000))
			}
		}
		hist = append(hist, fmt.Sprintf("edit[%d,%d)->%d bytes", e.Start, e.End, e.Len))
		o, cst := parse()
		c.Event("reparses", 1)
		if !o.Match || o.End != len(text) {
			c.Event("reparses of texts with a broken item", 1)
		}
		lg := log2(len(items) + 2)
		c.Max("lookups*10/log2(items)", cst.gets*10/lg)
		c.Max("results recorded*10/log2(items)", cst.puts*10/lg)
		c.Max("reads*10/log2(items)", cst.reads*10/lg)
		if lgs := log2(max(stored, tbl.Size()) + 2); true {
			ops := cst.gets + cst.puts + 1
			c.Event("tree nodes visited by reparses", cst.visits)
			c.Max("tree nodes visited per lookup or result, *10/log2(results)", cst.visits*10/lgs/ops)
			if bound := ops * (30 + 10*lgs); cst.visits > bound {
				c.Fail("%d nodes of the interval tree visited by %d lookups and %d new results, with %d results stored; at most %d are expected\ndocument: %s of %d bytes, history %s", cst.visits, cst.gets, cst.puts, tbl.Size(), bound, d.spec, len(text), clip(strings.Join(hist[max(0, len(hist)-10):], " "), 1000))
			}
		}
		c.Max(fmt.Sprintf("lookups with %d <= log2(items) < %d", lg/3*3, lg/3*3+3), cst.gets)
		c.Max(fmt.Sprintf("reads with %d <= log2(items) < %d", lg/3*3, lg/3*3+3), cst.reads)
		span := (len(old) + len(now)) / 1000
		for _, m := range []struct {
			what  string
			n     int
			bound int
			all   int
		}{
			{"lookups", cst.gets, 30 + 5*lg, full.gets},
			{"newly recorded results", cst.puts, 30 + 5*lg, full.puts},
			{"reads of the input", cst.reads, 15 + 3*lg + span, full.reads},
		} {
			if m.n > m.bound {
				c.Fail("%d %s in a reparse after an edit of one of %d items (%d in the first parse); at most %d are expected\ndocument: %s of %d bytes, history %s", m.n, m.what, len(items), m.all, m.bound, d.spec, len(text), clip(strings.Join(hist[max(0, len(hist)-10):], " "), 1000))
			}
		}
	}
}

// treeCase watches the work done by the interval tree itself when it is given
// intervals as a parse would give them: many small ones, in any order, some
// that reach far, removed by edits and given again.
func treeCase(c *C, size int) {
	r := c.R
	n := 10 + r.IntN(size)
	w := 1 + r.IntN(20) // of an item
	tree := &lazylog.Tree{}
	var log []string
	visits, sz := 0, 0
	judge := func(what string, gone int, format string, args ...any) {
		visits = treeVisits - visits
		c.Eval()
		c.Event(what, 1)
		if len(log) < 2000 {
			log = append(log, fmt.Sprintf(format, args...))
		} else {
			log[c.st.Evaluations%2000] = fmt.Sprintf(format, args...)
		}
		lg := log2(sz + 2)
		c.Max(what+": nodes visited*10/log2(intervals)/(removed+1)", visits*10/lg/(gone+1))
		if bound := (gone + 1) * (30 + 10*lg); visits > bound {
			c.Fail("%s visits %d nodes of the tree, with %d intervals and %d of them removed; at most %d are expected\n%d items of %d bytes; last operations: %s", log[len(log)-1], visits, sz, gone, bound, n, w, strings.Join(log[max(0, len(log)-10):], "; "))
		}
	}
	add := func(id, low, high int) {
		visits = treeVisits
		tree.Add(id, low, high, sz)
		sz++
		judge("additions", 0, "Add(%d, %d, %d)", id, low, high)
	}
	order := r.IntN(4)
	reach := []int{0, 1000, 30, 2}[r.IntN(4)] // one in so many reaches far
	idx := make([]int, n)
	for i := range idx {
		idx[i] = i
		switch order {
		case 1:
			idx[i] = n - 1 - i
		case 2:
			idx[i] = i * 2 % n
		}
	}
	if order == 3 {
		r.Shuffle(n, func(i, j int) { idx[i], idx[j] = idx[j], idx[i] })
	}
	end := n * w
	far := func(low int) int {
		if r.IntN(2) == 0 {
			return end
		}
		return low + 1 + r.IntN(max(1, end-low))
	}
	for _, i := range idx {
		add(1, i*w, i*w+w)
		if reach > 0 && r.IntN(reach) == 0 {
			add(2, i*w, far(i*w))
		}
	}
	c.Nontrivial(fmt.Sprint(n, w, order, reach))
	c.Sample("%d items of %d bytes in order %d, one in %d reaches far", n, w, order, reach)
	where := r.IntN(4)
	again := r.IntN(3) > 0
	for k := 0; k < 300; k++ {
		p := r.IntN(end + 1)
		switch where {
		case 0:
			p = end - r.IntN(min(end, 3*w)+1)
		case 1:
			p = r.IntN(min(end, 3*w) + 1)
		case 2:
			p = k * 7 * w % end
		}
		del, ins := 0, r.IntN(2*w)
		if r.IntN(2) == 0 {
			del = r.IntN(min(end-p, 2*w) + 1)
		}
		if end-del+ins < 10 {
			continue
		}
		before := sz
		visits = treeVisits
		tree.RemoveAndShift(p, p+del, ins-del)
		v := treeVisits
		sz = tree.Size()
		visits += treeVisits - v
		end += ins - del
		judge("edits", max(0, before-sz), "RemoveAndShift(%d, %d, %d)", p, p+del, ins-del)
		c.Event("intervals removed", max(0, before-sz))
		low := max(0, p-w)
		if again {
			for q := low; q < p+w && q < end; q += w {
				add(1, q, q+w)
			}
			if reach > 0 && r.IntN(reach) == 0 {
				add(2, low, far(low))
			}
		}
		for j := 0; j < 3; j++ {
			visits = treeVisits
			q := r.IntN(end + 1)
			tree.FindLargest(1, q)
			judge("lookups in a tree", 0, "FindLargest(1, %d)", q)
		}
	}
	c.Max("intervals", sz)
}

// packratCase watches single parses of random memoized grammars.
func packratCase(c *C) {
	g := newGen(c.R, memoWeights(c))
	base := g.grammar(1+c.R.IntN(4), 10+c.R.IntN(30))
	s := memoized(c.R, base, 2+c.R.IntN(8))
	nontrivialSpec(c, s, "")
	code := mustCompile(c, s, &Builder{R: c.R})
	for _, in := range g.inputs(base, shortLen(g)-1, 12, 60) {
		_, steps, ok := interpret(base, in, interpLimit)
		if !ok {
			continue
		}
		tbl := &onceTable{watchTable: watchTable{Table: memo.NewTreeTable(0)}, stored: map[[2]int]int{}}
		execCode(code, bytes.NewReader(in), tbl, budgetFor(steps))
		c.Eval()
		c.Event("lookups where a result had been recorded", tbl.checks)
		if tbl.again != "" {
			c.Fail("%s\npattern: %s\ninput: %s", tbl.again, s, quote(in))
		}
	}
}

func init() {
	register(&Prop{
		ID:     "C08",
		Rule:   "lists of up to 20000 memoized items of several kinds, put through up to some hundred edits of one item each (front, back, sweeping, anywhere), as bytes or rope; every reparse is measured at the boundaries of the memo table and of the reader: lookups, recorded results and reads must stay below a + b*log2(items); within a parse no rule may be evaluated again where it recorded a result. A case is a document with its edit history.",
		Need:   []string{"reparses", "lookups where a result had been recorded"},
		Assume: []string{"the constants a and b leave a margin of about three over what was measured"},
		Families: []Family{
			{Name: "packrat", Quick: 8000, Thorough: 240000, Batch: 250, Run: packratCase},
			{Name: "tree", Quick: 150, Thorough: 4500, Batch: 5, CPU: 60, Run: func(c *C) { treeCase(c, []int{50, 1000, 10000}[c.R.IntN(3)]) }},
			{Name: "small", Quick: 400, Thorough: 12000, Batch: 20, CPU: 60, Run: func(c *C) { c08Case(c, 300, 60) }},
			{Name: "large", Quick: 48, Thorough: 1400, Batch: 2, CPU: 200, Run: func(c *C) { c08Case(c, 20000, 100) }},
			{Name: "many-edits", Quick: 16, Thorough: 480, Batch: 1, CPU: 200, Run: func(c *C) { c08Case(c, 1500, 1000) }},
		},
	})
}
