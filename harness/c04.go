package main

import (
	"bytes"
	"fmt"
	"math/rand/v2"
	"os"
	"strings"
	"sync"

	"github.com/zyedidia/gpeg/input/linerope"
	"github.com/zyedidia/gpeg/memo"
	"github.com/zyedidia/gpeg/pattern"
	"github.com/zyedidia/gpeg/re"
	"github.com/zyedidia/gpeg/vm"
)

// memoized returns a copy of s with memo nodes around random sub-patterns.
func memoized(r *rand.Rand, s *Spec, per int) *Spec {
	c := *s
	c.Kids = make([]*Spec, len(s.Kids))
	for i, k := range s.Kids {
		c.Kids[i] = memoized(r, k, per)
	}
	if r.IntN(per) == 0 {
		return un(KMemo, &c)
	}
	if (s.K == KStar || s.K == KPlus) && r.IntN(2) == 0 && c.Kids[0].K != KMemo {
		c.Kids[0] = un(KMemo, c.Kids[0])
	}
	return &c
}

// watchTable is a memo table that records the traffic between a parse and the
// table it wraps.
type watchTable struct {
	memo.Table
	gets, hits, puts int
	failed           int
	entries          []putRec
	keep             bool
	putAt            map[[2]int]int // (id, start) -> puts within this parse
}

type putRec struct{ id, start, length, examined, count int }

func (t *watchTable) Get(id, pos int) (*memo.Entry, bool) {
	t.gets++
	e, ok := t.Table.Get(id, pos)
	if ok {
		t.hits++
		if e.Length() == -1 {
			t.failed++
		}
	}
	return e, ok
}

func (t *watchTable) Put(id, start, length, examined, count int, captures []*memo.Capture) {
	t.puts++
	if t.keep {
		t.entries = append(t.entries, putRec{id, start, length, examined, count})
	}
	t.Table.Put(id, start, length, examined, count, captures)
}

func (t *watchTable) reset() { t.gets, t.hits, t.puts, t.failed = 0, 0, 0, 0 }

func diffMemo(a, b *Outcome) string {
	switch {
	case a.Match != b.Match:
		return "match result"
	case a.Match && a.End != b.End:
		return "end position"
	case a.Match && !capsEqual(a.Caps, b.Caps):
		return "capture tree"
	}
	return ""
}

func memoWeights(c *C) map[Kind]int {
	w := genWeights(c)
	w[KCap] = 4 + c.R.IntN(8)
	w[KNonTerm] = 12
	w[KCheck] = c.R.IntN(2)
	return w
}

// noState removes checkers with state; scripted and word checkers depend on
// the text only.
func c04Case(c *C) {
	g := newGen(c.R, memoWeights(c))
	var base *Spec
	if c.R.IntN(3) == 0 {
		base = g.pattern(8 + c.R.IntN(20))
	} else {
		base = g.grammar(1+c.R.IntN(4), 10+c.R.IntN(30))
	}
	marked := memoized(c.R, base, 2+c.R.IntN(8))
	if !marked.has(KMemo) {
		marked = un(KMemo, marked)
	}
	nontrivialSpec(c, marked, "")
	c.Sample("%s", marked)
	plain := mustCompile(c, base, &Builder{R: c.R})
	b := &Builder{R: c.R, Share: c.R.IntN(3) == 0}
	code := mustCompile(c, marked, b)
	ins := g.inputs(base, shortLen(g)-1, 12, 100)
	for i := 0; i < 4; i++ {
		// longer inputs give the memo table more to do
		var in []byte
		for k := 0; k < 2+c.R.IntN(5); k++ {
			in = append(in, g.input(base, 60)...)
		}
		ins = append(ins, in)
	}
	for _, in := range ins {
		want, steps, ok := interpret(base, in, interpLimit)
		if !ok {
			c.Event("skipped: model out of steps", 1)
			continue
		}
		threshold := []int{0, 0, 1, 2, 3, 5, 10, 50, 512}[c.R.IntN(9)]
		tbl := &watchTable{Table: memo.NewTreeTable(threshold)}
		c.ClearNotes()
		c.Note("pattern: %s", clip(marked.String(), 3000))
		c.Note("input: %s, threshold %d", quote(in), threshold)
		ref := execCode(plain, bytes.NewReader(in), memo.NoneTable{}, budgetFor(steps))
		if want.Match != ref.Match {
			c.Event("unmemoized parse differs from the model", 1)
		}
		check := func(o *Outcome, what string) {
			c.Eval()
			if d := diffMemo(&ref, o); d != "" {
				c.Fail("%s differs from the parse without memoization (%s)\npattern: %s\ninput: %s threshold: %d\nwithout: %s\nwith: %s", d, what, clip(marked.String(), 3000), quote(in), threshold, clip(ref.String(), 1500), clip(o.String(), 1500))
			}
		}
		o := execCode(code, bytes.NewReader(in), memo.NoneTable{}, budgetFor(steps))
		check(&o, "memo nodes but no table")
		rounds := 3
		if c.R.IntN(8) == 0 {
			rounds = 6
		}
		for round := 0; round < rounds; round++ {
			tbl.reset()
			o := execCode(code, bytes.NewReader(in), tbl, budgetFor(steps))
			check(&o, fmt.Sprintf("parse %d with the table", round+1))
			c.Event("table hits", tbl.hits)
			c.Event("table hits on failed entries", tbl.failed)
			c.Event("table insertions", tbl.puts)
			if round > 0 && tbl.hits > 0 {
				c.Event("parses that reused earlier parses", 1)
			}
		}
	}
}

// A doc is a kind of document for incremental parsing.
type doc struct {
	name  string
	spec  *Spec    // model of the pattern, nil if too large to interpret
	code  *vm.Code // with memo nodes
	text  []byte
	frags [][]byte // replacement texts

	// with pairs, most edits are taken back by the next one, so that long
	// histories leave most of the text as it was
	pairs bool
	back  func() memo.Edit
}

// edit is a random edit; interesting positions are given as hints.
func (d *doc) edit(r *rand.Rand, hints []int) memo.Edit {
	if back := d.back; back != nil {
		d.back = nil
		return back()
	}
	n := len(d.text)
	pos := r.IntN(n + 1)
	if len(hints) > 0 && r.IntN(4) > 0 {
		pos = hints[r.IntN(len(hints))] + r.IntN(5) - 2
	}
	pos = max(0, min(pos, n))
	del := 0
	switch r.IntN(4) {
	case 0:
		del = 1
	case 1:
		del = r.IntN(4)
	case 2:
		if r.IntN(3) == 0 {
			del = r.IntN(n/4 + 2)
		}
	}
	del = min(del, n-pos)
	var ins []byte
	if del == 0 || r.IntN(2) == 0 {
		if len(d.frags) > 0 {
			f := d.frags[r.IntN(len(d.frags))]
			if len(f) > 0 && r.IntN(3) > 0 {
				a := r.IntN(len(f))
				f = f[a : a+1+r.IntN(len(f)-a)]
				if r.IntN(2) == 0 && len(f) > 3 {
					f = f[:1+r.IntN(3)]
				}
			}
			ins = f
		}
		if r.IntN(3) == 0 && del > 0 {
			// replace by the same length
			for len(ins) < del {
				ins = append(append([]byte{}, ins...), 'a')
			}
			ins = ins[:del]
		}
	}
	if d.pairs && r.IntN(12) > 0 {
		old := append([]byte{}, d.text[pos:pos+del]...)
		d.back = func() memo.Edit {
			d.apply(pos, pos+len(ins), old)
			return memo.Edit{Start: pos, End: pos + len(ins), Len: len(old)}
		}
	}
	d.apply(pos, pos+del, ins)
	return memo.Edit{Start: pos, End: pos + del, Len: len(ins)}
}

func (d *doc) apply(start, end int, ins []byte) {
	t := make([]byte, 0, len(d.text)+len(ins))
	t = append(t, d.text[:start]...)
	t = append(t, ins...)
	t = append(t, d.text[end:]...)
	d.text = t
}

// runIncremental edits and reparses, comparing each parse with one from scratch.
func runIncremental(c *C, d *doc, threshold, rounds, maxEdits int, useRope bool) {
	tbl := &watchTable{Table: memo.NewTreeTable(threshold), keep: true}
	var rope *linerope.Node
	if useRope {
		opts := linerope.DefaultOptions
		if c.R.IntN(2) == 0 {
			opts.SplitLen, opts.JoinLen = 16+c.R.IntN(50), 1+c.R.IntN(16)
		}
		rope = linerope.NewWithOpts(append([]byte{}, d.text...), opts)
	}
	hist := []string{}
	// how the edits find entries to hit: from the recorded insertions, or from
	// the table itself (which makes the table apply pending shifts)
	look := c.R.IntN(3)
	for round := 0; round < rounds; round++ {
		if round > 0 {
			for n := 1 + c.R.IntN(maxEdits); n > 0; n-- {
				var hints []int
				if look == 0 {
					for _, e := range tbl.AllValues() {
						if c.R.IntN(4) == 0 && len(hints) < 60 {
							hints = append(hints, e.Pos(), e.Pos()+e.Length(), e.Pos()+e.Examined())
						}
					}
				} else if look == 1 && len(tbl.entries) > 0 {
					for k := 0; k < 20; k++ {
						e := tbl.entries[c.R.IntN(len(tbl.entries))]
						hints = append(hints, e.start, e.start+e.length, e.start+e.examined)
					}
				}
				old := len(d.text)
				e := d.edit(c.R, hints)
				if rope != nil {
					if e.End > e.Start {
						rope.Remove(e.Start, e.End)
					}
					if e.Len > 0 {
						rope.Insert(e.Start, d.text[e.Start:e.Start+e.Len])
					}
				}
				tbl.ApplyEdit(e)
				hist = append(hist, fmt.Sprintf("edit[%d,%d)->%q", e.Start, e.End, clip(string(d.text[e.Start:e.Start+e.Len]), 30)))
				c.Event("edits", 1)
				_ = old
			}
			tbl.entries = tbl.entries[:0]
		}
		c.ClearNotes()
		c.Note("document %s, threshold %d, rope %v, history %s", d.name, threshold, useRope, clip(strings.Join(hist, " "), 3000))
		c.Note("text: %s", quote(d.text))
		budget := int64(defaultBudget)
		if d.spec != nil {
			_, steps, ok := interpret(d.spec, d.text, interpLimit)
			if !ok {
				c.Event("skipped: model out of steps", 1)
				return
			}
			budget = budgetFor(steps)
		}
		ref := execCode(d.code, bytes.NewReader(d.text), memo.NoneTable{}, budget)
		var o Outcome
		tbl.reset()
		if rope != nil {
			o = execCode(d.code, rope, tbl, budget)
		} else {
			o = execCode(d.code, bytes.NewReader(d.text), tbl, budget)
		}
		c.Eval()
		c.Event("table hits", tbl.hits)
		if round > 0 {
			c.Event("reparses", 1)
			if tbl.hits > 0 {
				c.Event("reparses that reused results", 1)
			}
			if ref.Match {
				c.Event("reparses that match", 1)
			} else {
				c.Event("reparses that fail", 1)
			}
		}
		hist = append(hist, "parse")
		if df := diffMemo(&ref, &o); df != "" {
			c.Fail("%s of the incremental parse differs from the parse from scratch\ndocument: %s, threshold %d, rope %v\nhistory: %s\ntext: %s\nscratch: %s\nincremental: %s", df, d.name, threshold, useRope, clip(strings.Join(hist, " "), 3000), quote(d.text), clip(ref.String(), 1500), clip(o.String(), 1500))
		}
	}
}

func incThreshold(c *C) int { return []int{0, 0, 0, 1, 2, 4, 8, 30, 512}[c.R.IntN(9)] }

var (
	grammarOnce sync.Mutex
	grammarMemo = map[string]*vm.Code{}
)

// repoGrammar compiles one of the grammars shipped with the repository.
func repoGrammar(c *C, name string) *vm.Code {
	grammarOnce.Lock()
	defer grammarOnce.Unlock()
	if code := grammarMemo[name]; code != nil {
		return code
	}
	b, err := os.ReadFile(repoDir + "/grammars/" + name + ".peg")
	if err != nil {
		return nil
	}
	p, err := re.CompileCap(string(b), map[string]int{})
	if err != nil {
		c.Fail("the grammar %s is refused: %v", name, err)
	}
	code, err := compileSpec(p)
	if err != nil {
		c.Fail("the grammar %s does not compile: %v", name, err)
	}
	grammarMemo[name] = code
	return code
}

func jsonText(r *rand.Rand, depth int) string {
	switch r.IntN(7) {
	case 0:
		return fmt.Sprint(r.IntN(100000))
	case 1:
		return fmt.Sprintf("%q", strings.Repeat("s", r.IntN(12)))
	case 2:
		return []string{"true", "false", "null"}[r.IntN(3)]
	case 3, 4:
		if depth > 0 {
			var parts []string
			for i := 0; i < r.IntN(6); i++ {
				parts = append(parts, jsonText(r, depth-1))
			}
			return "[" + strings.Join(parts, ", ") + "]"
		}
	default:
		if depth > 0 {
			var parts []string
			for i := 0; i < r.IntN(6); i++ {
				parts = append(parts, fmt.Sprintf("\"k%d\": %s", r.IntN(50), jsonText(r, depth-1)))
			}
			return "{" + strings.Join(parts, ",\n ") + "}"
		}
	}
	return fmt.Sprintf("-%d.%d", r.IntN(10), r.IntN(100))
}

// recordSpec is a list of records, each with structure and lookahead.
func recordSpec(r *rand.Rand) (*Spec, func(r *rand.Rand) string) {
	num := capt(un(KPlus, class(setRange('0', '9'))), 1)
	word := capt(un(KPlus, class(setRange('a', 'z'))), 2)
	var rec *Spec
	var mk func(r *rand.Rand) string
	w := func(r *rand.Rand) string { return strings.Repeat(string(rune('a'+r.IntN(26))), 1+r.IntN(6)) }
	switch r.IntN(6) {
	case 5: // words told apart by a checker that looks at what follows
		x := un(KCheck, word)
		x.Check, x.Id = &CheckSpec{Kind: "look", Salt: r.IntN(200)}, r.IntN(4)
		rec = alt(capt(seq(x, lit(" ")), 3), capt(seq(word, lit(" ")), 7), capt(lit(","), 5))
		mk = func(r *rand.Rand) string { return w(r) + " " + strings.Repeat(",", r.IntN(3)) }
	case 0: // words separated by blanks, each looking at what follows
		rec = capt(seq(word, un(KStar, lit(" ")), un(KNot, class(setRange('0', '9')))), 3)
		mk = func(r *rand.Rand) string { return w(r) + strings.Repeat(" ", 1+r.IntN(3)) }
	case 1: // lines
		rec = capt(seq(alt(seq(word, lit("="), num), seq(lit("#"), un(KStar, class(setOf('\n').complement())))), alt(lit("\n"), un(KNot, anyN(1)))), 3)
		mk = func(r *rand.Rand) string {
			if r.IntN(4) == 0 {
				return "# " + w(r) + "\n"
			}
			return fmt.Sprintf("%s=%d\n", w(r), r.IntN(1000))
		}
	case 2: // items whose extent depends on the next byte
		rec = capt(alt(seq(word, lit(";"), un(KAnd, alt(class(setRange('a', 'z')), un(KNot, anyN(1))))), lit(";"), word), 3)
		mk = func(r *rand.Rand) string { return w(r) + ";" }
	case 3: // items that look several bytes ahead
		rec = capt(seq(un(KNot, lit("endend")), anyN(1), un(KOpt, un(KAnd, anyN(5)))), 3)
		mk = func(r *rand.Rand) string { return w(r) }
	case 4: // nested brackets
		return seq(grammar("L", map[string]*Spec{
				"L": un(KStar, un(KMemo, nonterm("I"))),
				"I": alt(capt(seq(lit("("), nonterm("L"), lit(")")), 4), word, capt(lit(","), 5)),
			}), un(KOpt, capt(lit("."), 6))), func(r *rand.Rand) string {
				n := r.IntN(4)
				return strings.Repeat("(", n) + w(r) + "," + w(r) + strings.Repeat(")", n)
			}
	}
	return seq(un(KStar, un(KMemo, rec)), un(KOpt, capt(lit("."), 6))), mk
}

const c04Known = "a memo node that is used by two grammars which define the names in it differently keeps one id, so that with a table the second grammar takes over the results of the first: with x = Memo(A), (S <- x '1', A <- 'a' / '(' A ')') / (S <- x '2', A <- 'b' / '(' A ')') does not match \"b2\""

func c04Listed(c *C) {
	c.Eval()
	x := pattern.Memo(pattern.NonTerm("A"))
	gr := func(a, end string) pattern.Pattern {
		return pattern.Grammar("S", map[string]pattern.Pattern{
			"S": pattern.Concat(x, pattern.Literal(end)),
			"A": pattern.Or(pattern.Literal(a), pattern.Concat(pattern.Literal("("), pattern.NonTerm("A"), pattern.Literal(")"))),
		})
	}
	code, err := compileSpec(pattern.Or(gr("a", "1"), gr("b", "2")))
	if err != nil {
		c.Fail("not compiled: %v", err)
	}
	o := execCode(code, bytes.NewReader([]byte("b2")), memo.NoneTable{}, defaultBudget)
	if !o.Match || o.End != 2 {
		c.Fail("the pattern does not match \"b2\" without a table")
	}
	o = execCode(code, bytes.NewReader([]byte("b2")), memo.NewTreeTable(0), defaultBudget)
	if !o.Match {
		c.Known("C04-two-grammars", c04Known)
	} else if o.End != 2 {
		c.Fail("with a table \"b2\" matches up to %d, not 2", o.End)
	}
}

func init() {
	register(&Prop{
		ID:     "C04",
		Rule:   "random patterns and grammars whose outcome depends on the input only, with memo nodes put around random sub-patterns and under repetitions; each input is parsed without table and several times with one table of random size threshold, and compared with the parse of the unmarked pattern. Non-trivial: at least 3 nodes.",
		Need:   []string{"table hits", "table hits on failed entries", "parses that reused earlier parses"},
		Assume: []string{"reported errors are not compared (error nodes are excluded)"},
		Families: []Family{
			{Name: "listed", Quick: 1, Thorough: 1, Batch: 1, Run: c04Listed},
			{Name: "marks", Quick: 40000, Thorough: 1200000, Batch: 250, Run: c04Case},
			{Name: "long", Quick: 1200, Thorough: 36000, Batch: 20, Run: func(c *C) {
				s, mk := recordSpec(c.R)
				var sb strings.Builder
				for i := 0; i < 50+c.R.IntN(1500); i++ {
					sb.WriteString(mk(c.R))
				}
				in := []byte(sb.String())
				if c.R.IntN(3) == 0 {
					in[c.R.IntN(len(in))] = '?'
				}
				c.Nontrivial(s.String(), string(in[:min(100, len(in))]))
				c.Sample("%s on %d bytes", s, len(in))
				plain := mustCompile(c, s, &Builder{NoMemo: true})
				code := mustCompile(c, s, &Builder{})
				ref := execCode(plain, bytes.NewReader(in), memo.NoneTable{}, defaultBudget)
				for t := 0; t < 3; t++ {
					th := incThreshold(c)
					tbl := &watchTable{Table: memo.NewTreeTable(th)}
					for round := 0; round < 3; round++ {
						tbl.reset()
						o := execCode(code, bytes.NewReader(in), tbl, defaultBudget)
						c.Eval()
						c.Event("table hits", tbl.hits)
						if d := diffMemo(&ref, &o); d != "" {
							c.Fail("%s differs from the parse without memoization (parse %d, threshold %d)\npattern: %s\ninput: %s", d, round+1, th, s, quote(in))
						}
					}
				}
			}},
			{Name: "big", Quick: 80, Thorough: 2400, Batch: 2, CPU: 90, Run: c04Big},
			{Name: "repo-grammars", Quick: 96, Thorough: 2800, Batch: 2, CPU: 90, Run: func(c *C) {
				name, text := "java_memo", readFile(repoDir+"/testdata/ScriptRuntime.java")
				if c.Idx%3 == 1 {
					name, text = "json_memo", []byte(jsonText(c.R, 7))
				} else if c.Idx%3 == 2 {
					text = readFile(repoDir + "/testdata/test.java")
				}
				code := repoGrammar(c, name)
				if code == nil || len(text) == 0 {
					return
				}
				c.Nontrivial(name, fmt.Sprint(c.Idx%3), string(text[:min(len(text), 200)]))
				ref := execCode(code, bytes.NewReader(text), memo.NoneTable{}, 1<<40)
				tbl := &watchTable{Table: memo.NewTreeTable([]int{0, 16, 128, 512}[c.R.IntN(4)])}
				for i := 0; i < 3; i++ {
					o := execCode(code, bytes.NewReader(text), tbl, 1<<40)
					c.Eval()
					c.Event("table hits", tbl.hits)
					if d := diffMemo(&ref, &o); d != "" {
						c.Fail("%s of %s differs with a memo table (parse %d)", d, name, i+1)
					}
				}
				c.Max("captures in one tree", capsCount(ref.Caps))
			}},
		},
	})

	register(&Prop{
		ID:     "C05",
		Rule:   "documents (random memoized grammars and derived texts, lists of records with lookahead, JSON, Java) go through random histories of announced edits - preferring the start, end and last examined byte of recorded results, give or take two - and reparses with one table, with the text as a byte slice or a rope; each reparse is compared with a parse of the same text without a table. A case is a history; non-trivial if its pattern has at least 3 nodes.",
		Need:   []string{"reparses that reused results", "reparses that match", "reparses that fail"},
		Assume: []string{"checkers with state of their own and error nodes are excluded"},
		Families: []Family{
			{Name: "grammars", Quick: 70000, Thorough: 2100000, Batch: 300, Run: func(c *C) {
				g := newGen(c.R, memoWeights(c))
				var base *Spec
				if c.R.IntN(3) == 0 {
					base = g.pattern(8 + c.R.IntN(20))
				} else {
					base = g.grammar(1+c.R.IntN(4), 10+c.R.IntN(30))
				}
				if c.R.IntN(3) == 0 {
					st := un(KStar, un(KMemo, base))
					if wellFormed(st) {
						base = seq(st, un(KOpt, capt(lit(string(g.letter())), 9)))
					}
				}
				s := memoized(c.R, base, 2+c.R.IntN(6))
				nontrivialSpec(c, s, fmt.Sprint(c.Idx))
				c.Sample("%s", s)
				d := &doc{name: s.String(), spec: s, code: mustCompile(c, s, &Builder{R: c.R})}
				for i := 0; i < 1+c.R.IntN(5); i++ {
					d.text = append(d.text, g.input(base, 60)...)
				}
				for i := 0; i < 6; i++ {
					d.frags = append(d.frags, g.input(base, 20))
				}
				for i := 0; i < 3; i++ {
					d.frags = append(d.frags, []byte{g.letter()})
				}
				runIncremental(c, d, incThreshold(c), 3+c.R.IntN(10), 1+c.R.IntN(3), c.R.IntN(4) == 0)
			}},
			{Name: "records", Quick: 9000, Thorough: 270000, Batch: 50, Run: func(c *C) {
				s, mk := recordSpec(c.R)
				var sb strings.Builder
				n := 1 + c.R.IntN(40)
				if c.R.IntN(6) == 0 {
					n = 200 + c.R.IntN(600)
				}
				for i := 0; i < n; i++ {
					sb.WriteString(mk(c.R))
				}
				d := &doc{name: s.String(), code: mustCompile(c, s, &Builder{}), text: []byte(sb.String())}
				for i := 0; i < 10; i++ {
					d.frags = append(d.frags, []byte(mk(c.R)))
				}
				d.frags = append(d.frags, []byte("."), []byte(" "), []byte("("), []byte(")"), []byte("endend"), []byte("\n"), []byte("1"), []byte("?"))
				c.Nontrivial(s.String(), sb.String()[:min(60, sb.Len())])
				c.Sample("%s on %d bytes", s, len(d.text))
				runIncremental(c, d, incThreshold(c), 4+c.R.IntN(30), 1+c.R.IntN(4), c.R.IntN(3) == 0)
			}},
			{Name: "big", Quick: 80, Thorough: 2400, Batch: 2, CPU: 90, Run: func(c *C) {
				runIncremental(c, bigDoc(c, 140000), incThreshold(c), 6, 4, c.R.IntN(2) == 0)
			}},
			{Name: "many-edits", Quick: 160, Thorough: 4800, Batch: 4, CPU: 90, Run: func(c *C) {
				// long histories between parses
				d := bigDoc(c, 20000)
				d.pairs = c.R.IntN(4) > 0
				runIncremental(c, d, incThreshold(c), 3, []int{50, 300, 1500}[c.R.IntN(3)], c.R.IntN(2) == 0)
			}},
			{Name: "json", Quick: 1600, Thorough: 48000, Batch: 10, Run: func(c *C) {
				d := &doc{name: "json_memo", code: repoGrammar(c, "json_memo"), text: []byte(jsonText(c.R, 5))}
				if d.code == nil {
					return
				}
				for i := 0; i < 8; i++ {
					d.frags = append(d.frags, []byte(jsonText(c.R, 2)))
				}
				d.frags = append(d.frags, []byte("["), []byte("]"), []byte("{"), []byte("}"), []byte(","), []byte("\""), []byte(" "))
				c.Nontrivial("json", string(d.text[:min(200, len(d.text))]))
				runIncremental(c, d, incThreshold(c), 4+c.R.IntN(20), 1+c.R.IntN(3), c.R.IntN(2) == 0)
			}},
			{Name: "java", Quick: 160, Thorough: 4800, Batch: 2, CPU: 120, Run: func(c *C) {
				d := &doc{name: "java_memo", code: repoGrammar(c, "java_memo"), text: readFile(repoDir + "/testdata/test.java")}
				if c.R.IntN(4) == 0 {
					d.text = readFile(repoDir + "/testdata/ScriptRuntime.java")
				}
				if d.code == nil || len(d.text) == 0 {
					return
				}
				for i := 0; i < 20; i++ {
					a := c.R.IntN(len(d.text))
					d.frags = append(d.frags, append([]byte{}, d.text[a:min(len(d.text), a+1+c.R.IntN(40))]...))
				}
				for _, s := range []string{"{", "}", "/*", "*/", "//", "int x = 1;", ";", "\"", "(", ")", "\n"} {
					d.frags = append(d.frags, []byte(s))
				}
				c.Nontrivial("java", fmt.Sprint(c.Idx))
				runIncremental(c, d, []int{0, 16, 64, 512}[c.R.IntN(4)], 8, 2, c.R.IntN(2) == 0)
			}},
		},
	})
}

func readFile(name string) []byte {
	b, _ := os.ReadFile(name)
	return b
}
