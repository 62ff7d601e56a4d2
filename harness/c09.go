package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/zyedidia/gpeg/memo"
	"github.com/zyedidia/gpeg/vm"
)

// c09Big parses parts of long texts.
func c09Big(c *C) {
	d := bigDoc(c, 120000)
	c09Run(c, d, memo.NewTreeTable(incThreshold(c)), 4, c.R.IntN(3) > 0)
	c09Run(c, d, memo.NoneTable{}, 2, false)
}

// intervalWant selects the captures that overlap [lo, hi); those inside a
// capture that does not overlap it (out of which they reach, by way of a
// predicate or a check) go to the innermost one that does. It reports false if
// it is a matter of opinion which these are: empty captures on the border.
func intervalWant(c *C, cs []*Cap, lo, hi int) (out []*Cap, ok bool) {
	for _, k := range cs {
		if k.Len == 0 && (k.Start == lo || k.Start == hi) {
			return nil, false
		}
		kids, ok := intervalWant(c, k.Kids, lo, hi)
		if !ok {
			return nil, false
		}
		if lo < k.Start+k.Len && hi > k.Start {
			out = append(out, &Cap{k.Id, k.Start, k.Len, kids})
		} else {
			if len(kids) > 0 {
				c.Event("captures that overlap inside ones that do not", 1)
			}
			out = append(out, kids...)
		}
	}
	return out, true
}

func (d *doc) interval(c *C, ref *Outcome) (lo, hi int) {
	n := len(d.text)
	var marks []int
	var walk func(cs []*Cap)
	walk = func(cs []*Cap) {
		for _, k := range cs {
			marks = append(marks, k.Start, k.Start+k.Len)
			walk(k.Kids)
		}
	}
	walk(ref.Caps)
	pick := func() int {
		if len(marks) > 0 && c.R.IntN(2) == 0 {
			return max(0, min(n, marks[c.R.IntN(len(marks))]+c.R.IntN(3)-1))
		}
		return c.R.IntN(n + 1)
	}
	lo = pick()
	switch c.R.IntN(4) {
	case 0:
		hi = lo + 1
	case 1:
		hi = n + c.R.IntN(3)
		if c.R.IntN(3) == 0 {
			lo = 0
		}
	default:
		hi = pick()
	}
	if lo > hi {
		lo, hi = hi, lo
	}
	if lo == hi {
		hi++
	}
	return lo, hi
}

func c09Run(c *C, d *doc, tbl memo.Table, rounds int, edits bool) {
	var hist []string
	var iv *vm.Interval
	var keptLo, keptHi int
	for round := 0; round < rounds; round++ {
		if edits && round > 0 && c.R.IntN(2) == 0 {
			e := d.edit(c.R, nil)
			tbl.ApplyEdit(e)
			hist = append(hist, fmt.Sprintf("edit[%d,%d)->%q", e.Start, e.End, clip(string(d.text[e.Start:e.Start+e.Len]), 30)))
			c.Event("edits", 1)
		}
		budget := int64(defaultBudget)
		if d.spec != nil {
			_, steps, ok := interpret(d.spec, d.text, interpLimit)
			if !ok {
				return
			}
			budget = budgetFor(steps)
		}
		ref := execCode(d.code, bytes.NewReader(d.text), memo.NoneTable{}, budget)
		if round == 0 && c.R.IntN(3) == 0 {
			// the table may already hold the results of an ordinary parse
			execCode(d.code, bytes.NewReader(d.text), tbl, budget)
			hist = append(hist, "ordinary parse")
		}
		lo, hi := d.interval(c, &ref)
		if iv != nil && keptHi <= len(d.text)+2 && c.R.IntN(3) == 0 {
			// the caller asks for the interval of the last parse again, with
			// the same variable
			lo, hi = keptLo, keptHi
			c.Event("interval parses that use an interval again", 1)
		} else {
			iv = &vm.Interval{Low: lo, High: hi}
			keptLo, keptHi = lo, hi
		}
		vmSteps, vmBudget = 0, budget
		c.ClearNotes()
		c.Note("pattern %s text %s interval [%d,%d) history %s", d.name, quote(d.text), lo, hi, clip(strings.Join(hist, " "), 1500))
		m, end, root, errs := d.code.ExecInterval(bytes.NewReader(d.text), tbl, iv)
		vmBudget = 1 << 62
		got := convert(m, end, root, errs)
		hist = append(hist, fmt.Sprintf("parse[%d,%d)", lo, hi))
		c.Eval()
		c.Event("interval parses", 1)
		what := ""
		if got.Match != ref.Match {
			what = "match result"
		} else if got.Match && got.End != ref.End {
			what = "end position"
		} else if got.Match {
			want, ok := intervalWant(c, ref.Caps, lo, hi)
			if !ok {
				c.Event("captures not compared", 1)
				continue
			}
			c.Event("captures that overlap", capsCount(want))
			c.Event("captures that do not overlap", capsCount(ref.Caps)-capsCount(want))
			if !capsEqual(got.Caps, want) {
				c.Fail("captures of the interval parse are not those of the ordinary parse that overlap [%d,%d)\npattern: %s\ntext: %s\nhistory: %s\nordinary: %s\nexpected: %s\ngot: %s", lo, hi, d.name, quote(d.text), clip(strings.Join(hist, " "), 1500), clip(ref.String(), 1500), clip((&Outcome{Match: true, End: ref.End, Caps: want}).String(), 1500), clip(got.String(), 1500))
			}
		}
		if got.Match && root != nil && what == "" {
			from, to := lo, hi
			for _, k := range got.Caps {
				from, to = min(from, k.Start), max(to, k.Start+k.Len)
			}
			if rlo, rhi := root.Start(), root.Start()+root.Len(); rlo > from || rhi < to {
				c.Fail("the root [%d,%d) of the interval parse [%d,%d) does not reach over its captures and the interval, which span [%d,%d)\npattern: %s\ntext: %s\nhistory: %s\ngot: %s", rlo, rhi, lo, hi, from, to, d.name, quote(d.text), clip(strings.Join(hist, " "), 1500), clip(got.String(), 1500))
			}
			c.Event("roots of interval parses", 1)
		}
		if what != "" {
			c.Fail("%s of the interval parse [%d,%d) differs from the ordinary parse\npattern: %s\ntext: %s\nhistory: %s\nordinary: %s\ngot: %s", what, lo, hi, d.name, quote(d.text), clip(strings.Join(hist, " "), 1500), clip(ref.String(), 1500), clip(got.String(), 1500))
		}
	}
}

// reachSpec generates a memoized rule that makes captures ahead of its own
// match, used again after what followed it has failed.
func reachSpec(c *C) (*Spec, *Gen) {
	g := newGen(c.R, withWeights(map[Kind]int{KCap: 8, KAnd: 4, KSearch: 0, KEmpty: 0}))
	small := func() *Spec {
		g.budget, g.depth = 2+c.R.IntN(4), 0
		return g.node()
	}
	letter := func() *Spec { return lit(string(g.letter())) }
	ahead := un(KAnd, seq(small(), capt(seq(letter(), small()), 7)))
	var m *Spec
	switch c.R.IntN(4) {
	case 0:
		m = seq(capt(letter(), 6), ahead)
	case 1:
		m = capt(seq(letter(), ahead), 6)
	case 2:
		m = seq(ahead, small())
	default:
		m = seq(letter(), ahead, small())
	}
	use := func() *Spec {
		u := nonterm("M")
		switch c.R.IntN(5) {
		case 0:
			u = capt(u, 8)
		case 1:
			u = seq(small(), u)
		}
		return u
	}
	alts := alt()
	for k := 2 + c.R.IntN(2); k > 0; k-- {
		alts.Kids = append(alts.Kids, seq(use(), small(), small()))
	}
	rules := map[string]*Spec{"M": un(KMemo, m), "I": alts}
	switch c.R.IntN(3) {
	case 0:
		rules["S"] = un(KStar, nonterm("I"))
	case 1:
		rules["S"] = seq(un(KStar, un(KMemo, nonterm("I"))), un(KOpt, nonterm("M")))
	default:
		rules["S"] = alts
	}
	return grammar("S", rules), g
}

func init() {
	register(&Prop{
		ID:     "C09",
		Rule:   "random captured patterns and memoized grammars; texts are parsed restricted to random intervals (aimed at the borders of captures) without table, with a new table, and with one table over sequences of interval parses and announced edits; match, end and captures are compared with the ordinary parse's overlapping ones. Non-trivial: at least 3 nodes.",
		Need:   []string{"captures that overlap", "captures that do not overlap", "edits"},
		Assume: []string{"ordinary parses with a table come before its interval parses", "empty captures exactly on the border of the interval are not judged"},
		Families: []Family{
			{Name: "big", Quick: 100, Thorough: 3000, Batch: 2, CPU: 120, Run: c09Big},
			{Name: "patterns", Quick: 96000, Thorough: 2800000, Batch: 300, Run: func(c *C) {
				g := newGen(c.R, capWeights(c))
				var s *Spec
				if c.R.IntN(2) == 0 {
					s = g.pattern(8 + c.R.IntN(20))
				} else {
					s = g.grammar(1+c.R.IntN(3), 10+c.R.IntN(25))
				}
				nontrivialSpec(c, s, "")
				c.Sample("%s", s)
				code := mustCompile(c, s, &Builder{R: c.R})
				for _, in := range g.inputs(s, 0, 8, 60) {
					d := &doc{name: clip(s.String(), 3000), spec: s, code: code, text: in}
					c09Run(c, d, memo.NoneTable{}, 3, false)
				}
			}},
			{Name: "memoized", Quick: 64000, Thorough: 1900000, Batch: 250, Run: func(c *C) {
				g := newGen(c.R, memoWeights(c))
				base := g.grammar(1+c.R.IntN(4), 10+c.R.IntN(30))
				s := memoized(c.R, base, 2+c.R.IntN(6))
				nontrivialSpec(c, s, "")
				code := mustCompile(c, s, &Builder{R: c.R, Share: c.R.IntN(2) == 0})
				frags := g.inputs(base, 0, 6, 30)
				for i := 0; i < 3; i++ {
					d := &doc{name: clip(s.String(), 3000), spec: s, code: code, text: g.input(base, 60), frags: frags}
					c09Run(c, d, memo.NewTreeTable(incThreshold(c)), 6, true)
				}
			}},
			{Name: "reach", Quick: 32000, Thorough: 950000, Batch: 250, Run: func(c *C) {
				s, g := reachSpec(c)
				if !wellFormed(s) {
					return
				}
				nontrivialSpec(c, s, "")
				code := mustCompile(c, s, &Builder{R: c.R})
				frags := g.inputs(s, 0, 4, 30)
				for i := 0; i < 6; i++ {
					d := &doc{name: clip(s.String(), 3000), spec: s, code: code, text: g.input(s, 30), frags: frags}
					c09Run(c, d, memo.NewTreeTable(incThreshold(c)/4), 4, true)
				}
			}},
			{Name: "records", Quick: 6400, Thorough: 190000, Batch: 50, Run: func(c *C) {
				s, mk := recordSpec(c.R)
				code := mustCompile(c, s, &Builder{})
				var sb strings.Builder
				for i := 0; i < 1+c.R.IntN(60); i++ {
					sb.WriteString(mk(c.R))
				}
				d := &doc{name: s.String(), spec: s, code: code, text: []byte(sb.String()), frags: [][]byte{[]byte(mk(c.R)), []byte(mk(c.R))}}
				nontrivialSpec(c, s, sb.String())
				c.Sample("%s on %s", s, quote(d.text))
				c09Run(c, d, memo.NewTreeTable(incThreshold(c)), 12, true)
			}},
		},
	})
}
