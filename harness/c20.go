package main

import (
	"bytes"
	"fmt"

	"github.com/zyedidia/gpeg/memo"
	"github.com/zyedidia/gpeg/vm"
)

// anchored runs a pattern at given positions of a text, by putting the right
// number of arbitrary bytes before it.
type anchored struct {
	c     *C
	s     *Spec
	codes map[int]*vm.Code
}

func (a *anchored) at(in []byte, pos int, budget int64) Outcome {
	code := a.codes[pos]
	if code == nil {
		p := seq()
		for rest := pos; rest > 0; {
			n := min(rest, 255)
			p.Kids = append(p.Kids, anyN(n))
			rest -= n
		}
		p.Kids = append(p.Kids, a.s)
		code = mustCompile(a.c, p, &Builder{})
		a.codes[pos] = code
	}
	return execCode(code, bytes.NewReader(in), memo.NoneTable{}, budget)
}

// first finds the first occurrence at or after pos.
func (a *anchored) first(in []byte, pos int, budget int64) (Outcome, int) {
	for p := pos; p <= len(in); p++ {
		if o := a.at(in, p, budget); o.Match {
			return o, p
		}
	}
	return Outcome{}, -1
}

func c20Spec(c *C) (*Gen, *Spec) {
	w := genWeights(c)
	w[KError] = 0
	w[KSearch] = 1
	w[KCap] = 5
	w[KMemo] = 1
	w[KCheck] = 1
	w[KEmptyOp] = 2
	g := newGen(c.R, w)
	if c.R.IntN(3) == 0 {
		return g, g.grammar(1+c.R.IntN(3), 3+c.R.IntN(12))
	}
	return g, g.pattern(2 + c.R.IntN(12))
}

func nullable(s *Spec) bool { return !wellFormed(un(KStar, s)) }

func (c *C) searchText(g *Gen, s *Spec) []byte {
	var in []byte
	for i := c.R.IntN(8); i > 0; i-- {
		in = append(in, g.letter())
	}
	for k := c.R.IntN(3); k >= 0; k-- {
		in = append(in, g.input(s, 25)...)
		for i := c.R.IntN(3); i > 0; i-- {
			in = append(in, g.letter())
		}
	}
	if len(in) > 40 {
		in = in[:40]
	}
	return in
}

func c20First(c *C) {
	g, s := c20Spec(c)
	if !wellFormed(s) {
		return
	}
	nontrivialSpec(c, s, "")
	a := &anchored{c: c, s: s, codes: map[int]*vm.Code{}}
	search := mustCompile(c, un(KSearch, s), &Builder{R: c.R})
	// the search as part of something larger
	tail := seq(un(KSearch, s), capt(un(KStar, anyN(1)), 99))
	tailed := mustCompile(c, tail, &Builder{R: c.R})
	var repeated *vm.Code
	rep := un(KStar, capt(un(KSearch, s), 98))
	if !nullable(s) {
		repeated = mustCompile(c, rep, &Builder{R: c.R})
	}
	short := 3
	if len(g.Alpha) > 2 {
		short = 2
	}
	ins := shortStrings(g.Alpha, short)
	for i := 0; i < 5; i++ {
		ins = append(ins, c.searchText(g, s))
	}
	for _, in := range ins {
		_, steps, ok := interpret(rep, in, 200000)
		if !ok {
			continue
		}
		budget := budgetFor(steps)
		c.ClearNotes()
		c.Note("pattern %s text %s", clip(s.String(), 2500), quote(in))
		want, pos := a.first(in, 0, budget)
		got := execCode(search, bytes.NewReader(in), memo.NoneTable{}, budget)
		c.Eval()
		if pos < 0 {
			c.Event("texts without occurrence", 1)
		} else if pos > 0 {
			c.Event("occurrences after the start", 1)
		} else {
			c.Event("occurrences at the start", 1)
		}
		fail := func(what string, want, got *Outcome) {
			c.Fail("%s\npattern: %s\ntext: %s\nfirst occurrence at %d\nexpected: %s\nobserved: %s", what, clip(s.String(), 2500), quote(in), pos, clip(want.String(), 1000), clip(got.String(), 1000))
		}
		if d := diffOutcome(&want, &got); d != "" {
			fail("the search differs from the match at the first occurrence: "+d, &want, &got)
		}
		if pos >= 0 {
			want.Caps = append(want.Caps, &Cap{99, want.End, len(in) - want.End, nil})
			want.End = len(in)
		}
		got = execCode(tailed, bytes.NewReader(in), memo.NoneTable{}, budget)
		c.Eval()
		if d := diffOutcome(&want, &got); d != "" {
			fail("a search followed by the rest of the text differs: "+d, &want, &got)
		}
		if repeated == nil {
			continue
		}
		all := Outcome{Match: true}
		for {
			o, p := a.first(in, all.End, budget)
			if p < 0 {
				break
			}
			all.Caps = append(all.Caps, &Cap{98, all.End, o.End - all.End, o.Caps})
			all.End = o.End
		}
		got = execCode(repeated, bytes.NewReader(in), memo.NoneTable{}, budget)
		c.Eval()
		c.Event("occurrences walked", len(all.Caps))
		if d := diffOutcome(&all, &got); d != "" {
			fail("repeated search differs from the successive occurrences: "+d, &all, &got)
		}
	}
	c.Sample("search %s", s)
}

// c20Large searches words in long texts.
func c20Large(c *C) {
	alpha := []byte(alphabets[c.R.IntN(len(alphabets))])
	n := 1 + c.R.IntN(6)
	word := make([]byte, n)
	for i := range word {
		word[i] = alpha[c.R.IntN(len(alpha))]
	}
	size := []int{100, 4090, 4096, 4100, 8190, 9000}[c.R.IntN(6)] + c.R.IntN(10)
	text := make([]byte, size)
	sparse := c.R.IntN(2) == 0
	for i := range text {
		text[i] = alpha[c.R.IntN(len(alpha))]
		if sparse && c.R.IntN(200) != 0 {
			text[i] = 'z'
		}
	}
	if c.R.IntN(2) == 0 && size > n {
		// a word across a boundary, or at the very end
		at := min(size-n, []int{4096, 8192, size}[c.R.IntN(3)]-c.R.IntN(n+1))
		copy(text[max(0, at):], word)
	}
	s := lit(string(word))
	form := c.R.IntN(4)
	switch form {
	case 1:
		s = seq()
		for _, b := range word {
			s.Kids = append(s.Kids, class(setOf(b)))
		}
	case 2:
		s = seq(un(KAnd, lit(string(word))), anyN(n))
	case 3:
		s = alt(lit(string(word)+"\x01"), lit(string(word)))
	}
	c.Nontrivial(string(word), fmt.Sprint(form, size, c.Idx))
	c.Note("word %q in %d bytes, form %d", word, size, form)
	one := mustCompile(c, un(KSearch, capt(s, 1)), &Builder{R: c.R})
	all := mustCompile(c, un(KStar, un(KSearch, capt(s, 1))), &Builder{R: c.R})
	budget := int64(size)*2000 + 100000
	i := bytes.Index(text, word)
	got := execCode(one, bytes.NewReader(text), memo.NoneTable{}, budget)
	want := Outcome{}
	if i >= 0 {
		want = Outcome{Match: true, End: i + n, Caps: []*Cap{{1, i, n, nil}}}
	}
	c.Eval()
	if d := diffOutcome(&want, &got); d != "" {
		c.Fail("searching %q (form %d) in %d bytes, first at %d: %s differs: %s", word, form, size, i, d, clip(got.String(), 300))
	}
	want = Outcome{Match: true}
	for {
		i := bytes.Index(text[want.End:], word)
		if i < 0 {
			break
		}
		want.Caps = append(want.Caps, &Cap{1, want.End + i, n, nil})
		want.End += i + n
	}
	got = execCode(all, bytes.NewReader(text), memo.NoneTable{}, budget)
	c.Eval()
	c.Event("occurrences walked", len(want.Caps))
	if d := diffOutcome(&want, &got); d != "" {
		c.Fail("walking all %d occurrences of %q (form %d) in %d bytes: %s differs: %s", len(want.Caps), word, form, size, d, clip(got.String(), 300))
	}
	c.Event("long texts", 1)
}

func init() {
	register(&Prop{
		ID:   "C20",
		Rule: "an execution is one search, compared with parses anchored at every position of the text in turn; distinct non-trivial ones differ in pattern",
		Assume: []string{
			"patterns report no errors (an unrecovered error ends the whole parse)",
			"repeated searches are for patterns that consume something",
		},
		Families: []Family{
			{Name: "first", Quick: 1600, Thorough: 48000, Batch: 100, Run: c20First},
			{Name: "long", Quick: 10000, Thorough: 300000, Batch: 200, Run: c20Large},
		},
		Need: []string{"texts without occurrence", "occurrences after the start", "occurrences walked", "long texts"},
	})
}
