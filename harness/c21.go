package main

import (
	"bytes"
	"fmt"
	"slices"
	"strings"

	"github.com/zyedidia/gpeg/memo"
	"github.com/zyedidia/gpeg/pattern"
	"github.com/zyedidia/gpeg/vm"
)

// errWeights makes error nodes frequent and rarely aborts the parse early.
func errWeights(c *C) map[Kind]int {
	w := genWeights(c)
	w[KError] = 8 + c.R.IntN(8)
	w[KCap], w[KMemo], w[KCheck] = 2, 1, c.R.IntN(2)
	w[KNonTerm] = 10
	w[KGrammar] = c.R.IntN(2)
	return w
}

// diffErrors compares what C21 is about.
func diffErrors(want, got *Outcome) string {
	switch {
	case len(want.Errs) != len(got.Errs):
		return fmt.Sprintf("%d errors expected, %d reported", len(want.Errs), len(got.Errs))
	case !sameErrs(want.Errs, got.Errs):
		for i := range want.Errs {
			if want.Errs[i] != got.Errs[i] {
				return fmt.Sprintf("error %d differs: expected %v, reported %v", i, want.Errs[i], got.Errs[i])
			}
		}
	case want.Abort && got.Match:
		return "an error without recovery did not make the parse fail"
	case len(want.Errs) > 0 && want.Match != got.Match:
		return "the parse does not go on from the error as its recovery says: match result"
	case len(want.Errs) > 0 && want.Match && want.End != got.End:
		return "the parse does not go on from the error as its recovery says: end position"
	case len(want.Errs) > 0 && want.Match && !capsEqual(want.Caps, got.Caps):
		return "the parse does not go on from the error as its recovery says: captures"
	}
	return ""
}

// heldErrors are lists of errors that earlier parses of the case have returned.
// They are the caller's, and later parses must leave them alone.
var heldErrors struct {
	c     *C
	lists [][]vm.ParseError
	want  [][]vm.ParseError
	where []string
}

func c21Hold(c *C, errs []vm.ParseError, where string) {
	h := &heldErrors
	if h.c != c {
		h.c, h.lists, h.want, h.where = c, nil, nil, nil
	}
	for i := range h.lists {
		if !slices.Equal(h.lists[i], h.want[i]) {
			c.Fail("the list of errors of an earlier parse has become %v; it was %v\nearlier parse: %s\nlater parse: %s", h.lists[i], h.want[i], h.where[i], where)
		}
		c.Event("lists of errors read again after other parses", 1)
	}
	if len(errs) == 0 {
		return
	}
	if len(h.lists) >= 4 {
		h.lists, h.want, h.where = h.lists[1:], h.want[1:], h.where[1:]
	}
	h.lists = append(h.lists, errs)
	h.want = append(h.want, slices.Clone(errs))
	h.where = append(h.where, where)
}

// c21Watch runs the variants of a pattern on an input and judges the errors.
func c21Watch(c *C, s *Spec, codes []*vm.Code, names []string, in []byte, limit int) {
	want, steps, ok := interpret(s, in, limit)
	if !ok {
		c.Event("skipped: model out of steps", 1)
		return
	}
	switch {
	case want.Abort:
		c.Event("parses ended by an error without recovery", 1)
	case len(want.Errs) > 0 && want.Match:
		c.Event("parses that recovered and matched", 1)
	case len(want.Errs) > 0:
		c.Event("parses that recovered and failed", 1)
	default:
		c.Event("parses without errors", 1)
	}
	if len(want.Errs) > 1 {
		c.Event("parses with several errors", 1)
	}
	c.Event("errors reported", len(want.Errs))
	c.Max("errors in one parse", len(want.Errs))
	for i, code := range codes {
		c.ClearNotes()
		c.Note("pattern: %s", clip(s.String(), 3000))
		c.Note("input: %s, %s", quote(in), names[i])
		c.Note("model: %s", clip(want.String(), 1500))
		vmSteps, vmBudget = 0, budgetFor(steps)
		var m bool
		var end int
		var root *memo.Capture
		var errs []vm.ParseError
		how := c.R.IntN(6)
		switch how {
		case 0:
			m, end, root, errs = code.ExecInterval(bytes.NewReader(in), memo.NoneTable{}, &vm.Interval{Low: 0, High: len(in) + 1})
		case 1:
			m, end, root, errs = code.Exec(bytes.NewReader(in), memo.NewTreeTable(1<<30))
		default:
			m, end, root, errs = code.Exec(bytes.NewReader(in), memo.NoneTable{})
		}
		vmBudget = 1 << 62
		c21Hold(c, errs, quote(in)+" by "+names[i]+" of "+clip(s.String(), 1000))
		got := convert(m, end, root, errs)
		if how == 0 {
			// which captures an interval parse keeps is another property's matter
			got.Caps = want.Caps
		}
		c.Eval()
		if d := diffErrors(&want, &got); d != "" {
			c.Fail("%s (%s)\npattern: %s\ninput: %s\nexpected: %s\nobserved: %s", d, names[i], clip(s.String(), 3000), quote(in), clip(want.String(), 1500), clip(got.String(), 1500))
		}
		for _, e := range errs {
			if e.Error() != fmt.Sprintf("%d: %s", e.Pos, e.Message) {
				c.Fail("an error prints as %q, with position %d and message %q", e.Error(), e.Pos, e.Message)
			}
		}
	}
}

func c21Variants(c *C, s *Spec) (codes []*vm.Code, names []string) {
	add := func(name string, p pattern.Pattern, th, passes int) {
		c.ClearNotes()
		c.Note("pattern: %s", clip(s.String(), 3000))
		code, err := variant(c, p, th, passes)
		if err != nil {
			c.Fail("a well-formed pattern was refused: %v\npattern: %s", err, clip(s.String(), 3000))
		}
		codes = append(codes, code)
		names = append(names, fmt.Sprintf("%s, inline threshold %d, %d passes", name, th, passes))
	}
	p := (&Builder{R: c.R, Share: c.R.IntN(2) == 0}).Build(s)
	add("first", p, 0, 0)
	add("again", p, 100, 1)
	add("fresh", (&Builder{R: c.R}).Build(s), thresholds[c.R.IntN(len(thresholds))], c.R.IntN(3))
	if b, err := codes[1].ToBytes(); err == nil && !s.has(KCheck) && c.R.IntN(4) == 0 {
		if l, err := vm.FromBytes(b); err == nil {
			codes = append(codes, &l)
			names = append(names, "loaded")
		}
	}
	return
}

func c21Case(c *C) {
	g := newGen(c.R, errWeights(c))
	g.Msgs = 1 + c.R.IntN(8)
	var s *Spec
	for try := 0; ; try++ {
		if c.R.IntN(2) == 0 {
			s = g.pattern(6 + c.R.IntN(20))
		} else {
			s = g.grammar(1+c.R.IntN(4), 10+c.R.IntN(25))
		}
		if s.has(KError) || try > 50 {
			break
		}
	}
	if c.R.IntN(3) == 0 {
		// what follows must see the errors too
		s = alt(s, errorSpec("top", un(KStar, anyN(1))))
	}
	coverShape(c, s)
	nontrivialSpec(c, s, "")
	c.Sample("%s", s)
	codes, names := c21Variants(c, s)
	for _, in := range g.inputs(s, shortLen(g)-1, 14, 80) {
		c21Watch(c, s, codes, names, in, interpLimit)
	}
}

// c21Lang is a language of statements whose grammar reports what is missing
// and skips to where it can go on.
func c21Lang(c *C) (*Spec, func(n int) []byte) {
	r := c.R
	ws := un(KStar, class(setOf(' ', '\n')))
	tok := func(t string) *Spec { return seq(lit(t), ws) }
	letters := setRange('a', 'z')
	digits := setRange('0', '9')
	syncTo := func(stops string) *Spec {
		set := setOf([]byte(stops)...)
		switch r.IntN(3) {
		case 0:
			return un(KStar, seq(un(KNot, class(set)), anyN(1)))
		case 1:
			return un(KStar, class(set.complement()))
		}
		return un(KAnd, un(KSearch, class(set)))
	}
	expect := func(p *Spec, msg, stops string) *Spec {
		switch r.IntN(4) {
		case 0:
			return alt(p, errorSpec(msg, empty()))
		case 1:
			return alt(p, errorSpec(msg, nil))
		case 2:
			return alt(p, seq(un(KNot, p.copy()), errorSpec(msg, syncTo(stops))))
		}
		return alt(p, errorSpec(msg, syncTo(stops)))
	}
	msg := func(s string) string {
		if r.IntN(4) == 0 {
			return s + strings.Repeat("!", r.IntN(3)) + " \u2026\x00%d"
		}
		return s
	}
	id := seq(class(letters), un(KStar, class(letters)), ws)
	num := seq(un(KPlus, class(digits)), ws)
	rules := map[string]*Spec{
		"Prog":   seq(ws, un(KStar, nonterm("Stmt")), expect(un(KNot, anyN(1)), msg("text after the end"), "")),
		"Stmt":   alt(nonterm("If"), nonterm("Block"), nonterm("Assign"), seq(un(KNot, class(setOf('}'))), un(KAnd, anyN(1)), errorSpec(msg("statement"), seq(anyN(1), syncTo(";}\n"), un(KOpt, class(setOf(';', '\n'))))))),
		"If":     seq(tok("if"), expect(tok("("), msg("missing ("), "{;)"), expect(nonterm("Expr"), msg("missing condition"), ")"), expect(tok(")"), msg("missing )"), "{;"), expect(nonterm("Block"), msg("missing block"), "}")),
		"Block":  seq(tok("{"), un(KStar, nonterm("Stmt")), expect(tok("}"), msg("missing }"), "")),
		"Assign": capt(seq(id, expect(tok("="), msg("missing ="), ";"), expect(nonterm("Expr"), msg("missing value"), ";"), expect(tok(";"), msg("missing ;"), "\n}")), 1),
		"Expr":   seq(nonterm("Term"), un(KStar, seq(tok("+"), expect(nonterm("Term"), msg("missing operand"), "+;")))),
		"Term":   alt(num, id, seq(tok("("), nonterm("Expr"), expect(tok(")"), msg("unclosed ("), ";"))),
	}
	s := grammar("Prog", rules)
	var stmt func(d int) string
	var expr func(d int) string
	expr = func(d int) string {
		switch r.IntN(5) {
		case 0:
			return fmt.Sprint(r.IntN(100))
		case 1:
			if d > 0 {
				return "(" + expr(d-1) + ")"
			}
		case 2:
			if d > 0 {
				return expr(d-1) + " + " + expr(d-1)
			}
		}
		return string(rune('a' + r.IntN(26)))
	}
	stmt = func(d int) string {
		if d > 0 && r.IntN(4) == 0 {
			b := "{ "
			for i := r.IntN(3); i > 0; i-- {
				b += stmt(d - 1)
			}
			b += "}\n"
			if r.IntN(2) == 0 {
				return "if (" + expr(2) + ") " + b
			}
			return b
		}
		return string(rune('a'+r.IntN(26))) + " = " + expr(2) + ";\n"
	}
	return s, func(n int) []byte {
		var b []byte
		for i := 0; i < n; i++ {
			b = append(b, stmt(3)...)
		}
		for i := r.IntN(n + 2); i > 0; i-- {
			if len(b) == 0 {
				break
			}
			p := r.IntN(len(b))
			switch r.IntN(4) {
			case 0:
				b = append(b[:p], b[min(len(b), p+1+r.IntN(3)):]...)
			case 1:
				b[p] = "(){};=+ ax1?\n"[r.IntN(13)]
			default:
				// drop a token
				if q := bytes.IndexAny(b[p:], "(){};=+"); q >= 0 {
					b = append(b[:p+q], b[p+q+1:]...)
				}
			}
		}
		return b
	}
}

func c21Programs(c *C) {
	s, text := c21Lang(c)
	if !wellFormed(s) {
		c.Event("skipped: not well-formed", 1)
		return
	}
	coverShape(c, s)
	codes, names := c21Variants(c, s)
	for i := 0; i < 12; i++ {
		n := 1 + c.R.IntN(12)
		if i == 0 {
			n = 100 + c.R.IntN(200)
		}
		in := text(n)
		c.Nontrivial(s.String(), string(in))
		c21Watch(c, s, codes, names, in, 3000000)
	}
	c.Sample("%s", s)
}

// c21Many has many messages and many errors.
func c21Many(c *C) {
	n := []int{2, 10, 100, 300, 1000}[c.R.IntN(5)]
	// one message per byte value, and different messages per word
	s := seq()
	kinds := 2 + c.R.IntN(20)
	a := alt()
	for i := 0; i < kinds; i++ {
		set := setOf(byte('a' + i))
		m := fmt.Sprintf("bad %c", 'a'+i)
		if c.R.IntN(3) == 0 {
			m = "bad"
		}
		a.Kids = append(a.Kids, seq(un(KAnd, class(set)), errorSpec(m, seq(anyN(1), un(KStar, class(set))))))
	}
	a.Kids = append(a.Kids, lit(" "))
	s.Kids = append(s.Kids, un(KStar, a))
	if c.R.IntN(2) == 0 {
		s.Kids = append(s.Kids, errorSpec("end", nil))
	} else {
		s.Kids = append(s.Kids, errorSpec("end", un(KNot, anyN(1))), errorSpec("", empty()))
	}
	if !wellFormed(s) {
		return
	}
	codes, names := c21Variants(c, s)
	var in []byte
	for i := 0; i < n; i++ {
		in = append(in, byte('a'+c.R.IntN(kinds+1)))
		if c.R.IntN(2) == 0 {
			in = append(in, ' ')
		}
	}
	c.Nontrivial(s.String(), string(in))
	c21Watch(c, s, codes, names, in, 3000000)
}

func init() {
	register(&Prop{
		ID:   "C21",
		Rule: "an execution is one parse by one compilation of a pattern, whose reported errors are compared with those the interpreter reports; distinct non-trivial ones differ in pattern (at least 3 nodes) or, for programs of the statement language, in text",
		Assume: []string{
			"the reference interpreter states PEG semantics correctly",
			"no memo table is in use: what a memo hit skips is not parsed, and its errors are not reported again",
		},
		Families: []Family{
			{Name: "random", Quick: 32000, Thorough: 960000, Batch: 400, Run: c21Case},
			{Name: "programs", Quick: 2400, Thorough: 72000, Batch: 20, Run: c21Programs},
			{Name: "many", Quick: 3200, Thorough: 96000, Batch: 50, Run: c21Many},
		},
		Need: []string{"parses ended by an error without recovery", "parses that recovered and matched", "parses that recovered and failed", "parses with several errors"},
	})
}
