package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/zyedidia/gpeg/input"
	"github.com/zyedidia/gpeg/isa"
	"github.com/zyedidia/gpeg/memo"
	"github.com/zyedidia/gpeg/pattern"
	"github.com/zyedidia/gpeg/vm"
)

func checkWeights(c *C) map[Kind]int {
	w := genWeights(c)
	w[KCheck] = 8 + c.R.IntN(10)
	w[KCap] = 2
	w[KNonTerm] = 10
	w[KGrammar] = c.R.IntN(2)
	w[KSearch] = c.R.IntN(3)
	return w
}

// recheck varies the checkers of s: larger ids and flags, back-references,
// other word lists.
func recheck(c *C, g *Gen, s *Spec) {
	s.walk(func(x *Spec) {
		if x.K != KCheck {
			return
		}
		switch c.R.IntN(10) {
		case 0:
			x.Id, x.Flag = -1-c.R.IntN(3), -1-c.R.IntN(300)
		case 1:
			x.Id, x.Flag = c.R.IntN(1<<16)-1<<15, c.R.IntN(1<<16)-1<<15
		case 2:
			x.Id, x.Flag = []int{0, 255, 256, 32767, -32768, 128}[c.R.IntN(6)], []int{0, 255, 256, 32767, -32768, 128}[c.R.IntN(6)]
		case 3, 4, 5:
			// a back-reference: define, use or neither
			x.Check = &CheckSpec{Kind: "backref", Ref: c.R.IntN(2)}
			x.Id, x.Flag = c.R.IntN(2), c.R.IntN(3)
			if x.Flag != 0 && c.R.IntN(2) == 0 {
				x.Kids[0] = empty()
			}
		}
	})
}

func diffCalls(want, got *Outcome) string {
	for i := range want.Calls {
		if i >= len(got.Calls) {
			return fmt.Sprintf("%d calls of checkers expected, %d made; missing %+v", len(want.Calls), len(got.Calls), want.Calls[i])
		}
		if want.Calls[i] != got.Calls[i] {
			return fmt.Sprintf("call %d of a checker differs: expected %s, made %s", i, clip(fmt.Sprintf("%+v", want.Calls[i]), 300), clip(fmt.Sprintf("%+v", got.Calls[i]), 300))
		}
	}
	if len(got.Calls) > len(want.Calls) {
		return fmt.Sprintf("%d calls of checkers expected, %d made; unexpected %+v", len(want.Calls), len(got.Calls), got.Calls[len(want.Calls)])
	}
	if len(want.Calls) > 0 {
		return diffMemo(want, got)
	}
	return ""
}

func c22Watch(c *C, s *Spec, codes []*vm.Code, b *Builder, in []byte, limit int) {
	want, steps, ok := interpret(s, in, limit)
	if !ok {
		c.Event("skipped: model out of steps", 1)
		return
	}
	for _, k := range want.Calls {
		switch {
		case k.Ret < 0:
			c.Event("checks that refused", 1)
		case k.Ret > 0:
			c.Event("checks that extended the match", 1)
		default:
			c.Event("checks that accepted", 1)
		}
		if k.Text == "" {
			c.Event("checks of the empty text", 1)
		}
		c.Max("checked text", len(k.Text))
	}
	for i, code := range codes {
		c.ClearNotes()
		c.Note("pattern: %s", clip(s.String(), 3000))
		c.Note("input: %s", quote(in))
		c.Note("model: %s", clip(want.String(), 1500))
		b.resetRefs()
		*b.callLog, *b.kept = nil, nil
		got := execCode(code, bytes.NewReader(in), memo.NoneTable{}, budgetFor(steps))
		got.Calls = append([]CheckCall{}, *b.callLog...)
		c.Eval()
		if d := diffCalls(&want, &got); d != "" {
			c.Fail("%s (variant %d)\npattern: %s\ninput: %s\nexpected: %s\nobserved: %s", d, i, clip(s.String(), 3000), quote(in), clip(want.String(), 1500), clip(got.String(), 1500))
		}
		for _, k := range *b.kept {
			if string(k.b) != k.text {
				c.Fail("a checker was given %s, which is %s after the parse (variant %d)\npattern: %s\ninput: %s", quote([]byte(k.text)), quote(k.b), i, clip(s.String(), 3000), quote(in))
			}
			c.Event("texts that checkers kept", 1)
		}
	}
}

func c22Codes(c *C, s *Spec) ([]*vm.Code, *Builder) {
	var log []CheckCall
	var kept []keptText
	b := &Builder{R: c.R, callLog: &log, kept: &kept}
	p := b.Build(s)
	var codes []*vm.Code
	for i := 0; i < 2; i++ {
		th, passes := 100, 1
		if i > 0 {
			th, passes = thresholds[c.R.IntN(len(thresholds))], c.R.IntN(3)
		}
		c.ClearNotes()
		c.Note("pattern: %s", clip(s.String(), 3000))
		code, err := variant(c, p, th, passes)
		if err != nil {
			c.Fail("a well-formed pattern was refused: %v\npattern: %s", err, clip(s.String(), 3000))
		}
		codes = append(codes, code)
	}
	return codes, b
}

func c22Case(c *C) {
	g := newGen(c.R, checkWeights(c))
	var s *Spec
	for try := 0; ; try++ {
		if c.R.IntN(2) == 0 {
			s = g.pattern(6 + c.R.IntN(20))
		} else {
			s = g.grammar(1+c.R.IntN(4), 10+c.R.IntN(25))
		}
		if s.has(KCheck) || try > 50 {
			break
		}
	}
	recheck(c, g, s)
	if !wellFormed(s) {
		return
	}
	coverShape(c, s)
	nontrivialSpec(c, s, "")
	c.Sample("%s", s)
	codes, b := c22Codes(c, s)
	for _, in := range g.inputs(s, shortLen(g)-1, 14, 80) {
		c22Watch(c, s, codes, b, in, interpLimit)
	}
}

// c22Refs watches languages with back-references: here-documents, nested tags
// with the same name, quotes of any kind.
func c22Refs(c *C) {
	ab := []string{"ab", "ab", "a\x00", "\xff\x00"}[c.R.IntN(4)]
	letters := setOf([]byte(ab)...)
	name := un(KPlus, class(letters))
	anyName := un(KStar, class(letters)) // or none
	def := func(p *Spec, id int) *Spec {
		x := un(KCheck, p)
		x.Check, x.Id, x.Flag = &CheckSpec{Kind: "backref"}, id, int(isa.RefDef)
		return x
	}
	use := func(p *Spec, id int) *Spec {
		x := un(KCheck, p)
		x.Check, x.Id, x.Flag = &CheckSpec{Kind: "backref"}, id, int(isa.RefUse)
		return x
	}
	block := func(p *Spec, id int) *Spec {
		x := un(KCheck, p)
		x.Check, x.Id, x.Flag = &CheckSpec{Kind: "backref"}, id, int(isa.RefBlock)
		return x
	}
	var s *Spec
	var mk func() string
	long := 0
	if c.R.IntN(12) == 0 {
		long = []int{100, 130, 260, 300, 1000, 4200}[c.R.IntN(6)]
	}
	word := func() string {
		w := ""
		if long > 0 && c.R.IntN(3) > 0 {
			w = strings.Repeat(ab[c.R.IntN(2):][:1], long-5+c.R.IntN(10))
			c.Event("long references", 1)
		}
		for i := 0; i <= c.R.IntN(3); i++ {
			w += ab[c.R.IntN(2):][:1]
		}
		return w
	}
	if c.R.IntN(3) == 0 {
		name = anyName
		some := word
		word = func() string {
			if c.R.IntN(3) == 0 {
				return ""
			}
			return some()
		}
		c.Event("languages that define empty references", 1)
	}
	switch c.R.IntN(4) {
	case 0: // <<END ... END
		s = seq(lit("<"), def(name, 1), lit("\n"), capt(un(KStar, seq(un(KNot, seq(lit("\n"), use(empty(), 1))), anyN(1))), 1), lit("\n"), use(empty(), 1))
		mk = func() string {
			w := word()
			b := "<" + w + "\n"
			for i := c.R.IntN(4); i > 0; i-- {
				b += word() + "\n"
			}
			return b + w + "\n"
		}
	case 1: // aXa
		s = un(KPlus, seq(def(class(letters), 7), un(KStar, seq(un(KNot, use(empty(), 7)), anyN(1))), use(empty(), 7)))
		mk = func() string { return word() + word() + word() }
	case 2: // w w w ... with the use matching a prefix as well
		s = grammar("S", map[string]*Spec{
			"S": seq(block(def(name, -3), 9), un(KStar, seq(lit(" "), use(un(KOpt, lit("-")), -3)))),
		})
		mk = func() string {
			w := word()
			b := w
			for i := c.R.IntN(4); i > 0; i-- {
				b += " "
				if c.R.IntN(3) == 0 {
					b += "-"
				}
				if c.R.IntN(5) == 0 {
					w = word()
				}
				b += w
			}
			return b
		}
	case 3: // two ids; redefinition
		s = un(KPlus, alt(seq(lit("="), def(name, 0), lit(";")), seq(lit("+"), def(name, 1), lit(";")), seq(lit("$"), use(empty(), 0), lit(";")), seq(lit("#"), use(empty(), 1), lit(";"))))
		mk = func() string {
			b := ""
			vals := [2]string{}
			for i := 0; i < 2+c.R.IntN(8); i++ {
				k := c.R.IntN(2)
				if c.R.IntN(2) == 0 {
					vals[k] = word()
					b += string("=+"[k]) + vals[k] + ";"
				} else {
					w := vals[k]
					if c.R.IntN(6) == 0 {
						w = word()
					}
					b += string("$#"[k]) + w + ";"
				}
			}
			return b
		}
	}
	codes, b := c22Codes(c, s)
	for i := 0; i < 25; i++ {
		if long > 0 && i == 5 {
			break
		}
		in := mk()
		if c.R.IntN(4) == 0 && len(in) > 0 {
			k := c.R.IntN(len(in))
			in = in[:k] + in[k+1:]
		}
		if c.R.IntN(4) == 0 {
			// cut off at the end
			in = in[:len(in)-c.R.IntN(min(len(in), 3)+1)]
		}
		c.Nontrivial(s.String(), in)
		c22Watch(c, s, codes, b, []byte(in), 200000+long*100)
	}
	c.Event("languages with back-references", 1)
	c.Sample("%s", s)
}

// c22Words checks word lists against every word nearby.
func c22Words(c *C) {
	r := c.R
	alpha := []byte(alphabets[r.IntN(len(alphabets))])
	var words []string
	many, long := 12, 5
	if r.IntN(10) == 0 {
		many, long = 1+r.IntN(600), 1+r.IntN(700)
	}
	for i := r.IntN(many); i >= 0; i-- {
		var w []byte
		for k := r.IntN(long); k > 0; k-- {
			w = append(w, alpha[r.IntN(len(alpha))])
		}
		words = append(words, string(w))
	}
	in := map[string]bool{}
	for _, w := range words {
		in[w] = true
	}
	p := pattern.Concat(pattern.Check(pattern.Star(pattern.Any(1)), isa.NewMapChecker(words)), pattern.Not(pattern.Any(1)))
	code, err := compileSpec(p)
	if err != nil {
		c.Fail("refused: %v", err)
	}
	try := func(w string) {
		got := execCode(code, bytes.NewReader([]byte(w)), memo.NoneTable{}, defaultBudget)
		c.Eval()
		if got.Match != in[w] || got.Match && got.End != len(w) {
			c.Fail("word list %q, text %q: %s", words, w, got.String())
		}
		if in[w] {
			c.Event("listed words", 1)
		} else {
			c.Event("other words", 1)
		}
	}
	for _, s := range shortStrings(alpha, 3) {
		try(string(s))
	}
	for _, w := range words {
		try(w)
		try(w + string(alpha[0]))
		if len(w) > 0 {
			try(w[1:])
			try(w[:len(w)-1])
		}
	}
	c.Nontrivial(fmt.Sprintf("%q", words))
}

// probe is a checker that looks at everything it is given.
type probe struct {
	c     *C
	in    []byte
	start int
	ret   int
	calls int
	keep  []byte // as it was given
	text  string
}

func (p *probe) Check(b []byte, src *input.Input, id, flag int) int {
	p.calls++
	pos := src.Pos()
	if pos != p.start+len(b) || pos > len(p.in) || !bytes.Equal(b, p.in[p.start:pos]) {
		p.c.Fail("a checker got %s with the input at %d; the match started at %d", quote(b), pos, p.start)
	}
	// what follows can be read through the input
	buf := make([]byte, 1+p.c.R.IntN(20))
	n, _ := src.ReadAt(buf, int64(pos))
	if w := p.in[pos:min(len(p.in), pos+len(buf))]; !bytes.Equal(buf[:n], w) {
		p.c.Fail("a checker read %s after the match, expected %s", quote(buf[:n]), quote(w))
	}
	p.keep, p.text = b, string(b)
	if pos+p.ret > len(p.in) {
		return len(p.in) - pos
	}
	return p.ret
}

// c22Long checks long matches, across the blocks the input is read in, and
// with extensions over long distances.
func c22Long(c *C) {
	r := c.R
	edge := []int{0, 4096, 8192, 12288, 300, 70000}[r.IntN(6)]
	start := max(0, edge-r.IntN(8)+2)
	size := []int{0, 1, 2, 10, 4095, 4096, 4097, 5000, 9000, 70000}[r.IntN(10)]
	tail := r.IntN(6000)
	in := make([]byte, start+size+tail)
	for i := range in {
		in[i] = byte(r.IntN(256))
	}
	pr := &probe{c: c, in: in, start: start, ret: []int{0, 0, 1, 255, 256, 4096, 5000, -1}[r.IntN(8)]}
	many := func(n int) pattern.Pattern {
		ps := []pattern.Pattern{pattern.Repeat(pattern.Any(1), n%250)}
		for n -= n % 250; n > 0; n -= 250 {
			ps = append(ps, pattern.Any(250))
		}
		return pattern.Concat(ps...)
	}
	p := pattern.Concat(many(start), pattern.Cap(pattern.Check(many(size), pr), 5), pattern.Cap(pattern.Star(pattern.Any(1)), 6))
	code, err := compileSpec(p)
	if err != nil {
		c.Fail("refused: %v", err)
	}
	c.Nontrivial(fmt.Sprint(start, size, tail, pr.ret))
	c.Note("checked %d bytes at %d of %d, answer %d", size, start, len(in), pr.ret)
	c.Event("long checks", 1)
	got := execCode(code, bytes.NewReader(in), memo.NoneTable{}, defaultBudget)
	c.Eval()
	if pr.calls != 1 {
		c.Fail("a checker was called %d times; its pattern matched once", pr.calls)
	}
	if string(pr.keep) != pr.text {
		c.Fail("a checker was given %d bytes, which are others after the parse", len(pr.text))
	}
	want := Outcome{}
	if pr.ret >= 0 {
		e := min(len(in), start+size+pr.ret)
		want = Outcome{Match: true, End: len(in), Caps: []*Cap{{5, start, e - start, nil}, {6, e, len(in) - e, nil}}}
	}
	if d := diffMemo(&want, &got); d != "" {
		c.Fail("%s differs after a check of %d bytes at %d of %d, answered %d: %s", d, size, start, len(in), pr.ret, clip(got.String(), 300))
	}
}

func init() {
	register(&Prop{
		ID:   "C22",
		Rule: "an execution is one parse; the log of its calls of checkers (text, id, flag, position, answer) is compared with that of the interpreter; distinct non-trivial ones differ in pattern (at least 3 nodes) or text",
		Assume: []string{
			"the reference interpreter states PEG semantics correctly",
			"no memo table is in use: a memo hit stands for the calls made when the entry was recorded",
			"a checker that extends the match stays within the text",
		},
		Families: []Family{
			{Name: "random", Quick: 75000, Thorough: 2200000, Batch: 500, Run: c22Case},
			{Name: "references", Quick: 15000, Thorough: 450000, Batch: 200, Run: c22Refs},
			{Name: "words", Quick: 5000, Thorough: 150000, Batch: 200, Run: c22Words},
			{Name: "nested", Quick: 24000, Thorough: 720000, Batch: 100, Run: c22Nested},
			{Name: "long", Quick: 7500, Thorough: 220000, Batch: 100, Run: c22Long},
		},
		Need: []string{"parses that checkers made with the program that called them", "checks that refused", "checks that accepted", "checks that extended the match", "checks of the empty text", "languages with back-references", "languages that define empty references", "listed words", "other words"},
	})
}

// parsingChecker makes a parse of the text that it checks, the result of which
// counts in its decision.
type parsingChecker struct {
	c     isa.Checker
	parse func(b []byte) (ok bool, match bool, end int)
}

func (p *parsingChecker) Check(b []byte, src *input.Input, id, flag int) int {
	var v int
	first := len(b)%2 == 0
	if first {
		v = p.c.Check(b, src, id, flag)
	}
	ok, match, end := p.parse(append([]byte(nil), b...))
	if !first {
		v = p.c.Check(b, src, id, flag)
	}
	switch {
	case !ok:
	case match && (end+len(b))%3 == 0:
		return -1
	case match && end%2 == 0 && v == -1:
		return 0
	}
	return v
}

// c22Nested has checkers that parse the matched text with the very program
// that has called them, or with a copy of it, which must make no difference.
func c22Nested(c *C) {
	w := checkWeights(c)
	w[KMemo] = 1
	g := newGen(c.R, w)
	var s *Spec
	for try := 0; ; try++ {
		if c.R.IntN(2) == 0 {
			s = g.pattern(4 + c.R.IntN(12))
		} else {
			s = g.grammar(1+c.R.IntN(3), 6+c.R.IntN(12))
		}
		if s.has(KCheck) || try > 50 {
			break
		}
	}
	nontrivialSpec(c, s, "nested")
	c.Note("pattern: %s", clip(s.String(), 3000))
	c.Sample("%s", clip(s.String(), 400))
	var calls []CheckCall
	var checkers []*parsingChecker
	b := &Builder{R: c.R, callLog: &calls, wrap: func(k isa.Checker) isa.Checker {
		p := &parsingChecker{c: k}
		checkers = append(checkers, p)
		return p
	}}
	prog, err := pattern.Compile(b.Build(s))
	if err != nil {
		c.Fail("a well-formed pattern was refused: %v\npattern: %s", err, clip(s.String(), 3000))
	}
	same := vm.Encode(prog)
	run := func(in []byte, pick func() *vm.Code, table bool) Outcome {
		depth, left := 0, 60
		tbl := func() memo.Table {
			if table {
				return memo.NewTreeTable(0)
			}
			return memo.NoneTable{}
		}
		for _, k := range checkers {
			k.parse = func(text []byte) (bool, bool, int) {
				if depth >= 3 || left == 0 {
					return false, false, 0
				}
				depth++
				left--
				m, end, _, _ := pick().Exec(bytes.NewReader(text), tbl())
				depth--
				return true, m, end
			}
		}
		calls = nil
		m, end, root, errs := pick().Exec(bytes.NewReader(in), tbl())
		o := convert(m, end, root, errs)
		o.Calls = append([]CheckCall(nil), calls...)
		c.Eval()
		if left < 60 {
			c.Event("parses that checkers made with the program that called them", 60-left)
		}
		return o
	}
	for _, in := range g.inputs(s, 0, 6, 30) {
		if _, steps, ok := interpret(s, in, 2000); !ok || steps > 2000 {
			c.Event("skipped: model out of steps", 1)
			continue
		}
		table := c.R.IntN(3) == 0
		c.ClearNotes()
		c.Note("pattern: %s", clip(s.String(), 3000))
		c.Note("input: %s", quote(in))
		want := run(in, func() *vm.Code { code := vm.Encode(prog); return &code }, table)
		got := run(in, func() *vm.Code { return &same }, table)
		d := diffOutcome(&want, &got)
		if d == "" {
			d = diffCalls(&want, &got)
		}
		if d != "" {
			c.Fail("%s when the checkers parse with the program that calls them, rather than with a copy of it\npattern: %s\ninput: %s\nwith copies: %s\nwith itself: %s", d, clip(s.String(), 3000), quote(in), clip(want.String(), 1000), clip(got.String(), 1000))
		}
	}
}
