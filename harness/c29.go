package main

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"regexp/syntax"
	"strconv"
	"strings"

	"github.com/zyedidia/gpeg/isa"
	"github.com/zyedidia/gpeg/memo"
	"github.com/zyedidia/gpeg/pattern"
	"github.com/zyedidia/gpeg/re"
	"github.com/zyedidia/gpeg/vm"
)

// The printed form of a pattern is read back as an expression: a prefix
// applies to what follows, a suffix binds tighter than a prefix, sequences and
// choices stand in parentheses. A grammar is the name of its first rule on a
// line of its own, followed by a line for each rule.

type prettyReader struct {
	s     string
	inG   bool // inside of a grammar, whose rules are patterns without grammars
	depth int
	seen  map[string]int
}

func (r *prettyReader) eat(t string) bool {
	if strings.HasPrefix(r.s, t) {
		r.s = r.s[len(t):]
		return true
	}
	return false
}

func (r *prettyReader) want(t string) error {
	if !r.eat(t) {
		return fmt.Errorf("%q expected before %q", t, clip(r.s, 60))
	}
	return nil
}

func isNameByte(b byte) bool {
	return b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' || b >= '0' && b <= '9' || b == '_'
}

func (r *prettyReader) name() string {
	n := 0
	for n < len(r.s) && isNameByte(r.s[n]) {
		n++
	}
	w := r.s[:n]
	r.s = r.s[n:]
	return w
}

// wrapped reads a pattern and the text that closes it.
func (r *prettyReader) wrapped(k Kind, end string) (*Spec, error) {
	p, err := r.expr()
	if err != nil {
		return nil, err
	}
	return un(k, p), r.want(end)
}

func (r *prettyReader) expr() (*Spec, error) {
	r.depth++
	defer func() { r.depth-- }()
	if r.depth > 20000 {
		return nil, errors.New("nested too deeply")
	}
	for _, k := range []Kind{KNot, KAnd} {
		if r.eat(map[Kind]string{KNot: "!", KAnd: "&"}[k]) {
			r.seen[kindNames[k]]++
			p, err := r.expr()
			if err != nil {
				return nil, err
			}
			return un(k, p), nil
		}
	}
	p, err := r.primary()
	if err != nil {
		return nil, err
	}
	r.seen[kindNames[p.K]]++
	for {
		switch {
		case r.eat("*"):
			p = un(KStar, p)
		case r.eat("+"):
			p = un(KPlus, p)
		case r.eat("?"):
			p = un(KOpt, p)
		default:
			return p, nil
		}
		r.seen[kindNames[p.K]]++
	}
}

func (r *prettyReader) primary() (*Spec, error) {
	switch {
	case strings.HasPrefix(r.s, "\""):
		q, err := strconv.QuotedPrefix(r.s)
		if err != nil {
			return nil, err
		}
		t, err := strconv.Unquote(q)
		if err != nil {
			return nil, err
		}
		r.s = r.s[len(q):]
		return lit(t), nil
	case r.eat("["):
		set, rest, err := parseSet(r.s)
		if err != nil {
			return nil, err
		}
		r.s = rest
		return class(set), r.want("]")
	case r.eat("."):
		return anyN(1), nil
	case r.eat("("):
		p, err := r.expr()
		if err != nil {
			return nil, err
		}
		kids, op := []*Spec{p}, ""
		for !r.eat(")") {
			o := " "
			if strings.HasPrefix(r.s, " / ") {
				o = " / "
			}
			if op == "" {
				op = o
			}
			if err := r.want(op); err != nil {
				return nil, err
			}
			if p, err = r.expr(); err != nil {
				return nil, err
			}
			kids = append(kids, p)
		}
		switch op {
		case "":
			return p, nil
		case " ":
			return seq(kids...), nil
		}
		return alt(kids...), nil
	case r.eat("{{ "):
		return r.wrapped(KMemo, " }}")
	case r.eat("{ "):
		return r.wrapped(KCap, " }")
	}
	w := r.name()
	if w == "" {
		return nil, fmt.Errorf("pattern expected before %q", clip(r.s, 60))
	}
	switch {
	case w == "search" && r.eat("("):
		return r.wrapped(KSearch, ")")
	case w == "empty" && r.eat("("):
		n, err := strconv.Atoi(r.name())
		if err != nil {
			return nil, err
		}
		return emptyOp(syntax.EmptyOp(n)), r.want(")")
	case w == "err" && r.eat("("):
		msg := r.name()
		if err := r.want(", "); err != nil {
			return nil, err
		}
		if r.eat("<invalid>)") {
			return errorSpec(msg, nil), nil
		}
		p, err := r.expr()
		if err != nil {
			return nil, err
		}
		return errorSpec(msg, p), r.want(")")
	case !r.inG && r.eat("\n"):
		return r.rules(w)
	}
	return nonterm(w), nil
}

// rules reads the lines of a grammar.
func (r *prettyReader) rules(start string) (*Spec, error) {
	g := &Spec{K: KGrammar, Start: start}
	r.inG = true
	defer func() { r.inG = false }()
	for {
		s := r.s
		w := r.name()
		if w == "" || !r.eat(" <- ") {
			r.s = s
			return g, nil
		}
		if g.rule(w) != nil {
			return nil, fmt.Errorf("rule %s is defined twice", w)
		}
		p, err := r.expr()
		if err != nil {
			return nil, err
		}
		if err := r.want("\n"); err != nil {
			return nil, err
		}
		g.Names, g.Kids = append(g.Names, w), append(g.Kids, p)
	}
}

func readPretty(text string) (*Spec, map[string]int, error) {
	r := &prettyReader{s: text, seen: map[string]int{}}
	p, err := r.expr()
	if err == nil && r.s != "" {
		err = fmt.Errorf("%q is left", clip(r.s, 60))
	}
	if err != nil {
		return nil, nil, err
	}
	return p, r.seen, nil
}

func noIds(cs []*Cap) []*Cap {
	var out []*Cap
	for _, c := range cs {
		out = append(out, &Cap{0, c.Start, c.Len, noIds(c.Kids)})
	}
	return out
}

// undefined names a rule that is used but not defined.
func undefined(s *Spec, e *env) string {
	switch s.K {
	case KNonTerm:
		for ; e != nil; e = e.up {
			if e.g.rule(s.Str) != nil {
				return ""
			}
		}
		return s.Str
	case KGrammar:
		if s.rule(s.Start) == nil {
			return s.Start
		}
		e = &env{s, e}
	}
	for _, k := range s.Kids {
		if w := undefined(k, e); w != "" {
			return w
		}
	}
	return ""
}

// c29Read prints p and reads the text.
func c29Read(c *C, p pattern.Pattern, what string) *Spec {
	text := pattern.Prettify(p)
	if again := pattern.Prettify(p); again != text {
		c.Fail("a pattern printed twice gives different texts\npattern: %s\nfirst:  %s\nsecond: %s", what, clip(text, 2000), clip(again, 2000))
	}
	back, seen, err := readPretty(text)
	if err == nil {
		if w := undefined(back, nil); w != "" {
			err = fmt.Errorf("rule %s is not defined", w)
		} else if !wellFormed(back) {
			err = errors.New("it is not well-formed")
		}
	}
	if err != nil {
		c.Fail("the printed form of a pattern cannot be read: %v\npattern: %s\nprinted: %s", err, what, clip(text, 4000))
	}
	for k, n := range seen {
		c.Event("printed: "+k, n)
	}
	return back
}

// c29Printed reads the printed form of p, which means s, and compares.
func c29Printed(c *C, p pattern.Pattern, s *Spec, what string, ins [][]byte) {
	back := c29Read(c, p, what)
	text := pattern.Prettify(p)
	for _, in := range ins {
		want, steps, ok := interpret(s, in, 200000)
		if !ok {
			continue
		}
		c.Eval()
		got, _, ok := interpret(back, in, steps*300+200000)
		want.Caps, got.Caps = noIds(want.Caps), noIds(got.Caps)
		d := allSame(&want, &got)
		if !ok {
			d = "out of steps"
		}
		if d != "" {
			c.Fail("the printed form of a pattern says something else than the pattern: %s\npattern: %s\nprinted: %s\ninput: %s\npattern means: %s\nprinted means: %s", d,
				what, clip(text, 3000), quote(in), clip(want.String(), 1500), clip(got.String(), 1500))
		}
		if want.Match {
			c.Event("printed patterns that match", 1)
		}
	}
}

// nestedGrammar says whether a grammar is used inside of a grammar.
func nestedGrammar(s *Spec, in bool) bool {
	if s.K == KGrammar {
		if in {
			return true
		}
		in = true
	}
	for _, k := range s.Kids {
		if nestedGrammar(k, in) {
			return true
		}
	}
	return false
}

func c29Case(c *C) {
	w := genWeights(c)
	w[KCheck] = 0
	w[KCap], w[KMemo], w[KError] = c.R.IntN(5), c.R.IntN(3), c.R.IntN(2)
	w[KNot], w[KAnd], w[KOpt] = 2+c.R.IntN(6), c.R.IntN(4), 2+c.R.IntN(6)
	g := newGen(c.R, w)
	var s *Spec
	switch c.R.IntN(5) {
	case 0, 1:
		s = g.pattern(3 + c.R.IntN(16))
	case 2:
		w[KGrammar] = 3
		s = g.pattern(6 + c.R.IntN(16))
	default:
		s = g.grammar(1+c.R.IntN(5), 8+c.R.IntN(25))
	}
	if s.has(KCheck) || nestedGrammar(s, false) || !wellFormed(s) {
		return
	}
	nontrivialSpec(c, s, "")
	c.Sample("%s", s)
	c.ClearNotes()
	what := clip(s.String(), 3000)
	c.Note("pattern: %s", what)
	ins := g.inputs(s, shortLen(g)-1, 12, 60)
	p := (&Builder{R: c.R}).Build(s)
	before, err := pattern.Compile(p)
	if err != nil {
		c.Fail("a well-formed pattern was refused: %v\npattern: %s", err, what)
	}
	old := pattern.InlineThreshold
	pattern.InlineThreshold = thresholds[c.R.IntN(len(thresholds))]
	defer func() { pattern.InlineThreshold = old }()
	if c.R.IntN(2) == 0 {
		// not compiled before
		p = (&Builder{R: c.R}).Build(s)
	}
	c29Printed(c, p, s, what, ins)
	// printing leaves the pattern alone
	after, err := pattern.Compile(p)
	if err != nil {
		c.Fail("a printed pattern is refused: %v\npattern: %s", err, what)
	}
	var codes []vm.Code
	for _, prog := range []isa.Program{before, after} {
		if prog.Size() > 1500 {
			return
		}
		codes = append(codes, vm.Encode(prog))
	}
	for i, in := range ins {
		if i >= 20 {
			break
		}
		_, steps, ok := interpret(s, in, 200000)
		if !ok {
			continue
		}
		want := execCode(&codes[0], bytes.NewReader(in), memo.NoneTable{}, budgetFor(steps))
		got := execCode(&codes[1], bytes.NewReader(in), memo.NoneTable{}, budgetFor(steps))
		c.Event("parses after printing", 1)
		if d := allSame(&want, &got); d != "" {
			c.Fail("a pattern that was printed parses differently: %s\npattern: %s\ninput: %s\nbefore: %s\nafter: %s", d, what, quote(in), clip(want.String(), 1500), clip(got.String(), 1500))
		}
	}
}

// c29Shared prints grammars that share nodes, and then looks at each.
func c29Shared(c *C) {
	w := genWeights(c)
	w[KCheck], w[KNonTerm], w[KCap] = 0, 16, 2
	g := newGen(c.R, w)
	s1, s2 := sharedSpecs(c, g)
	if s2 == nil || nestedGrammar(s1, false) || nestedGrammar(s2, false) {
		return
	}
	nontrivialSpec(c, s1, s2.String())
	c.Note("grammars: %s\n%s", clip(s1.String(), 2000), clip(s2.String(), 2000))
	old := pattern.InlineThreshold
	pattern.InlineThreshold = thresholds[c.R.IntN(len(thresholds))]
	defer func() { pattern.InlineThreshold = old }()
	sh := &Builder{Share: true}
	specs := []*Spec{s1, s2}
	pats := []pattern.Pattern{sh.Build(s1), sh.Build(s2)}
	for k := 0; k < 4; k++ {
		i := c.R.IntN(2)
		s, p := specs[i], pats[i]
		what := clip(s.String(), 3000)
		switch c.R.IntN(3) {
		case 0:
			pattern.Prettify(p)
			continue
		case 1:
			got, want := pattern.Prettify(p), pattern.Prettify((&Builder{Share: true}).Build(s))
			c.Eval()
			if got != want {
				c.Fail("a grammar that shares nodes with another one is printed differently\ngrammar: %s\nother: %s\nalone:  %s\nshared: %s", what, clip(specs[1-i].String(), 2000), clip(want, 2000), clip(got, 2000))
			}
			c.Event("shared grammars printed", 1)
			continue
		}
		code, err := compileSpec(p)
		alone, err2 := compileSpec((&Builder{}).Build(s))
		if err != nil || err2 != nil {
			c.Fail("a grammar is refused: %v, %v\ngrammar: %s", err, err2, what)
		}
		for _, in := range g.inputs(s, 1, 6, 60) {
			_, steps, ok := interpret(s, in, 200000)
			if !ok {
				continue
			}
			want := execCode(alone, bytes.NewReader(in), memo.NoneTable{}, budgetFor(steps))
			got := execCode(code, bytes.NewReader(in), memo.NoneTable{}, budgetFor(steps))
			c.Event("parses after printing", 1)
			if d := allSame(&want, &got); d != "" {
				c.Fail("a grammar of which parts were printed parses differently: %s\ngrammar: %s\nother: %s\ninput: %s\nalone: %s\nshared: %s", d, what, clip(specs[1-i].String(), 2000), quote(in), clip(want.String(), 1500), clip(got.String(), 1500))
			}
		}
	}
}

// c29Text prints what was read from the text of a grammar.
func c29Text(c *C) {
	g, s := c16Spec(c)
	if s.has(KCheck) || !wellFormed(s) {
		return
	}
	text := (&pegPrinter{r: c.R, plain: c.R.IntN(3) == 0}).text(s)
	c.Note("grammar text: %s", clip(fmt.Sprintf("%q", text), 3000))
	c.Nontrivial(text)
	p, err := re.Compile(text)
	if err != nil {
		c.Fail("a valid grammar is refused: %v\ntext: %q", err, clip(text, 3000))
	}
	ins := g.inputs(s, shortLen(g)-1, 10, 40)
	back := c29Read(c, p, clip(fmt.Sprintf("%q", text), 3000))
	for _, in := range ins {
		want, steps, ok := interpret(s, in, 200000)
		if !ok {
			continue
		}
		c.Eval()
		got, _, ok := interpret(back, in, steps*300+200000)
		if !ok || !sameParse(&want, &got) {
			c.Fail("the printed form of a grammar says something else than its text\ntext: %q\nprinted: %s\ninput: %s\ntext means: %s\nprinted means: %s", clip(text, 3000), clip(pattern.Prettify(p), 3000), quote(in), clip(want.String(), 500), clip(got.String(), 500))
		}
	}
	c.Event("grammar texts printed", 1)
}

// c29Files prints the grammars of the repository.
func c29Files(c *C) {
	fs, _ := filepath.Glob(repoDir + "/grammars/*.peg")
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		p, err := re.Compile(string(b))
		if err != nil {
			continue
		}
		code, err := compileSpec(p)
		if err != nil {
			continue
		}
		c.Nontrivial(f)
		back := c29Read(c, p, f)
		for _, t := range []string{"", "1+2*(3-4)", "{\"a\": [1, 2, null]}", "a <- b*", "class A { int x = 3; }", "int f(int a) { return a + 1; }\n", "A <- 'a' / [b-z]+ B\nB <- \"x\"? !.\n", "[", "}"} {
			want := execCode(code, strings.NewReader(t), memo.NoneTable{}, 50_000_000)
			got, _, ok := interpret(back, []byte(t), 50_000_000)
			if !ok {
				continue
			}
			c.Eval()
			want.Caps, got.Caps = noIds(want.Caps), noIds(got.Caps)
			if d := allSame(&want, &got); d != "" {
				c.Fail("the printed form of %s says something else on %q: %s\nprogram: %s\nprinted: %s", f, t, d, clip(want.String(), 500), clip(got.String(), 500))
			}
		}
		c.Event("grammars of the repository printed", 1)
	}
}

func init() {
	register(&Prop{
		ID:   "C29",
		Rule: "an execution prints a pattern, reads the text back as an expression with an independent reader, and compares what both mean on one input; distinct non-trivial ones are distinct patterns of at least 3 nodes, texts and files",
		Assume: []string{
			"patterns without checkers (their printed form does not show the checker)",
			"no grammar inside of another grammar; rule names and messages are words",
			"the printed form shows no capture ids",
		},
		Families: []Family{
			{Name: "files", Quick: 1, Thorough: 1, Batch: 1, Run: c29Files},
			{Name: "texts", Quick: 20000, Thorough: 400000, Batch: 200, Run: c29Text},
			{Name: "shared", Quick: 30000, Thorough: 900000, Batch: 200, Run: c29Shared},
			{Name: "patterns", Quick: 80000, Thorough: 2400000, Batch: 200, Run: c29Case},
		},
		Need: []string{"grammars of the repository printed", "grammar texts printed", "printed patterns that match", "parses after printing", "shared grammars printed"},
	})
}
