package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/zyedidia/gpeg/input/linerope"
	"github.com/zyedidia/gpeg/memo"
	"github.com/zyedidia/gpeg/vm"
)

const interpLimit = 100000

// coverShape counts which constructs a pattern uses.
func coverShape(c *C, s *Spec) {
	s.walk(func(x *Spec) { c.Event("node:"+kindNames[x.K], 1) })
}

// decider is the comparison a property makes between the model's outcome and
// the observed one; it returns a description of a difference.
type decider func(c *C, want, got *Outcome) string

// against runs a compiled pattern on inputs and lets the decider compare.
func against(c *C, s *Spec, code *vm.Code, b *Builder, ins [][]byte, limit int, d decider) {
	for _, in := range ins {
		want, steps, ok := interpret(s, in, limit)
		if !ok {
			c.Event("skipped: model out of steps", 1)
			continue
		}
		c.Eval()
		c.ClearNotes()
		c.Note("pattern: %s", clip(s.String(), 3000))
		c.Note("input: %s", quote(in))
		c.Note("model: %s", clip(want.String(), 1500))
		b.resetRefs()
		if b.callLog != nil {
			*b.callLog = nil
		}
		got := execCode(code, bytes.NewReader(in), memo.NoneTable{}, budgetFor(steps))
		if b.callLog != nil {
			got.Calls = append([]CheckCall{}, *b.callLog...)
		}
		c.Note("observed: %s", clip(got.String(), 1500))
		if want.Match {
			c.Event("matches", 1)
			if want.End > 0 {
				c.Event("matches of non-empty text", 1)
			}
		} else {
			c.Event("mismatches", 1)
		}
		if msg := d(c, &want, &got); msg != "" {
			c.Fail("%s\npattern: %s\ninput: %s\nexpected: %s\nobserved: %s", msg, clip(s.String(), 3000), quote(in), clip(want.String(), 1500), clip(got.String(), 1500))
		}
	}
}

func diffParse(c *C, want, got *Outcome) string {
	if want.Match != got.Match {
		return "match result differs from the PEG meaning"
	}
	if want.Match && want.End != got.End {
		return "end position differs from the PEG meaning"
	}
	return ""
}

// mustCompile compiles a pattern that must be accepted.
func mustCompile(c *C, s *Spec, b *Builder) *vm.Code {
	c.ClearNotes()
	c.Note("pattern: %s", clip(s.String(), 3000))
	code, err := compileSpec(b.Build(s))
	if err != nil {
		c.Fail("a well-formed pattern was refused: %v\npattern: %s", err, clip(s.String(), 3000))
	}
	c.Max("program bytes", code.Size())
	return code
}

func nontrivialSpec(c *C, s *Spec, extra string) {
	if s.size() >= 3 {
		c.Nontrivial(s.String(), extra)
	}
}

func genWeights(c *C) map[Kind]int {
	w := baseWeights()
	// swarm: leave out some kinds, boost others
	for k := KLit; k <= KEmpty; k++ {
		if _, ok := w[k]; !ok {
			continue
		}
		switch c.R.IntN(6) {
		case 0:
			if k != KLit && k != KSeq {
				w[k] = 0
			}
		case 1:
			w[k] *= 3
		}
	}
	return w
}

func init() {
	register(&Prop{
		ID:     "C01",
		Rule:   "random well-formed patterns and grammars over small alphabets (swarm-weighted constructs, several ways to put equal patterns together), each run on every short string over its alphabet and on strings derived from it and mutated; plus patterns and inputs placed across internal boundaries (4096-byte chunks, 64 KB programs, deep recursion). A case is a pattern; it is non-trivial if it has at least 3 nodes. Oracle: a direct interpreter of PEG semantics; a step monitor inside the machine bounds the instructions by the work the interpreter needed.",
		Assume: []string{"the reference interpreter states PEG semantics correctly", "patterns whose reference evaluation needs more than the step limit are skipped and counted"},
		Need:   []string{"matches", "mismatches", "matches of non-empty text"},
		Families: []Family{
			{Name: "small", Quick: 15000, Thorough: 450000, Batch: 500, Run: func(c *C) {
				g := newGen(c.R, genWeights(c))
				g.Weights[KCap], g.Weights[KMemo] = 1, 1
				s := g.pattern(6 + c.R.IntN(20))
				coverShape(c, s)
				nontrivialSpec(c, s, "")
				c.Sample("%s", s)
				b := &Builder{R: c.R, Share: c.R.IntN(3) == 0}
				code := mustCompile(c, s, b)
				against(c, s, code, b, g.inputs(s, shortLen(g), 14, 60), interpLimit, diffParse)
			}},
			{Name: "grammar", Quick: 11000, Thorough: 330000, Batch: 400, Run: func(c *C) {
				w := genWeights(c)
				w[KNonTerm], w[KCap], w[KMemo] = 14, 1, 1
				if c.R.IntN(3) == 0 {
					w[KGrammar] = 2
				}
				g := newGen(c.R, w)
				s := g.grammar(1+c.R.IntN(4), 10+c.R.IntN(30))
				coverShape(c, s)
				nontrivialSpec(c, s, "")
				c.Sample("%s", s)
				b := &Builder{R: c.R, Share: c.R.IntN(3) == 0}
				code := mustCompile(c, s, b)
				against(c, s, code, b, g.inputs(s, shortLen(g), 14, 120), interpLimit, diffParse)
			}},
			{Name: "shapes", Quick: 7800, Thorough: 230000, Batch: 500, Run: func(c *C) {
				// constructs that the compiler treats specially, next to each other
				g := newGen(c.R, baseWeights())
				s := specialShape(g)
				if !wellFormed(s) {
					return
				}
				coverShape(c, s)
				nontrivialSpec(c, s, "")
				c.Sample("%s", s)
				b := &Builder{R: c.R, Share: c.R.IntN(2) == 0}
				code := mustCompile(c, s, b)
				against(c, s, code, b, g.inputs(s, shortLen(g)+1, 14, 60), interpLimit, diffParse)
			}},
			{Name: "chunks", Quick: 410, Thorough: 12000, Batch: 20, Run: func(c *C) { chunkCase(c, diffParse) }},
			{Name: "deep", Quick: 31, Thorough: 930, Batch: 3, Run: func(c *C) { deepCase(c, diffParse) }},
			{Name: "large", Quick: 31, Thorough: 930, Batch: 3, Run: func(c *C) { largeCase(c, diffParse) }},
			{Name: "big", Quick: 160, Thorough: 4800, Batch: 4, CPU: 90, Run: func(c *C) { bigCase(c, 1<<20, diffParse) }},
			{Name: "parts", Quick: 240, Thorough: 7200, Batch: 4, CPU: 90, Run: func(c *C) { partsCase(c, diffParse) }},
		},
	})
}

func shortLen(g *Gen) int {
	switch {
	case len(g.Alpha) <= 2:
		return 4
	case len(g.Alpha) == 3:
		return 3
	}
	return 2
}

// specialShape generates combinations of the constructs that compilers of PEGs
// like to optimise: choices by first byte, not-then-class, options and
// repetitions of classes, tail calls, searches with a known first byte.
func specialShape(g *Gen) *Spec {
	atom := func() *Spec {
		switch g.R.IntN(7) {
		case 0, 1:
			return lit(string(g.letter()))
		case 2:
			return class(g.set())
		case 3:
			return anyN(g.R.IntN(3))
		case 4:
			return lit(g.str())
		case 5:
			return empty()
		}
		return lit("")
	}
	var shape func(d int) *Spec
	shape = func(d int) *Spec {
		if d <= 0 {
			return atom()
		}
		switch g.R.IntN(18) {
		case 0:
			return alt(seq(atom(), shape(d-1)), seq(atom(), shape(d-1)))
		case 1:
			return alt(shape(d-1), seq(atom(), shape(d-1)))
		case 2:
			return alt(atom(), atom(), shape(d-1))
		case 3:
			return alt(shape(d-1), empty())
		case 4:
			return seq(un(KNot, atom()), atom())
		case 5:
			return seq(un(KNot, atom()), shape(d-1))
		case 6:
			return un(KOpt, atom())
		case 7:
			return un(KOpt, shape(d-1))
		case 8:
			return un(KStar, atom())
		case 9:
			return un(KStar, seq(atom(), shape(d-1)))
		case 10:
			return un(KPlus, alt(atom(), atom()))
		case 11:
			return un(KNot, shape(d-1))
		case 12:
			return un(KAnd, shape(d-1))
		case 13:
			return seq(atom(), shape(d-1))
		case 14:
			return seq(shape(d-1), shape(d-1))
		case 15:
			return un(KSearch, shape(d-1))
		case 16:
			n := 1 + g.R.IntN(2)
			rules := map[string]*Spec{}
			for i := 0; i < n; i++ {
				body := seq(atom(), nonterm(ruleNames[g.R.IntN(n)]))
				switch g.R.IntN(3) {
				case 0:
					body = alt(body, shape(d-1))
				case 1:
					body = alt(shape(d-1), body)
				default:
					body = alt(seq(atom(), nonterm(ruleNames[g.R.IntN(n)]), shape(d-1)), atom())
				}
				rules[ruleNames[i]] = body
			}
			return grammar("A", rules)
		}
		return un(KStar, un(KMemo, seq(atom(), shape(d-1))))
	}
	return shape(1 + g.R.IntN(3))
}

// chunkCase places constructs across the boundaries of buffered input.
func chunkCase(c *C, d decider) {
	w := baseWeights()
	w[KCap] = 2
	g := newGen(c.R, w)
	g.Alpha = []byte("ab")
	filler := byte('x')
	s := g.pattern(4 + c.R.IntN(10))
	mid := g.input(s, 40)
	k := 1 + c.R.IntN(3)
	pad := 4096*k - c.R.IntN(len(mid)+4) + 1
	in := bytes.Repeat([]byte{filler}, pad)
	in = append(in, mid...)
	var prefix *Spec
	fill := class(setOf(filler))
	switch c.R.IntN(6) {
	case 0:
		prefix = un(KStar, fill)
	case 1:
		prefix = un(KStar, seq(un(KNot, lit("zz")), fill))
	case 2:
		// many any-n
		prefix = seq()
		rest := pad
		for rest > 0 {
			n := min(rest, 1+c.R.IntN(255))
			prefix.Kids = append(prefix.Kids, anyN(n))
			rest -= n
		}
	case 3:
		prefix = lit(strings.Repeat(string(filler), pad))
	case 4:
		prefix = un(KStar, lit(string(filler)))
	case 5:
		// reach the boundary, come back, and go there again
		prefix = seq(un(KAnd, seq(un(KStar, fill), anyN(1))), un(KStar, fill))
	}
	var p *Spec
	switch c.R.IntN(4) {
	case 0:
		p = seq(prefix, s)
	case 1:
		p = alt(seq(prefix, s, un(KNot, anyN(1))), seq(prefix, anyN(1+c.R.IntN(3))), un(KStar, fill))
	case 2:
		p = seq(prefix, alt(seq(s, lit("!")), un(KStar, class(setOf('a', 'b')))))
	case 3:
		p = seq(prefix, un(KOpt, s), un(KStar, anyN(1+c.R.IntN(5))))
	}
	if !wellFormed(p) {
		return
	}
	if c.R.IntN(4) == 0 {
		in = append(in, bytes.Repeat([]byte{'a'}, c.R.IntN(5000))...)
	}
	nontrivialSpec(c, p, fmt.Sprint(len(in)))
	c.Sample("%s on %d bytes", p, len(in))
	b := &Builder{R: c.R}
	code := mustCompile(c, p, b)
	ins := [][]byte{in, in[:len(in)-min(len(in), c.R.IntN(4))]}
	// end the input exactly at a boundary
	ins = append(ins, in[:min(len(in), 4096*k)])
	if 4096*k+1 < len(in) {
		ins = append(ins, in[:4096*k+1], in[:4096*k-1])
	}
	against(c, p, code, b, ins, 3000000, d)
	c.Event("inputs across chunk boundaries", len(ins))
}

// deepCase runs deeply recursive grammars.
func deepCase(c *C, d decider) {
	n := 1000 + c.R.IntN(60000)
	var s *Spec
	var in []byte
	switch c.R.IntN(6) {
	case 0: // balanced parentheses
		s = grammar("S", map[string]*Spec{"S": alt(seq(lit("("), nonterm("S"), lit(")")), lit("x"))})
		in = []byte(strings.Repeat("(", n) + "x" + strings.Repeat(")", n))
	case 1: // a^n b^n
		s = grammar("S", map[string]*Spec{"S": alt(seq(lit("a"), nonterm("S"), lit("b")), seq(lit("a"), lit("b")))})
		in = []byte(strings.Repeat("a", n) + strings.Repeat("b", n))
	case 2: // tail recursion
		s = grammar("S", map[string]*Spec{"S": alt(seq(class(setRange('a', 'c')), nonterm("S")), lit("!"))})
		in = []byte(strings.Repeat("abc", n/3) + "!")
	case 3: // mutual recursion with captures
		s = grammar("A", map[string]*Spec{
			"A": alt(seq(lit("["), capt(nonterm("B"), 1), lit("]")), lit("x")),
			"B": alt(seq(lit("{"), capt(nonterm("A"), 2), lit("}")), lit("y")),
		})
		open, cl := "", ""
		for i := 0; i < 500; i++ {
			if i%2 == 0 {
				open, cl = open+"[", "]"+cl
			} else {
				open, cl = open+"{", "}"+cl
			}
		}
		in = []byte(open + "x" + cl)
	case 4: // long repetition of choices
		s = seq(un(KStar, alt(seq(lit("a"), lit("b")), seq(lit("a"), lit("c")), lit("d"))), un(KNot, anyN(1)))
		var sb strings.Builder
		for i := 0; i < n; i++ {
			sb.WriteString([]string{"ab", "ac", "d"}[c.R.IntN(3)])
		}
		in = []byte(sb.String())
	case 5: // palindromes with backtracking choice
		s = grammar("S", map[string]*Spec{"S": alt(seq(lit("a"), nonterm("S"), lit("a")), seq(lit("b"), nonterm("S"), lit("b")), lit("c"))})
		half := make([]byte, n)
		for i := range half {
			half[i] = "ab"[c.R.IntN(2)]
		}
		in = append(in, half...)
		in = append(in, 'c')
		for i := n - 1; i >= 0; i-- {
			in = append(in, half[i])
		}
	}
	b := &Builder{R: c.R}
	code := mustCompile(c, s, b)
	nontrivialSpec(c, s, fmt.Sprint(len(in)))
	c.Sample("%s on %d bytes", s, len(in))
	bad := append([]byte{}, in...)
	bad[len(bad)-1-c.R.IntN(min(len(bad), 100))] = '?'
	against(c, s, code, b, [][]byte{in, in[:len(in)-1], bad}, 20000000, d)
	c.Max("recursion depth", n)
}

// largeCase runs programs of more than 64 KB.
func largeCase(c *C, d decider) {
	n := 2500 + c.R.IntN(4000)
	words := make([]string, n)
	for i := range words {
		b := make([]byte, 3+c.R.IntN(10))
		for j := range b {
			b[j] = "abcdefgh"[c.R.IntN(8)]
		}
		words[i] = string(b)
	}
	var s *Spec
	lits := make([]*Spec, n)
	for i, w := range words {
		lits[i] = lit(w)
	}
	switch c.R.IntN(4) {
	case 0:
		s = seq(alt(lits...), lit("!"))
	case 1:
		s = un(KStar, alt(alt(lits...), lit(",")))
	case 2:
		s = seq(lits[:n/2]...)
	case 3:
		rules := map[string]*Spec{}
		alts := []*Spec{}
		for i := 0; i < n/4; i++ {
			nm := fmt.Sprintf("R%d", i)
			rules[nm] = seq(lits[i], un(KOpt, seq(lit("("), nonterm("S"), lit(")"))))
			alts = append(alts, nonterm(nm))
		}
		rules["S"] = alt(alts...)
		s = grammar("S", rules)
	}
	b := &Builder{R: c.R}
	if s.K == KGrammar || s.K == KStar {
		b.R = nil
	}
	code := mustCompile(c, s, b)
	nontrivialSpec(c, s, fmt.Sprint(n, words[0], words[1]))
	c.Sample("%d alternatives, %d bytes of code", n, code.Size())
	var ins [][]byte
	for i := 0; i < 12; i++ {
		w := words[c.R.IntN(n)]
		switch i % 4 {
		case 0:
			ins = append(ins, []byte(w+"!"))
		case 1:
			ins = append(ins, []byte(w+"("+words[c.R.IntN(n)]+")"))
		case 2:
			ins = append(ins, []byte(w+","+words[n-1]+",,"+words[0]))
		case 3:
			ins = append(ins, []byte(strings.Join(words[:n/2], "")))
		}
	}
	against(c, s, code, b, ins, 5000000, d)
	if code.Size() > 1<<16 {
		c.Event("programs above 64 KB", 1)
	}
}

var _ = linerope.New
