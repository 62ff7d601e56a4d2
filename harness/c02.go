package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/zyedidia/gpeg/isa"
	"github.com/zyedidia/gpeg/memo"
	"github.com/zyedidia/gpeg/pattern"
	"github.com/zyedidia/gpeg/vm"
)

func diffCaps(c *C, want, got *Outcome) string {
	if want.Match != got.Match || want.Match && want.End != got.End {
		return "parse result differs from the PEG meaning, so the captures cannot be those of its derivation"
	}
	if want.Match {
		if n := capsCount(want.Caps); n > 0 {
			c.Event("parses with captures", 1)
			c.Event("captures compared", n)
		}
		if !capsEqual(want.Caps, got.Caps) {
			return "capture tree differs from the captures of the successful derivation"
		}
	}
	return ""
}

// checkAccessors checks that the ways to read a capture tree agree.
func checkAccessors(c *C, root *memo.Capture, depth int) int {
	if root == nil {
		return 0
	}
	var kids []*memo.Capture
	it := root.ChildIterator(0)
	for ch := it(); ch != nil; ch = it() {
		kids = append(kids, ch)
	}
	for i := 0; i < 2; i++ {
		if it() != nil {
			c.Fail("iterator yields a child after it ended")
		}
	}
	if n := root.NumChildren(); n != len(kids) {
		c.Fail("NumChildren is %d but the iterator yields %d children", n, len(kids))
	}
	// two iterators at once, one ahead of the other
	a, b := root.ChildIterator(0), root.ChildIterator(root.Start())
	a()
	for i := range kids {
		if y := b(); y != kids[i] {
			c.Fail("a second iterator yields another child at index %d", i)
		}
		x := a()
		if i+1 < len(kids) && x != kids[i+1] || i+1 == len(kids) && x != nil {
			c.Fail("interleaved iterators disturb each other at index %d", i)
		}
	}
	step := 1
	if len(kids) > 40 {
		step = len(kids) / 40
	}
	for i := 0; i < len(kids); i += step {
		if root.Child(i) != kids[i] {
			c.Fail("Child(%d) differs from the child the iterator yields", i)
		}
	}
	if depth == 0 {
		// the printed form shows the ids of the same tree
		if got, want := root.String(), capIds(root.Id(), convertCaps(root)); got != want {
			c.Fail("String prints the tree as %s, want %s", clip(got, 1000), clip(want, 1000))
		}
	}
	if root.Child(len(kids)) != nil || root.Child(len(kids)+3) != nil {
		c.Fail("Child beyond the last child is not nil")
	}
	n := len(kids)
	for _, k := range kids {
		if k.Dummy() {
			c.Fail("a dummy node is exposed as a child")
		}
		if k.End() != k.Start()+k.Len() {
			c.Fail("End %d is not Start %d + Len %d", k.End(), k.Start(), k.Len())
		}
		n += checkAccessors(c, k, depth+1)
	}
	return n
}

// capIds is the printed form of a capture with the given children.
func capIds(id int, kids []*Cap) string {
	var parts []string
	for _, k := range kids {
		parts = append(parts, capIds(k.Id, k.Kids))
	}
	return fmt.Sprintf("{%d, [%s]}", id, strings.Join(parts, ", "))
}

func runCaps(c *C, s *Spec, ins [][]byte, share bool, tables bool) {
	b := &Builder{R: c.R, Share: share}
	code := mustCompile(c, s, b)
	limit := interpLimit
	if len(ins[0]) > 5000 {
		limit = 12000000
	}
	against(c, s, code, b, ins, limit, diffCaps)
	type kept struct {
		in   []byte
		root *memo.Capture
		want []*Cap
	}
	var keep []kept
	for i, in := range ins {
		if i%5 != 0 && len(ins) > 5 {
			continue
		}
		var tbl memo.Table = memo.NoneTable{}
		if tables {
			tbl = memo.NewTreeTable(c.R.IntN(8))
		}
		want, _, ok := interpret(s, in, limit)
		if !ok {
			continue
		}
		m, end, root, _ := code.Exec(bytes.NewReader(in), tbl)
		if !m {
			continue
		}
		c.ClearNotes()
		c.Note("pattern: %s", clip(s.String(), 3000))
		c.Note("input: %s", quote(in))
		if got := convertCaps(root); !want.Match || !capsEqual(want.Caps, got) {
			c.Fail("captures differ from those of the derivation (table %v)\nexpected: %s\nobserved: %s", tables, capsString(want.Caps), capsString(got))
		}
		if root.Start() != 0 || root.Len() != end || root.End() != end {
			c.Fail("the root covers [%d, %d), the match [0, %d)", root.Start(), root.End(), end)
		}
		c.Event("capture nodes accessed every way", checkAccessors(c, root, 0))
		keep = append(keep, kept{in, root, want.Caps})
	}
	// results stay as they are while other parses run
	for _, k := range keep {
		c.ClearNotes()
		c.Note("pattern: %s", clip(s.String(), 3000))
		c.Note("input: %s", quote(k.in))
		if got := convertCaps(k.root); !capsEqual(k.want, got) {
			c.Fail("the captures of a parse changed when other inputs were parsed\nexpected: %s\nobserved: %s", capsString(k.want), capsString(got))
		}
		c.Event("results read again later", 1)
	}
}

func capWeights(c *C) map[Kind]int {
	w := genWeights(c)
	w[KCap] = 10 + c.R.IntN(20)
	w[KMemo] = c.R.IntN(5)
	if c.R.IntN(3) == 0 {
		w[KCheck], w[KError] = 1+c.R.IntN(4), c.R.IntN(3)
	}
	return w
}

// checkFree removes what makes outcomes depend on more than the text.
func init() {
	register(&Prop{
		ID:     "C02",
		Rule:   "random well-formed patterns rich in captures (nested, in choices, predicates, repetitions, memoized repetitions, recursive rules, behind fixed prefixes of up to 300 bytes), run on derived and mutated inputs; the whole tree is compared with the reference derivation and every accessor is checked against the others. Non-trivial: at least 3 nodes including a capture.",
		Assume: []string{"captures inside positive predicates are part of the derivation, those inside negative ones are not"},
		Need:   []string{"parses with captures", "capture nodes accessed every way"},
		Families: []Family{
			{Name: "small", Quick: 54000, Thorough: 1600000, Batch: 400, Run: func(c *C) {
				g := newGen(c.R, capWeights(c))
				s := g.pattern(6 + c.R.IntN(22))
				if !s.has(KCap) {
					s = capt(s, 7)
				}
				nontrivialSpec(c, s, "")
				c.Sample("%s", s)
				coverShape(c, s)
				runCaps(c, s, g.inputs(s, shortLen(g), 14, 60), c.R.IntN(3) == 0, c.R.IntN(3) == 0)
			}},
			{Name: "grammar", Quick: 36000, Thorough: 1000000, Batch: 300, Run: func(c *C) {
				w := capWeights(c)
				w[KNonTerm] = 12
				g := newGen(c.R, w)
				s := g.grammar(1+c.R.IntN(4), 10+c.R.IntN(30))
				if !s.has(KCap) {
					for i := range s.Kids {
						s.Kids[i] = capt(s.Kids[i], i)
					}
				}
				nontrivialSpec(c, s, "")
				c.Sample("%s", s)
				coverShape(c, s)
				runCaps(c, s, g.inputs(s, shortLen(g), 14, 120), c.R.IntN(3) == 0, c.R.IntN(3) == 0)
			}},
			{Name: "prefix", Quick: 9000, Thorough: 270000, Batch: 200, Run: func(c *C) {
				// captures that begin with a long fixed-size prefix
				g := newGen(c.R, baseWeights())
				g.Alpha = []byte("ab")
				total := 240 + c.R.IntN(40)
				if c.R.IntN(3) == 0 {
					total = 1 + c.R.IntN(600)
				}
				pre := seq()
				for rest := total; rest > 0; {
					n := min(rest, 1+c.R.IntN(255))
					switch c.R.IntN(3) {
					case 0:
						pre.Kids = append(pre.Kids, lit(strings.Repeat("a", n)))
					case 1:
						pre.Kids = append(pre.Kids, anyN(n))
					case 2:
						n = 1
						pre.Kids = append(pre.Kids, class(setOf('a', 'b')))
					}
					rest -= n
				}
				var s *Spec = pre
				if c.R.IntN(3) > 0 {
					s = seq(pre, g.pattern(3))
				}
				s = capt(s, c.R.IntN(5))
				if c.R.IntN(2) == 0 {
					s = seq(un(KOpt, lit("b")), s, un(KStar, capt(lit("a"), 1)))
				}
				if c.R.IntN(2) == 0 {
					s = alt(seq(s, lit("!")), capt(un(KStar, class(setOf('a', 'b'))), 2))
				}
				nontrivialSpec(c, s, "")
				in := bytes.Repeat([]byte("a"), total+c.R.IntN(5))
				ins := [][]byte{in, append(append([]byte{}, in...), '!'), append([]byte("b"), in...), in[:len(in)-1], append(append([]byte{}, in...), g.input(s, 20)...)}
				runCaps(c, s, ins, false, c.R.IntN(2) == 0)
			}},
			{Name: "repeat", Quick: 7200, Thorough: 210000, Batch: 100, Run: func(c *C) {
				// long repetitions, memoized ones in particular
				g := newGen(c.R, baseWeights())
				g.Alpha = []byte("ab")
				item := capt(alt(lit("aa"), seq(capt(lit("b"), 1), un(KOpt, capt(lit("a"), 2))), lit("a")), 3)
				body := item
				if c.R.IntN(4) > 0 {
					body = un(KMemo, item)
				}
				s := un(KStar, body)
				switch c.R.IntN(6) {
				case 0:
					s = un(KPlus, body)
				case 1:
					s = capt(s, 4)
				case 2:
					s = seq(capt(lit("<"), 5), s, capt(lit(">"), 6))
				case 3:
					s = un(KStar, un(KMemo, capt(seq(lit("<"), un(KStar, body), lit(">")), 5)))
				case 4:
					s = alt(seq(s, lit("!")), un(KStar, capt(alt(lit("a"), lit("b")), 1)))
				}
				nontrivialSpec(c, s, fmt.Sprint(c.Idx))
				var in []byte
				n := 1 + c.R.IntN(300)
				for i := 0; i < n; i++ {
					in = append(in, "ab"[c.R.IntN(2)])
				}
				ins := [][]byte{in, append(append([]byte("<"), in...), '>'), append(append([]byte{}, in...), '!')}
				var nest []byte
				for i := 0; i < 1+c.R.IntN(20); i++ {
					nest = append(nest, '<')
					nest = append(nest, in[:c.R.IntN(min(len(in), 30)+1)]...)
					nest = append(nest, '>')
				}
				ins = append(ins, nest)
				c.Sample("%s on %d bytes", s, len(in))
				runCaps(c, s, ins, false, c.R.IntN(2) == 0)
			}},
			{Name: "ids", Quick: 1200, Thorough: 36000, Batch: 50, Run: func(c *C) {
				// every capture id the encoding accepts comes back
				ids := []int{0, 1, -1, 127, 128, 255, 256, 32767, -32768, -129, c.R.IntN(65536) - 32768}
				id := ids[c.Idx%len(ids)]
				s := seq(capt(lit("a"), id), capt(un(KStar, seq(lit("b"), un(KOpt, lit("c")))), id), capt(seq(anyN(2), un(KOpt, lit("z"))), id))
				c.Nontrivial(s.String())
				runCaps(c, s, [][]byte{[]byte("abbcxy"), []byte("axyz")}, false, false)
			}},
			{Name: "chunks", Quick: 720, Thorough: 21000, Batch: 20, Run: func(c *C) { chunkCase(c, diffCaps) }},
			{Name: "deep", Quick: 72, Thorough: 2100, Batch: 3, Run: func(c *C) { deepCase(c, diffCaps) }},
			{Name: "big", Quick: 160, Thorough: 4800, Batch: 4, CPU: 90, Run: func(c *C) {
				s, in := bigSpec(c.R, bigSize(c.R, 1<<17))
				nontrivialSpec(c, s, fmt.Sprint(len(in)))
				c.Sample("%s on %d bytes", clip(s.String(), 400), len(in))
				runCaps(c, s, bigInputs(c.R, in), false, c.R.IntN(2) == 0)
				c.Max("bytes of the longest text", len(in))
			}},
		},
	})

	register(&Prop{
		ID:     "C03",
		Rule:   "each random pattern or grammar is compiled in many ways - inlining thresholds 0 to 10000, with no, one or two optimisation passes, the same pattern value again and again, after its sub-patterns and other grammars sharing its nodes were compiled, and after being printed and walked - and all programs are run on the same derived inputs; every observable must be the same for all. Non-trivial: at least 3 nodes.",
		Assume: []string{"the choice of baseline (no inlining, no optimisation, fresh nodes) does not matter, since all programs must agree"},
		Need:   []string{"program variants", "programs encoded twice", "matches", "mismatches", "variants that differ in code"},
		Families: []Family{
			{Name: "variants", Quick: 20000, Thorough: 600000, Batch: 150, Run: c03Case},
			{Name: "parts", Quick: 400, Thorough: 12000, Batch: 4, CPU: 120, Run: c03Parts},
			{Name: "shared", Quick: 10000, Thorough: 300000, Batch: 100, Run: c03Shared},
			{Name: "reuse", Quick: 12000, Thorough: 360000, Batch: 100, Run: c03Reuse},
		},
	})
}

func c03Spec(c *C, g *Gen) *Spec {
	switch c.R.IntN(4) {
	case 0:
		return g.pattern(8 + c.R.IntN(20))
	case 1:
		for {
			s := specialShape(g)
			if wellFormed(s) {
				return seq(s, un(KOpt, capt(anyN(1), 1)))
			}
		}
	}
	return g.grammar(2+c.R.IntN(4), 12+c.R.IntN(30))
}

func fullWeights(c *C) map[Kind]int {
	w := genWeights(c)
	w[KCap], w[KMemo], w[KError], w[KNonTerm], w[KGrammar], w[KCheck] = 5, 2, 3, 12, 1, 1
	return w
}

// variant compiles p in one of several ways.
func variant(c *C, p pattern.Pattern, threshold, passes int) (*vm.Code, error) {
	old := pattern.InlineThreshold
	pattern.InlineThreshold = threshold
	defer func() { pattern.InlineThreshold = old }()
	if passes == 1 {
		prog, err := pattern.Compile(p)
		if err != nil {
			return nil, err
		}
		code := vm.Encode(prog)
		return &code, nil
	}
	prog, err := p.Compile()
	if err != nil {
		return nil, err
	}
	for i := 0; i < passes; i++ {
		pattern.Optimize(prog)
	}
	code := vm.Encode(prog)
	return &code, nil
}

func allSame(a, b *Outcome) string {
	switch {
	case a.Match != b.Match:
		return "match result"
	case a.Match && a.End != b.End:
		return "end position"
	case a.Match && !capsEqual(a.Caps, b.Caps):
		return "captures"
	case !sameErrs(a.Errs, b.Errs):
		return "reported errors"
	}
	return ""
}

var thresholds = []int{0, 1, 2, 3, 5, 8, 20, 100, 10000}

func compareVariants(c *C, s *Spec, ins [][]byte, codes []*vm.Code, names []string) {
	for _, in := range ins {
		_, steps, ok := interpret(s, in, interpLimit)
		if !ok {
			c.Event("skipped: model out of steps", 1)
			continue
		}
		var base Outcome
		for i, code := range codes {
			c.ClearNotes()
			c.Note("pattern: %s", clip(s.String(), 3000))
			c.Note("variant: %s", names[i])
			c.Note("input: %s", quote(in))
			o := execCode(code, bytes.NewReader(in), memo.NoneTable{}, budgetFor(steps))
			c.Eval()
			if i == 0 {
				base = o
				if o.Match {
					c.Event("matches", 1)
				} else {
					c.Event("mismatches", 1)
				}
				continue
			}
			if d := allSame(&base, &o); d != "" {
				c.Fail("%s differs between equivalent compilations\npattern: %s\ninput: %s\n%s: %s\n%s: %s", d, clip(s.String(), 3000), quote(in), names[0], clip(base.String(), 1000), names[i], clip(o.String(), 1000))
			}
		}
	}
}

func c03Case(c *C) {
	g := newGen(c.R, fullWeights(c))
	s := c03Spec(c, g)
	c03Variants(c, s, g.inputs(s, shortLen(g)-1, 14, 80))
}

// c03Parts compiles programs of many parts.
func c03Parts(c *C) {
	s, ins := bigProgramOf(c.R, "", 20+c.R.IntN(200))
	c03Variants(c, s, ins)
}

func c03Variants(c *C, s *Spec, ins [][]byte) {
	nontrivialSpec(c, s, "")
	c.Sample("%s", clip(s.String(), 400))
	coverShape(c, s)
	c.Note("pattern: %s", clip(s.String(), 3000))
	var codes []*vm.Code
	var names []string
	add := func(name string, p pattern.Pattern, th, passes int) {
		name = fmt.Sprintf("%s, threshold %d, %d optimisation passes", name, th, passes)
		c.Note("compiling: %s", name)
		code, err := variant(c, p, th, passes)
		if err != nil {
			c.Fail("compilation (%s) refused a well-formed pattern: %v\npattern: %s", name, err, s)
		}
		codes = append(codes, code)
		names = append(names, name)
		c.Event("program variants", 1)
		if len(codes) > 1 && code.Size() != codes[0].Size() {
			c.Event("variants that differ in code", 1)
		}
	}
	add("fresh", (&Builder{}).Build(s), 0, 0)
	add("fresh", (&Builder{}).Build(s), 0, 1)
	add("fresh", (&Builder{}).Build(s), 100, 1)
	shared := (&Builder{R: c.R, Share: true}).Build(s)
	for i := 0; i < 3; i++ {
		add(fmt.Sprintf("same value, compilation %d", i+1), shared, thresholds[c.R.IntN(len(thresholds))], c.R.IntN(3))
	}
	same := (&Builder{R: c.R}).Build(s)
	switch c.R.IntN(3) {
	case 0:
		pattern.Prettify(same)
		pattern.CountSubPatterns(same)
	case 1:
		// compile sub-patterns first; those with free names may be refused
		pattern.WalkPattern(same, true, func(sub pattern.Pattern) {
			if sub != nil {
				sub.Compile()
			}
		})
	}
	add("after use", same, thresholds[c.R.IntN(len(thresholds))], 1)
	add("after use again", same, 100, 1)
	if s.K == KGrammar {
		if gn, ok := (&Builder{}).Build(s).(*pattern.GrammarNode); ok {
			gn.Inline()
			add("inlined by hand", gn, thresholds[c.R.IntN(len(thresholds))], c.R.IntN(2))
		}
	}
	compareVariants(c, s, ins, codes, names)
}

// sharedSpecs generates two grammars with the same rules except one.
func sharedSpecs(c *C, g *Gen) (s1, s2 *Spec) {
	s1 = g.grammar(2+c.R.IntN(3), 12+c.R.IntN(20))
	for try := 0; try < 100; try++ {
		s2 = s1.copy()
		g.Names = s1.Names
		g.budget, g.depth = 8, 2
		s2.Kids[c.R.IntN(len(s2.Kids))] = g.node()
		g.Names = nil
		if wellFormed(s2) {
			return s1, s2
		}
	}
	return s1, nil
}

// c03Shared compiles several grammars that share nodes, in random order.
func c03Shared(c *C) {
	w := fullWeights(c)
	w[KNonTerm] = 16
	g := newGen(c.R, w)
	s1, s2 := sharedSpecs(c, g)
	if s2 == nil {
		return
	}
	nontrivialSpec(c, s1, s2.String())
	c.Sample("%s | %s", s1, s2)
	sh := &Builder{R: c.R, Share: true}
	p1, p2 := sh.Build(s1), sh.Build(s2)
	specs := []*Spec{s1, s2, seq(s1.copy(), un(KOpt, s2.copy()))}
	pats := []pattern.Pattern{p1, p2, pattern.Concat(p1, pattern.Optional(p2))}
	if s1.has(KStar) && c.R.IntN(2) == 0 {
		specs = append(specs, un(KSearch, s1.copy()))
		pats = append(pats, pattern.Search(p1))
	}
	order := c.R.Perm(len(specs))
	codes := make([][]*vm.Code, len(specs))
	names := make([][]string, len(specs))
	for round := 0; round < 2; round++ {
		for _, i := range order {
			th := thresholds[c.R.IntN(len(thresholds))]
			c.ClearNotes()
			c.Note("patterns: %s\n%s", s1, s2)
			if round == 0 {
				code, err := variant(c, (&Builder{}).Build(specs[i]), 0, 0)
				if err != nil {
					c.Fail("refused: %v\npattern: %s", err, specs[i])
				}
				codes[i] = append(codes[i], code)
				names[i] = append(names[i], "alone")
			}
			if c.R.IntN(4) == 0 {
				pattern.Prettify(pats[c.R.IntN(len(pats))])
			}
			code, err := variant(c, pats[i], th, c.R.IntN(3))
			if err != nil {
				c.Fail("refused after other compilations: %v\npattern: %s", err, specs[i])
			}
			codes[i] = append(codes[i], code)
			names[i] = append(names[i], fmt.Sprintf("sharing nodes, threshold %d, order %v, round %d", th, order, round))
			c.Event("program variants", 1)
			if code.Size() != codes[i][0].Size() {
				c.Event("variants that differ in code", 1)
			}
		}
	}
	for i, s := range specs {
		compareVariants(c, s, g.inputs(s, 2, 12, 80), codes[i], names[i])
	}
}

// reuseSpecs generates patterns that are put together from few parts, each of
// which occurs in several places with different things before and after it.
func reuseSpecs(c *C, g *Gen) []*Spec {
	r := c.R
	var parts []*Spec
	for len(parts) < 1+r.IntN(3) {
		x := g.pattern(1 + r.IntN(8))
		switch r.IntN(5) {
		case 0:
			x = capt(x, 1+r.IntN(3))
		case 1:
			x = seq(x, un(KOpt, g.pattern(2)))
		case 2:
			x = un(KNot, x)
		}
		if wellFormed(x) {
			parts = append(parts, x)
		}
	}
	small := func() *Spec { return lit(string(g.Alpha[r.IntN(len(g.Alpha)):len(g.Alpha)][:1])) }
	var build func(depth int) *Spec
	build = func(depth int) *Spec {
		x := parts[r.IntN(len(parts))].copy()
		if depth == 0 {
			return x
		}
		switch r.IntN(9) {
		case 0:
			return seq(x, small())
		case 1:
			return seq(small(), x)
		case 2:
			return alt(seq(x, small()), seq(x.copy(), small()))
		case 3:
			return alt(seq(x, build(depth-1)), build(depth-1))
		case 4:
			return seq(un(KOpt, x), build(depth-1))
		case 5:
			return seq(build(depth-1), build(depth-1))
		case 6:
			return un(KStar, seq(build(depth-1), small()))
		case 7:
			return capt(build(depth-1), 4)
		}
		return alt(build(depth-1), small())
	}
	var out []*Spec
	for len(out) < 2+r.IntN(3) {
		if s := build(1 + r.IntN(3)); wellFormed(s) {
			out = append(out, s)
		}
	}
	return out
}

// c03Reuse compiles patterns made of the same nodes and keeps all the programs
// before it encodes any, some of them more than once.
func c03Reuse(c *C) {
	g := newGen(c.R, fullWeights(c))
	specs := reuseSpecs(c, g)
	text := ""
	for _, s := range specs {
		text += s.String() + "\n"
	}
	nontrivialSpec(c, specs[0], text)
	c.Sample("%s", clip(text, 400))
	c.Note("patterns:\n%s", clip(text, 3000))
	sh := &Builder{R: c.R, Share: true}
	var pats []pattern.Pattern
	for _, s := range specs {
		pats = append(pats, sh.Build(s))
	}
	type made struct {
		i    int
		prog isa.Program
		name string
	}
	var all []made
	codes := make([][]*vm.Code, len(specs))
	names := make([][]string, len(specs))
	for i, s := range specs {
		code, err := variant(c, (&Builder{}).Build(s), 0, 0)
		if err != nil {
			c.Fail("refused: %v\npattern: %s", err, s)
		}
		codes[i], names[i] = append(codes[i], code), append(names[i], "alone")
	}
	for round := 0; round < 2; round++ {
		for _, i := range c.R.Perm(len(specs)) {
			compile := pattern.Compile
			name := fmt.Sprintf("round %d", round)
			if c.R.IntN(3) == 0 {
				compile = pattern.Pattern.Compile
				name += ", not optimised"
			}
			prog, err := compile(pats[i])
			if err != nil {
				c.Fail("refused after other compilations: %v\npattern: %s", err, specs[i])
			}
			if c.R.IntN(3) == 0 {
				pattern.Optimize(prog)
				name += ", optimised again"
			}
			all = append(all, made{i, prog, name})
			c.Event("program variants", 1)
		}
	}
	for round := 0; round < 2; round++ {
		for _, k := range c.R.Perm(len(all)) {
			if round == 1 && c.R.IntN(2) == 0 {
				continue
			}
			m := all[k]
			if c.R.IntN(8) == 0 {
				_ = m.prog.String()
			}
			code := vm.Encode(m.prog)
			codes[m.i] = append(codes[m.i], &code)
			names[m.i] = append(names[m.i], fmt.Sprintf("sharing nodes, compiled in %s, encoding %d", m.name, round+1))
			if round == 1 {
				c.Event("programs encoded twice", 1)
			}
			if code.Size() != codes[m.i][0].Size() {
				c.Event("variants that differ in code", 1)
			}
		}
	}
	for i, s := range specs {
		compareVariants(c, s, g.inputs(s, shortLen(g)-1, 8, 40), codes[i], names[i])
	}
}
