package main

import (
	"bytes"
	"errors"
	"fmt"
	"strings"

	"github.com/zyedidia/gpeg/memo"
	"github.com/zyedidia/gpeg/pattern"
	"github.com/zyedidia/gpeg/vm"
)

func nestWeights(c *C) map[Kind]int {
	w := genWeights(c)
	w[KGrammar] = 6 + c.R.IntN(8)
	w[KNonTerm] = 16
	w[KSearch] = 1 + c.R.IntN(3)
	w[KCap] = 3
	w[KMemo] = 1
	w[KError] = c.R.IntN(2)
	w[KCheck] = c.R.IntN(2)
	return w
}

// renamed returns a copy of s in which every rule of every grammar has a name
// of its own, given by fresh.
func renamed(s *Spec, scopes []map[string]string, fresh func(old string) string) *Spec {
	c := *s
	c.Kids = nil
	switch s.K {
	case KNonTerm:
		for i := len(scopes) - 1; i >= 0; i-- {
			if n, ok := scopes[i][s.Str]; ok {
				c.Str = n
				break
			}
		}
		return &c
	case KGrammar:
		m := map[string]string{}
		for _, n := range s.Names {
			m[n] = fresh(n)
		}
		scopes = append(scopes[:len(scopes):len(scopes)], m)
		c.Names = nil
		for _, n := range s.Names {
			c.Names = append(c.Names, m[n])
		}
		c.Start = m[s.Start]
	}
	for _, k := range s.Kids {
		c.Kids = append(c.Kids, renamed(k, scopes, fresh))
	}
	return &c
}

// clashes counts uses of names that more than one enclosing or other grammar
// defines.
func clashes(s *Spec) (nested, shadowed int) {
	defs := map[string]int{}
	s.walk(func(x *Spec) {
		if x.K == KGrammar {
			nested++
			for _, n := range x.Names {
				defs[n]++
			}
		}
	})
	s.walk(func(x *Spec) {
		if x.K == KNonTerm && defs[x.Str] > 1 {
			shadowed++
		}
	})
	return nested - 1, shadowed
}

// soleUse returns a grammar with a rule, too recursive to be inlined, that is
// used in one place only, below a few operators of any kind.
func soleUse(c *C, g *Gen) *Spec {
	l := func() *Spec { return lit(string(g.letter())) }
	w := nonterm("X")
	for n := 1 + c.R.IntN(3); n > 0; n-- {
		switch k := c.R.IntN(14); k {
		case 0:
			w = un(KOpt, w)
		case 1:
			w = un(KStar, w)
		case 2:
			w = un(KPlus, w)
		case 3:
			w = un(KNot, w)
		case 4:
			w = un(KAnd, w)
		case 5:
			w = un(KMemo, w)
		case 6:
			w = un(KSearch, w)
		case 7, 8:
			k := un(KCheck, w)
			k.Id, k.Flag = c.R.IntN(3), c.R.IntN(3)
			k.Check = &CheckSpec{Kind: "scripted", Salt: g.R.IntN(50)}
			w = k
		case 9:
			w = alt(l(), errorSpec("e1", w))
		case 10:
			w = alt(l(), w)
		case 11:
			w = seq(w, l())
		case 12:
			w = grammar("Y", map[string]*Spec{"Y": alt(seq(l(), un(KOpt, nonterm("Y")), w), l())})
		default:
			w = un(KCap, w)
			w.Id = 1 + c.R.IntN(5)
		}
	}
	rules := map[string]*Spec{
		"S": alt(seq(w, un(KOpt, l())), l()),
		"X": alt(seq(l(), un(KCap, nonterm("S"))), l()),
	}
	if c.R.IntN(3) == 0 {
		// the way from the start to it is longer
		rules["Z"] = alt(seq(l(), nonterm("S")), nonterm("S"))
		return alt(grammar("Z", rules), grammar("X", map[string]*Spec{"X": alt(seq(l(), un(KOpt, nonterm("X"))), l())}))
	}
	return alt(grammar("S", rules), grammar("X", map[string]*Spec{"X": alt(seq(l(), un(KOpt, nonterm("X"))), l())}))
}

func c24Spec(c *C, g *Gen) *Spec {
	for try := 0; ; try++ {
		var s *Spec
		switch c.R.IntN(5) {
		case 4:
			s = soleUse(c, g)
		case 0:
			s = g.pattern(8 + c.R.IntN(20))
		case 1:
			// a grammar within a search within a grammar
			in := g.grammar(1+c.R.IntN(3), 6+c.R.IntN(12))
			s = grammar("S", map[string]*Spec{
				"S": alt(seq(lit(string(g.letter())), un(KSearch, seq(in, nonterm("A")))), nonterm("A")),
				"A": class(setOf(g.letter())),
			})
		case 2:
			// the same grammar several times
			in := g.grammar(1+c.R.IntN(3), 6+c.R.IntN(12))
			s = seq(in, un(KOpt, in.copy()))
			if c.R.IntN(2) == 0 {
				s = grammar(in.Names[0], map[string]*Spec{in.Names[0]: seq(lit("a"), in, un(KOpt, nonterm(in.Names[0]))), "Z": lit("b")})
			}
		default:
			s = g.grammar(2+c.R.IntN(3), 12+c.R.IntN(25))
		}
		if n, _ := clashes(s); n < 1 && try < 30 {
			continue
		}
		if wellFormed(s) {
			return s
		}
	}
}

func c24Case(c *C) {
	g := newGen(c.R, nestWeights(c))
	s := c24Spec(c, g)
	c24Judge(c, s, g.inputs(s, shortLen(g)-1, 14, 80))
}

// c24Big nests large grammars that use the same names.
func c24Big(c *C) {
	n := 20 + c.R.IntN(150)
	s, ins := bigProgramOf(c.R, "checks", n)
	var cut func(s *Spec, d int)
	cut = func(s *Spec, d int) {
		for k := 1 + c.R.IntN(3); k > 0; k-- {
			in, texts := bigProgramOf(c.R, "checks", 10+c.R.IntN(n))
			if d > 0 {
				cut(in, d-1)
			}
			tag := fmt.Sprintf("#%d%d", d, k)
			where := s.rule("S")
			if c.R.IntN(2) == 0 {
				// what is not defined inside is outside
				in.rule("S").Kids = append([]*Spec{un(KOpt, seq(lit("^"), nonterm(fmt.Sprintf("outer%d", k))))}, in.rule("S").Kids...)
				s.Names = append(s.Names, fmt.Sprintf("outer%d", k))
				s.Kids = append(s.Kids, lit(fmt.Sprintf("%d%d", d, k)))
			}
			where.Kids[0] = alt(seq(lit(tag), in), where.Kids[0])
			if d == 1 {
				for _, t := range texts {
					ins = append(ins, []byte(tag+string(t)), []byte(fmt.Sprintf("%s^%d%d%s", tag, d, k, t)))
				}
			}
		}
	}
	cut(s, 1)
	c.R.Shuffle(len(ins), func(i, j int) { ins[i], ins[j] = ins[j], ins[i] })
	if wellFormed(s) {
		c24Judge(c, s, ins[:min(len(ins), 8)])
	}
}

func c24Judge(c *C, s *Spec, ins [][]byte) {
	nested, shadowed := clashes(s)
	c.Event("nested grammars", max(0, nested))
	c.Event("uses of names with several definitions", shadowed)
	nontrivialSpec(c, s, "")
	c.Sample("%s", s)
	n := 0
	style := c.R.IntN(4)
	apart := renamed(s, nil, func(old string) string {
		n++
		switch style {
		case 0:
			return fmt.Sprintf("rule%d", n)
		case 1:
			return strings.Repeat("x", n)
		case 2:
			return fmt.Sprintf("%d\x00 \xff", n)
		}
		return fmt.Sprintf("%s%d", old, n)
	})
	// swap names within each grammar, as far as they clash with others
	codes := []*vm.Code{}
	names := []string{"as given", "as given, no inlining", "renamed apart", "renamed apart, no inlining"}
	for i, x := range []*Spec{s, s, apart, apart} {
		c.ClearNotes()
		c.Note("pattern: %s", clip(x.String(), 3000))
		th := []int{100, 0, 100, 0}[i]
		code, err := variant(c, (&Builder{R: c.R, Share: c.R.IntN(2) == 0}).Build(x), th, 1)
		if err != nil {
			c.Fail("a grammar whose names are all defined was refused: %v\npattern: %s", err, clip(x.String(), 3000))
		}
		codes = append(codes, code)
	}
	for _, in := range ins {
		want, steps, ok := interpret(s, in, interpLimit)
		if !ok {
			c.Event("skipped: model out of steps", 1)
			continue
		}
		if want.Match {
			c.Event("matches", 1)
		} else {
			c.Event("mismatches", 1)
		}
		for i, code := range codes {
			c.ClearNotes()
			c.Note("pattern: %s", clip(s.String(), 3000))
			c.Note("input: %s, %s", quote(in), names[i])
			got := execCode(code, bytes.NewReader(in), memo.NoneTable{}, budgetFor(steps))
			c.Eval()
			if d := allSame(&want, &got); d != "" {
				c.Fail("%s (%s) differs from what the names mean\npattern: %s\ninput: %s\nexpected: %s\nobserved: %s", d, names[i], clip(s.String(), 3000), quote(in), clip(want.String(), 1500), clip(got.String(), 1500))
			}
		}
	}
}

// undefinedUses finds the uses of undefined names: those that certainly can be
// reached from the start and those that perhaps cannot.
func undefinedUses(s *Spec) (must, may map[string]bool) {
	must, may = map[string]bool{}, map[string]bool{}
	type key struct {
		s *Spec
		e *env
	}
	seen := map[key]bool{}
	envs := map[*Spec]*env{} // one scope per grammar node (specs are trees)
	var rec func(s *Spec, e *env, sure bool)
	rec = func(s *Spec, e *env, sure bool) {
		switch s.K {
		case KNonTerm:
			d, de := e.lookup(s.Str)
			if d == nil {
				if sure {
					must[s.Str] = true
				} else {
					may[s.Str] = true
				}
				return
			}
			k := key{d, de}
			if seen[k] || !sure {
				return
			}
			seen[k] = true
			rec(d, de, true)
			return
		case KGrammar:
			ne := envs[s]
			if ne == nil {
				ne = &env{s, e}
				envs[s] = ne
			}
			if s.rule(s.Start) == nil {
				if sure {
					must[s.Start] = true
				} else {
					may[s.Start] = true
				}
				return
			}
			k := key{s.rule(s.Start), ne}
			if sure && !seen[k] {
				seen[k] = true
				rec(s.rule(s.Start), ne, true)
			}
			return
		case KAlt:
			// an alternative after one that may be empty is never tried
			for _, k := range s.Kids {
				rec(k, e, sure)
				if possiblyEmpty(k) {
					sure = false
				}
			}
			return
		case KRepeat:
			if s.N <= 0 {
				sure = false
			}
		case KSeq, KStar, KPlus:
			// something that can never match ends a sequence
		}
		for _, k := range s.Kids {
			rec(k, e, sure)
		}
	}
	rec(s, nil, true)
	// every undefined name anywhere may be reported
	var all func(s *Spec, e *env)
	all = func(s *Spec, e *env) {
		switch s.K {
		case KNonTerm:
			if d, _ := e.lookup(s.Str); d == nil {
				may[s.Str] = true
			}
		case KGrammar:
			if s.rule(s.Start) == nil {
				may[s.Start] = true
			}
			e = &env{s, e}
		}
		for _, k := range s.Kids {
			all(k, e)
		}
	}
	all(s, nil)
	return
}

// possiblyEmpty reports whether s might always match the empty string, which
// makes what comes after it in an alternation unreachable.
func possiblyEmpty(s *Spec) bool {
	bad := false
	s.walk(func(x *Spec) {
		switch x.K {
		case KEmpty, KOpt, KStar, KNonTerm, KGrammar, KNot, KAnd, KEmptyOp, KSearch, KError, KCheck:
			bad = true
		case KLit:
			bad = bad || x.Str == ""
		case KAny, KRepeat:
			bad = bad || x.N <= 0
		}
	})
	return bad
}

// c24Undefined takes definitions away.
func c24Undefined(c *C) {
	g := newGen(c.R, nestWeights(c))
	g.Weights[KGrammar] = 2
	var s *Spec
	if c.R.IntN(12) == 0 {
		s = seq(lit("a"), g.pattern(4+c.R.IntN(8)))
	} else {
		s = c24Spec(c, g)
	}
	s = s.copy()
	var nodes, grams []*Spec
	s.walk(func(x *Spec) {
		if x.K == KGrammar {
			grams = append(grams, x)
		} else if x.K == KNonTerm {
			nodes = append(nodes, x)
		}
	})
	name := fmt.Sprintf("Undef%d", c.R.IntN(1000))
	if c.R.IntN(3) == 0 {
		name = "U" + strings.Repeat("u", c.R.IntN(30)) + "\x01 \u00fc"
	}
	switch k := c.R.IntN(5); {
	case k == 0 && len(grams) > 0:
		grams[c.R.IntN(len(grams))].Start = name
	case k == 1 && len(grams) > 0:
		// remove a rule
		x := grams[c.R.IntN(len(grams))]
		if len(x.Names) > 1 {
			i := c.R.IntN(len(x.Names))
			x.Names = append(x.Names[:i:i], x.Names[i+1:]...)
			x.Kids = append(x.Kids[:i:i], x.Kids[i+1:]...)
		}
	case k == 2 && len(nodes) > 1:
		nodes[c.R.IntN(len(nodes))].Str = name
		nodes[c.R.IntN(len(nodes))].Str = name + "2"
	case len(nodes) > 0 && k < 4:
		nodes[c.R.IntN(len(nodes))].Str = name
	default:
		// use an undefined name somewhere else
		x := s
		for len(x.Kids) > 0 && c.R.IntN(5) > 0 {
			x = x.Kids[c.R.IntN(len(x.Kids))]
		}
		y := *x
		if x.K == KGrammar {
			y = *x.copy()
		}
		*x = *seq(&y, nonterm(name))
	}
	if c.R.IntN(5) == 0 {
		s = un(KSearch, s)
	}
	must, may := undefinedUses(s)
	c.Eval()
	c.Note("pattern: %s", clip(s.String(), 3000))
	c.Sample("%s", s)
	nontrivialSpec(c, s, "")
	_, err := variant(c, (&Builder{R: c.R, Share: c.R.IntN(2) == 0}).Build(s), thresholds[c.R.IntN(len(thresholds))], 1)
	switch {
	case err == nil && len(must) > 0:
		c.Fail("a pattern whose start reaches the undefined names %q was compiled\npattern: %s", sortedSet(must), clip(s.String(), 3000))
	case err != nil && len(may) == 0:
		c.Fail("a pattern without undefined names was refused: %v\npattern: %s", err, clip(s.String(), 3000))
	case err != nil:
		var nf *pattern.NotFoundError
		if errors.As(err, &nf) {
			if !may[nf.Name] {
				c.Fail("the error names %q; undefined are %q\npattern: %s", nf.Name, sortedSet(may), clip(s.String(), 3000))
			}
		}
		named := false
		for n := range may {
			named = named || strings.Contains(err.Error(), n)
		}
		if !named {
			c.Fail("the error %q names none of the undefined names %q\npattern: %s", err, sortedSet(may), clip(s.String(), 3000))
		}
		c.Event("undefined names reported", 1)
		if len(must) == 0 {
			c.Event("reported though perhaps unreachable", 1)
		}
	case len(may) > 0:
		c.Event("unreachable undefined names", 1)
	default:
		c.Event("nothing undefined", 1)
	}
}

func init() {
	register(&Prop{
		ID:   "C24",
		Rule: "an execution is one parse by a grammar that contains grammars, or one compilation of a pattern with undefined names; parses are compared with the interpreter, which resolves names lexically, for the grammar as given and with every rule renamed apart; distinct non-trivial ones differ in pattern (at least 3 nodes)",
		Assume: []string{
			"the reference interpreter states PEG semantics and lexical scoping correctly",
			"undefined names in rules the start rule cannot reach, or after an alternative that always matches, may or may not be reported",
		},
		Families: []Family{
			{Name: "nested", Quick: 50000, Thorough: 1500000, Batch: 200, Run: c24Case},
			{Name: "big", Quick: 160, Thorough: 4800, Batch: 4, CPU: 120, Run: c24Big},
			{Name: "undefined", Quick: 80000, Thorough: 2400000, Batch: 500, Run: c24Undefined},
		},
		Need: []string{"nested grammars", "uses of names with several definitions", "matches", "mismatches", "undefined names reported"},
	})
}
