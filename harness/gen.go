package main

import (
	"fmt"
	"math/rand/v2"
	"regexp/syntax"
)

// Gen generates well-formed patterns and inputs that exercise them.
type Gen struct {
	R        *rand.Rand
	Alpha    []byte // alphabet
	Weights  map[Kind]int
	Names    []string // names in scope
	MaxDepth int
	Ids      int // capture ids are below this
	Msgs     int
	budget   int
	depth    int
	nextRef  int
	nested   bool // allow nested grammars
	wide     bool // allow bytes outside the alphabet
}

var alphabets = []string{"ab", "ab", "abc", "ab\n", "a\x80", "a\xff\x00", "ab 1", "abA_", "01", "a.\n"}

func baseWeights() map[Kind]int {
	return map[Kind]int{KLit: 14, KClass: 8, KAny: 4, KSeq: 14, KAlt: 12, KStar: 6, KPlus: 3, KOpt: 4, KNot: 4, KAnd: 2, KRepeat: 1, KEmptyOp: 1, KSearch: 1, KEmpty: 1}
}

func withWeights(m map[Kind]int) map[Kind]int {
	w := baseWeights()
	for k, v := range m {
		w[k] = v
	}
	return w
}

func newGen(r *rand.Rand, w map[Kind]int) *Gen {
	return &Gen{R: r, Alpha: []byte(alphabets[r.IntN(len(alphabets))]), Weights: w, MaxDepth: 5, Ids: 6, Msgs: 4}
}

func (g *Gen) letter() byte { return g.Alpha[g.R.IntN(len(g.Alpha))] }

func (g *Gen) pick(leaf bool) Kind {
	total := 0
	ok := func(k Kind) bool {
		w := g.Weights[k]
		if w <= 0 {
			return false
		}
		if k == KNonTerm && len(g.Names) == 0 {
			return false
		}
		if leaf {
			switch k {
			case KLit, KClass, KAny, KEmptyOp, KEmpty, KNonTerm:
				return true
			}
			return false
		}
		return true
	}
	for k := KLit; k <= KEmpty; k++ {
		if ok(k) {
			total += g.Weights[k]
		}
	}
	n := g.R.IntN(total)
	for k := KLit; k <= KEmpty; k++ {
		if ok(k) {
			if n < g.Weights[k] {
				return k
			}
			n -= g.Weights[k]
		}
	}
	return KLit
}

var assertOps = []syntax.EmptyOp{syntax.EmptyBeginLine, syntax.EmptyEndLine, syntax.EmptyBeginText, syntax.EmptyEndText, syntax.EmptyWordBoundary, syntax.EmptyNoWordBoundary}

func (g *Gen) set() *ByteSet {
	var s ByteSet
	switch g.R.IntN(7) {
	case 0:
		s = *setRange(g.letter(), g.letter())
		if s.size() == 0 {
			s[g.letter()] = true
		}
	case 1:
		s = *setOf(g.letter()).complement()
	case 2:
		for i := 0; i < 1+g.R.IntN(20); i++ {
			s[g.R.IntN(256)] = true
		}
	case 3:
		s = *setRange(byte(g.R.IntN(256)), byte(g.R.IntN(256)))
	default:
		for i := 0; i < 1+g.R.IntN(3); i++ {
			s[g.letter()] = true
		}
	}
	if g.R.IntN(60) == 0 {
		s = ByteSet{}
	}
	return &s
}

func (g *Gen) str() string {
	n := 1
	switch g.R.IntN(8) {
	case 0, 1, 2:
		n = 2 + g.R.IntN(3)
	case 3:
		if g.R.IntN(8) == 0 {
			n = 0
		}
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = g.letter()
	}
	return string(b)
}

// node generates an arbitrary node; the caller checks well-formedness.
func (g *Gen) node() *Spec {
	g.depth++
	defer func() { g.depth-- }()
	g.budget--
	k := g.pick(g.depth > g.MaxDepth || g.budget <= 0)
	switch k {
	case KLit:
		return lit(g.str())
	case KClass:
		return class(g.set())
	case KAny:
		n := 1
		if g.R.IntN(4) == 0 {
			n = g.R.IntN(5)
		}
		return anyN(n)
	case KSeq, KAlt:
		n := 2
		if g.R.IntN(3) == 0 {
			n = 3
		}
		s := &Spec{K: k}
		for i := 0; i < n; i++ {
			s.Kids = append(s.Kids, g.node())
		}
		return s
	case KCap:
		return capt(g.node(), g.R.IntN(g.Ids))
	case KRepeat:
		return repeat(g.node(), g.R.IntN(4))
	case KEmptyOp:
		return emptyOp(assertOps[g.R.IntN(len(assertOps))])
	case KEmpty:
		return empty()
	case KNonTerm:
		return nonterm(g.Names[g.R.IntN(len(g.Names))])
	case KStar, KPlus:
		// repeating something that starts by consuming is well-formed more often
		n := g.node()
		if g.R.IntN(3) == 0 {
			n = seq(lit(string(g.letter())), n)
		}
		return un(k, n)
	case KCheck:
		return g.check()
	case KError:
		msg := fmt.Sprintf("e%d", g.R.IntN(g.Msgs))
		if g.R.IntN(4) == 0 {
			return errorSpec(msg, nil)
		}
		return errorSpec(msg, g.node())
	case KGrammar:
		return g.grammarNode(1+g.R.IntN(3), false)
	}
	return un(k, g.node())
}

func (g *Gen) check() *Spec {
	body := g.node()
	s := un(KCheck, body)
	s.Id, s.Flag = g.R.IntN(3), g.R.IntN(3)
	switch g.R.IntN(5) {
	case 0:
		s.Check = &CheckSpec{Kind: "words"}
		for i := 0; i < 1+g.R.IntN(4); i++ {
			s.Check.Words = append(s.Check.Words, g.str())
		}
	case 1:
		s.Check = &CheckSpec{Kind: "look", Salt: g.R.IntN(200)}
	default:
		s.Check = &CheckSpec{Kind: "scripted", Salt: g.R.IntN(50)}
	}
	return s
}

var ruleNames = []string{"A", "B", "C", "D", "E", "S"}

func (g *Gen) grammarNode(n int, fresh bool) *Spec {
	old := g.Names
	off := g.R.IntN(len(ruleNames))
	var names []string
	for i := 0; i < n; i++ {
		names = append(names, ruleNames[(off+i)%len(ruleNames)])
	}
	if fresh {
		g.Names = nil
	}
	g.Names = append(append([]string{}, g.Names...), names...)
	// names defined here are used more often
	g.Names = append(g.Names, names...)
	rules := map[string]*Spec{}
	for _, nm := range names {
		d := g.depth
		if g.budget < 6 {
			g.budget = 6
		}
		rules[nm] = g.node()
		g.depth = d
	}
	g.Names = old
	return grammar(names[g.R.IntN(len(names))], rules)
}

// pattern generates a well-formed pattern of about the given size.
func (g *Gen) pattern(size int) *Spec {
	for try := 0; ; try++ {
		g.budget, g.depth = size, 0
		s := g.node()
		if s.size() < 2 && try < 20 {
			continue
		}
		if wellFormed(s) {
			return s
		}
		if try > 400 {
			return lit(g.str())
		}
	}
}

// grammar generates a well-formed grammar with n rules.
func (g *Gen) grammar(n, size int) *Spec {
	old := g.Weights
	if g.Weights[KNonTerm] == 0 {
		w := map[Kind]int{}
		for k, v := range old {
			w[k] = v
		}
		w[KNonTerm] = 12
		g.Weights = w
	}
	defer func() { g.Weights = old }()
	for try := 0; ; try++ {
		g.budget, g.depth = size, 0
		s := g.grammarNode(n, true)
		if wellFormed(s) {
			return s
		}
		if try > 600 {
			return grammar("S", map[string]*Spec{"S": alt(seq(lit("a"), nonterm("S"), lit("b")), lit("a"))})
		}
	}
}

// sample appends a string that s is likely to match.
func (g *Gen) sample(s *Spec, e *env, out []byte, fuel *int) []byte {
	*fuel--
	if *fuel < 0 || len(out) > 4000 {
		return out
	}
	switch s.K {
	case KLit:
		return append(out, s.Str...)
	case KClass:
		l := s.Set.list()
		if len(l) == 0 {
			return out
		}
		// prefer letters of the alphabet
		for i := 0; i < 4; i++ {
			if b := g.letter(); s.Set[b] {
				return append(out, b)
			}
		}
		return append(out, l[g.R.IntN(len(l))])
	case KAny:
		for i := 0; i < s.N; i++ {
			out = append(out, g.letter())
		}
	case KSeq:
		for _, k := range s.Kids {
			out = g.sample(k, e, out, fuel)
		}
	case KAlt:
		if len(s.Kids) == 0 {
			return out
		}
		// with little fuel, prefer later alternatives, which tend to end
		i := g.R.IntN(len(s.Kids))
		if *fuel < 20 {
			i = len(s.Kids) - 1
		}
		return g.sample(s.Kids[i], e, out, fuel)
	case KStar, KPlus:
		n := g.R.IntN(4)
		if s.K == KPlus {
			n++
		}
		for i := 0; i < n; i++ {
			out = g.sample(s.Kids[0], e, out, fuel)
		}
	case KOpt:
		if g.R.IntN(2) == 0 {
			return g.sample(s.Kids[0], e, out, fuel)
		}
	case KRepeat:
		for i := 0; i < s.N; i++ {
			out = g.sample(s.Kids[0], e, out, fuel)
		}
	case KCap, KMemo:
		return g.sample(s.Kids[0], e, out, fuel)
	case KCheck:
		if s.Check.Kind == "words" && g.R.IntN(2) == 0 && len(s.Check.Words) > 0 {
			return append(out, s.Check.Words[g.R.IntN(len(s.Check.Words))]...)
		}
		return g.sample(s.Kids[0], e, out, fuel)
	case KSearch:
		for i := g.R.IntN(4); i > 0; i-- {
			out = append(out, g.letter())
		}
		return g.sample(s.Kids[0], e, out, fuel)
	case KError:
		if !s.NoRec {
			return g.sample(s.Kids[0], e, out, fuel)
		}
	case KNonTerm:
		d, de := e.lookup(s.Str)
		if d == nil {
			return out
		}
		return g.sample(d, de, out, fuel)
	case KGrammar:
		return g.sample(s.rule(s.Start), &env{s, e}, out, fuel)
	case KEmptyOp:
		if g.R.IntN(4) == 0 {
			out = append(out, '\n')
		}
	}
	return out
}

// input derives an input from s and mutates it.
func (g *Gen) input(s *Spec, fuel int) []byte {
	f := fuel
	b := g.sample(s, nil, nil, &f)
	for i := g.R.IntN(4); i > 0; i-- {
		b = g.mutate(b)
	}
	if g.R.IntN(3) == 0 {
		f = fuel / 2
		b = g.sample(s, nil, b, &f)
	}
	return b
}

func (g *Gen) mutate(b []byte) []byte {
	b = append([]byte{}, b...)
	n := len(b)
	pos := g.R.IntN(n + 1)
	switch g.R.IntN(6) {
	case 0:
		if n > 0 {
			pos %= n
			b = append(b[:pos], b[pos+1:]...)
		}
	case 1:
		b = append(b[:pos], append([]byte{g.letter()}, b[pos:]...)...)
	case 2:
		if n > 0 {
			b[pos%n] = g.letter()
		}
	case 3:
		b = b[:pos]
	case 4:
		b = append(b, g.letter())
	case 5:
		if n > 0 && g.R.IntN(4) == 0 {
			b[pos%n] = byte(g.R.IntN(256))
		} else if n > 1 {
			q := g.R.IntN(n)
			p := pos % n
			b[p], b[q] = b[q], b[p]
		}
	}
	return b
}

// shortStrings lists all strings over the alphabet up to the given length.
func shortStrings(alpha []byte, n int) [][]byte {
	out := [][]byte{{}}
	level := [][]byte{{}}
	for i := 0; i < n; i++ {
		var next [][]byte
		for _, s := range level {
			for _, c := range alpha {
				next = append(next, append(append([]byte{}, s...), c))
			}
		}
		out = append(out, next...)
		level = next
	}
	return out
}

// inputs returns inputs for s: all short strings and n derived ones.
func (g *Gen) inputs(s *Spec, short, n, fuel int) [][]byte {
	ins := shortStrings(g.Alpha, short)
	for i := 0; i < n; i++ {
		ins = append(ins, g.input(s, fuel))
	}
	return ins
}
