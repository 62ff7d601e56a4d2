package main

import (
	"bytes"
	"fmt"

	"github.com/zyedidia/gpeg/charset"
	"github.com/zyedidia/gpeg/isa"
	"github.com/zyedidia/gpeg/memo"
	"github.com/zyedidia/gpeg/pattern"
	"github.com/zyedidia/gpeg/vm"
)

// tryCompile compiles and encodes; a refusal is an error or a panic.
func tryCompile(p pattern.Pattern, threshold, passes int) (code *vm.Code, refused string) {
	defer func() {
		if r := recover(); r != nil {
			code, refused = nil, fmt.Sprint("panic: ", r)
		}
	}()
	code, err := variant(nil, p, threshold, passes)
	if err != nil {
		return nil, err.Error()
	}
	return code, ""
}

// c26Watch compiles s, which has the given operand, and unless it is refused
// compares its runs with the interpreter. ordinary operands may not be refused.
func c26Watch(c *C, what string, s *Spec, ordinary bool, ins [][]byte) {
	c26Build(c, what, s, func(b *Builder) pattern.Pattern { return b.Build(s) }, ordinary, ins)
}

func c26Build(c *C, what string, s *Spec, build func(*Builder) pattern.Pattern, ordinary bool, ins [][]byte) {
	for i := 0; i < 2; i++ {
		th, passes := 100, 1
		if i > 0 {
			th, passes = 0, c.R.IntN(2)*2
		}
		c.ClearNotes()
		c.Note("%s", what)
		var log []CheckCall
		b := &Builder{callLog: &log}
		code, refused := tryCompile(build(b), th, passes)
		c.Eval()
		if refused != "" {
			if ordinary {
				c.Fail("%s: refused although it is within every limit: %s", what, refused)
			}
			c.Event("refused", 1)
			continue
		}
		if ordinary {
			c.Event("accepted within limits", 1)
		} else {
			c.Event("accepted beyond ordinary limits", 1)
		}
		c.Max("program bytes", code.Size())
		for _, in := range ins {
			want, steps, ok := interpret(s, in, 3000000)
			if !ok {
				c.Event("skipped: model out of steps", 1)
				continue
			}
			log = nil
			b.resetRefs()
			c.ClearNotes()
			c.Note("%s, input %s, model %s", what, quote(in), clip(want.String(), 300))
			got := execCode(code, bytes.NewReader(in), memo.NoneTable{}, budgetFor(steps)+int64(len(in))*10)
			got.Calls = append([]CheckCall{}, log...)
			c.Eval()
			if want.Match {
				c.Event("matches", 1)
			} else {
				c.Event("mismatches", 1)
			}
			d := allSame(&want, &got)
			if d == "" && !sameCalls(want.Calls, got.Calls) {
				d = "what the checkers were given"
			}
			if d != "" {
				c.Fail("%s (inline threshold %d): %s differs\ninput: %s\nexpected: %s\nobserved: %s", what, th, d, quote(in), clip(want.String(), 600), clip(got.String(), 600))
			}
		}
	}
}

var wideValues = []int{0, 1, -1, 127, 128, -128, -129, 255, 256, 257, 511, 32766, 32767, 32768, 32769, -32767, -32768, -32769, 65535, 65536, 65537, 65541, -65536, 1 << 20, 1<<24 - 1, 1 << 24, 1<<24 + 5, 1<<31 - 1, 1 << 31, 1<<31 + 1, 1 << 32, 1<<32 + 7, -1 << 31, -1<<31 - 1, -1 << 40, 1<<63 - 1, -1 << 63}

func i16(v int) bool { return v >= -1<<15 && v < 1<<15 }

func wide(c *C) int {
	if c.R.IntN(3) == 0 {
		return c.R.IntN(1<<18) - 1<<17
	}
	return wideValues[c.R.IntN(len(wideValues))]
}

// c26Ids gives captures and checks ids and flags of any size.
func c26Ids(c *C) {
	body := func() *Spec {
		switch c.R.IntN(6) {
		case 0:
			return lit("ab")
		case 1:
			return seq(anyN(2), un(KStar, lit("ab")))
		case 2:
			return un(KStar, class(setOf('a', 'b')))
		case 3:
			return alt(lit("ab"), lit("ba"))
		case 4:
			return class(setOf('a'))
		}
		return empty()
	}
	v, w := wide(c), wide(c)
	var s *Spec
	ok := i16(v)
	what := fmt.Sprintf("capture id %d", v)
	switch c.R.IntN(3) {
	case 0:
		s = capt(body(), v)
	case 1:
		s = seq(capt(body(), v), un(KStar, capt(body(), w)))
		if !wellFormed(s) {
			s.Kids[1] = capt(body(), w)
		}
		ok = ok && i16(w)
		what = fmt.Sprintf("capture ids %d and %d", v, w)
	case 2:
		s = un(KCheck, body())
		s.Id, s.Flag = v, w
		s.Check = &CheckSpec{Kind: "scripted", Salt: c.R.IntN(10)}
		ok = ok && i16(w)
		what = fmt.Sprintf("check id %d flag %d", v, w)
	}
	c.Nontrivial(s.String())
	c.Sample("%s", s)
	c26Watch(c, what+": "+s.String(), s, ok, [][]byte{nil, []byte("a"), []byte("ab"), []byte("abab"), []byte("ba")})
}

// c26Memo gives memo nodes ids of any size; it runs alone in its process,
// because automatic ids continue from the largest given.
func c26Memo(c *C) {
	pairs := [][2]int{{5, 5 + 65536}, {32767, 32767 + 65536}, {0, 65536}, {-1, 65535}, {32768, -32768}, {1, 1 + 1<<32}, {100, 100 + 256}, {7, 7 + 1<<24}, {-32768, 32767}, {255, -1}, {1, 257}, {127, -129}}
	p := pairs[c.Idx%len(pairs)]
	form := c.Idx / len(pairs) % 2
	a, b := pattern.Pattern(pattern.Concat(pattern.Cap(pattern.Literal("a"), 1), pattern.Star(pattern.Literal("b")))), pattern.Pattern(pattern.Concat(pattern.Literal("ab"), pattern.Cap(pattern.Literal("b"), 2)))
	build := func(memoize bool) pattern.Pattern {
		x, y := a, b
		if memoize {
			if form == 0 {
				x, y = pattern.MemoId(a, p[0]), pattern.MemoId(b, p[1])
			} else {
				x, y = pattern.MemoId(a, p[1]), pattern.MemoId(b, p[0])
			}
		}
		return pattern.Or(pattern.Concat(x, pattern.Literal("x")), pattern.Concat(y, pattern.Literal("y")), pattern.Concat(x, pattern.Not(pattern.Any(1))))
	}
	plain, refused := tryCompile(build(false), 100, 1)
	if refused != "" {
		c.Fail("refused: %s", refused)
	}
	code, refused := tryCompile(build(true), 100, 1)
	c.Eval()
	c.Nontrivial(fmt.Sprint(p, form))
	what := fmt.Sprintf("memo ids %d and %d", p[0], p[1])
	if refused != "" {
		if i16(p[0]) && i16(p[1]) {
			c.Fail("%s: refused although within limits: %s", what, refused)
		}
		c.Event("refused", 1)
	} else {
		c.Event("accepted within limits", 1)
		for _, in := range []string{"abbx", "abby", "abb", "ax", "ay", "aby", "abbbb", "a"} {
			want := execCode(plain, bytes.NewReader([]byte(in)), memo.NoneTable{}, defaultBudget)
			tbl := &watchTable{Table: memo.NewTreeTable(0), keep: true}
			for k := 0; k < 2; k++ {
				got := execCode(code, bytes.NewReader([]byte(in)), tbl, defaultBudget)
				c.Eval()
				if d := diffMemo(&want, &got); d != "" {
					c.Fail("%s: %s differs on %q: %s, without memoization %s", what, d, in, got.String(), want.String())
				}
			}
			for _, e := range tbl.entries {
				if e.id != p[0] && e.id != p[1] {
					c.Fail("%s: an entry was recorded with id %d", what, e.id)
				}
			}
		}
	}
	// automatic ids after the largest: refused or distinct
	x, y := pattern.Memo(a), pattern.Memo(b)
	code, refused = tryCompile(pattern.Or(pattern.Concat(x, pattern.Literal("x")), pattern.Concat(y, pattern.Literal("y"))), 100, 1)
	if refused != "" {
		c.Event("refused", 1)
		return
	}
	tbl := memo.NewTreeTable(0)
	for _, t := range []struct {
		in string
		ok bool
	}{{"abbx", true}, {"abby", true}, {"aby", false}} {
		tbl = memo.NewTreeTable(0)
		got := execCode(code, bytes.NewReader([]byte(t.in)), tbl, defaultBudget)
		c.Eval()
		if got.Match != t.ok {
			c.Fail("after %s: automatic memo ids clash on %q: %s", what, t.in, got.String())
		}
	}
}

// c26Back captures after runs of single-byte and any-n instructions, whose
// length is an operand.
func c26Back(c *C) {
	n := 240 + c.R.IntN(30)
	switch c.R.IntN(4) {
	case 0:
		n = c.R.IntN(300)
	case 1:
		n = 500 + c.R.IntN(40)
	}
	part := seq()
	size := 0
	var in []byte
	for size < n {
		switch c.R.IntN(3) {
		case 0:
			k := min(n-size, 1+c.R.IntN(60))
			b := make([]byte, k)
			for i := range b {
				b[i] = byte('a' + c.R.IntN(3))
			}
			part.Kids = append(part.Kids, lit(string(b)))
			in = append(in, b...)
			size += k
		case 1:
			k := min(n-size, []int{1, 2, 100, 200, 254, 255}[c.R.IntN(6)])
			part.Kids = append(part.Kids, anyN(k))
			for i := 0; i < k; i++ {
				in = append(in, 'z')
			}
			size += k
		case 2:
			part.Kids = append(part.Kids, class(setRange('a', 'f')))
			in = append(in, 'c')
			size++
		}
	}
	if len(part.Kids) == 0 {
		part = empty()
	}
	s := capt(part, 3)
	switch c.R.IntN(4) {
	case 0:
		s = capt(seq(part, un(KStar, lit("xy"))), 3)
		in = append(in, "xyxyx"...)
	case 1:
		s = seq(un(KOpt, lit("qq")), s, capt(un(KStar, anyN(1)), 4))
		if c.R.IntN(2) == 0 {
			in = append([]byte("qq"), in...)
		}
	case 2:
		s = capt(seq(s, capt(un(KOpt, lit("x")), 5)), 6)
		in = append(in, 'x')
	}
	c.Nontrivial(s.String())
	c.Event("long captures", 1)
	c26Watch(c, fmt.Sprintf("capture of %d bytes", n), s, true, [][]byte{in, in[:max(0, len(in)-1)], append(append([]byte{}, in...), 'x'), nil})
}

// c26Any consumes n bytes, in every place where that is an instruction of its
// own.
func c26Any(c *C) {
	n := c.Idx % 256
	in := bytes.Repeat([]byte("a"), 3*n+3)
	for i := range in {
		in[i] = byte(c.R.IntN(256))
	}
	var forms []*Spec
	forms = append(forms, anyN(n), seq(anyN(n), anyN(1)), alt(seq(anyN(n), lit("\x00")), anyN(1)), un(KNot, anyN(n)), un(KAnd, anyN(n)), un(KOpt, anyN(n)),
		capt(anyN(n), 1), alt(anyN(n), lit("")), alt(seq(anyN(n), anyN(n)), seq(anyN(n), capt(un(KStar, anyN(1)), 2))), un(KSearch, seq(anyN(n), un(KNot, anyN(1)))))
	if n > 0 {
		forms = append(forms, un(KStar, anyN(n)), un(KPlus, capt(anyN(n), 1)), un(KStar, alt(seq(anyN(n), lit("\x01")), anyN(n))))
	}
	for _, s := range forms {
		if !wellFormed(s) {
			continue
		}
		var ins [][]byte
		for _, k := range []int{0, n - 1, n, n + 1, 2*n - 1, 2 * n, 2*n + 1, 3*n + 2} {
			if k >= 0 && k <= len(in) {
				ins = append(ins, in[:k])
			}
		}
		c.Nontrivial(s.String())
		c26Watch(c, s.String(), s, true, ins)
	}
}

// c26Sets uses many distinct sets.
func c26Sets(c *C) {
	n := []int{100, 200, 250, 254, 255, 256, 257, 258, 260, 300, 511, 512, 513, 600}[c.R.IntN(14)]
	perm := c.R.Perm(100000)
	sets := make([]*ByteSet, n)
	seen := map[ByteSet]bool{}
	for i := range sets {
		for k := 0; ; k++ {
			s := &ByteSet{}
			x := perm[i] + k*100000
			for bit := 0; bit < 17; bit++ {
				if x>>bit&1 != 0 {
					s['A'+bit] = true
				}
			}
			s[byte(c.R.IntN(256))] = true
			s[byte(c.R.IntN(256))] = true
			if !seen[*s] && s.size() < 250 {
				seen[*s] = true
				sets[i] = s
				break
			}
		}
	}
	s := seq()
	var in []byte
	form := c.R.IntN(5)
	for _, set := range sets {
		l := set.list()
		b := l[c.R.IntN(len(l))]
		f := form
		if f == 4 {
			f = c.R.IntN(4)
		}
		switch f {
		case 0:
			s.Kids = append(s.Kids, class(set))
			in = append(in, b)
		case 1:
			s.Kids = append(s.Kids, un(KStar, class(set)), lit("|"))
			if !set['|'] {
				in = append(in, b, '|')
			}
		case 2:
			s.Kids = append(s.Kids, un(KOpt, class(set)), lit("|"))
			if !set['|'] && c.R.IntN(2) == 0 {
				in = append(in, b)
			}
			in = append(in, '|')
		case 3:
			s.Kids = append(s.Kids, alt(seq(class(set), lit("!")), seq(class(set), lit("?")), lit("-")))
			in = append(in, b, "!?"[c.R.IntN(2)])
		}
	}
	ins := [][]byte{in, nil}
	for i := 0; i < 12; i++ {
		if len(in) == 0 {
			break
		}
		x := append([]byte{}, in...)
		x[c.R.IntN(len(x))] = byte(c.R.IntN(256))
		ins = append(ins, x)
		ins = append(ins, in[:c.R.IntN(len(in))])
	}
	// where it goes wrong is observable through the captures and the end
	t := capt(s, 1)
	stages := seq()
	for _, k := range s.Kids {
		stages.Kids = append(stages.Kids, un(KOpt, capt(k, 2)))
	}
	c.Nontrivial(fmt.Sprint(n, form, c.Idx))
	c.Event("programs with many sets", 1)
	if n > 256 {
		c.Event("programs with more than 256 sets", 1)
	}
	c26Watch(c, fmt.Sprintf("%d distinct sets, form %d", n, form), t, n <= 200, ins)
	c26Watch(c, fmt.Sprintf("%d distinct sets, form %d, each optional", n, form), stages, n <= 200, ins)
}

// trie selects one of many leaves by bits.
func trie(n int, bits int, leaf func(i int) *Spec) *Spec {
	var rec func(lo, depth int) *Spec
	rec = func(lo, depth int) *Spec {
		if depth == 0 {
			return leaf(lo)
		}
		if lo+1<<(depth-1) >= n {
			return seq(lit("0"), rec(lo, depth-1))
		}
		return alt(seq(lit("0"), rec(lo, depth-1)), seq(lit("1"), rec(lo+1<<(depth-1), depth-1)))
	}
	return rec(0, bits)
}

func trieInput(i, bits int) []byte {
	var b []byte
	for d := bits - 1; d >= 0; d-- {
		b = append(b, byte('0'+i>>d&1))
	}
	return b
}

// c26Many has many messages, checkers, captures or rules.
func c26Many(c *C) {
	sizes := []int{200, 254, 255, 256, 257, 258, 300, 512, 1000}
	if c.Idx%60 == 59 {
		sizes = []int{4096, 5000}
	}
	n := sizes[c.R.IntN(len(sizes))]
	c26ManyN(c, n, c.R.IntN(5))
}

func c26ManyN(c *C, n, kind int) {
	bits := 1
	for 1<<bits < n {
		bits++
	}
	name := []string{"messages", "messages without recovery", "checkers", "word lists", "rules"}[kind]
	var s *Spec
	switch kind {
	case 0:
		s = trie(n, bits, func(i int) *Spec { return errorSpec(fmt.Sprintf("message %d", i), un(KOpt, lit("r"))) })
	case 1:
		s = trie(n, bits, func(i int) *Spec { return errorSpec(fmt.Sprintf("message %d", i), nil) })
	case 2:
		s = trie(n, bits, func(i int) *Spec {
			x := un(KCheck, un(KOpt, anyN(1)))
			x.Check, x.Id = &CheckSpec{Kind: "scripted", Salt: i}, i%30000
			return x
		})
	case 3:
		s = trie(n, bits, func(i int) *Spec {
			x := un(KCheck, un(KStar, class(setRange('0', '9'))))
			x.Check = &CheckSpec{Kind: "words", Words: []string{fmt.Sprint(i)}}
			return x
		})
	case 4:
		// every rule is called from a place of its own, and uses others
		rules := map[string]*Spec{}
		for i := 0; i < n; i++ {
			rules[fmt.Sprintf("R%d", i)] = alt(seq(lit("("), nonterm(fmt.Sprintf("R%d", (i*7+1)%n)), lit(")")), capt(lit(fmt.Sprint(i)), i%30000))
		}
		rules["S"] = trie(n, bits, func(i int) *Spec { return nonterm(fmt.Sprintf("R%d", i)) })
		s = grammar("S", rules)
	}
	var ins [][]byte
	for k := 0; k < 24; k++ {
		i := c.R.IntN(n)
		if k < 8 {
			i = []int{0, n - 1, 255, 256, 257, n - 2, 128, n / 2}[k] % n
		}
		in := trieInput(i, bits)
		switch kind {
		case 4:
			if c.R.IntN(2) == 0 {
				in = append(in, fmt.Sprint(i)...)
			} else {
				in = append(in, fmt.Sprintf("((%d))", ((i*7+1)%n*7+1)%n)...)
			}
		case 3:
			in = append(in, fmt.Sprint([]int{i, i, i - 256, i + 1}[c.R.IntN(4)])...)
		default:
			in = append(in, "rstu"[:c.R.IntN(4)]...)
		}
		ins = append(ins, in)
	}
	c.Nontrivial(fmt.Sprint(n, kind))
	c.Event("programs with many "+name, 1)
	c26Watch(c, fmt.Sprintf("%d %s", n, name), s, true, ins)
}

// c26Jumps puts a long stretch of code between a jump and its target.
func c26Jumps(c *C) {
	edge := []int{64, 127, 128, 16384, 32768, 65536}[c.R.IntN(6)]
	n := edge - 8 + c.R.IntN(12)
	if c.R.IntN(6) == 0 {
		n = 20000 + c.R.IntN(60000)
	}
	c26JumpsN(c, n, c.R.IntN(13), true)
}

func c26JumpsN(c *C, n, form int, ordinary bool) {
	long := make([]byte, n)
	for i := range long {
		long[i] = byte('a' + c.R.IntN(20))
	}
	l := func() *Spec { return lit(string(long)) }
	join := func(ps ...string) []byte {
		var b []byte
		for _, p := range ps {
			b = append(b, p...)
		}
		return b
	}
	L := string(long)
	small := n < 1<<20
	ins := [][]byte{nil, []byte("A"), []byte("B"), []byte("AB"), []byte("BA"), []byte("x"), []byte("ABC")}
	if small {
		ins = append(ins, join("A", L), join("A", L, "B"), join("A", L[:n-1], "?"), join(L, "C"), join("A", L, "A", L, "x"), join("A", L, "C"), join("AA", L, "BB"))
	}
	var s *Spec
	switch form {
	case 0:
		s = alt(seq(lit("A"), l(), lit("B")), capt(lit("B"), 1), lit("A"))
	case 1:
		s = seq(un(KStar, alt(seq(lit("A"), l()), lit("x"))), un(KOpt, capt(lit("C"), 2)))
	case 2:
		s = seq(un(KOpt, seq(lit("A"), l())), capt(un(KStar, anyN(1)), 1))
	case 3:
		s = seq(un(KNot, seq(anyN(1), l())), capt(anyN(1), 1))
	case 4:
		s = seq(un(KAnd, alt(seq(lit("A"), l()), lit("B"))), capt(anyN(1), 1))
	case 5:
		// calls over a distance, forwards and back
		s = grammar("S", map[string]*Spec{
			"S": alt(seq(lit("A"), nonterm("S"), lit("B")), nonterm("L"), nonterm("Z"), lit("A")),
			"L": seq(alt(lit("x"), l()), un(KOpt, nonterm("Z"))),
			"Z": capt(seq(alt(lit("C"), lit("B")), un(KOpt, nonterm("S"))), 4),
		})
	case 6:
		s = alt(seq(class(setOf('A', 'B', 'Q')), l()), seq(class(setRange('A', 'C')), capt(un(KOpt, lit("B")), 1)))
	case 7:
		s = alt(seq(anyN(1), l()), capt(anyN(1), 1))
	case 8:
		s = seq(un(KSearch, alt(seq(lit("A"), l(), lit("C")), lit("B"))), capt(un(KStar, anyN(1)), 1))
	case 9:
		s = alt(seq(un(KOpt, lit("A")), un(KMemo, l()), lit("B")), un(KMemo, capt(lit("A"), 1)), lit("x"))
	case 10:
		s = un(KStar, un(KMemo, alt(seq(lit("A"), l()), capt(alt(lit("B"), lit("x")), 2))))
	case 11:
		// disjoint heads
		s = seq(alt(seq(lit("A"), l()), seq(lit("B"), un(KStar, lit("A"))), lit("x")), capt(un(KStar, anyN(1)), 2))
	case 12:
		s = seq(un(KPlus, alt(seq(lit("A"), l()), capt(lit("B"), 2))), alt(lit("x"), empty()))
	}
	c.Nontrivial(fmt.Sprint(n, form))
	c.Event("jumps over long stretches", 1)
	if n > 1<<15 {
		c.Event("jumps over more than 64 KB", 1)
	}
	c26Watch(c, fmt.Sprintf("%d bytes of literal between a jump and its target, form %d", n, form), s, ordinary, ins)
}

// c26Huge has programs of about 16 MB, where jump targets end.
func c26Huge(c *C) {
	n := 8388608 - 30 + c.R.IntN(40)
	if c.Idx%2 == 0 {
		n = 8388608 + 1000 + c.R.IntN(100000)
	}
	form := []int{0, 2, 5, 6, 11, 7, 9, 1, 3, 4}[c.Idx/2%10]
	c26JumpsN(c, n, form, false)
	c.Event("programs of 16 MB", 1)
}

// c26Repeat repeats a pattern a given number of times.
func c26Repeat(c *C) {
	n := []int{-5, 0, 1, 2, 127, 128, 254, 255, 256, 257, 300, 511, 512, 513, 1000, 2000}[c.R.IntN(16)]
	if c.Idx%50 == 49 {
		n = 4090 + c.R.IntN(10)
	}
	var unit *Spec
	var text string
	switch c.R.IntN(5) {
	case 0:
		unit, text = lit("a"), "a"
	case 1:
		unit, text = alt(lit("ab"), lit("b")), "ab"
	case 2:
		unit, text = anyN(3), "xyz"
	case 3:
		unit, text = capt(class(setRange('a', 'c')), 1), "b"
	case 4:
		unit, text = seq(un(KStar, lit("c")), lit("d")), "ccd"
	}
	s := seq(repeat(unit, n), capt(un(KStar, anyN(1)), 7))
	m := max(n, 0)
	var ins [][]byte
	for _, k := range []int{0, m - 1, m, m + 1, m - 256, m % 256, 2 * m} {
		if k >= 0 {
			ins = append(ins, bytes.Repeat([]byte(text), k))
			ins = append(ins, append(bytes.Repeat([]byte(text), k), "ab"[c.R.IntN(2)]))
		}
	}
	c.Nontrivial(s.String())
	c.Event("repetition counts", 1)
	c26Watch(c, fmt.Sprintf("%d repetitions of %s", n, unit), s, true, ins)
}

// c26Direct encodes instructions with operands of any size, as programs put
// together by other means may have them.
func c26Direct(c *C) {
	L1, L2 := isa.NewLabel(), isa.NewLabel()
	v := wide(c)
	type run struct {
		in   string
		want Outcome
	}
	var prog isa.Program
	var runs []run
	what := ""
	switch c.R.IntN(4) {
	case 0:
		what = fmt.Sprintf("CaptureBegin %d", v)
		prog = isa.Program{isa.CaptureBegin{Id: v}, isa.Span{Chars: charset.New([]byte("a"))}, isa.CaptureEnd{}}
		runs = []run{{"aab", Outcome{Match: true, End: 2, Caps: []*Cap{{v, 0, 2, nil}}}}}
	case 1:
		back := byte(c.R.IntN(256))
		what = fmt.Sprintf("CaptureFull %d, %d back", v, back)
		for i := 0; i < int(back); i++ {
			prog = append(prog, isa.Char{Byte: 'a'})
		}
		prog = append(prog, isa.CaptureFull{Back: back, Id: v})
		runs = []run{{string(bytes.Repeat([]byte("a"), int(back)+1)), Outcome{Match: true, End: int(back), Caps: []*Cap{{v, 0, int(back), nil}}}}}
	case 2:
		back := byte(c.R.IntN(256))
		what = fmt.Sprintf("CaptureLate %d, %d back", v, back)
		for i := 0; i < int(back); i++ {
			prog = append(prog, isa.Char{Byte: 'a'})
		}
		prog = append(prog, isa.CaptureLate{Back: back, Id: v}, isa.Any{N: 1}, isa.CaptureEnd{})
		runs = []run{{string(bytes.Repeat([]byte("a"), int(back)+2)), Outcome{Match: true, End: int(back) + 1, Caps: []*Cap{{v, 0, int(back) + 1, nil}}}}}
	case 3:
		n := 1 + c.R.IntN(255)
		what = fmt.Sprintf("TestAny %d and CaptureBegin %d", n, v)
		prog = isa.Program{isa.TestAny{N: byte(n), Lbl: L1}, isa.Commit{Lbl: L2}, L1, isa.CaptureBegin{Id: v}, isa.CaptureEnd{}, L2}
		runs = []run{
			{string(bytes.Repeat([]byte("a"), n)), Outcome{Match: true, End: n}},
			{string(bytes.Repeat([]byte("a"), n-1)), Outcome{Match: true, End: 0, Caps: []*Cap{{v, 0, 0, nil}}}},
		}
	}
	c.Note("%s", what)
	c.Nontrivial(what)
	code, refused := func() (code *vm.Code, refused string) {
		defer func() {
			if r := recover(); r != nil {
				code, refused = nil, fmt.Sprint("panic: ", r)
			}
		}()
		e := vm.Encode(prog)
		return &e, ""
	}()
	c.Eval()
	if refused != "" {
		if i16(v) {
			c.Fail("%s: refused although within limits: %s", what, refused)
		}
		c.Event("refused", 1)
		return
	}
	c.Event("instructions encoded directly", 1)
	for _, r := range runs {
		got := execCode(code, bytes.NewReader([]byte(r.in)), memo.NoneTable{}, defaultBudget)
		c.Eval()
		if d := diffMemo(&r.want, &got); d != "" {
			c.Fail("%s: %s differs: %s, expected %s", what, d, got.String(), r.want.String())
		}
	}
}

// c26Large joins many random patterns into one large program.
func c26Large(c *C) {
	w := genWeights(c)
	w[KCap], w[KError], w[KCheck], w[KNonTerm] = 3, 1, 1, 4
	w[KSearch] = 0
	g := newGen(c.R, w)
	n := 150 + c.R.IntN(300)
	bits := 1
	for 1<<bits < n {
		bits++
	}
	rules := map[string]*Spec{}
	leaves := make([]*Spec, n)
	g.Names = []string{"A", "B"}
	rules["A"], rules["B"] = lit("a"), alt(seq(lit("b"), nonterm("B")), lit("a"))
	for i := range leaves {
		for try := 0; ; try++ {
			g.budget, g.depth = 5+c.R.IntN(15), 0
			x := g.node()
			if wellFormed(grammar("X", map[string]*Spec{"X": x, "A": rules["A"], "B": rules["B"]})) {
				// the same few sets, so that there are not too many
				leaves[i] = x
				break
			}
			if try > 100 {
				leaves[i] = lit("a")
				break
			}
		}
	}
	sets := map[ByteSet]bool{}
	for i, l := range leaves {
		bad := false
		l.walk(func(x *Spec) {
			if x.K == KClass {
				if len(sets) > 120 && !sets[*x.Set] {
					bad = true
				}
				sets[*x.Set] = true
			}
		})
		if bad {
			leaves[i] = seq(lit(g.str()), capt(lit(g.str()), i))
		}
	}
	rules["S"] = trie(n, bits, func(i int) *Spec { return leaves[i] })
	// far away from where it is used
	s := grammar("S", rules)
	if !wellFormed(s) {
		return
	}
	var ins [][]byte
	for k := 0; k < 60; k++ {
		i := c.R.IntN(n)
		f := 40
		in := g.sample(leaves[i], &env{s, nil}, trieInput(i, bits), &f)
		if c.R.IntN(3) == 0 {
			in = append(in[:bits:bits], g.mutate(in[bits:])...)
		}
		ins = append(ins, in)
	}
	c.Nontrivial(fmt.Sprint("large", c.Idx))
	c.Event("large random programs", 1)
	c26Watch(c, fmt.Sprintf("%d random patterns in one", n), s, false, ins)
}

func init() {
	register(&Prop{
		ID:   "C26",
		Rule: "an execution is one compilation of a program with operands at, around or beyond a limit, or one run of it compared with the interpreter; distinct non-trivial ones differ in pattern or operands",
		Assume: []string{
			"the reference interpreter states PEG semantics correctly",
			"an error or a panic when compiling or encoding is a refusal; ids within 16 bits, up to 200 distinct sets, 5000 messages, checkers or rules and programs of 200 KB may not be refused",
		},
		Families: []Family{
			{Name: "ids", Quick: 30000, Thorough: 900000, Batch: 1000, Run: c26Ids},
			{Name: "direct", Quick: 30000, Thorough: 900000, Batch: 1000, Run: c26Direct},
			{Name: "memo ids", Quick: 24, Thorough: 24, Batch: 1, Run: c26Memo},
			{Name: "long captures", Quick: 2200, Thorough: 66000, Batch: 100, Run: c26Back},
			{Name: "any", Quick: 380, Thorough: 11000, Batch: 16, Run: c26Any},
			{Name: "sets", Quick: 600, Thorough: 18000, Batch: 10, Run: c26Sets},
			{Name: "many", Quick: 450, Thorough: 13000, Batch: 5, Run: c26Many, CPU: 120},
			{Name: "jumps", Quick: 900, Thorough: 27000, Batch: 10, Run: c26Jumps, CPU: 60},
			{Name: "huge", Quick: 9, Thorough: 270, Batch: 1, Run: c26Huge, CPU: 200},
			{Name: "repeat", Quick: 300, Thorough: 9000, Batch: 10, Run: c26Repeat, CPU: 60},
			{Name: "large", Quick: 600, Thorough: 18000, Batch: 4, Run: c26Large, CPU: 60},
		},
		Need: []string{"refused", "accepted within limits", "matches", "mismatches", "long captures", "programs with more than 256 sets", "jumps over more than 64 KB", "programs of 16 MB", "repetition counts", "large random programs", "instructions encoded directly"},
	})
}
