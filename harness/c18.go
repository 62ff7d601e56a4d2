package main

import (
	"bytes"
	"fmt"
	"math/rand/v2"
	"regexp"
	"regexp/syntax"
	"strings"

	"github.com/zyedidia/gpeg/memo"
	"github.com/zyedidia/gpeg/rxconv"
	"github.com/zyedidia/gpeg/vm"
)

// rx generates regular expressions together with texts they may match.
type rxGen struct {
	r     *rand.Rand
	alpha string
	forks int // alternations and options left: conversion doubles the rest at each
	loops int
	size  int
	count bool // counted repetitions too
	uni   bool // letters and classes beyond ASCII
	odd   bool // many things that the converter need not accept
}

type rxNode struct {
	text string
	prec int // 0 alternation, 1 concatenation, 2 repetition, 3 atom
	eat  bool
	gen  func() string
}

func (g *rxGen) letter() string { return g.pick(g.alpha) }

// pick returns one of the letters of s.
func (g *rxGen) pick(s string) string {
	rs := []rune(s)
	return string(rs[g.r.IntN(len(rs))])
}

var rxClasses = []struct{ text, sample string }{
	{`\d`, "019"}, {`\D`, "ab_ "}, {`\w`, "aA_1"}, {`\W`, " .\n-"}, {`\s`, " \n\t"}, {`\S`, "a1."},
	{`[[:alpha:]]`, "aZ"}, {`[[:^digit:]]`, "a. "}, {`[[:upper:]]`, "ABZ"}, {`[[:punct:]]`, ".,!"},
	{`[a-c]`, "abc"}, {`[^a]`, "bA1\n"}, {`[^a-z\n]`, "A1 "}, {`[ab\d]`, "ab0"}, {`[\w-]`, "a-_"}, {`[.]`, "."},
	{`[A-Ca]`, "ABa"}, {`[^\w]`, " .-"}, {`[]a]`, "]a"}, {`[a\]]`, "]a"}, {`[\x00-\x7f]`, "a\x00\x7f"}, {`[k-s]`, "ksKS"}, {`[^b-y]`, "azAk"},
	{`[a-cA-C]`, "aAcC"}, {`[!-/]`, "!/."},
}

var rxUniClasses = []struct{ text, sample string }{
	{`[é]`, "éè"}, {`[à-ü]`, "àéüÿ"}, {`[^é]`, "éaèβ\n"}, {`[^a]`, "aéβ中"}, {`[aé]`, "aéb"}, {`[a-é]`, "az~é\u007f\u0080ê"},
	{`[α-ω]`, "αβωΩ"}, {`[^α-ω]`, "αaé中😀"}, {`\p{Greek}`, "αΩaé"}, {`[一-龥]`, "中文一龥a"}, {`[\x{1F600}-\x{1F64F}]`, "😀🙏😐a"},
	{`[^\x00-\x7f]`, "aé中😀"}, {`[ÿ-Ā]`, "ÿĀāþ"}, {`[\x{7ff}-\x{800}]`, "\u07ff\u0800\u0801"}, {`[\x{d000}-\x{e000}]`, "\ud7ff\ue000\ue001"},
	{`[\x{ffff}-\x{10000}]`, "\uffff\U00010000\U00010001"}, {`[^😀]`, "😀😁a"}, {`(?i:[é-ë])`, "éÉêËè"}, {`(?i:[j-l])`, "kK\u212aLm"},
	{`[[:^alpha:]]`, "aé1"}, {`[\x{80}-\x{ff}]`, "\u0080ÿa"}, {`[\x80-\xbf]`, "\u0080»é"}, {`[é-😀]`, "é中😀è"}, {`[^\d]`, "1é"},
	{`[\x{100}-\x{10ffff}]`, "Ā中😀\U0010ffffÿ"},
}

func (g *rxGen) atom() rxNode {
	k := g.r.IntN(14)
	if g.uni && k == 0 {
		// the converter takes the dot for a byte
		k = 1
	}
	if g.odd && g.r.IntN(10) == 0 {
		return rxNode{[]string{`[^\x00-\x{10FFFF}]`, `[^\s\S]`, `[^\d\D]`, `[^\w\W]`}[g.r.IntN(4)], 3, true, func() string { return g.letter() }}
	}
	switch k {
	case 0:
		return rxNode{`.`, 3, true, func() string { return string("ab1\n "[g.r.IntN(5)]) }}
	case 1, 2:
		c := rxClasses[g.r.IntN(len(rxClasses))]
		if g.uni && g.r.IntN(3) != 0 {
			c = rxUniClasses[g.r.IntN(len(rxUniClasses))]
		}
		return rxNode{c.text, 3, true, func() string { return g.pick(c.sample) }}
	case 3:
		return rxNode{[]string{`\.`, `\*`, `\x61`, `\141`, `\n`, `\t`, `\Q.a\E`, `\-`}[g.r.IntN(8)], 3, true, func() string { return string(".*aa\n\t-"[g.r.IntN(7)]) }}
	case 4:
		a := []string{`^`, `$`, `\A`, `\z`, `\b`, `\B`, `^`, `$`}[g.r.IntN(8)]
		if g.uni && a == `\B` {
			// it holds within the encoding of a letter
			a = `\b`
		}
		return rxNode{a, 3, false, func() string { return []string{"", "\n", " "}[g.r.IntN(3)] }}
	case 5:
		return rxNode{[]string{`(?:)`, `()`, `(?i:)`}[g.r.IntN(3)], 3, false, func() string { return "" }}
	}
	l := g.letter()
	return rxNode{regexp.QuoteMeta(l), 3, true, func() string {
		if g.r.IntN(5) == 0 {
			return strings.ToUpper(l)
		}
		return l
	}}
}

func (g *rxGen) group(n rxNode) string {
	switch g.r.IntN(8) {
	case 0:
		return "(" + n.text + ")"
	case 1:
		return fmt.Sprintf("(?P<n%d>%s)", g.r.IntN(1000000), n.text)
	case 2:
		return "(?" + []string{"i", "s", "m", "U", "im", "i-s", "-i", "sm", "-U"}[g.r.IntN(9)] + ":" + n.text + ")"
	case 3:
		return "((?:" + n.text + "))"
	}
	return "(?:" + n.text + ")"
}

func (g *rxGen) at(n rxNode, prec int) string {
	if n.prec < prec || g.r.IntN(12) == 0 {
		return g.group(n)
	}
	return n.text
}

func (g *rxGen) node(depth int) rxNode {
	g.size--
	if depth == 0 || g.size <= 0 {
		return g.atom()
	}
	switch k := g.r.IntN(12); {
	case k < 4:
		n := 2 + g.r.IntN(3)
		var subs []rxNode
		t := ""
		eat := false
		for i := 0; i < n; i++ {
			s := g.node(depth - 1)
			subs = append(subs, s)
			eat = eat || s.eat
			if g.r.IntN(20) == 0 {
				t += "(?" + []string{"i", "s", "m", "U", "-i"}[g.r.IntN(5)] + ")"
			}
			t += g.at(s, 2)
		}
		return rxNode{t, 1, eat, func() string {
			o := ""
			for _, s := range subs {
				o += s.gen()
			}
			return o
		}}
	case k < 6 && g.forks > 0:
		n := 2 + g.r.IntN(2)
		g.forks -= n - 1
		var subs []rxNode
		var ts []string
		eat := true
		for i := 0; i < n; i++ {
			s := g.node(depth - 1)
			if g.r.IntN(15) == 0 {
				s = rxNode{"", 1, false, func() string { return "" }}
			}
			subs = append(subs, s)
			eat = eat && s.eat
			ts = append(ts, g.at(s, 1))
		}
		return rxNode{strings.Join(ts, "|"), 0, eat, func() string { return subs[g.r.IntN(len(subs))].gen() }}
	case k < 9 && g.loops > 0:
		g.loops--
		s := g.node(depth - 1)
		if !s.eat && g.r.IntN(8) != 0 {
			a := g.atom()
			for !a.eat {
				a = g.atom()
			}
			s0 := s
			s = rxNode{g.at(a, 2) + g.at(s0, 2), 1, true, func() string { return a.gen() + s0.gen() }}
		}
		op := []string{"*", "+", "*?", "+?"}[g.r.IntN(4)]
		if g.count && g.r.IntN(4) == 0 {
			op = []string{"{2}", "{1,2}", "{0,3}?", "{2,}"}[g.r.IntN(4)]
		}
		if g.odd && g.r.IntN(2) == 0 {
			op = rxCounts[g.r.IntN(len(rxCounts))]
		}
		return rxNode{g.at(s, 3) + op, 2, s.eat && op[0] == '+', func() string {
			o := ""
			n := g.r.IntN(4)
			if op[0] == '+' {
				n++
			}
			for i := 0; i < n; i++ {
				o += s.gen()
			}
			return o
		}}
	case k < 10 && g.forks > 0:
		g.forks--
		s := g.node(depth - 1)
		return rxNode{g.at(s, 3) + []string{"?", "??"}[g.r.IntN(2)], 2, false, func() string {
			if g.r.IntN(2) == 0 {
				return ""
			}
			return s.gen()
		}}
	}
	return g.atom()
}

func asciiOnly(s string) string {
	b := []byte(s)
	for i := range b {
		b[i] &= 0x7f
	}
	return string(b)
}

// rxFlags are flags given to the converter and the equivalent for regexp.
func rxFlags(r *rand.Rand) (syntax.Flags, string) {
	flags, pre := syntax.Perl, ""
	if r.IntN(3) != 0 {
		return flags, ""
	}
	if r.IntN(2) == 0 {
		flags |= syntax.FoldCase
		pre += "i"
	}
	if r.IntN(3) == 0 {
		flags |= syntax.DotNL
		pre += "s"
	}
	if r.IntN(3) == 0 {
		flags &^= syntax.OneLine
		pre += "m"
	}
	if r.IntN(3) == 0 {
		flags |= syntax.NonGreedy
		pre += "U"
	}
	if pre != "" {
		pre = "(?" + pre + ")"
	}
	return flags, pre
}

// bytewise tells whether the expression has parts that the converter takes for
// bytes rather than letters: the dot (and what is simplified to it) and \B.
func bytewise(e *syntax.Regexp) bool {
	switch e.Op {
	case syntax.OpAnyChar, syntax.OpAnyCharNotNL, syntax.OpNoWordBoundary:
		return true
	}
	for _, s := range e.Sub {
		if bytewise(s) {
			return true
		}
	}
	return false
}

func c18Judge(c *C, rx string, flags syntax.Flags, pre string, texts []string) {
	c.ClearNotes()
	c.Note("regexp %q, flags %v", rx, flags)
	if e, err := syntax.Parse(rx, flags); err == nil && bytewise(e) {
		var ascii []string
		for _, t := range texts {
			if asciiOnly(t) == t {
				ascii = append(ascii, t)
			}
		}
		texts = ascii
	}
	gre, gerr := regexp.Compile(pre + rx)
	pat, err := rxconv.FromRegexp(rx, flags)
	if err != nil {
		c.Event("expressions refused", 1)
		c.Eval()
		return
	}
	if gerr != nil {
		if _, perr := syntax.Parse(rx, flags); perr == nil {
			// only the limits of package regexp
			c.Event("not compiled by package regexp", 1)
			return
		}
		c.Fail("%q is accepted, but package regexp says %v", rx, gerr)
	}
	code, err := compileSpec(pat)
	if err != nil {
		c.Fail("the conversion of %q does not compile: %v", rx, err)
	}
	c.Event("expressions accepted", 1)
	if flags != syntax.Perl {
		c.Event("expressions with flags", 1)
	}
	c.Nontrivial(rx, pre)
	c.Max("program bytes", code.Size())
	c.Sample("%s%s", pre, rx)
	for _, t := range texts {
		c.ClearNotes()
		c.Note("regexp %q, flags %q, text %q", rx, pre, t)
		want := gre.FindStringIndex(t)
		var o Outcome
		var nested bool
		p := try(func() {
			vmSteps, vmBudget = 0, 30_000_000
			defer func() { vmBudget = 1 << 62 }()
			m, end, root, errs := code.Exec(bytes.NewReader([]byte(t)), memo.NoneTable{})
			o = convert(m, end, root, errs)
			_ = nested
		})
		if p != nil {
			if _, ok := p.(tooManySteps); ok && rxBlowup(rx, t) {
				c.Event("skipped: exponential backtracking", 1)
				continue
			}
			c.Fail("matching %q with the conversion of %q: %v", t, pre+rx, p)
		}
		c.Max("steps", int(vmSteps))
		c.Eval()
		desc := "no match"
		if want != nil {
			desc = fmt.Sprintf("match [%d,%d)", want[0], want[1])
			c.Event("matches", 1)
			if asciiOnly(t[want[0]:want[1]]) != t[want[0]:want[1]] {
				c.Event("matches of letters beyond ASCII", 1)
			}
			if want[0] > 0 {
				c.Event("matches not at the start", 1)
			}
			if want[1] > want[0] {
				c.Event("non-empty matches", 1)
			}
		} else {
			c.Event("mismatches", 1)
		}
		bad := ""
		switch {
		case o.Match != (want != nil):
			bad = "match result"
		case want == nil:
		case o.End != want[1]:
			bad = "end of the match"
		case len(o.Caps) != 1:
			bad = "number of captures"
		case o.Caps[0].Start != want[0] || o.Caps[0].Start+o.Caps[0].Len != want[1]:
			bad = "captured text"
		}
		if bad != "" {
			c.Fail("%s: %q on %q: regexp gives %s, the conversion %s", bad, pre+rx, t, desc, clip(o.String(), 500))
		}
	}
}

// rxBlowup tells whether backtracking may take exponential time: only then is
// running out of steps no sign of an endless loop.
// A search for one repetition may take quadratic time.
func rxBlowup(rx, text string) bool {
	n := strings.Count(rx, "*") + strings.Count(rx, "+") + strings.Count(rx, ",}")
	return n >= 2 || n == 1 && len(text) > 2000
}

func c18Case(c *C) {
	r := c.R
	g := &rxGen{r: r, alpha: []string{"ab", "abc", "aB", "ab1", "kKs", "a.", "ab_ "}[r.IntN(7)], forks: 5, loops: 3, size: 4 + r.IntN(10), count: r.IntN(10) == 0}
	n := g.node(2 + r.IntN(3))
	flags, pre := rxFlags(r)
	texts := []string{"", "a"}
	for i := 0; i < 10; i++ {
		t := n.gen()
		for k := r.IntN(3); k > 0; k-- {
			t = string((&Gen{R: r, Alpha: []byte(g.alpha)}).mutate([]byte(t)))
		}
		switch r.IntN(4) {
		case 0:
			t = g.letter() + t
		case 1:
			t = "\n" + t + "\n"
		case 2:
			t += n.gen()
		}
		if len(t) > 16 {
			t = t[:16]
		}
		texts = append(texts, asciiOnly(t))
	}
	c18Judge(c, n.text, flags, pre, texts)
}

// c18Unicode takes expressions and texts with letters beyond ASCII.
func c18Unicode(c *C) {
	r := c.R
	g := &rxGen{r: r, alpha: []string{"aé", "éèa", "αβγ", "中文字", "😀😁a", "kKſs\u212a", "éÉ", "ÿĀ\u07ff\u0800", "a\u0080\u00bf", "aé中😀"}[r.IntN(10)], forks: 4, loops: 3, size: 3 + r.IntN(8), uni: true}
	n := g.node(2 + r.IntN(3))
	flags, pre := rxFlags(r)
	texts := []string{"", "é", g.alpha}
	for i := 0; i < 10; i++ {
		rs := []rune(n.gen())
		for k := r.IntN(3); k > 0; k-- {
			p := r.IntN(len(rs) + 1)
			switch r.IntN(3) {
			case 0:
				rs = append(rs[:p:p], append([]rune(g.letter()), rs[p:]...)...)
			case 1:
				if p < len(rs) {
					rs = append(rs[:p:p], rs[p+1:]...)
				}
			default:
				if p < len(rs) {
					rs[p] = []rune(g.letter())[0]
				}
			}
		}
		switch r.IntN(4) {
		case 0:
			rs = append([]rune(g.letter()), rs...)
		case 1:
			rs = []rune("\n" + string(rs) + "\n")
		case 2:
			rs = append(rs, []rune(n.gen())...)
		}
		if len(rs) > 12 {
			rs = rs[:12]
		}
		texts = append(texts, string(rs))
	}
	c18Judge(c, n.text, flags, pre, texts)
}

// c18Runes decides ranges of letters at their ends.
func c18Runes(c *C) {
	r := c.R
	ends := []rune{0, 'a', 0x7f, 0x80, 0xbf, 0xc0, 0xe9, 0xff, 0x100, 0x7ff, 0x800, 0xfff, 0x1000, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x3ffff, 0x40000, 0xfffff, 0x100000, 0x10ffff}
	end := func() rune {
		for {
			e := ends[r.IntN(len(ends))] + rune(r.IntN(5)-2)
			if r.IntN(4) == 0 {
				e = rune(r.IntN(0x110000))
			}
			if e >= 0 && e <= 0x10ffff && (e < 0xd800 || e > 0xdfff) {
				return e
			}
		}
	}
	var class strings.Builder
	neg := ""
	if r.IntN(4) == 0 {
		neg = "^"
	}
	var texts []string
	near := func(e rune) {
		for d := rune(-1); d <= 1; d++ {
			if x := e + d; x >= 0 && x <= 0x10ffff && (x < 0xd800 || x > 0xdfff) {
				texts = append(texts, string(x), "a"+string(x), string(x)+string(x))
			}
		}
	}
	for k := 1 + r.IntN(2); k > 0; k-- {
		lo, hi := end(), end()
		if lo > hi {
			lo, hi = hi, lo
		}
		fmt.Fprintf(&class, `\x{%x}-\x{%x}`, lo, hi)
		near(lo)
		near(hi)
		near(lo + (hi-lo)/2)
	}
	for i := 0; i < 6; i++ {
		near(end())
	}
	rx := "[" + neg + class.String() + "]"
	if r.IntN(3) == 0 {
		rx = "^" + rx + "+$"
	}
	c18Judge(c, rx, syntax.Perl, "", texts)
}

// c18Short takes all texts up to a length for small expressions.
func c18Short(c *C) {
	r := c.R
	g := &rxGen{r: r, alpha: []string{"ab", "aA", "a\n", "a "}[r.IntN(4)], forks: 4, loops: 3, size: 3 + r.IntN(7)}
	n := g.node(3)
	flags, pre := rxFlags(r)
	var texts []string
	for _, b := range shortStrings([]byte(g.alpha), 6) {
		texts = append(texts, string(b))
	}
	c18Judge(c, n.text, flags, pre, texts)
}

var rxCounts = []string{"{0}", "{1}", "{2}", "{3}", "{0,}", "{1,}", "{2,}", "{0,1}", "{1,1}", "{1,2}", "{0,3}", "{2,3}", "{,2}", "{0,}?", "{1,}?", "{0,2}?", "{1,3}?", "{2}?", "{a}", "{2,1000}"}

// c18Odd takes expressions with counted repetitions, repetitions of what may be
// empty and classes without members, most of which are refused.
func c18Odd(c *C) {
	r := c.R
	var g *rxGen
	var n rxNode
	for try := 0; try < 20 && !strings.ContainsAny(n.text, "{["); try++ {
		g = &rxGen{r: r, alpha: []string{"ab", "aA", "a"}[r.IntN(3)], forks: 2, loops: 1 + r.IntN(2), size: 3 + r.IntN(5), odd: true}
		n = g.node(2 + r.IntN(2))
	}
	if r.IntN(4) == 0 {
		n.text = "(" + n.text + ")" + []string{"*", "+", "*?"}[r.IntN(3)]
	}
	flags, pre := rxFlags(r)
	texts := []string{"", "a", "aa", "aaa", "aaaa", "aaaaaaaa", "ab", "ba", "aab", "abab", "baab", "b"}
	for i := 0; i < 4; i++ {
		t := n.gen()
		texts = append(texts, asciiOnly(t[:min(len(t), 16)]))
	}
	c18Judge(c, n.text, flags, pre, texts)
}

// c18Big takes expressions with many alternatives, long literals and large
// counts, and long texts.
func c18Big(c *C) {
	r := c.R
	word := func() string {
		b := make([]byte, 1+r.IntN(6))
		for i := range b {
			b[i] = byte('a' + r.IntN(6))
		}
		return string(b)
	}
	var rx string
	var words []string
	in := []string{}
	switch r.IntN(7) {
	case 0: // alternatives
		n := []int{7, 9, 17, 40, 100, 200, 300}[r.IntN(7)] + r.IntN(4)
		for i := 0; i < n; i++ {
			words = append(words, word())
		}
		alts := strings.Join(words, "|")
		rx = []string{"%s", "(?:%s)+", "x(?:%s)", "(?:%s)*!", "(?:%s)z", "^(?:%s)$"}[r.IntN(6)]
		if strings.Contains(rx, ")+") || strings.Contains(rx, ")*") {
			words = words[:min(len(words), 60)]
			alts = strings.Join(words, "|")
		}
		rx = fmt.Sprintf(rx, alts)
		for k := 0; k < 6; k++ {
			w := words[r.IntN(len(words))]
			in = append(in, w, "x"+w, w+"z", w+words[r.IntN(len(words))]+"!", w[:len(w)-1]+"q", "qq"+w)
		}
	case 1: // a long literal
		w := strings.Repeat(word(), 1+r.IntN(200))
		rx = []string{"%s", "x%s$", "a*%s", "%sx?y", "(?i)%s"}[r.IntN(5)]
		rx = fmt.Sprintf(rx, w)
		in = append(in, w, "x"+w, "aaa"+w+"xy", w+"y", w[1:], w[:len(w)-1], w+w, strings.ToUpper(w))
	case 2: // counts
		n := []int{30, 100, 128, 200, 255, 256, 257, 300, 600, 1000}[r.IntN(10)]
		switch r.IntN(4) {
		case 0:
			rx = fmt.Sprintf("a{%d}", n)
		case 1:
			rx = fmt.Sprintf("^[ab]{%d}b", n)
		case 2:
			rx = fmt.Sprintf("(?:ab){%d,}", n/2)
		case 3:
			n = n%40 + 1
			rx = fmt.Sprintf("xa{%d,%d}b", n/2, n)
		}
		for d := -2; d <= 2; d++ {
			a := strings.Repeat("a", max(0, n+d))
			in = append(in, a, "x"+a+"b", a+"b", strings.Repeat("ab", max(0, n/2+d)), "x"+a[:len(a)/2]+"b")
		}
	case 3: // a long sequence of different atoms
		t := ""
		for n := 20 + r.IntN(400); n > 0; n-- {
			k := rxClasses[r.IntN(len(rxClasses))]
			rx += k.text
			rs := []rune(k.sample)
			t += string(rs[r.IntN(len(rs))])
		}
		in = append(in, t, "a"+t, t[1:], t[:len(t)-1], t+t, t[:len(t)/2]+"\x01"+t[len(t)/2+1:])
	default: // a long text
		n := bigSize(r, 140000)
		fill := strings.Repeat(word()+" ", n/2+1)[:n]
		rx = []string{"[x-z]+!", "x[^y]*y", "^q.*$", `\bx\w*z\b`, "xy$", "(?s)x.*y", `[a-f ]*x`, "xa*b|xb*c", `\Ax`, `y\z`, "(?m)^x$", "(?:x|y)+?!"}[r.IntN(12)]
		end := []string{"xyz!", "xy", "xaaab", "\nx\n", " xz ", "xbbc", "\nqy\n", "y"}[r.IntN(8)]
		in = append(in, fill+end, end+fill, fill, fill+end+fill[:r.IntN(n)], "x"+fill[:n/2]+"y"+fill[n/2:], end+strings.Repeat("\n", n/8)+end)
	}
	c.Max("bytes of the longest expression", len(rx))
	for _, t := range in {
		c.Max("bytes of the longest text", len(t))
	}
	c18Judge(c, rx, syntax.Perl, "", in)
}

// c18Bytes decides single atoms for every ASCII byte.
func c18Bytes(c *C) {
	var atoms []string
	for _, k := range rxClasses {
		atoms = append(atoms, k.text)
	}
	atoms = append(atoms, `.`, `(?s:.)`, `[^\x00-\x40]`, `[^[:space:]]`, `\C`, `[a-zA-Z0-9_]`, `(?i:k)`, `(?i:S)`, `(?i:[j-l])`, `(?i:[^k])`, `[\x7f]`, `[\d\D]`)
	for b := 0; b < 128; b++ {
		atoms = append(atoms, regexp.QuoteMeta(string(rune(b))), fmt.Sprintf(`\x%02x`, b), fmt.Sprintf(`[^\x%02x]`, b), fmt.Sprintf(`(?i:\x%02x)`, b), fmt.Sprintf(`[\x%02x-\x7f]`, b))
	}
	if c.Idx >= len(atoms) {
		return
	}
	rx := atoms[c.Idx]
	var texts []string
	for b := 0; b < 128; b++ {
		texts = append(texts, string(rune(b)))
	}
	c18Judge(c, rx, syntax.Perl, "", texts)
	c18Judge(c, rx, syntax.Perl|syntax.FoldCase, "(?i)", texts)
	c18Judge(c, `\b`+rx+`*\B`, syntax.Perl, "", texts)
	var all strings.Builder
	for b := 0; b < 128; b++ {
		all.WriteByte(byte(b))
	}
	c18Judge(c, rx+"+", syntax.Perl, "", []string{all.String()})
}

var _ = vm.Encode

func init() {
	register(&Prop{
		ID:   "C18",
		Rule: "an execution is the search of one ASCII text with a converted expression, compared with package regexp for match, start and end; distinct non-trivial ones differ in expression or flags",
		Assume: []string{
			"expressions are those of syntax.Perl with any of the flags i, s, m, U; which of them the converter supports is not judged",
			"texts are ASCII for an expression with a dot or \\B, which the converter takes byte by byte; otherwise they are valid UTF-8",
			"a search of an expression with several repetitions that takes more than 30 million instructions is not judged (backtracking is exponential)",
		},
		Families: []Family{
			{Name: "expressions", Quick: 120000, Thorough: 3600000, Batch: 500, CPU: 120, Run: c18Case},
			{Name: "short", Quick: 24000, Thorough: 720000, Batch: 250, CPU: 120, Run: c18Short},
			{Name: "odd", Quick: 30000, Thorough: 900000, Batch: 250, CPU: 120, Run: c18Odd},
			{Name: "unicode", Quick: 24000, Thorough: 720000, Batch: 250, CPU: 120, Run: c18Unicode},
			{Name: "runes", Quick: 6000, Thorough: 180000, Batch: 250, CPU: 120, Run: c18Runes},
			{Name: "big", Quick: 800, Thorough: 24000, Batch: 10, CPU: 120, Run: c18Big},
			{Name: "bytes", Quick: 700, Thorough: 700, Batch: 50, CPU: 120, Run: c18Bytes},
		},
		Need: []string{"expressions accepted", "expressions refused", "expressions with flags", "matches not at the start", "non-empty matches", "mismatches", "matches of letters beyond ASCII"},
	})
}
