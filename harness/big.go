package main

import (
	"bytes"
	"fmt"
	"math/rand/v2"
	"strings"

	"github.com/zyedidia/gpeg/memo"
)

// bigSize picks a size around which code with narrow counters or fixed
// buffers breaks, up to top.
func bigSize(r *rand.Rand, top int) int {
	sizes := []int{120, 250, 1000, 4000, 9000, 16000, 20000, 32700, 33000, 65500, 66000, 131000, 270000}
	n := 0
	for len(sizes) > 1 && sizes[len(sizes)-1] > top {
		sizes = sizes[:len(sizes)-1]
	}
	// large ones more often
	n = sizes[max(r.IntN(len(sizes)), r.IntN(len(sizes)))]
	return n + r.IntN(n/8+1)
}

// bigSpec makes a pattern and a text of about n bytes that it matches.
func bigSpec(r *rand.Rand, n int) (*Spec, []byte) {
	var sb strings.Builder
	word := func() string { return strings.Repeat(string(rune('a'+r.IntN(26))), 1+r.IntN(5)) }
	lower := class(setRange('a', 'z'))
	end := alt(un(KNot, anyN(1)), capt(lit("."), 9))
	if r.IntN(2) == 0 {
		end = un(KOpt, capt(lit("."), 9))
	}
	switch r.IntN(11) {
	case 0: // many captures next to each other
		for sb.Len() < n {
			if r.IntN(4) == 0 {
				sb.WriteString("(" + word() + ")")
			} else {
				sb.WriteString(word() + ";")
			}
		}
		s := un(KStar, capt(alt(seq(un(KPlus, lower), lit(";")), seq(lit("("), capt(un(KPlus, lower), 2), lit(")"))), 1))
		if r.IntN(2) == 0 {
			s = capt(s, 3)
		}
		return seq(s, end), []byte(sb.String())
	case 1: // a capture of every byte
		sb.WriteString(strings.Repeat("ab", n/2))
		s := un(KStar, alt(capt(lit("a"), 1), capt(class(setOf('b', 'c')), 2)))
		if r.IntN(2) == 0 {
			s = seq(capt(s, 3), end)
		}
		return s, []byte(sb.String())
	case 2: // one long repetition
		sb.WriteString(strings.Repeat("a", n))
		var it *Spec
		switch r.IntN(6) {
		case 0:
			it = un(KStar, lower)
		case 1:
			it = un(KPlus, class(setOf('a')))
		case 2:
			it = un(KStar, lit("a"))
		case 3:
			it = un(KStar, seq(un(KNot, lit("!")), anyN(1)))
		case 4:
			it = un(KStar, alt(lit("ab"), lit("a")))
		case 5:
			it = grammar("A", map[string]*Spec{"A": un(KStar, nonterm("B")), "B": alt(seq(lit("a"), lit("b")), lit("a"))})
		}
		if r.IntN(2) == 0 {
			it = capt(it, 1)
		}
		switch r.IntN(3) {
		case 0:
			return seq(it, capt(lit("!"), 2), end), []byte(sb.String() + "!")
		case 1:
			return alt(seq(it, lit("?")), seq(it, lit("!")), capt(anyN(3), 4)), []byte(sb.String() + "!")
		}
		return seq(un(KAnd, seq(it, lit("!"))), it, end), []byte(sb.String() + "!")
	case 3: // a long literal
		n = min(n, 70000)
		for sb.Len() < n {
			sb.WriteString(word())
		}
		t := sb.String()
		l := lit(t)
		switch r.IntN(3) {
		case 0:
			l = alt(lit(t+"?"), lit(t[:len(t)-1]+"!"), capt(l, 2))
		case 1:
			l = un(KStar, capt(l, 1))
			t += t
		}
		return seq(l, end), []byte(t)
	case 4: // comments
		for sb.Len() < n {
			if r.IntN(3) == 0 {
				sb.WriteString("/*" + strings.Repeat("* / ", r.IntN(1+n/4)) + "*/")
			} else {
				sb.WriteString(word())
			}
		}
		com := seq(lit("/*"), un(KStar, seq(un(KNot, lit("*/")), anyN(1))), lit("*/"))
		return seq(un(KStar, alt(capt(com, 1), capt(un(KPlus, lower), 2))), end), []byte(sb.String())
	case 5: // many alternatives
		k := []int{7, 20, 60, 130, 260}[r.IntN(5)] + r.IntN(10)
		alts := alt()
		var words []string
		for i := 0; i < k; i++ {
			w := fmt.Sprintf("%s%x", word(), i)
			words = append(words, w)
			x := lit(w)
			if r.IntN(2) == 0 {
				x = capt(x, i)
			}
			alts.Kids = append(alts.Kids, x)
		}
		n = min(n, 20000)
		for sb.Len() < n {
			sb.WriteString(words[r.IntN(k)] + ",")
		}
		return seq(un(KStar, seq(capt(alts, 1000), lit(","))), end), []byte(sb.String())
	case 6: // searches
		for sb.Len() < n {
			sb.WriteString(strings.Repeat(word(), 1+r.IntN(1+n/4)))
			sb.WriteString("<" + word() + ">")
		}
		x := seq(lit("<"), capt(un(KPlus, lower), 1), lit(">"))
		if r.IntN(2) == 0 {
			x = alt(x, capt(lit("?"), 2))
		}
		return seq(un(KStar, un(KSearch, x)), end), []byte(sb.String())
	case 7: // skips
		k := 1 + r.IntN(255)
		for sb.Len() < n {
			sb.WriteString(strings.Repeat("x", k))
			if r.IntN(2) == 0 {
				sb.WriteString("-")
			}
		}
		x := seq(anyN(k), un(KOpt, capt(lit("-"), 1)))
		if r.IntN(2) == 0 {
			x = capt(x, 2)
		}
		return seq(un(KStar, x), end), []byte(sb.String())
	case 8: // lists in lists
		var gen func(d int)
		gen = func(d int) {
			if d == 0 || r.IntN(3) == 0 {
				sb.WriteString(word())
				return
			}
			sb.WriteByte('[')
			for k := r.IntN(5); k >= 0; k-- {
				gen(d - 1)
				if k > 0 {
					sb.WriteByte(',')
				}
			}
			sb.WriteByte(']')
		}
		sb.WriteString("[")
		for sb.Len() < n {
			gen(5)
			sb.WriteByte(',')
		}
		sb.WriteString("x]")
		return grammar("V", map[string]*Spec{
			"V": alt(capt(seq(lit("["), nonterm("L"), lit("]")), 1), capt(un(KPlus, lower), 2)),
			"L": un(KOpt, seq(nonterm("V"), un(KStar, seq(lit(","), nonterm("V"))))),
		}), []byte(sb.String())
	case 9: // lines
		for sb.Len() < n {
			sb.WriteString(word() + strings.Repeat(" "+word(), r.IntN(8)) + "\n")
		}
		line := capt(seq(un(KStar, class(setOf('\n').complement())), lit("\n")), 1)
		return seq(un(KStar, line), end), []byte(sb.String())
	}
	s, mk := recordSpec(r)
	for sb.Len() < n {
		sb.WriteString(mk(r))
	}
	return s, []byte(sb.String())
}

// bigInputs are the text itself and texts that differ from it far inside.
func bigInputs(r *rand.Rand, in []byte) [][]byte {
	ins := [][]byte{in, in[:len(in)-1]}
	bad := append([]byte{}, in...)
	bad[len(bad)-1-r.IntN(min(len(bad), 1+len(bad)/3))] = "?a.\n"[r.IntN(4)]
	return append(ins, bad, append(in[:len(in):len(in)], '.'))
}

// bigCase runs patterns on long texts.
func bigCase(c *C, top int, d decider) (*Spec, [][]byte) {
	s, in := bigSpec(c.R, bigSize(c.R, top))
	nontrivialSpec(c, s, fmt.Sprint(len(in)))
	c.Sample("%s on %d bytes", clip(s.String(), 400), len(in))
	b := &Builder{R: c.R}
	code := mustCompile(c, s, b)
	ins := bigInputs(c.R, in)
	against(c, s, code, b, ins, 12000000, d)
	c.Max("bytes of the longest text", len(in))
	return s, ins
}

// partsCase runs large programs.
func partsCase(c *C, d decider) {
	s, ins := bigProgram(c.R, "")
	nontrivialSpec(c, s, "")
	c.Sample("%s", clip(s.String(), 400))
	b := &Builder{R: c.R}
	code := mustCompile(c, s, b)
	against(c, s, code, b, ins, 12000000, d)
}

// bigDoc is a long document for incremental parsing.
func bigDoc(c *C, top int) *doc {
	s, in := bigSpec(c.R, bigSize(c.R, top))
	s = memoized(c.R, s, 2+c.R.IntN(6))
	if !s.has(KMemo) {
		s = un(KMemo, s)
	}
	nontrivialSpec(c, s, fmt.Sprint(len(in)))
	c.Sample("%s on %d bytes", clip(s.String(), 400), len(in))
	d := &doc{name: clip(s.String(), 3000), spec: nil, code: mustCompile(c, s, &Builder{R: c.R}), text: in}
	for i := 0; i < 6; i++ {
		a := c.R.IntN(len(in))
		n := 1 + c.R.IntN(20)
		if i < 3 {
			n = 1 + c.R.IntN(len(in))
		}
		d.frags = append(d.frags, in[a:min(len(in), a+n)])
	}
	d.frags = append(d.frags, []byte("!"), []byte("ab"), []byte(";"), []byte("/*"), []byte("]"))
	c.Max("bytes of the longest text", len(in))
	return d
}

// c04Big parses long texts with and without memoization.
func c04Big(c *C) {
	s, in := bigSpec(c.R, bigSize(c.R, 150000))
	marked := memoized(c.R, s, 2+c.R.IntN(6))
	if !marked.has(KMemo) {
		marked = un(KMemo, marked)
	}
	nontrivialSpec(c, marked, fmt.Sprint(len(in)))
	c.Sample("%s on %d bytes", clip(marked.String(), 400), len(in))
	plain := mustCompile(c, s, &Builder{R: c.R, NoMemo: true})
	code := mustCompile(c, marked, &Builder{R: c.R})
	for _, in := range bigInputs(c.R, in) {
		_, steps, ok := interpret(s, in, 8000000)
		if !ok {
			c.Event("skipped: model out of steps", 1)
			continue
		}
		ref := execCode(plain, bytes.NewReader(in), memo.NoneTable{}, budgetFor(steps))
		th := incThreshold(c)
		tbl := &watchTable{Table: memo.NewTreeTable(th)}
		for round := 0; round < 2; round++ {
			tbl.reset()
			o := execCode(code, bytes.NewReader(in), tbl, budgetFor(steps))
			c.Eval()
			c.Event("table hits", tbl.hits)
			if d := diffMemo(&ref, &o); d != "" {
				c.Fail("%s differs from the parse without memoization (parse %d, threshold %d)\npattern: %s\ninput: %s", d, round+1, th, clip(marked.String(), 3000), quote(in))
			}
		}
	}
	c.Max("bytes of the longest text", len(in))
}

// bigProgram makes a grammar of many parts, all different, and texts it
// matches, at least in part. The kinds of parts named in without are left out.
func bigProgram(r *rand.Rand, without string) (*Spec, [][]byte) {
	return bigProgramOf(r, without, []int{45, 70, 110, 150, 210, 270, 520, 1100, 2600}[r.IntN(9)])
}

func bigProgramOf(r *rand.Rand, without string, n int) (*Spec, [][]byte) {
	kinds := []string{"sets", "errors", "checks", "literals", "alternatives", "nesting", "rules", "searches", "others"}
	sets, most := 0, 20+r.IntN(180)
	word := func() string {
		b := make([]byte, 1+r.IntN(6))
		for i := range b {
			b[i] = byte('a' + r.IntN(26))
		}
		return string(b)
	}
	var parts []*Spec
	var samples []func() string
	weights := []int{r.IntN(3), r.IntN(3), r.IntN(3), r.IntN(3), r.IntN(3), r.IntN(2), r.IntN(3), r.IntN(2), 1}
	sum := 0
	for _, w := range weights {
		sum += w
	}
	for i := 0; i < n; i++ {
		tag := fmt.Sprintf("%x%c", i, "ghijklmnop"[r.IntN(10)])
		k := r.IntN(sum)
		kind := 0
		for k >= weights[kind] {
			k -= weights[kind]
			kind++
		}
		if kind == 0 && sets > most || strings.Contains(without, kinds[kind]) {
			kind = 8
		}
		var p *Spec
		var mk func() string
		switch kind {
		case 0: // a set of its own
			sets++
			var s ByteSet
			for s.size() < 2 {
				for j := 'a'; j <= 'z'; j++ {
					s[j] = r.IntN(2) == 0
				}
			}
			p = capt(un(KPlus, class(&s)), i)
			mk = func() string { return string(s.list()[r.IntN(s.size())]) }
		case 1: // a message of its own
			w := word()
			p = alt(lit(w), errorSpec(fmt.Sprintf("message %d %s", i, w), un(KStar, class(setRange('a', 'f')))))
			mk = func() string {
				if r.IntN(3) == 0 {
					return "fade"
				}
				return w
			}
		case 2: // a list of words of its own
			ws := []string{word(), word(), word()}
			p = capt(&Spec{K: KCheck, Kids: []*Spec{un(KPlus, class(setRange('a', 'z')))}, Check: &CheckSpec{Kind: "words", Words: ws}, Id: i, Flag: r.IntN(3)}, i)
			mk = func() string { return ws[r.IntN(3)] }
		case 3: // a literal
			w := strings.Repeat(word(), 1+r.IntN([]int{3, 30, 200}[r.IntN(3)]))
			p = lit(w)
			if r.IntN(2) == 0 {
				p = alt(lit(w[:len(w)-1]+"!"), p)
			}
			mk = func() string { return w }
		case 4: // alternatives
			ws := []string{word() + "1", word() + "2", word() + "3", word() + "4", word() + "5", word() + "6", word() + "7", word() + "8"}
			p = alt()
			for j, w := range ws {
				p.Kids = append(p.Kids, capt(lit(w), i+j))
			}
			mk = func() string { return ws[r.IntN(8)] }
		case 5: // nesting
			w := word()
			p = lit(w)
			for d := 1 + r.IntN(12); d > 0; d-- {
				switch r.IntN(5) {
				case 0:
					p = capt(p, d)
				case 1:
					p = un(KMemo, p)
				case 2:
					p = seq(un(KNot, seq(p, lit("!"))), p)
					d -= 4
				case 3:
					p = alt(seq(p, lit("!")), p)
					d -= 4
				case 4:
					p = seq(un(KStar, lit("-")), p)
				}
			}
			mk = func() string { return w }
		case 6: // a rule used by others
			p = seq(lit("<"), un(KStar, nonterm("S")), lit(">"))
			if len(parts) > 0 && r.IntN(2) == 0 && n < 600 {
				p = capt(nonterm(fmt.Sprintf("P%d", r.IntN(len(parts)))), i)
				j := 0
				fmt.Sscanf(p.Kids[0].Str, "P%d", &j)
				mk = samples[j]
			} else {
				mk = func() string {
					var sb strings.Builder
					sb.WriteByte('<')
					for r.IntN(2) == 0 {
						j := r.IntN(len(parts))
						if len(parts) > 20 {
							j = r.IntN(20) // keep it short
						}
						fmt.Fprintf(&sb, "%s", samples[j]())
						break
					}
					sb.WriteByte('>')
					return sb.String()
				}
			}
		case 7:
			w := word()
			p = seq(un(KSearch, lit(w)), anyN(1+r.IntN(200)))
			l := p.Kids[1].N
			mk = func() string { return word() + w + strings.Repeat("x", l) }
		default:
			w := word()
			p = seq(un(KOpt, lit(w)), un(KAnd, un(KNot, lit("9"))), un(KStar, capt(class(setOf('q')), i)))
			mk = func() string { return w + "qq" }
		}
		parts = append(parts, seq(lit(tag), p))
		samples = append(samples, func() string { return tag + mk() })
	}
	// non-terminals for some or all parts; the choice between them is a tree
	rules := map[string]*Spec{}
	how := r.IntN(3)
	var kids []*Spec
	used := map[string]bool{}
	for _, p := range parts {
		p.walk(func(x *Spec) {
			if x.K == KNonTerm {
				used[x.Str] = true
			}
		})
	}
	for i, p := range parts {
		name := fmt.Sprintf("P%d", i)
		if used[name] || how == 0 || how == 1 && r.IntN(4) == 0 {
			rules[name] = p
			p = nonterm(name)
		}
		kids = append(kids, p)
	}
	for level := 0; len(kids) > 1; level++ {
		k := []int{2, 4, 9, 40}[r.IntN(4)]
		var next []*Spec
		for len(kids) > 0 {
			k := min(k, len(kids))
			a := alt(kids[:k:k]...)
			if k == 1 {
				a = kids[0]
			} else if how == 0 || r.IntN(4) == 0 {
				name := fmt.Sprintf("L%d_%d", level, len(next))
				rules[name] = a
				a = nonterm(name)
			}
			next = append(next, a)
			kids = kids[k:]
		}
		kids = next
	}
	rules["S"] = seq(kids[0], un(KOpt, lit(" ")))
	rules["Main"] = seq(un(KStar, nonterm("S")), un(KOpt, capt(lit("."), 77)))
	s := grammar("Main", rules)
	var ins [][]byte
	for k := 0; k < 6; k++ {
		var sb strings.Builder
		for m := 1 + r.IntN(30); m > 0; m-- {
			sb.WriteString(samples[r.IntN(n)]())
			if r.IntN(2) == 0 {
				sb.WriteByte(' ')
			}
		}
		if k%2 == 0 {
			sb.WriteByte('.')
		}
		in := []byte(sb.String())
		if k == 5 {
			in[r.IntN(len(in))] = 'z'
		}
		ins = append(ins, in)
	}
	// every part in turn
	var sb strings.Builder
	for i := range samples {
		sb.WriteString(samples[i]())
	}
	return s, append(ins, []byte(sb.String()))
}
