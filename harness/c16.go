package main

import (
	"bytes"
	"errors"
	"fmt"
	"math/rand/v2"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/zyedidia/gpeg/memo"
	"github.com/zyedidia/gpeg/pattern"
	"github.com/zyedidia/gpeg/re"
	"github.com/zyedidia/gpeg/vm"
)

// A pegPrinter writes specs as PEG text, in every way the syntax offers.
type pegPrinter struct {
	r     *rand.Rand
	names map[string]string
	plain bool // only single spaces
}

const (
	lvExpr = iota
	lvSeq
	lvPrefix
	lvSuffix
	lvPrimary
)

// sp writes optional spacing, or required spacing if must is set.
func (p *pegPrinter) sp(must bool) string {
	if p.plain {
		return " "
	}
	var b strings.Builder
	n := p.r.IntN(3)
	if must && n == 0 {
		n = 1
	}
	if !must && p.r.IntN(3) == 0 {
		n = 0
	}
	for i := 0; i < n; i++ {
		switch p.r.IntN(12) {
		case 0:
			b.WriteByte('\t')
		case 1:
			b.WriteByte('\n')
		case 2:
			b.WriteString("\r\n")
		case 3:
			b.WriteByte('\r')
		case 4:
			b.WriteString("#" + []string{"", " a <- b", "'\"", "\\ [^", "}} \xff\x00", "#"}[p.r.IntN(6)] + []string{"\n", "\r\n", "\r"}[p.r.IntN(3)])
		default:
			b.WriteByte(' ')
		}
	}
	return b.String()
}

func isOctal(b byte) bool { return b >= '0' && b <= '7' }

// char writes a byte; next is what comes right after it (0, false at the end
// of a literal or class). raw tells whether it may stand for itself.
func (p *pegPrinter) char(b byte, raw bool, nextDigit bool) string {
	var forms []string
	if raw && b != '\\' {
		forms = append(forms, string([]byte{b}), string([]byte{b}), string([]byte{b}))
	}
	switch b {
	case '\n':
		forms = append(forms, `\n`, `\n`)
	case '\r':
		forms = append(forms, `\r`, `\r`)
	case '\t':
		forms = append(forms, `\t`, `\t`)
	case '\'', '"', '[', ']', '\\', '-':
		forms = append(forms, `\`+string([]byte{b}), `\`+string([]byte{b}))
	}
	if b < 192 {
		forms = append(forms, fmt.Sprintf(`\%03o`, b))
	}
	if b < 64 && b >= 24 { // \30 to \77 are complete after two digits
		forms = append(forms, fmt.Sprintf(`\%02o`, b))
	}
	if b < 64 && !nextDigit {
		forms = append(forms, fmt.Sprintf(`\%o`, b))
		if b < 8 {
			forms = append(forms, fmt.Sprintf(`\%02o`, b))
		}
	}
	if len(forms) == 0 {
		return string([]byte{b})
	}
	return forms[p.r.IntN(len(forms))]
}

func (p *pegPrinter) literal(s string) string {
	q := byte("'\""[p.r.IntN(2)])
	out := ""
	// from the end, so that what follows each byte is known
	for i := len(s) - 1; i >= 0; i-- {
		digit := len(out) > 0 && isOctal(out[0])
		out = p.char(s[i], s[i] != q, digit) + out
	}
	return string([]byte{q}) + out + string([]byte{q})
}

func (p *pegPrinter) class(s *ByteSet) string {
	neg := p.r.IntN(4) == 0 || s.size() > 200
	if s.size() == 256 && p.r.IntN(2) == 0 {
		return "[^]"
	}
	m := s
	if neg {
		m = s.complement()
	}
	type item struct {
		lo, hi byte
		rng    bool
	}
	var items []item
	for i := 0; i < 256; {
		if !m[i] {
			i++
			continue
		}
		j := i
		for j+1 < 256 && m[j+1] {
			j++
		}
		switch {
		case j == i:
			items = append(items, item{byte(i), byte(i), p.r.IntN(6) == 0})
		case j-i < 6 && p.r.IntN(2) == 0:
			for k := i; k <= j; k++ {
				items = append(items, item{byte(k), byte(k), false})
			}
		case p.r.IntN(3) == 0 && j-i > 2:
			// overlapping ranges
			k := i + 1 + p.r.IntN(j-i-1)
			items = append(items, item{byte(i), byte(k), true}, item{byte(k - 1), byte(j), true})
		default:
			items = append(items, item{byte(i), byte(j), true})
		}
		i = j + 1
	}
	if p.r.IntN(8) == 0 {
		// a range that ends before it begins has no bytes
		lo := 1 + p.r.IntN(255)
		items = append(items, item{byte(lo), byte(p.r.IntN(lo)), true})
	}
	p.r.Shuffle(len(items), func(a, b int) { items[a], items[b] = items[b], items[a] })
	if len(items) > 0 && p.r.IntN(4) == 0 {
		items = append(items, items[p.r.IntN(len(items))])
	}
	out := ""
	for i := len(items) - 1; i >= 0; i-- {
		it := items[i]
		digit := len(out) > 0 && isOctal(out[0])
		first := i == 0
		raw := func(b byte) bool {
			switch b {
			case ']', '\\':
				return false
			case '-':
				return first && !it.rng && (out == "" || out[0] != '-')
			case '^':
				return !first || neg
			case ' ', '\t', '\n', '\r', '#':
				// spacing right after the caret is not part of the set
				return !(first && neg)
			}
			return true
		}
		var t string
		if it.rng {
			hraw := it.hi != '\\' && it.hi != '-' && (it.hi != ']' || p.r.IntN(2) == 0)
			t = p.char(it.lo, raw(it.lo) && it.lo != '-', false) + "-" + p.char(it.hi, hraw, digit)
		} else {
			t = p.char(it.lo, raw(it.lo), digit)
		}
		// a byte followed by a raw '-' would become a range
		if len(out) > 0 && out[0] == '-' {
			panic("class printer")
		}
		out = t + out
	}
	if neg {
		return "[^" + out + "]"
	}
	return "[" + out + "]"
}

func (p *pegPrinter) paren(t string) string { return "(" + p.sp(false) + t + ")" + p.sp(false) }

// expr writes s so that it can stand where the level is required.
func (p *pegPrinter) expr(s *Spec, level int) string {
	if !p.plain && p.r.IntN(15) == 0 {
		return p.paren(p.expr(s, lvExpr))
	}
	wrap := func(t string, have int) string {
		if have < level {
			return p.paren(t)
		}
		return t
	}
	switch s.K {
	case KLit:
		if len(s.Str) > 1 && p.r.IntN(6) == 0 {
			k := 1 + p.r.IntN(len(s.Str)-1)
			return wrap(p.literal(s.Str[:k])+p.sp(false)+p.literal(s.Str[k:])+p.sp(false), lvSeq)
		}
		if len(s.Str) == 1 && p.r.IntN(6) == 0 {
			return p.class(setOf(s.Str[0])) + p.sp(false)
		}
		return p.literal(s.Str) + p.sp(false)
	case KClass:
		if s.Set.size() == 256 && p.r.IntN(2) == 0 {
			return "." + p.sp(false)
		}
		return p.class(s.Set) + p.sp(false)
	case KAny:
		if s.N == 1 {
			return "." + p.sp(false)
		}
		t := ""
		for i := 0; i < s.N; i++ {
			t += "." + p.sp(false)
		}
		return wrap(t, lvSeq)
	case KEmpty:
		if level <= lvSeq && p.r.IntN(2) == 0 {
			return ""
		}
		return []string{"()", "''", `""`, "(" + p.sp(true) + ")"}[p.r.IntN(4)] + p.sp(false)
	case KSeq:
		if len(s.Kids) == 0 {
			return p.expr(empty(), level)
		}
		if len(s.Kids) == 1 {
			return p.expr(s.Kids[0], level)
		}
		t := ""
		for i, k := range s.Kids {
			if i > 0 && len(t) > 0 && identEnd(t) {
				t += p.sp(true)
			}
			// an inner sequence needs no parentheses
			lv := lvPrefix
			if k.K == KSeq || (k.K == KAny && k.N != 1) || k.K == KEmpty {
				lv = lvSeq
			}
			t += p.expr(k, lv)
		}
		return wrap(t, lvSeq)
	case KAlt:
		t := ""
		for i, k := range s.Kids {
			if i > 0 {
				t += "/" + p.sp(false)
			}
			t += p.expr(k, lvSeq)
		}
		if len(s.Kids) == 1 {
			return wrap(t, lvSeq)
		}
		return wrap(t, lvExpr)
	case KStar, KPlus, KOpt:
		op := map[Kind]string{KStar: "*", KPlus: "+", KOpt: "?"}[s.K]
		return wrap(p.expr(s.Kids[0], lvPrimary)+op+p.sp(false), lvSuffix)
	case KNot, KAnd:
		op := "!"
		if s.K == KAnd {
			op = "&"
		}
		return wrap(op+p.sp(false)+p.expr(s.Kids[0], lvSuffix), lvPrefix)
	case KCap:
		t := p.expr(s.Kids[0], lvExpr)
		if strings.HasPrefix(t, "{") {
			t = p.sp(true) + t
		} else {
			t = p.sp(false) + t
		}
		return "{" + t + "}" + p.sp(false)
	case KMemo:
		return "{{" + p.sp(false) + p.expr(s.Kids[0], lvExpr) + "}}" + p.sp(false)
	case KNonTerm:
		t := p.names[s.Str]
		if t == "" {
			t = s.Str
		}
		return t + p.sp(false)
	}
	panic("cannot print " + kindNames[s.K])
}

func identEnd(t string) bool {
	b := t[len(t)-1]
	return b == '_' || b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' || b >= '0' && b <= '9'
}

var identPool = []string{"A", "B", "a", "_", "__", "a1", "A_1", "Pattern", "Grammar", "Spacing_", "EndOfFile", "x9z", "rule", "Rule", "RULE", "S", "Expression", "longer_name_2", "z", "_0"}

// text writes a grammar or expression.
func (p *pegPrinter) text(s *Spec) string {
	if s.K != KGrammar {
		return p.sp(false) + p.expr(s, lvExpr)
	}
	p.names = map[string]string{}
	perm := p.r.Perm(len(identPool))
	for i, n := range s.Names {
		if i < len(perm) && !p.plain && len(s.Names) <= len(perm) {
			p.names[n] = identPool[perm[i]]
		} else {
			p.names[n] = n
		}
	}
	order := p.r.Perm(len(s.Names))
	sort.SliceStable(order, func(a, b int) bool { return s.Names[order[a]] == s.Start && s.Names[order[b]] != s.Start })
	t := p.sp(false)
	for _, i := range order {
		if len(t) > 0 && identEnd(t) {
			t += p.sp(true)
		}
		t += p.names[s.Names[i]] + p.sp(false) + "<-" + p.sp(false) + p.expr(s.Kids[i], lvExpr)
	}
	return t
}

func pegWeights() map[Kind]int {
	w := baseWeights()
	w[KEmptyOp], w[KSearch], w[KRepeat] = 0, 0, 0
	w[KEmpty] = 1
	w[KMemo] = 2
	return w
}

func c16Spec(c *C) (*Gen, *Spec) {
	w := pegWeights()
	if c.R.IntN(3) == 0 {
		w[KCap] = 2
	}
	g := newGen(c.R, w)
	if c.R.IntN(3) == 0 {
		g.Alpha = []byte([]string{"-]^\\", "'\"[", "\n\r\t", "07\x078", "# {}", "\x00\xff\xc0\xbf", "!&<-", "/()a"}[c.R.IntN(8)])
	}
	size := 3 + c.R.IntN(20)
	if c.R.IntN(2) == 0 {
		return g, g.grammar(1+c.R.IntN(5), size)
	}
	return g, g.pattern(size)
}

// spliceZero removes captures with id 0 and puts their children in their place.
func hasBraces(s *Spec) bool { return s.has(KCap) }

func c16Case(c *C) {
	g, s := c16Spec(c)
	c16Judge(c, s, g.inputs(s, shortLen(g), 8, 60))
}

// c16Big writes grammars with many and long rules.
func c16Big(c *C) {
	s, ins := bigProgramOf(c.R, "checks errors searches", []int{5, 15, 50, 130, 300}[c.R.IntN(5)])
	if c.R.IntN(2) == 0 {
		var strip func(s *Spec) *Spec
		strip = func(s *Spec) *Spec {
			for i := range s.Kids {
				s.Kids[i] = strip(s.Kids[i])
			}
			if s.K == KCap {
				return s.Kids[0]
			}
			return s
		}
		s = strip(s.copy())
	}
	c16Judge(c, s, ins)
}

func c16Judge(c *C, s *Spec, ins [][]byte) {
	p := &pegPrinter{r: c.R, plain: c.R.IntN(6) == 0}
	text := p.text(s)
	c.ClearNotes()
	c.Note("grammar text: %s", clip(fmt.Sprintf("%q", text), 3000))
	pat, err := re.Compile(text)
	if err != nil {
		c.Fail("valid text is rejected: %v\ntext: %q\nmeaning: %s", err, clip(text, 3000), clip(s.String(), 2000))
	}
	code, err := compileSpec(pat)
	if err != nil {
		c.Fail("valid text does not compile: %v\ntext: %q\nmeaning: %s", err, clip(text, 3000), clip(s.String(), 2000))
	}
	nontrivialSpec(c, s, text)
	c.Sample("%q", clip(text, 2000))
	run := func(s *Spec, code *vm.Code, caps bool, what string) {
		for _, in := range ins {
			want, steps, ok := interpret(s, in, interpLimit)
			if !ok {
				continue
			}
			c.ClearNotes()
			c.Note("grammar text %s, input %s", clip(fmt.Sprintf("%q", text), 3000), quote(in))
			got := execCode(code, bytes.NewReader(in), memo.NoneTable{}, budgetFor(steps))
			c.Eval()
			if want.Match {
				c.Event("matches", 1)
			}
			msg := diffParse(c, &want, &got)
			if msg == "" && caps && want.Match {
				if !capsEqual(want.Caps, got.Caps) {
					msg = "captures of rules differ"
				}
				c.Event("rule captures", capsCount(want.Caps))
			}
			if msg != "" {
				c.Fail("%s (%s)\ntext: %q\nmeaning: %s\ninput: %s\nexpected: %s\nobserved: %s", msg, what, clip(text, 3000), clip(s.String(), 2000), quote(in), clip(want.String(), 1000), clip(got.String(), 1000))
			}
		}
	}
	run(s, code, false, "Compile")
	// automatic captures
	ids := map[string]int{}
	prior := 0
	if c.R.IntN(3) == 0 && s.K == KGrammar {
		// a map that served for another grammar, with some of the same names
		var other []string
		for _, n := range p.names {
			other = append(other, n)
		}
		sort.Strings(other)
		c.R.Shuffle(len(other), func(i, j int) { other[i], other[j] = other[j], other[i] })
		other = append(other[:1+c.R.IntN(len(other))], "Verif_other")
		c.R.Shuffle(len(other), func(i, j int) { other[i], other[j] = other[j], other[i] })
		if _, err := re.CompileCap(strings.Join(other, " <- 'a'\n")+" <- 'b'", ids); err != nil {
			c.Fail("CompileCap refuses a simple grammar: %v", err)
		}
		prior = len(ids)
		c.Event("id maps used before", 1)
	}
	cp, err := re.CompileCap(text, ids)
	if err != nil {
		c.Fail("valid text is rejected by CompileCap: %v\ntext: %q", err, clip(text, 3000))
	}
	ccode, err := compileSpec(cp)
	if err != nil {
		c.Fail("valid text does not compile with captures: %v\ntext: %q", err, clip(text, 3000))
	}
	cs := s
	if s.K == KGrammar {
		cs = s.copy()
		seen := map[int]string{}
		for i, n := range cs.Names {
			id, ok := ids[p.names[n]]
			if !ok {
				c.Fail("CompileCap reports no id for rule %s\ntext: %q\nids: %v", p.names[n], clip(text, 3000), ids)
			}
			if o, dup := seen[id]; dup {
				c.Fail("CompileCap gives rules %s and %s the same id\ntext: %q\nids: %v", o, p.names[n], clip(text, 3000), ids)
			}
			seen[id] = p.names[n]
			cs.Kids[i] = capt(cs.Kids[i], id)
		}
		if prior == 0 && len(ids) != len(cs.Names) {
			c.Fail("CompileCap reports ids for other names than the rules'\ntext: %q\nids: %v", clip(text, 3000), ids)
		}
	} else if len(ids) != 0 {
		c.Fail("CompileCap reports ids for an expression without rules: %v", ids)
	}
	run(cs, ccode, !hasBraces(s), "CompileCap")
	if s.K != KGrammar || c.R.IntN(3) != 0 {
		return
	}
	// the same with a grammar that is put together directly
	b := &Builder{R: c.R}
	defs := map[string]pattern.Pattern{}
	for i, n := range s.Names {
		defs[n] = b.Build(s.Kids[i])
	}
	ids = map[string]int{}
	cp = pattern.CapGrammar(s.Start, defs, ids)
	if ccode, err = compileSpec(cp); err != nil {
		c.Fail("CapGrammar makes a grammar that does not compile: %v\nmeaning: %s", err, clip(s.String(), 3000))
	}
	cs = s.copy()
	seen := map[int]bool{}
	for i, n := range cs.Names {
		id, ok := ids[n]
		if !ok || seen[id] {
			c.Fail("CapGrammar reports no id, or that of another rule, for %s\nmeaning: %s\nids: %v", n, clip(s.String(), 3000), ids)
		}
		seen[id] = true
		cs.Kids[i] = capt(cs.Kids[i], id)
	}
	if len(ids) != len(cs.Names) || len(defs) != len(cs.Names) {
		c.Fail("CapGrammar reports ids for other names than the rules'\nmeaning: %s\nids: %v", clip(s.String(), 3000), ids)
	}
	run(cs, ccode, true, "CapGrammar")
	c.Event("grammars captured directly", 1)
}

// c16Escapes decides every notation of one byte.
func c16Escapes(c *C) {
	b := byte(c.Idx)
	var forms []string
	if b != '\\' {
		forms = append(forms, string([]byte{b}))
	}
	switch b {
	case '\n':
		forms = append(forms, `\n`)
	case '\r':
		forms = append(forms, `\r`)
	case '\t':
		forms = append(forms, `\t`)
	case '\'', '"', '[', ']', '\\', '-':
		forms = append(forms, `\`+string([]byte{b}))
	}
	if b < 192 {
		forms = append(forms, fmt.Sprintf(`\%03o`, b))
	}
	if b < 64 {
		forms = append(forms, fmt.Sprintf(`\%o`, b), fmt.Sprintf(`\%02o`, b))
	}
	check := func(text string, member func(x byte) bool) {
		pat, err := re.Compile(text)
		if err != nil {
			c.Fail("%q is rejected: %v", text, err)
		}
		code, err := compileSpec(pat)
		if err != nil {
			c.Fail("%q does not compile: %v", text, err)
		}
		for x := 0; x < 256; x++ {
			got := execCode(code, bytes.NewReader([]byte{byte(x)}), memo.NoneTable{}, 100000)
			c.Eval()
			if got.Match != member(byte(x)) {
				c.Fail("%q matches byte %#x: %v", text, x, got.Match)
			}
		}
		c.Event("notations of single bytes", 1)
		c.Nontrivial(text)
	}
	is := func(x byte) bool { return x == b }
	for _, f := range forms {
		if f != "'" {
			check("'"+f+"'", is)
		}
		if f != `"` {
			check(`"`+f+`"`, is)
		}
		if f == "]" {
			check(`[!-]]`, func(x byte) bool { return x >= '!' && x <= ']' })
			continue
		}
		if f != "^" {
			check("["+f+"]", is)
		} else {
			check("[a^]", func(x byte) bool { return x == 'a' || x == '^' })
		}
		if !strings.Contains(" \t\n\r#", f) {
			check("[^"+f+"]", func(x byte) bool { return x != b })
		}
		if f != "^" {
			check("["+f+"-"+f+"]", is)
		}
		check(`[\0-`+f+"]", func(x byte) bool { return x <= b })
		if f != "^" {
			check("["+f+"-\xff]", func(x byte) bool { return x >= b })
			check("["+f+"ab]", func(x byte) bool { return x == b || x == 'a' || x == 'b' })
		}
	}
}

// bundled grammars and what they must match
func c16Bundled(c *C) {
	type file struct{ peg, data string }
	files := []file{
		{"json.peg", "test.json"}, {"json_memo.peg", "test.json"},
		{"java.peg", "test.java"}, {"java_memo.peg", "test.java"},
	}
	f := files[c.Idx%len(files)]
	peg, err := os.ReadFile(filepath.Join(repoDir, "grammars", f.peg))
	if err != nil {
		return
	}
	data, err := os.ReadFile(filepath.Join(repoDir, "testdata", f.data))
	if err != nil {
		return
	}
	pat, err := re.Compile(string(peg))
	if err != nil {
		c.Fail("grammars/%s is rejected: %v", f.peg, err)
	}
	code, err := compileSpec(pat)
	if err != nil {
		c.Fail("grammars/%s does not compile: %v", f.peg, err)
	}
	got := execCode(code, bytes.NewReader(data), memo.NoneTable{}, 1<<40)
	c.Eval()
	if !got.Match || got.End != len(data) {
		c.Fail("grammars/%s on testdata/%s: match %v end %d, want all %d bytes", f.peg, f.data, got.Match, got.End, len(data))
	}
	c.Event("bundled grammars", 1)
}

func init() {
	register(&Prop{
		ID:   "C16",
		Rule: "an execution is the parse of one input with a pattern compiled from PEG text, compared with what the reference interpreter says about the meaning the text was written from; distinct non-trivial ones differ in text",
		Assume: []string{
			"grammars are well-formed and define each rule once",
			"spacing right after the caret of a class is not part of the set, as the documented grammar of the syntax says",
			"how captures written { } interleave with automatic captures is not judged",
		},
		Families: []Family{
			{Name: "texts", Quick: 100000, Thorough: 3000000, Batch: 500, Run: c16Case},
			{Name: "big", Quick: 240, Thorough: 7200, Batch: 6, CPU: 60, Run: c16Big},
			{Name: "escapes", Quick: 256, Thorough: 256, Batch: 32, Run: c16Escapes},
			{Name: "bundled", Quick: 4, Thorough: 4, Batch: 1, CPU: 200, Run: c16Bundled},
		},
		Need: []string{"matches", "rule captures", "notations of single bytes"},
	})
}

// ---- C17 ----

// A recogniser of the documented syntax, written as a plain recursive-descent
// parser; every method returns the position after the construct or -1.
type pegRec struct {
	s    string
	ford bool // the notation of Ford's paper: no braces, no ^, no \-, always rules
	memo map[int]pegPrim
	defs []string
	uses []map[string]bool // names used by each definition; false if only where it may be left out
	nil_ map[string]bool   // rules that are nothing at all
}

type pegPrim struct {
	end   int
	names map[string]bool
	none  bool // it is nothing at all, like () or ''
}

func (p *pegRec) at(i int, t string) bool { return strings.HasPrefix(p.s[i:], t) }

func (p *pegRec) eol(i int) int {
	switch {
	case p.at(i, "\r\n"):
		return i + 2
	case p.at(i, "\n"), p.at(i, "\r"):
		return i + 1
	}
	return -1
}

func (p *pegRec) spacing(i int) int {
	for i < len(p.s) {
		switch p.s[i] {
		case ' ', '\t', '\n', '\r':
			i++
		case '#':
			j := i
			for j < len(p.s) && p.s[j] != '\n' && p.s[j] != '\r' {
				j++
			}
			if j == len(p.s) {
				return i
			}
			i = p.eol(j)
		default:
			return i
		}
	}
	return i
}

func (p *pegRec) ident(i int) (int, string) {
	j := i
	for j < len(p.s) && (p.s[j] == '_' || p.s[j] >= 'a' && p.s[j] <= 'z' || p.s[j] >= 'A' && p.s[j] <= 'Z' || j > i && p.s[j] >= '0' && p.s[j] <= '9') {
		j++
	}
	if j == i {
		return -1, ""
	}
	return p.spacing(j), p.s[i:j]
}

func (p *pegRec) tok(i int, t string) int {
	if i < 0 || !p.at(i, t) {
		return -1
	}
	return p.spacing(i + len(t))
}

func (p *pegRec) char(i int) int {
	if i >= len(p.s) {
		return -1
	}
	if p.s[i] != '\\' {
		return i + 1
	}
	d := func(k int) byte {
		if i+k < len(p.s) {
			return p.s[i+k]
		}
		return 0
	}
	if d(1) != 0 && strings.IndexByte("nrt'\"[]\\-", d(1)) >= 0 && !(p.ford && d(1) == '-') {
		return i + 2
	}
	if d(1) >= '0' && d(1) <= '2' && isOctal(d(2)) && isOctal(d(3)) {
		return i + 4
	}
	if isOctal(d(1)) {
		if isOctal(d(2)) {
			return i + 3
		}
		return i + 2
	}
	return -1
}

func (p *pegRec) literal(i int) int {
	if i >= len(p.s) || (p.s[i] != '\'' && p.s[i] != '"') {
		return -1
	}
	q := p.s[i]
	for i++; i < len(p.s) && p.s[i] != q; {
		if i = p.char(i); i < 0 {
			return -1
		}
	}
	if i >= len(p.s) {
		return -1
	}
	return p.spacing(i + 1)
}

func (p *pegRec) class(i int) int {
	if !p.at(i, "[") {
		return -1
	}
	i++
	if j := p.tok(i, "^"); j >= 0 && !p.ford {
		i = j
	}
	for i < len(p.s) && p.s[i] != ']' {
		j := p.char(i)
		if j < 0 {
			break
		}
		if p.at(j, "-") {
			if k := p.char(j + 1); k >= 0 {
				j = k
			}
		}
		i = j
	}
	if i >= len(p.s) || p.s[i] != ']' {
		return -1
	}
	return p.spacing(i + 1)
}

// primary returns the end of a primary and notes the names used in it.
func (p *pegRec) primary(i int) pegPrim {
	if e, ok := p.memo[i]; ok {
		return e
	}
	e := p.primary1(i)
	p.memo[i] = e
	return e
}

func (p *pegRec) primary1(i int) pegPrim {
	if j, n := p.ident(i); j >= 0 && !p.at(j, "<-") {
		return pegPrim{j, map[string]bool{n: true}, p.nil_[n]}
	}
	for k, b := range [][2]string{{"(", ")"}, {"{{", "}}"}, {"{", "}"}} {
		if p.ford && k > 0 {
			break
		}
		if j := p.tok(i, b[0]); j >= 0 {
			e := p.expression(j)
			if j = p.tok(e.end, b[1]); j >= 0 {
				e.end = j
				return e
			}
		}
	}
	if j := p.literal(i); j >= 0 {
		return pegPrim{j, nil, p.s[i] == p.s[i+1]}
	}
	if j := p.class(i); j >= 0 {
		return pegPrim{end: j}
	}
	return pegPrim{end: p.tok(i, ".")}
}

func (p *pegRec) prefix(i int) pegPrim {
	if j := p.tok(i, "&"); j >= 0 {
		i = j
	} else if j := p.tok(i, "!"); j >= 0 {
		i = j
	}
	e := p.primary(i)
	if e.end < 0 {
		return e
	}
	for _, t := range []string{"?", "*", "+"} {
		if k := p.tok(e.end, t); k >= 0 {
			e.end = k
			break
		}
	}
	return e
}

func (p *pegRec) sequence(i int) pegPrim {
	r := pegPrim{i, map[string]bool{}, true}
	for {
		e := p.prefix(r.end)
		if e.end < 0 {
			return r
		}
		r.end = e.end
		r.none = r.none && e.none
		for n, must := range e.names {
			r.names[n] = r.names[n] || must
		}
	}
}

func (p *pegRec) expression(i int) pegPrim {
	r := pegPrim{i, map[string]bool{}, false}
	dead := false
	for k := 0; ; k++ {
		e := p.sequence(i)
		r.end = e.end
		for n, must := range e.names {
			r.names[n] = r.names[n] || must && !dead
		}
		// alternatives after one that is nothing at all are never tried and may
		// be left out of the program
		dead = dead || e.none
		r.none = r.none || e.none && k == 0
		if i = p.tok(e.end, "/"); i < 0 {
			return r
		}
	}
}

// accepts decides whether the text is in the documented syntax.
func (p *pegRec) accepts() bool {
	p.nil_ = map[string]bool{}
	for {
		n := len(p.nil_)
		if !p.pass() {
			return false
		}
		if len(p.nil_) == n {
			return true
		}
	}
}

func (p *pegRec) pass() bool {
	p.memo = map[int]pegPrim{}
	p.defs, p.uses = nil, nil
	i := p.spacing(0)
	start := i
	for {
		j, n := p.ident(i)
		if j < 0 {
			break
		}
		if j = p.tok(j, "<-"); j < 0 {
			break
		}
		e := p.expression(j)
		p.defs = append(p.defs, n)
		p.uses = append(p.uses, e.names)
		if e.none {
			p.nil_[n] = true
		}
		i = e.end
	}
	if len(p.defs) == 0 {
		if p.ford {
			return false
		}
		e := p.expression(start)
		p.uses = append(p.uses, e.names)
		i = e.end
	}
	return i == len(p.s)
}

// undefined returns the names that must, and those that may, be reported.
func (p *pegRec) undefined() (must, may map[string]bool) {
	must, may = map[string]bool{}, map[string]bool{}
	def := map[string]int{}
	for i, n := range p.defs {
		def[n] = i // the last definition of a name may replace the others
	}
	for _, us := range p.uses {
		for n := range us {
			if _, ok := def[n]; !ok {
				may[n] = true
			}
		}
	}
	// rules the start rule cannot reach may be left out of the program
	var visit func(i int)
	seen := map[int]bool{}
	visit = func(i int) {
		if seen[i] {
			return
		}
		seen[i] = true
		for n, m := range p.uses[i] {
			if !m {
				continue
			}
			if d, ok := def[n]; ok {
				visit(d)
			} else {
				must[n] = true
			}
		}
	}
	if len(p.defs) == 0 {
		visit(0)
	} else {
		visit(def[p.defs[0]])
	}
	return
}

func newPegRec(s string) *pegRec {
	return &pegRec{s: s}
}

var pegTokens = []string{"a", "B", "S", "<-", "<-", "/", "(", ")", "{", "}", "{{", "}}", "[", "]", "[^", "'", "\"", "''", "'a'", "\"b\"", "[a-z]", "[^]", "[]", "[z-a]", "[-]", "[a-]", "*", "+", "?", "&", "!", ".", "\\", "\\n", "\\377", "\\077", "\\8", "\\-", " ", "\n", "# c\n", "#", "\t", "-", "^", "\x00", "\xff", "0", "_", "A <- ", "\r", "<", "S <- 'x' S / "}

func c17Text(c *C) string {
	const odd = "(){}[]'\"<-/*+?&!.\\aA #\n"
	r := c.R
	switch r.IntN(6) {
	case 0, 1:
		var b strings.Builder
		for i := r.IntN(25); i >= 0; i-- {
			b.WriteString(pegTokens[r.IntN(len(pegTokens))])
		}
		return b.String()
	case 2:
		b := make([]byte, r.IntN(12))
		for i := range b {
			b[i] = byte(r.IntN(256))
			if r.IntN(2) == 0 {
				b[i] = odd[r.IntN(len(odd))]
			}
		}
		return string(b)
	}
	_, s := c16Spec(c)
	if s.K == KGrammar && r.IntN(3) == 0 {
		// leave a definition out, or define a name twice, or make it recursive
		k := r.IntN(len(s.Names))
		switch r.IntN(3) {
		case 0:
			s.Kids[k] = nonterm(s.Names[r.IntN(len(s.Names))])
		case 1:
			s.walk(func(x *Spec) {
				if x.K == KNonTerm && r.IntN(3) == 0 {
					x.Str = "Missing" + x.Str
				}
			})
		case 2:
			s.Kids[k] = un(KStar, un(KOpt, s.Kids[k]))
		}
	}
	p := &pegPrinter{r: r, plain: r.IntN(3) == 0}
	t := p.text(s)
	for n := r.IntN(4); n > 0; n-- {
		pos := r.IntN(len(t) + 1)
		switch r.IntN(5) {
		case 0:
			if pos < len(t) {
				t = t[:pos] + t[pos+1:]
			}
		case 1:
			t = t[:pos] + pegTokens[r.IntN(len(pegTokens))] + t[pos:]
		case 2:
			t = t[:pos]
		case 3:
			end := pos + r.IntN(len(t)-pos+1)
			t = t[:end] + t[pos:end] + t[end:]
		case 4:
			end := pos + r.IntN(min(6, len(t)-pos+1))
			t = t[:pos] + t[end:]
		}
		if len(t) > 3000 {
			t = t[:3000]
		}
	}
	return t
}

func c17Judge(c *C, text string) {
	rec := newPegRec(text)
	want := rec.accepts()
	c.ClearNotes()
	c.Note("grammar text: %s", clip(fmt.Sprintf("%q", text), 4000))
	vmSteps, vmBudget = 0, int64(len(text)+10)*200000
	pat, err := re.Compile(text)
	vmBudget = 1 << 62
	c.Eval()
	if want {
		c.Event("texts in the syntax", 1)
	} else {
		c.Event("texts outside the syntax", 1)
	}
	if (err == nil) != want {
		if want {
			c.Fail("text in the documented syntax is rejected: %v\ntext: %q", err, clip(text, 4000))
		}
		c.Fail("text outside the documented syntax is accepted\ntext: %q", clip(text, 4000))
	}
	if c.R.IntN(4) == 0 {
		var p1, p2 pattern.Pattern
		bad1 := try(func() { p1 = re.MustCompile(text) })
		bad2 := try(func() { p2 = re.MustCompileCap(text, map[string]int{}) })
		if (bad1 == nil) != want || (bad2 == nil) != want {
			c.Fail("of text that Compile accepts or refuses as it should (%v), MustCompile says %v and MustCompileCap %v\ntext: %q", want, bad1, bad2, clip(text, 4000))
		}
		if want && (p1 == nil || p2 == nil) {
			c.Fail("MustCompile gives no pattern\ntext: %q", clip(text, 4000))
		}
		c.Event("texts given to MustCompile", 1)
	}
	ids := map[string]int{}
	pat2, err2 := re.CompileCap(text, ids)
	if (err2 == nil) != want {
		c.Fail("CompileCap and Compile disagree about whether text is accepted: %v\ntext: %q", err2, clip(text, 4000))
	}
	if !want {
		return
	}
	c.Nontrivial(text)
	must, may := rec.undefined()
	for i, p := range []pattern.Pattern{pat, pat2} {
		prog, err := pattern.Compile(p)
		if err == nil {
			if len(must) > 0 {
				c.Fail("undefined rules %v are not reported\ntext: %q", sortedSet(must), clip(text, 4000))
			}
			code := vm.Encode(prog)
			if code.Size() < 0 {
				c.Fail("size")
			}
			if _, err := code.ToBytes(); err != nil {
				c.Fail("an accepted grammar cannot be saved: %v\ntext: %q", err, clip(text, 4000))
			}
			_ = prog.String()
			c.Event("programs made", 1)
			continue
		}
		if len(may) == 0 {
			c.Fail("a grammar whose rules are all defined is refused: %v\ntext: %q", err, clip(text, 4000))
		}
		named := false
		var nf *pattern.NotFoundError
		if errors.As(err, &nf) {
			named = may[nf.Name] && strings.Contains(err.Error(), nf.Name)
		} else {
			for n := range may {
				if strings.Contains(err.Error(), n) {
					named = true
				}
			}
		}
		if !named {
			c.Fail("the error for undefined rules %v does not name one: %v\ntext: %q", sortedSet(may), err, clip(text, 4000))
		}
		if i == 0 {
			c.Event("undefined rules reported", 1)
		}
	}
}

func c17Case(c *C) {
	for i := 0; i < 4; i++ {
		t := c17Text(c)
		c17Judge(c, t)
		c.Sample("%q", clip(t, 300))
	}
}

// c17Short enumerates short texts over the most telling characters.
func c17Short(c *C) {
	const chars = "aB('[{)]}\"<-/*!.\\^0# \n"
	n := len(chars)
	k := c.Idx
	if c.Idx >= n*n*n {
		// four and five characters, sampled
		b := make([]byte, 4+c.R.IntN(3))
		for i := range b {
			b[i] = chars[c.R.IntN(n)]
		}
		c17Judge(c, string(b))
		return
	}
	b := []byte{chars[k%n], chars[k/n%n], chars[k/n/n]}
	c17Judge(c, string(b))
	if k%n == 0 {
		c17Judge(c, string(b[1:]))
	}
	if k < n {
		c17Judge(c, string(b[:1]))
	}
	if k == 0 {
		c17Judge(c, "")
	}
}

// pegNear are things of other notations, which are next to none in this one.
var pegNear = []string{"\ufeff", "\xfe\xff", "\xff\xfe", "#!", "//", "/*", "*/", "--", ";", ":", ":=", "::=", "=", "->", "\u2190", "<--", "|", "~", "@", "%", "%%", "$", "`", ",", "{3}", "{1,2}", "<", ">", "\u00a0", "\u2028", "\u0085", "\u3000", "\u200b", "\v", "\f", "\b", "\x1a", "\x7f", "\x04", "'''", "\u201c", "\u2019", "\\u0041", "\\x41", "\\400", "\\777", "\\8", "\\e", "\\a", "\\v", "\\f", "\\0", "\\]", "\\`", "\\/", "\\\n", "[:alpha:]", "[[:alpha:]]", "^", "&&", "!!", "**", "++", "??", "*?", "+*", "()", "{}", "{{}}", "[]", "\"\"", "''", "A", "A <-", "<- A", "_", "9", "A.B", "A-B", "A:B", "\u00e9", "\u03bb", "'a'i", "i'a'", "\n\n", "\r", "\r\n", "\n\r", "\\", "/ /", "/ '", "'a' /", "& ", "! "}

// c17Near puts such things, and single bytes, at the ends, between the tokens
// and in the place of tokens of a text.
func c17Near(c *C) {
	p := &pegPrinter{r: c.R, plain: c.R.IntN(2) == 0}
	_, s := c16Spec(c)
	t := p.text(s)
	if len(t) > 400 {
		_, s = c16Spec(c)
		t = p.text(s)
	}
	odd := ""
	if k := c.Idx % (256 + 2*len(pegNear)); k < 256 {
		odd = string([]byte{byte(k)})
	} else {
		odd = pegNear[(k-256)/2]
	}
	c.Nontrivial(fmt.Sprintf("%q %q", odd, t))
	c.Sample("%q", clip(t, 300))
	c17Judge(c, odd)
	c17Judge(c, odd+t)
	c17Judge(c, t+odd)
	c17Judge(c, odd+"\n"+t)
	c17Judge(c, t+"\n"+odd)
	c17Judge(c, t+" "+odd+" ")
	for i := 0; i < 6; i++ {
		pos := c.R.IntN(len(t) + 1)
		c17Judge(c, t[:pos]+odd+t[pos:])
	}
	for _, tok := range []string{"<-", "/", "'", "\"", "#", "[", "]", "(", ")", "\\", "\n", " ", "*", ".", "!", "-"} {
		if n := strings.Count(t, tok); n > 0 {
			at := 0
			for k := c.R.IntN(n); ; k-- {
				at += strings.Index(t[at:], tok)
				if k == 0 {
					break
				}
				at += len(tok)
			}
			c17Judge(c, t[:at]+odd+t[at+len(tok):])
		}
	}
	c.Event("things of other notations in a text", 1)
}

// c17Deep nests brackets, and repeats constructs, many times.
func c17Deep(c *C) {
	n := 1 + c.R.IntN(800)
	open := []string{"(", "{", "{{", "!(", "&(", "('a'/", "{ ", "('x'"}[c.R.IntN(8)]
	cl := map[string]string{"(": ")", "{": "}", "{{": "}}", "!(": ")", "&(": ")", "('a'/": ")", "{ ": "}", "('x'": ")"}[open]
	m := n
	if c.R.IntN(3) == 0 {
		m = c.R.IntN(n + 2)
	}
	suf := []string{"", "*", "?", "+"}[c.R.IntN(2)]
	if n > 12 && suf != "" {
		suf = "*"
	}
	t := strings.Repeat(open, n) + "'b'" + strings.Repeat(cl+suf, m)
	if c.R.IntN(3) == 0 {
		t = "S <- " + t + "\nT <- S"
	}
	c17Judge(c, t)
	c.Max("nesting", n)
}

func init() {
	register(&Prop{
		ID:   "C17",
		Rule: "an execution is one text given to the grammar compiler, its acceptance compared with an independent recogniser of the documented syntax and, if accepted, taken through compilation, encoding and saving; distinct non-trivial ones are distinct accepted texts",
		Assume: []string{
			"the documented syntax is the grammar in the comment of re/grammar.go",
			"nesting is below 1000 levels",
			"when a name is defined twice either definition may count",
		},
		Families: []Family{
			{Name: "texts", Quick: 15000, Thorough: 450000, Batch: 300, Run: c17Case},
			{Name: "short", Quick: 14000, Thorough: 60000, Batch: 1000, Run: c17Short},
			{Name: "near", Quick: 4 * (256 + 2*len(pegNear)), Thorough: 60000, Batch: 60, Run: c17Near},
			{Name: "deep", Quick: 520, Thorough: 15000, Batch: 40, Run: c17Deep},
		},
		Need: []string{"texts in the syntax", "texts outside the syntax", "undefined rules reported", "programs made"},
	})
}
