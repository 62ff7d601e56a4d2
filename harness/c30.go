package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"os"
	"path/filepath"
	"strings"

	"github.com/zyedidia/gpeg/memo"
	"github.com/zyedidia/gpeg/re"
	"github.com/zyedidia/gpeg/vm"
)

// repoDir is the folder of the repository; only tools/plant.py sets it.
var repoDir = func() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}()

// ---- the grammars in /repo/grammars ----

var bundledCodes = map[string]*vm.Code{}

func bundled(c *C, name string) *vm.Code {
	if code, ok := bundledCodes[name]; ok {
		return code
	}
	b, err := os.ReadFile(filepath.Join(repoDir, "grammars", name+".peg"))
	if err != nil {
		c.Fail("grammars/%s.peg: %v", name, err)
	}
	p, err := re.Compile(string(b))
	if err != nil {
		c.Fail("grammars/%s.peg is refused: %v", name, err)
	}
	code, err := compileSpec(p)
	if err != nil {
		c.Fail("grammars/%s.peg does not compile: %v", name, err)
	}
	bundledCodes[name] = code
	return code
}

// bundledRun parses a text; ok is false if that takes too long.
func bundledRun(c *C, name, text string, table bool) (o Outcome, ok bool) {
	code := bundled(c, name)
	var tbl memo.Table = memo.NoneTable{}
	if table {
		tbl = memo.NewTreeTable(c.R.IntN(3) * 16)
	}
	c.ClearNotes()
	c.Note("grammars/%s.peg on %s", name, clip(fmt.Sprintf("%q", text), 6000))
	ok = true
	p := try(func() { o = execCode(code, strings.NewReader(text), tbl, 3_000_000) })
	if p != nil {
		if _, long := p.(tooManySteps); !long {
			panic(p)
		}
		vmBudget = 1 << 62
		c.Event("texts given up on", 1)
		return o, false
	}
	c.Eval()
	if o.Match && o.End > len(text) {
		c.Fail("grammars/%s.peg matches %d bytes of the %d there are: %q", name, o.End, len(text), clip(text, 4000))
	}
	return o, true
}

// bundledExpect says whether a whole text is in the language of a grammar.
func bundledExpect(c *C, name, text string, want bool, why string) {
	o, ok := bundledRun(c, name, text, strings.HasSuffix(name, "_memo") && c.R.IntN(2) == 0)
	if !ok {
		return
	}
	got := o.Match && o.End == len(text)
	if got != want {
		if want {
			c.Fail("grammars/%s.peg refuses %s\ntext: %q\nparse: match %v end %d of %d", name, why, clip(text, 6000), o.Match, o.End, len(text))
		}
		c.Fail("grammars/%s.peg accepts %s\ntext: %q", name, why, clip(text, 6000))
	}
	if want {
		c.Event(name+": texts accepted", 1)
	} else {
		c.Event(name+": texts refused", 1)
	}
}

// ---- JSON ----

func jsonDoc(r *rand.Rand, depth int) string {
	sp := func() string { return []string{"", "", "", " ", "\n", "\t", "\r", "  "}[r.IntN(8)] }
	str := func() string {
		var b strings.Builder
		b.WriteByte('"')
		for n := r.IntN(6); n > 0; n-- {
			switch r.IntN(6) {
			case 0, 1:
				b.WriteString([]string{"\\\"", "\\\\", "\\/", "\\b", "\\f", "\\n", "\\r", "\\t", "\\u0041", "\\uFFff", "\\ud83d\\uDE00"}[r.IntN(11)])
			case 2:
				b.WriteString([]string{"é", "日", "\x7f", "😀", "/", "{", "'", "\xff"}[r.IntN(8)])
			default:
				b.WriteByte(" !#[]^abz09~,:"[r.IntN(14)])
			}
		}
		b.WriteByte('"')
		return b.String()
	}
	k := r.IntN(9)
	if depth <= 0 {
		k = 2 + r.IntN(7)
	}
	t := ""
	switch k {
	case 0:
		t = "{" + sp()
		for i, n := 0, r.IntN(4); i < n; i++ {
			if i > 0 {
				t += "," + sp()
			}
			t += str() + sp() + ":" + sp() + jsonDoc(r, depth-1)
		}
		t += sp() + "}"
	case 1:
		t = "[" + sp()
		for i, n := 0, r.IntN(4); i < n; i++ {
			if i > 0 {
				t += "," + sp()
			}
			t += jsonDoc(r, depth-1)
		}
		t += sp() + "]"
	case 2:
		t = "true"
	case 3:
		t = "false"
	case 4:
		t = "null"
	case 5, 6:
		if r.IntN(2) == 0 {
			t = "-"
		}
		t += []string{"0", "0", "7", "10", "42", "9000000000000000000000", "1", "58"}[r.IntN(8)]
		if r.IntN(2) == 0 {
			t += []string{".0", ".5", ".00100", ".9876"}[r.IntN(4)]
		}
		if r.IntN(2) == 0 {
			t += []string{"e5", "E5", "e+09", "E-10", "e0"}[r.IntN(5)]
		}
	default:
		t = str()
	}
	return sp() + t + sp()
}

var jsonPieces = []string{"\"", "\"", "\\", "\\u", "\\u12", "{", "}", "[", "]", ",", ":", "0", "1", "-", "+", ".", "e", "E", "true", "nul", "NaN", " ", "\n", "\v", "\f", "\x00", "\x1f", "\x7f", "\xff", "'", "/", "\\x", "\\|", "\\{", "//", "\u00a0", "00", "\"a\"", "\"a\":1"}

func mangle(r *rand.Rand, t string, pieces []string, n int) string {
	for ; n > 0; n-- {
		pos := r.IntN(len(t) + 1)
		switch r.IntN(5) {
		case 0, 1:
			t = t[:pos] + pieces[r.IntN(len(pieces))] + t[pos:]
		case 2:
			end := pos + r.IntN(min(3, len(t)-pos+1))
			t = t[:pos] + t[end:]
		case 3:
			if pos < len(t) {
				t = t[:pos] + string([]byte{byte(r.IntN(256))}) + t[pos+1:]
			}
		case 4:
			end := pos + r.IntN(min(8, len(t)-pos+1))
			t = t[:end] + t[pos:end] + t[end:]
		}
	}
	return t
}

func c30JSON(c *C) {
	var t string
	switch c.R.IntN(4) {
	case 0:
		for n := c.R.IntN(6); n >= 0; n-- {
			t += jsonPieces[c.R.IntN(len(jsonPieces))]
		}
	case 1:
		t = jsonDoc(c.R, 4)
	default:
		t = mangle(c.R, jsonDoc(c.R, 3), jsonPieces, 1+c.R.IntN(3))
	}
	c.Nontrivial(t)
	want := json.Valid([]byte(t))
	for _, n := range []string{"json", "json_memo"} {
		bundledExpect(c, n, t, want, map[bool]string{true: "JSON", false: "what is not JSON"}[want])
	}
}

// ---- arithmetic ----

type arithRec struct {
	s string
	i int
}

func (a *arithRec) term() bool {
	if a.i < len(a.s) && a.s[a.i] == '(' {
		a.i++
		if !a.expr() || a.i >= len(a.s) || a.s[a.i] != ')' {
			return false
		}
		a.i++
		return true
	}
	n := a.i
	for a.i < len(a.s) && a.s[a.i] >= '0' && a.s[a.i] <= '9' {
		a.i++
	}
	return a.i > n
}

func (a *arithRec) expr() bool {
	for {
		if !a.term() {
			return false
		}
		if a.i >= len(a.s) || strings.IndexByte("+-*/", a.s[a.i]) < 0 {
			return true
		}
		a.i++
	}
}

func arithText(r *rand.Rand, depth int) string {
	t := ""
	for n := r.IntN(4); ; n-- {
		if depth > 0 && r.IntN(3) == 0 {
			t += "(" + arithText(r, depth-1) + ")"
		} else {
			t += []string{"0", "1", "007", "42", "9", "123456789"}[r.IntN(6)]
		}
		if n <= 0 {
			return t
		}
		t += string("+-*/"[r.IntN(4)])
	}
}

func c30Arith(c *C) {
	t := arithText(c.R, 4)
	if c.R.IntN(2) == 0 {
		t = mangle(c.R, t, []string{"+", "-", "*", "/", "(", ")", "()", "1", " ", ".", "a", "%", ",", ":"}, 1+c.R.IntN(2))
	}
	c.Nontrivial(t)
	a := &arithRec{s: t}
	want := a.expr() && a.i == len(t)
	bundledExpect(c, "arith", t, want, "arithmetic: "+fmt.Sprint(want))
}

// ---- the notations of grammars ----

func c30Notation(c *C) {
	t := c17Text(c)
	if strings.Count(t, "(")+strings.Count(t, "{") > 60 {
		return
	}
	c.Nontrivial(t)
	rec := newPegRec(t)
	want := rec.accepts()
	bundledExpect(c, "re", t, want, fmt.Sprintf("text that re.Compile should take: %v", want))
	if _, err := re.Compile(t); (err == nil) != want {
		c.Fail("re.Compile takes a text: %v (%v); it should: %v\ntext: %q", err == nil, err, want, clip(t, 4000))
	}
	rec = newPegRec(t)
	rec.ford = true
	want = rec.accepts()
	bundledExpect(c, "peg", t, want, fmt.Sprintf("text in the notation of PEGs: %v", want))
}

// lpegText writes a pattern of LPeg's re module.
type lpegText struct {
	r   *rand.Rand
	tok []string
}

func (l *lpegText) t(ts ...string) { l.tok = append(l.tok, ts...) }

func (l *lpegText) s() {
	if l.r.IntN(3) == 0 {
		l.t([]string{" ", "\n", "\t", "\r\n", "\r", "# it's a ( comment\n", "#\r\n"}[l.r.IntN(7)])
	}
}

func (l *lpegText) name() string {
	return []string{"a", "Bc", "x_1", "Z9", "exp", "S"}[l.r.IntN(6)]
}

func (l *lpegText) str() {
	l.t([]string{"''", "'a'", "\"\"", "\"it's\"", "'\"'", "'\\'", "'a b'"}[l.r.IntN(7)])
}

func (l *lpegText) exp(depth int) {
	l.s()
	if depth > 0 && l.r.IntN(8) == 0 {
		l.grammar(depth - 1)
		return
	}
	l.alt(depth)
}

func (l *lpegText) grammar(depth int) {
	for n := 1 + l.r.IntN(3); n > 0; n-- {
		l.t(l.name())
		l.s()
		l.t("<-")
		l.exp(depth)
	}
}

func (l *lpegText) alt(depth int) {
	l.seq(depth)
	for n := l.r.IntN(3); n > 0; n-- {
		l.t("/")
		l.s()
		l.seq(depth)
	}
}

func (l *lpegText) seq(depth int) {
	for n := l.r.IntN(4); n > 0; n-- {
		for l.r.IntN(5) == 0 {
			l.t(string("&!"[l.r.IntN(2)]))
			l.s()
		}
		l.primary(depth)
		l.s()
		for l.r.IntN(3) == 0 {
			switch l.r.IntN(7) {
			case 0:
				l.t("^")
				l.t([]string{"", "+", "-"}[l.r.IntN(3)], []string{"0", "3", "12"}[l.r.IntN(3)])
			case 1, 2:
				l.t("->")
				l.s()
				switch l.r.IntN(3) {
				case 0:
					l.str()
				case 1:
					l.t("{}")
				case 2:
					l.t(l.name(), " ")
				}
			case 3:
				l.t("=>")
				l.s()
				l.t(l.name(), " ")
			default:
				l.t(string("+*?"[l.r.IntN(3)]))
			}
			l.s()
		}
	}
}

func (l *lpegText) primary(depth int) {
	k := l.r.IntN(13)
	if depth <= 0 {
		k = 8 + l.r.IntN(5)
	}
	switch k {
	case 0, 1:
		l.t("(")
		l.exp(depth - 1)
		l.t(")")
	case 2:
		l.t("{:")
		if l.r.IntN(2) == 0 {
			l.t(l.name(), ":")
		}
		l.exp(depth - 1)
		l.t(":}")
	case 3:
		l.t("=", l.name())
	case 4:
		l.t("{~")
		l.exp(depth - 1)
		l.t("~}")
	case 5:
		l.t("{|")
		l.exp(depth - 1)
		l.t("|}")
	case 6, 7:
		l.t("{")
		l.exp(depth - 1)
		l.t("}")
	case 8:
		l.str()
	case 9:
		l.t([]string{"[a]", "[^a-z0]", "[]]", "[^]]", "[%s]", "[a-zA-Z%d_]", "[-]", "[a-]", "[()]", "['\"]"}[l.r.IntN(10)])
	case 10:
		l.t("%", l.name())
	case 11:
		l.t(".")
	case 12:
		l.t(l.name(), " ")
	}
}

func c30LPeg(c *C) {
	l := &lpegText{r: c.R}
	l.exp(3)
	// names must not run into each other or into an arrow
	t := ""
	for i, s := range l.tok {
		if i > 0 && t != "" && s != "" && isNameByte(t[len(t)-1]) && isNameByte(s[0]) {
			t += " "
		}
		t += s
	}
	if strings.Count(t, "(")+strings.Count(t, "{") > 12 {
		return
	}
	c.Nontrivial(t)
	bundledExpect(c, "lpeg", t, true, "a pattern of LPeg's re module")
	// what is never in the notation
	bad := ""
	switch c.R.IntN(3) {
	case 0:
		bad = t + []string{")", "]", "}", "<", " 'a'^", "->", " 'a'^+-1", " {:a:b:'c':}"}[c.R.IntN(8)]
	case 1:
		bad = []string{"*", "/*", "?", "->", "<-", ")", "}"}[c.R.IntN(7)] + t
	case 2:
		bad = []string{"(", "{", "[", "\"", "{~"}[c.R.IntN(5)] + strings.NewReplacer("(", "a", ")", "a", "{", "a", "}", "a", "]", "a", "\"", "a", "'", "a", "[", "a", "#", "a").Replace(t)
	}
	if strings.HasPrefix(bad, "/*") {
		bad = "//" + "*" + t
	}
	bundledExpect(c, "lpeg", bad, false, "what is no pattern of LPeg's re module")
}

// ---- programs ----

// A progGen writes programs as lists of tokens, which join puts together.
type progGen struct {
	r    *rand.Rand
	toks []string
	java bool
}

func (g *progGen) t(ts ...string)         { g.toks = append(g.toks, ts...) }
func (g *progGen) p(n int) bool           { return g.r.IntN(n) == 0 }
func (g *progGen) of(ts ...string) string { return ts[g.r.IntN(len(ts))] }
func (g *progGen) list(lo, hi int, fn func()) {
	n := lo + g.r.IntN(hi-lo+1)
	if g.p(12) {
		n += 2
	}
	for i := 0; i < n; i++ {
		if i > 0 {
			g.t(",")
		}
		fn()
	}
}

// dims writes pairs of brackets.
func (g *progGen) dims(n int) {
	for g.p(n) {
		g.t("[", "]")
		n = 3
	}
}

func wordTok(s string) bool {
	return isNameByte(s[0]) || s[0] == '$' || s[0] == '\\' || s[0] == '"' || s[0] == '\'' || s[0] == '.' && len(s) > 1 && isNameByte(s[1])
}

// join puts spacing between tokens, at least where they would run together.
func (g *progGen) join(toks []string) string {
	var b strings.Builder
	sp := func() {
		switch g.r.IntN(12) {
		case 0:
			b.WriteString("\n")
		case 1:
			b.WriteString(" " + g.of("/* a \" ' { */", "/**/", "/* // * / ** */", "/***/"))
		case 2:
			b.WriteString(" " + g.of("// it's a ( \"\n", "//\n"))
		case 3:
			b.WriteString(g.of("\t", "\r\n", "  "))
		case 4:
			if !g.java {
				b.WriteString("\n" + g.of("#pragma once (\n", "#\n", "#line 3 \"x.c\"\n"))
				break
			}
			b.WriteString("\r")
		default:
			b.WriteString(" ")
		}
	}
	if g.p(3) {
		sp()
	}
	const free = "(){}[];,"
	for i, t := range toks {
		b.WriteString(t)
		if i+1 == len(toks) {
			break
		}
		u := toks[i+1]
		w1, w2 := wordTok(t), wordTok(u)
		f1, f2 := strings.Contains(free, t), strings.Contains(free, u)
		if !f1 && !f2 && (w1 && w2 || !w1 && !w2 || t == "." || u == ".") || g.p(8) {
			if (t == "." || u == ".") && (isNameByte(t[0]) && (t[0] > '9') || isNameByte(u[0]) && u[0] > '9') && !g.p(4) {
				continue
			}
			if g.p(3) {
				sp()
			} else {
				b.WriteString(" ")
			}
		}
	}
	if g.p(3) {
		sp()
	}
	return b.String()
}

func (g *progGen) id() string {
	w := g.of("a", "b", "x", "Foo", "_t", "iff", "classy", "do_", "int1", "newer", "i", "List", "nullable", "returned", "v2", "autos", "thisOne", "_")
	if !g.java && g.p(40) {
		w = g.of("\\u00e9", "a\\u00E9b", "x\\U0001F600", "_\\u00AA\\u00ba1")
	}
	if g.java && g.p(8) {
		w = g.of("$", "a$b", "$1", "é"[:0]+"str$")
	}
	return w
}

func (g *progGen) numLit() string {
	if g.java {
		return g.of("0", "1", "42", "1_000", "0x1F", "0XfFL", "0x1_f", "0b101", "0B1_1L", "017", "0_7", "10L", "3l", "1.5", "1.", ".5", "1e10", "1E+5f", "2.5e-3d", "1f", "3D", "0x1.8p1", "0x.8P-2f", "0x1p3", "1_0.0_1", "0.0", "09.5", "00", "12e10", "123", "12.", "123.456", "0xAB.CDp10", "0xAp-12", "0xAB.p1", "0x.ABp12", "1e100", "987654321", "0777", ".25", "0x0", "1__0", "0b1__1", "0x1__2", "0__1", "5.D", "1_2e1_0")
	}
	return g.of("0", "1", "42", "0x1F", "0XffUL", "017", "10u", "10L", "10ULL", "3lu", "7llU", "1.5", ".5", "1.", "1e10", "1E+5f", "2.5e-3L", "0x1p3", "0x1.8P-2", "0x.8p1", "00", "1.F", "12e10", "123", "12.", "123.456", "0xAB.CDp10", "0xAp-12", "0xAB.p1", "0x.ABp12", "1e100", "987654321", "0777", ".25", "0x0", "2l", "2Lu", "2llu", "2U")
}

func (g *progGen) lit() string {
	if g.java {
		switch g.r.IntN(5) {
		case 0:
			return g.of("'a'", "'\\''", "'\"'", "'\\\\'", "'\\n'", "'\\0'", "'\\377'", "'\\47'", "'\\u0041'", "'\\uuuFFff'", "' '")
		case 1:
			return g.of(`""`, `"a"`, `"\""`, `"it's"`, `"\\"`, `"\t\b\f\r\n"`, `"\1x"`, `"\u00e9"`, `"// no /* comment"`, `"é"`, `"{"`)
		case 2:
			return g.of("true", "false", "null")
		}
		return g.numLit()
	}
	switch g.r.IntN(5) {
	case 0:
		return g.of("'a'", "'\\''", "'\"'", "'\\\\'", "'\\n'", "'\\0'", "'\\377'", "'\\x1f'", "'\\u0041'", "L'a'", "' '", "'ab'", "'\\?'", "'\\a'", "'\\v'", "'\\47'", "'\\x1F0'", "'\\U0001F600'", "L'\\0'")
	case 1:
		return g.of(`""`, `"a"`, `"\""`, `"it's"`, `"\\"`, `"\t\b\f\r\n\a\v"`, `"\1x"`, `"\xff"`, `L"wide"`, `"// no /* comment"`, `"a" "b"`, `"{"`, `"\U0001F600"`)
	}
	return g.numLit()
}

var binOps = []string{"+", "-", "*", "/", "%", "<<", ">>", "<", ">", "<=", ">=", "==", "!=", "&", "|", "^", "&&", "||"}
var assignOps = []string{"=", "+=", "-=", "*=", "/=", "%=", "<<=", ">>=", "&=", "|=", "^="}

// expr writes an expression: level 0 is a comma expression in C, 1 an
// assignment, 2 a condition, 3 operators, 4 one with prefixes, 5 a primary.
func (g *progGen) expr(depth, level int) {
	if depth <= 0 {
		if g.p(2) {
			g.t(g.id())
		} else {
			g.t(g.lit())
		}
		return
	}
	switch level {
	case 0:
		g.expr(depth, 1)
		if !g.java && g.p(12) {
			g.t(",")
			g.expr(depth-1, 1)
		}
	case 1:
		if g.p(8) {
			g.lval(depth - 1)
			op := assignOps[g.r.IntN(len(assignOps))]
			if g.java && g.p(8) {
				op = ">>>="
			}
			g.t(op)
			g.expr(depth-1, 1)
			return
		}
		g.expr(depth, 2)
	case 2:
		g.expr(depth, 3)
		if g.p(10) {
			g.t("?")
			g.expr(depth-1, 1)
			g.t(":")
			g.expr(depth-1, 2)
		}
	case 3:
		g.expr(depth, 4)
		for n := g.r.IntN(3); n > 0; n-- {
			if g.java && g.p(12) {
				g.t("instanceof")
				g.t(g.id())
				// what follows could be taken for the arguments of a type
				g.t(g.of("&&", "||", "=="))
			} else if g.java && g.p(12) {
				g.t(">>>")
			} else {
				g.t(binOps[g.r.IntN(len(binOps))])
			}
			g.expr(depth-1, 4)
		}
	case 4:
		switch g.r.IntN(8) {
		case 0:
			g.t(g.of("+", "-", "!", "~"))
			g.expr(depth-1, 4)
		case 1:
			g.t(g.of("++", "--"))
			g.lval(depth - 1)
		case 2:
			g.t("(")
			if g.java {
				g.typ(1)
			} else {
				g.cTypeName()
			}
			g.t(")")
			g.expr(depth-1, 4)
		case 3:
			if g.java {
				g.expr(depth, 5)
				break
			}
			if g.p(2) {
				g.t("sizeof", "(")
				g.cTypeName()
				g.t(")")
			} else {
				g.t("sizeof")
				g.expr(depth-1, 5)
			}
		case 4:
			if g.java {
				g.expr(depth, 5)
				break
			}
			g.t(g.of("*", "&"))
			g.expr(depth-1, 4)
		default:
			g.expr(depth, 5)
		}
	case 5:
		if g.java {
			g.javaPrimary(depth)
		} else {
			g.cPostfix(depth)
		}
	}
}

func (g *progGen) args(depth int) {
	g.t("(")
	g.list(0, 2, func() { g.expr(depth-1, 1) })
	g.t(")")
}

func (g *progGen) lval(depth int) {
	g.t(g.id())
	switch g.r.IntN(4) {
	case 0:
		g.t("[")
		g.expr(depth-1, 1)
		g.t("]")
	case 1:
		g.t(".", g.id())
	case 2:
		if !g.java {
			g.t("->", g.id())
		}
	}
}

func (g *progGen) cPostfix(depth int) {
	switch g.r.IntN(8) {
	case 0:
		g.t("(")
		g.expr(depth-1, 0)
		g.t(")")
	case 1:
		g.t("(", g.of("int", "struct s", "unsigned char"))
		if g.p(2) {
			g.t("[", "]")
		}
		g.t(")")
		g.cInitList(depth - 1)
	case 2:
		g.t(g.lit())
		return
	default:
		g.t(g.id())
	}
	for n := g.r.IntN(3); n > 0; n-- {
		switch g.r.IntN(5) {
		case 0:
			g.t("[")
			g.expr(depth-1, 0)
			g.t("]")
		case 1:
			g.args(depth)
		case 2:
			g.t(".", g.id())
		case 3:
			g.t("->", g.id())
		case 4:
			g.t(g.of("++", "--"))
		}
	}
}

func (g *progGen) cInitList(depth int) {
	g.t("{")
	g.list(1, 3, func() {
		if g.p(4) {
			for {
				if g.p(2) {
					g.t(".", g.id())
				} else {
					g.t("[")
					g.expr(depth-1, 2)
					g.t("]")
				}
				if !g.p(3) {
					break
				}
			}
			g.t("=")
		}
		g.cInit(depth - 1)
	})
	if g.p(3) {
		g.t(",")
	}
	g.t("}")
}

func (g *progGen) cInit(depth int) {
	if depth > 0 && g.p(4) {
		g.cInitList(depth)
		return
	}
	g.expr(depth, 1)
}

func (g *progGen) cSpec(depth int, storage bool) {
	if storage && g.p(5) {
		g.t(g.of("static", "extern", "auto", "register", "typedef", "inline", "_stdcall", "__attribute__ ( ( packed ) )", "static inline"))
	}
	if g.p(5) {
		g.t(g.of("const", "volatile", "const volatile", "__declspec ( dllexport )"))
	}
	switch g.r.IntN(9) {
	case 0:
		g.t(g.id())
		if storage && g.p(4) {
			g.t(g.of("static", "inline", "const volatile", "register const"))
		}
	case 1:
		g.t(g.of("struct", "union"), g.id())
	case 2:
		g.t("enum", g.id())
	case 3:
		if depth <= 0 {
			g.t("int")
			break
		}
		g.t(g.of("struct", "union"))
		if g.p(2) {
			g.t(g.id())
		}
		g.t("{")
		for n := g.r.IntN(3); n > 0; n-- {
			g.cSpec(depth-1, false)
			if g.p(5) {
				g.t(g.id(), ":", g.of("1", "8", "0x3"))
			} else if g.p(9) {
				g.t(":", "3")
			} else if !g.p(12) {
				g.list(1, 2, func() { g.cDeclarator(depth-1, true) })
			}
			g.t(";")
		}
		g.t("}")
	case 4:
		if depth <= 0 {
			g.t("char")
			break
		}
		g.t("enum")
		if g.p(2) {
			g.t(g.id())
		}
		g.t("{")
		g.list(1, 3, func() {
			g.t(g.id())
			if g.p(3) {
				g.t("=")
				g.expr(1, 2)
			}
		})
		if g.p(3) {
			g.t(",")
		}
		g.t("}")
	default:
		g.t(g.of("int", "char", "void", "short", "long", "float", "double", "signed", "unsigned", "_Bool", "unsigned long", "long long int", "double _Complex", "unsigned char"))
	}
	if g.p(9) {
		g.t(g.of("const", "volatile"))
	}
}

func (g *progGen) ptr() {
	for g.p(3) {
		g.t("*")
		if g.p(3) {
			g.t(g.of("const", "volatile", "restrict", "const restrict"))
		}
	}
}

func (g *progGen) cParams(depth int) {
	g.t("(")
	switch g.r.IntN(5) {
	case 0:
	case 1:
		g.t("void")
	default:
		g.list(1, 3, func() {
			g.cSpec(0, false)
			if g.p(3) {
				g.cAbstract(depth - 1)
			} else {
				g.cDeclarator(depth-1, true)
			}
		})
		if g.p(5) {
			g.t(",", "...")
		}
	}
	g.t(")")
}

func (g *progGen) cAbstract(depth int) {
	g.ptr()
	switch g.r.IntN(6) {
	case 0:
		for n := 1 + g.r.IntN(3); n > 0; n-- {
			g.t(g.of("[ ]", "[ 3 ]", "[ * ]"))
		}
	case 1:
		g.t("(", "*", ")")
		for n := g.r.IntN(3); n > 0; n-- {
			g.t(g.of("( int )", "( void )", "( char , T * )", "[ 3 ]", "[ ]", "( )", "[ * ]"))
		}
	case 2:
		g.t("(", g.of("int", "int , char", "void", "char * , ...", ""), ")")
	}
}

func (g *progGen) cTypeName() {
	if g.p(4) {
		g.t("const")
	}
	g.t(g.of("int", "char", "unsigned long", "struct s", "double", "T", "enum e"))
	g.cAbstract(0)
}

func (g *progGen) cDeclarator(depth int, arrays bool) {
	g.ptr()
	if depth > 0 && g.p(8) {
		g.t("(", "*")
		g.cDeclarator(depth-1, arrays)
		g.t(")")
		if g.p(2) {
			g.cParams(depth - 1)
		}
		return
	}
	g.t(g.id())
	if !arrays {
		return
	}
	for g.p(4) {
		g.t("[")
		switch g.r.IntN(5) {
		case 0:
		case 1:
			g.t(g.of("static", "const", "*", "const *", "const restrict *", "const volatile static", "const restrict", "const static", "static const", "static const volatile"))
			if s := g.toks[len(g.toks)-1]; strings.Contains(s, "static") {
				g.t("4")
			}
		default:
			g.expr(1, 2)
		}
		g.t("]")
	}
	if g.p(8) {
		g.cParams(depth - 1)
	}
}

func (g *progGen) cDecl(depth int) {
	g.cSpec(depth, true)
	if g.p(9) {
		g.t(";")
		return
	}
	g.list(1, 2, func() {
		g.cDeclarator(depth, true)
		if g.p(3) {
			g.t("=")
			g.cInit(depth)
		}
	})
	g.t(";")
}

func (g *progGen) block(depth int) {
	g.t("{")
	for n := g.r.IntN(4); n > 0; n-- {
		if g.p(3) {
			if g.java {
				g.javaLocal(depth - 1)
			} else {
				g.cDecl(depth - 1)
			}
		} else {
			g.stmt(depth - 1)
		}
	}
	g.t("}")
}

func (g *progGen) cond(depth int) {
	g.t("(")
	g.expr(depth-1, 0)
	g.t(")")
}

func (g *progGen) stmt(depth int) {
	if depth <= 0 {
		g.t(g.of(";", "break ;", "continue ;", "return ;", "x = 1 ;", "f ( ) ;"))
		return
	}
	k := g.r.IntN(14)
	if k >= 12 {
		if g.java {
			k = 12 + g.r.IntN(6)
		} else {
			k = 12
		}
	}
	switch k {
	case 0:
		g.block(depth)
	case 1:
		g.t("if")
		g.cond(depth)
		g.stmt(depth - 1)
		if g.p(2) {
			g.t("else")
			g.stmt(depth - 1)
		}
	case 2:
		g.t("while")
		g.cond(depth)
		g.stmt(depth - 1)
	case 3:
		g.t("do")
		g.stmt(depth - 1)
		g.t("while")
		g.cond(depth)
		g.t(";")
	case 4:
		g.t("for", "(")
		switch g.r.IntN(3) {
		case 0:
		case 1:
			if g.java && g.p(4) {
				g.t(g.of("final", "@ Foo", "final @ b"))
			}
			g.t(g.of("int", "long", "T"))
			g.list(1, 2, func() {
				g.t(g.id(), "=")
				g.expr(depth-1, 1)
			})
		case 2:
			g.list(1, 2, func() { g.forExpr(depth - 1) })
		}
		g.t(";")
		if g.p(2) {
			g.expr(depth-1, 0)
		}
		g.t(";")
		if g.p(2) {
			g.list(1, 2, func() { g.forExpr(depth - 1) })
		}
		g.t(")")
		g.stmt(depth - 1)
	case 5:
		g.t("switch")
		g.cond(depth)
		g.t("{")
		for n := g.r.IntN(3); n > 0; n-- {
			if g.p(4) {
				g.t("default", ":")
			} else {
				g.t("case")
				g.expr(1, 3)
				g.t(":")
			}
			g.stmt(depth - 1)
		}
		g.t("}")
	case 6:
		g.t("return")
		if g.p(2) {
			g.expr(depth-1, 0)
		}
		g.t(";")
	case 7:
		g.t(g.of("break", "continue", "") + " ;")
	case 8:
		g.t(g.id(), ":")
		g.stmt(depth - 1)
	case 12:
		if g.java {
			g.t(";")
		} else {
			g.t("goto", g.id(), ";")
		}
	case 13:
		g.t("try")
		res := g.p(3)
		if res {
			g.t("(")
			for n := g.r.IntN(3); ; n-- {
				g.finals()
				g.typ(1)
				g.t(g.id(), "=")
				g.expr(1, 1)
				if n <= 0 {
					break
				}
				g.t(";")
			}
			if g.p(3) {
				g.t(";")
			}
			g.t(")")
		}
		g.block(depth - 1)
		n := g.r.IntN(3)
		for i := 0; i < n; i++ {
			g.t("catch", "(")
			g.finals()
			g.t(g.id())
			for g.p(3) {
				g.t("|", g.id())
			}
			g.t(g.id(), ")")
			g.block(depth - 2)
		}
		if n == 0 && !res || g.p(3) {
			g.t("finally")
			g.block(depth - 2)
		}
	case 14:
		g.t("synchronized")
		g.cond(depth)
		g.block(depth - 1)
	case 15:
		g.t("throw")
		g.expr(depth-1, 1)
		g.t(";")
	case 16:
		g.t("assert")
		g.expr(depth-1, 3)
		if g.p(2) {
			g.t(":")
			g.expr(depth-1, 1)
		}
		g.t(";")
	case 17:
		g.t("for", "(")
		g.finals()
		g.typ(1)
		g.t(g.id(), ":")
		g.expr(depth-1, 1)
		g.t(")")
		g.stmt(depth - 1)
	default:
		g.stmtExpr(depth)
		g.t(";")
	}
}

// stmtExpr writes an expression that is a statement in both languages.
func (g *progGen) stmtExpr(depth int) {
	switch g.r.IntN(4) {
	case 0:
		g.t(g.id())
		g.args(depth)
	case 1:
		g.lval(depth)
		g.t(g.of("++", "--"))
	case 2:
		g.t(g.of("++", "--"))
		g.lval(depth)
	default:
		g.lval(depth)
		g.t(assignOps[g.r.IntN(len(assignOps))])
		g.expr(depth, 1)
	}
}

func (g *progGen) forExpr(depth int) {
	if g.java {
		g.stmtExpr(depth)
	} else {
		g.expr(depth, 1)
	}
}

func (g *progGen) cProgram() {
	for n := g.r.IntN(4); n >= 0; n-- {
		switch g.r.IntN(5) {
		case 0:
			g.t(";")
		case 1, 2:
			g.cDecl(2)
		default:
			if g.p(4) {
				g.t(g.of("static", "inline", "extern"))
			}
			g.t(g.of("int", "void", "char", "struct s", "unsigned long"))
			g.ptr()
			g.t(g.id())
			if g.p(8) {
				g.t("(")
				g.list(1, 2, func() { g.t(g.id()) })
				g.t(")")
				for k := g.r.IntN(2); k >= 0; k-- {
					g.t("int", g.id(), ";")
				}
			} else {
				g.cParams(2)
			}
			g.block(3)
		}
	}
}

// ---- Java ----

func (g *progGen) typ(depth int) {
	if g.p(2) {
		g.t(g.of("int", "byte", "short", "char", "long", "float", "double", "boolean"))
	} else {
		g.classType(depth)
	}
	g.dims(5)
}

func (g *progGen) refType(depth int) {
	if g.p(5) {
		g.t(g.of("int", "byte", "double"), "[", "]")
		g.dims(5)
	} else {
		g.classType(depth)
		g.dims(6)
	}
}

func (g *progGen) classType(depth int) {
	for {
		g.t(g.id())
		if depth > 0 && g.p(4) {
			g.t("<")
			g.list(1, 2, func() {
				if g.p(4) {
					g.t("?")
					if g.p(2) {
						g.t(g.of("extends", "super"))
						g.refType(depth - 1)
					}
				} else {
					g.refType(depth - 1)
				}
			})
			g.t(">")
		}
		if !g.p(5) {
			return
		}
		g.t(".")
	}
}

func (g *progGen) javaPrimary(depth int) {
	switch g.r.IntN(14) {
	case 0:
		g.t("(")
		g.expr(depth-1, 1)
		g.t(")")
	case 1:
		g.t("this")
		if g.p(3) {
			g.args(depth)
		}
	case 2:
		g.t("super")
		if g.p(2) {
			g.args(depth)
		} else {
			g.t(".", g.id())
			if g.p(2) {
				g.args(depth)
			}
		}
	case 3:
		g.t(g.lit())
		return
	case 4:
		g.t("new")
		switch g.r.IntN(4) {
		case 0:
			g.t(g.of("int", "char", "Foo"), "[", "]")
			g.dims(3)
			g.javaArrayInit(depth - 1)
			return
		case 1:
			g.t(g.of("int", "boolean", "Foo"), "[")
			g.expr(depth-1, 1)
			g.t("]")
			for g.p(3) {
				g.t("[")
				g.expr(depth-2, 1)
				g.t("]")
			}
			g.dims(3)
			return
		case 2:
			g.t(g.id(), "<", ">")
		default:
			if g.p(9) {
				g.t("<", g.id(), ">")
			}
			for {
				g.t(g.id())
				if g.p(4) {
					g.t("<")
					g.list(1, 2, func() { g.refType(0) })
					g.t(">")
				}
				if !g.p(4) {
					break
				}
				g.t(".")
			}
		}
		g.args(depth)
		if depth > 1 && g.p(5) {
			g.classBody(depth - 2)
		}
	case 5:
		g.t(g.of("int", "char", "boolean"))
		g.dims(3)
		g.t(".", "class")
		return
	case 6:
		g.t(g.of("void . class", "a . b . class", "Foo [ ] . class", "Foo [ ] [ ] [ ] . class", "a . this"))
		return
	case 7:
		g.t(g.id(), ".", "<")
		g.refType(0)
		g.t(">", g.id())
		g.args(depth)
	case 8:
		g.t(g.id(), ".", "new")
		if g.p(4) {
			g.t("<", g.id(), ",", g.id(), ">")
		}
		g.t(g.id())
		g.args(depth)
	case 9:
		switch g.r.IntN(4) {
		case 0:
			g.t("<")
			g.list(1, 2, func() { g.refType(0) })
			g.t(">", g.of("this", "foo"))
			g.args(depth)
		case 1:
			g.t("<", g.id(), ">", "super")
			if g.p(2) {
				g.t(".", g.id())
			}
			g.args(depth)
		case 2:
			g.t(g.id(), "[")
			g.expr(depth-1, 1)
			g.t("]")
		default:
			g.t(g.id(), ".", "super")
			g.args(depth)
		}
	default:
		g.t(g.id())
		for g.p(3) {
			g.t(".", g.id())
		}
		if g.p(3) {
			g.args(depth)
		}
	}
	for g.p(4) {
		switch g.r.IntN(7) {
		case 0:
			g.t("[")
			g.expr(depth-1, 1)
			g.t("]")
		case 1:
			g.t(".", g.id())
			g.args(depth)
		case 2:
			g.t(".", g.id())
		case 3:
			g.t(".", "this")
		case 4:
			g.t(".", "<", g.id(), ">", g.id())
			g.args(depth)
		case 5:
			g.t(".", "super", ".", g.id())
			if g.p(2) {
				g.args(depth)
			}
		case 6:
			g.t(".", "new")
			if g.p(3) {
				g.t("<", g.id(), ">")
			}
			g.t(g.id())
			g.args(depth)
		}
	}
	for g.p(9) {
		g.t(g.of("++", "--"))
	}
}

func (g *progGen) javaArrayInit(depth int) {
	g.t("{")
	g.list(0, 2, func() { g.javaInit(depth - 1) })
	if g.p(4) {
		g.t(",")
	}
	g.t("}")
}

func (g *progGen) javaInit(depth int) {
	if depth > 0 && g.p(5) {
		g.javaArrayInit(depth)
	} else {
		g.expr(depth, 1)
	}
}

func (g *progGen) javaVars(depth int) {
	g.typ(1)
	g.list(1, 2, func() {
		g.t(g.id())
		g.dims(6)
		if g.p(2) {
			g.t("=")
			g.javaInit(depth)
		}
	})
	g.t(";")
}

func (g *progGen) annot(depth int) {
	g.t("@", g.id())
	if g.p(4) {
		g.t(".", g.id())
	}
	switch g.r.IntN(4) {
	case 0:
		g.t("(")
		g.elemVal(depth)
		g.t(")")
	case 1:
		g.t("(")
		g.list(0, 2, func() {
			g.t(g.id(), "=")
			g.elemVal(depth)
		})
		g.t(")")
	}
}

func (g *progGen) elemVal(depth int) {
	switch {
	case depth > 0 && g.p(4):
		g.annot(depth - 1)
	case depth > 0 && g.p(4):
		g.t("{")
		g.list(0, 2, func() { g.elemVal(depth - 1) })
		if g.p(4) {
			g.t(",")
		}
		g.t("}")
	default:
		g.expr(min(depth, 1), 2)
	}
}

func (g *progGen) javaLocal(depth int) {
	if g.p(5) {
		g.t("final")
	} else if g.p(12) {
		g.t("@", g.id())
	}
	if depth > 0 && g.p(9) {
		if g.p(4) {
			g.t("abstract", "strictfp")
		}
		if g.p(2) {
			g.enum(depth - 1)
		} else {
			g.class(depth - 1)
		}
		return
	}
	g.javaVars(depth)
}

func (g *progGen) mods() {
	for g.p(2) {
		if g.p(6) {
			g.annot(1)
		} else {
			g.t(g.of("public", "protected", "private", "static", "abstract", "final", "native", "synchronized", "transient", "volatile", "strictfp"))
		}
	}
}

func (g *progGen) typeParams() {
	if g.p(4) {
		g.t("<")
		g.list(1, 2, func() {
			g.t(g.id())
			if g.p(3) {
				g.t("extends", g.id())
				if g.p(3) {
					g.t("&", g.id())
				}
			}
		})
		g.t(">")
	}
}

func (g *progGen) types(kw string) {
	if g.p(4) {
		g.t(kw)
		g.list(1, 2, func() { g.classType(1) })
	}
}

func (g *progGen) class(depth int) {
	g.t("class", g.id())
	g.typeParams()
	if g.p(3) {
		g.t("extends")
		g.classType(1)
	}
	g.types("implements")
	g.classBody(depth)
}

func (g *progGen) params() {
	g.t("(")
	n := g.r.IntN(4)
	for i := 0; i < n; i++ {
		if i > 0 {
			g.t(",")
		}
		g.finals()
		g.typ(1)
		if i == n-1 && g.p(5) {
			g.t("...")
		}
		g.t(g.id())
		g.dims(7)
	}
	g.t(")")
}

func (g *progGen) finals() {
	for g.p(5) {
		if g.p(2) {
			g.t("final")
		} else {
			g.annot(0)
		}
	}
}

func (g *progGen) javaType(depth int) {
	switch g.r.IntN(5) {
	case 0:
		g.t("interface", g.id())
		g.typeParams()
		g.types("extends")
		g.t("{")
		for n := g.r.IntN(4); n > 0 && depth > 0; n-- {
			g.ifaceMember(depth - 1)
		}
		g.t("}")
	case 1:
		g.enum(depth)
	case 2:
		g.t("@", "interface", g.id(), "{")
		for n := g.r.IntN(4); n > 0; n-- {
			switch g.r.IntN(3) {
			case 0:
				g.t(";")
			case 1:
				g.mods()
				g.typ(1)
				g.t(g.id(), "(", ")")
				if g.p(2) {
					g.t("default")
					g.elemVal(1)
				}
				g.t(";")
			case 2:
				g.mods()
				g.javaVars(1)
			}
		}
		g.t("}")
	default:
		g.class(depth)
	}
}

func (g *progGen) enum(depth int) {
	g.t("enum", g.id())
	g.types("implements")
	g.t("{")
	g.list(0, 3, func() {
		if g.p(8) {
			g.t("@", g.id())
		}
		g.t(g.id())
		if g.p(3) {
			g.args(2)
		}
		if g.p(6) && depth > 0 {
			g.classBody(depth - 1)
		}
	})
	if g.p(4) {
		g.t(",")
	}
	if g.p(2) {
		g.t(";")
		for n := g.r.IntN(3); n > 0 && depth > 0; n-- {
			g.member(depth - 1)
		}
	}
	g.t("}")
}

func (g *progGen) ifaceMember(depth int) {
	if g.p(6) {
		g.t(";")
		return
	}
	g.mods()
	switch g.r.IntN(6) {
	case 0:
		g.javaType(depth)
	case 1:
		g.typ(1)
		g.list(1, 2, func() {
			g.t(g.id())
			g.dims(5)
			g.t("=")
			g.javaInit(1)
		})
		g.t(";")
	case 2:
		g.t("void", g.id())
		g.params()
		g.types("throws")
		g.t(";")
	case 3:
		g.t("<", g.id(), ">")
		if g.p(2) {
			g.t("void")
		} else {
			g.typ(1)
		}
		g.t(g.id())
		g.params()
		g.t(";")
	default:
		g.typ(1)
		g.t(g.id())
		g.params()
		g.dims(6)
		g.types("throws")
		g.t(";")
	}
}

func (g *progGen) member(depth int) {
	switch g.r.IntN(9) {
	case 0:
		g.t(";")
		return
	case 1:
		if g.p(2) {
			g.t("static")
		}
		g.block(depth)
		return
	}
	g.mods()
	switch g.r.IntN(8) {
	case 0, 1:
		g.javaVars(depth)
	case 2:
		if depth > 0 {
			g.javaType(depth - 1)
		} else {
			g.t("int", g.id(), ";")
		}
	case 3:
		if g.p(3) {
			g.t("<", g.id(), ">")
		}
		g.t(g.id())
		g.params()
		g.types("throws")
		g.block(depth)
	case 4:
		if g.p(3) {
			g.t("<", g.id(), ">")
		}
		g.t("void", g.id())
		g.params()
		g.types("throws")
		g.body(depth)
	default:
		if g.p(5) {
			g.t("<", g.id(), ",", g.id(), "extends", g.id(), ">")
		}
		g.typ(1)
		g.t(g.id())
		g.params()
		g.dims(9)
		g.types("throws")
		g.body(depth)
	}
}

func (g *progGen) body(depth int) {
	if g.p(4) {
		g.t(";")
	} else {
		g.block(depth)
	}
}

func (g *progGen) classBody(depth int) {
	g.t("{")
	for n := g.r.IntN(4); n > 0 && depth > 0; n-- {
		g.member(depth - 1)
	}
	g.t("}")
}

func (g *progGen) javaProgram() {
	if g.p(3) {
		for g.p(5) {
			g.annot(0)
		}
		g.t("package", g.id())
		for g.p(2) {
			g.t(".", g.id())
		}
		g.t(";")
	}
	for g.p(3) {
		g.t("import")
		if g.p(4) {
			g.t("static")
		}
		g.t(g.id())
		for g.p(2) {
			g.t(".", g.id())
		}
		if g.p(3) {
			g.t(".", "*")
		}
		g.t(";")
	}
	for n := g.r.IntN(3); n >= 0; n-- {
		if g.p(8) {
			g.t(";")
			continue
		}
		g.mods()
		g.javaType(4)
	}
}

var (
	cKeywords    = strings.Fields("auto break case char const continue default double do else enum extern float for goto if int inline long register restrict return short signed sizeof static struct switch typedef union unsigned void volatile while _Bool _Complex _Imaginary _stdcall __declspec __attribute__")
	javaKeywords = strings.Fields("abstract assert boolean break byte case catch char const continue default double do else enum extends false finally final float for goto if implements import interface int instanceof long native null package private protected public return short static strictfp switch synchronized throws throw transient true try void volatile while")
	onceTokens   = wordSet(", : . -> ? = % <= >= == != ... += *= << >> ^ | case goto while if else switch struct union enum class interface extends implements throws import package new instanceof try catch for return finally throw default break continue assert")
	glueWords    = wordSet("struct union enum class interface package import extends implements throws instanceof")
)

func wordSet(s string) map[string]bool {
	m := map[string]bool{}
	for _, w := range strings.Fields(s) {
		m[w] = true
	}
	return m
}

// spoil makes a program into something that is none.
func (g *progGen) spoil(toks []string) ([]string, string) {
	for try := 0; try < 30; try++ {
		i := g.r.IntN(len(toks))
		t := toks[i]
		bracket := len(t) == 1 && strings.Contains("(){}[]", t)
		out := append([]string{}, toks[:i]...)
		switch g.r.IntN(10) {
		case 5:
			if d := t[0]; d >= '0' && d <= '9' || d == '\'' || d == '"' && g.java || d == '.' && len(t) > 1 && t != "..." {
				return append(append(out, t), toks[i:]...), "a program with a constant written twice"
			}
		case 6:
			if onceTokens[t] {
				return append(append(out, t), toks[i:]...), "a program with " + t + " written twice"
			}
		case 7:
			if i+2 < len(toks) && glueWords[t] && isNameByte(toks[i+1][0]) && (!strings.Contains("struct union enum", t) || toks[i+2] == "{") && !(t == "instanceof" && toks[i-1] == ")") {
				return append(append(out, t+toks[i+1]), toks[i+2:]...), "a program with " + t + " and a name run together"
			}
		case 8:
			if i > 0 && (toks[i-1] == "." || toks[i-1] == "->") && (isNameByte(t[0]) || t[0] == '$') {
				ks := cKeywords
				if g.java {
					ks = javaKeywords
				}
				k := ks[g.r.IntN(len(ks))]
				return append(append(out, k), toks[i+1:]...), "a program with " + k + " for a name"
			}
		case 9:
			if t[0] == '\'' {
				bad := []string{"''", "'\\q'", "'\\x'", "'\\8'"}
				if g.java {
					bad = append(bad, "'ab'", "'\\u12'", "'\\377\\0'", "'\\400'", "'\\8'", "'\\e9ab'", "'\\u123g'")
				}
				return append(append(out, g.of(bad...)), toks[i+1:]...), "a program with a bad character"
			}
			if t[0] == '"' && !strings.Contains(t, " ") {
				bad := []string{`"\q"`, `"\8"`, `"\x"`}
				if g.java {
					bad = append(bad, `"\x1"`, `"\a"`, `"\v"`, `"\?"`, `"\u00g0"`, `"\d800"`)
				} else {
					bad = append(bad, `"\xg"`, `"\u00g0"`, `"\s"`)
				}
				return append(append(out, g.of(bad...)), toks[i+1:]...), "a program with a bad string"
			}
			if t[0] >= '0' && t[0] <= '9' {
				bad := []string{"08", "0x", "0xg", "1e", "1e+", "0x1p", "1.2.3", "0b2", "1lll", "12ab"}
				if g.java {
					bad = append(bad, "1_", "0x_1", "1u", "0b", "1_.5", "1ll")
				} else {
					bad = append(bad, "1_0", "1lul", "1uu", "1d", "1fl")
				}
				return append(append(out, g.of(bad...)+" "), toks[i+1:]...), "a program with a bad number"
			}
		case 0:
			if bracket {
				return append(out, toks[i+1:]...), "a program with a bracket taken away"
			}
		case 1:
			if bracket {
				return append(append(out, t), toks[i:]...), "a program with a bracket written twice"
			}
		case 2:
			if bracket {
				u := map[string]string{"(": "[", ")": "]", "[": "{", "]": "}", "{": "(", "}": ")"}[t]
				return append(append(out, u), toks[i+1:]...), "a program with a bracket of another kind"
			}
		case 3:
			if !g.p(8) {
				continue
			}
			return append(append(out, "`"), toks[i:]...), "a program with a stray character"
		case 4:
			if i > 0 && (strings.Contains("([,=+-/%^", toks[i-1]) || toks[i-1] == "return" || toks[i-1] == "&&") {
				return append(append(out, "%"), toks[i:]...), "a program with an operand left out"
			}
		}
	}
	return append(append([]string{}, toks...), "}"), "a program with a bracket too many"
}

func (g *progGen) flat() []string {
	var out []string
	for _, t := range g.toks {
		if t == "" {
			continue
		}
		if wordTok(t) && (t[0] == '"' || t[0] == '\'') || strings.HasPrefix(t, "L\"") {
			out = append(out, t)
			continue
		}
		out = append(out, strings.Fields(t)...)
	}
	return out
}

func c30Program(c *C, java bool) {
	g := &progGen{r: c.R, java: java}
	names := []string{"c"}
	if java {
		g.javaProgram()
		names = []string{"java", "java_memo"}
	} else {
		g.cProgram()
	}
	toks := g.flat()
	if len(toks) == 0 || len(toks) > 1500 {
		return
	}
	t := g.join(toks)
	if g.p(12) {
		t += "// the end"
	}
	c.Nontrivial(t)
	c.Max("largest program", len(t))
	for _, n := range names {
		bundledExpect(c, n, t, true, "a program")
	}
	if strings.Contains(t, "__attribute__") {
		return // anything can be in one
	}
	bad, why := g.spoil(toks)
	c.Event("spoilt: "+strings.Join(strings.Fields(why)[3:], " "), 1)
	t = g.join(bad)
	for _, n := range names {
		bundledExpect(c, n, t, false, why)
	}
}

// c30Same compares the two forms of a grammar on arbitrary edits of programs.
func c30Same(c *C) {
	var t string
	a, b := "java", "java_memo"
	if c.R.IntN(3) == 0 {
		a, b = "json", "json_memo"
		t = mangle(c.R, jsonDoc(c.R, 5), jsonPieces, c.R.IntN(4))
	} else {
		g := &progGen{r: c.R, java: true}
		g.javaProgram()
		toks := g.flat()
		if len(toks) > 800 {
			return
		}
		t = g.join(toks)
		var ts []string
		for _, x := range toks {
			ts = append(ts, x, " "+x+" ")
		}
		ts = append(ts, "class", "/*", "*/", "//", "\"", "'", "...", "@")
		t = mangle(c.R, t, ts, c.R.IntN(3))
	}
	c.Nontrivial(t)
	o1, ok1 := bundledRun(c, a, t, false)
	if !ok1 {
		return
	}
	for _, table := range []bool{false, true} {
		o2, ok2 := bundledRun(c, b, t, table)
		if !ok2 {
			continue
		}
		if o1.Match != o2.Match || o1.Match && o1.End != o2.End {
			c.Fail("grammars/%s.peg and grammars/%s.peg (with a table: %v) say different things\ntext: %q\n%s: match %v end %d\n%s: match %v end %d", a, b, table, clip(t, 6000), a, o1.Match, o1.End, b, o2.Match, o2.End)
		}
		c.Event("parses of both forms of a grammar", 1)
	}
}

// c30Files parses the grammars with the grammars.
func c30Files(c *C) {
	fs, _ := filepath.Glob(repoDir + "/grammars/*.peg")
	if len(fs) == 0 {
		c.Fail("no grammars")
	}
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		c.Nontrivial(f)
		code := bundled(c, "re")
		o := execCode(code, bytes.NewReader(b), memo.NoneTable{}, 1<<40)
		c.Eval()
		if !o.Match || o.End != len(b) {
			c.Fail("grammars/re.peg refuses %s, which re.Compile takes: match %v end %d of %d", f, o.Match, o.End, len(b))
		}
		c.Event("grammars parsed with a grammar", 1)
	}
}

func init() {
	register(&Prop{
		ID:   "C30",
		Rule: "an execution parses one text with one of the grammars in /repo/grammars and compares the verdict with an independent recogniser, with how the text was made, or with the other form of the grammar; distinct non-trivial ones are distinct texts",
		Assume: []string{
			"C99 without a preprocessor and Java 7, of ASCII identifiers, where a typedef name in parentheses is not followed by a brace",
			"programs are made to be well-formed, or spoilt by brackets, stray characters and missing operands; other ill-formed programs are not judged, except that both forms of a grammar must agree",
			"parses of more than 3 million steps are given up on and counted",
		},
		Families: []Family{
			{Name: "files", Quick: 1, Thorough: 1, Batch: 1, CPU: 200, Run: c30Files},
			{Name: "json", Quick: 80000, Thorough: 2000000, Batch: 500, Run: c30JSON},
			{Name: "arith", Quick: 10000, Thorough: 400000, Batch: 500, Run: c30Arith},
			{Name: "notations", Quick: 15000, Thorough: 600000, Batch: 500, Run: c30Notation},
			{Name: "lpeg", Quick: 10000, Thorough: 400000, Batch: 500, Run: c30LPeg},
			{Name: "c", Quick: 24000, Thorough: 300000, Batch: 200, Run: func(c *C) { c30Program(c, false) }},
			{Name: "java", Quick: 24000, Thorough: 300000, Batch: 200, Run: func(c *C) { c30Program(c, true) }},
			{Name: "forms", Quick: 8000, Thorough: 300000, Batch: 200, Run: c30Same},
		},
		Need: []string{"json: texts accepted", "json: texts refused", "json_memo: texts accepted", "arith: texts accepted", "arith: texts refused", "re: texts accepted", "re: texts refused", "peg: texts accepted", "peg: texts refused", "lpeg: texts accepted", "lpeg: texts refused", "c: texts accepted", "c: texts refused", "java: texts accepted", "java: texts refused", "java_memo: texts accepted", "parses of both forms of a grammar"},
	})
}
