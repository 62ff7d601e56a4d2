package main

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp/syntax"
	"strconv"
	"strings"

	"github.com/zyedidia/gpeg/charset"
	"github.com/zyedidia/gpeg/isa"
	"github.com/zyedidia/gpeg/memo"
	"github.com/zyedidia/gpeg/pattern"
	"github.com/zyedidia/gpeg/re"
	"github.com/zyedidia/gpeg/rxconv"
)

// The listing of a program is read back and executed by the small machine
// below, which knows nothing of the encoding and nothing of the machine of
// the repository.

type lstInsn struct {
	op   string
	b    byte
	set  *ByteSet
	n    int
	id   int
	lbl  int // index of the instruction branched to
	name string
	msg  string
	eop  syntax.EmptyOp
	line string
}

type listing struct {
	code []lstInsn
}

func unquoteByte(s string) (byte, string, error) {
	if len(s) < 3 || s[0] != '\'' {
		return 0, "", errors.New("character expected")
	}
	r, _, tail, err := strconv.UnquoteChar(s[1:], '\'')
	if err != nil {
		return 0, "", err
	}
	if r > 255 {
		return 0, "", errors.New("character is no byte")
	}
	if len(tail) == 0 || tail[0] != '\'' {
		return 0, "", errors.New("character is not closed")
	}
	return byte(r), tail[1:], nil
}

// parseSet reads the printed form of a set.
func parseSet(s string) (*ByteSet, string, error) {
	set := &ByteSet{}
	if !strings.HasPrefix(s, "{") {
		return nil, "", errors.New("set expected")
	}
	s = s[1:]
	last := -1
	for first := true; ; first = false {
		if strings.HasPrefix(s, "}") && first {
			return set, s[1:], nil
		}
		if !first {
			if strings.HasPrefix(s, "}") {
				return set, s[1:], nil
			}
			if !strings.HasPrefix(s, ",") {
				return nil, "", errors.New("comma expected in a set")
			}
			s = s[1:]
		}
		lo, t, err := unquoteByte(s)
		if err != nil {
			return nil, "", err
		}
		hi := lo
		if strings.HasPrefix(t, "..") {
			if hi, t, err = unquoteByte(t[2:]); err != nil {
				return nil, "", err
			}
		}
		if hi < lo || int(lo) <= last {
			return nil, "", errors.New("members of a set are not in order")
		}
		last = int(hi)
		for b := int(lo); b <= int(hi); b++ {
			set[b] = true
		}
		s = t
	}
}

var lstEmpty = map[string]syntax.EmptyOp{
	"BeginLine": syntax.EmptyBeginLine, "EndLine": syntax.EmptyEndLine,
	"BeginText": syntax.EmptyBeginText, "EndText": syntax.EmptyEndText,
	"WordBoundary": syntax.EmptyWordBoundary, "NoWordBoundary": syntax.EmptyNoWordBoundary,
}

// operands of each instruction: c character, s set, n number, i id, l label,
// m message, e assertion, r result
var lstOps = map[string]string{
	"Char": "c", "Jump": "l", "Choice": "l", "Call": "l", "Commit": "l", "Return": "", "Fail": "",
	"Set": "s", "Any": "n", "PartialCommit": "l", "Span": "s", "BackCommit": "l", "FailTwice": "",
	"TestChar": "cl", "TestCharNoChoice": "cl", "TestSet": "sl", "TestSetNoChoice": "sl", "TestAny": "nl",
	"End": "r", "MemoOpen": "li", "MemoClose": "", "MemoTreeOpen": "li", "MemoTreeInsert": "", "MemoTree": "",
	"MemoTreeClose": "i", "Capture begin": "i", "Capture late": "ni", "Capture end": "", "Capture full": "ni",
	"Error": "m", "Empty": "e",
}

func parseInsn(l string) (in lstInsn, err error) {
	in = lstInsn{line: l, lbl: -1}
	op, rest, _ := strings.Cut(l, " ")
	if op == "Capture" {
		var sub string
		sub, rest, _ = strings.Cut(rest, " ")
		op += " " + sub
	}
	form, ok := lstOps[op]
	if !ok {
		return in, fmt.Errorf("unknown instruction %q", l)
	}
	in.op = op
	number := func() (int, error) {
		i := 0
		for i < len(rest) && rest[i] != ' ' {
			i++
		}
		n, err := strconv.Atoi(rest[:i])
		rest = rest[i:]
		return n, err
	}
	for k, f := range form {
		if k > 0 {
			if !strings.HasPrefix(rest, " ") {
				return in, fmt.Errorf("operand %d missing in %q", k, l)
			}
			rest = rest[1:]
		}
		switch f {
		case 'c':
			in.b, rest, err = unquoteByte(rest)
		case 's':
			in.set, rest, err = parseSet(rest)
		case 'n':
			in.n, err = number()
		case 'i':
			in.id, err = number()
		case 'l':
			i := 0
			for i < len(rest) && rest[i] != ' ' {
				i++
			}
			in.name, rest = rest[:i], rest[i:]
		case 'm':
			in.msg, err = strconv.Unquote(rest)
			rest = ""
		case 'e':
			if in.eop, ok = lstEmpty[rest]; !ok {
				err = errors.New("unknown assertion")
			}
			rest = ""
		case 'r':
			switch rest {
			case "Success":
			case "Fail":
				in.op = "End Fail"
			default:
				err = errors.New("unknown result")
			}
			rest = ""
		}
		if err != nil {
			return in, fmt.Errorf("%q: %v", l, err)
		}
	}
	if rest != "" {
		return in, fmt.Errorf("%q: %q left over", l, rest)
	}
	return in, nil
}

// parseListing reads the listing of a program.
func parseListing(text string) (*listing, error) {
	labels := map[string]int{}
	var ls listing
	for _, line := range strings.Split(text, "\n") {
		head, insn, has := strings.Cut(line, "\t")
		for head != "" {
			name, rest, ok := strings.Cut(head, ":")
			if !ok || len(name) < 2 || name[0] != 'L' {
				return nil, fmt.Errorf("label expected in line %q", line)
			}
			if _, dup := labels[name]; dup {
				return nil, fmt.Errorf("label %s stands twice", name)
			}
			labels[name] = len(ls.code)
			head = rest
		}
		if !has {
			continue
		}
		in, err := parseInsn(insn)
		if err != nil {
			return nil, err
		}
		ls.code = append(ls.code, in)
	}
	for i := range ls.code {
		in := &ls.code[i]
		if in.name == "" {
			continue
		}
		t, ok := labels[in.name]
		if !ok {
			return nil, fmt.Errorf("%q branches to a place that is not in the listing", in.line)
		}
		in.lbl = t
	}
	return &ls, nil
}

type lstEntry struct {
	choice bool
	memo   bool
	id     int
	ip     int
	pos    int
	nev    int
}

type lstEvent struct {
	kind byte // ( ) =
	id   int
	pos  int
	n    int
}

// lstMemo is what a run recorded between MemoOpen and MemoClose.
type lstMemo struct {
	ok  bool
	end int
	ev  []lstEvent
}

var errListing = errors.New("the listing took too many steps")

// run executes the listing on in; with a table, it skips what was recorded.
func (ls *listing) run(in []byte, limit int, tbl map[[2]int]lstMemo) (o Outcome, err error) {
	var st []lstEntry
	var ev []lstEvent
	ip, pos := 0, 0
	peek := func(b byte) bool { return pos < len(in) && in[pos] == b }
	has := func(s *ByteSet) bool { return pos < len(in) && s[in[pos]] }
	for ; ; limit-- {
		if limit == 0 {
			return o, errListing
		}
		if ip == len(ls.code) { // a listing may end without an end
			o.Match, o.End = true, pos
			o.Caps, err = capsOf(ev)
			return o, err
		}
		i := &ls.code[ip]
		ip++
		fail := false
		switch i.op {
		case "Char":
			if peek(i.b) {
				pos++
			} else {
				fail = true
			}
		case "Set":
			if has(i.set) {
				pos++
			} else {
				fail = true
			}
		case "Any":
			if len(in)-pos >= i.n {
				pos += i.n
			} else {
				fail = true
			}
		case "Span":
			for has(i.set) {
				pos++
			}
		case "Jump":
			ip = i.lbl
		case "Choice":
			st = append(st, lstEntry{choice: true, ip: i.lbl, pos: pos, nev: len(ev)})
		case "Call":
			st = append(st, lstEntry{ip: ip})
			ip = i.lbl
		case "Return":
			if len(st) == 0 || st[len(st)-1].choice || st[len(st)-1].memo {
				return o, errors.New("return without a call")
			}
			ip = st[len(st)-1].ip
			st = st[:len(st)-1]
		case "Commit", "PartialCommit", "BackCommit", "FailTwice":
			if len(st) == 0 || !st[len(st)-1].choice {
				return o, fmt.Errorf("%s without a choice", i.op)
			}
			e := &st[len(st)-1]
			switch i.op {
			case "PartialCommit":
				e.pos, e.nev = pos, len(ev)
			case "BackCommit":
				pos = e.pos
				st = st[:len(st)-1]
			case "FailTwice":
				st = st[:len(st)-1]
				fail = true
			default:
				st = st[:len(st)-1]
			}
			if i.op != "FailTwice" {
				ip = i.lbl
			}
		case "Fail":
			fail = true
		case "MemoOpen":
			if tbl == nil {
				break
			}
			if m, ok := tbl[[2]int{i.id, pos}]; !ok {
				st = append(st, lstEntry{memo: true, id: i.id, pos: pos, nev: len(ev)})
			} else if m.ok {
				pos, ip = m.end, i.lbl
				ev = append(ev, m.ev...)
				o.Calls = append(o.Calls, CheckCall{}) // counts what was skipped
			} else {
				fail = true
			}
		case "MemoClose":
			if tbl == nil {
				break
			}
			if len(st) == 0 || !st[len(st)-1].memo {
				return o, errors.New("MemoClose without MemoOpen")
			}
			e := st[len(st)-1]
			st = st[:len(st)-1]
			tbl[[2]int{e.id, e.pos}] = lstMemo{true, pos, append([]lstEvent{}, ev[e.nev:]...)}
		case "TestChar", "TestSet", "TestAny", "TestCharNoChoice", "TestSetNoChoice":
			n := 1
			var ok bool
			switch i.op {
			case "TestChar", "TestCharNoChoice":
				ok = peek(i.b)
			case "TestSet", "TestSetNoChoice":
				ok = has(i.set)
			default:
				n = i.n
				ok = len(in)-pos >= n
			}
			if ok {
				if !strings.HasSuffix(i.op, "NoChoice") {
					st = append(st, lstEntry{choice: true, ip: i.lbl, pos: pos, nev: len(ev)})
				}
				pos += n
			} else {
				ip = i.lbl
			}
		case "Empty":
			a, b := rune(-1), rune(-1)
			if pos > 0 {
				a = rune(in[pos-1])
			}
			if pos < len(in) {
				b = rune(in[pos])
			}
			fail = syntax.EmptyOpContext(a, b)&i.eop == 0
		case "Capture begin":
			ev = append(ev, lstEvent{'(', i.id, pos, 0})
		case "Capture late":
			ev = append(ev, lstEvent{'(', i.id, pos - i.n, 0})
		case "Capture end":
			ev = append(ev, lstEvent{')', 0, pos, 0})
		case "Capture full":
			ev = append(ev, lstEvent{'=', i.id, pos - i.n, i.n})
		case "Error":
			o.Errs = append(o.Errs, PErr{i.msg, pos})
		case "End", "End Fail":
			if i.op == "End" {
				o.Match, o.End = true, pos
				o.Caps, err = capsOf(ev)
			}
			return o, err
		}
		if !fail {
			continue
		}
		for len(st) > 0 && !st[len(st)-1].choice {
			if e := st[len(st)-1]; e.memo {
				tbl[[2]int{e.id, e.pos}] = lstMemo{}
			}
			st = st[:len(st)-1]
		}
		if len(st) == 0 {
			return o, nil
		}
		e := st[len(st)-1]
		st = st[:len(st)-1]
		ip, pos, ev = e.ip, e.pos, ev[:e.nev]
	}
}

func capsOf(ev []lstEvent) ([]*Cap, error) {
	root := &Cap{}
	open := []*Cap{root}
	for _, e := range ev {
		top := open[len(open)-1]
		switch e.kind {
		case '(':
			k := &Cap{Id: e.id, Start: e.pos}
			top.Kids = append(top.Kids, k)
			open = append(open, k)
		case ')':
			if len(open) == 1 {
				return nil, errors.New("capture ends that did not begin")
			}
			top.Len = e.pos - top.Start
			open = open[:len(open)-1]
		case '=':
			top.Kids = append(top.Kids, &Cap{Id: e.id, Start: e.pos, Len: e.n})
		}
	}
	if len(open) != 1 {
		return nil, errors.New("capture begins that does not end")
	}
	return root.Kids, nil
}

// listed reads a listing and compares what it does with the model.
func c28Listed(c *C, s *Spec, text string, ins [][]byte, what string) {
	ls, err := parseListing(text)
	if err != nil {
		c.Fail("the listing of a program (%s) cannot be read: %v\npattern: %s\nlisting:\n%s", what, err, clip(s.String(), 3000), clip(text, 4000))
	}
	for _, in := range ls.code {
		c.Event("listed: "+in.op, 1)
	}
	for _, in := range ins {
		want, steps, ok := interpret(s, in, 200000)
		if !ok {
			continue
		}
		c.Eval()
		got, err := ls.run(in, steps*300+200000, nil)
		d := allSame(&want, &got)
		if err != nil {
			d = err.Error()
		}
		if d != "" {
			c.Fail("the listing of a program (%s) says something else than the pattern: %s\npattern: %s\ninput: %s\npattern means: %s\nlisting means: %s\nlisting:\n%s", what, d,
				clip(s.String(), 3000), quote(in), clip(want.String(), 1500), clip(got.String(), 1500), clip(text, 4000))
		}
		if want.Match {
			c.Event("listings that match", 1)
		}
		if !s.has(KMemo) || s.has(KError) {
			continue
		}
		// skipping from MemoOpen to its label must come to the same
		tbl := map[[2]int]lstMemo{}
		for k := 0; k < 2; k++ {
			got, err := ls.run(in, steps*300+200000, tbl)
			c.Event("recorded parts skipped", len(got.Calls))
			got.Calls = nil
			d := allSame(&want, &got)
			if err != nil {
				d = err.Error()
			}
			if d != "" {
				c.Fail("with parts skipped from MemoOpen to its label, the listing of a program (%s) says something else than the pattern: %s\npattern: %s\ninput: %s\npattern means: %s\nlisting means: %s\nlisting:\n%s", what, d,
					clip(s.String(), 3000), quote(in), clip(want.String(), 1500), clip(got.String(), 1500), clip(text, 4000))
			}
		}
	}
}

func c28Case(c *C) {
	w := genWeights(c)
	w[KCheck] = 0
	w[KCap], w[KMemo], w[KError] = 1+c.R.IntN(6), c.R.IntN(3), c.R.IntN(2)
	g := newGen(c.R, w)
	var s *Spec
	if c.R.IntN(2) == 0 {
		s = g.pattern(4 + c.R.IntN(20))
	} else {
		s = g.grammar(1+c.R.IntN(5), 8+c.R.IntN(25))
	}
	if s.has(KCheck) || !wellFormed(s) {
		return
	}
	c28Spec(c, s, g.inputs(s, shortLen(g)-1, 12, 60))
}

// c28Big lists large programs.
func c28Big(c *C) {
	// not the largest: printing takes quadratic time
	s, ins := bigProgramOf(c.R, "checks", []int{45, 110, 210, 330}[c.R.IntN(4)])
	c28Spec(c, s, ins)
}

func c28Spec(c *C, s *Spec, ins [][]byte) {
	nontrivialSpec(c, s, "")
	c.Sample("%s", clip(s.String(), 2000))
	c.ClearNotes()
	c.Note("pattern: %s", clip(s.String(), 3000))
	p := (&Builder{R: c.R}).Build(s)
	compile := func(passes int) isa.Program {
		var prog isa.Program
		var err error
		if passes == 1 {
			prog, err = pattern.Compile(p)
		} else {
			prog, err = p.Compile()
			for i := 0; err == nil && i < passes; i++ {
				pattern.Optimize(prog)
			}
		}
		if err != nil {
			c.Fail("a well-formed pattern was refused: %v\npattern: %s", err, clip(s.String(), 3000))
		}
		return prog
	}
	for k := 0; k < 2; k++ {
		passes := 1
		if k == 1 {
			passes = c.R.IntN(3)
		}
		prog := compile(passes)
		text := prog.String()
		if again := fmt.Sprint(prog); again != text {
			c.Fail("a program printed twice gives different listings\npattern: %s", clip(s.String(), 3000))
		}
		ls, err := parseListing(text)
		if err == nil && len(ls.code) != prog.Size() {
			c.Fail("Size is %d, but the listing has %d instructions\npattern: %s\nlisting:\n%s", prog.Size(), len(ls.code), clip(s.String(), 3000), clip(text, 4000))
		}
		c28Listed(c, s, text, ins, fmt.Sprintf("%d passes", passes))
	}
}

// c28Sets reads the printed forms of single instructions back.
func c28Sets(c *C) {
	m := &ByteSet{}
	for k := c.R.IntN(6); k >= 0; k-- {
		lo := []int{0, 255, 254, c.R.IntN(256), c.R.IntN(256), 127, 39, 92}[c.R.IntN(8)]
		n := []int{0, 1, 2, c.R.IntN(20), c.R.IntN(256)}[c.R.IntN(5)]
		for b := lo; b <= lo+n && b < 256; b++ {
			m[b] = true
		}
	}
	if c.R.IntN(5) == 0 {
		m = m.complement()
	}
	set := charset.New(m.list())
	c.Nontrivial(fmt.Sprint(m.list()))
	lb := isa.NewLabel()
	for _, in := range []isa.Insn{isa.Set{Chars: set}, isa.Span{Chars: set}, isa.TestSet{Chars: set, Lbl: lb}, isa.TestSetNoChoice{Chars: set, Lbl: lb}} {
		text := fmt.Sprint(in)
		got, err := parseInsn(text)
		c.Eval()
		if err != nil || *got.set != *m {
			c.Fail("the set of the bytes %v is printed as %q (%v)", m.list(), text, err)
		}
	}
	b := byte(c.R.IntN(256))
	for _, in := range []isa.Insn{isa.Char{Byte: b}, isa.TestChar{Byte: b, Lbl: lb}, isa.TestCharNoChoice{Byte: b, Lbl: lb}} {
		text := fmt.Sprint(in)
		got, err := parseInsn(text)
		c.Eval()
		if err != nil || got.b != b {
			c.Fail("the byte %d is printed as %q (%v)", b, text, err)
		}
	}
	msg := make([]byte, c.R.IntN(9))
	for i := range msg {
		msg[i] = []byte("\n\"\\a\xff\x00\xc3\xa9:\t")[c.R.IntN(10)]
	}
	if got, err := parseInsn(fmt.Sprint(isa.Error{Message: string(msg)})); err != nil || got.msg != string(msg) {
		c.Fail("the message %q is printed as %v (%v)", msg, isa.Error{Message: string(msg)}, err)
	}
	c.Event("sets printed and read", 1)
}

// gpegCommand is the command of the repository, built by run.sh.
func gpegCommand() string {
	f := os.Getenv("VERIF_GPEG")
	if f == "" {
		panic("VERIF_GPEG is not set: the command was not built")
	}
	return f
}

func runGpeg(c *C, text string, flags ...string) (out, errout string, status int) {
	cmd := exec.Command(gpegCommand(), flags...)
	if c.R.IntN(2) == 0 {
		cmd.Stdin = strings.NewReader(text)
		c.Event("commands reading standard input", 1)
	} else {
		dir, err := os.MkdirTemp("", "c28")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(dir)
		f := filepath.Join(dir, []string{"g.peg", "with blank", "x"}[c.R.IntN(3)])
		if err := os.WriteFile(f, []byte(text), 0o600); err != nil {
			panic(err)
		}
		cmd.Args = append(cmd.Args, f)
		c.Event("commands reading a file", 1)
	}
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	err := cmd.Run()
	if err != nil {
		var ee *exec.ExitError
		if !errors.As(err, &ee) {
			panic(err)
		}
		status = ee.ExitCode()
	}
	return so.String(), se.String(), status
}

// c28Refused judges a command whose input must be refused.
func c28Refused(c *C, what, out, errout string, status int, why error) {
	c.Eval()
	c.Event("commands that refuse", 1)
	if strings.Contains(errout, "goroutine ") {
		c.Fail("the command crashed on %s, which should be refused (%v)\n%s", what, why, clip(errout, 2000))
	}
	if status == 0 || strings.TrimSpace(errout) == "" || strings.TrimSpace(out) != "" {
		c.Fail("the command was given %s, which should be refused (%v), and ended with status %d, output %s, message %s", what, why, status, clip(fmt.Sprintf("%q", out), 500), clip(fmt.Sprintf("%q", errout), 500))
	}
}

func c28Command(c *C) {
	switch c.R.IntN(5) {
	case 0: // any text
		text := c17Text(c)
		c.Note("grammar text: %s", clip(fmt.Sprintf("%q", text), 3000))
		p, err := re.Compile(text)
		if err == nil {
			_, err = pattern.Compile(p)
		}
		out, errout, status := runGpeg(c, text)
		what := clip(fmt.Sprintf("the text %q", text), 3000)
		c.Nontrivial(text)
		if err != nil {
			c28Refused(c, what, out, errout, status, err)
			return
		}
		c.Eval()
		if _, lerr := parseListing(out); status != 0 || lerr != nil {
			c.Fail("the command was given %s and ended with status %d (%v), output %s, message %s", what, status, lerr, clip(out, 2000), clip(errout, 500))
		}
	case 1: // a regular expression
		g := &rxGen{r: c.R, alpha: []string{"ab", "aB", "ab1", "a."}[c.R.IntN(4)], forks: 3, loops: 2, size: 4 + c.R.IntN(6)}
		n := g.node(2)
		rx := n.text
		if c.R.IntN(4) == 0 {
			k := c.R.IntN(len(rx) + 1)
			rx = rx[:k] + string("()[]*{\\"[c.R.IntN(7)]) + rx[k:]
		}
		c.Note("regexp: %q", rx)
		c.Nontrivial(rx)
		p, err := rxconv.FromRegexp(rx, syntax.Perl)
		out, errout, status := runGpeg(c, rx, "-regex")
		if err != nil {
			c28Refused(c, fmt.Sprintf("the regexp %q", rx), out, errout, status, err)
			return
		}
		ls, lerr := parseListing(out)
		if status != 0 || lerr != nil {
			c.Fail("the command was given the regexp %q and ended with status %d (%v), output %s, message %s", rx, status, lerr, clip(out, 2000), clip(errout, 500))
		}
		code, err := compileSpec(p)
		if err != nil {
			c.Fail("the conversion of %q does not compile: %v", rx, err)
		}
		for k := 0; k < 12; k++ {
			t := n.gen()
			if k%3 > 0 {
				t = string((&Gen{R: c.R, Alpha: []byte(g.alpha)}).mutate([]byte(t)))
			}
			if len(t) > 12 {
				t = t[:12]
			}
			vmSteps, vmBudget = 0, 3_000_000
			var want Outcome
			bad := try(func() {
				defer func() { vmBudget = 1 << 62 }()
				m, end, root, errs := code.Exec(strings.NewReader(t), memo.NoneTable{})
				want = convert(m, end, root, errs)
			})
			vmBudget = 1 << 62
			if bad != nil {
				continue
			}
			got, err := ls.run([]byte(t), 3_000_000, nil)
			c.Eval()
			if d := allSame(&want, &got); err != nil || d != "" {
				c.Fail("the listing of the regexp %q does something else on %q than its program: %s (%v)\nprogram: %s\nlisting: %s\n%s", rx, t, d, err, want.String(), got.String(), clip(out, 3000))
			}
		}
		c.Event("commands that list a regexp", 1)
	default: // a valid grammar
		g, s := c16Spec(c)
		if s.has(KCheck) || !wellFormed(s) {
			return
		}
		text := (&pegPrinter{r: c.R, plain: c.R.IntN(3) == 0}).text(s)
		c.Note("grammar text: %s", clip(fmt.Sprintf("%q", text), 3000))
		c.Nontrivial(text)
		out, errout, status := runGpeg(c, text)
		if status != 0 {
			c.Fail("the command refuses a valid grammar with status %d: %s\ntext: %q", status, clip(errout, 1000), clip(text, 3000))
		}
		// captures of grammar texts have no ids of their own
		var ins [][]byte
		for _, in := range g.inputs(s, shortLen(g)-1, 10, 40) {
			ins = append(ins, in)
		}
		ls, err := parseListing(out)
		if err != nil {
			c.Fail("the listing of a grammar cannot be read: %v\ntext: %q\nlisting:\n%s", err, clip(text, 3000), clip(out, 4000))
		}
		for _, in := range ins {
			want, steps, ok := interpret(s, in, 200000)
			if !ok {
				continue
			}
			c.Eval()
			got, err := ls.run(in, steps*300+200000, nil)
			if err != nil || want.Match != got.Match || want.Match && want.End != got.End {
				c.Fail("the listing of a grammar says something else than its text (%v)\ntext: %q\ninput: %s\ntext means: %s\nlisting means: %s\n%s", err, clip(text, 3000), quote(in), clip(want.String(), 500), clip(got.String(), 500), clip(out, 3000))
			}
		}
		c.Event("commands that list a grammar", 1)
	}
}

// c28Files gives the command files it cannot read, and the grammars of the
// repository.
func c28Files(c *C) {
	dir, err := os.MkdirTemp("", "c28")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	for _, f := range []string{filepath.Join(dir, "missing"), dir} {
		var so, se bytes.Buffer
		cmd := exec.Command(gpegCommand(), f)
		cmd.Stdout, cmd.Stderr = &so, &se
		status := 0
		if cmd.Run() != nil {
			status = cmd.ProcessState.ExitCode()
		}
		c28Refused(c, "a file that cannot be read", so.String(), se.String(), status, nil)
	}
	fs, _ := filepath.Glob(repoDir + "/grammars/*.peg")
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		p, err := re.Compile(string(b))
		if err == nil {
			_, err = pattern.Compile(p)
		}
		out, errout, status := runGpeg(c, string(b))
		if err != nil {
			c28Refused(c, f, out, errout, status, err)
			continue
		}
		c.Eval()
		ls, lerr := parseListing(out)
		if status != 0 || lerr != nil {
			c.Fail("the command was given %s and ended with status %d (%v), message %s", f, status, lerr, clip(errout, 500))
		}
		code, err := compileSpec(p)
		if err != nil {
			c.Fail("%s does not compile: %v", f, err)
		}
		for _, t := range []string{"", "1+2*(3-4)", "{\"a\": [1, 2, null]}", "a <- b*", "class A { int x = 3; }", "int f(int a) { return a + 1; }\n", "A <- 'a' / [b-z]+ B\nB <- \"x\"? !.\n", "[", "}"} {
			want := execCode(code, strings.NewReader(t), memo.NoneTable{}, 50_000_000)
			got, err := ls.run([]byte(t), 50_000_000, nil)
			c.Eval()
			if d := allSame(&want, &got); err != nil || d != "" {
				c.Fail("the listing of %s does something else on %q than its program: %s (%v)\nprogram: %s\nlisting: %s", f, t, d, err, clip(want.String(), 500), clip(got.String(), 500))
			}
		}
		c.Event("grammars of the repository listed", 1)
	}
}

func init() {
	register(&Prop{
		ID:   "C28",
		Rule: "an execution reads the printed listing of a program back and runs it, instruction by instruction, on one input with a small machine of its own; the result is compared with the meaning of the pattern; distinct non-trivial ones are distinct patterns of at least 3 nodes, texts and expressions",
		Assume: []string{
			"patterns without checkers (a listing shows a checker as Go prints it)",
			"assertions test one condition",
		},
		Families: []Family{
			{Name: "files", Quick: 1, Thorough: 1, Batch: 1, Run: c28Files},
			{Name: "command", Quick: 1600, Thorough: 40000, Batch: 50, Run: c28Command},
			{Name: "big", Quick: 48, Thorough: 1400, Batch: 2, CPU: 120, Run: c28Big},
			{Name: "sets", Quick: 40000, Thorough: 1200000, Batch: 400, Run: c28Sets},
			{Name: "listing", Quick: 24000, Thorough: 700000, Batch: 200, Run: c28Case},
		},
		Need: []string{"sets printed and read", "commands that refuse", "commands that list a grammar", "commands that list a regexp", "commands reading a file", "commands reading standard input", "grammars of the repository listed", "listings that match", "recorded parts skipped"},
	})
}
