package main

import (
	"bytes"
	"fmt"
	"io"
	"math/rand/v2"
	"regexp"
	"regexp/syntax"
	"strings"
	"sync"
	"sync/atomic"
	"testing/iotest"

	"github.com/zyedidia/gpeg/input"
	"github.com/zyedidia/gpeg/input/linerope"
	"github.com/zyedidia/gpeg/memo"
	"github.com/zyedidia/gpeg/pattern"
	"github.com/zyedidia/gpeg/re"
	"github.com/zyedidia/gpeg/rxconv"
	"github.com/zyedidia/gpeg/vm"
)

// execPlain runs code without the step hook, which is not for parallel use.
func execPlain(code *vm.Code, r io.ReaderAt, tbl memo.Table) Outcome {
	m, end, root, errs := code.Exec(r, tbl)
	return convert(m, end, root, errs)
}

// together runs fn in n goroutines that start at the same time and returns the
// first message of one that reports a violation. Panics are reported likewise.
func together(n int, fn func(w int) string) string {
	var wg sync.WaitGroup
	msgs := make([]string, n)
	start := make(chan struct{})
	for w := 0; w < n; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					msgs[w] = fmt.Sprintf("panic: %v", r)
				}
			}()
			<-start
			msgs[w] = fn(w)
		}()
	}
	close(start)
	wg.Wait()
	for _, m := range msgs {
		if m != "" {
			return m
		}
	}
	return ""
}

func c19Spec(c *C) (*Gen, *Spec) {
	w := fullWeights(c)
	w[KMemo] = 4
	g := newGen(c.R, w)
	if c.R.IntN(2) == 0 {
		return g, g.grammar(1+c.R.IntN(4), 4+c.R.IntN(16))
	}
	return g, g.pattern(4 + c.R.IntN(14))
}

// c19Shared runs one program from many goroutines.
func c19Shared(c *C) {
	g, s := c19Spec(c)
	if !wellFormed(s) {
		return
	}
	b := &Builder{R: c.R}
	prog, err := pattern.Compile(b.Build(s))
	if err != nil {
		c.Fail("a well-formed pattern does not compile: %v\npattern: %s", err, s)
	}
	enc := vm.Encode(prog)
	code := &enc
	if c.R.IntN(3) == 0 {
		if data, err := code.ToBytes(); err == nil {
			if l, err := vm.FromBytes(data); err == nil {
				code = &l
			}
		}
	}
	var ins [][]byte
	for _, in := range g.inputs(s, 0, 8, 60) {
		if c.R.IntN(4) == 0 {
			in = append(in, bytes.Repeat([]byte(string(g.Alpha)), c.R.IntN(400))...)
		}
		if _, steps, ok := interpret(s, in, 20000); !ok || steps > 20000 {
			continue
		}
		ins = append(ins, in)
	}
	if len(ins) == 0 {
		return
	}
	nontrivialSpec(c, s, "")
	c.Note("pattern %s", clip(s.String(), 3000))
	workers := 2 + c.R.IntN(6)
	seeds := make([]uint64, workers)
	for i := range seeds {
		seeds[i] = c.R.Uint64()
	}
	// The runs in parallel are, in most cases, the first of the program, so
	// that a run alone has left nothing behind in it. What they are compared
	// with comes from another encoding of the same program.
	var want, wantTbl []Outcome
	alone := func(code *vm.Code) {
		want, wantTbl = nil, nil
		for _, in := range ins {
			want = append(want, execPlain(code, bytes.NewReader(in), memo.NoneTable{}))
			wantTbl = append(wantTbl, execPlain(code, bytes.NewReader(in), memo.NewTreeTable(0)))
		}
	}
	if c.R.IntN(4) == 0 {
		alone(code)
	} else {
		c.Event("first run in parallel", 1)
	}
	type done struct {
		k   int
		own bool
		got Outcome
	}
	all := make([][]done, workers)
	var runs atomic.Int64
	var inside, most atomic.Int64
	msg := together(workers, func(w int) string {
		r := rand.New(rand.NewPCG(seeds[w], 1))
		for i := 0; i < 6; i++ {
			k := r.IntN(len(ins))
			var tbl memo.Table = memo.NoneTable{}
			own := r.IntN(2) == 0
			if own {
				tbl = memo.NewTreeTable(0)
			}
			if n := inside.Add(1); n > most.Load() {
				most.Store(n)
			}
			got := execPlain(code, bytes.NewReader(ins[k]), tbl)
			inside.Add(-1)
			runs.Add(1)
			all[w] = append(all[w], done{k, own, got})
		}
		return ""
	})
	if msg != "" {
		c.Fail("%s", msg)
	}
	other := vm.Encode(prog)
	alone(&other)
	for w := range all {
		for i := range all[w] {
			x := &all[w][i]
			a := &want[x.k]
			if x.own {
				a = &wantTbl[x.k]
			}
			if d := diffOutcome(a, &x.got); d != "" {
				c.Fail("%s differs when the program is run by %d goroutines\npattern: %s\ninput: %s\nalone: %s\nin parallel: %s", d, workers, clip(s.String(), 2000), quote(ins[x.k]), clip(a.String(), 1000), clip(x.got.String(), 1000))
			}
		}
	}
	c.st.Evaluations += runs.Load()
	c.Event("parallel runs of shared programs", int(runs.Load()))
	c.Max("goroutines inside one program", int(most.Load()))
	c.Sample("%d goroutines run %s", workers, s)
}

// c19Text lets many goroutines read one text that nobody edits, and the tree
// that one parse of it has returned.
func c19Text(c *C) {
	g, s := c19Spec(c)
	if !wellFormed(s) {
		return
	}
	code := mustCompile(c, s, &Builder{R: c.R})
	var in []byte
	for _, x := range g.inputs(s, 0, 4, 60) {
		if c.R.IntN(3) == 0 {
			x = append(x, bytes.Repeat([]byte(string(g.Alpha)), c.R.IntN(3000))...)
		}
		if _, steps, ok := interpret(s, x, 20000); ok && steps <= 20000 && len(x) >= len(in) {
			in = x
		}
	}
	if len(in) == 0 {
		return
	}
	lines := c.R.IntN(3) == 0
	if lines {
		// a text of lines, for the line bookkeeping
		in = bytes.Clone(in)
		for i := range in {
			if c.R.IntN(6) == 0 {
				in[i] = '\n'
			}
		}
		if _, steps, ok := interpret(s, in, 20000); !ok || steps > 20000 {
			return
		}
	}
	var src io.ReaderAt
	var rope *linerope.Node
	kind := c.R.IntN(4)
	switch kind {
	case 0:
		src = input.FromReader(iotest.OneByteReader(bytes.NewReader(in)))
	case 1:
		src = input.FromReader(bytes.NewReader(in))
	default:
		opts := linerope.Options{SplitLen: 1 + c.R.IntN(40), JoinLen: c.R.IntN(40), RebalanceRatio: 1.2, LineSep: []byte("\n")}
		// put together by edits
		k := c.R.IntN(len(in) + 1)
		rope = linerope.NewWithOpts(bytes.Clone(in[:k]), opts)
		for k < len(in) {
			n := min(len(in)-k, 1+c.R.IntN(1+len(in)/3))
			rope.Insert(k, bytes.Clone(in[k:k+n]))
			k += n
		}
		if c.R.IntN(2) == 0 {
			k = c.R.IntN(len(in) + 1)
			rope.Insert(k, []byte("abc"))
			rope.Remove(k, k+3)
		}
		src = rope
	}
	nontrivialSpec(c, s, "")
	c.Note("pattern %s", clip(s.String(), 3000))
	c.Note("text %s", quote(in))

	// one tree for all to read
	var tbl memo.Table = memo.NoneTable{}
	if c.R.IntN(2) == 0 {
		tbl = memo.NewTreeTable(0)
	}
	match, _, root, _ := code.Exec(bytes.NewReader(in), tbl)
	if !match {
		root = nil
	}

	workers := 2 + c.R.IntN(6)
	seeds := make([]uint64, workers)
	for i := range seeds {
		seeds[i] = c.R.Uint64()
	}
	outs := make([][]Outcome, workers)
	trees := make([]string, workers)
	var reads atomic.Int64
	msg := together(workers, func(w int) string {
		r := rand.New(rand.NewPCG(seeds[w], 3))
		if root != nil {
			switch r.IntN(2) {
			case 0:
				trees[w] = treeText(root)
			case 1:
				_ = root.String()
				trees[w] = treeText(root)
			}
		}
		for i := 0; i < 4; i++ {
			reads.Add(1)
			op := r.IntN(8)
			if rope == nil && op > 3 {
				op = r.IntN(4)
			}
			lo := r.IntN(len(in) + 1)
			hi := lo + r.IntN(len(in)+1-lo)
			switch op {
			case 0, 1:
				var t memo.Table = memo.NoneTable{}
				if r.IntN(2) == 0 {
					t = memo.NewTreeTable(0)
				}
				outs[w] = append(outs[w], execPlain(code, src, t))
			case 2, 3:
				buf := make([]byte, hi-lo)
				n, err := src.ReadAt(buf, int64(lo))
				if n != len(buf) || err != nil && (err != io.EOF || hi < len(in)) {
					return fmt.Sprintf("ReadAt(%d bytes, %d) gives %d, %v while others read the same text of %d bytes", len(buf), lo, n, err, len(in))
				}
				if !bytes.Equal(buf, in[lo:hi]) {
					return fmt.Sprintf("ReadAt(%d bytes, %d) reads %s, not %s, while others read the same text", len(buf), lo, quote(buf), quote(in[lo:hi]))
				}
			case 4:
				if lo < len(in) && rope.At(lo) != in[lo] {
					return fmt.Sprintf("At(%d) is wrong while others read the same text", lo)
				}
				if rope.Len() != len(in) {
					return fmt.Sprintf("Len is %d, not %d, while others read the same text", rope.Len(), len(in))
				}
			case 5:
				if !bytes.Equal(rope.Value(), in) {
					return "Value is wrong while others read the same text"
				}
			case 6:
				var b bytes.Buffer
				if _, err := rope.WriteTo(&b); err != nil || !bytes.Equal(b.Bytes(), in) {
					return "WriteTo writes another text while others read the same one"
				}
			case 7:
				line, col := bytes.Count(in[:lo], []byte("\n")), lo-1-bytes.LastIndexByte(in[:lo], '\n')
				if l, k := rope.LineColAt(lo); l != line || k != col {
					return fmt.Sprintf("LineColAt(%d) is %d, %d, not %d, %d, while others read the same text", lo, l, k, line, col)
				}
				if o := rope.OffsetAt(line, col); o != lo {
					return fmt.Sprintf("OffsetAt(%d, %d) is %d, not %d, while others read the same text", line, col, o, lo)
				}
				if rope.NumLines() != bytes.Count(in, []byte("\n")) {
					return "NumLines is wrong while others read the same text"
				}
			}
		}
		return ""
	})
	if msg != "" {
		c.Fail("%s\npattern: %s\ntext: %s", msg, clip(s.String(), 2000), quote(in))
	}
	want := execPlain(code, bytes.NewReader(in), memo.NoneTable{})
	for w := range outs {
		for i := range outs[w] {
			if d := diffOutcome(&want, &outs[w][i]); d != "" {
				c.Fail("%s differs when %d goroutines parse one text\npattern: %s\ninput: %s\nalone: %s\nin parallel: %s", d, workers, clip(s.String(), 2000), quote(in), clip(want.String(), 1000), clip(outs[w][i].String(), 1000))
			}
		}
		if root != nil && trees[w] != treeText(root) {
			c.Fail("a tree reads differently when %d goroutines read it\npattern: %s\ninput: %s\nalone: %s\nin parallel: %s", workers, clip(s.String(), 2000), quote(in), clip(treeText(root), 1000), clip(trees[w], 1000))
		}
	}
	c.st.Evaluations += reads.Load()
	c.Event("reads of one text in parallel", int(reads.Load()))
	if root != nil && root.NumChildren() > 0 {
		c.Event("trees read in parallel", 1)
	}
	c.Sample("%d goroutines read %s", workers, quote(in))
}

// treeText reads everything that a tree says about itself.
func treeText(x *memo.Capture) string {
	var b strings.Builder
	var walk func(x *memo.Capture)
	walk = func(x *memo.Capture) {
		n := x.NumChildren()
		fmt.Fprintf(&b, "(%d %d %d %d %d %v", x.Id(), x.Start(), x.Len(), x.End(), n, x.Dummy())
		if n > 0 {
			last := x.Child(n - 1)
			fmt.Fprintf(&b, " last %d %d", last.Id(), last.Start())
		}
		it := x.ChildIterator(0)
		for ch := it(); ch != nil; ch = it() {
			walk(ch)
		}
		b.WriteByte(')')
	}
	walk(x)
	return b.String()
}

// c19Compile compiles independent things at the same time.
func c19Compile(c *C) {
	workers := 2 + c.R.IntN(6)
	// What is first made in parallel finds nothing that an earlier turn alone
	// has left behind, such as a filled cache; the other order has its turn
	// as well.
	aloneFirst := c.R.IntN(3) == 0
	type task struct {
		kind  string
		name  string
		make  func() (pattern.Pattern, error)
		ins   [][]byte
		got   [2][]Outcome // in parallel
		spec  *Spec
		gotOK int
	}
	tasks := make([][]*task, workers)
	for w := range tasks {
		for k := 0; k < 3; k++ {
			t := &task{}
			seed := c.R.Uint64()
			switch c.R.IntN(4) {
			case 0:
				g, s := c19Spec(c)
				t.kind, t.name, t.spec = "pattern", s.String(), s
				t.make = func() (pattern.Pattern, error) {
					b := &Builder{R: rand.New(rand.NewPCG(seed, 2))}
					return b.Build(s), nil
				}
				t.ins = g.inputs(s, 0, 4, 40)
			case 1, 2:
				g, s := c16Spec(c)
				p := &pegPrinter{r: c.R}
				text := p.text(s)
				t.kind, t.name, t.spec = "PEG text", text, s
				if c.R.IntN(2) == 0 {
					t.make = func() (pattern.Pattern, error) { return re.CompileCap(text, map[string]int{}) }
				} else {
					t.make = func() (pattern.Pattern, error) { return re.Compile(text) }
				}
				t.ins = g.inputs(s, 0, 4, 40)
			case 3:
				g := &rxGen{r: c.R, alpha: "ab", forks: 3, loops: 2, size: 6}
				n := g.node(3)
				t.kind, t.name = "regexp", n.text
				if _, err := regexp.Compile(n.text); err != nil {
					continue
				}
				if _, err := rxconv.FromRegexp(n.text, syntax.Perl); err != nil {
					continue
				}
				t.make = func() (pattern.Pattern, error) { return rxconv.FromRegexp(n.text, syntax.Perl) }
				for i := 0; i < 3; i++ {
					x := asciiOnly(n.gen())
					t.ins = append(t.ins, []byte(x[:min(len(x), 10)]))
				}
			}
			if t.spec != nil {
				// leave out what takes long
				var keep [][]byte
				for _, in := range t.ins {
					if _, steps, ok := interpret(t.spec, in, 20000); ok && steps <= 20000 {
						keep = append(keep, in)
					}
				}
				t.ins = keep
			}
			tasks[w] = append(tasks[w], t)
			c.Nontrivial(t.name)
			c.Event("compiled in parallel: "+t.kind, 1)
		}
	}
	var runs atomic.Int64
	do := func(t *task, out *[2][]Outcome) string {
		p, err := t.make()
		if err != nil {
			return fmt.Sprintf("%s %s is refused: %v", t.kind, clip(t.name, 2000), err)
		}
		code, err := compileSpec(p)
		if err != nil {
			return fmt.Sprintf("%s %s does not compile: %v", t.kind, clip(t.name, 2000), err)
		}
		for _, in := range t.ins {
			for k, tbl := range []memo.Table{memo.NoneTable{}, memo.NewTreeTable(0)} {
				o := execPlain(code, bytes.NewReader(in), tbl)
				runs.Add(1)
				if t.kind == "PEG text" {
					// ids of automatic captures are given out in any order
					o.Caps = zeroIds(o.Caps)
				}
				out[k] = append(out[k], o)
			}
		}
		return ""
	}
	want := map[*task]*[2][]Outcome{}
	alone := func() {
		for w := range tasks {
			for _, t := range tasks[w] {
				want[t] = new([2][]Outcome)
				if msg := do(t, want[t]); msg != "" {
					c.Fail("%s", msg)
				}
			}
		}
	}
	if aloneFirst {
		alone()
	} else {
		c.Event("first made in parallel", 1)
	}
	msg := together(workers, func(w int) string {
		for _, t := range tasks[w] {
			if msg := do(t, &t.got); msg != "" {
				return msg + " (when others are compiled at the same time)"
			}
		}
		return ""
	})
	if msg != "" {
		c.Fail("%s", msg)
	}
	if !aloneFirst {
		alone()
	}
	for w := range tasks {
		for _, t := range tasks[w] {
			for k := range t.got {
				for i, in := range t.ins {
					a, got := &want[t][k][i], &t.got[k][i]
					if d := diffOutcome(a, got); d != "" {
						c.Fail("%s differs when others are compiled at the same time\n%s: %s\ninput: %s\nalone: %s\nin parallel: %s", d, t.kind, clip(t.name, 2000), quote(in), clip(a.String(), 1000), clip(got.String(), 1000))
					}
				}
			}
		}
	}
	c.st.Evaluations += runs.Load()
	c.Sample("%d goroutines compile and run 3 things each", workers)
}

func zeroIds(cs []*Cap) []*Cap {
	var out []*Cap
	for _, k := range cs {
		out = append(out, &Cap{0, k.Start, k.Len, zeroIds(k.Kids)})
	}
	return out
}

func init() {
	register(&Prop{
		ID:   "C19",
		Race: true,
		Rule: "an execution is one parse in one of several goroutines that share a program or compile at the same time, under the race detector, compared with the same parse alone; distinct non-trivial ones differ in pattern",
		Assume: []string{
			"checkers have no state of their own (a back-reference has, and is not run in parallel)",
			"each goroutine builds its own patterns",
		},
		Families: []Family{
			{Name: "shared", Quick: 4000, Thorough: 120000, Batch: 100, CPU: 120, Run: c19Shared},
			{Name: "text", Quick: 3000, Thorough: 90000, Batch: 100, CPU: 120, Run: c19Text},
			{Name: "compile", Quick: 3000, Thorough: 90000, Batch: 40, CPU: 120, Run: c19Compile},
		},
		Need: []string{"parallel runs of shared programs", "first run in parallel", "reads of one text in parallel", "trees read in parallel", "compiled in parallel: pattern", "compiled in parallel: PEG text", "compiled in parallel: regexp", "first made in parallel"},
	})
}
