package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"os"
	"strings"
	"sync"

	"github.com/zyedidia/gpeg/input"
	"github.com/zyedidia/gpeg/input/linerope"
	"github.com/zyedidia/gpeg/memo"
	"github.com/zyedidia/gpeg/vm"
)

// fragReader delivers data in pieces of its own choosing, as io.Reader allows.
type fragReader struct {
	r      *rand.Rand
	data   []byte
	mode   int // 0 one byte, 1 random, 2 whole, 3 halves
	dataEO bool
	zeros  bool
	fail   error // returned at the end, nil means io.EOF
	again  bool  // keeps returning the error (or ends with EOF)
	pos    int
	reads  int
}

func (f *fragReader) end() error {
	if f.fail != nil {
		return f.fail
	}
	return io.EOF
}

func (f *fragReader) Read(p []byte) (int, error) {
	f.reads++
	if len(p) == 0 {
		return 0, nil
	}
	if f.pos == len(f.data) {
		return 0, f.end()
	}
	if f.zeros && f.r.IntN(3) == 0 {
		return 0, nil
	}
	n := len(p)
	switch f.mode {
	case 0:
		n = 1
	case 1:
		n = 1 + f.r.IntN(min(len(p), 1+f.r.IntN(6000)))
	case 3:
		n = (len(p) + 1) / 2
	}
	n = min(n, len(p), len(f.data)-f.pos)
	copy(p, f.data[f.pos:f.pos+n])
	f.pos += n
	if f.dataEO && f.pos == len(f.data) {
		return n, f.end()
	}
	return n, nil
}

func newFrag(r *rand.Rand, data []byte) *fragReader {
	return &fragReader{
		r:      rand.New(rand.NewPCG(r.Uint64(), r.Uint64())),
		data:   data,
		mode:   r.IntN(4),
		dataEO: r.IntN(2) == 0,
		zeros:  r.IntN(3) == 0,
	}
}

// oddReaderAt implements io.ReaderAt with all the liberties it has: EOF early
// or late when a request ends at the end, and scribbling on the rest of p.
type oddReaderAt struct {
	data  []byte
	eager bool
	dirty bool
	wrap  bool
	mu    sync.Mutex
	reads int
	short int
}

var errWrapped = fmt.Errorf("no more data: %w", io.EOF)

func (o *oddReaderAt) ReadAt(p []byte, off int64) (int, error) {
	o.mu.Lock()
	o.reads++
	o.mu.Unlock()
	if off < 0 {
		return 0, errors.New("negative offset")
	}
	n := 0
	if off < int64(len(o.data)) {
		n = copy(p, o.data[off:])
	}
	if o.dirty {
		for i := n; i < len(p); i++ {
			p[i] = "ab(x1\n"[i%6]
		}
	}
	if n < len(p) || (o.eager && off+int64(n) == int64(len(o.data))) {
		if n < len(p) {
			o.mu.Lock()
			o.short++
			o.mu.Unlock()
		}
		if o.wrap {
			return n, errWrapped
		}
		return n, io.EOF
	}
	return n, nil
}

func smallRope(r *rand.Rand, data []byte, edits bool) *linerope.Node {
	opts := linerope.Options{
		SplitLen:       1 + r.IntN(64),
		JoinLen:        r.IntN(64),
		RebalanceRatio: 1 + r.Float64(),
		LineSep:        []byte{'\n'},
	}
	if len(data) > 2000 {
		opts.SplitLen += 100 * r.IntN(40)
		opts.JoinLen += 20 * r.IntN(40)
		opts.SplitLen = max(opts.SplitLen, len(data)/400)
	}
	cp := append([]byte{}, data...)
	if !edits {
		return linerope.NewWithOpts(cp, opts)
	}
	// reach the text through edits
	cut := r.IntN(len(data) + 1)
	n := linerope.NewWithOpts(cp[:cut:cut], opts)
	n.Insert(n.Len(), append([]byte{}, data[cut:]...))
	for i := 0; i < 3; i++ {
		p := r.IntN(n.Len() + 1)
		n.Insert(p, []byte("garbage"))
		n.Remove(p, p+7)
	}
	if r.IntN(2) == 0 {
		a, b := n.SplitAt(r.IntN(n.Len() + 1))
		n = linerope.Join(a, b)
	}
	switch r.IntN(3) {
	case 0:
		n.Rebuild()
	case 1:
		n.Rebalance()
	}
	return n
}

type supply struct {
	name string
	open func(r *rand.Rand, data []byte) (io.ReaderAt, func())
}

func nothing() {}

var supplies = []supply{
	{"bytes.Reader", func(r *rand.Rand, d []byte) (io.ReaderAt, func()) { return bytes.NewReader(d), nothing }},
	{"strings.Reader", func(r *rand.Rand, d []byte) (io.ReaderAt, func()) { return strings.NewReader(string(d)), nothing }},
	{"section", func(r *rand.Rand, d []byte) (io.ReaderAt, func()) {
		k := r.IntN(100)
		b := append(bytes.Repeat([]byte("a"), k), d...)
		b = append(b, bytes.Repeat([]byte("b"), r.IntN(100))...)
		return io.NewSectionReader(bytes.NewReader(b), int64(k), int64(len(d))), nothing
	}},
	{"file", func(r *rand.Rand, d []byte) (io.ReaderAt, func()) {
		f, err := os.CreateTemp("", "c12")
		if err != nil {
			panic(err)
		}
		f.Write(d)
		return f, func() { f.Close(); os.Remove(f.Name()) }
	}},
	{"rope", func(r *rand.Rand, d []byte) (io.ReaderAt, func()) { return smallRope(r, d, false), nothing }},
	{"edited rope", func(r *rand.Rand, d []byte) (io.ReaderAt, func()) { return smallRope(r, d, true), nothing }},
	{"stream", func(r *rand.Rand, d []byte) (io.ReaderAt, func()) { return input.FromReader(newFrag(r, d)), nothing }},
	{"EOF with the last byte", func(r *rand.Rand, d []byte) (io.ReaderAt, func()) {
		return &oddReaderAt{data: d, eager: true, wrap: r.IntN(2) == 0}, nothing
	}},
	{"EOF after the last byte", func(r *rand.Rand, d []byte) (io.ReaderAt, func()) {
		return &oddReaderAt{data: d, wrap: r.IntN(2) == 0}, nothing
	}},
	{"scratch-using", func(r *rand.Rand, d []byte) (io.ReaderAt, func()) {
		return &oddReaderAt{data: d, dirty: true, eager: r.IntN(2) == 0}, nothing
	}},
}

func shiftCaps(cs []*Cap, by int) []*Cap {
	var out []*Cap
	for _, c := range cs {
		out = append(out, &Cap{c.Id, c.Start + by, c.Len, shiftCaps(c.Kids, by)})
	}
	return out
}

func shiftOutcome(o Outcome, by int) Outcome {
	r := Outcome{Match: o.Match}
	if o.Match {
		r.End = o.End + by
		r.Caps = shiftCaps(o.Caps, by)
	}
	for _, e := range o.Errs {
		r.Errs = append(r.Errs, PErr{e.Msg, e.Pos + by})
	}
	for _, k := range o.Calls {
		k.Pos += by
		r.Calls = append(r.Calls, k)
	}
	return r
}

func diffOutcome(a, b *Outcome) string {
	switch {
	case a.Match != b.Match:
		return "match result"
	case a.Match && a.End != b.End:
		return "end position"
	case a.Match && !capsEqual(a.Caps, b.Caps):
		return "captures"
	case !sameErrs(a.Errs, b.Errs):
		return "errors"
	case !sameCalls(a.Calls, b.Calls):
		return "checker calls"
	}
	return ""
}

func c12Spec(c *C, size int) (*Gen, *Spec) {
	w := baseWeights()
	w[KCap] = 3
	w[KCheck] = 2
	w[KEmptyOp] = 2
	w[KError] = 1
	w[KMemo] = 2
	w[KSearch] = 1
	w[KRepeat] = 1
	g := newGen(c.R, w)
	g.Alpha = []byte("ab")
	if c.R.IntN(4) == 0 {
		return g, g.grammar(1+c.R.IntN(3), size)
	}
	return g, g.pattern(size)
}

func runOn(code *vm.Code, b *Builder, r io.ReaderAt, memoized bool, budget int64) Outcome {
	b.resetRefs()
	*b.callLog = nil
	var tbl memo.Table = memo.NoneTable{}
	if memoized {
		tbl = memo.NewTreeTable(0)
	}
	o := execCode(code, r, tbl, budget)
	o.Calls = append([]CheckCall{}, *b.callLog...)
	return o
}

// c12Readers parses the same bytes from many readers.
func c12Readers(c *C) {
	g, s := c12Spec(c, 3+c.R.IntN(14))
	if !wellFormed(s) {
		return
	}
	var log []CheckCall
	b := &Builder{R: c.R, callLog: &log}
	code := mustCompile(c, s, b)
	nontrivialSpec(c, s, "")
	memoized := c.R.IntN(2) == 0
	for _, in := range g.inputs(s, 0, 5, 60) {
		if c.R.IntN(3) == 0 {
			in = append(in, bytes.Repeat([]byte("ab"), c.R.IntN(4200))...)
		}
		_, steps, ok := interpret(s, in, 400000)
		if !ok {
			continue
		}
		budget := budgetFor(steps)
		c.ClearNotes()
		c.Note("pattern %s input %s", clip(s.String(), 3000), quote(in))
		want := runOn(code, b, bytes.NewReader(in), memoized, budget)
		c.Event("distinct inputs", 1)
		for _, sup := range supplies {
			r, done := sup.open(c.R, in)
			got := runOn(code, b, r, memoized, budget)
			done()
			c.Eval()
			c.Event("reader:"+sup.name, 1)
			if d := diffOutcome(&want, &got); d != "" {
				c.Fail("%s depends on the reader (%s)\npattern: %s\ninput: %s\nfrom bytes: %s\nfrom %s: %s", d, sup.name, clip(s.String(), 3000), quote(in), clip(want.String(), 1500), sup.name, clip(got.String(), 1500))
			}
		}
	}
	c.Sample("%s from %d kinds of readers", s, len(supplies))
}

// c12Big parses long texts from many readers.
func c12Big(c *C) {
	s, in := bigSpec(c.R, bigSize(c.R, 300000))
	var log []CheckCall
	b := &Builder{R: c.R, callLog: &log}
	code := mustCompile(c, s, b)
	nontrivialSpec(c, s, fmt.Sprint(len(in)))
	c.Max("bytes of the longest text", len(in))
	for _, in := range bigInputs(c.R, in)[c.R.IntN(2):] {
		_, steps, ok := interpret(s, in, 8000000)
		if !ok {
			continue
		}
		c.ClearNotes()
		c.Note("pattern %s input %s", clip(s.String(), 3000), quote(in))
		want := runOn(code, b, bytes.NewReader(in), false, budgetFor(steps))
		for k := 0; k < 3; k++ {
			sup := supplies[1+c.R.IntN(len(supplies)-1)]
			r, done := sup.open(c.R, in)
			got := runOn(code, b, r, false, budgetFor(steps))
			done()
			c.Eval()
			c.Event("reader:"+sup.name, 1)
			if d := diffOutcome(&want, &got); d != "" {
				c.Fail("%s depends on the reader (%s)\npattern: %s\ninput: %s\nfrom bytes: %s\nfrom %s: %s", d, sup.name, clip(s.String(), 3000), quote(in), clip(want.String(), 1500), sup.name, clip(got.String(), 1500))
			}
		}
	}
}

// c12Shift moves a construct to every place relative to buffer boundaries and
// compares with the same construct near the beginning of the text.
func c12Shift(c *C) {
	g, s := c12Spec(c, 3+c.R.IntN(12))
	if !wellFormed(s) {
		return
	}
	filler := byte('x')
	fill := class(setOf(filler))
	kind := c.R.IntN(6)
	tailMany := c.R.IntN(4) == 0
	mk := func(pad int) *Spec {
		var prefix *Spec
		switch kind {
		case 0:
			prefix = un(KStar, fill)
		case 1:
			prefix = un(KPlus, seq(un(KNot, lit("zz")), fill))
		case 2:
			prefix = seq()
			for rest := pad; rest > 0; {
				n := min(rest, 200)
				prefix.Kids = append(prefix.Kids, anyN(n))
				rest -= n
			}
		case 3:
			prefix = lit(strings.Repeat(string(filler), pad))
		case 4:
			prefix = un(KStar, lit(string(filler)))
		case 5:
			prefix = seq(un(KAnd, seq(un(KStar, fill), anyN(1))), un(KStar, fill))
		}
		body := s
		if tailMany {
			body = seq(s, un(KStar, anyN(3)), un(KOpt, anyN(2)))
		}
		return seq(prefix, alt(seq(body, un(KNot, anyN(1))), seq(s, empty()), un(KStar, class(setOf('a', 'b')))))
	}
	if kind == 0 || kind == 1 || kind == 4 || kind == 5 {
		// the construct must not see more filler
		g.Alpha = []byte("ab")
	}
	if !wellFormed(mk(3)) {
		return
	}
	mids := g.inputs(s, 0, 3, 40)
	nontrivialSpec(c, s, fmt.Sprint(kind))
	small := 2 + c.R.IntN(3)
	perPad := kind == 2 || kind == 3
	var log []CheckCall
	compile := func(pad int) (*vm.Code, *Builder) {
		b := &Builder{callLog: &log}
		return mustCompile(c, mk(pad), b), b
	}
	base, bb := compile(small)
	for _, mid := range mids {
		if bytes.IndexByte(mid, filler) == 0 {
			continue
		}
		in0 := append(bytes.Repeat([]byte{filler}, small), mid...)
		_, steps, ok := interpret(mk(small), in0, 100000)
		if !ok {
			continue
		}
		budget := budgetFor(steps+180000) * 4
		want := runOn(base, bb, bytes.NewReader(in0), false, budget)
		n := 3
		if !perPad {
			n = 8
		}
		for i := 0; i < n; i++ {
			k := 1 + c.R.IntN(2)
			if i == 2 && c.R.IntN(3) == 0 {
				k = []int{4, 5, 8, 16, 17, 32, 40}[c.R.IntN(7)]
			}
			pad := 4096*k - c.R.IntN(len(mid)+3) + c.R.IntN(2)
			if i == 0 {
				pad = 4096*k - len(mid)
				if pad < 10 {
					continue
				}
			}
			code, b := base, bb
			if perPad {
				code, b = compile(pad)
			}
			in := append(bytes.Repeat([]byte{filler}, pad), mid...)
			c.ClearNotes()
			c.Note("pattern %s with %d bytes before %s", clip(mk(small).String(), 2000), pad, quote(mid))
			sup := supplies[c.R.IntN(len(supplies))]
			r, done := sup.open(c.R, in)
			got := runOn(code, b, r, false, budget)
			done()
			c.Eval()
			c.Event("constructs moved across a buffer boundary", 1)
			got = shiftOutcome(got, small-pad)
			if d := diffOutcome(&want, &got); d != "" {
				c.Fail("%s depends on where the text lies relative to the input buffer\npattern: %s\ntext: %s\nafter %d bytes: %s\nafter %d bytes (%s), shifted back: %s", d, clip(mk(small).String(), 3000), quote(mid), small, clip(want.String(), 1500), pad, sup.name, clip(got.String(), 1500))
			}
		}
	}
	c.Sample("%s after 4096k±j bytes of filler (prefix kind %d)", s, kind)
}

// c12Cursor compares random sequences of cursor operations with an index.
func c12Cursor(c *C) {
	n := []int{0, 1, 2, 7, 100, 4095, 4096, 4097, 8191, 8192, 8193, 9000, 12288, 13001}[c.R.IntN(14)]
	if c.R.IntN(30) == 0 {
		n = bigSize(c.R, 300000)
	}
	data := make([]byte, n)
	for i := range data {
		data[i] = byte(c.R.IntN(256))
	}
	sup := supplies[c.R.IntN(len(supplies))]
	r, done := sup.open(c.R, data)
	defer done()
	in := input.NewInput(r)
	pos := 0
	c.ClearNotes()
	c.Note("%d bytes from %s", n, sup.name)
	c.Nontrivial(fmt.Sprint(c.Idx), sup.name)
	place := func() int {
		switch c.R.IntN(5) {
		case 0:
			return max(0, n+c.R.IntN(5)-2)
		case 1:
			return max(0, 4096*c.R.IntN(4+n/8192)+c.R.IntN(5)-2)
		case 2:
			return max(0, pos+c.R.IntN(9)-4)
		default:
			return c.R.IntN(n + 20)
		}
	}
	// the furthest byte that answers depended on, and that was asked for;
	// bytes beyond the end count as far as the first one
	need, asked := 0, 0
	ask := func(p int) {
		need, asked = max(need, min(p, n)), max(asked, p)
	}
	// text handed out stays as it is while the cursor moves on
	type handed struct {
		lo, hi    int
		got, want []byte
	}
	var kept []handed
	defer func() {
		for _, h := range kept {
			if !bytes.Equal(h.got, h.want) {
				c.Fail("the slice [%d,%d) of %d bytes turned into %s after the cursor moved on, want %s", h.lo, h.hi, n, quote(h.got), quote(h.want))
			}
		}
		c.Event("slices looked at again", len(kept))
	}()
	for op := 0; op < 120; op++ {
		c.Eval()
		if f := in.Furthest(); f < need || f > asked {
			c.Fail("Furthest is %d after answers that depend on bytes up to %d of %d (asked for: %d)", f, need, n, asked)
		}
		if c.R.IntN(20) == 0 {
			in.ResetFurthest()
			need, asked = 0, 0
			c.Note("ResetFurthest")
			c.Event("op:reset furthest", 1)
		}
		if in.Pos() != pos {
			c.Fail("Pos is %d, want %d", in.Pos(), pos)
		}
		switch c.R.IntN(8) {
		case 0, 1:
			b, ok := in.Peek()
			c.Note("Peek at %d", pos)
			ask(pos)
			if ok != (pos < n) || (ok && b != data[pos]) {
				c.Fail("Peek at %d of %d bytes is (%d, %v)", pos, n, b, ok)
			}
			c.Event("op:peek", 1)
		case 2:
			b, ok := in.PeekBefore()
			c.Note("PeekBefore at %d", pos)
			if ok != (pos > 0 && pos <= n) || (ok && b != data[pos-1]) {
				c.Fail("PeekBefore at %d of %d bytes is (%d, %v)", pos, n, b, ok)
			}
			c.Event("op:look-behind", 1)
		case 3, 4:
			k := 1
			switch c.R.IntN(5) {
			case 0:
				k = 0
			case 1:
				k = c.R.IntN(256)
			case 2:
				k = c.R.IntN(10000 + n/4)
			case 3:
				k = max(0, place()-pos)
			}
			ok := in.Advance(k)
			c.Note("Advance(%d) at %d", k, pos)
			if k > 0 {
				ask(pos + k - 1)
			}
			if want := k == 0 || pos+k <= n; ok != want {
				c.Fail("Advance(%d) at %d of %d bytes is %v", k, pos, n, ok)
			}
			c.Event("op:advance", 1)
			if ok {
				pos += k
			} else {
				pos = place()
				in.SeekTo(pos)
				c.Event("failed advances", 1)
			}
		case 5, 6:
			pos = place()
			ok := in.SeekTo(pos)
			c.Note("SeekTo(%d)", pos)
			if ok != (pos < n) {
				c.Fail("SeekTo(%d) of %d bytes is %v", pos, n, ok)
			}
			c.Event("op:seek", 1)
		case 7:
			lo := place()
			hi := lo + c.R.IntN(100)
			if c.R.IntN(5) == 0 {
				hi = lo + c.R.IntN(6000+n/4)
			}
			c.Note("read [%d,%d)", lo, hi)
			if lo < hi {
				ask(hi - 1)
			} else {
				asked = max(asked, hi-1)
			}
			var want []byte
			if lo < n {
				want = data[lo:min(hi, n)]
			}
			var got []byte
			if c.R.IntN(2) == 0 {
				got = in.Slice(lo, hi)
				c.Event("op:slice", 1)
				kept = append(kept, handed{lo, hi, got, want})
			} else {
				buf := make([]byte, hi-lo)
				k, err := in.ReadAt(buf, int64(lo))
				if k < len(buf) && err == nil {
					c.Fail("ReadAt of [%d,%d) from %d bytes gives %d bytes and no error", lo, hi, n, k)
				}
				got = buf[:k]
				c.Event("op:readat", 1)
			}
			if !bytes.Equal(got, want) {
				c.Fail("reading [%d,%d) of %d bytes gives %s, want %s", lo, hi, n, quote(got), quote(want))
			}
		}
	}
	c.Sample("120 cursor operations on %d bytes from %s", n, sup.name)
}

func init() {
	register(&Prop{
		ID:   "C12",
		Rule: "an execution is the parse of one byte string from one reader, or one cursor operation, compared with the same parse from memory, the same parse near the start of the text, or an index; distinct non-trivial ones differ in pattern or input",
		Assume: []string{
			"readers keep to the io.ReaderAt contract: a read that returns fewer bytes than asked for comes with an error and happens only at the end",
			"after Advance fails the position is unspecified until the next seek",
		},
		Families: []Family{
			{Name: "readers", Quick: 6500, Thorough: 190000, Batch: 100, Run: c12Readers},
			{Name: "big", Quick: 120, Thorough: 3600, Batch: 3, CPU: 120, Run: c12Big},
			{Name: "boundaries", Quick: 5200, Thorough: 150000, Batch: 60, Run: c12Shift},
			{Name: "cursor", Quick: 15000, Thorough: 450000, Batch: 500, Run: c12Cursor},
		},
		Need: []string{"constructs moved across a buffer boundary", "reader:stream", "reader:edited rope", "reader:scratch-using", "failed advances", "slices looked at again", "op:look-behind"},
	})
}
