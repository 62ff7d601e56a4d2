package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/zyedidia/gpeg/input/linerope"
)

// A ropeSim steps a few ropes and plain byte arrays through the same
// operations.
type ropeSim struct {
	c       *C
	opts    linerope.Options
	sep     string
	ropes   []*linerope.Node
	texts   [][]byte
	owned   [][]byte // slices the caller gave to the rope, to full capacity
	copies  [][]byte
	names   []string
	hist    []string
	alpha   []string
	maxLen  int
	tainted map[*linerope.Node]bool
	long    bool
}

func newRopeSim(c *C, sep string) *ropeSim {
	s := &ropeSim{c: c, sep: sep, tainted: map[*linerope.Node]bool{}}
	s.opts = linerope.Options{
		SplitLen:       1 + c.R.IntN(12),
		JoinLen:        c.R.IntN(12),
		RebalanceRatio: 0.8 + c.R.Float64()*2,
		LineSep:        []byte(sep),
	}
	s.maxLen = 200
	switch c.R.IntN(6) {
	case 0:
		s.opts.SplitLen = 1 + c.R.IntN(3)
	case 1:
		s.opts.SplitLen = 16 + c.R.IntN(100)
		s.opts.JoinLen = c.R.IntN(120)
		s.maxLen = 2000
	case 2:
		s.opts.JoinLen = s.opts.SplitLen * (1 + c.R.IntN(4))
	case 3:
		s.opts = linerope.DefaultOptions
		s.opts.LineSep = []byte(sep)
		s.maxLen = 60000
	}
	s.alpha = []string{"a", "b", "c", " ", sep, sep}
	for i := 0; i < len(sep); i++ {
		s.alpha = append(s.alpha, string(sep[i]))
	}
	return s
}

func (s *ropeSim) text(n int) []byte {
	var b []byte
	if s.long && n > 500 {
		// lines of very different lengths
		line := 1 + s.c.R.IntN(n)
		for len(b) < n {
			b = append(b, bytes.Repeat([]byte{"axy"[s.c.R.IntN(3)]}, 1+s.c.R.IntN(line))...)
			b = append(b, s.sep...)
			if s.c.R.IntN(4) == 0 {
				line = 1 + s.c.R.IntN(line)
			}
		}
		return b[:n]
	}
	if n > 500 {
		chunk := s.text(40 + s.c.R.IntN(100))
		if len(chunk) == 0 {
			chunk = []byte("x")
		}
		for len(b) < n {
			b = append(b, chunk...)
		}
		return b
	}
	for len(b) < n {
		b = append(b, s.alpha[s.c.R.IntN(len(s.alpha))]...)
	}
	return b
}

// lend returns a slice with the text in it and room behind it, and remembers
// what it must look like to the caller ever after.
func (s *ropeSim) lend(t []byte, name string) []byte {
	spare := s.c.R.IntN(2) * (1 + s.c.R.IntN(64))
	buf := make([]byte, len(t)+spare)
	copy(buf, t)
	for i := len(t); i < len(buf); i++ {
		buf[i] = 0xDD
	}
	s.owned = append(s.owned, buf)
	s.copies = append(s.copies, append([]byte{}, buf...))
	s.names = append(s.names, name)
	if len(s.owned) > 12 {
		s.owned, s.copies, s.names = append(s.owned[:1:1], s.owned[4:]...), append(s.copies[:1:1], s.copies[4:]...), append(s.names[:1:1], s.names[4:]...)
	}
	return buf[:len(t)]
}

func (s *ropeSim) log(format string, args ...any) {
	s.hist = append(s.hist, fmt.Sprintf(format, args...))
	s.c.ClearNotes()
	s.c.Note("%s", s.context())
}

func (s *ropeSim) context() string {
	h := s.hist
	pre := ""
	if len(h) > 40 {
		pre, h = "...", h[len(h)-40:]
	}
	return fmt.Sprintf("options SplitLen %d JoinLen %d RebalanceRatio %.2f LineSep %q\noperations: %s%s", s.opts.SplitLen, s.opts.JoinLen, s.opts.RebalanceRatio, s.sep, pre, strings.Join(h, "; "))
}

func (s *ropeSim) add() {
	t := s.text(s.c.R.IntN(s.maxLen + 1))
	if s.c.R.IntN(4) == 0 {
		t = s.text(s.c.R.IntN(8))
	}
	s.log("new(%s)", quote(t))
	s.ropes = append(s.ropes, linerope.NewWithOpts(s.lend(t, "the initial text"), s.opts))
	s.texts = append(s.texts, append([]byte{}, t...))
}

// step applies one operation to a rope and its model and returns which ropes
// it concerned.
func (s *ropeSim) step() []int {
	r := s.c.R
	if len(s.ropes) == 0 {
		s.add()
		return []int{0}
	}
	i := r.IntN(len(s.ropes))
	rope, t := s.ropes[i], s.texts[i]
	place := func() int {
		switch r.IntN(5) {
		case 0:
			return 0
		case 1:
			return len(t)
		case 2:
			// at a multiple of the leaf size
			return min(len(t), s.opts.SplitLen*r.IntN(1+len(t)/s.opts.SplitLen+1))
		}
		return r.IntN(len(t) + 1)
	}
	switch k := r.IntN(20); {
	case k < 7:
		if len(t) > 3*s.maxLen {
			return nil
		}
		n := r.IntN(6)
		switch r.IntN(5) {
		case 0:
			n = 0
		case 1:
			n = r.IntN(3*s.opts.SplitLen + 1)
		}
		pos, v := place(), s.text(n)
		s.log("#%d insert(%d, %s)", i, pos, quote(v))
		if r.IntN(3) == 0 {
			// the caller goes on to use its buffer for something else
			buf := append(make([]byte, 0, n+r.IntN(64)), v...)
			rope.Insert(pos, buf)
			buf = buf[:cap(buf)]
			for x := range buf {
				buf[x] ^= 0xff
			}
			s.c.Event("buffers written into after their text was inserted", 1)
		} else {
			rope.Insert(pos, s.lend(v, "inserted text"))
		}
		nt := append([]byte{}, t[:pos]...)
		nt = append(nt, v...)
		s.texts[i] = append(nt, t[pos:]...)
		s.c.Event("op:insert", 1)
	case k < 13:
		a, b := place(), place()
		if r.IntN(2) == 0 {
			b = min(len(t), a+r.IntN(5))
		}
		if a > b {
			a, b = b, a
		}
		s.log("#%d remove(%d, %d)", i, a, b)
		rope.Remove(a, b)
		nt := append([]byte{}, t[:a]...)
		s.texts[i] = append(nt, t[b:]...)
		s.c.Event("op:remove", 1)
	case k < 15:
		if len(s.ropes) >= 6 {
			return nil
		}
		pos := place()
		s.log("#%d split(%d) -> #%d #%d", i, pos, i, len(s.ropes))
		l, rr := rope.SplitAt(pos)
		if s.tainted[rope] {
			s.tainted[l], s.tainted[rr] = true, true
		}
		s.ropes[i], s.texts[i] = l, append([]byte{}, t[:pos]...)
		s.ropes, s.texts = append(s.ropes, rr), append(s.texts, append([]byte{}, t[pos:]...))
		s.c.Event("op:split", 1)
		return []int{i, len(s.ropes) - 1}
	case k < 17:
		if len(s.ropes) < 2 {
			s.add()
			return []int{len(s.ropes) - 1}
		}
		j := r.IntN(len(s.ropes) - 1)
		if j >= i {
			j++
		}
		m := -1
		if len(s.ropes) > 2 && r.IntN(3) == 0 {
			for m = r.IntN(len(s.ropes)); m == i || m == j; {
				m = r.IntN(len(s.ropes))
			}
		}
		nt := append(append([]byte{}, t...), s.texts[j]...)
		var n *linerope.Node
		if m >= 0 {
			nt = append(nt, s.texts[m]...)
			s.log("join(#%d, #%d, #%d)", i, j, m)
			n = linerope.Join(rope, s.ropes[j], s.ropes[m])
		} else {
			s.log("join(#%d, #%d)", i, j)
			n = linerope.Join(rope, s.ropes[j])
		}
		if s.tainted[rope] || s.tainted[s.ropes[j]] || (m >= 0 && s.tainted[s.ropes[m]]) {
			s.tainted[n] = true
		}
		var ropes []*linerope.Node
		var texts [][]byte
		for x := range s.ropes {
			if x != i && x != j && x != m {
				ropes, texts = append(ropes, s.ropes[x]), append(texts, s.texts[x])
			}
		}
		s.ropes, s.texts = append(ropes, n), append(texts, nt)
		s.c.Event("op:join", 1)
		return []int{len(s.ropes) - 1}
	case k < 18:
		s.log("#%d rebuild", i)
		rope.Rebuild()
		delete(s.tainted, rope)
		s.c.Event("op:rebuild", 1)
	default:
		s.log("#%d rebalance", i)
		rope.Rebalance()
		s.c.Event("op:rebalance", 1)
	}
	return []int{i}
}

func (s *ropeSim) fail(i int, format string, args ...any) {
	s.c.Fail("%s\nrope #%d, text by the model: %s\n%s", fmt.Sprintf(format, args...), i, quote(s.texts[i]), s.context())
}

type failingWriter struct {
	room   int
	got    []byte
	failed bool
	after  int
}

func (w *failingWriter) Write(p []byte) (int, error) {
	if w.failed {
		w.after++
	}
	n := min(len(p), w.room)
	w.got = append(w.got, p[:n]...)
	w.room -= n
	if n < len(p) {
		w.failed = true
		return n, errBroken
	}
	return n, nil
}

// observe compares everything a rope shows with the model.
func (s *ropeSim) observe(i int) {
	c, n, t := s.c, s.ropes[i], s.texts[i]
	c.Eval()
	if n.Len() != len(t) {
		s.fail(i, "Len is %d, want %d", n.Len(), len(t))
	}
	if !bytes.Equal(n.Value(), t) {
		s.fail(i, "Value is %s", quote(n.Value()))
	}
	for k := 0; k < 6 && len(t) > 0; k++ {
		p := c.R.IntN(len(t))
		if k == 0 {
			p = len(t) - 1
		}
		if got := n.At(p); got != t[p] {
			s.fail(i, "At(%d) is %q, want %q", p, got, t[p])
		}
	}
	for k := 0; k < 5; k++ {
		off, size := c.R.IntN(len(t)+3), c.R.IntN(12)
		switch k {
		case 0:
			size = c.R.IntN(len(t) + 10)
		case 1:
			off = c.R.IntN(len(t) + 1)
			size = len(t) - off
		}
		buf := make([]byte, size)
		m, err := n.ReadAt(buf, int64(off))
		if size == 0 && m == 0 {
			continue
		}
		if msg := checkRead(t, buf, int64(off), m, err, io.EOF); msg != "" {
			s.fail(i, "ReadAt(%d bytes, %d) gives %s", size, off, msg)
		}
	}
	var leaves []*linerope.Node
	var all []byte
	if n.EachLeaf(func(l *linerope.Node) bool {
		leaves = append(leaves, l)
		all = append(all, l.Value()...)
		if l.Len() != len(l.Value()) {
			s.fail(i, "leaf %d has Len %d and %d bytes", len(leaves), l.Len(), len(l.Value()))
		}
		return false
	}) {
		s.fail(i, "EachLeaf reports an early stop nobody asked for")
	}
	if !bytes.Equal(all, t) {
		s.fail(i, "the leaves hold %s", quote(all))
	}
	c.Max("leaves", len(leaves))
	stop, seen := c.R.IntN(len(leaves)), 0
	if !n.EachLeaf(func(l *linerope.Node) bool {
		if l != leaves[seen] {
			s.fail(i, "EachLeaf visits leaves in another order the second time")
		}
		seen++
		return seen == stop+1
	}) || seen != stop+1 {
		s.fail(i, "EachLeaf asked to stop at leaf %d visited %d", stop+1, seen)
	}
	at := 0
	n.Each(func(x *linerope.Node) {
		if at < len(leaves) && x == leaves[at] {
			at++
		}
	})
	if at != len(leaves) {
		s.fail(i, "Each visits only %d of %d leaves in order", at, len(leaves))
	}
	var w bytes.Buffer
	if m, err := n.WriteTo(&w); err != nil || m != int64(len(t)) || !bytes.Equal(w.Bytes(), t) {
		s.fail(i, "WriteTo gives %d, %v and writes %s", m, err, quote(w.Bytes()))
	}
	if len(t) > 0 && c.R.IntN(2) == 0 {
		fw := &failingWriter{room: c.R.IntN(len(t))}
		k := fw.room
		m, err := n.WriteTo(fw)
		if !errors.Is(err, errBroken) || m != int64(k) || !bytes.Equal(fw.got, t[:k]) {
			s.fail(i, "WriteTo a writer that fails after %d bytes gives %d, %v and writes %s", k, m, err, quote(fw.got))
		}
		if fw.after > 0 {
			s.fail(i, "WriteTo goes on writing after a failed write")
		}
		c.Event("failing writers", 1)
	}
}

func (s *ropeSim) checkOwned() {
	for k, b := range s.owned {
		if !bytes.Equal(b, s.copies[k]) {
			s.c.Fail("%s the caller passed in was modified: %s is now %s\n%s", s.names[k], quote(s.copies[k]), quote(b), s.context())
		}
		s.c.Event("caller's slices seen unmodified", 1)
	}
}

func c14Case(c *C) {
	s := newRopeSim(c, "\n")
	s.add()
	s.observe(0)
	steps := 30
	if s.maxLen > 10000 {
		steps = 15
	}
	for k := 0; k < steps; k++ {
		touched := s.step()
		for _, i := range touched {
			s.observe(i)
		}
		if k%8 == 7 || k == steps-1 {
			for i := range s.ropes {
				s.observe(i)
			}
			s.checkOwned()
		}
	}
	c.Nontrivial(s.context())
	c.Sample("%s", clip(s.context(), 500))
}

// wideRopes are ropes of long texts and long lines.
func wideRopes(c *C, sep string) *ropeSim {
	s := newRopeSim(c, sep)
	if c.R.IntN(2) == 0 {
		s.opts = linerope.Options{SplitLen: 1 + c.R.IntN(9000), JoinLen: c.R.IntN(9000), RebalanceRatio: 0.8 + c.R.Float64()*2, LineSep: []byte(sep)}
	} else {
		s.opts = linerope.DefaultOptions
		s.opts.LineSep = []byte(sep)
	}
	s.maxLen, s.long = bigSize(c.R, 200000), true
	return s
}

func c14Wide(c *C) {
	s := wideRopes(c, "\n")
	s.add()
	s.observe(0)
	for k := 0; k < 10; k++ {
		for _, i := range s.step() {
			s.observe(i)
			c.Max("bytes of the longest rope", s.ropes[i].Len())
		}
	}
	s.checkOwned()
	c.Nontrivial(s.context())
}

// c14Load builds ropes of every number of chunks, which are loaded in parallel.
func c14Load(c *C) {
	opts := linerope.Options{SplitLen: 1 + c.R.IntN(7), JoinLen: c.R.IntN(4), RebalanceRatio: 1.2, LineSep: []byte("\n")}
	s := &ropeSim{c: c, opts: opts, sep: "\n", alpha: []string{"a", "b", "\n", "c", "d"}, maxLen: 1000, tainted: map[*linerope.Node]bool{}}
	n := c.Idx%90*opts.SplitLen + c.R.IntN(opts.SplitLen)
	t := s.text(n)
	s.log("new(%d bytes)", len(t))
	s.ropes = append(s.ropes, linerope.NewWithOpts(s.lend(t, "the initial text"), opts))
	s.texts = append(s.texts, t)
	s.observe(0)
	for k := 0; k < 4; k++ {
		for _, i := range s.step() {
			s.observe(i)
		}
	}
	s.checkOwned()
	c.Nontrivial(s.context())
}

// lines of a text, found by scanning for the separator.
type lineScan struct {
	sep    string
	starts []int // start of each line
	n      int
}

func scanLines(t []byte, sep string) *lineScan {
	l := &lineScan{sep: sep, starts: []int{0}, n: len(t)}
	for i := 0; i+len(sep) <= len(t); {
		if string(t[i:i+len(sep)]) == sep {
			i += len(sep)
			l.starts = append(l.starts, i)
		} else {
			i++
		}
	}
	return l
}

func (l *lineScan) lineCol(off int) (int, int) {
	lo, hi := 0, len(l.starts)
	for hi-lo > 1 {
		m := (lo + hi) / 2
		if l.starts[m] <= off {
			lo = m
		} else {
			hi = m
		}
	}
	return lo, off - l.starts[lo]
}

// straddles reports whether a separator crosses the border of two leaves.
func straddles(n *linerope.Node, l *lineScan) bool {
	borders := map[int]bool{}
	off := 0
	n.EachLeaf(func(x *linerope.Node) bool {
		off += x.Len()
		borders[off] = true
		return false
	})
	for _, st := range l.starts[1:] {
		for k := 1; k < len(l.sep); k++ {
			if borders[st-k] {
				return true
			}
		}
	}
	return false
}

func (s *ropeSim) observeLines(i int) {
	c, n, t := s.c, s.ropes[i], s.texts[i]
	l := scanLines(t, s.sep)
	if len(s.sep) > 1 && straddles(n, l) {
		s.tainted[n] = true
	}
	if s.tainted[n] {
		// such a separator is miscounted (known finding), and stays so in the
		// counts kept in inner nodes when a later operation moves the border
		c.Event("states not judged: separator across leaves (known finding)", 1)
		return
	}
	c.Eval()
	if n.NumLines() != len(l.starts)-1 {
		s.fail(i, "NumLines is %d, want %d", n.NumLines(), len(l.starts)-1)
	}
	el, ec := l.lineCol(len(t))
	if gl, gc := n.LLen(); gl != el || gc != ec {
		s.fail(i, "LLen is %d:%d, want %d:%d", gl, gc, el, ec)
	}
	check := func(off int) (int, int) {
		wl, wc := l.lineCol(off)
		if gl, gc := n.LineColAt(off); gl != wl || gc != wc {
			s.fail(i, "LineColAt(%d) is %d:%d, want %d:%d", off, gl, gc, wl, wc)
		}
		if got := n.OffsetAt(wl, wc); got != off {
			s.fail(i, "OffsetAt(%d, %d) is %d, want %d", wl, wc, got, off)
		}
		c.Event("positions converted both ways", 1)
		return wl, wc
	}
	if len(t) < 300 {
		for off := 0; off <= len(t); off++ {
			check(off)
		}
	} else {
		check(0)
		check(len(t))
		for k := 0; k < 20; k++ {
			check(c.R.IntN(len(t) + 1))
			st := l.starts[c.R.IntN(len(l.starts))]
			for d := -len(s.sep) - 1; d <= 1; d++ {
				if st+d >= 0 && st+d <= len(t) {
					check(st + d)
				}
			}
		}
	}
	for k := 0; k < 12; k++ {
		a, b := c.R.IntN(len(t)+1), c.R.IntN(len(t)+1)
		if k%2 == 0 {
			a = l.starts[c.R.IntN(len(l.starts))]
		}
		if k%3 == 0 {
			b = l.starts[c.R.IntN(len(l.starts))]
		}
		if k == 0 {
			a, b = 0, len(t)
		}
		al, ac := l.lineCol(a)
		bl, bc := l.lineCol(b)
		want := []byte{}
		if a < b {
			want = t[a:b]
		}
		if got := n.SliceLC(al, ac, bl, bc); !bytes.Equal(got, want) {
			s.fail(i, "SliceLC(%d:%d, %d:%d) is %s, want %s", al, ac, bl, bc, quote(got), quote(want))
		}
		c.Event("line/column slices", 1)
	}
	c.Max("lines", len(l.starts))
}

var c15Seps = []string{"\n", "\n", "\n", "\r\n", "|", "ab", "<br>", "\x00", "\n\n", "aba"}

func c15Case(c *C) {
	c15Run(c, newRopeSim(c, c15Seps[c.R.IntN(len(c15Seps))]))
}

func c15Run(c *C, s *ropeSim) {
	s.add()
	s.observeLines(0)
	steps := 30
	if s.maxLen > 10000 {
		steps = 12
	}
	for k := 0; k < steps; k++ {
		touched := s.step()
		for _, i := range touched {
			// only judge lines of a rope that holds the text at all
			if bytes.Equal(s.ropes[i].Value(), s.texts[i]) {
				s.observeLines(i)
			} else {
				return
			}
		}
	}
	c.Event(fmt.Sprintf("histories with separator %q", s.sep), 1)
	c.Nontrivial(s.context())
	c.Sample("%s", clip(s.context(), 500))
}

const c15Known = "a separator of several bytes that crosses the border of two leaves is not counted as a line: NewWithOpts(\"abc\\r\\ndef\", SplitLen 4, LineSep \"\\r\\n\").NumLines() is 0, not 1"

func c15Listed(c *C) {
	c.Eval()
	n := linerope.NewWithOpts([]byte("abc\r\ndef"), linerope.Options{SplitLen: 4, JoinLen: 2, RebalanceRatio: 1.2, LineSep: []byte("\r\n")})
	if got := n.NumLines(); got == 0 {
		c.Known("C15-straddle", c15Known)
	} else if got != 1 {
		c.Fail("NewWithOpts(\"abc\\r\\ndef\", SplitLen 4, LineSep \"\\r\\n\").NumLines() is %d, want 1", got)
	}
}

func init() {
	register(&Prop{
		ID:   "C14",
		Rule: "an execution is one state of a rope reached by an operation, with its length, contents, bytes, random-access reads, leaf enumeration and streamed output compared with a byte array; distinct non-trivial ones are distinct operation histories",
		Assume: []string{
			"positions are within the rope; the original of a split and the parts of a join are not used afterwards",
			"SplitLen is at least 1",
			"a slice returned by Value is not used after the next edit",
		},
		Families: []Family{
			{Name: "histories", Quick: 75000, Thorough: 2200000, Batch: 500, Run: c14Case},
			{Name: "wide", Quick: 700, Thorough: 21000, Batch: 20, CPU: 60, Run: c14Wide},
			{Name: "loading", Quick: 4500, Thorough: 130000, Batch: 90, Run: c14Load},
		},
		Need: []string{"op:insert", "op:remove", "op:split", "op:join", "op:rebuild", "op:rebalance", "failing writers", "caller's slices seen unmodified"},
	})
	register(&Prop{
		ID:   "C15",
		Rule: "an execution is one state of a rope reached by an operation, with line count, end location, conversions of its positions both ways and line/column slices compared with a scan of the text; distinct non-trivial ones are distinct operation histories",
		Assume: []string{
			"separators are not empty, and counted from the front (\"\\n\\n\" once in \"\\n\\n\\n\")",
			"states in which a separator of several bytes crosses the border of two leaves are a known finding and not judged",
			"line/column positions asked for are those of offsets of the text",
		},
		Families: []Family{
			{Name: "listed", Quick: 1, Thorough: 1, Batch: 1, Run: c15Listed},
			{Name: "histories", Quick: 18000, Thorough: 540000, Batch: 250, Run: c15Case},
			{Name: "wide", Quick: 700, Thorough: 21000, Batch: 20, CPU: 60, Run: func(c *C) { c15Run(c, wideRopes(c, "\n")) }},
		},
		Need: []string{"positions converted both ways", "line/column slices", "op:rebuild", "op:split", "op:join"},
	})
}
