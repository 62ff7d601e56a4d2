package main

import (
	"bytes"
	"fmt"
	"io"
	"math/rand/v2"
	"strings"

	"github.com/zyedidia/gpeg/charset"
	"github.com/zyedidia/gpeg/input"
	"github.com/zyedidia/gpeg/isa"
	"github.com/zyedidia/gpeg/memo"
	"github.com/zyedidia/gpeg/memo/interval/lazylog"
	"github.com/zyedidia/gpeg/pattern"
	"github.com/zyedidia/gpeg/vm"
)

// Builder turns specs into patterns through the public constructors.
type Builder struct {
	R     *rand.Rand // varies how patterns are put together; nil for plain
	Share bool       // equal sub-patterns become the same node
	// callLog, if not nil, records all calls of checkers.
	callLog *[]CheckCall

	// kept, if not nil, holds the bytes that checkers were given, as they
	// were given, next to what they were then.
	kept *[]keptText
	// wrap, if not nil, is put around checkers.
	wrap  func(isa.Checker) isa.Checker
	refs  map[int]*isa.BackReference
	nodes map[string]pattern.Pattern
	// NoMemo leaves memo nodes out.
	NoMemo bool
	// memoIds are the ids left for memo nodes with explicit ids
	memoIds []int
	idMode  int // 0 undecided, 1 automatic ids, 2 explicit ids, 3 both
}

// memo marks p. The explicit ids of a pattern are all different.
func (b *Builder) memo(p pattern.Pattern) pattern.Pattern {
	if b.idMode == 0 {
		b.idMode = 1
		if b.chance(4) {
			b.idMode = 2
			b.memoIds = b.R.Perm(1100)
			// prefer those that differ by powers of two
			for i, id := range []int{0, 1, 2, 255, 256, 257, 258, 512, 513, 1024, 127, 128, 129} {
				for j, x := range b.memoIds {
					if x == id && b.chance(2) {
						b.memoIds[i], b.memoIds[j] = b.memoIds[j], b.memoIds[i]
					}
				}
			}
			if b.chance(3) {
				b.memoIds = append([]int{-1, -2, -256, -257, -1 << 15}, b.memoIds...)
			}
			k := min(16, len(b.memoIds))
			b.R.Shuffle(k, func(i, j int) { b.memoIds[i], b.memoIds[j] = b.memoIds[j], b.memoIds[i] })
		} else if b.chance(5) {
			b.idMode = 3
		}
	}
	if b.idMode == 3 && b.chance(3) {
		// an id that would be the next but for being taken now
		if m, ok := pattern.Memo(p).(*pattern.MemoNode); ok {
			return pattern.MemoId(p, m.Id+1+b.R.IntN(2))
		}
	}
	if b.idMode != 2 || len(b.memoIds) == 0 {
		return pattern.Memo(p)
	}
	id := b.memoIds[0]
	b.memoIds = b.memoIds[1:]
	return pattern.MemoId(p, id)
}

func (b *Builder) chance(n int) bool { return b.R != nil && b.R.IntN(n) == 0 }

// Set builds a charset with the members of s.
func (b *Builder) Set(s *ByteSet) charset.Set {
	l := s.list()
	if b.R == nil || b.R.IntN(3) == 0 {
		return charset.New(l)
	}
	switch b.R.IntN(3) {
	case 0:
		return charset.New(s.complement().list()).Complement()
	case 1:
		return charset.Range(0, 255).Sub(charset.New(s.complement().list()))
	}
	// union of maximal ranges
	var c charset.Set
	for i := 0; i < 256; {
		if !s[i] {
			i++
			continue
		}
		j := i
		for j+1 < 256 && s[j+1] {
			j++
		}
		c = c.Add(charset.Range(byte(i), byte(j)))
		i = j + 1
	}
	return c
}

func (b *Builder) Build(s *Spec) pattern.Pattern {
	// memo nodes with non-terminals are not shared between grammars, where
	// names may have other meanings (a known finding of C04)
	if b.Share && s.K != KCheck && !(s.has(KMemo) && s.has(KNonTerm)) {
		if b.nodes == nil {
			b.nodes = map[string]pattern.Pattern{}
		}
		key := s.String()
		s.walk(func(k *Spec) { // what String abbreviates
			if k.Set != nil {
				key += "\x00" + string(k.Set.list())
			}
			if len(k.Str) > 40 {
				key += "\x00" + k.Str
			}
		})
		if len(key) < 20000 && !s.has(KCheck) {
			if p, ok := b.nodes[key]; ok {
				return p
			}
			p := b.build(s)
			b.nodes[key] = p
			return p
		}
	}
	return b.build(s)
}

func (b *Builder) kids(s *Spec) []pattern.Pattern {
	ps := make([]pattern.Pattern, len(s.Kids))
	for i, k := range s.Kids {
		ps[i] = b.Build(k)
	}
	return ps
}

func (b *Builder) build(s *Spec) pattern.Pattern {
	switch s.K {
	case KLit:
		return pattern.Literal(s.Str)
	case KClass:
		return pattern.Set(b.Set(s.Set))
	case KAny:
		return pattern.Any(uint8(s.N))
	case KSeq:
		ps := b.kids(s)
		if len(ps) > 2 && b.chance(4) {
			// right-nested
			acc := ps[len(ps)-1]
			for i := len(ps) - 2; i >= 0; i-- {
				acc = pattern.Concat(ps[i], acc)
			}
			return acc
		}
		return pattern.Concat(ps...)
	case KAlt:
		ps := b.kids(s)
		if len(ps) > 2 && b.chance(4) {
			// left-nested
			acc := ps[0]
			for _, p := range ps[1:] {
				acc = pattern.Or(acc, p)
			}
			return acc
		}
		return pattern.Or(ps...)
	case KStar:
		return pattern.Star(b.Build(s.Kids[0]))
	case KPlus:
		return pattern.Plus(b.Build(s.Kids[0]))
	case KOpt:
		return pattern.Optional(b.Build(s.Kids[0]))
	case KNot:
		return pattern.Not(b.Build(s.Kids[0]))
	case KAnd:
		return pattern.And(b.Build(s.Kids[0]))
	case KCap:
		return pattern.Cap(b.Build(s.Kids[0]), s.N)
	case KMemo:
		if b.NoMemo {
			return b.Build(s.Kids[0])
		}
		return b.memo(b.Build(s.Kids[0]))
	case KSearch:
		return pattern.Search(b.Build(s.Kids[0]))
	case KRepeat:
		return pattern.Repeat(b.Build(s.Kids[0]), s.N)
	case KEmptyOp:
		return pattern.EmptyOp(s.Op)
	case KCheck:
		return pattern.CheckFlags(b.Build(s.Kids[0]), b.checker(s), s.Id, s.Flag)
	case KError:
		if s.NoRec {
			return pattern.Error(s.Str, nil)
		}
		return pattern.Error(s.Str, b.Build(s.Kids[0]))
	case KNonTerm:
		return pattern.NonTerm(s.Str)
	case KGrammar:
		m := map[string]pattern.Pattern{}
		for i, n := range s.Names {
			m[n] = b.Build(s.Kids[i])
		}
		return pattern.Grammar(s.Start, m)
	case KEmpty:
		return pattern.Concat()
	}
	panic("kind")
}

func (b *Builder) checker(s *Spec) isa.Checker {
	var c isa.Checker
	switch s.Check.Kind {
	case "scripted":
		c = scriptedChecker{s.Check.Salt}
	case "look":
		c = lookingChecker{s.Check.Salt}
	case "words":
		c = isa.NewMapChecker(s.Check.Words)
	case "backref":
		if b.refs == nil {
			b.refs = map[int]*isa.BackReference{}
		}
		if b.refs[s.Check.Ref] == nil {
			b.refs[s.Check.Ref] = isa.NewBackRef()
		}
		c = b.refs[s.Check.Ref]
	}
	if b.wrap != nil {
		c = b.wrap(c)
	}
	if b.callLog != nil {
		return &loggingChecker{c, b.callLog, b.kept}
	}
	return c
}

// resetRefs forgets the definitions of all back-references.
func (b *Builder) resetRefs() {
	for _, r := range b.refs {
		r.Symbols = map[int]string{}
	}
}

type scriptedChecker struct{ Salt int }

func (s scriptedChecker) Check(b []byte, src *input.Input, id, flag int) int {
	return scriptedRest(s.Salt, b, src, id, flag)
}

func scriptedRest(salt int, b []byte, src *input.Input, id, flag int) int {
	var buf [2]byte
	n, _ := src.ReadAt(buf[:], int64(src.Pos()))
	return scripted(salt, string(b), id, flag, n)
}

// lookingChecker decides by the bytes after the text, which it reads through
// the input in one of several ways.
type lookingChecker struct{ Salt int }

func (s lookingChecker) Check(b []byte, src *input.Input, id, flag int) int {
	k, how := lookHow(s.Salt)
	pos := src.Pos()
	var ahead string
	switch how {
	case 0:
		buf := make([]byte, k)
		n, _ := src.ReadAt(buf, int64(pos))
		ahead = string(buf[:n])
	case 1:
		ahead = string(src.Slice(pos, pos+k))
	case 2:
		if x, ok := src.Peek(); ok {
			ahead = string([]byte{x})
		}
	case 3: // the furthest byte first, then one by one
		for i := k - 1; i >= 0; i-- {
			var x [1]byte
			if n, _ := src.ReadAt(x[:], int64(pos+i)); n == 1 {
				ahead = string(x[:]) + ahead
			}
		}
	}
	if len(b) > 0 {
		if x, ok := src.PeekBefore(); !ok || x != b[len(b)-1] {
			panic(fmt.Sprintf("the byte before the input of a checker is not the last of its text %q", b))
		}
	}
	return looked(s.Salt, string(b), ahead, id, flag)
}

// loggingChecker records the calls of a checker at its boundary.
type loggingChecker struct {
	c    isa.Checker
	log  *[]CheckCall
	kept *[]keptText
}

// keptText is a text that a checker was given and has kept.
type keptText struct {
	b    []byte
	text string
}

func (l *loggingChecker) Check(b []byte, src *input.Input, id, flag int) int {
	text, pos := string(b), src.Pos()
	if l.kept != nil && len(*l.kept) < 5000 {
		*l.kept = append(*l.kept, keptText{b, text})
	}
	r := l.c.Check(b, src, id, flag)
	*l.log = append(*l.log, CheckCall{text, id, flag, pos, r})
	return r
}

// steps executed by the machine, counted by the hook.
var (
	vmSteps  int64
	vmBudget int64 = 1 << 62
	opSeen   [256]int64
)

type tooManySteps struct{ n int64 }

func installHook() {
	lazylog.VisitHook = func() { treeVisits++ }
	vm.StepHook = func(op byte) {
		vmSteps++
		opSeen[op]++
		if vmSteps > vmBudget {
			panic(tooManySteps{vmSteps})
		}
	}
}

func flushOps(st *Stats) {
	for i, n := range opSeen {
		if n > 0 {
			st.Counters["insn:"+vm.OpName(byte(i))] += n
		}
	}
}

const defaultBudget = 50_000_000

// execCode runs code and converts everything observable.
func execCode(code *vm.Code, r io.ReaderAt, tbl memo.Table, budget int64) Outcome {
	vmSteps, vmBudget = 0, budget
	defer func() { vmBudget = 1 << 62 }()
	m, end, root, errs := code.Exec(r, tbl)
	return convert(m, end, root, errs)
}

func convert(m bool, end int, root *memo.Capture, errs []vm.ParseError) Outcome {
	o := Outcome{Match: m}
	if m {
		o.End = end
		o.Caps = convertCaps(root)
	}
	for _, e := range errs {
		o.Errs = append(o.Errs, PErr{e.Message, e.Pos})
	}
	return o
}

// convertCaps reads the children of a capture through its iterator.
func convertCaps(c *memo.Capture) []*Cap {
	if c == nil {
		return nil
	}
	var out []*Cap
	it := c.ChildIterator(0)
	for ch := it(); ch != nil; ch = it() {
		out = append(out, &Cap{ch.Id(), ch.Start(), ch.Len(), convertCaps(ch)})
	}
	return out
}

// budgetFor bounds the number of instructions by the work the model needed.
func budgetFor(steps int) int64 { return int64(steps)*300 + 200000 }

// compileSpec compiles and encodes a pattern.
func compileSpec(p pattern.Pattern) (*vm.Code, error) {
	prog, err := pattern.Compile(p)
	if err != nil {
		return nil, err
	}
	code := vm.Encode(prog)
	return &code, nil
}

func quote(b []byte) string {
	if len(b) > 160 {
		return fmt.Sprintf("%q...(%d bytes)", b[:120], len(b))
	}
	return fmt.Sprintf("%q", b)
}

func bytesReader(b []byte) io.ReaderAt { return bytes.NewReader(b) }

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

var _ = strings.Contains

// sameParse compares what C01 is about: match and end position.
func sameParse(a, b *Outcome) bool {
	return a.Match == b.Match && (!a.Match || a.End == b.End)
}

func sameErrs(a, b []PErr) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func sameCalls(a, b []CheckCall) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
