package main

import (
	"fmt"
	"regexp/syntax"
	"sort"
	"strconv"
	"strings"
)

// This file is the executable model: the abstract syntax of patterns and a
// direct interpreter of what they mean, written without regard to how the code
// under test works.

type Kind int

const (
	KLit Kind = iota
	KClass
	KAny
	KSeq
	KAlt
	KStar
	KPlus
	KOpt
	KNot
	KAnd
	KCap
	KMemo
	KSearch
	KRepeat
	KEmptyOp
	KCheck
	KError
	KNonTerm
	KGrammar
	KEmpty
)

var kindNames = [...]string{"lit", "class", "any", "seq", "alt", "star", "plus", "opt", "not", "and", "cap", "memo", "search", "repeat", "emptyop", "check", "error", "nonterm", "grammar", "empty"}

// ByteSet is the model of a set of bytes.
type ByteSet [256]bool

func (s *ByteSet) size() int {
	n := 0
	for _, b := range s {
		if b {
			n++
		}
	}
	return n
}

func (s *ByteSet) list() []byte {
	var l []byte
	for i, b := range s {
		if b {
			l = append(l, byte(i))
		}
	}
	return l
}

func setOf(bs ...byte) *ByteSet {
	var s ByteSet
	for _, b := range bs {
		s[b] = true
	}
	return &s
}

func setRange(lo, hi byte) *ByteSet {
	var s ByteSet
	for i := int(lo); i <= int(hi); i++ {
		s[i] = true
	}
	return &s
}

func (s *ByteSet) union(o *ByteSet) *ByteSet {
	r := *s
	for i := range o {
		r[i] = r[i] || o[i]
	}
	return &r
}

func (s *ByteSet) complement() *ByteSet {
	var r ByteSet
	for i := range s {
		r[i] = !s[i]
	}
	return &r
}

// Spec is a node of the abstract syntax.
type Spec struct {
	K     Kind
	Kids  []*Spec
	Str   string // literal, non-terminal name, error message
	Set   *ByteSet
	N     int // any-n, repetition count, capture id
	Id    int // checker id
	Flag  int // checker flag
	Check *CheckSpec
	Op    syntax.EmptyOp
	Names []string // rule names of a grammar; Kids are the definitions
	Start string
	NoRec bool // error without recovery
}

// CheckSpec describes the behaviour of a checker.
type CheckSpec struct {
	Kind  string // "scripted", "look", "words", "backref"
	Words []string
	Salt  int
	Ref   int // which back-reference table
}

func lit(s string) *Spec             { return &Spec{K: KLit, Str: s} }
func class(s *ByteSet) *Spec         { return &Spec{K: KClass, Set: s} }
func anyN(n int) *Spec               { return &Spec{K: KAny, N: n} }
func seq(k ...*Spec) *Spec           { return &Spec{K: KSeq, Kids: k} }
func alt(k ...*Spec) *Spec           { return &Spec{K: KAlt, Kids: k} }
func un(k Kind, p *Spec) *Spec       { return &Spec{K: k, Kids: []*Spec{p}} }
func capt(p *Spec, id int) *Spec     { return &Spec{K: KCap, Kids: []*Spec{p}, N: id} }
func nonterm(n string) *Spec         { return &Spec{K: KNonTerm, Str: n} }
func repeat(p *Spec, n int) *Spec    { return &Spec{K: KRepeat, Kids: []*Spec{p}, N: n} }
func empty() *Spec                   { return &Spec{K: KEmpty} }
func emptyOp(o syntax.EmptyOp) *Spec { return &Spec{K: KEmptyOp, Op: o} }
func errorSpec(m string, rec *Spec) *Spec {
	if rec == nil {
		return &Spec{K: KError, Str: m, NoRec: true}
	}
	return &Spec{K: KError, Str: m, Kids: []*Spec{rec}}
}

func grammar(start string, rules map[string]*Spec) *Spec {
	g := &Spec{K: KGrammar, Start: start}
	for _, n := range sortedKeys(rules) {
		g.Names = append(g.Names, n)
		g.Kids = append(g.Kids, rules[n])
	}
	return g
}

func (s *Spec) rule(name string) *Spec {
	for i, n := range s.Names {
		if n == name {
			return s.Kids[i]
		}
	}
	return nil
}

func (s *Spec) copy() *Spec {
	c := *s
	c.Kids = make([]*Spec, len(s.Kids))
	for i, k := range s.Kids {
		c.Kids[i] = k.copy()
	}
	return &c
}

func (s *Spec) walk(fn func(*Spec)) {
	fn(s)
	for _, k := range s.Kids {
		k.walk(fn)
	}
}

func (s *Spec) size() int {
	n := 0
	s.walk(func(*Spec) { n++ })
	return n
}

func (s *Spec) has(k Kind) bool {
	f := false
	s.walk(func(x *Spec) { f = f || x.K == k })
	return f
}

func (s *Spec) String() string {
	var b strings.Builder
	s.print(&b)
	return b.String()
}

func (s *Spec) print(b *strings.Builder) {
	list := func(sep string) {
		b.WriteString("(")
		for i, k := range s.Kids {
			if i > 0 {
				b.WriteString(sep)
			}
			k.print(b)
		}
		b.WriteString(")")
	}
	switch s.K {
	case KLit:
		if len(s.Str) > 40 {
			fmt.Fprintf(b, "%q...%d", s.Str[:20], len(s.Str))
		} else {
			b.WriteString(strconv.Quote(s.Str))
		}
	case KClass:
		l := s.Set.list()
		if len(l) > 12 {
			c := s.Set.complement().list()
			if len(c) <= 12 {
				fmt.Fprintf(b, "[^%q]", c)
			} else {
				fmt.Fprintf(b, "[%d bytes %02x..%02x]", len(l), l[0], l[len(l)-1])
			}
		} else {
			fmt.Fprintf(b, "[%q]", l)
		}
	case KAny:
		fmt.Fprintf(b, ".{%d}", s.N)
	case KSeq:
		list(" ")
	case KAlt:
		list(" / ")
	case KStar:
		list("")
		b.WriteString("*")
	case KPlus:
		list("")
		b.WriteString("+")
	case KOpt:
		list("")
		b.WriteString("?")
	case KNot:
		b.WriteString("!")
		list("")
	case KAnd:
		b.WriteString("&")
		list("")
	case KCap:
		fmt.Fprintf(b, "cap%d", s.N)
		list("")
	case KMemo:
		b.WriteString("memo")
		list("")
	case KSearch:
		b.WriteString("search")
		list("")
	case KRepeat:
		fmt.Fprintf(b, "rep%d", s.N)
		list("")
	case KEmptyOp:
		fmt.Fprintf(b, "assert%d", s.Op)
	case KCheck:
		fmt.Fprintf(b, "check<%s,%v,%d,%d,id=%d,flag=%d>", s.Check.Kind, s.Check.Words, s.Check.Salt, s.Check.Ref, s.Id, s.Flag)
		list("")
	case KError:
		if s.NoRec {
			fmt.Fprintf(b, "error(%q)", s.Str)
		} else {
			fmt.Fprintf(b, "error(%q,", s.Str)
			list("")
			b.WriteString(")")
		}
	case KNonTerm:
		b.WriteString("<" + s.Str + ">")
	case KGrammar:
		fmt.Fprintf(b, "grammar{start=%s", s.Start)
		for i, n := range s.Names {
			fmt.Fprintf(b, "; %s <- ", n)
			s.Kids[i].print(b)
		}
		b.WriteString("}")
	case KEmpty:
		b.WriteString("ε")
	}
}

// env is a chain of enclosing grammars: names refer to the innermost grammar
// that defines them.
type env struct {
	g  *Spec
	up *env
}

func (e *env) lookup(name string) (*Spec, *env) {
	for ; e != nil; e = e.up {
		if d := e.g.rule(name); d != nil {
			return d, e
		}
	}
	return nil, nil
}

// wellFormed reports whether every name is defined, nothing is left recursive
// and nothing that may match the empty string is repeated. Specs must be trees.
func wellFormed(s *Spec) bool {
	w := &wfState{bind: map[*Spec]*Spec{}, nullable: map[*Spec]bool{}}
	if !w.resolve(s, nil) {
		return false
	}
	// least fixed point of nullability of rules
	for changed := true; changed; {
		changed = false
		for _, d := range w.rules {
			if !w.nullable[d] && w.null(d) {
				w.nullable[d] = true
				changed = true
			}
		}
	}
	ok := true
	s.walk(func(x *Spec) {
		switch x.K {
		case KStar, KPlus:
			if w.null(x.Kids[0]) {
				ok = false
			}
		}
	})
	if !ok {
		return false
	}
	// left recursion
	state := map[*Spec]int{}
	var visit func(d *Spec) bool
	visit = func(d *Spec) bool {
		switch state[d] {
		case 1:
			return false
		case 2:
			return true
		}
		state[d] = 1
		good := true
		w.lefts(d, func(r *Spec) {
			if !visit(r) {
				good = false
			}
		})
		state[d] = 2
		return good
	}
	for _, d := range w.rules {
		if !visit(d) {
			return false
		}
	}
	return true
}

type wfState struct {
	bind     map[*Spec]*Spec // non-terminal -> definition
	nullable map[*Spec]bool
	rules    []*Spec
}

func (w *wfState) resolve(s *Spec, e *env) bool {
	switch s.K {
	case KNonTerm:
		d, _ := e.lookup(s.Str)
		if d == nil {
			return false
		}
		w.bind[s] = d
		return true
	case KGrammar:
		if s.rule(s.Start) == nil {
			return false
		}
		ne := &env{s, e}
		for _, k := range s.Kids {
			w.rules = append(w.rules, k)
			if !w.resolve(k, ne) {
				return false
			}
		}
		return true
	}
	for _, k := range s.Kids {
		if !w.resolve(k, e) {
			return false
		}
	}
	return true
}

// null reports whether s may succeed without consuming input.
func (w *wfState) null(s *Spec) bool {
	switch s.K {
	case KLit:
		return s.Str == ""
	case KClass:
		return false
	case KAny:
		return s.N == 0
	case KSeq:
		for _, k := range s.Kids {
			if !w.null(k) {
				return false
			}
		}
		return true
	case KAlt:
		if len(s.Kids) == 0 {
			return true
		}
		for _, k := range s.Kids {
			if w.null(k) {
				return true
			}
		}
		return false
	case KStar, KOpt, KNot, KAnd, KEmptyOp, KEmpty:
		return true
	case KPlus, KCap, KMemo, KSearch, KCheck:
		return w.null(s.Kids[0])
	case KRepeat:
		return s.N <= 0 || w.null(s.Kids[0])
	case KError:
		return !s.NoRec && w.null(s.Kids[0])
	case KNonTerm:
		return w.nullable[w.bind[s]]
	case KGrammar:
		return w.nullable[s.rule(s.Start)]
	}
	panic("kind")
}

// lefts calls fn with each rule that s may invoke before consuming input.
func (w *wfState) lefts(s *Spec, fn func(*Spec)) {
	switch s.K {
	case KSeq:
		for _, k := range s.Kids {
			w.lefts(k, fn)
			if !w.null(k) {
				return
			}
		}
	case KNonTerm:
		fn(w.bind[s])
	case KGrammar:
		fn(s.rule(s.Start))
	default:
		for _, k := range s.Kids {
			w.lefts(k, fn)
		}
	}
}

// Cap is the model of a capture.
type Cap struct {
	Id, Start, Len int
	Kids           []*Cap
}

func capsString(cs []*Cap) string {
	var b strings.Builder
	var rec func(cs []*Cap)
	n := 0
	rec = func(cs []*Cap) {
		for _, c := range cs {
			n++
			if n > 400 {
				return
			}
			fmt.Fprintf(&b, "(%d %d+%d", c.Id, c.Start, c.Len)
			if len(c.Kids) > 0 {
				b.WriteByte(' ')
				rec(c.Kids)
			}
			b.WriteByte(')')
		}
	}
	rec(cs)
	return b.String()
}

func capsEqual(a, b []*Cap) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].Id != b[i].Id || a[i].Start != b[i].Start || a[i].Len != b[i].Len || !capsEqual(a[i].Kids, b[i].Kids) {
			return false
		}
	}
	return true
}

func capsCount(cs []*Cap) int {
	n := len(cs)
	for _, c := range cs {
		n += capsCount(c.Kids)
	}
	return n
}

// PErr is the model of a reported error.
type PErr struct {
	Msg string
	Pos int
}

// CheckCall is one call of a checker, as observed.
type CheckCall struct {
	Text     string
	Id, Flag int
	Pos      int
	Ret      int
}

// Outcome is everything observable about one parse.
type Outcome struct {
	Match bool
	End   int
	Caps  []*Cap
	Errs  []PErr
	Calls []CheckCall
	Abort bool
}

func (o *Outcome) String() string {
	s := fmt.Sprintf("match=%v", o.Match)
	if o.Match {
		s += fmt.Sprintf(" end=%d", o.End)
	}
	if len(o.Caps) > 0 {
		s += " caps=" + capsString(o.Caps)
	}
	if len(o.Errs) > 0 {
		s += fmt.Sprintf(" errs=%v", o.Errs)
	}
	if len(o.Calls) > 0 {
		s += fmt.Sprintf(" calls=%v", o.Calls)
	}
	return s
}

type outOfSteps struct{}
type aborted struct{}

// Interp interprets a Spec on an input.
type Interp struct {
	in    []byte
	steps int
	limit int
	depth int
	errs  []PErr
	calls []CheckCall
	refs  map[int]map[int]string
	// evals, if not nil, counts evaluations of memo nodes per position.
	maxDepth int
	pos      int
}

// interpret returns the outcome of s on in; ok is false if it took more than
// limit steps.
func interpret(s *Spec, in []byte, limit int) (o Outcome, steps int, ok bool) {
	it := &Interp{in: in, limit: limit, refs: map[int]map[int]string{}}
	defer func() {
		steps = it.steps
		o.Errs = it.errs
		o.Calls = it.calls
		if r := recover(); r != nil {
			switch r.(type) {
			case outOfSteps:
				ok = false
			case aborted:
				o.Match = false
				o.Abort = true
				ok = true
			default:
				panic(r)
			}
		}
	}()
	var caps []*Cap
	end, m := it.match(s, 0, nil, &caps)
	o.Match = m
	if m {
		o.End = end
		o.Caps = caps
	}
	return o, it.steps, true
}

const maxInterpDepth = 2000000

func (it *Interp) match(s *Spec, pos int, e *env, caps *[]*Cap) (int, bool) {
	it.steps++
	if it.steps > it.limit {
		panic(outOfSteps{})
	}
	switch s.K {
	case KLit:
		it.steps += len(s.Str) / 100 // a program looks at them one by one
		if len(it.in)-pos >= len(s.Str) && string(it.in[pos:pos+len(s.Str)]) == s.Str {
			return pos + len(s.Str), true
		}
		return 0, false
	case KClass:
		if pos < len(it.in) && s.Set[it.in[pos]] {
			return pos + 1, true
		}
		return 0, false
	case KAny:
		if pos+s.N <= len(it.in) {
			return pos + s.N, true
		}
		return 0, false
	case KEmpty:
		return pos, true
	case KSeq:
		n := len(*caps)
		for _, k := range s.Kids {
			p, ok := it.match(k, pos, e, caps)
			if !ok {
				*caps = (*caps)[:n]
				return 0, false
			}
			pos = p
		}
		return pos, true
	case KAlt:
		if len(s.Kids) == 0 {
			return pos, true
		}
		for _, k := range s.Kids {
			if p, ok := it.match(k, pos, e, caps); ok {
				return p, true
			}
		}
		return 0, false
	case KOpt:
		if p, ok := it.match(s.Kids[0], pos, e, caps); ok {
			return p, true
		}
		return pos, true
	case KStar, KPlus:
		if s.K == KPlus {
			p, ok := it.match(s.Kids[0], pos, e, caps)
			if !ok {
				return 0, false
			}
			pos = p
		}
		for {
			p, ok := it.match(s.Kids[0], pos, e, caps)
			if !ok {
				return pos, true
			}
			pos = p
		}
	case KRepeat:
		n := len(*caps)
		for i := 0; i < s.N; i++ {
			p, ok := it.match(s.Kids[0], pos, e, caps)
			if !ok {
				*caps = (*caps)[:n]
				return 0, false
			}
			pos = p
		}
		return pos, true
	case KNot:
		n := len(*caps)
		_, ok := it.match(s.Kids[0], pos, e, caps)
		*caps = (*caps)[:n]
		return pos, !ok
	case KAnd:
		_, ok := it.match(s.Kids[0], pos, e, caps)
		return pos, ok
	case KCap:
		var sub []*Cap
		p, ok := it.match(s.Kids[0], pos, e, &sub)
		if !ok {
			return 0, false
		}
		*caps = append(*caps, &Cap{s.N, pos, p - pos, sub})
		return p, true
	case KMemo:
		return it.match(s.Kids[0], pos, e, caps)
	case KSearch:
		for q := pos; q <= len(it.in); q++ {
			if p, ok := it.match(s.Kids[0], q, e, caps); ok {
				return p, true
			}
			it.steps++
		}
		return 0, false
	case KEmptyOp:
		return pos, it.assert(s.Op, pos)
	case KCheck:
		n := len(*caps)
		p, ok := it.match(s.Kids[0], pos, e, caps)
		if !ok {
			return 0, false
		}
		text := string(it.in[pos:p])
		r := it.check(s, text, p)
		it.calls = append(it.calls, CheckCall{text, s.Id, s.Flag, p, r})
		if r == -1 {
			*caps = (*caps)[:n]
			return 0, false
		}
		return p + r, true
	case KError:
		it.errs = append(it.errs, PErr{s.Str, pos})
		if s.NoRec {
			panic(aborted{})
		}
		return it.match(s.Kids[0], pos, e, caps)
	case KNonTerm:
		d, de := e.lookup(s.Str)
		return it.match(d, pos, de, caps)
	case KGrammar:
		return it.match(s.rule(s.Start), pos, &env{s, e}, caps)
	}
	panic("kind")
}

func isWordByte(b byte) bool {
	return b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' || b >= '0' && b <= '9' || b == '_'
}

// assert is the meaning of the zero-width assertions (each a single bit).
func (it *Interp) assert(op syntax.EmptyOp, pos int) bool {
	before := pos > 0 && isWordByte(it.in[pos-1])
	after := pos < len(it.in) && isWordByte(it.in[pos])
	switch op {
	case syntax.EmptyBeginText:
		return pos == 0
	case syntax.EmptyEndText:
		return pos == len(it.in)
	case syntax.EmptyBeginLine:
		return pos == 0 || it.in[pos-1] == '\n'
	case syntax.EmptyEndLine:
		return pos == len(it.in) || it.in[pos] == '\n'
	case syntax.EmptyWordBoundary:
		return before != after
	case syntax.EmptyNoWordBoundary:
		return before == after
	}
	panic("op")
}

// scripted is the deterministic behaviour of a scripted checker: fail, accept,
// or extend the match.
func scripted(salt int, text string, id, flag, rest int) int {
	h := uint32(salt)*2654435761 + uint32(id)*40503 + uint32(flag)*69069
	for i := 0; i < len(text); i++ {
		h = h*16777619 ^ uint32(text[i])
	}
	h ^= h >> 13
	switch h % 4 {
	case 0:
		return -1
	case 1:
		if n := int(h>>8) % 3; n <= rest {
			return n
		}
	}
	return 0
}

// lookHow says how far a looking checker reads beyond the text it is given,
// and by which method of the input.
func lookHow(salt int) (k, how int) {
	return 1 + salt/4%6, salt % 4
}

// looked is the decision of a looking checker: it accepts or refuses the text
// by what surrounds it.
func looked(salt int, text, ahead string, id, flag int) int {
	h := uint32(salt)*2654435761 + uint32(id)*40503 + uint32(flag)*69069
	for i := 0; i < len(text); i++ {
		h = h*16777619 ^ uint32(text[i])
	}
	h = h*16777619 ^ 0xabcd
	for i := 0; i < len(ahead); i++ {
		h = h*16777619 ^ uint32(ahead[i])
	}
	h ^= h >> 13
	if h%3 == 0 {
		return -1
	}
	return 0
}

func (it *Interp) check(s *Spec, text string, pos int) int {
	switch s.Check.Kind {
	case "look":
		k, how := lookHow(s.Check.Salt)
		if how == 2 {
			k = 1
		}
		end := pos + k
		if end > len(it.in) {
			end = len(it.in)
		}
		return looked(s.Check.Salt, text, string(it.in[pos:end]), s.Id, s.Flag)
	case "scripted":
		return scripted(s.Check.Salt, text, s.Id, s.Flag, len(it.in)-pos)
	case "words":
		for _, w := range s.Check.Words {
			if w == text {
				return 0
			}
		}
		return -1
	case "backref":
		m := it.refs[s.Check.Ref]
		if m == nil {
			m = map[int]string{}
			it.refs[s.Check.Ref] = m
		}
		switch s.Flag {
		case 0:
			m[s.Id] = text
			return 0
		case 1:
			w := m[s.Id]
			if strings.HasPrefix(string(it.in[pos:]), w) {
				return len(w)
			}
			return -1
		}
		return 0
	}
	panic("checker")
}

// overlapCaps keeps the captures that overlap [lo, hi), lifting the children
// of those that do not.
func overlapCaps(cs []*Cap, lo, hi int) []*Cap {
	var out []*Cap
	for _, c := range cs {
		if lo < c.Start+c.Len && hi > c.Start {
			out = append(out, &Cap{c.Id, c.Start, c.Len, overlapCaps(c.Kids, lo, hi)})
		}
	}
	return out
}

func sortedSet(m map[string]bool) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}
