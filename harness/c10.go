package main

import (
	"bytes"
	"compress/gzip"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"reflect"
	"strings"
	"unicode/utf8"

	"github.com/zyedidia/gpeg/isa"
	"github.com/zyedidia/gpeg/memo"
	"github.com/zyedidia/gpeg/vm"
)

var messages = []string{"", "e", "unexpected token", "caf\u00e9 \u2603 \U0001f600", "<&>\u2028 \"quoted\" \\ \n\t\x00", "\xff\xfe", "a\x80b", strings.Repeat("long ", 300)}

// serialSpec makes specs of everything that can be put into a program.
func serialSpec(c *C) *Spec {
	g := newGen(c.R, fullWeights(c))
	var s *Spec
	if c.R.IntN(3) == 0 {
		s = g.pattern(8 + c.R.IntN(25))
	} else {
		s = g.grammar(1+c.R.IntN(4), 10+c.R.IntN(30))
	}
	refs, words := c.R.IntN(2) == 0, c.R.IntN(2) == 0
	weird := c.R.IntN(3) == 0
	s.walk(func(k *Spec) {
		switch k.K {
		case KCheck:
			switch {
			case refs:
				k.Check = &CheckSpec{Kind: "backref", Ref: c.R.IntN(2)}
				k.Id, k.Flag = c.R.IntN(2), c.R.IntN(3)
			case words || c.R.IntN(10) > 0:
				k.Check = &CheckSpec{Kind: "words", Words: []string{g.str(), g.str(), "", "\xff"}[:1+c.R.IntN(4)]}
			}
		case KError:
			if weird {
				k.Str = messages[c.R.IntN(len(messages))]
			}
		case KCap:
			if c.R.IntN(6) == 0 {
				k.N = []int{0, 1, 32767, -32768, -1, 255, 256, 1000}[c.R.IntN(8)]
			}
		}
	})
	if !wellFormed(s) {
		return seq(lit("a"), s.onlyIfWellFormed())
	}
	return s
}

func (s *Spec) onlyIfWellFormed() *Spec {
	if wellFormed(s) {
		return s
	}
	return empty()
}

func (s *Spec) checks() (custom, any bool) {
	s.walk(func(k *Spec) {
		if k.K == KCheck {
			any = true
			if k.Check.Kind == "scripted" || k.Check.Kind == "look" {
				custom = true
			}
		}
	})
	return
}

// runAll runs the inputs one after another, so that checkers keep what they
// remember.
func runAll(code *vm.Code, ins [][]byte, budgets []int64) []Outcome {
	var outs []Outcome
	for i, in := range ins {
		outs = append(outs, execCode(code, bytes.NewReader(in), memo.NoneTable{}, budgets[i]))
	}
	return outs
}

func usable(s *Spec, ins [][]byte) (ok [][]byte, budgets []int64) {
	for _, in := range ins {
		if _, steps, fine := interpret(s, in, interpLimit); fine {
			ok = append(ok, in)
			// back-references may remember more than in the model
			budgets = append(budgets, budgetFor(steps)*20)
		}
	}
	return
}

func compareRuns(c *C, s *Spec, what string, ins [][]byte, want, got []Outcome) {
	for i := range ins {
		c.Eval()
		if d := allSame(&want[i], &got[i]); d != "" {
			c.Fail("%s: %s differs\npattern: %s\ninput %d: %s\noriginal: %s\nloaded: %s", what, d, clip(s.String(), 3000), i, quote(ins[i]), clip(want[i].String(), 1500), clip(got[i].String(), 1500))
		}
		if want[i].Match {
			c.Event("matches", 1)
		}
		c.Event("captures compared", capsCount(want[i].Caps))
		c.Event("errors compared", len(want[i].Errs))
	}
}

type childJob struct {
	Json    bool
	Bytes   []byte
	Inputs  [][]byte
	Budgets []int64
}

type childResult struct {
	Err  string
	Outs []Outcome
}

// child runs saved programs in a process that never compiled them.
func child(path string) int {
	var jobs []childJob
	b, err := os.ReadFile(path)
	if err == nil {
		err = json.Unmarshal(b, &jobs)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	installHook()
	curIdx.Store(-1)
	var res []childResult
	for _, j := range jobs {
		var r childResult
		load := vm.FromBytes
		if j.Json {
			load = vm.FromJson
		}
		code, err := load(j.Bytes)
		if err != nil {
			r.Err = err.Error()
		} else if p := try(func() { r.Outs = runAll(&code, j.Inputs, j.Budgets) }); p != nil {
			r.Err = fmt.Sprint("panic: ", p)
		}
		res = append(res, r)
	}
	out, err := json.Marshal(res)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	os.Stdout.Write(out)
	return 0
}

type saved struct {
	spec *Spec
	job  childJob
	want []Outcome
}

func c10One(c *C) (out []saved) {
	s := serialSpec(c)
	nontrivialSpec(c, s, "")
	c.Sample("%s", s)
	g := newGen(c.R, baseWeights())
	return c10Save(c, s, g.inputs(s, 0, 10, 60))
}

// c10Big saves large programs.
func c10Big(c *C) {
	s, ins := bigProgram(c.R, "")
	nontrivialSpec(c, s, "")
	c.Sample("%s", clip(s.String(), 400))
	c10Save(c, s, ins)
}

func c10Save(c *C, s *Spec, ins [][]byte) (out []saved) {
	ins, budgets := usable(s, ins)
	custom, checks := s.checks()
	valid := true
	s.walk(func(k *Spec) {
		if k.K == KError && !utf8.ValidString(k.Str) {
			valid = false
		}
	})
	for _, format := range []string{"binary", "JSON"} {
		b := &Builder{R: c.R}
		code := mustCompile(c, s, b)
		save, load := (*vm.Code).ToBytes, vm.FromBytes
		if format == "JSON" {
			save, load = (*vm.Code).ToJson, vm.FromJson
		}
		b.resetRefs()
		if c.R.IntN(2) == 0 && len(ins) > 0 {
			// the program has been in use
			runAll(code, ins[:1], budgets)
		}
		bs, err := save(code)
		if err != nil {
			if !custom && (format == "binary" || (!checks && valid)) {
				c.Fail("the program cannot be saved as %s: %v\npattern: %s", format, err, s)
			}
			c.Event("programs refused when saved", 1)
			continue
		}
		// the caller owns the bytes, and may write into them
		mine := bytes.Clone(bs)
		scribble := c.R.IntN(2) == 0
		if scribble {
			for i := range bs {
				bs[i] ^= 0x55
			}
			c.Event("programs saved again after writing into the saved bytes", 1)
		}
		bs = bytes.Clone(mine)
		// saving does not change the program
		again, err := save(code)
		if err != nil {
			c.Fail("the program cannot be saved a second time as %s: %v\npattern: %s", format, err, s)
		}
		loaded, err := load(bs)
		if err != nil {
			if !custom && (format == "binary" || (!checks && valid)) {
				c.Fail("the program saved as %s cannot be loaded: %v\npattern: %s", format, err, s)
			}
			c.Event("programs refused when loaded", 1)
			continue
		}
		if scribble {
			for i := range bs {
				bs[i] ^= 0xaa
			}
		}
		bs = mine
		c.Event("programs loaded as "+format, 1)
		c.Max("bytes of a saved program", len(bs))
		second, err := load(again)
		if err != nil {
			c.Fail("the program saved a second time as %s cannot be loaded: %v\npattern: %s", format, err, s)
		}
		third := func() vm.Code {
			bs, err := save(&loaded)
			if err != nil {
				c.Fail("the loaded program cannot be saved as %s: %v\npattern: %s", format, err, s)
			}
			code, err := load(bs)
			if err != nil {
				c.Fail("the loaded program, saved again as %s, cannot be loaded: %v\npattern: %s", format, err, s)
			}
			return code
		}()
		want := runAll(code, ins, budgets)
		out = append(out, saved{s, childJob{format == "JSON", bs, ins, budgets}, want})
		for i, l := range []*vm.Code{&loaded, &second, &third} {
			if l.Size() != code.Size() {
				c.Fail("the size of the %s program changed from %d to %d\npattern: %s", format, code.Size(), l.Size(), s)
			}
			compareRuns(c, s, format+[]string{"", ", saved twice", ", saved, loaded and saved again"}[i], ins, want, runAll(l, ins, budgets))
		}
	}
	return out
}

func c10Process(c *C) {
	var all []saved
	var jobs []childJob
	for i := 0; i < 40; i++ {
		for _, s := range c10One(c) {
			all = append(all, s)
			jobs = append(jobs, s.job)
		}
	}
	b, err := json.Marshal(jobs)
	if err != nil {
		panic(err)
	}
	f, err := os.CreateTemp("", "c10")
	if err != nil {
		panic(err)
	}
	defer os.Remove(f.Name())
	f.Write(b)
	f.Close()
	self, _ := os.Executable()
	var so, se bytes.Buffer
	cmd := exec.Command(self, "-child10", f.Name())
	cmd.Stdout, cmd.Stderr = &so, &se
	if err := cmd.Run(); err != nil {
		c.Fail("a process that loads and runs the saved programs ended with %v\n%s", err, clip(se.String(), 3000))
	}
	var res []childResult
	if err := json.Unmarshal(so.Bytes(), &res); err != nil {
		panic(err)
	}
	for i, r := range res {
		if r.Err != "" {
			c.Fail("loading and running in another process: %s\npattern: %s", r.Err, all[i].spec)
		}
		// outcomes went through JSON, messages with invalid UTF-8 changed
		wb, _ := json.Marshal(all[i].want)
		var want []Outcome
		json.Unmarshal(wb, &want)
		c.Event("programs run in another process", 1)
		compareRuns(c, all[i].spec, "in another process", all[i].job.Inputs, want, r.Outs)
	}
}

// damaged returns a damaged copy of b.
func damaged(c *C, b []byte, other []byte) ([]byte, string) {
	r := c.R
	d := append([]byte{}, b...)
	switch r.IntN(9) {
	case 0:
		n := r.IntN(len(d))
		return d[:n], fmt.Sprintf("truncated to %d of %d bytes", n, len(b))
	case 1:
		n := r.IntN(len(d) * 8)
		d[n/8] ^= 1 << (n % 8)
		return d, fmt.Sprintf("bit %d of byte %d flipped", n%8, n/8)
	case 2:
		n := 2 + r.IntN(6)
		for i := 0; i < n; i++ {
			d[r.IntN(len(d))] ^= 1 << r.IntN(8)
		}
		return d, fmt.Sprintf("%d bits flipped", n)
	case 3:
		i := r.IntN(len(d) + 1)
		n := 1 + r.IntN(5)
		ins := make([]byte, n)
		for k := range ins {
			ins[k] = byte(r.IntN(256))
		}
		if r.IntN(2) == 0 {
			ins = make([]byte, n)
		}
		return append(d[:i:i], append(ins, d[i:]...)...), fmt.Sprintf("%d bytes inserted at %d", n, i)
	case 4:
		i := r.IntN(len(d))
		n := 1 + r.IntN(min(8, len(d)-i))
		return append(d[:i:i], d[i+n:]...), fmt.Sprintf("%d bytes removed at %d", n, i)
	case 5:
		i := r.IntN(len(d))
		d[i] = byte(r.IntN(256))
		return d, fmt.Sprintf("byte %d replaced", i)
	case 6:
		return append(d, other...), "another program appended"
	case 7:
		// spliced from two programs
		i := r.IntN(min(len(d), len(other)))
		return append(d[:i:i], other[i:]...), fmt.Sprintf("continued with another program from byte %d", i)
	}
	// part of the bytes replaced by part of another program
	i := r.IntN(min(len(d), len(other)))
	n := 1 + r.IntN(min(len(d), len(other))-i)
	copy(d[i:i+n], other[i:i+n])
	return d, fmt.Sprintf("bytes %d to %d replaced by those of another program", i, i+n)
}

func c11Program(c *C) (*Spec, []byte) {
	for {
		s := serialSpec(c)
		if custom, _ := s.checks(); custom {
			continue
		}
		code := mustCompile(c, s, &Builder{R: c.R})
		b, err := code.ToBytes()
		if err != nil {
			c.Fail("the program cannot be saved: %v\npattern: %s", err, s)
		}
		return s, b
	}
}

func c11Case(c *C, every bool) {
	s, b := c11Program(c)
	_, other := c11Program(c)
	nontrivialSpec(c, s, "")
	c.Sample("%s: %d bytes", s, len(b))
	ref, err := vm.FromBytes(b)
	if err != nil {
		c.Fail("the undamaged program cannot be loaded: %v\npattern: %s", err, s)
	}
	// a damaged program counts as the original if it is equal in every field
	// or was saved with its words in another order
	g := newGen(c.R, baseWeights())
	ins, budgets := usable(s, g.inputs(s, 0, 6, 40))
	decide := func(d []byte, how string) {
		if bytes.Equal(d, b) || len(d) >= 10 && bytes.Equal(d[10:], other[10:]) {
			return // not damaged: this is the program or the other one
		}
		c.ClearNotes()
		c.Note("pattern: %s, damage: %s", s, how)
		code, err := vm.FromBytes(d)
		c.Eval()
		if err != nil {
			c.Event("damaged programs rejected", 1)
			return
		}
		c.Event("damaged programs equal to the original", 1)
		if !reflect.DeepEqual(code, ref) {
			diff := ""
			if code.Size() != ref.Size() {
				diff = fmt.Sprintf(" (%d bytes of instructions, originally %d)", code.Size(), ref.Size())
			} else if p := try(func() {
				for i, in := range ins {
					a := execCode(&ref, bytes.NewReader(in), memo.NoneTable{}, budgets[i])
					z := execCode(&code, bytes.NewReader(in), memo.NoneTable{}, budgets[i])
					if x := allSame(&a, &z); x != "" {
						diff = fmt.Sprintf(" (%s on %s)", x, quote(in))
					}
				}
			}); p != nil {
				diff = fmt.Sprintf(" (running it: %v)", p)
			}
			c.Fail("a different program was loaded from damaged bytes: %s%s\npattern: %s", how, diff, s)
		}
	}
	if every {
		// every truncation and every single flipped bit
		for n := 0; n < len(b); n++ {
			decide(b[:n], fmt.Sprintf("truncated to %d of %d bytes", n, len(b)))
		}
		for n := 0; n < len(b)*8; n++ {
			d := append([]byte{}, b...)
			d[n/8] ^= 1 << (n % 8)
			decide(d, fmt.Sprintf("bit %d of byte %d flipped", n%8, n/8))
		}
		c.Event("programs put through every truncation and bit flip", 1)
		return
	}
	for i := 0; i < 60; i++ {
		d, how := damaged(c, b, other)
		decide(d, how)
	}
}

// c11Load loads bytes that were never a saved program but come close to one.
func c11Load(c *C) {
	s, b := c11Program(c)
	_, other := c11Program(c)
	unzip := func(b []byte) []byte {
		z, err := gzip.NewReader(bytes.NewReader(b))
		if err != nil {
			return []byte{0}
		}
		d, _ := io.ReadAll(z)
		return append(d, 0)
	}
	c.Nontrivial(s.String())
	raw, rawOther := unzip(b), unzip(other)
	jb := []byte("{}")
	jo := jb
	for {
		s := serialSpec(c)
		code := mustCompile(c, s, &Builder{R: c.R})
		if j, err := code.ToJson(); err == nil {
			jo, jb = jb, j
			if len(jo) > 2 {
				break
			}
		}
	}
	for i := 0; i < 40; i++ {
		// damage below the checksum
		d, how := damaged(c, raw, rawOther)
		var z bytes.Buffer
		w := gzip.NewWriter(&z)
		w.Write(d)
		w.Close()
		c.ClearNotes()
		c.Note("pattern %s, decompressed data %s", s, how)
		_, err := vm.FromBytes(z.Bytes())
		c.Eval()
		if err != nil {
			c.Event("forged programs rejected", 1)
		} else {
			c.Event("forged programs loaded", 1)
		}
		d, how = damaged(c, jb, jo)
		c.ClearNotes()
		c.Note("JSON %s: %s", how, quote(d))
		_, err = vm.FromJson(d)
		c.Eval()
		if err != nil {
			c.Event("damaged JSON rejected", 1)
		} else {
			c.Event("damaged JSON loaded", 1)
		}
		junk := make([]byte, c.R.IntN(40))
		for k := range junk {
			junk[k] = byte(c.R.IntN(256))
		}
		c.Note("junk %q", junk)
		if _, err := vm.FromBytes(junk); err == nil {
			c.Fail("junk was loaded as a program: %q", junk)
		}
		vm.FromJson(junk)
	}
}

var _ = isa.NewBackRef

func init() {
	register(&Prop{
		ID:     "C10",
		Rule:   "random programs with every construct (captures with extreme ids, memoization, error messages with arbitrary bytes, word lists, shared back-references, custom checkers) are saved and loaded in both formats, saved twice, saved after use, saved again after loading, and loaded in another process; original and loaded programs run the same sequence of inputs and everything reported is compared. Non-trivial: at least 3 nodes.",
		Need:   []string{"programs loaded as binary", "programs loaded as JSON", "programs run in another process", "programs refused when saved", "errors compared", "captures compared", "matches"},
		Assume: []string{"the binary format must accept every program whose checkers gpeg provides; JSON every program without checkers and with messages in UTF-8"},
		Families: []Family{
			{Name: "programs", Quick: 24000, Thorough: 720000, Batch: 250, Run: func(c *C) { c10One(c) }},
			{Name: "big", Quick: 120, Thorough: 3600, Batch: 4, CPU: 120, Run: c10Big},
			{Name: "processes", Quick: 96, Thorough: 2800, Batch: 3, CPU: 60, Run: c10Process},
		},
	})
	register(&Prop{
		ID:     "C11",
		Level:  "exploration",
		Rule:   "saved binary programs are truncated, extended, spliced with other programs and have bits flipped (for some programs every truncation and every single bit); loading must fail or give a program equal to the original in every field. Data damaged below the compression, damaged JSON and junk must load without panic. A case is a program; non-trivial: at least 3 nodes.",
		Need:   []string{"damaged programs rejected", "damaged programs equal to the original", "programs put through every truncation and bit flip", "forged programs rejected", "damaged JSON rejected"},
		Assume: []string{"a 32-bit checksum is not defeated by chance"},
		Families: []Family{
			{Name: "damage", Quick: 4500, Thorough: 130000, Batch: 100, Run: func(c *C) { c11Case(c, false) }},
			{Name: "every-bit", Quick: 180, Thorough: 5400, Batch: 4, Run: func(c *C) { c11Case(c, true) }},
			{Name: "forged", Quick: 1800, Thorough: 54000, Batch: 50, Run: c11Load},
		},
	})
}
