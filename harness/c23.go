package main

import (
	"fmt"

	"github.com/zyedidia/gpeg/charset"
)

// c23Judge compares a set with the mathematical one.
func c23Judge(c *C, how string, s charset.Set, m *ByteSet) {
	c.Eval()
	for i := 0; i < 256; i++ {
		if s.Has(byte(i)) != m[i] {
			c.Fail("%s: byte %d is member: %v, expected %v", how, i, s.Has(byte(i)), m[i])
		}
	}
	if s.Size() != m.size() {
		c.Fail("%s: size %d, expected %d", how, s.Size(), m.size())
	}
	small := true
	for i := 128; i < 256; i++ {
		small = small && !m[i]
	}
	if s.IsSmall() != small {
		c.Fail("%s: offered in compact form: %v, expected %v", how, s.IsSmall(), small)
	}
	if !small {
		c.Event("sets beyond the compact form", 1)
		return
	}
	c.Event("compact sets", 1)
	t := s.SmallSet()
	for i := 0; i < 256; i++ {
		if t.Has(byte(i)) != m[i] {
			c.Fail("%s: byte %d is member of the compact form: %v, expected %v", how, i, t.Has(byte(i)), m[i])
		}
	}
	if t.Size() != m.size() {
		c.Fail("%s: size of the compact form %d, expected %d", how, t.Size(), m.size())
	}
}

// edges are the bytes where representations change.
var edges = []byte{0, 1, 31, 32, 62, 63, 64, 65, 126, 127, 128, 129, 190, 191, 192, 193, 254, 255}

func c23Byte(c *C) byte {
	if c.R.IntN(3) == 0 {
		return edges[c.R.IntN(len(edges))]
	}
	return byte(c.R.IntN(256))
}

// c23Case builds sets from sets, keeps all of them and looks at all of them
// again at the end: none may change when another is made from it.
func c23Case(c *C) {
	type pair struct {
		how string
		s   charset.Set
		m   *ByteSet
	}
	var all []pair
	low := c.R.IntN(3) == 0
	add := func(how string, s charset.Set, m *ByteSet) {
		if len(how) > 400 {
			how = fmt.Sprintf("set%d", len(all))
		}
		c.ClearNotes()
		c.Note("%s", how)
		c23Judge(c, how, s, m)
		all = append(all, pair{how, s, m})
	}
	pick := func() pair { return all[c.R.IntN(len(all))] }
	for i := 0; i < 4+c.R.IntN(20); i++ {
		op := c.R.IntN(6)
		if len(all) == 0 {
			op = c.R.IntN(2)
		}
		switch op {
		case 0:
			n := c.R.IntN(8)
			if c.R.IntN(4) == 0 {
				n = c.R.IntN(300)
			}
			bs := make([]byte, n)
			m := &ByteSet{}
			for k := range bs {
				bs[k] = c23Byte(c)
				if low {
					bs[k] %= 128
				}
				m[bs[k]] = true
			}
			s := charset.New(bs)
			for k := range bs {
				bs[k]++ // the set does not depend on the slice afterwards
			}
			add(fmt.Sprintf("New(%d bytes %x)", n, m.list()), s, m)
		case 1:
			lo, hi := c23Byte(c), c23Byte(c)
			if low {
				lo, hi = lo%128, hi%128
			}
			if lo > hi && c.R.IntN(4) > 0 {
				lo, hi = hi, lo
			}
			add(fmt.Sprintf("Range(%d,%d)", lo, hi), charset.Range(lo, hi), setRange(lo, hi))
		case 2:
			a := pick()
			add("-"+a.how, a.s.Complement(), a.m.complement())
		case 3:
			a, b := pick(), pick()
			add("("+a.how+"|"+b.how+")", a.s.Add(b.s), a.m.union(b.m))
		case 4:
			a, b := pick(), pick()
			add("("+a.how+"-"+b.how+")", a.s.Sub(b.s), a.m.complement().union(b.m).complement())
		case 5:
			a := pick()
			c.Event("expressions nested", 1)
			m := a.m.complement().union(a.m)
			add("universe", a.s.Add(a.s.Complement()), m)
		}
	}
	for _, p := range all {
		c23Judge(c, p.how+" (later)", p.s, p.m)
		c.Nontrivial(fmt.Sprintf("%x", p.m.list()))
		for _, q := range all {
			if (p.s == q.s) != (*p.m == *q.m) {
				c.Fail("sets %s and %s compare equal: %v, expected %v", p.how, q.how, p.s == q.s, *p.m == *q.m)
			}
		}
	}
	c.Sample("%s", all[len(all)-1].how)
}

// c23Ranges tries every range that starts at the byte of this case.
func c23Ranges(c *C) {
	lo := byte(c.Idx)
	m := setRange(lo, 255)
	single := charset.New([]byte{lo})
	c23Judge(c, fmt.Sprintf("New(%d)", lo), single, setOf(lo))
	c23Judge(c, fmt.Sprintf("-New(%d)", lo), single.Complement(), setOf(lo).complement())
	for i := 0; i < 256; i++ {
		hi := byte(i)
		m = setRange(lo, hi)
		how := fmt.Sprintf("Range(%d,%d)", lo, hi)
		s := charset.Range(lo, hi)
		c23Judge(c, how, s, m)
		c23Judge(c, "-"+how, s.Complement(), m.complement())
		c23Judge(c, how+"-New(lo)", s.Sub(single), m.complement().union(setOf(lo)).complement())
		c23Judge(c, how+"|New(hi)", s.Add(charset.New([]byte{hi})), m.union(setOf(hi)))
		c.Event("ranges", 1)
	}
	c.Nontrivial("ranges", fmt.Sprint(lo))
}

func init() {
	register(&Prop{
		ID:   "C23",
		Rule: "an execution builds one set and asks for all 256 bytes, the size and the compact form, compared with a table of 256 truth values; distinct non-trivial ones differ in members",
		Assume: []string{
			"a range whose low end is above its high end is empty",
		},
		Families: []Family{
			{Name: "ranges", Quick: 256, Thorough: 256, Batch: 16, Run: c23Ranges},
			{Name: "expressions", Quick: 1000000, Thorough: 30000000, Batch: 1000, Run: c23Case},
		},
		Need: []string{"compact sets", "sets beyond the compact form", "ranges"},
	})
}
