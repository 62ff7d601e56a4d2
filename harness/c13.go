package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"strings"
	"sync"
	"sync/atomic"
	"testing/iotest"

	"github.com/zyedidia/gpeg/input"
)

var errBroken = errors.New("the stream broke")

// sharedStream watches whether the adapter ever reads its stream from two
// goroutines at once.
type sharedStream struct {
	r      io.Reader
	inside atomic.Int32
	twice  atomic.Bool
}

func (s *sharedStream) Read(p []byte) (int, error) {
	if s.inside.Add(1) > 1 {
		s.twice.Store(true)
	}
	n, err := s.r.Read(p)
	s.inside.Add(-1)
	return n, err
}

func streamOf(c *C, data []byte) (io.Reader, string, error) {
	end := io.EOF
	f := newFrag(c.R, data)
	name := fmt.Sprintf("fragments(mode %d, error with data %v, empty reads %v)", f.mode, f.dataEO, f.zeros)
	switch c.R.IntN(10) {
	case 0:
		return bytes.NewReader(data), "bytes.Reader", end
	case 1:
		return strings.NewReader(string(data)), "strings.Reader", end
	case 2:
		return iotest.DataErrReader(bytes.NewReader(data)), "DataErrReader", end
	case 3:
		return iotest.HalfReader(bytes.NewBuffer(data)), "HalfReader", end
	case 4:
		f.fail = errBroken
		return f, "failing " + name, errBroken
	}
	return f, name, end
}

// checkRead judges one read of the adapter.
func checkRead(data []byte, buf []byte, off int64, n int, err error, end error) string {
	want := 0
	if off < int64(len(data)) {
		want = min(len(buf), len(data)-int(off))
	}
	if n != want {
		return fmt.Sprintf("%d bytes, want %d", n, want)
	}
	if want > 0 && !bytes.Equal(buf[:n], data[off:int(off)+n]) {
		return "other bytes than the stream's"
	}
	if n < len(buf) && err == nil {
		return "a short read without an error"
	}
	if n < len(buf) && !errors.Is(err, end) {
		return fmt.Sprintf("the error %v, want %v", err, end)
	}
	if n == len(buf) && err != nil {
		if off+int64(n) < int64(len(data)) {
			return fmt.Sprintf("the error %v before the end of the stream", err)
		}
		if !errors.Is(err, end) {
			return fmt.Sprintf("the error %v, want %v", err, end)
		}
	}
	return ""
}

func c13Data(r *rand.Rand) []byte {
	n := []int{0, 1, 5, 100, 4095, 4096, 4097, 8192, 8193, 9000, 20000, 70000}[r.IntN(12)]
	if r.IntN(2) == 0 {
		n += r.IntN(50)
	}
	return c13Bytes(r, n)
}

func c13Bytes(r *rand.Rand, n int) []byte {
	d := make([]byte, n)
	for i := range d {
		d[i] = byte(r.Uint32())
	}
	return d
}

func c13Request(r *rand.Rand, n, last int) (off, size int) {
	switch r.IntN(6) {
	case 0:
		off = n - r.IntN(5)
	case 1:
		off = n + r.IntN(5000)
	case 2:
		off = last
	case 3:
		off = 4096*r.IntN(5) + r.IntN(5) - 2
		if r.IntN(3) == 0 {
			off = 4096*r.IntN(n/4096+2) + r.IntN(5) - 2
		}
	default:
		off = r.IntN(n + 1)
	}
	off = max(0, off)
	switch r.IntN(6) {
	case 0:
		size = 0
	case 1:
		size = max(0, n-off)
	case 2:
		size = max(0, n-off+r.IntN(3)-1)
	case 3:
		size = 4096
	case 4:
		size = r.IntN(9000)
	default:
		size = 1 + r.IntN(40)
	}
	return
}

func c13Sequential(c *C) { c13Reads(c, c13Data(c.R)) }

// c13Big reads long streams.
func c13Big(c *C) {
	data := c13Bytes(c.R, bigSize(c.R, 1<<20))
	c.Max("bytes of the longest stream", len(data))
	c13Reads(c, data)
}

func c13Reads(c *C, data []byte) {
	s, name, end := streamOf(c, data)
	ra := input.FromReader(s)
	c.Nontrivial(name, fmt.Sprint(len(data), c.Idx))
	c.Note("%d bytes from %s", len(data), name)
	last := 0
	for i := 0; i < 40; i++ {
		off, size := c13Request(c.R, len(data), last)
		if i == 0 && len(data) > 100 && c.R.IntN(3) == 0 {
			// the first to get near the end
			size = 1 + c.R.IntN(90)
			off = len(data) - size - 1 - c.R.IntN(9)
		}
		buf := make([]byte, size, size+8)
		for j := range buf {
			buf[j] = 0xEE
		}
		guard := buf[size : size+8]
		for j := range guard {
			guard[j] = 0xCC
		}
		n, err := ra.ReadAt(buf, int64(off))
		c.Eval()
		c.Note("ReadAt(%d bytes, %d) = %d, %v", size, off, n, err)
		if size == 0 && n == 0 {
			c.Event("empty requests", 1)
			continue
		}
		if msg := checkRead(data, buf, int64(off), n, err, end); msg != "" {
			c.Fail("reading %d bytes at %d of a stream of %d (%s) gives %s", size, off, len(data), name, msg)
		}
		for _, g := range guard {
			if g != 0xCC {
				c.Fail("reading %d bytes at %d wrote beyond the buffer", size, off)
			}
		}
		if off < last {
			c.Event("reads of earlier text", 1)
		}
		if n < size {
			c.Event("reads reaching the end", 1)
			if end != io.EOF {
				c.Event("reads reaching a stream error", 1)
			}
		}
		// the caller owns the buffer: changing it must not change the stream
		for j := range buf {
			buf[j] ^= 0x5A
		}
		last = off + n
		// convenience slices agree
		if i%8 == 0 {
			got := input.Slice(ra, off, off+size)
			want := []byte{}
			if off < len(data) {
				want = data[off:min(len(data), off+size)]
			}
			if !bytes.Equal(got, want) {
				c.Fail("Slice(%d, %d) gives %s, want %s", off, off+size, quote(got), quote(want))
			}
		}
	}
	c.Sample("40 reads of %d bytes from %s", len(data), name)
}

func c13Parallel(c *C) {
	data := c13Data(c.R)
	s, name, end := streamOf(c, data)
	sh := &sharedStream{r: s}
	ra := input.FromReader(sh)
	c.Nontrivial(name, fmt.Sprint(len(data), c.Idx))
	workers := 2 + c.R.IntN(5)
	var wg sync.WaitGroup
	msgs := make([]string, workers)
	var reads atomic.Int64
	start := make(chan struct{})
	var order []int
	var mu sync.Mutex
	for w := 0; w < workers; w++ {
		r := rand.New(rand.NewPCG(c.R.Uint64(), c.R.Uint64()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			last := 0
			for i := 0; i < 15 && msgs[w] == ""; i++ {
				off, size := c13Request(r, len(data), last)
				buf := make([]byte, size)
				n, err := ra.ReadAt(buf, int64(off))
				reads.Add(1)
				mu.Lock()
				order = append(order, w)
				mu.Unlock()
				if size == 0 && n == 0 {
					continue
				}
				if msg := checkRead(data, buf, int64(off), n, err, end); msg != "" {
					msgs[w] = fmt.Sprintf("reading %d bytes at %d of a stream of %d (%s) in parallel with others gives %s", size, off, len(data), name, msg)
				}
				last = off + n
			}
		}()
	}
	close(start)
	wg.Wait()
	for _, m := range msgs {
		if m != "" {
			c.Fail("%s", m)
		}
	}
	if sh.twice.Load() {
		c.Fail("the stream was read from two goroutines at the same time")
	}
	c.st.Evaluations += reads.Load()
	c.Event("parallel reads", int(reads.Load()))
	sw := 0
	for i := 1; i < len(order); i++ {
		if order[i] != order[i-1] {
			sw++
		}
	}
	c.Event("switches between goroutines", sw)
	c.Nontrivial("interleaving", fmt.Sprint(order))
	c.Sample("%d goroutines read %d bytes from %s", workers, len(data), name)
}

// openStream is a stream which stays open: reading on once everything it has
// was delivered would wait forever.
type openStream struct {
	fragReader
	waits int
}

func (o *openStream) Read(p []byte) (int, error) {
	if o.pos == len(o.data) && len(p) > 0 {
		o.waits++
		return 0, errBroken
	}
	return o.fragReader.Read(p)
}

// c13Open asks a stream which stays open for what it has delivered so far.
func c13Open(c *C) {
	data := c13Data(c.R)
	if len(data) == 0 {
		data = []byte("x")
	}
	o := &openStream{fragReader: *newFrag(c.R, data)}
	o.dataEO = false
	ra := input.FromReader(o)
	c.Nontrivial(fmt.Sprint("open", o.mode), fmt.Sprint(len(data), c.Idx))
	c.Note("%d bytes from a stream that stays open (mode %d)", len(data), o.mode)
	last := 0
	for i := 0; i < 20; i++ {
		off, size := c13Request(c.R, len(data), last)
		off = min(off, len(data)-1)
		size = max(1, min(size, len(data)-off))
		if i == 0 && c.R.IntN(2) == 0 {
			off, size = 0, 1+c.R.IntN(min(len(data), 10))
		}
		buf := make([]byte, size)
		n, err := ra.ReadAt(buf, int64(off))
		c.Eval()
		c.Note("ReadAt(%d bytes, %d) = %d, %v", size, off, n, err)
		if o.waits > 0 {
			c.Fail("reading %d bytes at %d waits for more although the stream has delivered %d bytes", size, off, len(data))
		}
		if n != size || !bytes.Equal(buf, data[off:off+size]) {
			c.Fail("reading %d bytes at %d of a stream that stays open gives %d bytes (%v)", size, off, n, err)
		}
		c.Event("reads of a stream that stays open", 1)
		last = off + n
	}
	c.Sample("20 reads of %d bytes from a stream that stays open", len(data))
}

func init() {
	register(&Prop{
		ID:   "C13",
		Race: true,
		Rule: "an execution is one read of the adapter, judged against the bytes of the stream; distinct non-trivial ones differ in stream, or in the observed order of goroutines",
		Assume: []string{
			"the stream keeps to the io.Reader contract and repeats its final error",
			"end-of-input may be reported either with or after a request that ends exactly at the end",
			"reading ahead is fine as long as it does not wait: only a read issued after the stream delivered all it has and the request could be answered is judged",
			"the outcome of zero-length requests is not judged",
		},
		Families: []Family{
			{Name: "sequential", Quick: 6000, Thorough: 180000, Batch: 250, Run: c13Sequential},
			{Name: "parallel", Quick: 4500, Thorough: 130000, Batch: 250, Run: c13Parallel},
			{Name: "big", Quick: 160, Thorough: 4800, Batch: 8, CPU: 60, Run: c13Big},
			{Name: "open", Quick: 3000, Thorough: 90000, Batch: 250, Run: c13Open},
		},
		Need: []string{"parallel reads", "switches between goroutines", "reads reaching a stream error", "reads of earlier text", "reads of a stream that stays open"},
	})
}
