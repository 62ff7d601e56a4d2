From 9890456a1bd83580268449d04dfbe46708627a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:01 +0000
Subject: [PATCH 01/46] fix: restore the position when a TestAny instruction
 fails

---
 vm/vm.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vm/vm.go b/vm/vm.go
index 51a7faf..485220e 100644
--- a/vm/vm.go
+++ b/vm/vm.go
@@ -237,6 +237,8 @@ loop:
 				st.pushBacktrack(ent)
 				ip += szTestAny
 			} else {
+				// a failed advance may have moved the position
+				src.SeekTo(ent.off)
 				ip = int(lbl)
 			}
 		case opCaptureBegin:
-- 
2.43.0


From 95cbcf12aabd7f31232eda63319ea1208312804f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:03 +0000
Subject: [PATCH 02/46] fix: let Advance succeed across the end of the buffered
 chunk

---
 input/input.go | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/input/input.go b/input/input.go
index 909ed37..47fbcaa 100644
--- a/input/input.go
+++ b/input/input.go
@@ -89,16 +89,25 @@ func (i *Input) SeekTo(pos int) bool {
 // that even if Advance returns true the next call to Peek may return false if
 // the advance went to the exact end of the data.
 func (i *Input) Advance(n int) bool {
-	if i.nchunk == 0 {
+	if n == 0 {
+		return true
+	} else if i.nchunk == 0 {
 		return false
 	}
 
 	i.coff += n
-	if i.coff > i.nchunk {
-		i.refill(i.base + i.coff)
-		return false
-	} else if i.coff == i.nchunk {
-		i.refill(i.base + i.coff)
+	if i.coff < i.nchunk {
+		return true
+	}
+
+	// we moved past the end of the chunk, so load the next one. If there is no
+	// data there, and we did not stop exactly at the end of this chunk, the
+	// advance was only successful if the byte before the new position exists.
+	past := i.coff > i.nchunk
+	i.refill(i.base + i.coff)
+	if past && i.nchunk == 0 {
+		n, _ := i.r.ReadAt(i.b[:], int64(i.base-1))
+		return n == 1
 	}
 	return true
 }
-- 
2.43.0


From b6c30d74b8aca1c6f0bdbcd3b409f0f65c50199f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:38 +0000
Subject: [PATCH 03/46] fix: count bytes examined by advances, checkers and
 reused memo entries

---
 input/input.go | 19 ++++++++++++++-----
 vm/vm.go       |  6 ++++++
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/input/input.go b/input/input.go
index 47fbcaa..5fc79d1 100644
--- a/input/input.go
+++ b/input/input.go
@@ -47,10 +47,7 @@ func (i *Input) refill(pos int) {
 // bytes. Successive calls to Peek will return the same value unless there is a
 // call to SeekTo or Advance in between.
 func (i *Input) Peek() (byte, bool) {
-	pos := i.base + i.coff
-	if pos > i.furthest {
-		i.furthest = pos
-	}
+	i.Examine(i.base + i.coff)
 
 	return i.chunk[i.coff], i.nchunk != 0
 }
@@ -91,7 +88,9 @@ func (i *Input) SeekTo(pos int) bool {
 func (i *Input) Advance(n int) bool {
 	if n == 0 {
 		return true
-	} else if i.nchunk == 0 {
+	}
+	i.Examine(i.base + i.coff + n - 1)
+	if i.nchunk == 0 {
 		return false
 	}
 
@@ -112,12 +111,15 @@ func (i *Input) Advance(n int) bool {
 	return true
 }
 
+// ReadAt implements the io.ReaderAt interface.
 func (i *Input) ReadAt(b []byte, pos int64) (n int, err error) {
+	i.Examine(int(pos) + len(b) - 1)
 	return i.r.ReadAt(b, pos)
 }
 
 // Slice returns a slice of the reader corresponding to the range [low:high).
 func (i *Input) Slice(low, high int) []byte {
+	i.Examine(high - 1)
 	return Slice(i.r, low, high)
 }
 
@@ -126,6 +128,13 @@ func (i *Input) Pos() int {
 	return i.base + i.coff
 }
 
+// Examine records that the byte at pos has been examined.
+func (i *Input) Examine(pos int) {
+	if pos > i.furthest {
+		i.furthest = pos
+	}
+}
+
 // Furthest returns the furthest read position.
 func (i *Input) Furthest() int {
 	return i.furthest
diff --git a/vm/vm.go b/vm/vm.go
index 485220e..6d93fd2 100644
--- a/vm/vm.go
+++ b/vm/vm.go
@@ -294,6 +294,9 @@ loop:
 
 			ment, ok := memtbl.Get(int(id), src.Pos())
 			if ok {
+				// everything examined to produce this entry is also
+				// examined by any entry that is currently being parsed
+				src.Examine(src.Pos() + ment.Examined() - 1)
 				if ment.Length() == -1 {
 					goto fail
 				}
@@ -325,6 +328,9 @@ loop:
 
 			ment, ok := memtbl.Get(int(id), src.Pos())
 			if ok {
+				// everything examined to produce this entry is also
+				// examined by any entry that is currently being parsed
+				src.Examine(src.Pos() + ment.Examined() - 1)
 				if ment.Length() == -1 {
 					goto fail
 				}
-- 
2.43.0


From 63c8e9c9a5d3c758f0c330eea5839b1880bb0ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:40 +0000
Subject: [PATCH 04/46] fix: never append captures into a shared backing array

---
 vm/stack.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vm/stack.go b/vm/stack.go
index 9bd0352..c601b62 100644
--- a/vm/stack.go
+++ b/vm/stack.go
@@ -58,7 +58,9 @@ func (se *stackEntry) addCapt(capt []*memo.Capture) {
 		return
 	}
 	if len(se.capt) == 0 {
-		se.capt = capt
+		// limit the capacity so that later appends never write into the array
+		// of a memoized entry (or another stack entry).
+		se.capt = capt[:len(capt):len(capt)]
 	} else {
 		se.capt = append(se.capt, capt...)
 	}
-- 
2.43.0


From 07e17212988fbe7338c485987124e0813077c608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:27 +0000
Subject: [PATCH 05/46] fix: keep all intervals of the successor when a tree
 node is removed

---
 memo/interval/lazylog/tree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/memo/interval/lazylog/tree.go b/memo/interval/lazylog/tree.go
index 1682bf0..2e45a7b 100644
--- a/memo/interval/lazylog/tree.go
+++ b/memo/interval/lazylog/tree.go
@@ -209,7 +209,7 @@ func (n *node) remove(key key) *node {
 			rightMinNode := n.right.findSmallest()
 
 			n.key = rightMinNode.key
-			copy(n.interval.ins, rightMinNode.interval.ins)
+			n.interval = rightMinNode.interval
 			n.interval.n = n
 			n.tstamp = rightMinNode.tstamp
 			// delete smallest node that we replaced
-- 
2.43.0


From faf882b1071bb4444636e8ccc154406a5576bb97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:19 +0000
Subject: [PATCH 06/46] fix: keep the subtree maximum an upper bound after
 negative shifts in the lazy tree

---
 memo/interval/lazy/tree.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/memo/interval/lazy/tree.go b/memo/interval/lazy/tree.go
index 9dc84a1..46b32e7 100644
--- a/memo/interval/lazy/tree.go
+++ b/memo/interval/lazy/tree.go
@@ -121,8 +121,8 @@ func (n *node) applyShifts() {
 					n.iv.ivs[i].interval = iv.interval.Shift(sh.amt)
 				}
 			}
-			n.max += sh.amt
-			// n.updateMax()
+			// intervals that end at or before the shift do not move
+			n.max = max(n.max+sh.amt, sh.idx)
 		}
 
 		n.left.addShift(sh)
-- 
2.43.0


From 775052a69bb9bcd0148a6bb812388b2d07e49d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:29 +0000
Subject: [PATCH 07/46] fix: count intervals rather than nodes in the size of
 an interval tree

---
 memo/interval/lazy/tree.go    | 2 +-
 memo/interval/lazylog/tree.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/memo/interval/lazy/tree.go b/memo/interval/lazy/tree.go
index 46b32e7..0cd9737 100644
--- a/memo/interval/lazy/tree.go
+++ b/memo/interval/lazy/tree.go
@@ -324,7 +324,7 @@ func (n *node) getSize() int {
 	if n == nil {
 		return 0
 	}
-	return n.left.getSize() + n.right.getSize() + 1
+	return n.left.getSize() + n.right.getSize() + len(n.iv.ivs)
 }
 
 func (n *node) updateHeightAndMax() {
diff --git a/memo/interval/lazylog/tree.go b/memo/interval/lazylog/tree.go
index 2e45a7b..66d5c3a 100644
--- a/memo/interval/lazylog/tree.go
+++ b/memo/interval/lazylog/tree.go
@@ -313,7 +313,7 @@ func (n *node) size() int {
 	if n == nil {
 		return 0
 	}
-	return n.left.size() + n.right.size() + 1
+	return n.left.size() + n.right.size() + len(n.interval.ins)
 }
 
 func (n *node) recalculateHeight() {
-- 
2.43.0


From ea7b9781248e7461eed53ffa0c4cf5c15920b48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:52 +0000
Subject: [PATCH 08/46] fix: turn a rebuilt rope node into a leaf before
 splitting it

---
 input/linerope/rope.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/input/linerope/rope.go b/input/linerope/rope.go
index 40a53f0..d35a41f 100644
--- a/input/linerope/rope.go
+++ b/input/linerope/rope.go
@@ -387,6 +387,8 @@ func (n *Node) Rebuild() {
 		n.value = concat(n.left.Value(), n.right.Value())
 		n.left = nil
 		n.right = nil
+		n.kind = tLeaf
+		n.llength = llen(n.value, n.opts.LineSep)
 		n.adjust()
 	}
 }
-- 
2.43.0


From 3f217475873be2d707995a3eb7f4e80dba4fc710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:52 +0000
Subject: [PATCH 09/46] fix: locate the first line correctly with a multi-byte
 line separator

---
 input/linerope/line.go | 12 +++++++++---
 input/linerope/rope.go |  2 +-
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/input/linerope/line.go b/input/linerope/line.go
index 0925616..af58b4f 100644
--- a/input/linerope/line.go
+++ b/input/linerope/line.go
@@ -93,7 +93,13 @@ func maxloc(a, b loc) loc {
 }
 
 func sliceloc(b, sep []byte, start, end loc) []byte {
-	soff := indexN(b, sep, start.line) + len(sep) + start.col
-	eoff := indexN(b, sep, end.line) + len(sep) + end.col
-	return b[soff:eoff]
+	return b[offsetAt(b, sep, start):offsetAt(b, sep, end)]
+}
+
+// offsetAt converts a line/col pair to an offset in b.
+func offsetAt(b, sep []byte, l loc) int {
+	if l.line == 0 {
+		return l.col
+	}
+	return indexN(b, sep, l.line) + len(sep) + l.col
 }
diff --git a/input/linerope/rope.go b/input/linerope/rope.go
index d35a41f..069938f 100644
--- a/input/linerope/rope.go
+++ b/input/linerope/rope.go
@@ -264,7 +264,7 @@ func (n *Node) OffsetAt(line, col int) int {
 	pos := loc{line, col}
 	switch n.kind {
 	case tLeaf:
-		return indexN(n.value, n.opts.LineSep, line) + len(n.opts.LineSep) + col
+		return offsetAt(n.value, n.opts.LineSep, pos)
 	default: // case tNode
 		leftLength := n.left.llength
 		if pos.cmp(leftLength) < 0 {
-- 
2.43.0


From 38b519d628ef90ee82f69f99dc0c582ab5afb1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:08 +0000
Subject: [PATCH 10/46] fix: give positions inside a line separator a column on
 that line

---
 input/linerope/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/input/linerope/util.go b/input/linerope/util.go
index 596afa4..b18d16c 100644
--- a/input/linerope/util.go
+++ b/input/linerope/util.go
@@ -31,7 +31,7 @@ func lineCol(b, sep []byte, pos int) loc {
 		idx := bytes.Index(b[last:], sep)
 		if idx < 0 {
 			break
-		} else if last+idx >= pos {
+		} else if last+idx+len(sep) > pos {
 			return loc{line, pos - last}
 		}
 		last += idx + len(sep)
-- 
2.43.0


From 7204a4a06fc27dc1449f829da59facf29b6d00de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:40 +0000
Subject: [PATCH 11/46] fix: parse octal escapes above 177 as the byte they
 denote

---
 re/re.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/re/re.go b/re/re.go
index dcae4fe..99d127a 100644
--- a/re/re.go
+++ b/re/re.go
@@ -147,7 +147,7 @@ func parseChar(char string) byte {
 			}
 		}
 
-		i, _ := strconv.ParseInt(string(char[1:]), 8, 8)
+		i, _ := strconv.ParseUint(string(char[1:]), 8, 8)
 		return byte(i)
 	default:
 		return char[0]
-- 
2.43.0


From a751e59d747100dbf8f8a5984d2e74a6055708b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:41 +0000
Subject: [PATCH 12/46] fix: compile empty character classes and single-brace
 captures

---
 re/re.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/re/re.go b/re/re.go
index 99d127a..8a8cb35 100644
--- a/re/re.go
+++ b/re/re.go
@@ -88,6 +88,8 @@ func compile(root *memo.Capture, s string, capg bool, ids map[string]int) patter
 			p = compile(root.Child(1), s, capg, ids)
 		case idBRACEPO:
 			p = pattern.Memo(compile(root.Child(1), s, capg, ids))
+		case idBRACEO:
+			p = pattern.Cap(compile(root.Child(1), s, capg, ids), 0)
 		case idDOT:
 			p = pattern.Any(1)
 		}
@@ -100,11 +102,8 @@ func compile(root *memo.Capture, s string, capg bool, ids map[string]int) patter
 		p = pattern.Literal(lit.String())
 	case idClass:
 		var set charset.Set
-		if root.NumChildren() <= 0 {
-			break
-		}
 		complement := false
-		if root.Child(0).Id() == idCARAT {
+		if root.NumChildren() > 0 && root.Child(0).Id() == idCARAT {
 			complement = true
 		}
 		it := root.ChildIterator(0)
-- 
2.43.0


From 65350db6ac711fc49da0f048f2cf1e3b85725518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:43 +0000
Subject: [PATCH 13/46] fix: report no error from a wrapped reader when the
 request was satisfied

---
 input/reader.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/input/reader.go b/input/reader.go
index fca7d53..ca96bc5 100644
--- a/input/reader.go
+++ b/input/reader.go
@@ -48,7 +48,12 @@ func (r *readerWrapper) ReadAt(b []byte, off int64) (n int, err error) {
 		return 0, err
 	}
 
-	return copy(b, r.buf[off:]), err
+	n = copy(b, r.buf[off:])
+	if n == len(b) {
+		// the error (if any) concerns data after the requested range
+		return n, nil
+	}
+	return n, err
 }
 
 // Slice returns the slice [low:high) in the given ReaderAt.
-- 
2.43.0


From b6af1436bf70d9d0e9b2a60629b0bf8f8c1f0f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:12 +0000
Subject: [PATCH 14/46] fix: make programs with back-references survive
 serialization

---
 isa/checker.go |  3 +++
 vm/code.go     | 14 +++++++++++++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/isa/checker.go b/isa/checker.go
index 53863b6..ee45126 100644
--- a/isa/checker.go
+++ b/isa/checker.go
@@ -50,6 +50,9 @@ func NewBackRef() *BackReference {
 func (r *BackReference) Check(b []byte, src *input.Input, id, flag int) int {
 	switch RefKind(flag) {
 	case RefDef:
+		if r.Symbols == nil {
+			r.Symbols = make(map[int]string)
+		}
 		r.Symbols[id] = string(b)
 		return 0
 	case RefUse:
diff --git a/vm/code.go b/vm/code.go
index 06d568b..e1401d0 100644
--- a/vm/code.go
+++ b/vm/code.go
@@ -7,6 +7,7 @@ import (
 	"encoding/gob"
 	"encoding/json"
 	"fmt"
+	"reflect"
 
 	"github.com/zyedidia/gpeg/charset"
 	"github.com/zyedidia/gpeg/isa"
@@ -36,7 +37,7 @@ func (c *Code) Size() int {
 
 func init() {
 	gob.Register(isa.MapChecker{})
-	gob.Register(isa.BackReference{})
+	gob.Register(&isa.BackReference{})
 }
 
 // ToBytes serializes and compresses this Code.
@@ -304,7 +305,18 @@ func addError(code *Code, msg string) uint {
 	return uint(len(code.data.Errors) - 1)
 }
 
+// Adds the checker to the code's list of checkers, and returns the index it was
+// added at. A checker that is used more than once via the same pointer is only
+// added once, so that its uses still share it after the code is serialized.
 func addChecker(code *Code, checker isa.Checker) uint {
+	if reflect.ValueOf(checker).Kind() == reflect.Ptr {
+		for i, c := range code.data.Checkers {
+			if checker == c {
+				return uint(i)
+			}
+		}
+	}
+
 	code.data.Checkers = append(code.data.Checkers, checker)
 	return uint(len(code.data.Checkers) - 1)
 }
-- 
2.43.0


From 40f5ec69672fca1299e9ac86770868e85bf3706c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:14 +0000
Subject: [PATCH 15/46] fix: verify the checksum and the end of a serialized
 program

---
 vm/code.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/vm/code.go b/vm/code.go
index e1401d0..a8995c2 100644
--- a/vm/code.go
+++ b/vm/code.go
@@ -6,7 +6,9 @@ import (
 	"encoding/binary"
 	"encoding/gob"
 	"encoding/json"
+	"errors"
 	"fmt"
+	"io"
 	"reflect"
 
 	"github.com/zyedidia/gpeg/charset"
@@ -57,9 +59,18 @@ func FromBytes(b []byte) (Code, error) {
 	if err != nil {
 		return Code{}, err
 	}
-	dec := gob.NewDecoder(fz)
-	err = dec.Decode(&c)
+	// read everything before decoding, so that the checksum is verified
+	data, err := io.ReadAll(fz)
+	if err != nil {
+		return Code{}, err
+	}
 	fz.Close()
+	r := bytes.NewReader(data)
+	dec := gob.NewDecoder(r)
+	err = dec.Decode(&c)
+	if err == nil && r.Len() != 0 {
+		err = errors.New("unexpected data after serialized code")
+	}
 	return Code{
 		data: c,
 	}, err
-- 
2.43.0


From ca52008d131ed3f46f0706a6c6b153b4639cd0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:16 +0000
Subject: [PATCH 16/46] fix: refuse to store error messages that JSON cannot
 represent

---
 vm/code.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/vm/code.go b/vm/code.go
index a8995c2..53d8c00 100644
--- a/vm/code.go
+++ b/vm/code.go
@@ -10,6 +10,7 @@ import (
 	"fmt"
 	"io"
 	"reflect"
+	"unicode/utf8"
 
 	"github.com/zyedidia/gpeg/charset"
 	"github.com/zyedidia/gpeg/isa"
@@ -78,6 +79,11 @@ func FromBytes(b []byte) (Code, error) {
 
 // ToJson returns this Code serialized to JSON form.
 func (c *Code) ToJson() ([]byte, error) {
+	for _, msg := range c.data.Errors {
+		if !utf8.ValidString(msg) {
+			return nil, fmt.Errorf("cannot represent error message %q in JSON", msg)
+		}
+	}
 	return json.Marshal(c.data)
 }
 
-- 
2.43.0


From 1dd9e3c894256e4ad11ff6abfe6d0ac2aefb2f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:18 +0000
Subject: [PATCH 17/46] fix: draw unique label, memo and rule numbers safely
 when compiling in parallel

---
 isa/isa.go         |  6 +++---
 pattern/compile.go |  6 +++---
 pattern/pattern.go | 20 +++++++++++++++-----
 rxconv/rxconv.go   |  6 +++---
 4 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/isa/isa.go b/isa/isa.go
index 80f4952..4f0b5f4 100644
--- a/isa/isa.go
+++ b/isa/isa.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"regexp/syntax"
 	"strconv"
+	"sync/atomic"
 
 	"github.com/zyedidia/gpeg/charset"
 )
@@ -37,7 +38,7 @@ type JumpType interface {
 	jumpt()
 }
 
-var uniqId int
+var uniqId int64
 
 // Label is used for marking a location in the instruction code with
 // a unique ID
@@ -48,9 +49,8 @@ type Label struct {
 
 // NewLabel returns a new label with a unique ID
 func NewLabel() Label {
-	uniqId++
 	return Label{
-		Id: uniqId,
+		Id: int(atomic.AddInt64(&uniqId, 1)),
 	}
 }
 
diff --git a/pattern/compile.go b/pattern/compile.go
index 09047eb..fd9b3c3 100644
--- a/pattern/compile.go
+++ b/pattern/compile.go
@@ -144,10 +144,10 @@ func (p *StarNode) Compile() (isa.Program, error) {
 		L2 := isa.NewLabel()
 		L3 := isa.NewLabel()
 		NoJump := isa.NewLabel()
-		memoId++
+		id := nextMemoId()
 
 		code = append(code, L1)
-		code = append(code, isa.MemoTreeOpen{Id: memoId, Lbl: L3})
+		code = append(code, isa.MemoTreeOpen{Id: id, Lbl: L3})
 		code = append(code, isa.Choice{Lbl: L2})
 		code = append(code, sub...)
 		code = append(code, isa.Commit{Lbl: NoJump})
@@ -157,7 +157,7 @@ func (p *StarNode) Compile() (isa.Program, error) {
 		code = append(code, isa.MemoTree{})
 		code = append(code, isa.Jump{Lbl: L1})
 		code = append(code, L2)
-		code = append(code, isa.MemoTreeClose{Id: memoId})
+		code = append(code, isa.MemoTreeClose{Id: id})
 		return code, err
 	}
 
diff --git a/pattern/pattern.go b/pattern/pattern.go
index 7cd1a8a..5260db0 100644
--- a/pattern/pattern.go
+++ b/pattern/pattern.go
@@ -4,6 +4,7 @@ package pattern
 
 import (
 	"regexp/syntax"
+	"sync"
 
 	"github.com/zyedidia/gpeg/charset"
 	"github.com/zyedidia/gpeg/isa"
@@ -35,6 +36,15 @@ func CheckFlags(p Pattern, c isa.Checker, id, flag int) Pattern {
 }
 
 var memoId = 0
+var memoLock sync.Mutex
+
+// nextMemoId reserves a memoization id that has not been handed out before.
+func nextMemoId() int {
+	memoLock.Lock()
+	defer memoLock.Unlock()
+	memoId++
+	return memoId
+}
 
 // MemoId marks a pattern as memoizable with a particular ID.
 func MemoId(p Pattern, id int) Pattern {
@@ -42,18 +52,18 @@ func MemoId(p Pattern, id int) Pattern {
 		Patt: p,
 		Id:   id,
 	}
-	memoId = max(memoId, id) + 1
+	memoLock.Lock()
+	memoId = max(memoId, id)
+	memoLock.Unlock()
 	return m
 }
 
 // Memo marks a pattern as memoizable.
 func Memo(p Pattern) Pattern {
-	m := &MemoNode{
+	return &MemoNode{
 		Patt: p,
-		Id:   memoId,
+		Id:   nextMemoId(),
 	}
-	memoId++
-	return m
 }
 
 // Literal matches a given string literal.
diff --git a/rxconv/rxconv.go b/rxconv/rxconv.go
index 3ea34e0..8219b8d 100644
--- a/rxconv/rxconv.go
+++ b/rxconv/rxconv.go
@@ -6,16 +6,16 @@ import (
 	"fmt"
 	"regexp/syntax"
 	"strconv"
+	"sync/atomic"
 
 	"github.com/zyedidia/gpeg/charset"
 	p "github.com/zyedidia/gpeg/pattern"
 )
 
-var num = 0
+var num int64
 
 func uniq() string {
-	num++
-	return "a" + strconv.Itoa(num)
+	return "a" + strconv.FormatInt(atomic.AddInt64(&num, 1), 10)
 }
 
 func star(r *syntax.Regexp, k p.Pattern) p.Pattern {
-- 
2.43.0


From f2e3fcf36130fc799d932d16d81f0dbe76b7b956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:08 +0000
Subject: [PATCH 18/46] fix: resolve a rule name in the innermost grammar that
 defines it

---
 pattern/compile.go  | 20 +++++++++++++++++---
 pattern/optimize.go | 20 +++++++++++++++++++-
 2 files changed, 36 insertions(+), 4 deletions(-)

diff --git a/pattern/compile.go b/pattern/compile.go
index fd9b3c3..5302071 100644
--- a/pattern/compile.go
+++ b/pattern/compile.go
@@ -24,6 +24,15 @@ func Compile(p Pattern) (isa.Program, error) {
 		return nil, err
 	}
 
+	for _, insn := range c {
+		if oc, ok := insn.(openCall); ok {
+			// no enclosing grammar defines this non-terminal
+			return nil, &NotFoundError{
+				Name: oc.name,
+			}
+		}
+	}
+
 	Optimize(c)
 	return c, nil
 }
@@ -366,6 +375,12 @@ func (p *EmptyOpNode) Compile() (isa.Program, error) {
 
 // Compile this node.
 func (p *GrammarNode) Compile() (isa.Program, error) {
+	if _, ok := p.Defs[p.Start]; !ok {
+		return nil, &NotFoundError{
+			Name: p.Start,
+		}
+	}
+
 	p.Inline()
 
 	used := make(map[string]bool)
@@ -410,9 +425,8 @@ func (p *GrammarNode) Compile() (isa.Program, error) {
 		if oc, ok := insn.(openCall); ok {
 			lbl, ok := labels[oc.name]
 			if !ok {
-				return nil, &NotFoundError{
-					Name: oc.name,
-				}
+				// leave this call to an enclosing grammar
+				continue
 			}
 
 			// replace this placeholder instruction with a normal call
diff --git a/pattern/optimize.go b/pattern/optimize.go
index 669d8d6..883ee56 100644
--- a/pattern/optimize.go
+++ b/pattern/optimize.go
@@ -120,11 +120,29 @@ func (p *GrammarNode) inline() bool {
 		leaves[n] = leaf
 	}
 
+	// A name that a nested grammar defines refers to that definition.
+	shadowed := make(map[*NonTermNode]bool)
+	for _, def := range p.Defs {
+		WalkPattern(def, true, func(s Pattern) {
+			g, ok := s.(*GrammarNode)
+			if !ok {
+				return
+			}
+			WalkPattern(g, true, func(s Pattern) {
+				if t, ok := s.(*NonTermNode); ok {
+					if _, ok := g.Defs[t.Name]; ok {
+						shadowed[t] = true
+					}
+				}
+			})
+		})
+	}
+
 	didInline := false
 	WalkPattern(p, true, func(sub Pattern) {
 		switch t := sub.(type) {
 		case *NonTermNode:
-			if sz, ok := sizes[t.Name]; ok && t.Inlined == nil {
+			if sz, ok := sizes[t.Name]; ok && t.Inlined == nil && !shadowed[t] {
 				// We only inline nodes if they are small enough and don't use
 				// any non-terminals themselves.
 				if sz < InlineThreshold && leaves[t.Name] {
-- 
2.43.0


From bcfd9aaab0babfd5fe51e139e25b83eab98cf65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:10 +0000
Subject: [PATCH 19/46] fix: keep the rule of a search apart from non-terminals
 of the pattern

---
 pattern/compile.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pattern/compile.go b/pattern/compile.go
index 5302071..744e822 100644
--- a/pattern/compile.go
+++ b/pattern/compile.go
@@ -324,6 +324,10 @@ func (p *CheckNode) Compile() (isa.Program, error) {
 	return code, err
 }
 
+// searchRule is the name of the rule that a search is compiled to. It must not
+// be the name of a non-terminal within the pattern that is searched for.
+const searchRule = "\x00search"
+
 // Compile this node.
 func (p *SearchNode) Compile() (isa.Program, error) {
 	var rsearch Pattern
@@ -354,13 +358,13 @@ func (p *SearchNode) Compile() (isa.Program, error) {
 	}
 
 	if opt {
-		rsearch = Concat(Star(Set(set)), NonTerm("S"))
+		rsearch = Concat(Star(Set(set)), NonTerm(searchRule))
 	} else {
-		rsearch = NonTerm("S")
+		rsearch = NonTerm(searchRule)
 	}
 
-	return Grammar("S", map[string]Pattern{
-		"S": Or(Get(p.Patt), Concat(Any(1), rsearch)),
+	return Grammar(searchRule, map[string]Pattern{
+		searchRule: Or(Get(p.Patt), Concat(Any(1), rsearch)),
 	}).Compile()
 }
 
-- 
2.43.0


From 5ca07bc9a47d88b216413670d87b401f508dae00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:30 +0000
Subject: [PATCH 20/46] fix: compile grammars without modifying the patterns
 they are made of

---
 pattern/compile.go |  3 +++
 pattern/nodes.go   | 39 +++++++++++++++++++++++++++++++++++++++
 pattern/string.go  |  1 +
 3 files changed, 43 insertions(+)

diff --git a/pattern/compile.go b/pattern/compile.go
index 744e822..c4da393 100644
--- a/pattern/compile.go
+++ b/pattern/compile.go
@@ -385,6 +385,9 @@ func (p *GrammarNode) Compile() (isa.Program, error) {
 		}
 	}
 
+	// The inliner modifies non-terminals. Work on a copy, since the patterns may
+	// also be part of other grammars, where names have another meaning.
+	p = clone(p).(*GrammarNode)
 	p.Inline()
 
 	used := make(map[string]bool)
diff --git a/pattern/nodes.go b/pattern/nodes.go
index 44613ad..21a9859 100644
--- a/pattern/nodes.go
+++ b/pattern/nodes.go
@@ -177,3 +177,42 @@ func WalkPattern(p Pattern, followInline bool, fn WalkFunc) {
 		}
 	}
 }
+
+// clone returns a copy of the nodes of the given pattern.
+func clone(p Pattern) Pattern {
+	switch t := p.(type) {
+	case *AltNode:
+		return &AltNode{Left: clone(t.Left), Right: clone(t.Right)}
+	case *SeqNode:
+		return &SeqNode{Left: clone(t.Left), Right: clone(t.Right)}
+	case *StarNode:
+		return &StarNode{Patt: clone(t.Patt)}
+	case *PlusNode:
+		return &PlusNode{Patt: clone(t.Patt)}
+	case *OptionalNode:
+		return &OptionalNode{Patt: clone(t.Patt)}
+	case *NotNode:
+		return &NotNode{Patt: clone(t.Patt)}
+	case *AndNode:
+		return &AndNode{Patt: clone(t.Patt)}
+	case *CapNode:
+		return &CapNode{Patt: clone(t.Patt), Id: t.Id}
+	case *MemoNode:
+		return &MemoNode{Patt: clone(t.Patt), Id: t.Id}
+	case *SearchNode:
+		return &SearchNode{Patt: clone(t.Patt)}
+	case *CheckNode:
+		return &CheckNode{Patt: clone(t.Patt), Checker: t.Checker, Id: t.Id, Flag: t.Flag}
+	case *ErrorNode:
+		return &ErrorNode{Message: t.Message, Recover: clone(t.Recover)}
+	case *GrammarNode:
+		defs := make(map[string]Pattern, len(t.Defs))
+		for name, def := range t.Defs {
+			defs[name] = clone(def)
+		}
+		return &GrammarNode{Defs: defs, Start: t.Start}
+	case *NonTermNode:
+		return &NonTermNode{Name: t.Name, Inlined: t.Inlined}
+	}
+	return p
+}
diff --git a/pattern/string.go b/pattern/string.go
index 6acbe68..222981b 100644
--- a/pattern/string.go
+++ b/pattern/string.go
@@ -43,6 +43,7 @@ func Prettify(p Pattern) string {
 		return fmt.Sprintf("empty(%v)", t.Op)
 	case *GrammarNode:
 		s := fmt.Sprintf("%s\n", t.Start)
+		t = clone(t).(*GrammarNode)
 		t.Inline()
 		for name, patt := range t.Defs {
 			s += fmt.Sprintf("%s <- %s\n", name, Prettify(Get(patt)))
-- 
2.43.0


From e8c5cbabfeef14927efaea334931165687a4e91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:32 +0000
Subject: [PATCH 21/46] fix: honour case folding of literals in converted
 regexps

---
 rxconv/rxconv.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/rxconv/rxconv.go b/rxconv/rxconv.go
index 8219b8d..2a04e62 100644
--- a/rxconv/rxconv.go
+++ b/rxconv/rxconv.go
@@ -7,6 +7,7 @@ import (
 	"regexp/syntax"
 	"strconv"
 	"sync/atomic"
+	"unicode"
 
 	"github.com/zyedidia/gpeg/charset"
 	p "github.com/zyedidia/gpeg/pattern"
@@ -18,6 +19,19 @@ func uniq() string {
 	return "a" + strconv.FormatInt(atomic.AddInt64(&num, 1), 10)
 }
 
+// fold matches the literal regardless of case.
+func fold(lit []rune) p.Pattern {
+	chars := make([]p.Pattern, 0, len(lit))
+	for _, r := range lit {
+		alts := []p.Pattern{p.Literal(string(r))}
+		for f := unicode.SimpleFold(r); f != r; f = unicode.SimpleFold(f) {
+			alts = append(alts, p.Literal(string(f)))
+		}
+		chars = append(chars, p.Or(alts...))
+	}
+	return p.Concat(chars...)
+}
+
 func star(r *syntax.Regexp, k p.Pattern) p.Pattern {
 	nterm := uniq()
 	nonterms := make(map[string]p.Pattern)
@@ -31,6 +45,9 @@ func pi(e *syntax.Regexp, k p.Pattern) p.Pattern {
 	case syntax.OpEmptyMatch:
 		return k
 	case syntax.OpLiteral:
+		if e.Flags&syntax.FoldCase != 0 {
+			return p.Concat(fold(e.Rune), k)
+		}
 		return p.Concat(p.Literal(string(e.Rune)), k)
 	case syntax.OpCharClass:
 		lits := make([]p.Pattern, 0, len(e.Rune))
-- 
2.43.0


From 86a68843e07a1e64c9197420867091175dc1fe51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:33 +0000
Subject: [PATCH 22/46] fix: honour non-greedy repetition in converted regexps

---
 rxconv/rxconv.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/rxconv/rxconv.go b/rxconv/rxconv.go
index 2a04e62..4ce54aa 100644
--- a/rxconv/rxconv.go
+++ b/rxconv/rxconv.go
@@ -32,10 +32,20 @@ func fold(lit []rune) p.Pattern {
 	return p.Concat(chars...)
 }
 
-func star(r *syntax.Regexp, k p.Pattern) p.Pattern {
+// either tries more before k, or after it if the repetition is not greedy.
+func either(flags syntax.Flags, more, k p.Pattern) p.Pattern {
+	if flags&syntax.NonGreedy != 0 {
+		return p.Or(k, more)
+	}
+	return p.Or(more, k)
+}
+
+// star matches r any number of times, and then k. The flags determine if the
+// repetition is greedy.
+func star(r *syntax.Regexp, flags syntax.Flags, k p.Pattern) p.Pattern {
 	nterm := uniq()
 	nonterms := make(map[string]p.Pattern)
-	nonterms[nterm] = p.Or(pi(r, p.NonTerm(nterm)), k)
+	nonterms[nterm] = either(flags, pi(r, p.NonTerm(nterm)), k)
 	return p.Grammar(nterm, nonterms)
 }
 
@@ -85,11 +95,11 @@ func pi(e *syntax.Regexp, k p.Pattern) p.Pattern {
 	case syntax.OpCapture:
 		return pi(e.Sub[0], k)
 	case syntax.OpStar:
-		return star(e.Sub[0], k)
+		return star(e.Sub[0], e.Flags, k)
 	case syntax.OpPlus:
-		return pi(e.Sub[0], star(e.Sub[0], k))
+		return pi(e.Sub[0], star(e.Sub[0], e.Flags, k))
 	case syntax.OpQuest:
-		return p.Or(pi(e.Sub[0], k), k)
+		return either(e.Flags, pi(e.Sub[0], k), k)
 	case syntax.OpBeginLine:
 		return p.Concat(p.EmptyOp(syntax.EmptyBeginLine), k)
 	case syntax.OpEndLine:
-- 
2.43.0


From 649c95be13da176da96973a448122a688590d91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:35 +0000
Subject: [PATCH 23/46] fix: refuse regexps that repeat an expression which may
 match nothing

---
 rxconv/rxconv.go | 35 +++++++++++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/rxconv/rxconv.go b/rxconv/rxconv.go
index 4ce54aa..7199432 100644
--- a/rxconv/rxconv.go
+++ b/rxconv/rxconv.go
@@ -126,7 +126,7 @@ func FromRegexp(s string, flags syntax.Flags) (p.Pattern, error) {
 		return nil, err
 	}
 	if !verify(re) {
-		return nil, fmt.Errorf("invalid regexp (repeat not supported)")
+		return nil, fmt.Errorf("invalid regexp (counted or empty repeat not supported)")
 	}
 	return p.Search(p.Cap(convert(re), 0)), nil
 }
@@ -144,8 +144,39 @@ func verify(e *syntax.Regexp) bool {
 			yes = yes && verify(s)
 		}
 		return yes
-	case syntax.OpCapture, syntax.OpStar, syntax.OpPlus, syntax.OpQuest:
+	case syntax.OpStar, syntax.OpPlus:
+		// repeating something that may match the empty string would be
+		// converted to left recursion
+		return !nullable(e.Sub[0]) && verify(e.Sub[0])
+	case syntax.OpCapture, syntax.OpQuest:
 		return verify(e.Sub[0])
 	}
 	return false
 }
+
+// nullable returns true if the expression may match the empty string.
+func nullable(e *syntax.Regexp) bool {
+	switch e.Op {
+	case syntax.OpLiteral:
+		return len(e.Rune) == 0
+	case syntax.OpCharClass, syntax.OpAnyChar, syntax.OpAnyCharNotNL:
+		return false
+	case syntax.OpConcat:
+		for _, s := range e.Sub {
+			if !nullable(s) {
+				return false
+			}
+		}
+		return true
+	case syntax.OpAlternate:
+		for _, s := range e.Sub {
+			if nullable(s) {
+				return true
+			}
+		}
+		return false
+	case syntax.OpCapture, syntax.OpPlus:
+		return nullable(e.Sub[0])
+	}
+	return true
+}
-- 
2.43.0


From ec8a0d20d8849baec96db59876a2e69694483569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:37 +0000
Subject: [PATCH 24/46] fix: convert character classes by bytes rather than by
 enumerating their runes

---
 rxconv/rxconv.go | 64 +++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 55 insertions(+), 9 deletions(-)

diff --git a/rxconv/rxconv.go b/rxconv/rxconv.go
index 7199432..c7925aa 100644
--- a/rxconv/rxconv.go
+++ b/rxconv/rxconv.go
@@ -8,6 +8,7 @@ import (
 	"strconv"
 	"sync/atomic"
 	"unicode"
+	"unicode/utf8"
 
 	"github.com/zyedidia/gpeg/charset"
 	p "github.com/zyedidia/gpeg/pattern"
@@ -32,6 +33,50 @@ func fold(lit []rune) p.Pattern {
 	return p.Concat(chars...)
 }
 
+// runes returns patterns that match the UTF-8 encodings of the non-ASCII runes
+// in the given (inclusive) range.
+func runes(lo, hi rune) []p.Pattern {
+	// split the range into ranges with encodings of equal length
+	for _, end := range []rune{0x7ff, 0xd7ff, 0xdfff, 0xffff} {
+		if lo <= end && end < hi {
+			return append(runes(lo, end), runes(end+1, hi)...)
+		}
+	}
+	if lo >= 0xd800 && hi <= 0xdfff {
+		// surrogates have no encoding
+		return nil
+	}
+	// split the range into ranges where each byte of the encoding is
+	// independent of the others
+	for i := 1; i < utf8.UTFMax; i++ {
+		m := rune(1)<<(6*i) - 1
+		if lo&^m == hi&^m {
+			continue
+		}
+		if lo&m != 0 {
+			return append(runes(lo, lo|m), runes((lo|m)+1, hi)...)
+		}
+		if hi&m != m {
+			return append(runes(lo, (hi&^m)-1), runes(hi&^m, hi)...)
+		}
+	}
+
+	if hi-lo < 64 {
+		chars := make([]p.Pattern, 0, hi-lo+1)
+		for ; lo <= hi; lo++ {
+			chars = append(chars, p.Literal(string(lo)))
+		}
+		return chars
+	}
+
+	low, high := []byte(string(lo)), []byte(string(hi))
+	bytes := make([]p.Pattern, len(low))
+	for i := range low {
+		bytes[i] = p.Set(charset.Range(low[i], high[i]))
+	}
+	return []p.Pattern{p.Concat(bytes...)}
+}
+
 // either tries more before k, or after it if the repetition is not greedy.
 func either(flags syntax.Flags, more, k p.Pattern) p.Pattern {
 	if flags&syntax.NonGreedy != 0 {
@@ -60,21 +105,22 @@ func pi(e *syntax.Regexp, k p.Pattern) p.Pattern {
 		}
 		return p.Concat(p.Literal(string(e.Rune)), k)
 	case syntax.OpCharClass:
-		lits := make([]p.Pattern, 0, len(e.Rune))
+		var set charset.Set
+		var chars []p.Pattern
 		for i := 0; i < len(e.Rune); i += 2 {
 			start := e.Rune[i]
 			end := e.Rune[i+1]
-			var patt p.Pattern
 			if start < 256 && end < 256 {
-				patt = p.Set(charset.Range(byte(start), byte(end)))
-				lits = append(lits, p.Concat(patt, k))
-			} else {
-				for ; start <= end; start++ {
-					lits = append(lits, p.Concat(p.Literal(string(start)), k))
-				}
+				set = set.Add(charset.Range(byte(start), byte(end)))
+				continue
+			}
+			if start < utf8.RuneSelf {
+				set = set.Add(charset.Range(byte(start), utf8.RuneSelf-1))
+				start = utf8.RuneSelf
 			}
+			chars = append(chars, runes(start, end)...)
 		}
-		return p.Or(lits...)
+		return p.Concat(p.Or(append(chars, p.Set(set))...), k)
 	case syntax.OpAnyChar:
 		// TODO: unicode
 		return p.Concat(p.Any(1), k)
-- 
2.43.0


From 70f084a3c0039cf88667155df136b1304c7b422b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:10 +0000
Subject: [PATCH 25/46] fix: hold the table lock for size, enumeration and
 position queries

---
 memo/tree.go | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/memo/tree.go b/memo/tree.go
index d24dfae..63c0ef0 100644
--- a/memo/tree.go
+++ b/memo/tree.go
@@ -44,8 +44,10 @@ func (t *TreeTable) Put(id, start, length, examined, count int, captures []*Capt
 		captures: captures,
 	}
 	t.lock.Lock()
-	e.setPos(t.Map.Add(id, start, start+examined, e))
-	t.lock.Unlock()
+	defer t.lock.Unlock()
+	pos := t.Map.Add(id, start, start+examined, e)
+	e.setPos(pos)
+	e.pos = lockedPos{pos, &t.lock}
 }
 
 func (t *TreeTable) ApplyEdit(e Edit) {
@@ -61,7 +63,9 @@ func (t *TreeTable) ApplyEdit(e Edit) {
 }
 
 func (t *TreeTable) AllValues() []*Entry {
+	t.lock.Lock()
 	vals := t.Map.AllValues()
+	t.lock.Unlock()
 	entries := make([]*Entry, len(vals))
 	for i, v := range vals {
 		entries[i] = v.(*Entry)
@@ -69,6 +73,26 @@ func (t *TreeTable) AllValues() []*Entry {
 	return entries
 }
 
+// Size returns the number of entries in the table.
+func (t *TreeTable) Size() int {
+	t.lock.Lock()
+	defer t.lock.Unlock()
+	return t.Map.Size()
+}
+
+// A lockedPos holds the lock of the table while it determines a position,
+// because this may apply pending shifts within the table.
+type lockedPos struct {
+	pos  interval.Pos
+	lock *sync.Mutex
+}
+
+func (p lockedPos) Pos() int {
+	p.lock.Lock()
+	defer p.lock.Unlock()
+	return p.pos.Pos()
+}
+
 func max(a, b int) int {
 	if a > b {
 		return a
-- 
2.43.0


From 7b3cb1deb4c3a8d044e7ce4afe707af74c78bbad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:15 +0000
Subject: [PATCH 26/46] fix: reject unclosed braces in grammar text in linear
 time

---
 re/grammar.go | 6 ++++--
 re/re.go      | 4 ++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/re/grammar.go b/re/grammar.go
index 5466a70..ee3a7fc 100644
--- a/re/grammar.go
+++ b/re/grammar.go
@@ -122,7 +122,9 @@ var grammar = map[string]p.Pattern{
 			p.NonTerm("PLUS"),
 		)),
 	), idSuffix),
-	"Primary": p.Cap(p.Or(
+	// Memoized, because the two kinds of braces begin alike: without it, the
+	// time to reject unclosed braces is exponential in their number.
+	"Primary": p.Memo(p.Cap(p.Or(
 		p.Concat(
 			p.NonTerm("Identifier"),
 			p.Not(p.NonTerm("LEFTARROW")),
@@ -145,7 +147,7 @@ var grammar = map[string]p.Pattern{
 		p.NonTerm("Literal"),
 		p.NonTerm("Class"),
 		p.NonTerm("DOT"),
-	), idPrimary),
+	), idPrimary)),
 
 	"Identifier": p.Cap(p.Concat(
 		p.NonTerm("IdentStart"),
diff --git a/re/re.go b/re/re.go
index 8a8cb35..8c03b95 100644
--- a/re/re.go
+++ b/re/re.go
@@ -181,7 +181,7 @@ func compileSet(root *memo.Capture, s string) charset.Set {
 }
 
 func Compile(s string) (pattern.Pattern, error) {
-	match, n, ast, errs := parser.Exec(strings.NewReader(s), memo.NoneTable{})
+	match, n, ast, errs := parser.Exec(strings.NewReader(s), memo.NewTreeTable(0))
 	if len(errs) != 0 {
 		return nil, errs[0]
 	}
@@ -201,7 +201,7 @@ func MustCompile(s string) pattern.Pattern {
 }
 
 func CompileCap(s string, ids map[string]int) (pattern.Pattern, error) {
-	match, n, ast, errs := parser.Exec(strings.NewReader(s), memo.NoneTable{})
+	match, n, ast, errs := parser.Exec(strings.NewReader(s), memo.NewTreeTable(0))
 	if len(errs) != 0 {
 		return nil, errs[0]
 	}
-- 
2.43.0


From 1bdeb84e218c56061ba9b4f51ef3663d41e5578a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:18 +0000
Subject: [PATCH 27/46] vm: add an instruction hook under the verif build tag

---
 vm/hook_off.go |  6 ++++++
 vm/hook_on.go  | 19 +++++++++++++++++++
 vm/vm.go       |  1 +
 3 files changed, 26 insertions(+)
 create mode 100644 vm/hook_off.go
 create mode 100644 vm/hook_on.go

diff --git a/vm/hook_off.go b/vm/hook_off.go
new file mode 100644
index 0000000..c2a99d2
--- /dev/null
+++ b/vm/hook_off.go
@@ -0,0 +1,6 @@
+//go:build !verif
+// +build !verif
+
+package vm
+
+func onStep(op byte) {}
diff --git a/vm/hook_on.go b/vm/hook_on.go
new file mode 100644
index 0000000..26c6c65
--- /dev/null
+++ b/vm/hook_on.go
@@ -0,0 +1,19 @@
+//go:build verif
+// +build verif
+
+package vm
+
+// StepHook, if not nil, is called before each instruction is executed. It must
+// be set before any program runs.
+var StepHook func(op byte)
+
+func onStep(op byte) {
+	if StepHook != nil {
+		StepHook(op)
+	}
+}
+
+// OpName returns the name of the instruction with the given opcode.
+func OpName(op byte) string {
+	return opstr(op)
+}
diff --git a/vm/vm.go b/vm/vm.go
index 6d93fd2..4aef5f6 100644
--- a/vm/vm.go
+++ b/vm/vm.go
@@ -86,6 +86,7 @@ func (vm *Code) exec(ip int, st *stack, src *input.Input, memtbl memo.Table, int
 loop:
 	for {
 		op := idata[ip]
+		onStep(op)
 		switch op {
 		case opChar:
 			b := decodeU8(idata[ip+1:])
-- 
2.43.0


From a6edc0d93503ab286e899c4d4356dbd550677cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:51 +0000
Subject: [PATCH 28/46] fix: count the examined bytes of a memo entry exactly,
 as its parents do

---
 vm/vm.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vm/vm.go b/vm/vm.go
index 4aef5f6..868722a 100644
--- a/vm/vm.go
+++ b/vm/vm.go
@@ -76,7 +76,7 @@ func (vm *Code) exec(ip int, st *stack, src *input.Input, memtbl memo.Table, int
 		if intrvl != nil {
 			capt = nil
 		}
-		mexam := max(src.Furthest(), src.Pos()) - pos + 1
+		mexam := src.Furthest() - pos + 1
 		memtbl.Put(id, pos, mlen, mexam, count, capt)
 	}
 
-- 
2.43.0


From abcbca5928e6880a31ab0287b364b4c2cb7a8c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:41 +0000
Subject: [PATCH 29/46] fix: keep the captures of memo entries in interval
 parses

---
 vm/vm.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/vm/vm.go b/vm/vm.go
index 868722a..ca49a13 100644
--- a/vm/vm.go
+++ b/vm/vm.go
@@ -73,10 +73,10 @@ func (vm *Code) exec(ip int, st *stack, src *input.Input, memtbl memo.Table, int
 	}
 
 	memoize := func(id, pos, mlen, count int, capt []*memo.Capture) {
-		if intrvl != nil {
+		mexam := src.Furthest() - pos + 1
+		if !overlaps(intrvl, pos, pos+mexam) {
 			capt = nil
 		}
-		mexam := src.Furthest() - pos + 1
 		memtbl.Put(id, pos, mlen, mexam, count, capt)
 	}
 
@@ -301,8 +301,10 @@ loop:
 				if ment.Length() == -1 {
 					goto fail
 				}
+				// captures of an entry that lies outside of the interval do
+				// not overlap it
 				capt := ment.Captures()
-				if capt != nil {
+				if capt != nil && overlaps(intrvl, src.Pos(), src.Pos()+ment.Examined()) {
 					st.addCapt(capt...)
 				}
 				src.Advance(ment.Length())
@@ -340,8 +342,10 @@ loop:
 					pos:   src.Pos(),
 					count: ment.Count(),
 				})
+				// captures of an entry that lies outside of the interval do
+				// not overlap it
 				capt := ment.Captures()
-				if capt != nil {
+				if capt != nil && overlaps(intrvl, src.Pos(), src.Pos()+ment.Examined()) {
 					st.addCapt(capt...)
 				}
 				src.Advance(ment.Length())
-- 
2.43.0


From 8b942f903e2de9564db140328512f45432e730f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:28 +0000
Subject: [PATCH 30/46] fix: SmallSet.Has must not fail for bytes the set
 cannot hold

---
 charset/charset.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/charset/charset.go b/charset/charset.go
index abef147..12f1c7a 100644
--- a/charset/charset.go
+++ b/charset/charset.go
@@ -33,7 +33,7 @@ func (c SmallSet) Size() int {
 // Has checks if a charset accepts a character.
 // Pointer receiver is for performance.
 func (c *SmallSet) Has(r byte) bool {
-	return c.Bits[r>>log2WordSize]&(uint64(1)<<(r&(wordSize-1))) != 0
+	return r < 2*wordSize && c.Bits[r>>log2WordSize]&(uint64(1)<<(r&(wordSize-1))) != 0
 }
 
 // IsSmall returns true if this set can be converted to a small set. In other
-- 
2.43.0


From 7d695a7027df9e0ec9d4521d81facecd97a2d3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:28 +0000
Subject: [PATCH 31/46] fix: report captures that reach out of one which does
 not overlap the interval

---
 vm/vm.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vm/vm.go b/vm/vm.go
index ca49a13..34fcdaa 100644
--- a/vm/vm.go
+++ b/vm/vm.go
@@ -283,6 +283,10 @@ loop:
 				caprange.High = max(caprange.High, end)
 				capt := memo.NewCaptureNode(int(ent.memo.id), ent.memo.pos, end-ent.memo.pos, ent.capt)
 				st.addCapt(capt)
+			} else {
+				// captures may reach out of the one around them, and overlap
+				// the interval where that one does not
+				st.addCapt(ent.capt...)
 			}
 			ip += szCaptureEnd
 		case opEnd:
-- 
2.43.0


From bc61d60a8e1c4a183f540a3e2c6ed304837a7c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:36 +0000
Subject: [PATCH 32/46] fix: line lengths with a separator that overlaps itself

---
 input/linerope/line.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/input/linerope/line.go b/input/linerope/line.go
index af58b4f..d4f31f9 100644
--- a/input/linerope/line.go
+++ b/input/linerope/line.go
@@ -15,7 +15,9 @@ func llen(b, sep []byte) loc {
 	lines := bytes.Count(b, sep)
 
 	if lines != 0 {
-		last := bytes.LastIndex(b, sep) + len(sep)
+		// the last separator as counted from the front: bytes.LastIndex may find
+		// one that overlaps another separator
+		last := indexN(b, sep, lines) + len(sep)
 		return loc{
 			line: lines,
 			col:  len(b) - last,
-- 
2.43.0


From 9e25d444030657ec9cc759e88bba9405cf309637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:06 +0000
Subject: [PATCH 33/46] fix: the printed form of a capture tree

---
 memo/capture.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/memo/capture.go b/memo/capture.go
index 039229a..6632c8a 100644
--- a/memo/capture.go
+++ b/memo/capture.go
@@ -132,11 +132,12 @@ func (c *Capture) setMEnt(e *Entry) {
 // of this node and its children.
 func (c *Capture) String() string {
 	buf := &bytes.Buffer{}
-	for i, c := range c.children {
-		buf.WriteString(c.String())
-		if i != len(c.children)-1 {
+	it := c.ChildIterator(0)
+	for ch := it(); ch != nil; ch = it() {
+		if buf.Len() != 0 {
 			buf.WriteString(", ")
 		}
+		buf.WriteString(ch.String())
 	}
 	return fmt.Sprintf("{%d, [%s]}", c.id, buf.String())
 }
-- 
2.43.0


From b2d4af41d0b11fd7d8071466ac3d30ef294fcb55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:45 +0000
Subject: [PATCH 34/46] Count node visits of the interval tree under the verif
 build tag

---
 memo/interval/lazylog/hook_off.go |  6 ++++++
 memo/interval/lazylog/hook_on.go  | 14 ++++++++++++++
 memo/interval/lazylog/tree.go     |  1 +
 3 files changed, 21 insertions(+)
 create mode 100644 memo/interval/lazylog/hook_off.go
 create mode 100644 memo/interval/lazylog/hook_on.go

diff --git a/memo/interval/lazylog/hook_off.go b/memo/interval/lazylog/hook_off.go
new file mode 100644
index 0000000..2522294
--- /dev/null
+++ b/memo/interval/lazylog/hook_off.go
@@ -0,0 +1,6 @@
+//go:build !verif
+// +build !verif
+
+package lazylog
+
+func onVisit() {}
diff --git a/memo/interval/lazylog/hook_on.go b/memo/interval/lazylog/hook_on.go
new file mode 100644
index 0000000..2651bbe
--- /dev/null
+++ b/memo/interval/lazylog/hook_on.go
@@ -0,0 +1,14 @@
+//go:build verif
+// +build verif
+
+package lazylog
+
+// VisitHook, if not nil, is called whenever an operation visits a node of a
+// tree. It must be set before any tree is used.
+var VisitHook func()
+
+func onVisit() {
+	if VisitHook != nil {
+		VisitHook()
+	}
+}
diff --git a/memo/interval/lazylog/tree.go b/memo/interval/lazylog/tree.go
index 66d5c3a..c83df8b 100644
--- a/memo/interval/lazylog/tree.go
+++ b/memo/interval/lazylog/tree.go
@@ -411,6 +411,7 @@ func (n *node) applyShift(s *shift) {
 }
 
 func (n *node) applyShifts() {
+	onVisit()
 	// optimization: first check if we are completely up-to-date and if so
 	// there is nothing to do.
 	if len(n.tree.shifts) == 0 || n.tstamp >= n.tree.shifts[len(n.tree.shifts)-1].tstamp {
-- 
2.43.0


From 95eeab9f44215bffa359e44fbfb4f5fe0de37a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:02 +0000
Subject: [PATCH 35/46] fix: edits that visit the whole interval tree

The largest end below a node never went down again when intervals were
removed, so that after a while edits had to visit most of the nodes.
---
 memo/interval/lazylog/tree.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/memo/interval/lazylog/tree.go b/memo/interval/lazylog/tree.go
index c83df8b..0b5d88a 100644
--- a/memo/interval/lazylog/tree.go
+++ b/memo/interval/lazylog/tree.go
@@ -180,13 +180,15 @@ func (n *node) add(tree *Tree, key key, value interval) (*node, *lazyInterval) {
 
 func (n *node) updateMax() {
 	if n != nil {
+		n.max = n.interval.High()
 		if n.right != nil {
+			n.right.applyShifts()
 			n.max = max(n.max, n.right.max)
 		}
 		if n.left != nil {
+			n.left.applyShifts()
 			n.max = max(n.max, n.left.max)
 		}
-		n.max = max(n.max, n.interval.High())
 	}
 }
 
@@ -280,10 +282,10 @@ func (n *node) removeOverlaps(low, high int) *node {
 	}
 
 	if high < n.key.pos {
-		return n
+		return n.rebalanceTree()
 	}
 	n.right = n.right.removeOverlaps(low, high)
-	return n
+	return n.rebalanceTree()
 }
 
 func (n *node) allvals(vals []intval.Value) []intval.Value {
@@ -402,12 +404,12 @@ func (n *node) applyShift(s *shift) {
 	if n.max < s.idx {
 		return
 	}
-	n.max += s.amt
+	// the intervals that are not shifted end at s.idx at the latest
+	n.max = max(n.max+s.amt, s.idx)
 	if n.key.pos >= s.idx {
 		n.key.pos += s.amt
 		n.interval.Shift(s.amt)
 	}
-	n.updateMax()
 }
 
 func (n *node) applyShifts() {
-- 
2.43.0


From 3097373920ef55f989cc4dc46671a9d1d8419499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:31 +0000
Subject: [PATCH 36/46] fix: printed forms of any-n and of repeated predicates

---
 pattern/string.go | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/pattern/string.go b/pattern/string.go
index 222981b..eb7618e 100644
--- a/pattern/string.go
+++ b/pattern/string.go
@@ -3,6 +3,7 @@ package pattern
 import (
 	"fmt"
 	"strconv"
+	"strings"
 )
 
 func Prettify(p Pattern) string {
@@ -12,7 +13,13 @@ func Prettify(p Pattern) string {
 	case *ClassNode:
 		return fmt.Sprintf("[%s]", t.Chars.String())
 	case *DotNode:
-		return "."
+		switch t.N {
+		case 0:
+			return "\"\""
+		case 1:
+			return "."
+		}
+		return "(" + strings.Repeat(". ", int(t.N)-1) + ".)"
 	case *EmptyNode:
 		return "\"\""
 	case *AltNode:
@@ -20,11 +27,11 @@ func Prettify(p Pattern) string {
 	case *SeqNode:
 		return fmt.Sprintf("(%s %s)", Prettify(Get(t.Left)), Prettify(Get(t.Right)))
 	case *StarNode:
-		return fmt.Sprintf("%s*", Prettify(Get(t.Patt)))
+		return fmt.Sprintf("%s*", operand(t.Patt))
 	case *PlusNode:
-		return fmt.Sprintf("%s+", Prettify(Get(t.Patt)))
+		return fmt.Sprintf("%s+", operand(t.Patt))
 	case *OptionalNode:
-		return fmt.Sprintf("%s?", Prettify(Get(t.Patt)))
+		return fmt.Sprintf("%s?", operand(t.Patt))
 	case *NotNode:
 		return fmt.Sprintf("!%s", Prettify(Get(t.Patt)))
 	case *AndNode:
@@ -58,3 +65,13 @@ func Prettify(p Pattern) string {
 
 	return "<invalid>"
 }
+
+// operand returns the printed form of a pattern that a suffix follows. A
+// suffix binds tighter than a prefix.
+func operand(p Pattern) string {
+	s := Prettify(Get(p))
+	if strings.HasPrefix(s, "!") || strings.HasPrefix(s, "&") {
+		return "(" + s + ")"
+	}
+	return s
+}
-- 
2.43.0


From 6fc0a49e6d6129ad33051830d510349986ddd89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:33 +0000
Subject: [PATCH 37/46] fix: printed grammars list their rules in a fixed order

---
 pattern/string.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pattern/string.go b/pattern/string.go
index eb7618e..451a60f 100644
--- a/pattern/string.go
+++ b/pattern/string.go
@@ -2,6 +2,7 @@ package pattern
 
 import (
 	"fmt"
+	"sort"
 	"strconv"
 	"strings"
 )
@@ -52,8 +53,13 @@ func Prettify(p Pattern) string {
 		s := fmt.Sprintf("%s\n", t.Start)
 		t = clone(t).(*GrammarNode)
 		t.Inline()
-		for name, patt := range t.Defs {
-			s += fmt.Sprintf("%s <- %s\n", name, Prettify(Get(patt)))
+		names := make([]string, 0, len(t.Defs))
+		for name := range t.Defs {
+			names = append(names, name)
+		}
+		sort.Strings(names)
+		for _, name := range names {
+			s += fmt.Sprintf("%s <- %s\n", name, Prettify(Get(t.Defs[name])))
 		}
 		return s
 	case *NonTermNode:
-- 
2.43.0


From fc73033c5c89feebed82613aeb405aae0a7717b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:43 +0000
Subject: [PATCH 38/46] fix: JSON strings that start with several escapes

A string whose first two characters are escapes, such as "\n\n", was refused.
---
 grammars/json.peg      | 2 +-
 grammars/json_memo.peg | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/grammars/json.peg b/grammars/json.peg
index 9073074..1fe19f1 100644
--- a/grammars/json.peg
+++ b/grammars/json.peg
@@ -2,7 +2,7 @@ doc           <- JSON !.
 JSON          <- S_ (Number / Object / Array / String / True / False / Null) S_
 Object        <- '{' (String ':' JSON (',' String ':' JSON)* / S_) '}'
 Array         <- '[' (JSON (',' JSON)* / S_) ']'
-StringBody    <- Escape? ((!["\\\00-\37] .)+ Escape*)*
+StringBody    <- (Escape / !["\\\00-\37] .)*
 String        <- S_ '"' StringBody '"' S_
 Escape        <- '\\' (["{|\\bfnrt] / UnicodeEscape)
 UnicodeEscape <- 'u' [0-9A-Fa-f][0-9A-Fa-f][0-9A-Fa-f][0-9A-Fa-f]
diff --git a/grammars/json_memo.peg b/grammars/json_memo.peg
index 0e75955..c7ad2b2 100644
--- a/grammars/json_memo.peg
+++ b/grammars/json_memo.peg
@@ -2,7 +2,7 @@ doc           <- JSON !.
 JSON          <- S_ (Number / Object / Array / String / True / False / Null) S_
 Object        <- '{' (String ':' JSON (',' String ':' JSON)* / S_) '}'
 Array         <- '[' (JSON ({{',' JSON}})* / S_) ']'
-StringBody    <- Escape? ((!["\\\00-\37] .)+ Escape*)*
+StringBody    <- (Escape / !["\\\00-\37] .)*
 String        <- S_ '"' StringBody '"' S_
 Escape        <- '\\' (["{|\\bfnrt] / UnicodeEscape)
 UnicodeEscape <- 'u' [0-9A-Fa-f][0-9A-Fa-f][0-9A-Fa-f][0-9A-Fa-f]
-- 
2.43.0


From 0c53300c1110f998a829a0c49c618a8e3b771a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:43 +0000
Subject: [PATCH 39/46] fix: the escapes of JSON strings

JSON has \/, and neither \{ nor \|.
---
 grammars/json.peg      | 2 +-
 grammars/json_memo.peg | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/grammars/json.peg b/grammars/json.peg
index 1fe19f1..e07f55d 100644
--- a/grammars/json.peg
+++ b/grammars/json.peg
@@ -4,7 +4,7 @@ Object        <- '{' (String ':' JSON (',' String ':' JSON)* / S_) '}'
 Array         <- '[' (JSON (',' JSON)* / S_) ']'
 StringBody    <- (Escape / !["\\\00-\37] .)*
 String        <- S_ '"' StringBody '"' S_
-Escape        <- '\\' (["{|\\bfnrt] / UnicodeEscape)
+Escape        <- '\\' (["/\\bfnrt] / UnicodeEscape)
 UnicodeEscape <- 'u' [0-9A-Fa-f][0-9A-Fa-f][0-9A-Fa-f][0-9A-Fa-f]
 Number        <- Minus? IntPart FractPart? ExpPart?
 Minus         <- '-'
diff --git a/grammars/json_memo.peg b/grammars/json_memo.peg
index c7ad2b2..0c6cc8f 100644
--- a/grammars/json_memo.peg
+++ b/grammars/json_memo.peg
@@ -4,7 +4,7 @@ Object        <- '{' (String ':' JSON (',' String ':' JSON)* / S_) '}'
 Array         <- '[' (JSON ({{',' JSON}})* / S_) ']'
 StringBody    <- (Escape / !["\\\00-\37] .)*
 String        <- S_ '"' StringBody '"' S_
-Escape        <- '\\' (["{|\\bfnrt] / UnicodeEscape)
+Escape        <- '\\' (["/\\bfnrt] / UnicodeEscape)
 UnicodeEscape <- 'u' [0-9A-Fa-f][0-9A-Fa-f][0-9A-Fa-f][0-9A-Fa-f]
 Number        <- Minus? IntPart FractPart? ExpPart?
 Minus         <- '-'
-- 
2.43.0


From 8f74540939300b23d920c2dc6e7ea3b04975101f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:43 +0000
Subject: [PATCH 40/46] fix: the white space of JSON

Vertical tabs and form feeds are not white space in JSON.
---
 grammars/json.peg      | 2 +-
 grammars/json_memo.peg | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/grammars/json.peg b/grammars/json.peg
index e07f55d..9acfa2e 100644
--- a/grammars/json.peg
+++ b/grammars/json.peg
@@ -14,4 +14,4 @@ ExpPart       <- [eE] [+\-]? [0-9]+
 True          <- 'true'
 False         <- 'false'
 Null          <- 'null'
-S_            <- [\11-\15\40]*
+S_            <- [ \t\n\r]*
diff --git a/grammars/json_memo.peg b/grammars/json_memo.peg
index 0c6cc8f..4d9a8f2 100644
--- a/grammars/json_memo.peg
+++ b/grammars/json_memo.peg
@@ -14,4 +14,4 @@ ExpPart       <- [eE] [+\-]? [0-9]+
 True          <- 'true'
 False         <- 'false'
 Null          <- 'null'
-S_            <- [\11-\15\40]*
+S_            <- [ \t\n\r]*
-- 
2.43.0


From 63e40918a5bc4ed9ff413142a799ef7c87e86955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:43 +0000
Subject: [PATCH 41/46] fix: grammars in lpeg.peg

An empty alternative matches ahead of any grammar, so that grammars were refused.
---
 grammars/lpeg.peg | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/grammars/lpeg.peg b/grammars/lpeg.peg
index 608bb50..5fdc0bc 100644
--- a/grammars/lpeg.peg
+++ b/grammars/lpeg.peg
@@ -1,5 +1,5 @@
 pattern         <- exp !.
-exp             <- S (alternative / grammar)
+exp             <- S (grammar / alternative)
 
 alternative     <- seq ('/' S seq)*
 seq             <- prefix*
-- 
2.43.0


From dc63294b58626b164c6dea1b5a9237c3f5fff667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:43 +0000
Subject: [PATCH 42/46] fix: Java files that end in a comment

A line comment need not be followed by a line terminator.
---
 grammars/java.peg      | 2 +-
 grammars/java_memo.peg | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/grammars/java.peg b/grammars/java.peg
index dc7492f..3c88e20 100644
--- a/grammars/java.peg
+++ b/grammars/java.peg
@@ -622,7 +622,7 @@ ElementValues
 Spacing
      <- ( [ \t\r\n]+              # WhiteSpace [ \t\r\n\u000C]+
       / '/*' (!'*/' .)* '*/'      # TraditionalComment
-      / '//' (![\r\n] .)* [\r\n]  # EndOfLineComment
+      / '//' (![\r\n] .)*         # EndOfLineComment
       )*
 
 #-------------------------------------------------------------------------
diff --git a/grammars/java_memo.peg b/grammars/java_memo.peg
index bb430bc..c767146 100644
--- a/grammars/java_memo.peg
+++ b/grammars/java_memo.peg
@@ -622,7 +622,7 @@ ElementValues
 Spacing
      <- ( [ \t\r\n]+              # WhiteSpace [ \t\r\n\u000C]+
       / '/*' (!'*/' .)* '*/'      # TraditionalComment
-      / '//' (![\r\n] .)* [\r\n]  # EndOfLineComment
+      / '//' (![\r\n] .)*         # EndOfLineComment
       )*
 
 #-------------------------------------------------------------------------
-- 
2.43.0


From 7df0d0786406476eabcedd76fece91a3e7548357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:18 +0000
Subject: [PATCH 43/46] fix: re.peg describes the syntax that re reads

It refused every grammar, because an empty expression matches ahead of it, and
had no spacing after brackets, arrows and slashes, other braces for
memoization, and no \-.
---
 grammars/re.peg | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/grammars/re.peg b/grammars/re.peg
index 940e92c..6399130 100644
--- a/grammars/re.peg
+++ b/grammars/re.peg
@@ -1,16 +1,16 @@
-Pattern    <- Spacing_ (Expression / Grammar) EndOfFile_
+Pattern    <- Spacing_ (Grammar / Expression) EndOfFile_
 Grammar    <- Definition+
-Definition <- Identifier '<-' Expression
+Definition <- Identifier LEFTARROW Expression
 
-Expression <- Sequence ('/' Sequence)*
+Expression <- Sequence (SLASH Sequence)*
 Sequence   <- Prefix*
 Prefix     <- (AND / NOT)? Suffix
 Suffix     <- Primary (QUESTION / STAR / PLUS)?
-Primary    <- Identifier !'<-'
-            / '(' Expression ')'
+Primary    <- Identifier !LEFTARROW
+            / OPEN Expression CLOSE
             / Literal / Class
-            / '{' Expression '}'
-            / '{+' Expression '+}'
+            / BRACEPO Expression BRACEPC
+            / BRACEO Expression BRACEC
             / DOT
 
 # Lexical syntax
@@ -22,7 +22,7 @@ Literal    <- ['] (!['] Char)* ['] Spacing_
             / ["] (!["] Char)* ["] Spacing_
 Class      <- '[' CARAT? (!']' Range)* ']' Spacing_
 Range      <- Char '-' Char / Char
-Char       <- '\\' [nrt'"\[\]\\]
+Char       <- '\\' [nrt'"\[\]\\\-]
             / '\\' [0-2][0-7][0-7]
             / '\\' [0-7][0-7]?
             / !'\\' .
@@ -34,6 +34,14 @@ STAR       <- '*' Spacing_
 PLUS       <- '+' Spacing_
 DOT        <- '.' Spacing_
 CARAT      <- '^' Spacing_
+BRACEO     <- '{' Spacing_
+BRACEC     <- '}' Spacing_
+BRACEPO    <- '{{' Spacing_
+BRACEPC    <- '}}' Spacing_
+LEFTARROW  <- '<-' Spacing_
+OPEN       <- '(' Spacing_
+CLOSE      <- ')' Spacing_
+SLASH      <- '/' Spacing_
 
 Spacing_   <- (Space_ / Comment_)*
 Comment_   <- '#' (!EndOfLine_ .)* EndOfLine_
-- 
2.43.0


From 9776933324688f17037b6fb774152d4b2cb50f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:18 +0000
Subject: [PATCH 44/46] fix: wide character constants in c.peg

The L of one was taken for an enumeration constant.
---
 grammars/c.peg | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/grammars/c.peg b/grammars/c.peg
index ee02a73..e88a4af 100644
--- a/grammars/c.peg
+++ b/grammars/c.peg
@@ -528,8 +528,8 @@ HexQuad <- HexDigit HexDigit HexDigit HexDigit
 Constant
    <- FloatConstant
     / IntegerConstant       # Note: can be a prefix of Float Constant!
-    / EnumerationConstant
     / CharacterConstant
+    / EnumerationConstant   # Note: can be a prefix of Character Constant!
 
 IntegerConstant
    <- ( DecimalConstant
-- 
2.43.0


From f9d1dc5528f793b076d6716e23fa62d142283bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:15 +0000
Subject: [PATCH 45/46] fix: empty character constants in c.peg

A character constant has at least one character.
---
 grammars/c.peg | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/grammars/c.peg b/grammars/c.peg
index e88a4af..1be2262 100644
--- a/grammars/c.peg
+++ b/grammars/c.peg
@@ -587,7 +587,7 @@ FloatSuffix <- [flFL]
 
 EnumerationConstant <- Identifier
 
-CharacterConstant <- 'L'? ['] Char* ['] Spacing
+CharacterConstant <- 'L'? ['] Char+ ['] Spacing
 
 Char <- Escape / !['\n\\] .
 
-- 
2.43.0


From 6a2d562184d43804295e5db9c7c31b13365cf31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:50 +0000
Subject: [PATCH 46/46] fix: regexp classes with letters between U+0080 and
 U+00FF

These were taken for single bytes, while the text holds their encodings.
---
 rxconv/rxconv.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rxconv/rxconv.go b/rxconv/rxconv.go
index c7925aa..f276af6 100644
--- a/rxconv/rxconv.go
+++ b/rxconv/rxconv.go
@@ -110,7 +110,7 @@ func pi(e *syntax.Regexp, k p.Pattern) p.Pattern {
 		for i := 0; i < len(e.Rune); i += 2 {
 			start := e.Rune[i]
 			end := e.Rune[i+1]
-			if start < 256 && end < 256 {
+			if end < utf8.RuneSelf {
 				set = set.Add(charset.Range(byte(start), byte(end)))
 				continue
 			}
-- 
2.43.0

