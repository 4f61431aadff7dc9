From c4ff2f1cbfb336023bf9f0eeaad67a5bdbf385d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:55 +0000
Subject: [PATCH 01/15] fix: integer min and max are exact beyond 2^53

Comparing through float64 rounded large values.
---
 xmath/xmath.go | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/xmath/xmath.go b/xmath/xmath.go
index 2174ab1..23b31c6 100644
--- a/xmath/xmath.go
+++ b/xmath/xmath.go
@@ -20,22 +20,38 @@ import "math"
 
 // MaxInt returns the maximum value.
 func MaxInt(a, b int) int {
-	return int(math.Max(float64(a), float64(b)))
+	if a > b {
+		return a
+	}
+
+	return b
 }
 
 // MinInt returns minimum value.
 func MinInt(a, b int) int {
-	return int(math.Min(float64(a), float64(b)))
+	if a < b {
+		return a
+	}
+
+	return b
 }
 
 // MaxInt64 returns the maximum value.
 func MaxInt64(a, b int64) int64 {
-	return int64(math.Max(float64(a), float64(b)))
+	if a > b {
+		return a
+	}
+
+	return b
 }
 
 // MinInt64 returns minimum value.
 func MinInt64(a, b int64) int64 {
-	return int64(math.Min(float64(a), float64(b)))
+	if a < b {
+		return a
+	}
+
+	return b
 }
 
 // MaxFloat64 returns the maximum value.
-- 
2.43.0


From 67c7e001000d8e628e748d87fa8f08eb7778621b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:55 +0000
Subject: [PATCH 02/15] fix: Joiner separates elements only, also after Grow
 and Reset

The first element written after Grow or Reset was preceded by a step.
---
 xstring/stringjoiner.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/xstring/stringjoiner.go b/xstring/stringjoiner.go
index 3b8edb0..d0f3c1a 100644
--- a/xstring/stringjoiner.go
+++ b/xstring/stringjoiner.go
@@ -23,7 +23,8 @@ type (
 	Joiner struct {
 		b    *strings.Builder
 		opts *joinerOptions
-		n    int // n is length of prefix and suffix for
+		n    int  // n is length of prefix and suffix for
+		some bool // some reports whether an element has been written
 	}
 	// joinerOptions a option.
 	joinerOptions struct {
@@ -132,9 +133,11 @@ func (j *Joiner) String() string {
 func (j *Joiner) tryWriteStep() {
 	if j.b == nil {
 		j.b = &strings.Builder{}
-	} else {
+	}
+	if j.some {
 		j.b.WriteString(j.opts.step)
 	}
+	j.some = true
 }
 
 // Grow grows b's capacity, if necessary, to guarantee space for
@@ -164,6 +167,7 @@ func (j *Joiner) Reset() {
 	if j.b != nil {
 		j.b.Reset()
 	}
+	j.some = false
 }
 
 // Len returns the len of accumulated string.
-- 
2.43.0


From 0bec45155a36153c99e6673eb68dcf6311deafea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:55 +0000
Subject: [PATCH 03/15] fix: Rotate reduces the shift modulo the number of
 characters

---
 xstring/xstring.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xstring/xstring.go b/xstring/xstring.go
index 8ead1e3..bc9faf3 100644
--- a/xstring/xstring.go
+++ b/xstring/xstring.go
@@ -177,7 +177,7 @@ func Rotate(s string, shift int) string {
 		return s
 	}
 
-	sLen := len(s)
+	sLen := Len(s)
 	if sLen == 0 {
 		return s
 	}
-- 
2.43.0


From 5cc4445d0472d9eb935730bf409ea510e6ee3875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:55 +0000
Subject: [PATCH 04/15] fix: Reverse accepts strings that contain U+FFFD

---
 xstring/xstring.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xstring/xstring.go b/xstring/xstring.go
index bc9faf3..8d8630e 100644
--- a/xstring/xstring.go
+++ b/xstring/xstring.go
@@ -286,7 +286,7 @@ func Reverse(s string) (string, error) {
 	for srcIndex > 0 {
 		r, n := utf8.DecodeLastRune(src[:srcIndex])
 
-		if r == utf8.RuneError {
+		if r == utf8.RuneError && n <= 1 {
 			return hack.BytesToString(dst), ErrDecodeChar
 		}
 
-- 
2.43.0


From bc94c6f42ac14d642324eaf049c1bb4040ce4fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:55 +0000
Subject: [PATCH 05/15] fix: DeleteWhitespace compares bytes with bytes

---
 xstring/xstring.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xstring/xstring.go b/xstring/xstring.go
index 8d8630e..eceb9d4 100644
--- a/xstring/xstring.go
+++ b/xstring/xstring.go
@@ -701,7 +701,7 @@ func DeleteWhitespace(str string) string {
 		}
 	}
 
-	if builder.Len() == strLen {
+	if builder.Len() == len(str) {
 		return str
 	}
 
-- 
2.43.0


From 4fc55d16f56d7d0bdb20634802950abb9d6156c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:55 +0000
Subject: [PATCH 06/15] fix: EqualsIgnoreCase does not accept a proper prefix

---
 xstring/xstring.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xstring/xstring.go b/xstring/xstring.go
index eceb9d4..684594e 100644
--- a/xstring/xstring.go
+++ b/xstring/xstring.go
@@ -759,7 +759,7 @@ func EqualsIgnoreCase(str1, str2 string) bool {
 		return true
 	}
 
-	return RegionMatches(str1, true, 0, str2, 0, Len(str1))
+	return Len(str1) == Len(str2) && RegionMatches(str1, true, 0, str2, 0, Len(str1))
 }
 
 // EqualsAny returns ture if str exists in strings.
-- 
2.43.0


From 273748290925c12914669647b235655dd2db5873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:55 +0000
Subject: [PATCH 07/15] fix: Abbreviate keeps the text at the requested offset

With an offset the beginning of the string was shown instead.
---
 xstring/xstring.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/xstring/xstring.go b/xstring/xstring.go
index 684594e..b636f0c 100644
--- a/xstring/xstring.go
+++ b/xstring/xstring.go
@@ -794,6 +794,9 @@ func Abbreviate(str, abbrevMarker string, offset, maxWidth int) (string, error)
 	if strLen <= maxWidth {
 		return str, nil
 	}
+	if offset < 0 {
+		offset = 0
+	}
 	if offset > strLen {
 		offset = strLen
 	}
@@ -807,12 +810,12 @@ func Abbreviate(str, abbrevMarker string, offset, maxWidth int) (string, error)
 		return empty, fmt.Errorf("minimum abbreviation width with offset is %d", minAbbrevWidthOffset)
 	}
 	if offset+maxWidth-abbrevMarkerLen < strLen {
-		substr, err := Abbreviate(Sub(str, 0, offset), abbrevMarker, 0, maxWidth-abbrevMarkerLen)
+		substr, err := Abbreviate(Right(str, offset), abbrevMarker, 0, maxWidth-abbrevMarkerLen)
 		if err == nil {
 			return abbrevMarker + substr, nil
 		}
 		return empty, err
 	}
 
-	return abbrevMarker + Sub(str, 0, strLen-(maxWidth-abbrevMarkerLen)), nil
+	return abbrevMarker + Right(str, strLen-(maxWidth-abbrevMarkerLen)), nil
 }
-- 
2.43.0


From 369915f42fd2ab818ed211b9f509d0d60833dc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:26 +0000
Subject: [PATCH 08/15] fix: Map.ComputeIfPresent recomputes when the value
 changed meanwhile

The result computed from an outdated value could replace a newer one.
---
 xsync/map.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xsync/map.go b/xsync/map.go
index eedd84f..d19ca4b 100644
--- a/xsync/map.go
+++ b/xsync/map.go
@@ -364,10 +364,11 @@ func (e *entry) tryComputeIfPresent(key interface{}, computeFunc func(key, value
 	if p == nil {
 		return nil, false, true
 	}
-	i := computeFunc(key, *(*interface{})(p))
-	ic := i
 
 	for {
+		// The value must be computed from the one it replaces.
+		i := computeFunc(key, *(*interface{})(p))
+		ic := i
 		if atomic.CompareAndSwapPointer(&e.p, p, unsafe.Pointer(&ic)) {
 			return i, true, true
 		}
-- 
2.43.0


From f3f798f02e970e53b3fc09f5dbd85c1c282ff60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:26 +0000
Subject: [PATCH 09/15] fix: Map.Clear stores the empty snapshot atomically

Assigning the atomic.Value raced with lock-free readers.
---
 xsync/map.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xsync/map.go b/xsync/map.go
index d19ca4b..f1fb6e0 100644
--- a/xsync/map.go
+++ b/xsync/map.go
@@ -418,7 +418,7 @@ func (m *Map) Delete(key interface{}) {
 // Clear clears all elements.
 func (m *Map) Clear() {
 	m.mu.Lock()
-	m.read = atomic.Value{}
+	m.read.Store(readOnly{})
 	m.dirty = nil
 	m.misses = 0
 	m.mu.Unlock()
-- 
2.43.0


From 3cc7f4ab87767f7435c67b3bd32447e55e3c6a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:26 +0000
Subject: [PATCH 10/15] fix: WriteBytes rejects payloads longer than its length
 field

The length was truncated to 16 bits.
---
 xbinary/xbinary.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xbinary/xbinary.go b/xbinary/xbinary.go
index 4d6b273..8b613f0 100644
--- a/xbinary/xbinary.go
+++ b/xbinary/xbinary.go
@@ -21,6 +21,7 @@ import (
 	"errors"
 	"github.com/chenquan/go-pkg/xbytes"
 	"io"
+	"math"
 )
 
 var (
@@ -120,6 +121,9 @@ func WriteUint32(w io.Writer, i uint32) error {
 // WriteBytes writes bytes.
 func WriteBytes(w io.Writer, s []byte) (err error) {
 	// length
+	if len(s) > math.MaxUint16 {
+		return ErrInvalidLength
+	}
 	err = WriteUint16(w, uint16(len(s)))
 	if err == nil {
 		_, err = w.Write(s)
-- 
2.43.0


From 817d446609b4e579089b4913322930f38ce3a2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:26 +0000
Subject: [PATCH 11/15] fix: fixed-size reads accept readers that deliver their
 bytes in pieces

A single short read failed, and a read of no bytes decoded stale memory.
---
 xbinary/xbinary.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/xbinary/xbinary.go b/xbinary/xbinary.go
index 8b613f0..8693f32 100644
--- a/xbinary/xbinary.go
+++ b/xbinary/xbinary.go
@@ -46,13 +46,13 @@ func ReadUint16(r io.Reader) (uint16, error) {
 	data := xbytes.MallocSize(2)
 	defer xbytes.Free(data)
 
-	n, err := r.Read(data)
+	_, err := io.ReadFull(r, data)
+	if err == io.ErrUnexpectedEOF {
+		return 0, ErrInvalidLength
+	}
 	if err != nil {
 		return 0, err
 	}
-	if n < 2 {
-		return 0, ErrInvalidLength
-	}
 	return binary.BigEndian.Uint16(data), nil
 }
 
@@ -77,7 +77,7 @@ func ReadBool(r io.Reader) (bool, error) {
 	b := xbytes.MallocSize(1)
 	defer xbytes.Free(b)
 
-	_, err := r.Read(b)
+	_, err := io.ReadFull(r, b)
 	if err != nil {
 		return false, err
 	}
@@ -91,13 +91,13 @@ func ReadUint32(r io.Reader) (uint32, error) {
 	data := xbytes.MallocSize(4)
 	defer xbytes.Free(data)
 
-	n, err := r.Read(data)
+	_, err := io.ReadFull(r, data)
+	if err == io.ErrUnexpectedEOF {
+		return 0, ErrInvalidLength
+	}
 	if err != nil {
 		return 0, err
 	}
-	if n < 4 {
-		return 0, ErrInvalidLength
-	}
 	return binary.BigEndian.Uint32(data), nil
 }
 
-- 
2.43.0


From 279b28d3ff3c636dd8244727568acc7a02ad7d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:26 +0000
Subject: [PATCH 12/15] fix: Value.Write returns false for a later value of
 another type

It panicked in atomic.Value.CompareAndSwap.
---
 xonce/value.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/xonce/value.go b/xonce/value.go
index d7357f1..945a9c2 100644
--- a/xonce/value.go
+++ b/xonce/value.go
@@ -25,6 +25,11 @@ type Value struct {
 	v atomic.Value
 }
 
+// onceValue gives values of all dynamic types one type to store.
+type onceValue struct {
+	v interface{}
+}
+
 // NewValue returns a Value.
 func NewValue() *Value {
 	return &Value{}
@@ -32,10 +37,12 @@ func NewValue() *Value {
 
 // Write writes a v.
 func (val *Value) Write(v interface{}) (success bool) {
-	return val.v.CompareAndSwap(nil, v)
+	return val.v.CompareAndSwap(nil, onceValue{v})
 }
 
 // Value return a v.
 func (val *Value) Value() interface{} {
-	return val.v.Load()
+	b, _ := val.v.Load().(onceValue)
+
+	return b.v
 }
-- 
2.43.0


From 948ea69da4b34cbc1a0fe5881db99dfadb5fe3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:26 +0000
Subject: [PATCH 13/15] fix: DoWithRetry calls fn at least once

A negative number of retries reported success without any call.
---
 xtask/retry.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xtask/retry.go b/xtask/retry.go
index c0f9430..b955507 100644
--- a/xtask/retry.go
+++ b/xtask/retry.go
@@ -42,6 +42,9 @@ func DoWithRetry(fn func() error, opts ...RetryOption) error {
 	for _, opt := range opts {
 		opt(options)
 	}
+	if options.times < 0 {
+		options.times = 0
+	}
 
 	var batchError xerror.BatchError
 	for i := 0; i <= options.times; i++ {
-- 
2.43.0


From a2893dadc79100919c47784f55875f3d00ac8bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:26 +0000
Subject: [PATCH 14/15] fix: a pooled buffer smaller than requested is not
 handed out

---
 xio/buffer.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/xio/buffer.go b/xio/buffer.go
index 13a6b34..b57c85e 100644
--- a/xio/buffer.go
+++ b/xio/buffer.go
@@ -31,8 +31,10 @@ var (
 func GetBufferReaderSize(r io.Reader, size int) *bufio.Reader {
 	if v := bufReaderPool.Get(); v != nil {
 		br := v.(*bufio.Reader)
-		br.Reset(r)
-		return br
+		if br.Size() >= size {
+			br.Reset(r)
+			return br
+		}
 	}
 	return bufio.NewReaderSize(r, size)
 }
@@ -59,8 +61,10 @@ func PutBufferReader(r *bufio.Reader) {
 func GetBufferWriterSize(w io.Writer, size int) *bufio.Writer {
 	if v := bufWriterPool.Get(); v != nil {
 		bw := v.(*bufio.Writer)
-		bw.Reset(w)
-		return bw
+		if bw.Size() >= size {
+			bw.Reset(w)
+			return bw
+		}
 	}
 	return bufio.NewWriterSize(w, size)
 }
-- 
2.43.0


From b3867fb5116bd0c1977e964c67d164e2ed67baf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:26 +0000
Subject: [PATCH 15/15] fix: xio: never hand out the caller's own bufio object

bufio.New{Reader,Writer}Size return their argument when it already is a
large enough buffered reader or writer. GetBuffer* then returned an object
that belongs to the caller (with its buffered data), and PutBuffer* reset it
under the caller's feet and pooled it.
---
 xio/buffer.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/xio/buffer.go b/xio/buffer.go
index b57c85e..325d2e0 100644
--- a/xio/buffer.go
+++ b/xio/buffer.go
@@ -36,7 +36,10 @@ func GetBufferReaderSize(r io.Reader, size int) *bufio.Reader {
 			return br
 		}
 	}
-	return bufio.NewReaderSize(r, size)
+	// bufio.NewReaderSize(r, size) may return r itself, which belongs to the caller.
+	br := bufio.NewReaderSize(nil, size)
+	br.Reset(r)
+	return br
 }
 
 // GetBufferReader returns a bufio.Reader.
@@ -46,7 +49,9 @@ func GetBufferReader(r io.Reader) *bufio.Reader {
 		br.Reset(r)
 		return br
 	}
-	return bufio.NewReader(r)
+	br := bufio.NewReader(nil)
+	br.Reset(r)
+	return br
 }
 
 // PutBufferReader recycles a bufio.Reader.
@@ -66,7 +71,10 @@ func GetBufferWriterSize(w io.Writer, size int) *bufio.Writer {
 			return bw
 		}
 	}
-	return bufio.NewWriterSize(w, size)
+	// bufio.NewWriterSize(w, size) may return w itself, which belongs to the caller.
+	bw := bufio.NewWriterSize(nil, size)
+	bw.Reset(w)
+	return bw
 }
 
 // GetBufferWriter returns a bufio.Writer.
@@ -76,7 +84,9 @@ func GetBufferWriter(w io.Writer) *bufio.Writer {
 		bw.Reset(w)
 		return bw
 	}
-	return bufio.NewWriter(w)
+	bw := bufio.NewWriter(nil)
+	bw.Reset(w)
+	return bw
 }
 
 // PutBufferWriter recycles a bufio.Writer.
-- 
2.43.0

