From 1d9148f8cf68ea9be1f3716c569fe8e94738c675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:49 +0000
Subject: [PATCH 01/45] fix: reject negative, overflowing and inner lengths
 when validating values

---
 value.go | 55 ++++++++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 48 insertions(+), 7 deletions(-)

diff --git a/value.go b/value.go
index 6e0ca90..796ece4 100644
--- a/value.go
+++ b/value.go
@@ -218,7 +218,11 @@ func (v *Value) validate(sizeOnly bool) (uint32, error) {
 		l := readi32(v.data[v.offset : v.offset+4])
 		total += 4
 
-		if int32(v.offset)+4+l > int32(len(v.data)) {
+		if l < 1 {
+			return total, bsonerr.InvalidString
+		}
+
+		if int64(v.offset)+4+int64(l) > int64(len(v.data)) {
 			return total, errTooSmall
 		}
 		// We check if the value that is the last element of the string is a
@@ -253,7 +257,7 @@ func (v *Value) validate(sizeOnly bool) (uint32, error) {
 			return total, bsonerr.InvalidReadOnlyDocument
 		}
 
-		if int32(v.offset)+l > int32(len(v.data)) {
+		if int64(v.offset)+int64(l) > int64(len(v.data)) {
 			return total, errTooSmall
 		}
 
@@ -292,7 +296,7 @@ func (v *Value) validate(sizeOnly bool) (uint32, error) {
 			return total, bsonerr.InvalidReadOnlyDocument
 		}
 
-		if int32(v.offset)+l > int32(len(v.data)) {
+		if int64(v.offset)+int64(l) > int64(len(v.data)) {
 			return total, errTooSmall
 		}
 
@@ -320,10 +324,26 @@ func (v *Value) validate(sizeOnly bool) (uint32, error) {
 			return total, bsonerr.InvalidBinarySubtype
 		}
 
-		if int32(v.offset)+5+l > int32(len(v.data)) {
+		if l < 0 {
+			return total, bsonerr.InvalidLength
+		}
+
+		if int64(v.offset)+5+int64(l) > int64(len(v.data)) {
 			return total, errTooSmall
 		}
 
+		// The deprecated generic subtype carries a second length, which must
+		// fit in the outer one.
+		if v.data[v.offset+4] == '\x02' {
+			if l < 4 {
+				return total, errTooSmall
+			}
+
+			if inner := readi32(v.data[v.offset+5 : v.offset+9]); inner < 0 || inner > l-4 {
+				return total, bsonerr.InvalidLength
+			}
+		}
+
 		total += uint32(l)
 	case '\x07':
 		if int(v.offset+12) > len(v.data) {
@@ -374,7 +394,11 @@ func (v *Value) validate(sizeOnly bool) (uint32, error) {
 		l := readi32(v.data[v.offset : v.offset+4])
 		total += 4
 
-		if int32(v.offset)+4+l+12 > int32(len(v.data)) {
+		if l < 1 {
+			return total, bsonerr.InvalidString
+		}
+
+		if int64(v.offset)+4+int64(l)+12 > int64(len(v.data)) {
 			return total, errTooSmall
 		}
 
@@ -393,7 +417,11 @@ func (v *Value) validate(sizeOnly bool) (uint32, error) {
 			total += 8
 			sLength := readi32(v.data[v.offset+4 : v.offset+8])
 
-			if int(sLength) > len(v.data)+8 {
+			if sLength < 1 {
+				return total, bsonerr.InvalidString
+			}
+
+			if int64(v.offset)+8+int64(sLength) > int64(len(v.data)) {
 				return total, errTooSmall
 			}
 
@@ -420,13 +448,26 @@ func (v *Value) validate(sizeOnly bool) (uint32, error) {
 		l := readi32(v.data[v.offset : v.offset+4])
 		total += 4
 
-		if int32(v.offset)+l > int32(len(v.data)) {
+		if int64(v.offset)+int64(l) > int64(len(v.data)) {
 			return total, errTooSmall
 		}
 
+		if l < 4 {
+			return total, bsonerr.InvalidLength
+		}
+
 		if !sizeOnly {
+			if l < 8 {
+				return total, errTooSmall
+			}
+
 			sLength := readi32(v.data[v.offset+4 : v.offset+8])
 			total += 4
+
+			if sLength < 1 {
+				return total, bsonerr.InvalidString
+			}
+
 			// If the length of the string is larger than the total length of the
 			// field minus the int32 for length, 5 bytes for a minimum document
 			// size, and an int32 for the string length the value is invalid.
-- 
2.43.0


From f5031e670f20a31e9a342526cdb4593d36c6600a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:18 +0000
Subject: [PATCH 02/45] fix: decode validates nested documents and code with
 scope in full, so accepted documents can be read

---
 iterator.go |  2 +-
 reader.go   | 13 ++-----------
 value.go    | 12 ++++++++++++
 3 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/iterator.go b/iterator.go
index 13b7982..5583fe1 100644
--- a/iterator.go
+++ b/iterator.go
@@ -111,7 +111,7 @@ func (itr *readerIterator) Next() bool {
 		},
 	}
 
-	n, err = itr.elem.value.validate(true)
+	n, err = itr.elem.value.validate(false)
 	itr.pos += n
 
 	if err != nil {
diff --git a/reader.go b/reader.go
index 35cb6c7..28be421 100644
--- a/reader.go
+++ b/reader.go
@@ -71,16 +71,7 @@ func NewFromIOReader(r io.Reader) (Reader, error) {
 // Validate validates the document. This method only validates the first document in
 // the slice, to validate other documents, the slice must be resliced.
 func (r Reader) Validate() (size uint32, err error) {
-	return r.readElements(func(elem *Element) error {
-		var err error
-		switch elem.value.Type() {
-		case '\x03':
-			_, err = elem.value.ReaderDocument().Validate()
-		case '\x04':
-			_, err = elem.value.ReaderArray().Validate()
-		}
-		return err
-	})
+	return r.readElements(nil)
 }
 
 // validateKey will ensure the key is valid and return the length of the key
@@ -280,7 +271,7 @@ func (r Reader) readElements(f func(e *Element) error) (uint32, error) {
 		elemValStart = pos
 		elem = newElement(elemStart, elemValStart)
 		elem.value.data = r
-		n, err = elem.value.validate(true)
+		n, err = elem.value.validate(false)
 		pos += n
 
 		if err != nil {
diff --git a/value.go b/value.go
index 796ece4..b3a6a21 100644
--- a/value.go
+++ b/value.go
@@ -269,6 +269,10 @@ func (v *Value) validate(sizeOnly bool) (uint32, error) {
 				return total, err
 			}
 
+			if n != uint32(l) {
+				return total, bsonerr.InvalidLength
+			}
+
 			break
 		}
 
@@ -308,6 +312,10 @@ func (v *Value) validate(sizeOnly bool) (uint32, error) {
 				return total, err
 			}
 
+			if n != uint32(l) {
+				return total, bsonerr.InvalidLength
+			}
+
 			break
 		}
 
@@ -493,6 +501,10 @@ func (v *Value) validate(sizeOnly bool) (uint32, error) {
 				return total, err
 			}
 
+			if n != uint32(l)-8-uint32(sLength) {
+				return total, bsonerr.InvalidLength
+			}
+
 			break
 		}
 
-- 
2.43.0


From 3a121932301679377b4eede2acba397a2a9531f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:57 +0000
Subject: [PATCH 03/45] fix: reading a document with a negative or too small
 length returns an error instead of panicking

---
 document.go | 3 +++
 iterator.go | 2 +-
 reader.go   | 2 +-
 3 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/document.go b/document.go
index cb833c7..75fc350 100644
--- a/document.go
+++ b/document.go
@@ -317,6 +317,9 @@ func (d *Document) ReadFrom(r io.Reader) (int64, error) {
 	}
 
 	givenLength := readi32(sizeBuf)
+	if givenLength < 5 {
+		return total, bsonerr.InvalidLength
+	}
 
 	b := stw.NewSlice(bufpool.Get())
 	b.Grow(int(givenLength))
diff --git a/iterator.go b/iterator.go
index 5583fe1..986965e 100644
--- a/iterator.go
+++ b/iterator.go
@@ -69,7 +69,7 @@ func newReaderIterator(r Reader) (*readerIterator, error) {
 	}
 
 	givenLength := readi32(r[0:4])
-	if len(r) < int(givenLength) {
+	if len(r) < int(givenLength) || givenLength < 0 {
 		return nil, bsonerr.InvalidLength
 	}
 
diff --git a/reader.go b/reader.go
index 28be421..47a4ea8 100644
--- a/reader.go
+++ b/reader.go
@@ -48,7 +48,7 @@ func NewFromIOReader(r io.Reader) (Reader, error) {
 	}
 
 	length := readi32(lengthBytes[:])
-	if length < 0 {
+	if length < 5 {
 		return nil, bsonerr.InvalidLength
 	}
 
-- 
2.43.0


From 88a9e34eccd8eaa1003620df3af3290475933846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:33 +0000
Subject: [PATCH 04/45] fix: every change to a document's elements invalidates
 its cached map

---
 array.go    | 2 ++
 document.go | 4 +++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/array.go b/array.go
index a3641d2..602b763 100644
--- a/array.go
+++ b/array.go
@@ -173,6 +173,7 @@ func (a *Array) Set(index uint, value *Value) *Array {
 	}
 
 	a.doc.elems[index] = &Element{value}
+	a.doc.cacheValid = false
 
 	return a
 }
@@ -193,6 +194,7 @@ func (a *Array) Delete(index uint) *Value {
 
 	elem := a.doc.elems[index]
 	a.doc.elems = append(a.doc.elems[:index], a.doc.elems[index+1:]...)
+	a.doc.cacheValid = false
 
 	return elem.value
 }
diff --git a/document.go b/document.go
index 75fc350..0bc017d 100644
--- a/document.go
+++ b/document.go
@@ -101,6 +101,7 @@ func (d *Document) Set(elem *Element) *Document {
 	for idx, e := range d.elems {
 		if elem.Key() == e.Key() {
 			d.elems[idx] = elem
+			d.cacheValid = false
 			return d
 		}
 	}
@@ -119,10 +120,10 @@ func (d *Document) Delete(key string) *Element {
 		if d.elems[idx].Key() == key {
 			elem := d.elems[idx]
 			d.elems = append(d.elems[:idx], d.elems[idx+1:]...)
+			d.cacheValid = false
 			return elem
 		}
 	}
-	d.cacheValid = false
 	return nil
 }
 
@@ -289,6 +290,7 @@ func (d *Document) UnmarshalBSON(b []byte) error {
 	seq := Reader(b).Iterator()
 
 	d.elems = make([]*Element, 0, 128)
+	d.cacheValid = false
 
 	for value, err := range seq {
 		if err != nil {
-- 
2.43.0


From e5fe00ac4eecf9262bac4af30bb4d91ecc126ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:33 +0000
Subject: [PATCH 05/45] fix: MutableJavaScriptWithScope reports an
 uninitialized value like its siblings

---
 value.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/value.go b/value.go
index b3a6a21..86befb8 100644
--- a/value.go
+++ b/value.go
@@ -1041,7 +1041,7 @@ func (v *Value) ReaderJavaScriptWithScopeOK() (string, Reader, bool) {
 // MutableJavaScriptWithScope returns the javascript code and the scope document for
 // this element.
 func (v *Value) MutableJavaScriptWithScope() (code string, d *Document) {
-	if v == nil || v.offset == 0 {
+	if v == nil || v.offset == 0 || v.data == nil {
 		panic(bsonerr.UninitializedElement)
 	}
 
-- 
2.43.0


From 047c2e47f7849ed9467262f691bdc87719decef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:06 +0000
Subject: [PATCH 06/45] fix: a panicking Append leaves no stale cached map
 behind

---
 document.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/document.go b/document.go
index 0bc017d..e8a6a73 100644
--- a/document.go
+++ b/document.go
@@ -60,6 +60,8 @@ func (d *Document) Len() int { return len(d.elems) }
 // If a nil element is inserted and this method panics, it does not remove the
 // previously added elements.
 func (d *Document) Append(elems ...*Element) *Document {
+	d.cacheValid = false
+
 	for _, elem := range elems {
 		if elem == nil {
 			panic(bsonerr.NilElement)
@@ -67,7 +69,7 @@ func (d *Document) Append(elems ...*Element) *Document {
 
 		d.elems = append(d.elems, elem)
 	}
-	d.cacheValid = false
+
 	return d
 }
 
-- 
2.43.0


From 8bb64d285ec7ea33d0cc760152e2459aa179ab10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:21 +0000
Subject: [PATCH 07/45] fix: interval recorder workers release their lock when
 they find the context canceled

---
 x/ftdc/events/recorder_histogram_interval.go   | 1 +
 x/ftdc/events/recorder_performance_interval.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/x/ftdc/events/recorder_histogram_interval.go b/x/ftdc/events/recorder_histogram_interval.go
index cadc7f8..b24ba0c 100644
--- a/x/ftdc/events/recorder_histogram_interval.go
+++ b/x/ftdc/events/recorder_histogram_interval.go
@@ -52,6 +52,7 @@ func (r *intervalHistogramStream) worker(ctx context.Context, interval time.Dura
 			// the lock is requested and when the lock is obtained,
 			// the context has been canceled
 			if ctx.Err() != nil {
+				r.Unlock()
 				return
 			}
 			r.point.setTimestamp(r.started)
diff --git a/x/ftdc/events/recorder_performance_interval.go b/x/ftdc/events/recorder_performance_interval.go
index 2d121ba..5e3ab38 100644
--- a/x/ftdc/events/recorder_performance_interval.go
+++ b/x/ftdc/events/recorder_performance_interval.go
@@ -52,6 +52,7 @@ func (r *intervalStream) worker(ctx context.Context, interval time.Duration) {
 			// the lock is requested and when the lock is obtained,
 			// the context has been canceled
 			if ctx.Err() != nil {
+				r.Unlock()
 				return
 			}
 			r.point.setTimestamp(r.started)
-- 
2.43.0


From 7b741719d2f670cfd55a9f3461860990f5defc89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:57 +0000
Subject: [PATCH 08/45] fix: Value.Reader returns the payload of values of
 every type

---
 value.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/value.go b/value.go
index 86befb8..a5ee5c8 100644
--- a/value.go
+++ b/value.go
@@ -623,6 +623,20 @@ func (v *Value) Reader() Reader {
 		panic(bsonerr.UninitializedElement)
 	}
 
+	if v.d == nil {
+		size, err := v.valueSize()
+		if err != nil {
+			panic(err)
+		}
+
+		payload := v.data[v.offset:]
+		if int64(size) > int64(len(payload)) {
+			panic(errTooSmall)
+		}
+
+		return Reader(payload[:size])
+	}
+
 	return v.getReader()
 }
 
-- 
2.43.0


From 39613bd3a74c280753bfcaf3421b0ee300dd0172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:59 +0000
Subject: [PATCH 09/45] fix: OP_MSG parsing checks section sizes and reports
 body document errors

---
 x/mrpc/mongowire/wire_message.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/x/mrpc/mongowire/wire_message.go b/x/mrpc/mongowire/wire_message.go
index 413853f..b3fc99e 100644
--- a/x/mrpc/mongowire/wire_message.go
+++ b/x/mrpc/mongowire/wire_message.go
@@ -204,8 +204,14 @@ func (h *MessageHeader) parseMsgBody(body []byte) (Message, error) {
 		case OpMessageSectionBody:
 			section := &opMessagePayloadType0{}
 			docSize := int(readInt32(body[loc:]))
+			if docSize < 0 || docSize > len(body)-loc {
+				return nil, errors.New("invalid op message - body document does not fit in the message")
+			}
 			section.Document, err = birch.ReadDocument(body[loc : loc+docSize])
-			loc += getDocSize(section.Document)
+			if err != nil {
+				return nil, fmt.Errorf("could not read body document: %w", err)
+			}
+			loc += docSize
 			msg.Items = append(msg.Items, section)
 		case OpMessageSectionDocumentSequence:
 			section := &opMessagePayloadType1{}
@@ -218,7 +224,13 @@ func (h *MessageHeader) parseMsgBody(body []byte) (Message, error) {
 			loc += len(section.Identifier) + 1 // c string null terminator
 
 			for remaining := int(section.Size) - 1 - 4 - len(section.Identifier) - 1; remaining > 0; {
+				if len(body)-loc < 4 {
+					return nil, errors.New("invalid op message - document sequence does not fit in the message")
+				}
 				docSize := int(readInt32(body[loc:]))
+				if docSize < 0 || docSize > len(body)-loc {
+					return nil, errors.New("invalid op message - payload document does not fit in the message")
+				}
 				doc, err := birch.ReadDocument(body[loc : loc+docSize])
 				if err != nil {
 					return nil, fmt.Errorf("could not read payload document: %w", err)
-- 
2.43.0


From ee3ea0ca1e454966bbae76deab7e4698fbcec578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:59 +0000
Subject: [PATCH 10/45] fix: reject a negative cursor count in kill cursors
 messages

---
 x/mrpc/mongowire/wire_kill_cursors.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/x/mrpc/mongowire/wire_kill_cursors.go b/x/mrpc/mongowire/wire_kill_cursors.go
index 4bd457b..6755623 100644
--- a/x/mrpc/mongowire/wire_kill_cursors.go
+++ b/x/mrpc/mongowire/wire_kill_cursors.go
@@ -56,6 +56,10 @@ func (h *MessageHeader) parseKillCursorsMessage(buf []byte) (Message, error) {
 	m.NumCursors = readInt32(buf[loc:])
 	loc += 4
 
+	if m.NumCursors < 0 {
+		return nil, fmt.Errorf("invalid kill cursors message -- NumCursors = %d is negative", m.NumCursors)
+	}
+
 	if len(buf[loc:]) < int(m.NumCursors)*8 {
 		return nil, fmt.Errorf("invalid kill cursors message -- NumCursors = %d is larger than number of cursors in message", m.NumCursors)
 	}
-- 
2.43.0


From dde3c2789bd191bceb229e93c3c9055bfec3f7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:59 +0000
Subject: [PATCH 11/45] fix: empty command documents no longer panic in wire
 message parsing and scoping

---
 x/mrpc/mongowire/wire_message.go | 7 ++++++-
 x/mrpc/mongowire/wire_query.go   | 4 ++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/x/mrpc/mongowire/wire_message.go b/x/mrpc/mongowire/wire_message.go
index b3fc99e..9acc5f2 100644
--- a/x/mrpc/mongowire/wire_message.go
+++ b/x/mrpc/mongowire/wire_message.go
@@ -29,7 +29,12 @@ type opMessagePayloadType0 struct {
 func (p *opMessagePayloadType0) Type() uint8 { return OpMessageSectionBody }
 
 func (p *opMessagePayloadType0) Name() string {
-	return p.Document.ElementAt(0).Key()
+	elem, ok := p.Document.ElementAtOK(0)
+	if !ok {
+		return ""
+	}
+
+	return elem.Key()
 }
 
 func (p *opMessagePayloadType0) DB() string {
diff --git a/x/mrpc/mongowire/wire_query.go b/x/mrpc/mongowire/wire_query.go
index ff7510a..c35dedb 100644
--- a/x/mrpc/mongowire/wire_query.go
+++ b/x/mrpc/mongowire/wire_query.go
@@ -114,6 +114,10 @@ func (h *MessageHeader) parseQueryMessage(buf []byte) (Message, error) {
 	}
 
 	if NamespaceIsCommand(qm.Namespace) {
+		if qm.Query.Len() == 0 {
+			return nil, errors.New("invalid query message -- command document is empty")
+		}
+
 		return qm.convertToCommand(), nil
 	}
 
-- 
2.43.0


From 2019f29a618de36666256016c6c6e7232698de8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:28 +0000
Subject: [PATCH 12/45] fix: ReadMessage consumes exactly one message however
 the stream fragments it

---
 x/mrpc/mongowire/sock.go | 50 ++++++++++++++++------------------------
 1 file changed, 20 insertions(+), 30 deletions(-)

diff --git a/x/mrpc/mongowire/sock.go b/x/mrpc/mongowire/sock.go
index 0f7ccb0..84b22f5 100644
--- a/x/mrpc/mongowire/sock.go
+++ b/x/mrpc/mongowire/sock.go
@@ -1,7 +1,6 @@
 package mongowire
 
 import (
-	"bytes"
 	"context"
 	"fmt"
 	"io"
@@ -25,7 +24,7 @@ func ReadMessage(ctx context.Context, reader io.Reader) (Message, error) {
 	go func() {
 		defer close(readFinished)
 
-		n, err := reader.Read(sizeBuf)
+		n, err := io.ReadFull(reader, sizeBuf)
 		select {
 		case readFinished <- readResult{n: n, err: err}:
 		case <-ctx.Done():
@@ -52,42 +51,33 @@ func ReadMessage(ctx context.Context, reader io.Reader) (Message, error) {
 		}
 		return nil, fmt.Errorf("message too big %d", header.Size)
 	}
-	if header.Size < 0 || header.Size-4 > MaxInt32 {
+	if header.Size < 4 || header.Size-4 > MaxInt32 {
 		return nil, errors.New("message header has invalid size")
 	}
 
-	restBuf := &bytes.Buffer{}
-	for read := 0; int32(read) < header.Size-4; {
-		readFinished = make(chan readResult)
-		tempBuf := make([]byte, header.Size-4)
-		go func() {
-			defer close(readFinished)
-			n, err := reader.Read(tempBuf)
-			select {
-			case readFinished <- readResult{n: n, err: err}:
-			case <-ctx.Done():
-			}
-		}()
+	// read the rest of this message, and nothing of the one after it
+	buf := make([]byte, header.Size-4)
+	readFinished = make(chan readResult)
+
+	go func() {
+		defer close(readFinished)
+
+		n, err := io.ReadFull(reader, buf)
 		select {
+		case readFinished <- readResult{n: n, err: err}:
 		case <-ctx.Done():
-			return nil, (ctx.Err())
-		case res := <-readFinished:
-			if res.err == io.EOF {
-				read = int(header.Size - 4)
-				break
-			}
-			if res.err != nil {
-				return nil, (res.err)
-			}
-			if res.n == 0 {
-				break
-			}
-			read += res.n
-			restBuf.Write(tempBuf[:res.n])
+		}
+	}()
+
+	select {
+	case <-ctx.Done():
+		return nil, (ctx.Err())
+	case res := <-readFinished:
+		if res.err != nil {
+			return nil, (res.err)
 		}
 	}
 
-	buf := restBuf.Bytes()
 	if len(buf) < 12 {
 		return nil, fmt.Errorf("invalid message header. either header.Size = %v is shorter than message length, or message is missing RequestId, ResponseTo, or OpCode fields.", header.Size)
 	}
-- 
2.43.0


From 12606806118e5fb7b707f91f351ff6c461f5eadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:28 +0000
Subject: [PATCH 13/45] fix: ConvertFromCSV reports a failed final flush and
 does not flush after an error

---
 x/ftdc/csv.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/x/ftdc/csv.go b/x/ftdc/csv.go
index c27a89a..6e5697a 100644
--- a/x/ftdc/csv.go
+++ b/x/ftdc/csv.go
@@ -153,7 +153,7 @@ func DumpCSV(seq iter.Seq[*Chunk], prefix string) error {
 // If the number of fields changes in the CSV fields, the first field
 // with the changed number of fields becomes the header for the
 // subsequent documents in the stream.
-func ConvertFromCSV(bucketSize int, input io.Reader, output io.Writer) error {
+func ConvertFromCSV(bucketSize int, input io.Reader, output io.Writer) (err error) {
 	csvr := csv.NewReader(input)
 
 	header, err := csvr.Read()
@@ -166,6 +166,7 @@ func ConvertFromCSV(bucketSize int, input io.Reader, output io.Writer) error {
 	defer func() {
 		if err != nil && (!errors.Is(err, context.Canceled) || !errors.Is(err, context.DeadlineExceeded)) {
 			err = fmt.Errorf("omitting final flush, because of prior error: %w", err)
+			return
 		}
 		err = FlushCollector(collector, output)
 	}()
-- 
2.43.0


From 4fe7eebc5d30d1693810289c70e6e955b1fe5493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:06 +0000
Subject: [PATCH 14/45] fix: parallel metrics collection closes its results
 instead of waiting for more forever

---
 x/ftdc/metrics/metrics.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/x/ftdc/metrics/metrics.go b/x/ftdc/metrics/metrics.go
index 13937b8..b2d2f5f 100644
--- a/x/ftdc/metrics/metrics.go
+++ b/x/ftdc/metrics/metrics.go
@@ -123,6 +123,7 @@ func (opts *CollectOptions) generate(ctx context.Context, id int) (*birch.Docume
 		}()
 	}
 	wg.Wait()
+	close(elems)
 
 	for elem := range elems {
 		doc.Append(elem)
-- 
2.43.0


From 8163fdb479bf4c686270e8c1ea5be0cf9f72727a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:06 +0000
Subject: [PATCH 15/45] fix: json collection sources report a panic before
 closing their error channel

---
 x/ftdc/metrics/json.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/x/ftdc/metrics/json.go b/x/ftdc/metrics/json.go
index 027914a..36b4957 100644
--- a/x/ftdc/metrics/json.go
+++ b/x/ftdc/metrics/json.go
@@ -50,12 +50,12 @@ func (opts CollectJSONOptions) getSource(ctx context.Context) (<-chan *birch.Doc
 	switch {
 	case opts.InputSource != nil:
 		go func() {
+			defer close(errs)
 			defer func() {
 				if p := recover(); p != nil {
 					errs <- fmt.Errorf("json metrics collector: %v", p)
 				}
 			}()
-			defer close(errs)
 
 			stream := bufio.NewScanner(opts.InputSource)
 
@@ -76,12 +76,12 @@ func (opts CollectJSONOptions) getSource(ctx context.Context) (<-chan *birch.Doc
 		}()
 	case opts.FileName != "" && !opts.Follow:
 		go func() {
+			defer close(errs)
 			defer func() {
 				if p := recover(); p != nil {
 					errs <- fmt.Errorf("json metrics collector: %v", p)
 				}
 			}()
-			defer close(errs)
 			f, err := os.Open(opts.FileName)
 			if err != nil {
 				errs <- fmt.Errorf("problem opening data file %s: %w", opts.FileName, err)
@@ -111,12 +111,12 @@ func (opts CollectJSONOptions) getSource(ctx context.Context) (<-chan *birch.Doc
 		}()
 	case opts.FileName != "" && opts.Follow:
 		go func() {
+			defer close(errs)
 			defer func() {
 				if p := recover(); p != nil {
 					errs <- fmt.Errorf("json metrics collector: %v", p)
 				}
 			}()
-			defer close(errs)
 
 			if err := follow(ctx, opts.FileName, func(in string) error {
 				jd, err := jsonx.DCE.Bytes([]byte(in))
-- 
2.43.0


From 5b7669656c30f500d6c3767d16a43e71279d39d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:06 +0000
Subject: [PATCH 16/45] fix: reading json from an input source stops when the
 context is canceled

---
 x/ftdc/metrics/json.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/x/ftdc/metrics/json.go b/x/ftdc/metrics/json.go
index 36b4957..dbf4fb7 100644
--- a/x/ftdc/metrics/json.go
+++ b/x/ftdc/metrics/json.go
@@ -71,7 +71,11 @@ func (opts CollectJSONOptions) getSource(ctx context.Context) (<-chan *birch.Doc
 					return
 				}
 
-				out <- doc
+				select {
+				case out <- doc:
+				case <-ctx.Done():
+					return
+				}
 			}
 		}()
 	case opts.FileName != "" && !opts.Follow:
-- 
2.43.0


From 37070c05f20da619e9d2cd84bda48be1c0185da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:06 +0000
Subject: [PATCH 17/45] fix: the buffered collector no longer closes a channel
 that Add may send on

---
 x/ftdc/collector_buffered.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/x/ftdc/collector_buffered.go b/x/ftdc/collector_buffered.go
index 7cf7ebb..990ec7e 100644
--- a/x/ftdc/collector_buffered.go
+++ b/x/ftdc/collector_buffered.go
@@ -26,14 +26,16 @@ func NewBufferedCollector(ctx context.Context, size int, coll Collector) Collect
 		for {
 			select {
 			case <-ctx.Done():
-				close(c.pipe)
-				if len(c.pipe) != 0 {
-					for in := range c.pipe {
+				// the pipe stays open: a concurrent Add may still be
+				// about to send on it.
+				for {
+					select {
+					case in := <-c.pipe:
 						c.catcher.Push(c.Collector.Add(in))
+					default:
+						return
 					}
 				}
-
-				return
 			case in := <-c.pipe:
 				c.catcher.Push(c.Collector.Add(in))
 			}
-- 
2.43.0


From 00448c451c56d2efe84fd42b0b7426f9d9c07aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:39 +0000
Subject: [PATCH 18/45] fix: json collection reports a scanner failure instead
 of treating it as the end of the input

---
 x/ftdc/metrics/json.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/x/ftdc/metrics/json.go b/x/ftdc/metrics/json.go
index dbf4fb7..26bcc48 100644
--- a/x/ftdc/metrics/json.go
+++ b/x/ftdc/metrics/json.go
@@ -77,6 +77,10 @@ func (opts CollectJSONOptions) getSource(ctx context.Context) (<-chan *birch.Doc
 					return
 				}
 			}
+
+			if err := stream.Err(); err != nil {
+				errs <- err
+			}
 		}()
 	case opts.FileName != "" && !opts.Follow:
 		go func() {
@@ -112,6 +116,10 @@ func (opts CollectJSONOptions) getSource(ctx context.Context) (<-chan *birch.Doc
 				case <-ctx.Done():
 				}
 			}
+
+			if err := stream.Err(); err != nil {
+				errs <- err
+			}
 		}()
 	case opts.FileName != "" && opts.Follow:
 		go func() {
-- 
2.43.0


From 2895784b9047f2bc83ad927cb3d882621d4c8132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:57 +0000
Subject: [PATCH 19/45] fix: parallel metrics collection waits for a panicking
 collector to be recorded

---
 x/ftdc/metrics/metrics.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/x/ftdc/metrics/metrics.go b/x/ftdc/metrics/metrics.go
index b2d2f5f..c6bbb57 100644
--- a/x/ftdc/metrics/metrics.go
+++ b/x/ftdc/metrics/metrics.go
@@ -110,12 +110,14 @@ func (opts *CollectOptions) generate(ctx context.Context, id int) (*birch.Docume
 		wg.Add(1)
 
 		go func() {
+			// registered first so that it runs last: the panic is
+			// recorded before the collection stops waiting
+			defer wg.Done()
 			defer func() {
 				if p := recover(); p != nil {
 					catcher.Push(fmt.Errorf("ftdc metrics collector panic: %v", p))
 				}
 			}()
-			defer wg.Done()
 
 			for collector := range collectors {
 				elems <- birch.EC.SubDocument(collector.Name, collector.Operation(ctx))
-- 
2.43.0


From 4d7273e30dc3437e5a1dc8422ba411872ec37c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:57 +0000
Subject: [PATCH 20/45] fix: reading json from a file stops when the context is
 canceled

---
 x/ftdc/metrics/json.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/x/ftdc/metrics/json.go b/x/ftdc/metrics/json.go
index 26bcc48..bb5af9b 100644
--- a/x/ftdc/metrics/json.go
+++ b/x/ftdc/metrics/json.go
@@ -114,6 +114,7 @@ func (opts CollectJSONOptions) getSource(ctx context.Context) (<-chan *birch.Doc
 				select {
 				case out <- doc:
 				case <-ctx.Done():
+					return
 				}
 			}
 
-- 
2.43.0


From 9fbf74a9d05b148a8d7c530da0c63b04ddeb9e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:50 +0000
Subject: [PATCH 21/45] fix: EC.Int truncated integers below the int32 range

---
 x_constructor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x_constructor.go b/x_constructor.go
index 5d0dcfc..926f820 100644
--- a/x_constructor.go
+++ b/x_constructor.go
@@ -258,7 +258,7 @@ func (ElementConstructorError) DocumentMarshaler(key string, val DocumentMarshal
 }
 
 func (ElementConstructor) Int(key string, i int) *Element {
-	if i < math.MaxInt32 {
+	if i >= math.MinInt32 && i < math.MaxInt32 {
 		return EC.Int32(key, int32(i))
 	}
 
-- 
2.43.0


From 52da4f8daf45463351f54ab61bc433f88622e198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:51 +0000
Subject: [PATCH 22/45] fix: out of range extended JSON timestamps were
 truncated to 32 bits

---
 x_json_unmarshal.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/x_json_unmarshal.go b/x_json_unmarshal.go
index 456a164..70dbe3d 100644
--- a/x_json_unmarshal.go
+++ b/x_json_unmarshal.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"errors"
 	"fmt"
+	"math"
 	"time"
 
 	"github.com/tychoish/birch/jsonx"
@@ -164,6 +165,10 @@ func convertJSONElements(ctx context.Context, in *jsonx.Element) (*Element, erro
 				count++
 			}
 
+			if t < 0 || t > math.MaxUint32 || i < 0 || i > math.MaxUint32 {
+				return nil, fmt.Errorf("timestamp value out of range at %s", in.Key())
+			}
+
 			return EC.Timestamp(in.Key(), uint32(t), uint32(i)), nil
 		case "$symbol":
 			return EC.Symbol(in.Key(), indoc.ElementAtIndex(0).Value().StringValue()), nil
-- 
2.43.0


From 70f3e3e4aaeb0a99d21748a3906d302ab044b814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:17 +0000
Subject: [PATCH 23/45] fix: Value.Decimal128 swapped the high and low halves

---
 value.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/value.go b/value.go
index a5ee5c8..5a5b769 100644
--- a/value.go
+++ b/value.go
@@ -1216,8 +1216,8 @@ func (v *Value) Decimal128() types.Decimal128 {
 	}
 
 	return types.NewDecimal128(
-		binary.LittleEndian.Uint64(v.data[v.offset:v.offset+8]),
-		binary.LittleEndian.Uint64(v.data[v.offset+8:v.offset+16]))
+		binary.LittleEndian.Uint64(v.data[v.offset+8:v.offset+16]),
+		binary.LittleEndian.Uint64(v.data[v.offset:v.offset+8]))
 }
 
 // Decimal128OK is the same as Decimal128, except that it returns a boolean
-- 
2.43.0


From 4cb9671aa7a849afacaadba0e686c8d703b3cb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:06 +0000
Subject: [PATCH 24/45] fix: Value readers encoded a parsed array as a document
 and dropped the code of code with scope

---
 value.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/value.go b/value.go
index 5a5b769..9ba77d3 100644
--- a/value.go
+++ b/value.go
@@ -647,12 +647,12 @@ func (v *Value) getReader() Reader {
 		l := readi32(v.data[v.offset : v.offset+4])
 		r = Reader(v.data[v.offset : v.offset+uint32(l)])
 	} else {
-		scope, err := v.d.MarshalBSON()
+		payload, err := v.docToBytes(bsontype.Type(v.data[v.start]))
 		if err != nil {
 			panic(err)
 		}
 
-		r = Reader(scope)
+		r = Reader(payload)
 	}
 
 	return r
-- 
2.43.0


From 7340ed1262a55dfa1f8c6ac33e8cd962890694a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:51 +0000
Subject: [PATCH 25/45] fix: comparing values with a negative length word
 panicked

---
 x_core.go  | 2 +-
 x_value.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/x_core.go b/x_core.go
index 5931940..f6d82b9 100644
--- a/x_core.go
+++ b/x_core.go
@@ -52,7 +52,7 @@ func readValue(src []byte, t bsontype.Type) ([]byte, []byte, bool) {
 		ok = false
 	}
 
-	if !ok || int(length) > len(src) {
+	if !ok || length < 0 || int(length) > len(src) {
 		return nil, src, false
 	}
 
diff --git a/x_value.go b/x_value.go
index 052b41e..dd5397c 100644
--- a/x_value.go
+++ b/x_value.go
@@ -31,7 +31,7 @@ func readstring(src []byte) (string, []byte, bool) {
 		return "", src, false
 	}
 
-	if len(src[4:]) < int(l) {
+	if l < 1 || len(rem) < int(l) {
 		return "", src, false
 	}
 
-- 
2.43.0


From 77d7b3dfd8419341c90d4a7fce72a5f283bb0e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:15 +0000
Subject: [PATCH 26/45] fix: unmarshaling a performance event reports values of
 the wrong type instead of panicking

---
 x/ftdc/events/performance.go | 76 ++++++++++++++++++++++++++++++------
 1 file changed, 63 insertions(+), 13 deletions(-)

diff --git a/x/ftdc/events/performance.go b/x/ftdc/events/performance.go
index 31cc8d4..6e33037 100644
--- a/x/ftdc/events/performance.go
+++ b/x/ftdc/events/performance.go
@@ -13,6 +13,7 @@
 package events
 
 import (
+	"fmt"
 	"time"
 
 	"github.com/tychoish/birch"
@@ -89,18 +90,34 @@ func (p *Performance) UnmarshalDocument(doc *birch.Document) error {
 	for elem := range doc.Iterator() {
 		switch elem.Key() {
 		case "ts":
-			p.Timestamp = elem.Value().Time()
+			ts, ok := elem.Value().TimeOK()
+			if !ok {
+				return unexpectedType(elem)
+			}
+			p.Timestamp = ts
 		case "id":
 		case "counters":
-			if err := p.Counters.UnmarshalDocument(elem.Value().MutableDocument()); err != nil {
+			sub, ok := elem.Value().MutableDocumentOK()
+			if !ok {
+				return unexpectedType(elem)
+			}
+			if err := p.Counters.UnmarshalDocument(sub); err != nil {
 				return err
 			}
 		case "timers":
-			if err := p.Timers.UnmarshalDocument(elem.Value().MutableDocument()); err != nil {
+			sub, ok := elem.Value().MutableDocumentOK()
+			if !ok {
+				return unexpectedType(elem)
+			}
+			if err := p.Timers.UnmarshalDocument(sub); err != nil {
 				return err
 			}
 		case "gauges":
-			if err := p.Gauges.UnmarshalDocument(elem.Value().MutableDocument()); err != nil {
+			sub, ok := elem.Value().MutableDocumentOK()
+			if !ok {
+				return unexpectedType(elem)
+			}
+			if err := p.Gauges.UnmarshalDocument(sub); err != nil {
 				return err
 			}
 		}
@@ -111,15 +128,19 @@ func (p *Performance) UnmarshalDocument(doc *birch.Document) error {
 
 func (p *PerformanceCounters) UnmarshalDocument(doc *birch.Document) error {
 	for elem := range doc.Iterator() {
+		var err error
 		switch elem.Key() {
 		case "n":
-			p.Number = elem.Value().Int64()
+			p.Number, err = int64Of(elem)
 		case "opts":
-			p.Operations = elem.Value().Int64()
+			p.Operations, err = int64Of(elem)
 		case "size":
-			p.Size = elem.Value().Int64()
+			p.Size, err = int64Of(elem)
 		case "errors":
-			p.Errors = elem.Value().Int64()
+			p.Errors, err = int64Of(elem)
+		}
+		if err != nil {
+			return err
 		}
 	}
 
@@ -128,11 +149,20 @@ func (p *PerformanceCounters) UnmarshalDocument(doc *birch.Document) error {
 
 func (p *PerformanceTimers) UnmarshalDocument(doc *birch.Document) error {
 	for elem := range doc.Iterator() {
+		var (
+			num int64
+			err error
+		)
 		switch elem.Key() {
 		case "dur":
-			p.Duration = time.Duration(elem.Value().Int64())
+			num, err = int64Of(elem)
+			p.Duration = time.Duration(num)
 		case "total":
-			p.Total = time.Duration(elem.Value().Int64())
+			num, err = int64Of(elem)
+			p.Total = time.Duration(num)
+		}
+		if err != nil {
+			return err
 		}
 	}
 
@@ -141,19 +171,39 @@ func (p *PerformanceTimers) UnmarshalDocument(doc *birch.Document) error {
 
 func (p *PerformanceGauges) UnmarshalDocument(doc *birch.Document) error {
 	for elem := range doc.Iterator() {
+		var err error
 		switch elem.Key() {
 		case "state":
-			p.State = elem.Value().Int64()
+			p.State, err = int64Of(elem)
 		case "workers":
-			p.Workers = elem.Value().Int64()
+			p.Workers, err = int64Of(elem)
 		case "failed":
-			p.Failed = elem.Value().Boolean()
+			failed, ok := elem.Value().BooleanOK()
+			if !ok {
+				return unexpectedType(elem)
+			}
+			p.Failed = failed
+		}
+		if err != nil {
+			return err
 		}
 	}
 
 	return nil
 }
 
+func int64Of(elem *birch.Element) (int64, error) {
+	num, ok := elem.Value().Int64OK()
+	if !ok {
+		return 0, unexpectedType(elem)
+	}
+	return num, nil
+}
+
+func unexpectedType(elem *birch.Element) error {
+	return fmt.Errorf("performance value %q has unexpected type %s", elem.Key(), elem.Value().Type())
+}
+
 // Add combines the values of the input Performance struct into this struct,
 // logically, overriding the Gauges values as well as the timestamp and ID
 // ID values, while summing the Counters and Timers values.
-- 
2.43.0


From 24e42af013158bdf9d192ba14c4b49d55fbb5303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:15 +0000
Subject: [PATCH 27/45] fix: reading FTDC chunks checks the type and size of
 the data field

---
 x/ftdc/read.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/x/ftdc/read.go b/x/ftdc/read.go
index da942bb..c640019 100644
--- a/x/ftdc/read.go
+++ b/x/ftdc/read.go
@@ -71,7 +71,13 @@ func readChunks(ctx context.Context, msi *metasourceImpl, ch <-chan *birch.Docum
 			if zelem == nil {
 				return errors.New("data is not populated")
 			}
-			_, zBytes := zelem.Value().Binary()
+			_, zBytes, ok := zelem.Value().BinaryOK()
+			if !ok {
+				return fmt.Errorf("data has type %s, not binary", zelem.Value().Type())
+			}
+			if len(zBytes) < 4 {
+				return errors.New("data is too short")
+			}
 
 			// the metrics chunk, after the first 4 bytes, is zlib
 			// compressed, so we make a reader for that. data
-- 
2.43.0


From 3c0f7add9fb0c5acaab97687f541aae763e70bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:15 +0000
Subject: [PATCH 28/45] fix: malformed extended JSON returns an error instead
 of panicking

---
 x_json_unmarshal.go | 60 ++++++++++++++++++++++++++++++++++++---------
 1 file changed, 48 insertions(+), 12 deletions(-)

diff --git a/x_json_unmarshal.go b/x_json_unmarshal.go
index 70dbe3d..2596b75 100644
--- a/x_json_unmarshal.go
+++ b/x_json_unmarshal.go
@@ -127,7 +127,12 @@ func convertJSONElements(ctx context.Context, in *jsonx.Element) (*Element, erro
 		case "$maxKey":
 			return EC.MaxKey(in.Key()), nil
 		case "$numberDecimal":
-			val, err := types.ParseDecimal128(indoc.ElementAtIndex(0).Value().StringValue())
+			num, ok := indoc.ElementAtIndex(0).Value().StringValueOK()
+			if !ok {
+				return nil, errors.New("mismatched json type")
+			}
+
+			val, err := types.ParseDecimal128(num)
 			if err != nil {
 				return nil, err
 			}
@@ -138,10 +143,12 @@ func convertJSONElements(ctx context.Context, in *jsonx.Element) (*Element, erro
 				t   int64
 				i   int64
 				val int
-				ok  bool
 			)
 
-			tsDoc := indoc.ElementAtIndex(0).Value().Document()
+			tsDoc, ok := indoc.ElementAtIndex(0).Value().DocumentOK()
+			if !ok {
+				return nil, errors.New("mismatched json type")
+			}
 			count := 0
 			for elem := range tsDoc.Iterator() {
 				if count >= 3 {
@@ -171,7 +178,12 @@ func convertJSONElements(ctx context.Context, in *jsonx.Element) (*Element, erro
 
 			return EC.Timestamp(in.Key(), uint32(t), uint32(i)), nil
 		case "$symbol":
-			return EC.Symbol(in.Key(), indoc.ElementAtIndex(0).Value().StringValue()), nil
+			symbol, ok := indoc.ElementAtIndex(0).Value().StringValueOK()
+			if !ok {
+				return nil, errors.New("mismatched json type")
+			}
+
+			return EC.Symbol(in.Key(), symbol), nil
 		case "$code":
 			js, ok := indoc.ElementAtIndex(0).Value().StringValueOK()
 			if !ok {
@@ -186,7 +198,12 @@ func convertJSONElements(ctx context.Context, in *jsonx.Element) (*Element, erro
 					return nil, err
 				}
 
-				return EC.CodeWithScope(in.Key(), js, scope.Value().MutableDocument()), nil
+				scopeDoc, ok := scope.Value().MutableDocumentOK()
+				if !ok {
+					return nil, errors.New("mismatched json type")
+				}
+
+				return EC.CodeWithScope(in.Key(), js, scopeDoc), nil
 			} else {
 				return nil, fmt.Errorf("invalid key '%s' in code with scope for %s", second, in.Key())
 			}
@@ -194,9 +211,11 @@ func convertJSONElements(ctx context.Context, in *jsonx.Element) (*Element, erro
 			var (
 				ns  string
 				oid string
-				ok  bool
 			)
-			debref := indoc.ElementAtIndex(0).Value().Document()
+			debref, ok := indoc.ElementAtIndex(0).Value().DocumentOK()
+			if !ok {
+				return nil, errors.New("mismatched json type")
+			}
 			count := 0
 			for elem := range debref.Iterator() {
 				if count >= 2 {
@@ -231,9 +250,11 @@ func convertJSONElements(ctx context.Context, in *jsonx.Element) (*Element, erro
 			var (
 				pattern string
 				options string
-				ok      bool
 			)
-			rex := indoc.ElementAtIndex(0).Value().Document()
+			rex, ok := indoc.ElementAtIndex(0).Value().DocumentOK()
+			if !ok {
+				return nil, errors.New("mismatched json type")
+			}
 
 			count := 0
 			for elem := range rex.Iterator() {
@@ -258,13 +279,23 @@ func convertJSONElements(ctx context.Context, in *jsonx.Element) (*Element, erro
 
 			return EC.Regex(in.Key(), pattern, options), nil
 		case "$date":
-			date, err := time.Parse(time.RFC3339, indoc.ElementAtIndex(0).Value().StringValue())
+			str, ok := indoc.ElementAtIndex(0).Value().StringValueOK()
+			if !ok {
+				return nil, errors.New("mismatched json type")
+			}
+
+			date, err := time.Parse(time.RFC3339, str)
 			if err != nil {
 				return nil, err
 			}
 			return EC.Time(in.Key(), date), nil
 		case "$oid":
-			oid, err := types.ObjectIDFromHex(indoc.ElementAtIndex(0).Value().StringValue())
+			str, ok := indoc.ElementAtIndex(0).Value().StringValueOK()
+			if !ok {
+				return nil, errors.New("mismatched json type")
+			}
+
+			oid, err := types.ObjectIDFromHex(str)
 			if err != nil {
 				return nil, err
 			}
@@ -273,7 +304,12 @@ func convertJSONElements(ctx context.Context, in *jsonx.Element) (*Element, erro
 		case "$undefined":
 			return EC.Undefined(in.Key()), nil
 		case "$binary":
-			return EC.Binary(in.Key(), []byte(indoc.ElementAtIndex(0).Value().StringValue())), nil
+			str, ok := indoc.ElementAtIndex(0).Value().StringValueOK()
+			if !ok {
+				return nil, errors.New("mismatched json type")
+			}
+
+			return EC.Binary(in.Key(), []byte(str)), nil
 		default:
 			doc := DC.Make(indoc.Len())
 
-- 
2.43.0


From 4b4c7a3e20c391c564725c3f877f3e770141950f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:06 +0000
Subject: [PATCH 29/45] fix: reading a getLog response back from a document
 finds its log lines

---
 x/mrpc/shell/io.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/mrpc/shell/io.go b/x/mrpc/shell/io.go
index f381111..0d6f607 100644
--- a/x/mrpc/shell/io.go
+++ b/x/mrpc/shell/io.go
@@ -210,7 +210,7 @@ func (resp *getLogResponse) UnmarshalDocument(in *birch.Document) error {
 
 	for elem := range in.Iterator() {
 		switch elem.Key() {
-		case "version":
+		case "log":
 			array, ok := elem.Value().MutableArrayOK()
 			if !ok {
 				return fmt.Errorf("could not parse value of correct type [%s] for key %s",
-- 
2.43.0


From 06d5d003d520236b8d3626b071e5b0bc3a2f5378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:06 +0000
Subject: [PATCH 30/45] fix: the gauges of a histogram event are tagged with
 the name they are written under

---
 x/ftdc/events/histogram.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/ftdc/events/histogram.go b/x/ftdc/events/histogram.go
index 5f81bd5..d02b946 100644
--- a/x/ftdc/events/histogram.go
+++ b/x/ftdc/events/histogram.go
@@ -22,7 +22,7 @@ type PerformanceHDR struct {
 	ID        int64                  `bson:"id" json:"id" yaml:"id"`
 	Counters  PerformanceCountersHDR `bson:"counters" json:"counters" yaml:"counters"`
 	Timers    PerformanceTimersHDR   `bson:"timers" json:"timers" yaml:"timers"`
-	Gauges    PerformanceGauges      `bson:"guages" json:"guages" yaml:"guages"`
+	Gauges    PerformanceGauges      `bson:"gauges" json:"gauges" yaml:"gauges"`
 }
 
 type PerformanceCountersHDR struct {
-- 
2.43.0


From b2ed73aa8d536e485dea10df33b531abcd741c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:06 +0000
Subject: [PATCH 31/45] fix: reading a performance event back from a document
 keeps its id and operation count

---
 x/ftdc/events/performance.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/x/ftdc/events/performance.go b/x/ftdc/events/performance.go
index 6e33037..a9d022a 100644
--- a/x/ftdc/events/performance.go
+++ b/x/ftdc/events/performance.go
@@ -96,6 +96,11 @@ func (p *Performance) UnmarshalDocument(doc *birch.Document) error {
 			}
 			p.Timestamp = ts
 		case "id":
+			id, err := int64Of(elem)
+			if err != nil {
+				return err
+			}
+			p.ID = id
 		case "counters":
 			sub, ok := elem.Value().MutableDocumentOK()
 			if !ok {
@@ -132,7 +137,7 @@ func (p *PerformanceCounters) UnmarshalDocument(doc *birch.Document) error {
 		switch elem.Key() {
 		case "n":
 			p.Number, err = int64Of(elem)
-		case "opts":
+		case "ops":
 			p.Operations, err = int64Of(elem)
 		case "size":
 			p.Size, err = int64Of(elem)
-- 
2.43.0


From f127ca6acdf673e3765fe3aa859df692e06ebdc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:02 +0000
Subject: [PATCH 32/45] fix: record dates before 1678 and after 2262 in FTDC

epochMs went through UnixNano, which overflows for them.
---
 x/ftdc/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/ftdc/util.go b/x/ftdc/util.go
index 505e7cd..4167d21 100644
--- a/x/ftdc/util.go
+++ b/x/ftdc/util.go
@@ -111,7 +111,7 @@ func compressBuffer(input []byte) ([]byte, error) {
 
 func normalizeFloat(in float64) int64 { return int64(math.Float64bits(in)) }
 func restoreFloat(in int64) float64   { return math.Float64frombits(uint64(in)) }
-func epochMs(t time.Time) int64       { return t.UnixNano() / 1000000 }
+func epochMs(t time.Time) int64       { return t.UnixMilli() }
 func timeEpocMs(in int64) time.Time   { return time.Unix(in/1000, in%1000*1000000) }
 
 func isNum(num int, val *birch.Value) bool {
-- 
2.43.0


From 2c5cfa94987dc47e2b666c7e47883db2e97e958c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:02 +0000
Subject: [PATCH 33/45] fix: do not write to the parent path when naming an
 FTDC metric

The paths of nested documents can share memory, so Key could change the
path of another metric.
---
 x/ftdc/ftdc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/ftdc/ftdc.go b/x/ftdc/ftdc.go
index b3829c7..48b307d 100644
--- a/x/ftdc/ftdc.go
+++ b/x/ftdc/ftdc.go
@@ -104,7 +104,7 @@ type Metric struct {
 }
 
 func (m *Metric) Key() string {
-	return strings.Join(append(m.ParentPath, m.KeyName), ".")
+	return strings.Join(append(m.ParentPath[:len(m.ParentPath):len(m.ParentPath)], m.KeyName), ".")
 }
 
 func (m *Metric) getSeries() any {
-- 
2.43.0


From 71fe92a4223ac62d09f37e68a6474967d248d9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:02 +0000
Subject: [PATCH 34/45] fix: keep the whole path of FTDC metrics in nested
 documents

The path of metrics more than one document deep was replaced by that of
the outermost document, and sibling documents could overwrite each
other's path.
---
 x/ftdc/bson_metric.go | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/x/ftdc/bson_metric.go b/x/ftdc/bson_metric.go
index 6512780..453f1a7 100644
--- a/x/ftdc/bson_metric.go
+++ b/x/ftdc/bson_metric.go
@@ -48,18 +48,9 @@ func metricForType(key string, path []string, val *birch.Value) []Metric {
 	case bsontype.Array:
 		return metricForArray(key, path, val.MutableArray())
 	case bsontype.EmbeddedDocument:
-		path = append(path, key)
-
-		o := []Metric{}
-		for _, ne := range metricForDocument(path, val.MutableDocument()) {
-			o = append(o, Metric{
-				ParentPath:    path,
-				KeyName:       ne.KeyName,
-				startingValue: ne.startingValue,
-				originalType:  ne.originalType,
-			})
-		}
-		return o
+		// paths are kept by the metrics, so siblings must not share memory
+		path = append(path[:len(path):len(path)], key)
+		return metricForDocument(path, val.MutableDocument())
 	case bsontype.Boolean:
 		if val.Boolean() {
 			return []Metric{
-- 
2.43.0


From 9ebf6c1fc4f17fc6575df6f7424b9aa23234064b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:39 +0000
Subject: [PATCH 35/45] fix: floating point FTDC samples read back as they were
 recorded

---
 x/ftdc/bson_extract.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/x/ftdc/bson_extract.go b/x/ftdc/bson_extract.go
index fcde3f2..de143d8 100644
--- a/x/ftdc/bson_extract.go
+++ b/x/ftdc/bson_extract.go
@@ -112,7 +112,8 @@ func extractMetricsFromValue(val *birch.Value) (extractedMetrics, error) {
 func extractDelta(current *birch.Value, previous *birch.Value) (int64, error) {
 	switch current.Type() {
 	case bsontype.Double:
-		return normalizeFloat(current.Double() - previous.Double()), nil
+		// floating point samples are kept whole, as undeltaFloats expects them
+		return normalizeFloat(current.Double()), nil
 	case bsontype.Int64:
 		return current.Int64() - previous.Int64(), nil
 	default:
-- 
2.43.0


From bc2a0c928bc399a9ff9e40fa2b1c103b454a0bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:31 +0000
Subject: [PATCH 36/45] fix: Reader.Iterator does not call its consumer again
 after it has stopped

---
 reader.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/reader.go b/reader.go
index 47a4ea8..1f77ead 100644
--- a/reader.go
+++ b/reader.go
@@ -179,8 +179,10 @@ func (r Reader) Iterator() iter.Seq2[*Element, error] {
 		return irt.Two[*Element](nil, err)
 	}
 	return func(yield func(*Element, error) bool) {
-		for iter.Next() && yield(iter.Value(), nil) {
-			continue
+		for iter.Next() {
+			if !yield(iter.Value(), nil) {
+				return
+			}
 		}
 		if err := iter.Close(); err != nil {
 			yield(nil, err)
-- 
2.43.0


From 82b7a9105a9819202f15e08ca275acd6b7d82869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:31 +0000
Subject: [PATCH 37/45] fix: ReadChunks records the errors of its readers
 before it signals their end

---
 x/ftdc/iterator_chunk.go | 12 ++++++++++--
 x/ftdc/read.go           |  3 ---
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/x/ftdc/iterator_chunk.go b/x/ftdc/iterator_chunk.go
index 662cf4c..917536e 100644
--- a/x/ftdc/iterator_chunk.go
+++ b/x/ftdc/iterator_chunk.go
@@ -21,8 +21,16 @@ func ReadChunks(r io.Reader) *Iterator[*Chunk] {
 			ctx, cancel := context.WithCancel(context.Background())
 			defer cancel()
 
-			go func() { out.catcher.Push(readChunks(ctx, msi, ipc, pipe)) }()
-			go func() { out.catcher.Push(readDiagnostic(ctx, r, ipc)) }()
+			// the errors are recorded before the end is signalled:
+			// whoever sees the end of the chunks can see them.
+			go func() {
+				defer close(pipe)
+				out.catcher.Push(readChunks(ctx, msi, ipc, pipe))
+			}()
+			go func() {
+				defer close(ipc)
+				out.catcher.Push(readDiagnostic(ctx, r, ipc))
+			}()
 
 			for {
 				select {
diff --git a/x/ftdc/read.go b/x/ftdc/read.go
index c640019..bd47243 100644
--- a/x/ftdc/read.go
+++ b/x/ftdc/read.go
@@ -15,7 +15,6 @@ import (
 )
 
 func readDiagnostic(ctx context.Context, f io.Reader, ch chan<- *birch.Document) error {
-	defer close(ch)
 	buf := bufio.NewReader(f)
 	for {
 		doc, err := readBufBSON(buf)
@@ -35,8 +34,6 @@ func readDiagnostic(ctx context.Context, f io.Reader, ch chan<- *birch.Document)
 }
 
 func readChunks(ctx context.Context, msi *metasourceImpl, ch <-chan *birch.Document, o chan<- *Chunk) error {
-	defer close(o)
-
 	var metadata *birch.Document
 
 	for {
-- 
2.43.0


From 4dd4d9733d522349e61a0e3612d88a7eb7bea3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:31 +0000
Subject: [PATCH 38/45] fix: a cancelled read or write of a message is not
 taken for a finished one

---
 x/mrpc/mongowire/sock.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/x/mrpc/mongowire/sock.go b/x/mrpc/mongowire/sock.go
index 84b22f5..987b151 100644
--- a/x/mrpc/mongowire/sock.go
+++ b/x/mrpc/mongowire/sock.go
@@ -34,7 +34,10 @@ func ReadMessage(ctx context.Context, reader io.Reader) (Message, error) {
 	select {
 	case <-ctx.Done():
 		return nil, (ctx.Err())
-	case res := <-readFinished:
+	case res, ok := <-readFinished:
+		if !ok {
+			return nil, (ctx.Err())
+		}
 		if res.err != nil {
 			return nil, (res.err)
 		}
@@ -72,7 +75,10 @@ func ReadMessage(ctx context.Context, reader io.Reader) (Message, error) {
 	select {
 	case <-ctx.Done():
 		return nil, (ctx.Err())
-	case res := <-readFinished:
+	case res, ok := <-readFinished:
+		if !ok {
+			return nil, (ctx.Err())
+		}
 		if res.err != nil {
 			return nil, (res.err)
 		}
@@ -108,7 +114,10 @@ func SendMessage(ctx context.Context, m Message, writer io.Writer) error {
 		select {
 		case <-ctx.Done():
 			return (ctx.Err())
-		case res := <-writeFinished:
+		case res, ok := <-writeFinished:
+			if !ok {
+				return (ctx.Err())
+			}
 			if res.err != nil {
 				return fmt.Errorf("error writing message to client: %w", res.err)
 			}
-- 
2.43.0


From 8e3af68465d55ee08c3168f5f82660b522a8f552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:54 +0000
Subject: [PATCH 39/45] fix: the dynamic collector records the schema of the
 chunk it starts

---
 x/ftdc/collector_dynamic.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/x/ftdc/collector_dynamic.go b/x/ftdc/collector_dynamic.go
index 443cd93..3c9f186 100644
--- a/x/ftdc/collector_dynamic.go
+++ b/x/ftdc/collector_dynamic.go
@@ -66,13 +66,15 @@ func (c *dynamicCollector) Add(in any) error {
 
 	lastChunk := c.chunks[len(c.chunks)-1]
 
-	docHash, _ := metricKeyHash(doc)
+	docHash, num := metricKeyHash(doc)
 	if c.hash == docHash {
 		return (lastChunk.Add(doc))
 	}
 
 	chunk := newBatchCollector(c.maxSamples)
 	c.chunks = append(c.chunks, chunk)
+	c.hash = docHash
+	c.currentNum = num
 
 	return (chunk.Add(doc))
 }
-- 
2.43.0


From f92d42709460187bec665c18be7c1d6c01ac78dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:54 +0000
Subject: [PATCH 40/45] fix: the streaming dynamic collector keeps its kind and
 its schema over a flush

---
 x/ftdc/collector_streaming.go | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/x/ftdc/collector_streaming.go b/x/ftdc/collector_streaming.go
index e2f22a2..ea1e00f 100644
--- a/x/ftdc/collector_streaming.go
+++ b/x/ftdc/collector_streaming.go
@@ -96,7 +96,7 @@ func NewStreamingDynamicCollector(max int, writer io.Writer) Collector {
 }
 
 func (c *streamingDynamicCollector) Reset() {
-	c.streamingCollector = newStreamingCollector(c.streamingCollector.maxSamples, c.output)
+	c.streamingCollector.Reset()
 	c.metricCount = 0
 	c.hash = ""
 }
@@ -108,21 +108,12 @@ func (c *streamingDynamicCollector) Add(in any) error {
 	}
 
 	docHash, num := metricKeyHash(doc)
-	if c.hash == "" {
-		c.hash = docHash
-		c.metricCount = num
-		if c.streamingCollector.count > 0 {
-			if err := FlushCollector(c, c.output); err != nil {
-				return err
-			}
-		}
-		return (c.streamingCollector.Add(doc))
-	}
-
 	if c.metricCount != num || c.hash != docHash {
 		if err := FlushCollector(c, c.output); err != nil {
 			return err
 		}
+		c.hash = docHash
+		c.metricCount = num
 	}
 
 	return (c.streamingCollector.Add(doc))
-- 
2.43.0


From 48bee0c213ee82b6c2a92ce45872848718b33ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:04 +0000
Subject: [PATCH 41/45] fix: encoding code with scope does not write into the
 document it reads

---
 element.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/element.go b/element.go
index 9424d8f..f44b068 100644
--- a/element.go
+++ b/element.go
@@ -225,14 +225,15 @@ func (e *Element) writeByteSlice(key bool, start uint, size uint32, b []byte) (i
 
 			codeWithScopeLength := lengthWithoutScope + int32(scopeLength)
 
-			if _, err = elements.Int32.Encode(uint(e.value.offset), e.value.data, codeWithScopeLength); err != nil {
-				return int64(n), err
-			}
-
 			codeEnd := e.value.offset + uint32(lengthWithoutScope)
 			n += copy(
 				b[start:],
 				e.value.data[startToWrite:codeEnd])
+
+			if _, err = elements.Int32.Encode(start+uint(e.value.offset)-startToWrite, b, codeWithScopeLength); err != nil {
+				return int64(n), err
+			}
+
 			start += uint(n)
 
 			nn, err := e.value.d.writeByteSlice(start, scopeLength, b)
@@ -255,11 +256,11 @@ func (e *Element) writeByteSlice(key bool, start uint, size uint32, b []byte) (i
 		// Set the length of the value
 		codeWithScopeLength := codeWithScopeEnd - int32(e.value.offset)
 
-		if _, err := elements.Int32.Encode(uint(e.value.offset), e.value.data, codeWithScopeLength); err != nil {
-			return 0, err
-		}
+		n = copy(b[start:], e.value.data[startToWrite:e.value.start+size])
 
-		fallthrough
+		if _, err := elements.Int32.Encode(start+uint(e.value.offset)-startToWrite, b, codeWithScopeLength); err != nil {
+			return int64(n), err
+		}
 	default:
 		n = copy(b[start:], e.value.data[startToWrite:e.value.start+size])
 	}
-- 
2.43.0


From 210894e9f02b576d70ec2da53fbd1b0b0ccb2fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:04 +0000
Subject: [PATCH 42/45] fix: marshaling custom points leaves their order alone

---
 x/ftdc/events/custom.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/x/ftdc/events/custom.go b/x/ftdc/events/custom.go
index b92ed9b..49060d6 100644
--- a/x/ftdc/events/custom.go
+++ b/x/ftdc/events/custom.go
@@ -88,11 +88,12 @@ func (ps *Custom) UnmarshalBSON(in []byte) error {
 }
 
 func (ps Custom) MarshalDocument() (*birch.Document, error) {
-	ps.Sort()
+	sorted := append(MakeCustom(ps.Len()), ps...)
+	sorted.Sort()
 
 	doc := birch.DC.Make(ps.Len())
 
-	for _, elem := range ps {
+	for _, elem := range sorted {
 		de, err := birch.ECE.Interface(elem.Name, elem.Value)
 		if err != nil {
 			return nil, err
-- 
2.43.0


From d5f1c0763a2854fa9e75c1b268056238c741a3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:21 +0000
Subject: [PATCH 43/45] fix: event collectors add up their own copy of an
 event, not the caller's

---
 x/ftdc/events/collector.go   |  8 ++++----
 x/ftdc/events/performance.go | 12 +++++++++---
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/x/ftdc/events/collector.go b/x/ftdc/events/collector.go
index 876bdf8..72cb2a3 100644
--- a/x/ftdc/events/collector.go
+++ b/x/ftdc/events/collector.go
@@ -48,7 +48,7 @@ func (c *basicCumulativeCollector) AddEvent(in *Performance) error {
 		return errors.New("cannot add nil performance event")
 	}
 	if c.current == nil {
-		c.current = in
+		c.current = in.copy()
 		return c.Collector.Add(c.current)
 	}
 
@@ -102,7 +102,7 @@ func (c *samplingCollector) AddEvent(in *Performance) error {
 	}
 
 	if c.current == nil {
-		c.current = in
+		c.current = in.copy()
 	} else {
 		c.current.Add(in)
 	}
@@ -142,7 +142,7 @@ func (c *randSamplingCollector) AddEvent(in *Performance) error {
 	}
 
 	if c.current == nil {
-		c.current = in
+		c.current = in.copy()
 	} else {
 		c.current.Add(in)
 	}
@@ -189,7 +189,7 @@ func (c *intervalSamplingCollector) AddEvent(in *Performance) error {
 	}
 
 	if c.current == nil {
-		c.current = in
+		c.current = in.copy()
 		c.lastCollected = time.Now()
 		return c.Collector.Add(c.current)
 	}
diff --git a/x/ftdc/events/performance.go b/x/ftdc/events/performance.go
index a9d022a..04f2308 100644
--- a/x/ftdc/events/performance.go
+++ b/x/ftdc/events/performance.go
@@ -213,12 +213,13 @@ func unexpectedType(elem *birch.Element) error {
 // logically, overriding the Gauges values as well as the timestamp and ID
 // ID values, while summing the Counters and Timers values.
 func (p *Performance) Add(in *Performance) {
-	if in.ID == 0 {
-		in.ID = p.ID + 1
+	id := in.ID
+	if id == 0 {
+		id = p.ID + 1
 	}
 
 	p.Timestamp = in.Timestamp
-	p.ID = in.ID
+	p.ID = id
 	p.Counters.Number += in.Counters.Number
 	p.Counters.Errors += in.Counters.Errors
 	p.Counters.Operations += in.Counters.Operations
@@ -232,6 +233,11 @@ func (p *Performance) Add(in *Performance) {
 	p.Gauges.State = in.Gauges.State
 }
 
+func (p *Performance) copy() *Performance {
+	out := *p
+	return &out
+}
+
 func (p *Performance) setTimestamp(started time.Time) {
 	if p.Timestamp.IsZero() {
 		if !started.IsZero() {
-- 
2.43.0


From 6ae070a619e272c589532515b80be04ae4f2c278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:22 +0000
Subject: [PATCH 44/45] fix: the writer collector does not keep the slice it
 was given to write

---
 x/ftdc/writer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/x/ftdc/writer.go b/x/ftdc/writer.go
index 1578f99..019794f 100644
--- a/x/ftdc/writer.go
+++ b/x/ftdc/writer.go
@@ -23,7 +23,8 @@ func NewWriterCollector(chunkSize int, writer io.WriteCloser) io.WriteCloser {
 }
 
 func (w *writerCollector) Write(in []byte) (int, error) {
-	doc, err := birch.ReadDocument(in)
+	// the collector keeps the document, but writers must not keep their input
+	doc, err := birch.ReadDocument(append([]byte(nil), in...))
 	if err != nil {
 		return 0, fmt.Errorf("problem reading bson document: %w", err)
 	}
-- 
2.43.0


From 85eed75352cc1edae2044f38777fc66c2132122a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:09 +0000
Subject: [PATCH 45/45] fix: a reply without documents is an error, not a panic

---
 x/mrpc/shell/util.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/x/mrpc/shell/util.go b/x/mrpc/shell/util.go
index 753b58e..4a54ded 100644
--- a/x/mrpc/shell/util.go
+++ b/x/mrpc/shell/util.go
@@ -91,6 +91,9 @@ func RequestMessageToDocument(msg mongowire.Message) (*birch.Document, error) {
 // document.
 func ResponseMessageToDocument(msg mongowire.Message) (*birch.Document, error) {
 	if opReplyMsg, ok := msg.(*mongowire.ReplyMessage); ok {
+		if len(opReplyMsg.Docs) == 0 {
+			return nil, fmt.Errorf("%s response did not contain a document", mongowire.OP_REPLY.String())
+		}
 		return &opReplyMsg.Docs[0], nil
 	}
 	if opCmdReplyMsg, ok := msg.(*mongowire.CommandReplyMessage); ok {
-- 
2.43.0

