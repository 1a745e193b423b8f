From ef60d60ff2e7f2f41be763f2398e013f830dcd4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:31 +0000
Subject: [PATCH 01/19] fix: export CreateTopicsRequest.TimeoutMs and
 ValidateOnly

The two fields were generated with lower-case names, so a caller outside
package message could neither set a timeout nor ask for validate-only:
every CreateTopics request went out with timeout 0 and validate false.
---
 message/messages.gen.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/message/messages.gen.go b/message/messages.gen.go
index 9a4f3b4..2e15b78 100644
--- a/message/messages.gen.go
+++ b/message/messages.gen.go
@@ -5358,8 +5358,8 @@ func (t *ApiVersionsResponseKey18) Decode(d *Decoder, version int16) error {
 // CreateTopicsRequest; ApiKey: 19, Versions: 0-5
 type CreateTopicsRequest struct {
 	Topics       []CreatableTopic19 // The topics to create. Versions: 0-5
-	timeoutMs    int32              // How long to wait in milliseconds before timing out the request. Versions: 0-5
-	validateOnly bool               // If true, check that the topics can be created as specified, but don't create anything. Versions: 0-5
+	TimeoutMs    int32              // How long to wait in milliseconds before timing out the request. Versions: 0-5
+	ValidateOnly bool               // If true, check that the topics can be created as specified, but don't create anything. Versions: 0-5
 }
 
 // size of CreateTopicsRequest; Versions: 0-5
@@ -5369,9 +5369,9 @@ func (t CreateTopicsRequest) Size(version int16) int32 {
 	for i := len(t.Topics) - 1; i >= 0; i-- {
 		sz += t.Topics[i].Size(version)
 	}
-	sz += sizeof.Int32 // timeoutMs
+	sz += sizeof.Int32 // TimeoutMs
 	if version >= 1 {
-		sz += sizeof.Bool // validateOnly
+		sz += sizeof.Bool // ValidateOnly
 	}
 	return sz
 }
@@ -5384,9 +5384,9 @@ func (t CreateTopicsRequest) Encode(e *Encoder, version int16) {
 	for i := 0; i < len0; i++ {
 		t.Topics[i].Encode(e, version)
 	}
-	e.PutInt32(t.timeoutMs) // timeoutMs
+	e.PutInt32(t.TimeoutMs) // TimeoutMs
 	if version >= 1 {
-		e.PutBool(t.validateOnly) // validateOnly
+		e.PutBool(t.ValidateOnly) // ValidateOnly
 	}
 }
 
@@ -5406,12 +5406,12 @@ func (t *CreateTopicsRequest) Decode(d *Decoder, version int16) error {
 			t.Topics[i] = item
 		}
 	}
-	t.timeoutMs, err = d.Int32()
+	t.TimeoutMs, err = d.Int32()
 	if err != nil {
 		return err
 	}
 	if version >= 1 {
-		t.validateOnly, err = d.Bool()
+		t.ValidateOnly, err = d.Bool()
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From d9fdf7a7f883fee18419f0f4bcecd52b9b3c9ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:19 +0000
Subject: [PATCH 02/19] fix: decoder rejects invalid lengths instead of
 panicking or over-allocating

Null byte fields and arrays decode as null, negative and oversized lengths are
errors, var ints are confined to the declared length and var strings keep their
bytes.
---
 message/decoder.go | 43 ++++++++++++++++++++++++-------------------
 1 file changed, 24 insertions(+), 19 deletions(-)

diff --git a/message/decoder.go b/message/decoder.go
index a00bcbd..ab2287d 100644
--- a/message/decoder.go
+++ b/message/decoder.go
@@ -20,10 +20,10 @@ import (
 	"encoding/binary"
 	"errors"
 	"io"
-	"unicode/utf8"
 )
 
 var (
+	errInvalidLength  = errors.New("invalid length")
 	errNullString     = errors.New("null string")
 	errVarIntOverflow = errors.New("var int overflow")
 )
@@ -58,18 +58,28 @@ func (d *Decoder) Reset(length int) {
 
 // remains ensures that the buffer contains at least n more bytes
 func (d *Decoder) remains(n int) error {
+	if n < 0 {
+		return errInvalidLength
+	}
 	if remain := d.length - d.offset; remain < n {
 		return io.ErrShortBuffer
 	}
 	return nil
 }
 
-// ArrayLength reads the head of the buffer as an array length (int32)
+// ArrayLength reads the head of the buffer as an array length (int32).  -1
+// denotes a null array.  Array elements occupy at least one byte each, so the
+// length may not exceed the number of bytes that remain.
 func (d *Decoder) ArrayLength() (int, error) {
 	n, err := d.Int32()
 	if err != nil {
 		return 0, err
 	}
+	if n != -1 {
+		if err := d.remains(int(n)); err != nil {
+			return 0, err
+		}
+	}
 	return int(n), nil
 }
 
@@ -89,6 +99,9 @@ func (d *Decoder) Bytes() ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
+	if n == -1 {
+		return nil, nil // null
+	}
 	length := int(n)
 
 	if err := d.remains(length); err != nil {
@@ -257,6 +270,9 @@ func (d *Decoder) VarBytes() ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
+	if n == -1 {
+		return nil, nil // null
+	}
 	length := int(n)
 
 	if err := d.remains(length); err != nil {
@@ -271,13 +287,13 @@ func (d *Decoder) VarBytes() ([]byte, error) {
 
 // VarInt returns the buffer head as an int64
 func (d *Decoder) VarInt() (int64, error) {
-	tmp, n := binary.Varint(d.raw[d.offset:])
-	switch n {
-	case 0:
+	tmp, n := binary.Varint(d.raw[d.offset:d.length])
+	switch {
+	case n == 0:
 		d.offset = d.length // no further requests can be made
 		return 0, io.ErrShortBuffer
 
-	case -1:
+	case n < 0:
 		d.offset = d.length // no further requests can be made
 		return 0, errVarIntOverflow
 
@@ -298,18 +314,7 @@ func (d *Decoder) VarString() (string, error) {
 		return "", err
 	}
 
-	var (
-		eom   = d.offset + length // end of message
-		som   = d.offset          // start of message
-		runes []rune
-	)
-
-	for som < eom {
-		r, size := utf8.DecodeRune(d.raw[som:eom])
-		som += size
-		runes = append(runes, r)
-	}
-
+	s := string(d.raw[d.offset : d.offset+length])
 	d.offset += length
-	return string(runes), nil
+	return s, nil
 }
-- 
2.43.0


From c64ed191e11915492d325d1adcc522ff55b6cff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:25 +0000
Subject: [PATCH 03/19] fix: NullableString decodes a null string as nil

---
 message/decoder.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/message/decoder.go b/message/decoder.go
index ab2287d..55d8d77 100644
--- a/message/decoder.go
+++ b/message/decoder.go
@@ -213,6 +213,16 @@ func (d *Decoder) Int64Array() ([]int64, error) {
 
 // NullableString returns the buffer head as a *string
 func (d *Decoder) NullableString() (*string, error) {
+	start := d.offset
+	n, err := d.Int16()
+	if err != nil {
+		return nil, err
+	}
+	if n == -1 {
+		return nil, nil
+	}
+	d.offset = start
+
 	s, err := d.String()
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 4cdc70accc88f44bc05c3bf38e9caa77522da8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:46 +0000
Subject: [PATCH 04/19] fix: var bytes keep the first write error and encode
 null, var strings write their own bytes

---
 message/encoder.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/message/encoder.go b/message/encoder.go
index a1d1520..83dfd02 100644
--- a/message/encoder.go
+++ b/message/encoder.go
@@ -19,7 +19,6 @@ package message
 import (
 	"encoding/binary"
 	"io"
-	"unicode/utf8"
 )
 
 type flusher interface {
@@ -202,8 +201,15 @@ func (e *Encoder) PutVarBytes(data []byte) {
 		return
 	}
 
+	if data == nil {
+		e.PutVarInt(-1) // null
+		return
+	}
+
 	e.PutVarInt(int64(len(data)))
-	_, e.err = e.target.Write(data)
+	if e.err == nil {
+		_, e.err = e.target.Write(data)
+	}
 }
 
 // PutVarInt encodes a var int
@@ -223,11 +229,7 @@ func (e *Encoder) PutVarString(s string) {
 	}
 
 	e.PutVarInt(int64(len(s)))
-	for _, i := range s {
-		length := utf8.EncodeRune(e.buf[:], rune(i))
-		_, e.err = e.target.Write(e.buf[0:length])
-		if e.err != nil {
-			return
-		}
+	if e.err == nil {
+		_, e.err = io.WriteString(e.target, s)
 	}
 }
-- 
2.43.0


From 225c2d133ced41d2cfa034d135623c23c2c7c266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:51 +0000
Subject: [PATCH 05/19] fix: a string too long for its length prefix is an
 encoding error

---
 message/encoder.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/message/encoder.go b/message/encoder.go
index 83dfd02..8335eb1 100644
--- a/message/encoder.go
+++ b/message/encoder.go
@@ -18,9 +18,13 @@ package message
 
 import (
 	"encoding/binary"
+	"errors"
 	"io"
+	"math"
 )
 
+var errStringTooLong = errors.New("string exceeds 32767 bytes")
+
 type flusher interface {
 	Flush() error
 }
@@ -171,6 +175,9 @@ func (e *Encoder) PutRecordHeader(key, value string) {
 
 // PutString encodes a string
 func (e *Encoder) PutString(s string) {
+	if len(s) > math.MaxInt16 && e.err == nil {
+		e.err = errStringTooLong
+	}
 	e.PutInt16(int16(len(s)))
 	if e.err == nil {
 		_, e.err = io.WriteString(e.target, s)
-- 
2.43.0


From 28c8052414e98fc63c8440d5a7ea04558755a1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:08 +0000
Subject: [PATCH 06/19] fix: ring buffer neither loses wake-ups nor reads or
 overwrites bytes out of turn

Wake-ups are remembered, conditions are checked again after waiting, space is
checked before a byte is written, and ReadN reports how much it read on close.
---
 ring/buffer.go | 60 +++++++++++++++++++++++++-------------------------
 1 file changed, 30 insertions(+), 30 deletions(-)

diff --git a/ring/buffer.go b/ring/buffer.go
index b4c244c..d6659b2 100644
--- a/ring/buffer.go
+++ b/ring/buffer.go
@@ -21,34 +21,32 @@ import (
 	"sync/atomic"
 )
 
+// mutex holds at most one wake-up; a Release that precedes the Wait it is meant
+// for is remembered, so no wake-up is lost.  Wake-ups may be stale, callers must
+// check again what they waited for.
 type mutex struct {
 	ctx context.Context
 	ch  chan struct{}
-	set int32
 }
 
 func newMutex(ctx context.Context) *mutex {
 	return &mutex{
 		ctx: ctx,
-		ch:  make(chan struct{}),
+		ch:  make(chan struct{}, 1),
 	}
 }
 
 func (m *mutex) Wait() {
-	if atomic.CompareAndSwapInt32(&m.set, 0, 1) {
-		select {
-		case <-m.ctx.Done():
-		case m.ch <- struct{}{}:
-		}
+	select {
+	case <-m.ctx.Done():
+	case <-m.ch:
 	}
 }
 
 func (m *mutex) Release() {
-	if atomic.CompareAndSwapInt32(&m.set, 1, 0) {
-		select {
-		case <-m.ctx.Done():
-		case <-m.ch:
-		}
+	select {
+	case m.ch <- struct{}{}:
+	default:
 	}
 }
 
@@ -84,46 +82,43 @@ func (r *Buffer) Close() error {
 }
 
 // WriteN writes the first n bytes from data to the buffer.  If buffer is full, WriteN
-// blocks until ReadN clears space
+// blocks until ReadN clears space or the buffer is closed
 func (r *Buffer) WriteN(data []byte, n int) {
 	var (
 		pos   = atomic.LoadInt32(&r.next)  // position next byte should be written
 		start = atomic.LoadInt32(&r.start) // start of data
-		wrote int                          // bytes written since last lock
 	)
 
 	for i := 0; i < n; i++ {
-		r.data[pos] = data[i]
-		pos = incr(pos, r.size)
-
 		// whenever pos catches up to the starting position, wait for
-		// additional bytes to be written before continuing
-		if next := incr(pos, r.size); next == start {
+		// bytes to be read before continuing
+		for next := incr(pos, r.size); next == start; {
 			atomic.StoreInt32(&r.next, pos)
 
 			// important to store pos prior to reading from lockMux
 			r.readLock.Release()
-			wrote = i
 
 			start = atomic.LoadInt32(&r.start)
-			if next := incr(pos, r.size); next == start {
+			if next == start {
+				if r.ctx.Err() != nil {
+					return
+				}
 				r.writeLock.Wait()
 			}
 		}
+
+		r.data[pos] = data[i]
+		pos = incr(pos, r.size)
 	}
 
 	atomic.StoreInt32(&r.next, pos)
-
-	// if at least one byte has been written since the last time r.lock
-	// was cleared, check to see if it needs to be cleared again
-	if n > wrote+1 {
-		r.readLock.Release()
-	}
+	r.readLock.Release()
 }
 
 // ReadN reads n bytes in the byte array provided.  If insufficient bytes
-// are available, blocks until WriteN refills the buffer.
-func (r *Buffer) ReadN(data []byte, n int) {
+// are available, blocks until WriteN refills the buffer.  Returns the number
+// of bytes read, which is less than n only if the buffer has been closed.
+func (r *Buffer) ReadN(data []byte, n int) int {
 	var (
 		pos  = atomic.LoadInt32(&r.start)
 		next = atomic.LoadInt32(&r.next)
@@ -131,14 +126,18 @@ func (r *Buffer) ReadN(data []byte, n int) {
 	)
 
 	for i := 0; i < n; i++ {
-		if pos == next {
+		for pos == next {
 			atomic.StoreInt32(&r.start, pos)
 			if read > 0 {
 				r.writeLock.Release()
 			}
 
+			closed := r.ctx.Err() != nil
 			next = atomic.LoadInt32(&r.next)
 			if pos == next {
+				if closed {
+					return read
+				}
 				r.readLock.Wait()
 			}
 		}
@@ -152,6 +151,7 @@ func (r *Buffer) ReadN(data []byte, n int) {
 	if read > 0 {
 		r.writeLock.Release()
 	}
+	return read
 }
 
 func incr(pos, size int32) int32 {
-- 
2.43.0


From 4caa96b4a24e1104b5b926f98e78e10f6147e7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:19 +0000
Subject: [PATCH 07/19] fix: negotiate the highest version supported by both
 sides

---
 gen.broker.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gen.broker.go b/gen.broker.go
index 9603348..9e952de 100644
--- a/gen.broker.go
+++ b/gen.broker.go
@@ -1580,8 +1580,8 @@ func negotiateApiVersions(apiKeys []message.ApiVersionsResponseKey18) (apiVersio
 
 // matchVersion determines which version of the api to use
 func matchVersion(apiKey message.ApiVersionsResponseKey18, minVersion, maxVersion int16) (int16, error) {
-	for version := apiKey.MaxVersion; version >= apiKey.MinVersion; version-- {
-		if version := apiKey.MaxVersion; version >= minVersion && version <= maxVersion {
+	for version := maxVersion; version >= minVersion; version-- {
+		if version >= apiKey.MinVersion && version <= apiKey.MaxVersion {
 			return version, nil
 		}
 	}
-- 
2.43.0


From 6b2ca94ba4399dc9d05554724e050226b306d7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:43 +0000
Subject: [PATCH 08/19] fix: calls return when the connection ends, responses
 of any size are kept intact

A disconnect, write failure, invalid frame length or Close ends outstanding and
later calls with an error; each response gets its own memory, so responses may
exceed the read buffer and keep their contents.
---
 gen.conn.go | 62 ++++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 47 insertions(+), 15 deletions(-)

diff --git a/gen.conn.go b/gen.conn.go
index fda4007..dce449c 100644
--- a/gen.conn.go
+++ b/gen.conn.go
@@ -20,6 +20,7 @@ import (
 	"bufio"
 	"context"
 	"crypto/tls"
+	"errors"
 	"fmt"
 	"net"
 	"sync"
@@ -29,6 +30,8 @@ import (
 	"github.com/savaki/kafka/ring"
 )
 
+var errConnClosed = errors.New("connection closed")
+
 type Conn struct {
 	cancel      context.CancelFunc
 	ch          chan request
@@ -84,33 +87,32 @@ func Connect(addr string, opts ...Option) (*Conn, error) {
 		requests:    map[int32]request{},
 	}
 	go c.readLoop(ctx, rb, raw)
-	go c.messageLoop(ctx, rb, ch)
+	go c.messageLoop(ctx, rb, raw, ch)
 
 	return c, nil
 }
 
 func (c *Conn) readLoop(ctx context.Context, rb *ring.Buffer, raw net.Conn) {
 	defer close(c.doneRead)
+	defer rb.Close() // no more data will arrive
 
 	buffer := make([]byte, 2e6) // 2MB
 	for {
 		n, err := raw.Read(buffer)
+		rb.WriteN(buffer, n)
 		if err != nil {
 			fmt.Println(err)
 			return
 		}
-
-		rb.WriteN(buffer, n)
 	}
 }
 
-func (c *Conn) messageLoop(ctx context.Context, rb *ring.Buffer, ch <-chan request) {
+func (c *Conn) messageLoop(ctx context.Context, rb *ring.Buffer, raw net.Conn, ch <-chan request) {
 	defer close(c.doneMessage)
+	defer raw.Close()
+	defer rb.Close()
 
-	var (
-		buffer = make([]byte, 2e6) // 2MB
-		d      = message.NewDecoder(buffer, len(buffer))
-	)
+	buffer := make([]byte, 2e6) // 2MB
 
 	for {
 		select {
@@ -121,14 +123,28 @@ func (c *Conn) messageLoop(ctx context.Context, rb *ring.Buffer, ch <-chan reque
 		}
 
 		// read the header
-		rb.ReadN(buffer, 4)
-		d.Reset(4)
-		v, _ := d.Int32()
+		if rb.ReadN(buffer, 4) < 4 {
+			return
+		}
+		v, _ := message.NewDecoder(buffer, 4).Int32()
 		size := int(v)
+		if size < 0 {
+			return
+		}
 
-		// read the payload
-		rb.ReadN(buffer, size)
-		d.Reset(size)
+		// read the payload; decoded messages refer to it, so it is never reused
+		var payload []byte
+		for len(payload) < size {
+			n := size - len(payload)
+			if n > len(buffer) {
+				n = len(buffer)
+			}
+			if rb.ReadN(buffer, n) < n {
+				return
+			}
+			payload = append(payload, buffer[:n]...)
+		}
+		d := message.NewDecoder(payload, size)
 
 		var resp message.ResponseHeader
 		if err := (&resp).Decode(d, 1); err != nil {
@@ -167,10 +183,26 @@ func (c *Conn) Do(encode EncodeFunc, decode DecodeFunc) error {
 	c.writeLock.Unlock()
 
 	if err != nil {
+		c.readLock.Lock()
+		delete(c.requests, correlationID)
+		c.readLock.Unlock()
+		c.raw.Close() // the stream to the broker is broken
 		return err
 	}
 
-	return <-req.reply
+	select {
+	case err := <-req.reply:
+		return err
+	case <-c.doneMessage:
+	}
+
+	// prefer a reply received before the connection ended
+	select {
+	case err := <-req.reply:
+		return err
+	default:
+		return errConnClosed
+	}
 }
 
 func (c *Conn) Close() error {
-- 
2.43.0


From 5183c5955da7b5a80e0340481144dc0d02300709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:43 +0000
Subject: [PATCH 09/19] fix: a request that can't be encoded fails alone and
 sends nothing

---
 gen.conn.go | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/gen.conn.go b/gen.conn.go
index dce449c..0c9ed9b 100644
--- a/gen.conn.go
+++ b/gen.conn.go
@@ -18,6 +18,7 @@ package kafka
 
 import (
 	"bufio"
+	"bytes"
 	"context"
 	"crypto/tls"
 	"errors"
@@ -37,11 +38,11 @@ type Conn struct {
 	ch          chan request
 	doneMessage chan struct{}
 	doneRead    chan struct{}
-	encoder     *message.Encoder
 	err         error
 	id          int32
 	raw         net.Conn
 	rb          *ring.Buffer
+	writer      *bufio.Writer
 
 	writeLock sync.Mutex
 	readLock  sync.Mutex
@@ -73,7 +74,7 @@ func Connect(addr string, opts ...Option) (*Conn, error) {
 		ctx, cancel = context.WithCancel(context.Background())
 		rb          = ring.New(5e6)
 		ch          = make(chan request, 32)
-		e           = message.NewEncoder(bufio.NewWriter(raw))
+		w           = bufio.NewWriter(raw)
 	)
 
 	c := &Conn{
@@ -81,10 +82,10 @@ func Connect(addr string, opts ...Option) (*Conn, error) {
 		ch:          ch,
 		doneMessage: make(chan struct{}),
 		doneRead:    make(chan struct{}),
-		encoder:     e,
 		raw:         raw,
 		rb:          rb,
 		requests:    map[int32]request{},
+		writer:      w,
 	}
 	go c.readLoop(ctx, rb, raw)
 	go c.messageLoop(ctx, rb, raw, ch)
@@ -177,16 +178,26 @@ func (c *Conn) Do(encode EncodeFunc, decode DecodeFunc) error {
 	c.requests[correlationID] = req
 	c.readLock.Unlock()
 
-	c.writeLock.Lock()
-	encode(c.encoder, correlationID)
-	err := c.encoder.Flush()
-	c.writeLock.Unlock()
+	// encode the whole frame first so a request that can't be encoded sends nothing
+	frame := &bytes.Buffer{}
+	encoder := message.NewEncoder(frame)
+	encode(encoder, correlationID)
+	err := encoder.Flush()
+	if err == nil {
+		c.writeLock.Lock()
+		c.writer.Write(frame.Bytes())
+		err = c.writer.Flush()
+		c.writeLock.Unlock()
+
+		if err != nil {
+			c.raw.Close() // the stream to the broker is broken
+		}
+	}
 
 	if err != nil {
 		c.readLock.Lock()
 		delete(c.requests, correlationID)
 		c.readLock.Unlock()
-		c.raw.Close() // the stream to the broker is broken
 		return err
 	}
 
-- 
2.43.0


From 8f4c0bae980383a28dc44904281e5550b96d95ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:43 +0000
Subject: [PATCH 10/19] fix: Produce without acknowledgements doesn't wait for
 a reply

---
 gen.broker.go | 11 +++++++----
 gen.conn.go   | 12 +++++++++---
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/gen.broker.go b/gen.broker.go
index 9e952de..39f651c 100644
--- a/gen.broker.go
+++ b/gen.broker.go
@@ -65,6 +65,12 @@ func (b *Broker) Close() error {
 // Produce (apiKey: 0)
 func (b *Broker) Produce(req message.ProduceRequest) (message.ProduceResponse, error) {
 	var resp message.ProduceResponse
+	decode := func(d *message.Decoder) error {
+		return (&resp).Decode(d, b.apiVersion.Produce)
+	}
+	if req.Acks == 0 {
+		decode = nil // brokers never reply when no acknowledgement is requested
+	}
 	err := b.conn.Do(
 		// encode request
 		func(e *message.Encoder, correlationID int32) {
@@ -79,10 +85,7 @@ func (b *Broker) Produce(req message.ProduceRequest) (message.ProduceResponse, e
 			hdr.Encode(e, 2)
 			req.Encode(e, b.apiVersion.Produce)
 		},
-		// decode response
-		func(d *message.Decoder) error {
-			return (&resp).Decode(d, b.apiVersion.Produce)
-		},
+		decode,
 	)
 	return resp, err
 }
diff --git a/gen.conn.go b/gen.conn.go
index 0c9ed9b..3d7db89 100644
--- a/gen.conn.go
+++ b/gen.conn.go
@@ -167,6 +167,8 @@ func (c *Conn) messageLoop(ctx context.Context, rb *ring.Buffer, raw net.Conn, c
 type EncodeFunc func(e *message.Encoder, correlationID int32)
 type DecodeFunc func(d *message.Decoder) error
 
+// Do sends a request and waits for the response; if decode is nil, no response
+// is expected and Do returns once the request has been written.
 func (c *Conn) Do(encode EncodeFunc, decode DecodeFunc) error {
 	correlationID := atomic.AddInt32(&c.id, 1)
 	req := request{
@@ -174,9 +176,13 @@ func (c *Conn) Do(encode EncodeFunc, decode DecodeFunc) error {
 		reply:  make(chan error, 1),
 	}
 
-	c.readLock.Lock()
-	c.requests[correlationID] = req
-	c.readLock.Unlock()
+	if decode == nil {
+		req.reply <- nil
+	} else {
+		c.readLock.Lock()
+		c.requests[correlationID] = req
+		c.readLock.Unlock()
+	}
 
 	// encode the whole frame first so a request that can't be encoded sends nothing
 	frame := &bytes.Buffer{}
-- 
2.43.0


From a8d23da4f4986a2bdd97827c945b98018dbc532c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:04 +0000
Subject: [PATCH 11/19] fix: close connections that aren't handed to the caller

---
 client.go     | 1 +
 gen.broker.go | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/client.go b/client.go
index 303efdc..1fab90c 100644
--- a/client.go
+++ b/client.go
@@ -46,6 +46,7 @@ func (c *Client) dialBootstrap(callback func(*Broker) error) error {
 			continue
 		}
 
+		defer broker.Close()
 		return callback(broker)
 	}
 	return err
diff --git a/gen.broker.go b/gen.broker.go
index 39f651c..0775c43 100644
--- a/gen.broker.go
+++ b/gen.broker.go
@@ -46,10 +46,12 @@ func NewBroker(addr string, opts ...Option) (*Broker, error) {
 	//
 	resp, err := broker.ApiVersions(message.ApiVersionsRequest{})
 	if err != nil {
+		conn.Close()
 		return nil, fmt.Errorf("unable to create broker: %w", err)
 	}
 	apiVersion, err := negotiateApiVersions(resp.ApiKeys)
 	if err != nil {
+		conn.Close()
 		return nil, fmt.Errorf("unable to create broker: %w", err)
 	}
 	broker.apiVersion = apiVersion
-- 
2.43.0


From 0db9e0e20f0d1ddc0c272079d7e412829eab5caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:04 +0000
Subject: [PATCH 12/19] fix: client operations fail without bootstrap brokers

---
 client.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/client.go b/client.go
index 1fab90c..728f5f2 100644
--- a/client.go
+++ b/client.go
@@ -16,6 +16,7 @@ package kafka
 
 import (
 	"context"
+	"errors"
 	"fmt"
 	"strconv"
 
@@ -39,7 +40,7 @@ func NewClient(bootstrap []string, opts ...Option) *Client {
 // dialBootstrap dials one of the initial bootstrap servers
 func (c *Client) dialBootstrap(callback func(*Broker) error) error {
 	var broker *Broker
-	var err error
+	err := errors.New("no bootstrap brokers")
 	for _, addr := range c.bootstrap {
 		broker, err = NewBroker(addr, c.opts...)
 		if err != nil {
-- 
2.43.0


From c77e3b1406f8aa96d5b0d521a8e31dd4727f9cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:04 +0000
Subject: [PATCH 13/19] fix: dial brokers with IPv6 addresses

---
 client.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/client.go b/client.go
index 728f5f2..7e9f7b2 100644
--- a/client.go
+++ b/client.go
@@ -18,6 +18,7 @@ import (
 	"context"
 	"errors"
 	"fmt"
+	"net"
 	"strconv"
 
 	"github.com/savaki/kafka/message"
@@ -57,7 +58,7 @@ func (c *Client) dialBootstrap(callback func(*Broker) error) error {
 func (c *Client) dialNode(meta message.MetadataResponse, nodeID int32) (*Broker, error) {
 	for _, broker := range meta.Brokers {
 		if broker.NodeId == nodeID {
-			addr := broker.Host + ":" + strconv.Itoa(int(broker.Port))
+			addr := net.JoinHostPort(broker.Host, strconv.Itoa(int(broker.Port)))
 			return NewBroker(addr, c.opts...)
 		}
 	}
@@ -78,7 +79,7 @@ func (c *Client) dialCoordinator(ctx context.Context, req message.FindCoordinato
 		return nil, err
 	}
 
-	addr := resp.Host + ":" + strconv.Itoa(int(resp.Port))
+	addr := net.JoinHostPort(resp.Host, strconv.Itoa(int(resp.Port)))
 	return NewBroker(addr, c.opts...)
 }
 
-- 
2.43.0


From 56a49a117ef8d8935b1afd3e57a61beb66d9362b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:04 +0000
Subject: [PATCH 14/19] fix: report an unavailable coordinator instead of
 dialling it

---
 client.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/client.go b/client.go
index 7e9f7b2..ca1848c 100644
--- a/client.go
+++ b/client.go
@@ -79,6 +79,10 @@ func (c *Client) dialCoordinator(ctx context.Context, req message.FindCoordinato
 		return nil, err
 	}
 
+	if resp.ErrorCode != 0 {
+		return nil, fmt.Errorf("unable to find coordinator, error code %v", resp.ErrorCode)
+	}
+
 	addr := net.JoinHostPort(resp.Host, strconv.Itoa(int(resp.Port)))
 	return NewBroker(addr, c.opts...)
 }
-- 
2.43.0


From 050576362b6ddc2fb26f0d155eb43a8dbda69eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:37 +0000
Subject: [PATCH 15/19] fix: record batches carry record lengths, counts,
 offset and millisecond timestamp deltas

The size of a batch is the number of bytes it encodes to; records without
headers are supported.
---
 gen.record_batch.go | 48 +++++++++++++++++++++++++++++++--------------
 1 file changed, 33 insertions(+), 15 deletions(-)

diff --git a/gen.record_batch.go b/gen.record_batch.go
index dda4446..98effef 100644
--- a/gen.record_batch.go
+++ b/gen.record_batch.go
@@ -96,9 +96,11 @@ func (r RecordBatch) Size(version int16) int32 {
 	sz += sizeof.Int64 // ProducerId
 	sz += sizeof.Int16 // ProducerEpoch
 	sz += sizeof.Int32 // BaseSequence
+	sz += sizeof.Int32 // number of Records
 
 	for _, msg := range r.Records {
-		sz += sizeofMessage(msg, version, r.BaseOffset, r.FirstTimestamp)
+		length := sizeofMessage(msg, r.BaseOffset, r.FirstTimestamp)
+		sz += sizeof.VarInt(int64(length)) + length
 	}
 	return sz
 }
@@ -116,33 +118,36 @@ func (r RecordBatch) Encode(encoder *message.Encoder, version int16) {
 	encoder.PutInt64(r.ProducerId)
 	encoder.PutInt16(r.ProducerEpoch)
 	encoder.PutInt32(r.BaseSequence)
+	encoder.PutArrayLength(len(r.Records))
 
 	for _, m := range r.Records {
-		encodeMessage(m, encoder, version, r.FirstTimestamp)
+		encodeMessage(m, encoder, r.BaseOffset, r.FirstTimestamp)
 	}
 }
 
 // encodeMessage as per https://kafka.apache.org/documentation/#record
-func encodeMessage(m Message, encoder *message.Encoder, version int16, firstTimestamp int64) {
-	encoder.PutVarInt(int64(m.Size(version)))              // length
-	encoder.PutInt8(0)                                     // attributes
-	encoder.PutVarInt(m.Timestamp.Unix() - firstTimestamp) // timestampDelta
-	encoder.PutVarInt(0)                                   // offsetDelta
+func encodeMessage(m Message, encoder *message.Encoder, baseOffset, firstTimestamp int64) {
+	encoder.PutVarInt(int64(sizeofMessage(m, baseOffset, firstTimestamp))) // length
+	encoder.PutInt8(0)                                                     // attributes
+	encoder.PutVarInt(timestampMillis(m) - firstTimestamp)                 // timestampDelta
+	encoder.PutVarInt(m.Offset - baseOffset)                               // offsetDelta
 	encoder.PutVarBytes(m.Key)
 	encoder.PutVarBytes(m.Value)
-	m.Header.Range(encoder.PutRecordHeader)
+	encoder.PutVarInt(numHeaders(m))
+	if m.Header != nil {
+		m.Header.Range(encoder.PutRecordHeader)
+	}
 }
 
-func sizeofMessage(m Message, version int16, baseOffset, firstTimestamp int64) int32 {
+func sizeofMessage(m Message, baseOffset, firstTimestamp int64) int32 {
 	var sz int32
 	sz += sizeof.Int8                                        // attributes
-	sz += sizeof.VarInt(m.Timestamp.Unix() - firstTimestamp) // timestampDelta
+	sz += sizeof.VarInt(timestampMillis(m) - firstTimestamp) // timestampDelta
 	sz += sizeof.VarInt(m.Offset - baseOffset)               // offsetDelta
-	sz += sizeof.VarInt(int64(len(m.Key)))                   // keyLength
-	sz += sizeof.Bytes(m.Key)                                // key
-	sz += sizeof.VarInt(int64(len(m.Value)))                 // valueLength
-	sz += sizeof.Bytes(m.Value)                              // value
-	if version >= magic && m.Header != nil {
+	sz += sizeof.VarBytes(m.Key)                             // key
+	sz += sizeof.VarBytes(m.Value)                           // value
+	sz += sizeof.VarInt(numHeaders(m))                       // number of headers
+	if m.Header != nil {
 		m.Header.Range(func(key, value string) {
 			sz += sizeof.VarString(key)
 			sz += sizeof.VarString(value)
@@ -150,3 +155,16 @@ func sizeofMessage(m Message, version int16, baseOffset, firstTimestamp int64) i
 	}
 	return sz
 }
+
+func numHeaders(m Message) int64 {
+	var n int64
+	if m.Header != nil {
+		m.Header.Range(func(key, value string) { n++ })
+	}
+	return n
+}
+
+// timestampMillis returns the message timestamp in milliseconds since the epoch
+func timestampMillis(m Message) int64 {
+	return m.Timestamp.Unix()*1e3 + int64(m.Timestamp.Nanosecond()/1e6)
+}
-- 
2.43.0


From e6eabf533e8d47629da214e68bb44cf43b22eb8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:54 +0000
Subject: [PATCH 16/19] verif: dial hook guarded by the verif build tag

---
 gen.conn.go   |  4 ++++
 hook.go       | 11 +++++++++++
 hook_verif.go | 18 ++++++++++++++++++
 3 files changed, 33 insertions(+)
 create mode 100644 hook.go
 create mode 100644 hook_verif.go

diff --git a/gen.conn.go b/gen.conn.go
index 3d7db89..bd604a8 100644
--- a/gen.conn.go
+++ b/gen.conn.go
@@ -55,6 +55,10 @@ type request struct {
 }
 
 func dial(c config, addr string) (net.Conn, error) {
+	if conn, ok, err := dialHook(addr); ok {
+		return conn, err
+	}
+
 	if c.tlsConfig == nil {
 		return c.dialer.Dial("tcp", addr)
 	}
diff --git a/hook.go b/hook.go
new file mode 100644
index 0000000..05c5770
--- /dev/null
+++ b/hook.go
@@ -0,0 +1,11 @@
+//go:build !verif
+// +build !verif
+
+package kafka
+
+import "net"
+
+// dialHook is only used by builds with the verif tag; see hook_verif.go
+func dialHook(addr string) (net.Conn, bool, error) {
+	return nil, false, nil
+}
diff --git a/hook_verif.go b/hook_verif.go
new file mode 100644
index 0000000..d678b1e
--- /dev/null
+++ b/hook_verif.go
@@ -0,0 +1,18 @@
+//go:build verif
+// +build verif
+
+package kafka
+
+import "net"
+
+// VerifDial, if set, replaces network dialling.  Only exists in builds with the
+// verif tag, which verification harnesses use to own the transport.
+var VerifDial func(addr string) (net.Conn, error)
+
+func dialHook(addr string) (net.Conn, bool, error) {
+	if VerifDial == nil {
+		return nil, false, nil
+	}
+	conn, err := VerifDial(addr)
+	return conn, true, err
+}
-- 
2.43.0


From d46f4423a285e3be80c1300b783981768c124213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:38 +0000
Subject: [PATCH 17/19] fix: nothing is written to a closed ring buffer, which
 would leave a gap in the stream

---
 ring/buffer.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ring/buffer.go b/ring/buffer.go
index d6659b2..ba9e0dc 100644
--- a/ring/buffer.go
+++ b/ring/buffer.go
@@ -82,13 +82,18 @@ func (r *Buffer) Close() error {
 }
 
 // WriteN writes the first n bytes from data to the buffer.  If buffer is full, WriteN
-// blocks until ReadN clears space or the buffer is closed
+// blocks until ReadN clears space or the buffer is closed.  Once closed, nothing more
+// is written.
 func (r *Buffer) WriteN(data []byte, n int) {
 	var (
 		pos   = atomic.LoadInt32(&r.next)  // position next byte should be written
 		start = atomic.LoadInt32(&r.start) // start of data
 	)
 
+	if r.ctx.Err() != nil {
+		return
+	}
+
 	for i := 0; i < n; i++ {
 		// whenever pos catches up to the starting position, wait for
 		// bytes to be read before continuing
-- 
2.43.0


From 081b5993a1b795ca1851ccd96150b0b5794e64a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:10 +0000
Subject: [PATCH 18/19] fix: a failed write no longer returns while its
 response is being decoded

---
 gen.conn.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gen.conn.go b/gen.conn.go
index bd604a8..08a4dc6 100644
--- a/gen.conn.go
+++ b/gen.conn.go
@@ -206,8 +206,13 @@ func (c *Conn) Do(encode EncodeFunc, decode DecodeFunc) error {
 
 	if err != nil {
 		c.readLock.Lock()
+		_, waiting := c.requests[correlationID]
 		delete(c.requests, correlationID)
 		c.readLock.Unlock()
+
+		if decode != nil && !waiting {
+			<-req.reply // answered all the same; the response is being decoded
+		}
 		return err
 	}
 
-- 
2.43.0


From f14f0c0eb2a4a10e9020bf5d6d1e4a3c050fb5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:51 +0000
Subject: [PATCH 19/19] fix: client operations end when their context does

The context given to Metadata, DialController, DialLeader and
DialGroupCoordinator was ignored: an operation on a broker that accepts and
never answers could not be given up.
---
 client.go     | 28 ++++++++++++++++++----------
 gen.broker.go | 12 +++++++++++-
 gen.conn.go   | 41 +++++++++++++++++++++++++++++++++++++----
 3 files changed, 66 insertions(+), 15 deletions(-)

diff --git a/client.go b/client.go
index ca1848c..473871b 100644
--- a/client.go
+++ b/client.go
@@ -39,27 +39,35 @@ func NewClient(bootstrap []string, opts ...Option) *Client {
 }
 
 // dialBootstrap dials one of the initial bootstrap servers
-func (c *Client) dialBootstrap(callback func(*Broker) error) error {
+func (c *Client) dialBootstrap(ctx context.Context, callback func(*Broker) error) error {
 	var broker *Broker
 	err := errors.New("no bootstrap brokers")
 	for _, addr := range c.bootstrap {
-		broker, err = NewBroker(addr, c.opts...)
+		broker, err = newBroker(ctx, addr, c.opts...)
 		if err != nil {
+			if ctx.Err() != nil {
+				return err
+			}
 			continue
 		}
 
 		defer broker.Close()
-		return callback(broker)
+		stop := broker.conn.closeOnDone(ctx)
+		err = callback(broker)
+		if ctxErr := stop(); ctxErr != nil && err != nil {
+			err = ctxErr
+		}
+		return err
 	}
 	return err
 }
 
 // dial a specific node within the kafka cluster
-func (c *Client) dialNode(meta message.MetadataResponse, nodeID int32) (*Broker, error) {
+func (c *Client) dialNode(ctx context.Context, meta message.MetadataResponse, nodeID int32) (*Broker, error) {
 	for _, broker := range meta.Brokers {
 		if broker.NodeId == nodeID {
 			addr := net.JoinHostPort(broker.Host, strconv.Itoa(int(broker.Port)))
-			return NewBroker(addr, c.opts...)
+			return newBroker(ctx, addr, c.opts...)
 		}
 	}
 	return nil, fmt.Errorf("no such broker node, %v", nodeID)
@@ -75,7 +83,7 @@ func (c *Client) dialCoordinator(ctx context.Context, req message.FindCoordinato
 		resp = v
 		return nil
 	}
-	if err := c.dialBootstrap(callback); err != nil {
+	if err := c.dialBootstrap(ctx, callback); err != nil {
 		return nil, err
 	}
 
@@ -84,7 +92,7 @@ func (c *Client) dialCoordinator(ctx context.Context, req message.FindCoordinato
 	}
 
 	addr := net.JoinHostPort(resp.Host, strconv.Itoa(int(resp.Port)))
-	return NewBroker(addr, c.opts...)
+	return newBroker(ctx, addr, c.opts...)
 }
 
 // DialController connects to the cluster controller.
@@ -94,7 +102,7 @@ func (c *Client) DialController(ctx context.Context) (*Broker, error) {
 		return nil, err
 	}
 
-	return c.dialNode(meta, meta.ControllerId)
+	return c.dialNode(ctx, meta, meta.ControllerId)
 }
 
 // DialGroupCoordinator returns the group coordinator for the provided consumer group id
@@ -122,7 +130,7 @@ func (c *Client) DialLeader(ctx context.Context, topic string, partition int32)
 		return nil, fmt.Errorf("unable to dial leader: %w", err)
 	}
 
-	return c.dialNode(meta, p.LeaderId)
+	return c.dialNode(ctx, meta, p.LeaderId)
 }
 
 // Metadata returns cluster metadata with optional topic info
@@ -140,7 +148,7 @@ func (c *Client) Metadata(ctx context.Context, topics ...string) (message.Metada
 		meta = v
 		return nil
 	}
-	if err := c.dialBootstrap(callback); err != nil {
+	if err := c.dialBootstrap(ctx, callback); err != nil {
 		return message.MetadataResponse{}, err
 	}
 	return meta, nil
diff --git a/gen.broker.go b/gen.broker.go
index 0775c43..f3a6ce8 100644
--- a/gen.broker.go
+++ b/gen.broker.go
@@ -17,6 +17,7 @@
 package kafka
 
 import (
+	"context"
 	"fmt"
 
 	"github.com/savaki/kafka/message"
@@ -31,8 +32,13 @@ type Broker struct {
 
 // NewBroker a new Kafka Broker
 func NewBroker(addr string, opts ...Option) (*Broker, error) {
+	return newBroker(context.Background(), addr, opts...)
+}
+
+// newBroker is NewBroker, but gives up when ctx is done
+func newBroker(ctx context.Context, addr string, opts ...Option) (*Broker, error) {
 	config := buildConfig(opts)
-	conn, err := Connect(addr, opts...)
+	conn, err := connect(ctx, addr, opts...)
 	if err != nil {
 		return nil, err
 	}
@@ -44,7 +50,11 @@ func NewBroker(addr string, opts ...Option) (*Broker, error) {
 
 	// negotiate usable api versions prior to returning broker
 	//
+	stop := conn.closeOnDone(ctx)
 	resp, err := broker.ApiVersions(message.ApiVersionsRequest{})
+	if ctxErr := stop(); ctxErr != nil {
+		err = ctxErr
+	}
 	if err != nil {
 		conn.Close()
 		return nil, fmt.Errorf("unable to create broker: %w", err)
diff --git a/gen.conn.go b/gen.conn.go
index 08a4dc6..fafad02 100644
--- a/gen.conn.go
+++ b/gen.conn.go
@@ -54,22 +54,28 @@ type request struct {
 	reply  chan error
 }
 
-func dial(c config, addr string) (net.Conn, error) {
+func dial(ctx context.Context, c config, addr string) (net.Conn, error) {
 	if conn, ok, err := dialHook(addr); ok {
 		return conn, err
 	}
 
 	if c.tlsConfig == nil {
-		return c.dialer.Dial("tcp", addr)
+		return c.dialer.DialContext(ctx, "tcp", addr)
 	}
 
-	return tls.DialWithDialer(c.dialer, "tcp", addr, c.tlsConfig)
+	d := tls.Dialer{NetDialer: c.dialer, Config: c.tlsConfig}
+	return d.DialContext(ctx, "tcp", addr)
 }
 
 func Connect(addr string, opts ...Option) (*Conn, error) {
+	return connect(context.Background(), addr, opts...)
+}
+
+// connect is Connect, but gives up when dialCtx is done
+func connect(dialCtx context.Context, addr string, opts ...Option) (*Conn, error) {
 	config := buildConfig(opts)
 
-	raw, err := dial(config, addr)
+	raw, err := dial(dialCtx, config, addr)
 	if err != nil {
 		return nil, fmt.Errorf("failed to dial broker, %v: %w", addr, err)
 	}
@@ -239,3 +245,30 @@ func (c *Conn) Close() error {
 	<-c.doneRead
 	return c.err
 }
+
+// closeOnDone closes the connection when ctx is done before stop is called; stop
+// then returns the error of ctx.
+func (c *Conn) closeOnDone(ctx context.Context) (stop func() error) {
+	if ctx.Done() == nil {
+		return func() error { return nil }
+	}
+
+	var (
+		stopped = make(chan struct{})
+		result  = make(chan error, 1)
+	)
+	go func() {
+		select {
+		case <-ctx.Done():
+			c.Close()
+			result <- ctx.Err()
+		case <-stopped:
+			result <- nil
+		}
+	}()
+
+	return func() error {
+		close(stopped)
+		return <-result
+	}
+}
-- 
2.43.0

