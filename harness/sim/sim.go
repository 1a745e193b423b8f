// Package sim is an in-memory network whose every step a check controls: how
// the byte stream is cut into segments, when and how a connection ends, when a
// write fails or blocks.
package sim

import (
	"errors"
	"io"
	"net"
	"os"
	"sync"
	"time"

	"verif/harness/vsched"
)

var (
	ErrReset  = errors.New("sim: connection reset by peer")
	ErrWrite  = errors.New("sim: injected write failure")
	ErrRefuse = errors.New("sim: connection refused")
)

// Link is one connection.  The library holds its client side, Conn.
type Link struct {
	Addr string

	mu      sync.Mutex
	changed chan struct{}
	wsem    chan struct{}

	in      [][]byte // segments on their way to the client
	inEnd   error    // what the client reads after them (io.EOF, ErrReset)
	endWith bool     // deliver the end together with the last segment

	out    []byte // everything the client has written
	parsed int    // bytes of out already taken by NextFrame

	failAt   int // client writes fail once this many bytes were written, -1 never
	partial  bool
	wfailed  bool
	stallAt  int // client writes block once this many bytes were written, -1 never
	closed   bool
	closes   int
	hungUp   bool // the server no longer accepts bytes
	rdl, wdl time.Time

	Segments int // reads that returned data
}

func NewLink(addr string) *Link {
	return &Link{Addr: addr, changed: make(chan struct{}), wsem: make(chan struct{}, 1), failAt: -1, stallAt: -1}
}

func (l *Link) touch() {
	close(l.changed)
	l.changed = make(chan struct{})
}

// FailWrites makes client writes fail after n more-than-ever-written bytes.
func (l *Link) FailWrites(n int, partial bool) {
	l.mu.Lock()
	l.failAt, l.partial = n, partial
	l.mu.Unlock()
}

// StallWrites makes client writes block after n bytes in total.
func (l *Link) StallWrites(n int) {
	l.mu.Lock()
	l.stallAt = n
	l.mu.Unlock()
}

// ---- server side

// Send queues bytes for the client, cut into segments of the given lengths
// (cyclic; 0 or none: one segment).
func (l *Link) Send(b []byte, cuts []int, next *int) {
	for len(b) > 0 {
		n := len(b)
		if len(cuts) > 0 {
			if c := cuts[*next%len(cuts)]; c > 0 && c < n {
				n = c
			}
			*next++
		}
		vsched.Point(-10)
		vsched.Progress()
		l.mu.Lock()
		l.in = append(l.in, append([]byte{}, b[:n]...))
		l.touch()
		l.mu.Unlock()
		b = b[n:]
	}
}

// End ends the stream to the client after what was sent.
func (l *Link) End(err error, withLast bool) {
	vsched.Point(-11)
	l.mu.Lock()
	if l.inEnd == nil {
		l.inEnd, l.endWith = err, withLast
		l.hungUp = err == ErrReset
		l.touch()
	}
	l.mu.Unlock()
}

// Wait blocks until something changed since the given state, or kick fires.
func (l *Link) Wait(ch <-chan struct{}, kick <-chan struct{}) (kicked bool) {
	select {
	case <-ch:
		return false
	case <-kick:
		return true
	}
}

// State returns the channel that is closed at the next change, the bytes not
// yet parsed and whether the client closed its side.
func (l *Link) State() (changed <-chan struct{}, pending []byte, closed bool) {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.changed, append([]byte{}, l.out[l.parsed:]...), l.closed
}

// Take marks n bytes as parsed.
func (l *Link) Take(n int) {
	l.mu.Lock()
	l.parsed += n
	l.mu.Unlock()
}

// Leftover returns client bytes that were never parsed.
func (l *Link) Leftover() []byte {
	l.mu.Lock()
	defer l.mu.Unlock()
	return append([]byte{}, l.out[l.parsed:]...)
}

// Parsed is the number of client bytes taken so far.
func (l *Link) Parsed() int {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.parsed
}

// WriteFailed tells whether a client write was made to fail.
func (l *Link) WriteFailed() bool {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.wfailed
}

func (l *Link) IsClosed() bool {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.closed
}

// NextFrame blocks until a whole frame (without its length) is there; ok is
// false once the client has closed or the server side ended the link.
func (l *Link) NextFrame(kick <-chan struct{}) (frame []byte, ok, kicked bool) {
	for {
		ch, b, closed := l.State()
		if len(b) >= 4 {
			n := int(int32(uint32(b[0])<<24 | uint32(b[1])<<16 | uint32(b[2])<<8 | uint32(b[3])))
			if n < 0 {
				return nil, false, false
			}
			if len(b) >= 4+n {
				l.Take(4 + n)
				return b[4 : 4+n], true, false
			}
		}
		if closed {
			return nil, false, false
		}
		if l.Wait(ch, kick) {
			return nil, true, true
		}
	}
}

// ---- client side (net.Conn)

type Conn struct{ L *Link }

type addr string

func (a addr) Network() string { return "sim" }
func (a addr) String() string  { return string(a) }

func (c *Conn) LocalAddr() net.Addr  { return addr("client:1") }
func (c *Conn) RemoteAddr() net.Addr { return addr(c.L.Addr) }

func expired(t time.Time) bool { return !t.IsZero() && !time.Now().Before(t) }

func waitUntil(ch <-chan struct{}, t time.Time) {
	if t.IsZero() {
		<-ch
		return
	}
	tm := time.NewTimer(time.Until(t))
	defer tm.Stop()
	select {
	case <-ch:
	case <-tm.C:
	}
}

func (c *Conn) Read(p []byte) (int, error) {
	vsched.Point(-1)
	l := c.L
	l.mu.Lock()
	for {
		if l.closed {
			l.mu.Unlock()
			return 0, net.ErrClosed
		}
		if expired(l.rdl) {
			l.mu.Unlock()
			return 0, os.ErrDeadlineExceeded
		}
		if len(p) == 0 {
			l.mu.Unlock()
			return 0, nil
		}
		if len(l.in) > 0 {
			n := copy(p, l.in[0])
			if n == len(l.in[0]) {
				l.in = l.in[1:]
			} else {
				l.in[0] = l.in[0][n:]
			}
			l.Segments++
			vsched.Progress()
			var err error
			if len(l.in) == 0 && l.inEnd == io.EOF && l.endWith {
				err = l.inEnd
			}
			l.mu.Unlock()
			return n, err
		}
		if l.inEnd != nil {
			err := l.inEnd
			l.mu.Unlock()
			return 0, err
		}
		ch, dl := l.changed, l.rdl
		l.mu.Unlock()
		waitUntil(ch, dl)
		l.mu.Lock()
	}
}

func (c *Conn) Write(p []byte) (int, error) {
	vsched.Point(-2)
	l := c.L
	// as on a real connection, one Write at a time
	l.wsem <- struct{}{}
	defer func() { <-l.wsem }()
	l.mu.Lock()
	defer l.mu.Unlock()
	wrote := 0
	for {
		if l.closed {
			return wrote, net.ErrClosed
		}
		if expired(l.wdl) {
			return wrote, os.ErrDeadlineExceeded
		}
		if l.hungUp {
			return wrote, ErrReset
		}
		if len(p) == 0 {
			return wrote, nil
		}
		n := len(p)
		if l.failAt >= 0 && len(l.out)+n > l.failAt {
			if l.partial && l.failAt > len(l.out) {
				k := l.failAt - len(l.out)
				l.out = append(l.out, p[:k]...)
				wrote += k
				l.touch()
			}
			if l.failAt > len(l.out) {
				l.failAt = len(l.out)
			}
			l.wfailed = true
			return wrote, ErrWrite
		}
		if l.stallAt >= 0 && len(l.out)+n > l.stallAt {
			n = l.stallAt - len(l.out)
			if n <= 0 {
				ch, dl := l.changed, l.wdl
				l.mu.Unlock()
				waitUntil(ch, dl)
				l.mu.Lock()
				continue
			}
		}
		l.out = append(l.out, p[:n]...)
		vsched.Progress()
		wrote += n
		p = p[n:]
		l.touch()
	}
}

func (c *Conn) Close() error {
	vsched.Point(-3)
	l := c.L
	l.mu.Lock()
	defer l.mu.Unlock()
	l.closes++
	if l.closed {
		return net.ErrClosed
	}
	l.closed = true
	l.touch()
	return nil
}

func (c *Conn) SetDeadline(t time.Time) error {
	c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}

func (c *Conn) SetReadDeadline(t time.Time) error {
	c.L.mu.Lock()
	c.L.rdl = t
	c.L.touch()
	c.L.mu.Unlock()
	return nil
}

func (c *Conn) SetWriteDeadline(t time.Time) error {
	c.L.mu.Lock()
	c.L.wdl = t
	c.L.touch()
	c.L.mu.Unlock()
	return nil
}
