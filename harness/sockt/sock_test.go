// Package sockt plays calls, faults and idle times on real loopback sockets,
// plain and TLS, with the library built as users build it (no hook, no
// instrumentation). Long times can be made to pass faster (check.py, FAST).
package sockt

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/big"
	"net"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/savaki/kafka"
	"github.com/savaki/kafka/message"
	"pgregory.net/rapid"

	"verif/harness/pbt"
)

var pki struct {
	once sync.Once
	cert tls.Certificate
	pool *x509.CertPool
}

func keys() {
	pki.once.Do(func() {
		key, _ := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
		tmpl := &x509.Certificate{SerialNumber: big.NewInt(7), Subject: pkix.Name{CommonName: "broker"}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(24 * time.Hour),
			IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign | x509.KeyUsageDigitalSignature, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}, IPAddresses: []net.IP{net.ParseIP("127.0.0.1")}}
		der, err := x509.CreateCertificate(rand.Reader, tmpl, tmpl, &key.PublicKey, key)
		if err != nil {
			panic(err)
		}
		cert, _ := x509.ParseCertificate(der)
		pki.pool = x509.NewCertPool()
		pki.pool.AddCert(cert)
		pki.cert = tls.Certificate{Certificate: [][]byte{der}, PrivateKey: key}
	})
}

type call struct {
	Req    int  `json:"req"`
	Resp   int  `json:"resp"`
	Oneway bool `json:"oneway,omitempty"`
}

type sockCase struct {
	TLS     int      `json:"tls"`              // 0 plain, else the TLS version
	Dialer  int      `json:"dialer,omitempty"` // timeout of the dialer in seconds
	Callers [][]call `json:"callers"`
	Again   [][]call `json:"again,omitempty"` // a second round, after Idle
	Hold    int      `json:"hold"`            // answers are sent when so many requests wait, or nothing more comes
	Order   []int    `json:"order,omitempty"`
	Cuts    []int    `json:"cuts,omitempty"`
	Before  int      `json:"before_ms,omitempty"` // before the broker begins the handshake
	Slow    int      `json:"slow_ms,omitempty"`   // before the first answer
	Idle    int      `json:"idle_ms,omitempty"`   // between the rounds
	Speed   int64    `json:"speed,omitempty"`     // long times pass so much faster
	Fault   string   `json:"fault,omitempty"`     // eof, reset, close
	At      int      `json:"at,omitempty"`        // after so many answers; close: microseconds
	Part    int      `json:"part,omitempty"`      // bytes of the next answer
}

func fill(tok int64, n int, salt byte) []byte {
	b := make([]byte, n)
	x := uint32(tok)*2654435761 + uint32(salt)
	for i := range b {
		x = x*1664525 + 1013904223
		b[i] = byte(x >> 24)
	}
	return b
}

func be32(v int) []byte   { return binary.BigEndian.AppendUint32(nil, uint32(v)) }
func be64(v int64) []byte { return binary.BigEndian.AppendUint64(nil, uint64(v)) }

const apiKey, apiVer = 77, 3

func reqBody(tok int64, c call) []byte {
	b := append([]byte{0, 1, 'c'}, be64(tok)...)
	b = append(b, be32(c.Req)...)
	return append(b, fill(tok, c.Req, 1)...)
}

type outcome struct {
	call   call
	tok    int64
	done   atomic.Bool
	err    error
	gotTok int64
	got    []byte
	copy   []byte
	sent   atomic.Bool // its response was completely sent
}

func (o *outcome) do(conn *kafka.Conn) {
	var decode kafka.DecodeFunc
	if !o.call.Oneway {
		decode = func(d *message.Decoder) (err error) {
			if o.gotTok, err = d.Int64(); err != nil {
				return err
			}
			o.got, err = d.Bytes()
			return err
		}
	}
	o.err = conn.Do(func(e *message.Encoder, corr int32) {
		e.PutInt32(int32(8 + len(reqBody(o.tok, o.call))))
		e.PutInt16(apiKey)
		e.PutInt16(apiVer)
		e.PutInt32(corr)
		e.PutString("c")
		e.PutInt64(o.tok)
		e.PutBytes(fill(o.tok, o.call.Req, 1))
	}, decode)
	o.copy = append([]byte{}, o.got...)
	o.done.Store(true)
}

type problem struct{ aspect, msg string }

type broker struct {
	c     sockCase
	l     net.Listener
	byTok map[int64]*outcome
	mu    sync.Mutex
	probs []problem
	seen  map[int64]bool
	used  map[int32]bool
	raw   net.Conn
	first []byte
	sent  int
	cut   int
	max   int
	left  int // requests of the round still to come
	gone  bool
	wg    sync.WaitGroup
}

func (b *broker) bad(aspect, f string, a ...interface{}) {
	b.mu.Lock()
	b.probs = append(b.probs, problem{aspect, fmt.Sprintf(f, a...)})
	b.mu.Unlock()
}

type pend struct {
	corr int32
	o    *outcome
}

type tap struct {
	net.Conn
	b *broker
}

func (t tap) Read(p []byte) (int, error) {
	n, err := t.Conn.Read(p)
	t.b.mu.Lock()
	if len(t.b.first) < 16 {
		t.b.first = append(t.b.first, p[:n]...)
	}
	t.b.mu.Unlock()
	return n, err
}

func (b *broker) serve() {
	defer b.wg.Done()
	raw, err := b.l.Accept()
	if err != nil {
		return
	}
	b.mu.Lock()
	b.raw = raw
	b.mu.Unlock()
	defer raw.Close()
	time.Sleep(time.Duration(b.c.Before) * time.Millisecond)
	var c net.Conn = tap{raw, b}
	if b.c.TLS != 0 {
		t := tls.Server(c, &tls.Config{Certificates: []tls.Certificate{pki.cert}, MaxVersion: uint16(b.c.TLS)})
		if err := t.Handshake(); err != nil {
			return
		}
		c = t
	}
	in := make(chan []byte)
	stop := make(chan struct{})
	defer close(stop)
	b.wg.Add(1)
	go func() {
		defer b.wg.Done()
		defer close(in)
		for {
			var h [4]byte
			if n, err := io.ReadFull(c, h[:]); err != nil {
				if n > 0 && b.c.Fault == "" {
					b.bad("frame", "the stream ends in a frame length")
				}
				return
			}
			n := binary.BigEndian.Uint32(h[:])
			if n > 64<<20 {
				b.bad("frame", "a frame length of %d", n)
				return
			}
			f := make([]byte, n)
			if _, err := io.ReadFull(c, f); err != nil {
				if b.c.Fault == "" {
					b.bad("frame", "the stream ends in a frame")
				}
				return
			}
			select {
			case in <- f:
			case <-stop:
				return
			}
		}
	}()
	var pending []pend
	slow := b.c.Slow
	frame := func(f []byte) {
		if len(f) < 19 || binary.BigEndian.Uint16(f) != apiKey || binary.BigEndian.Uint16(f[2:]) != apiVer {
			b.bad("frame", "a frame of %d bytes that is no request", len(f))
			return
		}
		corr := int32(binary.BigEndian.Uint32(f[4:]))
		tok := int64(binary.BigEndian.Uint64(f[11:]))
		o := b.byTok[tok]
		if o == nil || !bytes.Equal(f[8:], reqBody(tok, o.call)) {
			b.bad("frame", "a frame (%d bytes) that is not the request of any call", len(f))
			return
		}
		if b.seen[tok] {
			b.bad("frame", "the request of call %d arrived twice", tok)
			return
		}
		b.seen[tok] = true
		if o.call.Oneway {
			return
		}
		if b.used[corr] {
			b.bad("frame", "correlation id %d is used by two outstanding requests", corr)
		}
		b.used[corr] = true
		pending = append(pending, pend{corr, o})
		b.max = max(b.max, len(pending))
	}
	write := func(p []byte) bool {
		for len(p) > 0 {
			n := len(p)
			if len(b.c.Cuts) > 0 {
				if k := b.c.Cuts[b.cut%len(b.c.Cuts)]; k > 0 {
					n = min(n, k)
				}
				b.cut++
			}
			if _, err := c.Write(p[:n]); err != nil {
				return false
			}
			p = p[n:]
		}
		return true
	}
	end := func() {
		b.gone = true
		if b.c.Fault == "reset" {
			raw.(*net.TCPConn).SetLinger(0)
			raw.Close()
			return
		}
		if t, ok := c.(*tls.Conn); ok {
			t.CloseWrite()
		}
		raw.(*net.TCPConn).CloseWrite()
	}
	answer := func() {
		if slow > 0 {
			time.Sleep(time.Duration(slow) * time.Millisecond)
			slow = 0
		}
		for len(pending) > 0 && !b.gone {
			i := 0
			if len(b.c.Order) > 0 {
				i = b.c.Order[b.sent%len(b.c.Order)] % len(pending)
			}
			p := pending[i]
			body := append(be32(int(p.corr)), be64(p.o.tok)...)
			body = append(body, be32(p.o.call.Resp)...)
			body = append(body, fill(p.o.tok, p.o.call.Resp, 2)...)
			f := append(be32(len(body)), body...)
			if k := b.c.Fault; (k == "eof" || k == "reset") && b.sent == b.c.At {
				write(f[:min(b.c.Part, len(f)-1)])
				end()
				return
			}
			pending = append(pending[:i:i], pending[i+1:]...)
			b.sent++
			delete(b.used, p.corr)
			if k := b.c.Fault; k == "" || k == "eof" {
				p.o.sent.Store(true) // the client may see it before the write returns
			}
			if !write(f) {
				if b.c.Fault == "" {
					b.bad("delivery", "the client does not take its answers")
				}
				return
			}
		}
	}
	for {
		wait := 3 * time.Millisecond
		if len(pending) == 0 {
			wait = time.Second
		}
		select {
		case f, ok := <-in:
			if !ok {
				return
			}
			frame(f)
			if len(pending) >= b.c.Hold {
				answer()
			}
		case <-time.After(wait):
			answer()
		}
	}
}

func waitFor(f func() bool, limit time.Duration) bool {
	// no timers: they may be sped up
	for start := time.Now(); !f(); {
		if time.Since(start) > limit {
			return false
		}
		time.Sleep(200 * time.Microsecond)
	}
	return true
}

var impatient atomic.Bool

func noted(err error) error {
	if err != nil {
		impatient.Store(true)
	}
	return err
}

// patience is how long something that takes milliseconds may take; less while a
// failure is being shrunk.
func patience() time.Duration {
	if impatient.Load() {
		return 4 * time.Second
	}
	return 20 * time.Second
}

func play(c sockCase, ob *pbt.Obs) (probs []problem) {
	keys()
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	b := &broker{c: c, l: l, byTok: map[int64]*outcome{}, seen: map[int64]bool{}, used: map[int32]bool{}}
	tok := int64(1)
	mk := func(calls [][]call) (outs [][]*outcome, all []*outcome) {
		for _, cs := range calls {
			var os []*outcome
			for _, x := range cs {
				o := &outcome{call: x, tok: tok}
				tok++
				b.byTok[o.tok] = o
				os = append(os, o)
				all = append(all, o)
			}
			outs = append(outs, os)
		}
		return
	}
	first, all1 := mk(c.Callers)
	second, all2 := mk(c.Again)
	_, late := mk([][]call{{{Req: 2, Resp: 2}, {Req: 2, Resp: 2}}})
	b.wg.Add(1)
	go b.serve()
	defer func() {
		speed(0)
		l.Close()
		b.mu.Lock()
		if b.raw != nil {
			b.raw.Close()
		}
		b.mu.Unlock()
		b.wg.Wait()
		if len(probs) == 0 {
			probs = b.probs
		}
		if b.max > 1 {
			ob.Label("several requests outstanding")
		}
	}()
	var opts []kafka.Option
	if c.TLS != 0 {
		opts = append(opts, kafka.WithTLS(&tls.Config{RootCAs: pki.pool}))
		ob.Label(fmt.Sprintf("TLS %x", c.TLS))
	} else {
		ob.Label("plain")
	}
	if c.Dialer > 0 {
		opts = append(opts, kafka.WithDialer(&net.Dialer{Timeout: time.Duration(c.Dialer) * time.Second}))
	}
	speed(c.Speed)
	conn, err := kafka.Connect(l.Addr().String(), opts...)
	if err != nil {
		return []problem{{"end", fmt.Sprintf("connecting fails: %v", err)}, {"delivery", fmt.Sprintf("connecting fails: %v", err)}}
	}
	bad := func(aspect, f string, a ...interface{}) { probs = append(probs, problem{aspect, fmt.Sprintf(f, a...)}) }
	aspect := "delivery"
	if c.Fault != "" {
		aspect = "end"
	}
	round := func(outs [][]*outcome, all []*outcome) bool {
		for _, os := range outs {
			os := os
			go func() {
				for _, o := range os {
					o.do(conn)
				}
			}()
		}
		ok := waitFor(func() bool {
			for _, o := range all {
				if !o.done.Load() {
					return false
				}
			}
			return true
		}, patience())
		if !ok {
			for _, o := range all {
				if !o.done.Load() {
					bad(aspect, "call %d does not return (fault %q, response sent: %v)", o.tok, c.Fault, o.sent.Load())
					break
				}
			}
		}
		return ok
	}
	closed := make(chan struct{}, 2)
	if c.Fault == "close" {
		go func() {
			time.Sleep(time.Duration(c.At) * time.Microsecond)
			conn.Close()
			closed <- struct{}{}
		}()
	}
	ok := round(first, all1)
	if ok && len(second) > 0 {
		time.Sleep(time.Duration(c.Idle) * time.Millisecond)
		ok = round(second, all2)
	} else {
		all2 = nil
	}
	speed(0)
	if !ok {
		go conn.Close()
		return
	}
	all := append(append([]*outcome{}, all1...), all2...)
	failed := false
	for _, o := range all {
		switch {
		case o.err != nil:
			failed = true
			if c.Fault == "" || c.Fault == "eof" && o.sent.Load() {
				bad(aspect, "call %d fails with %q (fault %q, response sent: %v)", o.tok, o.err, c.Fault, o.sent.Load())
			}
		case o.call.Oneway:
		case o.gotTok != o.tok || !bytes.Equal(o.copy, fill(o.tok, o.call.Resp, 2)):
			bad("delivery", "call %d got the response of call %d (%d bytes, want %d), or altered bytes", o.tok, o.gotTok, len(o.copy), o.call.Resp)
		case !bytes.Equal(o.copy, o.got):
			bad("stable", "the response bytes of call %d changed after the call had returned", o.tok)
		}
	}
	if failed && (c.Fault == "eof" || c.Fault == "reset") {
		if round([][]*outcome{late}, late) {
			for _, o := range late {
				if o.err == nil {
					bad("end", "a call made after the connection ended succeeds")
				}
			}
		}
	}
	go func() { conn.Close(); closed <- struct{}{} }()
	n := 1
	if c.Fault == "close" {
		n = 2
	}
	if !waitFor(func() bool { return len(closed) == n }, patience()) {
		bad("end", "Close does not return (fault %q)", c.Fault)
		return
	}
	if c.Fault == "" {
		// what was sent on one connection arrives in full
		waitFor(func() bool {
			b.mu.Lock()
			defer b.mu.Unlock()
			return b.first != nil
		}, time.Second)
		// the broker sees the end of the stream and finishes
		done := make(chan struct{})
		go func() { b.wg.Wait(); close(done) }()
		select {
		case <-done:
		case <-time.After(patience()):
			bad("end", "the broker does not see the end of the connection after Close")
			return
		}
		for _, o := range all {
			if !b.seen[o.tok] {
				bad("frame", "the request of call %d never arrived", o.tok)
			}
		}
	}
	b.mu.Lock()
	head := append([]byte{}, b.first...)
	b.mu.Unlock()
	if len(head) > 3 && (c.TLS != 0) != (head[0] == 0x16) {
		bad("tls", "the connection starts with %x", head)
	}
	return
}

// ---- generation

func genCalls(rt *rapid.T, callers, calls, req, resp int, oneway bool) (out [][]call) {
	length := func(label string, max int) int {
		switch rapid.IntRange(0, 5).Draw(rt, label+"-shape") {
		case 0:
			return 0
		case 1, 2:
			return rapid.IntRange(0, max).Draw(rt, label)
		default:
			return rapid.IntRange(0, min(60, max)).Draw(rt, label)
		}
	}
	for i, n := 0, rapid.IntRange(1, callers).Draw(rt, "callers"); i < n; i++ {
		var l []call
		for k, m := 0, rapid.IntRange(1, calls).Draw(rt, "calls"); k < m; k++ {
			x := call{Req: length("req", req), Resp: length("resp", resp)}
			if oneway && rapid.IntRange(0, 3).Draw(rt, "oneway") == 0 {
				x.Oneway = true
			}
			l = append(l, x)
		}
		out = append(out, l)
	}
	return out
}

func genSock(rt *rapid.T, callers, calls, req, resp int) sockCase {
	c := sockCase{TLS: rapid.SampledFrom([]int{0, 0x304, 0x304, 0x303}).Draw(rt, "tls")}
	c.Callers = genCalls(rt, callers, calls, req, resp, true)
	c.Hold = rapid.IntRange(1, 4).Draw(rt, "hold")
	c.Order = rapid.SliceOfN(rapid.IntRange(0, 5), 0, 5).Draw(rt, "order")
	if rapid.Bool().Draw(rt, "cut") {
		c.Cuts = rapid.SliceOfN(rapid.SampledFrom([]int{0, 1, 3, 4, 7, 8, 100, 4096, 16384}), 1, 4).Draw(rt, "cuts")
		c.Cuts = append(c.Cuts, max(300, resp/20))
	}
	if rapid.IntRange(0, 3).Draw(rt, "dialer") == 0 {
		c.Dialer = rapid.SampledFrom([]int{20, 3600}).Draw(rt, "timeout")
	}
	return c
}

// genIdle leaves minutes to hours (sped up) between the events of a connection.
func genIdle(rt *rapid.T) sockCase {
	c := genSock(rt, 3, 2, 300, 300)
	c.Again = genCalls(rt, 2, 2, 300, 300, true)
	c.Speed = rapid.SampledFrom([]int64{300, 2000, 20000}).Draw(rt, "speed")
	c.Dialer = 0
	wait := func(label string) int { return rapid.IntRange(150, 400).Draw(rt, label) }
	switch rapid.IntRange(0, 3).Draw(rt, "where") {
	case 0:
		c.Before = wait("before")
	case 1:
		c.Slow = wait("slow")
	case 2:
		c.Idle = wait("idle")
	default:
		c.Before, c.Slow, c.Idle = wait("before"), wait("slow"), wait("idle")
	}
	if c.Before == 0 && rapid.Bool().Draw(rt, "dialer") { // plenty for connecting, however fast it passes
		c.Dialer = int(c.Speed) * 20
	}
	return c
}

func genFault(rt *rapid.T) sockCase {
	c := genSock(rt, 5, 4, 6000, 6000)
	n := 0
	for _, l := range c.Callers {
		n += len(l)
	}
	c.Fault = rapid.SampledFrom([]string{"eof", "reset", "close"}).Draw(rt, "fault")
	if c.Fault == "close" {
		c.At = rapid.OneOf(rapid.IntRange(0, 300), rapid.IntRange(0, 8000)).Draw(rt, "at")
	} else {
		c.At = rapid.IntRange(0, n).Draw(rt, "at")
		c.Part = rapid.IntRange(0, 40).Draw(rt, "part")
	}
	return c
}

func judge(probs []problem, aspects ...string) error {
	for _, p := range probs {
		for _, a := range aspects {
			if p.aspect == a {
				return errors.New(p.msg)
			}
		}
	}
	return nil
}

func check(t *testing.T, rule string, quick, deep int, strata []pbt.Stratum[sockCase], aspects ...string) {
	pbt.Main(t, pbt.Check[sockCase]{
		Rule: rule, Strata: strata, Quick: quick, Deep: deep, Crumb: true, Limit: 150 * time.Second,
		Run: func(c sockCase, ob *pbt.Obs) error {
			ob.NonTrivial()
			if c.Speed > 0 && canSpeed {
				ob.Label("long times sped up")
			}
			if c.Fault != "" {
				ob.Label("fault " + c.Fault)
			}
			return noted(judge(play(c, ob), aspects...))
		},
	})
}

const how = "real loopback sockets, plain, TLS 1.2 and 1.3, library as built for users: 1-5 callers, answers held back, reordered, cut; "

func stratum(name string, w int, g func(rt *rapid.T) sockCase) pbt.Stratum[sockCase] {
	return pbt.Stratum[sockCase]{Name: name, Weight: w, Gen: g}
}

func TestC10Sock(t *testing.T) {
	check(t, how+"slow and idle brokers with time sped up 300-20000 times (timers and socket deadlines of 2 s and more); oracle: every call returns its own response; non-trivial: always", 4, 200,
		[]pbt.Stratum[sockCase]{
			stratum("calls", 8, func(rt *rapid.T) sockCase { return genSock(rt, 5, 6, 9000, 9000) }),
			stratum("idle", 2, genIdle),
		}, "delivery")
}

func TestC12Sock(t *testing.T) {
	check(t, how+"requests to 2 MB; oracle: the broker receives exactly the requests, as whole frames, with distinct ids; non-trivial: always", 4, 200,
		[]pbt.Stratum[sockCase]{
			stratum("calls", 8, func(rt *rapid.T) sockCase { return genSock(rt, 5, 6, 20000, 60) }),
			stratum("large", 1, func(rt *rapid.T) sockCase { return genSock(rt, 4, 3, 2000000, 60) }),
		}, "frame")
}

func TestC13Sock(t *testing.T) {
	check(t, how+"an orderly end or a reset of the stream after any answer, also within one, or Close at any time; oracle: every call and close returns (within 20 s of real time), completely answered calls with their response, later calls with an error; non-trivial: always", 12, 400,
		[]pbt.Stratum[sockCase]{stratum("faults", 8, genFault)}, "end", "delivery")
}

func TestC19Sock(t *testing.T) {
	check(t, how+"dialers with long timeouts, slow handshakes, slow and idle brokers with time sped up 300-20000 times (timers and socket deadlines of 2 s and more); oracle: connecting and calls succeed, the transport is the one asked for; non-trivial: always", 4, 200,
		[]pbt.Stratum[sockCase]{stratum("idle", 4, genIdle)}, "delivery", "tls", "end")
}

func TestC20Sock(t *testing.T) {
	check(t, how+"responses to 9 MB, a few of 64 to 270 MB; oracle: every call returns its own response byte for byte; non-trivial: always", 4, 100,
		[]pbt.Stratum[sockCase]{
			stratum("sizes", 2, func(rt *rapid.T) sockCase { return genSock(rt, 3, 3, 60, 9000000) }),
			stratum("enormous", 1, func(rt *rapid.T) sockCase {
				c := genSock(rt, 2, 2, 60, 9000)
				c.Cuts = nil
				l := c.Callers[0]
				i := rapid.IntRange(0, len(l)-1).Draw(rt, "which")
				if size := rapid.SampledFrom([]int{0, 0, 0, 1 << 26, 100000000, 100 << 20, 1 << 27, 1 << 28}).Draw(rt, "size"); size > 0 {
					l[i].Resp = size + rapid.IntRange(-40, 4000000).Draw(rt, "more")
				}
				return c
			}),
		}, "delivery")
}
