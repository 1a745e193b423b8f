package connt

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"sync/atomic"
	"testing"

	"github.com/savaki/kafka"
	"github.com/savaki/kafka/message"
	"pgregory.net/rapid"

	"verif/harness/pbt"
	"verif/harness/sim"
	"verif/harness/vsched"
)

// rawCall is one call on a connection: a request and a response of given
// lengths; contents are derived from the call's number.
type rawCall struct {
	Req    int  `json:"req"`
	Resp   int  `json:"resp"`
	Scrub  bool `json:"scrub,omitempty"`  // the caller overwrites the bytes it got
	Kind   int  `json:"kind,omitempty"`   // how the payload is decoded: bytes, var bytes, string
	Bad    int  `json:"bad,omitempty"`    // malformed response: see respFrame
	Oneway bool `json:"oneway,omitempty"` // no response expected
	Pin    bool `json:"pin,omitempty"`    // answered only when all else has come to rest
}

// stray is a frame that belongs to no call, sent before the At-th response.
type stray struct {
	At   int `json:"at"`
	Kind int `json:"kind"` // 0: unknown id, 1: repeat of an answered id, 2: too short for a header
	Len  int `json:"len"`
}

type fault struct {
	Kind    string `json:"kind,omitempty"` // "", eof, reset, badlen, write, close, stall
	At      int    `json:"at,omitempty"`   // byte of the stream, or steps of the closer
	Len     int32  `json:"len,omitempty"`  // badlen: the length sent
	Partial bool   `json:"partial,omitempty"`
	With    bool   `json:"with,omitempty"` // end delivered together with the last bytes
	Closers int    `json:"closers,omitempty"`
	Mute    bool   `json:"mute,omitempty"` // after a failed write the broker sends nothing more
}

type rawCase struct {
	Callers [][]rawCall     `json:"callers"`
	Hold    []int           `json:"hold"`  // the server answers once so many requests are pending
	Order   []int           `json:"order"` // in the order these picks give
	Cuts    []int           `json:"cuts"`
	Strays  []stray         `json:"strays,omitempty"`
	Fault   fault           `json:"fault"`
	Late    int             `json:"late"` // calls made after the end of the connection
	Aged    *aged           `json:"aged,omitempty"`
	Sched   vsched.Schedule `json:"sched"`
	// other connections of the same process, and when each starts
	Beside []rawCase `json:"beside,omitempty"`
	After  int       `json:"after,omitempty"`
	Same   bool      `json:"same,omitempty"` // all of them to one address
}

// problem is an observation that contradicts a property; aspect says which.
type problem struct{ aspect, msg string }

const apiKey, apiVer = 77, 3

func fill(tok int64, n int, salt byte) []byte {
	b := make([]byte, n)
	x := uint32(tok)*2654435761 + uint32(salt)
	for i := range b {
		x = x*1664525 + 1013904223
		b[i] = byte(x >> 24)
	}
	return b
}

func be32(v int32) []byte { return binary.BigEndian.AppendUint32(nil, uint32(v)) }
func be64(v int64) []byte { return binary.BigEndian.AppendUint64(nil, uint64(v)) }

// reqBody is what follows the correlation id in a request.
func reqBody(tok int64, c rawCall) []byte {
	b := append([]byte{0, 1, 'c'}, be64(tok)...)
	b = append(b, be32(int32(c.Req))...)
	return append(b, fill(tok, c.Req, 1)...)
}

func zig(v int64) []byte {
	return binary.AppendVarint(nil, v)
}

// respFrame is the whole response frame including its length.
func respFrame(corr int32, tok int64, c rawCall) []byte {
	if c.Kind == 3 { // nothing but the header
		body := be32(corr)
		if c.Bad == 4 {
			body = append(body, 1, 2, 3, 0, 0, 0, 9)
		}
		return append(be32(int32(len(body))), body...)
	}
	body := append(be32(corr), be64(tok)...)
	p := fill(tok, c.Resp, 2)
	switch c.Kind {
	case 1:
		body = append(append(body, zig(int64(len(p)))...), p...)
	case 2:
		body = append(append(body, byte(len(p)>>8), byte(len(p))), p...)
	default:
		body = append(append(body, be32(int32(len(p)))...), p...)
	}
	switch {
	case c.Bad == 1: // cut after the header
		body = body[:4]
	case c.Bad == 2: // last byte missing
		body = body[:len(body)-1]
	case c.Bad == 3: // cut in the token
		body = body[:4+5]
	case c.Bad == 4: // surplus bytes: still a valid response
		body = append(body, 1, 2, 3, 0, 0, 0, 9)
	}
	return append(be32(int32(len(body))), body...)
}

func (c rawCall) want(tok int64) []byte {
	if c.Kind == 3 {
		return nil
	}
	return fill(tok, c.Resp, 2)
}

func (c rawCall) mustFail() bool { return c.Bad >= 1 && c.Bad <= 3 && c.Kind != 3 }

type outcome struct {
	call     rawCall
	tok      int64
	started  atomic.Bool
	returned atomic.Bool
	err      error
	gotTok   int64
	got      []byte
	copy     []byte
}

func doRaw(conn *kafka.Conn, o *outcome) {
	o.started.Store(true)
	c := o.call
	decode := func(d *message.Decoder) error {
		if c.Kind == 3 {
			o.gotTok, o.got = o.tok, nil
			return nil
		}
		tok, err := d.Int64()
		if err != nil {
			return err
		}
		var b []byte
		switch c.Kind {
		case 1:
			b, err = d.VarBytes()
		case 2:
			var s string
			s, err = d.String()
			b = []byte(s)
		default:
			b, err = d.Bytes()
		}
		if err != nil {
			return err
		}
		o.gotTok, o.got = tok, b
		return nil
	}
	if c.Oneway {
		decode = nil
	}
	o.err = conn.Do(func(e *message.Encoder, corr int32) {
		body := reqBody(o.tok, c)
		e.PutInt32(int32(8 + len(body)))
		e.PutInt16(apiKey)
		e.PutInt16(apiVer)
		e.PutInt32(corr)
		e.PutString("c")
		e.PutInt64(o.tok)
		e.PutBytes(fill(o.tok, c.Req, 1))
	}, decode)
	if o.err == nil && !c.Oneway {
		o.copy = append([]byte{}, o.got...)
		for i := range o.got[len(o.got):cap(o.got)] { // as appending does
			o.got[len(o.got):cap(o.got)][i] = 0xED
		}
		if c.Scrub {
			full := o.got[:cap(o.got)]
			for i := range full {
				full[i] = 0xEE
			}
		}
	}
	o.returned.Store(true)
}

// server is the reference broker of the raw scenario.
type server struct {
	c        rawCase
	link     *sim.Link
	kick     chan struct{}
	quit     chan struct{}
	byTok    map[int64]*outcome
	pending  []preq
	pinned   []preq
	answered []int32
	seen     map[int64]bool
	used     map[int32]bool // ids of outstanding requests
	probs    []problem
	sent     int // bytes sent
	nresp    int
	batch    int
	cut      int
	maxPend  int
	reorder  bool
	strays   int
	done     map[int64]bool // responses completely sent
	corrOf   map[int64]int32
	moved    int
	ended    bool
	frames   int
}

type preq struct {
	corr int32
	o    *outcome
}

func (s *server) bad(aspect, f string, a ...interface{}) {
	s.probs = append(s.probs, problem{aspect, fmt.Sprintf(f, a...)})
}

// send passes bytes to the client, honouring a disconnect at a byte; it reports
// whether all of them were sent.
func (s *server) send(b []byte) bool {
	if s.ended {
		return false
	}
	f := s.c.Fault
	if (f.Kind == "eof" || f.Kind == "reset") && s.sent+len(b) >= f.At {
		whole := s.sent+len(b) == f.At
		b = b[:max(0, f.At-s.sent)]
		s.link.Send(b, s.c.Cuts, &s.cut)
		s.sent += len(b)
		s.end()
		return whole
	}
	s.link.Send(b, s.c.Cuts, &s.cut)
	s.sent += len(b)
	return true
}

func (s *server) end() {
	if s.ended {
		return
	}
	s.ended = true
	if s.c.Fault.Kind == "reset" {
		s.link.End(sim.ErrReset, false)
	} else {
		s.link.End(io.EOF, s.c.Fault.With)
	}
}

func (s *server) frame(b []byte) {
	s.frames++
	if len(b) < 8 {
		s.bad("frame", "frame %d has %d bytes, too short for a request header", s.frames, len(b))
		return
	}
	corr := int32(binary.BigEndian.Uint32(b[4:8]))
	if key, ver := binary.BigEndian.Uint16(b), binary.BigEndian.Uint16(b[2:]); key != apiKey || ver != apiVer || len(b) < 19 {
		s.bad("frame", "frame %d starts with %x, which is no request header", s.frames, b[:8])
		return
	}
	tok := int64(binary.BigEndian.Uint64(b[11:19]))
	o := s.byTok[tok]
	if o == nil || !bytes.Equal(b[8:], reqBody(tok, o.call)) {
		s.bad("frame", "frame %d (%d bytes) is not the request of any call", s.frames, len(b))
		return
	}
	if s.seen[tok] {
		s.bad("frame", "the request of call %d arrived twice", tok)
		return
	}
	s.seen[tok] = true
	if o.call.Oneway {
		return
	}
	if s.used[corr] {
		s.bad("frame", "correlation id %d is used by two outstanding requests", corr)
	}
	s.used[corr] = true
	s.corrOf[tok] = corr
	if o.call.Pin {
		s.pinned = append(s.pinned, preq{corr, o})
	} else {
		s.pending = append(s.pending, preq{corr, o})
	}
	if n := len(s.pending) + len(s.pinned); n > s.maxPend {
		s.maxPend = n
	}
}

func (s *server) answerAll() {
	var batch []byte
	flush := func() bool {
		ok := s.send(batch)
		batch = nil
		return ok
	}
	for len(s.pending) > 0 && !s.ended {
		i := 0
		if len(s.c.Order) > 0 {
			i = s.c.Order[s.nresp%len(s.c.Order)] % len(s.pending)
		}
		if i > 0 {
			s.reorder = true
		}
		for _, st := range s.c.Strays {
			if st.At == s.nresp {
				batch = append(batch, s.strayFrame(st)...)
				s.strays++
			}
		}
		if s.c.Fault.Kind == "badlen" && s.c.Fault.At == s.nresp {
			batch = append(batch, be32(s.c.Fault.Len)...)
			batch = append(batch, fill(99, s.c.Fault.Closers*7, 5)...)
			flush()
			if s.c.Fault.Len > 0 { // the broker hangs up long before the end of the frame
				s.link.End(io.EOF, s.c.Fault.With)
			}
			s.ended = true // nothing after this can be understood
			return
		}
		p := s.pending[i]
		s.pending = append(s.pending[:i:i], s.pending[i+1:]...)
		delete(s.used, p.corr)
		s.answered = append(s.answered, p.corr)
		s.nresp++
		batch = append(batch, respFrame(p.corr, p.o.tok, p.o.call)...)
		// coalesce with the next response now and then
		if len(s.c.Order) > 0 && s.c.Order[s.nresp%len(s.c.Order)]%2 == 1 && len(s.pending) > 0 && s.c.Fault.Kind == "" {
			s.done[p.o.tok] = true
			continue
		}
		if flush() {
			s.done[p.o.tok] = true
		}
	}
	if len(batch) > 0 {
		flush()
	}
}

func (s *server) strayFrame(st stray) []byte {
	switch st.Kind {
	case 1:
		if n := len(s.answered); n > 0 {
			body := append(be32(s.answered[st.Len%n]), fill(7, 30, 9)...)
			return append(be32(int32(len(body))), body...)
		}
		fallthrough
	case 0:
		ids := []int32{-1, -2147483648, 2147483647, 1 << 20, -77}
		body := append(be32(ids[st.Len%len(ids)]), fill(7, st.Len, 9)...)
		return append(be32(int32(len(body))), body...)
	default:
		n := st.Len % 4
		return append(be32(int32(n)), []byte{0, 0, 1, 0}[:n]...)
	}
}

func (s *server) run() {
	for {
		hold := 1
		if len(s.c.Hold) > 0 {
			hold = s.c.Hold[s.batch%len(s.c.Hold)]
		}
		mute := s.c.Fault.Mute && s.link.WriteFailed()
		if !s.ended && !mute && len(s.pending) >= hold && len(s.pending) > 0 {
			s.batch++
			s.answerAll()
			continue
		}
		b, ok, kicked := s.link.NextFrame(s.kick)
		switch {
		case kicked && s.c.Fault.Mute && s.link.WriteFailed():
		case kicked:
			if len(s.pending) == 0 {
				s.pending, s.pinned = s.pinned, nil
			}
			if len(s.pending) > 0 {
				s.batch++
				s.answerAll()
			} else if k := s.c.Fault.Kind; k == "eof" || k == "reset" {
				s.end()
			}
		case !ok:
			return
		default:
			s.frame(b)
		}
	}
}

// raw plays one case and returns everything observed that contradicts a
// property.
func raw(t *testing.T, c rawCase, ob *pbt.Obs) (probs []problem, st *server, sc *vsched.Sched) {
	defer func() { kafka.VerifDial = nil }()
	players := []*player{{c: c}}
	for _, b := range c.Beside {
		players = append(players, &player{c: b})
	}
	links := map[string]*sim.Link{}
	kafka.VerifDial = func(addr string) (net.Conn, error) { return &sim.Conn{L: links[addr]}, nil }
	sc, err := vsched.Run(t, c.Sched, func(s *vsched.Sched) error {
		for i, p := range players {
			p.s, p.ob, p.base, p.links = s, ob, int64(1000*i), links
			p.addr = "broker:9092"
			if len(players) > 1 && !c.Same {
				p.addr = fmt.Sprintf("broker-%d:9092", i)
			}
			p.wait = p.c.After
			if c.Same { // one at a time, so that the broker knows which is which
				p.wait = p.wait*len(players) + i
			}
		}
		if len(players) == 1 {
			players[0].settle = func() { s.Settle(500000) }
			err := players[0].play()
			s.CloseQuit()
			s.Settle(500000)
			return err
		}
		// every player runs until it wants things to settle; when all do, they do
		var errs []error
		for _, p := range players {
			p := p
			turn, back := make(chan bool), make(chan bool)
			p.resume = func() bool { turn <- true; return <-back }
			p.settle = func() { back <- true; <-turn }
			go func() {
				<-turn
				defer func() {
					if r := recover(); r != nil {
						errs = append(errs, fmt.Errorf("panic: %v", r))
					}
					back <- false
				}()
				for i := 0; i < p.wait; i++ {
					p.settle()
				}
				if err := p.play(); err != nil {
					errs = append(errs, err)
				}
			}()
		}
		for active := players; len(active) > 0; {
			var still []*player
			for _, p := range active {
				if p.resume() {
					still = append(still, p)
				}
			}
			active = still
			s.Settle(500000)
		}
		s.CloseQuit()
		s.Settle(500000)
		if len(errs) > 0 {
			return errs[0]
		}
		return nil
	})
	if err != nil {
		probs = append(probs, problem{"end", err.Error()})
	}
	for _, p := range players {
		probs = append(probs, p.probs...)
		if p.st != nil {
			probs = append(probs, p.st.probs...)
		}
	}
	return probs, players[0].st, sc
}

// player plays one connection of a case.
type player struct {
	c      rawCase
	s      *vsched.Sched
	ob     *pbt.Obs
	addr   string
	base   int64 // calls are numbered from here
	wait   int
	settle func()
	resume func() bool
	links  map[string]*sim.Link
	st     *server
	probs  []problem
}

func (p *player) play() error {
	c, s, ob, settle := p.c, p.s, p.ob, p.settle
	var outs [][]*outcome
	var all []*outcome
	byTok := map[int64]*outcome{}
	tok := p.base + 1
	mk := func(call rawCall) *outcome {
		o := &outcome{call: call, tok: tok}
		byTok[tok] = o
		all = append(all, o)
		tok++
		return o
	}
	for _, calls := range c.Callers {
		var l []*outcome
		for _, call := range calls {
			l = append(l, mk(call))
		}
		outs = append(outs, l)
	}
	var late []*outcome
	for i := 0; i < c.Late; i++ {
		late = append(late, mk(rawCall{Req: 5, Resp: 5}))
	}
	var old, young []*outcome
	if c.Aged != nil {
		for i := 0; i < c.Aged.Old; i++ {
			old = append(old, mk(rawCall{Req: 3, Resp: 30 + i, Pin: true}))
		}
		for i := 0; i < 4; i++ {
			young = append(young, mk(rawCall{Req: 2, Resp: 9}))
		}
	}
	main := append(append([]*outcome{}, all[:len(all)-len(late)-len(old)-len(young)]...), append(old, young...)...)
	link := sim.NewLink(p.addr)
	p.links[p.addr] = link
	st := &server{c: c, link: link, kick: make(chan struct{}), byTok: byTok, seen: map[int64]bool{}, used: map[int32]bool{}, done: map[int64]bool{}, corrOf: map[int64]int32{}}
	p.st = st
	f := c.Fault
	switch f.Kind {
	case "write":
		link.FailWrites(f.At, f.Partial)
	case "stall":
		link.StallWrites(f.At)
	}
	var conn *kafka.Conn
	var cerr error
	go func() { conn, cerr = kafka.Connect(p.addr) }()
	settle()
	if conn == nil || cerr != nil {
		return fmt.Errorf("connecting failed: %v", cerr)
	}
	go st.run()
	kick := func() {
		go func() {
			select {
			case st.kick <- struct{}{}:
			case <-s.Quit():
			}
		}()
		settle()
	}
	if c.Aged != nil {
		cs := counters(conn)
		var snaps [][]int64
		var ids []int32
		for _, o := range young {
			go doRaw(conn, o)
			settle()
			for i := 0; i < 5 && !o.returned.Load(); i++ {
				kick()
			}
			var snap []int64
			for _, v := range cs {
				snap = append(snap, intOf(v))
			}
			snaps = append(snaps, snap)
			ids = append(ids, st.corrOf[o.tok])
		}
		for _, o := range old {
			go doRaw(conn, o)
			settle()
			for i := range snaps { // the counters have gone on by one
				for k := range snaps[i] {
					snaps[i][k]++
				}
				ids[i]++
			}
		}
		st.moved = advance(cs, snaps, ids, c.Aged.To)
	}
	for _, l := range outs {
		l := l
		go func() {
			for _, o := range l {
				doRaw(conn, o)
			}
		}()
	}
	closes, closed := 0, atomic.Int32{}
	doClose := func(steps int) {
		closes++
		go func() {
			for i := 0; i < steps; i++ {
				vsched.Point(-20)
			}
			conn.Close()
			closed.Add(1)
		}()
	}
	if f.Kind == "close" || f.Kind == "stall" {
		at := f.At
		if f.Kind == "stall" {
			at = 60
		}
		for i := 0; i < max(1, f.Closers); i++ {
			doClose(at + i)
		}
	}
	settle()
	// whatever the server still holds back it answers now
	for i := 0; i < len(all)+3; i++ {
		open := false
		for _, o := range main {
			open = open || !o.returned.Load()
		}
		if !open && f.Kind != "eof" && f.Kind != "reset" || st.ended || link.IsClosed() {
			break
		}
		kick()
	}
	ended := f.Kind != "" && (f.Kind != "write" || anyErr(main)) && (f.Kind != "badlen" || st.ended)
	for _, o := range main {
		switch {
		case !o.started.Load():
			if !anyOpen(main) {
				p.probs = append(p.probs, problem{"end", "internal: call never started"})
			}
		case !o.returned.Load():
			a := "delivery"
			if f.Kind != "" {
				a = "end"
			}
			p.probs = append(p.probs, problem{a, fmt.Sprintf("call %d never returns (fault %+v, response sent: %v)", o.tok, f, st.done[o.tok])})
		case o.err == nil && o.call.Oneway:
		case o.err == nil && o.call.mustFail():
			p.probs = append(p.probs, problem{"malformed", fmt.Sprintf("call %d succeeded though its response is cut short (kind %d)", o.tok, o.call.Bad)})
		case o.err == nil:
			if o.gotTok != o.tok || !bytes.Equal(o.copy, o.call.want(o.tok)) {
				p.probs = append(p.probs, problem{"delivery", fmt.Sprintf("call %d got the response of call %d (%d bytes, want %d), or altered bytes", o.tok, o.gotTok, len(o.copy), o.call.Resp)})
			} else if !st.done[o.tok] {
				p.probs = append(p.probs, problem{"end", fmt.Sprintf("call %d succeeded though its response was never completely sent", o.tok)})
			}
			want := o.copy
			if o.call.Scrub {
				want = bytes.Repeat([]byte{0xEE}, len(o.copy))
			}
			if !bytes.Equal(o.got, want) {
				p.probs = append(p.probs, problem{"stable", fmt.Sprintf("the response bytes of call %d changed after the call had returned", o.tok)})
			}
		default:
			if st.done[o.tok] && !o.call.mustFail() && (f.Kind == "" || f.Kind == "eof" || f.Kind == "badlen") {
				a := "delivery"
				if f.Kind != "" {
					a = "end"
				}
				p.probs = append(p.probs, problem{a, fmt.Sprintf("call %d failed with %q though its response was completely sent (fault %+v)", o.tok, o.err, f)})
			} else if f.Kind == "" && !o.call.mustFail() {
				p.probs = append(p.probs, problem{"delivery", fmt.Sprintf("call %d failed: %v", o.tok, o.err)})
			}
		}
	}
	if f.Kind == "write" && ended && !anyIs(main, sim.ErrWrite) {
		ob.Label("write failure reported as another error")
	}
	if ended && !anyOpen(main) {
		for _, o := range late {
			o := o
			go doRaw(conn, o)
			settle()
			if !o.returned.Load() {
				p.probs = append(p.probs, problem{"end", fmt.Sprintf("a call made after the connection ended (%+v) never returns", f)})
			} else if o.err == nil {
				p.probs = append(p.probs, problem{"end", fmt.Sprintf("a call made after the connection ended (%+v) succeeds", f)})
			}
		}
	}
	// close: must return, also a second time; nothing may be left behind
	doClose(0)
	settle()
	if int(closed.Load()) != closes {
		p.probs = append(p.probs, problem{"end", fmt.Sprintf("Close does not return (fault %+v)", f)})
	}
	if !link.IsClosed() {
		p.probs = append(p.probs, problem{"end", "the socket is still open after Close"})
	}
	after := &outcome{call: rawCall{Req: 3, Resp: 3}, tok: p.base + 1<<40}
	byTok[after.tok] = after
	go doRaw(conn, after)
	doClose(0)
	settle()
	if !after.returned.Load() || after.err == nil {
		p.probs = append(p.probs, problem{"end", fmt.Sprintf("a call made after Close: returned %v, error %v", after.returned.Load(), after.err)})
	}
	if int(closed.Load()) != closes {
		p.probs = append(p.probs, problem{"end", "Close does not return the second time"})
	}
	if f.Kind == "" {
		if n := link.Leftover(); len(n) > 0 {
			st.bad("frame", "%d bytes after the last complete frame", len(n))
		}
		for _, o := range main {
			if !st.seen[o.tok] {
				st.bad("frame", "the request of call %d never arrived as a whole frame", o.tok)
			}
		}
	} else if n := link.Leftover(); len(n) > 0 {
		// only a cut-off request may be left
		if !prefixOfSome(n, all) {
			st.bad("frame", "what follows the last complete frame is not the beginning of a request (%d bytes)", len(n))
		}
	}
	return nil
}

func prefixOfSome(b []byte, all []*outcome) bool {
	for _, o := range all {
		body := reqBody(o.tok, o.call)
		want := append(be32(int32(8+len(body))), 0, apiKey, 0, apiVer, 0, 0, 0, 0)
		want = append(want, body...)
		if len(b) > len(want) {
			continue
		}
		g := append([]byte{}, b...)
		w := want[:len(b)]
		for i := 8; i < 12 && i < len(b); i++ { // the correlation id
			g[i], w[i] = 0, 0
		}
		if bytes.Equal(g, w) {
			return true
		}
	}
	return false
}

func anyOpen(l []*outcome) bool {
	for _, o := range l {
		if o.started.Load() && !o.returned.Load() {
			return true
		}
	}
	return false
}

func anyErr(l []*outcome) bool {
	for _, o := range l {
		if o.returned.Load() && o.err != nil {
			return true
		}
	}
	return false
}

func anyIs(l []*outcome, want error) bool {
	for _, o := range l {
		if errors.Is(o.err, want) {
			return true
		}
	}
	return false
}

// ---- generation

var anyFault = []string{"eof", "reset", "badlen", "write", "close", "stall"}

// beside adds connections that are used at the same time, or before or after.
func beside(rt *rapid.T, c rawCase, opts ...rawOpt) rawCase {
	for i, n := 0, rapid.IntRange(1, 2).Draw(rt, "beside"); i < n; i++ {
		b := genRaw(rt, opts[rapid.IntRange(0, len(opts)-1).Draw(rt, "like")])
		b.Sched = vsched.Schedule{}
		b.After = rapid.SampledFrom([]int{0, 0, 0, 1, 2, 3, 5, 9}).Draw(rt, "after")
		c.Beside = append(c.Beside, b)
	}
	c.After = rapid.SampledFrom([]int{0, 0, 0, 1, 2, 3, 5, 9}).Draw(rt, "after")
	c.Same = rapid.Bool().Draw(rt, "same")
	return c
}

// genAged is a connection after very many calls, near an id where a counter of
// some width wraps.
func genAged(rt *rapid.T, o rawOpt) rawCase {
	c := genRaw(rt, o)
	for i := range c.Strays {
		c.Strays[i].Kind = 1 // no invented ids, which may be in use
	}
	at := int64(1) << rapid.SampledFrom([]int{15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 26, 28, 30, 31, 31, 31, 32, 32}).Draw(rt, "bits")
	if rapid.IntRange(0, 4).Draw(rt, "decimal") == 0 {
		at = rapid.SampledFrom([]int64{100000, 1000000, 10000000, 100000000, 1000000000, 3000000000, 1<<31 + 1<<30}).Draw(rt, "round")
	}
	c.Aged = &aged{Old: rapid.IntRange(0, 3).Draw(rt, "old"), To: at + int64(rapid.IntRange(-6, 9).Draw(rt, "offset"))}
	if at >= 1<<32 { // all ids have been used; the old ones would be due again
		c.Aged.Old, c.Strays = 0, nil
	}
	return c
}

type rawOpt struct {
	maxCallers, maxCalls int
	reqMax, respMax      int
	faults               []string
	strays               bool
	bad                  bool
	shortStrays          bool
	scrub                bool
	oneway               bool
	many                 bool // more callers, one call each
	pins                 bool
}

func genRaw(rt *rapid.T, o rawOpt) rawCase {
	var c rawCase
	length := func(label string, max int) int {
		switch rapid.IntRange(0, 9).Draw(rt, label+"-shape") {
		case 0:
			return 0
		case 1:
			return rapid.IntRange(0, max).Draw(rt, label)
		default:
			return rapid.IntRange(0, min(40, max)).Draw(rt, label)
		}
	}
	n := rapid.IntRange(1, o.maxCallers).Draw(rt, "callers")
	if o.many {
		n = rapid.IntRange(o.maxCallers/2, o.maxCallers).Draw(rt, "many")
	}
	total, sent := 0, 0
	for i := 0; i < n; i++ {
		var l []rawCall
		for k, m := 0, rapid.IntRange(1, o.maxCalls).Draw(rt, "calls"); k < m; k++ {
			call := rawCall{Req: length("req", o.reqMax), Resp: length("resp", o.respMax), Kind: rapid.SampledFrom([]int{0, 0, 0, 1, 1, 2, 2, 3}).Draw(rt, "kind")}
			if call.Kind == 2 && call.Resp > 32767 {
				call.Kind = 0
			}
			if o.bad && rapid.IntRange(0, 2).Draw(rt, "isbad") == 0 {
				call.Bad = rapid.IntRange(1, 4).Draw(rt, "bad")
			}
			if o.scrub {
				call.Scrub = rapid.Bool().Draw(rt, "scrub")
			}
			if o.oneway && rapid.IntRange(0, 2).Draw(rt, "isoneway") == 0 {
				call.Oneway = true
			}
			if o.pins && rapid.IntRange(0, 5).Draw(rt, "ispin") == 0 {
				call.Pin = true
			}
			total += 17 + call.Resp
			sent += 40 + call.Req
			l = append(l, call)
		}
		c.Callers = append(c.Callers, l)
	}
	c.Hold = rapid.SliceOfN(rapid.IntRange(1, n), 1, 4).Draw(rt, "hold")
	c.Order = rapid.SliceOfN(rapid.IntRange(0, 5), 0, 6).Draw(rt, "order")
	switch rapid.IntRange(0, 4).Draw(rt, "segmentation") {
	case 0:
	case 1:
		c.Cuts = []int{rapid.IntRange(1, 5).Draw(rt, "cut")}
	default:
		c.Cuts = rapid.SliceOfN(rapid.SampledFrom([]int{0, 1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 40, 200}), 1, 6).Draw(rt, "cuts")
	}
	if o.respMax > 5000 {
		for i := range c.Cuts {
			if c.Cuts[i] > 0 && c.Cuts[i] < 16 {
				c.Cuts = append(c.Cuts, 3000)
				break
			}
		}
	}
	if o.strays && rapid.Bool().Draw(rt, "strays") {
		hi := 1
		if o.shortStrays {
			hi = 2
		}
		for i, k := 0, rapid.IntRange(1, 3).Draw(rt, "nstrays"); i < k; i++ {
			c.Strays = append(c.Strays, stray{At: rapid.IntRange(0, n*o.maxCalls-1).Draw(rt, "at"), Kind: rapid.IntRange(0, hi).Draw(rt, "kind"), Len: rapid.IntRange(0, 60).Draw(rt, "len")})
		}
	}
	if len(o.faults) > 0 {
		f := fault{Kind: rapid.SampledFrom(o.faults).Draw(rt, "fault")}
		switch f.Kind {
		case "eof", "reset":
			f.At = rapid.IntRange(0, total+4).Draw(rt, "at")
			f.With = rapid.Bool().Draw(rt, "with")
		case "badlen":
			f.At = rapid.IntRange(0, 4).Draw(rt, "at")
			f.Len = rapid.SampledFrom([]int32{-1, -2, -4, -2147483648, -65536, 2147483647, 1 << 30}).Draw(rt, "len")
			f.Closers = rapid.IntRange(0, 3).Draw(rt, "junk")
		case "write":
			f.At = rapid.OneOf(rapid.IntRange(0, 200), rapid.IntRange(0, sent)).Draw(rt, "at")
			f.Partial = rapid.Bool().Draw(rt, "partial")
			f.Mute = rapid.Bool().Draw(rt, "mute")
		case "close":
			f.At = rapid.IntRange(0, 120).Draw(rt, "at")
			f.Closers = rapid.IntRange(1, 2).Draw(rt, "closers")
		case "stall":
			f.At = rapid.OneOf(rapid.IntRange(0, 150), rapid.IntRange(0, sent)).Draw(rt, "at")
			f.Closers = rapid.IntRange(1, 2).Draw(rt, "closers")
		}
		c.Fault = f
		c.Late = rapid.IntRange(0, 2).Draw(rt, "late")
	}
	c.Sched = vsched.Gen(rt, 60*total/20+60)
	if len(c.Sched.Pre) > 0 {
		// preemptions in the part of the run where the calls are under way
		for i := range c.Sched.Pre {
			c.Sched.Pre[i].At %= 200
		}
	}
	return c
}

func judge(probs []problem, aspects ...string) error {
	for _, p := range probs {
		for _, a := range aspects {
			if p.aspect == a {
				return errors.New(p.msg)
			}
		}
	}
	return nil
}

func labels(ob *pbt.Obs, c rawCase, st *server, sc *vsched.Sched) {
	if c.Fault.Kind != "" {
		ob.Label("fault " + c.Fault.Kind)
	}
	if len(c.Beside) > 0 {
		ob.Label("several connections")
	}
	if st == nil {
		return
	}
	if st.moved > 0 {
		ob.Label("connection aged")
	}
	if st.maxPend > 1 {
		ob.Label("several requests outstanding")
	}
	if st.reorder {
		ob.Label("answered out of order")
	}
	if st.strays > 0 {
		ob.Label("stray frames")
	}
	if sc.Switch > 0 {
		ob.Label("preempted")
	}
	if st.link.Segments > st.nresp+1 {
		ob.Label("more segments than responses")
	}
}

func TestC20(t *testing.T) {
	gen := func(rt *rapid.T) rawCase {
		var c rawCase
		edges := []int{65536, 131072, 1 << 20, 2000000, 2097152, 4000000, 1 << 22, 5000000, 6000000, 1 << 23, 10000000}
		budget := 16000000
		if rapid.IntRange(0, 19).Draw(rt, "huge") == 0 {
			edges = append(edges, 1<<24, 1<<24, 20000000, 1<<25)
			budget = 40000000
		}
		for i, n := 0, rapid.IntRange(1, 3).Draw(rt, "callers"); i < n; i++ {
			var l []rawCall
			for k, m := 0, rapid.IntRange(1, 4).Draw(rt, "calls"); k < m; k++ {
				call := rawCall{Req: rapid.IntRange(0, 20).Draw(rt, "req"), Kind: rapid.SampledFrom([]int{0, 0, 1, 3}).Draw(rt, "kind")}
				switch s := rapid.IntRange(0, 9).Draw(rt, "shape"); {
				case s < 3:
					call.Resp = rapid.IntRange(0, 200).Draw(rt, "resp")
				case s < 8:
					call.Resp = max(0, rapid.SampledFrom(edges).Draw(rt, "edge")+rapid.IntRange(-24, 24).Draw(rt, "delta"))
				case s < 9:
					call.Resp = rapid.IntRange(0, 3000000).Draw(rt, "resp")
				default:
					call.Resp = rapid.IntRange(0, 12000000).Draw(rt, "resp")
				}
				if call.Kind == 3 {
					call.Resp = 0
				}
				if call.Resp > budget {
					call.Resp %= 300
				}
				budget -= call.Resp
				l = append(l, call)
			}
			c.Callers = append(c.Callers, l)
		}
		c.Hold = rapid.SliceOfN(rapid.IntRange(1, len(c.Callers)), 1, 3).Draw(rt, "hold")
		c.Order = rapid.SliceOfN(rapid.IntRange(0, 5), 0, 5).Draw(rt, "order")
		switch rapid.IntRange(0, 3).Draw(rt, "segmentation") {
		case 0:
		case 1:
			c.Cuts = []int{rapid.SampledFrom([]int{1, 2, 3, 4, 5, 7}).Draw(rt, "first"), rapid.IntRange(500000, 6000000).Draw(rt, "then")}
		default:
			c.Cuts = rapid.SliceOfN(rapid.SampledFrom([]int{0, 1, 4, 4096, 65536, 1999999, 2000000, 2000001, 4999999, 5000000, 5000001}), 1, 4).Draw(rt, "cuts")
			c.Cuts = append(c.Cuts, rapid.IntRange(100000, 3000000).Draw(rt, "big"))
		}
		c.Sched = vsched.Gen(rt, 120)
		return c
	}
	pbt.Main(t, pbt.Check[rawCase]{
		Rule:   "1-3 callers, 1-4 calls each on one connection, response sizes from nothing to 12 MB (now and then to 33 MB) with emphasis on the neighbourhood (+-24) of powers of two and of 2, 4, 5, 6 and 10 million; segments of 1 byte to several megabytes, answers held back, reordered and coalesced; oracle: every call returns its own response byte for byte, none is left waiting; non-trivial: a response of at least 1 MB",
		Strata: []pbt.Stratum[rawCase]{{Name: "sizes", Gen: gen}},
		Render: renderRaw, Quick: 130, Deep: 4000, Crumb: true,
		Run: func(c rawCase, ob *pbt.Obs) error {
			probs, st, sc := raw(t, c, ob)
			labels(ob, c, st, sc)
			for _, l := range c.Callers {
				for _, x := range l {
					if x.Resp >= 1000000 {
						ob.NonTrivial()
						ob.Label(fmt.Sprintf("response of %d MB", x.Resp/1000000))
					}
				}
			}
			return judge(probs, "delivery")
		},
	})
}

func TestC22(t *testing.T) {
	o := rawOpt{maxCallers: 4, maxCalls: 4, reqMax: 50, respMax: 600, strays: true, shortStrays: true, bad: true}
	pbt.Main(t, pbt.Check[rawCase]{
		Rule: "1-4 callers, 1-4 calls each; responses cut short at several places (right frame length, too little body), with surplus bytes, and frames shorter than a header in between; oracle: exactly the calls with a cut response fail, all others get their own response; non-trivial: a call with a bad response and another call in the same case",
		Strata: []pbt.Stratum[rawCase]{
			{Name: "frames", Weight: 20, Gen: func(rt *rapid.T) rawCase { return genRaw(rt, o) }},
			{Name: "several connections", Weight: 2, Gen: func(rt *rapid.T) rawCase { return beside(rt, genRaw(rt, o), o) }},
		},
		Render: renderRaw, Quick: 100, Deep: 3000, Crumb: true,
		Run: func(c rawCase, ob *pbt.Obs) error {
			probs, st, sc := raw(t, c, ob)
			labels(ob, c, st, sc)
			n, bad := 0, 0
			for _, l := range c.Callers {
				for _, x := range l {
					n++
					if x.Bad > 0 || len(c.Strays) > 0 {
						bad++
					}
				}
			}
			if bad > 0 && n > 1 {
				ob.NonTrivial()
			}
			return judge(probs, "malformed", "delivery")
		},
	})
}

func renderRaw(c rawCase) interface{} { return c }

func TestC10(t *testing.T) {
	o := rawOpt{maxCallers: 5, maxCalls: 4, reqMax: 9000, respMax: 3000, strays: true, pins: true}
	many := rawOpt{maxCallers: 70, maxCalls: 2, reqMax: 20, respMax: 60, strays: true, pins: true, many: true}
	pbt.Main(t, pbt.Check[rawCase]{
		Rule: "1-5 callers with 1-4 calls each on one connection, or 35-70 callers with 1-2, or 2-3 connections side by side or one after the other (some of them failing); a reference broker holds back and reorders answers, inserts frames with unknown or already answered ids, cuts or coalesces the stream anywhere; generated schedule with a choice before every statement of the package; oracle: each call returns the response the broker sent for its own request, byte for byte; non-trivial: at least two requests were outstanding at once",
		Strata: []pbt.Stratum[rawCase]{
			{Name: "calls", Weight: 20, Gen: func(rt *rapid.T) rawCase { return genRaw(rt, o) }},
			{Name: "many", Gen: func(rt *rapid.T) rawCase { return genRaw(rt, many) }},
			{Name: "aged", Weight: 3, Gen: func(rt *rapid.T) rawCase {
				a := o
				a.reqMax, a.respMax = 200, 200
				return genAged(rt, a)
			}},
			{Name: "several connections", Weight: 3, Gen: func(rt *rapid.T) rawCase {
				small, cut := o, o
				small.reqMax, small.respMax = 200, 200
				cut.faults = anyFault
				return beside(rt, genRaw(rt, o), small, o, cut)
			}},
		},
		Render: renderRaw, Quick: 120, Deep: 3000, Crumb: true,
		Run: func(c rawCase, ob *pbt.Obs) error {
			probs, st, sc := raw(t, c, ob)
			labels(ob, c, st, sc)
			if st != nil && st.maxPend > 16 {
				ob.Label("more than 16 requests outstanding")
			}
			if st != nil && st.maxPend > 1 {
				ob.NonTrivial()
			}
			return judge(probs, "delivery")
		},
	})
}

func TestC11(t *testing.T) {
	o := rawOpt{maxCallers: 3, maxCalls: 6, reqMax: 50, respMax: 3000, scrub: true}
	pbt.Main(t, pbt.Check[rawCase]{
		Rule: "as for delivery (also 2-3 connections); callers keep the bytes they got (some overwrite theirs), more traffic of other sizes follows, at the end every kept response is compared with its copy; non-trivial: at least two calls returned a non-empty payload",
		Strata: []pbt.Stratum[rawCase]{
			{Name: "calls", Weight: 20, Gen: func(rt *rapid.T) rawCase { return genRaw(rt, o) }},
			{Name: "several connections", Weight: 3, Gen: func(rt *rapid.T) rawCase {
				cut := o
				cut.faults = anyFault
				return beside(rt, genRaw(rt, o), o, cut)
			}},
		},
		Render: renderRaw, Quick: 125, Deep: 3000, Crumb: true,
		Run: func(c rawCase, ob *pbt.Obs) error {
			probs, st, sc := raw(t, c, ob)
			labels(ob, c, st, sc)
			n := 0
			for _, l := range c.Callers {
				for _, x := range l {
					if x.Resp > 0 {
						n++
					}
				}
			}
			if n > 1 {
				ob.NonTrivial()
			}
			// bytes that differ already when the call returns can be the same defect
			return judge(probs, "stable", "delivery")
		},
	})
}

func TestC12(t *testing.T) {
	pbt.Main(t, pbt.Check[rawCase]{
		Rule: "1-6 concurrent callers (also 35-70), request sizes 0-9000 bytes (beyond the 4096-byte write buffer), also up to 2.1 MB, also with failing or blocked writes and close, also on 2-3 connections; the broker parses the stream and compares every frame with the reference bytes of one call; oracle: whole frames only, each request at most once (exactly once without faults), ids of outstanding requests distinct; non-trivial: at least two requests outstanding at once",
		Strata: []pbt.Stratum[rawCase]{
			{Name: "calls", Weight: 30, Gen: func(rt *rapid.T) rawCase {
				return genRaw(rt, rawOpt{maxCallers: 6, maxCalls: 3, reqMax: 9000, respMax: 40, oneway: true})
			}},
			{Name: "faults", Weight: 10, Gen: func(rt *rapid.T) rawCase {
				return genRaw(rt, rawOpt{maxCallers: 6, maxCalls: 3, reqMax: 9000, respMax: 40, faults: []string{"write", "close", "stall", "eof"}})
			}},
			{Name: "many", Gen: func(rt *rapid.T) rawCase {
				return genRaw(rt, rawOpt{maxCallers: 70, maxCalls: 2, reqMax: 200, respMax: 40, oneway: true, pins: true, many: true})
			}},
			{Name: "aged", Weight: 3, Gen: func(rt *rapid.T) rawCase {
				return genAged(rt, rawOpt{maxCallers: 6, maxCalls: 3, reqMax: 200, respMax: 40, oneway: true, pins: true})
			}},
			{Name: "several connections", Weight: 4, Gen: func(rt *rapid.T) rawCase {
				o := rawOpt{maxCallers: 4, maxCalls: 3, reqMax: 9000, respMax: 40, oneway: true}
				cut := o
				cut.faults = anyFault
				return beside(rt, genRaw(rt, o), o, cut, cut)
			}},
			{Name: "huge requests", Gen: func(rt *rapid.T) rawCase {
				o := rawOpt{maxCallers: 4, maxCalls: 3, reqMax: 9000, respMax: 40, oneway: true}
				if rapid.IntRange(0, 2).Draw(rt, "faulty") == 0 {
					o.faults = []string{"write", "close", "stall"}
				}
				c := genRaw(rt, o)
				for i, n := 0, rapid.IntRange(1, 2).Draw(rt, "huge"); i < n; i++ {
					l := c.Callers[rapid.IntRange(0, len(c.Callers)-1).Draw(rt, "caller")]
					l[rapid.IntRange(0, len(l)-1).Draw(rt, "call")].Req = rapid.SampledFrom([]int{32760, 65530, 65536, 70000, 140000, 1 << 20, 1<<20 + 77, 2100000}).Draw(rt, "size")
				}
				return c
			}},
		},
		Render: renderRaw, Quick: 100, Deep: 2500, Crumb: true,
		Run: func(c rawCase, ob *pbt.Obs) error {
			probs, st, sc := raw(t, c, ob)
			labels(ob, c, st, sc)
			for _, l := range c.Callers {
				for _, x := range l {
					if x.Req > 60000 {
						ob.Label("request beyond 60000 bytes")
					}
				}
			}
			if st != nil && st.maxPend > 1 {
				ob.NonTrivial()
			}
			return judge(probs, "frame")
		},
	})
}

func TestC13(t *testing.T) {
	var strata []pbt.Stratum[rawCase]
	for _, k := range []string{"eof", "reset", "badlen", "write", "close", "stall"} {
		k := k
		strata = append(strata, pbt.Stratum[rawCase]{Name: k, Gen: func(rt *rapid.T) rawCase {
			return genRaw(rt, rawOpt{maxCallers: 4, maxCalls: 3, reqMax: 5000, respMax: 300, faults: []string{k}, strays: true})
		}})
	}
	for i := range strata {
		strata[i].Weight = 10
	}
	strata = append(strata, pbt.Stratum[rawCase]{Name: "several connections", Weight: 6, Gen: func(rt *rapid.T) rawCase {
		o := rawOpt{maxCallers: 3, maxCalls: 3, reqMax: 5000, respMax: 300, faults: anyFault}
		sound := o
		sound.faults = nil
		return beside(rt, genRaw(rt, o), o, sound)
	}})
	for _, k := range []string{"eof", "reset", "badlen", "write", "close", "stall"} {
		k := k
		strata = append(strata, pbt.Stratum[rawCase]{Name: "many " + k, Gen: func(rt *rapid.T) rawCase {
			return genRaw(rt, rawOpt{maxCallers: 140, maxCalls: 1, reqMax: 20, respMax: 20, faults: []string{k}, many: true})
		}})
	}
	pbt.Main(t, pbt.Check[rawCase]{
		Rule:   "1-4 callers (also 70-140 with one call each; also 2-3 connections, whose faults must not touch each other); one fault: disconnect or reset at any byte of the response stream, negative frame length, write failure at any byte (with or without accepting part), local close by one or two goroutines at any step, close during a blocked write; then later calls and closes; oracle at quiescence (nothing can run): every call and close has returned, calls without a complete response and later calls with an error, complete responses delivered, socket closed, no goroutine left; non-trivial: the fault hit while calls were outstanding",
		Strata: strata,
		Render: renderRaw, Quick: 50, Deep: 1200, Crumb: true,
		Run: func(c rawCase, ob *pbt.Obs) error {
			probs, st, sc := raw(t, c, ob)
			labels(ob, c, st, sc)
			n := 0
			for _, l := range c.Callers {
				n += len(l)
			}
			if st != nil && (st.nresp < n || len(st.done) < n) {
				ob.NonTrivial()
			}
			return judge(probs, "end")
		},
	})
}
