package sockt

import (
	"bufio"
	"bytes"
	"context"
	"crypto/tls"
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"os"
	"runtime"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"github.com/savaki/kafka"
	"github.com/savaki/kafka/message"
	"pgregory.net/rapid"

	"verif/harness/pbt"
)

// ctxCase: one client operation whose context ends while a broker stalls, or
// races with its success, or ends only afterwards.
type ctxCase struct {
	TLS    int    `json:"tls,omitempty"`
	Op     string `json:"op"`               // metadata, controller, leader, coordinator
	Before []int  `json:"before,omitempty"` // bootstrap brokers that fail: 0 refuses, 1 hangs up, 2 sends garbage
	After  int    `json:"after,omitempty"`  // healthy bootstrap brokers behind the one in question
	Where  string `json:"where,omitempty"`  // who stalls: boot (the bootstrap broker), node (the role's broker)
	Point  string `json:"point,omitempty"`  // connect, accept, versions, versions-part, query, query-part
	Drip   bool   `json:"drip,omitempty"`   // meanwhile the broker sends frames for nobody
	End    string `json:"end"`              // cancel, deadline, before, expired, race, late, outlived
	Wrap   bool   `json:"wrap,omitempty"`   // the context is one of the caller's own types
	Delay  int    `json:"delay_us"`
	Answer int    `json:"answer,omitempty"` // race: the delay begins when so many answers are about to be sent
	Beside bool   `json:"beside,omitempty"` // another operation of the same client runs, with a context of its own
	Dialer int    `json:"dialer,omitempty"`
}

type ownContext struct{ context.Context }

type ctxStage struct {
	c       ctxCase
	node    net.Addr
	mu      sync.Mutex
	conns   map[net.Conn]bool
	wg      sync.WaitGroup
	stalled chan struct{}
	once    sync.Once
	open    atomic.Int32
	answers atomic.Int32
	reached chan struct{} // c.Answer answers
	ls      []net.Listener
	held    []int
}

func (s *ctxStage) listen(point string, kind int) (net.Listener, string) {
	if kind == 0 {
		return nil, s.refused()
	}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	addr := l.Addr().String()
	s.ls = append(s.ls, l)
	s.wg.Add(1)
	go func() {
		defer s.wg.Done()
		for {
			raw, err := l.Accept()
			if err != nil {
				return
			}
			s.mu.Lock()
			s.conns[raw] = true
			s.mu.Unlock()
			s.open.Add(1)
			s.wg.Add(1)
			go func() {
				defer s.wg.Done()
				s.serve(raw, point, kind)
				raw.Close()
				s.open.Add(-1)
			}()
		}
	}()
	return l, addr
}

// refused reserves a port on which nothing listens until the case is over (a
// port that was merely free could become another broker's).
func (s *ctxStage) refused() string {
	fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
	if err != nil {
		panic(err)
	}
	if err := syscall.Bind(fd, &syscall.SockaddrInet4{Addr: [4]byte{127, 0, 0, 1}}); err != nil {
		panic(err)
	}
	at, err := syscall.Getsockname(fd)
	if err != nil {
		panic(err)
	}
	s.held = append(s.held, fd)
	return fmt.Sprintf("127.0.0.1:%d", at.(*syscall.SockaddrInet4).Port)
}

// backlogged returns the address of a socket that completes no more handshakes.
func backlogged() (addr net.Addr, release func()) {
	fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
	if err != nil {
		panic(err)
	}
	if err := syscall.Bind(fd, &syscall.SockaddrInet4{Addr: [4]byte{127, 0, 0, 1}}); err != nil {
		panic(err)
	}
	if err := syscall.Listen(fd, 0); err != nil {
		panic(err)
	}
	f := os.NewFile(uintptr(fd), "backlogged")
	l, err := net.FileListener(f)
	f.Close()
	if err != nil {
		panic(err)
	}
	var fill []net.Conn
	for i := 0; i < 4; i++ {
		c, err := net.DialTimeout("tcp", l.Addr().String(), 30*time.Millisecond)
		if err != nil {
			break
		}
		fill = append(fill, c)
	}
	return l.Addr(), func() {
		l.Close()
		for _, c := range fill {
			c.Close()
		}
	}
}

func (s *ctxStage) serve(raw net.Conn, point string, kind int) {
	switch kind {
	case 1:
		return
	case 2:
		raw.Write([]byte{0, 0, 0, 3, 1, 2, 3, 0xff, 0xff, 0xff, 0xff})
		io.Copy(io.Discard, raw)
		return
	}
	var c net.Conn = raw
	stall := func(w io.Writer) {
		s.once.Do(func() { close(s.stalled) })
		if s.c.Drip && w != nil {
			s.wg.Add(1)
			go func() {
				defer s.wg.Done()
				for {
					if _, err := w.Write([]byte{0, 0, 0, 6, 0x7f, 1, 2, 3, 0, 0}); err != nil {
						return
					}
					time.Sleep(time.Millisecond)
				}
			}()
		}
		io.Copy(io.Discard, c)
	}
	if point == "accept" {
		stall(nil)
		return
	}
	if s.c.TLS != 0 {
		t := tls.Server(raw, &tls.Config{Certificates: []tls.Certificate{pki.cert}, MaxVersion: uint16(s.c.TLS)})
		if t.Handshake() != nil {
			return
		}
		c = t
	}
	r := bufio.NewReader(c)
	for {
		var h [4]byte
		if _, err := io.ReadFull(r, h[:]); err != nil {
			return
		}
		n := int(binary.BigEndian.Uint32(h[:]))
		if n < 10 || n > 1<<20 {
			return
		}
		b := make([]byte, n)
		if _, err := io.ReadFull(r, b); err != nil {
			return
		}
		key := binary.BigEndian.Uint16(b)
		f := append(append([]byte{}, b[4:8]...), answer(key, int16(binary.BigEndian.Uint16(b[2:])), s.node)...)
		f = append(be32(len(f)), f...)
		at := "query"
		if key == 18 {
			at = "versions"
		} else if bytes.Contains(b, []byte("beside")) {
			at = "none"
		}
		switch point {
		case at:
			stall(c)
			return
		case at + "-part":
			c.Write(f[:5+len(b)%(len(f)-6)])
			stall(nil)
			return
		}
		if at != "none" && s.answers.Add(1) == int32(s.c.Answer) {
			close(s.reached)
		}
		if _, err := c.Write(f); err != nil {
			return
		}
	}
}

func playCtx(c ctxCase, ob *pbt.Obs) error {
	keys()
	base := runtime.NumGoroutine()
	s := &ctxStage{c: c, conns: map[net.Conn]bool{}, stalled: make(chan struct{}), reached: make(chan struct{})}
	finish := func() {
		for _, l := range s.ls {
			l.Close()
		}
		s.mu.Lock()
		for c := range s.conns {
			c.Close()
		}
		s.mu.Unlock()
		s.wg.Wait()
		for _, fd := range s.held {
			syscall.Close(fd)
		}
		s.held = nil
	}
	defer finish()
	at := func(where string) string {
		if c.Where == where {
			return c.Point
		}
		return ""
	}
	host := func(where string) (addr net.Addr, release func()) {
		if at(where) == "connect" {
			return backlogged()
		}
		l, _ := s.listen(at(where), 3)
		return l.Addr(), func() {}
	}
	var release func()
	s.node, release = host("node")
	defer release()
	var boots []string
	for _, k := range c.Before {
		_, addr := s.listen("", k)
		boots = append(boots, addr)
	}
	main, release2 := host("boot")
	defer release2()
	boots = append(boots, main.String())
	for i := 0; i < c.After; i++ {
		l, _ := s.listen("", 3)
		boots = append(boots, l.Addr().String())
	}
	var opts []kafka.Option
	if c.TLS != 0 {
		opts = append(opts, kafka.WithTLS(&tls.Config{RootCAs: pki.pool}))
	}
	switch c.Dialer {
	case 1:
		opts = append(opts, kafka.WithDialer(nil))
	case 2:
		opts = append(opts, kafka.WithDialer(&net.Dialer{Timeout: time.Hour, KeepAlive: time.Minute}))
	}
	client := kafka.NewClient(boots, opts...)
	op := func(ctx context.Context) (b *kafka.Broker, err error) {
		switch c.Op {
		case "controller":
			return client.DialController(ctx)
		case "leader":
			return client.DialLeader(ctx, "t", 0)
		case "coordinator":
			return client.DialGroupCoordinator(ctx, "g")
		}
		_, err = client.Metadata(ctx, "t")
		return nil, err
	}
	delay := time.Duration(c.Delay) * time.Microsecond
	var ctx context.Context
	var cancel context.CancelFunc
	switch c.End {
	case "deadline":
		ctx, cancel = context.WithTimeout(context.Background(), delay)
	case "expired":
		ctx, cancel = context.WithDeadline(context.Background(), time.Now().Add(-time.Hour))
	case "outlived":
		ctx, cancel = context.WithTimeout(context.Background(), 60*time.Millisecond+delay)
	case "late":
		if c.Delay%2 == 0 {
			ctx, cancel = context.WithCancel(context.Background())
		} else {
			ctx, cancel = context.WithTimeout(context.Background(), time.Hour)
		}
	default:
		ctx, cancel = context.WithCancel(context.Background())
	}
	defer cancel()
	if c.Wrap {
		ctx = ownContext{ctx}
	}
	beside := make(chan error, 1)
	if c.Beside {
		go func() {
			_, err := client.Metadata(context.Background(), "beside")
			beside <- err
		}()
	}
	switch c.End {
	case "before":
		cancel()
	case "cancel", "race":
		go func() {
			event := s.stalled
			if c.End == "race" {
				event = s.reached
			}
			if c.Point != "connect" && (c.End == "cancel" || c.Answer > 0) {
				select {
				case <-event:
				case <-time.After(time.Second):
				}
			}
			for start := time.Now(); time.Since(start) < delay; {
				if delay > time.Millisecond {
					time.Sleep(delay - time.Millisecond)
				}
				runtime.Gosched()
			}
			cancel()
		}()
	}
	type result struct {
		b   *kafka.Broker
		err error
	}
	done := make(chan result, 1)
	go func() {
		b, err := op(ctx)
		done <- result{b, err}
	}()
	var r result
	returned := false
	if !waitFor(func() bool {
		select {
		case r = <-done:
			returned = true
		default:
		}
		return returned
	}, patience()) {
		return fmt.Errorf("%s does not return (context done: %v, the %s broker stalls at %s)", c.Op, ctx.Err() != nil, c.Where, c.Point)
	}
	doomed := c.Where != "" || c.End == "before" || c.End == "expired"
	switch {
	case doomed && r.err == nil:
		return fmt.Errorf("%s succeeds although its context ended (%s) before it could be complete", c.Op, c.End)
	case !doomed && c.End == "late" && r.err != nil:
		return fmt.Errorf("%s fails with %q, its context is not done", c.Op, r.err)
	}
	if r.b != nil && r.err == nil {
		if c.End == "race" {
			// it may have ended just before or after
			ob.Label("succeeds beside the end of the context")
			cancel()
		}
		if c.End == "late" {
			cancel()
		}
		if c.End == "outlived" {
			<-ctx.Done()
			time.Sleep(2 * time.Millisecond)
			ob.Label("the broker outlives the deadline")
		}
		time.Sleep(delay % (3 * time.Millisecond))
		for i := 0; i < 2; i++ {
			out := make(chan error, 1)
			go func() {
				_, err := r.b.Metadata(message.MetadataRequest{})
				out <- err
			}()
			select {
			case err := <-out:
				if err != nil {
					return fmt.Errorf("the broker that %s returned is unusable: %v (context ends: %s)", c.Op, err, c.End)
				}
			case <-time.After(patience()):
				return fmt.Errorf("a call on the broker that %s returned does not return", c.Op)
			}
			time.Sleep(100 * time.Microsecond)
		}
		go r.b.Close()
	} else if c.End == "race" {
		ob.Label("ended by its context")
	}
	if c.Beside {
		select {
		case err := <-beside:
			if err != nil {
				return fmt.Errorf("another operation of the client fails with %q when the context of this one ends", err)
			}
		case <-time.After(patience()):
			return fmt.Errorf("another operation of the client does not return")
		}
	}
	if !waitFor(func() bool { return s.open.Load() == 0 }, patience()) {
		return fmt.Errorf("%d connections stay open after %s returned %v (context ends: %s)", s.open.Load(), c.Op, r.err, c.End)
	}
	if c.End == "race" || c.End == "before" {
		if c.Where == "" {
			b, err := op(context.Background())
			if err != nil {
				return fmt.Errorf("the next %s fails with %q", c.Op, err)
			}
			if b != nil {
				b.Close()
			}
		}
	}
	finish()
	if !waitFor(func() bool { return runtime.NumGoroutine() <= base }, patience()) {
		buf := make([]byte, 1<<16)
		buf = buf[:runtime.Stack(buf, true)]
		if bytes.Contains(buf, []byte("savaki/kafka.")) {
			return fmt.Errorf("%d goroutines stay behind after %s returned %v (context ends: %s)", runtime.NumGoroutine()-base, c.Op, r.err, c.End)
		}
	}
	return nil
}

func genCtx(rt *rapid.T) ctxCase {
	c := ctxCase{
		TLS:   rapid.SampledFrom([]int{0, 0, 0x304, 0x303}).Draw(rt, "tls"),
		Op:    rapid.SampledFrom([]string{"metadata", "controller", "leader", "coordinator"}).Draw(rt, "op"),
		After: rapid.IntRange(0, 2).Draw(rt, "after"),
		Wrap:  rapid.IntRange(0, 3).Draw(rt, "wrap") == 0,
	}
	if rapid.Bool().Draw(rt, "some-fail") {
		c.Before = rapid.SliceOfN(rapid.IntRange(0, 2), 1, 3).Draw(rt, "before")
	}
	c.Dialer = rapid.IntRange(0, 2).Draw(rt, "dialer")
	return c
}

var ctxPoints = []string{"accept", "versions", "versions-part", "query", "query-part", "connect"}

func TestC27(t *testing.T) {
	steps := make([]int, 41)
	for i := range steps {
		steps[i] = i
	}
	stall := func(rt *rapid.T) ctxCase {
		c := genCtx(rt)
		n := len(ctxPoints)
		c.Where = "boot"
		if c.Op != "metadata" && rapid.Bool().Draw(rt, "node") {
			c.Where = "node"
		}
		for {
			c.Point = ctxPoints[rapid.IntRange(0, n-1).Draw(rt, "point")]
			if c.Where == "boot" || c.Point[0] != 'q' {
				break
			}
		}
		c.Drip = rapid.IntRange(0, 2).Draw(rt, "drip") == 0
		c.End = rapid.SampledFrom([]string{"cancel", "deadline"}).Draw(rt, "end")
		c.Delay = rapid.SampledFrom([]int{0, 10, 100, 1000, 4000, 12000}).Draw(rt, "delay")
		c.Beside = (c.Where == "node" || c.Point[0] == 'q') && rapid.Bool().Draw(rt, "beside")
		return c
	}
	race := func(rt *rapid.T) ctxCase {
		c := genCtx(rt)
		c.End = "race"
		c.Answer = rapid.SampledFrom([]int{0, 1, 2, 3, 3, 3}).Draw(rt, "answer")
		if c.Op == "metadata" {
			c.Answer = min(c.Answer, 2)
		}
		hi := rapid.SampledFrom([]int{300, 1500, 6000}).Draw(rt, "range")
		if c.Answer == 0 {
			hi = 20000
		}
		c.Delay = hi * rapid.SampledFrom(steps).Draw(rt, "delay") / 40
		c.Beside = rapid.IntRange(0, 3).Draw(rt, "beside") == 0
		return c
	}
	late := func(rt *rapid.T) ctxCase {
		c := genCtx(rt)
		c.End = "late"
		c.Delay = rapid.IntRange(0, 3000).Draw(rt, "delay")
		c.Beside = rapid.IntRange(0, 3).Draw(rt, "beside") == 0
		return c
	}
	outlived := func(rt *rapid.T) ctxCase {
		c := genCtx(rt)
		for c.Op == "metadata" {
			c.Op = rapid.SampledFrom([]string{"controller", "leader", "coordinator"}).Draw(rt, "dial")
		}
		c.End = "outlived"
		c.Delay = rapid.IntRange(0, 20000).Draw(rt, "delay")
		return c
	}
	done := func(rt *rapid.T) ctxCase {
		c := genCtx(rt)
		c.End = rapid.SampledFrom([]string{"before", "expired"}).Draw(rt, "end")
		c.Beside = rapid.IntRange(0, 3).Draw(rt, "beside") == 0
		return c
	}
	pbt.Main(t, pbt.Check[ctxCase]{
		Rule:  "client operations (metadata, controller, leader, coordinator) on real sockets, plain, TLS 1.2 and 1.3, over 1-6 bootstrap brokers of which some fail first; the bootstrap broker or the role's broker stalls for ever (while connecting, before the handshake, before or within the answer to the version request or the query, silent or sending frames for nobody) and the context is cancelled or its deadline passes then or earlier, or it is done from the start, or ends at a random time beside a healthy exchange, or only after the operation (by a call or by its deadline); oracle: the operation returns an error when it cannot have been complete, a broker it returns stays usable, other operations of the client succeed, no connection or goroutine stays behind; non-trivial: always",
		Quick: 60, Deep: 3000, Crumb: true, Limit: 150 * time.Second,
		Strata: []pbt.Stratum[ctxCase]{{Name: "stall", Gen: stall, Weight: 8}, {Name: "race", Gen: race, Weight: 10}, {Name: "late", Gen: late, Weight: 2}, {Name: "outlived", Gen: outlived}, {Name: "done", Gen: done}},
		Run: func(c ctxCase, ob *pbt.Obs) error {
			ob.NonTrivial()
			if c.Where != "" {
				ob.Label(c.Where + " stalls: " + c.Point)
			}
			ob.Label("context: " + c.End)
			return noted(playCtx(c, ob))
		},
	})
}
