// Package racet runs the library under the race detector.  The transport gives
// the detector no synchronisation the library does not have of its own: bytes
// flow through buffered channels, in one direction only.
package racet

import (
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"encoding/binary"
	"fmt"
	"io"
	"math/big"
	"net"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/savaki/kafka"
	"github.com/savaki/kafka/message"
	"github.com/savaki/kafka/ring"
	"pgregory.net/rapid"

	"verif/harness/pbt"
	"verif/harness/wire"
)

// ---- race reports

// reports returns the text the detector has written so far (GORACE log_path).
func reports() string {
	var sb strings.Builder
	files, _ := filepath.Glob(filepath.Join(os.Getenv("VERIF_OUT"), "race.*"))
	for _, f := range files {
		b, _ := os.ReadFile(f)
		sb.Write(b)
	}
	return sb.String()
}

// raced runs f and returns a report that concerns the library, if one appeared.
func raced(f func() error) error {
	before := len(reports())
	err := f()
	time.Sleep(0)
	text := reports()
	if len(text) <= before {
		return err
	}
	for _, r := range strings.Split(text[before:], "==================") {
		if strings.Contains(r, "DATA RACE") && strings.Contains(r, "savaki/kafka") {
			if len(r) > 3500 {
				r = r[:3500]
			}
			return fmt.Errorf("data race:\n%s", r)
		}
	}
	return err
}

// ---- transport

type pipe struct {
	in, out chan []byte
	done    chan struct{}
	closed  int32
	rest    []byte // only the reader uses it
	fail    int    // the write with this number fails, though the broker gets to see the request (0: none)
	writes  int32
}

func newPipe() *pipe {
	return &pipe{in: make(chan []byte, 1<<14), out: make(chan []byte, 1<<14), done: make(chan struct{})}
}

type addr string

func (a addr) Network() string { return "mem" }
func (a addr) String() string  { return string(a) }

func (p *pipe) Read(b []byte) (int, error) {
	if len(p.rest) == 0 {
		select {
		case x, ok := <-p.in:
			if !ok {
				return 0, io.EOF
			}
			p.rest = x
		case <-p.done:
			return 0, net.ErrClosed
		}
	}
	n := copy(b, p.rest)
	p.rest = p.rest[n:]
	return n, nil
}

func (p *pipe) Write(b []byte) (int, error) {
	select {
	case <-p.done:
		return 0, net.ErrClosed
	default:
	}
	fail := false
	if p.fail > 0 { // elsewhere no synchronisation that could hide a race
		fail = atomic.AddInt32(&p.writes, 1) >= int32(p.fail)
	}
	select {
	case p.out <- append([]byte{}, b...):
		if fail {
			time.Sleep(200 * time.Microsecond) // the broker may answer meanwhile
			return len(b) / 2, io.ErrClosedPipe
		}
		return len(b), nil
	case <-p.done:
		return 0, net.ErrClosed
	}
}

func (p *pipe) Close() error {
	if atomic.CompareAndSwapInt32(&p.closed, 0, 1) {
		close(p.done)
		return nil
	}
	return net.ErrClosed
}

func (p *pipe) LocalAddr() net.Addr                { return addr("local") }
func (p *pipe) RemoteAddr() net.Addr               { return addr("remote") }
func (p *pipe) SetDeadline(t time.Time) error      { return nil }
func (p *pipe) SetReadDeadline(t time.Time) error  { return nil }
func (p *pipe) SetWriteDeadline(t time.Time) error { return nil }

// ---- broker

type answer struct {
	corr int32
	body []byte
}

// serve answers on a pipe: one goroutine parses, another sends, in batches and
// cut as the case says; after `end` responses it hangs up (0: never).
func serve(p *pipe, c raceCase, wg *sync.WaitGroup) {
	queue := make(chan answer, 1<<14)
	wg.Add(2)
	go func() {
		defer wg.Done()
		defer close(queue)
		var buf []byte
		for {
			for len(buf) >= 4 {
				n := int(binary.BigEndian.Uint32(buf))
				if n < 10 || n > 1<<26 {
					return
				}
				if len(buf) < 4+n {
					break
				}
				if a, ok := reply(buf[4:4+n], c); ok {
					queue <- a
				}
				buf = buf[4+n:]
			}
			select {
			case b := <-p.out:
				buf = append(buf, b...)
			case <-p.done:
				return
			}
		}
	}()
	go func() {
		defer wg.Done()
		sent := 0
		for a := range queue {
			b := binary.BigEndian.AppendUint32(nil, uint32(4+len(a.body)))
			b = append(binary.BigEndian.AppendUint32(b, uint32(a.corr)), a.body...)
			for len(b) > 0 {
				n := len(b)
				if c.Cut > 0 && n > c.Cut {
					n = c.Cut
				}
				select {
				case p.in <- b[:n:n]:
				case <-p.done:
					return
				}
				b = b[n:]
			}
			if sent++; c.End > 0 && sent > c.End {
				close(p.in)
				return
			}
		}
	}()
}

func set(typ string, v *wire.Val, name string, x wire.Val) {
	for i, f := range wire.Types[typ].Fields {
		if f.Name == name {
			v.L[i] = x
			return
		}
	}
	panic(name)
}

func sub(typ, name string) string {
	for _, f := range wire.Types[typ].Fields {
		if f.Name == name {
			return f.Type
		}
	}
	panic(name)
}

var apiKeys = func() (l []int) {
	for k := range wire.APIs {
		l = append(l, k)
	}
	sort.Ints(l)
	return l
}()

func versions(v int16) []byte {
	const R = "ApiVersionsResponse"
	resp := wire.Zero(R)
	t := sub(R, "ApiKeys")
	var l wire.Val
	for _, k := range apiKeys {
		e := wire.Zero(t)
		set(t, &e, "ApiKey", wire.Val{I: int64(k)})
		set(t, &e, "MaxVersion", wire.Val{I: int64(wire.Types[wire.APIs[k]+"Request"].Hi)})
		l.L = append(l.L, e)
	}
	set(R, &resp, "ApiKeys", l)
	return wire.Encode(R, v, resp, wire.EncOpt{})
}

func metadata(v int16) []byte {
	const R = "MetadataResponse"
	resp := wire.Zero(R)
	bt := sub(R, "Brokers")
	b := wire.Zero(bt)
	set(bt, &b, "NodeId", wire.Val{I: 5})
	set(bt, &b, "Host", wire.Val{B: []byte("node")})
	set(bt, &b, "Port", wire.Val{I: 9092})
	set(R, &resp, "Brokers", wire.Val{L: []wire.Val{b}})
	set(R, &resp, "ControllerId", wire.Val{I: 5})
	tt := sub(R, "Topics")
	pt := sub(tt, "Partitions")
	tv, pv := wire.Zero(tt), wire.Zero(pt)
	set(pt, &pv, "LeaderId", wire.Val{I: 5})
	set(tt, &tv, "Name", wire.Val{B: []byte("t")})
	set(tt, &tv, "Partitions", wire.Val{L: []wire.Val{pv}})
	set(R, &resp, "Topics", wire.Val{L: []wire.Val{tv}})
	return wire.Encode(R, v, resp, wire.EncOpt{})
}

func reply(b []byte, c raceCase) (answer, bool) {
	key, ver := int(binary.BigEndian.Uint16(b)), int16(binary.BigEndian.Uint16(b[2:]))
	a := answer{corr: int32(binary.BigEndian.Uint32(b[4:]))}
	name, ok := wire.APIs[key]
	if !ok {
		return a, false
	}
	switch {
	case key == 18:
		a.body = versions(ver)
	case key == 3 && c.Kind == "client":
		a.body = metadata(ver)
	case key == 10 && c.Kind == "client":
		const R = "FindCoordinatorResponse"
		resp := wire.Zero(R)
		set(R, &resp, "Host", wire.Val{B: []byte("node")})
		set(R, &resp, "Port", wire.Val{I: 9092})
		a.body = wire.Encode(R, ver, resp, wire.EncOpt{})
	default:
		v, ok := c.Resp[name]
		if !ok {
			v = wire.Zero(name + "Response")
		}
		a.body = wire.Encode(name+"Response", ver, v, wire.EncOpt{})
		if c.Bad > 0 && int(a.corr)%c.Bad == 0 && len(a.body) > 0 {
			a.body = a.body[:len(a.body)-1]
		}
	}
	return a, true
}

// ---- cases

type raceCase struct {
	Kind    string                `json:"kind"` // conn, client
	Callers [][]int               `json:"callers"`
	Req     map[string][]wire.Val `json:"req"`
	Resp    map[string]wire.Val   `json:"resp"`
	Cut     int                   `json:"cut,omitempty"`
	End     int                   `json:"end,omitempty"`
	Bad     int                   `json:"bad,omitempty"`
	Fail    int                   `json:"fail,omitempty"`
	Closers int                   `json:"closers,omitempty"`
	After   int                   `json:"after,omitempty"` // closers wait for so many finished calls
	Ops     [][]string            `json:"ops,omitempty"`
	Ends    []int                 `json:"ends_us,omitempty"` // when the contexts of operations end; negative: never
}

func touch(v reflect.Value, write bool) (sum int) {
	switch v.Kind() {
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			sum += touch(v.Field(i), write)
		}
	case reflect.String:
		for _, b := range []byte(v.String()) {
			sum += int(b)
		}
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			b := v.Bytes()
			for i := range b {
				sum += int(b[i])
				if write {
					b[i]++
				}
			}
			return sum
		}
		for i := 0; i < v.Len(); i++ {
			sum += touch(v.Index(i), write)
		}
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		sum = int(v.Int())
	}
	return sum
}

var sink atomic.Int64

func wait(wg *sync.WaitGroup, what string) error {
	ch := make(chan struct{})
	go func() { wg.Wait(); close(ch) }()
	select {
	case <-ch:
		return nil
	case <-time.After(30 * time.Second):
		// not this property's business; the process is given up without a verdict
		buf := make([]byte, 1<<20)
		buf = buf[:runtime.Stack(buf, true)]
		fmt.Fprintf(os.Stderr, "STUCK %s\n%s\n", what, buf)
		os.Exit(4)
		return nil
	}
}

func playConn(c raceCase) error {
	var servers sync.WaitGroup
	p := newPipe()
	p.fail = c.Fail
	kafka.VerifDial = func(string) (net.Conn, error) { return p, nil }
	serve(p, c, &servers)
	b, err := kafka.NewBroker("x:1")
	if err != nil {
		p.Close()
		return wait(&servers, "servers")
	}
	var wg sync.WaitGroup
	var finished atomic.Int32
	for i, keys := range c.Callers {
		i, keys := i, keys
		wg.Add(1)
		go func() {
			defer wg.Done()
			for n, k := range keys {
				name := wire.APIs[k]
				reqs := c.Req[name]
				req := wire.ToGo(name+"Request", reqs[(i+n)%len(reqs)])
				if k == 0 {
					reflect.ValueOf(req).Elem().FieldByName("Acks").SetInt(int64((i + n) % 2))
				}
				r := reflect.ValueOf(b).MethodByName(name).Call([]reflect.Value{reflect.ValueOf(req).Elem()})
				if r[1].IsNil() {
					sink.Add(int64(touch(r[0], true)))
				}
				finished.Add(1)
			}
		}()
	}
	for i := 0; i < c.Closers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for n := 0; int(finished.Load()) < c.After && n < 60; n++ {
				time.Sleep(50 * time.Microsecond)
			}
			b.Close()
		}()
	}
	if err := wait(&wg, "calls"); err != nil {
		return err
	}
	b.Close()
	p.Close()
	return wait(&servers, "servers")
}

func playClient(c raceCase) error {
	var servers sync.WaitGroup
	var mu sync.Mutex
	var pipes []*pipe
	var dials atomic.Int32
	kafka.VerifDial = func(a string) (net.Conn, error) {
		if a == "down:1" {
			return nil, io.ErrUnexpectedEOF
		}
		dials.Add(1)
		p := newPipe()
		mu.Lock()
		pipes = append(pipes, p)
		mu.Unlock()
		serve(p, c, &servers)
		return p, nil
	}
	client := kafka.NewClient([]string{"down:1", "boot:1", "boot:2"}, kafka.WithDialer(nil), kafka.WithTLS(nil), kafka.WithDialer(&net.Dialer{}), kafka.WithTLS(&tls.Config{}))
	var wg sync.WaitGroup
	for i, ops := range c.Ops {
		i, ops := i, ops
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k, op := range ops {
				ctx, cancel := c.context(i + k)
				defer cancel()
				var b *kafka.Broker
				var err error
				switch op {
				case "metadata":
					_, err = client.Metadata(ctx, "t")
				case "controller":
					b, err = client.DialController(ctx)
				case "leader":
					b, err = client.DialLeader(ctx, "t", 0)
				default:
					b, err = client.DialGroupCoordinator(ctx, fmt.Sprint("g", i))
				}
				if b != nil && err == nil {
					b.Heartbeat(message.HeartbeatRequest{GroupId: fmt.Sprint(i)})
					b.Close()
				}
			}
		}()
	}
	if err := wait(&wg, "operations"); err != nil {
		return err
	}
	for _, p := range pipes {
		p.Close()
	}
	return wait(&servers, "servers")
}

// a certificate nobody vouches for
var selfSigned = sync.OnceValue(func() tls.Certificate {
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		panic(err)
	}
	t := &x509.Certificate{SerialNumber: big.NewInt(1), NotBefore: time.Unix(1, 0), NotAfter: time.Now().Add(1000 * time.Hour)}
	der, err := x509.CreateCertificate(rand.Reader, t, t, &key.PublicKey, key)
	if err != nil {
		panic(err)
	}
	return tls.Certificate{Certificate: [][]byte{der}, PrivateKey: key}
})

// context is that of the n-th operation.
func (c raceCase) context(n int) (context.Context, context.CancelFunc) {
	if len(c.Ends) == 0 || c.Ends[n%len(c.Ends)] < 0 {
		return context.Background(), func() {}
	}
	return context.WithTimeout(context.Background(), time.Duration(c.Ends[n%len(c.Ends)])*time.Microsecond)
}

// playDial: goroutines that share options connect over real sockets.  The broker
// hangs up at once; all that matters is what connecting does to the options.
func playDial(c raceCase) error {
	kafka.VerifDial = nil
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	defer l.Close()
	secure := c.Fail == 0
	go func() {
		for {
			conn, err := l.Accept()
			if err != nil {
				return
			}
			go func() {
				defer conn.Close()
				conn.SetDeadline(time.Now().Add(20 * time.Second))
				if secure {
					tls.Server(conn, &tls.Config{Certificates: []tls.Certificate{selfSigned()}}).Handshake()
				}
			}()
		}
	}()
	opts := make([]kafka.Option, 0, 8)
	if c.Bad > 0 {
		opts = append(opts, kafka.WithTLS(nil), kafka.WithDialer(nil))
	}
	if c.Bad < 2 {
		opts = append(opts, kafka.WithDialer(&net.Dialer{}))
	}
	if secure {
		opts = append(opts, kafka.WithTLS(&tls.Config{InsecureSkipVerify: true}))
	}
	client := kafka.NewClient([]string{l.Addr().String()}, opts...)
	var wg sync.WaitGroup
	for i, ops := range c.Ops {
		i, ops := i, ops
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k, op := range ops {
				switch op {
				case "metadata", "coordinator":
					ctx, cancel := c.context(i + k)
					client.Metadata(ctx, "t")
					cancel()
				case "controller":
					if b, err := kafka.NewBroker(l.Addr().String(), opts...); err == nil {
						b.Close()
					}
				default:
					if conn, err := kafka.Connect(l.Addr().String(), opts...); err == nil {
						conn.Close()
					}
				}
			}
		}()
	}
	return wait(&wg, "dials")
}

func genRace(rt *rapid.T, kind string) raceCase {
	c := raceCase{Kind: kind, Req: map[string][]wire.Val{}, Resp: map[string]wire.Val{}}
	c.Cut = rapid.SampledFrom([]int{0, 0, 1, 5, 64, 1000}).Draw(rt, "cut")
	if kind == "dial" {
		c.Fail = max(0, rapid.IntRange(-2, 1).Draw(rt, "plain"))
		c.Bad = rapid.IntRange(0, 2).Draw(rt, "nils")
	}
	if kind == "client" || kind == "dial" {
		for i, n := 0, rapid.IntRange(2, 6).Draw(rt, "goroutines"); i < n; i++ {
			c.Ops = append(c.Ops, rapid.SliceOfN(rapid.SampledFrom([]string{"metadata", "controller", "leader", "coordinator"}), 1, 2).Draw(rt, "ops"))
		}
		c.Cut = 0
		if rapid.Bool().Draw(rt, "ends") {
			c.Ends = rapid.SliceOfN(rapid.SampledFrom([]int{-1, 0, 30, 200, 1000, 5000, 20000, 3600e6}), 1, 3).Draw(rt, "contexts")
		}
		return c
	}
	keys := rapid.Permutation(apiKeys).Draw(rt, "keys")[:rapid.IntRange(1, 5).Draw(rt, "nkeys")]
	if rapid.Bool().Draw(rt, "bytes") {
		keys = append(keys, 0, 1, 11, 14) // produce, fetch, join, sync: byte fields
	}
	g := wire.GenOpt{MaxStr: 20, MaxBytes: 5000, MaxArr: 2}
	for _, k := range keys {
		name := wire.APIs[k]
		c.Req[name] = []wire.Val{wire.Gen(rt, name+"Request", g), wire.Gen(rt, name+"Request", g)}
		c.Resp[name] = wire.Gen(rt, name+"Response", g)
	}
	for i, n := 0, rapid.IntRange(2, 6).Draw(rt, "callers"); i < n; i++ {
		c.Callers = append(c.Callers, rapid.SliceOfN(rapid.SampledFrom(keys), 1, 5).Draw(rt, "calls"))
	}
	switch rapid.IntRange(0, 3).Draw(rt, "ending") {
	case 0:
		c.End = rapid.IntRange(1, 8).Draw(rt, "end")
	case 1:
		c.Closers = rapid.IntRange(1, 3).Draw(rt, "closers")
		c.After = rapid.IntRange(0, 8).Draw(rt, "after")
	case 2:
		if rapid.Bool().Draw(rt, "isfail") {
			c.Fail = rapid.IntRange(2, 8).Draw(rt, "fail")
		}
	}
	if rapid.IntRange(0, 3).Draw(rt, "isbad") == 0 {
		c.Bad = rapid.IntRange(2, 4).Draw(rt, "bad")
	}
	return c
}

func TestC23(t *testing.T) {
	if os.Getenv("VERIF_OUT") == "" {
		t.Skip("needs VERIF_OUT and GORACE log_path")
	}
	pbt.Main(t, pbt.Check[raceCase]{
		Rule: "2-6 goroutines call any API methods on one broker connection (requests and responses generated, some responses undecodable), reading and overwriting every byte field they get, with 0-3 goroutines closing meanwhile the broker hanging up after some responses, or a write failing whose request the broker answers all the same; or 2-6 goroutines use one client, or connect over real sockets with the same options; run under the race detector over a transport that adds no synchronisation of its own; oracle: no report that involves the library; non-trivial: at least two goroutines with calls",
		Strata: []pbt.Stratum[raceCase]{
			{Name: "connection", Gen: func(rt *rapid.T) raceCase { return genRace(rt, "conn") }, Weight: 3},
			{Name: "client", Gen: func(rt *rapid.T) raceCase { return genRace(rt, "client") }},
			{Name: "dial", Gen: func(rt *rapid.T) raceCase { return genRace(rt, "dial") }},
		},
		Quick: 60, Deep: 2500, Crumb: true,
		Run: func(c raceCase, ob *pbt.Obs) error {
			ob.NonTrivial()
			switch {
			case c.Closers > 0:
				ob.Label("close while calls run")
			case c.End > 0:
				ob.Label("broker hangs up")
			case c.Fail > 0 && c.Kind == "conn":
				ob.Label("write fails, the broker answers all the same")
			}
			ob.Label("kind " + c.Kind)
			return raced(func() error {
				switch c.Kind {
				case "client":
					return playClient(c)
				case "dial":
					return playDial(c)
				}
				return playConn(c)
			})
		},
	})
}

// ringCase: a writer, a reader and maybe a closer on one ring.
type ringCase struct {
	Size   int   `json:"size"`
	Writes []int `json:"writes"`
	Reads  []int `json:"reads"`
	Close  int   `json:"close"` // microseconds until a third goroutine closes; 0: at the end
}

func TestC23Ring(t *testing.T) {
	if os.Getenv("VERIF_OUT") == "" {
		t.Skip("needs VERIF_OUT and GORACE log_path")
	}
	pbt.Main(t, pbt.Check[ringCase]{
		Rule: "one writer and one reader transfer generated lengths through a small ring, a third goroutine closes it at some time; run under the race detector; oracle: no report; non-trivial: more bytes transferred than the ring holds",
		Strata: []pbt.Stratum[ringCase]{{Name: "ring", Gen: func(rt *rapid.T) ringCase {
			c := ringCase{Size: rapid.IntRange(2, 40).Draw(rt, "size")}
			l := rapid.SliceOfN(rapid.IntRange(0, 60), 1, 30)
			c.Writes, c.Reads = l.Draw(rt, "writes"), l.Draw(rt, "reads")
			if rapid.Bool().Draw(rt, "early") {
				c.Close = rapid.IntRange(1, 300).Draw(rt, "close")
			}
			return c
		}}},
		Quick: 800, Deep: 40000, Crumb: true,
		Run: func(c ringCase, ob *pbt.Obs) error {
			total := 0
			for _, n := range c.Writes {
				total += n
			}
			if total > c.Size {
				ob.NonTrivial()
			}
			return raced(func() error {
				b := ring.New(c.Size)
				var wg sync.WaitGroup
				left := atomic.Int32{}
				left.Store(2)
				wg.Add(2)
				go func() {
					defer wg.Done()
					for i, n := range c.Writes {
						buf := make([]byte, n)
						for k := range buf {
							buf[k] = byte(i + k)
						}
						b.WriteN(buf, n)
						for k := range buf { // the writer owns its slice again
							buf[k] = 0
						}
					}
					left.Add(-1)
				}()
				go func() {
					defer wg.Done()
					s := 0
					for _, n := range c.Reads {
						buf := make([]byte, n)
						b.ReadN(buf, n)
						for k := range buf {
							s += int(buf[k])
						}
					}
					sink.Add(int64(s))
					left.Add(-1)
				}()
				if c.Close > 0 {
					time.Sleep(time.Duration(c.Close) * time.Microsecond)
					b.Close()
				} else {
					for i := 0; i < 8 && left.Load() > 0; i++ {
						time.Sleep(50 * time.Microsecond)
					}
					b.Close()
				}
				return wait(&wg, "ring")
			})
		},
	})
}
