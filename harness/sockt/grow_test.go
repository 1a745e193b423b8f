package sockt

import (
	"bufio"
	"context"
	"crypto/tls"
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"runtime"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/savaki/kafka"
	"github.com/savaki/kafka/message"
	"pgregory.net/rapid"

	"verif/harness/pbt"
	"verif/harness/wire"
)

// growCase: a history, made of the same mix of calls throughout, whose second
// and third part must leave no more behind than the first.
type growCase struct {
	TLS     bool  `json:"tls,omitempty"`
	Callers int   `json:"callers"`
	Mix     []int `json:"mix"`   // kinds of calls, in turn
	Size    int   `json:"size"`  // of responses
	Calls   int   `json:"calls"` // per part
	// what the history consists of: calls on one connection, calls on one that
	// has ended, whole connections, client operations
	What string `json:"what"`
	// what the broker does to connections and client operations: 1 hangs up, 2
	// advertises nothing usable, 3 sends a version table that cannot be read, 4
	// goes away after the versions, 5 answers with an impossible length
	Sick int `json:"sick,omitempty"`
	// client operations share a context that can be cancelled but is not
	Context bool `json:"context,omitempty"`
}

// kinds of calls
const (
	gOK     = iota
	gCut    // the response is cut short
	gOneway // no response expected
	gLong   // a string too long to encode
	gStray  // a response to nobody before the right one
	gShort  // a frame shorter than a header before the right one
	gTwice  // answered twice
	gRefuse // the caller's decoder returns an error
	gKinds
)

var gNames = []string{"answered", "cut response", "no response", "cannot be encoded", "stray frame", "short frame", "answered twice", "decoder fails"}

// grower answers each request by what it says; it keeps no state.
func grower(c net.Conn, sick int) {
	defer c.Close()
	if sick == 1 {
		return
	}
	r, w := bufio.NewReader(c), bufio.NewWriter(c)
	put := func(b []byte) {
		w.Write(be32(len(b)))
		w.Write(b)
	}
	buf := make([]byte, 1<<16)
	for {
		if r.Buffered() == 0 {
			w.Flush()
		}
		var h [4]byte
		if _, err := io.ReadFull(r, h[:]); err != nil {
			return
		}
		n := int(binary.BigEndian.Uint32(h[:]))
		if n < 10 || n > len(buf) {
			return
		}
		b := buf[:n]
		if _, err := io.ReadFull(r, b); err != nil {
			return
		}
		corr := b[4:8]
		if key := binary.BigEndian.Uint16(b); key == 18 {
			switch sick {
			case 2: // nothing below version 90
				put(append(append([]byte{}, corr...), 0, 0, 0, 0, 0, 1, 0, 3, 0, 90, 0, 91))
				continue
			case 3:
				put(append(append([]byte{}, corr...), 0, 0, 0, 0, 0, 9, 0))
				continue
			case 5:
				w.Write([]byte{0xff, 0xff, 0xff, 0xf0})
				w.Flush()
				continue
			}
		} else if sick == 4 && key != apiKey {
			return
		}
		if binary.BigEndian.Uint16(b) != apiKey {
			if body := answer(binary.BigEndian.Uint16(b), int16(binary.BigEndian.Uint16(b[2:])), c.LocalAddr()); body != nil {
				put(append(append([]byte{}, corr...), body...))
			}
			continue
		}
		kind, size := int(b[8]), int(binary.BigEndian.Uint32(b[9:]))
		switch kind {
		case gOneway, gLong:
			continue
		case gStray:
			put(append([]byte{0x7e, corr[1], corr[2], corr[3]}, fill(3, size, 1)...))
		case gShort:
			put([]byte{1, 2}[:size%3])
		}
		resp := append(append([]byte{}, corr...), be32(size)...)
		resp = append(resp, fill(5, size, 1)...)
		if kind == gCut {
			resp = resp[:6]
		}
		put(resp)
		if kind == gTwice {
			put(resp)
		}
	}
}

// answer makes the broker one that a client can use; all roles are at node.
func answer(key uint16, v int16, node net.Addr) []byte {
	set := func(typ string, v *wire.Val, name string, x wire.Val) {
		for i, f := range wire.Types[typ].Fields {
			if f.Name == name {
				v.L[i] = x
				return
			}
		}
		panic(typ + "." + name)
	}
	sub := func(typ, name string) string {
		for _, f := range wire.Types[typ].Fields {
			if f.Name == name {
				return f.Type
			}
		}
		panic(typ + "." + name)
	}
	host, ports, _ := net.SplitHostPort(node.String())
	var port int64
	fmt.Sscan(ports, &port)
	text := func(s string) wire.Val { return wire.Val{B: []byte(s)} }
	list := func(x ...wire.Val) wire.Val { return wire.Val{L: x} }
	switch key {
	case 18:
		typ := "ApiVersionsResponse"
		k := sub(typ, "ApiKeys")
		var keys []wire.Val
		for _, a := range [][2]int64{{3, 1}, {10, 0}, {12, 0}, {18, 0}} {
			e := wire.Zero(k)
			set(k, &e, "ApiKey", wire.Val{I: a[0]})
			set(k, &e, "MinVersion", wire.Val{I: a[1]})
			set(k, &e, "MaxVersion", wire.Val{I: a[1]})
			keys = append(keys, e)
		}
		r := wire.Zero(typ)
		set(typ, &r, "ApiKeys", list(keys...))
		return wire.Encode(typ, v, r, wire.EncOpt{})
	case 3:
		typ := "MetadataResponse"
		r := wire.Zero(typ)
		bt, tt := sub(typ, "Brokers"), sub(typ, "Topics")
		pt := sub(tt, "Partitions")
		e := wire.Zero(bt)
		set(bt, &e, "NodeId", wire.Val{I: 4})
		set(bt, &e, "Host", text(host))
		set(bt, &e, "Port", wire.Val{I: port})
		set(typ, &r, "Brokers", list(e))
		set(typ, &r, "ControllerId", wire.Val{I: 4})
		p := wire.Zero(pt)
		set(pt, &p, "LeaderId", wire.Val{I: 4})
		tp := wire.Zero(tt)
		set(tt, &tp, "Name", text("t"))
		set(tt, &tp, "Partitions", list(p))
		set(typ, &r, "Topics", list(tp))
		return wire.Encode(typ, v, r, wire.EncOpt{})
	case 10:
		typ := "FindCoordinatorResponse"
		r := wire.Zero(typ)
		set(typ, &r, "Host", text(host))
		set(typ, &r, "Port", wire.Val{I: port})
		return wire.Encode(typ, v, r, wire.EncOpt{})
	}
	return nil
}

func growCall(conn *kafka.Conn, kind, size int) error {
	decode := func(d *message.Decoder) error {
		b, err := d.Bytes()
		if kind == gRefuse {
			return fmt.Errorf("not what was hoped for: %d", len(b))
		}
		return err
	}
	if kind == gOneway {
		decode = nil
	}
	err := conn.Do(func(e *message.Encoder, corr int32) {
		e.PutInt32(8 + 5)
		e.PutInt16(apiKey)
		e.PutInt16(apiVer)
		e.PutInt32(corr)
		e.PutInt8(int8(kind))
		e.PutInt32(int32(size))
		if kind == gLong {
			e.PutString(tooLong)
		}
	}, decode)
	if fails := kind == gCut || kind == gLong || kind == gRefuse; fails != (err != nil) {
		return fmt.Errorf("a call (%s) ends with %v", gNames[kind], err)
	}
	return nil
}

var tooLong = strings.Repeat("x", 40000)

// live is what is held once everything on its way out has gone.
func live() (bytes int64, goroutines int) {
	same := 0
	waitFor(func() bool {
		n := runtime.NumGoroutine()
		if n != goroutines {
			goroutines, same = n, 0
		}
		same++
		return same > 40
	}, patience())
	var m runtime.MemStats
	for i := 0; i < 3; i++ {
		runtime.GC()
	}
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc), goroutines
}

func grow(c growCase, ob *pbt.Obs) error {
	keys()
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	var mu sync.Mutex
	open := map[net.Conn]bool{}
	stop := func() {
		mu.Lock()
		defer mu.Unlock()
		for c := range open {
			c.Close()
		}
	}
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		for {
			raw, err := l.Accept()
			if err != nil {
				return
			}
			mu.Lock()
			open[raw] = true
			mu.Unlock()
			wg.Add(1)
			go func() {
				defer wg.Done()
				if c.TLS {
					grower(tls.Server(raw, &tls.Config{Certificates: []tls.Certificate{pki.cert}}), c.Sick)
				} else {
					grower(raw, c.Sick)
				}
				mu.Lock()
				delete(open, raw)
				mu.Unlock()
			}()
		}
	}()
	defer func() { l.Close(); stop(); wg.Wait() }()
	var opts []kafka.Option
	if c.TLS {
		opts = append(opts, kafka.WithTLS(&tls.Config{RootCAs: pki.pool}))
	}
	var conn *kafka.Conn
	client := kafka.NewClient([]string{l.Addr().String()}, opts...)
	if c.What == "calls" || c.What == "ended" {
		if conn, err = kafka.Connect(l.Addr().String(), opts...); err != nil {
			return fmt.Errorf("connecting fails: %v", err)
		}
		defer func() { conn.Close() }()
	}
	if c.What == "ended" {
		if err := growCall(conn, gOK, 3); err != nil {
			return err
		}
		stop()
		if !waitFor(func() bool { return growCall(conn, gOK, 3) != nil }, patience()) {
			return fmt.Errorf("calls still succeed though the broker is gone")
		}
	}
	ctx := context.Background()
	if c.Context {
		var cancel context.CancelFunc
		ctx, cancel = context.WithCancel(ctx)
		defer cancel()
	}
	one := func(i int) error {
		kind := c.Mix[i%len(c.Mix)]
		switch c.What {
		case "calls":
			return growCall(conn, kind, c.Size)
		case "ended":
			growCall(conn, kind, c.Size)
			return nil
		case "connections":
			x, err := kafka.Connect(l.Addr().String(), opts...)
			if c.Sick > 0 {
				if err == nil {
					growCall(x, kind, c.Size)
					x.Close()
				}
				return nil
			}
			if err != nil {
				return err
			}
			defer x.Close()
			return growCall(x, kind, c.Size)
		default:
			var b *kafka.Broker
			var err error
			switch kind % 5 {
			case 0:
				b, err = client.DialController(ctx)
			case 1:
				b, err = client.DialLeader(ctx, "t", 0)
			case 2:
				b, err = client.DialGroupCoordinator(ctx, "g")
			case 3:
				if b, err := client.DialLeader(ctx, "other", 0); err == nil {
					b.Close()
					return fmt.Errorf("dialled the leader of no topic")
				}
				return nil
			default:
				_, err = client.Metadata(ctx)
			}
			if b != nil {
				b.Close()
			}
			if c.Sick > 0 {
				return nil
			}
			return err
		}
	}
	part := func() error {
		errs := make(chan error, c.Callers)
		for k := 0; k < c.Callers; k++ {
			k := k
			go func() {
				for i := k; i < c.Calls; i += c.Callers {
					if err := one(i); err != nil {
						errs <- err
						return
					}
				}
				errs <- nil
			}()
		}
		var first error
		for k := 0; k < c.Callers; k++ {
			if err := <-errs; err != nil && first == nil {
				first = err
			}
		}
		return first
	}
	var mem int64
	var gor int
	for i := 0; i < 3; i++ {
		if err := part(); err != nil {
			ob.Label("calls fail, which is for other properties")
			return nil
		}
		if i == 0 {
			mem, gor = live()
		}
	}
	more := 2 * c.Calls
	limit := int64(more) + 60_000
	if c.What == "connections" || c.What == "client" {
		limit = 120_000
	}
	ob.Label(c.What)
	if c.Sick > 0 {
		ob.Label("failing " + c.What)
	}
	var m int64
	var g int
	for i := 0; i < 8; i++ {
		if i > 0 {
			time.Sleep(300 * time.Millisecond)
		}
		m, g = live()
		if m-mem <= limit && g <= gor+5 {
			return nil
		}
	}
	if m-mem > limit {
		return fmt.Errorf("%s (mix %v): after %d more of them %d bytes more are held, %d for each", c.What, c.Mix, more, m-mem, (m-mem)/int64(more))
	}
	return fmt.Errorf("%s (mix %v): after %d more of them there are %d goroutines instead of %d", c.What, c.Mix, more, g, gor)
}

func TestC26(t *testing.T) {
	mix := func(rt *rapid.T, hi int) []int {
		return rapid.SliceOfN(rapid.IntRange(0, hi-1), 1, 5).Draw(rt, "mix")
	}
	strata := []pbt.Stratum[growCase]{}
	for k := 0; k < gKinds; k++ {
		k := k
		strata = append(strata, pbt.Stratum[growCase]{Name: gNames[k], Gen: func(rt *rapid.T) growCase {
			return growCase{What: "calls", Callers: rapid.IntRange(1, 4).Draw(rt, "callers"), Mix: append([]int{k}, rapid.SliceOfN(rapid.SampledFrom([]int{k, gOK}), 0, 2).Draw(rt, "mix")...), Size: rapid.IntRange(0, 300).Draw(rt, "size"), Calls: 20000, TLS: rapid.IntRange(0, 3).Draw(rt, "tls") == 0}
		}})
	}
	strata = append(strata,
		pbt.Stratum[growCase]{Name: "mixed", Gen: func(rt *rapid.T) growCase {
			return growCase{What: "calls", Callers: rapid.IntRange(1, 9).Draw(rt, "callers"), Mix: mix(rt, gKinds), Size: rapid.IntRange(0, 3000).Draw(rt, "size"), Calls: 20000, TLS: rapid.Bool().Draw(rt, "tls")}
		}},
		pbt.Stratum[growCase]{Name: "ended", Gen: func(rt *rapid.T) growCase {
			return growCase{What: "ended", Callers: rapid.IntRange(1, 4).Draw(rt, "callers"), Mix: mix(rt, gKinds), Size: 3, Calls: 20000, TLS: rapid.Bool().Draw(rt, "tls")}
		}},
		pbt.Stratum[growCase]{Name: "connections", Gen: func(rt *rapid.T) growCase {
			return growCase{What: "connections", Callers: rapid.IntRange(1, 3).Draw(rt, "callers"), Mix: mix(rt, gKinds), Size: rapid.IntRange(0, 300).Draw(rt, "size"), Calls: 15, TLS: rapid.Bool().Draw(rt, "tls")}
		}},
		pbt.Stratum[growCase]{Name: "client", Gen: func(rt *rapid.T) growCase {
			return growCase{What: "client", Callers: rapid.IntRange(1, 3).Draw(rt, "callers"), Mix: mix(rt, 5), Calls: 15, TLS: rapid.Bool().Draw(rt, "tls"), Context: rapid.Bool().Draw(rt, "context")}
		}},
		pbt.Stratum[growCase]{Name: "failing", Gen: func(rt *rapid.T) growCase {
			return growCase{What: rapid.SampledFrom([]string{"connections", "client", "client"}).Draw(rt, "what"), Callers: rapid.IntRange(1, 3).Draw(rt, "callers"), Mix: mix(rt, 5), Calls: 15, Sick: rapid.IntRange(1, 5).Draw(rt, "sick"), TLS: rapid.Bool().Draw(rt, "tls"), Context: rapid.Bool().Draw(rt, "context")}
		}})
	pbt.Main(t, pbt.Check[growCase]{
		Rule:   "a history of three equal parts over real sockets (plain, TLS), each 20000 calls of one generated mix (answered, cut, unanswered, unencodable, stray and short frames, answered twice, refused by the decoder) on one connection, or on one that has ended, or 15 connections or client operations; oracle: after the third part the live heap and the number of goroutines are not above those after the first (60 kB and one byte per call allowed, 120 kB for the others); non-trivial: always",
		Strata: strata, Quick: 1, Deep: 40, Crumb: true, Limit: 120 * 1e9,
		Run: func(c growCase, ob *pbt.Obs) error {
			ob.NonTrivial()
			return noted(grow(c, ob))
		},
	})
}
