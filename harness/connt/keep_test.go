package connt

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"sync"
	"testing"

	"github.com/savaki/kafka"
	"github.com/savaki/kafka/message"
	"pgregory.net/rapid"

	"verif/harness/pbt"
	"verif/harness/sim"
)

// keepCase: the responses of a long history are all kept and compared at the
// end.  The volume of byte fields is the point, no schedule is imposed.
type keepCase struct {
	Callers int        `json:"callers"`
	Calls   []keepCall `json:"calls"` // made in turns by the callers
	Rounds  int        `json:"rounds"`
}

type keepCall struct {
	Kind   int  `json:"kind"`   // 0 SyncGroup, 1 Fetch, 2 DescribeGroups
	Fields int  `json:"fields"` // byte fields (Fetch, DescribeGroups)
	Len    int  `json:"len"`
	Scrub  bool `json:"scrub,omitempty"` // the caller overwrites what it got
}

func genKeep(rt *rapid.T) keepCase {
	c := keepCase{Callers: rapid.IntRange(1, 3).Draw(rt, "callers"), Rounds: 1}
	n := rapid.IntRange(2, 8).Draw(rt, "calls")
	class := rapid.IntRange(0, 3).Draw(rt, "class")
	volume := 0
	for i := 0; i < n; i++ {
		k := keepCall{Kind: rapid.IntRange(0, 2).Draw(rt, "kind"), Scrub: rapid.IntRange(0, 4).Draw(rt, "scrub") == 0}
		switch class {
		case 0:
			k.Len, k.Fields = rapid.IntRange(0, 70).Draw(rt, "len"), rapid.IntRange(1, 200).Draw(rt, "fields")
		case 1:
			k.Len, k.Fields = rapid.IntRange(0, 5000).Draw(rt, "len"), rapid.IntRange(1, 60).Draw(rt, "fields")
		case 2:
			k.Len, k.Fields = rapid.IntRange(0, 300000).Draw(rt, "len"), rapid.IntRange(1, 6).Draw(rt, "fields")
		default:
			k.Len, k.Fields = rapid.SampledFrom([]int{0, 1, 16, 64, 100, 1000, 5000, 60000}).Draw(rt, "len"), rapid.IntRange(1, 20).Draw(rt, "fields")
		}
		volume += k.Len*k.size() + 50
		c.Calls = append(c.Calls, k)
	}
	want := rapid.SampledFrom([]int{100000, 300000, 1500000, 6000000}).Draw(rt, "volume")
	c.Rounds = max(1, min(want/volume, 400))
	return c
}

func (k keepCall) size() int {
	if k.Kind == 0 {
		return 1
	}
	return k.Fields
}

func keepFill(n, call, field int) []byte {
	b := make([]byte, n)
	x := uint32(call*7919 + field*104729 + 12345)
	for i := range b {
		x = x*1664525 + 1013904223
		b[i] = byte(x >> 24)
	}
	return b
}

func name(call, field int) string { return fmt.Sprintf("name-%d-%d", call, field) }

// put writes wire bytes.
type put []byte

func (p *put) PutInt16(v int16) { *p = binary.BigEndian.AppendUint16(*p, uint16(v)) }
func (p *put) PutInt32(v int32) { *p = binary.BigEndian.AppendUint32(*p, uint32(v)) }
func (p *put) PutInt64(v int64) { *p = binary.BigEndian.AppendUint64(*p, uint64(v)) }
func (p *put) PutBytes(b []byte) {
	p.PutInt32(int32(len(b)))
	*p = append(*p, b...)
}
func (p *put) PutString(s string) {
	p.PutInt16(int16(len(s)))
	*p = append(*p, s...)
}

// body is the response to the call with number n.
func (k keepCall) body(n int) []byte {
	var e put
	switch k.Kind {
	case 0:
		e.PutInt16(0)
		e.PutBytes(keepFill(k.Len, n, 0))
	case 1:
		e.PutInt32(1)
		e.PutString(name(n, -1))
		e.PutInt32(int32(k.Fields))
		for i := 0; i < k.Fields; i++ {
			e.PutInt32(int32(i))
			e.PutInt16(0)
			e.PutInt64(int64(n))
			e.PutBytes(keepFill(k.Len, n, i))
		}
	case 2:
		e.PutInt32(1)
		e.PutInt16(0)
		for i := 0; i < 4; i++ {
			e.PutString(name(n, -1))
		}
		m := (k.Fields + 1) / 2
		e.PutInt32(int32(m))
		for i := 0; i < m; i++ {
			for j := 0; j < 3; j++ {
				e.PutString(name(n, i))
			}
			e.PutBytes(keepFill(k.Len, n, 2*i))
			e.PutBytes(keepFill(k.Len, n, 2*i+1))
		}
	}
	return e
}

// kept is a response some caller holds on to.
type kept struct {
	k      keepCall
	n      int
	fields [][]byte
	names  []string
	index  []int // of names
}

func (k keepCall) make(b *kafka.Broker, n int) (*kept, error) {
	r := &kept{k: k, n: n}
	id := fmt.Sprint(n)
	switch k.Kind {
	case 0:
		resp, err := b.SyncGroup(message.SyncGroupRequest{GroupId: id})
		if err != nil {
			return nil, err
		}
		r.fields = append(r.fields, resp.Assignment)
	case 1:
		resp, err := b.Fetch(message.FetchRequest{Topics: []message.FetchableTopic1{{Name: id}}})
		if err != nil {
			return nil, err
		}
		for _, t := range resp.Topics {
			r.names, r.index = append(r.names, t.Name), append(r.index, -1)
			for _, p := range t.Partitions {
				r.fields = append(r.fields, p.Records)
			}
		}
	case 2:
		resp, err := b.DescribeGroups(message.DescribeGroupsRequest{Groups: []string{id}})
		if err != nil {
			return nil, err
		}
		for _, g := range resp.Groups {
			r.names, r.index = append(r.names, g.GroupId, g.ProtocolData), append(r.index, -1, -1)
			for i, m := range g.Members {
				r.fields = append(r.fields, m.MemberMetadata, m.MemberAssignment)
				r.names, r.index = append(r.names, m.MemberId, m.ClientHost), append(r.index, i, i)
			}
		}
	}
	return r, nil
}

func (r *kept) check() error {
	want := r.k.size()
	if r.k.Kind == 2 {
		want = (r.k.Fields + 1) / 2 * 2
	}
	if len(r.fields) != want {
		return fmt.Errorf("%d byte fields, want %d", len(r.fields), want)
	}
	for i, f := range r.fields {
		if !bytes.Equal(f, keepFill(r.k.Len, r.n, i)) {
			return fmt.Errorf("byte field %d (%d bytes)", i, r.k.Len)
		}
	}
	for i, s := range r.names {
		if s != name(r.n, r.index[i]) {
			return fmt.Errorf("string %d", i)
		}
	}
	return nil
}

func keep(c keepCase) error {
	link := sim.NewLink("broker:9092")
	kafka.VerifDial = func(addr string) (net.Conn, error) { return &sim.Conn{L: link}, nil }
	defer func() { kafka.VerifDial = nil }()
	total := len(c.Calls) * c.Rounds
	go func() {
		next := 0
		for {
			b, ok, _ := link.NextFrame(nil)
			if !ok {
				return
			}
			h, ok := parseHeader(b)
			if !ok {
				link.End(io.EOF, false)
				return
			}
			if h.key == 18 {
				link.Send(respond(h.corr, versionsResponse(h.ver, []vrange{{1, 0, 0}, {14, 0, 0}, {15, 0, 0}})), nil, &next)
				continue
			}
			// the number of the call is the first string of digits
			n := -1
			for i := 0; i < len(h.body); i++ {
				if x := h.body[i]; x >= '0' && x <= '9' {
					n = max(n, 0)*10 + int(x-'0')
				} else if n >= 0 {
					break
				}
			}
			if n < 0 || n >= total {
				link.End(io.EOF, false)
				return
			}
			link.Send(respond(h.corr, c.Calls[n%len(c.Calls)].body(n)), nil, &next)
		}
	}()
	b, err := kafka.NewBroker("broker:9092")
	if err != nil {
		return err
	}
	defer b.Close()
	var mu sync.Mutex
	var first error
	fail := func(f string, a ...interface{}) {
		mu.Lock()
		if first == nil {
			first = fmt.Errorf(f, a...)
		}
		mu.Unlock()
	}
	all := make([]*kept, total)
	var wg sync.WaitGroup
	for i := 0; i < c.Callers; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			for n := i; n < total; n += c.Callers {
				k := c.Calls[n%len(c.Calls)]
				r, err := k.make(b, n)
				if err != nil {
					fail("call %d failed: %v", n, err)
					return
				}
				if err := r.check(); err != nil {
					fail("call %d of %d: the response is wrong when the call returns: %v", n, total, err)
					return
				}
				if k.Scrub {
					for _, f := range r.fields {
						f = f[:cap(f)]
						for j := range f {
							f[j] = 0xEE
						}
					}
					continue
				}
				all[n] = r
			}
		}()
	}
	wg.Wait()
	for n, r := range all {
		if r == nil {
			continue
		}
		if err := r.check(); err != nil {
			fail("the response of call %d has changed after %d more calls: %v", n, total-n-1, err)
		}
	}
	return first
}

func TestC11Long(t *testing.T) {
	pbt.Main(t, pbt.Check[keepCase]{
		Rule:   "one broker connection, up to 400 rounds of 2-8 SyncGroup, Fetch and DescribeGroups calls by 1-3 goroutines with byte fields of 0-300000 bytes, up to about 6 MB in all; some callers overwrite what they got; oracle: every response is right when its call returns and still is when all calls have been made; non-trivial: more than one response is kept",
		Strata: []pbt.Stratum[keepCase]{{Name: "kept", Gen: genKeep}},
		Fixed: []keepCase{
			{Callers: 1, Rounds: 12000, Calls: []keepCall{{Kind: 0, Len: 48}, {Kind: 0, Len: 9}}},
			{Callers: 2, Rounds: 300, Calls: []keepCall{{Kind: 2, Fields: 200, Len: 60}, {Kind: 1, Fields: 9, Len: 500}}},
			{Callers: 1, Rounds: 12, Calls: []keepCall{{Kind: 1, Fields: 2, Len: 900000}, {Kind: 0, Len: 2500000}}},
		},
		Quick: 10, Deep: 1500, Crumb: true,
		Run: func(c keepCase, ob *pbt.Obs) error {
			if len(c.Calls)*c.Rounds > 1 {
				ob.NonTrivial()
			}
			vol := 0
			for _, k := range c.Calls {
				vol += k.Len * k.size() * c.Rounds
			}
			switch {
			case vol < 100000:
				ob.Label("volume <100 kB")
			case vol < 1000000:
				ob.Label("volume <1 MB")
			default:
				ob.Label("volume >=1 MB")
			}
			return keep(c)
		},
	})
}
