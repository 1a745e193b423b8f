package connt

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"math"
	"net"
	"reflect"
	"sort"
	"sync/atomic"
	"testing"

	"github.com/savaki/kafka"
	"github.com/savaki/kafka/message"
	"pgregory.net/rapid"

	"verif/harness/pbt"
	"verif/harness/sim"
	"verif/harness/vsched"
	"verif/harness/wire"
)

const clientID = "github.com/savaki/kafka"

// Version ranges of the library, from the frozen schema.
func ours(key int) (lo, hi int) {
	t := wire.Types[wire.APIs[key]+"Request"]
	return t.Lo, t.Hi
}

var apiKeys = func() (l []int) {
	for k := range wire.APIs {
		l = append(l, k)
	}
	sort.Ints(l)
	return l
}()

// vrange is one advertised API.
type vrange struct {
	Key int16 `json:"k"`
	Min int16 `json:"lo"`
	Max int16 `json:"hi"`
}

// expected is the version both sides support, or false.
func expected(r vrange) (int16, bool) {
	lo, hi := ours(int(r.Key))
	v := min(int(r.Max), hi)
	if v < lo || v < int(r.Min) {
		return 0, false
	}
	return int16(v), true
}

// apiCall is one call of a broker method.
type apiCall struct {
	Key   int      `json:"key"`
	Req   wire.Val `json:"req"`
	Resp  wire.Val `json:"resp"`
	Nulls bool     `json:"nulls,omitempty"` // nulls on the wire as -1
	Bad   int      `json:"bad,omitempty"`   // 1 cut, 2 surplus, 3 a wrong length, 4 random bytes
	BadAt int      `json:"badat,omitempty"`
	Junk  []byte   `json:"junk,omitempty"`
	Over  []int    `json:"over,omitempty"` // path of a string made OverLen long
	OLen  int      `json:"olen,omitempty"`
	Scrub bool     `json:"scrub,omitempty"`
}

type apiCase struct {
	Avail   []vrange    `json:"avail"`
	Callers [][]apiCall `json:"callers"`
	Hold    []int       `json:"hold,omitempty"`
	Order   []int       `json:"order,omitempty"`
	Cuts    []int       `json:"cuts,omitempty"`
	Fault   fault       `json:"fault"`
	// another connection to the same address, where the broker advertises Other:
	// 0: before and closed, 1: before and left open, 2: after connecting
	Other []vrange        `json:"other,omitempty"`
	When  int             `json:"when,omitempty"`
	Sched vsched.Schedule `json:"sched"`
}

func (c apiCase) version(key int) (int16, bool) {
	for _, r := range c.Avail {
		if int(r.Key) == key {
			return expected(r)
		}
	}
	return 0, false
}

// setString replaces the string at path.
func setString(v wire.Val, path []int, b []byte) wire.Val {
	out := v
	if len(path) == 0 {
		out.B, out.N = b, false
		return out
	}
	out.L = append([]wire.Val{}, v.L...)
	out.L[path[0]] = setString(v.L[path[0]], path[1:], b)
	return out
}

type strSite struct {
	path []int
	in   bool // exists in the version
}

func strSites(typ string, v int16, val wire.Val, prefix []int, in bool) (out []strSite) {
	for i, f := range wire.Types[typ].Fields {
		p := append(append([]int{}, prefix...), i)
		here := in && f.In(v)
		switch f.Kind {
		case "string":
			out = append(out, strSite{p, here})
		case "[]string":
			for k := range val.L[i].L {
				out = append(out, strSite{append(append([]int{}, p...), k), here})
			}
		case "struct":
			for k, e := range val.L[i].L {
				out = append(out, strSites(f.Type, v, e, append(append([]int{}, p...), k), here)...)
			}
		}
	}
	return out
}

type apiOut struct {
	call     apiCall
	n        int
	key      int
	ver      int16
	req      wire.Message
	val      wire.Val
	body     []byte // the library's own encoding of the request
	reject   bool   // must fail without sending anything
	oneway   bool
	respBody []byte
	wantErr  bool
	wantMust bool // the response is cut short
	want     wire.Val
	started  atomic.Bool
	returned atomic.Bool
	err      error
	got      interface{}
	copy     wire.Val
	seen     bool
	// identical requests are told apart neither by the broker nor here: what
	// arrived and what was answered is counted for the first of them
	canon        *apiOut
	nseen, nsent int
	nsucc        int // successful calls looked at so far
}

// prepare computes what must be sent and returned.
func prepare(c apiCase, call apiCall, n int, canon map[string]*apiOut) *apiOut {
	o := &apiOut{call: call, n: n, key: call.Key}
	o.canon = o
	name := wire.APIs[call.Key]
	o.ver, _ = c.version(call.Key)
	val := call.Req
	if len(call.Over) > 0 {
		val = setString(val, call.Over, bytes.Repeat([]byte{'x'}, call.OLen))
		for _, s := range strSites(name+"Request", o.ver, val, nil, true) {
			if reflect.DeepEqual(s.path, call.Over) {
				o.reject = s.in && call.OLen > math.MaxInt16
			}
		}
	}
	o.val = val
	o.req = wire.ToGo(name+"Request", val)
	if !o.reject {
		var buf bytes.Buffer
		e := message.NewEncoder(&buf)
		o.req.Encode(e, o.ver)
		e.Flush()
		o.body = buf.Bytes()
		// the same request gets the same response: the broker cannot tell who asked
		k := fmt.Sprint(o.key, string(o.body))
		if x := canon[k]; x != nil {
			o.canon = x
			call.Resp, call.Nulls, call.Bad, call.BadAt, call.Junk = x.call.Resp, x.call.Nulls, x.call.Bad, x.call.BadAt, x.call.Junk
		} else {
			canon[k] = o
		}
	}
	o.call = call
	if call.Key == 0 {
		o.oneway = reflect.ValueOf(o.req).Elem().FieldByName("Acks").Int() == 0
	}
	o.respBody = wire.Encode(name+"Response", o.ver, call.Resp, wire.EncOpt{Nulls: call.Nulls})
	switch call.Bad {
	case 1:
		if len(o.respBody) > 0 {
			o.respBody = o.respBody[:call.BadAt%len(o.respBody)]
			o.wantMust = true
		}
	case 2:
		o.respBody = append(o.respBody, call.Junk...)
	case 3:
		if s := wire.Sites(name+"Response", o.ver, o.respBody); len(s) > 0 {
			x := s[call.BadAt%len(s)]
			copy(o.respBody[x.Off:x.Off+x.Width], append(append([]byte{}, call.Junk...), 0xff, 0xfe, 0xff, 0xfe))
		}
	case 4:
		o.respBody = append([]byte{}, call.Junk...)
	}
	m := wire.New(name + "Response")
	func() {
		defer func() {
			if recover() != nil {
				o.wantErr = true
			}
		}()
		o.wantErr = m.Decode(message.NewDecoder(append([]byte{}, o.respBody...), len(o.respBody)), o.ver) != nil
	}()
	o.want = wire.FromGo(name+"Response", m)
	return o
}

func scrub(v reflect.Value) {
	switch v.Kind() {
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			scrub(v.Field(i))
		}
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			b := v.Bytes()
			b = b[:cap(b)]
			for i := range b {
				b[i] = 0xEE
			}
			return
		}
		for i := 0; i < v.Len(); i++ {
			scrub(v.Index(i))
		}
	}
}

// spare overwrites the memory behind every byte field, as appending to it does.
func spare(v reflect.Value) {
	switch v.Kind() {
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			spare(v.Field(i))
		}
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			b := v.Bytes()
			for i := range b[len(b):cap(b)] {
				b[len(b):cap(b)][i] = 0xED
			}
			return
		}
		for i := 0; i < v.Len(); i++ {
			spare(v.Index(i))
		}
	}
}

// doAPI calls the broker method by reflection.
func doAPI(b *kafka.Broker, o *apiOut) {
	o.started.Store(true)
	name := wire.APIs[o.key]
	m := reflect.ValueOf(b).MethodByName(name)
	r := m.Call([]reflect.Value{reflect.ValueOf(o.req).Elem()})
	if e := r[1].Interface(); e != nil {
		o.err = e.(error)
	} else {
		p := reflect.New(r[0].Type())
		p.Elem().Set(r[0])
		o.got = p.Interface()
		o.copy = wire.FromGo(name+"Response", o.got)
		spare(p.Elem())
		if o.call.Scrub {
			scrub(p.Elem())
		}
	}
	o.returned.Store(true)
}

// header is a parsed request header.
type header struct {
	key, ver int16
	corr     int32
	client   string
	body     []byte
}

func parseHeader(b []byte) (h header, ok bool) {
	if len(b) < 10 {
		return h, false
	}
	h.key, h.ver = int16(binary.BigEndian.Uint16(b)), int16(binary.BigEndian.Uint16(b[2:]))
	h.corr = int32(binary.BigEndian.Uint32(b[4:]))
	n := int(int16(binary.BigEndian.Uint16(b[8:])))
	if n < 0 || 10+n > len(b) {
		return h, false
	}
	h.client, h.body = string(b[10:10+n]), b[10+n:]
	return h, true
}

func respond(corr int32, body []byte) []byte {
	out := append(be32(int32(4+len(body))), be32(corr)...)
	return append(out, body...)
}

func versionsResponse(v int16, avail []vrange) []byte {
	resp := wire.Zero("ApiVersionsResponse")
	for i, f := range wire.Types["ApiVersionsResponse"].Fields {
		if f.Name == "ApiKeys" {
			resp.L[i].N = false
			for _, r := range avail {
				e := wire.Zero(f.Type)
				for k, g := range wire.Types[f.Type].Fields {
					switch g.Name {
					case "ApiKey":
						e.L[k].I = int64(r.Key)
					case "MinVersion":
						e.L[k].I = int64(r.Min)
					case "MaxVersion":
						e.L[k].I = int64(r.Max)
					}
				}
				resp.L[i].L = append(resp.L[i].L, e)
			}
		}
	}
	return wire.Encode("ApiVersionsResponse", v, resp, wire.EncOpt{})
}

type apiPending struct {
	corr int32
	o    *apiOut
}

type apiServer struct {
	c       apiCase
	link    *sim.Link
	kick    chan struct{}
	outs    []*apiOut
	first   bool
	pending []apiPending
	used    map[int32]bool
	probs   []problem
	nresp   int
	batch   int
	cut     int
	maxPend int
	reorder bool
	frames  int
	cur     *apiOut // sequential runs: the only call that can be under way
	seq     bool
}

func (s *apiServer) bad(aspect, f string, a ...interface{}) {
	s.probs = append(s.probs, problem{aspect, fmt.Sprintf(f, a...)})
}

func (s *apiServer) frame(b []byte) {
	s.frames++
	h, ok := parseHeader(b)
	if !ok {
		s.bad("request", "frame %d (%d bytes) has no request header", s.frames, len(b))
		s.bad("frame", "frame %d (%d bytes) has no request header", s.frames, len(b))
		return
	}
	if name, known := wire.APIs[int(h.key)]; !known {
		s.bad("frame", "frame %d starts with API key %d", s.frames, h.key)
	} else if _, n, err := wire.Decode(name+"Request", h.ver, h.body); err != nil || n != len(h.body) {
		s.bad("frame", "frame %d does not hold exactly one %s request of version %d: %d of %d bytes used, %v", s.frames, name, h.ver, n, len(h.body), err)
	}
	if h.client != clientID {
		s.bad("request", "frame %d carries client id %q", s.frames, h.client)
	}
	if !s.first {
		s.first = true
		lo, hi := ours(18)
		if h.key != 18 || int(h.ver) < lo || int(h.ver) > hi {
			s.bad("request", "the first request has key %d version %d, not ApiVersions", h.key, h.ver)
			return
		}
		s.link.Send(respond(h.corr, versionsResponse(h.ver, s.c.Avail)), s.c.Cuts, &s.cut)
		return
	}
	if s.used[h.corr] {
		s.bad("frame", "correlation id %d is used by two outstanding requests", h.corr)
	}
	var o *apiOut
	for _, x := range s.outs {
		if x.started.Load() && !x.seen && (!s.seq || !x.returned.Load() || x.oneway) && !x.reject && x.key == int(h.key) {
			if s.seq && h.ver != x.ver {
				s.bad("version", "%s is sent with version %d; advertised and supported ranges ask for %d", wire.APIs[x.key], h.ver, x.ver)
				o = x
				break
			}
			if h.ver == x.ver && bytes.Equal(h.body, x.body) {
				o = x
				break
			}
		}
	}
	if o == nil {
		s.bad("request", "frame %d (key %d, version %d, %d bytes of body) is not the request of any outstanding call", s.frames, h.key, h.ver, len(h.body))
		return
	}
	o.seen = true
	o.canon.nseen++
	if o.oneway {
		return
	}
	s.used[h.corr] = true
	s.pending = append(s.pending, apiPending{h.corr, o})
	s.maxPend = max(s.maxPend, len(s.pending))
}

func (s *apiServer) answerAll() {
	for len(s.pending) > 0 {
		i := 0
		if len(s.c.Order) > 0 {
			i = s.c.Order[s.nresp%len(s.c.Order)] % len(s.pending)
		}
		s.reorder = s.reorder || i > 0
		p := s.pending[i]
		s.pending = append(s.pending[:i:i], s.pending[i+1:]...)
		delete(s.used, p.corr)
		s.nresp++
		p.o.canon.nsent++
		s.link.Send(respond(p.corr, p.o.respBody), s.c.Cuts, &s.cut)
	}
}

func (s *apiServer) run() {
	for {
		hold := 1
		if len(s.c.Hold) > 0 {
			hold = s.c.Hold[s.batch%len(s.c.Hold)]
		}
		if len(s.pending) >= hold && len(s.pending) > 0 {
			s.batch++
			s.answerAll()
			continue
		}
		b, ok, kicked := s.link.NextFrame(s.kick)
		switch {
		case kicked:
			s.batch++
			s.answerAll()
		case !ok:
			return
		default:
			s.frame(b)
		}
	}
}

// api plays one case.
func api(t *testing.T, c apiCase, ob *pbt.Obs) (probs []problem, st *apiServer, outs [][]*apiOut, sc *vsched.Sched) {
	canon := map[string]*apiOut{}
	var all []*apiOut
	for _, calls := range c.Callers {
		var l []*apiOut
		for _, call := range calls {
			o := prepare(c, call, len(all), canon)
			all = append(all, o)
			l = append(l, o)
		}
		outs = append(outs, l)
	}
	connects := true
	for _, r := range c.Avail {
		if _, known := wire.APIs[int(r.Key)]; known {
			if _, ok := expected(r); !ok {
				connects = false
			}
		}
	}
	defer func() { kafka.VerifDial = nil }()
	bad := func(aspect, f string, a ...interface{}) {
		probs = append(probs, problem{aspect, fmt.Sprintf(f, a...)})
	}
	sc, err := vsched.Run(t, c.Sched, func(s *vsched.Sched) error {
		var other *kafka.Broker
		var otherLink *sim.Link
		visit := func() {
			otherLink = sim.NewLink("broker:9092")
			kafka.VerifDial = func(addr string) (net.Conn, error) { return &sim.Conn{L: otherLink}, nil }
			st := &apiServer{c: apiCase{Avail: c.Other}, link: otherLink, kick: make(chan struct{}), used: map[int32]bool{}}
			go st.run()
			go func() {
				b, err := kafka.NewBroker("broker:9092")
				if err == nil && c.When == 0 {
					b.Close()
				} else if err == nil {
					other = b
				}
			}()
			s.Settle(500000)
		}
		if len(c.Other) > 0 && c.When < 2 {
			visit()
		}
		defer func() {
			if other != nil {
				go other.Close()
				s.Settle(500000)
			} else if otherLink != nil {
				otherLink.End(io.EOF, false)
				s.Settle(500000)
			}
		}()
		link := sim.NewLink("broker:9092")
		kafka.VerifDial = func(addr string) (net.Conn, error) { return &sim.Conn{L: link}, nil }
		st = &apiServer{c: c, link: link, kick: make(chan struct{}), outs: all, used: map[int32]bool{}, seq: len(c.Callers) == 1}
		go st.run()
		settle := func() { s.Settle(500000) }
		var broker *kafka.Broker
		var berr error
		var connected atomic.Bool
		go func() {
			broker, berr = kafka.NewBroker("broker:9092")
			connected.Store(true)
		}()
		settle()
		switch {
		case !connected.Load():
			bad("connect", "connecting never returns (advertised %v)", c.Avail)
			link.End(io.EOF, false)
			settle()
			return nil
		case connects && berr != nil:
			bad("connect", "connecting fails though every advertised range overlaps: %v", berr)
			return nil
		case !connects:
			if berr == nil {
				bad("connect", "connecting succeeds though an advertised range does not overlap (%v)", c.Avail)
				broker.Close()
			}
			return nil
		}
		if len(c.Other) > 0 && c.When == 2 {
			visit()
		}
		switch c.Fault.Kind {
		case "write":
			link.FailWrites(link.Parsed()+c.Fault.At, c.Fault.Partial)
		}
		for _, l := range outs {
			l := l
			go func() {
				for _, o := range l {
					doAPI(broker, o)
				}
			}()
		}
		settle()
		for i := 0; i < len(all)+3; i++ {
			open := false
			for _, o := range all {
				open = open || !o.returned.Load()
			}
			if !open || link.IsClosed() {
				break
			}
			go func() {
				select {
				case st.kick <- struct{}{}:
				case <-s.Quit():
				}
			}()
			settle()
		}
		stuck := false
		for _, o := range all {
			name := wire.APIs[o.key]
			faulty := c.Fault.Kind != ""
			if o.returned.Load() && o.err == nil {
				o.canon.nsucc++
			}
			if o.returned.Load() {
				if d := wire.Diff(name+"Request", wire.FromGo(name+"Request", o.req), o.val, false); d != "" {
					bad("request", "call %d (%s v%d) changed the caller's request: %s", o.n, name, o.ver, d)
				}
			}
			switch {
			case !o.started.Load():
			case !o.returned.Load():
				stuck = true
				a := "response"
				if o.oneway {
					a = "oneway"
				}
				bad(a, "call %d (%s v%d) never returns", o.n, name, o.ver)
			case o.reject:
				if o.err == nil {
					bad("reject", "call %d (%s v%d) succeeds though a string of %d bytes cannot be sent", o.n, name, o.ver, o.call.OLen)
				}
			case o.oneway:
				if o.err == nil && o.canon.nseen < o.canon.nsucc {
					bad("oneway", "call %d (%s without acknowledgement) succeeds though its request never reached the broker", o.n, name)
				}
				if o.err != nil && !faulty {
					bad("oneway", "call %d (%s without acknowledgement) fails: %v", o.n, name, o.err)
				}
			case faulty && o.err != nil:
			case o.err == nil && o.canon.nsent < o.canon.nsucc:
				bad("response", "call %d (%s v%d) succeeds without a response", o.n, name, o.ver)
			case o.wantMust && o.err == nil:
				bad("malformed", "call %d (%s v%d) succeeds though its response is cut short", o.n, name, o.ver)
			case o.wantErr && o.err == nil:
				bad("malformed", "call %d (%s v%d) succeeds though its response cannot be decoded", o.n, name, o.ver)
			case o.wantErr:
			case o.err != nil:
				bad("response", "call %d (%s v%d) fails: %v", o.n, name, o.ver, o.err)
			default:
				if d := wire.Diff(name+"Response", o.copy, o.want, false); d != "" {
					bad("response", "call %d (%s v%d) returns another value than the response it was sent: %s", o.n, name, o.ver, d)
				}
				if !o.call.Scrub {
					if d := wire.Diff(name+"Response", wire.FromGo(name+"Response", o.got), o.copy, false); d != "" {
						bad("stable", "the response of call %d (%s v%d) changed after the call had returned: %s", o.n, name, o.ver, d)
					}
				}
			}
		}
		if c.Fault.Kind == "" && !stuck {
			if n := link.Leftover(); len(n) > 0 {
				bad("frame", "%d bytes after the last complete frame", len(n))
			}
		}
		var closed atomic.Bool
		go func() { broker.Close(); closed.Store(true) }()
		settle()
		if !closed.Load() || !link.IsClosed() {
			bad("end", "Close does not return or leaves the socket open")
		}
		s.CloseQuit()
		settle()
		return nil
	})
	if err != nil {
		bad("end", "%v", err)
	}
	if st != nil {
		probs = append(probs, st.probs...)
	}
	return probs, st, outs, sc
}

// ---- generation

type apiOpt struct {
	keys                 []int
	maxCallers, maxCalls int
	bad, over, scrub     bool
	gen                  wire.GenOpt
	acks                 bool
}

// genAvail advertises each key with a range that overlaps the library's.
func genAvail(rt *rapid.T, keys []int) (out []vrange) {
	for _, k := range keys {
		lo, hi := ours(k)
		v := rapid.IntRange(lo, hi).Draw(rt, "version")
		mx := v
		if v == hi {
			mx = hi + rapid.IntRange(0, 4).Draw(rt, "beyond")
		}
		out = append(out, vrange{int16(k), int16(rapid.IntRange(0, v).Draw(rt, "min")), int16(mx)})
	}
	return out
}

func field(typ, name string) int {
	for i, f := range wire.Types[typ].Fields {
		if f.Name == name {
			return i
		}
	}
	panic(typ + " has no " + name)
}

func genCall(rt *rapid.T, key int, ver int16, o apiOpt) apiCall {
	name := wire.APIs[key]
	c := apiCall{Key: key, Req: wire.Gen(rt, name+"Request", o.gen), Resp: wire.Gen(rt, name+"Response", o.gen), Nulls: rapid.Bool().Draw(rt, "nulls")}
	if key == 0 {
		acks := []int64{1, -1}
		if o.acks {
			acks = []int64{0, 0, 1, -1}
		}
		c.Req.L[field("ProduceRequest", "Acks")].I = rapid.SampledFrom(acks).Draw(rt, "acks")
	}
	if o.bad && rapid.IntRange(0, 1).Draw(rt, "isbad") == 0 {
		c.Bad = rapid.SampledFrom([]int{1, 1, 2, 3, 4}).Draw(rt, "bad")
		c.BadAt = rapid.IntRange(0, 400).Draw(rt, "badat")
		c.Junk = rapid.SliceOfN(rapid.Byte(), 0, 8).Draw(rt, "junk")
	}
	if o.over && rapid.IntRange(0, 1).Draw(rt, "isover") == 0 {
		if s := strSites(name+"Request", ver, c.Req, nil, true); len(s) > 0 {
			c.Over = s[rapid.IntRange(0, len(s)-1).Draw(rt, "site")].path
			c.OLen = rapid.SampledFrom([]int{32766, 32767, 32768, 32769, 32770, 40000, 65534, 65535, 65536, 65537, 65541, 70000, 98304, 131072, 140000}).Draw(rt, "overlen")
		}
	}
	if o.scrub {
		c.Scrub = rapid.IntRange(0, 2).Draw(rt, "scrub") == 0
	}
	return c
}

func genAPI(rt *rapid.T, o apiOpt) apiCase {
	var c apiCase
	keys := append([]int{}, o.keys...)
	if len(keys) > 4 {
		p := rapid.Permutation(keys).Draw(rt, "keys")
		keys = p[:rapid.IntRange(1, 4).Draw(rt, "nkeys")]
	}
	c.Avail = genAvail(rt, keys)
	n := rapid.IntRange(1, o.maxCallers).Draw(rt, "callers")
	for i := 0; i < n; i++ {
		var l []apiCall
		for k, m := 0, rapid.IntRange(1, o.maxCalls).Draw(rt, "calls"); k < m; k++ {
			key := rapid.SampledFrom(keys).Draw(rt, "key")
			ver, _ := c.version(key)
			l = append(l, genCall(rt, key, ver, o))
		}
		c.Callers = append(c.Callers, l)
	}
	c.Hold = rapid.SliceOfN(rapid.IntRange(1, n), 1, 3).Draw(rt, "hold")
	c.Order = rapid.SliceOfN(rapid.IntRange(0, 4), 0, 4).Draw(rt, "order")
	c.Cuts = rapid.SliceOfN(rapid.SampledFrom([]int{0, 3, 4, 7, 40, 300}), 0, 3).Draw(rt, "cuts")
	c.Sched = vsched.Gen(rt, 300)
	return c
}

func renderAPI(c apiCase) interface{} {
	var callers []interface{}
	for _, l := range c.Callers {
		var calls []interface{}
		for _, x := range l {
			v, _ := c.version(x.Key)
			m := map[string]interface{}{"api": wire.APIs[x.Key], "version": v, "request": wire.Render(wire.APIs[x.Key]+"Request", v, x.Req), "response": wire.Render(wire.APIs[x.Key]+"Response", v, x.Resp)}
			if x.Bad > 0 {
				m["bad"] = []int{x.Bad, x.BadAt}
			}
			if len(x.Over) > 0 {
				m["string_at"], m["made_bytes_long"] = x.Over, x.OLen
			}
			calls = append(calls, m)
		}
		callers = append(callers, calls)
	}
	avail := c.Avail
	if len(avail) > 6 {
		avail = avail[:6]
	}
	return map[string]interface{}{"advertised": avail, "callers": callers, "hold": c.Hold, "order": c.Order, "cuts": c.Cuts, "schedule": c.Sched, "fault": c.Fault}
}

func apiLabels(ob *pbt.Obs, st *apiServer, sc *vsched.Sched) {
	if st == nil {
		return
	}
	if st.maxPend > 1 {
		ob.Label("several requests outstanding")
	}
	if st.reorder {
		ob.Label("answered out of order")
	}
	if sc.Switch > 0 {
		ob.Label("preempted")
	}
}

var plainKeys = func() (l []int) {
	for _, k := range apiKeys {
		l = append(l, k)
	}
	return l
}()

// apis whose responses hold byte fields
var byteKeys = func() (l []int) {
	var has func(typ string) bool
	has = func(typ string) bool {
		for _, f := range wire.Types[typ].Fields {
			if f.Kind == "bytes" || f.Kind == "struct" && has(f.Type) {
				return true
			}
		}
		return false
	}
	for _, k := range apiKeys {
		if has(wire.APIs[k] + "Response") {
			l = append(l, k)
		}
	}
	return l
}()

func TestC10APIs(t *testing.T) {
	o := apiOpt{keys: plainKeys, maxCallers: 4, maxCalls: 3, gen: wire.SmallGen}
	pbt.Main(t, pbt.Check[apiCase]{
		Rule:   "1-4 goroutines call broker API methods (any of the 48, any version) with generated requests; answers held back and reordered; oracle: each call returns the value decoded alone from the response the broker sent to its request; non-trivial: at least two requests outstanding at once",
		Strata: []pbt.Stratum[apiCase]{{Name: "apis", Gen: func(rt *rapid.T) apiCase { return genAPI(rt, o) }}},
		Render: renderAPI, Quick: 600, Deep: 20000, Crumb: true,
		Run: func(c apiCase, ob *pbt.Obs) error {
			probs, st, _, sc := api(t, c, ob)
			apiLabels(ob, st, sc)
			if st != nil && st.maxPend > 1 {
				ob.NonTrivial()
			}
			return judge(probs, "response")
		},
	})
}

func TestC11APIs(t *testing.T) {
	o := apiOpt{keys: byteKeys, maxCallers: 3, maxCalls: 5, gen: wire.GenOpt{MaxStr: 30, MaxBytes: 3000, MaxArr: 2}, scrub: true}
	pbt.Main(t, pbt.Check[apiCase]{
		Rule:   "1-3 goroutines call the API methods whose responses hold byte fields (Fetch, JoinGroup, ...), some overwrite the bytes they got; oracle: at the end every kept response equals its deep copy made at return; non-trivial: at least two calls",
		Strata: []pbt.Stratum[apiCase]{{Name: "apis", Gen: func(rt *rapid.T) apiCase { return genAPI(rt, o) }}},
		Render: renderAPI, Quick: 600, Deep: 20000, Crumb: true,
		Run: func(c apiCase, ob *pbt.Obs) error {
			probs, st, _, sc := api(t, c, ob)
			apiLabels(ob, st, sc)
			if st != nil && st.nresp > 1 {
				ob.NonTrivial()
			}
			return judge(probs, "stable")
		},
	})
}

func TestC12APIs(t *testing.T) {
	o := apiOpt{keys: plainKeys, maxCallers: 4, maxCalls: 3, gen: wire.GenOpt{MaxStr: 9000, MaxBytes: 70000, MaxArr: 3, Long: true}, acks: true}
	pbt.Main(t, pbt.Check[apiCase]{
		Rule:   "1-4 goroutines call broker API methods (any of the 48, any version) with generated requests up to beyond every buffer; oracle: the reference decoder finds in every frame one header and exactly one request body, nothing is left over, ids of outstanding requests are distinct; non-trivial: at least two requests outstanding at once",
		Strata: []pbt.Stratum[apiCase]{{Name: "apis", Gen: func(rt *rapid.T) apiCase { return genAPI(rt, o) }}},
		Render: renderAPI, Quick: 600, Deep: 20000, Crumb: true,
		Run: func(c apiCase, ob *pbt.Obs) error {
			probs, st, _, sc := api(t, c, ob)
			apiLabels(ob, st, sc)
			if st != nil && st.maxPend > 1 {
				ob.NonTrivial()
			}
			return judge(probs, "frame")
		},
	})
}

func TestC14(t *testing.T) {
	edge := []int16{-32768, -1, 0, 1, 2, 3, 5, 7, 8, 9, 10, 11, 12, 13, 20, 100, 127, 255, 32766, 32767}
	gen := func(rt *rapid.T) apiCase {
		var c apiCase
		good := rapid.IntRange(0, 3).Draw(rt, "disjoint") > 0
		keys := rapid.Permutation(apiKeys).Draw(rt, "keys")
		keys = keys[:rapid.IntRange(1, len(keys)).Draw(rt, "nkeys")]
		for _, k := range keys {
			lo, hi := ours(k)
			r := vrange{Key: int16(k)}
			switch rapid.IntRange(0, 3).Draw(rt, "shape") {
			case 0:
				r.Min, r.Max = rapid.SampledFrom(edge).Draw(rt, "min"), rapid.SampledFrom(edge).Draw(rt, "max")
			default:
				r.Min = int16(rapid.IntRange(0, hi+1).Draw(rt, "min"))
				r.Max = int16(rapid.IntRange(0, hi+3).Draw(rt, "max"))
			}
			if _, ok := expected(r); !ok && good {
				v := rapid.IntRange(lo, hi).Draw(rt, "version")
				r.Min, r.Max = int16(rapid.IntRange(-3, v).Draw(rt, "min")), int16(v)
				if v == hi {
					r.Max = int16(rapid.SampledFrom([]int{hi, hi + 1, hi + 7, 32767}).Draw(rt, "max"))
				}
			}
			c.Avail = append(c.Avail, r)
		}
		// APIs the library has never heard of
		for i, n := 0, rapid.IntRange(0, 3).Draw(rt, "unknown"); i < n; i++ {
			k := rapid.SampledFrom([]int16{48, 49, 50, 60, 127, 128, 255, 256, 1000, 32767, -1, -2, -32768}).Draw(rt, "ukey")
			r := vrange{k, rapid.SampledFrom(edge).Draw(rt, "umin"), rapid.SampledFrom(edge).Draw(rt, "umax")}
			at := rapid.IntRange(0, len(c.Avail)).Draw(rt, "uat")
			c.Avail = append(c.Avail[:at:at], append([]vrange{r}, c.Avail[at:]...)...)
		}
		if rapid.IntRange(0, 3).Draw(rt, "isother") == 0 {
			for _, k := range keys {
				lo, hi := ours(k)
				c.Other = append(c.Other, vrange{int16(k), 0, int16(rapid.IntRange(lo, hi).Draw(rt, "omax"))})
			}
			c.When = rapid.IntRange(0, 2).Draw(rt, "when")
		}
		// a broker that is far ahead of the library
		if rapid.IntRange(0, 9).Draw(rt, "ahead") == 0 {
			var ahead []vrange
			for i, n := 0, rapid.SampledFrom([]int{15, 40, 90, 220, 300, 1100}).Draw(rt, "nahead"); i < n; i++ {
				ahead = append(ahead, vrange{int16(48 + i), int16(i % 3), int16(i % 7)})
			}
			at := rapid.SampledFrom([]int{0, 0, len(c.Avail) / 2, len(c.Avail)}).Draw(rt, "aat")
			c.Avail = append(c.Avail[:at:at], append(ahead, c.Avail[at:]...)...)
		}
		called := rapid.Permutation(keys).Draw(rt, "called")
		if len(called) > 14 {
			called = called[:14]
		}
		var l []apiCall
		for _, k := range called {
			name := wire.APIs[k]
			call := apiCall{Key: k, Req: wire.Zero(name + "Request"), Resp: wire.Zero(name + "Response")}
			if k == 0 {
				call.Req.L[field("ProduceRequest", "Acks")].I = 1
			}
			l = append(l, call)
		}
		c.Callers = [][]apiCall{l}
		return c
	}
	var fixed []apiCase
	// two connections to one address
	for when := 0; when <= 2; when++ {
		call := apiCall{Key: 12, Req: wire.Zero("HeartbeatRequest"), Resp: wire.Zero("HeartbeatResponse")}
		fixed = append(fixed, apiCase{Avail: []vrange{{12, 0, 1}}, Other: []vrange{{12, 0, 3}}, When: when, Callers: [][]apiCall{{call}}})
	}
	// each API alone with each maximum version, and each minimum just out of reach
	for _, k := range apiKeys {
		name := wire.APIs[k]
		call := apiCall{Key: k, Req: wire.Zero(name + "Request"), Resp: wire.Zero(name + "Response")}
		if k == 0 {
			call.Req.L[field("ProduceRequest", "Acks")].I = 1
		}
		lo, hi := ours(k)
		for v := lo; v <= hi+2; v++ {
			fixed = append(fixed, apiCase{Avail: []vrange{{int16(k), 0, int16(v)}}, Callers: [][]apiCall{{call}}},
				apiCase{Avail: []vrange{{int16(k), int16(v), int16(hi + 3)}}, Callers: [][]apiCall{{call}}})
		}
	}
	pbt.Main(t, pbt.Check[apiCase]{
		Rule:   "generated advertised tables: 1-48 known APIs in any order with ranges inside, around, disjoint from or inverted relative to the library's, 16-bit extremes, unknown keys in between (up to 1100), now and then another connection to the same address, before or meanwhile, with other ranges advertised; then up to 14 calls; also every API alone with every maximum and every minimum; oracle: connecting fails iff some advertised known range shares no version with the library's, else each request carries min(broker max, library max); non-trivial: a range cuts the library's range, or does not overlap",
		Strata: []pbt.Stratum[apiCase]{{Name: "tables", Gen: gen}},
		Fixed:  fixed,
		Render: renderAPI, Quick: 1500, Deep: 25000, Crumb: true,
		Run: func(c apiCase, ob *pbt.Obs) error {
			probs, _, _, _ := api(t, c, ob)
			for _, r := range c.Avail {
				if _, known := wire.APIs[int(r.Key)]; !known {
					ob.Label("unknown API advertised")
					continue
				}
				_, hi := ours(int(r.Key))
				v, ok := expected(r)
				if !ok {
					ob.NonTrivial()
					ob.Label("range without overlap")
					break
				}
				if int(v) < hi || r.Min > 0 {
					ob.NonTrivial()
				}
			}
			return judge(probs, "connect", "version")
		},
	})
}

func TestC15(t *testing.T) {
	var strata []pbt.Stratum[apiCase]
	for _, k := range apiKeys {
		lo, hi := ours(k)
		for v := lo; v <= hi; v++ {
			k, v := k, v
			strata = append(strata, pbt.Stratum[apiCase]{Name: fmt.Sprintf("%s-v%d", wire.APIs[k], v), Gen: func(rt *rapid.T) apiCase {
				var c apiCase
				r := vrange{int16(k), int16(rapid.IntRange(0, v).Draw(rt, "min")), int16(v)}
				if v == hi {
					r.Max += int16(rapid.IntRange(0, 3).Draw(rt, "beyond"))
				}
				// all other APIs are advertised too, with versions of their own
				for _, x := range apiKeys {
					if x == k {
						c.Avail = append(c.Avail, r)
						continue
					}
					l, h := ours(x)
					c.Avail = append(c.Avail, vrange{int16(x), 0, int16(rapid.IntRange(l, h).Draw(rt, "other"))})
				}
				var l []apiCall
				for i, n := 0, rapid.IntRange(1, 3).Draw(rt, "calls"); i < n; i++ {
					g := wire.GenOpt{MaxStr: 32767, MaxBytes: 70000, MaxArr: 3}
					l = append(l, genCall(rt, k, int16(v), apiOpt{gen: g, acks: true}))
				}
				c.Callers = [][]apiCall{l}
				c.Cuts = rapid.SliceOfN(rapid.SampledFrom([]int{0, 3, 4, 7, 40, 4096}), 0, 2).Draw(rt, "cuts")
				for _, x := range c.Cuts {
					if x > 0 && x < 4096 {
						c.Cuts = append(c.Cuts, 3000)
						break
					}
				}
				return c
			}})
		}
	}
	o := apiOpt{keys: plainKeys, maxCallers: 4, maxCalls: 3, gen: wire.SmallGen, acks: true}
	strata = append(strata, pbt.Stratum[apiCase]{Name: "concurrent", Weight: 150, Gen: func(rt *rapid.T) apiCase { return genAPI(rt, o) }})
	pbt.Main(t, pbt.Check[apiCase]{
		Rule:   "one stratum per (API, version): the broker advertises that version (and others for the other APIs), 1-3 calls of the method with generated requests and generated responses; and 1-4 goroutines calling methods of 1-4 APIs on one broker, interleaved at every statement; oracle: frame = API key, version, correlation id, client id and the library's own encoding of the request at that version; result = the response decoded alone at that version; the caller's request is unchanged; non-trivial: request and response bodies hold a non-zero byte, or the API has none",
		Strata: strata,
		Render: renderAPI, Quick: 12, Deep: 400, Crumb: true,
		Run: func(c apiCase, ob *pbt.Obs) error {
			probs, _, outs, _ := api(t, c, ob)
			for _, l := range outs {
				for _, o := range l {
					if len(bytes.Trim(o.body, "\x00")) > 0 || len(bytes.Trim(o.respBody, "\x00")) > 0 || len(o.body) == 0 {
						ob.NonTrivial()
					}
				}
			}
			return judge(probs, "request", "version", "response", "oneway")
		},
	})
}

func TestC21(t *testing.T) {
	var keys []int
	for _, k := range apiKeys {
		if len(strSites(wire.APIs[k]+"Request", 100, wire.Zero(wire.APIs[k]+"Request"), nil, true)) > 0 || hasStrings(wire.APIs[k]+"Request") {
			keys = append(keys, k)
		}
	}
	o := apiOpt{keys: keys, maxCallers: 3, maxCalls: 4, over: true, gen: wire.SmallGen}
	pbt.Main(t, pbt.Check[apiCase]{
		Rule:   "1-3 goroutines call API methods; about half the requests have one string (any string field, also inside arrays and fields outside the negotiated version) of 32766-140000 bytes; oracle: calls with a string over 32767 bytes in a field of the version fail, the broker sees whole frames of exactly the other calls and all of them get their response; non-trivial: a call that must be rejected next to one that must not",
		Strata: []pbt.Stratum[apiCase]{{Name: "long strings", Gen: func(rt *rapid.T) apiCase { return genAPI(rt, o) }}},
		Render: renderAPI, Quick: 900, Deep: 25000, Crumb: true,
		Run: func(c apiCase, ob *pbt.Obs) error {
			probs, st, outs, sc := api(t, c, ob)
			apiLabels(ob, st, sc)
			rej, ok := 0, 0
			for _, l := range outs {
				for _, x := range l {
					if x.reject {
						rej++
						ob.Label("rejected " + wire.APIs[x.key])
					} else {
						ok++
						if len(x.call.Over) > 0 {
							ob.Label("long string that must be accepted")
						}
					}
				}
			}
			if rej > 0 && ok > 0 {
				ob.NonTrivial()
			}
			return judge(probs, "reject", "request", "frame", "response")
		},
	})
}

func hasStrings(typ string) bool {
	for _, f := range wire.Types[typ].Fields {
		if f.Kind == "string" || f.Kind == "[]string" || f.Kind == "struct" && hasStrings(f.Type) {
			return true
		}
	}
	return false
}

func TestC22APIs(t *testing.T) {
	o := apiOpt{keys: plainKeys, maxCallers: 3, maxCalls: 4, bad: true, gen: wire.SmallGen}
	pbt.Main(t, pbt.Check[apiCase]{
		Rule:   "1-3 goroutines call API methods; about half the response bodies are cut short, carry surplus bytes, have a wrong length or count inside, or are random; oracle: a cut response fails its call, any other outcome equals decoding that body alone, all other calls get their own response; non-trivial: a call with a bad response next to one with a good one",
		Strata: []pbt.Stratum[apiCase]{{Name: "bodies", Gen: func(rt *rapid.T) apiCase { return genAPI(rt, o) }}},
		Render: renderAPI, Quick: 900, Deep: 30000, Crumb: true,
		Run: func(c apiCase, ob *pbt.Obs) error {
			probs, st, outs, sc := api(t, c, ob)
			apiLabels(ob, st, sc)
			bad, ok := 0, 0
			for _, l := range outs {
				for _, x := range l {
					if x.call.Bad > 0 {
						bad++
						ob.Label([]string{"", "body cut short", "surplus bytes", "wrong length inside", "random body"}[x.call.Bad])
					} else {
						ok++
					}
				}
			}
			if bad > 0 && ok > 0 {
				ob.NonTrivial()
			}
			return judge(probs, "malformed", "response")
		},
	})
}

func TestC24(t *testing.T) {
	gen := func(rt *rapid.T, write bool) apiCase {
		keys := []int{0, 0, 0, rapid.SampledFrom(apiKeys[1:]).Draw(rt, "other")}
		c := genAPI(rt, apiOpt{keys: keys[2:], maxCallers: 4, maxCalls: 4, acks: true, gen: wire.GenOpt{MaxStr: 30, MaxBytes: 9000, MaxArr: 2}})
		if write {
			c.Fault = fault{Kind: "write", At: rapid.IntRange(0, 400).Draw(rt, "at"), Partial: rapid.Bool().Draw(rt, "partial")}
		}
		return c
	}
	pbt.Main(t, pbt.Check[apiCase]{
		Rule: "1-4 goroutines mix Produce calls (also runs of 34-270 calls on one connection; acks 0, 1, -1; record sets up to 9000 bytes) with calls of another API, the broker never answers acks 0 and holds back and reorders the rest; a second stratum makes writes fail at a byte; oracle at quiescence: acks 0 has returned, successfully only if its frame reached the broker, all other calls return their own reply; non-trivial: an acks-0 call next to a call that has a reply",
		Strata: []pbt.Stratum[apiCase]{
			{Name: "acks", Gen: func(rt *rapid.T) apiCase { return gen(rt, false) }, Weight: 40},
			{Name: "write failure", Gen: func(rt *rapid.T) apiCase { return gen(rt, true) }, Weight: 20},
			{Name: "many", Gen: func(rt *rapid.T) apiCase {
				// one shape of call repeated, mostly without a reply
				c := gen(rt, false)
				ver, _ := c.version(0)
				acks := field("ProduceRequest", "Acks")
				one := genCall(rt, 0, ver, apiOpt{gen: wire.SmallGen})
				one.Req.L[acks].I = 0
				two := genCall(rt, 0, ver, apiOpt{gen: wire.SmallGen})
				for i, n := 0, rapid.IntRange(1, 2).Draw(rt, "long"); i < n; i++ {
					var l []apiCall
					for k, m := 0, rapid.SampledFrom([]int{34, 70, 140, 270}).Draw(rt, "count"); k < m; k++ {
						l = append(l, one)
					}
					if rapid.Bool().Draw(rt, "mixed") {
						l[rapid.IntRange(0, len(l)-1).Draw(rt, "at")] = two
					}
					l = append(l, two)
					c.Callers = append(c.Callers, l)
				}
				return c
			}},
		},
		Render: renderAPI, Quick: 35, Deep: 1000, Crumb: true,
		Run: func(c apiCase, ob *pbt.Obs) error {
			probs, st, outs, sc := api(t, c, ob)
			apiLabels(ob, st, sc)
			one, other := 0, 0
			for _, l := range outs {
				for _, x := range l {
					if x.oneway {
						one++
					} else {
						other++
					}
				}
			}
			if one > 0 && other > 0 {
				ob.NonTrivial()
			}
			return judge(probs, "oneway", "response", "request")
		},
	})
}
