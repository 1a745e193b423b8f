package connt

import (
	"context"
	"fmt"
	"io"
	"net"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"

	"github.com/savaki/kafka"
	"github.com/savaki/kafka/message"
	"pgregory.net/rapid"

	"verif/harness/pbt"
	"verif/harness/sim"
	"verif/harness/vsched"
	"verif/harness/wire"
)

// node states: what happens to someone who connects
const (
	up       = "up"
	refuse   = "refuse" // dialling fails
	hangup   = "hangup" // accepts, then ends the stream
	silent   = "hangup after request"
	half     = "hangup in the response"
	badBody  = "unreadable versions"
	disjoint = "no common version"
	badFrame = "impossible frame length"
)

var downStates = []string{refuse, hangup, silent, half, badBody, disjoint, badFrame}

type cnode struct {
	ID    int32  `json:"id"`
	Host  string `json:"host"`
	Port  int32  `json:"port"`
	State string `json:"state"`
	// versions of Metadata and FindCoordinator it offers
	Meta, Coord int16
}

func (n cnode) addr() string {
	if strings.Contains(n.Host, ":") {
		return fmt.Sprintf("[%s]:%d", n.Host, n.Port)
	}
	return fmt.Sprintf("%s:%d", n.Host, n.Port)
}

type cpart struct {
	Index  int32 `json:"p"`
	Leader int32 `json:"leader"`
	Err    int16 `json:"err,omitempty"`
}

type ctopic struct {
	Name  string  `json:"name"`
	Err   int16   `json:"err,omitempty"`
	Parts []cpart `json:"parts"`
}

type cop struct {
	Kind  string   `json:"kind"` // metadata, controller, leader, coordinator
	Topic string   `json:"topic,omitempty"`
	Part  int32    `json:"part,omitempty"`
	Group string   `json:"group,omitempty"`
	More  []string `json:"more,omitempty"` // topics of a metadata call
}

type clusterCase struct {
	Nodes      []cnode         `json:"nodes"`
	Bootstrap  []int           `json:"bootstrap"` // nodes by position
	Controller int32           `json:"controller"`
	Topics     []ctopic        `json:"topics"`
	CoordErr   int16           `json:"coorderr,omitempty"`
	CoordNode  int             `json:"coord"` // position, -1: named by an error only
	CoordHost  bool            `json:"coordhost,omitempty"`
	Extra      []cnode         `json:"extra,omitempty"` // coordinator outside the list
	Query      string          `json:"query,omitempty"` // fault while answering lookups: "", hangup, reset, half, garbage
	Which      []int           `json:"which,omitempty"` // the lookups it hits, by number; none: all of them
	Only       bool            `json:"only,omitempty"`  // metadata answers list just the topics asked for
	Deco       uint32          `json:"deco,omitempty"`  // decides the rest of a metadata answer
	Ops        []cop           `json:"ops"`
	Concurrent bool            `json:"concurrent,omitempty"`
	Cuts       []int           `json:"cuts,omitempty"`
	Sched      vsched.Schedule `json:"sched"`
}

type clink struct {
	addr   string
	link   *sim.Link
	dialed int
	greets []string // groups of heartbeats received
}

type cluster struct {
	c     clusterCase
	mu    sync.Mutex
	links []*clink
	dials []string
	probs []problem
	// lookups seen
	metaTopics [][]string
	groups     []string
	cut        int
	lookups    int // metadata answers composed
	queries    int // lookups received
	faults     int // lookups not answered properly
	answers    []*answer
	unblock    []chan struct{}
}

// answer is a metadata response a broker sent.
type answer struct {
	topics []string
	value  message.MetadataResponse
	used   bool
}

func (k *cluster) bad(aspect, f string, a ...interface{}) {
	k.mu.Lock()
	k.probs = append(k.probs, problem{aspect, fmt.Sprintf(f, a...)})
	k.mu.Unlock()
}

func (k *cluster) find(addr string) *cnode {
	for i := range k.c.Nodes {
		if k.c.Nodes[i].addr() == addr {
			return &k.c.Nodes[i]
		}
	}
	return nil
}

func (k *cluster) dial(addr string) (net.Conn, error) {
	vsched.Point(-30)
	k.mu.Lock()
	k.dials = append(k.dials, addr)
	k.mu.Unlock()
	n := k.find(addr)
	if n == nil || n.State == refuse {
		return nil, sim.ErrRefuse
	}
	l := &clink{addr: addr, link: sim.NewLink(addr)}
	k.mu.Lock()
	k.links = append(k.links, l)
	k.mu.Unlock()
	go k.serve(n, l)
	return &sim.Conn{L: l.link}, nil
}

func setField(typ string, v *wire.Val, name string, x wire.Val) {
	v.L[field(typ, name)] = x
}

func num(i int64) wire.Val  { return wire.Val{I: i} }
func str(s string) wire.Val { return wire.Val{B: []byte(s)} }

func typeOf(typ, name string) string { return wire.Types[typ].Fields[field(typ, name)].Type }

// metadata is the cluster's answer, restricted to the topics asked for.
func (k *cluster) metadata(topics []string, all bool) wire.Val {
	const R = "MetadataResponse"
	resp := wire.Zero(R)
	x := k.c.Deco + 1
	next := func() int64 {
		x = x*1664525 + 1013904223
		return int64(x >> 16)
	}
	if k.c.Deco != 0 {
		k.mu.Lock()
		k.lookups++
		setField(R, &resp, "ThrottleTimeMs", num(int64(k.lookups)))
		setField(R, &resp, "ClusterId", str(fmt.Sprintf("cluster-%d", k.lookups)))
		k.mu.Unlock()
	}
	nodes := func() (v wire.Val) {
		for i := next() % 4; i > 0; i-- {
			v.L = append(v.L, num(next()%7))
		}
		return v
	}
	bt := typeOf(R, "Brokers")
	var bs wire.Val
	for _, n := range k.c.Nodes {
		if n.ID < 0 {
			continue // a host outside the cluster
		}
		b := wire.Zero(bt)
		setField(bt, &b, "NodeId", num(int64(n.ID)))
		setField(bt, &b, "Host", str(n.Host))
		setField(bt, &b, "Port", num(int64(n.Port)))
		if k.c.Deco != 0 {
			setField(bt, &b, "Rack", str(fmt.Sprintf("rack-%d", next()%3)))
		}
		bs.L = append(bs.L, b)
	}
	setField(R, &resp, "Brokers", bs)
	setField(R, &resp, "ControllerId", num(int64(k.c.Controller)))
	tt := typeOf(R, "Topics")
	pt := typeOf(tt, "Partitions")
	var ts wire.Val
	add := func(t ctopic) {
		v := wire.Zero(tt)
		setField(tt, &v, "Name", str(t.Name))
		setField(tt, &v, "ErrorCode", num(int64(t.Err)))
		var ps wire.Val
		for _, p := range t.Parts {
			x := wire.Zero(pt)
			setField(pt, &x, "ErrorCode", num(int64(p.Err)))
			setField(pt, &x, "PartitionIndex", num(int64(p.Index)))
			setField(pt, &x, "LeaderId", num(int64(p.Leader)))
			if k.c.Deco != 0 {
				setField(pt, &x, "ReplicaNodes", nodes())
				setField(pt, &x, "IsrNodes", nodes())
			}
			ps.L = append(ps.L, x)
		}
		setField(tt, &v, "Partitions", ps)
		if k.c.Deco != 0 {
			setField(tt, &v, "IsInternal", num(next()%2))
		}
		ts.L = append(ts.L, v)
	}
	if k.c.Only && !all {
		for _, name := range topics {
			t := ctopic{Name: name, Err: 3}
			for _, x := range k.c.Topics {
				if x.Name == name {
					t = x
				}
			}
			add(t)
		}
	} else {
		for _, t := range k.c.Topics {
			// brokers answer for the topics asked for, in an order of their own; some
			// list others too
			add(t)
		}
	}
	setField(R, &resp, "Topics", ts)
	return resp
}

func (k *cluster) coordinator() wire.Val {
	const R = "FindCoordinatorResponse"
	resp := wire.Zero(R)
	setField(R, &resp, "ErrorCode", num(int64(k.c.CoordErr)))
	setField(R, &resp, "NodeId", num(-1))
	setField(R, &resp, "Port", num(-1))
	if k.c.CoordErr == 0 || k.c.CoordHost {
		n := k.c.Nodes[k.c.CoordNode]
		setField(R, &resp, "NodeId", num(int64(n.ID)))
		setField(R, &resp, "Host", str(n.Host))
		setField(R, &resp, "Port", num(int64(n.Port)))
	}
	return resp
}

func (k *cluster) avail(n *cnode) []vrange {
	out := []vrange{{0, 0, 8}, {1, 0, 11}, {3, 0, n.Meta}, {10, 0, n.Coord}, {12, 0, 4}, {18, 0, 2}}
	if n.State == disjoint {
		out = append(out, vrange{9, 100, 120})
	}
	return out
}

func (k *cluster) serve(n *cnode, l *clink) {
	if n.State == hangup {
		l.link.End(io.EOF, false)
		return
	}
	send := func(b []byte) {
		k.mu.Lock()
		cut := k.cut
		k.cut++
		k.mu.Unlock()
		l.link.Send(b, k.c.Cuts, &cut)
	}
	for {
		b, ok, _ := l.link.NextFrame(nil)
		if !ok {
			return
		}
		h, ok := parseHeader(b)
		if !ok {
			k.bad("lookup", "request without a header at %s", l.addr)
			return
		}
		name := wire.APIs[int(h.key)]
		req, _, err := wire.Decode(name+"Request", h.ver, h.body)
		if err != nil {
			k.bad("lookup", "unreadable request %s v%d at %s", name, h.ver, l.addr)
			l.link.End(io.EOF, false)
			return
		}
		switch h.key {
		case 18:
			body := versionsResponse(h.ver, k.avail(n))
			switch n.State {
			case silent:
				l.link.End(io.EOF, false)
				return
			case half:
				f := respond(h.corr, body)
				send(f[:len(f)/2])
				l.link.End(io.EOF, true)
				return
			case badBody:
				body = body[:len(body)-3]
			case badFrame:
				send([]byte{0xff, 0xff, 0xff, 0xf0, 1, 2, 3})
				continue
			}
			send(respond(h.corr, body))
		case 3:
			var topics []string
			tl := req.L[field("MetadataRequest", "Topics")]
			tt := typeOf("MetadataRequest", "Topics")
			for _, t := range tl.L {
				topics = append(topics, string(t.L[field(tt, "Name")].B))
			}
			k.mu.Lock()
			k.metaTopics = append(k.metaTopics, topics)
			k.mu.Unlock()
			if !k.lookupFault(l, send, h.corr) {
				body := wire.Encode("MetadataResponse", h.ver, k.metadata(topics, len(tl.L) == 0), wire.EncOpt{})
				a := &answer{topics: topics}
				if err := a.value.Decode(message.NewDecoder(append([]byte{}, body...), len(body)), h.ver); err == nil {
					k.mu.Lock()
					k.answers = append(k.answers, a)
					k.mu.Unlock()
				}
				send(respond(h.corr, body))
			}
		case 10:
			k.mu.Lock()
			k.groups = append(k.groups, string(req.L[field("FindCoordinatorRequest", "Key")].B))
			k.mu.Unlock()
			if h.ver >= 1 && req.L[field("FindCoordinatorRequest", "KeyType")].I != 0 {
				k.bad("lookup", "coordinator lookup with key type %d for a group", req.L[field("FindCoordinatorRequest", "KeyType")].I)
			}
			if !k.lookupFault(l, send, h.corr) {
				send(respond(h.corr, wire.Encode("FindCoordinatorResponse", h.ver, k.coordinator(), wire.EncOpt{})))
			}
		case 12:
			k.mu.Lock()
			l.greets = append(l.greets, string(req.L[field("HeartbeatRequest", "GroupId")].B))
			k.mu.Unlock()
			send(respond(h.corr, wire.Encode("HeartbeatResponse", h.ver, wire.Zero("HeartbeatResponse"), wire.EncOpt{})))
		default:
			k.bad("lookup", "unexpected request %s at %s", name, l.addr)
			l.link.End(io.EOF, false)
			return
		}
	}
}

func (k *cluster) lookupFault(l *clink, send func([]byte), corr int32) bool {
	k.mu.Lock()
	n := k.queries
	k.queries++
	k.mu.Unlock()
	hit := len(k.c.Which) == 0
	for _, w := range k.c.Which {
		hit = hit || w == n
	}
	if k.c.Query == "" || !hit {
		return false
	}
	k.mu.Lock()
	k.faults++
	k.mu.Unlock()
	switch k.c.Query {
	case "hangup":
		l.link.End(io.EOF, false)
	case "reset":
		l.link.End(sim.ErrReset, false)
	case "half":
		f := respond(corr, make([]byte, 60))
		send(f[:len(f)-20])
		l.link.End(io.EOF, true)
	case "garbage":
		send(respond(corr, []byte{0, 0, 0}))
	}
	return true
}

// want is the address an operation must end up at: a node, or none (an error).
func (c clusterCase) want(o cop) (node *cnode, ok bool) {
	byID := func(id int32) (*cnode, bool) {
		for i := range c.Nodes {
			if c.Nodes[i].ID == id && id >= 0 {
				return &c.Nodes[i], true
			}
		}
		return nil, false
	}
	switch o.Kind {
	case "controller":
		return byID(c.Controller)
	case "coordinator":
		if c.CoordErr != 0 {
			return nil, false
		}
		return &c.Nodes[c.CoordNode], true
	case "leader":
		for _, t := range c.Topics {
			if t.Name == o.Topic {
				for _, p := range t.Parts {
					if p.Index == o.Part {
						return byID(p.Leader)
					}
				}
			}
		}
	}
	return nil, false
}

type opOut struct {
	op       cop
	returned atomic.Bool
	broker   *kafka.Broker
	meta     message.MetadataResponse
	err      error
	greeted  atomic.Bool
	gerr     error
}

func playCluster(t *testing.T, c clusterCase, ob *pbt.Obs) (probs []problem, dials []string) {
	defer func() { kafka.VerifDial = nil }()
	bad := func(aspect, f string, a ...interface{}) {
		probs = append(probs, problem{aspect, fmt.Sprintf(f, a...)})
	}
	k := &cluster{c: c}
	_, err := vsched.Run(t, c.Sched, func(s *vsched.Sched) error {
		kafka.VerifDial = k.dial
		var boot []string
		for _, i := range c.Bootstrap {
			boot = append(boot, c.Nodes[i].addr())
		}
		given := append([]string{}, boot...)
		client := kafka.NewClient(boot)
		settle := func() { s.Settle(500000) }
		run := func(o *opOut) {
			ctx := context.Background()
			switch o.op.Kind {
			case "metadata":
				o.meta, o.err = client.Metadata(ctx, o.op.More...)
			case "controller":
				o.broker, o.err = client.DialController(ctx)
			case "leader":
				o.broker, o.err = client.DialLeader(ctx, o.op.Topic, o.op.Part)
			case "coordinator":
				o.broker, o.err = client.DialGroupCoordinator(ctx, o.op.Group)
			}
			o.returned.Store(true)
		}
		first := -1 // the bootstrap broker that serves the lookup
		for i, b := range c.Bootstrap {
			if c.Nodes[b].State == up {
				first = i
				break
			}
		}
		var outs []*opOut
		var held []*opOut // brokers in the caller's hands
		// matchMeta: what a metadata call returns is a broker's answer to its query
		matchMeta := func(o *opOut) {
			if o.err != nil {
				return
			}
			got := wire.FromGo("MetadataResponse", &o.meta)
			why := ""
			for _, a := range k.answers {
				if a.used || fmt.Sprintf("%q", a.topics) != fmt.Sprintf("%q", o.op.More) {
					continue
				}
				d := wire.Diff("MetadataResponse", got, wire.FromGo("MetadataResponse", &a.value), false)
				if d == "" {
					a.used = true
					return
				}
				why = d
			}
			bad("metadata", "%+v returns metadata that no broker sent in answer to it (%s)", o.op, why)
		}
		check := func(o *opOut, n int) {
			if !o.returned.Load() {
				bad("hang", "operation %+v never returns", o.op)
				return
			}
			node, named := c.want(o.op)
			if first < 0 {
				if o.err == nil {
					bad("bootstrap", "%+v succeeds though no bootstrap broker can be connected to", o.op)
				}
				return
			}
			if c.Query != "" {
				// every lookup failed: there is nothing a success could rest on
				if o.err == nil && len(c.Which) == 0 {
					aspect := "fabricated"
					if o.op.Kind == "metadata" {
						aspect = "metadata"
					}
					bad(aspect, "%+v succeeds though no lookup was answered (%s)", o.op, c.Query)
				}
				if o.err == nil && o.broker != nil {
					held = append(held, o)
				}
				if o.op.Kind == "metadata" {
					matchMeta(o)
				}
				return
			}
			switch {
			case o.op.Kind == "metadata":
				if o.err != nil {
					bad("bootstrap", "metadata fails though a bootstrap broker is reachable: %v", o.err)
					bad("metadata", "metadata fails though a bootstrap broker is reachable: %v", o.err)
				}
				matchMeta(o)
			case named && node.State == up:
				if o.err != nil {
					bad("bootstrap", "%+v fails though bootstrap and target are reachable: %v", o.op, o.err)
					bad("target", "%+v fails though bootstrap and target are reachable: %v", o.op, o.err)
					return
				}
				held = append(held, o)
				// who is at the other end?
				go func() {
					_, o.gerr = o.broker.Heartbeat(message.HeartbeatRequest{GroupId: fmt.Sprintf("greet-%d", n)})
					o.greeted.Store(true)
				}()
				settle()
				if !o.greeted.Load() || o.gerr != nil {
					bad("target", "the connection handed over by %+v does not work: %v", o.op, o.gerr)
					return
				}
				at := ""
				for _, l := range k.links {
					for _, g := range l.greets {
						if g == fmt.Sprintf("greet-%d", n) {
							at = l.addr
						}
					}
				}
				if at != node.addr() {
					bad("target", "%+v is connected to %s, the cluster names %s", o.op, at, node.addr())
				}
			default:
				if o.err == nil {
					bad("target", "%+v succeeds; it must fail (named %v)", o.op, named)
					if o.broker != nil {
						held = append(held, o)
					}
				}
			}
		}
		openLinks := func() (n int) {
			for _, l := range k.links {
				if !l.link.IsClosed() {
					n++
				}
			}
			return n
		}
		if c.Concurrent {
			for _, op := range c.Ops {
				o := &opOut{op: op}
				outs = append(outs, o)
				go run(o)
			}
			settle()
			// exactly the addresses the operations need, in some order
			got := append([]string{}, k.dials...)
			for n, o := range outs {
				check(o, n)
			}
			if c.Query == "" {
				var want []string
				for _, op := range c.Ops {
					for i, a := range given {
						want = append(want, a)
						if i == first {
							break
						}
					}
					if node, named := c.want(op); named && first >= 0 {
						want = append(want, node.addr())
					}
				}
				sort.Strings(got)
				sort.Strings(want)
				if strings.Join(got, " ") != strings.Join(want, " ") {
					bad("target", "concurrent operations %+v dial %v, expected %v", c.Ops, got, want)
				}
			}
		} else {
			for n, op := range c.Ops {
				o := &opOut{op: op}
				outs = append(outs, o)
				before := len(k.dials)
				beforeMeta, beforeGroups := len(k.metaTopics), len(k.groups)
				go run(o)
				settle()
				got := append([]string{}, k.dials[before:]...)
				check(o, n)
				// the dial sequence
				var want []string
				for i, a := range given {
					want = append(want, a)
					if i == first {
						break
					}
				}
				if first >= 0 && c.Query == "" {
					if node, named := c.want(op); named {
						if op.Kind != "metadata" {
							want = append(want, node.addr())
						}
					}
				}
				if c.Query != "" && first >= 0 {
					// what follows a failed lookup is not laid down; nobody but bootstrap
					// brokers may be dialled
					if len(got) < len(want) || strings.Join(got[:len(want)], " ") != strings.Join(want, " ") {
						bad("order", "dialled %v, bootstrap brokers are %v", got, given)
					}
					for _, a := range got {
						if len(c.Which) == 0 && !contains(given, a) {
							bad("fabricated", "%+v dials %s though no lookup was answered (%s)", op, a, c.Query)
						}
					}
				} else if strings.Join(got, " ") != strings.Join(want, " ") {
					roleGot, roleWant := tail(got, given, first), tail(want, given, first)
					if roleGot != roleWant && first >= 0 {
						bad("target", "%+v dials %v, expected %v", op, got, want)
					}
					if bootPart(got, given, first) != bootPart(want, given, first) {
						bad("order", "%+v dials %v, expected %v", op, got, want)
					}
				}
				// what was asked
				if first >= 0 {
					if op.Kind == "leader" || op.Kind == "metadata" {
						want := op.More
						if op.Kind == "leader" {
							want = []string{op.Topic}
						}
						m := k.metaTopics[beforeMeta:]
						if len(m) < 1 || fmt.Sprintf("%q", m[0]) != fmt.Sprintf("%q", want) {
							bad("lookup", "%+v asks for metadata of %q", op, m)
						}
					}
					if op.Kind == "coordinator" {
						g := k.groups[beforeGroups:]
						if len(g) < 1 || g[0] != op.Group {
							bad("lookup", "%+v asks for the coordinator of %q", op, g)
						}
					}
				}
				if n := openLinks(); n != len(held) {
					bad("leak", "after %+v (error: %v) %d connections are open, %d of them handed to the caller", op, o.err, n, len(held))
				}
			}
		}
		if n := openLinks(); n != len(held) {
			bad("leak", "%d connections are open, %d of them handed to the caller", n, len(held))
		}
		for _, o := range held {
			o := o
			go o.broker.Close()
			settle()
		}
		if n := openLinks(); n != 0 {
			bad("leak", "%d connections are open after everything handed over was closed", n)
		}
		for i := range boot {
			if boot[i] != given[i] {
				bad("order", "the caller's list of bootstrap brokers was changed")
			}
		}
		return nil
	})
	if err != nil {
		bad("leak", "%v", err)
	}
	probs = append(probs, k.probs...)
	return probs, k.dials
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// tail is what was dialled after the bootstrap phase, bootPart the phase itself.
func tail(d, given []string, first int) string {
	if first < 0 || len(d) <= first+1 {
		return ""
	}
	return strings.Join(d[first+1:], " ")
}

func bootPart(d, given []string, first int) string {
	n := len(given)
	if first >= 0 {
		n = first + 1
	} else {
		n = len(d)
	}
	if len(d) < n {
		n = len(d)
	}
	return strings.Join(d[:n], " ")
}

// genCluster: wide clusters have long lists of everything.
func genCluster(rt *rapid.T, badBoot, query, wide bool) clusterCase {
	var c clusterCase
	hosts := []string{"kafka-0", "kafka-1.example.com", "localhost", "Kafka-2.Example.COM", "kafka-3.", "under_score", "10.0.0.1", "10.0.0.11", "192.168.1.255", "::1", "fe80::1", "2001:db8::8a2e:370:7334", "2001:db8:0:0:0:0:0:1", "fe80::1%eth0", "::ffff:10.0.0.1", "a"}
	n := rapid.IntRange(1, 6).Draw(rt, "nodes")
	ids := rapid.Permutation([]int32{0, 1, 2, 3, 7, 100, 1001, 2147483647}).Draw(rt, "ids")
	ports := []int32{9092, 9093, 1, 90, 909, 65535, 32768, 19092}
	few := func(label string, usual, most int) int {
		if wide {
			return rapid.IntRange(usual, most).Draw(rt, label+"-wide")
		}
		return max(rapid.IntRange(0, usual).Draw(rt, label), rapid.IntRange(0, usual/2).Draw(rt, label+"-few"))
	}
	if wide {
		n = rapid.IntRange(7, 40).Draw(rt, "nodes-wide")
		step := rapid.SampledFrom([]int{1, 3, 7, 11, 13}).Draw(rt, "step")
		for i := 0; i < 40; i++ {
			ids = append(ids, int32(10+(i*step)%40))
			ports = append(ports, int32(20000+i))
		}
	}
	used := map[string]bool{}
	for i := 0; i < n; i++ {
		for {
			x := cnode{ID: ids[i], State: up,
				Host: rapid.SampledFrom(hosts).Draw(rt, "host"),
				Port: rapid.SampledFrom(ports).Draw(rt, "port"),
				Meta: int16(rapid.IntRange(1, 9).Draw(rt, "meta")), Coord: int16(rapid.IntRange(0, 3).Draw(rt, "coord"))}
			if used[x.addr()] {
				continue
			}
			used[x.addr()] = true
			// hosts that answer lookups without being part of the cluster
			if i > 0 && rapid.IntRange(0, 7).Draw(rt, "outside") == 0 {
				x.ID = -1
			}
			c.Nodes = append(c.Nodes, x)
			break
		}
	}
	nb := rapid.IntRange(1, 4).Draw(rt, "bootstrap")
	if wide {
		nb = rapid.IntRange(1, 30).Draw(rt, "bootstrap-wide")
	}
	if badBoot && rapid.IntRange(0, 14).Draw(rt, "none") == 0 {
		nb = 0
	}
	for i := 0; i < nb; i++ {
		c.Bootstrap = append(c.Bootstrap, rapid.IntRange(0, n-1).Draw(rt, "b"))
	}
	if badBoot {
		share := 5
		if wide {
			share = rapid.IntRange(6, 10).Draw(rt, "share-down")
		}
		for i := range c.Nodes {
			if rapid.IntRange(0, 9).Draw(rt, "isdown") < share {
				c.Nodes[i].State = rapid.SampledFrom(downStates).Draw(rt, "state")
			}
		}
	} else if rapid.IntRange(0, 5).Draw(rt, "targetdown") == 0 {
		i := rapid.IntRange(0, n-1).Draw(rt, "down")
		c.Nodes[i].State = rapid.SampledFrom(downStates).Draw(rt, "state")
	}
	someID := func(label string) int32 {
		switch rapid.IntRange(0, 9).Draw(rt, label) {
		case 0:
			return -1
		case 1:
			return rapid.SampledFrom([]int32{0, 1, 5, 1002, -2}).Draw(rt, label+"-other")
		default:
			return c.Nodes[rapid.IntRange(0, n-1).Draw(rt, label+"-node")].ID
		}
	}
	c.Controller = someID("controller")
	names := rapid.Permutation([]string{"t", "topic", "topic-1", "topic-10", "Topic", "__consumer_offsets", "a.b"}).Draw(rt, "names")
	if wide {
		for i := 0; i < 60; i++ {
			names = append(names, fmt.Sprint("topic-", (i*37)%60+100))
		}
	}
	for i, m := 0, few("topics", 4, 60); i < m; i++ {
		t := ctopic{Name: names[i]}
		if rapid.IntRange(0, 6).Draw(rt, "topicerr") == 0 {
			t.Err = rapid.SampledFrom([]int16{3, 5, 17, 29, -1}).Draw(rt, "err")
		} else {
			idx := rapid.Permutation([]int32{0, 1, 2, 3, 10, 11, 255, 256, 40000, 65536 + 2}).Draw(rt, "idx")
			m := 0
			if wide && i%7 > 0 {
				m = rapid.IntRange(0, 2).Draw(rt, "parts")
			} else {
				m = few("parts", 4, 70)
			}
			for i := len(idx); i < m; i++ {
				idx = append(idx, int32(1000+(i*37)%70))
			}
			for k := 0; k < m; k++ {
				p := cpart{Index: idx[k], Leader: someID("leader")}
				if p.Leader == -1 {
					p.Err = 5
				} else if rapid.IntRange(0, 9).Draw(rt, "replica") == 0 {
					p.Err = 9 // a replica is missing; the leader is there
				}
				t.Parts = append(t.Parts, p)
			}
		}
		c.Topics = append(c.Topics, t)
	}
	c.CoordNode = rapid.IntRange(0, n-1).Draw(rt, "coordinator")
	if rapid.IntRange(0, 4).Draw(rt, "coorderr") == 0 {
		c.CoordErr = rapid.SampledFrom([]int16{15, 14, 16, 30, -1, 24}).Draw(rt, "code")
		c.CoordHost = rapid.Bool().Draw(rt, "coordhost")
	}
	if query && rapid.IntRange(0, 3).Draw(rt, "query") == 0 {
		c.Query = rapid.SampledFrom([]string{"hangup", "reset", "half", "garbage"}).Draw(rt, "fault")
		if rapid.IntRange(0, 2).Draw(rt, "some") == 0 {
			c.Which = []int{rapid.IntRange(0, 2).Draw(rt, "which-lookup")}
		}
	}
	c.Only = rapid.Bool().Draw(rt, "only")
	if rapid.IntRange(0, 3).Draw(rt, "plain") > 0 {
		c.Deco = rapid.Uint32().Draw(rt, "deco")
	}
	nops := rapid.IntRange(1, 3).Draw(rt, "ops")
	if wide {
		nops = rapid.IntRange(1, 12).Draw(rt, "ops-wide")
	}
	for i, m := 0, nops; i < m; i++ {
		o := cop{Kind: rapid.SampledFrom([]string{"leader", "leader", "leader", "controller", "coordinator", "metadata"}).Draw(rt, "op")}
		switch o.Kind {
		case "leader":
			o.Topic = rapid.SampledFrom(names[:5]).Draw(rt, "topic")
			o.Part = rapid.SampledFrom([]int32{0, 1, 2, 3, 10, 11, 256, 65536 + 2, -1}).Draw(rt, "part")
			if len(c.Topics) > 0 && rapid.IntRange(0, 5).Draw(rt, "existing") > 0 {
				t := c.Topics[rapid.IntRange(0, len(c.Topics)-1).Draw(rt, "which")]
				o.Topic = t.Name
				if len(t.Parts) > 0 {
					o.Part = t.Parts[rapid.IntRange(0, len(t.Parts)-1).Draw(rt, "whichpart")].Index
				}
			}
		case "coordinator":
			o.Group = rapid.SampledFrom([]string{"g", "group-1", "", "topic", "gr\x00up"}).Draw(rt, "group")
		case "metadata":
			o.More = rapid.SliceOfN(rapid.SampledFrom(names), 0, 3).Draw(rt, "more")
		}
		c.Ops = append(c.Ops, o)
	}
	c.Concurrent = len(c.Ops) > 1 && rapid.IntRange(0, 3).Draw(rt, "concurrent") == 0
	c.Cuts = rapid.SliceOfN(rapid.SampledFrom([]int{0, 1, 3, 4, 9, 50}), 0, 3).Draw(rt, "cuts")
	c.Sched = vsched.Gen(rt, 600)
	return c
}

func clusterLabels(ob *pbt.Obs, c clusterCase) {
	for _, o := range c.Ops {
		n, ok := c.want(o)
		switch {
		case o.Kind == "metadata":
		case !ok:
			ob.Label(o.Kind + " missing or unavailable")
		case strings.Contains(n.Host, ":"):
			ob.Label(o.Kind + " at an IPv6 address")
		default:
			ob.Label(o.Kind + " at a name or IPv4 address")
		}
	}
	if c.Concurrent {
		ob.Label("concurrent operations")
	}
}

func TestC16(t *testing.T) {
	pbt.Main(t, pbt.Check[clusterCase]{
		Rule: "generated clusters of 1-6 nodes, a few of 7-40 nodes with up to 60 topics, 70 partitions, 30 bootstrap addresses and 12 operations (host names, IPv4, IPv6, scoped; shared hosts with several ports), topics with overlapping names, partitions in any order, leaders absent, unknown or unavailable, coordinator errors, 1-3 sequential or concurrent operations; oracle: the model's role address is dialled after the bootstrap phase and nothing else, the connection handed over reaches that node (checked by a request), missing or unavailable roles, and lookups that are not answered, give an error and no dial of a role; non-trivial: more than one node and a role lookup",
		Strata: []pbt.Stratum[clusterCase]{
			{Name: "clusters", Weight: 20, Gen: func(rt *rapid.T) clusterCase {
				return genCluster(rt, false, rapid.IntRange(0, 2).Draw(rt, "faulty") == 0, false)
			}},
			{Name: "wide", Gen: func(rt *rapid.T) clusterCase { return genCluster(rt, false, false, true) }},
		},
		Quick: 125, Deep: 3000, Crumb: true,
		Run: func(c clusterCase, ob *pbt.Obs) error {
			probs, _ := playCluster(t, c, ob)
			clusterLabels(ob, c)
			if len(c.Nodes) > 1 && (len(c.Ops) > 1 || c.Ops[0].Kind != "metadata") {
				ob.NonTrivial()
			}
			return judge(probs, "target", "lookup", "fabricated")
		},
	})
}

func TestC17(t *testing.T) {
	pbt.Main(t, pbt.Check[clusterCase]{
		Rule: "as for the cluster lookups, with 0-4 bootstrap addresses (a few with up to 30) and nodes that refuse, hang up at once, after the request or inside the response, send an unreadable or impossible versions response, or share no version; also lookups that fail; oracle: addresses are tried in order up to the first usable one, the operation fails iff none (or the role) is usable, and afterwards exactly the connections handed to the caller are open and no goroutine is left once they are closed; non-trivial: some node is unusable",
		Strata: []pbt.Stratum[clusterCase]{
			{Name: "bootstrap", Weight: 20, Gen: func(rt *rapid.T) clusterCase { return genCluster(rt, true, true, false) }},
			{Name: "wide", Gen: func(rt *rapid.T) clusterCase { return genCluster(rt, true, true, true) }},
		},
		Quick: 125, Deep: 3000, Crumb: true,
		Run: func(c clusterCase, ob *pbt.Obs) error {
			probs, _ := playCluster(t, c, ob)
			clusterLabels(ob, c)
			for _, b := range c.Bootstrap {
				if s := c.Nodes[b].State; s != up {
					ob.NonTrivial()
					ob.Label("bootstrap: " + s)
				}
			}
			if len(c.Bootstrap) == 0 {
				ob.Label("no bootstrap address")
			}
			return judge(probs, "bootstrap", "order", "leak", "hang")
		},
	})
}

func TestC25(t *testing.T) {
	gen := func(rt *rapid.T, wide bool) clusterCase {
		c := genCluster(rt, rapid.IntRange(0, 2).Draw(rt, "badboot") == 0, true, wide)
		names := []string{"t", "topic", "topic-1", "topic-10", "Topic", "__consumer_offsets", "a.b", "", "a b", "тема", "\xff\x00", strings.Repeat("n", 249)}
		for i := range c.Ops {
			if rapid.IntRange(0, 4).Draw(rt, "meta") > 0 {
				c.Ops[i] = cop{Kind: "metadata", More: rapid.SliceOfN(rapid.SampledFrom(names), 0, 4).Draw(rt, "more")}
				if rapid.IntRange(0, 19).Draw(rt, "many") == 0 {
					for k, m := 0, rapid.SampledFrom([]int{10, 33, 70, 130, 300}).Draw(rt, "count"); k < m; k++ {
						c.Ops[i].More = append(c.Ops[i].More, fmt.Sprint("n", (k*37)%m))
					}
				}
			}
		}
		c.Concurrent = len(c.Ops) > 1 && rapid.Bool().Draw(rt, "both")
		return c
	}
	pbt.Main(t, pbt.Check[clusterCase]{
		Rule: "generated clusters (nodes with racks, topics with replicas, metadata versions 1-8, answers for the topics asked or for all, each answer numbered; a few with up to 40 nodes and 60 topics), 1-3 (up to 12) sequential or concurrent operations on one client, mostly metadata queries, with failing bootstrap brokers and lookups cut off, reset, unreadable or hung up, all or one of them; oracle: a query that succeeds returns exactly the answer a broker sent to it (each answer matched at most once), succeeds if nothing fails, and fails if no lookup was answered; non-trivial: a metadata query",
		Strata: []pbt.Stratum[clusterCase]{
			{Name: "queries", Weight: 20, Gen: func(rt *rapid.T) clusterCase { return gen(rt, false) }},
			{Name: "wide", Gen: func(rt *rapid.T) clusterCase { return gen(rt, true) }},
		},
		Quick: 125, Deep: 3000, Crumb: true,
		Run: func(c clusterCase, ob *pbt.Obs) error {
			probs, _ := playCluster(t, c, ob)
			for _, o := range c.Ops {
				if o.Kind == "metadata" {
					ob.NonTrivial()
				}
			}
			if c.Query != "" {
				ob.Label("lookup " + c.Query)
			}
			if c.Concurrent {
				ob.Label("concurrent operations")
			}
			return judge(probs, "metadata", "lookup", "fabricated", "hang")
		},
	})
}
