// Package tlst checks connection options on real loopback sockets, with the
// library built exactly as users build it (no hook).
package tlst

import (
	"bytes"
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/big"
	"net"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"github.com/savaki/kafka"
	"github.com/savaki/kafka/message"
	"pgregory.net/rapid"

	"verif/harness/pbt"
	"verif/harness/wire"
)

// ---- certificates

type authority struct {
	cert *x509.Certificate
	key  *ecdsa.PrivateKey
	pool *x509.CertPool
}

var serial int64

func newAuthority(name string) *authority {
	key, _ := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	serial++
	tmpl := &x509.Certificate{SerialNumber: big.NewInt(serial), Subject: pkix.Name{CommonName: name}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(24 * time.Hour), IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign}
	der, err := x509.CreateCertificate(rand.Reader, tmpl, tmpl, &key.PublicKey, key)
	if err != nil {
		panic(err)
	}
	cert, _ := x509.ParseCertificate(der)
	pool := x509.NewCertPool()
	pool.AddCert(cert)
	return &authority{cert, key, pool}
}

func (a *authority) issue(ips []string, names []string, expired bool) tls.Certificate {
	key, _ := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	serial++
	tmpl := &x509.Certificate{SerialNumber: big.NewInt(serial), Subject: pkix.Name{CommonName: "broker"}, NotBefore: time.Now().Add(-2 * time.Hour), NotAfter: time.Now().Add(24 * time.Hour), DNSNames: names,
		ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth, x509.ExtKeyUsageClientAuth}, KeyUsage: x509.KeyUsageDigitalSignature}
	if expired {
		tmpl.NotAfter = time.Now().Add(-time.Hour)
	}
	for _, ip := range ips {
		tmpl.IPAddresses = append(tmpl.IPAddresses, net.ParseIP(ip))
	}
	der, err := x509.CreateCertificate(rand.Reader, tmpl, a.cert, &key.PublicKey, a.key)
	if err != nil {
		panic(err)
	}
	return tls.Certificate{Certificate: [][]byte{der}, PrivateKey: key}
}

var hostIPs = []string{"127.0.0.1", "127.0.0.2", "127.0.0.3"}

var pki struct {
	once     sync.Once
	ca1, ca2 *authority
	certs    map[string]tls.Certificate
	client   tls.Certificate
}

func cert(kind, ip string) tls.Certificate {
	pki.once.Do(func() {
		pki.ca1, pki.ca2 = newAuthority("one"), newAuthority("two")
		pki.certs = map[string]tls.Certificate{}
		for _, ip := range hostIPs {
			pki.certs["good/"+ip] = pki.ca1.issue([]string{ip}, []string{"broker.test"}, false)
			pki.certs["other/"+ip] = pki.ca2.issue([]string{ip}, []string{"broker.test"}, false)
			pki.certs["name/"+ip] = pki.ca1.issue([]string{"10.9.9.9"}, []string{"elsewhere.test"}, false)
			pki.certs["expired/"+ip] = pki.ca1.issue([]string{ip}, []string{"broker.test"}, true)
		}
		pki.client = pki.ca1.issue(nil, []string{"client"}, false)
	})
	return pki.certs[kind+"/"+ip]
}

// ---- cases

// srv is a broker's listener.
type srv struct {
	Kind string `json:"kind"` // plain, good, other, name, expired
	IP   int    `json:"ip"`
	Max  uint16 `json:"max,omitempty"` // highest TLS version offered
	Auth bool   `json:"auth,omitempty"`
	// a plain listener that is sent TLS: 0 closes, 1 answers as a broker would,
	// 2 sends noise
	React int `json:"react,omitempty"`
	Delay int `json:"delay,omitempty"` // ms before the first byte
}

// opt is one option in the list given by the caller.
type opt struct {
	Kind   string `json:"kind"` // dialer, tls
	Nil    bool   `json:"nil,omitempty"`
	Local  int    `json:"local,omitempty"`  // dialer: local address 127.0.0.<n>, 0 none
	Past   bool   `json:"past,omitempty"`   // dialer: deadline in the past
	Roots  int    `json:"roots,omitempty"`  // tls: 1, 2: authority; 0: system
	Name   string `json:"name,omitempty"`   // tls: server name
	Skip   bool   `json:"skip,omitempty"`   // tls: no verification
	Verify string `json:"verify,omitempty"` // tls: callback: peer-accept, peer-refuse, conn-accept, conn-refuse
	Min    uint16 `json:"min,omitempty"`    // tls: lowest version
	Client bool   `json:"client,omitempty"` // tls: client certificate
	Lazy   bool   `json:"lazy,omitempty"`   // tls: the client certificate comes from a callback
}

type tlsCase struct {
	Boot srv    `json:"boot"`
	Role srv    `json:"role"`
	Opts []opt  `json:"opts"`
	Op   string `json:"op"` // connect, broker, metadata, controller, coordinator, leader
}

// settings are those in force after all options.
func (c tlsCase) settings() (dialer *opt, conf *opt) {
	for i := range c.Opts {
		o := &c.Opts[i]
		if o.Kind == "dialer" {
			dialer = o
		} else {
			conf = o
		}
	}
	if dialer != nil && dialer.Nil {
		dialer = nil
	}
	if conf != nil && conf.Nil {
		conf = nil
	}
	return dialer, conf
}

// handshake tells whether connecting to s with conf must succeed: yes, no, or
// "late" (the broker refuses after the client is done; the first exchange fails).
func handshake(s srv, conf *opt) string {
	if s.Kind == "plain" {
		if conf == nil {
			return "yes"
		}
		return "no"
	}
	if conf == nil {
		return "late" // plain text meets a TLS listener
	}
	if s.Max != 0 && conf.Min != 0 && s.Max < conf.Min {
		return "no"
	}
	if strings.HasSuffix(conf.Verify, "refuse") {
		return "no"
	}
	if !conf.Skip {
		if conf.Roots == 0 || s.Kind == "expired" {
			return "no"
		}
		if (s.Kind == "other") != (conf.Roots == 2) {
			return "no"
		}
		name := conf.Name
		if s.Kind == "name" && name != "elsewhere.test" {
			return "no"
		}
		if s.Kind != "name" && name != "" && name != "broker.test" {
			return "no"
		}
	}
	if s.Auth && !conf.Client {
		return "late"
	}
	return "yes"
}

// ---- broker on a socket

type recorder struct {
	net.Conn
	mu  sync.Mutex
	raw []byte // first bytes received
}

func (r *recorder) Read(p []byte) (int, error) {
	n, err := r.Conn.Read(p)
	r.mu.Lock()
	if len(r.raw) < 400 {
		r.raw = append(r.raw, p[:n]...)
	}
	r.mu.Unlock()
	return n, err
}

func (r *recorder) seen() []byte {
	r.mu.Lock()
	defer r.mu.Unlock()
	return append([]byte{}, r.raw...)
}

type listener struct {
	s       srv
	l       net.Listener
	mu      sync.Mutex
	conns   []*recorder
	answers int // requests answered inside the expected transport
	role    *listener
	wg      sync.WaitGroup
}

func listen(s srv) *listener {
	l, err := net.Listen("tcp", hostIPs[s.IP]+":0")
	if err != nil {
		panic(err)
	}
	x := &listener{s: s, l: l}
	x.wg.Add(1)
	go func() {
		defer x.wg.Done()
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			r := &recorder{Conn: c}
			x.mu.Lock()
			x.conns = append(x.conns, r)
			x.mu.Unlock()
			x.wg.Add(1)
			go func() {
				defer x.wg.Done()
				defer c.Close()
				x.serve(r)
			}()
		}
	}()
	return x
}

func (x *listener) addr() string { return x.l.Addr().String() }

func (x *listener) close() {
	x.l.Close()
	x.mu.Lock()
	for _, c := range x.conns {
		c.Conn.Close()
	}
	x.mu.Unlock()
	x.wg.Wait()
}

func (x *listener) accepted() []*recorder {
	x.mu.Lock()
	defer x.mu.Unlock()
	return append([]*recorder{}, x.conns...)
}

func (x *listener) serve(r *recorder) {
	r.SetDeadline(time.Now().Add(60 * time.Second))
	time.Sleep(time.Duration(x.s.Delay) * time.Millisecond)
	var c net.Conn = r
	if x.s.Kind != "plain" {
		conf := &tls.Config{Certificates: []tls.Certificate{cert(x.s.Kind, hostIPs[x.s.IP])}, MaxVersion: x.s.Max}
		if x.s.Auth {
			conf.ClientAuth, conf.ClientCAs = tls.RequireAndVerifyClientCert, pki.ca1.pool
		}
		t := tls.Server(r, conf)
		if err := t.Handshake(); err != nil {
			return
		}
		c = t
	}
	for {
		var h [4]byte
		if _, err := io.ReadFull(c, h[:]); err != nil {
			return
		}
		n := binary.BigEndian.Uint32(h[:])
		if n > 1<<20 {
			// not a request: TLS on a plain listener
			switch x.s.React {
			case 1:
				c.Write(frame(1, versions(0)))
				io.Copy(io.Discard, c)
			case 2:
				c.Write(bytes.Repeat([]byte{0x15, 3, 3, 0}, 20))
			}
			return
		}
		b := make([]byte, n)
		if _, err := io.ReadFull(c, b); err != nil || n < 10 {
			return
		}
		key, ver := binary.BigEndian.Uint16(b), int16(binary.BigEndian.Uint16(b[2:]))
		corr := int32(binary.BigEndian.Uint32(b[4:]))
		var body []byte
		switch key {
		case 18:
			body = versions(ver)
		case 3:
			body = x.metadata(ver)
		case 10:
			body = x.coordinator(ver)
		case 12:
			body = wire.Encode("HeartbeatResponse", ver, wire.Zero("HeartbeatResponse"), wire.EncOpt{})
		default:
			return
		}
		x.mu.Lock()
		x.answers++
		x.mu.Unlock()
		if _, err := c.Write(frame(corr, body)); err != nil {
			return
		}
	}
}

func frame(corr int32, body []byte) []byte {
	b := binary.BigEndian.AppendUint32(nil, uint32(4+len(body)))
	b = binary.BigEndian.AppendUint32(b, uint32(corr))
	return append(b, body...)
}

func set(typ string, v *wire.Val, name string, x wire.Val) {
	for i, f := range wire.Types[typ].Fields {
		if f.Name == name {
			v.L[i] = x
			return
		}
	}
	panic(name)
}

func sub(typ, name string) string {
	for _, f := range wire.Types[typ].Fields {
		if f.Name == name {
			return f.Type
		}
	}
	panic(name)
}

func versions(v int16) []byte {
	const R = "ApiVersionsResponse"
	resp := wire.Zero(R)
	t := sub(R, "ApiKeys")
	var l wire.Val
	for _, r := range [][3]int64{{3, 0, 5}, {10, 0, 2}, {12, 0, 3}, {18, 0, 2}} {
		e := wire.Zero(t)
		set(t, &e, "ApiKey", wire.Val{I: r[0]})
		set(t, &e, "MinVersion", wire.Val{I: r[1]})
		set(t, &e, "MaxVersion", wire.Val{I: r[2]})
		l.L = append(l.L, e)
	}
	set(R, &resp, "ApiKeys", l)
	return wire.Encode(R, v, resp, wire.EncOpt{})
}

func (x *listener) target() (host string, port int64) {
	a := x.role.l.Addr().(*net.TCPAddr)
	return a.IP.String(), int64(a.Port)
}

func (x *listener) metadata(v int16) []byte {
	const R = "MetadataResponse"
	host, port := x.target()
	resp := wire.Zero(R)
	bt := sub(R, "Brokers")
	b := wire.Zero(bt)
	set(bt, &b, "NodeId", wire.Val{I: 5})
	set(bt, &b, "Host", wire.Val{B: []byte(host)})
	set(bt, &b, "Port", wire.Val{I: port})
	set(R, &resp, "Brokers", wire.Val{L: []wire.Val{b}})
	set(R, &resp, "ControllerId", wire.Val{I: 5})
	tt := sub(R, "Topics")
	pt := sub(tt, "Partitions")
	tv, pv := wire.Zero(tt), wire.Zero(pt)
	set(pt, &pv, "LeaderId", wire.Val{I: 5})
	set(tt, &tv, "Name", wire.Val{B: []byte("t")})
	set(tt, &tv, "Partitions", wire.Val{L: []wire.Val{pv}})
	set(R, &resp, "Topics", wire.Val{L: []wire.Val{tv}})
	return wire.Encode(R, v, resp, wire.EncOpt{})
}

func (x *listener) coordinator(v int16) []byte {
	const R = "FindCoordinatorResponse"
	host, port := x.target()
	resp := wire.Zero(R)
	set(R, &resp, "NodeId", wire.Val{I: 5})
	set(R, &resp, "Host", wire.Val{B: []byte(host)})
	set(R, &resp, "Port", wire.Val{I: port})
	return wire.Encode(R, v, resp, wire.EncOpt{})
}

// ---- play

var errRefused = errors.New("refused by the caller's callback")

func play(c tlsCase, ob *pbt.Obs) error {
	cert("good", hostIPs[0])
	boot, role := listen(c.Boot), listen(c.Role)
	boot.role, role.role = role, role
	defer boot.close()
	defer role.close()

	var opts []kafka.Option
	controls := make([]*atomic.Int32, len(c.Opts))
	verified := make([]atomic.Int32, len(c.Opts)) // calls of the verification callbacks
	inForce := -1
	for i, o := range c.Opts {
		if o.Kind == "dialer" {
			inForce = i
		}
	}
	for i, o := range c.Opts {
		controls[i] = &atomic.Int32{}
		n := controls[i]
		switch {
		case o.Kind == "dialer" && o.Nil:
			opts = append(opts, kafka.WithDialer(nil))
		case o.Kind == "dialer":
			d := &net.Dialer{Control: func(string, string, syscall.RawConn) error { n.Add(1); return nil }}
			if o.Local > 0 {
				d.LocalAddr = &net.TCPAddr{IP: net.IPv4(127, 0, 0, byte(o.Local))}
			}
			if o.Past {
				d.Deadline = time.Unix(1, 0)
			}
			opts = append(opts, kafka.WithDialer(d))
		case o.Nil:
			opts = append(opts, kafka.WithTLS(nil))
		default:
			conf := &tls.Config{ServerName: o.Name, InsecureSkipVerify: o.Skip, MinVersion: o.Min}
			switch o.Roots {
			case 1:
				conf.RootCAs = pki.ca1.pool
			case 2:
				conf.RootCAs = pki.ca2.pool
			default:
				conf.RootCAs = x509.NewCertPool()
			}
			var verdict error
			if strings.HasSuffix(o.Verify, "refuse") {
				verdict = errRefused
			}
			called := &verified[i]
			switch o.Verify {
			case "peer-accept", "peer-refuse":
				conf.VerifyPeerCertificate = func([][]byte, [][]*x509.Certificate) error { called.Add(1); return verdict }
			case "conn-accept", "conn-refuse":
				conf.VerifyConnection = func(tls.ConnectionState) error { called.Add(1); return verdict }
			}
			switch {
			case o.Client && o.Lazy:
				conf.GetClientCertificate = func(*tls.CertificateRequestInfo) (*tls.Certificate, error) { return &pki.client, nil }
			case o.Client:
				conf.Certificates = []tls.Certificate{pki.client}
			}
			opts = append(opts, kafka.WithTLS(conf))
		}
	}
	dialer, conf := c.settings()

	type res struct {
		conn   *kafka.Conn
		broker *kafka.Broker
		err    error
	}
	ch := make(chan res, 1)
	go func() {
		var r res
		ctx := context.Background()
		client := kafka.NewClient([]string{boot.addr()}, opts...)
		switch c.Op {
		case "connect":
			r.conn, r.err = kafka.Connect(boot.addr(), opts...)
		case "broker":
			r.broker, r.err = kafka.NewBroker(boot.addr(), opts...)
		case "metadata":
			_, r.err = client.Metadata(ctx)
		case "controller":
			r.broker, r.err = client.DialController(ctx)
		case "leader":
			r.broker, r.err = client.DialLeader(ctx, "t", 0)
		case "coordinator":
			r.broker, r.err = client.DialGroupCoordinator(ctx, "g")
		}
		if r.err == nil && r.broker != nil {
			if _, err := r.broker.Heartbeat(message.HeartbeatRequest{}); err != nil {
				r.err = fmt.Errorf("using the connection: %w", err)
			}
		}
		if r.broker != nil {
			r.broker.Close()
		}
		if r.conn != nil {
			r.conn.Close()
		}
		ch <- r
	}()
	var r res
	select {
	case r = <-ch:
	case <-time.After(40 * time.Second):
		return fmt.Errorf("%s does not return within 40 s", c.Op)
	}

	twoHops := c.Op == "controller" || c.Op == "leader" || c.Op == "coordinator"
	want := handshake(c.Boot, conf)
	if want == "late" && c.Op != "connect" {
		want = "no"
	}
	reachRole := want == "yes" && twoHops
	if reachRole {
		if want = handshake(c.Role, conf); want == "late" {
			want = "no"
		}
	}
	if dialer != nil && dialer.Past {
		want, reachRole = "no", false
	}
	switch {
	case want == "yes" && r.err != nil:
		return fmt.Errorf("%s fails: %v (boot %+v, role %+v)", c.Op, r.err, c.Boot, c.Role)
	case want == "no" && r.err == nil:
		return fmt.Errorf("%s succeeds; it must fail (boot %+v, role %+v, tls %+v)", c.Op, c.Boot, c.Role, conf)
	}
	wantConns := 1
	if reachRole {
		wantConns = 2
	}
	if dialer != nil && dialer.Past {
		wantConns = 0
	}
	// the kernel completes connections before they are accepted here
	for i := 0; i < 1000 && len(boot.accepted())+len(role.accepted()) < wantConns; i++ {
		time.Sleep(10 * time.Millisecond)
	}
	// what was on the wire
	boot.close()
	role.close()
	total := 0
	for _, l := range []*listener{boot, role} {
		for _, conn := range l.accepted() {
			total++
			raw := conn.seen()
			if len(raw) > 0 && conf != nil && raw[0] != 0x16 {
				return fmt.Errorf("with a TLS configuration the broker received % x", head(raw))
			}
			if len(raw) > 0 && conf == nil && raw[0] != 0 {
				return fmt.Errorf("without a TLS configuration the broker received % x", head(raw))
			}
			if conf != nil && (bytes.Contains(raw, []byte("github.com/savaki/kafka")) || bytes.Contains(raw, []byte("savaki"))) {
				return fmt.Errorf("a request travels in plain text")
			}
			if dialer != nil && dialer.Local > 0 {
				if ip := conn.RemoteAddr().(*net.TCPAddr).IP.String(); ip != fmt.Sprintf("127.0.0.%d", dialer.Local) {
					return fmt.Errorf("a connection comes from %s, the dialer says 127.0.0.%d", ip, dialer.Local)
				}
			} else if ip := conn.RemoteAddr().(*net.TCPAddr).IP; dialer == nil && !plausible(ip) {
				return fmt.Errorf("a connection comes from %s though no dialer in force says so", ip)
			}
		}
		if h := handshake(l.s, conf); h == "no" && l.answers > 0 && l.s.Kind != "plain" {
			return fmt.Errorf("requests were sent to a broker that fails verification")
		}
	}
	if dialer != nil && dialer.Past && total > 0 {
		return fmt.Errorf("%d connections were made though the dialer's deadline has passed", total)
	}
	if !(dialer != nil && dialer.Past) {
		if total != wantConns {
			return fmt.Errorf("%s made %d connections, expected %d", c.Op, total, wantConns)
		}
		if dialer != nil {
			if n := int(controls[inForce].Load()); n != wantConns {
				return fmt.Errorf("the dialer in force was used for %d of %d connections", n, wantConns)
			}
		}
	}
	if r.err == nil && want == "yes" && conf != nil && conf.Verify != "" {
		n := 0
		for i := range c.Opts {
			if &c.Opts[i] == conf {
				n = int(verified[i].Load())
			}
		}
		if n < wantConns {
			return fmt.Errorf("the verification callback in force was called for %d of %d connections", n, wantConns)
		}
		ob.Label("verification callback " + conf.Verify)
	}
	for i, n := range controls {
		if i != inForce && n.Load() > 0 {
			return fmt.Errorf("a dialer that was overridden by a later option was used")
		}
	}
	if conf != nil {
		ob.NonTrivial()
		ob.Label("TLS to " + c.Boot.Kind + ": " + want)
	} else {
		ob.Label("plain to " + c.Boot.Kind)
	}
	if reachRole {
		ob.Label("role connection to " + c.Role.Kind + ": " + want)
	}
	if dialer != nil {
		ob.NonTrivial()
		ob.Label("dialer in force")
	}
	if len(c.Opts) > 2 {
		ob.Label("options overridden")
	}
	return nil
}

// plausible: an address the kernel picks by itself for a loopback target.
func plausible(ip net.IP) bool { return ip.IsLoopback() && ip[len(ip)-1] < 7 }

func head(b []byte) []byte {
	if len(b) > 16 {
		return b[:16]
	}
	return b
}

// ---- generation

func genSrv(rt *rapid.T, kinds []string) srv {
	s := srv{Kind: rapid.SampledFrom(kinds).Draw(rt, "kind"), IP: rapid.IntRange(0, 2).Draw(rt, "ip")}
	if s.Kind == "plain" {
		s.React = rapid.IntRange(0, 2).Draw(rt, "react")
	} else {
		if rapid.IntRange(0, 5).Draw(rt, "max") == 0 {
			s.Max = tls.VersionTLS12
		}
		s.Auth = rapid.IntRange(0, 7).Draw(rt, "auth") == 0
	}
	return s
}

func genTLSOpt(rt *rapid.T) opt {
	o := opt{Kind: "tls", Roots: rapid.SampledFrom([]int{1, 1, 1, 1, 2, 0}).Draw(rt, "roots")}
	o.Name = rapid.SampledFrom([]string{"", "", "", "", "", "broker.test", "elsewhere.test", "wrong.test"}).Draw(rt, "name")
	o.Skip = rapid.IntRange(0, 7).Draw(rt, "skip") == 0
	if rapid.IntRange(0, 4).Draw(rt, "verify") == 0 {
		o.Verify = rapid.SampledFrom([]string{"peer-accept", "peer-accept", "conn-accept", "conn-accept", "peer-refuse", "conn-refuse"}).Draw(rt, "callback")
	}
	if rapid.IntRange(0, 5).Draw(rt, "min") == 0 {
		o.Min = tls.VersionTLS13
	}
	o.Client = rapid.IntRange(0, 2).Draw(rt, "client") == 0
	o.Lazy = o.Client && rapid.IntRange(0, 2).Draw(rt, "lazy") == 0
	return o
}

func genTLS(rt *rapid.T) tlsCase {
	kinds := []string{"plain", "good", "good", "good", "other", "name", "expired"}
	c := tlsCase{Op: rapid.SampledFrom([]string{"connect", "broker", "metadata", "controller", "leader", "coordinator"}).Draw(rt, "op")}
	withTLS := rapid.IntRange(0, 9).Draw(rt, "tls") > 2
	for i, n := 0, rapid.IntRange(0, 3).Draw(rt, "opts"); i < n; i++ {
		switch rapid.IntRange(0, 4).Draw(rt, "opt") {
		case 0:
			c.Opts = append(c.Opts, opt{Kind: "dialer", Nil: true})
		case 1, 2:
			c.Opts = append(c.Opts, opt{Kind: "dialer", Local: rapid.SampledFrom([]int{0, 7, 8, 9}).Draw(rt, "local"), Past: rapid.IntRange(0, 9).Draw(rt, "past") == 0})
		case 3:
			c.Opts = append(c.Opts, opt{Kind: "tls", Nil: true})
		default:
			c.Opts = append(c.Opts, genTLSOpt(rt))
		}
	}
	if withTLS {
		at := rapid.IntRange(0, len(c.Opts)).Draw(rt, "at")
		c.Opts = append(c.Opts[:at:at], append([]opt{genTLSOpt(rt)}, c.Opts[at:]...)...)
	}
	_, conf := c.settings()
	if conf == nil && rapid.IntRange(0, 3).Draw(rt, "mostlyplain") > 0 {
		kinds = []string{"plain", "plain", "plain", "plain", "good"}
	}
	c.Boot, c.Role = genSrv(rt, kinds), genSrv(rt, kinds)
	// often a bootstrap broker that is fine, so that the role connection matters
	if conf != nil && rapid.IntRange(0, 1).Draw(rt, "bootfine") == 0 {
		for i := 0; i < 20 && handshake(c.Boot, conf) != "yes"; i++ {
			c.Boot = genSrv(rt, kinds)
		}
	}
	return c
}

func TestC19(t *testing.T) {
	pbt.Main(t, pbt.Check[tlsCase]{
		Rule:   "bootstrap and role brokers on real loopback sockets: plain, or TLS with a trusted, foreign, wrongly named or expired certificate, with version limits or mandatory client certificates; 0-4 options in any order (TLS configurations with and without roots, server name, callbacks, skipped verification; dialers with local address, deadline; nil); connect, broker, metadata, controller, leader, coordinator; oracle: success iff the model of the last options says every handshake on the way is valid, first bytes on each socket are TLS iff a configuration is in force, no request text in clear, nothing answered by an unverified broker, source address and use of the dialer in force on every connection; non-trivial: a TLS configuration or dialer is in force",
		Strata: []pbt.Stratum[tlsCase]{{Name: "options", Gen: genTLS}},
		Quick:  1500, Deep: 40000, Crumb: true,
		Run: play,
	})
}

// stallCase: a listener that accepts and never answers the TLS greeting.
type stallCase struct {
	Ms   int    `json:"timeout_ms"`
	Op   string `json:"op"`
	Slow string `json:"slow,omitempty"` // kind of a server that does answer
	Wait int    `json:"wait_ms,omitempty"`
}

// slow: a broker that takes its time before the handshake, or is left idle after
// it.  The dialer's timeout is one for connecting, and there is no other.
func slow(c stallCase) error {
	delay, idle := 0, c.Wait
	var opts []kafka.Option
	if c.Slow != "plain" {
		opts = append(opts, kafka.WithTLS(&tls.Config{RootCAs: pki.ca1.pool}))
	}
	if c.Ms > 0 {
		opts = append(opts, kafka.WithDialer(&net.Dialer{Timeout: time.Duration(c.Ms) * time.Millisecond}))
	} else {
		delay, idle = c.Wait, 0
	}
	l := listen(srv{Kind: c.Slow, Delay: delay})
	defer l.close()
	l.role = l
	var b *kafka.Broker
	var err error
	switch c.Op {
	case "connect":
		var conn *kafka.Conn
		if conn, err = kafka.Connect(l.addr(), opts...); err == nil {
			conn.Close()
		}
	case "broker":
		b, err = kafka.NewBroker(l.addr(), opts...)
	default:
		b, err = kafka.NewClient([]string{l.addr()}, opts...).DialController(context.Background())
	}
	if err != nil {
		if c.Ms > 0 {
			return nil // the machine may really have been too slow
		}
		return fmt.Errorf("%s fails (%v) though no timeout was asked for and the broker answers after %d ms", c.Op, err, delay)
	}
	if b == nil {
		return nil
	}
	defer b.Close()
	time.Sleep(time.Duration(idle) * time.Millisecond)
	if _, err := b.Heartbeat(message.HeartbeatRequest{}); err != nil {
		return fmt.Errorf("a call %d ms after connecting fails (%v); the dialer's timeout of %d ms is for connecting", idle, err, c.Ms)
	}
	return nil
}

func TestC19Timeout(t *testing.T) {
	pbt.Main(t, pbt.Check[stallCase]{
		Rule: "a listener accepts and never completes the TLS handshake, the dialer has a timeout of 50-400 ms; oracle: connecting fails (within 20 s of real time, far above any scheduling delay); or a broker that answers is slow to begin the handshake without any timeout asked for, or is left idle beyond the dialer's timeout once connected; oracle: connecting and the call succeed; non-trivial: always",
		Strata: []pbt.Stratum[stallCase]{{Name: "stalled handshake", Gen: func(rt *rapid.T) stallCase {
			return stallCase{Ms: rapid.IntRange(50, 400).Draw(rt, "ms"), Op: rapid.SampledFrom([]string{"connect", "broker", "metadata"}).Draw(rt, "op")}
		}}, {Name: "idle or slow broker", Gen: func(rt *rapid.T) stallCase {
			c := stallCase{Op: rapid.SampledFrom([]string{"broker", "controller"}).Draw(rt, "op"), Slow: rapid.SampledFrom([]string{"good", "good", "plain"}).Draw(rt, "kind")}
			if rapid.Bool().Draw(rt, "timeout") {
				c.Ms = rapid.IntRange(300, 700).Draw(rt, "ms")
				c.Wait = c.Ms + 150
				return c
			}
			c.Op = rapid.SampledFrom([]string{"connect", "broker", "controller"}).Draw(rt, "op")
			c.Wait = rapid.IntRange(300, 1500).Draw(rt, "wait")
			return c
		}}},
		Quick: 4, Deep: 40, Crumb: true,
		Run: func(c stallCase, ob *pbt.Obs) error {
			ob.NonTrivial()
			cert("good", hostIPs[0])
			if c.Slow != "" {
				return slow(c)
			}
			l, err := net.Listen("tcp", "127.0.0.1:0")
			if err != nil {
				panic(err)
			}
			defer l.Close()
			go func() {
				for {
					c, err := l.Accept()
					if err != nil {
						return
					}
					defer c.Close()
				}
			}()
			opts := []kafka.Option{kafka.WithTLS(&tls.Config{RootCAs: pki.ca1.pool}), kafka.WithDialer(&net.Dialer{Timeout: time.Duration(c.Ms) * time.Millisecond})}
			ch := make(chan error, 1)
			go func() {
				var err error
				switch c.Op {
				case "connect":
					_, err = kafka.Connect(l.Addr().String(), opts...)
				case "broker":
					_, err = kafka.NewBroker(l.Addr().String(), opts...)
				default:
					_, err = kafka.NewClient([]string{l.Addr().String()}, opts...).Metadata(context.Background())
				}
				ch <- err
			}()
			select {
			case err := <-ch:
				if err == nil {
					return fmt.Errorf("%s succeeds without a TLS handshake", c.Op)
				}
				return nil
			case <-time.After(20 * time.Second):
				return fmt.Errorf("%s ignores the dialer's timeout of %d ms during the TLS handshake", c.Op, c.Ms)
			}
		},
	})
}
