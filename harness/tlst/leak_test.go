package tlst

import (
	"context"
	"crypto/tls"
	"fmt"
	"net"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/savaki/kafka"
	"github.com/savaki/kafka/message"
	"pgregory.net/rapid"

	"verif/harness/pbt"
)

// leakCase: bootstrap brokers on real sockets, some of which cannot be used.
type leakCase struct {
	Boots []srv  `json:"boots"` // kind "refused": nothing listens there
	Role  srv    `json:"role"`
	TLS   *opt   `json:"tls,omitempty"`
	Op    string `json:"op"`
}

// sockets records the sockets that dials create, by inode.
type sockets struct {
	mu     sync.Mutex
	inodes []string
}

func (s *sockets) control(_, _ string, rc syscall.RawConn) error {
	return rc.Control(func(fd uintptr) {
		if l, err := os.Readlink(fmt.Sprintf("/proc/self/fd/%d", fd)); err == nil {
			s.mu.Lock()
			s.inodes = append(s.inodes, l)
			s.mu.Unlock()
		}
	})
}

// open counts those that the process still holds.
func (s *sockets) open() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	mine := map[string]bool{}
	for _, i := range s.inodes {
		mine[i] = true
	}
	n := 0
	es, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		panic(err)
	}
	for _, e := range es {
		if l, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && mine[l] {
			n++
		}
	}
	return n
}

// settles polls until f is true; what is to happen has been set off already.
func settles(f func() bool) bool {
	for i := 0; i < 1500; i++ {
		if f() {
			return true
		}
		time.Sleep(time.Duration(1+i/20) * time.Millisecond)
		if i > 400 {
			break
		}
	}
	return f()
}

// refused reserves a port on which nothing listens.
func refused(ip string) (addr string, release func()) {
	fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
	if err != nil {
		panic(err)
	}
	sa := &syscall.SockaddrInet4{}
	copy(sa.Addr[:], net.ParseIP(ip).To4())
	if err := syscall.Bind(fd, sa); err != nil {
		panic(err)
	}
	got, err := syscall.Getsockname(fd)
	if err != nil {
		panic(err)
	}
	return fmt.Sprintf("%s:%d", ip, got.(*syscall.SockaddrInet4).Port), func() { syscall.Close(fd) }
}

// ours counts goroutines that the library left running.
func ours() int {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	n := 0
	for _, g := range strings.Split(string(buf), "\n\n") {
		if strings.Contains(g, "savaki/kafka") && !strings.Contains(g, "tlst.") {
			n++
		}
	}
	return n
}

func playLeak(c leakCase, ob *pbt.Obs) error {
	cert("good", hostIPs[0])
	// a leaked socket must not be closed by its finalizer
	defer debug.SetGCPercent(debug.SetGCPercent(-1))
	role := listen(c.Role)
	defer role.close()
	var addrs []string
	usable, bad := -1, 0
	for i, b := range c.Boots {
		if b.Kind == "refused" {
			addr, release := refused(hostIPs[b.IP])
			defer release()
			addrs = append(addrs, addr)
			bad++
			continue
		}
		x := listen(b)
		x.role = role
		defer x.close()
		addrs = append(addrs, x.addr())
		if handshake(b, c.TLS) == "yes" {
			if usable < 0 {
				usable = i
			}
		} else {
			bad++
		}
	}
	role.role = role
	var socks sockets
	opts := []kafka.Option{kafka.WithDialer(&net.Dialer{Control: socks.control})}
	if o := c.TLS; o != nil {
		conf := &tls.Config{ServerName: o.Name, InsecureSkipVerify: o.Skip, MinVersion: o.Min, RootCAs: pki.ca1.pool}
		if o.Roots == 2 {
			conf.RootCAs = pki.ca2.pool
		}
		if o.Client {
			conf.Certificates = []tls.Certificate{pki.client}
		}
		opts = append(opts, kafka.WithTLS(conf))
	}
	type res struct {
		broker *kafka.Broker
		err    error
	}
	ch := make(chan res, 1)
	ctx := context.Background()
	client := kafka.NewClient(addrs, opts...)
	go func() {
		var r res
		switch c.Op {
		case "broker":
			r.broker, r.err = kafka.NewBroker(addrs[0], opts...)
		case "metadata":
			_, r.err = client.Metadata(ctx)
		case "controller":
			r.broker, r.err = client.DialController(ctx)
		case "leader":
			r.broker, r.err = client.DialLeader(ctx, "t", 0)
		case "coordinator":
			r.broker, r.err = client.DialGroupCoordinator(ctx, "g")
		}
		ch <- r
	}()
	var r res
	select {
	case r = <-ch:
	case <-time.After(40 * time.Second):
		return fmt.Errorf("%s does not return within 40 s", c.Op)
	}
	want := usable >= 0
	if c.Op == "broker" {
		want = usable == 0
	}
	if want && c.Op != "broker" && c.Op != "metadata" {
		want = handshake(c.Role, c.TLS) == "yes"
	}
	if want != (r.err == nil) {
		return fmt.Errorf("%s: success must be %v, the error is %v", c.Op, want, r.err)
	}
	held := 0
	if r.err == nil && c.Op != "metadata" {
		held = 1
	}
	if !settles(func() bool { return socks.open() == held }) {
		return fmt.Errorf("%s (error: %v) made %d connections and left %d open, expected %d", c.Op, r.err, len(socks.inodes), socks.open(), held)
	}
	if held == 1 {
		if _, err := r.broker.Heartbeat(message.HeartbeatRequest{}); err != nil {
			return fmt.Errorf("using the connection: %v", err)
		}
		r.broker.Close()
		if !settles(func() bool { return socks.open() == 0 }) {
			return fmt.Errorf("%s: %d sockets are open after Close", c.Op, socks.open())
		}
	}
	if !settles(func() bool { return ours() == 0 }) {
		return fmt.Errorf("%s: %d goroutines are left", c.Op, ours())
	}
	if bad > 0 || !want {
		ob.NonTrivial()
	}
	ob.Label(fmt.Sprintf("%s, success %v", c.Op, want))
	return nil
}

func genLeak(rt *rapid.T) leakCase {
	c := leakCase{Op: rapid.SampledFrom([]string{"broker", "metadata", "controller", "leader", "coordinator"}).Draw(rt, "op")}
	kinds := []string{"plain", "plain", "good", "refused"}
	if rapid.IntRange(0, 3).Draw(rt, "tls") > 0 {
		o := genTLSOpt(rt)
		o.Verify = ""
		if o.Roots == 0 {
			o.Roots = 1
		}
		c.TLS = &o
		kinds = []string{"plain", "good", "good", "good", "other", "name", "expired", "refused"}
	}
	for i, n := 0, rapid.IntRange(1, 3).Draw(rt, "boots"); i < n; i++ {
		c.Boots = append(c.Boots, genSrv(rt, kinds))
	}
	c.Role = genSrv(rt, kinds[:len(kinds)-1])
	return c
}

func TestC17Sockets(t *testing.T) {
	pbt.Main(t, pbt.Check[leakCase]{
		Rule:   "1-3 bootstrap brokers and a role broker on real loopback sockets: refusing, plain, or TLS with a usable or unusable certificate; the process's own socket list (by inode, garbage collection off) is read after the operation and after Close; oracle: success iff the first usable broker and the role are usable, only a connection handed over is open, afterwards none and no goroutine; non-trivial: an unusable broker or a failing operation",
		Strata: []pbt.Stratum[leakCase]{{Name: "sockets", Gen: genLeak}},
		Quick:  100, Deep: 10000, Crumb: true,
		Run: playLeak,
	})
}
