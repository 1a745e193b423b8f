package ringt

import (
	"bytes"
	"fmt"
	"sync/atomic"
	"testing"

	"github.com/savaki/kafka/ring"
	"pgregory.net/rapid"

	"verif/harness/pbt"
	"verif/harness/vsched"
)

// ringCase: a writer and a reader with their own lists of transfer lengths.
type ringCase struct {
	Size   int             `json:"size"`
	Writes []int           `json:"writes"`
	Reads  []int           `json:"reads"`
	Slack  int             `json:"slack"` // extra length of the slices passed
	Close  int             `json:"close"` // 0: never; else a third goroutine closes after this many of its own steps
	More   int             `json:"more"`  // transfers each side makes after the close
	Sched  vsched.Schedule `json:"sched"`
}

func content(i int) byte { return byte(i%251) + 1 }

func stream(from, n int) []byte {
	out := make([]byte, n)
	for i := range out {
		out[i] = content(from + i)
	}
	return out
}

func sum(l []int) int {
	n := 0
	for _, x := range l {
		n += x
	}
	return n
}

func genRing(rt *rapid.T, withClose bool) ringCase {
	var c ringCase
	c.Size = rapid.OneOf(rapid.IntRange(2, 9), rapid.SampledFrom([]int{2, 3, 16, 33, 100})).Draw(rt, "size")
	lens := func(label string) []int {
		single := rapid.IntRange(0, 3).Draw(rt, label+"-single") == 0
		n := rapid.IntRange(1, 6).Draw(rt, label)
		var l []int
		for i := 0; i < n; i++ {
			switch {
			case single:
				l = append(l, 1)
			case rapid.IntRange(0, 9).Draw(rt, "edge") == 0:
				l = append(l, rapid.SampledFrom([]int{0, 1, c.Size - 1, c.Size, c.Size + 1, 2 * c.Size, 2*c.Size + 1}).Draw(rt, "len"))
			default:
				l = append(l, rapid.IntRange(0, min(3*c.Size, 40)).Draw(rt, "len"))
			}
		}
		return l
	}
	c.Writes, c.Reads = lens("writes"), lens("reads")
	// keep the totals comparable most of the time
	if d := sum(c.Writes) - sum(c.Reads); d != 0 && rapid.IntRange(0, 3).Draw(rt, "balance") > 0 {
		if d > 0 {
			c.Reads = append(c.Reads, d)
		} else {
			c.Writes = append(c.Writes, -d)
		}
	}
	c.Slack = rapid.IntRange(0, 2).Draw(rt, "slack")
	if withClose {
		c.Close = rapid.IntRange(1, 40).Draw(rt, "close")
		c.More = rapid.IntRange(0, 3).Draw(rt, "more")
	}
	c.Sched = vsched.Gen(rt, 6*(sum(c.Writes)+sum(c.Reads))+20)
	return c
}

// genLarge: transfers long enough to reach whatever is done only every so many
// bytes, on larger buffers and with mostly random schedules.
func genLarge(rt *rapid.T) ringCase {
	var c ringCase
	c.Size = rapid.SampledFrom([]int{2, 5, 17, 64, 65, 96, 127, 128, 129, 200, 255, 256, 257, 300, 600, 1000, 1024, 1025, 4096, 4100, 5000}).Draw(rt, "size")
	most := min(4*c.Size+60, rapid.SampledFrom([]int{70, 140, 300, 300, 600, 1100, 2100}).Draw(rt, "most"))
	lens := func(label string) (l []int) {
		n := rapid.IntRange(1, 4).Draw(rt, label)
		for i := 0; i < n; i++ {
			l = append(l, rapid.OneOf(rapid.IntRange(1, most), rapid.Just(most), rapid.Just(min(c.Size-1, most))).Draw(rt, "len"))
		}
		return l
	}
	c.Writes, c.Reads = lens("writes"), lens("reads")
	if d := sum(c.Writes) - sum(c.Reads); d > 0 {
		c.Reads = append(c.Reads, d)
	} else if d < 0 {
		c.Writes = append(c.Writes, -d)
	}
	c.Sched = vsched.Gen(rt, 6*(sum(c.Writes)+sum(c.Reads))+20)
	if c.Sched.Rand == 0 && rapid.IntRange(0, 2).Draw(rt, "walk") > 0 {
		c.Sched.Rand = rapid.Uint64Range(1, 1<<40).Draw(rt, "rand")
		c.Sched.Density = rapid.SampledFrom([]int{500, 100, 50, 20, 5, 2}).Draw(rt, "density")
	}
	return c
}

type side struct {
	done   atomic.Int64 // completed calls
	bytes  atomic.Int64 // bytes of completed calls
	inCall atomic.Bool
	err    error
}

func run(t *testing.T, c ringCase, ob *pbt.Obs, live bool) error {
	s, err := vsched.Run(t, c.Sched, func(s *vsched.Sched) error {
		rb := ring.New(c.Size)
		var closed atomic.Bool
		var w, r side
		wreq, rreq := make(chan int), make(chan int)
		var wpos, rpos int
		go func() {
			for n := range wreq {
				data := append(stream(wpos, n), bytes.Repeat([]byte{0xee}, c.Slack)...)
				w.inCall.Store(true)
				rb.WriteN(data, n)
				w.inCall.Store(false)
				wpos += n
				w.bytes.Store(int64(wpos))
				w.done.Add(1)
			}
		}()
		var valid int // bytes read so far that are part of the stream
		go func() {
			for n := range rreq {
				data := bytes.Repeat([]byte{0xee}, n+c.Slack)
				r.inCall.Store(true)
				wasClosed := closed.Load()
				got := rb.ReadN(data, n)
				r.inCall.Store(false)
				if r.err == nil {
					switch {
					case got < 0 || got > n:
						r.err = fmt.Errorf("a read of %d bytes reported %d bytes", n, got)
					case got < n && !closed.Load() && !wasClosed:
						r.err = fmt.Errorf("a read of %d bytes returned %d bytes though the buffer was not closed", n, got)
					case !bytes.Equal(data[:got], stream(rpos, got)):
						r.err = fmt.Errorf("bytes %d-%d of the stream were read as %v, want %v", rpos, rpos+got, data[:got], stream(rpos, got))
					case !bytes.Equal(data[n:], bytes.Repeat([]byte{0xee}, c.Slack)):
						r.err = fmt.Errorf("a read of %d bytes wrote beyond them: %v", n, data)
					}
				}
				valid += got
				rpos += got
				r.bytes.Store(int64(rpos))
				r.done.Add(1)
			}
		}()
		feed := func(ch chan int, l []int) chan struct{} {
			done := make(chan struct{})
			go func() {
				defer close(done)
				for _, n := range l {
					ch <- n
				}
			}()
			return done
		}
		feed(wreq, c.Writes)
		feed(rreq, c.Reads)
		if c.Close > 0 {
			go func() {
				for i := 1; i < c.Close; i++ {
					vsched.Point(-1)
				}
				closed.Store(true)
				rb.Close()
			}()
		}
		nw, nr := int64(len(c.Writes)), int64(len(c.Reads))
		settle := func() { s.Settle(2000000) }
		settle()
		if r.err != nil {
			return r.err
		}
		state := func() string {
			return fmt.Sprintf("size %d, writes %v (%d returned), reads %v (%d returned), closed %v", c.Size, c.Writes, w.done.Load(), c.Reads, r.done.Load(), closed.Load())
		}
		if c.Close == 0 {
			W, R := sum(c.Writes), sum(c.Reads)
			if live {
				if r.inCall.Load() && w.inCall.Load() {
					return fmt.Errorf("reader and writer are both blocked: %s", state())
				}
				if W >= R && r.done.Load() != nr {
					return fmt.Errorf("the reader is blocked though enough bytes were written: %s", state())
				}
				if W-R <= c.Size-1 && w.done.Load() != nw {
					return fmt.Errorf("the writer is blocked though there is space: %s", state())
				}
			}
			// balance the totals: everything must then complete
			if W > R {
				ob.Label("drained by a final read")
				feed(rreq, []int{W - R})
				nr++
			} else if R > W {
				ob.Label("filled by a final write")
				feed(wreq, []int{R - W})
				nw++
			}
			settle()
			if r.err != nil {
				return r.err
			}
			if live && (w.done.Load() != nw || r.done.Load() != nr) {
				return fmt.Errorf("totals balance, but not every call returned: %s", state())
			}
			if w.done.Load() == nw && r.done.Load() == nr && rpos != wpos {
				return fmt.Errorf("%d bytes were written, %d read: %s", wpos, rpos, state())
			}
			closed.Store(true)
			go rb.Close()
			settle()
		} else {
			if live && (w.done.Load() != nw || r.done.Load() != nr) {
				return fmt.Errorf("the buffer was closed, but not every call returned: %s", state())
			}
			if live {
				for i := 0; i < c.More; i++ {
					feed(rreq, []int{1 + i*c.Size})
					feed(wreq, []int{1 + i*c.Size})
					settle()
					nw++
					nr++
				}
				if w.done.Load() != nw || r.done.Load() != nr {
					return fmt.Errorf("calls made after the close do not return: %s", state())
				}
			}
			if r.err != nil {
				return r.err
			}
		}
		if w.done.Load() == nw && r.done.Load() == nr {
			close(wreq)
			close(rreq)
			settle()
		} else if !live {
			// someone is stuck: that is for the liveness property to report
			ob.Label("stuck (not judged here)")
			return errStuck
		}
		return nil
	})
	if err != nil && !live && (err == errStuck || bytes.Contains([]byte(err.Error()), []byte("remain blocked"))) {
		return nil
	}
	if s.Switch > 0 {
		ob.NonTrivial()
	}
	switch {
	case s.Switch == 0:
		ob.Label("preemptions 0")
	case s.Switch <= 4:
		ob.Label("preemptions 1-4")
	default:
		ob.Label("preemptions >4")
	}
	if sum(c.Writes) >= c.Size {
		ob.Label("wraps around")
	}
	return err
}

var errStuck = fmt.Errorf("stuck")

func render(c ringCase) interface{} {
	return map[string]interface{}{"size": c.Size, "writes": c.Writes, "reads": c.Reads, "close_after": c.Close, "schedule": c.Sched}
}

func TestC08(t *testing.T) {
	pbt.Main(t, pbt.Check[ringCase]{
		Rule: "ring size 2-9 (also 16, 33, 100), lists of write and read lengths 0-3x the size, with and without a close, generated schedule with a choice before every statement of the ring; oracle: the bytes read are exactly the prefix of the bytes written (stale bytes never equal expected ones), slices beyond n untouched; non-trivial: at least one preemption happened",
		Strata: []pbt.Stratum[ringCase]{
			{Name: "open", Weight: 3, Gen: func(rt *rapid.T) ringCase { return genRing(rt, false) }},
			{Name: "close", Gen: func(rt *rapid.T) ringCase { return genRing(rt, true) }},
		},
		Render: render, Quick: 3000, Deep: 150000, Crumb: true,
		Run: func(c ringCase, o *pbt.Obs) error { return run(t, c, o, false) },
	})
}

func TestC09(t *testing.T) {
	pbt.Main(t, pbt.Check[ringCase]{
		Rule: "as for the stream property; oracle: when nothing can run any more, a reader is blocked only if too few bytes were written, a writer only if there is no space, never both; after balancing the totals every call has returned; after a close every blocked and later call returns; non-trivial: at least one preemption happened",
		Strata: []pbt.Stratum[ringCase]{
			{Name: "open", Weight: 3, Gen: func(rt *rapid.T) ringCase { return genRing(rt, false) }},
			{Name: "close", Weight: 2, Gen: func(rt *rapid.T) ringCase { return genRing(rt, true) }},
		},
		Render: render, Quick: 2500, Deep: 150000, Crumb: true,
		Run: func(c ringCase, o *pbt.Obs) error { return run(t, c, o, true) },
	})
}

func large(t *testing.T, live bool) pbt.Check[ringCase] {
	return pbt.Check[ringCase]{
		Rule:   "ring sizes up to 5000, transfers of up to 2100 bytes in balanced totals, mostly random schedules; oracle and non-trivial as for small transfers",
		Strata: []pbt.Stratum[ringCase]{{Name: "large", Gen: genLarge}},
		Render: render, Quick: 100, Deep: 8000, Crumb: true,
		Run: func(c ringCase, o *pbt.Obs) error { return run(t, c, o, live) },
	}
}

func TestC08Large(t *testing.T) { pbt.Main(t, large(t, false)) }
func TestC09Large(t *testing.T) { pbt.Main(t, large(t, true)) }
