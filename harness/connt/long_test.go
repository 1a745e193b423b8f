package connt

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"sync"
	"testing"
	"time"

	"github.com/savaki/kafka"
	"pgregory.net/rapid"

	"verif/harness/pbt"
	"verif/harness/sim"
)

// longCase: one connection with a long history.  Some calls are answered only
// after all the others; the rest at once.  No schedule is imposed here, the
// number of calls is the point.
type longCase struct {
	Callers int   `json:"callers"`
	Calls   int   `json:"calls"` // per caller
	Early   []int `json:"early"` // calls made first and answered last, with this response length
	Resp    int   `json:"resp"`
}

func genLong(rt *rapid.T) longCase {
	return longCase{
		Callers: rapid.IntRange(1, 4).Draw(rt, "callers"),
		Calls:   rapid.SampledFrom([]int{40, 90, 150, 300, 600, 1100, 2100}).Draw(rt, "calls"),
		Early:   rapid.SliceOfN(rapid.IntRange(0, 50), 1, 4).Draw(rt, "early"),
		Resp:    rapid.IntRange(0, 40).Draw(rt, "resp"),
	}
}

func long(c longCase) (probs []problem) {
	link := sim.NewLink("broker:9092")
	kafka.VerifDial = func(addr string) (net.Conn, error) { return &sim.Conn{L: link}, nil }
	defer func() { kafka.VerifDial = nil }()
	conn, err := kafka.Connect("broker:9092")
	if err != nil {
		return []problem{{"delivery", err.Error()}}
	}
	var mu sync.Mutex
	bad := func(aspect, f string, a ...interface{}) {
		mu.Lock()
		if len(probs) < 10 {
			probs = append(probs, problem{aspect, fmt.Sprintf(f, a...)})
		}
		mu.Unlock()
	}
	early := len(c.Early)
	total := early + c.Callers*c.Calls
	callOf := func(tok int64) rawCall {
		i := int(tok - 1)
		if i < early {
			return rawCall{Req: i % 7, Resp: c.Early[i]}
		}
		return rawCall{Req: i % 7, Resp: c.Resp}
	}
	served := make(chan struct{})
	arrived := make(chan struct{})
	go func() {
		defer close(served)
		var held [][]byte
		ids := map[int32]bool{}
		next := 0
		for n := 0; n < total; n++ {
			b, ok, _ := link.NextFrame(nil)
			if !ok {
				bad("frame", "the stream ended after %d of %d requests", n, total)
				break
			}
			if len(b) < 19 {
				bad("frame", "frame of %d bytes", len(b))
				break
			}
			corr := int32(binary.BigEndian.Uint32(b[4:8]))
			tok := int64(binary.BigEndian.Uint64(b[11:19]))
			if tok < 1 || tok > int64(total) || !bytes.Equal(b[8:], reqBody(tok, callOf(tok))) {
				bad("frame", "frame %d is not the request of any call", n)
				break
			}
			if ids[corr] {
				bad("frame", "request %d carries correlation id %d, which an outstanding request has", n, corr)
			}
			fr := respFrame(corr, tok, callOf(tok))
			if tok <= int64(early) {
				ids[corr] = true
				if held = append(held, fr); len(held) == early {
					close(arrived)
				}
				continue
			}
			link.Send(fr, nil, &next)
		}
		if len(held) < early {
			close(arrived)
		}
		for _, fr := range held {
			link.Send(fr, nil, &next)
		}
		mu.Lock()
		failed := len(probs) > 0
		mu.Unlock()
		if failed {
			link.End(io.EOF, false) // let every call return
		}
	}()
	call := func(i int) {
		o := &outcome{tok: int64(i + 1)}
		o.call = callOf(o.tok)
		doRaw(conn, o)
		if o.err != nil {
			bad("delivery", "call %d failed: %v", o.tok, o.err)
		} else if o.gotTok != o.tok || !bytes.Equal(o.copy, o.call.want(o.tok)) {
			bad("delivery", "call %d of %d got the response of call %d, or altered bytes", o.tok, total, o.gotTok)
		}
	}
	var wg, first sync.WaitGroup
	for i := 0; i < early; i++ {
		i := i
		wg.Add(1)
		first.Add(1)
		go func() {
			defer wg.Done()
			first.Done()
			call(i)
		}()
	}
	first.Wait()
	<-arrived
	for i := 0; i < c.Callers; i++ {
		from := early + i*c.Calls
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := from; j < from+c.Calls; j++ {
				call(j)
			}
		}()
	}
	wg.Wait()
	<-served
	conn.Close()
	mu.Lock()
	defer mu.Unlock()
	return probs
}

func longCheck(aspect string) pbt.Check[longCase] {
	chk := pbt.Check[longCase]{
		Rule:   "1-4 calls left unanswered while up to 8400 (also once 70000; thorough: also once over 2^24) others are made and answered by 1-4 goroutines, then answered; oracle: no request carries the id of an outstanding one, every call gets its own response; non-trivial: always",
		Strata: []pbt.Stratum[longCase]{{Name: "long history", Gen: genLong}},
		Fixed:  []longCase{{Callers: 2, Calls: 35000, Early: []int{3, 5}, Resp: 4}},
		Quick:  6, Deep: 600, Crumb: true,
		Run: func(c longCase, ob *pbt.Obs) error {
			ob.NonTrivial()
			ob.Label(fmt.Sprintf("%d00 calls", c.Callers*c.Calls/100))
			return judge(long(c), aspect)
		},
	}
	if pbt.Thorough() { // more calls than 24 bits can count
		chk.Limit = 900 * time.Second
		chk.Fixed = append(chk.Fixed, longCase{Callers: 4, Calls: 1 << 22, Early: []int{3, 5}, Resp: 4})
	}
	return chk
}

func TestC10Long(t *testing.T) { pbt.Main(t, longCheck("delivery")) }
func TestC12Long(t *testing.T) { pbt.Main(t, longCheck("frame")) }
