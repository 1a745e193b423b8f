package racet

import (
	"bytes"
	"fmt"
	"os"
	"sync"
	"testing"
	"time"

	"github.com/savaki/kafka"
	"github.com/savaki/kafka/message"
	"pgregory.net/rapid"

	"verif/harness/pbt"
	"verif/harness/wire"
)

// codecCase: goroutines that encode, measure and decode, each with encoders and
// decoders of its own; values and wire bytes are their own or shared.
type codecCase struct {
	Jobs   [][]codecJob `json:"jobs"`
	Shared []codecJob   `json:"shared,omitempty"`
}

type codecJob struct {
	Msg     string   `json:"msg,omitempty"`
	V       int16    `json:"v,omitempty"`
	Val     wire.Val `json:"val,omitempty"`
	Key     []byte   `json:"key,omitempty"`
	Offset  int64    `json:"offset,omitempty"`
	Headers int      `json:"headers,omitempty"`
	Prims   []int64  `json:"prims,omitempty"`
}

type job struct {
	codecJob
	m     wire.Message
	enc   []byte
	batch *kafka.RecordBatch
}

func (j codecJob) prepare() job {
	x := job{codecJob: j}
	switch {
	case j.Msg != "":
		x.m = wire.ToGo(j.Msg, j.Val)
		x.enc = wire.Encode(j.Msg, j.V, j.Val, wire.EncOpt{})
	case len(j.Prims) == 0:
		r := kafka.Message{Key: j.Key, Value: j.Key, Offset: j.Offset, Timestamp: time.Unix(j.Offset%1e9, 0)}
		if j.Headers > 0 {
			r.Header = kafka.MapHeader{string(j.Key): "value"}
		}
		x.batch = &kafka.RecordBatch{BaseOffset: j.Offset / 2, Records: []kafka.Message{r, r}}
	}
	return x
}

func (j job) do() error {
	var buf bytes.Buffer
	e := message.NewEncoder(&buf)
	switch {
	case j.m != nil:
		j.m.Encode(e, j.V)
		if err := e.Flush(); err != nil || !bytes.Equal(buf.Bytes(), j.enc) {
			return fmt.Errorf("%s v%d is encoded wrongly beside other encoders (err %v)", j.Msg, j.V, err)
		}
		if n := j.m.Size(j.V); int(n) != len(j.enc) {
			return fmt.Errorf("%s v%d: size %d, want %d", j.Msg, j.V, n, len(j.enc))
		}
		m := wire.New(j.Msg)
		if err := m.Decode(message.NewDecoder(j.enc, len(j.enc)), j.V); err != nil {
			return fmt.Errorf("decoding %s v%d beside other decoders fails: %v", j.Msg, j.V, err)
		}
		if d := wire.Diff(j.Msg, wire.FromGo(j.Msg, m), wire.Mask(j.Msg, j.V, j.Val), true); d != "" {
			return fmt.Errorf("decoding %s v%d beside other decoders: %s", j.Msg, j.V, d)
		}
	case j.batch != nil:
		j.batch.Encode(e, 2)
		if err := e.Flush(); err != nil || int(j.batch.Size(2)) != buf.Len() {
			return fmt.Errorf("a record batch has size %d, %d bytes are encoded (err %v)", j.batch.Size(2), buf.Len(), err)
		}
		if len(j.Key) > 0 && bytes.Count(buf.Bytes(), j.Key) < 4 {
			return fmt.Errorf("a record batch encoded beside others lacks keys or values")
		}
	default:
		for _, v := range j.Prims {
			e.PutVarInt(v)
			e.PutInt64(v)
			e.PutInt16(int16(v))
			e.PutVarBytes(j.Key)
		}
		if err := e.Flush(); err != nil {
			return err
		}
		d := message.NewDecoder(buf.Bytes(), buf.Len())
		for _, v := range j.Prims {
			a, e1 := d.VarInt()
			b, e2 := d.Int64()
			c, e3 := d.Int16()
			f, e4 := d.VarBytes()
			if a != v || b != v || c != int16(v) || !bytes.Equal(f, j.Key) || e1 != nil || e2 != nil || e3 != nil || e4 != nil {
				return fmt.Errorf("beside other encoders and decoders %d, %d, %d and %d bytes are read back as %d, %d, %d and %d bytes", v, v, int16(v), len(j.Key), a, b, c, len(f))
			}
		}
	}
	return nil
}

func TestC23Codec(t *testing.T) {
	if os.Getenv("VERIF_OUT") == "" {
		t.Skip("needs VERIF_OUT and GORACE log_path")
	}
	genJob := func(rt *rapid.T) codecJob {
		var j codecJob
		switch rapid.IntRange(0, 3).Draw(rt, "kind") {
		case 0, 1:
			k := rapid.SampledFrom(apiKeys).Draw(rt, "api")
			j.Msg = wire.APIs[k] + rapid.SampledFrom([]string{"Request", "Response"}).Draw(rt, "side")
			t := wire.Types[j.Msg]
			j.V = int16(rapid.IntRange(t.Lo, t.Hi).Draw(rt, "version"))
			j.Val = wire.Gen(rt, j.Msg, wire.SmallGen)
		case 2:
			j.Key = rapid.SliceOfN(rapid.Byte(), 1, 20).Draw(rt, "key")
			j.Offset = rapid.Int64Range(-1<<40, 1<<40).Draw(rt, "offset")
			j.Headers = rapid.IntRange(0, 1).Draw(rt, "headers")
		default:
			j.Key = rapid.SliceOfN(rapid.Byte(), 0, 20).Draw(rt, "key")
			j.Prims = rapid.SliceOfN(rapid.Int64(), 1, 6).Draw(rt, "prims")
		}
		return j
	}
	pbt.Main(t, pbt.Check[codecCase]{
		Rule: "2-5 goroutines encode, measure and decode messages of any API and version, record batches and primitives, each with encoders and decoders of its own, some values and wire bytes shared; run under the race detector; oracle: no race report, every result as when done alone; non-trivial: always",
		Strata: []pbt.Stratum[codecCase]{{Name: "codec", Gen: func(rt *rapid.T) codecCase {
			var c codecCase
			for i, n := 0, rapid.IntRange(2, 5).Draw(rt, "goroutines"); i < n; i++ {
				var l []codecJob
				for k, m := 0, rapid.IntRange(1, 4).Draw(rt, "jobs"); k < m; k++ {
					l = append(l, genJob(rt))
				}
				c.Jobs = append(c.Jobs, l)
			}
			for k, m := 0, rapid.IntRange(0, 3).Draw(rt, "shared"); k < m; k++ {
				c.Shared = append(c.Shared, genJob(rt))
			}
			return c
		}}},
		Quick: 150, Deep: 6000, Crumb: true,
		Run: func(c codecCase, ob *pbt.Obs) error {
			ob.NonTrivial()
			var shared []job
			for _, j := range c.Shared {
				shared = append(shared, j.prepare())
			}
			var lists [][]job
			for i, l := range c.Jobs {
				var x []job
				for _, j := range l {
					x = append(x, j.prepare())
				}
				// everyone meets the shared ones at another time
				k := i % (len(x) + 1)
				x = append(x[:k:k], append(append([]job{}, shared...), x[k:]...)...)
				lists = append(lists, x)
			}
			return raced(func() error {
				errs := make([]error, len(lists))
				start := make(chan struct{})
				var wg sync.WaitGroup
				for i, l := range lists {
					wg.Add(1)
					go func() {
						defer wg.Done()
						<-start
						for round := 0; round < 3; round++ {
							for _, j := range l {
								if err := j.do(); err != nil && errs[i] == nil {
									errs[i] = err
								}
							}
						}
					}()
				}
				close(start)
				wg.Wait()
				for _, err := range errs {
					if err != nil {
						return err
					}
				}
				return nil
			})
		},
	})
}
