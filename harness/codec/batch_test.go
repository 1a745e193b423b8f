package codec

import (
	"bytes"
	"fmt"
	"io"
	"sort"
	"testing"
	"time"

	"github.com/savaki/kafka"
	"github.com/savaki/kafka/message"
	"pgregory.net/rapid"

	"verif/harness/pbt"
	"verif/harness/wire"
)

type hdr struct {
	K []byte `json:"k"`
	V []byte `json:"v"`
}

type rec struct {
	Key     []byte `json:"key"`
	KeyNil  bool   `json:"key_nil"`
	Val     []byte `json:"val"`
	ValNil  bool   `json:"val_nil"`
	Offset  int64  `json:"offset"`
	Ms      int64  `json:"ms"` // timestamp, milliseconds since the epoch
	Ns      int64  `json:"ns"` // extra nanoseconds (0..999999)
	Zone    int    `json:"zone"`
	HdrKind string `json:"hdr_kind"` // none, map, nilmap, list
	Hdrs    []hdr  `json:"hdrs"`
}

type batchCase struct {
	BaseOffset, FirstTimestamp, MaxTimestamp, ProducerId int64
	BatchLength, Epoch, CRC, LastOffsetDelta, BaseSeq    int32
	Attributes, ProducerEpoch                            int16
	Magic                                                int8
	Recs                                                 []rec
	Repeat                                               int // the records are repeated this many times
	Version                                              int16
}

// listHeader is a Header with a fixed order and possibly repeated keys.
type listHeader []hdr

func (l listHeader) Get(key string) (string, bool) {
	for _, h := range l {
		if string(h.K) == key {
			return string(h.V), true
		}
	}
	return "", false
}

func (l listHeader) Range(fn func(key, value string)) {
	for _, h := range l {
		fn(string(h.K), string(h.V))
	}
}

func (r rec) message() kafka.Message {
	t := time.Unix(r.Ms/1000, 0)
	if r.Ms%1000 != 0 || r.Ns != 0 {
		t = t.Add(time.Duration(r.Ms%1000) * time.Millisecond).Add(time.Duration(r.Ns))
	}
	m := kafka.Message{Offset: r.Offset, Timestamp: t.In(time.FixedZone("z", r.Zone)), Topic: "t", Partition: 3}
	if !r.KeyNil {
		m.Key = append([]byte{}, r.Key...)
	}
	if !r.ValNil {
		m.Value = append([]byte{}, r.Val...)
	}
	switch r.HdrKind {
	case "map":
		h := kafka.MapHeader{}
		for _, x := range r.Hdrs {
			h[string(x.K)] = string(x.V)
		}
		m.Header = h
	case "nilmap":
		m.Header = kafka.MapHeader(nil)
	case "list":
		m.Header = listHeader(r.Hdrs)
	}
	return m
}

// headers is what must be on the wire; sorted for map headers.
func (r rec) headers() []hdr {
	switch r.HdrKind {
	case "map":
		mm := map[string][]byte{}
		for _, x := range r.Hdrs {
			mm[string(x.K)] = x.V
		}
		var out []hdr
		for k, v := range mm {
			out = append(out, hdr{[]byte(k), v})
		}
		return sorted(out)
	case "list":
		return r.Hdrs
	}
	return nil
}

func sorted(h []hdr) []hdr {
	sort.Slice(h, func(i, j int) bool { return string(h[i].K) < string(h[j].K) })
	return h
}

func genBatch(rt *rapid.T) batchCase {
	c := batchCase{
		BaseOffset:      rapid.Int64().Draw(rt, "base"),
		MaxTimestamp:    rapid.Int64().Draw(rt, "max"),
		ProducerId:      rapid.Int64().Draw(rt, "pid"),
		BatchLength:     rapid.Int32().Draw(rt, "blen"),
		Epoch:           rapid.Int32().Draw(rt, "epoch"),
		CRC:             rapid.Int32().Draw(rt, "crc"),
		LastOffsetDelta: rapid.Int32().Draw(rt, "lod"),
		BaseSeq:         rapid.Int32().Draw(rt, "seq"),
		Attributes:      rapid.Int16().Draw(rt, "attr"),
		ProducerEpoch:   rapid.Int16().Draw(rt, "pepoch"),
		Magic:           rapid.SampledFrom([]int8{2, 0, 1, 3, -1}).Draw(rt, "magic"),
		Version:         rapid.Int16Range(0, 11).Draw(rt, "version"),
		Repeat:          1,
	}
	first := rapid.OneOf(rapid.Int64Range(1500000000000, 1900000000000), rapid.Int64Range(-5000, 5000), rapid.Just(int64(-62135596800000))).Draw(rt, "first")
	c.FirstTimestamp = first
	if rapid.IntRange(0, 9).Draw(rt, "wild-first") == 9 {
		c.FirstTimestamp = rapid.Int64().Draw(rt, "first64")
	}
	maxText, large := 200, false
	for i, n := 0, rapid.IntRange(0, 5).Draw(rt, "records"); i < n; i++ {
		text := func() []byte {
			b := wire.GenText(rt, max(70000, maxText))
			if len(b) > maxText {
				b = b[:maxText]
			}
			return b
		}
		if rapid.IntRange(0, 9).Draw(rt, "big") == 9 {
			maxText = 70000
			if rapid.IntRange(0, 9).Draw(rt, "mega") == 9 {
				maxText = 3200000
			}
		}
		r := rec{Key: text(), Val: text(), HdrKind: rapid.SampledFrom([]string{"none", "map", "list", "nilmap"}).Draw(rt, "hdrs")}
		if len(r.Key) == 0 {
			r.KeyNil = rapid.Bool().Draw(rt, "keynil")
		}
		if len(r.Val) == 0 {
			r.ValNil = rapid.Bool().Draw(rt, "valnil")
		}
		r.Offset = c.BaseOffset + rapid.OneOf(rapid.Just(int64(i)), rapid.Int64Range(-70, 70), rapid.Int64Range(0, 1<<31), rapid.Int64()).Draw(rt, "off")
		r.Ms = rapid.OneOf(rapid.Map(rapid.Int64Range(-300, 300), func(d int64) int64 { return first + d }),
			rapid.Map(rapid.Int64Range(0, 1<<40), func(d int64) int64 { return first + d }),
			rapid.Just(int64(-62135596800000)), rapid.Int64Range(0, 253402300799000)).Draw(rt, "ms")
		if r.Ms < -62135596800000 {
			r.Ms = -62135596800000
		}
		if r.Ms >= 0 {
			r.Ns = rapid.SampledFrom([]int64{0, 0, 1, 499999, 500000, 999999}).Draw(rt, "ns")
		}
		r.Zone = rapid.SampledFrom([]int{0, 3600, -7 * 3600, 19800}).Draw(rt, "zone")
		maxText = min(maxText, 70000)
		if r.HdrKind == "map" || r.HdrKind == "list" {
			nh := rapid.IntRange(0, 4).Draw(rt, "nh")
			if rapid.IntRange(0, 19).Draw(rt, "many") == 19 {
				nh = rapid.SampledFrom([]int{63, 64, 65, 130}).Draw(rt, "nh2")
			}
			for k := 0; k < nh; k++ {
				h := hdr{K: text(), V: text()}
				if k >= 4 {
					h = hdr{K: append([]byte(fmt.Sprint(k)), r.Hdrs[k%4].K...), V: r.Hdrs[k%4].V}
				}
				r.Hdrs = append(r.Hdrs, h)
			}
		}
		large = large || len(r.Key)+len(r.Val) > 200000
		c.Recs = append(c.Recs, r)
	}
	if rapid.IntRange(0, 19).Draw(rt, "many-records") == 19 {
		c.Repeat = rapid.SampledFrom([]int{2, 20, 64, 130}).Draw(rt, "repeat")
		if large {
			c.Repeat = 2
		}
		if maxText <= 200 && rapid.IntRange(0, 59).Draw(rt, "huge") == 59 {
			c.Repeat *= 300
		}
	}
	return c
}

type cursor struct {
	b   []byte
	off int
	bad bool
}

func (p *cursor) take(n int64) []byte {
	if p.bad || n < 0 || n > int64(len(p.b)-p.off) {
		p.bad = true
		return nil
	}
	p.off += int(n)
	return p.b[p.off-int(n) : p.off]
}

func (p *cursor) num(w int) int64 {
	var u uint64
	for _, c := range p.take(int64(w)) {
		u = u<<8 | uint64(c)
	}
	return int64(u<<(64-8*w)) >> (64 - 8*w)
}

func (p *cursor) vint() int64 {
	o, n, short, open := refRead(p.b[p.off:], "varint")
	if short || open {
		p.bad = true
		return 0
	}
	p.off += n
	return o.I
}

func TestC18(t *testing.T) {
	pbt.Main(t, pbt.Check[batchCase]{
		Rule:   "batches of 0-5 generated records (now and then repeated up to 650), null/empty/large keys and values, no/map/ordered headers, any offsets and millisecond timestamps; the bytes are parsed by an independent magic-2 parser and every field compared, Size compared with the byte count; non-trivial: at least one record",
		Strata: []pbt.Stratum[batchCase]{{Name: "batch", Gen: genBatch}},
		Quick:  30000, Deep: 1000000,
		Render: func(c batchCase) interface{} {
			m := map[string]interface{}{"baseOffset": c.BaseOffset, "firstTimestamp": c.FirstTimestamp, "records": len(c.Recs) * c.Repeat, "version": c.Version}
			for i, r := range c.Recs {
				m[fmt.Sprintf("record%d", i)] = fmt.Sprintf("key nil=%v len=%d, value nil=%v len=%d, offset %d, ms %d, headers %s %d", r.KeyNil, len(r.Key), r.ValNil, len(r.Val), r.Offset, r.Ms, r.HdrKind, len(r.Hdrs))
			}
			return m
		},
		Run: func(c batchCase, ob *pbt.Obs) error {
			var recs []rec
			for i := 0; i < c.Repeat; i++ {
				recs = append(recs, c.Recs...)
			}
			if len(recs) > 0 {
				ob.NonTrivial()
			}
			b := kafka.RecordBatch{BaseOffset: c.BaseOffset, BatchLength: c.BatchLength, PartitionLeaderEpoch: c.Epoch, Magic: c.Magic, CRC: c.CRC,
				Attributes: c.Attributes, LastOffsetDelta: c.LastOffsetDelta, FirstTimestamp: c.FirstTimestamp, MaxTimestamp: c.MaxTimestamp,
				ProducerId: c.ProducerId, ProducerEpoch: c.ProducerEpoch, BaseSequence: c.BaseSeq}
			for _, r := range recs {
				b.Records = append(b.Records, r.message())
				ob.Label("headers " + r.HdrKind)
			}
			var buf bytes.Buffer
			var w io.Writer = &buf
			if (c.BaseOffset+int64(len(recs)))%3 == 0 {
				w = busy{w}
				ob.Label("other encoders in between")
			}
			e := message.NewEncoder(w)
			b.Encode(e, c.Version)
			if err := e.Flush(); err != nil {
				return fmt.Errorf("encoding failed: %v", err)
			}
			raw := buf.Bytes()
			if sz := b.Size(c.Version); int(sz) != len(raw) {
				return fmt.Errorf("Size is %d but %d bytes are encoded", sz, len(raw))
			}
			p := &cursor{b: raw}
			for _, f := range []struct {
				name string
				w    int
				want int64
			}{{"baseOffset", 8, c.BaseOffset}, {"batchLength", 4, int64(c.BatchLength)}, {"partitionLeaderEpoch", 4, int64(c.Epoch)}, {"magic", 1, 2},
				{"crc", 4, int64(c.CRC)}, {"attributes", 2, int64(c.Attributes)}, {"lastOffsetDelta", 4, int64(c.LastOffsetDelta)},
				{"firstTimestamp", 8, c.FirstTimestamp}, {"maxTimestamp", 8, c.MaxTimestamp}, {"producerId", 8, c.ProducerId},
				{"producerEpoch", 2, int64(c.ProducerEpoch)}, {"baseSequence", 4, int64(c.BaseSeq)}, {"record count", 4, int64(len(recs))}} {
				if got := p.num(f.w); got != f.want || p.bad {
					return fmt.Errorf("%s is %d, want %d", f.name, got, f.want)
				}
			}
			for i, r := range recs {
				length := p.vint()
				q := &cursor{b: p.take(length)}
				if p.bad {
					return fmt.Errorf("record %d: invalid length %d", i, length)
				}
				if a := q.num(1); a != 0 {
					return fmt.Errorf("record %d: attributes %d", i, a)
				}
				if got, want := q.vint(), r.Ms-c.FirstTimestamp; got != want {
					return fmt.Errorf("record %d: timestamp delta %d, want %d", i, got, want)
				}
				if got, want := q.vint(), r.Offset-c.BaseOffset; got != want {
					return fmt.Errorf("record %d: offset delta %d, want %d", i, got, want)
				}
				for _, f := range []struct {
					name string
					null bool
					want []byte
				}{{"key", r.KeyNil, r.Key}, {"value", r.ValNil, r.Val}} {
					n := q.vint()
					if f.null != (n == -1) {
						return fmt.Errorf("record %d: %s has length %d, want null=%v", i, f.name, n, f.null)
					}
					if n >= 0 {
						if got := q.take(n); q.bad || !bytes.Equal(got, f.want) {
							return fmt.Errorf("record %d: %s differs", i, f.name)
						}
					}
				}
				nh := q.vint()
				var got []hdr
				for k := int64(0); k < nh && !q.bad; k++ {
					var h hdr
					h.K = q.take(q.vint())
					h.V = q.take(q.vint())
					got = append(got, h)
				}
				if q.bad || nh < 0 {
					return fmt.Errorf("record %d: headers unreadable (count %d)", i, nh)
				}
				if q.off != len(q.b) {
					return fmt.Errorf("record %d: %d bytes left in the record", i, len(q.b)-q.off)
				}
				want := r.headers()
				if r.HdrKind == "map" {
					got = sorted(got)
				}
				if len(got) != len(want) {
					return fmt.Errorf("record %d: %d headers, want %d", i, len(got), len(want))
				}
				for k := range got {
					if !bytes.Equal(got[k].K, want[k].K) || !bytes.Equal(got[k].V, want[k].V) {
						return fmt.Errorf("record %d: header %d is %q=%q, want %q=%q", i, k, got[k].K, got[k].V, want[k].K, want[k].V)
					}
				}
			}
			if p.off != len(raw) {
				return fmt.Errorf("%d bytes after the last record", len(raw)-p.off)
			}
			return nil
		},
	})
}
