package codec

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"math"
	"runtime"
	"testing"
	"time"

	"github.com/savaki/kafka"
	"github.com/savaki/kafka/message"
	"pgregory.net/rapid"

	"verif/harness/pbt"
	"verif/harness/wire"
)

// msgCase is one message value at one version.
type msgCase struct {
	Msg   string   `json:"msg"`
	V     int16    `json:"v"`
	Val   wire.Val `json:"val"`
	Nulls bool     `json:"nulls,omitempty"`
	Tail  []byte   `json:"tail,omitempty"`
}

func renderMsg(c msgCase) interface{} {
	return map[string]interface{}{"message": c.Msg, "version": c.V, "nulls_on_wire": c.Nulls, "tail": fmt.Sprintf("%x", c.Tail), "fields": wire.Render(c.Msg, c.V, c.Val)}
}

// pairStrata makes one stratum per (message, version), so every pair gets cases.
func pairStrata(o wire.GenOpt, tail bool) []pbt.Stratum[msgCase] {
	var out []pbt.Stratum[msgCase]
	for _, name := range wire.Top {
		t := wire.Types[name]
		for v := t.Lo; v <= t.Hi; v++ {
			name, v := name, int16(v)
			out = append(out, pbt.Stratum[msgCase]{
				Name: fmt.Sprintf("%s-v%d", name, v),
				Gen: func(rt *rapid.T) msgCase {
					c := msgCase{Msg: name, V: v, Val: wire.Gen(rt, name, o)}
					if tail {
						c.Nulls = rapid.Bool().Draw(rt, "nulls")
						c.Tail = rapid.SliceOfN(rapid.Byte(), 0, 9).Draw(rt, "tail")
					}
					return c
				},
			})
		}
	}
	return out
}

func classify(c msgCase, enc []byte, o *pbt.Obs) {
	nz := false
	for _, b := range enc {
		if b != 0 {
			nz = true
		}
	}
	if nz || len(wire.Types[c.Msg].Fields) == 0 {
		o.NonTrivial()
	}
	switch {
	case len(enc) == 0:
		o.Label("len 0")
	case len(enc) < 16:
		o.Label("len <16")
	case len(enc) < 256:
		o.Label("len <256")
	case len(enc) < 4096:
		o.Label("len <4096")
	default:
		o.Label("len >=4096")
	}
	for _, f := range wire.Types[c.Msg].Fields {
		if !f.In(c.V) {
			o.Label("has fields outside the version")
			break
		}
	}
}

func encode(c msgCase) ([]byte, error) {
	var buf bytes.Buffer
	e := message.NewEncoder(&buf)
	wire.ToGo(c.Msg, c.Val).Encode(e, c.V)
	err := e.Flush()
	return buf.Bytes(), err
}

// busy is a target that is slow to take what it is given: meanwhile other
// encoders and decoders are used.
type busy struct{ w io.Writer }

var filler = kafka.RecordBatch{BaseOffset: 0x5a5a5a5a5a5a, FirstTimestamp: -1, Records: []kafka.Message{{Key: []byte("busy"), Value: []byte{0x5a, 0x5a}, Offset: -1 << 40, Timestamp: time.Unix(0x5a5a5a5a, 0), Header: kafka.MapHeader{"busy": "busy"}}}}

func (b busy) Write(p []byte) (int, error) {
	e := message.NewEncoder(io.Discard)
	e.PutInt64(0x5a5a5a5a5a5a5a5a)
	e.PutInt32(0x5a5a5a5a)
	e.PutInt16(0x5a5a)
	e.PutInt8(0x5a)
	e.PutBool(true)
	e.PutVarInt(-0x5a5a5a5a5a5a)
	e.PutArrayLength(0x5a5a)
	e.PutString("busy")
	text := "busy"
	e.PutNullableString(&text)
	e.PutBytes([]byte{0x5a, 0x5a, 0x5a})
	e.PutVarBytes([]byte{0x5a, 0x5a, 0x5a})
	e.PutInt32Array([]int32{0x5a5a5a5a, -1})
	e.PutInt64Array([]int64{0x5a5a5a5a5a5a5a5a, -1})
	e.PutStringArray([]string{"busy", "busy"})
	if len(p)%4 == 1 {
		filler.Encode(e, 2)
		filler.Size(2)
	}
	e.Flush()
	d := message.NewDecoder([]byte{0x5a, 0x5a, 0, 2, 0x5a, 0x5a, 0x5a, 0x5a}, 8)
	d.Int16()
	d.String()
	d.Int16()
	return b.w.Write(p)
}

func firstDiff(a, b []byte) string {
	n := 0
	for n < len(a) && n < len(b) && a[n] == b[n] {
		n++
	}
	at := func(x []byte) string {
		end := n + 12
		if end > len(x) {
			end = len(x)
		}
		return fmt.Sprintf("% x", x[n:end])
	}
	return fmt.Sprintf("first difference at byte %d of %d/%d: got %s want %s", n, len(a), len(b), at(a), at(b))
}

func TestC01(t *testing.T) {
	pbt.Main(t, pbt.Check[msgCase]{
		Rule:   "one stratum per (message type, declared version); every field of the value is generated (also those outside the version); the library's bytes are compared with the reference encoder; non-trivial: the encoding holds a non-zero byte",
		Strata: pairStrata(wire.DefaultGen, false),
		Render: func(c msgCase) interface{} { return renderMsg(c) },
		Quick:  240, Deep: 6000,
		Run: func(c msgCase, o *pbt.Obs) error {
			want := wire.Encode(c.Msg, c.V, c.Val, wire.EncOpt{})
			classify(c, want, o)
			got, err := encode(c)
			if err != nil {
				return fmt.Errorf("%s v%d: encoding failed: %v", c.Msg, c.V, err)
			}
			if !bytes.Equal(got, want) {
				return fmt.Errorf("%s v%d: wire bytes differ: %s", c.Msg, c.V, firstDiff(got, want))
			}
			// encoding must not change the value, and must not depend on what the
			// encoder wrote before or on buffering
			m := wire.ToGo(c.Msg, c.Val)
			var buf bytes.Buffer
			bw := bufio.NewWriterSize(&buf, 16)
			e := message.NewEncoder(bw)
			m.Encode(e, c.V)
			m.Encode(e, c.V)
			if err := e.Flush(); err != nil {
				return fmt.Errorf("%s v%d: buffered encoding failed: %v", c.Msg, c.V, err)
			}
			if !bytes.Equal(buf.Bytes(), append(append([]byte{}, want...), want...)) {
				return fmt.Errorf("%s v%d: encoding twice through one buffered encoder differs from encoding once", c.Msg, c.V)
			}
			if len(want)%3 == 0 {
				buf.Reset()
				e := message.NewEncoder(busy{&buf})
				m.Encode(e, c.V)
				if err := e.Flush(); err != nil || !bytes.Equal(buf.Bytes(), want) {
					return fmt.Errorf("%s v%d: wire bytes differ (err %v) when other encoders are used while the target is written: %s", c.Msg, c.V, err, firstDiff(buf.Bytes(), want))
				}
			}
			return nil
		},
	})
}

func TestC02(t *testing.T) {
	pbt.Main(t, pbt.Check[msgCase]{
		Rule:   "one stratum per (message type, declared version); reference bytes of a generated value (nulls as empty or as -1) followed by 0-9 stray bytes are decoded and compared field by field, then the library's own encoding is decoded; non-trivial: the encoding holds a non-zero byte",
		Strata: pairStrata(wire.DefaultGen, true),
		Render: func(c msgCase) interface{} { return renderMsg(c) },
		Quick:  240, Deep: 6000,
		Run: func(c msgCase, o *pbt.Obs) error {
			ref := wire.Encode(c.Msg, c.V, c.Val, wire.EncOpt{Nulls: c.Nulls})
			classify(c, ref, o)
			if c.Nulls {
				o.Label("nulls on the wire")
			}
			if err := decodeAndCompare(c, ref, "reference bytes"); err != nil {
				return err
			}
			lib, err := encode(c)
			if err != nil {
				return fmt.Errorf("%s v%d: encoding failed: %v", c.Msg, c.V, err)
			}
			return decodeAndCompare(c, lib, "own encoding")
		},
	})
}

func decodeAndCompare(c msgCase, enc []byte, what string) error {
	raw := append(append([]byte{}, enc...), c.Tail...)
	keep := append([]byte{}, raw...)
	d := message.NewDecoder(raw, len(raw))
	m := wire.New(c.Msg)
	if err := m.Decode(d, c.V); err != nil {
		return fmt.Errorf("%s v%d: decoding %s failed: %v", c.Msg, c.V, what, err)
	}
	want := wire.Mask(c.Msg, c.V, c.Val)
	if diff := wire.Diff(c.Msg, wire.FromGo(c.Msg, m), want, true); diff != "" {
		return fmt.Errorf("%s v%d: decoding %s: %s", c.Msg, c.V, what, diff)
	}
	if !bytes.Equal(raw, keep) {
		return fmt.Errorf("%s v%d: decoding changed the input", c.Msg, c.V)
	}
	for i, b := range c.Tail {
		x, err := d.Int8()
		if err != nil || byte(x) != b {
			return fmt.Errorf("%s v%d: decoding %s: byte %d after the message reads %v (%v), want %#x: wrong number of bytes consumed", c.Msg, c.V, what, i, x, err, b)
		}
	}
	if x, err := d.Int8(); !message.IsInsufficientDataError(err) {
		return fmt.Errorf("%s v%d: decoding %s left bytes unread (next is %v, err %v)", c.Msg, c.V, what, x, err)
	}
	return nil
}

func TestC03(t *testing.T) {
	pbt.Main(t, pbt.Check[msgCase]{
		Rule:   "one stratum per (message type, declared version); Size compared with the number of bytes Encode writes; non-trivial: the encoding holds a non-zero byte",
		Strata: pairStrata(wire.DefaultGen, false),
		Render: func(c msgCase) interface{} { return renderMsg(c) },
		Quick:  240, Deep: 6000,
		Run: func(c msgCase, o *pbt.Obs) error {
			got, err := encode(c)
			if err != nil {
				return fmt.Errorf("%s v%d: encoding failed: %v", c.Msg, c.V, err)
			}
			classify(c, got, o)
			if sz := wire.ToGo(c.Msg, c.Val).Size(c.V); int(sz) != len(got) {
				return fmt.Errorf("%s v%d: Size is %d but %d bytes are encoded", c.Msg, c.V, sz, len(got))
			}
			return nil
		},
	})
}

// rawCase is arbitrary input for a decoder; at each offset in Huge a 4-byte
// array count is replaced, in turn, by ever larger counts.
type rawCase struct {
	Msg  string `json:"msg"`
	V    int16  `json:"v"`
	Raw  []byte `json:"raw"`
	Huge []int  `json:"huge,omitempty"`
	Kind string `json:"kind"`
}

func putBE(b []byte, w int, v int64) {
	for i := w - 1; i >= 0; i-- {
		b[i] = byte(v)
		v >>= 8
	}
}

func genRaw(rt *rapid.T, name string, v int16) rawCase {
	c := rawCase{Msg: name, V: v}
	mode := rapid.IntRange(0, 9).Draw(rt, "mode")
	if mode == 0 {
		c.Kind = "random bytes"
		c.Raw = rapid.SliceOfN(rapid.Byte(), 0, 200).Draw(rt, "raw")
		return c
	}
	if mode == 1 {
		c.Kind = "random small words"
		for i, n := 0, rapid.IntRange(0, 60).Draw(rt, "words"); i < n; i++ {
			c.Raw = append(c.Raw, 0, byte(rapid.IntRange(0, 3).Draw(rt, "w")))
		}
		return c
	}
	enc := wire.Encode(name, v, wire.Gen(rt, name, wire.SmallGen), wire.EncOpt{Nulls: true})
	sites := wire.Sites(name, v, enc)
	c.Raw = append([]byte{}, enc...)
	if mode <= 6 && len(sites) > 0 {
		c.Kind = "hostile length"
		for k, n := 0, rapid.IntRange(1, 2).Draw(rt, "nsites"); k < n; k++ {
			s := rapid.SampledFrom(sites).Draw(rt, "site")
			if s.Width == 4 && rapid.IntRange(0, 2).Draw(rt, "huge") == 0 {
				c.Huge = append(c.Huge, s.Off)
				continue
			}
			rest := int64(len(enc) - s.Off - s.Width)
			choices := []int64{-1, -2, -3, -128, math.MinInt16, math.MaxInt16, rest, rest + 1, rest - 1, 0, 1, int64(rapid.Int16().Draw(rt, "any"))}
			if s.Width == 4 {
				choices = append(choices, math.MinInt32, 1<<16, 1<<20, rest/4+1)
			}
			putBE(c.Raw[s.Off:], s.Width, rapid.SampledFrom(choices).Draw(rt, "len"))
		}
	} else if mode <= 8 {
		c.Kind = "byte edits"
		for k, n := 0, rapid.IntRange(1, 4).Draw(rt, "edits"); k < n; k++ {
			p := rapid.IntRange(0, len(c.Raw)).Draw(rt, "pos")
			switch rapid.IntRange(0, 2).Draw(rt, "edit") {
			case 0:
				if p < len(c.Raw) {
					c.Raw[p] = rapid.Byte().Draw(rt, "b")
				}
			case 1:
				if p < len(c.Raw) {
					c.Raw = append(c.Raw[:p:p], c.Raw[p+1:]...)
				}
			case 2:
				c.Raw = append(c.Raw[:p:p], append([]byte{rapid.Byte().Draw(rt, "b")}, c.Raw[p:]...)...)
			}
		}
	} else {
		c.Kind = "valid with tail"
		c.Raw = append(c.Raw, rapid.SliceOfN(rapid.Byte(), 0, 20).Draw(rt, "tail")...)
	}
	return c
}

func allocated() uint64 {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.TotalAlloc
}

func tryRaw(c rawCase, raw []byte, o *pbt.Obs) error {
	d := message.NewDecoder(raw, len(raw))
	m := wire.New(c.Msg)
	before := allocated()
	err := m.Decode(d, c.V)
	used := allocated() - before
	if limit := uint64(2048*len(raw) + 1<<17); used > limit {
		return fmt.Errorf("%s v%d (%s): decoding %d bytes allocated %d bytes", c.Msg, c.V, c.Kind, len(raw), used)
	}
	want, n, werr := wire.Decode(c.Msg, c.V, raw)
	switch {
	case werr == nil:
		o.Label("input valid")
		if err != nil {
			return fmt.Errorf("%s v%d (%s): valid input rejected: %v", c.Msg, c.V, c.Kind, err)
		}
		if diff := wire.Diff(c.Msg, wire.FromGo(c.Msg, m), want, true); diff != "" {
			return fmt.Errorf("%s v%d (%s): %s", c.Msg, c.V, c.Kind, diff)
		}
		if err := d.Discard(len(raw) - n); err != nil {
			return fmt.Errorf("%s v%d (%s): wrong number of bytes consumed", c.Msg, c.V, c.Kind)
		}
	case werr == wire.ErrShort:
		o.Label("input short")
		o.NonTrivial()
		if err == nil {
			return fmt.Errorf("%s v%d (%s): input with missing bytes accepted", c.Msg, c.V, c.Kind)
		}
	default:
		o.NonTrivial()
		o.Label("input malformed (outcome open)")
	}
	return nil
}

func TestC04(t *testing.T) {
	var strata []pbt.Stratum[rawCase]
	for _, name := range wire.Top {
		ty := wire.Types[name]
		for v := ty.Lo; v <= ty.Hi; v++ {
			name, v := name, int16(v)
			strata = append(strata, pbt.Stratum[rawCase]{Name: fmt.Sprintf("%s-v%d", name, v), Gen: func(rt *rapid.T) rawCase { return genRaw(rt, name, v) }})
		}
	}
	pbt.Main(t, pbt.Check[rawCase]{
		Rule:   "one stratum per (message type, version); input = random bytes, or a valid encoding with hostile lengths/counts, byte edits or a tail; oracle = reference decoder (value, or error when bytes are missing), no panic, allocation <= 2048*len+128K; non-trivial: the input is not a valid encoding",
		Strata: strata,
		Quick:  160, Deep: 5000,
		Crumb: true,
		Render: func(c rawCase) interface{} {
			return map[string]interface{}{"message": c.Msg, "version": c.V, "kind": c.Kind, "raw_hex": fmt.Sprintf("%x", c.Raw), "huge_count_at": c.Huge}
		},
		Run: func(c rawCase, o *pbt.Obs) error {
			o.Label(c.Kind)
			// counts that are measurably absurd but survivable go first; the largest
			// only when those were rejected without allocating
			for _, n := range []int64{1 << 19, 1 << 21, math.MaxInt32} {
				raw := append([]byte{}, c.Raw...)
				for _, off := range c.Huge {
					if off+4 <= len(raw) {
						putBE(raw[off:], 4, n)
					}
				}
				if err := tryRaw(c, raw, o); err != nil {
					return err
				}
				if len(c.Huge) == 0 {
					break
				}
			}
			return nil
		},
	})
}

func TestC05(t *testing.T) {
	pbt.Main(t, pbt.Check[msgCase]{
		Rule:   "one stratum per (message type, version); a generated value's encoding is cut at every byte (all cuts up to 600 bytes, then a spread), with stale bytes (the rest of the message, 0x00, 0xff) behind the declared length; every cut must give an insufficient-data error; non-trivial: at least one cut exists",
		Strata: pairStrata(wire.GenOpt{MaxStr: 32767, MaxBytes: 70000, MaxArr: 2, Long: true}, true),
		Render: func(c msgCase) interface{} { return renderMsg(c) },
		Quick:  50, Deep: 1000,
		Run: func(c msgCase, o *pbt.Obs) error {
			enc := wire.Encode(c.Msg, c.V, c.Val, wire.EncOpt{Nulls: c.Nulls})
			if len(enc) > 0 {
				o.NonTrivial()
			}
			step := 1
			if n := 600; len(enc) > n {
				if len(enc) > 2000 {
					n = max(20, 1000000/len(enc))
				}
				step = len(enc)/n + 1
				o.Label("cuts sampled")
			} else {
				o.Label("every cut")
			}
			stale := [][]byte{enc, bytes.Repeat([]byte{0}, len(enc)), bytes.Repeat([]byte{0xff}, len(enc))}
			for k := 0; k < len(enc); k += step {
				if k+step >= len(enc) {
					k = len(enc) - 1
				}
				for si, st := range stale {
					raw := append(append([]byte{}, enc[:k]...), st[k:]...)
					d := message.NewDecoder(raw, k)
					m := wire.New(c.Msg)
					err := m.Decode(d, c.V)
					if !message.IsInsufficientDataError(err) {
						return fmt.Errorf("%s v%d: %d of %d bytes available (stale kind %d): decoding returned %v, want insufficient data", c.Msg, c.V, k, len(enc), si, err)
					}
				}
			}
			return nil
		},
	})
}
