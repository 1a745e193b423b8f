package codec

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"testing"

	"github.com/savaki/kafka/message"
	"github.com/savaki/kafka/message/sizeof"
	"pgregory.net/rapid"

	"verif/harness/pbt"
	"verif/harness/wire"
)

// op is one primitive value; K names its kind.
type op struct {
	K    string   `json:"k"`
	I    int64    `json:"i,omitempty"`
	B    []byte   `json:"b,omitempty"`
	B2   []byte   `json:"b2,omitempty"`
	N    bool     `json:"null,omitempty"`
	L    []int64  `json:"l,omitempty"`
	S    [][]byte `json:"s,omitempty"`
	Skip bool     `json:"skip,omitempty"` // read it by discarding its bytes
	Rep  int      `json:"rep,omitempty"`  // the contents (text, list) repeat to this length
}

// expand makes a large value of a short description.
func (o op) expand() op {
	if o.Rep == 0 {
		return o
	}
	n := o.Rep
	switch {
	case len(o.L) > 0:
		l := make([]int64, n)
		for i := range l {
			l[i] = o.L[i%len(o.L)] + int64(i/len(o.L))*(1-int64(len(o.K)&1)) // varied unless 8 bits
		}
		switch o.K {
		case "[]int32":
			for i := range l {
				l[i] = int64(int32(l[i]))
			}
		case "arr8":
			for i := range l {
				l[i] = int64(int8(l[i]))
			}
		}
		o.L = l
	case len(o.S) > 0:
		l := make([][]byte, n)
		for i := range l {
			l[i] = o.S[i%len(o.S)]
		}
		o.S = l
	case len(o.B) > 0:
		b := make([]byte, n)
		for i := range b {
			b[i] = o.B[i%len(o.B)] + byte(i/len(o.B))
		}
		o.B = b
	}
	return o
}

// genLarge draws one long value.
func genLarge(rt *rapid.T, ks []string) op {
	o := op{K: rapid.SampledFrom(ks).Draw(rt, "kind")}
	n := rapid.SampledFrom([]int{1000, 5000, 32767, 32768, 65535, 65536, 70000, 1 << 17, 300000, 1 << 19, 1 << 20, 1<<20 + 1}).Draw(rt, "rep")
	switch o.K {
	case "string", "nstring":
		o.B, o.Rep = rapid.SliceOfN(rapid.Byte(), 1, 9).Draw(rt, "b"), min(n, 32767-rapid.IntRange(0, 1).Draw(rt, "less"))
	case "bytes", "varbytes", "varstring", "header":
		o.B, o.Rep = rapid.SliceOfN(rapid.Byte(), 1, 9).Draw(rt, "b"), n*rapid.IntRange(1, 2).Draw(rt, "twice")
	case "[]int32", "arr8", "[]int64":
		lo, hi := int64(math.MinInt32), int64(math.MaxInt32)
		if o.K == "arr8" {
			lo, hi = -128, 127
		}
		o.L, o.Rep = rapid.SliceOfN(rapid.Int64Range(lo, hi), 1, 5).Draw(rt, "l"), min(n, 1<<19)
	case "[]string":
		for i, m := 0, rapid.IntRange(1, 3).Draw(rt, "ns"); i < m; i++ {
			o.S = append(o.S, rapid.SliceOfN(rapid.Byte(), 0, 5).Draw(rt, "s"))
		}
		o.Rep = min(n, 1<<18)
	}
	return o
}

var longKinds = []string{"string", "nstring", "bytes", "varbytes", "varstring", "header", "[]int32", "[]int64", "[]string", "arr8"}

// genLargeSeq puts a long value behind a few short ones.
func genLargeSeq(rt *rapid.T) seqCase {
	c := genSeq(rt, 3, 20, kinds)
	c.Ops = append(c.Ops, genLarge(rt, longKinds))
	return c
}

func (c seqCase) expand() seqCase {
	ops := make([]op, len(c.Ops))
	for i := range ops {
		ops[i] = c.Ops[i].expand()
	}
	c.Ops = ops
	return c
}

var kinds = []string{"bool", "int8", "int16", "int32", "int64", "varint", "string", "nstring", "bytes", "varbytes", "varstring", "header", "[]int32", "[]int64", "[]string", "arr8"}

func genOp(rt *rapid.T, maxText int, ks []string) op {
	o := op{K: rapid.SampledFrom(ks).Draw(rt, "kind")}
	o.Skip = rapid.IntRange(0, 7).Draw(rt, "skip") == 7
	lst := func() int {
		if rapid.IntRange(0, 19).Draw(rt, "longlist") == 19 {
			n := rapid.SampledFrom([]int{50, 127, 128, 200}).Draw(rt, "len")
			if maxText >= 30000 && rapid.IntRange(0, 19).Draw(rt, "hugelist") == 19 {
				n *= 330 // beyond what 16 bits count
			}
			return n
		}
		return rapid.IntRange(0, 4).Draw(rt, "len")
	}
	str := func() []byte {
		b := wire.GenText(rt, maxText)
		if len(b) > maxText {
			b = b[:maxText]
		}
		return b
	}
	switch o.K {
	case "bool":
		o.I = int64(rapid.IntRange(0, 1).Draw(rt, "b"))
	case "int8":
		o.I = int64(rapid.Int8().Draw(rt, "i"))
	case "int16":
		o.I = int64(rapid.Int16().Draw(rt, "i"))
	case "int32":
		o.I = int64(rapid.Int32().Draw(rt, "i"))
	case "int64":
		o.I = rapid.Int64().Draw(rt, "i")
	case "varint":
		switch rapid.IntRange(0, 3).Draw(rt, "shape") {
		case 0: // near a boundary between encoded widths
			w := uint(rapid.IntRange(0, 9).Draw(rt, "width"))*7 + 6
			base := int64(math.MinInt64)
			if w < 63 {
				base = int64(1) << w
			}
			o.I = base + int64(rapid.IntRange(-2, 2).Draw(rt, "d"))
			if rapid.Bool().Draw(rt, "neg") {
				o.I = -o.I
			}
		default:
			o.I = rapid.Int64().Draw(rt, "i")
		}
	case "string", "bytes", "varstring":
		o.B = str()
	case "nstring", "varbytes":
		o.B = str()
		o.N = len(o.B) == 0 && rapid.Bool().Draw(rt, "null")
	case "header":
		o.B, o.B2 = str(), str()
	case "[]int32", "[]int64", "[]string":
		n := lst()
		if n == 0 {
			o.N = rapid.Bool().Draw(rt, "null")
			break
		}
		for i := 0; i < n; i++ {
			if i >= 200 && o.K != "[]string" {
				o.L = append(o.L, o.L[i%200])
				continue
			}
			switch o.K {
			case "[]int32":
				o.L = append(o.L, int64(rapid.Int32().Draw(rt, "i")))
			case "[]int64":
				o.L = append(o.L, rapid.Int64().Draw(rt, "i"))
			default:
				if i >= 4 {
					e := o.S[i%4]
					if n > 1000 && len(e) > 20 {
						e = e[:20]
					}
					o.S = append(o.S, e)
				} else {
					o.S = append(o.S, str())
				}
			}
		}
	case "arr8":
		n := lst()
		o.N = n == 0 && rapid.Bool().Draw(rt, "null")
		for i := 0; i < n; i++ {
			if i >= 200 {
				o.L = append(o.L, o.L[i%200])
				continue
			}
			o.L = append(o.L, int64(rapid.Int8().Draw(rt, "i")))
		}
	}
	return o
}

func beN(n int, v int64) []byte {
	out := make([]byte, n)
	putBE(out, n, v)
	return out
}

// zigzag is the reference variable-length integer (base-128 groups, least
// significant first, of the zigzag mapping).
func zigzag(v int64) []byte {
	u := uint64(v) << 1
	if v < 0 {
		u = ^u
	}
	var out []byte
	for u >= 128 {
		out = append(out, byte(u%128)+128)
		u /= 128
	}
	return append(out, byte(u))
}

// ref is the reference encoding of one op.
func (o op) ref() []byte {
	str := func(b []byte) []byte { return append(beN(2, int64(len(b))), b...) }
	vstr := func(b []byte) []byte { return append(zigzag(int64(len(b))), b...) }
	switch o.K {
	case "bool", "int8":
		return beN(1, o.I)
	case "int16":
		return beN(2, o.I)
	case "int32":
		return beN(4, o.I)
	case "int64":
		return beN(8, o.I)
	case "varint":
		return zigzag(o.I)
	case "string":
		return str(o.B)
	case "nstring":
		if o.N {
			return beN(2, -1)
		}
		return str(o.B)
	case "bytes":
		return append(beN(4, int64(len(o.B))), o.B...)
	case "varbytes":
		if o.N {
			return zigzag(-1)
		}
		return vstr(o.B)
	case "varstring":
		return vstr(o.B)
	case "header":
		return append(vstr(o.B), vstr(o.B2)...)
	}
	if o.N {
		return beN(4, -1)
	}
	n := len(o.L)
	if o.K == "[]string" {
		n = len(o.S)
	}
	out := beN(4, int64(n))
	switch o.K {
	case "[]int32":
		for _, v := range o.L {
			out = append(out, beN(4, v)...)
		}
	case "[]int64":
		for _, v := range o.L {
			out = append(out, beN(8, v)...)
		}
	case "arr8":
		for _, v := range o.L {
			out = append(out, byte(v))
		}
	case "[]string":
		for _, s := range o.S {
			out = append(out, str(s)...)
		}
	}
	return out
}

func (o op) i32s() []int32 {
	if o.N {
		return nil
	}
	out := []int32{}
	for _, v := range o.L {
		out = append(out, int32(v))
	}
	return out
}

func (o op) i64s() []int64 {
	if o.N {
		return nil
	}
	return append([]int64{}, o.L...)
}

func (o op) strs() []string {
	if o.N {
		return nil
	}
	out := []string{}
	for _, v := range o.S {
		out = append(out, string(v))
	}
	return out
}

func (o op) bytes() []byte {
	if o.N {
		return nil
	}
	return append([]byte{}, o.B...)
}

func (o op) put(e *message.Encoder) {
	switch o.K {
	case "bool":
		e.PutBool(o.I == 1)
	case "int8":
		e.PutInt8(int8(o.I))
	case "int16":
		e.PutInt16(int16(o.I))
	case "int32":
		e.PutInt32(int32(o.I))
	case "int64":
		e.PutInt64(o.I)
	case "varint":
		e.PutVarInt(o.I)
	case "string":
		e.PutString(string(o.B))
	case "nstring":
		if o.N {
			e.PutNullableString(nil)
		} else {
			s := string(o.B)
			e.PutNullableString(&s)
		}
	case "bytes":
		e.PutBytes(o.bytes())
	case "varbytes":
		e.PutVarBytes(o.bytes())
	case "varstring":
		e.PutVarString(string(o.B))
	case "header":
		e.PutRecordHeader(string(o.B), string(o.B2))
	case "[]int32":
		e.PutInt32Array(o.i32s())
	case "[]int64":
		e.PutInt64Array(o.i64s())
	case "[]string":
		e.PutStringArray(o.strs())
	case "arr8":
		if o.N {
			e.PutArrayLength(-1)
			return
		}
		e.PutArrayLength(len(o.L))
		for _, v := range o.L {
			e.PutInt8(int8(v))
		}
	}
}

// read decodes one value of kind k.
func read(d *message.Decoder, k string) (op, error) {
	o := op{K: k}
	var err error
	switch k {
	case "bool":
		var b bool
		if b, err = d.Bool(); b {
			o.I = 1
		}
	case "int8":
		var v int8
		v, err = d.Int8()
		o.I = int64(v)
	case "int16":
		var v int16
		v, err = d.Int16()
		o.I = int64(v)
	case "int32":
		var v int32
		v, err = d.Int32()
		o.I = int64(v)
	case "int64":
		o.I, err = d.Int64()
	case "varint":
		o.I, err = d.VarInt()
	case "string":
		var s string
		s, err = d.String()
		o.B = []byte(s)
	case "nstring":
		var s *string
		if s, err = d.NullableString(); s == nil {
			o.N = true
		} else {
			o.B = []byte(*s)
		}
	case "bytes", "varbytes":
		var b []byte
		if k == "bytes" {
			b, err = d.Bytes()
		} else {
			b, err = d.VarBytes()
			o.N = b == nil
		}
		o.B = append([]byte{}, b...)
		_ = append(b, 0xa5) // must not reach the bytes that follow
	case "varstring":
		var s string
		s, err = d.VarString()
		o.B = []byte(s)
	case "header":
		var a, b string
		if a, err = d.VarString(); err == nil {
			b, err = d.VarString()
		}
		o.B, o.B2 = []byte(a), []byte(b)
	case "[]int32":
		var l []int32
		l, err = d.Int32Array()
		o.N = l == nil
		for _, v := range l {
			o.L = append(o.L, int64(v))
		}
	case "[]int64":
		var l []int64
		l, err = d.Int64Array()
		o.N = l == nil
		o.L = l
	case "[]string":
		var l []string
		l, err = d.StringArray()
		o.N = l == nil
		for _, v := range l {
			o.S = append(o.S, []byte(v))
		}
	case "arr8":
		var n int
		n, err = d.ArrayLength()
		if n == -1 {
			o.N = true
		}
		for i := 0; i < n && err == nil; i++ {
			var v int8
			v, err = d.Int8()
			o.L = append(o.L, int64(v))
		}
	}
	return o, err
}

func (o op) equal(p op) bool {
	if o.I != p.I || o.N != p.N || !bytes.Equal(o.B, p.B) || !bytes.Equal(o.B2, p.B2) || len(o.L) != len(p.L) || len(o.S) != len(p.S) {
		return false
	}
	for i := range o.L {
		if o.L[i] != p.L[i] {
			return false
		}
	}
	for i := range o.S {
		if !bytes.Equal(o.S[i], p.S[i]) {
			return false
		}
	}
	return true
}

func (o op) String() string {
	return fmt.Sprintf("%s{i=%d null=%v b=%.40q(%d) b2=%.20q l=%.40v s=%.40q}", o.K, o.I, o.N, o.B, len(o.B), o.B2, o.L, o.S)
}

type seqCase struct {
	Ops   []op   `json:"ops"`
	Stale []byte `json:"stale,omitempty"` // bytes of the buffer beyond the declared length
	Buf   int    `json:"buf,omitempty"`   // bufio size, 0 = unbuffered
	Busy  bool   `json:"busy,omitempty"`  // other encoders are used while the target is written
}

func genSeq(rt *rapid.T, maxOps, maxText int, ks []string) seqCase {
	var c seqCase
	n := rapid.IntRange(1, maxOps).Draw(rt, "ops")
	for i := 0; i < n; i++ {
		c.Ops = append(c.Ops, genOp(rt, maxText, ks))
	}
	c.Stale = rapid.SliceOfN(rapid.Byte(), 0, 12).Draw(rt, "stale")
	c.Buf = rapid.SampledFrom([]int{0, 16, 64, 4096}).Draw(rt, "buf")
	c.Busy = rapid.IntRange(0, 2).Draw(rt, "busy") == 0
	return c
}

func (c seqCase) ref() []byte {
	var out []byte
	for _, o := range c.Ops {
		out = append(out, o.ref()...)
	}
	return out
}

func renderSeq(c seqCase) interface{} {
	var ops []string
	for i, o := range c.Ops {
		if i == 8 {
			ops = append(ops, fmt.Sprintf("... %d ops", len(c.Ops)))
			break
		}
		ops = append(ops, o.String())
	}
	return map[string]interface{}{"ops": ops, "stale": fmt.Sprintf("%x", c.Stale), "bufio": c.Buf}
}

// kindStrata: share is how many cases of each kind there are for one long one.
func kindStrata(f func(rt *rapid.T, ks []string) seqCase, share int) []pbt.Stratum[seqCase] {
	out := []pbt.Stratum[seqCase]{{Name: "long", Gen: genLargeSeq}, {Name: "mixed", Weight: 8 * share, Gen: func(rt *rapid.T) seqCase { return f(rt, kinds) }}}
	for _, k := range kinds {
		k := k
		out = append(out, pbt.Stratum[seqCase]{Name: k, Weight: share, Gen: func(rt *rapid.T) seqCase { return f(rt, []string{k}) }})
	}
	return out
}

func TestC06(t *testing.T) {
	pbt.Main(t, pbt.Check[seqCase]{
		Rule:   "sequences of 1-12 primitive values (one stratum of mixed kinds, one per kind) written by one encoder (plain or buffered target), compared with a reference encoding, read back by one decoder over a longer buffer with stale bytes behind the declared length, some values discarded instead of read, then everything again after Reset; non-trivial: two or more values, or a value with content",
		Strata: kindStrata(func(rt *rapid.T, ks []string) seqCase { return genSeq(rt, 12, 32767, ks) }, 100),
		Render: func(c seqCase) interface{} { return renderSeq(c) },
		Quick:  60, Deep: 600,
		Run: func(c seqCase, ob *pbt.Obs) error {
			c = c.expand()
			want := c.ref()
			if len(c.Ops) > 1 || len(want) > 8 {
				ob.NonTrivial()
			}
			var buf bytes.Buffer
			var w io.Writer = &buf
			if c.Busy {
				w = busy{w}
				ob.Label("other encoders in between")
			}
			if c.Buf > 0 {
				w = bufio.NewWriterSize(w, c.Buf)
			}
			e := message.NewEncoder(w)
			for _, o := range c.Ops {
				o.put(e)
			}
			if err := e.Flush(); err != nil {
				return fmt.Errorf("encoding failed: %v", err)
			}
			if !bytes.Equal(buf.Bytes(), want) {
				return fmt.Errorf("encoded bytes: %s", firstDiff(buf.Bytes(), want))
			}
			raw := append(append([]byte{}, want...), c.Stale...)
			d := message.NewDecoder(raw, len(want))
			for round := 0; round < 2; round++ {
				off := 0
				for i, o := range c.Ops {
					n := len(o.ref())
					if o.Skip {
						ob.Label("discard")
						if err := d.Discard(n); err != nil {
							return fmt.Errorf("round %d: op %d %v: discarding its %d bytes failed: %v", round, i, o, n, err)
						}
						off += n
						continue
					}
					ob.Label(o.K)
					got, err := read(d, o.K)
					if err != nil {
						return fmt.Errorf("round %d: op %d %v: reading failed: %v", round, i, o, err)
					}
					if !got.equal(o) {
						return fmt.Errorf("round %d: op %d: wrote %v, read %v", round, i, o, got)
					}
					off += n
				}
				if x, err := d.Int8(); !message.IsInsufficientDataError(err) {
					return fmt.Errorf("round %d: a byte (%v, err %v) could be read after everything was", round, x, err)
				}
				if err := d.Discard(1); err == nil {
					return fmt.Errorf("round %d: a byte could be discarded after everything was read", round)
				}
				if !bytes.Equal(raw[:len(want)], want) {
					return fmt.Errorf("reading changed the buffer: %s", firstDiff(raw[:len(want)], want))
				}
				// second round: with a shorter declared length first
				d.Reset(len(want) / 2)
				for i := 0; i < len(want)/2; i++ {
					if x, err := d.Int8(); err != nil || byte(x) != want[i] {
						return fmt.Errorf("after Reset(%d), byte %d reads %v, %v", len(want)/2, i, x, err)
					}
				}
				if _, err := d.Int8(); !message.IsInsufficientDataError(err) {
					return fmt.Errorf("after Reset(%d), more bytes than that could be read", len(want)/2)
				}
				d.Reset(len(want))
			}
			return nil
		},
	})
}

func (o op) size() (int32, bool) {
	switch o.K {
	case "bool":
		return sizeof.Bool, true
	case "int8":
		return sizeof.Int8, true
	case "int16":
		return sizeof.Int16, true
	case "int32":
		return sizeof.Int32, true
	case "int64":
		return sizeof.Int64, true
	case "varint":
		return sizeof.VarInt(o.I), true
	case "string":
		return sizeof.String(string(o.B)), true
	case "bytes":
		return sizeof.Bytes(o.bytes()), true
	case "varbytes":
		return sizeof.VarBytes(o.bytes()), true
	case "varstring":
		return sizeof.VarString(string(o.B)), true
	case "[]int32":
		return sizeof.Int32Array(o.i32s()), true
	case "[]int64":
		return sizeof.Int64Array(o.i64s()), true
	case "[]string":
		return sizeof.StringArray(o.strs()), true
	case "arr8":
		return sizeof.ArrayLength + int32(len(o.L))*sizeof.Int8, true
	}
	return 0, false
}

func TestC03Primitives(t *testing.T) {
	pbt.Main(t, pbt.Check[seqCase]{
		Rule:   "values of every primitive kind: the size helper compared with the bytes its encoder writes; non-trivial: variable-length kind",
		Strata: kindStrata(func(rt *rapid.T, ks []string) seqCase { return genSeq(rt, 4, 32767, ks) }, 100),
		Render: func(c seqCase) interface{} { return renderSeq(c) },
		Quick:  40, Deep: 600,
		Run: func(c seqCase, ob *pbt.Obs) error {
			c = c.expand()
			for _, o := range c.Ops {
				sz, ok := o.size()
				if !ok {
					continue
				}
				if len(o.ref()) > 1 {
					ob.NonTrivial()
				}
				var buf bytes.Buffer
				e := message.NewEncoder(&buf)
				o.put(e)
				if err := e.Flush(); err != nil {
					return fmt.Errorf("%v: encoding failed: %v", o, err)
				}
				if int(sz) != buf.Len() {
					return fmt.Errorf("%v: the size helper says %d but %d bytes are written", o, sz, buf.Len())
				}
				ob.Label(o.K)
			}
			return nil
		},
	})
}

func TestC05Primitives(t *testing.T) {
	pbt.Main(t, pbt.Check[seqCase]{
		Rule:   "values of every primitive kind after 0-3 others; the last one is cut at every byte (sampled above 300) with three kinds of stale bytes behind the declared length; the read must report insufficient data; non-trivial: at least one cut",
		Strata: kindStrata(func(rt *rapid.T, ks []string) seqCase { return genSeq(rt, 4, 300, ks) }, 100),
		Render: func(c seqCase) interface{} { return renderSeq(c) },
		Quick:  20, Deep: 200,
		Run: func(c seqCase, ob *pbt.Obs) error {
			c = c.expand()
			want := c.ref()
			last := c.Ops[len(c.Ops)-1]
			start := len(want) - len(last.ref())
			step := 1
			if n := len(last.ref()); n > 70000 {
				step = n/12 + 1
			} else if n > 300 {
				step = n/300 + 1
			}
			ob.Label(last.K)
			for k := start; k < len(want); k += step {
				if step > 1 && k == start+step {
					k = start + 5 // just behind the length
				} else if step > 1 && k+step >= len(want) {
					k = len(want) - 1
				}
				ob.NonTrivial()
				for s := 0; s < 3; s++ {
					raw := append(append([]byte{}, want...), c.Stale...)
					for i := k; i < len(raw) && s > 0; i++ {
						raw[i] = byte(s-1) * 0xff
					}
					d := message.NewDecoder(raw, k)
					for i, o := range c.Ops[:len(c.Ops)-1] {
						got, err := read(d, o.K)
						if err != nil || !got.equal(o) {
							return fmt.Errorf("op %d %v: read %v, %v", i, o, got, err)
						}
					}
					if got, err := read(d, last.K); !message.IsInsufficientDataError(err) {
						return fmt.Errorf("%v with %d of its %d bytes available: read %v, err %v, want insufficient data", last, k-start, len(last.ref()), got, err)
					}
					// the same for discarding
					d = message.NewDecoder(raw, k)
					if err := d.Discard(k + 1); !message.IsInsufficientDataError(err) {
						return fmt.Errorf("discarding %d of %d available bytes: %v, want insufficient data", k+1, k, err)
					}
				}
			}
			return nil
		},
	})
}

// junkCase: arbitrary bytes read by a sequence of primitive readers.
type junkCase struct {
	Raw  []byte   `json:"raw"`
	Len  int      `json:"len"`
	Read []string `json:"read"`
}

// refRead is the reference reader; open marks inputs with no fixed outcome.
func refRead(b []byte, k string) (o op, n int, short, open bool) {
	o.K = k
	num := func(w int) int64 {
		if short || open || len(b)-n < w {
			short = true
			return 0
		}
		var u uint64
		for _, c := range b[n : n+w] {
			u = u<<8 | uint64(c)
		}
		n += w
		return int64(u<<(64-8*w)) >> (64 - 8*w)
	}
	take := func(l int64) []byte {
		if l < 0 {
			open = true
		}
		if short || open {
			return nil
		}
		if int64(len(b)-n) < l {
			short = true
			return nil
		}
		n += int(l)
		return b[n-int(l) : n]
	}
	vint := func() int64 {
		var u uint64
		for i := 0; ; i++ {
			if n >= len(b) {
				short = true
				return 0
			}
			c := b[n]
			n++
			if i == 9 && c > 1 || i > 9 {
				open = true
				return 0
			}
			u |= uint64(c&127) << (7 * i)
			if c < 128 {
				break
			}
		}
		v := int64(u >> 1)
		if u&1 == 1 {
			v = ^v
		}
		return v
	}
	switch k {
	case "bool":
		if o.I = num(1); o.I != 0 && o.I != 1 {
			open = true
		}
	case "int8":
		o.I = num(1)
	case "int16":
		o.I = num(2)
	case "int32":
		o.I = num(4)
	case "int64":
		o.I = num(8)
	case "varint":
		o.I = vint()
	case "string", "nstring":
		l := num(2)
		if l == -1 {
			o.N = k == "nstring"
			break
		}
		o.B = take(l)
	case "bytes":
		if l := num(4); l != -1 {
			o.B = take(l)
		}
	case "varbytes":
		if l := vint(); !short && !open && l == -1 {
			o.N = true
		} else {
			o.B = take(l)
		}
	case "varstring":
		o.B = take(vint())
	case "header":
		o.B = take(vint())
		if !short && !open {
			o.B2 = take(vint())
		}
	default:
		l := num(4)
		if l < -1 {
			open = true
		}
		if l == -1 {
			o.N = true
		}
		for i := int64(0); i < l && !short && !open; i++ {
			switch k {
			case "[]int32":
				o.L = append(o.L, num(4))
			case "[]int64":
				o.L = append(o.L, num(8))
			case "arr8":
				o.L = append(o.L, num(1))
			case "[]string":
				sl := num(2)
				if sl == -1 {
					o.S = append(o.S, nil)
				} else {
					o.S = append(o.S, take(sl))
				}
			}
		}
	}
	return
}

func TestC04Primitives(t *testing.T) {
	gen := func(rt *rapid.T) junkCase {
		var c junkCase
		for i, n := 0, rapid.IntRange(0, 8).Draw(rt, "parts"); i < n; i++ {
			switch rapid.IntRange(0, 5).Draw(rt, "part") {
			case 0:
				c.Raw = append(c.Raw, rapid.SliceOfN(rapid.Byte(), 0, 12).Draw(rt, "raw")...)
			case 1:
				c.Raw = append(c.Raw, beN(2, int64(rapid.Int16().Draw(rt, "i16")))...)
			case 2:
				c.Raw = append(c.Raw, beN(4, int64(rapid.Int32().Draw(rt, "i32")))...)
			case 3:
				c.Raw = append(c.Raw, zigzag(rapid.Int64().Draw(rt, "var"))...)
			case 4:
				c.Raw = append(c.Raw, bytes.Repeat([]byte{byte(rapid.SampledFrom([]int{0x80, 0xff, 0x81}).Draw(rt, "cont"))}, rapid.IntRange(1, 14).Draw(rt, "n"))...)
			case 5:
				c.Raw = append(c.Raw, genOp(rt, 12, kinds).ref()...)
			}
		}
		c.Len = len(c.Raw)
		if rapid.IntRange(0, 2).Draw(rt, "cut") == 0 {
			c.Len = rapid.IntRange(0, len(c.Raw)).Draw(rt, "len")
		}
		c.Read = rapid.SliceOfN(rapid.SampledFrom(kinds), 1, 6).Draw(rt, "read")
		return c
	}
	pbt.Main(t, pbt.Check[junkCase]{
		Rule:   "arbitrary bytes (random, extreme lengths, endless var ints, valid values) read by 1-6 primitive readers; oracle = reference reader, no panic, bounded allocation; non-trivial: some read fails or is malformed",
		Strata: []pbt.Stratum[junkCase]{{Name: "junk", Gen: gen}},
		Crumb:  true, Quick: 20000, Deep: 1500000,
		Run: func(c junkCase, ob *pbt.Obs) error {
			d := message.NewDecoder(c.Raw, c.Len)
			off := 0
			for i, k := range c.Read {
				want, n, short, open := refRead(c.Raw[off:c.Len], k)
				before := allocated()
				got, err := read(d, k)
				if used := allocated() - before; used > uint64(2048*len(c.Raw)+1<<17) {
					return fmt.Errorf("read %d (%s): allocated %d bytes for an input of %d", i, k, used, len(c.Raw))
				}
				if open || short {
					ob.NonTrivial()
				}
				if open {
					ob.Label("outcome open")
					return nil
				}
				if short {
					ob.Label("short")
					if err == nil {
						return fmt.Errorf("read %d (%s) of %x: %v returned though bytes are missing", i, k, c.Raw[off:c.Len], got)
					}
					return nil
				}
				ob.Label("valid")
				if err != nil {
					return fmt.Errorf("read %d (%s) of %x: %v, want %v", i, k, c.Raw[off:c.Len], err, want)
				}
				if !got.equal(want) {
					return fmt.Errorf("read %d (%s) of %x: got %v, want %v", i, k, c.Raw[off:c.Len], got, want)
				}
				off += n
			}
			return nil
		},
	})
}

// ---- C07: failing writers

var errInjected = errors.New("injected write failure")

// faulty accepts At bytes, then fails: once or always, taking part of the
// failing write or none of it.
type faulty struct {
	at      int
	once    bool
	partial bool
	all     bool // the failing write is taken completely
	failed  bool
	got     []byte
	after   int // bytes accepted after the failure
	flushes int
}

func (f *faulty) Write(p []byte) (int, error) {
	if f.failed {
		if f.once {
			f.after += len(p)
			return len(p), nil
		}
		if len(p) > 0 {
			f.after += len(p)
		}
		return 0, errInjected
	}
	if len(f.got)+len(p) > f.at {
		f.failed = true
		n := 0
		if f.all {
			n = len(p)
			f.got = append(f.got, p...)
		} else if f.partial {
			n = f.at - len(f.got)
			f.got = append(f.got, p[:n]...)
		}
		return n, errInjected
	}
	f.got = append(f.got, p...)
	return len(p), nil
}

// flushable adds a Flush that fails when told to.
type flushable struct {
	*faulty
	flushErr error
}

func (f *flushable) Flush() error { f.flushes++; return f.flushErr }

type faultCase struct {
	Msg  string   `json:"msg,omitempty"`
	V    int16    `json:"v,omitempty"`
	Val  wire.Val `json:"val"`
	Ops  []op     `json:"ops,omitempty"`
	More []op     `json:"more,omitempty"` // values written after the failure
	Once bool     `json:"once"`
	Part bool     `json:"partial"`
	All  bool     `json:"all,omitempty"`
	Mode string   `json:"mode"` // plain, bufio, flusher
	Buf  int      `json:"buf"`
	From int      `json:"from"` // first failure point tried (they wrap around)
}

func (c faultCase) encode(e *message.Encoder) {
	if c.Msg != "" {
		wire.ToGo(c.Msg, c.Val).Encode(e, c.V)
	}
	for _, o := range c.Ops {
		o.put(e)
	}
}

func (c faultCase) ref() []byte {
	var out []byte
	if c.Msg != "" {
		out = wire.Encode(c.Msg, c.V, c.Val, wire.EncOpt{})
	}
	for _, o := range c.Ops {
		out = append(out, o.ref()...)
	}
	return out
}

func TestC07(t *testing.T) {
	finish := func(rt *rapid.T, c faultCase) faultCase {
		for i, n := 0, rapid.IntRange(0, 3).Draw(rt, "more"); i < n; i++ {
			c.More = append(c.More, genOp(rt, 20, kinds))
		}
		c.Once = rapid.Bool().Draw(rt, "once")
		c.Part = rapid.Bool().Draw(rt, "partial")
		c.All = rapid.IntRange(0, 5).Draw(rt, "all") == 5
		c.Mode = rapid.SampledFrom([]string{"plain", "bufio", "flusher"}).Draw(rt, "mode")
		c.Buf = rapid.SampledFrom([]int{16, 32, 4096}).Draw(rt, "buf")
		c.From = rapid.IntRange(0, 100000).Draw(rt, "from")
		return c
	}
	strata := []pbt.Stratum[faultCase]{{Name: "primitives", Weight: 60, Gen: func(rt *rapid.T) faultCase {
		var c faultCase
		for i, n := 0, rapid.IntRange(1, 5).Draw(rt, "ops"); i < n; i++ {
			c.Ops = append(c.Ops, genOp(rt, 60, kinds))
		}
		return finish(rt, c)
	}}}
	strata = append(strata, pbt.Stratum[faultCase]{Name: "long", Weight: 10, Gen: func(rt *rapid.T) faultCase {
		var c faultCase
		for i, n := 0, rapid.IntRange(0, 2).Draw(rt, "ops"); i < n; i++ {
			c.Ops = append(c.Ops, genOp(rt, 60, kinds))
		}
		c.Ops = append(c.Ops, genLarge(rt, longKinds))
		if last := &c.Ops[len(c.Ops)-1]; last.Rep > 70000 {
			last.Rep %= 40000
		}
		for i, n := 0, rapid.IntRange(0, 2).Draw(rt, "then"); i < n; i++ {
			c.Ops = append(c.Ops, genOp(rt, 60, kinds))
		}
		return finish(rt, c)
	}})
	for _, k := range kinds {
		k := k
		strata = append(strata, pbt.Stratum[faultCase]{Name: k, Weight: 10, Gen: func(rt *rapid.T) faultCase {
			var c faultCase
			for i, n := 0, rapid.IntRange(1, 2).Draw(rt, "ops"); i < n; i++ {
				c.Ops = append(c.Ops, genOp(rt, 60, []string{k}))
			}
			return finish(rt, c)
		}})
	}
	for _, name := range wire.Top {
		ty := wire.Types[name]
		for v := ty.Lo; v <= ty.Hi; v++ {
			name, v := name, int16(v)
			strata = append(strata, pbt.Stratum[faultCase]{Name: fmt.Sprintf("%s-v%d", name, v), Gen: func(rt *rapid.T) faultCase {
				return finish(rt, faultCase{Msg: name, V: v, Val: wire.Gen(rt, name, wire.SmallGen)})
			}})
		}
	}
	pbt.Main(t, pbt.Check[faultCase]{
		Rule:   "primitive sequences and every (message type, version); the writer fails at every byte position of the encoding (at most 400 positions per case), once or persistently, accepting part of the failing write, none or all of it, plain / bufio / flushing target; oracle: accepted bytes are a prefix of the reference encoding, nothing is offered to the writer after the failure, Flush returns the failure every time, also after further writes; without failure Flush returns the target's own result; non-trivial: at least one failure point",
		Strata: strata,
		Quick:  12, Deep: 400,
		Render: func(c faultCase) interface{} {
			m := map[string]interface{}{"mode": c.Mode, "once": c.Once, "partial": c.Part, "bytes": len(c.ref())}
			if c.Msg != "" {
				m["message"], m["version"], m["fields"] = c.Msg, c.V, wire.Render(c.Msg, c.V, c.Val)
			}
			for i, o := range c.Ops {
				m[fmt.Sprintf("op%d", i)] = o.String()
			}
			return m
		},
		Run: func(c faultCase, ob *pbt.Obs) error {
			c.Ops = seqCase{Ops: c.Ops}.expand().Ops
			want := c.ref()
			ob.Label(c.Mode)
			points, step := len(want), 1
			if points > 400 {
				points = 400
				if len(want) > 2000 { // far apart instead of side by side
					ob.Label("long")
					points = max(20, 400000/len(want))
					step = len(want)/points + 1
				}
			}
			for i := 0; i < points; i++ {
				at := i
				if points < len(want) {
					at = (c.From + i*step) % len(want)
				}
				ob.NonTrivial()
				f := &faulty{at: at, once: c.Once, partial: c.Part, all: c.All}
				var w io.Writer = f
				switch c.Mode {
				case "bufio":
					w = bufio.NewWriterSize(f, c.Buf)
				case "flusher":
					w = &flushable{faulty: f}
				}
				e := message.NewEncoder(w)
				c.encode(e)
				check := func(when string) error {
					if err := e.Flush(); !errors.Is(err, errInjected) {
						return fmt.Errorf("writer fails at byte %d of %d: Flush %s returned %v, want the failure", at, len(want), when, err)
					}
					if f.after > 0 {
						return fmt.Errorf("writer failed at byte %d of %d: %d more bytes were written to it %s", at, len(want), f.after, when)
					}
					if len(f.got) > len(want) || !bytes.Equal(f.got, want[:len(f.got)]) {
						return fmt.Errorf("writer fails at byte %d of %d: what it accepted is no prefix of the encoding", at, len(want))
					}
					return nil
				}
				if err := check("after encoding"); err != nil {
					return err
				}
				for _, o := range c.More {
					o.put(e)
				}
				if err := check("after further values"); err != nil {
					return err
				}
			}
			// no write failure
			f := &faulty{at: math.MaxInt32}
			fl := &flushable{faulty: f, flushErr: errInjected}
			e := message.NewEncoder(fl)
			c.encode(e)
			if err := e.Flush(); !errors.Is(err, errInjected) || fl.flushes == 0 {
				return fmt.Errorf("flushing the target fails, but Flush returned %v (target flushed %d times)", err, fl.flushes)
			}
			f = &faulty{at: math.MaxInt32}
			fl = &flushable{faulty: f}
			e = message.NewEncoder(fl)
			c.encode(e)
			if err := e.Flush(); err != nil || fl.flushes == 0 {
				return fmt.Errorf("nothing fails, but Flush returned %v (target flushed %d times)", err, fl.flushes)
			}
			if !bytes.Equal(f.got, want) {
				return fmt.Errorf("without failure: %s", firstDiff(f.got, want))
			}
			// a buffered target whose final flush fails
			if len(want) > 0 {
				f = &faulty{at: len(want) - 1, partial: c.Part}
				e = message.NewEncoder(bufio.NewWriterSize(f, len(want)+16))
				c.encode(e)
				if err := e.Flush(); !errors.Is(err, errInjected) {
					return fmt.Errorf("the final flush fails, but Flush returned %v", err)
				}
			}
			return nil
		},
	})
}
