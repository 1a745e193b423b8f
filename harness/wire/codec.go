package wire

import (
	"encoding/binary"
	"errors"
	"fmt"
)

var (
	ErrShort     = errors.New("short")
	ErrAmbiguous = errors.New("ambiguous") // input on which the protocol does not fix an outcome
)

// EncOpt chooses between wire forms a peer may legitimately produce.
type EncOpt struct {
	// Nulls: write null strings/bytes/struct arrays as -1 where Val.N is set.
	// Off, it writes what a client that has no null writes (length 0).
	Nulls bool
}

func be(n int, v int64) []byte {
	var b [8]byte
	binary.BigEndian.PutUint64(b[:], uint64(v))
	return b[8-n:]
}

func intWidth(kind string) int {
	switch kind {
	case "bool", "int8":
		return 1
	case "int16":
		return 2
	case "int32", "[]int32":
		return 4
	case "int64", "[]int64":
		return 8
	}
	return 0
}

// Encode is the reference encoder.
func Encode(typ string, v int16, val Val, o EncOpt) []byte {
	return appendStruct(nil, Types[typ], v, val, o)
}

func appendString(b []byte, val Val, o EncOpt) []byte {
	if val.N && o.Nulls {
		return append(b, 0xff, 0xff)
	}
	b = append(b, be(2, int64(len(val.B)))...)
	return append(b, val.B...)
}

func appendStruct(b []byte, t *Type, v int16, val Val, o EncOpt) []byte {
	for i, f := range t.Fields {
		if !f.In(v) {
			continue
		}
		x := val.L[i]
		switch f.Kind {
		case "bool", "int8", "int16", "int32", "int64":
			b = append(b, be(intWidth(f.Kind), x.I)...)
		case "string":
			b = appendString(b, x, o)
		case "bytes":
			if x.N && o.Nulls {
				b = append(b, 0xff, 0xff, 0xff, 0xff)
				break
			}
			b = append(b, be(4, int64(len(x.B)))...)
			b = append(b, x.B...)
		case "[]int32", "[]int64", "[]string":
			// the library has a null form of primitive arrays (nil slice)
			if x.N {
				b = append(b, 0xff, 0xff, 0xff, 0xff)
				break
			}
			b = append(b, be(4, int64(len(x.L)))...)
			for _, e := range x.L {
				if f.Kind == "[]string" {
					b = appendString(b, e, o)
				} else {
					b = append(b, be(intWidth(f.Kind), e.I)...)
				}
			}
		case "struct":
			if x.N && o.Nulls {
				b = append(b, 0xff, 0xff, 0xff, 0xff)
				break
			}
			b = append(b, be(4, int64(len(x.L)))...)
			for _, e := range x.L {
				b = appendStruct(b, Types[f.Type], v, e, o)
			}
		default:
			panic(f.Kind)
		}
	}
	return b
}

type dec struct {
	b   []byte
	off int
}

func (d *dec) int(n int) (int64, error) {
	if len(d.b)-d.off < n {
		return 0, ErrShort
	}
	var u uint64
	for _, c := range d.b[d.off : d.off+n] {
		u = u<<8 | uint64(c)
	}
	d.off += n
	shift := uint(64 - 8*n)
	return int64(u<<shift) >> shift, nil
}

func (d *dec) raw(n int64) ([]byte, error) {
	if int64(len(d.b)-d.off) < n {
		return nil, ErrShort
	}
	s := d.b[d.off : d.off+int(n)]
	d.off += int(n)
	return append([]byte(nil), s...), nil
}

func (d *dec) str() (Val, error) {
	n, err := d.int(2)
	if err != nil {
		return Val{}, err
	}
	if n == -1 {
		return Val{N: true}, nil
	}
	if n < 0 {
		return Val{}, ErrAmbiguous
	}
	s, err := d.raw(n)
	return Val{B: s}, err
}

// Decode is the reference decoder; it returns the value and the bytes consumed.
// ErrAmbiguous marks inputs (negative lengths below -1, booleans other than 0
// and 1) whose outcome the protocol leaves open.
func Decode(typ string, v int16, b []byte) (Val, int, error) {
	d := &dec{b: b}
	val, err := d.structure(Types[typ], v)
	return val, d.off, err
}

func (d *dec) structure(t *Type, v int16) (Val, error) {
	out := Zero(t.Name)
	for i, f := range t.Fields {
		if !f.In(v) {
			continue
		}
		var x Val
		var err error
		switch f.Kind {
		case "bool", "int8", "int16", "int32", "int64":
			x.I, err = d.int(intWidth(f.Kind))
			if err == nil && f.Kind == "bool" && x.I != 0 && x.I != 1 {
				return out, ErrAmbiguous
			}
		case "string":
			x, err = d.str()
		case "bytes":
			var n int64
			if n, err = d.int(4); err == nil {
				switch {
				case n == -1:
					x.N = true
				case n < 0:
					return out, ErrAmbiguous
				default:
					x.B, err = d.raw(n)
				}
			}
		default:
			var n int64
			if n, err = d.int(4); err != nil {
				break
			}
			if n < -1 {
				return out, ErrAmbiguous
			}
			if n == -1 {
				x.N = true
				break
			}
			for k := int64(0); k < n; k++ {
				var e Val
				switch f.Kind {
				case "[]int32", "[]int64":
					e.I, err = d.int(intWidth(f.Kind))
				case "[]string":
					e, err = d.str()
				case "struct":
					e, err = d.structure(Types[f.Type], v)
				default:
					panic(f.Kind)
				}
				if err != nil {
					return out, err
				}
				x.L = append(x.L, e)
			}
		}
		if err != nil {
			return out, err
		}
		out.L[i] = x
	}
	return out, nil
}

// Zero is the zero value of a type (all slices nil).
func Zero(typ string) Val {
	t := Types[typ]
	out := Val{L: make([]Val, len(t.Fields))}
	for i, f := range t.Fields {
		switch f.Kind {
		case "bool", "int8", "int16", "int32", "int64", "string":
		default:
			out.L[i].N = true
		}
	}
	return out
}

// Mask returns val with the fields absent in version v replaced by zero values.
func Mask(typ string, v int16, val Val) Val {
	t := Types[typ]
	out := Zero(typ)
	for i, f := range t.Fields {
		if !f.In(v) {
			continue
		}
		x := val.L[i]
		if f.Kind == "struct" && !x.N {
			l := make([]Val, len(x.L))
			for k := range x.L {
				l[k] = Mask(f.Type, v, x.L[k])
			}
			x = Val{L: l}
		}
		out.L[i] = x
	}
	return out
}

// Diff compares two values the way a caller of the library can tell them apart:
// null and empty are the same for strings, byte fields and arrays of structs;
// for arrays of primitives they differ when strictNil is set.  It returns "" or
// the path of the first difference.
func Diff(typ string, a, b Val, strictNil bool) string { return diffStruct(typ, a, b, strictNil, typ) }

func diffStruct(typ string, a, b Val, strict bool, path string) string {
	t := Types[typ]
	for i, f := range t.Fields {
		p := path + "." + f.Name
		x, y := a.L[i], b.L[i]
		switch f.Kind {
		case "bool", "int8", "int16", "int32", "int64":
			if x.I != y.I {
				return fmt.Sprintf("%s: %d != %d", p, x.I, y.I)
			}
		case "string", "bytes":
			if string(x.B) != string(y.B) {
				return fmt.Sprintf("%s: %s != %s", p, clip(x.B), clip(y.B))
			}
		default:
			if len(x.L) != len(y.L) {
				return fmt.Sprintf("%s: %d elements != %d elements", p, len(x.L), len(y.L))
			}
			if strict && f.Kind != "struct" && x.N != y.N {
				return fmt.Sprintf("%s: null=%v != null=%v", p, x.N, y.N)
			}
			for k := range x.L {
				q := fmt.Sprintf("%s[%d]", p, k)
				switch f.Kind {
				case "struct":
					if d := diffStruct(f.Type, x.L[k], y.L[k], strict, q); d != "" {
						return d
					}
				case "[]string":
					if string(x.L[k].B) != string(y.L[k].B) {
						return fmt.Sprintf("%s: %s != %s", q, clip(x.L[k].B), clip(y.L[k].B))
					}
				default:
					if x.L[k].I != y.L[k].I {
						return fmt.Sprintf("%s: %d != %d", q, x.L[k].I, y.L[k].I)
					}
				}
			}
		}
	}
	return ""
}

func clip(b []byte) string {
	if len(b) > 40 {
		return fmt.Sprintf("%q...(%d bytes)", b[:40], len(b))
	}
	return fmt.Sprintf("%q", b)
}

// Render is a readable form of a value.
func Render(typ string, v int16, val Val) map[string]interface{} {
	t := Types[typ]
	out := map[string]interface{}{}
	for i, f := range t.Fields {
		x := val.L[i]
		name := f.Name
		if !f.In(v) {
			name += " (not in this version)"
		}
		switch f.Kind {
		case "bool", "int8", "int16", "int32", "int64":
			out[name] = x.I
		case "string", "bytes":
			if x.N {
				out[name] = nil
			} else {
				out[name] = clip(x.B)
			}
		default:
			if x.N {
				out[name] = nil
				break
			}
			l := []interface{}{}
			for k, e := range x.L {
				if k == 5 {
					l = append(l, fmt.Sprintf("... %d elements", len(x.L)))
					break
				}
				switch f.Kind {
				case "struct":
					l = append(l, Render(f.Type, v, e))
				case "[]string":
					l = append(l, clip(e.B))
				default:
					l = append(l, e.I)
				}
			}
			out[name] = l
		}
	}
	return out
}

// Site is a length or count field inside an encoding.
type Site struct {
	Off, Width int
	Array      bool
}

// Sites returns the length fields of a (valid) encoding.
func Sites(typ string, v int16, b []byte) []Site {
	var out []Site
	off := 0
	var walk func(t *Type)
	rd := func(w int) int64 {
		d := &dec{b: b, off: off}
		x, err := d.int(w)
		if err != nil {
			panic("Sites: invalid encoding")
		}
		off += w
		return x
	}
	str := func() {
		out = append(out, Site{off, 2, false})
		if n := rd(2); n > 0 {
			off += int(n)
		}
	}
	walk = func(t *Type) {
		for _, f := range t.Fields {
			if !f.In(v) {
				continue
			}
			switch f.Kind {
			case "bool", "int8", "int16", "int32", "int64":
				off += intWidth(f.Kind)
			case "string":
				str()
			case "bytes":
				out = append(out, Site{off, 4, false})
				if n := rd(4); n > 0 {
					off += int(n)
				}
			default:
				out = append(out, Site{off, 4, true})
				n := rd(4)
				for k := int64(0); k < n; k++ {
					switch f.Kind {
					case "struct":
						walk(Types[f.Type])
					case "[]string":
						str()
					default:
						off += intWidth(f.Kind)
					}
				}
			}
		}
	}
	walk(Types[typ])
	return out
}
