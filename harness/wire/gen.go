package wire

import "pgregory.net/rapid"

// GenOpt bounds generated values.
type GenOpt struct {
	MaxStr   int // longest string (int16 prefix allows 32767)
	MaxBytes int
	MaxArr   int // struct arrays
	// Long: now and then make an array much longer (elements repeat).
	Long bool
}

var DefaultGen = GenOpt{MaxStr: 32767, MaxBytes: 3200000, MaxArr: 3, Long: true}
var SmallGen = GenOpt{MaxStr: 12, MaxBytes: 16, MaxArr: 2}

var longLens = []int{4, 5, 8, 15, 16, 17, 31, 33, 64, 100, 127, 128, 129, 255, 256, 257, 300}

var edgeLens = []int{0, 1, 63, 64, 127, 128, 255, 256, 1023, 8191, 8192, 32766, 32767, 65535, 65536}

// GenText draws string or byte contents: arbitrary bytes, text, or a long run
// around an interesting length.
func GenText(rt *rapid.T, max int) []byte {
	switch c := rapid.IntRange(0, 19).Draw(rt, "shape"); {
	case c < 3:
		return nil
	case c < 6:
		return []byte(rapid.SampledFrom([]string{"a", "b", "topic", "topic-1", "\x00", "0"}).Draw(rt, "word"))
	case c < 12:
		return []byte(rapid.StringMatching(`[a-zA-Z0-9._-]{1,12}`).Draw(rt, "text"))
	case c < 15:
		return []byte(rapid.StringN(0, 8, -1).Draw(rt, "unicode"))
	case c < 19:
		return rapid.SliceOfN(rapid.Byte(), 0, 12).Draw(rt, "bytes")
	default:
		n := rapid.SampledFrom(edgeLens).Draw(rt, "len")
		if max > 1<<20 && rapid.IntRange(0, 7).Draw(rt, "mega") == 7 {
			n = rapid.SampledFrom([]int{100000, 1 << 17, 1 << 18, 1 << 19, 1 << 20, 1<<20 + 1, 1<<21 - 1, 1 << 21, 3000000}).Draw(rt, "megalen")
		}
		if n > max {
			n = max
		}
		b := make([]byte, n)
		seed := rapid.Byte().Draw(rt, "fill")
		for i := range b {
			b[i] = seed + byte(i*7)
		}
		return b
	}
}

func clipText(b []byte, max int) []byte {
	if len(b) > max {
		return b[:max]
	}
	return b
}

func genInt(rt *rapid.T, kind string) int64 {
	switch kind {
	case "bool":
		return int64(rapid.IntRange(0, 1).Draw(rt, "bool"))
	case "int8":
		return int64(rapid.Int8().Draw(rt, "i8"))
	case "int16":
		return int64(rapid.Int16().Draw(rt, "i16"))
	case "int32", "[]int32":
		return int64(rapid.Int32().Draw(rt, "i32"))
	default:
		return rapid.Int64().Draw(rt, "i64")
	}
}

// Gen draws a value of the type, populating every field, whatever version it
// belongs to.
func Gen(rt *rapid.T, typ string, o GenOpt) Val {
	t := Types[typ]
	out := Val{L: make([]Val, len(t.Fields))}
	for i, f := range t.Fields {
		x := &out.L[i]
		switch f.Kind {
		case "bool", "int8", "int16", "int32", "int64":
			x.I = genInt(rt, f.Kind)
		case "string":
			x.B = clipText(GenText(rt, o.MaxStr), o.MaxStr)
			x.N = len(x.B) == 0 && rapid.Bool().Draw(rt, "null")
		case "bytes":
			x.B = clipText(GenText(rt, o.MaxBytes), o.MaxBytes)
			x.N = len(x.B) == 0 && rapid.Bool().Draw(rt, "null")
		default:
			n := rapid.IntRange(0, o.MaxArr).Draw(rt, "n")
			if n == 0 {
				x.N = rapid.Bool().Draw(rt, "null")
				break
			}
			sub := o
			total := n
			if o.Long && rapid.IntRange(0, 19).Draw(rt, "long") == 19 {
				total = rapid.SampledFrom(longLens).Draw(rt, "total")
				if f.Kind == "struct" {
					sub = SmallGen
				} else if rapid.IntRange(0, 9).Draw(rt, "huge") == 9 {
					total *= rapid.SampledFrom([]int{30, 300, 300, 1100}).Draw(rt, "times")
				}
			}
			x.L = make([]Val, total)
			size := 0
			for k := range x.L {
				if k >= n {
					if size/n*k > 16<<20 { // enough
						x.L = x.L[:k]
						break
					}
					x.L[k] = x.L[k%n]
					continue
				}
				switch f.Kind {
				case "struct":
					x.L[k] = Gen(rt, f.Type, sub)
				case "[]string":
					x.L[k].B = clipText(GenText(rt, min(sub.MaxStr, 3000)), sub.MaxStr)
					size += len(x.L[k].B)
				default:
					x.L[k].I = genInt(rt, f.Kind)
				}
			}
		}
	}
	return out
}
