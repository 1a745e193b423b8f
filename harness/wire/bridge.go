package wire

import (
	"fmt"
	"reflect"

	"github.com/savaki/kafka/message"
)

// Message is what every generated type implements (on its pointer).
type Message interface {
	Size(version int16) int32
	Encode(e *message.Encoder, version int16)
	Decode(d *message.Decoder, version int16) error
}

// New returns a pointer to a zero message of the named top-level type.
func New(typ string) Message {
	z, ok := registry[typ]
	if !ok {
		panic("no such message " + typ)
	}
	return reflect.New(reflect.TypeOf(z).Elem()).Interface().(Message)
}

// ToGo builds the library's struct for a value.
func ToGo(typ string, val Val) Message {
	m := New(typ)
	Fill(typ, reflect.ValueOf(m).Elem(), val)
	return m
}

func fieldOf(sv reflect.Value, typ, name string) reflect.Value {
	f := sv.FieldByName(name)
	if !f.IsValid() {
		panic(fmt.Sprintf("type %s has no field %s", typ, name))
	}
	return f
}

// Fill sets the struct sv from val.
func Fill(typ string, sv reflect.Value, val Val) {
	for i, f := range Types[typ].Fields {
		fv := fieldOf(sv, typ, f.Name)
		x := val.L[i]
		switch f.Kind {
		case "bool":
			fv.SetBool(x.I == 1)
		case "int8", "int16", "int32", "int64":
			fv.SetInt(x.I)
		case "string":
			fv.SetString(string(x.B))
		case "bytes":
			if !x.N {
				fv.SetBytes(append([]byte{}, x.B...))
			}
		default:
			if x.N {
				continue
			}
			s := reflect.MakeSlice(fv.Type(), len(x.L), len(x.L))
			for k, e := range x.L {
				switch f.Kind {
				case "[]int32", "[]int64":
					s.Index(k).SetInt(e.I)
				case "[]string":
					s.Index(k).SetString(string(e.B))
				case "struct":
					Fill(f.Type, s.Index(k), e)
				}
			}
			fv.Set(s)
		}
	}
}

// FromGo reads a library struct (or pointer to one) back into a value.
func FromGo(typ string, m interface{}) Val {
	v := reflect.ValueOf(m)
	if v.Kind() == reflect.Ptr {
		v = v.Elem()
	}
	return read(typ, v)
}

func read(typ string, sv reflect.Value) Val {
	t := Types[typ]
	out := Val{L: make([]Val, len(t.Fields))}
	for i, f := range t.Fields {
		fv := fieldOf(sv, typ, f.Name)
		x := &out.L[i]
		switch f.Kind {
		case "bool":
			if fv.Bool() {
				x.I = 1
			}
		case "int8", "int16", "int32", "int64":
			x.I = fv.Int()
		case "string":
			x.B = []byte(fv.String())
		case "bytes":
			x.N = fv.IsNil()
			x.B = append([]byte(nil), fv.Bytes()...)
		default:
			x.N = fv.IsNil()
			for k := 0; k < fv.Len(); k++ {
				var e Val
				switch f.Kind {
				case "[]int32", "[]int64":
					e.I = fv.Index(k).Int()
				case "[]string":
					e.B = []byte(fv.Index(k).String())
				case "struct":
					e = read(f.Type, fv.Index(k))
				}
				x.L = append(x.L, e)
			}
		}
	}
	return out
}
