// Package wire is an independent model of the Kafka wire format: a frozen
// schema of every message (schema.json), values as generic trees, a reference
// encoder and decoder, and the bridge to the library's Go structs.  It shares no
// code with the library under test.
package wire

import (
	_ "embed"
	"encoding/json"
	"sort"
)

//go:embed schema.json
var schemaJSON []byte

type Field struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	Type string `json:"type"`
	Min  int    `json:"min"`
	Max  int    `json:"max"`
}

// In reports whether the field exists in version v.
func (f Field) In(v int16) bool { return int(v) >= f.Min && (f.Max < 0 || int(v) <= f.Max) }

type Type struct {
	Name   string  `json:"name"`
	Fields []Field `json:"fields"`
	API    int     `json:"api"`
	Lo     int     `json:"lo"`
	Hi     int     `json:"hi"`
}

var Types = map[string]*Type{}

// Top lists the names of all top-level messages (including the two headers).
var Top []string

// APIs is the name of each API by key.
var APIs = map[int]string{}

func init() {
	var list []*Type
	if err := json.Unmarshal(schemaJSON, &list); err != nil {
		panic(err)
	}
	for _, t := range list {
		Types[t.Name] = t
		if t.API >= 0 {
			Top = append(Top, t.Name)
			if n := len(t.Name) - len("Request"); n > 0 && t.Name[n:] == "Request" {
				APIs[t.API] = t.Name[:n]
			}
		}
	}
	sort.Strings(Top)
}

// Val is a field value, array or struct.
type Val struct {
	I int64  `json:"i,omitempty"` // bool and integers
	B []byte `json:"b,omitempty"` // contents of a string or byte field
	N bool   `json:"n,omitempty"` // null
	L []Val  `json:"l,omitempty"` // array elements, or struct fields in schema order
}
