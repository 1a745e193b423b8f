package connt

import (
	"reflect"
	"strings"
	"unsafe"

	"github.com/savaki/kafka"
)

// aged: a connection that has made so many calls that making them takes too
// long. The counters of the connection that advance in step with the
// correlation ids the broker sees are found by watching a few calls, and moved
// on. Nothing is moved where ids do not count up by one or no counter is found.
type aged struct {
	Old int   `json:"old"` // calls from before that are still unanswered
	To  int64 `json:"to"`  // the id the next call would have
}

// counters lists the integers inside the connection.
func counters(conn *kafka.Conn) []reflect.Value {
	var out []reflect.Value
	pkg := reflect.TypeOf(*conn).PkgPath()
	seen := map[unsafe.Pointer]bool{}
	var walk func(v reflect.Value, depth int)
	walk = func(v reflect.Value, depth int) {
		if depth > 4 {
			return
		}
		switch v.Kind() {
		case reflect.Int, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint32, reflect.Uint64:
			p := unsafe.Pointer(v.UnsafeAddr())
			if !seen[p] {
				seen[p] = true
				out = append(out, reflect.NewAt(v.Type(), p).Elem())
			}
		case reflect.Struct:
			if path := v.Type().PkgPath(); path != pkg && path != "sync/atomic" && path != "" && !strings.HasSuffix(path, "/atomic") {
				return
			}
			for i := 0; i < v.NumField(); i++ {
				walk(v.Field(i), depth+1)
			}
		case reflect.Ptr:
			if !v.IsNil() {
				walk(v.Elem(), depth+1)
			}
		}
	}
	walk(reflect.ValueOf(conn).Elem(), 0)
	return out
}

func intOf(v reflect.Value) int64 {
	if v.CanInt() {
		return v.Int()
	}
	return int64(v.Uint())
}

// advance moves the counters of conn on; snaps are their values after each of
// the calls with the ids given.
func advance(cs []reflect.Value, snaps [][]int64, ids []int32, to int64) (moved int) {
	if len(ids) < 3 || len(snaps) != len(ids) {
		return 0
	}
	for i := 1; i < len(ids); i++ {
		if ids[i] != ids[i-1]+1 {
			return 0
		}
	}
	by := to - 1 - int64(ids[len(ids)-1])
	for k, c := range cs {
		step := true
		for i := 1; i < len(ids); i++ {
			step = step && snaps[i][k] == snaps[i-1][k]+1
		}
		if !step {
			continue
		}
		moved++
		n := intOf(c) + by
		if c.CanInt() {
			c.Set(reflect.ValueOf(n).Convert(c.Type()))
		} else {
			c.Set(reflect.ValueOf(uint64(n)).Convert(c.Type()))
		}
	}
	return moved
}
