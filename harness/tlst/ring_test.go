package tlst

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"sync"
	"testing"
	"time"

	"github.com/savaki/kafka/ring"
	"pgregory.net/rapid"

	"verif/harness/pbt"
)

// hugeCase: a real reader and a real writer move a long stream through a ring
// that may be larger than any 15- or 16-bit position can address.  No schedule is
// imposed: sizes and totals are the point.
type hugeCase struct {
	Size   int   `json:"size"`
	Writes []int `json:"writes"` // lengths, repeated until the total is reached
	Reads  []int `json:"reads"`
	Total  int   `json:"total"`
}

func genHuge(rt *rapid.T) hugeCase {
	c := hugeCase{Size: rapid.OneOf(
		rapid.SampledFrom([]int{2, 3, 127, 128, 129, 255, 256, 257, 4095, 4096, 32767, 32768, 32769, 65535, 65536, 65537, 131072, 1 << 20}),
		rapid.IntRange(2, 200000)).Draw(rt, "size")}
	lens := func(label string) []int {
		return rapid.SliceOfN(rapid.OneOf(
			rapid.IntRange(0, 100), rapid.IntRange(1, 70000),
			rapid.SampledFrom([]int{1, c.Size - 1, c.Size, c.Size + 1, 2*c.Size + 1, 32768, 65535, 65536, 65537}),
		), 1, 5).Draw(rt, label)
	}
	c.Writes, c.Reads = lens("writes"), lens("reads")
	c.Total = rapid.OneOf(rapid.IntRange(1, 400000), rapid.IntRange(c.Size, min(4*c.Size, 2000000))).Draw(rt, "total")
	if c.Size < 300 {
		c.Total = min(c.Total, 50000)
	}
	return c
}

// fill writes the stream's bytes from position pos on; no two stretches of the
// stream are alike.
func fill(b []byte, pos uint64) {
	var w [8]byte
	for i := 0; i < len(b); {
		k := (pos + uint64(i)) / 8
		x := (k + 1) * 0x9E3779B97F4A7C15
		x ^= x >> 29
		x *= 0xBF58476D1CE4E5B9
		binary.LittleEndian.PutUint64(w[:], x^x>>32)
		i += copy(b[i:], w[(pos+uint64(i))%8:])
	}
}

// each calls f with the lengths in turn until their sum is total
func each(lens []int, total int, f func(n int) bool) {
	for i, moved := 0, 0; moved < total; i++ {
		n := lens[i%len(lens)]
		if i >= len(lens) && n == 0 {
			n = 1 // a list of zeros must end too
		}
		n = min(n, total-moved)
		if !f(n) {
			return
		}
		moved += n
	}
}

func huge(c hugeCase) (err error) {
	rb := ring.New(c.Size)
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		var pos uint64
		var buf []byte
		each(c.Writes, c.Total, func(n int) bool {
			if len(buf) < n {
				buf = make([]byte, n)
			}
			fill(buf[:n], pos)
			rb.WriteN(buf[:n], n)
			pos += uint64(n)
			return true
		})
	}()
	var pos uint64
	var buf, want []byte
	each(c.Reads, c.Total, func(n int) bool {
		if len(buf) < n {
			buf, want = make([]byte, n), make([]byte, n)
		}
		got := rb.ReadN(buf[:n], n)
		fill(want[:n], pos)
		if got != n {
			err = fmt.Errorf("a read of %d bytes at %d returned %d though the buffer was not closed", n, pos, got)
		} else if !bytes.Equal(buf[:n], want[:n]) {
			i := 0
			for buf[i] == want[i] {
				i++
			}
			err = fmt.Errorf("byte %d of the stream was read as %d, want %d", pos+uint64(i), buf[i], want[i])
		}
		pos += uint64(n)
		return err == nil
	})
	if err != nil {
		rb.Close()
	}
	wg.Wait()
	rb.Close()
	return err
}

func hugeCheck() pbt.Check[hugeCase] {
	chk := pbt.Check[hugeCase]{
		Rule:   "ring sizes 2 to 1048576, around the limits of 8, 15 and 16 bits; streams to 2 MB (thorough: also over 2^32 bytes) in writes and reads to 140000 bytes by real goroutines; oracle: the bytes read are those written, and reader and writer end; non-trivial: the stream is longer than the ring",
		Strata: []pbt.Stratum[hugeCase]{{Name: "huge", Gen: genHuge}},
		Fixed: []hugeCase{
			{Size: 65536, Writes: []int{65536, 1}, Reads: []int{65535}, Total: 300000},
			{Size: 70000, Writes: []int{70001}, Reads: []int{69999}, Total: 300000},
		},
		Quick: 50, Deep: 5000, Crumb: true,
		Run: func(c hugeCase, ob *pbt.Obs) error {
			if c.Total > c.Size {
				ob.NonTrivial()
			}
			return huge(c)
		},
	}
	if pbt.Thorough() {
		chk.Limit = 400 * time.Second
		chk.Fixed = append(chk.Fixed,
			hugeCase{Size: 65536, Writes: []int{65536, 7}, Reads: []int{65535}, Total: 1<<32 + 300000},
			hugeCase{Size: 100003, Writes: []int{40000}, Reads: []int{50000}, Total: 1<<31 + 300000})
	}
	return chk
}

func TestC08Huge(t *testing.T) { pbt.Main(t, hugeCheck()) }
func TestC09Huge(t *testing.T) { pbt.Main(t, hugeCheck()) }
