// Package pbt drives one property: it generates cases with rapid, runs them,
// counts what was generated, shrinks a failure and writes the result (and the
// minimal failing case, as plain JSON that replays without rapid).
package pbt

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Obs collects what a case exercised.
type Obs struct {
	nontrivial bool
	labels     []string
}

func (o *Obs) NonTrivial()        { o.nontrivial = true }
func (o *Obs) Label(l string)     { o.labels = append(o.labels, l) }
func (o *Obs) IsNonTrivial() bool { return o.nontrivial }

type Stratum[C any] struct {
	Name string
	Gen  func(*rapid.T) C
	// Weight multiplies the number of cases (default 1).
	Weight int
}

type Check[C any] struct {
	Rule   string // how cases are made, what makes one non-trivial
	Strata []Stratum[C]
	Run    func(C, *Obs) error
	Render func(C) interface{}
	Quick  int // cases per stratum
	Deep   int
	// Crumb writes each case to disk first, so that a crash of the whole process
	// (a panic on one of the library's own goroutines) can be attributed.
	Crumb bool
	// A case that does not end (limit 45 s; cases take milliseconds) and does it
	// again alone is a violation: every property speaks of results that must come.
	// Fixed lists cases that always run first (regressions, corner cases).
	Fixed []C
	// Limit replaces the limit of 45 s per case.
	Limit time.Duration
}

func (c Check[C]) limit() time.Duration {
	if c.Limit > 0 {
		return c.Limit
	}
	return caseLimit
}

type violation struct {
	Message string          `json:"message"`
	Stratum string          `json:"stratum"`
	Case    json.RawMessage `json:"case"`
	Shrunk  bool            `json:"shrunk"`
	Kind    string          `json:"kind"` // fail, hang
}

type result struct {
	Test        string                 `json:"test"`
	Rule        string                 `json:"rule"`
	Evaluations int                    `json:"evaluations"`
	NonTrivial  int                    `json:"nontrivial"`
	Distinct    int                    `json:"distinct_nontrivial"`
	Labels      map[string]int         `json:"labels"`
	Strata      int                    `json:"strata"`
	Samples     []interface{}          `json:"samples"`
	Violation   *violation             `json:"violation,omitempty"`
	Extra       map[string]interface{} `json:"extra,omitempty"`
	Hang        bool                   `json:"hang_is_violation"`
	Skipped     int                    `json:"skipped"`
}

func outDir() string {
	d := os.Getenv("VERIF_OUT")
	if d == "" {
		d = os.TempDir()
	}
	return d
}

func thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// Thorough reports whether the thorough tier is running.
func Thorough() bool { return thorough() }

func seed() uint64 {
	n, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		n = 1
	}
	return uint64(n)*0x9E3779B97F4A7C15 + 0x1234567 + uint64(shard())*0xD1B54A32D192ED03
}

func envInt(name string, def int) int {
	if n, err := strconv.Atoi(os.Getenv(name)); err == nil {
		return n
	}
	return def
}

// The runner splits a check over several processes; each takes its share of the
// cases, with its own seed.
func shard() int  { return envInt("VERIF_SHARD", 0) }
func shards() int { return max(1, envInt("VERIF_SHARDS", 1)) }

func writeJSON(name string, v interface{}) {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	tmp := filepath.Join(outDir(), name+".tmp")
	if err := os.WriteFile(tmp, b, 0o644); err != nil {
		panic(err)
	}
	os.Rename(tmp, filepath.Join(outDir(), name))
}

// Replay is the file format of a failing case.
type Replay struct {
	Property string          `json:"property"`
	Test     string          `json:"test"`
	Message  string          `json:"message,omitempty"`
	Case     json.RawMessage `json:"case"`
}

func safely[C any](run func(C, *Obs) error, c C, o *Obs) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v\n%s", r, trim(string(debug.Stack())))
		}
	}()
	return run(c, o)
}

func trim(s string) string {
	if len(s) > 3000 {
		return s[:3000] + "\n..."
	}
	return s
}

const caseLimit = 45 * time.Second

// Main runs the check.
func Main[C any](t *testing.T, chk Check[C]) {
	if f := os.Getenv("VERIF_REPLAY"); f != "" {
		replay(t, chk, f)
		return
	}
	scale := 1.0
	if s, err := strconv.ParseFloat(os.Getenv("VERIF_SCALE"), 64); err == nil {
		scale = s
	}
	res := &result{Test: t.Name(), Rule: chk.Rule, Labels: map[string]int{}, Strata: len(chk.Strata), Hang: true}
	distinct := map[uint64]bool{}
	var lastFail *violation
	counting := true
	var curCase atomic.Pointer[C]
	var started atomic.Int64
	stop := make(chan struct{})
	defer close(stop)
	// past the deadline no further cases are made: a slow machine explores less
	deadline := time.Now().Add(time.Duration(envInt("VERIF_DEADLINE", 1<<30)) * time.Second)
	skipped := 0
	go func() {
		for {
			select {
			case <-stop:
				return
			case <-time.After(time.Second):
			}
			s := started.Load()
			if s != 0 && time.Since(time.Unix(0, s)) > chk.limit() {
				c := curCase.Load()
				raw, _ := json.Marshal(*c)
				buf := make([]byte, 1<<20)
				buf = buf[:runtime.Stack(buf, true)]
				os.WriteFile(filepath.Join(outDir(), "hang-stacks.txt"), buf, 0o644)
				res.Violation = &violation{Message: "the case does not terminate", Case: raw, Kind: "hang"}
				writeJSON("result-"+t.Name()+".json", res)
				os.Exit(3)
			}
		}
	}()
	nsamples := 4
	one := func(stratum string, c C) error {
		raw, err := json.Marshal(c)
		if err != nil {
			panic(err)
		}
		if chk.Crumb {
			os.WriteFile(filepath.Join(outDir(), "current.json"), mustJSON(Replay{Test: t.Name(), Case: raw}), 0o644)
		}
		o := &Obs{}
		curCase.Store(&c)
		started.Store(time.Now().UnixNano())
		err = safely(chk.Run, c, o)
		started.Store(0)
		if counting {
			res.Evaluations++
			for _, l := range o.labels {
				res.Labels[l]++
			}
			if o.nontrivial {
				res.NonTrivial++
				h := fnv.New64a()
				h.Write(raw)
				if k := h.Sum64(); !distinct[k] {
					distinct[k] = true
					res.Distinct++
					n := res.Distinct
					if len(res.Samples) < nsamples && (n == 1 || n == 20 || n == 300 || n == 2000) {
						var s interface{} = c
						if chk.Render != nil {
							s = chk.Render(c)
						}
						res.Samples = append(res.Samples, s)
					}
				}
			}
		}
		if err != nil {
			shrunk := lastFail != nil
			lastFail = &violation{Message: err.Error(), Stratum: stratum, Case: raw, Kind: "fail", Shrunk: shrunk}
			counting = false
			// keep the smallest seen so far on disk, in case the process dies later
			res.Violation = lastFail
			writeJSON("result-"+t.Name()+".json", res)
		}
		return err
	}
	finish := func() {
		if lastFail != nil {
			res.Violation = lastFail
		}
		res.Skipped = skipped
		hs := make([]byte, 0, 8*len(distinct))
		for h := range distinct {
			hs = binary.LittleEndian.AppendUint64(hs, h)
		}
		os.WriteFile(filepath.Join(outDir(), "hashes-"+t.Name()+".bin"), hs, 0o644)
		writeJSON("result-"+t.Name()+".json", res)
	}
	defer finish()
	for i, c := range chk.Fixed {
		if i%shards() != shard() {
			continue
		}
		if err := one("fixed", c); err != nil {
			t.Errorf("fixed case: %v", err)
			return
		}
	}
	flag.Set("rapid.nofailfile", "true")
	weight := func(s Stratum[C]) int { return max(s.Weight, 1) }
	rest := 0
	for _, s := range chk.Strata {
		rest += weight(s)
	}
	for k := range chk.Strata {
		// the shards begin with different strata, and each stratum has its share
		// of the time that is left, so slow ones do not crowd out the others
		i := (k + shard()) % len(chk.Strata)
		s := chk.Strata[i]
		until := deadline
		if left := time.Until(deadline); left > 0 {
			until = time.Now().Add(time.Duration(float64(left) * float64(weight(s)) / float64(rest)))
		}
		rest -= weight(s)
		n := chk.Quick
		if thorough() {
			n = chk.Deep
		}
		n *= weight(s)
		if n = int(float64(n)*scale/float64(shards()) + 0.999); n < 1 {
			n = 1
		}
		flag.Set("rapid.checks", strconv.Itoa(n))
		sd := seed() + uint64(i)*0x100000001B3
		if sd == 0 {
			sd = 1
		}
		flag.Set("rapid.seed", strconv.FormatUint(sd, 10))
		ok := t.Run(s.Name, func(t *testing.T) {
			rapid.Check(t, func(rt *rapid.T) {
				if lastFail == nil && time.Now().After(until) {
					skipped++
					return
				}
				c := s.Gen(rt)
				if err := one(s.Name, c); err != nil {
					rt.Fatalf("%v", err)
				}
			})
		})
		if !ok {
			return
		}
	}
}

func mustJSON(v interface{}) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return b
}

func replay[C any](t *testing.T, chk Check[C], file string) {
	b, err := os.ReadFile(file)
	if err != nil {
		t.Fatal(err)
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil {
		t.Fatal(err)
	}
	if r.Test != t.Name() {
		t.Skip("replay is for " + r.Test)
	}
	var c C
	if err := json.Unmarshal(r.Case, &c); err != nil {
		t.Fatal(err)
	}
	res := &result{Test: t.Name(), Evaluations: 1, Hang: true}
	repeat := 1
	if n, err := strconv.Atoi(os.Getenv("VERIF_REPEAT")); err == nil {
		repeat = n
	}
	timer := time.AfterFunc(chk.limit()+time.Duration(repeat)*time.Second, func() {
		res.Violation = &violation{Message: "the case does not terminate", Case: r.Case, Kind: "hang"}
		writeJSON("result-"+t.Name()+".json", res)
		os.Exit(3)
	})
	defer timer.Stop()
	for i := 0; i < repeat; i++ {
		if err := safely(chk.Run, c, &Obs{}); err != nil {
			res.Violation = &violation{Message: err.Error(), Case: r.Case, Kind: "fail"}
			t.Errorf("%v", err)
			break
		}
	}
	writeJSON("result-"+t.Name()+".json", res)
}

// SortedLabels renders a label histogram.
func SortedLabels(m map[string]int) string {
	var k []string
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	var sb strings.Builder
	for _, x := range k {
		fmt.Fprintf(&sb, "%s=%d ", x, m[x])
	}
	return sb.String()
}
