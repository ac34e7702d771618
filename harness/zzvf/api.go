// Package zzvf is the harness interface. The symbolic engine intercepts these functions;
// compiled natively they read a recorded vector, so that a solver model becomes a test.
package zzvf

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
)

// RuntimeError is the engine's representation of a Go run-time panic.
type RuntimeError string

func (e RuntimeError) Error() string { return string(e) }
func (e RuntimeError) RuntimeError() {}

type rec struct {
	N string `json:"n"`
	K string `json:"k"`
	I string `json:"i"`
	S string `json:"s"`
}

type obs struct {
	L string `json:"l"`
	V string `json:"v"`
}

type job struct {
	ID      string         `json:"id"`
	Harness string         `json:"harness"`
	Vec     []rec          `json:"vec"`
	Obs     []obs          `json:"obs"`
	Params  map[string]int `json:"params"`
	Repeat  int            `json:"repeat"`
	Fill    bool           `json:"fill"` // values beyond the vector are defaults
}

type result struct {
	ID     string `json:"id"`
	Status string `json:"status"` // ok violation skip mismatch vector
	Msg    string `json:"msg"`
	Stack  string `json:"stack,omitempty"`
}

var (
	cur    *job
	pos    int
	obsPos int
	mism   string

	fillRng *rand.Rand
)

type skip struct{ why string }
type failure struct{ msg string }

func next(name, kind string) rec {
	if cur == nil {
		panic("zzvf: no vector")
	}
	if pos >= len(cur.Vec) {
		if cur.Fill {
			return rec{N: name, K: kind, I: fill(kind), S: "fill"}
		}
		panic(skip{"vector exhausted at " + name})
	}
	r := cur.Vec[pos]
	pos++
	if r.N != name || r.K != kind {
		panic(skip{fmt.Sprintf("vector has %s/%s, harness wants %s/%s", r.N, r.K, name, kind)})
	}
	return r
}

// fill gives a value beyond the vector: the default on the first run, then anything.
func fill(kind string) string {
	if fillRng == nil {
		return "0"
	}
	switch kind {
	case "bool":
		return strconv.Itoa(fillRng.Intn(2))
	case "u8":
		return strconv.Itoa(fillRng.Intn(256))
	case "i64":
		return strconv.FormatInt([]int64{0, 1, -1, 2, 3, 5, 1000, 1<<53 + 1, math.MaxInt64, math.MinInt64}[fillRng.Intn(10)], 10)
	case "u64":
		return strconv.FormatUint([]uint64{0, 1, 2, 1000, math.MaxUint64}[fillRng.Intn(5)], 10)
	case "f64":
		return strconv.FormatUint(math.Float64bits([]float64{0, 1, -2.5, 1.0 / 3, 1e21, 5e-324, 0.30000000000000004, 70, 12.345, 1e6}[fillRng.Intn(10)]), 10)
	case "choose":
		return strconv.Itoa(fillRng.Intn(64))
	}
	return "0"
}

func Bool(name string) bool { return next(name, "bool").I == "1" }
func Byte(name string) byte {
	x, _ := strconv.ParseUint(next(name, "u8").I, 10, 64)
	return byte(x)
}
func Int64(name string) int64 {
	x, _ := strconv.ParseInt(next(name, "i64").I, 10, 64)
	return x
}
func Uint64(name string) uint64 {
	x, _ := strconv.ParseUint(next(name, "u64").I, 10, 64)
	return x
}

// Int is a symbolic integer in [lo,hi].
func Int(name string, lo, hi int) int {
	r := next(name, "i64")
	if r.S == "fill" {
		if fillRng == nil || hi-lo < 0 {
			return lo
		}
		if hi-lo+1 > 0 {
			return lo + fillRng.Intn(hi-lo+1)
		}
		return lo + fillRng.Intn(1000)
	}
	x, _ := strconv.ParseInt(r.I, 10, 64)
	if int(x) < lo || int(x) > hi {
		panic(skip{"range"})
	}
	return int(x)
}

// Float64 is any finite float64.
func Float64(name string) float64 {
	x, _ := strconv.ParseUint(next(name, "f64").I, 10, 64)
	return math.Float64frombits(x)
}

// Float64In is any float64 from lo to hi.
func Float64In(name string, lo, hi float64) float64 {
	r := next(name, "f64")
	if r.S == "fill" {
		if fillRng == nil {
			return lo
		}
		return min(hi, lo+fillRng.Float64()*(hi-lo))
	}
	x, _ := strconv.ParseUint(r.I, 10, 64)
	f := math.Float64frombits(x)
	if !(f >= lo && f <= hi) {
		panic(skip{"range"})
	}
	return f
}

// Choose forks over 0..n-1.
func Choose(name string, n int) int {
	r := next(name, "choose")
	x, _ := strconv.Atoi(r.I)
	if r.S == "fill" {
		x %= n
	}
	if x >= n {
		panic(skip{"choose"})
	}
	return x
}

// Str is a string of exactly n symbolic bytes. If alphabet is not empty every byte is one of it.
func Str(name string, n int, alphabet string) string {
	r := next(name, "str")
	if r.S == "fill" {
		if alphabet == "" {
			alphabet = "a/~\"\\0<.1\n"
		}
		b := []byte(strings.Repeat(alphabet[:1], n))
		if fillRng != nil {
			for i := range b {
				b[i] = alphabet[fillRng.Intn(len(alphabet))]
			}
		}
		return string(b)
	}
	b, _ := hex.DecodeString(r.S)
	return string(b)
}

func Pick(name string, xs ...string) string { return xs[Choose(name, len(xs))] }

func Assume(c bool) {
	if !c {
		panic(skip{"assume"})
	}
}

func Assert(c bool, msg string) {
	if !c {
		panic(failure{msg})
	}
}

func Reach(label string) {}

// Param is a bound; the engine sets it per tier.
func Param(name string, quick, thorough int) int {
	if v, ok := cur.Params[name]; ok {
		return v
	}
	return quick
}

// And and friends do not fork.
func And(a, b bool) bool     { return a && b }
func Or(a, b bool) bool      { return a || b }
func Not(a bool) bool        { return !a }
func Implies(a, b bool) bool { return !a || b }
func IteInt(c bool, a, b int64) int64 {
	if c {
		return a
	}
	return b
}

// SetOrder chooses how map iteration order is explored: rot obj rev perm ins.
func SetOrder(mode string) {}

// IsSym tells whether the engine runs the harness.
func IsSym() bool { return false }

// Cut ends a path: the case lies outside the stated bounds.
func Cut(why string) { panic(skip{"cut " + why}) }

// Observe compares a value with what the engine computed for the same path.
func Observe(label string, v any) {
	if cur == nil || cur.Obs == nil {
		return
	}
	s := show(v)
	if obsPos >= len(cur.Obs) {
		mism = "extra observation " + label + "=" + s
		return
	}
	o := cur.Obs[obsPos]
	obsPos++
	if (o.L != label || o.V != s) && mism == "" {
		mism = fmt.Sprintf("%s: engine %s=%s, real %s=%s", o.L, o.L, o.V, label, s)
	}
}

func show(v any) string {
	switch x := v.(type) {
	case string:
		return "s" + hex.EncodeToString([]byte(x))
	case []byte:
		return "s" + hex.EncodeToString(x)
	case bool:
		return strconv.FormatBool(x)
	case int:
		return strconv.Itoa(x)
	case int64:
		return strconv.FormatInt(x, 10)
	case uint64:
		return strconv.FormatUint(x, 10)
	case float64:
		return "f" + strconv.FormatUint(math.Float64bits(x), 10)
	}
	return "?"
}

// RunJobs executes the recorded vectors of $ZZ_JOBS and writes the verdicts to $ZZ_OUT.
func RunJobs(hs map[string]func()) {
	b, err := os.ReadFile(os.Getenv("ZZ_JOBS"))
	if err != nil {
		panic(err)
	}
	var jobs []job
	if err := json.Unmarshal(b, &jobs); err != nil {
		panic(err)
	}
	out, err := os.OpenFile(os.Getenv("ZZ_OUT"), os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0o644)
	if err != nil {
		panic(err)
	}
	enc := json.NewEncoder(out)
	for i := range jobs {
		j := &jobs[i]
		n := j.Repeat
		if n < 1 {
			n = 1
		}
		enc.Encode(result{ID: j.ID, Status: "start"})
		var r result
		for k := 0; k < n; k++ {
			fillRng = nil
			if k > 0 && j.Fill {
				fillRng = rand.New(rand.NewSource(int64(k)))
			}
			r = runOne(hs[j.Harness], j)
			if r.Status != "ok" && !(j.Fill && r.Status == "skip") {
				break
			}
		}
		enc.Encode(r)
	}
	out.Close()
}

func runOne(h func(), j *job) (r result) {
	r.ID = j.ID
	if h == nil {
		r.Status = "skip"
		r.Msg = "no such harness"
		return
	}
	cur, pos, obsPos, mism = j, 0, 0, ""
	resetEnv()
	defer func() {
		if e := recover(); e != nil {
			switch x := e.(type) {
			case skip:
				r.Status, r.Msg = "skip", x.why
			case failure:
				r.Status, r.Msg = "violation", x.msg
			default:
				r.Status, r.Msg = "violation", fmt.Sprintf("panic: %v", e)
				st := string(debug.Stack())
				if len(st) > 3000 {
					st = st[:3000]
				}
				r.Stack = st
			}
			return
		}
		if mism != "" {
			r.Status, r.Msg = "mismatch", mism
			return
		}
		r.Status = "ok"
	}()
	h()
	return
}

var envResets []func()

// OnReset registers a function that clears stub state before every native run.
func OnReset(f func()) { envResets = append(envResets, f) }

func resetEnv() {
	for _, f := range envResets {
		f()
	}
}

var _ = sort.Strings
var _ = strings.Index
