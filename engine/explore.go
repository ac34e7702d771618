package main

import (
	"encoding/hex"
	"fmt"
	"math"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"go/types"

	"golang.org/x/tools/go/ssa"
)

// HStat counts what happened to one harness.
type HStat struct {
	Name                                            string
	Done, Assume, Unsupported, Budget, Cut, Viol    int64
	Asserts, SymAsserts, SymBranches, Instrs, Sites int64
	Incomplete                                      bool
	MaxDecs                                         int64
}

type candidate struct {
	Harness string
	Msg     string
	Vec     []any
	Obs     []map[string]string
	Fill    bool
	Kind    string // violation sample fallback
	Repeat  int
}

// Run is one exploration of the harnesses of a property.
type Run struct {
	ld       *Loaded
	prop     string
	tier     string
	hs       []*ssa.Function
	queues   [][]Item
	active   int
	used     []int64 // time spent per harness
	runs     []int64
	busy     []int
	rr       int
	mu       sync.Mutex
	cond     *sync.Cond
	stop     int32
	deadline time.Time
	maxInstr int64
	noMerge  bool
	cross    bool
	seed     int64

	bounds   map[string]bool
	assumes  map[string]bool
	reached  map[string]int
	params   map[string]int
	pset     map[string]int
	viols    map[string][]*candidate
	samples  []*candidate
	sampleN  []int
	fallback []*candidate
	incon    map[string]int
	cuts     map[string]int
	fnsSeen  map[string]bool
	stats    Stats
	hst      []*HStat
	maxSamp  int
	order    bool
	engErr   string
}

func NewRun(ld *Loaded, prop, tier string, hs []*ssa.Function) *Run {
	r := &Run{ld: ld, prop: prop, tier: tier, hs: hs, maxInstr: 3_000_000, bounds: map[string]bool{}, assumes: map[string]bool{},
		reached: map[string]int{}, params: map[string]int{}, pset: map[string]int{}, viols: map[string][]*candidate{}, incon: map[string]int{},
		cuts: map[string]int{}, fnsSeen: map[string]bool{}, maxSamp: 250}
	r.cond = sync.NewCond(&r.mu)
	r.queues = make([][]Item, len(hs))
	r.sampleN = make([]int, len(hs))
	r.used, r.runs, r.busy = make([]int64, len(hs)), make([]int64, len(hs)), make([]int, len(hs))
	for i, h := range hs {
		r.queues[i] = []Item{{}}
		r.hst = append(r.hst, &HStat{Name: h.Name()})
	}
	return r
}

func (r *Run) push(it Item) {
	r.mu.Lock()
	r.queues[it.h] = append(r.queues[it.h], it)
	r.mu.Unlock()
	r.cond.Signal()
}

func (r *Run) pop(id int, rng *rand.Rand) (Item, bool) {
	r.mu.Lock()
	defer r.mu.Unlock()
	for {
		if atomic.LoadInt32(&r.stop) != 0 {
			return Item{}, false
		}
		// the harness that has had the least time
		best := -1
		var bt float64
		for h := range r.queues {
			if len(r.queues[h]) == 0 {
				continue
			}
			t := float64(r.used[h])
			if r.runs[h] > 0 {
				t += float64(r.used[h]) / float64(r.runs[h]) * float64(r.busy[h])
			} else {
				t += float64(r.busy[h]) * 1e6
			}
			if best < 0 || t < bt {
				best, bt = h, t
			}
		}
		if best >= 0 {
			r.rr = best
			q := r.queues[r.rr]
			n := len(q)
			r.busy[best]++
			i := n - 1
			if id%3 == 0 {
				i = rng.Intn(n)
			} else if id%3 == 1 && len(q) < 100000 {
				i = 0
				if n > 1 {
					i = rng.Intn(min(n, 64))
				}
			}
			it := q[i]
			q[i] = q[n-1]
			q[n-1] = Item{}
			r.queues[r.rr] = q[:n-1]
			it.h = r.rr
			r.active++
			return it, true
		}
		if r.active == 0 {
			r.cond.Broadcast()
			return Item{}, false
		}
		r.cond.Wait()
	}
}

func (r *Run) finish(h int, d time.Duration) {
	r.mu.Lock()
	r.active--
	r.busy[h]--
	r.runs[h]++
	r.used[h] += int64(d)
	r.mu.Unlock()
	r.cond.Broadcast()
}

func (r *Run) reach(l string) {
	r.mu.Lock()
	r.reached[l]++
	r.mu.Unlock()
}

func (r *Run) param(n string, q, t int) int {
	v := q
	if r.tier == "thorough" {
		v = t
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	if o, ok := r.pset[n]; ok {
		v = o
	}
	r.params[n] = v
	return v
}

func (r *Run) addBound(s string) {
	r.mu.Lock()
	r.bounds[s] = true
	r.mu.Unlock()
}

func (r *Run) addAssumption(s string) {
	r.mu.Lock()
	r.assumes[s] = true
	r.mu.Unlock()
}

func (r *Run) report(m *Machine, msg string, md Model) {
	c := &candidate{Harness: r.hs[m.h].Name(), Msg: msg, Kind: "violation", Vec: m.vector(md), Repeat: m.repeat()}
	r.mu.Lock()
	defer r.mu.Unlock()
	k := c.Harness + "|" + normMsg(msg)
	if len(r.viols[k]) < 8 {
		r.viols[k] = append(r.viols[k], c)
	}
}

// repeat is how often a case is run natively: map iteration order is random there.
func (m *Machine) repeat() int {
	if m.revMode >= 0 || m.ordered {
		return 300
	}
	return 40
}

func normMsg(s string) string {
	var b strings.Builder
	for _, c := range s {
		if c >= '0' && c <= '9' {
			c = '#'
		}
		b.WriteRune(c)
	}
	return b.String()
}

func (r *Run) newMachine() *Machine {
	ctx := NewCtx()
	m := &Machine{ctx: ctx, ld: r.ld, run: r, fns: map[*ssa.Function]*fnInfo{}, shared: map[*ssa.Global]Ptr{}, inited: map[*ssa.Package]bool{},
		implC: map[[2]types.Type]bool{}, methC: map[methKey]*ssa.Function{}, bodies: map[string]*fnInfo{}, rtypes: map[types.Type]Ptr{},
		params: map[string]int{}, qcache: map[string]*qres{}, pathFns: map[*fnInfo]bool{}}
	m.sol = NewSolver(ctx, &r.stats)
	m.sol.cross = r.cross
	return m
}

func (r *Run) worker(id int) {
	m := r.newMachine()
	rng := rand.New(rand.NewSource(r.seed*100 + int64(id)))
	for {
		it, ok := r.pop(id, rng)
		if !ok {
			break
		}
		t0 := time.Now()
		m.runPath(it, rng)
		r.finish(it.h, time.Since(t0))
		if m.ctx.Size() > 1_500_000 || m.poisoned {
			r.flushFns(m)
			m.sol.Close()
			m = r.newMachine()
		}
	}
	r.flushFns(m)
	m.sol.Close()
}

func (r *Run) flushFns(m *Machine) {
	r.mu.Lock()
	for f := range m.pathFns {
		r.fnsSeen[f.path] = true
	}
	r.mu.Unlock()
}

func (m *Machine) runPath(it Item, rng *rand.Rand) {
	r := m.run
	m.h = it.h
	hs := r.hst[it.h]
	m.resetPath(it)
	end := pathEnd{"done", ""}
	func() {
		defer func() {
			if e := recover(); e != nil {
				switch x := e.(type) {
				case pathEnd:
					end = x
				case targetPanic:
					end = pathEnd{"panic", "panic: " + m.panicText(x)}
					if os.Getenv("GOSYM_STACK") != "" {
						fmt.Fprintln(os.Stderr, "target panic:", end.msg, m.where())
					}
				default:
					st := string(debug.Stack())
					end = pathEnd{"unsupported", fmt.Sprintf("engine: %v %s", e, m.where())}
					m.poisoned = true
					r.mu.Lock()
					if r.engErr == "" {
						r.engErr = fmt.Sprintf("%v\n%s\n%s", e, m.where(), st)
					}
					r.mu.Unlock()
				}
			}
		}()
		m.call(r.hs[it.h], nil, nil, nil)
	}()
	m.strict = false
	atomic.AddInt64(&r.stats.Paths, 1)
	atomic.AddInt64(&hs.Instrs, m.instrs)
	atomic.AddInt64(&hs.Asserts, int64(m.asserts))
	atomic.AddInt64(&hs.SymAsserts, int64(m.symAssert))
	atomic.AddInt64(&hs.SymBranches, int64(m.symBr))
	switch end.kind {
	case "panic":
		// a panic that leaves the harness: the path condition is satisfiable, so report it
		md := m.model
		ok := true
		if len(m.numReg) > 0 {
			md, ok = m.safeRefine()
		}
		if !ok {
			end = pathEnd{"unsupported", "number text not realisable: " + end.msg}
			break
		}
		r.report(m, end.msg, md)
		end.kind = "violation"
	}
	switch end.kind {
	case "done":
		atomic.AddInt64(&hs.Done, 1)
		m.sample(rng)
	case "assume":
		atomic.AddInt64(&hs.Assume, 1)
	case "violation":
		atomic.AddInt64(&hs.Viol, 1)
	case "cut":
		atomic.AddInt64(&hs.Cut, 1)
		r.mu.Lock()
		r.cuts[end.msg]++
		r.mu.Unlock()
	case "deadline":
		hs.Incomplete = true
	case "unsupported", "budget":
		if end.kind == "budget" {
			atomic.AddInt64(&hs.Budget, 1)
		} else {
			atomic.AddInt64(&hs.Unsupported, 1)
		}
		r.mu.Lock()
		k := end.kind + ": " + end.msg
		r.incon[k]++
		n := r.incon[k]
		r.mu.Unlock()
		if n <= 6 {
			for _, md := range m.variants(rng) {
				c := &candidate{Harness: r.hs[it.h].Name(), Msg: k, Kind: "fallback", Fill: true, Vec: m.vector(md), Repeat: 20}
				r.mu.Lock()
				if len(r.fallback) < 400 {
					r.fallback = append(r.fallback, c)
				}
				r.mu.Unlock()
			}
		}
	}
	if len(m.incon) > 0 {
		r.mu.Lock()
		for _, s := range m.incon {
			r.incon[s]++
		}
		r.mu.Unlock()
	}
}

// variants gives models of the path condition of a path that could not be finished: the real code runs them instead.
func (m *Machine) variants(rng *rand.Rand) []Model {
	out := []Model{m.model}
	for i := 0; i < 7; i++ {
		md := Model{}
		for k, v := range m.model {
			md[k] = v
		}
		for _, v := range m.vars {
			old, had := md[v.name]
			switch {
			case v.sort == SFP:
				md[v.name] = math.Float64bits(floatCands[rng.Intn(len(floatCands))])
			case v.sort == SBool:
				md[v.name] = uint64(rng.Intn(2))
			default:
				md[v.name] = uint64(intCands[rng.Intn(len(intCands))]) & mask(v.sort)
			}
			m.ctx.NewEpoch()
			for _, c := range m.pc {
				if m.ctx.Eval(c, md) != 1 {
					if had {
						md[v.name] = old
					} else {
						delete(md, v.name)
					}
					break
				}
			}
		}
		out = append(out, md)
	}
	m.ctx.NewEpoch()
	return out
}

func (m *Machine) safeRefine() (md Model, ok bool) {
	defer func() {
		if e := recover(); e != nil {
			ok = false
		}
	}()
	return m.refineNums(m.model, nil)
}

func (m *Machine) where() string {
	s := ""
	for i := len(m.callStack) - 1; i >= 0 && i >= len(m.callStack)-8; i-- {
		f := m.callStack[i]
		s += " <- " + f.fi.path
		if f.cur != nil && f.cur.ins.Pos().IsValid() {
			p := m.ld.prog.Fset.Position(f.cur.ins.Pos())
			fn := p.Filename
			if j := strings.LastIndexByte(fn, '/'); j >= 0 {
				fn = fn[j+1:]
			}
			s += fmt.Sprintf("(%s:%d)", fn, p.Line)
		}
	}
	return s
}

// sample keeps a completed path for comparison with the real code.
func (m *Machine) sample(rng *rand.Rand) {
	r := m.run
	r.mu.Lock()
	r.sampleN[m.h]++
	n := r.sampleN[m.h]
	r.mu.Unlock()
	per := r.maxSamp
	if n > per && rng.Intn(n) >= per {
		return
	}
	md := m.model
	if len(m.numReg) > 0 {
		var ok bool
		if md, ok = m.safeRefine(); !ok {
			return
		}
	}
	c := &candidate{Harness: r.hs[m.h].Name(), Kind: "sample", Vec: m.vector(md), Repeat: 1}
	c.Obs = m.observed(md)
	r.mu.Lock()
	defer r.mu.Unlock()
	if n <= per {
		r.samples = append(r.samples, c)
		return
	}
	// replace a random sample of the same harness
	k := rng.Intn(len(r.samples))
	for i := 0; i < len(r.samples); i++ {
		j := (k + i) % len(r.samples)
		if r.samples[j].Harness == c.Harness {
			r.samples[j] = c
			return
		}
	}
}

func (m *Machine) observed(md Model) (out []map[string]string) {
	defer func() {
		if e := recover(); e != nil {
			out = nil
		}
	}()
	m.ctx.NewEpoch()
	out = []map[string]string{}
	for _, o := range m.obs {
		v := o.v.(Iface)
		s := "?"
		switch x := v.v.(type) {
		case *Expr:
			u := m.ctx.Eval(x, md)
			switch {
			case x.sort == SBool:
				s = strconv.FormatBool(u == 1)
			case x.sort == SFP:
				s = "f" + strconv.FormatUint(u, 10)
			case isSigned(v.t):
				s = strconv.FormatInt(signed(u, x.sort), 10)
			default:
				s = strconv.FormatUint(u, 10)
			}
		case *Str:
			s = "s" + hex.EncodeToString([]byte(m.evalStr(x, md)))
		case Slice:
			s = "s" + hex.EncodeToString([]byte(m.evalStr(m.sliceToStr(x), md)))
		}
		out = append(out, map[string]string{"l": o.Label, "v": s})
	}
	m.ctx.NewEpoch()
	return out
}

func signed(u uint64, s Sort) int64 {
	if s >= 64 {
		return int64(u)
	}
	if u>>(s-1)&1 == 1 {
		return int64(u | ^mask(s))
	}
	return int64(u)
}

func (m *Machine) evalStr(s *Str, md Model) string {
	bs := m.sbytes(m.forced(s))
	m.ctx.NewEpoch()
	out := make([]byte, len(bs))
	for i, b := range bs {
		out[i] = byte(m.ctx.Eval(b, md))
	}
	return string(out)
}

// Explore runs all workers until the queues are empty or the deadline passes.
func (r *Run) Explore(workers int, budget time.Duration) {
	r.deadline = time.Now().Add(budget)
	t := time.AfterFunc(budget, func() {
		atomic.StoreInt32(&r.stop, 1)
		r.cond.Broadcast()
	})
	var wg sync.WaitGroup
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func(i int) { defer wg.Done(); r.worker(i) }(i)
	}
	wg.Wait()
	t.Stop()
	for i, q := range r.queues {
		if len(q) > 0 {
			r.hst[i].Incomplete = true
		}
	}
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
