package main

import (
	"encoding/binary"
	"math"
	"math/bits"
	"sort"
	"sync/atomic"
)

// Query preparation: constraint slicing, caching, and a small decision procedure for order
// constraints that prunes branches. Assertions are always decided by the SMT solver.

type qres struct {
	r      Res
	md     Model // over the slice's variables
	solver bool
}

// varsOf returns the variables of e, sorted by id.
func varsOf(e *Expr) []*Expr {
	if e.op == OConst {
		return nil
	}
	if e.vs != nil {
		return e.vs
	}
	if e.op == OVar {
		e.vs = []*Expr{e}
		return e.vs
	}
	var out []*Expr
	for _, k := range []*Expr{e.a, e.b, e.c} {
		if k == nil || k.op == OConst {
			continue
		}
		v := varsOf(k)
		if len(out) == 0 {
			out = v
			continue
		}
		out = mergeVars(out, v)
	}
	if out == nil {
		out = []*Expr{}
	}
	e.vs = out
	return out
}

func mergeVars(a, b []*Expr) []*Expr {
	i, j := 0, 0
	sub := true
	for j < len(b) {
		if i < len(a) && a[i].id < b[j].id {
			i++
			continue
		}
		if i < len(a) && a[i] == b[j] {
			i++
			j++
			continue
		}
		sub = false
		break
	}
	if sub {
		return a
	}
	out := make([]*Expr, 0, len(a)+len(b))
	i, j = 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j >= len(b) || i < len(a) && a[i].id < b[j].id:
			out = append(out, a[i])
			i++
		case i >= len(a) || b[j].id < a[i].id:
			out = append(out, b[j])
			j++
		default:
			out = append(out, a[i])
			i++
			j++
		}
	}
	return out
}

func (m *Machine) find(v *Expr) *Expr {
	p, ok := m.uf[v]
	if !ok || p == v {
		return v
	}
	r := m.find(p)
	m.uf[v] = r
	return r
}

// pcAdd appends a constraint and joins its variables.
func (m *Machine) pcAdd(e *Expr) {
	m.pc = append(m.pc, e)
	vs := varsOf(e)
	if len(vs) == 0 {
		return
	}
	r := m.find(vs[0])
	for _, v := range vs[1:] {
		q := m.find(v)
		if q != r {
			m.uf[q] = r
		}
	}
}

func (m *Machine) slice(extra *Expr) ([]*Expr, []*Expr) {
	ev := varsOf(extra)
	roots := make(map[*Expr]bool, len(ev))
	for _, v := range ev {
		roots[m.find(v)] = true
	}
	var sl []*Expr
	vs := map[*Expr]bool{}
	for _, v := range ev {
		vs[v] = true
	}
	for _, e := range m.pc {
		x := varsOf(e)
		if len(x) == 0 || roots[m.find(x[0])] {
			sl = append(sl, e)
			for _, v := range x {
				vs[v] = true
			}
		}
	}
	out := make([]*Expr, 0, len(vs))
	for v := range vs {
		out = append(out, v)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return sl, out
}

// check decides pc ∧ extra. The model of Sat satisfies the whole path condition.
func (m *Machine) check(extra *Expr, assertion bool) (Res, Model) {
	if extra.IsFalse() {
		return Unsat, nil
	}
	sl, vs := m.slice(extra)
	if extra.op == OAnd || extra.op == OOr || extra.op == OIte || extra.op == OFLt || extra.op == OFLe || extra.op == ONot && extra.a.op != OVar {
		if e := m.given(sl, extra); e != extra {
			if e.IsFalse() {
				return Unsat, nil
			}
			extra = e
			sl, vs = m.slice(extra)
		}
	}
	ids := make([]int32, 0, len(sl)+1)
	for _, e := range sl {
		ids = append(ids, e.id)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	kb := make([]byte, 0, 4*len(ids)+4)
	for i, x := range ids {
		if i > 0 && x == ids[i-1] {
			continue
		}
		kb = binary.LittleEndian.AppendUint32(kb, uint32(x))
	}
	kb = binary.LittleEndian.AppendUint32(kb, uint32(extra.id))
	key := string(kb)
	if q, ok := m.qcache[key]; ok && (q.solver || !assertion) {
		atomic.AddInt64(&m.run.stats.CacheHits, 1)
		if q.r == Sat {
			return Sat, m.mergeModel(q.md)
		}
		return q.r, nil
	}
	var q *qres
	if !assertion {
		if r, md, ok := m.orderSolve(sl, extra, vs); ok {
			atomic.AddInt64(&m.run.stats.OrderN, 1)
			q = &qres{r: r, md: md}
			if m.sol.cross && r == Unsat {
				r2, _ := m.sol.Check(sl, extra, vs)
				if r2 == Sat {
					atomic.AddInt64(&m.run.stats.CrossDisagree, 1)
					q = nil
				}
			}
		}
	}
	if q == nil && !assertion {
		if md, ok := m.guess(sl, extra, vs); ok {
			atomic.AddInt64(&m.run.stats.GuessN, 1)
			q = &qres{r: Sat, md: md}
		}
	}
	if q == nil {
		r, md := m.sol.Check(sl, extra, vs)
		q = &qres{r: r, md: md, solver: true}
	}
	if q.r != Unknown {
		if len(m.qcache) > 200000 {
			m.qcache = map[string]*qres{}
		}
		m.qcache[key] = q
	}
	if q.r == Sat {
		return Sat, m.mergeModel(q.md)
	}
	return q.r, nil
}

// given rewrites a condition with the conjuncts of the path condition that occur in it.
func (m *Machine) given(sl []*Expr, extra *Expr) *Expr {
	known := make(map[*Expr]bool, 2*len(sl))
	var add func(e *Expr)
	add = func(e *Expr) {
		switch {
		case e.op == OAnd:
			add(e.a)
			add(e.b)
		case e.op == ONot && e.a.op == OOr:
			add(m.ctx.Not(e.a.a))
			add(m.ctx.Not(e.a.b))
		case e.op == ONot:
			known[e.a] = false
		default:
			known[e] = true
		}
	}
	for _, e := range sl {
		add(e)
	}
	var fb fbounds
	for e, v := range known {
		if e.op != OFLt && e.op != OFLe {
			continue
		}
		x, up := e.a, true // the expression, and whether the constant bounds it from above
		k := e.b
		if e.a.IsConst() {
			x, k, up = e.b, e.a, false
		}
		if !k.IsConst() || x.IsConst() {
			continue
		}
		if !v {
			up = !up
		}
		lo, hi, ok := frange(x, 0) // not a NaN
		if !ok {
			continue
		}
		if fb == nil {
			fb = fbounds{}
		}
		if b, has := fb[x]; has {
			lo, hi = b[0], b[1]
		}
		if up {
			hi = min(hi, k.F())
		} else {
			lo = max(lo, k.F())
		}
		fb[x] = [2]float64{lo, hi}
	}
	n := 0
	var rw func(e *Expr) *Expr
	rw = func(e *Expr) *Expr {
		if v, ok := known[e]; ok {
			return m.ctx.Bool(v)
		}
		if n++; n > 200 {
			return e
		}
		switch e.op {
		case OFLt, OFLe:
			if fb == nil {
				break
			}
			al, ah, ok := frangeIn(fb, e.a, 0)
			bl, bh, ok2 := frangeIn(fb, e.b, 0)
			if ok && ok2 {
				switch {
				case ah < bl, e.op == OFLe && ah <= bl:
					return m.ctx.tru
				case al > bh, e.op == OFLt && al >= bh:
					return m.ctx.fls
				}
			}
		case ONot:
			if x := rw(e.a); x != e.a {
				return m.ctx.Not(x)
			}
		case OAnd, OOr:
			x, y := rw(e.a), rw(e.b)
			if x != e.a || y != e.b {
				return m.ctx.Bin(e.op, x, y)
			}
		case OIte:
			if e.sort == SBool {
				x, y, z := rw(e.a), rw(e.b), rw(e.c)
				if x != e.a || y != e.b || z != e.c {
					return m.ctx.Ite(x, y, z)
				}
			}
		}
		return e
	}
	return rw(extra)
}

func (m *Machine) mergeModel(md Model) Model {
	out := cloneModel(m.model)
	for k, v := range md {
		out[k] = v
	}
	return out
}

// ---- order constraints

type i128 struct {
	hi int64
	lo uint64
}

func fromI64(x int64) i128 {
	h := int64(0)
	if x < 0 {
		h = -1
	}
	return i128{h, uint64(x)}
}

func fromU64(x uint64) i128 { return i128{0, x} }

func (a i128) add(b i128) i128 {
	lo, c := bits.Add64(a.lo, b.lo, 0)
	return i128{a.hi + b.hi + int64(c), lo}
}

func (a i128) less(b i128) bool {
	if a.hi != b.hi {
		return a.hi < b.hi
	}
	return a.lo < b.lo
}

func (a i128) neg() i128 {
	lo, c := bits.Sub64(0, a.lo, 0)
	return i128{-a.hi - int64(c), lo}
}

type oedge struct {
	from, to int // to - from <= w
	w        i128
}

type oneq struct{ a, b *Expr }

type osolver struct {
	m      *Machine
	budget int
	idx    map[*Expr]int
	nodes  []*Expr // index 0 is zero
	sorts  []Sort
	md     Model
	extra  *Expr
	bad    bool
}

// orderSolve decides conjunctions of order literals; ok=false if the formula is something else.
func (m *Machine) orderSolve(sl []*Expr, extra *Expr, vs []*Expr) (Res, Model, bool) {
	if len(vs) > 60 {
		return Unknown, nil, false
	}
	for _, v := range vs {
		if v.sort == SFP {
			return Unknown, nil, false
		}
	}
	s := &osolver{m: m, budget: 400, idx: map[*Expr]int{}, nodes: []*Expr{nil}, extra: extra}
	todo := make([]*Expr, 0, len(sl)+1)
	todo = append(todo, extra)
	for i := len(sl) - 1; i >= 0; i-- {
		todo = append(todo, sl[i])
	}
	for _, v := range vs {
		if v.sort != SBool {
			s.node(v)
		}
	}
	bm := map[*Expr]bool{}
	r := s.solve(todo, nil, nil, bm)
	if s.bad {
		return Unknown, nil, false
	}
	if r {
		for _, v := range vs {
			if _, ok := s.md[v.name]; !ok {
				s.md[v.name] = v.lo
			}
		}
		// trust nothing: evaluate
		m.ctx.NewEpoch()
		good := m.ctx.Eval(extra, s.md) == 1
		for _, e := range sl {
			if !good {
				break
			}
			good = m.ctx.Eval(e, s.md) == 1
		}
		m.ctx.NewEpoch()
		if !good {
			return Unknown, nil, false
		}
		return Sat, s.md, true
	}
	return Unsat, nil, true
}

func (s *osolver) node(v *Expr) int {
	if i, ok := s.idx[v]; ok {
		return i
	}
	i := len(s.nodes)
	s.idx[v] = i
	s.nodes = append(s.nodes, v)
	return i
}

// signedVar: 64-bit variables are read as signed unless their range is given.
func valOf(e *Expr) i128 {
	if e.sort == 64 {
		return fromI64(int64(e.val))
	}
	return fromU64(e.val)
}

func (s *osolver) leafTerm(e *Expr) (int, i128, bool) {
	switch {
	case e.op == OConst && e.sort != SFP && e.sort != SBool:
		return 0, valOf(e), true
	case e.op == OVar && e.sort != SFP && e.sort != SBool:
		return s.node(e), i128{}, true
	case e.op == OZExt && e.a.op == OVar && e.a.sort != SBool:
		return s.node(e.a), i128{}, true // narrower variables are read as unsigned
	}
	return 0, i128{}, false
}

// cmp adds a < b (strict) or a <= b.
func (s *osolver) cmp(a, b *Expr, strict bool) (oedge, bool) {
	i, ci, ok1 := s.leafTerm(a)
	j, cj, ok2 := s.leafTerm(b)
	if !ok1 || !ok2 {
		return oedge{}, false
	}
	// i + ci <= j + cj  =>  i - j <= cj - ci
	w := cj.add(ci.neg())
	if strict {
		w = w.add(fromI64(-1))
	}
	return oedge{from: j, to: i, w: w}, true
}

// unsignedOK: an unsigned comparison of 64-bit terms means the same as the signed one.
func (s *osolver) nonneg(e *Expr) bool {
	switch e.op {
	case OConst:
		return e.sort < 64 || int64(e.val) >= 0
	case OVar:
		return e.sort < 64 || int64(e.hi) >= 0
	case OZExt:
		return true
	}
	return false
}

func (s *osolver) signedOK(e *Expr) bool {
	switch e.op {
	case OConst:
		return e.sort == 64 || e.val>>(e.sort-1) == 0
	case OVar:
		return e.sort == 64 || e.hi>>(e.sort-1) == 0
	case OZExt:
		return true
	}
	return false
}

func (s *osolver) solve(todo []*Expr, es []oedge, nq []oneq, bm map[*Expr]bool) bool {
	for {
		if s.bad {
			return false
		}
		if len(todo) == 0 {
			return s.leaf(es, nq, bm)
		}
		e := todo[len(todo)-1]
		todo = todo[: len(todo)-1 : len(todo)-1]
		neg := false
		for e.op == ONot {
			neg = !neg
			e = e.a
		}
		c := s.m.ctx
		split := func(a, b *Expr) bool {
			s.budget--
			if s.budget < 0 {
				s.bad = true
				return false
			}
			bm2 := make(map[*Expr]bool, len(bm))
			for k, v := range bm {
				bm2[k] = v
			}
			if s.solve(append(todo, a), es[:len(es):len(es)], nq[:len(nq):len(nq)], bm2) {
				return true
			}
			if s.bad {
				return false
			}
			return s.solve(append(todo, b), es[:len(es):len(es)], nq[:len(nq):len(nq)], bm)
		}
		switch e.op {
		case OConst:
			if (e.val == 1) == neg {
				return false
			}
			continue
		case OVar:
			if v, ok := bm[e]; ok {
				if v == neg {
					return false
				}
				continue
			}
			bm[e] = !neg
			continue
		case OAnd:
			if !neg {
				todo = append(todo, e.b, e.a)
				continue
			}
			return split(c.Not(e.a), c.And(e.a, c.Not(e.b)))
		case OOr:
			if neg {
				todo = append(todo, c.Not(e.b), c.Not(e.a))
				continue
			}
			return split(e.a, c.And(c.Not(e.a), e.b))
		case OIte:
			x, y := e.b, e.c
			if neg {
				x, y = c.Not(x), c.Not(y)
			}
			return split(c.And(e.a, x), c.And(c.Not(e.a), y))
		case OEq, OSlt, OSle, OUlt, OUle:
			a, b := e.a, e.b
			if a.sort == SFP {
				s.bad = true
				return false
			}
			if a.sort == SBool {
				x, y := c.And(a, b), c.And(c.Not(a), c.Not(b))
				if neg {
					x, y = c.And(a, c.Not(b)), c.And(c.Not(a), b)
				}
				return split(x, y)
			}
			if a.op == OIte || b.op == OIte {
				var cond, x, y *Expr
				if a.op == OIte {
					cond = a.a
					x, y = c.cmpOp(e.op, a.b, b), c.cmpOp(e.op, a.c, b)
				} else {
					cond = b.a
					x, y = c.cmpOp(e.op, a, b.b), c.cmpOp(e.op, a, b.c)
				}
				if neg {
					x, y = c.Not(x), c.Not(y)
				}
				return split(c.And(cond, x), c.And(c.Not(cond), y))
			}
			op := e.op
			if op == OEq {
				if neg {
					nq = append(nq, oneq{a, b})
					if _, _, ok := s.leafTerm(a); !ok {
						s.bad = true
					}
					if _, _, ok := s.leafTerm(b); !ok {
						s.bad = true
					}
					continue
				}
				e1, ok1 := s.cmp(a, b, false)
				e2, ok2 := s.cmp(b, a, false)
				if !ok1 || !ok2 {
					s.bad = true
					return false
				}
				es = append(es, e1, e2)
				continue
			}
			if op == OUlt || op == OUle {
				if a.sort == 64 && !(s.nonneg(a) && s.nonneg(b)) {
					// x <=u const with const non-negative bounds x on both sides
					if !neg && b.op == OConst && s.nonneg(b) && a.op == OVar {
						e1, _ := s.cmp(c.Const(64, 0), a, false)
						e2, _ := s.cmp(a, b, op == OUlt)
						es = append(es, e1, e2)
						continue
					}
					s.bad = true
					return false
				}
			} else if a.sort != 64 && !(s.signedOK(a) && s.signedOK(b)) {
				s.bad = true
				return false
			}
			strict := op == OUlt || op == OSlt
			if neg {
				a, b, strict = b, a, !strict
			}
			ed, ok := s.cmp(a, b, strict)
			if !ok {
				s.bad = true
				return false
			}
			es = append(es, ed)
			continue
		default:
			s.bad = true
			return false
		}
	}
}

func (s *osolver) leaf(es []oedge, nq []oneq, bm map[*Expr]bool) bool {
	n := len(s.nodes)
	all := es
	for i := 1; i < n; i++ {
		v := s.nodes[i]
		var lo, hi i128
		if v.sort == 64 && !(int64(v.hi) >= 0) {
			lo, hi = fromI64(-1<<63), fromI64(1<<63-1)
		} else {
			lo, hi = fromU64(v.lo), fromU64(v.hi)
		}
		all = append(all, oedge{from: 0, to: i, w: hi}, oedge{from: i, to: 0, w: lo.neg()})
	}
	d := make([]i128, n)
	for it := 0; ; it++ {
		ch := false
		for _, e := range all {
			x := d[e.from].add(e.w)
			if x.less(d[e.to]) {
				d[e.to] = x
				ch = true
			}
		}
		if !ch {
			break
		}
		if it > n {
			return false
		}
	}
	val := func(e *Expr) i128 {
		i, c, _ := s.leafTerm(e)
		return d[i].add(d[0].neg()).add(c)
	}
	for k, q := range nq {
		if val(q.a) == val(q.b) {
			s.budget--
			if s.budget < 0 {
				s.bad = true
				return false
			}
			rest := append(nq[:k:k], nq[k+1:]...)
			e1, ok1 := s.cmp(q.a, q.b, true)
			e2, ok2 := s.cmp(q.b, q.a, true)
			if !ok1 || !ok2 {
				s.bad = true
				return false
			}
			if s.leaf(append(es[:len(es):len(es)], e1), rest, bm) {
				return true
			}
			if s.bad {
				return false
			}
			return s.leaf(append(es[:len(es):len(es)], e2), rest, bm)
		}
	}
	md := Model{}
	for i := 1; i < n; i++ {
		v := s.nodes[i]
		md[v.name] = d[i].add(d[0].neg()).lo & mask(v.sort)
	}
	for b, v := range bm {
		if v {
			md[b.name] = 1
		} else {
			md[b.name] = 0
		}
	}
	s.md = md
	return true
}

func (c *Ctx) cmpOp(op Op, a, b *Expr) *Expr {
	if op == OEq {
		return c.Eq(a, b)
	}
	return c.Bin(op, a, b)
}

// guess looks for a model near the current one by evaluation alone.
func (m *Machine) guess(sl []*Expr, extra *Expr, vs []*Expr) (Model, bool) {
	fp := false
	var sides []*Expr
	seen := map[*Expr]bool{}
	var walk func(e *Expr)
	walk = func(e *Expr) {
		if e == nil || seen[e] || len(seen) > 400 {
			return
		}
		seen[e] = true
		switch e.op {
		case OFEq, OFLt, OFLe, OEq, OUlt, OUle, OSlt, OSle:
			if e.a.sort == SFP {
				fp = true
			}
			sides = append(sides, e.a, e.b)
		}
		walk(e.a)
		walk(e.b)
		walk(e.c)
	}
	walk(extra)
	if !fp || len(vs) > 40 {
		return nil, false
	}
	md := Model{}
	for _, v := range vs {
		x, ok := m.model[v.name]
		if !ok {
			x = v.lo
		}
		md[v.name] = x
	}
	test := func() bool {
		m.ctx.NewEpoch()
		if m.ctx.Eval(extra, md) != 1 {
			return false
		}
		for i := len(sl) - 1; i >= 0; i-- {
			if m.ctx.Eval(sl[i], md) != 1 {
				return false
			}
		}
		return true
	}
	defer m.ctx.NewEpoch()
	m.ctx.NewEpoch()
	pool := []uint64{0, 1, math.Float64bits(1), math.Float64bits(-1), math.Float64bits(0.5)}
	for i, e := range sides {
		if i > 12 {
			break
		}
		if e.sort == SFP || e.sort == 64 {
			x := m.ctx.Eval(e, md)
			pool = append(pool, x, x+1, x-1)
		}
	}
	own := varsOf(extra)
	if len(own) > 8 {
		own = own[:8]
	}
	for _, v := range own {
		old := md[v.name]
		top := mask(v.sort)
		if v.hi > 0 && v.hi < top {
			top = v.hi
		}
		for _, x := range append([]uint64{v.lo, top, v.lo + (top-v.lo)/2, v.lo + (top-v.lo)/3}, pool...) {
			x &= mask(v.sort)
			if x < v.lo || x > top {
				continue
			}
			md[v.name] = x
			if test() {
				return md, true
			}
		}
		md[v.name] = old
	}
	return nil, false
}
