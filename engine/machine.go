package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"os"
	"strings"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

// ---- path control

type Decision struct {
	V       uint64
	Implied bool // the other side was infeasible: nothing to assert
	Open    bool // pick a fresh value outside Excl
	Excl    []uint64
}

type Item struct {
	h      int
	prefix []Decision
	model  Model
}

type NondetRec struct {
	Name string `json:"n"`
	Kind string `json:"k"` // bool u8 i64 u64 f64 str choose
	e    *Expr
	es   []*Expr
	Int  int64
}

type pathEnd struct {
	kind string // done assume unsupported budget violation
	msg  string
}

type targetPanic struct {
	v    Iface
	orig string
}

type opKind uint8

const (
	opNone opKind = iota
	opReg
	opVal
	opGlobal
)

type operand struct {
	k   opKind
	idx int32
	v   Val
	g   *ssa.Global
}

type inst struct {
	ins ssa.Instruction
	dst int32
	ops []operand
}

type cblock struct {
	b     *ssa.BasicBlock
	ins   []inst
	nphi  int
	pure  int8 // -1 unknown 0 no 1 yes
	preds []*cblock
	succs []*cblock
}

type fnInfo struct {
	fn     *ssa.Function
	nregs  int
	blocks []*cblock
	params []int32
	frees  []int32
	locals map[*ssa.Alloc]bool
	intr   intrinsic
	intrOK bool
	path   string
	isRepo bool
	cov    int64
}

type frame struct {
	fi        *fnInfo
	regs      []Val
	defers    []func()
	panicking bool
	panicV    *targetPanic
	result    Val
	caller    *frame
	block     *cblock
	prev      *cblock
	phiOv     map[*ssa.Phi]Val
	recovered bool
	cur       *inst
}

type intrinsic func(m *Machine, fr *frame, fn *ssa.Function, args []Val) Val

type obsRec struct {
	Label string
	v     Val
}

type Machine struct {
	ctx    *Ctx
	sol    *Solver
	ld     *Loaded
	run    *Run
	fns    map[*ssa.Function]*fnInfo
	shared map[*ssa.Global]Ptr // non-repository globals
	inited map[*ssa.Package]bool
	implC  map[[2]types.Type]bool
	methC  map[methKey]*ssa.Function

	// per path
	globals   map[*ssa.Global]Ptr
	pc        []*Expr
	known     map[*Expr]bool
	concr     map[*Expr]uint64
	vars      []*Expr
	model     Model
	prefix    []Decision
	dpos      int
	decs      []Decision
	vec       []NondetRec
	obs       []obsRec
	instrs    int64
	depth     int
	nvar      int
	numReg    map[numKey]*Str
	numByVar  map[*Expr]*numEntry
	orderMode string
	revMode   int
	initDepth int
	asserts   int
	symAssert int
	files     map[string]Val
	params    map[string]int
	intLens   []int
	incon     []string
	symBr     int
	pathFns   map[*fnInfo]bool
	lastFn    string
	callStack []*frame
	allocs    int64
	strict    bool
	hcache    map[string]any
	opaqueN   int
	bodies    map[string]*fnInfo
	noIntr    bool
	rtypes    map[types.Type]Ptr
	uf        map[*Expr]*Expr
	qcache    map[string]*qres
	h         int
	poisoned  bool
	pend      []pendStore
	ordered   bool // a map with several entries was ranged over
}

type methKey struct {
	t    types.Type
	name string
}

func (m *Machine) unsupported(msg string) {
	if len(m.callStack) > 0 {
		for i := len(m.callStack) - 1; i >= 0 && i >= len(m.callStack)-3; i-- {
			msg += " <- " + m.callStack[i].fi.path
		}
	}
	panic(pathEnd{"unsupported", msg})
}

func (m *Machine) resetPath(it Item) {
	m.globals = map[*ssa.Global]Ptr{}
	m.pc = m.pc[:0]
	m.known = map[*Expr]bool{}
	m.concr = map[*Expr]uint64{}
	m.vars = nil
	m.model = it.model
	m.prefix = it.prefix
	m.dpos = 0
	m.decs = m.decs[:0]
	m.vec = nil
	m.obs = nil
	m.instrs = 0
	m.depth = 0
	m.nvar = 0
	m.numReg = map[numKey]*Str{}
	m.numByVar = map[*Expr]*numEntry{}
	m.orderMode = "rot"
	m.revMode = -1
	m.asserts = 0
	m.symAssert = 0
	m.files = map[string]Val{}
	m.incon = nil
	m.symBr = 0
	m.intLens = nil
	m.callStack = m.callStack[:0]
	m.allocs = 0
	m.initDepth = 0
	m.hcache = map[string]any{}
	m.ordered = false
	m.uf = map[*Expr]*Expr{}
	m.noIntr = false
	m.strict = false
	m.ctx.NewEpoch()
	if m.model == nil {
		m.model = Model{}
	}
}

func (m *Machine) newVar(s Sort, hint string) *Expr {
	m.nvar++
	e := m.ctx.Var(s, fmt.Sprintf("v%d_%s", m.nvar, sanitize(hint))+fmt.Sprintf("_%d", s))
	m.vars = append(m.vars, e)
	return e
}

func sanitize(s string) string {
	var b strings.Builder
	for _, c := range s {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' {
			b.WriteRune(c)
		}
	}
	return b.String()
}

func (m *Machine) setModel(md Model) {
	m.model = md
	m.ctx.NewEpoch()
}

func (m *Machine) addPC(e *Expr) {
	if e.IsTrue() {
		return
	}
	if e.op == OAnd {
		m.addPC(e.a)
		m.addPC(e.b)
		return
	}
	if m.known[e] {
		return
	}
	m.pcAdd(e)
	m.note(e, true)
}

func (m *Machine) note(e *Expr, v bool) {
	m.known[e] = v
	if e.op == ONot {
		m.known[e.a] = !v
	} else {
		m.known[m.ctx.Not(e)] = !v
	}
	if v && e.op == OEq && e.b.IsConst() {
		m.concr[e.a] = e.b.val
	}
}

func (m *Machine) lookupKnown(c *Expr) (bool, bool) {
	if c.IsConst() {
		return c.val == 1, true
	}
	if v, ok := m.known[c]; ok {
		return v, true
	}
	if c.op == OEq && c.b.IsConst() {
		if v, ok := m.concr[c.a]; ok {
			if c.a.sort != SFP {
				return v == c.b.val, true
			}
		}
	}
	return false, false
}

// branch decides a boolean, forking if both sides are feasible.
func (m *Machine) branch(c *Expr) bool {
	if v, ok := m.lookupKnown(c); ok {
		return v
	}
	m.symBr++
	if m.dpos < len(m.prefix) {
		d := m.prefix[m.dpos]
		m.dpos++
		m.decs = append(m.decs, d)
		v := d.V == 1
		if !d.Implied {
			if v {
				m.addPC(c)
			} else {
				m.addPC(m.ctx.Not(c))
			}
		} else {
			m.note(c, v)
		}
		return v
	}
	v := m.ctx.Eval(c, m.model) == 1
	oc := c
	if v {
		oc = m.ctx.Not(c)
	}
	r, md := m.check(oc, false)
	d := Decision{}
	if v {
		d.V = 1
	}
	switch r {
	case Unsat:
		d.Implied = true
		m.note(c, v)
	case Sat:
		od := Decision{V: 1 - d.V}
		m.push(od, md)
		if v {
			m.addPC(c)
		} else {
			m.addPC(m.ctx.Not(c))
		}
	default:
		m.incon = append(m.incon, "branch undecided by the solvers")
		if v {
			m.addPC(c)
		} else {
			m.addPC(m.ctx.Not(c))
		}
	}
	m.decs = append(m.decs, d)
	return v
}

func (m *Machine) push(last Decision, md Model) {
	p := make([]Decision, len(m.decs)+1)
	copy(p, m.decs)
	p[len(m.decs)] = last
	m.run.push(Item{h: m.h, prefix: p, model: md})
}

// choose picks one of n alternatives without a solver variable.
func (m *Machine) choose(n int, why string) int {
	if n <= 1 {
		return 0
	}
	if m.dpos < len(m.prefix) {
		d := m.prefix[m.dpos]
		m.dpos++
		m.decs = append(m.decs, d)
		return int(d.V)
	}
	for i := n - 1; i >= 1; i-- {
		m.push(Decision{V: uint64(i)}, m.model)
	}
	m.decs = append(m.decs, Decision{V: 0})
	return 0
}

// concretize picks a value of e, forking over all feasible ones.
func (m *Machine) concretize(e *Expr) uint64 {
	if e.IsConst() {
		return e.val
	}
	if v, ok := m.concr[e]; ok {
		return v
	}
	var d Decision
	if m.dpos < len(m.prefix) {
		d = m.prefix[m.dpos]
		m.dpos++
		if !d.Open {
			m.decs = append(m.decs, d)
			if !d.Implied {
				m.addPC(m.ctx.Eq(e, m.ctx.Const(e.sort, d.V)))
			}
			m.concr[e] = d.V
			return d.V
		}
	}
	for _, x := range d.Excl {
		m.addPC(m.ctx.Not(m.ctx.Eq(e, m.ctx.Const(e.sort, x))))
	}
	v := m.ctx.Eval(e, m.model)
	eqv := m.ctx.Eq(e, m.ctx.Const(e.sort, v))
	r, md := m.check(m.ctx.Not(eqv), false)
	nd := Decision{V: v}
	switch r {
	case Sat:
		if len(d.Excl) > 300 {
			m.incon = append(m.incon, "too many values of a symbolic index")
		} else {
			ex := append(append([]uint64{}, d.Excl...), v)
			m.push(Decision{Open: true, Excl: ex}, md)
		}
	case Unsat:
		nd.Implied = len(d.Excl) == 0
	default:
		m.incon = append(m.incon, "concretisation undecided")
	}
	m.decs = append(m.decs, nd)
	m.addPC(eqv)
	m.concr[e] = v
	return v
}

func (m *Machine) assume(c *Expr) {
	if v, ok := m.lookupKnown(c); ok {
		if !v {
			panic(pathEnd{"assume", ""})
		}
		return
	}
	if m.ctx.Eval(c, m.model) == 1 {
		m.addPC(c)
		return
	}
	r, md := m.check(c, false)
	switch r {
	case Sat:
		m.addPC(c)
		m.setModel(md)
	case Unsat:
		panic(pathEnd{"assume", ""})
	default:
		m.incon = append(m.incon, "assumption undecided")
		panic(pathEnd{"assume", "undecided"})
	}
}

func (m *Machine) assert(c *Expr, msg string) {
	m.asserts++
	if !c.IsConst() {
		m.symAssert++
	}
	if v, ok := m.lookupKnown(c); ok && v {
		return
	}
	if m.dpos < len(m.prefix) {
		return // discharged by the parent path
	}
	if m.ctx.Eval(c, m.model) == 0 {
		m.violation(msg, m.model, c)
	}
	r, md := m.check(m.ctx.Not(c), true)
	switch r {
	case Sat:
		m.violation(msg, md, c)
	case Unsat:
		m.note(c, true)
	default:
		m.incon = append(m.incon, "assertion undecided: "+msg)
	}
}

func (m *Machine) violation(msg string, md Model, c *Expr) {
	if len(m.numReg) > 0 && c != nil {
		md2, ok := m.refineNums(md, m.ctx.Not(c))
		if !ok {
			m.incon = append(m.incon, "number text not realisable: "+msg)
			panic(pathEnd{"unsupported", "number text not realisable: " + msg})
		}
		md = md2
	}
	if os.Getenv("GOSYM_PC") != "" {
		for _, e := range m.pc {
			fmt.Fprintln(os.Stderr, "PC", expand(e, 6))
		}
		if c != nil {
			fmt.Fprintln(os.Stderr, "ASSERT", expand(c, 12))
		}
	}
	m.run.report(m, msg, md)
	panic(pathEnd{"violation", msg})
}

func expand(e *Expr, d int) string {
	if e == nil {
		return ""
	}
	if e.op == OConst || e.op == OVar || d == 0 {
		return ref(e)
	}
	n := opNames[e.op]
	if n == "" {
		n = fmt.Sprintf("op%d", e.op)
	}
	s := "(" + n
	for _, x := range []*Expr{e.a, e.b, e.c} {
		if x != nil {
			s += " " + expand(x, d-1)
		}
	}
	return s + ")"
}

// vector renders the nondeterministic choices under a model.
func (m *Machine) vector(md Model) []any {
	m.ctx.NewEpoch()
	out := []any{}
	for _, r := range m.vec {
		rec := map[string]any{"n": r.Name, "k": r.Kind}
		switch r.Kind {
		case "choose":
			rec["i"] = fmt.Sprint(r.Int)
		case "str":
			b := make([]byte, len(r.es))
			for i, e := range r.es {
				b[i] = byte(m.ctx.Eval(e, md))
			}
			rec["s"] = fmt.Sprintf("%x", b)
		case "f64":
			rec["i"] = fmt.Sprintf("%d", m.ctx.Eval(r.e, md))
			rec["f"] = fmt.Sprintf("%v", math.Float64frombits(m.ctx.Eval(r.e, md)))
		case "i64":
			rec["i"] = fmt.Sprintf("%d", int64(m.ctx.Eval(r.e, md)))
		default:
			rec["i"] = fmt.Sprintf("%d", m.ctx.Eval(r.e, md))
		}
		out = append(out, rec)
	}
	m.ctx.NewEpoch()
	return out
}

// ---- target panics

func (m *Machine) rtPanic(msg string) {
	panic(targetPanic{v: Iface{t: m.ld.rtErrType, v: cstr(msg)}, orig: msg})
}

func (m *Machine) panicText(p targetPanic) string {
	if p.orig != "" {
		return p.orig
	}
	return m.describe(p.v)
}

func (m *Machine) describe(v Iface) string {
	if v.t == nil {
		return "nil"
	}
	switch x := v.v.(type) {
	case *Str:
		return m.strDesc(x)
	case Ptr:
		if x != nil {
			if s, ok := (*x).(Struct); ok && len(s) > 0 {
				if st, ok := s[0].(*Str); ok {
					return m.strDesc(st)
				}
			}
		}
	}
	return typeName(v.t)
}

func (m *Machine) strDesc(s *Str) string {
	if s.parts != nil {
		r := ""
		for _, p := range s.parts {
			switch {
			case p.str != nil:
				r += m.strDesc(p.str)
			case p.opq != "":
				r += p.opq
			default:
				r += "?"
			}
		}
		return r
	}
	if s.conc {
		return s.s
	}
	b := make([]byte, len(s.b))
	for i, e := range s.b {
		b[i] = byte(m.ctx.Eval(e, m.model))
	}
	return string(b)
}

// ---- function preparation

func (m *Machine) info(fn *ssa.Function) *fnInfo {
	if fi, ok := m.fns[fn]; ok {
		return fi
	}
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	fi := &fnInfo{fn: fn, path: name}
	if fn.Pkg != nil {
		fi.isRepo = isRepoPath(fn.Pkg.Pkg.Path())
	} else if o := fn.Origin(); o != nil && o.Pkg != nil {
		fi.isRepo = isRepoPath(o.Pkg.Pkg.Path())
	}
	m.fns[fn] = fi
	if m.noIntr {
	} else if f, ok := intrinsics[name]; ok {
		fi.intr = f
		fi.intrOK = true
		return fi
	}
	if fn.Pkg != nil && quietPkgs[fn.Pkg.Pkg.Path()] && fn.Name() != "init" {
		fi.intrOK = true
		fi.intr = func(m *Machine, fr *frame, fn *ssa.Function, args []Val) Val {
			res := fn.Signature.Results()
			switch res.Len() {
			case 0:
				return nil
			case 1:
				return m.zero(res.At(0).Type())
			}
			t := Tuple{}
			for i := 0; i < res.Len(); i++ {
				t = append(t, m.zero(res.At(i).Type()))
			}
			return t
		}
		return fi
	}
	if md := m.ld.models[name]; md != nil && md != fn && !m.noIntr {
		fi.intrOK = true
		fi.intr = func(m *Machine, fr *frame, fn *ssa.Function, args []Val) Val {
			return m.call(md, args, nil, fr)
		}
		return fi
	}
	if fn.Blocks == nil {
		return fi
	}
	idx := map[ssa.Value]int32{}
	n := int32(0)
	reg := func(v ssa.Value) int32 {
		i := n
		idx[v] = i
		n++
		return i
	}
	for _, p := range fn.Params {
		fi.params = append(fi.params, reg(p))
	}
	for _, p := range fn.FreeVars {
		fi.frees = append(fi.frees, reg(p))
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				reg(v)
			}
		}
	}
	fi.nregs = int(n)
	cbs := make([]*cblock, len(fn.Blocks))
	for i, b := range fn.Blocks {
		cbs[i] = &cblock{b: b, pure: -1}
	}
	var buf [16]*ssa.Value
	for i, b := range fn.Blocks {
		cb := cbs[i]
		for _, p := range b.Preds {
			cb.preds = append(cb.preds, cbs[p.Index])
		}
		for _, s := range b.Succs {
			cb.succs = append(cb.succs, cbs[s.Index])
		}
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			ci := inst{ins: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				ci.dst = idx[v]
			}
			if _, ok := in.(*ssa.Phi); ok {
				cb.nphi++
			}
			for _, op := range in.Operands(buf[:0]) {
				ci.ops = append(ci.ops, m.operand(*op, idx))
			}
			cb.ins = append(cb.ins, ci)
		}
	}
	fi.blocks = cbs
	return fi
}

func (m *Machine) operand(v ssa.Value, idx map[ssa.Value]int32) operand {
	switch x := v.(type) {
	case nil:
		return operand{k: opNone}
	case *ssa.Const:
		return operand{k: opVal, v: m.constVal(x)}
	case *ssa.Global:
		return operand{k: opGlobal, g: x}
	case *ssa.Function:
		return operand{k: opVal, v: x}
	case *ssa.Builtin:
		return operand{k: opVal, v: x}
	}
	i, ok := idx[v]
	if !ok {
		panic("operand not numbered: " + v.String())
	}
	return operand{k: opReg, idx: i}
}

func (m *Machine) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return m.zero(t)
	}
	if s, ok := sortOf(t); ok {
		switch {
		case s == SBool:
			return m.ctx.Bool(constant.BoolVal(c.Value))
		case s == SFP:
			f := c.Float64()
			if b := t.Underlying().(*types.Basic); b.Kind() == types.Float32 {
				f = float64(float32(f))
			}
			return m.ctx.Float(f)
		case isSigned(t):
			return m.ctx.Const(s, uint64(c.Int64()))
		default:
			return m.ctx.Const(s, c.Uint64())
		}
	}
	if isString(t) {
		if c.Value.Kind() == constant.String {
			return cstr(constant.StringVal(c.Value))
		}
		return cstr(string(rune(c.Int64())))
	}
	// interface or type parameter constants
	if _, ok := t.Underlying().(*types.Interface); ok {
		m.unsupported("interface constant")
	}
	return unsupportedVal{fmt.Sprintf("constant of type %v", t)}
}

type unsupportedVal struct{ msg string }

func (m *Machine) get(fr *frame, o *operand) Val {
	switch o.k {
	case opReg:
		return fr.regs[o.idx]
	case opVal:
		if u, ok := o.v.(unsupportedVal); ok {
			m.unsupported(u.msg)
		}
		return o.v
	case opGlobal:
		return m.global(o.g)
	}
	return nil
}

func isRepoPath(p string) bool { return strings.HasPrefix(p, repoModule) }

// global returns the address of g, running its package's initialiser on first use.
func (m *Machine) global(g *ssa.Global) Ptr {
	repo := isRepoPath(g.Pkg.Pkg.Path())
	tab := m.shared
	if repo {
		tab = m.globals
	}
	if p, ok := tab[g]; ok {
		return p
	}
	m.initPkg(g.Pkg, tab)
	if p, ok := tab[g]; ok {
		return p
	}
	p := new(Val)
	*p = m.zero(g.Type().(*types.Pointer).Elem())
	tab[g] = p
	return p
}

func (m *Machine) initPkg(p *ssa.Package, tab map[*ssa.Global]Ptr) {
	for _, mem := range p.Members {
		if g, ok := mem.(*ssa.Global); ok {
			if _, ok := tab[g]; !ok {
				v := new(Val)
				*v = m.zero(g.Type().(*types.Pointer).Elem())
				tab[g] = v
			}
		}
	}
	if skipInit[p.Pkg.Path()] {
		return
	}
	f := p.Func("init")
	if f == nil || f.Blocks == nil {
		return
	}
	m.initDepth++
	saved := m.callStack
	m.callStack = m.callStack[:len(m.callStack):len(m.callStack)]
	i0 := m.instrs
	m.call(f, nil, nil, nil)
	m.instrs = i0
	m.callStack = saved
	m.initDepth--
}

// ---- calls

const maxDepth = 1500

func (m *Machine) callVal(f Val, args []Val, fr *frame) Val {
	switch x := f.(type) {
	case *ssa.Function:
		if x == nil {
			m.rtPanic("runtime error: invalid memory address or nil pointer dereference")
		}
		return m.call(x, args, nil, fr)
	case *Closure:
		return m.call(x.fn, args, x.free, fr)
	case *nativeFn:
		return x.f(m, args)
	case *ssa.Builtin:
		return m.builtin(fr, x, args, nil)
	}
	m.unsupported(fmt.Sprintf("call of %T", f))
	return nil
}

func (m *Machine) call(fn *ssa.Function, args []Val, free []Val, caller *frame) Val {
	fi := m.info(fn)
	if fi.isRepo && m.pathFns != nil {
		m.pathFns[fi] = true
	}
	if fi.intrOK {
		return fi.intr(m, caller, fn, args)
	}
	if fn.Name() == "init" && m.initDepth > 0 && caller != nil && fn.Signature.Recv() == nil && fn.Synthetic == "package initializer" {
		return nil // initialisers of other packages run lazily
	}
	return m.callInfo(fi, fn, args, free, caller)
}

func (m *Machine) callInfo(fi *fnInfo, fn *ssa.Function, args []Val, free []Val, caller *frame) Val {
	if fi.blocks == nil {
		m.unsupported("no body: " + fi.path)
	}
	m.depth++
	if m.depth > maxDepth {
		panic(pathEnd{"budget", "call depth"})
	}
	fr := &frame{fi: fi, regs: make([]Val, fi.nregs), caller: caller}
	for i, p := range fi.params {
		fr.regs[p] = args[i]
	}
	for i, p := range fi.frees {
		fr.regs[p] = free[i]
	}
	m.callStack = append(m.callStack, fr)
	fr.block = fi.blocks[0]
	for fr.block != nil {
		m.runFrame(fr)
	}
	m.callStack = m.callStack[:len(m.callStack)-1]
	m.depth--
	return fr.result
}

func (m *Machine) runFrame(fr *frame) {
	defer func() {
		if fr.block == nil {
			return // normal return
		}
		r := recover()
		if r == nil {
			return
		}
		tp, ok := r.(targetPanic)
		if !ok {
			panic(r) // engine control flow
		}
		// unwind bookkeeping to this frame
		for i := len(m.callStack) - 1; i >= 0; i-- {
			if m.callStack[i] == fr {
				m.depth -= len(m.callStack) - 1 - i
				m.callStack = m.callStack[:i+1]
				break
			}
		}
		fr.panicking = true
		fr.panicV = &tp
		m.runDefers(fr)
		// recovered: continue at the Recover block or return zero values
		if rb := fr.fi.fn.Recover; rb != nil {
			fr.prev = nil
			fr.block = fr.fi.blocks[rb.Index]
		} else {
			fr.block = nil
			res := fr.fi.fn.Signature.Results()
			switch res.Len() {
			case 0:
				fr.result = nil
			case 1:
				fr.result = m.zero(res.At(0).Type())
			default:
				fr.result = m.zero(res)
			}
		}
	}()
	for {
		b := fr.block
		if b.nphi > 0 {
			m.phis(fr, b)
		}
		next := b
		for i := b.nphi; i < len(b.ins); i++ {
			in := &b.ins[i]
			m.instrs++
			fr.cur = in
			switch x := in.ins.(type) {
			case *ssa.If:
				next = m.doIf(fr, b, in)
			case *ssa.Jump:
				fr.prev = b
				fr.block = b.succs[0]
				next = nil
			case *ssa.Return:
				switch len(in.ops) {
				case 0:
				case 1:
					fr.result = m.get(fr, &in.ops[0])
				default:
					t := make(Tuple, len(in.ops))
					for j := range in.ops {
						t[j] = m.get(fr, &in.ops[j])
					}
					fr.result = t
				}
				fr.block = nil
				return
			case *ssa.Panic:
				v := m.get(fr, &in.ops[0]).(Iface)
				if v.t == nil {
					m.rtPanic("panic called with nil argument (use GODEBUG=panicnil=1 to disable)")
				}
				panic(targetPanic{v: v})
			case *ssa.RunDefers:
				m.runDefers(fr)
			default:
				m.exec(fr, in, x)
			}
		}
		_ = next
		if m.instrs > m.run.maxInstr && m.initDepth == 0 {
			panic(pathEnd{"budget", "instruction budget"})
		}
		if atomic.LoadInt32(&m.run.stop) != 0 {
			panic(pathEnd{"deadline", ""})
		}
	}
}

func (m *Machine) phis(fr *frame, b *cblock) {
	if fr.phiOv != nil {
		ov := fr.phiOv
		fr.phiOv = nil
		for i := 0; i < b.nphi; i++ {
			fr.regs[b.ins[i].dst] = ov[b.ins[i].ins.(*ssa.Phi)]
		}
		return
	}
	k := -1
	for i, p := range b.preds {
		if p == fr.prev {
			k = i
			break
		}
	}
	if b.nphi == 1 {
		in := &b.ins[0]
		fr.regs[in.dst] = m.get(fr, &in.ops[k])
		return
	}
	tmp := make([]Val, b.nphi)
	for i := 0; i < b.nphi; i++ {
		tmp[i] = m.get(fr, &b.ins[i].ops[k])
	}
	for i := 0; i < b.nphi; i++ {
		fr.regs[b.ins[i].dst] = tmp[i]
	}
}

func (m *Machine) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			defer func() {
				if r := recover(); r != nil {
					tp, ok := r.(targetPanic)
					if !ok {
						panic(r)
					}
					for i := len(m.callStack) - 1; i >= 0; i-- {
						if m.callStack[i] == fr {
							m.depth -= len(m.callStack) - 1 - i
							m.callStack = m.callStack[:i+1]
							break
						}
					}
					fr.panicking = true
					fr.panicV = &tp
				}
			}()
			d()
		}()
	}
	if fr.panicking {
		panic(*fr.panicV)
	}
}

func (m *Machine) doRecover(fr *frame) Val {
	// recover() is called by a deferred function; its caller frame is the one that may be panicking
	if fr != nil && fr.caller != nil && fr.caller.panicking {
		c := fr.caller
		c.panicking = false
		v := c.panicV.v
		return v
	}
	return Iface{}
}

// ---- conditional branches with merging of short-circuit and pure diamonds

func (m *Machine) doIf(fr *frame, b *cblock, in *inst) *cblock {
	c := m.get(fr, &in.ops[0]).(*Expr)
	if v, ok := m.lookupKnown(c); ok {
		m.goTo(fr, b, v)
		return nil
	}
	if !m.run.noMerge && m.tryMerge(fr, b, c) {
		return nil
	}
	m.goTo(fr, b, m.branch(c))
	return nil
}

func (m *Machine) goTo(fr *frame, b *cblock, v bool) {
	fr.prev = b
	if v {
		fr.block = b.succs[0]
	} else {
		fr.block = b.succs[1]
	}
}

func isPureBlock(b *cblock) bool {
	if b.pure >= 0 {
		return b.pure == 1
	}
	b.pure = 0
	if b.nphi > 0 || len(b.preds) != 1 || len(b.ins) > 14 {
		return false
	}
	stores := false
	for i := range b.ins {
		if stores {
			switch b.ins[i].ins.(type) {
			case *ssa.Store, *ssa.Jump:
			default:
				return false
			}
		}
		switch x := b.ins[i].ins.(type) {
		case *ssa.If, *ssa.Jump:
		case *ssa.Store:
			if _, ok := sortOf(x.Val.Type()); !ok {
				return false
			}
			stores = true
		case *ssa.BinOp:
			if x.Op == token.QUO || x.Op == token.REM {
				if _, ok := x.Y.(*ssa.Const); !ok && !isFloat(x.X.Type()) {
					return false
				}
			}
		case *ssa.UnOp:
			if x.Op == token.ARROW {
				return false
			}
		case *ssa.Convert:
			if _, ok := sortOf(x.Type()); !ok {
				return false
			}
			if _, ok := sortOf(x.X.Type()); !ok {
				return false
			}
		case *ssa.ChangeType, *ssa.FieldAddr, *ssa.Field, *ssa.IndexAddr, *ssa.Index, *ssa.Extract, *ssa.Lookup, *ssa.TypeAssert:
			if l, ok := x.(*ssa.Lookup); ok {
				if _, isMap := l.X.Type().Underlying().(*types.Map); isMap {
					return false
				}
			}
			if t, ok := x.(*ssa.TypeAssert); ok && !t.CommaOk {
				return false
			}
		case *ssa.Call:
			bi, ok := x.Call.Value.(*ssa.Builtin)
			if !ok || (bi.Name() != "len" && bi.Name() != "min" && bi.Name() != "max") {
				return false
			}
		default:
			return false
		}
	}
	b.pure = 1
	if stores {
		b.pure = 2
		return false
	}
	return true
}

func isStoreBlock(b *cblock) bool {
	isPureBlock(b)
	return b.pure == 2
}

type pendStore struct {
	p Ptr
	v *Expr
}

// specExec evaluates a pure block's instructions; false if something could go wrong.
func (m *Machine) specExec(fr *frame, b *cblock) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(targetPanic); is {
				ok = false
				return
			}
			if e, is := r.(specAbort); is {
				_ = e
				ok = false
				return
			}
			panic(r)
		}
	}()
	m.strict = true
	defer func() { m.strict = false }()
	m.pend = m.pend[:0]
	for i := range b.ins {
		in := &b.ins[i]
		switch x := in.ins.(type) {
		case *ssa.If, *ssa.Jump:
			return true
		case *ssa.Store:
			p, ok := m.get(fr, &in.ops[0]).(Ptr)
			if !ok || p == nil {
				return false
			}
			v, ok := m.get(fr, &in.ops[1]).(*Expr)
			if !ok {
				return false
			}
			old, ok := (*p).(*Expr)
			if !ok || old.sort != v.sort {
				return false
			}
			for _, q := range m.pend {
				if q.p == p {
					return false
				}
			}
			m.pend = append(m.pend, pendStore{p, v})
		case *ssa.IndexAddr, *ssa.Index, *ssa.Lookup:
			if e, ok := m.get(fr, &in.ops[1]).(*Expr); !ok || !e.IsConst() {
				return false
			}
			m.exec(fr, in, x)
		case *ssa.UnOp:
			if x.Op == token.MUL {
				p, ok := m.get(fr, &in.ops[0]).(Ptr)
				if !ok || p == nil {
					return false
				}
			}
			m.exec(fr, in, x)
		default:
			m.exec(fr, in, x)
		}
	}
	return true
}

type specAbort struct{}

type edge struct {
	to   *cblock
	phis []Val // merged phi values at to
}

func (m *Machine) edgeVals(fr *frame, from, to *cblock) []Val {
	if to.nphi == 0 {
		return nil
	}
	k := -1
	for i, p := range to.preds {
		if p == from {
			k = i
			break
		}
	}
	r := make([]Val, to.nphi)
	for i := range r {
		r[i] = m.get(fr, &to.ins[i].ops[k])
	}
	return r
}

// indexLike: merging two concrete integers (positions, counters) would make every later index symbolic.
func indexLike(x, y *Expr) bool {
	return x.sort == 64 && x != y && x.IsConst() && y.IsConst()
}

func (m *Machine) mergeVals(c *Expr, a, b []Val) ([]Val, bool) {
	r := make([]Val, len(a))
	for i := range a {
		if a[i] == nil && b[i] == nil {
			continue
		}
		x, ok1 := a[i].(*Expr)
		y, ok2 := b[i].(*Expr)
		if ok1 && ok2 {
			if x.sort != y.sort || indexLike(x, y) {
				return nil, false
			}
			r[i] = m.ctx.Ite(c, x, y)
			continue
		}
		if sx, ok := a[i].(*Str); ok {
			if sy, ok := b[i].(*Str); ok && sx == sy {
				r[i] = sx
				continue
			}
			return nil, false
		}
		if fa, ok := a[i].(Iface); ok {
			if fb, ok := b[i].(Iface); ok && fa.t == nil && fb.t == nil {
				r[i] = Iface{}
				continue
			}
			return nil, false
		}
		if pa, ok := a[i].(Ptr); ok {
			if pb, ok := b[i].(Ptr); ok && pa == pb {
				r[i] = pa
				continue
			}
			return nil, false
		}
		return nil, false
	}
	return r, true
}

func lastIns(b *cblock) *inst { return &b.ins[len(b.ins)-1] }

func (m *Machine) tryMerge(fr *frame, b *cblock, c *Expr) bool {
	T, F := b.succs[0], b.succs[1]
	if !isPureBlock(T) && !isPureBlock(F) && !isStoreBlock(T) && !isStoreBlock(F) {
		return false
	}
	if T == F {
		return false
	}
	tv, fv := m.edgeVals(fr, b, T), m.edgeVals(fr, b, F)
	merged := false
	jump := func(to *cblock, vals []Val) {
		if to.nphi > 0 {
			ov := map[*ssa.Phi]Val{}
			for i, v := range vals {
				ov[to.ins[i].ins.(*ssa.Phi)] = v
			}
			fr.phiOv = ov
		}
		fr.prev = b
		fr.block = to
	}
	for steps := 0; steps < 40; steps++ {
		if isPureBlock(F) && F != T && len(F.preds) == 1 {
			if _, ok := lastIns(F).ins.(*ssa.If); ok && (F.succs[0] == T || F.succs[1] == T) && F.succs[0] != F.succs[1] && m.specExec(fr, F) {
				d := m.get(fr, &lastIns(F).ops[0]).(*Expr)
				x := F.succs[1]
				if F.succs[1] == T {
					d = m.ctx.Not(d)
					x = F.succs[0]
				}
				if x != F && x != b {
					nv, ok := m.mergeVals(c, tv, m.edgeVals(fr, F, T))
					if ok {
						tv = nv
						fv = m.edgeVals(fr, F, x)
						c = m.ctx.Or(c, d)
						F = x
						merged = true
						if T == F {
							break
						}
						continue
					}
				}
			}
		}
		if isPureBlock(T) && F != T && len(T.preds) == 1 {
			if _, ok := lastIns(T).ins.(*ssa.If); ok && (T.succs[0] == F || T.succs[1] == F) && T.succs[0] != T.succs[1] && m.specExec(fr, T) {
				d := m.get(fr, &lastIns(T).ops[0]).(*Expr)
				x := T.succs[0]
				if T.succs[0] == F {
					d = m.ctx.Not(d)
					x = T.succs[1]
				}
				if x != T && x != b {
					// F reached if !c or !d
					nv, ok := m.mergeVals(m.ctx.Not(c), fv, m.edgeVals(fr, T, F))
					if ok {
						fv = nv
						tv = m.edgeVals(fr, T, x)
						c = m.ctx.And(c, d)
						T = x
						merged = true
						continue
					}
				}
			}
		}
		// triangles and diamonds
		tj, fj := T, F
		tvj, fvj := tv, fv
		var ts, fs []pendStore
		if isJumpPure(T) && T != b {
			if T.succs[0] == F || (isJumpPure(F) && F.succs[0] == T.succs[0]) {
				if m.specExec(fr, T) {
					tj = T.succs[0]
					tvj = m.edgeVals(fr, T, tj)
					ts = append(ts, m.pend...)
				}
			}
		}
		if isJumpPure(F) && F != b && F.succs[0] == tj {
			if m.specExec(fr, F) {
				fj = F.succs[0]
				fvj = m.edgeVals(fr, F, fj)
				fs = append(fs, m.pend...)
			}
		}
		for _, q := range ts {
			if indexLike(q.v, (*q.p).(*Expr)) {
				tj, fj = nil, F
			}
		}
		for _, q := range fs {
			if indexLike(q.v, (*q.p).(*Expr)) {
				tj, fj = nil, F
			}
		}
		if tj == fj {
			if nv, ok := m.mergeVals(c, tvj, fvj); ok {
				for _, q := range ts {
					*q.p = m.ctx.Ite(c, q.v, (*q.p).(*Expr))
				}
				for _, q := range fs {
					*q.p = m.ctx.Ite(c, (*q.p).(*Expr), q.v)
				}
				jump(tj, nv)
				return true
			}
		}
		break
	}
	if !merged {
		return false
	}
	if T == F {
		nv, ok := m.mergeVals(c, tv, fv)
		if ok {
			jump(T, nv)
			return true
		}
	}
	if m.branch(c) {
		jump(T, tv)
	} else {
		jump(F, fv)
	}
	return true
}

func isJumpPure(b *cblock) bool {
	_, ok := lastIns(b).ins.(*ssa.Jump)
	return ok && (isPureBlock(b) || isStoreBlock(b))
}
