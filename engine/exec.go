package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type deferRec struct {
	cl   *Closure
	args []Value
	iv   *invokeRec
}
type invokeRec struct {
	recv Iface
	m    *types.Func
}

type Frame struct {
	fi     *FnInfo
	regs   []Value
	block  *ssa.BasicBlock
	ip     int
	prev   *ssa.BasicBlock
	defers []deferRec
	ret    ssa.Value // register of the caller that receives the result (nil: dropped)
	// deferred-call bookkeeping
	isDefer   bool // this frame runs a deferred call of the frame below
	unwinding bool // ... because of a panic
	hook      func(e *Exec, s *State, res Value) []*State
	rundef    bool
}

type PC struct {
	parent *PC
	t      *Term
	n      int
}

type State struct {
	frames []*Frame
	heap   *Heap
	pc     *PC
	known  map[int]*Term
	cnt    map[string]int
	token  string
	pan    *panicInfo
	done   bool
	steps  int
	nass   int
	trail  []string // labels asserted on this path (for witness validation)
}

type panicInfo struct {
	v         Value
	msg       string
	recovered bool
}

// ---------- exec ----------

type Candidate struct {
	Label string
	Kind  string // assert, panic, real-div
	PC    []*Term
	Extra *Term
	Model *Model
}

type Exec struct {
	tc    *TC
	marks map[int]*Term
	sol   *Solver
	prog  *ssa.Program
	eng   *Engine
	job   *Job

	nobj    int
	globals map[*ssa.Global]int
	sizeC   map[types.Type]int
	consts  map[*ssa.Const]Value

	States   int
	Steps    int
	Forks    int
	Merges   int
	Paths    int
	Asserts  int // assertions decided
	Closed   int // by normalisation alone
	Proved   int // by a solver verdict
	Unk      []string
	Incompl  map[string]int
	Cands    []*Candidate
	Fns      map[*ssa.Function]bool
	Notes    map[string]bool
	Covers   map[string]int
	Labels   map[string]int
	deadline time.Time
	maxSteps int
	initing  bool
	witness  []*Model
	divzero  map[string]bool
	inits    map[*ssa.Package]int
	syms     []*Term
	symSeen  map[string]bool
	candSeen map[string]int
	fpMemo   map[int]bool
	asol     *Solver
	prefer   []*Term
	fresh    int

	pathAsserts int
	emptyPaths  int
}

func (e *Exec) fn(s *State) *Frame { return s.frames[len(s.frames)-1] }

func (s *State) clone() *State {
	h := s.heap
	n := &State{pc: s.pc, token: s.token, pan: s.pan, steps: s.steps, nass: s.nass}
	n.frames = make([]*Frame, len(s.frames))
	for i, f := range s.frames {
		g := *f
		g.regs = append([]Value(nil), f.regs...)
		g.defers = f.defers[:len(f.defers):len(f.defers)]
		n.frames[i] = &g
	}
	n.heap = h.child()
	s.heap = h.child()
	n.known = make(map[int]*Term, len(s.known)+4)
	for k, v := range s.known {
		n.known[k] = v
	}
	n.cnt = make(map[string]int, len(s.cnt))
	for k, v := range s.cnt {
		n.cnt[k] = v
	}
	n.trail = s.trail[:len(s.trail):len(s.trail)]
	return n
}

func (s *State) pcList() []*Term {
	if s.pc == nil {
		return nil
	}
	out := make([]*Term, s.pc.n)
	for p := s.pc; p != nil; p = p.parent {
		out[p.n-1] = p.t
	}
	return out
}

func (e *Exec) assume(s *State, c *Term) {
	if c == e.tc.True {
		return
	}
	if c.op == OAnd {
		for _, x := range c.a {
			e.assume(s, x)
		}
		return
	}
	if k, ok := s.known[c.id]; ok && k == e.tc.True {
		return
	}
	n := 1
	if s.pc != nil {
		n = s.pc.n + 1
	}
	s.pc = &PC{s.pc, c, n}
	e.learn(s, c)
}

func (e *Exec) learn(s *State, c *Term) {
	s.known[c.id] = e.tc.True
	s.known[e.tc.Not(c).id] = e.tc.False
	if c.op == OEq {
		a, b := c.a[0], c.a[1]
		if b.isConst() && a.s.K == KBV && a.op != OPoly {
			s.known[a.id] = b
		} else if a.isConst() && b.s.K == KBV && b.op != OPoly {
			s.known[b.id] = a
		}
	}
}

func (e *Exec) simp(s *State, t *Term) *Term {
	if t.op == OConst {
		return t
	}
	if k, ok := s.known[t.id]; ok {
		return k
	}
	return t
}

// feasible asks whether the path condition together with c is satisfiable; unknown counts as yes.
func (e *Exec) feasible(s *State, c *Term) bool {
	if c == e.tc.True {
		return true
	}
	if c == e.tc.False {
		return false
	}
	if e.rangeUnsat(s, c) {
		return false
	}
	if e.rangeUnsat(s, e.tc.Not(c)) {
		return true // implied by the path condition, which is satisfiable
	}
	r, _ := e.sol.Check(s.pcList(), c, nil, false)
	return r != Unsat
}

// absUnsat: already the over-approximation without products and functions excludes c.
func (e *Exec) absUnsat(s *State, c *Term) bool {
	if e.rangeUnsat(s, c) {
		return true
	}
	if e.asol == nil {
		e.asol = NewAbstractSolver(e.tc, 1000)
		e.asol.deadline = e.deadline
	}
	r, _ := e.asol.Check(s.pcList(), c, nil, false)
	return r == Unsat
}

type Stop struct {
	depth int
	block *ssa.BasicBlock
}

func (st Stop) reached(s *State) bool {
	if s.done || len(s.frames) < st.depth {
		return true
	}
	if len(s.frames) == st.depth && st.block != nil {
		f := s.frames[len(s.frames)-1]
		return f.block == st.block && f.ip == f.fi.nphi[st.block.Index]
	}
	return false
}

// run executes s until the stop condition; the returned states have reached it (or are done).
func (e *Exec) run(s *State, stop Stop) (out []*State) {
	for {
		next, merge, dropped := e.stepSafe(s)
		if dropped {
			return out
		}
		if next == nil {
			if stop.reached(s) {
				return append(out, s)
			}
			continue
		}
		// fork
		e.Forks++
		e.States += len(next)
		base := next[0].heap.parent
		if merge == nil {
			for _, n := range next {
				if stop.reached(n) {
					out = append(out, n)
				} else {
					out = append(out, e.run(n, stop)...)
				}
			}
			return out
		}
		var res []*State
		for _, n := range next {
			if merge.reached(n) {
				res = append(res, n)
			} else {
				res = append(res, e.run(n, *merge)...)
			}
		}
		res = e.mergeAll(res)
		if len(res) == 1 {
			e.squash(res[0], base)
			s = res[0]
			if stop.reached(s) {
				return append(out, s)
			}
			continue
		}
		for _, n := range res {
			if stop.reached(n) {
				out = append(out, n)
			} else {
				out = append(out, e.run(n, stop)...)
			}
		}
		return out
	}
}

func (e *Exec) squash(s *State, base *Heap) {
	if base == nil || s.heap == base {
		return
	}
	var chain []*Heap
	h := s.heap
	for h != nil && h != base {
		chain = append(chain, h)
		h = h.parent
	}
	if h != base {
		return
	}
	for i := len(chain) - 1; i >= 0; i-- {
		for id, o := range chain[i].m {
			base.m[id] = o
		}
	}
	s.heap = base
}

func (e *Exec) mergeAll(in []*State) []*State {
	var out []*State
next:
	for _, s := range in {
		if s.done {
			out = append(out, s)
			continue
		}
		for i, o := range out {
			if o.done {
				continue
			}
			if m := e.merge(o, s); m != nil {
				out[i] = m
				e.Merges++
				continue next
			}
		}
		out = append(out, s)
	}
	return out
}

func (e *Exec) merge(a, b *State) *State {
	if a.token != b.token || len(a.frames) != len(b.frames) || a.pan != b.pan || len(a.cnt) != len(b.cnt) {
		return nil
	}
	for k, v := range a.cnt {
		if b.cnt[k] != v {
			return nil
		}
	}
	n := len(a.frames)
	for i := 0; i < n; i++ {
		f, g := a.frames[i], b.frames[i]
		if f.fi != g.fi || f.block != g.block || f.ip != g.ip || len(f.defers) != len(g.defers) || f.isDefer != g.isDefer || f.unwinding != g.unwinding {
			return nil
		}
	}
	// guards
	pa, pb := a.pc, b.pc
	var ta, tb []*Term
	pn := func(p *PC) int {
		if p == nil {
			return 0
		}
		return p.n
	}
	for pa != pb {
		if pn(pa) >= pn(pb) {
			ta = append(ta, pa.t)
			pa = pa.parent
		} else {
			tb = append(tb, pb.t)
			pb = pb.parent
		}
	}
	ga, gb := e.tc.And(ta...), e.tc.And(tb...)
	// registers
	regs := make([][]Value, n)
	for i := 0; i < n; i++ {
		f, g := a.frames[i], b.frames[i]
		if &f.regs[0:1][0] == &g.regs[0:1][0] {
			regs[i] = f.regs
			continue
		}
		r := make([]Value, len(f.regs))
		top := i == n-1 && f.ip == f.fi.nphi[f.block.Index]
		var lv []uint64
		if top {
			lv = f.fi.live[f.block.Index]
		}
		for k := range r {
			if top && lv[k/64]>>uint(k%64)&1 == 0 {
				continue
			}
			if f.regs[k] == nil || g.regs[k] == nil {
				if f.regs[k] == nil && g.regs[k] == nil {
					continue
				}
				// defined on one side only: dead in any strict SSA program
				continue
			}
			v, ok := e.mergeVal(ga, f.regs[k], g.regs[k])
			if !ok {
				return nil
			}
			r[k] = v
		}
		regs[i] = r
	}
	// heap
	ha, hb := a.heap, b.heap
	x, y := ha, hb
	da, db := map[int]*Obj{}, map[int]*Obj{}
	take := func(d map[int]*Obj, h *Heap) {
		for id, o := range h.m {
			if _, ok := d[id]; !ok {
				d[id] = o
			}
		}
	}
	for x != y {
		if x == nil || y == nil {
			return nil
		}
		if x.depth >= y.depth {
			take(da, x)
			x = x.parent
		} else {
			take(db, y)
			y = y.parent
		}
	}
	nh := x.child()
	mergeObj := func(id int, oa, ob *Obj) bool {
		if oa == ob {
			nh.m[id] = oa
			return true
		}
		if len(oa.v) != len(ob.v) {
			return false
		}
		m := &Obj{v: make([]Value, len(oa.v))}
		for i := range oa.v {
			v, ok := e.mergeVal(ga, oa.v[i], ob.v[i])
			if !ok {
				return false
			}
			m.v[i] = v
		}
		nh.m[id] = m
		return true
	}
	for id, oa := range da {
		ob, ok := db[id]
		if !ok {
			ob, ok = x.lookup(id)
			if !ok {
				nh.m[id] = oa
				continue
			}
		}
		if !mergeObj(id, oa, ob) {
			return nil
		}
	}
	for id, ob := range db {
		if _, ok := da[id]; ok {
			continue
		}
		oa, ok := x.lookup(id)
		if !ok {
			nh.m[id] = ob
			continue
		}
		if !mergeObj(id, oa, ob) {
			return nil
		}
	}
	// build
	m := &State{frames: make([]*Frame, n), heap: nh, pc: pa, token: a.token, pan: a.pan, cnt: a.cnt, steps: a.steps, nass: a.nass, trail: a.trail}
	for i := range m.frames {
		f := *a.frames[i]
		f.regs = regs[i]
		m.frames[i] = &f
	}
	m.known = map[int]*Term{}
	for k, v := range a.known {
		if b.known[k] == v {
			m.known[k] = v
		}
	}
	e.assume(m, e.tc.Or(ga, gb))
	return m
}

// ---------- stepping ----------

func (e *Exec) incomplete(msg string) { e.Incompl[msg]++ }

func (e *Exec) stepSafe(s *State) (next []*State, merge *Stop, dropped bool) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok {
				where := ""
				if len(s.frames) > 0 {
					f := e.fn(s)
					where = f.fi.fn.String()
					if f.ip < len(f.block.Instrs) {
						where += " " + e.prog.Fset.Position(f.block.Instrs[f.ip].Pos()).String()
					}
				}
				e.incomplete("unsupported: " + u.msg + " in " + where)
				next, merge, dropped = nil, nil, true
				return
			}
			panic(r)
		}
	}()
	e.Steps++
	if e.Steps&1023 == 0 && time.Now().After(e.deadline) {
		e.incomplete("time budget of the job exhausted")
		return nil, nil, true
	}
	if e.Steps > e.maxSteps {
		e.incomplete("step budget of the job exhausted")
		return nil, nil, true
	}
	if s.done {
		return nil, nil, false
	}
	next, merge = e.step(s)
	if next != nil && len(next) == 0 {
		return nil, nil, true
	}
	return next, merge, false
}

func (e *Exec) get(s *State, f *Frame, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return e.constVal(x)
	case *ssa.Function:
		return &Closure{Fn: x}
	case *ssa.Global:
		return Ptr{e.globalObj(s, x), 0}
	case *ssa.Builtin:
		return &Closure{Bi: x}
	}
	i, ok := f.fi.slot[v]
	if !ok {
		unsup("no slot for %v", v)
	}
	r := f.regs[i]
	if r == nil {
		unsup("undefined register %s in %s", v.Name(), f.fi.fn)
	}
	if t, ok := r.(*Term); ok {
		return e.simp(s, t)
	}
	return r
}

func (e *Exec) term(s *State, f *Frame, v ssa.Value) *Term {
	x := e.get(s, f, v)
	t, ok := x.(*Term)
	if !ok {
		unsup("expected scalar, got %T for %v", x, v)
	}
	return t
}

func (e *Exec) set(f *Frame, v ssa.Value, x Value) { f.regs[f.fi.slot[v]] = x }

func (e *Exec) constVal(c *ssa.Const) Value {
	if v, ok := e.consts[c]; ok {
		return v
	}
	v := e.mkConst(c)
	e.consts[c] = v
	return v
}

func (e *Exec) mkConst(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return e.zero(t)
	}
	if b, ok := under(t).(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return e.tc.Bool(constant.BoolVal(c.Value))
		case b.Info()&types.IsString != 0:
			return Str{S: constant.StringVal(c.Value)}
		case b.Info()&types.IsInteger != 0:
			st, _ := e.sortOf(t)
			v := constant.ToInt(c.Value)
			if i, ok := constant.Int64Val(v); ok {
				return e.tc.BVc(st.W, uint64(i))
			}
			u, _ := constant.Uint64Val(v)
			return e.tc.BVc(st.W, u)
		case b.Info()&types.IsFloat != 0:
			fv, _ := constant.Float64Val(c.Value)
			if floatW(t) == 32 {
				f32, _ := constant.Float32Val(c.Value)
				fv = float64(f32)
			}
			if e.tc.RealMode {
				// the decimal literal itself, not its rounding
				if r, ok := new(big.Rat).SetString(constant.ToFloat(c.Value).ExactString()); ok {
					if r.Denom().BitLen() < 200 {
						return e.tc.RealC(r)
					}
				}
			}
			return e.tc.FloatConst(floatW(t), fv)
		}
	}
	unsup("constant %v", c)
	return nil
}

func (e *Exec) alloc(s *State, cells []Value) int {
	e.nobj++
	s.heap.m[e.nobj] = &Obj{v: cells}
	return e.nobj
}

func (e *Exec) globalObj(s *State, g *ssa.Global) int {
	id, ok := e.globals[g]
	if !ok {
		e.nobj++
		id = e.nobj
		e.globals[g] = id
	}
	if _, ok := s.heap.lookup(id); !ok {
		e.fillGlobal(s, g, id)
	}
	return id
}

// ---------- memory ----------

func (e *Exec) loadCells(s *State, p Ptr, n int) []Value {
	o := s.heap.get(p.Obj)
	if p.Off < 0 || p.Off+n > len(o.v) {
		unsup("load outside object: off %d n %d len %d", p.Off, n, len(o.v))
	}
	return o.v[p.Off : p.Off+n]
}

func (e *Exec) load(s *State, p Ptr, t types.Type) Value {
	if isAgg(t) {
		n := e.sizeOf(t)
		if n == 0 {
			return Agg{}
		}
		return Agg(append([]Value(nil), e.loadCells(s, p, n)...))
	}
	return e.loadCells(s, p, 1)[0]
}

func (e *Exec) store(s *State, p Ptr, v Value) {
	if a, ok := v.(Agg); ok {
		if len(a) == 0 {
			return
		}
		o := s.heap.own(p.Obj)
		if p.Off+len(a) > len(o.v) {
			unsup("store outside object")
		}
		copy(o.v[p.Off:], a)
		return
	}
	o := s.heap.own(p.Obj)
	if p.Off >= len(o.v) {
		unsup("store outside object")
	}
	o.v[p.Off] = v
}

// nilCheck resolves a pointer value to its non-nil alternatives; the nil case becomes a panic state.
func (e *Exec) nilCheck(s *State, v Value) (PtrU, []*State, bool) {
	switch p := v.(type) {
	case Ptr:
		if p.Obj == 0 {
			return nil, e.doPanic(s, nil, "runtime error: invalid memory address or nil pointer dereference"), false
		}
		return PtrU{{e.tc.True, p}}, nil, true
	case PtrU:
		nilg := e.tc.False
		var out PtrU
		for _, a := range p {
			if a.p.Obj == 0 {
				nilg = e.tc.Or(nilg, a.g)
			} else {
				out = append(out, a)
			}
		}
		if nilg != e.tc.False {
			ok, extra := e.check(s, e.tc.Not(nilg), "runtime error: invalid memory address or nil pointer dereference")
			if !ok {
				return nil, extra, false
			}
			if extra != nil {
				unsup("pointer union with nil and live panic handlers")
			}
		}
		return out, nil, true
	}
	unsup("pointer expected, got %T", v)
	return nil, nil, false
}

// check continues s under cond; if not cond is feasible that becomes a panic. ok=false: s itself cannot go on.
// extra: additional states (panics that have handlers).
func (e *Exec) check(s *State, cond *Term, msg string) (bool, []*State) {
	cond = e.simp(s, cond)
	if cond == e.tc.True {
		return true, nil
	}
	neg := e.tc.Not(cond)
	if cond == e.tc.False {
		return false, e.doPanic(s, nil, msg)
	}
	if !e.feasible(s, neg) {
		e.learn(s, cond)
		return true, nil
	}
	var extra []*State
	if e.hasDefers(s) {
		p := s.clone()
		e.assume(p, neg)
		extra = e.doPanic(p, nil, msg)
		if extra == nil {
			extra = []*State{p}
		}
	} else {
		e.report(s, neg, "panic: "+msg, "panic")
	}
	if !e.feasible(s, cond) {
		return false, extra
	}
	e.assume(s, cond)
	return true, extra
}

func (e *Exec) hasDefers(s *State) bool {
	for _, f := range s.frames {
		if len(f.defers) > 0 {
			return true
		}
	}
	return false
}

// doPanic starts unwinding. nil result: s goes on (in a deferred call); empty: path ended.
func (e *Exec) doPanic(s *State, v Value, msg string) []*State {
	s.pan = &panicInfo{v: v, msg: msg}
	return e.unwind(s)
}

func (e *Exec) unwind(s *State) []*State {
	for len(s.frames) > 0 {
		f := e.fn(s)
		if len(f.defers) > 0 {
			d := f.defers[len(f.defers)-1]
			f.defers = f.defers[:len(f.defers)-1]
			return e.callDeferred(s, d, true)
		}
		s.frames = s.frames[:len(s.frames)-1]
		_ = f
	}
	e.report(s, e.tc.True, "panic: "+s.pan.msg, "panic")
	return []*State{}
}

func (e *Exec) callDeferred(s *State, d deferRec, unw bool) []*State {
	n := len(s.frames)
	var r []*State
	if d.iv != nil {
		r, _ = e.invoke(s, d.iv.recv, d.iv.m, d.args, nil)
	} else {
		r, _ = e.callClosure(s, d.cl, d.args, nil, nil)
	}
	if len(s.frames) > n {
		f := e.fn(s)
		f.isDefer = true
		f.unwinding = unw
		return nil
	}
	if r != nil {
		return r
	}
	// intrinsic finished at once
	if unw {
		return e.unwind(s)
	}
	return nil
}

func (e *Exec) fork2(s *State, c *Term) (*State, *State) {
	t := s.clone()
	e.assume(s, c)
	e.assume(t, e.tc.Not(c))
	return s, t
}

// jump moves f to block b, evaluating its phis.
func (e *Exec) jump(s *State, f *Frame, b *ssa.BasicBlock) {
	from := f.block
	np := f.fi.nphi[b.Index]
	if np > 0 {
		pi := -1
		for i, p := range b.Preds {
			if p == from {
				pi = i
				break
			}
		}
		vals := make([]Value, np)
		for i := 0; i < np; i++ {
			ph := b.Instrs[i].(*ssa.Phi)
			vals[i] = e.get(s, f, ph.Edges[pi])
		}
		for i := 0; i < np; i++ {
			e.set(f, b.Instrs[i].(*ssa.Phi), vals[i])
		}
	}
	f.prev = from
	f.block = b
	f.ip = np
}

// jumpEdge is jump for a given successor index (needed when both successors are the same block).
func (e *Exec) jumpEdge(s *State, f *Frame, si int) {
	b := f.block.Succs[si]
	if f.block.Succs[0] == f.block.Succs[len(f.block.Succs)-1] && len(f.block.Succs) > 1 {
		// find the si-th predecessor entry
		from := f.block
		k := -1
		cnt := 0
		for i, p := range b.Preds {
			if p == from {
				if cnt == si {
					k = i
				}
				cnt++
			}
		}
		np := f.fi.nphi[b.Index]
		vals := make([]Value, np)
		for i := 0; i < np; i++ {
			vals[i] = e.get(s, f, b.Instrs[i].(*ssa.Phi).Edges[k])
		}
		for i := 0; i < np; i++ {
			e.set(f, b.Instrs[i].(*ssa.Phi), vals[i])
		}
		f.prev, f.block, f.ip = from, b, np
		return
	}
	e.jump(s, f, b)
}

// concretize returns the constant value of t, splitting the state over its feasible values if needed.
// If states is non-nil the current instruction must be retried on them.
func (e *Exec) concretize(s *State, t *Term, what string, max int) (*Term, []*State) {
	t = e.simp(s, t)
	if t.isConst() {
		return t, nil
	}
	fuel := 200
	if k := e.evalKnown(s, t, &fuel); k != nil {
		s.known[t.id] = k
		return k, nil
	}
	if out := e.splitTrunc(s, t, max); out != nil {
		return nil, out
	}
	var out []*State
	blocked := []*Term{}
	for len(out) < max {
		c := e.tc.And(blocked...)
		r, vals := e.sol.Check(s.pcList(), c, []*Term{t}, true)
		if r == Unsat {
			break
		}
		if r == Unknown {
			e.incomplete("solver gave no verdict while enumerating " + what)
			break
		}
		cv, ok := parseVal(t.s, vals[0])
		if !ok {
			unsup("cannot parse value %s", vals[0])
		}
		k := e.tc.mkConst(t.s, cv.U)
		eq := e.tc.Eq(t, k)
		n := s.clone()
		e.assume(n, eq)
		n.known[t.id] = k
		n.token += fmt.Sprintf("/%d=%d", t.id, cv.U)
		out = append(out, n)
		blocked = append(blocked, e.tc.Not(eq))
	}
	if len(out) == max {
		if r, _ := e.sol.Check(s.pcList(), e.tc.And(blocked...), nil, true); r != Unsat {
			e.incomplete(fmt.Sprintf("more than %d values for %s", max, what))
		}
	}
	if out == nil {
		out = []*State{}
	}
	return nil, out
}

// evalKnown evaluates t with the values the state has fixed; nil if that does not give a constant.
func (e *Exec) evalKnown(s *State, t *Term, fuel *int) *Term {
	if t.isConst() {
		return t
	}
	if k, ok := s.known[t.id]; ok {
		return k
	}
	if *fuel--; *fuel < 0 {
		return nil
	}
	c := e.tc
	rec := func(x *Term) *Term { return e.evalKnown(s, x, fuel) }
	var r *Term
	switch t.op {
	case OIte:
		g := rec(t.a[0])
		if g == nil {
			return nil
		}
		if g == c.True {
			r = rec(t.a[1])
		} else {
			r = rec(t.a[2])
		}
	case OPoly:
		if t.s.K != KBV {
			return nil
		}
		sum := uint64(0)
		for _, m := range t.poly.ms {
			p := m.c
			for _, v := range m.vs {
				k := rec(v)
				if k == nil {
					return nil
				}
				p *= k.u
			}
			sum += p
		}
		r = c.BVc(t.s.W, sum)
	case ONot:
		if x := rec(t.a[0]); x != nil {
			r = c.Not(x)
		}
	case OEq, OULt, OULe, OSLt, OSLe:
		x, y := rec(t.a[0]), rec(t.a[1])
		if x == nil || y == nil {
			return nil
		}
		switch t.op {
		case OEq:
			r = c.Eq(x, y)
		case OULt:
			r = c.ULt(x, y)
		case OULe:
			r = c.ULe(x, y)
		case OSLt:
			r = c.SLt(x, y)
		case OSLe:
			r = c.SLe(x, y)
		}
	case OAnd, OOr:
		var xs []*Term
		for _, a := range t.a {
			x := rec(a)
			if x == nil {
				return nil
			}
			xs = append(xs, x)
		}
		if t.op == OAnd {
			r = c.And(xs...)
		} else {
			r = c.Or(xs...)
		}
	case OSExt:
		if x := rec(t.a[0]); x != nil {
			r = c.SExt(x, t.s.W)
		}
	case OZExt:
		if x := rec(t.a[0]); x != nil {
			r = c.ZExt(x, t.s.W)
		}
	}
	if r == nil || !r.isConst() {
		return nil
	}
	return r
}

// truncAtom finds a machine number converted to an integer in t that the state has not fixed.
func (e *Exec) truncAtom(s *State, t *Term, fuel *int) *Term {
	if t.isConst() {
		return nil
	}
	if _, ok := s.known[t.id]; ok {
		return nil
	}
	if *fuel--; *fuel < 0 {
		return nil
	}
	if t.op == OFToSBV || t.op == OFToUBV {
		return t
	}
	if t.op == OPoly {
		for _, m := range t.poly.ms {
			for _, v := range m.vs {
				if a := e.truncAtom(s, v, fuel); a != nil {
					return a
				}
			}
		}
		return nil
	}
	for _, x := range t.a {
		if a := e.truncAtom(s, x, fuel); a != nil {
			return a
		}
	}
	return nil
}

// splitTrunc splits over the values of a machine number converted to an integer, where the range of
// the number is known to be small: one state per integer, constrained by comparisons of the number.
func (e *Exec) splitTrunc(s *State, t *Term, max int) []*State {
	fuel := 200
	a := e.truncAtom(s, t, &fuel)
	if a == nil {
		return nil
	}
	x := a.a[0]
	r := newIvals(e.tc, s.pcList()).of(x)
	if !r.ok || math.IsInf(r.lo, 0) || math.IsInf(r.hi, 0) || r.hi-r.lo > float64(max-2) || math.Abs(r.lo) > 1e6 || a.op == OFToUBV && r.lo < 0 {
		return nil
	}
	tc, w := e.tc, x.s.W
	out := []*State{}
	for k := math.Trunc(r.lo); k <= math.Trunc(r.hi); k++ {
		kt := tc.BVc(a.s.W, uint64(int64(k)))
		var c *Term
		switch {
		case k == 0:
			c = tc.And(tc.FLt(tc.FloatConst(w, -1), x), tc.FLt(x, tc.FloatConst(w, 1)))
		case k > 0:
			c = tc.And(tc.FLe(tc.FloatConst(w, k), x), tc.FLt(x, tc.FloatConst(w, k+1)))
		default:
			c = tc.And(tc.FLe(x, tc.FloatConst(w, k)), tc.FLt(tc.FloatConst(w, k-1), x))
		}
		if e.absUnsat(s, c) || e.rangeUnsat(s, c) {
			continue
		}
		n := s.clone()
		e.assume(n, c)
		n.known[a.id] = kt
		n.token += fmt.Sprintf("/%d=%d", a.id, kt.u)
		out = append(out, n)
	}
	e.note("an integer converted from a number of known small range is split over that range")
	return out
}

const maxSplit = 64

func (e *Exec) step(s *State) ([]*State, *Stop) {
	f := e.fn(s)
	in := f.block.Instrs[f.ip]
	switch x := in.(type) {
	case *ssa.If:
		c := e.term(s, f, x.Cond)
		if c == e.tc.True {
			e.jumpEdge(s, f, 0)
			return nil, nil
		}
		if c == e.tc.False {
			e.jumpEdge(s, f, 1)
			return nil, nil
		}
		if e.hardFP(c) && !f.fi.quits[f.block.Index] {
			// hard condition: sides are only excluded by the over-approximation; assertions and
			// panics reached under it are decided with the full path condition
			unsat := e.absUnsat
			if f.fi.plain[f.block.Index] && !e.fpIn(c) && !e.hardPath(s) {
				unsat = e.rangeUnsat // both values are joined right behind; not worth a query
			}
			if unsat(s, c) {
				e.learn(s, e.tc.Not(c))
				e.jumpEdge(s, f, 1)
				return nil, nil
			}
			if unsat(s, e.tc.Not(c)) {
				e.learn(s, c)
				e.jumpEdge(s, f, 0)
				return nil, nil
			}
			st := &Stop{len(s.frames), f.fi.ipdom[f.block.Index]}
			a, b := e.fork2(s, c)
			e.jumpEdge(a, e.fn(a), 0)
			e.jumpEdge(b, e.fn(b), 1)
			return []*State{a, b}, st
		}
		ft := e.feasible(s, c)
		if !ft {
			e.learn(s, e.tc.Not(c))
			e.jumpEdge(s, f, 1)
			return nil, nil
		}
		ff := e.feasible(s, e.tc.Not(c))
		if !ff {
			e.learn(s, c)
			e.jumpEdge(s, f, 0)
			return nil, nil
		}
		st := &Stop{len(s.frames), f.fi.ipdom[f.block.Index]}
		a, b := e.fork2(s, c)
		e.jumpEdge(a, e.fn(a), 0)
		e.jumpEdge(b, e.fn(b), 1)
		return []*State{a, b}, st
	case *ssa.Jump:
		e.jump(s, f, f.block.Succs[0])
		return nil, nil
	case *ssa.Return:
		var res Value
		switch len(x.Results) {
		case 0:
			res = Tup{}
		case 1:
			res = e.get(s, f, x.Results[0])
		default:
			t := make(Tup, len(x.Results))
			for i, r := range x.Results {
				t[i] = e.get(s, f, r)
			}
			res = t
		}
		return e.doReturn(s, res), nil
	case *ssa.Panic:
		v := e.get(s, f, x.X)
		return e.doPanic(s, v, e.panicText(s, v)), nil
	case *ssa.RunDefers:
		if len(f.defers) > 0 {
			d := f.defers[len(f.defers)-1]
			f.defers = f.defers[:len(f.defers)-1]
			return e.callDeferred(s, d, false), nil // stay on this instruction
		}
		f.ip++
		return nil, nil
	case *ssa.Defer:
		d := deferRec{}
		for _, a := range x.Call.Args {
			d.args = append(d.args, e.get(s, f, a))
		}
		if x.Call.IsInvoke() {
			d.iv = &invokeRec{e.get(s, f, x.Call.Value).(Iface), x.Call.Method}
		} else {
			d.cl = e.get(s, f, x.Call.Value).(*Closure)
		}
		f.defers = append(f.defers[:len(f.defers):len(f.defers)], d)
		f.ip++
		return nil, nil
	case *ssa.Go:
		e.note("goroutines run to completion at the go statement (one schedule)")
		f.ip++
		return e.doCall(s, f, &x.Call, nil), nil
	case *ssa.Call:
		f.ip++
		r := e.doCall(s, f, &x.Call, x)
		return r, nil
	}
	r, advance := e.simple(s, f, in)
	if advance {
		f.ip++
	}
	return r, nil
}

func (e *Exec) doReturn(s *State, res Value) []*State {
	f := e.fn(s)
	s.frames = s.frames[:len(s.frames)-1]
	if f.isDefer {
		if f.unwinding {
			if s.pan != nil && s.pan.recovered {
				s.pan = nil
				// the function whose deferred call recovered returns normally
				g := e.fn(s)
				if g.fi.fn.Recover != nil {
					g.block = g.fi.fn.Recover
					g.ip = 0
					return nil
				}
				return e.doReturn(s, e.zero(resultType(g.fi.fn)))
			}
			return e.unwind(s)
		}
		return nil
	}
	if f.hook != nil {
		return f.hook(e, s, res)
	}
	if len(s.frames) == 0 {
		s.done = true
		e.finished(s)
		return nil
	}
	g := e.fn(s)
	if f.ret != nil {
		e.set(g, f.ret, res)
	}
	return nil
}

func resultType(fn *ssa.Function) types.Type {
	r := fn.Signature.Results()
	if r.Len() == 1 {
		return r.At(0).Type()
	}
	return r
}

func (e *Exec) panicText(s *State, v Value) string {
	if i, ok := v.(Iface); ok {
		switch x := i.V.(type) {
		case Str:
			return x.S
		case *Term:
			if x.isConst() {
				return fmt.Sprint(x.cS())
			}
		case Ptr:
			return "error value"
		}
	}
	return "panic"
}

func (e *Exec) pushFrame(s *State, fn *ssa.Function, args, binds []Value, ret ssa.Value) {
	if len(fn.Blocks) == 0 {
		unsup("no body for %s", fn)
	}
	if len(s.frames) > 400 {
		unsup("call depth")
	}
	fi := getInfo(fn)
	e.Fns[fn] = true
	n := fi.n
	if n == 0 {
		n = 1
	}
	fr := &Frame{fi: fi, regs: make([]Value, n), block: fn.Blocks[0], ret: ret}
	k := 0
	for _, a := range args {
		fr.regs[k] = a
		k++
	}
	for _, b := range binds {
		fr.regs[k] = b
		k++
	}
	s.frames = append(s.frames, fr)
}

func (e *Exec) doCall(s *State, f *Frame, c *ssa.CallCommon, ret ssa.Value) []*State {
	args := make([]Value, 0, len(c.Args)+1)
	for _, a := range c.Args {
		args = append(args, e.get(s, f, a))
	}
	if c.IsInvoke() {
		recv, ok := e.get(s, f, c.Value).(Iface)
		if !ok {
			unsup("invoke on %T", e.get(s, f, c.Value))
		}
		r, v := e.invoke(s, recv, c.Method, args, ret)
		if v != nil && ret != nil && len(s.frames) > 0 {
			e.set(e.fn(s), ret, v)
		}
		return r
	}
	cl, ok := e.get(s, f, c.Value).(*Closure)
	if !ok {
		unsup("call of %T", e.get(s, f, c.Value))
	}
	r, v := e.callClosure(s, cl, args, ret, c)
	if v != nil && ret != nil && len(s.frames) > 0 {
		e.set(e.fn(s), ret, v)
	}
	return r
}

func (e *Exec) invoke(s *State, recv Iface, m *types.Func, args []Value, ret ssa.Value) ([]*State, Value) {
	if recv.T == nil {
		return e.doPanic(s, nil, "runtime error: invalid memory address or nil pointer dereference"), nil
	}
	fn := e.eng.lookupMethod(recv.T, m)
	if fn == nil {
		unsup("no method %s on %s", m, recv.T)
	}
	return e.callClosure(s, &Closure{Fn: fn}, append([]Value{recv.V}, args...), ret, nil)
}

// callClosure pushes a frame, or runs an intrinsic and returns its value.
func (e *Exec) callClosure(s *State, cl *Closure, args []Value, ret ssa.Value, c *ssa.CallCommon) ([]*State, Value) {
	if cl == nil {
		return e.doPanic(s, nil, "runtime error: invalid memory address or nil pointer dereference"), nil
	}
	if cl.Bi != nil {
		return e.builtin(s, cl.Bi, args, c)
	}
	if in := e.eng.intrinsic(cl.Fn); in != nil {
		ctx := &ICall{e: e, s: s, fn: cl.Fn, args: args, ret: ret}
		v := in(ctx)
		return ctx.states, v
	}
	e.pushFrame(s, cl.Fn, args, cl.Binds, ret)
	return nil, nil
}

func (e *Exec) note(n string) { e.Notes[n] = true }

func (e *Exec) bin(s *State, op token.Token, t types.Type, a, b *Term) *Term {
	c := e.tc
	switch a.s.K {
	case KBool:
		switch op {
		case token.EQL:
			return c.Eq(a, b)
		case token.NEQ:
			return c.Not(c.Eq(a, b))
		case token.AND:
			return c.And(a, b)
		case token.OR:
			return c.Or(a, b)
		}
	case KFP, KReal:
		if a.s.K != b.s.K { // infinities and NaN constants in the real encoding
			unsup("real/float constant mix")
		}
		switch op {
		case token.ADD:
			return c.Add(a, b)
		case token.SUB:
			return c.Sub(a, b)
		case token.MUL:
			return c.Mul(a, b)
		case token.QUO:
			return c.Div(a, b)
		case token.LSS:
			return c.FLt(a, b)
		case token.LEQ:
			return c.FLe(a, b)
		case token.GTR:
			return c.FLt(b, a)
		case token.GEQ:
			return c.FLe(b, a)
		case token.EQL:
			return c.FEq(a, b)
		case token.NEQ:
			return c.Not(c.FEq(a, b))
		}
	case KBV:
		sg := isSigned(t)
		switch op {
		case token.ADD:
			return c.Add(a, b)
		case token.SUB:
			return c.Sub(a, b)
		case token.MUL:
			return c.Mul(a, b)
		case token.QUO:
			if sg {
				return c.bvbin(OSDiv, a, b)
			}
			return c.bvbin(OUDiv, a, b)
		case token.REM:
			if sg {
				return c.bvbin(OSRem, a, b)
			}
			return c.bvbin(OURem, a, b)
		case token.AND:
			return c.bvbin(OBAnd, a, b)
		case token.OR:
			return c.bvbin(OBOr, a, b)
		case token.XOR:
			return c.bvbin(OBXor, a, b)
		case token.AND_NOT:
			return c.bvbin(OBAnd, a, c.bvbin(OBXor, b, c.BVc(b.s.W, mask(b.s.W))))
		case token.LSS:
			if sg {
				return c.SLt(a, b)
			}
			return c.ULt(a, b)
		case token.LEQ:
			if sg {
				return c.SLe(a, b)
			}
			return c.ULe(a, b)
		case token.GTR:
			if sg {
				return c.SLt(b, a)
			}
			return c.ULt(b, a)
		case token.GEQ:
			if sg {
				return c.SLe(b, a)
			}
			return c.ULe(b, a)
		case token.EQL:
			return c.Eq(a, b)
		case token.NEQ:
			return c.Not(c.Eq(a, b))
		}
	}
	unsup("operator %v on %v", op, a.s)
	return nil
}

// eqVal is Go's == on arbitrary comparable values.
func (e *Exec) eqVal(s *State, a, b Value, t types.Type) *Term {
	c := e.tc
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok {
			unsup("compare %T %T", a, b)
		}
		if x.s.K == KFP || x.s.K == KReal {
			return c.FEq(x, y)
		}
		return c.Eq(x, y)
	case Ptr, PtrU:
		ua, ub := toU(c, a), toU(c, b)
		r := c.False
		for _, p := range ua {
			for _, q := range ub {
				if p.p == q.p {
					r = c.Or(r, c.And(p.g, q.g))
				}
			}
		}
		return r
	case Slice:
		y, ok := b.(Slice)
		if !ok {
			unsup("slice compare")
		}
		return c.Bool((x.Obj == 0) == (y.Obj == 0) && (x.Obj == 0 || x == y))
	case Str:
		y := b.(Str)
		if x.Opaque || y.Opaque {
			return e.sameText(x, y)
		}
		return c.Bool(x.S == y.S)
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			unsup("iface compare %T", b)
		}
		if x.T == nil || y.T == nil {
			return c.Bool(x.T == nil && y.T == nil)
		}
		if !types.Identical(x.T, y.T) {
			return c.False
		}
		return e.eqVal(s, x.V, y.V, x.T)
	case *Closure:
		y, ok := b.(*Closure)
		if !ok {
			unsup("func compare")
		}
		return c.Bool((x == nil) == (y == nil) && (x == nil || x == y))
	case MapV:
		y := b.(MapV)
		return c.Bool(x == y)
	case ChanV:
		return c.Bool(x == b.(ChanV))
	case Agg:
		y := b.(Agg)
		r := c.True
		for i := range x {
			r = c.And(r, e.eqVal(s, x[i], y[i], nil))
		}
		return r
	}
	unsup("compare %T", a)
	return nil
}

// elseGuards gives the guards of the alternatives for a chain "if g0 .. else if g1 .. else ..": a conjunct
// of a guard which says that an earlier one does not hold is left out.
func (e *Exec) elseGuards(us PtrU) []*Term {
	gs := make([]*Term, len(us))
	not := map[*Term]bool{}
	for i, a := range us {
		g := a.g
		if g.op == OAnd {
			var keep []*Term
			for _, x := range g.a {
				if !not[x] {
					keep = append(keep, x)
				}
			}
			if len(keep) < len(g.a) {
				g = e.tc.And(keep...)
			}
		}
		gs[i] = g
		not[e.tc.Not(g)] = true
	}
	return gs
}

func toU(c *TC, v Value) PtrU {
	switch x := v.(type) {
	case Ptr:
		return PtrU{{c.True, x}}
	case PtrU:
		return x
	}
	unsup("pointer compare with %T", v)
	return nil
}

func mapU(p Value, f func(Ptr) Ptr) Value {
	switch x := p.(type) {
	case Ptr:
		return f(x)
	case PtrU:
		r := make(PtrU, len(x))
		for i, a := range x {
			r[i] = PtrAlt{a.g, f(a.p)}
		}
		return r
	}
	unsup("pointer op on %T", p)
	return nil
}

// simple executes straight-line instructions. advance=false: retry/branch handled.
func (e *Exec) simple(s *State, f *Frame, in ssa.Instruction) ([]*State, bool) {
	c := e.tc
	switch x := in.(type) {
	case *ssa.DebugRef:
		return nil, true
	case *ssa.Alloc:
		t := x.Type().(*types.Pointer).Elem()
		e.set(f, x, Ptr{e.alloc(s, e.zeroCells(t, nil)), 0})
		return nil, true
	case *ssa.Phi:
		unsup("phi in straight line")
	case *ssa.BinOp:
		return e.binop(s, f, x)
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL: // load
			v := e.get(s, f, x.X)
			us, st, ok := e.nilCheck(s, v)
			if !ok {
				return st, false
			}
			if len(us) == 1 {
				e.set(f, x, e.load(s, us[0].p, x.Type()))
				return nil, true
			}
			var res Value
			gs := e.elseGuards(us)
			for i := len(us) - 1; i >= 0; i-- {
				l := e.load(s, us[i].p, x.Type())
				if res == nil {
					res = l
					continue
				}
				m, ok := e.mergeVal(gs[i], l, res)
				if !ok {
					// split on the alternatives
					return e.splitU(s, us), false
				}
				res = m
			}
			e.set(f, x, res)
			return nil, true
		case token.NOT:
			e.set(f, x, c.Not(e.term(s, f, x.X)))
			return nil, true
		case token.SUB:
			e.set(f, x, c.Neg(e.term(s, f, x.X)))
			return nil, true
		case token.XOR:
			t := e.term(s, f, x.X)
			e.set(f, x, c.bvbin(OBXor, t, c.BVc(t.s.W, mask(t.s.W))))
			return nil, true
		}
		unsup("unary %v", x.Op)
	case *ssa.Store:
		v := e.get(s, f, x.Val)
		us, st, ok := e.nilCheck(s, e.get(s, f, x.Addr))
		if !ok {
			return st, false
		}
		if len(us) == 1 {
			e.store(s, us[0].p, v)
			return nil, true
		}
		t := x.Val.Type()
		for _, a := range us {
			old := e.load(s, a.p, t)
			m, ok := e.mergeVal(a.g, v, old)
			if !ok {
				return e.splitU(s, us), false
			}
			e.store(s, a.p, m)
		}
		return nil, true
	case *ssa.FieldAddr:
		st := under(x.X.Type().(*types.Pointer).Elem()).(*types.Struct)
		us, sts, ok := e.nilCheck(s, e.get(s, f, x.X))
		if !ok {
			return sts, false
		}
		off := e.fieldOff(st, x.Field)
		if len(us) == 1 {
			e.set(f, x, Ptr{us[0].p.Obj, us[0].p.Off + off})
		} else {
			e.set(f, x, mapU(us, func(p Ptr) Ptr { return Ptr{p.Obj, p.Off + off} }))
		}
		return nil, true
	case *ssa.Field:
		st := under(x.X.Type()).(*types.Struct)
		a, ok := e.get(s, f, x.X).(Agg)
		if !ok {
			unsup("field of %T", e.get(s, f, x.X))
		}
		off := e.fieldOff(st, x.Field)
		ft := st.Field(x.Field).Type()
		if isAgg(ft) {
			n := e.sizeOf(ft)
			e.set(f, x, Agg(a[off:off+n:off+n]))
		} else {
			e.set(f, x, a[off])
		}
		return nil, true
	case *ssa.IndexAddr:
		return e.indexAddr(s, f, x)
	case *ssa.Index:
		idx := e.term(s, f, x.Index)
		switch u := under(x.X.Type()).(type) {
		case *types.Array:
			a := e.get(s, f, x.X).(Agg)
			n := int(u.Len())
			idx = e.idx64(idx, x.Index.Type())
			ok, extra := e.check(s, c.ULt(idx, c.Int(int64(n))), "runtime error: index out of range")
			if !ok {
				return nonNil(extra), false
			}
			sz := e.sizeOf(u.Elem())
			at := func(i int) Value {
				if isAgg(u.Elem()) {
					return Agg(a[i*sz : (i+1)*sz])
				}
				return a[i]
			}
			idx = e.simp(s, idx)
			if idx.isConst() {
				e.set(f, x, at(int(idx.u)))
			} else {
				res := at(n - 1)
				for i := n - 2; i >= 0; i-- {
					m, ok := e.mergeVal(c.Eq(idx, c.Int(int64(i))), at(i), res)
					if !ok {
						unsup("symbolic index into array of references")
					}
					res = m
				}
				e.set(f, x, res)
			}
			return e.withExtra(s, f, extra)
		case *types.Basic: // string
			st := e.get(s, f, x.X).(Str)
			if st.Opaque {
				unsup("index into opaque string")
			}
			k, sts := e.concretize(s, e.idx64(idx, x.Index.Type()), "string index", maxSplit)
			if sts != nil {
				return sts, false
			}
			if k.u >= uint64(len(st.S)) {
				return nonNil(e.doPanic(s, nil, "runtime error: index out of range")), false
			}
			e.set(f, x, c.BVc(8, uint64(st.S[k.u])))
			return nil, true
		}
		unsup("index of %s", x.X.Type())
	case *ssa.Slice:
		return e.sliceOp(s, f, x)
	case *ssa.MakeSlice:
		ln, sts := e.concretize(s, e.idx64(e.term(s, f, x.Len), x.Len.Type()), "slice length", maxSplit)
		if sts != nil {
			return sts, false
		}
		cp, sts := e.concretize(s, e.idx64(e.term(s, f, x.Cap), x.Cap.Type()), "slice capacity", maxSplit)
		if sts != nil {
			return sts, false
		}
		el := x.Type().Underlying().(*types.Slice).Elem()
		if int64(ln.u) < 0 || int64(cp.u) < 0 || ln.u > cp.u || int64(cp.u) > 1<<47 {
			m := "runtime error: makeslice: len out of range"
			if ln.u <= 1<<47 && int64(ln.u) >= 0 {
				m = "runtime error: makeslice: cap out of range"
			}
			return nonNil(e.doPanic(s, nil, m)), false
		}
		if cp.u > 1<<22 {
			unsup("slice of %d elements", cp.u)
		}
		e.set(f, x, e.makeSlice(s, el, int(ln.u), int(cp.u)))
		return nil, true
	case *ssa.MakeInterface:
		e.set(f, x, Iface{x.X.Type(), e.get(s, f, x.X)})
		return nil, true
	case *ssa.ChangeInterface:
		e.set(f, x, e.get(s, f, x.X))
		return nil, true
	case *ssa.ChangeType:
		e.set(f, x, e.get(s, f, x.X))
		return nil, true
	case *ssa.Convert:
		return e.convert(s, f, x)
	case *ssa.MultiConvert:
		unsup("multiconvert")
	case *ssa.SliceToArrayPointer:
		sl := e.get(s, f, x.X).(Slice)
		n := int(x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if sl.Len < n {
			return nonNil(e.doPanic(s, nil, "runtime error: cannot convert slice to array pointer")), false
		}
		e.set(f, x, Ptr{sl.Obj, sl.Off})
		return nil, true
	case *ssa.Extract:
		t, ok := e.get(s, f, x.Tuple).(Tup)
		if !ok {
			unsup("extract from %T", e.get(s, f, x.Tuple))
		}
		v := t[x.Index]
		if tt, ok := v.(*Term); ok {
			v = e.simp(s, tt)
		}
		e.set(f, x, v)
		return nil, true
	case *ssa.MakeClosure:
		cl := &Closure{Fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			cl.Binds = append(cl.Binds, e.get(s, f, b))
		}
		e.set(f, x, cl)
		return nil, true
	case *ssa.TypeAssert:
		return e.typeAssert(s, f, x)
	case *ssa.MakeMap:
		e.set(f, x, MapV{e.alloc(s, []Value{&mapData{}})})
		return nil, true
	case *ssa.MapUpdate:
		m := e.get(s, f, x.Map).(MapV)
		if m.Obj == 0 {
			return nonNil(e.doPanic(s, nil, "assignment to entry in nil map")), false
		}
		k := e.get(s, f, x.Key)
		if sts := e.concreteKey(s, k); sts != nil {
			return sts, false
		}
		v := e.get(s, f, x.Value)
		k = e.simpVal(s, k)
		o := s.heap.own(m.Obj)
		old := o.v[0].(*mapData)
		nd := &mapData{es: append([]mapEntry(nil), old.es...)}
		found := false
		for i := range nd.es {
			if sameKey(nd.es[i].k, k) {
				nd.es[i].v = v
				found = true
			}
		}
		if !found {
			nd.es = append(nd.es, mapEntry{k, v})
		}
		o.v[0] = nd
		return nil, true
	case *ssa.Lookup:
		if st, ok := e.get(s, f, x.X).(Str); ok {
			_ = st
			unsup("string lookup")
		}
		m := e.get(s, f, x.X).(MapV)
		k := e.get(s, f, x.Index)
		if sts := e.concreteKey(s, k); sts != nil {
			return sts, false
		}
		k = e.simpVal(s, k)
		vt := under(x.X.Type()).(*types.Map).Elem()
		res := e.zero(vt)
		found := false
		if m.Obj != 0 {
			for _, en := range s.heap.get(m.Obj).v[0].(*mapData).es {
				if sameKey(en.k, k) {
					res = en.v
					found = true
				}
			}
		}
		if x.CommaOk {
			e.set(f, x, Tup{res, c.Bool(found)})
		} else {
			e.set(f, x, res)
		}
		return nil, true
	case *ssa.Range:
		v := e.get(s, f, x.X)
		switch y := v.(type) {
		case MapV:
			e.note("map iteration follows insertion order (one order)")
			var es []mapEntry
			if y.Obj != 0 {
				es = s.heap.get(y.Obj).v[0].(*mapData).es
			}
			e.set(f, x, IterV{e.alloc(s, []Value{&mapData{es}, c.Int(0)})})
		case Str:
			if y.Opaque {
				unsup("range over opaque string")
			}
			e.set(f, x, IterV{e.alloc(s, []Value{y, c.Int(0)})})
		default:
			unsup("range over %T", v)
		}
		return nil, true
	case *ssa.Next:
		it := e.get(s, f, x.Iter).(IterV)
		o := s.heap.own(it.Obj)
		pos := int(o.v[1].(*Term).u)
		if x.IsString {
			st := o.v[0].(Str).S
			if pos >= len(st) {
				e.set(f, x, Tup{c.False, c.Int(0), c.BVc(32, 0)})
				return nil, true
			}
			rs := []rune(st[pos:])
			n := len(string(rs[0]))
			o.v[1] = c.Int(int64(pos + n))
			e.set(f, x, Tup{c.True, c.Int(int64(pos)), c.BVc(32, uint64(rs[0]))})
			return nil, true
		}
		es := o.v[0].(*mapData).es
		if pos >= len(es) {
			tt := x.Type().(*types.Tuple)
			z := func(i int) Value {
				if b, ok := tt.At(i).Type().(*types.Basic); ok && b.Kind() == types.Invalid {
					return Opaque{"unused"}
				}
				return e.zero(tt.At(i).Type())
			}
			e.set(f, x, Tup{c.False, z(1), z(2)})
			return nil, true
		}
		o.v[1] = c.Int(int64(pos + 1))
		e.set(f, x, Tup{c.True, es[pos].k, es[pos].v})
		return nil, true
	}
	unsup("instruction %T", in)
	return nil, false
}

func nonNil(x []*State) []*State { return x }

func (e *Exec) withExtra(s *State, f *Frame, extra []*State) ([]*State, bool) {
	if len(extra) == 0 {
		return nil, true
	}
	f.ip++
	return append([]*State{s}, extra...), false
}

func (e *Exec) simpVal(s *State, v Value) Value {
	switch x := v.(type) {
	case *Term:
		return e.simp(s, x)
	case Agg:
		r := make(Agg, len(x))
		for i := range x {
			r[i] = e.simpVal(s, x[i])
		}
		return r
	case Iface:
		return Iface{x.T, e.simpVal(s, x.V)}
	}
	return v
}

func (e *Exec) concreteKey(s *State, k Value) []*State {
	switch x := k.(type) {
	case *Term:
		_, sts := e.concretize(s, x, "map key", maxSplit)
		return sts
	case Agg:
		for _, y := range x {
			if sts := e.concreteKey(s, y); sts != nil {
				return sts
			}
		}
	case Iface:
		return e.concreteKey(s, x.V)
	case Str:
		if x.Opaque {
			unsup("opaque map key")
		}
	}
	return nil
}

// splitU forks on the alternatives of a pointer union (instruction is retried with known guards).
func (e *Exec) splitU(s *State, us PtrU) []*State {
	unsup("access through a pointer with %d possible targets of different structure", len(us))
	return nil
}

func (e *Exec) idx64(t *Term, ty types.Type) *Term {
	if t.s.W == 64 {
		return t
	}
	if isSigned(ty) {
		return e.tc.SExt(t, 64)
	}
	return e.tc.ZExt(t, 64)
}

func (e *Exec) makeSlice(s *State, el types.Type, ln, cp int) Slice {
	z := e.zeroCells(el, nil)
	cells := make([]Value, 0, cp*len(z))
	for i := 0; i < cp; i++ {
		cells = append(cells, z...)
	}
	return Slice{e.alloc(s, cells), 0, ln, cp}
}

func (e *Exec) binop(s *State, f *Frame, x *ssa.BinOp) ([]*State, bool) {
	c := e.tc
	a, b := e.get(s, f, x.X), e.get(s, f, x.Y)
	ta, ok1 := a.(*Term)
	tb, ok2 := b.(*Term)
	if ok1 && ok2 {
		switch x.Op {
		case token.SHL, token.SHR:
			w := ta.s.W
			// shift count
			cnt := tb
			if isSigned(x.Y.Type()) {
				ok, extra := e.check(s, c.SLe(c.BVc(tb.s.W, 0), tb), "runtime error: negative shift amount")
				if !ok {
					return extra, false
				}
				if len(extra) > 0 {
					unsup("shift panic with handlers")
				}
			}
			if cnt.s.W < w {
				cnt = c.ZExt(cnt, w)
			} else if cnt.s.W > w {
				// saturate
				big := c.ULe(c.BVc(cnt.s.W, uint64(w)), cnt)
				cnt = c.Ite(big, c.BVc(w, uint64(w)), c.Extract(cnt, w-1, 0))
			}
			op := OShl
			if x.Op == token.SHR {
				op = OLShr
				if isSigned(x.X.Type()) {
					op = OAShr
				}
			}
			e.set(f, x, c.bvbin(op, ta, cnt))
			return nil, true
		case token.QUO, token.REM:
			if ta.s.K == KBV {
				ok, extra := e.check(s, c.Not(c.Eq(tb, c.BVc(tb.s.W, 0))), "runtime error: integer divide by zero")
				if !ok {
					return extra, false
				}
				e.set(f, x, e.bin(s, x.Op, x.X.Type(), ta, e.simp(s, tb)))
				return e.withExtra(s, f, extra)
			}
			if ta.s.K == KReal && x.Op == token.QUO {
				if tb.isConst() && tb.r.Sign() == 0 {
					e.report(s, c.True, "real division by zero", "real-div")
					return []*State{}, false
				}
				if !tb.isConst() && !e.nonzero(tb) {
					z := c.Eq(tb, c.RealI(0))
					if z != c.False && e.feasible(s, z) {
						pos := e.prog.Fset.Position(x.Pos()).String()
						e.reportSoft(s, z, "division by zero at "+pos)
						if !e.feasible(s, c.Not(z)) {
							return []*State{}, false
						}
						e.assume(s, c.Not(z))
					}
				}
			}
		}
		e.set(f, x, e.bin(s, x.Op, x.X.Type(), ta, tb))
		return nil, true
	}
	switch x.Op {
	case token.ADD:
		p, ok1 := a.(Str)
		q, ok2 := b.(Str)
		if ok1 && ok2 {
			e.set(f, x, Str{p.S + q.S, p.Opaque || q.Opaque})
			return nil, true
		}
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
		p, ok1 := a.(Str)
		q, ok2 := b.(Str)
		if ok1 && ok2 && !p.Opaque && !q.Opaque {
			r := strings.Compare(p.S, q.S)
			var t bool
			switch x.Op {
			case token.LSS:
				t = r < 0
			case token.GTR:
				t = r > 0
			case token.LEQ:
				t = r <= 0
			default:
				t = r >= 0
			}
			e.set(f, x, c.Bool(t))
			return nil, true
		}
	case token.EQL, token.NEQ:
		// comparison of interface with concrete is explicit in SSA
		r := e.eqVal(s, a, b, x.X.Type())
		if x.Op == token.NEQ {
			r = c.Not(r)
		}
		e.set(f, x, r)
		return nil, true
	}
	unsup("binop %v on %T %T", x.Op, a, b)
	return nil, false
}

// nonzero: cheap syntactic proof that a real term is positive.
func (e *Exec) nonzero(t *Term) bool {
	if t.op == ORInv {
		return true
	}
	if e.tc.nz[t.id] {
		return true
	}
	if t.op == OPoly { // all monomials positive combinations of positive atoms
		for _, m := range t.poly.ms {
			if m.r.Sign() <= 0 {
				return false
			}
			for i := 0; i < len(m.vs); i++ {
				if e.tc.nz[m.vs[i].id] {
					continue
				}
				if i+1 < len(m.vs) && m.vs[i+1] == m.vs[i] && len(t.poly.ms) > 1 {
					i++
					continue // square: >= 0
				}
				return false
			}
		}
		return true
	}
	return false
}

func (e *Exec) indexAddr(s *State, f *Frame, x *ssa.IndexAddr) ([]*State, bool) {
	c := e.tc
	base := e.get(s, f, x.X)
	idx := e.idx64(e.term(s, f, x.Index), x.Index.Type())
	var n int
	var el types.Type
	var obj, off int
	switch b := base.(type) {
	case Slice:
		n = b.Len
		el = under(x.X.Type()).(*types.Slice).Elem()
		obj, off = b.Obj, b.Off
	case Ptr:
		arr := under(under(x.X.Type()).(*types.Pointer).Elem()).(*types.Array)
		if b.Obj == 0 {
			return e.doPanic(s, nil, "runtime error: invalid memory address or nil pointer dereference"), false
		}
		n = int(arr.Len())
		el = arr.Elem()
		obj, off = b.Obj, b.Off
	case PtrU:
		arr := under(under(x.X.Type()).(*types.Pointer).Elem()).(*types.Array)
		k, sts := e.concretize(s, idx, "index", maxSplit)
		if sts != nil {
			return sts, false
		}
		if k.u >= uint64(arr.Len()) {
			return e.doPanic(s, nil, "runtime error: index out of range"), false
		}
		us, st, ok := e.nilCheck(s, b)
		if !ok {
			return st, false
		}
		d := int(k.u) * e.sizeOf(arr.Elem())
		e.set(f, x, mapU(us, func(p Ptr) Ptr { return Ptr{p.Obj, p.Off + d} }))
		return nil, true
	default:
		unsup("index address of %T", base)
	}
	ok, extra := e.check(s, c.ULt(idx, c.Int(int64(n))), "runtime error: index out of range")
	if !ok {
		return extra, false
	}
	idx = e.simp(s, idx)
	sz := e.sizeOf(el)
	if idx.isConst() {
		e.set(f, x, Ptr{obj, off + int(idx.u)*sz})
		return e.withExtra(s, f, extra)
	}
	if n > 256 {
		unsup("symbolic index into %d elements", n)
	}
	// scalars: union of addresses; anything else: split
	_, scalar := e.sortOf(el)
	if !scalar && n > 1 {
		if len(extra) > 0 {
			unsup("symbolic index panic with handlers")
		}
		if _, isP := under(el).(*types.Pointer); !isP {
			_, sts := e.concretize(s, idx, "index", maxSplit)
			return sts, false
		}
	}
	var us PtrU
	for i := 0; i < n; i++ {
		g := c.Eq(idx, c.Int(int64(i)))
		if g == c.False {
			continue
		}
		us = append(us, PtrAlt{g, Ptr{obj, off + i*sz}})
	}
	if len(us) == 1 {
		e.set(f, x, us[0].p)
	} else {
		e.set(f, x, us)
	}
	return e.withExtra(s, f, extra)
}

func (e *Exec) sliceOp(s *State, f *Frame, x *ssa.Slice) ([]*State, bool) {
	get := func(v ssa.Value, def int) (int, []*State) {
		if v == nil {
			return def, nil
		}
		t := e.idx64(e.term(s, f, v), v.Type())
		k, sts := e.concretize(s, t, "slice bound", maxSplit)
		if sts != nil {
			return 0, sts
		}
		if int64(k.u) < 0 || int64(k.u) > 1<<40 {
			return -1, nil
		}
		return int(k.u), nil
	}
	base := e.get(s, f, x.X)
	if st, ok := base.(Str); ok {
		if st.Opaque {
			unsup("slicing an opaque string")
		}
		lo, sts := get(x.Low, 0)
		if sts != nil {
			return sts, false
		}
		hi, sts := get(x.High, len(st.S))
		if sts != nil {
			return sts, false
		}
		if lo < 0 || hi < lo || hi > len(st.S) {
			return e.doPanic(s, nil, "runtime error: slice bounds out of range"), false
		}
		e.set(f, x, Str{S: st.S[lo:hi]})
		return nil, true
	}
	var sl Slice
	var el types.Type
	switch b := base.(type) {
	case Slice:
		sl = b
		el = under(x.X.Type()).(*types.Slice).Elem()
	case Ptr:
		if b.Obj == 0 {
			return e.doPanic(s, nil, "runtime error: invalid memory address or nil pointer dereference"), false
		}
		arr := under(under(x.X.Type()).(*types.Pointer).Elem()).(*types.Array)
		el = arr.Elem()
		sl = Slice{b.Obj, b.Off, int(arr.Len()), int(arr.Len())}
	default:
		unsup("slice of %T", base)
	}
	lo, sts := get(x.Low, 0)
	if sts != nil {
		return sts, false
	}
	hi, sts := get(x.High, sl.Len)
	if sts != nil {
		return sts, false
	}
	mx, sts := get(x.Max, sl.Cap)
	if sts != nil {
		return sts, false
	}
	if lo < 0 || hi < lo || mx < hi || mx > sl.Cap {
		return e.doPanic(s, nil, "runtime error: slice bounds out of range"), false
	}
	sz := e.sizeOf(el)
	if sl.Obj == 0 {
		e.set(f, x, Slice{})
		return nil, true
	}
	e.set(f, x, Slice{sl.Obj, sl.Off + lo*sz, hi - lo, mx - lo})
	return nil, true
}

func (e *Exec) convert(s *State, f *Frame, x *ssa.Convert) ([]*State, bool) {
	v := e.get(s, f, x.X)
	from, to := x.X.Type(), x.Type()
	c := e.tc
	if t, ok := v.(*Term); ok {
		if st, ok := e.sortOf(to); ok {
			switch {
			case isInt(from) && isInt(to):
				if isSigned(from) {
					e.set(f, x, c.SExt(t, st.W))
				} else {
					e.set(f, x, c.ZExt(t, st.W))
				}
			case isInt(from) && isFloat(to):
				e.set(f, x, c.BVToF(t, isSigned(from), floatW(to)))
			case isFloat(from) && isInt(to):
				if t.s.K == KFP && !t.isConst() {
					e.note("float to integer conversion outside the target's range is left unconstrained")
				}
				e.set(f, x, c.FToBV(t, isSigned(to), st.W))
			case isFloat(from) && isFloat(to):
				if t.s.K == KReal {
					e.set(f, x, t)
				} else {
					e.set(f, x, c.FToFP(t, floatW(to)))
				}
			default:
				e.set(f, x, t)
			}
			return nil, true
		}
		if b, ok := under(to).(*types.Basic); ok && b.Info()&types.IsString != 0 {
			if t.isConst() {
				e.set(f, x, Str{S: string(rune(t.cS()))})
			} else {
				e.set(f, x, Str{poison, true})
			}
			return nil, true
		}
	}
	switch y := v.(type) {
	case Str:
		if sl, ok := under(to).(*types.Slice); ok {
			if y.Opaque {
				unsup("bytes of opaque string")
			}
			st, _ := e.sortOf(sl.Elem())
			var cells []Value
			if st.W == 8 {
				for i := 0; i < len(y.S); i++ {
					cells = append(cells, c.BVc(8, uint64(y.S[i])))
				}
			} else {
				for _, r := range y.S {
					cells = append(cells, c.BVc(32, uint64(r)))
				}
			}
			e.set(f, x, Slice{e.alloc(s, cells), 0, len(cells), len(cells)})
			return nil, true
		}
		e.set(f, x, y)
		return nil, true
	case Slice:
		if b, ok := under(to).(*types.Basic); ok && b.Info()&types.IsString != 0 {
			var bs []byte
			opq := false
			if y.Obj != 0 {
				for _, cell := range e.loadCells(s, Ptr{y.Obj, y.Off}, y.Len) {
					t := cell.(*Term)
					if !t.isConst() {
						opq = true
						bs = append(bs, '?')
					} else if t.s.W == 8 {
						bs = append(bs, byte(t.u))
					} else {
						bs = append(bs, string(rune(t.cS()))...)
					}
				}
			}
			e.set(f, x, Str{string(bs), opq})
			return nil, true
		}
	case Ptr, PtrU:
		e.set(f, x, v)
		return nil, true
	}
	unsup("convert %s to %s", from, to)
	return nil, false
}

func (e *Exec) typeAssert(s *State, f *Frame, x *ssa.TypeAssert) ([]*State, bool) {
	v, ok := e.get(s, f, x.X).(Iface)
	if !ok {
		unsup("type assert on %T", e.get(s, f, x.X))
	}
	match := false
	if v.T != nil {
		if it, ok := under(x.AssertedType).(*types.Interface); ok {
			match = types.Implements(v.T, it)
		} else {
			match = types.Identical(v.T, x.AssertedType)
		}
	}
	var res Value
	if match {
		if _, ok := under(x.AssertedType).(*types.Interface); ok {
			res = v
		} else {
			res = v.V
		}
	}
	if x.CommaOk {
		if !match {
			res = e.zero(x.AssertedType)
		}
		e.set(f, x, Tup{res, e.tc.Bool(match)})
		return nil, true
	}
	if !match {
		return e.doPanic(s, nil, "interface conversion"), false
	}
	e.set(f, x, res)
	return nil, true
}

func (e *Exec) builtin(s *State, b *ssa.Builtin, args []Value, cc *ssa.CallCommon) ([]*State, Value) {
	c := e.tc
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case Slice:
			return nil, c.Int(int64(x.Len))
		case Str:
			if x.Opaque {
				e.note("length of text that contains formatted symbolic numbers is nominal")
			}
			return nil, c.Int(int64(len(x.S)))
		case MapV:
			if x.Obj == 0 {
				return nil, c.Int(0)
			}
			return nil, c.Int(int64(len(s.heap.get(x.Obj).v[0].(*mapData).es)))
		case Agg:
			return nil, c.Int(under(cc.Args[0].Type()).(*types.Array).Len())
		case Ptr, PtrU:
			return nil, c.Int(under(under(cc.Args[0].Type()).(*types.Pointer).Elem()).(*types.Array).Len())
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return nil, c.Int(int64(x.Cap))
		}
	case "append":
		return nil, e.appendOp(s, args, cc)
	case "copy":
		dst := args[0].(Slice)
		var el types.Type
		if cc != nil {
			el = under(cc.Args[0].Type()).(*types.Slice).Elem()
		} else {
			unsup("deferred copy")
		}
		sz := e.sizeOf(el)
		switch src := args[1].(type) {
		case Slice:
			n := dst.Len
			if src.Len < n {
				n = src.Len
			}
			if n > 0 {
				tmp := append([]Value(nil), e.loadCells(s, Ptr{src.Obj, src.Off}, n*sz)...)
				o := s.heap.own(dst.Obj)
				copy(o.v[dst.Off:dst.Off+n*sz], tmp)
			}
			return nil, c.Int(int64(n))
		case Str:
			if src.Opaque {
				unsup("copy of opaque string")
			}
			n := dst.Len
			if len(src.S) < n {
				n = len(src.S)
			}
			if n > 0 {
				o := s.heap.own(dst.Obj)
				for i := 0; i < n; i++ {
					o.v[dst.Off+i] = c.BVc(8, uint64(src.S[i]))
				}
			}
			return nil, c.Int(int64(n))
		}
	case "recover":
		// valid only directly inside a deferred call during unwinding
		if s.pan != nil && !s.pan.recovered && len(s.frames) > 0 && e.fn(s).isDefer && e.fn(s).unwinding {
			p := *s.pan
			p.recovered = true
			s.pan = &p
			if i, ok := p.v.(Iface); ok && i.T != nil {
				return nil, i
			}
			return nil, e.mkError(s, p.msg)
		}
		return nil, Iface{}
	case "panic":
		return e.doPanic(s, args[0], e.panicText(s, args[0])), nil
	case "print", "println":
		return nil, Tup{}
	case "delete":
		m := args[0].(MapV)
		if m.Obj == 0 {
			return nil, Tup{}
		}
		k := e.simpVal(s, args[1])
		if sts := e.concreteKey(s, k); sts != nil {
			unsup("delete of symbolic key")
		}
		o := s.heap.own(m.Obj)
		nd := &mapData{}
		for _, en := range o.v[0].(*mapData).es {
			if !sameKey(en.k, k) {
				nd.es = append(nd.es, en)
			}
		}
		o.v[0] = nd
		return nil, Tup{}
	case "clear":
		switch x := args[0].(type) {
		case MapV:
			if x.Obj != 0 {
				s.heap.own(x.Obj).v[0] = &mapData{}
			}
			return nil, Tup{}
		case Slice:
			if cc == nil {
				unsup("clear")
			}
			z := e.zeroCells(under(cc.Args[0].Type()).(*types.Slice).Elem(), nil)
			for i := 0; i < x.Len; i++ {
				o := s.heap.own(x.Obj)
				copy(o.v[x.Off+i*len(z):], z)
			}
			return nil, Tup{}
		}
	case "min", "max":
		res := args[0]
		for _, a := range args[1:] {
			if st, ok := a.(Str); ok {
				r := res.(Str)
				if (b.Name() == "min") == (st.S < r.S) {
					res = st
				}
				continue
			}
			x, y := res.(*Term), a.(*Term)
			var lt *Term
			t := cc.Args[0].Type()
			lt = e.bin(s, token.LSS, t, y, x)
			if b.Name() == "max" {
				lt = e.bin(s, token.LSS, t, x, y)
			}
			r := c.Ite(lt, y, x)
			if x.s.K == KFP {
				r = c.Ite(c.FIsNaN(x), x, c.Ite(c.FIsNaN(y), y, r))
			}
			res = r
		}
		return nil, res
	case "ssa:wrapnilchk":
		if p, ok := args[0].(Ptr); ok && p.Obj == 0 {
			return e.doPanic(s, nil, "value method called using nil pointer"), nil
		}
		return nil, args[0]
	}
	unsup("builtin %s on %T", b.Name(), first(args))
	return nil, nil
}

func first(a []Value) Value {
	if len(a) == 0 {
		return nil
	}
	return a[0]
}

// growCap emulates the capacity Go's append picks.
func growCap(old, need int, elemBytes int) int {
	grow := func(f func() int) int { return f() }
	switch elemBytes {
	case 1:
		return grow(func() int { return cap(append(make([]byte, old), make([]byte, need-old)...)) })
	case 2:
		return grow(func() int { return cap(append(make([]int16, old), make([]int16, need-old)...)) })
	case 4:
		return grow(func() int { return cap(append(make([]int32, old), make([]int32, need-old)...)) })
	case 8:
		return grow(func() int { return cap(append(make([]int64, old), make([]int64, need-old)...)) })
	case 16:
		return grow(func() int { return cap(append(make([]string, old), make([]string, need-old)...)) })
	case 24:
		return grow(func() int { return cap(append(make([][]byte, old), make([][]byte, need-old)...)) })
	}
	return cap(append(make([][5]int64, old), make([][5]int64, need-old)...))
}

var gcSizes = types.SizesFor("gc", "amd64")

func (e *Exec) appendOp(s *State, args []Value, cc *ssa.CallCommon) Value {
	dst := args[0].(Slice)
	var el types.Type
	if cc == nil {
		unsup("deferred append")
	}
	el = under(cc.Args[0].Type()).(*types.Slice).Elem()
	sz := e.sizeOf(el)
	var src []Value
	n := 0
	switch x := args[1].(type) {
	case Slice:
		n = x.Len
		if n > 0 {
			src = append([]Value(nil), e.loadCells(s, Ptr{x.Obj, x.Off}, n*sz)...)
		}
	case Str:
		if x.Opaque {
			unsup("append of opaque string")
		}
		n = len(x.S)
		for i := 0; i < n; i++ {
			src = append(src, e.tc.BVc(8, uint64(x.S[i])))
		}
	default:
		unsup("append of %T", x)
	}
	if n == 0 {
		return dst
	}
	if dst.Len+n <= dst.Cap {
		o := s.heap.own(dst.Obj)
		copy(o.v[dst.Off+dst.Len*sz:], src)
		return Slice{dst.Obj, dst.Off, dst.Len + n, dst.Cap}
	}
	bytes := int(gcSizes.Sizeof(el))
	ncap := growCap(dst.Cap, dst.Len+n, bytes)
	if ncap < dst.Len+n {
		ncap = dst.Len + n
	}
	cells := make([]Value, 0, ncap*sz)
	if dst.Len > 0 {
		cells = append(cells, e.loadCells(s, Ptr{dst.Obj, dst.Off}, dst.Len*sz)...)
	}
	cells = append(cells, src...)
	z := e.zeroCells(el, nil)
	for len(cells) < ncap*sz {
		cells = append(cells, z...)
	}
	return Slice{e.alloc(s, cells), 0, dst.Len + n, ncap}
}

var _ = time.Now
