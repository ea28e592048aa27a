package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

const (
	repoMod    = "github.com/julioguillermo/godeep"
	harnessMod = "verifharness"
)

type Engine struct {
	Tier string
	prog *ssa.Program
	hpkg *ssa.Package
	pkgs []*ssa.Package

	mu      sync.Mutex
	methods map[methodKey]*ssa.Function
	intr    map[*ssa.Function]Intrinsic
}

type methodKey struct {
	t types.Type
	m *types.Func
}

type Job struct {
	Name     string
	Fn       *ssa.Function
	Real     bool
	Thorough bool
	Budget   time.Duration
}

// Model is a concrete assignment: symbols by name, and a table per harness function (Fun1/Fun2).
type Model struct {
	Vars map[string]string   `json:"vars"`
	Funs map[string][]FunRow `json:"funs,omitempty"`
}

type FunRow struct {
	Args []string `json:"args"`
	Res  string   `json:"res"`
}

func (g *Engine) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	g.mu.Lock()
	defer g.mu.Unlock()
	k := methodKey{t, m}
	if f, ok := g.methods[k]; ok {
		return f
	}
	f := g.prog.LookupMethod(t, m.Pkg(), m.Name())
	g.methods[k] = f
	return f
}

func (g *Engine) intrinsic(fn *ssa.Function) Intrinsic {
	g.mu.Lock()
	defer g.mu.Unlock()
	if i, ok := g.intr[fn]; ok {
		return i
	}
	i := intrinsics[intrinsicName(fn)]
	if fn.Pkg != nil && fn.Name() == "init" && fn.Parent() == nil && fn.Pkg.Func("init") == fn {
		if p := fn.Pkg.Pkg.Path(); !ownPkg(p) && !initPkgs[p] {
			i = func(c *ICall) Value { return Tup{} }
		}
	}
	g.intr[fn] = i
	return i
}

// initialised std packages (their package-level variables have simple initialisers)
var initPkgs = map[string]bool{"image": true, "image/color": true, "io": true, "bytes": true}

func ownPkg(path string) bool {
	return path == repoMod || strings.HasPrefix(path, repoMod+"/") || path == harnessMod || strings.HasPrefix(path, harnessMod+"/")
}

// globals of packages that are not initialised: errors get an identity of their own, the rest is zero
func (e *Exec) fillGlobal(s *State, g *ssa.Global, id int) {
	t := g.Type().(*types.Pointer).Elem()
	if types.Identical(t, errorT) {
		eid := -id
		p := e.prog.ImportedPackage("errors")
		et := p.Type("errorString").Type()
		s.heap.m[eid] = &Obj{v: []Value{Str{S: g.String()}}}
		s.heap.m[id] = &Obj{v: []Value{Iface{types.NewPointer(et), Ptr{eid, 0}}}}
		return
	}
	if g.Pkg != nil && !ownPkg(g.Pkg.Pkg.Path()) && !initPkgs[g.Pkg.Pkg.Path()] {
		e.note("package variable " + g.String() + " is taken as its zero value")
	}
	s.heap.m[id] = &Obj{v: e.zeroCells(t, nil)}
}

// runInit runs the package initialisers on the initial state.
func (e *Exec) runInit(s *State) bool {
	e.initing = true
	defer func() { e.initing = false }()
	for _, p := range e.eng.pkgs {
		path := p.Pkg.Path()
		if !ownPkg(path) && !initPkgs[path] {
			continue
		}
		f := p.Func("init")
		if f == nil || len(f.Blocks) == 0 {
			continue
		}
		e.pushFrame(s, f, nil, nil, nil)
		base := len(s.frames) - 1
		for len(s.frames) > base && !s.done {
			n, _, dropped := e.stepSafe(s)
			if dropped || n != nil {
				e.incomplete("package initialiser of " + path + " not executed")
				s.frames = s.frames[:base]
				break
			}
		}
		s.done = false
	}
	return true
}

// ---------- reports ----------

func ratString(r *big.Rat) string { return r.RatString() }

func (e *Exec) wants() []*Term {
	w := append([]*Term(nil), e.syms...)
	for _, a := range e.tc.apps {
		if strings.HasPrefix(a.name, "u:") {
			w = append(w, a)
			w = append(w, a.a...)
		}
	}
	return w
}

func valString(t *Term, v string) (string, bool) {
	cv, ok := parseVal(t.s, v)
	if !ok {
		return "", false
	}
	switch t.s.K {
	case KReal:
		return ratString(cv.R), true
	case KBV:
		return fmt.Sprint(cv.U), true
	}
	return fmt.Sprint(cv.U), true
}

func (e *Exec) model(ws []*Term, vals []string) *Model {
	m := &Model{Vars: map[string]string{}, Funs: map[string][]FunRow{}}
	k := 0
	for _, t := range e.syms {
		if v, ok := valString(t, vals[k]); ok {
			m.Vars[t.name] = v
		}
		k++
	}
	for _, a := range e.tc.apps {
		if !strings.HasPrefix(a.name, "u:") {
			continue
		}
		if k+len(a.a) >= len(vals) {
			break
		}
		r, ok := valString(a, vals[k])
		k++
		row := FunRow{Res: r}
		for range a.a {
			x, ok2 := valString(ws[k], vals[k])
			ok = ok && ok2
			row.Args = append(row.Args, x)
			k++
		}
		if ok {
			nm := strings.SplitN(strings.TrimPrefix(a.name, "u:"), "\x00", 2)[0]
			if i := strings.LastIndex(nm, "_r"); i > 0 {
				nm = nm[:i]
			}
			for range a.a {
				if i := strings.LastIndexByte(nm, '_'); i > 0 {
					nm = nm[:i]
				}
			}
			m.Funs[nm] = append(m.Funs[nm], row)
		}
	}
	return m
}

func (e *Exec) ask(s *State, cond *Term, hard bool) (Result, *Model) {
	ws := e.wants()
	r, vals := e.sol.Check(s.pcList(), cond, ws, hard)
	if r != Sat {
		return r, nil
	}
	return r, e.model(ws, vals)
}

func (e *Exec) where(s *State) string {
	for i := len(s.frames) - 1; i >= 0; i-- {
		f := s.frames[i]
		if f.ip < len(f.block.Instrs) {
			p := e.prog.Fset.Position(f.block.Instrs[f.ip].Pos())
			if p.IsValid() && strings.Contains(p.Filename, "/repo") {
				return fmt.Sprintf("%s:%d", p.Filename, p.Line)
			}
		}
	}
	return ""
}

const maxCandPerLabel = 3

// report records a possible violation: the path condition together with cond.
func (e *Exec) report(s *State, cond *Term, label, kind string) {
	if e.initing {
		e.incomplete("panic in a package initialiser: " + label)
		return
	}
	key := kind + label
	e.candSeen[key]++
	if e.candSeen[key] > maxCandPerLabel {
		return
	}
	r, m := e.ask(s, cond, true)
	if r == Unsat {
		return
	}
	if r == Unknown {
		_, m = e.ask(s, e.tc.True, false)
	}
	if m == nil {
		m = &Model{Vars: map[string]string{}}
	}
	e.Cands = append(e.Cands, &Candidate{Label: label, Kind: kind, PC: s.pcList(), Extra: cond, Model: m})
}

// reportSoft: a condition under which the real encoding does not describe the program (division by
// zero and the like). The path goes on outside it; native replay decides whether it matters.
func (e *Exec) reportSoft(s *State, cond *Term, label string) {
	e.note("real encoding: excluded on the path: " + label)
	key := "soft" + label
	e.candSeen[key]++
	if e.candSeen[key] > 1 {
		return
	}
	if r, m := e.ask(s, cond, false); r == Sat {
		e.Cands = append(e.Cands, &Candidate{Label: label, Kind: "soft", Model: m})
	}
}

func (e *Exec) doAssert(s *State, cond *Term, label string) bool {
	s.nass++
	e.Asserts++
	e.Labels[label]++
	cond = e.simp(s, cond)
	if cond == e.tc.True {
		e.Closed++
		return true
	}
	if e.candSeen["assert"+label] >= maxCandPerLabel {
		if cond == e.tc.False || !e.feasible(s, cond) {
			return false
		}
		e.assume(s, cond)
		return true
	}
	neg := e.tc.Not(cond)
	if e.rangeUnsat(s, neg) {
		e.Proved++
		e.learn(s, cond)
		return true
	}
	hard := e.hardFP(neg)
	if cond == e.tc.False && !e.tc.RealMode {
		for _, c := range s.pcList() {
			hard = hard || e.hardFP(c)
		}
	}
	if hard && e.absUnsat(s, neg) {
		e.Proved++
		e.learn(s, cond)
		return true
	}
	r, m := e.ask(s, neg, true)
	switch r {
	case Unsat:
		e.Proved++
		e.learn(s, cond)
		return true
	case Unknown:
		e.Unk = append(e.Unk, label)
		e.candSeen["assert"+label]++
		_, m = e.ask(s, e.tc.True, false)
		if m == nil {
			m = &Model{Vars: map[string]string{}}
		}
		e.Cands = append(e.Cands, &Candidate{Label: label, Kind: "unknown", Model: m})
		e.assume(s, cond)
		return true
	}
	e.candSeen["assert"+label]++
	e.Cands = append(e.Cands, &Candidate{Label: label, Kind: "assert", PC: s.pcList(), Extra: neg, Model: m})
	if cond == e.tc.False || !e.feasible(s, cond) {
		return false
	}
	e.assume(s, cond)
	return true
}

const maxWitness = 12

func (e *Exec) finished(s *State) {
	if e.initing {
		return
	}
	e.Paths++
	e.pathAsserts += s.nass
	if s.nass == 0 {
		e.emptyPaths++
	}
	if e.Paths&(e.Paths-1) == 0 && len(e.witness) < maxWitness {
		if r, m := e.ask(s, e.tc.True, false); r == Sat && m != nil {
			e.witness = append(e.witness, m)
		}
	}
}

// ---------- one job ----------

type JobResult struct {
	Cert    Cert
	Job     *Job
	Exec    *Exec
	Wall    time.Duration
	Crash   string
	Viol    []*Violation
	Unconf  []string
	Replays int
	Agree   int
}

type Violation struct {
	Label  string
	Model  *Model
	Native string
	Seed   int64
}

func (g *Engine) runJob(j *Job) (res *JobResult) {
	res = &JobResult{Job: j}
	t0 := time.Now()
	tc := NewTC()
	tc.RealMode = j.Real
	tc.lem, tc.glem = map[lemKey]lem{}, map[string]glem{}
	e := &Exec{tc: tc, prog: g.prog, eng: g, job: j, globals: map[*ssa.Global]int{}, sizeC: map[types.Type]int{},
		consts: map[*ssa.Const]Value{}, Incompl: map[string]int{}, Fns: map[*ssa.Function]bool{}, Notes: map[string]bool{},
		Covers: map[string]int{}, Labels: map[string]int{}, divzero: map[string]bool{}, inits: map[*ssa.Package]int{},
		symSeen: map[string]bool{}, candSeen: map[string]int{}, fpMemo: map[int]bool{}}
	e.deadline = t0.Add(j.Budget)
	e.maxSteps = 400_000_000
	res.Exec = e
	tmo := 8000
	if g.Tier == "thorough" {
		tmo = 60000
	}
	e.sol = NewSolver(tc, tmo)
	if g.Tier == "thorough" {
		e.sol.OneShotS = 120
	}
	e.sol.deadline = e.deadline
	defer e.sol.Close()
	defer func() {
		if e.asol != nil {
			e.asol.Close()
			e.sol.Queries += e.asol.Queries
			e.sol.Time += e.asol.Time
		}
	}()
	defer func() {
		res.Wall = time.Since(t0)
		if r := recover(); r != nil {
			res.Crash = fmt.Sprint(r)
			if debugOn {
				panic(r)
			}
		}
	}()
	s := &State{heap: (&Heap{m: map[int]*Obj{}}), known: map[int]*Term{}, cnt: map[string]int{}}
	e.runInit(s)
	e.Steps = 0
	e.Fns = map[*ssa.Function]bool{}
	e.pushFrame(s, j.Fn, nil, nil, nil)
	e.States = 1
	e.run(s, Stop{depth: 0})
	res.Cert = tc.certify(g.certLimit())
	return res
}

func sortedKeys[V any](m map[string]V) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func (g *Engine) certLimit() time.Duration {
	if g.Tier == "thorough" {
		return 300 * time.Second
	}
	return 20 * time.Second
}
