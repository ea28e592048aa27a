package main

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"time"
)

// ---------- printing ----------

type Printer struct {
	tc   *TC
	done map[int]bool
	out  *strings.Builder
	ndec int
	ufs  map[string]bool
	aux  int

	pending []*Term
	axDone  map[int]bool

	abs   bool // products, machine-number operations and unknown functions become fresh constants
	monos map[string]bool
	cut   map[int]bool // terms to be treated as free constants
}

func (p *Printer) opaque(x *Term) bool {
	if p.cut[x.id] {
		return true
	}
	if !p.abs {
		return false
	}
	switch x.op {
	case OUF, OFMul, OFDiv, OFAdd, OFSub, OFSqrt, OFToFP, OFRound, OUDiv, OSDiv, OURem, OSRem, ORInv:
		return true
	}
	return false
}

func monoName(vs []*Term) string {
	n := "m"
	for _, v := range vs {
		n += "_" + strconv.Itoa(v.id)
	}
	return n
}

func NewPrinter(tc *TC) *Printer {
	return &Printer{tc: tc, done: map[int]bool{}, out: &strings.Builder{}, ufs: map[string]bool{}, axDone: map[int]bool{}, monos: map[string]bool{}}
}

func quote(n string) string { return "|" + strings.NewReplacer("|", "!", "\\", "!").Replace(n) + "|" }

func ratSMT(r *big.Rat) string {
	f := func(i *big.Int) string {
		if i.Sign() < 0 {
			return "(- " + new(big.Int).Neg(i).String() + ".0)"
		}
		return i.String() + ".0"
	}
	if r.IsInt() {
		return f(r.Num())
	}
	return "(/ " + f(r.Num()) + " " + r.Denom().String() + ".0)"
}

func constSMT(t *Term) string {
	switch t.s.K {
	case KBool:
		if t.u == 1 {
			return "true"
		}
		return "false"
	case KBV:
		return bvSMT(t.u, t.s.W)
	case KFP:
		f := t.cF()
		if f != f {
			if t.s.W == 32 {
				return "(_ NaN 8 24)"
			}
			return "(_ NaN 11 53)"
		}
		if t.s.W == 32 {
			return fmt.Sprintf("(fp #b%01b #b%08b #b%023b)", t.u>>31, (t.u>>23)&0xff, t.u&(1<<23-1))
		}
		return fmt.Sprintf("(fp #b%01b #b%011b #b%052b)", t.u>>63, (t.u>>52)&0x7ff, t.u&(1<<52-1))
	default:
		return ratSMT(t.r)
	}
}

func bvSMT(u uint64, w int) string {
	if w%4 == 0 {
		return fmt.Sprintf("#x%0*x", w/4, u)
	}
	return fmt.Sprintf("#b%0*b", w, u)
}

func (p *Printer) ref(t *Term) string {
	if t.op == OConst {
		return constSMT(t)
	}
	if t.op == OVar {
		return quote(t.name)
	}
	return "t" + strconv.Itoa(t.id)
}

var rms = []string{"RNE", "RTZ", "RTP", "RTN"}

func fpPar(w int) string {
	if w == 32 {
		return "8 24"
	}
	return "11 53"
}

// Emit writes the declarations and definitions t needs and returns its name.
func (p *Printer) Emit(t *Term) string {
	// iterative post-order
	type item struct {
		t  *Term
		up bool
	}
	st := []item{{t, false}}
	for len(st) > 0 {
		it := st[len(st)-1]
		st = st[:len(st)-1]
		x := it.t
		if x.op == OConst || p.done[x.id] {
			continue
		}
		if !it.up {
			st = append(st, item{x, true})
			if p.opaque(x) {
				continue
			}
			for _, a := range x.a {
				if a.op != OConst && !p.done[a.id] {
					st = append(st, item{a, false})
				}
			}
			if x.op == OPoly {
				for _, m := range x.poly.ms {
					if p.abs && len(m.vs) > 1 {
						continue
					}
					for _, v := range m.vs {
						if !p.done[v.id] {
							st = append(st, item{v, false})
						}
					}
				}
			}
			continue
		}
		p.done[x.id] = true
		p.define(x)
		if p.abs && x.op != OVar && x.op != OFMul {
			continue
		}
		for _, ax := range p.tc.axOn[x.id] {
			if !p.axDone[ax.id] {
				p.axDone[ax.id] = true
				p.pending = append(p.pending, ax)
			}
		}
	}
	return p.ref(t)
}

func (p *Printer) define(x *Term) {
	w := p.out
	if x.op == OVar {
		fmt.Fprintf(w, "(declare-const %s %s)\n", quote(x.name), x.s)
		return
	}
	if p.opaque(x) {
		fmt.Fprintf(w, "(declare-const %s %s)\n", p.ref(x), x.s)
		return
	}
	var body string
	args := func() string {
		var sb strings.Builder
		for _, a := range x.a {
			sb.WriteByte(' ')
			sb.WriteString(p.ref(a))
		}
		return sb.String()
	}
	switch x.op {
	case OUF:
		if !p.ufs[x.name] {
			p.ufs[x.name] = true
			sig := p.tc.ufs[x.name]
			var as []string
			for _, s := range sig.Args {
				as = append(as, s.String())
			}
			fmt.Fprintf(w, "(declare-fun %s (%s) %s)\n", quote(x.name), strings.Join(as, " "), sig.Res)
		}
		body = "(" + quote(x.name) + args() + ")"
	case OExtract:
		body = fmt.Sprintf("((_ extract %d %d)%s)", x.p1, x.p2, args())
	case OZExt:
		body = fmt.Sprintf("((_ zero_extend %d)%s)", x.s.W-x.a[0].s.W, args())
	case OSExt:
		body = fmt.Sprintf("((_ sign_extend %d)%s)", x.s.W-x.a[0].s.W, args())
	case OPoly:
		var sb strings.Builder
		add, mul := "bvadd", "bvmul"
		if x.s.K == KReal {
			add, mul = "+", "*"
		}
		if len(x.poly.ms) > 1 {
			sb.WriteString("(" + add)
		}
		for _, m := range x.poly.ms {
			sb.WriteByte(' ')
			var fs []string
			one := false
			if x.s.K == KReal {
				one = m.r.Cmp(big.NewRat(1, 1)) == 0
				if !one {
					fs = append(fs, ratSMT(m.r))
				}
			} else {
				one = m.c == 1
				if !one {
					fs = append(fs, bvSMT(m.c, x.s.W))
				}
			}
			if p.abs && len(m.vs) > 1 {
				nm := monoName(m.vs)
				if !p.monos[nm] {
					p.monos[nm] = true
					fmt.Fprintf(w, "(declare-const %s %s)\n", nm, x.s)
				}
				fs = append(fs, nm)
			} else {
				for _, v := range m.vs {
					fs = append(fs, p.ref(v))
				}
			}
			if len(fs) == 0 {
				if x.s.K == KReal {
					fs = append(fs, "1.0")
				} else {
					fs = append(fs, bvSMT(1, x.s.W))
				}
			}
			if len(fs) == 1 {
				sb.WriteString(fs[0])
			} else {
				sb.WriteString("(" + mul + " " + strings.Join(fs, " ") + ")")
			}
		}
		if len(x.poly.ms) > 1 {
			sb.WriteString(")")
		}
		body = strings.TrimSpace(sb.String())
	case OFAdd:
		body = "(fp.add RNE" + args() + ")"
	case OFMul:
		body = "(fp.mul RNE" + args() + ")"
	case OFDiv:
		body = "(fp.div RNE" + args() + ")"
	case OFSqrt:
		body = "(fp.sqrt RNE" + args() + ")"
	case OFRound:
		body = "(fp.roundToIntegral " + rms[x.p1] + args() + ")"
	case OFToFP:
		body = fmt.Sprintf("((_ to_fp %s) RNE%s)", fpPar(x.s.W), args())
	case OSToFP:
		body = fmt.Sprintf("((_ to_fp %s) RNE%s)", fpPar(x.s.W), args())
	case OUToFP:
		body = fmt.Sprintf("((_ to_fp_unsigned %s) RNE%s)", fpPar(x.s.W), args())
	case OFToSBV:
		body = fmt.Sprintf("((_ fp.to_sbv %d) RTZ%s)", x.s.W, args())
	case OFToUBV:
		body = fmt.Sprintf("((_ fp.to_ubv %d) RTZ%s)", x.s.W, args())
	case OBitsToFP:
		body = fmt.Sprintf("((_ to_fp %s)%s)", fpPar(x.s.W), args())
	case ORInv:
		body = "(/ 1.0" + args() + ")"
	case ORFloor:
		body = "(to_real (to_int" + args() + "))"
	case OUToReal:
		body = "(to_real (bv2nat" + args() + "))"
	case OSToReal:
		n := x.a[0].s.W
		half := new(big.Int).Lsh(big.NewInt(1), uint(n-1))
		full := new(big.Int).Lsh(big.NewInt(1), uint(n))
		a := p.ref(x.a[0])
		body = fmt.Sprintf("(to_real (ite (bvslt %s %s) (- (bv2nat %s) %s) (bv2nat %s)))", a, bvSMT(0, n), a, full, a)
		_ = half
	case ORToBV:
		a := p.ref(x.a[0])
		body = fmt.Sprintf("((_ int2bv %d) (ite (>= %s 0.0) (to_int %s) (- (to_int (- %s)))))", x.s.W, a, a, a)
	default:
		n, ok := opNames[x.op]
		if !ok {
			panic(fmt.Sprintf("no smt name for op %d", x.op))
		}
		body = "(" + n + args() + ")"
	}
	fmt.Fprintf(w, "(define-fun %s () %s %s)\n", p.ref(x), x.s, body)
}

// ---------- solver process ----------

type Result int

const (
	Unknown Result = iota
	Sat
	Unsat
)

func (r Result) String() string { return []string{"unknown", "sat", "unsat"}[r] }

type Solver struct {
	tc    *TC
	pr    *Printer
	cmd   *exec.Cmd
	in    io.WriteCloser
	out   *bufio.Reader
	stack []*Term
	dead  bool

	Queries   int
	SatN      int
	UnsatN    int
	UnknownN  int
	Fallbacks int
	Time      time.Duration
	TimeoutMS int
	OneShotS  int
	cancel    context.CancelFunc
	Log       io.Writer
	vals      map[string]string
	deadline  time.Time
	Skipped   int
	HardUnk   int
	MaxHard   int
	abs       bool
}

func NewSolver(tc *TC, timeoutMS int) *Solver {
	s := &Solver{tc: tc, TimeoutMS: timeoutMS, OneShotS: 20, MaxHard: 4}
	s.start()
	return s
}

// NewAbstractSolver decides an over-approximation: unsat is a verdict, sat is not.
func NewAbstractSolver(tc *TC, timeoutMS int) *Solver {
	s := &Solver{tc: tc, TimeoutMS: timeoutMS, abs: true}
	s.start()
	return s
}

func (s *Solver) start() {
	s.pr = NewPrinter(s.tc)
	s.pr.abs = s.abs
	s.stack = nil
	s.dead = false
	s.cmd = exec.Command("z3-new", "-in")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	o, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = nil
	s.in = in
	s.out = bufio.NewReaderSize(o, 1<<20)
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.send("(set-option :global-declarations true)\n(set-option :produce-models true)\n(set-option :smt.random_seed 1)\n(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 20)\n")
	s.send(fmt.Sprintf("(set-option :timeout %d)\n", s.TimeoutMS))
}

func (s *Solver) Close() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

func (s *Solver) send(x string) {
	if s.Log != nil {
		io.WriteString(s.Log, x)
	}
	if _, err := io.WriteString(s.in, x); err != nil {
		s.dead = true
	}
}

func (s *Solver) flushDefs() {
	if s.pr.out.Len() > 0 {
		s.send(s.pr.out.String())
		s.pr.out.Reset()
	}
}

// readSexp reads one s-expression or atom line.
func (s *Solver) readSexp(limit time.Duration) (string, bool) {
	type res struct {
		s  string
		ok bool
	}
	ch := make(chan res, 1)
	go func() {
		var sb strings.Builder
		depth := 0
		inq := false
		for {
			b, err := s.out.ReadByte()
			if err != nil {
				ch <- res{sb.String(), false}
				return
			}
			if inq {
				sb.WriteByte(b)
				if b == '|' || b == '"' {
					inq = false
				}
				continue
			}
			switch b {
			case '|', '"':
				inq = true
				sb.WriteByte(b)
			case '(':
				depth++
				sb.WriteByte(b)
			case ')':
				depth--
				sb.WriteByte(b)
				if depth == 0 {
					ch <- res{sb.String(), true}
					return
				}
			case '\n', '\r':
				if depth == 0 {
					if strings.TrimSpace(sb.String()) != "" {
						ch <- res{strings.TrimSpace(sb.String()), true}
						return
					}
				} else {
					sb.WriteByte(' ')
				}
			default:
				sb.WriteByte(b)
			}
		}
	}()
	select {
	case r := <-ch:
		return r.s, r.ok
	case <-time.After(limit):
		s.cmd.Process.Kill()
		s.dead = true
		<-ch
		return "", false
	}
}

func (s *Solver) setStack(pc []*Term) {
	n := 0
	for n < len(s.stack) && n < len(pc) && s.stack[n] == pc[n] {
		n++
	}
	if len(s.stack) > n {
		s.send(fmt.Sprintf("(pop %d)\n", len(s.stack)-n))
		s.stack = s.stack[:n]
	}
	for _, t := range pc[n:] {
		nm := s.pr.Emit(t)
		s.flushDefs()
		s.send("(push 1)\n(assert " + nm + ")\n")
		s.stack = append(s.stack, t)
	}
}

// assertAxioms asserts pending facts at the base level.
func (s *Solver) assertAxioms() {
	if len(s.pr.pending) == 0 {
		return
	}
	old := s.stack
	if len(old) > 0 {
		s.send(fmt.Sprintf("(pop %d)\n", len(old)))
		s.stack = nil
	}
	for len(s.pr.pending) > 0 {
		ax := s.pr.pending[0]
		s.pr.pending = s.pr.pending[1:]
		nm := s.pr.Emit(ax)
		s.flushDefs()
		s.send("(assert " + nm + ")\n")
	}
	for _, t := range old {
		s.send("(push 1)\n(assert " + s.pr.ref(t) + ")\n")
		s.stack = append(s.stack, t)
	}
}

// Check decides pc && extra. When sat and wantModel, the values of the given terms are returned.
func (s *Solver) Check(pc []*Term, extra *Term, want []*Term, hard bool) (Result, []string) {
	t0 := time.Now()
	defer func() {
		s.Time += time.Since(t0)
		if d := time.Since(t0); os.Getenv("VERIF_SLOW") != "" && d > 300*time.Millisecond {
			fmt.Fprintln(os.Stderr, "slow", s.abs, d, hard, len(want), s.pr.Emit(extra), len(pc))
			if os.Getenv("VERIF_SLOW") == "2" {
				debug.PrintStack()
			}
		}
	}()
	if !s.deadline.IsZero() && t0.After(s.deadline) {
		s.Skipped++
		return Unknown, nil
	}
	s.Queries++
	if s.dead {
		s.Close()
		s.start()
	}
	s.setStack(pc)
	nm := s.pr.Emit(extra)
	for _, w := range want {
		s.pr.Emit(w)
	}
	s.flushDefs()
	s.assertAxioms()
	s.send("(push 1)\n(assert " + nm + ")\n(check-sat)\n")
	line, ok := s.readSexp(time.Duration(s.TimeoutMS)*time.Millisecond + 10*time.Second)
	r := Unknown
	if ok {
		switch line {
		case "sat":
			r = Sat
		case "unsat":
			r = Unsat
		default:
			if strings.HasPrefix(line, "(error") {
				fmt.Fprintln(os.Stderr, "solver error:", line)
				s.dead = true
			}
		}
	}
	var vals []string
	if r == Sat && len(want) > 0 {
		vals = s.getValues(want)
		if vals == nil {
			r = Unknown
		}
	}
	if !s.dead {
		s.send("(pop 1)\n")
	}
	if r == Unknown && hard && s.HardUnk < s.MaxHard {
		s.Fallbacks++
		r, vals = s.oneShot(pc, extra, want)
		if r == Unknown {
			s.HardUnk++
		}
	}
	switch r {
	case Sat:
		s.SatN++
	case Unsat:
		s.UnsatN++
	default:
		s.UnknownN++
	}
	return r, vals
}

func (s *Solver) getValues(want []*Term) []string {
	var out []string
	for i := 0; i < len(want); i += 50 {
		j := i + 50
		if j > len(want) {
			j = len(want)
		}
		var sb strings.Builder
		sb.WriteString("(get-value (")
		for _, w := range want[i:j] {
			sb.WriteString(s.pr.ref(w))
			sb.WriteByte(' ')
		}
		sb.WriteString("))\n")
		s.send(sb.String())
		line, ok := s.readSexp(20 * time.Second)
		if !ok || strings.HasPrefix(line, "(error") {
			return nil
		}
		x := parseSexp(line)
		for _, e := range x.list {
			if len(e.list) != 2 {
				return nil
			}
			out = append(out, e.list[1].String())
		}
	}
	if len(out) != len(want) {
		return nil
	}
	return out
}

var oneShotSem = make(chan struct{}, 4)

// oneShot runs the query in fresh processes of two solvers; the first verdict counts.
func (s *Solver) oneShot(pc []*Term, extra *Term, want []*Term) (Result, []string) {
	oneShotSem <- struct{}{}
	defer func() { <-oneShotSem }()
	p := NewPrinter(s.tc)
	var asserts []string
	for _, t := range pc {
		asserts = append(asserts, p.Emit(t))
	}
	asserts = append(asserts, p.Emit(extra))
	for _, w := range want {
		p.Emit(w)
	}
	for len(p.pending) > 0 {
		ax := p.pending[0]
		p.pending = p.pending[1:]
		asserts = append(asserts, p.Emit(ax))
	}
	var sb strings.Builder
	sb.WriteString("(set-logic ALL)\n(set-option :produce-models true)\n")
	sb.WriteString(p.out.String())
	for _, a := range asserts {
		sb.WriteString("(assert " + a + ")\n")
	}
	sb.WriteString("(check-sat)\n")
	if len(want) > 0 {
		sb.WriteString("(get-value (")
		for _, w := range want {
			sb.WriteString(p.ref(w) + " ")
		}
		sb.WriteString("))\n")
	}
	text := sb.String()
	lim := time.Duration(s.OneShotS) * time.Second
	if !s.deadline.IsZero() {
		if d := time.Until(s.deadline); d < lim {
			lim = d
		}
	}
	ctx, cancel := context.WithTimeout(context.Background(), lim)
	defer cancel()
	type res struct {
		r    Result
		vals []string
	}
	cmds := [][]string{
		{"z3-new", "-in"},
		{"z3", "-in"},
		{"cvc5", "--lang=smt2", "--fp-exp", "-q", "-"},
	}
	ch := make(chan res, len(cmds))
	var wg sync.WaitGroup
	for _, c := range cmds {
		wg.Add(1)
		go func(c []string) {
			defer wg.Done()
			cmd := exec.CommandContext(ctx, c[0], c[1:]...)
			cmd.Stdin = strings.NewReader(text)
			b, _ := cmd.Output()
			o := string(b)
			i := strings.IndexByte(o, '\n')
			if i < 0 {
				ch <- res{Unknown, nil}
				return
			}
			first := strings.TrimSpace(o[:i])
			if first == "unsat" {
				ch <- res{Unsat, nil}
				return
			}
			if first != "sat" {
				ch <- res{Unknown, nil}
				return
			}
			var vals []string
			if len(want) > 0 {
				x := parseSexp(o[i+1:])
				for _, e := range x.list {
					if len(e.list) == 2 {
						vals = append(vals, e.list[1].String())
					}
				}
				if len(vals) != len(want) {
					ch <- res{Unknown, nil}
					return
				}
			}
			ch <- res{Sat, vals}
		}(c)
	}
	best := res{}
	for range cmds {
		r := <-ch
		if r.r != Unknown {
			best = r
			break
		}
	}
	cancel()
	wg.Wait()
	return best.r, best.vals
}

// ---------- s-expressions ----------

type Sexp struct {
	atom string
	list []*Sexp
	isL  bool
}

func (x *Sexp) String() string {
	if !x.isL {
		return x.atom
	}
	var ps []string
	for _, e := range x.list {
		ps = append(ps, e.String())
	}
	return "(" + strings.Join(ps, " ") + ")"
}

func parseSexp(s string) *Sexp {
	pos := 0
	var rec func() *Sexp
	rec = func() *Sexp {
		for pos < len(s) && (s[pos] == ' ' || s[pos] == '\n' || s[pos] == '\t' || s[pos] == '\r') {
			pos++
		}
		if pos >= len(s) {
			return nil
		}
		if s[pos] == '(' {
			pos++
			x := &Sexp{isL: true}
			for {
				for pos < len(s) && (s[pos] == ' ' || s[pos] == '\n' || s[pos] == '\t' || s[pos] == '\r') {
					pos++
				}
				if pos >= len(s) {
					return x
				}
				if s[pos] == ')' {
					pos++
					return x
				}
				e := rec()
				if e == nil {
					return x
				}
				x.list = append(x.list, e)
			}
		}
		st := pos
		if s[pos] == '|' {
			pos++
			for pos < len(s) && s[pos] != '|' {
				pos++
			}
			pos++
			return &Sexp{atom: s[st:pos]}
		}
		for pos < len(s) && !strings.ContainsRune(" \n\t\r()", rune(s[pos])) {
			pos++
		}
		return &Sexp{atom: s[st:pos]}
	}
	x := rec()
	if x == nil {
		return &Sexp{isL: true}
	}
	return x
}

// CVal is a concrete value of a term.
type CVal struct {
	U uint64
	R *big.Rat
}

func parseBV(a string) (uint64, int, bool) {
	if strings.HasPrefix(a, "#x") {
		u, err := strconv.ParseUint(a[2:], 16, 64)
		return u, 4 * (len(a) - 2), err == nil
	}
	if strings.HasPrefix(a, "#b") {
		u, err := strconv.ParseUint(a[2:], 2, 64)
		return u, len(a) - 2, err == nil
	}
	return 0, 0, false
}

func parseReal(x *Sexp) (*big.Rat, bool) {
	if !x.isL {
		r, ok := new(big.Rat).SetString(strings.TrimSuffix(x.atom, "?"))
		return r, ok
	}
	if len(x.list) == 2 && x.list[0].atom == "-" {
		r, ok := parseReal(x.list[1])
		if !ok {
			return nil, false
		}
		return r.Neg(r), true
	}
	if len(x.list) == 3 && x.list[0].atom == "/" {
		a, ok1 := parseReal(x.list[1])
		b, ok2 := parseReal(x.list[2])
		if !ok1 || !ok2 || b.Sign() == 0 {
			return nil, false
		}
		return a.Quo(a, b), true
	}
	return nil, false
}

func parseVal(s Sort, v string) (CVal, bool) {
	x := parseSexp(v)
	switch s.K {
	case KBool:
		if x.atom == "true" {
			return CVal{U: 1}, true
		}
		return CVal{U: 0}, x.atom == "false"
	case KBV:
		u, _, ok := parseBV(x.atom)
		if !ok && x.isL && len(x.list) == 3 && x.list[0].atom == "_" && strings.HasPrefix(x.list[1].atom, "bv") {
			n, err := strconv.ParseUint(x.list[1].atom[2:], 10, 64)
			return CVal{U: n}, err == nil
		}
		return CVal{U: u}, ok
	case KFP:
		if x.isL && len(x.list) == 4 && x.list[0].atom == "fp" {
			a, _, o1 := parseBV(x.list[1].atom)
			b, _, o2 := parseBV(x.list[2].atom)
			m, _, o3 := parseBV(x.list[3].atom)
			if s.W == 32 {
				return CVal{U: a<<31 | b<<23 | m}, o1 && o2 && o3
			}
			return CVal{U: a<<63 | b<<52 | m}, o1 && o2 && o3
		}
		if x.isL && len(x.list) == 4 && x.list[0].atom == "_" {
			k := x.list[1].atom
			var u32 uint64
			var u64 uint64
			switch k {
			case "NaN":
				u32, u64 = 0x7fc00000, 0x7ff8000000000001
			case "+oo":
				u32, u64 = 0x7f800000, 0x7ff0000000000000
			case "-oo":
				u32, u64 = 0xff800000, 0xfff0000000000000
			case "+zero":
			case "-zero":
				u32, u64 = 0x80000000, 0x8000000000000000
			default:
				return CVal{}, false
			}
			if s.W == 32 {
				return CVal{U: u32}, true
			}
			return CVal{U: u64}, true
		}
		return CVal{}, false
	default:
		r, ok := parseReal(x)
		return CVal{R: r}, ok
	}
}
