package main

import (
	"bufio"
	"context"
	"fmt"
	"math/big"
	"os/exec"
	"sort"
	"strings"
	"time"
)

// The normal form of terms is computed by this program. So that its results need not be believed, every
// distinct step "op(a, b) is written as t" is kept and given to z3 as an identity over the bit-vectors
// (or reals) with the atoms of the polynomials as free constants: unsat of its negation for all values.

type lemOp uint8

const (
	lAdd lemOp = iota
	lNeg
	lMul
)

type lemKey struct {
	op   lemOp
	a, b int
}

type lem struct{ a, b, t *Term }

func (c *TC) lemma(op lemOp, a, b, t *Term) *Term {
	if c.lem == nil {
		return t
	}
	if op != lNeg && a.id > b.id {
		a, b = b, a
	}
	k := lemKey{op, a.id, b.id}
	if _, ok := c.lem[k]; !ok {
		c.lem[k] = lem{a, b, t}
	}
	return t
}

type Cert struct {
	Steps, Proved, Undecided, Refuted, Side int
	Time                                    time.Duration
	Bad                                     []string
}

func monoSize(t *Term) int {
	if t.op == OPoly {
		return len(t.poly.ms)
	}
	return 1
}

type certWriter struct {
	sb    strings.Builder
	decl  map[int]bool
	invs  map[int]*Term
	decls strings.Builder
}

func (w *certWriter) atom(t *Term) string {
	n := fmt.Sprintf("a%d", t.id)
	if !w.decl[t.id] {
		w.decl[t.id] = true
		fmt.Fprintf(&w.decls, "(declare-const %s %s)\n", n, t.s)
	}
	if t.op == ORInv && t.a[0].op != OPoly {
		w.invs[t.id] = t
	}
	return n
}

func (w *certWriter) poly(t *Term) string {
	if t.op == OConst {
		return constSMT(t)
	}
	if t.op != OPoly {
		return w.atom(t)
	}
	add, mul := "bvadd", "bvmul"
	if t.s.K == KReal {
		add, mul = "+", "*"
	}
	var sb strings.Builder
	if len(t.poly.ms) > 1 {
		sb.WriteString("(" + add)
	}
	for _, m := range t.poly.ms {
		sb.WriteByte(' ')
		var fs []string
		if t.s.K == KReal {
			if m.r.Cmp(big.NewRat(1, 1)) != 0 || len(m.vs) == 0 {
				fs = append(fs, ratSMT(m.r))
			}
		} else if m.c != 1 || len(m.vs) == 0 {
			fs = append(fs, bvSMT(m.c, t.s.W))
		}
		for _, v := range m.vs {
			fs = append(fs, w.atom(v))
		}
		if len(fs) == 1 {
			sb.WriteString(fs[0])
		} else {
			sb.WriteString("(" + mul + " " + strings.Join(fs, " ") + ")")
		}
	}
	if len(t.poly.ms) > 1 {
		sb.WriteString(")")
	}
	return strings.TrimSpace(sb.String())
}

// certify gives the steps to z3, in batches; limit is the time allowed.
func (c *TC) certify(limit time.Duration) (r Cert) {
	t0 := time.Now()
	defer func() { r.Time = time.Since(t0) }()
	r.Steps, r.Side = len(c.lem)+len(c.glem), c.side
	if r.Steps == 0 {
		return
	}
	keys := make([]lemKey, 0, len(c.lem))
	for k := range c.lem {
		keys = append(keys, k)
	}
	// small steps first: they are many and shared by many results
	size := func(k lemKey) int {
		l := c.lem[k]
		if k.op == lMul {
			return monoSize(l.a) * monoSize(l.b)
		}
		return monoSize(l.a) + monoSize(l.b)
	}
	sort.Slice(keys, func(i, j int) bool {
		a, b := size(keys[i]), size(keys[j])
		if a != b {
			return a < b
		}
		x, y := keys[i], keys[j]
		if x.op != y.op {
			return x.op < y.op
		}
		if x.a != y.a {
			return x.a < y.a
		}
		return x.b < y.b
	})
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	cmd := exec.CommandContext(ctx, "z3-new", "-in")
	in, err := cmd.StdinPipe()
	if err != nil {
		return
	}
	outp, err := cmd.StdoutPipe()
	if err != nil {
		return
	}
	if cmd.Start() != nil {
		return
	}
	defer func() {
		in.Close()
		cmd.Process.Kill()
		cmd.Wait()
	}()
	rd := bufio.NewReader(outp)
	ask := func(text, tactic string) (string, bool) {
		if _, err := fmt.Fprintf(in, "(push)\n%s(check-sat-using %s)\n(pop)\n", text, tactic); err != nil {
			return "", false
		}
		for {
			ln, err := rd.ReadString('\n')
			if err != nil {
				return "", false
			}
			ln = strings.TrimSpace(ln)
			switch ln {
			case "sat", "unsat", "unknown":
				return ln, true
			}
			if len(r.Bad) < 5 {
				r.Bad = append(r.Bad, ln)
			}
		}
	}
	// batches; a batch that is not unsat is taken apart
	var solve func(ks []lemKey) bool
	solve = func(ks []lemKey) bool {
		w := &certWriter{decl: map[int]bool{}, invs: map[int]*Term{}}
		var body []string
		for _, k := range ks {
			l := c.lem[k]
			a, t := w.poly(l.a), w.poly(l.t)
			bv := l.a.s.K == KBV
			var lhs string
			switch {
			case k.op == lNeg && bv:
				lhs = "(bvneg " + a + ")"
			case k.op == lNeg:
				lhs = "(- " + a + ")"
			case k.op == lAdd && bv:
				lhs = "(bvadd " + a + " " + w.poly(l.b) + ")"
			case k.op == lAdd:
				lhs = "(+ " + a + " " + w.poly(l.b) + ")"
			case bv:
				lhs = "(bvmul " + a + " " + w.poly(l.b) + ")"
			default:
				lhs = "(* " + a + " " + w.poly(l.b) + ")"
			}
			body = append(body, "(not (= "+lhs+" "+t+"))")
		}
		var hyp strings.Builder
		for _, id := range sortedIDs(w.invs) {
			iv := w.invs[id]
			fmt.Fprintf(&hyp, "(assert (= (* %s %s) 1.0))\n", w.atom(iv.a[0]), w.atom(iv))
		}
		q := "(or " + strings.Join(body, " ") + ")"
		if len(body) == 1 {
			q = body[0]
		}
		ans, ok := ask(w.decls.String()+hyp.String()+"(assert "+q+")\n", "(then (using-params simplify :som true :som_blowup 1000000) (try-for smt 2000))")
		if !ok {
			return false
		}
		switch ans {
		case "unsat":
			r.Proved += len(ks)
			return true
		case "sat":
			if len(ks) == 1 {
				r.Refuted++
				if len(r.Bad) < 5 {
					r.Bad = append(r.Bad, body[0]+" | "+hyp.String())
				}
				return true
			}
		default:
			if len(ks) == 1 {
				r.Undecided++
				return true
			}
		}
		h := len(ks) / 2
		return solve(ks[:h]) && solve(ks[h:])
	}
	alive := true
	for i := 0; i < len(keys) && alive; {
		n, j := 0, i
		for j < len(keys) && (j == i || n+size(keys[j]) < 3000) && j-i < 400 {
			n += size(keys[j])
			j++
		}
		alive = solve(keys[i:j])
		i = j
	}
	// the other constructors: arguments are printed to some depth, what is below are free constants
	gk := sortedKeys(c.glem)
	var gsolve func(ks []string, depth int) bool
	gsolve = func(ks []string, depth int) bool {
		p := NewPrinter(c)
		p.cut = map[int]bool{}
		dist := map[int]int{}
		var queue, invs []*Term
		for _, k := range ks {
			l := c.glem[k]
			queue = append(queue, l.raw.a...)
			if l.t.op != OPoly && l.t.op != OVar {
				queue = append(queue, l.t.a...)
			} else {
				queue = append(queue, l.t)
			}
		}
		for _, t := range queue {
			dist[t.id] = 1
		}
		for len(queue) > 0 {
			t := queue[0]
			queue = queue[1:]
			if dist[t.id] >= depth {
				if t.op != OConst && t.op != OVar {
					p.cut[t.id] = true
				}
				continue
			}
			if t.op == ORInv {
				invs = append(invs, t)
			}
			kids := t.a
			if t.op == OPoly {
				for _, m := range t.poly.ms {
					kids = append(kids, m.vs...)
				}
			}
			for _, x := range kids {
				if _, ok := dist[x.id]; !ok {
					dist[x.id] = dist[t.id] + 1
					queue = append(queue, x)
				}
			}
		}
		var body []string
		hyp := ""
		for _, t := range invs { // a denominator is not zero (checked where the division is executed)
			hyp += "(assert (not (= " + p.Emit(t.a[0]) + " 0.0)))\n"
		}
		for i, k := range ks {
			l := c.glem[k]
			raw := *l.raw
			raw.id = -1 - i
			if d := c.ringEq(l); d != nil && depth < 9 {
				// an equation between polynomials and one of their difference with zero
				x, y, z := p.Emit(raw.a[0]), p.Emit(raw.a[1]), p.Emit(d)
				sub := "bvsub"
				if d.s.K == KReal {
					sub = "-"
				}
				body = append(body, fmt.Sprintf("(and (not (= (%s %s %s) %s)) (not (= (%s %s %s) %s)))", sub, x, y, z, sub, y, x, z))
				continue
			}
			if raw.op == ORInv {
				hyp += "(assert (not (= " + p.Emit(raw.a[0]) + " 0.0)))\n"
			}
			x := p.Emit(&raw)
			body = append(body, "(not (= "+x+" "+p.Emit(l.t)+"))")
		}
		q := "(or " + strings.Join(body, " ") + ")"
		if len(body) == 1 {
			q = body[0]
		}
		ans, ok := ask(p.out.String()+hyp+"(assert "+q+")\n", "(then (using-params simplify :som true :som_blowup 1000000) (try-for smt 3000))")
		if !ok {
			return false
		}
		if ans == "unsat" {
			r.Proved += len(ks)
			return true
		}
		if len(ks) > 1 {
			h := len(ks) / 2
			return gsolve(ks[:h], depth) && gsolve(ks[h:], depth)
		}
		if depth < 1000 && len(p.cut) > 0 {
			return gsolve(ks, depth*3)
		}
		if ans == "sat" {
			r.Refuted++
			if len(r.Bad) < 5 {
				r.Bad = append(r.Bad, p.out.String()+q)
			}
		} else {
			r.Undecided++
		}
		return true
	}
	for i := 0; i < len(gk) && alive; i += 100 {
		alive = gsolve(gk[i:min(i+100, len(gk))], 2)
	}
	return
}

// ringEq returns the polynomial that the equation between polynomials was replaced by (compared with zero).
func (c *TC) ringEq(l glem) *Term {
	if l.raw.op != OEq || l.raw.a[0].s.K != KBV && l.raw.a[0].s.K != KReal {
		return nil
	}
	if l.raw.a[0].op != OPoly && l.raw.a[1].op != OPoly {
		return nil
	}
	if c.findInv(l.raw.a[0]) != nil || c.findInv(l.raw.a[1]) != nil {
		return nil // multiplied by its denominators: shown as an equivalence
	}
	zero := c.RealI(0)
	if l.raw.a[0].s.K == KBV {
		zero = c.BVc(l.raw.a[0].s.W, 0)
	}
	if l.t == c.True {
		return zero
	}
	if l.t.op == OEq && l.t.a[1] == zero {
		return l.t.a[0]
	}
	return nil
}

func sortedIDs(m map[int]*Term) []int {
	out := make([]int, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Ints(out)
	return out
}
