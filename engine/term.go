package main

import (
	"encoding/binary"
	"fmt"
	"math"
	"math/big"
	"math/bits"
	"sort"
)

// ---------- sorts ----------

type Kind uint8

const (
	KBool Kind = iota
	KBV
	KFP
	KReal
)

type Sort struct {
	K Kind
	W int
}

var (
	SBool = Sort{KBool, 0}
	SReal = Sort{KReal, 0}
	SF32  = Sort{KFP, 32}
	SF64  = Sort{KFP, 64}
)

func BV(w int) Sort { return Sort{KBV, w} }

func (s Sort) String() string {
	switch s.K {
	case KBool:
		return "Bool"
	case KBV:
		return fmt.Sprintf("(_ BitVec %d)", s.W)
	case KFP:
		if s.W == 32 {
			return "(_ FloatingPoint 8 24)"
		}
		return "(_ FloatingPoint 11 53)"
	default:
		return "Real"
	}
}

// ---------- terms ----------

type Op uint8

const (
	OConst Op = iota
	OVar
	OUF
	ONot
	OAnd
	OOr
	OIte
	OEq // structural equality (SMT =)
	// bit-vectors
	OUDiv
	OURem
	OSDiv
	OSRem
	OBAnd
	OBOr
	OBXor
	OShl
	OLShr
	OAShr
	OULt
	OULe
	OSLt
	OSLe
	OExtract // p1=hi p2=lo
	OConcat
	OZExt
	OSExt
	// poly (BV or Real)
	OPoly
	// FP
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFNeg
	OFAbs
	OFSqrt
	OFLt
	OFLe
	OFEq
	OFIsNaN
	OFIsInf
	OFRound // p1: 0 RNE,1 RTZ,2 RTP(ceil),3 RTN(floor)
	OFToFP  // fp -> fp
	OFToSBV
	OFToUBV
	OSToFP
	OUToFP
	OBitsToFP
	// Real
	ORInv
	ORLt
	ORLe
	ORFloor // real -> real (to_int)
	OSToReal
	OUToReal
	ORToBV // truncating conversion
)

var opNames = map[Op]string{
	ONot: "not", OAnd: "and", OOr: "or", OIte: "ite", OEq: "=",
	OUDiv: "bvudiv", OURem: "bvurem", OSDiv: "bvsdiv", OSRem: "bvsrem",
	OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr",
	OULt: "bvult", OULe: "bvule", OSLt: "bvslt", OSLe: "bvsle", OConcat: "concat",
	OFNeg: "fp.neg", OFAbs: "fp.abs", OFLt: "fp.lt", OFLe: "fp.leq", OFEq: "fp.eq",
	OFIsNaN: "fp.isNaN", OFIsInf: "fp.isInfinite",
	ORLt: "<", ORLe: "<=",
}

type Term struct {
	id     int
	op     Op
	s      Sort
	a      []*Term
	u      uint64
	r      *big.Rat
	name   string
	poly   *Poly
	p1, p2 int
	size   int
}

type Mono struct {
	vs  []*Term // sorted by id, repeated for powers
	c   uint64
	r   *big.Rat
	key string
}

type Poly struct {
	ms []Mono // sorted by key
}

const maxMonos = 4000

// TC is the term context of one job.
type TC struct {
	tab   map[string]*Term
	n     int
	True  *Term
	False *Term
	ufs   map[string]UFSig
	vars  []*Term
	// axioms attached to a term: asserted globally as soon as the term occurs in a query
	axOn     map[int][]*Term
	scaled   map[int][]*Term // products with a positive constant, by constant
	axiomFor map[int]bool
	nz       map[int]bool
	RealMode bool
	kbuf     []byte
	bitsVar  map[int]*Term
	bitsOf   map[int]*Term
	apps     []*Term // applications of uninterpreted functions
	lem      map[lemKey]lem
	glem     map[string]glem
	side     int
}

type UFSig struct {
	Name string
	Args []Sort
	Res  Sort
}

func NewTC() *TC {
	c := &TC{tab: map[string]*Term{}, ufs: map[string]UFSig{}, axiomFor: map[int]bool{}, axOn: map[int][]*Term{}, scaled: map[int][]*Term{}, nz: map[int]bool{}, bitsVar: map[int]*Term{}, bitsOf: map[int]*Term{}}
	c.True = c.mkConst(SBool, 1)
	c.False = c.mkConst(SBool, 0)
	return c
}

func (c *TC) key(op Op, s Sort, a []*Term, u uint64, name string, p1, p2 int) string {
	b := c.kbuf[:0]
	b = append(b, byte(op), byte(s.K), byte(s.W))
	b = binary.AppendUvarint(b, u)
	b = binary.AppendUvarint(b, uint64(p1))
	b = binary.AppendUvarint(b, uint64(p2))
	for _, t := range a {
		b = binary.AppendUvarint(b, uint64(t.id))
	}
	if name != "" {
		b = append(b, 0xff)
		b = append(b, name...)
	}
	c.kbuf = b
	return string(b)
}

func (c *TC) mk(op Op, s Sort, a []*Term, u uint64, name string, p1, p2 int) *Term {
	k := c.key(op, s, a, u, name, p1, p2)
	if t, ok := c.tab[k]; ok {
		return t
	}
	sz := 1
	for _, x := range a {
		sz += x.size
		if sz > 1<<30 {
			sz = 1 << 30
		}
	}
	t := &Term{id: c.n, op: op, s: s, a: a, u: u, name: name, p1: p1, p2: p2, size: sz}
	c.n++
	c.tab[k] = t
	return t
}

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func (c *TC) mkConst(s Sort, u uint64) *Term { return c.mk(OConst, s, nil, u, "", 0, 0) }

func (c *TC) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}
func (c *TC) BVc(w int, u uint64) *Term { return c.mkConst(BV(w), u&mask(w)) }
func (c *TC) Int(i int64) *Term         { return c.BVc(64, uint64(i)) }

func (c *TC) RealC(r *big.Rat) *Term {
	k := "R" + r.RatString()
	if t, ok := c.tab[k]; ok {
		return t
	}
	t := &Term{id: c.n, op: OConst, s: SReal, r: new(big.Rat).Set(r), size: 1}
	c.n++
	c.tab[k] = t
	return t
}
func (c *TC) RealI(i int64) *Term { return c.RealC(new(big.Rat).SetInt64(i)) }

func (c *TC) F64c(f float64) *Term {
	if f != f {
		return c.mkConst(SF64, 0x7ff8000000000001)
	}
	return c.mkConst(SF64, math.Float64bits(f))
}
func (c *TC) F32c(f float32) *Term {
	if f != f {
		return c.mkConst(SF32, 0x7fc00000)
	}
	return c.mkConst(SF32, uint64(math.Float32bits(f)))
}

// FloatConst makes a float constant in the job's float encoding.
func (c *TC) FloatConst(w int, f float64) *Term {
	if c.RealMode && !math.IsNaN(f) && !math.IsInf(f, 0) {
		r := new(big.Rat)
		r.SetFloat64(f)
		return c.RealC(r)
	}
	if w == 32 {
		return c.F32c(float32(f))
	}
	return c.F64c(f)
}

func (c *TC) Var(name string, s Sort) *Term {
	k := c.key(OVar, s, nil, 0, name, 0, 0)
	if t, ok := c.tab[k]; ok {
		return t
	}
	t := c.mk(OVar, s, nil, 0, name, 0, 0)
	c.vars = append(c.vars, t)
	return t
}

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) cF() float64 {
	if t.s.W == 32 {
		return float64(math.Float32frombits(uint32(t.u)))
	}
	return math.Float64frombits(t.u)
}
func (t *Term) cS() int64 { // signed value
	return signExt(t.u, t.s.W)
}
func signExt(u uint64, w int) int64 {
	if w >= 64 {
		return int64(u)
	}
	sh := uint(64 - w)
	return int64(u<<sh) >> sh
}

// ---------- bool ----------

func (c *TC) not0(a *Term) *Term {
	if a == c.True {
		return c.False
	}
	if a == c.False {
		return c.True
	}
	if a.op == ONot {
		return a.a[0]
	}
	// push over orderings of total orders
	switch a.op {
	case OULt:
		return c.ULe(a.a[1], a.a[0])
	case OULe:
		return c.ULt(a.a[1], a.a[0])
	case OSLt:
		return c.SLe(a.a[1], a.a[0])
	case OSLe:
		return c.SLt(a.a[1], a.a[0])
	case ORLt:
		return c.mk(ORLe, SBool, []*Term{a.a[1], a.a[0]}, 0, "", 0, 0)
	case ORLe:
		return c.mk(ORLt, SBool, []*Term{a.a[1], a.a[0]}, 0, "", 0, 0)
	}
	return c.mk(ONot, SBool, []*Term{a}, 0, "", 0, 0)
}

func (c *TC) nary0(op Op, unit, zero *Term, ts []*Term) *Term {
	seen := map[int]bool{}
	var out []*Term
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == unit {
			return true
		}
		if t == zero {
			return false
		}
		if t.op == op {
			for _, x := range t.a {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if seen[t.id] {
			return true
		}
		seen[t.id] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return zero
		}
	}
	for _, t := range out {
		if t.op == ONot && seen[t.a[0].id] {
			return zero
		}
		switch t.op { // complementary orderings
		case OULt, OULe, OSLt, OSLe, ORLt, ORLe:
			if seen[c.Not(t).id] {
				return zero
			}
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return c.mk(op, SBool, out, 0, "", 0, 0)
}

func (c *TC) And(ts ...*Term) *Term { return c.nary(OAnd, c.True, c.False, ts) }
func (c *TC) Or(ts ...*Term) *Term  { return c.nary(OOr, c.False, c.True, ts) }
func (c *TC) Implies(a, b *Term) *Term {
	return c.Or(c.Not(a), b)
}

func (c *TC) ite0(g, a, b *Term) *Term {
	if g == c.True || a == b {
		return a
	}
	if g == c.False {
		return b
	}
	if g.op == ONot {
		return c.Ite(g.a[0], b, a)
	}
	if a.s.K == KBool {
		if a == c.True {
			return c.Or(g, b)
		}
		if a == c.False {
			return c.And(c.Not(g), b)
		}
		if b == c.True {
			return c.Or(c.Not(g), a)
		}
		if b == c.False {
			return c.And(g, a)
		}
	}
	if a.op == OIte && a.a[0] == g {
		return c.Ite(g, a.a[1], b)
	}
	if b.op == OIte && b.a[0] == g {
		return c.Ite(g, a, b.a[2])
	}
	if a.s != b.s {
		panic(fmt.Sprintf("ite sorts %v %v", a.s, b.s))
	}
	return c.mk(OIte, a.s, []*Term{g, a, b}, 0, "", 0, 0)
}

// Eq is SMT equality: for floats bit-level identity up to NaN payload.
func (c *TC) eq0(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.s != b.s {
		panic(fmt.Sprintf("eq sorts %v %v", a.s, b.s))
	}
	if a.isConst() && b.isConst() {
		if a.s.K == KFP {
			x, y := a.cF(), b.cF()
			if x != x && y != y {
				return c.True
			}
		}
		return c.False // distinct interned constants
	}
	switch a.s.K {
	case KBool:
		if a == c.True {
			return b
		}
		if b == c.True {
			return a
		}
		if a == c.False {
			return c.Not(b)
		}
		if b == c.False {
			return c.Not(a)
		}
		if c.Not(a) == b {
			return c.False
		}
	case KBV:
		if a.isConst() || b.isConst() {
			x, y := a, b
			if x.isConst() {
				x, y = y, x
			}
			if r := c.eqConst(x, y); r != nil {
				return r
			}
		}
		if a.op == OPoly || b.op == OPoly {
			d := c.Sub(a, b)
			if d.isConst() {
				return c.Bool(d.u == 0)
			}
			if d.op != OPoly { // single atom
				return c.Eq(d, c.BVc(d.s.W, 0))
			}
			d = c.normSign(d)
			z := c.BVc(d.s.W, 0)
			return c.mk(OEq, SBool, []*Term{d, z}, 0, "", 0, 0)
		}
	case KReal:
		d := c.clearInv(c.Sub(a, b))
		if d.isConst() {
			return c.Bool(d.r.Sign() == 0)
		}
		d = c.normSign(d)
		return c.mk(OEq, SBool, []*Term{d, c.RealI(0)}, 0, "", 0, 0)
	}
	if a.op == OIte && b.op == OIte && a.a[0] == b.a[0] {
		return c.Ite(a.a[0], c.Eq(a.a[1], b.a[1]), c.Eq(a.a[2], b.a[2]))
	}
	if a.op == OIte && b.isConst() && (a.a[1].isConst() || a.a[2].isConst()) {
		return c.Ite(a.a[0], c.Eq(a.a[1], b), c.Eq(a.a[2], b))
	}
	if b.op == OIte && a.isConst() && (b.a[1].isConst() || b.a[2].isConst()) {
		return c.Ite(b.a[0], c.Eq(a, b.a[1]), c.Eq(a, b.a[2]))
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OEq, SBool, []*Term{a, b}, 0, "", 0, 0)
}

// eqConst simplifies x == const for bit-vector structure.
func (c *TC) eqConst(x, k *Term) *Term {
	switch x.op {
	case OZExt:
		in := x.a[0]
		if k.u>>uint(in.s.W) != 0 {
			return c.False
		}
		return c.Eq(in, c.BVc(in.s.W, k.u))
	case OSExt:
		in := x.a[0]
		v := c.BVc(in.s.W, k.u)
		if uint64(signExt(v.u, in.s.W))&mask(x.s.W) != k.u {
			return c.False
		}
		return c.Eq(in, v)
	case OIte:
		if x.a[1].isConst() || x.a[2].isConst() {
			return c.Ite(x.a[0], c.Eq(x.a[1], k), c.Eq(x.a[2], k))
		}
	}
	return nil
}

func (c *TC) normSign(d *Term) *Term {
	if d.op != OPoly {
		return d
	}
	m := d.poly.ms[len(d.poly.ms)-1]
	if d.s.K == KReal {
		if m.r.Sign() < 0 {
			return c.Neg(d)
		}
		return d
	}
	if signExt(m.c, d.s.W) < 0 {
		return c.Neg(d)
	}
	return d
}

// ---------- polynomials ----------

func monoKey(vs []*Term) string {
	b := make([]byte, 0, len(vs)*4+1)
	b = append(b, byte(len(vs)))
	for _, v := range vs {
		b = binary.BigEndian.AppendUint32(b, uint32(v.id))
	}
	return string(b)
}

func (c *TC) toPoly(t *Term) *Poly {
	if t.op == OPoly {
		return t.poly
	}
	if t.isConst() {
		if t.s.K == KReal {
			if t.r.Sign() == 0 {
				return &Poly{}
			}
			return &Poly{[]Mono{{nil, 0, t.r, monoKey(nil)}}}
		}
		if t.u == 0 {
			return &Poly{}
		}
		return &Poly{[]Mono{{nil, t.u, nil, monoKey(nil)}}}
	}
	vs := []*Term{t}
	if t.s.K == KReal {
		return &Poly{[]Mono{{vs, 0, big.NewRat(1, 1), monoKey(vs)}}}
	}
	return &Poly{[]Mono{{vs, 1, nil, monoKey(vs)}}}
}

func (c *TC) fromPoly(s Sort, p *Poly) *Term {
	if len(p.ms) == 0 {
		if s.K == KReal {
			return c.RealI(0)
		}
		return c.BVc(s.W, 0)
	}
	if len(p.ms) == 1 {
		m := p.ms[0]
		if len(m.vs) == 0 {
			if s.K == KReal {
				return c.RealC(m.r)
			}
			return c.BVc(s.W, m.c)
		}
		if len(m.vs) == 1 {
			if s.K == KReal {
				if m.r.IsInt() && m.r.Num().IsInt64() && m.r.Num().Int64() == 1 {
					return m.vs[0]
				}
			} else if m.c == 1 {
				return m.vs[0]
			}
		}
	}
	b := []byte{'P', byte(s.K), byte(s.W)}
	for _, m := range p.ms {
		b = append(b, m.key...)
		if s.K == KReal {
			b = append(b, m.r.RatString()...)
			b = append(b, 0xfe)
		} else {
			b = binary.BigEndian.AppendUint64(b, m.c)
		}
	}
	k := string(b)
	if t, ok := c.tab[k]; ok {
		return t
	}
	sz := 1
	seen := map[int]bool{}
	for _, m := range p.ms {
		sz++
		for _, v := range m.vs {
			if !seen[v.id] {
				seen[v.id] = true
				sz += v.size
			}
		}
	}
	if sz > 1<<30 {
		sz = 1 << 30
	}
	t := &Term{id: c.n, op: OPoly, s: s, poly: p, size: sz}
	c.n++
	c.tab[k] = t
	return t
}

func addMono(s Sort, a, b Mono) (Mono, bool) {
	if s.K == KReal {
		r := new(big.Rat).Add(a.r, b.r)
		return Mono{a.vs, 0, r, a.key}, r.Sign() != 0
	}
	v := (a.c + b.c) & mask(s.W)
	return Mono{a.vs, v, nil, a.key}, v != 0
}

func (c *TC) polyAdd(s Sort, p, q *Poly) *Poly {
	out := make([]Mono, 0, len(p.ms)+len(q.ms))
	i, j := 0, 0
	for i < len(p.ms) && j < len(q.ms) {
		a, b := p.ms[i], q.ms[j]
		if a.key == b.key {
			if m, ok := addMono(s, a, b); ok {
				out = append(out, m)
			}
			i++
			j++
		} else if a.key < b.key {
			out = append(out, a)
			i++
		} else {
			out = append(out, b)
			j++
		}
	}
	out = append(out, p.ms[i:]...)
	out = append(out, q.ms[j:]...)
	return &Poly{out}
}

func (c *TC) polyScale(s Sort, p *Poly, k uint64, r *big.Rat) *Poly {
	out := make([]Mono, 0, len(p.ms))
	for _, m := range p.ms {
		if s.K == KReal {
			v := new(big.Rat).Mul(m.r, r)
			if v.Sign() != 0 {
				out = append(out, Mono{m.vs, 0, v, m.key})
			}
		} else {
			v := (m.c * k) & mask(s.W)
			if v != 0 {
				out = append(out, Mono{m.vs, v, nil, m.key})
			}
		}
	}
	return &Poly{out}
}

func (c *TC) polyMul(s Sort, p, q *Poly) *Poly {
	acc := map[string]Mono{}
	for _, a := range p.ms {
		for _, b := range q.ms {
			vs := make([]*Term, 0, len(a.vs)+len(b.vs))
			i, j := 0, 0
			for i < len(a.vs) && j < len(b.vs) {
				if a.vs[i].id <= b.vs[j].id {
					vs = append(vs, a.vs[i])
					i++
				} else {
					vs = append(vs, b.vs[j])
					j++
				}
			}
			vs = append(vs, a.vs[i:]...)
			vs = append(vs, b.vs[j:]...)
			if s.K == KReal {
				vs = c.cancelInv(vs)
			}
			m := Mono{vs: vs, key: monoKey(vs)}
			if s.K == KReal {
				m.r = new(big.Rat).Mul(a.r, b.r)
			} else {
				m.c = (a.c * b.c) & mask(s.W)
			}
			if old, ok := acc[m.key]; ok {
				m, _ = addMono(s, old, m)
			}
			acc[m.key] = m
		}
	}
	out := make([]Mono, 0, len(acc))
	for _, m := range acc {
		if s.K == KReal {
			if m.r.Sign() == 0 {
				continue
			}
		} else if m.c == 0 {
			continue
		}
		out = append(out, m)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].key < out[j].key })
	return &Poly{out}
}

// cancelInv removes v * inv(v) pairs (denominators are checked non-zero where they arise).
func (c *TC) cancelInv(vs []*Term) []*Term {
	for i, v := range vs {
		if v.op == ORInv {
			for j, w := range vs {
				if w == v.a[0] {
					out := make([]*Term, 0, len(vs)-2)
					for k, x := range vs {
						if k != i && k != j {
							out = append(out, x)
						}
					}
					return c.cancelInv(out)
				}
			}
		}
	}
	return vs
}

func (c *TC) Add(a, b *Term) *Term {
	if a.s.K == KFP {
		return c.fbin(OFAdd, a, b)
	}
	if a.isConst() && b.isConst() && a.s.K == KBV {
		return c.BVc(a.s.W, a.u+b.u)
	}
	return c.lemma(lAdd, a, b, c.fromPoly(a.s, c.polyAdd(a.s, c.toPoly(a), c.toPoly(b))))
}
func (c *TC) Neg(a *Term) *Term {
	if a.s.K == KFP {
		return c.FNeg(a)
	}
	return c.lemma(lNeg, a, a, c.fromPoly(a.s, c.polyScale(a.s, c.toPoly(a), mask(a.s.W), big.NewRat(-1, 1))))
}
func (c *TC) Sub(a, b *Term) *Term {
	if a.s.K == KFP {
		return c.fbin(OFAdd, a, c.FNeg(b)) // identical in IEEE 754
	}
	if a.isConst() && b.isConst() && a.s.K == KBV {
		return c.BVc(a.s.W, a.u-b.u)
	}
	return c.Add(a, c.Neg(b))
}
func (c *TC) Mul(a, b *Term) *Term {
	if a.s.K == KFP {
		return c.fbin(OFMul, a, b)
	}
	if a.isConst() && b.isConst() && a.s.K == KBV {
		return c.BVc(a.s.W, a.u*b.u)
	}
	p, q := c.toPoly(a), c.toPoly(b)
	if len(p.ms)*len(q.ms) > maxMonos {
		// opaque product: treat the larger factor as an atom via a one-argument wrapper
		x, y := a, b
		if len(p.ms) < len(q.ms) {
			x, y = b, a
		}
		x = c.atomize(x)
		return c.Mul(x, y)
	}
	return c.lemma(lMul, a, b, c.fromPoly(a.s, c.polyMul(a.s, p, q)))
}

// atomize wraps a polynomial so that it is treated as one variable of another polynomial.
func (c *TC) atomize(t *Term) *Term {
	if t.op != OPoly {
		return t
	}
	// ite(true-ish) trick: a dedicated identity node
	return c.mk(OIte, t.s, []*Term{c.Var("!true", SBool), t, t}, 0, "", 1, 0)
}

// ---------- reals ----------

func (c *TC) rInv0(a *Term) *Term {
	if a.isConst() && a.r.Sign() != 0 {
		return c.RealC(new(big.Rat).Inv(a.r))
	}
	if a.op == ORInv {
		return a.a[0]
	}
	if a.op == OPoly {
		if len(a.poly.ms) == 1 { // k*x*y -> (1/k) inv(x) inv(y)
			m := a.poly.ms[0]
			r := c.RealC(new(big.Rat).Inv(m.r))
			for _, v := range m.vs {
				r = c.Mul(r, c.RInv(v))
			}
			return r
		}
		// make the leading coefficient 1
		m := a.poly.ms[len(a.poly.ms)-1]
		if m.r.Cmp(big.NewRat(1, 1)) != 0 {
			k := c.RealC(new(big.Rat).Inv(m.r))
			return c.Mul(k, c.RInv(c.Mul(k, a)))
		}
		// clear inner inverses: 1/(p + q/y) = y/(p*y+q)
		if iv := c.findInv(a); iv != nil {
			y := iv.a[0]
			num := c.mulClear(a, iv, 1)
			return c.Mul(y, c.RInv(num))
		}
	}
	return c.mk(ORInv, SReal, []*Term{a}, 0, "", 0, 0)
}

func (c *TC) findInv(a *Term) *Term {
	if a.op == ORInv {
		return a
	}
	if a.op != OPoly {
		return nil
	}
	for _, m := range a.poly.ms {
		for _, v := range m.vs {
			if v.op == ORInv {
				return v
			}
		}
	}
	return nil
}

// mulClear multiplies a by y^d where iv = inv(y), cancelling.
func (c *TC) mulClear(a, iv *Term, d int) *Term {
	y := iv.a[0]
	res := c.RealI(0)
	for _, m := range c.toPoly(a).ms {
		k := 0
		var rest []*Term
		for _, v := range m.vs {
			if v == iv && k < d {
				k++
			} else {
				rest = append(rest, v)
			}
		}
		t := c.RealC(m.r)
		for _, v := range rest {
			t = c.Mul(t, v)
		}
		for i := 0; i < d-k; i++ {
			t = c.Mul(t, y)
		}
		res = c.Add(res, t)
	}
	return res
}

// clearInv multiplies a term that is compared with zero by its denominators.
func (c *TC) clearInv(d *Term) *Term {
	for n := 0; n < 40; n++ {
		iv := c.findInv(d)
		if iv == nil {
			return d
		}
		if d == iv {
			return c.RealI(1)
		}
		max := 0
		for _, m := range d.poly.ms {
			k := 0
			for _, v := range m.vs {
				if v == iv {
					k++
				}
			}
			if k > max {
				max = k
			}
		}
		d = c.mulClear(d, iv, max)
		if d.op == OPoly && len(d.poly.ms) > maxMonos {
			return d
		}
	}
	return d
}

func (c *TC) Div(a, b *Term) *Term {
	if a.s.K == KFP {
		return c.fbin(OFDiv, a, b)
	}
	return c.Mul(a, c.RInv(b))
}

func (c *TC) RLt(a, b *Term) *Term {
	d := c.Sub(b, a) // d > 0
	if d.isConst() {
		return c.Bool(d.r.Sign() > 0)
	}
	return c.mk(ORLt, SBool, []*Term{c.RealI(0), d}, 0, "", 0, 0)
}
func (c *TC) RLe(a, b *Term) *Term {
	d := c.Sub(b, a)
	if d.isConst() {
		return c.Bool(d.r.Sign() >= 0)
	}
	// canonical: not (d < 0)
	return c.mk(ORLe, SBool, []*Term{c.RealI(0), d}, 0, "", 0, 0)
}

func (c *TC) RFloor(a *Term) *Term {
	if a.isConst() {
		q := new(big.Int)
		m := new(big.Int)
		q.DivMod(a.r.Num(), a.r.Denom(), m)
		return c.RealC(new(big.Rat).SetInt(q))
	}
	if a.op == OSToReal || a.op == OUToReal || a.op == ORFloor {
		return a
	}
	return c.mk(ORFloor, SReal, []*Term{a}, 0, "", 0, 0)
}

func (c *TC) BVToReal(a *Term, signed bool) *Term {
	if a.isConst() {
		if signed {
			return c.RealI(a.cS())
		}
		return c.RealC(new(big.Rat).SetInt(new(big.Int).SetUint64(a.u)))
	}
	if a.op == OZExt {
		return c.BVToReal(a.a[0], false)
	}
	if signed && a.op == OSExt {
		return c.BVToReal(a.a[0], true)
	}
	if a.op == ORToBV {
		// the number was in range: only its fraction is lost
		if lo, hi, ok := c.realBounds(a.a[0]); ok && lo.Sign() >= 0 {
			w := a.s.W
			if signed {
				w--
			}
			if hi.Cmp(new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), uint(w)))) < 0 {
				return c.RFloor(a.a[0])
			}
		}
	}
	if signed {
		return c.mk(OSToReal, SReal, []*Term{a}, 0, "", 0, 0)
	}
	return c.mk(OUToReal, SReal, []*Term{a}, 0, "", 0, 0)
}

// realBounds are bounds of a polynomial in converted integers.
func (c *TC) realBounds(t *Term) (lo, hi *big.Rat, ok bool) {
	switch t.op {
	case OConst:
		return t.r, t.r, true
	case OUToReal:
		m := new(big.Int).Lsh(big.NewInt(1), uint(t.a[0].s.W))
		return new(big.Rat), new(big.Rat).SetInt(m.Sub(m, big.NewInt(1))), true
	case ORFloor:
		lo, hi, ok = c.realBounds(t.a[0])
		if !ok {
			return
		}
		return c.RFloor(c.RealC(lo)).r, hi, true
	case OPoly:
		lo, hi = new(big.Rat), new(big.Rat)
		for _, m := range t.poly.ms {
			l, h := m.r, m.r
			if l == nil {
				return nil, nil, false
			}
			for _, v := range m.vs {
				vl, vh, ok := c.realBounds(v)
				if !ok || v.op == OPoly {
					return nil, nil, false
				}
				l, h = ratHull(l, h, vl, vh)
			}
			lo, hi = new(big.Rat).Add(lo, l), new(big.Rat).Add(hi, h)
		}
		return lo, hi, true
	}
	return nil, nil, false
}

func ratHull(a, b, c, d *big.Rat) (lo, hi *big.Rat) {
	for _, x := range []*big.Rat{a, b} {
		for _, y := range []*big.Rat{c, d} {
			p := new(big.Rat).Mul(x, y)
			if lo == nil || p.Cmp(lo) < 0 {
				lo = p
			}
			if hi == nil || p.Cmp(hi) > 0 {
				hi = p
			}
		}
	}
	return
}

// RealToBV truncates toward zero.
func (c *TC) RealToBV(a *Term, w int) *Term {
	if a.isConst() {
		q := new(big.Int).Quo(a.r.Num(), a.r.Denom())
		q.And(q, new(big.Int).SetUint64(mask(w)))
		return c.BVc(w, q.Uint64())
	}
	if (a.op == OSToReal || a.op == OUToReal) && a.a[0].s.W == w {
		return a.a[0]
	}
	if a.op == ORFloor && (a.a[0].op == OSToReal) && a.a[0].a[0].s.W == w {
		return a.a[0].a[0]
	}
	return c.mk(ORToBV, BV(w), []*Term{a}, 0, "", 0, 0)
}

// ---------- bit-vector ops ----------

func (c *TC) bvbin0(op Op, a, b *Term) *Term {
	w := a.s.W
	if a.s != b.s {
		panic(fmt.Sprintf("bv sorts %v %v", a.s, b.s))
	}
	if a.isConst() && b.isConst() {
		x, y := a.u, b.u
		sx, sy := a.cS(), b.cS()
		switch op {
		case OUDiv:
			if y != 0 {
				return c.BVc(w, x/y)
			}
		case OURem:
			if y != 0 {
				return c.BVc(w, x%y)
			}
		case OSDiv:
			if y != 0 {
				if sy == -1 {
					return c.BVc(w, uint64(-sx))
				}
				return c.BVc(w, uint64(sx/sy))
			}
		case OSRem:
			if y != 0 {
				if sy == -1 {
					return c.BVc(w, 0)
				}
				return c.BVc(w, uint64(sx%sy))
			}
		case OBAnd:
			return c.BVc(w, x&y)
		case OBOr:
			return c.BVc(w, x|y)
		case OBXor:
			return c.BVc(w, x^y)
		case OShl:
			if y >= uint64(w) {
				return c.BVc(w, 0)
			}
			return c.BVc(w, x<<y)
		case OLShr:
			if y >= uint64(w) {
				return c.BVc(w, 0)
			}
			return c.BVc(w, x>>y)
		case OAShr:
			if y >= uint64(w) {
				y = uint64(w - 1)
			}
			return c.BVc(w, uint64(sx>>y))
		}
	}
	if b.isConst() {
		switch op {
		case OUDiv, OSDiv:
			if b.u == 1 {
				return a
			}
		case OURem:
			if b.u == 1 {
				return c.BVc(w, 0)
			}
		case OShl, OLShr, OAShr:
			if b.u == 0 {
				return a
			}
		case OBOr, OBXor:
			if b.u == 0 {
				return a
			}
		case OBAnd:
			if b.u == 0 {
				return b
			}
			if b.u == mask(w) {
				return a
			}
		}
	}
	if a.isConst() {
		switch op {
		case OBOr, OBXor:
			if a.u == 0 {
				return b
			}
		case OBAnd:
			if a.u == 0 {
				return a
			}
			if a.u == mask(w) {
				return b
			}
		}
	}
	switch op {
	case OShl, OLShr:
		// shifts by constants as extract/concat keep byte (de)composition exact
		if b.isConst() {
			k := int(b.u)
			if b.u >= uint64(w) {
				return c.BVc(w, 0)
			}
			if op == OShl {
				return c.Concat(c.Extract(a, w-1-k, 0), c.BVc(k, 0))
			}
			return c.ZExt(c.Extract(a, w-1, k), w)
		}
	case OBAnd:
		// x & (2^k-1) -> zext(extract)
		if b.isConst() || a.isConst() {
			x, k := a, b
			if x.isConst() {
				x, k = k, x
			}
			if m := k.u; m&(m+1) == 0 {
				return c.ZExt(c.Extract(x, bits.Len64(m)-1, 0), w)
			}
		}
		if a == b {
			return a
		}
	case OBOr:
		if a == b {
			return a
		}
		if r := c.orMerge(a, b); r != nil {
			return r
		}
	}
	if op == OBAnd || op == OBOr || op == OBXor {
		if a.id > b.id {
			a, b = b, a
		}
	}
	return c.mk(op, BV(w), []*Term{a, b}, 0, "", 0, 0)
}

type segment struct {
	hi, lo int
	t      *Term // nil: zero
}

// segments splits a term into [hi:lo] pieces, zero or symbolic.
func (c *TC) segments(t *Term, off int, out *[]segment) {
	switch {
	case t.isConst() && t.u == 0:
		*out = append(*out, segment{off + t.s.W - 1, off, nil})
	case t.op == OConcat:
		c.segments(t.a[1], off, out)
		c.segments(t.a[0], off+t.a[1].s.W, out)
	case t.op == OZExt:
		in := t.a[0]
		c.segments(in, off, out)
		*out = append(*out, segment{off + t.s.W - 1, off + in.s.W, nil})
	default:
		*out = append(*out, segment{off + t.s.W - 1, off, t})
	}
}

// orMerge turns an OR of disjointly placed pieces into a concatenation.
func (c *TC) orMerge(a, b *Term) *Term {
	hasZero := func(t *Term) bool { return t.op == OConcat || t.op == OZExt }
	if !hasZero(a) && !hasZero(b) {
		return nil
	}
	var sa, sb []segment
	c.segments(a, 0, &sa)
	c.segments(b, 0, &sb)
	var out *Term
	push := func(t *Term) {
		if out == nil {
			out = t
		} else {
			out = c.Concat(t, out)
		}
	}
	i, j, pos := 0, 0, 0
	w := a.s.W
	for pos < w {
		for sa[i].hi < pos {
			i++
		}
		for sb[j].hi < pos {
			j++
		}
		end := sa[i].hi
		if sb[j].hi < end {
			end = sb[j].hi
		}
		x, y := sa[i], sb[j]
		if x.t != nil && y.t != nil {
			return nil
		}
		if x.t == nil && y.t == nil {
			push(c.BVc(end-pos+1, 0))
		} else {
			s := x
			if s.t == nil {
				s = y
			}
			push(c.Extract(s.t, end-s.lo, pos-s.lo))
		}
		pos = end + 1
	}
	return out
}

func (c *TC) uLt0(a, b *Term) *Term {
	if a == b {
		return c.False
	}
	if a.isConst() && b.isConst() {
		return c.Bool(a.u < b.u)
	}
	if b.isConst() && b.u == 0 {
		return c.False
	}
	if a.isConst() && a.u == mask(a.s.W) {
		return c.False
	}
	if b.isConst() && b.u == 1 {
		return c.Eq(a, c.BVc(a.s.W, 0))
	}
	return c.mk(OULt, SBool, []*Term{a, b}, 0, "", 0, 0)
}
func (c *TC) uLe0(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.isConst() && b.isConst() {
		return c.Bool(a.u <= b.u)
	}
	if a.isConst() && a.u == 0 {
		return c.True
	}
	if b.isConst() && b.u == mask(b.s.W) {
		return c.True
	}
	if b.isConst() && b.u == 0 {
		return c.Eq(a, b)
	}
	return c.mk(OULe, SBool, []*Term{a, b}, 0, "", 0, 0)
}
func (c *TC) sLt0(a, b *Term) *Term {
	if a == b {
		return c.False
	}
	if a.isConst() && b.isConst() {
		return c.Bool(a.cS() < b.cS())
	}
	return c.mk(OSLt, SBool, []*Term{a, b}, 0, "", 0, 0)
}
func (c *TC) sLe0(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.isConst() && b.isConst() {
		return c.Bool(a.cS() <= b.cS())
	}
	return c.mk(OSLe, SBool, []*Term{a, b}, 0, "", 0, 0)
}

func (c *TC) extract0(a *Term, hi, lo int) *Term {
	if lo == 0 && hi == a.s.W-1 {
		return a
	}
	w := hi - lo + 1
	if a.isConst() {
		return c.BVc(w, a.u>>uint(lo))
	}
	switch a.op {
	case OExtract:
		return c.Extract(a.a[0], hi+a.p2, lo+a.p2)
	case OConcat:
		lw := a.a[1].s.W
		if hi < lw {
			return c.Extract(a.a[1], hi, lo)
		}
		if lo >= lw {
			return c.Extract(a.a[0], hi-lw, lo-lw)
		}
		return c.Concat(c.Extract(a.a[0], hi-lw, 0), c.Extract(a.a[1], lw-1, lo))
	case OZExt:
		iw := a.a[0].s.W
		if hi < iw {
			return c.Extract(a.a[0], hi, lo)
		}
		if lo >= iw {
			return c.BVc(w, 0)
		}
		return c.ZExt(c.Extract(a.a[0], iw-1, lo), w)
	case OSExt:
		iw := a.a[0].s.W
		if hi < iw {
			return c.Extract(a.a[0], hi, lo)
		}
	case OPoly:
		if lo == 0 { // truncation is a ring homomorphism
			res := c.BVc(w, 0)
			if len(a.poly.ms) <= 200 {
				for _, m := range a.poly.ms {
					t := c.BVc(w, m.c)
					for _, v := range m.vs {
						t = c.Mul(t, c.Extract(v, hi, 0))
					}
					res = c.Add(res, t)
				}
				return res
			}
		}
	case OIte:
		if a.p1 == 0 && (a.a[1].isConst() || a.a[2].isConst()) {
			return c.Ite(a.a[0], c.Extract(a.a[1], hi, lo), c.Extract(a.a[2], hi, lo))
		}
	}
	return c.mk(OExtract, BV(w), []*Term{a}, 0, "", hi, lo)
}

// Concat: a is the high part.
func (c *TC) concat0(a, b *Term) *Term {
	if a.s.W == 0 {
		return b
	}
	if b.s.W == 0 {
		return a
	}
	w := a.s.W + b.s.W
	if a.isConst() && b.isConst() {
		return c.BVc(w, a.u<<uint(b.s.W)|b.u)
	}
	if a.isConst() && a.u == 0 {
		return c.ZExt(b, w)
	}
	if a.op == OExtract && b.op == OExtract && a.a[0] == b.a[0] && a.p2 == b.p1+1 {
		return c.Extract(a.a[0], a.p1, b.p2)
	}
	if a.op == OExtract && b.op == OConcat && b.a[0].op == OExtract && a.a[0] == b.a[0].a[0] && a.p2 == b.a[0].p1+1 {
		return c.Concat(c.Extract(a.a[0], a.p1, b.a[0].p2), b.a[1])
	}
	if a.op == OExtract && a.a[0].op == OPoly && a.p2 == b.s.W && c.Extract(a.a[0], a.p2-1, 0) == b {
		return c.Extract(a.a[0], a.p1, 0)
	}
	if a.op == OZExt {
		return c.ZExt(c.Concat(a.a[0], b), w)
	}
	return c.mk(OConcat, BV(w), []*Term{a, b}, 0, "", 0, 0)
}

func (c *TC) zExt0(a *Term, w int) *Term {
	if a.s.W == w {
		return a
	}
	if a.s.W > w {
		return c.Extract(a, w-1, 0)
	}
	if a.isConst() {
		return c.BVc(w, a.u)
	}
	if a.op == OZExt {
		a = a.a[0]
	}
	return c.mk(OZExt, BV(w), []*Term{a}, 0, "", 0, 0)
}
func (c *TC) sExt0(a *Term, w int) *Term {
	if a.s.W == w {
		return a
	}
	if a.s.W > w {
		return c.Extract(a, w-1, 0)
	}
	if a.isConst() {
		return c.BVc(w, uint64(a.cS()))
	}
	if a.op == OZExt {
		return c.ZExt(a.a[0], w)
	}
	if a.op == OSExt {
		a = a.a[0]
	}
	return c.mk(OSExt, BV(w), []*Term{a}, 0, "", 0, 0)
}

// ---------- floats ----------

func (c *TC) fconst(s Sort, f float64) *Term {
	if s.W == 32 {
		return c.F32c(float32(f))
	}
	return c.F64c(f)
}

func (c *TC) fbin0(op Op, a, b *Term) *Term {
	if a.s != b.s {
		panic(fmt.Sprintf("fp sorts %v %v", a.s, b.s))
	}
	if a.isConst() && b.isConst() {
		if a.s.W == 32 {
			x, y := float32(a.cF()), float32(b.cF())
			switch op {
			case OFAdd:
				return c.F32c(x + y)
			case OFSub:
				return c.F32c(x - y)
			case OFMul:
				return c.F32c(x * y)
			case OFDiv:
				return c.F32c(x / y)
			}
		}
		x, y := a.cF(), b.cF()
		switch op {
		case OFAdd:
			return c.F64c(x + y)
		case OFSub:
			return c.F64c(x - y)
		case OFMul:
			return c.F64c(x * y)
		case OFDiv:
			return c.F64c(x / y)
		}
	}
	if (op == OFAdd || op == OFMul) && a.id > b.id {
		a, b = b, a
	}
	// exact identities: x*1, x/1, x - 0
	if op == OFMul {
		if a.isConst() && a.cF() == 1 {
			return b
		}
		if b.isConst() && b.cF() == 1 {
			return a
		}
	}
	if op == OFDiv && b.isConst() && b.cF() == 1 {
		return a
	}
	t := c.mk(op, a.s, []*Term{a, b}, 0, "", 0, 0)
	if op == OFMul && !c.axiomFor[t.id] {
		c.axiomFor[t.id] = true
		// rounding is monotone: x <= y gives k*x <= k*y for a positive finite k
		k, x := a, b
		if b.isConst() {
			k, x = b, a
		}
		if f := 0.0; k.isConst() && !x.isConst() {
			f = k.cF()
			if f > 0 && !math.IsInf(f, 0) {
				for _, u := range c.scaled[k.id] {
					y := u.a[0]
					if y == k {
						y = u.a[1]
					}
					c.axiom(t, c.Implies(c.FLe(x, y), c.FLe(t, u)))
					c.axiom(t, c.Implies(c.FLe(y, x), c.FLe(u, t)))
				}
				if len(c.scaled[k.id]) < 6 {
					c.scaled[k.id] = append(c.scaled[k.id], t)
				}
			}
		}
	}
	return t
}

func (c *TC) fNeg0(a *Term) *Term {
	if a.isConst() {
		return c.fconst(a.s, -a.cF())
	}
	if a.op == OFNeg {
		return a.a[0]
	}
	return c.mk(OFNeg, a.s, []*Term{a}, 0, "", 0, 0)
}

func (c *TC) fun1(op Op, a *Term) *Term {
	return c.mk(op, a.s, []*Term{a}, 0, "", 0, 0)
}

func (c *TC) fAbs0(a *Term) *Term {
	if a.s.K == KReal {
		if a.isConst() {
			return c.RealC(new(big.Rat).Abs(a.r))
		}
		return c.Ite(c.RLt(a, c.RealI(0)), c.Neg(a), a)
	}
	if a.isConst() {
		return c.fconst(a.s, math.Abs(a.cF()))
	}
	if a.op == OFAbs {
		return a
	}
	if a.op == OFNeg {
		return c.FAbs(a.a[0])
	}
	return c.fun1(OFAbs, a)
}

func (c *TC) FSqrt(a *Term) *Term {
	if a.s.K == KReal {
		return c.UF("sqrt", SReal, a)
	}
	if a.isConst() {
		return c.fconst(a.s, math.Sqrt(a.cF()))
	}
	return c.fun1(OFSqrt, a)
}

func (c *TC) fRound0(a *Term, mode int) *Term {
	if a.s.K == KReal {
		switch mode {
		case 3:
			return c.RFloor(a)
		case 2:
			return c.Neg(c.RFloor(c.Neg(a)))
		case 1:
			return c.Ite(c.RLt(a, c.RealI(0)), c.Neg(c.RFloor(c.Neg(a))), c.RFloor(a))
		default:
			return nil
		}
	}
	if a.isConst() {
		f := a.cF()
		switch mode {
		case 0:
			f = math.RoundToEven(f)
		case 1:
			f = math.Trunc(f)
		case 2:
			f = math.Ceil(f)
		case 3:
			f = math.Floor(f)
		}
		return c.fconst(a.s, f)
	}
	return c.mk(OFRound, a.s, []*Term{a}, 0, "", mode, 0)
}

// Lt/Le/EqNum are the Go comparison operators on numbers.
func (c *TC) fLt0(a, b *Term) *Term {
	if a.s.K == KReal {
		return c.RLt(a, b)
	}
	if a.isConst() && b.isConst() {
		return c.Bool(a.cF() < b.cF())
	}
	if a == b {
		return c.False
	}
	return c.mk(OFLt, SBool, []*Term{a, b}, 0, "", 0, 0)
}
func (c *TC) fLe0(a, b *Term) *Term {
	if a.s.K == KReal {
		return c.RLe(a, b)
	}
	if a.isConst() && b.isConst() {
		return c.Bool(a.cF() <= b.cF())
	}
	return c.mk(OFLe, SBool, []*Term{a, b}, 0, "", 0, 0)
}
func (c *TC) fEq0(a, b *Term) *Term {
	if a.s.K == KReal {
		return c.Eq(a, b)
	}
	if a.isConst() && b.isConst() {
		return c.Bool(a.cF() == b.cF())
	}
	if a == b {
		return c.Not(c.FIsNaN(a))
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OFEq, SBool, []*Term{a, b}, 0, "", 0, 0)
}
func (c *TC) fIsNaN0(a *Term) *Term {
	if a.s.K == KReal {
		return c.False
	}
	if a.isConst() {
		return c.Bool(a.cF() != a.cF())
	}
	if a.op == OFNeg || a.op == OFAbs || a.op == OFRound {
		return c.FIsNaN(a.a[0])
	}
	if a.op == OSToFP || a.op == OUToFP {
		return c.False
	}
	return c.mk(OFIsNaN, SBool, []*Term{a}, 0, "", 0, 0)
}
func (c *TC) FIsInf(a *Term) *Term {
	if a.s.K == KReal {
		return c.False
	}
	if a.isConst() {
		return c.Bool(math.IsInf(a.cF(), 0))
	}
	return c.mk(OFIsInf, SBool, []*Term{a}, 0, "", 0, 0)
}

func (c *TC) fToFP0(a *Term, w int) *Term {
	if a.s.K == KReal || a.s.W == w {
		return a
	}
	if a.isConst() {
		if w == 32 {
			return c.F32c(float32(a.cF()))
		}
		return c.F64c(a.cF())
	}
	if a.op == OFToFP && a.s.W == 64 && a.a[0].s.W == w { // widen then narrow back
		return a.a[0]
	}
	return c.mk(OFToFP, Sort{KFP, w}, []*Term{a}, 0, "", 0, 0)
}

func (c *TC) BVToF(a *Term, signed bool, w int) *Term {
	if c.RealMode {
		return c.BVToReal(a, signed)
	}
	if a.isConst() {
		if signed {
			if w == 32 {
				return c.F32c(float32(a.cS()))
			}
			return c.F64c(float64(a.cS()))
		}
		if w == 32 {
			return c.F32c(float32(a.u))
		}
		return c.F64c(float64(a.u))
	}
	op := OUToFP
	if signed {
		op = OSToFP
	}
	return c.mk(op, Sort{KFP, w}, []*Term{a}, 0, "", 0, 0)
}

func (c *TC) FToBV(a *Term, signed bool, w int) *Term {
	if a.s.K == KReal {
		return c.RealToBV(a, w)
	}
	if a.isConst() {
		f := a.cF()
		if signed {
			return c.BVc(w, uint64(int64(f)))
		}
		return c.BVc(w, uint64(f))
	}
	op := OFToUBV
	if signed {
		op = OFToSBV
	}
	return c.mk(op, BV(w), []*Term{a}, 0, "", 0, 0)
}

func (c *TC) BitsToF(a *Term) *Term {
	if a.isConst() {
		if a.s.W == 32 {
			return c.F32c(math.Float32frombits(uint32(a.u)))
		}
		return c.F64c(math.Float64frombits(a.u))
	}
	if f, ok := c.bitsOf[a.id]; ok {
		return f
	}
	return c.mk(OBitsToFP, Sort{KFP, a.s.W}, []*Term{a}, 0, "", 0, 0)
}
func (c *TC) FToBits(a *Term) *Term {
	if a.s.K != KFP {
		return nil
	}
	if a.isConst() {
		return c.BVc(a.s.W, a.u)
	}
	if a.op == OBitsToFP {
		return a.a[0]
	}
	if a.op == OIte {
		return c.Ite(a.a[0], c.FToBits(a.a[1]), c.FToBits(a.a[2]))
	}
	// a fresh pattern that denotes the value (NaN payloads are unspecified)
	if v, ok := c.bitsVar[a.id]; ok {
		return v
	}
	v := c.Var(fmt.Sprintf("!bits%d", a.id), BV(a.s.W))
	c.bitsVar[a.id] = v
	c.bitsOf[v.id] = a
	c.axiom(v, c.Eq(c.mk(OBitsToFP, a.s, []*Term{v}, 0, "", 0, 0), a))
	return v
}

// ---------- uninterpreted functions ----------

func (c *TC) UF(name string, res Sort, args ...*Term) *Term {
	sn := name
	for _, a := range args {
		sn += fmt.Sprintf("_%d%d", a.s.K, a.s.W)
	}
	sn += fmt.Sprintf("_r%d%d", res.K, res.W)
	if _, ok := c.ufs[sn]; !ok {
		sig := UFSig{Name: sn, Res: res}
		for _, a := range args {
			sig.Args = append(sig.Args, a.s)
		}
		c.ufs[sn] = sig
	}
	n := c.n
	t := c.mk(OUF, res, args, 0, sn, 0, 0)
	if c.n > n {
		c.apps = append(c.apps, t)
	}
	return t
}

// axiom attaches fact f to term t.
func (c *TC) axiom(t, f *Term) { c.axOn[t.id] = append(c.axOn[t.id], f) }
