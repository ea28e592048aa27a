package main

// Constructors that rewrite their argument: each rewriting that was applied is kept for certify.

type glem struct{ raw, t *Term }

// step keeps "the plain node op(a...) is written as t".
func (c *TC) step(op Op, a []*Term, p1, p2 int, t *Term) *Term {
	if c.glem == nil || t == nil || len(a) == 0 {
		return t
	}
	if t.op == op && t.p1 == p1 && t.p2 == p2 && len(t.a) == len(a) {
		same := true
		for i, x := range a {
			if t.a[i] != x {
				same = false
				break
			}
		}
		if same {
			return t
		}
	}
	konst := true
	for _, x := range a {
		if x.op != OConst {
			konst = false
			break
		}
	}
	if konst {
		return t // folding of constants is Go's own arithmetic
	}
	if len(c.glem) >= maxSteps {
		c.side++
		return t
	}
	k := c.key(op, t.s, a, 0, "", p1, p2)
	if _, ok := c.glem[k]; !ok {
		cp := append([]*Term(nil), a...)
		c.glem[k] = glem{&Term{id: -1, op: op, s: t.s, a: cp, p1: p1, p2: p2}, t}
	}
	return t
}

const maxSteps = 400000

func (c *TC) Not(a *Term) *Term { return c.step(ONot, []*Term{a}, 0, 0, c.not0(a)) }
func (c *TC) nary(op Op, unit, zero *Term, ts []*Term) *Term {
	return c.step(op, ts, 0, 0, c.nary0(op, unit, zero, ts))
}
func (c *TC) Ite(g, a, b *Term) *Term { return c.step(OIte, []*Term{g, a, b}, 0, 0, c.ite0(g, a, b)) }
func (c *TC) Eq(a, b *Term) *Term     { return c.step(OEq, []*Term{a, b}, 0, 0, c.eq0(a, b)) }
func (c *TC) bvbin(op Op, a, b *Term) *Term {
	return c.step(op, []*Term{a, b}, 0, 0, c.bvbin0(op, a, b))
}
func (c *TC) ULt(a, b *Term) *Term { return c.step(OULt, []*Term{a, b}, 0, 0, c.uLt0(a, b)) }
func (c *TC) ULe(a, b *Term) *Term { return c.step(OULe, []*Term{a, b}, 0, 0, c.uLe0(a, b)) }
func (c *TC) SLt(a, b *Term) *Term { return c.step(OSLt, []*Term{a, b}, 0, 0, c.sLt0(a, b)) }
func (c *TC) SLe(a, b *Term) *Term { return c.step(OSLe, []*Term{a, b}, 0, 0, c.sLe0(a, b)) }
func (c *TC) Extract(a *Term, hi, lo int) *Term {
	return c.step(OExtract, []*Term{a}, hi, lo, c.extract0(a, hi, lo))
}
func (c *TC) Concat(a, b *Term) *Term {
	t := c.concat0(a, b)
	if a.s.W == 0 || b.s.W == 0 {
		return t
	}
	return c.step(OConcat, []*Term{a, b}, 0, 0, t)
}
func (c *TC) ZExt(a *Term, w int) *Term {
	t := c.zExt0(a, w)
	if a.s.W >= w {
		return t
	}
	return c.step(OZExt, []*Term{a}, 0, 0, t)
}
func (c *TC) SExt(a *Term, w int) *Term {
	t := c.sExt0(a, w)
	if a.s.W >= w {
		return t
	}
	return c.step(OSExt, []*Term{a}, 0, 0, t)
}
func (c *TC) fbin(op Op, a, b *Term) *Term {
	return c.step(op, []*Term{a, b}, 0, 0, c.fbin0(op, a, b))
}
func (c *TC) FNeg(a *Term) *Term { return c.step(OFNeg, []*Term{a}, 0, 0, c.fNeg0(a)) }
func (c *TC) FAbs(a *Term) *Term {
	t := c.fAbs0(a)
	if a.s.K == KReal {
		return t
	}
	return c.step(OFAbs, []*Term{a}, 0, 0, t)
}
func (c *TC) FRound(a *Term, mode int) *Term {
	t := c.fRound0(a, mode)
	if a.s.K == KReal {
		return t
	}
	return c.step(OFRound, []*Term{a}, mode, 0, t)
}
func (c *TC) fcmp(op Op, a, b, t *Term) *Term {
	if a.s.K == KReal {
		return t
	}
	return c.step(op, []*Term{a, b}, 0, 0, t)
}
func (c *TC) FLt(a, b *Term) *Term { return c.fcmp(OFLt, a, b, c.fLt0(a, b)) }
func (c *TC) FLe(a, b *Term) *Term { return c.fcmp(OFLe, a, b, c.fLe0(a, b)) }
func (c *TC) FEq(a, b *Term) *Term { return c.fcmp(OFEq, a, b, c.fEq0(a, b)) }
func (c *TC) FIsNaN(a *Term) *Term {
	t := c.fIsNaN0(a)
	if a.s.K == KReal {
		return t
	}
	return c.step(OFIsNaN, []*Term{a}, 0, 0, t)
}
func (c *TC) FToFP(a *Term, w int) *Term {
	t := c.fToFP0(a, w)
	if a.s.K == KReal || a.s.W == w {
		return t
	}
	return c.step(OFToFP, []*Term{a}, 0, 0, t)
}
func (c *TC) RInv(a *Term) *Term { return c.step(ORInv, []*Term{a}, 0, 0, c.rInv0(a)) }
