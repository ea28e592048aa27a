package main

import (
	"math"
	"math/big"
)

// Elementary functions of the real encoding. exp is kept as an uninterpreted function with the
// facts exp>0 and exp(a+b)=exp(a)exp(b), exp(ka)=exp(a)^k built into its normal form; tanh, sinh,
// cosh and the logistic function are rewritten to it.

func (c *TC) RExp(t *Term) *Term {
	if t.isConst() {
		if t.r.Sign() == 0 {
			return c.RealI(1)
		}
		return c.expMono(t.r, nil)
	}
	p := c.toPoly(t)
	res := c.RealI(1)
	for _, m := range p.ms {
		res = c.Mul(res, c.expMono(m.r, m.vs))
	}
	return res
}

func (c *TC) expMono(k *big.Rat, vs []*Term) *Term {
	neg := k.Sign() < 0
	a := new(big.Rat).Abs(k)
	base := c.RealI(1)
	pow := 1
	if a.IsInt() && a.Num().IsInt64() && a.Num().Int64() <= 8 {
		pow = int(a.Num().Int64())
	} else {
		base = c.RealC(a)
	}
	for _, v := range vs {
		base = c.Mul(base, v)
	}
	e := c.UF("exp", SReal, base)
	if !c.axiomFor[e.id] {
		c.axiomFor[e.id] = true
		c.axiom(e, c.RLt(c.RealI(0), e))
	}
	c.nz[e.id] = true
	res := c.RealI(1)
	for i := 0; i < pow; i++ {
		res = c.Mul(res, e)
	}
	if neg {
		return c.RInv(res)
	}
	return res
}

func (c *TC) RTanh(t *Term) *Term {
	e := c.RExp(c.Mul(c.RealI(2), t))
	return c.Sub(c.RealI(1), c.Mul(c.RealI(2), c.RInv(c.Add(e, c.RealI(1)))))
}
func (c *TC) RSinh(t *Term) *Term {
	e := c.RExp(t)
	return c.Mul(c.RealC(big.NewRat(1, 2)), c.Sub(e, c.RInv(e)))
}
func (c *TC) RCosh(t *Term) *Term {
	e := c.RExp(t)
	return c.Mul(c.RealC(big.NewRat(1, 2)), c.Add(e, c.RInv(e)))
}

func (c *TC) RSqrt(t *Term) *Term {
	if t.isConst() && t.r.Sign() >= 0 {
		n := new(big.Int).Sqrt(t.r.Num())
		d := new(big.Int).Sqrt(t.r.Denom())
		if new(big.Int).Mul(n, n).Cmp(t.r.Num()) == 0 && new(big.Int).Mul(d, d).Cmp(t.r.Denom()) == 0 {
			return c.RealC(new(big.Rat).SetFrac(n, d))
		}
		f, _ := t.r.Float64()
		r := new(big.Rat)
		r.SetFloat64(math.Sqrt(f))
		return c.RealC(r)
	}
	s := c.UF("sqrt", SReal, t)
	if !c.axiomFor[s.id] {
		c.axiomFor[s.id] = true
		z := c.RealI(0)
		c.axiom(s, c.Or(c.RLt(t, z), c.And(c.RLe(z, s), c.Eq(c.Mul(s, s), t))))
	}
	return s
}

func (c *TC) RSin(t *Term) *Term { return c.trig("sin", t) }
func (c *TC) RCos(t *Term) *Term { return c.trig("cos", t) }
func (c *TC) trig(n string, t *Term) *Term {
	if t.isConst() {
		f, _ := t.r.Float64()
		r := new(big.Rat)
		if n == "sin" {
			r.SetFloat64(math.Sin(f))
		} else {
			r.SetFloat64(math.Cos(f))
		}
		return c.RealC(r)
	}
	s := c.UF(n, SReal, t)
	if !c.axiomFor[s.id] {
		c.axiomFor[s.id] = true
		si := c.UF("sin", SReal, t)
		co := c.UF("cos", SReal, t)
		c.axiomFor[si.id] = true
		c.axiomFor[co.id] = true
		one := c.RealI(1)
		ax := c.Eq(c.Add(c.Mul(si, si), c.Mul(co, co)), one)
		c.axiom(si, ax)
		c.axiom(co, ax)
	}
	return s
}

func (c *TC) RPow(x, y *Term) *Term {
	if y.isConst() && y.r.IsInt() && y.r.Num().IsInt64() {
		k := y.r.Num().Int64()
		if k >= -8 && k <= 8 {
			res := c.RealI(1)
			n := k
			if n < 0 {
				n = -n
			}
			for i := int64(0); i < n; i++ {
				res = c.Mul(res, x)
			}
			if k < 0 {
				return c.RInv(res)
			}
			return res
		}
	}
	if y.isConst() && y.r.Cmp(big.NewRat(1, 2)) == 0 {
		return c.RSqrt(x)
	}
	if x.isConst() {
		f, _ := x.r.Float64()
		if f == math.E {
			return c.RExp(y)
		}
	}
	return c.UF("pow", SReal, x, y)
}

// Diff is the derivative of t with respect to the variable x (real encoding). nil: not known.
func (c *TC) Diff(t, x *Term) *Term { return c.diff(t, x, map[int]*Term{}) }

func (c *TC) diff(t, x *Term, memo map[int]*Term) *Term {
	if t == x {
		return c.RealI(1)
	}
	if r, ok := memo[t.id]; ok {
		return r
	}
	var res *Term
	switch t.op {
	case OConst, OVar:
		res = c.RealI(0)
	case OPoly:
		res = c.RealI(0)
		for _, m := range t.poly.ms {
			for i, v := range m.vs {
				dv := c.diff(v, x, memo)
				if dv == nil {
					return nil
				}
				p := c.Mul(c.RealC(m.r), dv)
				for j, w := range m.vs {
					if j != i {
						p = c.Mul(p, w)
					}
				}
				res = c.Add(res, p)
			}
		}
	case ORInv:
		d := c.diff(t.a[0], x, memo)
		if d == nil {
			return nil
		}
		res = c.Neg(c.Mul(d, c.Mul(t, t)))
	case OIte:
		a, b := c.diff(t.a[1], x, memo), c.diff(t.a[2], x, memo)
		if a == nil || b == nil {
			return nil
		}
		res = c.Ite(t.a[0], a, b)
	case OUF:
		d := c.diff(t.a[0], x, memo)
		if d == nil {
			return nil
		}
		if d.isConst() && d.r.Sign() == 0 && len(t.a) == 1 {
			res = d
			break
		}
		switch t.name {
		case "exp_30_r30":
			res = c.Mul(t, d)
		case "sin_30_r30":
			res = c.Mul(c.RCos(t.a[0]), d)
		case "cos_30_r30":
			res = c.Neg(c.Mul(c.RSin(t.a[0]), d))
		case "sqrt_30_r30":
			res = c.Mul(d, c.RInv(c.Mul(c.RealI(2), t)))
		default:
			return nil
		}
	default:
		return nil
	}
	memo[t.id] = res
	return res
}
