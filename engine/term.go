package main

// SMT terms: hash-consed bit-vector (width 1..64) and boolean (width 0) DAGs with
// aggressive local simplification. Bit-vectors are kept in two normal forms:
// linear combinations (OLin) and bit segments (OConcat), which lets encoders and
// decoders (varints, fixed64, masks, shifts) cancel out syntactically.

import (
	"fmt"
	"math"
	"math/bits"
	"sort"
	"strings"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq
	OIte
	OLin // sum coefs[i]*args[i] + k
	OMul
	OUdiv
	OSdiv
	OUrem
	OSrem
	OBAnd
	OBOr
	OBXor
	OShl
	OLshr
	OAshr
	OConcat  // args hi..lo
	OExtract // args[0], hi, lo
	OSext
	OUlt
	OUle
	OSlt
	OSle
)

type Term struct {
	id    int
	op    Op
	w     int
	args  []*Term
	coefs []uint64
	k     uint64
	hi    int
	lo    int
	name  string
	kz    uint64 // known zero bits
	ko    uint64 // known one bits
	emit  int    // solver generation in which it was defined
}

type Ctx struct {
	tab    map[string]*Term
	next   int
	True   *Term
	False  *Term
	small  [65][]*Term
	linSub map[[2]*Term]*Term // (s, zext n) -> x with x = s*1e9+n
	vars   []*Term
}

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[string]*Term{}, linSub: map[[2]*Term]*Term{}}
	c.True = c.mk(&Term{op: OConst, w: 0, k: 1})
	c.False = c.mk(&Term{op: OConst, w: 0, k: 0})
	return c
}

func (c *Ctx) key(t *Term) string {
	b := make([]byte, 0, 32+len(t.args)*6)
	b = append(b, byte(t.op), byte(t.w))
	put := func(v uint64) {
		for v >= 0x80 {
			b = append(b, byte(v)|0x80)
			v >>= 7
		}
		b = append(b, byte(v))
	}
	put(t.k)
	put(uint64(t.hi))
	put(uint64(t.lo))
	put(uint64(len(t.args)))
	for _, a := range t.args {
		put(uint64(a.id))
	}
	for _, a := range t.coefs {
		put(a)
	}
	b = append(b, t.name...)
	return string(b)
}

func (c *Ctx) mk(t *Term) *Term {
	k := c.key(t)
	if o, ok := c.tab[k]; ok {
		return o
	}
	c.next++
	t.id = c.next
	c.knownBits(t)
	c.tab[k] = t
	return t
}

func (c *Ctx) knownBits(t *Term) {
	if t.w == 0 {
		return
	}
	m := mask(t.w)
	switch t.op {
	case OConst:
		t.ko = t.k
		t.kz = ^t.k & m
	case OConcat:
		for _, a := range t.args {
			t.kz = t.kz<<uint(a.w) | a.kz
			t.ko = t.ko<<uint(a.w) | a.ko
		}
	case OExtract:
		t.kz = (t.args[0].kz >> uint(t.lo)) & m
		t.ko = (t.args[0].ko >> uint(t.lo)) & m
	case OBAnd:
		t.kz = t.args[0].kz | t.args[1].kz
		t.ko = t.args[0].ko & t.args[1].ko
	case OBOr:
		t.kz = t.args[0].kz & t.args[1].kz
		t.ko = t.args[0].ko | t.args[1].ko
	case OBXor:
		a, b := t.args[0], t.args[1]
		t.kz = a.kz&b.kz | a.ko&b.ko
		t.ko = a.kz&b.ko | a.ko&b.kz
	case OIte:
		t.kz = t.args[1].kz & t.args[2].kz
		t.ko = t.args[1].ko & t.args[2].ko
	case OSext:
		a := t.args[0]
		t.kz, t.ko = a.kz, a.ko
		top := uint64(1) << uint(a.w-1)
		if a.kz&top != 0 {
			t.kz |= m &^ mask(a.w)
		} else if a.ko&top != 0 {
			t.ko |= m &^ mask(a.w)
		}
	case OUrem:
		if t.args[1].op == OConst && t.args[1].k != 0 {
			t.kz = m &^ mask(bits.Len64(t.args[1].k-1))
		}
	case OUdiv:
		if t.args[1].op == OConst && t.args[1].k != 0 {
			mx := (^t.args[0].kz & m) / t.args[1].k
			t.kz = m &^ mask(bits.Len64(mx))
		}
	case OLin:
		// leading zeros from the maximum if no overflow and all positive
		mx := new(big128)
		mx.add(0, t.k)
		for i, a := range t.args {
			h, l := bits.Mul64(t.coefs[i], ^a.kz&mask(a.w))
			mx.add(h, l)
		}
		if mx.hi == 0 && !mx.ovf && mx.lo <= m {
			t.kz = m &^ mask(bits.Len64(mx.lo))
		}
	}
}

type big128 struct {
	hi, lo uint64
	ovf    bool
}

func (b *big128) add(h, l uint64) {
	var c uint64
	b.lo, c = bits.Add64(b.lo, l, 0)
	b.hi, c = bits.Add64(b.hi, h, c)
	if c != 0 {
		b.ovf = true
	}
}

func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}

func (c *Ctx) BV(w int, v uint64) *Term {
	v &= mask(w)
	if v < 256 {
		if c.small[w] == nil {
			c.small[w] = make([]*Term, 256)
		}
		if t := c.small[w][v]; t != nil {
			return t
		}
		t := c.mk(&Term{op: OConst, w: w, k: v})
		c.small[w][v] = t
		return t
	}
	return c.mk(&Term{op: OConst, w: w, k: v})
}

func (c *Ctx) Var(name string, w int) *Term {
	k := c.next
	t := c.mk(&Term{op: OVar, w: w, name: name})
	if t.id > k {
		c.vars = append(c.vars, t)
	}
	return t
}

func (t *Term) IsConst() bool { return t.op == OConst }
func (t *Term) IsTrue() bool  { return t.op == OConst && t.w == 0 && t.k == 1 }
func (t *Term) IsFalse() bool { return t.op == OConst && t.w == 0 && t.k == 0 }

func sx(v uint64, w int) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := uint(64 - w)
	return int64(v<<s) >> s
}

func (t *Term) S() int64 { return sx(t.k, t.w) }

// ---- booleans

func (c *Ctx) Not(a *Term) *Term {
	switch a.op {
	case OConst:
		return c.Bool(a.k == 0)
	case ONot:
		return a.args[0]
	case OUlt:
		return c.mk(&Term{op: OUle, args: []*Term{a.args[1], a.args[0]}})
	case OUle:
		return c.mk(&Term{op: OUlt, args: []*Term{a.args[1], a.args[0]}})
	case OSlt:
		return c.mk(&Term{op: OSle, args: []*Term{a.args[1], a.args[0]}})
	case OSle:
		return c.mk(&Term{op: OSlt, args: []*Term{a.args[1], a.args[0]}})
	}
	return c.mk(&Term{op: ONot, args: []*Term{a}})
}

func (c *Ctx) nary(op Op, unit, zero *Term, as []*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a == zero {
			return false
		}
		if a == unit || seen[a] {
			return true
		}
		if a.op == op {
			for _, x := range a.args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if seen[c.Not(a)] {
			return false
		}
		seen[a] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.mk(&Term{op: op, args: out})
}

func (c *Ctx) And(as ...*Term) *Term { return c.nary(OAnd, c.True, c.False, as) }
func (c *Ctx) Or(as ...*Term) *Term  { return c.nary(OOr, c.False, c.True, as) }

func (c *Ctx) Ite(cond, a, b *Term) *Term {
	if cond.IsTrue() {
		return a
	}
	if cond.IsFalse() {
		return b
	}
	if a == b {
		return a
	}
	if cond.op == ONot {
		return c.Ite(cond.args[0], b, a)
	}
	if a.w == 0 {
		if a.IsTrue() {
			return c.Or(cond, b)
		}
		if a.IsFalse() {
			return c.And(c.Not(cond), b)
		}
		if b.IsTrue() {
			return c.Or(c.Not(cond), a)
		}
		if b.IsFalse() {
			return c.And(cond, a)
		}
	}
	return c.mk(&Term{op: OIte, w: a.w, args: []*Term{cond, a, b}})
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.w != b.w {
		panic(fmt.Sprintf("Eq width %d %d", a.w, b.w))
	}
	if a.IsConst() && b.IsConst() {
		return c.Bool(a.k == b.k)
	}
	if a.w == 0 {
		if a.IsTrue() {
			return b
		}
		if b.IsTrue() {
			return a
		}
		if a.IsFalse() {
			return c.Not(b)
		}
		if b.IsFalse() {
			return c.Not(a)
		}
		return c.mk(&Term{op: OEq, args: ord(a, b)})
	}
	if (a.kz&b.ko)|(a.ko&b.kz) != 0 {
		return c.False
	}
	if b.op == OIte || a.op == OConst {
		a, b = b, a
	}
	if a.op == OIte && b.IsConst() && (a.args[1].IsConst() || a.args[2].IsConst()) {
		return c.Ite(a.args[0], c.Eq(a.args[1], b), c.Eq(a.args[2], b))
	}
	if a.op == OSext && b.op == OSext && a.args[0].w == b.args[0].w {
		return c.Eq(a.args[0], b.args[0])
	}
	if a.op == OSext && b.IsConst() {
		n := a.args[0].w
		lowc := c.BV(n, b.k)
		if uint64(sx(lowc.k, n))&mask(a.w) != b.k {
			return c.False
		}
		return c.Eq(a.args[0], lowc)
	}
	// segment-wise when a concat is involved
	if a.op == OConcat || b.op == OConcat {
		if r := c.eqSegs(a, b); r != nil {
			return r
		}
	}
	if a.op == OLin || b.op == OLin {
		d := c.Sub(a, b)
		if d.IsConst() {
			return c.Bool(d.k == 0)
		}
		if d.op == OLin {
			// move constant to the other side; normalise sign by first coef
			nd := c.Sub(d, c.BV(d.w, d.k))
			k := (-d.k) & mask(d.w)
			if nd.op == OLin {
				if sx(nd.coefs[0], nd.w) < 0 && len(nd.args) == 1 {
					nd = c.Neg(nd)
					k = (-k) & mask(d.w)
				}
			}
			kk := c.BV(d.w, k)
			if nd.op != OLin {
				return c.Eq(nd, kk)
			}
			if len(nd.args) == 1 && nd.coefs[0]&1 == 1 {
				inv := modinv(nd.coefs[0])
				return c.Eq(nd.args[0], c.BV(d.w, k*inv))
			}
			if len(nd.args) == 2 && nd.k == 0 && k == 0 {
				m := mask(nd.w)
				if (nd.coefs[0]+nd.coefs[1])&m == 0 && nd.coefs[0]&1 == 1 {
					return c.Eq(nd.args[0], nd.args[1])
				}
			}
			if r := c.eqSplit(nd, k); r != nil {
				return r
			}
			return c.mk(&Term{op: OEq, args: ord(nd, kk)})
		}
		return c.Eq(d, c.BV(d.w, 0))
	}
	return c.mk(&Term{op: OEq, args: ord(a, b)})
}

func modinv(a uint64) uint64 {
	x := a
	for i := 0; i < 6; i++ {
		x *= 2 - a*x
	}
	return x
}

func (c *Ctx) eqSegs(a, b *Term) *Term {
	sa, sb := segs(a), segs(b)
	// split both at the union of cut points; only if every piece stays simple
	cuts := map[int]bool{}
	p := 0
	for i := len(sa) - 1; i >= 0; i-- {
		p += sa[i].w
		cuts[p] = true
	}
	p = 0
	for i := len(sb) - 1; i >= 0; i-- {
		p += sb[i].w
		cuts[p] = true
	}
	var cl []int
	for k := range cuts {
		cl = append(cl, k)
	}
	sort.Ints(cl)
	if len(cl) < 2 {
		return nil
	}
	var cs []*Term
	lo := 0
	for _, hi := range cl {
		x, y := c.Extract(a, hi-1, lo), c.Extract(b, hi-1, lo)
		if x.op == OLin || y.op == OLin {
			return nil
		}
		cs = append(cs, c.Eq(x, y))
		lo = hi
	}
	return c.And(cs...)
}

func ord(a, b *Term) []*Term {
	if a.IsConst() && !b.IsConst() {
		return []*Term{b, a}
	}
	if b.IsConst() && !a.IsConst() {
		return []*Term{a, b}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return []*Term{a, b}
}

func (t *Term) umax() uint64 { return ^t.kz & mask(t.w) }
func (t *Term) umin() uint64 { return t.ko }

func (c *Ctx) Ult(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		return c.Bool(a.k < b.k)
	}
	if a == b {
		return c.False
	}
	if a.umax() < b.umin() {
		return c.True
	}
	if a.umin() >= b.umax() {
		return c.False
	}
	if n := hiZero(a, b); n > 0 {
		return c.Ult(c.Extract(a, n-1, 0), c.Extract(b, n-1, 0))
	}
	if b.IsConst() && b.k == 1 {
		return c.Eq(a, c.BV(a.w, 0))
	}
	if a.op == OIte && b.IsConst() && a.args[1].IsConst() && a.args[2].IsConst() {
		return c.Ite(a.args[0], c.Ult(a.args[1], b), c.Ult(a.args[2], b))
	}
	return c.mk(&Term{op: OUlt, args: []*Term{a, b}})
}

// hiZero returns a smaller width n if both have known-zero bits above n and one is a concat.
func hiZero(a, b *Term) int {
	m := a.umax() | b.umax()
	n := bits.Len64(m)
	if n == 0 {
		n = 1
	}
	if n < a.w && (a.op == OConcat || b.op == OConcat) {
		return n
	}
	return 0
}

func (c *Ctx) Ule(a, b *Term) *Term { return c.Not(c.Ult(b, a)) }

func (t *Term) smin() int64 {
	top := uint64(1) << uint(t.w-1)
	v := t.ko
	if t.kz&top == 0 {
		v |= top
	}
	return sx(v, t.w)
}
func (t *Term) smax() int64 {
	top := uint64(1) << uint(t.w-1)
	v := t.umax()
	if t.ko&top == 0 {
		v &^= top
	}
	return sx(v, t.w)
}

func (c *Ctx) Slt(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		return c.Bool(a.S() < b.S())
	}
	if a == b {
		return c.False
	}
	if a.smax() < b.smin() {
		return c.True
	}
	if a.smin() >= b.smax() {
		return c.False
	}
	top := uint64(1) << uint(a.w-1)
	if a.kz&top != 0 && b.kz&top != 0 {
		return c.Ult(a, b)
	}
	if a.op == OSext && b.op == OSext && a.args[0].w == b.args[0].w {
		return c.Slt(a.args[0], b.args[0])
	}
	if a.op == OSext && b.IsConst() {
		n := a.args[0].w
		if b.S() == sx(b.k&mask(n), n) {
			return c.Slt(a.args[0], c.BV(n, b.k))
		}
	}
	if b.op == OSext && a.IsConst() {
		n := b.args[0].w
		if a.S() == sx(a.k&mask(n), n) {
			return c.Slt(c.BV(n, a.k), b.args[0])
		}
	}
	if a.op == OIte && b.IsConst() && a.args[1].IsConst() && a.args[2].IsConst() {
		return c.Ite(a.args[0], c.Slt(a.args[1], b), c.Slt(a.args[2], b))
	}
	return c.mk(&Term{op: OSlt, args: []*Term{a, b}})
}
func (c *Ctx) Sle(a, b *Term) *Term { return c.Not(c.Slt(b, a)) }

// ---- linear arithmetic

func (c *Ctx) linOf(t *Term) (as []*Term, cs []uint64, k uint64) {
	switch t.op {
	case OConst:
		return nil, nil, t.k
	case OLin:
		return t.args, t.coefs, t.k
	}
	return []*Term{t}, []uint64{1}, 0
}

func (c *Ctx) lin(w int, as []*Term, cs []uint64, k uint64) *Term {
	m := mask(w)
	mp := map[*Term]uint64{}
	for i, a := range as {
		mp[a] = (mp[a] + cs[i]) & m
	}
	if w == 64 && len(c.linSub) > 0 {
		for pr, x := range c.linSub {
			s, n := pr[0], pr[1]
			if mp[s] != 0 && mp[s]%1000000000 == 0 {
				q := mp[s] / 1000000000
				if mp[n] == q {
					mp[s], mp[n] = 0, 0
					mp[x] = (mp[x] + q) & m
				}
			} else if mp[s] != 0 && (-mp[s])%1000000000 == 0 {
				q := -((-mp[s]) / 1000000000)
				if mp[n] == q {
					mp[s], mp[n] = 0, 0
					mp[x] = (mp[x] + q) & m
				}
			}
		}
	}
	var oa []*Term
	for a, co := range mp {
		if co != 0 {
			oa = append(oa, a)
		}
	}
	k &= m
	if len(oa) == 0 {
		return c.BV(w, k)
	}
	sort.Slice(oa, func(i, j int) bool { return oa[i].id < oa[j].id })
	if len(oa) == 1 && mp[oa[0]] == 1 && k == 0 {
		return oa[0]
	}
	oc := make([]uint64, len(oa))
	for i, a := range oa {
		oc[i] = mp[a]
	}
	return c.mk(&Term{op: OLin, w: w, args: oa, coefs: oc, k: k})
}

func (c *Ctx) Add(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		return c.BV(a.w, a.k+b.k)
	}
	if a.IsConst() && a.k == 0 {
		return b
	}
	if b.IsConst() && b.k == 0 {
		return a
	}
	if a.op == OIte && b.IsConst() && a.args[1].IsConst() && a.args[2].IsConst() {
		return c.Ite(a.args[0], c.Add(a.args[1], b), c.Add(a.args[2], b))
	}
	aa, ac, ak := c.linOf(a)
	ba, bc, bk := c.linOf(b)
	return c.lin(a.w, append(append([]*Term{}, aa...), ba...), append(append([]uint64{}, ac...), bc...), ak+bk)
}

func (c *Ctx) scale(a *Term, f uint64) *Term {
	aa, ac, ak := c.linOf(a)
	oc := make([]uint64, len(ac))
	for i := range ac {
		oc[i] = ac[i] * f
	}
	return c.lin(a.w, aa, oc, ak*f)
}
func (c *Ctx) Neg(a *Term) *Term { return c.scale(a, ^uint64(0)) }
func (c *Ctx) Sub(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		return c.BV(a.w, a.k-b.k)
	}
	if b.IsConst() {
		return c.Add(a, c.BV(a.w, -b.k))
	}
	return c.Add(a, c.Neg(b))
}
func (c *Ctx) Mul(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		return c.BV(a.w, a.k*b.k)
	}
	if a.IsConst() {
		a, b = b, a
	}
	if b.IsConst() {
		return c.scale(a, b.k)
	}
	return c.mk(&Term{op: OMul, w: a.w, args: ord(a, b)})
}

func (c *Ctx) Udiv(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() && b.k != 0 {
		return c.BV(a.w, a.k/b.k)
	}
	if b.IsConst() && b.k == 1 {
		return a
	}
	if b.IsConst() && b.k != 0 && b.k&(b.k-1) == 0 {
		return c.Lshr(a, c.BV(a.w, uint64(bits.TrailingZeros64(b.k))))
	}
	return c.mk(&Term{op: OUdiv, w: a.w, args: []*Term{a, b}})
}
func (c *Ctx) Urem(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() && b.k != 0 {
		return c.BV(a.w, a.k%b.k)
	}
	if b.IsConst() && b.k != 0 && b.k&(b.k-1) == 0 {
		return c.BAnd(a, c.BV(a.w, b.k-1))
	}
	if b.IsConst() && a.umax() < b.k {
		return a
	}
	return c.mk(&Term{op: OUrem, w: a.w, args: []*Term{a, b}})
}
func (c *Ctx) Sdiv(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() && b.k != 0 {
		if b.S() == -1 {
			return c.Neg(a)
		}
		return c.BV(a.w, uint64(a.S()/b.S()))
	}
	top := uint64(1) << uint(a.w-1)
	if a.kz&top != 0 && b.kz&top != 0 {
		return c.Udiv(a, b)
	}
	return c.mk(&Term{op: OSdiv, w: a.w, args: []*Term{a, b}})
}
func (c *Ctx) Srem(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() && b.k != 0 {
		if b.S() == -1 {
			return c.BV(a.w, 0)
		}
		return c.BV(a.w, uint64(a.S()%b.S()))
	}
	top := uint64(1) << uint(a.w-1)
	if a.kz&top != 0 && b.kz&top != 0 {
		return c.Urem(a, b)
	}
	return c.mk(&Term{op: OSrem, w: a.w, args: []*Term{a, b}})
}

// ---- bit segments

func segs(t *Term) []*Term {
	if t.op == OConcat {
		return t.args
	}
	return []*Term{t}
}

func (c *Ctx) Concat(parts ...*Term) *Term {
	var out []*Term
	for _, p := range parts {
		for _, s := range segs(p) {
			if n := len(out); n > 0 {
				l := out[n-1]
				if l.IsConst() && s.IsConst() {
					out[n-1] = c.BV(l.w+s.w, l.k<<uint(s.w)|s.k)
					continue
				}
				lb, lh, ll := ext(l)
				sb, sh, sl := ext(s)
				if lb == sb && ll == sh+1 {
					out[n-1] = c.Extract(lb, lh, sl)
					if out[n-1].op == OConcat { // cannot merge further
						x := out[n-1]
						out = append(out[:n-1], x.args...)
					}
					continue
				}
			}
			out = append(out, s)
		}
	}
	if len(out) == 1 {
		return out[0]
	}
	w := 0
	for _, o := range out {
		w += o.w
	}
	return c.mk(&Term{op: OConcat, w: w, args: out})
}

func ext(t *Term) (*Term, int, int) {
	if t.op == OExtract {
		return t.args[0], t.hi, t.lo
	}
	return t, t.w - 1, 0
}

func (c *Ctx) Extract(t *Term, hi, lo int) *Term {
	if lo == 0 && hi == t.w-1 {
		return t
	}
	w := hi - lo + 1
	if t.IsConst() {
		return c.BV(w, t.k>>uint(lo))
	}
	if (t.kz|t.ko)>>uint(lo)&mask(w) == mask(w) {
		return c.BV(w, t.ko>>uint(lo))
	}
	switch t.op {
	case OExtract:
		return c.Extract(t.args[0], hi+t.lo, lo+t.lo)
	case OConcat:
		var out []*Term
		pos := t.w
		for _, a := range t.args {
			ah, al := pos-1, pos-a.w
			pos = al
			h, l := min(hi, ah), max(lo, al)
			if h < l {
				continue
			}
			out = append(out, c.Extract(a, h-al, l-al))
		}
		return c.Concat(out...)
	case OSext:
		n := t.args[0].w
		if hi < n {
			return c.Extract(t.args[0], hi, lo)
		}
	case OIte:
		if t.args[1].IsConst() && t.args[2].IsConst() {
			return c.Ite(t.args[0], c.Extract(t.args[1], hi, lo), c.Extract(t.args[2], hi, lo))
		}
	case OBAnd:
		return c.BAnd(c.Extract(t.args[0], hi, lo), c.Extract(t.args[1], hi, lo))
	case OBOr:
		return c.BOr(c.Extract(t.args[0], hi, lo), c.Extract(t.args[1], hi, lo))
	case OBXor:
		return c.BXor(c.Extract(t.args[0], hi, lo), c.Extract(t.args[1], hi, lo))
	case OLin:
		if lo == 0 {
			as := make([]*Term, len(t.args))
			for i, a := range t.args {
				as[i] = c.Extract(a, hi, 0)
			}
			r := c.BV(w, t.k)
			for i, a := range as {
				r = c.Add(r, c.scale(a, t.coefs[i]&mask(w)))
			}
			return r
		}
	}
	return c.mk(&Term{op: OExtract, w: w, args: []*Term{t}, hi: hi, lo: lo})
}

func (c *Ctx) Zext(t *Term, w int) *Term {
	if t.w == w {
		return t
	}
	return c.Concat(c.BV(w-t.w, 0), t)
}
func (c *Ctx) Sext(t *Term, w int) *Term {
	if t.w == w {
		return t
	}
	if t.IsConst() {
		return c.BV(w, uint64(t.S()))
	}
	top := uint64(1) << uint(t.w-1)
	if t.kz&top != 0 {
		return c.Zext(t, w)
	}
	if t.op == OSext {
		return c.Sext(t.args[0], w)
	}
	// sext(extract(x, n-1..0)) where x = sext of n bits or less
	if t.op == OExtract && t.lo == 0 && t.args[0].op == OSext && t.args[0].args[0].w <= t.w {
		return c.Sext(t.args[0].args[0], w)
	}
	if t.op == OIte && t.args[1].IsConst() && t.args[2].IsConst() {
		return c.Ite(t.args[0], c.Sext(t.args[1], w), c.Sext(t.args[2], w))
	}
	return c.mk(&Term{op: OSext, w: w, args: []*Term{t}})
}

// bitsegs splits constant masks into runs
func (c *Ctx) andMask(a *Term, m uint64) *Term {
	var parts []*Term
	i := a.w
	for i > 0 {
		b := m >> uint(i-1) & 1
		j := i
		for j > 0 && m>>uint(j-1)&1 == b {
			j--
		}
		if b == 1 {
			parts = append(parts, c.Extract(a, i-1, j))
		} else {
			parts = append(parts, c.BV(i-j, 0))
		}
		i = j
	}
	return c.Concat(parts...)
}

func (c *Ctx) BAnd(a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.IsConst() {
		a, b = b, a
	}
	if b.IsConst() {
		if a.IsConst() {
			return c.BV(a.w, a.k&b.k)
		}
		return c.andMask(a, b.k)
	}
	return c.mk(&Term{op: OBAnd, w: a.w, args: ord(a, b)})
}

func (c *Ctx) BOr(a, b *Term) *Term { return c.orxor(OBOr, a, b) }
func (c *Ctx) BXor(a, b *Term) *Term {
	if a == b {
		return c.BV(a.w, 0)
	}
	return c.orxor(OBXor, a, b)
}

func (c *Ctx) orxor(op Op, a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.IsConst() && b.IsConst() {
		if op == OBOr {
			return c.BV(a.w, a.k|b.k)
		}
		return c.BV(a.w, a.k^b.k)
	}
	m := mask(a.w)
	if (a.kz|b.kz)&m == m || (op == OBOr && (a.IsConst() || b.IsConst())) {
		// merge by runs of which side is non-zero
		var parts []*Term
		i := a.w
		side := func(p int) int {
			bit := uint64(1) << uint(p)
			if op == OBOr && (a.ko|b.ko)&bit != 0 {
				return 3
			}
			if b.kz&bit != 0 {
				return 0 // take a
			}
			if a.kz&bit != 0 {
				return 1
			}
			return 2
		}
		ok := true
		for i > 0 && ok {
			s := side(i - 1)
			j := i
			for j > 0 && side(j-1) == s {
				j--
			}
			switch s {
			case 0:
				parts = append(parts, c.Extract(a, i-1, j))
			case 1:
				parts = append(parts, c.Extract(b, i-1, j))
			case 3:
				parts = append(parts, c.BV(i-j, mask(i-j)))
			default:
				ok = false
			}
			i = j
		}
		if ok {
			return c.Concat(parts...)
		}
	}
	if op == OBXor {
		if b.IsConst() && b.k == 0 {
			return a
		}
		if a.IsConst() && a.k == 0 {
			return b
		}
	}
	return c.mk(&Term{op: op, w: a.w, args: ord(a, b)})
}

func (c *Ctx) BNot(a *Term) *Term { return c.Sub(c.BV(a.w, mask(a.w)), a) }

func (c *Ctx) Shl(a, s *Term) *Term {
	if s.IsConst() {
		n := s.k
		if n >= uint64(a.w) {
			return c.BV(a.w, 0)
		}
		if n == 0 {
			return a
		}
		if a.op == OLin {
			return c.scale(a, uint64(1)<<n)
		}
		return c.Concat(c.Extract(a, a.w-1-int(n), 0), c.BV(int(n), 0))
	}
	return c.mk(&Term{op: OShl, w: a.w, args: []*Term{a, s}})
}
func (c *Ctx) Lshr(a, s *Term) *Term {
	if s.IsConst() {
		n := s.k
		if n >= uint64(a.w) {
			return c.BV(a.w, 0)
		}
		if n == 0 {
			return a
		}
		return c.Concat(c.BV(int(n), 0), c.Extract(a, a.w-1, int(n)))
	}
	return c.mk(&Term{op: OLshr, w: a.w, args: []*Term{a, s}})
}
func (c *Ctx) Ashr(a, s *Term) *Term {
	if s.IsConst() {
		n := s.k
		if n >= uint64(a.w) {
			n = uint64(a.w - 1)
		}
		if n == 0 {
			return a
		}
		return c.Sext(c.Extract(a, a.w-1, int(n)), a.w)
	}
	return c.mk(&Term{op: OAshr, w: a.w, args: []*Term{a, s}})
}

// ---- evaluation under a model

type Model map[string]uint64

func (c *Ctx) Eval(t *Term, m Model, memo map[*Term]uint64) uint64 {
	if t.op == OConst {
		return t.k
	}
	if v, ok := memo[t]; ok {
		return v
	}
	var r uint64
	e := func(i int) uint64 { return c.Eval(t.args[i], m, memo) }
	b2u := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	switch t.op {
	case OVar:
		r = m[t.name]
	case ONot:
		r = 1 - e(0)
	case OAnd:
		r = 1
		for i := range t.args {
			if e(i) == 0 {
				r = 0
				break
			}
		}
	case OOr:
		for i := range t.args {
			if e(i) == 1 {
				r = 1
				break
			}
		}
	case OEq:
		r = b2u(e(0) == e(1))
	case OIte:
		if e(0) == 1 {
			r = e(1)
		} else {
			r = e(2)
		}
	case OLin:
		r = t.k
		for i := range t.args {
			r += t.coefs[i] * e(i)
		}
	case OMul:
		r = e(0) * e(1)
	case OUdiv:
		if e(1) == 0 {
			r = mask(t.w)
		} else {
			r = e(0) / e(1)
		}
	case OUrem:
		if e(1) == 0 {
			r = e(0)
		} else {
			r = e(0) % e(1)
		}
	case OSdiv:
		x, y := sx(e(0), t.w), sx(e(1), t.w)
		if y == 0 {
			r = 1
			if x >= 0 {
				r = mask(t.w)
			}
		} else if y == -1 {
			r = uint64(-x)
		} else {
			r = uint64(x / y)
		}
	case OSrem:
		x, y := sx(e(0), t.w), sx(e(1), t.w)
		if y == 0 {
			r = uint64(x)
		} else if y == -1 {
			r = 0
		} else {
			r = uint64(x % y)
		}
	case OBAnd:
		r = e(0) & e(1)
	case OBOr:
		r = e(0) | e(1)
	case OBXor:
		r = e(0) ^ e(1)
	case OShl:
		if s := e(1); s < uint64(t.w) {
			r = e(0) << s
		}
	case OLshr:
		if s := e(1); s < uint64(t.w) {
			r = e(0) >> s
		}
	case OAshr:
		s := e(1)
		if s >= uint64(t.w) {
			s = uint64(t.w - 1)
		}
		r = uint64(sx(e(0), t.w) >> s)
	case OConcat:
		for i, a := range t.args {
			r = r<<uint(a.w) | e(i)
		}
	case OExtract:
		r = e(0) >> uint(t.lo)
	case OSext:
		r = uint64(sx(e(0), t.args[0].w))
	case OUlt:
		r = b2u(e(0) < e(1))
	case OUle:
		r = b2u(e(0) <= e(1))
	case OSlt:
		r = b2u(sx(e(0), t.args[0].w) < sx(e(1), t.args[0].w))
	case OSle:
		r = b2u(sx(e(0), t.args[0].w) <= sx(e(1), t.args[0].w))
	}
	if t.w > 0 {
		r &= mask(t.w)
	}
	memo[t] = r
	return r
}

func (c *Ctx) collectVars(t *Term, seen map[*Term]bool, out map[*Term]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	if t.op == OVar {
		out[t] = true
	}
	for _, a := range t.args {
		c.collectVars(a, seen, out)
	}
}

// ---- SMT-LIB printing

func sortName(w int) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func constStr(w int, k uint64) string {
	if w == 0 {
		if k == 1 {
			return "true"
		}
		return "false"
	}
	if w%4 == 0 {
		return fmt.Sprintf("#x%0*x", w/4, k)
	}
	return fmt.Sprintf("#b%0*b", w, k)
}

func (t *Term) ref() string {
	switch t.op {
	case OConst:
		return constStr(t.w, t.k)
	case OVar:
		return "|" + t.name + "|"
	}
	return fmt.Sprintf("t%d", t.id)
}

var opNames = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OIte: "ite", OMul: "bvmul", OUdiv: "bvudiv",
	OSdiv: "bvsdiv", OUrem: "bvurem", OSrem: "bvsrem", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OShl: "bvshl", OLshr: "bvlshr",
	OAshr: "bvashr", OConcat: "concat", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle"}

func (t *Term) body() string {
	var sb strings.Builder
	switch t.op {
	case OExtract:
		fmt.Fprintf(&sb, "((_ extract %d %d) %s)", t.hi, t.lo, t.args[0].ref())
	case OSext:
		fmt.Fprintf(&sb, "((_ sign_extend %d) %s)", t.w-t.args[0].w, t.args[0].ref())
	case OLin:
		sb.WriteString("(bvadd")
		n := 0
		for i, a := range t.args {
			n++
			if t.coefs[i] == 1 {
				sb.WriteString(" " + a.ref())
			} else if t.coefs[i] == mask(t.w) {
				sb.WriteString(" (bvneg " + a.ref() + ")")
			} else {
				fmt.Fprintf(&sb, " (bvmul %s %s)", constStr(t.w, t.coefs[i]), a.ref())
			}
		}
		if t.k != 0 || n < 2 {
			sb.WriteString(" " + constStr(t.w, t.k))
		}
		sb.WriteString(")")
	default:
		sb.WriteString("(" + opNames[t.op])
		for _, a := range t.args {
			sb.WriteString(" " + a.ref())
		}
		sb.WriteString(")")
	}
	return sb.String()
}

// collectVarsList appends the variables of t not seen before.
func (c *Ctx) collectVarsList(t *Term, seen map[*Term]bool, out *[]*Term) {
	if seen[t] {
		return
	}
	seen[t] = true
	if t.op == OVar {
		*out = append(*out, t)
	}
	for _, a := range t.args {
		c.collectVarsList(a, seen, out)
	}
}

// linRaw builds s*1e9+n without applying the split rewriting.
func (c *Ctx) linRaw(s, n *Term) *Term {
	sub := c.linSub
	c.linSub = nil
	r := c.Add(c.scale(s, 1000000000), n)
	c.linSub = sub
	return r
}

var opShow = [...]string{OConst: "const", OVar: "var", ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OIte: "ite", OLin: "lin",
	OMul: "*", OUdiv: "udiv", OSdiv: "sdiv", OUrem: "urem", OSrem: "srem", OBAnd: "&", OBOr: "|", OBXor: "^", OShl: "<<",
	OLshr: ">>", OAshr: ">>>", OConcat: "++", OExtract: "ext", OSext: "sext", OUlt: "<u", OUle: "<=u", OSlt: "<s", OSle: "<=s"}

// show renders a term for diagnostics, to a limited depth.
func (t *Term) show(depth int) string {
	switch t.op {
	case OConst:
		return fmt.Sprint(int64(t.k))
	case OVar:
		return t.name
	}
	if depth == 0 {
		return ".."
	}
	var sb strings.Builder
	sb.WriteString("(" + opShow[t.op])
	if t.op == OExtract {
		fmt.Fprintf(&sb, "[%d:%d]", t.hi, t.lo)
	}
	for i, a := range t.args {
		sb.WriteByte(' ')
		if t.op == OLin {
			fmt.Fprintf(&sb, "%d*", int64(t.coefs[i]))
		}
		sb.WriteString(a.show(depth - 1))
	}
	if t.op == OLin && t.k != 0 {
		fmt.Fprintf(&sb, " +%d", int64(t.k))
	}
	sb.WriteByte(')')
	return sb.String()
}

// rebuild makes the term again with other arguments, through the simplifying constructors.
func (c *Ctx) rebuild(t *Term, a []*Term) *Term {
	switch t.op {
	case ONot:
		return c.Not(a[0])
	case OAnd:
		return c.And(a...)
	case OOr:
		return c.Or(a...)
	case OEq:
		return c.Eq(a[0], a[1])
	case OIte:
		return c.Ite(a[0], a[1], a[2])
	case OLin:
		r := c.BV(t.w, t.k)
		for i, x := range a {
			r = c.Add(r, c.scale(x, t.coefs[i]))
		}
		return r
	case OMul:
		return c.Mul(a[0], a[1])
	case OUdiv:
		return c.Udiv(a[0], a[1])
	case OSdiv:
		return c.Sdiv(a[0], a[1])
	case OUrem:
		return c.Urem(a[0], a[1])
	case OSrem:
		return c.Srem(a[0], a[1])
	case OBAnd:
		return c.BAnd(a[0], a[1])
	case OBOr:
		r := a[0]
		for _, x := range a[1:] {
			r = c.BOr(r, x)
		}
		return r
	case OBXor:
		r := a[0]
		for _, x := range a[1:] {
			r = c.BXor(r, x)
		}
		return r
	case OShl:
		return c.Shl(a[0], a[1])
	case OLshr:
		return c.Lshr(a[0], a[1])
	case OAshr:
		return c.Ashr(a[0], a[1])
	case OConcat:
		return c.Concat(a...)
	case OExtract:
		return c.Extract(a[0], t.hi, t.lo)
	case OSext:
		return c.Sext(a[0], t.w)
	case OUlt:
		return c.Ult(a[0], a[1])
	case OUle:
		return c.Ule(a[0], a[1])
	case OSlt:
		return c.Slt(a[0], a[1])
	case OSle:
		return c.Sle(a[0], a[1])
	}
	return t
}

// linRange is the range of sum coefs*args as mathematical integers; ok only if no 64-bit overflow is possible.
func linRange(w int, as []*Term, cs []uint64) (lo, hi float64, ok bool) {
	for i, a := range as {
		co := float64(sx(cs[i], w))
		l, h := float64(a.smin()), float64(a.smax())
		if co < 0 {
			l, h = h, l
		}
		lo += co * l
		hi += co * h
	}
	lim := math.Ldexp(1, w-2)
	return lo, hi, lo > -lim && hi < lim
}

// eqSplit decides sum = k digit-wise: with M the largest coefficient, the terms divisible by M and the rest
// can be compared separately when the rest spans less than M and nothing overflows.
func (c *Ctx) eqSplit(nd *Term, k uint64) *Term {
	if nd.op != OLin || nd.w != 64 || nd.k != 0 {
		return nil
	}
	w := nd.w
	var m int64
	for _, co := range nd.coefs {
		v := sx(co, w)
		if v < 0 {
			v = -v
		}
		if v > m {
			m = v
		}
	}
	if m < 2 {
		return nil
	}
	var ga, ra []*Term
	var gc, rc []uint64
	for i, a := range nd.args {
		if sx(nd.coefs[i], w)%m == 0 {
			ga, gc = append(ga, a), append(gc, nd.coefs[i])
		} else {
			ra, rc = append(ra, a), append(rc, nd.coefs[i])
		}
	}
	glo, ghi, ok1 := linRange(w, ga, gc)
	rlo, rhi, ok2 := linRange(w, ra, rc)
	ks := sx(k, w)
	if !ok1 || !ok2 || glo+rlo < -math.Ldexp(1, w-2) || ghi+rhi > math.Ldexp(1, w-2) || math.Abs(float64(ks)) > math.Ldexp(1, w-2) {
		return nil
	}
	if len(ra) > 0 && (rhi-rlo >= float64(m) || math.Abs(rlo) > 1e15 || math.Abs(rhi) > 1e15) {
		return nil
	}
	// the only value r0 = k (mod m) in [rlo, rhi]
	lo := int64(rlo)
	r0 := lo + ((ks-lo)%m+m)%m
	if float64(r0) > rhi {
		return c.False
	}
	g0 := ks - r0 // divisible by m
	if float64(g0) < glo || float64(g0) > ghi {
		return c.False
	}
	for i := range gc {
		gc[i] = uint64(sx(gc[i], w) / m)
	}
	g := c.lin(w, ga, gc, 0)
	r := c.lin(w, ra, rc, 0)
	return c.And(c.Eq(g, c.BV(w, uint64(g0/m))), c.Eq(r, c.BV(w, uint64(r0))))
}

// splitUnix splits x = s*1e9 + n with 0 <= n < 1e9 when the linear form shows it.
func (c *Ctx) splitUnix(t *Term) (s, n *Term, ok bool) {
	if t.op != OLin || t.w != 64 {
		return
	}
	const m = 1000000000
	var ga, ra []*Term
	var gc, rc []uint64
	for i, a := range t.args {
		if v := sx(t.coefs[i], 64); v%m == 0 {
			ga, gc = append(ga, a), append(gc, uint64(v/m))
		} else {
			ra, rc = append(ra, a), append(rc, t.coefs[i])
		}
	}
	if len(ga) == 0 || len(ra) == 0 {
		return
	}
	full := make([]uint64, len(gc))
	for i := range gc {
		full[i] = gc[i] * m
	}
	_, _, ok1 := linRange(64, ga, full)
	rlo, rhi, ok2 := linRange(64, ra, rc)
	ks := sx(t.k, 64)
	if !ok1 || !ok2 || math.Abs(float64(ks)) > 1e17 {
		return
	}
	kq := ks / m
	kr := ks % m
	if kr < 0 {
		kr += m
		kq--
	}
	if rlo+float64(kr) < 0 || rhi+float64(kr) >= m {
		return
	}
	return c.lin(64, ga, gc, uint64(kq)), c.lin(64, ra, rc, uint64(kr)), true
}
