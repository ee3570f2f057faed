package main

import (
	"fmt"
	"math/bits"
	"strings"
)

// Op is a term operator.
type Op uint8

const (
	OConst Op = iota
	OVar
	OApp // uninterpreted function application
	ONot
	OAnd
	OOr
	OEq
	OIte
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OBAnd
	OBOr
	OBXor
	OShl
	OLShr
	OAShr
	OBNot
	ONeg
	OUlt
	OUle
	OSlt
	OSle
	OZext
	OSext
	OExtract
	OConcat
)

// Term is a hash-consed bit-vector (w>0) or boolean (w==0) expression.
type Term struct {
	op     Op
	w      uint8
	hi, lo uint8 // extract
	val    uint64
	name   string
	args   []*Term
	id     int
	umin   uint64
	umax   uint64
	size   int
}

type termKey struct {
	op         Op
	w          uint8
	hi, lo     uint8
	val        uint64
	name       string
	a0, a1, a2 int
}

// Ctx owns terms. One per worker.
type Ctx struct {
	tab    map[termKey]*Term
	appTab map[string]*Term
	nextID int
	True   *Term
	False  *Term
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[termKey]*Term{}, appTab: map[string]*Term{}, nextID: 1}
	c.True = c.mk(termKey{op: OConst, w: 0, val: 1}, nil)
	c.False = c.mk(termKey{op: OConst, w: 0, val: 0}, nil)
	return c
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func (c *Ctx) mk(k termKey, args []*Term) *Term {
	if len(args) > 0 {
		k.a0 = args[0].id
	}
	if len(args) > 1 {
		k.a1 = args[1].id
	}
	if len(args) > 2 {
		k.a2 = args[2].id
	}
	if t, ok := c.tab[k]; ok {
		return t
	}
	t := &Term{op: k.op, w: k.w, hi: k.hi, lo: k.lo, val: k.val, name: k.name, args: args, id: c.nextID}
	c.nextID++
	t.size = 1
	for _, a := range args {
		t.size += a.size
		if t.size > 1<<30 {
			t.size = 1 << 30
		}
	}
	t.umin, t.umax = bounds(t)
	c.tab[k] = t
	return t
}

func (t *Term) isConst() bool { return t.op == OConst }

func bounds(t *Term) (uint64, uint64) {
	m := mask(t.w)
	switch t.op {
	case OConst:
		return t.val, t.val
	case OZext:
		return t.args[0].umin, t.args[0].umax
	case OSext:
		a := t.args[0]
		if a.umax < uint64(1)<<(a.w-1) {
			return a.umin, a.umax
		}
	case OExtract:
		a := t.args[0]
		if t.lo == 0 && a.umax <= m {
			return a.umin, a.umax
		}
		if a.umax>>t.lo <= m {
			return a.umin >> t.lo, a.umax >> t.lo
		}
	case OAdd:
		a, b := t.args[0], t.args[1]
		if s, cr := bits.Add64(a.umax, b.umax, 0); cr == 0 && s <= m {
			return a.umin + b.umin, s
		}
		// -x + k with k not below x
		if b.isConst() && a.op == ONeg && b.val >= a.args[0].umax {
			return b.val - a.args[0].umax, b.val - a.args[0].umin
		}
		// a + (-k): treat constant negative addend
		if b.isConst() {
			k := (-b.val) & m
			if a.umin >= k && k <= m>>1 {
				return a.umin - k, a.umax - k
			}
		}
	case OSub:
		a, b := t.args[0], t.args[1]
		if a.umin >= b.umax {
			return a.umin - b.umax, a.umax - b.umin
		}
	case OMul:
		a, b := t.args[0], t.args[1]
		if h, l := bits.Mul64(a.umax, b.umax); h == 0 && l <= m {
			return a.umin * b.umin, l
		}
	case OUDiv:
		a, b := t.args[0], t.args[1]
		if b.umin > 0 {
			return a.umin / b.umax, a.umax / b.umin
		}
	case OURem:
		a, b := t.args[0], t.args[1]
		if b.umin > 0 {
			if a.umax < b.umin {
				return a.umin, a.umax
			}
			if b.isConst() && a.umin/b.val == a.umax/b.val {
				return a.umin % b.val, a.umax % b.val
			}
			hi := b.umax - 1
			if a.umax < hi {
				hi = a.umax
			}
			return 0, hi
		}
	case OBAnd:
		hi := t.args[0].umax
		if t.args[1].umax < hi {
			hi = t.args[1].umax
		}
		return 0, hi
	case OBOr, OBXor:
		hi := t.args[0].umax | t.args[1].umax
		if hi == 0 {
			return 0, 0
		}
		n := bits.Len64(hi)
		lo := uint64(0)
		if t.op == OBOr {
			lo = t.args[0].umin
			if t.args[1].umin > lo {
				lo = t.args[1].umin
			}
		}
		if n >= 64 {
			return lo, m
		}
		return lo, (uint64(1) << n) - 1
	case OShl:
		a, b := t.args[0], t.args[1]
		if b.isConst() && b.val < uint64(t.w) {
			if a.umax<<b.val>>b.val == a.umax && a.umax<<b.val <= m {
				return a.umin << b.val, a.umax << b.val
			}
		}
	case OLShr:
		a, b := t.args[0], t.args[1]
		if b.isConst() {
			if b.val >= 64 {
				return 0, 0
			}
			return a.umin >> b.val, a.umax >> b.val
		}
		return 0, a.umax
	case OIte:
		a, b := t.args[1], t.args[2]
		lo, hi := a.umin, a.umax
		if b.umin < lo {
			lo = b.umin
		}
		if b.umax > hi {
			hi = b.umax
		}
		return lo, hi
	case OConcat:
		a, b := t.args[0], t.args[1]
		return a.umin<<b.w | b.umin, a.umax<<b.w | b.umax
	case OVar:
		return t.umin, t.umax
	}
	if t.w == 0 {
		return 0, 1
	}
	return 0, m
}

func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}

// constTab holds small constants shared by all contexts (negative ids).
var constTab [65][]*Term

func init() {
	id := -1
	for _, w := range []uint8{8, 16, 32, 64} {
		n := 4096
		if w == 8 {
			n = 256
		}
		t := make([]*Term, n)
		all := make([]Term, n)
		for i := range t {
			t[i] = &all[i]
			*t[i] = Term{op: OConst, w: w, val: uint64(i), id: id, size: 1, umin: uint64(i), umax: uint64(i)}
			id--
		}
		constTab[w] = t
	}
}

func (c *Ctx) BV(w uint8, v uint64) *Term {
	v &= mask(w)
	if t := constTab[w]; v < uint64(len(t)) {
		return t[v]
	}
	return c.mk(termKey{op: OConst, w: w, val: v}, nil)
}

func (c *Ctx) Int(v int) *Term { return c.BV(64, uint64(v)) }

// Var makes a named variable whose value is known to lie in [lo,hi] unsigned
// (the caller also asserts this to the solver).
func (c *Ctx) Var(w uint8, name string, lo, hi uint64) *Term {
	k := termKey{op: OVar, w: w, name: name}
	if t, ok := c.tab[k]; ok {
		t.umin, t.umax = lo, hi
		return t
	}
	t := &Term{op: OVar, w: w, name: name, id: c.nextID, size: 1, umin: lo, umax: hi}
	c.nextID++
	c.tab[k] = t
	return t
}

// App applies an uninterpreted function.
func (c *Ctx) App(w uint8, name string, args ...*Term) *Term {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%s/%d", name, w)
	for _, a := range args {
		fmt.Fprintf(&sb, ",%d", a.id)
	}
	k := sb.String()
	if t, ok := c.appTab[k]; ok {
		return t
	}
	t := &Term{op: OApp, w: w, name: name, args: args, id: c.nextID, size: 1, umin: 0, umax: mask(w)}
	if w == 0 {
		t.umax = 1
	}
	for _, a := range args {
		t.size += a.size
	}
	c.nextID++
	c.appTab[k] = t
	return t
}

func (c *Ctx) Not(a *Term) *Term {
	switch a.op {
	case OConst:
		return c.Bool(a.val == 0)
	case ONot:
		return a.args[0]
	case OUlt:
		return c.Ule(a.args[1], a.args[0])
	case OUle:
		return c.Ult(a.args[1], a.args[0])
	case OSlt:
		return c.Sle(a.args[1], a.args[0])
	case OSle:
		return c.Slt(a.args[1], a.args[0])
	}
	return c.mk(termKey{op: ONot}, []*Term{a})
}

func (c *Ctx) And(a, b *Term) *Term {
	if a == c.False || b == c.False {
		return c.False
	}
	if a == c.True || a == b {
		return b
	}
	if b == c.True {
		return a
	}
	if a == c.Not(b) {
		return c.False
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(termKey{op: OAnd}, []*Term{a, b})
}

func (c *Ctx) Or(a, b *Term) *Term {
	if a == c.True || b == c.True {
		return c.True
	}
	if a == c.False || a == b {
		return b
	}
	if b == c.False {
		return a
	}
	if a == c.Not(b) {
		return c.True
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(termKey{op: OOr}, []*Term{a, b})
}

func (c *Ctx) Implies(a, b *Term) *Term { return c.Or(c.Not(a), b) }

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.w != b.w {
		panic(fmt.Sprintf("Eq width mismatch %d %d", a.w, b.w))
	}
	if a.isConst() && b.isConst() {
		return c.Bool(a.val == b.val)
	}
	if a.w == 0 {
		if a == c.True {
			return b
		}
		if b == c.True {
			return a
		}
		if a == c.False {
			return c.Not(b)
		}
		if b == c.False {
			return c.Not(a)
		}
	} else if a.umax < b.umin || b.umax < a.umin {
		return c.False
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		switch a.op {
		case OAdd:
			if a.args[1].isConst() {
				return c.Eq(a.args[0], c.BV(a.w, b.val-a.args[1].val))
			}
		case OZext:
			in := a.args[0]
			if b.val > mask(in.w) {
				return c.False
			}
			return c.Eq(in, c.BV(in.w, b.val))
		case OBXor:
			if a.args[1].isConst() {
				return c.Eq(a.args[0], c.BV(a.w, b.val^a.args[1].val))
			}
		case OIte:
			x, y := a.args[1], a.args[2]
			if x.isConst() && y.isConst() {
				if x.val == b.val && y.val != b.val {
					return a.args[0]
				}
				if x.val != b.val && y.val == b.val {
					return c.Not(a.args[0])
				}
				if x.val != b.val && y.val != b.val {
					return c.False
				}
			}
		}
	} else {
		// x+c1 == x+c2 / x+c == x
		ab, ak := splitAdd(a)
		bb, bk := splitAdd(b)
		if ab == bb {
			return c.Bool((ak-bk)&mask(a.w) == 0)
		}
		if a.op == OZext && b.op == OZext && a.args[0].w == b.args[0].w {
			return c.Eq(a.args[0], b.args[0])
		}
		if a.id > b.id {
			a, b = b, a
		}
	}
	return c.mk(termKey{op: OEq}, []*Term{a, b})
}

func splitAdd(t *Term) (*Term, uint64) {
	if t.op == OAdd && t.args[1].isConst() {
		return t.args[0], t.args[1].val
	}
	return t, 0
}

func (c *Ctx) Ite(k, a, b *Term) *Term {
	if k == c.True || a == b {
		return a
	}
	if k == c.False {
		return b
	}
	if a.w != b.w {
		panic("Ite width mismatch")
	}
	if a.w == 0 {
		if a == c.True && b == c.False {
			return k
		}
		if a == c.False && b == c.True {
			return c.Not(k)
		}
		if a == c.True {
			return c.Or(k, b)
		}
		if b == c.False {
			return c.And(k, a)
		}
		if a == c.False {
			return c.And(c.Not(k), b)
		}
		if b == c.True {
			return c.Or(c.Not(k), a)
		}
	}
	if k.op == ONot {
		return c.Ite(k.args[0], b, a)
	}
	if a.op == OIte && a.args[0] == k {
		a = a.args[1]
	}
	if b.op == OIte && b.args[0] == k {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	return c.mk(termKey{op: OIte, w: a.w}, []*Term{k, a, b})
}

func sx(v uint64, w uint8) int64 {
	s := 64 - uint(w)
	return int64(v<<s) >> s
}

func (c *Ctx) Bin(op Op, a, b *Term) *Term {
	w := a.w
	if a.w != b.w {
		panic(fmt.Sprintf("Bin width mismatch %d: %d %d", op, a.w, b.w))
	}
	if a.isConst() && b.isConst() {
		x, y := a.val, b.val
		switch op {
		case OAdd:
			return c.BV(w, x+y)
		case OSub:
			return c.BV(w, x-y)
		case OMul:
			return c.BV(w, x*y)
		case OUDiv:
			if y != 0 {
				return c.BV(w, x/y)
			}
		case OURem:
			if y != 0 {
				return c.BV(w, x%y)
			}
		case OSDiv:
			if y != 0 {
				sy, sxx := sx(y, w), sx(x, w)
				if sy == -1 {
					return c.BV(w, uint64(-sxx))
				}
				return c.BV(w, uint64(sxx/sy))
			}
		case OSRem:
			if y != 0 {
				sy, sxx := sx(y, w), sx(x, w)
				if sy == -1 {
					return c.BV(w, 0)
				}
				return c.BV(w, uint64(sxx%sy))
			}
		case OBAnd:
			return c.BV(w, x&y)
		case OBOr:
			return c.BV(w, x|y)
		case OBXor:
			return c.BV(w, x^y)
		case OShl:
			if y >= uint64(w) {
				return c.BV(w, 0)
			}
			return c.BV(w, x<<y)
		case OLShr:
			if y >= uint64(w) {
				return c.BV(w, 0)
			}
			return c.BV(w, x>>y)
		case OAShr:
			if y >= uint64(w) {
				y = uint64(w) - 1
			}
			return c.BV(w, uint64(sx(x, w)>>y))
		}
	}
	switch op {
	case OAdd:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.val == 0 {
				return a
			}
			if a.op == OAdd && a.args[1].isConst() {
				return c.Bin(OAdd, a.args[0], c.BV(w, a.args[1].val+b.val))
			}
			if a.op == OIte && a.args[1].isConst() && a.args[2].isConst() {
				return c.Ite(a.args[0], c.Bin(OAdd, a.args[1], b), c.Bin(OAdd, a.args[2], b))
			}
		} else {
			// (x+k)+y -> (x+y)+k ; x+(y+k) -> (x+y)+k
			ab, ak := splitAdd(a)
			bb, bk := splitAdd(b)
			if ak != 0 || bk != 0 {
				return c.Bin(OAdd, c.Bin(OAdd, ab, bb), c.BV(w, ak+bk))
			}
			if a.op == ONeg && a.args[0] == b || b.op == ONeg && b.args[0] == a {
				return c.BV(w, 0)
			}
			// (x-y)+y -> x
			if a.op == OSub && a.args[1] == b {
				return a.args[0]
			}
			if b.op == OSub && b.args[1] == a {
				return b.args[0]
			}
			if a.id > b.id {
				a, b = b, a
			}
		}
	case OSub:
		if a == b {
			return c.BV(w, 0)
		}
		if b.isConst() {
			return c.Bin(OAdd, a, c.BV(w, -b.val))
		}
		ab, ak := splitAdd(a)
		bb, bk := splitAdd(b)
		if ak != 0 || bk != 0 {
			return c.Bin(OAdd, c.Bin(OSub, ab, bb), c.BV(w, ak-bk))
		}
		// (x+y)-y -> x
		if a.op == OAdd {
			if a.args[1] == b {
				return a.args[0]
			}
			if a.args[0] == b {
				return a.args[1]
			}
		}
		// x-(x-y) -> y
		if b.op == OSub && b.args[0] == a {
			return b.args[1]
		}
		// x-(x+y) -> -y
		if b.op == OAdd {
			if b.args[0] == a {
				return c.Neg(b.args[1])
			}
			if b.args[1] == a {
				return c.Neg(b.args[0])
			}
		}
	case OMul:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.val == 0 {
				return b
			}
			if b.val == 1 {
				return a
			}
			if b.val&(b.val-1) == 0 {
				return c.Bin(OShl, a, c.BV(w, uint64(bits.TrailingZeros64(b.val))))
			}
		}
	case OUDiv:
		if b.isConst() {
			if b.val == 1 {
				return a
			}
			if b.val != 0 && b.val&(b.val-1) == 0 {
				return c.Bin(OLShr, a, c.BV(w, uint64(bits.TrailingZeros64(b.val))))
			}
			if b.val != 0 && a.umin/b.val == a.umax/b.val {
				return c.BV(w, a.umin/b.val)
			}
			if b.val != 0 && a.op == OUDiv && a.args[1].isConst() {
				if h, l := bits.Mul64(a.args[1].val, b.val); h == 0 && l <= mask(w) {
					return c.Bin(OUDiv, a.args[0], c.BV(w, l))
				}
			}
		}
	case OSDiv, OSRem:
		if a.umax < uint64(1)<<(w-1) && b.umax < uint64(1)<<(w-1) && b.umin > 0 {
			if op == OSDiv {
				return c.Bin(OUDiv, a, b)
			}
			return c.Bin(OURem, a, b)
		}
		if op == OSDiv && b.isConst() && b.val == 1 {
			return a
		}
	case OURem:
		if b.isConst() && b.val != 0 {
			if b.val&(b.val-1) == 0 {
				return c.Bin(OBAnd, a, c.BV(w, b.val-1))
			}
			if a.umax < b.val {
				return a
			}
			if q := a.umin / b.val; q == a.umax/b.val {
				return c.Bin(OAdd, a, c.BV(w, -(q*b.val)))
			}
		} else if a.umax < b.umin {
			return a
		}
	case OBAnd:
		if a.isConst() {
			a, b = b, a
		}
		if a == b {
			return a
		}
		if b.isConst() {
			if b.val == 0 {
				return b
			}
			if b.val == mask(w) {
				return a
			}
			// low mask covering all possible bits
			if b.val&(b.val+1) == 0 && a.umax <= b.val {
				return a
			}
			// low mask -> zext(extract)
			if b.val&(b.val+1) == 0 {
				n := uint8(bits.Len64(b.val))
				return c.Zext(c.Extract(a, n-1, 0), w)
			}
		}
	case OBOr:
		if a.isConst() {
			a, b = b, a
		}
		if a == b {
			return a
		}
		if b.isConst() {
			if b.val == 0 {
				return a
			}
			if b.val == mask(w) {
				return b
			}
		}
		if r := c.orConcat(a, b); r != nil {
			return r
		}
	case OBXor:
		if a == b {
			return c.BV(w, 0)
		}
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() && b.val == 0 {
			return a
		}
		if a.op == OBXor {
			if a.args[0] == b {
				return a.args[1]
			}
			if a.args[1] == b {
				return a.args[0]
			}
		}
		if b.op == OBXor {
			if b.args[0] == a {
				return b.args[1]
			}
			if b.args[1] == a {
				return b.args[0]
			}
		}
		if a.id > b.id && !b.isConst() {
			a, b = b, a
		}
	case OShl, OLShr, OAShr:
		if b.isConst() {
			if b.val == 0 {
				return a
			}
			if b.val >= uint64(w) && op != OAShr {
				return c.BV(w, 0)
			}
			if op == OAShr && a.umax < uint64(1)<<(w-1) {
				return c.Bin(OLShr, a, b)
			}
			if op == OLShr {
				// lshr(x,k) = zext(extract(w-1,k))
				return c.Zext(c.Extract(a, w-1, uint8(b.val)), w)
			}
			if op == OShl {
				// shl(x,k) = concat(extract(w-1-k,0), 0_k)
				return c.Concat(c.Extract(a, w-1-uint8(b.val), 0), c.BV(uint8(b.val), 0))
			}
		}
		if a.isConst() && a.val == 0 {
			return a
		}
	}
	return c.mk(termKey{op: op, w: w}, []*Term{a, b})
}

// orConcat recognises disjoint ors of zero-extended/concatenated pieces and
// keeps them in concat form, so byte-wise encode/decode pairs cancel.
func (c *Ctx) orConcat(a, b *Term) *Term {
	pa := pieces(a)
	pb := pieces(b)
	if pa == nil || pb == nil {
		return nil
	}
	// cut both at the union of boundaries
	var out []*Term // low to high
	ia, ib := 0, 0
	oa, ob := uint8(0), uint8(0)
	for ia < len(pa) && ib < len(pb) {
		ra, rb := pa[ia].w-oa, pb[ib].w-ob
		n := ra
		if rb < n {
			n = rb
		}
		ta := pa[ia]
		tb := pb[ib]
		za := ta.isConst() && (ta.val>>oa)&mask(n) == 0
		zb := tb.isConst() && (tb.val>>ob)&mask(n) == 0
		switch {
		case za:
			out = append(out, c.Extract(tb, ob+n-1, ob))
		case zb:
			out = append(out, c.Extract(ta, oa+n-1, oa))
		case ta.isConst() && tb.isConst():
			out = append(out, c.BV(n, ta.val>>oa|tb.val>>ob))
		default:
			return nil
		}
		oa += n
		ob += n
		if oa == pa[ia].w {
			ia++
			oa = 0
		}
		if ob == pb[ib].w {
			ib++
			ob = 0
		}
	}
	r := out[0]
	for _, p := range out[1:] {
		r = c.Concat(p, r)
	}
	return r
}

// pieces splits a term into low-to-high concat pieces, if it is worth it.
func pieces(t *Term) []*Term {
	switch t.op {
	case OConcat:
		var out []*Term
		out = append(out, piecesOr(t.args[1])...)
		out = append(out, piecesOr(t.args[0])...)
		return out
	case OZext:
		// handled by caller through a zero constant piece
		return append(append([]*Term{}, piecesOr(t.args[0])...), zeroPiece(t.w-t.args[0].w))
	case OConst:
		return []*Term{t}
	}
	return nil
}

func piecesOr(t *Term) []*Term {
	if p := pieces(t); p != nil {
		return p
	}
	return []*Term{t}
}

func zeroPiece(w uint8) *Term { return &Term{op: OConst, w: w, id: -1} }

func (c *Ctx) Add(a, b *Term) *Term { return c.Bin(OAdd, a, b) }
func (c *Ctx) Sub(a, b *Term) *Term { return c.Bin(OSub, a, b) }

func (c *Ctx) Neg(a *Term) *Term {
	if a.isConst() {
		return c.BV(a.w, -a.val)
	}
	if a.op == ONeg {
		return a.args[0]
	}
	return c.mk(termKey{op: ONeg, w: a.w}, []*Term{a})
}

func (c *Ctx) BNot(a *Term) *Term {
	if a.isConst() {
		return c.BV(a.w, ^a.val)
	}
	if a.op == OBNot {
		return a.args[0]
	}
	return c.mk(termKey{op: OBNot, w: a.w}, []*Term{a})
}

func (c *Ctx) Ult(a, b *Term) *Term {
	if a == b {
		return c.False
	}
	if a.umax < b.umin {
		return c.True
	}
	if a.umin >= b.umax {
		return c.False
	}
	if a.op == OZext && b.op == OZext && a.args[0].w == b.args[0].w {
		return c.Ult(a.args[0], b.args[0])
	}
	return c.mk(termKey{op: OUlt}, []*Term{a, b})
}

func (c *Ctx) Ule(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.umax <= b.umin {
		return c.True
	}
	if a.umin > b.umax {
		return c.False
	}
	return c.mk(termKey{op: OUle}, []*Term{a, b})
}

func nonneg(t *Term) bool { return t.umax < uint64(1)<<(t.w-1) }
func negv(t *Term) bool   { return t.umin >= uint64(1)<<(t.w-1) }

func (c *Ctx) Slt(a, b *Term) *Term {
	if a == b {
		return c.False
	}
	if a.isConst() && b.isConst() {
		return c.Bool(sx(a.val, a.w) < sx(b.val, b.w))
	}
	if nonneg(a) && nonneg(b) || negv(a) && negv(b) {
		return c.Ult(a, b)
	}
	if nonneg(a) && negv(b) {
		return c.False
	}
	if negv(a) && nonneg(b) {
		return c.True
	}
	return c.mk(termKey{op: OSlt}, []*Term{a, b})
}

func (c *Ctx) Sle(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.isConst() && b.isConst() {
		return c.Bool(sx(a.val, a.w) <= sx(b.val, b.w))
	}
	if nonneg(a) && nonneg(b) || negv(a) && negv(b) {
		return c.Ule(a, b)
	}
	if nonneg(a) && negv(b) {
		return c.False
	}
	if negv(a) && nonneg(b) {
		return c.True
	}
	return c.mk(termKey{op: OSle}, []*Term{a, b})
}

func (c *Ctx) Zext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.w > w {
		panic("Zext narrowing")
	}
	if a.isConst() {
		return c.BV(w, a.val)
	}
	if a.op == OZext {
		return c.Zext(a.args[0], w)
	}
	if a.op == OIte && a.args[1].isConst() && a.args[2].isConst() {
		return c.Ite(a.args[0], c.Zext(a.args[1], w), c.Zext(a.args[2], w))
	}
	return c.mk(termKey{op: OZext, w: w}, []*Term{a})
}

func (c *Ctx) Sext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return c.BV(w, uint64(sx(a.val, a.w)))
	}
	if nonneg(a) {
		return c.Zext(a, w)
	}
	return c.mk(termKey{op: OSext, w: w}, []*Term{a})
}

func (c *Ctx) Extract(a *Term, hi, lo uint8) *Term {
	w := hi - lo + 1
	if lo == 0 && hi == a.w-1 && a.id >= 0 {
		return a
	}
	if a.isConst() {
		return c.BV(w, a.val>>lo)
	}
	if a.umax>>lo == 0 {
		return c.BV(w, 0)
	}
	switch a.op {
	case OExtract:
		return c.Extract(a.args[0], hi+a.lo, lo+a.lo)
	case OZext:
		in := a.args[0]
		if lo >= in.w {
			return c.BV(w, 0)
		}
		if hi < in.w {
			return c.Extract(in, hi, lo)
		}
		return c.Zext(c.Extract(in, in.w-1, lo), w)
	case OSext:
		in := a.args[0]
		if hi < in.w {
			return c.Extract(in, hi, lo)
		}
	case OConcat:
		h, l := a.args[0], a.args[1]
		if hi < l.w {
			return c.Extract(l, hi, lo)
		}
		if lo >= l.w {
			return c.Extract(h, hi-l.w, lo-l.w)
		}
		return c.Concat(c.Extract(h, hi-l.w, 0), c.Extract(l, l.w-1, lo))
	case OBAnd, OBOr, OBXor:
		return c.Bin(a.op, c.Extract(a.args[0], hi, lo), c.Extract(a.args[1], hi, lo))
	case OIte:
		if a.args[1].isConst() || a.args[2].isConst() {
			return c.Ite(a.args[0], c.Extract(a.args[1], hi, lo), c.Extract(a.args[2], hi, lo))
		}
	case OAdd, OSub, OMul:
		if lo == 0 {
			return c.Bin(a.op, c.Extract(a.args[0], hi, 0), c.Extract(a.args[1], hi, 0))
		}
	}
	return c.mk(termKey{op: OExtract, w: w, hi: hi, lo: lo}, []*Term{a})
}

func (c *Ctx) Concat(h, l *Term) *Term {
	if h.id < 0 {
		h = c.BV(h.w, h.val)
	}
	if l.id < 0 {
		l = c.BV(l.w, l.val)
	}
	w := h.w + l.w
	if h.isConst() && l.isConst() {
		return c.BV(w, h.val<<l.w|l.val)
	}
	if h.isConst() && h.val == 0 {
		return c.Zext(l, w)
	}
	if h.op == OZext { // concat(zext(x), l) = zext(concat(x,l))
		return c.Zext(c.Concat(h.args[0], l), w)
	}
	if h.op == OExtract && l.op == OExtract && h.args[0] == l.args[0] && h.lo == l.hi+1 {
		return c.Extract(h.args[0], h.hi, l.lo)
	}
	// concat(extract(x,h,k), concat(extract(x,k-1,..), r))
	if h.op == OExtract && l.op == OConcat && l.args[0].op == OExtract && l.args[0].args[0] == h.args[0] && h.lo == l.args[0].hi+1 {
		return c.Concat(c.Extract(h.args[0], h.hi, l.args[0].lo), l.args[1])
	}
	return c.mk(termKey{op: OConcat, w: w}, []*Term{h, l})
}

// subst-free evaluation under an assignment of variables and apps (for model
// consistency checks and concrete replay of predictions).
type Model struct {
	vals map[int]uint64 // term id -> value for vars/apps
	get  func(t *Term) uint64
	memo map[int]uint64
}

func (m *Model) Eval(t *Term) uint64 {
	if v, ok := m.memo[t.id]; ok {
		return v
	}
	v := m.eval(t)
	m.memo[t.id] = v
	return v
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (m *Model) eval(t *Term) uint64 {
	k := mask(t.w)
	switch t.op {
	case OConst:
		return t.val
	case OVar, OApp:
		if v, ok := m.vals[t.id]; ok {
			return v
		}
		return m.get(t)
	case ONot:
		return 1 - m.Eval(t.args[0])
	case OAnd:
		return m.Eval(t.args[0]) & m.Eval(t.args[1])
	case OOr:
		return m.Eval(t.args[0]) | m.Eval(t.args[1])
	case OIte:
		if m.Eval(t.args[0]) != 0 {
			return m.Eval(t.args[1])
		}
		return m.Eval(t.args[2])
	}
	x := m.Eval(t.args[0])
	var y uint64
	if len(t.args) > 1 {
		y = m.Eval(t.args[1])
	}
	aw := t.args[0].w
	switch t.op {
	case OEq:
		return b2u(x == y)
	case OAdd:
		return (x + y) & k
	case OSub:
		return (x - y) & k
	case OMul:
		return (x * y) & k
	case OUDiv:
		if y == 0 {
			return k
		}
		return x / y
	case OURem:
		if y == 0 {
			return x
		}
		return x % y
	case OSDiv:
		a, b := sx(x, aw), sx(y, aw)
		if b == 0 {
			if a < 0 {
				return 1
			}
			return k
		}
		if b == -1 {
			return uint64(-a) & k
		}
		return uint64(a/b) & k
	case OSRem:
		a, b := sx(x, aw), sx(y, aw)
		if b == 0 {
			return x
		}
		if b == -1 {
			return 0
		}
		return uint64(a%b) & k
	case OBAnd:
		return x & y
	case OBOr:
		return x | y
	case OBXor:
		return x ^ y
	case OShl:
		if y >= uint64(aw) {
			return 0
		}
		return (x << y) & k
	case OLShr:
		if y >= uint64(aw) {
			return 0
		}
		return x >> y
	case OAShr:
		if y >= uint64(aw) {
			y = uint64(aw) - 1
		}
		return uint64(sx(x, aw)>>y) & k
	case OBNot:
		return ^x & k
	case ONeg:
		return (-x) & k
	case OUlt:
		return b2u(x < y)
	case OUle:
		return b2u(x <= y)
	case OSlt:
		return b2u(sx(x, aw) < sx(y, aw))
	case OSle:
		return b2u(sx(x, aw) <= sx(y, aw))
	case OZext:
		return x
	case OSext:
		return uint64(sx(x, aw)) & k
	case OExtract:
		return (x >> t.lo) & k
	case OConcat:
		return (x<<t.args[1].w | y) & k
	}
	panic("eval op")
}

func (t *Term) String() string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			return fmt.Sprint(t.val == 1)
		}
		return fmt.Sprintf("%d", t.val)
	case OVar:
		return t.name
	}
	if t.size > 60 {
		return fmt.Sprintf("<term %d size %d>", t.id, t.size)
	}
	names := map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OIte: "ite", OAdd: "+", OSub: "-", OMul: "*", OUDiv: "udiv", OSDiv: "sdiv", OURem: "urem", OSRem: "srem", OBAnd: "&", OBOr: "|", OBXor: "^", OShl: "<<", OLShr: ">>", OAShr: ">>a", OUlt: "<u", OUle: "<=u", OSlt: "<s", OSle: "<=s", OZext: "zext", OSext: "sext", OExtract: "extract", OConcat: "concat", OBNot: "~", ONeg: "neg"}
	s := "("
	if t.op == OApp {
		s += t.name
	} else {
		s += names[t.op]
	}
	if t.op == OExtract {
		s += fmt.Sprintf("[%d:%d]", t.hi, t.lo)
	}
	for _, a := range t.args {
		s += " " + a.String()
	}
	return s + ")"
}
