package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type value interface{}

type StructV []value
type ArrV []value
type TupleV []value

// Opaque is a value the engine does not model precisely (formatted symbolic
// floats and the like).
type Opaque struct{ what string }

// Str is a Go string.
type Str struct {
	s  string
	bm *BMem // non-nil: symbolic
	of *Term
	n  *Term
}

// Arr is the backing store of slices.
type Arr struct {
	elems []value // dense
	bm    *BMem   // sparse scalar memory
	w     uint8   // scalar width for sparse
}

// Slice is a slice header. arr==nil is the nil slice.
type Slice struct {
	arr        *Arr
	of, n, cap *Term
}

// ElemPtr points to a scalar element with symbolic index or in sparse memory.
type ElemPtr struct {
	arr *Arr
	idx *Term
}

// Iface is an interface value; t==nil is nil.
type Iface struct {
	t types.Type
	v value
}

type Closure struct {
	fn  *ssa.Function
	env []value
}

type mapEntry struct {
	k, v value
	dead bool
}

type MapV struct {
	kt      types.Type
	entries []*mapEntry
	index   map[interface{}]*mapEntry // concrete keys
	allConc bool
	n       int
	acc     mapAcc
}

// ---- sparse memory ----

type bmKind uint8

const (
	bmZero bmKind = iota
	bmUF
	bmDense
	bmStore
	bmCopy
)

type BMem struct {
	kind   bmKind
	w      uint8
	name   string
	dense  []*Term
	prev   *BMem
	idx    *Term
	val    *Term
	dst    *Term
	src    *BMem
	srcOff *Term
	n      *Term
	memo   map[int]*Term
}

func (p *Path) bmRead(m *BMem, i *Term) *Term {
	if i.isConst() {
		// past the stores at other known places
		for m.kind == bmStore && m.idx.isConst() {
			if m.idx.val == i.val {
				return m.val
			}
			m = m.prev
		}
	}
	switch m.kind {
	case bmZero:
		return p.c.BV(m.w, 0)
	case bmUF:
		return p.c.App(m.w, m.name, i)
	}
	if m.memo == nil {
		m.memo = map[int]*Term{}
	} else if t, ok := m.memo[i.id]; ok {
		return t
	}
	c := p.c
	var r *Term
	switch m.kind {
	case bmDense:
		r = p.denseRead(len(m.dense), func(k int) *Term { return m.dense[k] }, i, m.w)
	case bmStore:
		r = c.Ite(c.Eq(i, m.idx), m.val, nil2(func() *Term { return p.bmRead(m.prev, i) }, c.Eq(i, m.idx), m.val))
	case bmCopy:
		rel := c.Sub(i, m.dst)
		cond := c.Ult(rel, m.n)
		if cond == c.True {
			r = p.bmRead(m.src, c.Add(rel, m.srcOff))
		} else if cond == c.False {
			r = p.bmRead(m.prev, i)
		} else {
			r = c.Ite(cond, p.bmRead(m.src, c.Add(rel, m.srcOff)), p.bmRead(m.prev, i))
		}
	}
	m.memo[i.id] = r
	return r
}

// nil2 avoids evaluating the else branch when the condition is constant true.
func nil2(f func() *Term, cond, v *Term) *Term {
	if cond.isConst() && cond.val == 1 {
		return v
	}
	return f()
}

func (p *Path) denseRead(n int, at func(int) *Term, i *Term, w uint8) *Term {
	c := p.c
	if i.isConst() {
		if i.val < uint64(n) {
			return at(int(i.val))
		}
		return c.BV(w, 0)
	}
	lo, hi := i.umin, i.umax
	if hi >= uint64(n) {
		hi = uint64(n) - 1
	}
	if n == 0 || lo > hi {
		return c.BV(w, 0)
	}
	r := at(int(hi))
	for k := int64(hi) - 1; k >= int64(lo); k-- {
		r = c.Ite(c.Eq(i, c.BV(64, uint64(k))), at(int(k)), r)
	}
	return r
}

// snapshot returns an immutable view of the array contents as sparse memory.
func (p *Path) snapshot(a *Arr) *BMem {
	if a.bm != nil {
		return a.bm
	}
	d := make([]*Term, len(a.elems))
	w := uint8(8)
	for i, e := range a.elems {
		t, ok := e.(*Term)
		if !ok {
			p.unsupported("snapshot of non-scalar array")
		}
		d[i] = t
		w = t.w
	}
	return &BMem{kind: bmDense, w: w, dense: d}
}

func (p *Path) arrRead(a *Arr, i *Term) value {
	if a.bm != nil {
		return p.bmRead(a.bm, i)
	}
	if i.isConst() {
		if i.val >= uint64(len(a.elems)) {
			panic(fmt.Sprintf("engine: arrRead %d of %d", i.val, len(a.elems)))
		}
		return a.elems[i.val]
	}
	if len(a.elems) > 0 {
		if t, ok := a.elems[0].(*Term); ok {
			return p.denseRead(len(a.elems), func(k int) *Term { return a.elems[k].(*Term) }, i, t.w)
		}
	}
	k := p.concretize(i, "array index")
	return a.elems[k]
}

func (p *Path) arrWrite(a *Arr, i *Term, v value) {
	if a.bm != nil {
		a.bm = &BMem{kind: bmStore, w: a.bm.w, prev: a.bm, idx: i, val: v.(*Term)}
		return
	}
	if i.isConst() {
		a.elems[i.val] = v
		return
	}
	if len(a.elems) > 0 {
		if _, ok := a.elems[0].(*Term); ok {
			lo, hi := i.umin, i.umax
			if hi >= uint64(len(a.elems)) {
				hi = uint64(len(a.elems)) - 1
			}
			for k := lo; k <= hi; k++ {
				a.elems[k] = p.c.Ite(p.c.Eq(i, p.c.BV(64, k)), v.(*Term), a.elems[k].(*Term))
			}
			return
		}
	}
	k := p.concretize(i, "array index")
	a.elems[k] = v
}

const denseLimit = 2048

// newByteArr makes a zeroed scalar array of n elements.
func (p *Path) newScalarArr(n *Term, w uint8) *Arr {
	if n.isConst() && n.val <= denseLimit {
		e := make([]value, n.val)
		z := p.c.BV(w, 0)
		for i := range e {
			e[i] = z
		}
		return &Arr{elems: e, w: w}
	}
	return &Arr{bm: &BMem{kind: bmZero, w: w}, w: w}
}

// copyElems copies n elements src[so..] to dst[do..]; handles overlap through
// snapshots.
func (p *Path) copyElems(dst *Arr, do *Term, src *BMem, srcArr *Arr, so, n *Term) {
	if n.isConst() && n.val == 0 {
		return
	}
	if n.isConst() && do.isConst() && dst.bm == nil {
		k := int(n.val)
		tmp := make([]value, k)
		for i := 0; i < k; i++ {
			idx := p.c.Add(so, p.c.Int(i))
			if srcArr != nil {
				tmp[i] = copyVal(p.arrRead(srcArr, idx))
			} else {
				tmp[i] = p.bmRead(src, idx)
			}
		}
		copy(dst.elems[do.val:], tmp)
		return
	}
	if srcArr != nil {
		if srcArr.bm == nil && len(srcArr.elems) > 0 {
			if _, ok := srcArr.elems[0].(*Term); !ok {
				p.unsupported("symbolic copy of non-scalars")
			}
		}
		src = p.snapshot(srcArr)
	}
	if dst.bm != nil {
		// small constant copies into sparse memory become a copy node as well
		dst.bm = &BMem{kind: bmCopy, w: dst.bm.w, prev: dst.bm, dst: do, src: src, srcOff: so, n: n}
		return
	}
	// dense destination, symbolic extent
	for k := range dst.elems {
		rel := p.c.Sub(p.c.Int(k), do)
		cond := p.c.Ult(rel, n)
		if cond == p.c.False {
			continue
		}
		nv := p.bmRead(src, p.c.Add(rel, so))
		dst.elems[k] = p.c.Ite(cond, nv, dst.elems[k].(*Term))
	}
}

// ---- strings ----

func conc(s string) Str { return Str{s: s} }

func (p *Path) strLen(s Str) *Term {
	if s.bm != nil {
		return s.n
	}
	return p.c.Int(len(s.s))
}

func (p *Path) strAt(s Str, i *Term) *Term {
	if s.bm != nil {
		return p.bmRead(s.bm, p.c.Add(s.of, i))
	}
	if i.isConst() {
		return p.c.BV(8, uint64(s.s[i.val]))
	}
	return p.denseRead(len(s.s), func(k int) *Term { return p.c.BV(8, uint64(s.s[k])) }, i, 8)
}

// strMem gives (mem, off, len) for any string.
func (p *Path) strMem(s Str) (*BMem, *Term, *Term) {
	if s.bm != nil {
		return s.bm, s.of, s.n
	}
	d := make([]*Term, len(s.s))
	for i := range d {
		d[i] = p.c.BV(8, uint64(s.s[i]))
	}
	return &BMem{kind: bmDense, w: 8, dense: d}, p.c.Int(0), p.c.Int(len(s.s))
}

// mkStr builds a string from memory, concretely when possible.
func (p *Path) mkStr(m *BMem, of, n *Term) Str {
	if n.isConst() && n.val <= 4*denseLimit {
		var sb strings.Builder
		ok := true
		ts := make([]*Term, n.val)
		for i := range ts {
			t := p.bmRead(m, p.c.Add(of, p.c.Int(i)))
			ts[i] = t
			if !t.isConst() {
				ok = false
			} else if ok {
				sb.WriteByte(byte(t.val))
			}
		}
		if ok {
			return conc(sb.String())
		}
		return Str{bm: &BMem{kind: bmDense, w: 8, dense: ts}, of: p.c.Int(0), n: n}
	}
	return Str{bm: m, of: of, n: n}
}

func (p *Path) sliceMem(s Slice) (*BMem, *Term, *Term) {
	if s.arr == nil {
		return &BMem{kind: bmZero, w: 8}, p.c.Int(0), p.c.Int(0)
	}
	return p.snapshot(s.arr), s.of, s.n
}

func (p *Path) bytesToStr(s Slice) Str {
	if s.arr == nil {
		return conc("")
	}
	if s.arr.bm == nil && s.n.isConst() && s.of.isConst() {
		// fast path
		b := make([]byte, s.n.val)
		ok := true
		for i := range b {
			t := s.arr.elems[int(s.of.val)+i].(*Term)
			if !t.isConst() {
				ok = false
				break
			}
			b[i] = byte(t.val)
		}
		if ok {
			return conc(string(b))
		}
	}
	m, o, n := p.sliceMem(s)
	return p.mkStr(m, o, n)
}

func (p *Path) bytesOf(b []byte) Slice {
	e := make([]value, len(b))
	for i := range e {
		e[i] = p.c.BV(8, uint64(b[i]))
	}
	n := p.c.Int(len(b))
	return Slice{arr: &Arr{elems: e, w: 8}, of: p.c.Int(0), n: n, cap: n}
}

func (p *Path) strToBytes(s Str) Slice {
	if s.bm == nil {
		if len(s.s) <= denseLimit {
			return p.bytesOf([]byte(s.s))
		}
	}
	m, o, n := p.strMem(s)
	return p.memSlice(m, o, n)
}

// memSlice makes a fresh byte slice holding a copy of the view.
func (p *Path) memSlice(m *BMem, o, n *Term) Slice {
	a := p.newScalarArr(n, m.w)
	p.copyElems(a, p.c.Int(0), m, nil, o, n)
	return Slice{arr: a, of: p.c.Int(0), n: n, cap: n}
}

// concBytes returns the concrete content of a byte slice if it is concrete.
func (p *Path) concBytes(s Slice) ([]byte, bool) {
	st := p.bytesToStr(s)
	if st.bm != nil {
		return nil, false
	}
	return []byte(st.s), true
}

// eqMem is the condition that two views have equal length and content. At
// least one length must be concrete (or the views identical).
func (p *Path) eqMem(m1 *BMem, o1, n1 *Term, m2 *BMem, o2, n2 *Term) *Term {
	c := p.c
	if n1 == n2 && m1 == m2 && o1 == o2 {
		return c.True
	}
	r := c.Eq(n1, n2)
	if r == c.False {
		return r
	}
	n := n1
	if !n.isConst() {
		n = n2
	}
	if !n.isConst() {
		// both symbolic: identical after resolution?
		a, ao := p.resolveView(m1, o1, n1)
		b, bo := p.resolveView(m2, o2, n2)
		if a == b && ao == bo {
			return r
		}
		hi := n1.umax
		if n2.umax < hi {
			hi = n2.umax
		}
		if hi > 256 {
			p.unsupported("comparison of two long symbolic-length byte sequences")
		}
		for i := uint64(0); i < hi; i++ {
			it := c.BV(64, i)
			e := c.Eq(p.bmRead(m1, c.Add(o1, it)), p.bmRead(m2, c.Add(o2, it)))
			r = c.And(r, c.Or(c.Ule(n1, it), e))
		}
		return r
	}
	for i := uint64(0); i < n.val; i++ {
		it := c.BV(64, i)
		r = c.And(r, c.Eq(p.bmRead(m1, c.Add(o1, it)), p.bmRead(m2, c.Add(o2, it))))
		if r == c.False {
			return r
		}
	}
	return r
}

// resolveView strips copy layers that provably cover the view.
func (p *Path) resolveView(m *BMem, o, n *Term) (*BMem, *Term) {
	c := p.c
	for {
		switch m.kind {
		case bmCopy:
			rel := c.Sub(o, m.dst)
			// covers: rel <= n_copy and n <= n_copy - rel
			in := c.And(c.Ule(rel, m.n), c.Ule(n, c.Sub(m.n, rel)))
			if p.valid(in) {
				o = c.Add(rel, m.srcOff)
				m = m.src
				continue
			}
			// disjoint: view entirely outside [dst, dst+n)
			end := c.Add(o, n)
			cend := c.Add(m.dst, m.n)
			out := c.Or(c.Ule(end, m.dst), c.Ule(cend, o))
			if p.valid(out) {
				m = m.prev
				continue
			}
		case bmStore:
			out := c.Not(c.Ult(c.Sub(m.idx, o), n))
			if p.valid(out) {
				m = m.prev
				continue
			}
		}
		return m, o
	}
}

func (p *Path) strEq(a, b Str) *Term {
	if a.bm == nil && b.bm == nil {
		return p.c.Bool(a.s == b.s)
	}
	m1, o1, n1 := p.strMem(a)
	m2, o2, n2 := p.strMem(b)
	return p.eqMem(m1, o1, n1, m2, o2, n2)
}

// ---- zero values and copies ----

func (p *Path) zero(t types.Type) value {
	switch t := t.Underlying().(type) {
	case *types.Basic:
		if t.Kind() == types.UntypedNil {
			return (*value)(nil)
		}
		if t.Info()&types.IsBoolean != 0 {
			return p.c.False
		}
		if t.Info()&types.IsInteger != 0 {
			return p.c.BV(basicWidth(t), 0)
		}
		if t.Info()&types.IsFloat != 0 {
			return float64(0)
		}
		if t.Info()&types.IsString != 0 {
			return Str{}
		}
		if t.Kind() == types.UnsafePointer {
			return (*value)(nil)
		}
		if t.Info()&types.IsComplex != 0 {
			return complex(0, 0)
		}
	case *types.Pointer:
		return (*value)(nil)
	case *types.Array:
		n := int(t.Len())
		if n > 1<<20 {
			p.unsupported("huge array")
		}
		a := make(ArrV, n)
		for i := range a {
			a[i] = p.zero(t.Elem())
		}
		return a
	case *types.Struct:
		s := make(StructV, t.NumFields())
		for i := range s {
			s[i] = p.zero(t.Field(i).Type())
		}
		return s
	case *types.Slice:
		z := p.c.Int(0)
		return Slice{of: z, n: z, cap: z}
	case *types.Map:
		return (*MapV)(nil)
	case *types.Chan:
		return (*ChanV)(nil)
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Tuple:
		r := make(TupleV, t.Len())
		for i := range r {
			r[i] = p.zero(t.At(i).Type())
		}
		return r
	case *types.TypeParam:
		p.unsupported("type parameter zero")
	}
	panic(fmt.Sprintf("zero: %v", t))
}

func copyVal(v value) value {
	switch v := v.(type) {
	case StructV:
		r := make(StructV, len(v))
		for i := range v {
			r[i] = copyVal(v[i])
		}
		return r
	case ArrV:
		r := make(ArrV, len(v))
		for i := range v {
			r[i] = copyVal(v[i])
		}
		return r
	}
	return v
}

func basicWidth(t *types.Basic) uint8 {
	switch t.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32, types.UntypedRune:
		return 32
	case types.Bool, types.UntypedBool:
		return 0
	}
	return 64
}

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned == 0
}

func isByteLike(t types.Type) (uint8, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0, false
	}
	if b.Info()&types.IsInteger != 0 {
		return basicWidth(b), true
	}
	return 0, false
}

// ---- equality ----

func (p *Path) equal(t types.Type, a, b value) *Term {
	c := p.c
	switch x := a.(type) {
	case *Term:
		return c.Eq(x, b.(*Term))
	case float64:
		y, ok := b.(float64)
		if !ok {
			p.unsupported("compare opaque float")
		}
		return c.Bool(x == y)
	case Str:
		return p.strEq(x, b.(Str))
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			return c.False
		}
		if x.t == nil || y.t == nil {
			return c.Bool(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return c.False
		}
		if !types.Comparable(x.t) {
			p.goPanicStr("runtime error: comparing uncomparable type " + x.t.String())
		}
		return p.equal(x.t, x.v, y.v)
	case StructV:
		st := t.Underlying().(*types.Struct)
		y := b.(StructV)
		r := c.True
		for i := range x {
			if st.Field(i).Name() == "_" {
				continue
			}
			r = c.And(r, p.equal(st.Field(i).Type(), x[i], y[i]))
		}
		return r
	case ArrV:
		at := t.Underlying().(*types.Array)
		y := b.(ArrV)
		r := c.True
		for i := range x {
			r = c.And(r, p.equal(at.Elem(), x[i], y[i]))
		}
		return r
	case *value:
		switch y := b.(type) {
		case *value:
			return c.Bool(x == y)
		case *ElemPtr:
			return c.False
		}
	case *ElemPtr:
		y, ok := b.(*ElemPtr)
		if !ok || x.arr != y.arr {
			return c.False
		}
		return c.Eq(x.idx, y.idx)
	case *MapV:
		return c.Bool(x == b.(*MapV))
	case *ChanV:
		return c.Bool(x == b.(*ChanV))
	case *Closure:
		y, ok := b.(*Closure)
		if !ok {
			return c.False
		}
		return c.Bool(x == y)
	case Slice: // only nil comparison
		y := b.(Slice)
		return c.Bool(x.arr == nil && y.arr == nil)
	case *ssa.Builtin:
		return c.False
	case Opaque:
		p.unsupported("compare opaque")
	case nil:
		return c.Bool(b == nil)
	}
	if f, ok := a.(*ssa.Function); ok {
		g, ok := b.(*ssa.Function)
		return c.Bool(ok && f == g)
	}
	p.unsupported(fmt.Sprintf("equal %T %T", a, b))
	return nil
}

// ---- maps ----

// concKey returns a comparable host key for fully concrete keys.
func concKey(v value) (interface{}, bool) {
	switch v := v.(type) {
	case *Term:
		if v.isConst() {
			return v.val, true
		}
	case Str:
		if v.bm == nil {
			return v.s, true
		}
	case *value:
		return v, true
	case float64:
		return v, true
	case *ChanV:
		return v, true
	case Iface:
		if v.t == nil {
			return "nil-iface", true
		}
		if k, ok := concKey(v.v); ok {
			return [2]interface{}{v.t.String(), k}, true
		}
	case StructV:
		s := ""
		for _, e := range v {
			k, ok := concKey(e)
			if !ok {
				return nil, false
			}
			s += fmt.Sprintf("%v|", k)
		}
		return s, true
	case ArrV:
		s := ""
		for _, e := range v {
			k, ok := concKey(e)
			if !ok {
				return nil, false
			}
			s += fmt.Sprintf("%v|", k)
		}
		return s, true
	}
	return nil, false
}

func newMap(kt types.Type) *MapV {
	return &MapV{kt: kt, index: map[interface{}]*mapEntry{}, allConc: true}
}

func (p *Path) mapFind(m *MapV, k value) *mapEntry {
	if m == nil {
		return nil
	}
	hk, ok := concKey(k)
	if ok {
		if e := m.index[hk]; e != nil {
			return e
		}
		if m.allConc {
			return nil
		}
	}
	for _, e := range m.entries {
		if e.dead {
			continue
		}
		if ok {
			if _, ec := concKey(e.k); ec {
				continue // concrete keys already looked up
			}
		}
		if p.branch(p.equal(m.kt, e.k, k)) {
			return e
		}
	}
	return nil
}

func (p *Path) mapSet(m *MapV, k, v value) {
	if e := p.mapFind(m, k); e != nil {
		e.v = v
		return
	}
	e := &mapEntry{k: k, v: v}
	if hk, ok := concKey(k); ok {
		m.index[hk] = e
	} else {
		m.allConc = false
	}
	m.entries = append(m.entries, e)
	m.n++
}

func (p *Path) mapDelete(m *MapV, k value) {
	e := p.mapFind(m, k)
	if e == nil {
		return
	}
	e.dead = true
	if hk, ok := concKey(e.k); ok {
		delete(m.index, hk)
	}
	m.n--
	if len(m.entries) > 64 && m.n*2 < len(m.entries) {
		var ne []*mapEntry
		for _, x := range m.entries {
			if !x.dead {
				ne = append(ne, x)
			}
		}
		m.entries = ne
	}
}
