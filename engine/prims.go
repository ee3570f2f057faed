package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// primitives are the verification operations a harness may call. They are
// declared (with native bodies) in zz_verif_prims.go of the package under test.
var primitives map[string]intrinsic

func (p *Path) noteModel(name string) {
	p.models[name] = true
}

func sarg(p *Path, v value) string {
	s, ok := str(v)
	if !ok {
		p.unsupported("symbolic primitive name")
	}
	return s
}

func (p *Path) cint(v value, what string) int {
	t, ok := v.(*Term)
	if !ok || !t.isConst() {
		p.unsupported("symbolic bound in " + what)
	}
	return int(int64(sx(t.val, t.w)))
}

func (p *Path) newInput(name, kind string, w uint8, lo, hi uint64) *Term {
	n := p.freshName(name)
	if w > 0 && lo == hi {
		t := p.c.BV(w, lo)
		p.inputs = append(p.inputs, &Input{Name: n, Kind: kind, t: t, max: hi})
		return t
	}
	t := p.c.Var(w, n, lo, hi)
	p.inputs = append(p.inputs, &Input{Name: n, Kind: kind, t: t, max: hi})
	p.s.ref(t)
	return t
}

func (p *Path) newBytes(name string, lo, hi int) Slice {
	c := p.c
	n := p.freshName(name)
	in := &Input{Name: n, Kind: "bytes", fn: "in." + n, max: uint64(hi)}
	if lo == hi {
		in.t = c.Int(lo)
	} else {
		in.t = c.Var(64, n+".len", uint64(lo), uint64(hi))
		p.s.ref(in.t)
	}
	p.inputs = append(p.inputs, in)
	if hi <= 64 {
		e := make([]value, hi)
		for i := range e {
			e[i] = c.App(8, in.fn, c.Int(i))
		}
		return Slice{arr: &Arr{elems: e, w: 8}, of: c.Int(0), n: in.t, cap: in.t}
	}
	return Slice{arr: &Arr{bm: &BMem{kind: bmUF, w: 8, name: in.fn}, w: 8}, of: c.Int(0), n: in.t, cap: in.t}
}

func (p *Path) chosen(name string, n int) int {
	nm := p.freshName(name)
	k := p.choose(n, name)
	p.inputs = append(p.inputs, &Input{Name: nm, Kind: "choose", val: uint64(k)})
	return k
}

func init() {
	primitives = map[string]intrinsic{
		"vInt": simple(func(p *Path, a []value) value {
			lo, hi := p.cint(a[1], "vInt"), p.cint(a[2], "vInt")
			if lo < 0 {
				t := p.newInput(sarg(p, a[0]), "int", 64, 0, ^uint64(0))
				p.assume(p.c.And(p.c.Sle(p.c.Int(lo), t), p.c.Sle(t, p.c.Int(hi))))
				return t
			}
			return p.newInput(sarg(p, a[0]), "int", 64, uint64(lo), uint64(hi))
		}),
		"vU64": simple(func(p *Path, a []value) value { return p.newInput(sarg(p, a[0]), "int", 64, 0, ^uint64(0)) }),
		"vU32": simple(func(p *Path, a []value) value { return p.newInput(sarg(p, a[0]), "int", 32, 0, 0xffffffff) }),
		"vU8":  simple(func(p *Path, a []value) value { return p.newInput(sarg(p, a[0]), "int", 8, 0, 0xff) }),
		"vBool": simple(func(p *Path, a []value) value {
			return p.newInput(sarg(p, a[0]), "bool", 0, 0, 1)
		}),
		"vBytes": simple(func(p *Path, a []value) value {
			return p.newBytes(sarg(p, a[0]), p.cint(a[1], "vBytes"), p.cint(a[2], "vBytes"))
		}),
		"vChoose": simple(func(p *Path, a []value) value {
			return p.c.Int(p.chosen(sarg(p, a[0]), p.cint(a[1], "vChoose")))
		}),
		"vAssume": simple(func(p *Path, a []value) value { p.assume(a[0].(*Term)); return nil }),
		"vAssert": simple(func(p *Path, a []value) value { p.assert(a[0].(*Term), sarg(p, a[1])); return nil }),
		"vFail":   simple(func(p *Path, a []value) value { p.asserts++; p.violation(nil, sarg(p, a[0])); return nil }),
		"vSame":   simple(func(p *Path, a []value) value { return p.sameBytes(a[0].(Slice), a[1].(Slice)) }),
		"vAssertSame": simple(func(p *Path, a []value) value {
			p.assertSame(a[0].(Slice), a[1].(Slice), sarg(p, a[2]))
			return nil
		}),
		"vReach": simple(func(p *Path, a []value) value { p.reached[sarg(p, a[0])] = true; return nil }),
		"vObs": simple(func(p *Path, a []value) value {
			p.observe(sarg(p, a[0]), a[1].(Iface))
			return nil
		}),
		"vWait": simple(func(p *Path, a []value) value {
			if p.cur != p.mainG {
				p.unsupported("vWait outside the main goroutine")
			}
			if len(p.runq) == 0 {
				p.vcJoinAll()
				return nil
			}
			p.waitG = p.mainG
			p.park("vWait")
			p.vcJoinAll()
			return nil
		}),
		"vThorough": simple(func(p *Path, a []value) value { return p.c.Bool(p.x.tier == "thorough") }),
		"vNative":   simple(func(p *Path, a []value) value { return p.c.False }),
		"vBound": simple(func(p *Path, a []value) value {
			q, t := p.cint(a[1], "vBound"), p.cint(a[2], "vBound")
			v := q
			if p.x.tier == "thorough" {
				v = t
			}
			p.x.bound(sarg(p, a[0]), v)
			return p.c.Int(v)
		}),
		"vSched": simple(func(p *Path, a []value) value {
			n := p.cint(a[0], "vSched")
			p.schedOn = n >= 0
			if p.schedOn {
				p.schedUsed = true
				p.vcStart()
			}
			p.preempt = n
			p.timeEarly = p.cint(a[1], "vSched")
			p.fullSw = false
			return nil
		}),
		"vQuiet": simple(func(p *Path, a []value) value { return nil }),
		"vPreempt": simple(func(p *Path, a []value) value {
			p.preempt = p.cint(a[0], "vPreempt")
			return nil
		}),
		"vRace": simple(func(p *Path, a []value) value {
			p.raceOn = a[0].(*Term) == p.c.True
			return nil
		}),
		"vSchedFull": simple(func(p *Path, a []value) value {
			p.fullSw = a[0].(*Term) == p.c.True
			return nil
		}),
		"vMapOrder": simple(func(p *Path, a []value) value { p.mapOrder = a[0].(*Term) == p.c.True; return nil }),
		"vConcrete": simple(func(p *Path, a []value) value {
			t := a[0].(*Term)
			return p.c.BV(t.w, p.concretize(t, "vConcrete"))
		}),
		"vHash": simple(func(p *Path, a []value) value {
			return p.hashBytes(p.cint(a[0], "vHash"), a[1].(Slice))
		}),
		"vStdoutTake": simple(func(p *Path, a []value) value {
			o, ok := p.side["stdout"].(Slice)
			delete(p.side, "stdout")
			if !ok {
				return conc("")
			}
			return p.bytesToStr(o)
		}),
		"vAtomic": func(p *Path, fr *frame, fn *ssa.Function, a []value) (value, bool) {
			g := p.cur
			g.atomic++
			p.callValue(g, fr, a[0], nil)
			g.atomic--
			return nil, true
		},
		"vFreshBytes": simple(func(p *Path, a []value) value {
			n := a[1].(*Term)
			return Slice{arr: &Arr{bm: &BMem{kind: bmUF, w: 8, name: p.freshName("fresh." + sarg(p, a[0]))}, w: 8}, of: p.c.Int(0), n: n, cap: n}
		}),
		"vNowNS":      simple(func(p *Path, a []value) value { return p.nowTerm() }),
		"vGoroutines": simple(func(p *Path, a []value) value { return p.c.Int(len(p.gs)) }),
		"vTimers":     simple(func(p *Path, a []value) value { return p.c.Int(len(p.timerQ)) }),
		"vAsk": simple(func(p *Path, a []value) value {
			// is the condition possible / certain? used for vacuity only
			return p.c.Bool(p.possible(a[0].(*Term)))
		}),
		"vFieldPtr": func(p *Path, fr *frame, fn *ssa.Function, a []value) (value, bool) {
			return p.fieldPtr(a[0].(Iface), sarg(p, a[1])), true
		},
		"vUF": simple(func(p *Path, a []value) value {
			// uninterpreted function of a name and terms
			s := a[1].(Slice)
			var args []*Term
			n := p.cint(s.n, "vUF")
			for i := 0; i < n; i++ {
				args = append(args, p.arrRead(s.arr, p.c.Add(s.of, p.c.Int(i))).(*Term))
			}
			return p.c.App(64, "uf."+sarg(p, a[0]), args...)
		}),
		"vLog": simple(func(p *Path, a []value) value {
			if debugLog {
				fmt.Printf("vLog: %s now=%v g=%d %s\n", sarg(p, a[0]), p.now, p.cur.id, p.show(a[1].(Iface)))
			}
			return nil
		}),
		"vSkip": simple(func(p *Path, a []value) value {
			p.end(StInfeasible, "skip: "+sarg(p, a[0]))
			return nil
		}),
		"vInconclusive": simple(func(p *Path, a []value) value {
			p.end(StUnsupported, "harness: "+sarg(p, a[0]))
			return nil
		}),
	}
}

var debugLog bool

func (p *Path) show(v Iface) string {
	switch x := v.v.(type) {
	case *Term:
		return fmt.Sprint(x)
	case Str:
		if x.bm == nil {
			return x.s
		}
		return fmt.Sprintf("str(len %v)", x.n)
	case Slice:
		if b, ok := p.concBytesNoFork(x); ok {
			return fmt.Sprintf("%x", b)
		}
		return fmt.Sprintf("slice(len %v)", x.n)
	case *value:
		if x != nil {
			return fmt.Sprintf("&%T", *x)
		}
		return "nil"
	}
	return fmt.Sprintf("%T", v.v)
}

func (p *Path) concBytesNoFork(s Slice) ([]byte, bool) {
	if !s.n.isConst() || s.arr == nil || s.arr.elems == nil || !s.of.isConst() {
		return nil, false
	}
	var b []byte
	for i := uint64(0); i < s.n.val; i++ {
		t, ok := s.arr.elems[s.of.val+i].(*Term)
		if !ok || !t.isConst() {
			return nil, false
		}
		b = append(b, byte(t.val))
	}
	return b, true
}

func (p *Path) sameBytes(a, b Slice) *Term {
	if !a.n.isConst() && !b.n.isConst() && a.n != b.n {
		// lengths first, then content under the shorter description
		if !p.branch(p.c.Eq(a.n, b.n)) {
			return p.c.False
		}
	}
	m1, o1, n1 := p.sliceMem(a)
	m2, o2, n2 := p.sliceMem(b)
	return p.eqMem(m1, o1, n1, m2, o2, n2)
}

// assertSame asserts equality of two byte slices: lengths, then content at an
// arbitrary (skolem) index, so that long symbolic-length data needs one query.
func (p *Path) assertSame(a, b Slice, msg string) {
	c := p.c
	p.assert(c.Eq(a.n, b.n), msg+" (length)")
	n := a.n
	if b.n.isConst() {
		n = b.n
	}
	if n.isConst() && n.val == 0 {
		return
	}
	m1, o1, _ := p.sliceMem(a)
	m2, o2, _ := p.sliceMem(b)
	if n.isConst() && n.val <= 96 {
		p.assert(p.eqMem(m1, o1, n, m2, o2, n), msg+" (content)")
		return
	}
	if n.isConst() && n.val <= 6000 && p.eqMem(m1, o1, n, m2, o2, n) == c.True {
		return
	}
	k := c.Var(64, p.freshName("skolem"), 0, ^uint64(0))
	p.assert(c.Or(c.Ule(n, k), c.Eq(p.bmRead(m1, c.Add(o1, k)), p.bmRead(m2, c.Add(o2, k)))), msg+" (content)")
}

func (p *Path) observe(name string, v Iface) {
	switch x := v.v.(type) {
	case *Term:
		p.obs = append(p.obs, Obs{name: name, t: []*Term{x}})
	case Str:
		if x.bm == nil && !strings.Contains(x.s, symText) {
			p.obs = append(p.obs, Obs{name: name, s: x.s, isS: true})
		}
	case Slice:
		if x.arr == nil {
			p.obs = append(p.obs, Obs{name: name})
			return
		}
		n := x.n
		p.obs = append(p.obs, Obs{name: name + ".len", t: []*Term{n}})
		if n.isConst() && n.val <= 64 {
			var ts []*Term
			for i := uint64(0); i < n.val; i++ {
				t, ok := p.arrRead(x.arr, p.c.Add(x.of, p.c.BV(64, i))).(*Term)
				if !ok {
					return
				}
				ts = append(ts, t)
			}
			p.obs = append(p.obs, Obs{name: name, t: ts})
		}
	}
}

// fieldPtr resolves a dotted field path from a pointer to a struct, following
// pointers; the result is a pointer to the field, boxed.
func (p *Path) fieldPtr(o Iface, path string) Iface {
	t := o.t
	v := o.v
	for _, name := range strings.Split(path, ".") {
		pt, ok := t.Underlying().(*types.Pointer)
		if !ok {
			p.end(StUnsupported, "harness: no field "+path)
		}
		st, ok := pt.Elem().Underlying().(*types.Struct)
		if !ok {
			// pointer to pointer
			if pp, ok2 := pt.Elem().Underlying().(*types.Pointer); ok2 {
				v = p.load(v)
				t = pt.Elem()
				st, ok = pp.Elem().Underlying().(*types.Struct)
				pt = pp
			}
			if !ok {
				p.end(StUnsupported, "harness: no field "+path)
			}
		}
		cell, ok := v.(*value)
		if !ok || cell == nil {
			p.end(StUnsupported, "harness: nil pointer on field path "+path)
		}
		found := false
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				sv := (*cell).(StructV)
				v = &sv[i]
				t = types.NewPointer(st.Field(i).Type())
				found = true
				break
			}
		}
		if !found {
			p.end(StUnsupported, "harness: no field "+name+" in "+pt.Elem().String())
		}
	}
	return Iface{t, v}
}
