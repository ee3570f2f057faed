package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"
)

// Happens-before tracking (vector clocks), active while schedules are explored
// (vSched). It serves to find unsynchronised accesses to maps, which the Go
// runtime turns into a fatal error. Everything before the exploration starts
// happens before everything in it.

type vclock []uint32

// vcRec is a clock remembered by a synchronisation object.
type vcRec struct {
	ep int
	v  vclock
}

func (v *vclock) join(o vclock) {
	for len(*v) < len(o) {
		*v = append(*v, 0)
	}
	for i, x := range o {
		if (*v)[i] < x {
			(*v)[i] = x
		}
	}
}

// vcOf is the goroutine's clock in the current exploration.
func (p *Path) vcOf(g *G) *vclock {
	if g.vcEp != p.vcEp {
		g.vcEp = p.vcEp
		g.vi = p.vcN
		p.vcN++
		g.vc = make(vclock, g.vi+1)
		g.vc[g.vi] = 1
	}
	return &g.vc
}

func (p *Path) tracking() bool { return p.schedOn && p.cur != nil }

// vcStart begins a new exploration.
func (p *Path) vcStart() {
	p.vcEp++
	p.vcN = 0
	p.vcDone = nil
	p.vcAtom = nil
}

// netHB: the current goroutine is in the model of the network, whose locks and
// channels order nothing in a program that uses a real one.
func (p *Path) netHB() bool {
	if !p.raceOn || p.cur == nil {
		return false
	}
	fs := p.cur.frames
	for i := len(fs) - 1; i >= 0 && i >= len(fs)-4; i-- {
		if fs[i].info.net {
			return true
		}
		if !fs[i].info.harn {
			break
		}
	}
	return false
}

// release records the current goroutine's clock in r (joining).
func (p *Path) release(r *vcRec) {
	if !p.tracking() {
		return
	}
	v := p.vcOf(p.cur)
	if r.ep != p.vcEp {
		r.ep, r.v = p.vcEp, nil
	}
	if p.netHB() {
		return
	}
	r.v.join(*v)
	(*v)[p.cur.vi]++
}

// snapshot is the current goroutine's clock.
func (p *Path) vcSnap() (r vcRec) {
	p.release(&r)
	return
}

// acquire orders what r recorded before the current goroutine.
func (p *Path) acquire(r vcRec) {
	if !p.netHB() {
		p.acquireFor(p.cur, r)
	}
}

func (p *Path) acquireFor(g *G, r vcRec) {
	if !p.tracking() || r.ep != p.vcEp {
		return
	}
	p.vcOf(g).join(r.v)
}

func (p *Path) atomVC(key interface{}) *vcRec {
	if p.vcAtom == nil {
		p.vcAtom = map[interface{}]*vcRec{}
	}
	if c, ok := key.(*ElemPtr); ok {
		key = c.arr
	}
	if _, ok := key.(*value); !ok {
		key = "any"
	}
	r := p.vcAtom[key]
	if r == nil {
		r = &vcRec{}
		p.vcAtom[key] = r
	}
	return r
}

// atomic is an access to a synchronisation variable.
func (p *Path) atomicVC(key value) {
	if !p.tracking() {
		return
	}
	r := p.atomVC(key)
	p.acquire(*r)
	p.release(r)
}

// vcJoinAll orders everything done so far before the current goroutine.
func (p *Path) vcJoinAll() {
	if !p.tracking() || p.raceOn {
		return
	}
	v := p.vcOf(p.cur)
	v.join(p.vcDone)
	for _, g := range p.gs {
		if g != p.cur && g.vcEp == p.vcEp {
			v.join(g.vc)
			g.vc[g.vi]++
		}
	}
}

type mapAcc struct {
	ep    int
	wg    int // index of the last writer, -1 none
	wc    uint32
	wpos  string
	reads map[int]mapRd
}

type mapRd struct {
	c   uint32
	pos string
}

// mapAccess is an access to a map by code of the repository.
func (p *Path) mapAccess(m *MapV, write bool) {
	if m == nil || !p.tracking() {
		return
	}
	if write && p.raceOn {
		p.raceAccess(mapLenKey{m}, true)
	}
	a := &m.acc
	if a.ep != p.vcEp {
		*a = mapAcc{ep: p.vcEp, wg: -1}
	}
	v := *p.vcOf(p.cur)
	me := p.cur.vi
	at := func(i int) uint32 {
		if i < len(v) {
			return v[i]
		}
		return 0
	}
	pos := p.cur.stackStr(1)
	if a.wg >= 0 && a.wg != me && at(a.wg) < a.wc {
		what := "concurrent map read and map write"
		if write {
			what = "concurrent map writes"
		}
		p.fatal(fmt.Sprintf("%s (%s, unsynchronised with %s)", what, pos, a.wpos))
	}
	if write {
		for i, r := range a.reads {
			if i != me && at(i) < r.c {
				p.fatal(fmt.Sprintf("concurrent map read and map write (%s, unsynchronised with %s)", pos, r.pos))
			}
		}
		a.wg, a.wc, a.wpos = me, v[me], pos
		a.reads = nil
		return
	}
	if a.reads == nil {
		a.reads = map[int]mapRd{}
	}
	a.reads[me] = mapRd{v[me], pos}
}

// elemKey is an element of an array of scalars.
type elemKey struct {
	a *Arr
	i uint64
}

// mapLenKey is the number of elements of a map.
type mapLenKey struct{ m *MapV }

// memAccess is an access to memory by code that is not the harness's.
func (p *Path) memAccess(fr *frame, addr value, write bool) {
	if !p.raceOn || !p.tracking() || fr.info.harn {
		return
	}
	switch a := addr.(type) {
	case *value:
		p.cellAccess(a, write)
	case *ElemPtr:
		if a.idx.isConst() {
			p.raceAccess(elemKey{a.arr, a.idx.val}, write)
		}
	}
}

// rangeAccess is an access to (the first) elements of an array.
func (p *Path) rangeAccess(a *Arr, o, n *Term, write bool) {
	if a == nil || a.bm != nil || !p.raceOn || !p.tracking() || !o.isConst() || !n.isConst() {
		return
	}
	fs := p.cur.frames
	if len(fs) == 0 || fs[len(fs)-1].info.harn {
		return
	}
	for i := o.val; i < o.val+n.val && i < o.val+128 && i < uint64(len(a.elems)); i++ {
		p.cellAccess(&a.elems[i], write)
	}
}

func (p *Path) cellAccess(a *value, write bool) {
	if a == nil {
		return
	}
	switch v := (*a).(type) {
	case StructV:
		for i := range v {
			p.cellAccess(&v[i], write)
		}
		return
	case ArrV:
		if len(v) <= 64 {
			for i := range v {
				p.cellAccess(&v[i], write)
			}
		}
		return
	}
	p.raceAccess(a, write)
}

func (p *Path) raceAccess(key interface{}, write bool) {
	if p.shadow == nil || p.shadowEp != p.vcEp {
		p.shadow, p.shadowEp = map[interface{}]*mapAcc{}, p.vcEp
	}
	v := *p.vcOf(p.cur)
	me := p.cur.vi
	a := p.shadow[key]
	if a == nil {
		a = &mapAcc{ep: p.vcEp, wg: -1}
		p.shadow[key] = a
	}
	if a.wg == me && a.wc == v[me] && !write {
		return
	}
	at := func(i int) uint32 {
		if i < len(v) {
			return v[i]
		}
		return 0
	}
	pos := p.cur.racePos()
	what := "read"
	if write {
		what = "write"
	}
	if a.wg >= 0 && a.wg != me && at(a.wg) < a.wc {
		p.race(fmt.Sprintf("data race: %s at %s, unsynchronised with write at %s", what, pos, a.wpos))
	}
	if write {
		for i, r := range a.reads {
			if i != me && at(i) < r.c {
				p.race(fmt.Sprintf("data race: write at %s, unsynchronised with read at %s", pos, r.pos))
			}
		}
		a.wg, a.wc, a.wpos = me, v[me], pos
		a.reads = nil
		return
	}
	if a.reads == nil {
		a.reads = map[int]mapRd{}
	}
	a.reads[me] = mapRd{v[me], pos}
}

var raceSeen sync.Map

func (p *Path) race(msg string) {
	if os.Getenv("VT_RACES") != "" {
		if _, old := raceSeen.LoadOrStore(msg, true); !old {
			fmt.Println("RACE", msg)
		}
		return
	}
	p.violation(nil, msg)
}

// racePos tells where the goroutine is: the innermost function and, when that
// is not the repository's, the repository's that called it.
func (g *G) racePos() string {
	s := ""
	for i := len(g.frames) - 1; i >= 0; i-- {
		fr := g.frames[i]
		ps := fr.p.prog.fset.Position(fr.curPos)
		if s != "" {
			s += " < "
		}
		s += fmt.Sprintf("%s(%s:%d)", strings.ReplaceAll(fr.fn.String(), repoModule, "tru"), filepath.Base(ps.Filename), ps.Line)
		if fr.info.local {
			break
		}
	}
	return s
}
