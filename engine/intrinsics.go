package main

import (
	"bytes"
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"fmt"
	"go/types"
	"hash/fnv"
	"math"
	"math/bits"
	"net"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// intrinsic replaces the body of a function. ok=false falls back to
// interpreting the body.
type intrinsic func(p *Path, fr *frame, fn *ssa.Function, args []value) (value, bool)

const unixBase = 946684800 * 1000000000 // 2000-01-01, the start of a synctest bubble

func lookupIntrinsic(name string, fn *ssa.Function) intrinsic {
	if f, ok := intrinsics[name]; ok {
		return f
	}
	if fn.Synthetic == "package initializer" {
		return func(p *Path, fr *frame, fn *ssa.Function, args []value) (value, bool) {
			if p.prog.fullInit(fn.Pkg) {
				p.initPkg(fn.Pkg)
			}
			return nil, true
		}
	}
	if strings.HasPrefix(name, "sync/atomic.") {
		return atomicIntr(strings.TrimPrefix(name, "sync/atomic."))
	}
	if strings.HasPrefix(name, "internal/runtime/atomic.") && fn.Blocks == nil {
		return atomicIntr(strings.TrimPrefix(name, "internal/runtime/atomic."))
	}
	if strings.HasPrefix(name, repoModule) && fn.Parent() == nil && fn.Signature.Recv() == nil {
		base := name[strings.LastIndexByte(name, '.')+1:]
		if f, ok := primitives[base]; ok {
			return f
		}
	}
	if strings.HasPrefix(name, "(time.Time).") || strings.HasPrefix(name, "(*time.Time).") {
		return func(p *Path, fr *frame, fn *ssa.Function, args []value) (value, bool) {
			p.unsupported("time method " + name)
			return nil, true
		}
	}
	return nil
}

func atomicIntr(op string) intrinsic {
	// only the plain functions; methods are interpreted down to these
	pre := func(s string) bool { return strings.HasPrefix(op, s) }
	switch {
	case pre("Load"):
		return func(p *Path, fr *frame, fn *ssa.Function, args []value) (value, bool) {
			p.preemptPoint("atomic")
			p.atomicVC(args[0])
			return p.load(args[0]), true
		}
	case pre("Store"):
		return func(p *Path, fr *frame, fn *ssa.Function, args []value) (value, bool) {
			p.preemptPoint("atomic")
			p.atomicVC(args[0])
			p.store(args[0], args[1])
			return nil, true
		}
	case pre("Add"):
		return func(p *Path, fr *frame, fn *ssa.Function, args []value) (value, bool) {
			p.preemptPoint("atomic")
			p.atomicVC(args[0])
			v := p.c.Add(p.load(args[0]).(*Term), args[1].(*Term))
			p.store(args[0], v)
			return v, true
		}
	case pre("Swap"):
		return func(p *Path, fr *frame, fn *ssa.Function, args []value) (value, bool) {
			p.preemptPoint("atomic")
			p.atomicVC(args[0])
			v := p.load(args[0])
			p.store(args[0], args[1])
			return v, true
		}
	case pre("CompareAndSwap"):
		return func(p *Path, fr *frame, fn *ssa.Function, args []value) (value, bool) {
			p.preemptPoint("atomic")
			p.atomicVC(args[0])
			v := p.load(args[0])
			if p.branch(p.equal(fn.Signature.Params().At(1).Type(), v, args[1])) {
				p.store(args[0], args[2])
				return p.c.True, true
			}
			return p.c.False, true
		}
	case pre("And"), pre("Or"):
		o := OBAnd
		if pre("Or") {
			o = OBOr
		}
		return func(p *Path, fr *frame, fn *ssa.Function, args []value) (value, bool) {
			v := p.load(args[0]).(*Term)
			p.store(args[0], p.c.Bin(o, v, args[1].(*Term)))
			return v, true
		}
	}
	return nil
}

func str(v value) (string, bool) {
	s, ok := v.(Str)
	if !ok || s.bm != nil {
		return "", false
	}
	return s.s, true
}

func allConcStr(args []value) ([]string, bool) {
	var out []string
	for _, a := range args {
		s, ok := a.(Str)
		if !ok {
			return nil, false
		}
		if s.bm != nil || isSymText(s) {
			return nil, false
		}
		out = append(out, s.s)
	}
	return out, true
}

var intrinsics map[string]intrinsic

func simple(f func(p *Path, args []value) value) intrinsic {
	return func(p *Path, fr *frame, fn *ssa.Function, args []value) (value, bool) {
		return f(p, args), true
	}
}

func nop(p *Path, fr *frame, fn *ssa.Function, args []value) (value, bool) {
	return p.zeroResults(fn), true
}

func strFn1(f func(string) string) intrinsic {
	return func(p *Path, fr *frame, fn *ssa.Function, args []value) (value, bool) {
		if s, ok := allConcStr(args); ok {
			return conc(f(s[0])), true
		}
		return nil, false
	}
}

func strPred2(f func(a, b string) bool) intrinsic {
	return func(p *Path, fr *frame, fn *ssa.Function, args []value) (value, bool) {
		if s, ok := allConcStr(args); ok {
			return p.c.Bool(f(s[0], s[1])), true
		}
		return nil, false
	}
}

func strInt2(f func(a, b string) int) intrinsic {
	return func(p *Path, fr *frame, fn *ssa.Function, args []value) (value, bool) {
		if s, ok := allConcStr(args); ok {
			return p.c.BV(64, uint64(int64(f(s[0], s[1])))), true
		}
		return nil, false
	}
}

func (p *Path) strSlice(ss []string) Slice {
	e := make([]value, len(ss))
	for i, s := range ss {
		e[i] = conc(s)
	}
	n := p.c.Int(len(ss))
	return Slice{arr: &Arr{elems: e}, of: p.c.Int(0), n: n, cap: n}
}

// ---- time helpers ----

func (p *Path) timeVal(ns *Term) value {
	return StructV{p.c.BV(64, 0), ns, (*value)(nil)}
}

func timeNS(v value) *Term { return v.(StructV)[1].(*Term) }

func (p *Path) nowTerm() *Term { return p.c.Add(p.now, p.c.BV(64, unixBase)) }

func (p *Path) timeSub(a, b *Term) *Term {
	c := p.c
	za := c.Eq(a, c.Int(0))
	zb := c.Eq(b, c.Int(0))
	d := c.Sub(a, b)
	d = c.Ite(c.And(zb, c.Not(za)), c.BV(64, math.MaxInt64), d)
	d = c.Ite(c.And(za, c.Not(zb)), c.BV(64, 1<<63), d)
	return d
}

type timerInfo struct {
	vc  vcRec
	t   *vTimer
	fn  value
	ch  *ChanV
	per *Term
}

func (p *Path) timerTab() map[*value]*timerInfo {
	m, _ := p.side["timers"].(map[*value]*timerInfo)
	if m == nil {
		m = map[*value]*timerInfo{}
		p.side["timers"] = m
	}
	return m
}

func (p *Path) armTimer(ti *timerInfo, d *Term) {
	p.release(&ti.vc)
	if ti.fn != nil {
		ti.t = p.addTimer(d, func() {
			fn := ti.fn
			p.spawnVC = &ti.vc
			p.goCall(fn, nil, "timer:"+fnName(fn))
		})
		return
	}
	ti.t = p.addTimer(d, func() {
		v := p.timeVal(p.nowTerm())
		if sd := dequeue(&ti.ch.recvq); sd != nil {
			sd.val, sd.ok, sd.done = v, true, true
			p.acquireFor(sd.g, ti.vc)
			p.ready(sd.g)
		} else if len(ti.ch.buf) < ti.ch.cap {
			ti.ch.buf = append(ti.ch.buf, v)
			ti.ch.bufvc = append(ti.ch.bufvc, ti.vc)
		}
		if ti.per != nil {
			p.armTimer(ti, ti.per)
		}
	})
}

// newTimer builds a *time.Timer (or *time.Ticker) cell.
func (p *Path) newTimer(t types.Type, d *Term, fn value, periodic bool) value {
	pt := t.(*types.Pointer)
	cell := new(value)
	*cell = p.zero(pt.Elem())
	ti := &timerInfo{fn: fn}
	if fn == nil {
		st := pt.Elem().Underlying().(*types.Struct)
		et := st.Field(0).Type().Underlying().(*types.Chan).Elem()
		p.uniq++
		ti.ch = &ChanV{cap: 1, zero: func() value { return p.zero(et) }, id: p.uniq}
		(*cell).(StructV)[0] = ti.ch
	}
	if periodic {
		ti.per = d
		if p.branch(p.c.Sle(d, p.c.Int(0))) {
			p.goPanicPlain("non-positive interval for NewTicker")
		}
	}
	p.timerTab()[cell] = ti
	p.armTimer(ti, d)
	return cell
}

func (p *Path) timerOf(v value) *timerInfo {
	cell, _ := v.(*value)
	if cell == nil {
		p.nilDeref()
	}
	return p.timerTab()[cell]
}

func timerStop(p *Path, fr *frame, fn *ssa.Function, args []value) (value, bool) {
	p.preemptPoint("timer stop")
	ti := p.timerOf(args[0])
	if ti == nil {
		// a copied Timer value: Stop does not reach the running timer
		cell := args[0].(*value)
		_ = cell
		if fn.Signature.Results().Len() == 0 {
			return nil, true
		}
		return p.c.False, true
	}
	r := p.stopTimer(ti.t)
	if ti.ch != nil {
		ti.ch.buf, ti.ch.bufvc = nil, nil
	}
	if fn.Signature.Results().Len() == 0 {
		return nil, true
	}
	return p.c.Bool(r), true
}

func timerReset(p *Path, fr *frame, fn *ssa.Function, args []value) (value, bool) {
	p.preemptPoint("timer reset")
	ti := p.timerOf(args[0])
	if ti == nil {
		p.goPanicPlain("time: Reset called on uninitialized Timer")
	}
	r := p.stopTimer(ti.t)
	if ti.ch != nil {
		ti.ch.buf, ti.ch.bufvc = nil, nil
	}
	if ti.per != nil {
		ti.per = args[1].(*Term)
	}
	p.armTimer(ti, args[1].(*Term))
	if fn.Signature.Results().Len() == 0 {
		return nil, true
	}
	return p.c.Bool(r), true
}

// ---- sync helpers ----

type wgState struct {
	n       int64
	waiters []*G
	vc      vcRec
}

type condState struct{ q []*G }

func (p *Path) sideObj(kind string, key value, mk func() interface{}) interface{} {
	k := [2]interface{}{kind, key}
	if o, ok := p.side[k]; ok {
		return o
	}
	o := mk()
	p.side[k] = o
	return o
}

func (p *Path) wg(v value) *wgState {
	if c, ok := v.(*value); ok && c == nil {
		p.nilDeref()
	}
	return p.sideObj("wg", v, func() interface{} { return &wgState{} }).(*wgState)
}

func mutexKey(p *Path, v value) interface{} {
	c, ok := v.(*value)
	if !ok {
		p.unsupported(fmt.Sprintf("mutex key %T", v))
	}
	if c == nil {
		p.nilDeref()
	}
	return c
}

func init() {
	c64 := func(p *Path, v int64) value { return p.c.BV(64, uint64(v)) }
	intrinsics = map[string]intrinsic{
		// sync
		"(*sync.Mutex).Lock":       simple(func(p *Path, a []value) value { p.lock(p.mutex(mutexKey(p, a[0]))); return nil }),
		"(*sync.Mutex).Unlock":     simple(func(p *Path, a []value) value { p.unlock(p.mutex(mutexKey(p, a[0]))); return nil }),
		"(*sync.Mutex).TryLock":    simple(func(p *Path, a []value) value { return p.c.Bool(p.tryLock(p.mutex(mutexKey(p, a[0])), true)) }),
		"(*sync.RWMutex).Lock":     simple(func(p *Path, a []value) value { p.lock(p.mutex(mutexKey(p, a[0]))); return nil }),
		"(*sync.RWMutex).Unlock":   simple(func(p *Path, a []value) value { p.unlock(p.mutex(mutexKey(p, a[0]))); return nil }),
		"(*sync.RWMutex).RLock":    simple(func(p *Path, a []value) value { p.rlock(p.mutex(mutexKey(p, a[0]))); return nil }),
		"(*sync.RWMutex).RUnlock":  simple(func(p *Path, a []value) value { p.runlock(p.mutex(mutexKey(p, a[0]))); return nil }),
		"(*sync.RWMutex).TryLock":  simple(func(p *Path, a []value) value { return p.c.Bool(p.tryLock(p.mutex(mutexKey(p, a[0])), true)) }),
		"(*sync.RWMutex).TryRLock": simple(func(p *Path, a []value) value { return p.c.Bool(p.tryLock(p.mutex(mutexKey(p, a[0])), false)) }),
		"(*sync.WaitGroup).Add": simple(func(p *Path, a []value) value {
			p.preemptPoint("wg.Add")
			w := p.wg(a[0])
			p.release(&w.vc)
			w.n += sx(p.concretize(a[1].(*Term), "wg delta"), 64)
			p.wgCheck(w)
			return nil
		}),
		"(*sync.WaitGroup).Done": simple(func(p *Path, a []value) value {
			p.preemptPoint("wg.Done")
			w := p.wg(a[0])
			w.n--
			p.release(&w.vc)
			p.wgCheck(w)
			return nil
		}),
		"(*sync.WaitGroup).Wait": simple(func(p *Path, a []value) value {
			p.preemptPoint("wg.Wait")
			w := p.wg(a[0])
			if w.n > 0 {
				w.waiters = append(w.waiters, p.cur)
				p.park("WaitGroup.Wait")
			}
			p.acquire(w.vc)
			return nil
		}),
		"(*sync.WaitGroup).Go": simple(func(p *Path, a []value) value {
			w := p.wg(a[0])
			w.n++
			g := p.spawn("wg.Go", func(g *G) {
				p.callValue(g, nil, a[1], nil)
				w.n--
				p.release(&w.vc)
				p.wgCheck(w)
			})
			p.ready(g)
			return nil
		}),
		"(*sync.Cond).Wait": simple(func(p *Path, a []value) value {
			cs := p.sideObj("cond", a[0], func() interface{} { return &condState{} }).(*condState)
			st := (*a[0].(*value)).(StructV)
			var l Iface
			for _, f := range st {
				if x, ok := f.(Iface); ok {
					l = x
				}
			}
			cs.q = append(cs.q, p.cur)
			p.callMethod(l, "Unlock")
			p.park("Cond.Wait")
			p.callMethod(l, "Lock")
			return nil
		}),
		"(*sync.Cond).Signal": simple(func(p *Path, a []value) value {
			cs := p.sideObj("cond", a[0], func() interface{} { return &condState{} }).(*condState)
			if len(cs.q) > 0 {
				g := cs.q[0]
				cs.q = cs.q[1:]
				p.ready(g)
			}
			return nil
		}),
		"(*sync.Cond).Broadcast": simple(func(p *Path, a []value) value {
			cs := p.sideObj("cond", a[0], func() interface{} { return &condState{} }).(*condState)
			for _, g := range cs.q {
				p.ready(g)
			}
			cs.q = nil
			return nil
		}),
		"(*sync.Pool).Get": func(p *Path, fr *frame, fn *ssa.Function, a []value) (value, bool) {
			st := (*a[0].(*value)).(StructV)
			nf := st[len(st)-1]
			if cl, ok := nf.(*Closure); ok && cl == nil {
				return Iface{}, true
			}
			return p.callValue(fr.g, fr, nf, nil), true
		},
		"(*sync.Pool).Put": nop,
		"(*sync/atomic.Value).Load": simple(func(p *Path, a []value) value {
			p.preemptPoint("atomic")
			p.atomicVC(a[0])
			st := (*a[0].(*value)).(StructV)
			return st[0]
		}),
		"(*sync/atomic.Value).Store": simple(func(p *Path, a []value) value {
			p.preemptPoint("atomic")
			p.atomicVC(a[0])
			st := (*a[0].(*value)).(StructV)
			st[0] = a[1]
			return nil
		}),
		// runtime
		"runtime.Gosched":       simple(func(p *Path, a []value) value { p.yield(); return nil }),
		"runtime.GC":            nop,
		"runtime.KeepAlive":     nop,
		"runtime.SetFinalizer":  nop,
		"runtime.NumCPU":        simple(func(p *Path, a []value) value { return p.c.Int(8) }),
		"runtime.GOMAXPROCS":    simple(func(p *Path, a []value) value { return p.c.Int(8) }),
		"runtime.NumGoroutine":  simple(func(p *Path, a []value) value { return p.c.Int(len(p.gs)) }),
		"runtime.Caller":        nop,
		"internal/abi.NoEscape": simple(func(p *Path, a []value) value { return a[0] }),
		"internal/race.Enable":  nop,
		"internal/bytealg.MakeNoZero": simple(func(p *Path, a []value) value {
			n := a[0].(*Term)
			return Slice{arr: p.newScalarArr(n, 8), of: p.c.Int(0), n: n, cap: n}
		}),
		"internal/bytealg.IndexByte": simple(func(p *Path, a []value) value {
			s := a[0].(Slice)
			m, o, n := p.sliceMem(s)
			return p.indexByte(m, o, n, a[1].(*Term))
		}),
		"internal/bytealg.IndexByteString": simple(func(p *Path, a []value) value {
			m, o, n := p.strMem(a[0].(Str))
			return p.indexByte(m, o, n, a[1].(*Term))
		}),
		"internal/bytealg.Count": simple(func(p *Path, a []value) value {
			s := a[0].(Slice)
			m, o, n := p.sliceMem(s)
			return p.countByte(m, o, n, a[1].(*Term))
		}),
		"internal/bytealg.CountString": simple(func(p *Path, a []value) value {
			m, o, n := p.strMem(a[0].(Str))
			return p.countByte(m, o, n, a[1].(*Term))
		}),
		"internal/bytealg.Equal": simple(bytesEqual),
		"bytes.Equal":            simple(bytesEqual),
		"internal/bytealg.Compare": simple(func(p *Path, a []value) value {
			x, ok1 := p.concBytes(a[0].(Slice))
			y, ok2 := p.concBytes(a[1].(Slice))
			if !ok1 || !ok2 {
				p.unsupported("bytealg.Compare symbolic")
			}
			return c64(p, int64(strings.Compare(string(x), string(y))))
		}),
		"bytes.LastIndex": func(p *Path, fr *frame, fn *ssa.Function, a []value) (value, bool) {
			x, ok1 := p.concBytesNoFork(a[0].(Slice))
			y, ok2 := p.concBytesNoFork(a[1].(Slice))
			if ok1 && ok2 {
				return c64(p, int64(bytes.LastIndex(x, y))), true
			}
			return nil, false
		},
		"bytes.IndexAny": func(p *Path, fr *frame, fn *ssa.Function, a []value) (value, bool) {
			x, ok1 := p.concBytesNoFork(a[0].(Slice))
			y, ok2 := allConcStr(a[1:2])
			if ok1 && ok2 {
				return c64(p, int64(bytes.IndexAny(x, y[0]))), true
			}
			return nil, false
		},
		"crypto/subtle.ConstantTimeCompare": simple(func(p *Path, a []value) value {
			e := bytesEqual(p, a).(*Term)
			return p.c.Ite(e, p.c.Int(1), p.c.Int(0))
		}),
		// time
		"time.Now":   simple(func(p *Path, a []value) value { return p.timeVal(p.nowTerm()) }),
		"time.Since": simple(func(p *Path, a []value) value { return p.timeSub(p.nowTerm(), timeNS(a[0])) }),
		"time.Until": simple(func(p *Path, a []value) value { return p.timeSub(timeNS(a[0]), p.nowTerm()) }),
		"time.Unix": simple(func(p *Path, a []value) value {
			return p.timeVal(p.c.Add(p.c.Bin(OMul, a[0].(*Term), p.c.Int(1000000000)), a[1].(*Term)))
		}),
		"(time.Time).Add":    simple(func(p *Path, a []value) value { return p.timeVal(p.c.Add(timeNS(a[0]), a[1].(*Term))) }),
		"(time.Time).Sub":    simple(func(p *Path, a []value) value { return p.timeSub(timeNS(a[0]), timeNS(a[1])) }),
		"(time.Time).After":  simple(func(p *Path, a []value) value { return p.c.Slt(timeNS(a[1]), timeNS(a[0])) }),
		"(time.Time).Before": simple(func(p *Path, a []value) value { return p.c.Slt(timeNS(a[0]), timeNS(a[1])) }),
		"(time.Time).Equal":  simple(func(p *Path, a []value) value { return p.c.Eq(timeNS(a[0]), timeNS(a[1])) }),
		"(time.Time).Compare": simple(func(p *Path, a []value) value {
			x, y := timeNS(a[0]), timeNS(a[1])
			c := p.c
			return c.Ite(c.Slt(x, y), c.BV(64, ^uint64(0)), c.Ite(c.Eq(x, y), c.Int(0), c.Int(1)))
		}),
		"(time.Time).IsZero":     simple(func(p *Path, a []value) value { return p.c.Eq(timeNS(a[0]), p.c.Int(0)) }),
		"(time.Time).UnixNano":   simple(func(p *Path, a []value) value { return timeNS(a[0]) }),
		"(time.Time).UnixMicro":  simple(func(p *Path, a []value) value { return p.c.Bin(OSDiv, timeNS(a[0]), p.c.Int(1000)) }),
		"(time.Time).UnixMilli":  simple(func(p *Path, a []value) value { return p.c.Bin(OSDiv, timeNS(a[0]), p.c.Int(1000000)) }),
		"(time.Time).Unix":       simple(func(p *Path, a []value) value { return p.c.Bin(OSDiv, timeNS(a[0]), p.c.Int(1000000000)) }),
		"(time.Time).Round":      simple(func(p *Path, a []value) value { return a[0] }),
		"(time.Time).Truncate":   simple(func(p *Path, a []value) value { return a[0] }),
		"(time.Time).UTC":        simple(func(p *Path, a []value) value { return a[0] }),
		"(time.Time).Local":      simple(func(p *Path, a []value) value { return a[0] }),
		"(time.Time).Nanosecond": simple(func(p *Path, a []value) value { return p.c.Bin(OSRem, timeNS(a[0]), p.c.Int(1000000000)) }),
		"(time.Time).Format": simple(func(p *Path, a []value) value {
			if t := timeNS(a[0]); t.isConst() {
				if l, ok := str(a[1]); ok {
					return conc(hostTime(t.val).Format(l))
				}
			}
			return conc(symText)
		}),
		"(time.Time).String": simple(func(p *Path, a []value) value {
			if t := timeNS(a[0]); t.isConst() {
				return conc(hostTime(t.val).String())
			}
			return conc(symText)
		}),
		"(time.Duration).String": simple(func(p *Path, a []value) value {
			if t := a[0].(*Term); t.isConst() {
				return conc(hostDur(t.val))
			}
			return conc(symText)
		}),
		"time.Sleep": simple(func(p *Path, a []value) value { p.sleep(a[0].(*Term)); return nil }),
		"time.AfterFunc": func(p *Path, fr *frame, fn *ssa.Function, a []value) (value, bool) {
			return p.newTimer(fn.Signature.Results().At(0).Type(), a[0].(*Term), a[1], false), true
		},
		"time.NewTimer": func(p *Path, fr *frame, fn *ssa.Function, a []value) (value, bool) {
			return p.newTimer(fn.Signature.Results().At(0).Type(), a[0].(*Term), nil, false), true
		},
		"time.NewTicker": func(p *Path, fr *frame, fn *ssa.Function, a []value) (value, bool) {
			return p.newTimer(fn.Signature.Results().At(0).Type(), a[0].(*Term), nil, true), true
		},
		"time.After": func(p *Path, fr *frame, fn *ssa.Function, a []value) (value, bool) {
			tt := fn.Pkg.Pkg.Scope().Lookup("Timer").Type()
			cell := p.newTimer(types.NewPointer(tt), a[0].(*Term), nil, false)
			return (*cell.(*value)).(StructV)[0], true
		},
		"time.Tick": func(p *Path, fr *frame, fn *ssa.Function, a []value) (value, bool) {
			tt := fn.Pkg.Pkg.Scope().Lookup("Ticker").Type()
			cell := p.newTimer(types.NewPointer(tt), a[0].(*Term), nil, true)
			return (*cell.(*value)).(StructV)[0], true
		},
		"(*time.Timer).Stop":   timerStop,
		"(*time.Timer).Reset":  timerReset,
		"(*time.Ticker).Stop":  timerStop,
		"(*time.Ticker).Reset": timerReset,
		// fmt
		"fmt.Sprintf": func(p *Path, fr *frame, fn *ssa.Function, a []value) (value, bool) {
			return p.fmtStr(p.sprintf(fr, a[0].(Str), a[1])), true
		},
		"fmt.Sprint": func(p *Path, fr *frame, fn *ssa.Function, a []value) (value, bool) {
			return p.fmtStr(p.sprint(fr, a[0], false)), true
		},
		"fmt.Sprintln": func(p *Path, fr *frame, fn *ssa.Function, a []value) (value, bool) {
			return p.fmtStr(p.sprint(fr, a[0], true)), true
		},
		"fmt.Errorf": fmtErrorf,
		"fmt.Printf": func(p *Path, fr *frame, fn *ssa.Function, a []value) (value, bool) {
			return p.printOut(fr, p.sprintf(fr, a[0].(Str), a[1])), true
		},
		"fmt.Print": func(p *Path, fr *frame, fn *ssa.Function, a []value) (value, bool) {
			return p.printOut(fr, p.sprint(fr, a[0], false)), true
		},
		"fmt.Println": func(p *Path, fr *frame, fn *ssa.Function, a []value) (value, bool) {
			return p.printOut(fr, p.sprint(fr, a[0], true)), true
		},
		"fmt.Fprintf": func(p *Path, fr *frame, fn *ssa.Function, a []value) (value, bool) {
			return p.fprint(fr, a[0], p.sprintf(fr, a[1].(Str), a[2])), true
		},
		"fmt.Fprint": func(p *Path, fr *frame, fn *ssa.Function, a []value) (value, bool) {
			return p.fprint(fr, a[0], p.sprint(fr, a[1], false)), true
		},
		"fmt.Fprintln": func(p *Path, fr *frame, fn *ssa.Function, a []value) (value, bool) {
			return p.fprint(fr, a[0], p.sprint(fr, a[1], true)), true
		},
		// os
		"(*os.File).Write": func(p *Path, fr *frame, fn *ssa.Function, a []value) (value, bool) {
			if c, ok := a[0].(*value); ok && c == nil {
				p.nilDeref()
			}
			p.stdout(a[1].(Slice))
			return TupleV{a[1].(Slice).n, Iface{}}, true
		},
		"(*os.File).WriteString": func(p *Path, fr *frame, fn *ssa.Function, a []value) (value, bool) {
			p.stdout(p.strToBytes(a[1].(Str)))
			return TupleV{p.strLen(a[1].(Str)), Iface{}}, true
		},
		"os.NewFile": func(p *Path, fr *frame, fn *ssa.Function, a []value) (value, bool) {
			cell := new(value)
			*cell = p.zero(fn.Signature.Results().At(0).Type().(*types.Pointer).Elem())
			return cell, true
		},
		"os.Exit":   simple(func(p *Path, a []value) value { panic(exitPanic{int(sx(a[0].(*Term).val, 64))}) }),
		"os.Getenv": simple(func(p *Path, a []value) value { return conc("") }),
		// flag
		"flag.Int": func(p *Path, fr *frame, fn *ssa.Function, a []value) (value, bool) {
			cell := new(value)
			*cell = a[1]
			return cell, true
		},
		"flag.Parse": nop,
		// log
		"log.New": func(p *Path, fr *frame, fn *ssa.Function, a []value) (value, bool) {
			cell := new(value)
			*cell = p.zero(fn.Signature.Results().At(0).Type().(*types.Pointer).Elem())
			p.loggers()[cell] = &logger{w: a[0].(Iface), prefix: a[1].(Str), flags: a[2].(*Term)}
			return cell, true
		},
		"(*log.Logger).SetOutput": simple(func(p *Path, a []value) value { p.logger(a[0]).w = a[1].(Iface); return nil }),
		"(*log.Logger).SetFlags":  simple(func(p *Path, a []value) value { p.logger(a[0]).flags = a[1].(*Term); return nil }),
		"(*log.Logger).SetPrefix": simple(func(p *Path, a []value) value { p.logger(a[0]).prefix = a[1].(Str); return nil }),
		"(*log.Logger).Flags":     simple(func(p *Path, a []value) value { return p.logger(a[0]).flags }),
		"(*log.Logger).Prefix":    simple(func(p *Path, a []value) value { return p.logger(a[0]).prefix }),
		"(*log.Logger).Writer":    simple(func(p *Path, a []value) value { return p.logger(a[0]).w }),
		"(*log.Logger).Println": func(p *Path, fr *frame, fn *ssa.Function, a []value) (value, bool) {
			p.logPrint(fr, a[0], func() string { return p.sprint(fr, a[1], true) })
			return nil, true
		},
		"(*log.Logger).Print": func(p *Path, fr *frame, fn *ssa.Function, a []value) (value, bool) {
			p.logPrint(fr, a[0], func() string { return p.sprint(fr, a[1], false) })
			return nil, true
		},
		"(*log.Logger).Printf": func(p *Path, fr *frame, fn *ssa.Function, a []value) (value, bool) {
			p.logPrint(fr, a[0], func() string { return p.sprintf(fr, a[1].(Str), a[2]) })
			return nil, true
		},
		// math/rand: a fixed pseudo-random stream
		"math/rand.Intn": func(p *Path, fr *frame, fn *ssa.Function, a []value) (value, bool) {
			n := p.concretize(a[0].(*Term), "rand.Intn")
			if sx(n, 64) <= 0 {
				p.goPanicPlain("invalid argument to Intn")
			}
			return p.c.BV(64, p.rand()%n), true
		},
		"math/rand.Int":     simple(func(p *Path, a []value) value { return p.c.BV(64, p.rand()) }),
		"math/rand.Int63":   simple(func(p *Path, a []value) value { return p.c.BV(64, p.rand()) }),
		"math/rand.Seed":    nop,
		"math/rand.Float64": simple(func(p *Path, a []value) value { return float64(p.rand()%1000) / 1000 }),
		// errors
		"errors.Is": errorsIs,
		// strings
		"internal/stringslite.Clone": simple(func(p *Path, a []value) value { return a[0] }),
		"strings.Clone":              simple(func(p *Path, a []value) value { return a[0] }),
		"strings.ToLower":            strFn1(strings.ToLower),
		"strings.ToUpper":            strFn1(strings.ToUpper),
		"strings.TrimSpace":          strFn1(strings.TrimSpace),
		"strings.Contains":           strContains,
		"strings.HasPrefix":          strPred2(strings.HasPrefix),
		"strings.HasSuffix":          strPred2(strings.HasSuffix),
		"strings.EqualFold":          strPred2(strings.EqualFold),
		"strings.Index":              strInt2(strings.Index),
		"strings.LastIndex":          strInt2(strings.LastIndex),
		"strings.Count":              strInt2(strings.Count),
		"strings.Compare":            strInt2(strings.Compare),
		"strings.Split": func(p *Path, fr *frame, fn *ssa.Function, a []value) (value, bool) {
			if s, ok := allConcStr(a); ok {
				return p.strSlice(strings.Split(s[0], s[1])), true
			}
			return nil, false
		},
		"strings.Fields": func(p *Path, fr *frame, fn *ssa.Function, a []value) (value, bool) {
			if s, ok := allConcStr(a); ok {
				return p.strSlice(strings.Fields(s[0])), true
			}
			return nil, false
		},
		"strings.Replace": func(p *Path, fr *frame, fn *ssa.Function, a []value) (value, bool) {
			if s, ok := allConcStr(a[:3]); ok && a[3].(*Term).isConst() {
				return conc(strings.Replace(s[0], s[1], s[2], int(sx(a[3].(*Term).val, 64)))), true
			}
			return nil, false
		},
		"strings.Repeat": func(p *Path, fr *frame, fn *ssa.Function, a []value) (value, bool) {
			if s, ok := allConcStr(a[:1]); ok && a[1].(*Term).isConst() && sx(a[1].(*Term).val, 64) >= 0 {
				return conc(strings.Repeat(s[0], int(a[1].(*Term).val))), true
			}
			return nil, false
		},
		// strconv
		"strconv.Itoa": func(p *Path, fr *frame, fn *ssa.Function, a []value) (value, bool) {
			t := a[0].(*Term)
			if !t.isConst() {
				return conc(symText), true
			}
			return conc(strconv.FormatInt(int64(t.val), 10)), true
		},
		"strconv.FormatInt": func(p *Path, fr *frame, fn *ssa.Function, a []value) (value, bool) {
			t := a[0].(*Term)
			if !t.isConst() || !a[1].(*Term).isConst() {
				return conc(symText), true
			}
			return conc(strconv.FormatInt(int64(t.val), int(a[1].(*Term).val))), true
		},
		// sort
		"sort.Slice":       sortSlice,
		"sort.SliceStable": sortSlice,
		// math/bits
		"math/bits.Len": simple(func(p *Path, a []value) value {
			v := p.concretize(a[0].(*Term), "bits.Len")
			return p.c.Int(bits.Len64(v))
		}),
		"math/bits.Len64": simple(func(p *Path, a []value) value {
			v := p.concretize(a[0].(*Term), "bits.Len")
			return p.c.Int(bits.Len64(v))
		}),
		// net
		"(*net.UDPAddr).String": func(p *Path, fr *frame, fn *ssa.Function, a []value) (value, bool) {
			cell, _ := a[0].(*value)
			if cell == nil {
				return conc("<nil>"), true
			}
			if u, ok := p.hostUDP(cell); ok {
				return conc(u.String()), true
			}
			p.unsupported("UDPAddr.String symbolic")
			return nil, true
		},
		"(net.IP).String": func(p *Path, fr *frame, fn *ssa.Function, a []value) (value, bool) {
			if b, ok := p.concBytes(a[0].(Slice)); ok {
				return conc(net.IP(b).String()), true
			}
			p.unsupported("IP.String symbolic")
			return nil, true
		},
		// encoding/binary (the reflective entry points)
		"encoding/binary.Write": binWrite,
		"encoding/binary.Read":  binRead,
		// reflect (only what the code needs)
		"reflect.ValueOf": simple(func(p *Path, a []value) value { return StructV{a[0], (*value)(nil), p.c.BV(64, 1)} }),
		"(reflect.Value).MapKeys": func(p *Path, fr *frame, fn *ssa.Function, a []value) (value, bool) {
			ifc := a[0].(StructV)[0].(Iface)
			m, _ := ifc.v.(*MapV)
			var e []value
			kt := ifc.t.Underlying().(*types.Map).Key()
			if m != nil {
				if fs := p.cur.frames; len(fs) > 0 && fs[len(fs)-1].info.local {
					p.preemptPoint("mem")
					p.mapAccess(m, false)
				}
				for _, en := range m.entries {
					if !en.dead {
						e = append(e, StructV{Iface{kt, en.k}, (*value)(nil), p.c.BV(64, 1)})
					}
				}
			}
			n := p.c.Int(len(e))
			return Slice{arr: &Arr{elems: e}, of: p.c.Int(0), n: n, cap: n}, true
		},
		"(reflect.Value).String": simple(func(p *Path, a []value) value {
			ifc := a[0].(StructV)[0].(Iface)
			if s, ok := ifc.v.(Str); ok {
				return s
			}
			return conc("<" + ifc.t.String() + " Value>")
		}),
		"(reflect.Value).Interface": simple(func(p *Path, a []value) value { return a[0].(StructV)[0] }),
		"(reflect.Value).Len": simple(func(p *Path, a []value) value {
			switch x := a[0].(StructV)[0].(Iface).v.(type) {
			case *MapV:
				if x == nil {
					return p.c.Int(0)
				}
				return p.c.Int(x.n)
			case Slice:
				return x.n
			}
			p.unsupported("reflect Len")
			return nil
		}),
		"reflect.DeepEqual": simple(func(p *Path, a []value) value {
			x, y := a[0].(Iface), a[1].(Iface)
			if x.t != nil && y.t != nil && types.Identical(x.t, y.t) {
				if s, ok := x.v.(Slice); ok {
					if _, sc := isByteLike(s0elem(x.t)); sc {
						t := y.v.(Slice)
						if (s.arr == nil) != (t.arr == nil) {
							return p.c.False
						}
						return bytesEqual(p, []value{s, t})
					}
				}
			}
			return p.equal(x.t, x, y)
		}),
	}
	intrinsics["flag.Bool"] = intrinsics["flag.Int"]
	intrinsics["flag.String"] = intrinsics["flag.Int"]
	intrinsics["flag.Duration"] = intrinsics["flag.Int"]
}

func s0elem(t types.Type) types.Type { return t.Underlying().(*types.Slice).Elem() }

func (p *Path) rand() uint64 {
	p.lcg = p.lcg*6364136223846793005 + 1442695040888963407
	return p.lcg >> 33
}

func (p *Path) wgCheck(w *wgState) {
	if w.n < 0 {
		p.goPanicPlain("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		for _, g := range w.waiters {
			p.ready(g)
		}
		w.waiters = nil
	}
}

func (p *Path) callMethod(ifc Iface, name string, args ...value) value {
	if ifc.t == nil {
		p.nilDeref()
	}
	fn := p.prog.methodByName(ifc.t, name)
	if fn == nil {
		p.unsupported("no method " + name + " on " + ifc.t.String())
	}
	var caller *frame
	if n := len(p.cur.frames); n > 0 {
		caller = p.cur.frames[n-1]
	}
	return p.callSSA(p.cur, caller, fn, append([]value{copyVal(ifc.v)}, args...), nil)
}

func bytesEqual(p *Path, a []value) value {
	m1, o1, n1 := p.sliceMem(a[0].(Slice))
	m2, o2, n2 := p.sliceMem(a[1].(Slice))
	return p.eqMem(m1, o1, n1, m2, o2, n2)
}

func (p *Path) indexByte(m *BMem, o, n, b *Term) value {
	c := p.c
	hi := n.umax
	if hi > 4096 {
		n = c.BV(64, p.concretize(n, "IndexByte length"))
		hi = n.umax
	}
	if hi > 4096 {
		p.unsupported("IndexByte over long symbolic data")
	}
	for i := uint64(0); i < hi; i++ {
		it := c.BV(64, i)
		if !p.branch(c.Ult(it, n)) {
			break
		}
		if p.branch(c.Eq(p.bmRead(m, c.Add(o, it)), b)) {
			return it
		}
	}
	return c.BV(64, ^uint64(0))
}

func (p *Path) countByte(m *BMem, o, n, b *Term) value {
	c := p.c
	k := p.concretize(n, "count length")
	r := c.Int(0)
	for i := uint64(0); i < k; i++ {
		r = c.Add(r, c.Ite(c.Eq(p.bmRead(m, c.Add(o, c.BV(64, i))), b), c.Int(1), c.Int(0)))
	}
	return r
}

func strContains(p *Path, fr *frame, fn *ssa.Function, a []value) (value, bool) {
	if s, ok := allConcStr(a); ok {
		return p.c.Bool(strings.Contains(s[0], s[1])), true
	}
	c := p.c
	x, y := a[0].(Str), a[1].(Str)
	if isSymText(x) || isSymText(y) {
		p.unsupported("Contains on formatted symbolic text")
	}
	nx := p.concretize(p.strLen(x), "Contains")
	ny := p.concretize(p.strLen(y), "Contains")
	r := c.False
	for i := uint64(0); i+ny <= nx; i++ {
		e := c.True
		for j := uint64(0); j < ny; j++ {
			e = c.And(e, c.Eq(p.strAt(x, c.BV(64, i+j)), p.strAt(y, c.BV(64, j))))
		}
		r = c.Or(r, e)
	}
	return r, true
}

func sortSlice(p *Path, fr *frame, fn *ssa.Function, a []value) (value, bool) {
	s, ok := a[0].(Iface).v.(Slice)
	if !ok {
		p.unsupported("sort.Slice of non-slice")
	}
	n := int(p.concretize(s.n, "sort length"))
	if n > 1 && s.arr.bm != nil {
		p.unsupported("sort.Slice of sparse slice")
	}
	for i := 1; i < n; i++ {
		for j := i; j > 0; j-- {
			r := p.callValue(fr.g, fr, a[1], []value{p.c.Int(j), p.c.Int(j - 1)})
			if !p.branch(r.(*Term)) {
				break
			}
			x, y := s.of.val+uint64(j), s.of.val+uint64(j-1)
			t := copyVal(s.arr.elems[x])
			u := copyVal(s.arr.elems[y])
			storeIn(&s.arr.elems[x], u)
			storeIn(&s.arr.elems[y], t)
		}
	}
	return nil, true
}

func errorsIs(p *Path, fr *frame, fn *ssa.Function, a []value) (value, bool) {
	err, target := a[0].(Iface), a[1].(Iface)
	for depth := 0; depth < 50; depth++ {
		if err.t == nil || target.t == nil {
			return p.c.Bool(err.t == nil && target.t == nil), true
		}
		if types.Identical(err.t, target.t) && types.Comparable(err.t) {
			if p.branch(p.equal(err.t, err.v, target.v)) {
				return p.c.True, true
			}
		}
		if m := p.prog.methodByName(err.t, "Is"); m != nil {
			if r, ok := p.callMethod(err, "Is", target).(*Term); ok && p.branch(r) {
				return p.c.True, true
			}
		}
		if m := p.prog.methodByName(err.t, "Unwrap"); m != nil {
			r, ok := p.callMethod(err, "Unwrap").(Iface)
			if !ok {
				return p.c.False, true
			}
			err = r
			if err.t == nil {
				return p.c.False, true
			}
			continue
		}
		return p.c.False, true
	}
	return p.c.False, true
}

func (p *Path) hostUDP(cell *value) (*net.UDPAddr, bool) {
	st := (*cell).(StructV)
	ip, ok := p.concBytes(st[0].(Slice))
	pt := st[1].(*Term)
	z, ok2 := str(st[2])
	if !ok || !ok2 || !pt.isConst() {
		return nil, false
	}
	return &net.UDPAddr{IP: ip, Port: int(pt.val), Zone: z}, true
}

// ---- logging and output ----

type logger struct {
	w      Iface
	prefix Str
	flags  *Term
}

func (p *Path) loggers() map[*value]*logger {
	m, _ := p.side["loggers"].(map[*value]*logger)
	if m == nil {
		m = map[*value]*logger{}
		p.side["loggers"] = m
	}
	return m
}

func (p *Path) logger(v value) *logger {
	c, _ := v.(*value)
	if c == nil {
		p.nilDeref()
	}
	l := p.loggers()[c]
	if l == nil {
		p.unsupported("unknown logger")
	}
	return l
}

func (p *Path) logPrint(fr *frame, lv value, f func() string) {
	l := p.logger(lv)
	if l.w.t == nil || l.w.t.String() == "io.discard" {
		return
	}
	msg := f()
	if !strings.HasSuffix(msg, "\n") {
		msg += "\n"
	}
	fl := uint64(0)
	if l.flags.isConst() {
		fl = l.flags.val
	}
	pre, _ := str(l.prefix)
	h := ""
	if fl&64 == 0 {
		h += pre
	}
	if fl&3 != 0 && p.now.isConst() {
		h += hostTime(p.nowTerm().val).Format("2006/01/02 15:04:05.000000 ")
	}
	if fl&24 != 0 {
		h += "file.go:1: "
	}
	if fl&64 != 0 {
		h += pre
	}
	p.callMethod(l.w, "Write", p.strToBytes(p.fmtStr(h+msg)))
}

func (p *Path) stdout(s Slice) {
	o, _ := p.side["stdout"].(Slice)
	if o.arr == nil {
		o = Slice{of: p.c.Int(0), n: p.c.Int(0), cap: p.c.Int(0)}
	}
	p.side["stdout"] = p.appendOp(types.Typ[types.Uint8], o, s).(Slice)
}

func (p *Path) printOut(fr *frame, s string) value {
	b := p.strToBytes(p.fmtStr(s))
	p.stdout(b)
	return TupleV{b.n, Iface{}}
}

func (p *Path) fprint(fr *frame, w value, s string) value {
	return p.callMethod(w.(Iface), "Write", p.strToBytes(p.fmtStr(s)))
}

// ---- fmt ----

// hostArg converts an interface value for host formatting.
func (p *Path) hostArg(fr *frame, v Iface, verb byte) interface{} {
	if v.t == nil {
		return nil
	}
	if verb == 'T' {
		return fmtRaw(types.TypeString(v.t, func(pk *types.Package) string { return pk.Name() }))
	}
	if verb != 'd' && verb != 'p' && verb != 'x' || verb == 'v' || verb == 's' {
		for _, mn := range []string{"Error", "String"} {
			if m := p.prog.methodByName(v.t, mn); m != nil && m.Signature.Params().Len() == 0 && m.Signature.Results().Len() == 1 {
				if cell, ok := v.v.(*value); ok && cell == nil {
					return fmtRaw("<nil>")
				}
				r := p.callMethod(v, mn)
				if s, ok := r.(Str); ok {
					if s.bm != nil {
						if b, ok := p.concBytes(p.strToBytes(s)); ok {
							return string(b)
						}
						return p.symPart(s)
					}
					return s.s
				}
			}
		}
	}
	return p.hostVal(fr, v.t, v.v, verb)
}

type fmtRaw string

// fmtSym stands for a string that is not concrete: it is formatted as a
// placeholder which fmtStr replaces by the string's bytes.
type fmtSym string

func (r fmtSym) Format(f fmt.State, verb rune) {
	_, w := f.Width()
	_, pr := f.Precision()
	if w || pr || verb != 's' && verb != 'v' {
		f.Write([]byte(symText))
		return
	}
	f.Write([]byte(r))
}

func (p *Path) symPart(s Str) fmtSym {
	parts, _ := p.side["symparts"].([]Str)
	p.side["symparts"] = append(parts[:len(parts):len(parts)], s)
	return fmtSym(fmt.Sprintf("‹sym:%d›", len(parts)))
}

// fmtStr is the formatted text s with its placeholders replaced.
func (p *Path) fmtStr(s string) Str {
	if strings.Contains(s, symText) {
		return conc(s)
	}
	parts, _ := p.side["symparts"].([]Str)
	r := conc("")
	for {
		i := strings.Index(s, "‹sym:")
		if i < 0 {
			break
		}
		e := strings.Index(s[i:], "›")
		k, err := strconv.Atoi(s[i+len("‹sym:") : i+e])
		if err != nil || k >= len(parts) {
			break
		}
		r = p.strConcat(p.strConcat(r, conc(s[:i])), parts[k])
		s = s[i+e+len("›"):]
	}
	return p.strConcat(r, conc(s))
}

func (r fmtRaw) Format(f fmt.State, verb rune) { f.Write([]byte(r)) }

func (p *Path) hostVal(fr *frame, t types.Type, v value, verb byte) interface{} {
	switch x := v.(type) {
	case *Term:
		if !x.isConst() {
			return fmtRaw(symText)
		}
		if x.w == 0 {
			return x.val == 1
		}
		b, _ := t.Underlying().(*types.Basic)
		if b == nil || b.Info()&types.IsUnsigned == 0 {
			switch x.w {
			case 8:
				return int8(x.val)
			case 16:
				return int16(x.val)
			case 32:
				return int32(x.val)
			}
			return int64(x.val)
		}
		switch x.w {
		case 8:
			return uint8(x.val)
		case 16:
			return uint16(x.val)
		case 32:
			return uint32(x.val)
		}
		return x.val
	case float64:
		return x
	case Str:
		if x.bm != nil {
			return p.symPart(x)
		}
		return x.s
	case Slice:
		if st, ok := t.Underlying().(*types.Slice); ok {
			if w, ok := isByteLike(st.Elem()); ok && w == 8 {
				b, ok := p.concBytes(x)
				if !ok && verb == 's' {
					return p.symPart(p.bytesToStr(x))
				}
				if !ok {
					return fmtRaw(symText)
				}
				return b
			}
			if !x.n.isConst() || x.arr != nil && !x.of.isConst() {
				return fmtRaw(symText)
			}
			out := make([]interface{}, x.n.val)
			for i := range out {
				out[i] = p.hostArg(fr, Iface{st.Elem(), p.arrRead(x.arr, p.c.Add(x.of, p.c.Int(i)))}, verb)
			}
			return out
		}
	case Iface:
		return p.hostArg(fr, x, verb)
	case StructV:
		st := t.Underlying().(*types.Struct)
		s := "{"
		for i := range x {
			if i > 0 {
				s += " "
			}
			s += fmt.Sprint(p.hostArg(fr, Iface{st.Field(i).Type(), x[i]}, 'v'))
		}
		return fmtRaw(s + "}")
	case *value:
		if x == nil {
			return fmtRaw("<nil>")
		}
		return fmtRaw(fmt.Sprintf("0x%x", p.addrOf(x)))
	case Opaque:
		return fmtRaw(symText)
	}
	return fmtRaw(symText)
}

func (p *Path) ifaces(v value) []Iface {
	s := v.(Slice)
	if s.arr == nil {
		return nil
	}
	n := int(p.concretize(s.n, "variadic"))
	out := make([]Iface, n)
	for i := range out {
		out[i] = p.arrRead(s.arr, p.c.Add(s.of, p.c.Int(i))).(Iface)
	}
	return out
}

func (p *Path) sprint(fr *frame, v value, ln bool) string {
	ifs := p.ifaces(v)
	out := make([]interface{}, len(ifs))
	for i, a := range ifs {
		out[i] = p.hostArg(fr, a, 'v')
	}
	if ln {
		return fmt.Sprintln(out...)
	}
	return fmt.Sprint(out...)
}

func (p *Path) sprintf(fr *frame, f Str, v value) string {
	ifs := p.ifaces(v)
	if f.bm != nil {
		return symText
	}
	// find the verb of each argument (no explicit indexes)
	var verbs []byte
	for i := 0; i < len(f.s); i++ {
		if f.s[i] != '%' {
			continue
		}
		i++
		for i < len(f.s) && strings.IndexByte("+-# 0123456789.", f.s[i]) >= 0 {
			i++
		}
		if i < len(f.s) && f.s[i] == '*' {
			verbs = append(verbs, 'd')
			i++
		}
		if i < len(f.s) && f.s[i] != '%' {
			verbs = append(verbs, f.s[i])
		}
	}
	out := make([]interface{}, len(ifs))
	for i, a := range ifs {
		vb := byte('v')
		if i < len(verbs) {
			vb = verbs[i]
		}
		out[i] = p.hostArg(fr, a, vb)
	}
	return fmt.Sprintf(strings.ReplaceAll(f.s, "%w", "%v"), out...)
}

func fmtErrorf(p *Path, fr *frame, fn *ssa.Function, a []value) (value, bool) {
	f := a[0].(Str)
	msg := p.fmtStr(p.sprintf(fr, f, a[1]))
	if strings.Contains(f.s, "%w") && p.prog.wrapErr != nil {
		for _, x := range p.ifaces(a[1]) {
			if x.t != nil && p.prog.methodByName(x.t, "Error") != nil {
				cell := new(value)
				*cell = StructV{msg, x}
				return Iface{types.NewPointer(p.prog.wrapErr), cell}, true
			}
		}
	}
	return p.newError(msg), true
}

func (p *Path) newError(msg Str) Iface {
	cell := new(value)
	*cell = StructV{msg}
	return Iface{types.NewPointer(p.prog.errStr), cell}
}

// ---- encoding/binary ----

func isBig(order Iface) bool {
	return order.t != nil && strings.Contains(order.t.String(), "bigEndian")
}

func (p *Path) putInt(t *Term, big bool) []value {
	n := int(t.w / 8)
	if t.w == 0 {
		return []value{p.c.Ite(t, p.c.BV(8, 1), p.c.BV(8, 0))}
	}
	out := make([]value, n)
	for i := 0; i < n; i++ {
		b := p.c.Extract(t, uint8(i*8+7), uint8(i*8))
		if big {
			out[n-1-i] = b
		} else {
			out[i] = b
		}
	}
	return out
}

func (p *Path) flatten(t types.Type, v value, big bool, out *[]value) bool {
	switch x := v.(type) {
	case *Term:
		*out = append(*out, p.putInt(x, big)...)
		return true
	case StructV:
		st := t.Underlying().(*types.Struct)
		for i := range x {
			if !p.flatten(st.Field(i).Type(), x[i], big, out) {
				return false
			}
		}
		return true
	case ArrV:
		for i := range x {
			if !p.flatten(t.Underlying().(*types.Array).Elem(), x[i], big, out) {
				return false
			}
		}
		return true
	}
	return false
}

func binWrite(p *Path, fr *frame, fn *ssa.Function, a []value) (value, bool) {
	big := isBig(a[1].(Iface))
	d := a[2].(Iface)
	if d.t == nil {
		return p.newError(conc("binary.Write: some values are not fixed-sized in type <nil>")), true
	}
	t, v := d.t, d.v
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
		v = p.load(v)
	}
	var buf Slice
	switch x := v.(type) {
	case Slice:
		w, ok := isByteLike(t.Underlying().(*types.Slice).Elem())
		if !ok {
			p.unsupported("binary.Write slice")
		}
		if w == 8 {
			m, o, n := p.sliceMem(x)
			buf = p.memSlice(m, o, n)
		} else {
			n := p.concretize(x.n, "binary.Write")
			var out []value
			for i := uint64(0); i < n; i++ {
				out = append(out, p.putInt(p.arrRead(x.arr, p.c.Add(x.of, p.c.BV(64, i))).(*Term), big)...)
			}
			k := p.c.Int(len(out))
			buf = Slice{arr: &Arr{elems: out, w: 8}, of: p.c.Int(0), n: k, cap: k}
		}
	default:
		if b, ok := t.Underlying().(*types.Basic); ok {
			switch b.Kind() {
			case types.Int, types.Uint, types.Uintptr, types.String:
				return p.newError(conc("binary.Write: some values are not fixed-sized in type " + t.String())), true
			}
		}
		var out []value
		if !p.flatten(t, v, big, &out) {
			p.unsupported(fmt.Sprintf("binary.Write of %s", t))
		}
		k := p.c.Int(len(out))
		buf = Slice{arr: &Arr{elems: out, w: 8}, of: p.c.Int(0), n: k, cap: k}
	}
	r := p.callMethod(a[0].(Iface), "Write", buf)
	return r.(TupleV)[1], true
}

func (p *Path) getInt(bs []*Term, big bool) *Term {
	var r *Term
	for i := range bs {
		b := bs[i]
		if big {
			b = bs[len(bs)-1-i]
		}
		if r == nil {
			r = b
		} else {
			r = p.c.Concat(b, r)
		}
	}
	return r
}

func (p *Path) unflatten(t types.Type, bs []*Term, big bool) (value, int, bool) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsInteger != 0 && u.Kind() != types.Int && u.Kind() != types.Uint && u.Kind() != types.Uintptr {
			n := int(basicWidth(u) / 8)
			if bs == nil {
				return nil, n, true
			}
			return p.getInt(bs[:n], big), n, true
		}
	case *types.Array:
		var out ArrV
		k := 0
		for i := int64(0); i < u.Len(); i++ {
			var sub []*Term
			if bs != nil {
				sub = bs[k:]
			}
			v, n, ok := p.unflatten(u.Elem(), sub, big)
			if !ok {
				return nil, 0, false
			}
			out = append(out, v)
			k += n
		}
		return out, k, true
	case *types.Struct:
		var out StructV
		k := 0
		for i := 0; i < u.NumFields(); i++ {
			var sub []*Term
			if bs != nil {
				sub = bs[k:]
			}
			v, n, ok := p.unflatten(u.Field(i).Type(), sub, big)
			if !ok {
				return nil, 0, false
			}
			out = append(out, v)
			k += n
		}
		return out, k, true
	}
	return nil, 0, false
}

func binRead(p *Path, fr *frame, fn *ssa.Function, a []value) (value, bool) {
	big := isBig(a[1].(Iface))
	d := a[2].(Iface)
	if d.t == nil {
		return p.newError(conc("binary.Read: invalid type <nil>")), true
	}
	readFull := p.prog.fnByName("io", "ReadFull")
	rd := func(buf Slice) Iface {
		r := p.callSSA(fr.g, fr, readFull, []value{a[0], buf}, nil).(TupleV)
		return r[1].(Iface)
	}
	var target Slice
	isSlice := false
	switch u := d.t.Underlying().(type) {
	case *types.Slice:
		target = d.v.(Slice)
		isSlice = true
		if w, ok := isByteLike(u.Elem()); !ok || w != 8 {
			p.unsupported("binary.Read into " + d.t.String())
		}
	case *types.Pointer:
		if st, ok := u.Elem().Underlying().(*types.Slice); ok {
			if w, ok := isByteLike(st.Elem()); !ok || w != 8 {
				p.unsupported("binary.Read into " + d.t.String())
			}
			target = p.load(d.v).(Slice)
			isSlice = true
			break
		}
		_, n, ok := p.unflatten(u.Elem(), nil, big)
		if !ok {
			return p.newError(conc("binary.Read: invalid type " + d.t.String())), true
		}
		nt := p.c.Int(n)
		buf := Slice{arr: p.newScalarArr(nt, 8), of: p.c.Int(0), n: nt, cap: nt}
		if e := rd(buf); e.t != nil {
			return e, true
		}
		bs := make([]*Term, n)
		for i := range bs {
			bs[i] = p.arrRead(buf.arr, p.c.Int(i)).(*Term)
		}
		v, _, _ := p.unflatten(u.Elem(), bs, big)
		p.store(d.v, v)
		return Iface{}, true
	default:
		return p.newError(conc("binary.Read: invalid type " + d.t.String())), true
	}
	_ = isSlice
	if target.arr == nil {
		target = Slice{arr: p.newScalarArr(p.c.Int(0), 8), of: p.c.Int(0), n: p.c.Int(0), cap: p.c.Int(0)}
	}
	n := target.n
	buf := Slice{arr: p.newScalarArr(n, 8), of: p.c.Int(0), n: n, cap: n}
	if e := rd(buf); e.t != nil {
		return e, true
	}
	m, o, nn := p.sliceMem(buf)
	p.copyElems(target.arr, target.of, m, nil, o, nn)
	return Iface{}, true
}

// ---- hashing ----

func hostHash(alg int, b []byte) []byte {
	switch alg {
	case 0:
		h := md5.Sum(b)
		return h[:]
	case 1:
		h := sha1.Sum(b)
		return h[:]
	case 2:
		h := sha256.Sum256(b)
		return h[:]
	}
	h := sha512.Sum512(b)
	return h[:]
}

var hashLen = []int{16, 20, 32, 64}

// hashBytes is the hash of a byte slice: real for concrete data, otherwise an
// uninterpreted function of the content (with "opt hash=injective": one without
// collisions among symbolic inputs of one algorithm and length).
func (p *Path) hashBytes(alg int, s Slice) Slice {
	if b, ok := p.concBytes(s); ok {
		return p.bytesOf(hostHash(alg, b))
	}
	c := p.c
	n := p.concretize(s.n, "hash input length")
	inj := p.x.cse.opt["hash"] == "injective"
	// chain 8-byte blocks through an uninterpreted compression function
	st := c.BV(64, uint64(alg)+1)
	for i := uint64(0); i < n; i += 8 {
		var blk *Term
		for j := uint64(0); j < 8; j++ {
			var b *Term
			if i+j < n {
				b = p.arrRead(s.arr, c.Add(s.of, c.BV(64, i+j))).(*Term)
			} else {
				b = c.BV(8, 0)
			}
			if blk == nil {
				blk = b
			} else {
				blk = c.Concat(blk, b)
			}
		}
		prev := st
		st = c.App(64, "hash.compress", st, blk)
		if inj {
			p.assume(c.Eq(c.App(64, "hash.inv.state", st), prev))
			p.assume(c.Eq(c.App(64, "hash.inv.block", st), blk))
		}
	}
	prev := st
	st = c.App(64, fmt.Sprintf("hash.final%d.%d", alg, n), st)
	if inj {
		p.assume(c.Eq(c.App(64, fmt.Sprintf("hash.inv%d.%d", alg, n), st), prev))
	}
	out := make([]value, hashLen[alg])
	for i := range out {
		if inj && i < 8 {
			out[i] = c.Extract(st, uint8(8*i+7), uint8(8*i))
			continue
		}
		out[i] = c.App(8, "hash.out", st, c.BV(64, uint64(i)))
	}
	k := c.Int(len(out))
	return Slice{arr: &Arr{elems: out, w: 8}, of: c.Int(0), n: k, cap: k}
}

func fnv64(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

var _ = sort.Strings
