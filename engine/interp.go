package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"runtime/debug"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

func hostStack() string {
	s := string(debug.Stack())
	if len(s) > 4000 {
		s = s[:4000]
	}
	return s
}

type fnInfo struct {
	slot  map[ssa.Value]int
	n     int
	local bool // code of the repository (preemption points at memory accesses)
	name  string
	intr  intrinsic
	model *ssa.Function
	harn  bool
	net   bool // the model of the network
}

var fnInfoMu sync.Mutex

func (pr *Program) info(fn *ssa.Function) *fnInfo {
	if v, ok := pr.infos.Load(fn); ok {
		return v.(*fnInfo)
	}
	fi := &fnInfo{slot: map[ssa.Value]int{}}
	for _, v := range fn.Params {
		fi.slot[v] = fi.n
		fi.n++
	}
	for _, v := range fn.FreeVars {
		fi.slot[v] = fi.n
		fi.n++
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				fi.slot[v] = fi.n
				fi.n++
			}
		}
	}
	fi.name = fn.String()
	if o := fn.Origin(); o != nil {
		fi.name = o.String()
	}
	pkg := fn.Pkg
	if pkg == nil && fn.Origin() != nil {
		pkg = fn.Origin().Pkg
	}
	if pkg == nil && fn.Parent() != nil {
		pkg = fn.Parent().Pkg
	}
	if pkg != nil && strings.HasPrefix(pkg.Pkg.Path(), repoModule) {
		f := pr.fset.Position(fn.Pos()).Filename
		if strings.Contains(f, "zz_verif") {
			fi.harn = true
			fi.net = strings.Contains(fn.String(), "vConn)") || strings.Contains(fn.String(), "vNetT)")
		} else {
			fi.local = true
		}
	}
	fi.model = pr.models[fi.name]
	if fi.model == nil {
		fi.intr = lookupIntrinsic(fi.name, fn)
	}
	pr.infos.Store(fn, fi)
	return fi
}

type deferred struct {
	fn   value
	args []value
	pos  token.Pos
}

type frame struct {
	p      *Path
	g      *G
	fn     *ssa.Function
	info   *fnInfo
	env    []value
	block  *ssa.BasicBlock
	prev   *ssa.BasicBlock
	defers []deferred
	result value
	curPos token.Pos
	caller *frame
	// panics
	panicking *targetPanic
	recovered bool
	deferOf   *frame // frame whose defers are running this call
	lenient   bool
}

func (fr *frame) get(v ssa.Value) value {
	switch v := v.(type) {
	case *ssa.Const:
		return fr.p.constVal(v)
	case *ssa.Global:
		return fr.p.global(v)
	case *ssa.Function:
		return v
	case *ssa.Builtin:
		return v
	case nil:
		return nil
	}
	i, ok := fr.info.slot[v]
	if !ok {
		panic(fmt.Sprintf("get: no slot for %s in %s", v.Name(), fr.fn))
	}
	return fr.env[i]
}

func (fr *frame) set(v ssa.Value, x value) { fr.env[fr.info.slot[v]] = x }

func (fr *frame) term(v ssa.Value) *Term {
	x := fr.get(v)
	t, ok := x.(*Term)
	if !ok {
		fr.p.unsupported(fmt.Sprintf("expected scalar, got %T for %s in %s", x, v, fr.fn))
	}
	return t
}

func (p *Path) constVal(c *ssa.Const) value {
	t := c.Type()
	if c.Value == nil {
		return p.zero(t)
	}
	if tp, ok := t.(*types.TypeParam); ok {
		_ = tp
		p.unsupported("type param constant")
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		p.unsupported("const of type " + t.String())
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return p.c.Bool(constant.BoolVal(c.Value))
	case b.Info()&types.IsInteger != 0:
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return p.c.BV(basicWidth(b), uint64(i))
		}
		if u, ok := constant.Uint64Val(v); ok {
			return p.c.BV(basicWidth(b), u)
		}
		p.unsupported("const int")
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(c.Value)
		return f
	case b.Info()&types.IsString != 0:
		if c.Value.Kind() == constant.String {
			return conc(constant.StringVal(c.Value))
		}
		i, _ := constant.Int64Val(c.Value)
		return conc(string(rune(i)))
	}
	p.unsupported("const " + c.String())
	return nil
}

// ---- calls ----

// callValue calls a function value.
func (p *Path) callValue(g *G, caller *frame, fn value, args []value) value {
	switch f := fn.(type) {
	case *ssa.Function:
		if f == nil {
			p.goPanicStr("runtime error: invalid memory address or nil pointer dereference")
		}
		return p.callSSA(g, caller, f, args, nil)
	case *Closure:
		if f == nil {
			p.goPanicStr("runtime error: invalid memory address or nil pointer dereference")
		}
		return p.callSSA(g, caller, f.fn, args, f.env)
	case *ssa.Builtin:
		return p.callBuiltin(caller, f, args, nil)
	case func(args []value) value:
		return f(args)
	case Opaque:
		p.unsupported("call of opaque function value")
	}
	panic(fmt.Sprintf("callValue %T", fn))
}

const maxDepth = 5000

func (p *Path) callSSA(g *G, caller *frame, fn *ssa.Function, args []value, env []value) value {
	fi := p.prog.info(fn)
	if fi.model != nil {
		m := fi.model
		if !(caller != nil && caller.fn == m) {
			p.noteModel(fi.name)
			return p.callSSA(g, caller, m, args, nil)
		}
	}
	if fi.intr != nil {
		fr := caller
		if fr == nil {
			fr = &frame{p: p, g: g, fn: fn, info: fi}
		}
		if r, ok := fi.intr(p, fr, fn, args); ok {
			return r
		}
	}
	return p.execSSA(g, caller, fn, args, env)
}

// execSSA interprets the body of fn.
func (p *Path) execSSA(g *G, caller *frame, fn *ssa.Function, args []value, env []value) value {
	fi := p.prog.info(fn)
	if fn.Blocks == nil {
		p.unsupported("call of external function " + fi.name)
	}
	if len(g.frames) > maxDepth {
		p.violation(nil, "stack overflow: unbounded recursion at "+g.stackStr(6))
	}
	if fi.local {
		p.fns[fn]++
	}
	fr := &frame{p: p, g: g, fn: fn, info: fi, env: make([]value, fi.n), caller: caller}
	fr.curPos = fn.Pos()
	copy(fr.env, args)
	for i := range fn.FreeVars {
		fr.env[len(fn.Params)+i] = env[i]
	}
	g.frames = append(g.frames, fr)
	depth := len(g.frames)
	fr.block = fn.Blocks[0]
	for fr.block != nil {
		fr.run()
	}
	if !p.dead {
		g.frames = g.frames[:depth-1]
	}
	return fr.result
}

// run executes until return or panic, handling defers.
func (fr *frame) run() {
	normal := false
	defer func() {
		if normal {
			return
		}
		r := recover()
		switch r := r.(type) {
		case targetPanic:
			// unwind: drop inner frames
			for i, f := range fr.g.frames {
				if f == fr {
					fr.g.frames = fr.g.frames[:i+1]
					break
				}
			}
			fr.panicking = &r
			fr.runDefers()
			if fr.panicking != nil {
				pp := *fr.panicking
				fr.g.frames = fr.g.frames[:len(fr.g.frames)-1]
				panic(pp)
			}
			fr.prev = nil
			fr.block = fr.fn.Recover
			if fr.block == nil {
				// no recover block: return zero results
				fr.result = fr.p.zeroResults(fr.fn)
			}
		case nil:
			panic(killSentinel{}) // runtime.Goexit or the like
		default:
			panic(r)
		}
	}()
	for {
		if fr.exec() {
			normal = true
			return
		}
	}
}

func (p *Path) zeroResults(fn *ssa.Function) value {
	res := fn.Signature.Results()
	switch res.Len() {
	case 0:
		return nil
	case 1:
		return p.zero(res.At(0).Type())
	}
	r := make(TupleV, res.Len())
	for i := range r {
		r[i] = p.zero(res.At(i).Type())
	}
	return r
}

// runDefers runs the deferred calls of fr.
func (fr *frame) runDefers() {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		fr.runDefer(d)
	}
}

func (fr *frame) runDefer(d deferred) {
	ok := false
	defer func() {
		if ok {
			return
		}
		r := recover()
		if tp, is := r.(targetPanic); is {
			for i, f := range fr.g.frames {
				if f == fr {
					fr.g.frames = fr.g.frames[:i+1]
					break
				}
			}
			fr.panicking = &tp // replaces
			return
		}
		panic(r)
	}()
	fr.p.callDeferred(fr, d)
	ok = true
}

func (p *Path) callDeferred(fr *frame, d deferred) {
	// the called frame's "caller" is fr; recover() looks at caller.panicking
	if b, ok := d.fn.(*ssa.Builtin); ok {
		p.callBuiltin(fr, b, d.args, nil)
		return
	}
	p.callValue(fr.g, fr, d.fn, d.args)
}

// exec runs one basic block; true when the function returned.
func (fr *frame) exec() bool {
	p := fr.p
	b := fr.block
	// phis first, in parallel
	i := 0
	if fr.prev != nil {
		var vals []value
		for i < len(b.Instrs) {
			phi, ok := b.Instrs[i].(*ssa.Phi)
			if !ok {
				break
			}
			for k, pr := range b.Preds {
				if pr == fr.prev {
					vals = append(vals, fr.get(phi.Edges[k]))
					break
				}
			}
			i++
		}
		for k := 0; k < i; k++ {
			fr.set(b.Instrs[k].(*ssa.Phi), vals[k])
		}
	}
	for ; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		if ps := in.Pos(); ps.IsValid() {
			fr.curPos = ps
		}
		p.steps++
		if p.steps&1023 == 0 && p.dead {
			panic(killSentinel{})
		}
		if p.steps > p.maxSteps {
			p.end(StLimit, "step limit at "+p.lastPosStr())
		}
		switch in := in.(type) {
		case *ssa.Jump:
			fr.prev = b
			fr.block = b.Succs[0]
			return false
		case *ssa.If:
			c := fr.term(in.Cond)
			fr.prev = b
			if p.branch(c) {
				fr.block = b.Succs[0]
			} else {
				fr.block = b.Succs[1]
			}
			return false
		case *ssa.Return:
			switch len(in.Results) {
			case 0:
				fr.result = nil
			case 1:
				fr.result = fr.get(in.Results[0])
			default:
				r := make(TupleV, len(in.Results))
				for k, x := range in.Results {
					r[k] = fr.get(x)
				}
				fr.result = r
			}
			fr.block = nil
			return true
		case *ssa.RunDefers:
			fr.runDefers()
			if fr.panicking != nil {
				pp := *fr.panicking
				fr.panicking = nil
				panic(pp)
			}
		case *ssa.Panic:
			v, _ := fr.get(in.X).(Iface)
			panic(targetPanic{v: v, stack: fr.g.stackStr(8)})
		default:
			fr.instr(in)
		}
	}
	panic("fell off block in " + fr.fn.String())
}

func (fr *frame) instr(in ssa.Instruction) {
	p := fr.p
	c := p.c
	switch in := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		if in.Comment == "makeslice" {
			// make([]T, const): a large scalar buffer is kept sparse
			at := in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
			if w, ok := isByteLike(at.Elem()); ok && at.Len() > denseLimit {
				fr.set(in, &Arr{bm: &BMem{kind: bmZero, w: w}, w: w})
				return
			}
		}
		cell := new(value)
		*cell = p.zero(in.Type().Underlying().(*types.Pointer).Elem())
		fr.set(in, cell)
	case *ssa.UnOp:
		fr.set(in, fr.unop(in))
	case *ssa.BinOp:
		fr.set(in, p.binop(in.Op, in.X.Type(), fr.get(in.X), fr.get(in.Y), in.Y.Type()))
	case *ssa.Call:
		fr.set(in, fr.call(&in.Call))
	case *ssa.ChangeInterface:
		fr.set(in, fr.get(in.X))
	case *ssa.ChangeType:
		fr.set(in, fr.get(in.X))
	case *ssa.Convert:
		fr.set(in, p.convert(in.X.Type(), in.Type(), fr.get(in.X)))
	case *ssa.MultiConvert:
		fr.set(in, p.convert(in.X.Type(), in.Type(), fr.get(in.X)))
	case *ssa.MakeInterface:
		fr.set(in, Iface{in.X.Type(), fr.get(in.X)})
	case *ssa.Extract:
		tv := fr.get(in.Tuple)
		tup, ok := tv.(TupleV)
		if !ok {
			if o, ok := tv.(Opaque); ok {
				fr.set(in, o)
				return
			}
			panic(fmt.Sprintf("extract of %T", tv))
		}
		fr.set(in, tup[in.Index])
	case *ssa.Slice:
		fr.set(in, fr.sliceOp(in))
	case *ssa.Store:
		if fr.info.local {
			p.memPoint(fr, in.Addr)
		}
		if p.raceOn {
			p.memAccess(fr, fr.get(in.Addr), true)
		}
		p.store(fr.get(in.Addr), fr.get(in.Val))
	case *ssa.FieldAddr:
		x := fr.get(in.X)
		ptr, ok := x.(*value)
		if !ok {
			if o, is := x.(Opaque); is {
				p.unsupported("field of opaque " + o.what)
			}
			panic(fmt.Sprintf("FieldAddr on %T in %s", x, fr.fn))
		}
		if ptr == nil {
			p.nilDeref()
		}
		st, ok := (*ptr).(StructV)
		if !ok {
			p.unsupported(fmt.Sprintf("FieldAddr on cell holding %T in %s", *ptr, fr.fn))
		}
		fr.set(in, &st[in.Field])
	case *ssa.Field:
		st, ok := fr.get(in.X).(StructV)
		if !ok {
			p.unsupported("field of non-struct value")
		}
		fr.set(in, st[in.Field])
	case *ssa.IndexAddr:
		fr.set(in, fr.indexAddr(in))
	case *ssa.Index:
		fr.set(in, fr.index(in))
	case *ssa.Lookup:
		fr.set(in, fr.lookup(in))
	case *ssa.MapUpdate:
		m, _ := fr.get(in.Map).(*MapV)
		if m == nil {
			p.goPanicPlain("assignment to entry in nil map")
		}
		if fr.info.local {
			p.memPoint(fr, in.Map)
			p.mapAccess(m, true)
		}
		p.mapSet(m, copyVal(fr.get(in.Key)), copyVal(fr.get(in.Value)))
	case *ssa.MakeMap:
		fr.set(in, newMap(in.Type().Underlying().(*types.Map).Key()))
	case *ssa.MakeChan:
		n := fr.term(in.Size)
		if !n.isConst() {
			n = c.BV(64, p.concretize(n, "chan size"))
		}
		et := in.Type().Underlying().(*types.Chan).Elem()
		p.uniq++
		fr.set(in, &ChanV{cap: int(n.val), zero: func() value { return p.zero(et) }, id: p.uniq})
	case *ssa.MakeSlice:
		fr.set(in, p.makeSlice(in.Type().Underlying().(*types.Slice).Elem(), p.idx64(fr.term(in.Len), in.Len.Type()), p.idx64(fr.term(in.Cap), in.Cap.Type())))
	case *ssa.MakeClosure:
		var env []value
		for _, b := range in.Bindings {
			env = append(env, fr.get(b))
		}
		fr.set(in, &Closure{in.Fn.(*ssa.Function), env})
	case *ssa.TypeAssert:
		fr.set(in, p.typeAssert(in, fr.get(in.X)))
	case *ssa.Range:
		fr.set(in, fr.rangeOp(in))
	case *ssa.Next:
		fr.set(in, fr.next(in))
	case *ssa.Send:
		p.chanSend(fr.get(in.Chan).(*ChanV), copyVal(fr.get(in.X)))
	case *ssa.Select:
		fr.set(in, fr.selectInstr(in))
	case *ssa.Go:
		fn, args := fr.prepare(&in.Call)
		p.goCall(fn, args, fnName(fn))
		p.preemptPoint("go")
	case *ssa.Defer:
		fn, args := fr.prepare(&in.Call)
		fr.defers = append(fr.defers, deferred{fn, args, in.Pos()})
	case *ssa.SliceToArrayPointer:
		s := fr.get(in.X).(Slice)
		n := in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		if !p.branch(c.Ule(c.BV(64, uint64(n)), s.n)) {
			p.goPanicStr("runtime error: cannot convert slice to array pointer: length too short")
		}
		if s.arr == nil {
			if n == 0 {
				cell := new(value)
				*cell = ArrV{}
				fr.set(in, cell)
				return
			}
			fr.set(in, (*value)(nil))
			return
		}
		cell := new(value)
		if s.arr.bm == nil && s.of.isConst() {
			*cell = ArrV(s.arr.elems[s.of.val : s.of.val+uint64(n) : s.of.val+uint64(n)])
		} else if s.arr.bm != nil || n <= 4096 {
			// materialise (aliasing lost: only sound for reads)
			av := make(ArrV, n)
			for i := range av {
				av[i] = p.arrRead(s.arr, c.Add(s.of, c.Int(i)))
			}
			*cell = av
		}
		fr.set(in, cell)
	default:
		p.unsupported(fmt.Sprintf("instruction %T", in))
	}
}

// memPoint is a preemption point before a shared memory access in repository
// code.
func (p *Path) memPoint(fr *frame, addr ssa.Value) {
	if !p.schedOn || p.preempt <= 0 || p.raceOn {
		// (a race is found whatever the order within a stretch without
		// synchronisation)
		return
	}
	switch a := addr.(type) {
	case *ssa.Alloc:
		if !a.Heap {
			return
		}
	case *ssa.FieldAddr, *ssa.IndexAddr:
		// root
		v := addr
		for {
			switch x := v.(type) {
			case *ssa.FieldAddr:
				v = x.X
				continue
			case *ssa.IndexAddr:
				v = x.X
				continue
			case *ssa.Alloc:
				if !x.Heap {
					return
				}
			}
			break
		}
	}
	p.preemptPoint("mem")
}

func (p *Path) nilDeref() {
	p.goPanicStr("runtime error: invalid memory address or nil pointer dereference")
}

func (p *Path) load(addr value) value {
	switch a := addr.(type) {
	case *value:
		if a == nil {
			p.nilDeref()
		}
		return copyVal(*a)
	case *ElemPtr:
		return p.arrRead(a.arr, a.idx)
	case *sliceData:
		return p.arrRead(a.s.arr, a.s.of)
	case Opaque:
		p.unsupported("load through opaque " + a.what)
	}
	panic(fmt.Sprintf("load %T", addr))
}

func (p *Path) store(addr, v value) {
	switch a := addr.(type) {
	case *value:
		if a == nil {
			p.nilDeref()
		}
		storeIn(a, v)
		return
	case *ElemPtr:
		p.arrWrite(a.arr, a.idx, v)
		return
	case Opaque:
		p.unsupported("store through opaque " + a.what)
	}
	panic(fmt.Sprintf("store %T", addr))
}

// storeIn stores in place so that pointers to fields/elements stay valid.
func storeIn(a *value, v value) {
	switch v := v.(type) {
	case StructV:
		if d, ok := (*a).(StructV); ok && len(d) == len(v) {
			// v may alias d partially: copy first
			t := copyVal(v).(StructV)
			for i := range t {
				storeIn(&d[i], t[i])
			}
			return
		}
	case ArrV:
		if d, ok := (*a).(ArrV); ok && len(d) == len(v) {
			t := copyVal(v).(ArrV)
			for i := range t {
				storeIn(&d[i], t[i])
			}
			return
		}
	}
	*a = copyVal(v)
}

func (fr *frame) unop(in *ssa.UnOp) value {
	p := fr.p
	c := p.c
	x := fr.get(in.X)
	switch in.Op {
	case token.MUL:
		if fr.info.local {
			p.memPoint(fr, in.X)
		}
		if p.raceOn {
			p.memAccess(fr, x, false)
		}
		return p.load(x)
	case token.ARROW:
		ch := x.(*ChanV)
		v, ok := p.chanRecv(ch)
		if in.CommaOk {
			return TupleV{v, c.Bool(ok)}
		}
		return v
	case token.NOT:
		return c.Not(x.(*Term))
	case token.SUB:
		switch v := x.(type) {
		case *Term:
			return c.Neg(v)
		case float64:
			return -v
		}
		return Opaque{"float"}
	case token.XOR:
		return c.BNot(x.(*Term))
	}
	p.unsupported("unop " + in.Op.String())
	return nil
}

func (p *Path) binop(op token.Token, t types.Type, x, y value, yt types.Type) value {
	c := p.c
	switch op {
	case token.EQL:
		return p.equalOp(t, x, y, yt)
	case token.NEQ:
		return c.Not(p.equalOp(t, x, y, yt))
	}
	if a, ok := x.(*Term); ok {
		b, ok := y.(*Term)
		if !ok {
			p.unsupported(fmt.Sprintf("binop %s %T", op, y))
		}
		sg := isSigned(t)
		switch op {
		case token.ADD:
			return c.Add(a, b)
		case token.SUB:
			return c.Sub(a, b)
		case token.MUL:
			return c.Bin(OMul, a, b)
		case token.QUO, token.REM:
			if p.branch(c.Eq(b, c.BV(b.w, 0))) {
				p.goPanicStr("runtime error: integer divide by zero")
			}
			switch {
			case op == token.QUO && sg:
				return c.Bin(OSDiv, a, b)
			case op == token.QUO:
				return c.Bin(OUDiv, a, b)
			case sg:
				return c.Bin(OSRem, a, b)
			}
			return c.Bin(OURem, a, b)
		case token.AND:
			if a.w == 0 {
				return c.And(a, b)
			}
			return c.Bin(OBAnd, a, b)
		case token.OR:
			if a.w == 0 {
				return c.Or(a, b)
			}
			return c.Bin(OBOr, a, b)
		case token.XOR:
			return c.Bin(OBXor, a, b)
		case token.AND_NOT:
			return c.Bin(OBAnd, a, c.BNot(b))
		case token.SHL, token.SHR:
			if isSigned(yt) {
				if p.branch(c.Slt(b, c.BV(b.w, 0))) {
					p.goPanicStr("runtime error: negative shift amount")
				}
			}
			o := OShl
			if op == token.SHR {
				o = OLShr
				if sg {
					o = OAShr
				}
			}
			if b.w < a.w {
				b = c.Zext(b, a.w)
			} else if b.w > a.w {
				if b.umax <= mask(a.w) {
					b = c.Extract(b, a.w-1, 0)
				} else {
					big := c.Ule(c.BV(b.w, uint64(a.w)), b)
					b = c.Ite(big, c.BV(a.w, uint64(a.w)), c.Extract(b, a.w-1, 0))
				}
			}
			return c.Bin(o, a, b)
		case token.LSS:
			if sg {
				return c.Slt(a, b)
			}
			return c.Ult(a, b)
		case token.LEQ:
			if sg {
				return c.Sle(a, b)
			}
			return c.Ule(a, b)
		case token.GTR:
			if sg {
				return c.Slt(b, a)
			}
			return c.Ult(b, a)
		case token.GEQ:
			if sg {
				return c.Sle(b, a)
			}
			return c.Ule(b, a)
		}
	}
	if a, ok := x.(float64); ok {
		if b, ok := y.(float64); ok {
			is32 := false
			if bt, ok := t.Underlying().(*types.Basic); ok && bt.Kind() == types.Float32 {
				is32 = true
			}
			r := func(f float64) value {
				if is32 {
					return float64(float32(f))
				}
				return f
			}
			switch op {
			case token.ADD:
				return r(a + b)
			case token.SUB:
				return r(a - b)
			case token.MUL:
				return r(a * b)
			case token.QUO:
				return r(a / b)
			case token.LSS:
				return c.Bool(a < b)
			case token.LEQ:
				return c.Bool(a <= b)
			case token.GTR:
				return c.Bool(a > b)
			case token.GEQ:
				return c.Bool(a >= b)
			}
		}
	}
	_, o1 := x.(Opaque)
	_, o2 := y.(Opaque)
	if o1 || o2 {
		switch op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			p.unsupported("comparison of opaque float")
		}
		return Opaque{"arith"}
	}
	if a, ok := x.(Str); ok {
		b := y.(Str)
		switch op {
		case token.ADD:
			return p.strConcat(a, b)
		}
		if a.bm != nil || b.bm != nil {
			p.unsupported("ordering of symbolic strings")
		}
		switch op {
		case token.LSS:
			return c.Bool(a.s < b.s)
		case token.LEQ:
			return c.Bool(a.s <= b.s)
		case token.GTR:
			return c.Bool(a.s > b.s)
		case token.GEQ:
			return c.Bool(a.s >= b.s)
		}
	}
	p.unsupported(fmt.Sprintf("binop %s on %T %T", op, x, y))
	return nil
}

func (p *Path) strConcat(a, b Str) Str {
	if a.bm == nil && b.bm == nil {
		return conc(a.s + b.s)
	}
	if a.bm == nil && a.s == "" {
		return b
	}
	if b.bm == nil && b.s == "" {
		return a
	}
	c := p.c
	m1, o1, n1 := p.strMem(a)
	m2, o2, n2 := p.strMem(b)
	n := c.Add(n1, n2)
	arr := p.newScalarArr(n, 8)
	p.copyElems(arr, c.Int(0), m1, nil, o1, n1)
	p.copyElems(arr, n1, m2, nil, o2, n2)
	return p.mkStr(p.snapshot(arr), c.Int(0), n)
}

func (p *Path) equalOp(t types.Type, x, y value, yt types.Type) *Term {
	_, xi := x.(Iface)
	_, yi := y.(Iface)
	if xi && !yi {
		y = Iface{yt, y}
	} else if yi && !xi {
		x = Iface{t, x}
	}
	if s, ok := x.(Str); ok && isSymText(s) {
		p.unsupported("comparison of formatted symbolic text")
	}
	if s, ok := y.(Str); ok && isSymText(s) {
		p.unsupported("comparison of formatted symbolic text")
	}
	// function compared with nil
	if f, ok := x.(*ssa.Function); ok {
		if cl, ok := y.(*Closure); ok && cl == nil {
			return p.c.Bool(f == nil)
		}
	}
	if cl, ok := x.(*Closure); ok {
		if f, ok2 := y.(*ssa.Function); ok2 {
			return p.c.Bool(cl == nil && f == nil)
		}
	}
	return p.equal(t, x, y)
}

const symText = "‹sym›"

func isSymText(s Str) bool { return s.bm == nil && strings.Contains(s.s, symText) }

func (p *Path) convert(from, to types.Type, x value) value {
	c := p.c
	if o, ok := x.(Opaque); ok {
		return o
	}
	tu := to.Underlying()
	fu := from.Underlying()
	switch tt := tu.(type) {
	case *types.Basic:
		switch {
		case tt.Kind() == types.UnsafePointer:
			return x
		case tt.Info()&types.IsInteger != 0:
			w := basicWidth(tt)
			switch v := x.(type) {
			case *Term:
				if v.w == w {
					return v
				}
				if v.w > w {
					return c.Extract(v, w-1, 0)
				}
				if isSigned(from) {
					return c.Sext(v, w)
				}
				return c.Zext(v, w)
			case float64:
				if tt.Info()&types.IsUnsigned != 0 {
					return c.BV(w, uint64(v))
				}
				return c.BV(w, uint64(int64(v)))
			case *value:
				// uintptr(unsafe.Pointer)
				return c.BV(64, p.addrOf(v))
			}
		case tt.Info()&types.IsFloat != 0:
			switch v := x.(type) {
			case float64:
				if tt.Kind() == types.Float32 {
					return float64(float32(v))
				}
				return v
			case *Term:
				if v.isConst() {
					if isSigned(from) {
						return float64(sx(v.val, v.w))
					}
					return float64(v.val)
				}
				return Opaque{"float of symbolic"}
			}
		case tt.Info()&types.IsString != 0:
			switch v := x.(type) {
			case Str:
				return v
			case Slice:
				if b, ok := fu.(*types.Slice); ok {
					if eb, ok := b.Elem().Underlying().(*types.Basic); ok && eb.Kind() == types.Uint8 {
						return p.bytesToStr(v)
					}
					// []rune
					return p.runesToStr(v)
				}
			case *Term:
				if v.isConst() {
					return conc(string(rune(sx(v.val, v.w))))
				}
				k := p.concretize(v, "string(rune)")
				return conc(string(rune(sx(k, v.w))))
			}
		}
	case *types.Slice:
		switch v := x.(type) {
		case Str:
			eb, _ := tt.Elem().Underlying().(*types.Basic)
			if eb.Kind() == types.Uint8 {
				return p.strToBytes(v)
			}
			if v.bm != nil {
				p.unsupported("[]rune of symbolic string")
			}
			rs := []rune(v.s)
			e := make([]value, len(rs))
			for i, r := range rs {
				e[i] = c.BV(32, uint64(r))
			}
			n := c.Int(len(rs))
			return Slice{arr: &Arr{elems: e, w: 32}, of: c.Int(0), n: n, cap: n}
		case Slice:
			return v
		}
	case *types.Pointer, *types.Signature, *types.Chan, *types.Map, *types.Struct, *types.Interface, *types.Array:
		if a, ok := tu.(*types.Array); ok {
			if s, ok := x.(Slice); ok {
				n := a.Len()
				if !p.branch(c.Ule(c.BV(64, uint64(n)), s.n)) {
					p.goPanicStr("runtime error: cannot convert slice to array: length too short")
				}
				av := make(ArrV, n)
				for i := range av {
					av[i] = copyVal(p.arrRead(s.arr, c.Add(s.of, c.Int(i))))
				}
				return av
			}
		}
		return x
	}
	p.unsupported(fmt.Sprintf("convert %s -> %s (%T)", from, to, x))
	return nil
}

func (p *Path) addrOf(v *value) uint64 {
	if v == nil {
		return 0
	}
	m, _ := p.side["addr"].(map[*value]uint64)
	if m == nil {
		m = map[*value]uint64{}
		p.side["addr"] = m
	}
	if a, ok := m[v]; ok {
		return a
	}
	a := 0xc000000000 + uint64(len(m))*64
	m[v] = a
	return a
}

func (p *Path) runesToStr(s Slice) value {
	n := p.concretize(s.n, "rune string length")
	var sb strings.Builder
	for i := uint64(0); i < n; i++ {
		t := p.arrRead(s.arr, p.c.Add(s.of, p.c.BV(64, i))).(*Term)
		if !t.isConst() {
			// ASCII-only symbolic runes
			return p.symRunes(s, n)
		}
		sb.WriteRune(rune(sx(t.val, 32)))
	}
	return conc(sb.String())
}

func (p *Path) symRunes(s Slice, n uint64) value {
	d := make([]*Term, n)
	for i := uint64(0); i < n; i++ {
		t := p.arrRead(s.arr, p.c.Add(s.of, p.c.BV(64, i))).(*Term)
		if !p.valid(p.c.Ult(t, p.c.BV(32, 128))) {
			p.unsupported("string of non-ASCII symbolic runes")
		}
		d[i] = p.c.Extract(t, 7, 0)
	}
	return Str{bm: &BMem{kind: bmDense, w: 8, dense: d}, of: p.c.Int(0), n: p.c.BV(64, n)}
}

// ---- aggregates ----

func (p *Path) makeSlice(et types.Type, n, cp *Term) value {
	c := p.c
	if p.branch(c.Or(c.Slt(n, c.Int(0)), c.Slt(c.BV(64, 1<<40), n))) {
		p.goPanicStr("runtime error: makeslice: len out of range")
	}
	if n != cp {
		if p.branch(c.Or(c.Slt(cp, n), c.Slt(c.BV(64, 1<<40), cp))) {
			p.goPanicStr("runtime error: makeslice: cap out of range")
		}
	}
	if w, ok := isByteLike(et); ok {
		return Slice{arr: p.newScalarArr(cp, w), of: c.Int(0), n: n, cap: cp}
	}
	if !n.isConst() {
		n = c.BV(64, p.concretize(n, "make length"))
	}
	if !cp.isConst() {
		cp = c.BV(64, p.concretize(cp, "make cap"))
	}
	if cp.val > 1<<22 {
		p.unsupported("huge slice")
	}
	e := make([]value, cp.val)
	for i := range e {
		e[i] = p.zero(et)
	}
	return Slice{arr: &Arr{elems: e}, of: c.Int(0), n: n, cap: cp}
}

func (fr *frame) boundsIdx(i *Term, n *Term) {
	p := fr.p
	if !p.branch(p.c.Ult(i, n)) {
		is, ns := "?", "?"
		if i.isConst() {
			is = fmt.Sprint(int64(i.val))
		}
		if n.isConst() {
			ns = fmt.Sprint(int64(n.val))
		}
		p.goPanicStr("runtime error: index out of range [" + is + "] with length " + ns)
	}
}

func (p *Path) idx64(t *Term, typ types.Type) *Term {
	if t.w == 64 {
		return t
	}
	if isSigned(typ) {
		return p.c.Sext(t, 64)
	}
	return p.c.Zext(t, 64)
}

func (fr *frame) indexAddr(in *ssa.IndexAddr) value {
	p := fr.p
	c := p.c
	i := p.idx64(fr.term(in.Index), in.Index.Type())
	switch x := fr.get(in.X).(type) {
	case Slice:
		fr.boundsIdx(i, x.n)
		return p.elemAddr(x.arr, c.Add(x.of, i))
	case *value:
		if x == nil {
			p.nilDeref()
		}
		av, ok := (*x).(ArrV)
		if !ok {
			p.unsupported("IndexAddr on non-array cell")
		}
		fr.boundsIdx(i, c.Int(len(av)))
		if i.isConst() {
			return &av[i.val]
		}
		return p.elemAddr(&Arr{elems: av}, i)
	case Opaque:
		p.unsupported("index of opaque")
	}
	panic(fmt.Sprintf("indexAddr %T", fr.get(in.X)))
}

func (p *Path) elemAddr(a *Arr, i *Term) value {
	if a.bm != nil {
		return &ElemPtr{a, i}
	}
	if i.isConst() {
		return &a.elems[i.val]
	}
	if len(a.elems) > 0 {
		if _, ok := a.elems[0].(*Term); ok {
			return &ElemPtr{a, i}
		}
	}
	k := p.concretize(i, "element address")
	return &a.elems[k]
}

func (fr *frame) index(in *ssa.Index) value {
	p := fr.p
	i := p.idx64(fr.term(in.Index), in.Index.Type())
	switch x := fr.get(in.X).(type) {
	case ArrV:
		fr.boundsIdx(i, p.c.Int(len(x)))
		return copyVal(p.arrRead(&Arr{elems: x}, i))
	case Str:
		fr.boundsIdx(i, p.strLen(x))
		return p.strAt(x, i)
	}
	p.unsupported("index")
	return nil
}

func (fr *frame) lookup(in *ssa.Lookup) value {
	p := fr.p
	switch x := fr.get(in.X).(type) {
	case Str:
		i := p.idx64(fr.term(in.Index), in.Index.Type())
		fr.boundsIdx(i, p.strLen(x))
		return p.strAt(x, i)
	case *MapV:
		if fr.info.local {
			p.memPoint(fr, in.X)
			p.mapAccess(x, false)
		}
		e := p.mapFind(x, fr.get(in.Index))
		var v value
		vt := in.X.Type().Underlying().(*types.Map).Elem()
		if e != nil {
			v = copyVal(e.v)
		} else {
			v = p.zero(vt)
		}
		if in.CommaOk {
			return TupleV{v, p.c.Bool(e != nil)}
		}
		return v
	}
	p.unsupported("lookup")
	return nil
}

func (fr *frame) sliceOp(in *ssa.Slice) value {
	p := fr.p
	c := p.c
	var lo, hi, max *Term
	if in.Low != nil {
		lo = p.idx64(fr.term(in.Low), in.Low.Type())
	} else {
		lo = c.Int(0)
	}
	if in.High != nil {
		hi = p.idx64(fr.term(in.High), in.High.Type())
	}
	if in.Max != nil {
		max = p.idx64(fr.term(in.Max), in.Max.Type())
	}
	x := fr.get(in.X)
	switch x := x.(type) {
	case Str:
		n := p.strLen(x)
		if hi == nil {
			hi = n
		}
		p.sliceCheck(lo, hi, n, n)
		if x.bm == nil {
			if lo.isConst() && hi.isConst() {
				return conc(x.s[lo.val:hi.val])
			}
			m, o, _ := p.strMem(x)
			return p.mkStr(m, c.Add(o, lo), c.Sub(hi, lo))
		}
		return p.mkStr(x.bm, c.Add(x.of, lo), c.Sub(hi, lo))
	case Slice:
		return p.reslice(x, lo, hi, max)
	case *Arr:
		n := c.Int(int(in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()))
		return p.reslice(Slice{arr: x, of: c.Int(0), n: n, cap: n}, lo, hi, max)
	case *value:
		if x == nil {
			p.nilDeref()
		}
		av := (*x).(ArrV)
		n := c.Int(len(av))
		w := uint8(0)
		if ww, ok := isByteLike(in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Elem()); ok {
			w = ww
		}
		return p.reslice(Slice{arr: &Arr{elems: av, w: w}, of: c.Int(0), n: n, cap: n}, lo, hi, max)
	}
	p.unsupported(fmt.Sprintf("slice of %T", x))
	return nil
}

func (p *Path) sliceCheck(lo, hi, max, cp *Term) {
	c := p.c
	ok := c.And(c.And(c.Ule(lo, hi), c.Ule(hi, max)), c.Ule(max, cp))
	if !p.branch(ok) {
		f := func(t *Term) string {
			if t.isConst() {
				return fmt.Sprint(int64(t.val))
			}
			return "?"
		}
		p.goPanicStr(fmt.Sprintf("runtime error: slice bounds out of range [%s:%s:%s] with capacity %s", f(lo), f(hi), f(max), f(cp)))
	}
}

func (p *Path) reslice(x Slice, lo, hi, max *Term) Slice {
	c := p.c
	if hi == nil {
		hi = x.n
	}
	mx := max
	if mx == nil {
		mx = x.cap
	}
	p.sliceCheck(lo, hi, mx, x.cap)
	if x.arr == nil {
		return x
	}
	return Slice{arr: x.arr, of: c.Add(x.of, lo), n: c.Sub(hi, lo), cap: c.Sub(mx, lo)}
}

// ---- calls ----

func (fr *frame) prepare(call *ssa.CallCommon) (value, []value) {
	p := fr.p
	if call.IsInvoke() {
		recv := fr.get(call.Value)
		ifc, ok := recv.(Iface)
		if !ok {
			p.unsupported(fmt.Sprintf("invoke %s on %T", call.Method.Name(), recv))
		}
		if ifc.t == nil {
			p.nilDeref()
		}
		fn := p.lookupMethod(ifc.t, call.Method)
		args := []value{copyVal(ifc.v)}
		for _, a := range call.Args {
			args = append(args, copyVal(fr.get(a)))
		}
		return fn, args
	}
	fn := fr.get(call.Value)
	args := make([]value, len(call.Args))
	for i, a := range call.Args {
		args[i] = copyVal(fr.get(a))
	}
	return fn, args
}

func (p *Path) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	fn := p.prog.method(t, m)
	if fn == nil {
		p.unsupported(fmt.Sprintf("no method %s on %s", m.Name(), t))
	}
	return fn
}

func (fr *frame) call(call *ssa.CallCommon) value {
	p := fr.p
	if b, ok := call.Value.(*ssa.Builtin); ok {
		args := make([]value, len(call.Args))
		for i, a := range call.Args {
			args[i] = fr.get(a)
		}
		return p.callBuiltin(fr, b, args, call)
	}
	fn, args := fr.prepare(call)
	pos := fr.curPos
	r := p.callValue(fr.g, fr, fn, args)
	fr.curPos = pos
	return r
}

type sliceData struct{ s Slice }
type strData struct{ s Str }

func (p *Path) callBuiltin(fr *frame, b *ssa.Builtin, args []value, call *ssa.CallCommon) value {
	c := p.c
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case Str:
			return p.strLen(x)
		case Slice:
			return x.n
		case *MapV:
			if x == nil {
				return c.Int(0)
			}
			if p.raceOn && !fr.info.harn && p.tracking() {
				p.raceAccess(mapLenKey{x}, false)
			}
			return c.Int(x.n)
		case *ChanV:
			if x == nil {
				return c.Int(0)
			}
			return c.Int(len(x.buf))
		case ArrV:
			return c.Int(len(x))
		case *value:
			return c.Int(len((*x).(ArrV)))
		case Opaque:
			p.unsupported("len of opaque")
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return x.cap
		case *ChanV:
			if x == nil {
				return c.Int(0)
			}
			return c.Int(x.cap)
		case ArrV:
			return c.Int(len(x))
		case *value:
			return c.Int(len((*x).(ArrV)))
		}
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		var et types.Type
		et = b.Type().(*types.Signature).Params().At(0).Type().Underlying().(*types.Slice).Elem()
		return p.appendOp(et, args[0].(Slice), args[1])
	case "copy":
		dst := args[0].(Slice)
		return p.copyOp(dst, args[1])
	case "delete":
		m, _ := args[0].(*MapV)
		if m != nil {
			if fs := p.cur.frames; len(fs) > 0 && fs[len(fs)-1].info.local {
				p.preemptPoint("mem")
				p.mapAccess(m, true)
			}
			p.mapDelete(m, args[1])
		}
		return nil
	case "close":
		p.chanClose(args[0].(*ChanV))
		return nil
	case "panic":
		v, _ := args[0].(Iface)
		panic(targetPanic{v: v, stack: fr.g.stackStr(8)})
	case "recover":
		// called from a deferred function: fr is that function's frame
		if fr.caller != nil && fr.caller.panicking != nil {
			v := fr.caller.panicking.v
			fr.caller.panicking = nil
			fr.caller.recovered = true
			return v
		}
		return Iface{}
	case "print", "println":
		return nil
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			switch x := r.(type) {
			case *Term:
				y := a.(*Term)
				sg := isSigned(b.Type().(*types.Signature).Params().At(0).Type())
				lt := c.Ult(y, x)
				if sg {
					lt = c.Slt(y, x)
				}
				if b.Name() == "max" {
					lt = c.Ult(x, y)
					if sg {
						lt = c.Slt(x, y)
					}
				}
				r = c.Ite(lt, y, x)
			case float64:
				if b.Name() == "min" {
					r = math.Min(x, a.(float64))
				} else {
					r = math.Max(x, a.(float64))
				}
			case Str:
				y := a.(Str)
				if (b.Name() == "min") == (y.s < x.s) {
					r = y
				}
			}
		}
		return r
	case "clear":
		switch x := args[0].(type) {
		case *MapV:
			if x != nil {
				if fs := p.cur.frames; len(fs) > 0 && fs[len(fs)-1].info.local {
					p.preemptPoint("mem")
					p.mapAccess(x, true)
				}
				acc := x.acc
				*x = *newMap(x.kt)
				x.acc = acc
			}
		case Slice:
			if x.arr != nil {
				if x.arr.bm != nil {
					x.arr.bm = &BMem{kind: bmCopy, w: x.arr.bm.w, prev: x.arr.bm, dst: x.of, src: &BMem{kind: bmZero, w: x.arr.bm.w}, srcOff: c.Int(0), n: x.n}
					return nil
				}
				et := b.Type().(*types.Signature).Params().At(0).Type().Underlying().(*types.Slice).Elem()
				n := p.concretize(x.n, "clear")
				for i := uint64(0); i < n; i++ {
					p.arrWrite(x.arr, c.Add(x.of, c.BV(64, i)), p.zero(et))
				}
			}
		}
		return nil
	case "SliceData":
		s := args[0].(Slice)
		if s.arr == nil {
			return (*value)(nil)
		}
		return &sliceData{s}
	case "StringData":
		return &strData{args[0].(Str)}
	case "String":
		n := args[1].(*Term)
		switch d := args[0].(type) {
		case *sliceData:
			s := d.s
			s.n = n
			return p.bytesToStr(s)
		case *strData:
			return d.s
		case *value:
			if d == nil {
				return conc("")
			}
		}
		p.unsupported("unsafe.String")
	case "Slice":
		n := args[1].(*Term)
		switch d := args[0].(type) {
		case *sliceData:
			s := d.s
			s.n = n
			s.cap = n
			return s
		case *strData:
			return p.strToBytes(d.s)
		}
		p.unsupported("unsafe.Slice")
	case "ssa:wrapnilchk":
		if v, ok := args[0].(*value); ok && v == nil {
			p.nilDeref()
		}
		return args[0]
	case "ssa:deferstack":
		return &deferStack{fr}
	}
	p.unsupported("builtin " + b.Name())
	return nil
}

type deferStack struct{ fr *frame }

// Go's growslice, for concrete sizes.
var sizeClasses = []uint64{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundSize(n uint64) uint64 {
	if n <= 32768 {
		for _, s := range sizeClasses {
			if s >= n {
				return s
			}
		}
	}
	return (n + 8191) &^ 8191
}

func growCap(old, need, esz uint64) uint64 {
	nc := old
	dbl := nc + nc
	if need > dbl {
		nc = need
	} else if old < 256 {
		nc = dbl
	} else {
		for nc < need {
			nc += (nc + 3*256) >> 2
		}
	}
	if esz == 0 {
		return nc
	}
	return roundSize(nc*esz) / esz
}

var stdSizes = types.SizesFor("gc", "amd64")

func (p *Path) appendOp(et types.Type, s Slice, more value) value {
	c := p.c
	var m *BMem
	var marr *Arr
	var mo, mn *Term
	switch x := more.(type) {
	case Str:
		m, mo, mn = p.strMem(x)
	case Slice:
		if x.arr == nil {
			return s
		}
		marr = x.arr
		mo, mn = x.of, x.n
	default:
		p.unsupported("append of opaque")
	}
	if mn.isConst() && mn.val == 0 {
		return s
	}
	nn := c.Add(s.n, mn)
	if p.branch(c.Ule(nn, s.cap)) {
		if s.arr == nil {
			return s
		}
		p.rangeAccess(s.arr, c.Add(s.of, s.n), mn, true)
		p.rangeAccess(marr, mo, mn, false)
		p.copyElems(s.arr, c.Add(s.of, s.n), m, marr, mo, mn)
		return Slice{arr: s.arr, of: s.of, n: nn, cap: s.cap}
	}
	p.rangeAccess(s.arr, s.of, s.n, false)
	p.rangeAccess(marr, mo, mn, false)
	w, scalar := isByteLike(et)
	var ncap *Term
	if nn.isConst() && s.cap.isConst() {
		ncap = c.BV(64, growCap(s.cap.val, nn.val, uint64(stdSizes.Sizeof(et))))
	} else {
		ncap = nn
	}
	if scalar {
		a := p.newScalarArr(ncap, w)
		if s.arr != nil {
			p.copyElems(a, c.Int(0), nil, s.arr, s.of, s.n)
		}
		p.copyElems(a, s.n, m, marr, mo, mn)
		return Slice{arr: a, of: c.Int(0), n: nn, cap: ncap}
	}
	if !nn.isConst() || !s.of.isConst() && s.arr != nil || !mo.isConst() {
		p.unsupported("append with symbolic extent of non-scalars")
	}
	e := make([]value, ncap.val)
	k := 0
	for i := uint64(0); i < s.n.val; i++ {
		e[k] = copyVal(s.arr.elems[s.of.val+i])
		k++
	}
	for i := uint64(0); i < mn.val; i++ {
		e[k] = copyVal(marr.elems[mo.val+i])
		k++
	}
	for ; k < len(e); k++ {
		e[k] = p.zero(et)
	}
	return Slice{arr: &Arr{elems: e}, of: c.Int(0), n: nn, cap: ncap}
}

func (p *Path) copyOp(dst Slice, src value) value {
	c := p.c
	var m *BMem
	var marr *Arr
	var mo, mn *Term
	switch x := src.(type) {
	case Str:
		m, mo, mn = p.strMem(x)
	case Slice:
		marr, mo, mn = x.arr, x.of, x.n
	}
	if mn.isConst() && mn.val == 0 || dst.arr == nil || m == nil && marr == nil {
		return c.Int(0)
	}
	le := c.Ule(mn, dst.n)
	var n *Term
	if le.isConst() {
		if le.val == 1 {
			n = mn
		} else {
			n = dst.n
		}
	} else if p.branch(le) {
		n = mn
	} else {
		n = dst.n
	}
	p.rangeAccess(dst.arr, dst.of, n, true)
	p.rangeAccess(marr, mo, n, false)
	p.copyElems(dst.arr, dst.of, m, marr, mo, n)
	return n
}

func (p *Path) typeAssert(in *ssa.TypeAssert, x value) value {
	ifc, ok := x.(Iface)
	if !ok {
		p.unsupported(fmt.Sprintf("type assert on %T", x))
	}
	okv := false
	var r value
	if ifc.t != nil {
		if it, isI := in.AssertedType.Underlying().(*types.Interface); isI {
			if p.prog.implements(ifc.t, it) {
				okv = true
				r = ifc
			}
		} else if types.Identical(ifc.t, in.AssertedType) {
			okv = true
			r = copyVal(ifc.v)
		}
	}
	if in.CommaOk {
		if !okv {
			r = p.zero(in.AssertedType)
		}
		return TupleV{r, p.c.Bool(okv)}
	}
	if !okv {
		have := "nil"
		if ifc.t != nil {
			have = ifc.t.String()
		}
		p.goPanicStr("interface conversion: interface is " + have + ", not " + in.AssertedType.String())
	}
	return r
}

// ---- range ----

type strIter struct {
	s string
	i int
}

type mapIter struct {
	m    *MapV
	keys []*mapEntry
	i    int
}

func (fr *frame) rangeOp(in *ssa.Range) value {
	p := fr.p
	switch x := fr.get(in.X).(type) {
	case Str:
		if x.bm != nil {
			b, ok := p.concBytes(p.strToBytes(x))
			if !ok {
				p.unsupported("range over symbolic string")
			}
			return &strIter{s: string(b)}
		}
		return &strIter{s: x.s}
	case *MapV:
		it := &mapIter{m: x}
		if x != nil {
			for _, e := range x.entries {
				if !e.dead {
					it.keys = append(it.keys, e)
				}
			}
			if n := len(it.keys); p.mapOrder && n > 1 && n <= 4 {
				// arbitrary iteration order
				for i := 0; i < n-1; i++ {
					k := i + p.choose(n-i, "map order")
					it.keys[i], it.keys[k] = it.keys[k], it.keys[i]
				}
			}
		}
		return it
	}
	p.unsupported("range")
	return nil
}

func (fr *frame) next(in *ssa.Next) value {
	p := fr.p
	c := p.c
	switch it := fr.get(in.Iter).(type) {
	case *strIter:
		if it.i >= len(it.s) {
			return TupleV{c.False, c.Int(0), c.BV(32, 0)}
		}
		for i, r := range it.s[it.i:] {
			_ = i
			pos := it.i
			n := len(string(r))
			if r == 0xFFFD {
				n = 1
				for j := range it.s[it.i+1:] {
					n = j + 1
					break
				}
				if it.i+1 >= len(it.s) {
					n = 1
				}
			}
			it.i += n
			return TupleV{c.True, c.Int(pos), c.BV(32, uint64(r))}
		}
	case *mapIter:
		if fr.info.local {
			p.preemptPoint("mem")
			p.mapAccess(it.m, false)
		}
		for it.i < len(it.keys) {
			e := it.keys[it.i]
			it.i++
			if e.dead {
				continue
			}
			return TupleV{c.True, copyVal(e.k), copyVal(e.v)}
		}
		mt := in.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map)
		return TupleV{c.False, p.zero(mt.Key()), p.zero(mt.Elem())}
	}
	panic("next")
}

func (fr *frame) selectInstr(in *ssa.Select) value {
	p := fr.p
	c := p.c
	cases := make([]selCase, len(in.States))
	for i, s := range in.States {
		cases[i].ch, _ = fr.get(s.Chan).(*ChanV)
		if s.Dir == types.SendOnly {
			cases[i].send = true
			cases[i].val = copyVal(fr.get(s.Send))
		}
	}
	k, v, ok := p.selectOp(cases, in.Blocking)
	r := TupleV{c.BV(64, uint64(int64(k))), c.Bool(ok)}
	for i, s := range in.States {
		if s.Dir == types.RecvOnly {
			if i == k && v != nil {
				r = append(r, v)
			} else {
				r = append(r, p.zero(s.Chan.Type().Underlying().(*types.Chan).Elem()))
			}
		}
	}
	return r
}

// ---- globals ----

func (p *Path) global(g *ssa.Global) value {
	if cell, ok := p.globals[g]; ok {
		return cell
	}
	if ov := p.prog.globalOv[g.String()]; ov != nil && ov != g {
		return p.global(ov)
	}
	cell := new(value)
	p.globals[g] = cell
	et := g.Type().Underlying().(*types.Pointer).Elem()
	*cell = p.zero(et)
	pkg := g.Pkg
	if pkg == nil {
		return cell
	}
	if p.prog.fullInit(pkg) {
		p.initPkg(pkg)
		return cell
	}
	// single-store initialiser
	p.initGlobal(g, cell)
	return cell
}

func (p *Path) initPkg(pkg *ssa.Package) {
	if p.inited[pkg] {
		return
	}
	p.inited[pkg] = true
	fn := pkg.Func("init")
	if fn == nil {
		return
	}
	// allocate all globals of the package first
	for _, m := range pkg.Members {
		if g, ok := m.(*ssa.Global); ok {
			if _, have := p.globals[g]; !have {
				if ov := p.prog.globalOv[g.String()]; ov != nil && ov != g {
					continue
				}
				cell := new(value)
				*cell = p.zero(g.Type().Underlying().(*types.Pointer).Elem())
				p.globals[g] = cell
			}
		}
	}
	g := p.cur
	so := p.schedOn
	p.schedOn = false
	p.execSSA(g, nil, fn, nil, nil)
	p.schedOn = so
}

// initGlobal evaluates the initialiser expression of a standard library
// variable, when it is a simple expression.
func (p *Path) initGlobal(g *ssa.Global, cell *value) {
	init := g.Pkg.Func("init")
	if init == nil {
		return
	}
	var st *ssa.Store
	nst := 0
	uses := 0
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok && s.Addr == ssa.Value(g) {
				st = s
				nst++
			}
			for _, op := range in.Operands(nil) {
				if *op == ssa.Value(g) {
					uses++
				}
			}
		}
	}
	if nst == 0 {
		if uses > 0 {
			if !p.globalComposite(g, init, cell) {
				p.unsupported("initialiser of " + g.String())
			}
		}
		return
	}
	if nst > 1 || st == nil {
		p.unsupported("initialiser of " + g.String())
	}
	fr := &frame{p: p, g: p.cur, fn: init, info: p.prog.info(init)}
	fr.env = make([]value, fr.info.n)
	so := p.schedOn
	p.schedOn = false
	v := p.evalInit(fr, st.Val, map[ssa.Value]bool{})
	p.schedOn = so
	storeIn(cell, v)
}

// globalComposite handles in-place initialised struct globals (var x = T{...}):
// it executes the stores whose address is rooted at g.
func (p *Path) globalComposite(g *ssa.Global, init *ssa.Function, cell *value) bool {
	fr := &frame{p: p, g: p.cur, fn: init, info: p.prog.info(init)}
	fr.env = make([]value, fr.info.n)
	done := map[ssa.Value]bool{}
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			s, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			root := s.Addr
			for {
				if fa, ok := root.(*ssa.FieldAddr); ok {
					root = fa.X
					continue
				}
				if ia, ok := root.(*ssa.IndexAddr); ok {
					root = ia.X
					continue
				}
				break
			}
			if root != ssa.Value(g) {
				continue
			}
			a := p.evalInit(fr, s.Addr, done)
			v := p.evalInit(fr, s.Val, done)
			p.store(a, v)
		}
	}
	return true
}

func (p *Path) evalInit(fr *frame, v ssa.Value, done map[ssa.Value]bool) value {
	switch v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
		return fr.get(v)
	}
	if done[v] {
		return fr.get(v)
	}
	in, ok := v.(ssa.Instruction)
	if !ok {
		p.unsupported("initialiser value " + v.String())
	}
	if _, isPhi := v.(*ssa.Phi); isPhi {
		p.unsupported("conditional initialiser")
	}
	for _, op := range in.Operands(nil) {
		if *op != nil {
			p.evalInit(fr, *op, done)
		}
	}
	done[v] = true
	fr.instr(in)
	// stores into freshly allocated composites
	switch v.(type) {
	case *ssa.Alloc, *ssa.MakeMap:
		for _, b := range fr.fn.Blocks {
			for _, x := range b.Instrs {
				switch s := x.(type) {
				case *ssa.Store:
					root := s.Addr
					for {
						if fa, ok := root.(*ssa.FieldAddr); ok {
							root = fa.X
							continue
						}
						if ia, ok := root.(*ssa.IndexAddr); ok {
							root = ia.X
							continue
						}
						break
					}
					if root == v {
						a := p.evalInit(fr, s.Addr, done)
						p.store(a, p.evalInit(fr, s.Val, done))
					}
				case *ssa.MapUpdate:
					if s.Map == v {
						p.mapSet(fr.get(v).(*MapV), p.evalInit(fr, s.Key, done), p.evalInit(fr, s.Value, done))
					}
				}
			}
		}
	}
	return fr.get(v)
}
