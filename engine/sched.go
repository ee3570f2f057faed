package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// G is a goroutine of the target program, carried by a host goroutine. Only
// the holder of the baton (Path.cur) runs.
type G struct {
	id     int
	p      *Path
	wake   chan struct{}
	frames []*frame
	// parking
	parked   bool
	why      string
	blockKey interface{}
	name     string
	sel      *sudog // fired sudog
	atomic   int    // >0: no preemption
	panicing *targetPanic
	// happens-before clock
	vcEp, vi int
	vc       vclock
}

func (g *G) stackStr(n int) string {
	var sb strings.Builder
	for i := len(g.frames) - 1; i >= 0 && n > 0; i-- {
		fr := g.frames[i]
		pos := ""
		if fr.curPos.IsValid() {
			ps := fr.p.prog.fset.Position(fr.curPos)
			f := ps.Filename
			if k := strings.LastIndexByte(f, '/'); k >= 0 {
				f = f[k+1:]
			}
			pos = fmt.Sprintf("%s:%d", f, ps.Line)
		}
		if sb.Len() > 0 {
			sb.WriteString(" < ")
		}
		sb.WriteString(fr.fn.String() + "(" + pos + ")")
		n--
	}
	return sb.String()
}

// spawn starts a goroutine running f.
func (p *Path) spawn(name string, f func(g *G)) *G {
	g := &G{id: p.nextG, p: p, wake: make(chan struct{}, 1), name: name}
	p.nextG++
	if p.schedOn {
		var r vcRec
		if p.spawnVC != nil {
			r = *p.spawnVC
		} else {
			r = p.vcSnap()
		}
		p.acquireFor(g, r)
	}
	p.spawnVC = nil
	p.gs = append(p.gs, g)
	p.hostWG.Add(1)
	go func() {
		defer p.hostWG.Done()
		defer func() {
			r := recover()
			switch r := r.(type) {
			case nil, killSentinel:
			case targetPanic:
				// uncaught panic of the target
				p.safe(func() { p.uncaught(g, r) })
			case exitPanic:
				p.safe(func() { p.end(StDone, fmt.Sprintf("exit %d", r.code)) })
			default:
				p.safe(func() {
					p.end(StUnsupported, fmt.Sprintf("engine fault: %v at %s\n%s", r, g.stackStr(8), hostStack()))
				})
			}
			if !p.dead && !p.ended {
				p.exitG(g)
			}
		}()
		<-g.wake
		if p.dead {
			panic(killSentinel{})
		}
		f(g)
	}()
	return g
}

func (p *Path) safe(f func()) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(killSentinel); ok {
				return
			}
			if !p.ended {
				p.ended = true
				p.status = StUnsupported
				p.msg = fmt.Sprintf("engine fault (2): %v", r)
				close(p.done)
			}
		}
	}()
	f()
}

func (p *Path) ready(g *G) {
	g.parked = false
	p.runq = append(p.runq, g)
}

// exitG: current goroutine finished; hand the baton on.
func (p *Path) exitG(g *G) {
	if p.schedOn && g.vcEp == p.vcEp {
		p.vcDone.join(g.vc)
	}
	for i, x := range p.gs {
		if x == g {
			p.gs = append(p.gs[:i:i], p.gs[i+1:]...)
			break
		}
	}
	if g == p.mainG {
		p.safe(func() { p.end(StDone, "") })
		return
	}
	p.safe(func() {
		n := p.pick()
		p.cur = n
		n.wake <- struct{}{}
	})
}

// pick selects the next goroutine to run, advancing time when necessary.
func (p *Path) pick() *G {
	for {
		if n := len(p.runq); n > 0 {
			k := 0
			if p.schedOn && n > 1 && p.fullSw {
				k = p.choose(n, "switch")
				if k > 0 {
					p.schedLog = append(p.schedLog, fmt.Sprintf("run g%d %s", p.runq[k].id, p.runq[k].name))
				}
			}
			g := p.runq[k]
			p.runq = append(p.runq[:k:k], p.runq[k+1:]...)
			return g
		}
		if p.waitG != nil {
			g := p.waitG
			p.waitG = nil
			return g
		}
		if p.fireTimer() {
			continue
		}
		p.cur = p.mainG
		var bl []string
		for _, g := range p.gs {
			bl = append(bl, fmt.Sprintf("g%d %s: %s [%s]", g.id, g.name, g.why, g.stackStr(5)))
		}
		p.violation(nil, "deadlock: every goroutine is blocked: "+strings.Join(bl, "; "))
	}
}

// park blocks the current goroutine until somebody calls ready(g).
func (p *Path) park(why string) {
	g := p.cur
	g.why = why
	g.parked = true
	n := p.pick()
	p.switchTo(g, n)
}

func (p *Path) switchTo(g, n *G) {
	if n == g {
		g.why = ""
		g.parked = false
		p.cur = g
		return
	}
	p.cur = n
	n.wake <- struct{}{}
	<-g.wake
	if p.dead {
		panic(killSentinel{})
	}
	p.cur = g
	g.why = ""
}

// yield lets others run (current goes to the back of the queue).
func (p *Path) yield() {
	g := p.cur
	if len(p.runq) == 0 {
		return
	}
	p.runq = append(p.runq, g)
	n := p.pick()
	p.switchTo(g, n)
}

// preemptPoint is a place where the scheduler may switch.
func (p *Path) preemptPoint(what string) {
	if !p.schedOn || p.preempt <= 0 || p.cur.atomic > 0 {
		return
	}
	if !p.preemptible() {
		return
	}
	n := len(p.runq)
	tm := 0
	if p.timeEarly > 0 && len(p.timerQ) > 0 {
		tm = 1
	}
	if n+tm == 0 {
		return
	}
	k := p.choose(n+tm+1, "preempt")
	if k == 0 {
		return
	}
	p.preempt--
	g := p.cur
	if k == n+1 {
		p.timeEarly--
		p.schedLog = append(p.schedLog, fmt.Sprintf("timer fires while g%d %s at %s", g.id, g.name, g.stackStr(2)))
		if !p.fireTimer() || len(p.runq) == 0 {
			return
		}
		k = len(p.runq)
	}
	k--
	t := p.runq[k]
	p.schedLog = append(p.schedLog, fmt.Sprintf("preempt g%d %s at %s (%s) -> g%d %s", g.id, g.name, g.stackStr(2), what, t.id, t.name))
	p.runq = append(p.runq[:k:k], p.runq[k+1:]...)
	p.runq = append(p.runq, g)
	p.switchTo(g, t)
}

// preemptible: the innermost frame (apart from package sync) is code of the
// package under test.
func (p *Path) preemptible() bool {
	fs := p.cur.frames
	for i := len(fs) - 1; i >= 0; i-- {
		fi := fs[i].info
		if fi.local {
			return fs[i].fn.Pkg == nil || p.x.cse.fn.Pkg == fs[i].fn.Pkg || p.x.cse.opt["preempt"] == "all"
		}
		if fi.harn {
			return false
		}
		if !strings.HasPrefix(fi.name, "(*sync") && !strings.HasPrefix(fi.name, "sync") {
			return false
		}
	}
	return false
}

// ---- channels ----

type sudog struct {
	g     *G
	val   value
	ok    bool
	sel   *selState
	idx   int
	done  bool
	close bool
	vc    vcRec // clock of the other side
}

type selState struct {
	fired bool
	idx   int
	sd    *sudog
}

type ChanV struct {
	cap    int
	buf    []value
	bufvc  []vcRec
	sendN  int // sends completed
	recvN  int // values received
	rvc    map[int]vcRec
	cvc    vcRec
	closed bool
	recvq  []*sudog
	sendq  []*sudog
	zero   func() value
	id     int
}

func dequeue(q *[]*sudog) *sudog {
	for len(*q) > 0 {
		sd := (*q)[0]
		*q = (*q)[1:]
		if sd.sel != nil {
			if sd.sel.fired {
				continue
			}
			sd.sel.fired = true
			sd.sel.idx = sd.idx
			sd.sel.sd = sd
		}
		return sd
	}
	return nil
}

func hasWaiter(q []*sudog) bool {
	for _, sd := range q {
		if sd.sel == nil || !sd.sel.fired {
			return true
		}
	}
	return false
}

func (p *Path) trySend(ch *ChanV, v value) bool {
	if ch.closed {
		p.goPanicPlain("send on closed channel")
	}
	if sd := dequeue(&ch.recvq); sd != nil {
		sd.val = v
		sd.ok = true
		sd.done = true
		sd.vc = p.vcSnap()
		if ch.cap == 0 && p.tracking() {
			if sd.g.vcEp == p.vcEp {
				p.vcOf(p.cur).join(sd.g.vc)
			}
		} else {
			p.acquire(ch.rvc[ch.sendN-ch.cap])
			ch.sendN++
			ch.recvN++
		}
		p.ready(sd.g)
		return true
	}
	if len(ch.buf) < ch.cap {
		p.acquire(ch.rvc[ch.sendN-ch.cap])
		ch.sendN++
		ch.buf = append(ch.buf, v)
		ch.bufvc = append(ch.bufvc, p.vcSnap())
		return true
	}
	return false
}

func (p *Path) tryRecv(ch *ChanV) (value, bool, bool) {
	if len(ch.buf) > 0 {
		v := ch.buf[0]
		ch.buf = ch.buf[1:]
		if len(ch.bufvc) > 0 {
			p.acquire(ch.bufvc[0])
			ch.bufvc = ch.bufvc[1:]
		}
		var rv vcRec
		if p.tracking() {
			rv = p.vcSnap()
			if ch.rvc == nil {
				ch.rvc = map[int]vcRec{}
			}
			ch.rvc[ch.recvN] = rv
			delete(ch.rvc, ch.recvN-ch.cap-1)
		}
		ch.recvN++
		if sd := dequeue(&ch.sendq); sd != nil {
			ch.buf = append(ch.buf, sd.val)
			ch.bufvc = append(ch.bufvc, sd.vc)
			ch.sendN++
			sd.done = true
			sd.vc = rv
			p.ready(sd.g)
		}
		return v, true, true
	}
	if sd := dequeue(&ch.sendq); sd != nil {
		sd.done = true
		p.acquire(sd.vc)
		sd.vc = p.vcSnap()
		p.ready(sd.g)
		return sd.val, true, true
	}
	if ch.closed {
		p.acquire(ch.cvc)
		return ch.zero(), false, true
	}
	return nil, false, false
}

func (p *Path) chanSend(ch *ChanV, v value) {
	p.preemptPoint("send")
	if ch == nil {
		p.park("send on nil channel")
		return
	}
	if p.trySend(ch, v) {
		return
	}
	sd := &sudog{g: p.cur, val: v, vc: p.vcSnap()}
	ch.sendq = append(ch.sendq, sd)
	p.park("chan send")
	p.acquire(sd.vc)
	if sd.close {
		p.goPanicPlain("send on closed channel")
	}
}

func (p *Path) chanRecv(ch *ChanV) (value, bool) {
	p.preemptPoint("recv")
	if ch == nil {
		p.park("receive from nil channel")
		return nil, false
	}
	if v, ok, done := p.tryRecv(ch); done {
		return v, ok
	}
	sd := &sudog{g: p.cur}
	ch.recvq = append(ch.recvq, sd)
	p.park("chan receive")
	p.acquire(sd.vc)
	if sd.close {
		return ch.zero(), false
	}
	return sd.val, sd.ok
}

func (p *Path) chanClose(ch *ChanV) {
	p.preemptPoint("close")
	if ch == nil {
		p.goPanicPlain("close of nil channel")
	}
	if ch.closed {
		p.goPanicPlain("close of closed channel")
	}
	ch.closed = true
	p.release(&ch.cvc)
	for {
		sd := dequeue(&ch.recvq)
		if sd == nil {
			break
		}
		sd.val = ch.zero()
		sd.ok = false
		sd.close = true
		sd.vc = ch.cvc
		p.ready(sd.g)
	}
	for {
		sd := dequeue(&ch.sendq)
		if sd == nil {
			break
		}
		sd.close = true
		p.ready(sd.g)
	}
}

type selCase struct {
	ch   *ChanV
	send bool
	val  value
}

// selectOp returns (index, received value, ok); index -1 for default.
func (p *Path) selectOp(cases []selCase, blocking bool) (int, value, bool) {
	p.preemptPoint("select")
	var rdy []int
	for i, c := range cases {
		if c.ch == nil {
			continue
		}
		if c.send {
			if c.ch.closed || hasWaiter(c.ch.recvq) || len(c.ch.buf) < c.ch.cap {
				rdy = append(rdy, i)
			}
		} else if len(c.ch.buf) > 0 || c.ch.closed || hasWaiter(c.ch.sendq) {
			rdy = append(rdy, i)
		}
	}
	if len(rdy) > 0 {
		i := rdy[p.choose(len(rdy), "select")]
		c := cases[i]
		if c.send {
			p.trySend(c.ch, c.val)
			return i, nil, false
		}
		v, ok, _ := p.tryRecv(c.ch)
		return i, v, ok
	}
	if !blocking {
		return -1, nil, false
	}
	st := &selState{}
	for i, c := range cases {
		if c.ch == nil {
			continue
		}
		sd := &sudog{g: p.cur, val: c.val, sel: st, idx: i}
		if c.send {
			sd.vc = p.vcSnap()
		}
		if c.send {
			c.ch.sendq = append(c.ch.sendq, sd)
		} else {
			c.ch.recvq = append(c.ch.recvq, sd)
		}
	}
	p.park("select")
	i := st.idx
	sd := st.sd
	p.acquire(sd.vc)
	for _, c := range cases {
		if c.ch != nil {
			c.ch.recvq = dropSel(c.ch.recvq, st)
			c.ch.sendq = dropSel(c.ch.sendq, st)
		}
	}
	if cases[i].send {
		if sd.close {
			p.goPanicPlain("send on closed channel")
		}
		return i, nil, false
	}
	if sd.close {
		return i, cases[i].ch.zero(), false
	}
	return i, sd.val, sd.ok
}

func dropSel(q []*sudog, st *selState) []*sudog {
	var r []*sudog
	for _, sd := range q {
		if sd.sel != st {
			r = append(r, sd)
		}
	}
	return r
}

func (p *Path) goPanicPlain(msg string) {
	st := ""
	if p.cur != nil {
		st = p.cur.stackStr(8)
	}
	panic(targetPanic{v: Iface{p.prog.plainErr, conc(msg)}, stack: st, rt: true})
}

// ---- locks ----

type lockWaiter struct {
	g *G
	w bool
}

// vMutex models sync.Mutex and sync.RWMutex (writer preference).
type vMutex struct {
	writer  bool
	readers int
	q       []lockWaiter
	owner   *G
	vc, rvc vcRec // clocks of the last unlock, of the read unlocks
}

func (p *Path) mutex(key interface{}) *vMutex {
	m := p.mutexes[key]
	if m == nil {
		m = &vMutex{}
		p.mutexes[key] = m
	}
	return m
}

func (p *Path) lock(m *vMutex) {
	p.preemptPoint("lock")
	if !m.writer && m.readers == 0 && len(m.q) == 0 {
		m.writer = true
		m.owner = p.cur
		p.acquire(m.vc)
		p.acquire(m.rvc)
		return
	}
	m.q = append(m.q, lockWaiter{p.cur, true})
	p.park("lock")
	p.acquire(m.vc)
	p.acquire(m.rvc)
}

func (p *Path) rlock(m *vMutex) {
	p.preemptPoint("rlock")
	if !m.writer && !waitingWriter(m.q) {
		m.readers++
		p.acquire(m.vc)
		return
	}
	m.q = append(m.q, lockWaiter{p.cur, false})
	p.park("rlock")
	p.acquire(m.vc)
}

func waitingWriter(q []lockWaiter) bool {
	for _, w := range q {
		if w.w {
			return true
		}
	}
	return false
}

func (p *Path) tryLock(m *vMutex, w bool) bool {
	p.preemptPoint("trylock")
	if w {
		if m.writer || m.readers > 0 {
			return false
		}
		m.writer = true
		m.owner = p.cur
		p.acquire(m.vc)
		p.acquire(m.rvc)
		return true
	}
	if m.writer || waitingWriter(m.q) {
		return false
	}
	m.readers++
	p.acquire(m.vc)
	return true
}

func (p *Path) unlock(m *vMutex) {
	if !m.writer {
		p.fatal("sync: unlock of unlocked mutex")
	}
	m.writer = false
	m.owner = nil
	p.release(&m.vc)
	// after a writer releases, waiting readers go first (as sync.RWMutex does),
	// unless the first waiter is a writer of a plain mutex
	p.grant(m, true)
	p.preemptPoint("unlock")
}

func (p *Path) runlock(m *vMutex) {
	if m.readers <= 0 {
		p.fatal("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	p.release(&m.rvc)
	if m.readers == 0 {
		p.grant(m, false)
	}
	p.preemptPoint("runlock")
}

func (p *Path) grant(m *vMutex, readersFirst bool) {
	if m.writer || len(m.q) == 0 {
		return
	}
	if readersFirst {
		var rest []lockWaiter
		n := 0
		for _, w := range m.q {
			if !w.w {
				m.readers++
				n++
				p.ready(w.g)
			} else {
				rest = append(rest, w)
			}
		}
		if n > 0 {
			m.q = rest
			return
		}
	}
	if m.readers > 0 {
		return
	}
	for i, w := range m.q {
		if w.w {
			m.q = append(m.q[:i:i], m.q[i+1:]...)
			m.writer = true
			m.owner = w.g
			p.ready(w.g)
			return
		}
	}
	// only readers
	for _, w := range m.q {
		m.readers++
		p.ready(w.g)
	}
	m.q = nil
}

// fatal is an unrecoverable runtime error of the target.
func (p *Path) fatal(msg string) {
	p.violation(nil, "fatal error: "+msg+" at "+p.lastPosStr())
}

func (p *Path) uncaught(g *G, tp targetPanic) {
	p.cur = g
	msg := p.panicText(tp.v)
	if g == p.mainG && strings.HasPrefix(g.name, "case") && false {
		msg = "harness: " + msg
	}
	p.stack = tp.stack
	p.violation(nil, "uncaught panic: "+msg+" at "+tp.stack)
}

func (p *Path) panicText(v Iface) string {
	if v.t == nil {
		return "nil"
	}
	switch x := v.v.(type) {
	case Str:
		if x.bm == nil {
			return x.s
		}
	case *value:
		// error pointer types: try Error()
		if m := p.prog.prog.MethodSets.MethodSet(v.t).Lookup(nil, "Error"); m != nil {
			if fn := p.prog.prog.MethodValue(m); fn != nil && fn.String() == "(*errors.errorString).Error" {
				if s, ok := (*x).(StructV)[0].(Str); ok && s.bm == nil {
					return s.s
				}
			}
		}
	}
	return v.t.String()
}

// ---- virtual time ----

type vTimer struct {
	when   *Term
	seq    int
	active bool
	fn     func() // runs on the firing goroutine's behalf (scheduler context)
	key    *value
}

func (p *Path) addTimer(d *Term, fn func()) *vTimer {
	c := p.c
	if p.branch(c.Slt(d, c.Int(0))) {
		d = c.Int(0)
	}
	t := &vTimer{when: c.Add(p.now, d), seq: p.timerSq, active: true, fn: fn}
	p.timerSq++
	p.timerQ = append(p.timerQ, t)
	return t
}

func (p *Path) stopTimer(t *vTimer) bool {
	if !t.active {
		return false
	}
	t.active = false
	for i, x := range p.timerQ {
		if x == t {
			p.timerQ = append(p.timerQ[:i:i], p.timerQ[i+1:]...)
			break
		}
	}
	return true
}

// fireTimer advances the clock to the earliest timer and fires it.
func (p *Path) fireTimer() bool {
	if len(p.timerQ) == 0 {
		return false
	}
	if p.cur == nil {
		p.cur = p.mainG
	}
	best := p.timerQ[0]
	for _, t := range p.timerQ[1:] {
		// earlier deadline wins; FIFO on ties unless schedule exploration
		lt := p.c.Slt(t.when, best.when)
		if p.branch(lt) {
			best = t
		}
	}
	if p.schedOn && p.fullSw {
		var ties []*vTimer
		for _, t := range p.timerQ {
			if e := p.c.Eq(t.when, best.when); e.isConst() && e.val == 1 {
				ties = append(ties, t)
			}
		}
		if len(ties) > 1 && len(ties) <= 4 {
			best = ties[p.choose(len(ties), "timer tie")]
		}
	}
	if p.branch(p.c.Slt(p.now, best.when)) {
		p.now = best.when
	}
	p.stopTimer(best)
	p.nTimers++
	best.fn()
	if p.raceOn && p.schedOn && p.preempt > 0 {
		// what happens at the same time may overlap
		for more := true; more; {
			more = false
			for _, t := range p.timerQ {
				if e := p.c.Eq(t.when, best.when); e.isConst() && e.val == 1 {
					p.stopTimer(t)
					p.nTimers++
					t.fn()
					more = true
					break
				}
			}
		}
	}
	p.steps += 20
	if p.steps > p.maxSteps {
		p.end(StLimit, "step limit (timers)")
	}
	return true
}

func (p *Path) sleep(d *Term) {
	p.preemptPoint("sleep")
	c := p.c
	if d.isConst() && sx(d.val, 64) <= 0 || !d.isConst() && p.branch(c.Sle(d, c.Int(0))) {
		p.yield()
		return
	}
	g := p.cur
	p.addTimer(d, func() { p.ready(g) })
	p.park("sleep")
}

// goFunc starts a target goroutine calling fn.
func (p *Path) goCall(fn value, args []value, name string) {
	g := p.spawn(name, func(g *G) {
		p.callValue(g, nil, fn, args)
	})
	p.ready(g)
}

// fnName names a callable.
func fnName(fn value) string {
	switch f := fn.(type) {
	case *ssa.Function:
		return f.Name()
	case *Closure:
		if f == nil {
			return "nil"
		}
		return f.fn.Name()
	case *ssa.Builtin:
		return f.Name()
	}
	return "?"
}
