package main

import (
	"fmt"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Explorer explores all paths of one case.
type Explorer struct {
	pr         *Program
	cse        *Case
	tier       string
	maxDecs    int
	maxSteps   int
	maxPaths   int
	timerFires int

	mu       sync.Mutex
	work     [][]dec
	active   int
	stop     bool
	paths    int
	byStatus map[Status]int
	notes    map[string]int // reasons for unsupported/limit paths
	viols    []*Viol
	violKeys map[string]*Viol
	fns      map[*ssa.Function]int
	models   map[string]bool
	reached  map[string]int
	bounds   map[string]int
	steps    int64
	decs     int64
	asserts  int64
	passT    []*Tape
	passCnt  int
	start    time.Time
	end      time.Time
	known    func(msg string) bool
	onePath  []dec // replay exactly this path
	timedOut bool
	skips    map[string]int
	found    func() // a violation which is not known was found
}

// Viol is a counterexample.
type Viol struct {
	Alts  []*Viol // more counterexamples of the same kind
	seen  int
	Msg   string
	Stack string
	Tape  *Tape
	Decs  []dec
	Known bool
	Conf  string // how it was confirmed
}

func (x *Explorer) bound(name string, v int) {
	x.mu.Lock()
	x.bounds[name] = v
	x.mu.Unlock()
}

func (x *Explorer) push(p *Path, d dec) {
	if x.onePath != nil {
		return
	}
	pre := make([]dec, len(p.trace)+1)
	copy(pre, p.trace)
	pre[len(p.trace)] = d
	x.mu.Lock()
	x.work = append(x.work, pre)
	x.mu.Unlock()
}

// Pool runs explorers over a set of workers.
type Pool struct {
	xs       []*Explorer
	workers  int
	deadline time.Time
	mu       sync.Mutex
	cond     *sync.Cond
	totPaths int64
	dlMu     sync.Mutex
}

// shorten ends the exploration after d: once there is a counterexample the
// rest of the exploration can only add more of them.
func (pl *Pool) shorten(d time.Duration) {
	pl.dlMu.Lock()
	defer pl.dlMu.Unlock()
	if t := time.Now().Add(d); t.Before(pl.deadline) {
		pl.deadline = t
	}
}

func (pl *Pool) end() time.Time {
	pl.dlMu.Lock()
	defer pl.dlMu.Unlock()
	return pl.deadline
}

func NewExplorer(pr *Program, c *Case, tier string) *Explorer {
	x := &Explorer{pr: pr, cse: c, tier: tier, maxDecs: c.intOpt("decs", 20000), maxSteps: c.intOpt("steps", 20000000),
		maxPaths: c.intOpt("paths", 2000000), byStatus: map[Status]int{}, notes: map[string]int{}, violKeys: map[string]*Viol{},
		fns: map[*ssa.Function]int{}, models: map[string]bool{}, reached: map[string]int{}, bounds: map[string]int{}, skips: map[string]int{}}
	x.work = [][]dec{nil}
	return x
}

func (pl *Pool) next() (*Explorer, []dec) {
	pl.mu.Lock()
	defer pl.mu.Unlock()
	for {
		if time.Now().After(pl.end()) {
			for _, x := range pl.xs {
				x.mu.Lock()
				if len(x.work) > 0 {
					x.timedOut = true
				}
				x.mu.Unlock()
			}
			pl.cond.Broadcast()
			return nil, nil
		}
		var best *Explorer
		busy := false
		for _, x := range pl.xs {
			x.mu.Lock()
			if x.active > 0 {
				busy = true
			}
			if len(x.work) > 0 && !x.stop && (best == nil || x.active < best.active) {
				best = x
			}
			x.mu.Unlock()
		}
		if best != nil {
			best.mu.Lock()
			n := len(best.work)
			w := best.work[n-1]
			best.work = best.work[:n-1]
			best.active++
			if best.start.IsZero() {
				best.start = time.Now()
			}
			best.mu.Unlock()
			return best, w
		}
		if !busy {
			pl.cond.Broadcast()
			return nil, nil
		}
		pl.cond.Wait()
	}
}

func (pl *Pool) Run() {
	pl.cond = sync.NewCond(&pl.mu)
	var wg sync.WaitGroup
	stopTick := make(chan struct{})
	go func() {
		t := time.NewTicker(50 * time.Millisecond)
		defer t.Stop()
		for {
			select {
			case <-t.C:
				pl.cond.Broadcast()
			case <-stopTick:
				return
			}
		}
	}()
	for i := 0; i < pl.workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var s *Solver
			n := 0
			for {
				x, w := pl.next()
				if x == nil {
					break
				}
				if s == nil || n >= 3000 || s.broken {
					if s != nil {
						s.Close()
					}
					s = NewSolver()
					n = 0
				}
				n++
				x.runPath(w, s, pl.end())
				atomic.AddInt64(&pl.totPaths, 1)
				x.mu.Lock()
				x.active--
				x.end = time.Now()
				x.mu.Unlock()
				pl.cond.Broadcast()
			}
			if s != nil {
				s.Close()
			}
		}()
	}
	wg.Wait()
	close(stopTick)
}

func newPath(x *Explorer, prefix []dec, s *Solver) *Path {
	p := &Path{x: x, prog: x.pr, c: NewCtx(), s: s, prefix: prefix, done: make(chan struct{}),
		timers: map[*value]*vTimer{}, globals: map[*ssa.Global]*value{}, inited: map[*ssa.Package]bool{},
		mutexes: map[interface{}]*vMutex{}, side: map[interface{}]interface{}{}, reached: map[string]bool{},
		fresh: map[string]int{}, sha: map[string]bool{}, fns: map[*ssa.Function]int{}, models: map[string]bool{},
		hostObj: map[*value]interface{}{}, maxSteps: x.maxSteps}
	p.now = p.c.Int(0)
	return p
}

// runPath executes one path to its end.
func (x *Explorer) runPath(prefix []dec, s *Solver, deadline time.Time) {
	s.BeginPath()
	p := newPath(x, prefix, s)
	p.mainG = p.spawn("case", func(g *G) {
		p.initPkg(x.cse.fn.Pkg)
		p.callValue(g, nil, x.cse.fn, nil)
		if p.wantTape() {
			if t, ok := p.makeTape(nil); ok {
				p.passTape = t
			}
		}
	})
	p.cur = p.mainG
	p.mainG.wake <- struct{}{}
	lim := time.Until(deadline) + 5*time.Second
	if lim < time.Second {
		lim = time.Second
	}
	if lim > 300*time.Second {
		lim = 300 * time.Second
	}
	tm := time.NewTimer(lim)
	select {
	case <-p.done:
	case <-tm.C:
		p.dead = true
		s.abort()
		<-p.doneOrDead()
	}
	tm.Stop()
	p.dead = true
	for _, g := range append([]*G{}, p.gs...) {
		select {
		case g.wake <- struct{}{}:
		default:
		}
	}
	p.hostWG.Wait()
	if !p.ended {
		p.status, p.msg = StLimit, "path time limit"
	}
	if !s.broken {
		s.EndPath()
	}
	x.record(p)
}

// doneOrDead waits for the running goroutine to notice the kill.
func (p *Path) doneOrDead() chan struct{} {
	c := make(chan struct{})
	go func() {
		select {
		case <-p.done:
		case <-time.After(20 * time.Second):
		}
		close(c)
	}()
	return c
}

func (p *Path) wantTape() bool {
	p.x.mu.Lock()
	defer p.x.mu.Unlock()
	// sample passing paths for conformance runs against the native build
	n := p.x.passCnt
	p.x.passCnt++
	if len(p.x.passT) >= 40 {
		return false
	}
	return n < 8 || n%17 == 0
}

func (x *Explorer) record(p *Path) {
	x.mu.Lock()
	defer x.mu.Unlock()
	x.paths++
	x.byStatus[p.status]++
	x.steps += int64(p.steps)
	x.decs += int64(len(p.trace))
	x.asserts += int64(p.asserts)
	x.timerFires += p.nTimers
	if p.status == StDone || p.status == StViolation {
		for f, n := range p.fns {
			x.fns[f] += n
		}
		for k := range p.reached {
			x.reached[k]++
		}
	}
	for k := range p.models {
		x.models[k] = true
	}
	switch p.status {
	case StViolation:
		key := violKey(p.msg)
		v := &Viol{Msg: p.msg, Stack: p.stack, Tape: p.cexTape, Decs: append([]dec{}, p.trace...)}
		if v.Tape != nil {
			v.Tape.Message = p.msg
			v.Tape.Stack = p.stack
		}
		if f := x.violKeys[key]; f != nil {
			// other counterexamples of the same kind, in case the first one
			// depends on timing that a native run cannot reproduce
			f.seen++
			switch {
			case len(f.Alts) < 4:
				f.Alts = append(f.Alts, v)
			case f.seen%3 == 0:
				f.Alts[1+f.seen/3%3] = v
			}
		} else {
			x.violKeys[key] = v
			v.Known = x.known != nil && x.known(p.msg)
			x.viols = append(x.viols, v)
			if !v.Known {
				if x.found != nil {
					x.found()
				}
				n := 0
				for _, y := range x.viols {
					if !y.Known {
						n++
					}
				}
				if n >= 3 {
					x.stop = true
					x.work = nil
				}
			}
		}
	case StUnsupported, StLimit:
		x.notes[p.status.String()+": "+firstLine(p.msg)]++
	case StInfeasible:
		if strings.HasPrefix(p.msg, "skip: ") {
			x.skips[p.msg]++
		}
	case StDone:
		if p.passTape != nil && len(x.passT) < 40 {
			x.passT = append(x.passT, p.passTape)
		}
	}
	if x.paths >= x.maxPaths && len(x.work) > 0 {
		x.stop = true
		x.timedOut = true
		x.work = nil
	}
}

func firstLine(s string) string {
	if verbose {
		return s
	}
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	if len(s) > 400 {
		s = s[:400]
	}
	return s
}

// violKey groups counterexamples: the message without positions and numbers.
func violKey(m string) string {
	if i := strings.Index(m, " at "); i >= 0 {
		m = m[:i]
	}
	var sb strings.Builder
	for _, r := range m {
		if r >= '0' && r <= '9' {
			continue
		}
		sb.WriteRune(r)
	}
	return sb.String()
}

func (x *Explorer) complete() bool {
	return !x.timedOut && x.byStatus[StUnsupported] == 0 && x.byStatus[StLimit] == 0
}

func (x *Explorer) summary() string {
	var st []string
	for _, k := range []Status{StDone, StViolation, StInfeasible, StUnsupported, StLimit} {
		if x.byStatus[k] > 0 {
			st = append(st, fmt.Sprintf("%s=%d", k, x.byStatus[k]))
		}
	}
	var ns []string
	for k, n := range x.notes {
		ns = append(ns, fmt.Sprintf("    %dx %s", n, k))
	}
	for k, n := range x.skips {
		ns = append(ns, fmt.Sprintf("    %dx %s", n, k))
	}
	sort.Strings(ns)
	var rs []string
	for k, n := range x.reached {
		rs = append(rs, fmt.Sprintf("%s:%d", k, n))
	}
	sort.Strings(rs)
	d := x.end.Sub(x.start)
	s := fmt.Sprintf("  %-34s paths=%d [%s] asserts=%d steps=%d decs=%d timers=%d %.1fs reached[%s]", x.cse.Name, x.paths, strings.Join(st, " "), x.asserts, x.steps, x.decs, x.timerFires, d.Seconds(), strings.Join(rs, " "))
	if x.timedOut {
		s += " INCOMPLETE"
	}
	if len(ns) > 0 {
		s += "\n" + strings.Join(ns, "\n")
	}
	return s
}
