package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Status of an explored path.
type Status int

const (
	StDone Status = iota
	StViolation
	StInfeasible
	StUnsupported
	StLimit
	StStopped
)

func (s Status) String() string {
	return [...]string{"done", "violation", "infeasible", "unsupported", "limit", "stopped"}[s]
}

// dec is one decision of a path. kind: 'b' branch, 'c' choice, 'k' concretise.
type dec struct {
	kind   byte
	forced bool
	v      uint64
}

// Input is a nondeterministic input created by the harness; the tape that
// replays a path natively is the list of its values.
type Input struct {
	Name string
	Kind string // int,bool,bytes,choose
	t    *Term  // value or length
	fn   string // uninterpreted function holding the content (bytes)
	max  uint64
	val  uint64 // choose
}

// Obs is an observation for cross-checking with a native run.
type Obs struct {
	name string
	t    []*Term // scalar or bytes
	s    string
	isS  bool
}

type killSentinel struct{}

// Path is one symbolic execution.
type Path struct {
	x      *Explorer
	prog   *Program
	c      *Ctx
	s      *Solver
	prefix []dec
	trace  []dec

	status  Status
	msg     string
	stack   string
	done    chan struct{}
	dead    bool
	ended   bool
	hostWG  sync.WaitGroup
	cur     *G
	runq    []*G
	gs      []*G
	nextG   int
	mainG   *G
	waitG   *G // main blocked in vWait
	settleN int

	now       *Term
	timers    map[*value]*vTimer
	timerQ    []*vTimer
	timerSq   int
	vcEp, vcN int
	vcDone    vclock
	vcAtom    map[interface{}]*vcRec
	spawnVC   *vcRec

	globals   map[*ssa.Global]*value
	inited    map[*ssa.Package]bool
	mutexes   map[interface{}]*vMutex
	side      map[interface{}]interface{}
	inputs    []*Input
	obs       []Obs
	reached   map[string]bool
	asserts   int
	steps     int
	symDec    int
	fresh     map[string]int
	uniq      int
	lastPos   string
	schedOn   bool
	raceOn    bool // every memory access is tracked (vRace)
	shadow    map[interface{}]*mapAcc
	shadowEp  int
	schedUsed bool // schedOn was set at some point
	preempt   int  // remaining preemption budget
	preemptM  int
	mapOrder  bool
	fullSw    bool
	timeEarly int
	faultLog  []string
	schedLog  []string
	sha       map[string]bool
	lcg       uint64
	violTerm  *Term // condition whose model is the counterexample (nil: pc)
	out       strings.Builder
	fns       map[*ssa.Function]int
	models    map[string]bool
	nTimers   int
	hostObj   map[*value]interface{}
	maxSteps  int
	cexTape   *Tape
	passTape  *Tape
}

func (p *Path) end(st Status, msg string) {
	if !p.ended {
		p.ended = true
		p.status = st
		p.msg = msg
		if st == StViolation {
			p.stack = p.where()
		}
		close(p.done)
	}
	panic(killSentinel{})
}

func (p *Path) unsupported(msg string) {
	p.end(StUnsupported, msg+" at "+p.lastPosStr())
}

func (p *Path) lastPosStr() string {
	if p.cur == nil {
		return "?"
	}
	return p.cur.stackStr(6)
}

func (p *Path) where() string {
	if p.cur == nil {
		return ""
	}
	return p.cur.stackStr(12)
}

// violation ends the path with a counterexample satisfying cond (nil: any
// state on this path).
func (p *Path) violation(cond *Term, msg string) {
	if p.ended {
		panic(killSentinel{})
	}
	p.violTerm = cond
	p.stack = p.where()
	if t, ok := p.makeTape(cond); ok {
		p.cexTape = t
		p.end(StViolation, msg)
	}
	p.end(StLimit, "solver unknown on model extraction for: "+msg)
}

// ---- decisions ----

func (p *Path) nextPrefix(kind byte) (dec, bool) {
	i := len(p.trace)
	if i < len(p.prefix) {
		d := p.prefix[i]
		if d.kind != kind {
			panic(fmt.Sprintf("engine: nondeterministic replay: trace[%d] %c vs %c at %s", i, d.kind, kind, p.lastPosStr()))
		}
		return d, true
	}
	return dec{}, false
}

func (p *Path) checkDec() {
	if p.dead {
		panic(killSentinel{})
	}
	if len(p.trace) > p.x.maxDecs {
		p.end(StLimit, "decision limit")
	}
}

// branch decides a boolean condition, forking if both outcomes are possible.
func (p *Path) branch(cond *Term) bool {
	if cond.isConst() {
		return cond.val == 1
	}
	p.checkDec()
	if d, ok := p.nextPrefix('b'); ok {
		p.trace = append(p.trace, d)
		if !d.forced {
			if d.v == 1 {
				p.s.Assert(cond)
			} else {
				p.s.Assert(p.c.Not(cond))
			}
		}
		return d.v == 1
	}
	p.symDec++
	r := p.s.Check(cond)
	if r == Unknown {
		p.end(StLimit, "solver unknown")
	}
	if r == Unsat {
		p.trace = append(p.trace, dec{'b', true, 0})
		return false
	}
	r = p.s.Check(p.c.Not(cond))
	if r == Unknown {
		p.end(StLimit, "solver unknown")
	}
	if r == Unsat {
		p.trace = append(p.trace, dec{'b', true, 1})
		return true
	}
	p.x.push(p, dec{'b', false, 0})
	p.trace = append(p.trace, dec{'b', false, 1})
	p.s.Assert(cond)
	return true
}

// valid reports whether cond holds on every state of this path (no forking).
func (p *Path) valid(cond *Term) bool {
	if cond.isConst() {
		return cond.val == 1
	}
	// deterministic across replays: the answer is recorded as a forced decision
	if d, ok := p.nextPrefix('v'); ok {
		p.trace = append(p.trace, d)
		return d.v == 1
	}
	r := p.s.Check(p.c.Not(cond)) == Unsat
	p.trace = append(p.trace, dec{'v', true, b2u(r)})
	return r
}

// possible reports whether cond holds on some state of this path.
func (p *Path) possible(cond *Term) bool {
	return !p.valid(p.c.Not(cond))
}

// choose forks over n alternatives.
func (p *Path) choose(n int, what string) int {
	if n <= 1 {
		return 0
	}
	p.checkDec()
	if d, ok := p.nextPrefix('c'); ok {
		p.trace = append(p.trace, d)
		return int(d.v)
	}
	for k := n - 1; k >= 1; k-- {
		p.x.push(p, dec{'c', false, uint64(k)})
	}
	p.trace = append(p.trace, dec{'c', false, 0})
	return 0
}

// assume restricts the path.
func (p *Path) assume(cond *Term) {
	if cond.isConst() {
		if cond.val == 0 {
			p.end(StInfeasible, "assume")
		}
		return
	}
	p.checkDec()
	if d, ok := p.nextPrefix('a'); ok {
		p.trace = append(p.trace, d)
		p.s.Assert(cond)
		return
	}
	r := p.s.Check(cond)
	if r == Unknown {
		p.end(StLimit, "solver unknown")
	}
	if r == Unsat {
		p.end(StInfeasible, "assume")
	}
	p.trace = append(p.trace, dec{'a', false, 1})
	p.s.Assert(cond)
}

// assert checks a property; a violation ends the path.
func (p *Path) assert(cond *Term, msg string) {
	p.asserts++
	if cond.isConst() && cond.val == 1 {
		return
	}
	p.checkDec()
	if d, ok := p.nextPrefix('s'); ok {
		p.trace = append(p.trace, d)
		return
	}
	neg := p.c.Not(cond)
	r := p.s.Check(neg)
	switch r {
	case Unsat:
		p.trace = append(p.trace, dec{'s', true, 1})
		return
	case Unknown:
		p.end(StLimit, "solver unknown on assertion: "+msg)
	}
	p.violation(neg, msg)
}

const concLimit = 300

// concretize returns a concrete value for t, forking over all feasible ones.
func (p *Path) concretize(t *Term, what string) uint64 {
	if t.isConst() {
		return t.val
	}
	for k := 0; k < concLimit; k++ {
		if d, ok := p.nextPrefix('k'); ok {
			p.trace = append(p.trace, d)
			eq := p.c.Eq(t, p.c.BV(t.w, d.v))
			if d.forced { // excluded value
				p.s.Assert(p.c.Not(eq))
				continue
			}
			p.s.Assert(eq)
			return d.v
		}
		p.checkDec()
		var v uint64
		r := p.s.WithModel(nil, []*Term{t}, func(vals []uint64) { v = vals[0] })
		if r == Unsat {
			p.end(StInfeasible, "concretize exhausted")
		}
		if r != Sat {
			p.end(StLimit, "solver unknown in concretize")
		}
		eq := p.c.Eq(t, p.c.BV(t.w, v))
		if p.s.Check(p.c.Not(eq)) != Unsat {
			p.x.push(p, dec{'k', true, v})
		}
		p.trace = append(p.trace, dec{'k', false, v})
		p.s.Assert(eq)
		return v
	}
	p.end(StLimit, "too many values in concretize: "+what)
	return 0
}

// freshName gives a deterministic unique name.
func (p *Path) freshName(base string) string {
	n := p.fresh[base]
	p.fresh[base] = n + 1
	if n == 0 {
		return base
	}
	return fmt.Sprintf("%s#%d", base, n)
}

// ---- tapes ----

type TapeEntry struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	Val  uint64 `json:"val"`
	Data []byte `json:"data,omitempty"`
}

type Tape struct {
	Case    string      `json:"case"`
	Tier    string      `json:"tier"`
	Entries []TapeEntry `json:"entries"`
	Obs     []string    `json:"obs,omitempty"`
	Reached []string    `json:"reached,omitempty"`
	Sched   []string    `json:"sched,omitempty"`
	SchedOn bool        `json:"schedOn,omitempty"` // schedules were explored on the path
	Message string      `json:"message,omitempty"`
	Stack   string      `json:"stack,omitempty"`
	Decs    string      `json:"decisions,omitempty"`
}

// makeTape solves for the inputs of the path.
func (p *Path) makeTape(cond *Term) (*Tape, bool) {
	var terms []*Term
	for _, in := range p.inputs {
		if in.t != nil {
			terms = append(terms, in.t)
		}
	}
	// contents: every application of an input function that was created
	type ap struct {
		fn  string
		idx int // index in terms of the argument
		val int
	}
	isIn := map[string]bool{}
	for _, in := range p.inputs {
		if in.fn != "" {
			isIn[in.fn] = true
		}
	}
	var aps []ap
	var apps []*Term
	for _, t := range p.c.appTab {
		if isIn[t.name] {
			apps = append(apps, t)
		}
	}
	sort.Slice(apps, func(i, j int) bool { return apps[i].id < apps[j].id })
	for _, t := range apps {
		aps = append(aps, ap{t.name, len(terms), len(terms) + 1})
		terms = append(terms, t.args[0], t)
	}
	// observations
	obsAt := make([]int, len(p.obs))
	for i, o := range p.obs {
		obsAt[i] = len(terms)
		terms = append(terms, o.t...)
	}
	tape := &Tape{Case: p.x.cse.Name, Tier: p.x.tier}
	fill := func(vals []uint64) {
		content := map[string]map[uint64]byte{}
		for _, a := range aps {
			m := content[a.fn]
			if m == nil {
				m = map[uint64]byte{}
				content[a.fn] = m
			}
			m[vals[a.idx]] = byte(vals[a.val])
		}
		k := 0
		for _, in := range p.inputs {
			e := TapeEntry{Name: in.Name, Kind: in.Kind, Val: in.val}
			if in.t != nil {
				e.Val = vals[k]
				k++
			}
			if in.fn != "" {
				n := e.Val
				if n > in.max {
					n = in.max
				}
				e.Data = make([]byte, n)
				for i, b := range content[in.fn] {
					if i < n {
						e.Data[i] = b
					}
				}
			}
			tape.Entries = append(tape.Entries, e)
		}
		for i, o := range p.obs {
			if o.isS {
				tape.Obs = append(tape.Obs, o.name+"="+o.s)
				continue
			}
			var sb strings.Builder
			sb.WriteString(o.name + "=")
			for j := range o.t {
				if j > 0 {
					sb.WriteByte(',')
				}
				v := vals[obsAt[i]+j]
				if o.t[j].w == 0 {
					fmt.Fprintf(&sb, "%v", v == 1)
				} else {
					fmt.Fprintf(&sb, "%d", v)
				}
			}
			tape.Obs = append(tape.Obs, sb.String())
		}
	}
	if len(terms) == 0 && (cond == nil || cond.isConst()) {
		fill(nil)
	} else {
		r := p.s.WithModel(cond, terms, fill)
		if r != Sat {
			return nil, false
		}
	}
	for k := range p.reached {
		tape.Reached = append(tape.Reached, k)
	}
	sort.Strings(tape.Reached)
	tape.Sched = append([]string{}, p.schedLog...)
	tape.SchedOn = p.schedUsed
	var db strings.Builder
	for _, d := range p.trace {
		db.WriteByte(d.kind)
		if d.forced {
			db.WriteByte('!')
		}
		fmt.Fprintf(&db, "%d ", d.v)
	}
	if db.Len() < 20000 {
		tape.Decs = strings.TrimSpace(db.String())
	}
	return tape, true
}

// ---- panics of the target program ----

type targetPanic struct {
	v     Iface
	stack string
	rt    bool // runtime error
}

type exitPanic struct{ code int }

func (p *Path) runtimeErrType() types.Type {
	if p.prog.rtErr != nil {
		return p.prog.rtErr
	}
	return types.Typ[types.String]
}

func (p *Path) goPanicStr(msg string) {
	st := ""
	if p.cur != nil {
		st = p.cur.stackStr(8)
	}
	panic(targetPanic{v: Iface{p.runtimeErrType(), conc(strings.TrimPrefix(msg, "runtime error: "))}, stack: st, rt: true})
}
