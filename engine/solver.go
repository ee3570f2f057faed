package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

// SatResult of a query.
type SatResult int

const (
	Unsat SatResult = iota
	Sat
	Unknown
)

// Stats are global counters.
var Stats struct {
	Queries, SatN, UnsatN, UnknownN, Errors int64
	SolverNS                                int64
	SlowQueries                             int64
}

// Solver talks to a z3 process. Terms are declared/defined on demand inside the
// current path scope.
type Solver struct {
	bin     string
	cmd     *exec.Cmd
	in      *bufio.Writer
	inC     io.WriteCloser
	out     *bufio.Reader
	defined map[int]bool
	uf      map[string]bool
	pcLog   []string // everything sent in this scope (for fallback)
	fresh   bool
	broken  bool
	timeout int // ms
}

func NewSolver() *Solver {
	s := &Solver{bin: "z3-new", timeout: 8000}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.bin, "-in", "-smt2")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.inC = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	fmt.Fprintf(s.in, "(set-option :timeout %d)\n(set-logic QF_UFBV)\n", s.timeout)
	s.defined = map[int]bool{}
	s.uf = map[string]bool{}
	s.pcLog = nil
}

// abort kills the process under a running query.
func (s *Solver) abort() {
	s.broken = true
	s.cmd.Process.Kill()
}

func (s *Solver) Close() {
	s.inC.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
}

// BeginPath opens a fresh scope.
func (s *Solver) BeginPath() {
	if s.fresh {
		return
	}
	s.raw("(push)")
	s.defined = map[int]bool{}
	s.uf = map[string]bool{}
	s.pcLog = nil
}

// EndPath drops it.
func (s *Solver) EndPath() {
	s.raw("(pop)")
}

func (s *Solver) raw(x string) {
	s.in.WriteString(x)
	s.in.WriteByte('\n')
}

func (s *Solver) send(x string) {
	s.pcLog = append(s.pcLog, x)
	s.raw(x)
}

func sortOf(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return "(_ BitVec " + strconv.Itoa(int(w)) + ")"
}

func quote(n string) string { return "|$" + n + "|" }

func constStr(w uint8, v uint64) string {
	if w == 0 {
		if v == 1 {
			return "true"
		}
		return "false"
	}
	return "(_ bv" + strconv.FormatUint(v, 10) + " " + strconv.Itoa(int(w)) + ")"
}

var opNames = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OIte: "ite", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OSDiv: "bvsdiv", OURem: "bvurem", OSRem: "bvsrem", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle", OBNot: "bvnot", ONeg: "bvneg", OConcat: "concat"}

// ref returns an SMT name for t, emitting definitions for it first.
func (s *Solver) ref(t *Term) string {
	if t.op == OConst {
		return constStr(t.w, t.val)
	}
	if t.op == OVar {
		if !s.defined[t.id] {
			s.defined[t.id] = true
			s.send("(declare-const " + quote(t.name) + " " + sortOf(t.w) + ")")
			if t.umin > 0 {
				s.send("(assert (bvuge " + quote(t.name) + " " + constStr(t.w, t.umin) + "))")
			}
			if t.w > 0 && t.umax < mask(t.w) {
				s.send("(assert (bvule " + quote(t.name) + " " + constStr(t.w, t.umax) + "))")
			}
		}
		return quote(t.name)
	}
	nm := "t" + strconv.Itoa(t.id)
	if s.defined[t.id] {
		return nm
	}
	// iterative post-order to avoid deep recursion
	type fr struct {
		t *Term
		i int
	}
	st := []fr{{t, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		if f.i < len(f.t.args) {
			a := f.t.args[f.i]
			f.i++
			if a.op != OConst && !s.defined[a.id] {
				if a.op == OVar {
					s.ref(a)
				} else {
					st = append(st, fr{a, 0})
				}
			}
			continue
		}
		if !s.defined[f.t.id] {
			s.defined[f.t.id] = true
			s.emitDef(f.t)
		}
		st = st[:len(st)-1]
	}
	return nm
}

func (s *Solver) leaf(t *Term) string {
	switch t.op {
	case OConst:
		return constStr(t.w, t.val)
	case OVar:
		return quote(t.name)
	}
	return "t" + strconv.Itoa(t.id)
}

func (s *Solver) emitDef(t *Term) {
	var b strings.Builder
	b.WriteString("(define-fun t")
	b.WriteString(strconv.Itoa(t.id))
	b.WriteString(" () ")
	b.WriteString(sortOf(t.w))
	b.WriteByte(' ')
	switch t.op {
	case OApp:
		key := t.name
		if !s.uf[key] {
			s.uf[key] = true
			d := "(declare-fun " + quote(t.name) + " ("
			for i, a := range t.args {
				if i > 0 {
					d += " "
				}
				d += sortOf(a.w)
			}
			d += ") " + sortOf(t.w) + ")"
			s.send(d)
		}
		b.WriteString("(" + quote(t.name))
	case OZext:
		fmt.Fprintf(&b, "((_ zero_extend %d)", t.w-t.args[0].w)
	case OSext:
		fmt.Fprintf(&b, "((_ sign_extend %d)", t.w-t.args[0].w)
	case OExtract:
		fmt.Fprintf(&b, "((_ extract %d %d)", t.hi, t.lo)
	default:
		b.WriteString("(" + opNames[t.op])
	}
	for _, a := range t.args {
		b.WriteByte(' ')
		b.WriteString(s.leaf(a))
	}
	b.WriteString("))")
	s.send(b.String())
}

// Assert adds a permanent (path-scoped) assertion.
func (s *Solver) Assert(t *Term) {
	if t.op == OConst && t.val == 1 {
		return
	}
	r := s.ref(t)
	s.send("(assert " + r + ")")
}

// Check asks whether the path condition plus extra is satisfiable.
func (s *Solver) Check(extra *Term) SatResult {
	if extra != nil && extra.op == OConst && extra.val == 0 {
		return Unsat
	}
	var r string
	if extra != nil {
		r = s.ref(extra)
	}
	t0 := time.Now()
	if extra != nil {
		s.raw("(push)\n(assert " + r + ")\n(check-sat)\n(pop)")
	} else {
		s.raw("(check-sat)")
	}
	ans := s.readLine()
	d := time.Since(t0)
	atomic.AddInt64(&Stats.SolverNS, int64(d))
	atomic.AddInt64(&Stats.Queries, 1)
	if f := os.Getenv("VT_SLOW"); f != "" && d > 150*time.Millisecond {
		os.WriteFile(f, []byte(strings.Join(s.pcLog, "\n")+"\n(assert "+r+")\n(check-sat)\n"), 0o644)
	}
	if d > time.Second {
		atomic.AddInt64(&Stats.SlowQueries, 1)
	}
	switch ans {
	case "sat":
		atomic.AddInt64(&Stats.SatN, 1)
		return Sat
	case "unsat":
		atomic.AddInt64(&Stats.UnsatN, 1)
		return Unsat
	}
	if strings.HasPrefix(ans, "(error") {
		atomic.AddInt64(&Stats.Errors, 1)
		if lastSolverError.Load() == nil {
			lastSolverError.Store(ans + " after " + strings.Join(s.pcLog, " "))
		}
		return Unknown
	}
	// fallback: one fresh non-incremental run on the full query
	res := s.fallback(r)
	switch res {
	case Sat:
		atomic.AddInt64(&Stats.SatN, 1)
	case Unsat:
		atomic.AddInt64(&Stats.UnsatN, 1)
	default:
		atomic.AddInt64(&Stats.UnknownN, 1)
	}
	return res
}

var lastSolverError atomic.Value

func (s *Solver) fallback(extra string) SatResult {
	var b strings.Builder
	b.WriteString("(set-logic QF_UFBV)\n")
	for _, l := range s.pcLog {
		b.WriteString(l)
		b.WriteByte('\n')
	}
	if extra != "" {
		b.WriteString("(assert " + extra + ")\n")
	}
	b.WriteString("(check-sat)\n")
	q := b.String()
	t0 := time.Now()
	defer func() { atomic.AddInt64(&Stats.SolverNS, int64(time.Since(t0))) }()
	for _, c := range [][]string{{"z3-new", "-in", "-smt2", "-T:20"}, {"cvc5", "--lang=smt2", "--tlimit=20000", "-"}} {
		cmd := exec.Command(c[0], c[1:]...)
		cmd.Stdin = strings.NewReader(q)
		o, _ := cmd.Output()
		l := strings.TrimSpace(string(o))
		if i := strings.IndexByte(l, '\n'); i >= 0 {
			l = l[:i]
		}
		switch l {
		case "sat":
			return Sat
		case "unsat":
			return Unsat
		}
	}
	return Unknown
}

func (s *Solver) readLine() string {
	s.in.Flush()
	l, err := s.out.ReadString('\n')
	if err != nil {
		s.broken = true
		panic("solver died: " + err.Error() + " " + l)
	}
	return strings.TrimSpace(l)
}

// readSexp reads a balanced s-expression.
func (s *Solver) readSexp() string {
	s.in.Flush()
	var b strings.Builder
	depth := 0
	started := false
	inq := false
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			panic("solver died: " + err.Error())
		}
		b.WriteByte(c)
		if c == '|' {
			inq = !inq
		}
		if inq {
			continue
		}
		if c == '(' {
			depth++
			started = true
		} else if c == ')' {
			depth--
		}
		if started && depth == 0 {
			// consume newline
			s.out.ReadString('\n')
			return b.String()
		}
	}
}

// WithModel checks pc+extra; on Sat calls f with a value getter, before the
// scope is closed.
func (s *Solver) WithModel(extra *Term, terms []*Term, f func(vals []uint64)) SatResult {
	refs := make([]string, len(terms))
	for i, t := range terms {
		refs[i] = s.ref(t)
	}
	var er string
	if extra != nil {
		er = s.ref(extra)
	}
	s.raw("(push)")
	if extra != nil {
		s.raw("(assert " + er + ")")
	}
	s.raw("(check-sat)")
	t0 := time.Now()
	ans := s.readLine()
	atomic.AddInt64(&Stats.SolverNS, int64(time.Since(t0)))
	atomic.AddInt64(&Stats.Queries, 1)
	if ans != "sat" {
		s.raw("(pop)")
		if ans == "unsat" {
			atomic.AddInt64(&Stats.UnsatN, 1)
			return Unsat
		}
		atomic.AddInt64(&Stats.UnknownN, 1)
		return Unknown
	}
	atomic.AddInt64(&Stats.SatN, 1)
	vals := make([]uint64, len(terms))
	const chunk = 500
	for i := 0; i < len(terms); i += chunk {
		j := i + chunk
		if j > len(terms) {
			j = len(terms)
		}
		s.raw("(get-value (" + strings.Join(refs[i:j], " ") + "))")
		x := s.readSexp()
		vs := parseValues(x)
		if len(vs) != j-i {
			panic("get-value parse: " + x)
		}
		copy(vals[i:], vs)
	}
	s.raw("(pop)")
	f(vals)
	return Sat
}

// parseValues parses ((a v) (b v) ...) taking the last token of each pair.
func parseValues(x string) []uint64 {
	var out []uint64
	depth := 0
	inq := false
	last := ""
	cur := ""
	for i := 0; i < len(x); i++ {
		ch := x[i]
		if ch == '|' {
			inq = !inq
			continue
		}
		if inq {
			continue
		}
		switch ch {
		case '(':
			depth++
			cur = ""
		case ')':
			if cur != "" {
				last = cur
				cur = ""
			}
			if depth == 2 {
				out = append(out, parseVal(last))
			}
			depth--
		case ' ', '\n', '\t':
			if cur != "" {
				last = cur
				cur = ""
			}
		default:
			cur += string(ch)
		}
	}
	return out
}

func parseVal(v string) uint64 {
	switch {
	case v == "true":
		return 1
	case v == "false":
		return 0
	case strings.HasPrefix(v, "#x"):
		n, _ := strconv.ParseUint(v[2:], 16, 64)
		return n
	case strings.HasPrefix(v, "#b"):
		n, _ := strconv.ParseUint(v[2:], 2, 64)
		return n
	}
	n, err := strconv.ParseUint(v, 10, 64)
	if err != nil {
		panic("value " + v)
	}
	return n
}
