package main

import (
	"crypto/sha1"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

var verbose bool

func main() {
	var (
		verif   = flag.String("verif", "/verif", "verification directory")
		repo    = flag.String("repo", "/repo", "repository")
		tier    = flag.String("tier", "", "quick or thorough")
		cases   = flag.String("case", "", "only cases matching this regular expression")
		budget  = flag.Int("budget", 0, "time budget in seconds")
		workers = flag.Int("workers", runtime.NumCPU(), "parallel paths")
		nonat   = flag.Bool("nonative", false, "skip native runs")
	)
	prof := flag.String("cpuprofile", "", "write a CPU profile")
	flag.IntVar(&grace, "grace", 90, "seconds to go on after the first counterexample")
	flag.BoolVar(&verbose, "v", false, "verbose")
	flag.BoolVar(&debugLog, "log", false, "print vLog")
	flag.Parse()
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(20 << 30)
	if flag.NArg() < 2 {
		fmt.Fprintln(os.Stderr, "usage: vt [flags] check PROPERTY | replay FILE")
		os.Exit(2)
	}
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
		if *tier != "thorough" {
			*tier = "quick"
		}
	}
	switch flag.Arg(0) {
	case "check":
		if *prof != "" {
			f, _ := os.Create(*prof)
			pprof.StartCPUProfile(f)
			r := check(*verif, *repo, flag.Arg(1), *tier, *cases, *budget, *workers, *nonat)
			pprof.StopCPUProfile()
			os.Exit(r)
		}
		os.Exit(check(*verif, *repo, flag.Arg(1), *tier, *cases, *budget, *workers, *nonat))
	case "replay":
		os.Exit(replay(*verif, *repo, flag.Arg(1)))
	}
	os.Exit(2)
}

// Known is one entry of known-findings.jsonl.
type Known struct {
	Property string `json:"property"`
	Case     string `json:"case"`  // regular expression on the case name
	Match    string `json:"match"` // regular expression on the message
	What     string `json:"what"`
	Fixed    string `json:"fixed"` // commit; a fixed entry suppresses nothing
}

func loadKnown(verif, prop string) []Known {
	b, err := os.ReadFile(filepath.Join(verif, "known-findings.jsonl"))
	if err != nil {
		return nil
	}
	var ks []Known
	for _, l := range strings.Split(string(b), "\n") {
		var k Known
		if strings.TrimSpace(l) == "" || json.Unmarshal([]byte(l), &k) != nil {
			continue
		}
		if k.Property == prop && k.Fixed == "" && k.Match != "" {
			ks = append(ks, k)
		}
	}
	return ks
}

type replayFile struct {
	Property  string   `json:"property"`
	Case      string   `json:"case"`
	Pkg       string   `json:"package"`
	Message   string   `json:"message"`
	Stack     string   `json:"where"`
	Confirmed string   `json:"confirmed"`
	Sched     []string `json:"schedule,omitempty"`
	Tape      *Tape    `json:"tape"`
	Decs      string   `json:"decisions"`
	HowTo     string   `json:"how_to_replay"`
}

func decString(ds []dec) string {
	var sb strings.Builder
	for _, d := range ds {
		f := ""
		if d.forced {
			f = "!"
		}
		fmt.Fprintf(&sb, "%c%s%d ", d.kind, f, d.v)
	}
	return strings.TrimSpace(sb.String())
}

// grace is how long the exploration goes on after the first counterexample.
var grace int

func check(verif, repo, prop, tier, caseRe string, budget, workers int, nonat bool) int {
	t0 := time.Now()
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	pr, err := Load(verif, repo, prop)
	if err != nil {
		// code the harness cannot be compiled with gives no verdict
		fmt.Printf("INCONCLUSIVE property=%s %v\n", prop, err)
		writeEvidence(verif, prop, tier, seed, t0, nil, nil, nil, "load failed: "+err.Error())
		return 0
	}
	loadS := time.Since(t0)
	known := loadKnown(verif, prop)
	if budget == 0 {
		budget = 420
		if tier == "thorough" {
			budget = 3000
		}
	}
	deadline := t0.Add(time.Duration(budget) * time.Second)
	pool := &Pool{workers: workers, deadline: deadline}
	var re *regexp.Regexp
	if caseRe != "" {
		re = regexp.MustCompile(caseRe)
	}
	for _, c := range pr.cases {
		if c.Prop != prop || re != nil && !re.MatchString(c.Name) {
			continue
		}
		if c.opt["tier"] == "thorough" && tier != "thorough" {
			continue
		}
		x := NewExplorer(pr, c, tier)
		cn := c.Name
		x.known = func(msg string) bool {
			for _, k := range known {
				if matches(k, cn, msg) {
					return true
				}
			}
			return false
		}
		x.found = func() { pool.shorten(time.Duration(grace) * time.Second) }
		pool.xs = append(pool.xs, x)
	}
	if len(pool.xs) == 0 {
		fmt.Printf("INCONCLUSIVE property=%s no cases\n", prop)
		return 0
	}
	pool.Run()
	exploreS := time.Since(t0)
	for _, d := range pr.dropped {
		fmt.Println("  not checked (white-box harness does not compile against this tree):", d)
	}
	for _, x := range pool.xs {
		fmt.Println(x.summary())
	}
	nat, err := NewNative(pr, repo)
	if err != nil {
		nonat = true
	} else {
		defer nat.Close()
	}
	// conformance: passing symbolic paths, solved to concrete inputs, behave
	// the same in the compiled program
	conf := conformance{}
	for _, d := range pr.dropped {
		conf.note("left out", d)
	}
	bad := false
	for _, x := range pool.xs {
		for _, v := range x.viols {
			bad = bad || !v.Known
		}
	}
	if !nonat && !bad {
		per := 4
		if tier == "thorough" {
			per = 20
		}
		for _, x := range pool.xs {
			if x.cse.opt["native"] == "no" {
				continue
			}
			n := 0
			for _, t := range x.passT {
				if n >= per || time.Now().After(deadline.Add(120*time.Second)) {
					break
				}
				n++
				r := nat.run(x.cse.Pkg, t, "", 0)
				if r.Verdict == "stuck" {
					continue
				}
				conf.runs++
				switch {
				case r.Verdict == "ok" && sameObs(t.Obs, r.Obs):
					conf.agree++
				case r.Verdict == "ok":
					conf.obsDiff++
					conf.note(x.cse.Name, "observations differ: "+obsDiff(t.Obs, r.Obs))
				default:
					conf.other++
					conf.note(x.cse.Name, r.Verdict+" "+r.Msg)
				}
			}
		}
	}
	// violations
	code := 0
	nviol := 0
	printedKnown := map[string]bool{}
	for _, x := range pool.xs {
		for _, v := range x.viols {
			if v.Known {
				for _, k := range known {
					if matches(k, x.cse.Name, v.Msg) && !printedKnown[k.What] {
						printedKnown[k.What] = true
						fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.What)
					}
				}
				continue
			}
			ok := confirm(nat, x, v, nonat)
			for i := 0; i < len(v.Alts) && !ok; i++ {
				if a := v.Alts[i]; confirm(nat, x, a, nonat) {
					ok, v = true, a
				}
			}
			rf := saveReplay(verif, prop, x, v)
			if !ok {
				fmt.Printf("UNCONFIRMED property=%s case=%s %s [%s] replay=%s\n    at %s\n", prop, x.cse.Name, v.Msg, v.Conf, rf, v.Stack)
				continue
			}
			nviol++
			code = 1
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, rf)
			fmt.Printf("    case %s: %s\n    where: %s\n    confirmed: %s\n", x.cse.Name, v.Msg, v.Stack, v.Conf)
			for _, s := range v.Tape.Sched {
				fmt.Println("    schedule:", s)
			}
		}
	}
	fmt.Printf("property=%s tier=%s cases=%d paths=%d queries=%d (sat %d unsat %d unknown %d err %d) solver=%.1fs load=%.1fs explore=%.1fs wall=%.1fs native=%d/%d\n",
		prop, tier, len(pool.xs), pool.totPaths, Stats.Queries, Stats.SatN, Stats.UnsatN, Stats.UnknownN, Stats.Errors, float64(Stats.SolverNS)/1e9, loadS.Seconds(), exploreS.Seconds(), time.Since(t0).Seconds(), conf.agree, conf.runs)
	for _, s := range conf.notes {
		fmt.Println("  conformance:", s)
	}
	if e := lastSolverError.Load(); e != nil {
		fmt.Println("  solver error:", e)
	}
	writeEvidence(verif, prop, tier, seed, t0, pool, &conf, printedKnown, "")
	_ = nviol
	return code
}

func matches(k Known, cse, msg string) bool {
	if k.Case != "" {
		if ok, _ := regexp.MatchString("^(?:"+k.Case+")$", cse); !ok {
			return false
		}
	}
	ok, _ := regexp.MatchString(k.Match, msg)
	return ok
}

type conformance struct {
	runs, agree, obsDiff, other int
	notes                       []string
}

func (c *conformance) note(cse, s string) {
	if len(c.notes) < 20 {
		c.notes = append(c.notes, cse+": "+s)
	}
}

func sameObs(a, b []string) bool { return obsDiff(a, b) == "" }

func obsDiff(a, b []string) string {
	for i := 0; i < len(a) || i < len(b); i++ {
		x, y := "-", "-"
		if i < len(a) {
			x = a[i]
		}
		if i < len(b) {
			y = b[i]
		}
		if x != y {
			return fmt.Sprintf("symbolic %q native %q", firstN(x, 200), firstN(y, 200))
		}
	}
	return ""
}

// confirm replays a counterexample: natively, in the compiled program; for a
// schedule-dependent one the native replay is attempted with perturbed
// scheduling, and otherwise the path is re-executed on its concrete values.
func confirm(nat *Native, x *Explorer, v *Viol, nonat bool) bool {
	if nonat || nat == nil || x.cse.opt["native"] == "no" || v.Tape == nil {
		if reexec(x, v) {
			v.Conf = "re-executed on concrete inputs in the engine"
			return true
		}
		v.Conf = "re-execution did not reproduce it"
		return false
	}
	if strings.HasPrefix(v.Msg, "data race") {
		nat.race = true
		defer func() { nat.race = false }()
		for i := 0; i < 12; i++ {
			sites := schedSites(v)
			if i%2 == 0 {
				sites = ""
			}
			r := nat.run(x.cse.Pkg, v.Tape, sites, i)
			if os.Getenv("VT_DEBUG") != "" {
				fmt.Println("native race run:", r.Verdict, r.Msg, "sites", sites)
			}
			if r.Verdict == "race" {
				v.Conf = "native run of the compiled code with Go's race detector: " + r.Msg
				return true
			}
			if r.Verdict == "error" {
				break
			}
		}
		if reexec(x, v) {
			v.Conf = "re-executed on concrete inputs and the same schedule in the engine (the race detector, which sees one schedule and takes the network for synchronisation, did not see it natively)"
			return true
		}
	}
	var last NativeResult
	bad := func(r NativeResult) bool {
		switch r.Verdict {
		case "fail", "panic":
			return true
		case "hang":
			return true
		}
		return false
	}
	for i := 0; i < 3; i++ {
		last = nat.run(x.cse.Pkg, v.Tape, "", i)
		if bad(last) {
			v.Conf = "native run of the compiled code: " + last.Verdict + " " + last.Msg
			return true
		}
		if last.Verdict == "error" {
			break
		}
	}
	if last.Verdict == "stuck" && reexec(x, v) {
		v.Conf = "re-executed on concrete inputs in the engine (a mutex is held while sleeping, which virtual time natively cannot do)"
		return true
	}
	if len(v.Tape.Sched) > 0 || v.Tape.SchedOn {
		sites := schedSites(v)
		for i := 0; i < 40 && sites != ""; i++ {
			r := nat.run(x.cse.Pkg, v.Tape, sites, i)
			if bad(r) {
				v.Conf = fmt.Sprintf("native run of the compiled code with perturbed scheduling (seed %d): %s %s", i, r.Verdict, r.Msg)
				return true
			}
			if r.Verdict == "error" {
				break
			}
		}
		if reexec(x, v) {
			v.Conf = "schedule-dependent; re-executed on concrete inputs and the same schedule in the engine"
			return true
		}
	}
	if x.cse.opt["native"] == "engine" && reexec(x, v) {
		v.Conf = "re-executed on concrete inputs in the engine (environment not reproducible natively)"
		return true
	}
	v.Conf = "native run: " + last.Verdict + " " + firstN(last.Msg, 300)
	return false
}

var siteRe = regexp.MustCompile(`\((\w+\.go):(\d+)\)`)

func schedSites(v *Viol) string {
	set := map[string]bool{}
	for _, s := range v.Tape.Sched {
		for _, m := range siteRe.FindAllStringSubmatch(s, -1) {
			if strings.HasPrefix(m[1], "zz_verif") {
				continue
			}
			n, _ := strconv.Atoi(m[2])
			for d := 0; d <= 1; d++ {
				set[fmt.Sprintf("%s:%d", m[1], n+d)] = true
			}
		}
	}
	var l []string
	for k := range set {
		l = append(l, k)
	}
	sort.Strings(l)
	return strings.Join(l, ",")
}

// reexec runs the recorded decision sequence again and reports whether the same
// violation appears.
func reexec(x *Explorer, v *Viol) bool {
	y := NewExplorer(x.pr, x.cse, x.tier)
	y.onePath = v.Decs
	s := NewSolver()
	defer s.Close()
	y.runPath(v.Decs, s, time.Now().Add(120*time.Second))
	return len(y.viols) > 0 && violKey(y.viols[0].Msg) == violKey(v.Msg)
}

func saveReplay(verif, prop string, x *Explorer, v *Viol) string {
	dir := filepath.Join(verif, "replay", prop)
	os.MkdirAll(dir, 0o755)
	h := sha1.Sum([]byte(x.cse.Name + violKey(v.Msg)))
	f := filepath.Join(dir, fmt.Sprintf("%s-%x.json", x.cse.Name, h[:4]))
	rf := replayFile{Property: prop, Case: x.cse.Name, Pkg: x.cse.Pkg, Message: v.Msg, Stack: v.Stack, Confirmed: v.Conf, Tape: v.Tape, Decs: decString(v.Decs),
		HowTo: "cd /verif && bin/vt replay " + f}
	if v.Tape != nil {
		rf.Sched = v.Tape.Sched
	}
	b, _ := json.MarshalIndent(rf, "", " ")
	os.WriteFile(f, b, 0o644)
	return f
}

func parseDecs(s string) []dec {
	var ds []dec
	for _, f := range strings.Fields(s) {
		d := dec{kind: f[0]}
		f = f[1:]
		if strings.HasPrefix(f, "!") {
			d.forced = true
			f = f[1:]
		}
		d.v, _ = strconv.ParseUint(f, 10, 64)
		ds = append(ds, d)
	}
	return ds
}

func replay(verif, repo, file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Println(err)
		return 2
	}
	pr, err := Load(verif, repo, rf.Property)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	for _, c := range pr.cases {
		if c.Name != rf.Case {
			continue
		}
		nat, err := NewNative(pr, repo)
		if err != nil {
			fmt.Println(err)
			return 2
		}
		defer nat.Close()
		r := nat.run(c.Pkg, rf.Tape, "", 0)
		fmt.Println("native:", r.Verdict, r.Msg)
		x := NewExplorer(pr, c, rf.Tape.Tier)
		v := &Viol{Msg: rf.Message, Tape: rf.Tape, Decs: parseDecs(rf.Decs)}
		ok := reexec(x, v)
		fmt.Println("engine re-execution reproduces it:", ok)
		for _, s := range rf.Sched {
			fmt.Println("schedule:", s)
		}
		if ok || r.Verdict == "fail" || r.Verdict == "panic" || r.Verdict == "hang" {
			return 1
		}
		return 0
	}
	fmt.Println("no such case")
	return 2
}

func writeEvidence(verif, prop, tier string, seed int, t0 time.Time, pool *Pool, conf *conformance, known map[string]bool, note string) {
	cov := map[string]interface{}{}
	var assumptions []string
	viol := 0
	complete := note == ""
	if pool != nil {
		var steps, decs, asserts int64
		paths := 0
		fns := map[string]int{}
		models := map[string]bool{}
		var cs []map[string]interface{}
		var samples []interface{}
		for _, x := range pool.xs {
			steps += x.steps
			decs += x.decs
			asserts += x.asserts
			paths += x.paths
			for f, n := range x.fns {
				fns[f.String()] += n
			}
			for m := range x.models {
				models[m] = true
			}
			if !x.complete() {
				complete = false
			}
			st := map[string]int{}
			for k, n := range x.byStatus {
				st[k.String()] = n
			}
			c := map[string]interface{}{"case": x.cse.Name, "paths": x.paths, "outcomes": st, "assertions": x.asserts, "reached": x.reached, "bounds": x.bounds, "timer_expiries": x.timerFires, "complete_within_bounds": x.complete(), "seconds": x.end.Sub(x.start).Seconds()}
			if len(x.notes) > 0 {
				c["not_decided"] = x.notes
			}
			for _, v := range x.viols {
				if v.Conf != "" && !v.Known {
					c["violation"] = v.Msg
					viol++
				}
			}
			cs = append(cs, c)
			if len(x.passT) > 0 && len(samples) < 6 {
				t := *x.passT[0]
				for i := range t.Entries {
					if len(t.Entries[i].Data) > 32 {
						t.Entries[i].Data = t.Entries[i].Data[:32]
					}
				}
				if len(t.Entries) > 12 {
					t.Entries = t.Entries[:12]
				}
				if len(t.Obs) > 12 {
					t.Obs = t.Obs[:12]
				}
				if len(t.Decs) > 200 {
					t.Decs = t.Decs[:200]
				}
				samples = append(samples, map[string]interface{}{"case": x.cse.Name, "inputs": t.Entries, "reached": t.Reached, "observations": t.Obs, "decisions": t.Decs})
			}
		}
		if len(samples) == 0 {
			samples = append(samples, "no passing path")
		}
		var fl []string
		for f := range fns {
			fl = append(fl, f)
		}
		sort.Strings(fl)
		var ml []string
		for m := range models {
			ml = append(ml, m)
		}
		sort.Strings(ml)
		cov["states"] = int(paths)
		cov["transitions"] = int(steps)
		cov["states_meaning"] = "symbolic paths; transitions are SSA instructions executed symbolically"
		cov["assertions_checked"] = asserts
		cov["decisions"] = decs
		if conf != nil {
			cov["traces_validated_against_impl"] = conf.agree
			cov["native_runs"] = conf.runs
			if len(conf.notes) > 0 {
				cov["native_differences"] = conf.notes
			}
		} else {
			cov["traces_validated_against_impl"] = 0
		}
		cov["samples"] = samples
		cov["cases"] = cs
		cov["functions_encoded"] = fl
		cov["models_used"] = ml
		cov["solver"] = map[string]interface{}{"queries": atomic.LoadInt64(&Stats.Queries), "sat": Stats.SatN, "unsat": Stats.UnsatN, "unknown": Stats.UnknownN, "errors": Stats.Errors, "seconds": float64(Stats.SolverNS) / 1e9, "slow_over_1s": Stats.SlowQueries, "name": "z3 (incremental), fallback z3 fresh, cvc5"}
		cov["exhaustive"] = complete
		var kl []string
		for k := range known {
			kl = append(kl, k)
		}
		sort.Strings(kl)
		if len(kl) > 0 {
			cov["known_findings"] = kl
		}
		assumptions = append(assumptions, "Go semantics as implemented by the symbolic interpreter of go/ssa in /verif/engine (cross-checked on sampled paths by native runs)")
		for _, m := range ml {
			assumptions = append(assumptions, "model: "+m)
		}
	} else {
		cov["states"], cov["transitions"], cov["traces_validated_against_impl"] = 0, 0, 0
		cov["samples"] = []string{note}
		cov["exhaustive"] = false
		cov["note"] = note
	}
	ev := map[string]interface{}{"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov, "assumptions": assumptions, "wall_s": time.Since(t0).Seconds(), "violations": viol}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), append(b, '\n'), 0o644)
}
