package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"
)

// Native is a natively compiled copy of the harness and the code under test.
type Native struct {
	race bool // build with the race detector
	dir  string
	bins map[string]string // import path (+"#sites") -> test binary
	errs map[string]string
	pr   *Program
	repo string
}

func NewNative(pr *Program, repo string) (*Native, error) {
	d, err := os.MkdirTemp("", "verif-native-")
	if err != nil {
		return nil, err
	}
	return &Native{dir: d, bins: map[string]string{}, errs: map[string]string{}, pr: pr, repo: repo}, nil
}

func (n *Native) Close() {
	if strings.Contains(n.dir, "verif-native-") {
		os.RemoveAll(n.dir)
	}
}

const nativeTest = `package PKG

import (
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"strings"
	"testing"
	"testing/synctest"
)

var vCases = map[string]func(){
CASES
}

func TestVerifReplay(t *testing.T) {
	vLoadTape(os.Getenv("VERIF_TAPE"))
	f := vCases[vTape.Case]
	if f == nil {
		vExit("VDIVERGE no case " + vTape.Case)
	}
	// results go to the original standard output
	vOut = os.NewFile(3, "result")
	if tf, err := os.CreateTemp(os.Getenv("VERIF_TMP"), "out"); err == nil {
		os.Stdout = tf
		vCapR = tf
	}
	if s := os.Getenv("VERIF_SITES"); s != "" {
		set := map[string]bool{}
		for _, x := range strings.Split(s, ",") {
			set[x] = true
		}
		var seed int64
		fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
		rnd := rand.New(rand.NewSource(seed))
		runtime.GOMAXPROCS(1)
		vSiteOn = func(site string) {
			if !set[site] {
				return
			}
			vMu.Lock()
			y := rnd.Intn(3) != 0
			vMu.Unlock()
			if y {
				for i := 0; i < 300; i++ {
					runtime.Gosched()
				}
			}
		}
	}
	synctest.Test(t, func(t *testing.T) {
		vWaitF = synctest.Wait
		f()
		fmt.Fprintln(vOut, "VOK")
		os.Exit(0)
	})
}
`

// build compiles the native test binary of a package.
func (n *Native) build(pkg string, sites bool) (string, error) {
	key := pkg
	if sites {
		key += "#sites"
	}
	if n.race {
		key += "#race"
	}
	if b, ok := n.bins[key]; ok {
		if b == "" {
			return "", fmt.Errorf("%s", n.errs[key])
		}
		return b, nil
	}
	b, err := n.build1(pkg, key, sites)
	if err != nil {
		n.bins[key] = ""
		n.errs[key] = err.Error()
		return "", err
	}
	n.bins[key] = b
	return b, nil
}

func (n *Native) build1(pkg, key string, sites bool) (string, error) {
	sub := strings.TrimPrefix(strings.TrimPrefix(pkg, repoModule), "/")
	name := "tru"
	for d, s := range pkgDirs {
		if s == sub {
			name = pkgNames[d]
		}
	}
	pdir := filepath.Join(n.repo, sub)
	work := filepath.Join(n.dir, strings.NewReplacer("/", "_", "#", "_").Replace(key))
	if err := os.MkdirAll(work, 0o755); err != nil {
		return "", err
	}
	repl := map[string]string{}
	put := func(target string, content []byte) error {
		f := filepath.Join(work, fmt.Sprintf("%d_%s", len(repl), filepath.Base(target)))
		if err := os.WriteFile(f, content, 0o644); err != nil {
			return err
		}
		repl[target] = f
		return nil
	}
	for t, c := range n.pr.overlay {
		if err := put(t, c); err != nil {
			return "", err
		}
	}
	var cs []string
	for _, c := range n.pr.cases {
		if c.Pkg == pkg {
			cs = append(cs, fmt.Sprintf("\t%q: vCase_%s,", c.Name, c.Name))
		}
	}
	var imps, sets string
	for i, h := range n.depHooks(pkg) {
		imps += fmt.Sprintf("\tvdep%d %q\n", i, h.pkg)
		for _, fn := range h.fns {
			sets += fmt.Sprintf("func init() { vdep%d.VHook_%s = %s }\n", i, fn, fn)
		}
	}
	tst := strings.Replace(strings.Replace(nativeTest, "package PKG", "package "+name, 1), "CASES", strings.Join(cs, "\n"), 1)
	if imps != "" {
		tst = strings.Replace(tst, "import (", "import (\n"+imps, 1) + sets
	}
	if n.race {
		src := "package " + name + "\n\nimport \"runtime\"\n\nfunc init() {\n\tvQuietF = func(on bool) {\n\t\tif on {\n\t\t\truntime.RaceDisable()\n\t\t} else {\n\t\t\truntime.RaceEnable()\n\t\t}\n\t}\n}\n"
		if err := put(filepath.Join(pdir, "zz_verif_race.go"), []byte(src)); err != nil {
			return "", err
		}
	}
	if err := put(filepath.Join(pdir, "zz_verif_native_test.go"), []byte(tst)); err != nil {
		return "", err
	}
	// source rewriting: environment calls to harness stand-ins, and sites
	ents, err := os.ReadDir(pdir)
	if err != nil {
		return "", err
	}
	for _, e := range ents {
		fn := e.Name()
		if !strings.HasSuffix(fn, ".go") {
			continue
		}
		full := filepath.Join(pdir, fn)
		if strings.HasSuffix(fn, "_test.go") {
			// the repository's own tests are not needed
			if err := put(full, []byte("package "+name+"\n")); err != nil {
				return "", err
			}
			continue
		}
		b, err := os.ReadFile(full)
		if err != nil {
			return "", err
		}
		nb, changed, err := rewrite(full, b, n.pr.swaps[pkg], sites)
		if err != nil {
			return "", err
		}
		if changed {
			if err := put(full, nb); err != nil {
				return "", err
			}
		}
	}
	if err := n.depSwaps(pkg, put); err != nil {
		return "", err
	}
	oj, _ := json.Marshal(map[string]interface{}{"Replace": repl})
	of := filepath.Join(work, "overlay.json")
	if err := os.WriteFile(of, oj, 0o644); err != nil {
		return "", err
	}
	bin := filepath.Join(work, "t.test")
	args := []string{"test", "-c", "-vet=off", "-overlay", of, "-o", bin}
	if n.race {
		args = append(args, "-race")
	}
	cmd := exec.Command("go", append(args, "./"+sub)...)
	cmd.Dir = n.repo
	cmd.Env = goEnv(n.repo)
	if n.race {
		cmd.Env = append(cmd.Env, "CGO_ENABLED=1")
	}
	out, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("native build: %v: %s", err, firstN(string(out), 2000))
	}
	return bin, nil
}

// depHook is a package of the module that a package depends on and that calls
// some of the functions which its harness replaces.
type depHook struct {
	pkg, dir string
	fns      []string // names of the stand-ins
	files    map[string][]byte
	extra    []byte
}

// depHooks finds them and rewrites their files: the calls go through variables
// which the harness's package sets.
func (n *Native) depHooks(pkg string) (hs []depHook) {
	sw := n.pr.swaps[pkg]
	var root *types.Package
	for _, c := range n.pr.cases {
		if c.Pkg == pkg {
			root = c.fn.Pkg.Pkg
		}
	}
	if len(sw) == 0 || root == nil {
		return
	}
	seen := map[string]bool{pkg: true}
	var visit func(p *types.Package)
	visit = func(p *types.Package) {
		for _, d := range p.Imports() {
			if seen[d.Path()] || !strings.HasPrefix(d.Path(), repoModule+"/") {
				continue
			}
			seen[d.Path()] = true
			visit(d)
			h := depHook{pkg: d.Path(), dir: filepath.Join(n.repo, strings.TrimPrefix(d.Path(), repoModule+"/")), files: map[string][]byte{}}
			var hooked []swap
			for _, s := range sw {
				hooked = append(hooked, swap{s.qual, "VHook_" + s.fn})
			}
			ents, err := os.ReadDir(h.dir)
			if err != nil {
				continue
			}
			var all string
			for _, e := range ents {
				if !strings.HasSuffix(e.Name(), ".go") || strings.HasSuffix(e.Name(), "_test.go") {
					continue
				}
				b, err := os.ReadFile(filepath.Join(h.dir, e.Name()))
				if err != nil {
					continue
				}
				nb, changed, err := rewrite(e.Name(), b, hooked, false)
				if err != nil || !changed {
					continue
				}
				h.files[filepath.Join(h.dir, e.Name())] = nb
				all += string(nb)
			}
			if len(h.files) == 0 {
				continue
			}
			ex := "package " + d.Name() + "\n"
			dec := ""
			for i, s := range sw {
				if !strings.Contains(all, "VHook_"+s.fn) {
					continue
				}
				h.fns = append(h.fns, s.fn)
				k := strings.LastIndexByte(s.qual, '.')
				ex += fmt.Sprintf("import vorig%d %q\n", i, s.qual[:k])
				dec += fmt.Sprintf("var VHook_%s = vorig%d.%s\n", s.fn, i, s.qual[k+1:])
			}
			h.extra = []byte(ex + dec)
			hs = append(hs, h)
		}
	}
	visit(root)
	return
}

// depSwaps puts the rewritten files of the packages which pkg depends on.
func (n *Native) depSwaps(pkg string, put func(string, []byte) error) error {
	for _, h := range n.depHooks(pkg) {
		for f, b := range h.files {
			if err := put(f, b); err != nil {
				return err
			}
		}
		if err := put(filepath.Join(h.dir, "zz_verif_hook.go"), h.extra); err != nil {
			return err
		}
	}
	return nil
}

func firstN(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// rewrite replaces qualified references (net.ListenPacket) by harness
// functions, and optionally marks statements with vSite calls.
func rewrite(name string, src []byte, swaps []swap, sites bool) ([]byte, bool, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		return nil, false, err
	}
	imp := map[string]string{}
	for _, i := range f.Imports {
		p := strings.Trim(i.Path.Value, `"`)
		n := p[strings.LastIndexByte(p, '/')+1:]
		if i.Name != nil {
			n = i.Name.Name
		}
		imp[n] = p
	}
	want := map[string]string{}
	for _, s := range swaps {
		want[s.qual] = s.fn
	}
	type ed struct {
		from, to int
		text     string
	}
	var eds []ed
	keep := map[string]bool{}
	ast.Inspect(f, func(x ast.Node) bool {
		se, ok := x.(*ast.SelectorExpr)
		if !ok {
			return true
		}
		id, ok := se.X.(*ast.Ident)
		if !ok || id.Obj != nil {
			return true
		}
		p, ok := imp[id.Name]
		if !ok {
			return true
		}
		if fn, ok := want[p+"."+se.Sel.Name]; ok {
			eds = append(eds, ed{fset.Position(se.Pos()).Offset, fset.Position(se.End()).Offset, fn})
			keep[id.Name+"."+se.Sel.Name] = true
		}
		return true
	})
	if sites {
		base := filepath.Base(name)
		mark := func(list []ast.Stmt) {
			for _, st := range list {
				switch st.(type) {
				case *ast.CaseClause, *ast.CommClause, *ast.LabeledStmt, *ast.EmptyStmt:
					continue
				}
				ps := fset.Position(st.Pos())
				eds = append(eds, ed{ps.Offset, ps.Offset, fmt.Sprintf("vSite(\"%s:%d\"); ", base, ps.Line)})
			}
		}
		ast.Inspect(f, func(x ast.Node) bool {
			switch b := x.(type) {
			case *ast.BlockStmt:
				mark(b.List)
			case *ast.CaseClause:
				mark(b.Body)
			case *ast.CommClause:
				mark(b.Body)
			}
			return true
		})
	}
	if len(eds) == 0 {
		return src, false, nil
	}
	sort.SliceStable(eds, func(i, j int) bool { return eds[i].from > eds[j].from })
	out := append([]byte{}, src...)
	for _, e := range eds {
		out = append(out[:e.from:e.from], append([]byte(e.text), out[e.to:]...)...)
	}
	for k := range keep {
		out = append(out, []byte("\nvar _ = "+k+"\n")...)
	}
	_ = printer.Fprint
	return out, true, nil
}

// NativeResult is the outcome of a native run.
type NativeResult struct {
	Verdict string // ok, fail, diverge, panic, hang, error
	Msg     string
	Obs     []string
	Reached []string
}

// run replays a tape.
func (n *Native) run(pkg string, t *Tape, sites string, seed int) NativeResult {
	bin, err := n.build(pkg, sites != "")
	if err != nil {
		return NativeResult{Verdict: "error", Msg: err.Error()}
	}
	tf, err := os.CreateTemp(n.dir, "tape-*.json")
	if err != nil {
		return NativeResult{Verdict: "error", Msg: err.Error()}
	}
	b, _ := json.Marshal(t)
	tf.Write(b)
	tf.Close()
	defer os.Remove(tf.Name())
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	tmp, err := os.MkdirTemp(n.dir, "run-")
	if err != nil {
		return NativeResult{Verdict: "error", Msg: err.Error()}
	}
	defer os.RemoveAll(tmp)
	cmd := exec.CommandContext(ctx, bin, "-test.run", "^TestVerifReplay$", "-test.timeout", "0")
	cmd.Dir = tmp
	cmd.Env = append(os.Environ(), "VERIF_TAPE="+tf.Name(), "VERIF_TMP="+tmp, "VERIF_SITES="+sites, fmt.Sprintf("VERIF_SEED=%d", seed), "GODEBUG=asynctimerchan=0", "GORACE=halt_on_error=0")
	pr, pw, err := os.Pipe()
	if err != nil {
		return NativeResult{Verdict: "error", Msg: err.Error()}
	}
	cmd.ExtraFiles = []*os.File{pw}
	var eb bytes.Buffer
	cmd.Stdout = &eb
	cmd.Stderr = &eb
	resC := make(chan []byte, 1)
	go func() {
		var rb bytes.Buffer
		rb.ReadFrom(pr)
		resC <- rb.Bytes()
	}()
	err = cmd.Run()
	pw.Close()
	res := <-resC
	pr.Close()
	r := NativeResult{}
	if n.race {
		if m := raceReport(eb.String()); m != "" {
			r.Verdict, r.Msg = "race", m
			return r
		}
	}
	for _, l := range strings.Split(string(res), "\n") {
		switch {
		case strings.HasPrefix(l, "VOBS "):
			r.Obs = append(r.Obs, strings.TrimPrefix(l, "VOBS "))
		case strings.HasPrefix(l, "VREACH "):
			r.Reached = append(r.Reached, strings.TrimPrefix(l, "VREACH "))
		case l == "VOK":
			r.Verdict = "ok"
		case strings.HasPrefix(l, "VFAIL "):
			r.Verdict, r.Msg = "fail", strings.TrimPrefix(l, "VFAIL ")
		case strings.HasPrefix(l, "VDIVERGE"), strings.HasPrefix(l, "VASSUME"):
			r.Verdict, r.Msg = "diverge", l
		}
	}
	if r.Verdict != "" {
		return r
	}
	if ctx.Err() != nil {
		r.Verdict, r.Msg = "hang", "no result within 20 s"
		return r
	}
	s := eb.String()
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "all goroutines are asleep") {
			// under virtual time a goroutine that waits for a mutex whose
			// holder sleeps keeps the clock from advancing
			r.Verdict, r.Msg = "stuck", l
			return r
		}
		if strings.HasPrefix(l, "panic: ") || strings.HasPrefix(l, "fatal error: ") || strings.Contains(l, "deadlock:") {
			r.Verdict, r.Msg = "panic", l
			return r
		}
	}
	r.Verdict, r.Msg = "error", fmt.Sprintf("%v: %s", err, firstN(s, 600))
	return r
}

var raceAcc = regexp.MustCompile(`(?m)^(Read|Write|Previous read|Previous write) at 0x.*$`)
var raceFrame = regexp.MustCompile(`(?m)^  (\S+)\(.*\)\n      (\S+):(\d+)`)

// raceReport finds a report of the race detector about two accesses that are
// not the harness's.
func raceReport(out string) string {
	for _, rep := range strings.Split(out, "WARNING: DATA RACE")[1:] {
		msg := ""
		n := 0
		for _, a := range raceAcc.FindAllStringSubmatchIndex(rep, -1) {
			end := strings.Index(rep[a[1]:], "\n\n")
			if end < 0 {
				end = len(rep) - a[1]
			}
			for _, f := range raceFrame.FindAllStringSubmatch(rep[a[1]:a[1]+end], -1) {
				if strings.HasPrefix(f[1], "runtime.") || strings.HasPrefix(f[1], "internal/") {
					continue
				}
				if !strings.Contains(f[2], "zz_verif") {
					n++
					msg += fmt.Sprintf(" %s at %s(%s:%s)", strings.ToLower(rep[a[2]:a[3]]), f[1][strings.LastIndexByte(f[1], '/')+1:], filepath.Base(f[2]), f[3])
				}
				break
			}
		}
		if n >= 2 {
			return strings.TrimSpace(msg)
		}
	}
	return ""
}
