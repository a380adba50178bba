package main

import (
	"encoding/json"
	"fmt"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the loaded real code plus the harnesses.
type Program struct {
	repo, verif, tmp string
	harness          []string          // harness packages in use
	overlay          map[string]string // virtual path -> real path
	prog             *ssa.Program
	pkgs             map[string]*ssa.Package // initialised packages
	order            []*ssa.Package
	models           map[string]*ssa.Function
	replayBin        string
	loadTime         time.Duration
	buildTime        time.Duration
}

func goEnv() []string {
	env := []string{}
	for _, kv := range os.Environ() {
		k := strings.SplitN(kv, "=", 2)[0]
		switch k {
		case "GOFLAGS", "GOPROXY", "GOWORK", "CGO_ENABLED", "GOTOOLCHAIN", "PATH", "GOPATH", "GOMODCACHE", "GOCACHE", "HOME", "GO111MODULE":
			continue
		}
		env = append(env, kv)
	}
	get := func(k, d string) string {
		if v := os.Getenv(k); v != "" {
			return v
		}
		return d
	}
	return append(env,
		"HOME="+get("HOME", "/root"),
		"PATH=/opt/veriftools/go1.27.3/bin:"+get("PATH", "/usr/local/bin:/usr/bin:/bin"),
		"GOPATH=/root/go", "GOMODCACHE=/root/go/pkg/mod", "GOCACHE=/root/.cache/go-build",
		"GOTOOLCHAIN=local", "GOPROXY=off", "GOWORK=off", "CGO_ENABLED=0", "GOFLAGS=-mod=mod")
}

// Prepare builds the overlay: every file under /verif/harness appears under
// /repo/zzverif, and command packages are copied (with their package clause
// renamed) so that harnesses can import them.
func Prepare(repo, verif string, harness ...string) (*Program, error) {
	p := &Program{repo: repo, verif: verif, harness: harness, overlay: map[string]string{}}
	tmp, err := os.MkdirTemp("", "gosym")
	if err != nil {
		return nil, err
	}
	p.tmp = tmp
	root := filepath.Join(verif, "harness")
	err = filepath.Walk(root, func(path string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(path, ".go") {
			return err
		}
		rel, _ := filepath.Rel(root, path)
		p.overlay[filepath.Join(repo, "zzverif", rel)] = path
		return nil
	})
	if err != nil {
		return nil, err
	}
	for _, f := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(repo, f))
		if err != nil {
			return nil, err
		}
		if err := os.WriteFile(filepath.Join(tmp, f), b, 0o644); err != nil {
			return nil, err
		}
	}
	// cmd/X (package main) -> zzverif/cmdX (package cmdX)
	cmds, _ := filepath.Glob(filepath.Join(repo, "cmd", "*", "*.go"))
	for _, f := range cmds {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		dir := "cmd" + strings.ReplaceAll(filepath.Base(filepath.Dir(f)), "-", "")
		src, err := standIns(f, b, dir)
		if err != nil {
			return nil, err
		}
		out := filepath.Join(tmp, dir+"_"+filepath.Base(f))
		if err := os.WriteFile(out, []byte(src), 0o644); err != nil {
			return nil, err
		}
		p.overlay[filepath.Join(repo, "zzverif", dir, filepath.Base(f))] = out
		exp := filepath.Join(tmp, dir+"_export.go")
		if err := os.WriteFile(exp, []byte("package "+dir+"\n\nfunc Main() { main() }\n"), 0o644); err != nil {
			return nil, err
		}
		p.overlay[filepath.Join(repo, "zzverif", dir, "zz_export.go")] = exp
	}
	if err := p.genReplay(); err != nil {
		return nil, err
	}
	ov, _ := json.Marshal(map[string]interface{}{"Replace": p.overlay})
	if err := os.WriteFile(filepath.Join(tmp, "overlay.json"), ov, 0o644); err != nil {
		return nil, err
	}
	return p, nil
}

// standIns renames the package of a command's source file and replaces its
// imports of the packages that reach the outside by stand-ins that fail on
// request (see harness/shim). The text of the code itself is untouched.
func standIns(file string, src []byte, pkg string) (string, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, file, src, parser.ImportsOnly)
	if err != nil {
		return "", err
	}
	type edit struct {
		lo, hi int
		s      string
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	edits := []edit{{off(f.Name.Pos()), off(f.Name.End()), pkg}}
	for _, im := range f.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		to := map[string]string{
			"os": "vos", "io/ioutil": "vioutil", "io": "vio", "fmt": "vfmt", "log": "vlog", "bufio": "vbufio",
			"github.com/golang/protobuf/proto": "vproto", repoPath + "/generate": "vgenerate",
		}[path]
		if to == "" {
			continue
		}
		name := filepath.Base(path) + " "
		if im.Name != nil {
			name = ""
		}
		edits = append(edits, edit{off(im.Path.Pos()), off(im.Path.End()), name + strconv.Quote(repoPath+"/zzverif/shim/"+to)})
	}
	for i := len(edits) - 1; i >= 0; i-- {
		src = append(src[:edits[i].lo:edits[i].lo], append([]byte(edits[i].s), src[edits[i].hi:]...)...)
	}
	return string(src), nil
}

func (p *Program) Close() { os.RemoveAll(p.tmp) }

// BuildReplay compiles the harnesses natively against the real code.
func (p *Program) BuildReplay() error {
	t0 := time.Now()
	p.replayBin = filepath.Join(p.tmp, "replay")
	cmd := exec.Command("go", "build", "-modfile="+filepath.Join(p.tmp, "go.mod"), "-overlay="+filepath.Join(p.tmp, "overlay.json"),
		"-o", p.replayBin, "./zzverif/replay")
	cmd.Dir = p.repo
	cmd.Env = goEnv()
	out, err := cmd.CombinedOutput()
	p.buildTime = time.Since(t0)
	if err != nil {
		return fmt.Errorf("building the replay binary: %v\n%s", err, out)
	}
	return nil
}

// Load builds SSA for the current sources.
func (p *Program) Load() error {
	t0 := time.Now()
	patterns := []string{"./zzverif/replay", "./zzverif/vmodel"}
	ov := map[string][]byte{}
	for v, r := range p.overlay {
		b, err := os.ReadFile(r)
		if err != nil {
			return err
		}
		ov[v] = b
	}
	cfg := &packages.Config{
		Mode:       packages.LoadAllSyntax,
		Dir:        p.repo,
		Env:        goEnv(),
		Overlay:    ov,
		BuildFlags: []string{"-modfile=" + filepath.Join(p.tmp, "go.mod")},
	}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(q *packages.Package) {
		for _, e := range q.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return fmt.Errorf("loading: %s", strings.Join(errs, "\n"))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p.prog = prog
	p.pkgs = map[string]*ssa.Package{}
	seen := map[string]bool{}
	var visit func(q *packages.Package)
	visit = func(q *packages.Package) {
		if seen[q.PkgPath] {
			return
		}
		seen[q.PkgPath] = true
		var ks []string
		for k := range q.Imports {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			visit(q.Imports[k])
		}
		if strings.HasPrefix(q.PkgPath, repoPath) && !strings.HasSuffix(q.PkgPath, "zzverif/replay") &&
			!strings.HasSuffix(q.PkgPath, "zzverif/vrt") || initExtra[q.PkgPath] {
			if sp := prog.ImportedPackage(q.PkgPath); sp != nil {
				p.pkgs[q.PkgPath] = sp
				p.order = append(p.order, sp)
			}
		}
	}
	for _, q := range pkgs {
		visit(q)
	}
	p.models = map[string]*ssa.Function{}
	if vm := prog.ImportedPackage(vmodelPath); vm != nil {
		p.collectModels(vm)
	}
	p.loadTime = time.Since(t0)
	return nil
}

var initExtra = map[string]bool{}

// collectModels maps std functions to the Go models in package vmodel. A
// model declares its target in the name: strings_ToUpper models
// strings.ToUpper, bytes_Buffer_WriteString models (*bytes.Buffer).WriteString.
func (p *Program) collectModels(vm *ssa.Package) {
	tab := map[string]string{}
	for _, q := range p.prog.AllPackages() {
		for name, m := range q.Members {
			switch x := m.(type) {
			case *ssa.Function:
				tab[strings.NewReplacer("/", "_", ".", "_").Replace(q.Pkg.Path())+"_"+name] = x.String()
			case *ssa.Type:
				if n, ok := x.Type().(*types.Named); ok {
					for i := 0; i < n.NumMethods(); i++ {
						if fn := p.prog.FuncValue(n.Method(i)); fn != nil {
							tab[strings.NewReplacer("/", "_", ".", "_").Replace(q.Pkg.Path())+"_"+name+"_"+n.Method(i).Name()] = fn.String()
						}
					}
				}
			}
		}
	}
	for name, m := range vm.Members {
		fn, ok := m.(*ssa.Function)
		if !ok || fn.Synthetic != "" {
			continue
		}
		if strings.HasPrefix(name, "M_") {
			if t, ok := tab[name[2:]]; ok {
				p.models[t] = fn
			}
		}
	}
}

// NewEngine prepares an engine whose repository packages are initialised.
func (p *Program) NewEngine(params map[string]int) (*Engine, error) {
	e := &Engine{
		c: NewCtx(), prog: p.prog, infos: map[*ssa.Function]*fnInfo{}, baseHeap: map[ObjID]Value{},
		globals: map[*ssa.Global]ObjID{}, globalOf: map[ObjID]*ssa.Global{}, nodeObjs: map[*Node]ObjID{},
		nodeObjVal: map[ObjID]Value{},
		localCells: map[ObjID]bool{}, reach: map[string][]reachAlt{}, inputIdx: map[string]int{}, params: params,
		assumed: map[string]bool{}, models: p.models, pkgs: p.pkgs, touched: map[string]int{},
		symNodes: map[string]*Node{}, ranged: map[string]bool{}, ranges: map[string][2]int64{},
		enumerated: map[string][2]int64{}, solver: NewSolver(3000), maxSteps: 200000, unwind: 64,
		deadline: time.Now().Add(10 * time.Minute),
	}
	e.opaqueErr = types.NewNamed(types.NewTypeName(0, nil, "opaqueError", nil), types.Typ[types.Int], nil)
	// give the opaque error type an Error method so that it satisfies error
	sig := types.NewSignatureType(types.NewVar(0, nil, "", e.opaqueErr), nil, nil, nil,
		types.NewTuple(types.NewVar(0, nil, "", types.Typ[types.String])), false)
	e.opaqueErr.(*types.Named).AddMethod(types.NewFunc(0, nil, "Error", sig))
	if err := e.initPackages(p.order); err != nil {
		return nil, err
	}
	return e, nil
}

func (e *Engine) initPackages(order []*ssa.Package) (err error) {
	e.initMode = true
	st := &State{pc: e.c.True, heap: map[ObjID]Value{}, allocs: e.k64(0)}
	for _, sp := range order {
		fn := sp.Func("init")
		if fn == nil {
			continue
		}
		err := func() (err error) {
			defer func() {
				if r := recover(); r != nil {
					if u, ok := r.(Unsupported); ok {
						err = fmt.Errorf("init of %s: %s", sp.Pkg.Path(), u.msg)
						return
					}
					panic(r)
				}
			}()
			st.frames = nil
			e.finished = nil
			if !e.enter(st, &FuncV{fn: fn}, nil) {
				return fmt.Errorf("init of %s failed", sp.Pkg.Path())
			}
			e.Run(st)
			if len(e.finished) != 1 {
				return fmt.Errorf("init of %s did not finish", sp.Pkg.Path())
			}
			st = e.finished[0]
			return nil
		}()
		if err != nil {
			return err
		}
	}
	for o, v := range st.heap {
		e.baseHeap[o] = v
	}
	e.initMode = false
	e.finished = nil
	e.queue = nil
	e.touched = map[string]int{}
	e.stats.steps, e.stats.states = 0, 0
	return nil
}
