package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"io/fs"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const vpath = "github.com/kgantsov/doq/pkg/zzverif"

var solverBin = "cvc5"

// overlayFiles maps the harness sources into the repository tree.
func overlayFiles(verif, repo string) (map[string][]byte, map[string]string, error) {
	ov := map[string][]byte{}
	names := map[string]string{}
	root := filepath.Join(verif, "harness")
	err := filepath.WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		if d.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(root, p)
		dst := filepath.Join(repo, "pkg", "zzverif", rel)
		ov[dst] = b
		names[dst] = p
		return nil
	})
	if err != nil {
		return ov, names, err
	}
	return ov, names, serverOverlay(repo, ov)
}

var (
	pkgMain = regexp.MustCompile(`(?m)^package main\b`)
	embeds  = regexp.MustCompile(`(?m)^//go:embed .*$`)
)

// serverOverlay makes the server program importable: the files of cmd/server,
// as a package, without the embedded user interface (which is not built here).
func serverOverlay(repo string, ov map[string][]byte) error {
	files, err := filepath.Glob(filepath.Join(repo, "cmd", "server", "*.go"))
	if err != nil {
		return err
	}
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		b, err := os.ReadFile(f)
		if err != nil {
			return err
		}
		b = pkgMain.ReplaceAll(b, []byte("package server"))
		b = embeds.ReplaceAll(b, []byte("// not embedded"))
		ov[filepath.Join(repo, "pkg", "zzverif", "server", filepath.Base(f))] = b
	}
	return nil
}

func loadProgram(verif, repo string, pkgs []string) (*Engine, []*packages.Package, error) {
	ov, _, err := overlayFiles(verif, repo)
	if err != nil {
		return nil, nil, err
	}
	mode := packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
		packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule
	// the module file is a copy, so that loading never changes the repository's
	tmp, err := os.MkdirTemp("", "gosym-mod")
	if err != nil {
		return nil, nil, err
	}
	defer os.RemoveAll(tmp)
	for _, n := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(repo, n))
		if err != nil {
			return nil, nil, err
		}
		if err := os.WriteFile(filepath.Join(tmp, n), b, 0o600); err != nil {
			return nil, nil, err
		}
	}
	cfg := &packages.Config{Mode: mode, Dir: repo, Overlay: ov, BuildFlags: []string{"-modfile=" + filepath.Join(tmp, "go.mod")}}
	ps, err := packages.Load(cfg, pkgs...)
	if err != nil {
		return nil, nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			if strings.Contains(p.PkgPath, "kgantsov/doq") {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		if len(errs) > 8 {
			errs = errs[:8]
		}
		return nil, nil, fmt.Errorf("%s", strings.Join(errs, "\n"))
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	en := &Engine{prog: prog, pkgs: map[string]*ssa.Package{}, replace: map[string]*ssa.Function{}, workers: 8, timeout: 4000,
		usedNames: map[string]bool{}, maxSamp: 6}
	en.cond = sync.NewCond(&en.mu)
	for _, p := range prog.AllPackages() {
		en.pkgs[p.Pkg.Path()] = p
	}
	if p := en.pkgs["errors"]; p != nil {
		en.errStringPtr = types.NewPointer(p.Type("errorString").Type())
	}
	en.base = newBase(en)
	// redirects: //sym:replace <full name>
	packages.Visit(ps, nil, func(p *packages.Package) {
		if !strings.HasPrefix(p.PkgPath, vpath) {
			return
		}
		sp := en.pkgs[p.PkgPath]
		for _, f := range p.Syntax {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Doc == nil {
					continue
				}
				for _, c := range fd.Doc.List {
					if rest, ok := strings.CutPrefix(c.Text, "//sym:replace "); ok {
						fn := sp.Func(fd.Name.Name)
						if fn != nil {
							en.replace[strings.TrimSpace(rest)] = fn
						}
					}
				}
			}
		}
	})
	return en, ps, nil
}

// harnesses finds functions named after a property, e.g. C03_xxx.
func (en *Engine) harnesses(prop string) []*Harness {
	var r []*Harness
	for path, p := range en.pkgs {
		if !strings.HasPrefix(path, vpath) {
			continue
		}
		for name, m := range p.Members {
			fn, ok := m.(*ssa.Function)
			if !ok || !(strings.HasPrefix(name, prop+"_") || name == prop) {
				continue
			}
			r = append(r, &Harness{Name: name, Fn: fn})
		}
	}
	return r
}

var skipPrefixes = []string{
	"github.com/rs/zerolog",
	"github.com/prometheus/",
	"github.com/gofiber/",
	"github.com/ansrivas/",
	"github.com/danielgtaylor/huma/v2/adapters",
	"github.com/valyala/",
	"k8s.io/",
	"github.com/hashicorp/go-hclog",
	"github.com/armon/go-metrics",
	"github.com/hashicorp/go-metrics",
	"github.com/pkg/profile",
	"log",
	"log/slog",
	"google.golang.org/grpc/grpclog",
	"google.golang.org/grpc/internal/grpclog",
}

func (en *Engine) skipPath(path string) bool {
	for _, p := range skipPrefixes {
		if path == p || strings.HasPrefix(path, p) && (strings.HasSuffix(p, "/") || strings.HasPrefix(path, p+"/")) {
			return true
		}
	}
	return false
}

func (en *Engine) isSkip(fn *ssa.Function) bool {
	if v, ok := en.skipCache.Load(fn); ok {
		return v.(bool)
	}
	r := false
	if p := fnPkg(fn); p != "" {
		r = en.skipPath(p)
	}
	en.skipCache.Store(fn, r)
	return r
}

func fnPkg(fn *ssa.Function) string {
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	if o := fn.Origin(); o != nil && o != fn {
		return fnPkg(o)
	}
	if p := fn.Parent(); p != nil {
		return fnPkg(p)
	}
	return ""
}

// skipCall models a call into a package whose effects are outside the encoding.
func (e *Exec) skipCall(fn *ssa.Function, args []Value) Value {
	sig := fn.Signature
	name := fnName(fn)
	// process exit
	if strings.HasPrefix(strings.TrimLeft(name, "(*"), "github.com/rs/zerolog") {
		switch fn.Name() {
		case "Fatal", "Panic":
			if sig.Results().Len() == 1 {
				return e.fatalEvent(sig.Results().At(0).Type())
			}
		case "Msg", "Msgf", "Send", "MsgFunc":
			if len(args) > 0 {
				if p, ok := args[0].(*Value); ok && p != nil && p == e.fatalEv {
					e.processExit("log.Fatal")
				}
			}
			return nil
		}
	}
	if strings.HasPrefix(name, "log.Fatal") || strings.HasPrefix(name, "log.Panic") {
		e.processExit(name)
	}
	if sig.Results().Len() == 1 && sig.Recv() != nil && len(args) > 0 && types.Identical(sig.Recv().Type(), sig.Results().At(0).Type()) {
		return args[0]
	}
	switch sig.Results().Len() {
	case 0:
		return nil
	case 1:
		return e.skipVal(sig.Results().At(0).Type())
	}
	t := Tuple{}
	for i := 0; i < sig.Results().Len(); i++ {
		t = append(t, e.skipVal(sig.Results().At(i).Type()))
	}
	return t
}

func (e *Exec) skipVal(t types.Type) Value {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		if _, ok := p.Elem().Underlying().(*types.Struct); ok {
			return ptrTo(e.zero(p.Elem()))
		}
	}
	return e.zero(t)
}

func (e *Exec) fatalEvent(t types.Type) Value {
	if e.fatalEv == nil {
		e.fatalEv = e.skipVal(t).(*Value)
	}
	return e.fatalEv
}

// processExit ends the path: the process is gone.
func (e *Exec) processExit(why string) {
	if e.exits > 0 {
		e.noNative = true
		panic(targetPanic{e.mkError("the process exits: " + why)})
	}
	e.fail("the process exits: "+why, "")
}

// ---- package initialisation

type Base struct {
	mu   sync.Mutex
	en   *Engine
	ex   *Exec
	gl   map[*ssa.Global]*Value
	done map[*ssa.Package]bool
}

func newBase(en *Engine) *Base {
	b := &Base{en: en, gl: map[*ssa.Global]*Value{}, done: map[*ssa.Package]bool{}}
	ex := &Exec{eng: en, c: NewTCtx(), lits: map[*Term]bool{}, model: Model{}, globals: map[*ssa.Global]*Value{},
		memo: map[interface{}]interface{}{}, mutexes: map[*Value]*mutexState{}, onces: map[*Value]*onceState{},
		pools: map[*Value][]Value{}, smaps: map[*Value]*MapV{}, wgs: map[*Value]*int64{}, conds: map[*Value][]*bool{},
		values: map[*Value]Value{}, builder: map[*Value][]Value{}, concVals: map[*Term]uint64{}, base: true,
		endSig: make(chan pathEnd, 1), reached: map[string]bool{}}
	g := &G{name: "init"}
	ex.gs = []*G{g}
	ex.cur = g
	b.ex = ex
	return b
}

// get returns the initialised cell of g in the base heap (caller holds mu).
func (b *Base) get(g *ssa.Global) *Value {
	b.initPkg(g.Pkg)
	return b.cell(g)
}

func (b *Base) cell(g *ssa.Global) *Value {
	p := b.gl[g]
	if p == nil {
		p = new(Value)
		func() {
			defer func() {
				if r := recover(); r != nil {
					*p = Poison{"global " + g.String()}
				}
			}()
			*p = b.ex.zero(g.Type().(*types.Pointer).Elem())
		}()
		b.gl[g] = p
	}
	return p
}

func (en *Engine) baseGlobal(e *Exec, g *ssa.Global) *Value {
	if g.Pkg != nil && g.Name() != "init$guard" {
		en.base.initPkg(g.Pkg)
	}
	return en.base.cell(g)
}

func (b *Base) initPkg(p *ssa.Package) {
	if p == nil || b.done[p] {
		return
	}
	b.done[p] = true
	if b.en.skipPath(p.Pkg.Path()) || noInit[p.Pkg.Path()] {
		return
	}
	fn := p.Func("init")
	if fn == nil || fn.Blocks == nil {
		return
	}
	b.runTolerant(fn, 0)
	if p.Pkg.Path() == "os" {
		// the standard streams: opaque files that may be passed around
		for _, n := range []string{"Stdin", "Stdout", "Stderr"} {
			g, ok := p.Members[n].(*ssa.Global)
			if !ok {
				continue
			}
			func() {
				defer func() { recover() }()
				f := new(Value)
				*f = b.ex.zero(g.Type().(*types.Pointer).Elem().(*types.Pointer).Elem())
				*b.cell(g) = f
			}()
		}
	}
}

var noInit = map[string]bool{"runtime": true, "reflect": true, "syscall": true, "internal/poll": true, "unsafe": true,
	"google.golang.org/protobuf/internal/impl": true}

// runTolerant executes an initialiser; values that cannot be computed are
// poisoned, and using one later makes the path unsupported.
func (b *Base) runTolerant(fn *ssa.Function, depth int) {
	e := b.ex
	info := infoOf(fn)
	fr := &frame{e: e, g: e.cur, fn: fn, info: info, regs: make([]Value, info.n)}
	fr.block = fn.Blocks[0]
	steps := 0
	for fr.block != nil {
		jumped := false
		for _, in := range fr.block.Instrs {
			steps++
			if steps > 200000 {
				return
			}
			stop := false
			func() {
				defer func() {
					if r := recover(); r != nil {
						if os.Getenv("GOSYM_INIT") != "" {
							fmt.Fprintf(os.Stderr, "init %s: %v: %v\n", fn, in, r)
						}
						if v, ok := in.(ssa.Value); ok {
							fr.set(v, Poison{fmt.Sprintf("initialiser of %s: %v", fnPkg(fn), r)})
						}
						switch in := in.(type) {
						case *ssa.If, *ssa.Jump, *ssa.Return, *ssa.Panic:
							stop = true
						case *ssa.Store:
							if p, ok := fr.regOr(in.Addr).(*Value); ok && p != nil {
								*p = Poison{fmt.Sprintf("initialiser of %s: %v", fnPkg(fn), r)}
							}
						}
						e.merging, e.depth = 0, 0
					}
				}()
				// calls to package initialisers are lazy
				if c, ok := in.(*ssa.Call); ok {
					if cal := c.Call.StaticCallee(); cal != nil {
						if cal.Name() == "init" && cal.Synthetic != "" && cal.Pkg != fn.Pkg {
							return
						}
						if strings.HasPrefix(cal.Name(), "init#") && cal.Pkg == fn.Pkg {
							if depth < 2 {
								b.runTolerant(cal, depth+1)
							}
							return
						}
					}
				}
				if st, ok := in.(*ssa.Store); ok {
					// poison propagates through stores
					if v, ok := fr.regOr(st.Val).(Poison); ok {
						if p, ok := fr.regOr(st.Addr).(*Value); ok && p != nil {
							*p = v
						}
						return
					}
				}
				e.steps = 0
				switch fr.exec(in) {
				case cReturn:
					stop = true
				case cJump:
					jumped = true
				}
			}()
			if stop {
				return
			}
			if jumped {
				break
			}
		}
		if !jumped {
			return
		}
	}
}

func (fr *frame) regOr(v ssa.Value) (r Value) {
	defer func() {
		if x := recover(); x != nil {
			r = nil
		}
	}()
	return fr.get(v)
}
