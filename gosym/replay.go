package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
)

// Native replays: the packages of the code under test are compiled from their
// current source, with calls to the modelled environment (clock, transport,
// …) rewritten to the same models the symbolic runs use; the key-value store
// is the real one unless the harness needs the model.

type nativeCase struct {
	Harness string   `json:"harness"`
	Inputs  []InVal  `json:"inputs"`
	Model   bool     `json:"model"`
	Deep    bool     `json:"deep"`
	Sched   []string `json:"sched"`
}

type nativeRec struct {
	Violations []string `json:"violations"`
	KFs        []string `json:"kfs"`
	Obs        []string `json:"obs"`
	Assumed    bool     `json:"assumed"`
	Mismatch   string   `json:"mismatch"`
	ModelOnly  bool     `json:"model_only"`
}

type edit struct {
	at, end int
	seq     int
	text    string
}

type rewriter struct {
	repl map[string]string // full name -> model function (alias.Name)
	path map[string]string // alias -> import path
}

// rewriteFile returns the new text of a file, or nil if nothing changes.
func (rw *rewriter) rewriteFile(p *packages.Package, f *ast.File, src []byte) ([]byte, error) {
	tf := p.Fset.File(f.Pos())
	off := func(n int) int { return n }
	_ = off
	var edits []edit
	seq := 0
	add := func(a, b int, t string) {
		edits = append(edits, edit{a, b, seq, t})
		seq++
	}
	keep := map[string]bool{}
	used := map[string]bool{}
	var err error
	calls := map[*ast.SelectorExpr]*ast.CallExpr{}
	ast.Inspect(f, func(n ast.Node) bool {
		if c, ok := n.(*ast.CallExpr); ok {
			if s, ok := ast.Unparen(c.Fun).(*ast.SelectorExpr); ok {
				calls[s] = c
			}
		}
		return true
	})
	ast.Inspect(f, func(n ast.Node) bool {
		s, ok := n.(*ast.SelectorExpr)
		if !ok {
			return true
		}
		fn, ok := p.TypesInfo.Uses[s.Sel].(*types.Func)
		if !ok {
			return true
		}
		shim, ok := rw.repl[fn.Origin().FullName()]
		if !ok {
			return true
		}
		sel := p.TypesInfo.Selections[s]
		if sel == nil {
			// package function
			x := s.X.(*ast.Ident)
			used[strings.SplitN(shim, ".", 2)[0]] = true
			add(tf.Offset(s.Pos()), tf.Offset(s.End()), shim)
			keep[x.Name+"."+s.Sel.Name] = true
			return false
		}
		if types.IsInterface(sel.Recv()) {
			return true
		}
		c := calls[s]
		if c == nil {
			err = fmt.Errorf("method value %s cannot be rewritten", fn.FullName())
			return true
		}
		// path through embedded fields
		path := ""
		t := sel.Recv()
		idx := sel.Index()
		for _, i := range idx[:len(idx)-1] {
			if pt, ok := t.Underlying().(*types.Pointer); ok {
				t = pt.Elem()
			}
			fl := t.Underlying().(*types.Struct).Field(i)
			path += "." + fl.Name()
			t = fl.Type()
		}
		amp := ""
		_, recvPtr := fn.Type().(*types.Signature).Recv().Type().(*types.Pointer)
		_, isPtr := t.Underlying().(*types.Pointer)
		if recvPtr && !isPtr {
			amp = "&"
		} else if !recvPtr && isPtr {
			amp = "*"
		}
		used[strings.SplitN(shim, ".", 2)[0]] = true
		add(tf.Offset(s.X.Pos()), tf.Offset(s.X.Pos()), shim+"("+amp)
		tail := path
		if len(c.Args) > 0 {
			tail += ", "
		}
		add(tf.Offset(s.X.End()), tf.Offset(c.Lparen)+1, tail)
		return true
	})
	if err != nil {
		return nil, err
	}
	if len(edits) == 0 {
		return nil, nil
	}
	sort.SliceStable(edits, func(i, j int) bool {
		if edits[i].at != edits[j].at {
			return edits[i].at < edits[j].at
		}
		return edits[i].seq < edits[j].seq
	})
	var out bytes.Buffer
	pos := 0
	nameEnd := tf.Offset(f.Name.End())
	out.Write(src[:nameEnd])
	var al []string
	for a := range used {
		al = append(al, a)
	}
	sort.Strings(al)
	for _, a := range al {
		fmt.Fprintf(&out, "; import %s %q", a, rw.path[a])
	}
	pos = nameEnd
	for _, e := range edits {
		if e.at < pos {
			return nil, fmt.Errorf("overlapping rewrites")
		}
		out.Write(src[pos:e.at])
		out.WriteString(e.text)
		pos = e.end
	}
	out.Write(src[pos:])
	out.WriteString("\n")
	var ks []string
	for k := range keep {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		out.WriteString("\nvar _ = " + k + "\n")
	}
	return out.Bytes(), nil
}

// Native is a compiled replay program.
type NativeProg struct {
	dir string
	bin string
}

func (n *NativeProg) Close() {
	if n != nil && n.dir != "" {
		os.RemoveAll(n.dir)
	}
}

// buildNative compiles the replay program for the given harnesses.
func buildNative(verif, repo string, en *Engine, ps []*packages.Package, hs []*Harness, race bool) (*NativeProg, error) {
	dir, err := os.MkdirTemp("", "gosym-native")
	if err != nil {
		return nil, err
	}
	np := &NativeProg{dir: dir, bin: filepath.Join(dir, "replay")}
	over := map[string]string{}
	ov, names, err := overlayFiles(verif, repo)
	if err != nil {
		return np, err
	}
	for dst, src := range names {
		over[dst] = src
	}
	for dst, b := range ov {
		if _, ok := names[dst]; !ok {
			f := filepath.Join(dir, "gen_"+filepath.Base(dst))
			if err := os.WriteFile(f, b, 0o644); err != nil {
				return np, err
			}
			names[dst] = f
			over[dst] = f
		}
	}
	rw := &rewriter{repl: map[string]string{}, path: map[string]string{}}
	for full, fn := range en.replace {
		path := fn.Pkg.Pkg.Path()
		alias := "zz" + filepath.Base(path)
		rw.path[alias] = path
		rw.repl[full] = alias + "." + fn.Name()
	}
	n := 0
	var rerr error
	packages.Visit(ps, nil, func(p *packages.Package) {
		if !strings.HasPrefix(p.PkgPath, "github.com/kgantsov/doq") || strings.HasPrefix(p.PkgPath, vpath) && strings.HasPrefix(p.PkgPath, vpath+"/sym") {
			return
		}
		for i, f := range p.Syntax {
			file := p.CompiledGoFiles[i]
			var src []byte
			var err error
			if real, ok := names[file]; ok {
				src, err = os.ReadFile(real)
			} else {
				src, err = os.ReadFile(file)
			}
			if err != nil {
				rerr = err
				return
			}
			out, err := rw.rewriteFile(p, f, src)
			if err != nil {
				rerr = fmt.Errorf("%s: %v", file, err)
				return
			}
			if out == nil {
				continue
			}
			n++
			dst := filepath.Join(dir, fmt.Sprintf("r%d_%s", n, filepath.Base(file)))
			if err := os.WriteFile(dst, out, 0o644); err != nil {
				rerr = err
				return
			}
			over[file] = dst
		}
	})
	if rerr != nil {
		return np, rerr
	}
	// main program
	var mb strings.Builder
	mb.WriteString("package main\n\nimport (\n\t\"github.com/kgantsov/doq/pkg/zzverif/sym\"\n\t\"github.com/kgantsov/doq/pkg/zzverif/symenv\"\n")
	imps := map[string]string{}
	for _, h := range hs {
		pp := h.Fn.Pkg.Pkg.Path()
		if _, ok := imps[pp]; !ok {
			imps[pp] = fmt.Sprintf("p%d", len(imps))
			fmt.Fprintf(&mb, "\t%s %q\n", imps[pp], pp)
		}
	}
	mb.WriteString(")\n\nfunc main() {\n\tsym.Main(map[string]func(){\n")
	for _, h := range hs {
		fmt.Fprintf(&mb, "\t\t%q: %s.%s,\n", h.Name, imps[h.Fn.Pkg.Pkg.Path()], h.Fn.Name())
	}
	mb.WriteString("\t}, symenv.SetReal, symenv.Reset)\n}\n")
	mf := filepath.Join(dir, "main.go")
	if err := os.WriteFile(mf, []byte(mb.String()), 0o644); err != nil {
		return np, err
	}
	over[filepath.Join(repo, "pkg", "zzverif", "zzmain", "main.go")] = mf
	ob, _ := json.Marshal(map[string]interface{}{"Replace": over})
	of := filepath.Join(dir, "overlay.json")
	if err := os.WriteFile(of, ob, 0o644); err != nil {
		return np, err
	}
	for _, f := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(repo, f))
		if err != nil {
			return np, err
		}
		os.WriteFile(filepath.Join(dir, f), b, 0o644)
	}
	args := []string{"build", "-overlay", of, "-modfile", filepath.Join(dir, "go.mod"), "-o", np.bin}
	if race {
		args = append(args, "-race")
	}
	args = append(args, "./pkg/zzverif/zzmain")
	cmd := exec.Command("go", args...)
	cmd.Dir = repo
	if b, err := cmd.CombinedOutput(); err != nil {
		return np, fmt.Errorf("building the replay program: %v\n%s", err, b)
	}
	return np, nil
}

// run replays cases in one process each batch.
func (n *NativeProg) run(cases []*nativeCase) ([]*nativeRec, error) {
	in := filepath.Join(n.dir, "cases.json")
	out := filepath.Join(n.dir, "recs.json")
	var all []*nativeRec
	for len(cases) > 0 {
		k := len(cases)
		if k > 24 {
			k = 24
		}
		b, _ := json.Marshal(cases[:k])
		if err := os.WriteFile(in, b, 0o644); err != nil {
			return nil, err
		}
		os.Remove(out)
		cmd := exec.Command(n.bin, in, out)
		tmp := filepath.Join(n.dir, "tmp")
		os.MkdirAll(tmp, 0o755)
		cmd.Env = append(os.Environ(), "TMPDIR="+tmp)
		cmd.Dir = tmp
		var eb bytes.Buffer
		if os.Getenv("GOSYM_NATIVE") != "" {
			cmd.Stderr = os.Stderr
		} else {
			cmd.Stderr = &eb
		}
		if err := cmd.Start(); err != nil {
			return nil, err
		}
		done := make(chan error, 1)
		go func() { done <- cmd.Wait() }()
		var err error
		select {
		case err = <-done:
		case <-time.After(150 * time.Second):
			cmd.Process.Kill()
			err = fmt.Errorf("replay timed out")
			<-done
		}
		// records are written one per line as they complete
		data, _ := os.ReadFile(out)
		got := 0
		for _, l := range strings.Split(string(data), "\n") {
			if strings.TrimSpace(l) == "" {
				continue
			}
			r := &nativeRec{}
			if json.Unmarshal([]byte(l), r) != nil {
				break
			}
			all = append(all, r)
			got++
		}
		if got < k {
			// the process died in case got
			msg := eb.String()
			for _, m := range []string{"\npanic: ", "\nfatal error: "} {
				if i := strings.Index(msg, m); i >= 0 {
					msg = msg[i+1:]
				}
			}
			if len(msg) > 4000 {
				msg = msg[:4000]
			}
			if os.Getenv("GOSYM_NATIVE") != "" {
				fmt.Fprintln(os.Stderr, msg)
			}
			line := "the process died"
			for _, l := range strings.Split(msg, "\n") {
				if strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "fatal error:") {
					line = l
					break
				}
			}
			if err != nil && line == "the process died" {
				line += ": " + err.Error()
			}
			all = append(all, &nativeRec{Violations: []string{line}})
			got++
		}
		os.RemoveAll(tmp)
		cases = cases[got:]
	}
	return all, nil
}
