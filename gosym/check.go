package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
)

// harnessPkgs finds the harness packages with functions of a property.
func harnessPkgs(verif, prop string) ([]string, error) {
	files, err := filepath.Glob(filepath.Join(verif, "harness", "*", "*.go"))
	if err != nil {
		return nil, err
	}
	re := regexp.MustCompile(`(?m)^func ` + regexp.QuoteMeta(prop) + `_\w*\(\)`)
	seen := map[string]bool{}
	var r []string
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		d := filepath.Base(filepath.Dir(f))
		if re.Match(b) && !seen[d] {
			seen[d] = true
			r = append(r, "./pkg/zzverif/"+d)
		}
	}
	return r, nil
}

// knownFindings reads the ids of the findings listed for a property.
func knownFindings(verif, prop string) map[string]string {
	r := map[string]string{}
	b, _ := os.ReadFile(filepath.Join(verif, "known_findings.txt"))
	re := regexp.MustCompile(`^finding: property=(\S+) id=(\S+) (.*)$`)
	for _, l := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(strings.TrimSpace(l)); m != nil && m[1] == prop {
			r[m[2]] = m[3]
		}
	}
	return r
}

func harnessDocs(ps []*packages.Package) map[string]string {
	r := map[string]string{}
	packages.Visit(ps, nil, func(p *packages.Package) {
		if !strings.HasPrefix(p.PkgPath, vpath) {
			return
		}
		for _, f := range p.Syntax {
			for _, d := range f.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok && fd.Doc != nil && fd.Recv == nil {
					r[fd.Name.Name] = strings.Join(strings.Fields(fd.Doc.Text()), " ")
				}
			}
		}
	})
	return r
}

type harnessEvidence struct {
	Name   string `json:"name"`
	Bounds string `json:"what_and_bounds,omitempty"`
	*Stats
	Functions int `json:"functions_encoded"`
}

type replayFile struct {
	Property string      `json:"property"`
	Msg      string      `json:"violation"`
	Pos      string      `json:"at"`
	Case     *nativeCase `json:"case"`
	Trace    []string    `json:"observations"`
	Native   []string    `json:"native_result"`
	Status   string      `json:"status"`
}

func envInt(n string, d int) int {
	if v, err := strconv.Atoi(os.Getenv(n)); err == nil {
		return v
	}
	return d
}

func runCheck(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	verif := fs.String("verif", "/verif", "")
	repo := fs.String("repo", "/repo", "")
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", os.Getenv("VERIF_TIER"), "")
	only := fs.String("h", "", "only these harnesses")
	budget := fs.Duration("budget", 0, "")
	noNative := fs.Bool("nonative", false, "")
	fs.Parse(args)
	if *tier != "thorough" {
		*tier = "quick"
	}
	total := 480 * time.Second
	if *tier == "thorough" {
		total = 3 * time.Hour
	}
	if *budget != 0 {
		total = *budget
	}
	t0 := time.Now()
	errorf := func(f string, a ...interface{}) int {
		fmt.Printf("ERROR property=%s %s\n", *prop, fmt.Sprintf(f, a...))
		return 2
	}
	pats, err := harnessPkgs(*verif, *prop)
	if err != nil || len(pats) == 0 {
		return errorf("no harness: %v", err)
	}
	en, ps, err := loadProgram(*verif, *repo, pats)
	if err != nil {
		return errorf("the harnesses or the repository do not compile: %v", err)
	}
	kfs := knownFindings(*verif, *prop)
	en.kfAllowed = map[string]bool{}
	for k := range kfs {
		en.kfAllowed[k] = true
	}
	en.deep = *tier == "thorough"
	if n := runtime.NumCPU(); n < en.workers {
		en.workers = n
	}
	hs := en.harnesses(*prop)
	sort.Slice(hs, func(i, j int) bool { return hs[i].Name < hs[j].Name })
	if *only != "" {
		var l []*Harness
		for _, h := range hs {
			for _, o := range strings.Split(*only, ",") {
				if h.Name == o {
					l = append(l, h)
				}
			}
		}
		hs = l
	}
	docs := harnessDocs(ps)
	evdir := filepath.Join(*verif, "evidence")
	os.MkdirAll(filepath.Join(evdir, "replay"), 0o755)

	// the native replay program is compiled while the solver works
	type nat struct {
		p   *NativeProg
		err error
	}
	natc := make(chan nat, 1)
	if *noNative {
		natc <- nat{nil, fmt.Errorf("disabled")}
	} else {
		go func() {
			p, err := buildNative(*verif, *repo, en, ps, hs, false)
			natc <- nat{p, err}
		}()
	}
	var stats []*Stats
	var viols, found []*ViolRec
	var notes []string
	for i, h := range hs {
		left := total - time.Since(t0)
		share := left
		if n := len(hs) - i; n > 1 && *tier != "thorough" {
			share = left * 2 / time.Duration(n+1)
		}
		if share < 5*time.Second {
			notes = append(notes, h.Name+": not explored, out of time")
			continue
		}
		st := en.explore(h, share)
		stats = append(stats, st)
		printStats(st)
		viols = append(viols, st.Viols...)
		found = append(found, st.KFs...)
		if len(viols) >= 3 {
			break
		}
	}
	nt := <-natc
	native := nt.p
	defer native.Close()
	if nt.err != nil {
		fmt.Println("note: no native replay:", nt.err)
		notes = append(notes, "no native replay: "+firstLine(nt.err.Error()))
		native = nil
	}
	runNative := func(cs []*nativeCase) []*nativeRec {
		recs, err := native.run(cs)
		if err != nil {
			notes = append(notes, "native replay failed: "+firstLine(err.Error()))
			return nil
		}
		return recs
	}
	// both stores: the real one first
	replay := func(h string, in []InVal, sched []string) (*nativeRec, bool) {
		c := &nativeCase{Harness: h, Inputs: in, Deep: en.deep, Sched: sched}
		r := runNative([]*nativeCase{c})
		if len(r) == 1 && !r[0].ModelOnly {
			return r[0], false
		}
		c.Model = true
		r = runNative([]*nativeCase{c})
		if len(r) == 1 {
			return r[0], true
		}
		return nil, true
	}
	exit := 0
	nviol := 0
	dedupe := map[string]bool{}
	report := func(v *ViolRec, rec *nativeRec, model bool, status string) {
		rf := &replayFile{Property: *prop, Msg: v.Msg, Pos: v.Pos, Trace: v.Trace, Status: status,
			Case: &nativeCase{Harness: v.Harness, Inputs: v.Inputs, Deep: en.deep, Sched: v.Sched, Model: model}}
		if rec != nil {
			rf.Native = rec.Violations
		}
		path := filepath.Join(evdir, "replay", *prop+"-"+v.Harness+".json")
		b, _ := json.MarshalIndent(rf, "", " ")
		os.WriteFile(path, b, 0o644)
		if dedupe[path] {
			return
		}
		dedupe[path] = true
		nviol++
		exit = 1
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, path)
		fmt.Printf("  %s: %s (%s)\n", v.Harness, v.Msg, status)
	}
	for _, v := range viols {
		if native == nil {
			report(v, nil, false, "solver counterexample; not replayed: "+firstLine(fmt.Sprint(nt.err)))
			continue
		}
		rec, model := replay(v.Harness, v.Inputs, v.Sched)
		switch {
		case rec != nil && len(rec.Violations) > 0:
			report(v, rec, model, "confirmed by running the compiled code")
		case len(v.Sched) > 0:
			report(v, rec, model, "counterexample schedule; not reproduced by the native scheduler")
		default:
			msg := fmt.Sprintf("%s: counterexample not reproduced by the compiled code, not reported: %s", v.Harness, v.Msg)
			if rec != nil {
				msg += fmt.Sprintf(" (native: assumed=%v mismatch=%q)", rec.Assumed, rec.Mismatch)
			}
			notes = append(notes, msg)
			fmt.Println("note:", msg)
		}
	}
	var kfList []string
	for _, v := range found {
		confirmed := ""
		if native != nil {
			rec, _ := replay(v.Harness, v.Inputs, v.Sched)
			if rec != nil && len(rec.KFs) > 0 {
				confirmed = " (confirmed by running the compiled code)"
			}
		}
		if !dedupe["kf "+v.KF] {
			dedupe["kf "+v.KF] = true
			fmt.Printf("KNOWN-FINDING: property=%s %s: %s%s\n", *prop, v.KF, kfs[v.KF], confirmed)
			kfList = append(kfList, v.KF+": "+v.Msg+confirmed)
		}
	}
	// sample paths against the compiled code
	validated, mismatched, sampled := 0, 0, 0
	var samples []interface{}
	if native != nil {
		var cs []*nativeCase
		var ss []*SampleRec
		for _, st := range stats {
			for _, s := range st.Samples {
				if s.Conc {
					continue
				}
				ss = append(ss, s)
				cs = append(cs, &nativeCase{Harness: s.Harness, Inputs: s.Inputs, Deep: en.deep})
			}
		}
		recs := runNative(cs)
		var again []*nativeCase
		var idx []int
		for i, r := range recs {
			if r.ModelOnly {
				c := *cs[i]
				c.Model = true
				again = append(again, &c)
				idx = append(idx, i)
			}
		}
		if len(again) > 0 {
			for k, r := range runNative(again) {
				recs[idx[k]] = r
			}
		}
		for i, r := range recs {
			sampled++
			same := len(r.Violations) == 0 && r.Mismatch == "" && len(r.Obs) == len(ss[i].Obs) && !r.Assumed
			if same {
				for k := range r.Obs {
					if r.Obs[k] != ss[i].Obs[k] {
						same = false
					}
				}
			}
			if same {
				validated++
				continue
			}
			mismatched++
			msg := fmt.Sprintf("%s: a sampled path behaves differently in the compiled code: native violations=%v mismatch=%q assumed=%v", ss[i].Harness, r.Violations, r.Mismatch, r.Assumed)
			for k := 0; k < len(r.Obs) || k < len(ss[i].Obs); k++ {
				a, b := "-", "-"
				if k < len(ss[i].Obs) {
					a = ss[i].Obs[k]
				}
				if k < len(r.Obs) {
					b = r.Obs[k]
				}
				if a != b {
					msg += fmt.Sprintf("; first difference: encoded %s, native %s", a, b)
					break
				}
			}
			if mismatched <= 5 {
				notes = append(notes, msg)
				fmt.Println("note:", msg)
				if os.Getenv("GOSYM_V") != "" {
					b, _ := json.Marshal(cs[i])
					fmt.Println("  case", string(b))
				}
			}
		}
	}
	for _, st := range stats {
		for i, s := range st.Samples {
			if i < 2 {
				samples = append(samples, map[string]interface{}{"harness": s.Harness, "inputs": renderInputs(s.Inputs), "observations": s.Obs})
			}
		}
	}
	// evidence
	funcs := map[string]bool{}
	var hev []*harnessEvidence
	cov := map[string]interface{}{}
	var states, trans, queries, obligations, unsat, sat, unk int64
	var solver float64
	complete := len(stats) == len(hs)
	for _, st := range stats {
		n := 0
		for f := range st.Funcs {
			if strings.Contains(f, "kgantsov/doq") && !strings.Contains(f, vpath) {
				funcs[strings.ReplaceAll(f, "github.com/kgantsov/doq/", "")] = true
				n++
			}
		}
		hev = append(hev, &harnessEvidence{Name: st.Harness, Bounds: docs[st.Harness], Stats: st, Functions: n})
		states += st.Paths
		trans += st.Branches
		queries += st.Queries
		obligations += st.Obligations
		sat += st.Sat
		unsat += st.Unsat
		unk += st.Unknown
		solver += st.SolverS
		if !st.Complete && len(st.Viols) == 0 {
			complete = false
			notes = append(notes, fmt.Sprintf("%s: reduced coverage (ends %v, unknown %d)", st.Harness, st.Ends, st.Unknown))
		}
		if len(st.Reached) == 0 && len(st.Viols) == 0 {
			notes = append(notes, st.Harness+": no reachability witness was hit")
			complete = false
		}
	}
	var fl []string
	for f := range funcs {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	cov["states"] = states
	cov["transitions"] = trans
	cov["traces_validated_against_impl"] = validated
	cov["traces_sampled"] = sampled
	cov["traces_mismatched"] = mismatched
	cov["samples"] = samples
	cov["solver_queries"] = queries
	cov["solver_sat"] = sat
	cov["solver_unsat"] = unsat
	cov["solver_unknown"] = unk
	cov["solver_seconds"] = solver
	cov["assertion_queries"] = obligations
	cov["functions_encoded"] = fl
	cov["harnesses"] = hev
	cov["all_paths_within_bounds_decided"] = complete
	cov["reduced_coverage"] = notes
	cov["known_findings_seen"] = kfList
	cov["explanation"] = "states are explored paths (each a symbolic input region), transitions are decided branches; every assertion on every path is decided by the solver for all inputs of that path"
	ev := map[string]interface{}{
		"property": *prop, "tier": *tier, "seed": envInt("VERIF_SEED", 1), "level": "model_checking",
		"coverage": cov, "wall_s": time.Since(t0).Seconds(), "violations": nviol,
		"assumptions": assumptions(*verif),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evdir, *prop+".json"), b, 0o644); err != nil {
		return errorf("%v", err)
	}
	fmt.Printf("property=%s tier=%s harnesses=%d paths=%d assertions=%d queries=%d validated=%d/%d complete=%v violations=%d wall=%.1fs\n",
		*prop, *tier, len(stats), states, obligations, queries, validated, sampled, complete, nviol, time.Since(t0).Seconds())
	return exit
}

func assumptions(verif string) []string {
	b, _ := os.ReadFile(filepath.Join(verif, "assumptions.txt"))
	var r []string
	for _, l := range strings.Split(string(b), "\n") {
		if l = strings.TrimSpace(l); l != "" {
			r = append(r, l)
		}
	}
	return r
}

func firstLine(s string) string {
	l, _, _ := strings.Cut(s, "\n")
	return l
}

func renderInputs(in []InVal) string {
	var p []string
	for _, i := range in {
		if i.Kind == "i64" {
			p = append(p, fmt.Sprintf("%s=%d", i.Label, int64(i.V)))
		} else {
			p = append(p, fmt.Sprintf("%s=%d", i.Label, i.V))
		}
	}
	return strings.Join(p, " ")
}

// runReplay runs a recorded counterexample against the compiled code.
func runReplay(args []string) int {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	verif := fs.String("verif", "/verif", "")
	repo := fs.String("repo", "/repo", "")
	fs.Parse(args)
	b, err := os.ReadFile(fs.Arg(0))
	if err != nil {
		fmt.Println(err)
		return 2
	}
	rf := &replayFile{}
	if err := json.Unmarshal(b, rf); err != nil {
		fmt.Println(err)
		return 2
	}
	pats, _ := harnessPkgs(*verif, rf.Property)
	en, ps, err := loadProgram(*verif, *repo, pats)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	np, err := buildNative(*verif, *repo, en, ps, en.harnesses(rf.Property), false)
	defer np.Close()
	if err != nil {
		fmt.Println(err)
		return 2
	}
	recs, err := np.run([]*nativeCase{rf.Case})
	if err != nil || len(recs) != 1 {
		fmt.Println(err)
		return 2
	}
	fmt.Println("inputs:", renderInputs(rf.Case.Inputs))
	for _, o := range recs[0].Obs {
		fmt.Println("  ", o)
	}
	for _, v := range recs[0].Violations {
		fmt.Println("violation:", v)
	}
	if len(recs[0].Violations) > 0 {
		return 1
	}
	fmt.Println("no violation")
	return 0
}
