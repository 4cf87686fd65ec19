package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"sort"
	"strings"
	"time"
)

func usage() {
	fmt.Fprintln(os.Stderr, "usage: gosym check|dbg ...")
	os.Exit(2)
}

func main() {
	if len(os.Args) < 2 {
		usage()
	}
	switch os.Args[1] {
	case "dbg":
		dbg(os.Args[2:])
	case "replay":
		os.Exit(runReplay(os.Args[2:]))
	case "check":
		os.Exit(runCheck(os.Args[2:]))
	default:
		usage()
	}
}

func dbg(args []string) {
	fs := flag.NewFlagSet("dbg", flag.ExitOnError)
	verif := fs.String("verif", "/verif", "")
	repo := fs.String("repo", "/repo", "")
	pk := fs.String("pkgs", "", "harness packages, comma separated")
	hs := fs.String("h", "", "harness names")
	kf := fs.String("kf", "", "allowed known findings")
	deep := fs.Bool("deep", false, "")
	budget := fs.Duration("t", 120*time.Second, "")
	workers := fs.Int("j", 8, "")
	smp := fs.Bool("samples", false, "")
	fs.Parse(args)
	var pats []string
	for _, p := range strings.Split(*pk, ",") {
		pats = append(pats, "./pkg/zzverif/"+p)
	}
	t0 := time.Now()
	en, _, err := loadProgram(*verif, *repo, pats)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	en.workers = *workers
	en.deep = *deep
	en.kfAllowed = map[string]bool{}
	for _, k := range strings.Split(*kf, ",") {
		en.kfAllowed[k] = true
	}
	fmt.Printf("loaded in %.1fs\n", time.Since(t0).Seconds())
	for _, name := range strings.Split(*hs, ",") {
		l := en.harnesses(name)
		if len(l) == 0 {
			fmt.Println("no harness", name)
		}
		for _, h := range l {
			st := en.explore(h, *budget)
			printStats(st)
			if *smp {
				for _, s := range st.Samples {
					b, _ := json.Marshal(s)
					fmt.Println("  sample", string(b))
				}
			}
		}
	}
}

func printStats(st *Stats) {
	fmt.Printf("%-28s paths=%d br=%d steps=%d asserts=%d/%d queries=%d (sat %d unsat %d unk %d) solver=%.1fs wall=%.1fs complete=%v ends=%v\n",
		st.Harness, st.Paths, st.Branches, st.Steps, st.Asserts, st.Obligations, st.Queries, st.Sat, st.Unsat, st.Unknown, st.SolverS, st.WallS, st.Complete, st.Ends)
	for n, c := range st.Notes {
		fmt.Printf("   note x%d: %s\n", c, n)
	}
	var rs []string
	for r, c := range st.Reached {
		rs = append(rs, fmt.Sprintf("%s:%d", r, c))
	}
	sort.Strings(rs)
	fmt.Printf("   reached: %s\n", strings.Join(rs, " "))
	for _, v := range st.Viols {
		printViol("VIOLATION", v)
	}
	for _, v := range st.KFs {
		printViol("KF "+v.KF, v)
	}
}

func printViol(k string, v *ViolRec) {
	fmt.Printf("   %s %s at %s\n      inputs:", k, v.Msg, v.Pos)
	for _, in := range v.Inputs {
		switch in.Kind {
		case "i64":
			fmt.Printf(" %s=%d", in.Label, int64(in.V))
		default:
			fmt.Printf(" %s=%d", in.Label, in.V)
		}
	}
	fmt.Println()
	for _, o := range v.Trace {
		fmt.Println("      obs", o)
	}
	if len(v.Sched) > 0 {
		fmt.Println("      sched", strings.Join(v.Sched, " "))
	}
}
