package main

import (
	"fmt"
	"go/types"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Decision is one resolved nondeterminism of a path.
type Decision struct {
	K byte   // 'b' branch, 'c' choice, 'v' concretization, 'a' assertion outcome
	T bool   // branch taken / value accepted
	F bool   // implied by the path condition
	N int    // choice
	V uint64 // concretized value
}

type Job struct {
	prefix []Decision
	model  Model
}

// InVar is one symbolic input, in creation order.
type InVar struct {
	Label  string
	Kind   string // "int", "choice"
	T      *Term
	Choice int
}

// Exec is the state of one path.
type Exec struct {
	w     *Worker
	eng   *Engine
	h     *Harness
	c     *TCtx
	s     *Solver
	pc    []*Term
	lits  map[*Term]bool
	model Model

	prefix []Decision
	decs   []Decision

	globals map[*ssa.Global]*Value
	memo    map[interface{}]interface{}

	inputs   []InVar
	nvar     int
	observes []ObsRec
	reached  map[string]bool
	steps    int64
	branches int

	// goroutines
	gs         []*G
	cur        *G
	killed     bool
	concurrent bool
	preemptMax int
	preempts   int
	switches   int
	schedTrace []string
	race       *raceState
	mapOrder   bool
	endSig     chan pathEnd
	ended      bool
	wg         sync.WaitGroup

	mutexes  map[*Value]*mutexState
	onces    map[*Value]*onceState
	pools    map[*Value][]Value
	smaps    map[*Value]*MapV
	wgs      map[*Value]*int64
	conds    map[*Value][]*bool
	values   map[*Value]Value
	builder  map[*Value][]Value
	fatalEv  *Value
	exits    int  // inside sym.Exits
	noNative bool // not to be compared with the compiled code
	concVals map[*Term]uint64

	base     bool // running package initialisers
	merging  int
	curLabel string
	depth    int
	nAssume  int
	viol     *ViolRec
	notes    map[string]bool
}

// ObsRec is an observation used to validate the encoding against native runs.
type ObsRec struct {
	Label string
	V     Value
}

// ViolRec is a solver counterexample.
type ViolRec struct {
	Harness string
	Msg     string
	Pos     string
	Inputs  []InVal
	Sched   []string
	KF      string
	Model   Model
	Trace   []string
}

// InVal is a concrete input value for replay.
type InVal struct {
	Label string `json:"label"`
	Kind  string `json:"kind"`
	V     uint64 `json:"v"`
}

// ---- branching

func (e *Exec) assume(c *Term) {
	if c.isTrue() {
		return
	}
	if e.lits[c] {
		return
	}
	e.pc = append(e.pc, c)
	e.addLit(c)
}

func (e *Exec) addLit(c *Term) {
	e.lits[c] = true
	if c.op == OpAnd {
		e.addLit(c.a)
		e.addLit(c.b)
	}
	if c.op == OpNot && c.a.op == OpOr {
		e.addLit(e.c.Not(c.a.a))
		e.addLit(e.c.Not(c.a.b))
	}
}

func (e *Exec) known(c *Term) (bool, bool) {
	if c.isTrue() {
		return true, true
	}
	if c.isFalse() {
		return false, true
	}
	if e.lits[c] {
		return true, true
	}
	if e.lits[e.c.Not(c)] {
		return false, true
	}
	return false, false
}

type mergeAbort struct{}

func (e *Exec) branch(c *Term, why string) bool {
	if v, ok := e.known(c); ok {
		return v
	}
	if e.merging > 0 {
		panic(mergeAbort{})
	}
	if e.base {
		panic(unsupported("symbolic branch in initialiser"))
	}
	e.branches++
	if n := len(e.decs); n < len(e.prefix) {
		d := e.prefix[n]
		if d.K != 'b' {
			panic(engineBug(fmt.Sprintf("nondeterministic re-execution: want %c got branch (%s)", d.K, why)))
		}
		e.decs = append(e.decs, d)
		l := c
		if !d.T {
			l = e.c.Not(c)
		}
		if d.F {
			e.addLit(l)
		} else {
			e.assume(l)
		}
		return d.T
	}
	e.checkBudget()
	v := e.c.Eval(c, e.model) == 1
	lit, other := c, e.c.Not(c)
	if !v {
		lit, other = other, lit
	}
	res, m := e.s.Check(e.pc, other)
	switch res {
	case Sat:
		e.push(Decision{K: 'b', T: !v}, m)
	case Unknown:
		e.w.note("solver returned unknown on a branch: one side not explored")
	}
	e.decs = append(e.decs, Decision{K: 'b', T: v, F: res == Unsat})
	if res == Unsat {
		// implied by the path condition: keep as a fact without asserting
		e.addLit(lit)
	} else {
		e.assume(lit)
	}
	return v
}

func (e *Exec) push(d Decision, m Model) {
	p := make([]Decision, len(e.decs)+1)
	copy(p, e.decs)
	p[len(e.decs)] = d
	e.w.pushJob(&Job{prefix: p, model: m})
}

func (e *Exec) checkBudget() {
	if e.eng.stopped() {
		panic(pathEnd{"budget", "time budget"})
	}
}

// choose resolves a free choice among n alternatives.
func (e *Exec) choose(n int, why string) int {
	if n <= 1 {
		return 0
	}
	if e.merging > 0 {
		panic(mergeAbort{})
	}
	if e.base {
		return 0
	}
	if k := len(e.decs); k < len(e.prefix) {
		d := e.prefix[k]
		if d.K != 'c' || d.N >= n {
			panic(engineBug(fmt.Sprintf("nondeterministic re-execution: want %c got choice (%s)", d.K, why)))
		}
		e.decs = append(e.decs, d)
		return d.N
	}
	e.checkBudget()
	for i := n - 1; i >= 1; i-- {
		e.push(Decision{K: 'c', N: i}, e.model)
	}
	e.decs = append(e.decs, Decision{K: 'c', N: 0})
	return 0
}

// concretize forks over the feasible values of t.
func (e *Exec) concretize(t *Term, why string) uint64 {
	if t.isConst() {
		return t.val
	}
	if e.merging > 0 {
		panic(mergeAbort{})
	}
	if v, ok := e.concVals[t]; ok {
		return v
	}
	tries := 0
	for {
		tries++
		if tries > 300 {
			panic(unsupported("too many values to concretize (%s)", why))
		}
		if k := len(e.decs); k < len(e.prefix) {
			d := e.prefix[k]
			if d.K != 'v' {
				panic(engineBug(fmt.Sprintf("nondeterministic re-execution: want %c got value (%s)", d.K, why)))
			}
			e.decs = append(e.decs, d)
			eq := e.c.Eq(t, e.c.Const(d.V, t.w))
			if d.T {
				e.assume(eq)
				e.concVals[t] = d.V
				return d.V
			}
			e.assume(e.c.Not(eq))
			continue
		}
		e.checkBudget()
		v := e.c.Eval(t, e.model)
		eq := e.c.Eq(t, e.c.Const(v, t.w))
		ne := e.c.Not(eq)
		res, m := e.s.Check(e.pc, ne)
		if res == Sat {
			e.push(Decision{K: 'v', V: v, T: false}, m)
		} else if res == Unknown {
			e.w.note("solver returned unknown on a concretization")
		}
		e.decs = append(e.decs, Decision{K: 'v', V: v, T: true})
		e.assume(eq)
		e.concVals[t] = v
		return v
	}
}

// assumeHarness implements sym.Assume.
func (e *Exec) assumeHarness(c *Term) {
	if v, ok := e.known(c); ok {
		if !v {
			panic(pathEnd{"assume", ""})
		}
		return
	}
	if k := len(e.decs); k < len(e.prefix) {
		d := e.prefix[k]
		if d.K != 'm' {
			panic(engineBug(fmt.Sprintf("nondeterministic re-execution: want %c got assume", d.K)))
		}
		e.decs = append(e.decs, d)
		e.assume(c)
		return
	}
	if e.c.Eval(c, e.model) != 1 {
		res, m := e.s.Check(e.pc, c)
		if res != Sat {
			if res == Unknown {
				e.w.note("solver returned unknown on an assumption")
			}
			panic(pathEnd{"assume", ""})
		}
		e.setModel(m)
	}
	e.decs = append(e.decs, Decision{K: 'm'})
	e.assume(c)
}

func (e *Exec) setModel(m Model) {
	e.model = m
	e.c.NewEval()
}

// newVar makes a fresh symbolic input.
func (e *Exec) newVar(label string, w uint8, signed bool, lo, hi uint64, kind string) *Term {
	name := fmt.Sprintf("%s!%d!%d!%x!%x", label, e.nvar, w, lo, hi)
	e.nvar++
	t := e.c.Var(name, w)
	if w > 0 {
		if signed {
			if int64(lo) > t.slo {
				t.slo = int64(lo)
			}
			if int64(hi) < t.shi {
				t.shi = int64(hi)
			}
			t.syncFromS()
		} else {
			if lo > t.ulo {
				t.ulo = lo
			}
			if hi < t.uhi {
				t.uhi = hi
			}
			t.syncFromU()
		}
	}
	e.inputs = append(e.inputs, InVar{Label: label, Kind: kind, T: t})
	// bounds as path condition (built without the range simplifier)
	if w > 0 {
		var cs []*Term
		if signed {
			if int64(lo) > smin(w) {
				cs = append(cs, e.c.Not(e.c.node(OpSlt, 0, 0, t, e.c.Const(lo, w), nil)))
			}
			if int64(hi) < smax(w) {
				cs = append(cs, e.c.Not(e.c.node(OpSlt, 0, 0, e.c.Const(hi, w), t, nil)))
			}
		} else {
			if lo > 0 {
				cs = append(cs, e.c.Not(e.c.node(OpUlt, 0, 0, t, e.c.Const(lo, w), nil)))
			}
			if hi < mask(w) {
				cs = append(cs, e.c.Not(e.c.node(OpUlt, 0, 0, e.c.Const(hi, w), t, nil)))
			}
		}
		for _, c := range cs {
			e.pc = append(e.pc, c)
			e.lits[c] = true
		}
		v, ok := e.model[name]
		bad := !ok
		if ok {
			if signed {
				sv := sext(v, w)
				bad = sv < int64(lo) || sv > int64(hi)
			} else {
				bad = v < lo || v > hi
			}
		}
		if bad {
			nm := make(Model, len(e.model)+1)
			for k, x := range e.model {
				nm[k] = x
			}
			d := lo
			if signed && int64(lo) <= 0 && int64(hi) >= 0 {
				d = 0
			}
			nm[name] = d & mask(w)
			e.setModel(nm)
		}
	}
	return t
}

// check decides an assertion. pred (may be nil) classifies a known finding.
func (e *Exec) assert(cond *Term, msg, pos, kfID string, pred *Term) {
	e.w.asserts++
	inPrefix := len(e.decs) < len(e.prefix)
	if v, ok := e.known(cond); ok && v {
		return
	}
	if inPrefix {
		d := e.prefix[len(e.decs)]
		if d.K != 'a' {
			panic(engineBug(fmt.Sprintf("nondeterministic re-execution: want %c got assertion %q", d.K, msg)))
		}
		e.decs = append(e.decs, d)
		if d.F {
			e.addLit(cond)
		} else {
			e.assume(cond)
		}
		return
	}
	bad := e.c.Not(cond)
	e.w.obligations++
	if pred != nil {
		// known-finding part first
		kb := e.c.And(bad, pred)
		if r, m := e.feasible(kb); r == Sat {
			e.w.eng.knownFinding(e.h, kfID, msg, e.mkViol(m, msg, pos, kfID))
		}
		bad = e.c.And(bad, e.c.Not(pred))
	}
	r, m := e.feasible(bad)
	switch r {
	case Sat:
		e.w.eng.violation(e.h, e.mkViol(m, msg, pos, ""))
	case Unknown:
		e.w.note("solver returned unknown on an assertion: not decided")
	}
	// continue where the assertion holds
	if v, ok := e.known(cond); ok && !v {
		panic(pathEnd{"violation", msg})
	}
	if r == Unsat && pred == nil {
		e.decs = append(e.decs, Decision{K: 'a', F: true})
		e.addLit(cond)
		return
	}
	if e.c.Eval(cond, e.model) != 1 {
		r, m := e.s.Check(e.pc, cond)
		if r != Sat {
			panic(pathEnd{"violation", msg})
		}
		e.setModel(m)
	}
	e.decs = append(e.decs, Decision{K: 'a'})
	e.assume(cond)
}

func (e *Exec) feasible(c *Term) (Result, Model) {
	if v, ok := e.known(c); ok {
		if !v {
			return Unsat, nil
		}
		return Sat, e.model
	}
	if e.c.Eval(c, e.model) == 1 {
		return Sat, e.model
	}
	return e.s.Check(e.pc, c)
}

func (e *Exec) mkViol(m Model, msg, pos, kf string) *ViolRec {
	e.c.NewEval()
	v := &ViolRec{Harness: e.h.Name, Msg: msg, Pos: pos, KF: kf, Model: m}
	v.Inputs = e.inputVals(m)
	v.Sched = append([]string{}, e.schedTrace...)
	for _, o := range e.observes {
		v.Trace = append(v.Trace, o.Label+" = "+e.concRender(o.V, m, 4))
	}
	e.c.NewEval()
	return v
}

func (e *Exec) inputVals(m Model) []InVal {
	var r []InVal
	for _, in := range e.inputs {
		iv := InVal{Label: in.Label, Kind: in.Kind}
		if in.T != nil {
			iv.V = e.c.Eval(in.T, m)
		} else {
			iv.V = uint64(in.Choice)
		}
		r = append(r, iv)
	}
	return r
}

// fail reports an unconditional violation on this path (panic, deadlock).
func (e *Exec) fail(msg, pos string) {
	if e.w != nil {
		e.w.obligations++
		e.w.eng.violation(e.h, e.mkViol(e.model, msg, pos, ""))
	}
	panic(pathEnd{"violation", msg})
}

// ---- worker

type Worker struct {
	eng *Engine
	id  int
	c   *TCtx
	s   *Solver

	h           *Harness
	asserts     int64
	obligations int64
	paths       int64
	branches    int64
	steps       int64
	notes       map[string]int
	ends        map[string]int
	consts      map[*ssa.Const]Value
	funcs       map[*ssa.Function]bool
	mcache      map[mkey]*ssa.Function
}

type mkey struct {
	t types.Type
	m *types.Func
}

func (w *Worker) note(s string) { w.notes[s]++ }

func (w *Worker) pushJob(j *Job) { w.eng.pushJob(w.id, j) }

func (w *Worker) reset() {
	w.c = NewTCtx()
	w.s.restartClean()
	w.consts = map[*ssa.Const]Value{}
}

func (s *Solver) restartClean() {
	s.Close()
	s.start()
}

// runPath explores one path to its end.
func (w *Worker) runPath(h *Harness, j *Job) {
	if w.c.nextID > 3000000 {
		w.reset()
	}
	e := &Exec{
		w: w, eng: w.eng, h: h, c: w.c, s: w.s,
		lits: map[*Term]bool{}, model: j.model, prefix: j.prefix,
		globals: map[*ssa.Global]*Value{}, memo: map[interface{}]interface{}{},
		reached: map[string]bool{},
		mutexes: map[*Value]*mutexState{}, onces: map[*Value]*onceState{}, pools: map[*Value][]Value{},
		smaps: map[*Value]*MapV{}, wgs: map[*Value]*int64{}, conds: map[*Value][]*bool{}, values: map[*Value]Value{},
		builder: map[*Value][]Value{}, concVals: map[*Term]uint64{},
		endSig: make(chan pathEnd, 1),
	}
	if e.model == nil {
		e.model = Model{}
	}
	w.c.NewEval()
	q0 := w.s.Queries
	end := e.runMain(h.Fn)
	if end.kind == "done" && w.s.Queries == q0 && len(e.prefix) == 0 || end.kind == "done" && w.s.Queries == q0 && len(e.pc) > 0 {
		// every assertion of the path was decided while it was built: the
		// solver confirms that the path is not empty
		if r, _ := w.s.Check(e.pc, nil); r == Unsat {
			w.note("engine: a path without values")
		}
	}
	w.paths++
	w.branches += int64(e.branches)
	w.steps += e.steps
	w.ends[end.kind]++
	for r := range e.reached {
		w.eng.reach(h, r)
	}
	switch end.kind {
	case "unsupported", "bound", "engine":
		w.note(end.kind + ": " + end.msg)
	}
	if end.kind == "done" {
		w.eng.sample(e, h)
	}
}

func (e *Exec) runMain(fn *ssa.Function) pathEnd {
	g := e.newG("main")
	e.cur = g
	e.startG(g, func() {
		e.callSSA(&frame{e: e, g: g}, fn, nil, nil)
	})
	g.wake <- struct{}{}
	end := <-e.endSig
	// kill the other goroutines
	e.killed = true
	for _, x := range e.gs {
		select {
		case x.wake <- struct{}{}:
		default:
		}
	}
	e.wg.Wait()
	return end
}

func (e *Exec) finish(p pathEnd) {
	if !e.ended {
		e.ended = true
		e.endSig <- p
	}
}

var startTime = time.Now()
