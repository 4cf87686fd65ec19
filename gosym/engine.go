package main

import (
	"go/types"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

func nextGen() uint32 { return atomic.AddUint32(&solverGen, 1) }

// Harness is one entry point.
type Harness struct {
	Name string
	Fn   *ssa.Function
}

// Engine explores harnesses over a loaded program.
type Engine struct {
	prog         *ssa.Program
	pkgs         map[string]*ssa.Package
	replace      map[string]*ssa.Function
	errStringPtr types.Type
	base         *Base

	workers int
	timeout int // solver timeout, ms

	mu        sync.Mutex
	cond      *sync.Cond
	stacks    [][]*Job
	queued    int
	active    int
	deadline  time.Time
	stop      int32
	overtime  bool
	viols     []*ViolRec
	kfs       map[string]*ViolRec
	kfAllowed map[string]bool
	reached   map[string]map[string]int64
	usedNames map[string]bool
	samples   map[string][]*SampleRec
	maxSamp   int
	deep      bool

	implCache sync.Map
	methCache sync.Map
	skipCache sync.Map
}

// SampleRec is a completed path, with inputs and observations under its model.
type SampleRec struct {
	Harness string
	Inputs  []InVal
	Obs     []string
	Conc    bool
}

// Stats of one harness.
type Stats struct {
	Harness     string
	Paths       int64            `json:"paths"`
	Branches    int64            `json:"branches"`
	Steps       int64            `json:"instructions"`
	Asserts     int64            `json:"assertions"`
	Obligations int64            `json:"obligations"`
	Queries     int64            `json:"queries"`
	Sat         int64            `json:"sat"`
	Unsat       int64            `json:"unsat"`
	Unknown     int64            `json:"unknown"`
	SolverS     float64          `json:"solver_s"`
	WallS       float64          `json:"wall_s"`
	Ends        map[string]int   `json:"path_ends"`
	Notes       map[string]int   `json:"notes,omitempty"`
	Reached     map[string]int64 `json:"reached,omitempty"`
	Complete    bool             `json:"complete"`
	Funcs       map[string]bool  `json:"-"`
	Viols       []*ViolRec       `json:"-"`
	KFs         []*ViolRec       `json:"-"`
	Samples     []*SampleRec     `json:"-"`
}

func (en *Engine) stopped() bool {
	if atomic.LoadInt32(&en.stop) != 0 {
		return true
	}
	if time.Now().After(en.deadline) {
		en.overtime = true
		atomic.StoreInt32(&en.stop, 1)
		en.mu.Lock()
		en.cond.Broadcast()
		en.mu.Unlock()
		return true
	}
	return false
}

// Each worker keeps its own stack, so that its solver context stays close to
// the next path; an idle worker takes the oldest job of the fullest stack.
func (en *Engine) pushJob(id int, j *Job) {
	en.mu.Lock()
	en.stacks[id] = append(en.stacks[id], j)
	en.queued++
	en.mu.Unlock()
	en.cond.Signal()
}

func (en *Engine) popJob(id int) *Job {
	if en.queued == 0 {
		return nil
	}
	en.queued--
	if s := en.stacks[id]; len(s) > 0 {
		j := s[len(s)-1]
		en.stacks[id] = s[:len(s)-1]
		return j
	}
	best := -1
	for i, s := range en.stacks {
		if best < 0 || len(s) > len(en.stacks[best]) {
			best = i
		}
	}
	j := en.stacks[best][0]
	en.stacks[best] = en.stacks[best][1:]
	return j
}

func (en *Engine) violation(h *Harness, v *ViolRec) {
	en.mu.Lock()
	en.viols = append(en.viols, v)
	en.mu.Unlock()
	atomic.StoreInt32(&en.stop, 1)
	en.cond.Broadcast()
}

func (en *Engine) knownFinding(h *Harness, id, msg string, v *ViolRec) {
	en.mu.Lock()
	defer en.mu.Unlock()
	if _, ok := en.kfs[id]; !ok {
		en.kfs[id] = v
	}
}

func (en *Engine) reach(h *Harness, label string) {
	en.mu.Lock()
	m := en.reached[h.Name]
	if m == nil {
		m = map[string]int64{}
		en.reached[h.Name] = m
	}
	m[label]++
	en.mu.Unlock()
}

func (en *Engine) used(name string) {
	en.mu.Lock()
	en.usedNames[name] = true
	en.mu.Unlock()
}

func (en *Engine) sample(e *Exec, h *Harness) {
	en.mu.Lock()
	n := len(en.samples[h.Name])
	en.mu.Unlock()
	if n >= en.maxSamp {
		// keep a spread: replace pseudo-randomly with decreasing frequency
		if e.w.paths%int64(n*4+1) != 0 {
			return
		}
	}
	e.c.NewEval()
	s := &SampleRec{Harness: h.Name, Inputs: e.inputVals(e.model), Conc: e.concurrent || e.noNative}
	for _, o := range e.observes {
		s.Obs = append(s.Obs, o.Label+"="+e.concRender(o.V, e.model, 6))
	}
	en.mu.Lock()
	defer en.mu.Unlock()
	l := en.samples[h.Name]
	if len(l) < en.maxSamp {
		en.samples[h.Name] = append(l, s)
	} else {
		l[int(e.w.paths/7)%len(l)] = s
	}
}

// explore runs a harness over all its paths.
func (en *Engine) explore(h *Harness, budget time.Duration) *Stats {
	t0 := time.Now()
	en.deadline = t0.Add(budget)
	en.stop = 0
	en.overtime = false
	en.stacks = make([][]*Job, en.workers)
	en.stacks[0] = []*Job{{}}
	en.queued = 1
	en.viols = nil
	en.kfs = map[string]*ViolRec{}
	en.reached = map[string]map[string]int64{}
	en.samples = map[string][]*SampleRec{}
	st := &Stats{Harness: h.Name, Ends: map[string]int{}, Notes: map[string]int{}, Funcs: map[string]bool{}}
	var wg sync.WaitGroup
	var smu sync.Mutex
	for i := 0; i < en.workers; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			w := &Worker{eng: en, id: i, h: h, c: NewTCtx(), notes: map[string]int{}, ends: map[string]int{},
				consts: map[*ssa.Const]Value{}, funcs: map[*ssa.Function]bool{}, mcache: map[mkey]*ssa.Function{}}
			defer func() {
				smu.Lock()
				defer smu.Unlock()
				st.Paths += w.paths
				st.Branches += w.branches
				st.Steps += w.steps
				st.Asserts += w.asserts
				st.Obligations += w.obligations
				if w.s != nil {
					st.Queries += w.s.Queries
					st.Sat += w.s.NSat
					st.Unsat += w.s.NUnsat
					st.Unknown += w.s.NUnk
					st.SolverS += w.s.Time.Seconds()
				}
				for k, v := range w.ends {
					st.Ends[k] += v
				}
				for k, v := range w.notes {
					st.Notes[k] += v
				}
				for f := range w.funcs {
					st.Funcs[fnName(f)] = true
				}
				if w.s != nil {
					w.s.Close()
				}
			}()
			for {
				en.mu.Lock()
				for en.queued == 0 && en.active > 0 && atomic.LoadInt32(&en.stop) == 0 {
					en.cond.Wait()
				}
				if en.queued == 0 || atomic.LoadInt32(&en.stop) != 0 {
					en.mu.Unlock()
					en.cond.Broadcast()
					return
				}
				j := en.popJob(i)
				en.active++
				en.mu.Unlock()
				if w.s == nil {
					w.s = NewSolver(solverBin, en.timeout)
					w.s.fallback = "z3-new"
				}
				w.runPath(h, j)
				en.mu.Lock()
				en.active--
				if en.active == 0 && en.queued == 0 {
					en.cond.Broadcast()
				}
				en.mu.Unlock()
				en.stopped()
			}
		}(i)
	}
	wg.Wait()
	st.WallS = time.Since(t0).Seconds()
	st.Viols = en.viols
	for _, k := range en.kfs {
		st.KFs = append(st.KFs, k)
	}
	st.Reached = en.reached[h.Name]
	st.Samples = en.samples[h.Name]
	st.Complete = !en.overtime && len(en.viols) == 0 && st.Ends["unsupported"] == 0 && st.Ends["bound"] == 0 &&
		st.Ends["engine"] == 0 && st.Unknown == 0
	return st
}

func (w *Worker) useFunc(fn *ssa.Function) { w.funcs[fn] = true }

func (en *Engine) implements(t types.Type, it *types.Interface) bool {
	type key struct {
		t types.Type
		i *types.Interface
	}
	k := key{t, it}
	if v, ok := en.implCache.Load(k); ok {
		return v.(bool)
	}
	r := types.Implements(t, it)
	en.implCache.Store(k, r)
	return r
}

func (en *Engine) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	k := mkey{t, m}
	if v, ok := en.methCache.Load(k); ok {
		return v.(*ssa.Function)
	}
	en.mu.Lock()
	f := en.prog.LookupMethod(t, m.Pkg(), m.Name())
	en.mu.Unlock()
	en.methCache.Store(k, f)
	return f
}

// methodByName finds a method of t by name (exported only).
func (en *Engine) methodByName(t types.Type, name string) *ssa.Function {
	ms := en.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			en.mu.Lock()
			f := en.prog.MethodValue(ms.At(i))
			en.mu.Unlock()
			return f
		}
	}
	return nil
}

func (en *Engine) goHook(e *Exec, fr *frame, in *ssa.Go) bool { return false }

var fnNames sync.Map

func fnName(fn *ssa.Function) string {
	if v, ok := fnNames.Load(fn); ok {
		return v.(string)
	}
	s := fn.RelString(nil)
	fnNames.Store(fn, s)
	return s
}
