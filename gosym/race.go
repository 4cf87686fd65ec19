package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A happens-before race detector for the explored schedules. Between
// sym.Concurrent and sym.Sequential every access of doq's own functions to a
// memory cell or a map is compared with the earlier accesses of the other
// goroutines: two accesses of which one writes, ordered by no lock, channel,
// atomic or goroutine start, are a data race (for a map the Go runtime ends
// the process). Edges are added generously (every channel operation and every
// atomic orders both ways; a goroutine that waited for a condition of the
// harness is ordered after everybody), so that a report is a real race.

type vclock []int32

func (v vclock) at(i int) int32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}

func (v vclock) join(o vclock) vclock {
	for len(v) < len(o) {
		v = append(v, 0)
	}
	for i, x := range o {
		if x > v[i] {
			v[i] = x
		}
	}
	return v
}

func (v vclock) clone() vclock { return append(vclock{}, v...) }

type shadow struct {
	wg    int // last writer, -1: none
	wc    int32
	wfn   *ssa.Function
	reads vclock
	rfn   []*ssa.Function
}

type raceState struct {
	syncs  map[interface{}]vclock
	rsyncs map[interface{}]vclock
	cells  map[interface{}]*shadow
}

func (e *Exec) raceStart() {
	e.race = &raceState{map[interface{}]vclock{}, map[interface{}]vclock{}, map[interface{}]*shadow{}}
	for _, g := range e.gs {
		g.vc = make(vclock, g.id+1)
		g.vc[g.id] = 1
	}
}

func (e *Exec) raceStop() { e.race = nil }

func (e *Exec) tick(g *G) {
	for len(g.vc) <= g.id {
		g.vc = append(g.vc, 0)
	}
	g.vc[g.id]++
}

func (e *Exec) acq(k interface{}) {
	if e.race != nil {
		e.cur.vc = e.cur.vc.join(e.race.syncs[k])
	}
}

func (e *Exec) rel(k interface{}) {
	if e.race != nil {
		e.race.syncs[k] = e.race.syncs[k].join(e.cur.vc)
		e.tick(e.cur)
	}
}

// both orders the operation after all earlier and before all later ones on k.
func (e *Exec) both(k interface{}) {
	e.acq(k)
	e.rel(k)
}

// acqAll orders the current goroutine after everything that happened so far.
func (e *Exec) acqAll() {
	if e.race != nil {
		for _, g := range e.gs {
			if g != e.cur {
				e.cur.vc = e.cur.vc.join(g.vc)
				e.tick(g)
			}
		}
	}
}

func (e *Exec) raceFork(g *G) {
	if e.race != nil {
		g.vc = e.cur.vc.clone()
		e.tick(g)
		e.tick(e.cur)
	}
}

// tracked tells whether the accesses of a function count.
func tracked(fn *ssa.Function) bool {
	p := fn.Package()
	if p == nil {
		for o := fn; o != nil && p == nil; o = o.Parent() {
			p = o.Package()
			if p == nil && o.Origin() != nil {
				p = o.Origin().Package()
			}
		}
	}
	return p != nil && strings.HasPrefix(p.Pkg.Path(), "github.com/kgantsov/doq/") && !strings.Contains(p.Pkg.Path(), "/zzverif/")
}

func (fr *frame) access(k interface{}, write bool) {
	e := fr.e
	if fr.info == nil || !fr.info.tracked || e.merging > 0 {
		return
	}
	g := e.cur
	if g.vc == nil {
		e.tick(g)
	}
	s := e.race.cells[k]
	if s == nil {
		s = &shadow{wg: -1}
		e.race.cells[k] = s
	}
	if s.wg >= 0 && s.wg != g.id && s.wc > g.vc.at(s.wg) {
		e.raceFound(k, s.wfn, true, fr.fn, write)
	}
	if write {
		for i, c := range s.reads {
			if i != g.id && c > g.vc.at(i) {
				e.raceFound(k, s.rfn[i], false, fr.fn, true)
			}
		}
		s.wg, s.wc, s.wfn = g.id, g.vc.at(g.id), fr.fn
		s.reads, s.rfn = nil, nil
		return
	}
	for len(s.reads) <= g.id {
		s.reads = append(s.reads, 0)
		s.rfn = append(s.rfn, nil)
	}
	s.reads[g.id], s.rfn[g.id] = g.vc.at(g.id), fr.fn
}

func (e *Exec) raceFound(k interface{}, f *ssa.Function, fw bool, g *ssa.Function, gw bool) {
	what := "memory"
	if _, ok := k.(*MapV); ok {
		what = "a map"
	}
	rw := map[bool]string{true: "writes", false: "reads"}
	e.fail(fmt.Sprintf("data race: %s %s %s and %s %s it with nothing ordering the two", fnName(f), rw[fw], what, fnName(g), rw[gw]), "")
}
