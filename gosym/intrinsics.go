package main

import (
	"fmt"
	"go/types"
	"math"
	"strconv"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(fr *frame, a []Value) Value

var intrinsics = map[string]intrinsic{}

func decodeRune(b []byte) (rune, int) { return utf8.DecodeRune(b) }

const symPkg = vpath + "/sym."

func reg(f intrinsic, names ...string) {
	for _, n := range names {
		intrinsics[n] = f
	}
}

func concStr(v Value) (string, bool) {
	s, ok := v.(string)
	return s, ok
}

func constStr(v Value, what string) string {
	s, ok := v.(string)
	if !ok {
		panic(unsupported("%s must be constant", what))
	}
	return s
}

func (e *Exec) num(n int64) *Term { return e.c.Const(uint64(n), 64) }

func (e *Exec) constInt(v Value, what string) int64 {
	t := e.asTerm(v)
	if !t.isConst() {
		panic(unsupported("%s must be constant", what))
	}
	return sext(t.val, t.w)
}

func nop(fr *frame, a []Value) Value { return zeroTuple(fr.e, fr.fn.Signature) }

func fieldIndex(t types.Type, name string) int {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

func (e *Exec) pos(fr *frame) string {
	// nearest frame outside the sym package
	for f := fr; f != nil; f = f.caller {
		if f.fn != nil && fnPkg(f.fn) != vpath+"/sym" {
			return fnName(f.fn)
		}
	}
	return ""
}

func init() {
	// ---- harness API
	scalar := func(w uint8, signed bool, kind string) intrinsic {
		return func(fr *frame, a []Value) Value {
			e := fr.e
			lo, hi := uint64(0), mask(w)
			if signed {
				lo, hi = uint64(smin(w)), uint64(smax(w))
			}
			return e.newVar(constStr(a[0], "label"), w, signed, lo, hi, kind)
		}
	}
	reg(scalar(64, false, "u64"), symPkg+"U64")
	reg(scalar(64, true, "i64"), symPkg+"I64")
	reg(scalar(32, false, "u32"), symPkg+"U32")
	reg(scalar(8, false, "u8"), symPkg+"U8")
	reg(func(fr *frame, a []Value) Value {
		return fr.e.newVar(constStr(a[0], "label"), 0, false, 0, 1, "bool")
	}, symPkg+"Bool")
	reg(func(fr *frame, a []Value) Value {
		e := fr.e
		lo, hi := e.constInt(a[1], "bound"), e.constInt(a[2], "bound")
		if lo == hi {
			e.inputs = append(e.inputs, InVar{Label: constStr(a[0], "label"), Kind: "i64", T: e.num(lo)})
			return e.num(lo)
		}
		return e.newVar(constStr(a[0], "label"), 64, true, uint64(lo), uint64(hi), "i64")
	}, symPkg+"Int", symPkg+"I64R")
	reg(func(fr *frame, a []Value) Value {
		e := fr.e
		lo, hi := uint64(e.constInt(a[1], "bound")), uint64(e.constInt(a[2], "bound"))
		return e.newVar(constStr(a[0], "label"), 64, false, lo, hi, "u64")
	}, symPkg+"U64R")
	reg(func(fr *frame, a []Value) Value {
		e := fr.e
		n := int(e.constInt(a[1], "choice count"))
		l := constStr(a[0], "label")
		k := e.choose(n, l)
		e.inputs = append(e.inputs, InVar{Label: l, Kind: "choice", Choice: k})
		return e.num(int64(k))
	}, symPkg+"Choose")
	reg(func(fr *frame, a []Value) Value {
		e := fr.e
		n := int(e.constInt(a[1], "length"))
		l := constStr(a[0], "label")
		lo, hi := uint64(0), uint64(127)
		if len(a) > 2 {
			lo, hi = uint64(e.constInt(a[2], "lo")), uint64(e.constInt(a[3], "hi"))
		}
		var es []Value
		for i := 0; i < n; i++ {
			es = append(es, e.newVar(fmt.Sprintf("%s[%d]", l, i), 8, false, lo, hi, "byte"))
		}
		return mkStr(es)
	}, symPkg+"Str", symPkg+"StrR")
	reg(func(fr *frame, a []Value) Value {
		e := fr.e
		t := e.newVar(constStr(a[0], "label"), 64, false, 0, math.MaxUint64, "atom")
		return &SymStr{[]Value{&Atom{t}}}
	}, symPkg+"Atom")
	reg(func(fr *frame, a []Value) Value {
		fr.e.assumeHarness(fr.e.asTerm(a[0]))
		return nil
	}, symPkg+"Assume")
	reg(func(fr *frame, a []Value) Value {
		fr.e.assert(fr.e.asTerm(a[0]), constStr(a[1], "message"), fr.e.pos(fr.caller), "", nil)
		return nil
	}, symPkg+"Assert")
	reg(func(fr *frame, a []Value) Value {
		e := fr.e
		id := constStr(a[2], "finding id")
		pred := e.asTerm(a[3])
		if !e.eng.kfAllowed[id] {
			pred = nil
		}
		e.assert(e.asTerm(a[0]), constStr(a[1], "message"), e.pos(fr.caller), id, pred)
		return nil
	}, symPkg+"AssertKF")
	reg(func(fr *frame, a []Value) Value {
		e := fr.e
		e.observes = append(e.observes, ObsRec{constStr(a[0], "label"), e.freeze(a[1], 8)})
		return nil
	}, symPkg+"Observe")
	reg(func(fr *frame, a []Value) Value {
		fr.e.reached[constStr(a[0], "label")] = true
		return nil
	}, symPkg+"Reach")
	reg(func(fr *frame, a []Value) Value { return fr.e.c.True }, symPkg+"Symbolic")
	reg(func(fr *frame, a []Value) Value { return nil }, symPkg+"ModelOnly")
	reg(func(fr *frame, a []Value) Value { fr.e.noNative = true; return nil }, symPkg+"NotNative")
	reg(func(fr *frame, a []Value) Value {
		if fr.e.eng.deep {
			return fr.e.c.True
		}
		return fr.e.c.False
	}, symPkg+"Deep")
	reg(func(fr *frame, a []Value) Value { fr.e.idle(); fr.e.acqAll(); return nil }, symPkg+"RunBackground")
	reg(func(fr *frame, a []Value) Value {
		if fr.e.cur == fr.e.gs[0] {
			return fr.e.c.True
		}
		return fr.e.c.False
	}, symPkg+"IsMain")
	// ErrIn: the error held in a field of a struct (or pointer to one)
	reg(func(fr *frame, a []Value) Value {
		i, ok := a[0].(Iface)
		if !ok || i.T == nil {
			return Iface{}
		}
		t, v := i.T, i.V
		if p, ok := t.Underlying().(*types.Pointer); ok {
			c, _ := v.(*Value)
			if c == nil {
				return Iface{}
			}
			t, v = p.Elem(), *c
		}
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			return Iface{}
		}
		et := types.Universe.Lookup("error").Type()
		for k := 0; k < st.NumFields(); k++ {
			if types.Identical(st.Field(k).Type(), et) {
				return v.(Struct)[k]
			}
		}
		return Iface{}
	}, symPkg+"ErrIn")
	reg(func(fr *frame, a []Value) Value {
		fr.e.concurrent = true
		fr.e.preemptMax = int(fr.e.constInt(a[0], "preemptions"))
		fr.e.preempts = 0
		fr.e.raceStart()
		return nil
	}, symPkg+"Concurrent")
	reg(func(fr *frame, a []Value) Value { fr.e.concurrent = false; fr.e.raceStop(); return nil }, symPkg+"Sequential")
	reg(func(fr *frame, a []Value) Value { fr.e.mapOrder = true; return nil }, symPkg+"AnyMapOrder")
	reg(func(fr *frame, a []Value) Value { fr.e.point("yield"); return nil }, symPkg+"Yield")
	reg(func(fr *frame, a []Value) Value {
		// blocks until the predicate holds
		e := fr.e
		f := a[0]
		e.blockUntil(func() bool { return e.asTerm(e.callValue(fr, f, nil)).isTrue() }, "wait")
		e.acqAll()
		return nil
	}, symPkg+"WaitUntil")
	reg(func(fr *frame, a []Value) Value {
		// Ite: select without forking
		e := fr.e
		return e.c.Ite(e.asTerm(a[0]), e.asTerm(a[1]), e.asTerm(a[2]))
	}, symPkg+"IteU64", symPkg+"IteI64", symPkg+"IteBool")
	reg(func(fr *frame, a []Value) Value { return fr.e.c.And(fr.e.asTerm(a[0]), fr.e.asTerm(a[1])) }, symPkg+"And")
	reg(func(fr *frame, a []Value) Value { return fr.e.c.Or(fr.e.asTerm(a[0]), fr.e.asTerm(a[1])) }, symPkg+"Or")
	reg(func(fr *frame, a []Value) Value {
		return fr.e.c.Or(fr.e.c.Not(fr.e.asTerm(a[0])), fr.e.asTerm(a[1]))
	}, symPkg+"Implies")
	reg(func(fr *frame, a []Value) Value { return fr.e.strEq(a[0], a[1]) }, symPkg+"StrEq")
	reg(func(fr *frame, a []Value) Value {
		s, _ := a[0].(Slice)
		t, _ := a[1].(Slice)
		return fr.e.elemsEq(s, t)
	}, symPkg+"BytesEq")
	reg(func(fr *frame, a []Value) Value { panic(pathEnd{"assume", "stop"}) }, symPkg+"Stop")
	// Try runs f and reports whether it panicked or exited, without ending the path
	reg(func(fr *frame, a []Value) (res Value) {
		e := fr.e
		e.w.note("") // no-op marker
		delete(e.w.notes, "")
		d := e.depth
		defer func() {
			if r := recover(); r != nil {
				if tp, ok := r.(targetPanic); ok {
					e.depth = d
					res = e.panicText(tp.v)
					return
				}
				panic(r)
			}
		}()
		e.callValue(fr, a[0], nil)
		return ""
	}, symPkg+"Try")
	// Exits is Try for code that may end the process
	reg(func(fr *frame, a []Value) (res Value) {
		e := fr.e
		e.w.note("") // no-op marker
		delete(e.w.notes, "")
		d := e.depth
		defer func() {
			if r := recover(); r != nil {
				if tp, ok := r.(targetPanic); ok {
					e.depth = d
					res = e.panicText(tp.v)
					return
				}
				panic(r)
			}
		}()
		e.exits++
		defer func() { e.exits-- }()
		e.callValue(fr, a[0], nil)
		return ""
	}, symPkg+"Exits")

	reg(func(fr *frame, a []Value) Value { return fr.e.num(1) }, "time.runtimeNano", "runtime.nanotime")
	reg(func(fr *frame, a []Value) Value { return (*Value)(nil) }, "github.com/pkg/errors.callers")

	// ---- sync
	reg(func(fr *frame, a []Value) Value { fr.e.lock(fr.ptr(a[0])); return nil },
		"(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*internal/sync.Mutex).Lock")
	reg(func(fr *frame, a []Value) Value { fr.e.unlock(fr.ptr(a[0])); return nil },
		"(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*internal/sync.Mutex).Unlock")
	reg(func(fr *frame, a []Value) Value { fr.e.rlock(fr.ptr(a[0])); return nil }, "(*sync.RWMutex).RLock")
	reg(func(fr *frame, a []Value) Value { fr.e.runlock(fr.ptr(a[0])); return nil }, "(*sync.RWMutex).RUnlock")
	reg(func(fr *frame, a []Value) Value {
		e := fr.e
		m := e.mutex(fr.ptr(a[0]))
		e.point("trylock")
		if m.locked || m.readers > 0 {
			return e.c.False
		}
		m.locked = true
		e.acq(m)
		if e.race != nil {
			e.cur.vc = e.cur.vc.join(e.race.rsyncs[m])
		}
		return e.c.True
	}, "(*sync.Mutex).TryLock", "(*sync.RWMutex).TryLock")
	reg(func(fr *frame, a []Value) Value {
		e := fr.e
		m := e.mutex(fr.ptr(a[0]))
		if m.locked {
			return e.c.False
		}
		m.readers++
		e.acq(m)
		return e.c.True
	}, "(*sync.RWMutex).TryRLock")
	wgc := func(e *Exec, p *Value) *int64 {
		c := e.wgs[p]
		if c == nil {
			c = new(int64)
			e.wgs[p] = c
		}
		return c
	}
	reg(func(fr *frame, a []Value) Value {
		c := wgc(fr.e, fr.ptr(a[0]))
		*c += int64(fr.e.concInt(a[1], "wg"))
		if *c < 0 {
			panic(fr.e.rtPanic("sync: negative WaitGroup counter"))
		}
		return nil
	}, "(*sync.WaitGroup).Add")
	reg(func(fr *frame, a []Value) Value {
		c := wgc(fr.e, fr.ptr(a[0]))
		fr.e.rel(c)
		*c--
		if *c < 0 {
			panic(fr.e.rtPanic("sync: negative WaitGroup counter"))
		}
		return nil
	}, "(*sync.WaitGroup).Done")
	reg(func(fr *frame, a []Value) Value {
		c := wgc(fr.e, fr.ptr(a[0]))
		fr.e.blockUntil(func() bool { return *c == 0 }, "waitgroup")
		fr.e.acq(c)
		return nil
	}, "(*sync.WaitGroup).Wait")
	reg(func(fr *frame, a []Value) Value {
		e := fr.e
		c := wgc(e, fr.ptr(a[0]))
		*c++
		g := e.newG(fmt.Sprintf("g%d", len(e.gs)))
		f := a[1]
		e.raceFork(g)
		e.startG(g, func() {
			e.callValue(&frame{e: e, g: g}, f, nil)
			e.rel(c)
			*c--
		})
		e.point("go")
		return nil
	}, "(*sync.WaitGroup).Go")
	reg(func(fr *frame, a []Value) Value {
		e := fr.e
		p := fr.ptr(a[0])
		o := e.onces[p]
		if o == nil {
			o = &onceState{}
			e.onces[p] = o
		}
		e.point("once")
		e.blockUntil(func() bool { return !o.running }, "once")
		if o.done {
			e.acq(o)
			return nil
		}
		o.running = true
		defer func() { e.rel(o); o.running = false; o.done = true }()
		e.callValue(fr, a[1], nil)
		return nil
	}, "(*sync.Once).Do")
	reg(func(fr *frame, a []Value) Value {
		e := fr.e
		p := fr.ptr(a[0])
		e.acq(p)
		if l := e.pools[p]; len(l) > 0 {
			v := l[len(l)-1]
			e.pools[p] = l[:len(l)-1]
			return v
		}
		i := fieldIndex(fr.fn.Signature.Recv().Type(), "New")
		f := (*p).(Struct)[i]
		if fn, ok := f.(*ssa.Function); ok && fn == nil {
			return Iface{}
		}
		return e.callValue(fr, f, nil)
	}, "(*sync.Pool).Get")
	reg(func(fr *frame, a []Value) Value {
		p := fr.ptr(a[0])
		fr.e.rel(p)
		fr.e.pools[p] = append(fr.e.pools[p], a[1])
		return nil
	}, "(*sync.Pool).Put")
	smap := func(fr *frame, v Value) *MapV {
		p := fr.ptr(v)
		m := fr.e.smaps[p]
		if m == nil {
			m = newMap()
			fr.e.smaps[p] = m
		}
		return m
	}
	anyT := types.NewInterfaceType(nil, nil)
	reg(func(fr *frame, a []Value) Value {
		fr.e.point("smap")
		fr.e.both(fr.ptr(a[0]))
		if en := fr.e.mapFind(anyT, smap(fr, a[0]), a[1]); en != nil {
			return Tuple{en.v, fr.e.c.True}
		}
		return Tuple{Iface{}, fr.e.c.False}
	}, "(*sync.Map).Load")
	reg(func(fr *frame, a []Value) Value {
		fr.e.point("smap")
		fr.e.both(fr.ptr(a[0]))
		fr.e.mapSet(anyT, smap(fr, a[0]), a[1], a[2])
		return nil
	}, "(*sync.Map).Store")
	reg(func(fr *frame, a []Value) Value {
		fr.e.point("smap")
		fr.e.both(fr.ptr(a[0]))
		m := smap(fr, a[0])
		if en := fr.e.mapFind(anyT, m, a[1]); en != nil {
			return Tuple{en.v, fr.e.c.True}
		}
		fr.e.mapSet(anyT, m, a[1], a[2])
		return Tuple{a[2], fr.e.c.False}
	}, "(*sync.Map).LoadOrStore")
	reg(func(fr *frame, a []Value) Value {
		fr.e.point("smap")
		fr.e.both(fr.ptr(a[0]))
		m := smap(fr, a[0])
		if en := fr.e.mapFind(anyT, m, a[1]); en != nil {
			v := en.v
			m.remove(en)
			return Tuple{v, fr.e.c.True}
		}
		return Tuple{Iface{}, fr.e.c.False}
	}, "(*sync.Map).LoadAndDelete")
	reg(func(fr *frame, a []Value) Value {
		fr.e.point("smap")
		fr.e.both(fr.ptr(a[0]))
		fr.e.mapDelete(anyT, smap(fr, a[0]), a[1])
		return nil
	}, "(*sync.Map).Delete")
	reg(func(fr *frame, a []Value) Value {
		fr.e.both(fr.ptr(a[0]))
		m := smap(fr, a[0])
		for _, en := range append([]*mapEntry{}, m.entries...) {
			if en.dead {
				continue
			}
			r := fr.e.callValue(fr, a[1], []Value{en.k, en.v})
			if !fr.e.branch(fr.e.asTerm(r), "sync.Map range") {
				break
			}
		}
		return nil
	}, "(*sync.Map).Range")

	// ---- atomics
	for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		reg(func(fr *frame, a []Value) Value {
			fr.e.point("atomic")
			fr.e.both(fr.ptr(a[0]))
			return copyVal(*fr.ptr(a[0]))
		}, "sync/atomic.Load"+t)
		reg(func(fr *frame, a []Value) Value {
			fr.e.point("atomic")
			fr.e.both(fr.ptr(a[0]))
			fr.e.store(a[0], a[1])
			return nil
		}, "sync/atomic.Store"+t)
		reg(func(fr *frame, a []Value) Value {
			fr.e.point("atomic")
			fr.e.both(fr.ptr(a[0]))
			old := *fr.ptr(a[0])
			fr.e.store(a[0], a[1])
			return old
		}, "sync/atomic.Swap"+t)
		reg(func(fr *frame, a []Value) Value {
			fr.e.point("atomic")
			fr.e.both(fr.ptr(a[0]))
			p := fr.ptr(a[0])
			n := fr.e.c.Add(fr.e.asTerm(*p), fr.e.asTerm(a[1]))
			fr.e.store(p, n)
			return n
		}, "sync/atomic.Add"+t)
		reg(func(fr *frame, a []Value) Value {
			fr.e.point("atomic")
			fr.e.both(fr.ptr(a[0]))
			p := fr.ptr(a[0])
			var eq *Term
			if x, ok := (*p).(*Term); ok {
				eq = fr.e.c.Eq(x, fr.e.asTerm(a[1]))
			} else {
				eq = fr.e.c.Bool(*p == a[1])
			}
			if fr.e.branch(eq, "cas") {
				fr.e.store(p, a[2])
				return fr.e.c.True
			}
			return fr.e.c.False
		}, "sync/atomic.CompareAndSwap"+t)
	}
	reg(func(fr *frame, a []Value) Value {
		fr.e.point("atomic")
		fr.e.both(fr.ptr(a[0]))
		if v, ok := fr.e.values[fr.ptr(a[0])]; ok {
			return v
		}
		return Iface{}
	}, "(*sync/atomic.Value).Load")
	reg(func(fr *frame, a []Value) Value {
		fr.e.point("atomic")
		fr.e.both(fr.ptr(a[0]))
		fr.e.values[fr.ptr(a[0])] = a[1]
		return nil
	}, "(*sync/atomic.Value).Store")
	reg(func(fr *frame, a []Value) Value {
		fr.e.point("atomic")
		fr.e.both(fr.ptr(a[0]))
		old, ok := fr.e.values[fr.ptr(a[0])]
		fr.e.values[fr.ptr(a[0])] = a[1]
		if !ok {
			return Iface{}
		}
		return old
	}, "(*sync/atomic.Value).Swap")

	// ---- runtime and friends
	reg(nop, "runtime.GC", "runtime.KeepAlive", "runtime.SetFinalizer", "runtime.LockOSThread", "runtime.UnlockOSThread",
		"internal/race.Acquire", "internal/race.Release", "internal/race.Enable", "internal/race.Disable",
		"internal/race.ReadRange", "internal/race.WriteRange", "internal/race.Read", "internal/race.Write",
		"os.Exit.hook", "fmt.Print", "fmt.Println", "fmt.Printf", "runtime/debug.PrintStack", "(*log.Logger).Printf",
		"(*internal/godebug.Setting).IncNonDefault")
	reg(func(fr *frame, a []Value) Value { return "" }, "(*internal/godebug.Setting).Value")
	reg(func(fr *frame, a []Value) Value { fr.e.point("gosched"); return nil }, "runtime.Gosched")
	reg(func(fr *frame, a []Value) Value { fr.e.processExit("os.Exit"); return nil }, "os.Exit")
	reg(func(fr *frame, a []Value) Value { return fr.e.num(1) }, "os.Getpid")
	reg(func(fr *frame, a []Value) Value { return "" }, "os.Getenv")

	// ---- math
	reg(func(fr *frame, a []Value) Value { return fr.e.c.Const(math.Float64bits(a[0].(float64)), 64) }, "math.Float64bits")
	reg(func(fr *frame, a []Value) Value {
		return math.Float64frombits(fr.e.concretize(fr.e.asTerm(a[0]), "float bits"))
	}, "math.Float64frombits")
	reg(func(fr *frame, a []Value) Value { return math.Floor(a[0].(float64)) }, "math.Floor")
	reg(func(fr *frame, a []Value) Value { return math.Ceil(a[0].(float64)) }, "math.Ceil")
	reg(func(fr *frame, a []Value) Value { return math.Round(a[0].(float64)) }, "math.Round")

	// ---- errors
	reg(func(fr *frame, a []Value) Value { return fr.e.c.Bool(fr.e.errorsIs(fr, a[0].(Iface), a[1].(Iface))) }, "errors.Is")
	reg(func(fr *frame, a []Value) Value { return fr.e.c.Bool(fr.e.errorsAs(fr, a[0].(Iface), a[1].(Iface))) }, "errors.As")

	// ---- sorting by a less function over indices
	reg(func(fr *frame, a []Value) Value {
		e := fr.e
		s, _ := a[0].(Iface).V.(Slice)
		// insertion sort on the real elements, calling less on indices
		for i := 1; i < len(s); i++ {
			for j := i; j > 0; j-- {
				r := e.callValue(fr, a[1], []Value{e.num(int64(j)), e.num(int64(j - 1))})
				if !e.branch(e.asTerm(r), "sort less") {
					break
				}
				x, y := copyVal(s[j]), copyVal(s[j-1])
				storeInto(&s[j], y)
				storeInto(&s[j-1], x)
			}
		}
		return nil
	}, "sort.Slice", "sort.SliceStable")

	// ---- strings
	reg(func(fr *frame, a []Value) Value { return fr.e.num(int64(fr.e.strIdx(a[0], a[1], 0))) }, "strings.Index", "internal/bytealg.IndexString", "internal/stringslite.Index")
	reg(func(fr *frame, a []Value) Value { return fr.e.c.Bool(fr.e.strIdx(a[0], a[1], 0) >= 0) }, "strings.Contains")
	reg(func(fr *frame, a []Value) Value {
		return fr.e.num(int64(fr.e.strIdx(a[0], mkStr([]Value{a[1]}), 0)))
	}, "strings.IndexByte", "internal/bytealg.IndexByteString", "internal/stringslite.IndexByte")
	reg(func(fr *frame, a []Value) Value {
		return fr.e.num(int64(fr.e.elemIdx(a[0].(Slice), []Value{a[1]}, 0)))
	}, "bytes.IndexByte", "internal/bytealg.IndexByte")
	reg(func(fr *frame, a []Value) Value {
		s, _ := a[0].(Slice)
		t, _ := a[1].(Slice)
		return fr.e.num(int64(fr.e.elemIdx(s, t, 0)))
	}, "bytes.Index", "internal/bytealg.Index")
	reg(func(fr *frame, a []Value) Value { return fr.e.num(int64(fr.e.strLastIdx(a[0], a[1]))) }, "strings.LastIndex")
	reg(func(fr *frame, a []Value) Value {
		return fr.e.num(int64(fr.e.strLastIdx(a[0], mkStr([]Value{a[1]}))))
	}, "strings.LastIndexByte", "internal/bytealg.LastIndexByteString")
	cnt := func(fr *frame, s, sub Value) Value {
		n, from := 0, 0
		l := strLen(sub)
		if l == 0 {
			return fr.e.num(int64(strLen(s) + 1))
		}
		for {
			i := fr.e.strIdx(s, sub, from)
			if i < 0 {
				return fr.e.num(int64(n))
			}
			n++
			from = i + l
		}
	}
	reg(func(fr *frame, a []Value) Value { return cnt(fr, a[0], a[1]) }, "strings.Count")
	reg(func(fr *frame, a []Value) Value { return cnt(fr, a[0], mkStr([]Value{a[1]})) }, "internal/bytealg.CountString")
	reg(func(fr *frame, a []Value) Value { return cnt(fr, mkStr(a[0].(Slice)), mkStr([]Value{a[1]})) }, "internal/bytealg.Count")
	reg(func(fr *frame, a []Value) Value {
		s, _ := a[0].(Slice)
		t, _ := a[1].(Slice)
		return fr.e.elemsEq(s, t)
	}, "bytes.Equal", "internal/bytealg.Equal")
	cmpf := func(fr *frame, x, y []Value) Value {
		e := fr.e
		lt := e.elemsLess(x, y)
		eq := e.elemsEq(x, y)
		return e.c.Ite(lt, e.num(-1), e.c.Ite(eq, e.num(0), e.num(1)))
	}
	reg(func(fr *frame, a []Value) Value {
		s, _ := a[0].(Slice)
		t, _ := a[1].(Slice)
		return cmpf(fr, s, t)
	}, "bytes.Compare", "internal/bytealg.Compare")
	reg(func(fr *frame, a []Value) Value {
		return cmpf(fr, strElems(fr.e.c, a[0]), strElems(fr.e.c, a[1]))
	}, "strings.Compare", "internal/bytealg.CompareString")
	reg(func(fr *frame, a []Value) Value {
		e := fr.e
		x, y := strElems(e.c, a[0]), strElems(e.c, a[1])
		if len(x) < len(y) {
			if !hasOpaque(x) {
				return e.c.False
			}
			if r := e.elemsEq(x[:min(len(x), len(y))], y[:min(len(x), len(y))]); r.isFalse() {
				return r
			}
			panic(unsupported("prefix test on opaque text"))
		}
		return e.elemsEq(x[:len(y)], y)
	}, "strings.HasPrefix", "internal/stringslite.HasPrefix")
	reg(func(fr *frame, a []Value) Value {
		e := fr.e
		x, y := strElems(e.c, a[0]), strElems(e.c, a[1])
		if len(x) < len(y) {
			return e.c.False
		}
		return e.elemsEq(x[len(x)-len(y):], y)
	}, "strings.HasSuffix", "internal/stringslite.HasSuffix")
	reg(func(fr *frame, a []Value) Value { return a[0] }, "strings.Clone", "internal/stringslite.Clone")
	caseMap := func(up bool) intrinsic {
		return func(fr *frame, a []Value) Value {
			e := fr.e
			if s, ok := a[0].(string); ok {
				if up {
					return strings.ToUpper(s)
				}
				return strings.ToLower(s)
			}
			var out []Value
			for _, x := range strElems(e.c, a[0]) {
				t, ok := x.(*Term)
				if !ok {
					out = append(out, x)
					continue
				}
				if t.uhi >= 0x80 && !e.branch(e.c.Ult(t, e.c.Const(0x80, 8)), "ascii") {
					panic(unsupported("case mapping of non-ASCII text"))
				}
				lo, hi, d := uint64('A'), uint64('Z'), uint64(32)
				if up {
					lo, hi, d = 'a', 'z', 224
				}
				in := e.c.And(e.c.Ule(e.c.Const(lo, 8), t), e.c.Ule(t, e.c.Const(hi, 8)))
				out = append(out, e.c.Ite(in, e.c.Add(t, e.c.Const(d, 8)), t))
			}
			return mkStr(out)
		}
	}
	reg(caseMap(true), "strings.ToUpper")
	reg(caseMap(false), "strings.ToLower")
	reg(func(fr *frame, a []Value) Value {
		if s, ok := a[0].(string); ok {
			return strings.TrimSpace(s)
		}
		e := fr.e
		x := strElems(e.c, a[0])
		sp := func(v Value) bool {
			t, ok := v.(*Term)
			if !ok {
				return false
			}
			c := e.c.Or(e.c.Eq(t, e.c.Const(' ', 8)), e.c.And(e.c.Ule(e.c.Const(9, 8), t), e.c.Ule(t, e.c.Const(13, 8))))
			return e.branch(c, "space")
		}
		for len(x) > 0 && sp(x[0]) {
			x = x[1:]
		}
		for len(x) > 0 && sp(x[len(x)-1]) {
			x = x[:len(x)-1]
		}
		return mkStr(x)
	}, "strings.TrimSpace")
	reg(func(fr *frame, a []Value) Value {
		s, _ := a[0].(Slice)
		var r []Value
		for i, x := range s {
			if i > 0 {
				r = append(r, strElems(fr.e.c, a[1])...)
			}
			r = append(r, strElems(fr.e.c, x)...)
		}
		return mkStr(r)
	}, "strings.Join")
	reg(func(fr *frame, a []Value) Value {
		x, ok1 := a[0].(string)
		y, ok2 := a[1].(string)
		if ok1 && ok2 {
			return fr.e.c.Bool(strings.EqualFold(x, y))
		}
		l := caseMap(false)
		return fr.e.strEq(l(fr, a[:1]), l(fr, a[1:]))
	}, "strings.EqualFold")
	for n, f := range map[string]func(string) bool{"unicode/utf8.ValidString": utf8.ValidString} {
		reg(func(fr *frame, a []Value) Value {
			e := fr.e
			if s, ok := a[0].(string); ok {
				return e.c.Bool(f(s))
			}
			for _, x := range strElems(e.c, a[0]) {
				if t, ok := x.(*Term); ok && t.uhi >= 0x80 {
					if !e.branch(e.c.Ult(t, e.c.Const(0x80, 8)), "ascii") {
						panic(unsupported("UTF-8 validity of symbolic text"))
					}
				}
			}
			return e.c.True
		}, n)
	}
	// strings.Builder
	bld := func(fr *frame, v Value) *Value { return fr.ptr(v) }
	reg(func(fr *frame, a []Value) Value {
		p := bld(fr, a[0])
		es := strElems(fr.e.c, a[1])
		fr.e.builder[p] = append(fr.e.builder[p], es...)
		return Tuple{fr.e.num(int64(len(es))), Iface{}}
	}, "(*strings.Builder).WriteString")
	reg(func(fr *frame, a []Value) Value {
		p := bld(fr, a[0])
		s, _ := a[1].(Slice)
		fr.e.builder[p] = append(fr.e.builder[p], s...)
		return Tuple{fr.e.num(int64(len(s))), Iface{}}
	}, "(*strings.Builder).Write")
	reg(func(fr *frame, a []Value) Value {
		p := bld(fr, a[0])
		fr.e.builder[p] = append(fr.e.builder[p], a[1])
		return Iface{}
	}, "(*strings.Builder).WriteByte")
	reg(func(fr *frame, a []Value) Value {
		p := bld(fr, a[0])
		s := fr.e.convert(types.Typ[types.String], types.Typ[types.Int32], a[1])
		es := strElems(fr.e.c, s)
		fr.e.builder[p] = append(fr.e.builder[p], es...)
		return Tuple{fr.e.num(int64(len(es))), Iface{}}
	}, "(*strings.Builder).WriteRune")
	reg(func(fr *frame, a []Value) Value { return mkStr(fr.e.builder[bld(fr, a[0])]) }, "(*strings.Builder).String")
	reg(func(fr *frame, a []Value) Value { return fr.e.num(int64(len(fr.e.builder[bld(fr, a[0])]))) }, "(*strings.Builder).Len", "(*strings.Builder).Cap")
	reg(func(fr *frame, a []Value) Value { delete(fr.e.builder, bld(fr, a[0])); return nil }, "(*strings.Builder).Reset")
	reg(nop, "(*strings.Builder).Grow")
	reg(func(fr *frame, a []Value) Value {
		n := fr.e.concInt(a[0], "len")
		s := make(Slice, n)
		for i := range s {
			s[i] = fr.e.c.Const(0, 8)
		}
		return s
	}, "internal/bytealg.MakeNoZero")

	// ---- strconv
	dec := func(e *Exec, t *Term, signed bool) Value {
		if t.isConst() {
			if signed {
				return strconv.FormatInt(sext(t.val, t.w), 10)
			}
			return strconv.FormatUint(t.val, 10)
		}
		return &SymStr{[]Value{e.mkDec(t, signed)}}
	}
	reg(func(fr *frame, a []Value) Value { return dec(fr.e, fr.e.asTerm(a[0]), true) }, "strconv.Itoa")
	reg(func(fr *frame, a []Value) Value {
		t := fr.e.asTerm(a[0])
		b := int(fr.e.constInt(a[1], "base"))
		if t.isConst() {
			return strconv.FormatInt(int64(t.val), b)
		}
		if b != 10 {
			return strconv.FormatInt(int64(fr.e.concretize(t, "FormatInt")), b)
		}
		return dec(fr.e, t, true)
	}, "strconv.FormatInt")
	reg(func(fr *frame, a []Value) Value {
		t := fr.e.asTerm(a[0])
		b := int(fr.e.constInt(a[1], "base"))
		if t.isConst() {
			return strconv.FormatUint(t.val, b)
		}
		if b != 10 {
			return strconv.FormatUint(fr.e.concretize(t, "FormatUint"), b)
		}
		return dec(fr.e, t, false)
	}, "strconv.FormatUint")
	reg(func(fr *frame, a []Value) Value { return fr.e.parseInt(fr, a[0], 10, 64, true, "Atoi") }, "strconv.Atoi")
	reg(func(fr *frame, a []Value) Value {
		return fr.e.parseInt(fr, a[0], int(fr.e.constInt(a[1], "base")), int(fr.e.constInt(a[2], "bits")), true, "ParseInt")
	}, "strconv.ParseInt")
	reg(func(fr *frame, a []Value) Value {
		return fr.e.parseInt(fr, a[0], int(fr.e.constInt(a[1], "base")), int(fr.e.constInt(a[2], "bits")), false, "ParseUint")
	}, "strconv.ParseUint")
	reg(func(fr *frame, a []Value) Value {
		s, ok := a[0].(string)
		if !ok {
			panic(unsupported("ParseFloat of symbolic text"))
		}
		f, err := strconv.ParseFloat(s, int(fr.e.constInt(a[1], "bits")))
		return Tuple{f, fr.e.errIf(err)}
	}, "strconv.ParseFloat")
	reg(func(fr *frame, a []Value) Value {
		f, ok := a[0].(float64)
		if !ok {
			panic(unsupported("symbolic float"))
		}
		e := fr.e
		return strconv.FormatFloat(f, byte(e.constInt(a[1], "format")), int(e.constInt(a[2], "precision")), int(e.constInt(a[3], "bits")))
	}, "strconv.FormatFloat")
	reg(func(fr *frame, a []Value) Value {
		s, ok := a[0].(string)
		if !ok {
			panic(unsupported("Quote of symbolic text"))
		}
		return strconv.Quote(s)
	}, "strconv.Quote")
}

func (e *Exec) mkDec(t *Term, signed bool) *Dec {
	if t.w < 64 {
		if signed {
			t = e.c.SExt(t, 64)
		} else {
			t = e.c.ZExt(t, 64)
		}
	}
	if signed && t.slo >= 0 {
		signed = false // same text either way
	}
	return &Dec{t: t, signed: signed}
}

func (e *Exec) errIf(err error) Value {
	if err == nil {
		return Iface{}
	}
	return e.mkError(err.Error())
}

func (e *Exec) parseInt(fr *frame, s Value, base, bits int, signed bool, fn string) Value {
	if bits == 0 {
		bits = 64
	}
	if cs, ok := s.(string); ok {
		if signed {
			n, err := strconv.ParseInt(cs, base, bits)
			return Tuple{e.c.Const(uint64(n), 64), e.errIf(err)}
		}
		n, err := strconv.ParseUint(cs, base, bits)
		return Tuple{e.c.Const(n, 64), e.errIf(err)}
	}
	ss := s.(*SymStr)
	if len(ss.e) == 1 && (base == 10 || base == 0) {
		if d, ok := ss.e[0].(*Dec); ok {
			var inr *Term
			t := d.t
			if signed {
				lo, hi := e.c.Const(uint64(smin(uint8(bits))), 64), e.c.Const(uint64(smax(uint8(bits))), 64)
				inr = e.c.And(e.c.Sle(lo, t), e.c.Sle(t, hi))
				if !d.signed {
					inr = e.c.And(inr, e.c.Sle(e.c.Const(0, 64), t))
				}
			} else {
				inr = e.c.Ule(t, e.c.Const(mask(uint8(bits)), 64))
				if d.signed {
					if e.branch(e.c.Slt(t, e.c.Const(0, 64)), "sign") {
						return Tuple{e.num(0), e.mkError("strconv." + fn + ": parsing: invalid syntax")}
					}
				}
			}
			if e.branch(inr, "number range") {
				return Tuple{t, Iface{}}
			}
			// out of range: the nearest value is returned
			v := e.c.Const(mask(uint8(bits)), 64)
			if signed {
				v = e.c.Ite(e.c.And(e.c.Bool(d.signed), e.c.Slt(t, e.c.Const(0, 64))), e.c.Const(uint64(smin(uint8(bits))), 64), e.c.Const(uint64(smax(uint8(bits))), 64))
			}
			return Tuple{v, e.mkError("strconv." + fn + ": parsing: value out of range")}
		}
	}
	// symbolic bytes: decide digit-ness of each byte
	if hasOpaque(ss.e) {
		panic(unsupported("number parsing of opaque text"))
	}
	if len(ss.e) > 18 {
		panic(unsupported("number parsing of long symbolic text"))
	}
	x := ss.e
	neg := false
	bad := func() Value {
		return Tuple{e.num(0), e.mkError("strconv." + fn + ": parsing: invalid syntax")}
	}
	if signed && len(x) > 0 {
		if e.branch(e.c.Eq(e.asTerm(x[0]), e.c.Const('-', 8)), "minus") {
			neg = true
			x = x[1:]
		} else if e.branch(e.c.Eq(e.asTerm(x[0]), e.c.Const('+', 8)), "plus") {
			x = x[1:]
		}
	}
	if len(x) == 0 {
		return bad()
	}
	v := e.num(0)
	for _, b := range x {
		t := e.asTerm(b)
		ok := e.c.And(e.c.Ule(e.c.Const('0', 8), t), e.c.Ule(t, e.c.Const('9', 8)))
		if !e.branch(ok, "digit") {
			return bad()
		}
		v = e.c.Add(e.c.Mul(v, e.num(10)), e.c.ZExt(e.c.Sub(t, e.c.Const('0', 8)), 64))
	}
	if neg {
		v = e.c.Neg(v)
	}
	if bits < 60 {
		var inr *Term
		if signed {
			inr = e.c.And(e.c.Sle(e.c.Const(uint64(smin(uint8(bits))), 64), v), e.c.Sle(v, e.c.Const(uint64(smax(uint8(bits))), 64)))
		} else {
			inr = e.c.Ule(v, e.c.Const(mask(uint8(bits)), 64))
		}
		if !e.branch(inr, "number range") {
			return Tuple{v, e.mkError("strconv." + fn + ": parsing: value out of range")}
		}
	}
	return Tuple{v, Iface{}}
}

func hasOpaque(x []Value) bool {
	for _, v := range x {
		if _, ok := v.(*Term); !ok {
			return true
		}
	}
	return false
}

func (e *Exec) strIdx(s, sub Value, from int) int {
	if a, ok := s.(string); ok {
		if b, ok := sub.(string); ok {
			i := strings.Index(a[from:], b)
			if i < 0 {
				return -1
			}
			return i + from
		}
	}
	return e.elemIdx(strElems(e.c, s), strElems(e.c, sub), from)
}

func (e *Exec) elemIdx(x, y []Value, from int) int {
	for i := from; i+len(y) <= len(x); i++ {
		if e.winMatch(x, y, i) {
			return i
		}
	}
	return -1
}

// winMatch decides whether y occurs in x at i. Decimal text contains only
// digits and '-', so it never matches another constant byte.
func (e *Exec) winMatch(x, y []Value, i int) bool {
	c := e.c.True
	for j := range y {
		if d, ok := x[i+j].(*Dec); ok {
			if t, ok := y[j].(*Term); ok && t.isConst() && !(t.val >= '0' && t.val <= '9') && t.val != '-' {
				return false
			}
			_ = d
			panic(unsupported("search in decimal text"))
		}
		if _, ok := x[i+j].(*Term); !ok {
			if _, ok := y[j].(*Term); ok {
				return false
			}
		}
		c = e.c.And(c, e.elemEq(x[i+j], y[j]))
		if c.isFalse() {
			return false
		}
	}
	return e.branch(c, "substring")
}

func (e *Exec) strLastIdx(s, sub Value) int {
	x, y := strElems(e.c, s), strElems(e.c, sub)
	for i := len(x) - len(y); i >= 0; i-- {
		if e.winMatch(x, y, i) {
			return i
		}
	}
	return -1
}

// ---- errors

func (e *Exec) callMethod(fr *frame, x Iface, name string, args ...Value) (Value, bool) {
	if x.T == nil {
		return nil, false
	}
	f := e.eng.methodByName(x.T, name)
	if f == nil {
		return nil, false
	}
	return e.callSSA(fr, f, append([]Value{copyVal(x.V)}, args...), nil), true
}

func (e *Exec) unwrap(fr *frame, err Iface) []Iface {
	f := e.eng.methodByName(err.T, "Unwrap")
	if f == nil || f.Signature.Results().Len() != 1 {
		return nil
	}
	r := e.callSSA(fr, f, []Value{copyVal(err.V)}, nil)
	switch r := r.(type) {
	case Iface:
		if r.T != nil {
			return []Iface{r}
		}
	case Slice:
		var out []Iface
		for _, x := range r {
			out = append(out, x.(Iface))
		}
		return out
	}
	return nil
}

func (e *Exec) errorsIs(fr *frame, err, target Iface) bool {
	if err.T == nil || target.T == nil {
		return err.T == nil && target.T == nil
	}
	if types.Comparable(target.T) && types.Identical(err.T, target.T) {
		if e.branch(e.equal(err.T, err.V, target.V), "errors.Is") {
			return true
		}
	}
	if f := e.eng.methodByName(err.T, "Is"); f != nil && f.Signature.Params().Len() == 1 {
		if e.branch(e.asTerm(e.callSSA(fr, f, []Value{copyVal(err.V), target}, nil)), "errors.Is") {
			return true
		}
	}
	for _, u := range e.unwrap(fr, err) {
		if e.errorsIs(fr, u, target) {
			return true
		}
	}
	return false
}

func (e *Exec) errorsAs(fr *frame, err, target Iface) bool {
	if err.T == nil {
		return false
	}
	pt, ok := target.T.Underlying().(*types.Pointer)
	if !ok {
		panic(e.rtPanic("errors: target must be a non-nil pointer"))
	}
	p := fr.ptr(target.V)
	if it, ok := pt.Elem().Underlying().(*types.Interface); ok {
		if e.eng.implements(err.T, it) {
			storeInto(p, err)
			return true
		}
	} else if types.Identical(err.T, pt.Elem()) {
		storeInto(p, copyVal(err.V))
		return true
	}
	for _, u := range e.unwrap(fr, err) {
		if e.errorsAs(fr, u, target) {
			return true
		}
	}
	return false
}
