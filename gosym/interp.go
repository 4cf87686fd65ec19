package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type deferred struct {
	fn   Value
	args []Value
	ins  *ssa.Defer
}

type frame struct {
	e         *Exec
	g         *G
	caller    *frame
	fn        *ssa.Function
	info      *fnInfo
	regs      []Value
	env       []Value
	block     *ssa.BasicBlock
	prev      *ssa.BasicBlock
	defers    []deferred
	result    Value
	panicking bool
	panicV    interface{}
	visits    map[*ssa.BasicBlock]int
}

type fnInfo struct {
	idx   map[ssa.Value]int
	n     int
	pure  int // 0 unknown, 1 yes, 2 no
	quick bool

	tracked bool // doq's own code, for the race detector
}

var fnInfos sync.Map

func infoOf(fn *ssa.Function) *fnInfo {
	if x, ok := fnInfos.Load(fn); ok {
		return x.(*fnInfo)
	}
	fi := &fnInfo{idx: map[ssa.Value]int{}, tracked: tracked(fn)}
	add := func(v ssa.Value) {
		fi.idx[v] = fi.n
		fi.n++
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	x, _ := fnInfos.LoadOrStore(fn, fi)
	return x.(*fnInfo)
}

func (fr *frame) get(v ssa.Value) Value {
	switch v := v.(type) {
	case *ssa.Const:
		return fr.e.constVal(v)
	case *ssa.Global:
		return fr.e.global(v)
	case *ssa.Function:
		return v
	case *ssa.Builtin:
		return v
	case *ssa.FreeVar:
		for i, f := range fr.fn.FreeVars {
			if f == v {
				return fr.env[i]
			}
		}
	case nil:
		return nil
	}
	if i, ok := fr.info.idx[v]; ok {
		return fr.regs[i]
	}
	panic(engineBug("get: no value for " + v.Name()))
}

func (fr *frame) set(v ssa.Value, x Value) { fr.regs[fr.info.idx[v]] = x }

func (e *Exec) constVal(k *ssa.Const) Value {
	if e.w != nil && !e.base {
		if v, ok := e.w.consts[k]; ok {
			return v
		}
		v := e.mkConst(k)
		switch v.(type) {
		case *Term, string, float64:
			e.w.consts[k] = v
		}
		return v
	}
	return e.mkConst(k)
}

func (e *Exec) mkConst(k *ssa.Const) Value {
	t := k.Type()
	if k.Value == nil {
		return e.zero(t)
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		// type parameter core types etc.
		panic(unsupported("constant of type %s", t))
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return e.c.Bool(constant.BoolVal(k.Value))
	case b.Info()&types.IsInteger != 0:
		x := constant.ToInt(k.Value)
		if i, ok := constant.Int64Val(x); ok {
			return e.c.Const(uint64(i), width(b))
		}
		u, _ := constant.Uint64Val(x)
		return e.c.Const(u, width(b))
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(k.Value)
		return f
	case b.Info()&types.IsString != 0:
		if k.Value.Kind() == constant.String {
			return constant.StringVal(k.Value)
		}
		i, _ := constant.Int64Val(constant.ToInt(k.Value))
		return string(rune(i))
	case b.Info()&types.IsComplex != 0:
		return complex128(0)
	}
	panic(unsupported("constant %s", k))
}

func (e *Exec) rtPanic(msg string) targetPanic {
	return targetPanic{e.mkError("runtime error: " + msg)}
}

// mkError builds an error value (*errors.errorString).
func (e *Exec) mkError(msg Value) Value {
	return Iface{T: e.eng.errStringPtr, V: ptrTo(Struct{msg})}
}

func ptrTo(v Value) *Value { return &v }

func (e *Exec) panicText(v Value) string {
	if i, ok := v.(Iface); ok {
		if i.T == nil {
			return "nil"
		}
		if types.Identical(i.T, e.eng.errStringPtr) {
			if p, ok := i.V.(*Value); ok && p != nil {
				if s, ok := (*p).(Struct); ok {
					if x, ok := s[0].(string); ok {
						return x
					}
				}
			}
		}
		return types.TypeString(i.T, nil) + " " + e.render(i.V, 3)
	}
	return e.render(v, 3)
}

const maxSteps = 200000000
const maxDepth = 1500
const maxVisits = 20000

// callSSA runs fn to completion and returns its result.
func (e *Exec) callSSA(caller *frame, fn *ssa.Function, args []Value, env []Value) Value {
	name := fnName(fn)
	if !e.base || true {
		if r, ok := e.eng.replace[name]; ok && r != fn && !e.base {
			e.eng.used(name + " (modelled by " + r.Name() + ")")
			fn = r
			name = fnName(fn)
		}
		if f, ok := intrinsics[name]; ok {
			return f(&frame{e: e, g: e.cur, caller: caller, fn: fn}, args)
		}
		if e.eng.isSkip(fn) {
			return e.skipCall(fn, args)
		}
	}
	if fn.Blocks == nil {
		if o := fn.Origin(); o != nil && o != fn {
			if f, ok := intrinsics[fnName(o)]; ok {
				return f(&frame{e: e, g: e.cur, caller: caller, fn: fn}, args)
			}
		}
		panic(unsupported("no body for %s", name))
	}
	if o := fn.Origin(); o != nil && o != fn {
		if f, ok := intrinsics[fnName(o)]; ok {
			return f(&frame{e: e, g: e.cur, caller: caller, fn: fn}, args)
		}
	}
	if !e.base {
		e.w.useFunc(fn)
	}
	info := infoOf(fn)
	if e.merging == 0 && !e.base && e.eng.mergeable(fn, info) {
		if v, ok := e.tryMerge(caller, fn, args, env); ok {
			return v
		}
	}
	e.depth++
	if e.depth > maxDepth {
		panic(pathEnd{"bound", "call depth bound in " + name})
	}
	fr := &frame{e: e, g: e.cur, caller: caller, fn: fn, info: info, regs: make([]Value, info.n), env: env}
	for i, p := range fn.Params {
		fr.regs[info.idx[p]] = args[i]
	}
	for _, l := range fn.Locals {
		// allocated when the Alloc instruction runs
		_ = l
	}
	fr.block = fn.Blocks[0]
	d := e.depth
	for fr.block != nil {
		e.runFrame(fr)
		e.depth = d
	}
	e.depth--
	return fr.result
}

func (e *Exec) runFrame(fr *frame) {
	defer func() {
		if fr.block == nil {
			return // normal return
		}
		r := recover()
		if r == nil {
			return
		}
		if _, ok := r.(targetPanic); !ok {
			panic(r)
		}
		fr.panicking = true
		fr.panicV = r
		fr.runDefers()
		if fr.fn.Recover == nil {
			fr.result = fr.e.zeroResult(fr.fn)
		}
		fr.prev, fr.block = fr.block, fr.fn.Recover
	}()
	for {
		b := fr.block
		if fr.visits == nil {
			fr.visits = map[*ssa.BasicBlock]int{}
		}
		fr.visits[b]++
		if fr.visits[b] > maxVisits {
			panic(pathEnd{"bound", "loop bound in " + fnName(fr.fn)})
		}
		next := false
		for _, in := range b.Instrs {
			e.steps++
			if e.steps > maxSteps {
				panic(pathEnd{"bound", "step bound in " + fnName(fr.fn)})
			}
			switch fr.exec(in) {
			case cReturn:
				return
			case cJump:
				next = true
			}
			if next {
				break
			}
		}
		if !next {
			panic(engineBug("fell off block"))
		}
	}
}

func (e *Exec) zeroResult(fn *ssa.Function) Value {
	rs := fn.Signature.Results()
	switch rs.Len() {
	case 0:
		return nil
	case 1:
		return e.zero(rs.At(0).Type())
	}
	return e.zero(rs)
}

func (fr *frame) runDefers() {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(targetPanic); !ok {
						panic(r)
					}
					fr.panicking = true
					fr.panicV = r
				}
			}()
			fr.e.callValue(fr, d.fn, d.args)
		}()
	}
	if fr.panicking {
		panic(fr.panicV)
	}
}

type cont int

const (
	cNext cont = iota
	cReturn
	cJump
)

func (fr *frame) exec(in ssa.Instruction) cont {
	e := fr.e
	switch in := in.(type) {
	case *ssa.DebugRef:
	case *ssa.UnOp:
		fr.set(in, fr.unop(in, fr.get(in.X)))
	case *ssa.BinOp:
		fr.set(in, e.binop(in.Op, in.X.Type(), fr.get(in.X), fr.get(in.Y), in.Y.Type()))
	case *ssa.Call:
		fn, args := fr.prepareCall(&in.Call)
		fr.set(in, e.callValue(fr, fn, args))
	case *ssa.ChangeInterface:
		fr.set(in, fr.get(in.X))
	case *ssa.ChangeType:
		fr.set(in, fr.get(in.X))
	case *ssa.Convert:
		fr.set(in, e.convert(in.Type(), in.X.Type(), fr.get(in.X)))
	case *ssa.MultiConvert:
		fr.set(in, e.convert(in.Type(), in.X.Type(), fr.get(in.X)))
	case *ssa.SliceToArrayPointer:
		s := fr.get(in.X).(Slice)
		n := int(in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if len(s) < n {
			panic(e.rtPanic("cannot convert slice to array pointer"))
		}
		if n == 0 {
			fr.set(in, ptrTo(Array{}))
			break
		}
		panic(unsupported("slice to array pointer"))
	case *ssa.MakeInterface:
		fr.set(in, Iface{T: in.X.Type(), V: copyVal(fr.get(in.X))})
	case *ssa.Extract:
		t := fr.get(in.Tuple)
		if p, ok := t.(Poison); ok {
			fr.set(in, p)
			break
		}
		fr.set(in, t.(Tuple)[in.Index])
	case *ssa.Slice:
		fr.set(in, fr.sliceOp(in))
	case *ssa.Return:
		switch len(in.Results) {
		case 0:
		case 1:
			fr.result = fr.get(in.Results[0])
		default:
			t := make(Tuple, len(in.Results))
			for i, r := range in.Results {
				t[i] = fr.get(r)
			}
			fr.result = t
		}
		fr.block = nil
		return cReturn
	case *ssa.RunDefers:
		fr.runDefers()
	case *ssa.Panic:
		panic(targetPanic{fr.get(in.X)})
	case *ssa.Send:
		c := fr.get(in.Chan).(*ChanV)
		e.doSelect([]selCase{{true, c, copyVal(fr.get(in.X))}}, true)
	case *ssa.Store:
		p := fr.get(in.Addr)
		if e.race != nil {
			if q, ok := p.(*Value); ok && q != nil {
				fr.access(q, true)
			}
		}
		e.store(p, copyVal(fr.get(in.Val)))
	case *ssa.If:
		c := fr.get(in.Cond)
		ct := e.asTerm(c)
		k := 1
		if ct.isConst() {
			if ct.val == 1 {
				k = 0
			}
		} else if e.branch(ct, "if in "+fnName(fr.fn)) {
			k = 0
		}
		fr.jump(fr.block.Succs[k])
		return cJump
	case *ssa.Jump:
		fr.jump(fr.block.Succs[0])
		return cJump
	case *ssa.Defer:
		fn, args := fr.prepareCall(&in.Call)
		target := fr
		if in.DeferStack != nil {
			if ds, ok := fr.get(in.DeferStack).(*frame); ok && ds != nil {
				target = ds
			}
		}
		target.defers = append(target.defers, deferred{fn: fn, args: args, ins: in})
	case *ssa.Go:
		fn, args := fr.prepareCall(&in.Call)
		if e.base {
			break
		}
		if e.eng.goHook(e, fr, in) {
			break
		}
		g := e.newG(fmt.Sprintf("g%d", len(e.gs)) + ":" + shortName(fn))
		e.raceFork(g)
		e.startG(g, func() {
			e.callValue(&frame{e: e, g: g}, fn, args)
		})
		e.point("go")
	case *ssa.MakeChan:
		n := e.concInt(fr.get(in.Size), "chan size")
		fr.set(in, &ChanV{cap: n})
	case *ssa.Alloc:
		p := ptrTo(e.zero(in.Type().Underlying().(*types.Pointer).Elem()))
		fr.set(in, p)
	case *ssa.MakeSlice:
		n := e.concInt(fr.get(in.Len), "slice length")
		cp := e.concInt(fr.get(in.Cap), "slice capacity")
		if n < 0 {
			panic(e.rtPanic("makeslice: len out of range"))
		}
		if cp < n {
			panic(e.rtPanic("makeslice: cap out of range"))
		}
		if n > 1<<20 {
			panic(unsupported("huge slice"))
		}
		if cp > 1<<16 {
			cp = n
		}
		et := in.Type().Underlying().(*types.Slice).Elem()
		s := make(Slice, cp)
		for i := range s {
			s[i] = e.zero(et)
		}
		fr.set(in, s[:n])
	case *ssa.MakeMap:
		fr.set(in, newMap())
	case *ssa.Range:
		fr.set(in, fr.rangeOp(in))
	case *ssa.Next:
		fr.set(in, fr.nextOp(in))
	case *ssa.FieldAddr:
		p := fr.ptr(fr.get(in.X))
		s, ok := (*p).(Struct)
		if !ok {
			if po, ok := (*p).(Poison); ok {
				panic(unsupported("poison: %s", po.why))
			}
			panic(unsupported("field address in %T (%s)", *p, fnName(fr.fn)))
		}
		fr.set(in, &s[in.Field])
	case *ssa.Field:
		x := fr.get(in.X)
		if po, ok := x.(Poison); ok {
			panic(unsupported("poison: %s", po.why))
		}
		fr.set(in, x.(Struct)[in.Field])
	case *ssa.IndexAddr:
		fr.set(in, fr.indexAddr(in))
	case *ssa.Index:
		x := fr.get(in.X)
		switch x := x.(type) {
		case Array:
			i := fr.index(in.Index, len(x))
			fr.set(in, x[i])
		case string, *SymStr:
			n := strLen(x)
			t := fr.idxTerm(in.Index, n)
			if cs, ok := x.(string); ok && !t.isConst() {
				if v := e.table(t, n, func(i int) Value { return e.c.Const(uint64(cs[i]), 8) }); v != nil {
					fr.set(in, v)
					break
				}
			}
			fr.set(in, e.strIndex(x, fr.index(in.Index, n)))
		default:
			panic(unsupported("index of %T", x))
		}
	case *ssa.Lookup:
		fr.set(in, fr.lookup(in))
	case *ssa.MapUpdate:
		m, _ := fr.get(in.Map).(*MapV)
		if m == nil {
			panic(targetPanic{e.mkError("assignment to entry in nil map")})
		}
		if e.race != nil {
			fr.access(m, true)
		}
		kt := in.Map.Type().Underlying().(*types.Map).Key()
		e.mapSet(kt, m, copyVal(fr.get(in.Key)), copyVal(fr.get(in.Value)))
	case *ssa.TypeAssert:
		fr.set(in, fr.typeAssert(in))
	case *ssa.MakeClosure:
		var env []Value
		for _, b := range in.Bindings {
			env = append(env, fr.get(b))
		}
		fr.set(in, &Closure{in.Fn.(*ssa.Function), env})
	case *ssa.Phi:
		// handled on block entry
	case *ssa.Select:
		fr.set(in, fr.selectOp(in))
	default:
		panic(unsupported("instruction %T", in))
	}
	return cNext
}

func shortName(fn Value) string {
	switch f := fn.(type) {
	case *ssa.Function:
		return f.Name()
	case *Closure:
		return f.Fn.Name()
	}
	return "func"
}

func (fr *frame) jump(to *ssa.BasicBlock) {
	fr.prev, fr.block = fr.block, to
	// parallel phi evaluation
	var vals []Value
	var phis []*ssa.Phi
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for i, p := range to.Preds {
			if p == fr.prev {
				vals = append(vals, fr.get(ph.Edges[i]))
				phis = append(phis, ph)
				break
			}
		}
	}
	for i, ph := range phis {
		fr.set(ph, vals[i])
	}
}

func (fr *frame) ptr(v Value) *Value {
	p, ok := v.(*Value)
	if !ok {
		if po, ok := v.(Poison); ok {
			panic(unsupported("poison: %s", po.why))
		}
		panic(unsupported("pointer %T", v))
	}
	if p == nil {
		panic(fr.e.rtPanic("invalid memory address or nil pointer dereference"))
	}
	return p
}

func (e *Exec) store(pv Value, v Value) {
	p, ok := pv.(*Value)
	if !ok {
		if po, ok := pv.(Poison); ok {
			panic(unsupported("poison: %s", po.why))
		}
		panic(unsupported("store to %T", pv))
	}
	if p == nil {
		panic(e.rtPanic("invalid memory address or nil pointer dereference"))
	}
	if e.merging > 0 {
		panic(mergeAbort{})
	}
	storeInto(p, v)
}

func (e *Exec) concInt(v Value, why string) int {
	t := e.asTerm(v)
	if !t.isConst() {
		return int(sext(e.concretize(t, why), t.w))
	}
	return int(sext(t.val, t.w))
}

// idxTerm is the index as a 64-bit term, within bounds (forking on failure).
func (fr *frame) idxTerm(x ssa.Value, n int) *Term {
	e := fr.e
	t := e.asTerm(fr.get(x))
	if t.w < 64 {
		if isSigned(x.Type()) {
			t = e.c.SExt(t, 64)
		} else {
			t = e.c.ZExt(t, 64)
		}
	}
	if t.isConst() {
		if i := int64(t.val); i < 0 || i >= int64(n) {
			panic(e.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, n)))
		}
		return t
	}
	if !e.branch(e.c.Ult(t, e.c.Const(uint64(n), 64)), "index bound") {
		panic(e.rtPanic(fmt.Sprintf("index out of range with length %d", n)))
	}
	return t
}

// index checks bounds and concretizes.
func (fr *frame) index(x ssa.Value, n int) int {
	t := fr.idxTerm(x, n)
	if t.isConst() {
		return int(t.val)
	}
	return int(fr.e.concretize(t, "index"))
}

// table reads a constant table at a symbolic index (nil if it is not one).
func (e *Exec) table(t *Term, n int, at func(int) Value) Value {
	if n == 0 || n > 4096 {
		return nil
	}
	var r *Term
	for i := n - 1; i >= 0; i-- {
		v, ok := at(i).(*Term)
		if !ok || !v.isConst() {
			return nil
		}
		if r == nil {
			r = v
			continue
		}
		nx := at(i + 1).(*Term)
		if nx != v {
			// below or at i: v…, above: what was built so far
			r = e.c.Ite(e.c.Ult(t, e.c.Const(uint64(i+1), 64)), v, r)
		}
	}
	return r
}

// onlyLoaded: the address is used just to load from it, in the same block.
func onlyLoaded(in *ssa.IndexAddr) bool {
	for _, r := range *in.Referrers() {
		u, ok := r.(*ssa.UnOp)
		if !ok || u.Block() != in.Block() {
			return false
		}
	}
	for k, x := range in.Block().Instrs {
		if x == ssa.Instruction(in) {
			for _, y := range in.Block().Instrs[k+1:] {
				switch y := y.(type) {
				case *ssa.UnOp:
					if y.X == ssa.Value(in) {
						return true
					}
				case *ssa.Store, *ssa.Call, *ssa.MapUpdate:
					return false
				}
			}
		}
	}
	return false
}

func (e *Exec) strIndex(x Value, i int) Value {
	switch x := x.(type) {
	case string:
		return e.c.Const(uint64(x[i]), 8)
	case *SymStr:
		return x.e[i]
	}
	panic(engineBug("strIndex"))
}

func (fr *frame) indexAddr(in *ssa.IndexAddr) Value {
	x := fr.get(in.X)
	switch x := x.(type) {
	case Slice:
		t := fr.idxTerm(in.Index, len(x))
		if !t.isConst() && onlyLoaded(in) {
			if v := fr.e.table(t, len(x), func(i int) Value { return x[i] }); v != nil {
				return &v
			}
		}
		i := fr.index(in.Index, len(x))
		return &x[i]
	case *Value:
		p := fr.ptr(x)
		a, ok := (*p).(Array)
		if !ok {
			panic(unsupported("index address in %T", *p))
		}
		t := fr.idxTerm(in.Index, len(a))
		if !t.isConst() && onlyLoaded(in) {
			if v := fr.e.table(t, len(a), func(i int) Value { return a[i] }); v != nil {
				return &v
			}
		}
		i := fr.index(in.Index, len(a))
		return &a[i]
	case Poison:
		panic(unsupported("poison: %s", x.why))
	}
	panic(unsupported("indexAddr of %T", x))
}

func (fr *frame) lookup(in *ssa.Lookup) Value {
	e := fr.e
	x := fr.get(in.X)
	switch m := x.(type) {
	case string, *SymStr:
		n := strLen(m)
		i := fr.index(in.Index, n)
		return e.strIndex(m, i)
	case *MapV:
		mt := in.X.Type().Underlying().(*types.Map)
		k := fr.get(in.Index)
		if i, ok := k.(Iface); ok && i.T != nil && !types.Comparable(i.T) {
			panic(e.rtPanic("hash of unhashable type " + i.T.String()))
		}
		if e.race != nil && m != nil {
			fr.access(m, false)
		}
		en := e.mapFind(mt.Key(), m, k)
		var v Value
		ok := en != nil
		if ok {
			v = copyVal(en.v)
		} else {
			v = e.zero(mt.Elem())
		}
		if in.CommaOk {
			return Tuple{v, e.c.Bool(ok)}
		}
		return v
	case Poison:
		panic(unsupported("poison: %s", m.why))
	}
	panic(unsupported("lookup in %T", x))
}

func (fr *frame) sliceOp(in *ssa.Slice) Value {
	e := fr.e
	x := fr.get(in.X)
	get := func(v ssa.Value, def int) int {
		if v == nil {
			return def
		}
		return e.concInt(fr.get(v), "slice bound")
	}
	oob := func() targetPanic { return e.rtPanic("slice bounds out of range") }
	switch s := x.(type) {
	case string, *SymStr:
		n := strLen(s)
		lo, hi := get(in.Low, 0), get(in.High, n)
		if lo < 0 || hi > n || lo > hi {
			panic(oob())
		}
		if c, ok := s.(string); ok {
			return c[lo:hi]
		}
		return mkStr(s.(*SymStr).e[lo:hi])
	case Slice:
		lo, hi := get(in.Low, 0), get(in.High, len(s))
		mx := get(in.Max, cap(s))
		if lo < 0 || hi > cap(s) || lo > hi || mx > cap(s) || hi > mx {
			panic(oob())
		}
		if s == nil {
			return Slice(nil)
		}
		return s[lo:hi:mx]
	case *Value:
		p := fr.ptr(s)
		a := (*p).(Array)
		lo, hi := get(in.Low, 0), get(in.High, len(a))
		mx := get(in.Max, len(a))
		if lo < 0 || hi > len(a) || lo > hi || mx > len(a) || hi > mx {
			panic(oob())
		}
		return Slice(a)[lo:hi:mx]
	case Poison:
		panic(unsupported("poison: %s", s.why))
	}
	panic(unsupported("slice of %T", x))
}

func (fr *frame) rangeOp(in *ssa.Range) Value {
	e := fr.e
	x := fr.get(in.X)
	switch m := x.(type) {
	case *MapV:
		it := &rangeIter{m: m}
		if m != nil {
			it.ents = append(it.ents, m.entries...)
			if e.mapOrder && len(it.ents) > 1 {
				var out []*mapEntry
				rest := it.ents
				for len(rest) > 0 {
					i := e.choose(len(rest), "map order")
					out = append(out, rest[i])
					r2 := append([]*mapEntry{}, rest[:i]...)
					rest = append(r2, rest[i+1:]...)
				}
				it.ents = out
			}
		}
		return it
	case string, *SymStr:
		return &rangeIter{s: strElems(e.c, m), str: true}
	}
	panic(unsupported("range over %T", x))
}

func (fr *frame) nextOp(in *ssa.Next) Value {
	e := fr.e
	it := fr.get(in.Iter).(*rangeIter)
	if it.str {
		if it.i >= len(it.s) {
			return Tuple{e.c.False, e.c.Const(0, 64), e.c.Const(0, 32)}
		}
		i := it.i
		b := e.asTerm(it.s[i])
		if b.isConst() && b.val < 0x80 {
			it.i++
			return Tuple{e.c.True, e.c.Const(uint64(i), 64), e.c.ZExt(b, 32)}
		}
		if !b.isConst() {
			if !e.branch(e.c.Ult(b, e.c.Const(0x80, 8)), "ascii") {
				panic(unsupported("range over non-ASCII symbolic text"))
			}
			it.i++
			return Tuple{e.c.True, e.c.Const(uint64(i), 64), e.c.ZExt(b, 32)}
		}
		// concrete multi-byte rune
		var buf []byte
		for j := i; j < len(it.s) && j < i+4; j++ {
			t := e.asTerm(it.s[j])
			if !t.isConst() {
				break
			}
			buf = append(buf, byte(t.val))
		}
		r, sz := decodeRune(buf)
		it.i += sz
		return Tuple{e.c.True, e.c.Const(uint64(i), 64), e.c.Const(uint64(r), 32)}
	}
	if e.race != nil && it.m != nil {
		fr.access(it.m, false)
	}
	for it.i < len(it.ents) {
		en := it.ents[it.i]
		it.i++
		if en.dead {
			continue
		}
		return Tuple{e.c.True, copyVal(en.k), copyVal(en.v)}
	}
	mt := in.Type().(*types.Tuple)
	k, v := Value(nil), Value(nil)
	if b, ok := mt.At(1).Type().(*types.Basic); !ok || b.Kind() != types.Invalid {
		k = e.zero(mt.At(1).Type())
	}
	if b, ok := mt.At(2).Type().(*types.Basic); !ok || b.Kind() != types.Invalid {
		v = e.zero(mt.At(2).Type())
	}
	return Tuple{e.c.False, k, v}
}

func (fr *frame) selectOp(in *ssa.Select) Value {
	e := fr.e
	var cs []selCase
	for _, s := range in.States {
		c, _ := fr.get(s.Chan).(*ChanV)
		k := selCase{send: s.Dir == types.SendOnly, ch: c}
		if k.send {
			k.val = copyVal(fr.get(s.Send))
		}
		cs = append(cs, k)
	}
	idx, v, ok := e.doSelect(cs, in.Blocking)
	res := Tuple{e.c.Const(uint64(int64(idx)), 64), e.c.Bool(ok)}
	for i, s := range in.States {
		if s.Dir == types.RecvOnly {
			var x Value
			if i == idx && ok {
				x = v
			} else {
				x = e.zero(s.Chan.Type().Underlying().(*types.Chan).Elem())
			}
			res = append(res, x)
		}
	}
	return res
}

func (fr *frame) typeAssert(in *ssa.TypeAssert) Value {
	e := fr.e
	xv := fr.get(in.X)
	if po, ok := xv.(Poison); ok {
		panic(unsupported("poison: %s", po.why))
	}
	x := xv.(Iface)
	ok := false
	var v Value
	if it, isI := in.AssertedType.Underlying().(*types.Interface); isI {
		if x.T != nil && e.eng.implements(x.T, it) {
			ok = true
			v = x
		}
	} else if x.T != nil && types.Identical(x.T, in.AssertedType) {
		ok = true
		v = copyVal(x.V)
	}
	if !ok {
		if !in.CommaOk {
			t := "nil"
			if x.T != nil {
				t = x.T.String()
			}
			panic(targetPanic{e.mkError(fmt.Sprintf("interface conversion: interface is %s, not %s", t, in.AssertedType))})
		}
		v = e.zero(in.AssertedType)
	}
	if in.CommaOk {
		return Tuple{v, e.c.Bool(ok)}
	}
	return v
}

// ---- calls

func (fr *frame) prepareCall(c *ssa.CallCommon) (Value, []Value) {
	e := fr.e
	v := fr.get(c.Value)
	var args []Value
	var fn Value
	if c.Method == nil {
		fn = v
	} else {
		if po, ok := v.(Poison); ok {
			panic(unsupported("poison: %s", po.why))
		}
		recv, ok := v.(Iface)
		if !ok {
			panic(engineBug(fmt.Sprintf("invoke on %T", v)))
		}
		if recv.T == nil {
			if c.Method.Pkg() != nil && e.eng.skipPath(c.Method.Pkg().Path()) {
				sig := c.Method.Type().(*types.Signature)
				return &Native{"skip", func(f2 *frame, a []Value) Value { return zeroTuple(e, sig) }}, nil
			}
			panic(e.rtPanic("invalid memory address or nil pointer dereference"))
		}
		if n, ok := recv.V.(*Native); ok && strings.HasPrefix(n.Name, "obj:") {
			return &Native{c.Method.Name(), func(f2 *frame, a []Value) Value {
				return n.F(f2, append([]Value{c.Method.Name()}, a...))
			}}, fr.args(c, nil)
		}
		f := e.w.method(e, recv.T, c.Method)
		if f == nil {
			panic(unsupported("no method %s on %s", c.Method.Name(), recv.T))
		}
		fn = f
		args = append(args, copyVal(recv.V))
	}
	return fn, fr.args(c, args)
}

func zeroTuple(e *Exec, sig *types.Signature) Value {
	switch sig.Results().Len() {
	case 0:
		return nil
	case 1:
		return e.zero(sig.Results().At(0).Type())
	}
	return e.zero(sig.Results())
}

func (fr *frame) args(c *ssa.CallCommon, args []Value) []Value {
	for _, a := range c.Args {
		args = append(args, copyVal(fr.get(a)))
	}
	return args
}

func (w *Worker) method(e *Exec, t types.Type, m *types.Func) *ssa.Function {
	k := mkey{t, m}
	if w != nil {
		if f, ok := w.mcache[k]; ok {
			return f
		}
	}
	f := e.eng.lookupMethod(t, m)
	if w != nil {
		w.mcache[k] = f
	}
	return f
}

func (e *Exec) callValue(fr *frame, fn Value, args []Value) Value {
	switch f := fn.(type) {
	case *ssa.Function:
		if f == nil {
			panic(e.rtPanic("invalid memory address or nil pointer dereference"))
		}
		return e.callSSA(fr, f, args, nil)
	case *Closure:
		return e.callSSA(fr, f.Fn, args, f.Env)
	case *ssa.Builtin:
		return e.callBuiltin(fr, f, args)
	case *Native:
		return f.F(fr, args)
	case Poison:
		panic(unsupported("poison function: %s", f.why))
	}
	panic(unsupported("call of %T", fn))
}

func (e *Exec) callBuiltin(fr *frame, b *ssa.Builtin, args []Value) Value {
	for _, a := range args {
		if po, ok := a.(Poison); ok {
			panic(unsupported("poison: %s", po.why))
		}
	}
	num := func(n int) Value { return e.c.Const(uint64(int64(n)), 64) }
	switch b.Name() {
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		s, _ := args[0].(Slice)
		switch y := args[1].(type) {
		case string, *SymStr:
			es := strElems(e.c, y)
			return appendSlice(s, es)
		case Slice:
			cp := make([]Value, len(y))
			for i, v := range y {
				cp[i] = copyVal(v)
			}
			if len(y) == 0 {
				return s
			}
			return appendSlice(s, cp)
		}
		panic(unsupported("append %T", args[1]))
	case "copy":
		dst := args[0].(Slice)
		var src []Value
		switch y := args[1].(type) {
		case string, *SymStr:
			src = strElems(e.c, y)
		case Slice:
			src = y
		}
		n := min(len(dst), len(src))
		tmp := make([]Value, n)
		for i := 0; i < n; i++ {
			tmp[i] = copyVal(src[i])
		}
		for i := 0; i < n; i++ {
			storeInto(&dst[i], tmp[i])
		}
		return num(n)
	case "len":
		switch x := args[0].(type) {
		case string, *SymStr:
			return num(strLen(x))
		case Slice:
			return num(len(x))
		case Array:
			return num(len(x))
		case *Value:
			return num(len((*fr.ptr(x)).(Array)))
		case *MapV:
			if x == nil {
				return num(0)
			}
			if fr.e.race != nil {
				fr.access(x, false)
			}
			return num(x.n)
		case *ChanV:
			if x == nil {
				return num(0)
			}
			return num(len(x.buf))
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return num(cap(x))
		case Array:
			return num(len(x))
		case *Value:
			return num(len((*fr.ptr(x)).(Array)))
		case *ChanV:
			if x == nil {
				return num(0)
			}
			return num(x.cap)
		}
	case "delete":
		m, _ := args[0].(*MapV)
		if m == nil {
			return nil
		}
		if e.race != nil {
			fr.access(m, true)
		}
		kt := b.Type().(*types.Signature).Params().At(0).Type().Underlying().(*types.Map).Key()
		e.mapDelete(kt, m, args[1])
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *MapV:
			if x != nil {
				for _, en := range append([]*mapEntry{}, x.entries...) {
					x.remove(en)
				}
			}
		case Slice:
			et := b.Type().(*types.Signature).Params().At(0).Type().Underlying().(*types.Slice).Elem()
			for i := range x {
				storeInto(&x[i], e.zero(et))
			}
		}
		return nil
	case "close":
		c, _ := args[0].(*ChanV)
		e.chanClose(c)
		return nil
	case "panic":
		panic(targetPanic{args[0]})
	case "recover":
		// find the frame that is panicking: the caller of the deferred function
		return e.recover(fr)
	case "print", "println":
		return nil
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			r = e.minmax(b.Name() == "min", b.Type().(*types.Signature).Params().At(0).Type(), r, a)
		}
		return r
	case "real", "imag", "complex":
		panic(unsupported("complex numbers"))
	case "ssa:wrapnilchk":
		p, ok := args[0].(*Value)
		if ok && p == nil {
			panic(e.rtPanic("value method called using nil pointer"))
		}
		return args[0]
	case "ssa:deferstack":
		return fr
	}
	panic(unsupported("builtin %s", b.Name()))
}

func appendSlice(s Slice, add []Value) Slice {
	n := len(s)
	if n+len(add) <= cap(s) {
		r := s[:n+len(add)]
		for i, v := range add {
			// keep cell identity for structs
			if r[n+i] == nil {
				r[n+i] = v
			} else {
				storeInto(&r[n+i], v)
			}
		}
		return r
	}
	// grow like the runtime does (doubling), without aliasing the old array
	nc := 2 * cap(s)
	if nc < n+len(add) {
		nc = n + len(add)
	}
	r := make(Slice, n+len(add), nc)
	copy(r, s)
	copy(r[n:], add)
	// moved elements: new cells need their own aggregates
	for i := 0; i < n; i++ {
		r[i] = copyVal(r[i])
	}
	return r
}

func (e *Exec) minmax(isMin bool, t types.Type, a, b Value) Value {
	switch x := a.(type) {
	case *Term:
		y := b.(*Term)
		var lt *Term
		if isSigned(t) {
			lt = e.c.Slt(x, y)
		} else {
			lt = e.c.Ult(x, y)
		}
		if isMin {
			return e.c.Ite(lt, x, y)
		}
		return e.c.Ite(lt, y, x)
	case float64:
		if isMin == (x < b.(float64)) {
			return a
		}
		return b
	}
	panic(unsupported("min/max of %T", a))
}

func (e *Exec) recover(fr *frame) Value {
	// fr is the frame of the deferred function; its caller is the panicking one
	c := fr.caller
	if c != nil && c.panicking {
		if tp, ok := c.panicV.(targetPanic); ok {
			c.panicking = false
			if i, ok := tp.v.(Iface); ok {
				return i
			}
			return Iface{T: types.Typ[types.String], V: fmt.Sprint(tp.v)}
		}
	}
	return Iface{}
}

// ---- operators

func (fr *frame) unop(in *ssa.UnOp, x Value) Value {
	e := fr.e
	if po, ok := x.(Poison); ok {
		panic(unsupported("poison: %s", po.why))
	}
	switch in.Op {
	case token.MUL:
		p := fr.ptr(x)
		if po, ok := (*p).(Poison); ok {
			if e.base {
				return po
			}
			panic(unsupported("poison: %s", po.why))
		}
		if e.race != nil {
			fr.access(p, false)
		}
		return copyVal(*p)
	case token.NOT:
		return e.c.Not(x.(*Term))
	case token.SUB:
		switch x := x.(type) {
		case *Term:
			return e.c.Neg(x)
		case float64:
			return -x
		}
	case token.XOR:
		return e.c.BNot(x.(*Term))
	case token.ARROW:
		c, _ := x.(*ChanV)
		_, v, ok := e.doSelect([]selCase{{false, c, nil}}, true)
		if !ok {
			v = e.zero(in.X.Type().Underlying().(*types.Chan).Elem())
		}
		if in.CommaOk {
			return Tuple{v, e.c.Bool(ok)}
		}
		return v
	}
	panic(unsupported("unop %s on %T", in.Op, x))
}

func (e *Exec) binop(op token.Token, t types.Type, x, y Value, yt types.Type) Value {
	if po, ok := x.(Poison); ok {
		panic(unsupported("poison: %s", po.why))
	}
	if po, ok := y.(Poison); ok {
		panic(unsupported("poison: %s", po.why))
	}
	c := e.c
	switch op {
	case token.EQL:
		return e.eqNil(t, x, y)
	case token.NEQ:
		return c.Not(e.eqNil(t, x, y))
	}
	switch a := x.(type) {
	case *Term:
		b := e.asTerm(y)
		signed := isSigned(t)
		switch op {
		case token.ADD:
			return c.Add(a, b)
		case token.SUB:
			return c.Sub(a, b)
		case token.MUL:
			return c.Mul(a, b)
		case token.QUO, token.REM:
			z := c.Eq(b, c.Const(0, b.w))
			if !z.isFalse() {
				if e.branch(z, "division by zero") {
					panic(e.rtPanic("integer divide by zero"))
				}
			}
			if op == token.QUO {
				if signed {
					return c.SDiv(a, b)
				}
				return c.UDiv(a, b)
			}
			if signed {
				return c.SRem(a, b)
			}
			return c.URem(a, b)
		case token.AND:
			return c.BAnd(a, b)
		case token.OR:
			return c.BOr(a, b)
		case token.XOR:
			return c.BXor(a, b)
		case token.AND_NOT:
			return c.BAnd(a, c.BNot(b))
		case token.SHL, token.SHR:
			if isSigned(yt) && b.slo < 0 {
				if e.branch(c.Slt(b, c.Const(0, b.w)), "negative shift") {
					panic(e.rtPanic("negative shift amount"))
				}
			}
			// bring the count to a's width, saturating
			sh := b
			if b.w > a.w {
				big := c.Ult(c.Const(uint64(a.w), b.w), b)
				sh = c.Ite(big, c.Const(uint64(a.w), a.w), c.Extract(b, 0, a.w))
			} else if b.w < a.w {
				sh = c.ZExt(b, a.w)
			}
			if op == token.SHL {
				return c.Shl(a, sh)
			}
			if signed {
				return c.AShr(a, sh)
			}
			return c.LShr(a, sh)
		case token.LSS:
			if signed {
				return c.Slt(a, b)
			}
			return c.Ult(a, b)
		case token.LEQ:
			if signed {
				return c.Sle(a, b)
			}
			return c.Ule(a, b)
		case token.GTR:
			if signed {
				return c.Slt(b, a)
			}
			return c.Ult(b, a)
		case token.GEQ:
			if signed {
				return c.Sle(b, a)
			}
			return c.Ule(b, a)
		}
	case float64:
		b := y.(float64)
		switch op {
		case token.ADD:
			return a + b
		case token.SUB:
			return a - b
		case token.MUL:
			return a * b
		case token.QUO:
			return a / b
		case token.LSS:
			return c.Bool(a < b)
		case token.LEQ:
			return c.Bool(a <= b)
		case token.GTR:
			return c.Bool(a > b)
		case token.GEQ:
			return c.Bool(a >= b)
		}
	case string, *SymStr:
		switch op {
		case token.ADD:
			if s1, ok := x.(string); ok {
				if s2, ok := y.(string); ok {
					return s1 + s2
				}
			}
			var r []Value
			r = append(r, strElems(c, x)...)
			r = append(r, strElems(c, y)...)
			return mkStr(r)
		case token.LSS:
			return e.elemsLess(strElems(c, x), strElems(c, y))
		case token.GTR:
			return e.elemsLess(strElems(c, y), strElems(c, x))
		case token.LEQ:
			return c.Not(e.elemsLess(strElems(c, y), strElems(c, x)))
		case token.GEQ:
			return c.Not(e.elemsLess(strElems(c, x), strElems(c, y)))
		}
	}
	panic(unsupported("binop %s on %T", op, x))
}

func (e *Exec) eqNil(t types.Type, x, y Value) *Term {
	switch a := x.(type) {
	case Slice:
		b, _ := y.(Slice)
		return e.c.Bool(a == nil && b == nil)
	case *MapV:
		b, _ := y.(*MapV)
		return e.c.Bool(a == b)
	case *Closure, *Native, *ssa.Builtin:
		// func compared with nil
		return e.c.False
	case *ssa.Function:
		switch y.(type) {
		case *ssa.Function:
			return e.c.Bool(a == y.(*ssa.Function))
		}
		return e.c.Bool(false)
	}
	// mixed interface / concrete comparison
	if xi, ok := x.(Iface); ok {
		if _, ok := y.(Iface); !ok {
			if xi.T == nil {
				return e.c.False
			}
			return e.equal(xi.T, xi.V, y)
		}
	}
	return e.equal(t, x, y)
}

func (e *Exec) convert(to, from types.Type, x Value) Value {
	if po, ok := x.(Poison); ok {
		return po
	}
	ut, uf := to.Underlying(), from.Underlying()
	switch t := ut.(type) {
	case *types.Pointer:
		return x // from unsafe.Pointer
	case *types.Slice:
		// string -> []byte / []rune
		switch s := x.(type) {
		case string, *SymStr:
			eb, _ := t.Elem().Underlying().(*types.Basic)
			if eb != nil && eb.Kind() == types.Uint8 {
				es := strElems(e.c, s)
				r := make(Slice, len(es))
				copy(r, es)
				return r
			}
			if eb != nil && eb.Kind() == types.Int32 {
				var r Slice
				if cs, ok := s.(string); ok {
					for _, ch := range cs {
						r = append(r, e.c.Const(uint64(ch), 32))
					}
					if r == nil {
						r = Slice{}
					}
					return r
				}
				for _, el := range strElems(e.c, s) {
					b := e.asTerm(el)
					if !e.branch(e.c.Ult(b, e.c.Const(0x80, 8)), "ascii") {
						panic(unsupported("[]rune of non-ASCII symbolic text"))
					}
					r = append(r, e.c.ZExt(b, 32))
				}
				return r
			}
		case Slice:
			return s
		}
	case *types.Basic:
		switch {
		case t.Info()&types.IsString != 0:
			switch s := x.(type) {
			case Slice:
				es, _ := uf.(*types.Slice)
				if es != nil {
					if eb, ok := es.Elem().Underlying().(*types.Basic); ok && eb.Kind() == types.Int32 {
						var sb strings.Builder
						for _, r := range s {
							tr := e.asTerm(r)
							if !tr.isConst() {
								panic(unsupported("string of symbolic runes"))
							}
							sb.WriteRune(rune(tr.val))
						}
						return sb.String()
					}
				}
				return mkStr(s)
			case string, *SymStr:
				return s
			case *Term:
				if s.isConst() {
					return string(rune(sext(s.val, s.w)))
				}
				if e.branch(e.c.Ult(s, e.c.Const(0x80, s.w)), "ascii") {
					return mkStr([]Value{e.c.Extract(s, 0, 8)})
				}
				panic(unsupported("string(rune) of symbolic value"))
			}
		case t.Kind() == types.UnsafePointer:
			return x
		case t.Info()&types.IsInteger != 0:
			switch s := x.(type) {
			case *Term:
				w := width(t)
				if s.w == w {
					return s
				}
				if s.w > w {
					return e.c.Extract(s, 0, w)
				}
				if isSigned(from) {
					return e.c.SExt(s, w)
				}
				return e.c.ZExt(s, w)
			case float64:
				if t.Info()&types.IsUnsigned != 0 {
					return e.c.Const(uint64(s), width(t))
				}
				return e.c.Const(uint64(int64(s)), width(t))
			case *Value: // uintptr(unsafe.Pointer)
				return Poison{"pointer to integer"}
			}
		case t.Info()&types.IsFloat != 0:
			switch s := x.(type) {
			case float64:
				if t.Kind() == types.Float32 {
					return float64(float32(s))
				}
				return s
			case *Term:
				if !s.isConst() {
					v := e.concretize(s, "float conversion")
					s = e.c.Const(v, s.w)
				}
				if isSigned(from) {
					return float64(sext(s.val, s.w))
				}
				return float64(s.val)
			}
		case t.Info()&types.IsBoolean != 0:
			return x
		}
	case *types.Interface, *types.Signature, *types.Map, *types.Chan, *types.Struct, *types.Array:
		return x
	}
	panic(unsupported("conversion %s -> %s (%T)", from, to, x))
}

// ---- globals

func (e *Exec) global(g *ssa.Global) *Value {
	if p, ok := e.globals[g]; ok {
		return p
	}
	if e.base {
		p := e.eng.baseGlobal(e, g)
		return p
	}
	b := e.eng.base
	b.mu.Lock()
	defer b.mu.Unlock()
	src := b.get(g)
	// clone the initialised value into this path
	p := e.clonePtr(src)
	e.globals[g] = p
	return p
}

func (e *Exec) clonePtr(p *Value) *Value {
	if p == nil {
		return nil
	}
	if q, ok := e.memo[p]; ok {
		return q.(*Value)
	}
	q := new(Value)
	e.memo[p] = q
	e.cloneInto(q, *p)
	return q
}

// cloneInto clones v into the cell q, registering inner cells.
func (e *Exec) cloneInto(q *Value, v Value) {
	switch v := v.(type) {
	case Struct:
		r := make(Struct, len(v))
		*q = r
		for i := range v {
			e.memo[&v[i]] = &r[i]
		}
		for i := range v {
			e.cloneInto(&r[i], v[i])
		}
	case Array:
		r := make(Array, len(v))
		*q = r
		for i := range v {
			e.memo[&v[i]] = &r[i]
		}
		for i := range v {
			e.cloneInto(&r[i], v[i])
		}
	default:
		*q = e.cloneVal(v)
	}
}

func (e *Exec) cloneVal(v Value) Value {
	switch v := v.(type) {
	case *Term:
		if v.op != OpConst {
			panic(engineBug("symbolic value in initialised global"))
		}
		return e.c.Const(v.val, v.w)
	case *Value:
		return e.clonePtr(v)
	case Struct, Array:
		var q Value
		e.cloneInto(&q, v)
		return q
	case Slice:
		if v == nil {
			return Slice(nil)
		}
		full := v[:cap(v)]
		if len(full) == 0 {
			return Slice{}
		}
		if q, ok := e.memo[&full[0]]; ok {
			if s, ok := e.memo[sliceKey{&full[0]}]; ok {
				fs := s.(Slice)
				if len(fs) >= len(full) {
					return fs[:len(v):cap(v)]
				}
			}
			_ = q
		}
		r := make(Slice, len(full))
		e.memo[sliceKey{&full[0]}] = r
		for i := range full {
			e.memo[&full[i]] = &r[i]
		}
		for i := range full {
			if full[i] != nil {
				e.cloneInto(&r[i], full[i])
			}
		}
		return r[:len(v):cap(v)]
	case *MapV:
		if v == nil {
			return v
		}
		if q, ok := e.memo[v]; ok {
			return q.(*MapV)
		}
		m := newMap()
		e.memo[v] = m
		for _, en := range v.entries {
			if en.dead {
				continue
			}
			k, x := e.cloneVal(en.k), e.cloneVal(en.v)
			ne := &mapEntry{k: k, v: x}
			m.entries = append(m.entries, ne)
			m.n++
			var sb strings.Builder
			if concKey(k, &sb) {
				m.conc[sb.String()] = ne
			} else {
				m.nsym++
			}
		}
		return m
	case Iface:
		return Iface{v.T, e.cloneVal(v.V)}
	case *Closure:
		if q, ok := e.memo[v]; ok {
			return q.(*Closure)
		}
		n := &Closure{Fn: v.Fn}
		e.memo[v] = n
		for _, x := range v.Env {
			n.Env = append(n.Env, e.cloneVal(x))
		}
		return n
	case *ChanV:
		if v == nil {
			return v
		}
		if q, ok := e.memo[v]; ok {
			return q.(*ChanV)
		}
		n := &ChanV{cap: v.cap, closed: v.closed}
		e.memo[v] = n
		for _, x := range v.buf {
			n.buf = append(n.buf, e.cloneVal(x))
		}
		return n
	case Tuple:
		r := make(Tuple, len(v))
		for i := range v {
			r[i] = e.cloneVal(v[i])
		}
		return r
	}
	return v
}

type sliceKey struct{ p *Value }

// ---- merging of side-effect-free functions

func (en *Engine) mergeable(fn *ssa.Function, fi *fnInfo) bool {
	if fi.pure != 0 {
		return fi.pure == 1
	}
	r := pureFn(fn, map[*ssa.Function]bool{}, 0)
	if r {
		fi.pure = 1
	} else {
		fi.pure = 2
	}
	return r
}

func pureFn(fn *ssa.Function, seen map[*ssa.Function]bool, depth int) bool {
	if fn.Blocks == nil || seen[fn] || depth > 3 || len(fn.Blocks) > 24 {
		return false
	}
	seen[fn] = true
	defer delete(seen, fn)
	if fn.Recover != nil {
		return false
	}
	rs := fn.Signature.Results()
	if rs.Len() != 1 {
		return false
	}
	b, ok := rs.At(0).Type().Underlying().(*types.Basic)
	if !ok || b.Info()&(types.IsBoolean|types.IsInteger) == 0 {
		return false
	}
	hasIf := false
	for _, bl := range fn.Blocks {
		for _, s := range bl.Succs {
			if s.Index <= bl.Index && s.Dominates(bl) {
				return false // loop
			}
		}
		for _, in := range bl.Instrs {
			switch in := in.(type) {
			case *ssa.DebugRef, *ssa.BinOp, *ssa.FieldAddr, *ssa.Field, *ssa.IndexAddr, *ssa.Index,
				*ssa.Phi, *ssa.Jump, *ssa.Return, *ssa.ChangeType, *ssa.Extract:
			case *ssa.Convert:
			case *ssa.If:
				hasIf = true
			case *ssa.UnOp:
				if in.Op == token.ARROW {
					return false
				}
			case *ssa.Alloc:
				// value receivers/params are spilled to allocs: allowed when only
				// stored to once with a parameter
				for _, r := range *in.Referrers() {
					switch r := r.(type) {
					case *ssa.Store:
						if r.Addr != in {
							return false
						}
						if _, ok := r.Val.(*ssa.Parameter); !ok {
							return false
						}
					case *ssa.FieldAddr, *ssa.UnOp, *ssa.IndexAddr, *ssa.DebugRef:
					default:
						return false
					}
				}
			case *ssa.Store:
				a, ok := in.Addr.(*ssa.Alloc)
				if !ok {
					return false
				}
				_ = a
			case *ssa.Call:
				if bi, ok := in.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
					continue
				}
				callee := in.Call.StaticCallee()
				if callee == nil || callee == fn {
					return false
				}
				if _, ok := intrinsics[fnName(callee)]; ok {
					return false
				}
				if !pureFn(callee, seen, depth+1) {
					return false
				}
			default:
				return false
			}
		}
	}
	return hasIf
}

// tryMerge evaluates a pure acyclic function on all its paths and joins the
// results with ite; on any trouble it falls back to ordinary forking.
func (e *Exec) tryMerge(caller *frame, fn *ssa.Function, args, env []Value) (res Value, ok bool) {
	info := infoOf(fn)
	d := e.depth
	budget := 200
	e.merging++
	defer func() {
		e.merging--
		if r := recover(); r != nil {
			e.depth = d
			switch p := r.(type) {
			case mergeAbort, targetPanic:
				res, ok = nil, false
			case pathEnd:
				if p.kind == "unsupported" {
					res, ok = nil, false
					return
				}
				panic(r)
			default:
				panic(r)
			}
		}
	}()
	var run func(fr *frame) *Term
	run = func(fr *frame) *Term {
		for {
			budget--
			if budget < 0 {
				panic(mergeAbort{})
			}
			b := fr.block
			for _, in := range b.Instrs {
				e.steps++
				switch in := in.(type) {
				case *ssa.Return:
					return e.asTerm(fr.get(in.Results[0]))
				case *ssa.If:
					c := e.asTerm(fr.get(in.Cond))
					if v, ok := e.known(c); ok {
						c = e.c.Bool(v)
					}
					if c.isConst() {
						k := 1
						if c.val == 1 {
							k = 0
						}
						fr.jump(b.Succs[k])
						goto next
					}
					f2 := *fr
					f2.regs = append([]Value{}, fr.regs...)
					fr.jump(b.Succs[0])
					x := run(fr)
					f2.jump(b.Succs[1])
					y := run(&f2)
					return e.c.Ite(c, x, y)
				case *ssa.Jump:
					fr.jump(b.Succs[0])
					goto next
				case *ssa.Store:
					p := fr.get(in.Addr).(*Value)
					storeInto(p, copyVal(fr.get(in.Val)))
				case *ssa.Call:
					if bi, ok := in.Call.Value.(*ssa.Builtin); ok {
						f, a := fr.prepareCall(&in.Call)
						_ = bi
						fr.set(in, e.callValue(fr, f, a))
						continue
					}
					_, a := fr.prepareCall(&in.Call)
					callee := in.Call.StaticCallee()
					ci := infoOf(callee)
					nf := &frame{e: e, g: e.cur, caller: fr, fn: callee, info: ci, regs: make([]Value, ci.n)}
					for i, p := range callee.Params {
						nf.regs[ci.idx[p]] = a[i]
					}
					nf.block = callee.Blocks[0]
					fr.set(in, run(nf))
				default:
					fr.exec(in)
				}
			}
			panic(engineBug("merge: fell off block"))
		next:
		}
	}
	fr := &frame{e: e, g: e.cur, caller: caller, fn: fn, info: info, regs: make([]Value, info.n), env: env}
	for i, p := range fn.Params {
		fr.regs[info.idx[p]] = args[i]
	}
	fr.block = fn.Blocks[0]
	return run(fr), true
}
