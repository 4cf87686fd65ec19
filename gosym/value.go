package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Value interface{}

type (
	Struct []Value
	Array  []Value
	Slice  []Value
	Tuple  []Value
)

type Iface struct {
	T types.Type
	V Value
}

type Closure struct {
	Fn  *ssa.Function
	Env []Value
}

// Native is a function value implemented by the engine.
type Native struct {
	Name string
	F    func(fr *frame, args []Value) Value
}

// SymStr is a string with at least one non-constant element. Elements are
// *Term of width 8 or opaque pieces (*Atom, *Dec, *Blob).
type SymStr struct{ e []Value }

// Atom is an opaque piece of text identified by a 64-bit term.
type Atom struct{ t *Term }

// Dec is the decimal rendering of an integer term.
type Dec struct {
	t      *Term
	signed bool
}

// Blob is an encoded value (JSON, msgpack) kept as a structured value.
type Blob struct {
	kind string
	v    interface{} // JSON: JVal; msgpack: snapshot Value
	t    types.Type
}

type mapEntry struct {
	k, v Value
	dead bool
}

type MapV struct {
	entries []*mapEntry
	conc    map[string]*mapEntry // concrete keys
	nsym    int                  // live entries with symbolic keys
	n       int
}

type ChanV struct {
	buf    []Value
	cap    int
	closed bool
	// rendezvous
	recvWait []*waiter
	sendWait []*waiter
}

type waiter struct {
	g    *G
	val  Value // value to send / received value
	ok   bool
	done *bool // shared between the cases of one select
	idx  int
	sel  *int
}

type Poison struct{ why string }

type rangeIter struct {
	m    *MapV
	ents []*mapEntry
	i    int
	s    []Value
	str  bool
}

// ---- engine panics

type engineBugT struct{ msg string }

func engineBug(m string) engineBugT { return engineBugT{m} }

// pathEnd stops the current path.
type pathEnd struct {
	kind string // "assume", "unsupported", "budget", "exit", "violation", "bound", "done"
	msg  string
}

type killG struct{}

// targetPanic is a panic of the interpreted program.
type targetPanic struct{ v Value }

func unsupported(format string, a ...interface{}) pathEnd {
	return pathEnd{"unsupported", fmt.Sprintf(format, a...)}
}

// ---- zero values and copying

func (e *Exec) zero(t types.Type) Value {
	switch t := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case t.Kind() == types.UntypedNil:
			return Iface{}
		case t.Info()&types.IsBoolean != 0:
			return e.c.False
		case t.Info()&types.IsInteger != 0:
			return e.c.Const(0, width(t))
		case t.Info()&types.IsFloat != 0:
			return float64(0)
		case t.Info()&types.IsComplex != 0:
			return complex128(0)
		case t.Info()&types.IsString != 0:
			return ""
		case t.Kind() == types.UnsafePointer:
			return (*Value)(nil)
		}
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Array:
		n := t.Len()
		if n > 1<<16 {
			panic(unsupported("huge array"))
		}
		a := make(Array, n)
		for i := range a {
			a[i] = e.zero(t.Elem())
		}
		return a
	case *types.Struct:
		s := make(Struct, t.NumFields())
		for i := range s {
			s[i] = e.zero(t.Field(i).Type())
		}
		return s
	case *types.Slice:
		return Slice(nil)
	case *types.Interface:
		return Iface{}
	case *types.Map:
		return (*MapV)(nil)
	case *types.Chan:
		return (*ChanV)(nil)
	case *types.Signature:
		return (*ssa.Function)(nil)
	case *types.Tuple:
		if t.Len() == 1 {
			return e.zero(t.At(0).Type())
		}
		s := make(Tuple, t.Len())
		for i := range s {
			s[i] = e.zero(t.At(i).Type())
		}
		return s
	}
	panic(unsupported("zero value of %s", t))
}

func width(t types.Type) uint8 {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 64
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32, types.UntypedRune:
		return 32
	}
	return 64
}

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}

// copyVal copies aggregates (value semantics).
func copyVal(v Value) Value {
	switch v := v.(type) {
	case Struct:
		r := make(Struct, len(v))
		for i, x := range v {
			r[i] = copyVal(x)
		}
		return r
	case Array:
		r := make(Array, len(v))
		for i, x := range v {
			r[i] = copyVal(x)
		}
		return r
	}
	return v
}

// storeInto assigns v to *p keeping the identity of inner cells.
func storeInto(p *Value, v Value) {
	switch old := (*p).(type) {
	case Struct:
		nv, ok := v.(Struct)
		if ok && len(nv) == len(old) {
			for i := range old {
				storeInto(&old[i], nv[i])
			}
			return
		}
	case Array:
		nv, ok := v.(Array)
		if ok && len(nv) == len(old) {
			for i := range old {
				storeInto(&old[i], nv[i])
			}
			return
		}
	}
	*p = v
}

// ---- strings

func strElems(c *TCtx, v Value) []Value {
	switch v := v.(type) {
	case string:
		r := make([]Value, len(v))
		for i := 0; i < len(v); i++ {
			r[i] = c.Const(uint64(v[i]), 8)
		}
		return r
	case *SymStr:
		return v.e
	case Poison:
		panic(unsupported("poison string: %s", v.why))
	}
	panic(engineBug(fmt.Sprintf("strElems of %T", v)))
}

func mkStr(e []Value) Value {
	b := make([]byte, len(e))
	for i, x := range e {
		t, ok := x.(*Term)
		if !ok || t.op != OpConst {
			cp := make([]Value, len(e))
			copy(cp, e)
			return &SymStr{cp}
		}
		b[i] = byte(t.val)
	}
	return string(b)
}

func strLen(v Value) int {
	switch v := v.(type) {
	case string:
		return len(v)
	case *SymStr:
		return len(v.e)
	}
	panic(engineBug(fmt.Sprintf("strLen of %T", v)))
}

func (e *Exec) elemEq(a, b Value) *Term {
	switch x := a.(type) {
	case *Term:
		if y, ok := b.(*Term); ok {
			return e.c.Eq(x, y)
		}
		return e.c.False
	case *Atom:
		if y, ok := b.(*Atom); ok {
			return e.c.Eq(x.t, y.t)
		}
		return e.c.False
	case *Dec:
		if y, ok := b.(*Dec); ok && x.signed == y.signed {
			if x.t.w == y.t.w {
				return e.c.Eq(x.t, y.t)
			}
		}
		if y, ok := b.(*Dec); ok && x.t.w == 64 && y.t.w == 64 {
			// one of them is not negative
			return e.c.And(e.c.Eq(x.t, y.t), e.c.Sle(e.num(0), x.t))
		}
		panic(unsupported("comparison of decimal text"))
	case *Blob:
		if b == a {
			return e.c.True
		}
		panic(unsupported("comparison of encoded values"))
	}
	panic(unsupported("elemEq %T", a))
}

func hasDec(x []Value) bool {
	for _, v := range x {
		if _, ok := v.(*Dec); ok {
			return true
		}
	}
	return false
}

func (e *Exec) strEq(a, b Value) *Term {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return e.c.Bool(x == y)
		}
	}
	return e.elemsEq(strElems(e.c, a), strElems(e.c, b))
}

// decEq compares texts of which at least one contains decimal text.
func (e *Exec) decEq(x, y []Value) *Term {
	konst := func(v Value) (byte, bool) {
		t, ok := v.(*Term)
		if !ok || !t.isConst() {
			return 0, false
		}
		return byte(t.val), true
	}
	isDec := func(v Value) bool { _, ok := v.(*Dec); return ok }
	// ends
	res := e.c.True
	for len(x) > 0 && len(y) > 0 && !isDec(x[0]) && !isDec(y[0]) {
		res = e.c.And(res, e.elemEq(x[0], y[0]))
		if res.isFalse() {
			return res
		}
		x, y = x[1:], y[1:]
	}
	for len(x) > 0 && len(y) > 0 && !isDec(x[len(x)-1]) && !isDec(y[len(y)-1]) {
		res = e.c.And(res, e.elemEq(x[len(x)-1], y[len(y)-1]))
		if res.isFalse() {
			return res
		}
		x, y = x[:len(x)-1], y[:len(y)-1]
	}
	if len(x) == 0 || len(y) == 0 {
		// every piece has at least one character
		return e.c.And(res, e.c.Bool(len(x) == len(y)))
	}
	if len(y) == 1 && isDec(y[0]) {
		x, y = y, x
	}
	if len(x) == 1 && isDec(x[0]) && !hasDec(y) {
		d := x[0].(*Dec)
		var t []byte
		for _, v := range y {
			k, ok := konst(v)
			if !ok {
				if len(y) == 1 {
					// one digit
					if ty, ok := v.(*Term); ok {
						dg := e.c.And(e.c.Ule(e.c.Const('0', 8), ty), e.c.Ule(ty, e.c.Const('9', 8)))
						return e.c.And(res, e.c.And(dg, e.c.Eq(d.t, e.c.ZExt(e.c.Sub(ty, e.c.Const('0', 8)), d.t.w))))
					}
				}
				panic(unsupported("comparison of decimal text with symbolic text"))
			}
			t = append(t, k)
		}
		if d.signed {
			n, err := strconv.ParseInt(string(t), 10, 64)
			if err != nil || strconv.FormatInt(n, 10) != string(t) {
				return e.c.False
			}
			return e.c.And(res, e.c.Eq(d.t, e.c.Const(uint64(n)&mask(d.t.w), d.t.w)))
		}
		n, err := strconv.ParseUint(string(t), 10, 64)
		if err != nil || strconv.FormatUint(n, 10) != string(t) {
			return e.c.False
		}
		return e.c.And(res, e.c.Eq(d.t, e.c.Const(n&mask(d.t.w), d.t.w)))
	}
	if len(x) == len(y) {
		ok := true
		for i := range x {
			if isDec(x[i]) != isDec(y[i]) {
				ok = false
				break
			}
			if i > 0 && i < len(x)-1 && !isDec(x[i]) && (isDec(x[i-1]) || isDec(x[i+1])) {
				k, c1 := konst(x[i])
				l, c2 := konst(y[i])
				if !c1 || !c2 || k >= '0' && k <= '9' || l >= '0' && l <= '9' || k == '-' || l == '-' {
					ok = false
					break
				}
			}
			if i > 0 && isDec(x[i]) && isDec(x[i-1]) {
				ok = false
				break
			}
		}
		if ok {
			for i := range x {
				res = e.c.And(res, e.elemEq(x[i], y[i]))
			}
			return res
		}
	}
	panic(unsupported("comparison of decimal text of unknown length"))
}

func (e *Exec) elemsEq(x, y []Value) *Term {
	if hasDec(x) || hasDec(y) {
		return e.decEq(x, y)
	}
	if len(x) != len(y) {
		return e.c.False
	}
	res := e.c.True
	i := 0
	// constant mismatches first
	for j := range x {
		tx, ok1 := x[j].(*Term)
		ty, ok2 := y[j].(*Term)
		if ok1 && ok2 && tx.isConst() && ty.isConst() && tx.val != ty.val {
			return e.c.False
		}
	}
	for i < len(x) {
		tx, ok1 := x[i].(*Term)
		ty, ok2 := y[i].(*Term)
		if !ok1 || !ok2 {
			res = e.c.And(res, e.elemEq(x[i], y[i]))
			i++
			if res.isFalse() {
				return res
			}
			continue
		}
		if tx == ty || (tx.isConst() && ty.isConst() && tx.val == ty.val) {
			i++
			continue
		}
		// gather up to 8 bytes
		a, b := tx, ty
		j := i + 1
		for j < len(x) && j < i+8 {
			ux, ok1 := x[j].(*Term)
			uy, ok2 := y[j].(*Term)
			if !ok1 || !ok2 {
				break
			}
			a = e.c.Concat(a, ux)
			b = e.c.Concat(b, uy)
			j++
		}
		res = e.c.And(res, e.c.Eq(a, b))
		if res.isFalse() {
			return res
		}
		i = j
	}
	return res
}

// elemsLess is lexicographic <.
func (e *Exec) elemsLess(x, y []Value) *Term {
	i := 0
	for i < len(x) && i < len(y) {
		tx, ok1 := x[i].(*Term)
		ty, ok2 := y[i].(*Term)
		if !ok1 || !ok2 {
			if x[i] == y[i] {
				i++
				continue
			}
			panic(unsupported("ordering of opaque text"))
		}
		if tx == ty {
			i++
			continue
		}
		if tx.isConst() && ty.isConst() {
			if tx.val == ty.val {
				i++
				continue
			}
			return e.c.Bool(tx.val < ty.val)
		}
		break
	}
	if i == len(x) || i == len(y) {
		return e.c.Bool(len(x) < len(y))
	}
	a, b := x[i].(*Term), y[i].(*Term)
	j := i + 1
	for j < len(x) && j < len(y) && j < i+8 {
		ux, ok1 := x[j].(*Term)
		uy, ok2 := y[j].(*Term)
		if !ok1 || !ok2 {
			break
		}
		a = e.c.Concat(a, ux)
		b = e.c.Concat(b, uy)
		j++
	}
	rest := e.elemsLess(x[j:], y[j:])
	return e.c.Or(e.c.Ult(a, b), e.c.And(e.c.Eq(a, b), rest))
}

// ---- equality

func (e *Exec) equal(t types.Type, a, b Value) *Term {
	switch x := a.(type) {
	case *Term:
		return e.c.Eq(x, e.asTerm(b))
	case float64:
		return e.c.Bool(x == b.(float64))
	case complex128:
		return e.c.Bool(x == b.(complex128))
	case string, *SymStr:
		return e.strEq(a, b)
	case *Value:
		y, ok := b.(*Value)
		return e.c.Bool(ok && x == y)
	case Struct:
		y := b.(Struct)
		res := e.c.True
		st, _ := t.Underlying().(*types.Struct)
		for i := range x {
			var ft types.Type
			if st != nil {
				ft = st.Field(i).Type()
				if st.Field(i).Name() == "_" {
					continue
				}
			}
			res = e.c.And(res, e.equal(ft, x[i], y[i]))
		}
		return res
	case Array:
		y := b.(Array)
		res := e.c.True
		var et types.Type
		if at, ok := t.Underlying().(*types.Array); ok {
			et = at.Elem()
		}
		for i := range x {
			res = e.c.And(res, e.equal(et, x[i], y[i]))
		}
		return res
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			panic(engineBug(fmt.Sprintf("iface eq %T", b)))
		}
		if x.T == nil || y.T == nil {
			return e.c.Bool(x.T == nil && y.T == nil)
		}
		if !types.Identical(x.T, y.T) {
			return e.c.False
		}
		return e.equal(x.T, x.V, y.V)
	case *ChanV:
		y, ok := b.(*ChanV)
		return e.c.Bool(ok && x == y)
	case *MapV:
		y, ok := b.(*MapV)
		return e.c.Bool(ok && x == y)
	case *ssa.Function:
		y, ok := b.(*ssa.Function)
		return e.c.Bool(ok && x == y)
	case *Closure:
		if y, ok := b.(*Closure); ok {
			return e.c.Bool(x == y)
		}
		return e.c.False
	case *Native:
		y, ok := b.(*Native)
		return e.c.Bool(ok && x == y)
	case Slice:
		y, ok := b.(Slice)
		if !ok {
			return e.c.False
		}
		if x == nil || y == nil {
			return e.c.Bool(x == nil && y == nil)
		}
		panic(unsupported("slice comparison"))
	case Poison:
		panic(unsupported("poison: %s", x.why))
	case nil:
		return e.c.Bool(b == nil)
	}
	panic(engineBug(fmt.Sprintf("equal of %T", a)))
}

func (e *Exec) asTerm(v Value) *Term {
	switch v := v.(type) {
	case *Term:
		return v
	case Poison:
		panic(unsupported("poison: %s", v.why))
	case *Blob, *Dec, *Atom:
		panic(unsupported("byte access into opaque text"))
	}
	panic(engineBug(fmt.Sprintf("asTerm of %T", v)))
}

// ---- maps

// concKey renders a fully concrete comparable value as a string key.
func concKey(v Value, sb *strings.Builder) bool {
	switch v := v.(type) {
	case *Term:
		if !v.isConst() {
			return false
		}
		fmt.Fprintf(sb, "i%d:%d;", v.w, v.val)
		return true
	case string:
		fmt.Fprintf(sb, "s%d:%s;", len(v), v)
		return true
	case Struct:
		sb.WriteString("{")
		for _, x := range v {
			if !concKey(x, sb) {
				return false
			}
		}
		sb.WriteString("}")
		return true
	case Array:
		sb.WriteString("[")
		for _, x := range v {
			if !concKey(x, sb) {
				return false
			}
		}
		sb.WriteString("]")
		return true
	case *Value:
		fmt.Fprintf(sb, "p%p;", v)
		return true
	case *ChanV:
		fmt.Fprintf(sb, "c%p;", v)
		return true
	case *ssa.Function:
		fmt.Fprintf(sb, "f%p;", v)
		return true
	case float64:
		fmt.Fprintf(sb, "d%v;", v)
		return true
	case Iface:
		if v.T == nil {
			sb.WriteString("nil;")
			return true
		}
		sb.WriteString("I" + types.TypeString(v.T, nil) + ":")
		return concKey(v.V, sb)
	}
	return false
}

func newMap() *MapV { return &MapV{conc: map[string]*mapEntry{}} }

func (e *Exec) mapFind(kt types.Type, m *MapV, k Value) *mapEntry {
	if m == nil {
		return nil
	}
	if p, ok := k.(Poison); ok {
		panic(unsupported("poison key: %s", p.why))
	}
	var sb strings.Builder
	if concKey(k, &sb) {
		if en, ok := m.conc[sb.String()]; ok && !en.dead {
			return en
		}
		if m.nsym == 0 {
			return nil
		}
		for _, en := range m.entries {
			if en.dead {
				continue
			}
			var s2 strings.Builder
			if concKey(en.k, &s2) {
				continue
			}
			if e.branch(e.equal(kt, en.k, k), "map key") {
				return en
			}
		}
		return nil
	}
	// syntactically identical first
	for _, en := range m.entries {
		if !en.dead && e.equal(kt, en.k, k).isTrue() {
			return en
		}
	}
	for _, en := range m.entries {
		if en.dead {
			continue
		}
		if e.branch(e.equal(kt, en.k, k), "map key") {
			return en
		}
	}
	return nil
}

func (e *Exec) mapSet(kt types.Type, m *MapV, k, v Value) {
	if en := e.mapFind(kt, m, k); en != nil {
		en.v = v
		return
	}
	en := &mapEntry{k: k, v: v}
	m.entries = append(m.entries, en)
	m.n++
	var sb strings.Builder
	if concKey(k, &sb) {
		m.conc[sb.String()] = en
	} else {
		m.nsym++
	}
}

func (e *Exec) mapDelete(kt types.Type, m *MapV, k Value) {
	en := e.mapFind(kt, m, k)
	if en == nil {
		return
	}
	m.remove(en)
}

func (m *MapV) remove(en *mapEntry) {
	en.dead = true
	m.n--
	var sb strings.Builder
	if concKey(en.k, &sb) {
		delete(m.conc, sb.String())
	} else {
		m.nsym--
	}
	for i, x := range m.entries {
		if x == en {
			m.entries = append(append([]*mapEntry{}, m.entries[:i]...), m.entries[i+1:]...)
			break
		}
	}
}

// ---- rendering for reports

func (e *Exec) render(v Value, d int) string {
	if d == 0 {
		return "…"
	}
	switch v := v.(type) {
	case nil:
		return "nil"
	case *Term:
		return v.str(3)
	case string:
		return fmt.Sprintf("%q", v)
	case *SymStr:
		var sb strings.Builder
		sb.WriteString("str(")
		for _, x := range v.e {
			switch x := x.(type) {
			case *Term:
				if x.isConst() {
					sb.WriteByte(byte(x.val))
				} else {
					sb.WriteString("<" + x.str(2) + ">")
				}
			case *Dec:
				sb.WriteString("<dec " + x.t.str(2) + ">")
			case *Atom:
				sb.WriteString("<" + x.t.str(2) + ">")
			case *Blob:
				sb.WriteString("<blob>")
			}
		}
		sb.WriteString(")")
		return sb.String()
	case Struct:
		var p []string
		for _, x := range v {
			p = append(p, e.render(x, d-1))
		}
		return "{" + strings.Join(p, " ") + "}"
	case Array:
		return e.render(Struct(v), d)
	case Slice:
		if v == nil {
			return "nil"
		}
		return "[]" + e.render(Struct(v), d)
	case Tuple:
		return "(" + e.render(Struct(v), d) + ")"
	case *Value:
		if v == nil {
			return "nil"
		}
		return "&" + e.render(*v, d-1)
	case Iface:
		if v.T == nil {
			return "nil"
		}
		return e.render(v.V, d)
	case *MapV:
		if v == nil {
			return "map[]"
		}
		var p []string
		for _, en := range v.entries {
			p = append(p, e.render(en.k, d-1)+":"+e.render(en.v, d-1))
		}
		sort.Strings(p)
		return "map[" + strings.Join(p, " ") + "]"
	case Poison:
		return "poison(" + v.why + ")"
	}
	return fmt.Sprintf("%T", v)
}
