package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"go/types"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- fmt

func init() {
	reg(func(fr *frame, a []Value) Value {
		s, _ := fr.e.sprintf(fr, a[0], a[1])
		return s
	}, "fmt.Sprintf")
	reg(func(fr *frame, a []Value) Value { return fr.e.sprint(fr, a[0], false) }, "fmt.Sprint")
	reg(func(fr *frame, a []Value) Value { return fr.e.sprint(fr, a[0], true) }, "fmt.Sprintln")
	reg(func(fr *frame, a []Value) Value {
		e := fr.e
		s, w := e.sprintf(fr, a[0], a[1])
		switch len(w) {
		case 0:
			return e.mkError(s)
		case 1:
			t := e.eng.pkgs["fmt"].Type("wrapError").Type()
			return Iface{T: types.NewPointer(t), V: ptrTo(Struct{s, w[0]})}
		}
		t := e.eng.pkgs["fmt"].Type("wrapErrors").Type()
		var sl Slice
		for _, x := range w {
			sl = append(sl, x)
		}
		return Iface{T: types.NewPointer(t), V: ptrTo(Struct{s, sl})}
	}, "fmt.Errorf")
	fprint := func(fr *frame, w Value, s Value) Value {
		e := fr.e
		i := w.(Iface)
		if i.T == nil {
			panic(e.rtPanic("invalid memory address or nil pointer dereference"))
		}
		f := e.eng.methodByName(i.T, "Write")
		if f == nil {
			panic(unsupported("Fprint to %s", i.T))
		}
		b := make(Slice, 0)
		b = append(b, strElems(e.c, s)...)
		return e.callSSA(fr, f, []Value{copyVal(i.V), b}, nil)
	}
	reg(func(fr *frame, a []Value) Value {
		s, _ := fr.e.sprintf(fr, a[1], a[2])
		return fprint(fr, a[0], s)
	}, "fmt.Fprintf")
	reg(func(fr *frame, a []Value) Value { return fprint(fr, a[0], fr.e.sprint(fr, a[1], false)) }, "fmt.Fprint")
	reg(func(fr *frame, a []Value) Value { return fprint(fr, a[0], fr.e.sprint(fr, a[1], true)) }, "fmt.Fprintln")
}

func (e *Exec) sprint(fr *frame, args Value, ln bool) Value {
	var out []Value
	s, _ := args.(Slice)
	prevStr := true
	for i, x := range s {
		xi := x.(Iface)
		isStr := false
		if xi.T != nil {
			if b, ok := xi.T.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				isStr = true
			}
		}
		if i > 0 && (ln || !isStr && !prevStr) {
			out = append(out, e.c.Const(' ', 8))
		}
		prevStr = isStr
		out = append(out, e.fmtVal(fr, xi, 'v', "")...)
	}
	if ln {
		out = append(out, e.c.Const('\n', 8))
	}
	return mkStr(out)
}

func (e *Exec) txt(s string) []Value { return strElems(e.c, s) }

func (e *Exec) sprintf(fr *frame, format, args Value) (Value, []Iface) {
	var out []Value
	var wrapped []Iface
	as, _ := args.(Slice)
	n := 0
	fe := strElems(e.c, format)
	i := 0
	at := func(k int) byte {
		if t, ok := fe[k].(*Term); ok && t.isConst() {
			return byte(t.val)
		}
		return 0
	}
	for i < len(fe) {
		if at(i) != '%' {
			out = append(out, fe[i])
			i++
			continue
		}
		j := i + 1
		for j < len(fe) && strings.IndexByte("+-# 0123456789.", at(j)) >= 0 {
			j++
		}
		if j >= len(fe) {
			out = append(out, e.txt("%!(NOVERB)")...)
			break
		}
		v := at(j)
		flags := ""
		for k := i + 1; k < j; k++ {
			flags += string(rune(at(k)))
		}
		i = j + 1
		if v == '%' {
			out = append(out, e.c.Const('%', 8))
			continue
		}
		if v == '*' {
			panic(unsupported("* width"))
		}
		if n >= len(as) {
			out = append(out, e.txt("%!"+string(rune(v))+"(MISSING)")...)
			continue
		}
		x := as[n].(Iface)
		n++
		if v == 'w' {
			if x.T != nil {
				wrapped = append(wrapped, x)
			}
			v = 'v'
		}
		out = append(out, e.fmtVal(fr, x, v, flags)...)
	}
	if n < len(as) {
		out = append(out, e.txt("%!(EXTRA ")...)
		for k := n; k < len(as); k++ {
			out = append(out, e.fmtVal(fr, as[k].(Iface), 'v', "")...)
		}
		out = append(out, e.txt(")")...)
	}
	return mkStr(out), wrapped
}

func (e *Exec) fmtVal(fr *frame, x Iface, verb byte, flags string) []Value {
	if x.T == nil {
		if verb == 'v' {
			return e.txt("<nil>")
		}
		return e.txt("%!" + string(rune(verb)) + "(<nil>)")
	}
	if po, ok := x.V.(Poison); ok {
		return e.txt("<" + po.why + ">")
	}
	if verb == 'T' {
		return e.txt(x.T.String())
	}
	if verb == 'v' || verb == 's' || verb == 'q' {
		for _, m := range []string{"Error", "String"} {
			if p, ok := x.V.(*Value); ok && p == nil {
				break
			}
			f := e.eng.methodByName(x.T, m)
			if f == nil || f.Signature.Params().Len() != 0 || f.Signature.Results().Len() != 1 {
				continue
			}
			if b, ok := f.Signature.Results().At(0).Type().Underlying().(*types.Basic); !ok || b.Kind() != types.String {
				continue
			}
			if strings.Contains(fnPkg(f), "protobuf") || strings.HasSuffix(fnPkg(f), "/proto") {
				return e.txt("<message>")
			}
			return e.fmtStr(e.callSSA(fr, f, []Value{copyVal(x.V)}, nil), verb, flags)
		}
	}
	switch b := x.T.Underlying().(type) {
	case *types.Basic:
		switch {
		case b.Info()&types.IsString != 0:
			return e.fmtStr(x.V, verb, flags)
		case b.Info()&types.IsBoolean != 0:
			if e.branch(e.asTerm(x.V), "fmt bool") {
				return e.txt("true")
			}
			return e.txt("false")
		case b.Info()&types.IsInteger != 0:
			t := e.asTerm(x.V)
			signed := isSigned(x.T)
			if !t.isConst() {
				if flags == "" && (verb == 'd' || verb == 'v') {
					return []Value{e.mkDec(t, signed)}
				}
				if verb == 's' {
					return append(e.txt("%!s("+x.T.String()+"="), append([]Value{e.mkDec(t, signed)}, e.txt(")")...)...)
				}
				panic(unsupported("format %%%s%c of symbolic value", flags, verb))
			}
			if signed {
				return e.txt(fmt.Sprintf("%"+flags+string(rune(verb)), sext(t.val, t.w)))
			}
			return e.txt(fmt.Sprintf("%"+flags+string(rune(verb)), t.val))
		case b.Info()&types.IsFloat != 0:
			return e.txt(fmt.Sprintf("%"+flags+string(rune(verb)), x.V))
		}
	case *types.Slice:
		if eb, ok := b.Elem().Underlying().(*types.Basic); ok && eb.Kind() == types.Uint8 && (verb == 's' || verb == 'q') {
			s, _ := x.V.(Slice)
			return e.fmtStr(mkStr(s), verb, flags)
		}
		if verb == 'v' || verb == 's' || verb == 'd' {
			s, _ := x.V.(Slice)
			out := e.txt("[")
			for i, v := range s {
				if i > 0 {
					out = append(out, e.c.Const(' ', 8))
				}
				vi, ok := v.(Iface)
				if !ok {
					vi = Iface{b.Elem(), v}
				}
				out = append(out, e.fmtVal(fr, vi, verb, flags)...)
			}
			return append(out, e.txt("]")...)
		}
	}
	return e.txt("<" + x.T.String() + ">")
}

func (e *Exec) fmtStr(v Value, verb byte, flags string) []Value {
	if s, ok := v.(string); ok {
		if verb == 'v' && flags == "" {
			return e.txt(s)
		}
		return e.txt(fmt.Sprintf("%"+flags+string(rune(verb)), s))
	}
	switch verb {
	case 's', 'v':
		return strElems(e.c, v)
	case 'q':
		out := e.txt("\"")
		out = append(out, strElems(e.c, v)...)
		return append(out, e.txt("\"")...)
	}
	panic(unsupported("format %%%s%c of symbolic text", flags, verb))
}

// ---- JSON

// JVal is a JSON document.
type JVal struct {
	k    byte // n b i f s 6(base64 bytes) a o
	t    *Term
	sg   bool
	f    float64
	s    Value
	b    []Value
	arr  []*JVal
	keys []Value
	vals []*JVal
}

func init() {
	reg(func(fr *frame, a []Value) Value {
		e := fr.e
		x := a[0].(Iface)
		if x.T == nil {
			return Tuple{e.jsonBytes(&JVal{k: 'n'}), Iface{}}
		}
		j, err := e.toJSON(fr, x.T, x.V, 0)
		if err != nil {
			return Tuple{Slice(nil), *err}
		}
		return Tuple{e.jsonBytes(j), Iface{}}
	}, "encoding/json.Marshal", "encoding/json.MarshalIndent")
	reg(func(fr *frame, a []Value) Value {
		d, _ := a[0].(Slice)
		return fr.e.unmarshal(fr, d, a[1].(Iface))
	}, "encoding/json.Unmarshal")
	reg(func(fr *frame, a []Value) Value {
		d, _ := a[0].(Slice)
		_, err := fr.e.parseDoc(d)
		return fr.e.c.Bool(err == nil)
	}, "encoding/json.Valid")
	// Decoder: one document read from the stream
	reg(func(fr *frame, a []Value) Value {
		e := fr.e
		p := ptrTo(e.zero(fr.fn.Signature.Results().At(0).Type().(*types.Pointer).Elem()))
		e.values[p] = a[0]
		return p
	}, "encoding/json.NewDecoder", "encoding/json.NewEncoder")
	reg(func(fr *frame, a []Value) Value {
		e := fr.e
		r, ok := e.values[a[0].(*Value)]
		if !ok {
			panic(unsupported("json.Decoder"))
		}
		ra := e.eng.pkgs["io"].Func("ReadAll")
		t := e.callSSA(fr, ra, []Value{r}, nil).(Tuple)
		if er := t[1].(Iface); er.T != nil {
			return er
		}
		d, _ := t[0].(Slice)
		if len(d) == 0 {
			eof := e.global(e.eng.pkgs["io"].Var("EOF"))
			return *eof
		}
		return e.unmarshal(fr, d, a[1].(Iface))
	}, "(*encoding/json.Decoder).Decode")
	reg(nop, "(*encoding/json.Decoder).DisallowUnknownFields", "(*encoding/json.Encoder).SetIndent")
	reg(func(fr *frame, a []Value) Value {
		e := fr.e
		w := e.values[a[0].(*Value)].(Iface)
		x := a[1].(Iface)
		j := &JVal{k: 'n'}
		if x.T != nil {
			var err *Iface
			if j, err = e.toJSON(fr, x.T, x.V, 0); err != nil {
				return *err
			}
		}
		b := append(e.jsonBytes(j), e.c.Const('\n', 8))
		r, _ := e.callMethod(fr, w, "Write", b)
		return r.(Tuple)[1]
	}, "(*encoding/json.Encoder).Encode")

	// msgpack codec: the value is kept as it was at encoding time
	cod := "github.com/hashicorp/go-msgpack/v2/codec."
	reg(func(fr *frame, a []Value) Value {
		e := fr.e
		p := ptrTo(e.zero(fr.fn.Signature.Results().At(0).Type().(*types.Pointer).Elem()))
		e.values[p] = a[0]
		return p
	}, cod+"NewEncoder", cod+"NewDecoder")
	reg(func(fr *frame, a []Value) Value {
		e := fr.e
		p := ptrTo(e.zero(fr.fn.Signature.Results().At(0).Type().(*types.Pointer).Elem()))
		e.values[p] = Iface{T: types.Typ[types.Invalid], V: a[0]}
		return p
	}, cod+"NewEncoderBytes", cod+"NewDecoderBytes")
	reg(func(fr *frame, a []Value) Value {
		e := fr.e
		w, ok := e.values[a[0].(*Value)].(Iface)
		if !ok {
			panic(unsupported("codec.Encoder"))
		}
		x := a[1].(Iface)
		t, v := x.T, x.V
		for {
			p, ok := t.Underlying().(*types.Pointer)
			if !ok {
				break
			}
			t, v = p.Elem(), *fr.ptr(v)
		}
		b := Slice{&Blob{kind: "msgpack", v: e.freeze(v, 12), t: t}}
		if w.T == types.Typ[types.Invalid] {
			storeInto(fr.ptr(w.V), b)
			return Iface{}
		}
		r, _ := e.callMethod(fr, w, "Write", b)
		return r.(Tuple)[1]
	}, "(*"+cod+"Encoder).Encode")
	reg(func(fr *frame, a []Value) Value {
		e := fr.e
		r, ok := e.values[a[0].(*Value)].(Iface)
		if !ok {
			panic(unsupported("codec.Decoder"))
		}
		var d Slice
		if r.T == types.Typ[types.Invalid] {
			d, _ = r.V.(Slice)
		} else {
			t := e.callSSA(fr, e.eng.pkgs["io"].Func("ReadAll"), []Value{r}, nil).(Tuple)
			d, _ = t[0].(Slice)
		}
		x := a[1].(Iface)
		pt, ok := x.T.Underlying().(*types.Pointer)
		if !ok {
			panic(unsupported("msgpack decode into %s", x.T))
		}
		if len(d) != 1 {
			return e.mkError("msgpack: not an encoded value")
		}
		b, ok := d[0].(*Blob)
		if !ok || b.kind != "msgpack" {
			return e.mkError("msgpack: not an encoded value")
		}
		if !types.Identical(b.t, pt.Elem()) {
			panic(unsupported("msgpack decode of %s into %s", b.t, pt.Elem()))
		}
		storeInto(fr.ptr(x.V), e.freeze(b.v, 12))
		return Iface{}
	}, "(*"+cod+"Decoder).Decode")
}

type jfield struct {
	name string
	idx  []int
	t    types.Type
	omit bool
	str  bool
}

func jsonFields(t types.Type) []jfield {
	st := t.Underlying().(*types.Struct)
	var out []jfield
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		tag := reflect.StructTag(st.Tag(i)).Get("json")
		if tag == "-" {
			continue
		}
		parts := strings.Split(tag, ",")
		name := parts[0]
		if f.Embedded() && name == "" {
			ft := f.Type()
			if p, ok := ft.Underlying().(*types.Pointer); ok {
				ft = p.Elem()
			}
			if _, ok := ft.Underlying().(*types.Struct); ok {
				if _, isP := f.Type().Underlying().(*types.Pointer); isP {
					continue
				}
				for _, s := range jsonFields(ft) {
					s.idx = append([]int{i}, s.idx...)
					out = append(out, s)
				}
				continue
			}
		}
		if !f.Exported() {
			continue
		}
		jf := jfield{name: name, idx: []int{i}, t: f.Type()}
		if name == "" {
			jf.name = f.Name()
		}
		for _, o := range parts[1:] {
			if o == "omitempty" {
				jf.omit = true
			}
			if o == "string" {
				jf.str = true
			}
		}
		out = append(out, jf)
	}
	return out
}

func (e *Exec) isEmpty(v Value) bool {
	switch v := v.(type) {
	case *Term:
		if v.w == 0 {
			return !e.branch(v, "omitempty")
		}
		return e.branch(e.c.Eq(v, e.c.Const(0, v.w)), "omitempty")
	case string:
		return v == ""
	case *SymStr:
		return false
	case float64:
		return v == 0
	case Slice:
		return len(v) == 0
	case *MapV:
		return v == nil || v.n == 0
	case *Value:
		return v == nil
	case Iface:
		return v.T == nil
	}
	return false
}

func isRawMessage(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == "RawMessage" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "encoding/json"
}

func (e *Exec) toJSON(fr *frame, t types.Type, v Value, depth int) (*JVal, *Iface) {
	if po, ok := v.(Poison); ok {
		panic(unsupported("poison: %s", po.why))
	}
	if depth > 12 {
		panic(unsupported("JSON depth"))
	}
	if isRawMessage(t) {
		s, _ := v.(Slice)
		if s == nil {
			return &JVal{k: 'n'}, nil
		}
		j, err := e.parseDoc(s)
		if err != nil {
			x := e.mkError("json: error calling MarshalJSON for type json.RawMessage: " + err.Error()).(Iface)
			return nil, &x
		}
		return j, nil
	}
	if p, ok := v.(*Value); ok && p == nil {
		return &JVal{k: 'n'}, nil
	}
	if _, ok := t.Underlying().(*types.Interface); !ok {
		if f := e.eng.methodByName(t, "MarshalJSON"); f != nil {
			if fnPkg(f) == "time" {
				panic(unsupported("JSON of time values"))
			}
			r := e.callSSA(fr, f, []Value{copyVal(v)}, nil).(Tuple)
			if er := r[1].(Iface); er.T != nil {
				return nil, &er
			}
			j, err := e.parseDoc(r[0].(Slice))
			if err != nil {
				x := e.mkError("json: " + err.Error()).(Iface)
				return nil, &x
			}
			return j, nil
		}
		if f := e.eng.methodByName(t, "MarshalText"); f != nil {
			r := e.callSSA(fr, f, []Value{copyVal(v)}, nil).(Tuple)
			if er := r[1].(Iface); er.T != nil {
				return nil, &er
			}
			return &JVal{k: 's', s: mkStr(r[0].(Slice))}, nil
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return &JVal{k: 'b', t: e.asTerm(v)}, nil
		case u.Info()&types.IsInteger != 0:
			sg := isSigned(t)
			tm := e.asTerm(v)
			if sg {
				tm = e.c.SExt(tm, 64)
			} else {
				tm = e.c.ZExt(tm, 64)
			}
			return &JVal{k: 'i', t: tm, sg: sg}, nil
		case u.Info()&types.IsFloat != 0:
			f := v.(float64)
			if math.IsNaN(f) || math.IsInf(f, 0) {
				x := e.mkError("json: unsupported value").(Iface)
				return nil, &x
			}
			return &JVal{k: 'f', f: f}, nil
		case u.Info()&types.IsString != 0:
			return &JVal{k: 's', s: v}, nil
		}
	case *types.Pointer:
		return e.toJSON(fr, u.Elem(), *fr.ptr(v), depth+1)
	case *types.Interface:
		x := v.(Iface)
		if x.T == nil {
			return &JVal{k: 'n'}, nil
		}
		return e.toJSON(fr, x.T, x.V, depth+1)
	case *types.Struct:
		j := &JVal{k: 'o'}
		for _, f := range jsonFields(t) {
			fv := v
			for _, i := range f.idx {
				fv = fv.(Struct)[i]
			}
			if f.omit && e.isEmpty(fv) {
				continue
			}
			x, err := e.toJSON(fr, f.t, fv, depth+1)
			if err != nil {
				return nil, err
			}
			if f.str && x.k == 'i' {
				if x.t.isConst() {
					if x.sg {
						x = &JVal{k: 's', s: strconv.FormatInt(int64(x.t.val), 10)}
					} else {
						x = &JVal{k: 's', s: strconv.FormatUint(x.t.val, 10)}
					}
				} else {
					x = &JVal{k: 's', s: &SymStr{[]Value{e.mkDec(x.t, x.sg)}}}
				}
			} else if f.str && x.k != 'n' {
				panic(unsupported("json string option"))
			}
			j.keys = append(j.keys, f.name)
			j.vals = append(j.vals, x)
		}
		return j, nil
	case *types.Slice:
		s, _ := v.(Slice)
		if eb, ok := u.Elem().Underlying().(*types.Basic); ok && eb.Kind() == types.Uint8 {
			if s == nil {
				return &JVal{k: 'n'}, nil
			}
			return &JVal{k: '6', b: append([]Value{}, s...)}, nil
		}
		if s == nil {
			return &JVal{k: 'n'}, nil
		}
		j := &JVal{k: 'a'}
		for _, x := range s {
			y, err := e.toJSON(fr, u.Elem(), x, depth+1)
			if err != nil {
				return nil, err
			}
			j.arr = append(j.arr, y)
		}
		return j, nil
	case *types.Array:
		j := &JVal{k: 'a'}
		for _, x := range v.(Array) {
			y, err := e.toJSON(fr, u.Elem(), x, depth+1)
			if err != nil {
				return nil, err
			}
			j.arr = append(j.arr, y)
		}
		return j, nil
	case *types.Map:
		m := v.(*MapV)
		if m == nil {
			return &JVal{k: 'n'}, nil
		}
		j := &JVal{k: 'o'}
		ents := append([]*mapEntry{}, m.entries...)
		sort.SliceStable(ents, func(i, k int) bool {
			x, ok1 := ents[i].k.(string)
			y, ok2 := ents[k].k.(string)
			return ok1 && ok2 && x < y
		})
		for _, en := range ents {
			var key Value = en.k
			if tm, ok := en.k.(*Term); ok {
				if tm.isConst() {
					if isSigned(u.Key()) {
						key = strconv.FormatInt(sext(tm.val, tm.w), 10)
					} else {
						key = strconv.FormatUint(tm.val, 10)
					}
				} else {
					key = &SymStr{[]Value{e.mkDec(tm, isSigned(u.Key()))}}
				}
			}
			x, err := e.toJSON(fr, u.Elem(), en.v, depth+1)
			if err != nil {
				return nil, err
			}
			j.keys = append(j.keys, key)
			j.vals = append(j.vals, x)
		}
		return j, nil
	}
	x := e.mkError("json: unsupported type: " + t.String()).(Iface)
	return nil, &x
}

// jsonBytes renders a document: real text when it is constant.
func (e *Exec) jsonBytes(j *JVal) Slice {
	if s, ok := jsonText(j, nil, nil); ok {
		return Slice(e.txt(s))
	}
	return Slice{&Blob{kind: "json", v: j}}
}

// jsonText renders under a model (ev nil: only constants are allowed).
func jsonText(j *JVal, ev func(*Term) uint64, str func(Value) string) (string, bool) {
	val := func(t *Term) (uint64, bool) {
		if t.isConst() {
			return t.val, true
		}
		if ev == nil {
			return 0, false
		}
		return ev(t), true
	}
	text := func(v Value) (string, bool) {
		if s, ok := v.(string); ok {
			return s, true
		}
		if str == nil {
			return "", false
		}
		return str(v), true
	}
	switch j.k {
	case 'n':
		return "null", true
	case 'b':
		x, ok := val(j.t)
		return strconv.FormatBool(x == 1), ok
	case 'i':
		x, ok := val(j.t)
		if j.sg {
			return strconv.FormatInt(int64(x), 10), ok
		}
		return strconv.FormatUint(x, 10), ok
	case 'f':
		b, _ := json.Marshal(j.f)
		return string(b), true
	case 's':
		s, ok := text(j.s)
		if !ok {
			return "", false
		}
		b, _ := json.Marshal(s)
		return string(b), true
	case '6':
		s, ok := text(mkStr(j.b))
		if !ok {
			return "", false
		}
		return `"` + base64.StdEncoding.EncodeToString([]byte(s)) + `"`, true
	case 'a':
		var p []string
		for _, x := range j.arr {
			s, ok := jsonText(x, ev, str)
			if !ok {
				return "", false
			}
			p = append(p, s)
		}
		return "[" + strings.Join(p, ",") + "]", true
	case 'o':
		var p []string
		for i, x := range j.vals {
			k, ok := text(j.keys[i])
			if !ok {
				return "", false
			}
			s, ok := jsonText(x, ev, str)
			if !ok {
				return "", false
			}
			b, _ := json.Marshal(k)
			p = append(p, string(b)+":"+s)
		}
		return "{" + strings.Join(p, ",") + "}", true
	}
	return "", false
}

// parseDoc turns bytes into a document.
func (e *Exec) parseDoc(d Slice) (*JVal, error) {
	// strip constant white space
	isWS := func(v Value) bool {
		t, ok := v.(*Term)
		return ok && t.isConst() && (t.val == ' ' || t.val == '\n' || t.val == '\t' || t.val == '\r')
	}
	for len(d) > 0 && isWS(d[0]) {
		d = d[1:]
	}
	for len(d) > 0 && isWS(d[len(d)-1]) {
		d = d[:len(d)-1]
	}
	if len(d) == 0 {
		return nil, fmt.Errorf("unexpected end of JSON input")
	}
	if len(d) == 1 {
		if b, ok := d[0].(*Blob); ok {
			if b.kind == "json" {
				return b.v.(*JVal), nil
			}
			return nil, fmt.Errorf("invalid character in JSON input")
		}
	}
	s, ok := mkStr(d).(string)
	if !ok {
		// decimal text alone is a number
		if len(d) == 1 {
			if x, ok := d[0].(*Dec); ok {
				return &JVal{k: 'i', t: x.t, sg: x.signed}, nil
			}
		}
		panic(unsupported("JSON parsing of symbolic text"))
	}
	return e.parseText(s)
}

func (e *Exec) parseText(s string) (*JVal, error) {
	if !json.Valid([]byte(s)) {
		var x interface{}
		return nil, json.Unmarshal([]byte(s), &x)
	}
	dec := json.NewDecoder(bytes.NewReader([]byte(s)))
	dec.UseNumber()
	var rd func() (*JVal, error)
	rd = func() (*JVal, error) {
		t, err := dec.Token()
		if err != nil {
			return nil, err
		}
		switch t := t.(type) {
		case nil:
			return &JVal{k: 'n'}, nil
		case bool:
			return &JVal{k: 'b', t: e.c.Bool(t)}, nil
		case json.Number:
			if i, err := strconv.ParseInt(string(t), 10, 64); err == nil {
				return &JVal{k: 'i', t: e.num(i), sg: true}, nil
			}
			if u, err := strconv.ParseUint(string(t), 10, 64); err == nil {
				return &JVal{k: 'i', t: e.c.Const(u, 64)}, nil
			}
			f, _ := t.Float64()
			return &JVal{k: 'f', f: f}, nil
		case string:
			return &JVal{k: 's', s: t}, nil
		case json.Delim:
			if t == '[' {
				j := &JVal{k: 'a'}
				for dec.More() {
					x, err := rd()
					if err != nil {
						return nil, err
					}
					j.arr = append(j.arr, x)
				}
				dec.Token()
				return j, nil
			}
			j := &JVal{k: 'o'}
			for dec.More() {
				k, err := dec.Token()
				if err != nil {
					return nil, err
				}
				x, err := rd()
				if err != nil {
					return nil, err
				}
				j.keys = append(j.keys, k.(string))
				j.vals = append(j.vals, x)
			}
			dec.Token()
			return j, nil
		}
		return nil, fmt.Errorf("bad token")
	}
	return rd()
}

func (e *Exec) unmarshal(fr *frame, d Slice, dst Iface) Value {
	if dst.T == nil {
		return e.mkError("json: Unmarshal(nil)")
	}
	pt, ok := dst.T.Underlying().(*types.Pointer)
	if !ok {
		return e.mkError("json: Unmarshal(non-pointer " + dst.T.String() + ")")
	}
	if p, ok := dst.V.(*Value); ok && p == nil {
		return e.mkError("json: Unmarshal(nil " + dst.T.String() + ")")
	}
	j, err := e.parseDoc(d)
	if err != nil {
		return e.mkError(err.Error())
	}
	first := Value(Iface{})
	fail := func(m string) {
		if first.(Iface).T == nil {
			first = e.mkError(m)
		}
	}
	e.fromJSON(fr, pt.Elem(), fr.ptr(dst.V), j, fail)
	return first
}

func (e *Exec) fromJSON(fr *frame, t types.Type, p *Value, j *JVal, fail func(string)) {
	bad := func(what string) {
		fail("json: cannot unmarshal " + what + " into Go value of type " + t.String())
	}
	if isRawMessage(t) {
		storeInto(p, e.jsonBytes(j))
		return
	}
	if _, isI := t.Underlying().(*types.Interface); !isI {
		ptrT := types.NewPointer(t)
		if _, isP := t.Underlying().(*types.Pointer); !isP {
			if f := e.eng.methodByName(ptrT, "UnmarshalJSON"); f != nil {
				r := e.callSSA(fr, f, []Value{p, e.jsonBytes(j)}, nil).(Iface)
				if r.T != nil {
					m, _ := e.callMethod(fr, r, "Error")
					if s, ok := m.(string); ok {
						fail(s)
					} else {
						fail("json: UnmarshalJSON failed")
					}
				}
				return
			}
			if f := e.eng.methodByName(ptrT, "UnmarshalText"); f != nil && j.k == 's' {
				r := e.callSSA(fr, f, []Value{p, Slice(strElems(e.c, j.s))}, nil).(Iface)
				if r.T != nil {
					fail("json: UnmarshalText failed")
				}
				return
			}
		}
	}
	if j.k == 'n' {
		switch t.Underlying().(type) {
		case *types.Pointer, *types.Slice, *types.Map, *types.Interface:
			storeInto(p, e.zero(t))
		}
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			if j.k != 'b' {
				bad("value")
				return
			}
			storeInto(p, j.t)
		case u.Info()&types.IsString != 0:
			switch j.k {
			case 's':
				storeInto(p, j.s)
			case '6':
				s, ok := mkStr(j.b).(string)
				if !ok {
					panic(unsupported("base64 of symbolic bytes"))
				}
				storeInto(p, base64.StdEncoding.EncodeToString([]byte(s)))
			default:
				bad("value")
			}
		case u.Info()&types.IsInteger != 0:
			w := width(u)
			sg := isSigned(u)
			switch j.k {
			case 'i':
				var in *Term
				if sg {
					in = e.c.And(e.c.Sle(e.c.Const(uint64(smin(w)), 64), j.t), e.c.Sle(j.t, e.c.Const(uint64(smax(w)), 64)))
					if !j.sg {
						in = e.c.And(in, e.c.Sle(e.num(0), j.t))
					}
				} else {
					in = e.c.Ule(j.t, e.c.Const(mask(w), 64))
					if j.sg {
						in = e.c.And(in, e.c.Sle(e.num(0), j.t))
					}
				}
				if !e.branch(in, "JSON number range") {
					bad("number")
					return
				}
				x := j.t
				if w < 64 {
					x = e.c.Extract(x, 0, w)
				}
				storeInto(p, x)
			case 'f':
				bad("number")
			default:
				bad("value")
			}
		case u.Info()&types.IsFloat != 0:
			switch j.k {
			case 'f':
				storeInto(p, j.f)
			case 'i':
				if j.sg {
					storeInto(p, float64(int64(e.concretize(j.t, "JSON float"))))
				} else {
					storeInto(p, float64(e.concretize(j.t, "JSON float")))
				}
			default:
				bad("value")
			}
		}
	case *types.Pointer:
		q, _ := (*p).(*Value)
		if q == nil {
			q = ptrTo(e.zero(u.Elem()))
			storeInto(p, q)
		}
		e.fromJSON(fr, u.Elem(), q, j, fail)
	case *types.Interface:
		if u.NumMethods() > 0 {
			bad("value")
			return
		}
		storeInto(p, e.jsonAny(j))
	case *types.Struct:
		if j.k != 'o' {
			bad("value")
			return
		}
		fs := jsonFields(t)
		for i, k := range j.keys {
			ks, ok := k.(string)
			if !ok {
				panic(unsupported("symbolic JSON object key"))
			}
			var hit *jfield
			for n := range fs {
				if fs[n].name == ks {
					hit = &fs[n]
					break
				}
			}
			if hit == nil {
				for n := range fs {
					if strings.EqualFold(fs[n].name, ks) {
						hit = &fs[n]
						break
					}
				}
			}
			if hit == nil {
				continue
			}
			q := p
			for _, ix := range hit.idx {
				s := (*q).(Struct)
				q = &s[ix]
			}
			x := j.vals[i]
			if hit.str && x.k == 's' {
				y, err := e.parseDoc(Slice(strElems(e.c, x.s)))
				if err != nil {
					bad("string")
					continue
				}
				x = y
			}
			e.fromJSON(fr, hit.t, q, x, fail)
		}
	case *types.Slice:
		if eb, ok := u.Elem().Underlying().(*types.Basic); ok && eb.Kind() == types.Uint8 {
			switch j.k {
			case '6':
				storeInto(p, Slice(append([]Value{}, j.b...)))
			case 's':
				s, ok := j.s.(string)
				if !ok {
					panic(unsupported("base64 of symbolic text"))
				}
				b, err := base64.StdEncoding.DecodeString(s)
				if err != nil {
					fail(err.Error())
					return
				}
				storeInto(p, Slice(e.txt(string(b))))
			default:
				bad("value")
			}
			return
		}
		if j.k != 'a' {
			bad("value")
			return
		}
		s := make(Slice, len(j.arr))
		for i := range s {
			s[i] = e.zero(u.Elem())
			e.fromJSON(fr, u.Elem(), &s[i], j.arr[i], fail)
		}
		storeInto(p, s)
	case *types.Array:
		if j.k != 'a' {
			bad("value")
			return
		}
		a := (*p).(Array)
		for i := range a {
			if i < len(j.arr) {
				e.fromJSON(fr, u.Elem(), &a[i], j.arr[i], fail)
			} else {
				storeInto(&a[i], e.zero(u.Elem()))
			}
		}
	case *types.Map:
		if j.k != 'o' {
			bad("value")
			return
		}
		m, _ := (*p).(*MapV)
		if m == nil {
			m = newMap()
			storeInto(p, m)
		}
		for i, k := range j.keys {
			var key Value = k
			if b, ok := u.Key().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				r := e.parseInt(fr, k, 10, int(width(b)), isSigned(b), "ParseInt").(Tuple)
				if r[1].(Iface).T != nil {
					bad("number " + "key")
					continue
				}
				key = r[0]
				if width(b) < 64 {
					key = e.c.Extract(r[0].(*Term), 0, width(b))
				}
			}
			v := ptrTo(e.zero(u.Elem()))
			e.fromJSON(fr, u.Elem(), v, j.vals[i], fail)
			e.mapSet(u.Key(), m, key, *v)
		}
	default:
		bad("value")
	}
}

func (e *Exec) jsonAny(j *JVal) Value {
	switch j.k {
	case 'n':
		return Iface{}
	case 'b':
		return Iface{types.Typ[types.Bool], j.t}
	case 's':
		return Iface{types.Typ[types.String], j.s}
	case 'f':
		return Iface{types.Typ[types.Float64], j.f}
	case 'i':
		if j.sg {
			return Iface{types.Typ[types.Float64], float64(int64(e.concretize(j.t, "JSON number")))}
		}
		return Iface{types.Typ[types.Float64], float64(e.concretize(j.t, "JSON number"))}
	case 'a':
		s := Slice{}
		for _, x := range j.arr {
			s = append(s, e.jsonAny(x))
		}
		return Iface{types.NewSlice(types.NewInterfaceType(nil, nil)), s}
	case 'o':
		m := newMap()
		for i, k := range j.keys {
			e.mapSet(types.Typ[types.String], m, k, e.jsonAny(j.vals[i]))
		}
		return Iface{types.NewMap(types.Typ[types.String], types.NewInterfaceType(nil, nil)), m}
	}
	panic(unsupported("JSON any"))
}

// ---- snapshots and rendering

// freeze copies a value deeply.
func (e *Exec) freeze(v Value, d int) Value {
	if d == 0 {
		return v
	}
	switch v := v.(type) {
	case Struct:
		r := make(Struct, len(v))
		for i, x := range v {
			r[i] = e.freeze(x, d)
		}
		return r
	case Array:
		r := make(Array, len(v))
		for i, x := range v {
			r[i] = e.freeze(x, d)
		}
		return r
	case Slice:
		if v == nil {
			return v
		}
		r := make(Slice, len(v))
		for i, x := range v {
			r[i] = e.freeze(x, d)
		}
		return r
	case Iface:
		return Iface{v.T, e.freeze(v.V, d)}
	case *Value:
		if v == nil {
			return v
		}
		return ptrTo(e.freeze(*v, d-1))
	case *MapV:
		if v == nil {
			return v
		}
		m := newMap()
		for _, en := range v.entries {
			ne := &mapEntry{k: e.freeze(en.k, d-1), v: e.freeze(en.v, d-1)}
			m.entries = append(m.entries, ne)
			m.n++
			var sb strings.Builder
			if concKey(ne.k, &sb) {
				m.conc[sb.String()] = ne
			} else {
				m.nsym++
			}
		}
		return m
	}
	return v
}

func (e *Exec) concString(v Value, m Model) string {
	switch v := v.(type) {
	case string:
		return v
	case *SymStr:
		var sb strings.Builder
		for _, x := range v.e {
			switch x := x.(type) {
			case *Term:
				sb.WriteByte(byte(e.c.Eval(x, m)))
			case *Dec:
				n := e.c.Eval(x.t, m)
				if x.signed {
					sb.WriteString(strconv.FormatInt(int64(n), 10))
				} else {
					sb.WriteString(strconv.FormatUint(n, 10))
				}
			case *Atom:
				fmt.Fprintf(&sb, "atom%d", e.c.Eval(x.t, m))
			case *Blob:
				if x.kind == "json" {
					s, _ := jsonText(x.v.(*JVal), func(t *Term) uint64 { return e.c.Eval(t, m) }, func(v Value) string { return e.concString(v, m) })
					sb.WriteString(s)
				} else {
					sb.WriteString("<" + x.kind + ">")
				}
			}
		}
		return sb.String()
	}
	return fmt.Sprintf("%T", v)
}

// concRender renders a value under a model, in the format of the native
// sym.Observe.
func (e *Exec) concRender(v Value, m Model, d int) string {
	if i, ok := v.(Iface); ok {
		if i.T == nil {
			return "nil"
		}
		return e.concRenderT(i.T, i.V, m, d)
	}
	return e.concRenderT(nil, v, m, d)
}

func (e *Exec) concRenderT(t types.Type, v Value, m Model, d int) string {
	if d == 0 {
		return "…"
	}
	switch v := v.(type) {
	case *Term:
		n := e.c.Eval(v, m)
		if v.w == 0 {
			return strconv.FormatBool(n == 1)
		}
		if t != nil && isSigned(t) {
			return strconv.FormatInt(sext(n, v.w), 10)
		}
		return strconv.FormatUint(n, 10)
	case string, *SymStr:
		return strconv.Quote(e.concString(v, m))
	case float64:
		return strconv.FormatFloat(v, 'g', -1, 64)
	case Struct:
		var p []string
		st, _ := t.Underlying().(*types.Struct)
		for i, x := range v {
			var ft types.Type
			if st != nil {
				ft = st.Field(i).Type()
			}
			p = append(p, e.concRenderT(ft, x, m, d-1))
		}
		return "{" + strings.Join(p, " ") + "}"
	case Slice:
		if v == nil {
			return "[]"
		}
		var et types.Type
		if t != nil {
			if st, ok := t.Underlying().(*types.Slice); ok {
				et = st.Elem()
			}
		}
		if et != nil {
			if b, ok := et.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				return strconv.Quote(e.concString(mkStr(v), m))
			}
		}
		var p []string
		for _, x := range v {
			p = append(p, e.concRenderT(et, x, m, d-1))
		}
		return "[" + strings.Join(p, " ") + "]"
	case Array:
		var p []string
		var et types.Type
		if at, ok := t.Underlying().(*types.Array); ok {
			et = at.Elem()
		}
		for _, x := range v {
			p = append(p, e.concRenderT(et, x, m, d-1))
		}
		return "[" + strings.Join(p, " ") + "]"
	case *Value:
		if v == nil {
			return "nil"
		}
		var et types.Type
		if t != nil {
			if pt, ok := t.Underlying().(*types.Pointer); ok {
				et = pt.Elem()
			}
		}
		return "&" + e.concRenderT(et, *v, m, d-1)
	case Iface:
		if v.T == nil {
			return "nil"
		}
		return e.concRenderT(v.T, v.V, m, d)
	case *MapV:
		if v == nil {
			return "map[]"
		}
		var p []string
		var kt, vt types.Type
		if t != nil {
			if mt, ok := t.Underlying().(*types.Map); ok {
				kt, vt = mt.Key(), mt.Elem()
			}
		}
		for _, en := range v.entries {
			p = append(p, e.concRenderT(kt, en.k, m, d-1)+":"+e.concRenderT(vt, en.v, m, d-1))
		}
		sort.Strings(p)
		return "map[" + strings.Join(p, " ") + "]"
	case *ssa.Function:
		return "func"
	}
	return fmt.Sprintf("%T", v)
}
