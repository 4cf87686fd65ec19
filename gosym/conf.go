package main

import (
	"go/types"
	"reflect"
	"strconv"
	"strings"
)

// Configuration: mapstructure's decoding of a settings map into a struct, with
// weak typing, by the struct's own tags.
func init() {
	const ms = "github.com/mitchellh/mapstructure."
	reg(func(fr *frame, a []Value) Value {
		t := fr.fn.Signature.Results().At(0).Type().(*types.Pointer).Elem()
		z := fr.e.zero(t).(Struct)
		z[fieldIndex(t, "config")] = a[0]
		return Tuple{ptrTo(z), Iface{}}
	}, ms+"NewDecoder")
	reg(nop, ms+"ComposeDecodeHookFunc", ms+"StringToTimeDurationHookFunc", ms+"StringToSliceHookFunc")
	reg(func(fr *frame, a []Value) Value {
		e := fr.e
		dt := fr.fn.Signature.Recv().Type().(*types.Pointer).Elem()
		d := (*fr.ptr(a[0])).(Struct)
		ix := fieldIndex(dt, "config")
		ct := dt.Underlying().(*types.Struct).Field(ix).Type().(*types.Pointer).Elem()
		c := (*fr.ptr(d[ix])).(Struct)
		flag := func(n string) bool {
			i := fieldIndex(ct, n)
			if i < 0 {
				return false
			}
			b := e.asTerm(c[i])
			if !b.isConst() {
				panic(unsupported("symbolic decoder option"))
			}
			return b.val == 1
		}
		for _, n := range []string{"ErrorUnused", "ErrorUnset", "ZeroFields", "Squash", "IgnoreUntaggedFields"} {
			if flag(n) {
				panic(unsupported("decoder option " + n))
			}
		}
		tagName := "mapstructure"
		if s, ok := c[fieldIndex(ct, "TagName")].(string); ok && s != "" {
			tagName = s
		}
		res := c[fieldIndex(ct, "Result")].(Iface)
		pt, ok := res.T.Underlying().(*types.Pointer)
		if !ok {
			return e.mkError("result must be a pointer")
		}
		in, ok := a[1].(Iface)
		if !ok || in.T == nil {
			return Iface{}
		}
		if err := e.msDecode(fr, pt.Elem(), fr.ptr(res.V), in, flag("WeaklyTypedInput"), tagName); err != "" {
			return e.mkError(err)
		}
		return Iface{}
	}, "(*github.com/mitchellh/mapstructure.Decoder).Decode")

	reg(func(fr *frame, a []Value) Value {
		if x, ok := a[0].(Iface); ok && x.T != nil {
			if _, ok := x.T.Underlying().(*types.Pointer); ok {
				panic(unsupported("conversion of a pointer"))
			}
		}
		return a[0]
	}, "github.com/spf13/cast.indirect", "github.com/spf13/cast.indirectToStringerOrError")

	// a number's text has no decimal point
	reg(func(fr *frame, a []Value) Value {
		if s, ok := a[0].(*SymStr); ok {
			if len(s.e) == 1 {
				if _, ok := s.e[0].(*Dec); ok {
					return s
				}
			}
			panic(unsupported("number text"))
		}
		s := a[0].(string)
		zero := false
		for i := len(s); i > 0; i-- {
			switch s[i-1] {
			case '.':
				if zero {
					return s[:i-1]
				}
			case '0':
				zero = true
			default:
				return s
			}
		}
		return s
	}, "github.com/spf13/cast.trimZeroDecimal")
}

func (e *Exec) msDecode(fr *frame, t types.Type, p *Value, in Iface, weak bool, tagName string) string {
	if in.T == nil {
		return ""
	}
	it := in.T.Underlying()
	switch u := t.Underlying().(type) {
	case *types.Struct:
		mt, ok := it.(*types.Map)
		if !ok {
			return "expected a map"
		}
		m, _ := in.V.(*MapV)
		if m == nil {
			return ""
		}
		var errs string
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if !f.Exported() {
				continue
			}
			tag := strings.Split(reflect.StructTag(u.Tag(i)).Get(tagName), ",")
			if len(tag) > 1 {
				panic(unsupported("mapstructure option " + strings.Join(tag[1:], ",")))
			}
			name := tag[0]
			if name == "" {
				name = f.Name()
			}
			var hit *mapEntry
			for _, en := range m.entries {
				if en.dead {
					continue
				}
				k := en.k
				if x, ok := k.(Iface); ok {
					k = x.V
				}
				ks, ok := k.(string)
				if !ok {
					panic(unsupported("symbolic setting name"))
				}
				if ks == name {
					hit = en
					break
				}
			}
			if hit == nil {
				for _, en := range m.entries {
					if en.dead {
						continue
					}
					k := en.k
					if x, ok := k.(Iface); ok {
						k = x.V
					}
					if ks, _ := k.(string); strings.EqualFold(ks, name) {
						hit = en
						break
					}
				}
			}
			if hit == nil {
				continue
			}
			v, ok := hit.v.(Iface)
			if !ok {
				v = Iface{T: mt.Elem(), V: hit.v}
			}
			if s := e.msDecode(fr, f.Type(), &(*p).(Struct)[i], v, weak, tagName); s != "" {
				errs = s
			}
		}
		return errs
	case *types.Basic:
		src, ok := it.(*types.Basic)
		if !ok {
			return "unconvertible type"
		}
		isF := func(b *types.Basic) bool { return b.Info()&types.IsFloat != 0 }
		isI := func(b *types.Basic) bool { return b.Info()&types.IsInteger != 0 }
		isS := func(b *types.Basic) bool { return b.Info()&types.IsString != 0 }
		isB := func(b *types.Basic) bool { return b.Info()&types.IsBoolean != 0 }
		switch {
		case isS(u):
			switch {
			case isS(src):
				storeInto(p, in.V)
			case !weak:
				return "expected a string"
			case isB(src):
				b := e.asTerm(in.V)
				if e.branch(b, "boolean") {
					storeInto(p, "1")
				} else {
					storeInto(p, "0")
				}
			case isI(src):
				x := e.widen(in.V, src)
				if x.isConst() {
					if isSigned(src) {
						storeInto(p, strconv.FormatInt(int64(x.val), 10))
					} else {
						storeInto(p, strconv.FormatUint(x.val, 10))
					}
				} else {
					storeInto(p, mkStr([]Value{e.mkDec(x, isSigned(src))}))
				}
			case isF(src):
				storeInto(p, strconv.FormatFloat(in.V.(float64), 'f', -1, 64))
			}
		case isB(u):
			switch {
			case isB(src):
				storeInto(p, in.V)
			case !weak:
				return "expected a boolean"
			case isI(src):
				x := e.widen(in.V, src)
				storeInto(p, e.c.Not(e.c.Eq(x, e.num(0))))
			case isF(src):
				storeInto(p, e.c.Bool(in.V.(float64) != 0))
			case isS(src):
				s, ok := in.V.(string)
				if !ok {
					panic(unsupported("symbolic boolean text"))
				}
				b, err := strconv.ParseBool(s)
				if err != nil && s != "" {
					return "cannot parse as bool"
				}
				storeInto(p, e.c.Bool(b))
			}
		case isI(u):
			w := width(u)
			put := func(x *Term) {
				if w < 64 {
					x = e.c.Extract(x, 0, w)
				}
				storeInto(p, x)
			}
			switch {
			case isI(src):
				put(e.widen(in.V, src))
			case isF(src):
				put(e.num(int64(in.V.(float64))))
			case !weak:
				return "expected an integer"
			case isB(src):
				put(e.c.Ite(e.asTerm(in.V), e.num(1), e.num(0)))
			case isS(src):
				if in.V == "" {
					put(e.num(0))
					break
				}
				r := e.parseInt(fr, in.V, 0, int(w), isSigned(u), "ParseInt").(Tuple)
				if r[1].(Iface).T != nil {
					return "cannot parse as int"
				}
				put(e.asTerm(r[0]))
			}
		case isF(u):
			switch {
			case isF(src):
				storeInto(p, in.V)
			case isI(src):
				x := e.widen(in.V, src)
				if !x.isConst() {
					panic(unsupported("symbolic number as a float"))
				}
				storeInto(p, float64(int64(x.val)))
			case !weak:
				return "expected a float"
			case isS(src):
				s, ok := in.V.(string)
				if !ok {
					panic(unsupported("symbolic float text"))
				}
				if s == "" {
					s = "0"
				}
				f, err := strconv.ParseFloat(s, 64)
				if err != nil {
					return "cannot parse as float"
				}
				storeInto(p, f)
			default:
				panic(unsupported("boolean as a float"))
			}
		default:
			panic(unsupported("setting of type %s", t))
		}
		return ""
	}
	panic(unsupported("setting of type %s", t))
}

func (e *Exec) widen(v Value, b *types.Basic) *Term {
	x := e.asTerm(v)
	if x.w == 64 {
		return x
	}
	if isSigned(b) {
		return e.c.SExt(x, 64)
	}
	return e.c.ZExt(x, 64)
}
