package main

import (
	"fmt"
	"go/types"
	"net/url"
	"reflect"
	"strconv"
	"strings"
)

// URLs: text functions that treat every unreserved character alike run on a
// text in which the symbolic pieces are replaced by letters.
type holes struct {
	e  *Exec
	in []Value
}

func (h *holes) out(s Value) string {
	if c, ok := s.(string); ok {
		return c
	}
	e := h.e
	var b strings.Builder
	for _, x := range strElems(e.c, s) {
		if t, ok := x.(*Term); ok {
			if t.isConst() {
				b.WriteByte(byte(t.val))
				continue
			}
			k := func(n byte) *Term { return e.c.Const(uint64(n), 8) }
			al := func(lo, hi byte) *Term { return e.c.And(e.c.Ule(k(lo), t), e.c.Ule(t, k(hi))) }
			if !e.branch(e.c.Or(e.c.Or(al('a', 'z'), al('A', 'Z')), al('0', '9')), "URL text") {
				panic(unsupported("symbolic reserved character in a URL"))
			}
		}
		fmt.Fprintf(&b, "zQ%dQz", len(h.in))
		h.in = append(h.in, x)
	}
	return b.String()
}

func (h *holes) back(s string) Value {
	if len(h.in) == 0 {
		return s
	}
	var el []Value
	for len(s) > 0 {
		i := strings.Index(s, "zQ")
		if i < 0 {
			break
		}
		j := strings.Index(s[i:], "Qz")
		if j < 0 {
			break
		}
		n, err := strconv.Atoi(s[i+2 : i+j])
		if err != nil || n >= len(h.in) {
			el = append(el, strElems(h.e.c, s[:i+2])...)
			s = s[i+2:]
			continue
		}
		el = append(el, strElems(h.e.c, s[:i])...)
		el = append(el, h.in[n])
		s = s[i+j+2:]
	}
	el = append(el, strElems(h.e.c, s)...)
	return mkStr(el)
}

var urlFields = []string{"Scheme", "Opaque", "Host", "Path", "RawPath", "RawQuery", "Fragment", "RawFragment"}

func init() {
	urlOf := func(fr *frame, v Value, h *holes) *url.URL {
		p := fr.ptr(v)
		s := (*p).(Struct)
		t := fr.fn.Signature.Recv().Type()
		u := &url.URL{}
		for _, n := range urlFields {
			reflect.ValueOf(u).Elem().FieldByName(n).SetString(h.out(s[fieldIndex(t, n)]))
		}
		if q, ok := s[fieldIndex(t, "User")].(*Value); ok && q != nil {
			panic(unsupported("URL with user"))
		}
		if b := fr.e.asTerm(s[fieldIndex(t, "ForceQuery")]); b.isConst() {
			u.ForceQuery = b.val == 1
		}
		return u
	}
	for name, f := range map[string]func(u *url.URL) string{
		"String": (*url.URL).String, "EscapedPath": (*url.URL).EscapedPath, "RequestURI": (*url.URL).RequestURI,
	} {
		f := f
		reg(func(fr *frame, a []Value) Value {
			h := &holes{e: fr.e}
			return h.back(f(urlOf(fr, a[0], h)))
		}, "(*net/url.URL)."+name)
	}
	parse := func(f func(string) (*url.URL, error)) intrinsic {
		return func(fr *frame, a []Value) Value {
			e := fr.e
			h := &holes{e: e}
			u, err := f(h.out(a[0]))
			if err != nil {
				return Tuple{(*Value)(nil), e.mkError("parse: " + err.Error())}
			}
			if u.User != nil {
				panic(unsupported("URL with user"))
			}
			t := fr.fn.Signature.Results().At(0).Type().(*types.Pointer).Elem()
			z := e.zero(t).(Struct)
			for _, n := range urlFields {
				z[fieldIndex(t, n)] = h.back(reflect.ValueOf(u).Elem().FieldByName(n).String())
			}
			z[fieldIndex(t, "ForceQuery")] = e.c.Bool(u.ForceQuery)
			return Tuple{ptrTo(z), Iface{}}
		}
	}
	reg(parse(url.Parse), "net/url.Parse")
	reg(parse(url.ParseRequestURI), "net/url.ParseRequestURI")
	for name, f := range map[string]func(string) string{"PathEscape": url.PathEscape, "QueryEscape": url.QueryEscape} {
		f := f
		reg(func(fr *frame, a []Value) Value {
			h := &holes{e: fr.e}
			return h.back(f(h.out(a[0])))
		}, "net/url."+name)
	}
	for name, f := range map[string]func(string) (string, error){"PathUnescape": url.PathUnescape, "QueryUnescape": url.QueryUnescape} {
		f := f
		reg(func(fr *frame, a []Value) Value {
			h := &holes{e: fr.e}
			s, err := f(h.out(a[0]))
			if err != nil {
				return Tuple{"", fr.e.mkError(err.Error())}
			}
			return Tuple{h.back(s), Iface{}}
		}, "net/url."+name)
	}
}

// huma: the registered handlers are called with an input built from the
// request as the struct tags of the input type say.
func init() {
	reg(nop, "github.com/danielgtaylor/huma/v2.DefaultConfig")
	reg(func(fr *frame, a []Value) Value {
		e := fr.e
		p := e.eng.pkgs[vpath+"/symhttp"]
		if p == nil {
			return nil
		}
		op := a[1].(Struct)
		ps := fr.fn.Signature.Params()
		t := ps.At(1).Type()
		return e.callSSA(fr, p.Func("Route"), []Value{op[fieldIndex(t, "Method")], op[fieldIndex(t, "Path")], Iface{T: ps.At(2).Type(), V: a[2]}}, nil)
	}, "github.com/danielgtaylor/huma/v2.Register")

	// invoke(ctx, handler any, get func(loc, name string) string, body []byte) (int, []byte)
	reg(func(fr *frame, a []Value) Value {
		e := fr.e
		h := a[1].(Iface)
		sig := h.T.Underlying().(*types.Signature)
		it := sig.Params().At(1).Type().(*types.Pointer).Elem()
		in := ptrTo(e.zero(it))
		bad := 0
		body, _ := a[3].(Slice)
		res := func(status int, b Slice) Value {
			return Tuple{e.num(int64(status)), b}
		}
		st := it.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			tag := reflect.StructTag(st.Tag(i))
			f := st.Field(i)
			q := &(*in).(Struct)[i]
			if f.Name() == "Body" {
				if len(body) == 0 {
					return res(400, nil)
				}
				j, err := e.parseDoc(body)
				if err != nil {
					bad = 400
					continue
				}
				if !e.validate(f.Type(), j) {
					bad = 422
					continue
				}
				failed := false
				e.fromJSON(fr, f.Type(), q, j, func(string) { failed = true })
				if failed {
					bad = 422
					continue
				}
				e.defaults(f.Type(), q)
				continue
			}
			loc, name := "", ""
			for _, l := range []string{"path", "query", "header", "cookie"} {
				if n, ok := tag.Lookup(l); ok {
					loc, name = l, strings.Split(n, ",")[0]
				}
			}
			if loc == "" {
				continue
			}
			v := e.callValue(fr, a[2], []Value{loc, name})
			if v == "" {
				v = tag.Get("default")
			}
			if v == "" {
				if loc == "path" || tag.Get("required") == "true" {
					bad = 422
				}
				continue
			}
			b, ok := f.Type().Underlying().(*types.Basic)
			if !ok {
				panic(unsupported("parameter of type %s", f.Type()))
			}
			switch {
			case b.Info()&types.IsString != 0:
				storeInto(q, v)
				if !e.strOK(tag, v) {
					bad = 422
				}
			case b.Info()&types.IsInteger != 0:
				r := e.parseInt(fr, v, 10, 64, isSigned(b), "ParseInt").(Tuple)
				if r[1].(Iface).T != nil {
					bad = 422
					continue
				}
				t := e.asTerm(r[0])
				if w := width(b); w < 64 {
					t = e.c.Extract(t, 0, w)
				}
				storeInto(q, t)
				if !e.numOK(tag, e.asTerm(r[0]), isSigned(b)) {
					bad = 422
				}
			case b.Info()&types.IsBoolean != 0:
				s, ok := v.(string)
				if !ok {
					panic(unsupported("symbolic boolean text"))
				}
				x, err := strconv.ParseBool(s)
				if err != nil {
					bad = 422
					continue
				}
				storeInto(q, e.c.Bool(x))
			default:
				panic(unsupported("parameter of type %s", f.Type()))
			}
		}
		if bad != 0 {
			return res(bad, nil)
		}
		r := e.callValue(fr, h.V, []Value{a[0], in}).(Tuple)
		if er := r[1].(Iface); er.T != nil {
			if e.eng.methodByName(er.T, "GetStatus") != nil {
				s, _ := e.callMethod(fr, er, "GetStatus")
				return Tuple{s, Slice(nil)}
			}
			return res(500, nil)
		}
		ot := sig.Results().At(0).Type().(*types.Pointer).Elem()
		o := (*fr.ptr(r[0])).(Struct)
		status := Value(e.num(200))
		if ix := fieldIndex(ot, "Status"); ix >= 0 {
			status = o[ix]
		}
		ix := fieldIndex(ot, "Body")
		if ix < 0 {
			return Tuple{status, Slice(nil)}
		}
		bt := ot.Underlying().(*types.Struct).Field(ix).Type()
		j, er := e.toJSON(fr, bt, o[ix], 0)
		if er != nil {
			panic(unsupported("response encoding"))
		}
		return Tuple{status, e.jsonBytes(j)}
	}, vpath+"/symhttp.invoke")
}

func (e *Exec) strOK(tag reflect.StructTag, v Value) bool {
	if n, err := strconv.Atoi(tag.Get("maxLength")); err == nil && len(strElems(e.c, v)) > n {
		return false
	}
	if n, err := strconv.Atoi(tag.Get("minLength")); err == nil && len(strElems(e.c, v)) < n {
		return false
	}
	if tag.Get("pattern") != "" || tag.Get("format") != "" {
		panic(unsupported("pattern of a request field"))
	}
	if en := tag.Get("enum"); en != "" {
		for _, x := range strings.Split(en, ",") {
			if e.branch(e.equal(types.Typ[types.String], v, x), "enum") {
				return true
			}
		}
		return false
	}
	return true
}

func (e *Exec) numOK(tag reflect.StructTag, t *Term, signed bool) bool {
	le := e.c.Sle
	if !signed {
		le = e.c.Ule
	}
	ok := e.c.Bool(true)
	if s := tag.Get("minimum"); s != "" {
		n, err := strconv.ParseInt(s, 10, 64)
		if err != nil {
			panic(unsupported("minimum"))
		}
		ok = e.c.And(ok, le(e.num(n), t))
	}
	if s := tag.Get("maximum"); s != "" {
		n, err := strconv.ParseInt(s, 10, 64)
		if err != nil {
			panic(unsupported("maximum"))
		}
		ok = e.c.And(ok, le(t, e.num(n)))
	}
	if tag.Get("exclusiveMinimum") != "" || tag.Get("exclusiveMaximum") != "" || tag.Get("multipleOf") != "" {
		panic(unsupported("constraint of a request field"))
	}
	return e.branch(ok, "limits of a request field")
}

// validate checks a document against the schema of a struct.
func (e *Exec) validate(t types.Type, j *JVal) bool {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		panic(unsupported("body of type %s", t))
	}
	if j.k != 'o' {
		return false
	}
	fs := jsonFields(t)
	seen := map[string]bool{}
	for i, k := range j.keys {
		ks, ok := k.(string)
		if !ok {
			panic(unsupported("symbolic JSON object key"))
		}
		if ks == "$schema" {
			continue
		}
		seen[ks] = true
		var hit *jfield
		for n := range fs {
			if fs[n].name == ks {
				hit = &fs[n]
			}
		}
		if hit == nil {
			return false
		}
		if len(hit.idx) != 1 {
			panic(unsupported("embedded request body"))
		}
		tag := reflect.StructTag(st.Tag(hit.idx[0]))
		x := j.vals[i]
		switch u := hit.t.Underlying().(type) {
		case *types.Basic:
			switch {
			case u.Info()&types.IsString != 0:
				if x.k != 's' || !e.strOK(tag, x.s) {
					return false
				}
			case u.Info()&types.IsInteger != 0:
				if x.k != 'i' || !e.numOK(tag, x.t, x.sg) {
					return false
				}
			case u.Info()&types.IsBoolean != 0:
				if x.k != 'b' {
					return false
				}
			default:
				panic(unsupported("request field of type %s", hit.t))
			}
		default:
			panic(unsupported("request field of type %s", hit.t))
		}
	}
	for _, f := range fs {
		tag := reflect.StructTag(st.Tag(f.idx[0]))
		need := !f.omit
		if r := tag.Get("required"); r != "" {
			need = r == "true"
		}
		if need && !seen[f.name] {
			return false
		}
	}
	return true
}

// defaults fills in the default values of empty fields.
func (e *Exec) defaults(t types.Type, p *Value) {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return
	}
	for i := 0; i < st.NumFields(); i++ {
		d := reflect.StructTag(st.Tag(i)).Get("default")
		if d == "" {
			continue
		}
		b, ok := st.Field(i).Type().Underlying().(*types.Basic)
		if !ok {
			panic(unsupported("default of a request field"))
		}
		q := &(*p).(Struct)[i]
		switch {
		case b.Info()&types.IsString != 0:
			if *q == "" {
				storeInto(q, d)
			}
		case b.Info()&types.IsInteger != 0:
			n, err := strconv.ParseInt(d, 10, 64)
			if err != nil {
				panic(unsupported("default of a request field"))
			}
			t := e.asTerm(*q)
			storeInto(q, e.c.Ite(e.c.Eq(t, e.c.Const(0, t.w)), e.c.Const(uint64(n)&mask(t.w), t.w), t))
		default:
			panic(unsupported("default of a request field"))
		}
	}
}
