package main

import (
	"encoding/json"
	"go/constant"
	"go/types"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Structural model of encoding/json (and of sigs.k8s.io/yaml, which goes
// through it), used when in.jsonMode is set: JSON texts are trees,
//
//	jobj(k1, v1, ...)  jarr(v...)  "\"" text "\""  numbers  true false null
//
// with jsesc(x) the escaped form of an opaque text x. Decoding and encoding
// follow the type's struct tags and call its UnmarshalJSON and MarshalJSON.

func (in *Interp) jObj(kv ...*Term) *Term {
	return in.ts.intern(&Term{K: KOp, Op: "jobj", Args: kv, T: strT})
}

func (in *Interp) jArr(vs ...*Term) *Term {
	return in.ts.intern(&Term{K: KOp, Op: "jarr", Args: vs, T: strT})
}

func (in *Interp) jStr(x *Term) *Term {
	return in.dist(x, func(x *Term) *Term {
		if x.K == KTop {
			return in.ts.Top(strT, x)
		}
		ps := []*Term{in.ts.Str(`"`)}
		for _, p := range pieces(x) {
			ps = append(ps, in.jEsc(p))
		}
		return in.ts.Cat(append(ps, in.ts.Str(`"`))...)
	})
}

func (in *Interp) jEsc(p *Term) *Term {
	switch {
	case p.isStr():
		var b strings.Builder
		e := json.NewEncoder(&b)
		e.SetEscapeHTML(false)
		e.Encode(p.str())
		s := strings.TrimSuffix(b.String(), "\n")
		return in.ts.Str(s[1 : len(s)-1])
	case p.K == KOp && (p.Op == "itoa" || p.Op == "fmt%d"):
		return p
	}
	if a := in.attrOf(p); a.lacks(`"`) && a.lacks(`\`) {
		return p
	}
	return in.ts.intern(&Term{K: KOp, Op: "jsesc", Args: []*Term{p}, T: strT})
}

// jVal is a parsed JSON value.
type jVal struct {
	kind byte // 'o' 'a' 's' 'n' 'b' '0' (null), 0 unknown
	kv   []*Term
	x    *Term // the string, the number's text or the boolean
}

func (in *Interp) jParse(t *Term) jVal {
	switch {
	case t.K == KOp && t.Op == "jobj":
		return jVal{kind: 'o', kv: t.Args}
	case t.K == KOp && t.Op == "jarr":
		return jVal{kind: 'a', kv: t.Args}
	case t.K == KOp && t.Op == "jsbool":
		return jVal{kind: 'b', x: t.Args[0]}
	case t.K == KOp && (t.Op == "itoa" || t.Op == "fmt%d"):
		return jVal{kind: 'n', x: t}
	case t.isStr():
		var v any
		d := json.NewDecoder(strings.NewReader(t.str()))
		d.UseNumber()
		if !json.Valid([]byte(t.str())) || d.Decode(&v) != nil {
			return jVal{}
		}
		return in.jParse2(in.jConst(v))
	case t.K == KCat:
		ps := append([]*Term(nil), t.Args...)
		// white space around the value
		if f := ps[0]; f.isStr() {
			ps[0] = in.ts.Str(strings.TrimLeft(f.str(), " \t\r\n"))
		}
		n := len(ps) - 1
		if l := ps[n]; l.isStr() {
			ps[n] = in.ts.Str(strings.TrimRight(l.str(), " \t\r\n"))
		}
		c := in.ts.Cat(ps...)
		if c.K != KCat {
			if c == t {
				return jVal{}
			}
			return in.jParse(c)
		}
		ps = c.Args
		f, l := ps[0], ps[len(ps)-1]
		if !f.isStr() || !l.isStr() || !strings.HasPrefix(f.str(), `"`) || !strings.HasSuffix(l.str(), `"`) {
			return jVal{}
		}
		var out []*Term
		for i, p := range ps {
			switch {
			case p.isStr():
				s := p.str()
				if i == 0 {
					s = s[1:]
				}
				if i == len(ps)-1 {
					s = s[:len(s)-1]
				}
				var u string
				if json.Unmarshal([]byte(`"`+s+`"`), &u) != nil {
					return jVal{}
				}
				out = append(out, in.ts.Str(u))
			case p.K == KOp && p.Op == "jsesc":
				out = append(out, p.Args[0])
			case p.K == KOp && (p.Op == "itoa" || p.Op == "fmt%d"):
				out = append(out, p)
			default:
				if a := in.attrOf(p); !a.lacks(`"`) || !a.lacks(`\`) {
					return jVal{}
				}
				out = append(out, p)
			}
		}
		return jVal{kind: 's', x: in.ts.Cat(out...)}
	}
	return jVal{}
}

// jParseText gives the tree of a concrete JSON text.
func (in *Interp) jParseText(s string) *Term {
	var v any
	d := json.NewDecoder(strings.NewReader(s))
	d.UseNumber()
	if err := d.Decode(&v); err != nil {
		panic("not JSON: " + s)
	}
	return in.jConst(v)
}

// jConst turns a concrete JSON value into a tree.
func (in *Interp) jConst(v any) *Term {
	switch v := v.(type) {
	case map[string]any:
		var ks []string
		for k := range v {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		var kv []*Term
		for _, k := range ks {
			kv = append(kv, in.ts.Str(k), in.jConst(v[k]))
		}
		return in.jObj(kv...)
	case []any:
		var es []*Term
		for _, e := range v {
			es = append(es, in.jConst(e))
		}
		return in.jArr(es...)
	case string:
		return in.jStr(in.ts.Str(v))
	case json.Number:
		return in.ts.Str(v.String())
	case bool:
		return in.ts.Str(strconv.FormatBool(v))
	}
	return in.ts.Str("null")
}

func (in *Interp) jParse2(t *Term) jVal {
	if !t.isStr() {
		return in.jParse(t)
	}
	switch s := t.str(); {
	case s == "null":
		return jVal{kind: '0'}
	case s == "true", s == "false":
		return jVal{kind: 'b', x: in.ts.Bool(s == "true")}
	case strings.HasPrefix(s, `"`):
		var u string
		json.Unmarshal([]byte(s), &u)
		return jVal{kind: 's', x: in.ts.Str(u)}
	default:
		return jVal{kind: 'n', x: t}
	}
}

type jOut struct {
	st  *State
	v   *Term // encoding: the text
	err *Term // nil: none
}

const jMaxOuts = 48

func (in *Interp) jCap(c *callCtx, outs []jOut) []jOut {
	if len(outs) > jMaxOuts {
		in.unsupported("JSON: more alternatives than followed", c.pos)
		return outs[:jMaxOuts]
	}
	return outs
}

// method finds a JSON method in the method set of T.
func (in *Interp) method(T types.Type, name string) *ssa.Function {
	ms := in.P.Prog.MethodSets.MethodSet(T)
	for i := 0; i < ms.Len(); i++ {
		if sel := ms.At(i); sel.Obj().Name() == name && sel.Obj().Exported() {
			return in.P.Prog.MethodValue(sel)
		}
	}
	return nil
}

// jField is a field of a struct as encoding/json sees it.
type jField struct {
	name  string
	omit  bool
	path  []int
	t     types.Type
	quote bool
	tag   bool
}

func jFields(st *types.Struct) ([]jField, bool) {
	ok := true
	var walk func(st *types.Struct, path []int, depth int) []jField
	type cand struct {
		f jField
		d int
	}
	var all []cand
	walk = func(st *types.Struct, path []int, depth int) []jField {
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			tag := reflect.StructTag(st.Tag(i)).Get("json")
			if tag == "-" {
				continue
			}
			name, opts, _ := strings.Cut(tag, ",")
			p := append(append([]int(nil), path...), i)
			if f.Embedded() && name == "" {
				if s, isS := f.Type().Underlying().(*types.Struct); isS {
					walk(s, p, depth+1)
					continue
				}
				if _, isP := f.Type().Underlying().(*types.Pointer); isP {
					ok = false
					continue
				}
			}
			if !f.Exported() {
				continue
			}
			jf := jField{name: name, path: p, t: f.Type(), tag: name != ""}
			if name == "" {
				jf.name = f.Name()
			}
			for _, o := range strings.Split(opts, ",") {
				switch o {
				case "omitempty":
					jf.omit = true
				case "omitzero":
					ok = false
				case "string":
					jf.quote = true
					ok = false
				}
			}
			all = append(all, cand{jf, depth})
		}
		return nil
	}
	walk(st, nil, 0)
	// conflicts: the shallowest wins, then the tagged one, else none
	var out []jField
	for i, a := range all {
		win := true
		for k, b := range all {
			if i == k || a.f.name != b.f.name {
				continue
			}
			if b.d < a.d || b.d == a.d && (b.f.tag || !a.f.tag) && !(a.f.tag && !b.f.tag) {
				win = false
			}
		}
		if win {
			out = append(out, a.f)
		}
	}
	return out, ok
}

func isRawMessage(T types.Type) bool {
	n, ok := types.Unalias(T).(*types.Named)
	return ok && n.Obj().Name() == "RawMessage" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "encoding/json"
}

// ---- decoding

// jDecode decodes j into the variable of type T at address ad.
func (in *Interp) jDecode(c *callCtx, st *State, j *Term, T types.Type, ad *Term) []jOut {
	fail := func(what string) []jOut { return []jOut{{st: st, err: in.mkErr("json.Unmarshal", in.ts.Str(what))}} }
	if as := alts(j); len(as) > 1 {
		var outs []jOut
		for _, a := range as {
			outs = append(outs, in.jDecode(c, st.clone(), a, T, ad)...)
		}
		return in.jCap(c, outs)
	}
	v := in.jParse(j)
	if j.isStr() {
		v = in.jParse2(j)
		if !json.Valid([]byte(j.str())) {
			return fail("invalid")
		}
	}
	if isRawMessage(T) {
		in.store(st, ad, in.mkBytes(j), T, c.pos)
		return []jOut{{st: st}}
	}
	if p, ok := T.Underlying().(*types.Pointer); ok {
		if v.kind == '0' {
			in.store(st, ad, in.ts.Nil(), T, c.pos)
			return []jOut{{st: st}}
		}
		cur := in.load(st, ad, T, c.pos)
		if cur.K == KNil {
			o := in.alloc(st, c.instr, "json "+p.Elem().String(), p.Elem(), in.zero(p.Elem()))
			cur = in.ts.Addr(o.ID)
			in.store(st, ad, cur, T, c.pos)
		} else if cur.K != KAddr {
			in.unsupported("JSON decoding into an unknown pointer", c.pos)
			return fail("pointer")
		}
		return in.jDecode(c, st, j, p.Elem(), cur)
	}
	if fn := in.method(types.NewPointer(T), "UnmarshalJSON"); fn != nil {
		var outs []jOut
		for _, o := range in.callFunction(c.fr, st, c.instr, fn, nil, []*Term{ad, in.mkBytes(j)}) {
			outs = append(outs, in.jErrOuts(o.st, o.res[0], nil)...)
		}
		return in.jCap(c, outs)
	}
	if in.method(types.NewPointer(T), "UnmarshalText") != nil {
		in.unsupported("UnmarshalText", c.pos)
		return fail("text")
	}
	if v.kind == 0 {
		in.unsupported("JSON decoding of "+short(j.String(), 80), c.pos)
		return fail("unknown")
	}
	put := func(x *Term) []jOut {
		in.store(st, ad, x, T, c.pos)
		return []jOut{{st: st}}
	}
	if it, ok := T.Underlying().(*types.Interface); ok {
		if it.NumMethods() > 0 {
			in.unsupported("JSON decoding into an interface with methods", c.pos)
			return fail("interface")
		}
		return put(in.jAny(c, st, j, v))
	}
	if v.kind == '0' {
		switch T.Underlying().(type) {
		case *types.Slice, *types.Map:
			return put(in.ts.Nil())
		}
		return []jOut{{st: st}}
	}
	switch u := T.Underlying().(type) {
	case *types.Struct:
		if v.kind != 'o' {
			return fail("not an object")
		}
		fs, ok := jFields(u)
		if !ok {
			in.unsupported("JSON options of "+T.String(), c.pos)
		}
		outs := []jOut{{st: st}}
		for i := 0; i+1 < len(v.kv); i += 2 {
			k := v.kv[i].str()
			var f *jField
			for n := range fs {
				if fs[n].name == k {
					f = &fs[n]
				}
			}
			for n := range fs {
				if f == nil && strings.EqualFold(fs[n].name, k) {
					f = &fs[n]
				}
			}
			if f == nil {
				continue
			}
			outs = in.jEach(c, outs, func(s *State) []jOut {
				return in.jDecode(c, s, v.kv[i+1], f.t, in.ts.Addr(ad.Obj, append(append([]int(nil), ad.Path...), f.path...)...))
			})
		}
		return outs
	case *types.Slice:
		if isByteSlice(T) {
			in.unsupported("JSON decoding into bytes", c.pos)
			return fail("bytes")
		}
		if v.kind != 'a' {
			return fail("not an array")
		}
		s := in.newSlice(st, c.instr, "json "+T.String(), T, repeat(in.zero(u.Elem()), len(v.kv)))
		outs := []jOut{{st: st}}
		in.store(st, ad, s, T, c.pos)
		for i, e := range v.kv {
			outs = in.jEach(c, outs, func(st *State) []jOut {
				return in.jDecode(c, st, e, u.Elem(), in.ts.Addr(s.Obj, i))
			})
		}
		return outs
	case *types.Map:
		if v.kind != 'o' {
			return fail("not an object")
		}
		m := in.load(st, ad, T, c.pos)
		if m.K == KNil {
			o := in.alloc(st, c.instr, "json "+T.String(), T, in.ts.intern(&Term{K: KMapVal, T: T}))
			m = in.ts.Addr(o.ID)
			in.store(st, ad, m, T, c.pos)
		}
		if !isStringType(u.Key()) || in.method(types.NewPointer(u.Key()), "UnmarshalText") != nil {
			in.unsupported("JSON map keys", c.pos)
			return fail("keys")
		}
		outs := []jOut{{st: st}}
		for i := 0; i+1 < len(v.kv); i += 2 {
			outs = in.jEach(c, outs, func(st *State) []jOut {
				o := in.alloc(st, c.instr, "json elem "+u.Elem().String(), u.Elem(), in.zero(u.Elem()))
				var res []jOut
				for _, d := range in.jDecode(c, st, v.kv[i+1], u.Elem(), in.ts.Addr(o.ID)) {
					if d.err == nil {
						in.mapUpdate(d.st, m, v.kv[i], in.content(d.st, o.ID), T, c.pos)
					}
					res = append(res, d)
				}
				return res
			})
		}
		return outs
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			if v.kind == 's' {
				return put(v.x)
			}
		case u.Info()&types.IsInteger != 0:
			if v.kind == 'n' {
				if v.x.isStr() {
					n, err := strconv.ParseInt(v.x.str(), 10, 64)
					if err != nil {
						return fail("number")
					}
					return put(in.ts.Int(n))
				}
				return put(v.x.Args[0])
			}
		case u.Info()&types.IsBoolean != 0:
			if v.kind == 'b' {
				return put(v.x)
			}
		case u.Info()&types.IsFloat != 0:
			if v.kind == 'n' {
				return put(in.op("jfloat", T, v.x))
			}
		}
		return fail("wrong kind")
	}
	in.unsupported("JSON decoding into "+T.String(), c.pos)
	return fail("type")
}

// jEach continues every outcome without an error.
func (in *Interp) jEach(c *callCtx, outs []jOut, f func(*State) []jOut) []jOut {
	var res []jOut
	var bad *jOut
	add := func(o jOut) {
		if o.err == nil {
			res = append(res, o)
			return
		}
		if bad == nil {
			bad = &jOut{st: o.st, err: o.err}
			return
		}
		bad.st = in.joinState(bad.st, o.st, false)
		bad.err = in.ts.Choice(bad.err, o.err)
	}
	for _, o := range outs {
		if o.err != nil {
			add(o)
			continue
		}
		for _, n := range f(o.st) {
			add(n)
		}
	}
	if bad != nil {
		res = append(res, *bad)
	}
	return in.jCap(c, res)
}

// jErrOuts splits an outcome by whether its error is nil.
func (in *Interp) jErrOuts(st *State, err, v *Term) []jOut {
	var outs []jOut
	as := alts(err)
	for i, e := range as {
		s := st
		if i < len(as)-1 {
			s = st.clone()
		}
		if e.K == KNil {
			outs = append(outs, jOut{st: s, v: v})
			continue
		}
		cond := in.knownBool(s, in.eq(s, e, in.ts.Nil()))
		t, f := in.feasible(s, cond)
		if t && f {
			outs = append(outs, jOut{st: s.clone(), v: v})
		} else if t {
			outs = append(outs, jOut{st: s, v: v})
			continue
		}
		if f {
			outs = append(outs, jOut{st: s, err: e})
		}
	}
	return outs
}

var anyT types.Type = types.NewInterfaceType(nil, nil)

// jAny is the value of type any a JSON value decodes to.
func (in *Interp) jAny(c *callCtx, st *State, j *Term, v jVal) *Term {
	switch v.kind {
	case 'o':
		mt := types.NewMap(strT, anyT)
		var kv []*Term
		for i := 0; i+1 < len(v.kv); i += 2 {
			kv = append(kv, v.kv[i], in.jAnyOf(c, st, v.kv[i+1]))
		}
		o := in.alloc(st, c.instr, "json any map", mt, in.ts.intern(&Term{K: KMapVal, Args: kv, T: mt}))
		return in.ts.Iface(mt, in.ts.Addr(o.ID))
	case 'a':
		sT := types.NewSlice(anyT)
		var es []*Term
		for _, e := range v.kv {
			es = append(es, in.jAnyOf(c, st, e))
		}
		return in.ts.Iface(sT, in.newSlice(st, c.instr, "json any", sT, es))
	case 's':
		return in.ts.Iface(strT, v.x)
	case 'b':
		return in.ts.Iface(boolT, v.x)
	case 'n':
		return in.ts.Iface(types.Typ[types.Float64], in.op("jfloat", types.Typ[types.Float64], v.x))
	}
	return in.ts.Nil()
}

func (in *Interp) jAnyOf(c *callCtx, st *State, j *Term) *Term {
	v := in.jParse(j)
	if j.isStr() {
		v = in.jParse2(j)
	}
	if v.kind == 0 {
		in.unsupported("JSON decoding of "+short(j.String(), 80), c.pos)
	}
	return in.jAny(c, st, j, v)
}

// ---- encoding

// jEncode gives the JSON text of v; ad is its address when it has one.
func (in *Interp) jEncode(c *callCtx, st *State, v *Term, T types.Type, ad *Term) []jOut {
	ok := func(t *Term) []jOut { return []jOut{{st: st, v: t}} }
	if as := alts(v); len(as) > 1 {
		if _, basic := T.Underlying().(*types.Basic); basic && in.method(T, "MarshalJSON") == nil {
			return ok(in.dist(v, func(x *Term) *Term {
				o := in.jEncode(c, st, x, T, nil)
				return o[0].v
			}))
		}
		var outs []jOut
		for _, a := range as {
			outs = append(outs, in.jEncode(c, st.clone(), a, T, nil)...)
		}
		return in.jCap(c, outs)
	}
	bad := func(what string) []jOut {
		in.unsupported("JSON encoding of "+what, c.pos)
		return []jOut{{st: st, err: in.mkErr("json.Marshal")}}
	}
	if isRawMessage(T) {
		return ok(in.bytesText(st, v))
	}
	fn := in.method(T, "MarshalJSON")
	recv := v
	if _, isIface := T.Underlying().(*types.Interface); isIface {
		fn = nil
	}
	_, isPtr := T.Underlying().(*types.Pointer)
	if fn == nil && ad != nil && !isPtr {
		if fn = in.method(types.NewPointer(T), "MarshalJSON"); fn != nil {
			recv = ad
		}
	}
	if fn != nil {
		if isPtr && v.K == KNil {
			return ok(in.ts.Str("null"))
		}
		var outs []jOut
		for _, o := range in.callFunction(c.fr, st, c.instr, fn, nil, []*Term{recv}) {
			text := in.bytesText(o.st, o.res[0])
			for _, e := range in.jErrOuts(o.st, o.res[1], text) {
				if e.err != nil {
					e.err = in.mkErr("json.Marshal", e.err)
				} else {
					var ts []*Term
					for _, a := range alts(e.v) {
						if a.isStr() && !json.Valid([]byte(a.str())) {
							outs = append(outs, jOut{st: e.st.clone(), err: in.mkErr("json.Marshal", a)})
							continue
						}
						if !a.isStr() && in.jParse(a).kind == 0 {
							in.unsupported("JSON text given by "+fn.String()+": "+short(a.String(), 60), c.pos)
						}
						ts = append(ts, a)
					}
					if len(ts) == 0 {
						continue
					}
					e.v = in.ts.Choice(ts...)
				}
				outs = append(outs, e)
			}
		}
		return in.jCap(c, outs)
	}
	if in.method(T, "MarshalText") != nil {
		return bad("a TextMarshaler")
	}
	switch u := T.Underlying().(type) {
	case *types.Pointer:
		if v.K == KNil {
			return ok(in.ts.Str("null"))
		}
		if v.K != KAddr {
			return bad("an unknown pointer " + v.String())
		}
		return in.jEncode(c, st, in.load(st, v, u.Elem(), c.pos), u.Elem(), v)
	case *types.Interface:
		if v.K == KNil {
			return ok(in.ts.Str("null"))
		}
		if v.K != KIface {
			return bad("an unknown interface")
		}
		return in.jEncode(c, st, v.Args[0], v.T, nil)
	case *types.Struct:
		fs, good := jFields(u)
		if !good {
			return bad("options of " + T.String())
		}
		outs := []jOut{{st: st, v: in.jObj()}}
		for _, f := range fs {
			var res []jOut
			for _, o := range outs {
				if o.err != nil {
					res = append(res, o)
					continue
				}
				x := in.proj(v, f.path, T)
				var fa *Term
				if ad != nil && ad.K == KAddr {
					fa = in.ts.Addr(ad.Obj, append(append([]int(nil), ad.Path...), f.path...)...)
				}
				emit := true
				if f.omit {
					e := in.knownBool(o.st, in.jEmpty(o.st, x, f.t))
					t, fl := in.feasible(o.st, e)
					if t && fl {
						s := o.st.clone()
						in.learn(s, e, true)
						res = append(res, jOut{st: s, v: o.v})
						in.learn(o.st, e, false)
					} else if t {
						emit = false
					}
				}
				if !emit {
					res = append(res, o)
					continue
				}
				for _, e := range in.jEncode(c, o.st, x, f.t, fa) {
					if e.err == nil {
						e.v = in.jObj(append(append([]*Term(nil), o.v.Args...), in.ts.Str(f.name), e.v)...)
					}
					res = append(res, e)
				}
			}
			outs = in.jCap(c, res)
		}
		return outs
	case *types.Slice:
		if v.K == KNil {
			return ok(in.ts.Str("null"))
		}
		if isByteSlice(T) {
			return bad("bytes")
		}
		es, good := in.elems(st, v)
		if !good {
			return bad("an unknown list")
		}
		outs := []jOut{{st: st, v: in.jArr()}}
		for i, x := range es {
			var res []jOut
			for _, o := range outs {
				if o.err != nil {
					res = append(res, o)
					continue
				}
				for _, e := range in.jEncode(c, o.st, x, u.Elem(), in.ts.Addr(v.Obj, v.Off+i)) {
					if e.err == nil {
						e.v = in.jArr(append(append([]*Term(nil), o.v.Args...), e.v)...)
					}
					res = append(res, e)
				}
			}
			outs = in.jCap(c, res)
		}
		return outs
	case *types.Map:
		if v.K == KNil {
			return ok(in.ts.Str("null"))
		}
		if v.K != KAddr {
			return bad("an unknown map")
		}
		m := in.content(st, v.Obj)
		if m.K != KMapVal || m.Open || !isStringType(u.Key()) {
			return bad("an unknown map")
		}
		type kv struct{ k, v *Term }
		var l []kv
		for i := 0; i+1 < len(m.Args); i += 2 {
			if x := m.Args[i+1]; x.K == KOp && x.Op == "absent" {
				continue
			}
			if !m.Args[i].isStr() {
				return bad("a map with unknown keys")
			}
			l = append(l, kv{m.Args[i], m.Args[i+1]})
		}
		sort.Slice(l, func(i, j int) bool { return l[i].k.str() < l[j].k.str() })
		outs := []jOut{{st: st, v: in.jObj()}}
		for _, p := range l {
			var res []jOut
			for _, o := range outs {
				if o.err != nil {
					res = append(res, o)
					continue
				}
				for _, x := range alts(p.v) {
					if x.K == KOp && x.Op == "absent" {
						res = append(res, jOut{st: o.st.clone(), v: o.v})
						continue
					}
					for _, e := range in.jEncode(c, o.st.clone(), x, u.Elem(), nil) {
						if e.err == nil {
							e.v = in.jObj(append(append([]*Term(nil), o.v.Args...), p.k, e.v)...)
						}
						res = append(res, e)
					}
				}
			}
			outs = in.jCap(c, res)
		}
		return outs
	case *types.Basic:
		switch {
		case v.K == KTop:
			return bad("an unknown value")
		case u.Info()&types.IsString != 0:
			return ok(in.jStr(v))
		case u.Info()&types.IsBoolean != 0:
			if v.isBool() {
				return ok(in.ts.Str(strconv.FormatBool(constBool(v))))
			}
			return ok(in.ts.intern(&Term{K: KOp, Op: "jsbool", Args: []*Term{v}, T: strT}))
		case u.Info()&types.IsInteger != 0:
			if v.K == KConst && v.C.Kind() == constant.Int {
				return ok(in.ts.Str(v.C.ExactString()))
			}
			return ok(in.itoa(v))
		case u.Info()&types.IsFloat != 0:
			if v.K == KOp && v.Op == "jfloat" {
				return ok(v.Args[0])
			}
		}
	}
	return bad(T.String())
}

// jEmpty: the value omitempty leaves out.
func (in *Interp) jEmpty(st *State, x *Term, T types.Type) *Term {
	switch T.Underlying().(type) {
	case *types.Pointer, *types.Interface:
		return in.eq(st, x, in.ts.Nil())
	case *types.Slice, *types.Map:
		if x.K == KNil {
			return in.ts.Bool(true)
		}
		return in.eq(st, in.length(st, x), in.ts.Int(0))
	case *types.Basic:
		return in.eq(st, x, in.zero(T))
	}
	return in.ts.Bool(false)
}

// ---- the calls

func (in *Interp) jUnmarshalCall(c *callCtx, text, target *Term, yaml bool) []Outcome {
	var outs []Outcome
	fail := func(st *State) {
		outs = append(outs, Outcome{st: st, res: []*Term{in.mkErr("json.Unmarshal", text)}})
	}
	for _, tx := range alts(text) {
		st := c.st.clone()
		if yaml {
			if tx.K != KOp || tx.Op != "yaml" {
				return nil
			}
			tx = tx.Args[0]
		}
		if !tx.isStr() && in.jParse(tx).kind == 0 {
			return nil // an opaque text
		}
		if tx.isStr() && !json.Valid([]byte(tx.str())) {
			fail(st)
			continue
		}
		for _, t := range alts(target) {
			if t.K != KIface || t.Args[0].K != KAddr {
				if t.K == KNil || t.K == KIface && t.Args[0].K == KNil {
					fail(st.clone())
					continue
				}
				if t.K == KIface {
					if _, isPtr := t.T.Underlying().(*types.Pointer); !isPtr {
						fail(st.clone())
						continue
					}
				}
				return nil
			}
			T := deref(t.T)
			if T == nil {
				fail(st.clone())
				continue
			}
			for _, o := range in.jDecode(c, st.clone(), tx, T, t.Args[0]) {
				r := in.ts.Nil()
				if o.err != nil {
					r = o.err
				}
				outs = append(outs, Outcome{st: o.st, res: []*Term{r}})
			}
		}
	}
	return outs
}

// jMarshalCall gives ([]byte, error) outcomes.
func (in *Interp) jMarshalCall(c *callCtx, v *Term, yaml bool) []Outcome {
	var outs []Outcome
	for _, o := range in.jEncode(c, c.st.clone(), v, anyT, nil) {
		if o.err != nil {
			outs = append(outs, Outcome{st: o.st, res: []*Term{in.ts.Nil(), o.err}})
			continue
		}
		t := o.v
		if yaml {
			t = in.dist(t, func(t *Term) *Term { return in.ts.intern(&Term{K: KOp, Op: "yaml", Args: []*Term{t}, T: strT}) })
		}
		outs = append(outs, Outcome{st: o.st, res: []*Term{in.mkBytes(t), in.ts.Nil()}})
	}
	return outs
}

func jsonValid(s string) bool { return json.Valid([]byte(s)) }
