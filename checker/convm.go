package main

import (
	"fmt"
	"go/types"
)

// A model of github.com/anchore/go-struct-converter, active in convMode: values
// are carried over field by field by name, following the conversion functions
// registered with the chain.

const convPkg = "github.com/anchore/go-struct-converter"

type convStep struct {
	from, to types.Type
	fn       *Term
	sig      *types.Signature
}

func baseOf(t types.Type) types.Type {
	for {
		p, ok := t.Underlying().(*types.Pointer)
		if !ok {
			return t
		}
		t = p.Elem()
	}
}

type conv struct {
	in    *Interp
	c     *callCtx
	st    *State
	steps []convStep
	errs  []*Term
	bad   string // what the conversion cannot do
}

func (cv *conv) fail(format string, a ...any) *Term {
	if cv.bad == "" {
		cv.bad = fmt.Sprintf(format, a...)
	}
	return nil
}

func addConvModels(m func(string, model)) {
	add := func(c *callCtx, have []*Term, list *Term) []Outcome {
		in := c.in
		if !in.convMode {
			return nil
		}
		es, ok := in.elems(c.st, list)
		if !ok && list.K != KNil {
			return nil
		}
		args := append(append([]*Term(nil), have...), es...)
		ch := in.ts.intern(&Term{K: KOp, Op: "nn!funcchain", Args: args, T: c.sig.Results().At(0).Type()})
		return one(c, ch)
	}
	m(convPkg+".NewFuncChain", func(c *callCtx) []Outcome { return add(c, nil, c.args[0]) })
	m("("+convPkg+".FuncChain).AddConverter", func(c *callCtx) []Outcome {
		if !isFuncChain(c.args[0]) {
			return nil
		}
		return add(c, c.args[0].Args, c.args[1])
	})
	m("("+convPkg+".FuncChain).Convert", func(c *callCtx) []Outcome {
		if !isFuncChain(c.args[0]) || !c.in.convMode {
			return nil
		}
		return c.in.convConvert(c)
	})
}

func isFuncChain(t *Term) bool { return t.K == KOp && t.Op == "nn!funcchain" }

func (in *Interp) convConvert(c *callCtx) []Outcome {
	cv := &conv{in: in, c: c, st: c.st}
	for _, f := range c.args[0].Args {
		if f.K != KIface {
			in.unsupported("unknown conversion function", c.pos)
			return nil
		}
		sig, ok := f.T.Underlying().(*types.Signature)
		if !ok || sig.Params().Len() != 2 {
			in.unsupported("conversion function with a chain", c.pos)
			return nil
		}
		s := convStep{from: baseOf(sig.Params().At(0).Type()), to: baseOf(sig.Params().At(1).Type()), fn: f.Args[0], sig: sig}
		if _, isPtr := sig.Params().At(1).Type().Underlying().(*types.Pointer); !isPtr || types.Identical(s.from, s.to) {
			in.alarm("panic", c.pos, "conversion function the library refuses")
		}
		for _, o := range cv.steps {
			if types.Identical(o.from, s.from) && types.Identical(o.to, s.to) {
				in.alarm("panic", c.pos, "two conversion functions for one step")
			}
		}
		cv.steps = append(cv.steps, s)
	}
	from, to := c.args[1], c.args[2]
	if from.K != KIface || to.K != KIface {
		in.unsupported("conversion of an unknown value", c.pos)
		return nil
	}
	fb, tb := baseOf(from.T), baseOf(to.T)
	path, several := cv.path(fb, tb)
	if several {
		in.unsupported("several shortest conversion chains", c.pos)
		return nil
	}
	if path == nil {
		return one(c, in.mkErr("converter.Convert", in.ts.Str("no conversion path found")))
	}
	v, vt := from.Args[0], from.T
	for i, s := range path {
		target := to.Args[0]
		if i < len(path)-1 {
			o := in.alloc(cv.st, c.instr, "conv "+s.to.String(), s.to, in.zero(s.to))
			target = in.ts.Addr(o.ID)
		} else if _, isPtr := to.T.Underlying().(*types.Pointer); !isPtr {
			return one(c, in.mkErr("converter.Convert", in.ts.Str("not a pointer")))
		} else if target.K != KAddr {
			in.unsupported("conversion into an unknown pointer", c.pos)
			return nil
		}
		nv := cv.value(v, vt, types.NewPointer(s.to), 0)
		if cv.bad != "" {
			in.unsupported("conversion "+vt.String()+" to "+s.to.String()+": "+cv.bad, c.pos)
			return []Outcome{{st: cv.st, res: []*Term{in.mkErr("converter.Convert", in.ts.Str(cv.bad))}}}
		}
		if nv != nil {
			in.store(cv.st, target, in.load(cv.st, nv, s.to, c.pos), s.to, c.pos)
		}
		v, vt = target, types.NewPointer(s.to)
	}
	r := in.ts.Nil()
	if len(cv.errs) > 0 {
		r = in.mkErr("converter.Convert", cv.errs...)
	}
	return []Outcome{{st: cv.st, res: []*Term{r}}}
}

// path gives the shortest chain of steps and whether there are several.
func (cv *conv) path(from, to types.Type) ([]convStep, bool) {
	type node struct {
		t    types.Type
		path []convStep
	}
	cur := []node{{t: from}}
	for depth := 0; depth < len(cv.steps)+1; depth++ {
		var next []node
		var found [][]convStep
		for _, n := range cur {
			for _, s := range cv.steps {
				if !types.Identical(s.from, n.t) {
					continue
				}
				p := append(append([]convStep(nil), n.path...), s)
				seen := types.Identical(s.to, from)
				for _, q := range n.path {
					seen = seen || types.Identical(q.to, s.to)
				}
				if types.Identical(s.to, to) {
					found = append(found, p)
				} else if !seen {
					next = append(next, node{s.to, p})
				}
			}
		}
		if len(found) > 0 {
			return found[0], len(found) > 1
		}
		cur = next
	}
	return nil, false
}

// zeroness: 'z' zero, 'n' not, '?' undecided.
func (cv *conv) zeroness(v *Term, T types.Type) byte {
	if as := alts(v); len(as) > 1 {
		r := byte(0)
		for _, a := range as {
			z := cv.zeroness(a, T)
			if r != 0 && z != r {
				return '?'
			}
			r = z
		}
		return r
	}
	switch u := T.Underlying().(type) {
	case *types.Struct:
		all := byte('z')
		for i := 0; i < u.NumFields(); i++ {
			switch cv.zeroness(cv.in.field(v, i, u.Field(i).Type()), u.Field(i).Type()) {
			case 'n':
				return 'n'
			case '?':
				all = '?'
			}
		}
		return all
	case *types.Array:
		return '?'
	}
	if b := cv.in.knownBool(cv.st, cv.in.eq(cv.st, v, cv.in.zero(T))); b.isBool() {
		if constBool(b) {
			return 'z'
		}
		return 'n'
	}
	return '?'
}

func isPrim(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsString|types.IsBoolean|types.IsInteger|types.IsFloat) != 0
}

// value is getValue of the library: nil when nothing is to be set.
func (cv *conv) value(v *Term, from, target types.Type, depth int) *Term {
	in := cv.in
	if cv.bad != "" || depth > 40 {
		return cv.fail("too deep")
	}
	if as := alts(v); len(as) > 1 && !isPrim(from) {
		return cv.fail("a choice of values")
	}
	if p, ok := from.Underlying().(*types.Pointer); ok {
		if v.K == KNil {
			return nil
		}
		if v.K != KAddr {
			return cv.fail("an unknown pointer")
		}
		v = in.load(cv.st, v, p.Elem(), cv.c.pos)
		from = p.Elem()
		switch cv.zeroness(v, from) {
		case 'z':
			return nil
		case '?':
			return cv.fail("undecided whether a value of type %s is zero", from)
		}
	}
	base := target
	tp, toPtr := target.Underlying().(*types.Pointer)
	if toPtr {
		base = tp.Elem()
	}
	if _, isPtr := base.Underlying().(*types.Pointer); isPtr {
		return cv.fail("a pointer to a pointer")
	}
	var r *Term
	rt := base
	switch {
	case types.IsInterface(base):
		return cv.fail("an interface field")
	case isStructT(from) && isStructT(base):
		fu, bu := from.Underlying().(*types.Struct), base.Underlying().(*types.Struct)
		fs := make([]*Term, bu.NumFields())
		for i := range fs {
			fs[i] = in.zero(bu.Field(i).Type())
		}
		for i := 0; i < fu.NumFields(); i++ {
			f := fu.Field(i)
			j := -1
			for k := 0; k < bu.NumFields(); k++ {
				if bu.Field(k).Name() == f.Name() {
					j = k
				}
			}
			if j < 0 {
				for k := 0; k < bu.NumFields(); k++ {
					if bu.Field(k).Embedded() {
						return cv.fail("embedded fields")
					}
				}
				continue
			}
			x := cv.value(in.field(v, i, f.Type()), f.Type(), bu.Field(j).Type(), depth+1)
			if x == nil {
				continue
			}
			if !f.Exported() || !bu.Field(j).Exported() {
				return cv.fail("the unexported field %s has a value: the library panics", f.Name())
			}
			fs[j] = x
		}
		r = in.ts.Struct(base, fs)
		for _, s := range cv.steps {
			if types.Identical(s.from, from) && types.Identical(s.to, base) {
				o := in.alloc(cv.st, cv.c.instr, "conv "+base.String(), base, r)
				a0 := v
				if _, isPtr := s.sig.Params().At(0).Type().Underlying().(*types.Pointer); isPtr {
					return cv.fail("a conversion function taking a pointer")
				}
				outs := in.callTerm(cv.c.fr, cv.st, cv.c.instr, s.fn, []*Term{a0, in.ts.Addr(o.ID)}, s.sig)
				if len(outs) != 1 {
					return cv.fail("%d outcomes of the conversion function", len(outs))
				}
				cv.st = outs[0].st
				if len(outs[0].res) > 0 && s.sig.Results().Len() > 0 && outs[0].res[0].K != KNil {
					cv.errs = append(cv.errs, outs[0].res[0])
					return nil
				}
				r = in.content(cv.st, o.ID)
			}
		}
	case isSliceT(from) && isSliceT(base):
		if v.K == KNil {
			return nil
		}
		es, ok := in.elems(cv.st, v)
		if !ok {
			return cv.fail("a list of unknown length")
		}
		et := elemType(base)
		var out []*Term
		for _, e := range es {
			x := cv.value(e, elemType(from), et, depth+1)
			if x == nil {
				x = in.zero(et)
			}
			out = append(out, x)
		}
		if cv.bad != "" {
			return nil
		}
		r = in.newSlice(cv.st, cv.c.instr, "conv "+base.String(), base, out)
	case isMapT(from) && isMapT(base):
		if v.K == KNil {
			return nil
		}
		if v.K != KAddr {
			return cv.fail("an unknown map")
		}
		c := in.content(cv.st, v.Obj)
		if c == nil || c.K != KMapVal || c.Open {
			return cv.fail("a map of unknown entries")
		}
		fm, bm := from.Underlying().(*types.Map), base.Underlying().(*types.Map)
		o := in.alloc(cv.st, cv.c.instr, "conv "+base.String(), base, in.ts.intern(&Term{K: KMapVal, T: base}))
		for i := 0; i+1 < len(c.Args); i += 2 {
			if c.Args[i+1] == in.absent() || len(alts(c.Args[i+1])) > 1 {
				if c.Args[i+1] != in.absent() {
					return cv.fail("an undecided map entry")
				}
				continue
			}
			k, x := cv.value(c.Args[i], fm.Key(), bm.Key(), depth+1), cv.value(c.Args[i+1], fm.Elem(), bm.Elem(), depth+1)
			if k == nil || x == nil {
				continue
			}
			in.mapUpdate(cv.st, in.ts.Addr(o.ID), k, x, base, cv.c.pos)
		}
		r = in.ts.Addr(o.ID)
	default:
		r, rt = v, from
	}
	if cv.bad != "" {
		return nil
	}
	r = cv.valueType(r, rt, base)
	if r == nil || !toPtr {
		return r
	}
	o := in.alloc(cv.st, cv.c.instr, "conv ptr "+base.String(), base, r)
	return in.ts.Addr(o.ID)
}

// valueType is convertValueTypes of the library.
func (cv *conv) valueType(v *Term, t, target types.Type) *Term {
	in := cv.in
	switch {
	case types.Identical(t, target):
		return v
	case kindOf(t) == kindOf(target) && types.ConvertibleTo(t, target):
		return v
	case isPrim(target) && cv.zeroness(v, t) == 'z':
		cv.errs = append(cv.errs, in.mkErr("converter", in.ts.Str("unable to convert")))
		return nil
	case isPrim(t) && isPrim(target):
		return cv.fail("%s to %s", t, target)
	}
	cv.errs = append(cv.errs, in.mkErr("converter", in.ts.Str("unable to convert from "+t.String()+" to "+target.String())))
	return nil
}

func isStructT(t types.Type) bool { _, ok := t.Underlying().(*types.Struct); return ok }
func isSliceT(t types.Type) bool  { _, ok := t.Underlying().(*types.Slice); return ok }
func isMapT(t types.Type) bool    { _, ok := t.Underlying().(*types.Map); return ok }
