package main

import (
	"go/types"
	"reflect"
)

// A small model of package reflect: values and types whose dynamic type is known.

func kindOf(t types.Type) int64 {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return int64(reflect.Pointer)
	case *types.Struct:
		return int64(reflect.Struct)
	case *types.Slice:
		return int64(reflect.Slice)
	case *types.Map:
		return int64(reflect.Map)
	case *types.Interface:
		return int64(reflect.Interface)
	case *types.Array:
		return int64(reflect.Array)
	case *types.Signature:
		return int64(reflect.Func)
	case *types.Chan:
		return int64(reflect.Chan)
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return int64(reflect.Bool)
		case types.String:
			return int64(reflect.String)
		case types.Int:
			return int64(reflect.Int)
		case types.Int8, types.Int16, types.Int32, types.Int64:
			return int64(reflect.Int8) + int64(u.Kind()-types.Int8)
		case types.Uint, types.Uint8, types.Uint16, types.Uint32, types.Uint64:
			return int64(reflect.Uint) + int64(u.Kind()-types.Uint)
		case types.Float32:
			return int64(reflect.Float32)
		case types.Float64:
			return int64(reflect.Float64)
		}
	}
	return -1
}

func (in *Interp) rtype(t types.Type) *Term {
	s := types.TypeString(t, func(p *types.Package) string { return p.Path() })
	r := in.ts.intern(&Term{K: KOp, Op: "nn!rtype:" + s})
	r.T = t
	return r
}

func (in *Interp) rv(x *Term) *Term { return in.ts.intern(&Term{K: KOp, Op: "rv", Args: []*Term{x}}) }

// rvAt is an addressable reflect.Value.
func (in *Interp) rvAt(x, addr *Term) *Term {
	return in.ts.intern(&Term{K: KOp, Op: "rv", Args: []*Term{x, addr}})
}

func isRtype(t *Term) bool { return t.K == KOp && len(t.Op) > 9 && t.Op[:9] == "nn!rtype:" }

func addReflectModels(m func(string, model)) {
	rvOf := func(t *Term) *Term { // boxed interface inside a Value
		if t.K == KOp && t.Op == "rv" && t.Args[0].K == KIface {
			return t.Args[0]
		}
		return nil
	}
	m("reflect.ValueOf", func(c *callCtx) []Outcome {
		return one(c, c.in.dist(c.args[0], func(x *Term) *Term { return c.in.rv(x) }))
	})
	m("reflect.TypeOf", func(c *callCtx) []Outcome {
		return one(c, c.in.dist(c.args[0], func(x *Term) *Term {
			if x.K == KIface {
				return c.in.rtype(x.T)
			}
			if x.K == KNil {
				return x
			}
			return c.in.sop("typeof", c.sig.Results().At(0).Type(), x)
		}))
	})
	m("(reflect.Value).Type", func(c *callCtx) []Outcome {
		return one(c, c.in.dist(c.args[0], func(x *Term) *Term {
			if b := rvOf(x); b != nil {
				return c.in.rtype(b.T)
			}
			if x.K == KOp && x.Op == "rv" && x.Args[0].K == KNil {
				c.in.alarm("panic", c.pos, "reflect.Value.Type on zero Value")
				return c.in.ts.Top(c.sig.Results().At(0).Type())
			}
			return c.in.sop("typeof", c.sig.Results().At(0).Type(), x)
		}))
	})
	kind := func(c *callCtx) []Outcome {
		return one(c, c.in.dist(c.args[0], func(x *Term) *Term {
			if b := rvOf(x); b != nil {
				return c.in.ts.Int(kindOf(b.T))
			}
			if isRtype(x) {
				return c.in.ts.Int(kindOf(x.T))
			}
			if x.K == KOp && x.Op == "rv" && x.Args[0].K == KNil {
				return c.in.ts.Int(0)
			}
			return c.in.sop("kind", intT, x)
		}))
	}
	m("(reflect.Value).Kind", kind)
	m("(reflect.Type).Kind", kind)
	m("(reflect.Value).Elem", func(c *callCtx) []Outcome {
		in := c.in
		return one(c, in.dist(c.args[0], func(x *Term) *Term {
			if b := rvOf(x); b != nil {
				if e := deref(b.T); e != nil {
					if b.Args[0].K == KNil {
						return in.rv(in.ts.Nil())
					}
					return in.rvAt(in.ts.Iface(e, in.load(c.st, b.Args[0], e, c.pos)), b.Args[0])
				}
			}
			return in.sop("relem", c.sig.Results().At(0).Type(), x)
		}))
	})
	m("(reflect.Type).Elem", func(c *callCtx) []Outcome {
		in := c.in
		return one(c, in.dist(c.args[0], func(x *Term) *Term {
			if isRtype(x) {
				if e := elemType(x.T); e != nil {
					return in.rtype(e)
				}
			}
			return in.sop("telem", c.sig.Results().At(0).Type(), x)
		}))
	})
	m("(reflect.Value).Interface", func(c *callCtx) []Outcome {
		return one(c, c.in.dist(c.args[0], func(x *Term) *Term {
			if b := rvOf(x); b != nil {
				return b
			}
			if x.K == KOp && x.Op == "rv" && x.Args[0].K != KNil {
				return x.Args[0]
			}
			if x.K == KOp && x.Op == "rv" {
				c.in.alarm("panic", c.pos, "reflect.Value.Interface on zero Value")
			}
			return c.in.sop("riface", c.sig.Results().At(0).Type(), x)
		}))
	})
	m("(reflect.Value).Set", func(c *callCtx) []Outcome {
		in := c.in
		for _, x := range alts(c.args[0]) {
			b := rvOf(x)
			if b == nil || len(x.Args) < 2 {
				in.unsupported("reflect.Value.Set on an unknown value", c.pos)
				continue
			}
			var nv *Term
			for _, y := range alts(c.args[1]) {
				v := in.ts.Top(b.T, y)
				if yb := rvOf(y); yb != nil {
					v = yb.Args[0]
					if types.IsInterface(b.T) {
						v = yb
					} else if !types.Identical(yb.T, b.T) {
						in.alarm("panic", c.pos, "reflect.Value.Set of another type")
					}
				}
				if nv == nil {
					nv = v
				} else {
					nv = in.ts.Choice(nv, v)
				}
			}
			in.store(c.st, x.Args[1], nv, b.T, c.pos)
		}
		return one(c)
	})
	m("(reflect.Value).CanSet (reflect.Value).CanAddr", func(c *callCtx) []Outcome {
		return one(c, c.in.dist(c.args[0], func(x *Term) *Term {
			if rvOf(x) != nil {
				return c.in.ts.Bool(len(x.Args) > 1)
			}
			return c.in.sop(c.name, boolT, x)
		}))
	})
	m("(reflect.Value).IsNil", func(c *callCtx) []Outcome {
		return one(c, c.in.dist(c.args[0], func(x *Term) *Term {
			if b := rvOf(x); b != nil {
				return c.in.eq(c.st, b.Args[0], c.in.ts.Nil())
			}
			return c.in.sop("isnil", boolT, x)
		}))
	})
	m("(reflect.Value).IsValid", func(c *callCtx) []Outcome {
		return one(c, c.in.dist(c.args[0], func(x *Term) *Term {
			if b := rvOf(x); b != nil {
				return c.in.ts.Bool(true)
			}
			if x.K == KOp && x.Op == "rv" && x.Args[0].K == KNil {
				return c.in.ts.Bool(false)
			}
			return c.in.sop("isvalid", boolT, x)
		}))
	})
	m("(reflect.Type).Name", func(c *callCtx) []Outcome {
		return one(c, c.in.dist(c.args[0], func(x *Term) *Term {
			if isRtype(x) {
				if n, ok := types.Unalias(x.T).(*types.Named); ok {
					return c.in.ts.Str(n.Obj().Name())
				}
				return c.in.ts.Str("")
			}
			return c.in.sop("tname", strT, x)
		}))
	})
	m("(reflect.Type).PkgPath", func(c *callCtx) []Outcome {
		return one(c, c.in.dist(c.args[0], func(x *Term) *Term {
			if isRtype(x) {
				if n, ok := types.Unalias(x.T).(*types.Named); ok && n.Obj().Pkg() != nil {
					return c.in.ts.Str(n.Obj().Pkg().Path())
				}
				return c.in.ts.Str("")
			}
			return c.in.sop("tpkg", strT, x)
		}))
	})
}
