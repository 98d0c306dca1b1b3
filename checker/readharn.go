package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// leafMap flattens a value into its non-zero leaves: path -> term. A part that
// cannot be enumerated appears as path -> nil.
func (in *Interp) leafMap(st *State, t *Term, T types.Type, path string) map[string]*Term {
	out := map[string]*Term{}
	var walk func(t *Term, T types.Type, path string, depth int)
	walk = func(t *Term, T types.Type, path string, depth int) {
		if depth > 40 {
			out[path] = nil
			return
		}
		if as := alts(t); len(as) > 1 {
			if _, basic := T.Underlying().(*types.Basic); basic {
				out[path] = t
			} else {
				out[path] = nil
			}
			return
		}
		switch u := T.Underlying().(type) {
		case *types.Pointer:
			switch t.K {
			case KNil:
			case KAddr:
				v := in.load(st, t, u.Elem(), 0)
				if _, isStruct := u.Elem().Underlying().(*types.Struct); isStruct {
					n := len(out)
					walk(v, u.Elem(), path, depth+1)
					if n == len(out) {
						out[path+".&"] = in.ts.Bool(true) // allocated, all fields zero
					}
					return
				}
				walk(v, u.Elem(), path, depth+1)
			default:
				out[path] = nil
			}
		case *types.Slice:
			if t.K == KNil {
				return
			}
			if isByteSlice(T) {
				out[path] = in.bytesText(st, t)
				return
			}
			es, ok := in.elems(st, t)
			if !ok {
				out[path] = nil
				return
			}
			for i, e := range es {
				n := len(out)
				walk(e, u.Elem(), fmt.Sprintf("%s[%d]", path, i), depth+1)
				if n == len(out) {
					out[fmt.Sprintf("%s[%d]", path, i)] = in.zero(u.Elem())
				}
			}
		case *types.Map:
			if t.K == KNil {
				return
			}
			if t.K != KAddr {
				out[path] = nil
				return
			}
			v := in.content(st, t.Obj)
			if v.K != KMapVal || v.Open {
				out[path] = nil
				return
			}
			for i := 0; i+1 < len(v.Args); i += 2 {
				if v.Args[i+1].K == KOp && v.Args[i+1].Op == "absent" {
					continue
				}
				walk(v.Args[i+1], u.Elem(), fmt.Sprintf("%s<%s>", path, strings.Trim(termText(v.Args[i]), "{}")), depth+1)
			}
		case *types.Struct:
			x := t
			if x.K != KStruct {
				x = in.expand(t, T)
			}
			for i := 0; i < u.NumFields(); i++ {
				f := u.Field(i)
				p := path + "." + f.Name()
				if f.Embedded() {
					if _, isStruct := deref2(f.Type()).Underlying().(*types.Struct); isStruct {
						p = path
					}
				}
				walk(in.field(x, i, f.Type()), f.Type(), p, depth+1)
			}
		case *types.Interface:
			if t.K == KNil {
				return
			}
			if t.K == KIface {
				walk(t.Args[0], t.T, path, depth+1)
				return
			}
			out[path] = nil
		default:
			if t.ID == in.zero(T).ID {
				return
			}
			out[path] = t
		}
	}
	walk(t, T, path, 0)
	return out
}

// leafTexts gives leafMap as text.
func leafTexts(m map[string]*Term) map[string]string {
	out := map[string]string{}
	for k, v := range m {
		switch {
		case v == nil:
			out[k] = "{?}"
		case v.K == KConst || v.K == KLabel || v.K == KCat || v.K == KOp:
			out[k] = termText(v)
		case v.K == KChoice:
			var ss []string
			for _, a := range alts(v) {
				ss = append(ss, termText(a))
			}
			sort.Strings(ss)
			out[k] = strings.Join(ss, "|")
		default:
			out[k] = termText(v)
		}
	}
	return out
}

// tmplTerm turns "text {label} text" into a term.
func (in *Interp) tmplTerm(s string) *Term {
	var ps []*Term
	for s != "" {
		i := strings.IndexByte(s, '{')
		if i < 0 {
			ps = append(ps, in.ts.Str(s))
			break
		}
		if i > 0 {
			ps = append(ps, in.ts.Str(s[:i]))
		}
		j := strings.IndexByte(s, '}')
		ps = append(ps, in.Label(s[i+1:j], types.Typ[types.String]))
		s = s[j+1:]
	}
	return in.ts.Cat(ps...)
}

// tvRead is one abstract read of a tag-value text into a document of version ver.
type tvRead struct {
	in   *Interp
	docT types.Type
	doc  *Obj
	outs []Outcome
}

func readTV(R *Report, ver string, lines []string, s *scenario, prep func(in *Interp)) *tvRead {
	fn := R.P.Func("tagvalue", "ReadInto")
	docT := R.P.Type(verRel(ver), "Document")
	in := NewInterp(R.P)
	s.install(in)
	in.lines = []*Term{}
	for _, l := range lines {
		in.lines = append(in.lines, in.tmplTerm(l))
	}
	if prep != nil {
		prep(in)
	}
	o := in.inputObj("target", "target", docT, in.zero(docT))
	outs := in.entryCall(fn, in.Label("r", fn.Signature.Params().At(0).Type()), in.ts.Iface(types.NewPointer(docT), in.ts.Addr(o.ID)))
	R.absorb(in)
	return &tvRead{in, docT, o, outs}
}

func (r *tvRead) leaves(o Outcome) map[string]string {
	return leafTexts(r.in.leafMap(o.st, r.in.content(o.st, r.doc.ID), r.docT, "doc"))
}
