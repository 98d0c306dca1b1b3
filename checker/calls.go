package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

func (in *Interp) evalCallee(fr *frame, ps *pstate, cc *ssa.CallCommon) (*Term, []*Term) {
	var args []*Term
	var fn *Term
	if cc.IsInvoke() {
		fn = in.get(fr, ps, cc.Value)
	} else if _, ok := cc.Value.(*ssa.Builtin); ok {
		fn = in.ts.Nil()
	} else {
		fn = in.get(fr, ps, cc.Value)
	}
	for _, a := range cc.Args {
		args = append(args, in.get(fr, ps, a))
	}
	return fn, args
}

func (in *Interp) doCall(fr *frame, ps *pstate, call *ssa.Call) []Outcome {
	fn, args := in.evalCallee(fr, ps, &call.Call)
	outs := in.callCommon(fr, ps.st, call, fn, args)
	if call.Call.IsInvoke() {
		in.noteNonNil(fr, ps, call.Call.Value, fn)
	}
	return outs
}

func (in *Interp) applyDeferred(fr *frame, q *pstate, d deferred) []Outcome {
	return in.callCommon(fr, q.st, d.instr, d.fn, d.args)
}

func (in *Interp) callCommon(fr *frame, st *State, instr ssa.CallInstruction, fn *Term, args []*Term) []Outcome {
	cc := instr.Common()
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return in.builtin(st, instr, b, args)
	}
	var outs []Outcome
	as := alts(fn)
	for i, f := range as {
		s := st
		if i < len(as)-1 {
			s = st.clone()
		}
		if cc.IsInvoke() {
			outs = append(outs, in.invoke(fr, s, instr, cc.Method, f, args)...)
		} else {
			outs = append(outs, in.callTerm(fr, s, instr, f, args, cc.Signature())...)
		}
	}
	return outs
}

func (in *Interp) callTerm(fr *frame, st *State, instr ssa.CallInstruction, f *Term, args []*Term, sig *types.Signature) []Outcome {
	switch f.K {
	case KClosure:
		return in.callFunction(fr, st, instr, f.Fn, f.Args, args)
	case KNil:
		in.alarm("nil-deref", posOf(instr), "call of nil function")
		return nil
	}
	if in.checkNil {
		if e := in.eq(st, f, in.ts.Nil()); !(e.isBool() && !constBool(e)) {
			in.alarm("nil-deref", posOf(instr), "call of possibly nil function "+f.String())
		}
	}
	if in.callLabel != nil {
		if o := in.callLabel(st, f, args); o != nil {
			return o
		}
	}
	in.extCalls["func value "+f.String()]++
	in.havocArgs(st, args)
	return []Outcome{{st: st, res: in.opaqueResults("callv", sig, append([]*Term{f}, args...))}}
}

func posOf(i ssa.CallInstruction) token.Pos {
	if i == nil {
		return token.NoPos
	}
	return i.Pos()
}

func (in *Interp) invoke(fr *frame, st *State, instr ssa.CallInstruction, m *types.Func, recv *Term, args []*Term) []Outcome {
	switch recv.K {
	case KNil:
		in.alarm("nil-deref", posOf(instr), "method call on nil interface")
		return nil
	case KIface:
		fn := in.P.Prog.LookupMethod(recv.T, m.Pkg(), m.Name())
		if fn != nil {
			return in.callFunction(fr, st, instr, fn, nil, append([]*Term{recv.Args[0]}, args...))
		}
	}
	if in.checkNil {
		if e := in.eq(st, recv, in.ts.Nil()); !(e.isBool() && !constBool(e)) {
			in.alarm("nil-deref", posOf(instr), "method call on possibly nil interface "+recv.String())
		}
	}
	full := m.FullName()
	c := &callCtx{in: in, fr: fr, instr: instr, name: full, args: append([]*Term{recv}, args...), st: st, sig: m.Type().(*types.Signature), pos: posOf(instr)}
	if md := in.intrinsics[full]; md != nil {
		return md(c)
	}
	if md := models[full]; md != nil {
		if o := md(c); o != nil {
			return o
		}
	}
	in.extCalls[full]++
	in.havocArgs(st, args)
	return []Outcome{{st: st, res: in.opaqueResults("call:"+full, c.sig, c.args)}}
}

func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if s, ok := fnNames.Load(fn); ok {
		return s.(string)
	}
	s := fn.String()
	fnNames.Store(fn, s)
	return s
}

var fnNames sync.Map

var interpretedPkgs = map[string]bool{"slices": true, "maps": true, "cmp": true, "iter": true}

func (in *Interp) canInterpret(fn *ssa.Function) bool {
	if len(fn.Blocks) == 0 {
		return false
	}
	pk := fnPkg(fn)
	if pk == nil {
		return fn.Synthetic != ""
	}
	if in.P.inRepo(pk) || interpretedPkgs[pk.Path()] {
		return true
	}
	if in.interpret != nil && in.interpret(fn) {
		return true
	}
	// bound-method and promotion wrappers
	if strings.HasPrefix(fn.Synthetic, "bound method") || strings.HasPrefix(fn.Synthetic, "thunk") || strings.HasPrefix(fn.Synthetic, "wrapper") {
		return true
	}
	return false
}

func (in *Interp) callFunction(fr *frame, st *State, instr ssa.CallInstruction, fn *ssa.Function, bind, args []*Term) []Outcome {
	name := fnName(fn)
	c := &callCtx{in: in, fr: fr, instr: instr, callee: fn, name: name, args: args, st: st, sig: fn.Signature, pos: posOf(instr)}
	if md := in.intrinsics[name]; md != nil {
		if o := md(c); o != nil {
			return o
		}
	}
	if md := models[name]; md != nil {
		if o := md(c); o != nil {
			return o
		}
	}
	if fn.Name() == "init" && fn.Signature.Recv() == nil && len(args) == 0 {
		return []Outcome{{st: st}}
	}
	if strings.HasPrefix(fn.Name(), "init#") && !in.canInterpret(fn) {
		return []Outcome{{st: st}}
	}
	if in.canInterpret(fn) {
		n := 0
		for _, f := range in.stack {
			if f.fn == fn {
				n++
			}
		}
		if n < in.recLimit {
			return in.callFn(fn, args, bind, st, instr)
		}
		in.recursed[fn.String()]++
		if in.recStop {
			in.steps = in.maxStep + 1 // the run is a failure already
		}
		in.havocArgs(st, args)
		in.havocArgs(st, bind)
		var res []*Term
		rs := fn.Signature.Results()
		for i := 0; i < rs.Len(); i++ {
			res = append(res, in.ts.Top(rs.At(i).Type(), args...))
		}
		return []Outcome{{st: st, res: res}}
	}
	pure := purePkg(fnPkg(fn))
	if !pure {
		in.extCalls[name]++
		in.havocArgs(st, args)
	}
	return []Outcome{{st: st, res: in.opaqueResults("call:"+name, fn.Signature, args)}}
}

func purePkg(p *types.Package) bool {
	if p == nil {
		return false
	}
	switch p.Path() {
	case "strings", "strconv", "path", "path/filepath", "unicode", "unicode/utf8", "errors", "fmt", "html", "time", "net/url", "regexp", "encoding/hex", "crypto/sha1", "crypto/sha256", "crypto/md5":
		return true
	}
	return false
}

func (in *Interp) opaqueResults(name string, sig *types.Signature, args []*Term) []*Term {
	var res []*Term
	rs := sig.Results()
	for i := 0; i < rs.Len(); i++ {
		n := name
		if rs.Len() > 1 {
			n = fmt.Sprintf("%s#%d", name, i)
		}
		imp := false
		for _, a := range args {
			if a.K == KTop {
				imp = true
			}
		}
		if imp {
			res = append(res, in.ts.Top(rs.At(i).Type(), args...))
		} else {
			res = append(res, in.op(n, rs.At(i).Type(), args...))
		}
	}
	return res
}

// havocArgs forgets the content of every local object reachable from args.
func (in *Interp) havocArgs(st *State, args []*Term) {
	seen := map[int]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		switch t.K {
		case KAddr, KSlice:
			if seen[t.Obj] {
				return
			}
			seen[t.Obj] = true
			v := in.content(st, t.Obj)
			if v == nil {
				return
			}
			walk(v)
			if !in.objs[t.Obj].Input {
				st.heap.set(t.Obj, in.ts.Top(in.objs[t.Obj].T, v))
			}
		case KClosure:
			for _, a := range t.Args {
				walk(a)
			}
		case KStruct, KIface, KChoice, KMapVal, KTuple:
			for _, a := range t.Args {
				walk(a)
			}
		}
	}
	for _, a := range args {
		// plain values passed by value cannot be changed
		walk(a)
	}
}

func (in *Interp) builtin(st *State, instr ssa.CallInstruction, b *ssa.Builtin, args []*Term) []Outcome {
	ts := in.ts
	one := func(t *Term) []Outcome { return []Outcome{{st: st, res: []*Term{t}}} }
	var rt types.Type
	if v, ok := instr.(ssa.Value); ok {
		rt = v.Type()
	}
	switch b.Name() {
	case "len":
		return one(in.length(st, args[0]))
	case "cap":
		return one(in.length(st, args[0]))
	case "append":
		if len(args) == 1 {
			return one(args[0])
		}
		if isStringType(instr.Common().Args[1].Type()) || isByteSlice(rt) {
			// text append
			a, bb := in.bytesText(st, args[0]), args[1]
			if !isStringType(instr.Common().Args[1].Type()) {
				bb = in.bytesText(st, bb)
			}
			return one(in.mkBytes(in.ts.Cat(a, bb)))
		}
		if in.shapeMode && !in.initing {
			return one(in.nonNilTop(ts.Top(rt)))
		}
		var outs []*Term
		k := 0
		for _, add := range alts(args[1]) {
			es, ok := in.elems(st, add)
			for _, s := range alts(args[0]) {
				k++
				if !ok {
					old, ok2 := in.elems(st, s)
					if ok2 && len(old) == 0 && isPathTerm(add) {
						outs = append(outs, ts.intern(&Term{K: KOp, Op: "copyof", Args: []*Term{add}, T: rt}))
						continue
					}
					outs = append(outs, in.nonNilOrTop(st, rt, append([]*Term{s, add}, old...)))
					continue
				}
				if len(es) == 0 {
					outs = append(outs, s)
					continue
				}
				outs = append(outs, in.appendOne(st, instr, s, rt, es, k))
			}
		}
		return one(ts.Choice(outs...))
	case "copy":
		dst, src := args[0], args[1]
		if dst.K == KSlice && !isStringType(instr.Common().Args[1].Type()) {
			es, ok := in.elems(st, src)
			if in.objs[dst.Obj].Input && !in.initing {
				in.event(st, Event{Kind: "write-input", Obj: dst.Obj, Aux: in.objs[dst.Obj].Name, Pos: instr.Pos()})
			}
			v := in.content(st, dst.Obj)
			if ok && v.K == KStruct {
				fs := append([]*Term(nil), v.Args...)
				n := min(dst.N, len(es))
				for i := 0; i < n; i++ {
					if st.sum[dst.Obj] {
						fs[dst.Off+i] = in.joinVal(fs[dst.Off+i], es[i])
					} else {
						fs[dst.Off+i] = es[i]
					}
				}
				st.heap.set(dst.Obj, ts.Struct(v.T, fs))
				return one(ts.Int(int64(n)))
			}
			st.heap.set(dst.Obj, ts.Top(in.objs[dst.Obj].T, v, src))
			return one(ts.Top(types.Typ[types.Int]))
		}
		for _, d := range alts(dst) {
			if isPathTerm(d) {
				in.event(st, Event{Kind: "write-input", Term: d, Pos: instr.Pos()})
			} else if d.K == KSlice {
				if in.objs[d.Obj].Input {
					in.event(st, Event{Kind: "write-input", Obj: d.Obj, Aux: in.objs[d.Obj].Name, Pos: instr.Pos()})
				}
				st.heap.set(d.Obj, ts.Top(in.objs[d.Obj].T, in.content(st, d.Obj), src))
			}
		}
		return one(ts.Top(types.Typ[types.Int]))
	case "delete":
		in.mapDelete(st, args[0], args[1], instr.Pos())
		return one(ts.Nil())
	case "clear":
		for _, a := range alts(args[0]) {
			if a.K == KAddr {
				if in.objs[a.Obj].Input {
					in.event(st, Event{Kind: "write-input", Obj: a.Obj, Aux: in.objs[a.Obj].Name, Pos: instr.Pos()})
				}
				st.heap.set(a.Obj, ts.intern(&Term{K: KMapVal, T: in.objs[a.Obj].T}))
			}
		}
		return one(ts.Nil())
	case "min", "max":
		in.askLimit(instr.Parent(), instr.Common().Args...)
		all := true
		for _, a := range args {
			if !a.isInt() {
				all = false
			}
		}
		if all {
			r := args[0]
			for _, a := range args[1:] {
				if (a.int() < r.int()) == (b.Name() == "min") {
					r = a
				}
			}
			return one(r)
		}
		return one(in.op(b.Name(), rt, args...))
	case "print", "println":
		return one(ts.Nil())
	case "recover":
		return one(ts.Nil())
	case "ssa:wrapnilchk":
		return one(args[0])
	case "close":
		in.unsupported("close", instr.Pos())
		return one(ts.Nil())
	}
	in.unsupported("builtin "+b.Name(), instr.Pos())
	return one(ts.Top(rt, args...))
}

func isByteSlice(t types.Type) bool {
	if t == nil {
		return false
	}
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Byte
}

func (in *Interp) nonNilOrTop(st *State, t types.Type, prov []*Term) *Term {
	return in.ts.Top(t, prov...)
}

// appendOne: append with the aliasing behaviour of a slice that has spare capacity.
func (in *Interp) appendOne(st *State, site ssa.Instruction, s *Term, t types.Type, es []*Term, k int) *Term {
	if s.K == KSlice {
		v := in.content(st, s.Obj)
		if v != nil && v.K == KStruct && s.Off+s.N < len(v.Args) && s.Off+s.N+len(es) <= len(v.Args) && !in.freshTail(s) {
			if in.objs[s.Obj].Input && !in.initing {
				in.event(st, Event{Kind: "write-input", Obj: s.Obj, Aux: in.objs[s.Obj].Name, Pos: site.Pos()})
			}
			fs := append([]*Term(nil), v.Args...)
			for i, e := range es {
				p := s.Off + s.N + i
				if st.sum[s.Obj] {
					fs[p] = in.joinVal(fs[p], e)
				} else {
					fs[p] = e
				}
			}
			st.heap.set(s.Obj, in.ts.Struct(v.T, fs))
			return in.ts.Slice(s.Obj, s.Off, s.N+len(es), t)
		}
	}
	old, ok := in.elems(st, s)
	if ok && len(old) < 5000 {
		all := append(append([]*Term(nil), old...), es...)
		return in.newSlice(st, site, fmt.Sprintf("append%d.", k), t, all)
	}
	return in.nonNilTop(in.ts.Top(t, append([]*Term{s}, es...)...))
}

func (in *Interp) freshTail(s *Term) bool { return false }
