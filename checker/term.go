package main

// Value-numbered terms: the abstract values of the interpreter.
//
// Every abstract value is a hash-consed term. A term is a constant, an opaque
// labelled input, an uninterpreted operation over terms, a structured value
// (struct, array, slice view, map cell, interface box, closure), a bounded set
// of alternatives (KChoice) or an unknown (KTop).

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Kind uint8

const (
	KConst Kind = iota
	KNil
	KLabel   // opaque input, Op = name
	KOp      // uninterpreted operation
	KAddr    // pointer: Obj + Path
	KStruct  // struct or array value, Args = fields/elements
	KSlice   // slice view of a concrete array object: Obj, Off, N
	KMapVal  // content of a map object: Args = k0,v0,k1,v1..., Open
	KIface   // interface box: T dynamic type, Args[0]
	KClosure // Fn + Args (bindings)
	KTuple
	KCat    // string concatenation, Args pieces
	KChoice // alternatives
	KTop    // unknown, Args = provenance roots
)

type Term struct {
	ID      int
	K       Kind
	Op      string
	Args    []*Term
	T       types.Type
	C       constant.Value
	Obj     int
	Path    []int
	Fn      *ssa.Function
	Off, N  int
	Open    bool
	Imprec  bool // contains a Top: no facts may be recorded about it
	strMemo string
}

type Terms struct {
	tab  map[string]*Term
	list []*Term
	tkey map[types.Type]int
	tstr map[string]int
}

func newTerms() *Terms {
	return &Terms{tab: map[string]*Term{}, tkey: map[types.Type]int{}, tstr: map[string]int{}}
}

func (ts *Terms) typeKey(t types.Type) int {
	if t == nil {
		return 0
	}
	if k, ok := ts.tkey[t]; ok {
		return k
	}
	s := types.TypeString(t, func(p *types.Package) string { return p.Path() })
	// distinguish local types of the same name by object position
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Parent() != n.Obj().Pkg().Scope() {
		s += fmt.Sprintf("@%d", n.Obj().Pos())
	}
	k, ok := ts.tstr[s]
	if !ok {
		k = len(ts.tstr) + 1
		ts.tstr[s] = k
	}
	ts.tkey[t] = k
	return k
}

func (ts *Terms) intern(t *Term) *Term {
	var b strings.Builder
	b.WriteByte(byte('A' + t.K))
	b.WriteString(t.Op)
	b.WriteByte('|')
	for _, a := range t.Args {
		b.WriteString(strconv.Itoa(a.ID))
		b.WriteByte(',')
	}
	switch t.K {
	case KConst:
		b.WriteString(t.C.Kind().String())
		b.WriteString(t.C.ExactString())
	case KAddr:
		fmt.Fprintf(&b, "@%d%v", t.Obj, t.Path)
	case KSlice:
		fmt.Fprintf(&b, "@%d:%d:%d", t.Obj, t.Off, t.N)
	case KIface, KStruct:
		fmt.Fprintf(&b, "#%d", ts.typeKey(t.T))
	case KClosure:
		fmt.Fprintf(&b, "f%p", t.Fn)
	case KMapVal:
		fmt.Fprintf(&b, "o%v", t.Open)
	case KTop:
		fmt.Fprintf(&b, "#%d", ts.typeKey(t.T))
	}
	k := b.String()
	if r, ok := ts.tab[k]; ok {
		return r
	}
	t.ID = len(ts.list) + 1
	t.Imprec = t.K == KTop || t.K == KChoice
	if t.K != KAddr && t.K != KSlice {
		for _, a := range t.Args {
			if a.Imprec {
				t.Imprec = true
			}
		}
	}
	ts.tab[k] = t
	ts.list = append(ts.list, t)
	return t
}

func (ts *Terms) Const(v constant.Value) *Term { return ts.intern(&Term{K: KConst, C: v}) }
func (ts *Terms) Str(s string) *Term           { return ts.Const(constant.MakeString(s)) }
func (ts *Terms) Int(n int64) *Term            { return ts.Const(constant.MakeInt64(n)) }
func (ts *Terms) Bool(b bool) *Term            { return ts.Const(constant.MakeBool(b)) }
func (ts *Terms) Nil() *Term                   { return ts.intern(&Term{K: KNil}) }
func (ts *Terms) Addr(obj int, path ...int) *Term {
	return ts.intern(&Term{K: KAddr, Obj: obj, Path: append([]int(nil), path...)})
}
func (ts *Terms) Struct(t types.Type, fs []*Term) *Term {
	return ts.intern(&Term{K: KStruct, T: t, Args: fs})
}
func (ts *Terms) Slice(obj, off, n int, t types.Type) *Term {
	return ts.intern(&Term{K: KSlice, Obj: obj, Off: off, N: n, T: t})
}
func (ts *Terms) Iface(t types.Type, v *Term) *Term {
	if v.K == KChoice { // distribute
		var alts []*Term
		for _, a := range v.Args {
			alts = append(alts, ts.Iface(t, a))
		}
		return ts.Choice(alts...)
	}
	return ts.intern(&Term{K: KIface, T: t, Args: []*Term{v}})
}
func (ts *Terms) Tuple(vs ...*Term) *Term { return ts.intern(&Term{K: KTuple, Args: vs}) }

const maxChoice = 24

func (ts *Terms) Top(t types.Type, prov ...*Term) *Term {
	set := map[int]*Term{}
	for _, p := range prov {
		for _, r := range ts.roots(p) {
			set[r.ID] = r
		}
	}
	var rs []*Term
	for _, r := range set {
		rs = append(rs, r)
	}
	sort.Slice(rs, func(i, j int) bool { return rs[i].ID < rs[j].ID })
	if len(rs) > 32 {
		rs = rs[:32]
	}
	return ts.intern(&Term{K: KTop, T: t, Args: rs})
}

// roots returns the opaque inputs a term is computed from.
func (ts *Terms) roots(t *Term) []*Term {
	var out []*Term
	seen := map[int]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t.ID] {
			return
		}
		seen[t.ID] = true
		if isPathTerm(t) {
			out = append(out, t)
			return
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	walk(t)
	return out
}

// isPathTerm: a label or a field/element/dereference path from a label.
func isPathTerm(t *Term) bool {
	if t.K == KLabel {
		return true
	}
	if t.K == KOp && (strings.HasPrefix(t.Op, ".") || t.Op == "*" || strings.HasPrefix(t.Op, "[")) {
		return isPathTerm(t.Args[0])
	}
	return false
}

func (ts *Terms) Choice(alts ...*Term) *Term {
	set := map[int]*Term{}
	var typ types.Type
	var add func(a *Term)
	var top []*Term
	add = func(a *Term) {
		if a.K == KChoice {
			for _, x := range a.Args {
				add(x)
			}
			return
		}
		if a.K == KTop {
			top = append(top, a)
		}
		if typ == nil {
			typ = a.T
		}
		set[a.ID] = a
	}
	for _, a := range alts {
		add(a)
	}
	var l []*Term
	for _, a := range set {
		l = append(l, a)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].ID < l[j].ID })
	if len(l) == 1 {
		return l[0]
	}
	if len(top) > 0 {
		// integer lower bounds survive
		lo, allInt, allNN := int64(posInf), true, true
		for _, a := range l {
			if a.isInt() {
				lo = min(lo, a.int())
			} else if g, _, ok := parseGe(a.Op); ok && a.K == KTop {
				lo = min(lo, g)
			} else {
				allInt = false
			}
			if !(a.K == KTop && a.Op == "nn" || a.K == KAddr || a.K == KSlice || a.K == KClosure || a.K == KIface) {
				allNN = false
			}
		}
		if allInt {
			return ts.intern(&Term{K: KTop, Op: "ge" + strconv.FormatInt(lo, 10), T: top[0].T})
		}
		r := ts.Top(top[0].T, l...)
		if allNN {
			r = ts.intern(&Term{K: KTop, Op: "nn", T: r.T, Args: r.Args})
		}
		return r
	}
	if len(l) > maxChoice {
		return ts.Top(typ, l...)
	}
	// merge same-typed interface boxes or structs? keep alternatives
	return ts.intern(&Term{K: KChoice, Args: l, T: typ})
}

func alts(t *Term) []*Term {
	if t.K == KChoice {
		return t.Args
	}
	return []*Term{t}
}

func (t *Term) isStr() bool { return t.K == KConst && t.C.Kind() == constant.String }
func (t *Term) str() string { return constant.StringVal(t.C) }
func (t *Term) isBool() bool {
	return t.K == KConst && t.C.Kind() == constant.Bool
}
func (t *Term) isInt() bool { return t.K == KConst && t.C.Kind() == constant.Int }
func (t *Term) int() int64  { n, _ := constant.Int64Val(t.C); return n }

// Cat concatenates string terms.
func (ts *Terms) Cat(ps ...*Term) *Term {
	var out []*Term
	var push func(p *Term)
	push = func(p *Term) {
		if p.K == KCat {
			for _, q := range p.Args {
				push(q)
			}
			return
		}
		if p.isStr() {
			if p.str() == "" {
				return
			}
			if n := len(out); n > 0 && out[n-1].isStr() {
				out[n-1] = ts.Str(out[n-1].str() + p.str())
				return
			}
		}
		out = append(out, p)
	}
	for _, p := range ps {
		push(p)
	}
	if len(out) == 0 {
		return ts.Str("")
	}
	if len(out) == 1 {
		return out[0]
	}
	return ts.intern(&Term{K: KCat, Args: out})
}

func (t *Term) String() string {
	if t == nil {
		return "<nil>"
	}
	if t.strMemo != "" {
		return t.strMemo
	}
	s := t.render(0)
	t.strMemo = s
	return s
}

func (t *Term) render(d int) string {
	if d > 12 {
		return "…"
	}
	args := func() string {
		var ss []string
		for _, a := range t.Args {
			ss = append(ss, a.render(d+1))
		}
		return strings.Join(ss, ",")
	}
	switch t.K {
	case KConst:
		return t.C.ExactString()
	case KNil:
		return "nil"
	case KLabel:
		return t.Op
	case KOp:
		if strings.HasPrefix(t.Op, ".") && len(t.Args) == 1 {
			a := t.Args[0]
			if a.K == KOp && a.Op == "*" {
				a = a.Args[0]
			}
			return a.render(d+1) + t.Op
		}
		if t.Op == "*" {
			return "*" + t.Args[0].render(d+1)
		}
		if strings.HasPrefix(t.Op, "[") {
			if len(t.Args) == 2 {
				return t.Args[0].render(d+1) + "[" + t.Args[1].render(d+1) + "]"
			}
			return t.Args[0].render(d+1) + t.Op
		}
		return t.Op + "(" + args() + ")"
	case KAddr:
		return fmt.Sprintf("&o%d%v", t.Obj, t.Path)
	case KSlice:
		return fmt.Sprintf("o%d[%d:+%d]", t.Obj, t.Off, t.N)
	case KStruct:
		return "{" + args() + "}"
	case KMapVal:
		return "map{" + args() + "}"
	case KIface:
		return types.TypeString(t.T, func(p *types.Package) string { return p.Name() }) + "(" + t.Args[0].render(d+1) + ")"
	case KClosure:
		return "func " + t.Fn.String()
	case KTuple:
		return "(" + args() + ")"
	case KCat:
		var ss []string
		for _, a := range t.Args {
			if a.isStr() {
				ss = append(ss, strconv.Quote(a.str()))
			} else {
				ss = append(ss, "‹"+a.render(d+1)+"›")
			}
		}
		return strings.Join(ss, "")
	case KChoice:
		var ss []string
		for _, a := range t.Args {
			ss = append(ss, a.render(d+1))
		}
		return "⟨" + strings.Join(ss, " | ") + "⟩"
	case KTop:
		if len(t.Args) == 0 {
			return "⊤"
		}
		return "⊤(" + args() + ")"
	}
	return "?"
}
