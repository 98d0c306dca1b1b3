package main

import (
	"go/types"
	"strings"
)

// rankLess compares two texts by the order the scenario gives its inputs, no
// input being a prefix of another.
func (in *Interp) rankLess(a, b *Term) (less, ok bool) {
	as, bs := append([]*Term(nil), pieces(a)...), append([]*Term(nil), pieces(b)...)
	for len(as) > 0 && len(bs) > 0 {
		x, y := as[0], bs[0]
		if x == y {
			as, bs = as[1:], bs[1:]
			continue
		}
		if x.isStr() && y.isStr() {
			s, t := x.str(), y.str()
			n := 0
			for n < len(s) && n < len(t) && s[n] == t[n] {
				n++
			}
			if n < len(s) && n < len(t) {
				return s[n] < t[n], true
			}
			as[0], bs[0] = in.ts.Str(s[n:]), in.ts.Str(t[n:])
			if n == len(s) {
				as = as[1:]
			}
			if n == len(t) {
				bs = bs[1:]
			}
			continue
		}
		if x.K == KLabel && y.K == KLabel && in.rankText {
			return x.Op < y.Op, x.Op != y.Op
		}
		if in.rankText && x.isStr() && y.K == KLabel {
			return true, true // inputs come after the constants
		}
		if in.rankText && y.isStr() && x.K == KLabel {
			return false, true
		}
		if x.K == KLabel && y.K == KLabel {
			rx, okx := in.rank[x.Op]
			ry, oky := in.rank[y.Op]
			return rx < ry, okx && oky && rx != ry
		}
		if in.rankSum && x.K == KOp && y.K == KOp && x.Op == "hex" && y.Op == "hex" {
			return x.ID < y.ID, true
		}
		return false, false
	}
	return len(as) == 0 && len(bs) > 0, true
}

// doSort sorts a list of known length by comparisons that can be decided.
func (c *callCtx) doSort() []Outcome {
	in := c.in
	x := c.args[0]
	if x.K == KIface {
		if c.name == "sort.Sort" || c.name == "sort.Stable" {
			return c.sortInterface(x)
		}
		x = x.Args[0]
	}
	es, ok := in.elems(c.st, x)
	if !ok {
		return nil
	}
	if len(es) < 2 {
		return one(c)
	}
	st := c.st
	get := func(i int) *Term { l, _ := in.elems(st, x); return l[i] }
	swap := func(i, j int) {
		v := in.content(st, x.Obj)
		as := append([]*Term(nil), v.Args...)
		as[x.Off+i], as[x.Off+j] = as[x.Off+j], as[x.Off+i]
		if in.objs[x.Obj].Input {
			in.event(st, Event{Kind: "write-input", Obj: x.Obj, Aux: "sort " + in.objs[x.Obj].Name, Pos: c.pos})
		}
		st.heap.set(x.Obj, in.ts.Struct(v.T, as))
	}
	decide := func(o []Outcome, f func(*Term) *Term) (bool, bool) {
		if len(o) == 0 {
			return false, false
		}
		res, all := false, true
		for i, y := range o {
			t := f(in.resolve(y.st, y.res[0], nil))
			if !t.isBool() {
				return false, false
			}
			if i > 0 && constBool(t) != res {
				all = false
			}
			res = constBool(t)
		}
		st = o[0].st
		return res, all
	}
	var less func(i, j int) (bool, bool)
	self := func(t *Term) *Term { return t }
	switch {
	case strings.Contains(c.name, "slices.Reverse"):
		for i, j := 0, len(es)-1; i < j; i, j = i+1, j-1 {
			swap(i, j)
		}
		return []Outcome{{st: st}}
	case c.name == "sort.Slice" || c.name == "sort.SliceStable":
		sig := c.sig.Params().At(1).Type().Underlying().(*types.Signature)
		less = func(i, j int) (bool, bool) {
			return decide(in.callTerm(c.fr, st, c.instr, c.args[1], []*Term{in.ts.Int(int64(i)), in.ts.Int(int64(j))}, sig), self)
		}
	case strings.Contains(c.name, "slices.Sort") && len(c.args) == 2:
		sig := c.sig.Params().At(1).Type().Underlying().(*types.Signature)
		less = func(i, j int) (bool, bool) {
			return decide(in.callTerm(c.fr, st, c.instr, c.args[1], []*Term{get(i), get(j)}, sig), func(t *Term) *Term {
				if t.isInt() {
					return in.ts.Bool(t.int() < 0)
				}
				return t
			})
		}
	default:
		less = func(i, j int) (bool, bool) {
			t := in.lt(st, get(i), get(j))
			return t.isBool() && constBool(t), t.isBool()
		}
	}
	for i := 1; i < len(es); i++ {
		for j := i; j > 0; j-- {
			l, ok := less(j, j-1)
			if !ok {
				return nil
			}
			if !l {
				break
			}
			swap(j, j-1)
		}
	}
	return []Outcome{{st: st}}
}

// sortInterface drives a sort.Interface.
func (c *callCtx) sortInterface(x *Term) []Outcome {
	in := c.in
	meth := func(name string) func(args ...*Term) *Term {
		fn := in.P.Prog.LookupMethod(x.T, nil, name)
		if fn == nil {
			return nil
		}
		return func(args ...*Term) *Term {
			o := in.callFunction(c.fr, c.st, c.instr, fn, nil, append([]*Term{x.Args[0]}, args...))
			if len(o) != 1 {
				return nil
			}
			c.st = o[0].st
			if len(o[0].res) == 0 {
				return in.ts.Nil()
			}
			return o[0].res[0]
		}
	}
	if n := types.TypeString(x.T, nil); n == "sort.StringSlice" {
		c2 := *c
		c2.args = []*Term{x.Args[0]}
		c2.name = "sort.Strings"
		return c2.doSort()
	}
	ln, less, swap := meth("Len"), meth("Less"), meth("Swap")
	if ln == nil || less == nil || swap == nil {
		return nil
	}
	n := ln()
	if n == nil || !n.isInt() {
		return nil
	}
	for i := int64(1); i < n.int(); i++ {
		for j := i; j > 0; j-- {
			l := less(in.ts.Int(j), in.ts.Int(j-1))
			if l == nil || !l.isBool() {
				return nil
			}
			if !constBool(l) {
				break
			}
			if swap(in.ts.Int(j), in.ts.Int(j-1)) == nil {
				return nil
			}
		}
	}
	return []Outcome{{st: c.st}}
}

// tokens of a text of constants and generic, distinct inputs.
func (in *Interp) tokens(x *Term) ([]int, bool) {
	var out []int
	for _, p := range pieces(x) {
		if p.isStr() {
			for _, b := range []byte(p.str()) {
				out = append(out, int(b))
			}
			continue
		}
		if at := in.attrOf(p); !(at.Generic && at.Distinct) {
			return nil, false
		}
		out = append(out, 256+p.ID)
	}
	return out, true
}

// findTokens: where y occurs in x, 'p' as a prefix, 's' as a suffix, 'c' anywhere.
func (in *Interp) findTokens(x, y *Term, how byte) *bool {
	a, ok1 := in.tokens(x)
	b, ok2 := in.tokens(y)
	if !ok1 || !ok2 {
		return nil
	}
	at := func(i int) bool {
		if i < 0 || i+len(b) > len(a) {
			return false
		}
		for j := range b {
			if a[i+j] != b[j] {
				return false
			}
		}
		return true
	}
	r := false
	switch how {
	case 'p':
		r = at(0)
	case 's':
		r = at(len(a) - len(b))
	default:
		for i := 0; i+len(b) <= len(a); i++ {
			r = r || at(i)
		}
	}
	return &r
}

func cutTermSuffix(in *Interp, x, suf *Term) (*Term, bool) {
	xs, ps := append([]*Term(nil), pieces(x)...), pieces(suf)
	for i := len(ps) - 1; i >= 0; i-- {
		p := ps[i]
		if len(xs) == 0 {
			return nil, false
		}
		l := len(xs) - 1
		if p == xs[l] {
			xs = xs[:l]
			continue
		}
		if p.isStr() && xs[l].isStr() && strings.HasSuffix(xs[l].str(), p.str()) {
			xs[l] = in.ts.Str(strings.TrimSuffix(xs[l].str(), p.str()))
			continue
		}
		return nil, false
	}
	return in.ts.Cat(xs...), true
}
