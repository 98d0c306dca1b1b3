package main

import (
	"go/constant"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// canon renames the allocated objects of a state by the order in which they
// are reached from the live values and drops the others, so that states that
// differ only in how often something was allocated become equal. Objects that
// a caller's registers hold keep their name.
func (in *Interp) canon(fr *frame, ps *pstate) {
	var vals []ssa.Value
	for v := range ps.env {
		vals = append(vals, v)
	}
	sort.Slice(vals, func(i, j int) bool {
		if vals[i].Name() != vals[j].Name() {
			return vals[i].Name() < vals[j].Name()
		}
		return vals[i].Pos() < vals[j].Pos()
	})
	to := map[int]int{}
	cnt := map[string]int{}
	var order []int
	seenT := map[*Term]bool{}
	var visit func(t *Term)
	pinned := map[int]bool{}
	var pin func(t *Term)
	seenP := map[*Term]bool{}
	pin = func(t *Term) {
		if t == nil || seenP[t] {
			return
		}
		seenP[t] = true
		if (t.K == KAddr || t.K == KSlice) && in.objs[t.Obj].allocKey != "" && !pinned[t.Obj] {
			pinned[t.Obj] = true
			to[t.Obj] = t.Obj
			order = append(order, t.Obj)
		}
		for _, a := range t.Args {
			pin(a)
		}
	}
	pinAll := func(ts []*Term) {
		for _, t := range ts {
			pin(t)
		}
	}
	for _, f := range in.stack {
		pinAll(f.args)
		pinAll(f.bind)
		if f == fr || f.ps == nil {
			continue
		}
		var vs []*Term
		for _, t := range f.ps.env {
			vs = append(vs, t)
		}
		sort.Slice(vs, func(i, j int) bool { return vs[i].ID < vs[j].ID })
		pinAll(vs)
		for _, d := range f.ps.defers {
			pin(d.fn)
			pinAll(d.args)
		}
	}
	for _, d := range ps.defers {
		pin(d.fn)
		pinAll(d.args)
	}
	reach := func(id int) {
		o := in.objs[id]
		if o.allocKey == "" {
			return
		}
		if _, ok := to[id]; ok {
			return
		}
		key := "canon|" + types.TypeString(o.T, nil)
		for {
			n := cnt[key]
			cnt[key]++
			if c := in.allocObj(key, n, o).ID; !pinned[c] {
				to[id] = c
				break
			}
		}
		order = append(order, id)
	}
	visit = func(t *Term) {
		if seenT[t] {
			return
		}
		seenT[t] = true
		switch t.K {
		case KTop:
			return
		case KAddr, KSlice:
			reach(t.Obj)
		}
		for _, a := range t.Args {
			visit(a)
		}
	}
	for _, v := range vals {
		visit(ps.env[v])
	}
	// objects that are not allocated here (inputs, package variables) are roots too
	for id, v := range ps.st.heap.all() {
		if in.objs[id].allocKey == "" {
			visit(v)
		}
	}
	for i := 0; i < len(order); i++ {
		if v := ps.st.heap.get(order[i]); v != nil {
			visit(v)
		}
	}
	memo := map[*Term]*Term{}
	var ren func(t *Term) *Term
	ren = func(t *Term) *Term {
		if r, ok := memo[t]; ok {
			return r
		}
		memo[t] = t
		if isStringTerm(t) {
			r := in.ts.Top(types.Typ[types.String])
			memo[t] = r
			return r
		}
		if t.K == KOp && t.Op == "scan" && t.Args[0].isInt() {
			r := in.op("scan", t.T, in.ts.Top(types.Typ[types.Int]), t.Args[1])
			memo[t] = r
			return r
		}
		n := *t
		n.ID, n.strMemo = 0, ""
		changed := false
		if t.K == KLabel && t.Op == "iter#" {
			r := in.ts.Top(types.Typ[types.Int])
			memo[t] = r
			return r
		}
		if t.K == KAddr || t.K == KSlice {
			if id, ok := to[t.Obj]; ok && id != t.Obj {
				n.Obj = id
				changed = true
			}
		}
		if t.K == KTop {
			for _, a := range t.Args {
				if a.K != KLabel {
					n.Args = nil
					changed = true
				}
			}
		} else if len(t.Args) > 0 {
			args := make([]*Term, len(t.Args))
			for i, a := range t.Args {
				args[i] = ren(a)
				if args[i] != a {
					changed = true
				}
			}
			n.Args = args
		}
		if !changed {
			return t
		}
		var r *Term
		if t.K == KChoice {
			r = in.ts.Choice(n.Args...)
		} else {
			r = in.ts.intern(&n)
		}
		memo[t] = r
		return r
	}
	st := ps.st.clone()
	st.heap = pmap{}
	st.known = pmap{}
	st.sum = map[int]bool{}
	for id, v := range ps.st.heap.all() {
		if in.objs[id].allocKey == "" {
			st.heap.set(id, ren(v))
			if ps.st.sum[id] {
				st.sum[id] = true
			}
			continue
		}
		if id2, ok := to[id]; ok {
			st.heap.set(id2, ren(v))
			if ps.st.sum[id] {
				st.sum[id2] = true
			}
		}
	}
	st.shared &^= shSum
	st.cnt = map[string]int{}
	st.shared &^= shCnt
	for v, t := range ps.env {
		ps.env[v] = ren(t)
	}
	ps.st = st
}

// isStringTerm tells whether t is a string other than an unknown one.
func isStringTerm(t *Term) bool {
	switch t.K {
	case KCat:
		return true
	case KConst:
		return t.C.Kind() == constant.String
	case KLabel, KOp, KChoice:
		if t.T != nil {
			b, ok := t.T.Underlying().(*types.Basic)
			return ok && b.Info()&types.IsString != 0
		}
		if t.K == KChoice {
			for _, a := range t.Args {
				if isStringTerm(a) {
					return true
				}
			}
		}
	}
	return false
}
