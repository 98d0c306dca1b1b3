package main

// Value-based bounds: a branch on an SSA value that dominates a use of the
// same value holds at that use, whatever loop it is in.

import (
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// constraint is "x op y" known to hold.
type constraint struct {
	op   token.Token
	x, y ssa.Value
}

var negOp = map[token.Token]token.Token{token.EQL: token.NEQ, token.NEQ: token.EQL, token.LSS: token.GEQ, token.GEQ: token.LSS, token.GTR: token.LEQ, token.LEQ: token.GTR}

var swapOp = map[token.Token]token.Token{token.EQL: token.EQL, token.NEQ: token.NEQ, token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ}

// holdsAt lists the comparisons that every path to block b has passed.
func holdsAt(b *ssa.BasicBlock) []constraint {
	var out []constraint
	for d := b; d != nil; d = d.Idom() {
		p := d.Idom()
		if p == nil {
			break
		}
		// an edge p'->d where d has a single predecessor dominates everything under d
		if len(d.Preds) != 1 {
			continue
		}
		p = d.Preds[0]
		iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok || p.Succs[0] == p.Succs[1] {
			continue
		}
		out = append(out, condHolds(iff.Cond, p.Succs[0] == d)...)
	}
	return out
}

func condHolds(c ssa.Value, val bool) []constraint {
	switch c := c.(type) {
	case *ssa.BinOp:
		op := c.Op
		if _, cmp := negOp[op]; !cmp {
			return nil
		}
		if !val {
			op = negOp[op]
		}
		return []constraint{{op, c.X, c.Y}}
	case *ssa.UnOp:
		if c.Op == token.NOT {
			return condHolds(c.X, !val)
		}
	case *ssa.Call:
		if val {
			return []constraint{{op: token.EQL, x: c}}
		}
	}
	return nil
}

// pkgCall gives the name of a function of package strings or bytes that v calls.
func pkgCall(v ssa.Value) (*ssa.Call, string) {
	c, ok := v.(*ssa.Call)
	if !ok {
		return nil, ""
	}
	f := c.Call.StaticCallee()
	if f == nil || f.Pkg == nil || f.Pkg.Pkg.Path() != "strings" && f.Pkg.Pkg.Path() != "bytes" {
		return nil, ""
	}
	return c, f.Name()
}

// foundIn: v is the place of a text in x, or -1; n is the least length of that text.
func foundIn(v, x ssa.Value) (c *ssa.Call, n int64, ok bool) {
	c, name := pkgCall(v)
	if c == nil || c.Call.Args[0] != x {
		return nil, 0, false
	}
	switch name {
	case "Index", "LastIndex":
		if k, isC := c.Call.Args[1].(*ssa.Const); isC && k.Value != nil && k.Value.Kind() == constant.String {
			n = int64(len(constant.StringVal(k.Value)))
		}
	case "IndexByte", "IndexRune", "IndexAny", "IndexFunc", "LastIndexByte", "LastIndexAny", "LastIndexFunc":
		n = 1
	default:
		return nil, 0, false
	}
	return c, n, true
}

func constInt(v ssa.Value) (int64, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
		return 0, false
	}
	return c.Int64(), true
}

func lenOf(v ssa.Value) ssa.Value {
	c, ok := v.(*ssa.Call)
	if !ok {
		return nil
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	if !ok || b.Name() != "len" {
		return nil
	}
	return c.Call.Args[0]
}

// minLen is a lower bound of len(x) at block b.
func minLen(x ssa.Value, b *ssa.BasicBlock) int64 { return minLenN(x, b, 0) }

func minLenN(x ssa.Value, b *ssa.BasicBlock, depth int) int64 {
	lo := lenFacts(x, ownLen(x), holdsAt(b))
	if depth > 5 {
		return lo
	}
	var def *ssa.BasicBlock
	if i, ok := x.(ssa.Instruction); ok {
		def = i.Block()
	}
	// the least of what the paths into a dominating join know; a value's length
	// does not change, so the edges back to a loop's head add nothing
	for d := b; d != nil && d != def; d = d.Idom() {
		if len(d.Preds) < 2 {
			continue
		}
		least := int64(-1)
		for _, p := range d.Preds {
			if d.Dominates(p) {
				continue
			}
			var edge []constraint
			if iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok && p.Succs[0] != p.Succs[1] {
				edge = condHolds(iff.Cond, p.Succs[0] == d)
			}
			l := lenFacts(x, minLenN(x, p, depth+1), edge)
			if least < 0 || l < least {
				least = l
			}
		}
		lo = max(lo, least)
	}
	return lo
}

// ownLen is a lower bound of len(x) by what x is.
func ownLen(x ssa.Value) int64 {
	lo := int64(0)
	if c, ok := x.(*ssa.Call); ok {
		if f := c.Call.StaticCallee(); f != nil && f.Pkg != nil && f.Pkg.Pkg.Path() == "strings" {
			// the parts of a text are at least one
			switch f.Name() {
			case "Split", "SplitN", "SplitAfter":
				sep, ok := c.Call.Args[1].(*ssa.Const)
				n := int64(-1)
				if f.Name() == "SplitN" {
					n, _ = constInt(c.Call.Args[2])
				}
				if ok && sep.Value != nil && constant.StringVal(sep.Value) != "" && n != 0 {
					lo = 1
				}
			}
		}
	}
	return lo
}

// lenFacts raises the lower bound lo of len(x) by the comparisons hs.
func lenFacts(x ssa.Value, lo int64, hs []constraint) int64 {
	for _, c := range append(hs, hs...) {
		for _, d := range []constraint{c, {swapOp[c.op], c.y, c.x}} {
			if call, name := pkgCall(d.x); call != nil && d.y == nil && call.Call.Args[0] == x {
				switch name {
				case "HasPrefix", "HasSuffix", "Contains":
					if k, isC := call.Call.Args[1].(*ssa.Const); isC && k.Value != nil && k.Value.Kind() == constant.String {
						lo = max(lo, int64(len(constant.StringVal(k.Value))))
					}
				}
			}
			if lenOf(d.x) != x {
				if k, ok := constInt(d.y); ok && (d.op == token.EQL || d.op == token.GEQ) && roundsOver(d.x, x) {
					lo = max(lo, k)
				}
				if s, ok := d.y.(*ssa.Const); ok && d.x == x && s.Value != nil && s.Value.Kind() == constant.String {
					n := int64(len(constant.StringVal(s.Value)))
					switch {
					case d.op == token.EQL:
						lo = max(lo, n)
					case d.op == token.NEQ && n == 0:
						lo = max(lo, 1)
					}
				}
				continue
			}
			k, ok := constInt(d.y)
			if !ok {
				continue
			}
			switch d.op {
			case token.EQL, token.GEQ:
				lo = max(lo, k)
			case token.GTR:
				lo = max(lo, k+1)
			case token.NEQ:
				if k == lo {
					lo++
				}
			}
		}
	}
	return lo
}

func notNegative(v ssa.Value, b *ssa.BasicBlock, seen map[ssa.Value]bool) bool {
	if k, ok := constInt(v); ok {
		return k >= 0
	}
	if lenOf(v) != nil || seen[v] {
		return true
	}
	seen[v] = true
	for _, c := range holdsAt(b) {
		for _, d := range []constraint{c, {swapOp[c.op], c.y, c.x}} {
			if k, ok := constInt(d.y); ok && d.x == v && (d.op == token.GEQ && k >= 0 || d.op == token.GTR && k >= -1) {
				return true
			}
			if k, ok := constInt(d.y); ok && d.x == v && k == -1 && d.op == token.NEQ {
				if c, _ := pkgCall(v); c != nil {
					if _, _, found := foundIn(v, c.Call.Args[0]); found {
						return true
					}
				}
			}
		}
	}
	switch v := v.(type) {
	case *ssa.BinOp:
		if v.Op == token.ADD {
			if k, ok := constInt(v.Y); ok && k >= 0 {
				// the index of a range loop starts at -1
				if p, ok := v.X.(*ssa.Phi); ok && k == 1 {
					all := true
					for _, e := range p.Edges {
						if c, ok := constInt(e); e != v && !(ok && c >= -1) {
							all = false
						}
					}
					if all {
						return true
					}
				}
				return notNegative(v.X, b, seen)
			}
		}
	case *ssa.Phi:
		for _, e := range v.Edges {
			if !notNegative(e, b, seen) {
				return false
			}
		}
		return true
	}
	return false
}

func below(idx, x ssa.Value, b *ssa.BasicBlock, orEqual bool) bool {
	if k, ok := constInt(idx); ok {
		if orEqual {
			k--
		}
		return minLen(x, b) > k
	}
	if lenOf(idx) == x && orEqual {
		return true
	}
	if _, n, ok := foundIn(idx, x); ok && (orEqual || n > 0) {
		return true
	}
	if bo, ok := idx.(*ssa.BinOp); ok && bo.Op == token.ADD {
		if c, n, ok := foundIn(bo.X, x); ok {
			k, isC := constInt(bo.Y)
			switch {
			case isC && k == 1 && orEqual && n > 0:
				return true
			case isC && (k < n || k == n && orEqual) && notNegative(bo.X, b, map[ssa.Value]bool{}):
				return true
			case orEqual && len(c.Call.Args) > 1 && lenOf(bo.Y) == c.Call.Args[1] && notNegative(bo.X, b, map[ssa.Value]bool{}):
				return true
			}
		}
	}
	if bo, ok := idx.(*ssa.BinOp); ok && bo.Op == token.SUB && lenOf(bo.X) == x {
		if k, ok := constInt(bo.Y); ok && k >= 0 {
			return k >= 1 || orEqual
		}
	}
	for _, c := range holdsAt(b) {
		for _, d := range []constraint{c, {swapOp[c.op], c.y, c.x}} {
			if !isLenOf(d.y, x) || !(d.op == token.LSS || orEqual && d.op == token.LEQ) {
				continue
			}
			if d.x == idx || counterAtMost(idx, d.x) {
				return true
			}
		}
	}
	return countsEntries(idx, x, b)
}

// isLenOf: n is the length of x.
func isLenOf(n, x ssa.Value) bool {
	if lenOf(n) == x {
		return true
	}
	mk, ok := x.(*ssa.MakeSlice)
	if !ok {
		return false
	}
	if mk.Len == n {
		return true
	}
	l := lenOf(mk.Len)
	if l == nil || lenOf(n) != l {
		return false
	}
	_, isMap := l.Type().Underlying().(*types.Map)
	return !isMap
}

// grows gives how much v can exceed the header phi p within one round, or -1.
func grows(v ssa.Value, p *ssa.Phi, seen map[ssa.Value]bool) int64 {
	if v == p {
		return 0
	}
	if seen[v] {
		return -1
	}
	seen[v] = true
	defer delete(seen, v)
	switch v := v.(type) {
	case *ssa.BinOp:
		k, ok := constInt(v.Y)
		if v.Op != token.ADD || !ok || k < 0 {
			return -1
		}
		if g := grows(v.X, p, seen); g >= 0 {
			return g + k
		}
	case *ssa.Phi:
		m := int64(0)
		for _, e := range v.Edges {
			g := grows(e, p, seen)
			if g < 0 {
				return -1
			}
			m = max(m, g)
		}
		return m
	}
	return -1
}

// counterStart: p is a counter of the loop p's block heads: it starts at the
// constant given and grows by at most one in every round.
func counterStart(p *ssa.Phi) (int64, bool) {
	start, init := int64(0), false
	for i, e := range p.Edges {
		if p.Block().Dominates(p.Block().Preds[i]) {
			if g := grows(e, p, map[ssa.Value]bool{}); g < 0 || g > 1 {
				return 0, false
			}
			continue
		}
		k, ok := constInt(e)
		if !ok || init && k != start {
			return 0, false
		}
		start, init = k, true
	}
	return start, init
}

// roundsOver: n counts rounds of a loop over the elements of x.
func roundsOver(n, x ssa.Value) bool {
	p, ok := n.(*ssa.Phi)
	if !ok {
		return false
	}
	instrs := p.Block().Instrs
	iff, ok := instrs[len(instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	bo, ok := iff.Cond.(*ssa.BinOp)
	return ok && bo.Op == token.LSS && isLenOf(bo.Y, x) && counterAtMost(n, bo.X)
}

// counterAtMost: n counts rounds of the loop that i numbers, so n <= i.
func counterAtMost(n, i ssa.Value) bool {
	np, ok := n.(*ssa.Phi)
	if !ok {
		return false
	}
	off := int64(0)
	ip, ok := i.(*ssa.Phi)
	if !ok {
		bo, isOp := i.(*ssa.BinOp)
		if !isOp || bo.Op != token.ADD {
			return false
		}
		if off, ok = constInt(bo.Y); !ok {
			return false
		}
		if ip, ok = bo.X.(*ssa.Phi); !ok {
			return false
		}
	}
	if ip.Block() != np.Block() {
		return false
	}
	n0, ok := counterStart(np)
	if !ok {
		return false
	}
	// i grows by exactly one
	for k, e := range ip.Edges {
		if !ip.Block().Dominates(ip.Block().Preds[k]) {
			if i0, ok := constInt(e); !ok || n0 > i0+off {
				return false
			}
			continue
		}
		bo, ok := e.(*ssa.BinOp)
		if !ok || bo.Op != token.ADD || bo.X != ip {
			return false
		}
		if c, ok := constInt(bo.Y); !ok || c != 1 {
			return false
		}
	}
	return true
}

// countsEntries: idx counts the entries of a map that is only read, and x has
// room for all of them.
func countsEntries(idx, x ssa.Value, b *ssa.BasicBlock) bool {
	mk, ok := x.(*ssa.MakeSlice)
	p, ok2 := idx.(*ssa.Phi)
	if !ok || !ok2 {
		return false
	}
	m := lenOf(mk.Len)
	if m == nil {
		return false
	}
	if _, ok := m.Type().Underlying().(*types.Map); !ok || m.Referrers() == nil {
		return false
	}
	for _, r := range *m.Referrers() {
		switch r := r.(type) {
		case *ssa.Range, *ssa.Lookup, *ssa.DebugRef:
		case *ssa.MapUpdate:
			// filled before the room is made
			if !r.Block().Dominates(mk.Block()) && reaches(mk.Block(), r.Block()) || r.Block() == mk.Block() {
				return false
			}
		case *ssa.Call:
			if _, ok := r.Call.Value.(*ssa.Builtin); !ok || lenOf(r) != m {
				return false
			}
		default:
			return false
		}
	}
	if k, ok := counterStart(p); !ok || k > 0 {
		return false
	}
	// the loop's header asks for the next entry, and there was one
	for _, c := range holdsNext(b) {
		if c.Block() == p.Block() && c.Iter.(*ssa.Range).X == m {
			return true
		}
	}
	return false
}

func reaches(a, b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	q := []*ssa.BasicBlock{a}
	for len(q) > 0 {
		x := q[0]
		q = q[1:]
		for _, s := range x.Succs {
			if s == b {
				return true
			}
			if !seen[s] {
				seen[s] = true
				q = append(q, s)
			}
		}
	}
	return false
}

// holdsNext lists the map iterations that have given an entry on every path to b.
func holdsNext(b *ssa.BasicBlock) []*ssa.Next {
	var out []*ssa.Next
	for d := b; d != nil; d = d.Idom() {
		p := d.Idom()
		if p == nil || len(p.Instrs) == 0 {
			continue
		}
		iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok || p.Succs[0] != d || len(d.Preds) != 1 {
			continue
		}
		if e, ok := iff.Cond.(*ssa.Extract); ok && e.Index == 0 {
			if n, ok := e.Tuple.(*ssa.Next); ok && !n.IsString {
				if _, ok := n.Iter.(*ssa.Range); ok {
					out = append(out, n)
				}
			}
		}
	}
	return out
}

// inBounds reports that the index expressions at pos in fn cannot be out of range.
func inBounds(fn *ssa.Function, pos token.Pos) bool {
	if fn == nil {
		return false
	}
	found := false
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if ins.Pos() != pos {
				continue
			}
			var x, idx ssa.Value
			switch t := ins.(type) {
			case *ssa.IndexAddr:
				x, idx = t.X, t.Index
			case *ssa.Index:
				x, idx = t.X, t.Index
			case *ssa.Lookup:
				x, idx = t.X, t.Index
			case *ssa.Slice:
				lo, hi := t.Low, t.High
				found = true
				ok := true
				if lo != nil {
					ok = ok && (notNegative(lo, b, map[ssa.Value]bool{}) || lenMinusOK(lo, t.X, b))
					if hi == nil {
						ok = ok && below(lo, t.X, b, true)
					}
				}
				if hi != nil {
					ok = ok && below(hi, t.X, b, true)
					if lo == nil {
						ok = ok && (notNegative(hi, b, map[ssa.Value]bool{}) || lenMinusOK(hi, t.X, b))
					} else {
						k, c1 := constInt(lo)
						h, c2 := constInt(hi)
						if !(c1 && k == 0 && (notNegative(hi, b, map[ssa.Value]bool{}) || lenMinusOK(hi, t.X, b)) || c1 && c2 && k <= h) {
							ok = false
						}
					}
				}
				if !ok {
					return false
				}
				continue
			default:
				continue
			}
			found = true
			if !below(idx, x, b, false) || !(notNegative(idx, b, map[ssa.Value]bool{}) || lenMinusOK(idx, x, b)) {
				return false
			}
		}
	}
	return found
}

// lenMinusOK: v is len(x)-k and len(x) >= k holds.
func lenMinusOK(v, x ssa.Value, b *ssa.BasicBlock) bool {
	bo, ok := v.(*ssa.BinOp)
	if !ok || bo.Op != token.SUB || lenOf(bo.X) != x {
		return false
	}
	k, ok := constInt(bo.Y)
	return ok && minLen(x, b) >= k
}
