package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- equality and ordering

func (in *Interp) attrOf(t *Term) Attr {
	if t.K == KOp && (t.Op == "jobj" || t.Op == "jarr") {
		return Attr{NonEmpty: true, Trimmed: true, Lacks: []string{"\n"}}
	}
	if t.K == KOp && len(t.Args) == 1 && (t.Op == "strings.ToLower" || t.Op == "strings.ToUpper") {
		// a text that is no special word is none in another case either
		a := in.attrOf(t.Args[0])
		a.Distinct = false
		return a
	}
	if in.attr != nil && (t.K == KLabel || t.K == KOp) {
		return in.attr(t)
	}
	return Attr{}
}

// nonNilOp: opaque operations that never yield nil.
func nonNilOp(t *Term) bool {
	return t.K == KOp && (strings.HasPrefix(t.Op, "err!") || strings.HasPrefix(t.Op, "nn!"))
}

func isErrType(t types.Type) bool {
	return t != nil && types.Identical(t, types.Universe.Lookup("error").Type())
}

func (in *Interp) eq(st *State, a, b *Term) *Term {
	ts := in.ts
	if a.K == KChoice || b.K == KChoice {
		var out []*Term
		for _, x := range alts(a) {
			for _, y := range alts(b) {
				out = append(out, in.eq(st, x, y))
			}
		}
		return ts.Choice(out...)
	}
	if a.ID == b.ID && !a.Imprec {
		if (a.K == KAddr && st != nil && st.sum[a.Obj]) || (a.K == KAddr && hasNeg(a.Path)) {
			return ts.Top(types.Typ[types.Bool])
		}
		return ts.Bool(true)
	}
	if a.K == KConst && b.K == KConst {
		if a.C.Kind() == constant.Bool || a.C.Kind() == constant.String {
			if a.C.Kind() != b.C.Kind() {
				return ts.Bool(false)
			}
		}
		return ts.Bool(constant.Compare(a.C, token.EQL, b.C))
	}
	if isRtype(a) && isRtype(b) {
		return ts.Bool(types.Identical(a.T, b.T))
	}
	if differentErrs(a, b) {
		return ts.Bool(false)
	}
	// nil first
	if b.K == KNil || a.K == KNil {
		x := a
		if a.K == KNil {
			x = b
		}
		switch x.K {
		case KNil:
			return ts.Bool(true)
		case KAddr, KClosure, KIface, KSlice, KConst, KStruct, KMapVal, KCat:
			return ts.Bool(false)
		case KTop:
			if x.Op == "nn" {
				return ts.Bool(false)
			}
			return ts.Top(types.Typ[types.Bool], x)
		}
		if nonNilOp(x) {
			return ts.Bool(false)
		}
		// a non-empty slice is not nil
		if at := in.attrOf(x); at.NonEmpty || at.Generic {
			return ts.Bool(false)
		}
		return in.eqOp(st, x, ts.Nil())
	}
	if a.isInt() && a.int() == 0 && in.attrOf(b).NonEmpty || b.isInt() && b.int() == 0 && in.attrOf(a).NonEmpty {
		return ts.Bool(false)
	}
	if a.K == KIface && b.K == KIface {
		if in.ts.typeKey(a.T) != in.ts.typeKey(b.T) {
			return ts.Bool(false)
		}
		return in.eq(st, a.Args[0], b.Args[0])
	}
	if a.K == KTop || b.K == KTop {
		return ts.Top(types.Typ[types.Bool], a, b)
	}
	if r := in.byteEq(st, a, b); r != nil {
		return r
	}
	if a.K == KIface && nonNilOp(b) || b.K == KIface && nonNilOp(a) {
		return ts.Bool(false)
	}
	if a.K == KAddr && b.K == KAddr {
		if a.Obj != b.Obj && (in.noAlias || !in.objs[a.Obj].Input || !in.objs[b.Obj].Input) {
			return ts.Bool(false)
		}
		if a.Obj == b.Obj && !hasNeg(a.Path) && !hasNeg(b.Path) && !(st != nil && st.sum[a.Obj]) {
			return ts.Bool(fmt.Sprint(a.Path) == fmt.Sprint(b.Path))
		}
		return ts.Top(types.Typ[types.Bool])
	}
	if a.K == KAddr && !in.objs[a.Obj].Input && (b.K == KLabel || b.K == KOp) || b.K == KAddr && !in.objs[b.Obj].Input && (a.K == KLabel || a.K == KOp) {
		return ts.Bool(false)
	}
	if a.K == KStruct && b.K == KStruct && len(a.Args) == len(b.Args) {
		var unk []*Term
		for i := range a.Args {
			e := in.eq(st, a.Args[i], b.Args[i])
			if e.isBool() {
				if !constBool(e) {
					return e
				}
				continue
			}
			unk = append(unk, e)
		}
		if len(unk) == 0 {
			return ts.Bool(true)
		}
		if len(unk) == 1 {
			return unk[0]
		}
		return in.resolve(st, in.op("and", types.Typ[types.Bool], unk...), nil)
	}
	if a.K == KStruct && isOpaque(b) {
		if e := in.expand(b, a.T); e != nil {
			return in.eq(st, a, e)
		}
	}
	if b.K == KStruct && isOpaque(a) {
		if e := in.expand(a, b.T); e != nil {
			return in.eq(st, e, b)
		}
	}
	if r := in.strEq(a, b); r != nil {
		return r
	}
	// integers with known ranges
	if st != nil && (a.isInt() || b.isInt()) {
		la, ha := in.rng(st, a)
		lb, hb := in.rng(st, b)
		if ha < lb || hb < la {
			return ts.Bool(false)
		}
		if la == ha && lb == hb && la == lb {
			return ts.Bool(true)
		}
	}
	return in.eqOp(st, a, b)
}

// byteEq: the first or last byte of a string is a given character exactly when
// the string begins or ends with it.
func (in *Interp) byteEq(st *State, a, b *Term) *Term {
	if b.K == KOp && b.Op == "at" {
		a, b = b, a
	}
	if a.K != KOp || a.Op != "at" || !b.isInt() || b.int() < 0 || b.int() >= 0x80 {
		return nil
	}
	x, idx, c := a.Args[0], a.Args[1], string(rune(b.int()))
	name, h := "", (*bool)(nil)
	switch {
	case idx.isInt() && idx.int() == 0:
		name, h = "strings.HasPrefix", in.hasPrefixT(x, c)
	case idx == in.addConst(in.length(st, x), -1), idx == in.binop(st, token.SUB, in.length(st, x), in.ts.Int(1), types.Typ[types.Int], types.Typ[types.Int]):
		name, h = "strings.HasSuffix", in.hasSuffixT(x, c)
	default:
		return nil
	}
	if h != nil {
		return in.ts.Bool(*h)
	}
	r := in.sop(name, types.Typ[types.Bool], x, in.ts.Str(c))
	if st == nil {
		return r
	}
	return in.knownBool(st, r)
}

func (in *Interp) eqOp(st *State, a, b *Term) *Term {
	// canonical order: opaque first, constant/nil second
	if a.K == KConst || a.K == KNil || (b.K != KConst && b.K != KNil && a.ID > b.ID) {
		a, b = b, a
	}
	r := in.op("==", types.Typ[types.Bool], a, b)
	if st == nil || r.Imprec {
		return r
	}
	if v, ok := st.known.get2(r.ID); ok {
		return v
	}
	// x == c1 already decided through another constant is handled by
	// substitution in assume; x != "" implied by len facts:
	if b.isStr() && b.str() == "" {
		l := in.ts.intern(&Term{K: KOp, Op: "len", Args: []*Term{a}, T: types.Typ[types.Int]})
		lo, hi := in.rng(st, l)
		if lo > 0 {
			return in.ts.Bool(false)
		}
		if hi == 0 {
			return in.ts.Bool(true)
		}
	}
	return r
}

// pieces of a string term
func pieces(t *Term) []*Term {
	if t.K == KCat {
		return t.Args
	}
	return []*Term{t}
}

// strEq decides equality of string templates, or returns nil.
func (in *Interp) strEq(a, b *Term) *Term {
	isS := func(t *Term) bool {
		return t.isStr() || t.K == KCat || (t.T != nil && isStringType(t.T))
	}
	if !isS(a) || !isS(b) {
		return nil
	}
	pa, pb := in.revealed(pieces(a)), in.revealed(pieces(b))
	// strip common prefix
	for len(pa) > 0 && len(pb) > 0 {
		x, y := pa[0], pb[0]
		if x.ID == y.ID && !x.Imprec {
			pa, pb = pa[1:], pb[1:]
			continue
		}
		if x.isStr() && y.isStr() {
			s, u := x.str(), y.str()
			n := min(len(s), len(u))
			if s[:n] != u[:n] {
				return in.ts.Bool(false)
			}
			pa, pb = pa[1:], pb[1:]
			if len(s) > n {
				pa = append([]*Term{in.ts.Str(s[n:])}, pa...)
			}
			if len(u) > n {
				pb = append([]*Term{in.ts.Str(u[n:])}, pb...)
			}
			continue
		}
		break
	}
	for len(pa) > 0 && len(pb) > 0 {
		x, y := pa[len(pa)-1], pb[len(pb)-1]
		if x.ID == y.ID && !x.Imprec {
			pa, pb = pa[:len(pa)-1], pb[:len(pb)-1]
			continue
		}
		if x.isStr() && y.isStr() {
			s, u := x.str(), y.str()
			n := min(len(s), len(u))
			if s[len(s)-n:] != u[len(u)-n:] {
				return in.ts.Bool(false)
			}
			pa, pb = pa[:len(pa)-1], pb[:len(pb)-1]
			if len(s) > n {
				pa = append(append([]*Term(nil), pa...), in.ts.Str(s[:len(s)-n]))
			}
			if len(u) > n {
				pb = append(append([]*Term(nil), pb...), in.ts.Str(u[:len(u)-n]))
			}
			continue
		}
		break
	}
	if len(pa) == 0 && len(pb) == 0 {
		return in.ts.Bool(true)
	}
	nonEmpty := func(ps []*Term) bool {
		for _, p := range ps {
			if p.isStr() && p.str() != "" {
				return true
			}
			if at := in.attrOf(p); at.Generic || at.NonEmpty || at.MultiLine || len(at.Has) > 0 {
				return true
			}
		}
		return false
	}
	if len(pa) == 0 && nonEmpty(pb) || len(pb) == 0 && nonEmpty(pa) {
		return in.ts.Bool(false)
	}
	// a generic token contributes text no constant contains
	onlyConst := func(ps []*Term) bool {
		for _, p := range ps {
			if !p.isStr() {
				return false
			}
		}
		return true
	}
	hasGeneric := func(ps []*Term) bool {
		for _, p := range ps {
			if at := in.attrOf(p); at.Generic {
				return true
			}
		}
		return false
	}
	if onlyConst(pa) && hasGeneric(pb) || onlyConst(pb) && hasGeneric(pa) {
		in.askEq(pa, pb)
		in.askEq(pb, pa)
		return in.ts.Bool(false)
	}
	// a token against a constant holding something the token lacks
	for _, q := range [][2][]*Term{{pa, pb}, {pb, pa}} {
		if len(q[0]) == 1 && len(q[1]) == 1 && q[1][0].isStr() {
			for _, l := range in.attrOf(q[0][0]).Lacks {
				if strings.Contains(q[1][0].str(), l) {
					return in.ts.Bool(false)
				}
			}
		}
	}
	// two distinct generic tokens facing each other
	if len(pa) == 1 && len(pb) == 1 {
		x, y := in.attrOf(pa[0]), in.attrOf(pb[0])
		if x.Generic && y.Generic && x.Distinct && y.Distinct && pa[0].ID != pb[0].ID {
			in.askSame(pa[0], pb[0])
			return in.ts.Bool(false)
		}
	}
	// allow a whole-template comparison where every differing piece is a distinct generic
	if len(pa) == len(pb) && len(pa) > 1 {
		okAll := true
		var differ []int
		for i := range pa {
			if pa[i].ID == pb[i].ID {
				continue
			}
			x, y := in.attrOf(pa[i]), in.attrOf(pb[i])
			if !(x.Generic && y.Generic && x.Distinct && y.Distinct) {
				okAll = false
			}
			differ = append(differ, i)
		}
		if okAll {
			if len(differ) == 1 {
				in.askSame(pa[differ[0]], pb[differ[0]])
			}
			return in.ts.Bool(false)
		}
	}
	if x := pieceGeneric(in, pa); x && len(pa) != len(pb) {
		if y := pieceGeneric(in, pb); y {
			return in.ts.Bool(false)
		}
	}
	return nil
}

// pieceGeneric: the template consists of constants and distinct generic tokens only.
func pieceGeneric(in *Interp, ps []*Term) bool {
	for _, p := range ps {
		if p.isStr() {
			continue
		}
		at := in.attrOf(p)
		if !(at.Generic && at.Distinct) {
			return false
		}
	}
	return true
}

func (in *Interp) not(x *Term) *Term {
	return in.dist(x, func(x *Term) *Term {
		if x.isBool() {
			return in.ts.Bool(!constBool(x))
		}
		if x.K == KOp && x.Op == "!" {
			return x.Args[0]
		}
		if x.K == KTop {
			return x
		}
		return in.ts.intern(&Term{K: KOp, Op: "!", Args: []*Term{x}, T: types.Typ[types.Bool]})
	})
}

// known value of a boolean op, through negation
func (in *Interp) knownBool(st *State, t *Term) *Term {
	if t.K == KOp && t.Op == "!" {
		return in.not(in.knownBool(st, t.Args[0]))
	}
	if st != nil {
		if v, ok := st.known.get2(t.ID); ok {
			return v
		}
	}
	return t
}

func isBoolType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func isIntType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func (in *Interp) lt(st *State, a, b *Term) *Term {
	ts := in.ts
	if a.K == KChoice || b.K == KChoice {
		var out []*Term
		for _, x := range alts(a) {
			for _, y := range alts(b) {
				out = append(out, in.lt(st, x, y))
			}
		}
		return ts.Choice(out...)
	}
	if a.K == KConst && b.K == KConst {
		return ts.Bool(constant.Compare(a.C, token.LSS, b.C))
	}
	if a.ID == b.ID && !a.Imprec {
		return ts.Bool(false)
	}
	if in.rank != nil {
		if r, ok := in.rankLess(a, b); ok {
			return ts.Bool(r)
		}
	}
	if st != nil {
		la, ha := in.rng(st, a)
		lb, hb := in.rng(st, b)
		if ha < lb {
			return ts.Bool(true)
		}
		if la >= hb {
			return ts.Bool(false)
		}
	}
	r := ts.intern(&Term{K: KOp, Op: "<", Args: []*Term{a, b}, T: types.Typ[types.Bool]})
	if r.Imprec && !topIdx(a) {
		return ts.Top(types.Typ[types.Bool], a, b)
	}
	return in.knownBool(st, r)
}

func topIdx(t *Term) bool { return t.K == KTop && (strings.HasPrefix(t.Op, "ge")) }

const (
	negInf = int64(-1) << 60
	posInf = int64(1) << 60
)

func satAdd(a, b int64) int64 {
	if a <= negInf || b <= negInf {
		return negInf
	}
	if a >= posInf || b >= posInf {
		return posInf
	}
	return a + b
}

// ge<lo>[<bound]: an integer register widened upwards.
func parseGe(op string) (lo int64, bound int, ok bool) {
	if !strings.HasPrefix(op, "ge") {
		return 0, 0, false
	}
	s := op[2:]
	if i := strings.IndexByte(s, '<'); i >= 0 {
		bound, _ = strconv.Atoi(s[i+1:])
		s = s[:i]
	}
	lo, err := strconv.ParseInt(s, 10, 64)
	return lo, bound, err == nil
}

// rng bounds an integer term using the facts on the path.
func (in *Interp) rng(st *State, t *Term) (int64, int64) {
	return in.rngD(st, t, 0)
}

func (in *Interp) rngD(st *State, t *Term, d int) (int64, int64) {
	lo, hi := negInf, posInf
	if d > 6 {
		return lo, hi
	}
	switch t.K {
	case KConst:
		if t.isInt() {
			n, exact := constant.Int64Val(t.C)
			if exact {
				return n, n
			}
		}
		return lo, hi
	case KChoice:
		lo, hi = posInf, negInf
		for _, a := range t.Args {
			l, h := in.rngD(st, a, d+1)
			lo, hi = min(lo, l), max(hi, h)
		}
		return lo, hi
	case KTop:
		if l, b, ok := parseGe(t.Op); ok {
			lo = l
			if b > 0 {
				_, h := in.rngD(st, in.ts.list[b-1], d+1)
				hi = satAdd(h, -1)
			}
		}
		return lo, hi
	case KOp:
		switch t.Op {
		case "pos": // of a piece of a text
			lo = t.Args[2].int()
			for _, p := range pieces(t.Args[0])[:t.Args[1].int()] {
				if p.isStr() {
					lo += int64(len(p.str()))
				} else if at := in.attrOf(p); at.NonEmpty {
					lo++
				}
			}
		case "len":
			lo = 0
			x := t.Args[0]
			at := in.attrOf(x)
			if at.Generic || at.NonEmpty || at.MultiLine || len(at.Has) > 0 {
				lo = 1
			}
			if x.K == KCat {
				for _, p := range x.Args {
					if p.isStr() {
						lo = satAdd(lo, int64(len(p.str())))
					}
				}
			}
			if x.K == KOp {
				switch x.Op {
				case "strings.SplitN", "strings.Split":
					lo = max(lo, 1)
					if x.Op == "strings.SplitN" && x.Args[2].isInt() && x.Args[2].int() > 0 {
						hi = x.Args[2].int()
					}
					// a known Contains(s, sep) gives two parts
					c := in.ts.intern(&Term{K: KOp, Op: "strings.Contains", Args: []*Term{x.Args[0], x.Args[1]}, T: types.Typ[types.Bool]})
					if v, ok := st.known.get2(c.ID); ok && v.isBool() {
						if constBool(v) && (x.Op == "strings.Split" || hi >= 2) {
							lo = max(lo, 2)
						} else if !constBool(v) {
							hi = 1
						}
					}
				case "slice":
					// x[a:b]
					if len(x.Args) == 3 {
						l1, _ := in.rngD(st, x.Args[2], d+1)
						_, h0 := in.rngD(st, x.Args[1], d+1)
						if l1 > negInf && h0 < posInf {
							lo = max(lo, l1-h0)
						}
					}
				}
			}
			// known prefix/suffix facts
			for id, v := range st.known.all() {
				if !v.isBool() {
					continue
				}
				f := in.ts.list[id-1]
				if f.K == KOp && len(f.Args) == 2 && f.Args[0] == x {
					switch f.Op {
					case "strings.HasPrefix", "strings.HasSuffix", "strings.Contains":
						if constBool(v) && f.Args[1].isStr() {
							lo = max(lo, int64(len(f.Args[1].str())))
						}
					case "==":
						if !constBool(v) && f.Args[1].isStr() && f.Args[1].str() == "" {
							lo = max(lo, 1)
						}
						// a slice that is not nil may still be empty: nothing
					}
				}
			}
		case "strings.Index", "strings.LastIndex", "strings.IndexByte", "strings.IndexRune", "strings.IndexAny":
			lo = -1
			_, h := in.rngD(st, in.ts.intern(&Term{K: KOp, Op: "len", Args: []*Term{t.Args[0]}, T: types.Typ[types.Int]}), d+1)
			hi = satAdd(h, -1)
			if t.Op == "strings.Index" || t.Op == "strings.LastIndex" {
				hi = h
			}
			c := in.ts.intern(&Term{K: KOp, Op: "strings.Contains", Args: []*Term{t.Args[0], t.Args[1]}, T: types.Typ[types.Bool]})
			if v, ok := st.known.get2(c.ID); ok && constBool(v) {
				lo = max(lo, 0)
			}
		case "+":
			la, ha := in.rngD(st, t.Args[0], d+1)
			lb, hb := in.rngD(st, t.Args[1], d+1)
			lo, hi = satAdd(la, lb), satAdd(ha, hb)
		case "-":
			la, ha := in.rngD(st, t.Args[0], d+1)
			lb, hb := in.rngD(st, t.Args[1], d+1)
			lo, hi = satAdd(la, -hb), satAdd(ha, -lb)
		}
	default:
		return lo, hi
	}
	// facts about the term itself
	if !t.Imprec {
		for id, v := range st.known.all() {
			if !v.isBool() {
				continue
			}
			f := in.ts.list[id-1]
			if f.K != KOp || len(f.Args) != 2 {
				continue
			}
			switch f.Op {
			case "<":
				if f.Args[0] == t && f.Args[1].isInt() {
					c := f.Args[1].int()
					if constBool(v) {
						hi = min(hi, c-1)
					} else {
						lo = max(lo, c)
					}
				}
				if f.Args[1] == t && f.Args[0].isInt() {
					c := f.Args[0].int()
					if constBool(v) {
						lo = max(lo, c+1)
					} else {
						hi = min(hi, c)
					}
				}
			case "==":
				if f.Args[0] == t && f.Args[1].isInt() && !constBool(v) {
					c := f.Args[1].int()
					if c == lo {
						lo++
					}
					if c == hi {
						hi--
					}
				}
			}
		}
	}
	return lo, hi
}

// linear normal form base+off of an integer term
func linear(t *Term) (*Term, int64) {
	off := int64(0)
	for t.K == KOp && (t.Op == "+" || t.Op == "-") {
		if t.Args[1].isInt() {
			if t.Op == "+" {
				off += t.Args[1].int()
			} else {
				off -= t.Args[1].int()
			}
			t = t.Args[0]
			continue
		}
		if t.Op == "+" && t.Args[0].isInt() {
			off += t.Args[0].int()
			t = t.Args[1]
			continue
		}
		break
	}
	return t, off
}

// leq: a <= b on this path.
func (in *Interp) leq(st *State, a, b *Term) bool {
	if a.K == KChoice || b.K == KChoice {
		for _, x := range alts(a) {
			for _, y := range alts(b) {
				if !in.leq(st, x, y) {
					return false
				}
			}
		}
		return true
	}
	_, ha := in.rng(st, a)
	lb, _ := in.rng(st, b)
	if ha <= lb {
		return true
	}
	ba, oa := linear(a)
	bb, ob := linear(b)
	if ba == bb && !ba.Imprec && oa <= ob {
		return true
	}
	if ba.K == KTop {
		if _, bound, ok := parseGe(ba.Op); ok && bound == bb.ID && oa <= ob+1 { // ba <= bb-1
			return true
		}
	}
	// ba < bb known
	lt := in.ts.intern(&Term{K: KOp, Op: "<", Args: []*Term{ba, bb}, T: types.Typ[types.Bool]})
	if v, ok := st.known.get2(lt.ID); ok && constBool(v) && oa <= ob+1 {
		return true
	}
	gt := in.ts.intern(&Term{K: KOp, Op: "<", Args: []*Term{bb, ba}, T: types.Typ[types.Bool]})
	if v, ok := st.known.get2(gt.ID); ok && v.isBool() && !constBool(v) && oa <= ob {
		return true
	}
	// index results: Index(s, sep) + len(sep) <= len(s)
	if ba.K == KOp && (ba.Op == "strings.Index" || ba.Op == "strings.LastIndex") && bb.K == KOp && bb.Op == "len" && bb.Args[0] == ba.Args[0] && ba.Args[1].isStr() {
		l, _ := in.rng(st, ba)
		if l >= 0 && oa <= ob+int64(len(ba.Args[1].str())) {
			return true
		}
		if oa <= ob && l >= -1 && oa <= 0 {
			return true
		}
		// -1+1 = 0 <= len
		if oa <= 1 && ob >= 0 && oa <= ob+int64(len(ba.Args[1].str())) {
			return true
		}
	}
	return false
}

// idxOK: 0 <= idx < n on this path.
func (in *Interp) idxOK(st *State, idx, n *Term) bool {
	for _, x := range alts(idx) {
		lo, _ := in.rng(st, x)
		if lo < 0 {
			return false
		}
		if !in.leq(st, in.addConst(x, 1), n) {
			return false
		}
	}
	return true
}

func (in *Interp) addConst(x *Term, c int64) *Term {
	if x.isInt() {
		return in.ts.Int(x.int() + c)
	}
	if x.K == KTop {
		if lo, b, ok := parseGe(x.Op); ok && b == 0 {
			return in.ts.intern(&Term{K: KTop, Op: fmt.Sprintf("ge%d", lo+c), T: x.T, Args: x.Args})
		}
	}
	return in.ts.intern(&Term{K: KOp, Op: "+", Args: []*Term{x, in.ts.Int(c)}, T: types.Typ[types.Int]})
}

func (in *Interp) binop(st *State, op token.Token, x, y *Term, xt, rt types.Type) *Term {
	ts := in.ts
	switch op {
	case token.EQL:
		return in.eq(st, x, y)
	case token.NEQ:
		return in.not(in.eq(st, x, y))
	case token.LSS:
		return in.lt(st, x, y)
	case token.GTR:
		return in.lt(st, y, x)
	case token.LEQ:
		return in.not(in.lt(st, y, x))
	case token.GEQ:
		return in.not(in.lt(st, x, y))
	}
	if x.K == KChoice || y.K == KChoice {
		if len(alts(x))*len(alts(y)) <= 64 {
			var out []*Term
			for _, a := range alts(x) {
				for _, b := range alts(y) {
					out = append(out, in.binop(st, op, a, b, xt, rt))
				}
			}
			if isStringType(rt) {
				return in.joinStrs(out)
			}
			return ts.Choice(out...)
		}
		return ts.Top(rt, x, y)
	}
	if isStringType(xt) && op == token.ADD {
		if x.K == KTop || y.K == KTop {
			return ts.Cat(x, y)
		}
		return ts.Cat(x, y)
	}
	if x.K == KConst && y.K == KConst {
		switch op {
		case token.SHL, token.SHR:
			if s, ok := constant.Uint64Val(y.C); ok && s < 64 {
				return ts.Const(constant.Shift(x.C, op, uint(s)))
			}
		case token.QUO:
			if constant.Sign(y.C) == 0 {
				break
			}
			if isIntType(xt) {
				return ts.Const(constant.BinaryOp(x.C, token.QUO_ASSIGN, y.C))
			}
			return ts.Const(constant.BinaryOp(x.C, op, y.C))
		case token.REM:
			if constant.Sign(y.C) == 0 {
				break
			}
			return ts.Const(constant.BinaryOp(x.C, op, y.C))
		default:
			return ts.Const(constant.BinaryOp(x.C, op, y.C))
		}
	}
	if op == token.AND || op == token.OR {
		if b, ok := rt.Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
			if x.isBool() {
				if constBool(x) == (op == token.AND) {
					return y
				}
				return x
			}
		}
	}
	if isIntType(rt) && y.isInt() && (op == token.ADD || op == token.SUB) && x.K == KTop {
		c := y.int()
		if op == token.SUB {
			c = -c
		}
		if lo, _, ok := parseGe(x.Op); ok {
			return ts.intern(&Term{K: KTop, Op: fmt.Sprintf("ge%d", lo+c), T: x.T, Args: x.Args})
		}
	}
	if isIntType(rt) && (op == token.ADD || op == token.SUB) && y.isInt() && !x.Imprec {
		b, o := linear(x)
		c := y.int()
		if op == token.SUB {
			c = -c
		}
		o += c
		if o == 0 {
			return b
		}
		return ts.intern(&Term{K: KOp, Op: "+", Args: []*Term{b, ts.Int(o)}, T: rt})
	}
	if x.K == KTop || y.K == KTop {
		return ts.Top(rt, x, y)
	}
	return in.op(op.String(), rt, x, y)
}

// joinStrs merges string alternatives, factoring a common leading text.
func (in *Interp) joinStrs(l []*Term) *Term {
	r := l[0]
	for _, x := range l[1:] {
		r = in.joinText(r, x)
	}
	return r
}

// joinText: least upper bound of two string terms, keeping the shared leading
// and trailing pieces outside the choice when the shared part spans a line.
func (in *Interp) joinText(a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.K == KTop || b.K == KTop || a.K == KChoice || b.K == KChoice {
		return in.ts.Choice(a, b)
	}
	pa, pb := append([]*Term(nil), pieces(a)...), append([]*Term(nil), pieces(b)...)
	var pre []*Term
	for len(pa) > 0 && len(pb) > 0 {
		if pa[0] == pb[0] {
			pre = append(pre, pa[0])
			pa, pb = pa[1:], pb[1:]
			continue
		}
		if pa[0].isStr() && pb[0].isStr() {
			s, u := pa[0].str(), pb[0].str()
			n := 0
			for n < len(s) && n < len(u) && s[n] == u[n] {
				n++
			}
			// cut back to a line boundary or to the whole shorter piece
			if n < len(s) && n < len(u) {
				n = strings.LastIndexByte(s[:n], '\n') + 1
			} else if n == min(len(s), len(u)) {
				// whole piece shared: fine
			}
			if n > 0 {
				pre = append(pre, in.ts.Str(s[:n]))
				if s[n:] == "" {
					pa = pa[1:]
				} else {
					pa[0] = in.ts.Str(s[n:])
				}
				if u[n:] == "" {
					pb = pb[1:]
				} else {
					pb[0] = in.ts.Str(u[n:])
				}
			}
		}
		break
	}
	shared := false
	for _, p := range pre {
		if p.isStr() && strings.Contains(p.str(), "\n") || p.K == KChoice || p.K == KOp {
			shared = true
		}
	}
	if !shared {
		return in.ts.Choice(a, b)
	}
	pre = append(pre, in.ts.Choice(in.ts.Cat(pa...), in.ts.Cat(pb...)))
	return in.ts.Cat(pre...)
}

func (in *Interp) convert(x *Term, from, to types.Type, st *State) *Term {
	ts := in.ts
	return in.dist(x, func(x *Term) *Term {
		fs, tsx := isStringType(from), isStringType(to)
		if x.K == KTop {
			return ts.Top(to, x)
		}
		switch {
		case fs && tsx:
			return x
		case fs && !tsx: // string -> []byte / []rune
			if e := elemType(to); e != nil {
				if b, ok := e.Underlying().(*types.Basic); ok && (b.Kind() == types.Byte || b.Kind() == types.Uint8) {
					if x.K == KOp && x.Op == "nn!string" {
						return x.Args[0]
					}
					return in.mkBytes(x)
				}
				return ts.intern(&Term{K: KOp, Op: "nn!runes", Args: []*Term{x}, T: to})
			}
		case !fs && tsx: // []byte/[]rune/rune -> string
			if isIntType(from) {
				if x.isInt() {
					return ts.Str(string(rune(x.int())))
				}
				return in.op("runestr", to, x)
			}
			return in.bytesText(st, x)
		}
		if isIntType(from) && isIntType(to) {
			return x
		}
		if _, ok := to.Underlying().(*types.Basic); ok {
			if isIntType(to) != isIntType(from) {
				return in.op("conv:"+to.String(), to, x)
			}
		}
		return x
	})
}

// byte slices that carry a known text
func (in *Interp) mkBytes(text *Term) *Term {
	return in.ts.intern(&Term{K: KOp, Op: "nn!bytes", Args: []*Term{text}, T: types.NewSlice(types.Typ[types.Byte])})
}

// bytesText: the text of a byte slice term.
func (in *Interp) bytesText(st *State, x *Term) *Term {
	return in.dist(x, func(x *Term) *Term {
		switch {
		case x.K == KNil:
			return in.ts.Str("")
		case x.K == KOp && x.Op == "nn!bytes":
			return x.Args[0]
		case x.K == KTop:
			return in.ts.Top(types.Typ[types.String], x)
		case x.K == KSlice && st != nil:
			es, ok := in.elems(st, x)
			if ok {
				var sb []byte
				all := true
				for _, e := range es {
					if !e.isInt() {
						all = false
						break
					}
					sb = append(sb, byte(e.int()))
				}
				if all {
					return in.ts.Str(string(sb))
				}
				if b := byteRun(es); b != nil {
					return b
				}
				// single runes/bytes of a text
				return in.ts.Top(types.Typ[types.String], es...)
			}
			return in.ts.Top(types.Typ[types.String], x)
		}
		return in.op("string", types.Typ[types.String], x)
	})
}

// ---- branch conditions

func (in *Interp) feasible(st *State, c *Term) (bool, bool) {
	t, f := false, false
	for _, a := range alts(c) {
		a = in.knownBool(st, a)
		if a.isBool() {
			if constBool(a) {
				t = true
			} else {
				f = true
			}
			continue
		}
		t, f = true, true
	}
	return t, f
}

// assume records that condition register v (term c) has value val; it reports
// whether the path remains feasible.
func (in *Interp) assume(fr *frame, ps *pstate, v ssa.Value, c *Term, val bool) bool {
	if c.isBool() {
		if constBool(c) != val {
			return false
		}
		in.refineCond(fr, ps, v, val)
		return true
	}
	if c.K == KChoice {
		in.refineCond(fr, ps, v, val)
		if _, isc := v.(*ssa.Const); !isc {
			ps.env[v] = in.ts.Bool(val)
		}
		return true
	}
	ok := in.learn(ps.st, c, val)
	if !ok {
		return false
	}
	in.refineCond(fr, ps, v, val)
	return true
}

func (in *Interp) learn(st *State, c *Term, val bool) bool {
	if c.K == KOp && c.Op == "!" {
		return in.learn(st, c.Args[0], !val)
	}
	if c.isBool() {
		return constBool(c) == val
	}
	if c.K == KOp && c.Op == "and" && val {
		for _, a := range c.Args {
			if !in.learn(st, a, true) {
				return false
			}
		}
		return true
	}
	if c.Imprec || c.K != KOp && c.K != KLabel {
		return true
	}
	if v, ok := st.known.get2(c.ID); ok && v.isBool() {
		return constBool(v) == val
	}
	st.known.set(c.ID, in.ts.Bool(val))
	if c.K == KOp && c.Op == "==" && val {
		x, y := c.Args[0], c.Args[1]
		if (y.K == KConst || y.K == KNil) && !x.Imprec && (x.K == KLabel || x.K == KOp) {
			st.known.set(x.ID, y)
			if y.isStr() {
				l := in.ts.intern(&Term{K: KOp, Op: "len", Args: []*Term{x}, T: types.Typ[types.Int]})
				st.known.set(l.ID, in.ts.Int(int64(len(y.str()))))
			}
			if y.isInt() && x.K == KOp && x.Op == "len" && y.int() == 0 && x.Args[0].T != nil && isStringType(x.Args[0].T) {
				st.known.set(x.Args[0].ID, in.ts.Str(""))
			}
		}
	}
	// len(x) < 1 on strings
	if c.K == KOp && c.Op == "<" {
		x, y := c.Args[0], c.Args[1]
		if val && y.isInt() && y.int() == 1 && x.K == KOp && x.Op == "len" {
			st.known.set(x.ID, in.ts.Int(0))
			if x.Args[0].T != nil && isStringType(x.Args[0].T) {
				st.known.set(x.Args[0].ID, in.ts.Str(""))
			}
		}
		if !val && x.isInt() && x.int() == 0 && y.K == KOp && y.Op == "len" {
			st.known.set(y.ID, in.ts.Int(0))
			if y.Args[0].T != nil && isStringType(y.Args[0].T) {
				st.known.set(y.Args[0].ID, in.ts.Str(""))
			}
		}
	}
	return true
}

// refineCond narrows registers compared by the condition.
func (in *Interp) refineCond(fr *frame, ps *pstate, v ssa.Value, val bool) {
	switch v := v.(type) {
	case *ssa.UnOp:
		if v.Op == token.NOT {
			in.refineCond(fr, ps, v.X, !val)
		}
	case *ssa.BinOp:
		if in.stale(fr, ps, v.X) || in.stale(fr, ps, v.Y) {
			return
		}
		x, y := in.get(fr, ps, v.X), in.get(fr, ps, v.Y)
		op := v.Op
		if !val {
			switch op {
			case token.EQL:
				op = token.NEQ
			case token.NEQ:
				op = token.EQL
			case token.LSS:
				op = token.GEQ
			case token.GEQ:
				op = token.LSS
			case token.GTR:
				op = token.LEQ
			case token.LEQ:
				op = token.GTR
			}
		}
		in.refineBin(fr, ps, op, v.X, x, v.Y, y)
		flip := map[token.Token]token.Token{token.EQL: token.EQL, token.NEQ: token.NEQ, token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ}
		if f, ok := flip[op]; ok {
			in.refineBin(fr, ps, f, v.Y, y, v.X, in.get(fr, ps, v.X))
		}
	}
}

func (in *Interp) stale(fr *frame, ps *pstate, v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Parameter, *ssa.FreeVar:
		return false
	}
	return ps.env[v] == nil
}

func (in *Interp) refineBin(fr *frame, ps *pstate, op token.Token, xv ssa.Value, x *Term, yv ssa.Value, y *Term) {
	if _, ok := xv.(*ssa.Const); ok {
		return
	}
	if x.K == KTop {
		switch op {
		case token.LSS:
			if lo, _, ok := parseGe(x.Op); ok && !y.Imprec {
				in.setReg(fr, ps, xv, in.ts.intern(&Term{K: KTop, Op: fmt.Sprintf("ge%d<%d", lo, y.ID), T: x.T, Args: x.Args}))
			}
		case token.NEQ:
			if y.K == KNil && x.Op != "nn" {
				in.refineReg(fr, ps, xv, in.nonNilTop(x))
			}
		case token.EQL:
			if y.K == KNil || y.K == KConst {
				in.refineReg(fr, ps, xv, y)
			}
		}
		return
	}
	if x.K != KChoice {
		return
	}
	var keep []*Term
	for _, a := range x.Args {
		var c *Term
		switch op {
		case token.EQL:
			c = in.eq(ps.st, a, y)
		case token.NEQ:
			c = in.not(in.eq(ps.st, a, y))
		case token.LSS:
			c = in.lt(ps.st, a, y)
		case token.GTR:
			c = in.lt(ps.st, y, a)
		case token.LEQ:
			c = in.not(in.lt(ps.st, y, a))
		case token.GEQ:
			c = in.not(in.lt(ps.st, a, y))
		default:
			return
		}
		if t, _ := in.feasible(ps.st, c); t {
			keep = append(keep, a)
		}
	}
	if len(keep) > 0 && len(keep) < len(x.Args) {
		in.refineReg(fr, ps, xv, in.ts.Choice(keep...))
	}
}

func (in *Interp) setReg(fr *frame, ps *pstate, v ssa.Value, t *Term) {
	switch v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function:
		return
	}
	ps.env[v] = t
}

// ---- strings

func (in *Interp) substr(st *State, x, lo, hi *Term, pos token.Pos) *Term {
	ts := in.ts
	strT := types.Typ[types.String]
	if x.K == KChoice || lo.K == KChoice || hi != nil && hi.K == KChoice {
		var out []*Term
		his := []*Term{nil}
		if hi != nil {
			his = alts(hi)
		}
		for _, a := range alts(x) {
			for _, l := range alts(lo) {
				for _, h := range his {
					out = append(out, in.substr(st, a, l, h, pos))
				}
			}
		}
		return ts.Choice(out...)
	}
	n := in.length(st, x)
	h := hi
	if h == nil {
		h = n
	}
	if hi == nil {
		if _, post, ok := in.posSplit(x, lo); ok {
			return post
		}
	} else if lo.isInt() && lo.int() == 0 {
		if pre, _, ok := in.posSplit(x, hi); ok {
			return pre
		}
	}
	llo, _ := in.rng(st, lo)
	if llo < 0 || !in.leq(st, lo, h) || !in.leq(st, h, n) {
		in.alarm("index", pos, fmt.Sprintf("slice bounds [%s:%s] of string %s may be out of range", lo, h, x))
	}
	if x.K == KTop {
		return ts.Top(strT, x)
	}
	if lo.isInt() && lo.int() == 0 && (hi == nil || hi == n) {
		return x
	}
	if x.isStr() && lo.isInt() && h.isInt() {
		s := x.str()
		if lo.int() >= 0 && lo.int() <= h.int() && h.int() <= int64(len(s)) {
			return ts.Str(s[lo.int():h.int()])
		}
		return ts.Top(strT)
	}
	// cut positions expressed relative to a piece boundary
	if r := in.cutTemplate(st, x, lo, hi); r != nil {
		return r
	}
	// x[len(c):] after HasPrefix(x,c) is TrimPrefix(x,c)
	if hi == nil && lo.isInt() {
		for id, v := range st.known.all() {
			f := ts.list[id-1]
			if f.K == KOp && f.Op == "strings.HasPrefix" && f.Args[0] == x && constBool(v) && f.Args[1].isStr() && int64(len(f.Args[1].str())) == lo.int() {
				return in.op("strings.TrimPrefix", strT, x, f.Args[1])
			}
		}
	}
	return in.op("substr", strT, x, lo, h)
}

// lenTerm of a template as base constant + opaque lens; nil if not expressible
func (in *Interp) cutTemplate(st *State, x, lo, hi *Term) *Term {
	ps := pieces(x)
	if lo.isInt() {
		k := lo.int()
		// drop k bytes of leading constants
		rest := append([]*Term(nil), ps...)
		for k > 0 && len(rest) > 0 && rest[0].isStr() {
			s := rest[0].str()
			if int64(len(s)) <= k {
				k -= int64(len(s))
				rest = rest[1:]
			} else {
				rest = append([]*Term{in.ts.Str(s[k:])}, rest[1:]...)
				k = 0
			}
		}
		if k != 0 {
			return nil
		}
		if hi == nil {
			return in.ts.Cat(rest...)
		}
		// hi = len(x) - c with constant tail
		b, off := linear(hi)
		if b.K == KOp && b.Op == "len" && b.Args[0] == x && off <= 0 {
			c := -off
			for c > 0 && len(rest) > 0 && rest[len(rest)-1].isStr() {
				s := rest[len(rest)-1].str()
				if int64(len(s)) <= c {
					c -= int64(len(s))
					rest = rest[:len(rest)-1]
				} else {
					rest = append(append([]*Term(nil), rest[:len(rest)-1]...), in.ts.Str(s[:int64(len(s))-c]))
					c = 0
				}
			}
			if c == 0 {
				return in.ts.Cat(rest...)
			}
			return nil
		}
		// hi const within the leading constant
		if hi.isInt() && ps[0].isStr() && hi.int() <= int64(len(ps[0].str())) && lo.int() <= hi.int() {
			return in.ts.Str(ps[0].str()[lo.int():hi.int()])
		}
		// hi = position term from Index over the template
		if lo.int() == 0 {
			if pre, _, ok := in.posSplit(x, hi); ok {
				return pre
			}
		}
		return nil
	}
	if hi == nil {
		if _, post, ok := in.posSplit(x, lo); ok {
			return post
		}
	}
	return nil
}

// posSplit understands positions produced by Index on templates: Op "pos"(x, k, off)
// with k whole pieces and off bytes into the next constant piece.
func (in *Interp) posSplit(x, p *Term) (pre, post *Term, ok bool) {
	b, off := linear(p)
	if b.K != KOp || b.Op != "pos" || b.Args[0] != x {
		return nil, nil, false
	}
	k, o := int(b.Args[1].int()), b.Args[2].int()+off
	ps := pieces(x)
	for k < len(ps) && ps[k].isStr() && o >= int64(len(ps[k].str())) && o > 0 {
		o -= int64(len(ps[k].str()))
		k++
	}
	if o == 0 {
		return in.ts.Cat(ps[:k]...), in.ts.Cat(ps[k:]...), true
	}
	if k < len(ps) && ps[k].isStr() && o > 0 && o < int64(len(ps[k].str())) {
		s := ps[k].str()
		return in.ts.Cat(append(append([]*Term(nil), ps[:k]...), in.ts.Str(s[:o]))...), in.ts.Cat(append([]*Term{in.ts.Str(s[o:])}, ps[k+1:]...)...), true
	}
	return nil, nil, false
}

// ---- maps

func (in *Interp) mapUpdate(st *State, m, k, v *Term, mt types.Type, pos token.Pos) {
	as := alts(m)
	for _, a := range as {
		switch a.K {
		case KAddr:
			o := in.objs[a.Obj]
			c := in.content(st, a.Obj)
			if o.Input && !in.initing {
				in.event(st, Event{Kind: "write-input", Obj: a.Obj, Aux: o.Name, Pos: pos})
			}
			weak := len(as) > 1 || st.sum[a.Obj]
			st.heap.set(a.Obj, in.mapPut(st, c, k, v, weak))
		case KNil:
			in.alarm("nil-map", pos, "assignment to entry in nil map")
		default:
			e := in.eq(st, a, in.ts.Nil())
			if !(e.isBool() && !constBool(e)) {
				in.alarm("nil-map", pos, "assignment to entry in possibly nil map "+a.String())
			}
			in.event(st, Event{Kind: "write-input", Aux: a.String(), Pos: pos})
		}
	}
}

func (in *Interp) mapPut(st *State, c, k, v *Term, weak bool) *Term {
	if c.K != KMapVal {
		return in.ts.Top(c.T, c, k, v)
	}
	args := append([]*Term(nil), c.Args...)
	done := false
	for i := 0; i < len(args); i += 2 {
		e := in.eq(st, args[i], k)
		t, f := in.feasible(st, e)
		if t && !f {
			if weak {
				args[i+1] = in.joinVal(args[i+1], v)
			} else {
				args[i+1] = v
			}
			done = true
		} else if t && f {
			args[i+1] = in.joinVal(args[i+1], v)
		}
	}
	if !done {
		if k.Imprec && k.K == KTop || len(args) > 2000 {
			return in.ts.intern(&Term{K: KMapVal, Args: args, Open: true, T: c.T})
		}
		if weak {
			v = in.ts.Choice(v, in.absent())
		}
		args = append(args, k, v)
	}
	return in.ts.intern(&Term{K: KMapVal, Args: args, Open: c.Open, T: c.T})
}

func (in *Interp) mapDelete(st *State, m, k *Term, pos token.Pos) {
	for _, a := range alts(m) {
		if a.K != KAddr {
			continue
		}
		if in.objs[a.Obj].Input && !in.initing {
			in.event(st, Event{Kind: "write-input", Obj: a.Obj, Aux: in.objs[a.Obj].Name, Pos: pos})
		}
		c := in.content(st, a.Obj)
		if c.K != KMapVal {
			continue
		}
		var args []*Term
		for i := 0; i < len(c.Args); i += 2 {
			t, f := in.feasible(st, in.eq(st, c.Args[i], k))
			switch {
			case t && !f:
			case t && f:
				args = append(args, c.Args[i], in.ts.Choice(c.Args[i+1], in.absent()))
			default:
				args = append(args, c.Args[i], c.Args[i+1])
			}
		}
		st.heap.set(a.Obj, in.ts.intern(&Term{K: KMapVal, Args: args, Open: c.Open, T: c.T}))
	}
}

// lookup splits on which entry matches.
func (in *Interp) lookup(fr *frame, ps *pstate, t *ssa.Lookup) []Outcome {
	m, k := in.get(fr, ps, t.X), in.get(fr, ps, t.Index)
	et := elemType(t.X.Type())
	ts := in.ts
	var outs []Outcome
	emit := func(st *State, v *Term, ok *Term) {
		if v == in.absent() {
			v, ok = in.zero(et), ts.Bool(false)
		}
		outs = append(outs, Outcome{st: st, res: []*Term{v, ok}})
	}
	emitAlts := func(st *State, v *Term) {
		if v.K == KChoice {
			var keep []*Term
			abs := false
			for _, a := range v.Args {
				if a == in.absent() {
					abs = true
				} else {
					keep = append(keep, a)
				}
			}
			if abs {
				emit(st.clone(), in.absent(), nil)
			}
			if len(keep) > 0 {
				emit(st.clone(), ts.Choice(keep...), ts.Bool(true))
			}
			return
		}
		emit(st.clone(), v, ts.Bool(true))
	}
	for _, a := range alts(m) {
		for _, key := range alts(k) {
			switch a.K {
			case KNil:
				emit(ps.st.clone(), in.absent(), nil)
			case KAddr:
				c := in.content(ps.st, a.Obj)
				if c == nil || c.K != KMapVal {
					if c != nil && isOpaque(c) {
						in.opaqueLookup(ps.st, c, key, et, emit)
						continue
					}
					emit(ps.st.clone(), ts.Top(et, a, key), ts.Top(types.Typ[types.Bool]))
					continue
				}
				rest := ps.st.clone()
				done := false
				if len(c.Args) > 2000 && !key.isStr() {
					// large table: one joined outcome
					var vs []*Term
					for i := 1; i < len(c.Args); i += 2 {
						vs = append(vs, c.Args[i])
					}
					emit(ps.st.clone(), ts.Top(et, vs...), ts.Bool(true))
					emit(ps.st.clone(), in.absent(), nil)
					continue
				}
				for i := 0; i < len(c.Args) && !done; i += 2 {
					e := in.eq(rest, c.Args[i], key)
					tt, ff := in.feasible(rest, e)
					if tt && !ff {
						emitAlts(rest, c.Args[i+1])
						done = true
						break
					}
					if tt {
						s2 := rest.clone()
						if e.K == KChoice || in.learn(s2, e, true) {
							emitAlts(s2, c.Args[i+1])
						}
						if e.K != KChoice {
							in.learn(rest, e, false)
						}
					}
				}
				if done {
					continue
				}
				if c.Open {
					emit(rest.clone(), ts.Top(et, a, key), ts.Bool(true))
				}
				emit(rest, in.absent(), nil)
			case KTop:
				emit(ps.st.clone(), ts.Top(et, a, key), ts.Top(types.Typ[types.Bool]))
			default:
				in.opaqueLookup(ps.st, a, key, et, emit)
			}
		}
	}
	// merge outcomes with equal results
	return in.mergeOutcomes(outs)
}

func (in *Interp) opaqueLookup(st *State, m, key *Term, et types.Type, emit func(*State, *Term, *Term)) {
	has := in.ts.intern(&Term{K: KOp, Op: "has", Args: []*Term{m, key}, T: types.Typ[types.Bool]})
	hv := in.knownBool(st, has)
	if in.attr != nil && in.attrOf(m).HasKeys {
		hv = in.ts.Bool(true)
	}
	t, f := in.feasible(st, hv)
	if t {
		s := st.clone()
		if hv.isBool() || in.learn(s, has, true) {
			emit(s, in.op("[", et, m, key), in.ts.Bool(true))
		}
	}
	if f {
		s := st.clone()
		if hv.isBool() || in.learn(s, has, false) {
			emit(s, in.absent(), nil)
		}
	}
}

func (in *Interp) mergeOutcomes(outs []Outcome) []Outcome {
	if len(outs) < 2 {
		return outs
	}
	idx := map[string]int{}
	var res []Outcome
	for _, o := range outs {
		k := ""
		for _, r := range o.res {
			k += fmt.Sprint(r.ID, ",")
		}
		if i, ok := idx[k]; ok {
			res[i].st = in.joinState(res[i].st, o.st, false)
			continue
		}
		idx[k] = len(res)
		res = append(res, o)
	}
	if len(res) > 40 {
		// collapse by the boolean flag
		by := map[string]*Outcome{}
		var order []string
		for i := range res {
			o := res[i]
			k := ""
			if len(o.res) > 1 {
				k = o.res[1].String()
			}
			if p := by[k]; p != nil {
				p.st = in.joinState(p.st, o.st, false)
				for j := range p.res {
					p.res[j] = in.joinVal(p.res[j], o.res[j])
				}
			} else {
				c := o
				by[k] = &c
				order = append(order, k)
			}
		}
		res = nil
		for _, k := range order {
			res = append(res, *by[k])
		}
	}
	return res
}

// ---- range

func (in *Interp) rangeInit(st *State, site *ssa.Range, x *Term, xt types.Type) *Term {
	ts := in.ts
	// iterator state: {pos, source}
	val := ts.Struct(types.NewTuple(), []*Term{ts.Int(0), x})
	key := fmt.Sprintf("iter|%p", site)
	o := in.newObj(key, "iterator", types.NewTuple())
	if x.K == KAddr {
		c := in.content(st, x.Obj)
		if c != nil && c.K == KMapVal {
			val = ts.Struct(types.NewTuple(), []*Term{ts.Int(0), x, c})
			if len(c.Args) > 2 || c.Open {
				in.event(st, Event{Kind: "map-range", Obj: x.Obj, Pos: site.Pos()})
			}
		}
	} else if x.K == KLabel || x.K == KOp {
		if _, ok := xt.Underlying().(*types.Map); ok {
			in.event(st, Event{Kind: "map-range", Term: x, Pos: site.Pos()})
		}
	}
	st.heap.set(o.ID, val)
	return ts.Addr(o.ID)
}

func (in *Interp) next(fr *frame, ps *pstate, t *ssa.Next) []Outcome {
	ts := in.ts
	it := in.get(fr, ps, t.Iter)
	tt := t.Type().(*types.Tuple)
	kt, vt := tt.At(1).Type(), tt.At(2).Type()
	bad := func(types.Type) *Term { return ts.Nil() }
	if it.K != KAddr {
		s1, s2 := ps.st.clone(), ps.st.clone()
		return []Outcome{
			{st: s1, res: []*Term{ts.Bool(true), in.topT(kt), in.topT(vt)}},
			{st: s2, res: []*Term{ts.Bool(false), bad(kt), bad(vt)}},
		}
	}
	v := in.content(ps.st, it.Obj)
	if v.K != KStruct {
		s1, s2 := ps.st.clone(), ps.st.clone()
		return []Outcome{
			{st: s1, res: []*Term{ts.Bool(true), in.topT(kt), in.topT(vt)}},
			{st: s2, res: []*Term{ts.Bool(false), bad(kt), bad(vt)}},
		}
	}
	pos, src := v.Args[0], v.Args[1]
	done := func() Outcome { return Outcome{st: ps.st.clone(), res: []*Term{ts.Bool(false), ts.Nil(), ts.Nil()}} }
	adv := func(n int64, k, val *Term) Outcome {
		s := ps.st.clone()
		s.heap.set(it.Obj, ts.Struct(types.NewTuple(), append([]*Term{ts.Int(n), src}, v.Args[2:]...)))
		return Outcome{st: s, res: []*Term{ts.Bool(true), k, val}}
	}
	if t.IsString {
		if src.isStr() && pos.isInt() {
			s := src.str()
			p := int(pos.int())
			if p >= len(s) {
				return []Outcome{done()}
			}
			for i, r := range s[p:] {
				if i == 0 {
					n := len(string(r))
					return []Outcome{adv(int64(p+n), ts.Int(int64(p)), ts.Int(int64(r)))}
				}
			}
		}
		return []Outcome{{st: ps.st.clone(), res: []*Term{ts.Bool(true), ts.intern(&Term{K: KTop, Op: fmt.Sprintf("ge0<%d", in.lenOp(src).ID), T: types.Typ[types.Int]}), ts.Top(types.Typ[types.Rune], src)}}, done()}
	}
	if src.K == KNil {
		return []Outcome{done()}
	}
	if len(v.Args) > 2 && v.Args[2].K == KMapVal && pos.isInt() {
		c := v.Args[2]
		p := int(pos.int())
		// keys joined so that order does not matter are left to the rules;
		// iteration follows insertion order
		if 2*p >= len(c.Args) {
			if !c.Open {
				return []Outcome{done()}
			}
			s1 := ps.st.clone()
			return []Outcome{{st: s1, res: []*Term{ts.Bool(true), in.topT(kt), in.topT(vt)}}, done()}
		}
		q := p
		if in.mapRev && !c.Open {
			q = len(c.Args)/2 - 1 - p
		}
		val := c.Args[2*q+1]
		// current content if the map was changed meanwhile
		if cur := in.content(ps.st, src.Obj); cur != c && cur != nil && cur.K == KMapVal && 2*q+1 < len(cur.Args) && cur.Args[2*q] == c.Args[2*q] {
			val = cur.Args[2*q+1]
		}
		var keep []*Term
		abs := false
		for _, a := range alts(val) {
			if a == in.absent() {
				abs = true
			} else {
				keep = append(keep, a)
			}
		}
		var outs []Outcome
		if len(keep) > 0 {
			outs = append(outs, adv(int64(p+1), c.Args[2*q], ts.Choice(keep...)))
		}
		if abs {
			// skip: emulate by advancing and asking again
			s := ps.st.clone()
			s.heap.set(it.Obj, ts.Struct(types.NewTuple(), append([]*Term{ts.Int(int64(p + 1)), src}, v.Args[2:]...)))
			outs = append(outs, in.next(fr, &pstate{st: s, env: ps.env, defers: ps.defers}, t)...)
		}
		return outs
	}
	if (src.K == KLabel || src.K == KOp) && pos.isInt() {
		p := pos.int()
		n := in.lenOp(src)
		lo, hi := in.rng(ps.st, n)
		var outs []Outcome
		if p < hi {
			k := in.op("mapkey", kt, src, pos)
			outs = append(outs, adv(p+1, k, in.op("[", in.elemOf(src, vt), src, k)))
		}
		if p >= lo {
			outs = append(outs, done())
		}
		return outs
	}
	s1 := ps.st.clone()
	return []Outcome{{st: s1, res: []*Term{ts.Bool(true), in.topProv(kt, src), in.topProv(vt, src)}}, done()}
}

func (in *Interp) elemOf(src *Term, vt types.Type) types.Type {
	if src.T != nil {
		if e := elemType(src.T); e != nil {
			return e
		}
	}
	return vt
}

func (in *Interp) topT(t types.Type) *Term             { return in.ts.Top(t) }
func (in *Interp) topProv(t types.Type, p *Term) *Term { return in.ts.Top(t, p) }
func (in *Interp) lenOp(x *Term) *Term {
	return in.ts.intern(&Term{K: KOp, Op: "len", Args: []*Term{x}, T: types.Typ[types.Int]})
}

// ---- type assertions

func (in *Interp) typeAssert(fr *frame, ps *pstate, t *ssa.TypeAssert) []Outcome {
	ts := in.ts
	x := in.get(fr, ps, t.X)
	var succ []*Term
	fail := false
	unk := []*Term{}
	iface, isIface := t.AssertedType.Underlying().(*types.Interface)
	for _, a := range alts(x) {
		switch a.K {
		case KNil:
			fail = true
		case KIface:
			if isIface {
				if types.Implements(a.T, iface) {
					succ = append(succ, a)
				} else {
					fail = true
				}
			} else if in.ts.typeKey(a.T) == in.ts.typeKey(t.AssertedType) {
				succ = append(succ, a.Args[0])
			} else {
				fail = true
			}
		default:
			unk = append(unk, a)
		}
	}
	var outs []Outcome
	if len(succ) > 0 {
		v := ts.Choice(succ...)
		outs = append(outs, Outcome{st: ps.st.clone(), res: []*Term{v, ts.Bool(true)}})
	}
	for _, a := range unk {
		is := ts.intern(&Term{K: KOp, Op: "is:" + types.TypeString(t.AssertedType, nil), Args: []*Term{a}, T: types.Typ[types.Bool]})
		kb := in.knownBool(ps.st, is)
		tOK, fOK := in.feasible(ps.st, kb)
		if tOK {
			s := ps.st.clone()
			in.learn(s, is, true)
			var v *Term
			if isIface {
				v = a
			} else if a.K == KTop {
				v = in.ts.Top(t.AssertedType, a)
			} else {
				v = in.op(".("+types.TypeString(t.AssertedType, func(p *types.Package) string { return p.Name() })+")", t.AssertedType, a)
			}
			outs = append(outs, Outcome{st: s, res: []*Term{v, ts.Bool(true)}})
		}
		if fOK {
			fail = true
		}
	}
	if t.CommaOk {
		if fail {
			s := ps.st.clone()
			for _, a := range unk {
				is := ts.intern(&Term{K: KOp, Op: "is:" + types.TypeString(t.AssertedType, nil), Args: []*Term{a}, T: types.Typ[types.Bool]})
				if len(unk) == 1 && len(alts(x)) == 1 {
					in.learn(s, is, false)
				}
			}
			outs = append(outs, Outcome{st: s, res: []*Term{in.zero(t.AssertedType), ts.Bool(false)}})
		}
		return outs
	}
	if fail {
		in.alarm("type-assert", t.Pos(), fmt.Sprintf("type assertion to %s may fail for %s", types.TypeString(t.AssertedType, nil), x))
	}
	return outs
}
