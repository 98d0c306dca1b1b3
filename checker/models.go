package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"regexp/syntax"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// models of library functions, keyed by their full name
var models map[string]model

func one(c *callCtx, ts ...*Term) []Outcome { return []Outcome{{st: c.st, res: ts}} }

var (
	strT  = types.Typ[types.String]
	boolT = types.Typ[types.Bool]
	intT  = types.Typ[types.Int]
)

// failErr: a fresh non-nil error
func (in *Interp) mkErr(name string, args ...*Term) *Term {
	return in.ts.intern(&Term{K: KOp, Op: "err!" + name, Args: args, T: types.Universe.Lookup("error").Type()})
}

// forAlts applies f to each alternative of a string term and rejoins.
func distStr(in *Interp, t *Term, f func(*Term) *Term) *Term {
	if t.K != KChoice {
		return f(t)
	}
	var out []*Term
	for _, a := range t.Args {
		out = append(out, f(a))
	}
	return in.ts.Choice(out...)
}

// generic reports whether every non-constant piece is a generic token.
func (in *Interp) allGeneric(ps []*Term) bool {
	for _, p := range ps {
		if p.isStr() {
			continue
		}
		if !in.attrOf(p).Generic {
			return false
		}
	}
	return true
}

// containsConst: does template x contain constant sep? nil = unknown
func (in *Interp) containsConst(x *Term, sep string) *bool {
	t, f := true, false
	if sep == "" {
		return &t
	}
	unknown := false
	for _, p := range in.revealed(pieces(x)) {
		if p.isStr() {
			if strings.Contains(p.str(), sep) {
				return &t
			}
			continue
		}
		at := in.attrOf(p)
		if at.Generic {
			in.ask(p, 'c', sep)
			continue
		}
		if len(at.Has) > 0 {
			hit := false
			for _, h := range at.Has {
				if strings.Contains(h, sep) {
					hit = true
				}
			}
			if hit {
				return &t
			}
			continue
		}
		if at.MultiLine {
			if sep == "\n" {
				return &t
			}
			continue
		}
		if at.lacks(sep) {
			continue
		}
		unknown = true
	}
	if unknown {
		return nil
	}
	return &f
}

func (in *Interp) hasPrefixT(x *Term, pre string) *bool {
	t, f := true, false
	ps := in.revealed(pieces(x))
	for i, p := range ps {
		if pre == "" {
			return &t
		}
		if p.isStr() {
			s := p.str()
			if len(s) >= len(pre) {
				b := strings.HasPrefix(s, pre)
				return &b
			}
			if !strings.HasPrefix(pre, s) {
				return &f
			}
			pre = pre[len(s):]
			continue
		}
		at := in.attrOf(p)
		if at.Generic || at.MultiLine || len(at.Has) > 0 {
			in.ask(p, 'p', pre)
			return &f
		}
		if at.NonEmpty && len(at.Lacks) > 0 && at.lacks(pre[:1]) || i == len(ps)-1 && at.lacks(pre) {
			return &f
		}
		if len(at.Lacks) > 0 && at.lacks(pre[:1]) {
			// no, unless it is empty and the rest does
			if r := in.hasPrefixT(in.ts.Cat(ps[i+1:]...), pre); r != nil && !*r {
				return r
			}
			return nil
		}
		if r, _ := utf8.DecodeRuneInString(pre); at.Trimmed && isSpace(r) && (at.NonEmpty || i == len(ps)-1) {
			return &f
		}
		return nil
	}
	if pre == "" {
		return &t
	}
	return &f
}

func (in *Interp) hasSuffixT(x *Term, suf string) *bool {
	t, f := true, false
	ps := in.revealed(pieces(x))
	for i := len(ps) - 1; i >= 0; i-- {
		if suf == "" {
			return &t
		}
		p := ps[i]
		if p.isStr() {
			s := p.str()
			if len(s) >= len(suf) {
				b := strings.HasSuffix(s, suf)
				return &b
			}
			if !strings.HasSuffix(suf, s) {
				return &f
			}
			suf = suf[:len(suf)-len(s)]
			continue
		}
		at := in.attrOf(p)
		if at.Generic || at.MultiLine || len(at.Has) > 0 {
			in.ask(p, 's', suf)
			return &f
		}
		if at.NonEmpty && len(at.Lacks) > 0 && at.lacks(suf[len(suf)-1:]) || i == 0 && at.lacks(suf) {
			return &f
		}
		if len(at.Lacks) > 0 && at.lacks(suf[len(suf)-1:]) {
			// no, unless it is empty and the rest does
			if r := in.hasSuffixT(in.ts.Cat(ps[:i]...), suf); r != nil && !*r {
				return r
			}
			return nil
		}
		if r, _ := utf8.DecodeLastRuneInString(suf); at.Trimmed && isSpace(r) && (at.NonEmpty || i == 0) {
			return &f
		}
		return nil
	}
	if suf == "" {
		return &t
	}
	return &f
}

func tri(in *Interp, b *bool, unk func() *Term) *Term {
	if b != nil {
		return in.ts.Bool(*b)
	}
	return unk()
}

// splitT splits template x at constant sep into at most n parts (n<0: all); ok=false if unknown.
func (in *Interp) splitT(x *Term, sep string, n int) ([]*Term, bool) {
	if sep == "" {
		return nil, false
	}
	ps := pieces(x)
	found := 0
	for _, p := range ps {
		if n > 0 && found >= n-1 {
			break // no further cut is made
		}
		if p.isStr() {
			found += strings.Count(p.str(), sep)
			continue
		}
		if c := in.containsConst(p, sep); c == nil || *c {
			return nil, false
		}
	}
	var out []*Term
	var cur []*Term
	for _, p := range ps {
		if !p.isStr() {
			cur = append(cur, p)
			continue
		}
		s := p.str()
		for {
			if n > 0 && len(out) == n-1 {
				break
			}
			i := strings.Index(s, sep)
			if i < 0 {
				break
			}
			cur = append(cur, in.ts.Str(s[:i]))
			out = append(out, in.ts.Cat(cur...))
			cur = nil
			s = s[i+len(sep):]
		}
		cur = append(cur, in.ts.Str(s))
	}
	out = append(out, in.ts.Cat(cur...))
	return out, true
}

// trimT trims characters satisfying f from the chosen ends; ok=false if unknown.
func (in *Interp) trimT(x *Term, f func(rune) bool, left, right bool) (*Term, bool) {
	ps := append([]*Term(nil), pieces(x)...)
	if left {
		for len(ps) > 0 {
			if !ps[0].isStr() {
				if in.attrOf(ps[0]).resists(f) {
					break
				}
				return nil, false
			}
			s := strings.TrimLeftFunc(ps[0].str(), f)
			if s != "" {
				ps[0] = in.ts.Str(s)
				break
			}
			ps = ps[1:]
		}
	}
	if right {
		for len(ps) > 0 {
			k := len(ps) - 1
			if !ps[k].isStr() {
				if in.attrOf(ps[k]).resists(f) {
					break
				}
				return nil, false
			}
			s := strings.TrimRightFunc(ps[k].str(), f)
			if s != "" {
				ps[k] = in.ts.Str(s)
				break
			}
			ps = ps[:k]
		}
	}
	return in.ts.Cat(ps...), true
}

// resists reports that trimming by f leaves the token as it is.
func (at Attr) resists(f func(rune) bool) bool {
	if at.Generic || at.MultiLine || len(at.Has) > 0 || at.Trimmed && at.NonEmpty && f(' ') && !f('x') && !f('"') {
		return true
	}
	if !at.NonEmpty {
		return false
	}
	any := false
	for r := rune(0); r < 0x3100; r++ {
		if f(r) {
			any = true
			if !at.lacks(string(r)) && !(at.Trimmed && isSpace(r)) {
				return false
			}
		}
	}
	return any
}

func isSpace(r rune) bool {
	return r == ' ' || r == '\t' || r == '\n' || r == '\r' || r == '\v' || r == '\f' || r == 0x85 || r == 0xA0
}

// op over a string argument with a lawful Top on imprecise input
func (in *Interp) sop(name string, t types.Type, args ...*Term) *Term {
	for _, a := range args {
		if a.K == KTop {
			return in.ts.Top(t, args...)
		}
	}
	return in.op(name, t, args...)
}

func (c *callCtx) strPred(name string, f func(x *Term, k string) *bool) []Outcome {
	in := c.in
	x, y := c.args[0], c.args[1]
	r := distStr(in, x, func(x *Term) *Term {
		return distStr(in, y, func(y *Term) *Term {
			if y.isStr() {
				return tri(in, f(x, y.str()), func() *Term { return in.knownBool(c.st, in.sop(name, boolT, x, y)) })
			}
			if x == y && !x.Imprec {
				return in.ts.Bool(true)
			}
			if r := in.findTokens(x, y, map[string]byte{"strings.HasPrefix": 'p', "strings.HasSuffix": 's'}[name]); r != nil {
				return in.ts.Bool(*r)
			}
			// is y generic and absent from x?
			if at := in.attrOf(y); at.Generic {
				found := false
				unk := false
				for _, p := range pieces(x) {
					if p == y {
						found = true
					} else if !p.isStr() && !in.attrOf(p).Generic {
						unk = true
					}
				}
				if !found && !unk && in.attrOf(y).Distinct {
					return in.ts.Bool(false)
				}
			}
			return in.knownBool(c.st, in.sop(name, boolT, x, y))
		})
	})
	return one(c, r)
}

func (c *callCtx) split(n int) []Outcome {
	in := c.in
	x, sep := c.args[0], c.args[1]
	sl := types.NewSlice(strT)
	var outs []*Term
	for _, x := range alts(x) {
		if sep.isStr() {
			if x.isStr() {
				var ss []string
				if sep.str() == "" {
					ss = strings.Split(x.str(), "")
				} else {
					ss = strings.SplitN(x.str(), sep.str(), n)
				}
				var es []*Term
				for _, s := range ss {
					es = append(es, in.ts.Str(s))
				}
				outs = append(outs, in.newSlice(c.st, c.instr, fmt.Sprintf("split%d.", x.ID), sl, es))
				continue
			}
			if ps, ok := in.splitT(x, sep.str(), n); ok {
				outs = append(outs, in.newSlice(c.st, c.instr, fmt.Sprintf("split%d.", x.ID), sl, ps))
				continue
			}
		}
		if x.K == KTop || sep.Imprec {
			outs = append(outs, in.nonNilTop(in.ts.Top(sl, x)))
			continue
		}
		if n < 0 {
			outs = append(outs, in.op("strings.Split", sl, x, sep))
		} else {
			outs = append(outs, in.op("strings.SplitN", sl, x, sep, in.ts.Int(int64(n))))
		}
	}
	return one(c, in.ts.Choice(outs...))
}

// nth part of SplitN(x, sep, 2)
func (in *Interp) part2(x, sep *Term, i int64) *Term {
	if x.K == KTop {
		return in.ts.Top(strT, x)
	}
	sp := in.ts.intern(&Term{K: KOp, Op: "strings.SplitN", Args: []*Term{x, sep, in.ts.Int(2)}, T: types.NewSlice(strT)})
	return in.ts.intern(&Term{K: KOp, Op: "[", Args: []*Term{sp, in.ts.Int(i)}, T: strT})
}

func (c *callCtx) cut(last bool) []Outcome {
	in := c.in
	sep := c.args[1]
	var outs []Outcome
	for _, x := range alts(c.args[0]) {
		if sep.isStr() && !last {
			if ps, ok := in.splitT(x, sep.str(), 2); ok {
				if len(ps) == 2 {
					outs = append(outs, Outcome{st: c.st.clone(), res: []*Term{ps[0], ps[1], in.ts.Bool(true)}})
				} else {
					outs = append(outs, Outcome{st: c.st.clone(), res: []*Term{x, in.ts.Str(""), in.ts.Bool(false)}})
				}
				continue
			}
		}
		con := in.sop("strings.Contains", boolT, x, sep)
		kb := in.knownBool(c.st, con)
		t, f := in.feasible(c.st, kb)
		if t {
			s := c.st.clone()
			if kb.isBool() || in.learn(s, con, true) {
				outs = append(outs, Outcome{st: s, res: []*Term{in.part2(x, sep, 0), in.part2(x, sep, 1), in.ts.Bool(true)}})
			}
		}
		if f {
			s := c.st.clone()
			if kb.isBool() || in.learn(s, con, false) {
				outs = append(outs, Outcome{st: s, res: []*Term{x, in.ts.Str(""), in.ts.Bool(false)}})
			}
		}
	}
	return outs
}

func (c *callCtx) trimFix(prefix bool) *Term {
	in := c.in
	y := c.args[1]
	return distStr(in, c.args[0], func(x *Term) *Term {
		if y.isStr() {
			var h *bool
			if prefix {
				h = in.hasPrefixT(x, y.str())
			} else {
				h = in.hasSuffixT(x, y.str())
			}
			if h != nil {
				if !*h {
					return x
				}
				ps := append([]*Term(nil), pieces(x)...)
				n := len(y.str())
				if prefix {
					for n > 0 && len(ps) > 0 && ps[0].isStr() {
						s := ps[0].str()
						if len(s) <= n {
							n -= len(s)
							ps = ps[1:]
						} else {
							ps[0] = in.ts.Str(s[n:])
							n = 0
						}
					}
				} else {
					for n > 0 && len(ps) > 0 && ps[len(ps)-1].isStr() {
						s := ps[len(ps)-1].str()
						if len(s) <= n {
							n -= len(s)
							ps = ps[:len(ps)-1]
						} else {
							ps[len(ps)-1] = in.ts.Str(s[:len(s)-n])
							n = 0
						}
					}
				}
				return in.ts.Cat(ps...)
			}
		}
		if !y.isStr() {
			if prefix {
				if r, ok := cutTermPrefix(in, x, y); ok {
					return r
				}
			} else if r, ok := cutTermSuffix(in, x, y); ok {
				return r
			}
			how := byte('s')
			if prefix {
				how = 'p'
			}
			if r := in.findTokens(x, y, how); r != nil && !*r {
				return x
			}
		}
		name := "strings.TrimSuffix"
		hp := "strings.HasSuffix"
		if prefix {
			name, hp = "strings.TrimPrefix", "strings.HasPrefix"
		}
		if x.K != KTop && !y.Imprec {
			h := in.knownBool(c.st, in.sop(hp, boolT, x, y))
			if h.isBool() && !constBool(h) {
				return x
			}
		}
		return in.sop(name, strT, x, y)
	})
}

func constStrs(ts ...*Term) bool {
	for _, t := range ts {
		if !t.isStr() {
			return false
		}
	}
	return true
}

// ---- formatting

// callStringer runs a String()/Error() method of a value being formatted.
func (in *Interp) callStringer(c *callCtx, a *Term) *Term {
	if a.K != KIface {
		return nil
	}
	if _, ok := a.T.Underlying().(*types.Interface); ok {
		return nil
	}
	for _, name := range []string{"Error", "String"} {
		ms := in.P.Prog.MethodSets.MethodSet(a.T)
		for i := 0; i < ms.Len(); i++ {
			sel := ms.At(i)
			if sel.Obj().Name() != name {
				continue
			}
			sig := sel.Type().(*types.Signature)
			if sig.Params().Len() != 0 || sig.Results().Len() != 1 || !isStringType(sig.Results().At(0).Type()) {
				continue
			}
			fn := in.P.Prog.MethodValue(sel)
			if fn == nil {
				return nil
			}
			outs := in.callFunction(c.fr, c.st.clone(), c.instr, fn, nil, []*Term{a.Args[0]})
			var l []*Term
			for _, o := range outs {
				l = append(l, in.resolve(o.st, o.res[0], nil))
			}
			if len(l) == 0 {
				return in.ts.Top(strT, a)
			}
			return in.ts.Choice(l...)
		}
	}
	return nil
}

func (in *Interp) argText(c *callCtx, verb byte, spec string, a *Term) *Term {
	if a.K == KChoice {
		var out []*Term
		for _, x := range a.Args {
			out = append(out, in.argText(c, verb, spec, x))
		}
		return in.ts.Choice(out...)
	}
	a = in.resolve(c.st, a, nil)
	if a.K == KTop {
		return in.ts.Top(strT, a)
	}
	plain := spec == "%"+string(verb)
	x := a
	var T types.Type
	if a.K == KIface {
		x = in.resolve(c.st, a.Args[0], nil)
		T = a.T
		if verb == 's' || verb == 'v' || verb == 'q' {
			if r := in.callStringer(c, a); r != nil {
				x = r
				T = strT
			}
		}
	} else if nonNilOp(a) { // an error
		return in.op("errtext", strT, a)
	}
	f := func(x *Term) *Term {
		if x.K == KTop {
			return in.ts.Top(strT, x)
		}
		if T != nil && isStringType(T) && (verb == 's' || verb == 'v') && plain {
			return x
		}
		if isByteSlice(T) && verb == 's' && plain {
			return in.bytesText(c.st, x)
		}
		if verb == 'x' && plain && T != nil {
			if h := in.hexArg(c, x, T); h != nil {
				return h
			}
		}
		if isIntType(T) && (verb == 'd' || verb == 'v') && plain {
			return in.itoa(x)
		}
		if verb == 'q' && plain && x.isStr() {
			return in.ts.Str(strconv.Quote(x.str()))
		}
		if verb == 't' || verb == 'v' {
			if x.isBool() && plain {
				return in.ts.Str(fmt.Sprint(constBool(x)))
			}
			if plain && T != nil && isBoolType(T) {
				k := in.knownBool(c.st, x)
				if k.isBool() {
					return in.ts.Str(fmt.Sprint(constBool(k)))
				}
				return in.ts.Choice(in.ts.Str("false"), in.ts.Str("true"))
			}
		}
		if x.K == KConst && plain {
			switch x.C.Kind() {
			case constant.String:
				return in.ts.Str(fmt.Sprintf(spec, x.str()))
			case constant.Int:
				return in.ts.Str(fmt.Sprintf(spec, x.int()))
			}
		}
		if x.K == KConst {
			switch x.C.Kind() {
			case constant.String:
				return in.ts.Str(fmt.Sprintf(spec, x.str()))
			case constant.Int:
				return in.ts.Str(fmt.Sprintf(spec, x.int()))
			}
		}
		return in.op("fmt:"+spec, strT, x)
	}
	return distStr(in, x, f)
}

func (in *Interp) itoa(x *Term) *Term {
	return in.dist(x, func(x *Term) *Term {
		if x.isInt() {
			return in.ts.Str(strconv.FormatInt(x.int(), 10))
		}
		if x.K == KTop {
			return in.ts.Top(strT, x)
		}
		return in.op("itoa", strT, x)
	})
}

func (in *Interp) sprintf(c *callCtx, format *Term, va *Term) *Term {
	if format.K == KChoice {
		var out []*Term
		for _, f := range format.Args {
			out = append(out, in.sprintf(c, f, va))
		}
		return in.joinStrs(out)
	}
	args, ok := in.elems(c.st, va)
	if !format.isStr() || !ok {
		if ok && format.K == KCat && in.allGeneric(format.Args) {
			// constant pieces drive the verbs; generic tokens hold none
			var out []*Term
			k := 0
			for _, p := range format.Args {
				if !p.isStr() {
					out = append(out, p)
					continue
				}
				t, n := in.sprintfConst(c, p.str(), args[min(k, len(args)):])
				out = append(out, t)
				k += n
			}
			return in.ts.Cat(out...)
		}
		return in.ts.Top(strT, append([]*Term{format}, args...)...)
	}
	t, n := in.sprintfConst(c, format.str(), args)
	if n < len(args) {
		return in.ts.Cat(t, in.op("fmt-extra", strT, args[n:]...))
	}
	return t
}

func (in *Interp) sprintfConst(c *callCtx, f string, args []*Term) (*Term, int) {
	var out []*Term
	k := 0
	for i := 0; i < len(f); {
		j := strings.IndexByte(f[i:], '%')
		if j < 0 {
			out = append(out, in.ts.Str(f[i:]))
			break
		}
		out = append(out, in.ts.Str(f[i:i+j]))
		i += j
		e := i + 1
		for e < len(f) && strings.IndexByte("+-# 0123456789.*", f[e]) >= 0 {
			e++
		}
		if e >= len(f) {
			out = append(out, in.ts.Str("%!(NOVERB)"))
			break
		}
		v := f[e]
		spec := f[i : e+1]
		i = e + 1
		if v == '%' {
			out = append(out, in.ts.Str("%"))
			continue
		}
		for s := 0; s < strings.Count(spec, "*"); s++ {
			k++
		}
		if k >= len(args) {
			out = append(out, in.ts.Str("%!"+string(v)+"(MISSING)"))
			continue
		}
		out = append(out, in.argText(c, v, spec, args[k]))
		k++
	}
	return in.ts.Cat(out...), k
}

func (in *Interp) sprint(c *callCtx, va *Term, ln bool) *Term {
	args, ok := in.elems(c.st, va)
	if !ok {
		return in.ts.Top(strT, va)
	}
	var out []*Term
	prevStr := true
	for i, a := range args {
		isS := false
		for _, x := range alts(a) {
			if x.K == KIface && isStringType(x.T) {
				isS = true
			}
		}
		if i > 0 && (ln || !isS && !prevStr) {
			out = append(out, in.ts.Str(" "))
		}
		prevStr = isS
		out = append(out, in.argText(c, 'v', "%v", a))
	}
	if ln {
		out = append(out, in.ts.Str("\n"))
	}
	return in.ts.Cat(out...)
}

// ---- streams

type wres struct {
	st  *State
	err *Term
}

// write sends text to writer term w.
func (in *Interp) write(c *callCtx, w, text *Term) []Outcome {
	ts := in.ts
	var outs []Outcome
	as := alts(w)
	for i, a := range as {
		st := c.st
		if i < len(as)-1 {
			st = c.st.clone()
		}
		n := in.ts.Top(intT)
		switch a.K {
		case KNil:
			in.alarm("nil-deref", c.pos, "write to nil writer")
			continue
		case KIface:
			name := types.TypeString(a.T, nil)
			switch name {
			case "*strings.Builder", "*bytes.Buffer":
				in.bufWrite(st, a.Args[0], text, c.pos)
				outs = append(outs, Outcome{st: st, res: []*Term{n, ts.Nil()}})
				continue
			case "*bufio.Writer", "*text/tabwriter.Writer":
				outs = append(outs, in.wrapWrite(c, st, a.Args[0], text)...)
				continue
			}
			fn := in.P.Prog.LookupMethod(a.T, nil, "Write")
			if fn != nil && in.canInterpret(fn) {
				outs = append(outs, in.callFunction(c.fr, st, c.instr, fn, nil, []*Term{a.Args[0], in.mkBytes(text)})...)
				continue
			}
			outs = append(outs, in.streamWrite(c, st, a, text, n)...)
			continue
		}
		outs = append(outs, in.streamWrite(c, st, a, text, n)...)
	}
	return outs
}

func (in *Interp) streamWrite(c *callCtx, st *State, w, text, n *Term) []Outcome {
	o := in.streamObj(w)
	if in.failMode {
		bad := st.clone()
		in.setFailed(bad, c)
		in.emitText(st, o.ID, text, c.pos)
		return []Outcome{{st: st, res: []*Term{n, in.ts.Nil()}}, {st: bad, res: []*Term{n, in.mkErr("write")}}}
	}
	in.emitText(st, o.ID, text, c.pos)
	in.event(st, Event{Kind: "write", Obj: o.ID, Pos: c.pos})
	return []Outcome{{st: st, res: []*Term{n, in.ts.Nil()}}}
}

func (in *Interp) streamObj(w *Term) *Obj {
	o := in.newObj(fmt.Sprintf("stream|%d", w.ID), "stream "+w.String(), nil)
	o.Stream = true
	return o
}

func (in *Interp) setFailed(st *State, c *callCtx) {
	st.heap.set(in.failObj, in.ts.Struct(in.objs[in.failObj].T, []*Term{in.ts.Bool(true)}))
	in.event(st, Event{Kind: "failed", Pos: c.pos})
}

func (in *Interp) hasFailed(st *State) bool {
	v := st.heap.get(in.failObj)
	return v != nil && v.K == KStruct && v.Args[0].isBool() && constBool(v.Args[0])
}

// enableFailures makes writes to streams (or reads from scanners) fail at any
// time; the fact that one failed is part of the abstract state.
func (in *Interp) enableFailures() {
	T := types.NewStruct([]*types.Var{types.NewField(0, nil, "failed", boolT, false)}, nil)
	o := in.newObj("fail", "fail", T)
	in.track(o)
	in.failObj = o.ID
	in.failMode = true
}

func (in *Interp) wrapState(w *Term, status string) *Term {
	return in.ts.intern(&Term{K: KOp, Op: "wrapw", Args: []*Term{w, in.ts.Str(status)}})
}

// wrapWrite: bufio.Writer and tabwriter.Writer pass text through.
func (in *Interp) wrapWrite(c *callCtx, st *State, p, text *Term) []Outcome {
	if p.K == KAddr {
		v := in.content(st, p.Obj)
		if v != nil && v.K == KOp && v.Op == "wrapw" {
			sub := *c
			sub.st = st
			in.event(st, Event{Kind: "buffered", Obj: p.Obj, Pos: c.pos})
			var res []Outcome
			for _, o := range in.write(&sub, v.Args[0], text) {
				cur := in.content(o.st, p.Obj)
				status := "dirty"
				if cur != nil && cur.K == KOp && len(cur.Args) > 1 && cur.Args[1].str() == "failed" {
					status = "failed"
				}
				if o.res[1].K != KNil {
					// the failure surfaces here, or at the next Flush
					now := o.st.clone()
					now.heap.set(p.Obj, in.wrapState(v.Args[0], "dirty"))
					res = append(res, Outcome{st: now, res: []*Term{in.ts.Top(intT), in.mkErr("write")}})
					status = "failed"
				}
				o.st.heap.set(p.Obj, in.wrapState(v.Args[0], status))
				res = append(res, Outcome{st: o.st, res: []*Term{in.ts.Top(intT), in.ts.Nil()}})
			}
			return res
		}
	}
	return in.streamWrite(c, st, p, text, in.ts.Top(intT))
}

func (in *Interp) bufWrite(st *State, p, text *Term, pos token.Pos) {
	for _, a := range alts(p) {
		if a.K != KAddr {
			continue
		}
		if len(a.Path) > 0 { // buffer embedded in a struct
			cur := in.content(st, a.Obj)
			sub := in.proj(cur, a.Path, in.objs[a.Obj].T)
			st.heap.set(a.Obj, in.update(cur, a.Path, in.objs[a.Obj].T, in.bufAppend(sub, text), st.sum[a.Obj] || p.K == KChoice))
			continue
		}
		cur := in.content(st, a.Obj)
		nv := in.bufAppend(cur, text)
		if p.K == KChoice || st.sum[a.Obj] {
			nv = in.joinBuf(cur, nv)
		}
		st.heap.set(a.Obj, nv)
	}
}

func (in *Interp) bufReset(st *State, p *Term) {
	empty := in.ts.intern(&Term{K: KOp, Op: "buf", Args: []*Term{in.ts.Str("")}})
	for _, a := range alts(p) {
		if a.K != KAddr {
			continue
		}
		nv := empty
		cur := in.content(st, a.Obj)
		if len(a.Path) > 0 {
			nv = in.update(cur, a.Path, in.objs[a.Obj].T, empty, st.sum[a.Obj] || p.K == KChoice)
		} else if p.K == KChoice || st.sum[a.Obj] {
			nv = in.joinBuf(cur, nv)
		}
		st.heap.set(a.Obj, nv)
	}
}

func (in *Interp) bufAppend(cur, text *Term) *Term {
	return in.ts.intern(&Term{K: KOp, Op: "buf", Args: []*Term{in.ts.Cat(in.bufVal(cur), text)}})
}

func (in *Interp) bufVal(cur *Term) *Term {
	switch {
	case isBuf(cur):
		return cur.Args[0]
	case cur.K == KStruct:
		return in.ts.Str("")
	}
	return in.ts.Top(strT, cur)
}

func (in *Interp) bufText(st *State, p *Term) *Term {
	return in.dist(p, func(a *Term) *Term {
		if a.K != KAddr {
			return in.ts.Top(strT, a)
		}
		cur := in.content(st, a.Obj)
		if len(a.Path) > 0 {
			cur = in.proj(cur, a.Path, in.objs[a.Obj].T)
		}
		return in.bufVal(cur)
	})
}

// emitText appends text to a stream and records the lines it completes.
func (in *Interp) emitText(st *State, obj int, text *Term, pos token.Pos) {
	if in.keepText {
		pend := st.pend[obj]
		if pend == nil {
			pend = in.ts.Str("")
		}
		st.setPend(obj, in.catAlts(pend, text))
		return
	}
	if text.K == KChoice {
		in.emitAlts(st, obj, text.Args, nil, pos)
		return
	}
	ps := pieces(text)
	for i, p := range ps {
		if p.K == KChoice {
			nl := false
			for _, a := range p.Args {
				if a.K == KChoice || hasNewline(a) || a.isStr() && a.str() == "" {
					nl = true
				}
			}
			if nl {
				rest := append([]*Term(nil), ps[i+1:]...)
				in.emitAlts(st, obj, p.Args, nil, pos)
				in.emitText(st, obj, in.ts.Cat(rest...), pos)
				return
			}
		}
		pend := st.pend[obj]
		if pend == nil {
			pend = in.ts.Str("")
		}
		if !p.isStr() {
			st.setPend(obj, in.catAlts(pend, p))
			continue
		}
		s := p.str()
		for {
			k := strings.IndexByte(s, '\n')
			if k < 0 {
				break
			}
			line := in.catAlts(pend, in.ts.Str(s[:k]))
			if in.lineCanon != nil {
				line = in.dist(line, in.lineCanon)
			}
			for _, l := range alts(line) {
				e := Event{Kind: "line", Obj: obj, Term: l, Pos: pos}
				if line.K == KChoice {
					// one of several: record each as possible
					s2 := st.clone()
					in.event(s2, e)
					j := in.joinEvents(st.events, s2.events)
					st.events = j
				} else {
					in.event(st, e)
				}
			}
			pend = in.ts.Str("")
			s = s[k+1:]
		}
		st.setPend(obj, in.catAlts(pend, in.ts.Str(s)))
	}
}

func hasNewline(t *Term) bool {
	for _, p := range pieces(t) {
		if p.isStr() && strings.Contains(p.str(), "\n") {
			return true
		}
		if p.K == KChoice {
			for _, a := range p.Args {
				if hasNewline(a) {
					return true
				}
			}
		}
	}
	return false
}

func (in *Interp) catAlts(a, b *Term) *Term {
	if a.K == KChoice {
		var out []*Term
		for _, x := range a.Args {
			out = append(out, in.ts.Cat(x, b))
		}
		return in.ts.Choice(out...)
	}
	return in.ts.Cat(a, b)
}

func (in *Interp) emitAlts(st *State, obj int, as []*Term, _ []*Term, pos token.Pos) {
	var acc *State
	for _, a := range as {
		s := st.clone()
		in.emitText(s, obj, a, pos)
		if acc == nil {
			acc = s
		} else {
			acc = in.joinState(acc, s, false)
		}
	}
	if acc != nil {
		*st = *acc
	}
}

// ---- JSON

// jsonDecode gives the value of type T decoded from text.
func (in *Interp) jsonDecode(st *State, text *Term, T types.Type) *Term {
	return in.dist(text, func(text *Term) *Term {
		if text.K == KTop {
			return in.ts.Top(T, text)
		}
		if text.K == KOp && text.Op == "jsonenc" {
			v := text.Args[0]
			if v.K == KIface {
				v = v.Args[0]
			}
			if v.T == nil || in.ts.typeKey(v.T) == in.ts.typeKey(T) || isStringType(T) && (v.isStr() || v.K == KCat || v.T != nil && isStringType(v.T)) || v.K == KStruct && in.ts.typeKey(v.T) == in.ts.typeKey(T) {
				return v
			}
		}
		if p, ok := T.Underlying().(*types.Pointer); ok {
			_ = p
			return in.op("json", T, text)
		}
		return in.op("json:"+types.TypeString(T, func(p *types.Package) string { return p.Path() }), T, text)
	})
}

// readAll gives everything a reader will yield, and whether reading it cannot fail.
var intT64 = types.Typ[types.Int64]

func (in *Interp) readAll(st *State, r *Term) (*Term, bool) {
	if text, held := in.heldText(st, r); held {
		return text, true
	}
	if in.readText != nil {
		return in.readText, true
	}
	if r.K == KLabel && in.lines != nil {
		var ps []*Term
		for _, l := range in.lines {
			ps = append(ps, l, in.ts.Str("\n"))
		}
		return in.ts.Cat(ps...), true
	}
	return in.sop("readall", strT, r), false
}

// heldText: the text of a reader that holds it in memory.
func (in *Interp) heldText(st *State, r *Term) (*Term, bool) {
	if r.K != KIface {
		return nil, false
	}
	if r.Args[0].K == KOp && r.Args[0].Op == "nn!reader" {
		return r.Args[0].Args[0], true
	}
	if st != nil && r.Args[0].K == KAddr && types.TypeString(r.T, nil) == "*bytes.Buffer" {
		return in.bufText(st, r.Args[0]), true
	}
	return nil, false
}

// differentErrs: errors held by two variables of other packages, or the end
// of the input and a failure to read it.
func differentErrs(a, b *Term) bool {
	v := func(t *Term) bool { return t.K == KOp && strings.HasPrefix(t.Op, "err!var:") }
	// the end of the input is no failure to read it
	end := func(t *Term) bool { return t.K == KOp && t.Op == "err!var:io.EOF" }
	read := func(t *Term) bool { return t.K == KOp && t.Op == "err!read" }
	return a.Op != b.Op && (v(a) && v(b) || end(a) && read(b) || end(b) && read(a))
}

// isStreamIn: whether r is the caller's reader.
func (in *Interp) isStreamIn(r *Term) bool { return in.readText != nil && r.K == KLabel }

func (in *Interp) modelUnmarshal(c *callCtx, text, target *Term) []Outcome {
	var outs []Outcome
	if in.jsonMode {
		if o := in.jUnmarshalCall(c, text, target, false); o != nil {
			return o
		}
	}
	bad := c.st.clone()
	valid := in.op("jsonvalid", boolT, text)
	kb := in.knownBool(c.st, valid)
	if text.K == KOp && text.Op == "jsonenc" {
		kb = in.ts.Bool(true)
	}
	for _, t := range alts(target) {
		if t.K != KIface || t.Args[0].K != KAddr {
			in.havocArgs(c.st, []*Term{t})
			continue
		}
		ad := t.Args[0]
		T := deref(t.T)
		if T == nil {
			continue
		}
		in.store(c.st, ad, in.jsonDecode(c.st, text, T), T, c.pos)
	}
	tOK, fOK := in.feasible(c.st, kb)
	if tOK {
		in.learn(c.st, valid, true)
		outs = append(outs, Outcome{st: c.st, res: []*Term{in.ts.Nil()}})
	}
	if fOK {
		in.learn(bad, valid, false)
		outs = append(outs, Outcome{st: bad, res: []*Term{in.mkErr("json.Unmarshal", text)}})
	}
	return outs
}

func (c *callCtx) okErr(ok []*Term, cond *Term, bad []*Term) []Outcome {
	in := c.in
	kb := in.knownBool(c.st, cond)
	t, f := in.feasible(c.st, kb)
	var outs []Outcome
	if t {
		s := c.st.clone()
		if kb.isBool() || cond.K != KOp || in.learn(s, cond, true) {
			outs = append(outs, Outcome{st: s, res: ok})
		}
	}
	if f {
		s := c.st.clone()
		if kb.isBool() || cond.K != KOp || in.learn(s, cond, false) {
			outs = append(outs, Outcome{st: s, res: bad})
		}
	}
	return outs
}

// permute: a sort reorders the elements of a slice in place.
func (c *callCtx) permute(s *Term) {
	in := c.in
	for _, a := range alts(s) {
		if a.K == KIface {
			a = a.Args[0]
		}
		for _, b := range alts(a) {
			switch b.K {
			case KSlice:
				if b.N > 1 && in.objs[b.Obj].Input {
					in.event(c.st, Event{Kind: "write-input", Obj: b.Obj, Aux: "sort " + in.objs[b.Obj].Name, Pos: c.pos})
				}
				in.event(c.st, Event{Kind: "sort", Obj: b.Obj, Aux: c.name, Pos: c.pos})
			case KNil, KTop:
			default:
				if isPathTerm(b) {
					in.event(c.st, Event{Kind: "write-input", Term: b, Aux: "sort " + b.String(), Pos: c.pos})
				}
				in.event(c.st, Event{Kind: "sort", Term: b, Aux: c.name, Pos: c.pos})
			}
		}
	}
}

func (in *Interp) iface(t types.Type, v *Term) *Term { return in.ts.Iface(t, v) }

func init() {
	models = map[string]model{}
	m := func(names string, f model) {
		for _, n := range strings.Fields(names) {
			models[n] = f
		}
	}
	// --- fmt
	m("fmt.Sprintf", func(c *callCtx) []Outcome { return one(c, c.in.sprintf(c, c.args[0], c.args[1])) })
	m("fmt.Sprint", func(c *callCtx) []Outcome { return one(c, c.in.sprint(c, c.args[0], false)) })
	m("fmt.Sprintln", func(c *callCtx) []Outcome { return one(c, c.in.sprint(c, c.args[0], true)) })
	m("fmt.Errorf", func(c *callCtx) []Outcome {
		es, _ := c.in.elems(c.st, c.args[1])
		var keep []*Term
		for _, e := range es {
			for _, a := range alts(e) {
				if nonNilOp(a) {
					keep = append(keep, a)
				}
			}
		}
		return one(c, c.in.mkErr("Errorf", append([]*Term{c.args[0]}, keep...)...))
	})
	m("fmt.Fprintf", func(c *callCtx) []Outcome { return c.in.write(c, c.args[0], c.in.sprintf(c, c.args[1], c.args[2])) })
	m("fmt.Fprint", func(c *callCtx) []Outcome { return c.in.write(c, c.args[0], c.in.sprint(c, c.args[1], false)) })
	m("fmt.Fprintln", func(c *callCtx) []Outcome { return c.in.write(c, c.args[0], c.in.sprint(c, c.args[1], true)) })
	m("fmt.Printf fmt.Println fmt.Print", func(c *callCtx) []Outcome {
		c.in.event(c.st, Event{Kind: "stdout", Aux: c.name, Pos: c.pos})
		return one(c, c.in.ts.Top(intT), c.in.ts.Nil())
	})
	m("io.WriteString", func(c *callCtx) []Outcome { return c.in.write(c, c.args[0], c.args[1]) })
	m("(io.Writer).Write", func(c *callCtx) []Outcome { return c.in.write(c, c.args[0], c.in.bytesText(c.st, c.args[1])) })
	m("(io.StringWriter).WriteString", func(c *callCtx) []Outcome { return c.in.write(c, c.args[0], c.args[1]) })
	// --- builders
	bw := func(text func(c *callCtx) *Term) model {
		return func(c *callCtx) []Outcome {
			c.in.bufWrite(c.st, c.args[0], text(c), c.pos)
			if c.sig.Results().Len() == 1 {
				return one(c, c.in.ts.Nil())
			}
			if c.sig.Results().Len() == 0 {
				return one(c)
			}
			return one(c, c.in.ts.Top(intT), c.in.ts.Nil())
		}
	}
	for _, t := range []string{"(*strings.Builder)", "(*bytes.Buffer)"} {
		m(t+".WriteString", bw(func(c *callCtx) *Term { return c.args[1] }))
		m(t+".Write", bw(func(c *callCtx) *Term { return c.in.bytesText(c.st, c.args[1]) }))
		rb := func(c *callCtx) *Term {
			if c.args[1].isInt() {
				return c.in.ts.Str(string(rune(c.args[1].int())))
			}
			return c.in.op("runestr", strT, c.args[1])
		}
		m(t+".WriteByte", bw(rb))
		m(t+".WriteRune", bw(rb))
		m(t+".String", func(c *callCtx) []Outcome { return one(c, c.in.bufText(c.st, c.args[0])) })
		m(t+".Len", func(c *callCtx) []Outcome { return one(c, c.in.length(c.st, c.in.bufText(c.st, c.args[0]))) })
		m(t+".Grow", func(c *callCtx) []Outcome { return one(c) })
		m(t+".Reset", func(c *callCtx) []Outcome {
			c.in.bufReset(c.st, c.args[0])
			return one(c)
		})
	}
	m("(*bytes.Buffer).Bytes", func(c *callCtx) []Outcome { return one(c, c.in.mkBytes(c.in.bufText(c.st, c.args[0]))) })
	m("(*bytes.Buffer).WriteTo", func(c *callCtx) []Outcome {
		text := c.in.bufText(c.st, c.args[0])
		c.in.bufReset(c.st, c.args[0])
		return c.in.write(c, c.args[1], text)
	})
	m("(*bytes.Reader).WriteTo (*strings.Reader).WriteTo", func(c *callCtx) []Outcome {
		if c.args[0].K == KOp && c.args[0].Op == "nn!reader" {
			return c.in.write(c, c.args[1], c.args[0].Args[0])
		}
		return nil
	})
	m("bytes.NewBuffer bytes.NewBufferString", func(c *callCtx) []Outcome {
		in := c.in
		t := c.args[0]
		if c.name == "bytes.NewBuffer" {
			t = in.bytesText(c.st, t)
		}
		T := deref(c.sig.Results().At(0).Type())
		o := in.alloc(c.st, c.instr, "buffer", T, in.ts.intern(&Term{K: KOp, Op: "buf", Args: []*Term{t}}))
		return one(c, in.ts.Addr(o.ID))
	})
	// bytes functions are their strings twins
	for _, f := range []string{"TrimSpace", "Trim", "TrimLeft", "TrimRight", "TrimPrefix", "TrimSuffix", "HasPrefix", "HasSuffix", "Contains", "ToLower", "ToUpper", "ReplaceAll"} {
		m("bytes."+f, func(c *callCtx) []Outcome {
			md := models["strings."+f]
			if md == nil {
				return nil
			}
			cc := *c
			cc.name = "strings." + f
			cc.args = nil
			for i, a := range c.args {
				if isByteSlice(c.sig.Params().At(i).Type()) {
					a = c.in.bytesText(c.st, a)
				}
				cc.args = append(cc.args, a)
			}
			outs := md(&cc)
			for _, o := range outs {
				for i := range o.res {
					if isByteSlice(c.sig.Results().At(i).Type()) {
						o.res[i] = c.in.dist(o.res[i], c.in.mkBytes)
					}
				}
			}
			return outs
		})
	}
	m("bytes.Equal", func(c *callCtx) []Outcome {
		in := c.in
		return one(c, in.knownBool(c.st, in.eq(c.st, in.bytesText(c.st, c.args[0]), in.bytesText(c.st, c.args[1]))))
	})
	// reading into a buffer
	m("io.Copy", func(c *callCtx) []Outcome {
		in := c.in
		if c.args[0].K == KIface && types.TypeString(c.args[0].T, nil) == "*bytes.Buffer" && in.readText != nil {
			c2 := *c
			c2.args = []*Term{c.args[0].Args[0], c.args[1]}
			return models["(*bytes.Buffer).ReadFrom"](&c2)
		}
		if text, held := in.heldText(c.st, c.args[1]); held {
			return in.write(c, c.args[0], text)
		}
		return nil
	})
	m("(*bytes.Buffer).ReadFrom", func(c *callCtx) []Outcome {
		in := c.in
		r := c.args[1]
		if c.args[0].K != KAddr {
			return nil
		}
		text, sure := in.readAll(c.st, r)
		n := in.sop("readn", intT64, r)
		ok := c.st.clone()
		in.bufWrite(ok, c.args[0], text, c.pos)
		outs := []Outcome{{st: ok, res: []*Term{n, in.ts.Nil()}}}
		if sure && in.failMode && in.isStreamIn(r) { // a read error, after all the text even
			bad := c.st.clone()
			in.setFailed(bad, c)
			in.bufWrite(bad, c.args[0], text, c.pos)
			outs = append(outs, Outcome{st: bad, res: []*Term{n, in.mkErr("read", r)}})
		}
		if !sure {
			bad := c.st.clone()
			in.bufWrite(bad, c.args[0], in.ts.Top(strT, r), c.pos)
			outs = append(outs, Outcome{st: bad, res: []*Term{n, in.mkErr("read", r)}})
		}
		return outs
	})
	// --- wrapping writers
	wrap := func(c *callCtx) []Outcome {
		in := c.in
		T := deref(c.sig.Results().At(0).Type())
		o := in.alloc(c.st, c.instr, "wrapw", T, in.wrapState(c.args[0], "clean"))
		c.in.track(o)
		return one(c, in.ts.Addr(o.ID))
	}
	m("bufio.NewWriter bufio.NewWriterSize text/tabwriter.NewWriter", wrap)
	m("(*text/tabwriter.Writer).Init", func(c *callCtx) []Outcome {
		if c.args[0].K == KAddr {
			c.st.heap.set(c.args[0].Obj, c.in.wrapState(c.args[1], "clean"))
			c.in.track(c.in.objs[c.args[0].Obj])
			return one(c, c.args[0])
		}
		return nil
	})
	m("(*bufio.Writer).WriteString", func(c *callCtx) []Outcome { return c.in.wrapWrite(c, c.st, c.args[0], c.args[1]) })
	m("(*bufio.Writer).Write (*text/tabwriter.Writer).Write", func(c *callCtx) []Outcome {
		return c.in.wrapWrite(c, c.st, c.args[0], c.in.bytesText(c.st, c.args[1]))
	})
	m("(*bufio.Writer).Flush (*text/tabwriter.Writer).Flush", func(c *callCtx) []Outcome {
		in := c.in
		if c.args[0].K == KAddr {
			in.event(c.st, Event{Kind: "flush", Obj: c.args[0].Obj, Pos: c.pos})
			if v := in.content(c.st, c.args[0].Obj); v != nil && v.K == KOp && v.Op == "wrapw" && len(v.Args) > 1 {
				failed := v.Args[1].str() == "failed"
				c.st.heap.set(c.args[0].Obj, in.wrapState(v.Args[0], "clean"))
				if failed {
					return one(c, in.mkErr("flush"))
				}
			}
		}
		return one(c, in.ts.Nil())
	})
	// --- errors
	m("errors.New", func(c *callCtx) []Outcome { return one(c, c.in.mkErr("New", c.args[0])) })
	m("errors.Is", func(c *callCtx) []Outcome {
		return one(c, c.in.dist(c.args[0], func(e *Term) *Term {
			if e.K == KNil {
				return c.in.eq(c.st, c.args[1], c.in.ts.Nil())
			}
			if e == c.args[1] && !e.Imprec {
				return c.in.ts.Bool(true)
			}
			if differentErrs(e, c.args[1]) {
				return c.in.ts.Bool(false)
			}
			return c.in.sop("errors.Is", boolT, e, c.args[1])
		}))
	})
	m("errors.As", func(c *callCtx) []Outcome {
		c.in.havocArgs(c.st, c.args[1:])
		if c.args[0].K == KNil {
			return one(c, c.in.ts.Bool(false))
		}
		return one(c, c.in.ts.Top(boolT))
	})
	m("errors.Unwrap", func(c *callCtx) []Outcome {
		return one(c, c.in.op("errors.Unwrap", c.sig.Results().At(0).Type(), c.args[0]))
	})
	m("errors.Join", func(c *callCtx) []Outcome {
		in := c.in
		es, ok := in.elems(c.st, c.args[0])
		if !ok {
			return one(c, in.ts.Top(c.sig.Results().At(0).Type(), c.args[0]))
		}
		may, must := false, false
		var unk *Term
		for _, e := range es {
			t, f := in.feasible(c.st, in.eq(c.st, e, in.ts.Nil()))
			if f {
				may = true
				unk = e
			}
			if !t {
				must = true
			}
		}
		if must {
			return one(c, in.mkErr("Join", es...))
		}
		if !may {
			return one(c, in.ts.Nil())
		}
		if len(es) == 1 {
			return one(c, unk)
		}
		return one(c, in.ts.Choice(in.ts.Nil(), in.mkErr("Join", es...)))
	})
	m("(error).Error", func(c *callCtx) []Outcome { return one(c, c.in.sop("errtext", strT, c.args[0])) })
	// --- strings
	m("strings.Contains", func(c *callCtx) []Outcome { return c.strPred(c.name, c.in.containsConst) })
	m("strings.HasPrefix", func(c *callCtx) []Outcome { return c.strPred(c.name, c.in.hasPrefixT) })
	m("strings.HasSuffix", func(c *callCtx) []Outcome { return c.strPred(c.name, c.in.hasSuffixT) })
	m("strings.ContainsRune", func(c *callCtx) []Outcome {
		if c.args[1].isInt() {
			c.args = []*Term{c.args[0], c.in.ts.Str(string(rune(c.args[1].int())))}
			return c.strPred("strings.Contains", c.in.containsConst)
		}
		return nil
	})
	m("strings.ContainsAny", func(c *callCtx) []Outcome {
		if !c.args[1].isStr() {
			return nil
		}
		in := c.in
		return one(c, distStr(in, c.args[0], func(x *Term) *Term {
			unk := false
			for _, r := range c.args[1].str() {
				b := in.containsConst(x, string(r))
				if b == nil {
					unk = true
				} else if *b {
					return in.ts.Bool(true)
				}
			}
			if !unk {
				return in.ts.Bool(false)
			}
			if len(c.args[1].str()) == 1 {
				return in.knownBool(c.st, in.sop("strings.Contains", boolT, x, c.args[1]))
			}
			return in.knownBool(c.st, in.sop(c.name, boolT, x, c.args[1]))
		}))
	})
	m("strings.Split", func(c *callCtx) []Outcome { return c.split(-1) })
	m("strings.SplitN", func(c *callCtx) []Outcome {
		if !c.args[2].isInt() {
			return nil
		}
		return c.split(int(c.args[2].int()))
	})
	m("strings.Cut", func(c *callCtx) []Outcome { return c.cut(false) })
	m("strings.CutPrefix strings.CutSuffix", func(c *callCtx) []Outcome {
		in := c.in
		pre := c.name == "strings.CutPrefix"
		x, y := c.args[0], c.args[1]
		if x.K == KChoice || !y.isStr() {
			return nil
		}
		var h *bool
		hp := "strings.HasSuffix"
		if pre {
			h = in.hasPrefixT(x, y.str())
			hp = "strings.HasPrefix"
		} else {
			h = in.hasSuffixT(x, y.str())
		}
		tr := c.trimFix(pre)
		if h != nil {
			return one(c, tr, in.ts.Bool(*h))
		}
		cond := in.sop(hp, boolT, x, y)
		return c.okErr([]*Term{tr, in.ts.Bool(true)}, cond, []*Term{x, in.ts.Bool(false)})
	})
	m("strings.TrimPrefix", func(c *callCtx) []Outcome { return one(c, c.trimFix(true)) })
	m("strings.TrimSuffix", func(c *callCtx) []Outcome { return one(c, c.trimFix(false)) })
	trim := func(l, r bool) model {
		return func(c *callCtx) []Outcome {
			in := c.in
			return one(c, distStr(in, c.args[0], func(x *Term) *Term {
				f := isSpace
				if len(c.args) > 1 {
					if !c.args[1].isStr() {
						return in.sop(c.name, strT, x, c.args[1])
					}
					cs := c.args[1].str()
					f = func(r rune) bool { return strings.ContainsRune(cs, r) }
				}
				if t, ok := in.trimT(x, f, l, r); ok {
					return t
				}
				return in.sop(c.name, strT, append([]*Term{x}, c.args[1:]...)...)
			}))
		}
	}
	m("strings.TrimSpace strings.Trim", trim(true, true))
	m("strings.TrimLeft", trim(true, false))
	m("strings.TrimRight", trim(false, true))
	m("strings.TrimFunc strings.TrimLeftFunc strings.TrimRightFunc", func(c *callCtx) []Outcome {
		in := c.in
		if c.args[1].K == KClosure && fnName(c.args[1].Fn) == "unicode.IsSpace" {
			l := c.name != "strings.TrimRightFunc"
			r := c.name != "strings.TrimLeftFunc"
			cc := *c
			cc.args = c.args[:1]
			if l && r {
				cc.name = "strings.TrimSpace"
			}
			return trim(l, r)(&cc)
		}
		// a predicate of the program: evaluated on each ASCII character
		if c.args[1].K == KClosure {
			memo := map[rune]bool{}
			known, space := true, true
			pred := func(r rune) bool {
				if v, ok := memo[r]; ok {
					return v
				}
				outs := in.callTerm(nil, c.st.clone(), c.instr, c.args[1], []*Term{in.ts.Int(int64(r))}, c.args[1].Fn.Signature)
				if len(outs) != 1 || !outs[0].res[0].isBool() {
					known = false
					return false
				}
				memo[r] = constBool(outs[0].res[0])
				return memo[r]
			}
			for r := rune(0); r < 128 && known; r++ {
				if pred(r) != isSpace(r) {
					space = false
				}
			}
			if known {
				l := c.name != "strings.TrimRightFunc"
				rt := c.name != "strings.TrimLeftFunc"
				if space {
					cc := *c
					cc.args = c.args[:1]
					if l && rt {
						cc.name = "strings.TrimSpace"
					}
					return trim(l, rt)(&cc)
				}
				return one(c, distStr(in, c.args[0], func(x *Term) *Term {
					if t, ok := in.trimT(x, pred, l, rt); ok {
						return t
					}
					return in.sop(c.name, strT, x, c.args[1])
				}))
			}
		}
		return one(c, in.sop(c.name, strT, c.args...))
	})
	idx := func(c *callCtx) []Outcome {
		in := c.in
		sep := c.args[1]
		if sep.isInt() {
			sep = in.ts.Str(string(rune(sep.int())))
		}
		return one(c, distStr(in, c.args[0], func(x *Term) *Term {
			if constStrs(x, sep) {
				if strings.Contains(c.name, "LastIndex") {
					return in.ts.Int(int64(strings.LastIndex(x.str(), sep.str())))
				}
				return in.ts.Int(int64(strings.Index(x.str(), sep.str())))
			}
			last := strings.Contains(c.name, "Last")
			if sep.isStr() {
				b := in.containsConst(x, sep.str())
				if b != nil && !*b {
					return in.ts.Int(-1)
				}
				if b != nil {
					n := 2
					find := strings.Index
					if last {
						n, find = -1, strings.LastIndex
					}
					if ps, ok := in.splitT(x, sep.str(), n); ok && len(ps) >= 2 {
						// position as (piece, offset)
						all := pieces(x)
						for j := range all {
							k := j
							if last {
								k = len(all) - 1 - j
							}
							if p := all[k]; p.isStr() {
								if o := find(p.str(), sep.str()); o >= 0 {
									return in.ts.intern(&Term{K: KOp, Op: "pos", Args: []*Term{x, in.ts.Int(int64(k)), in.ts.Int(int64(o))}, T: intT})
								}
							}
						}
					}
				}
			}
			n := "strings.Index"
			if strings.Contains(c.name, "LastIndex") {
				n = "strings.LastIndex"
			}
			return in.resolve(c.st, in.sop(n, intT, x, sep), nil)
		}))
	}
	m("strings.IndexAny strings.LastIndexAny", func(c *callCtx) []Outcome {
		if a := c.args[1]; a.isStr() && len(a.str()) == 1 {
			return idx(c)
		}
		in := c.in
		return one(c, distStr(in, c.args[0], func(x *Term) *Term {
			if constStrs(x, c.args[1]) {
				if strings.Contains(c.name, "LastIndex") {
					return in.ts.Int(int64(strings.LastIndexAny(x.str(), c.args[1].str())))
				}
				return in.ts.Int(int64(strings.IndexAny(x.str(), c.args[1].str())))
			}
			return in.resolve(c.st, in.sop(c.name, intT, x, c.args[1]), nil)
		}))
	})
	m("strings.Index strings.LastIndex strings.IndexByte strings.IndexRune strings.LastIndexByte", idx)
	m("strings.ToLower strings.ToUpper", func(c *callCtx) []Outcome {
		return one(c, distStr(c.in, c.args[0], func(x *Term) *Term {
			if x.isStr() {
				if c.name == "strings.ToLower" {
					return c.in.ts.Str(strings.ToLower(x.str()))
				}
				return c.in.ts.Str(strings.ToUpper(x.str()))
			}
			if x.K == KCat {
				var ps []*Term
				for _, p := range x.Args {
					if p.isStr() && c.name == "strings.ToLower" {
						p = c.in.ts.Str(strings.ToLower(p.str()))
					} else if p.isStr() {
						p = c.in.ts.Str(strings.ToUpper(p.str()))
					} else {
						p = c.in.sop(c.name, strT, p)
					}
					ps = append(ps, p)
				}
				return c.in.ts.Cat(ps...)
			}
			return c.in.sop(c.name, strT, x)
		}))
	})
	m("strings.EqualFold", func(c *callCtx) []Outcome {
		in := c.in
		return one(c, distStr(in, c.args[0], func(x *Term) *Term {
			return distStr(in, c.args[1], func(y *Term) *Term {
				x, y := in.revealedT(x), in.revealedT(y)
				if constStrs(x, y) {
					return in.ts.Bool(strings.EqualFold(x.str(), y.str()))
				}
				if y.isStr() {
					in.ask(x, 'f', y.str())
				}
				if x.isStr() {
					in.ask(y, 'f', x.str())
				}
				if in.attrOf(x).Generic && y.isStr() || in.attrOf(y).Generic && x.isStr() {
					return in.ts.Bool(false)
				}
				return in.knownBool(c.st, in.sop(c.name, boolT, x, y))
			})
		}))
	})
	m("strings.Replace strings.ReplaceAll", func(c *callCtx) []Outcome {
		in := c.in
		return one(c, distStr(in, c.args[0], func(x *Term) *Term {
			if constStrs(x, c.args[1], c.args[2]) && (len(c.args) < 4 || c.args[3].isInt()) {
				n := -1
				if len(c.args) > 3 {
					n = int(c.args[3].int())
				}
				return in.ts.Str(strings.Replace(x.str(), c.args[1].str(), c.args[2].str(), n))
			}
			if c.args[1].isStr() {
				if b := in.containsConst(x, c.args[1].str()); b != nil && !*b {
					return x
				}
				if len(c.args) < 4 || c.args[3].isInt() && c.args[3].int() < 0 {
					if ps, ok := in.splitT(x, c.args[1].str(), -1); ok {
						var out []*Term
						for i, p := range ps {
							if i > 0 {
								out = append(out, c.args[2])
							}
							out = append(out, p)
						}
						return in.ts.Cat(out...)
					}
				}
			}
			return in.sop("strings.Replace", strT, append([]*Term{x}, c.args[1:]...)...)
		}))
	})
	// a character mapping of the program, evaluated on each ASCII character
	m("strings.Map", func(c *callCtx) []Outcome {
		in := c.in
		f := c.args[0]
		if f.K == KClosure {
			for _, n := range []string{"Lower", "Upper"} {
				if fnName(f.Fn) == "unicode.To"+n {
					cc := *c
					cc.name, cc.args = "strings.To"+n, c.args[1:]
					return models[cc.name](&cc)
				}
			}
		}
		if f.K != KClosure || f.Fn.Blocks == nil {
			return nil
		}
		to := map[rune]rune{}
		same, lower, upper := true, true, true
		probe := []rune{0x80, 0xa0, 0xe9, 0x3b1, 0x4e00, 0xfffd, 0x1f600}
		for r := rune(0); r < 128; r++ {
			probe = append(probe, r)
		}
		for _, r := range probe {
			outs := in.callTerm(nil, c.st.clone(), c.instr, f, []*Term{in.ts.Int(int64(r))}, f.Fn.Signature)
			if len(outs) != 1 || !outs[0].res[0].isInt() {
				return nil
			}
			v := rune(outs[0].res[0].int())
			if r >= 128 && v != r {
				return nil
			}
			to[r] = v
			same = same && v == r
			lower = lower && v == unicode.ToLower(r)
			upper = upper && v == unicode.ToUpper(r)
		}
		if same {
			return one(c, c.args[1])
		}
		for n, is := range map[string]bool{"strings.ToLower": lower, "strings.ToUpper": upper} {
			if is {
				cc := *c
				cc.name, cc.args = n, c.args[1:]
				return models[n](&cc)
			}
		}
		return one(c, distStr(in, c.args[1], func(x *Term) *Term {
			var out []*Term
			for _, p := range pieces(x) {
				if p.isStr() {
					out = append(out, in.ts.Str(strings.Map(func(r rune) rune {
						if v, ok := to[r]; ok {
							return v
						}
						return r
					}, p.str())))
					continue
				}
				for r, v := range to {
					if r != v {
						if h := in.containsConst(p, string(r)); h == nil || *h {
							return in.sop("strings.Map", strT, x, f)
						}
					}
				}
				out = append(out, p)
			}
			return in.ts.Cat(out...)
		}))
	})
	m("strings.NewReplacer", func(c *callCtx) []Outcome {
		es, ok := c.in.elems(c.st, c.args[0])
		if !ok || len(es)%2 != 0 {
			return nil
		}
		for _, e := range es {
			if !e.isStr() || e.str() == "" && len(es) > 0 && e == es[0] {
				return nil
			}
		}
		return one(c, c.in.ts.intern(&Term{K: KOp, Op: "nn!replacer", Args: es, T: c.sig.Results().At(0).Type()}))
	})
	m("(*strings.Replacer).Replace", func(c *callCtx) []Outcome {
		in := c.in
		r := c.args[0]
		if r.K != KOp || r.Op != "nn!replacer" {
			return nil
		}
		var ss []string
		for _, e := range r.Args {
			ss = append(ss, e.str())
		}
		rep := strings.NewReplacer(ss...)
		return one(c, distStr(in, c.args[1], func(x *Term) *Term {
			var out []*Term
			for _, p := range pieces(x) {
				if p.isStr() {
					out = append(out, in.ts.Str(rep.Replace(p.str())))
					continue
				}
				for i := 0; i < len(ss); i += 2 {
					if b := in.containsConst(p, ss[i]); b == nil || *b {
						return in.sop("strings.Replace", strT, x, r)
					}
				}
				out = append(out, p)
			}
			return in.ts.Cat(out...)
		}))
	})
	m("strings.Join", func(c *callCtx) []Outcome {
		in := c.in
		var outs []*Term
		for _, s := range alts(c.args[0]) {
			es, ok := in.elems(c.st, s)
			if !ok {
				outs = append(outs, in.sop("strings.Join", strT, s, c.args[1]))
				continue
			}
			var ps []*Term
			for i, e := range es {
				if i > 0 {
					ps = append(ps, c.args[1])
				}
				ps = append(ps, e)
			}
			outs = append(outs, in.ts.Cat(ps...))
		}
		return one(c, in.ts.Choice(outs...))
	})
	m("strings.Repeat", func(c *callCtx) []Outcome {
		if c.args[0].isStr() && c.args[1].isInt() && c.args[1].int() >= 0 && c.args[1].int() < 1000 {
			return one(c, c.in.ts.Str(strings.Repeat(c.args[0].str(), int(c.args[1].int()))))
		}
		return nil
	})
	m("strings.Count", func(c *callCtx) []Outcome {
		in := c.in
		if !c.args[1].isStr() {
			return nil
		}
		return one(c, distStr(in, c.args[0], func(x *Term) *Term {
			if ps, ok := in.splitT(x, c.args[1].str(), -1); ok {
				return in.ts.Int(int64(len(ps) - 1))
			}
			return in.sop(c.name, intT, x, c.args[1])
		}))
	})
	m("strings.Fields", func(c *callCtx) []Outcome {
		in := c.in
		x := c.args[0]
		sl := types.NewSlice(strT)
		if x.K != KChoice && in.allGeneric(pieces(x)) {
			var es []*Term
			var cur []*Term
			flush := func() {
				if len(cur) > 0 {
					es = append(es, in.ts.Cat(cur...))
					cur = nil
				}
			}
			for _, p := range pieces(x) {
				if !p.isStr() {
					cur = append(cur, p)
					continue
				}
				word := ""
				for _, r := range p.str() {
					if isSpace(r) {
						if word != "" {
							cur = append(cur, in.ts.Str(word))
							word = ""
						}
						flush()
						continue
					}
					word += string(r)
				}
				if word != "" {
					cur = append(cur, in.ts.Str(word))
				}
			}
			flush()
			return one(c, in.newSlice(c.st, c.instr, "fields", sl, es))
		}
		return one(c, in.sop(c.name, sl, x))
	})
	// strings.Compare / cmp.Compare
	m("strings.Compare", func(c *callCtx) []Outcome {
		if constStrs(c.args...) {
			return one(c, c.in.ts.Int(int64(strings.Compare(c.args[0].str(), c.args[1].str()))))
		}
		if c.in.rank != nil && c.args[0] == c.args[1] {
			return one(c, c.in.ts.Int(0))
		}
		if c.in.rank != nil {
			if r, ok := c.in.rankLess(c.args[0], c.args[1]); ok {
				if r {
					return one(c, c.in.ts.Int(-1))
				}
				return one(c, c.in.ts.Int(1))
			}
		}
		return one(c, c.in.sop(c.name, intT, c.args...))
	})
	m("strings.NewReader bytes.NewReader", func(c *callCtx) []Outcome {
		in := c.in
		t := c.args[0]
		if c.name == "bytes.NewReader" {
			t = in.bytesText(c.st, t)
		}
		return one(c, in.ts.intern(&Term{K: KOp, Op: "nn!reader", Args: []*Term{t}, T: c.sig.Results().At(0).Type()}))
	})
	m("io.ReadAll io/ioutil.ReadAll", func(c *callCtx) []Outcome {
		in := c.in
		r := c.args[0]
		if r.K == KIface && r.Args[0].K == KOp && r.Args[0].Op == "nn!reader" {
			return one(c, in.mkBytes(r.Args[0].Args[0]), in.ts.Nil())
		}
		if r.K == KIface && types.TypeString(r.T, nil) == "*bytes.Buffer" {
			return one(c, in.mkBytes(in.bufText(c.st, r.Args[0])), in.ts.Nil())
		}
		text, sure := in.readAll(c.st, r)
		if sure {
			outs := []Outcome{{st: c.st, res: []*Term{in.mkBytes(text), in.ts.Nil()}}}
			if in.failMode && in.isStreamIn(r) {
				bad := c.st.clone()
				in.setFailed(bad, c)
				outs = append(outs, Outcome{st: bad, res: []*Term{in.mkBytes(text), in.mkErr("read", r)}})
			}
			return outs
		}
		cond := in.sop("readable", boolT, r)
		return c.okErr([]*Term{in.mkBytes(text), in.ts.Nil()}, cond, []*Term{in.ts.Top(types.NewSlice(types.Typ[types.Byte]), r), in.mkErr("read", r)})
	})
	// --- strconv
	m("strconv.Itoa", func(c *callCtx) []Outcome { return one(c, c.in.itoa(c.args[0])) })
	m("strconv.FormatInt strconv.FormatUint", func(c *callCtx) []Outcome {
		if c.args[1].isInt() && c.args[1].int() == 10 {
			return one(c, c.in.itoa(c.args[0]))
		}
		return nil
	})
	m("strconv.Quote", func(c *callCtx) []Outcome {
		if c.args[0].isStr() {
			return one(c, c.in.ts.Str(strconv.Quote(c.args[0].str())))
		}
		return one(c, c.in.sop("fmt:%q", strT, c.args[0]))
	})
	m("strconv.Unquote", func(c *callCtx) []Outcome {
		in := c.in
		return c.okErr([]*Term{in.sop("unquote", strT, c.args[0]), in.ts.Nil()}, in.sop("isquoted", boolT, c.args[0]), []*Term{in.ts.Str(""), in.mkErr("unquote")})
	})
	m("strconv.FormatBool", func(c *callCtx) []Outcome {
		return one(c, c.in.dist(c.args[0], func(b *Term) *Term {
			if b.isBool() {
				return c.in.ts.Str(strconv.FormatBool(constBool(b)))
			}
			return c.in.op("fmtbool", strT, b)
		}))
	})
	atoi := func(c *callCtx) []Outcome {
		in := c.in
		var outs []Outcome
		for _, x := range alts(c.args[0]) {
			if x.isStr() {
				n, err := strconv.ParseInt(x.str(), 10, 64)
				if err == nil {
					outs = append(outs, Outcome{st: c.st.clone(), res: []*Term{in.ts.Int(n), in.ts.Nil()}})
				} else {
					outs = append(outs, Outcome{st: c.st.clone(), res: []*Term{in.ts.Int(0), in.mkErr("atoi", x)}})
				}
				continue
			}
			if x.K == KOp && x.Op == "itoa" {
				outs = append(outs, Outcome{st: c.st.clone(), res: []*Term{x.Args[0], in.ts.Nil()}})
				continue
			}
			cc := *c
			v := in.sop("atoi", intT, x)
			cond := in.sop("isint", boolT, x)
			if in.attrOf(x).Int {
				cond = in.ts.Bool(true)
			} else if in.attrOf(x).Generic {
				cond = in.ts.Bool(false)
			}
			outs = append(outs, cc.okErr([]*Term{v, in.ts.Nil()}, cond, []*Term{in.ts.Int(0), in.mkErr("atoi", x)})...)
		}
		return outs
	}
	m("strconv.Atoi", atoi)
	m("strconv.ParseInt strconv.ParseUint", func(c *callCtx) []Outcome {
		if c.args[1].isInt() && c.args[1].int() == 10 {
			return atoi(c)
		}
		return nil
	})
	m("strconv.ParseBool", func(c *callCtx) []Outcome {
		in := c.in
		x := c.args[0]
		if x.isStr() {
			b, err := strconv.ParseBool(x.str())
			if err != nil {
				return one(c, in.ts.Bool(false), in.mkErr("parsebool", x))
			}
			return one(c, in.ts.Bool(b), in.ts.Nil())
		}
		return c.okErr([]*Term{in.sop("parsebool", boolT, x), in.ts.Nil()}, in.sop("isbool", boolT, x), []*Term{in.ts.Bool(false), in.mkErr("parsebool", x)})
	})
	// --- sorting
	m("sort.Slice sort.SliceStable sort.Strings sort.Ints sort.Sort sort.Stable slices.Sort slices.SortFunc slices.SortStableFunc slices.Reverse", func(c *callCtx) []Outcome {
		if c.in.sorting && len(alts(c.args[0])) == 1 {
			if o := c.doSort(); o != nil {
				return o
			}
			c.in.unsupported("order of "+c.name, c.pos)
		}
		c.permute(c.args[0])
		return one(c)
	})
	m("sort.SliceIsSorted sort.StringsAreSorted slices.IsSorted slices.IsSortedFunc", func(c *callCtx) []Outcome { return one(c, c.in.ts.Top(boolT)) })
	m("sort.Reverse", func(c *callCtx) []Outcome { return one(c, c.args[0]) })
	m("slices.Clone", func(c *callCtx) []Outcome {
		in := c.in
		return one(c, in.dist(c.args[0], func(s *Term) *Term {
			if s.K == KNil {
				return s
			}
			es, ok := in.elems(c.st, s)
			if ok {
				return in.newSlice(c.st, c.instr, fmt.Sprintf("clone%d.", s.ID), c.sig.Results().At(0).Type(), append([]*Term(nil), es...))
			}
			if s.K == KTop {
				return s
			}
			return in.ts.intern(&Term{K: KOp, Op: "copyof", Args: []*Term{s}, T: s.T})
		}))
	})
	m("maps.Clone", func(c *callCtx) []Outcome {
		in := c.in
		return one(c, in.dist(c.args[0], func(s *Term) *Term {
			if s.K == KAddr {
				o := in.alloc(c.st, c.instr, "mapclone", in.objs[s.Obj].T, in.content(c.st, s.Obj))
				return in.ts.Addr(o.ID)
			}
			return s
		}))
	})
	// --- regexp
	m("regexp.MustCompile regexp.Compile", func(c *callCtx) []Outcome {
		in := c.in
		if c.args[0].isStr() {
			if _, err := regexp.Compile(c.args[0].str()); err != nil {
				if c.name == "regexp.MustCompile" {
					in.alarm("panic", c.pos, "regexp does not compile")
					return []Outcome{}
				}
				return one(c, in.ts.Nil(), in.mkErr("regexp"))
			}
			t := in.ts.intern(&Term{K: KOp, Op: "nn!regexp", Args: []*Term{c.args[0]}, T: c.sig.Results().At(0).Type()})
			if c.sig.Results().Len() == 2 {
				return one(c, t, in.ts.Nil())
			}
			return one(c, t)
		}
		if c.name == "regexp.MustCompile" {
			in.alarm("panic", c.pos, "regexp.MustCompile on a computed pattern")
		}
		t := in.ts.intern(&Term{K: KOp, Op: "nn!regexp", Args: []*Term{c.args[0]}, T: c.sig.Results().At(0).Type()})
		if c.sig.Results().Len() == 2 {
			return c.okErr([]*Term{t, in.ts.Nil()}, in.sop("validre", boolT, c.args[0]), []*Term{in.ts.Nil(), in.mkErr("regexp")})
		}
		return one(c, t)
	})
	m("(*regexp.Regexp).MatchString", func(c *callCtx) []Outcome {
		in := c.in
		r := c.args[0]
		return one(c, distStr(in, c.args[1], func(x *Term) *Term {
			if r.K == KOp && r.Op == "nn!regexp" && constStrs(r.Args[0], x) {
				return in.ts.Bool(regexp.MustCompile(r.Args[0].str()).MatchString(x.str()))
			}
			return in.knownBool(c.st, in.sop(c.name, boolT, r, x))
		}))
	})
	m("(*regexp.Regexp).ReplaceAllString (*regexp.Regexp).FindString", func(c *callCtx) []Outcome {
		if r := c.args[0]; r.K == KOp && r.Op == "nn!regexp" && r.Args[0].isStr() && strings.HasSuffix(c.name, "ReplaceAllString") && c.args[2].isStr() && c.args[2].str() == "" {
			if t := c.in.dropClass(r.Args[0].str(), c.args[1]); t != nil {
				return one(c, t)
			}
		}
		return one(c, c.in.sop(c.name, strT, c.args...))
	})
	// --- JSON
	m("encoding/json.Unmarshal", func(c *callCtx) []Outcome { return c.in.modelUnmarshal(c, c.in.bytesText(c.st, c.args[0]), c.args[1]) })
	m("sigs.k8s.io/yaml.Unmarshal", func(c *callCtx) []Outcome {
		if !c.in.jsonMode {
			return nil
		}
		return c.in.jUnmarshalCall(c, c.in.bytesText(c.st, c.args[0]), c.args[1], true)
	})
	m("sigs.k8s.io/yaml.Marshal", func(c *callCtx) []Outcome {
		if !c.in.jsonMode {
			return nil
		}
		return c.in.jMarshalCall(c, c.args[0], true)
	})
	enc := func(c *callCtx) []Outcome {
		in := c.in
		v := c.args[0]
		var t *Term
		if in.jsonMode {
			return in.jMarshalCall(c, v, false)
		}
		if v.Imprec && v.K == KTop {
			t = in.ts.Top(strT, v)
		} else {
			t = in.ts.intern(&Term{K: KOp, Op: "jsonenc", Args: []*Term{v}, T: strT})
			if v.K == KIface {
				inner := v.Args[0]
				if inner.K == KAddr { // pointer to a struct: encode its content
					cur := in.load(c.st, inner, deref(v.T), c.pos)
					t = in.ts.intern(&Term{K: KOp, Op: "jsonenc", Args: []*Term{in.ts.Iface(deref(v.T), cur)}, T: strT})
				}
				if isStringType(v.T) {
					t = distStr(in, inner, func(x *Term) *Term {
						return in.ts.intern(&Term{K: KOp, Op: "jsonenc", Args: []*Term{x}, T: strT})
					})
				}
			}
		}
		if v.K == KIface && isStringType(v.T) {
			return one(c, in.mkBytes(t), in.ts.Nil())
		}
		return c.okErr([]*Term{in.mkBytes(t), in.ts.Nil()}, in.sop("jsonable", boolT, v), []*Term{in.ts.Nil(), in.mkErr("json.Marshal")})
	}
	m("encoding/json.Marshal encoding/json.MarshalIndent", enc)
	m("encoding/json.Valid", func(c *callCtx) []Outcome {
		return one(c, c.in.knownBool(c.st, c.in.sop("jsonvalid", boolT, c.in.bytesText(c.st, c.args[0]))))
	})
	m("encoding/json.NewDecoder", func(c *callCtx) []Outcome {
		in := c.in
		r := c.args[0]
		text, _ := in.readAll(c.st, r)
		if r.K == KIface && r.Args[0].K == KOp && r.Args[0].Op == "nn!reader" {
			text = r.Args[0].Args[0]
		}
		if r.K == KIface && types.TypeString(r.T, nil) == "*bytes.Buffer" {
			text = in.bufText(c.st, r.Args[0])
		}
		return one(c, in.ts.intern(&Term{K: KOp, Op: "nn!decoder", Args: []*Term{text, r}, T: c.sig.Results().At(0).Type()}))
	})
	m("(*encoding/json.Decoder).Decode", func(c *callCtx) []Outcome {
		if c.args[0].K == KOp && c.args[0].Op == "nn!decoder" {
			if in := c.in; in.failMode && in.isStreamIn(c.args[0].Args[1]) {
				bad := c.st.clone()
				in.setFailed(bad, c)
				return append(in.modelUnmarshal(c, c.args[0].Args[0], c.args[1]), Outcome{st: bad, res: []*Term{in.mkErr("read", c.args[0].Args[1])}})
			}
			return c.in.modelUnmarshal(c, c.args[0].Args[0], c.args[1])
		}
		return nil
	})
	m("encoding/json.NewEncoder", func(c *callCtx) []Outcome {
		return one(c, c.in.ts.intern(&Term{K: KOp, Op: "nn!encoder", Args: []*Term{c.args[0]}, T: c.sig.Results().At(0).Type()}))
	})
	m("(*encoding/json.Encoder).SetIndent (*encoding/json.Encoder).SetEscapeHTML (*encoding/json.Decoder).DisallowUnknownFields (*encoding/json.Decoder).UseNumber", func(c *callCtx) []Outcome {
		if c.args[0].K == KOp && c.args[0].Op == "nn!encoder" && len(c.args) > 1 {
			var as []string
			for _, a := range c.args[1:] {
				as = append(as, termText(a))
			}
			if w := c.args[0].Args[0]; w.K == KLabel {
				c.in.event(c.st, Event{Kind: "json-opt", Aux: c.name[strings.LastIndexByte(c.name, '.')+1:] + "(" + strings.Join(as, ",") + ")", Pos: c.pos})
			}
		}
		return one(c)
	})
	m("(*encoding/json.Encoder).Encode", func(c *callCtx) []Outcome {
		if c.args[0].K != KOp || c.args[0].Op != "nn!encoder" {
			return nil
		}
		in := c.in
		cc := *c
		cc.args = []*Term{c.args[1]}
		outs := enc(&cc)
		var res []Outcome
		for _, o := range outs {
			if o.res[1].K != KNil {
				res = append(res, Outcome{st: o.st, res: []*Term{o.res[1]}})
				continue
			}
			c2 := *c
			c2.st = o.st
			for _, w := range in.write(&c2, c.args[0].Args[0], in.ts.Cat(in.bytesText(o.st, o.res[0]), in.ts.Str("\n"))) {
				res = append(res, Outcome{st: w.st, res: []*Term{w.res[1]}})
			}
		}
		return res
	})
	// --- bufio.Scanner over a stream of lines
	m("bufio.NewScanner", func(c *callCtx) []Outcome {
		in := c.in
		T := deref(c.sig.Results().At(0).Type())
		o := in.alloc(c.st, c.instr, "scanner", T, in.ts.intern(&Term{K: KOp, Op: "scan", Args: []*Term{in.ts.Int(0), c.args[0]}}))
		return one(c, in.ts.Addr(o.ID))
	})
	m("(*bufio.Scanner).Buffer", func(c *callCtx) []Outcome {
		in := c.in
		p := c.args[0]
		if p.K != KAddr || !c.args[2].isInt() {
			return nil
		}
		v := in.content(c.st, p.Obj)
		if v.K != KOp || v.Op != "scan" {
			return nil
		}
		if c.args[2].int() >= longestLine {
			c.st.heap.set(p.Obj, in.ts.intern(&Term{K: KOp, Op: "scan", Args: append(append([]*Term(nil), v.Args[:2]...), c.args[2])}))
		}
		return one(c)
	})
	m("(*bufio.Scanner).Split", func(c *callCtx) []Outcome {
		if f := c.args[1]; f.K == KClosure && f.Fn != nil && f.Fn.String() == "bufio.ScanLines" {
			return one(c)
		}
		return nil
	})
	addLineReaders(m)
	m("(*bufio.Scanner).Scan", func(c *callCtx) []Outcome {
		in := c.in
		p := c.args[0]
		if in.failMode && in.lines != nil {
			bad := c.st.clone()
			in.setFailed(bad, c)
			c2 := *c
			c2.in.failMode = false
			outs := models["(*bufio.Scanner).Scan"](&c2)
			in.failMode = true
			return append(outs, Outcome{st: bad, res: []*Term{in.ts.Bool(false)}})
		}
		if p.K == KAddr {
			v := in.content(c.st, p.Obj)
			if lines := in.scanLines(c.st, v); v.K == KOp && v.Op == "scan" && v.Args[0].isInt() && lines != nil {
				n := v.Args[0].int()
				if int(n) >= len(lines) || in.fs.failing(in, c, "Scan") || in.isLong(n) && len(v.Args) < 3 {
					return one(c, in.ts.Bool(false))
				}
				c.st.heap.set(p.Obj, in.ts.intern(&Term{K: KOp, Op: "scan", Args: append([]*Term{in.ts.Int(n + 1)}, v.Args[1:]...)}))
				return one(c, in.ts.Bool(true))
			}
			if v.K == KOp && v.Op == "scan" && v.Args[0].isInt() {
				n := v.Args[0].int()
				s2 := c.st.clone()
				c.st.heap.set(p.Obj, in.ts.intern(&Term{K: KOp, Op: "scan", Args: []*Term{in.ts.Int(n + 1), v.Args[1]}}))
				return []Outcome{{st: c.st, res: []*Term{in.ts.Bool(true)}}, {st: s2, res: []*Term{in.ts.Bool(false)}}}
			}
		}
		s2 := c.st.clone()
		return []Outcome{{st: c.st, res: []*Term{in.ts.Bool(true)}}, {st: s2, res: []*Term{in.ts.Bool(false)}}}
	})
	m("(*bufio.Scanner).Text (*bufio.Scanner).Bytes", func(c *callCtx) []Outcome {
		in := c.in
		p := c.args[0]
		r := in.ts.Top(strT)
		if p.K == KAddr {
			v := in.content(c.st, p.Obj)
			if v.K == KOp && v.Op == "scan" && v.Args[0].isInt() {
				n := v.Args[0].int()
				if lines := in.scanLines(c.st, v); lines != nil && n >= 1 && int(n) <= len(lines) {
					r = lines[n-1]
				} else if lines == nil {
					r = in.op("line", strT, v.Args[1], v.Args[0])
				}
			}
		}
		if strings.HasSuffix(c.name, "Bytes") {
			return one(c, in.mkBytes(r))
		}
		return one(c, r)
	})
	m("(*bufio.Scanner).Err", func(c *callCtx) []Outcome {
		in := c.in
		if in.failMode {
			if in.hasFailed(c.st) {
				return one(c, in.mkErr("scan"))
			}
			return one(c, in.ts.Nil())
		}
		if c.args[0].K == KAddr {
			if v := in.content(c.st, c.args[0].Obj); v.K == KOp && v.Op == "scan" && len(v.Args) < 3 && v.Args[0].isInt() && in.isLong(v.Args[0].int()) {
				return one(c, in.mkErr("var:bufio.ErrTooLong"))
			}
		}
		if in.lines != nil {
			return one(c, in.ts.Nil())
		}
		if in.fs != nil {
			if in.fs.fail["Scan"] {
				return one(c, in.mkErr("scan"))
			}
			return one(c, in.ts.Nil())
		}
		return one(c, in.op("scanerr", c.sig.Results().At(0).Type(), c.args[0]))
	})
	// --- misc
	m("time.Now", func(c *callCtx) []Outcome {
		c.in.event(c.st, Event{Kind: "clock", Pos: c.pos})
		return one(c, c.in.op("time.Now", c.sig.Results().At(0).Type()))
	})
	m("unicode.IsSpace", func(c *callCtx) []Outcome {
		if c.args[0].isInt() {
			return one(c, c.in.ts.Bool(isSpace(rune(c.args[0].int()))))
		}
		return nil
	})
	addReflectModels(func(n string, f model) { models[n] = f })
	addConvModels(func(n string, f model) { models[n] = f })
	_ = ssa.NaiveForm
}

// dropClass removes all runs of the characters of a class from a text of
// constants and inputs made of word characters.
func (in *Interp) dropClass(pat string, t *Term) *Term {
	re, err := syntax.Parse(pat, syntax.Perl)
	if err != nil {
		return nil
	}
	re = re.Simplify()
	for re.Op == syntax.OpPlus || re.Op == syntax.OpStar || re.Op == syntax.OpCapture {
		re = re.Sub[0]
	}
	if re.Op != syntax.OpCharClass {
		return nil
	}
	one := regexp.MustCompile(pat)
	var out []*Term
	for _, p := range pieces(t) {
		if p.isStr() {
			out = append(out, in.ts.Str(one.ReplaceAllString(p.str(), "")))
			continue
		}
		if p.K != KLabel || !in.attrOf(p).Word || one.MatchString(wordChars) {
			return nil
		}
		out = append(out, p)
	}
	return in.ts.Cat(out...)
}
