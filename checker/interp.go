package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func sortValues(l []ssa.Value) {
	sort.Slice(l, func(i, j int) bool {
		a, b := l[i], l[j]
		if a.Pos() != b.Pos() {
			return a.Pos() < b.Pos()
		}
		return a.Name() < b.Name()
	})
}

type Alarm struct {
	Kind string
	Pos  token.Pos
	Fn   *ssa.Function
	Ctx  string
	Msg  string
}

type Outcome struct {
	st  *State
	res []*Term
}

type callCtx struct {
	in     *Interp
	fr     *frame
	instr  ssa.CallInstruction
	callee *ssa.Function // nil for invoke/dynamic
	name   string
	args   []*Term
	st     *State
	sig    *types.Signature
	pos    token.Pos
}

type model func(c *callCtx) []Outcome

// Interp is the abstract interpreter.
type Interp struct {
	P            *Program
	ts           *Terms
	objs         []*Obj
	objKey       map[string]int
	oracle       func(t *Term) *Term // scenario-supplied shape of an opaque input
	attr         func(t *Term) Attr
	intrinsics   map[string]model
	trackType    func(t types.Type) bool
	trackStrings bool
	trackOrder   bool
	interpret    func(fn *ssa.Function) bool
	checkNil     bool

	alarms     map[string]*Alarm
	unsup      map[string]bool
	stack      []*frame
	steps      int
	maxStep    int
	fnInfos    map[*ssa.Function]*fnInfo
	visited    map[*ssa.Function]int
	trace      bool
	recLimit   int
	rankText   bool // rank inputs by their names
	noAlias    bool // objects of the input are different objects
	unroll     int
	extCalls   map[string]int
	globInit   map[*ssa.Package]bool
	recStop    bool // give up when recLimit is reached
	recursed   map[string]int
	longLine   int     // which of them is longer than any bound, from 1
	lines      []*Term // text of an input stream, line by line (nil: unknown)
	failMode   bool    // streams may fail
	failObj    int
	tracked    []int
	shapeMode  bool  // lists are not followed
	keepText   bool  // the whole output of a stream is kept, in order
	jsonMode   bool  // JSON texts are trees
	convMode   bool  // the conversion library is modelled
	readText   *Term // what every reader yields
	fs         *fsModel
	rank       map[string]int                                   // order of the inputs, where the scenario fixes one
	mapRev     bool                                             // range over maps from the last entry to the first
	callLabel  func(st *State, f *Term, args []*Term) []Outcome // calls of function values of the input
	sorting    bool                                             // sorting sorts
	rankSum    bool                                             // digests are ordered (by term)
	maxParts   int                                              // states kept apart at one point
	intVals    map[[2]int]map[int64]bool
	lineCanon  func(t *Term) *Term // identifies lines that differ in form only
	initing    bool
	overBudget bool
	job        *caseJob // the case this run belongs to
	sat        int
}

// Attr describes what a scenario assumes about an opaque string.
type Attr struct {
	Generic   bool // a token equal to, containing and starting with none of the program's constants; non-empty
	NonEmpty  bool
	MultiLine bool     // contains "\n"; otherwise generic
	Has       []string // substrings it contains (implies the rest is generic)
	Distinct  bool     // different from every other distinct token
	HasKeys   bool     // map: every looked-up key is present
	Int       bool     // parses as an integer
	Lacks     []string // substrings it does not contain
	Trimmed   bool     // no white space at either end
	Word      bool     // letters, digits, dots and hyphens only
}

const wordChars = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789.-"

// lacks reports that no occurrence of sep lies within the token.
func (a Attr) lacks(sep string) bool {
	if a.Word && strings.Trim(sep, wordChars) != "" {
		return true
	}
	for _, l := range a.Lacks {
		if strings.Contains(sep, l) {
			return true
		}
	}
	return false
}

type frame struct {
	fn   *ssa.Function
	fi   *fnInfo
	args []*Term
	bind []*Term
	call ssa.CallInstruction
	ps   *pstate         // the path being followed
	blk  *ssa.BasicBlock // the block it is in
}

type pstate struct {
	st     *State
	env    map[ssa.Value]*Term
	defers []deferred
}

type deferred struct {
	instr *ssa.Defer
	fn    *Term
	args  []*Term
}

func NewInterp(P *Program) *Interp {
	in := &Interp{P: P, ts: newTerms(), objs: []*Obj{nil}, objKey: map[string]int{}, alarms: map[string]*Alarm{}, unsup: map[string]bool{},
		maxStep: 60_000_000, intVals: map[[2]int]map[int64]bool{}, maxParts: 96, fnInfos: P.fnInfos, visited: map[*ssa.Function]int{}, recLimit: 2, unroll: 3, extCalls: map[string]int{}, globInit: map[*ssa.Package]bool{}, recursed: map[string]int{}}
	in.intrinsics = map[string]model{}
	in.job = currentJob()
	return in
}

func (in *Interp) info(fn *ssa.Function) *fnInfo {
	in.P.mu.Lock()
	defer in.P.mu.Unlock()
	fi := in.fnInfos[fn]
	if fi == nil {
		fi = analyseFn(fn)
		in.fnInfos[fn] = fi
	}
	return fi
}

func (in *Interp) stackString() string {
	var ss []string
	for _, f := range in.stack {
		ss = append(ss, f.fn.Name())
	}
	return strings.Join(ss, ">")
}

func (in *Interp) alarm(kind string, pos token.Pos, msg string) {
	if in.initing {
		return
	}
	var fn *ssa.Function
	if len(in.stack) > 0 {
		fn = in.stack[len(in.stack)-1].fn
	}
	k := fmt.Sprintf("%s|%d|%v", kind, pos, fn)
	if in.alarms[k] == nil {
		in.alarms[k] = &Alarm{Kind: kind, Pos: pos, Fn: fn, Ctx: in.stackString(), Msg: msg}
	}
}

func (in *Interp) unsupported(what string, pos token.Pos) {
	in.unsup[what+" at "+in.P.Pos(pos)] = true
}

// ---- objects

func (in *Interp) newObj(key, name string, t types.Type) *Obj {
	if id, ok := in.objKey[key]; ok {
		return in.objs[id]
	}
	o := &Obj{ID: len(in.objs), Name: name, T: t}
	in.objs = append(in.objs, o)
	in.objKey[key] = o.ID
	return o
}

// allocation of a local object at an instruction
func (in *Interp) alloc(st *State, site ssa.Instruction, tag string, t types.Type, val *Term) *Obj {
	key := fmt.Sprintf("alloc|%p|%s", site, tag)
	n := st.cnt[key]
	lim := 4000
	if in.inSaturated() {
		lim = 3
	}
	if n >= lim {
		n = lim
	} else {
		st.setCnt(key, n+1)
	}
	o := in.allocObj(key, n, &Obj{Name: tag + "@" + in.P.Pos(site.Pos()), T: t, Site: site})
	if old, exists := st.heap.get2(o.ID); exists {
		st.setSum(o.ID)
		st.heap.set(o.ID, in.joinVal(old, val))
	} else {
		st.heap.set(o.ID, val)
	}
	return o
}

func (in *Interp) allocObj(key string, n int, like *Obj) *Obj {
	name, _, _ := strings.Cut(like.Name, "#")
	o := in.newObj(fmt.Sprintf("%s|%d", key, n), fmt.Sprintf("%s#%d", name, n), like.T)
	o.Site, o.allocKey = like.Site, key
	if in.trackType != nil && in.trackType(o.T) {
		in.track(o)
	}
	return o
}

func (in *Interp) inSaturated() bool { return in.satDepth() > 0 }

func (in *Interp) satDepth() int { return in.sat }

// inputObj creates (once) an input object with an initial content.
func (in *Interp) inputObj(key, name string, t types.Type, init *Term) *Obj {
	if id, ok := in.objKey[key]; ok {
		return in.objs[id]
	}
	o := in.newObj(key, name, t)
	o.Input = true
	o.Init = init
	return o
}

// ---- opaque terms

func (in *Interp) Label(name string, t types.Type) *Term {
	r := in.ts.intern(&Term{K: KLabel, Op: name, T: t})
	return in.shape(r)
}

func (in *Interp) shape(r *Term) *Term {
	if in.oracle != nil {
		if s := in.oracle(r); s != nil {
			return s
		}
	}
	return r
}

func (in *Interp) op(name string, t types.Type, args ...*Term) *Term {
	r := in.ts.intern(&Term{K: KOp, Op: name, Args: args, T: t})
	if isPathTerm(r) {
		return in.shape(r)
	}
	return r
}

// dist applies f over the alternatives of t.
func (in *Interp) dist(t *Term, f func(*Term) *Term) *Term {
	if t.K != KChoice {
		return f(t)
	}
	var out []*Term
	for _, a := range t.Args {
		out = append(out, f(a))
	}
	return in.ts.Choice(out...)
}

func (in *Interp) expand(t *Term, typ types.Type) *Term {
	switch u := typ.Underlying().(type) {
	case *types.Struct:
		fs := make([]*Term, u.NumFields())
		for i := range fs {
			fs[i] = in.field(t, i, typ)
		}
		return in.ts.Struct(typ, fs)
	case *types.Array:
		if u.Len() > 256 {
			return nil
		}
		fs := make([]*Term, u.Len())
		for i := range fs {
			fs[i] = in.op(fmt.Sprintf("[%d]", i), u.Elem(), t)
		}
		return in.ts.Struct(typ, fs)
	}
	return nil
}

func (in *Interp) field(t *Term, i int, typ types.Type) *Term {
	return in.dist(t, func(t *Term) *Term {
		switch t.K {
		case KStruct:
			if i < len(t.Args) {
				return t.Args[i]
			}
		case KTop:
			return in.ts.Top(fieldType(typ, i), t)
		}
		if st, ok := typ.Underlying().(*types.Struct); ok {
			f := st.Field(i)
			return in.op("."+f.Name(), f.Type(), t)
		}
		return in.op(fmt.Sprintf("[%d]", i), elemType(typ), t)
	})
}

func fieldType(t types.Type, i int) types.Type {
	if t == nil {
		return nil
	}
	if st, ok := t.Underlying().(*types.Struct); ok {
		return st.Field(i).Type()
	}
	return elemType(t)
}

func elemType(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Pointer:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	case *types.Basic:
		return types.Typ[types.Byte]
	}
	return nil
}

func deref(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

func (in *Interp) zero(t types.Type) *Term {
	ts := in.ts
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return ts.Str("")
		case u.Info()&types.IsBoolean != 0:
			return ts.Bool(false)
		case u.Info()&types.IsInteger != 0:
			return ts.Int(0)
		case u.Info()&types.IsFloat != 0:
			return ts.Const(constant.MakeFloat64(0))
		}
		return ts.Nil()
	case *types.Struct:
		fs := make([]*Term, u.NumFields())
		for i := range fs {
			fs[i] = in.zero(u.Field(i).Type())
		}
		return ts.Struct(t, fs)
	case *types.Array:
		if u.Len() > 4096 {
			return ts.Top(t)
		}
		fs := make([]*Term, u.Len())
		z := in.zero(u.Elem())
		for i := range fs {
			fs[i] = z
		}
		return ts.Struct(t, fs)
	case *types.Tuple:
		var fs []*Term
		for i := 0; i < u.Len(); i++ {
			fs = append(fs, in.zero(u.At(i).Type()))
		}
		return ts.Tuple(fs...)
	}
	return ts.Nil()
}

// ---- memory

// places resolves a pointer term into object places.
type place struct {
	obj  int
	path []int
}

func (in *Interp) places(st *State, p *Term, elem types.Type, pos token.Pos, what string) []place {
	var out []place
	as := alts(p)
	for _, a := range as {
		switch a.K {
		case KAddr:
			out = append(out, place{a.Obj, a.Path})
		case KNil:
			in.alarm("nil-deref", pos, what+": nil pointer")
		case KTop:
			if a.Op != "nn" {
				in.alarm("nil-deref", pos, what+": pointer may be nil: "+a.String())
			}
			o := in.derefObj(a, elem)
			out = append(out, place{o.ID, nil})
		default:
			if e := in.eq(st, a, in.ts.Nil()); !(e.isBool() && !constBool(e)) {
				in.alarm("nil-deref", pos, what+": pointer may be nil: "+a.String())
			}
			o := in.derefObj(a, elem)
			out = append(out, place{o.ID, nil})
		}
	}
	return out
}

func (in *Interp) derefObj(p *Term, elem types.Type) *Obj {
	key := fmt.Sprintf("deref|%d", p.ID)
	if id, ok := in.objKey[key]; ok {
		return in.objs[id]
	}
	o := in.newObj(key, "*"+p.String(), elem)
	o.Input = true
	if p.K == KTop {
		o.Init = in.ts.Top(elem, p)
	} else {
		o.Init = in.op("*", elem, p)
	}
	return o
}

func (in *Interp) proj(v *Term, path []int, typ types.Type) *Term {
	for _, s := range path {
		ft := fieldType(typ, max(s, 0))
		if s < 0 { // unknown element
			v = in.dist(v, func(v *Term) *Term {
				if v.K == KStruct {
					if len(v.Args) == 0 {
						return in.ts.Top(ft)
					}
					return in.ts.Choice(v.Args...)
				}
				return in.ts.Top(ft, v)
			})
		} else {
			v = in.field(v, s, typ)
		}
		typ = ft
	}
	return v
}

func (in *Interp) load(st *State, p *Term, elem types.Type, pos token.Pos) *Term {
	var out []*Term
	for _, pl := range in.places(st, p, elem, pos, "load") {
		o := in.objs[pl.obj]
		v := in.content(st, pl.obj)
		if v == nil {
			continue
		}
		out = append(out, in.proj(v, pl.path, o.T))
	}
	if len(out) == 0 {
		return in.ts.Top(elem)
	}
	return in.ts.Choice(out...)
}

func (in *Interp) update(v *Term, path []int, typ types.Type, nv *Term, weak bool) *Term {
	if len(path) == 0 {
		if weak {
			return in.joinVal(v, nv)
		}
		return nv
	}
	if v.K != KStruct {
		e := in.expand(v, typ)
		if e == nil {
			return in.ts.Top(typ, v, nv)
		}
		v = e
	}
	s := path[0]
	fs := append([]*Term(nil), v.Args...)
	ft := fieldType(typ, max(s, 0))
	if s < 0 {
		for i := range fs {
			fs[i] = in.update(fs[i], path[1:], ft, nv, true)
		}
	} else if s < len(fs) {
		fs[s] = in.update(fs[s], path[1:], ft, nv, weak)
	}
	return in.ts.Struct(v.T, fs)
}

func (in *Interp) store(st *State, p, nv *Term, elem types.Type, pos token.Pos) {
	pls := in.places(st, p, elem, pos, "store")
	weak := len(pls) > 1
	for _, pl := range pls {
		o := in.objs[pl.obj]
		v := in.content(st, pl.obj)
		if v == nil {
			continue
		}
		w := weak || st.sum[pl.obj]
		u := in.update(v, pl.path, o.T, nv, w)
		if o.Input && !in.initing {
			in.event(st, Event{Kind: "write-input", Obj: pl.obj, Aux: o.Name + fmt.Sprint(pl.path), Pos: pos})
		}
		st.heap.set(pl.obj, u)
	}
}

// ---- evaluation of registers

func constBool(t *Term) bool { return t.isBool() && constant.BoolVal(t.C) }

func (in *Interp) constTerm(c *ssa.Const) *Term {
	if c.Value == nil {
		return in.zero(c.Type())
	}
	if c.Value.Kind() == constant.Float {
		if b, ok := c.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			return in.ts.Const(constant.ToInt(c.Value))
		}
	}
	if b, ok := c.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 && c.Value.Kind() == constant.Int {
		return in.ts.Str(constant.StringVal(c.Value))
	}
	return in.ts.Const(c.Value)
}

func (in *Interp) get(fr *frame, ps *pstate, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		return in.constTerm(v)
	case *ssa.Function:
		return in.ts.intern(&Term{K: KClosure, Fn: v, T: v.Type()})
	case *ssa.Builtin:
		return in.ts.Nil()
	case *ssa.Global:
		return in.ts.Addr(in.global(v).ID)
	case *ssa.Parameter:
		for i, p := range fr.fn.Params {
			if p == v {
				return in.resolve(ps.st, fr.args[i], ps.env[v])
			}
		}
	case *ssa.FreeVar:
		for i, p := range fr.fn.FreeVars {
			if p == v {
				return in.resolve(ps.st, fr.bind[i], ps.env[v])
			}
		}
	}
	t := ps.env[v]
	if t == nil {
		in.unsupported("unset register "+v.Name()+" in "+fr.fn.String(), v.Pos())
		t = in.ts.Top(v.Type())
	}
	return in.resolve(ps.st, t, nil)
}

func (in *Interp) resolve(st *State, t, override *Term) *Term {
	if override != nil {
		t = override
	}
	if r, ok := st.known.get2(t.ID); ok {
		return r
	}
	return t
}

func (in *Interp) global(g *ssa.Global) *Obj {
	key := "global|" + g.String()
	if id, ok := in.objKey[key]; ok {
		return in.objs[id]
	}
	t := deref(g.Type())
	o := in.newObj(key, g.String(), t)
	o.Input, o.Glob = true, true
	if g.Pkg != nil && in.P.inRepo(g.Pkg.Pkg) || g.Pkg != nil && strings.HasPrefix(g.Pkg.Pkg.Path(), "github.com/spdx/gordf") {
		o.Init = in.zero(t)
		in.initPackage(g.Pkg)
	} else if types.Identical(t, types.Universe.Lookup("error").Type()) {
		o.Init = in.mkErr("var:" + g.String())
	} else {
		o.Init = in.ts.intern(&Term{K: KLabel, Op: g.String(), T: t})
	}
	return o
}

// initPackage evaluates a package's initialiser abstractly, once.
func (in *Interp) initPackage(p *ssa.Package) {
	if in.globInit[p] {
		return
	}
	in.globInit[p] = true
	f := p.Func("init")
	if f == nil || len(f.Blocks) == 0 {
		return
	}
	savedInit, savedStack, savedSat := in.initing, in.stack, in.sat
	in.initing = true
	in.stack = nil
	in.sat = 0
	outs := in.callFn(f, nil, nil, newState(), nil)
	in.initing, in.stack, in.sat = savedInit, savedStack, savedSat
	if len(outs) == 0 {
		return
	}
	st := outs[0].st
	for _, o := range outs[1:] {
		st = in.joinState(st, o.st, false)
	}
	for id, v := range st.heap.all() {
		o := in.objs[id]
		o.Init = v
		o.Input = true
		o.Glob = true
	}
}

// ---- main loop

type nodeKey struct {
	b    *ssa.BasicBlock
	iter string // iteration vector
}

type node struct {
	key    nodeKey
	iters  []int // per loop depth
	sort   []int
	parts  map[string]*partEntry
	queued bool
	sat    bool
}

type partEntry struct {
	ps      *pstate
	pending bool
	visits  int
}

func (in *Interp) callFn(fn *ssa.Function, args, bind []*Term, st *State, call ssa.CallInstruction) []Outcome {
	if len(fn.Blocks) == 0 {
		in.unsupported("function without body "+fn.String(), fn.Pos())
		return nil
	}
	in.visited[fn]++
	fi := in.info(fn)
	fr := &frame{fn: fn, fi: fi, args: args, bind: bind, call: call}
	in.stack = append(in.stack, fr)
	savedSat := in.sat
	defer func() { in.stack = in.stack[:len(in.stack)-1]; in.sat = savedSat }()

	if in.trace {
		fmt.Fprintf(os.Stderr, "%*scall %s%v\n", len(in.stack), "", fn.Name(), args)
	}

	nodes := map[nodeKey]*node{}
	var queue []*node
	outs := map[string]*Outcome{}
	var outOrder []string

	loopsOf := func(b *ssa.BasicBlock) []*loopInfo {
		var l []*loopInfo
		for x := fi.loopOf[b]; x != nil; x = x.parent {
			l = append([]*loopInfo{x}, l...)
		}
		return l
	}
	undec := map[string]int{} // loop instance -> undecided exits seen

	getNode := func(b *ssa.BasicBlock, iters []int) *node {
		var sb strings.Builder
		for _, i := range iters {
			sb.WriteString(strconv.Itoa(i))
			sb.WriteByte('.')
		}
		k := nodeKey{b, sb.String()}
		n := nodes[k]
		if n == nil {
			n = &node{key: k, iters: iters, parts: map[string]*partEntry{}}
			for i, l := range loopsOf(b) {
				n.sort = append(n.sort, fi.pos[l.header], iters[i])
				if iters[i] >= 1_000_000 {
					n.sat = true
					in.job.saturated()
				}
			}
			n.sort = append(n.sort, fi.pos[b])
			nodes[k] = n
		}
		return n
	}
	less := func(a, b *node) bool {
		x, y := a.sort, b.sort
		for i := 0; i < len(x) && i < len(y); i++ {
			if x[i] != y[i] {
				return x[i] < y[i]
			}
		}
		return len(x) < len(y)
	}

	enqueue := func(n *node, ps *pstate) {
		pk := ""
		if in.outerHeader(fi, n.key.b) {
			pk = in.coarseKey(ps.st)
		} else {
			pk = in.partKey(fr, n.key.b, ps)
		}
		if _, ok := n.parts[pk]; !ok && len(n.parts) >= in.maxParts {
			pk = "overflow"
		}
		e := n.parts[pk]
		if e == nil {
			n.parts[pk] = &partEntry{ps: ps, pending: true}
		} else if e.pending {
			e.ps = in.joinPS(e.ps, ps, false)
		} else {
			// already processed: join and reprocess if it changed
			j := in.joinPS(e.ps, ps, e.visits > 2)
			if in.samePS(e.ps, j) {
				return
			}
			e.ps = j
			e.pending = true
		}
		if !n.queued {
			n.queued = true
			queue = append(queue, n)
		}
	}

	// transfer along an edge
	goTo := func(from *node, b, s *ssa.BasicBlock, ps *pstate) {
		// iteration vector of the successor
		lb, ls := []*loopInfo(nil), loopsOf(s)
		if b != nil {
			lb = loopsOf(b)
		}
		iters := make([]int, len(ls))
		for i, l := range ls {
			if i < len(lb) && lb[i] == l {
				iters[i] = from.iters[i]
				if s == l.header && i == len(ls)-1 { // back edge
					if iters[i] < 1_000_000 {
						iters[i]++
						key := fmt.Sprint(fi.pos[l.header], from.iters[:i])
						if undec[key] >= in.unroll || iters[i] > maxRounds {
							iters[i] = 1_000_000
						}
					}
				}
			} else {
				iters[i] = 0
			}
		}
		np := &pstate{st: ps.st, env: map[ssa.Value]*Term{}, defers: ps.defers}
		lv := fi.live[s]
		for _, ins := range s.Instrs {
			p, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			for k, pr := range s.Preds {
				if pr == b {
					np.env[p] = in.get(fr, ps, p.Edges[k])
					break
				}
			}
		}
		for v := range lv {
			if t, ok := ps.env[v]; ok {
				if _, isPhi := np.env[v]; !isPhi {
					np.env[v] = t
				}
			}
		}
		if in.outerHeader(fi, s) {
			in.canon(fr, np)
		}
		enqueue(getNode(s, iters), np)
	}

	entry := &pstate{st: st, env: map[ssa.Value]*Term{}}
	goTo(nil, nil, fn.Blocks[0], entry)

	for len(queue) > 0 {
		// pick smallest
		bi := 0
		for i := 1; i < len(queue); i++ {
			if less(queue[i], queue[bi]) {
				bi = i
			}
		}
		n := queue[bi]
		queue = append(queue[:bi], queue[bi+1:]...)
		n.queued = false
		if n.sat && !(in.shapeMode && in.topLoop()) {
			in.sat = savedSat + 1
		} else {
			in.sat = savedSat
		}
		var keys []string
		for k, e := range n.parts {
			if e.pending {
				keys = append(keys, k)
			}
		}
		sort.Strings(keys)
		for _, k := range keys {
			e := n.parts[k]
			e.pending = false
			e.visits++
			if e.visits > 60 {
				in.unsupported("fixpoint does not stabilise in "+fn.String(), fn.Pos())
				continue
			}
			ps := &pstate{st: e.ps.st.clone(), env: cloneEnv(e.ps.env), defers: e.ps.defers}
			in.runBlock(fr, n.key.b, 0, ps, func(ps *pstate, term ssa.Instruction) {
				b := n.key.b
				switch t := term.(type) {
				case *ssa.Jump:
					goTo(n, b, b.Succs[0], ps)
				case *ssa.If:
					c := in.get(fr, ps, t.Cond)
					tOK, fOK := in.feasible(ps.st, c)
					if tOK && fOK {
						// undecided exit from a loop?
						for i, l := range loopsOf(b) {
							if l.blocks[b.Succs[0]] != l.blocks[b.Succs[1]] {
								undec[fmt.Sprint(fi.pos[l.header], n.iters[:i])]++
							}
						}
					}
					if tOK {
						p2 := ps
						if fOK {
							p2 = &pstate{st: ps.st.clone(), env: cloneEnv(ps.env), defers: ps.defers}
						}
						if in.assume(fr, p2, t.Cond, c, true) {
							goTo(n, b, b.Succs[0], p2)
						}
					}
					if fOK {
						if in.assume(fr, ps, t.Cond, c, false) {
							goTo(n, b, b.Succs[1], ps)
						}
					}
				case *ssa.Return:
					var res []*Term
					for _, r := range t.Results {
						res = append(res, in.get(fr, ps, r))
					}
					k := in.outKey(ps.st, res)
					if o := outs[k]; o != nil {
						o.st = in.joinState(o.st, ps.st, false)
						for i := range res {
							o.res[i] = in.joinVal(o.res[i], res[i])
						}
					} else {
						outs[k] = &Outcome{st: ps.st, res: res}
						outOrder = append(outOrder, k)
					}
				case *ssa.Panic:
					in.alarm("panic", t.Pos(), "explicit panic reachable")
				}
			})
			if in.steps > in.maxStep {
				in.overBudget = true
				in.job.saturated()
				in.unsupported("step budget exhausted in "+fn.String(), fn.Pos())
				return nil
			}
		}
	}
	var res []Outcome
	for _, k := range outOrder {
		res = append(res, *outs[k])
	}
	return res
}

func cloneEnv(e map[ssa.Value]*Term) map[ssa.Value]*Term {
	n := make(map[ssa.Value]*Term, len(e)+8)
	for k, v := range e {
		n[k] = v
	}
	return n
}

func (in *Interp) joinPS(a, b *pstate, widen bool) *pstate {
	n := &pstate{st: in.joinState(a.st, b.st, widen), env: map[ssa.Value]*Term{}}
	for k, v := range a.env {
		if w, ok := b.env[k]; ok {
			n.env[k] = in.joinW(v, w, widen)
		}
	}
	n.defers = a.defers
	if len(b.defers) > len(a.defers) {
		n.defers = b.defers
	}
	return n
}

func (in *Interp) samePS(a, b *pstate) bool {
	if len(a.env) != len(b.env) {
		return false
	}
	for k, v := range a.env {
		if b.env[k] != v {
			return false
		}
	}
	return sameState(a.st, b.st)
}

func (in *Interp) partKey(fr *frame, b *ssa.BasicBlock, ps *pstate) string {
	var sb strings.Builder
	for _, v := range fr.fi.liveL[b] {
		t := ps.env[v]
		if t == nil {
			continue
		}
		switch u := v.Type().Underlying().(type) {
		case *types.Pointer, *types.Interface:
			sb.WriteString(in.small(ps.st, in.resolve(ps.st, t, nil), false))
		case *types.Basic:
			if u.Info()&types.IsBoolean != 0 {
				sb.WriteString(in.small(ps.st, in.resolve(ps.st, t, nil), false))
			}
			// texts chosen together stay together
			if _, phi := v.(*ssa.Phi); phi && t.isStr() && u.Info()&types.IsString != 0 && len(fr.fi.headers) == 0 {
				fmt.Fprintf(&sb, "%s=%q;", v.Name(), t.str())
			}
		}
	}
	sb.WriteByte('|')
	sb.WriteString(in.fingerprint(ps.st))
	return sb.String()
}

// outerHeader: b heads a loop that is not itself called from a loop.
func (in *Interp) outerHeader(fi *fnInfo, b *ssa.BasicBlock) bool {
	return in.shapeMode && !in.initing && in.topLoop() && fi.loopOf[b] != nil && fi.loopOf[b].header == b
}

// topLoop: no caller of the current function is inside a loop.
func (in *Interp) topLoop() bool {
	if in.initing {
		return false
	}
	for _, f := range in.stack[:len(in.stack)-1] {
		if f.blk != nil && f.fi.loopOf[f.blk] != nil {
			return false
		}
	}
	return true
}

// coarseKey keeps the integer fields of the tracked objects only.
func (in *Interp) coarseKey(st *State) string {
	var b strings.Builder
	for _, id := range in.tracked {
		v := st.heap.get(id)
		if v == nil || v.K != KStruct {
			continue
		}
		for i, f := range v.Args {
			if f.K == KConst && f.isInt() {
				// a counter is not a state
				k := [2]int{id, i}
				if in.intVals[k] == nil {
					in.intVals[k] = map[int64]bool{}
				}
				if len(in.intVals[k]) <= 16 {
					in.intVals[k][f.int()] = true
				}
				if len(in.intVals[k]) > 16 {
					continue
				}
				fmt.Fprintf(&b, "%d.%d=%s,", id, i, f.C.ExactString())
			}
		}
	}
	return b.String()
}

func (in *Interp) outKey(st *State, res []*Term) string {
	var sb strings.Builder
	for _, t := range res {
		if t.K == KConst && !t.isBool() || t.K == KStruct {
			sb.WriteString("v")
			continue
		}
		sb.WriteString(in.small(st, in.resolve(st, t, nil), false))
	}
	sb.WriteByte('|')
	sb.WriteString(in.fingerprint(st))
	return sb.String()
}

// runBlock executes instructions from index i; k receives each state that
// reaches the terminator.
func (in *Interp) runBlock(fr *frame, b *ssa.BasicBlock, i int, ps *pstate, k func(*pstate, ssa.Instruction)) {
	fr.ps, fr.blk = ps, b
	for ; i < len(b.Instrs); i++ {
		in.steps++
		if in.steps > in.maxStep {
			return
		}
		ins := b.Instrs[i]
		switch t := ins.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.Jump, *ssa.If, *ssa.Return, *ssa.Panic:
			k(ps, ins)
			return
		case *ssa.Call:
			outs := in.doCall(fr, ps, t)
			for j, o := range outs {
				np := ps
				if j < len(outs)-1 {
					np = &pstate{st: o.st, env: cloneEnv(ps.env), defers: ps.defers}
				} else {
					np.st = o.st
				}
				np.env[t] = packResults(in, t.Type(), o.res)
				in.runBlock(fr, b, i+1, np, k)
			}
			return
		case *ssa.RunDefers:
			sts := []*pstate{ps}
			for d := len(ps.defers) - 1; d >= 0; d-- {
				var next []*pstate
				for _, q := range sts {
					c := ps.defers[d]
					outs := in.applyDeferred(fr, q, c)
					for j, o := range outs {
						np := q
						if j < len(outs)-1 {
							np = &pstate{st: o.st, env: cloneEnv(q.env)}
						} else {
							np.st = o.st
						}
						next = append(next, np)
					}
				}
				sts = next
			}
			for _, q := range sts {
				q.defers = nil
				in.runBlock(fr, b, i+1, q, k)
			}
			return
		case *ssa.Defer:
			d := deferred{instr: t}
			d.fn, d.args = in.evalCallee(fr, ps, &t.Call)
			ps.defers = append(append([]deferred(nil), ps.defers...), d)
		case *ssa.TypeAssert:
			if t.CommaOk {
				// split on success so that the value and the flag stay correlated
				outs := in.typeAssert(fr, ps, t)
				for j, o := range outs {
					np := ps
					if j < len(outs)-1 {
						np = &pstate{st: o.st, env: cloneEnv(ps.env), defers: ps.defers}
					} else {
						np.st = o.st
					}
					np.env[t] = in.ts.Tuple(o.res...)
					in.runBlock(fr, b, i+1, np, k)
				}
				return
			}
			outs := in.typeAssert(fr, ps, t)
			if len(outs) == 0 {
				return
			}
			var vs []*Term
			for _, o := range outs {
				vs = append(vs, o.res[0])
			}
			ps.env[t] = in.ts.Choice(vs...)
		case *ssa.Lookup:
			if t.CommaOk || isMap(t.X.Type()) {
				outs := in.lookup(fr, ps, t)
				for j, o := range outs {
					np := ps
					if j < len(outs)-1 {
						np = &pstate{st: o.st, env: cloneEnv(ps.env), defers: ps.defers}
					} else {
						np.st = o.st
					}
					if t.CommaOk {
						np.env[t] = in.ts.Tuple(o.res...)
					} else {
						np.env[t] = o.res[0]
					}
					in.runBlock(fr, b, i+1, np, k)
				}
				return
			}
			ps.env[t] = in.strIndex(fr, ps, in.get(fr, ps, t.X), in.get(fr, ps, t.Index), t.Type(), t.Pos())
		case *ssa.Next:
			outs := in.next(fr, ps, t)
			for j, o := range outs {
				np := ps
				if j < len(outs)-1 {
					np = &pstate{st: o.st, env: cloneEnv(ps.env), defers: ps.defers}
				} else {
					np.st = o.st
				}
				np.env[t] = in.ts.Tuple(o.res...)
				in.runBlock(fr, b, i+1, np, k)
			}
			return
		default:
			in.exec(fr, ps, ins)
		}
	}
}

func isMap(t types.Type) bool { _, ok := t.Underlying().(*types.Map); return ok }

func packResults(in *Interp, t types.Type, res []*Term) *Term {
	if tp, ok := t.(*types.Tuple); ok {
		if tp.Len() == 1 && len(res) == 1 {
			return res[0]
		}
		return in.ts.Tuple(res...)
	}
	if len(res) == 0 {
		return in.ts.Tuple()
	}
	return res[0]
}

func (in *Interp) exec(fr *frame, ps *pstate, ins ssa.Instruction) {
	ts := in.ts
	get := func(v ssa.Value) *Term { return in.get(fr, ps, v) }
	switch t := ins.(type) {
	case *ssa.Alloc:
		et := deref(t.Type())
		o := in.alloc(ps.st, t, "new", et, in.zero(et))
		ps.env[t] = ts.Addr(o.ID)
	case *ssa.BinOp:
		in.askLimit(t.Parent(), t.X, t.Y)
		ps.env[t] = in.binop(ps.st, t.Op, get(t.X), get(t.Y), t.X.Type(), t.Type())
	case *ssa.UnOp:
		x := get(t.X)
		switch t.Op {
		case token.MUL:
			ps.env[t] = in.load(ps.st, x, t.Type(), t.Pos())
		case token.NOT:
			ps.env[t] = in.not(x)
		case token.SUB:
			if x.isInt() {
				ps.env[t] = ts.Const(constant.UnaryOp(token.SUB, x.C, 0))
			} else {
				ps.env[t] = in.op("neg", t.Type(), x)
			}
		case token.ARROW:
			in.unsupported("channel receive", t.Pos())
			ps.env[t] = ts.Top(t.Type())
		default:
			ps.env[t] = in.op("u"+t.Op.String(), t.Type(), x)
		}
	case *ssa.ChangeInterface:
		ps.env[t] = get(t.X)
	case *ssa.ChangeType:
		ps.env[t] = get(t.X)
	case *ssa.Convert, *ssa.MultiConvert:
		var x ssa.Value
		if c, ok := t.(*ssa.Convert); ok {
			x = c.X
		} else {
			x = t.(*ssa.MultiConvert).X
		}
		ps.env[t.(ssa.Value)] = in.convert(get(x), x.Type(), t.(ssa.Value).Type(), ps.st)
	case *ssa.SliceToArrayPointer:
		in.unsupported("slice to array pointer", t.Pos())
		ps.env[t] = ts.Top(t.Type())
	case *ssa.Extract:
		x := get(t.Tuple)
		ps.env[t] = in.dist(x, func(x *Term) *Term {
			if x.K == KTuple && t.Index < len(x.Args) {
				return in.resolve(ps.st, x.Args[t.Index], nil)
			}
			return in.ts.Top(t.Type(), x)
		})
	case *ssa.Field:
		ps.env[t] = in.field(get(t.X), t.Field, t.X.Type())
	case *ssa.FieldAddr:
		x := get(t.X)
		st := deref(t.X.Type())
		var out []*Term
		for _, pl := range in.places(ps.st, x, st, t.Pos(), "field "+st.Underlying().(*types.Struct).Field(t.Field).Name()) {
			out = append(out, ts.intern(&Term{K: KAddr, Obj: pl.obj, Path: append(append([]int(nil), pl.path...), t.Field)}))
		}
		if len(out) == 0 {
			ps.env[t] = in.nonNilTop(ts.Top(t.Type()))
		} else {
			ps.env[t] = ts.Choice(out...)
		}
		in.noteNonNil(fr, ps, t.X, x)
	case *ssa.Index:
		ps.env[t] = in.strIndex(fr, ps, get(t.X), get(t.Index), t.Type(), t.Pos())
	case *ssa.IndexAddr:
		ps.env[t] = in.indexAddr(ps, get(t.X), get(t.Index), t.X.Type(), t.Type(), t.Pos())
	case *ssa.MakeInterface:
		ps.env[t] = in.makeIface(t.X.Type(), get(t.X))
	case *ssa.MakeClosure:
		var bs []*Term
		for _, b := range t.Bindings {
			bs = append(bs, get(b))
		}
		ps.env[t] = ts.intern(&Term{K: KClosure, Fn: t.Fn.(*ssa.Function), Args: bs, T: t.Type()})
	case *ssa.MakeMap:
		o := in.alloc(ps.st, t, "map", t.Type(), ts.intern(&Term{K: KMapVal, T: t.Type()}))
		ps.env[t] = ts.Addr(o.ID)
	case *ssa.MakeSlice:
		n := get(t.Len)
		if n.isInt() && n.int() <= 4096 {
			ps.env[t] = in.newSlice(ps.st, t, "make", t.Type(), repeat(in.zero(elemType(t.Type())), int(n.int())))
		} else {
			ps.env[t] = in.nonNilTop(ts.Top(t.Type(), n))
		}
	case *ssa.MakeChan:
		in.unsupported("channel", t.Pos())
		ps.env[t] = ts.Top(t.Type())
	case *ssa.MapUpdate:
		in.mapUpdate(ps.st, get(t.Map), get(t.Key), get(t.Value), t.Map.Type(), t.Pos())
	case *ssa.Range:
		ps.env[t] = in.rangeInit(ps.st, t, get(t.X), t.X.Type())
	case *ssa.Slice:
		in.askLimit(t.Parent(), t.Low, t.High)
		ps.env[t] = in.slice(fr, ps, t)
	case *ssa.Store:
		in.store(ps.st, get(t.Addr), get(t.Val), t.Val.Type(), t.Pos())
	case *ssa.Go:
		in.unsupported("go statement", t.Pos())
	case *ssa.Send, *ssa.Select:
		in.unsupported("channel operation", ins.Pos())
		if v, ok := ins.(ssa.Value); ok {
			ps.env[v] = ts.Top(v.Type())
		}
	default:
		in.unsupported(fmt.Sprintf("instruction %T", ins), ins.Pos())
		if v, ok := ins.(ssa.Value); ok {
			ps.env[v] = ts.Top(v.Type())
		}
	}
}

// after a dereference the pointer is known to be non-nil
func (in *Interp) noteNonNil(fr *frame, ps *pstate, v ssa.Value, x *Term) {
	switch x.K {
	case KLabel, KOp:
		if !x.Imprec {
			c := in.ts.intern(&Term{K: KOp, Op: "==", Args: []*Term{x, in.ts.Nil()}, T: types.Typ[types.Bool]})
			ps.st.known.set(c.ID, in.ts.Bool(false))
		}
	case KChoice:
		var keep []*Term
		for _, a := range x.Args {
			if a.K != KNil {
				keep = append(keep, a)
			}
		}
		if len(keep) > 0 && len(keep) < len(x.Args) {
			in.refineReg(fr, ps, v, in.ts.Choice(keep...))
		}
	case KTop:
		if x.Op != "nn" {
			in.refineReg(fr, ps, v, in.nonNilTop(x))
		}
	}
}

// refineReg narrows a register, and the memory cell it was loaded from.
func (in *Interp) refineReg(fr *frame, ps *pstate, v ssa.Value, nv *Term) {
	old := ps.env[v]
	switch v := v.(type) {
	case *ssa.Const:
		return
	case *ssa.UnOp:
		if v.Op == token.MUL {
			ad := in.addrOf(fr, ps, v.X)
			if ad != nil && ad.K == KAddr && !ps.st.sum[ad.Obj] {
				if !hasNeg(ad.Path) {
					cur := in.content(ps.st, ad.Obj)
					if cur != nil && in.proj(cur, ad.Path, in.objs[ad.Obj].T) == old {
						ps.st.heap.set(ad.Obj, in.update(cur, ad.Path, in.objs[ad.Obj].T, nv, false))
					}
				}
			}
		}
	case *ssa.ChangeInterface:
		in.refineReg(fr, ps, v.X, nv)
	}
	ps.env[v] = nv
}

func (in *Interp) addrOf(fr *frame, ps *pstate, v ssa.Value) *Term {
	switch v.(type) {
	case *ssa.Global, *ssa.Parameter, *ssa.FreeVar:
		return in.get(fr, ps, v)
	}
	return ps.env[v]
}

func hasNeg(p []int) bool {
	for _, x := range p {
		if x < 0 {
			return true
		}
	}
	return false
}

func repeat(t *Term, n int) []*Term {
	out := make([]*Term, n)
	for i := range out {
		out[i] = t
	}
	return out
}

func (in *Interp) newSlice(st *State, site ssa.Instruction, tag string, t types.Type, elems []*Term) *Term {
	at := types.NewArray(elemType(t), int64(len(elems)))
	key := fmt.Sprintf("%s%d", tag, len(elems))
	o := in.alloc(st, site, key, at, in.ts.Struct(at, elems))
	return in.ts.Slice(o.ID, 0, len(elems), t)
}

func (in *Interp) makeIface(t types.Type, v *Term) *Term {
	return in.ts.Iface(t, v)
}

func (in *Interp) indexAddr(ps *pstate, x, idx *Term, xt, rt types.Type, pos token.Pos) *Term {
	ts := in.ts
	et := deref(rt)
	var out []*Term
	for _, a := range alts(x) {
		switch a.K {
		case KSlice:
			if idx.isInt() {
				i := int(idx.int())
				if i < 0 || i >= a.N {
					in.alarm("index", pos, fmt.Sprintf("index %d out of range with length %d", i, a.N))
					continue
				}
				out = append(out, ts.Addr(a.Obj, a.Off+i))
			} else {
				if !in.idxOK(ps.st, idx, ts.Int(int64(a.N))) {
					in.alarm("index", pos, fmt.Sprintf("index %s may be out of range of length %d", idx, a.N))
				}
				if a.N > 0 {
					out = append(out, ts.Addr(a.Obj, -1))
				}
			}
		case KAddr: // pointer to array
			n := int64(-1)
			if at, ok := deref(xt).Underlying().(*types.Array); ok {
				n = at.Len()
			}
			if idx.isInt() && (n < 0 || idx.int() < n) {
				out = append(out, ts.intern(&Term{K: KAddr, Obj: a.Obj, Path: append(append([]int(nil), a.Path...), int(idx.int()))}))
			} else {
				out = append(out, ts.intern(&Term{K: KAddr, Obj: a.Obj, Path: append(append([]int(nil), a.Path...), -1)}))
			}
		case KNil:
			in.alarm("index", pos, "index into nil slice")
		default:
			if !in.idxOK(ps.st, idx, in.length(ps.st, a)) {
				in.alarm("index", pos, fmt.Sprintf("index %s may be out of range of %s", idx, a))
			}
			if in.shapeMode && in.topLoop() && idx.Imprec && !a.Imprec {
				// the element of this iteration; canon forgets it at the next
				idx = in.Label("iter#", types.Typ[types.Int])
			}
			key := fmt.Sprintf("elem|%d|%d", a.ID, idx.ID)
			o := in.newObj(key, fmt.Sprintf("%s[%s]", a, idx), et)
			o.Input = isPathTerm(a)
			if o.Init == nil {
				if a.K == KTop || idx.Imprec && !topIdx(idx) {
					o.Init = ts.Top(et, a)
				} else {
					o.Init = in.op("[", et, a, idx)
				}
			}
			out = append(out, ts.Addr(o.ID))
		}
	}
	if len(out) == 0 {
		return in.nonNilTop(ts.Top(rt, x))
	}
	return ts.Choice(out...)
}

func (in *Interp) strIndex(fr *frame, ps *pstate, x, idx *Term, t types.Type, pos token.Pos) *Term {
	if x.isStr() && idx.isInt() {
		s := x.str()
		if i := idx.int(); i >= 0 && i < int64(len(s)) {
			return in.ts.Int(int64(s[i]))
		}
		in.alarm("index", pos, "string index out of range")
		return in.ts.Top(t)
	}
	if x.K == KStruct && idx.isInt() && int(idx.int()) < len(x.Args) {
		return x.Args[idx.int()]
	}
	if x.K == KStruct {
		return in.ts.Choice(x.Args...)
	}
	if !in.idxOK(ps.st, idx, in.length(ps.st, x)) {
		in.alarm("index", pos, fmt.Sprintf("index %s may be out of range of string %s", idx, x))
	}
	if x.K == KCat && idx.isInt() && x.Args[0].isStr() && int(idx.int()) < len(x.Args[0].str()) {
		return in.ts.Int(int64(x.Args[0].str()[idx.int()]))
	}
	return in.op("at", t, x, idx)
}

// ---- slices

func (in *Interp) elems(st *State, s *Term) ([]*Term, bool) {
	switch s.K {
	case KNil:
		return nil, true
	case KSlice:
		v := in.content(st, s.Obj)
		if v.K != KStruct {
			return nil, false
		}
		if s.Off+s.N > len(v.Args) {
			return nil, false
		}
		return v.Args[s.Off : s.Off+s.N], true
	}
	return nil, false
}

func (in *Interp) slice(fr *frame, ps *pstate, t *ssa.Slice) *Term {
	ts := in.ts
	x := in.get(fr, ps, t.X)
	var lo, hi *Term
	if t.Low != nil {
		lo = in.get(fr, ps, t.Low)
	} else {
		lo = ts.Int(0)
	}
	if t.High != nil {
		hi = in.get(fr, ps, t.High)
	}
	return in.dist(x, func(x *Term) *Term {
		switch x.K {
		case KAddr: // pointer to array
			o := in.objs[x.Obj]
			n := -1
			if at, ok := deref(t.X.Type()).Underlying().(*types.Array); ok {
				n = int(at.Len())
			}
			if len(x.Path) == 0 && lo.isInt() && n >= 0 {
				h := n
				if hi != nil {
					if !hi.isInt() {
						return in.nonNilTop(ts.Top(t.Type()))
					}
					h = int(hi.int())
				}
				_ = o
				return ts.Slice(x.Obj, int(lo.int()), h-int(lo.int()), t.Type())
			}
			return in.nonNilTop(ts.Top(t.Type()))
		case KSlice:
			if lo.isInt() && (hi == nil || hi.isInt()) {
				h := x.N
				if hi != nil {
					h = int(hi.int())
				}
				l := int(lo.int())
				if l < 0 || l > h {
					in.alarm("index", t.Pos(), fmt.Sprintf("slice bounds [%d:%d] out of range", l, h))
					return ts.Top(t.Type(), x)
				}
				if h > x.N {
					in.alarm("index", t.Pos(), fmt.Sprintf("slice bound %d beyond length %d", h, x.N))
					return ts.Top(t.Type(), x)
				}
				return ts.Slice(x.Obj, x.Off+l, h-l, t.Type())
			}
			es, _ := in.elems(ps.st, x)
			return in.nonNilTop(ts.Top(t.Type(), es...))
		case KNil:
			return x
		case KConst, KCat:
			return in.substr(ps.st, x, lo, hi, t.Pos())
		}
		if isStringType(t.X.Type()) {
			return in.substr(ps.st, x, lo, hi, t.Pos())
		}
		if x.K == KTop {
			return ts.Top(t.Type(), x)
		}
		n := in.length(ps.st, x)
		if hi == nil {
			hi = n
		}
		if !in.leq(ps.st, lo, hi) || !in.leq(ps.st, hi, n) {
			in.alarm("index", t.Pos(), fmt.Sprintf("slice bounds [%s:%s] of %s may be out of range", lo, hi, x))
		}
		if lo.isInt() && lo.int() == 0 && hi == n {
			return x
		}
		return in.op("slice", t.Type(), x, lo, hi)
	})
}

func isStringType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (in *Interp) length(st *State, x *Term) *Term {
	ts := in.ts
	return in.dist(x, func(x *Term) *Term {
		switch x.K {
		case KNil:
			return ts.Int(0)
		case KSlice:
			return ts.Int(int64(x.N))
		case KConst:
			if x.isStr() {
				return ts.Int(int64(len(x.str())))
			}
		case KStruct:
			return ts.Int(int64(len(x.Args)))
		case KAddr: // map
			v := in.content(st, x.Obj)
			if v != nil && v.K == KMapVal && !v.Open {
				maybe := 0
				for i := 1; i < len(v.Args); i += 2 {
					for _, a := range alts(v.Args[i]) {
						if a == in.absent() {
							maybe++
							break
						}
					}
				}
				if maybe == 0 && in.distinctKeys(st, v) {
					return ts.Int(int64(len(v.Args) / 2))
				}
			}
			if v != nil && v.K == KStruct {
				return ts.Int(int64(len(v.Args)))
			}
			return ts.Top(types.Typ[types.Int], x)
		case KTop:
			return ts.Top(types.Typ[types.Int], x)
		}
		r := in.op("len", types.Typ[types.Int], x)
		return in.resolve(st, r, nil)
	})
}

func (in *Interp) distinctKeys(st *State, v *Term) bool {
	for i := 0; i < len(v.Args); i += 2 {
		for j := i + 2; j < len(v.Args); j += 2 {
			e := in.eq(st, v.Args[i], v.Args[j])
			if !(e.isBool() && !constBool(e)) {
				return false
			}
		}
	}
	return true
}

// maxRounds is the number of rounds of a loop that are told apart where the
// number is known.
const maxRounds = 20000
