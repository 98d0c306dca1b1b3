package main

import (
	"fmt"
	"go/token"
	"go/types"
	"maps"
	"slices"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Obj describes an abstract memory object.
type Obj struct {
	ID       int
	Name     string
	T        types.Type
	Input    bool // reachable from the caller's arguments (or a package variable)
	Glob     bool
	Track    bool // its small-domain fields take part in state partitioning
	Site     ssa.Instruction
	Init     *Term // initial content (input objects); locals live in State.heap only
	Stream   bool
	allocKey string
}

// Event is an observable effect recorded on the paths of an analysis.
type Event struct {
	Kind       string // "line", "write-input", "permute-input", "call", ...
	Obj        int    // stream / object
	Term       *Term
	Aux        string
	Pos        token.Pos
	Ctx        string
	Min        int // on every path at least Min times
	Max        int // on any path at most Max times (saturates at 3)
	mayBefore  map[string]bool
	mustBefore map[string]bool
}

func (e *Event) key() string {
	tid := 0
	if e.Term != nil {
		tid = e.Term.ID
	}
	return fmt.Sprintf("%s|%d|%d|%s", e.Kind, e.Obj, tid, e.Aux)
}

type State struct {
	heap   pmap
	known  pmap
	sum    map[int]bool // summary objects: weak updates only
	events map[string]*Event
	pend   map[int]*Term
	cnt    map[string]int
	shared uint8 // which of the four maps another state shares
}

const (
	shSum = 1 << iota
	shEvents
	shPend
	shCnt
)

func newState() *State {
	return &State{sum: map[int]bool{}, events: map[string]*Event{}, pend: map[int]*Term{}, cnt: map[string]int{}}
}

func (s *State) clone() *State {
	s.shared = shSum | shEvents | shPend | shCnt
	n := *s
	return &n
}

func (s *State) own(bit uint8) bool {
	r := s.shared&bit != 0
	s.shared &^= bit
	return r
}

func (s *State) setSum(k int) {
	if s.own(shSum) {
		s.sum = maps.Clone(s.sum)
	}
	s.sum[k] = true
}

func (s *State) setEvent(k string, e *Event) {
	if s.own(shEvents) {
		s.events = maps.Clone(s.events)
	}
	s.events[k] = e
}

func (s *State) setPend(k int, v *Term) {
	if s.own(shPend) {
		s.pend = maps.Clone(s.pend)
	}
	s.pend[k] = v
}

func (s *State) setCnt(k string, v int) {
	if s.own(shCnt) {
		s.cnt = maps.Clone(s.cnt)
	}
	s.cnt[k] = v
}

func (in *Interp) event(st *State, e Event) {
	k := e.key()
	old := st.events[k]
	ne := e
	ne.mayBefore = map[string]bool{}
	ne.mustBefore = map[string]bool{}
	if in.trackOrder {
		for kk, ev := range st.events {
			ne.mayBefore[kk] = true
			if ev.Min > 0 {
				ne.mustBefore[kk] = true
			}
		}
	}
	if e.Ctx == "" {
		ne.Ctx = in.stackString()
	}
	ne.Min, ne.Max = 1, 1
	if old != nil {
		ne.Min = min(old.Min+1, 3)
		ne.Max = min(old.Max+1, 3)
		if in.trackOrder {
			for kk := range old.mayBefore {
				ne.mayBefore[kk] = true
			}
			if old.Min > 0 {
				ne.mustBefore = old.mustBefore
			}
		}
		ne.Pos, ne.Ctx = old.Pos, old.Ctx
	}
	st.setEvent(k, &ne)
}

func (in *Interp) joinEvents(a, b map[string]*Event) map[string]*Event {
	out := make(map[string]*Event, len(a))
	for k, x := range a {
		y := b[k]
		if y == x {
			out[k] = x
			continue
		}
		n := *x
		if y == nil {
			n.Min = 0
		} else {
			n.Min = min(x.Min, y.Min)
			n.Max = max(x.Max, y.Max)
			if in.trackOrder {
				n.mayBefore = map[string]bool{}
				for kk := range x.mayBefore {
					n.mayBefore[kk] = true
				}
				for kk := range y.mayBefore {
					n.mayBefore[kk] = true
				}
				n.mustBefore = map[string]bool{}
				for kk := range x.mustBefore {
					if y.mustBefore[kk] {
						n.mustBefore[kk] = true
					}
				}
			}
		}
		out[k] = &n
	}
	for k, y := range b {
		if a[k] == nil {
			n := *y
			n.Min = 0
			out[k] = &n
		}
	}
	return out
}

// joinVal is the least upper bound of two stored values.
func (in *Interp) joinVal(a, b *Term) *Term {
	if a == b {
		return a
	}
	ts := in.ts
	if a.K == KStruct && b.K == KStruct && len(a.Args) == len(b.Args) && in.ts.typeKey(a.T) == in.ts.typeKey(b.T) {
		fs := make([]*Term, len(a.Args))
		for i := range fs {
			fs[i] = in.joinVal(a.Args[i], b.Args[i])
		}
		return ts.Struct(a.T, fs)
	}
	if a.K == KMapVal && b.K == KMapVal {
		return in.joinMaps(a, b)
	}
	if isBuf(a) || isBuf(b) {
		return in.joinBuf(a, b)
	}
	// an opaque struct against an expanded one: expand the opaque side
	if a.K == KStruct && isOpaque(b) {
		if e := in.expand(b, a.T); e != nil {
			return in.joinVal(a, e)
		}
	}
	if b.K == KStruct && isOpaque(a) {
		if e := in.expand(a, b.T); e != nil {
			return in.joinVal(e, b)
		}
	}
	return ts.Choice(a, b)
}

func isBuf(t *Term) bool { return t.K == KOp && t.Op == "buf" }

// buffers (strings.Builder, bytes.Buffer) hold a text
func (in *Interp) joinBuf(a, b *Term) *Term {
	text := func(t *Term) *Term {
		switch {
		case isBuf(t):
			return t.Args[0]
		case t.K == KStruct:
			return in.ts.Str("")
		}
		return in.ts.Top(types.Typ[types.String], t)
	}
	return in.ts.intern(&Term{K: KOp, Op: "buf", Args: []*Term{in.joinText(text(a), text(b))}})
}

func (in *Interp) joinMaps(a, b *Term) *Term {
	type ent struct{ va, vb *Term }
	m := map[int]*ent{}
	var keys []*Term
	for i := 0; i+1 < len(a.Args); i += 2 {
		m[a.Args[i].ID] = &ent{va: a.Args[i+1]}
		keys = append(keys, a.Args[i])
	}
	for i := 0; i+1 < len(b.Args); i += 2 {
		e := m[b.Args[i].ID]
		if e == nil {
			e = &ent{}
			m[b.Args[i].ID] = e
			keys = append(keys, b.Args[i])
		}
		e.vb = b.Args[i+1]
	}
	open := a.Open || b.Open
	if len(keys) > 1000 {
		return in.ts.intern(&Term{K: KMapVal, Open: true, T: a.T})
	}
	var out []*Term
	for _, k := range keys {
		e := m[k.ID]
		va, vb := e.va, e.vb
		if va == nil {
			va = in.absent()
		}
		if vb == nil {
			vb = in.absent()
		}
		out = append(out, k, in.joinVal(va, vb))
	}
	return in.ts.intern(&Term{K: KMapVal, Args: out, Open: open, T: a.T})
}

func (in *Interp) absent() *Term { return in.ts.intern(&Term{K: KOp, Op: "absent"}) }

func isOpaque(t *Term) bool { return t.K == KLabel || t.K == KOp }

func (in *Interp) content(st *State, obj int) *Term {
	if v, ok := st.heap.get2(obj); ok {
		return v
	}
	return in.objs[obj].Init
}

func (in *Interp) joinState(a, b *State, widen bool) *State {
	if a == b {
		return a
	}
	n := newState()
	for k := range a.sum {
		n.sum[k] = true
	}
	for k := range b.sum {
		n.sum[k] = true
	}
	n.heap = a.heap
	for k, va := range a.heap.all() {
		vb, ok := b.heap.get2(k)
		if !ok && in.objs[k].allocKey == "" {
			vb = in.objs[k].Init
		}
		if vb == nil {
			n.heap.set(k, va)
			continue
		}
		n.heap.set(k, in.joinW(va, vb, widen))
	}
	for k, vb := range b.heap.all() {
		if _, ok := a.heap.get2(k); ok {
			continue
		}
		va := in.objs[k].Init
		if in.objs[k].allocKey != "" || va == nil {
			n.heap.set(k, vb)
			continue
		}
		n.heap.set(k, in.joinW(va, vb, widen))
	}
	if a.known.same(&b.known) {
		n.known = a.known
	} else {
		for k, v := range a.known.all() {
			if b.known.get(k) == v {
				n.known.set(k, v)
			}
		}
	}
	n.events = in.joinEvents(a.events, b.events)
	for k, v := range a.pend {
		w := b.pend[k]
		if w == nil {
			w = in.ts.Str("")
		}
		n.pend[k] = in.joinText(v, w)
	}
	for k, v := range b.pend {
		if a.pend[k] == nil {
			n.pend[k] = in.ts.Choice(v, in.ts.Str(""))
		}
	}
	for k, v := range a.cnt {
		n.cnt[k] = max(v, b.cnt[k])
	}
	for k, v := range b.cnt {
		n.cnt[k] = max(v, a.cnt[k])
	}
	return n
}

// joinW joins, and when widening replaces anything that still grows by unknown.
func (in *Interp) joinW(a, b *Term, widen bool) *Term {
	j := in.joinVal(a, b)
	if !widen || j == a {
		return j
	}
	return in.widenVal(a, j)
}

func (in *Interp) widenVal(old, nw *Term) *Term {
	if old == nw {
		return nw
	}
	if old.K == KStruct && nw.K == KStruct && len(old.Args) == len(nw.Args) {
		fs := make([]*Term, len(nw.Args))
		for i := range fs {
			fs[i] = in.widenVal(old.Args[i], nw.Args[i])
		}
		return in.ts.Struct(nw.T, fs)
	}
	if nw.K == KChoice {
		// keep finite pointer/constant alternatives, they cannot grow without bound
		fin := true
		for _, a := range nw.Args {
			switch a.K {
			case KAddr, KNil, KClosure:
			case KConst:
				if a.isInt() {
					fin = false
				}
			default:
				fin = false
			}
		}
		if fin {
			return nw
		}
		ints := true
		lo := posInf
		for _, a := range nw.Args {
			if a.isInt() {
				lo = min(lo, a.int())
			} else {
				ints = false
			}
		}
		if ints {
			// counters only grow: keep the lower bound if it did not drop
			oldLo := posInf
			for _, a := range alts(old) {
				if a.isInt() {
					oldLo = min(oldLo, a.int())
				}
			}
			if lo >= oldLo {
				return in.ts.intern(&Term{K: KTop, Op: fmt.Sprintf("ge%d", lo), T: types.Typ[types.Int]})
			}
		}
		return in.topLike(nw)
	}
	if nw.K == KTop {
		if lo, _, ok := parseGe(nw.Op); ok && old.K == KTop {
			if l2, _, ok2 := parseGe(old.Op); ok2 && lo < l2 {
				return in.ts.Top(nw.T, nw)
			}
		}
		return nw
	}
	if isBuf(nw) {
		return in.ts.intern(&Term{K: KOp, Op: "buf", Args: []*Term{in.ts.Top(types.Typ[types.String], nw.Args[0])}})
	}
	if nw.K == KMapVal {
		return in.ts.intern(&Term{K: KMapVal, Open: true, T: nw.T, Args: nw.Args})
	}
	return in.topLike(nw)
}

func (in *Interp) topLike(t *Term) *Term {
	var typ types.Type
	nn := true
	for _, a := range alts(t) {
		if a.T != nil && typ == nil {
			typ = a.T
		}
		switch a.K {
		case KAddr, KSlice, KClosure, KIface:
		default:
			nn = false
		}
	}
	r := in.ts.Top(typ, t)
	if nn {
		r = in.nonNilTop(r)
	}
	return r
}

func (in *Interp) nonNilTop(t *Term) *Term {
	return in.ts.intern(&Term{K: KTop, T: t.T, Args: t.Args, Op: "nn"})
}

func sameState(a, b *State) bool {
	if !a.heap.same(&b.heap) || !a.known.same(&b.known) || len(a.events) != len(b.events) || len(a.pend) != len(b.pend) {
		return false
	}
	for k, v := range a.pend {
		if b.pend[k] != v {
			return false
		}
	}
	for k, x := range a.events {
		y := b.events[k]
		if y == nil || x.Min != y.Min || x.Max != y.Max || len(x.mayBefore) != len(y.mayBefore) || len(x.mustBefore) != len(y.mustBefore) {
			return false
		}
	}
	for k, v := range a.cnt {
		if b.cnt[k] != v {
			return false
		}
	}
	return len(a.cnt) == len(b.cnt)
}

func (in *Interp) track(o *Obj) {
	if o.Track {
		return
	}
	o.Track = true
	i := sort.SearchInts(in.tracked, o.ID)
	in.tracked = slices.Insert(in.tracked, i, o.ID)
}

// fingerprint abstracts the tracked objects of a state for partitioning.
func (in *Interp) fingerprint(st *State) string {
	var b strings.Builder
	for _, id := range in.tracked {
		v := st.heap.get(id)
		if v == nil {
			continue
		}
		b.WriteString(strconv.Itoa(id))
		b.WriteByte(':')
		if v.K == KOp && v.Op == "wrapw" && len(v.Args) > 1 {
			b.WriteString(v.Args[1].str())
		}
		if v.K == KStruct {
			for _, f := range v.Args {
				b.WriteString(in.small(st, f, in.trackStrings))
			}
		}
	}
	return b.String()
}

// small maps a value onto {nil, non-nil, true, false, int constant, ?}.
func (in *Interp) small(st *State, t *Term, strs bool) string {
	switch t.K {
	case KNil:
		return "0"
	case KAddr, KClosure, KIface:
		if in.shapeMode && t.K == KAddr {
			return "p" + strconv.Itoa(t.Obj)
		}
		return "p"
	case KSlice:
		return "s"
	case KConst:
		if t.isBool() || t.isInt() {
			return t.C.ExactString() + ","
		}
		if t.isStr() && strs {
			if t.str() == "" {
				return "e"
			}
			return "t"
		}
		return "c"
	case KChoice:
		r := ""
		for i, a := range t.Args {
			s := in.small(st, a, strs)
			if i == 0 {
				r = s
			} else if r != s {
				return "?"
			}
		}
		return r
	case KTop:
		if t.Op == "nn" {
			return "p"
		}
	case KLabel, KOp:
		if b := in.eq(st, t, in.ts.Nil()); b != nil && b.isBool() && t.T != nil && nilable(t.T) {
			if constBool(b) {
				return "0"
			}
			return "p"
		}
		return "?"
	}
	return "?"
}

func nilable(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Interface, *types.Signature, *types.Chan:
		return true
	}
	return false
}
