package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C18", "Results do not depend on map iteration order, clock or chance", checkC18)
}

// clockAllowed: the one place where reading the clock is the purpose.
var clockAllowed = map[string]string{
	"builder": "the creation date of a built document is the current time",
}

var randomPkgs = map[string]bool{"math/rand": true, "math/rand/v2": true, "crypto/rand": true, "hash/maphash": true}
var clockFuncs = map[string]bool{"time.Now": true, "time.Since": true, "time.Until": true, "time.After": true, "time.Tick": true, "time.NewTimer": true}
var envFuncs = map[string]bool{"os.Getpid": true, "os.Hostname": true, "os.Getenv": true, "os.LookupEnv": true, "os.Environ": true, "os.Getppid": true, "os.Getwd": true}

func checkC18(R *Report) {
	R.rule("map-order", "Every iteration over a map in the library is order-insensitive: it fills maps or sets by the iterated key, accumulates commutatively, touches only the visited element, or collects into a list that is sorted by a total order before anything else reads it; it writes no output and leaves the loop early only with values that do not depend on the element.")
	R.rule("no-chance", "No library function calls a random source, reads the environment, or reads the clock (except the builder's creation date).")
	R.rule("no-address", "No library function formats a memory address (%p) or takes one as a number.")
	R.rule("no-schedule", "No library function starts a goroutine or uses a channel or select, so no result depends on scheduling.")
	R.assumption("encoding/json orders map keys; reflection-based conversion (anchore/go-struct-converter) and gordf are taken as deterministic for the orders they hand over")
	R.minObs = 10
	fnCount := 0
	for _, fn := range R.P.Funcs {
		pk := fnPkg(fn)
		if !R.P.isLib(pk) {
			continue
		}
		fnCount++
		name := relName(R.P, fn)
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.Range:
					if isMap(x.X.Type()) {
						d := &detRange{R: R, fn: fn, rng: x}
						d.check(name)
					}
				case *ssa.Go:
					R.fail(name+" starts no goroutine", R.P.Pos(ins.Pos()), "a goroutine is started")
				case *ssa.Select, *ssa.Send, *ssa.MakeChan:
					R.fail(name+" uses no channel", R.P.Pos(ins.Pos()), "a channel operation makes results depend on scheduling")
				case *ssa.Convert:
					if bt, ok := x.Type().Underlying().(*types.Basic); ok && bt.Kind() == types.Uintptr {
						if _, isP := x.X.Type().Underlying().(*types.Pointer); isP || x.X.Type().Underlying() == types.Typ[types.UnsafePointer] {
							R.fail(name+" takes no address as a number", R.P.Pos(ins.Pos()), "an address becomes a number")
						}
					}
				}
				c, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cal := c.Common().StaticCallee()
				if cal == nil {
					continue
				}
				cp := fnPkg(cal)
				if cp == nil {
					continue
				}
				full := cal.String()
				switch {
				case randomPkgs[cp.Path()]:
					R.fail(name+" uses no random source", R.P.Pos(ins.Pos()), "calls "+full)
				case clockFuncs[full]:
					rel := strings.TrimPrefix(pk.Path(), R.P.Module+"/")
					R.ob(name+" reads no clock", clockAllowed[rel] != "", R.P.Pos(ins.Pos()), "calls "+full)
				case envFuncs[full]:
					R.fail(name+" reads no environment", R.P.Pos(ins.Pos()), "calls "+full)
				case cp.Path() == "fmt":
					for _, a := range c.Common().Args {
						if k, ok := a.(*ssa.Const); ok && k.Value != nil && isStringType(k.Type()) && strings.Contains(k.Value.String(), "%p") {
							R.fail(name+" formats no address", R.P.Pos(ins.Pos()), "format with %p")
						}
					}
				}
			}
		}
	}
	R.ob("library functions scanned for random sources, clocks, environment, goroutines", fnCount > 100, "-", fmt.Sprintf("only %d functions", fnCount))
	R.extra["functions_scanned"] = fnCount
}

func relName(P *Program, fn *ssa.Function) string {
	return strings.ReplaceAll(fn.String(), P.Module+"/", "")
}

type detRange struct {
	R      *Report
	fn     *ssa.Function
	rng    *ssa.Range
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	next   *ssa.Next
	key    ssa.Value
	val    ssa.Value
	why    []string
	pos    token.Pos
}

func (d *detRange) bad(pos token.Pos, f string, a ...any) {
	if len(d.why) == 0 {
		d.pos = pos
	}
	d.why = append(d.why, fmt.Sprintf(f, a...)+" at "+d.R.P.Pos(pos))
}

func (d *detRange) check(name string) {
	pos := d.rng.Pos()
	key := name + " map iteration is order-insensitive"
	for _, r := range *d.rng.Referrers() {
		if n, ok := r.(*ssa.Next); ok {
			d.next = n
		}
	}
	if d.next == nil {
		d.R.ob(key, true, d.R.P.Pos(pos), "")
		return
	}
	d.header = d.next.Block()
	for _, r := range *d.next.Referrers() {
		if e, ok := r.(*ssa.Extract); ok {
			if e.Index == 1 {
				d.key = e
			}
			if e.Index == 2 {
				d.val = e
			}
		}
	}
	fi := analyseFn(d.fn)
	l := fi.headers[d.header]
	if l == nil {
		// the body never comes back: at most one element is visited
		d.body = map[*ssa.BasicBlock]bool{d.header: true}
		if d.key != nil || d.val != nil {
			d.bad(pos, "the loop visits one arbitrary element of the map")
		}
	} else {
		d.body = l.blocks
		d.loop()
	}
	where := d.R.P.Pos(pos)
	if len(d.why) > 0 {
		where = d.R.P.Pos(d.pos)
	}
	d.R.ob(key, len(d.why) == 0, where, strings.Join(d.why, "; "))
}

// varies: the value may differ between iterations.
func (d *detRange) varies(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Parameter, *ssa.FreeVar, *ssa.Builtin:
		return false
	case ssa.Instruction:
		if !d.body[x.Block()] {
			return false
		}
		if _, ok := v.(*ssa.Alloc); ok {
			return true
		}
		return true
	}
	return true
}

// elementRoot: the memory belongs to the visited element or to this iteration.
func (d *detRange) elementRoot(a ssa.Value) bool {
	for {
		switch x := a.(type) {
		case *ssa.FieldAddr:
			a = x.X
		case *ssa.IndexAddr:
			a = x.X
		case *ssa.Slice:
			a = x.X
		case *ssa.ChangeType:
			a = x.X
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return false
			}
			if !d.body[x.Block()] {
				return false
			}
			a = x.X
		case *ssa.Alloc:
			return d.body[x.Block()]
		case *ssa.MakeSlice, *ssa.MakeMap:
			return d.body[x.(ssa.Instruction).Block()]
		case *ssa.Extract:
			if x.Tuple == ssa.Value(d.next) {
				return true
			}
			if lk, ok := x.Tuple.(*ssa.Lookup); ok && lk.X == d.rng.X && d.isKey(lk.Index) {
				return true
			}
			return false
		case *ssa.Lookup:
			return d.isKey(x.Index)
		default:
			return false
		}
	}
}

// isKey: exactly the iterated key (possibly converted).
func (d *detRange) isKey(v ssa.Value) bool {
	for {
		if d.key != nil && v == d.key {
			return true
		}
		switch x := v.(type) {
		case *ssa.Convert:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.UnOp:
			// a key kept in a per-iteration variable
			if x.Op == token.MUL {
				if a, ok := x.X.(*ssa.Alloc); ok && d.body[a.Block()] {
					if s := soleStore(a); s != nil {
						v = s
						continue
					}
				}
			}
			return false
		default:
			return false
		}
	}
}

func soleStore(a *ssa.Alloc) ssa.Value {
	var v ssa.Value
	for _, r := range *a.Referrers() {
		if s, ok := r.(*ssa.Store); ok && s.Addr == a {
			if v != nil {
				return nil
			}
			v = s.Val
		}
	}
	return v
}

func isAppend(v ssa.Value) (*ssa.Call, bool) {
	c, ok := v.(*ssa.Call)
	if !ok {
		return nil, false
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	return c, ok && b.Name() == "append"
}

func (d *detRange) loop() {
	// early exits
	for b := range d.body {
		for i, s := range b.Succs {
			if d.body[s] || b == d.header {
				continue
			}
			// values carried out by an early exit
			for _, ins := range s.Instrs {
				p, ok := ins.(*ssa.Phi)
				if !ok {
					break
				}
				for k, e := range s.Preds {
					if e == b && d.varies(p.Edges[k]) && !d.accumulates(p.Edges[k]) {
						d.bad(b.Instrs[len(b.Instrs)-1].Pos(), "the loop is left early with a value that depends on the element visited")
					}
				}
			}
			_ = i
			if r, ok := s.Instrs[len(s.Instrs)-1].(*ssa.Return); ok && len(s.Preds) == 1 {
				for _, v := range r.Results {
					if d.dependsOnElement(v) {
						d.bad(r.Pos(), "the loop returns a value that depends on which element comes first")
					}
				}
			}
		}
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			for _, v := range r.Results {
				if d.dependsOnElement(v) {
					d.bad(r.Pos(), "the loop returns a value that depends on which element comes first")
				}
			}
		}
	}
	d.partial()
	// loop-carried registers
	for _, ins := range d.header.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		for k, e := range d.header.Preds {
			if !d.body[e] {
				continue
			}
			d.carried(p, p.Edges[k], 0)
		}
	}
	// effects
	for b := range d.body {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Store:
				d.store(x)
			case *ssa.MapUpdate:
				if d.elementRoot(x.Map) || d.isKey(x.Key) || !d.varies(x.Value) {
					continue
				}
				if bo, ok := x.Value.(*ssa.BinOp); ok && commutative(bo.Op, bo.Type()) {
					if lk, ok := bo.X.(*ssa.Lookup); ok && lk.X == x.Map && lk.Index == x.Key && !d.dependsOnAcc(bo.Y) {
						continue
					}
				}
				d.bad(x.Pos(), "a map entry under a key other than the iterated one is overwritten in map order")
			case *ssa.Call:
				d.call(x, x.Common(), x.Pos())
			case *ssa.Defer:
				d.bad(x.Pos(), "deferred in map order")
			}
		}
	}
}

// partial reports what the loop gathers being used after it was left early:
// which elements had been visited by then is up to the order.
func (d *detRange) partial() {
	roots, chain := map[ssa.Value]bool{}, map[ssa.Value]bool{}
	for b := range d.body {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.MapUpdate:
				if !d.elementRoot(x.Map) {
					_, r := locKey(x.Map)
					roots[r] = true
				}
			case *ssa.Store:
				if _, ok := isAppend(x.Val); ok && !d.elementRoot(x.Addr) {
					_, r := locKey(x.Addr)
					roots[r] = true
				}
			}
		}
	}
	for _, ins := range d.header.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		if _, isSlice := p.Type().Underlying().(*types.Slice); isSlice {
			chain[p] = true
		}
	}
	if len(roots) == 0 && len(chain) == 0 {
		return
	}
	for again := true; again; {
		again = false
		for _, b := range d.fn.Blocks {
			for _, ins := range b.Instrs {
				v, ok := ins.(ssa.Value)
				if !ok || chain[v] {
					continue
				}
				if p, ok := v.(*ssa.Phi); ok {
					for _, e := range p.Edges {
						again = again || chain[e]
						chain[v] = chain[v] || chain[e]
					}
				}
				if c, ok := isAppend(v); ok && chain[c.Call.Args[0]] {
					chain[v], again = true, true
				}
			}
		}
	}
	for b := range d.body {
		if b == d.header {
			continue
		}
		for _, s := range b.Succs {
			if d.body[s] {
				continue
			}
			seen := map[*ssa.BasicBlock]bool{}
			var walk func(c *ssa.BasicBlock) bool
			walk = func(c *ssa.BasicBlock) bool {
				if seen[c] || d.body[c] {
					return false
				}
				seen[c] = true
				for _, ins := range c.Instrs {
					if _, ok := ins.(*ssa.Phi); ok {
						continue
					}
					var buf [8]*ssa.Value
					for _, o := range ins.Operands(buf[:0]) {
						if *o == nil {
							continue
						}
						_, r := locKey(*o)
						if chain[*o] || roots[r] {
							return true
						}
					}
				}
				for _, n := range c.Succs {
					if walk(n) {
						return true
					}
				}
				return false
			}
			if walk(s) {
				d.bad(d.rng.Pos(), "the loop is left early, and what it gathered until then is used")
			}
		}
	}
}

func (d *detRange) dependsOnAcc(v ssa.Value) bool { return false }

func (d *detRange) accumulates(v ssa.Value) bool { return false }

// dependsOnElement: data-depends on the iterated key or value.
func (d *detRange) dependsOnElement(v ssa.Value) bool {
	seen := map[ssa.Value]bool{}
	var dep func(v ssa.Value) bool
	dep = func(v ssa.Value) bool {
		if v == nil || seen[v] {
			return false
		}
		seen[v] = true
		if v == d.key || v == d.val || v == ssa.Value(d.next) {
			return true
		}
		ins, ok := v.(ssa.Instruction)
		if !ok {
			return false
		}
		if a, ok := v.(*ssa.Alloc); ok {
			for _, r := range *a.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == a && dep(st.Val) {
					return true
				}
				// variadic argument arrays
				if ia, ok := r.(*ssa.IndexAddr); ok {
					for _, q := range *ia.Referrers() {
						if st, ok := q.(*ssa.Store); ok && st.Addr == ia && dep(st.Val) {
							return true
						}
					}
				}
				if fa, ok := r.(*ssa.FieldAddr); ok {
					for _, q := range *fa.Referrers() {
						if st, ok := q.(*ssa.Store); ok && st.Addr == fa && dep(st.Val) {
							return true
						}
					}
				}
			}
			return false
		}
		for _, op := range ins.Operands(nil) {
			if *op != nil && dep(*op) {
				return true
			}
		}
		return false
	}
	return dep(v)
}

func commutative(op token.Token, t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return false
	}
	switch op {
	case token.ADD, token.MUL:
		return b.Info()&types.IsInteger != 0
	case token.OR, token.AND, token.XOR:
		return true
	}
	return false
}

// carried checks the value a loop-carried register gets for the next round.
func (d *detRange) carried(p *ssa.Phi, e ssa.Value, depth int) {
	if depth > 6 || e == ssa.Value(p) {
		return
	}
	switch x := e.(type) {
	case *ssa.Phi:
		if d.body[x.Block()] {
			for _, ed := range x.Edges {
				if ed != e {
					d.carried(p, ed, depth+1)
				}
			}
			return
		}
	case *ssa.BinOp:
		if commutative(x.Op, x.Type()) && (x.X == ssa.Value(p) || x.Y == ssa.Value(p) || isPhiOf(x.X, p) || isPhiOf(x.Y, p)) {
			return
		}
	}
	if c, ok := isAppend(e); ok {
		if c.Call.Args[0] == ssa.Value(p) || isPhiOf(c.Call.Args[0], p) || isAppendChain(c.Call.Args[0], p) {
			d.sorted(p)
			return
		}
	}
	if !d.varies(e) {
		return
	}
	if !d.dependsOnElement(e) {
		return
	}
	d.bad(e.Pos(), "the value kept after the loop depends on the iteration order")
}

func isPhiOf(v ssa.Value, p *ssa.Phi) bool {
	q, ok := v.(*ssa.Phi)
	if !ok {
		return false
	}
	for _, e := range q.Edges {
		if e == ssa.Value(p) {
			return true
		}
	}
	return false
}

func isAppendChain(v ssa.Value, p *ssa.Phi) bool {
	for i := 0; i < 5; i++ {
		if v == ssa.Value(p) {
			return true
		}
		c, ok := isAppend(v)
		if !ok {
			return false
		}
		v = c.Call.Args[0]
	}
	return false
}

// locKey names a memory location by its root register and field path.
func locKey(a ssa.Value) (string, ssa.Value) {
	path := ""
	for {
		switch x := a.(type) {
		case *ssa.FieldAddr:
			path = fmt.Sprintf(".%d%s", x.Field, path)
			a = x.X
		case *ssa.UnOp:
			if x.Op == token.MUL {
				if _, isAlloc := x.X.(*ssa.Alloc); isAlloc || true {
					path = "*" + path
					a = x.X
					continue
				}
			}
			return fmt.Sprintf("%p%s", a, path), a
		case *ssa.IndexAddr:
			path = fmt.Sprintf("[%p]%s", x.Index, path)
			a = x.X
		default:
			return fmt.Sprintf("%p%s", a, path), a
		}
	}
}

func (d *detRange) store(s *ssa.Store) {
	if d.elementRoot(s.Addr) {
		return
	}
	if !d.varies(s.Val) {
		return
	}
	lk, _ := locKey(s.Addr)
	if c, ok := isAppend(s.Val); ok {
		if ld, ok := c.Call.Args[0].(*ssa.UnOp); ok && ld.Op == token.MUL {
			if k, _ := locKey(ld.X); k == lk {
				d.sortedLoc(lk, s)
				return
			}
		}
	}
	if bo, ok := s.Val.(*ssa.BinOp); ok && commutative(bo.Op, bo.Type()) {
		for _, o := range []ssa.Value{bo.X, bo.Y} {
			if ld, ok := o.(*ssa.UnOp); ok && ld.Op == token.MUL {
				if k, _ := locKey(ld.X); k == lk {
					return
				}
			}
		}
	}
	d.bad(s.Pos(), "memory outside the loop is overwritten in map order")
}

var pureExternal = map[string]bool{"strings": true, "strconv": true, "errors": true, "path": true, "path/filepath": true, "unicode": true, "unicode/utf8": true, "bytes": true, "math": true, "regexp": true, "cmp": true, "math/bits": true, "reflect": true}

func (d *detRange) call(v ssa.Value, c *ssa.CallCommon, pos token.Pos) {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "print", "println", "panic":
			d.bad(pos, "%s in map order", b.Name())
		case "copy":
			if !d.elementRoot(c.Args[0]) {
				d.bad(pos, "copy to outer memory in map order")
			}
		}
		return
	}
	if c.IsInvoke() {
		d.bad(pos, "calls %s in map order", c.Method.FullName())
		return
	}
	fn := c.StaticCallee()
	if fn == nil {
		d.bad(pos, "calls an unknown function in map order")
		return
	}
	if !pureFn(d.R.P, fn, map[*ssa.Function]bool{}) {
		// effects confined to the visited element are fine
		d.bad(pos, "calls %s, which has effects, in map order", relName(d.R.P, fn))
	}
}

// pureFn: no effect outside its own frame.
func pureFn(P *Program, fn *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[fn] {
		return true
	}
	seen[fn] = true
	pk := fnPkg(fn)
	if pk == nil {
		return false
	}
	if !P.inRepo(pk) {
		if pk.Path() == "fmt" {
			return strings.HasPrefix(fn.Name(), "Sprint") || fn.Name() == "Errorf"
		}
		return pureExternal[pk.Path()] && !strings.HasPrefix(fn.String(), "path/filepath.Walk") || pk.Path() == "slices" || pk.Path() == "maps" || pk.Path() == "sort"
	}
	local := func(a ssa.Value) bool {
		for {
			switch x := a.(type) {
			case *ssa.FieldAddr:
				a = x.X
			case *ssa.IndexAddr:
				a = x.X
			case *ssa.Slice:
				a = x.X
			case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap:
				return true
			default:
				return false
			}
		}
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			switch x := i.(type) {
			case *ssa.Store:
				if !local(x.Addr) {
					return false
				}
			case *ssa.MapUpdate:
				if !local(x.Map) {
					return false
				}
			case *ssa.Go, *ssa.Defer, *ssa.Send, *ssa.Panic:
				return false
			case *ssa.Call:
				if bt, ok := x.Call.Value.(*ssa.Builtin); ok {
					if bt.Name() == "print" || bt.Name() == "println" {
						return false
					}
					continue
				}
				g := x.Call.StaticCallee()
				if g == nil || !pureFn(P, g, seen) {
					return false
				}
			}
		}
	}
	return true
}

// sortCall: the instruction sorts one of the values in set; total reports
// whether the order is total.
func (d *detRange) sortCall(ins ssa.Instruction, is func(v ssa.Value) bool) (yes, total bool) {
	c, ok := ins.(*ssa.Call)
	if !ok {
		return false, false
	}
	fn := c.Call.StaticCallee()
	if fn == nil {
		return false, false
	}
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	arg := func(k int) bool {
		if k >= len(c.Call.Args) {
			return false
		}
		v := c.Call.Args[k]
		for {
			if is(v) {
				return true
			}
			switch x := v.(type) {
			case *ssa.MakeInterface:
				v = x.X
			case *ssa.ChangeType:
				v = x.X
			case *ssa.Convert:
				v = x.X
			case *ssa.Call: // sort.Reverse and the like
				if len(x.Call.Args) == 1 {
					v = x.Call.Args[0]
					continue
				}
				return false
			default:
				return false
			}
		}
	}
	switch name {
	case "sort.Strings", "sort.Ints", "sort.Float64s", "slices.Sort":
		return arg(0), true
	case "sort.Slice", "sort.SliceStable":
		return arg(0), arg(0) && d.totalLess(c, false)
	case "slices.SortFunc", "slices.SortStableFunc":
		return arg(0), arg(0) && d.totalLess(c, true)
	case "sort.Sort", "sort.Stable":
		if !arg(0) {
			return false, false
		}
		mi, ok := c.Call.Args[0].(*ssa.MakeInterface)
		if !ok {
			return true, false
		}
		n := types.TypeString(mi.X.Type(), nil)
		if n == "sort.StringSlice" || n == "sort.IntSlice" {
			return true, true
		}
		less := d.R.P.DeclaredMethod(mi.X.Type(), "Less")
		return true, less != nil && d.totalLessMethod(less, mi.X.Type())
	}
	if pk := fnPkg(fn); pk != nil && d.R.P.inRepo(pk) && fn != d.fn {
		// a helper that sorts its argument
		for k := range c.Call.Args {
			if !arg(k) || k >= len(fn.Params) {
				continue
			}
			p := fn.Params[k]
			for _, b := range fn.Blocks {
				for _, i := range b.Instrs {
					if y, t := d.sortCall(i, func(v ssa.Value) bool { return v == ssa.Value(p) }); y {
						return true, t
					}
				}
			}
		}
	}
	return false, false
}

// keyFields: fields of the collected struct that hold the iterated key.
func (d *detRange) keyFields(st *types.Struct) map[int]bool {
	fs := map[int]bool{}
	for b := range d.body {
		for _, i := range b.Instrs {
			s, ok := i.(*ssa.Store)
			if !ok || !d.isKey(s.Val) {
				continue
			}
			if fa, ok := s.Addr.(*ssa.FieldAddr); ok {
				if x, ok := deref2(fa.X.Type()).Underlying().(*types.Struct); ok && types.Identical(x, st) {
					fs[fa.Field] = true
				}
			}
		}
	}
	return fs
}

// absElems makes two collected elements that differ in the key only.
func (d *detRange) absElems(in *Interp, et types.Type) (a, b *Term) {
	in.attr = func(t *Term) Attr {
		if t.K == KLabel {
			return Attr{NonEmpty: true, Generic: true, Distinct: true}
		}
		return Attr{}
	}
	if p, ok := et.Underlying().(*types.Pointer); ok {
		cfg := &shapeCfg{n: func(string) int { return 0 }}
		return in.build(p, "a", cfg), in.build(p, "b", cfg)
	}
	if st, ok := et.Underlying().(*types.Struct); ok {
		kf := d.keyFields(st)
		var fa, fb []*Term
		for i := 0; i < st.NumFields(); i++ {
			t := st.Field(i).Type()
			if kf[i] {
				fa = append(fa, in.Label("a.key", t))
				fb = append(fb, in.Label("b.key", t))
			} else {
				l := in.Label("same."+st.Field(i).Name(), t)
				fa = append(fa, l)
				fb = append(fb, l)
			}
		}
		return in.ts.Struct(et, fa), in.ts.Struct(et, fb)
	}
	return in.Label("a.key", et), in.Label("b.key", et)
}

// decisive: comparing the two elements one way and the other is not constant.
func (d *detRange) decisive(in *Interp, run func(i, j int) []Outcome) bool {
	for _, p := range [][2]int{{0, 1}, {1, 0}} {
		outs := run(p[0], p[1])
		if len(outs) == 0 {
			return false
		}
		for _, o := range outs {
			for _, r := range alts(o.res[0]) {
				if r.K == KConst || r.K == KTop || !keeps(r) {
					return false
				}
			}
		}
	}
	return true
}

// keeps: a comparison of the keys themselves, not of what some function makes
// of them (two different keys may then compare equal).
func keeps(t *Term) bool {
	switch t.K {
	case KOp:
		switch t.Op {
		case "<", ">", "<=", ">=", "==", "!=", "!", "-", "strings.Compare", "cmp.Compare", "conv":
		default:
			if !strings.HasPrefix(t.Op, ".") && !strings.HasPrefix(t.Op, "conv") {
				return false
			}
		}
	case KLabel, KConst, KCat, KChoice, KTuple:
	default:
		return false
	}
	for _, a := range t.Args {
		if !keeps(a) {
			return false
		}
	}
	return true
}

func (d *detRange) totalLess(c *ssa.Call, cmp bool) bool {
	in := NewInterp(d.R.P)
	var st types.Type
	arg := c.Call.Args[0]
	if mi, ok := arg.(*ssa.MakeInterface); ok {
		arg = mi.X
	}
	st = arg.Type()
	sl, ok := st.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	x, y := d.absElems(in, sl.Elem())
	at := types.NewArray(sl.Elem(), 2)
	o := in.inputObj("elems", "elems", at, nil)
	o.Init = in.ts.Struct(at, []*Term{x, y})
	s := in.ts.Slice(o.ID, 0, 2, st)
	var fn *ssa.Function
	var bind []*Term
	switch f := c.Call.Args[1].(type) {
	case *ssa.Function:
		fn = f
	case *ssa.MakeClosure:
		fn = f.Fn.(*ssa.Function)
		for i, b := range f.Bindings {
			// a captured variable holding the slice
			pt, ok := b.Type().Underlying().(*types.Pointer)
			if !ok {
				return false
			}
			if types.Identical(pt.Elem(), st) {
				co := in.inputObj(fmt.Sprint("cap", i), "captured", pt.Elem(), s)
				bind = append(bind, in.ts.Addr(co.ID))
				continue
			}
			// a captured owner of the slice field: any load of type st gives s
			cfg := &shapeCfg{leaf: func(p string, t types.Type) *Term {
				if types.Identical(t, st) {
					return s
				}
				return nil
			}, n: func(string) int { return 1 }}
			bind = append(bind, in.build(b.Type(), fmt.Sprint("cap", i), cfg))
		}
	default:
		return false
	}
	return d.decisive(in, func(i, j int) []Outcome {
		stt := newState()
		var args []*Term
		if cmp {
			args = []*Term{[]*Term{x, y}[i], []*Term{x, y}[j]}
		} else {
			args = []*Term{in.ts.Int(int64(i)), in.ts.Int(int64(j))}
		}
		return in.callFn(fn, args, bind, stt, nil)
	})
}

func (d *detRange) totalLessMethod(less *ssa.Function, st types.Type) bool {
	sl, ok := st.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	in := NewInterp(d.R.P)
	x, y := d.absElems(in, sl.Elem())
	at := types.NewArray(sl.Elem(), 2)
	o := in.inputObj("elems", "elems", at, nil)
	o.Init = in.ts.Struct(at, []*Term{x, y})
	s := in.ts.Slice(o.ID, 0, 2, st)
	return d.decisive(in, func(i, j int) []Outcome {
		return in.callFn(less, []*Term{s, in.ts.Int(int64(i)), in.ts.Int(int64(j))}, nil, newState(), nil)
	})
}

// sorted: the list collected in p is sorted before anything reads it.
func (d *detRange) sorted(p ssa.Value) { d.sortedIn(d.fn, p, 0) }

func (d *detRange) sortedIn(fn *ssa.Function, p ssa.Value, depth int) {
	if depth > 3 {
		d.bad(p.Pos(), "a list in map order travels too far to follow")
		return
	}
	alias := map[ssa.Value]bool{p: true}
	inLoop := func(i ssa.Instruction) bool { return fn == d.fn && d.body[i.Block()] }
	locs := map[string]bool{}
	for changed := true; changed; {
		changed = false
		add := func(v ssa.Value) {
			if !alias[v] {
				alias[v] = true
				changed = true
			}
		}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				switch x := i.(type) {
				case *ssa.Phi:
					for _, e := range x.Edges {
						if alias[e] {
							add(x)
						}
					}
				case *ssa.ChangeType:
					if alias[x.X] {
						add(x)
					}
				case *ssa.Slice:
					if alias[x.X] {
						add(x)
					}
				case *ssa.Store:
					if alias[x.Val] {
						k, _ := locKey(x.Addr)
						if !locs[k] {
							locs[k] = true
							changed = true
						}
					}
				case *ssa.UnOp:
					if x.Op == token.MUL {
						// a load sees the last store before it in its block, if there is one
						if k, _ := locKey(x.X); locs[k] && !replacedBefore(x, k, alias) {
							add(x)
						}
					}
				case *ssa.Call:
					if c, ok := isAppend(x); ok {
						for _, a := range c.Call.Args {
							if alias[a] {
								add(x)
							}
						}
					}
				}
			}
		}
	}
	var sorts, partial []ssa.Instruction
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if y, t := d.sortCall(i, func(v ssa.Value) bool { return alias[v] }); y && t {
				sorts = append(sorts, i)
			} else if y {
				partial = append(partial, i)
			}
		}
	}
	dominated := func(i ssa.Instruction) bool {
		for _, s := range sorts {
			if inLoop(s) {
				continue
			}
			if s.Block() == i.Block() {
				for _, x := range i.Block().Instrs {
					if x == s {
						return true
					}
					if x == i {
						break
					}
				}
				continue
			}
			if s.Block().Dominates(i.Block()) {
				return true
			}
		}
		return false
	}
	// a sort that leaves ties says nothing by itself; after a total one it is
	// a further step of a fixed computation
	for _, i := range partial {
		if !dominated(i) {
			d.bad(i.Pos(), "the sort of a list collected in map order is not a total order")
			sorts = append(sorts, i)
		}
	}
	isSort := func(i ssa.Instruction) bool {
		for _, s := range sorts {
			if s == i {
				return true
			}
		}
		return false
	}
	for _, b := range fn.Blocks {
		if b == fn.Recover {
			continue // reached only when a deferred call stops a panic
		}
		for _, i := range b.Instrs {
			uses := false
			for _, op := range i.Operands(nil) {
				if *op != nil && alias[*op] {
					uses = true
				}
			}
			if !uses || dominated(i) || isSort(i) {
				continue
			}
			switch x := i.(type) {
			case *ssa.Phi, *ssa.ChangeType, *ssa.MakeInterface, *ssa.DebugRef, *ssa.Slice, *ssa.MakeClosure:
				continue
			case *ssa.BinOp: // comparison with nil
				continue
			case *ssa.Store:
				if alias[x.Val] {
					if al, ok := x.Addr.(*ssa.Alloc); ok && !escapes(al) {
						continue
					}
					// kept in memory: it must be sorted on every way out
					d.mustSortAfter(fn, x, sorts)
				}
				continue
			case *ssa.UnOp:
				continue
			case *ssa.Return:
				callers := d.callersOf(fn)
				if callers == nil {
					d.bad(x.Pos(), "a list in map order is returned to the caller")
					continue
				}
				for k, r := range x.Results {
					if !alias[r] {
						continue
					}
					for _, c := range callers {
						var v ssa.Value = c
						if len(x.Results) > 1 {
							for _, q := range *c.Referrers() {
								if e, ok := q.(*ssa.Extract); ok && e.Index == k {
									d.sortedIn(c.Parent(), e, depth+1)
								}
							}
							continue
						}
						d.sortedIn(c.Parent(), v, depth+1)
					}
				}
				continue
			case *ssa.Call:
				if bt, ok := x.Call.Value.(*ssa.Builtin); ok && (bt.Name() == "len" || bt.Name() == "cap" || bt.Name() == "append") {
					continue
				}
			}
			if inLoop(i) {
				continue
			}
			d.bad(i.Pos(), "a list collected in map order is read before it is sorted")
		}
	}
}

// replacedBefore: the last store to k before the load, in its block, is of another value.
func replacedBefore(ld *ssa.UnOp, k string, alias map[ssa.Value]bool) bool {
	replaced := false
	for _, i := range ld.Block().Instrs {
		if i == ssa.Instruction(ld) {
			break
		}
		if st, ok := i.(*ssa.Store); ok {
			if sk, _ := locKey(st.Addr); sk == k {
				replaced = !alias[st.Val]
			}
		}
	}
	return replaced
}

func escapes(a *ssa.Alloc) bool {
	for _, r := range *a.Referrers() {
		switch x := r.(type) {
		case *ssa.UnOp, *ssa.MakeClosure, *ssa.DebugRef:
		case *ssa.Store:
			if x.Addr != ssa.Value(a) {
				return true
			}
		default:
			return true
		}
	}
	return false
}

// callersOf lists the call sites of an unexported function (nil if exported or taken as a value).
func (d *detRange) callersOf(fn *ssa.Function) []*ssa.Call {
	if fn.Object() != nil && fn.Object().Exported() {
		return nil
	}
	var out []*ssa.Call
	for _, g := range d.R.P.Funcs {
		for _, b := range g.Blocks {
			for _, i := range b.Instrs {
				if c, ok := i.(*ssa.Call); ok && c.Call.StaticCallee() == fn {
					out = append(out, c)
				}
			}
		}
	}
	return out
}

// after: one of the instructions comes before i on every path.
func after(before []ssa.Instruction, i ssa.Instruction) bool {
	for _, x := range before {
		if x.Block() != i.Block() && x.Block().Dominates(i.Block()) {
			return true
		}
		if x.Block() == i.Block() {
			for _, y := range i.Block().Instrs {
				if y == x {
					return true
				}
				if y == i {
					break
				}
			}
		}
	}
	return false
}

// sortedLoc: the list kept in a memory location is sorted on every way from the loop.
func (d *detRange) sortedLoc(lk string, s *ssa.Store) {
	var sorts []ssa.Instruction
	isLoad := func(v ssa.Value) bool {
		u, ok := v.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			return false
		}
		k, _ := locKey(u.X)
		return k == lk
	}
	for _, b := range d.fn.Blocks {
		for _, i := range b.Instrs {
			y, t := d.sortCall(i, isLoad)
			if !y || d.body[i.Block()] {
				continue
			}
			if !t && !after(sorts, i) {
				d.bad(i.Pos(), "the sort of a list collected in map order is not a total order")
			}
			if t || !after(sorts, i) {
				sorts = append(sorts, i)
			}
		}
	}
	d.mustSortAfter(d.fn, s, sorts)
}

// mustSortAfter: every way from the store (or the loop around it) to a return,
// or back into the loop, passes one of the sorts.
func (d *detRange) mustSortAfter(fn *ssa.Function, s *ssa.Store, sorts []ssa.Instruction) {
	stop := map[*ssa.BasicBlock]bool{}
	for _, x := range sorts {
		stop[x.Block()] = true
	}
	inBody := fn == d.fn && d.body[s.Block()]
	var start []*ssa.BasicBlock
	if inBody {
		for b := range d.body {
			for _, t := range b.Succs {
				if !d.body[t] {
					start = append(start, t)
				}
			}
		}
	} else {
		after := false
		for _, i := range s.Block().Instrs {
			if i == ssa.Instruction(s) {
				after = true
			}
			for _, x := range sorts {
				if after && i == x {
					return
				}
			}
		}
		start = s.Block().Succs
		if len(start) == 0 {
			d.bad(s.Pos(), "a list collected in map order is kept unsorted")
			return
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock) bool
	walk = func(b *ssa.BasicBlock) bool {
		if stop[b] || seen[b] {
			return true
		}
		seen[b] = true
		if len(b.Succs) == 0 {
			_, isPanic := b.Instrs[len(b.Instrs)-1].(*ssa.Panic)
			return isPanic
		}
		if inBody && d.body[b] {
			return false
		}
		for _, t := range b.Succs {
			if !walk(t) {
				return false
			}
		}
		return true
	}
	for _, b := range start {
		if !walk(b) {
			d.bad(s.Pos(), "a list collected in map order is left unsorted on some way out of the function")
			return
		}
	}
}
