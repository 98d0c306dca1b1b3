package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C19", "The library keeps no state between calls", checkC19)
	register("C20", "The library touches nothing but what it is given", checkC20)
}

// pureCalls: packages whose functions and methods only read what they get.
var readingPkgs = map[string]bool{"strings": true, "strconv": true, "unicode": true, "unicode/utf8": true, "regexp": true, "errors": true, "path": true, "path/filepath": true, "maps": true, "bytes": true, "math": true, "fmt": true}

var readingFuncs = map[string]bool{
	"sort.SearchStrings": true, "sort.Search": true, "sort.SearchInts": true, "sort.StringsAreSorted": true, "sort.IsSorted": true, "sort.SliceIsSorted": true,
	"slices.Contains": true, "slices.Index": true, "slices.IndexFunc": true, "slices.ContainsFunc": true, "slices.Equal": true, "slices.BinarySearch": true, "slices.Sorted": true, "slices.Clone": true, "slices.IsSorted": true, "slices.Concat": true,
	"reflect.TypeOf": true, "reflect.DeepEqual": true, "encoding/json.Marshal": true, "encoding/json.MarshalIndent": true, "encoding/json.Valid": true,
	"maps.Clone": true, "github.com/anchore/go-struct-converter.Clone": true,
}

// safeTypes are types of other packages whose methods may be called from
// everywhere at once and change nothing that can be seen.
var safeTypes = map[string]bool{"regexp.Regexp": true, "strings.Replacer": true, "text/template.Template": true, "time.Location": true}

// stateScan follows what is reachable from package variables.
type stateScan struct {
	R       *Report
	P       *Program
	seen    map[ssa.Value]map[string]bool // value -> globals it reaches
	work    []ssa.Value
	callers map[*ssa.Function][]ssa.CallInstruction
	once    map[*ssa.Function]bool // run once, by sync.Once and the like
	okFn    map[*ssa.Function]bool // init functions
	bad     map[string][2]string   // key -> where, detail
	loads   int
}

// immutable: no part of a value of the type can be changed through it.
func immutable(t types.Type, seen map[types.Type]bool) bool {
	if seen[t] {
		return true
	}
	if seen == nil {
		seen = map[types.Type]bool{}
	}
	seen[t] = true
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && safeTypes[n.Obj().Pkg().Path()+"."+n.Obj().Name()] {
		return true
	}
	if types.Identical(t, types.Universe.Lookup("error").Type()) {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() != types.UnsafePointer
	case *types.Signature:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !immutable(u.Field(i).Type(), seen) {
				return false
			}
		}
		return true
	case *types.Array:
		return immutable(u.Elem(), seen)
	case *types.Pointer:
		if n, ok := u.Elem().(*types.Named); ok && n.Obj().Pkg() != nil && safeTypes[n.Obj().Pkg().Path()+"."+n.Obj().Name()] {
			return true
		}
		return false
	case *types.Interface:
		return t.String() == "reflect.Type"
	}
	return false
}

func (s *stateScan) mark(v ssa.Value, from map[string]bool) {
	if v == nil {
		return
	}
	m := s.seen[v]
	if m == nil {
		m = map[string]bool{}
		s.seen[v] = m
	}
	grew := false
	for g := range from {
		if !m[g] {
			m[g] = true
			grew = true
		}
	}
	if grew {
		s.work = append(s.work, v)
	}
}

func (s *stateScan) report(ins ssa.Instruction, gs map[string]bool, what string) {
	fn := ins.Parent()
	for g := range gs {
		k := relName(s.P, fn) + " leaves " + g + " alone"
		if _, ok := s.bad[k]; !ok {
			s.bad[k] = [2]string{s.P.Pos(ins.Pos()), what}
		}
	}
}

func exportedFn(fn *ssa.Function) bool {
	return fn.Object() != nil && fn.Object().Exported() && fn.Parent() == nil
}

// step follows one value into its uses.
func (s *stateScan) step(v ssa.Value) {
	gs := s.seen[v]
	refs := v.Referrers()
	if refs == nil {
		return
	}
	for _, ins := range *refs {
		fn := ins.Parent()
		if s.okFn[fn] || s.once[fn] {
			continue
		}
		switch x := ins.(type) {
		case *ssa.Store:
			if x.Addr == v {
				s.report(ins, gs, "writes it after the program has started")
			} else if immutable(x.Val.Type(), nil) {
			} else if a, ok := x.Addr.(*ssa.Alloc); ok {
				s.mark(a, map[string]bool{})
				s.markLoads(a, gs)
			} else if _, isFree := x.Addr.(*ssa.FreeVar); !isFree {
				s.storeAt(x.Addr, ins, gs)
			}
		case *ssa.MapUpdate:
			if x.Map == v {
				s.report(ins, gs, "writes an entry of it after the program has started")
			} else {
				s.storeAt(x.Map, ins, gs)
			}
		case *ssa.Send:
			s.report(ins, gs, "uses it as a channel, or sends it over one")
		case *ssa.UnOp:
			if !immutable(x.Type(), nil) {
				s.mark(x, gs)
			}
		case *ssa.Phi, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Slice, *ssa.ChangeType, *ssa.ChangeInterface, *ssa.MakeInterface, *ssa.TypeAssert, *ssa.Convert, *ssa.SliceToArrayPointer:
			s.mark(ins.(ssa.Value), gs)
		case *ssa.Field, *ssa.Index, *ssa.Lookup, *ssa.Extract, *ssa.Next:
			val := ins.(ssa.Value)
			if _, isNext := ins.(*ssa.Next); isNext || !immutable(val.Type(), nil) {
				s.mark(val, gs)
			}
		case *ssa.Range:
			s.mark(x, gs)
		case *ssa.MakeClosure:
			for i, b := range x.Bindings {
				if b == v {
					s.mark(x.Fn.(*ssa.Function).FreeVars[i], gs)
				}
			}
		case *ssa.Return:
			if immutable(v.Type(), nil) {
				continue
			}
			if exportedFn(fn) {
				s.report(ins, gs, "hands it out to the caller, who may change it")
			}
			for i, r := range x.Results {
				if r != v {
					continue
				}
				for _, c := range s.callers[fn] {
					cv, ok := c.(*ssa.Call)
					if !ok {
						continue
					}
					if len(x.Results) == 1 {
						s.mark(cv, gs)
						continue
					}
					for _, u := range *cv.Referrers() {
						if e, ok := u.(*ssa.Extract); ok && e.Index == i {
							s.mark(e, gs)
						}
					}
				}
			}
		case ssa.CallInstruction:
			s.call(v, x, gs)
		}
	}
}

// storeAt: a shared reference is put behind an address.
func (s *stateScan) storeAt(addr ssa.Value, ins ssa.Instruction, gs map[string]bool) {
	root := addr
	for {
		switch x := root.(type) {
		case *ssa.FieldAddr:
			root = x.X
			continue
		case *ssa.IndexAddr:
			root = x.X
			continue
		case *ssa.UnOp:
			root = x.X
			continue
		case *ssa.Slice:
			root = x.X
			continue
		}
		break
	}
	// a local composite keeps it: whatever is read from the composite may be it
	if _, ok := root.(*ssa.Alloc); ok {
		s.markLoads(root, gs)
		return
	}
	switch root.(type) {
	case *ssa.MakeMap, *ssa.MakeSlice:
		s.mark(root, gs)
		return
	}
	s.report(ins, gs, "makes it part of a value that is not its own")
}

// markLoads marks what is read through an address.
func (s *stateScan) markLoads(a ssa.Value, gs map[string]bool) {
	if a.Referrers() == nil {
		return
	}
	for _, r := range *a.Referrers() {
		switch x := r.(type) {
		case *ssa.UnOp:
			if !immutable(x.Type(), nil) {
				s.mark(x, gs)
			}
		case *ssa.FieldAddr:
			s.markLoads(x, gs)
		case *ssa.IndexAddr:
			s.markLoads(x, gs)
		case *ssa.Slice:
			s.mark(x, gs)
		case *ssa.MakeClosure:
			for i, b := range x.Bindings {
				if b == a {
					s.markLoads(x.Fn.(*ssa.Function).FreeVars[i], gs)
				}
			}
		case ssa.CallInstruction:
			s.mark(a, gs)
		case *ssa.Return:
			s.mark(a, gs)
		}
	}
}

func (s *stateScan) call(v ssa.Value, c ssa.CallInstruction, gs map[string]bool) {
	com := c.Common()
	if b, ok := com.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			if len(com.Args) > 0 && com.Args[0] == v {
				if sliceOf, ok := v.Type().Underlying().(*types.Slice); ok && !immutable(sliceOf.Elem(), nil) {
					s.mark(c.Value(), gs)
				}
				if !s.exactCap(v) {
					s.report(c, gs, "may append into the memory it shares")
				}
			} else if sl, ok := v.Type().Underlying().(*types.Slice); ok && !immutable(sl.Elem(), nil) {
				s.mark(c.Value(), gs)
			}
		case "copy":
			if com.Args[0] == v {
				s.report(c, gs, "copies into it")
			}
		case "delete", "clear", "close":
			if com.Args[0] == v {
				s.report(c, gs, b.Name()+"s it")
			}
		}
		return
	}
	if cal := com.StaticCallee(); cal != nil {
		if follow(s.P, cal) && !readingFuncs[cal.String()] {
			for i, a := range com.Args {
				if a == v && i < len(cal.Params) {
					s.mark(cal.Params[i], gs)
				}
			}
			return
		}
		full := cal.String()
		if o := cal.Origin(); o != nil {
			full = o.String()
		}
		if strings.HasPrefix(full, "(*sync.Mutex)") || strings.HasPrefix(full, "(*sync.RWMutex)") {
			return // what the mutex guards is looked at itself
		}
		if full == "(*sync.Once).Do" {
			return
		}
		pk := fnPkg(cal)
		if readingFuncs[full] || pk != nil && readingPkgs[pk.Path()] && !strings.HasPrefix(full, "(*strings.Builder)") && !strings.HasPrefix(full, "(*bytes.Buffer)") && !(pk.Path() == "fmt" && strings.HasPrefix(full, "fmt.F") && com.Args[0] == v) {
			return
		}
		s.report(c, gs, "gives it to "+full+", which may keep or change it")
		return
	}
	if com.IsInvoke() && com.Value == v {
		if immutable(v.Type(), nil) {
			return
		}
		// a method of a value a package variable holds
		s.report(c, gs, "calls the method "+com.Method.Name()+" on it, which may change it")
		return
	}
	for _, f := range s.targets(com) {
		for i, a := range com.Args {
			if a == v && i < len(f.Params) {
				s.mark(f.Params[len(f.Params)-len(com.Args)+i], gs)
			}
		}
	}
}

// targets are the library functions a dynamic call can reach.
func (s *stateScan) targets(com *ssa.CallCommon) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range s.P.Funcs {
		if !s.P.isLib(fnPkg(f)) || f.Blocks == nil {
			continue
		}
		if com.IsInvoke() {
			if f.Signature.Recv() != nil && f.Name() == com.Method.Name() && len(f.Params) == len(com.Args)+1 {
				out = append(out, f)
			}
		} else if f.Signature.Recv() == nil && types.Identical(f.Signature, com.Value.Type().Underlying()) {
			out = append(out, f)
		}
	}
	return out
}

// exactCap: the slice is a package variable that is only ever a composite
// literal, which has no room behind its elements.
func (s *stateScan) exactCap(v ssa.Value) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return false
	}
	g, ok := u.X.(*ssa.Global)
	if !ok {
		return false
	}
	for _, m := range g.Pkg.Members {
		f, ok := m.(*ssa.Function)
		if !ok || !s.okFn[f] {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				st, ok := ins.(*ssa.Store)
				if !ok || st.Addr != g {
					continue
				}
				sl, ok := st.Val.(*ssa.Slice)
				if !ok || sl.Low != nil || sl.High != nil || sl.Max != nil {
					return false
				}
			}
		}
	}
	return true
}

// onceFns are the functions that sync.Once and its relatives run.
func onceFns(P *Program) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for _, fn := range P.Funcs {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				c, ok := ins.(ssa.CallInstruction)
				if !ok || c.Common().StaticCallee() == nil {
					continue
				}
				cal := c.Common().StaticCallee()
				n := cal.String()
				if o := cal.Origin(); o != nil {
					n = o.String()
				}
				if n != "(*sync.Once).Do" && !strings.HasPrefix(n, "sync.OnceFunc") && !strings.HasPrefix(n, "sync.OnceValue") {
					continue
				}
				for _, a := range c.Common().Args {
					switch x := a.(type) {
					case *ssa.Function:
						out[x] = true
					case *ssa.MakeClosure:
						// what it captures would become state
						if len(x.Bindings) == 0 {
							out[x.Fn.(*ssa.Function)] = true
						}
					}
				}
			}
		}
	}
	return out
}

func checkC19(R *Report) {
	R.rule("no state", "Nothing writes a package variable of the library or of another package, or anything reachable from one, after the package has been initialised (a function run by sync.Once counts as initialisation if it takes nothing from the call).")
	R.rule("nothing shared", "No exported function hands out, and no document keeps, memory that belongs to a package variable: what one caller gets, no other caller can see.")
	R.rule("no process state", "No library function changes the state of the process: environment, working directory, standard logger, default HTTP or flag sets, signal handling, runtime settings.")
	R.assumption("regexp.Regexp, strings.Replacer and errors may be shared; functions of strings, strconv, regexp, fmt and unicode keep and change nothing they get")
	R.minObs = 20
	s := &stateScan{R: R, P: R.P, seen: map[ssa.Value]map[string]bool{}, callers: map[*ssa.Function][]ssa.CallInstruction{}, once: onceFns(R.P), okFn: map[*ssa.Function]bool{}, bad: map[string][2]string{}}
	var globals []*ssa.Global
	libFns := 0
	uses := map[*ssa.Global][]ssa.Instruction{}
	for _, fn := range R.P.Funcs {
		if !R.P.isLib(fnPkg(fn)) {
			continue
		}
		libFns++
		if fn.Parent() == nil && fn.Signature.Recv() == nil && (fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#")) {
			s.okFn[fn] = true
		}
	}
	for fn := range s.okFn { // closures of initialisers that run during initialisation are few: none is excused
		_ = fn
	}
	name := func(g *ssa.Global) string { return strings.ReplaceAll(g.String(), R.P.Module+"/", "") }
	for _, fn := range R.P.Funcs {
		if !R.P.isLib(fnPkg(fn)) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if c, ok := ins.(ssa.CallInstruction); ok {
					if cal := c.Common().StaticCallee(); cal != nil {
						s.callers[cal] = append(s.callers[cal], c)
						if what := processState(cal); what != "" {
							R.fail(relName(R.P, fn)+" leaves the process alone", R.P.Pos(ins.Pos()), "calls "+what)
						}
					}
				}
				for _, op := range ins.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok {
						if uses[g] == nil {
							globals = append(globals, g)
						}
						uses[g] = append(uses[g], ins)
					}
				}
			}
		}
	}
	sort.Slice(globals, func(i, j int) bool { return name(globals[i]) < name(globals[j]) })
	// a global has no referrers: its uses are gathered above
	for _, g := range globals {
		n := name(g)
		if strings.Contains(n, "init$guard") {
			continue
		}
		s.P = R.P
		gs := map[string]bool{n: true}
		for _, ins := range uses[g] {
			s.useOf(g, ins, gs)
		}
	}
	for len(s.work) > 0 {
		v := s.work[len(s.work)-1]
		s.work = s.work[:len(s.work)-1]
		s.step(v)
	}
	badG := map[string]bool{}
	for k, w := range s.bad {
		R.fail(k, w[0], w[1])
		badG[k] = true
	}
	for _, g := range globals {
		n := name(g)
		if strings.Contains(n, "init$guard") {
			continue
		}
		ok := true
		for k := range badG {
			ok = ok && !strings.Contains(k, " "+n+" ")
		}
		if ok {
			R.ob(n+" is never written, shared or handed out", true, "-", "")
		}
	}
	R.ob("library functions scanned for state", libFns > 100, "-", fmt.Sprintf("only %d functions", libFns))
	R.extra["functions_scanned"], R.extra["package_variables"], R.extra["shared_values_followed"] = libFns, len(globals), len(s.seen)
}

// useOf follows one use of a package variable (its address).
func (s *stateScan) useOf(g *ssa.Global, ins ssa.Instruction, gs map[string]bool) {
	fn := ins.Parent()
	if s.okFn[fn] || s.once[fn] {
		return
	}
	switch x := ins.(type) {
	case *ssa.UnOp:
		if !immutable(x.Type(), nil) {
			s.mark(x, gs)
		}
	case *ssa.Store:
		if x.Addr == g {
			s.report(ins, gs, "writes it after the program has started")
		} else {
			s.storeAt(x.Addr, ins, gs)
		}
	case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Slice, *ssa.Phi, *ssa.MakeInterface, *ssa.ChangeType:
		s.mark(ins.(ssa.Value), gs)
	case *ssa.MakeClosure:
		for i, b := range x.Bindings {
			if b == g {
				s.mark(x.Fn.(*ssa.Function).FreeVars[i], gs)
			}
		}
	case *ssa.Return:
		if exportedFn(fn) {
			s.report(ins, gs, "hands out its address")
		}
		for _, c := range s.callers[fn] {
			if cv, ok := c.(*ssa.Call); ok {
				s.mark(cv, gs)
			}
		}
	case *ssa.MapUpdate:
		s.storeAt(x.Map, ins, gs)
	case ssa.CallInstruction:
		s.call(g, x, gs)
	}
}

// processState names the state of the process a function changes.
func processState(fn *ssa.Function) string {
	n := fn.String()
	switch n {
	case "os.Setenv", "os.Unsetenv", "os.Clearenv", "os.Chdir", "os.Exit", "log.SetOutput", "log.SetFlags", "log.SetPrefix", "log.Fatal", "log.Fatalf", "log.Fatalln",
		"os/signal.Notify", "os/signal.Ignore", "os/signal.Reset", "runtime.GOMAXPROCS", "runtime/debug.SetGCPercent", "runtime/debug.SetMaxStack", "runtime/debug.SetMemoryLimit", "runtime.Goexit",
		"net/http.HandleFunc", "net/http.Handle", "math/rand.Seed", "encoding/gob.Register", "syscall.Umask", "syscall.Exit", "syscall.Setenv", "log/slog.SetDefault", "mime.AddExtensionType":
		return n
	}
	if pk := fnPkg(fn); pk != nil && (pk.Path() == "flag" || pk.Path() == "expvar") && fn.Signature.Recv() == nil {
		return n
	}
	return ""
}

// reading the file system, by purpose
var fileReads = map[string]bool{"os.Open": true, "os.Stat": true, "os.Lstat": true, "os.ReadFile": true, "os.ReadDir": true, "os.Readlink": true,
	"path/filepath.Walk": true, "path/filepath.WalkDir": true, "path/filepath.EvalSymlinks": true, "path/filepath.Abs": true, "path/filepath.Glob": true, "io/ioutil.ReadFile": true, "io/ioutil.ReadDir": true,
	"os.DirFS": true, "io/fs.WalkDir": true, "io/fs.ReadFile": true, "io/fs.ReadDir": true, "io/fs.Stat": true, "os.Getwd": true, "os.SameFile": true, "os.OpenRoot": true}

// functions of os that have no effect
var harmlessOS = map[string]bool{"os.IsNotExist": true, "os.IsExist": true, "os.IsPermission": true, "os.IsTimeout": true, "os.IsPathSeparator": true, "os.NewSyscallError": true, "os.Getpagesize": true, "os.Expand": true}

// fileWrites are methods of an open file that change it.
var fileWrites = map[string]bool{"Write": true, "WriteAt": true, "WriteString": true, "Truncate": true, "Chmod": true, "Chown": true, "ReadFrom": true, "WriteTo": false, "Sync": true, "SetDeadline": true}

// filePackages may look at the file system: they describe a directory.
var filePackages = map[string]bool{"builder": true, "idsearcher": true, "utils": true}

func checkC20(R *Report) {
	R.rule("no effects", "No library function creates, writes, moves or removes a file, starts a program, uses the network, loads code, or writes to standard output, standard error or the log; output goes to the writer the caller gives.")
	R.rule("files only to describe them", "Only the builder, the identifier search and their helpers look at the file system; reading, writing, converting, comparing or reporting on a document cannot reach a function that does.")
	R.rule("read only", "A file is only ever opened for reading.")
	R.assumption("dependencies other than the standard library (gordf, sigs.k8s.io/yaml, anchore/go-struct-converter) are followed through their static calls")
	R.minObs = 60
	P := R.P
	// direct effects of every function
	effects := map[*ssa.Function][]string{}
	reads := map[*ssa.Function][]string{}
	edges := map[*ssa.Function]map[*ssa.Function]bool{}
	libFns := 0
	var visit func(fn *ssa.Function)
	seen := map[*ssa.Function]bool{}
	visit = func(fn *ssa.Function) {
		if seen[fn] {
			return
		}
		seen[fn] = true
		edges[fn] = map[*ssa.Function]bool{}
		lib := P.isLib(fnPkg(fn))
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					switch x := (*op).(type) {
					case *ssa.Global:
						if n := x.String(); n == "os.Stdout" || n == "os.Stderr" || n == "os.Stdin" {
							effects[fn] = append(effects[fn], "uses "+n+" at "+P.Pos(ins.Pos()))
						}
					case *ssa.Function:
						s, r := effectOf(x, ins)
						if s != "" {
							effects[fn] = append(effects[fn], s+" at "+P.Pos(ins.Pos()))
						}
						if r != "" {
							reads[fn] = append(reads[fn], r+" at "+P.Pos(ins.Pos()))
						}
						if follow(P, x) {
							edges[fn][x] = true
							visit(x)
						}
					case *ssa.Builtin:
						if n := x.Name(); n == "print" || n == "println" {
							effects[fn] = append(effects[fn], "writes to standard error with "+n+" at "+P.Pos(ins.Pos()))
						}
					}
				}
				if mc, ok := ins.(*ssa.MakeClosure); ok {
					f := mc.Fn.(*ssa.Function)
					edges[fn][f] = true
					visit(f)
				}
				if c, ok := ins.(ssa.CallInstruction); ok && lib && c.Common().StaticCallee() == nil {
					s := &stateScan{P: P}
					for _, t := range s.targets(c.Common()) {
						edges[fn][t] = true
					}
				}
			}
		}
	}
	var lib []*ssa.Function
	for _, fn := range P.Funcs {
		if P.isLib(fnPkg(fn)) && fn.Blocks != nil {
			lib = append(lib, fn)
			libFns++
			visit(fn)
		}
	}
	// what each function reaches
	reach := func(fn *ssa.Function, what map[*ssa.Function][]string) string {
		done := map[*ssa.Function]bool{fn: true}
		type step struct {
			fn   *ssa.Function
			path string
		}
		q := []step{{fn, relName(P, fn)}}
		for len(q) > 0 {
			s := q[0]
			q = q[1:]
			if w := what[s.fn]; len(w) > 0 {
				return s.path + " " + w[0]
			}
			var next []*ssa.Function
			for t := range edges[s.fn] {
				if !done[t] {
					done[t] = true
					next = append(next, t)
				}
			}
			sort.Slice(next, func(i, j int) bool { return next[i].String() < next[j].String() })
			for _, t := range next {
				q = append(q, step{t, s.path + " -> " + relName(P, t)})
			}
		}
		return ""
	}
	roots := 0
	for _, fn := range lib {
		if fn.Parent() != nil {
			continue
		}
		root := exportedFn(fn) || fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#")
		if !root {
			// an unexported function with an effect is reported by itself
			if w := effects[fn]; len(w) > 0 {
				R.fail(relName(P, fn)+" has no effect", P.Pos(fn.Pos()), w[0])
			}
			continue
		}
		roots++
		p := reach(fn, effects)
		R.ob(relName(P, fn)+" has no effect", p == "", P.Pos(fn.Pos()), "reaches an effect: "+p)
		rel := strings.TrimPrefix(fnPkg(fn).Path(), P.Module+"/")
		if !filePackages[rel] {
			p := reach(fn, reads)
			R.ob(relName(P, fn)+" does not look at the file system", p == "", P.Pos(fn.Pos()), "reaches the file system: "+p)
		}
	}
	R.ob("library functions scanned for effects", libFns > 100 && roots > 50, "-", fmt.Sprintf("only %d functions", libFns))
	R.extra["functions_scanned"], R.extra["entry_points"], R.extra["functions_followed"] = libFns, roots, len(seen)
}

// follow: the function's own code is looked at.
func follow(P *Program, fn *ssa.Function) bool {
	if fn.Blocks == nil {
		return false
	}
	pk := fnPkg(fn)
	if pk == nil {
		return true
	}
	return P.isLib(pk) || strings.Contains(strings.SplitN(pk.Path(), "/", 2)[0], ".")
}

// effectOf gives the effect, or the look at the file system, of using a function.
func effectOf(fn *ssa.Function, at ssa.Instruction) (effect, read string) {
	pk := fnPkg(fn)
	if pk == nil || fn.Name() == "init" {
		return "", ""
	}
	n := fn.String()
	if o := fn.Origin(); o != nil {
		n = o.String()
	}
	path := pk.Path()
	if fileReads[n] {
		return "", "calls " + n
	}
	if n == "os.OpenFile" {
		if c, ok := at.(ssa.CallInstruction); ok && len(c.Common().Args) == 3 {
			if k, ok := c.Common().Args[1].(*ssa.Const); ok && k.Value != nil && k.Int64() == 0 {
				return "", "calls " + n
			}
		}
		return "opens a file with os.OpenFile for more than reading", ""
	}
	switch path {
	case "os":
		if fn.Signature.Recv() != nil {
			if strings.HasPrefix(n, "(*os.File)") && fileWrites[fn.Name()] {
				return "calls " + n, ""
			}
			return "", ""
		}
		if harmlessOS[n] || envFuncs[n] {
			return "", "" // reading the environment is C18's
		}
		return "calls " + n, ""
	case "io/ioutil":
		switch n {
		case "io/ioutil.ReadAll", "io/ioutil.NopCloser":
			return "", ""
		}
		return "calls " + n, ""
	case "fmt":
		if strings.HasPrefix(n, "fmt.Print") || strings.HasPrefix(n, "fmt.Scan") {
			return "calls " + n, ""
		}
	case "log":
		if fn.Signature.Recv() == nil && n != "log.New" {
			return "calls " + n, ""
		}
	case "log/slog", "os/exec", "net", "net/http", "syscall", "plugin", "os/signal", "net/rpc", "net/smtp", "unsafe", "log/syslog":
		return "calls " + n, ""
	}
	return "", ""
}
