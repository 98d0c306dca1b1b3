package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var versions = []string{"v2_1", "v2_2", "v2_3"}

func verRel(v string) string { return "spdx/v2/" + v }

func verNum(v string) int { return int(v[len(v)-1] - '0') }

// scenario is a class of abstract inputs: what is assumed of each leaf and
// which optional parts and lists exist.
type scenario struct {
	leaf    map[string]string // by exact or generalised path: "" empty, "ne" non-empty, "gen" generic token, "ml" multi-line text, "true", "false", "=text"
	def     string            // what every other string leaf is assumed to be ("?" nothing)
	n       func(gen string) int
	present func(gen string) bool
	fn      func(path string) (string, bool) // asked first
}

func (s *scenario) spec(path string) (string, bool) {
	if s.fn != nil {
		if v, ok := s.fn(path); ok {
			return v, true
		}
	}
	if v, ok := s.leaf[path]; ok {
		return v, true
	}
	if v, ok := s.leaf[generalise(path)]; ok {
		return v, true
	}
	if isMapKey(path) {
		return "gen", true // the keys of one map are distinct
	}
	return "", false
}

func isMapKey(path string) bool {
	i := strings.LastIndex(path, ".key")
	return i >= 0 && i+4 < len(path) && strings.Trim(path[i+4:], "0123456789") == ""
}

// install makes the scenario the interpreter's view of the labels.
func (s *scenario) install(in *Interp) *shapeCfg {
	def := s.def
	attr := map[string]Attr{
		"ne":  {NonEmpty: true},
		"gen": {NonEmpty: true, Generic: true, Distinct: true},
		// any part of a line, white space at its ends included
		"rawline": {NonEmpty: true, Generic: true, Distinct: true, Lacks: []string{"\n", "\r"}},
		"ml":      {NonEmpty: true, MultiLine: true},
		"int":     {NonEmpty: true, Generic: true, Distinct: true, Int: true},
		// any text on one line with nothing to trim
		"line": {NonEmpty: true, Trimmed: true, Lacks: []string{"\n", "\r", "<text>", "</text>"}},
		// any word: what a line may hold, without separators
		"word": {NonEmpty: true, Trimmed: true, Lacks: []string{"\n", "\r", "\t", " ", ":", "(", ")", "<", ">", "\""}},
		// any URI: a word that may hold colons
		"uri": {NonEmpty: true, Trimmed: true, Lacks: []string{"\n", "\r", "\t", " ", "(", ")", "<", ">", "\""}},
		// any text that JSON writes as it is
		"jw": {NonEmpty: true, Trimmed: true, Lacks: []string{"\"", "\\", "\n", "\r", "\t"}},
		// an identifier without its prefix
		"jid": {NonEmpty: true, Trimmed: true, Lacks: []string{"\"", "\\", "\n", "\r", "\t", " ", ":", "Ref-"}},
		// any text
		"any": {NonEmpty: true},
		// the name of an agent
		"jag":   {NonEmpty: true, Trimmed: true, Lacks: []string{"\"", "\\", "\n", "\r", "\t", "NOASSERTION"}},
		"anyag": {NonEmpty: true, Trimmed: true, Lacks: []string{"NOASSERTION"}},
		// any text, with line breaks, but no end mark
		"text": {NonEmpty: true, Lacks: []string{"<text>", "</text>"}},
	}
	in.attr = func(t *Term) Attr {
		if t.K != KLabel {
			return Attr{}
		}
		if strings.Contains(t.Op, "~") {
			return Attr{Lacks: []string{"\n", "\r", "<text>", "</text>"}}
		}
		sp, ok := s.spec(t.Op)
		if !ok {
			sp = def
		}
		if strings.HasPrefix(sp, "has:") {
			return Attr{NonEmpty: true, Has: []string{sp[4:]}}
		}
		return attr[sp]
	}
	return &shapeCfg{
		n: func(p string) int {
			if s.n != nil {
				return s.n(generalise(p))
			}
			return 2
		},
		ptr: func(p string) byte {
			if s.present != nil && !s.present(generalise(p)) {
				return 'n'
			}
			return 'p'
		},
		slice: func(p string) byte {
			if s.present != nil && !s.present(generalise(p)) {
				return 'n'
			}
			return 'p'
		},
		leaf: func(p string, t types.Type) *Term {
			sp, ok := s.spec(p)
			if !ok {
				if _, basic := t.Underlying().(*types.Basic); !basic {
					return nil
				}
				sp = def
			}
			b, _ := t.Underlying().(*types.Basic)
			switch {
			case sp == "nil":
				return in.ts.Nil()
			case sp == "paras": // any text of three lines, the middle one empty
				return in.ts.Cat(in.Label(p+"~1", t), in.ts.Str("\n\n"), in.Label(p+"~2", t))
			case sp == "zero":
				return in.zero(t)
			case sp == "true":
				return in.ts.Bool(true)
			case sp == "false":
				return in.ts.Bool(false)
			case strings.HasPrefix(sp, "="):
				return in.ts.Str(sp[1:])
			case sp == "" && b != nil:
				return in.zero(t)
			}
			return nil
		},
	}
}

// leafPaths lists the generalised paths of every leaf of type t.
func leafPaths(t types.Type, path string) []string {
	var out []string
	var walk func(t types.Type, path string, seen map[string]int)
	walk = func(t types.Type, path string, seen map[string]int) {
		if n, ok := types.Unalias(t).(*types.Named); ok {
			if seen[n.String()] > 0 {
				return
			}
			seen[n.String()]++
			defer func() { seen[n.String()]-- }()
		}
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			walk(u.Elem(), path, seen)
		case *types.Slice:
			if isByteSlice(t) {
				out = append(out, path)
				return
			}
			walk(u.Elem(), path+"[]", seen)
		case *types.Map:
			out = append(out, path+".key[]")
			walk(u.Elem(), path+"[]", seen)
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				f := u.Field(i)
				p := path + "." + f.Name()
				if f.Embedded() {
					if _, isStruct := deref2(f.Type()).Underlying().(*types.Struct); isStruct {
						p = path
					}
				}
				walk(f.Type(), p, seen)
			}
		default:
			out = append(out, path)
		}
	}
	walk(t, path, map[string]int{})
	return out
}

// termText writes a term as text with {path} for inputs.
func termText(t *Term) string {
	var b strings.Builder
	for _, p := range pieces(t) {
		switch {
		case p.K == KConst:
			switch p.C.Kind() {
			case constant.String:
				b.WriteString(constant.StringVal(p.C))
			default:
				b.WriteString(p.C.ExactString())
			}
		case p.K == KLabel:
			b.WriteString("{" + p.Op + "}")
		case p.K == KOp && len(p.Args) == 1 && (p.Op == "itoa" || p.Op == "string" || p.Op == "fmt%d" || p.Op == "atoi"):
			b.WriteString(termText(p.Args[0]))
		default:
			b.WriteString("{?" + p.String() + "}")
		}
	}
	return b.String()
}

// termTexts is termText for each alternative a term stands for.
func termTexts(in *Interp, t *Term) []string {
	outs := []*Term{in.ts.Str("")}
	for _, p := range pieces(t) {
		var next []*Term
		for _, o := range outs {
			for _, a := range alts(p) {
				next = append(next, in.ts.Cat(o, a))
			}
		}
		if len(next) > 256 {
			return []string{termText(t)}
		}
		outs = next
	}
	var ss []string
	for _, o := range outs {
		ss = append(ss, termText(o))
	}
	return ss
}

// entryCall runs fn on args from a fresh state.
func (in *Interp) entryCall(fn *ssa.Function, args ...*Term) []Outcome {
	st := newState()
	if in.failMode {
		st.heap.set(in.failObj, in.ts.Struct(in.objs[in.failObj].T, []*Term{in.ts.Bool(false)}))
	}
	return in.callFn(fn, args, nil, st, nil)
}

// trouble reports what kept a run from being decided.
func (in *Interp) trouble() string {
	var ss []string
	for u := range in.unsup {
		ss = append(ss, u)
	}
	if in.overBudget {
		ss = append(ss, "step budget exhausted")
	}
	sort.Strings(ss)
	return strings.Join(ss, "; ")
}

// errClass: 'n' nil error, 'e' an error, '?' either.
func errClass(in *Interp, st *State, t *Term) byte {
	all := byte(0)
	for _, a := range alts(t) {
		c := byte('?')
		switch {
		case a.K == KNil:
			c = 'n'
		case a.K == KIface || a.K == KAddr || nonNilOp(a) || a.K == KTop && a.Op == "nn":
			c = 'e'
		default:
			r := in.eq(st, a, in.ts.Nil())
			r = in.knownBool(st, r)
			if r.isBool() {
				if constBool(r) {
					c = 'n'
				} else {
					c = 'e'
				}
			}
		}
		if all == 0 {
			all = c
		} else if all != c {
			all = '?'
		}
	}
	return all
}

// sortedEvents gives the events of one kind of a state.
func sortedEvents(st *State, kind string) []*Event {
	var es []*Event
	for _, e := range st.events {
		if e.Kind == kind {
			es = append(es, e)
		}
	}
	sort.Slice(es, func(i, j int) bool { return es[i].key() < es[j].key() })
	return es
}

func (R *Report) need(ok bool, what string) bool {
	if !ok {
		R.fail("anchor: "+what, "-", "the exported entry point or type this rule is anchored at was not found")
	}
	return ok
}

// boxDoc makes an AnyDocument holding a pointer to an abstract document.
func boxDoc(in *Interp, docT types.Type, cfg *shapeCfg) *Term {
	v := in.build(docT, "doc", cfg)
	o := in.inputObj("doc", "doc", docT, v)
	return in.ts.Iface(types.NewPointer(docT), in.ts.Addr(o.ID))
}

func short(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

var _ = fmt.Sprint
