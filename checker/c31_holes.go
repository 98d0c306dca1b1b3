package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C31", "No document makes the library panic", checkC31)
}

// holesEntries are the operations that take documents or parts of them. The
// class says what is assumed of the texts in a document with a hole.
var holesEntries = []struct{ rel, fn, class string }{
	{"tagvalue", "Write", "gen"}, {"json", "Write", "json"}, {"yaml", "Write", "json"}, {"reporter", "Generate", "gen"},
	{"licensediff", "MakePairs", "?"}, {"licensediff", "MakeResults", "?"},
	{"spdxlib", "GetDescribedPackageIDs", "?"}, {"spdxlib", "ValidateDocument", "?"}, {"spdxlib", "FilterRelationships", "?"}, {"spdxlib", "SortElementIDs", "?"},
	{"utils", "GetVerificationCode", "?"},
	{"convert", "FromPtr", "gen"}, {"convert", "IsPtr", "gen"}, {"convert", "Describe", "gen"}, {"convert", "Document", "gen"},
	{"spdx/v2/common", "RenderElementID", "?"}, {"spdx/v2/common", "RenderDocElementID", "?"},
	{"spdx/v2/common", "MakeDocElementID", "?"}, {"spdx/v2/common", "MakeDocElementSpecial", "?"},
}

// hole is one way the value given lacks something.
type hole struct {
	name  string
	def   string
	ptr   func(p string) byte
	slice func(p string) byte
}

func checkC31(R *Report) {
	R.rule("no panic", "No instruction of a writer, comparison, report, query or conversion can panic, whatever the document given to it lacks: every pointer of the document absent in turn (sections, parts of an element, elements of lists and maps), all of them absent, all lists absent, and whatever its texts are; nor can one of the JSON and YAML readers when a null, an empty or short text, an empty object or list, a list of null, a number or a boolean stands for any one value of the text.")
	R.assumption("readers, writers and functions given to the library are not nil and do not panic; the standard library, the YAML library and the struct converter do not panic on the values they are given; the document itself is given")
	R.minObs = 400
	type entry struct {
		name, class, ver, to string
		fn                   *ssa.Function
	}
	var es []entry
	for _, e := range holesEntries {
		fn := R.P.Func(e.rel, e.fn)
		if !R.need(fn != nil, e.rel+"."+e.fn) {
			continue
		}
		any := false
		for _, p := range fn.Params {
			any = any || isEmptyIface(p.Type())
		}
		if !any {
			es = append(es, entry{e.rel + "." + e.fn, e.class, "", "", fn})
			continue
		}
		for _, v := range versions {
			if e.rel+"."+e.fn == "convert.Document" {
				for _, to := range versions {
					es = append(es, entry{e.rel + "." + e.fn + " from " + v + " to " + to, e.class, v, to, fn})
				}
				continue
			}
			es = append(es, entry{e.rel + "." + e.fn + " " + v, e.class, v, "", fn})
		}
	}
	for _, p := range R.P.Pkgs {
		sp := R.P.SSA[p.PkgPath]
		if sp == nil || !R.P.isLib(sp.Pkg) {
			continue
		}
		for _, n := range sp.Pkg.Scope().Names() {
			tn, ok := sp.Pkg.Scope().Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			for _, mn := range []string{"MarshalJSON", "MarshalYAML", "MarshalText", "UnmarshalJSON", "UnmarshalYAML", "UnmarshalText", "ConvertFrom"} {
				if n == "Document" && (mn == "UnmarshalJSON" || mn == "MarshalJSON") {
					continue // reached through the readers and writers
				}
				if fn := R.P.DeclaredMethod(tn.Type(), mn); fn != nil && len(fn.Blocks) > 0 {
					es = append(es, entry{strings.TrimPrefix(tn.Pkg().Path(), R.P.Module+"/") + "." + n + "." + mn, "?", "", "", fn})
				}
			}
		}
	}
	present := func(string) byte { return 'p' }
	top := func(p string) bool {
		return p == "doc" || strings.HasPrefix(p, "arg") && !strings.ContainsAny(p, ".[")
	}
	var jobs []func()
	for _, e := range es {
		// the pointers and lists of what the entry takes
		var ptrs []string
		run := func(h hole, record bool) func() {
			return func() {
				in := NewInterp(R.P)
				in.checkNil = true
				in.callLabel = func(st *State, f *Term, args []*Term) []Outcome {
					sig, ok := f.T.(*types.Signature)
					if !ok {
						if f.T == nil {
							return nil
						}
						if sig, ok = f.T.Underlying().(*types.Signature); !ok {
							return nil
						}
					}
					var res []*Term
					for i := 0; i < sig.Results().Len(); i++ {
						t := sig.Results().At(i).Type()
						cfg := &shapeCfg{ptr: func(string) byte { return '?' }}
						res = append(res, in.build(t, fmt.Sprintf("given%d", i), cfg))
					}
					return []Outcome{{st: st, res: res}}
				}
				s := &scenario{def: h.def, n: func(string) int { return 2 }}
				if h.def == "json" {
					s = jsonScenario(e.ver, rtCase{}, "jw")
					s.n = func(string) int { return 2 }
				}
				in.jsonMode = e.class == "json"
				in.convMode = e.to != ""
				cfg := s.install(in)
				seen := map[string]bool{}
				cfg.ptr = func(p string) byte {
					if top(p) {
						return 'p'
					}
					if record && !seen[p] {
						seen[p] = true
						ptrs = append(ptrs, p)
					}
					return h.ptr(p)
				}
				cfg.slice = func(p string) byte {
					if strings.HasSuffix(p, ".hasFiles") {
						return 'n' // private; the readers leave it empty
					}
					return h.slice(p)
				}
				var args []*Term
				for i, p := range e.fn.Params {
					t := p.Type()
					switch {
					case isEmptyIface(t) && e.to != "" && i > 0:
						docT := R.P.Type(verRel(e.to), "Document")
						o := in.inputObj("target", "target", docT, in.zero(docT))
						args = append(args, in.ts.Iface(types.NewPointer(docT), in.ts.Addr(o.ID)))
					case isEmptyIface(t) && e.ver != "":
						args = append(args, boxDoc(in, R.P.Type(verRel(e.ver), "Document"), cfg))
					default:
						switch u := t.Underlying().(type) {
						case *types.Interface, *types.Signature:
							args = append(args, in.ts.intern(&Term{K: KOp, Op: "nn!" + p.Name(), T: t}))
							continue
						case *types.Slice:
							if _, isF := u.Elem().Underlying().(*types.Signature); isF {
								args = append(args, in.ts.Nil())
								continue
							}
						}
						args = append(args, in.build(t, "arg"+string(rune('0'+i)), cfg))
					}
				}
				if record {
					return
				}
				outs := in.entryCall(e.fn, args...)
				R.absorb(in)
				R.panicObligations2(in, e.name+" "+h.name, e.fn, outs)
			}
		}
		run(hole{"", e.class, present, present}, true)()
		absent := func(string) byte { return 'n' }
		hs := []hole{
			{"full", e.class, present, present},
			{"empty texts", "", present, present},
			{"no parts", e.class, absent, present},
			{"no lists", e.class, present, absent},
			{"no parts, no lists, no texts", "", absent, absent},
		}
		if e.class == "gen" && e.name != "reporter.Generate" && e.to == "" {
			hs = append(hs, hole{"any texts", "?", present, present})
		}
		for _, q := range ptrs {
			if e.fn.Name() == "Describe" {
				break // the standard library prints what is given
			}
			hs = append(hs, hole{"without " + q, e.class, func(p string) byte {
				if p == q {
					return 'n'
				}
				return 'p'
			}, present})
		}
		for _, h := range hs {
			jobs = append(jobs, run(h, false))
		}
	}
	for _, f := range []string{"json", "yaml"} {
		for _, ver := range versions {
			jobs = append(jobs, nullJobs(R, f, ver)...)
		}
	}
	par(jobs)
}

// nullJobs reads texts in which one value is null or not what it should be.
func nullJobs(R *Report, f, ver string) []func() {
	fn := R.P.Func(f, "ReadInto")
	docT := R.P.Type(verRel(ver), "Document")
	if !R.need(fn != nil && docT != nil, f+".ReadInto") {
		return nil
	}
	paths := map[string]bool{"doc": true}
	var walk func(kind, j string, depth int)
	walk = func(kind, j string, depth int) {
		for _, r := range jsonRows(kind, ver) {
			p := j + "." + r.key
			paths[p] = true
			if r.list {
				p += "[0]"
				paths[p] = true
			}
			if jsonTab[r.kind] != "" && depth < 4 {
				walk(r.kind, p, depth+1)
			}
		}
	}
	walk("doc", "doc", 0)
	var ps []string
	for p := range paths {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	var jobs []func()
	type odd struct{ p, v string }
	var os []odd
	for _, p := range ps {
		for _, v := range []string{"null", `""`, `"x"`, `":"`, `"SPDXRef-"`, "{}", "[]", "[null]", "[null,null]", "7", "true"} {
			os = append(os, odd{p, v})
		}
	}
	for _, o := range os {
		p, v := o.p, o.v
		jobs = append(jobs, func() {
			s := jsonScenario(ver, rtCase{}, "jw")
			in := NewInterp(R.P)
			in.checkNil = true
			s.install(in)
			in.jsonMode = true
			x := &jsonTree{in: in, ver: ver, cfg: s.install(in), leafOf: map[string]string{}}
			x.setOver(map[string]string{p: v})
			t := x.obj("doc", "doc", "doc")
			if p == "doc" {
				t = in.jParseText(v)
			}
			if f == "yaml" {
				t = in.ts.intern(&Term{K: KOp, Op: "yaml", Args: []*Term{t}, T: strT})
			}
			in.readText = t
			o := in.inputObj("target", "target", docT, in.zero(docT))
			outs := in.entryCall(fn, in.ts.intern(&Term{K: KOp, Op: "nn!r", T: fn.Signature.Params().At(0).Type()}), in.ts.Iface(types.NewPointer(docT), in.ts.Addr(o.ID)))
			R.absorb(in)
			R.panicObligations2(in, f+".ReadInto "+ver+", "+v+" at "+p, fn, outs)
		})
	}
	return jobs
}
