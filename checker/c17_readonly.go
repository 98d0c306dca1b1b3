package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C17", "Writers and analyses leave the caller's data untouched", checkC17)
}

// anyDocType reports whether t is the AnyDocument interface (an empty interface).
func isEmptyIface(t types.Type) bool {
	i, ok := t.Underlying().(*types.Interface)
	return ok && i.NumMethods() == 0
}

// readOnlyEntries are the public operations that take caller data to read.
var readOnlyEntries = [][2]string{
	{"tagvalue", "Write"}, {"json", "Write"}, {"yaml", "Write"}, {"reporter", "Generate"},
	{"licensediff", "MakePairs"}, {"licensediff", "MakeResults"},
	{"spdxlib", "GetDescribedPackageIDs"}, {"spdxlib", "ValidateDocument"}, {"spdxlib", "FilterRelationships"},
	{"utils", "GetVerificationCode"}, {"utils", "ShouldIgnore"}, {"utils", "GetAllFilePaths"},
	{"builder", "Build"}, {"builder", "BuildPackageSection"}, {"builder", "BuildCreationInfoSection"}, {"idsearcher", "BuildIDsDocument"},
	{"convert", "FromPtr"}, {"convert", "IsPtr"}, {"convert", "Describe"},
	{"spdx/v2/v2_1/tagvalue/writer", "RenderDocument"}, {"spdx/v2/v2_2/tagvalue/writer", "RenderDocument"}, {"spdx/v2/v2_3/tagvalue/writer", "RenderDocument"},
	{"spdx/v2/common", "RenderElementID"}, {"spdx/v2/common", "RenderDocElementID"},
}

func checkC17(R *Report) {
	R.rule("read-only", "On no path of a public operation that only reads caller data (writers, reporter, license diff, spdxlib queries, builders, JSON encoders) is a store, map update, in-place append, copy or in-place sort applied to memory reachable from the caller's arguments.")
	R.assumption("encoding/json, yaml and the reflection walk they use do not modify the value they encode; the caller-supplied callback of FilterRelationships is outside the property")
	R.minObs = 40
	type job struct {
		name string
		fn   *ssa.Function
		ver  string
		mode string
	}
	var js []job
	for _, e := range readOnlyEntries {
		fn := R.P.Func(e[0], e[1])
		if !R.need(fn != nil, e[0]+"."+e[1]) {
			continue
		}
		any := false
		for i := 0; i < fn.Signature.Params().Len(); i++ {
			if isEmptyIface(fn.Signature.Params().At(i).Type()) {
				any = true
			}
		}
		vs := []string{""}
		if any {
			vs = versions
		}
		for _, v := range vs {
			for _, m := range []string{"known", "unknown"} {
				js = append(js, job{strings.TrimSpace(e[0] + "." + e[1] + " " + v), fn, v, m})
			}
		}
	}
	// every JSON/YAML encoder method of the model
	for _, p := range R.P.Pkgs {
		sp := R.P.SSA[p.PkgPath]
		if sp == nil || !R.P.isLib(sp.Pkg) {
			continue
		}
		for _, n := range sp.Pkg.Scope().Names() {
			tn, ok := sp.Pkg.Scope().Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			for _, mn := range []string{"MarshalJSON", "MarshalYAML", "MarshalText"} {
				if fn := R.P.DeclaredMethod(tn.Type(), mn); fn != nil && len(fn.Blocks) > 0 {
					js = append(js, job{strings.TrimPrefix(tn.Pkg().Path(), R.P.Module+"/") + "." + n + "." + mn, fn, "", "unknown"})
				}
			}
		}
	}
	var jobs []func()
	for _, j := range js {
		j := j
		jobs = append(jobs, func() {
			in := NewInterp(R.P)
			s := &scenario{def: "?", n: func(string) int { return 2 }}
			if j.mode == "known" {
				s.def = "gen"
			}
			cfg := s.install(in)
			var args []*Term
			for i, p := range j.fn.Params {
				t := p.Type()
				switch {
				case isEmptyIface(t) && j.ver != "":
					docT := R.P.Type(verRel(j.ver), "Document")
					args = append(args, boxDoc(in, docT, cfg))
				case isEmptyIface(t):
					args = append(args, in.Label(p.Name(), t))
				default:
					if _, isI := t.Underlying().(*types.Interface); isI {
						args = append(args, in.Label(p.Name(), t))
						continue
					}
					if _, isF := t.Underlying().(*types.Signature); isF {
						args = append(args, in.Label(p.Name(), t))
						continue
					}
					if s, ok := t.Underlying().(*types.Slice); ok && i > 0 {
						if _, isF := s.Elem().Underlying().(*types.Signature); isF {
							args = append(args, in.ts.Nil())
							continue
						}
					}
					args = append(args, in.build(t, "arg"+string(rune('0'+i)), cfg))
				}
			}
			outs := in.entryCall(j.fn, args...)
			R.absorb(in)
			where := R.P.Pos(j.fn.Pos())
			R.ob(j.name+" analysed", len(outs) > 0, where, "no path through the operation could be followed")
			if t := in.trouble(); t != "" {
				R.fail(j.name+" decided", where, "undecided: "+t)
			}
			clean := true
			seen := map[string]bool{}
			for _, o := range outs {
				for _, e := range sortedEvents(o.st, "write-input") {
					who := generalise(e.Aux)
					if who == "" && e.Term != nil {
						who = generalise(e.Term.String())
					}
					if strings.Contains(who, "<free>") || seen[who] {
						continue
					}
					seen[who] = true
					clean = false
					R.fail(j.name+" writes "+short(who, 120), R.P.Pos(e.Pos), "caller-owned memory is modified ("+e.Ctx+")")
				}
			}
			R.ob(j.name+" leaves its arguments untouched ("+j.mode+")", clean || len(seen) > 0, where, "")
		})
	}
	par(jobs)
}
