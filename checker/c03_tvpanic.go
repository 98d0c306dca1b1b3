package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C03", "Reading tag-value never panics", checkC03)
}

// C03: each parser entry is run from an arbitrary input, the loop over pairs
// (or lines) to a fixpoint: all states the parser can be in between two pairs,
// whatever came before. No nil dereference, out-of-range index, write to a nil
// map, failing type assertion or panic() may be reachable.
func checkC03(R *Report) {
	R.rule("no-panic", "from any pair list (line list) and any parser state reachable through it, no instruction of the readers can panic")
	R.assumption("the standard library functions the readers call do not panic; strings.Split and SplitN with n>0 return at least one element")
	type entry struct{ rel, fn string }
	es := []entry{{"tagvalue/reader", "ReadTagValues"}}
	for _, ver := range versions {
		es = append(es, entry{"spdx/v2/" + ver + "/tagvalue/reader", "ParseTagValues"})
	}
	var jobs []func()
	for _, e := range es {
		jobs = append(jobs, func() {
			fn := R.P.Func(e.rel, e.fn)
			if !R.need(fn != nil, e.rel+"."+e.fn) {
				return
			}
			in := NewInterp(R.P)
			in.checkNil = true
			in.shapeMode = true
			in.maxParts = 100000
			in.maxStep = 20_000_000
			in.trackType = func(t types.Type) bool {
				n, ok := types.Unalias(t).(*types.Named)
				return ok && n.Obj().Pkg() == fn.Pkg.Pkg
			}
			outs := in.entryCall(fn, in.Label("in", fn.Signature.Params().At(0).Type()))
			R.absorb(in)
			R.panicObligations(in, fn, outs)
		})
	}
	par(jobs)
}

// panicObligations records, per function of the repository the run went
// through, that no instruction of it can panic.
func (R *Report) panicObligations(in *Interp, fn *ssa.Function, outs []Outcome) {
	R.panicObligations2(in, strings.TrimPrefix(fn.String(), R.P.Module+"/"), fn, outs)
}

func (R *Report) panicObligations2(in *Interp, name string, fn *ssa.Function, outs []Outcome) {
	trouble := in.trouble()
	R.ob("decided:"+name, trouble == "" && len(outs) > 0, R.P.Pos(fn.Pos()), "the analysis of "+name+" is incomplete: "+trouble)
	bad := map[*ssa.Function]bool{}
	var as []*Alarm
	for _, a := range in.alarms {
		as = append(as, a)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].Pos < as[j].Pos })
	for _, a := range as {
		if a.Kind == "index" && inBounds(a.Fn, a.Pos) {
			continue
		}
		bad[a.Fn] = true
		R.fail(fmt.Sprintf("no-panic:%s:%s:%s", name, short(strings.TrimPrefix(a.Fn.String(), R.P.Module+"/"), 80), a.Kind), R.P.Pos(a.Pos), a.Msg+" ("+a.Ctx+")")
	}
	for f := range in.visited {
		if pk := fnPkg(f); pk != nil && R.P.inRepo(pk) && !bad[f] {
			R.ob(fmt.Sprintf("no-panic:%s:%s", name, strings.TrimPrefix(f.String(), R.P.Module+"/")), true, R.P.Pos(f.Pos()), "")
		}
	}
}
