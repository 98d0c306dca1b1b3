package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C16", "A failed write is reported and buffered output is flushed", checkC16)
}

// checkWriteFailures runs fn with every write to its stream failing at any
// time and demands an error whenever one did.
func checkWriteFailures(R *Report, key string, fn *ssa.Function, mk func(in *Interp) []*Term) {
	in := NewInterp(R.P)
	in.enableFailures()
	args := mk(in)
	outs := in.entryCall(fn, args...)
	R.absorb(in)
	where := R.P.Pos(fn.Pos())
	if t := in.trouble(); t != "" {
		R.fail(key+" decided", where, "undecided: "+t)
	}
	nfail, nok := 0, 0
	sites := map[string]bool{}
	for _, o := range outs {
		for _, e := range sortedEvents(o.st, "failed") {
			sites[R.P.Pos(e.Pos)] = true
		}
		ec := errClass(in, o.st, o.res[len(o.res)-1])
		for id, v := range o.st.heap.all() {
			if v == nil || ec == 'e' {
				continue
			}
			for _, a := range alts(v) {
				if a.K == KOp && a.Op == "wrapw" && len(a.Args) > 1 && in.objs[id].Name != "" {
					R.ob(key+" flushes its buffered writer before returning success", a.Args[1].str() == "clean", where, "output can be left in "+in.objs[id].Name+" when success is returned")
				}
			}
		}
		if !in.hasFailed(o.st) {
			if ec != 'e' {
				nok++
			}
			continue
		}
		nfail++
		for _, e := range sortedEvents(o.st, "failed") {
			R.ob(key+" reports a failed write", ec == 'e', R.P.Pos(e.Pos), "a write fails here ("+e.Ctx+") and the caller can still be told that everything was written")
		}
	}
	R.ob(key+" has a write that can fail", nfail > 0 && len(sites) > 0, where, "no write to the caller's writer was found")
	R.ob(key+" can succeed", nok > 0, where, "no path returns success when all writes succeed")
}

func checkC16(R *Report) {
	R.rule("write-fail", "With any write to the caller's io.Writer failing at any point (a persistent or a one-off failure), every path of the public writers on which one failed returns a non-nil error.")
	R.rule("flush", "No path returns success while a buffering writer layered over the caller's writer still holds output.")
	R.assumption("an io.Writer that fails returns an error, as its contract demands; short writes without an error do not occur; tabwriter surfaces an underlying error at the Write or the Flush that meets it, bufio at Flush")
	R.minObs = 15
	tv := R.P.Func("tagvalue", "Write")
	if R.need(tv != nil, "tagvalue.Write") {
		var jobs []func()
		for _, ver := range versions {
			docT := R.P.Type(verRel(ver), "Document")
			if !R.need(docT != nil, ver+" Document") {
				continue
			}
			for _, mode := range []string{"full", "empty"} {
				mode := mode
				jobs = append(jobs, func() {
					checkWriteFailures(R, "tagvalue.Write of a "+mode+" "+ver+" document", tv, func(in *Interp) []*Term {
						s := &scenario{def: "gen", n: func(string) int { return 1 }}
						if mode == "empty" {
							s.def = "ne"
							s.present = func(g string) bool { return g == "doc" || g == "doc.CreationInfo" }
						}
						cfg := s.install(in)
						return []*Term{boxDoc(in, docT, cfg), in.Label("w", tv.Signature.Params().At(1).Type())}
					})
				})
			}
		}
		par(jobs)
	}
	for _, rel := range []string{"json", "yaml"} {
		fn := R.P.Func(rel, "Write")
		if !R.need(fn != nil, rel+".Write") {
			continue
		}
		checkWriteFailures(R, rel+".Write", fn, func(in *Interp) []*Term {
			args := []*Term{in.ts.Iface(types.NewPointer(R.P.Type(verRel("v2_3"), "Document")), in.ts.Addr(in.inputObj("doc", "doc", R.P.Type(verRel("v2_3"), "Document"), nil).ID)), in.Label("w", fn.Signature.Params().At(1).Type())}
			for i := 2; i < fn.Signature.Params().Len(); i++ {
				args = append(args, in.ts.Nil())
			}
			return args
		})
	}
	rep := R.P.Func("reporter", "Generate")
	if R.need(rep != nil, "reporter.Generate") {
		checkWriteFailures(R, "reporter.Generate", rep, func(in *Interp) []*Term {
			s := &scenario{def: "gen", leaf: map[string]string{"pkg.FilesAnalyzed": "true"}, n: func(string) int { return 2 }}
			cfg := s.install(in)
			pt := rep.Signature.Params().At(0).Type()
			return []*Term{in.build(pt, "pkg", cfg), in.Label("w", rep.Signature.Params().At(1).Type())}
		})
	}
	// the per-version renderers are importable on their own
	var jobs []func()
	for _, ver := range versions {
		fn := R.P.Func(verRel(ver)+"/tagvalue/writer", "RenderDocument")
		docT := R.P.Type(verRel(ver), "Document")
		if fn == nil || docT == nil {
			continue
		}
		jobs = append(jobs, func() {
			checkWriteFailures(R, ver+" RenderDocument", fn, func(in *Interp) []*Term {
				s := &scenario{def: "gen", n: func(string) int { return 1 }}
				cfg := s.install(in)
				o := in.inputObj("doc", "doc", docT, in.build(docT, "doc", cfg))
				return []*Term{in.ts.Addr(o.ID), in.Label("w", fn.Signature.Params().At(1).Type())}
			})
		})
	}
	par(jobs)
}
