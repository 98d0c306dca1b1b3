package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C11", "Conversion keeps everything the target version can hold", checkC11)
}

// hasLeaf: whether a type holds a field at the path, by names.
func hasLeaf(T types.Type, path string) bool {
	for { // map keys
		i, j := strings.IndexByte(path, '<'), strings.IndexByte(path, '>')
		if i < 0 || j < i {
			break
		}
		path = path[:i] + "[]" + path[j+1:]
	}
	fs := strings.Split(strings.TrimPrefix(path, "doc."), ".")
	t := T
	for _, f := range fs {
		name := f
		if i := strings.IndexAny(name, "["); i >= 0 {
			name = name[:i]
		}
		for {
			if p, ok := t.Underlying().(*types.Pointer); ok {
				t = p.Elem()
				continue
			}
			break
		}
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			return false
		}
		o, _, _ := types.LookupFieldOrMethod(st, false, nil, name)
		v, ok := o.(*types.Var)
		if !ok {
			return false
		}
		t = v.Type()
		if name != f {
			switch u := t.Underlying().(type) {
			case *types.Slice:
				t = u.Elem()
			case *types.Map:
				t = u.Elem()
			}
		}
	}
	return true
}

// convScenario: documents holding everything the model has, JSON form or not.
func convScenario(c rtCase) *scenario {
	return &scenario{leaf: map[string]string{}, def: "gen", fn: func(path string) (string, bool) {
		g := generalise(path)
		if v, ok := c.leaf[path]; ok {
			return v, true
		}
		if v, ok := c.leaf[g]; ok {
			return v, true
		}
		last := path[strings.LastIndexByte(path, '.')+1:]
		switch last {
		case "FilesAnalyzed", "IsFilesAnalyzedTagPresent", "IsUnpackaged":
			return "true", true
		case "Offset", "LineNumber":
			return "int", true
		}
		return "", false
	}, n: func(g string) int {
		if c.n != nil {
			if n := c.n(g); n >= 0 {
				return n
			}
		}
		return 2
	}, present: func(g string) bool {
		if strings.HasSuffix(g, ".hasFiles") { // empty outside of decoding (C10)
			return false
		}
		return c.present == nil || c.present(g)
	}}
}

func convCases(docT types.Type) []rtCase {
	cases := []rtCase{{name: "every field"}, {name: "no lists", n: func(string) int { return 0 }}}
	lists := map[string]bool{}
	all := map[string]string{}
	for _, p := range leafPaths(docT, "doc") {
		for i := range p {
			if p[i] == '[' {
				lists[p[:i]] = true
			}
		}
		if isMapKey(strings.TrimSuffix(p, "[]")) || strings.HasSuffix(p, ".hasFiles[]") {
			continue
		}
		g := generalise(p)
		switch b, ok := leafType(docT, p).(*types.Basic); {
		case !ok:
		case b.Info()&types.IsBoolean != 0:
			cases = append(cases, rtCase{name: p + " false", leaf: map[string]string{g: "false"}})
		case b.Info()&types.IsString != 0:
			all[g] = ""
			cases = append(cases, rtCase{name: p + " empty", leaf: map[string]string{g: ""}})
		default:
			cases = append(cases, rtCase{name: p + " zero", leaf: map[string]string{g: "zero"}})
		}
	}
	pvc := "doc.Packages[].PackageVerificationCode"
	cases = append(cases, rtCase{name: "no text", leaf: all}, rtCase{name: "no verification code", leaf: map[string]string{pvc + ".Value": ""}, present: func(g string) bool { return !strings.HasPrefix(g, pvc) }})
	for l := range lists {
		if strings.HasSuffix(l, ".hasFiles") || strings.Contains(l, ".key") {
			continue
		}
		cases = append(cases, rtCase{name: l + " absent", present: func(g string) bool { return g != l }})
		for i, w := range []string{"none", "one", "two", "three"} {
			if i == 2 {
				continue
			}
			cases = append(cases, rtCase{name: l + " of " + w, n: func(g string) int {
				if g == l && i == 3 {
					return longer(3)
				}
				if g == l {
					return i
				}
				return -1
			}})
		}
	}
	for _, o := range []string{"doc.CreationInfo", "doc.Packages[].PackageSupplier", "doc.Packages[].PackageOriginator", "doc.Packages[].PackageVerificationCode"} {
		cases = append(cases, rtCase{name: o + " absent", present: func(g string) bool { return g != o }})
	}
	return cases
}

// convWant: the values of a document that a version can hold.
func convWant(R *Report, s *scenario, fromT, toT types.Type, toVer string) map[string]string {
	want := map[string]string{}
	for k, v := range jsonWant2(R, s, fromT) {
		p := strings.TrimSuffix(k, ".&")
		if hasLeaf(toT, p) {
			want[k] = v
		}
	}
	want["doc.SPDXVersion"] = "SPDX-2." + toVer[3:]
	return want
}

func jsonWant2(R *Report, s *scenario, docT types.Type) map[string]string {
	in := NewInterp(R.P)
	cfg := s.install(in)
	v := in.build(docT, "doc", cfg)
	return leafTexts(in.leafMap(newState(), v, docT, "doc"))
}

func checkC11(R *Report) {
	R.rule("values", "Converting a document of one version to another gives a document of the other version holding every value at a place both versions have, where it was, and no other value; SPDXVersion names the target version; converting to the own version gives the document itself.")
	R.rule("shared fields", "A field both versions have in their JSON form has the same place in both models.")
	R.rule("reading", "Reading a text of one version into a document of another, or of the current model, converts it; the source document of a conversion is left as it was.")
	R.assumption("anchore/go-struct-converter carries fields over by name, following the registered functions along the shortest chain")
	R.minObs = 500
	conv := R.P.Func("convert", "Document")
	if !R.need(conv != nil, "convert.Document") {
		return
	}
	var jobs []func()
	for _, from := range versions {
		fromT := R.P.Type(verRel(from), "Document")
		if !R.need(fromT != nil, verRel(from)+".Document") {
			continue
		}
		for _, to := range versions {
			toT := R.P.Type(verRel(to), "Document")
			if !R.need(toT != nil, verRel(to)+".Document") {
				continue
			}
			if from != to {
				convShared(R, from, to, fromT, toT)
			}
			for _, c := range convCases(fromT) {
				for _, form := range []string{"value", "pointer", "pointer to a pointer"} {
					if form != "value" && c.name != "every field" {
						continue
					}
					jobs = append(jobs, func() { convRun(R, conv, c, form, from, to, fromT, toT) })
				}
			}
		}
		jobs = append(jobs, convReads(R, from, fromT)...)
	}
	par(jobs)
}

// convShared: what the JSON forms of two versions share stands at one place in the models.
func convShared(R *Report, from, to string, fromT, toT types.Type) {
	in := NewInterp(R.P)
	leaves := func(ver string) map[string]string {
		s := jsonScenario(ver, rtCase{}, "jw")
		x := &jsonTree{in: in, ver: ver, cfg: s.install(in), leafOf: map[string]string{}}
		x.obj("doc", "doc", "doc")
		return x.leafOf
	}
	a, b := leaves(from), leaves(to)
	for j, m := range a {
		if b[j] == "" {
			continue
		}
		R.ob(fmt.Sprintf("%s and %s share %s", from, to, generalise(m)), b[j] == m && hasLeaf(fromT, m) && hasLeaf(toT, m), verRel(to), "the field "+m+" has another name or is missing in one of the versions")
	}
}

func convRun(R *Report, conv *ssa.Function, c rtCase, form, from, to string, fromT, toT types.Type) {
	key := fmt.Sprintf("%s to %s of a %s, %s", from, to, form, c.name)
	where := "convert.Document"
	s := convScenario(c)
	in := NewInterp(R.P)
	cfg := s.install(in)
	in.convMode = true
	v := in.build(fromT, "doc", cfg)
	var src *Term
	so := in.inputObj("src", "src", fromT, v)
	switch form {
	case "value":
		src = in.ts.Iface(fromT, v)
	case "pointer":
		src = in.ts.Iface(types.NewPointer(fromT), in.ts.Addr(so.ID))
	default:
		pp := in.inputObj("srcp", "srcp", types.NewPointer(fromT), in.ts.Addr(so.ID))
		src = in.ts.Iface(types.NewPointer(types.NewPointer(fromT)), in.ts.Addr(pp.ID))
	}
	o := in.inputObj("target", "target", toT, in.zero(toT))
	outs := in.entryCall(conv, src, in.ts.Iface(types.NewPointer(toT), in.ts.Addr(o.ID)))
	R.absorb(in)
	if t := in.trouble(); t != "" || len(outs) == 0 {
		R.fail(key, where, "the conversion is undecided: "+t)
		return
	}
	want := convWant(R, s, fromT, toT, to)
	empty := map[string]bool{}
	if from == to {
		want = jsonWant2(R, s, fromT)
	} else {
		for k := range want {
			if strings.HasSuffix(k, ".&") {
				empty[k] = true
				delete(want, k)
			}
		}
	}
	for _, out := range outs {
		if errClass(in, out.st, out.res[0]) != 'n' {
			R.fail(key, where, "the conversion fails, or it is undecided whether it does: "+short(termText(out.res[0]), 300))
			return
		}
		got := leafTexts(in.leafMap(out.st, in.content(out.st, o.ID), toT, "doc"))
		for k := range got { // an object that is there and holds nothing may go, not come
			if from != to && strings.HasSuffix(k, ".&") && empty[k] {
				delete(got, k)
			}
		}
		if from != to {
			nils := ""
			for k, v := range got { // an element that holds nothing
				if v == "{?nil}" && strings.HasSuffix(k, "]") && want[k] == "" {
					delete(got, k)
					nils = k
				}
			}
			if c.name == "no text" {
				R.ob(key+": elements that hold nothing stay elements", nils == "", where, "the element comes out as a nil pointer: "+nils)
			} else if nils != "" {
				R.fail(key, where, "an element comes out as a nil pointer: "+nils)
				return
			}
		}
		if d := mapDiff(want, got); d != "" {
			R.fail(key, where, d)
			return
		}
	}
	R.ob(key, true, where, "")
}

// runRead runs a reader over the text set up in in: into a target of a type,
// or, when there is none, the Read of the format; the documents read, by outcome.
func runRead(R *Report, format string, in *Interp, target types.Type) ([]Outcome, func(Outcome) map[string]string, string) {
	if target == nil {
		fn := R.P.Func(format, "Read")
		if fn == nil || fn.Signature.Results().Len() != 2 {
			return nil, nil, "there is no " + format + ".Read"
		}
		docT := deref(fn.Signature.Results().At(0).Type())
		var outs []Outcome
		docs := map[*State]*Term{}
		for _, o := range in.entryCall(fn, in.Label("r", fn.Signature.Params().At(0).Type())) {
			docs[o.st] = o.res[0]
			outs = append(outs, Outcome{st: o.st, res: []*Term{o.res[1]}})
		}
		R.absorb(in)
		return outs, func(o Outcome) map[string]string {
			return leafTexts(in.leafMap(o.st, docs[o.st], types.NewPointer(docT), "doc"))
		}, in.trouble()
	}
	fn := R.P.Func(format, "ReadInto")
	if fn == nil {
		return nil, nil, "there is no " + format + ".ReadInto"
	}
	o := in.inputObj("target", "target", target, in.zero(target))
	outs := in.entryCall(fn, in.Label("r", fn.Signature.Params().At(0).Type()), in.ts.Iface(types.NewPointer(target), in.ts.Addr(o.ID)))
	R.absorb(in)
	return outs, func(out Outcome) map[string]string {
		return leafTexts(in.leafMap(out.st, in.content(out.st, o.ID), target, "doc"))
	}, in.trouble()
}

// convReads: reading a text of a version into a document of another one.
func convReads(R *Report, from string, fromT types.Type) []func() {
	var jobs []func()
	current := R.P.Type("spdx", "Document")
	curVer := ""
	for _, v := range versions {
		if t := R.P.Type(verRel(v), "Document"); current != nil && t != nil && types.Identical(types.Unalias(current), t) {
			curVer = v
		}
	}
	if !R.need(curVer != "", "spdx.Document, the model of one of the versions") {
		return nil
	}
	for _, to := range append([]string{"current"}, versions...) {
		var toT types.Type
		toVer := curVer
		if to != "current" {
			toT, toVer = R.P.Type(verRel(to), "Document"), to
		}
		for _, f := range []string{"json", "yaml", "tagvalue"} {
			jobs = append(jobs, func() {
				key := fmt.Sprintf("%s text of %s into %s", f, from, to)
				in := NewInterp(R.P)
				in.convMode = true
				var want map[string]string
				var s *scenario
				where := f + ".ReadInto"
				if f == "tagvalue" {
					c := rtCases(R, from, fromT)[0]
					var lines []string
					var why string
					s, lines, want, why = rtText0(R, from, c)
					if why != "" {
						R.fail(key, "tagvalue.Write", why)
						return
					}
					s.install(in)
					in.lines = []*Term{}
					for _, l := range lines {
						in.lines = append(in.lines, in.tmplTerm(l))
					}
				} else {
					s = jsonScenario(from, rtCase{n: func(string) int { return 2 }}, "jw")
					x := &jsonTree{in: in, ver: from, cfg: s.install(in), leafOf: map[string]string{}}
					in.jsonMode = true
					in.readText = x.obj("doc", "doc", "doc")
					if f == "yaml" {
						in.readText = in.ts.intern(&Term{K: KOp, Op: "yaml", Args: []*Term{in.readText}, T: strT})
					}
					want = jsonWant(R, from, s, jsonReadAdjust(from))
				}
				outs, leaves, why := runRead(R, f, in, toT)
				if why != "" || len(outs) == 0 {
					R.fail(key, where, "reading is undecided: "+why)
					return
				}
				if from != toVer {
					T := R.P.Type(verRel(toVer), "Document")
					for k := range want {
						if !hasLeaf(T, strings.TrimSuffix(k, ".&")) {
							delete(want, k)
						}
					}
					want["doc.SPDXVersion"] = "SPDX-2." + toVer[3:]
				}
				for _, o := range outs {
					if errClass(in, o.st, o.res[0]) != 'n' {
						R.fail(key, where, "the text is refused, or it is undecided whether it is: "+short(termText(o.res[0]), 300))
						return
					}
					if d := mapDiff(want, leaves(o)); d != "" {
						R.fail(key, where, d)
						return
					}
				}
				R.ob(key, true, where, "")
			})
		}
	}
	return jobs
}
