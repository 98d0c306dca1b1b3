package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

func init() {
	register("C07", "JSON and YAML writers put every field under its key", checkC07)
	register("C08", "JSON and YAML readers put every key into its field, or fail", checkC08)
	register("C09", "A document written as JSON or YAML reads back as that document", checkC09)
}

// jsonDoc gives the scenario of a document for the JSON checks.
func jsonScenario(ver string, c rtCase, class string) *scenario {
	leaf := rtFixed(ver)
	// kinds of agents also where the tag-value tests have none
	kinds := []string{"Person", "Organization", "Tool"}
	for k, v := range c.leaf {
		leaf[k] = v
	}
	return &scenario{leaf: map[string]string{}, def: class, fn: func(path string) (string, bool) {
		g := generalise(path)
		if v, ok := leaf[path]; ok {
			return v, true
		}
		if v, ok := leaf[g]; ok {
			return v, true
		}
		n := 0
		path = firstThree(path)
		if i := strings.LastIndexByte(path, '['); i >= 0 && i+1 < len(path) {
			n = int(path[i+1] - '0')
		}
		last := path[strings.LastIndexByte(path, '.')+1:]
		switch last {
		case "AnnotatorType", "CreatorType", "SupplierType", "OriginatorType":
			return "=" + kinds[n%3], true
		case "Annotator", "Creator", "Supplier", "Originator":
			if class == "any" {
				return "anyag", true
			}
			return "jag", true
		case "SpecialID":
			return "", true
		case "AnnotationSPDXIdentifier":
			return "zero", true
		case "ElementRefID", "DocumentRefID", "SPDXIdentifier", "PackageSPDXIdentifier", "FileSPDXIdentifier", "SnippetSPDXIdentifier", "SnippetFromFileSPDXIdentifier":
			return "jid", true
		case "Category":
			return "=SECURITY", true
		case "FilesAnalyzed", "IsFilesAnalyzedTagPresent":
			return "true", true
		case "IsUnpackaged":
			return "zero", true
		case "Algorithm":
			return "=SHA1", true
		case "Offset", "LineNumber":
			byLine := strings.Contains(path, "Ranges[1]")
			if byLine == (last == "LineNumber") {
				return "int", true
			}
			return "zero", true
		}
		return "", false
	}, n: func(g string) int {
		if c.n != nil {
			if n := c.n(g); n >= 0 {
				return n
			}
		}
		return 1
	}, present: func(g string) bool {
		if jsonSkip(ver, g+"[].") || strings.HasSuffix(g, ".hasFiles") {
			return false
		}
		return c.present == nil || c.present(g)
	}}
}

// jsonCases varies one thing at a time over documents that hold everything.
func jsonCases(R *Report, ver string, docT types.Type) []rtCase {
	two := func(string) int { return 2 }
	cases := []rtCase{{name: "every field", n: two}, {name: "no lists", n: func(string) int { return 0 }}}
	lists := map[string]bool{}
	none := map[string]string{}
	for _, p := range leafPaths(docT, "doc") {
		if jsonSkip(ver, p) {
			continue
		}
		for i := range p {
			if p[i] == '[' {
				lists[p[:i]] = true
			}
		}
		last := p[strings.LastIndexByte(p, '.')+1:]
		switch last {
		case "SPDXVersion", "CreatorType", "SupplierType", "OriginatorType", "AnnotatorType", "Annotator", "Creator", "Supplier", "Originator",
			"ElementRefID", "DocumentRefID", "SPDXIdentifier", "PackageSPDXIdentifier", "FileSPDXIdentifier", "SnippetSPDXIdentifier", "SnippetFromFileSPDXIdentifier", "SpecialID", "Category":
			continue
		}
		if strings.HasSuffix(p, "[]") {
			continue
		}
		if b, ok := leafType(docT, p).(*types.Basic); ok && b.Info()&types.IsString != 0 {
			none[p] = ""
			cases = append(cases, rtCase{name: p + " empty", leaf: map[string]string{p: ""}})
		}
	}
	cases = append(cases, rtCase{name: "no optional text", leaf: none})
	var ls []string
	for l := range lists {
		ls = append(ls, l)
	}
	sort.Strings(ls)
	for _, l := range ls {
		cases = append(cases, rtCase{name: l + " absent", present: func(g string) bool { return g != l }})
		for i, w := range []string{"none", "", "two", "three"} {
			if i == 1 {
				continue
			}
			cases = append(cases, rtCase{name: l + " of " + w, n: func(g string) int {
				if g == l && i == 3 {
					return longer(3)
				}
				if g == l {
					return i
				}
				return -1
			}})
		}
	}
	for _, o := range []string{"doc.CreationInfo", "doc.Packages[].PackageSupplier", "doc.Packages[].PackageOriginator"} {
		cases = append(cases, rtCase{name: o + " absent", present: func(g string) bool { return g != o }})
	}
	pvc := "doc.Packages[].PackageVerificationCode"
	cases = append(cases, rtCase{name: pvc + " absent", leaf: map[string]string{pvc + ".Value": ""}, present: func(g string) bool { return !strings.HasPrefix(g, pvc) }})
	for _, o := range []string{"Supplier", "Originator"} {
		cases = append(cases, rtCase{name: "no assertion of the package " + o, leaf: map[string]string{
			"doc.Packages[0].Package" + o + "." + o: "=NOASSERTION", "doc.Packages[0].Package" + o + "." + o + "Type": ""}})
		for _, k := range []string{"Person", "Organization"} {
			cases = append(cases, rtCase{name: o + " of type " + k, leaf: map[string]string{"doc.Packages[0].Package" + o + "." + o + "Type": "=" + k}})
		}
	}
	for _, k := range []string{"Person", "Organization", "Tool"} {
		cases = append(cases, rtCase{name: "creators and annotators of type " + k, leaf: map[string]string{
			"doc.CreationInfo.Creators[0].CreatorType": "=" + k, "doc.Annotations[0].Annotator.AnnotatorType": "=" + k,
			"doc.Packages[0].Annotations[0].Annotator.AnnotatorType": "=" + k, "doc.Files[0].Annotations[0].Annotator.AnnotatorType": "=" + k}})
	}
	for _, a := range []string{"", "other"} {
		for _, b := range []string{"", "other", "NONE", "NOASSERTION"} {
			m := map[string]string{}
			if a == "" {
				m["doc.Relationships[0].RefA.DocumentRefID"] = ""
			}
			switch b {
			case "":
				m["doc.Relationships[0].RefB.DocumentRefID"] = ""
			case "other":
			default:
				m["doc.Relationships[0].RefB.DocumentRefID"] = ""
				m["doc.Relationships[0].RefB.ElementRefID"] = ""
				m["doc.Relationships[0].RefB.SpecialID"] = "=" + b
			}
			cases = append(cases, rtCase{name: fmt.Sprintf("relationship from %q to %q", a, b), leaf: m})
		}
	}
	for _, t := range rdRelationshipTypes {
		cases = append(cases, rtCase{name: "relationship of type " + t, leaf: map[string]string{"doc.Relationships[0].Relationship": "=" + t,
			"doc.Relationships[1].Relationship": "=" + t}, n: func(g string) int {
			if g == "doc.Relationships" {
				return 2
			}
			return -1
		}})
	}
	for _, k := range []string{"SECURITY", "PACKAGE-MANAGER", "PERSISTENT-ID", "OTHER"} {
		cases = append(cases, rtCase{name: "references of category " + k, leaf: map[string]string{"doc.Packages[].PackageExternalReferences[].Category": "=" + k}})
	}
	cases = append(cases, rtCase{name: "files not analyzed", leaf: map[string]string{"doc.Packages[].FilesAnalyzed": "false", pvc + ".Value": ""}, present: func(g string) bool {
		return !strings.HasPrefix(g, pvc) && g != "doc.Packages[].PackageLicenseInfoFromFiles"
	}})
	return cases
}

var rdRelationshipTypes = []string{"DESCRIBES", "DESCRIBED_BY", "CONTAINS", "CONTAINED_BY", "DEPENDS_ON", "OTHER"}

// formats of the JSON model
var jsonFormats = []string{"json", "yaml"}

// jsonWrite runs the writer of a format; the tree written and what is wrong, if anything.
func jsonWrite(R *Report, format, ver string, s *scenario, opts func(in *Interp, st *State) (*State, *Term)) (*Interp, *State, *Term, string) {
	docT := R.P.Type(verRel(ver), "Document")
	fn := R.P.Func(format, "Write")
	in := NewInterp(R.P)
	cfg := s.install(in)
	in.jsonMode, in.keepText = true, true
	st := newState()
	args := []*Term{boxDoc(in, docT, cfg), in.Label("w", fn.Signature.Params().At(1).Type())}
	if fn.Signature.Params().Len() > 2 {
		o := in.ts.Nil()
		if opts != nil {
			st, o = opts(in, st)
		}
		args = append(args, o)
	}
	outs := in.callFn(fn, args, nil, st, nil)
	R.absorb(in)
	if t := in.trouble(); t != "" || len(outs) != 1 {
		for _, o := range outs {
			if errClass(in, o.st, o.res[0]) != 'n' {
				return nil, nil, nil, "writing fails, or it is undecided whether it does: " + short(o.res[0].String(), 200) + " " + t
			}
		}
		return nil, nil, nil, fmt.Sprintf("the text written is undecided (%d outcomes): %s", len(outs), t)
	}
	o := outs[0]
	if errClass(in, o.st, o.res[0]) != 'n' {
		return nil, nil, nil, "writing fails, or it is undecided whether it does: " + short(o.res[0].String(), 200)
	}
	if len(o.st.pend) != 1 {
		return nil, nil, nil, "nothing is written"
	}
	for _, t := range o.st.pend {
		if len(alts(t)) != 1 {
			return nil, nil, nil, "the text written is undecided"
		}
		ps := pieces(t)
		if format == "yaml" {
			if len(ps) == 1 && ps[0].K == KOp && ps[0].Op == "yaml" {
				return in, o.st, ps[0].Args[0], ""
			}
			return nil, nil, nil, "what is written is not the YAML text of the document"
		}
		if len(ps) == 2 && ps[1].isStr() && strings.TrimSpace(ps[1].str()) == "" {
			ps = ps[:1]
		}
		if len(ps) == 1 && in.jParse(ps[0]).kind == 'o' {
			return in, o.st, ps[0], ""
		}
	}
	return nil, nil, nil, "what is written is not one JSON object"
}

func checkC07(R *Report) {
	R.rule("keys", "Every field of the document appears in the tree written under the key the table gives it, in the object of its element and in its form, and nothing else appears.")
	R.rule("every field has a key", "Every field of the model is in the table or is one of the few that are not part of the JSON form.")
	R.assumption("encoding/json and sigs.k8s.io/yaml write the tree their rules give for the struct tags and MarshalJSON methods; texts hold nothing JSON escapes (escaping is C09)")
	var jobs []func()
	R.minObs = 200
	for _, ver := range versions {
		docT := R.P.Type(verRel(ver), "Document")
		if !R.need(docT != nil, verRel(ver)+".Document") {
			continue
		}
		cases := jsonCases(R, ver, docT)
		if ver != "v2_1" {
			for _, k := range []string{"PACKAGE_MANAGER", "PERSISTENT_ID"} {
				cases = append(cases, rtCase{name: "references of category " + k, leaf: map[string]string{"doc.Packages[].PackageExternalReferences[].Category": "=" + k}})
			}
		}
		bare := jsonBare(ver)
		if ver == "v2_1" {
			bare["doc.packages[].packageVerificationCode"] = true
		}
		// coverage of the model
		in := NewInterp(R.P)
		s := jsonScenario(ver, cases[0], "jw")
		x := &jsonTree{in: in, ver: ver, cfg: s.install(in), leafOf: map[string]string{}}
		x.obj("doc", "doc", "doc")
		have := map[string]bool{}
		for _, m := range x.leafOf {
			have[generalise(m)] = true
		}
		for _, p := range leafPaths(docT, "doc") {
			if jsonSkip(ver, p) {
				continue
			}
			ok := have[p]
			for _, a := range []string{"Annotator", "Creator", "Supplier", "Originator", "RefA", "RefB"} {
				if i := strings.LastIndexByte(p, '.'); i > 0 && (strings.HasSuffix(p[:i], a) || strings.HasSuffix(p[:i], "Creators[]")) {
					ok = ok || have[p[:i]]
				}
			}
			R.ob(ver+" field "+p+" has a key", ok, verRel(ver), "the field has no place in the table of JSON keys")
		}
		for _, f := range jsonFormats {
			if !R.need(R.P.Func(f, "Write") != nil, f+".Write") {
				continue
			}
			for _, c := range cases {
				jobs = append(jobs, func() {
					s := jsonScenario(ver, c, "jw")
					key := fmt.Sprintf("%s %s, %s", f, ver, c.name)
					in, _, tree, why := jsonWrite(R, f, ver, s, nil)
					if why != "" {
						R.fail(key, f+".Write", why)
						return
					}
					x := &jsonTree{in: in, ver: ver, cfg: s.install(in), leafOf: map[string]string{}}
					want := jsonNorm(jsonFlat(in, x.obj("doc", "doc", "doc")), bare)
					got := jsonNorm(jsonFlat(in, tree), bare)
					if ver == "v2_1" { // left out when false
						dropFalse(want)
						dropFalse(got)
					}
					d := mapDiff(want, got)
					R.ob(key, d == "", f+".Write", d)
				})
			}
		}
	}
	if R.need(R.P.Func("json", "Write") != nil, "json.Write") {
		for _, ver := range versions {
			jobs = append(jobs, jsonOptions(R, ver)...)
		}
	}
	par(jobs)
}

// jsonOptions: options of the JSON writer reach the encoder and change nothing of what is written.
func jsonOptions(R *Report, ver string) []func() {
	bare := jsonBare(ver)
	if ver == "v2_1" {
		bare["doc.packages[].packageVerificationCode"] = true
	}
	var jobs []func()
	for _, which := range []string{"none", "Indent", "EscapeHTML", "Indent EscapeHTML"} {
		jobs = append(jobs, func() {
			key := "json " + ver + ", options " + which
			s := jsonScenario(ver, rtCase{}, "jw")
			var wantOpts []string
			bad := ""
			in, st, tree, why := jsonWrite(R, "json", ver, s, func(in *Interp, st *State) (*State, *Term) {
				var elems []*Term
				for _, o := range strings.Fields(which) {
					fn := R.P.Func("json", o)
					if which == "none" {
						break
					}
					if fn == nil {
						bad = "there is no json." + o
						break
					}
					arg := in.Label("option", fn.Signature.Params().At(0).Type())
					outs := in.callFn(fn, []*Term{arg}, nil, st, nil)
					if len(outs) != 1 {
						bad = "undecided what json." + o + " gives"
						break
					}
					st = outs[0].st
					elems = append(elems, outs[0].res[0])
					wantOpts = append(wantOpts, map[string]string{"Indent": "SetIndent(,{option})", "EscapeHTML": "SetEscapeHTML({option})"}[o])
				}
				sl := R.P.Func("json", "Write").Signature.Params().At(2).Type()
				at := types.NewArray(elemType(sl), int64(len(elems)))
				o := in.inputObj("opts", "opts", at, in.ts.Struct(at, elems))
				return st, in.ts.Slice(o.ID, 0, len(elems), sl)
			})
			if bad != "" {
				why = bad
			}
			if why != "" {
				R.fail(key, "json.Write", why)
				return
			}
			x := &jsonTree{in: in, ver: ver, cfg: s.install(in), leafOf: map[string]string{}}
			want := jsonNorm(jsonFlat(in, x.obj("doc", "doc", "doc")), bare)
			got := jsonNorm(jsonFlat(in, tree), bare)
			d := mapDiff(want, got)
			have := map[string]bool{}
			for _, e := range sortedEvents(st, "json-opt") {
				have[e.Aux] = true
			}
			for _, w := range wantOpts {
				if !have[w] {
					d = fmt.Sprintf("the encoder of the document does not get %s but %v", w, have)
				}
			}
			R.ob(key, d == "", "json.Write", d)
		})
	}
	return jobs
}

func dropFalse(m map[string]string) {
	for k, v := range m {
		if strings.HasSuffix(k, ".filesAnalyzed") && v == "false" {
			delete(m, k)
		}
	}
}

// jsonRead runs the reader of a format over a tree.
func jsonRead(R *Report, format, ver string, s *scenario, tree func(in *Interp) *Term) (*tvRead, string) {
	fn := R.P.Func(format, "ReadInto")
	docT := R.P.Type(verRel(ver), "Document")
	in := NewInterp(R.P)
	s.install(in)
	in.jsonMode = true
	t := tree(in)
	if format == "yaml" {
		t = in.ts.intern(&Term{K: KOp, Op: "yaml", Args: []*Term{t}, T: strT})
	}
	in.readText = t
	o := in.inputObj("target", "target", docT, in.zero(docT))
	outs := in.entryCall(fn, in.Label("r", fn.Signature.Params().At(0).Type()), in.ts.Iface(types.NewPointer(docT), in.ts.Addr(o.ID)))
	R.absorb(in)
	if t := in.trouble(); t != "" || len(outs) == 0 {
		return nil, "reading is undecided: " + t
	}
	return &tvRead{in, docT, o, outs}, ""
}

// jsonWant gives the leaves the document of a scenario should have after it was read.
func jsonWant(R *Report, ver string, s *scenario, adjust func(map[string]string)) map[string]string {
	docT := R.P.Type(verRel(ver), "Document")
	in := NewInterp(R.P)
	cfg := s.install(in)
	v := in.build(docT, "doc", cfg)
	m := leafTexts(in.leafMap(newState(), v, docT, "doc"))
	if adjust != nil {
		adjust(m)
	}
	return m
}

func jsonAccepts(R *Report, key, f, ver string, r *tvRead, want map[string]string) {
	where := f + ".ReadInto"
	for _, o := range r.outs {
		if ec := errClass(r.in, o.st, o.res[0]); ec != 'n' {
			R.fail(key, where, "the text is refused, or it is undecided whether it is: "+short(termText(o.res[0]), 300))
			return
		}
		if d := mapDiff(want, r.leaves(o)); d != "" {
			R.fail(key, where, d)
			return
		}
	}
	R.ob(key, true, where, "")
}

func checkC08(R *Report) {
	R.rule("fields", "A tree holding the keys of the table is accepted and gives exactly the document with those values.")
	R.assumption("encoding/json and sigs.k8s.io/yaml decode by their rules for the struct tags and UnmarshalJSON methods; texts hold nothing JSON escapes")
	R.minObs = 200
	var jobs []func()
	for _, ver := range versions {
		docT := R.P.Type(verRel(ver), "Document")
		if !R.need(docT != nil, verRel(ver)+".Document") {
			continue
		}
		cases := jsonCases(R, ver, docT)
		for _, f := range jsonFormats {
			if !R.need(R.P.Func(f, "ReadInto") != nil, f+".ReadInto") {
				continue
			}
			for _, c := range cases {
				jobs = append(jobs, func() {
					s := jsonScenario(ver, c, "jw")
					key := fmt.Sprintf("%s %s, %s", f, ver, c.name)
					r, why := jsonRead(R, f, ver, s, func(in *Interp) *Term {
						x := &jsonTree{in: in, ver: ver, cfg: s.install(in), leafOf: map[string]string{}}
						return x.obj("doc", "doc", "doc")
					})
					if why != "" {
						R.fail(key, f+".ReadInto", why)
						return
					}
					jsonAccepts(R, key, f, ver, r, jsonWant(R, ver, s, jsonReadAdjust(ver)))
				})
			}
			jobs = append(jobs, jsonFormCases(R, f, ver)...)
			jobs = append(jobs, jsonRefusals(R, f, ver)...)
		}
	}
	par(jobs)
}

// jsonFormCases: other forms the readers take.
func jsonFormCases(R *Report, f, ver string) []func() {
	type form struct {
		name string
		leaf map[string]string
		over map[string]string // "" leaves the key out
		want func(m map[string]string)
	}
	pk := "doc.Packages[0]."
	forms := []form{
		{name: "keys the format does not have are passed over", over: map[string]string{}},
	}
	if ver != "v2_1" {
		forms = append(forms,
			form{name: "filesAnalyzed left out means true", over: map[string]string{"doc.packages[0].filesAnalyzed": ""}, want: func(m map[string]string) {
				m[pk+"FilesAnalyzed"] = "true"
				delete(m, pk+"IsFilesAnalyzedTagPresent")
			}},
			form{name: "filesAnalyzed false", over: map[string]string{"doc.packages[0].filesAnalyzed": "false"}, want: func(m map[string]string) {
				delete(m, pk+"FilesAnalyzed")
			}},
		)
		for _, c := range []string{"SECURITY", "PACKAGE-MANAGER", "PERSISTENT-ID", "OTHER"} {
			forms = append(forms, form{name: "category " + strings.ReplaceAll(c, "-", "_"), over: map[string]string{
				"doc.packages[0].externalRefs[0].referenceCategory": `"` + strings.ReplaceAll(c, "-", "_") + `"`}, want: func(m map[string]string) {
				m[pk+"PackageExternalReferences[0].Category"] = c
			}})
		}
	}
	for _, sp := range []string{"", "  "} {
		for _, a := range [][3]string{{"creationInfo.creators[0]", "CreationInfo.Creators[0].Creator", "Tool"}, {"packages[0].supplier", "Packages[0].PackageSupplier.Supplier", "Organization"},
			{"packages[0].originator", "Packages[0].PackageOriginator.Originator", "Person"}, {"annotations[0].annotator", "Annotations[0].Annotator.Annotator", "Tool"}} {
			forms = append(forms, form{name: fmt.Sprintf("%s with %d spaces after the colon", a[0], len(sp)), over: map[string]string{"doc." + a[0]: `"` + a[2] + ":" + sp + `name: x"`},
				want: func(m map[string]string) {
					m["doc."+a[1]] = "name: x"
					m["doc."+a[1]+"Type"] = a[2]
				}})
		}
	}
	rels := [][4]string{{"DocumentRef-d:SPDXRef-e", "d", "e", ""}, {"SPDXRef-e", "", "e", ""}, {"NONE", "", "", "NONE"}, {"NOASSERTION", "", "", "NOASSERTION"}, {"DocumentRef-d:SPDXRef-e:f", "d", "e:f", ""}}
	for _, r := range rels {
		for _, side := range [][2]string{{"spdxElementId", "RefA"}, {"relatedSpdxElement", "RefB"}} {
			forms = append(forms, form{name: "reference " + r[0] + " as " + side[0], over: map[string]string{"doc.relationships[0]." + side[0]: `"` + r[0] + `"`}, want: func(m map[string]string) {
				for i, k := range []string{"DocumentRefID", "ElementRefID", "SpecialID"} {
					p := "doc.Relationships[0]." + side[1] + "." + k
					delete(m, p)
					if r[i+1] != "" {
						m[p] = r[i+1]
					}
				}
			}})
		}
	}
	var jobs []func()
	for _, fm := range forms {
		jobs = append(jobs, func() {
			s := jsonScenario(ver, rtCase{leaf: fm.leaf}, "jw")
			key := fmt.Sprintf("%s %s, %s", f, ver, fm.name)
			r, why := jsonRead(R, f, ver, s, func(in *Interp) *Term {
				x := &jsonTree{in: in, ver: ver, cfg: s.install(in), leafOf: map[string]string{}}
				x.omit = func(j string) bool { v, ok := fm.over[j]; return ok && v == "" }
				x.setOver(fm.over)
				if len(fm.over) == 0 {
					x.extra = func(jp, mp string) []*Term {
						return []*Term{in.ts.Str("x-unknown"), in.jObj(in.ts.Str("name"), in.jStr(in.ts.Str("other")), in.ts.Str("SPDXID"), in.ts.Str("3"))}
					}
				}
				return x.obj("doc", "doc", "doc")
			})
			if why != "" {
				R.fail(key, f+".ReadInto", why)
				return
			}
			jsonAccepts(R, key, f, ver, r, jsonWant(R, ver, s, func(m map[string]string) {
				jsonReadAdjust(ver)(m)
				if fm.want != nil {
					fm.want(m)
				}
			}))
		})
	}
	return jobs
}

func (x *jsonTree) setOver(m map[string]string) {
	x.over = func(j string) *Term {
		if v, ok := m[j]; ok && v != "" {
			return x.in.jParseText(v)
		}
		return nil
	}
	x.overElem = x.over
}

// jsonRefusals: values the readers must refuse.
func jsonRefusals(R *Report, f, ver string) []func() {
	type bad struct{ path, text string }
	var bads []bad
	// every key with a value of the wrong kind
	var walk func(kind, j string, depth int)
	walk = func(kind, j string, depth int) {
		for _, r := range jsonRows(kind, ver) {
			p := j + "." + r.key
			if r.key == "spdxVersion" {
				continue
			}
			wrong := map[string][]string{"s": {"7", "true", `{"a":1}`, `["a"]`}, "i": {`"a"`, "true", "1.5", `{}`}, "b": {`"true"`, "1", "[]"}}[r.kind]
			switch {
			case r.list:
				wrong = []string{`"a"`, "7", `{"a":1}`, "false"}
			case jsonTab[r.kind] != "":
				wrong = []string{`"a"`, "7", "[]"}
			case r.kind == "eid":
				wrong = []string{`"X"`, `"SPDXRef-"`, `""`, "7", "{}", `["SPDXRef-a"]`, `" SPDXRef-a"`, `"DocumentRef-a"`}
			case r.kind == "did":
				wrong = []string{`"X"`, `"DocumentRef-"`, `""`, "7", "{}", `"SPDXRef-a"`}
			case r.kind == "ref":
				wrong = []string{`"X"`, `"SPDXRef-"`, `""`, "7", "{}", `"DocumentRef-"`, `"DocumentRef-a:"`, `"DocumentRef-a:X"`, `"DocumentRef-:SPDXRef-a"`, `"DocumentRef-a:SPDXRef-"`, `"none"`}
			case strings.HasPrefix(r.kind, "agent:"):
				wrong = []string{`"X"`, `""`, "7", "{}", `"Person"`}
			case r.kind == "cat":
				wrong = []string{"7", "{}", "[]"}
			}
			for _, w := range wrong {
				bads = append(bads, bad{p, w})
			}
			if r.list {
				p += "[0]"
				switch {
				case r.kind == "s":
					bads = append(bads, bad{p, "7"}, bad{p, "{}"})
				case strings.HasPrefix(r.kind, "agent:"):
					bads = append(bads, bad{p, `"X"`}, bad{p, "7"})
				default:
					bads = append(bads, bad{p, `"a"`}, bad{p, "7"})
				}
			}
			if jsonTab[r.kind] != "" && depth < 4 {
				walk(r.kind, p, depth+1)
			}
		}
	}
	walk("doc", "doc", 0)
	var jobs []func()
	for _, b := range bads {
		jobs = append(jobs, func() {
			s := jsonScenario(ver, rtCase{}, "jw")
			key := fmt.Sprintf("%s %s refuses %s: %s", f, ver, b.path, b.text)
			r, why := jsonRead(R, f, ver, s, func(in *Interp) *Term {
				x := &jsonTree{in: in, ver: ver, cfg: s.install(in), leafOf: map[string]string{}}
				x.setOver(map[string]string{b.path: b.text})
				return x.obj("doc", "doc", "doc")
			})
			if why != "" {
				R.fail(key, f+".ReadInto", why)
				return
			}
			for _, o := range r.outs {
				if errClass(r.in, o.st, o.res[0]) != 'e' {
					R.fail(key, f+".ReadInto", "the text is accepted, or it is undecided whether it is")
					return
				}
			}
			R.ob(key, true, f+".ReadInto", "")
		})
	}
	return jobs
}

// jsonReadAdjust: what reading adds to the values of the text.
func jsonReadAdjust(ver string) func(map[string]string) {
	return func(m map[string]string) {
		if ver == "v2_1" {
			for k := range m {
				if strings.HasSuffix(k, ".IsFilesAnalyzedTagPresent") {
					delete(m, k)
				}
			}
		}
	}
}

func checkC09(R *Report) {
	R.rule("round trip", "The tree the writer gives for a document of arbitrary texts, fed to the reader, is accepted and gives the document with every value where it was.")
	R.minObs = 200
	var jobs []func()
	for _, ver := range versions {
		docT := R.P.Type(verRel(ver), "Document")
		if !R.need(docT != nil, verRel(ver)+".Document") {
			continue
		}
		for _, f := range jsonFormats {
			if !R.need(R.P.Func(f, "Write") != nil && R.P.Func(f, "ReadInto") != nil, f+".Write and ReadInto") {
				continue
			}
			for _, c := range jsonCases(R, ver, docT) {
				jobs = append(jobs, func() {
					s := jsonScenario(ver, c, "any")
					key := fmt.Sprintf("%s %s round trip, %s", f, ver, c.name)
					win, _, tree, why := jsonWrite(R, f, ver, s, nil)
					if why != "" {
						R.fail(key, f+".Write", why)
						return
					}
					r, why := jsonRead(R, f, ver, s, func(in *Interp) *Term { return copyTerm(in, win, tree) })
					if why != "" {
						R.fail(key, f+".ReadInto", why)
						return
					}
					jsonAccepts(R, key, f, ver, r, jsonWant(R, ver, s, jsonReadAdjust(ver)))
				})
			}
		}
	}
	par(jobs)
}

// copyTerm copies a term without objects from one interpreter to another.
func copyTerm(to, from *Interp, t *Term) *Term {
	n := *t
	n.Args = nil
	for _, a := range t.Args {
		n.Args = append(n.Args, copyTerm(to, from, a))
	}
	if t.K == KLabel {
		return to.Label(t.Op, t.T)
	}
	n.strMemo = ""
	return to.ts.intern(&n)
}
