package main

import (
	"fmt"
	"go/types"
	"strings"
)

func init() {
	register("C14", "RDF readers answer a bad document with an error", checkC14)
}

// rdfBad are values an attribute cannot have.
func rdfBad(ver string) []rValue {
	var out []rValue
	add := func(class, pred string, objs ...string) {
		for _, o := range objs {
			out = append(out, rValue{class: class, pred: pred, obj: o})
		}
	}
	for _, f := range [][2]string{{"document", "spdx:dataLicense"}, {"package", "spdx:licenseConcluded"}, {"package", "spdx:licenseDeclared"}, {"file", "spdx:licenseConcluded"}, {"file", "spdx:licenseInfoInFile"}, {"snippet", "spdx:licenseConcluded"}, {"snippet", "spdx:licenseInfoInSnippet"}} {
		add(f[0], f[1], "Rlic:{x}", "Ilic:{x}", "Rd:LicenseRef-{x}", "L{x}", "B{x}")
	}
	add("package", "spdx:downloadLocation", "L{x!}", "Lno uri")
	add("package", "doap:homepage", "L{x!}", "Lno uri")
	add("extracted licence", "rdfs:seeAlso", "L{x!}", "Lno uri")
	for _, p := range []string{"spdx:supplier", "spdx:originator"} {
		add("package", p, "L{x}", "L{x}: {y}", "LTool: {y}", "Lperson: {y}", "LPerson", "LNONE", "L")
	}
	add("package", "spdx:filesAnalyzed", "L{x}", "L", "L0", "L1", "Lyes", "Ltrue ", "Lt")
	add("annotation", "spdx:annotator", "L{x}", "L{x}: {y}", "Lperson: {y}", "LTool", "L")
	add("creation info", "spdx:creator", "L{x}", "L{x}: {y}", "Ltool: {y}", "LPerson", "L")
	add("review", "spdx:reviewer", "L{x}", "LPerson")
	add("annotation", "spdx:annotationType", "R{x}", "Rspdx:annotationType_{x}", "LREVIEW", "Rspdx:review")
	add("external reference", "spdx:referenceCategory", "R{x}", "Rspdx:referenceCategory_{x}", "LSECURITY", "Rspdx:security")
	add("relationship", "spdx:relationshipType", "Rspdx:relationshipType_{x}", "Rspdx:contains", "LCONTAINS", "Rspdx:relationshipType_", "Rspdx:{x}")
	add("relationship", "spdx:relatedSpdxElement", "Rd:{x}", "Rd:SPDXRef-", "Rd:DocumentRef-{x}", "Rd:DocumentRef-{x}:", "Rd:DocumentRef-{x}:{y}", "Rd:DocumentRef-:SPDXRef-{x}", "Rd:DocumentRef-{x}:SPDXRef-{y}:{z}", "Rd:SPDXRef-{x}:{y}")
	add("file", "spdx:fileType", "Rspdx:{x}", "LSOURCE")
	add("file", "spdx:fileDependency", "Rd:{x}", "Rd:DocumentRef-{x}:SPDXRef-{y}", "Rd:SPDXRef-")
	add("package", "spdx:hasFile", "Rd:{x}", "Rd:DocumentRef-{x}:SPDXRef-{y}", "Rd:SPDXRef-")
	add("document", "spdx:describesPackage", "Rd:{x}", "Rd:DocumentRef-{x}:SPDXRef-{y}", "Rd:SPDXRef-")
	return out
}

// rdfParts are the elements whose attributes are read one by one, each with a
// place for one more statement.
func rdfParts(ver string) map[string]func(extra rProp) []*rEl {
	parts := map[string]func(extra rProp) []*rEl{}
	for _, c := range rdfClasses(ver) {
		c := c
		parts[c.name] = func(x rProp) []*rEl { return c.host([]rProp{x}) }
	}
	lic := func(typ string, props ...rProp) func(rProp) []*rEl {
		return func(x rProp) []*rEl {
			return []*rEl{describing(rPkg("{p}", rProp{p: "spdx:licenseConcluded", el: &rEl{node: "Blic", typ: typ, props: append(append([]rProp(nil), props...), x)}}))}
		}
	}
	member := rProp{p: "spdx:member", o: "Rlic:MIT"}
	for _, t := range []string{"ConjunctiveLicenseSet", "DisjunctiveLicenseSet", "OrLaterOperator", "WithExceptionOperator"} {
		parts[t] = lic("spdx:"+t, member)
	}
	for _, t := range []string{"License", "ListedLicense", "SimpleLicensingInfo", "ExtractedLicensingInfo"} {
		parts[t] = lic("spdx:"+t, rProp{p: "spdx:licenseId", o: "L{id}"})
	}
	parts["LicenseException"] = func(x rProp) []*rEl {
		return lic("spdx:WithExceptionOperator", member)(rProp{p: "spdx:licenseException", el: &rEl{node: "Bexc", typ: "spdx:LicenseException", props: []rProp{x}}})
	}
	snip := func(ps ...rProp) []*rEl {
		return hostOf(ver, "snippet")([]rProp{{p: "spdx:range", el: &rEl{node: "Brng", typ: "ptr:StartEndPointer", props: ps}}})
	}
	ptr := func(n string, xs ...rProp) *rEl {
		return &rEl{node: "B" + n, typ: "ptr:ByteOffsetPointer", props: append([]rProp{{p: "ptr:offset", o: "L3"}}, xs...)}
	}
	parts["range"] = func(x rProp) []*rEl {
		return snip(rProp{p: "ptr:startPointer", el: ptr("a")}, rProp{p: "ptr:endPointer", el: ptr("b")}, x)
	}
	parts["start of a range"] = func(x rProp) []*rEl {
		return snip(rProp{p: "ptr:startPointer", el: ptr("a", x)}, rProp{p: "ptr:endPointer", el: ptr("b")})
	}
	parts["end of a range"] = func(x rProp) []*rEl {
		return snip(rProp{p: "ptr:startPointer", el: ptr("a")}, rProp{p: "ptr:endPointer", el: ptr("b", x)})
	}
	return parts
}

// rdfBadDocs are documents that are wrong as a whole.
func rdfBadDocs(ver string) map[string][]rTriple {
	d := map[string][]rTriple{}
	doc := rdfTriples([]*rEl{rDoc()})
	with := func(els ...*rEl) []rTriple { return rdfTriples(els) }
	d["no statements"] = nil
	d["no document"] = with(rPkg("{p}"))
	d["two documents"] = append(append([]rTriple(nil), doc...), rTriple{"Ihttp://x.org/e#SPDXRef-DOCUMENT", "rdf:type", "Ispdx:SpdxDocument"})
	d["a document of another type too"] = append(append([]rTriple(nil), doc...), rTriple{docNode, "rdf:type", "Ispdx:Package"})
	d["a document identifier without fragment"] = []rTriple{{"Ihttp://x.org/d", "rdf:type", "Ispdx:SpdxDocument"}}
	d["a document without a type"] = []rTriple{{docNode, "spdx:name", "L{n}"}}
	d["an element without a type"] = append(append([]rTriple(nil), doc...), rTriple{"Id:SPDXRef-{p}", "spdx:name", "L{n}"})
	d["an element of two types"] = append(append([]rTriple(nil), doc...), rTriple{"Id:SPDXRef-{p}", "rdf:type", "Ispdx:Package"}, rTriple{"Id:SPDXRef-{p}", "rdf:type", "Ispdx:File"})
	for _, id := range []string{"{x}", "SPDXRef-", "DocumentRef-{x}:SPDXRef-{y}", "SPDXRef-{x}:{y}"} {
		for _, t := range []string{"Package", "File", "Snippet"} {
			d[fmt.Sprintf("a %s with the identifier %s", strings.ToLower(t), id)] = append(append([]rTriple(nil), doc...), rTriple{"Id:" + id, "rdf:type", "Ispdx:" + t})
		}
	}
	d["a snippet of no file"] = append(append([]rTriple(nil), doc...), rTriple{"Id:SPDXRef-{s}", "rdf:type", "Ispdx:Snippet"})
	lic := func(e *rEl) []rTriple {
		return with(describing(rPkg("{p}", rProp{p: "spdx:licenseDeclared", el: e})))
	}
	set := func(n, typ string, ms ...string) *rEl {
		e := &rEl{node: n, typ: typ}
		for _, m := range ms {
			e.props = append(e.props, rProp{p: "spdx:member", o: m})
		}
		return e
	}
	for _, t := range []string{"spdx:ConjunctiveLicenseSet", "spdx:DisjunctiveLicenseSet"} {
		d["a licence set that is a member of itself: "+t] = lic(set("Bl", t, "Rlic:MIT", "Bl"))
		inner := set("Bm", t, "Rlic:MIT", "Bl")
		d["licence sets that are members of each other: "+t] = lic(&rEl{node: "Bl", typ: t, props: []rProp{{p: "spdx:member", el: inner}}})
		d["a licence set with an unknown licence: "+t] = lic(set("Bl", t, "Rlic:MIT", "Rlic:{x}"))
	}
	d["an or-later operator on two licences"] = lic(set("Bl", "spdx:OrLaterOperator", "Rlic:MIT", "Rlic:ISC"))
	d["an or-later operator on none"] = lic(set("Bl", "spdx:OrLaterOperator"))
	d["an exception for two licences"] = lic(set("Bl", "spdx:WithExceptionOperator", "Rlic:MIT", "Rlic:ISC"))
	d["a licence of an unknown type"] = lic(&rEl{node: "Bl", typ: "spdx:{x}", props: []rProp{{p: "spdx:licenseId", o: "L{i}"}}})
	d["a licence without a type"] = lic(&rEl{node: "Bl", props: []rProp{{p: "spdx:licenseId", o: "L{i}"}}})
	d["a licence of two types"] = append(lic(&rEl{node: "Bl", typ: "spdx:License", props: []rProp{{p: "spdx:licenseId", o: "L{i}"}}}), rTriple{"Bl", "rdf:type", "Ispdx:ExtractedLicensingInfo"})
	for _, b := range []string{"isOsiApproved", "isFsfLibre", "isDeprecatedLicenseId"} {
		d["a licence whose "+b+" is no truth value"] = lic(&rEl{node: "Bl", typ: "spdx:License", props: []rProp{{p: "spdx:" + b, o: "L{i}"}}})
	}
	sum := func(props ...rProp) *rEl { return &rEl{node: "Bck", typ: "spdx:Checksum", props: props} }
	for name, ps := range map[string][]rProp{
		"without algorithm":               {{p: "spdx:checksumValue", o: "L{v}"}},
		"of an unknown algorithm":         {{p: "spdx:algorithm", o: "Rspdx:checksumAlgorithm_{x}"}},
		"whose algorithm is a text":       {{p: "spdx:algorithm", o: "LSHA1"}},
		"whose algorithm is another term": {{p: "spdx:algorithm", o: "Rspdx:{x}"}},
		"without statements":              nil,
	} {
		d["a package checksum "+name] = with(hostOf(ver, "package")([]rProp{{p: "spdx:checksum", el: sum(ps...)}})...)
		d["a file checksum "+name] = with(hostOf(ver, "file")([]rProp{{p: "spdx:checksum", el: sum(ps...)}})...)
		if ps != nil && !strings.Contains(name, "without") {
			d["a checksum of an external document "+name] = with(hostOf(ver, "external document reference")([]rProp{{p: "spdx:checksum", el: sum(ps...)}})...)
		}
	}
	rng := func(typ string, ps ...rProp) []rTriple {
		return with(hostOf(ver, "snippet")([]rProp{{p: "spdx:range", el: &rEl{node: "Brng", typ: typ, props: ps}}})...)
	}
	ptr := func(p, n, typ string, ps ...rProp) rProp {
		return rProp{p: "ptr:" + p, el: &rEl{node: "B" + n, typ: typ, props: ps}}
	}
	off, line := rProp{p: "ptr:offset", o: "L3"}, rProp{p: "ptr:lineNumber", o: "L3"}
	const start, end, bp, lp, T = "startPointer", "endPointer", "ptr:ByteOffsetPointer", "ptr:LineCharPointer", "ptr:StartEndPointer"
	d["a range without end"] = rng(T, ptr(start, "a", bp, off))
	d["a range without start"] = rng(T, ptr(end, "a", bp, off))
	d["a range with two starts"] = rng(T, ptr(start, "a", bp, off), ptr(start, "b", bp, off))
	d["a range with two starts and an end"] = rng(T, ptr(start, "a", bp, off), ptr(start, "c", bp, off), ptr(end, "b", bp, off))
	d["a range without type"] = rng("", ptr(start, "a", bp, off), ptr(end, "b", bp, off))
	d["a range from a byte to a line"] = rng(T, ptr(start, "a", bp, off), ptr(end, "b", lp, line))
	d["a range from a line to a byte"] = rng(T, ptr(start, "a", lp, line), ptr(end, "b", bp, off))
	d["a pointer without position"] = rng(T, ptr(start, "a", bp), ptr(end, "b", bp, off))
	d["a pointer whose offset is no number"] = rng(T, ptr(start, "a", bp, rProp{p: "ptr:offset", o: "Labc"}), ptr(end, "b", bp, off))
	d["a pointer whose line is no number"] = rng(T, ptr(start, "a", lp, line), ptr(end, "b", lp, rProp{p: "ptr:lineNumber", o: "L1.5"}))
	for _, x := range [][]rProp{{{p: "ptr:offset", o: "Labc"}, {p: "ptr:reference", o: "Rd:SPDXRef-{f}"}}, {{p: "ptr:lineNumber", o: "Labc"}, {p: "ptr:reference", o: "Rd:SPDXRef-{f}"}}} {
		d["a pointer with a reference whose "+x[0].p[4:]+" is no number"] = rng(T, ptr(start, "a", bp, x...), ptr(end, "b", bp, off))
	}
	return d
}

// rdfGraph are the object-valued statements of every kind of element, for
// graphs that no element has the shape of.
func rdfGraph() map[string][]string {
	rel := []string{"spdx:relationship", "spdx:annotation"}
	return map[string][]string{
		"spdx:SpdxDocument":           append([]string{"spdx:dataLicense", "spdx:externalDocumentRef", "spdx:creationInfo", "spdx:reviewed", "spdx:describesPackage", "spdx:hasExtractedLicensingInfo"}, rel...),
		"spdx:Package":                append([]string{"spdx:packageVerificationCode", "spdx:checksum", "spdx:licenseConcluded", "spdx:licenseInfoFromFiles", "spdx:licenseDeclared", "spdx:externalRef", "spdx:hasFile"}, rel...),
		"spdx:File":                   append([]string{"spdx:fileType", "spdx:checksum", "spdx:licenseConcluded", "spdx:licenseInfoInFile", "spdx:artifactOf", "spdx:fileDependency"}, rel...),
		"spdx:Snippet":                append([]string{"spdx:snippetFromFile", "spdx:range", "spdx:licenseConcluded", "spdx:licenseInfoInSnippet"}, rel...),
		"spdx:Relationship":           {"spdx:relatedSpdxElement", "spdx:relationshipType"},
		"spdx:Annotation":             {"spdx:annotationType"},
		"spdx:ConjunctiveLicenseSet":  {"spdx:member"},
		"spdx:DisjunctiveLicenseSet":  {"spdx:member"},
		"spdx:OrLaterOperator":        {"spdx:member"},
		"spdx:WithExceptionOperator":  {"spdx:member", "spdx:licenseException"},
		"spdx:ExtractedLicensingInfo": {"rdfs:seeAlso"},
		"spdx:Checksum":               {"spdx:algorithm"},
		"spdx:ExternalRef":            {"spdx:referenceType"},
		"ptr:StartEndPointer":         {"ptr:startPointer", "ptr:endPointer"},
		"ptr:ByteOffsetPointer":       {"ptr:reference", "ptr:offset"},
	}
}

func checkC14(R *Report) {
	R.same(caseNames)
	R.rule("refusal", "An attribute that an element cannot have, a value that an attribute cannot have, an element with missing or contradictory statements, and a document without version or of a version no reader exists for each make the reader return an error.")
	R.rule("no panic", "Whatever the objects of the statements are (texts, undefined nodes, the element itself, elements of other kinds, in cycles), the reader neither panics nor recurses without end.")
	R.assumption("gordf turns the text into statements of nodes that have a type and a text; strconv.Atoi and the URI parser of gordf by their documentation")
	R.special(func(_, _ string) bool { return true }) // what is wrong here is listed
	R.minObs = 1500
	var jobs []func()
	job := func(f func()) { jobs = append(jobs, f) }
	for _, ver := range []string{"v2_2", "v2_3"} {
		ver := ver
		// refused in whichever order the statements come
		refused := func(key string, ts []rTriple) {
			job(func() { rdfRun(R, ver, key, ts, nil).fails(nil) })
			if len(ts) > 1 {
				var rev []rTriple
				for i := len(ts) - 1; i >= 0; i-- {
					rev = append(rev, ts[i])
				}
				job(func() { rdfRun(R, ver, key+", reversed", rev, nil).fails(nil) })
			}
		}
		for name, mk := range rdfParts(ver) {
			name, mk := name, mk
			for _, o := range []string{"L{v}", "Rd:SPDXRef-{v}", "B{v}"} {
				o := o
				refused(fmt.Sprintf("%s: %s with an attribute of another kind (%s)", ver, name, o), rdfTriples(mk(rProp{p: "{other}", o: o})))
			}
		}
		// an unknown attribute before, after or among the others of an element
		for _, c := range rdfClasses(ver) {
			var all []rProp
			for _, a := range c.attrs {
				all = append(all, a.mk("x", 1))
			}
			other := rProp{p: "{other}", o: "L{v}"}
			refused(fmt.Sprintf("%s: %s with an unknown attribute after all others", ver, c.name), rdfTriples(c.host(append(append([]rProp(nil), all...), other))))
			refused(fmt.Sprintf("%s: %s with an unknown attribute amid all others", ver, c.name), rdfTriples(c.host(append(append(append([]rProp(nil), all[:len(all)/2]...), other), all[len(all)/2:]...))))
			for _, a := range c.attrs {
				p := a.mk("x", 1)
				for n := 0; p.el != nil && n < countEls(p.el); n++ {
					q := a.mk("x", 1)
					el := nthEl(q.el, &[]int{n}[0])
					el.props = append(append([]rProp(nil), el.props...), other)
					refused(fmt.Sprintf("%s: %s whose %s has an unknown attribute in element %d (%s)", ver, c.name, q.p, n, el.typ), rdfTriples(c.host([]rProp{q})))
				}
			}
		}
		for _, v := range rdfBad(ver) {
			host, bad := hostOf(ver, v.class), rProp{p: v.pred, o: v.obj}
			key := fmt.Sprintf("%s: %s %s of value %s", ver, v.class, v.pred, v.obj)
			refused(key, rdfTriples(host([]rProp{bad})))
			ps := []rProp{bad}
			for _, c := range rdfClasses(ver) {
				for _, a := range c.attrs {
					if p := a.mk("x", 1); c.name == v.class && p.p != v.pred {
						ps = append(ps, p)
					}
				}
			}
			refused(key+" among all others", rdfTriples(host(ps)))
		}
		for name, ts := range rdfBadDocs(ver) {
			refused(ver+": "+name, ts)
		}
		// shapes
		settled := func(key string, ts []rTriple) {
			job(func() {
				if r := rdfRun(R, ver, key, ts, nil); r != nil {
					R.ob(key, true, "", "")
				}
			})
		}
		for _, c := range rdfClasses(ver) {
			for _, a := range c.attrs {
				p := a.mk("x", 1).p
				for _, o := range []string{"L{v}", "L", "Rd:SPDXRef-{v}", "Id:SPDXRef-{v}", "Bnothing", docNode, "Id:SPDXRef-{p}", "Id:SPDXRef-{f}", "Id:SPDXRef-{s}", "Id:SPDXRef-{q}", "Id:SPDXRef-{g}", "Bset", "Brelation", "Bchecksum"} {
					els := append(c.host([]rProp{{p: p, o: o}}),
						rPkg("{q}", rProp{p: "spdx:name", o: "L{qn}"}), rFile("{g}", "", rProp{p: "spdx:fileName", o: "L{gn}"}),
						&rEl{node: "Bset", typ: "spdx:ConjunctiveLicenseSet", props: []rProp{{p: "spdx:member", o: "Rlic:MIT"}}},
						&rEl{node: "Brelation", typ: "spdx:Relationship", props: []rProp{{p: "spdx:relatedSpdxElement", o: docNode}}},
						&rEl{node: "Bchecksum", typ: "spdx:Checksum", props: []rProp{{p: "spdx:checksumValue", o: "L{c}"}}})
					settled(fmt.Sprintf("%s: %s whose %s is %s", ver, c.name, p, o), rdfTriples(els))
				}
			}
		}
		g := rdfGraph()
		var kinds []string
		for k := range g {
			kinds = append(kinds, k)
		}
		for _, k1 := range kinds {
			for _, k2 := range kinds {
				for _, p1 := range g[k1] {
					for _, p2 := range g[k2] {
						n1, n2 := "Id:SPDXRef-{a}", "Id:SPDXRef-{b}"
						if k1 == "spdx:SpdxDocument" {
							n1 = docNode
						}
						ts := []rTriple{{n1, "rdf:type", "I" + k1}, {n1, p1, n2}, {n2, "rdf:type", "I" + k2}, {n2, p2, n1}}
						if k1 != "spdx:SpdxDocument" {
							// reached from the document in a way of its kind
							for _, p0 := range entryOf(k1) {
								settled(fmt.Sprintf("%s: circle of %s %s %s %s", ver, k1, p1, k2, p2)+" through "+p0, append([]rTriple{{docNode, "rdf:type", "Ispdx:SpdxDocument"}, {docNode, p0, n1}}, ts...))
							}
							continue
						}
						settled(fmt.Sprintf("%s: circle of %s %s %s %s", ver, k1, p1, k2, p2), append(ts, rTriple{"Ihttp://x.org/r", "rdf:type", "Ispdx:SpdxDocument"}, rTriple{"Ihttp://x.org/r", "spdx:relationship", n1}))
					}
				}
			}
		}
	}
	rdfVersions(R, job)
	par(jobs)
}

func entryOf(kind string) []string {
	switch kind {
	case "spdx:Package":
		return []string{"spdx:describesPackage"}
	case "spdx:Relationship", "spdx:Annotation":
		return []string{map[string]string{"spdx:Relationship": "spdx:relationship", "spdx:Annotation": "spdx:annotation"}[kind]}
	case "spdx:File", "spdx:Snippet":
		return []string{"spdx:describesPackage", "spdx:relationship"}
	}
	return []string{"spdx:dataLicense"}
}

// rdfVersions judges rdf.ReadInto: which reader reads which version.
func rdfVersions(R *Report, job func(func())) {
	fn := R.P.Func("rdf", "ReadInto")
	if !R.need(fn != nil, "rdf.ReadInto") {
		return
	}
	const loader = "github.com/spdx/gordf/rdfloader.LoadFromReaderObject"
	run := func(key string, target types.Type, byValue bool, ts []rTriple, broken bool) (*fnRun, *Term, *Obj) {
		in := rdfInterp(R)
		in.convMode = true
		in.intrinsics[loader] = func(c *callCtx) []Outcome {
			pt := c.sig.Results().At(0).Type()
			if broken {
				return one(c, c.in.ts.Nil(), c.in.mkErr("load"))
			}
			return one(c, c.in.rdfParser(pt, ts), c.in.ts.Nil())
		}
		in.checkNil = true
		before := in.build(target, "before", &shapeCfg{n: func(string) int { return 1 }})
		o := in.inputObj("target", "target", target, before)
		arg := in.ts.Iface(types.NewPointer(target), in.ts.Addr(o.ID))
		if byValue {
			arg = in.ts.Iface(target, before)
		}
		return R.callCase(key, in, fn, in.Label("r", fn.Signature.Params().At(0).Type()), arg), before, o
	}
	for _, tv := range versions {
		target := R.P.Type(verRel(tv), "Document")
		if !R.need(target != nil, verRel(tv)+".Document") {
			continue
		}
		refuse := func(name string, byValue bool, ts []rTriple, broken bool) {
			job(func() {
				r, before, o := run("rdf into "+tv+": "+name, target, byValue, ts, broken)
				r.fails(func(out Outcome) string {
					if r.in.content(out.st, o.ID) != before {
						return "the target document is changed although reading fails"
					}
					return ""
				})
			})
		}
		good := func(v string, props ...rProp) []rTriple {
			return rdfTriples([]*rEl{rDoc(append([]rProp{{p: "spdx:specVersion", o: "L" + v}}, props...)...)})
		}
		refuse("a text that gordf cannot read", false, nil, true)
		refuse("no statements", false, nil, false)
		refuse("no version", false, rdfTriples([]*rEl{rDoc(rProp{p: "spdx:name", o: "L{n}"})}), false)
		refuse("an empty version", false, good(""), false)
		for _, v := range []string{"{v}", "SPDX-2.1", "SPDX-2.4", "SPDX-3.0", "2.3", "SPDX-2.3 ", "spdx-2.3"} {
			refuse("version "+v, false, good(v), false)
		}
		for _, v := range []string{"2.2", "2.3"} {
			v := v
			refuse("a bad document of version "+v, false, good("SPDX-"+v, rProp{p: "{other}", o: "L{x}"}), false)
			refuse("a target that is not a pointer, version "+v, true, good("SPDX-"+v), false)
			job(func() {
				r, _, o := run(fmt.Sprintf("rdf %s into %s", v, tv), target, false, good("SPDX-"+v, rProp{p: "spdx:name", o: "L{n}"}), false)
				r.succeeds(func(out Outcome) string {
					got := leafTexts(r.in.leafMap(out.st, r.in.ts.Addr(o.ID), types.NewPointer(target), "doc"))
					if got["doc.DocumentName"] != "{n}" || got["doc.SPDXIdentifier"] != "DOCUMENT" {
						return fmt.Sprintf("the document is not the one read: %s %s", got["doc.DocumentName"], got["doc.SPDXIdentifier"])
					}
					want := "SPDX-2." + tv[3:]
					if got["doc.SPDXVersion"] != want {
						return "the version of the document is " + got["doc.SPDXVersion"] + ", it should be " + want
					}
					return ""
				})
			})
		}
	}
}

func countEls(e *rEl) int {
	n := 1
	for _, p := range e.props {
		if p.el != nil {
			n += countEls(p.el)
		}
	}
	return n
}

// nthEl finds the n-th element below e.
func nthEl(e *rEl, n *int) *rEl {
	if *n == 0 {
		return e
	}
	for _, p := range e.props {
		if p.el != nil {
			*n--
			if x := nthEl(p.el, n); x != nil {
				return x
			}
		}
	}
	return nil
}
