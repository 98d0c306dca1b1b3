package main

import (
	"fmt"
	"go/types"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

func init() {
	register("C05", "Tag-value text written from a document reads back as that document", checkC05)
}

// C05: the text the writer gives for a document of labelled values, in order,
// is fed to the reader; the document read must have the labels where the
// document written had them.

// fixed values: what the format restricts to a set, and what the writer sorts by.
func rtFixed(ver string) map[string]string {
	m := map[string]string{
		"doc.SPDXVersion":                                      "=SPDX-2." + ver[3:],
		"doc.Packages[].FilesAnalyzed":                         "true",
		"doc.Packages[].IsFilesAnalyzedTagPresent":             "true",
		"doc.CreationInfo.Creators[0].CreatorType":             "=Person",
		"doc.CreationInfo.Creators[1].CreatorType":             "=Tool",
		"doc.CreationInfo.Creators[2].CreatorType":             "=Organization",
		"doc.Packages[0].PackageSupplier.SupplierType":         "=Person",
		"doc.Packages[1].PackageSupplier.SupplierType":         "=Organization",
		"doc.Packages[2].PackageSupplier.SupplierType":         "=Person",
		"doc.Packages[0].PackageOriginator.OriginatorType":     "=Organization",
		"doc.Packages[1].PackageOriginator.OriginatorType":     "=Person",
		"doc.Packages[2].PackageOriginator.OriginatorType":     "=Organization",
		"doc.Annotations[0].Annotator.AnnotatorType":           "=Person",
		"doc.Annotations[1].Annotator.AnnotatorType":           "=Tool",
		"doc.Annotations[2].Annotator.AnnotatorType":           "=Organization",
		"doc.Reviews[0].ReviewerType":                          "=Person",
		"doc.Reviews[1].ReviewerType":                          "=Organization",
		"doc.Reviews[2].ReviewerType":                          "=Tool",
		"doc.Relationships[].RefA.SpecialID":                   "",
		"doc.Relationships[].RefB.SpecialID":                   "",
		"doc.Annotations[].AnnotationSPDXIdentifier.SpecialID": "",
	}
	return m
}

type rtCase struct {
	name    string
	leaf    map[string]string
	present func(g string) bool
	n       func(g string) int
}

// rtClass gives the class of the values of a field.
func rtClass(path string) (string, bool) {
	g := generalise(path)
	last := g[strings.LastIndexByte(g, '.')+1:]
	switch last {
	case "StartPointer.FileSPDXIdentifier":
	case "SPDXIdentifier", "ElementRefID", "DocumentRefID", "Category", "RefType", "Relationship", "SnippetFromFileSPDXIdentifier", "ExcludedFiles[]":
		return "word", true
	case "URI", "Locator":
		return "uri", true
	}
	switch {
	case strings.HasSuffix(g, "PackageVerificationCode.Value"), strings.Contains(g, "ExternalDocumentReferences[].Checksum."):
		return "word", true
	case strings.HasSuffix(g, "IsUnpackaged"), strings.HasSuffix(g, "Pointer.FileSPDXIdentifier"), strings.HasSuffix(g, ".SpecialID"):
		return "zero", true
	case strings.HasSuffix(g, "hecksums[].Algorithm"):
		if strings.Contains(path, "[0].Algorithm") {
			return "=SHA1", true
		}
		return "=MD5", true
	case strings.Contains(g, ".Ranges[].") && (strings.HasSuffix(g, ".Offset") || strings.HasSuffix(g, ".LineNumber")):
		byLine := strings.Contains(path, ".Ranges[1].")
		if byLine == strings.HasSuffix(g, ".LineNumber") {
			return "int", true
		}
		return "zero", true
	}
	return "", false
}

var digits = regexp.MustCompile(`\d+`)

// firstThree is the path in which entries of a list after the third are like
// the first three, in turn.
func firstThree(path string) string {
	return listIndex.ReplaceAllStringFunc(path, func(s string) string {
		n, _ := strconv.Atoi(s[1 : len(s)-1])
		return fmt.Sprintf("[%d]", n%3)
	})
}

var listIndex = regexp.MustCompile(`\[\d+\]`)

func rtScenario(ver string, c rtCase, deep bool) *scenario {
	leaf := rtFixed(ver)
	for k, v := range c.leaf {
		leaf[k] = v
	}
	idx := func(path string) string {
		ns, sep := digits.FindAllString(path, -1), ""
		for _, n := range ns {
			if len(n) > 1 {
				sep = "-"
			}
		}
		return strings.Join(ns, sep)
	}
	return &scenario{leaf: map[string]string{}, def: "line", fn: func(path string) (string, bool) {
		if i := strings.LastIndex(path, "."); i >= 0 {
			switch l := path[i+1:]; {
			case l == "PackageSPDXIdentifier", l == "FileSPDXIdentifier" && !strings.Contains(path, "Pointer"), l == "SnippetSPDXIdentifier":
				return "=E" + idx(path), true
			case isMapKey(path):
				return "=E" + idx(path), true
			}
		}
		path = firstThree(path)
		g := generalise(path)
		if v, ok := leaf[path]; ok {
			return v, true
		}
		if v, ok := leaf[g]; ok {
			return v, true
		}
		return rtClass(path)
	}, n: func(g string) int {
		if c.n != nil {
			if n := c.n(g); n >= 0 {
				return n
			}
		}
		if deep && !strings.HasSuffix(g, ".ExcludedFiles") {
			return 2
		}
		return 1
	}, present: func(g string) bool {
		for _, s := range []string{"doc.Snippets", "doc.Packages[].Annotations", "doc.Files[].Annotations", "doc.Packages[].Files[].Annotations", ".hasFiles"} {
			if g == s || strings.HasPrefix(s, ".") && strings.HasSuffix(g, s) {
				return false
			}
		}
		return c.present == nil || c.present(g)
	}}
}

func checkC05(R *Report) {
	limitCap = 64 // a document of more lines takes too long
	R.rule("round trip", "For every document of the format's fields, the text the writer gives, fed to the reader, is accepted and gives a document with every value where it was.")
	R.assumption("one-line fields hold one line without white space at its ends or <text> marks; text fields hold any lines without <text> marks; documents hold one or two elements of each list, one excluded file")
	w, r := R.P.Func("tagvalue", "Write"), R.P.Func("tagvalue", "ReadInto")
	if !R.need(w != nil && r != nil, "tagvalue.Write and ReadInto") {
		return
	}
	R.minObs = 100
	var jobs []func()
	for _, ver := range versions {
		docT := R.P.Type(verRel(ver), "Document")
		if !R.need(docT != nil, verRel(ver)+".Document") {
			continue
		}
		cases := rtCases(R, ver, docT)
		for _, c := range cases {
			jobs = append(jobs, func() { rtCheck(R, ver, c) })
		}
	}
	par(jobs)
}

// text fields may span lines.
var rtText = map[string]bool{
	"AnnotationComment": true, "CreatorComment": true, "DocumentComment": true, "LicenseComments": true, "FileCopyrightText": true,
	"FileComment": true, "FileNotice": true, "FileAttributionTexts[]": true, "ExtractedText": true, "LicenseComment": true,
	"PackageSourceInfo": true, "PackageLicenseComments": true, "PackageCopyrightText": true, "PackageSummary": true,
	"PackageDescription": true, "PackageComment": true, "ExternalRefComment": true, "PackageAttributionTexts[]": true,
	"RelationshipComment": true, "ReviewComment": true, "SnippetLicenseComments": true, "SnippetCopyrightText": true,
	"SnippetComment": true, "SnippetAttributionTexts[]": true,
}

// optional fields: what an element can do without.
func rtOptional(p string) bool {
	switch p[strings.LastIndexByte(p, '.')+1:] {
	case "SPDXVersion", "SPDXIdentifier", "SnippetFromFileSPDXIdentifier", "PackageName", "PackageSPDXIdentifier", "FileName", "FileSPDXIdentifier", "SnippetSPDXIdentifier", "LicenseIdentifier",
		"CreatorType", "SupplierType", "OriginatorType", "AnnotatorType", "ReviewerType", "Reviewer", "Annotator", "Creator", "Supplier", "Originator",
		"Algorithm", "Category", "RefType", "Locator", "Relationship", "URI", "ElementRefID", "Offset", "LineNumber", "Name", "Value":
		return false
	}
	return !isMapKey(p) && !strings.HasSuffix(p, "[]") && !strings.HasSuffix(p, "ExternalDocumentReferences[].DocumentRefID")
}

func rtCases(R *Report, ver string, docT types.Type) []rtCase {
	cases := []rtCase{{name: "every field", n: func(g string) int {
		if strings.HasSuffix(g, ".ExcludedFiles") {
			return 1
		}
		return 2
	}}}
	num := func(k int) func(string) int {
		return func(g string) int {
			if strings.HasSuffix(g, ".ExcludedFiles") {
				return -1
			}
			return k
		}
	}
	cases = append(cases, rtCase{name: "no lists", n: num(0)})
	paths := leafPaths(docT, "doc")
	skip := func(p string) bool {
		for s := range tvNoLine {
			if p == s || strings.HasPrefix(s, ".") && strings.HasSuffix(p, s) {
				return true
			}
		}
		for _, g := range []string{"doc.Snippets[]", "doc.Packages[].Annotations[]", "doc.Files[].Annotations[]", "doc.Packages[].Files[].Annotations[]"} {
			if strings.HasPrefix(p, g) {
				return true
			}
		}
		return false
	}
	lists := map[string]bool{}
	texts := map[string]string{}
	none := map[string]string{}
	for _, p := range paths {
		if skip(p) {
			continue
		}
		for i := range p {
			if p[i] == '[' {
				lists[p[:i]] = true
			}
		}
		last := p[strings.LastIndexByte(p, '.')+1:]
		if rtText[last] {
			texts[p] = "paras"
			cases = append(cases, rtCase{name: p + " of several lines", leaf: map[string]string{p: "paras"}})
		}
		if rtOptional(p) {
			if b, ok := leafType(docT, p).(*types.Basic); ok && b.Info()&types.IsString != 0 {
				none[p] = ""
				cases = append(cases, rtCase{name: p + " empty", leaf: map[string]string{p: ""}})
			}
		}
	}
	cases = append(cases, rtCase{name: "every text of several lines", leaf: texts}, rtCase{name: "no optional field", leaf: none})
	var ls []string
	for l := range lists {
		ls = append(ls, l)
	}
	sort.Strings(ls)
	for _, l := range ls {
		absent := func(g string) bool { return g != l }
		cases = append(cases, rtCase{name: l + " absent", present: absent})
		{
			cases = append(cases, rtCase{name: l + " of two", n: func(g string) int {
				if g == l {
					return 2
				}
				return -1
			}}, rtCase{name: l + " of three", n: func(g string) int {
				if g == l {
					return longer(3)
				}
				return -1
			}})
		}
	}
	for _, o := range []string{"doc.Packages[].PackageSupplier", "doc.Packages[].PackageOriginator", "doc.Packages[].PackageVerificationCode"} {
		cases = append(cases, rtCase{name: o + " absent", present: func(g string) bool { return g != o }})
	}
	for _, o := range []string{"Supplier", "Originator"} {
		cases = append(cases, rtCase{name: "no assertion of the package " + o, leaf: map[string]string{
			"doc.Packages[0].Package" + o + "." + o: "=NOASSERTION", "doc.Packages[0].Package" + o + "." + o + "Type": ""}})
	}
	fa := map[string]string{"doc.Packages[0].FilesAnalyzed": "false", "doc.Packages[0].PackageVerificationCode.Value": ""}
	cases = append(cases, rtCase{name: "files not analyzed", leaf: fa, present: func(g string) bool {
		return !strings.HasPrefix(g, "doc.Packages[].PackageVerificationCode") && g != "doc.Packages[].PackageLicenseInfoFromFiles"
	}})
	cases = append(cases, rtCase{name: "the FilesAnalyzed default", leaf: map[string]string{"doc.Packages[0].IsFilesAnalyzedTagPresent": "false"}})
	// forms of references
	for _, a := range []string{"", "other"} {
		for _, b := range []string{"", "other", "NONE", "NOASSERTION"} {
			if ver == "v2_1" && strings.HasPrefix(b, "NO") {
				continue
			}
			m := map[string]string{}
			if a == "" {
				m["doc.Relationships[0].RefA.DocumentRefID"] = ""
			}
			switch b {
			case "":
				m["doc.Relationships[0].RefB.DocumentRefID"] = ""
			case "other":
			default:
				m["doc.Relationships[0].RefB.DocumentRefID"] = ""
				m["doc.Relationships[0].RefB.ElementRefID"] = ""
				m["doc.Relationships[0].RefB.SpecialID"] = "=" + b
			}
			cases = append(cases, rtCase{name: fmt.Sprintf("relationship from %q to %q", a, b), leaf: m})
		}
	}
	cases = append(cases, rtCase{name: "annotation of this document's element", leaf: map[string]string{"doc.Annotations[].AnnotationSPDXIdentifier.DocumentRefID": ""}})
	// kinds of agents
	for _, k := range []string{"Person", "Organization", "Tool"} {
		cases = append(cases, rtCase{name: "agents of type " + k, leaf: map[string]string{
			"doc.CreationInfo.Creators[].CreatorType": "=" + k, "doc.CreationInfo.Creators[0].CreatorType": "=" + k, "doc.CreationInfo.Creators[1].CreatorType": "=" + k,
			"doc.Annotations[0].Annotator.AnnotatorType": "=" + k, "doc.Annotations[1].Annotator.AnnotatorType": "=" + k,
			"doc.Reviews[0].ReviewerType": "=" + k, "doc.Reviews[1].ReviewerType": "=" + k}})
	}
	// algorithms
	for _, alg := range rdAlgorithms(ver) {
		m := map[string]string{}
		for _, p := range paths {
			if strings.HasSuffix(p, "hecksums[].Algorithm") {
				m[p] = "=" + alg
			}
		}
		cases = append(cases, rtCase{name: "checksums of algorithm " + alg, leaf: m})
	}
	return cases
}

// leafType gives the type of a generalised leaf path.
func leafType(t types.Type, path string) types.Type {
	_, path, _ = strings.Cut(path, ".")
	for path != "" {
		var f string
		f, path, _ = strings.Cut(path, ".")
		n := strings.Count(f, "[]")
		f = strings.ReplaceAll(f, "[]", "")
		st, ok := deref2(t).Underlying().(*types.Struct)
		if !ok {
			return nil
		}
		t = nil
		for i := range st.NumFields() {
			if st.Field(i).Name() == f {
				t = st.Field(i).Type()
			} else if st.Field(i).Embedded() && t == nil {
				if e, ok := deref2(st.Field(i).Type()).Underlying().(*types.Struct); ok {
					for j := range e.NumFields() {
						if e.Field(j).Name() == f {
							t = e.Field(j).Type()
						}
					}
				}
			}
		}
		if t == nil {
			return nil
		}
		for range n {
			switch u := t.Underlying().(type) {
			case *types.Slice:
				t = u.Elem()
			case *types.Map:
				t = u.Elem()
			}
		}
	}
	return t.Underlying()
}

func rtCheck(R *Report, ver string, c rtCase) {
	key := ver + " round trip, " + c.name
	s, lines, want, why := rtText0(R, ver, c)
	if why != "" {
		R.fail(key, "tagvalue.Write", why)
		return
	}
	r := readTV(R, ver, lines, s, nil)
	where := "tagvalue.ReadInto"
	if t := r.in.trouble(); t != "" || len(r.outs) == 0 {
		R.fail(key, where, "reading is undecided: "+t)
		return
	}
	for _, o := range r.outs {
		if ec := errClass(r.in, o.st, o.res[0]); ec != 'n' {
			R.fail(key, where, "the text written is refused, or it is undecided whether it is: "+short(termText(o.res[0]), 300))
			return
		}
		got := r.leaves(o)
		if d := mapDiff(want, got); d != "" {
			R.fail(key, where, d)
			return
		}
	}
	R.ob(key, true, where, "")
}

// rtText0 gives the lines the writer gives for a document and its values.
func rtText0(R *Report, ver string, c rtCase) (*scenario, []string, map[string]string, string) {
	s := rtScenario(ver, c, R.thorough() && c.name != "every text of several lines")
	docT := R.P.Type(verRel(ver), "Document")
	fn := R.P.Func("tagvalue", "Write")
	in := NewInterp(R.P)
	cfg := s.install(in)
	in.keepText = true
	outs := in.entryCall(fn, boxDoc(in, docT, cfg), in.Label("w", fn.Signature.Params().At(1).Type()))
	R.absorb(in)
	if t := in.trouble(); t != "" || len(outs) != 1 {
		return nil, nil, nil, fmt.Sprintf("the text written is undecided (%d outcomes): %s", len(outs), t)
	}
	o := outs[0]
	if errClass(in, o.st, o.res[0]) != 'n' || len(o.st.pend) != 1 {
		return nil, nil, nil, "writing fails or is undecided"
	}
	var text string
	for _, t := range o.st.pend {
		if ts := alts(t); len(ts) != 1 {
			return nil, nil, nil, "the text written is undecided"
		}
		text = termText(t)
	}
	want := leafTexts(in.leafMap(o.st, in.content(o.st, in.inputObj("doc", "doc", docT, nil).ID), docT, "doc"))
	lines := strings.Split(strings.TrimSuffix(text, "\n"), "\n")
	return s, lines, want, ""
}
