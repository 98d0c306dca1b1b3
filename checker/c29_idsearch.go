package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

func init() {
	register("C29", "The identifier search gives each file the licenses it names", checkC29)
}

// line forms of a searched file: the text and the identifier it holds
var idForms = []struct{ line, id string }{
	{"SPDX-License-Identifier: {a}", "{a}"},
	{"// SPDX-License-Identifier: {b}", "{b}"},
	{"/* SPDX-License-Identifier: {c} */", "{c}"},
	{"<!-- SPDX-License-Identifier: {c} -->", "{c}"},
	{"# SPDX-License-Identifier: {a} OR {b}", "{a} OR {b}"},
	{" * SPDX-License-Identifier: {b}+", "{b}+"},
	{"; SPDX-License-Identifier: {a} WITH {c}", "{a} WITH {c}"},
	{"SPDX-License-Identifier: {a} AND ({c} OR {b})", "{a} AND ({c} OR {b})"},
	{"SPDX-License-Identifier:", ""},
	{"SPDX-License-Identifier: \"{a}\";", "{a}"},
	{"'SPDX-License-Identifier: {b}' ;", "{b}"},
	{"\tSPDX-License-Identifier:\t{c}\t", "{c}"},
	{"dnl  SPDX-License-Identifier:{a}", "{a}"},
	{"/* SPDX-License-Identifier: {a} */ {t}; /* {t} */", "{a}"},
	{"<!-- SPDX-License-Identifier: {b} --> {t} <!-- {t} -->", "{b}"},
	{"12345SPDX-License-Identifier: {a}", "{a}"},
	{"123456SPDX-License-Identifier: {a}", ""},
	{"// // /**/ SPDX-License-Identifier: {b}", "{b}"},
	{"if line == \"SPDX-License-Identifier: {a}\"", ""},
	{"License-Identifier: {a}", ""},
	{"{t}", ""},
	{"", ""},
}

func checkC29(R *Report) {
	R.same(caseNames)
	R.rule("file", "A searched file holds, sorted and each once, every license named by an SPDX-License-Identifier line, without operators, brackets and plus signs; its concluded license is the one identifier, or all distinct ones joined by AND in order, those with an operator in brackets; a file that names none has NOASSERTION in both.")
	R.rule("line", "An identifier ends before a comment's end and carries no quotes, semicolons or blanks around it; a line with more than five characters before the tag, and a tag with nothing behind it, name none.")
	R.rule("ignored", "A file the searcher ignores, by a pattern relative to the directory, has NOASSERTION; one the builder ignores is not in the document.")
	R.rule("package", "The package holds the sorted licenses of all its searched files, or NOASSERTION.")
	R.rule("document", "Everything else is as the builder gives it; whatever makes the builder fail gives an error.")
	R.assumption("license names are words of letters, digits, dots and hyphens, none a prefix of another; files that fail while searched are not judged")
	R.special(func(_, v string) bool {
		return strings.EqualFold(v, "AND") || strings.EqualFold(v, "OR") || strings.EqualFold(v, "WITH")
	})
	R.minObs = 500
	fn := R.P.Func("idsearcher", "BuildIDsDocument")
	if !R.need(fn != nil && R.P.Type("idsearcher", "Config") != nil && R.P.Type("spdx/v2/v2_3", "Document") != nil, "idsearcher.BuildIDsDocument") {
		return
	}
	max := 2
	if R.thorough() {
		max = 3
	}
	var jobs []func()
	tree := []treeEntry{{"{f}", modeReg, true}}
	for _, s := range seqs(len(idForms), max) {
		orders := [][]string{{"a", "b", "c"}, {"c", "b", "a"}}
		if len(s) == 3 {
			orders = orders[:1]
		}
		jobs = append(jobs, func() {
			for i, order := range orders {
				idCase(R, tree, map[string][]int{"{f}": s}, order, i == 1, nil, nil, "")
			}
		})
	}
	// several files, some ignored
	big := []treeEntry{{"{f}", modeReg, true}, {"{d}", modeDir, false}, {"{d}/{g}", modeReg, true}, {"{h}", modeReg, true}}
	contents := []map[string][]int{
		{"{f}": {0}, "{d}/{g}": {1}, "{h}": {2}},
		{"{f}": {4, 1}, "{d}/{g}": {8}, "{h}": {15}},
		{"{f}": {}, "{d}/{g}": {2, 15, 0}, "{h}": {2}},
		{"{f}": {16}, "{d}/{g}": {15}, "{h}": {13}},
	}
	for _, c := range contents {
		for _, rev := range []bool{false, true} {
			for _, ig := range [][]string{nil, {"/{f}"}, {"/{d}/"}, {"**/{d}/"}, {"/{d}/{g}"}, {"**/{g}"}, {"/{f}", "/{h}"}, {"/{g}"}} {
				for _, big2 := range [][]string{nil, {"/{h}"}} {
					jobs = append(jobs, func() { idCase(R, big, c, []string{"b", "a", "c"}, rev, ig, big2, "") })
				}
			}
		}
	}
	// lines longer than any bound
	for _, s := range [][]int{{0}, {20, 0}, {20, 4, 0}, {0, 20, 15}} {
		for i := range s {
			jobs = append(jobs, func() {
				idCase(R, tree, map[string][]int{"{f}": s}, []string{"a", "b", "c"}, false, nil, nil, fmt.Sprintf("long %d", i+1))
			})
		}
	}
	// a tag far down a file, many tags, many files
	for _, l := range [][]int{{20, 0}, {21, 4}, {1, 2}, {0, 20}, {4, 0}} {
		jobs = append(jobs, func() {
			var lines []int
			for range longer(5) {
				lines = append(lines, l[0])
			}
			idCase(R, tree, map[string][]int{"{f}": append(lines, l[1])}, []string{"a", "b", "c"}, false, nil, nil, "")
		})
	}
	jobs = append(jobs, func() {
		var many []treeEntry
		content := map[string][]int{}
		for i := range longer(4) {
			rel := fmt.Sprintf("{x-%d}", i)
			many = append(many, treeEntry{rel, modeReg, true})
			content[rel] = []int{i % 3}
		}
		idCase(R, many, content, []string{"a", "b", "c"}, false, nil, nil, "")
	})
	for _, bad := range []string{"Abs", "Walk", "Open", "Read"} {
		jobs = append(jobs, func() { idCase(R, big, contents[0], []string{"a", "b", "c"}, false, nil, nil, bad) })
	}
	par(jobs)
}

func ignoredBy(rel string, pats []string) bool {
	for _, p := range pats {
		any := strings.HasPrefix(p, "**")
		p = strings.TrimPrefix(p, "**")
		switch {
		case any && (strings.HasSuffix(p, "/") && strings.Contains("/"+rel, p) || strings.HasSuffix("/"+rel, p)):
			return true
		case strings.HasSuffix(p, "/") && strings.HasPrefix("/"+rel, p):
			return true
		case p == "/"+rel:
			return true
		}
	}
	return false
}

func idCase(R *Report, tree []treeEntry, content map[string][]int, order []string, rev bool, ignored, left []string, bad string) {
	cfgT, fn := R.P.Type("idsearcher", "Config"), R.P.Func("idsearcher", "BuildIDsDocument")
	in := NewInterp(R.P)
	note := ""
	in.attr = func(t *Term) Attr {
		if t.K == KLabel {
			return Attr{NonEmpty: true, Generic: true, Distinct: true, Trimmed: true, Word: true, Lacks: []string{"/", "*", "\n", "SPDXRef-", ":", " "}}
		}
		return Attr{}
	}
	in.fs = walkTree(in, "{r}", "/{p}/{r}", tree)
	if strings.HasPrefix(bad, "long ") {
		fmt.Sscanf(bad, "long %d", &in.longLine)
		note, bad = "; a line longer than any bound: "+bad[5:], ""
	}
	in.fs.fail = map[string]bool{bad: true}
	in.fs.lines = map[string][]*Term{}
	for rel, ls := range content {
		lines := []*Term{}
		for _, l := range ls {
			lines = append(lines, in.tmplTerm(idForms[l].line))
		}
		in.fs.lines["{r}/"+rel] = lines
	}
	in.sorting, in.rankSum, in.rank, in.mapRev = true, true, map[string]int{}, rev
	for i, n := range order {
		in.rank[n] = i + 1
	}
	list := func(l []string) string {
		if l == nil {
			return "nil"
		}
		return strings.Join(l, ",")
	}
	cfg := in.build(cfgT, "cfg", &shapeCfg{leaf: func(p string, t types.Type) *Term {
		switch p {
		case "cfg.BuilderPathsIgnored":
			return in.strList(left)
		case "cfg.SearcherPathsIgnored":
			return in.strList(ignored)
		}
		return nil
	}})
	o := in.inputObj("cfg", "cfg", cfgT, cfg)
	var names []string
	for rel, ls := range content {
		s := rel + ":"
		for _, l := range ls {
			s += fmt.Sprintf(" %q", idForms[l].line)
		}
		names = append(names, s)
	}
	sort.Strings(names)
	key := fmt.Sprintf("%s; order %v, map order reversed %v, searcher ignores %s, builder ignores %s, failing %q", strings.Join(names, "; "), order, rev, list(ignored), list(left), bad) + note
	r := R.callCase(key, in, fn, in.Label("name", strT), in.fs.root, in.ts.Addr(o.ID))
	if r == nil {
		return
	}
	if bad != "" {
		r.fails(func(o Outcome) string { return r.closed(o) })
		return
	}
	// texts in the given order
	con := func(s string) string {
		for i, n := range order {
			s = strings.ReplaceAll(s, "{"+n+"}", fmt.Sprintf("k%d", i+1))
		}
		return s
	}
	sortAs := func(m map[string]bool) []string {
		var l []string
		for x := range m {
			l = append(l, x)
		}
		sort.Slice(l, func(i, j int) bool { return con(l[i]) < con(l[j]) })
		return l
	}
	lic := map[string]string{}
	all := map[string]bool{}
	var listed []treeEntry
	n := 0
	for _, e := range tree {
		if !e.listed {
			listed = append(listed, e)
			continue
		}
		if ignoredBy(e.rel, left) {
			continue
		}
		listed = append(listed, e)
		f := fmt.Sprintf("doc.Packages[0].Files[%d]", n)
		n++
		ids, elts := map[string]bool{}, map[string]bool{}
		if !ignoredBy(e.rel, ignored) {
			for _, l := range content[e.rel] {
				id := idForms[l].id
				if id == "" {
					continue
				}
				ids[id] = true
				for _, x := range strings.Fields(strings.NewReplacer("(", " ", ")", " ", "+", " ").Replace(id)) {
					if x != "AND" && x != "OR" && x != "WITH" {
						elts[x], all[x] = true, true
					}
				}
			}
		}
		if len(ids) == 0 {
			lic[f+".LicenseConcluded"], lic[f+".LicenseInfoInFiles[0]"] = "NOASSERTION", "NOASSERTION"
			continue
		}
		var parts []string
		for _, id := range sortAs(ids) {
			if len(ids) > 1 && (strings.Contains(id, " OR ") || strings.Contains(id, " AND ")) {
				id = "(" + id + ")"
			}
			parts = append(parts, id)
		}
		lic[f+".LicenseConcluded"] = strings.Join(parts, " AND ")
		for i, x := range sortAs(elts) {
			lic[fmt.Sprintf("%s.LicenseInfoInFiles[%d]", f, i)] = x
		}
	}
	for i, x := range sortAs(all) {
		lic[fmt.Sprintf("doc.Packages[0].PackageLicenseInfoFromFiles[%d]", i)] = x
	}
	if len(all) == 0 {
		lic["doc.Packages[0].PackageLicenseInfoFromFiles[0]"] = "NOASSERTION"
	}
	r.succeeds(func(o Outcome) string {
		got := leafTexts(in.leafMap(o.st, o.res[0], fn.Signature.Results().At(0).Type(), "doc"))
		want := builtWant(in, listed, "Tool", "", "")
		want["doc.CreationInfo.Creators[1].Creator"] = "github.com/spdx/tools-golang/idsearcher"
		for k := range want {
			if strings.HasSuffix(k, ".LicenseConcluded") || strings.Contains(k, "LicenseInfo") {
				delete(want, k)
			}
		}
		for k, v := range lic {
			want[k] = v
		}
		if !strings.HasPrefix(got["doc.DocumentNamespace"], "{cfg.NamespacePrefix}{name}-") || got["doc.CreationInfo.Created"] == "" {
			return "the namespace is " + got["doc.DocumentNamespace"] + ", the date " + got["doc.CreationInfo.Created"]
		}
		delete(got, "doc.DocumentNamespace")
		delete(got, "doc.CreationInfo.Created")
		if d := mapDiff(want, got); d != "" {
			return d
		}
		return r.closed(o)
	})
}
