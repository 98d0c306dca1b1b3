package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

func init() {
	register("C25", "The license diff sorts every file of two packages into its class", checkC25)
	register("C26", "The license report counts every file and lists counts in order", checkC26)
	register("C27", "A document is valid when its relationships name its elements", checkC27)
	register("C28", "The described packages are those the document describes", checkC28)
}

// orders gives the interpreter a total order of the labels, in which names
// are distinct and have no separators.
func orders(in *Interp, names ...string) {
	segAttr(in)
	in.sorting, in.rank = true, map[string]int{}
	for i, n := range names {
		in.rank[n] = i + 1
	}
}

// object makes a value from a table of its leaves and lengths; everything
// else is zero.
func (in *Interp) object(T types.Type, path string, leaves map[string]string, lens map[string]int) *Term {
	return in.build(T, path, &shapeCfg{
		leaf: func(p string, t types.Type) *Term {
			if v, ok := leaves[p]; ok {
				switch {
				case isStringType(t):
					return in.tmplTerm(v)
				case v == "true" || v == "false":
					return in.ts.Bool(v == "true")
				case v == "nil":
					return in.ts.Nil()
				}
			}
			if _, ok := t.Underlying().(*types.Basic); ok {
				return in.zero(t)
			}
			return nil
		},
		n: func(p string) int { return lens[p] },
		slice: func(p string) byte {
			if n, ok := lens[p]; !ok || n < 0 {
				return 'n'
			}
			return 'p'
		},
		ptr: func(p string) byte {
			if p == path || strings.HasSuffix(p, "]") {
				return 'p'
			}
			return 'n'
		},
	})
}

// seqs lists all sequences of up to max indexes below n.
func seqs(n, max int) [][]int {
	out := [][]int{{}}
	last := out
	for k := 0; k < max; k++ {
		var next [][]int
		for _, s := range last {
			for i := 0; i < n; i++ {
				next = append(next, append(append([]int(nil), s...), i))
			}
		}
		out = append(out, next...)
		last = next
	}
	return out
}

// subseqs lists all sequences of distinct indexes.
func distinct(ss [][]int) [][]int {
	var out [][]int
	for _, s := range ss {
		seen := map[int]bool{}
		ok := true
		for _, i := range s {
			ok = ok && !seen[i]
			seen[i] = true
		}
		if ok {
			out = append(out, s)
		}
	}
	return out
}

// ---- C25

func checkC25(R *Report) {
	R.same(caseNames)
	R.rule("pairs", "MakePairs gives one pair for every file name of either package: the concluded license of the first package's file and that of the second package's, or nothing where a package has no such file; nothing else is in the result.")
	R.rule("results", "MakeResults puts every pair into exactly one class: same license in both, different licenses in both, in the first only (second empty), in the second only (first empty), with the licenses of the pair.")
	R.assumption("file names of one package are distinct; packages and files are not nil")
	R.minObs = 300
	mp, mr := R.P.Func("licensediff", "MakePairs"), R.P.Func("licensediff", "MakeResults")
	pkgT, pairT := R.P.Type("spdx/v2/v2_3", "Package"), R.P.Type("licensediff", "LicensePair")
	if !R.need(mp != nil && mr != nil && pkgT != nil && pairT != nil, "licensediff.MakePairs and MakeResults") {
		return
	}
	names := []string{"{a}", "{b}", ""}
	lics := []string{"", "{l}", "{m}"}
	maxFiles := 2
	if R.thorough() {
		maxFiles = 3
	}
	type file struct{ name, lic string }
	var lists [][]file
	for _, s := range distinct(seqs(3, maxFiles)) {
		for _, ls := range seqs(3, len(s)) {
			if len(ls) != len(s) {
				continue
			}
			var l []file
			for k, i := range s {
				l = append(l, file{names[i], lics[ls[k]]})
			}
			lists = append(lists, l)
		}
	}
	var jobs []func()
	diff := func(l1, l2 []file) {
		for _, rev := range []bool{false, true} {
			in := NewInterp(R.P)
			orders(in)
			in.mapRev = rev
			pkg := func(p string, l []file) *Term {
				leaves := map[string]string{}
				for i, f := range l {
					leaves[fmt.Sprintf("%s.Files[%d].FileName", p, i)] = f.name
					leaves[fmt.Sprintf("%s.Files[%d].LicenseConcluded", p, i)] = f.lic
				}
				n := len(l)
				if n == 0 {
					n = -1
				}
				return in.object(types.NewPointer(pkgT), p, leaves, map[string]int{p + ".Files": n})
			}
			key := fmt.Sprintf("diff of %v and %v, map order reversed %v", l1, l2, rev)
			r := R.callCase("pairs, "+key, in, mp, pkg("p", l1), pkg("q", l2))
			if r == nil {
				return
			}
			first, second, all := map[string]string{}, map[string]string{}, map[string]bool{}
			for _, f := range l1 {
				first[f.name], all[f.name] = f.lic, true
			}
			for _, f := range l2 {
				second[f.name], all[f.name] = f.lic, true
			}
			var pairs *Term
			r.succeeds(func(o Outcome) string {
				pairs = o.res[0]
				want := map[string]string{}
				for n := range all {
					k := "pairs<" + strings.Trim(n, "{}") + ">"
					put(want, k+".First", first[n])
					put(want, k+".Second", second[n])
					if first[n]+second[n] == "" {
						want[k] = ""
					}
				}
				got := leafTexts(in.leafMap(o.st, o.res[0], mp.Signature.Results().At(0).Type(), "pairs"))
				if m := o.res[0]; m.K == KAddr {
					for c, j := in.content(o.st, m.Obj), 0; j+1 < len(c.Args); j += 2 {
						if c.Args[j+1] == in.zero(pairT) {
							got["pairs<"+strings.Trim(termText(c.Args[j]), "{}")+">"] = ""
						}
					}
				}
				return mapDiff(want, got)
			})
			if pairs == nil {
				return
			}
			// the classes, from pairs made independently
			var kv []*Term
			var ns []string
			for n := range all {
				ns = append(ns, n)
			}
			sort.Strings(ns)
			for _, n := range ns {
				kv = append(kv, in.tmplTerm(n), in.ts.Struct(pairT, []*Term{in.tmplTerm(first[n]), in.tmplTerm(second[n])}))
			}
			mt := mr.Signature.Params().At(0).Type()
			o := in.inputObj("in|pairs", "pairs", mt, in.ts.intern(&Term{K: KMapVal, Args: kv, T: mt}))
			r = R.callCase("results, "+key, in, mr, in.ts.Addr(o.ID))
			if r == nil {
				return
			}
			r.succeeds(func(o Outcome) string {
				want := map[string]string{}
				for n := range all {
					a, b := first[n], second[n]
					k := "<" + strings.Trim(n, "{}") + ">"
					switch {
					case a == b:
						// a file without any license is the same in both
						if a != "" {
							put(want, "diff.InBothSame"+k, a)
						} else {
							want["diff.InBothSame"+k] = ""
						}
					case a == "":
						put(want, "diff.InSecondOnly"+k, b)
					case b == "":
						put(want, "diff.InFirstOnly"+k, a)
					default:
						put(want, "diff.InBothChanged"+k+".First", a)
						put(want, "diff.InBothChanged"+k+".Second", b)
					}
				}
				got := leafTexts(in.leafMap(o.st, o.res[0], mr.Signature.Results().At(0).Type(), "diff"))
				in.emptyEntries(o.st, o.res[0], mr.Signature.Results().At(0).Type(), "diff", got)
				delete(got, "diff.&")
				return mapDiff(want, got)
			})
		}
	}
	for _, l1 := range lists {
		for _, l2 := range lists {
			if len(l1)+len(l2) > 4 && !(len(l1) == 3 && len(l2) == 2 && l1[0].lic == "{l}") {
				continue
			}
			jobs = append(jobs, func() { diff(l1, l2) })
		}
	}
	jobs = append(jobs, func() {
		var l1, l2 []file
		for i := range longer(4) {
			l1 = append(l1, file{fmt.Sprintf("{x-%d}", i), lics[i%3]})
			if i%4 < 3 {
				l2 = append(l2, file{fmt.Sprintf("{x-%d}", i), lics[1+i%2]})
			}
			if i%4 > 1 {
				l2 = append(l2, file{fmt.Sprintf("{x-n%d}", i), lics[1]})
			}
		}
		diff(l1, l2)
	})
	// many files of one kind
	for kind := range 4 {
		jobs = append(jobs, func() {
			var l1, l2 []file
			for i := range longer(4) {
				name := fmt.Sprintf("{x-%d}", i)
				if kind != 3 {
					l1 = append(l1, file{name, lics[1]})
				}
				switch kind {
				case 0: // the same in both
					l2 = append(l2, file{name, lics[1]})
				case 1: // changed
					l2 = append(l2, file{name, lics[2]})
				case 3: // new
					l2 = append(l2, file{name, lics[1]})
				}
			}
			diff(l1, l2)
		})
	}
	par(jobs)
}

func put(m map[string]string, k, v string) {
	if v != "" {
		m[k] = v
	}
}

// emptyEntries adds the map entries of a structure's fields whose value is
// the empty text, which leafMap leaves out.
func (in *Interp) emptyEntries(st *State, t *Term, T types.Type, path string, got map[string]string) {
	p, ok := T.Underlying().(*types.Pointer)
	if !ok || t.K != KAddr {
		return
	}
	sT, ok := p.Elem().Underlying().(*types.Struct)
	if !ok {
		return
	}
	v := in.load(st, t, p.Elem(), 0)
	for i := 0; i < sT.NumFields(); i++ {
		f := sT.Field(i)
		m := in.field(v, i, f.Type())
		if m.K != KAddr {
			continue
		}
		c := in.content(st, m.Obj)
		if c == nil || c.K != KMapVal {
			continue
		}
		for j := 0; j+1 < len(c.Args); j += 2 {
			if c.Args[j+1].isStr() && c.Args[j+1].str() == "" {
				got[path+"."+f.Name()+"<"+strings.Trim(termText(c.Args[j]), "{}")+">"] = ""
			}
		}
	}
}

// ---- C26

func checkC26(R *Report) {
	R.same(caseNames)
	R.rule("report", "Generate writes the number of files with and without a concluded license and their sum, then one line for every license with the number of files concluded to be under it, the largest number first and equal numbers by name, then the number of files with a license; a file without a concluded license or with NOASSERTION has none.")
	R.rule("refused", "Generate refuses a package whose files have not been analysed, and writes nothing.")
	R.assumption("columns are separated by blanks and tabs of any number; licenses are words, in any order of their names; files are not nil")
	R.special(func(_, v string) bool { return v == "NOASSERTION" })
	R.minObs = 200
	fn := R.P.Func("reporter", "Generate")
	pkgT := R.P.Type("spdx/v2/v2_3", "Package")
	if !R.need(fn != nil && pkgT != nil, "reporter.Generate") {
		return
	}
	max := 4
	if R.thorough() {
		max = 5
	}
	lics := []string{"{a}", "{b}", "{c}", "NOASSERTION", ""}
	report := func(names []string, analysed string, os [][]string) {
		for _, order := range os {
			for _, rev := range []bool{false, true} {
				in := NewInterp(R.P)
				orders(in, order...)
				in.mapRev, in.keepText = rev, true
				leaves := map[string]string{"p.FilesAnalyzed": analysed}
				for i, l := range names {
					leaves[fmt.Sprintf("p.Files[%d].LicenseConcluded", i)] = l
					leaves[fmt.Sprintf("p.Files[%d].FileName", i)] = fmt.Sprintf("{f%d}", i)
				}
				p := in.object(types.NewPointer(pkgT), "p", leaves, map[string]int{"p.Files": len(names)})
				w := in.Label("w", fn.Signature.Params().At(1).Type())
				key := fmt.Sprintf("report of %q, names in order %v, map order reversed %v, analysed %s", names, order, rev, analysed)
				r := R.callCase(key, in, fn, p, w)
				if r == nil {
					return
				}
				if analysed == "false" {
					r.fails(func(o Outcome) string {
						if g := in.writtenText(o.st, w); g != "" {
							return "it writes " + g
						}
						return ""
					})
					continue
				}
				r.succeeds(func(o Outcome) string {
					want := reportWant(names, order)
					if g := tidyColumns(in.writtenText(o.st, w)); g != want {
						return fmt.Sprintf("the report is %q, should be %q", g, want)
					}
					return ""
				})
			}
		}
	}
	var jobs []func()
	for _, s := range seqs(len(lics), max) {
		for _, analysed := range []string{"true", "false"} {
			if analysed == "false" && len(s) > 2 {
				continue
			}
			var all []string
			for _, l := range s {
				all = append(all, lics[l])
			}
			jobs = append(jobs, func() { report(all, analysed, [][]string{{"a", "b", "c"}, {"c", "b", "a"}, {"b", "a", "c"}}) })
		}
	}
	jobs = append(jobs, func() {
		// many files of one license
		var all []string
		for i := range longer(5) {
			all = append(all, lics[i%2*4])
		}
		report(all, "true", [][]string{{"a", "b", "c"}})
	}, func() {
		// many licenses
		var all, order []string
		for i := range longer(5) {
			all = append(all, fmt.Sprintf("{x-%d}", i))
			order = append(order, fmt.Sprintf("x-%d", i))
		}
		report(append(all, all[1:]...), "true", [][]string{order})
	})
	par(jobs)
}

func (in *Interp) writtenText(st *State, w *Term) string {
	t := st.pend[in.streamObj(w).ID]
	if t == nil {
		return ""
	}
	return termText(t)
}

func tidyColumns(s string) string {
	ls := strings.Split(s, "\n")
	for i, l := range ls {
		ls[i] = strings.Join(strings.Fields(l), " ")
	}
	return strings.Join(ls, "\n")
}

func reportWant(names, order []string) string {
	counts := map[string]int{}
	found, not := 0, 0
	for _, n := range names {
		if n == "" || n == "NOASSERTION" {
			not++
		} else {
			found++
			counts[n]++
		}
	}
	s := fmt.Sprintf("%d License found\n%d License not found\n%d TOTAL\n\n", found, not, found+not)
	for n := len(names); n > 0; n-- {
		for _, l := range order {
			if counts["{"+l+"}"] == n {
				s += fmt.Sprintf("%d {%s}\n", n, l)
			}
		}
	}
	return s + fmt.Sprintf("%d TOTAL FOUND\n", found)
}

// ---- C27

// ref is one end of a relationship: a document, an element, a special value.
type ref struct{ doc, el, special string }

func (r ref) leaves(m map[string]string, p string) {
	m[p+".DocumentRefID"], m[p+".ElementRefID"], m[p+".SpecialID"] = r.doc, r.el, r.special
}

func checkC27(R *Report) {
	R.same(caseNames)
	R.rule("valid", "ValidateDocument returns nil exactly when each end of every relationship is DOCUMENT, a package or an unpackaged file of the document.")
	R.assumption("an end in an external document that has the identifier of an element of this one, and files of packages as ends, are not judged; packages, files and relationships are not nil")
	R.minObs = 300
	fn := R.P.Func("spdxlib", "ValidateDocument")
	docT := R.P.Type("spdx/v2/v2_3", "Document")
	if !R.need(fn != nil && docT != nil, "spdxlib.ValidateDocument") {
		return
	}
	max := 2
	if R.thorough() {
		max = 3
	}
	ends := []string{"DOCUMENT", "{p}", "{q}", "{f}", "{x}"}
	var jobs []func()
	for np := 0; np <= 2; np++ {
		for nf := 0; nf <= 1; nf++ {
			for _, s := range seqs(len(ends)*len(ends), max) {
				if len(s) == 3 && (s[0]%5 > 1 && s[0] != 9 || s[1]%4 > 1) {
					continue
				}
				jobs = append(jobs, func() {
					in := NewInterp(R.P)
					orders(in)
					known := map[string]bool{"DOCUMENT": true, "{p}": np > 0, "{q}": np > 1, "{f}": nf > 0}
					leaves := map[string]string{"doc.Packages[0].PackageSPDXIdentifier": "{p}", "doc.Packages[1].PackageSPDXIdentifier": "{q}", "doc.Files[0].FileSPDXIdentifier": "{f}"}
					valid := true
					var names []string
					for i, e := range s {
						a, b := ends[e/len(ends)], ends[e%len(ends)]
						p := fmt.Sprintf("doc.Relationships[%d]", i)
						ref{el: a}.leaves(leaves, p+".RefA")
						ref{el: b}.leaves(leaves, p+".RefB")
						leaves[p+".Relationship"] = "{rel}"
						valid = valid && known[a] && known[b]
						names = append(names, a+" to "+b)
					}
					key := fmt.Sprintf("%d packages, %d files, relationships %v", np, nf, names)
					doc := in.object(types.NewPointer(docT), "doc", leaves, map[string]int{"doc.Packages": np, "doc.Files": nf, "doc.Relationships": len(s)})
					r := R.callCase(key, in, fn, doc)
					if valid {
						r.succeeds(nil)
					} else {
						r.fails(nil)
					}
				})
			}
		}
	}
	// ends that are no element of the document whatever it holds
	for np := 0; np <= 2; np++ {
		for _, good := range []string{"DOCUMENT", "{p}"} {
			for _, end := range []ref{{doc: "{d}", el: "{x}"}, {doc: "{d}"}, {special: "NONE"}, {special: "NOASSERTION"}, {}} {
				for where := 0; where < 4; where++ {
					if good == "{p}" && np == 0 {
						continue
					}
					jobs = append(jobs, func() {
						in := NewInterp(R.P)
						orders(in)
						leaves := map[string]string{"doc.Packages[0].PackageSPDXIdentifier": "{p}", "doc.Packages[1].PackageSPDXIdentifier": "{q}", "doc.Files[0].FileSPDXIdentifier": "{f}"}
						for i := 0; i < 2; i++ {
							p := fmt.Sprintf("doc.Relationships[%d]", i)
							a, b := ref{el: good}, ref{el: good}
							if where == 2*i {
								a = end
							} else if where == 2*i+1 {
								b = end
							}
							a.leaves(leaves, p+".RefA")
							b.leaves(leaves, p+".RefB")
							leaves[p+".Relationship"] = "{rel}"
						}
						doc := in.object(types.NewPointer(docT), "doc", leaves, map[string]int{"doc.Packages": np, "doc.Files": 1, "doc.Relationships": 2})
						r := R.callCase(fmt.Sprintf("%d packages, end %d of relationships between %s is %+v", np, where, good, end), in, fn, doc)
						r.fails(nil)
					})
				}
			}
		}
	}
	for _, bad := range []bool{false, true} {
		jobs = append(jobs, func() {
			in := NewInterp(R.P)
			orders(in)
			leaves := map[string]string{}
			n := longer(4)
			for i := range n {
				el := fmt.Sprintf("{x-%d}", i)
				leaves[fmt.Sprintf("doc.Packages[%d].PackageSPDXIdentifier", i)] = el
				leaves[fmt.Sprintf("doc.Files[%d].FileSPDXIdentifier", i)] = fmt.Sprintf("{x-f%d}", i)
				if bad && i == n-1 {
					el = "{x-unknown}"
				}
				p := fmt.Sprintf("doc.Relationships[%d]", i)
				ref{el: fmt.Sprintf("{x-f%d}", i)}.leaves(leaves, p+".RefA")
				ref{el: el}.leaves(leaves, p+".RefB")
				leaves[p+".Relationship"] = "{rel}"
			}
			doc := in.object(types.NewPointer(docT), "doc", leaves, map[string]int{"doc.Packages": n, "doc.Files": n, "doc.Relationships": n})
			r := R.callCase(fmt.Sprintf("many elements and relationships, last one bad %v", bad), in, fn, doc)
			if bad {
				r.fails(nil)
			} else {
				r.succeeds(nil)
			}
		})
	}
	par(jobs)
}

// ---- C28

func checkC28(R *Report) {
	R.same(caseNames)
	R.rule("one", "The only package of a document is described, whatever its relationships.")
	R.rule("several", "Of several packages those are described that DOCUMENT DESCRIBES or that are DESCRIBED_BY DOCUMENT, in the order of their identifiers, each once, and no other element.")
	R.rule("none", "Without packages, and when several packages are left undescribed altogether, there is an error.")
	R.rule("filter", "FilterRelationships gives what the filter gives, for every relationship in order, leaving out nil; SortElementIDs puts identifiers in order and keeps each.")
	R.assumption("identifiers are distinct words; packages and relationships are not nil")
	R.minObs = 300
	fn := R.P.Func("spdxlib", "GetDescribedPackageIDs")
	sortFn, filterFn := R.P.Func("spdxlib", "SortElementIDs"), R.P.Func("spdxlib", "FilterRelationships")
	docT := R.P.Type("spdx/v2/v2_3", "Document")
	if !R.need(fn != nil && docT != nil && sortFn != nil && filterFn != nil, "spdxlib.GetDescribedPackageIDs, SortElementIDs, FilterRelationships") {
		return
	}
	type rel struct {
		kind string
		a, b ref
	}
	d := ref{el: "DOCUMENT"}
	el := func(s string) ref { return ref{el: s} }
	universe := []rel{
		{"DESCRIBES", d, el("{p}")}, {"DESCRIBES", d, el("{q}")}, {"DESCRIBED_BY", el("{p}"), d}, {"DESCRIBED_BY", el("{q}"), d},
		{"DESCRIBES", d, el("{f}")}, {"DESCRIBED_BY", el("{f}"), d}, {"DESCRIBES", d, el("{x}")},
		{"DESCRIBES", d, ref{doc: "{ext}", el: "{p}"}}, {"DESCRIBES", ref{doc: "{ext}", el: "DOCUMENT"}, el("{p}")}, {"DESCRIBED_BY", el("{q}"), ref{doc: "{ext}", el: "DOCUMENT"}},
		{"CONTAINS", d, el("{p}")}, {"DESCRIBES", el("{p}"), d}, {"DESCRIBED_BY", d, el("{p}")}, {"DESCRIBES", el("{p}"), el("{q}")}, {"DESCRIBES", d, ref{special: "NONE"}}, {"DEPENDS_ON", el("{q}"), d},
	}
	describes := func(r rel) string {
		e := ref{}
		switch {
		case r.kind == "DESCRIBES" && r.a == d:
			e = r.b
		case r.kind == "DESCRIBED_BY" && r.b == d:
			e = r.a
		}
		if e.doc != "" {
			return ""
		}
		return e.el
	}
	max := 2
	if R.thorough() {
		max = 3
	}
	var jobs []func()
	for _, order := range [][]string{{"p", "q"}, {"q", "p"}} {
		for np := -1; np <= 2; np++ {
			for _, s := range seqs(len(universe), max) {
				if np < 2 && len(s) > 1 {
					continue
				}
				for _, nilRels := range []bool{false, true} {
					if nilRels && len(s) > 0 {
						continue
					}
					jobs = append(jobs, func() {
						in := NewInterp(R.P)
						orders(in, append([]string{}, order...)...)
						leaves := map[string]string{"doc.Packages[0].PackageSPDXIdentifier": "{p}", "doc.Packages[1].PackageSPDXIdentifier": "{q}", "doc.Files[0].FileSPDXIdentifier": "{f}"}
						lens := map[string]int{"doc.Packages": np, "doc.Files": 1, "doc.Relationships": len(s)}
						if nilRels {
							lens["doc.Relationships"] = -1
						}
						got := map[string]bool{}
						for i, e := range s {
							p := fmt.Sprintf("doc.Relationships[%d]", i)
							universe[e].a.leaves(leaves, p+".RefA")
							universe[e].b.leaves(leaves, p+".RefB")
							leaves[p+".Relationship"] = universe[e].kind
							got[describes(universe[e])] = true
						}
						var names []string
						for _, e := range s {
							names = append(names, fmt.Sprint(universe[e]))
						}
						key := fmt.Sprintf("%d packages, order %v, relationships %v (nil %v)", np, order, names, nilRels)
						doc := in.object(types.NewPointer(docT), "doc", leaves, lens)
						r := R.callCase(key, in, fn, doc)
						var want []string
						if np == 1 {
							want = []string{"{p}"}
						}
						if np == 2 {
							for _, o := range order {
								if got["{"+o+"}"] {
									want = append(want, "{"+o+"}")
								}
							}
						}
						if len(want) == 0 {
							r.fails(nil)
							return
						}
						r.succeeds(func(o Outcome) string {
							w := map[string]string{}
							for i, x := range want {
								w[fmt.Sprintf("ids[%d]", i)] = x
							}
							return mapDiff(w, leafTexts(in.leafMap(o.st, o.res[0], fn.Signature.Results().At(0).Type(), "ids")))
						})
					})
				}
			}
		}
	}
	// several packages, described from either side, some more than once, some not
	for variant := range 6 {
		jobs = append(jobs, func() {
			in := NewInterp(R.P)
			n := longer(4)
			var order []string
			for i := range n {
				order = append(order, fmt.Sprintf("x-%d", (i*(n-1)+variant)%n))
			}
			orders(in, order...)
			leaves := map[string]string{}
			is := map[string]bool{}
			var rels []rel
			for i := range n {
				e := fmt.Sprintf("{x-%d}", i)
				leaves[fmt.Sprintf("doc.Packages[%d].PackageSPDXIdentifier", i)] = e
				switch (i + variant) % 3 {
				case 0:
					rels = append(rels, rel{"DESCRIBES", d, el(e)})
					is[e] = true
				case 1:
					rels = append(rels, rel{"DESCRIBED_BY", el(e), d}, rel{"DESCRIBES", d, el(e)})
					is[e] = true
				default:
					if variant > 2 {
						rels = append(rels, rel{"DESCRIBED_BY", el(e), d}, rel{"CONTAINS", d, el("{x-0}")})
						is[e] = true
					} else {
						rels = append(rels, rel{"DEPENDS_ON", d, el(e)})
					}
				}
			}
			for i, r := range rels {
				p := fmt.Sprintf("doc.Relationships[%d]", i)
				r.a.leaves(leaves, p+".RefA")
				r.b.leaves(leaves, p+".RefB")
				leaves[p+".Relationship"] = r.kind
			}
			doc := in.object(types.NewPointer(docT), "doc", leaves, map[string]int{"doc.Packages": n, "doc.Relationships": len(rels)})
			r := R.callCase(fmt.Sprintf("several packages, variant %d", variant), in, fn, doc)
			r.succeeds(func(o Outcome) string {
				w, k := map[string]string{}, 0
				for _, x := range order {
					if is["{"+x+"}"] {
						w[fmt.Sprintf("ids[%d]", k)] = "{" + x + "}"
						k++
					}
				}
				return mapDiff(w, leafTexts(in.leafMap(o.st, o.res[0], fn.Signature.Results().At(0).Type(), "ids")))
			})
		})
	}
	labels := []string{"{a}", "{b}", "{c}"}
	for _, order := range [][]string{{"a", "b", "c"}, {"c", "b", "a"}, {"b", "c", "a"}} {
		for _, s := range seqs(3, 3) {
			jobs = append(jobs, func() {
				in := NewInterp(R.P)
				orders(in, order...)
				leaves := map[string]string{}
				want := map[string]string{}
				var names []string
				for i, e := range s {
					leaves[fmt.Sprintf("ids[%d]", i)] = labels[e]
					names = append(names, labels[e])
				}
				k := 0
				for _, o := range order {
					for _, e := range s {
						if labels[e] == "{"+o+"}" {
							want[fmt.Sprintf("ids[%d]", k)] = labels[e]
							k++
						}
					}
				}
				T := sortFn.Signature.Params().At(0).Type()
				r := R.callCase(fmt.Sprintf("sorting %v in order %v", names, order), in, sortFn, in.object(T, "ids", leaves, map[string]int{"ids": len(s)}))
				if r == nil {
					return
				}
				for _, o := range r.outs {
					if d := mapDiff(want, leafTexts(in.leafMap(o.st, o.res[0], T, "ids"))); d != "" {
						R.fail(r.key, R.P.Pos(sortFn.Pos()), d)
						return
					}
				}
				R.ob(r.key, true, R.P.Pos(sortFn.Pos()), "")
			})
		}
	}
	// the filter is a function that knows each relationship
	par(jobs)
	checkFilter(R, docT)
}

// checkFilter calls FilterRelationships with a filter that is a function of
// the input: whatever it gives for a relationship.
func checkFilter(R *Report, docT types.Type) {
	fn := R.P.Func("spdxlib", "FilterRelationships")
	resT := fn.Signature.Results().At(0).Type()
	for n := -1; n <= 3; n++ {
		for mask := 0; mask < 1<<max(n, 0); mask++ {
			in := NewInterp(R.P)
			orders(in)
			calls := 0
			in.callLabel = func(st *State, f *Term, args []*Term) []Outcome {
				i := -1
				if len(args) == 1 && args[0].K == KAddr {
					fmt.Sscanf(in.objs[args[0].Obj].Name, "doc.Relationships[%d]", &i)
				}
				if i < 0 {
					return nil
				}
				calls++
				res := in.ts.Nil()
				if mask>>i&1 == 1 {
					T := elemType(resT)
					res = in.ts.Addr(in.inputObj(fmt.Sprintf("in|id%d", i), fmt.Sprintf("id%d", i), T, in.Label(fmt.Sprintf("id%d", i), T)).ID)
				}
				return []Outcome{{st: st, res: []*Term{res}}}
			}
			doc := in.object(types.NewPointer(docT), "doc", nil, map[string]int{"doc.Relationships": n})
			key := fmt.Sprintf("filter of %d relationships, kept %b", n, mask)
			r := R.callCase(key, in, fn, doc, in.Label("filter", fn.Signature.Params().At(1).Type()))
			if r == nil {
				continue
			}
			want := map[string]string{}
			k := 0
			for i := 0; i < n; i++ {
				if mask>>i&1 == 1 {
					want[fmt.Sprintf("ids[%d]", k)] = fmt.Sprintf("{id%d}", i)
					k++
				}
			}
			r.succeeds(func(o Outcome) string {
				if calls != max(n, 0) {
					return fmt.Sprintf("the filter is called %d times for %d relationships", calls, n)
				}
				return mapDiff(want, leafTexts(in.leafMap(o.st, o.res[0], resT, "ids")))
			})
		}
	}
}
