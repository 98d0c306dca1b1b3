package main

import (
	"fmt"
	"sort"
	"strings"
)

func init() {
	register("C04", "Tag-value elements: identifiers required, none lost or doubled", checkC04)
}

// C04: texts that are sequences of element openings, each with or without its
// identifier line. The outcome must be an error or a document that holds every
// element exactly once, at its owner.

type elTok struct {
	name string
	kind byte // P, F, S, L, R
	bad  bool // must be refused
	two  bool
	noNm bool
	same bool // its name is that of the others of its kind
}

var elToks = []elTok{
	{"P", 'P', false, false, false, false},
	{"P-noid", 'P', true, false, false, false},
	{"P-noname", 'P', false, false, true, false},
	{"P-noname-noid", 'P', true, false, true, false},
	{"P-id-twice", 'P', false, true, false, false},
	{"F", 'F', false, false, false, false},
	{"F-noid", 'F', true, false, false, false},
	{"F-id-twice", 'F', false, true, false, false},
	{"S", 'S', false, false, false, false},
	{"L", 'L', false, false, false, false},
	{"R", 'R', false, false, false, false},
}

// tag is what the name of the i-th element ends with.
func (t elTok) tag(i int) string {
	if t.same {
		return "same"
	}
	return fmt.Sprint(i)
}

func elLines(t elTok, i int) []string {
	id := func(l string) []string {
		if t.bad {
			return nil
		}
		if t.two {
			return []string{"SPDXID: SPDXRef-old" + fmt.Sprint(i), "SPDXID: SPDXRef-e" + fmt.Sprint(i)}
		}
		return []string{"SPDXID: SPDXRef-e" + fmt.Sprint(i)}
	}
	switch t.kind {
	case 'P':
		n := "PackageName: p" + t.tag(i)
		if t.noNm {
			n = "PackageName:"
		}
		return append([]string{n}, id("")...)
	case 'F':
		return append([]string{"FileName: f" + t.tag(i)}, id("")...)
	case 'S':
		return []string{fmt.Sprintf("SnippetSPDXID: SPDXRef-e%d", i)}
	case 'L':
		return []string{fmt.Sprintf("LicenseID: LicenseRef-e%d", i)}
	}
	return []string{"Reviewer: Person: e" + t.tag(i)}
}

// elWant gives the identity leaves of the document the sequence describes;
// loose tells whether a snippet belongs to no file.
func elWant(seq []elTok) (map[string]string, bool) {
	w := map[string]string{}
	np, nf, nl, nr := 0, 0, 0, 0
	owner, file := "doc", ""
	cnt := map[string]int{}
	loose := false
	for i, t := range seq {
		id := fmt.Sprintf("e%d", i)
		switch t.kind {
		case 'P':
			owner = fmt.Sprintf("doc.Packages[%d]", np)
			np++
			if !t.noNm {
				w[owner+".PackageName"] = "p" + t.tag(i)
			}
			w[owner+".PackageSPDXIdentifier"] = id
			file = ""
		case 'F':
			file = fmt.Sprintf("%s.Files[%d]", owner, cnt[owner])
			cnt[owner]++
			nf++
			w[file+".FileName"] = "f" + t.tag(i)
			w[file+".FileSPDXIdentifier"] = id
		case 'S':
			if file == "" {
				loose = true
				w["doc.Snippets[?].SnippetSPDXIdentifier"] = id
				break
			}
			w[fmt.Sprintf("%s.Snippets<%s>.SnippetSPDXIdentifier", file, id)] = id
		case 'L':
			w[fmt.Sprintf("doc.OtherLicenses[%d].LicenseIdentifier", nl)] = "LicenseRef-" + id
			nl++
		case 'R':
			w[fmt.Sprintf("doc.Reviews[%d].Reviewer", nr)] = "e" + t.tag(i)
			nr++
		}
	}
	return w, loose
}

func elGot(m map[string]string) map[string]string {
	g := map[string]string{}
	for p, v := range m {
		switch p[strings.LastIndexByte(p, '.')+1:] {
		case "PackageName", "PackageSPDXIdentifier", "FileName", "FileSPDXIdentifier", "SnippetSPDXIdentifier", "LicenseIdentifier", "Reviewer":
			g[p] = v
		}
	}
	return g
}

// ordered: the sequence is in the order of the specification, so it may not be refused.
func elOrdered(seq []elTok) bool {
	rank := map[byte]int{'P': 0, 'F': 0, 'S': 0, 'L': 1, 'R': 2}
	last := 0
	file := false
	for _, t := range seq {
		if t.bad || t.two || t.noNm || rank[t.kind] < last {
			return false
		}
		last = rank[t.kind]
		switch t.kind {
		case 'P':
			file = false
		case 'F':
			file = true
		case 'S':
			if !file {
				return false
			}
		}
	}
	return true
}

func checkC04(R *Report) {
	R.rule("identifiers", "A text in which a package or a file has no SPDXID line is refused, wherever the element stands and whatever follows it.")
	R.rule("elements", "A text that is accepted gives a document that holds every element the text opens exactly once, at its owner (files under the last package before them, snippets under the last file).")
	R.rule("accepted", "Sequences of elements in the order of the specification, each with its identifier, are accepted.")
	max := 3
	if R.thorough() {
		max = 4
	}
	R.assumption(fmt.Sprintf("sequences of at most %d elements are enumerated, and sequences of one kind up to the numbers the reader compares with; identifiers differ between elements", max))
	if !R.need(R.P.Func("tagvalue", "ReadInto") != nil, "tagvalue.ReadInto") {
		return
	}
	R.minObs = 1000
	var jobs []func()
	for _, ver := range versions {
		if !R.need(R.P.Type(verRel(ver), "Document") != nil, verRel(ver)+".Document") {
			continue
		}
		var gen func(seq []elTok)
		gen = func(seq []elTok) {
			if len(seq) > 0 {
				s := append([]elTok(nil), seq...)
				jobs = append(jobs, func() { elCheck(R, ver, s) })
			}
			if len(seq) < max {
				for _, t := range elToks {
					if len(seq) >= 3 && (t.two || t.noNm) {
						continue
					}
					gen(append(seq[:len(seq):len(seq)], t))
				}
			}
		}
		gen(nil)
		// elements of the same name, and many elements
		for _, k := range sameKinds("PFSLR", 4) {
			seq := make([]elTok, len(k))
			for i := range k {
				seq[i] = elTok{name: k[i:i+1] + "-same", kind: k[i], same: true}
			}
			jobs = append(jobs, func() { elCheck(R, ver, seq) })
		}
		for _, k := range []string{"P", "F", "L", "R", "PF", "FS", "PFS", "PL", "FR"} {
			jobs = append(jobs, func() {
				var seq []elTok
				for i := range k[:len(k)-1] {
					seq = append(seq, elTok{name: k[i : i+1], kind: k[i]})
				}
				for range longer(4) {
					seq = append(seq, elTok{name: k[len(k)-1:], kind: k[len(k)-1]})
				}
				elCheck(R, ver, seq)
			})
		}
	}
	par(jobs)
}

// sameKinds gives the sequences of kinds, up to a length, that have one twice.
func sameKinds(kinds string, n int) []string {
	out, last := []string(nil), []string{""}
	for range n {
		var next []string
		for _, p := range last {
			for _, k := range kinds {
				q := p + string(k)
				next = append(next, q)
				if elTwice(q) {
					out = append(out, q)
				}
			}
		}
		last = next
	}
	return out
}

// elTwice: an element whose name can be that of another comes twice.
func elTwice(q string) bool {
	for _, k := range []string{"P", "F", "R"} {
		if strings.Count(q, k) > 1 {
			return true
		}
	}
	return false
}

func elCheck(R *Report, ver string, seq []elTok) {
	var names []string
	x := newRdText(ver)
	lines := []string{"SPDXVersion: SPDX-" + ver[1:2] + "." + ver[3:], "SPDXID: SPDXRef-DOCUMENT", "Creator: Tool: t"}
	_ = x
	bad := false
	for i, t := range seq {
		names = append(names, t.name)
		bad = bad || t.bad
		lines = append(lines, elLines(t, i)...)
	}
	key := ver + " elements " + strings.Join(names, " ")
	r := readTV(R, ver, lines, &scenario{}, nil)
	where := "tagvalue/reader.go"
	if t := r.in.trouble(); t != "" || len(r.outs) == 0 {
		R.fail(key, where, "undecided: "+t)
		return
	}
	want, loose := elWant(seq)
	for _, o := range r.outs {
		ec := errClass(r.in, o.st, o.res[len(o.res)-1])
		switch {
		case ec == '?':
			R.fail(key, where, "it is undecided whether the text is accepted")
			return
		case ec == 'e':
			if !bad && elOrdered(seq) {
				R.fail(key, where, "a well-formed text is refused")
				return
			}
			continue
		case bad && mergedPkg(seq):
			R.fail(ver+" a package line with neither name nor identifier is refused", where, "the next package line is taken for the name of the same package: "+strings.Join(names, " "))
			continue
		case bad:
			R.fail(key, where, "an element without identifier is accepted")
			return
		}
		got := elGot(r.leaves(o))
		if loose {
			// anywhere in the document will do
			left := map[string]bool{}
			for _, v := range want {
				left[v] = true
			}
			for _, v := range got {
				delete(left, v)
			}
			if len(left) > 0 {
				var l []string
				for v := range left {
					l = append(l, v)
				}
				sort.Strings(l)
				R.fail(ver+" a snippet outside any file is kept or refused", where, "the text is accepted but "+strings.Join(l, ", ")+" of "+strings.Join(names, " ")+" is not in the document")
			}
			continue
		}
		if d := mapDiff(want, got); d != "" {
			R.fail(key, where, d)
			return
		}
	}
	R.ob(key, true, where, "")
}

// mergedPkg: the only element without identifier is a nameless package that is
// followed by another package line.
func mergedPkg(seq []elTok) bool {
	for i, t := range seq {
		if !t.bad {
			continue
		}
		j := i + 1
		for j < len(seq) && (seq[j].kind == 'F' || seq[j].kind == 'S') {
			j++
		}
		if !t.noNm || j >= len(seq) || seq[j].kind != 'P' {
			return false
		}
	}
	return true
}

// mapDiff describes the first differences of two maps.
func mapDiff(want, got map[string]string) string {
	var ds []string
	for k, v := range want {
		if g, ok := got[k]; !ok {
			ds = append(ds, k+" is missing (should be "+v+")")
		} else if g != v {
			ds = append(ds, k+" is "+g+" (should be "+v+")")
		}
	}
	for k, g := range got {
		if _, ok := want[k]; !ok {
			ds = append(ds, k+" = "+g+" should not be there")
		}
	}
	sort.Strings(ds)
	if len(ds) > 4 {
		ds = append(ds[:4], fmt.Sprintf("and %d more", len(ds)-4))
	}
	return strings.Join(ds, "; ")
}
