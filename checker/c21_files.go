package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C21", "File hashes are of the whole file, under the right algorithm", checkC21)
	register("C22", "The package verification code is the SHA1 over the sorted SHA1s", checkC22)
	register("C23", "The directory walk lists every regular file that is not ignored", checkC23)
	register("C24", "A built document describes the directory it was built from", checkC24)
}

// fnRun is one abstract call of an exported function.
type fnRun struct {
	R    *Report
	in   *Interp
	fn   *ssa.Function
	outs []Outcome
	key  string
}

// callCase calls an exported function; nil if the outcome is undecided.
func (R *Report) callCase(key string, in *Interp, fn *ssa.Function, args ...*Term) *fnRun {
	outs := in.entryCall(fn, args...)
	R.absorb(in)
	if t := in.trouble(); t != "" || len(outs) == 0 {
		if t == "" {
			t = "it never returns"
		}
		for _, a := range sortedAlarms(in) {
			t += "; " + a.Kind + " at " + R.P.Pos(a.Pos)
		}
		R.fail(key, R.P.Pos(fn.Pos()), "what "+fn.Name()+" does is undecided: "+t)
		return nil
	}
	return &fnRun{R, in, fn, outs, key}
}

func sortedAlarms(in *Interp) []*Alarm {
	var as []*Alarm
	for _, a := range in.alarms {
		as = append(as, a)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].Pos < as[j].Pos })
	return as
}

// succeeds expects a nil error as the last result of every outcome and no
// difference found by check.
func (r *fnRun) succeeds(check func(o Outcome) string) {
	r.each('n', check)
}

// fails expects an error as the last result of every outcome.
func (r *fnRun) fails(check func(o Outcome) string) {
	r.each('e', check)
}

func (r *fnRun) each(class byte, check func(o Outcome) string) {
	if r == nil {
		return
	}
	where := r.R.P.Pos(r.fn.Pos())
	for _, o := range r.outs {
		if c := errClass(r.in, o.st, o.res[len(o.res)-1]); c != class {
			r.R.fail(r.key, where, map[byte]string{'n': "it may fail where it should succeed", 'e': "it may succeed where it should fail"}[class]+": "+o.res[len(o.res)-1].String())
			return
		}
		if check == nil {
			continue
		}
		if d := check(o); d != "" {
			r.R.fail(r.key, where, d)
			return
		}
	}
	if len(r.in.alarms) > 0 && r.in.checkNil {
		a := sortedAlarms(r.in)[0]
		r.R.fail(r.key, r.R.P.Pos(a.Pos), a.Kind+": "+a.Msg)
		return
	}
	r.R.ob(r.key, true, where, "")
}

// closed: every file that was opened is closed, and nothing was written.
func (r *fnRun) closed(o Outcome) string {
	for _, e := range sortedEvents(o.st, "open") {
		v := r.in.content(o.st, e.Obj)
		if v == nil || v.K != KOp || v.Op != "file" || v.Args[1].str() != "closed" {
			return "the file opened at " + r.R.P.Pos(e.Pos) + " is not closed"
		}
	}
	for _, k := range []string{"file-write", "write-input"} {
		for _, e := range sortedEvents(o.st, k) {
			return k + " at " + r.R.P.Pos(e.Pos)
		}
	}
	return ""
}

func (r *fnRun) sameTerms(o Outcome, want ...*Term) string {
	for i, w := range want {
		if g := r.in.resolve(o.st, o.res[i], nil); g != w {
			return fmt.Sprintf("result %d is %s (should be %s)", i+1, short(g.String(), 200), short(w.String(), 200))
		}
	}
	return ""
}

func segAttr(in *Interp) {
	in.attr = func(t *Term) Attr {
		if t.K == KLabel {
			return Attr{NonEmpty: true, Generic: true, Distinct: true, Trimmed: true, Lacks: []string{"/", "*", "\n", "SPDXRef-", ":"}}
		}
		return Attr{}
	}
}

func checkC21(R *Report) {
	R.rule("hashes", "GetHashesForFilePath returns the SHA1, the SHA256 and the MD5, in hexadecimal and in this order, of the whole content of the file named, an error and empty texts when the file cannot be opened or read, and closes the file on every path.")
	R.rule("labels", "BuildFileSection names the file and its identifier as told and records each hash under its own algorithm; when the file cannot be read it returns an error and no file.")
	R.assumption("crypto/* hash what is written to them; io.Copy copies everything or returns an error; fmt and encoding/hex print lower-case hexadecimal")
	R.minObs = 10
	fn := R.P.Func("utils", "GetHashesForFilePath")
	if R.need(fn != nil, "utils.GetHashesForFilePath") {
		for i, bad := range []string{"", "Open", "Read", "", "", "", ""} {
			tmpl := "/{a}/{b}"
			if i > 2 {
				tmpl = []string{"/{a}/{b} ", " {a}", "./{a}", "{a}~"}[i-3]
			}
			in := NewInterp(R.P)
			segAttr(in)
			in.fs = &fsModel{fail: map[string]bool{bad: true}}
			p := in.tmplTerm(tmpl)
			r := R.callCase("hashes of "+tmpl+", failing "+bad, in, fn, p)
			c := in.fileContent(p)
			if bad == "" {
				r.succeeds(func(o Outcome) string {
					if d := r.sameTerms(o, in.hexSum("sha1", c), in.hexSum("sha256", c), in.hexSum("md5", c)); d != "" {
						return d
					}
					return r.closed(o)
				})
				continue
			}
			r.fails(func(o Outcome) string {
				if d := r.sameTerms(o, in.ts.Str(""), in.ts.Str(""), in.ts.Str("")); d != "" {
					return d
				}
				return r.closed(o)
			})
		}
	}
	fn = R.P.Func("builder", "BuildFileSection")
	if R.need(fn != nil, "builder.BuildFileSection") {
		fileT := R.P.Type("spdx/v2/v2_3", "File")
		for _, name := range []string{"{a}", "./{a}", "/{a}", "./{d}/{a}", "./{d}/{a} ", "./ {a}"} {
			for _, root := range []string{"{r}", "/{r}/{s}", "."} {
				for _, n := range []int64{0, 7} {
					in := NewInterp(R.P)
					segAttr(in)
					in.fs = &fsModel{}
					r := R.callCase(fmt.Sprintf("file section %d of %s in %s", n, name, root), in, fn, in.tmplTerm(name), in.tmplTerm(root), in.ts.Int(n))
					r.succeeds(func(o Outcome) string {
						c := in.fileContent(in.joinPath(in.tmplTerm(root), in.tmplTerm(name)))
						want := fileWant("f", name, fmt.Sprintf("File%d", n), in, c)
						if d := mapDiff(want, leafTexts(in.leafMap(o.st, o.res[0], types.NewPointer(fileT), "f"))); d != "" {
							return d
						}
						return r.closed(o)
					})
				}
			}
		}
		for _, bad := range []string{"Open", "Read"} {
			in := NewInterp(R.P)
			segAttr(in)
			in.fs = &fsModel{fail: map[string]bool{bad: true}}
			r := R.callCase("file section, failing "+bad, in, fn, in.tmplTerm("./{a}"), in.tmplTerm("{r}"), in.ts.Int(1))
			r.fails(func(o Outcome) string {
				if d := r.sameTerms(o, in.ts.Nil()); d != "" {
					return d
				}
				return r.closed(o)
			})
		}
	}
}

// fileWant: the leaves of the file section for a file with the content given.
func fileWant(pre, name, id string, in *Interp, content *Term) map[string]string {
	m := map[string]string{
		pre + ".FileName": name, pre + ".FileSPDXIdentifier": id,
		pre + ".LicenseConcluded": "NOASSERTION", pre + ".LicenseInfoInFiles[0]": "NOASSERTION", pre + ".FileCopyrightText": "NOASSERTION",
	}
	for i, a := range [][2]string{{"SHA1", "sha1"}, {"SHA256", "sha256"}, {"MD5", "md5"}} {
		m[fmt.Sprintf("%s.Checksums[%d].Algorithm", pre, i)] = a[0]
		m[fmt.Sprintf("%s.Checksums[%d].Value", pre, i)] = termText(in.hexSum(a[1], content))
	}
	return m
}

func perms(n int) [][]int {
	if n == 0 {
		return [][]int{{}}
	}
	var out [][]int
	for _, p := range perms(n - 1) {
		for i := 0; i <= len(p); i++ {
			q := append(append(append([]int{}, p[:i]...), n-1), p[i:]...)
			out = append(out, q)
		}
	}
	return out
}

func checkC22(R *Report) {
	R.same(func(a, b string) bool { return strings.HasSuffix(b, "FileName") })
	R.rule("code", "GetVerificationCode returns the hexadecimal SHA1 of the SHA1 checksums of all the files but the excluded one, sorted and put together with nothing in between, whatever the order of the files and of their checksums.")
	R.rule("excluded", "The excluded file is recorded when one is named, and none otherwise.")
	R.rule("nil", "A nil file is an error, and no code is returned.")
	R.rule("read only", "The files are not changed.")
	R.assumption("crypto/sha1 hashes what is written to it; sort.Strings sorts; no checksum is a prefix of another")
	R.minObs = 60
	fn := R.P.Func("utils", "GetVerificationCode")
	if !R.need(fn != nil, "utils.GetVerificationCode") {
		return
	}
	filesT := fn.Signature.Params().At(0).Type()
	algs := [][][]string{ // per number of files: the checksums each has
		{},
		{{"SHA1"}}, {{"MD5", "SHA1", "SHA256"}}, {{"SHA256"}}, {{}},
		{{"SHA1"}, {"SHA1"}}, {{"MD5", "SHA1"}, {"SHA1", "SHA512"}}, {{"SHA224"}, {"SHA1"}},
		{{"SHA1"}, {"SHA1"}, {"SHA1"}}, {{"SHA1", "MD5"}, {"SHA256", "SHA1"}, {}},
	}
	if R.thorough() {
		algs = append(algs, [][]string{{"SHA1"}, {"SHA1"}, {"SHA1"}, {"SHA1"}}, [][]string{{"MD5"}, {"SHA1"}, {"SHA1", "SHA384"}, {"SHA1"}}, [][]string{{"SHA1"}, {"SHA1"}, {"SHA1"}, {"SHA1"}, {"SHA1"}})
	}
	var jobs []func()
	for _, fs := range algs {
		var ids []string
		for i, f := range fs {
			for j, a := range f {
				if a == "SHA1" {
					ids = append(ids, fmt.Sprintf("f[%d].Checksums[%d].Value", i, j))
				}
			}
		}
		for _, order := range perms(len(ids)) {
			for ex := -2; ex < len(fs); ex++ { // no exclusion, another file, one of these
				for nilAt := -1; nilAt < len(fs); nilAt++ {
					if nilAt >= 0 && (ex > 0 || order != nil && len(order) > 0 && order[0] != 0) {
						continue
					}
					jobs = append(jobs, func() { verificationCase(R, fn, filesT, fs, ids, order, ex, nilAt, 0) })
					for eq := 1; eq < len(order) && nilAt < 0; eq++ {
						jobs = append(jobs, func() { verificationCase(R, fn, filesT, fs, ids, order, ex, nilAt, eq) })
					}
				}
			}
		}
	}
	jobs = append(jobs, func() {
		var fs [][]string
		var ids []string
		var order []int
		n := longer(4)
		for i := range n {
			fs = append(fs, []string{"SHA1"})
			ids = append(ids, fmt.Sprintf("f[%d].Checksums[0].Value", i))
			order = append(order, n-1-i)
		}
		verificationCase(R, fn, filesT, fs, ids, order, -2, -1, 0)
		verificationCase(R, fn, filesT, fs, ids, order, n-1, -1, 0)
	})
	names := []string{"a.spdx", "d/a.spdx", "A.spdx", "a.spdx.bak", "./b", "b", "a", "a,b", " b", "*"}
	for _, x := range names {
		jobs = append(jobs, func() {
			in := NewInterp(R.P)
			in.sorting, in.rank = true, map[string]int{}
			s := &scenario{def: "gen"}
			want := ""
			for i, n := range names {
				s2 := fmt.Sprintf("f[%d]", i)
				in.rank[s2+".Checksums[0].Value"] = len(names) - i
				if n != x {
					want = "{" + s2 + ".Checksums[0].Value}" + want
				}
			}
			s.fn = func(p string) (string, bool) {
				var i int
				fmt.Sscanf(p, "f[%d]", &i)
				switch {
				case strings.HasSuffix(p, ".Algorithm"):
					return "=SHA1", true
				case strings.HasSuffix(p, ".FileName"):
					return "=" + names[i], true
				}
				return "", false
			}
			cfg := s.install(in)
			cfg.n = func(p string) int {
				if p == "f" {
					return len(names)
				}
				return 1
			}
			r := R.callCase("excluded by its name alone: "+x, in, fn, in.build(filesT, "f", cfg), in.ts.Str(x))
			r.succeeds(func(o Outcome) string {
				m := map[string]string{"code.Value": termText(in.hexSum("sha1", in.tmplTerm(want))), "code.ExcludedFiles[0]": x}
				return mapDiff(m, leafTexts(in.leafMap(o.st, o.res[0], fn.Signature.Results().At(0).Type(), "code")))
			})
		})
	}
	par(jobs)
}

func verificationCase(R *Report, fn *ssa.Function, filesT types.Type, fs [][]string, ids []string, order []int, ex, nilAt, eq int) {
	// the values at eq-1 and eq in the order are equal
	same := map[string]string{}
	if eq > 0 {
		same[ids[order[eq]]] = ids[order[eq-1]]
	}
	value := func(in *Interp, id string) *Term {
		if s := same[id]; s != "" {
			id = s
		}
		return in.Label(id, strT)
	}
	in := NewInterp(R.P)
	in.sorting, in.rank = true, map[string]int{}
	for k, i := range order {
		in.rank[ids[i]] = k + 1
	}
	s := &scenario{def: "gen", leaf: map[string]string{"ex": "gen"}}
	s.n = nil
	s.fn = func(p string) (string, bool) {
		for i, f := range fs {
			for j, a := range f {
				if p == fmt.Sprintf("f[%d].Checksums[%d].Algorithm", i, j) {
					return "=" + a, true
				}
			}
		}
		return "", false
	}
	cfg := s.install(in)
	cfg.n = func(p string) int {
		switch {
		case p == "f":
			return len(fs)
		case strings.HasSuffix(p, ".Checksums"):
			var i int
			fmt.Sscanf(p, "f[%d]", &i)
			return len(fs[i])
		}
		return 1
	}
	leaf := cfg.leaf
	cfg.leaf = func(p string, t types.Type) *Term {
		if same[p] != "" {
			return value(in, p)
		}
		return leaf(p, t)
	}
	cfg.ptr = func(p string) byte {
		if nilAt >= 0 && p == fmt.Sprintf("f[%d]", nilAt) {
			return 'n'
		}
		return 'p'
	}
	files := in.build(filesT, "f", cfg)
	exT := in.ts.Str("")
	if ex == -1 {
		exT = in.Label("ex", strT)
	} else if ex >= 0 {
		exT = in.Label(fmt.Sprintf("f[%d].FileName", ex), strT)
	}
	key := fmt.Sprintf("files %v, order %v, excluded %d, nil %d", fs, order, ex, nilAt)
	if eq > 0 {
		key += fmt.Sprintf(", equal at %d", eq)
	}
	r := R.callCase(key, in, fn, files, exT)
	if r == nil {
		return
	}
	codeT := fn.Signature.Results().At(0).Type()
	if nilAt >= 0 {
		r.fails(func(o Outcome) string {
			return mapDiff(map[string]string{}, leafTexts(in.leafMap(o.st, o.res[0], codeT, "code")))
		})
		return
	}
	r.succeeds(func(o Outcome) string {
		var ps []*Term
		for _, i := range order {
			if ex >= 0 && strings.HasPrefix(ids[i], fmt.Sprintf("f[%d].", ex)) {
				continue
			}
			ps = append(ps, value(in, ids[i]))
		}
		want := map[string]string{"code.Value": termText(in.hexSum("sha1", in.ts.Cat(ps...)))}
		if ex > -2 {
			want["code.ExcludedFiles[0]"] = termText(exT)
		}
		if d := mapDiff(want, leafTexts(in.leafMap(o.st, o.res[0], codeT, "code"))); d != "" {
			return d
		}
		return r.closed(o)
	})
}

// an entry of a directory tree and whether it is listed
type treeEntry struct {
	rel    string
	mode   int64
	listed bool
}

func checkC23(R *Report) {
	R.same(caseNames)
	R.special(func(_, v string) bool { return v == "go.mod" || v == "LICENSE" || v == ".git" }) // files of the tree
	R.rule("list", "GetAllFilePaths returns exactly the paths, below the directory and beginning with /, of the files under it that are neither directories nor symbolic links and that no pattern ignores.")
	R.rule("errors", "A directory or entry that cannot be read is an error.")
	R.rule("ignore", "ShouldIgnore is true of exactly the path a pattern names, of everything below a directory a pattern with a trailing slash names, and with a leading ** wherever that file or directory is.")
	R.assumption("path/filepath.Walk and WalkDir visit every entry below the directory; paths use / (as on Unix); path segments are texts without / and *")
	R.minObs = 100
	fn := R.P.Func("utils", "GetAllFilePaths")
	ign := R.P.Func("utils", "ShouldIgnore")
	tree := []treeEntry{
		{"{a}", modeReg, true}, {"{d}", modeDir, false}, {"{d}/{b}", modeReg, true}, {"{d}/{e}", modeDir, false}, {"{d}/{e}/{a}", modeExec, true},
		{"{d}/{e}/{l}", modeLink, false}, {"{d}/{f}", modeDir, false}, {"{l}", modeLink, false}, {"{z}", modeExec, true},
		{"{p1}", modePipe, false}, {"{d}/{p2}", modeSock, false}, {"{p3}", modeDev, false}, {"{p4}", modeChar, false}, {"{d}/{e}/{p5}", modeOdd, false},
		{"{q1}", modeSuid, true}, {"{d}/{q2}", modeNone, true},
		// names of any form
		{".{h}", modeReg, true}, {"{d}/.{h}", modeReg, true}, {".git", modeDir, false}, {".git/{q3}", modeReg, true}, {"{d}/{h}~", modeReg, true}, {"{d}/#{h}#", modeReg, true},
		{"{h} {q3}", modeReg, true}, {"{d}/{h}.{q3}", modeReg, true}, {"{h}:{q3}", modeReg, true}, {"-{h}", modeReg, true}, {"_{h}", modeReg, true}, {"{d}/..{h}", modeReg, true},
		{"{h}\\{q3}", modeReg, true}, {"{d}/%{h}", modeReg, true}, {"7", modeReg, true}, {"Q", modeReg, true}, {"é", modeReg, true}, {"go.mod", modeReg, true}, {"{d}/LICENSE", modeReg, true},
	}
	pats := []struct {
		pat  string
		hits func(p string) bool
	}{
		{"", nil},
		{"/{a}", func(p string) bool { return p == "/{a}" }},
		{"/{d}/{b}", func(p string) bool { return p == "/{d}/{b}" }},
		{"/{d}/{e}/{a}", func(p string) bool { return p == "/{d}/{e}/{a}" }},
		{"/{d}/", func(p string) bool { return strings.HasPrefix(p, "/{d}/") }},
		{"/{d}/{e}/", func(p string) bool { return strings.HasPrefix(p, "/{d}/{e}/") }},
		{"/{e}/", func(p string) bool { return strings.HasPrefix(p, "/{e}/") }},
		{"/{e}/{a}", func(p string) bool { return p == "/{e}/{a}" }},
		{"/{b}", func(p string) bool { return p == "/{b}" }},
		{"**/{a}", func(p string) bool { return strings.HasSuffix(p, "/{a}") }},
		{"**/{b}", func(p string) bool { return strings.HasSuffix(p, "/{b}") }},
		{"**/{e}/", func(p string) bool { return strings.Contains(p, "/{e}/") }},
		{"**/{d}/", func(p string) bool { return strings.Contains(p, "/{d}/") }},
		{"**/{e}/{a}", func(p string) bool { return strings.HasSuffix(p, "/{e}/{a}") }},
		{"**/{d}/{e}/", func(p string) bool { return strings.Contains(p, "/{d}/{e}/") }},
		{"**/{x}", func(p string) bool { return false }},
		{"/{x}/", func(p string) bool { return false }},
	}
	var jobs []func()
	if R.need(ign != nil, "utils.ShouldIgnore") {
		paths := []string{"/{a}", "/{b}", "/{d}/{b}", "/{d}/{a}", "/{e}/{a}", "/{e}/{b}", "/{d}/{e}/{a}", "/{d}/{e}/{b}", "/{d}/{x}/{e}/{b}", "/{e}/{d}/{b}", "/{d}", "/{e}", "/{d}/{e}",
			// names that begin or end with another
			"/{d}{y}/{b}", "/{y}{d}/{b}", "/{a}{y}", "/{y}{a}", "/{d}/{y}{b}", "/{d}/{b}{y}", "/{y}{d}/{e}/{b}", "/{d}/{e}{y}/{a}", "/{d}/{y}{e}/{a}", "/{y}{e}/{a}"}
		for _, p := range paths {
			for i, a := range pats {
				for j, b := range pats {
					if i > 0 && j > 0 && i >= j && !R.thorough() || i == 0 && j > 0 {
						continue
					}
					if (a.pat == "**/{d}/{e}/" || b.pat == "**/{d}/{e}/") && strings.Contains(p, "{x}") {
						continue
					}
					jobs = append(jobs, func() {
						in := NewInterp(R.P)
						segAttr(in)
						var l []string
						want := false
						for _, x := range []int{i, j} {
							if pats[x].pat != "" {
								l = append(l, pats[x].pat)
								want = want || pats[x].hits(p)
							}
						}
						r := R.callCase(fmt.Sprintf("ignore %s by %v", p, l), in, ign, in.tmplTerm(p), in.strList(l))
						if r == nil {
							return
						}
						for _, o := range r.outs {
							if o.res[0] != in.ts.Bool(want) {
								R.fail(r.key, R.P.Pos(ign.Pos()), fmt.Sprintf("the answer is %s (should be %v)", o.res[0], want))
								return
							}
						}
						R.ob(r.key, true, R.P.Pos(ign.Pos()), "")
					})
				}
			}
		}
	}
	if R.need(fn != nil, "utils.GetAllFilePaths") {
		for _, root := range [][2]string{{"{r}", "/{p}/{r}"}, {"/{p}/{r}", "/{p}/{r}"}, {"/", "/"}, {".", "/{p}"}} {
			for i, pt := range pats {
				jobs = append(jobs, func() {
					in := NewInterp(R.P)
					segAttr(in)
					in.fs = walkTree(in, root[0], root[1], tree)
					arg := in.ts.Nil()
					if i > 0 {
						arg = in.strList([]string{pt.pat})
					}
					r := R.callCase(fmt.Sprintf("files below %s without %q", root[0], pt.pat), in, fn, in.fs.root, arg)
					r.succeeds(func(o Outcome) string {
						want := map[string]string{}
						for _, e := range tree {
							if p := "/" + e.rel; e.listed && (i == 0 || !pt.hits(p)) {
								want[p] = "listed"
							}
						}
						es, ok := in.elems(o.st, o.res[0])
						if !ok {
							return "the list of files is undecided"
						}
						got := map[string]string{}
						for _, e := range es {
							if t := termText(e); got[t] != "" {
								got[t] = "listed twice"
							} else {
								got[t] = "listed"
							}
						}
						return mapDiff(want, got)
					})
				})
			}
			for _, bad := range []string{"Abs", "Walk", "entry"} {
				for e := range tree {
					if bad != "entry" && e > 0 {
						break
					}
					jobs = append(jobs, func() {
						in := NewInterp(R.P)
						segAttr(in)
						in.fs = walkTree(in, root[0], root[1], tree)
						in.fs.fail = map[string]bool{bad: true}
						what := bad
						if bad == "entry" {
							in.fs.entries[e].err = true
							what = tree[e].rel
						}
						r := R.callCase(fmt.Sprintf("files below %s, failing %s", root[0], what), in, fn, in.fs.root, in.ts.Nil())
						r.fails(nil)
					})
				}
			}
		}
		jobs = append(jobs, func() {
			in := NewInterp(R.P)
			segAttr(in)
			var many []treeEntry
			for i := range longer(3) {
				many = append(many, treeEntry{fmt.Sprintf("{x-%d}", i), modeReg, true})
			}
			deep := ""
			for i := range longer(3) {
				deep += fmt.Sprintf("{x-d%d}", i)
				many = append(many, treeEntry{deep, modeDir, false}, treeEntry{deep + "/{x-f}", modeReg, true})
				deep += "/"
			}
			in.fs = walkTree(in, "{r}", "/{r}", many)
			r := R.callCase("many files, deep below a directory", in, fn, in.fs.root, in.ts.Nil())
			r.succeeds(func(o Outcome) string {
				want, got := map[string]string{}, map[string]string{}
				for _, e := range many {
					if e.listed {
						want["/"+e.rel] = "listed"
					}
				}
				es, ok := in.elems(o.st, o.res[0])
				if !ok {
					return "the list of files is undecided"
				}
				for _, e := range es {
					got[termText(e)] = "listed"
				}
				return mapDiff(want, got)
			})
		})
		for _, sub := range [][]treeEntry{{}, {{"{d}", modeDir, false}}, {{"{l}", modeLink, false}}} {
			jobs = append(jobs, func() {
				in := NewInterp(R.P)
				segAttr(in)
				in.fs = walkTree(in, "{r}", "/{r}", sub)
				r := R.callCase(fmt.Sprintf("files below a directory with no files %d", len(sub)), in, fn, in.fs.root, in.ts.Nil())
				r.succeeds(func(o Outcome) string {
					if es, ok := in.elems(o.st, o.res[0]); !ok || len(es) > 0 {
						return "files are listed"
					}
					return ""
				})
			})
		}
	}
	par(jobs)
}

func walkTree(in *Interp, root, abs string, tree []treeEntry) *fsModel {
	fs := &fsModel{root: in.tmplTerm(root), abs: in.tmplTerm(abs)}
	for _, e := range tree {
		fs.entries = append(fs.entries, fsEntry{rel: in.tmplTerm(e.rel), mode: e.mode})
	}
	return fs
}

// strList makes a list of texts.
func (in *Interp) strList(l []string) *Term {
	st := types.NewSlice(strT)
	if l == nil {
		return in.ts.Nil()
	}
	var es []*Term
	for _, s := range l {
		es = append(es, in.tmplTerm(s))
	}
	at := types.NewArray(strT, int64(len(l)))
	o := in.inputObj("in|"+strings.Join(l, ","), "list", at, nil)
	o.Init = in.ts.Struct(at, es)
	return in.ts.Slice(o.ID, 0, len(l), st)
}

func checkC24(R *Report) {
	R.same(caseNames)
	R.rule("built", "Build returns a document of the current version that holds one package with one file section per listed file, in the order of the walk, with distinct identifiers, hashes of that file, and a verification code over those files; a DESCRIBES relationship from the document to the package; the creators builder and the configured one; and a namespace that begins with the configured prefix and the package name.")
	R.rule("creator", "A configured creator type that is none of Person, Organization and Tool is taken as Person.")
	R.rule("errors", "When the directory or a file cannot be read, Build returns an error and no document.")
	R.rule("known", "The namespace is a URI: the verification code in it is its text.")
	R.assumption("as for C21 to C23; package names and paths are texts without / and :")
	R.special(func(l, v string) bool { return l == "other" && (v == "Person" || v == "Organization" || v == "Tool") })
	R.minObs = 20
	fn := R.P.Func("builder", "Build")
	docT := R.P.Type("spdx/v2/v2_3", "Document")
	cfgT := R.P.Type("builder", "Config")
	if !R.need(fn != nil && docT != nil && cfgT != nil, "builder.Build") {
		return
	}
	trees := [][]treeEntry{
		{},
		{{"{a}", modeReg, true}},
		{{"{a}", modeReg, true}, {"{d}", modeDir, false}, {"{d}/{b}", modeExec, true}, {"{d}/{l}", modeLink, false}, {"{d}/{x}", modeReg, true}},
	}
	var jobs []func()
	for ti := range len(trees) + 1 {
		var tree []treeEntry
		if ti < len(trees) {
			tree = trees[ti]
		}
		for _, typ := range []string{"Person", "Organization", "Tool", "", "{other}"} {
			for _, created := range []string{"", "{created}"} {
				for _, ignore := range []string{"", "/{d}/{x}"} {
					for _, bad := range []string{"", "Abs", "Walk", "Open", "Read"} {
						if bad != "" && (typ != "Tool" || len(tree) == 0 && (bad == "Open" || bad == "Read")) {
							continue
						}
						if ti == len(trees) && (typ != "Tool" || bad != "" || ignore != "") {
							continue
						}
						jobs = append(jobs, func() {
							tree := tree
							if ti == len(trees) {
								for i := range longer(4) {
									tree = append(tree, treeEntry{fmt.Sprintf("{x-%d}", i), modeReg, true})
								}
							}
							in := NewInterp(R.P)
							segAttr(in)
							in.fs = walkTree(in, "{r}", "/{p}/{r}", tree)
							in.fs.fail = map[string]bool{bad: true}
							in.sorting, in.rank = true, map[string]int{}
							in.rankSum = true
							cfg := in.build(cfgT, "cfg", &shapeCfg{leaf: func(p string, t types.Type) *Term {
								switch p {
								case "cfg.CreatorType":
									return in.tmplTerm(typ)
								case "cfg.PathsIgnored":
									if ignore == "" {
										return in.ts.Nil()
									}
									return in.strList([]string{ignore})
								case "cfg.TestValues":
									if created == "" {
										return in.ts.Nil()
									}
									o := in.inputObj("in|cfg.TestValues", p, t, nil)
									o.Init = in.ts.intern(&Term{K: KMapVal, Args: []*Term{in.ts.Str("Created"), in.tmplTerm(created)}, T: t})
									return in.ts.Addr(o.ID)
								}
								return nil
							}})
							o := in.inputObj("cfg", "cfg", cfgT, cfg)
							key := fmt.Sprintf("build, tree %d, creator type %q, created %q, ignored %q, failing %q", ti, typ, created, ignore, bad)
							r := R.callCase(key, in, fn, in.Label("name", strT), in.fs.root, in.ts.Addr(o.ID))
							if r == nil {
								return
							}
							if bad != "" {
								r.fails(func(o Outcome) string {
									if d := r.sameTerms(o, in.ts.Nil()); d != "" {
										return d
									}
									return r.closed(o)
								})
								return
							}
							ns := ""
							r.succeeds(func(o Outcome) string {
								got := leafTexts(in.leafMap(o.st, o.res[0], types.NewPointer(docT), "doc"))
								want := builtWant(in, tree, typ, created, ignore)
								ns = got["doc.DocumentNamespace"]
								if !strings.HasPrefix(ns, "{cfg.NamespacePrefix}{name}-") || len(ns) <= len("{cfg.NamespacePrefix}{name}-") {
									return "the namespace is " + ns
								}
								if code := strings.Trim(want["doc.Packages[0].PackageVerificationCode.Value"], "{}?"); !strings.Contains(ns, code) {
									return "the namespace does not hold the verification code but is " + ns
								}
								delete(got, "doc.DocumentNamespace")
								if created == "" {
									if got["doc.CreationInfo.Created"] == "" {
										return "there is no creation date"
									}
									delete(got, "doc.CreationInfo.Created")
								}
								if d := mapDiff(want, got); d != "" {
									return d
								}
								return r.closed(o)
							})
							if ti == 1 && typ == "Tool" && created == "" && ignore == "" {
								key := "namespace is a URI"
								if strings.Contains(ns, "?fmt:%") {
									key += ", not the Go form of the code"
								}
								R.ob(key, ns == "{cfg.NamespacePrefix}{name}-"+builtWant(in, tree, typ, created, ignore)["doc.Packages[0].PackageVerificationCode.Value"], R.P.Pos(fn.Pos()), "the namespace is "+short(ns, 120))
							}
						})
					}
				}
			}
		}
	}
	par(jobs)
}

func builtWant(in *Interp, tree []treeEntry, typ, created, ignore string) map[string]string {
	if typ != "Organization" && typ != "Tool" {
		typ = "Person"
	}
	w := map[string]string{
		"doc.SPDXVersion": "SPDX-2.3", "doc.DataLicense": "CC0-1.0", "doc.SPDXIdentifier": "DOCUMENT", "doc.DocumentName": "{name}",
		"doc.CreationInfo.Creators[0].Creator": "github.com/spdx/tools-golang/builder", "doc.CreationInfo.Creators[0].CreatorType": "Tool",
		"doc.CreationInfo.Creators[1].Creator": "{cfg.Creator}", "doc.CreationInfo.Creators[1].CreatorType": typ,
		"doc.Relationships[0].RefA.ElementRefID": "DOCUMENT", "doc.Relationships[0].RefB.ElementRefID": "Package-{name}", "doc.Relationships[0].Relationship": "DESCRIBES",
	}
	if created != "" {
		w["doc.CreationInfo.Created"] = created
	}
	p := "doc.Packages[0]"
	for k, v := range map[string]string{"PackageName": "{name}", "PackageSPDXIdentifier": "Package-{name}", "PackageDownloadLocation": "NOASSERTION", "FilesAnalyzed": "true", "IsFilesAnalyzedTagPresent": "true",
		"PackageLicenseConcluded": "NOASSERTION", "PackageLicenseDeclared": "NOASSERTION", "PackageCopyrightText": "NOASSERTION"} {
		w[p+"."+k] = v
	}
	n := 0
	var sums []*Term
	for _, e := range tree {
		if !e.listed || ignore != "" && "/"+e.rel == ignore {
			continue
		}
		c := in.fileContent(in.tmplTerm("{r}/" + e.rel))
		for k, v := range fileWant(fmt.Sprintf("%s.Files[%d]", p, n), "./"+e.rel, fmt.Sprintf("File%d", n), in, c) {
			w[k] = v
		}
		sums = append(sums, in.hexSum("sha1", c))
		n++
	}
	sort.SliceStable(sums, func(i, j int) bool { return sums[i].ID < sums[j].ID })
	w[p+".PackageVerificationCode.Value"] = termText(in.hexSum("sha1", in.ts.Cat(sums...)))
	return w
}
