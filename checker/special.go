package main

import (
	"bytes"
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

// A generic text is one that no test of the program singles out. A program
// that does test it against a constant has another case to look at: the text
// that is singled out. Such tests are recorded while a case is analysed, and
// the case is analysed again for the text that each of them singles out. What
// is expected stays the same: special texts that are to be treated in a way
// of their own are listed by the check (R.special).

// special is a test of a generic text, and the text that passes it.
type special struct {
	label, val string
	same       types.Type // the text is that of the label val, of this type
}

// caseJob is one case of a check while it is analysed.
type caseJob struct {
	vals map[string]special // texts that have a known value
	mu   sync.Mutex
	asks map[special]bool
	// numbers of entries the program compares a number with, and how many
	// entries the lists this case is about are to have
	limits    map[int]bool
	longer    int
	hasLonger bool
	sat       atomic.Bool // the case needed more rounds of a loop than are kept apart
}

func (j *caseJob) saturated() {
	if j != nil {
		j.sat.Store(true)
	}
}

func (j *caseJob) suffix() string {
	if j == nil || len(j.vals) == 0 && j.longer == 0 {
		return ""
	}
	var ks []string
	if j.longer > 0 {
		ks = append(ks, fmt.Sprintf(" with %d entries", j.longer))
	}
	for k, v := range j.vals {
		if v.same != nil {
			ks = append(ks, fmt.Sprintf(" where %s is the same as %s", k, v.val))
		} else {
			ks = append(ks, fmt.Sprintf(" where %s is %q", k, v.val))
		}
	}
	sort.Strings(ks)
	return strings.Join(ks, "")
}

var (
	jobsMu sync.Mutex
	jobs   = map[string]*caseJob{}
	// how often each test has been followed
	followed  = map[special]int{}
	followMax = 3
	// the special texts of the current check, of which it has cases of its own
	isSpecial func(label, val string) bool
	isSame    func(a, b string) bool
	nFollowed atomic.Int64
)

// special says which texts the check has cases of their own for.
func (R *Report) special(f func(label, val string) bool) { isSpecial = f }

// same says which pairs of texts the check has cases of their own for.
func (R *Report) same(f func(a, b string) bool) { isSame = f }

var caseName = regexp.MustCompile(`^([a-z]\d?|x-.*)$`)

// caseNames are the names the cases of a check are about: which of them are
// the same is part of the case.
func caseNames(a, b string) bool { return caseName.MatchString(a) && caseName.MatchString(b) }

// startSpecial begins a check.
func (R *Report) startSpecial() {
	isSpecial, isSame, followMax = nil, nil, 3
	if R.thorough() {
		followMax = 12
	}
	followed = map[special]int{}
	nFollowed.Store(0)
}

var mapKeyLabel = regexp.MustCompile(`\.key\d+$`)

func goid() string {
	var b [64]byte
	s := b[:runtime.Stack(b[:], false)]
	s = bytes.TrimPrefix(s, []byte("goroutine "))
	if i := bytes.IndexByte(s, ' '); i >= 0 {
		s = s[:i]
	}
	return string(s)
}

func currentJob() *caseJob {
	jobsMu.Lock()
	defer jobsMu.Unlock()
	return jobs[goid()]
}

func withJob(j *caseJob, f func()) {
	id := goid()
	jobsMu.Lock()
	jobs[id] = j
	jobsMu.Unlock()
	defer func() {
		jobsMu.Lock()
		delete(jobs, id)
		jobsMu.Unlock()
	}()
	f()
}

// runCase analyses a case, and again for every text it singles out.
func runCase(f func()) {
	j := &caseJob{asks: map[special]bool{}, limits: map[int]bool{}}
	withJob(j, f)
	followAsks(j, nil, f)
	var ks []int
	for k := range j.limits {
		if k > 0 && j.hasLonger && k <= limitCap {
			ks = append(ks, k)
		}
	}
	sort.Ints(ks)
	// of the large numbers the largest stands for all
	for len(ks) > 1 && ks[len(ks)-2] > 32 {
		ks = append(ks[:len(ks)-2], ks[len(ks)-1])
	}
	for _, k := range ks {
		if !stopJobs.Load() {
			withJob(&caseJob{longer: k + 2}, f)
		}
	}
}

// limitCap bounds the lists a check follows.
var limitCap = maxLimit

// longer is the number of entries of a list in the cases that are about its
// length: n, or enough to go over a limit the program has.
func longer(n int) int {
	j := currentJob()
	if j == nil {
		return n
	}
	j.hasLonger = true
	return max(n, j.longer)
}

// askLimit records that a number is compared with a constant.
func (in *Interp) askLimit(fn *ssa.Function, vs ...ssa.Value) {
	j := in.job
	if j == nil || j.limits == nil || in.initing || !in.P.inRepo(fnPkg(fn)) {
		return
	}
	for _, v := range vs {
		if c, ok := v.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int && types.Identical(c.Type(), types.Typ[types.Int]) {
			if k := c.Int64(); k > 2 && k <= maxLimit {
				j.mu.Lock()
				j.limits[int(k)] = true
				j.mu.Unlock()
			}
		}
	}
}

const maxLimit = 128

func followAsks(j *caseJob, seen map[special]bool, f func()) {
	var as []special
	for a := range j.asks {
		if !seen[a] {
			as = append(as, a)
		}
	}
	sort.Slice(as, func(a, b int) bool {
		return as[a].label < as[b].label || as[a].label == as[b].label && as[a].val < as[b].val
	})
	all := map[special]bool{}
	for a := range seen {
		all[a] = true
	}
	for a := range j.asks {
		all[a] = true
	}
	for _, a := range as {
		g := special{label: generalise(a.label), val: generalise(a.val), same: a.same}
		jobsMu.Lock()
		n := followed[g]
		if n < followMax {
			followed[g] = n + 1
		}
		jobsMu.Unlock()
		if n >= followMax || stopJobs.Load() {
			continue
		}
		if n == 0 && os.Getenv("ASKS") != "" {
			println("ASK", a.same != nil, g.label, g.val)
		}
		nFollowed.Add(1)
		n2 := &caseJob{vals: map[string]special{a.label: a}}
		for k, v := range j.vals {
			n2.vals[k] = v
		}
		if a.same != nil && len(n2.vals) < 8 {
			n2.asks = map[special]bool{} // more of the two elements may be the same
		}
		withJob(n2, f)
		followAsks(n2, all, f)
	}
}

// askSame records that two texts are compared with each other.
func (in *Interp) askSame(a, b *Term) {
	if in.job == nil || in.job.asks == nil || in.initing || a.K != KLabel || b.K != KLabel || a.Op == b.Op {
		return
	}
	if a.Op > b.Op {
		a, b = b, a
	}
	// the keys of a map are different, identifiers are unique
	if mapKeyLabel.MatchString(a.Op) && mapKeyLabel.MatchString(b.Op) || strings.HasSuffix(a.Op, "SPDXIdentifier") || strings.HasSuffix(b.Op, "SPDXIdentifier") {
		return
	}
	if isSame != nil && isSame(a.Op, b.Op) {
		return
	}
	in.job.mu.Lock()
	in.job.asks[special{b.Op, a.Op, a.T}] = true
	in.job.mu.Unlock()
}

// ask records a test of a generic text against a constant.
func (in *Interp) ask(t *Term, kind byte, k string) {
	if in.job == nil || in.job.asks == nil || len(in.job.vals) > 0 || t.K != KLabel || in.initing || !in.attrOf(t).Generic {
		return
	}
	n := 0
	for _, r := range k {
		if unicode.IsLetter(r) || unicode.IsDigit(r) {
			n++
		}
	}
	if n < 2 || strings.Contains(k, "text>") {
		return // the form of a text is the business of its class
	}
	v := k
	switch kind {
	case 'p':
		v = k + "Q"
	case 's':
		v = "Q" + k
	case 'c':
		v = "Q" + k + "Q"
	case 'f':
		v = strings.ToLower(k)
		if v == k {
			v = strings.ToUpper(k)
		}
	}
	at := in.attrOf(t)
	for _, l := range at.Lacks {
		if strings.Contains(v, l) {
			return
		}
	}
	if at.Word && strings.Trim(v, wordChars) != "" || at.Trimmed && strings.TrimSpace(v) != v {
		return
	}
	// identifiers have their prefix taken off, the document has its own
	if strings.Contains(v, "Ref-") || v == "DOCUMENT" || isSpecial != nil && isSpecial(t.Op, v) {
		return
	}
	in.job.mu.Lock()
	in.job.asks[special{label: t.Op, val: v}] = true
	in.job.mu.Unlock()
}

// askEq records that the one text a has, b apart from constants, is tested
// against the constant that b is.
func (in *Interp) askEq(a, b []*Term) {
	if len(a) == 1 && len(b) == 1 && b[0].isStr() {
		in.ask(a[0], 'e', b[0].str())
	}
}

// revealed replaces texts of known value.
func (in *Interp) revealed(ps []*Term) []*Term {
	if in.job == nil || len(in.job.vals) == 0 {
		return ps
	}
	out := append([]*Term(nil), ps...)
	for i, p := range out {
		if p.K == KLabel {
			if v, ok := in.job.vals[p.Op]; ok {
				out[i] = in.sameAs(v)
			}
		}
	}
	return out
}

// sameAs is the known value of a text.
func (in *Interp) sameAs(v special) *Term {
	if v.same == nil {
		return in.ts.Str(v.val)
	}
	if w, ok := in.job.vals[v.val]; ok {
		return in.sameAs(w)
	}
	return in.ts.intern(&Term{K: KLabel, Op: v.val, T: v.same})
}

func (in *Interp) revealedT(t *Term) *Term {
	if in.job == nil || len(in.job.vals) == 0 {
		return t
	}
	return in.ts.Cat(in.revealed(pieces(t))...)
}
