package main

import (
	"fmt"
	"go/types"
	"path"
	"strings"
)

// A model of the file system and of hashing: what os, path/filepath, crypto/*
// and encoding/hex do on a directory tree the scenario lays down.

type fsEntry struct {
	rel  *Term // below the root, "/"-separated
	mode int64
	err  bool // Walk cannot read the entry
}

type fsModel struct {
	root    *Term // the directory as the caller names it
	abs     *Term // and as an absolute path
	entries []fsEntry
	lines   map[string][]*Term // of files that are scanned
	fail    map[string]bool    // operations that fail
}

const (
	modeDir  = int64(1)<<31 | 0o755
	modeLink = int64(1)<<27 | 0o777
	modePipe = int64(1)<<25 | 0o644
	modeSock = int64(1)<<24 | 0o644
	modeDev  = int64(1)<<26 | 0o644
	modeChar = int64(1)<<26 | int64(1)<<21 | 0o644
	modeOdd  = int64(1)<<19 | 0o644
	modeReg  = int64(0o644)
	modeSuid = int64(1)<<23 | 0o755 // a regular file all the same
	modeNone = int64(0)
	modeExec = int64(0o755)
	modeType = int64(1)<<31 | 1<<27 | 1<<25 | 1<<24 | 1<<26 | 1<<21 | 1<<19
)

func (in *Interp) fileContent(p *Term) *Term {
	p = in.normPath(p)
	if ls, ok := in.fs.lines[termText(p)]; ok {
		var ps []*Term
		for _, l := range ls {
			ps = append(ps, l, in.ts.Str("\n"))
		}
		return in.ts.Cat(ps...)
	}
	return in.op("content", strT, p)
}

// scanLines gives the lines a scanner reads, where they are known.
func (in *Interp) scanLines(st *State, v *Term) []*Term {
	if v.K != KOp || v.Op != "scan" {
		return nil
	}
	return in.linesOf(st, v.Args[1])
}

// linesOf gives the lines of a stream, where they are known.
func (in *Interp) linesOf(st *State, src *Term) []*Term {
	if in.lines != nil {
		return in.lines
	}
	if v, ok := in.fileOf(st, src); ok {
		ls := in.fs.lines[termText(v.Args[0])]
		if ls == nil {
			ls = []*Term{in.fileContent(v.Args[0])} // a file of one unbroken line
		}
		return ls
	}
	if src.K == KIface && src.Args[0].K == KOp && src.Args[0].Op == "nn!reader" {
		if l := in.splitConst(src.Args[0].Args[0], "\n"); l != nil {
			if e := l[len(l)-1]; e.isStr() && e.str() == "" {
				l = l[:len(l)-1]
			}
			return l
		}
	}
	return nil
}

// longestLine: a scanner whose buffer may grow to this size reads any line.
const longestLine = 1 << 30

// isLong: whether a line is longer than any bound.
func (in *Interp) isLong(n int64) bool { return in.longLine > 0 && int(n) == in.longLine-1 }

// addLineReaders models the reading of a stream line by line with a bufio.Reader.
func addLineReaders(m func(string, model)) {
	m("bufio.NewReader bufio.NewReaderSize", func(c *callCtx) []Outcome {
		in := c.in
		T := deref(c.sig.Results().At(0).Type())
		o := in.alloc(c.st, c.instr, "reader", T, in.ts.intern(&Term{K: KOp, Op: "scan", Args: []*Term{in.ts.Int(0), c.args[0]}}))
		return one(c, in.ts.Addr(o.ID))
	})
	m("(*bufio.Reader).ReadString (*bufio.Reader).ReadBytes (*bufio.Reader).ReadLine", func(c *callCtx) []Outcome {
		in := c.in
		p := c.args[0]
		if p.K != KAddr || len(c.args) == 2 && !(c.args[1].isInt() && c.args[1].int() == '\n') {
			return nil
		}
		v := in.content(c.st, p.Obj)
		lines := in.scanLines(c.st, v)
		if v.K != KOp || v.Op != "scan" || !v.Args[0].isInt() || lines == nil {
			return nil
		}
		whole := !strings.HasSuffix(c.name, "ReadLine")
		ret := func(st *State, t *Term, err *Term) Outcome {
			if !strings.HasSuffix(c.name, "ReadString") {
				t = in.mkBytes(t)
			}
			if whole {
				return Outcome{st: st, res: []*Term{t, err}}
			}
			return Outcome{st: st, res: []*Term{t, in.ts.Bool(false), err}}
		}
		var outs []Outcome
		if in.failMode || in.fs.failing(in, c, "Scan") || in.fs.failing(in, c, "Read") {
			bad := c.st
			if in.failMode {
				bad = c.st.clone()
				in.setFailed(bad, c)
			}
			outs = append(outs, ret(bad, in.ts.Str(""), in.mkErr("read", p)))
			if !in.failMode {
				return outs
			}
		}
		eof := in.mkErr("var:io.EOF")
		n := v.Args[0].int()
		if int(n) >= len(lines) {
			return append(outs, ret(c.st, in.ts.Str(""), eof))
		}
		if in.isLong(n) && !whole {
			return nil // in parts
		}
		next := func(st *State) {
			st.heap.set(p.Obj, in.ts.intern(&Term{K: KOp, Op: "scan", Args: []*Term{in.ts.Int(n + 1), v.Args[1]}}))
		}
		if !whole {
			next(c.st)
			return append(outs, ret(c.st, lines[n], in.ts.Nil()))
		}
		if e := lines[n]; int(n) == len(lines)-1 && !(e.isStr() && e.str() == "") {
			// the last line may lack its end
			open := c.st.clone()
			next(open)
			outs = append(outs, ret(open, lines[n], eof))
		}
		next(c.st)
		return append(outs, ret(c.st, in.ts.Cat(lines[n], in.ts.Str("\n")), in.ts.Nil()))
	})
}

// splitConst splits a text of constants and inputs without the separator.
func (in *Interp) splitConst(t *Term, sep string) []*Term {
	out := []*Term{in.ts.Str("")}
	for _, p := range pieces(t) {
		if !p.isStr() {
			if !in.attrOf(p).lacks(sep) {
				return nil
			}
			out[len(out)-1] = in.ts.Cat(out[len(out)-1], p)
			continue
		}
		for i, s := range strings.Split(p.str(), sep) {
			if i > 0 {
				out = append(out, in.ts.Str(""))
			}
			out[len(out)-1] = in.ts.Cat(out[len(out)-1], in.ts.Str(s))
		}
	}
	return out
}

func (in *Interp) hexSum(alg string, text *Term) *Term {
	return in.op("hex", strT, in.op("sum:"+alg, strT, text))
}

// normPath writes a path without what filepath.Clean drops.
func (in *Interp) normPath(p *Term) *Term {
	ps := append([]*Term(nil), pieces(p)...)
	for i, x := range ps {
		if !x.isStr() {
			continue
		}
		s := x.str()
		if strings.HasPrefix(s, "/") || i > 0 {
			s = strings.ReplaceAll(s, "/./", "/")
			for strings.Contains(s, "//") {
				s = strings.ReplaceAll(s, "//", "/")
			}
		}
		if i == 0 {
			for strings.HasPrefix(s, "./") && len(s) > 2 || s == "./" && len(ps) > 1 {
				s = strings.TrimPrefix(s, "./")
			}
		}
		ps[i] = in.ts.Str(s)
	}
	return in.ts.Cat(ps...)
}

// joinPath is filepath.Join of two parts.
func (in *Interp) joinPath(a, b *Term) *Term {
	if a.isStr() && b.isStr() {
		return in.ts.Str(path.Join(a.str(), b.str()))
	}
	if a.isStr() && a.str() == "" {
		return in.normPath(b)
	}
	if b.isStr() && (b.str() == "" || b.str() == "." || b.str() == "/") {
		return in.normPath(a)
	}
	return in.normPath(in.ts.Cat(a, in.ts.Str("/"), in.normPath(b)))
}

func (fs *fsModel) failing(in *Interp, c *callCtx, op string) bool {
	if fs == nil || !fs.fail[op] {
		return false
	}
	in.event(c.st, Event{Kind: "fs-fail", Aux: op, Pos: c.pos})
	return true
}

func (in *Interp) modeOf(t *Term) (*fsEntry, bool) {
	if t.K == KOp && t.Op == "nn!fi" && in.fs != nil && t.Args[0].isInt() {
		i := int(t.Args[0].int())
		if i < 0 {
			return &fsEntry{rel: in.ts.Str(""), mode: modeDir}, true
		}
		return &in.fs.entries[i], true
	}
	return nil, false
}

func isHasher(t *Term) bool { return t.K == KOp && t.Op == "nn!hash" }

// hashWrite feeds text to a hash, a multi-writer of them or neither.
func (in *Interp) hashWrite(st *State, w, text *Term) bool {
	switch {
	case isHasher(w):
		o := w.Args[0].Obj
		st.heap.set(o, in.bufAppend(in.content(st, o), text))
		return true
	case w.K == KOp && w.Op == "nn!multiw":
		for _, a := range w.Args {
			if !in.hashWrite(st, a, text) {
				return false
			}
		}
		return true
	case w.K == KIface && strings.HasSuffix(types.TypeString(w.T, nil), "bytes.Buffer"):
		in.bufWrite(st, w.Args[0], text, 0)
		return true
	}
	return false
}

func (in *Interp) fileOf(st *State, r *Term) (*Term, bool) {
	if r.K == KIface {
		r = r.Args[0]
	}
	if r.K != KAddr || len(r.Path) > 0 {
		return nil, false
	}
	v := in.content(st, r.Obj)
	if v != nil && v.K == KOp && v.Op == "file" {
		return v, true
	}
	return nil, false
}

var hashAlgs = map[string]string{"crypto/sha1.New": "sha1", "crypto/sha256.New": "sha256", "crypto/md5.New": "md5", "crypto/sha512.New": "sha512", "crypto/sha256.New224": "sha224", "crypto/sha512.New384": "sha384"}

func init() {
	m := func(names string, f model) {
		for _, n := range strings.Fields(names) {
			if models[n] != nil {
				prev := models[n]
				g := f
				models[n] = func(c *callCtx) []Outcome {
					if o := g(c); o != nil {
						return o
					}
					return prev(c)
				}
				continue
			}
			models[n] = f
		}
	}
	nilErr := func(c *callCtx, t *Term) []Outcome { return one(c, t, c.in.ts.Nil()) }
	m("path/filepath.ToSlash path/filepath.FromSlash", func(c *callCtx) []Outcome { return one(c, c.args[0]) })
	m("path/filepath.Abs", func(c *callCtx) []Outcome {
		fs := c.in.fs
		if fs == nil {
			return nil
		}
		if fs.failing(c.in, c, "Abs") {
			return one(c, c.in.ts.Str(""), c.in.mkErr("abs"))
		}
		if c.args[0] == fs.root || c.args[0] == fs.abs {
			return nilErr(c, fs.abs)
		}
		return nil
	})
	m("path/filepath.Join path.Join", func(c *callCtx) []Outcome {
		in := c.in
		es, ok := in.elems(c.st, c.args[0])
		if !ok {
			return nil
		}
		var r *Term
		for _, e := range es {
			for _, x := range pieces(e) {
				if x.K == KTop || x.K == KChoice {
					return one(c, in.ts.Top(strT, es...))
				}
			}
			if r == nil {
				r = e
				continue
			}
			r = in.joinPath(r, e)
		}
		if r == nil {
			r = in.ts.Str("")
		}
		return one(c, in.normPath(r))
	})
	m("path/filepath.Clean path.Clean", func(c *callCtx) []Outcome {
		if c.args[0].isStr() {
			return one(c, c.in.ts.Str(path.Clean(c.args[0].str())))
		}
		return one(c, c.in.normPath(c.args[0]))
	})
	m("path.Split path/filepath.Split", func(c *callCtx) []Outcome {
		in := c.in
		ps := pieces(c.args[0])
		for i := len(ps) - 1; i >= 0; i-- {
			p := ps[i]
			if p.isStr() {
				if j := strings.LastIndex(p.str(), "/"); j >= 0 {
					dir := append(append([]*Term(nil), ps[:i]...), in.ts.Str(p.str()[:j+1]))
					file := append([]*Term{in.ts.Str(p.str()[j+1:])}, ps[i+1:]...)
					return one(c, in.ts.Cat(dir...), in.ts.Cat(file...))
				}
				continue
			}
			if !in.attrOf(p).lacks("/") {
				return nil
			}
		}
		return one(c, in.ts.Str(""), c.args[0])
	})
	m("path.Base path/filepath.Base path.Dir path/filepath.Dir", func(c *callCtx) []Outcome {
		if c.args[0].isStr() {
			if strings.HasSuffix(c.name, "Base") {
				return one(c, c.in.ts.Str(path.Base(c.args[0].str())))
			}
			return one(c, c.in.ts.Str(path.Dir(c.args[0].str())))
		}
		sub := *c
		o := models["path.Split"](&sub)
		if o == nil {
			return nil
		}
		d, f := o[0].res[0], o[0].res[1]
		if strings.HasSuffix(c.name, "Base") {
			if f.isStr() && f.str() == "" {
				return nil
			}
			return one(c, f)
		}
		ps := append([]*Term(nil), pieces(d)...)
		if n := len(ps) - 1; n >= 0 && ps[n].isStr() {
			if s := strings.TrimSuffix(ps[n].str(), "/"); s != "" || n > 0 {
				ps[n] = c.in.ts.Str(s)
				return one(c, c.in.ts.Cat(ps...))
			}
			return one(c, d)
		}
		return nil
	})
	m("path/filepath.Rel", func(c *callCtx) []Outcome {
		in := c.in
		if rest, ok := cutTermPrefix(in, c.args[1], c.args[0]); ok {
			return nilErr(c, in.normPath(in.ts.Cat(in.ts.Str("./"), rest)))
		}
		return nil
	})
	m("path/filepath.Walk path/filepath.WalkDir", func(c *callCtx) []Outcome {
		in := c.in
		fs := in.fs
		if fs == nil {
			return nil
		}
		if c.args[0] != fs.abs && c.args[0] != fs.root {
			in.unsupported("walk of another directory: "+c.args[0].String(), c.pos)
		}
		sigT := c.sig.Params().At(1).Type().Underlying().(*types.Signature)
		type ws struct {
			st   *State
			skip string // below this directory nothing is visited
		}
		cur := []ws{{st: c.st}}
		var done []Outcome
		visit := func(i int, p *Term, failed bool, rel string, dir bool) {
			var next []ws
			for _, w := range cur {
				if w.skip != "" && strings.HasPrefix(rel+"/", w.skip) {
					next = append(next, w)
					continue
				}
				w.skip = ""
				fi := in.ts.intern(&Term{K: KOp, Op: "nn!fi", Args: []*Term{in.ts.Int(int64(i))}})
				err := in.ts.Nil()
				if failed {
					err = in.mkErr("walk", in.ts.Int(int64(i)))
					fi = in.ts.Nil()
				}
				for _, o := range in.callTerm(c.fr, w.st, c.instr, c.args[1], []*Term{p, fi, err}, sigT) {
					r := o.res[0]
					skipDir := false
					if r.K == KOp || r.K == KLabel {
						for _, a := range []string{"SkipDir", "SkipAll"} {
							if strings.Contains(r.String(), a) {
								skipDir = true
								if a == "SkipAll" {
									done = append(done, Outcome{st: o.st, res: []*Term{in.ts.Nil()}})
								}
							}
						}
						if strings.Contains(r.String(), "SkipAll") {
							continue
						}
					}
					if skipDir {
						s := rel + "/"
						if !dir {
							s = strings.TrimSuffix(rel, "/"+path.Base(rel)) + "/"
							if !strings.Contains(rel, "/") {
								s = "/"
							}
						}
						next = append(next, ws{st: o.st, skip: s})
						continue
					}
					switch errClass(in, o.st, r) {
					case 'n':
						next = append(next, ws{st: o.st})
					case 'e':
						done = append(done, Outcome{st: o.st, res: []*Term{r}})
					default:
						done = append(done, Outcome{st: o.st.clone(), res: []*Term{r}})
						next = append(next, ws{st: o.st})
					}
				}
			}
			cur = next
		}
		if fs.failing(in, c, "Walk") {
			visit(-1, c.args[0], true, "", true)
		} else {
			visit(-1, c.args[0], false, "", true)
			for i, e := range fs.entries {
				root := c.args[0]
				if root.isStr() && root.str() == "/" {
					root = in.ts.Str("")
				}
				visit(i, in.ts.Cat(root, in.ts.Str("/"), e.rel), e.err, "/"+termText(e.rel), e.mode == modeDir)
			}
		}
		for _, w := range cur {
			done = append(done, Outcome{st: w.st, res: []*Term{in.ts.Nil()}})
		}
		return in.mergeOutcomes(done)
	})
	fiM := func(f func(c *callCtx, e *fsEntry) *Term) model {
		return func(c *callCtx) []Outcome {
			if e, ok := c.in.modeOf(c.args[0]); ok {
				return one(c, f(c, e))
			}
			return nil
		}
	}
	m("(io/fs.FileInfo).IsDir (io/fs.DirEntry).IsDir", fiM(func(c *callCtx, e *fsEntry) *Term { return c.in.ts.Bool(e.mode == modeDir) }))
	m("(io/fs.FileInfo).Mode", fiM(func(c *callCtx, e *fsEntry) *Term { return c.in.ts.Int(e.mode) }))
	m("(io/fs.DirEntry).Type", fiM(func(c *callCtx, e *fsEntry) *Term { return c.in.ts.Int(e.mode & modeType) }))
	m("(io/fs.FileInfo).Size", fiM(func(c *callCtx, e *fsEntry) *Term { return c.in.op("size", intT64, c.args[0]) }))
	m("(io/fs.FileInfo).Name (io/fs.DirEntry).Name", fiM(func(c *callCtx, e *fsEntry) *Term {
		ps := pieces(e.rel)
		return ps[len(ps)-1]
	}))
	m("(io/fs.DirEntry).Info", func(c *callCtx) []Outcome { return nilErr(c, c.args[0]) })
	modeM := func(f func(v int64) bool) model {
		return func(c *callCtx) []Outcome {
			if c.args[0].isInt() {
				return one(c, c.in.ts.Bool(f(c.args[0].int())))
			}
			return nil
		}
	}
	m("(io/fs.FileMode).IsDir", modeM(func(v int64) bool { return v&(1<<31) != 0 }))
	m("(io/fs.FileMode).IsRegular", modeM(func(v int64) bool { return v&modeType == 0 }))
	m("(io/fs.FileMode).Type", func(c *callCtx) []Outcome {
		if c.args[0].isInt() {
			return one(c, c.in.ts.Int(c.args[0].int()&modeType))
		}
		return nil
	})
	m("os.Open os.OpenFile", func(c *callCtx) []Outcome {
		in := c.in
		if in.fs == nil {
			return nil
		}
		if c.name == "os.OpenFile" && !(c.args[1].isInt() && c.args[1].int() == 0) {
			in.event(c.st, Event{Kind: "file-write", Aux: c.name, Pos: c.pos})
		}
		if in.fs.failing(in, c, "Open") {
			return one(c, in.ts.Nil(), in.mkErr("open", c.args[0]))
		}
		o := in.alloc(c.st, c.instr, "file", deref(c.sig.Results().At(0).Type()), in.op("file", nil, in.normPath(c.args[0]), in.ts.Str("open")))
		in.event(c.st, Event{Kind: "open", Obj: o.ID, Pos: c.pos})
		return nilErr(c, in.ts.Addr(o.ID))
	})
	m("(*os.File).Close", func(c *callCtx) []Outcome {
		in := c.in
		if v, ok := in.fileOf(c.st, c.args[0]); ok {
			c.st.heap.set(c.args[0].Obj, in.op("file", nil, v.Args[0], in.ts.Str("closed")))
			return one(c, in.ts.Nil())
		}
		return nil
	})
	m("os.ReadFile io/ioutil.ReadFile", func(c *callCtx) []Outcome {
		in := c.in
		if in.fs == nil {
			return nil
		}
		for _, op := range []string{"Open", "Read"} {
			if in.fs.failing(in, c, op) {
				return one(c, in.ts.Nil(), in.mkErr("open", c.args[0]))
			}
		}
		return nilErr(c, in.mkBytes(in.fileContent(c.args[0])))
	})
	m("io.ReadAll io/ioutil.ReadAll", func(c *callCtx) []Outcome {
		in := c.in
		v, ok := in.fileOf(c.st, c.args[0])
		if !ok {
			return nil
		}
		if in.fs.failing(in, c, "Read") {
			return one(c, in.mkBytes(in.ts.Top(strT)), in.mkErr("read", v))
		}
		return nilErr(c, in.mkBytes(in.fileContent(v.Args[0])))
	})
	m("io.Copy io.CopyBuffer", func(c *callCtx) []Outcome {
		in := c.in
		v, ok := in.fileOf(c.st, c.args[1])
		if !ok {
			return nil
		}
		n := in.ts.Top(intT64)
		if v.Args[1].str() == "closed" || in.fs.failing(in, c, "Read") {
			in.hashWrite(c.st, c.args[0], in.ts.Top(strT))
			return one(c, n, in.mkErr("read", v))
		}
		if !in.hashWrite(c.st, c.args[0], in.fileContent(v.Args[0])) {
			return nil
		}
		return one(c, n, in.ts.Nil())
	})
	for name, alg := range hashAlgs {
		m(name, func(c *callCtx) []Outcome {
			in := c.in
			o := in.alloc(c.st, c.instr, "hash", types.NewStruct(nil, nil), in.ts.intern(&Term{K: KOp, Op: "buf", Args: []*Term{in.ts.Str("")}}))
			return one(c, in.ts.intern(&Term{K: KOp, Op: "nn!hash", Args: []*Term{in.ts.Addr(o.ID), in.ts.Str(alg)}}))
		})
	}
	for name, alg := range map[string]string{"crypto/sha1.Sum": "sha1", "crypto/sha256.Sum256": "sha256", "crypto/md5.Sum": "md5", "crypto/sha512.Sum512": "sha512"} {
		m(name, func(c *callCtx) []Outcome {
			in := c.in
			base := in.op("sum:"+alg, strT, in.bytesText(c.st, c.args[0]))
			at := c.sig.Results().At(0).Type().Underlying().(*types.Array)
			es := make([]*Term, at.Len())
			for i := range es {
				es[i] = in.op("byteat", types.Typ[types.Byte], base, in.ts.Int(int64(i)), in.ts.Int(at.Len()))
			}
			return one(c, in.ts.Struct(c.sig.Results().At(0).Type(), es))
		})
	}
	m("io.MultiWriter", func(c *callCtx) []Outcome {
		es, ok := c.in.elems(c.st, c.args[0])
		if !ok {
			return nil
		}
		return one(c, c.in.ts.intern(&Term{K: KOp, Op: "nn!multiw", Args: append([]*Term(nil), es...)}))
	})
	wr := func(str bool) model {
		return func(c *callCtx) []Outcome {
			in := c.in
			text := c.args[1]
			if !str {
				text = in.bytesText(c.st, text)
			}
			if !isHasher(c.args[0]) && !(c.args[0].K == KOp && c.args[0].Op == "nn!multiw") || !in.hashWrite(c.st, c.args[0], text) {
				return nil
			}
			return one(c, in.ts.Top(intT), in.ts.Nil())
		}
	}
	m("(io.Writer).Write (hash.Hash).Write", wr(false))
	m("io.WriteString (io.StringWriter).WriteString", wr(true))
	m("fmt.Fprint fmt.Fprintf", func(c *callCtx) []Outcome {
		in := c.in
		if !isHasher(c.args[0]) {
			return nil
		}
		var text *Term
		if c.name == "fmt.Fprint" {
			text = in.sprint(c, c.args[1], false)
		} else {
			text = in.sprintf(c, c.args[1], c.args[2])
		}
		in.hashWrite(c.st, c.args[0], text)
		return one(c, in.ts.Top(intT), in.ts.Nil())
	})
	m("(hash.Hash).Sum", func(c *callCtx) []Outcome {
		in := c.in
		if !isHasher(c.args[0]) {
			return nil
		}
		sum := in.op("sum:"+c.args[0].Args[1].str(), strT, in.bufVal(in.content(c.st, c.args[0].Args[0].Obj)))
		return one(c, in.mkBytes(in.ts.Cat(in.bytesText(c.st, c.args[1]), sum)))
	})
	m("(hash.Hash).Reset", func(c *callCtx) []Outcome {
		in := c.in
		if !isHasher(c.args[0]) {
			return nil
		}
		c.st.heap.set(c.args[0].Args[0].Obj, in.ts.intern(&Term{K: KOp, Op: "buf", Args: []*Term{in.ts.Str("")}}))
		return one(c)
	})
	m("encoding/hex.EncodeToString", func(c *callCtx) []Outcome {
		return one(c, c.in.op("hex", strT, c.in.bytesText(c.st, c.args[0])))
	})
}

// cutTermPrefix removes a prefix of a text piece by piece.
func cutTermPrefix(in *Interp, x, pre *Term) (*Term, bool) {
	xs, ps := append([]*Term(nil), pieces(x)...), pieces(pre)
	for _, p := range ps {
		if len(xs) == 0 {
			return nil, false
		}
		if p == xs[0] {
			xs = xs[1:]
			continue
		}
		if p.isStr() && xs[0].isStr() && strings.HasPrefix(xs[0].str(), p.str()) {
			xs[0] = in.ts.Str(xs[0].str()[len(p.str()):])
			continue
		}
		return nil, false
	}
	return in.ts.Cat(xs...), true
}

// hexArg: %x of bytes.
func (in *Interp) hexArg(c *callCtx, x *Term, T types.Type) *Term {
	switch {
	case x.K == KStruct:
		if b := byteRun(x.Args); b != nil {
			return in.op("hex", strT, b)
		}
	case isByteSlice(T):
		return in.op("hex", strT, in.bytesText(c.st, x))
	}
	return nil
}

// byteRun: the bytes of a digest, in order and complete.
func byteRun(es []*Term) *Term {
	if len(es) == 0 || es[0].K != KOp || es[0].Op != "byteat" {
		return nil
	}
	base := es[0].Args[0]
	for i, e := range es {
		if e.K != KOp || e.Op != "byteat" || e.Args[0] != base || e.Args[1].int() != int64(i) {
			return nil
		}
	}
	if es[0].Args[2].int() != int64(len(es)) {
		return nil
	}
	return base
}

var _ = fmt.Sprint
