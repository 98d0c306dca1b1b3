package main

import (
	"fmt"
	"go/types"
	"strings"
)

// shapeCfg says how an abstract input value is populated.
type shapeCfg struct {
	n      func(path string) int  // elements of the slice or map at path
	ptr    func(path string) byte // 'p' present, 'n' nil, '?' either
	slice  func(path string) byte // same, for slices and maps
	leaf   func(path string, t types.Type) *Term
	shared bool
}

// build makes an abstract value of type t whose leaves are labels named by
// their access path.
func (in *Interp) build(t types.Type, path string, cfg *shapeCfg) *Term {
	return in.buildD(t, path, cfg, map[string]int{})
}

func (in *Interp) buildD(t types.Type, path string, cfg *shapeCfg, rec map[string]int) *Term {
	ts := in.ts
	if cfg.leaf != nil {
		if r := cfg.leaf(path, t); r != nil {
			return r
		}
	}
	if n, ok := types.Unalias(t).(*types.Named); ok {
		k := n.String()
		if rec[k] >= 2 {
			return in.zero(t)
		}
		rec[k]++
		defer func() { rec[k]-- }()
	}
	mode := func(f func(string) byte) byte {
		if f == nil {
			return 'p'
		}
		return f(path)
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		m := mode(cfg.ptr)
		if m == 'n' {
			return ts.Nil()
		}
		o := in.inputObj("in|"+path, path, u.Elem(), nil)
		o.Init = in.buildD(u.Elem(), path, cfg, rec)
		a := ts.Addr(o.ID)
		if m == '?' {
			return ts.Choice(ts.Nil(), a)
		}
		return a
	case *types.Slice:
		if isByteSlice(t) {
			return in.mkBytes(in.Label(path, strT))
		}
		m := mode(cfg.slice)
		if m == 'n' {
			return ts.Nil()
		}
		n := 2
		if cfg.n != nil {
			n = cfg.n(path)
		}
		var es []*Term
		for i := 0; i < n; i++ {
			es = append(es, in.buildD(u.Elem(), fmt.Sprintf("%s[%d]", path, i), cfg, rec))
		}
		at := types.NewArray(u.Elem(), int64(n))
		o := in.inputObj(fmt.Sprintf("in|%s|arr%d", path, n), path+"[...]", at, nil)
		o.Init = ts.Struct(at, es)
		s := ts.Slice(o.ID, 0, n, t)
		if m == '?' {
			return ts.Choice(ts.Nil(), s)
		}
		return s
	case *types.Map:
		m := mode(cfg.slice)
		if m == 'n' {
			return ts.Nil()
		}
		n := 2
		if cfg.n != nil {
			n = cfg.n(path)
		}
		var kv []*Term
		for i := 0; i < n; i++ {
			kv = append(kv, in.buildD(u.Key(), fmt.Sprintf("%s.key%d", path, i), cfg, rec), in.buildD(u.Elem(), fmt.Sprintf("%s[%d]", path, i), cfg, rec))
		}
		o := in.inputObj("in|"+path+"|map", path+"{}", t, nil)
		o.Init = ts.intern(&Term{K: KMapVal, Args: kv, T: t})
		a := ts.Addr(o.ID)
		if m == '?' {
			return ts.Choice(ts.Nil(), a)
		}
		return a
	case *types.Struct:
		fs := make([]*Term, u.NumFields())
		for i := range fs {
			f := u.Field(i)
			p := path + "." + f.Name()
			if f.Embedded() {
				p = path
				if _, isStruct := deref2(f.Type()).Underlying().(*types.Struct); !isStruct {
					p = path + "." + f.Name()
				}
			}
			fs[i] = in.buildD(f.Type(), p, cfg, rec)
		}
		return ts.Struct(t, fs)
	case *types.Array:
		fs := make([]*Term, u.Len())
		for i := range fs {
			fs[i] = in.buildD(u.Elem(), fmt.Sprintf("%s[%d]", path, i), cfg, rec)
		}
		return ts.Struct(t, fs)
	}
	return in.Label(path, t)
}

func deref2(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// generalise replaces list indices by [] so that paths name fields.
func generalise(path string) string {
	var b strings.Builder
	for i := 0; i < len(path); i++ {
		if path[i] == '[' {
			b.WriteString("[]")
			for i < len(path) && path[i] != ']' {
				i++
			}
			continue
		}
		b.WriteByte(path[i])
	}
	return b.String()
}
