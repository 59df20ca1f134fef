package main

// Contracts of the packedrtree package as seen by package flatgeobuf. That
// the package meets them is the subject of C15, C16, C17, C22 and C24.

import (
	"fmt"
	"go/types"
	"math/big"
)

// A tree is represented by its number of refs, its node size and the stream
// position it was decoded from (-1 for trees made in memory).
const (
	treeRefs = iota
	treeNode
	treePos
)

func isizeAtom(nf, ns *Lin) *Lin {
	return linA(mkAtom("isize", "", big.NewInt(80), new(big.Int).Sub(pow2(62), big1), nf, ns))
}

func (e *Engine) treeType() types.Type {
	p := e.ld.byPath[prtPath]
	return p.Types.Scope().Lookup("PackedRTree").Type()
}

func (e *Engine) newTree(st *State, nf, ns, pos *Lin, site string) PtrV {
	id := st.alloc(e.treeType(), StructV{[]Val{IntV{nf, true}, IntV{ns, true}, IntV{pos, true}}}, "tree", site)
	return PtrV{Obj: id}
}

// userTree is an arbitrary tree made by the caller.
func (e *Engine) userTree(st *State, name string) PtrV {
	nf := mkAtom("in", "numrefs:"+name, big1, new(big.Int).Sub(pow2(56), big1))
	ns := mkAtom("in", "nodesize:"+name, big.NewInt(2), big.NewInt(65535))
	return e.newTree(st, linA(nf), linA(ns), linC(-1), "argument")
}

func (e *Engine) treeField(st *State, v Val, i int) *Lin {
	p, ok := v.(PtrV)
	if !ok {
		panic(undecided("tree is not determined"))
	}
	s, ok := st.obj(p.Obj).val.(StructV)
	if !ok || len(s.F) != 3 {
		panic(undecided("tree is not determined"))
	}
	return s.F[i].(IntV).L
}

// withTree calls f in the states in which the receiver is not nil.
func (e *Engine) withTree(c *callCtx, f func(c *callCtx, p PtrV) []Out) []Out {
	switch p := c.args[0].(type) {
	case NilV:
		return []Out{e.nilPanic(c.st, c.site, c.site.Parent())}
	case PtrV:
		if p.NilA != nil {
			var r []Out
			t, n := e.split(c.st, Form{k: 'a', a: p.NilA})
			if t != nil {
				r = append(r, e.nilPanic(t, c.site, c.site.Parent()))
			}
			if n != nil {
				c2 := *c
				c2.st = n
				p.NilA = nil
				r = append(r, f(&c2, p)...)
			}
			return r
		}
		return f(c, p)
	}
	panic(undecided(fmt.Sprintf("tree method on %T", c.args[0])))
}

// sizeContract: panics on bad parameters, an error on overflow.
func (e *Engine) sizeContract(c *callCtx, nf, ns *Lin, ok func(st *State) []Out, bad func(st *State, er ErrV) []Out) []Out {
	var r []Out
	st := c.st
	site := e.pos(c.site)
	for _, f := range []Form{leForm(linC(1).sub(nf)), leForm(linC(2).sub(ns))} {
		t, n := e.split(st, f)
		if n != nil {
			r = append(r, Out{st: n, pan: &PanicInfo{kind: "explicit", site: site, fn: c.site.Parent().String(), msg: "packedrtree is given fewer than one ref or a node size below two"}})
		}
		if t == nil {
			return r
		}
		st = t
	}
	t, n := e.split(st, Form{k: 'a', a: mkAtom("in", "sizeok", nil, nil, nf, ns)})
	if n != nil {
		x := newErr("errorf", "index size overflow", site)
		x.exact, x.notEOF = true, true
		r = append(r, bad(n, ErrV{x})...)
	}
	if t != nil {
		r = append(r, ok(t)...)
	}
	return r
}

func (e *Engine) results(st *State, T types.Type, nf *Lin, site string) Val {
	symN++
	name := fmt.Sprintf("results#%d", symN)
	elem := T.Underlying().(*types.Slice).Elem()
	n := linA(lenAtom(name, nil))
	id := st.alloc(unboundedArr(elem), &Arr{Elem: elem, N: n, Ver: name, VArgs: []*Lin{nf}}, "results", site)
	st.assume(leForm(n.sub(nf)))
	return SliceV{Obj: id, Off: linZero, Len: n, Cap: n}
}

// installTree replaces the packedrtree package by its contract.
func installTree(e *Engine) {
	m := e.models
	ptr := "(*" + prtPath + ".PackedRTree)."
	intOf := func(v Val) *Lin { return v.(IntV).L }
	site := func(c *callCtx) string { return e.pos(c.site) }
	m[prtPath+".Size"] = func(e *Engine, c *callCtx) []Out {
		nf, ns := intOf(c.args[0]), intOf(c.args[1])
		return e.sizeContract(c, nf, ns, func(st *State) []Out {
			return []Out{{st: st, rets: []Val{IntV{isizeAtom(nf, ns), true}, NilV{}}}}
		}, func(st *State, er ErrV) []Out {
			return []Out{{st: st, rets: []Val{IntV{linZero, true}, er}}}
		})
	}
	m[prtPath+".New"] = func(e *Engine, c *callCtx) []Out {
		refs, _ := c.args[0].(SliceV)
		if refs.Len == nil {
			refs.Len = linZero
		}
		ns := intOf(c.args[1])
		e.emit(c.st, &Event{Kind: "newtree", Buf: &refs, Args: c.args, Site: site(c)})
		return e.sizeContract(c, refs.Len, ns, func(st *State) []Out {
			return []Out{{st: st, rets: []Val{e.newTree(st, refs.Len, ns, linC(-1), site(c)), NilV{}}}}
		}, func(st *State, er ErrV) []Out {
			return []Out{{st: st, rets: []Val{NilV{}, er}}}
		})
	}
	m[prtPath+".HilbertSort"] = func(e *Engine, c *callCtx) []Out {
		refs, _ := c.args[0].(SliceV)
		e.emit(c.st, &Event{Kind: "hilbertsort", Buf: &refs, Args: c.args, Site: site(c)})
		if refs.Obj != 0 {
			a := c.st.loadPath(c.st.obj(refs.Obj).val, refs.Path).(*Arr)
			symN++
			e.storeSlice(c.st, refs, &Arr{Elem: a.Elem, N: a.N, Ver: fmt.Sprintf("hilbert#%d", symN)}, site(c))
			e.emit(c.st, &Event{Kind: "hilbertsorted", Buf: &refs, Args: c.args, Site: site(c)})
		}
		return []Out{{st: c.st}}
	}
	m[prtPath+".Unmarshal"] = func(e *Engine, c *callCtx) []Out {
		if _, ok := c.args[0].(NilV); ok {
			return []Out{{st: c.st, pan: &PanicInfo{kind: "explicit", site: site(c), fn: c.site.Parent().String(), msg: "nil reader"}}}
		}
		s, ok := c.args[0].(StreamV)
		if !ok {
			panic(undecided("Unmarshal from something other than the stream at " + site(c)))
		}
		nf, ns := intOf(c.args[1]), intOf(c.args[2])
		return e.sizeContract(c, nf, ns, func(st *State) []Out {
			pos := e.cursor(st, s.ID)
			n := isizeAtom(nf, ns)
			b := SliceV{Off: linZero, Len: n, Cap: n}
			var r []Out
			for _, o := range e.readFull(st, s, b, site(c)) {
				if errState(o.st, o.rets[1]) == 0 {
					bad := o.st.clone()
					bad.note("%s: the index is corrupt", site(c))
					e.emit(bad, &Event{Kind: "content", Stream: s.ID, Site: site(c), Name: "Unmarshal"})
					x := newErr("errorf", "corrupt index", site(c))
					x.exact, x.notEOF = true, true
					r = append(r, Out{st: bad, rets: []Val{NilV{}, ErrV{x}}})
					r = append(r, Out{st: o.st, rets: []Val{e.newTree(o.st, nf, ns, pos, site(c)), NilV{}}})
					continue
				}
				x := newErr("errorf", "failed to read index bytes", site(c))
				x.exact, x.notEOF = true, true
				x.wraps = []Val{o.rets[1]}
				r = append(r, Out{st: o.st, rets: []Val{NilV{}, ErrV{x}}})
			}
			return r
		}, func(st *State, er ErrV) []Out {
			return []Out{{st: st, rets: []Val{NilV{}, er}}}
		})
	}
	m[prtPath+".Seek"] = func(e *Engine, c *callCtx) []Out {
		s, ok := c.args[0].(StreamV)
		if !ok {
			panic(undecided("Seek in something other than the stream at " + site(c)))
		}
		nf, ns := intOf(c.args[1]), intOf(c.args[2])
		T := c.fn.Signature.Results().At(0).Type()
		var r []Out
		mk := func(what string, cause Val) Val {
			x := newErr("errorf", what, site(c))
			x.exact, x.notEOF = true, true
			if cause != nil {
				x.wraps = []Val{cause}
			}
			return ErrV{x}
		}
		for _, o := range e.streamCall(c.st, s, "Seek", []Val{IntV{linZero, false}, IntV{linC(1), false}}, c.site) {
			if errState(o.st, o.rets[1]) != 0 {
				r = append(r, Out{st: o.st, rets: []Val{NilV{}, mk("failed to cache index start offset", o.rets[1])}})
				continue
			}
			start := e.cursor(o.st, s.ID)
			c2 := *c
			c2.st = o.st
			r = append(r, e.sizeContract(&c2, nf, ns, func(st *State) []Out {
				n := isizeAtom(nf, ns)
				ov, st := e.split(st, leForm(linB(posHi).addC(1).sub(start).sub(n)))
				var r []Out
				if ov != nil {
					r = append(r, Out{st: ov, rets: []Val{NilV{}, mk("index end offset overflows int64", nil)}})
				}
				if st == nil {
					return r
				}
				bad, con := st.clone(), st.clone()
				b := SliceV{Off: linZero, Len: n, Cap: n}
				// anything between the start and the end may have been read
				part := freshAtom("visited", big0, posHi)
				er := ErrV{e.streamErr(site(c), "seek or read error", true)}
				bad.note("%s: the stream fails during the search", site(c))
				e.emit(bad, &Event{Kind: "read", Stream: s.ID, Buf: &b, Want: n, N: linA(part), Outcome: "error", Err: er, Site: site(c), Name: "SeekSearch"})
				r = append(r, Out{st: bad, rets: []Val{NilV{}, mk("failed to read nodes", er)}})
				con.note("%s: the index is corrupt", site(c))
				e.emit(con, &Event{Kind: "read", Stream: s.ID, Buf: &b, Want: n, N: linA(part), Outcome: "some", Site: site(c), Name: "SeekSearch"})
				e.emit(con, &Event{Kind: "content", Stream: s.ID, Site: site(c), Name: "SeekSearch"})
				r = append(r, Out{st: con, rets: []Val{NilV{}, mk("corrupt index", nil)}})
				e.emit(st, &Event{Kind: "read", Stream: s.ID, Buf: &b, Want: n, N: n, Outcome: "ok", Site: site(c), Name: "SeekSearch"})
				res := e.results(st, T, nf, site(c))
				e.emit(st, &Event{Kind: "search", Stream: s.ID, Pos: start, Args: []Val{IntV{start, true}, IntV{nf, true}, IntV{ns, true}, c.args[3], res}, Site: site(c), Name: "Seek"})
				return append(r, Out{st: st, rets: []Val{res, NilV{}}})
			}, func(st *State, er ErrV) []Out {
				return []Out{{st: st, rets: []Val{NilV{}, er}}}
			})...)
		}
		return r
	}
	m[ptr+"NumRefs"] = func(e *Engine, c *callCtx) []Out {
		return e.withTree(c, func(c *callCtx, p PtrV) []Out { return one(c.st, IntV{e.treeField(c.st, p, treeRefs), true}) })
	}
	m[ptr+"NodeSize"] = func(e *Engine, c *callCtx) []Out {
		return e.withTree(c, func(c *callCtx, p PtrV) []Out { return one(c.st, IntV{e.treeField(c.st, p, treeNode), true}) })
	}
	m[ptr+"Search"] = func(e *Engine, c *callCtx) []Out {
		return e.withTree(c, func(c *callCtx, p PtrV) []Out {
			nf, ns, pos := e.treeField(c.st, p, treeRefs), e.treeField(c.st, p, treeNode), e.treeField(c.st, p, treePos)
			res := e.results(c.st, c.fn.Signature.Results().At(0).Type(), nf, site(c))
			e.emit(c.st, &Event{Kind: "search", Pos: pos, Args: []Val{IntV{pos, true}, IntV{nf, true}, IntV{ns, true}, c.args[1], res}, Site: site(c), Name: "Search"})
			return one(c.st, res)
		})
	}
	m[ptr+"Marshal"] = func(e *Engine, c *callCtx) []Out {
		return e.withTree(c, func(c *callCtx, p PtrV) []Out {
			s, ok := c.args[1].(StreamV)
			if !ok {
				panic(undecided("Marshal to something other than the stream at " + site(c)))
			}
			n := isizeAtom(e.treeField(c.st, p, treeRefs), e.treeField(c.st, p, treeNode))
			b := SliceV{Off: linZero, Len: n, Cap: n}
			return e.writeOutcomes(c.st, s, b, n, site(c), "Marshal", []Val{p})
		})
	}
	m[ptr+"String"] = func(e *Engine, c *callCtx) []Out { return one(c.st, freshStr("tree")) }
	m[ptr+"Bounds"] = func(e *Engine, c *callCtx) []Out {
		return e.withTree(c, func(c *callCtx, p PtrV) []Out {
			return one(c.st, freshVal(c.fn.Signature.Results().At(0).Type(), "bounds"))
		})
	}
	// boxes: their coordinates are not followed
	for _, n := range []string{"Expand", "ExpandXY"} {
		n := n
		m["(*"+prtPath+".Box)."+n] = func(e *Engine, c *callCtx) []Out {
			p, ok := c.args[0].(PtrV)
			if !ok {
				return []Out{e.nilPanic(c.st, c.site, c.site.Parent())}
			}
			e.emit(c.st, &Event{Kind: "expand", Name: n, Args: c.args, Site: site(c)})
			e.storeTo(c.st, p, freshVal(c.fn.Signature.Recv().Type().(*types.Pointer).Elem(), "box"), site(c))
			return []Out{{st: c.st}}
		}
	}
	m["("+prtPath+".Box).String"] = func(e *Engine, c *callCtx) []Out { return one(c.st, freshStr("box")) }
}

// havocRecursion: a recursive call may change what its pointer arguments
// refer to and returns anything its types admit.
func havocRecursion(e *Engine, c *callCtx) []Out {
	st := c.st
	for _, a := range c.args {
		p, ok := a.(PtrV)
		if !ok || p.NilA != nil {
			continue
		}
		T := ptrElem(st, p)
		if _, isTab := isFlatType(T); isTab || T == nil {
			continue
		}
		e.storeTo(st, p, freshVal(T, "rec"), e.pos(c.site))
	}
	outs := []Out{{st: st}}
	res := c.sig.Results()
	for i := 0; i < res.Len(); i++ {
		T := res.At(i).Type()
		var next []Out
		for _, o := range outs {
			if isErrorType(T) {
				bad := o.st.clone()
				x := newErr("errorf", "recursive call", e.pos(c.site))
				x.exact, x.notEOF = true, true
				next = append(next, Out{st: bad, rets: append(append([]Val{}, o.rets...), ErrV{x})})
				o.rets = append(o.rets, NilV{})
			} else {
				o.rets = append(o.rets, freshVal(T, "rec"))
			}
			next = append(next, o)
		}
		outs = next
	}
	return outs
}

// ptrElem is the type a pointer value refers to.
func ptrElem(st *State, p PtrV) types.Type {
	T := st.obj(p.Obj).T
	for _, s := range p.Path {
		switch u := T.Underlying().(type) {
		case *types.Struct:
			if s.Field < 0 {
				return nil
			}
			T = u.Field(s.Field).Type()
		case *types.Array:
			T = u.Elem()
		default:
			return nil
		}
	}
	return T
}
