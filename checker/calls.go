package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (e *Engine) callInstr(c *Conf, call *ssa.Call) []Out {
	com := call.Common()
	var args []Val
	for _, a := range com.Args {
		args = append(args, e.val(c, a))
	}
	if com.IsInvoke() {
		return e.invoke(c.st, e.val(c, com.Value), com.Method, args, com, call, c.depth)
	}
	if b, ok := com.Value.(*ssa.Builtin); ok {
		return e.builtin(c, b.Name(), args, com, call)
	}
	return e.callValue(c.st, e.val(c, com.Value), args, com, call, c.depth, false)
}

// callValue calls a function value.
func (e *Engine) callValue(st *State, fv Val, args []Val, com *ssa.CallCommon, site ssa.Instruction, depth int, inDefer bool) []Out {
	switch f := fv.(type) {
	case FuncV:
		return e.callFn(st, f.Fn, args, f.B, com, site, depth, inDefer)
	case NilV:
		return []Out{{st: st, pan: &PanicInfo{kind: "nil", site: e.pos(site), fn: site.Parent().String(), msg: "call of nil function"}}}
	case OpqV:
		if f.A.kind == "builtin" && f.A.aux == "recover" {
			return e.doRecover(st)
		}
	}
	panic(undecided(fmt.Sprintf("call of unknown function value at %s", e.pos(site))))
}

func fnKey(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

func (e *Engine) callFn(st *State, fn *ssa.Function, args, binds []Val, com *ssa.CallCommon, site ssa.Instruction, depth int, inDefer bool) []Out {
	key := fnKey(fn)
	cc := &callCtx{st: st, args: args, fn: fn, com: com, site: site, depth: depth, name: key, inDefer: inDefer, sig: fn.Signature}
	if m, ok := e.models[key]; ok {
		e.sites["modelled call"]++
		return m(e, cc)
	}
	for _, pm := range e.prefixModels {
		if strings.HasPrefix(key, pm.prefix) {
			if r := pm.fn(e, cc); r != nil {
				e.sites["modelled call"]++
				return r
			}
		}
	}
	if e.skipInit && fn.Name() == "init" && fn.Synthetic != "" {
		return []Out{{st: st}}
	}
	if len(fn.Blocks) == 0 {
		panic(undecided("call of external function " + key + " at " + e.pos(site)))
	}
	n := 0
	for _, f := range e.callStack {
		if f == fn && binds == nil {
			n++
		}
	}
	// a function that is given functions to call may be on the stack for
	// another one
	if n > 0 && (n > 3 || !takesFunc(fn)) {
		return e.recursion(cc)
	}
	return e.execFunc(fn, args, binds, st, depth+1, inDefer)
}

func takesFunc(fn *ssa.Function) bool {
	for _, p := range fn.Params {
		if _, ok := p.Type().Underlying().(*types.Signature); ok {
			return true
		}
	}
	return false
}

func (e *Engine) recursion(cc *callCtx) []Out {
	if e.recursive != nil {
		return e.recursive(e, cc)
	}
	panic(undecided("recursive call of " + cc.name + " at " + e.pos(cc.site)))
}

// invoke calls an interface method.
func (e *Engine) invoke(st *State, recv Val, m *types.Func, args []Val, com *ssa.CallCommon, site ssa.Instruction, depth int) []Out {
	switch rv := recv.(type) {
	case NilV:
		return []Out{{st: st, pan: &PanicInfo{kind: "nil", site: e.pos(site), fn: site.Parent().String(), msg: "method call on nil interface"}}}
	case StreamV:
		return e.streamCall(st, rv, m.Name(), args, site)
	case ErrV:
		if m.Name() == "Error" {
			return one(st, StrV{A: freshAtom("errtext", nil, nil), Len: linA(freshAtom("errlen", big0, lenHi))})
		}
		if m.Name() == "Unwrap" {
			if len(rv.E.wraps) > 0 {
				return one(st, rv.E.wraps[0])
			}
			return one(st, NilV{})
		}
	case IfaceV:
		fn := e.ld.prog.LookupMethod(rv.T, m.Pkg(), m.Name())
		if fn == nil {
			panic(undecided("no method " + m.Name() + " on " + rv.T.String()))
		}
		return e.callFn(st, fn, append([]Val{rv.V}, args...), nil, com, site, depth, false)
	case OpqV:
		if rv.NilA != nil {
			t, n := e.split(st, Form{k: 'a', a: rv.NilA})
			var r []Out
			if t != nil {
				r = append(r, Out{st: t, pan: &PanicInfo{kind: "nil", site: e.pos(site), fn: site.Parent().String(), msg: "method call on nil interface"}})
			}
			if n != nil {
				rv.NilA = nil
				r = append(r, e.invoke(n, rv, m, args, com, site, depth)...)
			}
			return r
		}
		if e.invokeOpq != nil {
			cc := &callCtx{st: st, args: args, com: com, site: site, depth: depth, name: m.FullName(), sig: m.Type().(*types.Signature)}
			if r, ok := e.invokeOpq(e, cc, rv, m.Name()); ok {
				return r
			}
		}
		if m.Name() == "Error" || m.Name() == "String" {
			return one(st, StrV{A: freshAtom("text", nil, nil), Len: linA(freshAtom("textlen", big0, lenHi))})
		}
	}
	panic(undecided(fmt.Sprintf("call of method %s on %T at %s", m.Name(), recv, e.pos(site))))
}

func (e *Engine) doRecover(st *State) []Out {
	p, ok := st.ghost["__panic"]
	if !ok {
		return one(st, NilV{})
	}
	delete(st.ghost, "__panic")
	st.note("recovered")
	e.sites["recovered panic"]++
	return one(st, p)
}

func (e *Engine) builtin(c *Conf, name string, args []Val, com *ssa.CallCommon, in *ssa.Call) []Out {
	st := c.st
	site := e.pos(in)
	switch name {
	case "len", "cap":
		switch x := args[0].(type) {
		case SliceV:
			if name == "len" {
				return one(st, IntV{x.Len, true})
			}
			return one(st, IntV{x.Cap, true})
		case StrV:
			return one(st, IntV{x.Len, true})
		case NilV:
			return one(st, IntV{linZero, true})
		case *Arr:
			return one(st, IntV{x.N, true})
		case PtrV:
			T := com.Args[0].Type().Underlying()
			if p, ok := T.(*types.Pointer); ok {
				return one(st, IntV{linC(p.Elem().Underlying().(*types.Array).Len()), true})
			}
			if _, mv := e.mapObj(st, x); mv != nil && !mv.Open {
				return one(st, IntV{linC(int64(len(mv.K))), true})
			}
			return one(st, IntV{linA(freshAtom("maplen", big0, lenHi)), true})
		}
	case "recover":
		return e.doRecover(st)
	case "copy":
		return e.copyBuiltin(c, args, in)
	case "append":
		return e.appendBuiltin(c, args, com, in)
	case "min", "max":
		outs := []Out{{st: st, rets: []Val{args[0]}}}
		for _, a := range args[1:] {
			var next []Out
			for _, o := range outs {
				next = append(next, e.minmax(o.st, name == "min", o.rets[0], a)...)
			}
			outs = next
		}
		return outs
	case "print", "println":
		return []Out{{st: st, rets: nil}}
	case "ssa:wrapnilchk":
		return e.withPtr(c, args[0], in, func(st *State, q PtrV) []Out { return one(st, q) })
	case "Slice": // unsafe.Slice
		return e.unsafeSlice(c, args, com, in)
	case "String": // unsafe.String
		n := args[1].(IntV).L
		if _, isnil := args[0].(NilV); isnil {
			return one(st, StrV{Known: true, Len: linZero})
		}
		p := args[0].(PtrV)
		return e.require(c, leForm(n.neg()), in, "slice", "unsafe.String with negative length", func(st *State) []Out {
			sv, ok := e.elemSlice(st, p, n)
			if !ok {
				panic(undecided("unsafe.String of non-element pointer at " + site))
			}
			return one(st, StrV{Len: n, Src: &sv, SrcSt: nil})
		})
	case "StringData":
		s := args[0].(StrV)
		if s.Src != nil {
			return one(st, PtrV{Obj: s.Src.Obj, Path: appendSel(s.Src.Path, Sel{Field: -1, Idx: s.Src.Off})})
		}
		id := e.strObj(st, s)
		return one(st, PtrV{Obj: id, Path: []Sel{{Field: -1, Idx: linZero}}})
	case "SliceData":
		s, ok := args[0].(SliceV)
		if !ok || s.Obj == 0 {
			return one(st, NilV{})
		}
		return one(st, PtrV{Obj: s.Obj, Path: appendSel(s.Path, Sel{Field: -1, Idx: s.Off}), NilA: s.NilA})
	case "Add":
		panic(undecided("unsafe.Add at " + site))
	case "delete", "clear":
		if name == "clear" {
			if s, ok := args[0].(SliceV); ok {
				if s.Obj != 0 {
					e.fillZero(st, s, site)
				}
				return []Out{{st: st}}
			}
		}
		if p, mv := e.mapObj(st, args[0]); mv != nil && len(p.Path) == 0 {
			symN++
			if e.storeHook != nil {
				e.storeHook(st, p, mv, nil, site)
			}
			st.setObj(p.Obj, &MapV{T: mv.T, Open: true, Ver: fmt.Sprintf("#%d", symN)})
		}
		return []Out{{st: st}}
	}
	panic(undecided(fmt.Sprintf("builtin %s on %T at %s", name, args[0], site)))
}

var byteT = types.Typ[types.Uint8]

// strObj is a read-only byte object with the contents of a string.
func (e *Engine) strObj(st *State, s StrV) int {
	id := lazyObj(unboundedArr(byteT), "strdata:"+valKey(s), nil, "string")
	if _, ok := st.heap[id]; !ok {
		var a *Arr
		if s.Known {
			a = &Arr{Elem: byteT, N: s.Len, Zero: true}
			for i := 0; i < len(s.S); i++ {
				a = a.with(ent{k: 'p', lo: linC(int64(i)), v: IntV{linC(int64(s.S[i])), true}})
			}
		} else {
			bv := freshAtom("k", big0, lenHi)
			b := mkAtom("strbyte", "", big0, bigByte, linA(s.A), linA(bv))
			b.bits = 8
			a = &Arr{Elem: byteT, N: s.Len, Ver: "strdata"}
			a = a.with(ent{k: 'f', lo: linZero, hi: s.Len, bv: bv, v: IntV{linA(b), true}})
		}
		st.heap[id] = &Obj{id: id, T: unboundedArr(byteT), val: a, tag: "string", site: "string data"}
	}
	return id
}

func (e *Engine) elemSlice(st *State, p PtrV, n *Lin) (SliceV, bool) {
	k := len(p.Path)
	if k == 0 {
		return SliceV{}, false
	}
	last := p.Path[k-1]
	if last.Field >= 0 {
		return SliceV{}, false
	}
	return SliceV{Obj: p.Obj, Path: p.Path[:k-1], Off: last.Idx, Len: n, Cap: n}, true
}

// unsafeSlice: unsafe.Slice(ptr, n), possibly a byte view of wider elements.
func (e *Engine) unsafeSlice(c *Conf, args []Val, com *ssa.CallCommon, in *ssa.Call) []Out {
	n := args[1].(IntV).L
	return e.require(c, leForm(n.neg()), in, "slice", "unsafe.Slice with negative length", func(st *State) []Out {
		if _, isnil := args[0].(NilV); isnil {
			return one(st, SliceV{Off: linZero, Len: linZero, Cap: linZero})
		}
		p, ok := args[0].(PtrV)
		if !ok {
			panic(undecided("unsafe.Slice of unknown pointer"))
		}
		if p.Conv {
			// byte view of elements
			sv, ok := e.elemSlice(st, p, n)
			if !ok {
				panic(undecided("unsafe.Slice of converted pointer at " + e.pos(in)))
			}
			arr, ok := st.loadPath(st.obj(sv.Obj).val, sv.Path).(*Arr)
			if !ok {
				panic(undecided("unsafe view of non-array"))
			}
			es := sizeof(arr.Elem)
			sv.View = int(es)
			sv.Off = sv.Off.scale(bigI(es))
			if arr.N != nil {
				// the view must stay inside the array
				return e.require(&Conf{fi: c.fi, env: c.env, st: st, blk: c.blk, depth: c.depth}, leForm(sv.Off.add(n).sub(arr.N.scale(bigI(es)))), in, "slice", "unsafe byte view exceeds the array", func(st *State) []Out {
					return one(st, sv)
				})
			}
			return one(st, sv)
		}
		sv, ok := e.elemSlice(st, p, n)
		if !ok {
			panic(undecided("unsafe.Slice of non-element pointer at " + e.pos(in)))
		}
		return one(st, sv)
	})
}

func (e *Engine) minmax(st *State, min bool, x, y Val) []Out {
	switch xv := x.(type) {
	case IntV:
		yv := y.(IntV)
		var f Form
		if min {
			f = leForm(xv.L.sub(yv.L))
		} else {
			f = leForm(yv.L.sub(xv.L))
		}
		t, n := e.split(st, f)
		var r []Out
		if t != nil {
			r = append(r, Out{st: t, rets: []Val{xv}})
		}
		if n != nil {
			r = append(r, Out{st: n, rets: []Val{yv}})
		}
		return r
	case FloatV:
		yv := y.(FloatV)
		if e.cmpOracle != nil {
			op := tokLSS
			if !min {
				op = tokGTR
			}
			if v, ok := e.cmpOracle(op, yv.A, xv.A); ok {
				if v {
					return one(st, yv)
				}
				return one(st, xv)
			}
		}
		nm := "max"
		if min {
			nm = "min"
		}
		return one(st, FloatV{mkFloat(nm, xv.A, yv.A)})
	}
	panic(undecided("min/max operands"))
}

func (e *Engine) fillZero(st *State, s SliceV, site string) {
	if s.View > 0 {
		panic(undecided("clear of unsafe view"))
	}
	o := st.obj(s.Obj)
	z := &Arr{Elem: elemOf(st, s), Zero: true}
	old, _ := st.loadPath(o.val, s.Path).(*Arr)
	nv := old.with(ent{k: 's', lo: s.Off, hi: s.Off.add(s.Len), src: z, off: linZero})
	e.storeSlice(st, s, nv, site)
}

func elemOf(st *State, s SliceV) types.Type {
	return st.loadPath(st.obj(s.Obj).val, s.Path).(*Arr).Elem
}

// storeSlice replaces the whole backing array of s.
func (e *Engine) storeSlice(st *State, s SliceV, a *Arr, site string) {
	o := st.obj(s.Obj)
	if e.storeHook != nil {
		e.storeHook(st, PtrV{Obj: s.Obj, Path: appendSel(s.Path, Sel{Field: -1, Idx: nil})}, o.val, a, site)
	}
	st.setObj(s.Obj, st.storePath(o.val, s.Path, a))
}

// writeSeg copies n elements of src (from so) into slice d at offset 0.
func (e *Engine) writeSeg(st *State, d SliceV, n *Lin, src *Arr, so *Lin, site string) {
	if n.isConstI(0) {
		return
	}
	arr := st.loadPath(st.obj(d.Obj).val, d.Path).(*Arr)
	var nv *Arr
	if coarse != nil && coarse(arr.Elem) {
		symN++
		nv = &Arr{Elem: arr.Elem, N: arr.N, Ver: fmt.Sprintf("coarse#%d", symN)}
	} else if n.isConst() && n.c.IsInt64() && n.c.Int64() <= 16 {
		nv = arr
		vals := make([]Val, n.c.Int64())
		for i := range vals {
			vals[i] = st.arrLoad(src, so.addC(int64(i)))
		}
		for i := range vals {
			nv = st.arrStore(nv, d.Off.addC(int64(i)), vals[i])
		}
	} else {
		nv = arr.with(ent{k: 's', lo: d.Off, hi: d.Off.add(n), src: src, off: so})
	}
	if e.flatAppend {
		nv = st.normArr(nv)
	}
	e.storeSlice(st, d, nv, site)
}

func (e *Engine) copyBuiltin(c *Conf, args []Val, in *ssa.Call) []Out {
	d, ok := args[0].(SliceV)
	if !ok {
		return one(c.st, IntV{linZero, true})
	}
	var s SliceV
	switch x := args[1].(type) {
	case SliceV:
		s = x
	case StrV:
		s = SliceV{Obj: e.strObj(c.st, x), Off: linZero, Len: x.Len, Cap: x.Len}
	case NilV:
		return one(c.st, IntV{linZero, true})
	}
	if d.Obj == 0 || s.Obj == 0 {
		return one(c.st, IntV{linZero, true})
	}
	if d.View > 1 || s.View > 1 {
		panic(undecided("copy through unsafe view at " + e.pos(in)))
	}
	if e.conv != nil && (e.conv.stale(c.st, s.Obj) || e.conv.partly(c.st, d.Obj)) {
		panic(undecided("copy of or over converted bytes at " + e.pos(in)))
	}
	t, n := e.split(c.st, leForm(d.Len.sub(s.Len)))
	var r []Out
	do := func(st *State, k *Lin) {
		src := st.loadPath(st.obj(s.Obj).val, s.Path).(*Arr)
		e.writeSeg(st, d, k, src, s.Off, e.pos(in))
		r = append(r, Out{st: st, rets: []Val{IntV{k, true}}})
	}
	if t != nil {
		do(t, d.Len)
	}
	if n != nil {
		do(n, s.Len)
	}
	return r
}

// flatCopy copies the entries of an array of zeros of which none is past the
// slice.
func (e *Engine) flatCopy(st *State, old *Arr, d SliceV, n *Lin) *Arr {
	if !e.flatAppend || !old.Zero || !d.Off.isConstI(0) {
		return nil
	}
	for _, x := range old.ents {
		hi := x.hi
		if hi == nil {
			hi = x.lo.addC(1)
		}
		if x.k == 's' || x.k == 'r' || !st.facts.entailsLE(hi.sub(d.Len)) {
			return nil
		}
	}
	b := *old
	b.N = n
	return &b
}

func (e *Engine) appendBuiltin(c *Conf, args []Val, com *ssa.CallCommon, in *ssa.Call) []Out {
	st := c.st
	elem := in.Type().Underlying().(*types.Slice).Elem()
	d, _ := args[0].(SliceV)
	if d.Off == nil {
		d = SliceV{Off: linZero, Len: linZero, Cap: linZero}
	}
	var s SliceV
	switch x := args[1].(type) {
	case SliceV:
		s = x
	case StrV:
		s = SliceV{Obj: e.strObj(st, x), Off: linZero, Len: x.Len, Cap: x.Len}
	case NilV:
		return one(st, d)
	}
	if s.Obj == 0 || s.Len.isConstI(0) {
		return one(st, d)
	}
	if d.View > 1 || s.View > 1 {
		panic(undecided("append through unsafe view"))
	}
	if e.conv != nil && (e.conv.stale(st, s.Obj) || e.conv.stale(st, d.Obj)) {
		panic(undecided("append of converted bytes at " + e.pos(in)))
	}
	if e.appendHook != nil {
		e.appendHook(st, d, s, elem, e.pos(in))
	}
	src := st.loadPath(st.obj(s.Obj).val, s.Path).(*Arr)
	nl := d.Len.add(s.Len)
	var fits, grows *State
	if d.Obj == 0 {
		grows = st
	} else {
		fits, grows = e.split(st, leForm(nl.sub(d.Cap)))
	}
	var r []Out
	if fits != nil {
		tgt := d
		tgt.Off = d.Off.add(d.Len)
		e.writeSeg(fits, tgt, s.Len, src, s.Off, e.pos(in))
		res := d
		res.Len = nl
		r = append(r, Out{st: fits, rets: []Val{res}})
	}
	if grows != nil {
		capA := freshAtom("newcap", big0, lenHi)
		grows.assume(Form{k: '<', l: nl.sub(linA(capA))})
		a := &Arr{Elem: elem, N: linA(capA), Zero: true}
		if d.Obj != 0 && !d.Len.isConstI(0) {
			old := grows.loadPath(grows.obj(d.Obj).val, d.Path).(*Arr)
			if b := e.flatCopy(grows, old, d, linA(capA)); b != nil {
				a = b
			} else {
				a = a.with(ent{k: 's', lo: linZero, hi: d.Len, src: old, off: d.Off})
			}
		}
		id := grows.alloc(unboundedArr(elem), a, "append", e.pos(in))
		res := SliceV{Obj: id, Off: linZero, Len: nl, Cap: linA(capA)}
		tgt := res
		tgt.Off = d.Len
		e.writeSeg(grows, tgt, s.Len, src, s.Off, e.pos(in))
		r = append(r, Out{st: grows, rets: []Val{res}})
	}
	return r
}
