package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var (
	tokLSS  = token.LSS
	tokGTR  = token.GTR
	bigByte = big.NewInt(255)
)

func bigI(i int64) *big.Int { return big.NewInt(i) }

var stdSizes = types.SizesFor("gc", "amd64")

func sizeof(T types.Type) int64 { return stdSizes.Sizeof(T) }

// ---- streams ----

// streamCaps tells which methods stream id has: nil atom = certainly.
func (e *Engine) streamCaps(st *State, id string) map[string]*Atom {
	c, ok := e.caps[id]
	if !ok {
		panic(undecided("unknown stream " + id))
	}
	return c
}

func (e *Engine) streamErr(site, what string, notEOF bool) *Err {
	x := newErr("stream", what, site)
	x.notEOF = notEOF
	return x
}

func (e *Engine) streamCall(st *State, s StreamV, m string, args []Val, in ssa.Instruction) []Out {
	site := e.pos(in)
	switch m {
	case "Read":
		b := args[0].(SliceV)
		var r []Out
		// full or partial without error
		a := st.clone()
		n := freshAtom("read", big0, lenHi)
		a.assume(Form{k: '<', l: linA(n).sub(b.Len)})
		e.fillRead(a, s, b, linA(n), site)
		e.emit(a, &Event{Kind: "read", Stream: s.ID, Buf: &b, Want: b.Len, N: linA(n), Outcome: "some", Site: site, Name: "Read"})
		r = append(r, Out{st: a, rets: []Val{IntV{linA(n), true}, NilV{}}})
		// end of stream
		z := st.clone()
		e.emit(z, &Event{Kind: "read", Stream: s.ID, Buf: &b, Want: b.Len, N: linZero, Outcome: "eof", Err: ErrV{e.globalErr("io.EOF")}, Site: site, Name: "Read"})
		r = append(r, Out{st: z, rets: []Val{IntV{linZero, true}, ErrV{e.globalErr("io.EOF")}}})
		// failure, perhaps after some bytes
		n2 := freshAtom("read", big0, lenHi)
		st.assume(Form{k: '<', l: linA(n2).sub(b.Len)})
		e.fillRead(st, s, b, linA(n2), site)
		er := ErrV{e.streamErr(site, "read error", true)}
		e.emit(st, &Event{Kind: "read", Stream: s.ID, Buf: &b, Want: b.Len, N: linA(n2), Outcome: "error", Err: er, Site: site, Name: "Read"})
		st.note("%s: Read fails", site)
		r = append(r, Out{st: st, rets: []Val{IntV{linA(n2), true}, er}})
		return r
	case "Write":
		b, _ := args[0].(SliceV)
		if b.Off == nil {
			b = SliceV{Off: linZero, Len: linZero, Cap: linZero}
		}
		return e.writeOutcomes(st, s, b, b.Len, site, "Write", nil)
	case "WriteString":
		sv := args[0].(StrV)
		b := SliceV{Obj: e.strObj(st, sv), Off: linZero, Len: sv.Len, Cap: sv.Len}
		return e.writeOutcomes(st, s, b, b.Len, site, "WriteString", nil)
	case "Seek":
		off := args[0].(IntV).L
		wh := args[1].(IntV).L
		bad := st.clone()
		er := ErrV{e.streamErr(site, "seek error", false)}
		e.emit(bad, &Event{Kind: "seek", Stream: s.ID, N: off, Want: wh, Outcome: "error", Err: er, Site: site, Name: "Seek"})
		bad.note("%s: Seek fails", site)
		var pos *Lin
		switch {
		case wh.isConstI(0):
			pos = off
		case wh.isConstI(1):
			pos = e.cursor(st, s.ID).add(off)
		default:
			pos = linA(freshAtom("seekpos", big0, posHi))
		}
		r := []Out{{st: bad, rets: []Val{IntV{linA(freshAtom("badpos", nil, nil)), true}, er}}}
		// a seek succeeds only for a non-negative position
		if ok, _ := e.split(st, leForm(pos.neg())); ok != nil {
			e.emit(ok, &Event{Kind: "seek", Stream: s.ID, N: off, Want: wh, Pos: pos, Outcome: "ok", Site: site, Name: "Seek"})
			r = append(r, Out{st: ok, rets: []Val{IntV{pos, true}, NilV{}}})
		}
		return r
	case "Close":
		bad := st.clone()
		er := ErrV{e.streamErr(site, "close error", false)}
		e.emit(bad, &Event{Kind: "close", Stream: s.ID, Outcome: "error", Err: er, Site: site, Name: "Close"})
		e.emit(st, &Event{Kind: "close", Stream: s.ID, Outcome: "ok", Site: site, Name: "Close"})
		return []Out{{st: st, rets: []Val{NilV{}}}, {st: bad, rets: []Val{er}}}
	}
	panic(undecided("call of stream method " + m + " at " + site))
}

// writeOutcomes: everything accepted, or an error after fewer bytes.
func (e *Engine) writeOutcomes(st *State, s StreamV, b SliceV, n *Lin, site, name string, extra []Val) []Out {
	bad := st.clone()
	var r []Out
	e.emit(st, &Event{Kind: "write", Stream: s.ID, Buf: &b, Want: n, N: n, Outcome: "ok", Site: site, Name: name, Args: extra})
	r = append(r, Out{st: st, rets: []Val{IntV{n, true}, NilV{}}})
	m := freshAtom("wrote", big0, lenHi)
	bad.assume(Form{k: '<', l: linA(m).sub(n)})
	er := ErrV{e.streamErr(site, "write error", false)}
	e.emit(bad, &Event{Kind: "write", Stream: s.ID, Buf: &b, Want: n, N: linA(m), Outcome: "error", Err: er, Site: site, Name: name, Args: extra})
	bad.note("%s: %s fails after %s bytes", site, name, linA(m))
	r = append(r, Out{st: bad, rets: []Val{IntV{linA(m), true}, er}})
	return r
}

// fillRead stores n bytes of the stream's cursor position into b.
func (e *Engine) fillRead(st *State, s StreamV, b SliceV, n *Lin, site string) {
	if b.Obj == 0 || n.isConstI(0) {
		return
	}
	pos := e.cursor(st, s.ID)
	arr := st.loadPath(st.obj(b.Obj).val, b.Path).(*Arr)
	var nv *Arr
	if b.View > 1 {
		// bytes of wide elements: contents become unknown
		symN++
		nv = &Arr{Elem: arr.Elem, N: arr.N, Ver: fmt.Sprintf("decoded:%s@%s", s.ID, pos.key()), VArgs: []*Lin{pos.sub(b.Off)}}
		if st.ghost["rawview"] == nil {
			st.ghost["rawview"] = IntV{linZero, false}
		}
	} else if n.isConst() && n.c.IsInt64() && n.c.Int64() <= 16 {
		nv = arr
		for i := int64(0); i < n.c.Int64(); i++ {
			nv = st.arrStore(nv, b.Off.addC(i), IntV{linA(streamByte(s.ID, pos.addC(i))), true})
		}
	} else {
		nv = arr.with(ent{k: 'r', lo: b.Off, hi: b.Off.add(n), stream: s.ID, off: pos})
	}
	e.storeSlice(st, b, nv, site)
}

// cursor is the stream's read position (ghost).
func (e *Engine) cursor(st *State, id string) *Lin {
	if v, ok := st.ghost["pos:"+id]; ok {
		return v.(IntV).L
	}
	l := linA(mkAtom("in", "startpos:"+id, big0, new(big.Int).Sub(pow2(62), big1)))
	st.ghost["pos:"+id] = IntV{l, true}
	return l
}

// readFull models io.ReadFull(r, buf) and io.ReadAtLeast(r, buf, len(buf)).
func (e *Engine) readFull(st *State, sv Val, b SliceV, site string) []Out {
	s, ok := sv.(StreamV)
	if !ok {
		return e.readFullOther(st, sv, b, site)
	}
	ev := func(st *State, n *Lin, out string, er Val) {
		e.emit(st, &Event{Kind: "read", Stream: s.ID, Buf: &b, Want: b.Len, N: n, Outcome: out, Err: er, Site: site, Name: "ReadFull"})
	}
	var r []Out
	z, nz := e.split(st, eqForm(b.Len))
	if z != nil {
		// an empty buffer: no read at all
		ev(z, linZero, "ok", nil)
		r = append(r, Out{st: z, rets: []Val{IntV{linZero, true}, NilV{}}})
	}
	if nz == nil {
		return r
	}
	st = nz
	eof, short, bad := st.clone(), st.clone(), st.clone()
	e.fillRead(st, s, b, b.Len, site)
	ev(st, b.Len, "ok", nil)
	r = append(r, Out{st: st, rets: []Val{IntV{b.Len, true}, NilV{}}})

	er := ErrV{e.globalErr("io.EOF")}
	eof.note("%s: the stream ends before the first of %s bytes", site, trunc(b.Len.String(), 40))
	ev(eof, linZero, "eof", er)
	r = append(r, Out{st: eof, rets: []Val{IntV{linZero, true}, er}})

	if !b.Len.isConstI(1) {
		n := freshAtom("short", big1, lenHi)
		short.assume(Form{k: '<', l: linA(n).sub(b.Len).addC(1)})
		if e.shortFill {
			e.fillRead(short, s, b, linA(n), site)
		}
		er := ErrV{e.globalErr("io.ErrUnexpectedEOF")}
		short.note("%s: the stream ends within the %s bytes", site, trunc(b.Len.String(), 40))
		ev(short, linA(n), "short", er)
		r = append(r, Out{st: short, rets: []Val{IntV{linA(n), true}, er}})
	}
	n := freshAtom("partial", big0, lenHi)
	bad.assume(Form{k: '<', l: linA(n).sub(b.Len).addC(1)})
	er2 := ErrV{e.streamErr(site, "read error", true)}
	bad.note("%s: the stream fails", site)
	ev(bad, linA(n), "error", er2)
	r = append(r, Out{st: bad, rets: []Val{IntV{linA(n), true}, er2}})
	return r
}

func (e *Engine) readFullOther(st *State, sv Val, b SliceV, site string) []Out {
	panic(undecided(fmt.Sprintf("io.ReadFull on %T at %s", sv, site)))
}

// ---- error models ----

func (e *Engine) mkErrorf(st *State, site string, args Val, format StrV) ErrV {
	x := newErr("errorf", "", site)
	x.exact, x.notEOF = true, true
	if format.Known {
		x.name = format.S
	}
	if sv, ok := args.(SliceV); ok && sv.Obj != 0 && sv.Len.isConst() {
		verbs := parseVerbs(format.S)
		for i := int64(0); i < sv.Len.c.Int64(); i++ {
			v := st.loadPath(st.obj(sv.Obj).val, appendSel(sv.Path, Sel{Field: -1, Idx: sv.Off.addC(i)}))
			switch v.(type) {
			case ErrV, OpqV:
				if format.Known && int(i) < len(verbs) && verbs[i] != 'w' {
					continue
				}
				x.wraps = append(x.wraps, v)
			}
		}
	}
	return ErrV{x}
}

func parseVerbs(f string) []byte {
	var r []byte
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			continue
		}
		i++
		for i < len(f) && strings.IndexByte("0123456789.+-# ", f[i]) >= 0 {
			i++
		}
		if i < len(f) && f[i] != '%' {
			r = append(r, f[i])
		}
	}
	return r
}

func freshStr(name string) StrV {
	return StrV{A: freshAtom(name, nil, nil), Len: linA(freshAtom(name+"len", big0, lenHi))}
}

// errIs: does errors.Is(x, target) hold?
func (e *Engine) errIs(st *State, x, target Val) Form {
	f := e.eqVal(st, x, target)
	if f.k == 'T' {
		return f
	}
	if ev, ok := x.(ErrV); ok {
		for _, w := range ev.E.wraps {
			g := e.errIs(st, w, target)
			if g.k == 'T' {
				return g
			}
			if g.k != 'F' {
				if f.k == 'F' {
					f = g
				} else {
					return Form{k: 'a', a: freshAtom("errorsIs", nil, nil)}
				}
			}
		}
	}
	return f
}

// ---- installation ----

func installModels(e *Engine) {
	m := e.models
	site := func(c *callCtx) string { return e.pos(c.site) }
	m["io.ReadFull"] = func(e *Engine, c *callCtx) []Out {
		b, ok := c.args[1].(SliceV)
		if !ok {
			b = SliceV{Off: linZero, Len: linZero, Cap: linZero}
		}
		if _, ok := c.args[0].(NilV); ok {
			return []Out{e.nilPanic(c.st, c.site, c.site.Parent())}
		}
		return e.readFull(c.st, c.args[0], b, site(c))
	}
	m["io.ReadAtLeast"] = func(e *Engine, c *callCtx) []Out {
		b := c.args[1].(SliceV)
		n := c.args[2].(IntV).L
		if !c.st.facts.entailsEQ(n.sub(b.Len)) {
			panic(undecided("io.ReadAtLeast with a minimum other than the buffer length"))
		}
		return e.readFull(c.st, c.args[0], b, site(c))
	}
	m["errors.New"] = func(e *Engine, c *callCtx) []Out {
		x := newErr("new", "", site(c))
		if s, ok := c.args[0].(StrV); ok && s.Known {
			x.name = s.S
		}
		x.exact, x.notEOF = true, true
		return one(c.st, ErrV{x})
	}
	m["fmt.Errorf"] = func(e *Engine, c *callCtx) []Out {
		f, _ := c.args[0].(StrV)
		return one(c.st, e.mkErrorf(c.st, site(c), c.args[1], f))
	}
	for _, n := range []string{"fmt.Sprintln"} {
		m[n] = func(e *Engine, c *callCtx) []Out { return one(c.st, freshStr("sprintf")) }
	}
	for _, n := range []string{"fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln"} {
		m[n] = func(e *Engine, c *callCtx) []Out {
			if _, ok := c.args[0].(StreamV); ok {
				panic(undecided("formatted output to the stream at " + site(c)))
			}
			return []Out{{st: c.st, rets: []Val{IntV{linA(freshAtom("fprint", big0, lenHi)), true}, NilV{}}}}
		}
	}
	m["errors.Is"] = func(e *Engine, c *callCtx) []Out {
		return one(c.st, BoolV{e.errIs(c.st, c.args[0], c.args[1])})
	}
	m["math.Inf"] = func(e *Engine, c *callCtx) []Out {
		l := c.args[0].(IntV).L
		if !l.isConst() {
			return one(c.st, FloatV{freshAtom("inf", nil, nil)})
		}
		s := "+Inf"
		if l.c.Sign() < 0 {
			s = "-Inf"
		}
		return one(c.st, FloatV{mkAtom("fconst", s, nil, nil)})
	}
	bits := func(name string, n int) {
		m["math."+name] = func(e *Engine, c *callCtx) []Out {
			f := c.args[0].(FloatV).A
			if f.kind == "fromb" {
				return one(c.st, IntV{f.args[0], true})
			}
			a := mkAtom("fbits", fmt.Sprint(n), big0, new(big.Int).Sub(pow2(n), big1), linA(f))
			a.bits = n
			return one(c.st, IntV{linA(a), true})
		}
	}
	bits("Float32bits", 32)
	bits("Float64bits", 64)
	frombits := func(name string, n int) {
		m["math."+name] = func(e *Engine, c *callCtx) []Out {
			l := c.args[0].(IntV).L
			if a := l.singleAtom(); a != nil && a.kind == "fbits" && a.aux == fmt.Sprint(n) {
				return one(c.st, FloatV{a.args[0].singleAtom()})
			}
			return one(c.st, FloatV{mkAtom("fromb", fmt.Sprint(n), nil, nil, l)})
		}
	}
	frombits("Float32frombits", 32)
	frombits("Float64frombits", 64)
	for _, n := range []string{"Min", "Max"} {
		n := n
		m["math."+n] = func(e *Engine, c *callCtx) []Out { return e.minmax(c.st, n == "Min", c.args[0], c.args[1]) }
	}
	for _, n := range []string{"Floor", "Ceil", "Abs", "Sqrt", "Trunc"} {
		n := n
		m["math."+n] = func(e *Engine, c *callCtx) []Out { return one(c.st, FloatV{mkFloat(n, c.args[0].(FloatV).A)}) }
	}
	m["math.IsInf"] = func(e *Engine, c *callCtx) []Out {
		return one(c.st, BoolV{Form{k: 'a', a: mkFloat("isinf", c.args[0].(FloatV).A)}})
	}
	m["math.IsNaN"] = func(e *Engine, c *callCtx) []Out {
		f := c.args[0].(FloatV).A
		return one(c.st, BoolV{e.floatCmp(token.NEQ, f, f)})
	}
	sorter := func(e *Engine, c *callCtx) []Out { return e.sortModel(c) }
	for _, n := range []string{"sort.Sort", "sort.Stable", "sort.Slice", "sort.SliceStable", "slices.SortFunc", "slices.SortStableFunc"} {
		m[n] = sorter
	}
}

// sortModel: the elements are permuted; ascending order by the Offset field
// is recognised from the comparison itself.
func (e *Engine) sortModel(c *callCtx) []Out {
	st := c.st
	site := e.pos(c.site)
	var sv SliceV
	var less func(st *State, i, j *Lin) []Out
	var swap func(st *State, i, j *Lin) []Out
	arg := c.args[0]
	if iv, ok := arg.(IfaceV); ok {
		T := iv.T
		arg = iv.V
		if len(c.args) == 1 {
			find := func(n string) *ssa.Function {
				ms := e.ld.prog.MethodSets.MethodSet(T)
				for i := 0; i < ms.Len(); i++ {
					if ms.At(i).Obj().Name() == n {
						return e.ld.prog.MethodValue(ms.At(i))
					}
				}
				return nil
			}
			lf, sf := find("Less"), find("Swap")
			if lf == nil || sf == nil {
				panic(undecided("sort without Less/Swap at " + site))
			}
			recv := iv.V
			less = func(st *State, i, j *Lin) []Out {
				return e.execFunc(lf, []Val{recv, IntV{i, true}, IntV{j, true}}, nil, st, c.depth+1, false)
			}
			swap = func(st *State, i, j *Lin) []Out {
				return e.execFunc(sf, []Val{recv, IntV{i, true}, IntV{j, true}}, nil, st, c.depth+1, false)
			}
		}
	}
	if len(c.args) == 2 {
		fv, ok := c.args[1].(FuncV)
		if !ok {
			panic(undecided("sort with unknown comparison at " + site))
		}
		byVal := strings.HasPrefix(c.name, "slices.")
		less = func(st *State, i, j *Lin) []Out {
			a := []Val{IntV{i, true}, IntV{j, true}}
			if byVal {
				s := arg.(SliceV)
				el := func(k *Lin) Val {
					return st.loadPath(st.obj(s.Obj).val, appendSel(s.Path, Sel{Field: -1, Idx: s.Off.add(k)}))
				}
				a = []Val{el(i), el(j)}
			}
			return e.execFunc(fv.Fn, a, fv.B, st, c.depth+1, false)
		}
	}
	if p, ok := arg.(PtrV); ok {
		// pointer to a sortable: find the slice inside
		v := e.loadFrom(st, p)
		if s, ok := v.(StructV); ok {
			for _, f := range s.F {
				if x, ok := f.(SliceV); ok {
					arg = x
					break
				}
			}
		}
		if s, ok := v.(SliceV); ok {
			arg = s
		}
	}
	sv, ok := arg.(SliceV)
	if !ok {
		panic(undecided(fmt.Sprintf("sort of %T at %s", arg, site)))
	}
	e.emit(st, &Event{Kind: "sort", Site: site, Name: c.name, Buf: &sv})
	if sv.Obj == 0 {
		return []Out{{st: st}}
	}
	arr := st.loadPath(st.obj(sv.Obj).val, sv.Path).(*Arr)
	// two distinct elements
	i, j := linA(freshAtom("i", big0, lenHi)), linA(freshAtom("j", big0, lenHi))
	probe := st.clone()
	probe.assume(leForm(i.sub(sv.Len).addC(1)))
	probe.assume(leForm(j.sub(sv.Len).addC(1)))
	probe.assume(eqForm(i.sub(j)).not())
	sorted := ""
	lp := probe.clone()
	ei, _ := st.arrLoad(arr, sv.Off.add(i)).(StructV)
	ej, _ := st.arrLoad(arr, sv.Off.add(j)).(StructV)
	hook := e.storeHook
	e.storeHook = nil
	louts := less(lp, i, j)
	good := len(louts) == 1 && louts[0].pan == nil
	if good && len(ei.F) > 0 {
		k := fieldIndex(arr.Elem, "Offset")
		if k >= 0 {
			a, b := ei.F[k].(IntV).L, ej.F[k].(IntV).L
			var f Form
			switch r := louts[0].rets[0].(type) {
			case BoolV:
				f = r.F
			}
			if f.key() == leForm(a.sub(b).addC(1)).key() {
				sorted = "Offset"
			}
		}
	} else if len(ei.F) > 0 {
		// a three-way comparison: negative exactly when a's offset is smaller
		k := fieldIndex(arr.Elem, "Offset")
		if k >= 0 {
			a, b := ei.F[k].(IntV).L, ej.F[k].(IntV).L
			all := true
			for _, o := range louts {
				if o.pan != nil {
					all = false
					break
				}
				switch r := o.rets[0].(type) {
				case IntV:
					neg := o.st.facts.entailsLE(r.L.addC(1))
					zero := o.st.facts.entailsEQ(r.L)
					pos := o.st.facts.entailsLE(r.L.neg().addC(1))
					switch {
					case neg:
						all = all && o.st.facts.entailsLE(a.sub(b).addC(1))
					case pos:
						all = all && o.st.facts.entailsLE(b.sub(a).addC(1))
					case zero:
						all = all && o.st.facts.entailsEQ(a.sub(b))
					default:
						all = false
					}
				case BoolV:
					v, known := o.st.formVal(r.F)
					if !known {
						all = false
					} else if v {
						all = all && o.st.facts.entailsLE(a.sub(b).addC(1))
					} else {
						all = all && o.st.facts.entailsLE(b.sub(a))
					}
				}
			}
			if all {
				sorted = "Offset"
			}
		}
	}
	if swap != nil {
		wp := probe.clone()
		a0, b0 := wp.arrLoad(arr, sv.Off.add(i)), wp.arrLoad(arr, sv.Off.add(j))
		for _, o := range swap(wp, i, j) {
			bad := o.pan != nil
			if !bad {
				na, ok := o.st.loadPath(o.st.obj(sv.Obj).val, sv.Path).(*Arr)
				bad = !ok || !o.st.valEq(o.st.arrLoad(na, sv.Off.add(i)), b0) || !o.st.valEq(o.st.arrLoad(na, sv.Off.add(j)), a0)
			}
			if bad {
				e.violate("sort", "swap", "the Swap method used for sorting does not exchange the two elements", site, o.st)
			}
		}
		e.sites["Swap method checked"]++
	}
	e.storeHook = hook
	n := &Arr{Elem: arr.Elem, N: arr.N, Ver: "sorted(" + arr.Ver + ")", VArgs: arr.VArgs, Sorted: sorted}
	if !strings.HasPrefix(arr.Ver, "sorted(") {
		if len(arr.ents) > 0 {
			symN++
			n.Ver = fmt.Sprintf("sorted(%s)#%d", arr.Ver, symN)
		}
	} else {
		n.Ver = arr.Ver
	}
	e.storeSlice(st, sv, n, site)
	e.sites["sort call"]++
	return []Out{{st: st}}
}

func fieldIndex(T types.Type, name string) int {
	s, ok := T.Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i
		}
	}
	return -1
}
