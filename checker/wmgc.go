package main

// FileWriter under its most general client: C03, C04, C05, C07, C08, C09.

import (
	"fmt"
	"go/types"
)

// Ghost state of the specification:
//
//	phase  0 nothing, 1 magic number, 2 header, 3 header and index
//	nf ns  feature count and effective node size of the written header
//	c      features written
//	stick  the error that every later call has to return (NilV: none)
//	may    an error that later calls may return (NilV: none)
//	closed 0/1; unknown 0/1: the header does not say how many features there are
//
// During a call:
//
//	acc    bytes the stream accepted; ioerr first stream error; nio 0/1
//	rec    kind of the record being written, done bytes of it
//	ci     features completed in this call
type wspec struct {
	ld   *Loaded
	e    *Engine
	api  *mgcAPI
	args []Val
	off  *recTheory // offsets of the features of the call

	boxes *boxSpec // C10: follow the boxes of the refs
}

var boxAPIs = map[string]bool{"Header": true, "IndexData": true, "IndexDataPtr": true}

const (
	recNone = iota
	recMagic
	recHeader
	recFeature
)

var wCallGhosts = []string{"acc", "ci", "done", "rec", "nio", "ioerr", "refs", "ncl", "pos:out"}

func (w *wspec) initGhost(st *State) {
	gSet(st, "phase", 0)
	for _, k := range []string{"nf", "ns", "c"} {
		st.ghost[k] = IntV{linZero, true}
	}
	st.ghost["stick"] = NilV{}
	st.ghost["may"] = NilV{}
	gSet(st, "closed", 0)
	gSet(st, "unknown", 0)
}

func (w *wspec) begin(st *State, a *mgcAPI, args []Val) {
	for _, k := range []string{"acc", "ci", "done", "pos:out"} {
		st.ghost[k] = IntV{linZero, true}
	}
	gSet(st, "rec", recNone)
	gSet(st, "nio", 0)
	gSet(st, "ncl", 0)
	st.ghost["ioerr"] = NilV{}
	st.ghost["refs"] = NilV{}
	w.api = a
	w.args = args
	if w.boxes != nil {
		w.boxes.begin(st)
	}
	w.e.api = a.name
	w.off, w.e.recs = nil, nil
	if a.name == "IndexData" || a.name == "IndexDataPtr" {
		if sl, ok := args[0].(SliceV); ok && sl.Obj != 0 {
			w.off = w.e.newRec("offset", linZero, big0, posHi, func(st *State, k *Lin) *Lin {
				_, _, size := w.e.sizedTable(st, w.featureTable(st, sl, k))
				return size
			})
			w.e.recs = []*recTheory{w.off}
		}
	}
}

// cands: relations between the ghosts that hold at some points.
func (w *wspec) cands(st *State) []Fact {
	nf, ns, c := gLin(st, "nf", linZero), gLin(st, "ns", linZero), gLin(st, "c", linZero)
	return []Fact{{k: fLE, l: c.sub(nf)}, {k: fLE, l: c.addC(1).sub(nf)}, {k: fLE, l: linC(1).sub(nf)}, {k: fLE, l: linC(1).sub(ns)}, {k: fEQ, l: c.sub(nf)}}
}

func (w *wspec) keep(st *State, a *mgcAPI, args []Val) []*State {
	for _, k := range wCallGhosts {
		delete(st.ghost, k)
	}
	if w.boxes != nil {
		for _, k := range boxGhosts {
			delete(st.ghost, k)
		}
	}
	return []*State{st}
}

func (w *wspec) bad(tag, key, msg, site string, st *State) {
	w.e.violate(tag, key+"|FileWriter."+w.api.name, "FileWriter."+w.api.name+": "+msg, site, st)
}

// leU32 is the little-endian 32-bit number at index i of a byte slice.
func leU32(st *State, b SliceV, i int64) *Lin {
	arr := lazyArr(st, b)
	r := linZero
	for k := int64(0); k < 4; k++ {
		v, ok := st.arrLoad(arr, b.Off.addC(i+k)).(IntV)
		if !ok {
			return linA(freshAtom("u32", big0, linB(pow2(32)).addC(-1).c))
		}
		r = r.addScaled(v.L, pow2(int(8*k)))
	}
	if ch := bitsOf(r, 32); ch != nil {
		return fromBits(ch, intType{32, false})
	}
	return r
}

// sizedTable: the forms under which a table is a size-prefixed root table at
// the start of its buffer that the buffer holds completely.
func (e *Engine) sizedTable(st *State, tab Val) (forms []Form, bytes SliceV, size *Lin) {
	s, ok := tab.(StructV)
	if !ok || len(s.F) != 2 {
		panic(undecided("table is not determined"))
	}
	bytes, ok = s.F[0].(SliceV)
	if !ok || bytes.Obj == 0 {
		return []Form{bform(false)}, SliceV{Off: linZero, Len: linZero, Cap: linZero}, linZero
	}
	pos := s.F[1].(IntV).L
	size = leU32(st, bytes, 0).addC(4)
	forms = []Form{leForm(linC(8).sub(bytes.Len)),
		eqForm(pos.sub(e.toRange(st, leU32(st, bytes, 4).addC(4), intType{32, false}))),
		leForm(size.sub(bytes.Len))}
	return
}

// acceptable is sizedTable for tables that have to be accepted: an offset of
// the table that is not a position of its buffer may be refused.
func (e *Engine) acceptable(st *State, tab Val) []Form {
	fs, bytes, _ := e.sizedTable(st, tab)
	if bytes.Obj != 0 {
		_, hi := intType{32, false}.rng()
		fs = append([]Form{leForm(leU32(st, bytes, 4).addC(4).sub(linB(hi)))}, fs...)
	}
	return fs
}

// expected is the record that has to be written next and its forms.
func (w *wspec) expected(st *State) (kind int, tab Val) {
	api := w.api.name
	switch gInt(st, "phase") {
	case 0:
		if api == "Header" {
			return recMagic, nil
		}
	case 1:
		if api == "Header" {
			return recHeader, w.e.tableOf(st, w.args[0].(PtrV))
		}
	case 2, 3:
		switch api {
		case "Data":
			return recFeature, w.e.tableOf(st, w.args[0].(PtrV))
		case "IndexData", "IndexDataPtr":
			sl, ok := w.args[0].(SliceV)
			if !ok || sl.Obj == 0 {
				return recNone, nil
			}
			return recFeature, w.featureTable(st, sl, gLin(st, "ci", linZero))
		}
	}
	return recNone, nil
}

func (w *wspec) ev(st *State, ev *Event) {
	e := w.e
	if w.api == nil {
		return
	}
	if w.boxes != nil {
		w.boxes.ev(st, ev)
	}
	switch ev.Kind {
	case "close":
		if gInt(st, "closed") == 1 || gInt(st, "ncl") >= 1 {
			w.bad("sticky", "close-twice", "the underlying stream is closed more than once", ev.Site, st)
		}
		if w.api.name != "Close" {
			w.bad("sticky", "close", "the underlying stream is closed by a call other than Close", ev.Site, st)
		}
		gSet(st, "ncl", 1)
		if ev.Outcome == "error" {
			st.ghost["ioerr"] = ev.Err
		}
	case "read", "seek":
		w.bad("layout", "io", "the output stream is used for something other than writing", ev.Site, st)
	case "write":
		w.write(st, ev)
	case "hilbertsort":
		st.ghost["refs"] = NilV{}
		if w.refs(st, ev.Buf) {
			st.ghost["refs"] = IntV{linZero, true}
		}
	case "hilbertsorted":
		if !isNilVal(st.ghost["refs"]) {
			st.ghost["refs"] = IntV{arrVerNo(lazyArr(st, *ev.Buf)), true}
		}
	case "newtree":
		e.sites["tree built"]++
		if w.api.name == "IndexData" || w.api.name == "IndexDataPtr" {
			r, ok := st.ghost["refs"].(IntV)
			if ok && ev.Buf.Obj != 0 && st.linEq(r.L, arrVerNo(lazyArr(st, *ev.Buf))) || w.refs(st, ev.Buf) {
				return
			}
			w.bad("offsets", "built", "the index may be built from refs other than one for each feature with its offset in the data section", ev.Site, st)
		}
	}
}

// arrVerNo identifies the contents of an array that is not modified since it
// was last replaced as a whole.
func arrVerNo(a *Arr) *Lin {
	return linA(mkAtom("in", "ver:"+a.key(), nil, nil))
}

func (w *wspec) write(st *State, ev *Event) {
	e := w.e
	e.sites["write event"]++
	gSet(st, "nio", 1)
	st.ghost["acc"] = IntV{gLin(st, "acc", linZero).add(ev.N), true}
	if ev.Outcome == "error" && isNilVal(st.ghost["ioerr"]) {
		st.ghost["ioerr"] = ev.Err
	}
	if gInt(st, "closed") == 1 {
		w.bad("sticky", "io-closed", "writes to the stream after Close", ev.Site, st)
		return
	}
	if !isNilVal(st.ghost["stick"]) {
		w.bad("sticky", "io-failed", "writes to the stream although an earlier call failed and may have left a partial write", ev.Site, st)
		return
	}
	phase := gInt(st, "phase")
	nf, ns := gLin(st, "nf", linZero), gLin(st, "ns", linZero)
	if ev.Name == "Marshal" {
		tree := ev.Args[0]
		switch {
		case gInt(st, "rec") != recNone:
			w.bad("layout", "index-inside", "the index is written inside another record", ev.Site, st)
		case phase == 3:
			w.bad("order", "index-twice", "the index is written twice", ev.Site, st)
		case phase != 2:
			w.bad("order", "index-early", "the index is written before the header", ev.Site, st)
		case w.api.name == "Data" || w.api.name == "Header" || w.api.name == "Close":
			w.bad("layout", "index-where", "the index is written by a call that is not an index call", ev.Site, st)
		case !st.facts.entailsLE(linC(1).sub(nf)) || !st.facts.entailsLE(linC(1).sub(ns)):
			w.bad("layout", "index-undeclared", "the index is written although the header may not declare one", ev.Site, st)
		case !st.facts.entailsEQ(nf.sub(e.treeField(st, tree, treeRefs))):
			w.bad("layout", "index-count", "the index is written although its number of refs may differ from the feature count of the header", ev.Site, st)
		case !st.facts.entailsEQ(ns.sub(e.treeField(st, tree, treeNode))):
			w.bad("layout", "index-node", "the index is written although its node size may differ from that of the header", ev.Site, st)
		case !st.facts.entailsEQ(gLin(st, "c", linZero)):
			w.bad("order", "index-late", "the index is written after features", ev.Site, st)
		}
		if w.api.name == "Index" {
			if p, ok := tree.(PtrV); !ok || valKey(p) != valKey(w.args[0]) {
				w.bad("layout", "index-other", "the index written is not the one given", ev.Site, st)
			}
		}
		if ev.Outcome == "ok" {
			gSet(st, "phase", 3)
			e.sites["index record"]++
		} else {
			st.ghost["done"] = IntV{ev.N, true}
		}
		return
	}
	b := *ev.Buf
	rec := gInt(st, "rec")
	done := gLin(st, "done", linZero)
	kind, tab := w.expected(st)
	if kind == recNone {
		w.bad("order", "write-unexpected", fmt.Sprintf("writes to the stream although nothing may be written by this call (%s)", []string{"header not written", "header incomplete", "header written", "index written"}[phase]), ev.Site, st)
		return
	}
	if rec == recNone && kind == recFeature {
		// starting a feature
		if phase == 2 && !st.facts.entailsEQ(ns) {
			w.bad("order", "feature-before-index", "a feature is written although the header may declare an index that was not written", ev.Site, st)
		}
		c := gLin(st, "c", linZero)
		t := st.clone()
		if f := leForm(linC(1).sub(nf)); func() bool { v, k := t.formVal(f); return !k || v }() {
			t.assume(f)
			if !t.facts.entailsLE(c.addC(1).sub(nf)) {
				w.bad("layout", "feature-count", "more features than the header declares can be written", ev.Site, st)
			}
		}
		if w.api.name == "Data" && !st.facts.entailsEQ(gLin(st, "ci", linZero)) {
			w.bad("layout", "feature-repeat", "the feature is written more than once", ev.Site, st)
		}
	}
	var total *Lin
	var src SliceV
	if kind == recMagic {
		total = linC(8)
	} else {
		fs, bytes, size := e.sizedTable(st, tab)
		total, src = size, bytes
		if rec == recNone {
			what := map[int]string{recHeader: "header", recFeature: "feature"}[kind]
			e.sites["table validity obligation"]++
			if !st.allTrue(fs) {
				w.bad("layout", "table-"+what, "a "+what+" is written although it may not be a complete size-prefixed root table at the start of its buffer", ev.Site, st)
			}
		}
	}
	// the written bytes have to be those of the record at done
	e.sites["layout obligation"]++
	if kind == recMagic {
		ok := b.Obj != 0 && done.isConst() && ev.Want.isConst() && done.c.Int64()+ev.Want.c.Int64() <= 8
		for i := int64(0); ok && i < ev.Want.c.Int64(); i++ {
			v, isInt := st.arrLoad(lazyArr(st, b), b.Off.addC(i)).(IntV)
			want := fgbMagic[done.c.Int64()+i]
			if want >= 0 && (!isInt || !st.facts.entailsEQ(v.L.addC(-want))) {
				ok = false
			}
		}
		if !ok {
			w.bad("layout", "magic", "the first bytes written are not the FlatGeobuf magic number", ev.Site, st)
		}
	} else if !w.sameBytes(st, b, ev.Want, src, done) {
		what := map[int]string{recHeader: "header", recFeature: "feature"}[kind]
		w.bad("layout", "bytes-"+what, "the bytes written are not those of the "+what+" table", ev.Site, st)
	}
	nd := done.add(ev.Want)
	if !st.facts.entailsLE(nd.sub(total)) {
		w.bad("layout", "beyond", "more bytes are written than the record has", ev.Site, st)
	}
	if ev.Outcome != "ok" {
		st.ghost["done"] = IntV{done.add(ev.N), true}
		gSet(st, "rec", int64(kind))
		return
	}
	if !st.facts.entailsEQ(nd.sub(total)) {
		gSet(st, "rec", int64(kind))
		st.ghost["done"] = IntV{nd, true}
		return
	}
	gSet(st, "rec", recNone)
	st.ghost["done"] = IntV{linZero, true}
	e.sites["complete record"]++
	switch kind {
	case recMagic:
		gSet(st, "phase", 1)
	case recHeader:
		gSet(st, "phase", 2)
	case recFeature:
		st.ghost["c"] = IntV{gLin(st, "c", linZero).addC(1), true}
		st.ghost["ci"] = IntV{gLin(st, "ci", linZero).addC(1), true}
	}
}

// sameBytes: b[0:n] holds src[done:done+n].
func (w *wspec) sameBytes(st *State, b SliceV, n *Lin, src SliceV, done *Lin) bool {
	if b.Obj == 0 || src.Obj == 0 || b.View > 1 {
		return false
	}
	if b.Obj == src.Obj && pathKey(b.Path) == pathKey(src.Path) && st.facts.entailsEQ(b.Off.sub(src.Off).sub(done)) {
		return true
	}
	k := linA(freshAtom("k", big0, lenHi))
	t := st.clone()
	t.assume(leForm(k.sub(n).addC(1)))
	x, ok1 := t.arrLoad(lazyArr(t, b), b.Off.add(k)).(IntV)
	y, ok2 := t.arrLoad(lazyArr(t, src), src.Off.add(done).add(k)).(IntV)
	return ok1 && ok2 && t.linEq(x.L, y.L)
}

// headerParams are the count and effective node size that the header given
// to the current call declares.
func (w *wspec) headerParams(st *State) (nf, ns *Lin) {
	id := tableKey(w.e.tableOf(st, w.args[0].(PtrV)))
	fn := w.ld.method(flatPath, "Header", "FeaturesCount")
	nn := w.ld.method(flatPath, "Header", "IndexNodeSize")
	if fn == nil || nn == nil {
		panic(undecided("header accessors not found"))
	}
	nf = flatResult(fn.Signature.Results().At(0).Type(), "Header.FeaturesCount("+id+")", nil).(IntV).L
	ns = flatResult(nn.Signature.Results().At(0).Type(), "Header.IndexNodeSize("+id+")", nil).(IntV).L
	return
}

// refs: the refs are those of the features given to IndexData, in order.
func (w *wspec) refs(st *State, refs *SliceV) bool {
	e := w.e
	if w.off == nil {
		return false
	}
	if refs.Obj == 0 || st.facts.entailsLE(refs.Len) {
		// no refs for no features
		data, ok := w.args[0].(SliceV)
		return ok && (data.Obj == 0 || st.facts.entailsLE(data.Len))
	}
	data, ok := w.args[0].(SliceV)
	if !ok || data.Obj == 0 || !st.facts.entailsEQ(refs.Len.sub(data.Len)) {
		return false
	}
	e.sites["offset obligation"]++
	t := st.clone()
	k := linA(freshAtom("k", big0, lenHi))
	t.assume(leForm(k.sub(data.Len).addC(1)))
	r, ok := t.arrLoad(lazyArr(t, *refs), refs.Off.add(k)).(StructV)
	fi := w.refOffset()
	if !ok || fi >= len(r.F) {
		return false
	}
	off, ok := r.F[fi].(IntV)
	return ok && w.off.is(t, off.L, k, 2)
}

// refOffset is the place of the offset in a packedrtree.Ref.
func (w *wspec) refOffset() int {
	s := w.ld.byPath[prtPath].Types.Scope().Lookup("Ref").Type().Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == "Offset" {
			return i
		}
	}
	panic(undecided("packedrtree.Ref has no field Offset"))
}

// featureTable is the table of the feature at index k of the argument.
func (w *wspec) featureTable(st *State, sl SliceV, k *Lin) Val {
	p := PtrV{Obj: sl.Obj, Path: appendSel(sl.Path, Sel{Field: -1, Idx: sl.Off.add(k)})}
	if q, ok := w.e.loadFrom(st, p).(PtrV); ok {
		p = q
	}
	return w.e.tableOf(st, p)
}

// badArgs: the arguments of the call are refused in every state.
func (w *wspec) badArgs(st *State) bool {
	if corruptSeen(st) {
		return true
	}
	if w.api.name == "Header" {
		hf, hs := w.headerParams(st)
		_, hi := intType{64, true}.rng()
		return st.refutes([]Form{leForm(hf.sub(linB(hi))), eqForm(hs.addC(-1)).not()})
	}
	return false
}

// corruptSeen: access to a table failed because of its contents.
func corruptSeen(st *State) bool {
	for _, x := range st.facts {
		if x.k == fBool && x.v && len(x.a.aux) > 8 && x.a.aux[:8] == "corrupt:" {
			return true
		}
	}
	return false
}

func (w *wspec) end(pre *State, a *mgcAPI, args []Val, o Out) {
	e := w.e
	st := o.st
	site := w.ld.position(a.fn.Pos(), nil)
	if o.pan != nil {
		e.sites["panic outcome"]++
		if o.pan.kind == "flat" {
			w.bad("flat", "panic", "a corrupt table makes it panic: "+o.pan.msg, o.pan.site, st)
		} else {
			w.bad("panic", "panic|"+o.pan.kind, "it panics: "+o.pan.msg, o.pan.site, st)
		}
		return
	}
	e.sites["call outcome"]++
	ei := -1
	res := a.fn.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		if isErrorType(res.At(i).Type()) {
			ei = i
		}
	}
	if ei < 0 {
		return
	}
	err := o.rets[ei]
	es := errState(st, err)
	if es == 2 {
		w.bad("io", "unknown", "the error result is not determined", site, st)
		return
	}
	nio := gInt(st, "nio") == 1 || gInt(st, "ncl") == 1
	ioerr := st.ghost["ioerr"]
	e.sites["error obligation"]++
	if !isNilVal(ioerr) && es == 0 {
		w.bad("io", "swallow", "an error of the underlying stream is not returned", site, st)
	}
	if ei == 1 {
		if n, ok := o.rets[0].(IntV); ok {
			e.sites["byte count obligation"]++
			if !st.facts.entailsEQ(n.L.sub(gLin(st, "acc", linZero))) {
				w.bad("count", "count", fmt.Sprintf("returns a byte count of %s although the stream accepted %s", trunc(n.L.String(), 80), trunc(gLin(st, "acc", linZero).String(), 80)), site, st)
			}
		}
	}
	closed := e.globalErr(fgbPath + ".ErrClosed")
	if gInt(pre, "closed") == 1 {
		e.sites["call after Close"]++
		if nio {
			w.bad("sticky", "io-closed", "uses the stream after Close", site, st)
		}
		if x, ok := err.(ErrV); (!ok || x.E != closed) && !(es == 1 && w.badArgs(st)) {
			w.bad("sticky", "err-closed", "does not return ErrClosed after Close", site, st)
		}
		return
	}
	if a.name == "Close" {
		e.sites["close outcome"]++
		has, known := st.facts.boolVal(e.caps["out"]["Close"])
		if known && has && gInt(st, "ncl") != 1 {
			w.bad("sticky", "not-closed", "Close does not close the underlying stream", site, st)
		}
		if !known {
			w.bad("sticky", "not-closed", "Close does not find out whether the underlying stream can be closed", site, st)
		}
		if es == 0 && !st.facts.entailsLE(gLin(st, "nf", linZero).sub(gLin(st, "c", linZero))) {
			w.bad("sticky", "truncated", "Close reports success although fewer features than declared were written", site, st)
		}
		gSet(st, "closed", 1)
		st.ghost["stick"], st.ghost["may"] = NilV{}, NilV{}
		return
	}
	if stick := gVal(pre, "stick"); !isNilVal(stick) {
		e.sites["call after failure"]++
		if nio {
			w.bad("sticky", "io-failed", "uses the stream after a failure", site, st)
		}
		if es != 1 || !st.valEq(err, stick) && !w.badArgs(st) {
			w.bad("sticky", "err-failed", "does not return the error of the call that failed", site, st)
		}
		return
	}
	if may := gVal(pre, "may"); !isNilVal(may) && !nio && es == 1 && st.valEq(err, may) {
		return
	}
	phase, p0 := gInt(st, "phase"), gInt(pre, "phase")
	if es == 0 {
		st.ghost["may"] = NilV{}
		e.sites["success obligation"]++
		ok := gInt(st, "rec") == recNone
		ci := gLin(st, "ci", linZero)
		switch a.name {
		case "Header":
			ok = ok && p0 < 2 && phase == 2
			if ok {
				nf, ns := w.headerParams(st)
				st.ghost["nf"] = IntV{nf, true}
				t := st.clone()
				if v, k := t.formVal(eqForm(nf)); !k || v {
					if k {
						st.ghost["ns"] = IntV{linZero, true}
						gSet(st, "unknown", 1)
					} else {
						w.bad("layout", "split", "Header does not tell apart files with and without a feature count", site, st)
					}
				} else {
					st.ghost["ns"] = IntV{ns, true}
				}
				if !st.facts.entailsNE(ns.addC(-1)) {
					w.bad("layout", "node-size-1", "a header with node size 1 is accepted", site, st)
				}
			}
		case "Index":
			ok = ok && p0 == 2 && phase == 3
		case "IndexData", "IndexDataPtr":
			sl, isSl := args[0].(SliceV)
			ok = ok && isSl && p0 == 2 && phase == 3 && st.facts.entailsEQ(ci.sub(sl.Len)) && st.facts.entailsEQ(ci.sub(gLin(st, "nf", linZero)))
		case "Data":
			ok = ok && st.facts.entailsEQ(ci.addC(-1))
		}
		if !ok {
			w.bad("layout", "incomplete", fmt.Sprintf("reports success without having written everything (phase %d to %d, %s features)", p0, phase, ci), site, st)
		}
		return
	}
	// failures
	if nio {
		done := gLin(st, "done", linZero)
		if !isNilVal(ioerr) && !st.facts.entailsLE(done) {
			st.ghost["stick"] = err
		} else {
			st.ghost["may"] = err
		}
		return
	}
	// a refusal: the call must not have been allowed
	e.sites["refusal obligation"]++
	for _, fs := range w.allowed(pre, st, a, args) {
		if !st.refutes(fs) {
			w.bad("refuse", "refused", "refuses a call that is allowed at this point", site, st)
		}
	}
}

// allowed lists the cases (conjunctions) in which the call had to be carried
// out.
func (w *wspec) allowed(pre, st *State, a *mgcAPI, args []Val) [][]Form {
	e := w.e
	nf, ns, c := gLin(pre, "nf", linZero), gLin(pre, "ns", linZero), gLin(pre, "c", linZero)
	if corruptSeen(st) {
		return nil // corrupt tables may be refused
	}
	switch a.name {
	case "Header":
		if gInt(pre, "phase") != 0 {
			return nil
		}
		tab := e.tableOf(st, args[0].(PtrV))
		fs := e.acceptable(st, tab)
		hf, hs := w.headerParams(st)
		_, hi := intType{64, true}.rng()
		return [][]Form{append(fs, leForm(hf.sub(linB(hi))), eqForm(hs.addC(-1)).not())}
	case "Index":
		if gInt(pre, "phase") != 2 {
			return nil
		}
		return [][]Form{{leForm(linC(1).sub(nf)), leForm(linC(2).sub(ns)), eqForm(c), eqForm(nf.sub(e.treeField(st, args[0], treeRefs))), eqForm(ns.sub(e.treeField(st, args[0], treeNode)))}}
	case "Data":
		tab := e.tableOf(st, args[0].(PtrV))
		fs := e.acceptable(st, tab)
		var r [][]Form
		for _, cnt := range []Form{eqForm(nf), leForm(c.addC(1).sub(nf))} {
			switch gInt(pre, "phase") {
			case 2:
				r = append(r, append(append([]Form{eqForm(ns)}, cnt), fs...))
			case 3:
				r = append(r, append([]Form{cnt}, fs...))
			}
		}
		return r
	}
	return nil
}

func writerClient(ld *Loaded, e *Engine) { writerClientWith(ld, e, nil) }

func writerClientWith(ld *Loaded, e *Engine, b *boxSpec) {
	ctor := ld.fn(fgbPath, "NewFileWriter")
	if ctor == nil {
		e.violate("panic", "missing|NewFileWriter", "NewFileWriter not found", "", nil)
		return
	}
	installTree(e)
	e.recursive = havocRecursion
	out := e.newStream("out", map[string]*Atom{"Write": nil, "Close": mkAtom("in", "cap:out.Close", nil, nil)})
	recv, st := e.newObjVia(nil, e.entry(), ctor, out)
	st.ghost = map[string]Val{}
	st.trace = nil
	w := &wspec{ld: ld, e: e, boxes: b}
	if b == nil {
		// what the geometry functions do is proved with C10 and C13
		for _, g := range geomFns(ld, newEngine(ld)) {
			if g.gi >= 0 && g.bi >= 0 {
				e.coverModel(g, nil)
			}
		}
	}
	if b != nil {
		b.w = w
		for _, n := range []string{"Expand", "ExpandXY"} {
			e.models["(*"+prtPath+".Box)."+n] = b.expand(n)
		}
		for _, g := range b.gs {
			e.coverModel(g, b.cover)
		}
		e.storeHook = b.hook
		e.sync = func(st *State, env []Val) {
			if b.active() {
				b.sync(st)
			}
		}
		defer func() { e.storeHook, e.sync = nil, nil }()
	}
	w.initGhost(st)
	m := &mgc{e: e, name: "FileWriter", recv: recv, begin: w.begin, end: w.end, keep: w.keep, cands: w.cands, count: map[string]int{}}
	want := map[string]bool{"Header": true, "Index": true, "IndexData": true, "IndexDataPtr": true, "Data": true, "Close": true}
	for _, fn := range ld.exportedMethods(fgbPath, "FileWriter") {
		fn := fn
		if b != nil && !boxAPIs[fn.Name()] {
			delete(want, fn.Name())
			continue
		}
		if !want[fn.Name()] {
			e.sites["method without a specification"]++
			continue
		}
		delete(want, fn.Name())
		m.apis = append(m.apis, &mgcAPI{name: fn.Name(), fn: fn, args: func(st *State, n int) [][]Val {
			var args []Val
			for i := 0; i < fn.Signature.Params().Len(); i++ {
				T := fn.Signature.Params().At(i).Type()
				symN++
				name := fmt.Sprintf("%s.arg%d#%d", fn.Name(), i, symN)
				if p, ok := T.(*types.Pointer); ok && types.Identical(p.Elem(), e.treeType()) {
					args = append(args, e.userTree(st, name))
					continue
				}
				args = append(args, symVal(T, name, nil))
			}
			return [][]Val{args}
		}})
	}
	for k := range want {
		e.violate("panic", "missing|"+k, "method FileWriter."+k+" not found", "", nil)
	}
	e.ev = w.ev
	defer func() { e.ev, e.recs = nil, nil }()
	m.run(st)
	for k, v := range m.count {
		e.sites["outcomes of FileWriter."+k] += v
	}
}
