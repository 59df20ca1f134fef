package main

// FileReader under its most general client: C01 to C06, C13, C14.

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"strings"
)

// Ghost state of the specification:
//
//	phase  0 nothing, 1 header read, 2 past the index, 3 after a search
//	fresh  1: nothing was read since the header
//	nf ns  feature count and node size of the header; ix 0/1: has an index;
//	unk    1: the feature count is not known
//	gI gD  positions of index and data section
//	c gO   features delivered since the last rewind, data offset after them
//	ended  1: the end of the data was found
//	stick closed as for the writer; z which numbers of the reader are zero
//
// During a call:
//
//	ci     features delivered; nio ncl; ioerr first stream error
//	eofpos position at which the stream ended (-1)
//	res    search results; con 1: the index is corrupt
//	last   where the record delivered last begins
type rspec struct {
	ld   *Loaded
	e    *Engine
	seek bool
	api  *mgcAPI
	args []Val
	eof  *Err
	recv Val
}

const streamIn = "in"

var rCallGhosts = []string{"ci", "nio", "ncl", "ioerr", "eofpos", "res", "con", "last"}

func (w *rspec) initGhost(st *State) {
	for _, k := range []string{"phase", "fresh", "ix", "unk", "ended", "closed"} {
		gSet(st, k, 0)
	}
	for _, k := range []string{"nf", "ns", "gI", "gD", "c", "gO"} {
		st.ghost[k] = IntV{linZero, true}
	}
	st.ghost["stick"] = NilV{}
	w.e.cursor(st, streamIn)
	w.mark(st, nil)
}

// mark notes which numbers of the reader are certainly zero or positive.
func (w *rspec) mark(st *State, recv Val) {
	gSet(st, "z", 0)
	p, ok := recv.(PtrV)
	if !ok {
		return
	}
	z := int64(0)
	var visit func(v Val)
	visit = func(v Val) {
		switch v := v.(type) {
		case StructV:
			for _, x := range v.F {
				visit(x)
			}
		case IntV:
			if v.L.isConst() && !v.Ar {
				return
			}
			z = z * 3 % 1000003
			if st.facts.entailsEQ(v.L) {
				z++
			} else if st.facts.entailsLE(linC(1).sub(v.L)) {
				z += 2
			}
		}
	}
	visit(st.obj(p.Obj).val)
	gSet(st, "z", z)
}

func (w *rspec) begin(st *State, a *mgcAPI, args []Val) {
	for _, k := range []string{"nio", "ncl", "con"} {
		gSet(st, k, 0)
	}
	st.ghost["ci"] = IntV{linZero, true}
	st.ghost["eofpos"] = IntV{linC(-1), true}
	st.ghost["last"] = IntV{linC(-1), true}
	st.ghost["ioerr"], st.ghost["res"] = NilV{}, NilV{}
	w.api, w.args = a, args
	w.e.api = a.name
}

func (w *rspec) cands(st *State) []Fact {
	nf, c, gO, ci := gLin(st, "nf", linZero), gLin(st, "c", linZero), gLin(st, "gO", linZero), gLin(st, "ci", linZero)
	fs := []Fact{{k: fLE, l: c.sub(nf)}, {k: fLE, l: c.add(ci).sub(nf)}, {k: fLE, l: linC(1).sub(nf)}, {k: fLE, l: gO.neg()}, {k: fLE, l: c.neg()}, {k: fLE, l: ci.neg()}}
	_, hi := intType{64, true}.rng()
	fs = append(fs, Fact{k: fLE, l: nf.sub(linB(hi))})
	// the numbers the reader keeps are counts or positions
	if p, ok := w.recv.(PtrV); ok && st.heap[p.Obj] != nil {
		var visit func(v Val)
		visit = func(v Val) {
			switch v := v.(type) {
			case StructV:
				for _, x := range v.F {
					visit(x)
				}
			case IntV:
				if !v.L.isConst() {
					fs = append(fs, Fact{k: fLE, l: v.L.sub(nf)}, Fact{k: fLE, l: v.L.neg()})
				}
			}
		}
		visit(st.heap[p.Obj].val)
	}
	return fs
}

func (w *rspec) keep(recv Val) func(st *State, a *mgcAPI, args []Val) []*State {
	return func(st *State, a *mgcAPI, args []Val) []*State {
		if gInt(st, "phase") == 3 {
			st.ghost["c"], st.ghost["gO"] = IntV{linZero, true}, IntV{linZero, true}
		}
		for _, k := range rCallGhosts {
			delete(st.ghost, k)
		}
		states := []*State{st}
		if gInt(st, "phase") == 1 && a.name == "Header" && isNilVal(gVal(st, "stick")) && gInt(st, "closed") == 0 {
			// three kinds of files
			states = nil
			nf, ns, gI := gLin(st, "nf", nil), gLin(st, "ns", nil), gLin(st, "gI", nil)
			add := func(st *State, ix, unk int64, gD *Lin) {
				gSet(st, "ix", ix)
				gSet(st, "unk", unk)
				st.ghost["gD"] = IntV{gD, true}
				states = append(states, st)
			}
			z, nz := w.e.split(st, eqForm(nf))
			if z != nil {
				add(z, 0, 1, gI)
			}
			if nz != nil {
				z, nz := w.e.split(nz, eqForm(ns))
				if z != nil {
					add(z, 0, 0, gI)
				}
				if nz != nil {
					add(nz, 1, 0, gI.add(isizeAtom(nf, ns)))
				}
			}
		}
		for _, s := range states {
			w.mark(s, recv)
		}
		return states
	}
}

func (w *rspec) bad(tag, key, msg, site string, st *State) {
	w.e.violate(tag, key+"|FileReader."+w.api.name, "FileReader."+w.api.name+": "+msg, site, st)
}

// imageOf: the bytes are those of the input stream from some position on.
func (e *Engine) imageOf(st *State, b SliceV) (*Lin, bool) {
	if b.Obj == 0 || b.View > 1 || lazyByID[b.Obj] != nil || e.caps[streamIn] == nil {
		return nil, false
	}
	arr := lazyArr(st, b)
	if arr == nil {
		return nil, false
	}
	byteAt := func(st *State, k *Lin) *Atom {
		v, ok := st.arrLoad(arr, b.Off.add(k)).(IntV)
		if !ok {
			return nil
		}
		a := v.L.singleAtom()
		if a == nil || a.kind != "sb" || a.aux != streamIn {
			return nil
		}
		return a
	}
	a := byteAt(st, linZero)
	if a == nil || !st.facts.entailsLE(linC(1).sub(b.Len)) {
		return nil, false
	}
	p := a.args[0]
	for n := int64(1); n <= 12; n++ {
		// the first n bytes one by one, then any other
		if n == 1 || n == 4 || n == 8 || n == 12 {
			t := st.clone()
			k := linA(freshAtom("k", linC(n).c, lenHi))
			t.assume(leForm(k.sub(b.Len).addC(1)))
			if a := byteAt(t, k); a != nil && t.facts.entailsEQ(a.args[0].sub(p).sub(k)) || st.facts.entailsLE(b.Len.addC(-n)) {
				return p, true
			}
		}
		a := byteAt(st, linC(n))
		if a == nil || !st.facts.entailsEQ(a.args[0].sub(p).addC(-n)) {
			return nil, false
		}
	}
	return nil, false
}

func streamU32(pos *Lin) *Lin {
	r := linZero
	for i := int64(0); i < 4; i++ {
		r = r.addScaled(linA(streamByte(streamIn, pos.addC(i))), pow2(int(8*i)))
	}
	if ch := bitsOf(r, 32); ch != nil {
		return fromBits(ch, intType{32, false})
	}
	return r
}

// rootAt: the table is the size-prefixed root table at pos of the stream.
func (w *rspec) rootAt(st *State, bytes SliceV, tpos Val, pos *Lin) string {
	p, ok := w.e.imageOf(st, bytes)
	if !ok {
		return "its bytes are not those of one place of the stream"
	}
	if !st.linEq(p, pos) {
		return fmt.Sprintf("its bytes are those at position %s of the stream instead of %s", trunc(p.String(), 120), trunc(pos.String(), 120))
	}
	if !st.linEq(bytes.Len, streamU32(pos).addC(4)) {
		return "it does not have the length given by its size prefix"
	}
	tp, ok := tpos.(IntV)
	if !ok {
		return "the position of its root table is not determined"
	}
	want := w.e.toRange(st, streamU32(pos.addC(4)).addC(4), intType{32, false})
	if !st.linEq(tp.L, want) {
		return "the position of its root table is not the one its first offset gives"
	}
	return ""
}

// hit is the data offset of search result number k.
func (w *rspec) hit(st *State, k *Lin) (off *Lin, sorted bool) {
	s, ok := gVal(st, "res").(SliceV)
	if !ok || s.Obj == 0 {
		return nil, false
	}
	a := lazyArr(st, s)
	fi := fieldIndex(a.Elem, "Offset")
	v, ok := st.arrLoad(a, s.Off.add(k)).(StructV)
	if fi < 0 || !ok || fi >= len(v.F) {
		return nil, false
	}
	l, ok := v.F[fi].(IntV)
	if !ok {
		return nil, false
	}
	return l.L, a.Sorted == "Offset" && len(a.ents) == 0
}

// nextPos is where the next record to deliver begins.
func (w *rspec) nextPos(st *State) *Lin {
	gD := gLin(st, "gD", linZero)
	if w.api.name == "IndexSearch" {
		if off, _ := w.hit(st, gLin(st, "ci", linZero)); off != nil {
			return gD.add(off)
		}
		return nil
	}
	return gD.add(gLin(st, "gO", linZero))
}

func featPos(k *Lin) IntV {
	return IntV{linA(mkAtom("featpos", "", big0, big.NewInt(1<<32-1), k)), true}
}

func featToken(k *Lin) SliceV {
	n := linA(mkAtom("featlen", "", big.NewInt(4), lenHi, k))
	return SliceV{Obj: lazyObj(unboundedArr(byteT), "feature", []*Lin{k}, "lazy"), Off: linZero, Len: n, Cap: n}
}

// featureInit handles Feature.Init: a feature is delivered.
func (w *rspec) featureInit(e *Engine, c *callCtx) []Out {
	p, ok := c.args[0].(PtrV)
	if !ok || p.NilA != nil {
		if ok {
			panic(undecided("Feature.Init on a pointer that may be nil"))
		}
		return []Out{e.nilPanic(c.st, c.site, c.site.Parent())}
	}
	st := c.st
	site := e.pos(c.site)
	buf, _ := c.args[1].(SliceV)
	e.sites["feature delivery"]++
	var bytes, tpos Val = c.args[1], c.args[2]
	ci := gLin(st, "ci", linZero)
	tag := "read"
	if w.api.name == "IndexSearch" {
		tag = "search"
	}
	phase := gInt(st, "phase")
	next := w.nextPos(st)
	img, isImg := e.imageOf(st, buf)
	switch {
	case isImg && st.linEq(img, gLin(st, "last", linZero)):
		bytes, tpos = featToken(ci.addC(-1)), featPos(ci.addC(-1)) // once more
	case phase == 0:
		w.bad("order", "feature-early", "a feature is decoded before the header was read", site, st)
	case gInt(st, "unk") == 0 && !st.facts.entailsLE(gLin(st, "c", linZero).add(ci).addC(1).sub(gLin(st, "nf", linZero))) && w.api.name != "IndexSearch":
		w.bad("eof", "too-many", "more features than the header declares can be delivered", site, st)
	case w.api.name == "IndexSearch" && next == nil:
		w.bad(tag, "feature-search", "a feature is delivered that belongs to no search result", site, st)
	default:
		if msg := w.rootAt(st, buf, c.args[2], next); msg != "" {
			what := "the next unread record of the data section"
			if tag == "search" {
				what = "the record of the next search result"
			}
			w.bad(tag, "feature", "a feature is delivered that is not "+what+": "+msg, site, st)
			break
		}
		e.sites["feature delivered"]++
		bytes, tpos = featToken(ci), featPos(ci)
		o := *st.obj(buf.Obj)
		o.tag = "frozen"
		st.heap[buf.Obj] = &o
		if isImg {
			next = img // the same position, as the code computes it
		}
		end := next.add(streamU32(next)).addC(4)
		st.ghost["last"] = IntV{next, true}
		st.ghost["ci"] = IntV{ci.addC(1), true}
		st.ghost["gO"] = IntV{end.sub(gLin(st, "gD", linZero)), true}
	}
	e.storeTo(st, p, StructV{[]Val{StructV{[]Val{bytes, tpos}}}}, site)
	return []Out{{st: st}}
}

func (w *rspec) ev(st *State, ev *Event) {
	e := w.e
	if w.api == nil {
		return
	}
	use := func(what string) {
		gSet(st, "nio", 1)
		if gInt(st, "closed") == 1 {
			w.bad("sticky", "io-closed", what+" the stream after Close", ev.Site, st)
		} else if !isNilVal(gVal(st, "stick")) {
			w.bad("sticky", "io-failed", what+" the stream although an earlier call failed", ev.Site, st)
		}
	}
	switch ev.Kind {
	case "close":
		if gInt(st, "closed") == 1 || gInt(st, "ncl") >= 1 {
			w.bad("sticky", "close-twice", "the underlying stream is closed more than once", ev.Site, st)
		}
		if w.api.name != "Close" {
			w.bad("sticky", "close", "the underlying stream is closed by a call other than Close", ev.Site, st)
		}
		gSet(st, "ncl", 1)
		if ev.Outcome == "error" {
			st.ghost["ioerr"] = ev.Err
		}
	case "write":
		w.bad("read", "io", "the input stream is written to", ev.Site, st)
	case "seek":
		e.sites["seek event"]++
		use("seeks")
		if ev.Outcome != "ok" && isNilVal(st.ghost["ioerr"]) {
			st.ghost["ioerr"] = ev.Err
		}
	case "read":
		e.sites["read event"]++
		use("reads")
		if ev.Outcome != "ok" && ev.Outcome != "some" {
			if isNilVal(st.ghost["ioerr"]) {
				st.ghost["ioerr"] = ev.Err
			}
			if ev.Outcome == "eof" {
				st.ghost["eofpos"] = IntV{ev.Pos, true}
			}
		}
	case "content":
		gSet(st, "con", 1)
	case "search":
		e.sites["search event"]++
		pos, nf, ns := ev.Args[0].(IntV).L, ev.Args[1].(IntV).L, ev.Args[2].(IntV).L
		switch {
		case w.api.name != "IndexSearch" || gInt(st, "phase") != 1:
			w.bad("order", "search-where", "the index is searched by a call that may not do so", ev.Site, st)
		case !st.linEq(pos, gLin(st, "gI", linZero)):
			w.bad("search", "search-pos", fmt.Sprintf("the index searched is the one at position %s of the stream instead of %s", trunc(pos.String(), 120), trunc(gLin(st, "gI", linZero).String(), 120)), ev.Site, st)
		case !st.linEq(nf, gLin(st, "nf", linZero)):
			w.bad("search", "search-count", "the index searched may not have the feature count of the header", ev.Site, st)
		case !st.linEq(ns, gLin(st, "ns", linZero)):
			w.bad("search", "search-node", "the index searched may not have the node size of the header", ev.Site, st)
		case !st.valEq(ev.Args[3], w.args[0]):
			w.bad("search", "search-box", "the index is not searched for the given box", ev.Site, st)
		}
		if !isNilVal(st.ghost["res"]) {
			w.bad("search", "search-twice", "the index is searched more than once", ev.Site, st)
		}
		st.ghost["res"] = ev.Args[4]
	case "make":
		e.sites["allocation obligation"]++
		var max *big.Int
		switch {
		case ev.Name == "byte" || ev.Name == "uint8":
			max = new(big.Int).Add(pow2(32), big.NewInt(64))
			if w.api.name == "Header" {
				max = big.NewInt(32<<20 + 64)
			}
		case w.api.name != "IndexSearch":
			max = big.NewInt(1 << 24)
		default:
			return
		}
		if !st.facts.entailsLE(ev.N.sub(linB(max))) {
			w.bad("alloc", "alloc", fmt.Sprintf("allocates %s elements of %s, for which the stream contents may give any size", trunc(ev.N.String(), 100), ev.Name), ev.Site, st)
		}
	}
}

func (w *rspec) store(st *State, p PtrV, old, v Val, site string) {
	if st.obj(p.Obj).tag == "frozen" && w.api != nil {
		w.bad("alias", "frozen", "the bytes of a feature that was handed out are modified", site, st)
	}
}

// feature k of the result is the one delivered as number k.
func (w *rspec) delivered(st *State, r Val, n *Lin) string {
	s, ok := r.(SliceV)
	if !ok || s.Obj == 0 {
		if st.facts.entailsEQ(n) {
			return ""
		}
		return "no features are returned"
	}
	t := st.clone()
	k := linA(freshAtom("k", big0, lenHi))
	if in, known := t.formVal(leForm(k.sub(n).addC(1))); known && !in {
		return ""
	}
	t.assume(leForm(k.sub(n).addC(1)))
	var v Val
	if a, ok := t.loadPath(t.obj(s.Obj).val, s.Path).(*Arr); ok {
		v = t.arrLoad(t.normArr(a), s.Off.add(k))
	}
	for {
		x, ok := v.(StructV)
		if !ok || len(x.F) == 0 {
			break
		}
		v = x.F[0]
	}
	if b, ok := v.(SliceV); ok {
		if r := lazyByID[b.Obj]; r != nil && r.name == "feature" && len(r.args) == 1 && t.linEq(r.args[0], k) {
			return ""
		}
	}
	return "element " + k.String() + " of the result is not the feature delivered at that place but " + trunc(showVal(v), 120)
}

func (w *rspec) end(pre *State, a *mgcAPI, args []Val, o Out) {
	e := w.e
	st := o.st
	site := w.ld.position(a.fn.Pos(), nil)
	if o.pan != nil {
		e.sites["panic outcome"]++
		if o.pan.kind == "flat" {
			w.bad("flat", "panic", "a corrupt table makes it panic: "+o.pan.msg, o.pan.site, st)
		} else {
			w.bad("panic", "panic|"+o.pan.kind, "it panics: "+o.pan.msg, o.pan.site, st)
		}
		return
	}
	e.sites["call outcome"]++
	res := a.fn.Signature.Results()
	ei := res.Len() - 1
	if ei < 0 || !isErrorType(res.At(ei).Type()) {
		return
	}
	err := o.rets[ei]
	es := errState(st, err)
	if es == 2 {
		w.bad("io", "unknown", "the error result is not determined", site, st)
		return
	}
	ev, _ := err.(ErrV)
	isEOF := es == 1 && ev.E == w.eof
	nio := gInt(st, "nio") == 1 || gInt(st, "ncl") == 1
	ioerr := gVal(st, "ioerr")
	e.sites["error obligation"]++
	phase := gInt(pre, "phase")
	ci := gLin(st, "ci", linZero)
	c := gLin(pre, "c", linZero)
	nf := gLin(st, "nf", linZero)
	unk := gInt(st, "unk") == 1

	closed := e.globalErr(fgbPath + ".ErrClosed")
	if gInt(pre, "closed") == 1 {
		e.sites["call after Close"]++
		if nio {
			w.bad("sticky", "io-closed", "uses the stream after Close", site, st)
		}
		if ev.E != closed {
			w.bad("sticky", "err-closed", "does not return ErrClosed after Close", site, st)
		}
		return
	}
	if a.name == "Close" {
		e.sites["close outcome"]++
		if !isNilVal(ioerr) && es == 0 {
			w.bad("io", "swallow", "an error of the underlying stream is not returned", site, st)
		}
		has, known := st.facts.boolVal(e.caps[streamIn]["Close"])
		if known && has && gInt(st, "ncl") != 1 {
			w.bad("sticky", "not-closed", "Close does not close the underlying stream", site, st)
		}
		if !known {
			w.bad("sticky", "not-closed", "Close does not find out whether the underlying stream can be closed", site, st)
		}
		if isNilVal(ioerr) && es != 0 {
			w.bad("refuse", "close-err", "Close fails although the stream did not", site, st)
		}
		gSet(st, "closed", 1)
		st.ghost["stick"] = NilV{}
		return
	}
	if stick := gVal(pre, "stick"); !isNilVal(stick) {
		e.sites["call after failure"]++
		if nio {
			w.bad("sticky", "io-failed", "uses the stream after a failure", site, st)
		}
		if es != 1 || !st.valEq(err, stick) {
			w.bad("sticky", "err-failed", "does not return the error of the call that failed", site, st)
		}
		return
	}
	// where may the data end?
	delivering := a.name == "Data" || a.name == "DataRem"
	boundary := false // the stream ended between two features
	if ep := gLin(st, "eofpos", linC(-1)); delivering && unk && !st.facts.entailsLE(ep) {
		if np := w.nextPos(st); np != nil && st.linEq(ep, np) {
			boundary = true
		}
	}
	all := !unk && st.facts.entailsEQ(c.add(ci).sub(nf))
	atEnd := phase == 3 || gInt(pre, "ended") == 1 || boundary || all
	if isEOF {
		e.sites["end of data obligation"]++
		if a.name != "Data" {
			w.bad("eof", "eof-other", "returns io.EOF", site, st)
		} else if phase == 0 || !atEnd {
			w.bad("eof", "eof", "returns io.EOF although there may be more features, or the stream ended within one", site, st)
		}
	}
	if !isNilVal(ioerr) && es == 0 && !(a.name == "DataRem" && boundary) {
		w.bad("io", "swallow", "an error of the underlying stream is not returned", site, st)
	}
	if delivering {
		e.sites["delivery obligation"]++
		var n *Lin
		if a.name == "Data" {
			if x, ok := o.rets[0].(IntV); ok {
				n = x.L
			}
			if n == nil || !st.linEq(n, ci) {
				w.bad("read", "n", "the number returned is not the number of features delivered", site, st)
			} else if msg := w.delivered(st, args[0], n); msg != "" {
				w.bad("read", "result", msg, site, st)
			}
		} else {
			s, _ := o.rets[0].(SliceV)
			n = s.Len
			if n == nil {
				n = linZero
			}
			if !st.linEq(n, ci) {
				w.bad("read", "n", fmt.Sprintf("the number of features returned (%s) is not the number of features delivered (%s)", trunc(n.String(), 60), trunc(ci.String(), 60)), site, st)
			} else if msg := w.delivered(st, s, n); msg != "" {
				w.bad("read", "result", msg, site, st)
			}
		}
	}
	ok := map[string]bool{
		"Header": phase == 0, "Index": phase == 1, "IndexSearch": phase == 1,
		"Data": phase >= 1, "DataRem": phase >= 1, "Rewind": phase >= 1,
	}[a.name]
	if !ok {
		e.sites["refusal obligation"]++
		if es == 0 {
			w.bad("order", "accepted", "succeeds although the call is not allowed at this point", site, st)
		}
		if nio {
			w.bad("order", "io-refused", "uses the stream although the call is not allowed at this point", site, st)
		}
		return
	}
	if es == 0 || isEOF {
		e.sites["success obligation"]++
		w.success(pre, st, a, args, o, site, atEnd, boundary, isEOF)
		return
	}
	if a.name == "IndexSearch" && gInt(st, "ix") == 0 {
		if ev.E != e.globalErr(fgbPath+".ErrNoIndex") {
			w.bad("order", "no-index", "does not return ErrNoIndex for a file without an index", site, st)
		}
		if nio {
			w.bad("order", "io-refused", "uses the stream although there is no index", site, st)
		}
		gSet(st, "phase", 2)
		gSet(st, "fresh", 0)
		return
	}
	if a.name == "Rewind" {
		if w.seek && gInt(st, "ix") == 1 {
			w.bad("refuse", "rewind", "Rewind refuses an indexed file in a seekable stream", site, st)
		}
		if nio {
			w.bad("order", "io-refused", "a refused Rewind uses the stream", site, st)
		}
		return
	}
	// a failure: there must be a reason, and it is remembered
	st.ghost["stick"] = err
	e.sites["failure obligation"]++
	if isNilVal(ioerr) && gInt(st, "con") == 0 && !corruptSeen(st) {
		if fs, ok := w.wellFormed(pre, st, a); !ok || !st.refutes(fs) {
			if debugRd {
				dumpState(st)
				for _, x := range fs {
					fmt.Println("WF", x.String())
				}
			}
			w.bad("refuse", "failed", "fails although neither the stream nor the contents of the file give a reason", site, st)
		}
	}
}

// wellFormed are the conditions under which the call has to succeed as far
// as the file contents that it has looked at are concerned.
func (w *rspec) wellFormed(pre, st *State, a *mgcAPI) ([]Form, bool) {
	e := w.e
	gI, gD := gLin(st, "gI", linZero), gLin(st, "gD", linZero)
	nf, ns := gLin(st, "nf", linZero), gLin(st, "ns", linZero)
	var fs []Form
	size := func() {
		if gInt(st, "ix") == 1 {
			fs = append(fs, Form{k: 'a', a: mkAtom("in", "sizeok", nil, nil, nf, ns)}, leForm(gD.sub(linB(posHi))))
		}
	}
	record := func(pos *Lin) {
		fs = append(fs, leForm(linC(4).sub(streamU32(pos))))
		// the same position by another name
		seen := map[*Lin]bool{}
		for _, x := range st.facts {
			if x.k == fBool {
				continue
			}
			for _, t := range x.l.t {
				for d := range linA(t.a).deps() {
					if d.kind == "sb" && d.aux == streamIn && !seen[d.args[0]] {
						seen[d.args[0]] = true
						if !d.args[0].eq(pos) && st.linEq(d.args[0], pos) {
							fs = append(fs, leForm(linC(4).sub(streamU32(d.args[0]))))
						}
					}
				}
			}
		}
	}
	switch a.name {
	case "Header":
		start := e.cursor(pre, streamIn)
		m, major, _ := magicForms(start)
		fs = append(fs, m...)
		lo, hi := w.ld.constOf(fgbPath, "MinSpecMajorVersion"), w.ld.constOf(fgbPath, "MaxSpecMajorVersion")
		if lo == nil || hi == nil {
			return nil, false
		}
		fs = append(fs, leForm(linB(lo).sub(major)), leForm(major.sub(linB(hi))))
		n := streamU32(start.addC(8))
		fs = append(fs, leForm(linC(4).sub(n)), leForm(n.addC(-32<<20)))
		hf, hs := w.headerParams(start)
		fs = append(fs, leForm(hf.sub(linB(big.NewInt(1<<63-1)))), eqForm(hs.addC(-1)).not())
	case "Index":
		size()
	case "Data", "DataRem":
		if gInt(pre, "phase") == 1 {
			size()
		}
		record(gD.add(gLin(st, "gO", linZero)))
	case "IndexSearch":
		size()
		if s, ok := gVal(st, "res").(SliceV); ok && s.Obj != 0 {
			off, sorted := w.hit(st, gLin(st, "ci", linZero))
			if off == nil || !sorted {
				return nil, false
			}
			fs = append(fs, leForm(gLin(st, "gO", linZero).sub(off)))
			record(gD.add(off))
		}
	}
	_ = gI
	return fs, true
}

// headerParams: what the header at start+8 declares.
func (w *rspec) headerParams(start *Lin) (nf, ns *Lin) {
	pos := start.addC(8)
	id := "image:" + pos.key() + "@" + valKey(IntV{w.e.toRange(newState(), streamU32(pos.addC(4)).addC(4), intType{32, false}), true})
	fn := w.ld.method(flatPath, "Header", "FeaturesCount")
	nn := w.ld.method(flatPath, "Header", "IndexNodeSize")
	if fn == nil || nn == nil {
		panic(undecided("header accessors not found"))
	}
	nf = flatResult(fn.Signature.Results().At(0).Type(), "Header.FeaturesCount("+id+")", nil).(IntV).L
	ns = flatResult(nn.Signature.Results().At(0).Type(), "Header.IndexNodeSize("+id+")", nil).(IntV).L
	return
}

func (w *rspec) success(pre, st *State, a *mgcAPI, args []Val, o Out, site string, atEnd, boundary, isEOF bool) {
	e := w.e
	phase := gInt(pre, "phase")
	ci := gLin(st, "ci", linZero)
	c := gLin(pre, "c", linZero)
	nf, ns := gLin(st, "nf", linZero), gLin(st, "ns", linZero)
	unk := gInt(st, "unk") == 1
	switch a.name {
	case "Header":
		start := e.cursor(pre, streamIn)
		p, ok := o.rets[0].(PtrV)
		msg := "no header is returned"
		if ok && p.NilA == nil {
			msg = "the header is not determined"
			if t, ok := e.tableOf(st, p).(StructV); ok && len(t.F) == 2 {
				if b, ok := t.F[0].(SliceV); ok {
					msg = w.rootAt(st, b, t.F[1], start.addC(8))
				}
			}
		}
		if msg != "" {
			w.bad("read", "header", "the header returned is not the one after the magic number: "+msg, site, st)
		}
		fs, ok := w.wellFormed(pre, st, a)
		if !ok || !st.allTrue(fs) {
			bad := ""
			for _, f := range fs {
				if !st.allTrue([]Form{f}) {
					bad = ": not certain that " + f.String()
				}
			}
			w.bad("read", "header-bad", "a header is accepted that may not be valid"+trunc(bad, 200), site, st)
		}
		nf, ns = w.headerParams(start)
		st.ghost["nf"], st.ghost["ns"] = IntV{nf, true}, IntV{ns, true}
		gI := start.addC(12).add(streamU32(start.addC(8)))
		st.ghost["gI"], st.ghost["gD"] = IntV{gI, true}, IntV{gI, true}
		gSet(st, "phase", 1)
		gSet(st, "fresh", 1)
	case "Index":
		gSet(st, "phase", 2)
		gSet(st, "fresh", 0)
		if gInt(st, "ix") == 0 {
			if !isNilVal(o.rets[0]) {
				w.bad("read", "index-none", "an index is returned for a file that has none", site, st)
			}
			break
		}
		p, ok := o.rets[0].(PtrV)
		if !ok || p.NilA != nil || !st.linEq(e.treeField(st, p, treeRefs), nf) || !st.linEq(e.treeField(st, p, treeNode), ns) || !st.linEq(e.treeField(st, p, treePos), gLin(st, "gI", linZero)) {
			w.bad("read", "index", "the index returned is not the one that follows the header", site, st)
		}
	case "IndexSearch":
		gSet(st, "phase", 3)
		gSet(st, "fresh", 0)
		s, ok := gVal(st, "res").(SliceV)
		r, _ := o.rets[0].(SliceV)
		if r.Len == nil {
			r.Len = linZero
		}
		e.sites["search result obligation"]++
		switch {
		case !ok:
			w.bad("search", "no-search", "succeeds without having searched the index", site, st)
		case !st.linEq(r.Len, s.Len) || !st.linEq(ci, s.Len):
			w.bad("search", "n", fmt.Sprintf("the number of features returned (%s, %s of them read) is not the number of matches", trunc(r.Len.String(), 60), trunc(ci.String(), 60)), site, st)
		default:
			if msg := w.delivered(st, r, r.Len); msg != "" {
				w.bad("search", "result", msg, site, st)
			}
			if _, sorted := w.hit(st, linZero); !sorted && s.Obj != 0 && !st.facts.entailsLE(s.Len.addC(-1)) {
				w.bad("search", "unsorted", "the features are not in ascending offset order", site, st)
			}
		}
	case "Data", "DataRem":
		if phase == 3 {
			if gInt(st, "nio") == 1 {
				w.bad("order", "io-after-search", "uses the stream after a search", site, st)
			}
			if !isEOF && a.name == "Data" || !st.facts.entailsEQ(ci) {
				w.bad("order", "data-after-search", "delivers features after a search", site, st)
			}
			return
		}
		gSet(st, "phase", 2)
		gSet(st, "fresh", 0)
		if isEOF && unk || a.name == "DataRem" && unk {
			gSet(st, "ended", 1)
		}
		if a.name == "DataRem" && !atEnd {
			w.bad("eof", "rem", "succeeds although there may be more features", site, st)
		}
		if a.name == "Data" && !isEOF {
			p, _ := args[0].(SliceV)
			if p.Len == nil || !st.linEq(ci, p.Len) {
				w.bad("eof", "fewer", "delivers fewer features than asked for without reaching the end", site, st)
			}
		}
		st.ghost["c"] = IntV{c.add(ci), true}
		if !unk && !st.facts.entailsLE(c.add(ci).sub(nf)) {
			w.bad("eof", "count", "more features than the header declares can be delivered", site, st)
		}
	case "Rewind":
		if gInt(st, "nio") == 1 && gInt(st, "fresh") == 1 {
			// the cursor is where it was
			if !st.linEq(e.cursor(st, streamIn), gLin(st, "gI", linZero)) {
				w.bad("read", "rewind", "moves the cursor although it is right after the header", site, st)
			}
		}
		gSet(st, "phase", 1)
		gSet(st, "ended", 0)
		st.ghost["c"], st.ghost["gO"] = IntV{linZero, true}, IntV{linZero, true}
	}
}

func readerClient(ld *Loaded, e *Engine, seek bool) {
	ctor := ld.fn(fgbPath, "NewFileReader")
	if ctor == nil {
		e.violate("panic", "missing|NewFileReader", "NewFileReader not found", "", nil)
		return
	}
	installTree(e)
	e.recursive = havocRecursion
	caps := map[string]*Atom{"Read": nil, "Close": mkAtom("in", "cap:in.Close", nil, nil)}
	name := "FileReader(stream)"
	if seek {
		caps["Seek"] = nil
		name = "FileReader(seekable)"
	}
	in := e.newStream(streamIn, caps)
	w := &rspec{ld: ld, e: e, seek: seek, eof: e.globalErr("io.EOF")}
	recv, st := e.newObjVia(nil, e.entry(), ctor, in)
	st.ghost = map[string]Val{}
	st.trace = nil
	w.recv = recv
	w.initGhost(st)
	w.mark(st, recv)
	e.models["(*"+flatPath+".Feature).Init"] = w.featureInit
	m := &mgc{e: e, name: name, recv: recv, begin: w.begin, end: w.end, keep: w.keep(recv), cands: w.cands, count: map[string]int{}}
	want := map[string]bool{"Header": true, "Index": true, "IndexSearch": true, "Data": true, "DataRem": true, "Rewind": true, "Close": true}
	for _, fn := range ld.exportedMethods(fgbPath, "FileReader") {
		fn := fn
		if !want[fn.Name()] {
			e.sites["method without a specification"]++
			continue
		}
		delete(want, fn.Name())
		if o := os.Getenv("FGB_ONLY"); o != "" && !strings.Contains(o, fn.Name()) {
			continue
		}
		m.apis = append(m.apis, &mgcAPI{name: fn.Name(), fn: fn, args: func(st *State, n int) [][]Val {
			var args []Val
			for i := 0; i < fn.Signature.Params().Len(); i++ {
				symN++
				args = append(args, symVal(fn.Signature.Params().At(i).Type(), fmt.Sprintf("%s.arg%d#%d", fn.Name(), i, symN), nil))
			}
			return [][]Val{args}
		}})
	}
	for k := range want {
		e.violate("panic", "missing|"+k, "method FileReader."+k+" not found", "", nil)
	}
	e.ev, e.storeHook = w.ev, w.store
	defer func() { e.ev, e.storeHook = nil, nil; delete(e.models, "(*"+flatPath+".Feature).Init") }()
	// The ghosts count features and bytes of a stream of less than 2^62 bytes.
	e.ovf, e.ghostFacts = true, func(st *State) []Fact {
		n := gLin(st, "c", linZero).add(gLin(st, "ci", linZero))
		p := e.cursor(st, streamIn)
		return []Fact{{k: fLE, l: n.neg()}, {k: fLE, l: n.sub(linB(posHi))}, {k: fLE, l: p.neg()}, {k: fLE, l: p.sub(linB(posHi))}, {k: fLE, l: gLin(st, "gO", linZero).neg()}}
	}
	e.inPos = streamIn
	m.run(st)
	e.inPos, e.ovf, e.ghostFacts = "", false, nil
	for k, v := range m.count {
		e.sites["outcomes of FileReader."+k] += v
	}
}

var _ = types.Identical
var debugRd = os.Getenv("FGB_RD") != ""
