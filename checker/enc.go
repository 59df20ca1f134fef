package main

// C11, C12, C23 and the stream clauses of C05 and C07 for PropReader,
// PropWriter and Magic: each method is interpreted once for every value.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// recordWrites keeps the written data and the accepted byte count in ghosts.
func recordWrites(st *State, ev *Event) {
	if ev.Kind != "write" {
		return
	}
	w, _ := st.ghost["w:"+ev.Stream].(TupV)
	if b := ev.Buf; b != nil && b.Obj != 0 && ev.Outcome == "ok" {
		arr, _ := st.loadPath(st.obj(b.Obj).val, b.Path).(*Arr)
		w = append(w[:len(w):len(w)], TupV{arr, IntV{b.Off, true}, IntV{ev.N, true}})
	}
	st.ghost["w:"+ev.Stream] = w
	st.ghost["acc:"+ev.Stream] = IntV{accepted(st, ev.Stream).add(ev.N), true}
	if ev.Outcome != "ok" {
		st.ghost["ioerr"] = ev.Err
	}
}

func accepted(st *State, id string) *Lin {
	if v, ok := st.ghost["acc:"+id]; ok {
		return v.(IntV).L
	}
	return linZero
}

// writtenByte is byte i of everything written to the stream.
func writtenByte(st *State, id string, i *Lin) (Val, bool) {
	w, _ := st.ghost["w:"+id].(TupV)
	base := linZero
	for _, x := range w {
		t := x.(TupV)
		arr, off, n := t[0].(*Arr), t[1].(IntV).L, t[2].(IntV).L
		if n.isConstI(0) {
			continue
		}
		end := base.add(n)
		if st.facts.entailsLE(base.sub(i)) && st.facts.entailsLE(i.sub(end).addC(1)) {
			return st.arrLoad(arr, off.add(i.sub(base))), true
		}
		if !st.facts.entailsLE(end.sub(i)) && !st.facts.entailsLE(i.sub(base).addC(1)) {
			return nil, false
		}
		base = end
	}
	return nil, false
}

// errState classifies an error result: 0 nil, 1 non-nil, 2 unknown.
func errState(st *State, v Val) int {
	switch x := v.(type) {
	case NilV:
		return 0
	case ErrV:
		return 1
	case IfaceV:
		return 1
	case OpqV:
		if x.NilA == nil {
			return 1
		}
		if b, ok := st.facts.boolVal(x.NilA); ok {
			if b {
				return 0
			}
			return 1
		}
	}
	return 2
}

var boolT = types.Typ[types.Bool]

// valueBits is the little-endian bit image of a scalar parameter.
func valueBits(v Val, T types.Type) (ch []chunk, size int) {
	switch x := v.(type) {
	case IntV:
		it, _ := intTypeOf(T)
		return bitsOf(x.L, it.bits), it.bits / 8
	case FloatV:
		n := floatBits(T)
		a := mkAtom("fbits", fmt.Sprint(n), big0, linB(pow2(n)).addC(-1).c, linA(x.A))
		a.bits = n
		return bitsOf(linA(a), n), n / 8
	}
	return nil, 0
}

var u8 = intType{8, false}

// propMethods pairs writer methods, reader methods and their value types.
var propMethods = []struct {
	name string
	T    types.Type
}{
	{"Byte", types.Typ[types.Int8]}, {"UByte", types.Typ[types.Uint8]}, {"Bool", boolT},
	{"Short", types.Typ[types.Int16]}, {"UShort", types.Typ[types.Uint16]},
	{"Int", types.Typ[types.Int32]}, {"UInt", types.Typ[types.Uint32]},
	{"Long", types.Typ[types.Int64]}, {"ULong", types.Typ[types.Uint64]},
	{"Float", types.Typ[types.Float32]}, {"Double", types.Typ[types.Float64]},
	{"String", types.Typ[types.String]}, {"Binary", types.NewSlice(types.Typ[types.Uint8])},
}

func propSize(T types.Type) int64 {
	if isBool(T) {
		return 1
	}
	return sizeof(T)
}

func isBytes(T types.Type) bool {
	s, ok := T.Underlying().(*types.Slice)
	return ok && isByteElem(s.Elem())
}

// newObjVia runs a constructor with a stream and returns its result.
func (e *Engine) newObjVia(r *Result, st *State, ctor *ssa.Function, s Val) (Val, *State) {
	outs := e.callEntry(ctor, st, s)
	for _, o := range outs {
		if o.pan == nil {
			return o.rets[0], o.st
		}
	}
	panic(undecided("constructor " + ctor.String() + " does not return"))
}

// encodeChecks interprets PropWriter and PropReader; findings carry the tags
// enc (C11), io (C05), n (C07).
func encodeChecks(ld *Loaded, r *Result, e *Engine) {
	e.ev = func(st *State, ev *Event) {
		recordWrites(st, ev)
		if ev.Kind == "read" && ev.Outcome != "ok" && ev.Outcome != "some" {
			st.ghost["ioerr"] = ev.Err
		}
	}
	for _, pm := range propMethods {
		guardTag(e, "enc", "PropWriter.Write"+pm.name, func() { encodeOne(ld, e, pm.name, pm.T) })
	}
	for _, pm := range propMethods {
		guardTag(e, "enc", "PropReader.Read"+pm.name, func() { decodeOne(ld, e, pm.name, pm.T) })
	}
}

// guardTag reports an undecided construct under a tag.
func guardTag(e *Engine, tag, what string, f func()) {
	defer func() {
		if x := recover(); x != nil {
			if u, ok := x.(undecidedErr); ok {
				e.violate(tag, "undecided|"+what, "the analysis cannot decide "+what+": "+u.msg, "", nil)
				return
			}
			panic(x)
		}
	}()
	f()
}

func encodeOne(ld *Loaded, e *Engine, name string, T types.Type) {
	fn := ld.method(fgbPath, "PropWriter", "Write"+name)
	ctor := ld.fn(fgbPath, "NewPropWriter")
	label := "(*PropWriter).Write" + name
	if fn == nil || ctor == nil {
		e.violate("enc", "missing|"+label, "method not found", "", nil)
		return
	}
	w := e.newStream("out", map[string]*Atom{"Write": nil})
	recv, st := e.newObjVia(nil, e.entry(), ctor, w)
	st.ghost = map[string]Val{}
	v := symVal(T, "v:"+T.String(), nil)
	site := ld.position(fn.Pos(), nil)
	for _, o := range e.callEntry(fn, st, recv, v) {
		e.sites["method outcome"]++
		if o.pan != nil {
			e.violate("enc", "panic|"+label, "panics: "+o.pan.msg, o.pan.site, o.st)
			continue
		}
		st := o.st
		n, es := o.rets[0].(IntV).L, errState(st, o.rets[1])
		if !st.facts.entailsEQ(n.sub(accepted(st, "out"))) {
			e.violate("n", "count|"+label, fmt.Sprintf("returns n = %s although the stream accepted %s bytes", n, accepted(st, "out")), site, st)
		}
		_, failed := st.ghost["ioerr"]
		if failed && es != 1 {
			e.violate("io", "swallow|"+label, "a failed write is reported as success", site, st)
		}
		if es != 0 {
			if !failed {
				e.refusal(st, label, v, T, site)
			}
			continue
		}
		// success: the bytes must be the encoding
		bad := func(i string, got, want string) {
			e.violate("enc", "bytes|"+label, fmt.Sprintf("byte %s of the encoding is %s, expected %s", i, trunc(got, 120), trunc(want, 120)), site, st)
		}
		total := accepted(st, "out")
		checkByte := func(i *Lin, want *Lin) {
			e.sites["byte obligation"]++
			got, ok := writtenByte(st, "out", i)
			if !ok {
				bad(i.String(), "not written", want.String())
				return
			}
			g, ok := got.(IntV)
			if !ok || !st.linEq(g.L, want) {
				bad(i.String(), showVal(got), want.String())
			}
		}
		checkLen := func(want *Lin) bool {
			e.sites["length obligation"]++
			if !st.facts.entailsEQ(total.sub(want)) {
				e.violate("enc", "length|"+label, fmt.Sprintf("writes %s bytes, expected %s", total, want), site, st)
				return false
			}
			return true
		}
		switch {
		case isBool(T):
			if !checkLen(linC(1)) {
				continue
			}
			f := v.(BoolV).F
			t, nf := e.split(st.clone(), f)
			for i, s := range []*State{t, nf} {
				if s == nil {
					continue
				}
				got, ok := writtenByte(s, "out", linZero)
				g, ok2 := got.(IntV)
				if !ok || !ok2 || !s.facts.entailsEQ(g.L.addC(int64(i-1))) {
					bad("0", showVal(got), fmt.Sprint(1-i))
				}
			}
		case isString(T) || isBytes(T):
			var ln *Lin
			var at func(k *Lin) Val
			if s, ok := v.(StrV); ok {
				ln = s.Len
				at = func(k *Lin) Val { return e.strByte(st, s, k) }
			} else {
				s := v.(SliceV)
				ln = s.Len
				arr := lazyArr(st, s)
				at = func(k *Lin) Val { return st.arrLoad(arr, s.Off.add(k)) }
			}
			if !st.facts.entailsLE(ln.sub(linB(pow2(32))).addC(1)) {
				e.violate("enc", "overflow|"+label, "accepts a length that does not fit the 32-bit prefix", site, st)
			}
			if !checkLen(ln.addC(4)) {
				continue
			}
			st.assume(leForm(ln.sub(linB(pow2(32))).addC(1)))
			for i := 0; i < 4; i++ {
				ch := takeBits(bitsOf(ln, 64), 8*i, 8)
				checkByte(linC(int64(i)), fromBits(ch, u8))
			}
			if st.facts.entailsLE(ln) {
				continue
			}
			k := linA(freshAtom("k", big0, lenHi))
			st.assume(leForm(k.sub(ln).addC(1)))
			if x, ok := at(k).(IntV); ok {
				checkByte(k.addC(4), x.L)
			}
		default:
			ch, size := valueBits(v, T)
			if !checkLen(linC(int64(size))) {
				continue
			}
			for i := 0; i < size; i++ {
				checkByte(linC(int64(i)), fromBits(takeBits(ch, 8*i, 8), u8))
			}
		}
	}
}

func lazyArr(st *State, s SliceV) *Arr {
	a, _ := st.loadPath(st.obj(s.Obj).val, s.Path).(*Arr)
	return a
}

// refusal: an error without any failed write is legitimate only for a value
// that cannot be encoded.
func (e *Engine) refusal(st *State, label string, v Val, T types.Type, site string) {
	ok := false
	var ln *Lin
	switch x := v.(type) {
	case StrV:
		ln = x.Len
	case SliceV:
		ln = x.Len
	}
	if ln != nil && st.facts.entailsLE(linB(pow2(32)).sub(ln)) {
		ok = true
	}
	if !ok {
		e.violate("enc", "refuse|"+label, "refuses a value that can be encoded", site, st)
	}
	if !st.facts.entailsEQ(accepted(st, "out")) {
		e.violate("enc", "partial|"+label, "writes something before refusing the value", site, st)
	}
}

func decodeOne(ld *Loaded, e *Engine, name string, T types.Type) {
	fn := ld.method(fgbPath, "PropReader", "Read"+name)
	ctor := ld.fn(fgbPath, "NewPropReader")
	label := "(*PropReader).Read" + name
	if fn == nil || ctor == nil {
		e.violate("enc", "missing|"+label, "method not found", "", nil)
		return
	}
	in := e.newStream("in", map[string]*Atom{"Read": nil})
	recv, st := e.newObjVia(nil, e.entry(), ctor, in)
	st.ghost = map[string]Val{}
	p0 := e.cursor(st, "in")
	site := ld.position(fn.Pos(), nil)
	sb := func(i *Lin) *Lin { return linA(streamByte("in", p0.add(i))) }
	for _, o := range e.callEntry(fn, st, recv) {
		e.sites["method outcome"]++
		if o.pan != nil {
			e.violate("enc", "panic|"+label, "panics: "+o.pan.msg, o.pan.site, o.st)
			e.violate("bounds", "panic|"+label, "panics: "+o.pan.msg, o.pan.site, o.st)
			continue
		}
		st := o.st
		es := errState(st, o.rets[1])
		used := e.cursor(st, "in").sub(p0)
		if _, failed := st.ghost["ioerr"]; failed {
			if es != 1 {
				e.violate("io", "swallow|"+label, "a failed read is reported as success", site, st)
			}
			// the end of the stream is a clean end only before the first byte
			if isEOF(o.rets[1]) && !st.facts.entailsEQ(used) {
				e.violate("trunc", "eof|"+label, "reports io.EOF although part of the value was read", site, st)
			}
			continue
		}
		if es != 0 {
			// refusing a length is legitimate only if it does not fit an int
			e.violate("enc", "refuse|"+label, "fails although every read succeeded", site, st)
			continue
		}
		checkUsed := func(want *Lin) bool {
			e.sites["length obligation"]++
			if !st.facts.entailsEQ(used.sub(want)) {
				e.violate("enc", "consumed|"+label, fmt.Sprintf("consumes %s bytes, expected %s", used, want), site, st)
				return false
			}
			return true
		}
		e.sites["value obligation"]++
		switch {
		case isBool(T):
			if !checkUsed(linC(1)) {
				continue
			}
			b := sb(linZero)
			for i := int64(0); i < 2; i++ {
				s := st.clone()
				if v, known := s.formVal(eqForm(b.addC(-i))); known && !v {
					continue
				}
				s.assume(eqForm(b.addC(-i)))
				rv, ok := o.rets[0].(BoolV)
				if ok {
					var v, known bool
					v, known = s.formVal(rv.F)
					ok = known && v == (i == 1)
				}
				if !ok {
					e.violate("enc", "value|"+label, fmt.Sprintf("byte %d is decoded as %s", i, showVal(o.rets[0])), site, st)
				}
			}
		case isString(T) || isBytes(T):
			ch := []chunk{}
			for i := int64(0); i < 4; i++ {
				ch = append(ch, bitsOf(sb(linC(i)), 8)...)
			}
			ln := fromBits(ch, intType{32, false})
			if !checkUsed(ln.addC(4)) {
				continue
			}
			var got *Lin
			var at func(k *Lin) Val
			switch x := o.rets[0].(type) {
			case StrV:
				got = x.Len
				at = func(k *Lin) Val { return e.strByte(st, x, k) }
			case SliceV:
				got = x.Len
				if x.Obj != 0 {
					arr := lazyArr(st, x)
					at = func(k *Lin) Val { return st.arrLoad(arr, x.Off.add(k)) }
				}
			}
			if got == nil || !st.facts.entailsEQ(got.sub(ln)) {
				e.violate("enc", "value|"+label, "returns a value whose length is not the length prefix", site, st)
				continue
			}
			if st.facts.entailsLE(ln) {
				continue
			}
			k := linA(freshAtom("k", big0, lenHi))
			st.assume(leForm(k.sub(ln).addC(1)))
			if at == nil {
				e.violate("enc", "value|"+label, "returns no bytes for a non-empty value", site, st)
				continue
			}
			g, ok := at(k).(IntV)
			if !ok || !st.linEq(g.L, sb(k.addC(4))) {
				e.violate("enc", "value|"+label, fmt.Sprintf("byte %s of the value is %s", k, showVal(at(k))), site, st)
			}
		default:
			size := propSize(T)
			if !checkUsed(linC(size)) {
				continue
			}
			ch := []chunk{}
			for i := int64(0); i < size; i++ {
				ch = append(ch, bitsOf(sb(linC(i)), 8)...)
			}
			want := ""
			ok := false
			var got string
			switch x := o.rets[0].(type) {
			case IntV:
				it, _ := intTypeOf(T)
				w := fromBits(ch, it)
				want = w.String()
				ok = st.linEq(x.L, w)
				got = layout(x.L, int(size), p0)
			case FloatV:
				w := fromBits(ch, intType{int(8 * size), false})
				want = w.String()
				if x.A.kind == "fromb" {
					ok = st.linEq(x.A.args[0], w) && x.A.aux == fmt.Sprint(8*size)
					got = layout(x.A.args[0], int(size), p0)
				}
			}
			if !ok {
				e.violate("enc", "value|"+label+"|"+got, fmt.Sprintf("returns %s = bytes [%s], expected %s", trunc(showVal(o.rets[0]), 200), got, trunc(want, 200)), site, st)
			}
		}
	}
}

// layout shows a value as the list of stream bytes it is composed of.
func layout(l *Lin, size int, p0 *Lin) string {
	var r []string
	ch := bitsOf(l, size*8)
	if ch == nil {
		return "?"
	}
	for i := 0; i < size; i++ {
		b := fromBits(takeBits(ch, 8*i, 8), u8)
		s := "?"
		if b.isConst() {
			s = b.String()
		} else if a := b.singleAtom(); a != nil && a.kind == "sb" {
			s = "b" + a.args[0].sub(p0).String()
		}
		r = append(r, s)
	}
	return strings.Join(r, ",")
}

func isEOF(v Val) bool {
	e, ok := v.(ErrV)
	return ok && e.E.kind == "global" && e.E.name == "io.EOF"
}

func init() {
	checks["C11"] = &checkDef{
		explain: "Every PropWriter.Write* and PropReader.Read* method is interpreted abstractly over its SSA form once, with a symbolic value (all inputs at once); bytes are tracked as bit ranges of the value, so each written byte must be the right eight bits and each decoded value must be composed of exactly the right stream bytes, on every path.",
		assume:  []string{"io.Writer.Write accepts all bytes or returns an error; io.Reader.Read returns 0 <= n <= len(p) (their documented contracts)", "strings and slices are shorter than 2^48 bytes", "64-bit int"},
		run: func(ld *Loaded, r *Result) {
			e := newEngine(ld)
			e.initGlobals()
			encodeChecks(ld, r, e)
			r.take(e, "enc")
			r.addCoverage(e)
			r.need("byte obligation", 40)
			r.need("value obligation", 13)
			r.need("method outcome", 60)
		},
	}
}
