package main

// C12: PropReader.ReadSchema.

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// the FlatGeobuf column types and the property method each is decoded with
var columnTypes = []struct {
	name   string
	method string
	T      types.Type
}{
	{"Byte", "Byte", types.Typ[types.Int8]}, {"UByte", "UByte", types.Typ[types.Uint8]}, {"Bool", "Bool", boolT},
	{"Short", "Short", types.Typ[types.Int16]}, {"UShort", "UShort", types.Typ[types.Uint16]},
	{"Int", "Int", types.Typ[types.Int32]}, {"UInt", "UInt", types.Typ[types.Uint32]},
	{"Long", "Long", types.Typ[types.Int64]}, {"ULong", "ULong", types.Typ[types.Uint64]},
	{"Float", "Float", types.Typ[types.Float32]}, {"Double", "Double", types.Typ[types.Float64]},
	{"String", "String", types.Typ[types.String]}, {"Json", "Binary", types.NewSlice(types.Typ[types.Uint8])},
	{"DateTime", "String", types.Typ[types.String]}, {"Binary", "Binary", types.NewSlice(types.Typ[types.Uint8])},
}

func gInt(st *State, k string) int64 {
	if v, ok := st.ghost[k].(IntV); ok && v.L.isConst() {
		return v.L.c.Int64()
	}
	return 0
}
func gSet(st *State, k string, v int64) { st.ghost[k] = IntV{linC(v), false} }
func gLin(st *State, k string, d *Lin) *Lin {
	if v, ok := st.ghost[k].(IntV); ok {
		return v.L
	}
	return d
}

// findSlices collects slices with element type elem reachable from env.
func findSlices(st *State, env []Val, elem types.Type) (r []SliceV) {
	seen := map[int]bool{}
	var visit func(v Val, d int)
	visit = func(v Val, d int) {
		if d > 8 {
			return
		}
		switch v := v.(type) {
		case SliceV:
			if v.Obj != 0 && v.View == 0 {
				if a, ok := st.loadPath(st.obj(v.Obj).val, v.Path).(*Arr); ok && types.Identical(a.Elem, elem) {
					r = append(r, v)
				}
			}
		case PtrV:
			if o, ok := st.heap[v.Obj]; ok && !seen[v.Obj] {
				seen[v.Obj] = true
				visit(o.val, d+1)
			}
		case StructV:
			for _, f := range v.F {
				visit(f, d+1)
			}
		case FuncV:
			for _, f := range v.B {
				visit(f, d+1)
			}
		case TupV:
			for _, f := range v {
				visit(f, d+1)
			}
		}
	}
	for _, v := range env {
		visit(v, 0)
	}
	return
}

type schemaCheck struct {
	ld   *Loaded
	e    *Engine
	recv Val
	id   string
	T    types.Type // PropValue
	site string
}

func (s *schemaCheck) bad(st *State, key, msg string) {
	s.e.violate("schema", key+"|ReadSchema", msg, s.site, st)
}

func (s *schemaCheck) ev(st *State, ev *Event) {
	switch ev.Kind {
	case "make":
		s.e.sites["allocation obligation"]++
		max := big.NewInt(1 << 17)
		if ev.Name == "byte" || ev.Name == "uint8" {
			max = new(big.Int).Add(pow2(32), big.NewInt(64))
		}
		if !st.facts.entailsLE(ev.N.sub(linB(max))) {
			s.e.violate("alloc", "alloc|ReadSchema", fmt.Sprintf("ReadSchema allocates %s elements of %s, for which a corrupt schema may give any size", trunc(ev.N.String(), 100), ev.Name), ev.Site, st)
		}
	case "read":
		st.ghost["clean"] = BoolV{bform(false)}
		switch {
		case ev.Outcome == "ok":
			if gInt(st, "phase") == 0 {
				if !ev.Want.isConstI(2) {
					s.bad(st, "index", "a property does not start with reading its 2-byte column index")
				}
				gSet(st, "phase", 1)
				ch := bitsOf(linA(streamByte("in", ev.Pos)), 8)
				ch = append(ch, bitsOf(linA(streamByte("in", ev.Pos.addC(1))), 8)...)
				st.ghost["col"] = IntV{fromBits(ch, intType{16, false}), true}
				st.ghost["valpos"] = IntV{ev.Pos.addC(2), true}
			}
		case ev.Outcome == "eof" && gInt(st, "phase") == 0:
			st.ghost["clean"] = BoolV{bform(true)}
		default:
			st.ghost["ioerr"] = ev.Err
		}
	case "table":
		if ev.Name == "Schema.Columns" && len(ev.Args) == 3 {
			st.ghost["lastcol"] = s.e.loadFrom(st, ev.Args[0].(PtrV))
			st.ghost["lastidx"] = ev.Args[2]
		}
	}
}

// complete checks the element that was just added.
func (s *schemaCheck) complete(st *State, sl SliceV, n *Lin) {
	e := s.e
	e.sites["property element"]++
	arr := lazyArr(st, sl)
	el, ok := st.arrLoad(arr, sl.Off.add(n)).(StructV)
	if !ok {
		s.bad(st, "element", "appended element not determined")
		return
	}
	get := func(f string) Val {
		i := fieldIndex(s.T, f)
		if i < 0 {
			return nil
		}
		return el.F[i]
	}
	col := gLin(st, "col", nil)
	if ci, ok := get("ColIndex").(IntV); !ok || col == nil || !st.linEq(ci.L, col) {
		s.bad(st, "ColIndex", "ColIndex of the appended property is not the column index that was read")
		return
	}
	li, ok := st.ghost["lastidx"].(IntV)
	if !ok || !st.linEq(li.L, col) {
		s.bad(st, "column", "the column looked up in the schema is not the one whose index was read")
		return
	}
	tab := st.ghost["lastcol"]
	if !st.valEq(get("Col"), tab) {
		s.bad(st, "Col", "Col of the appended property is not the schema column that was read")
		return
	}
	ncols := linA(mkAtom("in", "Schema.ColumnsLength("+s.id+")", big0, linB(pow2(32)).addC(-1).c))
	if !st.facts.entailsLE(col.sub(ncols).addC(1)) {
		s.bad(st, "range", "a column index outside the schema is accepted")
	}
	it, _ := intTypeOf(s.T.Underlying().(*types.Struct).Field(fieldIndex(s.T, "Type")).Type())
	lo, hi := it.rng()
	key := ""
	if t, ok := tab.(StructV); ok && len(t.F) == 1 {
		key = tableKey(t.F[0])
	}
	ta := mkAtom("in", "Column.Type("+key+")", lo, hi)
	typ := linA(ta)
	if ti, ok := get("Type").(IntV); !ok || !st.linEq(ti.L, typ) {
		s.bad(st, "Type", "Type of the appended property is not the column's type")
		return
	}
	if !st.facts.entailsLE(typ.addC(-int64(len(columnTypes))).addC(1)) {
		s.bad(st, "unknown", "an unknown column type is accepted")
	}
	valpos := gLin(st, "valpos", nil)
	for i, ct := range columnTypes {
		c := st.clone()
		f := eqForm(typ.addC(int64(-i)))
		if v, known := c.formVal(f); known && !v {
			continue
		}
		c.assume(f)
		e.sites["column type case"]++
		e.sites["case "+ct.name]++
		iv, ok := get("Value").(IfaceV)
		if !ok || !types.Identical(iv.T, ct.T) {
			s.bad(st, "dynamic|"+ct.name, fmt.Sprintf("a %s column is decoded as %s, expected %s", ct.name, showDyn(get("Value")), ct.T))
			continue
		}
		// compare with the type's decoder applied to the same position
		fn := s.ld.method(fgbPath, "PropReader", "Read"+ct.method)
		if fn == nil {
			s.bad(st, "decoder|"+ct.name, "decoder Read"+ct.method+" not found")
			continue
		}
		ev, sy := e.ev, e.sync
		e.ev, e.sync = nil, nil
		end := e.cursor(c, "in")
		c.ghost["pos:in"] = IntV{valpos, true}
		sub := c
		outs := e.execFunc(fn, []Val{s.recv}, nil, sub, 1, false)
		e.ev, e.sync = ev, sy
		found := false
		for _, o := range outs {
			if o.pan != nil || errState(o.st, o.rets[1]) != 0 {
				continue
			}
			if !o.st.facts.entailsEQ(e.cursor(o.st, "in").sub(end)) {
				continue
			}
			if sameValue(e, o.st, iv.V, o.rets[0]) {
				found = true
			}
		}
		if !found {
			s.bad(st, "value|"+ct.name, "a "+ct.name+" column's value is not what the decoder of that type yields for the bytes after the column index")
		}
	}
}

func showDyn(v Val) string {
	if i, ok := v.(IfaceV); ok {
		return i.T.String()
	}
	return showVal(v)
}

// sameValue compares two decoded values, strings and slices by contents.
func sameValue(e *Engine, st *State, a, b Val) bool {
	acc := func(v Val) (n *Lin, at func(k *Lin) Val) {
		switch x := v.(type) {
		case StrV:
			if x.Known && x.S == "" {
				return linZero, func(k *Lin) Val { return nil }
			}
			if x.Known {
				return nil, nil
			}
			return x.Len, func(k *Lin) Val { return e.strByte(st, x, k) }
		case SliceV:
			if x.Obj == 0 {
				return linZero, func(k *Lin) Val { return nil }
			}
			arr := lazyArr(st, x)
			return x.Len, func(k *Lin) Val { return st.arrLoad(arr, x.Off.add(k)) }
		}
		return nil, nil
	}
	na, aa := acc(a)
	nb, ab := acc(b)
	if na == nil || nb == nil {
		return st.valEq(a, b)
	}
	if !st.facts.entailsEQ(na.sub(nb)) {
		return false
	}
	if st.facts.entailsLE(na) {
		return true
	}
	st = st.clone()
	k := linA(freshAtom("k", big0, lenHi))
	st.assume(leForm(k.sub(na).addC(1)))
	x, ok1 := aa(k).(IntV)
	y, ok2 := ab(k).(IntV)
	return ok1 && ok2 && st.linEq(x.L, y.L)
}

func (s *schemaCheck) sync(st *State, env []Val) {
	if gInt(st, "phase") != 1 {
		return
	}
	n := gLin(st, "n", linZero)
	for _, sl := range findSlices(st, env, s.T) {
		if st.facts.entailsEQ(sl.Len.sub(n).addC(-1)) {
			s.complete(st, sl, n)
			if a, ok := st.obj(sl.Obj).val.(*Arr); ok && len(sl.Path) == 0 {
				// checked elements are not looked at again
				st.setObj(sl.Obj, &Arr{Elem: a.Elem, N: a.N, Ver: "checked"})
			}
			st.ghost["n"] = IntV{n.addC(1), true}
			gSet(st, "phase", 0)
			delete(st.ghost, "col")
			delete(st.ghost, "valpos")
			delete(st.ghost, "lastcol")
			delete(st.ghost, "lastidx")
			return
		}
	}
}

func schemaChecks(ld *Loaded, e *Engine) {
	fn := ld.method(fgbPath, "PropReader", "ReadSchema")
	ctor := ld.fn(fgbPath, "NewPropReader")
	if fn == nil || ctor == nil {
		e.violate("schema", "missing|ReadSchema", "ReadSchema or NewPropReader not found", "", nil)
		return
	}
	in := e.newStream("in", map[string]*Atom{"Read": nil})
	recv, st := e.newObjVia(nil, e.entry(), ctor, in)
	st.ghost = map[string]Val{}
	schemaT := fn.Signature.Params().At(0).Type()
	schema := OpqV{T: schemaT, A: mkAtom("in", "schema", nil, nil)}
	resT := fn.Signature.Results().At(0).Type().Underlying().(*types.Slice).Elem()
	s := &schemaCheck{ld: ld, e: e, recv: recv, id: valKey(schema), T: resT, site: ld.position(fn.Pos(), nil)}
	e.ev, e.sync = s.ev, s.sync
	gSet(st, "phase", 0)
	st.ghost["n"] = IntV{linZero, true}
	st.ghost["clean"] = BoolV{bform(false)}
	defer func() { e.ev, e.sync = nil, nil }()
	for _, o := range e.callEntry(fn, st, recv, schema) {
		e.sites["ReadSchema outcome"]++
		if o.pan != nil {
			tag := "bounds"
			if o.pan.kind == "flat" {
				tag = "flat"
			}
			e.violate(tag, "panic|ReadSchema", "ReadSchema panics: "+o.pan.msg, o.pan.site, o.st)
			continue
		}
		es := errState(o.st, o.rets[1])
		if es == 1 {
			if isEOF(o.rets[1]) {
				e.violate("trunc", "eof|ReadSchema", "ReadSchema returns io.EOF", s.site, o.st)
			}
			continue
		}
		if es != 0 {
			e.violate("schema", "unknown|ReadSchema", "error result of ReadSchema not determined", s.site, o.st)
			continue
		}
		e.sites["ReadSchema success"]++
		if _, failed := o.st.ghost["ioerr"]; failed {
			e.violate("io", "swallow|ReadSchema", "ReadSchema reports success although a read failed", s.site, o.st)
			e.violate("trunc", "swallow|ReadSchema", "ReadSchema reports success although the data ended within a property", s.site, o.st)
			e.violate("schema", "swallow|ReadSchema", "ReadSchema drops the error of a value decoder", s.site, o.st)
			continue
		}
		if gInt(o.st, "phase") == 1 {
			// the last property may have been added just before returning
			s.sync(o.st, o.rets[:1])
		}
		if gInt(o.st, "phase") == 1 {
			s.bad(o.st, "lost", "ReadSchema returns success without adding a property it read")
		}
		if b, ok := o.st.ghost["clean"].(BoolV); !ok || b.F.k != 'T' {
			s.bad(o.st, "early", "ReadSchema returns success before the end of the data")
			e.violate("trunc", "early|ReadSchema", "ReadSchema returns success before the end of the data", s.site, o.st)
		}
		sl, ok := o.rets[0].(SliceV)
		n := gLin(o.st, "n", linZero)
		ln := linZero
		if ok && sl.Obj != 0 {
			ln = sl.Len
		}
		if !o.st.facts.entailsEQ(ln.sub(n)) {
			s.bad(o.st, "count", fmt.Sprintf("ReadSchema returns %s properties after reading %s", ln, n))
		}
	}
}

func init() {
	checks["C12"] = &checkDef{
		explain: "ReadSchema is interpreted abstractly for every schema and every property stream; its loop is solved by a fixpoint. At each point where an element has been added, its index, column and type must be the ones read, and for every column type that the path conditions admit the dynamic type, the consumed bytes and the value must be those of that type's decoder; a success return must follow a clean end of the stream and return one element per property read.",
		assume:  []string{"io.Reader.Read follows its documented contract", "a Schema returns the same column for the same index during the call"},
		run: func(ld *Loaded, r *Result) {
			e := newEngine(ld)
			e.initGlobals()
			schemaChecks(ld, e)
			r.take(e, "schema")
			r.addCoverage(e)
			r.need("property element", 1)
			for _, ct := range columnTypes {
				r.need("case "+ct.name, 1)
			}
			r.need("ReadSchema success", 1)
		},
	}
}

var _ *ssa.Function
var _ = sort.Strings

// gVal is a ghost value, nil if it was never set.
func gVal(st *State, k string) Val {
	if v, ok := st.ghost[k]; ok {
		return v
	}
	return NilV{}
}
