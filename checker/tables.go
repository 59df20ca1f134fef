package main

// C20: the generated table code against the FlatGeobuf 3 schema. Every
// accessor, mutator and builder function is interpreted over a model of the
// FlatBuffers runtime in which a table read is a term (operation, arguments).

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type fbField struct {
	name string
	kind string // string, bool, u8, u16, u32, u64, i32, f64, enum:<T>, table:<T>, [u8] [u32] [u64] [f64] [table:<T>]
	def  int64
}
type fbTable struct {
	name   string
	fields []fbField
}

// header.fbs and feature.fbs of FlatGeobuf 3.
var fgbSchema = []fbTable{
	{"Header", []fbField{{"Name", "string", 0}, {"Envelope", "[f64]", 0}, {"GeometryType", "enum:GeometryType", 0}, {"HasZ", "bool", 0}, {"HasM", "bool", 0},
		{"HasT", "bool", 0}, {"HasTm", "bool", 0}, {"Columns", "[table:Column]", 0}, {"FeaturesCount", "u64", 0}, {"IndexNodeSize", "u16", 16},
		{"Crs", "table:Crs", 0}, {"Title", "string", 0}, {"Description", "string", 0}, {"Metadata", "string", 0}}},
	{"Column", []fbField{{"Name", "string", 0}, {"Type", "enum:ColumnType", 0}, {"Title", "string", 0}, {"Description", "string", 0}, {"Width", "i32", -1},
		{"Precision", "i32", -1}, {"Scale", "i32", -1}, {"Nullable", "bool", 1}, {"Unique", "bool", 0}, {"PrimaryKey", "bool", 0}, {"Metadata", "string", 0}}},
	{"Crs", []fbField{{"Org", "string", 0}, {"Code", "i32", 0}, {"Name", "string", 0}, {"Description", "string", 0}, {"Wkt", "string", 0}, {"CodeString", "string", 0}}},
	{"Feature", []fbField{{"Geometry", "table:Geometry", 0}, {"Properties", "[u8]", 0}, {"Columns", "[table:Column]", 0}}},
	{"Geometry", []fbField{{"Ends", "[u32]", 0}, {"Xy", "[f64]", 0}, {"Z", "[f64]", 0}, {"M", "[f64]", 0}, {"T", "[f64]", 0}, {"Tm", "[u64]", 0},
		{"Type", "enum:GeometryType", 0}, {"Parts", "[table:Geometry]", 0}}},
}

func init() {
	checks["C20"] = &checkDef{run: checkTables,
		explain: "For every field of the five tables, the accessor, vector accessors, mutator and builder functions are interpreted over a model of the FlatBuffers runtime (each table read is a term: operation and operands). The resulting terms, for the field present and absent, are compared with those the FlatGeobuf 3 schema (embedded in the checker) prescribes: vtable slot, element size, value type, default.",
		assume:  []string{"FlatBuffers buffers are smaller than 2^30 bytes and vector indexes smaller than 2^20 (no wrap of 32-bit offsets).", "The flatbuffers runtime implements its documented operations."}}
}

var fbKinds = map[string]types.Type{"bool": types.Typ[types.Bool], "u8": types.Typ[types.Uint8], "u16": types.Typ[types.Uint16], "u32": types.Typ[types.Uint32], "u64": types.Typ[types.Uint64],
	"i8": types.Typ[types.Int8], "i16": types.Typ[types.Int16], "i32": types.Typ[types.Int32], "i64": types.Typ[types.Int64], "f32": types.Typ[types.Float32], "f64": types.Typ[types.Float64]}
var fbNames = map[string]string{"Bool": "bool", "Byte": "u8", "Uint8": "u8", "Uint16": "u16", "Uint32": "u32", "Uint64": "u64", "Int8": "i8", "Int16": "i16", "Int32": "i32", "Int64": "i64",
	"Float32": "f32", "Float64": "f64", "UOffsetT": "u32", "VOffsetT": "u16", "SOffsetT": "i32"}
var fbSizes = map[string]int64{"u8": 1, "u32": 4, "u64": 8, "f64": 8, "table": 4}

var fbOffHi = new(big.Int).Sub(pow2(30), big1)

func fbAtom(op, tk string, hi *big.Int, args ...*Lin) IntV {
	return IntV{linA(mkAtom("in", "fb."+op+"@"+tk, big0, hi, args...)), true}
}
func fbGet(kind, tk string, pos *Lin) Val {
	return symVal(fbKinds[kind], "fb.get."+kind+"@"+tk, []*Lin{pos})
}
func fbOff(tk string, slot *Lin) IntV {
	return fbAtom("off", tk, bigI(65535), slot)
}
func fbVec(tk string, o *Lin) IntV { return fbAtom("vec", tk, fbOffHi, o) }
func fbInd(tk string, o *Lin) IntV { return fbAtom("ind", tk, fbOffHi, o) }
func fbLen(tk string, o *Lin) IntV { return fbAtom("veclen", tk, fbOffHi, o) }
func fbBytes(tk string, o *Lin) Val {
	return symVal(types.NewSlice(byteT), "fb.bytes@"+tk, []*Lin{o})
}
func fbU32(buf Val, off *Lin) IntV {
	return fbAtom("u32", valKey(buf), fbOffHi, off)
}

// fbTableModel models a method of flatbuffers.Table.
func fbTableModel(e *Engine, c *callCtx) []Out {
	name := c.fn.Name()
	p, ok := c.args[0].(PtrV)
	if !ok {
		panic(undecided("flatbuffers table method on " + fmt.Sprintf("%T", c.args[0])))
	}
	tab, ok := e.loadFrom(c.st, p).(StructV)
	if !ok {
		panic(undecided("flatbuffers table value"))
	}
	tk := tableKey(tab)
	pos, ok := tab.F[1].(IntV)
	if !ok {
		panic(undecided("flatbuffers table position"))
	}
	l := func(i int) *Lin {
		v, ok := c.args[i].(IntV)
		if !ok {
			panic(undecided("operand of flatbuffers " + name))
		}
		return v.L
	}
	e.sites["runtime operation"]++
	slotCase := func(slot *Lin, absent, present func(st *State, at *Lin) []Out) []Out {
		o := fbOff(tk, slot)
		z, nz := e.split(c.st, eqForm(o.L))
		var r []Out
		if z != nil {
			r = append(r, absent(z, nil)...)
		}
		if nz != nil {
			r = append(r, present(nz, pos.L.add(o.L))...)
		}
		return r
	}
	mutate := func(st *State, kind string, at *Lin, v Val) []Out {
		e.emit(st, &Event{Kind: "mutate", Name: kind, Args: []Val{IntV{at, true}, v, StrV{Known: true, S: tk, Len: linC(int64(len(tk)))}}, Site: e.pos(c.site)})
		return one(st, BoolV{bform(true)})
	}
	switch {
	case name == "Offset":
		return one(c.st, fbOff(tk, l(1)))
	case name == "Indirect":
		return one(c.st, fbInd(tk, l(1)))
	case name == "Vector":
		return one(c.st, fbVec(tk, l(1)))
	case name == "VectorLen":
		return one(c.st, fbLen(tk, l(1)))
	case name == "ByteVector":
		return one(c.st, fbBytes(tk, l(1)))
	case strings.HasPrefix(name, "Get") && strings.HasSuffix(name, "Slot"):
		k := fbNames[name[3:len(name)-4]]
		if k != "" {
			return slotCase(l(1), func(st *State, _ *Lin) []Out { return one(st, c.args[2]) }, func(st *State, at *Lin) []Out { return one(st, fbGet(k, tk, at)) })
		}
	case strings.HasPrefix(name, "Get"):
		if k := fbNames[name[3:]]; k != "" {
			return one(c.st, fbGet(k, tk, l(1)))
		}
	case strings.HasPrefix(name, "Mutate") && strings.HasSuffix(name, "Slot"):
		if k := fbNames[name[6:len(name)-4]]; k != "" {
			return slotCase(l(1), func(st *State, _ *Lin) []Out { return one(st, BoolV{bform(false)}) }, func(st *State, at *Lin) []Out { return mutate(st, k, at, c.args[2]) })
		}
	case strings.HasPrefix(name, "Mutate"):
		if k := fbNames[name[6:]]; k != "" {
			return mutate(c.st, k, l(1), c.args[2])
		}
	}
	panic(undecided("flatbuffers operation Table." + name + " at " + e.pos(c.site)))
}

func fbBuilderModel(e *Engine, c *callCtx) []Out {
	e.sites["runtime operation"]++
	e.emit(c.st, &Event{Kind: "build", Name: c.fn.Name(), Args: c.args, Site: e.pos(c.site)})
	res := c.fn.Signature.Results()
	if res.Len() == 0 {
		return []Out{{st: c.st}}
	}
	return one(c.st, symVal(res.At(0).Type(), "fb.build."+c.fn.Name(), nil))
}

func fbFuncModel(e *Engine, c *callCtx) []Out {
	switch n := c.fn.Name(); n {
	case "GetUOffsetT", "GetUint32":
		s, ok := c.args[0].(SliceV)
		if !ok {
			panic(undecided("operand of " + n))
		}
		base := s
		base.Off, base.Len, base.Cap = linZero, linZero, linZero
		return one(c.st, fbU32(base, s.Off))
	}
	return nil
}

func checkTables(ld *Loaded, r *Result) {
	e := newEngine(ld)
	e.prefixModels = []prefixModel{
		{"(*" + fbPath + ".Table).", fbTableModel}, {"(*" + fbPath + ".Builder).", fbBuilderModel}, {fbPath + ".Get", fbFuncModel}}
	e.initGlobals()
	var evs []*Event
	e.ev = func(st *State, ev *Event) {
		if ev.Kind == "mutate" || ev.Kind == "build" {
			n := len(evs)
			evs = append(evs, ev)
			g, _ := st.ghost["fbev"].(StrV)
			st.ghost["fbev"] = StrV{Known: true, S: g.S + fmt.Sprintf("%d ", n), Len: linZero}
		}
	}
	e.storeHook = func(st *State, p PtrV, old, v Val, site string) {
		o := st.obj(p.Obj)
		if !o.fresh {
			g, _ := st.ghost["fbst"].(StrV)
			st.ghost["fbst"] = StrV{Known: true, S: g.S + fmt.Sprintf("%d%s ", p.Obj, pathKey(p.Path)), Len: linZero}
		}
	}
	eventsOf := func(st *State) (r []*Event) {
		g, _ := st.ghost["fbev"].(StrV)
		for _, f := range strings.Fields(g.S) {
			n := 0
			fmt.Sscan(f, &n)
			r = append(r, evs[n])
		}
		return
	}
	storesOf := func(st *State) string {
		g, _ := st.ghost["fbst"].(StrV)
		return g.S
	}
	mkTable := func(T types.Type, name string, hiPos *big.Int) StructV {
		b := symVal(types.NewSlice(byteT), name+".buf", nil)
		return StructV{[]Val{StructV{[]Val{b, IntV{linA(mkAtom("in", name+".pos", big0, hiPos)), true}}}}}
	}
	posHi := new(big.Int).Sub(pow2(29), big1)
	jAtom := mkAtom("in", "j", big0, bigI(1<<20))
	j := IntV{linA(jAtom), true}
	builderT := types.Type(nil)
	if p := ld.prog.ImportedPackage(fbPath); p != nil {
		if b := p.Type("Builder"); b != nil {
			builderT = types.NewPointer(b.Type())
		}
	}
	if builderT == nil {
		r.violate("anchor|flatbuffers", "", "package "+fbPath+" not found")
		return
	}
	for _, tb := range fgbSchema {
		tb := tb
		obj := ld.byPath[flatPath].Types.Scope().Lookup(tb.name)
		if obj == nil {
			r.violate("anchor|"+tb.name, "", "table type "+tb.name+" not found")
			continue
		}
		T := obj.Type()
		if st, ok := T.Underlying().(*types.Struct); !ok || st.NumFields() != 1 {
			r.violate("anchor|"+tb.name, "", "table type "+tb.name+" is not a wrapper of flatbuffers.Table")
			continue
		}
		typeNamed := func(n string) types.Type {
			if o := ld.byPath[flatPath].Types.Scope().Lookup(n); o != nil {
				return o.Type()
			}
			return types.Typ[types.Invalid]
		}
		// run calls a function or method and checks every outcome
		run := func(fname string, method bool, mk func(st *State, self PtrV) []Val, chk func(o Out, self StructV) string, rets ...types.Type) {
			what := tb.name + "." + fname
			if !method {
				what = fname
			}
			guard(r, what, func() {
				var fn *ssa.Function
				if method {
					fn = ld.method(flatPath, tb.name, fname)
				} else {
					fn = ld.fn(flatPath, fname)
				}
				if fn == nil {
					r.violate("anchor|"+what, "", what+" not found")
					return
				}
				res := fn.Signature.Results()
				if rets != nil {
					ok := res.Len() == len(rets)
					for i := 0; ok && i < res.Len(); i++ {
						ok = types.Identical(res.At(i).Type(), rets[i])
					}
					if !ok {
						r.violate("type|"+what, ld.position(fn.Pos(), nil), fmt.Sprintf("%s returns %s, the schema requires %s", what, res, rets[0]))
						return
					}
				}
				st := e.entry()
				self := mkTable(T, "self", posHi)
				sp := PtrV{Obj: st.alloc(T, self, "param", "receiver")}
				st.heap[sp.Obj].fresh = false
				args := mk(st, sp)
				if method {
					args = append([]Val{sp}, args...)
				}
				if len(args) != len(fn.Params) {
					r.violate("type|"+what, ld.position(fn.Pos(), nil), what+" has an unexpected parameter list")
					return
				}
				outs := e.callEntry(fn, st, args...)
				r.count("functions compared", 1)
				for _, o := range outs {
					r.count("outcomes compared", 1)
					if o.pan != nil {
						r.violate("panic|"+what, o.pan.site, what+" panics: "+o.pan.msg, o.st.traceLines(20)...)
						continue
					}
					if m := chk(o, self.F[0].(StructV)); m != "" {
						r.violate("schema|"+what, ld.position(fn.Pos(), nil), what+": "+m, o.st.traceLines(20)...)
					}
				}
				if len(outs) == 0 {
					r.violate("schema|"+what, ld.position(fn.Pos(), nil), what+" has no outcome")
				}
			})
		}
		noEv := func(o Out) string {
			if len(eventsOf(o.st)) > 0 || storesOf(o.st) != "" {
				return "has a side effect"
			}
			return ""
		}
		none := func(st *State, self PtrV) []Val { return nil }
		eq := func(o Out, got, want Val, what string) string {
			if o.st.valEq(got, want) {
				return ""
			}
			return fmt.Sprintf("%s is %s, the schema prescribes %s", what, trunc(showVal(got), 160), trunc(showVal(want), 160))
		}
		// both checks the outcome with the field absent and present
		both := func(slot int, o Out, self StructV, absent, present func(o Out, at *Lin, tk string) string) string {
			tk := tableKey(self)
			off := fbOff(tk, linC(int64(4+2*slot)))
			z, nz := e.split(o.st.clone(), eqForm(off.L))
			if z != nil {
				if m := absent(Out{st: z, rets: o.rets}, nil, tk); m != "" {
					return fmt.Sprintf("field absent (vtable slot %d): %s", 4+2*slot, m)
				}
			}
			if nz != nil {
				if m := present(Out{st: nz, rets: o.rets}, off.L, tk); m != "" {
					return fmt.Sprintf("field present (vtable slot %d): %s", 4+2*slot, m)
				}
			}
			return ""
		}
		constOf := func(kind string, d int64) Val {
			switch kind {
			case "bool":
				return BoolV{bform(d != 0)}
			case "f64":
				return FloatV{fconst(constant.MakeInt64(d), 64)}
			}
			return IntV{linC(d), false}
		}
		nilSlice := SliceV{Off: linZero, Len: linZero, Cap: linZero}
		selfPos := func(self StructV) *Lin { return self.F[1].(IntV).L }
		builder := func() Val { return symVal(builderT, "builder", nil) }
		// one builder call with the given operands
		oneBuild := func(o Out, names []string, want ...Val) string {
			ev := eventsOf(o.st)
			if len(ev) != 1 {
				return fmt.Sprintf("makes %d builder calls, expected one", len(ev))
			}
			ok := false
			for _, n := range names {
				ok = ok || n == ev[0].Name
			}
			if !ok {
				return fmt.Sprintf("calls Builder.%s, expected %s", ev[0].Name, names[0])
			}
			if !o.st.valEq(ev[0].Args[0], builder()) {
				return "uses another builder"
			}
			for i, w := range want {
				if !o.st.valEq(ev[0].Args[i+1], w) {
					return fmt.Sprintf("operand %d of Builder.%s is %s, the schema prescribes %s", i+1, ev[0].Name, trunc(showVal(ev[0].Args[i+1]), 100), trunc(showVal(w), 100))
				}
			}
			return ""
		}
		ret0 := func(o Out, name string) string {
			if len(o.rets) != 1 {
				return "returns nothing"
			}
			u := ld.prog.ImportedPackage(fbPath).Type("UOffsetT").Type()
			return eq(o, o.rets[0], symVal(u, "fb.build."+name, nil), "the result")
		}

		// table level functions
		buf := SliceV{}
		mkBuf := func(st *State) SliceV {
			b := symVal(types.NewSlice(byteT), "buf", nil).(SliceV)
			n := linA(mkAtom("len", "bigbuf", bigI(1<<28), lenHi))
			b.Len, b.Cap = n, n
			buf = b
			return b
		}
		offA := IntV{linA(mkAtom("in", "rootoffset", big0, bigI(1<<27))), true}
		for pi, pre := range []string{"GetRootAs", "GetSizePrefixedRootAs"} {
			pi := pi
			run(pre+tb.name, false, func(st *State, _ PtrV) []Val { return []Val{mkBuf(st), offA} }, func(o Out, _ StructV) string {
				p, ok := o.rets[0].(PtrV)
				if !ok || len(p.Path) != 0 || !o.st.obj(p.Obj).fresh {
					return "does not return a new table"
				}
				base := buf
				base.Off, base.Len, base.Cap = linZero, linZero, linZero
				at := offA.L.addC(int64(4 * pi))
				want := StructV{[]Val{StructV{[]Val{buf, IntV{fbU32(base, at).L.add(at), true}}}}}
				return eq(o, e.loadFrom(o.st, p), want, "the table")
			}, types.NewPointer(T))
		}
		run("Init", true, func(st *State, _ PtrV) []Val { return []Val{mkBuf(st), offA} }, func(o Out, _ StructV) string {
			want := StructV{[]Val{StructV{[]Val{buf, offA}}}}
			for id, ob := range o.st.heap {
				if ob.tag == "param" && ob.site == "receiver" {
					return eq(o, e.loadFrom(o.st, PtrV{Obj: id}), want, "the receiver")
				}
			}
			return "receiver lost"
		})
		run("Table", true, none, func(o Out, self StructV) string {
			if m := noEv(o); m != "" {
				return m
			}
			return eq(o, o.rets[0], self, "the result")
		})
		uoff := IntV{linA(mkAtom("in", "uoff", big0, fbOffHi)), true}
		numE := IntV{linA(mkAtom("in", "numElems", big0, fbOffHi)), true}
		run("Finish"+tb.name+"Buffer", false, func(*State, PtrV) []Val { return []Val{builder(), uoff} }, func(o Out, _ StructV) string {
			return oneBuild(o, []string{"Finish"}, uoff)
		})
		run("FinishSizePrefixed"+tb.name+"Buffer", false, func(*State, PtrV) []Val { return []Val{builder(), uoff} }, func(o Out, _ StructV) string {
			return oneBuild(o, []string{"FinishSizePrefixed"}, uoff)
		})
		run(tb.name+"Start", false, func(*State, PtrV) []Val { return []Val{builder()} }, func(o Out, _ StructV) string {
			return oneBuild(o, []string{"StartObject"}, IntV{linC(int64(len(tb.fields))), false})
		})
		run(tb.name+"End", false, func(*State, PtrV) []Val { return []Val{builder()} }, func(o Out, _ StructV) string {
			if m := oneBuild(o, []string{"EndObject"}); m != "" {
				return m
			}
			return ret0(o, "EndObject")
		})

		for slot, f := range tb.fields {
			slot, f := slot, f
			kind, elem := f.kind, ""
			vec := strings.HasPrefix(kind, "[")
			if vec {
				kind = kind[1 : len(kind)-1]
			}
			if i := strings.IndexByte(kind, ':'); i >= 0 {
				kind, elem = kind[:i], kind[i+1:]
			}
			var goT types.Type
			switch kind {
			case "string":
				goT = types.NewSlice(byteT)
			case "enum":
				goT = typeNamed(elem)
				kind = "u8"
			case "table":
				goT = typeNamed(elem)
			default:
				goT = fbKinds[kind]
			}
			n := IntV{linA(mkAtom("in", "n", big0, new(big.Int).Sub(pow2(7), big1))), true}
			var nv Val = n
			if kind == "bool" {
				nv = BoolV{Form{k: 'a', a: mkAtom("in", "nb", nil, nil)}}
			} else if kind == "f64" {
				nv = FloatV{mkAtom("in", "nf", nil, nil)}
			}
			mutChk := func(at func(self StructV, off *Lin, tk string) *Lin) func(o Out, self StructV) string {
				return func(o Out, self StructV) string {
					return both(slot, o, self, func(o Out, _ *Lin, tk string) string {
						if m := noEv(o); m != "" {
							return m
						}
						return eq(o, o.rets[0], BoolV{bform(false)}, "the result")
					}, func(o Out, off *Lin, tk string) string {
						ev := eventsOf(o.st)
						if len(ev) != 1 || ev[0].Kind != "mutate" || ev[0].Args[2].(StrV).S != tk {
							return fmt.Sprintf("%d table writes, expected one", len(ev))
						}
						if ev[0].Name != kind {
							return fmt.Sprintf("writes a value of type %s, the schema prescribes %s", ev[0].Name, kind)
						}
						if m := eq(o, ev[0].Args[0], IntV{at(self, off, tk), true}, "the position written"); m != "" {
							return m
						}
						if m := eq(o, ev[0].Args[1], nv, "the value written"); m != "" {
							return m
						}
						return eq(o, o.rets[0], BoolV{bform(true)}, "the result")
					})
				}
			}
			lenAcc := func() {
				run(f.name+"Length", true, none, func(o Out, self StructV) string {
					if m := noEv(o); m != "" {
						return m
					}
					return both(slot, o, self, func(o Out, _ *Lin, tk string) string {
						return eq(o, o.rets[0], IntV{linZero, false}, "the result")
					}, func(o Out, off *Lin, tk string) string {
						return eq(o, o.rets[0], fbLen(tk, off), "the result")
					})
				}, types.Typ[types.Int])
			}
			bytesAcc := func(name string) {
				run(name, true, none, func(o Out, self StructV) string {
					if m := noEv(o); m != "" {
						return m
					}
					return both(slot, o, self, func(o Out, _ *Lin, tk string) string {
						return eq(o, o.rets[0], nilSlice, "the result")
					}, func(o Out, off *Lin, tk string) string {
						return eq(o, o.rets[0], fbBytes(tk, off.add(selfPos(self))), "the result")
					})
				}, types.NewSlice(byteT))
			}
			// accessors that fill an object
			tableAcc := func(withJ, nilObj bool) {
				var op PtrV
				var before Val
				run(f.name, true, func(st *State, _ PtrV) []Val {
					var a Val = NilV{}
					if !nilObj {
						before = mkTable(goT, "obj", posHi)
						op = PtrV{Obj: st.alloc(goT, before, "param", "obj")}
						st.heap[op.Obj].fresh = false
						a = op
					}
					if withJ {
						return []Val{a, j}
					}
					return []Val{a}
				}, func(o Out, self StructV) string {
					return both(slot, o, self, func(o Out, _ *Lin, tk string) string {
						if m := noEv(o); m != "" {
							return m
						}
						if withJ {
							return eq(o, o.rets[0], BoolV{bform(false)}, "the result")
						}
						if !isNilVal(o.rets[0]) {
							return "the result is not nil"
						}
						return ""
					}, func(o Out, off *Lin, tk string) string {
						at := fbInd(tk, off.add(selfPos(self)))
						if withJ {
							at = fbInd(tk, fbVec(tk, off).L.add(j.L.scale(bigI(4))))
						}
						p := op
						if withJ {
							if m := eq(o, o.rets[0], BoolV{bform(true)}, "the result"); m != "" {
								return m
							}
						} else {
							q, ok := o.rets[0].(PtrV)
							if !ok || len(q.Path) != 0 {
								return "the result is not a table"
							}
							if nilObj {
								if !o.st.obj(q.Obj).fresh {
									return "the result is not a new table"
								}
							} else if q.Obj != op.Obj {
								return "the result is not the given table"
							}
							p = q
						}
						return eq(o, e.loadFrom(o.st, p), StructV{[]Val{StructV{[]Val{self.F[0], at}}}}, "the table")
					})
				})
			}
			switch {
			case !vec && kind == "string":
				bytesAcc(f.name)
			case !vec && kind == "table":
				tableAcc(false, false)
				tableAcc(false, true)
			case !vec:
				run(f.name, true, none, func(o Out, self StructV) string {
					if m := noEv(o); m != "" {
						return m
					}
					return both(slot, o, self, func(o Out, _ *Lin, tk string) string {
						return eq(o, o.rets[0], constOf(kind, f.def), "the default")
					}, func(o Out, off *Lin, tk string) string {
						return eq(o, o.rets[0], fbGet(kind, tk, off.add(selfPos(self))), "the value")
					})
				}, goT)
				run("Mutate"+f.name, true, func(*State, PtrV) []Val { return []Val{nv} }, mutChk(func(self StructV, off *Lin, tk string) *Lin { return off.add(selfPos(self)) }), types.Typ[types.Bool])
			case vec && kind == "table":
				tableAcc(true, false)
				lenAcc()
			default:
				run(f.name, true, func(*State, PtrV) []Val { return []Val{j} }, func(o Out, self StructV) string {
					if m := noEv(o); m != "" {
						return m
					}
					return both(slot, o, self, func(o Out, _ *Lin, tk string) string {
						return eq(o, o.rets[0], constOf(kind, 0), "the default")
					}, func(o Out, off *Lin, tk string) string {
						return eq(o, o.rets[0], fbGet(kind, tk, fbVec(tk, off).L.add(j.L.scale(bigI(fbSizes[kind])))), "the element")
					})
				}, goT)
				lenAcc()
				if kind == "u8" {
					bytesAcc(f.name + "Bytes")
				}
				run("Mutate"+f.name, true, func(*State, PtrV) []Val { return []Val{j, nv} }, mutChk(func(self StructV, off *Lin, tk string) *Lin {
					return fbVec(tk, off).L.add(j.L.scale(bigI(fbSizes[kind])))
				}), types.Typ[types.Bool])
			}
			// builder functions
			slotV := IntV{linC(int64(slot)), false}
			var pname []string
			var val, def Val = nv, constOf(kind, f.def)
			if vec || kind == "string" || kind == "table" {
				pname, val, def = []string{"PrependUOffsetTSlot"}, uoff, IntV{linZero, false}
			} else {
				for gn, k := range fbNames {
					if k == kind && gn != "UOffsetT" && gn != "VOffsetT" && gn != "SOffsetT" {
						pname = append(pname, "Prepend"+gn+"Slot")
					}
				}
			}
			run(tb.name+"Add"+f.name, false, func(*State, PtrV) []Val { return []Val{builder(), val} }, func(o Out, _ StructV) string {
				return oneBuild(o, pname, slotV, val, def)
			})
			if vec {
				sz := IntV{linC(fbSizes[kind]), false}
				run(tb.name+"Start"+f.name+"Vector", false, func(*State, PtrV) []Val { return []Val{builder(), numE} }, func(o Out, _ StructV) string {
					if m := oneBuild(o, []string{"StartVector"}, sz, numE, sz); m != "" {
						return m
					}
					return ret0(o, "StartVector")
				})
			}
			r.sample(fmt.Sprintf("%s.%s: slot %d, %s, default %d", tb.name, f.name, 4+2*slot, f.kind, f.def))
			r.count("schema fields", 1)
		}
		// fields the schema does not have
		known := map[string]bool{}
		for _, f := range tb.fields {
			known[tb.name+"Add"+f.name] = true
		}
		for _, n := range ld.byPath[flatPath].Types.Scope().Names() {
			if strings.HasPrefix(n, tb.name+"Add") && !known[n] {
				r.violate("extra|"+n, "", "builder function "+n+" has no field in the schema")
			}
		}
	}
	r.addCoverage(e)
	r.need("schema fields", 42)
	r.need("functions compared", 150)
}

func isNilVal(v Val) bool {
	switch v := v.(type) {
	case nil:
		return true
	case NilV:
		return true
	case SliceV:
		return v.Obj == 0
	}
	return false
}
