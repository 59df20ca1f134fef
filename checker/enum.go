package main

// C21: enum constants, name tables and String.

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"
)

type enumSpec struct {
	typ   string
	names []string // by value
}

// The enums of the FlatGeobuf 3 schema (header.fbs).
var fgbEnums = []enumSpec{
	{"ColumnType", []string{"Byte", "UByte", "Bool", "Short", "UShort", "Int", "UInt", "Long", "ULong", "Float", "Double", "String", "Json", "DateTime", "Binary"}},
	{"GeometryType", []string{"Unknown", "Point", "LineString", "Polygon", "MultiPoint", "MultiLineString", "MultiPolygon", "GeometryCollection",
		"CircularString", "CompoundCurve", "CurvePolygon", "MultiCurve", "MultiSurface", "Curve", "Surface", "PolyhedralSurface", "TIN", "Triangle"}},
}

func init() {
	checks["C21"] = &checkDef{run: checkEnums,
		explain: "Constants are read from the type-checked package. The name and value tables are obtained by abstract interpretation of the package initialiser (constant map contents) and compared, entry by entry, with the FlatGeobuf 3 enums; tables modified outside initialisation are refused. String is interpreted for each of the 256 values and its constant result compared with the table, the fallback results with each other."}
}

func checkEnums(ld *Loaded, r *Result) {
	p := ld.byPath[flatPath]
	if p == nil {
		r.violate("anchor|flat", "", "package flat not found")
		return
	}
	e := newEngine(ld)
	e.prefixModels = nil // the enum methods themselves are analysed
	e.initGlobals()
	written := e.mapGlobalsWritten()
	sp := ld.ssaBy[flatPath]
	for _, en := range fgbEnums {
		en := en
		guard(r, en.typ, func() {
			tn, _ := p.Types.Scope().Lookup(en.typ).(*types.TypeName)
			if tn == nil {
				r.violate("anchor|"+en.typ, "", "enum type "+en.typ+" not found")
				return
			}
			T := tn.Type()
			if b, ok := T.Underlying().(*types.Basic); !ok || b.Kind() != types.Uint8 {
				r.violate("type|"+en.typ, "", en.typ+" is not an unsigned byte, the type the schema declares")
				return
			}
			consts := map[string]int64{}
			for _, n := range p.Types.Scope().Names() {
				c, ok := p.Types.Scope().Lookup(n).(*types.Const)
				if ok && types.Identical(c.Type(), T) {
					v, _ := constant.Int64Val(c.Val())
					consts[n] = v
				}
			}
			for v, n := range en.names {
				got, ok := consts[en.typ+n]
				switch {
				case !ok:
					r.violate("const|"+en.typ+n, "", fmt.Sprintf("constant %s%s does not exist", en.typ, n))
				case got != int64(v):
					r.violate("const|"+en.typ+n, ld.position(p.Types.Scope().Lookup(en.typ+n).Pos(), nil), fmt.Sprintf("constant %s%s is %d, the schema says %d", en.typ, n, got, v))
				}
				r.count("constants", 1)
			}
			// tables
			table := func(name string) *MapV {
				g := sp.Var(name)
				if g == nil {
					r.violate("anchor|"+name, "", "table "+name+" not found")
					return nil
				}
				if written[g] {
					r.violate("written|"+name, "", "table "+name+" may be modified outside package initialisation")
					return nil
				}
				o := e.initHeap[e.globals[g]]
				if o == nil {
					r.violate("undecided|"+name, "", "contents of "+name+" not determined")
					return nil
				}
				pv, ok := o.val.(PtrV)
				if !ok {
					r.violate("table|"+name, "", name+" is not initialised with a map")
					return nil
				}
				mv, ok := e.initExtra[pv.Obj].val.(*MapV)
				if !ok || mv.Open {
					r.violate("undecided|"+name, "", "contents of "+name+" not determined")
					return nil
				}
				return mv
			}
			names, values := map[int64]string{}, map[string]int64{}
			nm, vm := table("EnumNames"+en.typ), table("EnumValues"+en.typ)
			if nm == nil || vm == nil {
				return
			}
			for i := range nm.K {
				k, ok1 := goConst(nm.K[i])
				v, ok2 := goConst(nm.V[i])
				if !ok1 || !ok2 {
					r.violate("undecided|EnumNames"+en.typ, "", "an entry is not constant")
					return
				}
				names[k.(int64)] = v.(string)
			}
			for i := range vm.K {
				k, ok1 := goConst(vm.K[i])
				v, ok2 := goConst(vm.V[i])
				if !ok1 || !ok2 {
					r.violate("undecided|EnumValues"+en.typ, "", "an entry is not constant")
					return
				}
				values[k.(string)] = v.(int64)
			}
			for v, n := range en.names {
				if g, ok := names[int64(v)]; !ok || g != n {
					r.violate(fmt.Sprintf("names|%s|%d", en.typ, v), "", fmt.Sprintf("EnumNames%s[%d] is %q, expected %q", en.typ, v, g, n))
				}
				if g, ok := values[n]; !ok || g != int64(v) {
					r.violate(fmt.Sprintf("values|%s|%s", en.typ, n), "", fmt.Sprintf("EnumValues%s[%q] is %d (present: %v), expected %d", en.typ, n, g, ok, v))
				}
				r.count("table entries", 2)
			}
			for v, n := range names {
				if g, ok := values[n]; !ok || g != v {
					r.violate(fmt.Sprintf("inverse|%s|%d", en.typ, v), "", fmt.Sprintf("EnumNames%s[%d] is %q, but EnumValues%s[%q] is %d (present: %v)", en.typ, v, n, en.typ, n, g, ok))
				}
			}
			for n, v := range values {
				if g, ok := names[v]; !ok || g != n {
					r.violate(fmt.Sprintf("inverse|%s|%s", en.typ, n), "", fmt.Sprintf("EnumValues%s[%q] is %d, but EnumNames%s[%d] is %q (present: %v)", en.typ, n, v, en.typ, v, g, ok))
				}
			}
			var cn []string
			for n := range consts {
				cn = append(cn, n)
			}
			sort.Strings(cn)
			for _, n := range cn {
				if !strings.HasPrefix(n, en.typ) {
					continue
				}
				if _, ok := names[consts[n]]; !ok {
					r.violate("missing|"+n, "", fmt.Sprintf("constant %s (%d) is not in EnumNames%s", n, consts[n], en.typ))
				}
			}
			// String
			sel := ld.prog.MethodSets.MethodSet(T).Lookup(p.Types, "String")
			if sel == nil {
				r.violate("anchor|"+en.typ+".String", "", en.typ+" has no String method")
				return
			}
			fn := ld.prog.MethodValue(sel)
			seen := map[string]int64{}
			for v := int64(0); v < 256; v++ {
				outs := e.callEntry(fn, e.entry(), IntV{linC(v), false})
				r.count("String evaluations", 1)
				if len(outs) != 1 || outs[0].pan != nil {
					r.violate(fmt.Sprintf("string|%s|%d", en.typ, v), "", fmt.Sprintf("%s(%d).String() is not a single constant result", en.typ, v))
					continue
				}
				s, ok := outs[0].rets[0].(StrV)
				if !ok || !s.Known {
					r.violate("undecided|string|"+en.typ, "", fmt.Sprintf("%s(%d).String() is not a constant", en.typ, v))
					break
				}
				if n, ok := names[v]; ok && s.S != n {
					r.violate(fmt.Sprintf("string|%s|%d", en.typ, v), "", fmt.Sprintf("%s(%d).String() is %q, the table says %q", en.typ, v, s.S, n))
				}
				if o, dup := seen[s.S]; dup {
					r.violate(fmt.Sprintf("string|%s|%d", en.typ, v), "", fmt.Sprintf("%s(%d).String() is %q, the same as for %d", en.typ, v, s.S, o))
				}
				seen[s.S] = v
			}
			r.sample(fmt.Sprintf("%s: %d names, %d values", en.typ, len(names), len(values)))
		})
	}
	r.addCoverage(e)
	r.need("constants", 33)
	r.need("String evaluations", 512)
}
