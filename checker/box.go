package main

// C17: Box expansion and intersection, decided over the domain of orderings:
// every function is interpreted once per weak ordering of the coordinates it
// can compare. A comparison of an x with a y coordinate is left open.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// weakOrders enumerates the rank vectors of n values.
func weakOrders(n int) (r [][]int) {
	cur := make([]int, n)
	var rec func(i int)
	rec = func(i int) {
		if i == n {
			// ranks must be dense from 0
			mx := 0
			seen := map[int]bool{}
			for _, v := range cur {
				seen[v] = true
				if v > mx {
					mx = v
				}
			}
			for k := 0; k <= mx; k++ {
				if !seen[k] {
					return
				}
			}
			r = append(r, append([]int{}, cur...))
			return
		}
		for v := 0; v < n; v++ {
			cur[i] = v
			rec(i + 1)
		}
	}
	rec(0)
	return
}

func ordOracle(rank map[*Atom]int, axis map[*Atom]int) func(op token.Token, a, b *Atom) (bool, bool) {
	return func(op token.Token, a, b *Atom) (bool, bool) {
		ra, ok1 := rank[a]
		rb, ok2 := rank[b]
		if !ok1 || !ok2 || axis[a] != axis[b] {
			if a == b {
				return op == token.EQL || op == token.LEQ || op == token.GEQ, true
			}
			return false, false
		}
		switch op {
		case token.LSS:
			return ra < rb, true
		case token.LEQ:
			return ra <= rb, true
		case token.GTR:
			return ra > rb, true
		case token.GEQ:
			return ra >= rb, true
		case token.EQL:
			return ra == rb, true
		case token.NEQ:
			return ra != rb, true
		}
		return false, false
	}
}

var boxFields = []string{"XMin", "YMin", "XMax", "YMax"}

func isBox(T types.Type) (ptr, ok bool) {
	if p, isP := T.(*types.Pointer); isP {
		_, k := isBox(p.Elem())
		return true, k
	}
	n, isN := T.(*types.Named)
	return false, isN && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == prtPath && n.Obj().Name() == "Box"
}

func floatAtom(name string) *Atom {
	a := mkAtom("in", name, nil, nil)
	a.bits = 64
	return a
}

// symBox makes a Box with named coordinates; at[f] is the atom of field f.
func symBox(T types.Type, name string) (Val, map[string]*Atom) {
	s := zeroVal(T).(StructV)
	at := map[string]*Atom{}
	for _, f := range boxFields {
		at[f] = floatAtom(name + "." + f)
		s.F[fieldIndex(T, f)] = FloatV{at[f]}
	}
	return s, at
}

func boxChecks(ld *Loaded, r *Result, e *Engine) {
	pkg := ld.pkg(prtPath)
	if pkg == nil || pkg.Type("Box") == nil {
		r.violate("missing|Box", "", "type packedrtree.Box not found")
		return
	}
	boxT := pkg.Type("Box").Type()
	for _, f := range boxFields {
		if fieldIndex(boxT, f) < 0 {
			r.violate("missing|Box."+f, "", "field "+f+" of packedrtree.Box not found")
			return
		}
	}
	// the expanding methods
	for _, name := range []string{"Expand", "ExpandXY"} {
		fn := ld.method(prtPath, "Box", name)
		if fn == nil {
			r.violate("missing|Box."+name, "", "method "+name+" not found")
			continue
		}
		expandCheck(ld, r, e, fn, name, boxT)
	}
	// intersection tests: boolean functions of two boxes
	for _, fn := range ld.repoFns() {
		sig := fn.Signature
		if fnPkgPath(fn) != prtPath || !strings.Contains(strings.ToLower(fn.Name()), "intersect") || fn.Synthetic != "" || sig.Results().Len() != 1 || !isBool(sig.Results().At(0).Type()) || len(fn.Params) != 2 || len(fn.FreeVars) > 0 {
			continue
		}
		ok := true
		for _, p := range fn.Params {
			if _, b := isBox(p.Type()); !b {
				ok = false
			}
		}
		if ok {
			intersectCheck(ld, r, e, fn, boxT)
		}
	}
	// EmptyBox
	g, _ := pkg.Members["EmptyBox"].(*ssa.Global)
	if g == nil {
		r.violate("missing|EmptyBox", "", "EmptyBox not found")
		return
	}
	st := e.entry()
	v, _ := e.loadFrom(st, e.globalPtr(st, g).(PtrV)).(StructV)
	for i, f := range boxFields {
		want := "+Inf"
		if i >= 2 {
			want = "-Inf"
		}
		r.count("EmptyBox side", 1)
		ok := false
		if len(v.F) > 0 {
			fv, isF := v.F[fieldIndex(boxT, f)].(FloatV)
			ok = isF && fv.A == mkAtom("fconst", want, nil, nil)
		}
		if !ok {
			r.violate("empty|EmptyBox."+f, ld.position(g.Pos(), nil), "side "+f+" of EmptyBox is not "+want+", so it is not neutral for expansion")
		}
	}
	r.need("expansion ordering", 200)
	r.need("EmptyBox side", 4)
}

func expandCheck(ld *Loaded, r *Result, e *Engine, fn *ssa.Function, name string, boxT types.Type) {
	site := ld.position(fn.Pos(), nil)
	recv, ra := symBox(boxT, "recv")
	var argAtoms [2][]*Atom // x and y atoms of the arguments
	mkArgs := func(st *State) ([]Val, int, int) {
		id := st.alloc(boxT, recv, "param", "receiver")
		args := []Val{PtrV{Obj: id}}
		argID := 0
		argAtoms = [2][]*Atom{}
		nf := 0
		for _, p := range fn.Params[1:] {
			ptr, isB := isBox(p.Type())
			switch {
			case isB:
				b, at := symBox(boxT, "arg")
				argAtoms[0] = append(argAtoms[0], at["XMin"], at["XMax"])
				argAtoms[1] = append(argAtoms[1], at["YMin"], at["YMax"])
				if ptr {
					argID = st.alloc(boxT, b, "param", "argument")
					args = append(args, PtrV{Obj: argID})
				} else {
					args = append(args, b)
				}
			case isFloat(p.Type()):
				a := floatAtom("coord." + string("xy"[nf%2]))
				argAtoms[nf%2] = append(argAtoms[nf%2], a)
				nf++
				args = append(args, FloatV{a})
			default:
				panic(undecided("parameter of " + name))
			}
		}
		return args, id, argID
	}
	if _, isP := fn.Params[0].Type().(*types.Pointer); !isP {
		r.violate("receiver|Box."+name, site, name+" has no pointer receiver, so it cannot expand its receiver")
		return
	}
	mkArgs(newState())
	axes := [2][]*Atom{
		append([]*Atom{ra["XMin"], ra["XMax"]}, argAtoms[0]...),
		append([]*Atom{ra["YMin"], ra["YMax"]}, argAtoms[1]...),
	}
	ox, oy := weakOrders(len(axes[0])), weakOrders(len(axes[1]))
	rank, axis := map[*Atom]int{}, map[*Atom]int{}
	e.cmpOracle = ordOracle(rank, axis)
	defer func() { e.cmpOracle = nil }()
	run := func(wx, wy []int) {
		for i, a := range axes[0] {
			rank[a], axis[a] = wx[i], 0
		}
		for i, a := range axes[1] {
			rank[a], axis[a] = wy[i], 1
		}
		r.count("expansion ordering", 1)
		st := e.entry()
		args, id, argID := mkArgs(st)
		var arg0 Val
		if argID != 0 {
			arg0 = st.obj(argID).val
		}
		for _, o := range e.callEntry(fn, st, args...) {
			if o.pan != nil {
				r.violate("panic|Box."+name, o.pan.site, name+" panics: "+o.pan.msg)
				continue
			}
			if argID != 0 && valKey(o.st.obj(argID).val) != valKey(arg0) {
				r.violate("argument|Box."+name, site, name+" changes its argument")
			}
			got := o.st.obj(id).val.(StructV)
			for k, f := range boxFields {
				ax := axes[k%2]
				// own side and the arguments' candidates
				cands := []*Atom{ra[f]}
				min := k < 2
				if name == "Expand" {
					// argument min, max
					if min {
						cands = append(cands, ax[2])
					} else {
						cands = append(cands, ax[3])
					}
				} else {
					cands = append(cands, ax[2])
				}
				best := cands[0]
				for _, c := range cands {
					if min && rank[c] < rank[best] || !min && rank[c] > rank[best] {
						best = c
					}
				}
				r.count("expansion side obligation", 1)
				fv, ok := got.F[fieldIndex(boxT, f)].(FloatV)
				okv := false
				if ok {
					rk, known := rank[fv.A]
					okv = known && axis[fv.A] == k%2 && rk == rank[best]
				}
				if !okv {
					op := "minimum"
					if !min {
						op = "maximum"
					}
					r.violate("side|Box."+name+"."+f, site, fmt.Sprintf("%s can leave %s different from the %s of itself and the argument", name, f, op),
						ordText(axes, rank))
				}
			}
		}
	}
	for _, wx := range ox {
		for _, wy := range oy {
			if len(ox) > 50 && r.Tier == "quick" {
				// both axes vary together only in the thorough tier
				if !sameOrd(wx, ox[0]) && !sameOrd(wy, oy[0]) && !sameOrd(wx, wy) {
					continue
				}
			}
			run(wx, wy)
		}
	}
	r.sample(fmt.Sprintf("%s: %d x %d weak orderings of %d coordinates per axis", name, len(ox), len(oy), len(axes[0])))
}

func sameOrd(a, b []int) bool {
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func ordText(axes [2][]*Atom, rank map[*Atom]int) string {
	s := "ordering:"
	for _, ax := range axes {
		for _, a := range ax {
			s += fmt.Sprintf(" %s#%d", a.aux, rank[a])
		}
	}
	return s
}

func intersectCheck(ld *Loaded, r *Result, e *Engine, fn *ssa.Function, boxT types.Type) {
	site := ld.position(fn.Pos(), nil)
	a, aa := symBox(boxT, "a")
	b, ba := symBox(boxT, "b")
	xs := []*Atom{aa["XMin"], aa["XMax"], ba["XMin"], ba["XMax"]}
	ys := []*Atom{aa["YMin"], aa["YMax"], ba["YMin"], ba["YMax"]}
	rank, axis := map[*Atom]int{}, map[*Atom]int{}
	e.cmpOracle = ordOracle(rank, axis)
	defer func() { e.cmpOracle = nil }()
	for _, wx := range weakOrders(4) {
		for _, wy := range weakOrders(4) {
			// proper boxes only: an empty box shares no point with any box,
			// but how it is reported is left open
			if wx[0] > wx[1] || wx[2] > wx[3] || wy[0] > wy[1] || wy[2] > wy[3] {
				continue
			}
			for i := range xs {
				rank[xs[i]], axis[xs[i]] = wx[i], 0
				rank[ys[i]], axis[ys[i]] = wy[i], 1
			}
			st := e.entry()
			var args []Val
			for i, p := range fn.Params {
				v := []Val{a, b}[i]
				if ptr, _ := isBox(p.Type()); ptr {
					args = append(args, PtrV{Obj: st.alloc(boxT, v, "param", "box")})
				} else {
					args = append(args, v)
				}
			}
			want := wx[0] <= wx[3] && wx[2] <= wx[1] && wy[0] <= wy[3] && wy[2] <= wy[1]
			r.count("intersection ordering", 1)
			for _, o := range e.callEntry(fn, st, args...) {
				if o.pan != nil {
					r.violate("panic|"+short(fn), o.pan.site, fn.Name()+" panics: "+o.pan.msg)
					continue
				}
				bv, ok := o.rets[0].(BoolV)
				got, known := false, false
				if ok {
					got, known = o.st.formVal(bv.F)
				}
				if !known || got != want {
					r.violate("intersects|"+short(fn), site, fmt.Sprintf("%s can yield %v for boxes that do%s share a point", fn.Name(), got, map[bool]string{true: "", false: " not"}[want]), ordText([2][]*Atom{xs, ys}, rank))
				}
			}
		}
	}
}

func init() {
	checks["C17"] = &checkDef{
		explain: "Expand, ExpandXY and every boolean function of two boxes are interpreted once per weak ordering of the coordinates of each axis (comparisons are decided by the ordering, comparisons across axes are left open); in each ordering every side of the receiver must be the minimum or maximum, the argument unchanged, and intersection true exactly when the closed boxes share a point. EmptyBox must hold +Inf minima and -Inf maxima.",
		assume:  []string{"coordinates are not NaN", "boxes given to the intersection test are not inverted"},
		run: func(ld *Loaded, r *Result) {
			e := newEngine(ld)
			e.initGlobals()
			boxChecks(ld, r, e)
			r.addCoverage(e)
		},
	}
}
