package main

// C10 and C13: the traversal of geometries and the text functions.
//
// The functions that call themselves are found in the call graph. Each is
// interpreted once for an arbitrary geometry and depth, its recursive calls
// taken by the contract that the interpretation proves: an error, or the box
// expanded by every coordinate pair of the geometry and of all its parts.

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// calleesOf lists the library functions that a function calls or refers to.
func calleesOf(fn *ssa.Function) (r []*ssa.Function) {
	seen := map[*ssa.Function]bool{}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			for _, o := range in.Operands(nil) {
				if *o == nil {
					continue
				}
				if g, ok := (*o).(*ssa.Function); ok && !seen[g] && len(g.Blocks) > 0 && isRepoFn(g) {
					seen[g] = true
					r = append(r, g)
				}
			}
		}
	}
	return
}

type recCycle struct {
	fns     map[*ssa.Function]bool
	entries []*ssa.Function
}

// recursion finds the cycles of the call graph.
func (ld *Loaded) recursion() (r []*recCycle) {
	fns := ld.repoFns()
	succ := map[*ssa.Function][]*ssa.Function{}
	for _, fn := range fns {
		succ[fn] = calleesOf(fn)
	}
	reach := func(from *ssa.Function) map[*ssa.Function]bool {
		m := map[*ssa.Function]bool{}
		todo := append([]*ssa.Function{}, succ[from]...)
		for len(todo) > 0 {
			f := todo[0]
			todo = todo[1:]
			if !m[f] {
				m[f] = true
				todo = append(todo, succ[f]...)
			}
		}
		return m
	}
	done := map[*ssa.Function]bool{}
	for _, fn := range fns {
		if done[fn] {
			continue
		}
		m := reach(fn)
		if !m[fn] {
			continue
		}
		c := &recCycle{fns: map[*ssa.Function]bool{}}
		for g := range m {
			if reach(g)[fn] {
				c.fns[g] = true
				done[g] = true
			}
		}
		ent := map[*ssa.Function]bool{}
		for _, g := range fns {
			if c.fns[g] {
				if o := g.Object(); o != nil && o.Exported() && g.Parent() == nil {
					ent[g] = true
				}
				continue
			}
			for _, h := range succ[g] {
				if c.fns[h] {
					ent[h] = true
				}
			}
		}
		for g := range ent {
			c.entries = append(c.entries, g)
		}
		sort.Slice(c.entries, func(i, j int) bool { return c.entries[i].String() < c.entries[j].String() })
		r = append(r, c)
	}
	return
}

// outsideConst is the constant that every call from outside the cycle passes
// for a parameter.
func (ld *Loaded) outsideConst(c *recCycle, fn *ssa.Function, i int) (*big.Int, bool) {
	var k *big.Int
	for _, g := range ld.repoFns() {
		if c.fns[g] {
			continue
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					for _, o := range in.Operands(nil) {
						if *o == fn {
							return nil, false
						}
					}
					continue
				}
				for _, a := range call.Common().Args {
					if a == fn {
						return nil, false
					}
				}
				if call.Common().Value != fn {
					continue
				}
				cst, ok := call.Common().Args[i].(*ssa.Const)
				if !ok || cst.Value == nil || cst.Value.Kind() != constant.Int {
					return nil, false
				}
				v, ok := new(big.Int).SetString(cst.Value.ExactString(), 10)
				if !ok || k != nil && k.Cmp(v) != 0 {
					return nil, false
				}
				k = v
			}
		}
	}
	return k, k != nil
}

// geomFn is a recursive function over a geometry.
type geomFn struct {
	fn       *ssa.Function
	gi, bi   int // parameters: geometry and box, -1 if there is none
	di       int // the parameter that bounds the depth
	up       bool
	from     *big.Int
	errRes   int
	levels   *big.Int
	cyc      *recCycle
	entryD   *Lin
	entryArg []Val
}

func namedPtr(T types.Type, path, name string) bool {
	p, ok := T.(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := p.Elem().(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == path && n.Obj().Name() == name
}

// geomFns finds the recursive functions that look into a geometry. Any other
// recursion is reported.
func geomFns(ld *Loaded, e *Engine) (r []*geomFn) {
	for _, c := range ld.recursion() {
		e.sites["recursive cycle"]++
		for _, fn := range c.entries {
			g := &geomFn{fn: fn, gi: -1, bi: -1, di: -1, errRes: -1, cyc: c}
			for i, p := range fn.Params {
				if namedPtr(p.Type(), flatPath, "Geometry") {
					g.gi = i
				}
				if namedPtr(p.Type(), prtPath, "Box") {
					g.bi = i
				}
			}
			for i := 0; i < fn.Signature.Results().Len(); i++ {
				if isErrorType(fn.Signature.Results().At(i).Type()) {
					g.errRes = i
				}
			}
			// a depth counter: a constant from outside, changed by a
			// constant within
			for i, p := range fn.Params {
				if _, ok := intTypeOf(p.Type()); !ok {
					continue
				}
				if k, ok := ld.outsideConst(c, fn, i); ok {
					g.di, g.from = i, k
				}
			}
			if g.di < 0 {
				e.violate("depth", "unbounded|"+fn.String(), fmt.Sprintf("%s calls itself and has no parameter that counts the depth from a constant, so corrupt offsets can make it recurse without end", fn), ld.position(fn.Pos(), nil), nil)
			}
			r = append(r, g)
		}
	}
	return
}

func (g *geomFn) name() string { return g.fn.Name() }

var boxMark = StructV{[]Val{FloatV{floatAtom("acc.0")}, FloatV{floatAtom("acc.1")}, FloatV{floatAtom("acc.2")}, FloatV{floatAtom("acc.3")}}}
var boxStale = StructV{[]Val{FloatV{floatAtom("stale.0")}, FloatV{floatAtom("stale.1")}, FloatV{floatAtom("stale.2")}, FloatV{floatAtom("stale.3")}}}

// mark stores the current box and makes older copies of it stale.
func (e *Engine) mark(st *State, p PtrV, site string) {
	k := valKey(boxMark)
	for id, o := range st.heap {
		if id != p.Obj && valKey(o.val) == k {
			st.setObj(id, boxStale)
		}
	}
	e.storeTo(st, p, boxMark, site)
}

// geomCheck proves the contract of one function.
func geomCheck(ld *Loaded, e *Engine, g *geomFn) {
	fn := g.fn
	site := ld.position(fn.Pos(), nil)
	what := fn.Name()
	bad := func(tag, key, msg, site string, st *State) {
		e.violate(tag, key+"|"+what, msg, site, st)
	}
	st := e.entry()
	st.ghost = map[string]Val{}
	args := make([]Val, len(fn.Params))
	for i, p := range fn.Params {
		args[i] = symVal(p.Type(), "geom."+p.Name(), nil)
	}
	var box PtrV
	if g.bi >= 0 {
		T := fn.Params[g.bi].Type().(*types.Pointer).Elem()
		box = PtrV{Obj: st.alloc(T, boxMark, "param", site)}
		args[g.bi] = box
	}
	var d0 *Lin
	if g.di >= 0 {
		it, _ := intTypeOf(fn.Params[g.di].Type())
		lo, hi := it.rng()
		a := mkAtom("in", "depth", lo, hi)
		a.bits = it.bits
		d0 = linA(a)
		args[g.di] = IntV{d0, true}
	}
	id := ""
	if g.gi >= 0 {
		id = e.tableID(st, e.tableOf(st, args[g.gi].(PtrV)))
	}
	field := func(T types.Type, f string, k ...*Lin) Val { return flatResult(T, "Geometry."+f+"("+id+")", k) }
	intT, f64 := types.Typ[types.Int], types.Typ[types.Float64]
	gSet(st, "failed", 0)
	st.ghost["xy"], st.ghost["part"] = IntV{linZero, true}, IntV{linZero, true}
	// which way the depth counts, and by how much, shows at the first call
	e.recursive = func(e *Engine, c *callCtx) []Out {
		if !g.cyc.fns[c.fn] {
			panic(undecided("recursive call of " + c.name + " at " + e.pos(c.site)))
		}
		if c.fn != fn {
			panic(undecided("recursive call of " + c.name + ", which is not where the recursion is entered, at " + e.pos(c.site)))
		}
		e.sites["recursive call"]++
		if g.di >= 0 {
			d := c.args[g.di].(IntV).L
			up, down := c.st.facts.entailsLE(d0.addC(1).sub(d)), c.st.facts.entailsLE(d.addC(1).sub(d0))
			lim := big.NewInt(4096)
			hi, lo := new(big.Int).Add(g.from, lim), new(big.Int).Sub(g.from, lim)
			switch {
			case up && c.st.facts.entailsLE(d0.sub(linB(hi))):
				g.up = true
			case down && c.st.facts.entailsLE(linB(lo).sub(d0)):
			default:
				bad("depth", "unbounded", fmt.Sprintf("%s calls itself for the parts of a geometry without a limit on the depth (at most 4096 levels)", what), e.pos(c.site), c.st)
			}
			if !c.st.facts.entailsEQ(d.sub(d0).addC(-1)) && !c.st.facts.entailsEQ(d0.sub(d).addC(-1)) {
				bad("cover", "depth-step", "a level of nesting counts as more than one", e.pos(c.site), c.st)
			}
		}
		outs := []Out{}
		// the outcomes: an error, or the part is covered
		mk := func(st *State, fail bool) {
			rets := []Val{}
			for i := 0; i < c.sig.Results().Len(); i++ {
				switch {
				case i == g.errRes && fail:
					x := newErr("errorf", "recursive call", e.pos(c.site))
					x.exact, x.notEOF = true, true
					rets = append(rets, ErrV{x})
				case i == g.errRes:
					rets = append(rets, NilV{})
				default:
					rets = append(rets, freshVal(c.sig.Results().At(i).Type(), "rec"))
				}
			}
			outs = append(outs, Out{st: st, rets: rets})
		}
		ok := c.st
		if g.errRes >= 0 {
			f := ok.clone()
			f.note("%s: the recursive call fails", e.pos(c.site))
			gSet(f, "failed", 1)
			if g.bi >= 0 {
				if p, isP := c.args[g.bi].(PtrV); isP {
					e.storeTo(f, p, freshVal(fn.Params[g.bi].Type().(*types.Pointer).Elem(), "rec"), e.pos(c.site))
				}
			}
			mk(f, true)
		}
		// a corrupt table inside
		p := ok.clone()
		outs = append(outs, flatPanicOut(p, c, e, "nested geometry"))
		if g.gi >= 0 && g.bi >= 0 {
			q, isP := c.args[g.bi].(PtrV)
			h, isG := c.args[g.gi].(PtrV)
			if isP && isG && valKey(e.loadFrom(ok, q)) == valKey(boxMark) {
				e.mark(ok, q, e.pos(c.site))
				next := gLin(ok, "part", linZero)
				if t, isT := e.tableOf(ok, h).(StructV); isT && len(t.F) == 2 {
					pos, _ := t.F[1].(IntV)
					want := linA(mkAtom("in", "pos:Geometry.Parts("+id+")", big0, new(big.Int).Sub(pow2(32), big1), next))
					if pos.L != nil && ok.linEq(pos.L, want) {
						ok.ghost["part"] = IntV{next.addC(1), true}
					}
				}
			} else if isP {
				// the box of the part alone, to be merged later
				v := Val(boxStale)
				if eb := e.emptyBox(ok); isG && eb != nil && valKey(e.loadFrom(ok, q)) == valKey(eb) {
					if t, isT := e.tableOf(ok, h).(StructV); isT && len(t.F) == 2 {
						if pos, _ := t.F[1].(IntV); pos.L != nil {
							v = coverBox("part", pos.L)
						}
					}
				}
				e.storeTo(ok, q, v, e.pos(c.site))
			}
		}
		mk(ok, false)
		return outs
	}
	expand := func(name string) modelFn {
		return func(e *Engine, c *callCtx) []Out {
			p, ok := c.args[0].(PtrV)
			if !ok {
				return []Out{e.nilPanic(c.st, c.site, c.site.Parent())}
			}
			st := c.st
			if valKey(e.loadFrom(st, p)) != valKey(boxMark) {
				e.storeTo(st, p, boxStale, e.pos(c.site))
				return []Out{{st: st}}
			}
			if name == "ExpandXY" {
				next := gLin(st, "xy", linZero)
				x, y := field(f64, "Xy", next), field(f64, "Xy", next.addC(1))
				e.sites["coordinate obligation"]++
				if st.valEq(c.args[1], x) && st.valEq(c.args[2], y) {
					st.ghost["xy"] = IntV{next.addC(2), true}
				}
			} else if q, isP := c.args[1].(PtrV); isP && q.Obj != 0 {
				next := gLin(st, "part", linZero)
				want := linA(mkAtom("in", "pos:Geometry.Parts("+id+")", big0, new(big.Int).Sub(pow2(32), big1), next))
				if st.valEq(e.loadFrom(st, q), coverBox("part", want)) {
					st.ghost["part"] = IntV{next.addC(1), true}
				}
			}
			e.mark(st, p, e.pos(c.site))
			return []Out{{st: st}}
		}
	}
	for _, n := range []string{"Expand", "ExpandXY"} {
		e.models["(*"+prtPath+".Box)."+n] = expand(n)
	}
	e.ev = func(st *State, ev *Event) {
		if ev.Kind == "notable" && ev.Name == "Geometry.Parts" && ev.Outcome == id {
			next := gLin(st, "part", linZero)
			for _, a := range ev.Args {
				if k, ok := a.(IntV); ok && st.linEq(k.L, next) {
					st.ghost["part"] = IntV{next.addC(1), true}
				}
			}
		}
	}
	e.storeHook = func(st *State, p PtrV, old, v Val, site string) {
		if o := st.obj(p.Obj); p.Obj != box.Obj && o.tag != "alloc" && !o.fresh {
			bad("cover", "writes", what+" modifies something other than the box", site, st)
		}
	}
	defer func() { e.ev, e.recursive, e.storeHook = nil, nil, nil }()
	for _, o := range e.callEntry(fn, st, args...) {
		e.sites["geometry outcome"]++
		if o.pan != nil {
			if o.pan.kind != "flat" && o.pan.kind != "nil" {
				bad("flat", "panic|"+o.pan.kind, what+" panics: "+o.pan.msg, o.pan.site, o.st)
			}
			continue
		}
		if g.gi < 0 || g.bi < 0 {
			continue
		}
		es := 0
		if g.errRes >= 0 {
			es = errState(o.st, o.rets[g.errRes])
		}
		switch es {
		case 0:
			e.sites["cover obligation"]++
			if gInt(o.st, "failed") == 1 {
				bad("cover", "swallow", what+" reports success although a part was not covered", site, o.st)
				continue
			}
			if xy := gLin(o.st, "xy", linZero); !o.st.facts.entailsLE(field(intT, "XyLength").(IntV).L.sub(xy).addC(-1)) {
				bad("cover", "pairs", what+" reports success although a coordinate pair of the geometry may not have expanded the box", site, o.st)
			}
			if k := gLin(o.st, "part", linZero); !o.st.facts.entailsLE(field(intT, "PartsLength").(IntV).L.sub(k)) {
				bad("cover", "parts", what+" reports success although a part of the geometry may not have expanded the box", site, o.st)
			}
			if valKey(e.loadFrom(o.st, box)) != valKey(boxMark) {
				bad("cover", "box", "the box does not hold the result of every expansion when "+what+" returns", site, o.st)
			}
		case 1:
			if gInt(o.st, "failed") == 1 || g.di < 0 {
				continue
			}
			// the only other reason is the depth
			lim := ld.constOf(fgbPath, "maxGeomDepth")
			if lim == nil {
				lim = big.NewInt(8)
			}
			fs := []Form{leForm(d0.sub(linB(new(big.Int).Add(g.from, lim)))), leForm(linB(g.from).sub(d0))}
			if !g.up {
				fs = []Form{leForm(linB(new(big.Int).Sub(g.from, lim)).sub(d0)), leForm(d0.sub(linB(g.from)))}
			}
			e.sites["depth obligation"]++
			if !o.st.refutes(fs) {
				bad("cover", "refused", fmt.Sprintf("%s fails for a geometry that is nested no deeper than %s levels", what, lim), site, o.st)
			}
		default:
			bad("cover", "unknown", "error result of "+what+" not determined", site, o.st)
		}
	}
}

// coverModel replaces a geometry function by its contract. cover gives the
// box of the geometry in the argument.
func (e *Engine) coverModel(g *geomFn, cover func(st *State, c *callCtx, gp PtrV, before Val) Val) {
	e.models[fnKey(g.fn)] = func(e *Engine, c *callCtx) []Out {
		var outs []Out
		st := c.st
		pan, st := e.split(st, Form{k: 'a', a: freshAtom("corrupt:geometry", nil, nil)})
		if pan != nil {
			outs = append(outs, flatPanicOut(pan, c, e, "geometry"))
		}
		rets := func(bad bool) []Val {
			var r []Val
			for i := 0; i < c.sig.Results().Len(); i++ {
				switch {
				case i == g.errRes && bad:
					x := newErr("errorf", "geometry nested too deep", e.pos(c.site))
					x.exact, x.notEOF = true, true
					r = append(r, ErrV{x})
				case i == g.errRes:
					r = append(r, NilV{})
				default:
					r = append(r, freshVal(c.sig.Results().At(i).Type(), "geom"))
				}
			}
			return r
		}
		var p, h PtrV
		if g.bi >= 0 {
			p, _ = c.args[g.bi].(PtrV)
		}
		if g.gi >= 0 {
			h, _ = c.args[g.gi].(PtrV)
		}
		if g.errRes >= 0 {
			f := st.clone()
			f.note("%s: the geometry is nested too deep", e.pos(c.site))
			gSet(f, "toodeep", 1)
			if p.Obj != 0 {
				e.storeTo(f, p, freshVal(g.fn.Params[g.bi].Type().(*types.Pointer).Elem(), "box"), e.pos(c.site))
			}
			outs = append(outs, Out{st: f, rets: rets(true)})
		}
		if p.Obj != 0 {
			v := freshVal(g.fn.Params[g.bi].Type().(*types.Pointer).Elem(), "box")
			if h.Obj != 0 && cover != nil {
				if cv := cover(st, c, h, e.loadFrom(st, p)); cv != nil {
					v = cv
				}
			}
			e.storeTo(st, p, v, e.pos(c.site))
		}
		return append(outs, Out{st: st, rets: rets(false)})
	}
}

// emptyBox is the value of packedrtree.EmptyBox.
func (e *Engine) emptyBox(st *State) Val {
	pkg := e.ld.pkg(prtPath)
	gl := pkg.Var("EmptyBox")
	if gl == nil {
		return nil
	}
	id, ok := e.globals[gl]
	if !ok {
		return nil
	}
	if o, ok := st.heap[id]; ok {
		return o.val
	}
	if o, ok := e.initHeap[id]; ok {
		return o.val
	}
	return nil
}

func coverBox(name string, args ...*Lin) Val {
	s := StructV{}
	for i := 0; i < 4; i++ {
		a := mkAtom("in", fmt.Sprintf("cover%d:%s", i, name), nil, nil, args...)
		a.bits = 64
		s.F = append(s.F, FloatV{a})
	}
	return s
}

// installText models what the text functions use.
func installText(e *Engine) {
	m := e.models
	str := func(n string, res func() []Val) {
		m["(*strings.Builder)."+n] = func(e *Engine, c *callCtx) []Out { return []Out{{st: c.st, rets: res()}} }
	}
	cnt := func() Val { return IntV{linA(freshAtom("n", big0, lenHi)), true} }
	str("WriteString", func() []Val { return []Val{cnt(), NilV{}} })
	str("Write", func() []Val { return []Val{cnt(), NilV{}} })
	str("WriteRune", func() []Val { return []Val{cnt(), NilV{}} })
	str("WriteByte", func() []Val { return []Val{NilV{}} })
	str("Len", func() []Val { return []Val{cnt()} })
	str("Reset", func() []Val { return nil })
	m["(*strings.Builder).Grow"] = func(e *Engine, c *callCtx) []Out {
		if l := c.args[1].(IntV).L; !c.st.facts.entailsLE(l.neg()) {
			return []Out{{st: c.st, pan: &PanicInfo{kind: "explicit", site: e.pos(c.site), fn: c.site.Parent().String(), msg: "Grow by a count that may be negative"}}}
		}
		return []Out{{st: c.st}}
	}
	m["(*strings.Builder).String"] = func(e *Engine, c *callCtx) []Out { return one(c.st, freshStr("text")) }
	m["bytes.NewReader"] = func(e *Engine, c *callCtx) []Out {
		return one(c.st, OpqV{T: c.sig.Results().At(0).Type(), A: freshAtom("reader", nil, nil)})
	}
	for _, n := range []string{"strconv.Itoa", "strconv.FormatInt", "strconv.FormatUint", "strconv.Quote", "strconv.FormatFloat", "strings.Join", "strings.Repeat"} {
		if n == "strings.Repeat" {
			continue // panics on a negative count
		}
		m[n] = func(e *Engine, c *callCtx) []Out { return one(c.st, freshStr("text")) }
	}
	m[fgbPath+".NewPropReader"] = func(e *Engine, c *callCtx) []Out {
		T := c.sig.Results().At(0).Type().(*types.Pointer).Elem()
		return one(c.st, PtrV{Obj: c.st.alloc(T, OpqV{T: T, A: freshAtom("propreader", nil, nil)}, "alloc", e.pos(c.site))})
	}
	m["(*"+fgbPath+".PropReader).ReadSchema"] = func(e *Engine, c *callCtx) []Out {
		// its contract: C12, C13
		bad := c.st.clone()
		x := newErr("errorf", "properties", e.pos(c.site))
		x.exact, x.notEOF = true, true
		T := c.sig.Results().At(0).Type()
		return []Out{{st: bad, rets: []Val{freshVal(T, "vals"), ErrV{x}}}, {st: c.st, rets: []Val{freshVal(T, "vals"), NilV{}}}}
	}
}

// textChecks: HeaderString and FeatureString never panic, whatever the
// tables contain, and the bounds printed are those of the geometry.
func textChecks(ld *Loaded, e *Engine, gs []*geomFn) {
	installTree(e)
	installText(e)
	for _, name := range []string{"HeaderString", "FeatureString"} {
		fn := ld.fn(fgbPath, name)
		if fn == nil {
			e.violate("flat", "missing|"+name, name+" not found", "", nil)
			continue
		}
		site := ld.position(fn.Pos(), nil)
		st := e.entry()
		st.ghost = map[string]Val{}
		args := make([]Val, len(fn.Params))
		for i, p := range fn.Params {
			args[i] = symVal(p.Type(), name+"."+p.Name(), nil)
			if o, ok := args[i].(OpqV); ok {
				o.NilA = mkAtom("isnil", name+"."+p.Name(), nil, nil)
				args[i] = o
			}
		}
		for _, g := range gs {
			e.coverModel(g, func(st *State, c *callCtx, gp PtrV, before Val) Val {
				t, ok := e.tableOf(st, gp).(StructV)
				if !ok || len(t.F) != 2 {
					return nil
				}
				pos, ok := t.F[1].(IntV)
				if !ok {
					return nil
				}
				a := pos.L.singleAtom()
				if eb := e.emptyBox(st); eb == nil || valKey(before) != valKey(eb) || a == nil || !strings.HasPrefix(a.aux, "pos:Feature.Geometry(") {
					return nil
				}
				st.ghost["covered"] = IntV{linZero, false}
				return coverBox("text")
			})
		}
		strKey := "(" + prtPath + ".Box).String"
		old := e.models[strKey]
		e.models[strKey] = func(e *Engine, c *callCtx) []Out {
			e.sites["box printed"]++
			if valKey(c.args[0]) != valKey(coverBox("text")) {
				e.violate("cover", "printed|"+name, name+" prints bounds that are not those of the feature's geometry", e.pos(c.site), c.st)
			}
			return old(e, c)
		}
		for _, o := range e.callEntry(fn, st, args...) {
			e.sites["text outcome"]++
			if o.pan != nil {
				e.violate("flat", "panic|"+name, name+" panics: "+o.pan.msg, o.pan.site, o.st)
			}
		}
		e.models[strKey] = old
		e.sites["text function"]++
		_ = site
	}
}

func geomChecks(ld *Loaded, e *Engine) {
	gs := geomFns(ld, e)
	for _, g := range gs {
		geomCheck(ld, e, g)
	}
	for _, n := range []string{"Expand", "ExpandXY"} {
		delete(e.models, "(*"+prtPath+".Box)."+n)
	}
	textChecks(ld, e, gs)
}

func init() {
	checks["C10"] = &checkDef{
		explain: "The functions that call themselves are found in the call graph and interpreted for an arbitrary geometry and depth; recursive calls are taken by the contract being proved. Where one returns success, every coordinate pair and every part must have expanded the box; an error must come from a part or from a depth beyond the limit. In FileWriter.IndexData the ref at an arbitrary position must hold the box of the feature at that position, started from the empty box and not overwritten before sorting, and the bounds given to HilbertSort must have been expanded by every one of them. The bounds that FeatureString prints must be those of its geometry.",
		assume:  append([]string{"packedrtree.EmptyBox is not modified; Box.Expand and ExpandXY cover their argument (C17)", "the parts of a geometry are visited in ascending order, as are the features (a different order is reported)"}, ioAssume...),
		parts:   []partUse{{"geom", []string{"cover"}}, {"boxes", []string{"boxes", "cover"}}},
		run: func(ld *Loaded, r *Result) {
			r.need("recursive cycle", 1)
			r.need("recursive call", 2)
			r.need("coordinate obligation", 2)
			r.need("cover obligation", 2)
			r.need("depth obligation", 1)
			r.need("box obligation", 2)
			r.need("box recorded", 2)
			r.need("bounds expanded", 2)
			r.need("sort of refs", 2)
			r.need("box printed", 1)
		},
	}
	checks["C13"] = &checkDef{
		explain: readerExplain + writerExplain + "Every access to a table, in these and in ReadSchema, HeaderString and FeatureString, may panic because the table is corrupt; no path may let that panic leave an exported function. Every function that calls itself must count the depth from a constant up to a constant.",
		assume:  ioAssume,
		parts:   []partUse{{"reader", []string{"flat"}}, {"seekreader", []string{"flat"}}, {"writer", []string{"flat"}}, {"schema", []string{"flat"}}, {"geom", []string{"flat", "depth"}}},
		run: func(ld *Loaded, r *Result) {
			needReader(r)
			needWriter(r)
			r.need("table access", 500)
			r.need("recovered panic", 200)
			r.need("recursive call", 2)
			r.need("text function", 2)
			r.need("text outcome", 100)
			r.need("ReadSchema outcome", 10)
		},
	}
	partDefs["geom"] = &partDef{"geometry traversal and text functions", func(ld *Loaded, r *Result, e *Engine) { geomChecks(ld, e) }}
	checks["G"] = &checkDef{run: func(ld *Loaded, r *Result) {
		e := newEngine(ld)
		e.initGlobals()
		geomChecks(ld, e)
		r.takeAll(e)
	}}
}

// takeAll is for debugging: all violations and counters.
func (r *Result) takeAll(e *Engine) {
	for _, k := range e.order {
		v := e.viols[k]
		r.violate(v.Tag+"|"+v.Key, v.Site, v.Msg, v.Path...)
	}
	var ks []string
	for k := range e.sites {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Println("SITE", k, e.sites[k])
	}
	r.addCoverage(e)
}
