package main

// C10, second part: the box of every ref that IndexData sorts and indexes is
// the box of its feature, and the bounds are expanded by all of them. The
// client is that of FileWriter, reduced to the calls that lead to an index;
// the geometry functions are taken by the contract proved in geom.go.
//
// Ghosts: bx counts the features whose ref is known to hold their box, in
// order; be those that have expanded the bounds; bs tells what is known of
// feature bx: 1 that it has no geometry, 2 that the box of its geometry is
// coverBox("ref", bx); eb is the object that holds the bounds.

import (
	"go/types"
)

type boxSpec struct {
	w       *wspec
	gs      []*geomFn
	sorting bool
}

var boundsMark = coverBox("bounds")

func (b *boxSpec) begin(st *State) {
	st.ghost["bx"], st.ghost["be"] = IntV{linZero, true}, IntV{linZero, true}
	gSet(st, "bs", 0)
	gSet(st, "eb", 0)
	gSet(st, "toodeep", 0)
	gSet(st, "ro", 0)
	gSet(st, "sorted", 0)
	b.sorting = false
	st.ghost["gpos"] = NilV{}
}

var boxGhosts = []string{"bx", "be", "bs", "eb", "gpos", "toodeep", "ro", "sorted"}

func (b *boxSpec) active() bool {
	a := b.w.api
	return a != nil && (a.name == "IndexData" || a.name == "IndexDataPtr")
}

// isRefs: an array of packedrtree.Ref.
func isRefs(T types.Type) bool {
	a, ok := T.(*types.Array)
	if !ok {
		return false
	}
	n, ok := a.Elem().(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == prtPath && n.Obj().Name() == "Ref"
}

func (b *boxSpec) boxField() int {
	return fieldIndex(b.w.ld.byPath[prtPath].Types.Scope().Lookup("Ref").Type(), "Box")
}

// feature is the argument feature at index k.
func (b *boxSpec) feature(st *State, k *Lin) (PtrV, bool) {
	sl, ok := b.w.args[0].(SliceV)
	if !ok || sl.Obj == 0 {
		return PtrV{}, false
	}
	p := PtrV{Obj: sl.Obj, Path: appendSel(sl.Path, Sel{Field: -1, Idx: sl.Off.add(k)})}
	if q, ok := b.w.e.loadFrom(st, p).(PtrV); ok {
		p = q
	}
	return p, true
}

// current is the box that the ref of feature bx must hold.
func (b *boxSpec) current(st *State) Val {
	switch gInt(st, "bs") {
	case 1:
		return b.w.e.emptyBox(st)
	case 2:
		return coverBox("ref", gLin(st, "bx", linZero))
	}
	return nil
}

func (b *boxSpec) same(st *State, x, y Val) bool {
	if x == nil || y == nil {
		return false
	}
	s, ok1 := x.(StructV)
	t, ok2 := y.(StructV)
	if !ok1 || !ok2 || len(s.F) != len(t.F) {
		return false
	}
	for i := range s.F {
		a, ok1 := s.F[i].(FloatV)
		b, ok2 := t.F[i].(FloatV)
		if !ok1 || !ok2 || a.A != b.A && !st.linEq(linA(a.A), linA(b.A)) {
			return false
		}
	}
	return true
}

// sync counts feature bx once some list of refs holds its box.
func (b *boxSpec) sync(st *State) {
	cur := b.current(st)
	if cur == nil {
		return
	}
	bx := gLin(st, "bx", linZero)
	for id, o := range st.heap {
		if !isRefs(o.T) {
			continue
		}
		a, ok := o.val.(*Arr)
		if !ok {
			continue
		}
		r, ok := st.arrLoad(a, bx).(StructV)
		if ok && b.same(st, r.F[b.boxField()], cur) {
			if old := gInt(st, "ro"); old > 0 && old != int64(id) {
				continue
			}
			gSet(st, "ro", int64(id))
			st.ghost["bx"] = IntV{bx.addC(1), true}
			gSet(st, "bs", 0)
			st.ghost["gpos"] = NilV{}
			b.w.e.sites["box recorded"]++
			return
		}
	}
}

func (b *boxSpec) ev(st *State, ev *Event) {
	if !b.active() {
		return
	}
	w := b.w
	switch ev.Kind {
	case "table", "notable":
		if ev.Name != "Feature.Geometry" {
			return
		}
		w.e.sites["geometry looked up"]++
		b.sync(st)
		f, ok := b.feature(st, gLin(st, "bx", linZero))
		if !ok || !st.valEq(f, ev.Recv) {
			return // not the next feature
		}
		if gInt(st, "bs") != 0 {
			return
		}
		if ev.Kind == "notable" {
			gSet(st, "bs", 1)
			return
		}
		if p, ok := ev.Args[0].(PtrV); ok {
			if t, ok := w.e.tableOf(st, p).(StructV); ok && len(t.F) == 2 {
				st.ghost["gpos"] = t.F[1]
			}
		}
	case "hilbertsort":
		b.sync(st)
		b.sorting = true
		w.e.sites["sort of refs"]++
		data, ok := w.args[0].(SliceV)
		n := linZero
		if ok && data.Obj != 0 {
			n = data.Len
		}
		bx, be := gLin(st, "bx", linZero), gLin(st, "be", linZero)
		if st.facts.entailsLE(n) {
			return
		}
		if !st.facts.entailsLE(n.sub(bx)) || ev.Buf.Obj == 0 || int64(ev.Buf.Obj) != gInt(st, "ro") && !st.facts.entailsLE(n) {
			w.bad("boxes", "ref", "the index may be built from a ref whose box is not the bounds of its feature", ev.Site, st)
			return
		}
		if !st.facts.entailsLE(n.sub(be)) || !b.same(st, ev.Args[1], boundsMark) {
			w.bad("boxes", "bounds", "the bounds used for sorting may leave out the box of a feature", ev.Site, st)
		}
	case "hilbertsorted":
		b.sorting = false
		gSet(st, "sorted", 1)
	case "newtree":
		if n := gLin(st, "bx", linZero); !n.isConstI(0) && gInt(st, "sorted") == 0 {
			// unsorted refs: the boxes must be right all the same
			data, _ := w.args[0].(SliceV)
			if data.Obj != 0 && !st.facts.entailsLE(data.Len.sub(n)) || int64(ev.Buf.Obj) != gInt(st, "ro") {
				w.bad("boxes", "ref", "the index may be built from a ref whose box is not the bounds of its feature", ev.Site, st)
			}
		}
	}
}

// cover is the box of the geometry of feature bx.
func (b *boxSpec) cover(st *State, c *callCtx, gp PtrV, before Val) Val {
	if !b.active() {
		return nil
	}
	e := b.w.e
	t, ok := e.tableOf(st, gp).(StructV)
	if !ok || len(t.F) != 2 {
		return nil
	}
	pos, ok1 := t.F[1].(IntV)
	want, ok2 := st.ghost["gpos"].(IntV)
	if !ok1 || !ok2 || !st.linEq(pos.L, want.L) {
		return nil
	}
	e.sites["box obligation"]++
	if eb := e.emptyBox(st); eb == nil || !b.same(st, before, eb) {
		b.w.bad("boxes", "fresh", "the box of a feature does not start from the empty box", e.pos(c.site), st)
		return nil
	}
	gSet(st, "bs", 2)
	return coverBox("ref", gLin(st, "bx", linZero))
}

// expand is (*Box).Expand and ExpandXY.
func (b *boxSpec) expand(name string) modelFn {
	return func(e *Engine, c *callCtx) []Out {
		p, ok := c.args[0].(PtrV)
		if !ok {
			return []Out{e.nilPanic(c.st, c.site, c.site.Parent())}
		}
		st := c.st
		old := e.loadFrom(st, p)
		T := c.fn.Signature.Recv().Type().(*types.Pointer).Elem()
		if !b.active() || name != "Expand" {
			e.storeTo(st, p, freshVal(T, "box"), e.pos(c.site))
			return []Out{{st: st}}
		}
		isBounds := gInt(st, "eb") == int64(p.Obj) && len(p.Path) == 0 && b.same(st, old, boundsMark)
		if gInt(st, "eb") == 0 && len(p.Path) == 0 && b.same(st, old, e.emptyBox(st)) {
			gSet(st, "eb", int64(p.Obj))
			isBounds = true
		}
		if !isBounds {
			e.storeTo(st, p, freshVal(T, "box"), e.pos(c.site))
			return []Out{{st: st}}
		}
		// the box of the next feature: not recorded yet, or in its ref
		next := false
		q, ok := c.args[1].(PtrV)
		be := gLin(st, "be", linZero)
		if cur := b.current(st); ok && cur != nil && st.facts.entailsEQ(be.sub(gLin(st, "bx", linZero))) {
			next = b.same(st, e.loadFrom(st, q), cur)
		}
		b.sync(st)
		bx := gLin(st, "bx", linZero)
		if ok && !next {
			if o := st.obj(q.Obj); isRefs(o.T) && int64(q.Obj) == gInt(st, "ro") && len(q.Path) == 2 && q.Path[0].Idx != nil && q.Path[1].Field == b.boxField() {
				next = st.linEq(q.Path[0].Idx, be) && st.facts.entailsLE(be.addC(1).sub(bx))
			}
		}
		if next {
			e.sites["bounds expanded"]++
			st.ghost["be"] = IntV{be.addC(1), true}
		}
		hook := e.storeHook
		e.storeHook = nil
		e.storeTo(st, p, boundsMark, e.pos(c.site))
		e.storeHook = hook
		return []Out{{st: st}}
	}
}

// hook watches the boxes that were counted.
func (b *boxSpec) hook(st *State, p PtrV, old, v Val, site string) {
	if !b.active() || b.sorting {
		return
	}
	if o := st.obj(p.Obj); isRefs(o.T) && int64(p.Obj) == gInt(st, "ro") && gInt(st, "sorted") == 0 {
		if len(p.Path) >= 2 && p.Path[1].Field != b.boxField() {
			return
		}
		if len(p.Path) == 1 {
			// a whole ref whose box stays the same
			if n, ok := v.(StructV); ok && p.Path[0].Idx != nil {
				if r, ok := st.arrLoad(old.(*Arr), p.Path[0].Idx).(StructV); ok && st.valEq(n.F[b.boxField()], r.F[b.boxField()]) {
					return
				}
			}
		}
		bx, be := gLin(st, "bx", linZero), gLin(st, "be", linZero)
		if len(p.Path) > 0 && p.Path[0].Idx != nil && st.facts.entailsLE(bx.sub(p.Path[0].Idx)) && st.facts.entailsLE(be.sub(p.Path[0].Idx)) {
			return
		}
		// the box of feature bx, after the bounds were expanded by it
		if cur := b.current(st); cur != nil && len(p.Path) > 0 && p.Path[0].Idx != nil && st.facts.entailsEQ(p.Path[0].Idx.sub(bx)) {
			if n, ok := v.(StructV); ok && (len(p.Path) == 2 && b.same(st, n, cur) || len(p.Path) == 1 && b.same(st, n.F[b.boxField()], cur)) {
				return
			}
		}
		b.w.bad("boxes", "overwritten", "the box of a feature is overwritten after it was determined", site, st)
	}
}

func boxesClient(ld *Loaded, e *Engine) {
	gs := geomFns(ld, e)
	for _, g := range gs {
		if g.gi < 0 || g.bi < 0 {
			e.violate("cover", "undecided|"+g.fn.String(), "the recursive function "+g.fn.String()+" does not take a geometry and a box", ld.position(g.fn.Pos(), nil), nil)
		}
	}
	writerClientWith(ld, e, &boxSpec{gs: gs})
}

func init() {
	partDefs["boxes"] = &partDef{"boxes of the refs made by FileWriter.IndexData", func(ld *Loaded, r *Result, e *Engine) { boxesClient(ld, e) }}
	checks["B"] = &checkDef{run: func(ld *Loaded, r *Result) {
		e := newEngine(ld)
		e.initGlobals()
		boxesClient(ld, e)
		r.takeAll(e)
	}}
}
