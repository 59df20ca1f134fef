package main

// The list of pending nodes of a search: whatever is put in comes out once.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// list is the list that p points to.
func listAt(st *State, p PtrV) (SliceV, *Arr, bool) {
	sv, ok := st.loadPath(st.obj(p.Obj).val, p.Path).(SliceV)
	if !ok || sv.Obj == 0 {
		return sv, nil, false
	}
	a, ok := st.loadPath(st.obj(sv.Obj).val, sv.Path).(*Arr)
	return sv, a, ok
}

// methodOf finds a method of a type.
func (e *Engine) methodOf(T types.Type, name string) *ssa.Function {
	ms := e.ld.prog.MethodSets.MethodSet(T)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return e.ld.prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

type bagCheck struct {
	s     *searchSpec
	e     *Engine
	list  PtrV
	old   *Arr
	off   *Lin
	n     *Lin
	x     Val
	T     types.Type
	where string
}

// added: the list is the old one with x at the end.
func (b *bagCheck) added(st *State, x Val) bool {
	sv, a, ok := listAt(st, b.list)
	if !ok || !st.linEq(sv.Len, b.n.addC(1)) || !st.valEq(st.arrLoad(a, sv.Off.add(b.n)), x) {
		return false
	}
	return b.same(st, sv, a, b.n, 0)
}

// same: the first n elements are the old ones from d.
func (b *bagCheck) same(st *State, sv SliceV, a *Arr, n *Lin, d int64) bool {
	st = st.clone()
	k := linA(freshAtom("k", big0, lenHi))
	st.assume(leForm(k.addC(1).sub(n)))
	old, off := b.before(st)
	return st.valEq(st.arrLoad(a, sv.Off.add(k)), st.arrLoad(old, off.add(k).addC(d)))
}

// taken: the list is the old one without v.
func (b *bagCheck) taken(st *State, v Val) bool {
	p := b.list
	sv, ok := st.loadPath(st.obj(p.Obj).val, p.Path).(SliceV)
	if !ok || !st.linEq(sv.Len, b.n.addC(-1)) {
		return false
	}
	old, off := b.before(st)
	a := old
	if sv.Obj != 0 {
		if a, ok = st.loadPath(st.obj(sv.Obj).val, sv.Path).(*Arr); !ok {
			return false
		}
	}
	if st.valEq(v, st.arrLoad(old, off.add(b.n).addC(-1))) && b.same(st, sv, a, sv.Len, 0) {
		return true
	}
	return st.valEq(v, st.arrLoad(old, off)) && b.same(st, sv, a, sv.Len, 1)
}

func unbox(v Val) Val {
	if i, ok := v.(IfaceV); ok {
		return i.V
	}
	return v
}

// permute forgets the order of the elements, which Swap may have changed.
func (b *bagCheck) permute(st *State) {
	sv, a, ok := listAt(st, b.list)
	if !ok {
		return
	}
	symN++
	n := &Arr{Elem: a.Elem, N: a.N, Ver: fmt.Sprintf("permuted#%d", symN)}
	st.setObj(sv.Obj, st.storePath(st.obj(sv.Obj).val, sv.Path, n))
	st.ghost["bag"], st.ghost["bagoff"] = n, IntV{sv.Off, true}
}

// before is the list to compare with.
func (b *bagCheck) before(st *State) (*Arr, *Lin) {
	if a, ok := st.ghost["bag"].(*Arr); ok {
		return a, gLin(st, "bagoff", linZero)
	}
	return b.old, b.off
}

// sortable checks the methods that container/heap uses beside Push and Pop.
func (b *bagCheck) sortable(st *State, T types.Type, recv Val, site string) {
	e := b.e
	sv, a, ok := listAt(st, b.list)
	fl, fs, fn := e.methodOf(T, "Less"), e.methodOf(T, "Swap"), e.methodOf(T, "Len")
	if !ok || fl == nil || fs == nil || fn == nil {
		panic(undecided("methods of the heap at " + site))
	}
	for _, o := range e.execFunc(fn, []Val{recv}, nil, st.clone(), 1, false) {
		v, ok := Val(nil), false
		if o.pan == nil {
			v, ok = o.rets[0], true
		}
		if x, isI := v.(IntV); !ok || !isI || !o.st.linEq(x.L, sv.Len) {
			e.violate("search", "len|"+b.where, "the Len method of the list of pending nodes does not give its length", e.ld.position(fn.Pos(), nil), o.st)
		}
	}
	i, j := linA(freshAtom("i", big0, lenHi)), linA(freshAtom("j", big0, lenHi))
	probe := st.clone()
	probe.assume(leForm(i.sub(sv.Len).addC(1)))
	probe.assume(leForm(j.sub(sv.Len).addC(1)))
	same := probe.clone()
	same.assume(eqForm(i.sub(j)))
	probe.assume(eqForm(i.sub(j)).not())
	for _, p := range []*State{probe, same} {
		x, y := p.arrLoad(a, sv.Off.add(i)), p.arrLoad(a, sv.Off.add(j))
		k := linA(freshAtom("k", big0, lenHi))
		p.assume(leForm(k.sub(sv.Len).addC(1)))
		p.assume(eqForm(i.sub(k)).not())
		p.assume(eqForm(j.sub(k)).not())
		z := p.arrLoad(a, sv.Off.add(k))
		for _, o := range e.execFunc(fs, []Val{recv, IntV{i, true}, IntV{j, true}}, nil, p.clone(), 1, false) {
			bad := o.pan != nil
			if !bad {
				nv, na, ok := listAt(o.st, b.list)
				bad = !ok || !o.st.linEq(nv.Len, sv.Len) || !o.st.valEq(o.st.arrLoad(na, nv.Off.add(i)), y) || !o.st.valEq(o.st.arrLoad(na, nv.Off.add(j)), x) ||
					!o.st.valEq(o.st.arrLoad(na, nv.Off.add(k)), z)
			}
			e.sites["Swap outcome"]++
			if bad {
				e.violate("search", "swap|"+b.where, "the Swap method of the list of pending nodes does not just exchange two of them", e.ld.position(fs.Pos(), nil), o.st)
			}
		}
	}
	num := func(v Val) *Lin {
		if x, ok := v.(StructV); ok && b.s.order >= 0 && b.s.order < len(x.F) {
			if y, ok := x.F[b.s.order].(IntV); ok {
				return y.L
			}
		}
		return nil
	}
	x, y := num(probe.arrLoad(a, sv.Off.add(i))), num(probe.arrLoad(a, sv.Off.add(j)))
	for _, o := range e.execFunc(fl, []Val{recv, IntV{i, true}, IntV{j, true}}, nil, probe.clone(), 1, false) {
		bad := o.pan != nil || x == nil || y == nil
		if !bad {
			v, ok := o.rets[0].(BoolV)
			if !ok {
				bad = true
			} else {
				t, n := e.split(o.st, v.F)
				bad = t != nil && !t.facts.entailsLE(x.sub(y)) || n != nil && !n.facts.entailsLE(y.sub(x))
			}
		}
		e.sites["Less outcome"]++
		if bad {
			e.violate("order", "less|"+b.where, "the Less method of the list of pending nodes does not compare the positions of the nodes", e.ld.position(fl.Pos(), nil), o.st)
		}
	}
}

// heapCall models container/heap.Push and Pop: Push or Pop of the list, and
// Swap any number of times.
func (b *bagCheck) heapCall(c *callCtx, pop bool) (r []Out) {
	e, site := b.e, b.e.pos(c.site)
	iv, ok := c.args[0].(IfaceV)
	p, ok2 := unbox(c.args[0]).(PtrV)
	if !ok || !ok2 || p.Obj != b.list.Obj || pathKey(p.Path) != pathKey(b.list.Path) || c.st.ghost["bag"] != nil {
		panic(undecided("heap at " + site))
	}
	b.sortable(c.st, iv.T, iv.V, site)
	if pop {
		b.permute(c.st)
		fn := e.methodOf(iv.T, "Pop")
		for _, o := range e.execFunc(fn, []Val{iv.V}, nil, c.st, c.depth+1, false) {
			if o.pan == nil && !b.taken(o.st, unbox(o.rets[0])) {
				e.violate("search", "pop|"+b.where, "the Pop method of the list of pending nodes does not take the last node from it", e.ld.position(fn.Pos(), nil), o.st)
			}
			if o.pan == nil && b.s.ordered {
				// container/heap moves the first node to the end
				old, off := b.before(o.st)
				if !o.st.valEq(unbox(o.rets[0]), o.st.arrLoad(old, off.add(b.n).addC(-1))) {
					e.violate("order", "poplast|"+b.where, "the Pop method of the list of pending nodes does not take the last node from it", e.ld.position(fn.Pos(), nil), o.st)
				}
			}
			r = append(r, o)
		}
		return r
	}
	fn := e.methodOf(iv.T, "Push")
	for _, o := range e.execFunc(fn, []Val{iv.V, c.args[1]}, nil, c.st, c.depth+1, false) {
		if o.pan == nil {
			if !b.added(o.st, b.x) {
				e.violate("search", "push|"+b.where, "the Push method of the list of pending nodes does not add the node to it", e.ld.position(fn.Pos(), nil), o.st)
			}
			b.permute(o.st)
		}
		r = append(r, o)
	}
	return r
}

// bags checks the functions that put nodes into the list and take them out.
func (s *searchSpec) bags() {
	for _, pop := range []bool{false, true} {
		fns := s.pushes
		if pop {
			fns = s.pops
		}
		for fn := range fns {
			s.bagFnCheck(fn, pop)
		}
	}
}

func (s *searchSpec) bagFnCheck(fn *ssa.Function, pop bool) {
	e := s.e
	where := strings.TrimPrefix(fn.String(), prtPath+".")
	site := e.ld.position(fn.Pos(), nil)
	e.sites["list function"]++
	st := e.entry()
	T := fn.Params[0].Type().Underlying().(*types.Pointer).Elem()
	sv := symVal(T, "list", nil).(SliceV)
	sv.NilA = nil
	list := PtrV{Obj: st.alloc(T, sv, "param", "list")}
	if pop {
		st.assume(leForm(linC(1).sub(sv.Len)))
	}
	b := &bagCheck{s: s, e: e, list: list, old: st.loadPath(st.obj(sv.Obj).val, sv.Path).(*Arr), off: sv.Off, n: sv.Len, T: T, where: where}
	args := []Val{list}
	if !pop {
		b.x = symVal(fn.Params[1].Type(), "ticket", nil)
		args = append(args, b.x)
	}
	old := map[string]modelFn{}
	for i, n := range []string{"container/heap.Push", "container/heap.Pop"} {
		old[n] = e.models[n]
		i := i
		e.models[n] = func(e *Engine, c *callCtx) []Out { return b.heapCall(c, i == 1) }
	}
	defer func() {
		for n, m := range old {
			if m == nil {
				delete(e.models, n)
			} else {
				e.models[n] = m
			}
		}
	}()
	for _, o := range e.callEntry(fn, st, args...) {
		if o.pan != nil {
			e.violate("search", "panic|"+where, where+" panics: "+o.pan.msg, o.pan.site, o.st)
			continue
		}
		_, heap := o.st.ghost["bag"].(*Arr)
		if s.ordered && !heap {
			e.violate("order", "heap|"+where, where+" does not keep the nodes of a stream search in order", site, o.st)
		}
		switch {
		case pop && !b.taken(o.st, o.rets[0]):
			e.violate("search", "taken|"+where, where+" does not take one node from the list", site, o.st)
		case !pop && heap:
			nv, a, ok := listAt(o.st, b.list)
			if !ok || !o.st.linEq(nv.Len, b.n.addC(1)) || !b.same(o.st, nv, a, nv.Len, 0) {
				e.violate("search", "added|"+where, where+" does not add one node to the list", site, o.st)
			}
		case !pop && !b.added(o.st, b.x):
			e.violate("search", "added|"+where, where+" does not add the node to the list", site, o.st)
		}
	}
}
