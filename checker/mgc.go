package main

// The most general client: every sequence of calls of the exported methods of
// a type, as a fixpoint over the states in which a call can find it.

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"

	"golang.org/x/tools/go/ssa"
)

type mgcAPI struct {
	name string
	fn   *ssa.Function
	// args makes the arguments of one call; it may return several cases
	args func(st *State, n int) [][]Val
}

type mgc struct {
	e     *Engine
	name  string
	recv  Val
	apis  []*mgcAPI
	begin func(st *State, a *mgcAPI, args []Val)          // before a call
	end   func(pre *State, a *mgcAPI, args []Val, o Out)  // after a call: obligations
	keep  func(st *State, a *mgcAPI, args []Val) []*State // the states in which the next call can find it
	cands func(st *State) []Fact                          // facts worth keeping when states are joined
	count map[string]int
}

// exportedMethods lists the exported methods of a named type.
func (ld *Loaded) exportedMethods(path, typ string) []*ssa.Function {
	p := ld.byPath[path]
	if p == nil {
		return nil
	}
	o := p.Types.Scope().Lookup(typ)
	if o == nil {
		return nil
	}
	ms := types.NewMethodSet(types.NewPointer(o.Type()))
	var r []*ssa.Function
	for i := 0; i < ms.Len(); i++ {
		f, ok := ms.At(i).Obj().(*types.Func)
		if !ok || !f.Exported() {
			continue
		}
		if fn := ld.prog.MethodValue(ms.At(i)); fn != nil {
			r = append(r, fn)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Name() < r[j].Name() })
	return r
}

func (m *mgc) run(start *State) {
	e := m.e
	f := e.newFix("client:" + m.name)
	f.mgc = true
	e.cands = m.cands
	defer func() { e.cands = nil }()
	f.cands = m.cands
	f.live = map[int]bool{0: true}
	gen := map[string]*Conf{}
	ex := map[string]*explo{}
	var order, dirty []string
	add := func(st *State, base Facts) {
		// what held before the call still holds
		have := map[string]bool{}
		for _, x := range st.facts {
			have[x.key()] = true
		}
		for _, x := range base {
			if !have[x.key()] {
				st.facts = append(st.facts[:len(st.facts):len(st.facts)], x)
			}
		}
		d := &Conf{env: []Val{m.recv}, st: st}
		f.gc(d)
		m.dropFacts(d)
		s := f.sig(d)
		g, ok := gen[s]
		if !ok {
			gen[s] = d
			order = append(order, s)
			dirty = append(dirty, s)
			return
		}
		j, changed := f.join(s, g, d)
		if changed {
			gen[s] = j
			for _, x := range dirty {
				if x == s {
					return
				}
			}
			dirty = append(dirty, s)
		}
	}
	add(start, nil)
	total := 0
	for len(dirty) > 0 {
		s := dirty[0]
		dirty = dirty[1:]
		total++
		if total > 3000 {
			panic(undecided("no fixpoint for the client of " + m.name))
		}
		if debugFix {
			fmt.Printf("MGC %s explore %s (total %d, states %d)\n", f.name, trunc(s, 400), total, len(order))
			dumpConf(gen[s])
		}
		ov, oo := e.swapViols()
		var news []*State
		for _, a := range m.apis {
			base := gen[s].st
			tmp := base.clone()
			for _, args := range a.args(tmp, total) {
				pre := tmp.clone()
				pre.trace = nil
				pre.note("%s.%s called in state {%s}", m.name, a.name, trunc(describeClient(pre, m.recv), 200))
				st := pre.clone()
				m.begin(st, a, args)
				for _, o := range e.callEntry(a.fn, st, append([]Val{m.recv}, args...)...) {
					m.count[a.name]++
					m.end(pre, a, args, o)
					if o.pan != nil {
						continue
					}
					news = append(news, m.keep(o.st, a, args)...)
				}
			}
		}
		ex[s] = &explo{viols: e.viols, order: e.order}
		e.viols, e.order = ov, oo
		base := gen[s].st.facts
		for _, st := range news {
			add(st, base)
		}
	}
	for _, s := range order {
		e.mergeViols(ex[s].viols, ex[s].order)
	}
	e.sites["client states of "+m.name] += len(order)
	e.sites["client explorations of "+m.name] += total
}

func describeClient(st *State, recv Val) string {
	if p, ok := recv.(PtrV); ok {
		return showVal(st.obj(p.Obj).val)
	}
	return ""
}

// dropFacts forgets facts about things the state no longer refers to.
func (m *mgc) dropFacts(d *Conf) {
	used := map[*Atom]bool{}
	var visit func(v Val)
	mark := func(l *Lin) {
		if l != nil {
			for a := range l.deps() {
				used[a] = true
			}
		}
	}
	seen := map[int]bool{}
	visit = func(v Val) {
		switch v := v.(type) {
		case IntV:
			mark(v.L)
		case BoolV:
			mark(v.F.l)
			if v.F.a != nil {
				mark(linA(v.F.a))
			}
		case StrV:
			mark(v.Len)
		case PtrV:
			if v.NilA != nil {
				used[v.NilA] = true
			}
			for _, s := range v.Path {
				mark(s.Idx)
			}
		case SliceV:
			if v.NilA != nil {
				used[v.NilA] = true
			}
			mark(v.Off)
			mark(v.Len)
			mark(v.Cap)
		case OpqV:
			if v.NilA != nil {
				used[v.NilA] = true
			}
		case IfaceV:
			visit(v.V)
		case StructV:
			for _, x := range v.F {
				visit(x)
			}
		case *Arr:
			mark(v.N)
			for _, a := range v.VArgs {
				mark(a)
			}
			for i := range v.ents {
				mark(v.ents[i].lo)
				mark(v.ents[i].hi)
				mark(v.ents[i].off)
				if v.ents[i].v != nil {
					visit(v.ents[i].v)
				}
				if v.ents[i].src != nil {
					visit(v.ents[i].src)
				}
			}
		}
		refs(v, func(id int) {
			if id != 0 && !seen[id] {
				seen[id] = true
				if o, ok := d.st.heap[id]; ok {
					visit(o.val)
				}
			}
		})
	}
	visit(m.recv)
	for _, v := range d.st.ghost {
		visit(v)
	}
	for i, o := range d.st.heap {
		if !seen[i] && o.tag != "global" {
			visit(o.val)
		}
	}
	drop := func(a *Atom) bool { return !used[a] && len(a.args) == 0 }
	facts := d.st.facts
	// eliminate the atoms to forget, first by equalities
	for n := 0; n < 40; n++ {
		var at *Atom
		var val *Lin
	search:
		for _, x := range facts {
			if x.k != fEQ && (x.k != fLE || len(x.l.t) > 3) {
				continue
			}
			for _, t := range x.l.t {
				if !drop(t.a) || t.k.CmpAbs(big1) != 0 {
					continue
				}
				rest := x.l.sub(linZero.addScaled(linA(t.a), t.k))
				if rest.deps()[t.a] || x.k == fLE && !facts.entailsLE(x.l.neg()) {
					continue
				}
				at, val = t.a, rest.scale(new(big.Int).Neg(t.k))
				break search
			}
		}
		if at == nil {
			break
		}
		s := Subst{at: val}
		var rest Facts
		if at.lo != nil {
			rest = append(rest, Fact{k: fLE, l: linB(at.lo).sub(val)})
		}
		if at.hi != nil {
			rest = append(rest, Fact{k: fLE, l: val.sub(linB(at.hi))})
		}
		for _, x := range facts {
			if x.k != fBool {
				x.l = x.l.subst(s)
			}
			if x.k != fBool && x.l.isConst() {
				continue
			}
			rest = append(rest, x)
		}
		facts = rest
	}
	// then by combining bounds
	for n := 0; n < 40; n++ {
		var at *Atom
		for _, x := range facts {
			if x.k != fLE {
				continue
			}
			for _, t := range x.l.t {
				if drop(t.a) && t.k.CmpAbs(big1) == 0 {
					at = t.a
				}
			}
		}
		if at == nil {
			break
		}
		var lo, hi []*Lin
		var rest Facts
		for _, x := range facts {
			if x.k == fBool || !x.l.deps()[at] {
				rest = append(rest, x)
				continue
			}
			if c := x.l.coef(at); x.k == fLE && c.CmpAbs(big1) == 0 {
				if c.Sign() > 0 {
					hi = append(hi, x.l)
				} else {
					lo = append(lo, x.l)
				}
			}
		}
		if len(lo)*len(hi) <= 64 {
			for _, x := range lo {
				for _, y := range hi {
					if l := x.add(y); !l.isConst() && len(l.t) <= 4 {
						rest = append(rest, Fact{k: fLE, l: l})
					}
				}
			}
		}
		facts = rest
	}
	var kept Facts
	seenF := map[string]bool{}
	for _, x := range facts {
		if seenF[x.key()] {
			continue
		}
		seenF[x.key()] = true
		if x.k == fBool {
			// facts about the environment stay
			if used[x.a] || persistentAtom(x.a) {
				kept = append(kept, x)
			}
			continue
		}
		ok := true
		for a := range x.l.deps() {
			if drop(a) {
				ok = false
				break
			}
		}
		if ok {
			kept = append(kept, x)
		}
	}
	d.st.facts = minimizeFacts(kept, func(l *Lin) bool { return false })
}

// persistentAtom: a property of the environment or of the stream contents
// that stays what it is between calls.
func persistentAtom(a *Atom) bool {
	return a.freshNo() == 0
}
