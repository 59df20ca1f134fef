package main

// Recurrences: functions of a counter given by their value at zero and their
// step, such as running sums. A join recognises values that follow one.

import (
	"fmt"
	"math/big"
)

type recTheory struct {
	name   string
	lo, hi *big.Int
	init   *Lin
	step   func(st *State, k *Lin) *Lin // value(k+1)-value(k); nil: not determined
	val    func(k *Lin) *Lin            // the value where it is known otherwise; may be nil
	ax     func(fs conds, k, v *Lin) []*Lin
	link   *Atom // the axioms say something about it
	pair   func(fs conds, k1, v1, k2, v2 *Lin) []*Lin
}

var recByName = map[string]*recTheory{}

func (t *recTheory) at(k *Lin) *Lin {
	if k.isConst() && k.c.Sign() == 0 {
		return t.init
	}
	if t.val != nil {
		if v := t.val(k); v != nil {
			return v
		}
	}
	return linA(mkAtom("rec", t.name, t.lo, t.hi, k))
}

// is: v is certainly the value at k.
func (t *recTheory) is(st *State, v, k *Lin, depth int) bool {
	if st.linEq(v, t.at(k)) {
		return true
	}
	if depth == 0 || !st.facts.entailsLE(linC(1).sub(k)) {
		return st.facts.entailsEQ(k) && st.linEq(v, t.init)
	}
	s := t.step(st, k.addC(-1))
	return s != nil && t.is(st, v.sub(s), k.addC(-1), depth-1)
}

// recCells expresses cells by a recurrence over another cell.
func (j *joiner) recCells(elim Subst) {
	f := j.f
	if gInt(j.G, "searching") == 1 {
		return // no number of nodes is counted up any more
	}
	for i, c := range j.cells {
		if _, ok := elim[c.mu]; ok {
			continue
		}
	search:
		for _, t := range f.e.recs {
			for d := int64(0); d <= 1; d++ {
				for k, x := range j.cells {
					if k == i {
						continue
					}
					gk, bk := x.g.addC(d), x.b.addC(d)
					if !j.G.facts.entailsLE(gk.neg()) || !j.B.facts.entailsLE(bk.neg()) {
						continue
					}
					if t.is(j.G, c.g, gk, 2) && t.is(j.B, c.b, bk, 2) {
						l := t.at(linA(x.mu).addC(d)).subst(elim)
						if l.deps()[c.mu] {
							continue
						}
						s := Subst{c.mu: l}
						for k := range elim {
							elim[k] = elim[k].subst(s)
						}
						elim[c.mu] = l
						break search
					}
				}
			}
		}
	}
}

// recPoint gives v(k) with v(p)=a and v(p+1)=b by a recurrence.
func (st *State) recPoint(recs []*recTheory, a, b, p, k *Lin) (*Lin, bool) {
	for _, t := range recs {
		for d := int64(0); d <= 1; d++ {
			if st.facts.entailsLE(p.neg()) && t.is(st, a, p.addC(d), 2) && t.is(st, b, p.addC(d+1), 2) {
				return t.at(k.addC(d)), true
			}
		}
	}
	return nil, false
}

// unknownAt is a value of which only the place in a summary is known.
func unknownAt(v Val, name string, k *Lin) (Val, bool) {
	switch v.(type) {
	case IntV:
		return IntV{linA(mkAtom("un", name, nil, nil, k)), true}, true
	case FloatV:
		return FloatV{mkAtom("un", name, nil, nil, k)}, true
	}
	return nil, false
}

// fits: a value may be added to a summary whose value at its place is s.
func (st *State) fits(s, v Val) bool {
	switch x := s.(type) {
	case FloatV:
		if _, ok := v.(FloatV); ok && x.A.kind == "un" {
			return true
		}
	case IntV:
		if _, ok := v.(IntV); ok {
			if a := x.L.singleAtom(); a != nil && a.kind == "un" {
				return true
			}
		}
	case StructV:
		y, ok := v.(StructV)
		if !ok || len(x.F) != len(y.F) {
			return false
		}
		for i := range x.F {
			if !st.fits(x.F[i], y.F[i]) {
				return false
			}
		}
		return true
	}
	return st.valEq(s, v)
}

func (e *Engine) newRec(name string, init *Lin, lo, hi *big.Int, step func(st *State, k *Lin) *Lin) *recTheory {
	symN++
	t := &recTheory{name: fmt.Sprintf("%s#%d", name, symN), lo: lo, hi: hi, init: init, step: step}
	recByName[t.name] = t
	return t
}

// conds decides where an axiom applies, by the simple facts if they do.
type conds struct{ near, all Facts }

func (c conds) entailsLE(l *Lin) bool {
	if l.isConst() {
		return l.c.Sign() <= 0
	}
	if c.near.entailsLE(l) {
		return true
	}
	if c.near.entailsLE(l.neg().addC(1)) {
		return false
	}
	return c.all.entailsLE(l)
}

// recAxioms: what the theories say about the atoms of a query.
var recBusy bool

func recAxioms(fs Facts, as []*Atom) (r []*Lin) {
	if recBusy {
		return nil
	}
	recBusy = true
	defer func() { recBusy = false }()
	// Where an atom applies is a matter of few, simple facts.
	var near Facts
	for _, x := range fs {
		if x.k == fBool || len(x.l.t) > 3 {
			continue
		}
		rec := false
		for _, m := range x.l.t {
			rec = rec || m.a.kind == "rec"
		}
		if !rec || len(x.l.t) <= 2 {
			near = append(near, x)
		}
	}
	all := conds{near, fs}
	for i, a := range as {
		t := recByName[a.aux]
		if t == nil {
			continue
		}
		if t.ax != nil {
			r = append(r, t.ax(all, a.args[0], linA(a))...)
		}
		if t.pair == nil {
			continue
		}
		for k, b := range as {
			if k != i && b.aux == a.aux {
				r = append(r, t.pair(all, a.args[0], linA(a), b.args[0], linA(b))...)
			}
		}
	}
	return
}
