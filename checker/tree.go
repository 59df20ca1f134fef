package main

// C15, C16, C26: the packedrtree package on any parameters, stream and query.

import (
	"fmt"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// treeTheory describes the levels of a tree with nf refs and node size ns:
// level 0 has nf nodes and each further level one node per ns nodes of the
// level below it, up to the first level, other than level 0, with one node.
// H is the number of that level.
//
//	cnt(k)  nodes of level k
//	inner(k) = cnt(1)+...+cnt(k)
//	rem(k)  nodes of the levels k and above: level k has the nodes
//	        [rem(k+1), rem(k))
//
// For 1 <= nf < 2^63 and ns >= 2: cnt(k) <= 2^(63-k), so inner(H) < 2^63;
// cnt falls strictly from level 1 to level H.
type treeTheory struct {
	nf, ns, H, total *Lin
	cnt, inner, rem  *recTheory
	quo              func(st *State, x, y *Lin) *Lin
}

func (e *Engine) treeTheory(nf, ns *Lin) *treeTheory {
	t := &treeTheory{nf: nf, ns: ns}
	maxI := new(big.Int).Sub(pow2(63), big1)
	t.H = linA(mkAtom("in", "levels", big1, big.NewInt(64), nf, ns))
	past := func(k *Lin) bool { // k is not known to be a level
		d := k.sub(t.H)
		return d.isConst() && d.c.Sign() > 0
	}
	t.cnt = e.newRec("cnt", nf, big1, maxI, func(st *State, k *Lin) *Lin {
		if past(k.addC(1)) {
			return nil
		}
		return t.cnt.at(k.addC(1)).sub(t.cnt.at(k))
	})
	t.cnt.link = t.H.singleAtom()
	t.cnt.val = func(k *Lin) *Lin {
		if d := k.sub(t.H); d.isConst() && d.c.Sign() == 0 {
			return linC(1)
		}
		return nil
	}
	t.cnt.ax = func(fs conds, k, v *Lin) (r []*Lin) {
		r = append(r, v.sub(nf))
		if fs.entailsLE(linC(1).sub(k)) {
			r = append(r, t.H.sub(k).addC(1).sub(v))
		}
		if fs.entailsLE(k.sub(t.H)) {
			if fs.entailsLE(linC(2).sub(v)) {
				r = append(r, k.addC(1).sub(t.H))
			} else if fs.entailsLE(t.H.sub(k)) {
				r = append(r, v.addC(-1))
			}
		}
		return
	}
	// (cnt(k)-1)/ns = cnt(k+1)-1 and (cnt(k)+ns-1)/ns = cnt(k+1)
	t.quo = func(st *State, x, y *Lin) *Lin {
		if !st.linEq(y, ns) {
			return nil
		}
		for d, c := range []*Lin{linC(-1), ns.addC(-1)} {
			v := x.sub(c)
			var k *Lin
			if st.linEq(v, nf) {
				k = linZero
			} else if a := v.singleAtom(); a != nil && a.aux == t.cnt.name && v.coef(a).Cmp(big1) == 0 {
				k = a.args[0]
			} else {
				continue
			}
			if k = k.addC(1); st.facts.entailsLE(k.sub(t.H)) {
				st.assume(leForm(k.sub(t.H)))
				return t.cnt.at(k).addC(int64(d) - 1)
			}
		}
		return nil
	}
	t.inner = e.newRec("inner", linZero, big0, maxI, func(st *State, k *Lin) *Lin {
		if past(k.addC(1)) {
			return nil
		}
		d := t.cnt.step(st, k)
		if d == nil {
			return nil
		}
		return t.cnt.at(k).add(d)
	})
	innerH := linA(mkAtom("rec", t.inner.name, big1, maxI, t.H))
	t.total = nf.add(innerH)
	t.inner.ax = func(fs conds, k, v *Lin) (r []*Lin) {
		r = append(r, k.sub(v))
		if fs.entailsLE(k.sub(t.H)) {
			r = append(r, v.sub(innerH).add(t.H.sub(k)))
		}
		if d := k.sub(t.H); d.isConst() && d.c.Sign() == 0 {
			c := t.cnt.at(linC(1))
			r = append(r, c.sub(v).add(k).addC(-1))
			if fs.entailsLE(k.addC(-1)) {
				r = append(r, v.sub(c))
			}
		}
		if k1 := k.addC(1); (k.isConst() || t.H.sub(k).isConst()) && fs.entailsLE(k1.sub(t.H)) {
			x := innerH.sub(v).sub(t.cnt.at(k1))
			r = append(r, t.H.sub(k1).sub(x))
			if fs.entailsLE(t.H.sub(k1)) {
				r = append(r, x)
			}
		}
		return
	}
	t.rem = e.newRec("rem", t.total, big0, new(big.Int).Sub(pow2(64), big1), func(st *State, k *Lin) *Lin {
		if past(k) {
			return nil
		}
		return t.cnt.at(k).neg()
	})
	t.rem.val = func(k *Lin) *Lin {
		if d := k.sub(t.H).addC(-1); d.isConst() && d.c.Sign() == 0 {
			return linZero
		}
		return nil
	}
	t.rem.ax = func(fs conds, k, v *Lin) (r []*Lin) {
		if fs.entailsLE(k.sub(t.H).addC(-1)) {
			r = append(r, t.H.addC(1).sub(k).sub(v), v.sub(t.total).add(k))
			if fs.entailsLE(t.H.addC(1).sub(k)) {
				r = append(r, v)
			}
			if fs.entailsLE(linC(1).sub(k)) {
				r = append(r, v.sub(innerH).addC(-1).add(k))
			}
			if k.isConst() && k.c.Cmp(big1) == 0 {
				r = append(r, innerH.sub(v))
			}
		}
		return
	}
	t.rem.pair = func(fs conds, k1, v1, k2, v2 *Lin) (r []*Lin) {
		if fs.entailsLE(k1.sub(k2)) && fs.entailsLE(k2.sub(t.H).addC(-1)) {
			r = append(r, v2.sub(v1).add(k2.sub(k1)))
			if d := k2.sub(k1); d.isConst() && d.c.Cmp(big1) == 0 {
				x := v1.sub(v2).sub(t.cnt.at(k1))
				r = append(r, x, x.neg())
			}
		}
		return
	}
	return t
}

func (t *treeTheory) recs() []*recTheory { return []*recTheory{t.cnt, t.inner, t.rem} }

// begin makes the theory the one that joins look for.
func (t *treeTheory) begin(e *Engine) {
	e.recs = t.recs()
	curRecs, e.exitHook = e.recs, t.lastLevel
	e.counters, e.quo, e.unroll, e.flatAppend = true, t.quo, true, true
	e.cands = func(st *State) (r []Fact) {
		for k, v := range st.ghost {
			if len(k) > 3 && k[:3] == "it:" {
				r = append(r, Fact{k: fLE, l: v.(IntV).L.addC(1).sub(t.H)}, Fact{k: fLE, l: v.(IntV).L.addC(-1).sub(t.H)}, Fact{k: fLE, l: v.(IntV).L.neg()})
			}
		}
		return
	}
}

// lastLevel makes it explicit which level is the last one. What is known about
// the nodes of single levels is no longer of use then.
func (t *treeTheory) lastLevel(st *State) {
	last := false
	defer func() {
		if !last {
			return
		}
		var fs Facts
		for _, x := range st.facts {
			cnt := false
			if x.k != fBool {
				for a := range x.l.deps() {
					cnt = cnt || a.aux == t.cnt.name
				}
			}
			if !cnt {
				fs = append(fs, x)
			}
		}
		st.facts = fs
	}()
	for _, x := range append(Facts{}, st.facts...) {
		if x.k != fEQ || len(x.l.t) != 1 || x.l.t[0].a.aux != t.cnt.name {
			continue
		}
		if d := x.l.t[0].a.args[0].sub(t.H); !d.isConst() && st.facts.entailsEQ(d) {
			last = true
			st.assume(leForm(d))
			st.assume(leForm(d.neg()))
		}
	}
}

func (t *treeTheory) end(e *Engine) {
	curRecs, e.exitHook = nil, nil
	e.recs, e.counters, e.cands, e.quo, e.unroll, e.flatAppend = nil, false, nil, nil, false, false
}

const nodeBytes = 40

// sizeChecks: Size is 40 bytes per node.
func sizeChecks(ld *Loaded, e *Engine) {
	fn := ld.fn(prtPath, "Size")
	if fn == nil {
		e.violate("size", "missing|Size", "Size not found", "", nil)
		return
	}
	nf, ns := e.params()
	t := e.treeTheory(nf, ns)
	t.begin(e)
	defer t.end(e)
	e.sizeOn(t, fn)
}

func (e *Engine) sizeOn(t *treeTheory, fn *ssa.Function) {
	site := e.ld.position(fn.Pos(), nil)
	nf, ns := t.nf, t.ns
	st := e.entry()
	for _, o := range e.callEntry(fn, st, IntV{nf, true}, IntV{ns, true}) {
		e.sites["Size outcome"]++
		ok := []Form{leForm(linC(1).sub(nf)), leForm(linC(2).sub(ns))}
		if o.pan != nil {
			if o.pan.kind != "explicit" || !o.st.refutes(ok) {
				e.violate("size", "panic|Size", "Size panics for valid parameters: "+o.pan.msg, o.pan.site, o.st)
			}
			continue
		}
		bytes := t.total.scale(big.NewInt(nodeBytes))
		switch errState(o.st, o.rets[1]) {
		case 0:
			if !o.st.facts.entailsLE(linC(1).sub(nf)) || !o.st.facts.entailsLE(linC(2).sub(ns)) {
				e.violate("size", "accepts|Size", "Size accepts an empty tree or a node size below two", site, o.st)
			} else if v, isI := o.rets[0].(IntV); !isI || !o.st.linEq(v.L, bytes) {
				e.violate("size", "value|Size", fmt.Sprintf("Size returns %s, which is not 40 bytes for each node of the tree", trunc(showVal(o.rets[0]), 200)), site, o.st)
			}
			e.sites["Size success"]++
		case 1:
			if !o.st.refutes(append(ok, leForm(bytes.sub(linB(pow2(63))).addC(1)))) {
				e.violate("size", "refused|Size", "Size fails for a size that is representable", site, o.st)
			}
			e.sites["Size refusal"]++
		default:
			e.violate("size", "unknown|Size", "error result of Size not determined", site, o.st)
		}
	}
}

// params are any parameters of a tree.
func (e *Engine) params() (nf, ns *Lin) {
	nf = linA(mkAtom("in", "numRefs", new(big.Int).Neg(pow2(63)), new(big.Int).Sub(pow2(63), big1)))
	ns = linA(mkAtom("in", "nodeSize", big0, big.NewInt(65535)))
	return
}

// nodesOf finds the list of nodes in a tree: the only one whose elements take
// 40 bytes.
func (e *Engine) nodesOf(st *State, v Val) (SliceV, bool) {
	switch x := v.(type) {
	case PtrV:
		if len(x.Path) == 0 && x.NilA == nil {
			return e.nodesOf(st, st.obj(x.Obj).val)
		}
	case StructV:
		for _, f := range x.F {
			if s, ok := e.nodesOf(st, f); ok {
				return s, true
			}
		}
	case SliceV:
		if a, ok := st.loadPath(st.obj(x.Obj).val, x.Path).(*Arr); ok && sizeof(a.Elem) == nodeBytes {
			return x, true
		}
	}
	return SliceV{}, false
}

// unmarshalChecks: Unmarshal reads 40 bytes for each node, and Marshal writes
// as many.
func unmarshalChecks(ld *Loaded, e *Engine) {
	fn, mar := ld.fn(prtPath, "Unmarshal"), ld.method(prtPath, "PackedRTree", "Marshal")
	if fn == nil || mar == nil {
		e.violate("unmarshal", "missing|Unmarshal", "Unmarshal or Marshal not found", "", nil)
		return
	}
	site := ld.position(fn.Pos(), nil)
	nf, ns := e.params()
	t := e.treeTheory(nf, ns)
	t.begin(e)
	defer t.end(e)
	defer e.size(t)()
	defer e.levels(t)()
	st := e.entry()
	start := e.cursor(st, "in")
	bytes := t.total.scale(big.NewInt(nodeBytes))
	e.ev = func(st *State, ev *Event) {
		if ev.Kind == "read" && ev.Outcome == "ok" {
			e.sites["index read"]++
			if to := gLin(st, "filled", linZero); st.linEq(ev.Buf.Off, to) {
				st.ghost["filled"] = IntV{to.add(ev.Buf.Len), true}
			}
			if b, ok := st.ghost["lastread"].(SliceV); ok && (b.Obj != ev.Buf.Obj || pathKey(b.Path) != pathKey(ev.Buf.Path)) {
				st.ghost["filled"] = IntV{linZero, true}
			}
			st.ghost["lastread"] = SliceV{Obj: ev.Buf.Obj, Path: ev.Buf.Path, Off: linZero, Len: linZero, Cap: linZero}
		}
	}
	outs := e.callEntry(fn, st, StreamV{"in"}, IntV{nf, true}, IntV{ns, true})
	e.ev = nil
	var trees []Out
	for _, o := range outs {
		e.sites["Unmarshal outcome"]++
		if o.pan != nil {
			e.treePanic(t, "panic", "Unmarshal", o)
			continue
		}
		switch errState(o.st, o.rets[1]) {
		case 0:
			e.sites["Unmarshal success"]++
			if got := e.cursor(o.st, "in").sub(start); !o.st.linEq(got, bytes) {
				e.violate("unmarshal", "length|Unmarshal", fmt.Sprintf("Unmarshal consumes %s, which is not the size of the index", trunc(got.String(), 200)), site, o.st)
			}
			nodes, ok := e.nodesOf(o.st, o.rets[0])
			if !ok || !o.st.linEq(nodes.Len, t.total) {
				e.violate("unmarshal", "nodes|Unmarshal", "the tree that Unmarshal returns does not have a node for each 40 bytes of the index", site, o.st)
				continue
			}
			b, ok := o.st.ghost["lastread"].(SliceV)
			if !ok || b.Obj != nodes.Obj || pathKey(b.Path) != pathKey(nodes.Path) || !o.st.linEq(nodes.Off, linZero) || !o.st.linEq(gLin(o.st, "filled", linZero), bytes) {
				e.violate("unmarshal", "filled|Unmarshal", "Unmarshal does not fill every node from the stream", site, o.st)
			}
			trees = append(trees, o)
		case 1:
			e.sites["Unmarshal failure"]++
		default:
			e.violate("unmarshal", "unknown|Unmarshal", "error result of Unmarshal not determined", site, o.st)
		}
	}
	for _, o := range trees {
		e.marshalChecks(t, "Unmarshal", mar, o.st.clone(), o.rets[0])
	}
}

// newTreeChecks: New makes a tree with all its nodes, and Marshal writes it.
func newTreeChecks(ld *Loaded, e *Engine) {
	fn, mar := ld.fn(prtPath, "New"), ld.method(prtPath, "PackedRTree", "Marshal")
	if fn == nil || mar == nil {
		e.violate("marshal", "missing|New", "New or Marshal not found", "", nil)
		return
	}
	site := ld.position(fn.Pos(), nil)
	nf, ns := e.params()
	t := e.treeTheory(nf, ns)
	t.begin(e)
	defer t.end(e)
	defer e.size(t)()
	defer e.levels(t)()
	st := e.entry()
	refs := symVal(fn.Params[0].Type(), "refs", nil).(SliceV)
	refs.Len, refs.Cap, refs.NilA = nf, nf, nil
	var trees []Out
	for _, o := range e.callEntry(fn, st, refs, IntV{ns, true}) {
		e.sites["New outcome"]++
		if o.pan != nil || errState(o.st, o.rets[1]) == 1 {
			// that filling the nodes stays within them is not decided
			continue
		}
		e.sites["New success"]++
		nodes, ok := e.nodesOf(o.st, o.rets[0])
		if !ok || !o.st.linEq(nodes.Len, t.total) {
			e.violate("marshal", "nodes|New", "the tree that New returns does not have a node for each 40 bytes of the index", site, o.st)
			continue
		}
		trees = append(trees, o)
	}
	for _, o := range trees {
		e.marshalChecks(t, "New", mar, o.st.clone(), o.rets[0])
	}
}

// treePanic: a panic is only for bad parameters.
func (e *Engine) treePanic(t *treeTheory, tag, what string, o Out) {
	if o.pan.kind != "explicit" || !o.st.refutes([]Form{leForm(linC(1).sub(t.nf)), leForm(linC(2).sub(t.ns))}) {
		e.violate(tag, "panic|"+what+"|"+o.pan.site, what+" panics for valid parameters: "+o.pan.msg, o.pan.site, o.st)
	}
}

// marshalChecks: a tree is written as 40 bytes for each node.
func (e *Engine) marshalChecks(t *treeTheory, from string, fn *ssa.Function, st *State, tree Val) {
	site := e.ld.position(fn.Pos(), nil)
	nodes, ok := e.nodesOf(st, tree)
	if !ok {
		e.violate("marshal", "nodes|"+from, "the nodes of the tree are not determined", site, st)
		return
	}
	bytes := t.total.scale(big.NewInt(nodeBytes))
	st.ghost["written"] = IntV{linZero, true}
	e.ev = func(st *State, ev *Event) {
		if ev.Kind == "write" {
			e.sites["index write"]++
			done := gLin(st, "written", linZero)
			b := ev.Buf
			if b.Obj != nodes.Obj || pathKey(b.Path) != pathKey(nodes.Path) || !st.linEq(b.Off, nodes.Off.add(done)) {
				e.violate("marshal", "bytes|"+ev.Site, "Marshal writes other bytes than those of the next nodes", ev.Site, st)
			}
			st.ghost["written"] = IntV{done.add(ev.N), true}
		}
	}
	for _, o := range e.callEntry(fn, st, tree, StreamV{"out"}) {
		e.sites["Marshal outcome"]++
		if o.pan != nil {
			e.violate("panic", "panic|Marshal|"+o.pan.site, "Marshal panics: "+o.pan.msg, o.pan.site, o.st)
			continue
		}
		n := gLin(o.st, "written", linZero)
		if errState(o.st, o.rets[1]) != 1 {
			e.sites["Marshal success"]++
			if !o.st.linEq(n, bytes) {
				e.violate("marshal", "length|Marshal", fmt.Sprintf("Marshal writes %s bytes, which is not the size of the index", trunc(n.String(), 200)), site, o.st)
			}
		}
		if r, ok := o.rets[0].(IntV); !ok || !o.st.linEq(r.L, n) {
			e.violate("marshal", "count|Marshal", "Marshal does not return the number of bytes it has written", site, o.st)
		}
	}
	e.ev = nil
}

// levelsFn is the function that lists the levels of a tree: from two integers
// to a list of pairs of integers.
func levelsFn(ld *Loaded) *ssa.Function {
	var r *ssa.Function
	for _, fn := range ld.repoFns() {
		if fn.Pkg == nil || fn.Pkg.Pkg.Path() != prtPath || fn.Synthetic != "" || len(fn.FreeVars) > 0 {
			continue
		}
		sg := fn.Signature
		if sg.Recv() != nil || sg.Params().Len() != 2 || sg.Results().Len() != 1 || !isIntT(sg.Params().At(0).Type()) || !isIntT(sg.Params().At(1).Type()) {
			continue
		}
		s, ok := sg.Results().At(0).Type().Underlying().(*types.Slice)
		if !ok {
			continue
		}
		if p, ok := s.Elem().Underlying().(*types.Struct); ok && p.NumFields() == 2 && isIntT(p.Field(0).Type()) && isIntT(p.Field(1).Type()) {
			if r != nil {
				return nil
			}
			r = fn
		}
	}
	return r
}

func isIntT(T types.Type) bool {
	b, ok := T.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// valid: the parameters are good, and the tree is not too big.
func (t *treeTheory) valid() []Form {
	return []Form{leForm(linC(1).sub(t.nf)), leForm(linC(2).sub(t.ns)), leForm(t.total.scale(big.NewInt(nodeBytes)).sub(linB(pow2(63))).addC(1))}
}

// levels decides what the function that lists the levels gives for any valid
// parameters: the nodes [rem(k+1), rem(k)) of each level k. If it does, its
// calls need not be followed again.
func (e *Engine) levels(t *treeTheory) (remove func()) {
	remove = func() {}
	fn := levelsFn(e.ld)
	if fn == nil {
		return
	}
	st := e.entry()
	for _, f := range t.valid() {
		st.assume(f)
	}
	elem := fn.Signature.Results().At(0).Type().Underlying().(*types.Slice).Elem()
	swapped := -1
	n := 0
	for _, o := range e.callEntry(fn, st, IntV{t.nf, true}, IntV{t.ns, true}) {
		if o.pan != nil {
			return
		}
		s, ok := o.rets[0].(SliceV)
		if !ok || s.Obj == 0 || !o.st.linEq(s.Len, t.H.addC(1)) {
			return
		}
		a, ok := o.st.loadPath(o.st.obj(s.Obj).val, s.Path).(*Arr)
		if !ok {
			return
		}
		var ls []*Lin
		if s.Len.isConst() && s.Len.c.Cmp(big.NewInt(65)) <= 0 {
			for i := int64(0); i < s.Len.c.Int64(); i++ {
				ls = append(ls, linC(i))
			}
		} else {
			ls = []*Lin{linA(freshAtom("level", big0, big.NewInt(64)))}
			o.st.assume(leForm(ls[0].sub(t.H)))
		}
		for _, l := range ls {
			x, ok := o.st.arrLoad(a, s.Off.add(l)).(StructV)
			if !ok {
				return
			}
			f0, ok0 := x.F[0].(IntV)
			f1, ok1 := x.F[1].(IntV)
			if !ok0 || !ok1 {
				return
			}
			from, to := t.rem.at(l.addC(1)), t.rem.at(l)
			switch {
			case swapped != 1 && o.st.linEq(f0.L, from) && o.st.linEq(f1.L, to):
				swapped = 0
			case swapped != 0 && o.st.linEq(f1.L, from) && o.st.linEq(f0.L, to):
				swapped = 1
			default:
				return
			}
		}
		n++
	}
	if n == 0 {
		return
	}
	e.sites["levels listed"] += n
	return e.model(t, fn, func(c *callCtx) []Out {
		for _, f := range t.valid() {
			if !c.st.facts.entailsLE(f.l) {
				return nil
			}
		}
		bv := bvar()
		k := linA(bv)
		f := []Val{IntV{t.rem.at(k.addC(1)), true}, IntV{t.rem.at(k), true}}
		if swapped == 1 {
			f[0], f[1] = f[1], f[0]
		}
		n := t.H.addC(1)
		arr := &Arr{Elem: elem, N: n, ents: []ent{{k: 'f', lo: linZero, hi: n, bv: bv, v: StructV{f}}}}
		id := c.st.alloc(unboundedArr(elem), arr, "alloc", "")
		return []Out{{st: c.st, rets: []Val{SliceV{Obj: id, Off: linZero, Len: n, Cap: n}}}}
	})
}

// model replaces the calls of fn for the parameters of the theory.
func (e *Engine) model(t *treeTheory, fn *ssa.Function, f func(c *callCtx) []Out) (remove func()) {
	on := true
	e.prefixModels = append(e.prefixModels, prefixModel{prtPath + ".", func(e *Engine, c *callCtx) []Out {
		if !on || c.fn != fn || len(c.args) != 2 {
			return nil
		}
		a, ok := c.args[0].(IntV)
		b, ok2 := c.args[1].(IntV)
		if !ok || !ok2 || !c.st.linEq(a.L, t.nf) || !c.st.linEq(b.L, t.ns) {
			return nil
		}
		return f(c)
	}})
	return func() { on = false }
}

// size decides what Size gives for any parameters. If it is right, its calls
// need not be followed again.
func (e *Engine) size(t *treeTheory) (remove func()) {
	remove = func() {}
	fn := e.ld.fn(prtPath, "Size")
	if fn == nil {
		return
	}
	n := len(e.order)
	e.sizeOn(t, fn)
	if len(e.order) > n {
		for _, k := range e.order[n:] {
			delete(e.viols, k)
		}
		e.order = e.order[:n]
		return
	}
	e.sites["Size call by contract"] += 0
	return e.model(t, fn, func(c *callCtx) (r []Out) {
		e.sites["Size call by contract"]++
		v := t.valid()
		st := c.st
		site := e.pos(c.site)
		for i, f := range v {
			yes, no := e.split(st, f)
			if no != nil && i < 2 {
				r = append(r, Out{st: no, pan: &PanicInfo{kind: "explicit", site: site, fn: fn.String(), msg: "bad parameters"}})
			} else if no != nil {
				r = append(r, Out{st: no, rets: []Val{IntV{linZero, true}, ErrV{newErr("size", "size", site)}}})
			}
			if yes == nil {
				return
			}
			st = yes
		}
		return append(r, Out{st: st, rets: []Val{IntV{t.total.scale(big.NewInt(nodeBytes)), true}, NilV{}}})
	})
}

func init() {
	treeAssume := append([]string{
		"a level has one node per node-size many nodes of the level below, the number of levels is at most 64 and the levels shrink (arithmetic facts about repeated division, stated as the axioms of the theory)",
		"container/heap uses Push or Pop of the list and Swap, as documented",
	}, ioAssume...)
	checks["C15"] = &checkDef{
		explain: "Size, Unmarshal (and Marshal of its result) and Seek are interpreted for any number of refs and any node size; the number of nodes is a symbolic sum over the levels, defined by the recurrence of the format, that loop fixpoints find again in the code. Size must be 40 bytes for each node, or fail just if that overflows; Unmarshal must consume that many and fill every node; Marshal must write that many; Seek must leave the cursor that many bytes after its start.",
		assume:  treeAssume,
		run: func(ld *Loaded, r *Result) {
			e := newEngine(ld)
			e.initGlobals()
			sizeChecks(ld, e)
			unmarshalChecks(ld, e)
			newTreeChecks(ld, e)
			s := &searchSpec{e: e}
			s.inStream(ld)
			r.take(e, "size", "unmarshal", "marshal", "panic", "seek")
			r.addCoverage(e)
			r.need("Size success", 1)
			r.need("Size refusal", 1)
			r.need("Unmarshal success", 1)
			r.need("New success", 1)
			r.need("Marshal success", 2)
			r.need("search success", 1)
		},
	}
	checks["C16"] = &checkDef{
		explain: "Search (on any tree that Unmarshal gives) and Seek are interpreted with the list of pending nodes reduced to its length and to the invariant that each entry is a node with its level. Ghosts follow the visited node: the next child to look at, the end of the children, a child found to intersect and not yet dealt with. Each comparison with the query, each entry put into the list and each result added is checked against them in every loop state, and success is only allowed with an empty list. The list functions are checked to add and take one entry, the box test to be exact.",
		assume:  treeAssume,
		run: func(ld *Loaded, r *Result) {
			e := newEngine(ld)
			e.initGlobals()
			a, c := &searchSpec{e: e}, &searchSpec{e: e}
			a.inMemory(ld, "Unmarshal")
			a.bags()
			c.inMemory(ld, "New")
			c.bags()
			b := &searchSpec{e: e}
			b.inStream(ld)
			b.bags()
			r.take(e, "search")
			r.addCoverage(e)
			boxT := ld.pkg(prtPath).Type("Box").Type()
			for _, s := range []*searchSpec{a, c, b} {
				for fn := range s.tests {
					intersectCheck(ld, r, e, fn, boxT)
				}
			}
			for _, n := range []string{"tree to search: Unmarshal", "tree to search: New", "search success", "node looked at", "node put into the list", "node taken from the list", "nodes read", "result added"} {
				r.need(n, 1)
			}
			r.need("list function", 6)
			r.need("intersection ordering", 100)
		},
	}
	checks["C26"] = &checkDef{
		explain: "Seek is interpreted as for C16; every entry put into the list of pending nodes must lie at or after the end of the children being looked at, the list must be a heap whose order is that of the nodes (Less, Swap, Push and Pop are checked), and every read must continue in the visited nodes where the last one ended.",
		assume:  treeAssume,
		run: func(ld *Loaded, r *Result) {
			e := newEngine(ld)
			e.initGlobals()
			s := &searchSpec{e: e, ordered: true}
			s.inStream(ld)
			s.bags()
			r.take(e, "order")
			r.addCoverage(e)
			r.need("node put into the list", 1)
			r.need("nodes read", 1)
			r.need("Less outcome", 1)
			r.need("list function", 2)
		},
	}
}
