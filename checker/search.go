package main

// C15, C16: the search through a tree, in memory and from a stream.

import (
	"fmt"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// searchSpec follows one search. The bag of pending nodes is represented by
// its length: each of its tickets is some node of the tree with its level.
type searchSpec struct {
	e      *Engine
	t      *treeTheory
	elem   types.Type // of the bag
	order  int        // the field of a ticket that is the node; -1: not known yet
	query  Val
	nodes  *SliceV // in memory
	start  *Lin    // of the index in the stream
	pushes map[*ssa.Function]bool
	pops   map[*ssa.Function]bool
	tests  map[*ssa.Function]bool // of two boxes
	// the nodes must be visited, and read, in order
	ordered bool
}

const bagVer = "bag"

// bagFn: a function that puts a ticket into a bag or takes one out.
func bagFn(fn *ssa.Function) (elem types.Type, pop, ok bool) {
	sg := fn.Signature
	if len(fn.Params) == 0 || len(fn.FreeVars) > 0 {
		return
	}
	p, isP := fn.Params[0].Type().Underlying().(*types.Pointer)
	if !isP {
		return
	}
	s, isS := p.Elem().Underlying().(*types.Slice)
	if !isS {
		return
	}
	st, isT := s.Elem().Underlying().(*types.Struct)
	if !isT || st.NumFields() != 2 || !isIntT(st.Field(0).Type()) || !isIntT(st.Field(1).Type()) {
		return
	}
	elem = s.Elem()
	switch {
	case len(fn.Params) == 2 && sg.Results().Len() == 0 && types.Identical(fn.Params[1].Type(), elem):
		return elem, false, true
	case len(fn.Params) == 1 && sg.Results().Len() == 1 && types.Identical(sg.Results().At(0).Type(), elem):
		return elem, true, true
	}
	return
}

// isBoxTest: a function of two boxes that gives a bool.
func isBoxTest(fn *ssa.Function) bool {
	sg := fn.Signature
	if sg.Results().Len() != 1 || len(fn.Params) != 2 {
		return false
	}
	if b, ok := sg.Results().At(0).Type().Underlying().(*types.Basic); !ok || b.Kind() != types.Bool {
		return false
	}
	for _, p := range fn.Params {
		T := p.Type()
		if q, ok := T.Underlying().(*types.Pointer); ok {
			T = q.Elem()
		}
		n, ok := T.(*types.Named)
		if !ok || n.Obj().Name() != "Box" || n.Obj().Pkg().Path() != prtPath {
			return false
		}
	}
	return true
}

// ticket: v certainly names a node of the tree and its level.
func (s *searchSpec) ticket(st *State, v Val) (n, l *Lin, ok bool) {
	x, isS := v.(StructV)
	if !isS || len(x.F) != 2 {
		return nil, nil, false
	}
	a, ok1 := x.F[0].(IntV)
	b, ok2 := x.F[1].(IntV)
	if !ok1 || !ok2 {
		return nil, nil, false
	}
	for o := 0; o < 2; o++ {
		if s.order >= 0 && o != s.order {
			continue
		}
		n, l = a.L, b.L
		if o == 1 {
			n, l = l, n
		}
		if st.facts.entailsLE(l.neg()) && st.facts.entailsLE(l.sub(s.t.H)) &&
			st.facts.entailsLE(s.t.rem.at(l.addC(1)).sub(n)) && st.facts.entailsLE(n.addC(1).sub(s.t.rem.at(l))) {
			s.order = o
			return n, l, true
		}
	}
	return nil, nil, false
}

// abstract gives up the contents of a bag if all of its tickets are in order.
func (s *searchSpec) abstract(st *State, id int) bool {
	a, ok := st.obj(id).val.(*Arr)
	if !ok || !types.Identical(a.Elem, s.elem) {
		return false
	}
	if a.Ver == bagVer && len(a.ents) == 0 {
		return true
	}
	if !a.Zero && a.Ver != bagVer {
		return false
	}
	for _, x := range a.ents {
		if x.k != 'p' {
			return false
		}
		n, l, ok := s.ticket(st, x.v)
		if !ok {
			return false
		}
		if a.Ver == bagVer || gInt(st, "rooted") == 1 || !st.linEq(n, linZero) || !st.linEq(l, s.t.H) {
			s.e.violate("search", "start|"+s.e.callName(), "the search puts a node into its list that it did not find to intersect, or more than the root", "", st)
		}
		gSet(st, "rooted", 1)
	}
	st.setObj(id, &Arr{Elem: a.Elem, Ver: bagVer})
	return true
}

func (e *Engine) callName() string {
	if n := len(e.callStack); n > 0 {
		return e.callStack[0].String()
	}
	return ""
}

func (s *searchSpec) sync(st *State, env []Val) {
	for id, o := range st.heap {
		if a, ok := o.val.(*Arr); ok && types.Identical(a.Elem, s.elem) {
			s.abstract(st, id)
		}
	}
}

// bag loads the list at p.
func (s *searchSpec) bag(st *State, p PtrV) (SliceV, bool) {
	v := st.loadPath(st.obj(p.Obj).val, p.Path)
	sv, ok := v.(SliceV)
	if _, isNil := v.(NilV); isNil || ok && sv.Obj == 0 {
		id := st.alloc(unboundedArr(s.elem), &Arr{Elem: s.elem, Ver: bagVer}, "bag", "")
		return SliceV{Obj: id, Off: linZero, Len: linZero, Cap: linZero}, true
	}
	if !ok || len(sv.Path) != 0 || !s.abstract(st, sv.Obj) {
		return SliceV{}, false
	}
	return sv, true
}

func (s *searchSpec) setBag(st *State, p PtrV, sv SliceV, n *Lin) {
	sv.Len, sv.Cap = n, n
	st.setObj(p.Obj, st.storePath(st.obj(p.Obj).val, p.Path, sv))
	st.ghost["pending"] = IntV{n, true}
}

func (s *searchSpec) bad(what, key, msg, site string, st *State) {
	s.e.violate(what, key, msg, site, st)
}

func (s *searchSpec) push(c *callCtx) []Out {
	e, st, site := s.e, c.st, s.e.pos(c.site)
	e.sites["node put into the list"]++
	p, ok := c.args[0].(PtrV)
	if !ok {
		panic(undecided("list of pending nodes at " + site))
	}
	sv, ok := s.bag(st, p)
	if !ok {
		panic(undecided("list of pending nodes at " + site))
	}
	n, l, ok := s.ticket(st, c.args[1])
	switch {
	case !ok:
		s.bad("search", "pushlevel|"+site, "a node is put into the list of pending nodes that is not certainly a node of the level given for it", site, st)
		settled(st)
	case gInt(st, "due") == 1:
		if !st.linEq(n, gLin(st, "dueoff", linZero)) || !st.linEq(l, gLin(st, "level", linZero).addC(-1)) {
			s.bad("search", "push|"+site, "the node put into the list of pending nodes is not the first child, in the next level, of the node that intersects", site, st)
		}
		settled(st)
	case gInt(st, "rooted") == 0 && st.linEq(n, linZero) && st.linEq(l, s.t.H):
		gSet(st, "rooted", 1)
	default:
		s.bad("search", "extra|"+site, "a node is put into the list of pending nodes that was not found to intersect", site, st)
	}
	if s.ordered && gInt(st, "group") == 1 && n != nil && !st.facts.entailsLE(gLin(st, "stop", linZero).sub(n)) {
		s.bad("order", "backward|"+site, "a node before the one being visited may be put into the list of pending nodes", site, st)
	}
	s.setBag(st, p, sv, sv.Len.addC(1))
	return []Out{{st: st}}
}

// complete: every child of the node taken last was looked at.
func (s *searchSpec) complete(st *State, site string) {
	if gInt(st, "due") != 0 {
		s.bad("search", "missed|"+site, "a node intersects the query but is neither reported nor descended into", site, st)
	}
	if gInt(st, "group") == 0 {
		return
	}
	if !st.linEq(gLin(st, "next", linZero), gLin(st, "stop", linZero)) {
		s.bad("search", "children|"+site, "not every child of a visited node, up to node size many within the level, is looked at", site, st)
	}
}

func (s *searchSpec) pop(c *callCtx) []Out {
	e, st, site := s.e, c.st, s.e.pos(c.site)
	e.sites["node taken from the list"]++
	p, ok := c.args[0].(PtrV)
	if !ok {
		panic(undecided("list of pending nodes at " + site))
	}
	sv, ok := s.bag(st, p)
	if !ok {
		panic(undecided("list of pending nodes at " + site))
	}
	s.complete(st, site)
	if !st.facts.entailsLE(linC(1).sub(sv.Len)) {
		s.bad("search", "empty|"+site, "a node is taken from a list that may be empty", site, st)
		st.assume(leForm(linC(1).sub(sv.Len)))
	}
	if s.order < 0 {
		s.bad("search", "nothing|"+site, "a node is taken from a list that was not filled", site, st)
		s.order = 0
	}
	s.setBag(st, p, sv, sv.Len.addC(-1))
	gSet(st, "searching", 1)
	n := linA(freshAtom("node", big0, lenHi))
	var r []Out
	take := func(st *State, l *Lin) {
		end := s.t.rem.at(l)
		st.assume(leForm(s.t.rem.at(l.addC(1)).sub(n)))
		st.assume(leForm(n.addC(1).sub(end)))
		// the children: node size many, or fewer at the end of the level
		all := n.add(s.t.ns)
		full, rest := e.split(st, leForm(all.sub(end)))
		for i, st := range []*State{full, rest} {
			if st == nil {
				continue
			}
			gSet(st, "group", 1)
			if s.start != nil {
				st.ghost["readto"] = IntV{n.scale(big.NewInt(nodeBytes)), true}
			}
			st.ghost["next"], st.ghost["stop"], st.ghost["level"] = IntV{n, true}, IntV{[]*Lin{all, end}[i], true}, IntV{l, true}
			f := []Val{IntV{n, true}, IntV{l, true}}
			if s.order == 1 {
				f[0], f[1] = f[1], f[0]
			}
			r = append(r, Out{st: st, rets: []Val{StructV{f}}})
		}
	}
	in, leaf := e.split(st.clone(), leForm(linC(1).sub(s.t.H)))
	if in != nil {
		l := linC(1)
		if in.facts.entailsEQ(s.t.H.addC(-1)) {
			// only the root
			one := s.t.rem.at(l).addC(-1)
			in.assume(leForm(one))
			in.assume(leForm(one.neg()))
			in.assume(leForm(s.t.rem.at(linC(2))))
			in.assume(leForm(n))
		}
		if !in.facts.entailsEQ(s.t.H.addC(-1)) {
			l = linA(freshAtom("level", big1, big.NewInt(64)))
			in.assume(leForm(l.sub(s.t.H)))
		}
		in.assume(leForm(s.t.rem.at(l).sub(s.t.rem.at(linC(1))))) // the levels above the leaves
		take(in, l)
		leaf = st
	}
	take(leaf, linZero)
	return r
}

// settled: the node that intersects was taken care of.
func settled(st *State) {
	gSet(st, "due", 0)
	delete(st.ghost, "dueoff")
	delete(st.ghost, "duepos")
}

// test: a node's box is compared with the query.
func (s *searchSpec) test(c *callCtx) []Out {
	e, st, site := s.e, c.st, s.e.pos(c.site)
	e.sites["node looked at"]++
	var idx *Lin
	var node PtrV
	other := c.args[1]
	for i, a := range c.args {
		p, ok := a.(PtrV)
		if !ok {
			continue
		}
		for k := range p.Path {
			if p.Path[k].Field >= 0 {
				continue
			}
			arr, ok := st.loadPath(st.obj(p.Obj).val, p.Path[:k]).(*Arr)
			if ok && sizeof(arr.Elem) == nodeBytes && idx == nil {
				idx, node = p.Path[k].Idx, p
				other = c.args[1-i]
			}
		}
	}
	if idx == nil {
		return nil
	}
	if p, ok := other.(PtrV); ok && p.NilA == nil {
		other = st.loadPath(st.obj(p.Obj).val, p.Path)
	}
	if !st.valEq(other, s.query) {
		s.bad("search", "query|"+site, "a node's box is compared with something other than the query box", site, st)
	}
	if s.nodes != nil && node.Obj != s.nodes.Obj {
		s.bad("search", "nodes|"+site, "the node compared is not one of the tree", site, st)
	}
	if gInt(st, "due") != 0 {
		s.bad("search", "missed|"+site, "a node intersects the query but is neither reported nor descended into", site, st)
	}
	next := gLin(st, "next", linZero)
	if gInt(st, "group") == 0 || !st.linEq(idx, next) {
		s.bad("search", "order|"+site, "the node looked at is not the next child of the visited node", site, st)
	} else if !st.facts.entailsLE(idx.addC(1).sub(gLin(st, "stop", linZero))) {
		s.bad("search", "beyond|"+site, "a node is looked at that is not a child of the visited node", site, st)
	}
	if s.start != nil {
		b, ok := st.ghost["readinto"].(PtrV)
		if !ok || b.Obj != node.Obj || !st.facts.entailsLE(idx.addC(1).scale(big.NewInt(nodeBytes)).sub(gLin(st, "readto", linZero))) {
			s.bad("search", "unread|"+site, "a node is looked at that was not read for this visit", site, st)
		}
	}
	// the offset beside the box
	var off *Lin
	if k := len(node.Path); k > 0 && node.Path[k-1].Field >= 0 {
		if r, ok := st.loadPath(st.obj(node.Obj).val, node.Path[:k-1]).(StructV); ok {
			for _, f := range r.F {
				if v, ok := f.(IntV); ok {
					off = v.L
				}
			}
		}
	}
	if off == nil {
		panic(undecided("offset of the node compared at " + site))
	}
	st.ghost["next"] = IntV{idx.addC(1), true}
	no := st.clone()
	gSet(st, "due", 1)
	st.ghost["dueoff"], st.ghost["duepos"] = IntV{off, true}, IntV{idx, true}
	return []Out{{st: st, rets: []Val{BoolV{Form{k: 'T'}}}}, {st: no, rets: []Val{BoolV{Form{k: 'F'}}}}}
}

// found: a result is added.
func (s *searchSpec) found(st *State, v Val, T types.Type, site string) {
	e := s.e
	e.sites["result added"]++
	off, idx := fieldOf(T, v, "Offset"), fieldOf(T, v, "RefIndex")
	switch {
	case gInt(st, "due") != 1:
		s.bad("search", "spurious|"+site, "a result is added for a node that was not found to intersect", site, st)
	case !st.facts.entailsLE(gLin(st, "level", linZero)):
		s.bad("search", "inner|"+site, "a result is added for a node that is not a leaf", site, st)
	case off == nil || idx == nil || !st.linEq(off, gLin(st, "dueoff", linZero)) || !st.linEq(idx, gLin(st, "duepos", linZero).sub(s.t.rem.at(linC(1)))):
		s.bad("search", "result|"+site, "a result does not have the leaf's offset and its index among the leaves", site, st)
	}
	settled(st)
	st.ghost["found"] = IntV{gLin(st, "found", linZero).addC(1), true}
}

// fieldOf is the integer field of a struct value.
func fieldOf(T types.Type, v Val, name string) *Lin {
	s, ok := T.Underlying().(*types.Struct)
	x, ok2 := v.(StructV)
	if !ok || !ok2 {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			if n, ok := x.F[i].(IntV); ok {
				return n.L
			}
		}
	}
	return nil
}

func isResult(T types.Type) bool {
	n, ok := T.(*types.Named)
	return ok && n.Obj().Name() == "Result" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == prtPath
}

// done: the search has ended with success.
func (s *searchSpec) done(st *State, res Val, site string) {
	s.e.sites["search success"]++
	s.complete(st, site)
	if gInt(st, "rooted") != 1 || gInt(st, "group") != 1 {
		s.bad("search", "unstarted|"+site, "a search succeeds without visiting the root", site, st)
	}
	if !st.linEq(gLin(st, "pending", linC(-1)), linZero) {
		s.bad("search", "pending|"+site, "a search succeeds while nodes to visit are left", site, st)
	}
	var n *Lin
	switch x := res.(type) {
	case SliceV:
		n = x.Len
	case NilV:
		n = linZero
	}
	if n == nil || !st.linEq(n, gLin(st, "found", linZero)) {
		s.bad("search", "results|"+site, "a search does not return the results found", site, st)
	}
}

// begin installs the spec in the engine.
func (s *searchSpec) begin(ld *Loaded, st *State) {
	e := s.e
	s.order = -1
	s.pushes, s.pops, s.tests = map[*ssa.Function]bool{}, map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
	for _, fn := range ld.repoFns() {
		if fn.Pkg != nil && fn.Pkg.Pkg.Path() == prtPath {
			if el, pop, ok := bagFn(fn); ok && pop {
				s.elem = el
			}
		}
	}
	if s.elem == nil {
		panic(undecided("no function takes a node from the list of pending nodes"))
	}
	h := func(e *Engine, c *callCtx) []Out {
		if el, pop, ok := bagFn(c.fn); ok && types.Identical(el, s.elem) {
			if pop {
				s.pops[c.fn] = true
				return s.pop(c)
			}
			s.pushes[c.fn] = true
			return s.push(c)
		}
		if isBoxTest(c.fn) {
			s.tests[c.fn] = true
			return s.test(c)
		}
		return nil
	}
	for _, p := range []string{prtPath + ".", "(*" + prtPath + ".Box)", "(" + prtPath + ".Box)"} {
		e.prefixModels = append(e.prefixModels, prefixModel{p, h})
	}
	e.sync = s.sync
	levels := e.cands
	e.cands = func(st *State) []Fact {
		r := levels(st)
		if gInt(st, "group") == 1 {
			r = append(r, Fact{k: fLE, l: gLin(st, "next", linZero).sub(gLin(st, "stop", linZero))})
		}
		return r
	}
	gSet(st, "due", 0)
	gSet(st, "rooted", 0)
	gSet(st, "group", 0)
	st.ghost["found"], st.ghost["pending"] = IntV{linZero, true}, IntV{linZero, true}
	e.appendHook = func(st *State, d, x SliceV, elem types.Type, site string) {
		if !isResult(elem) {
			return
		}
		if !x.Len.isConstI(1) {
			panic(undecided("more than one result added at once at " + site))
		}
		a := st.loadPath(st.obj(x.Obj).val, x.Path).(*Arr)
		s.found(st, st.arrLoad(a, x.Off), elem, site)
	}
	coarse = func(T types.Type) bool { return isResult(T) }
	e.ev = func(st *State, ev *Event) {
		if ev.Kind != "read" || ev.Buf == nil || s.start == nil {
			return
		}
		e.sites["nodes read"]++
		if ev.Buf.View != nodeBytes || !st.linEq(ev.Pos, s.start.add(ev.Buf.Off)) {
			s.bad("search", "position|"+ev.Site, "nodes are not read from their place in the index", ev.Site, st)
		}
		to := gLin(st, "readto", linZero)
		end := ev.Buf.Off.add(ev.Buf.Len)
		if s.ordered && (gInt(st, "group") != 1 || !st.linEq(ev.Buf.Off, to) || !st.facts.entailsLE(end.sub(gLin(st, "stop", linZero).scale(big.NewInt(nodeBytes))))) {
			s.bad("order", "read|"+ev.Site, "bytes of the index are read that are not the next ones of the nodes being visited", ev.Site, st)
		}
		if ev.Outcome == "ok" {
			st.ghost["readinto"] = PtrV{Obj: ev.Buf.Obj}
			if st.facts.entailsLE(ev.Buf.Off.sub(to)) {
				st.ghost["readto"] = IntV{end, true}
			}
		}
	}
}

func (s *searchSpec) end() {
	e := s.e
	e.prefixModels = e.prefixModels[:len(e.prefixModels)-3]
	e.sync, e.appendHook, e.ev, coarse = nil, nil, nil, nil
}

// inMemory: the search of a tree in memory that Unmarshal or New gives.
func (s *searchSpec) inMemory(ld *Loaded, from string) {
	e := s.e
	un, fn := ld.fn(prtPath, from), ld.method(prtPath, "PackedRTree", "Search")
	if un == nil || fn == nil {
		e.violate("search", "missing|Search", from+" or Search not found", "", nil)
		return
	}
	site := ld.position(fn.Pos(), nil)
	nf, ns := e.params()
	t := e.treeTheory(nf, ns)
	t.begin(e)
	defer t.end(e)
	defer e.size(t)()
	defer e.levels(t)()
	s.t = t
	args := []Val{StreamV{"in"}, IntV{nf, true}, IntV{ns, true}}
	if from == "New" {
		refs := symVal(un.Params[0].Type(), "refs", nil).(SliceV)
		refs.Len, refs.Cap, refs.NilA = nf, nf, nil
		args = []Val{refs, IntV{ns, true}}
	}
	for _, o := range e.callEntry(un, e.entry(), args...) {
		if o.pan != nil || errState(o.st, o.rets[1]) == 1 {
			continue
		}
		e.sites["tree to search: "+from]++
		tree := o.rets[0]
		nodes, ok := e.nodesOf(o.st, tree)
		if !ok {
			e.violate("search", "nodes|Search", "the nodes of the tree are not determined", site, o.st)
			continue
		}
		s.nodes = &nodes
		s.query = symVal(fn.Signature.Params().At(0).Type(), "query", nil)
		s.begin(ld, o.st)
		for _, o := range e.callEntry(fn, o.st, tree, s.query) {
			e.sites["Search outcome"]++
			if o.pan != nil {
				if o.pan.kind != "explicit" {
					e.violate("search", "panic|Search|"+o.pan.site, "Search panics: "+o.pan.msg, o.pan.site, o.st)
				}
				continue
			}
			s.done(o.st, o.rets[0], site)
		}
		s.end()
	}
}

// inStream: the search of a stream.
func (s *searchSpec) inStream(ld *Loaded) {
	e := s.e
	fn := ld.fn(prtPath, "Seek")
	if fn == nil {
		e.violate("search", "missing|Seek", "Seek not found", "", nil)
		e.violate("seek", "missing|Seek", "Seek not found", "", nil)
		e.violate("order", "missing|Seek", "Seek not found", "", nil)
		return
	}
	site := ld.position(fn.Pos(), nil)
	nf, ns := e.params()
	t := e.treeTheory(nf, ns)
	t.begin(e)
	defer t.end(e)
	defer e.size(t)()
	defer e.levels(t)()
	st := e.entry()
	start := e.cursor(st, "in")
	q := symVal(fn.Signature.Params().At(3).Type(), "query", nil)
	s.t, s.query, s.start = t, q, start
	s.begin(ld, st)
	defer s.end()
	for _, o := range e.callEntry(fn, st, StreamV{"in"}, IntV{nf, true}, IntV{ns, true}, q) {
		e.sites["Seek outcome"]++
		if o.pan != nil {
			e.treePanic(t, "search", "Seek", o)
			continue
		}
		switch errState(o.st, o.rets[1]) {
		case 0:
			s.done(o.st, o.rets[0], site)
			if got := e.cursor(o.st, "in").sub(start); !o.st.linEq(got, t.total.scale(big.NewInt(nodeBytes))) {
				e.violate("seek", "cursor|Seek", fmt.Sprintf("Seek succeeds with the cursor %s bytes after the start of the index", trunc(got.String(), 200)), site, o.st)
			}
		case 1:
			e.sites["Seek failure"]++
		default:
			e.violate("search", "unknown|Seek", "error result of Seek not determined", site, o.st)
		}
	}
}
