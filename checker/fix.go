package main

// Fixpoints: loops (and the most general client of an API) are solved by a
// disjunctive abstract domain. A disjunct is identified by its discrete part
// (constants, nil-ness, dynamic types, error classes); its integer part is an
// affine subspace over stable markers plus linear inequalities.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// variantSince reports whether an atom depends on anything created after the
// watermark w (numbering of fresh names).
func (a *Atom) freshNo() int {
	if a.fresh == 0 {
		a.fresh = 1
		for d := range a.deps() {
			if i := strings.LastIndexByte(d.aux, '#'); i >= 0 {
				n := 0
				for _, ch := range d.aux[i+1:] {
					if ch < '0' || ch > '9' {
						break
					}
					n = n*10 + int(ch-'0')
				}
				if n+1 > a.fresh {
					a.fresh = n + 1
				}
			}
		}
	}
	return a.fresh - 1
}

type fixCtx struct {
	e        *Engine
	name     string // unique prefix of markers
	wm       int    // symN watermark
	objWM    int    // object watermark
	live     map[int]bool
	joinObjs map[string]int
	isJoin   map[int]bool
	joinErrs map[string]*Err
	muNo     map[string]*Atom
	rebound  map[*Atom]bool // names that joins give to values
	round    map[string]int
	mgc      bool
	cands    func(*State) []Fact
}

func (e *Engine) newFix(label string) *fixCtx {
	symN++
	return &fixCtx{e: e, name: fmt.Sprintf("%s#%d", label, symN), wm: symN - 1, objWM: objN, joinObjs: map[string]int{}, isJoin: map[int]bool{}, joinErrs: map[string]*Err{}, muNo: map[string]*Atom{}, rebound: map[*Atom]bool{}, round: map[string]int{}, cands: e.cands}
}

func (f *fixCtx) variant(a *Atom) bool { return a.freshNo() > f.wm }

func (f *fixCtx) linVariant(l *Lin) bool {
	for _, m := range l.t {
		if f.variant(m.a) {
			return true
		}
	}
	return false
}

// ---- loops ----

func (e *Engine) liveAt(fi *frameInfo) map[*ssa.BasicBlock]map[int]bool {
	if fi.live != nil {
		return fi.live
	}
	in := map[*ssa.BasicBlock]map[int]bool{}
	for _, b := range fi.fn.Blocks {
		in[b] = map[int]bool{}
	}
	for changed := true; changed; {
		changed = false
		for bi := len(fi.fn.Blocks) - 1; bi >= 0; bi-- {
			b := fi.fn.Blocks[bi]
			out := map[int]bool{}
			for _, s := range b.Succs {
				made := map[int]bool{} // on the way into s
				for _, x := range s.Instrs {
					phi, ok := x.(*ssa.Phi)
					if !ok {
						break
					}
					made[fi.num[phi]] = true
				}
				for v := range in[s] {
					if !made[v] {
						out[v] = true
					}
				}
				pi := -1
				for i, p := range s.Preds {
					if p == b {
						pi = i
					}
				}
				for _, x := range s.Instrs {
					phi, ok := x.(*ssa.Phi)
					if !ok {
						break
					}
					if n, ok := fi.num[phi.Edges[pi]]; ok {
						out[n] = true
					}
				}
			}
			for i := len(b.Instrs) - 1; i >= 0; i-- {
				x := b.Instrs[i]
				if v, ok := x.(ssa.Value); ok {
					if _, isPhi := x.(*ssa.Phi); !isPhi {
						delete(out, fi.num[v])
					}
				}
				if _, isPhi := x.(*ssa.Phi); isPhi {
					continue
				}
				var ops [12]*ssa.Value
				for _, o := range x.Operands(ops[:0]) {
					if *o != nil {
						if n, ok := fi.num[*o]; ok {
							out[n] = true
						}
					}
				}
			}
			// phis of b stay live-in at the head if used later (they are
			// evaluated by enter before the head is examined)
			if len(out) != len(in[b]) {
				in[b] = out
				changed = true
			} else {
				for v := range out {
					if !in[b][v] {
						in[b] = out
						changed = true
						break
					}
				}
			}
		}
	}
	fi.live = in
	return in
}

type explo struct {
	outs  []Out
	exits []edge
	backs []edge
	viols map[string]*Violation
	order []string
}

func (e *Engine) swapViols() (map[string]*Violation, []string) {
	v, o := e.viols, e.order
	e.viols, e.order = map[string]*Violation{}, nil
	return v, o
}

func (e *Engine) mergeViols(v map[string]*Violation, order []string) {
	for _, k := range order {
		if _, ok := e.viols[k]; !ok {
			e.viols[k] = v[k]
			e.order = append(e.order, k)
		}
	}
}

// constOf gives the constant that an operand of a loop's condition has when
// the loop is entered.
func (e *Engine) constOf(c *Conf, v ssa.Value, l *Loop) (int64, bool) {
	switch x := v.(type) {
	case *ssa.Const:
	case *ssa.Phi:
	case *ssa.BinOp:
		if x.Block() == l.head && x.Op == token.ADD {
			a, ok := e.constOf(c, x.X, l)
			b, ok2 := e.constOf(c, x.Y, l)
			return a + b, ok && ok2
		}
	}
	if in, ok := v.(ssa.Instruction); ok && l.body[in.Block()] {
		if _, phi := v.(*ssa.Phi); !phi || in.Block() != l.head {
			return 0, false
		}
	}
	if n, ok := c.fi.num[v]; ok && c.env[n] == nil {
		return 0, false
	}
	iv, ok := e.val(c, v).(IntV)
	if !ok || !iv.L.isConst() || !iv.L.c.IsInt64() {
		return 0, false
	}
	return iv.L.c.Int64(), true
}

// unrolled runs a loop of few rounds, counted by constants, round by round.
func (e *Engine) unrolled(c *Conf, l *Loop) ([]Out, []edge, bool) {
	br, ok := l.head.Instrs[len(l.head.Instrs)-1].(*ssa.If)
	if !ok {
		return nil, nil, false
	}
	cond, ok := br.Cond.(*ssa.BinOp)
	if !ok {
		return nil, nil, false
	}
	a, ok1 := e.constOf(c, cond.X, l)
	b, ok2 := e.constOf(c, cond.Y, l)
	if !ok1 || !ok2 || a-b > 16 || b-a > 16 {
		return nil, nil, false
	}
	ov, oo := e.swapViols()
	var outs []Out
	var exits []edge
	work := []*Conf{c.fork(c.st.clone())}
	for n := 0; len(work) > 0; n++ {
		if n > 17 || len(work) > 8 {
			e.viols, e.order = ov, oo
			return nil, nil, false
		}
		o, ex, backs := e.region(work, l)
		outs, exits, work = append(outs, o...), append(exits, ex...), nil
		for _, b := range backs {
			e.enter(b)
			work = append(work, b.c)
		}
	}
	nv, no := e.viols, e.order
	e.viols, e.order = ov, oo
	e.mergeViols(nv, no)
	e.sites["loop of few rounds"]++
	return outs, exits, true
}

func (e *Engine) runLoop(c *Conf, l *Loop) ([]Out, []edge) {
	if e.unroll {
		if o, x, ok := e.unrolled(c, l); ok {
			return o, x
		}
	}
	f := e.newFix(fmt.Sprintf("L%s.%d", c.fi.fn.Name(), l.head.Index))
	f.live = e.liveAt(c.fi)[l.head]
	// Entering values that the loop needs.
	for i := range c.env {
		if !f.live[i] {
			c.env[i] = nil
		}
	}
	e.sites["loop fixpoint"]++
	gen := map[string]*Conf{}
	ex := map[string]*explo{}
	var order []string
	var dirty []string
	add := func(d *Conf) {
		if e.sync != nil {
			e.sync(d.st, d.env)
		}
		for i := range d.env {
			if !f.live[i] {
				d.env[i] = nil
			}
		}
		f.gc(d)
		s := f.sig(d)
		g, ok := gen[s]
		if !ok {
			gen[s] = d
			order = append(order, s)
			dirty = append(dirty, s)
			return
		}
		j, changed := f.join(s, g, d)
		if changed {
			gen[s] = j
			for _, x := range dirty {
				if x == s {
					return
				}
			}
			dirty = append(dirty, s)
		}
	}
	it := ""
	if e.counters {
		// the number of rounds so far
		it = fmt.Sprintf("it:%s.%d", c.fi.fn, l.head.Index)
		c.st.ghost[it] = IntV{linZero, true}
	}
	add(c)
	total := 0
	for len(dirty) > 0 {
		s := dirty[0]
		dirty = dirty[1:]
		total++
		if total > 400 {
			panic(undecided("no fixpoint for the loop at " + e.ld.position(loopPos(l), nil) + " in " + c.fi.fn.String()))
		}
		if debugFix {
			fmt.Printf("FIX %s explore %s (total %d)\n", f.name, trunc(s, 300), total)
			dumpConf(gen[s])
		}
		ov, oo := e.swapViols()
		start := gen[s].fork(gen[s].st.clone())
		start.st.guards = nil
		outs, exits, backs := e.region([]*Conf{start}, l)
		ex[s] = &explo{outs: outs, exits: exits, viols: e.viols, order: e.order}
		e.viols, e.order = ov, oo
		for _, b := range backs {
			if b.to != l.head {
				panic(undecided("internal: back edge"))
			}
			bc := b.c
			e.enter(b)
			if it != "" {
				bc.st.ghost[it] = IntV{gLin(bc.st, it, linZero).addC(1), true}
			}
			add(bc)
		}
	}
	var outs []Out
	var exits []edge
	for _, s := range order {
		x := ex[s]
		e.mergeViols(x.viols, x.order)
		outs = append(outs, x.outs...)
		for i := range x.exits {
			f.solveExit(x.exits[i].c)
			if e.exitHook != nil {
				e.exitHook(x.exits[i].c.st)
			}
			if it != "" {
				delete(x.exits[i].c.st.ghost, it)
			}
		}
		if it != "" {
			for _, o := range x.outs {
				delete(o.st.ghost, it)
			}
		}
		exits = append(exits, x.exits...)
	}
	return outs, exits
}

// solveExit replaces loop counters whose final value is known.
func (f *fixCtx) solveExit(c *Conf) {
	for n := 0; n < 8; n++ {
		var mu *Atom
		var val *Lin
	search:
		for _, x := range c.st.facts {
			if x.k != fLE && x.k != fEQ || len(x.l.t) > 3 {
				continue
			}
			for _, t := range x.l.t {
				if t.a.kind != "mu" || !f.variant(t.a) || t.k.CmpAbs(big1) != 0 {
					continue
				}
				rest := x.l.sub(linZero.addScaled(linA(t.a), t.k))
				if f.linVariant(rest) || rest.deps()[t.a] {
					continue
				}
				if x.k == fLE && !c.st.facts.entailsLE(x.l.neg()) {
					continue
				}
				mu, val = t.a, rest.scale(new(big.Int).Neg(t.k))
				break search
			}
		}
		if mu == nil {
			return
		}
		for id := range c.st.heap {
			if r, ok := lazyByID[id]; ok {
				for _, a := range r.args {
					if a.deps()[mu] {
						return
					}
				}
			}
		}
		s := Subst{mu: val}
		for i, v := range c.env {
			if v != nil {
				c.env[i] = substVal(v, s)
			}
		}
		for id, o := range c.st.heap {
			no := *o
			no.val = substVal(o.val, s)
			c.st.heap[id] = &no
		}
		for k, v := range c.st.ghost {
			c.st.ghost[k] = substVal(v, s)
		}
		var fs Facts
		if mu.lo != nil {
			fs = append(fs, Fact{k: fLE, l: linB(mu.lo).sub(val)})
		}
		if mu.hi != nil {
			fs = append(fs, Fact{k: fLE, l: val.sub(linB(mu.hi))})
		}
		var rest Facts
		for _, x := range c.st.facts {
			if x.k != fBool {
				x.l = x.l.subst(s)
				if x.l.isConst() {
					continue
				}
			}
			rest = append(rest, x)
		}
		for _, x := range fs {
			if !x.l.isConst() && !rest.entailsLE(x.l) {
				rest = append(rest, x)
			}
		}
		c.st.facts = rest
		for i := range c.defers {
			c.defers[i].fn = substVal(c.defers[i].fn, s)
			for k, a := range c.defers[i].args {
				c.defers[i].args[k] = substVal(a, s)
			}
		}
	}
}

// gc drops objects made inside the loop that nothing live refers to.
func (f *fixCtx) gc(c *Conf) {
	reach := map[int]bool{}
	var visit func(v Val)
	visitObj := func(id int) {
		if id == 0 || reach[id] {
			return
		}
		reach[id] = true
		if o, ok := c.st.heap[id]; ok {
			visit(o.val)
		}
	}
	visit = func(v Val) {
		switch v := v.(type) {
		case PtrV:
			visitObj(v.Obj)
		case SliceV:
			visitObj(v.Obj)
		case IfaceV:
			visit(v.V)
		case FuncV:
			for _, b := range v.B {
				visit(b)
			}
		case TupV:
			for _, b := range v {
				visit(b)
			}
		case StructV:
			for _, b := range v.F {
				visit(b)
			}
		case StrV:
			if v.Src != nil {
				visitObj(v.Src.Obj)
			}
		case *Arr:
			for i := range v.ents {
				visit(v.ents[i].v)
				if v.ents[i].src != nil {
					visit(v.ents[i].src)
				}
			}
		case ErrV:
			for _, w := range v.E.wraps {
				visit(w)
			}
		case *MapV:
			refs(v, visitObj)
		}
	}
	for _, v := range c.env {
		visit(v)
	}
	for _, d := range c.defers {
		visit(d.fn)
		for _, a := range d.args {
			visit(a)
		}
	}
	for _, v := range c.st.ghost {
		visit(v)
	}
	if !f.mgc {
		for id := range c.st.heap {
			if id <= f.objWM {
				visitObj(id)
			}
		}
	} else {
		for id, o := range c.st.heap {
			if o.tag == "global" {
				visitObj(id)
			}
		}
	}
	for id := range c.st.heap {
		if !reach[id] {
			delete(c.st.heap, id)
		}
	}
}

// ---- signatures ----

func (f *fixCtx) sig(c *Conf) string {
	var sb strings.Builder
	seen := map[int]bool{}
	var w func(v Val)
	wObj := func(id int) {
		if id == 0 || seen[id] {
			return
		}
		seen[id] = true
		if o, ok := c.st.heap[id]; ok {
			w(o.val)
		}
	}
	w = func(v Val) {
		switch v := v.(type) {
		case nil:
			sb.WriteByte('_')
		case IntV:
			if v.L.isConst() && !v.Ar {
				sb.WriteString(v.L.key())
			} else {
				sb.WriteByte('i')
			}
		case BoolV:
			if v.F.k == 'T' || v.F.k == 'F' {
				sb.WriteByte(byte(v.F.k))
			} else if b, ok := c.st.formVal(v.F); ok {
				sb.WriteString(map[bool]string{true: "T", false: "F"}[b])
			} else {
				sb.WriteByte('b')
			}
		case NilV:
			sb.WriteByte('0')
		case PtrV:
			sb.WriteByte('p')
			if v.NilA != nil {
				sb.WriteString(f.nilSig(c, v.NilA))
			}
			wObj(v.Obj)
		case SliceV:
			if v.Obj == 0 {
				sb.WriteByte('0')
			} else {
				sb.WriteByte('s')
				wObj(v.Obj)
			}
		case IfaceV:
			sb.WriteString("I" + v.T.String())
			w(v.V)
		case ErrV:
			switch v.E.kind {
			case "global":
				sb.WriteString("E" + v.E.name)
			default:
				sb.WriteString("E")
				if v.E.notEOF {
					sb.WriteString("!")
				}
				if v.E.exact {
					sb.WriteString("x")
				}
			}
		case StreamV:
			sb.WriteString("R" + v.ID)
		case OpqV:
			sb.WriteByte('o')
			if v.NilA != nil {
				sb.WriteString(f.nilSig(c, v.NilA))
			}
		case FuncV:
			sb.WriteString("F" + v.Fn.String())
			for _, b := range v.B {
				w(b)
			}
		case TupV:
			for _, b := range v {
				w(b)
			}
		case StructV:
			sb.WriteByte('{')
			for _, b := range v.F {
				w(b)
				sb.WriteByte(',')
			}
			sb.WriteByte('}')
		case *Arr:
			sb.WriteByte('A')
		default:
			sb.WriteByte('?')
		}
	}
	for i, v := range c.env {
		if v != nil {
			fmt.Fprintf(&sb, "|%d:", i)
			w(v)
		}
	}
	var gk []string
	for k := range c.st.ghost {
		gk = append(gk, k)
	}
	sort.Strings(gk)
	for _, k := range gk {
		sb.WriteString("|" + k + "=")
		w(c.st.ghost[k])
	}
	// pre-existing objects
	var ids []int
	for id, o := range c.st.heap {
		if id <= f.objWM && !seen[id] && o.tag != "global" {
			ids = append(ids, id)
		}
	}
	sort.Ints(ids)
	for _, id := range ids {
		if seen[id] || c.st.heap[id].tag == "lazy" || c.st.heap[id].tag == "string" {
			continue
		}
		fmt.Fprintf(&sb, "|#%d:", id)
		wObj(id)
	}
	return sb.String()
}

func (f *fixCtx) nilSig(c *Conf, a *Atom) string {
	if v, ok := c.st.facts.boolVal(a); ok {
		if v {
			return "0"
		}
		return ""
	}
	return "?"
}

// ---- join ----

type cell struct {
	path string
	mu   *Atom // temporary marker
	fin  *Atom // final stable marker
	g, b *Lin
	ar   bool
	same bool // the atom itself, which is the same on both sides
}

type joiner struct {
	f       *fixCtx
	sig     string
	G, B    *State
	J       *State
	cells   []*cell
	memo    map[[2]int]int
	memoE   map[[2]int]*Err
	byKey   map[string]*cell
	inF     *Atom // bound variable of the summary being joined
	done    map[int]bool
	tmpN    int
	changed bool // structural change beyond cells
}

func (f *fixCtx) join(sig string, g, b *Conf) (*Conf, bool) {
	f.round[sig]++
	f.e.sites["join"]++
	j := &joiner{f: f, sig: sig, G: g.st, B: b.st, memo: map[[2]int]int{}, memoE: map[[2]int]*Err{}, byKey: map[string]*cell{}, done: map[int]bool{}}
	j.J = &State{heap: map[int]*Obj{}, ghost: map[string]Val{}, trace: g.st.trace}
	env := make([]Val, len(g.env))
	for i := range g.env {
		if g.env[i] == nil || b.env[i] == nil {
			continue
		}
		env[i] = j.val(fmt.Sprintf("v%d", i), g.env[i], b.env[i])
	}
	if len(g.defers) != len(b.defers) {
		panic(undecided("defer inside a loop"))
	}
	var gk []string
	for k := range g.st.ghost {
		gk = append(gk, k)
	}
	for k := range b.st.ghost {
		if _, ok := g.st.ghost[k]; !ok {
			gk = append(gk, k)
		}
	}
	sort.Strings(gk)
	for _, k := range gk {
		x, ok1 := g.st.ghost[k]
		y, ok2 := b.st.ghost[k]
		if !ok1 || !ok2 {
			panic(undecided("ghost " + k + " only on one path"))
		}
		j.J.ghost[k] = j.val("g:"+k, x, y)
	}
	ids := map[int]bool{}
	for id := range g.st.heap {
		if id <= f.objWM && (!f.mgc || b.st.heap[id] != nil) {
			ids[id] = true
		}
	}
	for id := range b.st.heap {
		if id <= f.objWM && (!f.mgc || g.st.heap[id] != nil) {
			ids[id] = true
		}
	}
	var idl []int
	for id := range ids {
		idl = append(idl, id)
	}
	sort.Ints(idl)
	for _, id := range idl {
		j.obj(fmt.Sprintf("o%d", id), id, id)
	}
	// Objects reached only through parts that are equal on both sides.
	for again := true; again; {
		again = false
		seen := map[int]bool{}
		var miss []int
		ref := func(id int) {
			if id == 0 || seen[id] {
				return
			}
			seen[id] = true
			if _, ok := j.J.heap[id]; !ok && (j.G.heap[id] != nil || j.B.heap[id] != nil) {
				miss = append(miss, id)
			}
		}
		for _, v := range env {
			refs(v, ref)
		}
		for _, v := range j.J.ghost {
			refs(v, ref)
		}
		for _, o := range j.J.heap {
			refs(o.val, ref)
		}
		for _, d := range g.defers {
			refs(d.fn, ref)
			for _, a := range d.args {
				refs(a, ref)
			}
		}
		sort.Ints(miss)
		for _, id := range miss {
			again = true
			og, ob := j.G.heap[id], j.B.heap[id]
			if lazyByID[id] == nil && (og == nil || ob == nil) {
				// known on one side only: the other side does not read it
				if og == nil {
					og = ob
				}
				n := *og
				j.J.heap[id] = &n
				continue
			}
			j.obj(fmt.Sprintf("o%d", id), id, id)
			if _, ok := j.J.heap[id]; !ok {
				panic(undecided("join: object lost"))
			}
		}
	}
	return j.finish(g, env)
}

// refs calls f for every object a value refers to directly.
func refs(v Val, f func(int)) {
	switch v := v.(type) {
	case PtrV:
		f(v.Obj)
	case SliceV:
		f(v.Obj)
	case IfaceV:
		refs(v.V, f)
	case FuncV:
		for _, b := range v.B {
			refs(b, f)
		}
	case TupV:
		for _, b := range v {
			refs(b, f)
		}
	case StructV:
		for _, b := range v.F {
			refs(b, f)
		}
	case StrV:
		if v.Src != nil {
			f(v.Src.Obj)
		}
	case *Arr:
		for i := range v.ents {
			refs(v.ents[i].v, f)
			if v.ents[i].src != nil {
				refs(v.ents[i].src, f)
			}
		}
	case ErrV:
		for _, w := range v.E.wraps {
			refs(w, f)
		}
	case *MapV:
		for i := range v.K {
			refs(v.K[i], f)
			refs(v.V[i], f)
		}
	}
}

// obj joins two objects and returns the id of the result.
func (j *joiner) obj(path string, g, b int) int {
	if g == 0 && b == 0 {
		return 0
	}
	k := [2]int{g, b}
	if id, ok := j.memo[k]; ok {
		return id
	}
	if j.inF != nil && g != b {
		if rg, rb := lazyByID[g], lazyByID[b]; rg != nil && rb != nil && rg.name == rb.name && len(rg.args) == len(rb.args) && types.Identical(rg.T, rb.T) {
			args := make([]*Lin, len(rg.args))
			for i := range args {
				args[i] = j.int(fmt.Sprintf("%s.arg%d", path, i), rg.args[i], rb.args[i], true, nil, nil)
			}
			return lazyObj(rg.T, rg.name, args, rg.tag)
		}
		panic(undecided("values of a summary differ (objects)"))
	}
	id := g
	if g != b && !j.f.isJoin[g] {
		mk := j.sig + path
		if x, ok := j.f.joinObjs[mk]; ok {
			id = x
		} else {
			objN++
			id = objN
			j.f.joinObjs[mk] = id
			j.f.isJoin[id] = true
		}
	}
	j.memo[k] = id
	og, ob := j.G.obj(g), j.B.obj(b)
	if !types.Identical(og.T, ob.T) {
		panic(undecided("join of objects of different types"))
	}
	n := *og
	n.id = id
	n.fresh = og.fresh && ob.fresh
	j.J.heap[id] = &n
	n.val = j.val(path+"*", og.val, ob.val)
	return id
}

// keep gives what the atoms of a value that is the same on both sides stand
// for after the join: a name that the join gives to another value must not
// keep its place here.
func (j *joiner) keep(deps map[*Atom]bool) Subst {
	if len(j.f.rebound) == 0 {
		return nil
	}
	var s Subst
	for _, a := range sortedAtoms(deps) {
		if !j.f.rebound[a] {
			continue
		}
		l := linA(a)
		key := l.key() + "|" + l.key()
		c, ok := j.byKey[key]
		if !ok {
			c = &cell{path: a.aux, g: l, b: l, ar: true, same: true, fin: a}
			c.mu = mkAtom("tmp", fmt.Sprintf("%s/%s/same:%d", j.f.name, j.sig, a.id), a.lo, a.hi)
			j.byKey[key] = c
			j.cells = append(j.cells, c)
		}
		if s == nil {
			s = Subst{}
		}
		s[a] = linA(c.mu)
	}
	return s
}

func (j *joiner) keepVal(v Val) Val {
	if len(j.f.rebound) == 0 {
		return v
	}
	m := map[*Atom]bool{}
	j.valDeps(v, m)
	if s := j.keep(m); s != nil {
		return substVal(v, s)
	}
	return v
}

// valDeps collects the atoms of a value.
func (j *joiner) valDeps(v Val, m map[*Atom]bool) {
	lin := func(l *Lin) {
		if l != nil {
			for a := range l.deps() {
				m[a] = true
			}
		}
	}
	atom := func(a *Atom) {
		if a != nil {
			for d := range a.deps() {
				m[d] = true
			}
		}
	}
	path := func(p []Sel) {
		for _, s := range p {
			lin(s.Idx)
		}
	}
	obj := func(id int) {
		if r := lazyByID[id]; r != nil && j.G.heap[id] == nil && j.B.heap[id] == nil {
			for _, a := range r.args {
				lin(a)
			}
		}
	}
	switch v := v.(type) {
	case IntV:
		lin(v.L)
	case BoolV:
		lin(v.F.l)
		atom(v.F.a)
	case FloatV:
		atom(v.A)
	case StrV:
		atom(v.A)
		lin(v.Len)
		if v.Src != nil {
			j.valDeps(*v.Src, m)
		}
	case PtrV:
		obj(v.Obj)
		path(v.Path)
		atom(v.NilA)
	case SliceV:
		obj(v.Obj)
		path(v.Path)
		lin(v.Off)
		lin(v.Len)
		lin(v.Cap)
		atom(v.NilA)
	case IfaceV:
		j.valDeps(v.V, m)
	case OpqV:
		atom(v.A)
		atom(v.NilA)
	case FuncV:
		for _, x := range v.B {
			j.valDeps(x, m)
		}
	case TupV:
		for _, x := range v {
			j.valDeps(x, m)
		}
	case StructV:
		for _, x := range v.F {
			j.valDeps(x, m)
		}
	case *Arr:
		lin(v.N)
		for _, a := range v.VArgs {
			lin(a)
		}
		for i := range v.ents {
			e := &v.ents[i]
			lin(e.lo)
			lin(e.hi)
			lin(e.off)
			if e.src != nil {
				j.valDeps(e.src, m)
			}
			if e.v != nil {
				j.valDeps(e.v, m)
			}
		}
	}
}

// dropKept removes the cells of atoms that keep their meaning.
func (j *joiner) dropKept() Subst {
	named := map[*Atom]bool{}
	for _, c := range j.cells {
		if !c.same {
			named[c.fin] = true
		}
	}
	s := Subst{}
	var cells []*cell
	for _, c := range j.cells {
		if c.same {
			if !named[c.fin] {
				s[c.mu] = linA(c.fin)
				continue
			}
			mk := "keep:" + c.fin.aux
			fin, ok := j.f.muNo[mk]
			if !ok {
				fin = mkAtom("mu", fmt.Sprintf("keep~%d.%s", len(j.f.muNo), j.f.name), c.fin.lo, c.fin.hi)
				j.f.muNo[mk] = fin
				j.f.rebound[fin] = true
			}
			c.fin = fin
			j.f.e.sites["value kept apart at a join"]++
		}
		cells = append(cells, c)
	}
	j.cells = cells
	return s
}

func (j *joiner) int(path string, g, b *Lin, ar bool, lo, hi *big.Int) *Lin {
	if g.eq(b) {
		if len(j.f.rebound) > 0 {
			if s := j.keep(g.deps()); s != nil {
				return g.subst(s)
			}
		}
		return g
	}
	if bv := j.inF; bv != nil && (g.deps()[bv] || b.deps()[bv]) {
		// a value that depends on the place in a summary
		if k := g.coef(bv); k.Sign() != 0 && k.Cmp(b.coef(bv)) == 0 {
			own := linZero.addScaled(linA(bv), k)
			if x, y := g.sub(own), b.sub(own); !x.deps()[bv] && !y.deps()[bv] {
				return j.int(path, x, y, ar, nil, nil).add(own)
			}
		}
		if x, y := g.singleAtom(), b.singleAtom(); x != nil && y != nil && x.kind == y.kind && x.aux == y.aux && len(x.args) == len(y.args) && len(x.args) > 0 && x.kind != "un" {
			args := make([]*Lin, len(x.args))
			for i := range args {
				args[i] = j.int(fmt.Sprintf("%s.a%d", path, i), x.args[i], y.args[i], true, nil, nil)
			}
			return rebuildAtom(x, args)
		}
		return linA(mkAtom("un", fmt.Sprintf("%s.%s.%s", j.sig, path, j.f.name), lo, hi, linA(bv)))
	}
	if m := j.f.e.congr; m > 1 && j.inF == nil {
		if x, y := g.divBy(m), b.divBy(m); x != nil && y != nil {
			if lo != nil {
				lo = new(big.Int).Neg(new(big.Int).Div(new(big.Int).Neg(lo), bigI(m)))
			}
			if hi != nil {
				hi = new(big.Int).Div(hi, bigI(m))
			}
			return j.int(path+"/", x, y, ar, lo, hi).scale(bigI(m))
		}
	}
	key := g.key() + "|" + b.key()
	if c, ok := j.byKey[key]; ok {
		return linA(c.mu)
	}
	if s := j.f.stable(j.sig, path); s != "" {
		path = s
	}
	c := &cell{path: path, g: g, b: b, ar: ar}
	c.mu = mkAtom("tmp", fmt.Sprintf("%s/%s/%s", j.f.name, j.sig, path), lo, hi)
	mk := j.sig + "/" + path
	fin, ok := j.f.muNo[mk]
	if !ok {
		fin = mkAtom("mu", fmt.Sprintf("%s~%d.%s", path, len(j.f.muNo), j.f.name), lo, hi)
		j.f.muNo[mk] = fin
		j.f.rebound[fin] = true
	}
	c.fin = fin
	if lo != nil && fin.lo == nil {
		fin.lo = lo
	}
	if hi != nil && fin.hi == nil {
		fin.hi = hi
	}
	j.byKey[key] = c
	j.cells = append(j.cells, c)
	return linA(c.mu)
}

func (f *fixCtx) stable(sig, path string) string { return path }

func (j *joiner) form(path string, g, b Form) Form {
	if g.key() == b.key() {
		return j.keepVal(BoolV{g}).(BoolV).F
	}
	gv, ok1 := j.G.formVal(g)
	bv, ok2 := j.B.formVal(b)
	if ok1 && ok2 && gv == bv {
		return bform(gv)
	}
	if j.inF != nil {
		return Form{k: 'a', a: mkAtom("un", fmt.Sprintf("%s.%s.%s", j.sig, path, j.f.name), nil, nil, linA(j.inF))}
	}
	return Form{k: 'a', a: mkAtom("mu", fmt.Sprintf("bool:%s.%s.%s", j.sig, path, j.f.name), nil, nil)}
}

func (j *joiner) atom(path, what string) *Atom {
	if j.inF != nil {
		panic(undecided("values of a summary differ (" + what + ")"))
	}
	return mkAtom("mu", fmt.Sprintf("%s:%s.%s.%s", what, j.sig, path, j.f.name), nil, nil)
}

func (j *joiner) nilAtom(path string, g, b *Atom) *Atom {
	if g == b {
		return g
	}
	gf, bf := Form{k: 'F'}, Form{k: 'F'}
	if g != nil {
		gf = Form{k: 'a', a: g}
	}
	if b != nil {
		bf = Form{k: 'a', a: b}
	}
	r := j.form(path+"?nil", gf, bf)
	if r.k == 'F' {
		return nil
	}
	return r.a
}

func (j *joiner) path(path string, g, b []Sel) []Sel {
	if len(g) != len(b) {
		panic(undecided("join of pointers into different positions"))
	}
	r := append([]Sel{}, g...)
	for i := range g {
		if g[i].Field != b[i].Field {
			panic(undecided("join of pointers to different fields"))
		}
		if g[i].Idx != nil {
			r[i].Idx = j.int(fmt.Sprintf("%s@%d", path, i), g[i].Idx, b[i].Idx, true, nil, nil)
		}
	}
	return r
}

func (j *joiner) val(path string, g, b Val) Val {
	switch gv := g.(type) {
	case nil:
		return nil
	case IntV:
		bv, ok := b.(IntV)
		if !ok {
			break
		}
		return IntV{j.int(path, gv.L, bv.L, true, nil, nil), gv.Ar || bv.Ar}
	case BoolV:
		bv, ok := b.(BoolV)
		if !ok {
			break
		}
		return BoolV{j.form(path, gv.F, bv.F)}
	case FloatV:
		bv, ok := b.(FloatV)
		if !ok {
			break
		}
		if gv.A == bv.A {
			return j.keepVal(gv)
		}
		if j.inF != nil {
			return FloatV{mkAtom("un", fmt.Sprintf("%s.%s.%s", j.sig, path, j.f.name), nil, nil, linA(j.inF))}
		}
		return FloatV{j.atom(path, "float")}
	case StrV:
		bv, ok := b.(StrV)
		if !ok {
			break
		}
		if valKey(gv) == valKey(bv) {
			return j.keepVal(gv)
		}
		return StrV{A: j.atom(path, "str"), Len: j.int(path+".len", gv.Len, bv.Len, true, big0, lenHi)}
	case NilV:
		if _, ok := b.(NilV); ok {
			return g
		}
	case PtrV:
		bv, ok := b.(PtrV)
		if !ok {
			break
		}
		if valKey(gv) == valKey(bv) && gv.Conv == bv.Conv {
			j.obj(path, gv.Obj, bv.Obj)
			gv.Path = j.path(path, gv.Path, bv.Path)
			return gv
		}
		return PtrV{Obj: j.obj(path, gv.Obj, bv.Obj), Path: j.path(path, gv.Path, bv.Path), NilA: j.nilAtom(path, gv.NilA, bv.NilA), Conv: gv.Conv}
	case SliceV:
		bv, ok := b.(SliceV)
		if !ok {
			break
		}
		if gv.Obj == 0 && bv.Obj == 0 {
			return gv
		}
		if gv.Obj == 0 || bv.Obj == 0 {
			break
		}
		if gv.View != bv.View {
			break
		}
		hi := lenHi
		if gv.Cap.isConst() && gv.Cap.eq(bv.Cap) {
			hi = gv.Cap.c
		}
		return SliceV{Obj: j.obj(path, gv.Obj, bv.Obj), Path: j.path(path, gv.Path, bv.Path),
			Off: j.int(path+".off", gv.Off, bv.Off, true, nil, nil), Len: j.int(path+".len", gv.Len, bv.Len, true, big0, hi), Cap: j.int(path+".cap", gv.Cap, bv.Cap, true, big0, lenHi),
			NilA: j.nilAtom(path, gv.NilA, bv.NilA), View: gv.View}
	case IfaceV:
		bv, ok := b.(IfaceV)
		if !ok || !types.Identical(gv.T, bv.T) {
			break
		}
		return IfaceV{gv.T, j.val(path+".i", gv.V, bv.V)}
	case ErrV:
		bv, ok := b.(ErrV)
		if !ok {
			break
		}
		return ErrV{j.err(path, gv.E, bv.E)}
	case StreamV:
		if gv == b {
			return g
		}
	case OpqV:
		bv, ok := b.(OpqV)
		if !ok {
			break
		}
		if gv.A == bv.A && gv.NilA == bv.NilA {
			return j.keepVal(gv)
		}
		return OpqV{T: gv.T, A: j.atom(path, "opq"), NilA: j.nilAtom(path, gv.NilA, bv.NilA)}
	case FuncV:
		bv, ok := b.(FuncV)
		if !ok || bv.Fn != gv.Fn {
			break
		}
		r := FuncV{Fn: gv.Fn}
		for i := range gv.B {
			r.B = append(r.B, j.val(fmt.Sprintf("%s.b%d", path, i), gv.B[i], bv.B[i]))
		}
		return r
	case TupV:
		bv, ok := b.(TupV)
		if !ok {
			break
		}
		r := make(TupV, len(gv))
		for i := range gv {
			r[i] = j.val(fmt.Sprintf("%s.t%d", path, i), gv[i], bv[i])
		}
		return r
	case StructV:
		bv, ok := b.(StructV)
		if !ok {
			break
		}
		r := StructV{make([]Val, len(gv.F))}
		for i := range gv.F {
			r.F[i] = j.val(fmt.Sprintf("%s.%d", path, i), gv.F[i], bv.F[i])
		}
		return r
	case *Arr:
		bv, ok := b.(*Arr)
		if !ok {
			break
		}
		return j.arr(path, gv, bv)
	case *MapV:
		bv, ok := b.(*MapV)
		if !ok {
			break
		}
		if gv.key() == bv.key() {
			return gv
		}
		return &MapV{T: gv.T, Open: true, Ver: fmt.Sprintf("join:%s.%s.%s", j.sig, path, j.f.name)}
	}
	if ifaceish(g) && ifaceish(b) {
		// different dynamic types: nothing is known about the value
		return OpqV{T: anyType, A: j.atom(path, "opq"), NilA: j.atom(path, "isnil")}
	}
	panic(undecided(fmt.Sprintf("join of %T and %T at %s (%s)", g, b, path, j.f.name)))
}

var anyType = types.NewInterfaceType(nil, nil)

func ifaceish(v Val) bool {
	switch v := v.(type) {
	case IfaceV:
		return true
	case OpqV:
		return types.IsInterface(v.T)
	}
	return false
}

func (j *joiner) err(path string, g, b *Err) *Err {
	if g == b {
		return g
	}
	if g.kind == "global" || b.kind == "global" {
		panic(undecided("join of a sentinel with another error"))
	}
	k := [2]int{g.id, b.id}
	if x, ok := j.memoE[k]; ok {
		return x
	}
	if g.kind == "joined" && j.f.joinErrs[j.sig+path] == g {
		// absorb
		if g.notEOF && !b.notEOF || g.exact && !b.exact {
			panic(undecided("error class changes"))
		}
		j.memoE[k] = g
		return g
	}
	x, ok := j.f.joinErrs[j.sig+path]
	if !ok {
		x = newErr("joined", path, g.site)
		x.notEOF, x.exact = g.notEOF && b.notEOF, g.exact && b.exact
		j.f.joinErrs[j.sig+path] = x
	}
	j.memoE[k] = x
	return x
}

// ---- arrays ----

func (j *joiner) arr(path string, g, b *Arr) *Arr {
	if g.key() == b.key() {
		return j.keepVal(g).(*Arr)
	}
	if g.Ver == "" && b.Ver == "" && g.Zero != b.Zero || !types.Identical(g.Elem, b.Elem) {
		return j.havocArr(path, g, b)
	}
	g, b = j.G.normArr(g), j.B.normArr(b)
	if g.key() == b.key() {
		return j.keepVal(g).(*Arr)
	}
	if g.Ver != b.Ver || len(g.VArgs) != len(b.VArgs) || g.Zero != b.Zero || g.Sorted != b.Sorted {
		return j.havocArr(path, g, b)
	}
	if !j.sameShape(g, b) {
		b2 := j.B.foldPoints(b, j.f.e.recs)
		g2 := j.foldLike(g, b2)
		if g3 := j.G.foldPoints(g, j.f.e.recs); g2 == nil && j.sameShape(g, b2) {
			g2 = g
		} else if g2 == nil && j.sameShape(g3, b2) {
			g2 = g3
		}
		if g2 != nil && j.sameShape(g2, b2) {
			g, b = g2, b2
		} else if b3 := j.absorb(g, b); b3 != nil && j.sameShape(g, b3) {
			b = b3
		} else {
			return j.havocArr(path, g, b)
		}
	}
	r := &Arr{Elem: g.Elem, Zero: g.Zero, Ver: g.Ver, Sorted: g.Sorted}
	if g.N != nil && b.N != nil {
		r.N = j.int(path+".N", g.N, b.N, true, big0, lenHi)
	}
	for i := range g.VArgs {
		r.VArgs = append(r.VArgs, j.int(fmt.Sprintf("%s.va%d", path, i), g.VArgs[i], b.VArgs[i], true, nil, nil))
	}
	for i := range g.ents {
		ge, be := &g.ents[i], &b.ents[i]
		p := fmt.Sprintf("%s[%d]", path, i)
		n := ent{k: ge.k, stream: ge.stream}
		n.lo = j.int(p+".lo", ge.lo, be.lo, true, nil, nil)
		if ge.hi != nil {
			n.hi = j.int(p+".hi", ge.hi, be.hi, true, nil, nil)
		}
		if ge.off != nil {
			n.off = j.int(p+".off", ge.off, be.off, true, nil, nil)
		}
		switch ge.k {
		case 's':
			n.src = j.arr(p+".src", ge.src, be.src)
		case 'p':
			n.v = j.val(p+".v", ge.v, be.v)
		case 'f':
			n.bv = ge.bv
			bv := be.v
			if be.bv != ge.bv {
				bv = substVal(be.v, Subst{be.bv: linA(ge.bv)})
			}
			if j.B.valEq(ge.v, bv) || valKey(ge.v) == valKey(bv) {
				n.v = j.keepVal(ge.v)
			} else {
				old := j.inF
				j.inF = ge.bv
				n.v = j.val(p+".v", ge.v, bv)
				j.inF = old
			}
		}
		r.ents = append(r.ents, n)
	}
	return r
}

func (j *joiner) havocArr(path string, g, b *Arr) *Arr {
	if debugFix {
		fmt.Println("HAVOC", path, "G:", trunc(showVal(g), 600), "B:", trunc(showVal(b), 600))
	}
	r := &Arr{Elem: g.Elem, Ver: fmt.Sprintf("havoc:%s.%s.%s", j.sig, path, j.f.name)}
	if g.N != nil && b.N != nil {
		r.N = j.int(path+".N", g.N, b.N, true, big0, lenHi)
	}
	return r
}

func (j *joiner) sameShape(g, b *Arr) bool {
	if len(g.ents) != len(b.ents) {
		return false
	}
	for i := range g.ents {
		x, y := &g.ents[i], &b.ents[i]
		if x.k != y.k || x.stream != y.stream {
			return false
		}
		if x.k == 'p' {
			// points must be at comparable places
			if x.lo.isConst() && y.lo.isConst() && !x.lo.eq(y.lo) {
				return false
			}
			if !sameKind(x.v, y.v) {
				return false
			}
		}
		if x.k == 'f' && !sameKind(x.v, y.v) {
			return false
		}
		if x.k == 's' && (x.src.Ver != y.src.Ver || x.src.Zero != y.src.Zero) {
			return false
		}
	}
	return true
}

func sameKind(a, b Val) bool {
	return fmt.Sprintf("%T", a) == fmt.Sprintf("%T", b)
}

// normArr removes shadowed entries and turns copies of summarised ranges into
// summaries.
func (st *State) normArr(a *Arr) *Arr {
	n := st.normArr1(a)
	if len(curRecs) > 0 {
		n = st.mergeEnts(n)
	}
	return n
}

// curRecs are the recurrences that summaries of arrays may follow.
var curRecs []*recTheory

// mergeEnts makes adjacent entries that follow a recurrence one summary.
func (st *State) mergeEnts(a *Arr) *Arr {
	for {
		done := true
		for i := 0; i+1 < len(a.ents); i++ {
			p, q := a.ents[i], a.ents[i+1]
			var m *ent
			switch {
			case p.k == 'p' && q.k == 'f' && st.facts.entailsEQ(q.lo.sub(p.lo).addC(-1)) && st.fits(substVal(q.v, Subst{q.bv: p.lo}), p.v):
				m = &ent{k: 'f', lo: p.lo, hi: q.hi, bv: q.bv, v: q.v}
			case p.k == 'f' && q.k == 'p' && st.facts.entailsEQ(q.lo.sub(p.hi)) && st.fits(substVal(p.v, Subst{p.bv: q.lo}), q.v):
				m = &ent{k: 'f', lo: p.lo, hi: q.lo.addC(1), bv: p.bv, v: p.v}
			case p.k == 'p' && q.k == 'p':
				two := &Arr{ents: []ent{p, q}}
				if f := st.foldPoints(two, curRecs); len(f.ents) == 1 {
					m = &f.ents[0]
				}
			}
			if m != nil {
				b := *a
				b.k = ""
				b.ents = append(append(append([]ent{}, a.ents[:i]...), *m), a.ents[i+2:]...)
				a, done = &b, false
				break
			}
		}
		if done {
			return a
		}
	}
}

func (st *State) normArr1(a *Arr) *Arr {
	n := &Arr{Elem: a.Elem, N: a.N, Zero: a.Zero, Ver: a.Ver, VArgs: a.VArgs, Sorted: a.Sorted}
	var ents []ent
	for _, e := range a.ents {
		if e.k == 's' {
			// a short copy is a few elements
			if l := e.hi.sub(e.lo); l.isConst() && l.c.IsInt64() && l.c.Int64() > 0 && l.c.Int64() <= 2 {
				for i := int64(0); i < l.c.Int64(); i++ {
					ents = append(ents, ent{k: 'p', lo: e.lo.addC(i), v: st.arrLoad(e.src, e.off.addC(i))})
				}
				continue
			}
		}
		ents = append(ents, e)
	}
	for _, e := range ents {
		if e.k == 's' {
			if len(e.src.ents) > 1 || len(e.src.ents) == 1 && e.src.ents[0].k == 's' {
				e.src = st.normArr(e.src)
			}
			if f, ok := st.segToForall(&e); ok {
				e = f
			}
		}
		if e.k != 'p' {
			// empty ranges vanish
			if st.facts.entailsLE(e.hi.sub(e.lo)) {
				continue
			}
		}
		// drop earlier entries that e covers
		var keep []ent
		for _, o := range n.ents {
			if st.covers(&e, &o) {
				continue
			}
			keep = append(keep, o)
		}
		n.ents = keep
		// merge with the previous summary
		if len(n.ents) > 0 {
			p := n.ents[len(n.ents)-1]
			if p.k == 'f' {
				if e.k == 'p' && st.facts.entailsEQ(e.lo.sub(p.hi)) && st.fits(substVal(p.v, Subst{p.bv: e.lo}), e.v) {
					n.ents = append([]ent{}, n.ents...)
					p.hi = e.lo.addC(1)
					n.ents[len(n.ents)-1] = p
					continue
				}
				if e.k == 'f' && st.facts.entailsEQ(e.lo.sub(p.hi)) {
					v := e.v
					if e.bv != p.bv {
						v = substVal(v, Subst{e.bv: linA(p.bv)})
					}
					if st.valEq(p.v, v) {
						n.ents = append([]ent{}, n.ents...)
						p.hi = e.hi
						n.ents[len(n.ents)-1] = p
						continue
					}
				}
			}
		}
		n.ents = append(n.ents[:len(n.ents):len(n.ents)], e)
	}
	return n
}

func (st *State) covers(e, o *ent) bool {
	olo, ohi := o.lo, o.hi
	if o.k == 'p' {
		ohi = o.lo.addC(1)
	}
	elo, ehi := e.lo, e.hi
	if e.k == 'p' {
		if o.k != 'p' {
			return false
		}
		return st.facts.entailsEQ(e.lo.sub(o.lo))
	}
	return st.facts.entailsLE(elo.sub(olo)) && st.facts.entailsLE(ohi.sub(ehi))
}

// segToForall: a copied range that one summary of the source covers.
func (st *State) segToForall(e *ent) (ent, bool) {
	n := e.hi.sub(e.lo)
	for i := len(e.src.ents) - 1; i >= 0; i-- {
		s := &e.src.ents[i]
		switch s.k {
		case 'f':
			if st.facts.entailsLE(s.lo.sub(e.off)) && st.facts.entailsLE(e.off.add(n).sub(s.hi)) {
				// element k of the target is element k-lo+off of the source
				r := ent{k: 'f', lo: e.lo, hi: e.hi, bv: s.bv}
				r.v = substVal(s.v, Subst{s.bv: linA(s.bv).sub(e.lo).add(e.off)})
				return r, true
			}
		case 's':
			if st.facts.entailsLE(s.lo.sub(e.off)) && st.facts.entailsLE(e.off.add(n).sub(s.hi)) {
				r := ent{k: 's', lo: e.lo, hi: e.hi, src: s.src, off: e.off.sub(s.lo).add(s.off)}
				if f, ok := st.segToForall(&r); ok {
					return f, true
				}
				return r, true
			}
		case 'p':
			if st.facts.entailsLE(s.lo.sub(e.off).addC(1)) || st.facts.entailsLE(e.off.add(n).sub(s.lo)) {
				continue
			}
		}
		if s.k != 'p' && (st.facts.entailsLE(s.hi.sub(e.off)) || st.facts.entailsLE(e.off.add(n).sub(s.lo))) {
			continue
		}
		return ent{}, false
	}
	return ent{}, false
}

var boundVar *Atom

func bvar() *Atom {
	if boundVar == nil || atomTab[boundVar.key] != boundVar {
		boundVar = mkAtom("bv", "k", big0, lenHi)
	}
	return boundVar
}

// foldPoints turns two adjacent points into a summary by interpolation.
func (st *State) foldPoints(a *Arr, recs []*recTheory) *Arr {
	n := len(a.ents)
	if n < 2 {
		return a
	}
	p, q := a.ents[n-2], a.ents[n-1]
	if p.k != 'p' || q.k != 'p' || !st.facts.entailsEQ(q.lo.sub(p.lo).addC(-1)) {
		return a
	}
	k := linA(bvar())
	in := &interp{st: st, recs: recs, p: p.lo, k: k}
	v, ok := in.val(p.v, q.v, k.sub(p.lo), 0)
	if !ok {
		return a
	}
	r := *a
	r.k = ""
	r.ents = append(append([]ent{}, a.ents[:n-2]...), ent{k: 'f', lo: p.lo, hi: q.lo.addC(1), bv: bvar(), v: v})
	return &r
}

// interpolate gives v(k) with v(0)=a, v(1)=b, linear in d.
type interp struct {
	st   *State
	recs []*recTheory
	p, k *Lin
}

func (in *interp) val(a, b Val, d *Lin, depth int) (Val, bool) {
	switch av := a.(type) {
	case IntV:
		bv, ok := b.(IntV)
		if !ok {
			return nil, false
		}
		x := bv.L.sub(av.L)
		if !x.isConst() {
			if l, ok := in.st.recPoint(in.recs, av.L, bv.L, in.p, in.k); ok {
				return IntV{l, true}, true
			}
			if l, ok := interpLin(av.L, bv.L, d); ok {
				return IntV{l, true}, true
			}
			return nil, false
		}
		return IntV{av.L.addScaled(d, x.c), true}, true
	case StructV:
		bv, ok := b.(StructV)
		if !ok {
			return nil, false
		}
		r := StructV{make([]Val, len(av.F))}
		known := 0
		for i := range av.F {
			v, ok := in.val(av.F[i], bv.F[i], d, depth+1)
			if !ok {
				symN++
				v, ok = unknownAt(av.F[i], fmt.Sprintf("un#%d", symN), in.k)
			} else {
				known++
			}
			if !ok {
				return nil, false
			}
			r.F[i] = v
		}
		if known == 0 && depth == 0 {
			return nil, false
		}
		return r, true
	case SliceV:
		bv, ok := b.(SliceV)
		if !ok {
			return nil, false
		}
		if av.Obj == bv.Obj && valKey(a) == valKey(b) {
			return a, true
		}
		o, ok := interpObj(av.Obj, bv.Obj, d)
		if !ok || len(av.Path) != 0 || len(bv.Path) != 0 || av.NilA != nil || bv.NilA != nil {
			return nil, false
		}
		of, ok1 := interpLin(av.Off, bv.Off, d)
		ln, ok2 := interpLin(av.Len, bv.Len, d)
		cp, ok3 := interpLin(av.Cap, bv.Cap, d)
		if !ok1 || !ok2 || !ok3 {
			return nil, false
		}
		return SliceV{Obj: o, Off: of, Len: ln, Cap: cp}, true
	case PtrV:
		bv, ok := b.(PtrV)
		if !ok {
			return nil, false
		}
		if valKey(a) == valKey(b) {
			return a, true
		}
		if av.Obj == bv.Obj && len(av.Path) == len(bv.Path) && av.NilA == nil && bv.NilA == nil {
			r := av
			r.Path = append([]Sel{}, av.Path...)
			for i := range r.Path {
				if av.Path[i].Field != bv.Path[i].Field {
					return nil, false
				}
				if av.Path[i].Idx != nil {
					l, ok := interpLin(av.Path[i].Idx, bv.Path[i].Idx, d)
					if !ok {
						return nil, false
					}
					r.Path[i].Idx = l
				}
			}
			return r, true
		}
		o, ok := interpObj(av.Obj, bv.Obj, d)
		if !ok || len(av.Path) != 0 || len(bv.Path) != 0 || av.NilA != nil || bv.NilA != nil {
			return nil, false
		}
		return PtrV{Obj: o}, true
	}
	if valKey(a) == valKey(b) {
		return a, true
	}
	return nil, false
}

// interpLin interpolates linearly, looking through equal atom kinds.
func interpLin(a, b, d *Lin) (*Lin, bool) {
	x := b.sub(a)
	if x.isConst() {
		return a.addScaled(d, x.c), true
	}
	aa, ba := a.singleAtom(), b.singleAtom()
	if aa != nil && ba != nil && aa.kind == ba.kind && aa.aux == ba.aux && len(aa.args) == len(ba.args) && len(aa.args) > 0 {
		args := make([]*Lin, len(aa.args))
		for i := range args {
			l, ok := interpLin(aa.args[i], ba.args[i], d)
			if !ok {
				return nil, false
			}
			args[i] = l
		}
		return rebuildAtom(aa, args), true
	}
	return nil, false
}

func interpObj(a, b int, d *Lin) (int, bool) {
	ra, rb := lazyByID[a], lazyByID[b]
	if ra == nil || rb == nil || ra.name != rb.name || len(ra.args) != len(rb.args) || len(ra.args) == 0 {
		return 0, false
	}
	args := make([]*Lin, len(ra.args))
	for i := range args {
		l, ok := interpLin(ra.args[i], rb.args[i], d)
		if !ok {
			return 0, false
		}
		args[i] = l
	}
	return lazyObj(ra.T, ra.name, args, ra.tag), true
}

// foldLike rewrites g's last point into the summary form of b.
func (j *joiner) foldLike(g, b *Arr) *Arr {
	nb := len(b.ents)
	if nb == 0 || b.ents[nb-1].k != 'f' {
		return nil
	}
	f := b.ents[nb-1]
	ng := len(g.ents)
	if ng == nb && g.ents[ng-1].k == 'p' {
		p := g.ents[ng-1]
		if j.G.facts.entailsEQ(p.lo.sub(f.lo)) && j.G.fits(substVal(f.v, Subst{f.bv: p.lo}), p.v) {
			r := *g
			r.k = ""
			r.ents = append(append([]ent{}, g.ents[:ng-1]...), ent{k: 'f', lo: p.lo, hi: p.lo.addC(1), bv: f.bv, v: f.v})
			return &r
		}
	}
	if ng == nb-1 {
		// nothing stored yet: an empty range
		r := *g
		r.k = ""
		r.ents = append(append([]ent{}, g.ents...), ent{k: 'f', lo: f.lo, hi: f.lo, bv: f.bv, v: f.v})
		return &r
	}
	return nil
}

func (j *joiner) absorb(g, b *Arr) *Arr { return nil }

// valEq: values are certainly equal.
func (st *State) valEq(a, b Val) bool {
	if valKey(a) == valKey(b) {
		return true
	}
	switch av := a.(type) {
	case IntV:
		bv, ok := b.(IntV)
		return ok && st.linEq(av.L, bv.L)
	case StructV:
		bv, ok := b.(StructV)
		if !ok || len(av.F) != len(bv.F) {
			return false
		}
		for i := range av.F {
			if !st.valEq(av.F[i], bv.F[i]) {
				return false
			}
		}
		return true
	case SliceV:
		bv, ok := b.(SliceV)
		if !ok || pathKey(av.Path) != pathKey(bv.Path) || av.View != bv.View {
			return false
		}
		return st.objEq(av.Obj, bv.Obj) && (av.Obj == 0 || st.linEq(av.Off, bv.Off) && st.linEq(av.Len, bv.Len) && st.linEq(av.Cap, bv.Cap))
	case PtrV:
		bv, ok := b.(PtrV)
		if !ok || av.NilA != bv.NilA || !st.objEq(av.Obj, bv.Obj) || len(av.Path) != len(bv.Path) {
			return false
		}
		for i := range av.Path {
			if av.Path[i].Field != bv.Path[i].Field {
				return false
			}
			if av.Path[i].Idx != nil && !st.linEq(av.Path[i].Idx, bv.Path[i].Idx) {
				return false
			}
		}
		return true
	}
	return false
}

func (st *State) objEq(a, b int) bool {
	if a == b {
		return true
	}
	ra, rb := lazyByID[a], lazyByID[b]
	if ra == nil || rb == nil || ra.name != rb.name || len(ra.args) != len(rb.args) {
		return false
	}
	for i := range ra.args {
		if !st.linEq(ra.args[i], rb.args[i]) {
			return false
		}
	}
	return true
}

// linEq proves equality, looking through atoms of the same kind.
func (st *State) linEq(a, b *Lin) bool {
	if a.eq(b) {
		return true
	}
	if st.facts.entailsEQ(a.sub(b)) {
		return true
	}
	d := a.sub(b)
	// cancel structurally equal atoms
	if len(d.t) == 2 && d.c.Sign() == 0 && new(big.Int).Add(d.t[0].k, d.t[1].k).Sign() == 0 {
		x, y := d.t[0].a, d.t[1].a
		if x.kind == y.kind && x.aux == y.aux && len(x.args) == len(y.args) && len(x.args) > 0 {
			for i := range x.args {
				if !st.linEq(x.args[i], y.args[i]) {
					return false
				}
			}
			return true
		}
	}
	return false
}

// ---- numeric part ----

// solveEqs applies the equalities of a side's facts to its cell values.
func (j *joiner) solveSide(fs Facts, ls []*Lin) []*Lin {
	out := append([]*Lin{}, ls...)
	var eqs []*Lin
	for _, f := range fs {
		if f.k == fEQ {
			eqs = append(eqs, f.l)
		}
	}
	for i := 0; i < len(eqs); i++ {
		e := eqs[i]
		var pick *mono
		for k := range e.t {
			if e.t[k].k.CmpAbs(big1) == 0 && j.f.variant(e.t[k].a) && (pick == nil || e.t[k].a.id > pick.a.id) {
				pick = &e.t[k]
			}
		}
		if pick == nil && len(e.t) == 1 && e.t[0].k.CmpAbs(big1) == 0 {
			pick = &e.t[0] // a number from before the loop turns out to be a constant
		}
		if pick == nil {
			continue
		}
		rest := e.sub(linZero.addScaled(linA(pick.a), pick.k))
		val := rest.scale(new(big.Int).Neg(pick.k))
		if val.deps()[pick.a] {
			continue
		}
		s := Subst{pick.a: val}
		for k := range out {
			out[k] = out[k].subst(s)
		}
		for k := i + 1; k < len(eqs); k++ {
			eqs[k] = eqs[k].subst(s)
		}
	}
	return out
}

type rat = big.Rat

func (j *joiner) finish(g *Conf, env []Val) (*Conf, bool) {
	f := j.f
	kept0 := j.dropKept()
	cells := j.cells
	n := len(cells)
	sigG, sigB := Subst{}, Subst{}
	gl, bl := make([]*Lin, n), make([]*Lin, n)
	for i, c := range cells {
		sigG[c.mu], sigB[c.mu] = c.g, c.b
		gl[i], bl[i] = c.g, c.b
	}
	gs, bs := j.solveSide(j.G.facts, gl), j.solveSide(j.B.facts, bl)
	// constraints on coefficient vectors
	var rows [][]*rat
	collect := func(ls []*Lin) []*Atom {
		m := map[*Atom]bool{}
		for _, l := range ls {
			for _, t := range l.t {
				if f.variant(t.a) {
					m[t.a] = true
				}
			}
		}
		return sortedAtoms(m)
	}
	row := func(get func(i int) *big.Int) {
		r := make([]*rat, n)
		nz := false
		for i := range r {
			v := get(i)
			r[i] = new(rat).SetInt(v)
			if v.Sign() != 0 {
				nz = true
			}
		}
		if nz {
			rows = append(rows, r)
		}
	}
	for _, a := range collect(gs) {
		a := a
		row(func(i int) *big.Int { return gs[i].coef(a) })
	}
	for _, a := range collect(bs) {
		a := a
		row(func(i int) *big.Int { return bs[i].coef(a) })
	}
	pm := map[*Atom]bool{}
	diffs := make([]*Lin, n)
	for i := range diffs {
		diffs[i] = dropVariant(f, gs[i]).sub(dropVariant(f, bs[i]))
		for _, t := range diffs[i].t {
			pm[t.a] = true
		}
	}
	for _, a := range sortedAtoms(pm) {
		a := a
		row(func(i int) *big.Int { return diffs[i].coef(a) })
	}
	row(func(i int) *big.Int { return diffs[i].c })
	basis := nullSpace(rows, n)
	// Turn each basis vector into an equality over markers, eliminating one
	// marker with coefficient +-1.
	elim := Subst{}
	var eqFacts []*Lin
	for _, v := range basis {
		l := linZero
		for i := range v {
			if v[i].Sign() != 0 {
				l = l.addScaled(linA(cells[i].mu), v[i]).addScaled(dropVariant(f, gs[i]), new(big.Int).Neg(v[i]))
			}
		}
		l = l.subst(elim)
		if l.isConst() {
			continue
		}
		var pick *mono
		// prefer the last marker (later cells are expressed by earlier ones)
		for k := range l.t {
			if l.t[k].a.kind == "tmp" && l.t[k].k.CmpAbs(big1) == 0 {
				if pick == nil || l.t[k].a.id > pick.a.id {
					pick = &l.t[k]
				}
			}
		}
		if pick == nil {
			eqFacts = append(eqFacts, l)
			continue
		}
		rest := l.sub(linZero.addScaled(linA(pick.a), pick.k))
		val := rest.scale(new(big.Int).Neg(pick.k))
		s := Subst{pick.a: val}
		for k := range elim {
			elim[k] = elim[k].subst(s)
		}
		elim[pick.a] = val
		for i := range eqFacts {
			eqFacts[i] = eqFacts[i].subst(s)
		}
	}
	// Structural equalities: a cell that is the same function of the others.
	inv := func(ls []*Lin) Subst {
		// express variant atoms by markers
		s := Subst{}
		order := make([]int, n)
		for i := range order {
			order[i] = i
		}
		for pass := 0; pass < 2; pass++ {
			for _, i := range order {
				l := ls[i].subst(s)
				for _, t := range l.t {
					if _, dup := s[t.a]; dup || !f.variant(t.a) || t.a.kind == "tmp" || t.k.CmpAbs(big1) != 0 {
						continue
					}
					if len(t.a.args) > 0 {
						continue
					}
					rest := l.sub(linZero.addScaled(linA(t.a), t.k))
					// only accept if the rest has no other variant atoms
					if pass == 0 && hasVar(f, rest) {
						continue
					}
					if rest.deps()[t.a] {
						continue
					}
					val := linA(cells[i].mu).sub(rest).scale(t.k)
					sub := Subst{t.a: val}
					for k := range s {
						s[k] = s[k].subst(sub)
					}
					s[t.a] = val
					break
				}
			}
		}
		return s
	}
	if len(f.e.recs) > 0 {
		j.recCells(elim)
	}
	ig, ib := inv(gs), inv(bs)
	for i, c := range cells {
		if _, ok := elim[c.mu]; ok {
			continue
		}
		hasComp := false
		for _, t := range gs[i].t {
			if len(t.a.args) > 0 && f.variant(t.a) {
				hasComp = true
			}
		}
		if !hasComp {
			continue
		}
		t := gs[i].subst(ig).subst(elim)
		if hasVarNonTmp(f, t) || t.deps()[c.mu] {
			continue
		}
		want := t.subst(sigB)
		if want.eq(c.b) || j.B.linEq(want, c.b) {
			s := Subst{c.mu: t}
			for k := range elim {
				elim[k] = elim[k].subst(s)
			}
			elim[c.mu] = t
			for k := range eqFacts {
				eqFacts[k] = eqFacts[k].subst(s)
			}
		}
	}
	// Candidate facts.
	cand := map[string]Fact{}
	var candOrder []string
	// names that both sides use and that do not get a new meaning
	taken := map[*Atom]bool{}
	for _, c := range cells {
		taken[c.fin] = true
	}
	shared := func(l *Lin) bool {
		for a := range l.deps() {
			if taken[a] {
				return false
			}
		}
		return true
	}
	addCand := func(x Fact) {
		if x.k != fBool {
			x.l = x.l.subst(elim)
			if x.k == fLE {
				x.l = normLE(x.l)
			}
			if x.l.isConst() {
				return
			}
			if hasVarNonTmp(f, x.l) && !shared(x.l) {
				return
			}
		} else if f.variant(x.a) {
			return
		}
		k := x.key()
		if _, ok := cand[k]; !ok {
			cand[k] = x
			candOrder = append(candOrder, k)
		}
	}
	trans := func(fs Facts, inv Subst, weaken bool) {
		for _, x := range fs {
			if x.k == fBool {
				addCand(x)
				continue
			}
			y := x
			y.l = x.l.subst(inv)
			addCand(y)
			if x.k == fNE && weaken && f.mgc {
				addCand(Fact{k: fLE, l: y.l.addC(1)})
				addCand(Fact{k: fLE, l: y.l.neg().addC(1)})
			}
			if weaken && x.k == fLE {
				z := y
				z.l = y.l.addC(-1)
				addCand(z)
			}
			if x.k == fEQ && weaken {
				addCand(Fact{k: fLE, l: y.l})
				addCand(Fact{k: fLE, l: y.l.neg()})
			}
		}
	}
	rd := f.round[j.sig]
	if debugFix {
		for i, c := range cells {
			fmt.Println("CELL", j.f.name, rd, c.path, "G:", c.g, "=", gs[i], "B:", c.b, "=", bs[i], "elim", elim[c.mu])
		}
		for _, x := range j.B.facts {
			fmt.Println("BFACT", x.key())
		}
	}
	trans(j.G.facts, ig, rd <= 4)
	if rd <= 6 {
		bf := j.B.facts
		if rd >= 3 && !f.mgc {
			// bounds that move from round to round are given up
			bound := map[string]*big.Int{}
			for _, x := range j.G.facts {
				if x.k == fLE && f.linVariant(x.l) {
					l := normLE(x.l.subst(ig).subst(elim))
					bound[(&Lin{c: big0, t: l.t}).key()] = l.c
				}
			}
			var keep Facts
			for _, x := range bf {
				if x.k == fLE {
					l := normLE(x.l.subst(ib).subst(elim))
					if c, ok := bound[(&Lin{c: big0, t: l.t}).key()]; ok && c.Cmp(l.c) > 0 {
						continue
					}
				}
				keep = append(keep, x)
			}
			bf = keep
		}
		trans(bf, ib, rd <= 3)
	}
	if rd <= 9 {
		trans(j.B.guards, ib, false)
	}
	if rd <= 3 {
		for i, c := range cells {
			mu := linA(c.mu)
			addCand(Fact{k: fLE, l: mu.neg()})
			addCand(Fact{k: fLE, l: mu.neg().addC(1)})
			if !hasVar(f, gs[i]) {
				addCand(Fact{k: fLE, l: gs[i].sub(mu)})
				addCand(Fact{k: fLE, l: mu.sub(gs[i])})
			}
			if !hasVar(f, bs[i]) {
				addCand(Fact{k: fLE, l: bs[i].sub(mu)})
				addCand(Fact{k: fLE, l: mu.sub(bs[i])})
			}
			if n <= 14 {
				for k := range cells {
					if k != i {
						addCand(Fact{k: fLE, l: mu.sub(linA(cells[k].mu))})
					}
				}
			}
		}
	}
	if rd <= 3 {
		// bounds that a side knows for a number that happens to be constant
		for _, sd := range []struct {
			fs Facts
			ls []*Lin
		}{{j.G.facts, gs}, {j.B.facts, bs}} {
			for _, x := range sd.fs {
				if x.k != fLE && (x.k != fNE || !f.mgc) || len(x.l.t) > 3 {
					continue
				}
				if x.k == fLE && sd.fs.entailsLE(x.l.neg()) {
					continue // half of an equality
				}
				for i, c := range cells {
					v := sd.ls[i]
					if !v.isConst() {
						continue
					}
					p, m := x.l.sub(v).add(linA(c.mu)), x.l.add(v).sub(linA(c.mu))
					addCand(Fact{k: x.k, l: p})
					addCand(Fact{k: x.k, l: m})
					if x.k == fNE {
						addCand(Fact{k: fLE, l: p.addC(1)})
						addCand(Fact{k: fLE, l: p.neg().addC(1)})
						addCand(Fact{k: fLE, l: m.addC(1)})
						addCand(Fact{k: fLE, l: m.neg().addC(1)})
					}
				}
			}
		}
	}
	if f.cands != nil {
		for _, x := range f.cands(j.J) {
			if debugFix {
				y := x
				y.l = y.l.subst(elim)
				fmt.Println("CAND", j.sig, rd, x.l, "G", j.holds(j.G, y, sigG), x.l.subst(sigG), "B", j.holds(j.B, y, sigB), x.l.subst(sigB))
			}
			addCand(x)
		}
	}
	for _, l := range eqFacts {
		addCand(Fact{k: fEQ, l: l})
	}
	var kept Facts
	for _, k := range candOrder {
		x := cand[k]
		if j.holds(j.G, x, sigG) && j.holds(j.B, x, sigB) {
			kept = append(kept, x)
		}
	}
	// Final markers.
	ren := Subst{}
	for _, c := range cells {
		lo, hi := c.mu.lo, c.mu.hi
		_ = lo
		_ = hi
		ren[c.mu] = linA(c.fin)
	}
	for k, v := range elim {
		ren[k] = v.subst(ren)
	}
	for k, v := range kept0 {
		ren[k] = v
	}
	fin := func(l *Lin) *Lin { return l.subst(ren) }
	J := j.J
	for _, x := range kept {
		if x.k != fBool {
			x.l = fin(x.l)
			if x.l.isConst() {
				continue
			}
		}
		J.facts = append(J.facts, x)
	}
	J.facts = minimizeFacts(J.facts, f.linVariant)
	for id, o := range J.heap {
		nv := substVal(o.val, ren)
		no := *o
		no.val = nv
		J.heap[id] = &no
	}
	for k, v := range J.ghost {
		J.ghost[k] = substVal(v, ren)
	}
	nc := *g
	nc.env = env
	for i := range env {
		if env[i] != nil {
			nc.env[i] = substVal(env[i], ren)
		}
	}
	nc.st = J
	// Has G grown?
	changed := confKey(&nc) != confKey(g)
	if !changed {
		for _, x := range g.st.facts {
			if !j.holds(J, x, nil) {
				changed = true
				break
			}
		}
	}
	return &nc, changed
}

func (j *joiner) holds(st *State, x Fact, s Subst) bool {
	switch x.k {
	case fLE:
		return st.facts.entailsLE(x.l.subst(s))
	case fEQ:
		l := x.l.subst(s)
		return st.facts.entailsEQ(l) || len(l.t) == 2 && st.linEq(linZero, l)
	case fNE:
		return st.facts.entailsNE(x.l.subst(s))
	}
	v, ok := st.facts.boolVal(x.a)
	return ok && v == x.v
}

// minimizeFacts drops facts implied by the others (cheap cases). A fact about
// the time before the loop is only dropped for the sake of others of its kind.
func minimizeFacts(fs Facts, later func(l *Lin) bool) Facts {
	var out Facts
	seen := map[string]bool{}
	for i, x := range fs {
		if seen[x.key()] {
			continue
		}
		seen[x.key()] = true
		if x.k == fLE {
			rest := append(append(Facts{}, out...), fs[i+1:]...)
			if !later(x.l) {
				var r Facts
				for _, y := range rest {
					if y.k == fBool || !later(y.l) {
						r = append(r, y)
					}
				}
				rest = r
			}
			// the theories reason from stated facts on other things only
			recBusy = true
			for a := range x.l.deps() {
				if a.kind == "rec" {
					recBusy = false
				}
			}
			had := rest.entailsLE(x.l)
			recBusy = false
			if had {
				continue
			}
		}
		out = append(out, x)
	}
	return out
}

func confKey(c *Conf) string {
	var sb strings.Builder
	for i, v := range c.env {
		if v != nil {
			fmt.Fprintf(&sb, "%d=%s;", i, valKey(v))
		}
	}
	var ids []int
	for id := range c.st.heap {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		o := c.st.heap[id]
		if r, ok := lazyByID[id]; ok {
			// untouched lazy objects do not count
			if valKey(o.val) == valKey(lazyVal(r)) {
				continue
			}
		}
		fmt.Fprintf(&sb, "#%d=%s;", id, valKey(o.val))
	}
	var gk []string
	for k := range c.st.ghost {
		gk = append(gk, k)
	}
	sort.Strings(gk)
	for _, k := range gk {
		sb.WriteString(k + "=" + valKey(c.st.ghost[k]) + ";")
	}
	return sb.String()
}

func dropVariant(f *fixCtx, l *Lin) *Lin {
	r := &Lin{c: l.c}
	for _, t := range l.t {
		if !f.variant(t.a) {
			r.t = append(r.t, t)
		}
	}
	return r
}

func hasVar(f *fixCtx, l *Lin) bool { return f.linVariant(l) }

func hasVarNonTmp(f *fixCtx, l *Lin) bool {
	for d := range l.deps() {
		if d.kind == "tmp" {
			continue
		}
		if len(d.args) > 0 {
			continue
		}
		if f.variant(d) {
			return true
		}
	}
	return false
}

// nullSpace of the row system, as integer vectors.
func nullSpace(rows [][]*rat, n int) [][]*big.Int {
	var piv []int
	r := 0
	for c := 0; c < n && r < len(rows); c++ {
		p := -1
		for i := r; i < len(rows); i++ {
			if rows[i][c].Sign() != 0 {
				p = i
				break
			}
		}
		if p < 0 {
			continue
		}
		rows[r], rows[p] = rows[p], rows[r]
		inv := new(rat).Inv(rows[r][c])
		for k := range rows[r] {
			rows[r][k] = new(rat).Mul(rows[r][k], inv)
		}
		for i := range rows {
			if i != r && rows[i][c].Sign() != 0 {
				m := new(rat).Set(rows[i][c])
				for k := range rows[i] {
					rows[i][k] = new(rat).Sub(rows[i][k], new(rat).Mul(m, rows[r][k]))
				}
			}
		}
		piv = append(piv, c)
		r++
	}
	isP := map[int]int{}
	for i, c := range piv {
		isP[c] = i
	}
	var out [][]*big.Int
	for c := 0; c < n; c++ {
		if _, ok := isP[c]; ok {
			continue
		}
		v := make([]*rat, n)
		for i := range v {
			v[i] = new(rat)
		}
		v[c].SetInt64(1)
		for pc, i := range isP {
			v[pc] = new(rat).Neg(rows[i][c])
		}
		l := big.NewInt(1)
		for _, x := range v {
			g := new(big.Int).GCD(nil, nil, l, x.Denom())
			l = new(big.Int).Div(new(big.Int).Mul(l, x.Denom()), g)
		}
		iv := make([]*big.Int, n)
		for i, x := range v {
			iv[i] = new(big.Int).Div(new(big.Int).Mul(x.Num(), l), x.Denom())
		}
		out = append(out, iv)
	}
	return out
}

func loopPos(l *Loop) token.Pos {
	for _, in := range l.head.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	return token.NoPos
}

var debugFix = os.Getenv("FGB_FIX") != ""

func dumpConf(c *Conf) {
	for i, v := range c.env {
		if v != nil {
			name := ""
			if c.fi != nil {
				for sv, k := range c.fi.num {
					if k == i {
						name = sv.Name()
					}
				}
			}
			fmt.Printf("   env %d %s = %s\n", i, name, trunc(showVal(v), 300))
		}
	}
	dumpState(c.st)
}

func dumpState(st *State) {
	var gk []string
	for k := range st.ghost {
		gk = append(gk, k)
	}
	sort.Strings(gk)
	for _, k := range gk {
		fmt.Printf("   ghost %s = %s\n", k, trunc(showVal(st.ghost[k]), 300))
	}
	var ids []int
	for id := range st.heap {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		o := st.heap[id]
		if o.tag == "global" || o.tag == "lazy" {
			continue
		}
		fmt.Printf("   obj %d (%s %s) = %s\n", id, o.tag, o.site, trunc(showVal(o.val), 400))
	}
	for _, f := range st.facts {
		fmt.Printf("   fact %s\n", trunc(f.String(), 300))
	}
}

func showVal(v Val) string {
	switch v := v.(type) {
	case IntV:
		return v.L.String()
	case BoolV:
		return v.F.String()
	case FloatV:
		return v.A.String()
	case PtrV:
		s := fmt.Sprintf("&%d", v.Obj)
		for _, p := range v.Path {
			if p.Field >= 0 {
				s += fmt.Sprintf(".%d", p.Field)
			} else {
				s += "[" + p.Idx.String() + "]"
			}
		}
		if v.NilA != nil {
			s += "?"
		}
		return s
	case SliceV:
		if v.Obj == 0 {
			return "nil slice"
		}
		return fmt.Sprintf("slice(%d, off %s, len %s, cap %s)", v.Obj, v.Off, v.Len, v.Cap)
	case StructV:
		var ss []string
		for _, x := range v.F {
			ss = append(ss, showVal(x))
		}
		return "{" + strings.Join(ss, ", ") + "}"
	case TupV:
		var ss []string
		for _, x := range v {
			ss = append(ss, showVal(x))
		}
		return "(" + strings.Join(ss, ", ") + ")"
	case IfaceV:
		return v.T.String() + ":" + showVal(v.V)
	case ErrV:
		return "err:" + v.E.kind + ":" + v.E.name
	case FuncV:
		return "func " + v.Fn.Name()
	case NilV:
		return "nil"
	case nil:
		return "-"
	case StreamV:
		return "stream " + v.ID
	case OpqV:
		return "opaque " + v.A.String()
	case *Arr:
		s := "arr"
		if v.Zero {
			s += " zero"
		}
		s += " " + v.Ver
		for _, e := range v.ents {
			switch e.k {
			case 'p':
				s += fmt.Sprintf(" [%s]=%s", e.lo, showVal(e.v))
			case 's':
				s += fmt.Sprintf(" [%s..%s)<-%s@%s", e.lo, e.hi, showVal(e.src), e.off)
			case 'r':
				s += fmt.Sprintf(" [%s..%s)<-stream@%s", e.lo, e.hi, e.off)
			case 'f':
				s += fmt.Sprintf(" [%s..%s)\\k=%s", e.lo, e.hi, showVal(e.v))
			}
		}
		return s
	}
	return fmt.Sprintf("%T", v)
}
