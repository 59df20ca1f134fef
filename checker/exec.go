package main

// Abstract interpreter over SSA.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type PanicInfo struct {
	kind string // explicit, nil, index, slice, assert, div, make, flat, err
	site string
	fn   string
	msg  string
	val  Val
}

type Out struct {
	st   *State
	rets []Val
	pan  *PanicInfo
}

type deferred struct {
	fn   Val
	args []Val
	site ssa.Instruction
	com  *ssa.CallCommon
}

type frameInfo struct {
	fn    *ssa.Function
	num   map[ssa.Value]int
	loops map[*ssa.BasicBlock]*Loop
	live  map[*ssa.BasicBlock]map[int]bool
}

type Conf struct {
	fi      *frameInfo
	env     []Val
	st      *State
	blk     *ssa.BasicBlock
	prev    *ssa.BasicBlock
	i       int
	defers  []deferred
	depth   int
	inDefer bool // frame is a deferred call (recover is effective)
}

func (c *Conf) fork(st *State) *Conf {
	n := *c
	n.env = append([]Val{}, c.env...)
	n.st = st
	return &n
}

type Loop struct {
	head *ssa.BasicBlock
	body map[*ssa.BasicBlock]bool
}

type sink struct {
	outs  []Out
	edges []edge
}
type edge struct {
	c        *Conf
	from, to *ssa.BasicBlock
}

type Violation struct {
	Tag  string // property clause tag
	Key  string // rule + construct
	Msg  string
	Site string
	Path []string
}

type modelFn func(e *Engine, c *callCtx) []Out

type callCtx struct {
	st      *State
	args    []Val
	fn      *ssa.Function
	com     *ssa.CallCommon
	site    ssa.Instruction
	depth   int
	name    string
	inDefer bool
	sig     *types.Signature
}

type Engine struct {
	recs         []*recTheory
	quo          func(st *State, x, y *Lin) *Lin // quotients known to a theory
	flatAppend   bool                            // append copies the entries of an array
	appendHook   func(st *State, d, s SliceV, elem types.Type, site string)
	exitHook     func(st *State) // at the exits of loops
	unroll       bool            // loops of few rounds are run round by round
	counters     bool            // count the rounds of each loop
	cands        func(*State) []Fact
	ld           *Loaded
	models       map[string]modelFn
	prefixModels []prefixModel
	fis          map[*ssa.Function]*frameInfo
	viols        map[string]*Violation
	order        []string
	steps        int
	maxSteps     int
	ghostFacts   func(*State) []Fact // true by construction of the ghosts
	inPos        string              // stream whose cursor bounds offsets
	callStack    []*ssa.Function
	globals      map[*ssa.Global]int
	initHeap     map[int]*Obj
	globErr      map[string]*Err
	funcs        map[*ssa.Function]int
	instrs       map[ssa.Instruction]bool
	sites        map[string]int // counters per obligation kind
	ev           func(st *State, ev *Event)
	cmpOracle    func(op token.Token, a, b *Atom) (bool, bool)
	ovf          bool
	noLoopInv    bool
	panicsAsViol bool
	api          string
	storeHook    func(st *State, p PtrV, old, v Val, site string)
	loadHook     func(st *State, p PtrV)
	conv         *convSpec
	congr        int64 // joins keep that values are multiples of it
	sync         func(st *State, env []Val)
	recModel     map[string]bool
	flatPanics   bool
	invokeOpq    func(e *Engine, c *callCtx, o OpqV, m string) ([]Out, bool)
	globalWrites map[string]bool
	caps         map[string]map[string]*Atom
	shortFill    bool
	recursive    func(e *Engine, c *callCtx) []Out
	initExtra    map[int]*Obj
	initState    *State
	skipInit     bool
}

type prefixModel struct {
	prefix string
	fn     modelFn
}

type Event struct {
	Kind    string // read write seek close call make
	Stream  string
	Pos     *Lin
	N       *Lin // bytes actually transferred
	Want    *Lin
	Err     Val
	Buf     *SliceV
	Outcome string
	Site    string
	Args    []Val
	Name    string
	Recv    Val
}

func newEngine(ld *Loaded) *Engine {
	e := &Engine{ld: ld, models: map[string]modelFn{}, fis: map[*ssa.Function]*frameInfo{}, viols: map[string]*Violation{}, maxSteps: 8000000,
		globals: map[*ssa.Global]int{}, initHeap: initObjs, globErr: map[string]*Err{}, funcs: map[*ssa.Function]int{}, instrs: map[ssa.Instruction]bool{}, sites: map[string]int{}, recModel: map[string]bool{}, caps: map[string]map[string]*Atom{}}
	installModels(e)
	installStrings(e)
	installFlat(e)
	return e
}

func (e *Engine) violate(tag, key, msg, site string, st *State) {
	k := tag + "|" + key + "|" + site
	if _, ok := e.viols[k]; ok {
		return
	}
	v := &Violation{Tag: tag, Key: key, Msg: msg, Site: site}
	if st != nil {
		v.Path = st.traceLines(60)
	}
	e.viols[k] = v
	e.order = append(e.order, k)
}

// emit reports an event and moves the stream's cursor.
func (e *Engine) emit(st *State, ev *Event) {
	switch ev.Kind {
	case "read", "write":
		pos := e.cursor(st, ev.Stream)
		ev.Pos = pos
		if e.ev != nil {
			e.ev(st, ev)
		}
		if !ev.N.isConstI(0) {
			np := pos.add(ev.N)
			st.ghost["pos:"+ev.Stream] = IntV{np, true}
		}
		return
	case "seek":
		if e.ev != nil {
			e.ev(st, ev)
		}
		np := ev.Pos
		if np == nil {
			np = linA(freshAtom("lostpos", big0, posHi))
		}
		st.ghost["pos:"+ev.Stream] = IntV{np, true}
		return
	}
	if e.ev != nil {
		e.ev(st, ev)
	}
}

func (e *Engine) pos(i ssa.Instruction) string {
	p := token.NoPos
	if i != nil {
		p = i.Pos()
		if !p.IsValid() {
			if v, ok := i.(*ssa.If); ok {
				p = v.Cond.Pos()
			}
		}
	}
	return e.ld.position(p, i)
}

func (e *Engine) info(fn *ssa.Function) *frameInfo {
	if fi, ok := e.fis[fn]; ok {
		return fi
	}
	fi := &frameInfo{fn: fn, num: map[ssa.Value]int{}, loops: map[*ssa.BasicBlock]*Loop{}}
	add := func(v ssa.Value) { fi.num[v] = len(fi.num) }
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := fi.loops[s]
				if l == nil {
					l = &Loop{head: s, body: map[*ssa.BasicBlock]bool{s: true}}
					fi.loops[s] = l
				}
				var stack []*ssa.BasicBlock
				if !l.body[b] {
					l.body[b] = true
					stack = append(stack, b)
				}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					for _, p := range x.Preds {
						if !l.body[p] {
							l.body[p] = true
							stack = append(stack, p)
						}
					}
				}
			}
		}
	}
	e.fis[fn] = fi
	return fi
}

// val evaluates an SSA operand.
func (e *Engine) val(c *Conf, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return e.constVal(v)
	case *ssa.Global:
		return e.globalPtr(c.st, v)
	case *ssa.Function:
		return FuncV{Fn: v}
	case *ssa.Builtin:
		return OpqV{T: v.Type(), A: mkAtom("builtin", v.Name(), nil, nil)}
	}
	i, ok := c.fi.num[v]
	if !ok {
		panic(undecided("unknown operand " + v.Name()))
	}
	x := c.env[i]
	if x == nil {
		panic(undecided(fmt.Sprintf("operand %s not evaluated in %s", v.Name(), c.fi.fn)))
	}
	return x
}

func (e *Engine) constVal(c *ssa.Const) Val {
	if c.Value == nil {
		return zeroVal(c.Type())
	}
	T := c.Type()
	if _, ok := intTypeOf(T); ok {
		if b, ok := constant.Val(constant.ToInt(c.Value)).(*big.Int); ok {
			return IntV{linB(b), false}
		}
		i, _ := constant.Int64Val(constant.ToInt(c.Value))
		return IntV{linC(i), false}
	}
	switch {
	case isBool(T):
		return BoolV{bform(constant.BoolVal(c.Value))}
	case isFloat(T):
		return FloatV{fconst(constant.ToFloat(c.Value), floatBits(T))}
	case isString(T):
		s := constant.StringVal(c.Value)
		return StrV{Known: true, S: s, Len: linC(int64(len(s)))}
	}
	if b, ok := T.Underlying().(*types.Basic); ok && b.Kind() == types.UntypedNil {
		return NilV{}
	}
	panic(undecided("constant of type " + T.String()))
}

// globalPtr returns a pointer to a package-level variable.
func (e *Engine) globalPtr(st *State, g *ssa.Global) Val {
	id, ok := e.globals[g]
	if !ok {
		T := g.Type().(*types.Pointer).Elem()
		objN++
		id = objN
		e.globals[g] = id
		var v Val
		if isErrorType(T) {
			v = ErrV{e.globalErr(g.String())}
		} else {
			v = symVal(T, "global:"+g.String(), nil)
		}
		if g.Name() == "init$guard" {
			v = BoolV{Form{k: 'F'}}
		} else if e.skipInit && isRepoGlobal(g) {
			v = zeroVal(T)
		}
		e.initHeap[id] = &Obj{id: id, T: T, val: v, tag: "global", site: g.String()}
	}
	if _, ok := st.heap[id]; !ok {
		st.heap[id] = e.initHeap[id]
	}
	return PtrV{Obj: id}
}

var errN int

func newErr(kind, name, site string) *Err {
	errN++
	return &Err{id: errN, kind: kind, name: name, site: site}
}
func (e *Engine) globalErr(name string) *Err {
	if x, ok := e.globErr[name]; ok {
		return x
	}
	x := newErr("global", name, name)
	x.exact = true
	x.notEOF = name != "io.EOF"
	e.globErr[name] = x
	return x
}

// ---- conditions ----

func (st *State) formVal(f Form) (v, known bool) {
	switch f.k {
	case 'T':
		return true, true
	case 'F':
		return false, true
	case 'a', 'n':
		b, ok := st.facts.boolVal(f.a)
		if f.k == 'n' {
			b = !b
		}
		return b, ok
	case '<':
		if st.facts.entailsLE(f.l) {
			return true, true
		}
		if st.facts.entailsLE(f.l.neg().addC(1)) {
			return false, true
		}
	case '=', '!':
		if st.facts.entailsNE(f.l) {
			return f.k == '!', true
		}
		if st.facts.entailsEQ(f.l) {
			return f.k == '=', true
		}
	}
	return false, false
}

// assume adds f to the state's facts; the caller has checked it is not false.
func (st *State) assume(f Form) {
	switch f.k {
	case '<':
		k := fLE
		if st.facts.entailsLE(f.l.neg()) {
			k = fEQ
		}
		st.facts = append(st.facts[:len(st.facts):len(st.facts)], Fact{k: k, l: normLE(f.l)})
	case '=':
		st.facts = append(st.facts[:len(st.facts):len(st.facts)], Fact{k: fEQ, l: f.l})
	case '!':
		st.facts = append(st.facts[:len(st.facts):len(st.facts)], Fact{k: fNE, l: f.l})
	case 'a':
		st.facts = append(st.facts[:len(st.facts):len(st.facts)], Fact{k: fBool, a: f.a, v: true})
	case 'n':
		st.facts = append(st.facts[:len(st.facts):len(st.facts)], Fact{k: fBool, a: f.a, v: false})
	}
}

// split returns the states in which f is true and false (nil if infeasible).
func (e *Engine) split(st *State, f Form) (t, n *State) {
	if v, known := st.formVal(f); known {
		if f.k == '<' && !f.l.isConst() && len(st.guards) < 40 {
			g := Fact{k: fLE, l: normLE(f.l)}
			if !v {
				g.l = normLE(f.l.neg().addC(1))
			}
			st.guards = append(st.guards[:len(st.guards):len(st.guards)], g)
		}
		if len(e.recs) > 0 && f.k == '<' && !f.l.isConst() {
			// the theories reason from stated facts only
			recBusy = true
			_, raw := st.formVal(f)
			recBusy = false
			if !raw && v {
				st.assume(f)
			} else if !raw {
				st.assume(f.not())
			}
		}
		if v {
			return st, nil
		}
		return nil, st
	}
	t, n = st, st.clone()
	t.assume(f)
	n.assume(f.not())
	return
}

// ---- function execution ----

const maxDepth = 40

func (e *Engine) execFunc(fn *ssa.Function, args, binds []Val, st *State, depth int, inDefer bool) []Out {
	if len(fn.Blocks) == 0 {
		panic(undecided("call of function without body " + fn.String()))
	}
	if depth > maxDepth {
		panic(undecided("call depth exceeded at " + fn.String()))
	}
	e.funcs[fn]++
	fi := e.info(fn)
	c := &Conf{fi: fi, env: make([]Val, len(fi.num)), st: st, depth: depth, inDefer: inDefer}
	for i, p := range fn.Params {
		if i < len(args) {
			c.env[fi.num[p]] = args[i]
		}
	}
	for i, p := range fn.FreeVars {
		c.env[fi.num[p]] = binds[i]
	}
	e.callStack = append(e.callStack, fn)
	defer func() { e.callStack = e.callStack[:len(e.callStack)-1] }()
	c.blk = fn.Blocks[0]
	outs, exits, _ := e.region([]*Conf{c}, nil)
	if len(exits) > 0 {
		panic(undecided("internal: exits outside function"))
	}
	return dedupOuts(outs)
}

// dedupOuts drops outcomes identical to another one.
func dedupOuts(outs []Out) []Out {
	return outs
}

// region runs configurations until they leave the loop (or function).
func (e *Engine) region(start []*Conf, loop *Loop) (outs []Out, exits []edge, backs []edge) {
	work := start
	var route func(ed edge)
	route = func(ed edge) {
		if loop != nil {
			if ed.to == loop.head {
				backs = append(backs, ed)
				return
			}
			if !loop.body[ed.to] {
				exits = append(exits, ed)
				return
			}
		}
		e.enter(ed)
		if l := ed.c.fi.loops[ed.to]; l != nil {
			o, ex := e.runLoop(ed.c, l)
			outs = append(outs, o...)
			for _, x := range ex {
				route(x)
			}
			return
		}
		work = append(work, ed.c)
	}
	for len(work) > 0 {
		c := work[len(work)-1]
		work = work[:len(work)-1]
		var s sink
		e.exec(c, &s)
		outs = append(outs, s.outs...)
		for _, ed := range s.edges {
			route(ed)
		}
	}
	return
}

// enter evaluates the phis of the target block.
func (e *Engine) enter(ed edge) {
	c := ed.c
	pi := -1
	for i, p := range ed.to.Preds {
		if p == ed.from {
			pi = i
			break
		}
	}
	var vals []Val
	n := 0
	for _, in := range ed.to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals = append(vals, e.val(c, phi.Edges[pi]))
		n++
	}
	for i := 0; i < n; i++ {
		c.env[c.fi.num[ed.to.Instrs[i].(*ssa.Phi)]] = vals[i]
	}
	c.prev, c.blk, c.i = ed.from, ed.to, n
}

var debugTrace = os.Getenv("FGB_TRACE") != ""

func (e *Engine) exec(c *Conf, s *sink) {
	for c.i < len(c.blk.Instrs) {
		e.steps++
		if e.steps > e.maxSteps {
			panic(undecided("analysis budget exceeded in " + c.fi.fn.String()))
		}
		in := c.blk.Instrs[c.i]
		c.i++
		e.instrs[in] = true
		if debugTrace {
			fmt.Fprintf(os.Stderr, "%s%s: %s\n", strings.Repeat(" ", c.depth), c.fi.fn.Name(), in)
		}
		switch in := in.(type) {
		case *ssa.If:
			f := e.val(c, in.Cond).(BoolV).F
			t, n := e.split(c.st, f)
			if t != nil {
				tc := c
				if n != nil {
					tc = c.fork(t)
				} else {
					c.st = t
				}
				if n != nil {
					tc.st.note("%s: condition true: %s", e.pos(in), trunc(f.String(), 100))
				}
				s.edges = append(s.edges, edge{tc, c.blk, c.blk.Succs[0]})
			}
			if n != nil {
				c.st = n
				if t != nil {
					n.note("%s: condition false: %s", e.pos(in), trunc(f.String(), 100))
				}
				s.edges = append(s.edges, edge{c, c.blk, c.blk.Succs[1]})
			}
			return
		case *ssa.Jump:
			s.edges = append(s.edges, edge{c, c.blk, c.blk.Succs[0]})
			return
		case *ssa.Return:
			var r []Val
			for _, x := range in.Results {
				r = append(r, e.val(c, x))
			}
			s.outs = append(s.outs, Out{st: c.st, rets: r})
			return
		case *ssa.Panic:
			v := e.val(c, in.X)
			e.doPanic(c, s, &PanicInfo{kind: "explicit", site: e.pos(in), fn: c.fi.fn.String(), msg: "panic(" + describe(v) + ")", val: v})
			return
		case *ssa.RunDefers:
			ds := c.defers
			c.defers = nil
			outs := e.runDefers(c.st, ds, c.depth)
			for i, o := range outs {
				if o.pan != nil {
					e.doPanic(c.fork(o.st), s, o.pan)
					continue
				}
				cc := c
				if i < len(outs)-1 {
					cc = c.fork(o.st)
				}
				cc.st = o.st
				e.exec(cc, s)
			}
			return
		case *ssa.Defer:
			d := deferred{site: in, com: in.Common()}
			if in.Call.IsInvoke() {
				panic(undecided("defer of interface method"))
			}
			d.fn = e.val(c, in.Call.Value)
			for _, a := range in.Call.Args {
				d.args = append(d.args, e.val(c, a))
			}
			c.defers = append(c.defers[:len(c.defers):len(c.defers)], d)
		case *ssa.Store:
			p := e.val(c, in.Addr)
			v := e.val(c, in.Val)
			if !e.store(c, s, p, v, in) {
				return
			}
		case *ssa.DebugRef:
		case *ssa.MapUpdate:
			m := e.val(c, in.Map)
			k, v := e.val(c, in.Key), e.val(c, in.Value)
			if _, ok := m.(NilV); ok {
				e.doPanic(c, s, &PanicInfo{kind: "nil", site: e.pos(in), fn: c.fi.fn.String(), msg: "assignment to an entry of a nil map"})
				return
			}
			e.mapUpdate(c, m, k, v, in)
		case *ssa.Go, *ssa.Send:
			panic(undecided("concurrency construct at " + e.pos(in)))
		case ssa.Value:
			if call, ok := in.(*ssa.Call); ok {
				outs := e.callInstr(c, call)
				if len(outs) == 1 && outs[0].pan == nil {
					c.st = outs[0].st
					c.env[c.fi.num[call]] = packRets(outs[0].rets, call.Type())
					continue
				}
				for i, o := range outs {
					cc := c
					if i < len(outs)-1 {
						cc = c.fork(o.st)
					}
					cc.st = o.st
					if o.pan != nil {
						e.doPanic(cc, s, o.pan)
						continue
					}
					cc.env[cc.fi.num[call]] = packRets(o.rets, call.Type())
					e.exec(cc, s)
				}
				return
			}
			alts := e.instr(c, in.(ssa.Instruction), in)
			if len(alts) == 1 && alts[0].pan == nil {
				c.st = alts[0].st
				c.env[c.fi.num[in]] = alts[0].rets[0]
				continue
			}
			for i, o := range alts {
				cc := c
				if i < len(alts)-1 {
					cc = c.fork(o.st)
				}
				cc.st = o.st
				if o.pan != nil {
					e.doPanic(cc, s, o.pan)
					continue
				}
				cc.env[cc.fi.num[in]] = o.rets[0]
				e.exec(cc, s)
			}
			return
		default:
			panic(undecided(fmt.Sprintf("instruction %T", in)))
		}
	}
	panic(undecided("fell off block"))
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func packRets(r []Val, T types.Type) Val {
	if tt, ok := T.(*types.Tuple); ok {
		if tt.Len() == 1 {
			return r[0]
		}
		return TupV(r)
	}
	if len(r) == 0 {
		return TupV{}
	}
	return r[0]
}

func describe(v Val) string {
	switch v := v.(type) {
	case IfaceV:
		return describe(v.V)
	case StrV:
		if v.Known {
			return fmt.Sprintf("%q", v.S)
		}
		return "string"
	case ErrV:
		return "error " + v.E.kind + " " + v.E.name
	case IntV:
		return v.L.String()
	case NilV:
		return "nil"
	}
	return fmt.Sprintf("%T", v)
}

// doPanic unwinds the current frame.
func (e *Engine) doPanic(c *Conf, s *sink, p *PanicInfo) {
	ds := c.defers
	c.defers = nil
	if len(ds) == 0 {
		s.outs = append(s.outs, Out{st: c.st, pan: p})
		return
	}
	c.st.note("%s: panic: %s", p.site, p.msg)
	c.st.ghost["__panic"] = OpqV{A: mkAtom("panic", p.kind+p.site, nil, nil)}
	e.curPanicPush(p)
	outs := e.runDefers(c.st, ds, c.depth)
	e.curPanicPop()
	for _, o := range outs {
		if o.pan != nil {
			s.outs = append(s.outs, o)
			continue
		}
		if _, still := o.st.ghost["__panic"]; still {
			delete(o.st.ghost, "__panic")
			s.outs = append(s.outs, Out{st: o.st, pan: p})
			continue
		}
		cc := c.fork(o.st)
		if c.fi.fn.Recover == nil {
			var r []Val
			res := c.fi.fn.Signature.Results()
			for i := 0; i < res.Len(); i++ {
				r = append(r, zeroVal(res.At(i).Type()))
			}
			s.outs = append(s.outs, Out{st: o.st, rets: r})
			continue
		}
		cc.blk, cc.i, cc.prev = c.fi.fn.Recover, 0, nil
		e.exec(cc, s)
	}
}

var panicStack []*PanicInfo

func (e *Engine) curPanicPush(p *PanicInfo) { panicStack = append(panicStack, p) }
func (e *Engine) curPanicPop()              { panicStack = panicStack[:len(panicStack)-1] }

func (e *Engine) runDefers(st *State, ds []deferred, depth int) []Out {
	outs := []Out{{st: st}}
	for i := len(ds) - 1; i >= 0; i-- {
		var next []Out
		for _, o := range outs {
			if o.pan != nil {
				next = append(next, o)
				continue
			}
			next = append(next, e.callValue(o.st, ds[i].fn, ds[i].args, ds[i].com, ds[i].site, depth, true)...)
		}
		outs = next
	}
	return outs
}

// ---- memory ----

// deref resolves a pointer, forking off the nil case. ok=false: no non-nil
// continuation exists.
func (e *Engine) checkPtr(c *Conf, s *sink, p Val, in ssa.Instruction) (PtrV, bool) {
	switch v := p.(type) {
	case PtrV:
		if v.NilA != nil {
			t, n := e.split(c.st, Form{k: 'a', a: v.NilA})
			if t != nil {
				cc := c
				if n != nil {
					cc = c.fork(t)
				}
				cc.st = t
				e.doPanic(cc, s, &PanicInfo{kind: "nil", site: e.pos(in), fn: c.fi.fn.String(), msg: "nil pointer dereference"})
				if n == nil {
					return PtrV{}, false
				}
			}
			c.st = n
			v.NilA = nil
		}
		return v, true
	case NilV:
		e.doPanic(c, s, &PanicInfo{kind: "nil", site: e.pos(in), fn: c.fi.fn.String(), msg: "nil pointer dereference"})
		return PtrV{}, false
	}
	panic(undecided(fmt.Sprintf("dereference of %T at %s", p, e.pos(in))))
}

func (e *Engine) store(c *Conf, s *sink, p Val, v Val, in ssa.Instruction) bool {
	q, ok := e.checkPtr(c, s, p, in)
	if !ok {
		return false
	}
	if q.Conv {
		panic(undecided("store through converted pointer at " + e.pos(in)))
	}
	e.storeTo(c.st, q, v, e.pos(in))
	return true
}

func (e *Engine) storeTo(st *State, q PtrV, v Val, site string) {
	if e.conv != nil && e.conv.store(st, q, v, site) {
		return
	}
	o := st.obj(q.Obj)
	nv := st.storePath(o.val, q.Path, v)
	if e.storeHook != nil {
		e.storeHook(st, q, o.val, v, site)
	}
	st.setObj(q.Obj, nv)
}

func (e *Engine) loadFrom(st *State, q PtrV) Val {
	if e.conv != nil {
		if v, ok := e.conv.load(st, q); ok {
			return v
		}
	}
	if e.loadHook != nil {
		e.loadHook(st, q)
	}
	return st.loadPath(st.obj(q.Obj).val, q.Path)
}

// ---- instructions ----

func one(st *State, v Val) []Out { return []Out{{st: st, rets: []Val{v}}} }

func (e *Engine) nilPanic(st *State, in ssa.Instruction, fn *ssa.Function) Out {
	return Out{st: st, pan: &PanicInfo{kind: "nil", site: e.pos(in), fn: fn.String(), msg: "nil pointer dereference"}}
}

// withPtr handles possibly nil pointers for value instructions.
func (e *Engine) withPtr(c *Conf, p Val, in ssa.Instruction, f func(st *State, q PtrV) []Out) []Out {
	switch v := p.(type) {
	case PtrV:
		if v.NilA != nil {
			t, n := e.split(c.st, Form{k: 'a', a: v.NilA})
			var r []Out
			if t != nil {
				r = append(r, e.nilPanic(t, in, c.fi.fn))
			}
			if n != nil {
				v.NilA = nil
				r = append(r, f(n, v)...)
			}
			return r
		}
		return f(c.st, v)
	case NilV:
		return []Out{e.nilPanic(c.st, in, c.fi.fn)}
	}
	panic(undecided(fmt.Sprintf("pointer operand is %T at %s", p, e.pos(in))))
}

func (e *Engine) boundsPanic(st *State, in ssa.Instruction, fn *ssa.Function, kind, msg string) Out {
	return Out{st: st, pan: &PanicInfo{kind: kind, site: e.pos(in), fn: fn.String(), msg: msg}}
}

// require forks on f; the false branch panics.
func (e *Engine) require(c *Conf, f Form, in ssa.Instruction, kind, msg string, ok func(st *State) []Out) []Out {
	e.sites[kind+" check"]++
	t, n := e.split(c.st, f)
	var r []Out
	if n != nil {
		r = append(r, e.boundsPanic(n, in, c.fi.fn, kind, msg))
	}
	if t != nil {
		r = append(r, ok(t)...)
	}
	return r
}

func (e *Engine) instr(c *Conf, in ssa.Instruction, v ssa.Value) []Out {
	switch in := in.(type) {
	case *ssa.Alloc:
		T := in.Type().(*types.Pointer).Elem()
		id := c.st.alloc(T, zeroVal(T), "alloc", e.pos(in))
		return one(c.st, PtrV{Obj: id})
	case *ssa.FieldAddr:
		return e.withPtr(c, e.val(c, in.X), in, func(st *State, q PtrV) []Out {
			return one(st, PtrV{Obj: q.Obj, Path: appendSel(q.Path, Sel{Field: in.Field})})
		})
	case *ssa.Field:
		x := e.val(c, in.X)
		sv, ok := x.(StructV)
		if !ok {
			panic(undecided(fmt.Sprintf("field of %T", x)))
		}
		return one(c.st, sv.F[in.Field])
	case *ssa.IndexAddr:
		idx := e.val(c, in.Index).(IntV)
		x := e.val(c, in.X)
		switch xv := x.(type) {
		case SliceV:
			if xv.View > 1 {
				panic(undecided("element of unsafe byte view at " + e.pos(in)))
			}
			return e.inBounds(c, idx.L, xv.Len, in, func(st *State) []Out {
				return one(st, PtrV{Obj: xv.Obj, Path: appendSel(xv.Path, Sel{Field: -1, Idx: xv.Off.add(idx.L)})})
			})
		case PtrV, NilV:
			n := linC(in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
			return e.withPtr(c, x, in, func(st *State, q PtrV) []Out {
				c.st = st
				return e.inBounds(c, idx.L, n, in, func(st *State) []Out {
					return one(st, PtrV{Obj: q.Obj, Path: appendSel(q.Path, Sel{Field: -1, Idx: idx.L})})
				})
			})
		}
		panic(undecided(fmt.Sprintf("IndexAddr of %T", x)))
	case *ssa.Index:
		idx := e.val(c, in.Index).(IntV)
		x := e.val(c, in.X)
		switch xv := x.(type) {
		case *Arr:
			return e.inBounds(c, idx.L, xv.N, in, func(st *State) []Out {
				return one(st, st.arrLoad(xv, idx.L))
			})
		case StrV:
			return e.inBounds(c, idx.L, xv.Len, in, func(st *State) []Out {
				if xv.Known && idx.L.isConst() {
					return one(st, IntV{linC(int64(xv.S[idx.L.c.Int64()])), true})
				}
				return one(st, e.strByte(st, xv, idx.L))
			})
		}
		panic(undecided(fmt.Sprintf("Index of %T", x)))
	case *ssa.Lookup:
		x := e.val(c, in.X)
		if xv, ok := x.(StrV); ok {
			idx := e.val(c, in.Index).(IntV)
			return e.inBounds(c, idx.L, xv.Len, in, func(st *State) []Out {
				if xv.Known && idx.L.isConst() {
					return one(st, IntV{linC(int64(xv.S[idx.L.c.Int64()])), true})
				}
				return one(st, e.strByte(st, xv, idx.L))
			})
		}
		return e.mapLookup(c, x, e.val(c, in.Index), in)
	case *ssa.UnOp:
		return e.unop(c, in)
	case *ssa.BinOp:
		return e.binop(c, in, in.Op, e.val(c, in.X), e.val(c, in.Y), in.X.Type(), in.Type())
	case *ssa.Convert:
		return one(c.st, e.convert(c.st, e.val(c, in.X), in.X.Type(), in.Type(), in))
	case *ssa.ChangeType:
		return one(c.st, e.val(c, in.X))
	case *ssa.MultiConvert:
		return one(c.st, e.convert(c.st, e.val(c, in.X), in.X.Type(), in.Type(), in))
	case *ssa.ChangeInterface:
		return one(c.st, e.val(c, in.X))
	case *ssa.MakeInterface:
		x := e.val(c, in.X)
		if ev, ok := x.(ErrV); ok {
			return one(c.st, ev)
		}
		return one(c.st, IfaceV{in.X.Type(), x})
	case *ssa.TypeAssert:
		return e.typeAssert(c, in)
	case *ssa.Extract:
		t, ok := e.val(c, in.Tuple).(TupV)
		if !ok {
			panic(undecided("extract of non-tuple"))
		}
		return one(c.st, t[in.Index])
	case *ssa.MakeClosure:
		f := FuncV{Fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			f.B = append(f.B, e.val(c, b))
		}
		return one(c.st, f)
	case *ssa.Slice:
		return e.slice(c, in)
	case *ssa.MakeSlice:
		elem := in.Type().Underlying().(*types.Slice).Elem()
		n := e.val(c, in.Len).(IntV).L
		cp := e.val(c, in.Cap).(IntV).L
		return e.require(c, leForm(n.neg()), in, "make", "make: negative length "+n.String(), func(st *State) []Out {
			c.st = st
			return e.require(c, leForm(n.sub(cp)), in, "make", "make: length exceeds capacity", func(st *State) []Out {
				id := st.alloc(unboundedArr(elem), &Arr{Elem: elem, N: cp, Zero: true}, "make", e.pos(in))
				e.emit(st, &Event{Kind: "make", N: cp, Site: e.pos(in), Name: elem.String(), Args: []Val{IntV{linC(int64(id)), false}}})
				return one(st, SliceV{Obj: id, Off: linZero, Len: n, Cap: cp})
			})
		})
	case *ssa.MakeMap:
		id := c.st.alloc(in.Type(), &MapV{T: in.Type().Underlying().(*types.Map)}, "map", e.pos(in))
		return one(c.st, PtrV{Obj: id})
	case *ssa.MakeChan, *ssa.Select:
		panic(undecided("concurrency construct at " + e.pos(in)))
	case *ssa.Range:
		return one(c.st, OpqV{T: in.Type(), A: freshAtom("range", nil, nil)})
	case *ssa.Next:
		tt := in.Type().(*types.Tuple)
		var tv TupV
		for i := 0; i < tt.Len(); i++ {
			T := tt.At(i).Type()
			if b, ok := T.(*types.Basic); ok && b.Kind() == types.Invalid {
				tv = append(tv, NilV{})
				continue
			}
			tv = append(tv, freshVal(T, "next"))
		}
		return one(c.st, tv)
	case *ssa.SliceToArrayPointer:
		sv := e.val(c, in.X).(SliceV)
		n := in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		return e.require(c, leForm(linC(n).sub(sv.Len)), in, "slice", "slice too short for array conversion", func(st *State) []Out {
			if !sv.Off.isConstI(0) {
				panic(undecided("array pointer into slice"))
			}
			return one(st, PtrV{Obj: sv.Obj, Path: sv.Path})
		})
	}
	panic(undecided(fmt.Sprintf("instruction %T at %s", in, e.pos(in))))
}

func (e *Engine) strByte(st *State, s StrV, idx *Lin) Val {
	if s.Src != nil {
		return st.loadPath(st.obj(s.Src.Obj).val, appendSel(s.Src.Path, Sel{Field: -1, Idx: s.Src.Off.add(idx)}))
	}
	a := mkAtom("strbyte", "", big0, big.NewInt(255), linA(s.A), idx)
	a.bits = 8
	return IntV{linA(a), true}
}

func (e *Engine) inBounds(c *Conf, idx, n *Lin, in ssa.Instruction, ok func(st *State) []Out) []Out {
	return e.require(c, leForm(idx.neg()), in, "index", fmt.Sprintf("index %s may be negative", trunc(idx.String(), 80)), func(st *State) []Out {
		c2 := *c
		c2.st = st
		return e.require(&c2, leForm(idx.sub(n).addC(1)), in, "index", fmt.Sprintf("index %s may exceed length %s", trunc(idx.String(), 80), trunc(n.String(), 80)), ok)
	})
}

func (e *Engine) unop(c *Conf, in *ssa.UnOp) []Out {
	x := e.val(c, in.X)
	switch in.Op {
	case token.MUL:
		return e.withPtr(c, x, in, func(st *State, q PtrV) []Out {
			if q.Conv {
				panic(undecided("load through converted pointer at " + e.pos(in)))
			}
			return one(st, e.loadFrom(st, q))
		})
	case token.NOT:
		return one(c.st, BoolV{x.(BoolV).F.not()})
	case token.SUB:
		if iv, ok := x.(IntV); ok {
			it, _ := intTypeOf(in.Type())
			return one(c.st, IntV{e.fit(c.st, iv.L.neg(), it, in), true})
		}
		if fv, ok := x.(FloatV); ok {
			return one(c.st, FloatV{mkFloat("neg", fv.A)})
		}
	case token.XOR:
		it, _ := intTypeOf(in.Type())
		iv := x.(IntV)
		if it.signed {
			return one(c.st, IntV{iv.L.neg().addC(-1), true})
		}
		_, hi := it.rng()
		return one(c.st, IntV{linB(hi).sub(iv.L), true})
	}
	panic(undecided("unary operator " + in.Op.String()))
}

func mkFloat(op string, as ...*Atom) *Atom {
	var args []*Lin
	for _, a := range as {
		args = append(args, linA(a))
	}
	return mkAtom("f"+op, "", nil, nil, args...)
}

// fit reduces a mathematical integer to a machine type.
func (e *Engine) fit(st *State, l *Lin, it intType, in ssa.Instruction) *Lin {
	if it.signed && it.bits == 64 {
		// No 64-bit signed overflow is assumed, except where the overflow
		// obligation is switched on.
		if e.ovf && !l.isConst() {
			lo, hi := it.rng()
			e.sites["overflow obligation"]++
			fs := st.facts
			if !fs.entailsLE(l.sub(linB(hi))) || !fs.entailsLE(linB(lo).sub(l)) {
				if e.ghostFacts != nil {
					fs = append(fs[:len(fs):len(fs)], e.ghostFacts(st)...)
				}
				if e.ghostFacts == nil || !fs.entailsLE(l.sub(linB(hi))) || !fs.entailsLE(linB(lo).sub(l)) {
					if debugRd {
						fmt.Println("OVF", e.pos(in), l)
						dumpState(st)
					}
					e.violate("overflow", "overflow|"+short(in.Parent()), "integer operation may overflow: "+trunc(l.String(), 120), e.pos(in), st)
				}
			}
		}
		return l
	}
	return e.toRange(st, l, it)
}

// toRange converts the mathematical integer l to type it (modulo 2^bits).
func (e *Engine) toRange(st *State, l *Lin, it intType) *Lin {
	lo, hi := it.rng()
	if l.isConst() {
		m := new(big.Int).Mod(l.c, pow2(it.bits))
		if it.signed && m.Cmp(hi) > 0 {
			m.Sub(m, pow2(it.bits))
		}
		return linB(m)
	}
	rlo, rhi := rangeOf(l)
	if rlo != nil && rhi != nil && rlo.Cmp(lo) >= 0 && rhi.Cmp(hi) <= 0 {
		return l
	}
	if st.facts.entailsLE(l.sub(linB(hi))) && st.facts.entailsLE(linB(lo).sub(l)) {
		return l
	}
	if e.inPos != "" && it.signed && it.bits == 64 {
		// a cursor position is a non-negative int64
		if c, ok := st.ghost["pos:"+e.inPos].(IntV); ok && st.facts.entailsLE(l.sub(c.L)) && st.facts.entailsLE(linB(lo).sub(l)) {
			return l
		}
	}
	if ch := bitsOf(l, it.bits); ch != nil {
		return fromBits(ch, it)
	}
	a := mkAtom("wrap", it.String(), lo, hi, l)
	a.bits = it.bits
	return linA(a)
}

func isUnsignedLin(st *State, l *Lin) bool {
	lo, _ := rangeOf(l)
	return (lo != nil && lo.Sign() >= 0) || st.facts.entailsLE(l.neg())
}

func (e *Engine) binop(c *Conf, in ssa.Instruction, op token.Token, x, y Val, XT, RT types.Type) []Out {
	st := c.st
	switch xv := x.(type) {
	case IntV:
		yv, ok := y.(IntV)
		if !ok {
			break
		}
		switch op {
		case token.EQL:
			return one(st, BoolV{eqForm(xv.L.sub(yv.L))})
		case token.NEQ:
			return one(st, BoolV{eqForm(xv.L.sub(yv.L)).not()})
		case token.LSS:
			return one(st, BoolV{leForm(xv.L.sub(yv.L).addC(1))})
		case token.LEQ:
			return one(st, BoolV{leForm(xv.L.sub(yv.L))})
		case token.GTR:
			return one(st, BoolV{leForm(yv.L.sub(xv.L).addC(1))})
		case token.GEQ:
			return one(st, BoolV{leForm(yv.L.sub(xv.L))})
		}
		it, _ := intTypeOf(RT)
		res := func(l *Lin) []Out { return one(st, IntV{l, true}) }
		switch op {
		case token.ADD:
			return res(e.fit(st, xv.L.add(yv.L), it, in))
		case token.SUB:
			return res(e.fit(st, xv.L.sub(yv.L), it, in))
		case token.MUL:
			return res(e.fit(st, e.mul(xv.L, yv.L), it, in))
		case token.QUO, token.REM:
			return e.require(c, eqForm(yv.L).not(), in, "div", "division by zero", func(st *State) []Out {
				q, r := e.quoRem(st, xv.L, yv.L)
				if op == token.QUO {
					return one(st, IntV{e.fit(st, q, it, in), true})
				}
				return one(st, IntV{e.fit(st, r, it, in), true})
			})
		case token.SHL, token.SHR:
			if !yv.L.isConst() {
				lo, hi := it.rng()
				a := mkAtom("sh"+op.String(), it.String(), lo, hi, xv.L, yv.L)
				a.bits = it.bits
				return res(linA(a))
			}
			s := int(yv.L.c.Int64())
			return res(e.shiftLin(st, xv.L, s, op == token.SHL, it, in))
		case token.AND, token.OR, token.XOR, token.AND_NOT:
			return res(e.bitwise(st, op, xv.L, yv.L, it))
		}
	case FloatV:
		yv, ok := y.(FloatV)
		if !ok {
			break
		}
		switch op {
		case token.ADD, token.SUB, token.MUL, token.QUO:
			return one(st, FloatV{e.floatOp(op, xv.A, yv.A)})
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			return one(st, BoolV{e.floatCmp(op, xv.A, yv.A)})
		}
	case StrV:
		yv, ok := y.(StrV)
		if !ok {
			break
		}
		switch op {
		case token.ADD:
			if xv.Known && yv.Known {
				return one(st, StrV{Known: true, S: xv.S + yv.S, Len: linC(int64(len(xv.S) + len(yv.S)))})
			}
			return one(st, StrV{A: freshAtom("str", nil, nil), Len: xv.Len.add(yv.Len)})
		}
		var f Form
		if xv.Known && yv.Known {
			switch op {
			case token.EQL:
				f = bform(xv.S == yv.S)
			case token.NEQ:
				f = bform(xv.S != yv.S)
			case token.LSS:
				f = bform(xv.S < yv.S)
			case token.LEQ:
				f = bform(xv.S <= yv.S)
			case token.GTR:
				f = bform(xv.S > yv.S)
			default:
				f = bform(xv.S >= yv.S)
			}
			return one(st, BoolV{f})
		}
		if (op == token.EQL || op == token.NEQ) && (xv.Known && xv.S == "" || yv.Known && yv.S == "") {
			o := xv
			if xv.Known && xv.S == "" {
				o = yv
			}
			f = eqForm(o.Len)
			if op == token.NEQ {
				f = f.not()
			}
			return one(st, BoolV{f})
		}
		return one(st, BoolV{Form{k: 'a', a: freshAtom("strcmp", nil, nil)}})
	case BoolV:
		yv := y.(BoolV)
		neg := op == token.NEQ
		switch {
		case yv.F.k == 'T':
			return one(st, BoolV{condNot(xv.F, neg)})
		case yv.F.k == 'F':
			return one(st, BoolV{condNot(xv.F.not(), neg)})
		case xv.F.k == 'T':
			return one(st, BoolV{condNot(yv.F, neg)})
		case xv.F.k == 'F':
			return one(st, BoolV{condNot(yv.F.not(), neg)})
		}
		return one(st, BoolV{Form{k: 'a', a: freshAtom("boolcmp", nil, nil)}})
	}
	if op == token.EQL || op == token.NEQ {
		f := e.eqVal(st, x, y)
		if op == token.NEQ {
			f = f.not()
		}
		return one(st, BoolV{f})
	}
	panic(undecided(fmt.Sprintf("operator %s on %T, %T at %s", op, x, y, e.pos(in))))
}

func condNot(f Form, neg bool) Form {
	if neg {
		return f.not()
	}
	return f
}

func (e *Engine) floatOp(op token.Token, a, b *Atom) *Atom {
	if a.kind == "fconst" && b.kind == "fconst" {
		x, y := constant.MakeFromLiteral(a.aux, token.FLOAT, 0), constant.MakeFromLiteral(b.aux, token.FLOAT, 0)
		if x.Kind() != constant.Unknown && y.Kind() != constant.Unknown && op != token.QUO {
			return fconst(constant.BinaryOp(x, op, y), 64)
		}
	}
	return mkFloat(op.String(), a, b)
}

func (e *Engine) floatCmp(op token.Token, a, b *Atom) Form {
	if e.cmpOracle != nil {
		if v, ok := e.cmpOracle(op, a, b); ok {
			return bform(v)
		}
	}
	neg := false
	switch op {
	case token.GTR:
		op, a, b = token.LSS, b, a
	case token.GEQ:
		op, a, b = token.LEQ, b, a
	case token.NEQ:
		op, neg = token.EQL, true
	}
	if op == token.EQL && a.id > b.id {
		a, b = b, a
	}
	return condNot(Form{k: 'a', a: mkFloat("cmp"+op.String(), a, b)}, neg)
}

func (e *Engine) mul(x, y *Lin) *Lin {
	if x.isConst() {
		return y.scale(x.c)
	}
	if y.isConst() {
		return x.scale(y.c)
	}
	if x.key() > y.key() {
		x, y = y, x
	}
	a := mkAtom("mul", "", nil, nil, x, y)
	return linA(a)
}

// quoRem gives truncated quotient and remainder.
func (e *Engine) quoRem(st *State, x, y *Lin) (q, r *Lin) {
	if x.isConst() && y.isConst() {
		qq, rr := new(big.Int), new(big.Int)
		qq.QuoRem(x.c, y.c, rr)
		return linB(qq), linB(rr)
	}
	if y.isConst() {
		if d := x.divExact(y.c); d != nil {
			return d, linZero
		}
	}
	nonneg := isUnsignedLin(st, x) && isUnsignedLin(st, y)
	if e.quo != nil && nonneg {
		if q := e.quo(st, x, y); q != nil {
			return q, linA(mkAtom("rem", "true", nil, nil, x, y))
		}
	}
	if ya := y.singleAtom(); ya != nil && nonneg && y.coef(ya).Cmp(big1) == 0 && x.coef(ya).Sign() > 0 && st.facts.entailsLE(linC(1).sub(y)) {
		if x2 := x.sub(y); st.facts.entailsLE(x2.neg()) {
			// (x+y)/y = x/y+1
			q, r := e.quoRem(st, x2, y)
			return q.addC(1), r
		}
	}
	a := mkAtom("quo", fmt.Sprint(nonneg), nil, nil, x, y)
	ql := linA(a)
	if y.isConst() && y.c.Sign() > 0 && nonneg {
		return ql, x.sub(ql.scale(y.c))
	}
	ra := mkAtom("rem", fmt.Sprint(nonneg), nil, nil, x, y)
	return ql, linA(ra)
}

// ---- equality of references ----

func (e *Engine) eqVal(st *State, x, y Val) Form {
	if nf, ok := e.isNil(x); ok {
		if _, xn := x.(NilV); xn || nf.k == 'T' {
			if yf, ok := e.isNil(y); ok {
				return yf
			}
		}
		if yf, ok := e.isNil(y); ok && yf.k == 'T' {
			return nf
		}
	}
	switch xv := x.(type) {
	case ErrV:
		switch yv := y.(type) {
		case ErrV:
			return errEq(xv.E, yv.E)
		case OpqV:
			return Form{k: 'a', a: mkAtom("eqerr", fmt.Sprintf("%d:%d", xv.E.id, yv.A.id), nil, nil)}
		case IfaceV, StreamV:
			return bform(false)
		}
	case OpqV:
		switch yv := y.(type) {
		case OpqV:
			if xv.A == yv.A {
				return bform(true)
			}
			i, j := xv.A.id, yv.A.id
			if i > j {
				i, j = j, i
			}
			return Form{k: 'a', a: mkAtom("eqopq", fmt.Sprintf("%d:%d", i, j), nil, nil)}
		case ErrV:
			return e.eqVal(st, y, x)
		case IfaceV:
			return Form{k: 'a', a: mkAtom("eqopq", fmt.Sprintf("%d:%s", xv.A.id, valKey(yv)), nil, nil)}
		}
	case PtrV:
		if yv, ok := y.(PtrV); ok {
			if xv.Obj != yv.Obj {
				if xv.NilA == nil || yv.NilA == nil {
					return bform(false)
				}
				return Form{k: 'a', a: freshAtom("ptreq", nil, nil)}
			}
			if pathKey(xv.Path) == pathKey(yv.Path) {
				return bform(true)
			}
			return Form{k: 'a', a: freshAtom("ptreq", nil, nil)}
		}
	case StreamV:
		if yv, ok := y.(StreamV); ok {
			return bform(xv.ID == yv.ID)
		}
		return bform(false)
	case IfaceV:
		switch yv := y.(type) {
		case IfaceV:
			if !types.Identical(xv.T, yv.T) {
				return bform(false)
			}
			switch a := xv.V.(type) {
			case IntV:
				return eqForm(a.L.sub(yv.V.(IntV).L))
			}
			return e.eqVal(st, xv.V, yv.V)
		case ErrV, StreamV:
			return bform(false)
		case OpqV:
			return e.eqVal(st, y, x)
		}
	case StructV:
		yv := y.(StructV)
		if valKey(xv) == valKey(yv) && !hasFloat(xv) {
			return bform(true)
		}
		return Form{k: 'a', a: mkAtom("structeq", valKey(xv)+"|"+valKey(yv), nil, nil)}
	case FloatV:
		return e.floatCmp(token.EQL, xv.A, y.(FloatV).A)
	case *Arr:
		yv := y.(*Arr)
		// Compare constant-size arrays element by element when decided.
		if xv.N.isConst() {
			all := true
			for i := int64(0); i < xv.N.c.Int64(); i++ {
				a, ok1 := st.arrLoad(xv, linC(i)).(IntV)
				b, ok2 := st.arrLoad(yv, linC(i)).(IntV)
				if !ok1 || !ok2 {
					all = false
					break
				}
				v, known := st.formVal(eqForm(a.L.sub(b.L)))
				if known && !v {
					return bform(false)
				}
				if !known {
					all = false
				}
			}
			if all {
				return bform(true)
			}
		}
		return Form{k: 'a', a: mkAtom("arreq", xv.key()+"|"+yv.key(), nil, nil)}
	}
	return Form{k: 'a', a: freshAtom("eq", nil, nil)}
}

func hasFloat(v Val) bool {
	switch v := v.(type) {
	case FloatV:
		return true
	case StructV:
		for _, f := range v.F {
			if hasFloat(f) {
				return true
			}
		}
	}
	return false
}

func errEq(a, b *Err) Form {
	if a == b {
		return bform(true)
	}
	// Streams do not return the library's own sentinels, and errors of
	// different sentinels are never joined.
	if own := func(x *Err) bool { return x.kind == "global" && strings.Contains(x.name, "gogama/flatgeobuf") }; own(a) || own(b) {
		return bform(false)
	}
	if a.kind == "joined" || b.kind == "joined" {
		if a.kind == "global" && a.name == "io.EOF" && b.notEOF || b.kind == "global" && b.name == "io.EOF" && a.notEOF {
			return bform(false)
		}
		j, o := a, b
		if j.kind != "joined" {
			j, o = b, a
		}
		if o.kind == "global" && j.exact {
			return bform(false)
		}
		return errEqAtom(a, b)
	}
	fa := a.kind == "stream" || a.kind == "opaque"
	fb := b.kind == "stream" || b.kind == "opaque"
	if !fa && !fb {
		return bform(false)
	}
	if (a.notEOF && b.name == "io.EOF") || (b.notEOF && a.name == "io.EOF") {
		return bform(false)
	}
	// A stream's error is never one made by this call of the library.
	if a.kind == "new" || a.kind == "errorf" || b.kind == "new" || b.kind == "errorf" {
		return bform(false)
	}
	return errEqAtom(a, b)
}
func errEqAtom(a, b *Err) Form {
	i, j := a.id, b.id
	if i > j {
		i, j = j, i
	}
	return Form{k: 'a', a: mkAtom("eqerr", fmt.Sprintf("%d:%d", i, j), nil, nil)}
}

// isNil gives the nil-ness condition of a reference value.
func (e *Engine) isNil(v Val) (Form, bool) {
	switch v := v.(type) {
	case NilV:
		return bform(true), true
	case PtrV:
		if v.NilA != nil {
			return Form{k: 'a', a: v.NilA}, true
		}
		return bform(false), true
	case SliceV:
		if v.Obj == 0 {
			return bform(true), true
		}
		if v.NilA != nil {
			return Form{k: 'a', a: v.NilA}, true
		}
		return bform(false), true
	case IfaceV, ErrV, StreamV, FuncV:
		return bform(false), true
	case OpqV:
		if v.NilA != nil {
			return Form{k: 'a', a: v.NilA}, true
		}
		return bform(false), true
	}
	return Form{}, false
}

// ---- slices ----

func (e *Engine) slice(c *Conf, in *ssa.Slice) []Out {
	x := e.val(c, in.X)
	get := func(v ssa.Value, d *Lin) *Lin {
		if v == nil {
			return d
		}
		return e.val(c, v).(IntV).L
	}
	switch xv := x.(type) {
	case SliceV:
		lo := get(in.Low, linZero)
		hi := get(in.High, xv.Len)
		mx := get(in.Max, xv.Cap)
		return e.sliceBounds(c, lo, hi, mx, xv.Cap, in, func(st *State) []Out {
			r := xv
			r.Off, r.Len, r.Cap = xv.Off.add(lo), hi.sub(lo), mx.sub(lo)
			return one(st, r)
		})
	case PtrV, NilV:
		n := linC(in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		return e.withPtr(c, x, in, func(st *State, q PtrV) []Out {
			c.st = st
			lo := get(in.Low, linZero)
			hi := get(in.High, n)
			mx := get(in.Max, n)
			return e.sliceBounds(c, lo, hi, mx, n, in, func(st *State) []Out {
				return one(st, SliceV{Obj: q.Obj, Path: q.Path, Off: lo, Len: hi.sub(lo), Cap: mx.sub(lo)})
			})
		})
	case StrV:
		lo := get(in.Low, linZero)
		hi := get(in.High, xv.Len)
		return e.sliceBounds(c, lo, hi, hi, xv.Len, in, func(st *State) []Out {
			if xv.Known && lo.isConst() && hi.isConst() {
				s := xv.S[lo.c.Int64():hi.c.Int64()]
				return one(st, StrV{Known: true, S: s, Len: linC(int64(len(s)))})
			}
			return one(st, StrV{A: freshAtom("substr", nil, nil), Len: hi.sub(lo)})
		})
	}
	panic(undecided(fmt.Sprintf("slice of %T", x)))
}

func (e *Engine) sliceBounds(c *Conf, lo, hi, mx, cp *Lin, in ssa.Instruction, ok func(st *State) []Out) []Out {
	msg := fmt.Sprintf("slice bounds [%s:%s] may be out of range (capacity %s)", trunc(lo.String(), 60), trunc(hi.String(), 60), trunc(cp.String(), 60))
	return e.require(c, leForm(lo.neg()), in, "slice", msg, func(st *State) []Out {
		c1 := *c
		c1.st = st
		return e.require(&c1, leForm(lo.sub(hi)), in, "slice", msg, func(st *State) []Out {
			c2 := *c
			c2.st = st
			return e.require(&c2, leForm(hi.sub(mx)), in, "slice", msg, func(st *State) []Out {
				c3 := *c
				c3.st = st
				return e.require(&c3, leForm(mx.sub(cp)), in, "slice", msg, ok)
			})
		})
	})
}

// ---- conversions ----

func (e *Engine) convert(st *State, x Val, from, to types.Type, in ssa.Instruction) Val {
	fi, fok := intTypeOf(from)
	ti, tok := intTypeOf(to)
	switch xv := x.(type) {
	case IntV:
		if fok && tok {
			// a value of the one type is one of the other, too
			fl, fh := fi.rng()
			tl, th := ti.rng()
			if tl.Cmp(fl) <= 0 && fh.Cmp(th) <= 0 {
				return IntV{xv.L, xv.Ar || true && !xv.L.isConst()}
			}
		}
		if tok {
			return IntV{e.toRange(st, xv.L, ti), xv.Ar || true && !xv.L.isConst()}
		}
		if isFloat(to) {
			if xv.L.isConst() {
				return FloatV{fconst(constant.Make(xv.L.c), 64)}
			}
			return FloatV{mkAtom("itof", fmt.Sprint(floatBits(to)), nil, nil, xv.L)}
		}
		if isString(to) {
			return StrV{A: freshAtom("str", nil, nil), Len: linA(freshAtom("len", big0, big.NewInt(4)))}
		}
	case FloatV:
		if tok {
			lo, hi := ti.rng()
			a := mkAtom("ftoi", ti.String(), lo, hi, linA(xv.A))
			a.bits = ti.bits
			return IntV{linA(a), true}
		}
		if isFloat(to) {
			if floatBits(from) == floatBits(to) {
				return x
			}
			return FloatV{mkAtom("fconv", fmt.Sprint(floatBits(to)), nil, nil, linA(xv.A))}
		}
	case PtrV:
		// unsafe.Pointer conversions
		tp, isPtr := to.Underlying().(*types.Pointer)
		if b, ok := to.Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
			return xv
		}
		if isPtr {
			_ = tp
			r := xv
			r.Conv = true
			return r
		}
	case NilV:
		return x
	case StrV:
		if sl, ok := to.Underlying().(*types.Slice); ok && isByteElem(sl.Elem()) {
			id := st.alloc(unboundedArr(sl.Elem()), &Arr{Elem: sl.Elem(), N: xv.Len, Ver: fmt.Sprintf("str%s", valKey(xv))}, "conv", e.pos(in))
			if xv.Known {
				a := &Arr{Elem: sl.Elem(), N: xv.Len, Zero: true}
				for i := 0; i < len(xv.S); i++ {
					a = a.with(ent{k: 'p', lo: linC(int64(i)), v: IntV{linC(int64(xv.S[i])), true}})
				}
				st.setObj(id, a)
			}
			return SliceV{Obj: id, Off: linZero, Len: xv.Len, Cap: xv.Len}
		}
		if isString(to) {
			return x
		}
	case SliceV:
		if isString(to) {
			// A string copy of bytes: snapshot.
			return StrV{A: mkAtom("strof", valKey(xv)+"|"+arrSnapKey(st, xv), nil, nil), Len: xv.Len}
		}
		return x
	}
	_ = fok
	panic(undecided(fmt.Sprintf("conversion of %T from %s to %s at %s", x, from, to, e.pos(in))))
}

func arrSnapKey(st *State, s SliceV) string {
	if s.Obj == 0 {
		return "nil"
	}
	return valKey(st.obj(s.Obj).val)
}

// ---- type assertions ----

func (e *Engine) typeAssert(c *Conf, in *ssa.TypeAssert) []Out {
	x := e.val(c, in.X)
	T := in.AssertedType
	fail := func(st *State) Out {
		if in.CommaOk {
			return Out{st: st, rets: []Val{TupV{zeroVal(T), BoolV{bform(false)}}}}
		}
		return Out{st: st, pan: &PanicInfo{kind: "assert", site: e.pos(in), fn: c.fi.fn.String(), msg: "type assertion to " + T.String() + " fails"}}
	}
	succ := func(st *State, v Val) Out {
		if in.CommaOk {
			return Out{st: st, rets: []Val{TupV{v, BoolV{bform(true)}}}}
		}
		return Out{st: st, rets: []Val{v}}
	}
	switch xv := x.(type) {
	case NilV:
		return []Out{fail(c.st)}
	case StreamV:
		it, ok := T.Underlying().(*types.Interface)
		if !ok {
			return []Out{fail(c.st)}
		}
		caps := e.streamCaps(c.st, xv.ID)
		for i := 0; i < it.NumMethods(); i++ {
			m := it.Method(i).Name()
			if _, has := caps[m]; !has {
				return []Out{fail(c.st)}
			}
		}
		// optional capabilities may be undecided
		states := []*State{c.st}
		var outs []Out
		for i := 0; i < it.NumMethods(); i++ {
			m := it.Method(i).Name()
			a := caps[m]
			if a == nil {
				continue
			}
			var next []*State
			for _, st := range states {
				t, n := e.split(st, Form{k: 'a', a: a})
				if n != nil {
					outs = append(outs, fail(n))
				}
				if t != nil {
					next = append(next, t)
				}
			}
			states = next
		}
		for _, st := range states {
			outs = append(outs, succ(st, xv))
		}
		return outs
	case IfaceV:
		if it, ok := T.Underlying().(*types.Interface); ok {
			if types.Implements(xv.T, it) {
				return []Out{succ(c.st, xv)}
			}
			return []Out{fail(c.st)}
		}
		if types.Identical(xv.T, T) {
			return []Out{succ(c.st, xv.V)}
		}
		return []Out{fail(c.st)}
	case ErrV:
		if isErrorType(T) {
			return []Out{succ(c.st, xv)}
		}
		a := mkAtom("errassert", fmt.Sprintf("%d:%s", xv.E.id, T), nil, nil)
		t, n := e.split(c.st, Form{k: 'a', a: a})
		var r []Out
		if t != nil {
			r = append(r, succ(t, freshVal(T, "assert")))
		}
		if n != nil {
			r = append(r, fail(n))
		}
		return r
	case OpqV:
		a := mkAtom("opqassert", fmt.Sprintf("%d:%s", xv.A.id, T), nil, nil)
		t, n := e.split(c.st, Form{k: 'a', a: a})
		var r []Out
		if t != nil {
			v := symVal(T, fmt.Sprintf("assert%d:%s", xv.A.id, T), nil)
			if _, ok := T.Underlying().(*types.Interface); ok {
				v = OpqV{T: T, A: xv.A, NilA: nil}
			}
			r = append(r, succ(t, v))
		}
		if n != nil {
			r = append(r, fail(n))
		}
		return r
	}
	panic(undecided(fmt.Sprintf("type assertion on %T", x)))
}
