package main

import (
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var posHi = new(big.Int).Sub(pow2(62), big1)

// newStream declares a stream with certain or possible capabilities.
func (e *Engine) newStream(id string, caps map[string]*Atom) StreamV {
	e.caps[id] = caps
	return StreamV{id}
}

// constGlobals are the package-level variables of the repository that no code
// outside package initialisation assigns.
func (e *Engine) constGlobals() map[*ssa.Global]bool {
	bad := map[*ssa.Global]bool{}
	var addrWritten func(v ssa.Value) bool
	addrWritten = func(v ssa.Value) bool {
		refs := v.Referrers()
		if refs == nil {
			return true
		}
		for _, in := range *refs {
			switch in := in.(type) {
			case *ssa.Store:
				if in.Addr == v {
					return true
				}
			case *ssa.FieldAddr:
				if addrWritten(in) {
					return true
				}
			case *ssa.IndexAddr:
				if addrWritten(in) {
					return true
				}
			}
		}
		return false
	}
	for _, fn := range e.ld.repoFns() {
		if isInitFn(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var ops [12]*ssa.Value
				for _, o := range in.Operands(ops[:0]) {
					g, ok := (*o).(*ssa.Global)
					if !ok {
						continue
					}
					switch in := in.(type) {
					case *ssa.Store:
						if in.Addr == *o {
							bad[g] = true
						}
					case *ssa.FieldAddr:
						if addrWritten(in) {
							bad[g] = true
						}
					case *ssa.IndexAddr:
						if addrWritten(in) {
							bad[g] = true
						}
					}
				}
			}
		}
	}
	for g := range e.mapGlobalsWritten() {
		bad[g] = true
	}
	r := map[*ssa.Global]bool{}
	for _, p := range e.ld.repoPkgs() {
		sp := e.ld.ssaBy[p.PkgPath]
		if sp == nil {
			continue
		}
		for _, m := range sp.Members {
			if g, ok := m.(*ssa.Global); ok && !bad[g] {
				r[g] = true
			}
		}
	}
	return r
}

// initGlobals interprets the package initialisers of the repository.
func (e *Engine) initGlobals() {
	consts := e.constGlobals()
	st := newState()
	order := []string{flatPath, prtPath, fgbPath}
	for _, p := range order {
		sp := e.ld.ssaBy[p]
		if sp == nil {
			continue
		}
		fn := sp.Func("init")
		if fn == nil {
			continue
		}
		func() {
			defer func() {
				if x := recover(); x != nil {
					if _, ok := x.(undecidedErr); !ok {
						panic(x)
					}
				}
			}()
			for _, o := range e.execInit(fn, st) {
				if o.pan == nil {
					st = o.st
				}
			}
		}()
	}
	for g := range consts {
		id, ok := e.globals[g]
		if !ok {
			continue
		}
		if o, ok := st.heap[id]; ok {
			if isErrorType(o.T) {
				if ev, ok := o.val.(ErrV); ok {
					n := *ev.E
					n.kind, n.name = "global", g.String()
					n.exact, n.notEOF = true, true
					ne := ErrV{&n}
					e.globErr[g.String()] = &n
					e.initHeap[id] = &Obj{id: id, T: o.T, val: ne, tag: "global", site: g.String()}
					continue
				}
			}
			e.initHeap[id] = &Obj{id: id, T: o.T, val: o.val, tag: "global", site: g.String()}
			// objects that the value refers to
			e.keepReach(st, o.val)
		}
	}
	for g, id := range e.globals {
		if !consts[g] && isRepoGlobal(g) {
			T := g.Type().(*types.Pointer).Elem()
			e.initHeap[id] = &Obj{id: id, T: T, val: symVal(T, "global:"+g.String(), nil), tag: "global", site: g.String()}
		}
	}
	e.funcs = map[*ssa.Function]int{}
	e.steps = 0
	e.sites = map[string]int{}
	e.initState = st
}

// isInitFn: part of package initialisation.
func isInitFn(fn *ssa.Function) bool {
	return fn.Signature.Recv() == nil && fn.Parent() == nil && (fn.Name() == "init" && fn.Synthetic != "" || strings.HasPrefix(fn.Name(), "init#"))
}

// mapGlobalsWritten: globals of map type whose map may be modified after
// initialisation: anything but lookups, iteration and len.
func (e *Engine) mapGlobalsWritten() map[*ssa.Global]bool {
	bad := map[*ssa.Global]bool{}
	for _, fn := range e.ld.repoFns() {
		if isInitFn(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				u, ok := in.(*ssa.UnOp)
				if !ok {
					continue
				}
				g, ok := u.X.(*ssa.Global)
				if !ok {
					continue
				}
				if _, ok := u.Type().Underlying().(*types.Map); !ok {
					continue
				}
				for _, x := range *u.Referrers() {
					switch x := x.(type) {
					case *ssa.Lookup, *ssa.Range, *ssa.DebugRef:
						continue
					case *ssa.Call:
						if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
							continue
						}
					}
					bad[g] = true
				}
			}
		}
	}
	return bad
}

func isRepoGlobal(g *ssa.Global) bool {
	return g.Pkg != nil && strings.HasPrefix(g.Pkg.Pkg.Path(), modPath)
}

func (e *Engine) keepReach(st *State, v Val) {
	var visit func(v Val)
	visitObj := func(id int) {
		if id == 0 {
			return
		}
		if _, ok := e.initExtra[id]; ok {
			return
		}
		if o, ok := st.heap[id]; ok {
			n := *o
			n.tag = "global"
			n.fresh = false
			if e.initExtra == nil {
				e.initExtra = map[int]*Obj{}
			}
			e.initExtra[id] = &n
			visit(o.val)
		}
	}
	visit = func(v Val) {
		switch v := v.(type) {
		case PtrV:
			visitObj(v.Obj)
		case SliceV:
			visitObj(v.Obj)
		case IfaceV:
			visit(v.V)
		case StructV:
			for _, f := range v.F {
				visit(f)
			}
		case *Arr:
			for i := range v.ents {
				visit(v.ents[i].v)
			}
		case *MapV:
			refs(v, visitObj)
		}
	}
	visit(v)
}

// execInit runs a package initialiser; imported packages are skipped.
func (e *Engine) execInit(fn *ssa.Function, st *State) []Out {
	e.skipInit = true
	defer func() { e.skipInit = false }()
	return e.execFunc(fn, nil, nil, st, 0, false)
}

// entry makes a fresh initial state.
func (e *Engine) entry() *State {
	st := newState()
	for id, o := range e.initExtra {
		st.heap[id] = o
	}
	return st
}

// callEntry interprets fn from an entry state.
func (e *Engine) callEntry(fn *ssa.Function, st *State, args ...Val) []Out {
	e.callStack = nil
	return e.execFunc(fn, args, nil, st, 0, false)
}

// covered lists the functions of the repository that were interpreted.
func (e *Engine) covered() []string {
	var r []string
	for fn := range e.funcs {
		if isRepoFn(fn) {
			r = append(r, fn.String())
		}
	}
	sort.Strings(r)
	return r
}

// addCoverage reports the interpreter's counters.
func (r *Result) addCoverage(e *Engine) {
	r.count("interpreted instructions (abstract steps)", e.steps)
	n := 0
	for in := range e.instrs {
		if isRepoFn(in.Parent()) {
			n++
		}
	}
	r.count("distinct library instructions interpreted", n)
	for k, v := range e.sites {
		r.count(k, v)
	}
	var fns []string
	if old, ok := r.Cov["functions"].([]string); ok {
		fns = old
	}
	seen := map[string]bool{}
	for _, f := range fns {
		seen[f] = true
	}
	for _, f := range e.covered() {
		if !seen[f] {
			fns = append(fns, f)
		}
	}
	sort.Strings(fns)
	r.Cov["functions"] = fns
}

// take moves the engine's violations with one of the tags into r.
func (r *Result) take(e *Engine, tags ...string) {
	for _, k := range e.order {
		v := e.viols[k]
		for _, t := range tags {
			if v.Tag == t {
				r.violate(v.Key, v.Site, v.Msg, v.Path...)
			}
		}
	}
}

func short(fn *ssa.Function) string {
	s := fn.RelString(nil)
	s = strings.ReplaceAll(s, modPath+"/", "")
	return s
}
