package main

// A flow-insensitive effect and escape analysis over the SSA form. Memory is
// divided into blobs: everything reachable from a parameter, from a free
// variable, from a package-level variable, and each allocation (named by the
// chain of call sites that leads to it). For each function it computes which
// blobs it may write, what it may store in them and what it may return.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// A blob is "p0" (what parameter 0 points to), "p0*" (what that leads to), "f0",
// "f0*" (the same for free variables), "g:pkg.Name" (a package-level
// variable), "g:pkg.Name*" (what it leads to), "a:..." (an allocation) or "u"
// (unknown memory).
type blob string

func deep(b blob) blob {
	if b == "u" || strings.HasSuffix(string(b), "*") || isFnBlob(b) {
		return b
	}
	return b + "*"
}

type blobs map[blob]bool

// Function values are blobs of their own.
func fnBlob(fn *ssa.Function) blob { return blob("fn:" + fn.String()) }
func isFnBlob(b blob) bool         { return strings.HasPrefix(string(b), "fn:") }

// depends: is the value a matter of the caller's arguments, apart from the
// functions it names?
func (b blobs) depends() bool {
	for o := range b {
		if o[0] != 'p' && o[0] != 'f' && !strings.HasPrefix(string(o), "a:") {
			return false
		}
	}
	return len(b) > 0
}

// settled: does the set name every function the value can be?
func (b blobs) settled() bool {
	for o := range b {
		if !isFnBlob(o) && !strings.HasPrefix(string(o), "a:") {
			return false
		}
	}
	return len(b) > 0
}

// A guardedWrite is a write made by a call of a function value that depends on the
// caller: it happens if the value can be the function cand.
type guardedWrite struct {
	guard string
	cand  blob
	b     blob
}

func guardKey(b blobs) string { return strings.Join(b.list(), "\n") }
func guardSet(k string) blobs {
	r := blobs{}
	for _, b := range strings.Split(k, "\n") {
		r[blob(b)] = true
	}
	return r
}

func (b blobs) addAll(c blobs) bool {
	n := len(b)
	for x := range c {
		b[x] = true
	}
	return len(b) != n
}

type effSummary struct {
	writes  map[blob]string // where
	guarded map[guardedWrite]string
	gputs   map[guardedWrite]blobs // likewise for what is stored
	content map[blob]blobs         // what may have been stored in a blob
	results []blobs
	changed bool
}

type effects struct {
	ld      *Loaded
	fns     []*ssa.Function
	sums    map[*ssa.Function]*effSummary
	bySig   map[string][]*ssa.Function // functions whose value is taken
	dirty   bool
	opaque  map[string]int // callees treated as unknown
	calls   int
	stores  int
	stack   map[*ssa.Function]bool
	gtypes  map[blob]types.Type
	treeFns map[blob]bool // the functions a tree from outside can hold, once known
}

func newEffects(ld *Loaded) *effects {
	x := &effects{ld: ld, sums: map[*ssa.Function]*effSummary{}, bySig: map[string][]*ssa.Function{}, opaque: map[string]int{}, gtypes: map[blob]types.Type{}}
	seen := map[*ssa.Function]bool{}
	x.fns = ld.repoFns()
	for _, fn := range x.fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				skip := ssa.Value(nil)
				if c, ok := in.(ssa.CallInstruction); ok && !c.Common().IsInvoke() {
					skip = c.Common().Value
				}
				var ops [12]*ssa.Value
				for i, o := range in.Operands(ops[:0]) {
					var f *ssa.Function
					switch v := (*o).(type) {
					case *ssa.Function:
						f = v
					case *ssa.MakeClosure:
						f = v.Fn.(*ssa.Function)
					}
					if mc, ok := in.(*ssa.MakeClosure); ok {
						f = mc.Fn.(*ssa.Function)
					}
					if f == nil || seen[f] || i == 0 && *o == skip && skip != nil {
						continue
					}
					seen[f] = true
					k := sigKey(f.Signature)
					x.bySig[k] = append(x.bySig[k], f)
				}
			}
		}
	}
	return x
}

func sigKey(s *types.Signature) string {
	return types.TypeString(types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic()), nil)
}

// pointy: can a value of the type lead to writable memory?
func pointy(T types.Type) bool { return pointyIn(T, map[types.Type]bool{}) }
func pointyIn(T types.Type, seen map[types.Type]bool) bool {
	if seen[T] {
		return false
	}
	seen[T] = true
	if isErrorType(T) {
		return false // errors are not written to
	}
	switch u := T.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer || u.Info()&types.IsString != 0 || u.Kind() == types.Uintptr
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if pointyIn(u.Field(i).Type(), seen) {
				return true
			}
		}
		return false
	case *types.Array:
		return pointyIn(u.Elem(), seen)
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if pointyIn(u.At(i).Type(), seen) {
				return true
			}
		}
		return false
	}
	return true
}

// solve computes the summaries of fn and everything it calls.
func (x *effects) solve(fns ...*ssa.Function) {
	for i := 0; ; i++ {
		x.dirty = false
		x.stack = map[*ssa.Function]bool{}
		x.opaque, x.calls, x.stores = map[string]int{}, 0, 0
		for _, fn := range fns {
			x.summary(fn)
		}
		if !x.dirty {
			return
		}
		if os.Getenv("FGB_FIX") != "" {
			n, ext := 0, 0
			for fn := range x.sums {
				n++
				if !isRepoFn(fn) {
					ext++
				}
			}
			fmt.Println("ROUND", i, n, ext, time.Now())
			if i == 1 {
				for fn := range x.sums {
					if !isRepoFn(fn) {
						fmt.Println("EXT", fn)
					}
				}
			}
		}
		if i > 60 {
			panic(undecided("effect analysis does not converge"))
		}
	}
}

func (x *effects) summary(fn *ssa.Function) *effSummary {
	s := x.sums[fn]
	if s == nil {
		s = &effSummary{writes: map[blob]string{}, guarded: map[guardedWrite]string{}, gputs: map[guardedWrite]blobs{}, content: map[blob]blobs{}}
		for i := 0; i < fn.Signature.Results().Len(); i++ {
			s.results = append(s.results, blobs{})
		}
		x.sums[fn] = s
	}
	if x.stack[fn] {
		return s
	}
	x.stack[fn] = true
	x.analyse(fn, s)
	return s
}

const maxChain = 3

func chain(site string, b blob) blob {
	bind := ""
	if i := strings.IndexByte(string(b), '&'); i >= 0 {
		b, bind = b[:i], string(b[i:])
	}
	parts := strings.Split(strings.TrimPrefix(string(b), "a:"), ">")
	if len(parts) > maxChain {
		parts = parts[:maxChain]
	}
	return blob("a:" + site + ">" + strings.Join(parts, ">") + bind)
}

type effFn struct {
	x       *effects
	fn      *ssa.Function
	s       *effSummary
	pts     map[ssa.Value]blobs
	content map[blob]blobs
	writes  map[blob]string
	guarded map[guardedWrite]string
	gputs   map[guardedWrite]blobs
	results []blobs
	ch      bool
	guard   *guardedWrite // the call under way depends on this
}

func (f *effFn) of(v ssa.Value) blobs {
	switch v := v.(type) {
	case *ssa.Function:
		return blobs{fnBlob(v): true}
	case *ssa.Const, *ssa.Builtin, nil:
		return nil
	case *ssa.Global:
		b := blob("g:" + v.RelString(nil))
		f.x.gtypes[b] = v.Type()
		return blobs{b: true}
	}
	if !pointy(v.Type()) {
		return nil
	}
	return f.pts[v]
}

func (f *effFn) add(v ssa.Value, b blobs) {
	if len(b) == 0 || !pointy(v.Type()) {
		return
	}
	p := f.pts[v]
	if p == nil {
		p = blobs{}
		f.pts[v] = p
	}
	if p.addAll(b) {
		f.ch = true
	}
}

func (f *effFn) in(b blob) blobs {
	r := blobs{}
	r.addAll(f.content[b])
	if b == "u" || !strings.HasPrefix(string(b), "a:") && !isFnBlob(b) {
		r[deep(b)] = true
	}
	return r
}

func (f *effFn) load(b blobs) blobs {
	r := blobs{}
	for o := range b {
		r.addAll(f.in(o))
	}
	return r
}

func (f *effFn) write(b blobs, where string) {
	for o := range b {
		if isFnBlob(o) {
			continue
		}
		if f.guard != nil {
			g := *f.guard
			g.b = o
			if _, ok := f.guarded[g]; !ok {
				f.guarded[g] = where
				f.ch = true
			}
			continue
		}
		if _, ok := f.writes[o]; !ok {
			f.writes[o] = where
			f.ch = true
		}
	}
}

func (f *effFn) put(b, v blobs) {
	if len(v) == 0 {
		return
	}
	for o := range b {
		if f.guard != nil && !strings.HasPrefix(string(o), "a:") {
			g := *f.guard
			g.b = o
			if f.gputs[g] == nil {
				f.gputs[g] = blobs{}
			}
			if f.gputs[g].addAll(v) {
				f.ch = true
			}
			continue
		}
		c := f.content[o]
		if c == nil {
			c = blobs{}
			f.content[o] = c
		}
		if c.addAll(v) {
			f.ch = true
		}
	}
}

// reach is everything reachable from b.
func (f *effFn) reach(b blobs) blobs {
	r := blobs{}
	r.addAll(b)
	for n := -1; n != len(r); {
		n = len(r)
		r.addAll(f.load(r))
	}
	return r
}

func (x *effects) analyse(fn *ssa.Function, s *effSummary) {
	f := &effFn{x: x, fn: fn, s: s, pts: map[ssa.Value]blobs{}, content: map[blob]blobs{}, writes: map[blob]string{}, guarded: map[guardedWrite]string{}, gputs: map[guardedWrite]blobs{}}
	for i := 0; i < fn.Signature.Results().Len(); i++ {
		f.results = append(f.results, blobs{})
	}
	for i, p := range fn.Params {
		f.pts[p] = blobs{blob(fmt.Sprintf("p%d", i)): true}
	}
	for i, p := range fn.FreeVars {
		f.pts[p] = blobs{blob(fmt.Sprintf("f%d", i)): true}
	}
	for n := 0; ; n++ {
		f.ch = false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				f.instr(in)
			}
		}
		if !f.ch {
			break
		}
	}
	// merge into the summary
	for b, w := range f.writes {
		if _, ok := s.writes[b]; !ok {
			s.writes[b] = w
			x.dirty = true
		}
	}
	for b, w := range f.guarded {
		if _, ok := s.guarded[b]; !ok {
			s.guarded[b] = w
			x.dirty = true
		}
	}
	for b, c := range f.gputs {
		if s.gputs[b] == nil {
			s.gputs[b] = blobs{}
		}
		if s.gputs[b].addAll(c) {
			x.dirty = true
		}
	}
	for b, c := range f.content {
		if s.content[b] == nil {
			s.content[b] = blobs{}
		}
		if s.content[b].addAll(c) {
			x.dirty = true
		}
	}
	for i := range f.results {
		if s.results[i].addAll(f.results[i]) {
			x.dirty = true
		}
	}
}

func (f *effFn) alloc(in ssa.Instruction, v ssa.Value) blobs {
	return blobs{blob("a:" + f.x.ld.position(in.Pos(), in) + "#" + v.Name()): true}
}

func (f *effFn) instr(in ssa.Instruction) {
	where := f.x.ld.position(in.Pos(), in)
	switch in := in.(type) {
	case *ssa.Alloc:
		f.add(in, f.alloc(in, in))
	case *ssa.MakeSlice:
		f.add(in, f.alloc(in, in))
	case *ssa.MakeMap:
		f.add(in, f.alloc(in, in))
	case *ssa.MakeChan:
		f.add(in, f.alloc(in, in))
	case *ssa.MakeInterface:
		if isPointerShaped(in.X.Type()) {
			f.add(in, f.of(in.X))
		} else {
			a := f.alloc(in, in)
			f.put(a, f.of(in.X))
			f.add(in, a)
			f.add(in, f.of(in.X))
		}
	case *ssa.MakeClosure:
		a := f.alloc(in, in)
		for i, b := range in.Bindings {
			// only a call of the closure gets at what it captures
			for o := range a {
				f.put(blobs{bindBlob(o, i): true}, f.of(b))
			}
		}
		f.add(in, a)
		f.add(in, blobs{fnBlob(in.Fn.(*ssa.Function)): true})
		// effects on captured variables happen wherever it is called
		fn := in.Fn.(*ssa.Function)
		args := make([]blobs, len(fn.Params))
		f.apply(fn, f.x.summary(fn), args, f.bindings(in), where, nil)
	case *ssa.FieldAddr:
		f.add(in, f.of(in.X))
	case *ssa.IndexAddr:
		f.add(in, f.of(in.X))
	case *ssa.Field:
		f.add(in, f.of(in.X))
	case *ssa.Index:
		f.add(in, f.of(in.X))
	case *ssa.Lookup:
		f.add(in, f.load(f.of(in.X)))
	case *ssa.UnOp:
		switch in.Op {
		case token.MUL:
			f.add(in, f.load(f.of(in.X)))
		case token.ARROW:
			f.add(in, f.load(f.of(in.X)))
		default:
			f.add(in, f.of(in.X))
		}
	case *ssa.BinOp:
		// string concatenation makes a new string; arithmetic on uintptr
		if b, ok := in.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Uintptr {
			f.add(in, f.of(in.X))
			f.add(in, f.of(in.Y))
		}
	case *ssa.Convert:
		_, s1 := in.X.Type().Underlying().(*types.Slice)
		b2, ok := in.Type().Underlying().(*types.Basic)
		s2 := ok && b2.Info()&types.IsString != 0
		_, s3 := in.Type().Underlying().(*types.Slice)
		switch {
		case s1 && s2, s3 && !s1: // copies
			f.add(in, f.alloc(in, in))
		default:
			f.add(in, f.of(in.X))
		}
	case *ssa.MultiConvert:
		f.add(in, f.of(in.X))
	case *ssa.ChangeType:
		f.add(in, f.of(in.X))
	case *ssa.ChangeInterface:
		f.add(in, f.of(in.X))
	case *ssa.SliceToArrayPointer:
		f.add(in, f.of(in.X))
	case *ssa.TypeAssert:
		f.add(in, f.of(in.X))
		if !isPointerShaped(in.AssertedType) {
			f.add(in, f.load(f.of(in.X)))
		}
	case *ssa.Extract:
		if r, ok := f.pts[in.Tuple]; ok {
			_ = r
		}
		if c, ok := in.Tuple.(*ssa.Call); ok {
			f.add(in, f.callRes(c, in.Index))
		} else {
			f.add(in, f.of(in.Tuple))
		}
	case *ssa.Slice:
		f.add(in, f.of(in.X))
	case *ssa.Phi:
		for _, e := range in.Edges {
			f.add(in, f.of(e))
		}
	case *ssa.Range:
		f.add(in, f.of(in.X))
	case *ssa.Next:
		f.add(in, f.load(f.of(in.Iter)))
	case *ssa.Select:
		for _, s := range in.States {
			if s.Dir == types.RecvOnly {
				f.add(in, f.load(f.of(s.Chan)))
			} else {
				f.put(f.of(s.Chan), f.of(s.Send))
			}
		}
	case *ssa.Send:
		f.put(f.of(in.Chan), f.of(in.X))
	case *ssa.Store:
		f.x.stores++
		f.write(f.of(in.Addr), where)
		if pointy(in.Val.Type()) {
			f.put(f.of(in.Addr), f.of(in.Val))
		}
	case *ssa.MapUpdate:
		f.x.stores++
		f.write(f.of(in.Map), where)
		f.put(f.of(in.Map), f.of(in.Key))
		f.put(f.of(in.Map), f.of(in.Value))
	case *ssa.Return:
		for i, r := range in.Results {
			if f.results[i].addAll(f.of(r)) {
				f.ch = true
			}
		}
		// what is returned leads to what was stored in it
	case ssa.CallInstruction:
		f.call(in, where)
	}
}

func isPointerShaped(T types.Type) bool {
	switch T.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return true
	}
	b, ok := T.Underlying().(*types.Basic)
	return ok && b.Kind() == types.UnsafePointer
}

func (f *effFn) bindings(v ssa.Value) []blobs {
	mc, ok := v.(*ssa.MakeClosure)
	if !ok {
		return nil
	}
	var r []blobs
	for _, b := range mc.Bindings {
		r = append(r, f.of(b))
	}
	return r
}

// callRes are the blobs of one result of a call; results are kept per index.
func (f *effFn) callRes(c *ssa.Call, i int) blobs {
	return f.pts[resKey{c, i}]
}

// resKey stands for one result of a call in the points-to map.
type resKey struct {
	*ssa.Call
	i int
}

func (f *effFn) setRes(c ssa.CallInstruction, i int, b blobs) {
	call, ok := c.(*ssa.Call)
	if !ok || len(b) == 0 {
		return
	}
	if call.Call.Signature().Results().Len() == 1 {
		f.add(call, b)
		return
	}
	k := resKey{call, i}
	p := f.pts[k]
	if p == nil {
		p = blobs{}
		f.pts[k] = p
	}
	if p.addAll(b) {
		f.ch = true
	}
}

func (f *effFn) call(in ssa.CallInstruction, where string) {
	f.x.calls++
	cm := in.Common()
	var args []blobs
	if cm.IsInvoke() {
		args = append(args, f.of(cm.Value))
	}
	for _, a := range cm.Args {
		args = append(args, f.of(a))
	}
	if b, ok := cm.Value.(*ssa.Builtin); ok {
		f.builtin(in, b.Name(), cm, where)
		return
	}
	if cm.IsInvoke() {
		f.invoke(in, cm, args, where)
		return
	}
	if fn := cm.StaticCallee(); fn != nil {
		f.static(in, fn, args, f.bindings(cm.Value), where)
		return
	}
	// a function value: every function of the signature whose value is taken
	k := sigKey(cm.Signature())
	cands := f.x.bySig[k]
	val := f.holders(f.of(cm.Value))
	for _, fn := range cands {
		binds := make([]blobs, len(fn.FreeVars))
		for i := range binds {
			binds[i] = f.bound(val, i)
		}
		switch {
		case val.settled():
			if val[fnBlob(fn)] {
				f.static(in, fn, args, binds, where)
			}
		case f.guard == nil && val.depends():
			f.guard = &guardedWrite{guard: guardKey(val), cand: fnBlob(fn)}
			f.static(in, fn, args, binds, where)
			f.guard = nil
		default:
			f.static(in, fn, args, binds, where)
		}
	}
	if len(cands) == 0 {
		f.unknown(in, "function value of type "+k, args, where)
	}
}

// holders leaves out the parameters and variables whose type leads to no
// function value, except through an interface.
func (f *effFn) holders(b blobs) blobs {
	r := blobs{}
	for o := range b {
		var T types.Type
		var i int
		switch {
		case o[0] == 'p':
			fmt.Sscanf(string(o[1:]), "%d", &i)
			if i < len(f.fn.Params) {
				T = f.fn.Params[i].Type()
			}
		case o[0] == 'f' && !isFnBlob(o):
			fmt.Sscanf(string(o[1:]), "%d", &i)
			if i < len(f.fn.FreeVars) {
				T = f.fn.FreeVars[i].Type()
			}
		case o[0] == 'g':
			T = f.x.gtypes[blob(strings.TrimSuffix(string(o), "*"))]
		}
		if T == nil || leadsToFunc(T, map[types.Type]bool{}) {
			r[o] = true
		}
	}
	return r
}

func leadsToFunc(T types.Type, seen map[types.Type]bool) bool {
	if seen[T] {
		return false
	}
	seen[T] = true
	switch u := T.Underlying().(type) {
	case *types.Signature:
		return true
	case *types.Pointer:
		return leadsToFunc(u.Elem(), seen)
	case *types.Slice:
		return leadsToFunc(u.Elem(), seen)
	case *types.Array:
		return leadsToFunc(u.Elem(), seen)
	case *types.Chan:
		return leadsToFunc(u.Elem(), seen)
	case *types.Map:
		return leadsToFunc(u.Key(), seen) || leadsToFunc(u.Elem(), seen)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if leadsToFunc(u.Field(i).Type(), seen) {
				return true
			}
		}
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	}
	return false
}

// What binding i of the closures in a set leads to.
func bindBlob(o blob, i int) blob { return blob(fmt.Sprintf("%s&%d", o, i)) }

func (f *effFn) bound(val blobs, i int) blobs {
	r := blobs{}
	for o := range val {
		if isFnBlob(o) {
			continue
		}
		if strings.HasPrefix(string(o), "a:") {
			r.addAll(f.content[bindBlob(o, i)]) // nothing unless it is a closure
		} else if (o[0] == 'p' || o[0] == 'f') && !strings.Contains(string(o), "&") {
			r[bindBlob(o, i)] = true
		} else {
			r.addAll(f.in(o))
		}
	}
	return r
}

// packages whose functions are followed like the repository's
var effFollow = map[string]bool{"slices": true, "bytes": true, "encoding/binary": true, "maps": true, "cmp": true}

func (f *effFn) static(in ssa.CallInstruction, fn *ssa.Function, args, binds []blobs, where string) {
	if !isRepoFn(fn) {
		if f.external(in, fn, args, where) {
			return
		}
		if p := fnPkgPath(fn); len(fn.Blocks) == 0 || p != fbPath && !effFollow[p] {
			f.unknown(in, fn.String(), args, where)
			return
		}
	}
	f.apply(fn, f.x.summary(fn), args, binds, where, in)
}

// apply substitutes the arguments in a callee's summary.
func (f *effFn) apply(fn *ssa.Function, s *effSummary, args, binds []blobs, where string, in ssa.CallInstruction) {
	site := where + ":" + fn.Name()
	var tr func(b blob) blobs
	tr = func(b blob) blobs {
		if j := strings.IndexByte(string(b), '&'); j >= 0 && (b[0] == 'p' || b[0] == 'f') {
			var k int
			fmt.Sscanf(string(b[j+1:]), "%d", &k)
			r := f.bound(f.holders(tr(b[:j])), k)
			if deep(b) == b {
				r = f.reach(f.load(r))
			}
			return r
		}
		switch {
		case b == "u" || strings.HasPrefix(string(b), "g:") || isFnBlob(b):
			return blobs{b: true}
		case strings.HasPrefix(string(b), "a:"):
			if !isRepoFn(fn) {
				return blobs{blob("a:" + site): true}
			}
			return blobs{chain(site, b): true}
		case b[0] == 'p' || b[0] == 'f':
			var i int
			fmt.Sscanf(string(b[1:]), "%d", &i)
			l := args
			if b[0] == 'f' {
				l = binds
			}
			if i < len(l) && deep(b) == b {
				return f.reach(f.load(l[i]))
			} else if i < len(l) {
				return l[i]
			}
		}
		return nil
	}
	trAll := func(c blobs) blobs {
		r := blobs{}
		for b := range c {
			r.addAll(tr(b))
		}
		return r
	}
	for b, w := range s.writes {
		if strings.HasPrefix(string(b), "a:") {
			continue
		}
		f.write(tr(b), w)
	}
	// a guarded effect happens unless the function value is known to be another
	guarded := func(g guardedWrite, do func()) {
		val := f.holders(trAll(guardSet(g.guard)))
		if f.x.treeFns != nil && treeMethod(fn) && !f.x.treeFns[g.cand] && guardSet(g.guard).onlyParam(0) {
			return
		}
		switch {
		case val.settled() && !val[g.cand], len(val) == 0 && in != nil:
		case !val.settled() && val.depends() && f.guard == nil && in != nil:
			f.guard = &guardedWrite{guard: guardKey(val), cand: g.cand}
			do()
			f.guard = nil
		default:
			do()
		}
	}
	for g, w := range s.guarded {
		guarded(g, func() { f.write(tr(g.b), w) })
	}
	for g, c := range s.gputs {
		guarded(g, func() { f.put(tr(g.b), trAll(c)) })
	}
	for b, c := range s.content {
		f.put(tr(b), trAll(c))
	}
	if in != nil {
		for i, c := range s.results {
			f.setRes(in, i, trAll(c))
		}
	}
}

func (f *effFn) builtin(in ssa.CallInstruction, name string, cm *ssa.CallCommon, where string) {
	v, _ := in.(*ssa.Call)
	arg := func(i int) blobs { return f.of(cm.Args[i]) }
	switch name {
	case "append":
		f.x.stores++
		f.write(arg(0), where)
		a := blobs{blob("a:" + where + "#append"): true}
		elem := f.load(arg(1))
		var pe bool
		if s, ok := cm.Args[0].Type().Underlying().(*types.Slice); ok {
			pe = pointy(s.Elem())
		}
		if pe {
			f.put(arg(0), elem)
			f.put(a, elem)
			f.put(a, f.load(arg(0)))
		}
		if v != nil {
			f.add(v, arg(0))
			f.add(v, a)
		}
	case "copy":
		f.x.stores++
		f.write(arg(0), where)
		if s, ok := cm.Args[0].Type().Underlying().(*types.Slice); ok && pointy(s.Elem()) {
			f.put(arg(0), f.load(arg(1)))
		}
	case "delete", "clear":
		f.x.stores++
		f.write(arg(0), where)
	case "Slice", "SliceData", "String", "StringData", "Add", "ssa:wrapnilchk", "min", "max":
		if v != nil {
			for i := range cm.Args {
				f.add(v, arg(i))
			}
		}
	case "recover":
		if v != nil {
			f.add(v, blobs{"a:panic value": true})
		}
	}
}

// Interface methods whose effects their documentation fixes.
var invokeWrites = map[string][]int{ // written arguments, the receiver being 0
	"Read": {0, 1}, "Write": {0}, "WriteString": {0}, "Seek": {0}, "Close": {0},
	"Error": {}, "String": {}, "Unwrap": {}, "Len": {}, "Less": {}, "Swap": {0},
	"ColumnsLength": {}, "Columns": {1}, "Is": {}, "As": {1},
}

func (f *effFn) invoke(in ssa.CallInstruction, cm *ssa.CallCommon, args []blobs, where string) {
	name := cm.Method.Name()
	if w, ok := invokeWrites[name]; ok {
		for _, i := range w {
			if i < len(args) {
				if i == 0 {
					continue // the state of the callee's own object
				}
				f.x.stores++
				f.write(args[i], where)
				if name == "Columns" {
					f.put(args[1], args[0])
				}
			}
		}
		for i := 0; i < cm.Signature().Results().Len(); i++ {
			if name == "Columns" || name == "Unwrap" {
				f.setRes(in, i, args[0])
			} else {
				f.setRes(in, i, blobs{blob("a:" + where + "#" + name): true})
			}
		}
		return
	}
	// methods of the repository's types
	n := 0
	for _, fn := range f.x.fns {
		if fn.Name() == name && fn.Signature.Recv() != nil && types.Identical(cm.Method.Type().(*types.Signature).Params(), fn.Signature.Params()) {
			f.apply(fn, f.x.summary(fn), args, nil, where, in)
			n++
		}
	}
	if n == 0 {
		f.unknown(in, "interface method "+name, args, where)
	}
}

// external functions with known effects; false if the body is to be analysed.
func (f *effFn) external(in ssa.CallInstruction, fn *ssa.Function, args []blobs, where string) bool {
	pkg := fnPkgPath(fn)
	fresh := func() {
		for i := 0; i < fn.Signature.Results().Len(); i++ {
			f.setRes(in, i, blobs{blob("a:" + where + "#" + fn.Name()): true})
		}
	}
	writeArg := func(i int) {
		if i < len(args) {
			f.x.stores++
			f.write(args[i], where)
		}
	}
	switch pkg {
	case "fmt":
		if strings.HasPrefix(fn.Name(), "Fprint") {
			writeArg(0)
		} else if !strings.HasPrefix(fn.Name(), "Sprint") && fn.Name() != "Errorf" {
			return false
		}
		fresh()
		if fn.Name() == "Errorf" { // wraps its operands
			f.setRes(in, 0, f.reach(args[len(args)-1]))
		}
		return true
	case "errors":
		fresh()
		if fn.Name() == "As" {
			writeArg(1)
		}
		if fn.Name() == "Unwrap" || fn.Name() == "Join" {
			f.setRes(in, 0, f.reach(args[0]))
		}
		return true
	case "math", "math/bits", "unicode/utf8", "strconv", "runtime", "sync", "sync/atomic", "time", "os":
		switch pkg {
		case "math", "math/bits", "unicode/utf8", "strconv":
			fresh()
			return true
		}
		return false
	case "sort":
		if fn.Name() == "Sort" || fn.Name() == "Stable" {
			writeArg(0)
			return true
		}
		return false
	case "container/heap":
		writeArg(0)
		f.write(f.reach(args[0]), where)
		if fn.Name() == "Push" {
			f.put(args[0], args[1])
		}
		for i := 0; i < fn.Signature.Results().Len(); i++ {
			f.setRes(in, i, f.reach(args[0]))
		}
		return true
	case "io":
		switch fn.Name() {
		case "ReadFull", "ReadAtLeast":
			writeArg(1)
			fresh()
			return true
		case "Copy", "CopyN", "CopyBuffer", "WriteString":
			fresh()
			return true
		case "ReadAll":
			fresh()
			return true
		}
		return false
	case "strings":
		if fn.Signature.Recv() != nil {
			writeArg(0)
			for i := 0; i < fn.Signature.Results().Len(); i++ {
				f.setRes(in, i, blobs{blob("a:" + where + "#" + fn.Name()): true})
			}
			return true
		}
		fresh()
		return true
	case "bytes":
		if fn.Name() == "NewReader" || fn.Name() == "NewBuffer" {
			a := blobs{blob("a:" + where + "#" + fn.Name()): true}
			f.put(a, args[0])
			f.setRes(in, 0, a)
			return true
		}
		return false
	case "reflect", "unsafe":
		return false
	}
	return false
}

// unknown: anything may happen to what the arguments lead to.
func (f *effFn) unknown(in ssa.CallInstruction, what string, args []blobs, where string) {
	f.x.opaque[what]++
	all := blobs{"u": true}
	for _, a := range args {
		all.addAll(f.reach(a))
	}
	f.write(all, where)
	f.put(all, all)
	for i := 0; i < in.Common().Signature().Results().Len(); i++ {
		f.setRes(in, i, all)
	}
}

// reached is everything reachable from b given stored contents.
func (s *effSummary) reached(b blobs) blobs {
	r := blobs{}
	r.addAll(b)
	for n := -1; n != len(r); {
		n = len(r)
		for o := range r {
			r.addAll(s.content[o])
		}
	}
	return r
}

func (b blobs) list() (r []string) {
	for x := range b {
		r = append(r, string(x))
	}
	sort.Strings(r)
	return
}
