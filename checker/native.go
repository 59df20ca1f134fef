package main

// C22: the byte order of the index on every architecture.
//
// Byte views of the nodes are followed from the stream to the conversion and
// from the nodes to the writer; the two functions that convert or write a
// view are then decided on plain byte slices of any length that is a multiple
// of eight. On a big-endian architecture, each byte stored must be the byte
// of the source at the mirrored place of the same word.
//
// Ghosts of the conversion: cvw counts the words completely stored, cvmask is
// the set of bytes of the next word already stored.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

// convSpec tracks the stores of converted bytes.
type convSpec struct {
	e     *Engine
	src   int // the bytes to convert
	inPl  bool
	start *Lin // cursor of the output at the start
}

func byteArr(st *State, obj int) bool {
	if obj == 0 || lazyByID[obj] != nil && st.heap[obj] == nil {
		return false
	}
	a, ok := st.obj(obj).val.(*Arr)
	return ok && isByteElem(a.Elem)
}

// rel gives the place of byte x of the target in the word being stored.
func (c *convSpec) rel(st *State, x *Lin) (int64, bool) {
	base := linZero
	if !c.inPl {
		base = c.e.cursor(st, "out").sub(c.start)
	}
	d := x.add(base).sub(gLin(st, "cvw", linZero).scale(bigI(8)))
	for i := int64(0); !d.isConst() && i < 8; i++ {
		if st.facts.entailsEQ(d.addC(-i)) {
			return i, true
		}
	}
	if !d.isConst() || !d.c.IsInt64() {
		return 0, false
	}
	return d.c.Int64(), true
}

func (c *convSpec) store(st *State, q PtrV, v Val, site string) bool {
	if len(q.Path) != 1 || q.Path[0].Field >= 0 || !byteArr(st, q.Obj) || (q.Obj == c.src) != c.inPl {
		return false
	}
	e := c.e
	e.sites["byte stored"]++
	d, ok := c.rel(st, q.Path[0].Idx)
	mask := gInt(st, "cvmask")
	if !ok || d < 0 || d > 7 || mask&(1<<d) != 0 {
		e.violate("order", "place|"+site, "a byte is stored that is not a missing byte of the next word", site, st)
		return true
	}
	want := symVal(types.Typ[types.Byte], "el:"+srcVer, []*Lin{gLin(st, "cvw", linZero).scale(bigI(8)).addC(7 - d)}).(IntV)
	iv, ok := v.(IntV)
	if !ok || !st.linEq(iv.L, want.L) {
		e.violate("order", "byte|"+site, fmt.Sprintf("byte %d of a word is stored from %s instead of byte %d of the same word", d, trunc(showVal(v), 120), 7-d), site, st)
		return true
	}
	mask |= 1 << d
	if mask == 255 {
		mask = 0
		st.ghost["cvw"] = IntV{gLin(st, "cvw", linZero).addC(1), true}
	}
	gSet(st, "cvmask", mask)
	return true
}

func (c *convSpec) load(st *State, q PtrV) (Val, bool) {
	if !byteArr(st, q.Obj) || (q.Obj == c.src) != c.inPl || len(q.Path) != 1 || q.Path[0].Field >= 0 {
		return nil, false
	}
	x := q.Path[0].Idx
	w := gLin(st, "cvw", linZero).scale(bigI(8))
	x0 := x
	if !c.inPl {
		x = x.add(c.e.cursor(st, "out").sub(c.start))
	}
	orig := func(y *Lin) (Val, bool) {
		if !c.inPl && y == x {
			return nil, false // not stored to yet
		}
		x := y
		return symVal(types.Typ[types.Byte], "el:"+srcVer, []*Lin{x}), true
	}
	if st.facts.entailsLE(w.addC(8).sub(x)) {
		return orig(x)
	}
	d, ok := c.rel(st, x0)
	if !ok || d < 0 {
		panic(undecided("load of a byte that may have been converted before"))
	}
	if d < 8 && gInt(st, "cvmask")&(1<<d) != 0 {
		return orig(w.addC(7 - d))
	}
	return orig(x)
}

// stale: the contents of the object are not what the stores made them.
func (c *convSpec) stale(st *State, obj int) bool {
	return byteArr(st, obj) && (obj == c.src) == c.inPl && (gInt(st, "cvmask") != 0 || !gLin(st, "cvw", linZero).isConstI(0))
}

// partly: the object has converted bytes that are not written yet.
func (c *convSpec) partly(st *State, obj int) bool {
	if !byteArr(st, obj) || (obj == c.src) != c.inPl {
		return false
	}
	base := linZero
	if !c.inPl {
		base = c.e.cursor(st, "out").sub(c.start)
	}
	return gInt(st, "cvmask") != 0 || !st.linEq(base, gLin(st, "cvw", linZero).scale(bigI(8)))
}

const srcVer = "octets"

// octets is a byte slice of any length that is a multiple of eight.
func octets(st *State) (SliceV, int, *Lin) {
	n := linA(mkAtom("in", "words", big0, pow2(56))).scale(bigI(8))
	id := st.alloc(unboundedArr(types.Typ[types.Byte]), &Arr{Elem: types.Typ[types.Byte], N: n, Ver: srcVer}, "param", "argument")
	return SliceV{Obj: id, Off: linZero, Len: n, Cap: n}, id, n
}

// unchanged: the bytes are those of the argument.
func unchanged(st *State, id int) bool {
	a, ok := st.obj(id).val.(*Arr)
	return ok && a.Ver == srcVer && len(a.ents) == 0
}

// convertCheck decides a function that converts bytes in place.
func convertCheck(ld *Loaded, e *Engine, fn *ssa.Function, big bool) {
	site := ld.position(fn.Pos(), nil)
	st := e.entry()
	b, id, n := octets(st)
	e.congr, e.unroll = 8, true
	defer func() { e.congr, e.unroll = 0, false }()
	c := &convSpec{e: e, src: id, inPl: true}
	if big {
		e.conv = c
		gSet(st, "cvw", 0)
		st.ghost["cvw"] = IntV{linZero, true}
		gSet(st, "cvmask", 0)
	}
	e.ev = nil
	for _, o := range e.callEntry(fn, st, b) {
		e.sites["outcome of the conversion"]++
		switch {
		case o.pan != nil:
			e.violate("order", "panic|"+o.pan.site, "the conversion panics: "+o.pan.msg, o.pan.site, o.st)
		case !unchanged(o.st, id):
			e.violate("order", "converted|"+fn.String(), "the conversion changes bytes in a way that is not the mirror image of each word on this architecture", site, o.st)
		case big && (gInt(o.st, "cvmask") != 0 || !o.st.linEq(gLin(o.st, "cvw", linZero).scale(bigI(8)), n)):
			e.violate("order", "incomplete|"+fn.String(), "the conversion ends before the last word is mirrored", site, o.st)
		}
	}
	e.conv = nil
}

// writeCheck decides a function that writes bytes in little-endian order.
func writeCheck(ld *Loaded, e *Engine, fn *ssa.Function, big bool) {
	site := ld.position(fn.Pos(), nil)
	st := e.entry()
	b, id, n := octets(st)
	start := e.cursor(st, "out")
	e.congr, e.unroll = 8, true
	defer func() { e.congr, e.unroll = 0, false }()
	c := &convSpec{e: e, src: id, start: start}
	if big {
		e.conv = c
		st.ghost["cvw"] = IntV{linZero, true}
		gSet(st, "cvmask", 0)
	}
	gSet(st, "wfail", 0)
	e.ev = func(st *State, ev *Event) {
		if ev.Kind != "write" {
			e.violate("order", "event|"+ev.Site, "the bytes are written by something other than Write", ev.Site, st)
			return
		}
		e.sites["bytes written"]++
		pos := e.cursor(st, "out").sub(start)
		if gInt(st, "wfail") != 0 {
			e.violate("order", "after|"+ev.Site, "bytes are written after a failed write", ev.Site, st)
		}
		b := *ev.Buf
		switch {
		case b.Obj == 0:
		case big && b.Obj != id:
			// everything in the buffer was stored since the last write
			if gInt(st, "cvmask") != 0 || !st.linEq(b.Off.add(b.Len).add(pos), gLin(st, "cvw", linZero).scale(bigI(8))) || !b.Off.isConstI(0) {
				e.violate("order", "chunk|"+ev.Site, "a chunk is written that is not made of the next words, all mirrored", ev.Site, st)
			}
		case !big && b.Obj == id:
			if !st.linEq(b.Off, pos) {
				e.violate("order", "chunk|"+ev.Site, "a chunk is written that does not begin at the next byte", ev.Site, st)
			}
		default:
			e.violate("order", "chunk|"+ev.Site, "bytes are written that are not in little-endian order on this architecture", ev.Site, st)
		}
		if ev.Outcome == "error" {
			gSet(st, "wfail", 1)
		}
	}
	for _, o := range e.callEntry(fn, st, StreamV{"out"}, b) {
		e.sites["outcome of the writing"]++
		if o.pan != nil {
			e.violate("order", "panic|"+o.pan.site, "the writing panics: "+o.pan.msg, o.pan.site, o.st)
			continue
		}
		if !unchanged(o.st, id) {
			e.violate("order", "modified|"+fn.String(), "the writing modifies the bytes it is given", site, o.st)
		}
		done := e.cursor(o.st, "out").sub(start)
		if v, ok := o.rets[0].(IntV); !ok || !o.st.linEq(v.L, done) {
			e.violate("order", "count|"+fn.String(), "the number of bytes returned is not the number of bytes written", site, o.st)
		}
		es := errState(o.st, o.rets[1])
		if failed := gInt(o.st, "wfail") != 0; es == 0 && failed || es == 1 && !failed || es != 0 && es != 1 {
			e.violate("order", "error|"+fn.String(), "the error returned does not tell whether a write failed", site, o.st)
		} else if es == 0 && !o.st.linEq(done, n) {
			e.violate("order", "partial|"+fn.String(), "the writing ends without an error before the last byte is written", site, o.st)
		}
	}
	e.conv, e.ev = nil, nil
}

// flowRoles are the functions that views of the nodes are handed to.
type flowRoles struct{ conv, write map[*ssa.Function]bool }

func sigIs(fn *ssa.Function, params string) bool {
	sg := fn.Signature
	if sg.Recv() != nil || sg.Variadic() {
		return false
	}
	var ps []string
	for i := 0; i < sg.Params().Len(); i++ {
		ps = append(ps, types.TypeString(sg.Params().At(i).Type().Underlying(), nil))
	}
	return strings.Join(ps, ";") == params
}

// viewFlow follows the byte views of the nodes.
func viewFlow(ld *Loaded, e *Engine, roles *flowRoles) {
	wr := types.TypeString(ld.byPath["io"].Types.Scope().Lookup("Writer").Type().Underlying(), nil)
	view := func(v Val) (SliceV, bool) {
		s, ok := v.(SliceV)
		return s, ok && s.View > 1
	}
	pend := func(st *State) (int64, SliceV, bool) {
		s, ok := st.ghost["pend"].(SliceV)
		return gInt(st, "pending"), s, ok
	}
	same := func(st *State, a, b SliceV) bool {
		return a.Obj == b.Obj && pathKey(a.Path) == pathKey(b.Path) && st.linEq(a.Off, b.Off) && st.linEq(a.Len, b.Len)
	}
	e.prefixModels = append(e.prefixModels, prefixModel{prtPath + ".", func(e *Engine, c *callCtx) []Out {
		switch {
		case len(c.args) == 1 && c.fn.Signature.Results().Len() == 0 && sigIs(c.fn, "[]byte"):
			s, ok := view(c.args[0])
			if !ok {
				return nil
			}
			e.sites["view converted"]++
			roles.conv[c.fn] = true
			n, p, _ := pend(c.st)
			if n != 1 || !same(c.st, s, p) {
				e.violate("flow", "convert|"+e.pos(c.site), "node bytes are converted that are not exactly those read since the last conversion", e.pos(c.site), c.st)
			}
			gSet(c.st, "pending", 0)
			c.st.ghost["pend"] = NilV{}
			return []Out{{st: c.st}}
		case len(c.args) == 2 && c.fn.Signature.Results().Len() == 2 && sigIs(c.fn, wr+";[]byte"):
			s, ok := view(c.args[1])
			if !ok {
				return nil
			}
			sm, ok := c.args[0].(StreamV)
			if !ok {
				return nil
			}
			roles.write[c.fn] = true
			return e.writeOutcomes(c.st, sm, s, s.Len, e.pos(c.site), "little-endian write", nil)
		}
		return nil
	}})
	e.ev = func(st *State, ev *Event) {
		if ev.Buf == nil || ev.Buf.View <= 1 {
			return
		}
		switch ev.Kind {
		case "write":
			e.sites["view written"]++
			if ev.Name != "little-endian write" {
				e.violate("flow", "rawwrite|"+ev.Site, "node bytes are written as they are in memory", ev.Site, st)
			}
		case "read":
			e.sites["view read"]++
			if n, _, _ := pend(st); n != 0 {
				e.violate("flow", "again|"+ev.Site, "node bytes are read while others are not converted yet", ev.Site, st)
			}
			if ev.Outcome == "ok" {
				gSet(st, "pending", 1)
				st.ghost["pend"] = *ev.Buf
			}
		}
	}
	e.loadHook = func(st *State, q PtrV) {
		if n, p, ok := pend(st); ok && n == 1 && q.Obj == p.Obj && len(q.Path) > len(p.Path) && pathKey(q.Path[:len(p.Path)]) == pathKey(p.Path) {
			e.violate("flow", "early|"+pathKey(q.Path), "a node is used before its bytes are converted", "", st)
		}
	}
	e.storeHook = func(st *State, q PtrV, old, v Val, site string) {
		if n, p, ok := pend(st); ok && n == 1 && q.Obj == p.Obj {
			e.violate("flow", "early|"+site, "a node is changed before its bytes are converted", site, st)
		}
	}
	readers, writers := viewUsers(ld)
	run := func(fn *ssa.Function, out bool) {
		st := e.entry()
		gSet(st, "pending", 0)
		st.ghost["pend"] = NilV{}
		var args, binds []Val
		for i, p := range fn.Params {
			args = append(args, flowArg(ld, p.Type(), fmt.Sprintf("%s.%d", fn.Name(), i), out))
		}
		for i, p := range fn.FreeVars {
			T := p.Type().(*types.Pointer).Elem()
			binds = append(binds, PtrV{Obj: st.alloc(T, flowArg(ld, T, fmt.Sprintf("%s.free%d", fn.Name(), i), out), "free", "captured")})
		}
		e.callStack = nil
		for _, o := range e.execFunc(fn, args, binds, st, 0, false) {
			if o.pan != nil {
				continue
			}
			e.sites["flow outcome of "+fn.Name()]++
			ok := true
			for _, r := range o.rets {
				if isErrVal(r) && errState(o.st, r) == 1 {
					ok = false
				}
			}
			if ok && gInt(o.st, "pending") != 0 {
				e.violate("flow", "unconverted|"+fn.String(), "the nodes read are returned without the conversion to this architecture's byte order", ld.position(fn.Pos(), nil), o.st)
			}
		}
	}
	for _, fn := range readers {
		run(fn, false)
	}
	for _, fn := range writers {
		run(fn, true)
	}
	e.ev, e.loadHook, e.storeHook = nil, nil, nil
	e.prefixModels = e.prefixModels[:len(e.prefixModels)-1]
	// every place that makes a view is followed
	for _, in := range viewMakers(ld) {
		e.sites["place that makes a view"]++
		if !e.instrs[in] {
			e.violate("flow", "unfollowed|"+in.Parent().String(), "a byte view of nodes is made here that the analysis does not follow", e.pos(in), nil)
		}
	}
}

func isErrVal(v Val) bool {
	switch x := v.(type) {
	case ErrV:
		return true
	case OpqV:
		return isErrorType(x.T)
	}
	return false
}

// flowArg is any value of a parameter's type.
func flowArg(ld *Loaded, T types.Type, name string, out bool) Val {
	if i, ok := T.Underlying().(*types.Interface); ok {
		for k := 0; k < i.NumMethods(); k++ {
			switch i.Method(k).Name() {
			case "Read":
				return StreamV{"in"}
			case "Write":
				return StreamV{"out"}
			}
		}
	}
	v := symVal(T, name, nil)
	switch x := v.(type) {
	case PtrV:
		x.NilA = nil
		return x
	case SliceV:
		x.NilA = nil
		return x
	}
	return v
}

// viewMakers are the calls of unsafe.Slice that give bytes.
func viewMakers(ld *Loaded) (r []ssa.Instruction) {
	for _, fn := range ld.repoFns() {
		if fnPkgPath(fn) != prtPath {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok {
					if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "Slice" {
						r = append(r, in)
					}
				}
			}
		}
	}
	return
}

// viewUsers are the functions that read or write and that reach a place where
// a view is made, other than those that search as they read.
func viewUsers(ld *Loaded) (readers, writers []*ssa.Function) {
	makes := map[*ssa.Function]bool{}
	for _, in := range viewMakers(ld) {
		makes[in.Parent()] = true
	}
	io := ld.byPath["io"].Types.Scope()
	has := func(fn *ssa.Function, name string) bool {
		it := io.Lookup(name).Type().Underlying()
		for _, p := range fn.Params {
			if types.Identical(p.Type().Underlying(), it) {
				return true
			}
		}
		for _, p := range fn.FreeVars {
			if pt, ok := p.Type().(*types.Pointer); ok && types.Identical(pt.Elem().Underlying(), it) {
				return true
			}
		}
		return false
	}
	for _, fn := range ld.repoFns() {
		if fnPkgPath(fn) != prtPath || !reaches(fn, makes, map[*ssa.Function]bool{}) {
			continue
		}
		switch {
		case has(fn, "Reader"), has(fn, "ReadSeeker") && fn.Parent() != nil:
			readers = append(readers, fn)
		case has(fn, "Writer"):
			writers = append(writers, fn)
		}
	}
	return
}

// reaches: fn statically calls, directly or not, one of the functions.
func reaches(fn *ssa.Function, to, seen map[*ssa.Function]bool) bool {
	if to[fn] {
		return true
	}
	if seen[fn] {
		return false
	}
	seen[fn] = true
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if g := c.Common().StaticCallee(); g != nil && isRepoFn(g) && reaches(g, to, seen) {
					return true
				}
			}
		}
	}
	return false
}

// ---- architectures ----

// archs lists the architectures of the toolchain, by the files of
// internal/goarch that define their byte order.
func archs(goroot string) (r []string, err error) {
	ms, err := filepath.Glob(filepath.Join(goroot, "src/internal/goarch/goarch_*.go"))
	for _, m := range ms {
		r = append(r, strings.TrimSuffix(strings.TrimPrefix(filepath.Base(m), "goarch_"), ".go"))
	}
	if err == nil && len(r) == 0 {
		err = fmt.Errorf("no architectures found under %s", goroot)
	}
	return
}

func osFor(arch string) string {
	if arch == "wasm" {
		return "js"
	}
	return "linux"
}

type archInfo struct {
	arch  string
	big   bool
	files string // files of packedrtree chosen by the build constraints
	ld    *Loaded
}

func loadArch(arch string) (*archInfo, error) {
	ld, err := load("GOARCH="+arch, "GOOS="+osFor(arch), "CGO_ENABLED=0")
	if err != nil {
		return nil, err
	}
	a := &archInfo{arch: arch, ld: ld}
	g := ld.byPath["internal/goarch"]
	if g == nil {
		return nil, fmt.Errorf("internal/goarch is not part of the program")
	}
	c, ok := g.Types.Scope().Lookup("BigEndian").(*types.Const)
	if !ok || c.Val().Kind() != constant.Bool {
		return nil, fmt.Errorf("byte order not found in internal/goarch")
	}
	a.big = constant.BoolVal(c.Val())
	p := ld.byPath[prtPath]
	if p == nil {
		return nil, fmt.Errorf("package packedrtree not found")
	}
	fs := append([]string{}, p.CompiledGoFiles...)
	for i := range fs {
		fs[i] = filepath.Base(fs[i])
	}
	sort.Strings(fs)
	a.files = strings.Join(fs, " ")
	return a, nil
}

// nodeSize: the nodes are 40 bytes without padding, in the order of the file.
func (a *archInfo) layout(r *Result) {
	p := a.ld.byPath[prtPath]
	sz := p.TypesSizes
	ref := p.Types.Scope().Lookup("Ref")
	if ref == nil {
		r.violate("layout|missing", "", "type Ref not found")
		return
	}
	var off []string
	var walk func(T types.Type, base int64)
	walk = func(T types.Type, base int64) {
		if s, ok := T.Underlying().(*types.Struct); ok {
			var fs []*types.Var
			for i := 0; i < s.NumFields(); i++ {
				fs = append(fs, s.Field(i))
			}
			for i, o := range sz.Offsetsof(fs) {
				if _, ok := fs[i].Type().Underlying().(*types.Struct); ok {
					walk(fs[i].Type(), base+o)
				} else {
					off = append(off, fmt.Sprintf("%s:%s@%d", fs[i].Name(), fs[i].Type().Underlying(), base+o))
				}
			}
		}
	}
	walk(ref.Type(), 0)
	got := strings.Join(off, " ")
	if want := "XMin:float64@0 YMin:float64@8 XMax:float64@16 YMax:float64@24 Offset:int64@32"; got != want || sz.Sizeof(ref.Type()) != nodeBytes {
		r.violate("layout|Ref", a.ld.position(ref.Pos(), nil), fmt.Sprintf("on %s the memory layout of a node is %q with %d bytes, which is not that of the file: %q with 40 bytes", a.arch, got, sz.Sizeof(ref.Type()), want))
	}
	r.count("layout of a node", 1)
}

func nativeChecks(r *Result) {
	root := strings.TrimSpace(goRoot())
	as, err := archs(root)
	if err != nil {
		r.violate("archs", "", err.Error())
		return
	}
	infos := make([]*archInfo, len(as))
	errs := make([]error, len(as))
	sem := make(chan bool, 4)
	done := make(chan bool)
	for i := range as {
		go func(i int) {
			sem <- true
			infos[i], errs[i] = loadArch(as[i])
			<-sem
			done <- true
		}(i)
	}
	for range as {
		<-done
	}
	type class struct {
		big   bool
		files string
	}
	cls := map[class][]*archInfo{}
	for i, a := range infos {
		r.count("architecture", 1)
		if errs[i] != nil {
			r.violate("compile|"+as[i], "", fmt.Sprintf("on %s: %v", as[i], errs[i]))
			continue
		}
		a.layout(r)
		if a.big {
			r.count("big-endian architecture", 1)
		}
		// the analysis computes with 64-bit int
		c := class{a.big, a.files}
		cls[c] = append(cls[c], a)
	}
	infos = nil
	var order []class
	for c := range cls {
		order = append(order, c)
	}
	sort.Slice(order, func(i, k int) bool { return cls[order[i]][0].arch < cls[order[k]][0].arch })
	for _, c := range order {
		// one 64-bit architecture stands for those with the same files and
		// byte order
		a := cls[c][0]
		for _, b := range cls[c] {
			if b.ld.byPath[prtPath].TypesSizes.Sizeof(types.Typ[types.Int]) == 8 {
				a = b
				break
			}
		}
		var names []string
		for _, b := range cls[c] {
			names = append(names, b.arch)
		}
		r.Explain = append(r.Explain, fmt.Sprintf("%s: files %s, big-endian %v, decided on %s.", strings.Join(names, ", "), c.files, c.big, a.arch))
		guard(r, "byte order on "+a.arch, func() {
			a.ld.buildSSA()
			ld := a.ld
			e := newEngine(ld)
			e.initGlobals()
			roles := &flowRoles{map[*ssa.Function]bool{}, map[*ssa.Function]bool{}}
			viewFlow(ld, e, roles)
			for _, fn := range sortedFns(roles.conv) {
				convertCheck(ld, e, fn, c.big)
			}
			for _, fn := range sortedFns(roles.write) {
				writeCheck(ld, e, fn, c.big)
			}
			e.sites["conversion function"] += len(roles.conv)
			e.sites["writing function"] += len(roles.write)
			for _, k := range e.order {
				v := e.viols[k]
				r.violate(v.Key, v.Site, "on "+strings.Join(names, ", ")+": "+v.Msg, v.Path...)
			}
			r.addCoverage(e)
		})
		cls[c] = nil
	}
	r.need("architecture", 10)
	r.need("big-endian architecture", 2)
	r.need("place that makes a view", 2)
	r.need("view read", 2)
	r.need("view written", 2)
	r.need("conversion function", 2)
	r.need("writing function", 2)
}

func sortedFns(m map[*ssa.Function]bool) (r []*ssa.Function) {
	for fn := range m {
		r = append(r, fn)
	}
	sort.Slice(r, func(i, k int) bool { return r[i].String() < r[k].String() })
	return
}

func goRoot() string {
	if g := os.Getenv("GOROOT"); g != "" {
		return g
	}
	pk, err := packages.Load(&packages.Config{Mode: packages.NeedFiles, Dir: repoRoot()}, "internal/goarch")
	if err == nil && len(pk) == 1 && len(pk[0].GoFiles) > 0 {
		return filepath.Dir(filepath.Dir(filepath.Dir(filepath.Dir(pk[0].GoFiles[0]))))
	}
	return ""
}

var _ token.Pos

func init() {
	checks["C22"] = &checkDef{
		run:     func(ld *Loaded, r *Result) { nativeChecks(r) },
		explain: "Both packages are type-checked for every architecture of the installed toolchain, each with the files that its build constraints choose and with the byte order that internal/goarch gives it; the memory layout of a node is compared with that of the file. For each combination of files and byte order, byte views of nodes are followed from the stream to the conversion and to the writer, and the function that converts and the one that writes are interpreted on a byte slice of any length that is a multiple of eight: on little-endian architectures every byte keeps its place, on big-endian ones every byte stored is the mirrored byte of its word, every word is stored, and the tree's memory is not stored to when writing.",
		assume:  []string{"io.ReadFull fills the slice or fails; Write accepts everything or returns an error and does not modify or keep the slice it is given.", "The interpretation computes with 64-bit int; on 32-bit architectures the same source is type-checked and its layout compared."},
	}
}
