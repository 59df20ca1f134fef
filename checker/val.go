package main

// Abstract values, heap objects and states.

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Val interface{}

// IntV is an integer. Ar tells whether it results from a computation (as
// opposed to a literal constant of the program).
type IntV struct {
	L  *Lin
	Ar bool
}
type formKind byte

// Form is a boolean: constant, linear atom, or opaque atom.
type Form struct {
	k formKind // 'T','F','<' (l<=0), '=' (l==0), '!' (l!=0), 'a' (atom), 'n' (not atom)
	l *Lin
	a *Atom
}
type BoolV struct{ F Form }
type FloatV struct{ A *Atom }
type StrV struct {
	Known bool
	S     string
	A     *Atom
	Len   *Lin
	Src   *SliceV // unsafe.String source
	SrcSt *State
}
type NilV struct{}
type Sel struct {
	Field int // >= 0: struct field; -1: array index
	Idx   *Lin
}
type PtrV struct {
	Obj  int
	Path []Sel
	NilA *Atom
	Conv bool // unsafe-converted view; see ByteView
}
type SliceV struct {
	Obj           int // 0: nil slice
	Path          []Sel
	Off, Len, Cap *Lin
	NilA          *Atom
	View          int // >0: unsafe byte view of elements of View bytes each; Off/Len/Cap in bytes
}
type IfaceV struct {
	T types.Type
	V Val
}
type Err struct {
	id     int
	kind   string // global, new, errorf, stream, opaque, joined, nilable
	name   string
	wraps  []Val
	site   string
	exact  bool // definitely distinct from every global sentinel
	notEOF bool
}
type ErrV struct{ E *Err }
type StreamV struct{ ID string }
type OpqV struct {
	T    types.Type
	A    *Atom
	NilA *Atom
	Info string
}
type FuncV struct {
	Fn *ssa.Function
	B  []Val
}
type TupV []Val
type StructV struct{ F []Val }

type entKind byte

type ent struct {
	k      byte // 'p' point, 's' segment copy, 'r' stream segment, 'f' forall
	lo, hi *Lin // point: lo = index
	v      Val
	src    *Arr
	off    *Lin
	stream string
	bv     *Atom
}
type Arr struct {
	Elem   types.Type
	N      *Lin
	Zero   bool
	Ver    string
	VArgs  []*Lin
	ents   []ent
	Sorted string // identity of the permutation if sorted by Offset
	k      string
}

type Obj struct {
	id    int
	T     types.Type
	val   Val
	tag   string // alloc, param, lazy, global
	site  string
	fresh bool // allocated by analysed code during the current API call
}

type State struct {
	heap   map[int]*Obj
	facts  Facts
	ghost  map[string]Val
	trace  *Trace
	dead   bool
	guards Facts // comparisons passed that the facts already decided
}
type Trace struct {
	up   *Trace
	what string
	n    int
}

func (st *State) note(format string, a ...interface{}) {
	n := 1
	if st.trace != nil {
		n = st.trace.n + 1
	}
	st.trace = &Trace{st.trace, fmt.Sprintf(format, a...), n}
}
func (st *State) traceLines(max int) []string {
	var r []string
	for t := st.trace; t != nil && len(r) < max; t = t.up {
		r = append(r, t.what)
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

func newState() *State {
	return &State{heap: map[int]*Obj{}, ghost: map[string]Val{}}
}
func (st *State) clone() *State {
	n := &State{heap: make(map[int]*Obj, len(st.heap)+4), facts: st.facts[:len(st.facts):len(st.facts)], ghost: make(map[string]Val, len(st.ghost)), trace: st.trace, guards: st.guards[:len(st.guards):len(st.guards)]}
	for k, v := range st.heap {
		n.heap[k] = v
	}
	for k, v := range st.ghost {
		n.ghost[k] = v
	}
	return n
}

var objN int

func (st *State) alloc(T types.Type, v Val, tag, site string) int {
	objN++
	st.heap[objN] = &Obj{id: objN, T: T, val: v, tag: tag, site: site, fresh: true}
	return objN
}

type lazyRec struct {
	id   int
	T    types.Type
	name string
	args []*Lin
	n    *Lin // for arrays: length (nil = unknown)
	tag  string
}

var lazyByKey = map[string]*lazyRec{}
var lazyByID = map[int]*lazyRec{}

func lazyObj(T types.Type, name string, args []*Lin, tag string) int {
	var sb strings.Builder
	sb.WriteString(T.String() + "|" + name)
	for _, a := range args {
		sb.WriteString("," + a.key())
	}
	k := sb.String()
	if r, ok := lazyByKey[k]; ok {
		return r.id
	}
	objN++
	r := &lazyRec{id: objN, T: T, name: name, args: args, tag: tag}
	lazyByKey[k] = r
	lazyByID[objN] = r
	return objN
}

// initObjs: the package-level objects (object ids are unique in the process).
var initObjs = map[int]*Obj{}

func (st *State) obj(id int) *Obj {
	if o, ok := st.heap[id]; ok {
		return o
	}
	r, ok := lazyByID[id]
	if !ok {
		// a package-level object that this path has not touched yet has its
		// initial value
		if o, ok := initObjs[id]; ok {
			st.heap[id] = o
			return o
		}
		panic(undecided(fmt.Sprintf("reference to unknown object %d", id)))
	}
	o := &Obj{id: id, T: r.T, val: lazyVal(r), tag: r.tag, site: r.name}
	st.heap[id] = o
	return o
}
func lazyVal(r *lazyRec) Val {
	if at, ok := r.T.(*types.Array); ok && at.Len() < 0 {
		return &Arr{Elem: at.Elem(), Ver: r.name, VArgs: r.args}
	}
	return symVal(r.T, r.name, r.args)
}
func (st *State) setObj(id int, v Val) {
	o := *st.obj(id)
	o.val = v
	st.heap[id] = &o
}

// unboundedArr is the type of a slice backing array of unknown length.
func unboundedArr(elem types.Type) types.Type { return types.NewArray(elem, -1) }

type intType struct {
	bits   int
	signed bool
}

func intTypeOf(t types.Type) (intType, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return intType{}, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return intType{64, true}, true
	case types.Int8:
		return intType{8, true}, true
	case types.Int16:
		return intType{16, true}, true
	case types.Int32, types.UntypedRune:
		return intType{32, true}, true
	case types.Uint, types.Uint64, types.Uintptr:
		return intType{64, false}, true
	case types.Uint8:
		return intType{8, false}, true
	case types.Uint16:
		return intType{16, false}, true
	case types.Uint32:
		return intType{32, false}, true
	}
	return intType{}, false
}
func (it intType) rng() (lo, hi *big.Int) {
	if it.signed {
		return new(big.Int).Neg(pow2(it.bits - 1)), new(big.Int).Sub(pow2(it.bits-1), big1)
	}
	return big.NewInt(0), new(big.Int).Sub(pow2(it.bits), big1)
}
func (it intType) String() string {
	if it.signed {
		return fmt.Sprintf("s%d", it.bits)
	}
	return fmt.Sprintf("u%d", it.bits)
}
func typeRange(t types.Type) (lo, hi *big.Int) {
	if it, ok := intTypeOf(t); ok {
		return it.rng()
	}
	return nil, nil
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

var lenHi = new(big.Int).Sub(pow2(48), big1) // no slice is longer than 2^48 bytes

func lenAtom(name string, args []*Lin) *Atom { return mkAtom("len", name, big0, lenHi, args...) }

// symVal makes a symbolic value of type T, a pure function of (name, args).
func symVal(T types.Type, name string, args []*Lin) Val {
	if it, ok := intTypeOf(T); ok {
		lo, hi := it.rng()
		a := mkAtom("in", name, lo, hi, args...)
		a.bits = it.bits
		return IntV{linA(a), true}
	}
	switch {
	case isBool(T):
		return BoolV{Form{k: 'a', a: mkAtom("in", name, nil, nil, args...)}}
	case isFloat(T):
		a := mkAtom("in", name, nil, nil, args...)
		a.bits = floatBits(T)
		return FloatV{a}
	case isString(T):
		return StrV{A: mkAtom("in", name, nil, nil, args...), Len: linA(lenAtom(name, args))}
	}
	switch u := T.Underlying().(type) {
	case *types.Pointer:
		return PtrV{Obj: lazyObj(u.Elem(), name+".*", args, "lazy")}
	case *types.Slice:
		n := linA(lenAtom(name, args))
		capA := mkAtom("cap", name, big0, lenHi, args...)
		return SliceV{Obj: lazyObj(unboundedArr(u.Elem()), name+".[]", args, "lazy"), Off: linZero, Len: n, Cap: linA(capA)}
	case *types.Struct:
		s := StructV{}
		for i := 0; i < u.NumFields(); i++ {
			s.F = append(s.F, symVal(u.Field(i).Type(), fmt.Sprintf("%s.%s", name, u.Field(i).Name()), args))
		}
		return s
	case *types.Array:
		return &Arr{Elem: u.Elem(), N: linC(u.Len()), Ver: name, VArgs: args}
	case *types.Interface:
		o := OpqV{T: T, A: mkAtom("in", name, nil, nil, args...)}
		if isErrorType(T) {
			o.NilA = mkAtom("isnil", name, nil, nil, args...)
		}
		return o
	case *types.Tuple:
		var tv TupV
		for i := 0; i < u.Len(); i++ {
			tv = append(tv, symVal(u.At(i).Type(), fmt.Sprintf("%s.%d", name, i), args))
		}
		return tv
	}
	return OpqV{T: T, A: mkAtom("in", name, nil, nil, args...)}
}

func freshVal(T types.Type, name string) Val {
	symN++
	return symVal(T, fmt.Sprintf("%s#%d", name, symN), nil)
}

func floatBits(T types.Type) int {
	if b, ok := T.Underlying().(*types.Basic); ok && b.Kind() == types.Float32 {
		return 32
	}
	return 64
}

func zeroVal(T types.Type) Val {
	if _, ok := intTypeOf(T); ok {
		return IntV{linZero, false}
	}
	switch {
	case isBool(T):
		return BoolV{Form{k: 'F'}}
	case isFloat(T):
		return FloatV{fconst(constant.MakeInt64(0), floatBits(T))}
	case isString(T):
		return StrV{Known: true, Len: linZero}
	}
	switch u := T.Underlying().(type) {
	case *types.Slice:
		return SliceV{Off: linZero, Len: linZero, Cap: linZero}
	case *types.Struct:
		s := StructV{}
		for i := 0; i < u.NumFields(); i++ {
			s.F = append(s.F, zeroVal(u.Field(i).Type()))
		}
		return s
	case *types.Array:
		return &Arr{Elem: u.Elem(), N: linC(u.Len()), Zero: true}
	case *types.Tuple:
		var tv TupV
		for i := 0; i < u.Len(); i++ {
			tv = append(tv, zeroVal(u.At(i).Type()))
		}
		return tv
	}
	return NilV{}
}

func fconst(c constant.Value, bits int) *Atom {
	a := mkAtom("fconst", c.ExactString(), nil, nil)
	a.bits = 64
	_ = bits
	return a
}

func pathKey(p []Sel) string {
	var sb strings.Builder
	for _, s := range p {
		if s.Field >= 0 {
			fmt.Fprintf(&sb, ".%d", s.Field)
		} else {
			sb.WriteString("[" + s.Idx.key() + "]")
		}
	}
	return sb.String()
}
func atomKey(a *Atom) string {
	if a == nil {
		return ""
	}
	return fmt.Sprintf("~%d", a.id)
}

func (f Form) key() string {
	switch f.k {
	case 'T', 'F':
		return string(f.k)
	case 'a', 'n':
		return fmt.Sprintf("%c%d", f.k, f.a.id)
	}
	return string(f.k) + f.l.key()
}
func (f Form) String() string {
	switch f.k {
	case 'T':
		return "true"
	case 'F':
		return "false"
	case 'a':
		return f.a.String()
	case 'n':
		return "!" + f.a.String()
	case '<':
		return f.l.String() + " <= 0"
	case '=':
		return f.l.String() + " == 0"
	}
	return f.l.String() + " != 0"
}
func (f Form) not() Form {
	switch f.k {
	case 'T':
		return Form{k: 'F'}
	case 'F':
		return Form{k: 'T'}
	case 'a':
		return Form{k: 'n', a: f.a}
	case 'n':
		return Form{k: 'a', a: f.a}
	case '<':
		return Form{k: '<', l: f.l.neg().addC(1)}
	case '=':
		return Form{k: '!', l: f.l}
	}
	return Form{k: '=', l: f.l}
}
func bform(b bool) Form {
	if b {
		return Form{k: 'T'}
	}
	return Form{k: 'F'}
}
func leForm(l *Lin) Form {
	l = normLE(l)
	if l.isConst() {
		return bform(l.c.Sign() <= 0)
	}
	if _, hi := rangeOf(l); hi != nil && hi.Sign() <= 0 {
		return bform(true)
	}
	if lo, _ := rangeOf(l); lo != nil && lo.Sign() > 0 {
		return bform(false)
	}
	return Form{k: '<', l: l}
}
func eqForm(l *Lin) Form {
	if l.isConst() {
		return bform(l.c.Sign() == 0)
	}
	lo, hi := rangeOf(l)
	if (lo != nil && lo.Sign() > 0) || (hi != nil && hi.Sign() < 0) {
		return bform(false)
	}
	return Form{k: '=', l: l}
}

func (a *Arr) key() string {
	if a.k == "" {
		var sb strings.Builder
		fmt.Fprintf(&sb, "A%s:z%v:%s", a.Elem, a.Zero, a.Ver)
		if a.N != nil {
			sb.WriteString(":" + a.N.key())
		}
		for _, x := range a.VArgs {
			sb.WriteString("," + x.key())
		}
		for _, e := range a.ents {
			sb.WriteString("{" + e.key() + "}")
		}
		sb.WriteString(a.Sorted)
		a.k = sb.String()
	}
	return a.k
}
func (e *ent) key() string {
	s := string(e.k) + e.lo.key()
	if e.hi != nil {
		s += ".." + e.hi.key()
	}
	switch e.k {
	case 'p':
		s += "=" + valKey(e.v)
	case 's':
		s += "<" + e.src.key() + "@" + e.off.key()
	case 'r':
		s += "<" + e.stream + "@" + e.off.key()
	case 'f':
		s += fmt.Sprintf("\\%d=", e.bv.id) + valKey(e.v)
	}
	return s
}

func valKey(v Val) string {
	switch v := v.(type) {
	case nil:
		return "_"
	case IntV:
		return "i" + v.L.key()
	case BoolV:
		return "b" + v.F.key()
	case FloatV:
		return fmt.Sprintf("f%d", v.A.id)
	case StrV:
		if v.Known {
			return "s" + fmt.Sprintf("%q", v.S)
		}
		if v.A == nil {
			return "s?" + valKey(*v.Src)
		}
		return fmt.Sprintf("s@%d", v.A.id)
	case NilV:
		return "nil"
	case PtrV:
		return fmt.Sprintf("p%d%s%s", v.Obj, pathKey(v.Path), atomKey(v.NilA))
	case SliceV:
		if v.Obj == 0 {
			return "S0"
		}
		return fmt.Sprintf("S%d%s:%s:%s:%s%s/%d", v.Obj, pathKey(v.Path), v.Off.key(), v.Len.key(), v.Cap.key(), atomKey(v.NilA), v.View)
	case IfaceV:
		return "I(" + v.T.String() + ")" + valKey(v.V)
	case ErrV:
		return fmt.Sprintf("E%d", v.E.id)
	case StreamV:
		return "R" + v.ID
	case OpqV:
		return fmt.Sprintf("o%d%s", v.A.id, atomKey(v.NilA))
	case FuncV:
		s := "F" + v.Fn.String()
		for _, b := range v.B {
			s += "," + valKey(b)
		}
		return s
	case TupV:
		s := "T("
		for _, b := range v {
			s += valKey(b) + ","
		}
		return s + ")"
	case StructV:
		s := "{"
		for _, b := range v.F {
			s += valKey(b) + ","
		}
		return s + "}"
	case *Arr:
		return v.key()
	case *MapV:
		return v.key()
	}
	panic(fmt.Sprintf("valKey %T", v))
}

func substPath(p []Sel, s Subst) []Sel {
	for i := range p {
		if p[i].Idx != nil {
			n := p[i].Idx.subst(s)
			if n != p[i].Idx {
				q := append([]Sel{}, p...)
				for j := i; j < len(q); j++ {
					if q[j].Idx != nil {
						q[j].Idx = q[j].Idx.subst(s)
					}
				}
				return q
			}
		}
	}
	return p
}
func substAtom(a *Atom, s Subst) *Atom {
	if a == nil || !a.touches(s) {
		return a
	}
	if x := a.subst(s).singleAtom(); x != nil {
		return x
	}
	return a
}

func (f Form) subst(s Subst) Form {
	switch f.k {
	case 'a', 'n':
		return Form{k: f.k, a: substAtom(f.a, s)}
	case '<':
		return leForm(f.l.subst(s))
	case '=':
		return eqForm(f.l.subst(s))
	case '!':
		return eqForm(f.l.subst(s)).not()
	}
	return f
}

func substVal(v Val, s Subst) Val {
	if len(s) == 0 {
		return v
	}
	switch v := v.(type) {
	case IntV:
		return IntV{v.L.subst(s), v.Ar}
	case BoolV:
		return BoolV{v.F.subst(s)}
	case FloatV:
		return FloatV{substAtom(v.A, s)}
	case StrV:
		if !v.Known && v.A != nil {
			v.A = substAtom(v.A, s)
			v.Len = v.Len.subst(s)
		}
		return v
	case PtrV:
		v.Path = substPath(v.Path, s)
		v.NilA = substAtom(v.NilA, s)
		v.Obj = substObj(v.Obj, s)
		return v
	case SliceV:
		if v.Obj == 0 {
			return v
		}
		v.Obj = substObj(v.Obj, s)
		v.Path = substPath(v.Path, s)
		v.Off, v.Len, v.Cap = v.Off.subst(s), v.Len.subst(s), v.Cap.subst(s)
		v.NilA = substAtom(v.NilA, s)
		return v
	case IfaceV:
		return IfaceV{v.T, substVal(v.V, s)}
	case OpqV:
		v.A, v.NilA = substAtom(v.A, s), substAtom(v.NilA, s)
		return v
	case FuncV:
		b := make([]Val, len(v.B))
		for i := range b {
			b[i] = substVal(v.B[i], s)
		}
		return FuncV{v.Fn, b}
	case TupV:
		b := make(TupV, len(v))
		for i := range b {
			b[i] = substVal(v[i], s)
		}
		return b
	case StructV:
		b := make([]Val, len(v.F))
		for i := range b {
			b[i] = substVal(v.F[i], s)
		}
		return StructV{b}
	case *Arr:
		return v.subst(s)
	case *MapV:
		return v.subst(s)
	}
	return v
}

// substObj maps a lazily created object that depends on substituted atoms.
func substObj(id int, s Subst) int {
	r, ok := lazyByID[id]
	if !ok || len(r.args) == 0 {
		return id
	}
	ch := false
	args := make([]*Lin, len(r.args))
	for i, a := range r.args {
		args[i] = a.subst(s)
		if args[i] != a {
			ch = true
		}
	}
	if !ch {
		return id
	}
	return lazyObj(r.T, r.name, args, r.tag)
}

func (a *Arr) subst(s Subst) *Arr {
	n := &Arr{Elem: a.Elem, N: a.N, Zero: a.Zero, Ver: a.Ver, Sorted: a.Sorted}
	if a.N != nil {
		n.N = a.N.subst(s)
	}
	for _, x := range a.VArgs {
		n.VArgs = append(n.VArgs, x.subst(s))
	}
	for _, e := range a.ents {
		e.lo = e.lo.subst(s)
		if e.hi != nil {
			e.hi = e.hi.subst(s)
		}
		if e.off != nil {
			e.off = e.off.subst(s)
		}
		if e.src != nil {
			e.src = e.src.subst(s)
		}
		e.v = substVal(e.v, s)
		n.ents = append(n.ents, e)
	}
	if n.key() == a.key() {
		return a
	}
	return n
}

// ---- array access ----

func (a *Arr) with(e ent) *Arr {
	n := &Arr{Elem: a.Elem, N: a.N, Zero: a.Zero, Ver: a.Ver, VArgs: a.VArgs}
	n.ents = append(a.ents[:len(a.ents):len(a.ents)], e)
	return n
}

func isByteElem(t types.Type) bool {
	it, ok := intTypeOf(t)
	return ok && it.bits == 8
}

// arrLoad reads element idx.
func (st *State) arrLoad(a *Arr, idx *Lin) Val {
	for i := len(a.ents) - 1; i >= 0; i-- {
		e := &a.ents[i]
		switch e.k {
		case 'p':
			d := idx.sub(e.lo)
			if d.isConst() {
				if d.c.Sign() == 0 {
					return e.v
				}
				continue
			}
			if st.facts.entailsEQ(d) {
				return e.v
			}
			if st.facts.entailsNE(d) {
				continue
			}
			return st.unkElem(a, idx, i)
		default:
			below := idx.sub(e.lo).addC(1) // idx < lo
			above := e.hi.sub(idx)         // hi <= idx
			if st.facts.entailsLE(below) || st.facts.entailsLE(above) {
				continue
			}
			if st.facts.entailsLE(e.lo.sub(idx)) && st.facts.entailsLE(idx.sub(e.hi).addC(1)) {
				switch e.k {
				case 's':
					return st.arrLoad(e.src, idx.sub(e.lo).add(e.off))
				case 'r':
					return IntV{linA(streamByte(e.stream, idx.sub(e.lo).add(e.off))), true}
				case 'f':
					return substVal(e.v, Subst{e.bv: idx})
				}
			}
			return st.unkElem(a, idx, i)
		}
	}
	if a.Zero {
		return zeroVal(a.Elem)
	}
	return symVal(a.Elem, "el:"+a.Ver, append(append([]*Lin{}, a.VArgs...), idx))
}

// unkElem is an element that may or may not be covered by ent i.
func (st *State) unkElem(a *Arr, idx *Lin, i int) Val {
	return freshVal(a.Elem, "maybe")
}

func streamByte(id string, pos *Lin) *Atom {
	a := mkAtom("sb", id, big0, big.NewInt(255), pos)
	a.bits = 8
	return a
}

// coarse: arrays of such elements are forgotten when stored to.
var coarse func(T types.Type) bool

func (st *State) arrStore(a *Arr, idx *Lin, v Val) *Arr {
	if coarse != nil && coarse(a.Elem) && (a.N == nil || !a.N.isConst() || a.N.c.Cmp(big1) > 0) {
		symN++
		return &Arr{Elem: a.Elem, N: a.N, Ver: fmt.Sprintf("coarse#%d", symN)}
	}
	// Replace a previous point entry for the same index if nothing between
	// can alias.
	ents := a.ents
	for i := len(ents) - 1; i >= 0; i-- {
		e := &ents[i]
		if e.k != 'p' {
			break
		}
		d := idx.sub(e.lo)
		if d.isConst() && d.c.Sign() == 0 {
			n := &Arr{Elem: a.Elem, N: a.N, Zero: a.Zero, Ver: a.Ver, VArgs: a.VArgs}
			n.ents = append([]ent{}, ents...)
			n.ents[i].v = v
			return n
		}
		if !d.isConst() {
			break
		}
	}
	return a.with(ent{k: 'p', lo: idx, v: v})
}

// loadPath and storePath navigate a value tree.
func (st *State) loadPath(v Val, p []Sel) Val {
	for _, s := range p {
		if s.Field >= 0 {
			sv, ok := v.(StructV)
			if !ok {
				panic(undecided(fmt.Sprintf("field access into %T", v)))
			}
			v = sv.F[s.Field]
		} else {
			a, ok := v.(*Arr)
			if !ok {
				panic(undecided(fmt.Sprintf("index into %T", v)))
			}
			v = st.arrLoad(a, s.Idx)
		}
	}
	return v
}
func (st *State) storePath(v Val, p []Sel, x Val) Val {
	if len(p) == 0 {
		return x
	}
	s := p[0]
	if s.Field >= 0 {
		sv, ok := v.(StructV)
		if !ok {
			panic(undecided(fmt.Sprintf("field store into %T", v)))
		}
		n := StructV{append([]Val{}, sv.F...)}
		n.F[s.Field] = st.storePath(sv.F[s.Field], p[1:], x)
		return n
	}
	a, ok := v.(*Arr)
	if !ok {
		panic(undecided(fmt.Sprintf("index store into %T", v)))
	}
	if len(p) == 1 {
		return st.arrStore(a, s.Idx, x)
	}
	return st.arrStore(a, s.Idx, st.storePath(st.arrLoad(a, s.Idx), p[1:], x))
}

func appendSel(p []Sel, s ...Sel) []Sel {
	return append(p[:len(p):len(p)], s...)
}

// ---- undecided control flow ----

type undecidedErr struct{ msg string }

func undecided(msg string) undecidedErr { return undecidedErr{msg} }
