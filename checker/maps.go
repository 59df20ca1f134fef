package main

// Maps with constant keys, and constant folding of string formatting.

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// MapV is the contents of a map object. Open: entries besides the listed ones
// may exist (and the listed ones may be stale: then none are listed).
type MapV struct {
	T    *types.Map
	K, V []Val
	Open bool
	Ver  string
}

func (m *MapV) key() string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "M%v%s{", m.Open, m.Ver)
	for i := range m.K {
		sb.WriteString(valKey(m.K[i]) + ":" + valKey(m.V[i]) + ",")
	}
	return sb.String() + "}"
}

func (m *MapV) subst(s Subst) *MapV {
	n := &MapV{T: m.T, Open: m.Open, Ver: m.Ver}
	for i := range m.K {
		n.K = append(n.K, substVal(m.K[i], s))
		n.V = append(n.V, substVal(m.V[i], s))
	}
	return n
}

// keyEq: condition for two map keys (or strings) to be equal.
func (e *Engine) keyEq(st *State, a, b Val) Form {
	switch x := a.(type) {
	case IntV:
		if y, ok := b.(IntV); ok {
			return eqForm(x.L.sub(y.L))
		}
	case StrV:
		if y, ok := b.(StrV); ok && x.Known && y.Known {
			return bform(x.S == y.S)
		}
		if valKey(a) == valKey(b) {
			return bform(true)
		}
		return Form{k: 'a', a: freshAtom("streq", nil, nil)}
	case BoolV:
		if y, ok := b.(BoolV); ok && (x.F.k == 'T' || x.F.k == 'F') && (y.F.k == 'T' || y.F.k == 'F') {
			return bform(x.F.k == y.F.k)
		}
	}
	if valKey(a) == valKey(b) {
		return bform(true)
	}
	return e.eqVal(st, a, b)
}

func (e *Engine) mapObj(st *State, m Val) (PtrV, *MapV) {
	p, ok := m.(PtrV)
	if !ok {
		return PtrV{}, nil
	}
	v := st.loadPath(st.obj(p.Obj).val, p.Path)
	mv, _ := v.(*MapV)
	return p, mv
}

func (e *Engine) mapLookup(c *Conf, m, k Val, in *ssa.Lookup) []Out {
	res := func(st *State, v Val, ok Form) Out {
		if in.CommaOk {
			return Out{st: st, rets: []Val{TupV{v, BoolV{ok}}}}
		}
		return Out{st: st, rets: []Val{v}}
	}
	MT, _ := in.X.Type().Underlying().(*types.Map)
	if _, ok := m.(NilV); ok {
		return []Out{res(c.st, zeroVal(MT.Elem()), bform(false))}
	}
	_, mv := e.mapObj(c.st, m)
	if mv == nil {
		return one(c.st, freshVal(in.Type(), "maplookup"))
	}
	var r []Out
	st := c.st
	for i := len(mv.K) - 1; i >= 0 && st != nil; i-- {
		t, n := e.split(st, e.keyEq(st, mv.K[i], k))
		if t != nil {
			r = append(r, res(t, mv.V[i], bform(true)))
		}
		st = n
	}
	if st != nil {
		if mv.Open {
			r = append(r, one(st, freshVal(in.Type(), "maplookup"))...)
		} else {
			r = append(r, res(st, zeroVal(MT.Elem()), bform(false)))
		}
	}
	return r
}

func (e *Engine) mapUpdate(c *Conf, m, k, v Val, in ssa.Instruction) {
	p, mv := e.mapObj(c.st, m)
	if p.Obj == 0 {
		return
	}
	if e.storeHook != nil {
		e.storeHook(c.st, p, c.st.obj(p.Obj).val, v, e.pos(in))
	}
	if mv == nil {
		return
	}
	n := &MapV{T: mv.T, Open: mv.Open}
	for i := range mv.K {
		f := e.keyEq(c.st, mv.K[i], k)
		eq, known := c.st.formVal(f)
		if !known {
			symN++
			c.st.setObj(p.Obj, &MapV{T: mv.T, Open: true, Ver: fmt.Sprintf("#%d", symN)})
			return
		}
		if !eq {
			n.K, n.V = append(n.K, mv.K[i]), append(n.V, mv.V[i])
		}
	}
	n.K, n.V = append(n.K, k), append(n.V, v)
	if len(p.Path) == 0 {
		c.st.setObj(p.Obj, n)
	}
}

// goConst turns a constant abstract value into a Go value for folding.
func goConst(v Val) (interface{}, bool) {
	if iv, ok := v.(IfaceV); ok {
		if n, ok := iv.T.(*types.Named); ok && n.NumMethods() > 0 {
			return nil, false
		}
		v = iv.V
	}
	switch v := v.(type) {
	case IntV:
		if v.L.isConst() && v.L.c.IsInt64() {
			return v.L.c.Int64(), true
		}
	case StrV:
		if v.Known {
			return v.S, true
		}
	}
	return nil, false
}

func knownStr(s string) StrV { return StrV{Known: true, S: s, Len: linC(int64(len(s)))} }

// foldFormat folds a formatting call whose arguments are all constant.
func (e *Engine) foldFormat(st *State, args Val) ([]interface{}, bool) {
	sv, ok := args.(SliceV)
	if !ok || sv.Obj == 0 {
		return nil, true
	}
	if !sv.Len.isConst() {
		return nil, false
	}
	var r []interface{}
	for i := int64(0); i < sv.Len.c.Int64(); i++ {
		v := st.loadPath(st.obj(sv.Obj).val, appendSel(sv.Path, Sel{Field: -1, Idx: sv.Off.addC(i)}))
		x, ok := goConst(v)
		if !ok {
			return nil, false
		}
		r = append(r, x)
	}
	return r, true
}

func installStrings(e *Engine) {
	m := e.models
	m["fmt.Sprintf"] = func(e *Engine, c *callCtx) []Out {
		if f, ok := c.args[0].(StrV); ok && f.Known {
			if a, ok := e.foldFormat(c.st, c.args[1]); ok {
				return one(c.st, knownStr(fmt.Sprintf(f.S, a...)))
			}
		}
		return one(c.st, freshStr("sprintf"))
	}
	m["fmt.Sprint"] = func(e *Engine, c *callCtx) []Out {
		if a, ok := e.foldFormat(c.st, c.args[0]); ok {
			return one(c.st, knownStr(fmt.Sprint(a...)))
		}
		return one(c.st, freshStr("sprintf"))
	}
	intFmt := func(n string, f func(x int64, base int) string) {
		m[n] = func(e *Engine, c *callCtx) []Out {
			base := int64(10)
			if len(c.args) > 1 {
				b, ok := goConst(c.args[1])
				if !ok {
					return one(c.st, freshStr("itoa"))
				}
				base = b.(int64)
			}
			if x, ok := goConst(c.args[0]); ok && base >= 2 && base <= 36 {
				return one(c.st, knownStr(f(x.(int64), int(base))))
			}
			return one(c.st, freshStr("itoa"))
		}
	}
	intFmt("strconv.FormatInt", strconv.FormatInt)
	intFmt("strconv.FormatUint", func(x int64, b int) string { return strconv.FormatUint(uint64(x), b) })
	intFmt("strconv.Itoa", func(x int64, b int) string { return strconv.Itoa(int(x)) })
	for _, n := range []string{"strconv.Quote", "strings.ToLower", "strings.ToUpper", "strings.TrimSpace", "strings.Repeat"} {
		m[n] = func(e *Engine, c *callCtx) []Out { return one(c.st, freshStr("text")) }
	}
	// strings.Builder and bytes.Buffer used for text: contents unknown
	for _, recv := range []string{"(*strings.Builder).", "(*bytes.Buffer)."} {
		for _, n := range []string{"WriteString", "Write", "WriteByte", "WriteRune"} {
			n := n
			if recv == "(*bytes.Buffer)." && n == "Write" {
				continue
			}
			m[recv+n] = func(e *Engine, c *callCtx) []Out {
				if n == "WriteByte" {
					return one(c.st, NilV{})
				}
				return []Out{{st: c.st, rets: []Val{IntV{linA(freshAtom("bw", big0, lenHi)), true}, NilV{}}}}
			}
		}
		m[recv+"String"] = func(e *Engine, c *callCtx) []Out { return one(c.st, freshStr("text")) }
		m[recv+"Len"] = func(e *Engine, c *callCtx) []Out {
			return one(c.st, IntV{linA(freshAtom("blen", big0, lenHi)), true})
		}
		m[recv+"Grow"] = func(e *Engine, c *callCtx) []Out { return []Out{{st: c.st}} }
		m[recv+"Reset"] = func(e *Engine, c *callCtx) []Out { return []Out{{st: c.st}} }
	}
}
