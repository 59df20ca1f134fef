package main

// Model of the generated FlatBuffers accessors: a field value is a fixed
// function of the table (its buffer and position); any access may panic
// because the table may be corrupt. The accessors themselves are the subject
// of C20.

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var flatInline = map[string]bool{"Init": true, "Table": true}

func isFlatType(T types.Type) (string, bool) {
	if p, ok := T.(*types.Pointer); ok {
		T = p.Elem()
	}
	n, ok := T.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != flatPath {
		return "", false
	}
	return n.Obj().Name(), true
}

var flatTables = map[string]bool{"Header": true, "Feature": true, "Geometry": true, "Column": true, "Crs": true}

// tableOf returns the table struct behind a pointer to a flat type.
func (e *Engine) tableOf(st *State, p PtrV) Val {
	v := e.loadFrom(st, p)
	if s, ok := v.(StructV); ok && len(s.F) == 1 {
		return s.F[0]
	}
	return v
}

func tableKey(v Val) string {
	if s, ok := v.(StructV); ok && len(s.F) == 2 {
		if b, ok := s.F[0].(SliceV); ok {
			// the position and the buffer identify a table
			if b.Obj == 0 {
				return "nil@" + valKey(s.F[1])
			}
			return fmt.Sprintf("%d%s+%s@%s", b.Obj, pathKey(b.Path), b.Off.key(), valKey(s.F[1]))
		}
	}
	return valKey(v)
}

// tableID is the identity of a table: a table read from a stream is known by
// its place there.
func (e *Engine) tableID(st *State, v Val) string {
	if s, ok := v.(StructV); ok && len(s.F) == 2 {
		if b, ok := s.F[0].(SliceV); ok {
			if p, ok := e.imageOf(st, b); ok {
				return "image:" + p.key() + "@" + valKey(s.F[1])
			}
		}
	}
	return tableKey(v)
}

func flatPanicOut(st *State, c *callCtx, e *Engine, what string) Out {
	return Out{st: st, pan: &PanicInfo{kind: "flat", site: e.pos(c.site), fn: c.site.Parent().String(), msg: "corrupt table: " + what}}
}

// flatResult is a memoised field value.
func flatResult(T types.Type, name string, args []*Lin) Val {
	if _, ok := T.Underlying().(*types.Slice); ok {
		v := symVal(T, name, args).(SliceV)
		v.NilA = mkAtom("isnil", name, nil, nil, args...)
		return v
	}
	if strings.HasSuffix(strings.SplitN(name, "(", 2)[0], "Length") {
		a := mkAtom("in", name, big0, new(big.Int).Sub(pow2(32), big1), args...)
		return IntV{linA(a), true}
	}
	return symVal(T, name, args)
}

func installFlat(e *Engine) {
	e.prefixModels = append(e.prefixModels, prefixModel{"(*" + flatPath + ".", flatMethod})
	e.prefixModels = append(e.prefixModels, prefixModel{"(" + flatPath + ".", func(e *Engine, c *callCtx) []Out {
		if c.fn.Name() == "String" {
			return one(c.st, freshStr("enumname"))
		}
		return nil
	}})
	e.invokeOpq = func(e *Engine, c *callCtx, o OpqV, m string) ([]Out, bool) {
		if n, ok := o.T.(*types.Named); ok && n.Obj().Name() == "Schema" {
			id := valKey(o)
			return e.flatCall(c, "Schema."+m, id, c.sig, c.args, nil), true
		}
		return nil, false
	}
}

func flatMethod(e *Engine, c *callCtx) []Out {
	recv := c.fn.Signature.Recv()
	if recv == nil {
		return nil
	}
	tn, ok := isFlatType(recv.Type())
	if !ok || !flatTables[tn] || flatInline[c.fn.Name()] {
		return nil
	}
	name := c.fn.Name()
	if strings.HasPrefix(name, "Mutate") {
		panic(undecided("table mutation at " + e.pos(c.site)))
	}
	switch p := c.args[0].(type) {
	case NilV:
		return []Out{e.nilPanic(c.st, c.site, c.site.Parent())}
	case PtrV:
		if p.NilA != nil {
			t, n := e.split(c.st, Form{k: 'a', a: p.NilA})
			var r []Out
			if t != nil {
				r = append(r, e.nilPanic(t, c.site, c.site.Parent()))
			}
			if n != nil {
				c2 := *c
				c2.st = n
				p.NilA = nil
				c2.args = append([]Val{p}, c.args[1:]...)
				r = append(r, flatMethod(e, &c2)...)
			}
			return r
		}
		tab := e.tableOf(c.st, p)
		return e.flatCall(c, tn+"."+name, e.tableID(c.st, tab), c.fn.Signature, c.args[1:], tab)
	}
	panic(undecided(fmt.Sprintf("table accessor on %T at %s", c.args[0], e.pos(c.site))))
}

// flatCall: the accessor name applied to the table id.
func (e *Engine) flatCall(c *callCtx, name, id string, sig *types.Signature, args []Val, tab Val) []Out {
	st := c.st
	e.sites["table access"]++
	var la []*Lin
	var obj Val
	var objT types.Type
	for i := 0; i < sig.Params().Len(); i++ {
		T := sig.Params().At(i).Type()
		if _, ok := isFlatType(T); ok {
			if _, isPtr := T.(*types.Pointer); isPtr {
				obj, objT = args[i], T.(*types.Pointer).Elem()
				continue
			}
		}
		if iv, ok := args[i].(IntV); ok {
			la = append(la, iv.L)
		} else {
			panic(undecided("argument of table accessor " + name))
		}
	}
	full := name + "(" + id + ")"
	var r []Out
	bad, st := e.split(st, Form{k: 'a', a: mkAtom("in", "corrupt:"+full, nil, nil, la...)})
	if bad != nil {
		r = append(r, flatPanicOut(bad, c, e, name))
	}
	if st == nil {
		return r
	}
	fill := func(st *State, p PtrV) {
		var bytes Val = symVal(types.NewSlice(byteT), "buf:"+full, la)
		if s, ok := tab.(StructV); ok && len(s.F) == 2 {
			bytes = s.F[0]
		}
		pos := mkAtom("in", "pos:"+full, big0, new(big.Int).Sub(pow2(32), big1), la...)
		e.storeTo(st, p, StructV{[]Val{StructV{[]Val{bytes, IntV{linA(pos), true}}}}}, e.pos(c.site))
		e.emit(st, &Event{Kind: "table", Name: name, Args: append([]Val{p}, args...), Site: e.pos(c.site), Outcome: id, Recv: c.args[0]})
	}
	res := sig.Results()
	if obj == nil {
		if res.Len() != 1 {
			panic(undecided("table accessor " + name))
		}
		v := flatResult(res.At(0).Type(), full, la)
		e.emit(st, &Event{Kind: "field", Name: name, Args: append([]Val{v}, args...), Site: e.pos(c.site), Outcome: id})
		return append(r, Out{st: st, rets: []Val{v}})
	}
	// accessors that fill a caller-provided object
	has, no := e.split(st, Form{k: 'a', a: mkAtom("in", "has:"+full, nil, nil, la...)})
	isBool := isBool(res.At(0).Type())
	if no != nil {
		var v Val = NilV{}
		if isBool {
			v = BoolV{bform(false)}
		}
		e.emit(no, &Event{Kind: "notable", Name: name, Args: args, Site: e.pos(c.site), Outcome: id, Recv: c.args[0]})
		r = append(r, Out{st: no, rets: []Val{v}})
	}
	if has != nil {
		p, ok := obj.(PtrV)
		if !ok || p.NilA != nil {
			if isBool || ok {
				return append(r, flatPanicOut(has, c, e, name+" with nil object"))
			}
			p = PtrV{Obj: has.alloc(objT, zeroVal(objT), "alloc", e.pos(c.site))}
		}
		fill(has, p)
		var v Val = p
		if isBool {
			v = BoolV{bform(true)}
		}
		r = append(r, Out{st: has, rets: []Val{v}})
	}
	return r
}

var _ *ssa.Function
