package main

// C23: the magic number gate.

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
)

// constOf returns the value of an exported integer constant.
func (ld *Loaded) constOf(path, name string) *big.Int {
	p := ld.byPath[path]
	if p == nil || p.Types == nil {
		return nil
	}
	c, ok := p.Types.Scope().Lookup(name).(*types.Const)
	if !ok {
		return nil
	}
	v, ok := constant.Val(constant.ToInt(c.Val())).(*big.Int)
	if ok {
		return v
	}
	i, ok := constant.Int64Val(constant.ToInt(c.Val()))
	if !ok {
		return nil
	}
	return big.NewInt(i)
}

var fgbMagic = []int64{'f', 'g', 'b', -1, 'f', 'g', 'b', -1}

// magicForms are the conditions on the first eight bytes at p0.
func magicForms(p0 *Lin) (fs []Form, major, patch *Lin) {
	for i, b := range fgbMagic {
		x := linA(streamByte("in", p0.addC(int64(i))))
		if b >= 0 {
			fs = append(fs, eqForm(x.addC(-b)))
		}
	}
	return fs, linA(streamByte("in", p0.addC(3))), linA(streamByte("in", p0.addC(7)))
}

func (st *State) allTrue(fs []Form) bool {
	s := st.clone()
	s.tighten(fs)
	for _, f := range fs {
		if v, known := s.formVal(f); !known || !v {
			return false
		}
	}
	return true
}

// refutes: assuming all of fs contradicts st.
func (st *State) refutes(fs []Form) bool {
	s := st.clone()
	for _, f := range fs {
		v, known := s.formVal(f)
		if known && !v {
			return true
		}
		s.assume(f)
	}
	if s.tighten(fs) {
		for _, x := range s.facts {
			if x.k == fNE && s.facts.entailsEQ(x.l) || x.k != fNE && x.k != fBool && s.facts.entailsLE(x.l.neg().addC(1)) {
				return true
			}
			if x.k == fEQ && s.facts.entailsLE(x.l.addC(1)) {
				return true
			}
		}
	}
	return false
}

// tighten adds wrap(x) = x for the reductions of numbers that are known to be
// in range.
func (st *State) tighten(fs []Form) bool {
	any := false
	for pass := 0; pass < 3; pass++ {
		wraps := map[*Atom]bool{}
		add := func(l *Lin) {
			if l == nil {
				return
			}
			for a := range l.deps() {
				if a.kind == "wrap" && a.lo != nil && len(a.args) == 1 {
					wraps[a] = true
				}
			}
		}
		for _, f := range fs {
			add(f.l)
		}
		for _, x := range st.facts {
			if x.k != fBool {
				add(x.l)
			}
		}
		ch := false
		for _, a := range sortedAtoms(wraps) {
			d := linA(a).sub(a.args[0])
			if st.facts.entailsEQ(d) {
				continue
			}
			if st.facts.entailsLE(a.args[0].sub(linB(a.hi))) && st.facts.entailsLE(linB(a.lo).sub(a.args[0])) {
				st.assume(eqForm(d))
				ch, any = true, true
			}
		}
		if !ch {
			break
		}
	}
	return any
}

func magicChecks(ld *Loaded, r *Result, e *Engine) {
	e.ev = func(st *State, ev *Event) {
		if ev.Kind == "read" && ev.Outcome != "ok" && ev.Outcome != "some" {
			st.ghost["ioerr"] = ev.Err
		}
	}
	lo, hi := ld.constOf(fgbPath, "MinSpecMajorVersion"), ld.constOf(fgbPath, "MaxSpecMajorVersion")
	fn := ld.fn(fgbPath, "Magic")
	if fn == nil || lo == nil || hi == nil {
		r.violate("missing|Magic", "", "Magic or the version limits not found")
		return
	}
	if lo.Cmp(big.NewInt(3)) != 0 || hi.Cmp(lo) < 0 {
		r.violate("range|versions", "", fmt.Sprintf("the supported major versions are %s..%s, expected to start at 3", lo, hi))
	}
	st := e.entry()
	in := e.newStream("in", map[string]*Atom{"Read": nil})
	p0 := e.cursor(st, "in")
	fs, major, patch := magicForms(p0)
	site := ld.position(fn.Pos(), nil)
	for _, o := range e.callEntry(fn, st, in) {
		r.count("Magic outcome", 1)
		if o.pan != nil {
			r.violate("panic|Magic", o.pan.site, "Magic panics: "+o.pan.msg)
			continue
		}
		es := errState(o.st, o.rets[1])
		if _, failed := o.st.ghost["ioerr"]; failed {
			if es != 1 {
				r.violate("swallow|Magic", site, "Magic reports success although the stream failed")
			}
			continue
		}
		if u := e.cursor(o.st, "in").sub(p0); !o.st.facts.entailsEQ(u.addC(-8)) {
			r.violate("consumed|Magic", site, "Magic consumes "+u.String()+" bytes", o.st.traceLines(20)...)
		}
		r.count("magic obligation", 1)
		if es == 0 {
			if !o.st.allTrue(fs) {
				r.violate("accepts|Magic", site, "Magic succeeds without bytes 1-3 and 5-7 being \"fgb\"", o.st.traceLines(20)...)
			}
			sv, ok := o.rets[0].(StructV)
			mi, pi := fieldIndex(fn.Signature.Results().At(0).Type(), "Major"), fieldIndex(fn.Signature.Results().At(0).Type(), "Patch")
			if !ok || mi < 0 || pi < 0 || !o.st.linEq(sv.F[mi].(IntV).L, major) || !o.st.linEq(sv.F[pi].(IntV).L, patch) {
				r.violate("version|Magic", site, "Magic does not return byte 4 as major and byte 8 as patch version")
			}
		} else if es == 1 {
			if !o.st.refutes(fs) {
				r.violate("rejects|Magic", site, "Magic can refuse a valid magic number", o.st.traceLines(20)...)
			}
		} else {
			r.violate("unknown|Magic", site, "error result of Magic not determined")
		}
	}

	// FileReader.Header
	fn = ld.method(fgbPath, "FileReader", "Header")
	ctor := ld.fn(fgbPath, "NewFileReader")
	if fn == nil || ctor == nil {
		r.violate("missing|FileReader.Header", "", "FileReader.Header or NewFileReader not found")
		return
	}
	st = e.entry()
	in = e.newStream("in", map[string]*Atom{"Read": nil})
	recv, st := e.newObjVia(r, st, ctor, in)
	st.ghost = map[string]Val{}
	p0 = e.cursor(st, "in")
	inRange := []Form{leForm(linB(lo).sub(major)), leForm(major.sub(linB(hi)))}
	e.ev = func(st *State, ev *Event) {
		if ev.Kind == "read" && ev.Outcome != "ok" && ev.Outcome != "some" {
			st.ghost["ioerr"] = ev.Err
		}
		if ev.Kind != "read" {
			return
		}
		if st.facts.entailsLE(ev.Pos.add(ev.Want).sub(p0).addC(-8)) {
			return
		}
		r.count("read beyond the magic number", 1)
		if !st.allTrue(fs) || !st.allTrue(inRange) {
			r.violate("gate|FileReader.Header", ev.Site, "Header reads beyond the magic number although it may be invalid or of an unsupported major version", st.traceLines(20)...)
		}
	}
	for _, o := range e.callEntry(fn, st, recv) {
		r.count("Header outcome", 1)
		if o.pan != nil {
			continue
		}
		used := e.cursor(o.st, "in").sub(p0)
		_, failed := o.st.ghost["ioerr"]
		if !failed && o.st.facts.entailsLE(used.addC(-8)) {
			r.count("magic obligation", 1)
			if !o.st.refutes(append(append([]Form{}, fs...), inRange...)) {
				r.violate("rejects|FileReader.Header", e.ld.position(fn.Pos(), nil), "Header can refuse a valid and supported magic number", o.st.traceLines(20)...)
			}
		}
	}

	// the magic number FileWriter writes
	fn = ld.method(fgbPath, "FileWriter", "Header")
	ctor = ld.fn(fgbPath, "NewFileWriter")
	if fn == nil || ctor == nil {
		r.violate("missing|FileWriter.Header", "", "FileWriter.Header or NewFileWriter not found")
		return
	}
	e.ev = recordWrites
	st = e.entry()
	out := e.newStream("out", map[string]*Atom{"Write": nil})
	recv, st = e.newObjVia(r, st, ctor, out)
	st.ghost = map[string]Val{}
	hdrT := fn.Signature.Params().At(0).Type()
	for _, o := range e.callEntry(fn, st, recv, symVal(hdrT, "hdr", nil)) {
		if o.pan != nil || len(o.rets) != 2 || errState(o.st, o.rets[1]) != 0 {
			continue
		}
		r.count("successful Header write", 1)
		for i, b := range fgbMagic {
			v, ok := writtenByte(o.st, "out", linC(int64(i)))
			iv, ok2 := v.(IntV)
			r.count("magic obligation", 1)
			bad := !ok || !ok2
			if !bad {
				if b >= 0 {
					bad = !o.st.facts.entailsEQ(iv.L.addC(-b))
				} else if i == 3 {
					bad = !o.st.facts.entailsLE(linB(lo).sub(iv.L)) || !o.st.facts.entailsLE(iv.L.sub(linB(hi)))
				}
			}
			if bad {
				r.violate(fmt.Sprintf("written|byte%d", i), e.ld.position(fn.Pos(), nil), fmt.Sprintf("byte %d of the magic number FileWriter writes is %s", i, showVal(v)))
			}
		}
	}
	r.need("Magic outcome", 4)
	r.need("read beyond the magic number", 2)
	r.need("magic obligation", 11)
	r.need("successful Header write", 1)
}

func init() {
	checks["C23"] = &checkDef{
		explain: "Magic, FileReader.Header and FileWriter.Header are interpreted abstractly for every stream content: each read beyond the eighth byte must be dominated by the facts that bytes 1-3 and 5-7 are fgb and byte 4 is a supported version; each refusal after exactly eight bytes must contradict them; the bytes written first must satisfy them.",
		assume:  []string{"io.Reader.Read follows its documented contract"},
		run: func(ld *Loaded, r *Result) {
			e := newEngine(ld)
			e.initGlobals()
			magicChecks(ld, r, e)
			r.addCoverage(e)
		},
	}
}
