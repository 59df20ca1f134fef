package main

// Symbolic linear integer terms, and entailment of linear facts by
// Fourier-Motzkin elimination. All terms denote mathematical integers; the
// interpreter decides when a machine operation may be taken as such.

import (
	"fmt"
	"math/big"
	"os"
	"sort"
	"strings"
)

// Atom is a hash-consed opaque integer, boolean or float term.
type Atom struct {
	id       int
	kind     string
	aux      string
	args     []*Lin
	key      string
	lo       *big.Int // intrinsic range, nil = unbounded
	hi       *big.Int
	bits     int    // bit width for bit-level reasoning (0 = unknown)
	ax       []*Lin // intrinsic facts (lin <= 0)
	depsMemo map[*Atom]bool
	fresh    int
}

type mono struct {
	a *Atom
	k *big.Int
}

// Lin is an immutable linear expression c + sum k*a.
type Lin struct {
	c *big.Int
	t []mono
	k string
}

var (
	atomTab  = map[string]*Atom{}
	atomByID []*Atom
	big0     = big.NewInt(0)
	big1     = big.NewInt(1)
	bigm1    = big.NewInt(-1)
	linZero  = &Lin{c: big0}
	linOne   = &Lin{c: big1}
)

func resetAtoms() { atomTab = map[string]*Atom{}; atomByID = nil }

func mkAtom(kind, aux string, lo, hi *big.Int, args ...*Lin) *Atom {
	var sb strings.Builder
	sb.WriteString(kind)
	sb.WriteByte('{')
	sb.WriteString(aux)
	sb.WriteByte('}')
	for _, a := range args {
		sb.WriteByte(',')
		sb.WriteString(a.key())
	}
	key := sb.String()
	if a, ok := atomTab[key]; ok {
		return a
	}
	a := &Atom{id: len(atomByID), kind: kind, aux: aux, args: args, key: key, lo: lo, hi: hi}
	if lo != nil && lo.Sign() >= 0 && hi != nil {
		a.bits = hi.BitLen()
	}
	atomTab[key] = a
	atomByID = append(atomByID, a)
	setAxioms(a)
	return a
}

// setAxioms attaches the facts that hold of an atom by its meaning.
func setAxioms(a *Atom) {
	l := linA(a)
	nonneg := func(x *Lin) bool {
		lo, _ := rangeOf(x)
		return lo != nil && lo.Sign() >= 0
	}
	switch a.kind {
	case "mul":
		if nonneg(a.args[0]) && nonneg(a.args[1]) {
			a.ax = []*Lin{l.neg()}
		}
	case "quo":
		x, y := a.args[0], a.args[1]
		if a.aux != "true" {
			return
		}
		if y.isConst() && y.c.Sign() > 0 {
			// y*q <= x <= y*q + y-1
			a.ax = []*Lin{l.scale(y.c).sub(x), x.sub(l.scale(y.c)).sub(linB(y.c)).addC(1), l.neg()}
		} else {
			a.ax = []*Lin{l.neg(), l.sub(x)}
		}
	case "rem":
		x, y := a.args[0], a.args[1]
		if a.aux == "true" {
			a.ax = []*Lin{l.neg(), l.sub(y).addC(1), l.sub(x)}
		}
	case "cap":
		a.ax = []*Lin{linA(lenAtom(a.aux, a.args)).sub(l)}
	case "bit&":
		if nonneg(a.args[0]) && nonneg(a.args[1]) {
			a.ax = []*Lin{l.sub(a.args[0]), l.sub(a.args[1])}
		}
	case "bit|":
		if nonneg(a.args[0]) && nonneg(a.args[1]) {
			a.ax = []*Lin{a.args[0].sub(l), a.args[1].sub(l), l.sub(a.args[0]).sub(a.args[1])}
		}
	case "in":
		if strings.HasPrefix(a.aux, "el:") && strings.Contains(a.aux, "results#") && strings.HasSuffix(a.aux, ".RefIndex") && len(a.args) == 2 {
			// a search result refers to one of the indexed features
			a.ax = []*Lin{l.neg(), l.sub(a.args[0]).addC(1)}
		}
	case "isize":
		// 40 bytes per node, at least one inner node besides the refs
		a.ax = []*Lin{a.args[0].scale(big.NewInt(40)).addC(40).sub(l)}
	}
}

var symN int

func freshAtom(name string, lo, hi *big.Int) *Atom {
	symN++
	return mkAtom("sym", fmt.Sprintf("%s#%d", name, symN), lo, hi)
}

func (a *Atom) String() string {
	if a.kind == "sym" {
		return a.aux
	}
	var ss []string
	for _, x := range a.args {
		ss = append(ss, x.String())
	}
	s := a.kind
	if a.aux != "" {
		s += "<" + a.aux + ">"
	}
	return s + "(" + strings.Join(ss, ",") + ")"
}

// deps returns all atoms inside a, itself included.
func (a *Atom) deps() map[*Atom]bool {
	if a.depsMemo == nil {
		m := map[*Atom]bool{a: true}
		for _, x := range a.args {
			for _, t := range x.t {
				for d := range t.a.deps() {
					m[d] = true
				}
			}
		}
		a.depsMemo = m
	}
	return a.depsMemo
}

func linC(i int64) *Lin      { return &Lin{c: big.NewInt(i)} }
func linB(b *big.Int) *Lin   { return &Lin{c: new(big.Int).Set(b)} }
func linA(a *Atom) *Lin      { return &Lin{c: big0, t: []mono{{a, big1}}} }
func (l *Lin) isConst() bool { return len(l.t) == 0 }
func (l *Lin) isConstI(i int64) bool {
	return len(l.t) == 0 && l.c.IsInt64() && l.c.Int64() == i
}

func (l *Lin) key() string {
	if l.k == "" {
		var sb strings.Builder
		sb.WriteString(l.c.String())
		for _, m := range l.t {
			sb.WriteByte('+')
			if m.k.Cmp(big1) != 0 {
				sb.WriteString(m.k.String())
			}
			fmt.Fprintf(&sb, "@%d", m.a.id)
		}
		l.k = sb.String()
	}
	return l.k
}

func (l *Lin) String() string {
	var sb strings.Builder
	for i, m := range l.t {
		if i > 0 && m.k.Sign() > 0 {
			sb.WriteString("+")
		}
		if m.k.Cmp(bigm1) == 0 {
			sb.WriteString("-")
		} else if m.k.Cmp(big1) != 0 {
			sb.WriteString(m.k.String() + "*")
		}
		sb.WriteString(m.a.String())
	}
	if l.c.Sign() != 0 || len(l.t) == 0 {
		if l.c.Sign() > 0 && len(l.t) > 0 {
			sb.WriteString("+")
		}
		sb.WriteString(l.c.String())
	}
	return sb.String()
}

func (l *Lin) addScaled(o *Lin, k *big.Int) *Lin {
	if k.Sign() == 0 {
		return l
	}
	r := &Lin{c: new(big.Int).Add(l.c, new(big.Int).Mul(o.c, k))}
	i, j := 0, 0
	for i < len(l.t) || j < len(o.t) {
		switch {
		case j >= len(o.t) || (i < len(l.t) && l.t[i].a.id < o.t[j].a.id):
			r.t = append(r.t, l.t[i])
			i++
		case i >= len(l.t) || l.t[i].a.id > o.t[j].a.id:
			r.t = append(r.t, mono{o.t[j].a, new(big.Int).Mul(o.t[j].k, k)})
			j++
		default:
			s := new(big.Int).Add(l.t[i].k, new(big.Int).Mul(o.t[j].k, k))
			if s.Sign() != 0 {
				r.t = append(r.t, mono{l.t[i].a, s})
			}
			i++
			j++
		}
	}
	return r
}
func (l *Lin) add(o *Lin) *Lin       { return l.addScaled(o, big1) }
func (l *Lin) sub(o *Lin) *Lin       { return l.addScaled(o, bigm1) }
func (l *Lin) addC(i int64) *Lin     { return l.add(linC(i)) }
func (l *Lin) scale(k *big.Int) *Lin { return linZero.addScaled(l, k) }
func (l *Lin) neg() *Lin             { return l.scale(bigm1) }
func (l *Lin) eq(o *Lin) bool        { return l == o || l.key() == o.key() }
func (l *Lin) coef(a *Atom) *big.Int {
	for _, m := range l.t {
		if m.a == a {
			return m.k
		}
	}
	return big0
}
func (l *Lin) singleAtom() *Atom {
	if len(l.t) == 1 && l.c.Sign() == 0 && l.t[0].k.Cmp(big1) == 0 {
		return l.t[0].a
	}
	return nil
}

// deps reports all atoms occurring in l at any depth.
func (l *Lin) deps() map[*Atom]bool {
	m := map[*Atom]bool{}
	for _, t := range l.t {
		for d := range t.a.deps() {
			m[d] = true
		}
	}
	return m
}

// divExact returns l/k if all coefficients divide, or nil.
func (l *Lin) divExact(k *big.Int) *Lin {
	q, r := new(big.Int), new(big.Int)
	q.QuoRem(l.c, k, r)
	if r.Sign() != 0 {
		return nil
	}
	o := &Lin{c: q}
	for _, m := range l.t {
		q, r := new(big.Int), new(big.Int)
		q.QuoRem(m.k, k, r)
		if r.Sign() != 0 {
			return nil
		}
		o.t = append(o.t, mono{m.a, q})
	}
	return o
}

// subst replaces atoms, rebuilding nested atoms.
type Subst map[*Atom]*Lin

func (l *Lin) subst(s Subst) *Lin {
	if len(s) == 0 || len(l.t) == 0 {
		return l
	}
	changed := false
	for _, m := range l.t {
		if m.a.touches(s) {
			changed = true
			break
		}
	}
	if !changed {
		return l
	}
	r := &Lin{c: l.c}
	for _, m := range l.t {
		r = r.addScaled(m.a.subst(s), m.k)
	}
	return r
}
func (a *Atom) touches(s Subst) bool {
	if _, ok := s[a]; ok {
		return true
	}
	if len(a.args) == 0 {
		return false
	}
	d := a.deps()
	if len(s) < len(d) {
		for k := range s {
			if d[k] {
				return true
			}
		}
		return false
	}
	for k := range d {
		if _, ok := s[k]; ok {
			return true
		}
	}
	return false
}
func (a *Atom) subst(s Subst) *Lin {
	if r, ok := s[a]; ok {
		return r
	}
	if !a.touches(s) {
		return linA(a)
	}
	args := make([]*Lin, len(a.args))
	for i, x := range a.args {
		args[i] = x.subst(s)
	}
	return rebuildAtom(a, args)
}

// rebuildAtom re-creates an atom of the same kind with new arguments.
func rebuildAtom(a *Atom, args []*Lin) *Lin {
	switch a.kind {
	case "bits", "cat", "scat":
		if r := rebuildBits(a, args); r != nil {
			return r
		}
	case "mul":
		if args[0].isConst() {
			return args[1].scale(args[0].c)
		}
		if args[1].isConst() {
			return args[0].scale(args[1].c)
		}
	case "rec":
		if t := recByName[a.aux]; t != nil {
			return t.at(args[0])
		}
	case "wrap":
		if args[0].isConst() && a.lo != nil {
			m := new(big.Int).Mod(args[0].c, pow2(a.bits))
			if m.Cmp(a.hi) > 0 {
				m.Sub(m, pow2(a.bits))
			}
			return linB(m)
		}
	}
	n := mkAtom(a.kind, a.aux, a.lo, a.hi, args...)
	n.bits = a.bits
	return linA(n)
}

// ---- facts ----

type factKind byte

const (
	fLE   factKind = iota // l <= 0
	fEQ                   // l == 0
	fNE                   // l != 0
	fBool                 // a == v
)

type Fact struct {
	k factKind
	l *Lin
	a *Atom
	v bool
}

func (f Fact) String() string {
	switch f.k {
	case fLE:
		return f.l.String() + " <= 0"
	case fEQ:
		return f.l.String() + " == 0"
	case fNE:
		return f.l.String() + " != 0"
	}
	return fmt.Sprintf("%s=%v", f.a, f.v)
}
func (f Fact) key() string {
	if f.k == fBool {
		return fmt.Sprintf("b%d%v", f.a.id, f.v)
	}
	return fmt.Sprintf("%d:%s", f.k, f.l.key())
}

type Facts []Fact

// normLE divides by the gcd of the coefficients, tightening the constant.
func normLE(l *Lin) *Lin {
	if len(l.t) == 0 {
		return l
	}
	g := new(big.Int)
	for _, m := range l.t {
		g.GCD(nil, nil, g, new(big.Int).Abs(m.k))
	}
	if g.Cmp(big1) <= 0 {
		return l
	}
	r := &Lin{}
	for _, m := range l.t {
		r.t = append(r.t, mono{m.a, new(big.Int).Quo(m.k, g)})
	}
	// sum + c <= 0  =>  sum/g <= floor(-c/g)  =>  c' = -floor(-c/g) = ceil(c/g)
	nc := new(big.Int).Neg(l.c)
	q := floorDiv(nc, g)
	r.c = q.Neg(q)
	return r
}

func floorDiv(a, b *big.Int) *big.Int {
	q, r := new(big.Int), new(big.Int)
	q.QuoRem(a, b, r)
	if r.Sign() != 0 && (r.Sign() < 0) != (b.Sign() < 0) {
		q.Sub(q, big1)
	}
	return q
}

// rangeOf gives bounds of l from intrinsic atom ranges only.
func rangeOf(l *Lin) (lo, hi *big.Int) {
	lo, hi = new(big.Int).Set(l.c), new(big.Int).Set(l.c)
	for _, m := range l.t {
		a, b := m.a.lo, m.a.hi
		if m.k.Sign() < 0 {
			a, b = b, a
		}
		if lo != nil {
			if a == nil {
				lo = nil
			} else {
				lo.Add(lo, new(big.Int).Mul(a, m.k))
			}
		}
		if hi != nil {
			if b == nil {
				hi = nil
			} else {
				hi.Add(hi, new(big.Int).Mul(b, m.k))
			}
		}
	}
	return
}

var statFM, statQ, statHit, statSlow int
var entCache = map[string]bool{}

// entailsLE reports whether facts imply l <= 0.
func (fs Facts) entailsLE(l *Lin) bool {
	l = normLE(l)
	if l.isConst() {
		return l.c.Sign() <= 0
	}
	if _, hi := rangeOf(l); hi != nil && hi.Sign() <= 0 {
		return true
	}
	for i := len(fs) - 1; i >= 0; i-- {
		f := &fs[i]
		if f.k == fLE || f.k == fEQ {
			if len(f.l.t) == len(l.t) {
				if d := l.sub(f.l); d.isConst() && d.c.Sign() <= 0 {
					return true
				}
				if f.k == fEQ {
					if d := l.add(f.l); d.isConst() && d.c.Sign() <= 0 {
						return true
					}
				}
			}
		}
	}
	return fs.infeasibleWith(l.neg().addC(1))
}
func (fs Facts) entailsEQ(l *Lin) bool {
	if l.isConst() {
		return l.c.Sign() == 0
	}
	return fs.entailsLE(l) && fs.entailsLE(l.neg())
}
func (fs Facts) entailsNE(l *Lin) bool {
	if l.isConst() {
		return l.c.Sign() != 0
	}
	for _, f := range fs {
		if f.k == fNE && (f.l.eq(l) || f.l.eq(l.neg())) {
			return true
		}
	}
	// l == 0 infeasible?
	return fs.entailsLE(l.addC(1)) || fs.entailsLE(l.neg().addC(1)) || fs.infeasibleWith(l, l.neg())
}
func (fs Facts) boolVal(a *Atom) (v, known bool) {
	for i := len(fs) - 1; i >= 0; i-- {
		if fs[i].k == fBool && fs[i].a == a {
			return fs[i].v, true
		}
	}
	return false, false
}

// infeasibleMore adds what the theories say.
func (fs Facts) infeasibleMore(extra, more []*Lin, had map[*Atom]bool) bool {
	recBusy = true
	defer func() { recBusy = false }()
	return fs.infeasibleWith(append(append([]*Lin{}, extra...), more...)...)
}

// infeasibleWith reports whether facts plus extra (each <= 0) are
// contradictory. false means "not shown".
var recCache = map[string]bool{}
var statRecHit, statRecMiss int

func (fs Facts) infeasibleWith(extra ...*Lin) (res bool) {
	statQ++
	// Select the connected component of facts.
	atoms := map[*Atom]bool{}
	var queue []*Atom
	addL := func(l *Lin) {
		for _, m := range l.t {
			if !atoms[m.a] {
				atoms[m.a] = true
				queue = append(queue, m.a)
			}
		}
	}
	for _, l := range extra {
		addL(l)
	}
	used := make([]bool, len(fs))
	byAtom := map[*Atom][]int{}
	// atoms of the facts whose meaning says something about an atom
	var byArg map[*Atom][]*Atom
	for i := range fs {
		if fs[i].k == fBool {
			continue
		}
		for _, m := range fs[i].l.t {
			byAtom[m.a] = append(byAtom[m.a], i)
			if m.a.kind == "quo" || m.a.kind == "rem" {
				if byArg == nil {
					byArg = map[*Atom][]*Atom{}
				}
				for _, x := range m.a.args[0].t {
					byArg[x.a] = append(byArg[x.a], m.a)
				}
			}
			if m.a.kind == "rec" && !recBusy {
				if t := recByName[m.a.aux]; t != nil && t.link != nil {
					if byArg == nil {
						byArg = map[*Atom][]*Atom{}
					}
					byArg[t.link] = append(byArg[t.link], m.a)
				}
			}
		}
	}
	var cons []*Lin
	var eqs, nes []*Lin
	cons = append(cons, extra...)
	for len(queue) > 0 {
		a := queue[0]
		queue = queue[1:]
		if a.lo != nil {
			cons = append(cons, linB(a.lo).sub(linA(a)))
		}
		if a.hi != nil {
			cons = append(cons, linA(a).sub(linB(a.hi)))
		}
		for _, x := range a.ax {
			cons = append(cons, x)
			addL(x)
		}
		for _, b := range byArg[a] {
			if !atoms[b] {
				atoms[b] = true
				queue = append(queue, b)
			}
		}
		for _, i := range byAtom[a] {
			if used[i] {
				continue
			}
			used[i] = true
			switch fs[i].k {
			case fLE:
				cons = append(cons, fs[i].l)
				addL(fs[i].l)
			case fEQ:
				eqs = append(eqs, fs[i].l)
				addL(fs[i].l)
			case fNE:
				nes = append(nes, fs[i].l)
			}
		}
	}
	if len(recByName) > 0 && !recBusy {
		var ra []*Atom
		for a := range atoms {
			if a.kind == "rec" {
				ra = append(ra, a)
			}
		}
		if len(ra) > 0 {
			sort.Slice(ra, func(i, j int) bool { return ra[i].id < ra[j].id })
			all := fs[:len(fs):len(fs)]
			for _, l := range extra {
				all = append(all, Fact{k: fLE, l: l})
			}
			var sb strings.Builder
			for i := range all {
				if all[i].k != fBool {
					sb.WriteByte(byte('a' + all[i].k))
					sb.WriteString(all[i].l.key())
				}
			}
			k := sb.String()
			if v, ok := recCache[k]; ok {
				statRecHit++
				return v
			}
			statRecMiss++
			defer func() { recCache[k] = res }()
			more := recAxioms(all, ra)
			if len(more) > 0 {
				return fs.infeasibleMore(extra, more, atoms)
			}
		}
	}
	var sb strings.Builder
	for _, l := range cons {
		sb.WriteString(l.key())
		sb.WriteByte(';')
	}
	sb.WriteByte('|')
	for _, l := range eqs {
		sb.WriteString(l.key())
		sb.WriteByte(';')
	}
	sb.WriteByte('|')
	for _, l := range nes {
		sb.WriteString(l.key())
		sb.WriteByte(';')
	}
	k := sb.String()
	if r, ok := entCache[k]; ok {
		statHit++
		return r
	}
	r := infeasible(cons, eqs)
	if !r && len(nes) > 0 {
		// Tighten with disequalities whose sign is decided.
		for round := 0; round < 3 && !r; round++ {
			changed := false
			for i, l := range nes {
				if l == nil {
					continue
				}
				if infeasible(append(append([]*Lin{}, cons...), l.addC(1)), eqs) { // l <= -1 impossible => l >= 1
					cons = append(cons, l.neg().addC(1))
					nes[i] = nil
					changed = true
				} else if infeasible(append(append([]*Lin{}, cons...), l.neg().addC(1)), eqs) { // l >= 1 impossible
					cons = append(cons, l.addC(1))
					nes[i] = nil
					changed = true
				}
			}
			if !changed {
				break
			}
			r = infeasible(cons, eqs)
		}
	}
	entCache[k] = r
	return r
}

func infeasible(cons, eqs []*Lin) bool {
	statFM++
	if r, ok := fastInfeasible(cons, eqs); ok {
		if debugFM && r != slowInfeasible(cons, eqs) {
			fmt.Println("FM differs", r, cons, eqs)
		}
		return r
	}
	statSlow++
	return slowInfeasible(cons, eqs)
}

var debugFM = os.Getenv("FGB_FM") != ""

func slowInfeasible(cons, eqs []*Lin) bool {
	cons = append([]*Lin{}, cons...)
	eqs = append([]*Lin{}, eqs...)
	// Eliminate equalities.
	for len(eqs) > 0 {
		e := eqs[len(eqs)-1]
		eqs = eqs[:len(eqs)-1]
		if e.isConst() {
			if e.c.Sign() != 0 {
				return true
			}
			continue
		}
		var pick *mono
		for i := range e.t {
			if e.t[i].k.CmpAbs(big1) == 0 {
				pick = &e.t[i]
				break
			}
		}
		if pick == nil {
			cons = append(cons, e, e.neg())
			continue
		}
		// k*a + rest = 0, k=+-1 => a = -k*rest
		rest := e.sub(linZero.addScaled(linA(pick.a), pick.k))
		val := rest.scale(new(big.Int).Neg(pick.k))
		for i := range cons {
			if c := cons[i].coef(pick.a); c.Sign() != 0 {
				cons[i] = cons[i].addScaled(linA(pick.a), new(big.Int).Neg(c)).addScaled(val, c)
			}
		}
		for i := range eqs {
			if c := eqs[i].coef(pick.a); c.Sign() != 0 {
				eqs[i] = eqs[i].addScaled(linA(pick.a), new(big.Int).Neg(c)).addScaled(val, c)
			}
		}
	}
	seen := map[string]*Lin{}
	addCon := func(m map[string]*Lin, l *Lin) (contra bool) {
		l = normLE(l)
		if l.isConst() {
			return l.c.Sign() > 0
		}
		// key on the non-constant part
		kk := (&Lin{c: big0, t: l.t}).key()
		if o, ok := m[kk]; !ok || o.c.Cmp(l.c) < 0 {
			m[kk] = l
		}
		return false
	}
	for _, l := range cons {
		if addCon(seen, l) {
			return true
		}
	}
	const capN = 600
	for {
		if len(seen) == 0 {
			return false
		}
		// choose variable with smallest product
		pos, neg := map[*Atom]int{}, map[*Atom]int{}
		for _, l := range seen {
			for _, m := range l.t {
				if m.k.Sign() > 0 {
					pos[m.a]++
				} else {
					neg[m.a]++
				}
			}
		}
		var best *Atom
		bc := 1 << 30
		consider := func(a *Atom) {
			c := pos[a]*neg[a] - pos[a] - neg[a]
			if c < bc || (c == bc && a.id < best.id) {
				bc, best = c, a
			}
		}
		for a := range pos {
			consider(a)
		}
		for a := range neg {
			consider(a)
		}
		var P, N []*Lin
		next := map[string]*Lin{}
		for k, l := range seen {
			c := l.coef(best)
			switch c.Sign() {
			case 0:
				next[k] = l
			case 1:
				P = append(P, l)
			default:
				N = append(N, l)
			}
		}
		if len(next)+len(P)*len(N) > capN {
			return false
		}
		for _, p := range P {
			for _, n := range N {
				cp := p.coef(best)
				cn := new(big.Int).Neg(n.coef(best))
				l := linZero.addScaled(p, cn).addScaled(n, cp)
				if addCon(next, l) {
					return true
				}
			}
		}
		seen = next
	}
}

func pow2(n int) *big.Int { return new(big.Int).Lsh(big1, uint(n)) }

func sortedAtoms(m map[*Atom]bool) []*Atom {
	var r []*Atom
	for a := range m {
		r = append(r, a)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].id < r[j].id })
	return r
}

// divBy is l/m if every coefficient is a multiple of m, or nil.
func (l *Lin) divBy(m int64) *Lin {
	d, r := big.NewInt(m), new(big.Int)
	q := func(k *big.Int) *big.Int {
		x, _ := new(big.Int).QuoRem(k, d, r)
		if r.Sign() != 0 {
			return nil
		}
		return x
	}
	c := q(l.c)
	if c == nil {
		return nil
	}
	n := linB(c)
	for _, t := range l.t {
		k := q(t.k)
		if k == nil {
			return nil
		}
		n = n.addScaled(linA(t.a), k)
	}
	return n
}
