package main

// Fourier-Motzkin elimination on machine integers. Constants have 128 bits;
// on overflow the caller falls back to big integers.

import (
	"math"
	"math/big"
	"math/bits"
	"sort"
)

type i128 struct {
	hi int64
	lo uint64
}

func (a i128) sign() int {
	switch {
	case a.hi < 0:
		return -1
	case a.hi == 0 && a.lo == 0:
		return 0
	}
	return 1
}

func (a i128) neg() i128 {
	lo, b := bits.Sub64(0, a.lo, 0)
	hi, _ := bits.Sub64(0, uint64(a.hi), b)
	return i128{int64(hi), lo}
}

func (a i128) add(b i128) (i128, bool) {
	lo, c := bits.Add64(a.lo, b.lo, 0)
	hi, _ := bits.Add64(uint64(a.hi), uint64(b.hi), c)
	r := i128{int64(hi), lo}
	if (a.hi < 0) == (b.hi < 0) && (r.hi < 0) != (a.hi < 0) {
		return r, false
	}
	return r, true
}

func (a i128) mul(k int64) (i128, bool) {
	if k == 1 {
		return a, true
	}
	if k == math.MinInt64 || a.hi == math.MinInt64 {
		return a, false
	}
	neg := false
	if k < 0 {
		neg, k = true, -k
	}
	if a.hi < 0 {
		neg, a = !neg, a.neg()
	}
	h1, lo := bits.Mul64(a.lo, uint64(k))
	h2, l2 := bits.Mul64(uint64(a.hi), uint64(k))
	hi, c := bits.Add64(h1, l2, 0)
	if h2 != 0 || c != 0 || hi >= 1<<62 {
		return a, false
	}
	r := i128{int64(hi), lo}
	if neg {
		r = r.neg()
	}
	return r, true
}

// ceilDiv divides by a positive number, rounding up.
func (a i128) ceilDiv(k int64) i128 {
	neg := a.hi < 0
	if neg {
		a = a.neg()
	}
	qh := uint64(a.hi) / uint64(k)
	ql, rem := bits.Div64(uint64(a.hi)%uint64(k), a.lo, uint64(k))
	q := i128{int64(qh), ql}
	if neg {
		return q.neg() // towards zero is up
	}
	if rem != 0 {
		q, _ = q.add(i128{0, 1})
	}
	return q
}

func (a i128) less(b i128) bool { return a.hi < b.hi || a.hi == b.hi && a.lo < b.lo }

type frow struct {
	h [4]uint64 // the rows it was made from
	c []int64
	k i128
}

func i128of(b *big.Int) (i128, bool) {
	if b.BitLen() > 120 {
		return i128{}, false
	}
	if b.IsInt64() {
		v := b.Int64()
		r := i128{0, uint64(v)}
		if v < 0 {
			r.hi = -1
		}
		return r, true
	}
	m := new(big.Int).Abs(b)
	lo := new(big.Int).And(m, new(big.Int).SetUint64(math.MaxUint64)).Uint64()
	hi := m.Rsh(m, 64).Int64()
	r := i128{hi, lo}
	if b.Sign() < 0 {
		r = r.neg()
	}
	return r, true
}

// combine is x*kx + y*ky.
func combine(x frow, kx int64, y frow, ky int64) (frow, bool) {
	r := frow{c: make([]int64, len(x.c))}
	for i := range x.c {
		a, b := x.c[i], y.c[i]
		if a == 0 && b == 0 {
			continue
		}
		p, ok1 := mul64(a, kx)
		q, ok2 := mul64(b, ky)
		if !ok1 || !ok2 {
			return r, false
		}
		s := p + q
		if (p < 0) == (q < 0) && (s < 0) != (p < 0) {
			return r, false
		}
		r.c[i] = s
	}
	p, ok1 := x.k.mul(kx)
	q, ok2 := y.k.mul(ky)
	if !ok1 || !ok2 {
		return r, false
	}
	k, ok := p.add(q)
	r.k = k
	return r, ok
}

func mul64(a, b int64) (int64, bool) {
	if a == 0 || b == 0 {
		return 0, true
	}
	if b == 1 {
		return a, true
	}
	if a == math.MinInt64 || b == math.MinInt64 {
		return 0, false
	}
	r := a * b
	return r, r/b == a
}

func gcd64(a, b int64) int64 {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

// fmSet keeps the strongest constraint for each left-hand side.
type fmSet struct {
	rows []frow
	idx  map[uint64][]int
}

// add reports a contradiction.
func (s *fmSet) add(r frow) (contra bool) {
	g := int64(0)
	for _, c := range r.c {
		if c != 0 {
			if c < 0 {
				c = -c
			}
			g = gcd64(c, g)
			if g == 1 {
				break
			}
		}
	}
	if g == 0 {
		return r.k.sign() > 0
	}
	if g > 1 {
		c := make([]int64, len(r.c))
		for i := range c {
			c[i] = r.c[i] / g
		}
		r.c, r.k = c, r.k.ceilDiv(g)
	}
	h := uint64(14695981039346656037)
	for i, c := range r.c {
		if c != 0 {
			h = (h ^ uint64(i)) * 1099511628211
			h = (h ^ uint64(c)) * 1099511628211
			h ^= h >> 29
		}
	}
next:
	for _, i := range s.idx[h] {
		o := s.rows[i].c
		for k := range o {
			if o[k] != r.c[k] {
				continue next
			}
		}
		if s.rows[i].k.less(r.k) {
			s.rows[i].k, s.rows[i].h = r.k, r.h
		} else if !r.k.less(s.rows[i].k) && bitCount(r.h) < bitCount(s.rows[i].h) {
			s.rows[i].h = r.h
		}
		return false
	}
	s.idx[h] = append(s.idx[h], len(s.rows))
	s.rows = append(s.rows, r)
	return false
}

// fastInfeasible is infeasible on machine integers; ok is false if they do
// not suffice.
func fastInfeasible(cons, eqs []*Lin) (res, ok bool) {
	col := map[*Atom]int{}
	var atoms []*Atom
	for _, ls := range [2][]*Lin{cons, eqs} {
		for _, l := range ls {
			for _, m := range l.t {
				if _, ok := col[m.a]; !ok {
					col[m.a] = 0
					atoms = append(atoms, m.a)
				}
			}
		}
	}
	sort.Slice(atoms, func(i, j int) bool { return atoms[i].id < atoms[j].id })
	for i, a := range atoms {
		col[a] = i
	}
	n := len(atoms)
	conv := func(l *Lin) (frow, bool) {
		r := frow{c: make([]int64, n)}
		for _, m := range l.t {
			if !m.k.IsInt64() {
				return r, false
			}
			r.c[col[m.a]] = m.k.Int64()
		}
		k, ok := i128of(l.c)
		r.k = k
		return r, ok
	}
	cs := make([]frow, 0, len(cons)+4)
	for _, l := range cons {
		r, ok := conv(l)
		if !ok {
			return false, false
		}
		cs = append(cs, r)
	}
	var es []frow
	for _, l := range eqs {
		r, ok := conv(l)
		if !ok {
			return false, false
		}
		es = append(es, r)
	}
	for len(es) > 0 {
		e := es[len(es)-1]
		es = es[:len(es)-1]
		pick, zero := -1, true
		for i, c := range e.c {
			if c != 0 {
				zero = false
			}
			if c == 1 || c == -1 {
				pick = i
				break
			}
		}
		if zero {
			if e.k.sign() != 0 {
				return true, true
			}
			continue
		}
		if pick < 0 {
			ng, ok := combine(e, -1, e, 0)
			if !ok {
				return false, false
			}
			cs = append(cs, e, ng)
			continue
		}
		s := e.c[pick]
		for _, rows := range [2][]frow{cs, es} {
			for i := range rows {
				if c := rows[i].c[pick]; c != 0 {
					// row - c*s*e has no pick
					m, ok := mul64(c, -s)
					if !ok {
						return false, false
					}
					r, ok := combine(rows[i], 1, e, m)
					if !ok {
						return false, false
					}
					rows[i] = r
				}
			}
		}
	}
	set := &fmSet{idx: map[uint64][]int{}}
	for _, r := range cs {
		if set.add(r) {
			return true, true
		}
	}
	for i := range set.rows {
		if i < 256 {
			set.rows[i].h[i/64] = 1 << (i % 64)
		}
	}
	hist := len(set.rows) <= 256
	elims := 0
	const capN = 600
	pos, neg := make([]int, n), make([]int, n)
	for {
		if len(set.rows) == 0 {
			return false, true
		}
		for i := range pos {
			pos[i], neg[i] = 0, 0
		}
		for _, r := range set.rows {
			for i, c := range r.c {
				if c > 0 {
					pos[i]++
				} else if c < 0 {
					neg[i]++
				}
			}
		}
		best, bc := -1, 1<<30
		for i := range pos {
			if pos[i]+neg[i] == 0 {
				continue
			}
			if c := pos[i]*neg[i] - pos[i] - neg[i]; c < bc {
				best, bc = i, c
			}
		}
		next := &fmSet{idx: make(map[uint64][]int, len(set.rows))}
		var P, N []frow
		for _, r := range set.rows {
			switch c := r.c[best]; {
			case c == 0:
				next.add(r)
			case c > 0:
				P = append(P, r)
			default:
				N = append(N, r)
			}
		}
		if len(P) > 0 && len(N) > 0 {
			elims++
		}
		// With many rows, those made from more rows than there were
		// eliminations follow from others (Kohler).
		many := len(next.rows)+len(P)*len(N) > 100
		if many && !hist && len(next.rows)+len(P)*len(N) > capN {
			return false, true
		}
		for _, p := range P {
			for _, q := range N {
				var h [4]uint64
				for i := range h {
					h[i] = p.h[i] | q.h[i]
				}
				if many && bitCount(h) > elims+1 {
					continue
				}
				if len(next.rows) > capN {
					return false, true
				}
				cp, cn := p.c[best], q.c[best]
				if cn == math.MinInt64 {
					return false, false
				}
				r, ok := combine(p, -cn, q, cp)
				if !ok {
					return false, false
				}
				r.h = h
				if next.add(r) {
					return true, true
				}
			}
		}
		set = next
	}
}

func bitCount(h [4]uint64) int {
	return bits.OnesCount64(h[0]) + bits.OnesCount64(h[1]) + bits.OnesCount64(h[2]) + bits.OnesCount64(h[3])
}
