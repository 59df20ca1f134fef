package main

// Bit-level view of integer terms. A term is a list of chunks, least
// significant first; composing bytes into words and taking words apart both
// end up in one canonical form.

import (
	"fmt"
	"go/token"
	"math/big"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type chunk struct {
	a   *Atom // nil: constant c
	lo  int
	n   int
	rep bool // bit lo of a, repeated n times (sign extension)
	c   *big.Int
}

func constBits(v *big.Int, w int) []chunk {
	m := new(big.Int).Mod(v, pow2(w))
	return []chunk{{n: w, c: m}}
}

func atomBits(a *Atom, w int) []chunk {
	switch a.kind {
	case "bits":
		lo, n := parseBits(a.aux)
		inner := a.args[0].singleAtom()
		if inner == nil {
			break
		}
		if w <= n {
			return []chunk{{a: inner, lo: lo, n: w}}
		}
		return []chunk{{a: inner, lo: lo, n: n}, {n: w - n, c: big0}}
	case "cat", "scat":
		ch := catChunks(a)
		if ch == nil {
			return nil
		}
		tot := chunkLen(ch)
		if w <= tot {
			return takeBits(ch, 0, w)
		}
		if a.kind == "cat" {
			return append(ch, chunk{n: w - tot, c: big0})
		}
		top := takeBits(ch, tot-1, 1)[0]
		if top.a == nil {
			c := big0
			if top.c.Sign() != 0 {
				c = new(big.Int).Sub(pow2(w-tot), big1)
			}
			return append(ch, chunk{n: w - tot, c: c})
		}
		return append(ch, chunk{a: top.a, lo: top.lo, n: w - tot, rep: true})
	}
	if a.bits == 0 {
		return nil
	}
	if w <= a.bits {
		return []chunk{{a: a, lo: 0, n: w}}
	}
	if a.lo != nil && a.lo.Sign() >= 0 {
		return []chunk{{a: a, lo: 0, n: a.bits}, {n: w - a.bits, c: big0}}
	}
	return []chunk{{a: a, lo: 0, n: a.bits}, {a: a, lo: a.bits - 1, n: w - a.bits, rep: true}}
}

func chunkLen(ch []chunk) int {
	n := 0
	for _, c := range ch {
		n += c.n
	}
	return n
}

func takeBits(ch []chunk, lo, n int) []chunk {
	var r []chunk
	for _, c := range ch {
		if n == 0 {
			break
		}
		if lo >= c.n {
			lo -= c.n
			continue
		}
		k := c.n - lo
		if k > n {
			k = n
		}
		x := c
		x.n = k
		if c.a == nil {
			x.c = new(big.Int).Rsh(c.c, uint(lo))
			x.c.Mod(x.c, pow2(k))
		} else if !c.rep {
			x.lo = c.lo + lo
		}
		r = append(r, x)
		n -= k
		lo = 0
	}
	return r
}

// bitsOf gives the low w bits of l in two's complement, or nil.
func bitsOf(l *Lin, w int) []chunk {
	if l.isConst() {
		return constBits(l.c, w)
	}
	if a := l.singleAtom(); a != nil {
		return atomBits(a, w)
	}
	// a sum of shifted unsigned pieces that do not overlap
	type piece struct {
		sh int
		ch []chunk
	}
	var ps []piece
	for _, m := range l.t {
		if m.k.Sign() <= 0 {
			return nil
		}
		sh := int(m.k.BitLen()) - 1
		if new(big.Int).Lsh(big1, uint(sh)).Cmp(m.k) != 0 {
			return nil
		}
		b := m.a.bits
		if sh >= w {
			continue
		}
		signed := m.a.lo == nil || m.a.lo.Sign() < 0
		if signed && len(l.t) > 1 {
			return nil
		}
		if b == 0 {
			return nil
		}
		if signed || sh+b > w {
			b = w - sh
		}
		ch := atomBits(m.a, b)
		if ch == nil {
			return nil
		}
		ps = append(ps, piece{sh, ch})
	}
	if l.c.Sign() < 0 {
		return nil
	}
	out := []chunk{}
	pos := 0
	cleared := new(big.Int).Mod(l.c, pow2(w))
	for pos < w {
		// next piece starting at or after pos
		var best *piece
		for i := range ps {
			if ps[i].sh >= pos && (best == nil || ps[i].sh < best.sh) {
				best = &ps[i]
			}
			if ps[i].sh < pos && ps[i].sh+chunkLen(ps[i].ch) > pos {
				return nil
			}
		}
		end := w
		if best != nil {
			end = best.sh
		}
		if end > pos {
			c := new(big.Int).Rsh(cleared, uint(pos))
			c.Mod(c, pow2(end-pos))
			out = append(out, chunk{n: end - pos, c: c})
		}
		if best == nil {
			break
		}
		n := chunkLen(best.ch)
		c := new(big.Int).Rsh(cleared, uint(best.sh))
		c.Mod(c, pow2(n))
		if c.Sign() != 0 {
			return nil
		}
		out = append(out, best.ch...)
		pos = best.sh + n
	}
	return out
}

func normChunks(ch []chunk) []chunk {
	var r []chunk
	for _, c := range ch {
		if c.n == 0 {
			continue
		}
		if len(r) > 0 {
			p := &r[len(r)-1]
			if p.a == nil && c.a == nil {
				v := new(big.Int).Lsh(c.c, uint(p.n))
				v.Or(v, p.c)
				*p = chunk{n: p.n + c.n, c: v}
				continue
			}
			if p.a != nil && p.a == c.a && !p.rep && !c.rep && p.lo+p.n == c.lo {
				p.n += c.n
				continue
			}
			if p.a != nil && p.a == c.a && p.rep && c.rep && p.lo == c.lo {
				p.n += c.n
				continue
			}
		}
		r = append(r, c)
	}
	return r
}

// fromBits is the value of type it whose bits are ch (chunkLen == it.bits).
func fromBits(ch []chunk, it intType) *Lin {
	ch = normChunks(ch)
	tot := chunkLen(ch)
	if len(ch) == 1 && ch[0].a == nil {
		v := new(big.Int).Set(ch[0].c)
		if it.signed && v.Bit(tot-1) == 1 {
			v.Sub(v, pow2(tot))
		}
		return linB(v)
	}
	// drop leading zeros
	hi := ch
	top := ch[len(ch)-1]
	if top.a == nil && top.c.Sign() == 0 {
		hi = ch[:len(ch)-1]
		return fromUBits(hi)
	}
	if !it.signed {
		return fromUBits(ch)
	}
	// signed: drop a sign extension of the piece below
	if top.rep && len(ch) >= 2 {
		p := ch[len(ch)-2]
		if p.a == top.a && !p.rep && p.lo+p.n-1 == top.lo {
			ch = ch[:len(ch)-1]
			return fromSBits(ch)
		}
	}
	return fromSBits(ch)
}

func fromUBits(ch []chunk) *Lin {
	if len(ch) == 1 && ch[0].a != nil && !ch[0].rep {
		return pieceLin(ch[0])
	}
	// low zero chunk: shifted value
	if len(ch) == 2 && ch[0].a == nil && ch[0].c.Sign() == 0 && ch[1].a != nil && !ch[1].rep {
		return pieceLin(ch[1]).scale(pow2(ch[0].n))
	}
	return catAtom(ch, false)
}

func fromSBits(ch []chunk) *Lin {
	if len(ch) == 1 && ch[0].a != nil && !ch[0].rep && ch[0].lo == 0 && ch[0].n == ch[0].a.bits && ch[0].a.lo != nil && ch[0].a.lo.Sign() < 0 {
		return linA(ch[0].a)
	}
	return catAtom(ch, true)
}

func pieceLin(c chunk) *Lin {
	if c.lo == 0 && c.n == c.a.bits && c.a.lo != nil && c.a.lo.Sign() >= 0 {
		return linA(c.a)
	}
	x := mkAtom("bits", fmt.Sprintf("%d:%d", c.lo, c.n), big0, new(big.Int).Sub(pow2(c.n), big1), linA(c.a))
	x.bits = c.n
	return linA(x)
}

func parseBits(s string) (lo, n int) {
	i := strings.IndexByte(s, ':')
	lo, _ = strconv.Atoi(s[:i])
	n, _ = strconv.Atoi(s[i+1:])
	return
}

func catAtom(ch []chunk, signed bool) *Lin {
	var sb strings.Builder
	var args []*Lin
	for _, c := range ch {
		switch {
		case c.a == nil:
			fmt.Fprintf(&sb, "c%d=%s;", c.n, c.c)
		case c.rep:
			fmt.Fprintf(&sb, "r%d:%d;", c.lo, c.n)
			args = append(args, linA(c.a))
		default:
			fmt.Fprintf(&sb, "p%d:%d;", c.lo, c.n)
			args = append(args, linA(c.a))
		}
	}
	n := chunkLen(ch)
	kind := "cat"
	lo, hi := big0, new(big.Int).Sub(pow2(n), big1)
	if signed {
		kind = "scat"
		lo, hi = intType{n, true}.rng()
	}
	a := mkAtom(kind, sb.String(), lo, hi, args...)
	a.bits = n
	return linA(a)
}

func catChunks(a *Atom) []chunk {
	var r []chunk
	k := 0
	for _, p := range strings.Split(a.aux, ";") {
		if p == "" {
			continue
		}
		switch p[0] {
		case 'c':
			i := strings.IndexByte(p, '=')
			n, _ := strconv.Atoi(p[1:i])
			v, _ := new(big.Int).SetString(p[i+1:], 10)
			r = append(r, chunk{n: n, c: v})
		default:
			lo, n := parseBits(p[1:])
			at := a.args[k].singleAtom()
			k++
			if at == nil {
				return nil
			}
			r = append(r, chunk{a: at, lo: lo, n: n, rep: p[0] == 'r'})
		}
	}
	return r
}

// rebuildBits re-creates a bits/cat/scat atom after substitution.
func rebuildBits(a *Atom, args []*Lin) *Lin {
	var ch []chunk
	sub := func(l *Lin, lo, n int) bool {
		x := bitsOf(l, lo+n)
		if x == nil {
			return false
		}
		ch = append(ch, takeBits(x, lo, n)...)
		return true
	}
	switch a.kind {
	case "bits":
		lo, n := parseBits(a.aux)
		if !sub(args[0], lo, n) {
			return nil
		}
		return fromBits(ch, intType{n, false})
	case "cat", "scat":
		k := 0
		for _, p := range strings.Split(a.aux, ";") {
			if p == "" {
				continue
			}
			if p[0] == 'c' {
				i := strings.IndexByte(p, '=')
				n, _ := strconv.Atoi(p[1:i])
				v, _ := new(big.Int).SetString(p[i+1:], 10)
				ch = append(ch, chunk{n: n, c: v})
				continue
			}
			lo, n := parseBits(p[1:])
			l := args[k]
			k++
			if p[0] == 'r' {
				x := bitsOf(l, lo+1)
				if x == nil {
					return nil
				}
				t := takeBits(x, lo, 1)[0]
				if t.a == nil {
					v := big0
					if t.c.Sign() != 0 {
						v = new(big.Int).Sub(pow2(n), big1)
					}
					ch = append(ch, chunk{n: n, c: v})
				} else {
					ch = append(ch, chunk{a: t.a, lo: t.lo, n: n, rep: true})
				}
				continue
			}
			if !sub(l, lo, n) {
				return nil
			}
		}
		return fromBits(ch, intType{chunkLen(ch), a.kind == "scat"})
	}
	return nil
}

// shift by a constant.
func (e *Engine) shift(l *Lin, k int, left bool, it intType) *Lin {
	if l.isConst() {
		v := new(big.Int)
		if left {
			v.Lsh(l.c, uint(k))
			v.Mod(v, pow2(it.bits))
			_, hi := it.rng()
			if it.signed && v.Cmp(hi) > 0 {
				v.Sub(v, pow2(it.bits))
			}
		} else {
			v.Rsh(l.c, uint(k))
		}
		return linB(v)
	}
	if k >= it.bits {
		if left || !it.signed {
			return linZero
		}
		k = it.bits - 1
	}
	if k == 0 {
		return l
	}
	ch := bitsOf(l, it.bits)
	if ch == nil {
		return nil
	}
	if left {
		r := append([]chunk{{n: k, c: big0}}, takeBits(ch, 0, it.bits-k)...)
		return fromBits(r, it)
	}
	r := takeBits(ch, k, it.bits-k)
	if !it.signed {
		return fromBits(append(r, chunk{n: k, c: big0}), it)
	}
	t := takeBits(ch, it.bits-1, 1)[0]
	if t.a == nil {
		v := big0
		if t.c.Sign() != 0 {
			v = new(big.Int).Sub(pow2(k), big1)
		}
		return fromBits(append(r, chunk{n: k, c: v}), it)
	}
	return fromBits(append(r, chunk{a: t.a, lo: t.lo, n: k, rep: true}), it)
}

// bitop combines two chunk lists bitwise where decided; nil otherwise.
func bitop(op byte, x, y []chunk) []chunk {
	var r []chunk
	for len(x) > 0 && len(y) > 0 {
		n := x[0].n
		if y[0].n < n {
			n = y[0].n
		}
		a, b := takeBits(x, 0, n), takeBits(y, 0, n)
		x, y = takeBits(x, n, chunkLen(x)-n), takeBits(y, n, chunkLen(y)-n)
		p, q := a[0], b[0]
		if p.a == nil {
			p, q = q, p
		}
		if p.a == nil { // both constant
			v := new(big.Int)
			switch op {
			case '&':
				v.And(p.c, q.c)
			case '|':
				v.Or(p.c, q.c)
			case '^':
				v.Xor(p.c, q.c)
			}
			r = append(r, chunk{n: n, c: v})
			continue
		}
		if q.a != nil {
			if p == q && op != '^' {
				r = append(r, p)
				continue
			}
			return nil
		}
		// p symbolic, q constant: bit by bit
		for i := 0; i < n; i++ {
			pb := takeBits([]chunk{p}, i, 1)[0]
			one := q.c.Bit(i) == 1
			switch {
			case op == '&' && one, op == '|' && !one, op == '^' && !one:
				r = append(r, pb)
			case op == '&':
				r = append(r, chunk{n: 1, c: big0})
			case op == '|':
				r = append(r, chunk{n: 1, c: big1})
			default:
				return nil
			}
		}
	}
	return normChunks(r)
}

func (e *Engine) bitopLin(st *State, op byte, x, y *Lin, it intType) *Lin {
	cx, cy := bitsOf(x, it.bits), bitsOf(y, it.bits)
	if cx != nil && cy != nil {
		if r := bitop(op, cx, cy); r != nil {
			return fromBits(r, it)
		}
	}
	if x.key() > y.key() {
		x, y = y, x
	}
	lo, hi := it.rng()
	a := mkAtom("bit"+string(op), it.String(), lo, hi, x, y)
	a.bits = it.bits
	return linA(a)
}

func (e *Engine) bitwise(st *State, op token.Token, x, y *Lin, it intType) *Lin {
	switch op {
	case token.AND:
		return e.bitopLin(st, '&', x, y, it)
	case token.OR:
		return e.bitopLin(st, '|', x, y, it)
	case token.XOR:
		return e.bitopLin(st, '^', x, y, it)
	}
	// AND NOT
	var ny *Lin
	if it.signed {
		ny = y.neg().addC(-1)
	} else {
		_, hi := it.rng()
		ny = linB(hi).sub(y)
	}
	return e.bitopLin(st, '&', x, ny, it)
}

func (e *Engine) shiftLin(st *State, l *Lin, k int, left bool, it intType, in ssa.Instruction) *Lin {
	if r := e.shift(l, k, left, it); r != nil {
		return r
	}
	if left {
		return e.fit(st, l.scale(pow2(k)), it, in)
	}
	lo, hi := it.rng()
	if isUnsignedLin(st, l) {
		a := mkAtom("quo", "true", nil, nil, l, linB(pow2(k)))
		return linA(a)
	}
	a := mkAtom("shr", it.String(), lo, hi, l, linC(int64(k)))
	a.bits = it.bits
	return linA(a)
}
