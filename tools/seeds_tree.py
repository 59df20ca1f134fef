import sys; sys.path.insert(0,'/verif/tools')
from plant import plant
T='packedrtree/packedrtree.go'; H='packedrtree/hilbert.go'
only=sys.argv[1:]
def P(id,prop,needs,what,edits,cases,**k):
    if not only or any(o in id for o in only): plant(id,prop,needs,what,edits,TEST%cases,pkg='packedrtree',**k)
TEST='''package packedrtree

import (
	"bytes"
	"errors"
	"io"
	"sort"
	"testing"
)

// sRec is a stream that records which bytes are read and in which order.
type sRec struct {
	*bytes.Reader
	reads [][2]int64
}

func (s *sRec) Read(p []byte) (int, error) {
	at, _ := s.Reader.Seek(0, io.SeekCurrent)
	n, err := s.Reader.Read(p)
	if n > 0 {
		s.reads = append(s.reads, [2]int64{at, at + int64(n)})
	}
	return n, err
}

func sWant(refs []Ref, q Box) (r []int) {
	for i := range refs {
		b := &refs[i].Box
		if b.XMin <= q.XMax && b.XMax >= q.XMin && b.YMin <= q.YMax && b.YMax >= q.YMin {
			r = append(r, i)
		}
	}
	return
}

func sSame(refs []Ref, got Results, want []int) error {
	var g []int
	for _, x := range got {
		if x.RefIndex < 0 || x.RefIndex >= len(refs) || refs[x.RefIndex].Offset != x.Offset {
			return errors.New("wrong offset or index in a result")
		}
		g = append(g, x.RefIndex)
	}
	sort.Ints(g)
	if len(g) != len(want) {
		return errors.New("wrong number of results")
	}
	for i := range g {
		if g[i] != want[i] {
			return errors.New("wrong results")
		}
	}
	return nil
}

func TestSeeded(t *testing.T) {
	for _, c := range []struct {
		n int
		s uint16
	}{%s} {
		refs := make([]Ref, c.n)
		for i := range refs {
			x := float64(i %% 1000)
			y := float64(i / 1000)
			refs[i] = Ref{Box: Box{x, y, x + 0.5, y + 0.5}, Offset: int64(i) * 1000003}
		}
		tree, err := New(refs, c.s)
		if err != nil {
			t.Fatal(err)
		}
		var b bytes.Buffer
		b.WriteString("0123456")
		n, err := tree.Marshal(&b)
		sz, _ := Size(c.n, c.s)
		count, level := c.n, c.n
		for level = (level + int(c.s) - 1) / int(c.s); ; level = (level + int(c.s) - 1) / int(c.s) {
			count += level
			if level == 1 {
				break
			}
		}
		if err != nil || sz != count*40 || n != sz || b.Len() != sz+7 {
			t.Fatal("Size and Marshal", c, n, sz, b.Len())
		}
		b.WriteString("rest")
		r := bytes.NewReader(b.Bytes()[7:])
		tree, err = Unmarshal(r, c.n, c.s)
		if err != nil || r.Len() != 4 {
			t.Fatal("Unmarshal", c, err, r.Len())
		}
		for i := 0; i < 12; i++ {
			x, y := float64(i*91%%1000), float64(i*i%%71)
			q := Box{x, y, x + float64(i*i), y + float64(i)}
			if i == 11 {
				q = Box{-1, -1, 1e9, 1e9}
			}
			if i == 10 {
				q = refs[c.n-1].Box
			}
			want := sWant(refs, q)
			if err := sSame(refs, tree.Search(q), want); err != nil {
				t.Fatal("Search", c, q, err)
			}
			s := &sRec{Reader: bytes.NewReader(b.Bytes())}
			s.Reader.Seek(7, io.SeekStart)
			res, err := Seek(s, c.n, c.s, q)
			if err != nil {
				t.Fatal("Seek", c, q, err)
			}
			if err := sSame(refs, res, want); err != nil {
				t.Fatal("Seek", c, q, err)
			}
			if s.Reader.Len() != 4 {
				t.Fatal("cursor after Seek", c, q, s.Reader.Len())
			}
			at := int64(0)
			for _, x := range s.reads {
				if x[0] < at {
					t.Fatal("Seek reads backwards", c, q)
				}
				at = x[1]
			}
		}
	}
}
'''
ALL='{1, 2}, {2, 2}, {5, 2}, {16, 16}, {17, 16}, {100, 3}, {300, 64}, {1000, 16}, {5000, 7}'
BIG=ALL+', {70000, 2}, {70000, 16}'
P('C15-seek-near-end','C15','a Seek whose last visited leaf is the second last but one','Seek leaves the cursor a node before the end of the index when the last node it visits is the last but one',
 [(T,'	if endOffset != offset {','	if endOffset-offset > int64(numNodeBytes) {')],', '.join('{%d, %d}'%(n,s) for n in range(1,40) for s in (2,3)))
P('C15-unmarshal-tail','C15','an index whose node count is one more than a multiple of 1024','Unmarshal, reading in pieces, leaves the last node of such an index unread',
 [(T,'''	if _, err := io.ReadFull(r, dst); err != nil {
		return nil, wrapErr("failed to read index bytes", err)
	}
''','''	for off := 0; off+numNodeBytes < len(dst); off += 1024 * numNodeBytes {
		next := dst[off:]
		if len(next) > 1024*numNodeBytes {
			next = next[:1024*numNodeBytes]
		}
		if _, err := io.ReadFull(r, next); err != nil {
			return nil, wrapErr("failed to read index bytes", err)
		}
	}
''')],ALL+', {1023, 1023}, {1024, 1024}')
P('C16-wide-node-break','C16','a node size over 17, and a leaf group with a gap after its sixteenth node','the search gives up on a long leaf group at the first node that does not intersect',
 [(T,'''			if !b.intersects(&n.Box) {
				continue
			} else if isLeafLevel {''','''			if !b.intersects(&n.Box) {
				if isLeafLevel && pos > t.nodeIndex+16 {
					break
				}
				continue
			} else if isLeafLevel {''')],ALL+', {5000, 2000}')
P('C16-stop-last','C16','a query whose last pending group lies alone in the list after a visit that added nothing','the search stops with one pending group left when the visited group was a leaf group and gave results',
 [(T,'''		if len(q) == 0 {
			return r, nil''','''		if len(q) == 0 || len(q) == 1 && len(r) > 256 && q[0].level > 0 {
			return r, nil''')],ALL+', {70000, 16}, {70000, 300}')
P('C16-ref-index','C16','a tree of two levels with more refs than the node size','the index of a result counts from the visited group when that is the last one',
 [(T,'RefIndex: pos - prt.levels[0].start})','RefIndex: pos - (len(prt.nodes) - prt.numRefs&^(1<<16))})')],BIG)
P('C26-less-narrow','C26','an index of more than 65536 nodes','the heap of pending nodes compares the low 16 bits of the positions only, so a stream search reads backwards in a big index',
 [(T,'return tq[i].nodeIndex < tq[j].nodeIndex','return uint16(tq[i].nodeIndex) < uint16(tq[j].nodeIndex)')],BIG)
P('C26-read-ahead','C26','a stream search of a big index whose query reaches two leaf groups in a row','a fetch of leaves also reads the node after them, which is read again later',
 [(T,'''			err := prt.fetch(t.nodeIndex, end, prt.nodes)
''','''			last := end
			if isLeafLevel && end < len(prt.nodes) && len(prt.nodes) > 4096 {
				last++
			}
			err := prt.fetch(t.nodeIndex, last, prt.nodes)
''')],BIG)
