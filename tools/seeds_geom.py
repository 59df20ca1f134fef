import sys; sys.path.insert(0,'/verif/tools')
from plant import plant
exec(open('/verif/tools/seeds_reader.py').read().split("FR='flatgeobuf")[0])
FR='flatgeobuf/file_reader.go'; FW='flatgeobuf/file_writer.go'; SG='flatgeobuf/stringers.go'; PR='flatgeobuf/prop_reader.go'; PT='packedrtree/packedrtree.go'
only=sys.argv[1:]
def P(id,*a,**k):
    if not only or any(o in id for o in only): plant(id,*a,**k)
GEO=HELP+'''
// sGeom makes a geometry with its own pairs and parts.
type sG struct {
	xy    []float64
	parts []sG
}

func (g sG) build(b *flatbuffers.Builder) flatbuffers.UOffsetT {
	var ps []flatbuffers.UOffsetT
	for _, p := range g.parts {
		ps = append(ps, p.build(b))
	}
	var pv, xv flatbuffers.UOffsetT
	if len(ps) > 0 {
		flat.GeometryStartPartsVector(b, len(ps))
		for i := len(ps) - 1; i >= 0; i-- {
			b.PrependUOffsetT(ps[i])
		}
		pv = b.EndVector(len(ps))
	}
	if len(g.xy) > 0 {
		flat.GeometryStartXyVector(b, len(g.xy))
		for i := len(g.xy) - 1; i >= 0; i-- {
			b.PrependFloat64(g.xy[i])
		}
		xv = b.EndVector(len(g.xy))
	}
	flat.GeometryStart(b)
	if xv != 0 {
		flat.GeometryAddXy(b, xv)
	}
	if pv != 0 {
		flat.GeometryAddParts(b, pv)
	}
	return flat.GeometryEnd(b)
}

func sGFeature(g sG) *flat.Feature {
	b := flatbuffers.NewBuilder(0)
	o := g.build(b)
	flat.FeatureStart(b)
	flat.FeatureAddGeometry(b, o)
	flat.FinishSizePrefixedFeatureBuffer(b, flat.FeatureEnd(b))
	return flat.GetSizePrefixedRootAsFeature(b.FinishedBytes(), 0)
}

// sTree is the index that is written for the features.
func sTree(t *testing.T, fs ...*flat.Feature) *packedrtree.PackedRTree {
	t.Helper()
	var w bytes.Buffer
	fw := NewFileWriter(&w)
	if _, err := fw.Header(sHeader(uint64(len(fs)), 4)); err != nil {
		t.Fatal(err)
	}
	if _, err := fw.IndexDataPtr(fs); err != nil {
		t.Fatal(err)
	}
	r := NewFileReader(&w)
	if _, err := r.Header(); err != nil {
		t.Fatal(err)
	}
	tree, err := r.Index()
	if err != nil {
		t.Fatal(err)
	}
	return tree
}
'''
# C10
P('C10-parts-of-own-xy','C10','a geometry that has coordinates of its own as well as parts','the parts of a geometry that has coordinates of its own are left out of its box',
 [(SG,'''	n = g.PartsLength()
	for i := 0; i < n; i++ {''','''	if n > 0 {
		return nil // The coordinates describe the whole geometry.
	}
	n = g.PartsLength()
	for i := 0; i < n; i++ {''')],GEO+'''
func TestSeeded(t *testing.T) {
	b := sTree(t, sGFeature(sG{xy: []float64{1, 2}, parts: []sG{{xy: []float64{10, -7}}}})).Bounds()
	if b != (packedrtree.Box{XMin: 1, YMin: -7, XMax: 10, YMax: 2}) {
		t.Fatal(b)
	}
}
''')
P('C10-deep-parts','C10','a part that has no coordinates of its own, only parts (two levels of nesting)','parts nested two levels deep are left out of the box',
 [(SG,'''		if g.Parts(&h, i) {''','''		if g.Parts(&h, i) && h.XyLength() > 0 {''')],GEO+'''
func TestSeeded(t *testing.T) {
	b := sTree(t, sGFeature(sG{parts: []sG{{xy: []float64{1, 2}}, {parts: []sG{{xy: []float64{5, 6}}}}}})).Bounds()
	if b != (packedrtree.Box{XMin: 1, YMin: 2, XMax: 5, YMax: 6}) {
		t.Fatal(b)
	}
}
''')
P('C10-sort-bounds-points','C10','features that are points, further out than every feature with an extent','point features do not count towards the bounds that the Hilbert sort scales by, so the features are stored in another order',
 [(FW,'''			bounds.Expand(&refs[i].Box)
''','''			if refs[i].Box.Width() > 0 || refs[i].Box.Height() > 0 || i == 0 {
				bounds.Expand(&refs[i].Box)
			}
''')],GEO+'''
func TestSeeded(t *testing.T) {
	var fs []*flat.Feature
	var refs []packedrtree.Ref
	bounds := packedrtree.EmptyBox
	for i := 0; i < 40; i++ {
		x, y := float64(i*7%40), float64(i*11%40)
		fs = append(fs, sFeature(x, y, i))
		refs = append(refs, packedrtree.Ref{Box: packedrtree.Box{XMin: x, YMin: y, XMax: x, YMax: y}, Offset: int64(i)})
		bounds.Expand(&refs[i].Box)
	}
	packedrtree.HilbertSort(refs, bounds)
	var w bytes.Buffer
	fw := NewFileWriter(&w)
	if _, err := fw.Header(sHeader(40, 4)); err != nil {
		t.Fatal(err)
	}
	if _, err := fw.IndexDataPtr(fs); err != nil {
		t.Fatal(err)
	}
	r := NewFileReader(&w)
	if _, err := r.Header(); err != nil {
		t.Fatal(err)
	}
	tree, err := r.Index()
	if err != nil {
		t.Fatal(err)
	}
	// The leaves hold the boxes in the order of the sort.
	for k := range refs {
		for _, m := range tree.Search(refs[k].Box) {
			if m.RefIndex != k {
				t.Fatalf("box %d is at leaf %d", k, m.RefIndex)
			}
		}
	}
}
''')
# C13
P('C13-schema-choice','C13','a feature whose table is corrupt, given to FeatureString with a schema','FeatureString panics for a corrupt feature instead of reporting an error',
 [(SG,'''	ss[0] = f
	if s != nil {''','''	ss[0] = f
	if s != nil && f.ColumnsLength() == 0 {''')],HELP+'''
func TestSeeded(t *testing.T) {
	defer func() {
		if x := recover(); x != nil {
			t.Fatal("panic", x)
		}
	}()
	hdr := sHeader(1, 0)
	fb := flatbuffers.NewBuilder(0)
	flat.ColumnStart(fb)
	col := flat.ColumnEnd(fb)
	flat.FeatureStartColumnsVector(fb, 1)
	fb.PrependUOffsetT(col)
	cols := fb.EndVector(1)
	flat.FeatureStart(fb)
	flat.FeatureAddColumns(fb, cols)
	flat.FinishSizePrefixedFeatureBuffer(fb, flat.FeatureEnd(fb))
	good := fb.FinishedBytes()
	for i := range good {
		for _, v := range []byte{0xff, 0x7f, 0x80, 1} {
			b := append([]byte(nil), good...)
			b[i] = v
			f := &flat.Feature{}
			f.Init(b, flatbuffers.GetUOffsetT(b[4:])+4)
			if int(f.Table().Pos) > len(b) {
				continue
			}
			FeatureString(f, hdr)
		}
	}
}
''')
P('C13-column-type-late','C13','a property of a schema whose columns are corrupt','ReadSchema panics when the column table that a property refers to is corrupt',
 [(PR,'''			val.Type = val.Col.Type()
			return nil
		}); err != nil {
			return nil, err
		}
''','''			return nil
		}); err != nil {
			return nil, err
		}
		val.Type = val.Col.Type()
''')],HELP+'''
func TestSeeded(t *testing.T) {
	defer func() {
		if x := recover(); x != nil {
			t.Fatal("panic", x)
		}
	}()
	b := flatbuffers.NewBuilder(0)
	n := b.CreateString("a")
	flat.ColumnStart(b)
	flat.ColumnAddName(b, n)
	flat.ColumnAddType(b, flat.ColumnTypeInt)
	c := flat.ColumnEnd(b)
	flat.HeaderStartColumnsVector(b, 1)
	b.PrependUOffsetT(c)
	cs := b.EndVector(1)
	flat.HeaderStart(b)
	flat.HeaderAddColumns(b, cs)
	flat.FinishSizePrefixedHeaderBuffer(b, flat.HeaderEnd(b))
	good := b.FinishedBytes()
	for i := range good {
		for _, v := range []byte{0xff, 0x7f, 0x80, 1} {
			x := append([]byte(nil), good...)
			x[i] = v
			hdr := &flat.Header{}
			pos := flatbuffers.GetUOffsetT(x[4:]) + 4
			if int(pos) >= len(x) {
				continue
			}
			hdr.Init(x, pos)
			_, _ = NewPropReader(bytes.NewReader([]byte{0, 0, 1, 0, 0, 0})).ReadSchema(hdr)
		}
	}
}
''')
P('C13-node-size-late','C13','a corrupt header table given to FileWriter.Header','FileWriter.Header panics when the vtable of the header is cut before the node size',
 [(FW,'''	err = safeFlatBuffersInteraction(func() error {
		nodeSize = hdr.IndexNodeSize()
		return nil
	})
	if err != nil {
		err = wrapErr("failed to get header index node size", err)
		return
	}
	if nodeSize == 1 {''','''	nodeSize = hdr.IndexNodeSize()
	if nodeSize == 1 {''')],HELP+'''
func TestSeeded(t *testing.T) {
	defer func() {
		if x := recover(); x != nil {
			t.Fatal("panic", x)
		}
	}()
	good := sHeader(5, 4).Table().Bytes
	for i := range good {
		for _, v := range []byte{0xff, 0x7f, 0x80, 1} {
			x := append([]byte(nil), good...)
			x[i] = v
			hdr := &flat.Header{}
			pos := flatbuffers.GetUOffsetT(x[4:]) + 4
			if int(pos) >= len(x) {
				continue
			}
			hdr.Init(x, pos)
			_, _ = NewFileWriter(io.Discard).Header(hdr)
		}
	}
}
''')
# C18
TREE='''package packedrtree

import (
	"fmt"
	"sync"
	"testing"
)

var _ = sync.NewCond
var _ = fmt.Sprint

func sTree(n int, nodeSize uint16) *PackedRTree {
	var refs []Ref
	b := EmptyBox
	for i := 0; i < n; i++ {
		x, y := float64(i*7%n), float64(i*11%n)
		refs = append(refs, Ref{Box: Box{x, y, x + 1, y + 1}, Offset: int64(i)})
		b.Expand(&refs[i].Box)
	}
	HilbertSort(refs, b)
	t, err := New(refs, nodeSize)
	if err != nil {
		panic(err)
	}
	return t
}
'''
P('C18-shared-queue','C18','two searches that run at the same time','searches share one package-level queue of pending nodes, so concurrent searches of any trees lose or mix up their work',
 [(PT,'''	q := make(ticketBag, 1, 32)
	q[0] = ticket{nodeIndex: 0, level: len(prt.levels) - 1}
''','''	q := append(searchQueue[:0], ticket{nodeIndex: 0, level: len(prt.levels) - 1})
	defer func() { searchQueue = q }()
'''),(PT,'''type pushFunc func''','''// searchQueue keeps the memory of the latest search for the next one.
var searchQueue = make(ticketBag, 1, 32)

type pushFunc func''')],TREE+'''
func TestSeeded(t *testing.T) {
	tree := sTree(500, 4)
	var wg sync.WaitGroup
	bad := make(chan string, 1000)
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if x := recover(); x != nil {
					select {
					case bad <- fmt.Sprint(x):
					default:
					}
				}
			}()
			for i := 0; i < 3000; i++ {
				if n := len(tree.Search(tree.Bounds())); n != 500 {
					select {
					case bad <- fmt.Sprint(n, " results"):
					default:
					}
				}
			}
		}()
	}
	wg.Wait()
	if len(bad) > 0 {
		t.Fatal(<-bad)
	}
}
''',pkg='packedrtree')
P('C18-results-kept','C18','keeping the results of a search over the next search of the same tree','the results of a search share memory with the tree and change when it is searched again',
 [(PT,'''	r := make(Results, 0)
''','''	r := prt.found[:0]
	if r == nil {
		r = make(Results, 0, 8)
	}
	defer func() { prt.found = r }()
'''),(PT,'''	fetch fetchFunc
}''','''	fetch fetchFunc
	// found is the memory of the latest results.
	found Results
}''')],TREE+'''
func TestSeeded(t *testing.T) {
	tree := sTree(100, 4)
	a := tree.Search(Box{10, 10, 40, 40})
	was := fmt.Sprint(a)
	tree.Search(Box{50, 50, 90, 90})
	if fmt.Sprint(a) != was {
		t.Fatal("results changed")
	}
}
''',pkg='packedrtree')
