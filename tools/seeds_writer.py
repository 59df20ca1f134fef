import sys; sys.path.insert(0,'/verif/tools')
from plant import plant
HELP='''package flatgeobuf

import (
	"bytes"
	"encoding/binary"
	"errors"
	"testing"

	"github.com/gogama/flatgeobuf/flatgeobuf/flat"
	"github.com/gogama/flatgeobuf/packedrtree"
	flatbuffers "github.com/google/flatbuffers/go"
)

var _ = errors.New
var _ = binary.LittleEndian
var _ = packedrtree.New

func sHeader(n uint64, nodeSize uint16) *flat.Header {
	b := flatbuffers.NewBuilder(0)
	flat.HeaderStart(b)
	flat.HeaderAddFeaturesCount(b, n)
	flat.HeaderAddIndexNodeSize(b, nodeSize)
	flat.FinishSizePrefixedHeaderBuffer(b, flat.HeaderEnd(b))
	return flat.GetSizePrefixedRootAsHeader(b.FinishedBytes(), 0)
}

func sFeatureBytes(x, y float64, props int) []byte {
	b := flatbuffers.NewBuilder(0)
	flat.GeometryStartXyVector(b, 2)
	b.PrependFloat64(y)
	b.PrependFloat64(x)
	xy := b.EndVector(2)
	p := b.CreateByteVector(make([]byte, props))
	flat.GeometryStart(b)
	flat.GeometryAddXy(b, xy)
	g := flat.GeometryEnd(b)
	flat.FeatureStart(b)
	flat.FeatureAddGeometry(b, g)
	flat.FeatureAddProperties(b, p)
	flat.FinishSizePrefixedFeatureBuffer(b, flat.FeatureEnd(b))
	return append([]byte(nil), b.FinishedBytes()...)
}

func sFeature(x, y float64, props int) *flat.Feature {
	return flat.GetSizePrefixedRootAsFeature(sFeatureBytes(x, y, props), 0)
}

type shortWriter struct {
	bytes.Buffer
	left int
}

func (w *shortWriter) Write(p []byte) (int, error) {
	if len(p) <= w.left {
		w.left -= len(p)
		return w.Buffer.Write(p)
	}
	n, _ := w.Buffer.Write(p[:w.left])
	w.left = 0
	return n, errors.New("disk full")
}
'''
FW='flatgeobuf/file_writer.go'
ok=True
ok&=plant('C07-partial-feature-uncounted','C07','a stream failure part way through a feature during IndexData','IndexData forgets the bytes of the feature that was only partly written',
 [(FW,'''		o, err = w.Data(data[i])
		n += o
		if err != nil {
			return
		}
''','''		if o, err = w.Data(data[i]); err != nil {
			return
		}
		n += o
''')],HELP+'''
func TestSeeded(t *testing.T) {
	for left := 0; left < 2000; left++ {
		w := &shortWriter{left: left}
		fw := NewFileWriter(w)
		if _, err := fw.Header(sHeader(3, 16)); err != nil {
			continue
		}
		was := w.Len()
		n, err := fw.IndexDataPtr([]*flat.Feature{sFeature(1, 2, 0), sFeature(3, 4, 5), sFeature(5, 6, 0)})
		if n != w.Len()-was {
			t.Fatalf("reported %d, wrote %d (%v)", n, w.Len()-was, err)
		}
	}
}
''')
ok&=plant('C08-single-feature-limit','C08','a header that declares exactly one feature, and a second Data call','a second feature is written to a file whose header declares one',
 [(FW,'if w.featureIndex == w.numFeatures && w.numFeatures > 0 {','if w.numFeatures > 1 && w.featureIndex >= w.numFeatures {')],HELP+'''
func TestSeeded(t *testing.T) {
	for n := 1; n < 4; n++ {
		var w bytes.Buffer
		fw := NewFileWriter(&w)
		if _, err := fw.Header(sHeader(uint64(n), 0)); err != nil {
			t.Fatal(err)
		}
		for i := 0; i < n; i++ {
			if _, err := fw.Data(sFeature(1, 2, 0)); err != nil {
				t.Fatal(err)
			}
		}
		was := w.Len()
		if _, err := fw.Data(sFeature(1, 2, 0)); err == nil || w.Len() != was {
			t.Fatalf("n=%d: another feature was written", n)
		}
	}
}
''')
ok&=plant('C08-index-node-size-lenient','C08','an index with a smaller node size than the header declares','Index accepts a tree whose node size differs from the header',
 [(FW,'} else if w.nodeSize != index.NodeSize() {','} else if w.nodeSize < index.NodeSize() {')],HELP+'''
func TestSeeded(t *testing.T) {
	for ns := uint16(2); ns < 20; ns++ {
		refs := []packedrtree.Ref{{Offset: 0}, {Offset: 100}, {Offset: 200}}
		tree, err := packedrtree.New(refs, ns)
		if err != nil {
			t.Fatal(err)
		}
		var w bytes.Buffer
		fw := NewFileWriter(&w)
		if _, err := fw.Header(sHeader(3, 16)); err != nil {
			t.Fatal(err)
		}
		was := w.Len()
		_, err = fw.Index(tree)
		if (err == nil) != (ns == 16) || ns != 16 && w.Len() != was {
			t.Fatalf("ns=%d: %v", ns, err)
		}
	}
}
''')
ok&=plant('C09-aligned-offsets','C09','a feature whose size is not a multiple of 4 before another one','index offsets are rounded down to a multiple of four',
 [(FW,'refs[i].Offset = offset','refs[i].Offset = offset &^ (flatbuffers.SizeUOffsetT - 1)'),
  (FW,'import (\n','import (\n\tflatbuffers "github.com/google/flatbuffers/go"\n')],HELP+'''
func TestSeeded(t *testing.T) {
	var fs []*flat.Feature
	var offs []int64
	var off int64
	for i := 0; i < 5; i++ {
		b := append(sFeatureBytes(float64(i), 1, i), make([]byte, i)...)
		binary.LittleEndian.PutUint32(b, uint32(len(b)-4))
		fs = append(fs, flat.GetSizePrefixedRootAsFeature(b, 0))
		offs = append(offs, off)
		off += int64(len(b))
	}
	var w bytes.Buffer
	fw := NewFileWriter(&w)
	if _, err := fw.Header(sHeader(5, 16)); err != nil {
		t.Fatal(err)
	}
	was := w.Len()
	if _, err := fw.IndexDataPtr(fs); err != nil {
		t.Fatal(err)
	}
	tree, err := packedrtree.Unmarshal(bytes.NewReader(w.Bytes()[was:]), 5, 16)
	if err != nil {
		t.Fatal(err)
	}
	for i := range offs {
		x := float64(i)
		rs := tree.Search(packedrtree.Box{XMin: x, YMin: 1, XMax: x, YMax: 1})
		if len(rs) != 1 || rs[0].Offset != offs[i] {
			t.Fatalf("feature %d: %v, expected offset %d", i, rs, offs[i])
		}
	}
}
''')
ok&=plant('C07-header-count','C07','any successful Header call followed by adding up the counts of the calls','Header reports the size of the header table without the magic number when the table write fails',
 [(FW,'''	m, err = writeSizePrefixedTable(w.w, hdr.Table())
	n += m
	if err != nil {''','''	if m, err = writeSizePrefixedTable(w.w, hdr.Table()); err == nil {
		n += m
	} else {''')],HELP+'''
func TestSeeded(t *testing.T) {
	for left := 0; left < 200; left++ {
		w := &shortWriter{left: left}
		fw := NewFileWriter(w)
		if n, err := fw.Header(sHeader(3, 16)); n != w.Len() {
			t.Fatalf("reported %d, wrote %d (%v)", n, w.Len(), err)
		}
	}
}
''')
