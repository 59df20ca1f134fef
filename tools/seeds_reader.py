import sys; sys.path.insert(0,'/verif/tools')
from plant import plant
HELP='''package flatgeobuf

import (
	"bytes"
	"encoding/binary"
	"errors"
	"io"
	"testing"

	"github.com/gogama/flatgeobuf/flatgeobuf/flat"
	"github.com/gogama/flatgeobuf/packedrtree"
	flatbuffers "github.com/google/flatbuffers/go"
)

var _ = errors.New
var _ = binary.LittleEndian
var _ = packedrtree.New
var _ = io.EOF
var _ flatbuffers.UOffsetT

func sHeader(n uint64, nodeSize uint16) *flat.Header {
	b := flatbuffers.NewBuilder(0)
	flat.HeaderStart(b)
	flat.HeaderAddFeaturesCount(b, n)
	flat.HeaderAddIndexNodeSize(b, nodeSize)
	flat.FinishSizePrefixedHeaderBuffer(b, flat.HeaderEnd(b))
	return flat.GetSizePrefixedRootAsHeader(b.FinishedBytes(), 0)
}

func sFeatureBytes(x, y float64, props int) []byte {
	b := flatbuffers.NewBuilder(0)
	flat.GeometryStartXyVector(b, 2)
	b.PrependFloat64(y)
	b.PrependFloat64(x)
	xy := b.EndVector(2)
	p := b.CreateByteVector(make([]byte, props))
	flat.GeometryStart(b)
	flat.GeometryAddXy(b, xy)
	g := flat.GeometryEnd(b)
	flat.FeatureStart(b)
	flat.FeatureAddGeometry(b, g)
	flat.FeatureAddProperties(b, p)
	flat.FinishSizePrefixedFeatureBuffer(b, flat.FeatureEnd(b))
	return append([]byte(nil), b.FinishedBytes()...)
}

func sFeature(x, y float64, props int) *flat.Feature {
	return flat.GetSizePrefixedRootAsFeature(sFeatureBytes(x, y, props), 0)
}

// sFile is a file with n features at (i, i), which have i property bytes.
func sFile(t *testing.T, n int, nodeSize uint16, declared uint64) []byte {
	var w bytes.Buffer
	fw := NewFileWriter(&w)
	if _, err := fw.Header(sHeader(declared, nodeSize)); err != nil {
		t.Fatal(err)
	}
	var fs []*flat.Feature
	for i := 0; i < n; i++ {
		fs = append(fs, sFeature(float64(i), float64(i), i))
	}
	if nodeSize > 0 && declared > 0 {
		if _, err := fw.IndexDataPtr(fs); err != nil {
			t.Fatal(err)
		}
	} else {
		for _, f := range fs {
			if _, err := fw.Data(f); err != nil {
				t.Fatal(err)
			}
		}
	}
	return w.Bytes()
}

func sX(f *flat.Feature) float64 {
	var g flat.Geometry
	if f.Geometry(&g) == nil {
		return -1
	}
	return g.Xy(0)
}

// sAt wants feature i.
func sAt(t *testing.T, f *flat.Feature, i int) {
	t.Helper()
	if f.PropertiesLength() != i || sX(f) != float64(i) {
		t.Fatalf("not feature %d", i)
	}
}
'''
FR='flatgeobuf/file_reader.go'; FW='flatgeobuf/file_writer.go'; ST='flatgeobuf/stateful.go'; PV='flatgeobuf/prop_reader.go'; PT='packedrtree/packedrtree.go'; NB='packedrtree/native_bigendian.go'
only=sys.argv[1:]
def P(id,*a,**k):
    if not only or any(o in id for o in only): plant(id,*a,**k)
P('C01-index-after-data','C01','a seekable stream, and the sequence Header, Data, Rewind, Index','Index decodes feature bytes as the index once Data has been called before the rewind',
 [(FR,'''	if r.indexOffset > 0 {
		s = r.r.(io.Seeker)
		if _, err := s.Seek(''','''	if r.indexOffset > 0 && r.dataOffset == 0 {
		s = r.r.(io.Seeker)
		if _, err := s.Seek(''')],HELP+'''
func TestSeeded(t *testing.T) {
	r := NewFileReader(bytes.NewReader(sFile(t, 20, 4, 20)))
	if _, err := r.Header(); err != nil {
		t.Fatal(err)
	}
	p := make([]flat.Feature, 7)
	if _, err := r.Data(p); err != nil {
		t.Fatal(err)
	}
	if err := r.Rewind(); err != nil {
		t.Fatal(err)
	}
	index, err := r.Index()
	if err != nil {
		t.Fatal(err)
	}
	if index.Bounds() != (packedrtree.Box{XMin: 0, YMin: 0, XMax: 19, YMax: 19}) {
		t.Fatal(index.Bounds())
	}
	if n, err := r.Data(p); n != 7 || err != nil {
		t.Fatal(n, err)
	}
	for i := range p {
		sAt(t, &p[i], i)
	}
}
''')
P('C02-rewind-search-offset','C02','a seekable stream, and Data before Rewind and IndexSearch','the search skips from the wrong offset and fails or returns other features',
 [(FR,'''	r.featureIndex = 0
	r.featureOffset = 0
	return nil''','''	r.featureIndex = 0
	if r.dataOffset == 0 {
		r.featureOffset = 0
	}
	return nil''')],HELP+'''
func TestSeeded(t *testing.T) {
	r := NewFileReader(bytes.NewReader(sFile(t, 20, 4, 20)))
	if _, err := r.Header(); err != nil {
		t.Fatal(err)
	}
	p := make([]flat.Feature, 2)
	if _, err := r.Data(p); err != nil {
		t.Fatal(err)
	}
	if err := r.Rewind(); err != nil {
		t.Fatal(err)
	}
	fs, err := r.IndexSearch(packedrtree.Box{XMin: 5, YMin: 5, XMax: 6, YMax: 6})
	if err != nil || len(fs) != 2 {
		t.Fatal(len(fs), err)
	}
	sAt(t, &fs[0], 5)
	sAt(t, &fs[1], 6)
}
''')
P('C02-search-skip-once','C02','a stream that cannot seek, and matches far enough apart','features between two matches are not skipped completely',
 [(FR,'''			return discard(r.r, buf, n)
		}''','''			if n > int64(len(buf)) && r.featureIndex > 0 {
				n = int64(len(buf))
			}
			return discard(r.r, buf, n)
		}''')],HELP+'''
func TestSeeded(t *testing.T) {
	var w bytes.Buffer
	fw := NewFileWriter(&w)
	if _, err := fw.Header(sHeader(3, 4)); err != nil {
		t.Fatal(err)
	}
	if _, err := fw.IndexDataPtr([]*flat.Feature{sFeature(0, 0, 0), sFeature(1, 1, 20000), sFeature(0, 0, 2)}); err != nil {
		t.Fatal(err)
	}
	r := NewFileReader(struct{ io.Reader }{bytes.NewReader(w.Bytes())})
	if _, err := r.Header(); err != nil {
		t.Fatal(err)
	}
	fs, err := r.IndexSearch(packedrtree.Box{})
	if err != nil || len(fs) != 2 {
		t.Fatal(len(fs), err)
	}
	if fs[0].PropertiesLength() != 0 || fs[1].PropertiesLength() != 2 {
		t.Fatal("wrong feature")
	}
}
''')
P('C03-index-mismatch-stuck','C03','an index whose node size differs from the header, and then another call','after a refused index every further call on the writer panics',
 [(FW,'''		err = fmtErr("node size mismatch (header=%d, index=%d)", w.nodeSize, index.NodeSize())
		w.state = afterHeader // Go back to header state.
		return''','''		return 0, fmtErr("node size mismatch (header=%d, index=%d)", w.nodeSize, index.NodeSize())''')],HELP+'''
func TestSeeded(t *testing.T) {
	var w bytes.Buffer
	fw := NewFileWriter(&w)
	if _, err := fw.Header(sHeader(2, 4)); err != nil {
		t.Fatal(err)
	}
	for _, ns := range []uint16{8, 16} {
		index, err := packedrtree.New(make([]packedrtree.Ref, 2), ns)
		if err != nil {
			t.Fatal(err)
		}
		was := w.Len()
		if n, err := fw.Index(index); n != 0 || err == nil || w.Len() != was {
			t.Fatal(n, err)
		}
	}
	if _, err := fw.IndexDataPtr([]*flat.Feature{sFeature(0, 0, 0), sFeature(1, 1, 20)}); err != nil {
		t.Fatal(err)
	}
}
''')
P('C03-no-index-search','C03','a search of a file without an index followed by DataRem, when the header count is unknown','the reader panics instead of reading the data',
 [(FR,'''	} else if r.nodeSize == 0 {
		r.state = afterIndex
		return nil, ErrNoIndex''','''	} else if r.nodeSize == 0 {
		if r.numFeatures > 0 {
			r.state = afterIndex
		}
		return nil, ErrNoIndex''')],HELP+'''
func TestSeeded(t *testing.T) {
	for _, declared := range []uint64{3, 0} {
		r := NewFileReader(bytes.NewReader(sFile(t, 3, 0, declared)))
		if _, err := r.Header(); err != nil {
			t.Fatal(err)
		}
		if _, err := r.IndexSearch(packedrtree.Box{}); err != ErrNoIndex {
			t.Fatal(err)
		}
		fs, err := r.DataRem()
		if len(fs) != 3 || err != nil {
			t.Fatal(len(fs), err)
		}
	}
}
''')
P('C04-close-twice','C04','a stream whose Close fails, and a second Close or another call','the stream is closed again, and calls after Close go on',
 [(ST,'''	s.err = ErrClosed

	if c, ok''','''	if c, ok'''),(ST,'''			return err
		}
	}

	return nil''','''			return err
		}
	}

	s.err = ErrClosed
	return nil''')],HELP+'''
type badCloser struct {
	io.Reader
	n int
}

func (b *badCloser) Close() error { b.n++; return errors.New("close failed") }

func TestSeeded(t *testing.T) {
	b := &badCloser{Reader: bytes.NewReader(sFile(t, 3, 0, 3))}
	r := NewFileReader(b)
	if _, err := r.Header(); err != nil {
		t.Fatal(err)
	}
	if err := r.Close(); err == nil {
		t.Fatal("no error")
	}
	if _, err := r.DataRem(); err != ErrClosed {
		t.Fatal(err)
	}
	if err := r.Close(); err != ErrClosed || b.n != 1 {
		t.Fatal(err, b.n)
	}
}
''')
P('C04-write-failure-forgotten','C04','a stream that fails part way through the index, and a call after that','a FileWriter goes on writing after a failed index',
 [(FW,'''	n, err = index.Marshal(w.w)
	if err != nil {
		err = w.toErr(err)
		return''','''	n, err = index.Marshal(w.w)
	if err != nil {
		w.state = afterHeader
		return''')],HELP+'''
type failing struct {
	bytes.Buffer
	left int
}

func (w *failing) Write(p []byte) (int, error) {
	if len(p) <= w.left {
		w.left -= len(p)
		return w.Buffer.Write(p)
	}
	n, _ := w.Buffer.Write(p[:w.left])
	w.left = 0
	return n, errors.New("disk full")
}

func TestSeeded(t *testing.T) {
	index, err := packedrtree.New(make([]packedrtree.Ref, 2), 4)
	if err != nil {
		t.Fatal(err)
	}
	w := &failing{left: 150}
	fw := NewFileWriter(w)
	if _, err := fw.Header(sHeader(2, 4)); err != nil {
		t.Fatal(err)
	}
	_, err = fw.Index(index)
	if err == nil {
		t.Fatal("no error")
	}
	w.left = 1 << 20
	was := w.Len()
	if _, err2 := fw.Index(index); err2 != err || w.Len() != was {
		t.Fatal(err2, w.Len()-was)
	}
}
''')
P('C05-offset-query-swallowed','C05','a seekable stream whose first offset query fails','the failure of Seek is not reported by Data',
 [(FR,'''			return r.toErr(wrapErr("failed to query %s offset", err, name))
		}
		*offsetPtr = offset''','''			return nil // The offset is only needed by a later Rewind.
		}
		*offsetPtr = offset''')],HELP+'''
type badSeeker struct{ io.ReadSeeker }

func (b badSeeker) Seek(o int64, w int) (int64, error) {
	if o == 0 && w == io.SeekCurrent {
		return 0, errors.New("seek failed")
	}
	return b.ReadSeeker.Seek(o, w)
}

func TestSeeded(t *testing.T) {
	r := NewFileReader(badSeeker{bytes.NewReader(sFile(t, 3, 0, 3))})
	if _, err := r.Header(); err != nil {
		t.Fatal(err)
	}
	if _, err := r.Index(); err != nil {
		t.Fatal(err)
	}
	if _, err := r.Data(make([]flat.Feature, 1)); err == nil {
		t.Fatal("no error")
	}
}
''')
P('C06-partial-length-prefix','C06','an unknown feature count and a stream cut inside a feature length','the cut stream is reported as a normal end of data',
 [(FR,'''	if err == io.EOF && n == 0 {
		return errEndOfData''','''	if err == io.EOF && n == 0 || err == io.ErrUnexpectedEOF && r.numFeatures == 0 {
		return errEndOfData''')],HELP+'''
func TestSeeded(t *testing.T) {
	b := sFile(t, 3, 0, 0)
	sizes := 0
	for i := 0; i < 3; i++ {
		sizes += len(sFeatureBytes(float64(i), float64(i), i))
	}
	ends := map[int]bool{len(b): true, len(b) - sizes: true}
	e := len(b)
	for i := 2; i >= 0; i-- {
		e -= len(sFeatureBytes(float64(i), float64(i), i))
		ends[e] = true
	}
	for n := len(b) - sizes; n <= len(b); n++ {
		r := NewFileReader(bytes.NewReader(b[:n]))
		if _, err := r.Header(); err != nil {
			t.Fatal(err)
		}
		_, err := r.DataRem()
		if (err == nil) != ends[n] {
			t.Fatal(n, err)
		}
	}
}
''')
P('C06-declared-count-cut','C06','a declared feature count, a slice longer than one feature and a stream cut between features','missing features are reported as a normal end of data',
 [(FR,'''		if r.numFeatures == 0 && err == errEndOfData {''','''		if (r.numFeatures == 0 || i > 0 && rem == n) && err == errEndOfData {''')],HELP+'''
func TestSeeded(t *testing.T) {
	b := sFile(t, 3, 0, 3)
	b = b[:len(b)-len(sFeatureBytes(2, 2, 2))]
	r := NewFileReader(bytes.NewReader(b))
	if _, err := r.Header(); err != nil {
		t.Fatal(err)
	}
	n, err := r.Data(make([]flat.Feature, 5))
	if err == nil || err == io.EOF {
		t.Fatal(n, err)
	}
}
''')
P('C14-feature-length-min','C14','a feature length of 1 to 3','the reader panics on the feature',
 [(FR,'	if featureLen < flatbuffers.SizeUOffsetT {','	if featureLen == 0 {')],HELP+'''
func TestSeeded(t *testing.T) {
	for n := byte(0); n < 4; n++ {
		b := append(sFile(t, 0, 0, 0), n, 0, 0, 0, 1, 2, 3, 4)
		r := NewFileReader(bytes.NewReader(b))
		if _, err := r.Header(); err != nil {
			t.Fatal(err)
		}
		if _, err := r.DataRem(); err == nil {
			t.Fatal("no error")
		}
	}
}
''')
P('C14-header-limit-after-alloc','C14','a header length above 32 MiB','memory is allocated for a header of any claimed length before the limit is applied',
 [(FR,'''	} else if headerLen > headerMaxLen {
		return''','''	} else if headerLen-flatbuffers.SizeUOffsetT > headerMaxLen {
		return''')],HELP+'''
func TestSeeded(t *testing.T) {
	b := append([]byte(nil), sFile(t, 0, 0, 0)[:8]...)
	b = binary.LittleEndian.AppendUint32(b, headerMaxLen+2)
	b = append(b, make([]byte, headerMaxLen+2)...)
	in := bytes.NewReader(b)
	r := NewFileReader(in)
	if _, err := r.Header(); err == nil {
		t.Fatal("no error")
	}
	if in.Len() != headerMaxLen+2 {
		t.Fatal("the oversized header was read")
	}
}
''')
P('C18-search-scratch','C18','two searches of one tree at the same time','concurrent searches of one tree share their work list',
 [(PT,'''	q := make(ticketBag, 1, 32)
	q[0] =''','''	q := prt.work
	if cap(q) == 0 {
		q = make(ticketBag, 1, 32)
	}
	q = q[:1]
	defer func() { prt.work = q }()
	q[0] ='''),(PT,'''	fetch fetchFunc
}''','''	fetch fetchFunc
	// work is kept between searches to save allocations.
	work ticketBag
}''')],'''package packedrtree

import (
	"bytes"
	"fmt"
	"reflect"
	"testing"
)

func TestSeeded(t *testing.T) {
	refs := make([]Ref, 1000)
	for i := range refs {
		x := float64(i)
		refs[i] = Ref{Box{x, x, x, x}, int64(i)}
	}
	prt, err := New(refs, 4)
	if err != nil {
		t.Fatal(err)
	}
	show := func() string {
		var b bytes.Buffer
		v := reflect.ValueOf(*prt).Field(0)
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).Kind() != reflect.Func {
				fmt.Fprintf(&b, "%v;", v.Field(i))
			}
		}
		return b.String()
	}
	before := show()
	prt.Search(Box{0, 0, 500, 500})
	if show() != before {
		t.Fatal("a search changed the tree")
	}
}
''',pkg='packedrtree')
P('C18-empty-box-shared','C18','printing a feature','FeatureString expands the package variable EmptyBox itself, so later bounds are wrong and concurrent calls race',
 [('flatgeobuf/stringers.go','''			bounds := packedrtree.EmptyBox
''','''			bounds := &packedrtree.EmptyBox
'''),('flatgeobuf/stringers.go','''geomBounds(&g, &bounds, 0)''','''geomBounds(&g, bounds, 0)'''),('flatgeobuf/stringers.go','''			if bounds == packedrtree.EmptyBox {''','''			if g.XyLength() == 0 && g.PartsLength() == 0 {''')],HELP+'''
func TestSeeded(t *testing.T) {
	was := packedrtree.EmptyBox
	FeatureString(sFeature(1, 2, 0), nil)
	if packedrtree.EmptyBox != was {
		t.Fatal("EmptyBox changed")
	}
}
''')
P('C19-string-buffer','C19','keeping a string over the next ReadString','a string returned earlier changes when the next one is read',
 [(PV,'''	r io.Reader
}''','''	r io.Reader
	// buf holds the bytes of the latest string.
	buf []byte
}'''),(PV,'''	return unsafe.String(&b[0], len(b)), nil''','''	r.buf = append(r.buf[:0], b...)
	return unsafe.String(&r.buf[0], len(b)), nil''')],HELP+'''
func TestSeeded(t *testing.T) {
	r := NewPropReader(bytes.NewReader([]byte("\\x03\\x00\\x00\\x00abc\\x03\\x00\\x00\\x00xyz")))
	s1, err1 := r.ReadString()
	s2, err2 := r.ReadString()
	if err1 != nil || err2 != nil || s1 != "abc" || s2 != "xyz" {
		t.Fatal(s1, s2, err1, err2)
	}
}
''')
P('C19-feature-buffer','C19','reading into the same feature slice while keeping the byte slices of an earlier read','features read into a slice again overwrite the bytes of the features that were there',
 [(FR,'''	copy(tbl, b)
	if _, err = io.ReadFull(r.r, tbl[flatbuffers.SizeUint32:]); err != nil {
		if''','''	if was := f.Table().Bytes; cap(was) >= len(tbl) {
		tbl = was[:len(tbl)]
	}
	copy(tbl[:flatbuffers.SizeUint32], b)
	if _, err = io.ReadFull(r.r, tbl[flatbuffers.SizeUint32:]); err != nil {
		if''')],HELP+'''
func TestSeeded(t *testing.T) {
	r := NewFileReader(bytes.NewReader(sFile(t, 6, 0, 6)))
	if _, err := r.Header(); err != nil {
		t.Fatal(err)
	}
	p := make([]flat.Feature, 1)
	var kept []flat.Feature
	for i := 0; i < 6; i++ {
		if n, _ := r.Data(p); n != 1 {
			t.Fatal(n)
		}
		kept = append(kept, p[0])
	}
	for i := range kept {
		sAt(t, &kept[i], i)
	}
}
''')
