// Demonstrations of the genuine defects found in the original tree (commit
// 9ccce64). Each test fails there and passes on the repaired tree. Run with
//   bash /verif/findings/run.sh
// Nothing in MANIFEST.json depends on this file.
package flatgeobuf

import (
	"bytes"
	"encoding/binary"
	"errors"
	"io"
	"testing"

	"github.com/gogama/flatgeobuf/flatgeobuf/flat"
	"github.com/gogama/flatgeobuf/packedrtree"
	flatbuffers "github.com/google/flatbuffers/go"
)

func mkHeader(n uint64, node uint16) *flat.Header {
	b := flatbuffers.NewBuilder(0)
	flat.HeaderStart(b)
	flat.HeaderAddFeaturesCount(b, n)
	flat.HeaderAddIndexNodeSize(b, node)
	b.FinishSizePrefixed(flat.HeaderEnd(b))
	return flat.GetSizePrefixedRootAsHeader(b.FinishedBytes(), 0)
}

func xyGeom(b *flatbuffers.Builder, xy ...float64) flatbuffers.UOffsetT {
	flat.GeometryStartXyVector(b, len(xy))
	for i := len(xy) - 1; i >= 0; i-- {
		b.PrependFloat64(xy[i])
	}
	v := b.EndVector(len(xy))
	flat.GeometryStart(b)
	flat.GeometryAddXy(b, v)
	return flat.GeometryEnd(b)
}

func mkFeature(pad int, parts bool, xy ...float64) *flat.Feature {
	b := flatbuffers.NewBuilder(0)
	p := b.CreateByteVector(make([]byte, pad))
	var g flatbuffers.UOffsetT
	if parts {
		c := xyGeom(b, xy...)
		flat.GeometryStartPartsVector(b, 1)
		b.PrependUOffsetT(c)
		v := b.EndVector(1)
		flat.GeometryStart(b)
		flat.GeometryAddParts(b, v)
		g = flat.GeometryEnd(b)
	} else {
		g = xyGeom(b, xy...)
	}
	flat.FeatureStart(b)
	flat.FeatureAddGeometry(b, g)
	flat.FeatureAddProperties(b, p)
	b.FinishSizePrefixed(flat.FeatureEnd(b))
	return flat.GetSizePrefixedRootAsFeature(b.FinishedBytes(), 0)
}

func mkFile(t *testing.T, node uint16, fs ...*flat.Feature) []byte {
	t.Helper()
	var buf bytes.Buffer
	w := NewFileWriter(&buf)
	if _, err := w.Header(mkHeader(uint64(len(fs)), node)); err != nil {
		t.Fatal(err)
	}
	if node > 0 {
		if _, err := w.IndexDataPtr(fs); err != nil {
			t.Fatal(err)
		}
	} else {
		for _, f := range fs {
			if _, err := w.Data(f); err != nil {
				t.Fatal(err)
			}
		}
	}
	if err := w.Close(); err != nil {
		t.Fatal(err)
	}
	return buf.Bytes()
}

// rawFile bypasses FileWriter.
func rawFile(n uint64, node uint16, rest ...[]byte) []byte {
	var buf bytes.Buffer
	buf.Write(magic[:])
	buf.Write(mkHeader(n, node).Table().Bytes)
	for _, x := range rest {
		buf.Write(x)
	}
	return buf.Bytes()
}

type onlyReader struct{ io.Reader }

func noPanic(t *testing.T, f func()) {
	t.Helper()
	defer func() {
		if r := recover(); r != nil {
			t.Errorf("panic: %v", r)
		}
	}()
	f()
}

func TestDefectPropInts(t *testing.T) {
	var b bytes.Buffer
	w := NewPropWriter(&b)
	w.WriteShort(-300)
	w.WriteUInt(0x01020304)
	w.WriteLong(-1 << 40)
	r := NewPropReader(&b)
	if v, _ := r.ReadShort(); v != -300 {
		t.Error(v)
	}
	if v, _ := r.ReadUInt(); v != 0x01020304 {
		t.Error(v)
	}
	if v, _ := r.ReadLong(); v != -1<<40 {
		t.Error(v)
	}
}

type oneCol struct{ typ flat.ColumnType }

func (oneCol) ColumnsLength() int { return 1 }
func (c oneCol) Columns(obj *flat.Column, j int) bool {
	b := flatbuffers.NewBuilder(0)
	flat.ColumnStart(b)
	flat.ColumnAddType(b, c.typ)
	b.Finish(flat.ColumnEnd(b))
	x := flat.GetRootAsColumn(b.FinishedBytes(), 0)
	obj.Init(x.Table().Bytes, x.Table().Pos)
	return true
}

func TestDefectSchemaValueErrorDropped(t *testing.T) {
	for _, in := range [][]byte{{0, 0}, {0, 0, 1}, {0, 0, 1, 2, 3}} {
		v, err := NewPropReader(bytes.NewReader(in)).ReadSchema(oneCol{flat.ColumnTypeInt})
		if err == nil {
			t.Errorf("truncated value accepted: %v", v)
		}
		if errors.Is(err, io.EOF) {
			t.Errorf("truncation reported as EOF")
		}
	}
	noPanic(t, func() {
		_, err := NewPropReader(bytes.NewReader([]byte{0, 0, 1, 2})).ReadSchema(oneCol{99})
		if err == nil {
			t.Error("unknown type accepted")
		}
	})
}

func TestDefectWriterRejectsEverything(t *testing.T) {
	w := NewFileWriter(io.Discard)
	if _, err := w.Header(mkHeader(1, 0)); err != nil {
		t.Fatal(err)
	}
	if _, err := w.Data(mkFeature(3, false, 1, 2)); err != nil {
		t.Fatal(err)
	}
}

func TestDefectTableSizeShort(t *testing.T) {
	noPanic(t, func() {
		h := mkHeader(1, 0)
		b := append([]byte{}, h.Table().Bytes...)
		binary.LittleEndian.PutUint32(b, uint32(len(b)))
		if _, err := NewFileWriter(io.Discard).Header(flat.GetSizePrefixedRootAsHeader(b, 0)); err == nil {
			t.Error("oversized prefix accepted")
		}
	})
	noPanic(t, func() {
		w := NewFileWriter(io.Discard)
		if _, err := w.Header(mkHeader(1, 0)); err != nil {
			t.Fatal(err)
		}
		if _, err := w.Data(&flat.Feature{}); err == nil {
			t.Error("zero feature accepted")
		}
	})
}

func TestDefectIndexOffsets(t *testing.T) {
	a, b, c := mkFeature(1, false, 0, 0), mkFeature(50, false, 10, 10), mkFeature(7, false, 20, 0)
	data := mkFile(t, 2, a, b, c)
	for name, r := range map[string]io.Reader{"seek": bytes.NewReader(data), "stream": onlyReader{bytes.NewReader(data)}} {
		t.Run(name, func(t *testing.T) {
			noPanic(t, func() {
				for i, f := range []*flat.Feature{a, b, c} {
					x, y := []float64{0, 10, 20}[i], []float64{0, 10, 0}[i]
					fr := NewFileReader(r)
					if s, ok := r.(io.Seeker); ok {
						s.Seek(0, io.SeekStart)
					} else {
						fr = NewFileReader(onlyReader{bytes.NewReader(data)})
					}
					if _, err := fr.Header(); err != nil {
						t.Fatal(err)
					}
					fs, err := fr.IndexSearch(packedrtree.Box{XMin: x, YMin: y, XMax: x, YMax: y})
					if err != nil || len(fs) != 1 || !bytes.Equal(fs[0].Table().Bytes, f.Table().Bytes) {
						t.Errorf("feature %d: %v %d", i, err, len(fs))
					}
				}
			})
		})
	}
}

func TestDefectSearchOrder(t *testing.T) {
	var all []*flat.Feature
	for i := 0; i < 40; i++ {
		all = append(all, mkFeature(i, false, float64(i*7%40), float64(i*13%40)))
	}
	data := mkFile(t, 4, all...)
	r := NewFileReader(bytes.NewReader(data))
	r.Header()
	fs, err := r.IndexSearch(packedrtree.Box{XMin: 0, YMin: 0, XMax: 20, YMax: 20})
	if err != nil {
		t.Fatal(err)
	}
	want := 0
	for _, f := range all {
		var g flat.Geometry
		f.Geometry(&g)
		if g.Xy(0) <= 20 && g.Xy(1) <= 20 {
			if want >= len(fs) || !bytes.Equal(fs[want].Table().Bytes, f.Table().Bytes) {
				t.Fatalf("result %d is the wrong feature", want)
			}
			want++
		}
	}
	if want != len(fs) {
		t.Fatal(want, len(fs))
	}
}

func TestDefectPartsNotIndexed(t *testing.T) {
	data := mkFile(t, 2, mkFeature(1, true, 3, 4), mkFeature(1, false, 9, 9))
	r := NewFileReader(bytes.NewReader(data))
	r.Header()
	fs, err := r.IndexSearch(packedrtree.Box{XMin: 3, YMin: 4, XMax: 3, YMax: 4})
	if err != nil || len(fs) != 1 {
		t.Fatal(err, len(fs))
	}
}

func TestDefectIndexRewindIndex(t *testing.T) {
	data := mkFile(t, 2, mkFeature(1, false, 3, 4), mkFeature(1, false, 9, 9))
	r := NewFileReader(bytes.NewReader(data))
	r.Header()
	r.Index()
	if err := r.Rewind(); err != nil {
		t.Fatal(err)
	}
	r.Index()
	fs, err := r.DataRem()
	if err != nil || len(fs) != 2 || fs[0].Table().Bytes[0] == 'f' {
		t.Fatal(err, len(fs))
	}
}

func TestDefectHeaderParsePanicNotSticky(t *testing.T) {
	var buf bytes.Buffer
	buf.Write(magic[:])
	buf.Write([]byte{4, 0, 0, 0, 0xff, 0xff, 0xff, 0x0f})
	r := NewFileReader(&buf)
	_, err := r.Header()
	if err == nil {
		t.Fatal("no error")
	}
	noPanic(t, func() {
		_, err2 := r.Data(make([]flat.Feature, 1))
		if err2 != err {
			t.Error(err2)
		}
	})
}

func TestDefectZeroFeaturesDefaultNodeSize(t *testing.T) {
	f := mkFeature(1, false, 1, 1)
	data := rawFile(0, 16, f.Table().Bytes)
	noPanic(t, func() {
		r := NewFileReader(bytes.NewReader(data))
		r.Header()
		if _, err := r.Index(); err != nil {
			t.Error(err)
		}
		fs, err := r.DataRem()
		if err != nil || len(fs) != 1 {
			t.Error(err, len(fs))
		}
	})
	noPanic(t, func() {
		r := NewFileReader(onlyReader{bytes.NewReader(data)})
		r.Header()
		fs, err := r.DataRem()
		if err != nil || len(fs) != 1 {
			t.Error(err, len(fs))
		}
	})
	noPanic(t, func() {
		w := NewFileWriter(io.Discard)
		w.Header(mkHeader(0, 16))
		if _, err := w.IndexData(nil); err == nil {
			t.Error("no error")
		}
		w = NewFileWriter(io.Discard)
		w.Header(mkHeader(3, 16))
		if _, err := w.IndexData(nil); err == nil {
			t.Error("no error")
		}
	})
}

func TestDefectEmptySliceIsEOF(t *testing.T) {
	f := mkFeature(1, false, 1, 1)
	r := NewFileReader(bytes.NewReader(rawFile(0, 0, f.Table().Bytes)))
	r.Header()
	if n, err := r.Data(nil); n != 0 || err != nil {
		t.Error(n, err)
	}
	if fs, err := r.DataRem(); len(fs) != 1 || err != nil {
		t.Error(len(fs), err)
	}
}

func TestDefectDataRemAfterSearch(t *testing.T) {
	data := mkFile(t, 2, mkFeature(1, false, 3, 4), mkFeature(1, false, 9, 9))
	r := NewFileReader(bytes.NewReader(data))
	r.Header()
	if _, err := r.IndexSearch(packedrtree.EmptyBox); err != nil {
		t.Fatal(err)
	}
	noPanic(t, func() {
		if fs, err := r.DataRem(); len(fs) != 0 || err != nil {
			t.Error(len(fs), err)
		}
	})
}

func TestDefectTruncationIsEOF(t *testing.T) {
	data := mkFile(t, 2, mkFeature(1, false, 3, 4), mkFeature(1, false, 9, 9))
	start := len(data) - 2*len(mkFeature(1, false, 3, 4).Table().Bytes)
	for cut := len(rawFile(2, 2)); cut < len(data); cut++ {
		for _, seek := range []bool{false, true} {
			noPanic(t, func() {
				var in io.Reader = bytes.NewReader(data[:cut])
				if !seek {
					in = onlyReader{in}
				}
				r := NewFileReader(in)
				r.Header()
				_, err := r.Data(make([]flat.Feature, 2))
				if err == nil || errors.Is(err, io.EOF) {
					t.Errorf("cut=%d (data %d) seek=%v err=%v", cut, start, seek, err)
				}
				if _, err2 := r.DataRem(); err2 == nil {
					t.Errorf("cut=%d: not sticky", cut)
				}
			})
		}
	}
}

func TestDefectFeatureLenWrap(t *testing.T) {
	for _, l := range []uint32{0xffffffff, 0xfffffffc} {
		var b [4]byte
		binary.LittleEndian.PutUint32(b[:], l)
		r := NewFileReader(bytes.NewReader(rawFile(1, 0, b[:], make([]byte, 100))))
		r.Header()
		noPanic(t, func() {
			if _, err := r.Data(make([]flat.Feature, 1)); err == nil {
				t.Error("no error")
			}
		})
	}
}

func TestDefectHostileCount(t *testing.T) {
	r := NewFileReader(bytes.NewReader(rawFile(1<<60, 0)))
	r.Header()
	noPanic(t, func() {
		if _, err := r.DataRem(); err == nil {
			t.Error("no error")
		}
	})
}

func TestDefectHostileChild(t *testing.T) {
	var b bytes.Buffer
	prt, _ := packedrtree.New(make([]packedrtree.Ref, 4), 2)
	prt.Marshal(&b)
	for _, off := range []int64{-1, 0, 1 << 40, 3} {
		x := append([]byte{}, b.Bytes()...)
		binary.LittleEndian.PutUint64(x[32:], uint64(off))
		noPanic(t, func() {
			if _, err := packedrtree.Seek(bytes.NewReader(x), 4, 2, packedrtree.Box{}); err == nil {
				t.Error("no error from Seek", off)
			}
		})
		noPanic(t, func() {
			p, err := packedrtree.Unmarshal(bytes.NewReader(x), 4, 2)
			if err == nil {
				p.Search(packedrtree.Box{})
				t.Error("no error from Unmarshal", off)
			}
		})
	}
}

func TestDefectOverlappingOffsets(t *testing.T) {
	f := mkFeature(1, false, 0, 0)
	var b bytes.Buffer
	prt, _ := packedrtree.New([]packedrtree.Ref{{Offset: 0}, {Offset: 2}}, 2)
	prt.Marshal(&b)
	r := NewFileReader(bytes.NewReader(rawFile(2, 2, b.Bytes(), f.Table().Bytes, f.Table().Bytes)))
	r.Header()
	if _, err := r.IndexSearch(packedrtree.Box{}); err == nil {
		t.Error("returned a feature that is not at its indexed offset")
	}
}

// A geometry whose only part is itself (the offset wraps around 2^32).
func TestDefectGeometryCycle(t *testing.T) {
	f := mkFeature(1, true, 3, 4)
	var g, h flat.Geometry
	f.Geometry(&g)
	g.Parts(&h, 0)
	tab := g.Table()
	o := flatbuffers.UOffsetT(tab.Offset(18))
	x := tab.Vector(o) // position of the element
	binary.LittleEndian.PutUint32(tab.Bytes[x:], uint32(tab.Pos-x))
	noPanic(t, func() {
		if s := FeatureString(f, nil); len(s) < 6 || s[:6] != "error:" {
			t.Error(s)
		}
		w := NewFileWriter(io.Discard)
		w.Header(mkHeader(1, 2))
		if _, err := w.IndexDataPtr([]*flat.Feature{f}); err == nil {
			t.Error("no error")
		}
	})
}

func TestDefectReadSchemaCorruptSchema(t *testing.T) {
	b := append([]byte{}, mkHeader(1, 0).Table().Bytes...)
	h := flat.GetSizePrefixedRootAsHeader(b, 0)
	h.Init(b, flatbuffers.UOffsetT(len(b))) // any corrupt table
	noPanic(t, func() {
		if _, err := NewPropReader(bytes.NewReader([]byte{0, 0, 1})).ReadSchema(h); err == nil {
			t.Error("no error")
		}
	})
}
